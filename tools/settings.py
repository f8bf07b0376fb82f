"""How much each check runs."""

TRUST = 'the simulated stick, the reference decoder and the Go toolchain with testing/synctest are trusted; what no case reaches is not judged'

DEFAULT = dict(kind='plain', quick=4000, thorough=100000, batch=40, workers=8, case_wall=60, quick_wall=400,
               thorough_wall=7200, level='exploration', min_nontrivial=0.5, assumptions=[TRUST])

PROPS = {
    'C01': dict(quick=2400, thorough=40000),
    'C02': dict(quick=1200, thorough=20000),
    'C03': dict(quick=1200, thorough=20000),
    'C04': dict(quick=1200, thorough=20000),
    'C05': dict(),
    'S01': dict(),
    'S02': dict(),
    'S03': dict(),
    'K01': dict(quick=1200, thorough=20000),
    'K02': dict(),
    'K03': dict(),
    'K04': dict(),
    'K05': dict(),
    'K06': dict(),
    'K07': dict(),
    'N01': dict(),
    'N02': dict(quick=2000, thorough=50000),
    'N03': dict(quick=1600, thorough=40000),
    'N04': dict(),
    'N05': dict(),
    'N06': dict(min_nontrivial=0.2),
    'E01': dict(),
    'P01': dict(quick=1600, thorough=40000),
    'P02': dict(quick=400, thorough=10000, batch=4, level='fault_enumeration'),
    'P03': dict(quick=2400, thorough=60000),
    'P04': dict(quick=2400, thorough=60000),
    'R01': dict(quick=640, thorough=10000),
    'R02': dict(quick=1600, thorough=30000, prepare=['build_tools.sh']),
    'D01': dict(quick=64, thorough=800),
    'D02': dict(quick=64, thorough=800),
    'D03': dict(quick=80, thorough=1500, batch=5, prepare=['build_tools.sh']),
    'X02': dict(quick=160, thorough=4000, batch=10),
    'X03': dict(quick=40, thorough=1000, batch=2, case_wall=150),
    'X01': dict(kind='race', quick=240, thorough=6000, batch=10, case_wall=150),
}
