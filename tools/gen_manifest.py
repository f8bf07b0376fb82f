#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from settings import PROPS, DEFAULT
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = 'the real library runs against a simulated stick in virtual time (testing/synctest); '
T = {
 'C01': ('online parser over the bytes written to the port', SIM + 'every written byte of every case is parsed and compared with what was sent'),
 'C02': ('executable reference decoder on generated and hostile buffers', 'reference decoder compared on every buffer, with and without trailing bytes; input compared before and after'),
 'C03': ('executable reference decoder on generated frames', 'all values of a decoded message compared with an independent decoder'),
 'C04': ('executable reference decoder, exhaustive over short payloads', 'all report classes, all payloads up to two bytes enumerated over the cases, longer ones drawn at random'),
 'C05': ('online monitor of transmitted payloads against a reference encoder', SIM + 'each call judged by what it transmitted'),
 'S01': ('offline checker: processed items against a reference scan of the recorded byte stream', SIM + 'streams cut at random with random pauses'),
 'S02': ('crash monitor and liveness probes under hostile streams', SIM + 'a process crash or a missing answer after 40 ms of silence is a violation'),
 'S03': ('online monitor of acknowledge bytes against the reference scan', SIM + 'each acknowledge byte is attributed to a processed frame'),
 'K01': ('offline checker of the recorded transmissions (order, exactly once)', SIM + 'unique payloads, concurrent senders'),
 'K02': ('offline checker of the recorded transmissions (one outstanding, pacing)', SIM + 'virtual time makes the limits exact'),
 'K03': ('offline checker of ACK/NAK/CAN histories', SIM + 'a reference state machine predicts each retransmission and each failed caller'),
 'K04': ('offline checker: delivered answers against the received frames', SIM + 'each delivered value must be explained by a frame received while the request waited'),
 'K05': ('bounded-progress monitor over all waiting calls', SIM + 'each call must end by answer, refusal or time limit'),
 'K06': ('fault injection with monitors on both sides of the port', SIM + 'ports fail and refuse to open; transmissions, states and openings are judged'),
 'K07': ('monitor of the connected flag and of port openings', SIM + 'the flag is sampled under its lock during failures'),
 'N01': ('monitor of list, events and usability at the moment of the event', SIM + 'every announced node is looked up and used in the event handler'),
 'N02': ('differential monitor: node facts against the simulated devices', SIM + 'answers delayed, reordered, lost, repeated; restart included'),
 'N03': ('online monitor of transmissions against wake-ups', SIM + 'each transmission to a sleeping node needs its own earlier wake-up'),
 'N04': ('reference state machine over the recorded reports', SIM + 'state compared after every pause'),
 'N05': ('reference time line of alarms', SIM + 'state and events compared before, at and after the fall-back'),
 'N06': ('linearizability checking of recorded histories (porcupine)', 'real concurrency, histories with call and return order, results compared with a sequential map'),
 'E01': ('monitor of the event stream against the reports', SIM + 'state inspected at every event'),
 'P01': ('round-trip monitor: save, restore, compare, use, save again', SIM + 'restored nodes are controlled and updated'),
 'P02': ('crash and fault injection at every system call of a save (seccomp filter, kill, file size limit)', 'a child process is killed or refused at each file operation; the file left behind must be one of the two networks'),
 'P03': ('crash monitor over mutated configuration files', SIM + 'truncations and structural mutations, then reports, commands and discovery'),
 'P04': ('monitor of the file in virtual time', SIM + 'file content compared with the network after each burst'),
 'R01': ('monitor of both ends of a pseudo terminal against the decoded log', 'real pseudo terminal, concurrent reader and writer'),
 'R02': ('reference converter compared with the real program', 'real program on generated recordings, all filters'),
 'D01': ('differential monitor: lookups against the sources, exhaustive over the listed ids', 'all listed ids every run, unlisted ones at random'),
 'D02': ('differential monitor: lookups against the specification, exhaustive over all pairs', 'all 65536 pairs every case'),
 'D03': ('differential monitor: generated code is compiled and executed', 'generators run on random sources, the generated package is compiled and dumped'),
 'X02': ('resource monitor: goroutines, heap objects, open files and ports of the idle library', SIM + 'measured before and after hundreds of operations of each kind, growth has to repeat in every one of four rounds'),
 'X03': ('online monitor of every operation over very long histories', SIM + 'one kind of operation is repeated up to 70000 times, each single one is judged'),
 'X01': ('Go race detector and deadlock detection in virtual time', SIM + 'race detector build under mixed and borrowed workloads; races need to be executed to be seen'),
}
checks = []
for pid in sorted(PROPS):
    cfg = dict(DEFAULT, **PROPS[pid])
    tech, note = T[pid]
    checks.append(dict(property=pid, quick_cmd='bash run.sh %s' % pid, thorough_cmd='VERIF_TIER=thorough bash run.sh %s' % pid,
                       evidence_file='evidence/%s.json' % pid, technique=tech, level=cfg['level'],
                       level_note=note + '. Holds on the executions observed; simulator, reference and Go toolchain are trusted.'))
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=[],
         notes='No hooks in /repo: everything is observed at the exported API, the port, the files and the process. Randomness comes from VERIF_SEED, sizes from VERIF_TIER.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
