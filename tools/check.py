#!/usr/bin/env python3
"""Decides one property: builds the monitor from /repo's working tree, runs its cases on all cores,
collects what the monitors saw and writes evidence/<ID>.json.

exit 0  held on everything explored
exit 1  VIOLATION property=<id> replay=<path>
exit 2  no answer (the build failed, or the monitors did not observe what they have to)
"""
import argparse, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from settings import PROPS, DEFAULT  # noqa

GOZ = 'github.com/stampzilla/gozwave'


def build(kind):
    r = subprocess.run(['bash', os.path.join(HERE, 'tools/build.sh'), kind],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout)
        print('NO ANSWER: the monitor does not build')
        sys.exit(2)


class Batch:
    def __init__(self, frm, to, tag=''):
        self.frm, self.to, self.tag = frm, to, tag


def goroutines(text):
    """splits a crash report into goroutine stacks"""
    return re.split(r'\n\n(?=goroutine \d+)', text)


def classify_crash(err):
    """(is the library to blame, text)"""
    m = re.search(r'^(panic:|fatal error:|unexpected fault|SIGSEGV|runtime: )', err, re.M)
    text = err[m.start():] if m else err
    stacks = goroutines(text)
    if re.search(r'deadlock: ', text.split('\n\n')[0]):
        lib = any(GOZ in s for s in stacks)
        return lib, text
    run = [s for s in stacks if re.search(r'goroutine \d+[^\n]*\[running', s)]
    if not run:
        run = stacks[:1]
    return any(GOZ in s for s in run), text


class Runner:
    def __init__(self, pid, cfg, tier, seed, work):
        self.pid, self.cfg, self.tier, self.seed, self.work = pid, cfg, tier, seed, work
        self.cases, self.viol, self.noans, self.notes = {}, [], [], []
        self.lock = threading.Lock()
        self.stop = False

    def run(self, batches, workers):
        q = list(batches)

        def loop():
            while True:
                with self.lock:
                    if not q or self.stop or time.time() > self.deadline:
                        return
                    b = q.pop(0)
                self.batch(b)
        ts = [threading.Thread(target=loop) for _ in range(workers)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    def batch(self, b):
        base = os.path.join(self.work, 'b%d%s' % (b.frm, b.tag))
        out, errf = base + '.jsonl', base + '.err'
        scratch = base + '.d'
        os.makedirs(scratch, exist_ok=True)
        other = None  # a directory on another file system
        try:
            if os.stat('/dev/shm').st_dev != os.stat(scratch).st_dev:
                other = tempfile.mkdtemp(prefix='zw.', dir='/dev/shm')
        except OSError:
            pass
        env = dict(os.environ, VP_PROP=self.pid, VP_FROM=str(b.frm), VP_TO=str(b.to), VP_SEED=str(self.seed),
                   VP_TIER=self.tier, VP_OUT=out, VP_HERE=HERE, TMPDIR=scratch, VP_OTHER=other or '', GOTRACEBACK='all')
        if self.cfg['kind'] == 'race':
            env['GORACE'] = 'halt_on_error=0 history_size=3 log_path=%s.race' % base
            env['GOMAXPROCS'] = '4'
            env['VP_RACELOG'] = base + '.race'
        if self.cfg.get('env'):
            env.update(self.cfg['env'])
        err = open(errf, 'wb')
        p = subprocess.Popen([os.path.join(os.environ.get('VP_BIN') or os.path.join(HERE, 'bin'), 'zw.' + self.cfg['kind']),
                              '-test.run', '^TestWorker$', '-test.timeout', '0'],
                             stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, env=env, cwd=scratch,
                             start_new_session=True)
        size, changed, hung = -1, time.time(), False
        limit = self.cfg['case_wall']
        while p.poll() is None:
            time.sleep(0.05)
            try:
                s = os.path.getsize(out)
            except OSError:
                s = -1
            if s != size:
                size, changed = s, time.time()
            elif time.time() - changed > limit:
                hung = True
                p.send_signal(signal.SIGQUIT)
                try:
                    p.wait(10)
                except subprocess.TimeoutExpired:
                    pass
                break
            if self.stop:
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        err.close()
        started, done = None, {}
        if os.path.exists(out):
            for l in open(out):
                try:
                    r = json.loads(l)
                except ValueError:
                    continue
                if 'start' in r:
                    started = r['start']
                else:
                    done[r['case']] = r
        text = open(errf, errors='replace').read()
        with self.lock:
            self.cases.update(done)
            for i, r in sorted(done.items()):
                if r.get('viol'):
                    self.viol.append((i, r['viol'], r.get('sample')))
                    self.stop = True
            if self.stop and p.returncode == -9:
                pass
            elif hung:
                run = [g for g in goroutines(text) if re.match(r'\s*goroutine \d+[^\n]*\[(running|runnable)', g) and GOZ in g]
                if run:
                    self.viol.append((started, ['the library is busy for more than %d s without getting anywhere:\n%s' % (limit, run[0][:3000])], None))
                    self.stop = True
                else:
                    self.noans.append('case %s did not end within %d s\n%s' % (started, limit, text[-3000:]))
            elif p.returncode != 0 and started is not None and started not in done:
                lib, t = classify_crash(text)
                if lib:
                    self.viol.append((started, ['the library crashed:\n' + t[:4000]], None))
                    self.stop = True
                else:
                    self.noans.append('worker ended with %d in case %s\n%s' % (p.returncode, started, t[:3000]))
            elif len(done) < b.to - b.frm and not self.stop:
                self.noans.append('worker ended with %d after %d of %d cases\n%s' % (p.returncode, len(done), b.to - b.frm, text[-2000:]))
            if self.cfg['kind'] == 'race':
                self.races(base, min([i for i, r in done.items() if r.get('race')] or [started]))
        shutil.rmtree(scratch, ignore_errors=True)
        if other:
            shutil.rmtree(other, ignore_errors=True)

    def races(self, base, case):
        d = os.path.dirname(base)
        for f in os.listdir(d):
            if not f.startswith(os.path.basename(base) + '.race.'):
                continue
            t = open(os.path.join(d, f), errors='replace').read()
            for rep in re.split(r'={10,}\n', t):
                if 'WARNING: DATA RACE' not in rep:
                    continue
                # the two accesses: the library is involved if one of them happens in its code
                acc = re.split(r'\n\n', rep)
                acc = [a for a in acc if re.search(r'(Read|Write|read|write) at 0x', a)]
                if any(GOZ in a for a in acc) or ('failed to restore the stack' in rep and GOZ in rep):
                    self.viol.append((case, ['data race:\n' + rep[:4000]], None))
                    self.stop = True
                else:
                    self.notes.append('race outside of the library:\n' + rep[:1500])


def known_findings(pid):
    """lines 'finding: property=<id> match=<regexp> what=<text>' of KNOWN_FINDINGS.txt"""
    r = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=/(.*)/ what=(.*)', l)
            if m and m.group(1) == pid:
                r.append((re.compile(m.group(2), re.S), m.group(3)))
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--replay')
    ap.add_argument('--cases')
    ap.add_argument('--from', dest='frm', type=int, default=0)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.id
    cfg = dict(DEFAULT, **PROPS[pid])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    except ValueError:
        seed = 1
    n = int(a.cases or cfg[tier])
    frm = a.frm
    if a.replay:
        rp = json.load(open(a.replay))
        seed, tier, frm, n = rp['seed'], rp['tier'], rp['case'], 1
    t0 = time.time()
    build(cfg['kind'])
    for extra in cfg.get('prepare', []):
        subprocess.run(['bash', os.path.join(HERE, 'tools', extra)], check=False)
    work = tempfile.mkdtemp(prefix='zwcheck.')
    os.chmod(work, 0o755)
    try:
        r = Runner(pid, cfg, tier, seed, work)
        r.deadline = time.time() + (cfg['quick_wall'] if tier == 'quick' else cfg['thorough_wall'])
        size = max(1, min(cfg['batch'], (n + cfg['workers'] - 1) // cfg['workers']))
        batches = [Batch(i, min(i + size, frm + n)) for i in range(frm, frm + n, size)]
        if a.replay and cfg['kind'] == 'race':  # the scheduling differs each time
            batches = [Batch(b.frm, b.to, '.%d' % i) for b in batches for i in range(40)]
        r.run(batches, cfg['workers'])
    finally:
        shutil.rmtree(work, ignore_errors=True)

    stats, fps, nontriv, incon = {}, set(), 0, []
    for i, c in sorted(r.cases.items()):
        for k, v in (c.get('stats') or {}).items():
            stats[k] = max(stats.get(k, 0), v) if k.startswith('max_') else stats.get(k, 0) + v
        if c.get('nontrivial'):
            nontriv += 1
            fps.add(c.get('fp'))
        for x in c.get('incon') or []:
            incon.append('case %d: %s' % (i, x))
    samples = [c['sample'] for i, c in sorted(r.cases.items()) if c.get('sample') is not None][:3]

    known, fresh = [], []
    kf = known_findings(pid)
    for v in r.viol:
        hit = [w for rx, w in kf if all(rx.search(t) for t in v[1])]
        (known if hit else fresh).append((v, hit))
    for w in sorted({h[0] for v, h in known}):
        print('KNOWN-FINDING: property=%s %s' % (pid, w))

    rule = subprocess_rule(pid)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': cfg['level'],
          'coverage': {'evaluations': len(r.cases), 'distinct_nontrivial': len(fps), 'rule': rule,
                       'samples': samples, 'observed': stats, 'nontrivial_cases': nontriv,
                       'inconclusive_cases': len(incon)},
          'assumptions': cfg['assumptions'], 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    if not a.replay and a.cases is None:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    print('%s: %d cases, %d non-trivial, %d distinct, %s, %.1f s' % (pid, len(r.cases), nontriv, len(fps), json.dumps(stats), time.time() - t0))
    for x in r.notes[:3]:
        print('note:', x)
    if a.v or fresh:
        for x in incon[:10]:
            print('inconclusive:', x)
    if fresh:
        (case, texts, sample), _ = fresh[0]
        for t in texts[:40 if a.v else 8]:
            print('  case %s: %s' % (case, t))
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', '%s-%s-%s.json' % (pid, seed, case))
        if a.replay:
            path = os.path.abspath(a.replay)
        else:
            json.dump({'property': pid, 'seed': seed, 'tier': tier, 'case': case, 'violations': texts, 'sample': sample,
                       'how': 'bash run.sh %s --replay %s' % (pid, path)}, open(path, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.exit(1)
    if r.noans:
        print('NO ANSWER:', r.noans[0])
        sys.exit(2)
    if not r.cases or nontriv < max(1, len(r.cases) * cfg['min_nontrivial']):
        for x in incon[:10]:
            print('inconclusive:', x)
        print('NO ANSWER: only %d of %d cases observed what the property is about' % (nontriv, len(r.cases)))
        sys.exit(2)


def subprocess_rule(pid):
    """the rule is registered in the harness, next to the generator"""
    d = os.path.join(HERE, 'harness', 'sim')
    for f in sorted(os.listdir(d)):
        if f.endswith('.go'):
            m = re.search(r'register\("%s", "((?:[^"\\]|\\.)*)"' % pid, open(os.path.join(d, f)).read())
            if m:
                return json.loads('"' + m.group(1) + '"')
    return ''


if __name__ == '__main__':
    main()
