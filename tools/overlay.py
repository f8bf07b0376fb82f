#!/usr/bin/env python3
"""overlay.py GOROOT/src OUT: writes the changed runtime files and OUT/overlay.json, see build.sh"""
import json, os, re, sys

src, out = sys.argv[1:3]


def once(s, old, new, n=1):
    if s.count(old) < 1:
        sys.exit('overlay: %r not found' % old)
    return s.replace(old, new) if n == 0 else s.replace(old, new, n)


def runtime2(s):
    m = '\twaitReasonSynctestSelect:        true,\n'
    s = once(s, m, m + '\twaitReasonSyncMutexLock: true,\n\twaitReasonSyncRWMutexRLock: true,\n'
             '\twaitReasonSyncRWMutexLock: true,\n')
    return s + '''
// giveWay lets another goroutine run, sometimes
func giveWay() {
	gp := getg()
	if m := gp.m; gp == m.curg && m.locks == 0 && m.mallocing == 0 && m.preemptoff == "" && gp.throwsplit == false && cheaprandn(16) == 0 {
		goyield()
	}
}

//go:linkname internal_sync_giveWay internal/sync.giveWay
func internal_sync_giveWay() { giveWay() }

//go:linkname sync_giveWay sync.giveWay
func sync_giveWay() { giveWay() }

//go:linkname internal_sync_handOver internal/sync.handOver
func internal_sync_handOver() bool {
	gp := getg()
	return gp.m.locks == 0 && cheaprandn(4) == 0
}
'''


def proc(s):
    return once(s, 'const randomizeScheduler = raceenabled', 'const randomizeScheduler = true')


def mutex(s):
    s = once(s, 'starvationThresholdNs = 1e6', 'starvationThresholdNs = 0')
    s = once(s, 'runtime_Semrelease(&m.sema, false, 2)', 'runtime_Semrelease(&m.sema, handOver(), 2)')
    s = once(s, 'func (m *Mutex) Lock() {\n', 'func (m *Mutex) Lock() {\n\tgiveWay()\n')
    s = once(s, '\t\tm.unlockSlow(new)\n\t}\n', '\t\tm.unlockSlow(new)\n\t}\n\tgiveWay()\n')
    return s + '\n//go:linkname giveWay\nfunc giveWay()\n\n//go:linkname handOver\nfunc handOver() bool\n'


def rwmutex(s):
    s = once(s, 'func (rw *RWMutex) RLock() {\n', 'func (rw *RWMutex) RLock() {\n\tgiveWay()\n')
    s = once(s, '\t\trw.rUnlockSlow(r)\n\t}\n', '\t\trw.rUnlockSlow(r)\n\t}\n\tgiveWay()\n')
    return s + '\n//go:linkname giveWay\nfunc giveWay()\n'


def chan(s):
    """Channels made by package initialisation: waiting for them in a bubble counts as waiting, so that time goes on"""
    s = once(s, '\tbubble   *synctestBubble\n', '\tbubble   *synctestBubble\n\tearly    bool // made by package initialisation\n')
    s = once(s, '\tif b := getg().bubble; b != nil {\n\t\tc.bubble = b\n\t}', '\tif b := getg().bubble; b != nil {\n\t\tc.bubble = b\n\t} else if !mainInitDone.Load() {\n\t\tc.early = true\n\t}')
    for w in ('Send', 'Receive'):
        s = once(s, '\tif c.bubble != nil {\n\t\treason = waitReasonSynctestChan' + w, '\tif c.bubble != nil || c.early && gp.bubble != nil {\n\t\treason = waitReasonSynctestChan' + w)
    return s


def selekt(s):
    return once(s, '\t\t} else {\n\t\t\tallSynctest = false\n', '\t\t} else if !cas.c.early {\n\t\t\tallSynctest = false\n')


FILES = {'runtime/runtime2.go': runtime2, 'runtime/proc.go': proc, 'runtime/chan.go': chan, 'runtime/select.go': selekt, 'internal/sync/mutex.go': mutex,
         'sync/rwmutex.go': rwmutex}


def put(path, s):
    if os.path.exists(path) and open(path).read() == s:
        return
    open(path + '.new', 'w').write(s)
    os.replace(path + '.new', path)


replace = {}
for name, f in FILES.items():
    path = os.path.join(out, name.replace('/', '_'))
    s = f(open(os.path.join(src, name)).read())
    if name == 'sync/rwmutex.go' and '"unsafe"' not in s:
        sys.exit('overlay: sync/rwmutex.go does not import unsafe')
    put(path, s)
    replace[os.path.join(src, name)] = path
put(os.path.join(out, 'overlay.json'), json.dumps({'Replace': replace}))
