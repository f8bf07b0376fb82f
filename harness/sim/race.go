package sim

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/stampzilla/gozwave/nodes"
)

func init() {
	register("X01", "race detector build. Half of the cases: 6 to 12 goroutines with 10 to 40 operations each (controlling, looking up, listing, serialising and saving, reading fields under the documented locks, requests of all kinds with and without a reader, additions, events with or without a reader), while 2 to 8 devices are identified, wake up and report (also alarms), answers are lost or refused and the port fails and can not be opened for a while; all of them have to get through in virtual time. The others: the workloads of the other properties, only watched for races and crashes. Non-trivial when all goroutines did their operations, with a port failure, a timeout and reports in between, or when the workload was completed", runX01)
}

// workloads of other properties that use the library from several goroutines
var raceLoads = []string{"K01", "K02", "K03", "K04", "K05", "K06", "K07", "S02", "C05", "N01", "N02", "N03", "N04", "N05", "N06", "E01", "P01", "P04", "R01", "P03"}

func runX01(c *Case) {
	if c.Index%2 == 1 {
		id := raceLoads[(c.Index/2)%len(raceLoads)]
		sub := &Case{Prop: id, Seed: c.Seed, Index: c.Index, Tier: c.Tier, T: c.T, R: c.R, stats: map[string]int{}}
		props[id].Run(sub) // its verdict belongs to its own check, except that nothing may be stuck
		for _, v := range sub.viol {
			for _, s := range []string{"block", "never released", "not return"} {
				if strings.Contains(v, s) {
					c.Violate("load of %s: %s", id, v)
					break
				}
			}
		}
		c.Count("workloads_of_other_properties", 1)
		c.Mark(id, sub.fp)
		c.Sample("workload of " + id)
		if sub.nontrivial {
			c.Nontrivial()
		}
		return
	}
	c.Bubble(func() { mixedLoad(c) })
}

// spin is jitter that orders nothing.
func spin(r *rand.Rand) {
	if r.Intn(3) == 0 {
		runtime.Gosched()
	}
	x := uint32(1)
	for i := r.Intn(200); i > 0; i-- {
		x = x*1664525 + 1013904223
	}
	if x == 77 {
		runtime.Gosched()
	}
}

func mixedLoad(c *Case) {
	w := NewWorld(c)
	r := newRand(c)
	b := newBot(w, r)
	ids := distinctIDs(c.R, 2+c.R.Intn(7))
	for _, id := range ids {
		b.Nodes[id] = randDevice(c.R, id)
	}
	b.List = ids
	b.ListLate = []time.Duration{time.Millisecond, 100 * time.Millisecond, 3 * time.Second}[c.R.Intn(3)]
	b.Loss = []int{0, 30}[c.R.Intn(2)]
	b.Dup = []int{0, 40}[c.R.Intn(2)]
	b.ManuMax, b.EndpMax = 900*time.Millisecond, 500*time.Millisecond
	refuse := []int{0, 0, 15}[c.R.Intn(3)]
	mute := []int{0, 15}[c.R.Intn(2)]
	w.Op.Handle = func(p *Port, frame []byte) {
		switch k := r.Intn(100); {
		case k < mute: // no answer at all
		case k < mute+refuse:
			p.FeedAfter(r.Dur(0, 5*time.Millisecond), [][]byte{{0x15}, {0x18}}[r.Intn(2)])
		default:
			if len(frame) > 8 && frame[3] == 0x13 && frame[7] == 0x02 && r.Intn(3) > 0 {
				p.FeedAfter(r.Dur(0, 300*time.Millisecond), mkReport(int(frame[4]), frame[6], 3, byte(r.Intn(100))))
			}
			b.Handle(p, frame)
		}
	}
	var restored []int
	file := ""
	if c.R.Intn(3) > 0 {
		restored = ids[:c.R.Intn(len(ids))]
		l := plainNodes(restored...)
		for i := range l {
			if c.R.Intn(2) == 0 {
				l[i].Endpoints = nil
			}
			for e := c.R.Intn(4); e > 0; e-- {
				l[i].Endpoints = append(l[i].Endpoints, confEndpoint{ID: len(l[i].Endpoints) + 1})
			}
		}
		file = c.confFile(l)
	}
	bad := 0
	var badMu sync.Mutex
	w.Op.Script = func(n int) error {
		badMu.Lock()
		defer badMu.Unlock()
		if bad > 0 {
			bad--
			return errors.New("gone")
		}
		return nil
	}
	if err := w.Connect(file); err != nil {
		c.Inconclusive("connect: %v", err)
		return
	}
	ctl := w.Ctl
	con := ctl.Connection
	readEvents := c.R.Intn(3) > 0
	stop := make(chan struct{})
	if readEvents {
		slow := c.R.Intn(3) == 0
		go func() {
			ch := ctl.GetNextEvent()
			for range ch {
				for _, n := range ctl.Nodes.All() {
					n.RLock()
					_ = len(n.StateBool) + len(n.CommandClasses)
					n.RUnlock()
				}
				if slow {
					time.Sleep(300 * time.Millisecond)
				}
			}
		}()
	}
	b.wakeLoop(stop, 50*time.Millisecond, 4*time.Second)

	tight := c.R.Intn(3) == 0 // everything at nearly the same time
	// the network
	feeds, fails := 0, 0
	var bg sync.WaitGroup
	bg.Add(2)
	nr := rand.New(rand.NewSource(c.R.Int63()))
	go func() {
		defer bg.Done()
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(nr.Intn(80)) * time.Millisecond):
			}
			id := ids[nr.Intn(len(ids))]
			p := w.Op.Port()
			n := 1 + nr.Intn(5)*nr.Intn(2)
			if tight && feeds < 1000 {
				n = 30
			}
			for k := n; k > 0; k-- {
				feeds++
				if n == 30 {
					time.Sleep(time.Duration(1+nr.Intn(15)) * time.Microsecond)
					id = ids[nr.Intn(len(ids))]
				}
				switch nr.Intn(10) {
				case 0:
					p.Feed(mkReport(id, 0x71, 5, byte(nr.Intn(8)), 0xff))
				case 1:
					p.Feed(mkReport(id, 0x84, 0x07))
				case 2:
					p.Feed(r.noise())
				case 3:
					p.Feed(mkNodeList(ids...))
				case 4:
					p.FeedCut(r, mkReport(id, 0x31, 5, byte(nr.Intn(30)), 1, byte(nr.Intn(100))))
				default:
					p.Feed(mkReport(id, []byte{0x25, 0x26}[nr.Intn(2)], 3, byte(nr.Intn(100))))
				}
			}
		}
	}()
	pr := rand.New(rand.NewSource(c.R.Int63()))
	failing := c.R.Intn(4) > 0
	go func() {
		defer bg.Done()
		for failing {
			select {
			case <-stop:
				return
			case <-time.After(durIn(pr, 200*time.Millisecond, 20*time.Second)):
			}
			badMu.Lock()
			bad = pr.Intn(3)
			badMu.Unlock()
			if p := w.Op.Port(); p.IsOpen() {
				fails++
				p.Fail()
			}
		}
	}()

	// the users
	var users sync.WaitGroup
	n := 6 + c.R.Intn(7)
	nops := 10 + c.R.Intn(31)
	type tally struct{ ops, answers, timeouts, saves int }
	sum := make([]tally, n)
	at := make([]string, n)
	began := make([]int, n)
	atMu := make([]sync.Mutex, n)
	for u := 0; u < n; u++ {
		u := u
		ur := rand.New(rand.NewSource(c.R.Int63()))
		users.Add(1)
		doing := func(s string) {
			atMu[u].Lock()
			at[u] = s
			began[u]++
			atMu[u].Unlock()
		}
		go func() {
			defer users.Done()
			for i := 0; i < nops; i++ {
				if tight && ur.Intn(4) > 0 {
					time.Sleep(time.Duration(1+ur.Intn(20)) * time.Microsecond)
				} else if ur.Intn(2) == 0 {
					time.Sleep(time.Duration(ur.Intn(60)) * time.Millisecond)
				}
				spin(ur)
				id := ids[ur.Intn(len(ids))]
				t := &sum[u]
				t.ops++
				op := ur.Intn(14)
				if tight && ur.Intn(4) > 0 {
					op = []int{0, 2, 3, 4, 4, 6, 7, 7, 13, 13}[ur.Intn(10)]
				}
				switch op {
				case 0, 1:
					doing("control")
					if n := ctl.Nodes.Get(id); n != nil {
						switch ur.Intn(3) {
						case 0:
							n.On()
						case 1:
							n.Off()
						default:
							n.Level(ur.Float64() * 110)
						}
					}
				case 2:
					doing("endpoint")
					if e := ctl.Nodes.Get(id).Endpoint(1 + ur.Intn(3)); e != nil {
						switch ur.Intn(3) {
						case 0:
							e.On()
						case 1:
							e.Off()
						default:
							e.Level(ur.Float64() * 110)
						}
					}
				case 3:
					doing("list")
					for k, n := range ctl.Nodes.All() {
						if n.GetID() != k {
							c.Violate("node %d is listed as %d", n.GetID(), k)
						}
						n.HasCommand(0x25)
						n.IsDeviceClass(1, 2)
						n.ProtocolInfo()
					}
				case 4, 5:
					doing("fields")
					for _, n := range ctl.Nodes.All() {
						lock, unlock := n.RLock, n.RUnlock
						if ur.Intn(3) == 0 {
							lock, unlock = n.Lock, n.Unlock
						}
						lock()
						x := 0
						for range n.StateBool {
							x++
						}
						for _, v := range n.StateFloat {
							x += int(v)
						}
						for _, cl := range n.CommandClasses {
							x += int(cl.ID)
						}
						for _, e := range n.Endpoints {
							x += e.Id + len(e.CommandClasses) + len(e.StateBool) + len(e.StateFloat)
						}
						if n.IsAwake || n.ManufacurerSpecific != nil && n.ManufacurerSpecific.ID == n.Brand+n.Product+n.Description {
							x++
						}
						if ur.Intn(4) == 0 { // and at others meanwhile
							if tight {
								time.Sleep(time.Duration(ur.Intn(10)) * time.Microsecond)
							}
							ctl.Nodes.Get(ids[ur.Intn(len(ids))])
							spin(ur)
							ctl.Nodes.All()
						}
						unlock()
						spin(ur)
					}
				case 6:
					doing("serialise")
					if _, err := json.Marshal(ctl); err != nil {
						c.Violate("serialising failed: %v", err)
					}
				case 7:
					doing("serialise list")
					if _, err := json.Marshal(ctl.Nodes); err != nil {
						c.Violate("serialising failed: %v", err)
					}
				case 8:
					doing("save")
					if err := ctl.SaveConfigurationToFile(); err != nil && file != "" {
						c.Violate("saving failed: %v", err)
					}
					t.saves++
				case 9:
					doing("connected")
					con.RLock()
					_ = con.Connected
					con.RUnlock()
				case 10:
					doing("write")
					con.Write(enc(reqWrite(ur, i, 20).Body))
				case 11:
					doing("function")
					q := reqFunction([]byte{0x41, 0x15, 0x20}[ur.Intn(3)], i, durIn(ur, time.Millisecond, 3*time.Second))
					ch, _ := con.WriteWithTimeout(enc(q.Body), q.Timeout)
					if ur.Intn(4) > 0 {
						doing("function answer")
						if m := <-ch; m != nil {
							t.answers += btoi(!m.IsACK())
						} else {
							t.timeouts++
						}
					}
				case 12:
					doing("report")
					q := reqReport(id, []byte{0x25, 0x26}[ur.Intn(2)], 3, i, durIn(ur, time.Millisecond, 3*time.Second))
					ch, _ := con.WriteAndWaitForReport(enc(q.Body), q.Timeout, q.Report)
					if ur.Intn(4) > 0 {
						doing("report answer")
						if m := <-ch; m != nil {
							_ = fmt.Sprint(m)
							t.answers++
						} else {
							t.timeouts++
						}
					}
				case 13:
					doing("requests of a node or additions")
					if n := ctl.Nodes.Get(id); n != nil && !tight && ur.Intn(2) == 0 {
						if ur.Intn(2) == 0 {
							n.RequestManufacturerSpecific()
						} else {
							n.RequestProtocolInfo()
						}
					} else {
						nn := nodes.New(233 + ur.Intn(20))
						nn.Setup(con, func(interface{}) {})
						ctl.Nodes.Add(nn)
						nn.GetID()
					}
				}
			}
			doing("")
		}()
	}
	ok, idle := false, 0
	for last := -1; !ok && idle < 3; { // no operation takes longer than some 10 s, even if it waits for its turn
		ok = w.Within(5*time.Minute, users.Wait)
		done := 0
		for u := range at {
			atMu[u].Lock()
			done += began[u]
			atMu[u].Unlock()
		}
		idle++
		if done != last {
			last, idle = done, 0
		}
	}
	close(stop)
	if !ok {
		for u := range at {
			atMu[u].Lock()
			if at[u] != "" {
				c.Violate("a goroutine that uses the library is stuck in: %s", at[u])
			}
			atMu[u].Unlock()
		}
		return
	}
	if !w.Within(time.Minute, bg.Wait) {
		c.Inconclusive("the simulated network is stuck")
		return
	}
	// the library still works
	w.Op.setHandle(b.Handle)
	badMu.Lock()
	bad = 0
	badMu.Unlock()
	if p := w.Op.Port(); !p.IsOpen() {
		time.Sleep(5 * time.Second)
	}
	if !w.WaitUntil(time.Minute, func() bool { return w.Op.Port().IsOpen() }) {
		c.Violate("the port was not opened again")
		return
	}
	mark := enc{0x13, 0x77, 0x04, 0x25, 0x02, 0x42, 0x25}
	var answered bool
	w.Op.setHandle(func(p *Port, frame []byte) {
		if string(frame[3:len(frame)-1]) == string(mark) {
			p.Feed([]byte{0x06})
			p.FeedAfter(20*time.Millisecond, mkReport(0x77, 0x25, 3, 0xff))
			return
		}
		b.Handle(p, frame)
	})
	if !w.Within(time.Hour, func() {
		ch, _ := con.WriteAndWaitForReport(mark, 10*time.Second, 0x03)
		for range ch {
			answered = true
		}
	}) {
		c.Violate("a request does not end after the load")
		return
	}
	if !w.Within(time.Minute, func() {
		ctl.Nodes.All()
		ctl.Nodes.Get(ids[0])
		json.Marshal(ctl)
		ctl.SaveConfigurationToFile()
		con.RLock()
		con.RUnlock()
		ctl.GetNextEvent()
		for _, n := range ctl.Nodes.All() {
			n.Lock()
			n.Unlock()
		}
	}) {
		c.Violate("the library is blocked after the load")
		return
	}
	if id := ids[0]; ctl.Nodes.Get(id) != nil {
		w.Op.Port().Feed(mkReport(id, 0x31, 5, 0xc8, 1, 99))
		if !w.WaitUntil(5*time.Second, func() bool { return stateOf(ctl.Nodes.Get(id)).Float["unknown (200)_"] == 99 }) {
			c.Violate("reports are not applied any more after the load")
		}
	}
	var t tally
	for _, s := range sum {
		t.ops += s.ops
		t.answers += s.answers
		t.timeouts += s.timeouts
		t.saves += s.saves
	}
	c.Count("operations", t.ops)
	c.Count("answers", t.answers)
	c.Count("timeouts", t.timeouts)
	c.Count("saves", t.saves)
	c.Count("reports_fed", feeds)
	c.Count("port_failures", fails)
	c.Count("last_request_answered", btoi(answered))
	c.Count("last_requests", 1)
	c.Mark(t, feeds, fails)
	c.Sample(fmt.Sprintf("%d goroutines with %d operations each on %v, %d frames fed, %d port failures, %d answers, %d timeouts", n, nops, ids, feeds, fails, t.answers, t.timeouts))
	if t.timeouts > 0 && feeds > 10 {
		c.Nontrivial()
	}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}
