package sim

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sync"
	"sync/atomic"
	"time"

	"github.com/stampzilla/gozwave"
)

func init() {
	register("S02", "10 to 300 pieces of hostile input (random bytes, checksum-correct frames of every function with random and mutated content and lengths, endless node lists, control bytes, cut frames, empty reads) while callers wait, nodes are identified and commands are in flight; then, after 45 to 120 ms of silence, a report must be applied and a new request must be transmitted and answered. Non-trivial when at least one checksum-correct frame was received while a request was waiting and the probe was judged", runS02)
	register("K06", "1 to 5, sometimes up to 80, port failures at random moments (while connecting, within a frame, with commands waiting, twice in a row), each followed by 0 to 4, sometimes up to 200, failed openings; then reports and commands on the new port. Non-trivial when the port was opened again at least once and the traffic afterwards was judged", runK06)
	register("K07", "connects without opener, with an opener that fails, fails slowly, or works, watches for later openings, samples the connected indicator every few ms around port failures and failed openings; one case in 500 uses the serial driver on a pseudo terminal in real time. Non-trivial when a failed connect was watched for later openings or the indicator was sampled before and after a failure", runK07)
}

// hostile makes one piece of input, often close to something valid.
func (l *lockedRand) hostile(reqs []*Req) []byte {
	l.mu.Lock()
	defer l.mu.Unlock()
	r := l.r
	fix := func(f []byte) []byte { f[len(f)-1] = xorSum(f[1 : len(f)-1]); return f }
	switch r.Intn(14) {
	case 0:
		return randBytes(r, 1+r.Intn(60))
	case 1:
		return bytes.Repeat([]byte{[]byte{6, 0x15, 0x18, 1, 0}[r.Intn(5)]}, 1+r.Intn(30))
	case 2:
		f := randValidFrame(r)
		return f[:1+r.Intn(len(f))]
	case 3: // mutated, but with a correct checksum
		f := randValidFrame(r)
		for k := 1 + r.Intn(3); k > 0 && len(f) > 3; k-- {
			f[2+r.Intn(len(f)-3)] = byte(r.Intn(256))
		}
		return fix(f)
	case 4: // shortened, with a correct checksum
		f := randValidFrame(r)
		n := 1 + r.Intn(len(f))
		f = append([]byte{1, byte(n)}, f[2:]...)
		for len(f) < n+2 {
			f = append(f, byte(r.Intn(256)))
		}
		return fix(f[:n+2])
	case 5: // an answer to a request, cut at any length
		if len(reqs) > 0 {
			f := answerTo(reqs[r.Intn(len(reqs))], r.Intn(1<<24))
			n := 3 + r.Intn(len(f))
			f = append([]byte{1, byte(n)}, append(f[2:], 0, 0, 0, 0, 0)...)
			return fix(f[:min(n+2, len(f))])
		}
	case 6:
		ids := r.Perm(232)[:1+r.Intn(4)]
		for i := range ids {
			ids[i]++
		}
		return mkNodeList(ids...)
	case 7:
		return mkFrame(0x01, append([]byte{2, 5, 0, byte(r.Intn(256))}, randBytes(r, r.Intn(60))...)...)
	case 8:
		return mkFrame(0x00, append([]byte{4, 0, byte(r.Intn(10)), byte(r.Intn(12))}, randBytes(r, r.Intn(10))...)...)
	case 9:
		return nil
	case 10:
		return mkFrame(byte(r.Intn(256)), randBytes(r, r.Intn(8))...)
	}
	return randValidFrame(r)
}

func runS02(c *Case) {
	c.Bubble(func() {
		w := NewWorld(c)
		r := newRand(c)
		w.Op.Coalesce = c.R.Intn(2) == 0
		hostileTime := int32(1)
		sleepy := c.R.Intn(3) == 0 // known devices that sleep, and wake up again and again
		discover := c.R.Intn(3)
		var reqs []*Req
		n := 4 + c.R.Intn(20)
		for i := 0; i < n; i++ {
			to := []time.Duration{0, time.Millisecond, 100 * time.Millisecond, time.Second, 10 * time.Second}[c.R.Intn(5)]
			switch c.R.Intn(5) {
			case 0:
				reqs = append(reqs, reqFunction([]byte{0x41, 0x02}[c.R.Intn(2)], i, to))
			case 1:
				reqs = append(reqs, reqWrite(c.R, i, 20))
			case 2: // asks for what every frame has
				q := reqReport(0, 0, 0, i, to)
				q.Body[0] = []byte{0, 0x13}[c.R.Intn(2)]
				reqs = append(reqs, q)
			case 3: // short requests
				reqs = append(reqs, &Req{ID: i, Kind: []string{"function", "report"}[c.R.Intn(2)], Body: []byte{0x04, 0x05, 0x02}[:1+c.R.Intn(3)], Timeout: to, Report: byte(c.R.Intn(10))})
			default:
				reqs = append(reqs, reqReport(1+c.R.Intn(9), []byte{0x31, 0x72, 0x60, 0x84}[c.R.Intn(4)], []byte{5, 8, 2}[c.R.Intn(3)], i, to))
			}
			reqs[i].Abandon = c.R.Intn(3) == 0
		}
		w.Op.Handle = func(p *Port, frame []byte) {
			if atomic.LoadInt32(&hostileTime) == 0 {
				return
			}
			jitter(r.Intn(64))
			if isGetNodes(TxFrame{B: frame}) && discover > 0 {
				p.Feed([]byte{0x06})
				if discover == 1 {
					p.Feed(mkNodeList(2, 3, 5))
				} else {
					p.Feed(r.hostile(nil))
					p.Feed(mkNodeList(4, 6, 8))
				}
				return
			}
			if r.Intn(3) > 0 {
				p.FeedAfter(r.Dur(0, 10*time.Millisecond), []byte{[]byte{6, 6, 6, 0x15, 0x18}[r.Intn(5)]})
			}
			if frame[3] == 0x41 && len(frame) == 6 && r.Intn(2) == 0 {
				p.Feed(mkProto(r.Intn(2) == 0 && !sleepy, 4, byte(r.Intn(0x20)), byte(r.Intn(8))))
			}
			if frame[3] == 0x13 && len(frame) > 8 && r.Intn(2) == 0 {
				p.Feed(mkReport(int(frame[4]), frame[6], []byte{5, 8, 3}[r.Intn(3)], func() []byte { r.mu.Lock(); defer r.mu.Unlock(); return randBytes(r.r, r.r.Intn(7)) }()...))
			}
		}
		known := plainNodes(2, 3, 4, 5, 200)
		for i := range known {
			if c.R.Intn(3) > 0 {
				known[i].Manu = map[string]interface{}{"Manufacturer": "0086", "Type": "0003", "ID": fmt.Sprintf("%04x", c.R.Intn(100))}
			}
			known[i].Awake = c.R.Intn(3) > 0
		}
		file := c.confFile(known)
		if err := w.Connect(file); err != nil {
			c.Violate("connect failed: %v", err)
			return
		}
		if c.R.Intn(4) > 0 {
			w.DrainEvents(nil)
		}
		go func() {
			for _, q := range reqs {
				q := q
				go w.Do(w.Ctl.Connection, q)
				time.Sleep(r.Dur(0, 300*time.Millisecond))
			}
		}()
		time.Sleep(r.Dur(0, 300*time.Millisecond))
		np := 10 + c.R.Intn(290)
		fast := c.R.Intn(2) == 0
		for i := 0; i < np; i++ {
			b := r.hostile(reqs)
			if sleepy && r.Intn(3) == 0 {
				b = append(append([]byte{}, b...), mkReport(2+r.Intn(5), 0x84, 7)...)
			}
			for len(b) > 0 && r.Intn(4) == 0 { // cut
				k := 1 + r.Intn(len(b))
				w.Op.Port().Feed(b[:k])
				b = b[k:]
				if r.Intn(2) == 0 {
					time.Sleep(r.Dur(0, 39*time.Millisecond))
				}
			}
			w.Op.Port().Feed(b)
			if !fast || r.Intn(5) == 0 {
				time.Sleep(r.Dur(0, 60*time.Millisecond))
			}
		}
		atomic.StoreInt32(&hostileTime, 0)
		time.Sleep(11 * time.Millisecond) // for answers that were on their way
		time.Sleep(durIn(c.R, 45*time.Millisecond, 120*time.Millisecond))

		// from now on everything is intact
		p := w.Op.Port()
		val := byte(1 + c.R.Intn(120))
		p.Feed(mkReport(200, 0x31, 5, 0xd3, 0x01, val))
		time.Sleep(200 * time.Millisecond)
		node := w.Node(200)
		if node == nil {
			c.Violate("a restored node is not in the list any more")
			return
		}
		var st *RefState
		if !w.Within(time.Minute, func() { st = stateOf(node) }) {
			c.Violate("the state of a node can not be read, its lock is never released")
			return
		}
		if v, ok := st.Float["unknown (211)_"]; !ok || v != float64(val) {
			c.Violate("an intact report, received after a pause, was not applied: %v %v, want %v", v, ok, val)
		}
		probe := reqReport(200, 0x72, 5, 60002, 10*time.Second)
		w.Op.setHandle(func(p *Port, frame []byte) {
			p.Feed([]byte{0x06})
			if bytes.Equal(frame[3:len(frame)-1], probe.Body) {
				p.FeedAfter(5*time.Millisecond, mkReport(200, 0x72, 5, 1, 2, 3, 4, 5, val))
			}
		})
		if !w.Within(time.Hour, func() { w.Do(w.Ctl.Connection, probe) }) {
			c.Violate("a new request is not accepted any more")
		} else {
			time.Sleep(12 * time.Second)
			s := probe.Snap()
			if len(s.Reps) != 1 || !s.Closed {
				c.Violate("a new request got %d answers, released: %v, transmitted %d times", len(s.Reps), s.Closed, func() int { m, _ := w.txOf(); return len(m[string(probe.Body)]) }())
			} else if m := refReport(0x72, 5, []byte{1, 2, 3, 4, 5, val}); cmpReport(s.Reps[0], m) != "" {
				c.Violate("a new request got a wrong answer: %s", cmpReport(s.Reps[0], m))
			}
		}
		items := w.fedItems()
		frames, decodable := 0, 0
		for _, it := range items {
			if it.Item.Frame != nil {
				frames++
				if it.Ref != nil {
					decodable++
				}
			}
		}
		c.Count("pieces", np)
		c.Count("frames", frames)
		c.Count("decodable_frames", decodable)
		c.Count("control_bytes", len(items)-frames)
		c.Mark(len(items), frames, decodable, len(w.Op.Commands()))
		c.Sample(fmt.Sprintf("%d pieces, %d items, %d correct frames of which %d are decodable, %d commands transmitted", np, len(items), frames, decodable, len(w.Op.Commands())))
		if decodable > 0 && frames > decodable {
			c.Nontrivial()
		}
	})
}

func runK06(c *Case) {
	c.Bubble(func() {
		w := NewWorld(c)
		r := newRand(c)
		nFail, long := 1+c.R.Intn(5), 5
		switch c.R.Intn(8) {
		case 0: // again and again
			nFail = 20 + c.R.Intn(60)
		case 1: // for a long time
			long = 200
		}
		known := []int{2, 9, 17}
		var mu sync.Mutex
		failsLeft := 0
		var failedOpens []bool
		w.Op.Script = func(n int) error {
			mu.Lock()
			defer mu.Unlock()
			if failsLeft > 0 {
				failsLeft--
				failedOpens = append(failedOpens, true)
				return errors.New("port is gone")
			}
			failedOpens = append(failedOpens, false)
			return nil
		}
		ackDelay := []time.Duration{time.Microsecond, 100 * time.Millisecond, 700 * time.Millisecond}[c.R.Intn(3)]
		w.Op.Handle = func(p *Port, frame []byte) {
			d := r.Dur(0, ackDelay)
			p.FeedAfter(d, []byte{0x06})
			if isGetNodes(TxFrame{B: frame}) {
				p.FeedAfter(d, mkNodeList(known...))
			}
			if frame[3] == 0x13 && frame[7] == 0x02 { // a question
				p.FeedAfter(d+r.Dur(0, 50*time.Millisecond), mkReport(int(frame[4]), frame[6], 5, reportData(frame[6], int(frame[8])<<8|int(frame[9]))...))
			}
		}
		list := plainNodes(known...)
		for i := range list {
			list[i].Bool = map[string]bool{"on": i%2 == 0}
			list[i].Float = map[string]float64{"level": float64(10 + i)}
		}
		if err := w.Connect(c.confFile(list)); err != nil {
			c.Violate("connect failed: %v", err)
			return
		}
		w.DrainEvents(nil)
		before := map[int]interface{}{}
		want := map[int]*RefState{}
		for i, id := range known {
			n := w.Node(id)
			if n == nil {
				c.Violate("node %d is missing", id)
				return
			}
			before[id] = n
			want[id] = newRefState()
			want[id].Bool["on"] = i%2 == 0
			want[id].Float["level"] = float64(10 + i)
		}
		stop := make(chan struct{})
		bg := map[string]bool{}
		calm := c.Index%2 == 1 // the library is idle when the port fails
		go func() {            // commands all the time, some of them are lost with the port
			if calm {
				return
			}
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				case <-time.After(r.Dur(time.Millisecond, 900*time.Millisecond)):
				}
				r.mu.Lock()
				q := reqWrite(r.r, 30000+i, 30)
				r.mu.Unlock()
				if r.Intn(2) == 0 {
					q = reqReport(77, 0x72, 5, 30000+i, 500*time.Millisecond)
				}
				mu.Lock()
				bg[string(q.Body)] = true
				mu.Unlock()
				q.Abandon = true
				w.Do(w.Ctl.Connection, q)
			}
		}()
		reopened, judged, fedReports := 0, 0, 0
		val := 0
		for k := 0; k < nFail; k++ {
			switch c.R.Intn(3) {
			case 0:
				time.Sleep(durIn(c.R, 0, 150*time.Millisecond))
			case 1:
				time.Sleep(durIn(c.R, 0, 5*time.Second))
			}
			more := 0
			if c.R.Intn(2) == 0 {
				more = c.R.Intn(long)
			}
			mu.Lock()
			failsLeft = more
			mu.Unlock()
			p := w.Op.Port()
			opens := len(w.Op.OpenTimes())
			val++
			cut := mkReport(known[c.R.Intn(3)], 0x31, 5, byte(0x80+val), 0x01, byte(val))
			at := 1 + c.R.Intn(len(cut)-1)
			joined := c.R.Intn(2) == 0 && bytes.IndexByte(cut[at:], 0x18) < 0 // a byte that cancels is an answer of its own
			if joined {
				p.Feed(cut[:at])
			}
			tf := w.Now()
			p.Fail()
			if !w.WaitUntil(time.Duration(more+3)*1500*time.Millisecond+time.Second, func() bool { x := w.Op.Port(); return x != p && x.IsOpen() }) {
				c.Violate("the port failed at %v, opening failed %d times, it was not opened again until %v (openings at %v)", tf, more, w.Now(), w.Op.OpenTimes()[opens:])
				return
			}
			reopened++
			prev := tf
			for i, t := range w.Op.OpenTimes()[opens:] {
				if i > more {
					break
				}
				if d := t - prev; d < 700*time.Millisecond || d > 1500*time.Millisecond {
					c.Violate("the port failed at %v, was opened %v after that or the previous try, should be about one second (openings at %v)", tf, d, w.Op.OpenTimes()[opens:])
				}
				prev = t
			}
			np := w.Op.Port()
			if p.IsOpen() {
				c.Violate("the failed port was not closed")
			}
			if joined { // the rest of the frame must not be joined with what was received before
				np.Feed(cut[at:])
				time.Sleep(60 * time.Millisecond)
			}
			if c.R.Intn(3) == 0 || nFail > 5 && c.R.Intn(4) > 0 && k < nFail-1 {
				continue // next failure at once
			}
			// incoming traffic
			id := known[c.R.Intn(3)]
			val++
			np.Feed(mkReport(id, 0x31, 5, byte(0x80+val), 0x01, byte(val)))
			fedReports++
			time.Sleep(50 * time.Millisecond)
			// outgoing traffic
			q := reqReport(100+k, 0x72, 5, 1000+k, 20*time.Second)
			if !w.Within(time.Minute, func() { w.Do(w.Ctl.Connection, q) }) {
				c.Violate("after the port was opened again no command is accepted")
				return
			}
			time.Sleep(4 * time.Second)
			if np.IsOpen() {
				m, _ := w.txOf()
				s := q.Snap()
				if len(m[string(q.Body)]) != 1 {
					c.Violate("a command was transmitted %d times after the port was opened again", len(m[string(q.Body)]))
				}
				if len(s.Reps) != 1 {
					c.Violate("a request got %d answers after the port was opened again", len(s.Reps))
				}
				judged++
			}
		}
		close(stop)
		time.Sleep(5 * time.Second)
		applied := 0
		for _, it := range w.fedItems() { // what was cut off by a failure is in none of them
			if it.Ref != nil && it.Ref.Report != nil && want[int(it.Ref.Node)] != nil && want[int(it.Ref.Node)].apply(it.Ref.Report) {
				applied++
			}
		}
		if applied > fedReports {
			c.Inconclusive("harness: %d reports were received, %d were fed", applied, fedReports)
			return
		}
		for _, id := range known {
			n := w.Node(id)
			if n == nil || interface{}(n) != before[id] {
				c.Violate("node %d was lost or replaced", id)
				continue
			}
			if d := want[id].diff(stateOf(n)); d != "" {
				c.Violate("node %d after %d port failures: %s", id, nFail, d)
			}
		}
		for i, p := range w.Op.Ports() {
			if open := p.IsOpen(); open != (i == len(w.Op.Ports())-1) {
				c.Violate("port %d of %d is open: %v", i+1, len(w.Op.Ports()), open)
			}
		}
		seen, order := w.txOf()
		mu.Lock()
		for k := range bg {
			if len(seen[k]) > 1 {
				c.Violate("command %x was transmitted %d times", k, len(seen[k]))
			}
		}
		mu.Unlock()
		c.Count("reopened", reopened)
		c.Count("judged_after_reopening", judged)
		c.Count("opening_failed", len(w.Op.OpenTimes())-len(w.Op.Ports()))
		c.Count("commands", len(order))
		c.Count("commands_lost_with_the_port", w.Op.Lost())
		c.Mark(w.Op.OpenTimes(), len(order))
		c.Sample(fmt.Sprintf("%d failures, openings at %v, failed openings %v", nFail, w.Op.OpenTimes(), failedOpens))
		if reopened > 0 && judged > 0 {
			c.Nontrivial()
		}
	})
}

// failingOpener counts the openings
type failingOpener struct{ n atomic.Int32 }

func (o *failingOpener) Open() (io.ReadWriteCloser, error) {
	o.n.Add(1)
	return nil, errors.New("no such port")
}

// manyFailedConnects connects from many goroutines at the same time, opening fails at once.
func manyFailedConnects(c *Case, w *World, file string) {
	const callers, each = 32, 20
	o := &failingOpener{}
	var wg sync.WaitGroup
	for i := 0; i < callers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < each; j++ {
				begin := w.Now()
				ctl, err := gozwave.ConnectWithCustomPortOpener("/sim", file, o)
				if err == nil || ctl != nil {
					c.Violate("the port could not be opened, connect returned %v, %v", ctl, err)
				}
				if d := w.Now() - begin; d > 500*time.Millisecond {
					c.Violate("connect returned %v after opening failed", d)
				}
			}
		}()
	}
	if !w.Within(time.Hour, wg.Wait) {
		c.Violate("connect does not return although opening failed")
		return
	}
	time.Sleep(time.Minute)
	if n := int(o.n.Load()); n != callers*each {
		c.Violate("%d connects failed, the port was opened %d times", callers*each, n)
	}
	c.Count("failed_connects", callers*each)
	c.Mark("many", file != "")
	c.Sample(fmt.Sprintf("%d connects at the same time fail", callers*each))
	c.Nontrivial()
}

func runK07(c *Case) {
	if c.Index%500 == 250 && !raceEnabled {
		runRealPort(c, nil, 6500*time.Millisecond)
		return
	}
	c.Bubble(func() {
		w := NewWorld(c)
		r := newRand(c)
		if c.Index == 0 {
			for _, f := range []string{"", c.tempFile("none.json")} {
				if ctl, err := gozwave.ConnectWithCustomPortOpener("/sim", f, nil); err == nil || ctl != nil {
					c.Violate("connect without opener: %v, %v", ctl, err)
				}
				if ctl, err := gozwave.Connect(c.tempFile("no-such-port"), f); err == nil || ctl != nil {
					c.Violate("connect to a port that does not exist: %v, %v", ctl, err)
				}
			}
		}
		file := ""
		if c.R.Intn(2) == 0 {
			file = c.confFile(plainNodes(2, 3))
		}
		mode := c.Index % 3
		if mode == 0 { // opening fails
			if c.R.Intn(40) == 0 {
				manyFailedConnects(c, w, file)
				return
			}
			delay := []time.Duration{0, 100 * time.Millisecond, 3 * time.Second, durIn(c.R, 0, 40*time.Minute)}[c.R.Intn(4)]
			w.Op.Script = func(n int) error {
				if n == 0 {
					if delay > 0 {
						time.Sleep(delay)
					}
					return errors.New("no such port")
				}
				return nil
			}
			var ctl *gozwave.Controller
			var err error
			if !w.Within(time.Hour, func() { ctl, err = gozwave.ConnectWithCustomPortOpener("/sim", file, w.Op) }) {
				c.Violate("connect does not return although opening failed")
				return
			}
			if err == nil || ctl != nil {
				c.Violate("the port could not be opened, connect returned %v, %v", ctl, err)
			}
			if d := w.Now(); d > delay+time.Second {
				c.Violate("connect returned %v after opening failed", d-delay)
			}
			time.Sleep(durIn(c.R, 10*time.Second, 2*time.Minute))
			if o := w.Op.OpenTimes(); len(o) != 1 {
				c.Violate("connect failed, the port was opened at %v", o)
			}
			c.Count("failed_connects", 1)
			c.Mark(delay, w.Now())
			c.Sample(fmt.Sprintf("opening fails after %v, watched for %v, opened %d times", delay, w.Now(), len(w.Op.OpenTimes())))
			c.Nontrivial()
			return
		}
		// it works, with failures later
		var mu sync.Mutex
		failsLeft := 0
		w.Op.Script = func(n int) error {
			mu.Lock()
			defer mu.Unlock()
			if failsLeft > 0 {
				failsLeft--
				return errors.New("port is gone")
			}
			return nil
		}
		w.Op.Handle = func(p *Port, frame []byte) {
			p.FeedAfter(r.Dur(0, 10*time.Millisecond), []byte{0x06})
			if isGetNodes(TxFrame{B: frame}) {
				p.FeedAfter(10*time.Millisecond, mkNodeList())
			}
			if frame[3] == 0x13 && frame[7] == 0x02 {
				p.FeedAfter(20*time.Millisecond, mkReport(int(frame[4]), frame[6], 5, reportData(frame[6], 7)...))
			}
		}
		slow := c.R.Intn(12) == 0 // opening takes long, as it does when the device is busy
		if slow {
			w.Op.Slow = func() time.Duration {
				switch r.Intn(3) {
				case 0:
					return 0
				case 1:
					return r.Dur(0, 2*time.Second)
				}
				return r.Dur(0, 20*time.Minute)
			}
		}
		early := !slow && c.R.Intn(3) == 0
		if early { // fails before the controller is returned
			time.AfterFunc(durIn(c.R, time.Millisecond, 190*time.Millisecond), func() {
				if p := w.Op.Port(); p != nil {
					p.Fail()
				}
			})
		}
		if err := w.Connect(file); err != nil || w.Ctl == nil {
			if !early {
				c.Violate("connect failed: %v", err)
			} else {
				c.Inconclusive("connect failed when the port failed meanwhile: %v", err)
			}
			return
		}
		w.DrainEvents(nil)
		type sample struct {
			t time.Duration
			v bool
		}
		var samples []sample
		stop := make(chan struct{})
		done := make(chan struct{})
		step := []time.Duration{time.Millisecond, 3 * time.Millisecond, 7 * time.Millisecond}[c.R.Intn(3)]
		if slow {
			step *= 13
		}
		go func() {
			defer close(done)
			for {
				select {
				case <-stop:
					return
				case <-time.After(step):
				}
				w.Ctl.Connection.RLock()
				v := w.Ctl.Connection.Connected
				w.Ctl.Connection.RUnlock()
				samples = append(samples, sample{w.Now(), v})
			}
		}()
		nf := 1 + c.R.Intn(4)
		for k := 0; k < nf; k++ {
			switch c.R.Intn(4) {
			case 0:
				time.Sleep(durIn(c.R, 1, 190*time.Millisecond)) // before it says that it is connected
			case 1:
				time.Sleep(200 * time.Millisecond)
			default:
				time.Sleep(durIn(c.R, 250*time.Millisecond, 3*time.Second))
			}
			mu.Lock()
			if c.R.Intn(2) == 0 {
				failsLeft = c.R.Intn(3)
			}
			left := failsLeft
			mu.Unlock()
			p := w.Op.Port()
			p.Fail()
			limit := time.Duration(left+3) * 1500 * time.Millisecond
			if slow {
				limit = 2 * time.Hour
			}
			if !w.WaitUntil(limit, func() bool { return w.Op.Port() != p }) {
				c.Violate("the port was not opened again")
				break
			}
		}
		time.Sleep(time.Second)
		close(stop)
		<-done
		ports := w.Op.Ports()
		yes, no, open := 0, 0, 0
		for _, s := range samples {
			const tol = 2 * time.Millisecond
			isOpen, sure := false, false
			for _, p := range ports {
				end := p.FailT
				if end == 0 {
					end = 1 << 60
				}
				if s.t >= p.OpenT-tol && s.t <= end+tol {
					isOpen = true
					sure = s.t >= p.OpenT+250*time.Millisecond && s.t < end-tol
				}
			}
			if s.v && !isOpen {
				c.Violate("connected at %v, when no port was open", s.t)
				break
			}
			if !s.v && sure {
				c.Violate("not connected at %v, the port is open since more than 250 ms", s.t)
				break
			}
			if isOpen {
				open++
			}
			if s.v {
				yes++
			} else {
				no++
			}
		}
		// the controller works
		q := reqReport(50, 0x72, 5, 1, 10*time.Second)
		if !w.Within(time.Minute, func() { w.Do(w.Ctl.Connection, q) }) {
			c.Violate("no command is accepted")
		}
		time.Sleep(3 * time.Second)
		if s := q.Snap(); len(s.Reps) != 1 {
			c.Violate("a request got %d answers", len(s.Reps))
		}
		c.Count("samples_connected", yes)
		c.Count("samples_not_connected", no)
		c.Count("ports", len(ports))
		c.Mark(yes, no, len(ports), w.Op.OpenTimes())
		c.Sample(fmt.Sprintf("openings at %v, %d samples connected, %d not", w.Op.OpenTimes(), yes, no))
		if yes > 0 && no > 0 {
			c.Nontrivial()
		}
	})
}
