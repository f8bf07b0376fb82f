package sim

import (
	"fmt"
	"sort"
	"sync"
	"time"
)

func init() {
	register("C01", "1 to 10 concurrent callers send 10 to 60 commands with payloads of 1 to 250 random bytes through all three calls, to a stick that acknowledges and sends unsolicited frames (so that acknowledges are written at the same time); the port takes the bytes at once or one by one; some cases break the port. Non-trivial when all commands were seen on the line while at least one acknowledge was written", runC01)
	register("K01", "1 to 12 concurrent callers send 20 to 80 commands of all kinds with unique contents, the stick acknowledges after 0 to 300 ms and sends answers and unsolicited frames all the time. Non-trivial when at least two callers had commands waiting at the same time and frames were received", runK01)
	register("K02", "1 to 8 callers against a stick that answers ACK, NAK, CAN or nothing after 0 to 3 s, with stray control bytes and 0 to 3 port failures, also with dozens of requests that wait for their response at the same time. Non-trivial when at least ten consecutive transmissions were judged with at least one ended by a control byte and one by the time limit", runK02)
	register("K03", "1 to 8 callers with plain and waiting commands; each transmission is answered by ACK, NAK, CAN (several times in a row) or nothing within 900 ms; in half of the cases half of the callers give up after 1 to 400 ms; waiting commands are answered when acknowledged. Non-trivial when a command was cancelled and one refused or unanswered", runK03)
}

// callers distributes the commands on n callers, which send theirs one after another.
func (w *World) callers(reqs []*Req, n int, pause func() time.Duration) (wait func(time.Duration) bool) {
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := k; i < len(reqs); i += n {
				reqs[i].Caller = k
				if pause != nil {
					if d := pause(); d > 0 {
						time.Sleep(d)
					}
				}
				w.Do(w.Ctl.Connection, reqs[i])
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	return func(max time.Duration) bool {
		select {
		case <-done:
			return true
		case <-time.After(max):
			return false
		}
	}
}

func runC01(c *Case) {
	c.Bubble(func() {
		w := NewWorld(c)
		r := newRand(c)
		w.Op.SlowWrite = c.R.Intn(3) > 0
		ackMax := []time.Duration{time.Microsecond, 5 * time.Millisecond, 60 * time.Millisecond}[c.R.Intn(3)]
		fails := 0
		if c.R.Intn(4) == 0 {
			fails = 1 + c.R.Intn(2)
		}
		fed := int64(0)
		w.Op.Handle = func(p *Port, frame []byte) {
			jitter(r.Intn(128))
			p.FeedAfter(r.Dur(0, ackMax), []byte{0x06})
			if frame[3] == 0x02 && len(frame) == 5 {
				p.FeedAfter(time.Millisecond, mkNodeList())
			}
		}
		if err := w.Connect(""); err != nil {
			c.Violate("connect failed: %v", err)
			return
		}
		w.DrainEvents(nil)
		if !w.WaitUntil(10*time.Second, func() bool { return len(w.Op.Commands()) > 0 }) {
			c.Inconclusive("no node list request")
		}
		time.Sleep(100 * time.Millisecond)

		var reqs []*Req
		n := 10 + c.R.Intn(51)
		want := map[string]int{}
		for i := 0; i < n; i++ {
			size := 1 + c.R.Intn(250)
			switch c.R.Intn(6) {
			case 0:
				size = 1 + c.R.Intn(6)
			case 1:
				size = 245 + c.R.Intn(6)
			}
			b := randBytes(c.R, size)
			if c.R.Intn(3) == 0 { // contents that look like frames and control bytes
				for j := range b {
					b[j] = []byte{0x01, 0x06, 0x15, 0x18, 0x00, 0xff}[c.R.Intn(6)]
				}
			}
			if len(b) == 1 && b[0] == 0x02 {
				b[0] = 0x03
			}
			q := &Req{ID: i, Body: b, Kind: []string{"write", "function", "report"}[c.R.Intn(3)], Timeout: c.randTimeout(), Report: byte(c.R.Intn(256))}
			reqs = append(reqs, q)
			want[string(b)]++
		}
		stop := make(chan struct{})
		go func() { // traffic that has to be acknowledged while commands are written
			for {
				select {
				case <-stop:
					return
				case <-time.After(r.Dur(0, 12*time.Millisecond)):
				}
				if p := w.Op.Port(); p != nil {
					p.Feed(r.noise())
					fed++
				}
			}
		}()
		for k := 0; k < fails; k++ {
			time.AfterFunc(r.Dur(0, 3*time.Second), func() { w.Op.Port().Fail() })
		}
		wait := w.callers(reqs, 1+c.R.Intn(10), nil)
		all := wait(5 * time.Minute)
		if !all {
			c.Violate("the callers were not served within five minutes")
		}
		time.Sleep(3 * time.Second)
		close(stop)
		time.Sleep(100 * time.Millisecond)

		if bad := w.Op.BadTx(); len(bad) > 0 {
			c.Violate("bytes on the line that belong to no correct request frame and are no acknowledge: %x", bad[0])
		}
		got := map[string]int{}
		acks := 0
		for _, f := range w.Op.Tx() {
			if f.Ack {
				acks++
				continue
			}
			if isGetNodes(f) {
				continue
			}
			got[string(f.Payload())]++
		}
		for b, n := range got {
			if n > want[b] {
				c.Violate("payload %x was transmitted %d times, was sent %d times", b, n, want[b])
			}
		}
		missing := 0
		for b, n := range want {
			if got[b] < n {
				missing++
				if fails == 0 {
					c.Violate("payload %x was sent %d times, transmitted %d times", b, n, got[b])
				}
			}
		}
		c.Count("commands", len(w.Op.Commands()))
		c.Count("acknowledges", acks)
		c.Count("port_failures", fails)
		c.Mark(n, len(got), acks)
		c.Sample(fmt.Sprintf("%d commands, slow=%v, %d acknowledges, %d port failures", n, w.Op.SlowWrite, acks, fails))
		if all && acks > 0 && len(got) > 5 {
			c.Nontrivial()
		}
	})
}

func (c *Case) randTimeout() time.Duration {
	return []time.Duration{0, time.Millisecond, 20 * time.Millisecond, 300 * time.Millisecond, 2 * time.Second}[c.R.Intn(5)]
}

// mixedReqs makes n unique commands of all kinds; questions never share node, class and report type.
func mixedReqs(c *Case, n int, timeout func() time.Duration) []*Req {
	var reqs []*Req
	nodes := c.R.Perm(232)
	for i := 0; i < n; i++ {
		switch c.R.Intn(4) {
		case 0:
			reqs = append(reqs, reqFunction([]byte{0x41, 0x02}[c.R.Intn(2)], i, timeout()))
		case 1, 2:
			k := []struct{ c, r byte }{{0x31, 5}, {0x72, 5}, {0x71, 5}, {0x60, 8}}[c.R.Intn(4)]
			reqs = append(reqs, reqReport(1+nodes[i%len(nodes)], k.c, k.r, i, timeout()))
		default:
			reqs = append(reqs, reqWrite(c.R, i, 40))
		}
	}
	return reqs
}

// answerTo makes an answer to a question, unique by its id.
func answerTo(q *Req, u int) []byte {
	switch {
	case q.Kind == "report":
		return mkReport(q.Node, q.Class, q.Report, reportData(q.Class, u)...)
	case q.Body[0] == 0x41:
		return mkFrame(0x01, 0x41, byte(u), byte(u>>8), 0, 4, byte(u>>16), 1)
	case q.Body[0] == 0x02:
		return listWith(u)
	}
	return mkFrame(0x01, 0x13, 0x01)
}

// listWith makes a node list that says u, and that never has node 1 to 24 active
func listWith(u int) []byte {
	p := make([]byte, 4+29+2)
	p[0], p[1], p[3], p[33] = 0x02, 0x05, 0x1d, 0x05
	p[4+20], p[4+21], p[4+22] = byte(u), byte(u>>8), byte(u>>16)
	return mkFrame(0x01, p...)
}

// reportData makes unique data of a report
func reportData(class byte, u int) []byte {
	switch class {
	case 0x31:
		return []byte{0x01, 0x44, byte(u >> 24), byte(u >> 16), byte(u >> 8), byte(u)}
	case 0x72:
		return []byte{0xfe, byte(u >> 24), byte(u >> 16), byte(u >> 8), byte(u), 0xfe}
	case 0x71:
		return []byte{byte(u), byte(u >> 8), 1, 0x11, byte(u >> 16), byte(u >> 24)}
	case 0x60:
		return []byte{byte(u>>8) << 6, byte(u)}
	}
	return []byte{byte(u)}
}

func runK01(c *Case) {
	c.Bubble(func() {
		w := NewWorld(c)
		r := newRand(c)
		w.Op.SlowWrite = c.R.Intn(3) == 0
		ackMax := []time.Duration{time.Microsecond, 10 * time.Millisecond, 300 * time.Millisecond}[c.R.Intn(3)]
		n := 20 + c.R.Intn(61)
		crowd := c.R.Intn(10) == 0 // many callers, and a slow controller
		if crowd {
			n = 120 + c.R.Intn(300)
		}
		reqs := mixedReqs(c, n, c.randTimeout)
		byBody := map[string]*Req{}
		for _, q := range reqs {
			byBody[string(q.Body)] = q
		}
		w.Op.Handle = func(p *Port, frame []byte) {
			jitter(r.Intn(128))
			d := r.Dur(0, ackMax)
			if crowd {
				d = r.Dur(500*time.Millisecond, 900*time.Millisecond)
			}
			p.FeedAfter(d, []byte{0x06})
			if isGetNodes(TxFrame{B: frame}) {
				p.FeedAfter(d+time.Millisecond, mkNodeList())
				return
			}
			if q := byBody[string(frame[3:len(frame)-1])]; q != nil && q.Kind != "write" && r.Intn(3) > 0 {
				p.FeedAfter(d+r.Dur(0, 400*time.Millisecond), answerTo(q, q.ID))
			}
		}
		if err := w.Connect(""); err != nil {
			c.Violate("connect failed: %v", err)
			return
		}
		w.DrainEvents(nil)
		time.Sleep(time.Second)
		ncall := 1 + c.R.Intn(12)
		stop := make(chan struct{})
		gap := []time.Duration{time.Millisecond, 30 * time.Millisecond, time.Second}[c.R.Intn(3)]
		if crowd {
			ncall, gap = n/(1+c.R.Intn(3)), time.Second
		}
		go func() {
			for {
				select {
				case <-stop:
					return
				case <-time.After(r.Dur(gap/2, gap)):
				}
				w.Op.Port().Feed(r.noise())
			}
		}()
		var pause func() time.Duration
		if c.R.Intn(2) == 0 {
			pause = func() time.Duration { return r.Dur(0, 200*time.Millisecond) }
		}
		wait := w.callers(reqs, ncall, pause)
		if !wait(time.Duration(n) * 2 * time.Second) {
			c.Violate("not all commands were accepted although the controller acknowledges each")
		}
		time.Sleep(5 * time.Second)
		close(stop)
		time.Sleep(2 * time.Second)

		tx, order := w.txOf()
		pos := map[string]int{}
		for i, f := range order {
			k := string(f.Payload())
			if byBody[k] == nil {
				c.Violate("transmitted %x, which nobody sent", k)
			}
			pos[k] = i
		}
		acc, together := 0, false
		last := map[int]int{}
		var prev *Req
		for _, q := range reqs {
			s := q.Snap()
			t := tx[string(q.Body)]
			if s.Accepted {
				acc++
				if s.Err != nil {
					c.Violate("sending failed: %v", s.Err)
				}
				if len(t) != 1 {
					c.Violate("command %x was accepted once and transmitted %d times", q.Body, len(t))
					continue
				}
				if p, ok := last[q.Caller]; ok && p > pos[string(q.Body)] {
					c.Violate("command %x was transmitted before the previous command of the same caller", q.Body)
				}
				last[q.Caller] = pos[string(q.Body)]
				if prev != nil && prev.Caller != q.Caller && s.IssueT < prev.Snap().AcceptT {
					together = true
				}
				prev = q
			}
		}
		if bad := w.Op.BadTx(); len(bad) > 0 {
			c.Violate("no command: %x", bad[0])
		}
		var o []int
		for _, f := range order {
			if q := byBody[string(f.Payload())]; q != nil {
				o = append(o, q.ID)
			}
		}
		c.Count("commands", len(order))
		c.Count("received_frames", len(w.Op.Port().Fed()))
		c.Mark(o)
		c.Sample(fmt.Sprintf("%d callers, %d commands, order on the line %v", ncall, n, o))
		if acc == n && len(w.Op.Port().Fed()) > n && (ncall == 1 || together) {
			c.Nontrivial()
		}
	})
}

type ctlByte struct {
	T time.Duration
	B byte
}

// ctlFed lists the control bytes that were sent to the library on all ports.
func (w *World) ctlFed() []ctlByte {
	var r []ctlByte
	for _, p := range w.Op.Ports() {
		for _, ch := range p.Fed() {
			for _, it := range refScan([]Chunk{ch}) {
				if it.Ctrl != 0 {
					r = append(r, ctlByte{ch.T, it.Ctrl})
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].T < r[j].T })
	return r
}

func runK02(c *Case) {
	c.Bubble(func() {
		w := NewWorld(c)
		r := newRand(c)
		w.Op.SlowWrite = c.R.Intn(3) == 0
		fails := c.R.Intn(4)
		if c.Index%3 == 0 {
			fails = 0
		}
		n := 12 + c.R.Intn(30)
		timeout := c.randTimeout
		patient := c.R.Intn(4) == 0 // many requests wait for their response at the same time
		if patient {
			n = 20 + c.R.Intn(40)
			timeout = func() time.Duration { return durIn(c.R, 5*time.Second, 5*time.Minute) }
		}
		reqs := mixedReqs(c, n, timeout)
		quiet := c.R.Intn(3) == 0 // nothing but answers is received
		profile := c.R.Intn(4)
		stray := c.R.Intn(3) == 0
		w.Op.Handle = func(p *Port, frame []byte) {
			jitter(r.Intn(128))
			var d time.Duration
			switch r.Intn(4 + profile) {
			case 0:
				d = 0
			case 1:
				d = r.Dur(0, 100*time.Millisecond)
			case 2:
				d = r.Dur(100*time.Millisecond, 990*time.Millisecond)
			case 3:
				return // no answer at all
			default:
				d = r.Dur(900*time.Millisecond, 3*time.Second)
			}
			b := []byte{0x06, 0x06, 0x06, 0x15, 0x18}[r.Intn(5)]
			if patient && r.Intn(4) > 0 {
				b = 0x06
			}
			p.FeedAfter(d, []byte{b})
			if stray && r.Intn(4) == 0 {
				p.FeedAfter(r.Dur(0, 1500*time.Millisecond), []byte{[]byte{0x06, 0x15, 0x18}[r.Intn(3)]})
			}
		}
		if err := w.Connect(""); err != nil {
			c.Violate("connect failed: %v", err)
			return
		}
		w.DrainEvents(nil)
		if fails == 0 || c.R.Intn(2) == 0 {
			time.Sleep(time.Second)
		}
		stop := make(chan struct{})
		go func() {
			for {
				select {
				case <-stop:
					return
				case <-time.After(r.Dur(time.Millisecond, 400*time.Millisecond)):
				}
				if !quiet {
					w.Op.Port().Feed(r.noise())
				}
			}
		}()
		for k := 0; k < fails; k++ {
			time.AfterFunc(r.Dur(0, 15*time.Second), func() { w.Op.Port().Fail() })
		}
		wait := w.callers(reqs, 1+c.R.Intn(8), nil)
		wait(3 * time.Minute)
		time.Sleep(10 * time.Second)
		close(stop)
		time.Sleep(time.Second)

		cmds := w.Op.Commands()
		first := map[string]time.Duration{}
		for _, f := range cmds {
			if _, ok := first[string(f.Payload())]; !ok {
				first[string(f.Payload())] = f.T0
			}
		}
		waiting := func(t time.Duration) bool { // is there a command that was not transmitted yet
			for _, q := range reqs {
				if s := q.Snap(); s.IssueT > 0 && s.IssueT <= t {
					if t0, ok := first[string(q.Body)]; ok && t0 > t {
						return true
					}
				}
			}
			return false
		}
		prompt := 0
		ctl := w.ctlFed()
		byCtl, byTime, pairs := 0, 0, 0
		var gaps []int64
		for i := 1; i < len(cmds); i++ {
			a, b := cmds[i-1], cmds[i]
			free := a.T0 + time.Second
			for _, x := range ctl {
				if x.T >= a.T0 && x.T < free {
					free = x.T
					break
				}
			}
			if free == a.T0+time.Second {
				byTime++
			} else {
				byCtl++
			}
			pairs++
			end := a.T0 + time.Second
			if quiet {
				end = free
			}
			if fails == 0 && waiting(end) {
				prompt++
				if b.T0 > end+350*time.Millisecond {
					c.Violate("command %x was transmitted at %v, although the line was free since %v and commands were waiting", b.B, b.T0, end)
				}
			}
			gaps = append(gaps, int64((b.T0-a.T0)/time.Millisecond))
			if b.T0 < free {
				c.Violate("command %x was transmitted at %v while %x, transmitted at %v, had not been answered (port %d)", b.B, b.T0, a.B, a.T0, b.Port)
			} else if b.T0 < free+50*time.Millisecond {
				c.Violate("command %x was transmitted at %v, less than 50 ms after the line was free again at %v", b.B, b.T0, free)
			}
		}
		c.Count("pairs", pairs)
		c.Count("ended_by_control_byte", byCtl)
		c.Count("ended_by_time", byTime)
		c.Count("went_on_at_once", prompt)
		c.Count("ports", len(w.Op.Ports()))
		c.Mark(gaps)
		c.Sample(fmt.Sprintf("%d transmissions on %d ports, ms between them: %v", len(cmds), len(w.Op.Ports()), gaps))
		if pairs >= 10 && byCtl > 0 && byTime > 0 {
			c.Nontrivial()
		}
	})
}

func runK03(c *Case) {
	c.Bubble(func() {
		w := NewWorld(c)
		r := newRand(c)
		n := 8 + c.R.Intn(30)
		crowd := c.R.Intn(20) == 0 // so that everything has to wait for minutes
		if crowd {
			n = 90 + c.R.Intn(140)
		}
		impatient := c.R.Intn(2) == 0 // some callers give up before their command is done, it is retried all the same
		reqs := mixedReqs(c, n, func() time.Duration {
			if impatient && c.R.Intn(2) == 0 {
				return durIn(c.R, time.Millisecond, 400*time.Millisecond)
			}
			if crowd {
				return 3 * time.Hour
			}
			return 5 * time.Minute
		})
		byBody := map[string]*Req{}
		for _, q := range reqs {
			byBody[string(q.Body)] = q
		}
		stubborn, left := "", 0 // a command that is cancelled very often
		if c.R.Intn(16) == 0 {
			stubborn, left = string(reqs[c.R.Intn(n)].Body), 15+c.R.Intn(130)
		}
		type answer struct {
			t    time.Duration // when it was fed
			what byte          // 0: nothing
		}
		var mu sync.Mutex
		answers := map[string][]answer{}
		answered := map[string]bool{}
		canRate := 2 + c.R.Intn(8)
		maxDelay := []time.Duration{time.Microsecond, 50 * time.Millisecond, 900 * time.Millisecond}[c.R.Intn(3)]
		slow := 1
		if crowd {
			slow, maxDelay = 1+c.R.Intn(5), 900*time.Millisecond
		}
		w.Op.Handle = func(p *Port, frame []byte) {
			jitter(r.Intn(128))
			k := string(frame[3 : len(frame)-1])
			q := byBody[k]
			d := r.Dur(0, maxDelay)
			if q == nil { // the node list request
				if r.Intn(3) == 0 {
					p.FeedAfter(d, []byte{0x18})
					return
				}
				p.FeedAfter(d, []byte{0x06})
				p.FeedAfter(d+time.Millisecond, mkNodeList())
				return
			}
			what := byte(0x06)
			switch x := r.Intn(20); {
			case x < canRate:
				what = 0x18
			case x < canRate+2:
				what = 0x15
			case x < canRate+2+slow:
				what = 0
			}
			time.Sleep(d)
			mu.Lock()
			if k == stubborn && left > 0 {
				what = 0x18
				left--
			}
			answers[k] = append(answers[k], answer{w.Now(), what})
			if what == 0x06 && q.Kind != "write" {
				answered[k] = true
			}
			mu.Unlock()
			if what != 0 {
				p.Feed([]byte{what})
			}
			if what == 0x06 && q.Kind == "report" {
				p.FeedAfter(r.Dur(0, 2*time.Second), answerTo(q, q.ID))
			}
		}
		if err := w.Connect(""); err != nil {
			c.Violate("connect failed: %v", err)
			return
		}
		w.DrainEvents(nil)
		time.Sleep(8 * time.Second) // the node list request is done, or given up
		ncall := 1 + c.R.Intn(8)
		if crowd {
			ncall = n
		}
		wait := w.callers(reqs, ncall, nil)
		if !wait(time.Hour) {
			c.Violate("not all commands were accepted")
		}
		time.Sleep(30 * time.Second)
		if crowd {
			time.Sleep(20 * time.Minute)
		}
		if stubborn != "" {
			time.Sleep(5 * time.Minute)
		}

		if bad := w.Op.BadTx(); len(bad) > 0 {
			c.Violate("no command: %x", bad[0])
		}
		tx, order := w.txOf()
		mu.Lock()
		defer mu.Unlock()
		cans, naks, nones, maxCan, late := 0, 0, 0, 0, 0
		for k := range tx {
			if byBody[k] == nil {
				c.Violate("transmitted %x, which nobody sent", k)
			}
		}
		for _, q := range reqs {
			k := string(q.Body)
			s := q.Snap()
			if !s.Accepted {
				continue
			}
			// what must have happened: each CAN gives one more transmission
			want := 1
			var ended *answer
			nc := 0
			for i, a := range answers[k] {
				switch a.what {
				case 0x18:
					cans++
					if q.Kind != "write" && a.t > s.AcceptT+q.Timeout {
						late++
					}
					nc++
					want++
					if i+1 < len(tx[k]) && tx[k][i+1].T0 < a.t+100*time.Millisecond {
						c.Violate("command %x was transmitted again at %v, less than 100 ms after it was cancelled at %v", q.Body, tx[k][i+1].T0, a.t)
					}
				case 0x15:
					naks++
					a := a
					ended = &a
				case 0:
					nones++
				}
			}
			if nc > maxCan {
				maxCan = nc
			}
			if len(tx[k]) != want {
				c.Violate("command %x was transmitted %d times, it was cancelled %d times", q.Body, len(tx[k]), nc)
			}
			for _, f := range tx[k] {
				if hx(f.B) != hx(tx[k][0].B) {
					c.Violate("command %x was transmitted as %x and %x", q.Body, tx[k][0].B, f.B)
				}
			}
			if q.Kind == "write" {
				continue
			}
			if ended != nil {
				if len(s.Msgs)+len(s.Reps) > 0 && q.Kind == "report" {
					c.Violate("the refused command %x got a response", q.Body)
				}
				if !s.Closed {
					c.Violate("the caller of the refused command %x was not released", q.Body)
				} else if s.ClosedT > ended.t+20*time.Millisecond {
					c.Violate("the caller of the refused command %x was released at %v, was refused at %v", q.Body, s.ClosedT, ended.t)
				}
			} else if q.Kind == "report" && answered[k] && q.Timeout > time.Minute {
				if len(s.Reps) != 1 {
					c.Violate("the caller of %x got %d responses, one was sent", q.Body, len(s.Reps))
				}
			}
		}
		// a cancelled command goes on when its time has come and nothing else is transmitted
		nth := map[string]int{}
		soon := 0
		for i, f := range order {
			k := string(f.Payload())
			j := nth[k]
			nth[k]++
			if i == 0 || j == 0 || j > len(answers[k]) || answers[k][j-1].what != 0x18 {
				continue
			}
			free := answers[k][j-1].t + 100*time.Millisecond
			prev := order[i-1]
			end := prev.T0 + time.Second
			pk := string(prev.Payload())
			if x := nth[pk] - 1; pk != k && x >= 0 && x < len(answers[pk]) && answers[pk][x].what != 0 {
				end = answers[pk][x].t
			} else if pk == k {
				end = answers[k][j-1].t
			}
			if f.T0 > max(free, end)+350*time.Millisecond {
				c.Violate("command %x was transmitted again at %v, it was cancelled at %v and the line was free at %v", f.B, f.T0, answers[k][j-1].t, end)
				break
			}
			soon++
		}
		c.Count("retried_soon", soon)
		var seqn []int
		for _, f := range order {
			if q := byBody[string(f.Payload())]; q != nil {
				seqn = append(seqn, q.ID)
			}
		}
		c.Count("transmissions", len(order))
		c.Count("cancelled", cans)
		c.Count("cancelled_after_the_caller_gave_up", late)
		c.Count("refused", naks)
		c.Count("unanswered", nones)
		c.Count("max_cancelled_in_a_row", maxCan)
		c.Mark(seqn)
		c.Sample(fmt.Sprintf("%d callers, transmissions %v, %d CAN, %d NAK, %d unanswered", ncall, seqn, cans, naks, nones))
		if cans > 0 && naks+nones > 0 && ncall > 1 {
			c.Nontrivial()
		}
	})
}
