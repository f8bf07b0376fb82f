package sim

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"sync"
	"time"

	"github.com/stampzilla/gozwave/serialapi"
)

func init() {
	register("K04", "6 to 40 waiting requests of 1 to 10 callers: controller functions and reports of few nodes (several questions to the same node at once); answers come at once, later, twice, too late or never, between near misses (other node, class, report type, undecodable) and unsolicited frames. Each delivered value is compared with the frames that were on the line. Non-trivial when answers were delivered to both kinds of requests and near misses were received while somebody waited", func(c *Case) { runWait(c, false) })
	register("K05", "as K04, with time limits of 0 to 3 s, NAK, CAN, damaged answers, answers before the call has returned, callers that never read their channel, plain commands and 0 to 3 port failures. Non-trivial when some callers were answered and some were released by the time limit", func(c *Case) { runWait(c, true) })
}

type fedItem struct {
	T    time.Duration
	Port int
	Item Item
	Ref  *RefMsg
}

// fedItems lists what was received, by the reference.
func (w *World) fedItems() []fedItem {
	var r []fedItem
	for _, p := range w.Op.Ports() {
		for _, it := range refScan(p.Fed()) {
			f := fedItem{T: it.T, Port: p.Idx, Item: it}
			if it.Frame != nil {
				f.Ref = refDecode(it.Frame)
			}
			r = append(r, f)
		}
	}
	sort.SliceStable(r, func(i, j int) bool { return r[i].T < r[j].T })
	return r
}

// sameMsg tells if a delivered message is this frame.
func sameMsg(m *serialapi.Message, fr []byte) bool {
	_, ref, err := serialapi.Decode(append([]byte(nil), fr...))
	if err != nil || ref == nil || m == nil {
		return false
	}
	return m.Function == ref.Function && m.NodeID == ref.NodeID && reflect.DeepEqual(m.Data, ref.Data)
}

func runWait(c *Case, hostile bool) {
	c.Bubble(func() {
		w := NewWorld(c)
		r := newRand(c)
		w.Op.SlowWrite = c.R.Intn(4) == 0
		w.Op.Coalesce = c.R.Intn(2) == 0
		fails := 0
		rude := hostile && c.Index%2 == 0
		if rude && c.R.Intn(2) == 0 {
			fails = 1 + c.R.Intn(3)
		}
		n := 6 + c.R.Intn(35)
		type kind struct{ c, r byte }
		kinds := []kind{{0x31, 5}, {0x72, 5}, {0x71, 5}, {0x60, 8}, {0x31, 2}, {0x84, 7}, {0x84, 9}, {0x25, 3}}
		var triples [][3]int
		for node := 1; node <= 2+c.R.Intn(6); node++ {
			for _, k := range kinds {
				triples = append(triples, [3]int{node * 7, int(k.c), int(k.r)})
			}
		}
		c.R.Shuffle(len(triples), func(i, j int) { triples[i], triples[j] = triples[j], triples[i] })
		timeout := func() time.Duration {
			if hostile && !rude && c.Index%6 != 1 {
				return []time.Duration{60 * time.Millisecond, 400 * time.Millisecond, 3 * time.Second}[c.R.Intn(3)]
			}
			if hostile {
				return []time.Duration{0, time.Nanosecond, time.Millisecond, 60 * time.Millisecond, 400 * time.Millisecond, 3 * time.Second}[c.R.Intn(6)]
			}
			return []time.Duration{200 * time.Millisecond, 2 * time.Second, 20 * time.Second}[c.R.Intn(3)]
		}
		var reqs []*Req
		byBody := map[string]*Req{}
		for i := 0; i < n; i++ {
			var q *Req
			switch x := c.R.Intn(10); {
			case x < 4:
				q = reqFunction([]byte{0x41, 0x41, 0x02}[c.R.Intn(3)], i, timeout())
			case x < 9 || !hostile:
				t := triples[i%len(triples)]
				q = reqReport(t[0], byte(t[1]), byte(t[2]), i, timeout())
			default:
				q = reqWrite(c.R, i, 30)
			}
			q.Abandon = hostile && c.R.Intn(8) == 0
			reqs = append(reqs, q)
			byBody[string(q.Body)] = q
		}

		var mu sync.Mutex
		unique := 1 + c.R.Intn(100)
		u := func() int { mu.Lock(); defer mu.Unlock(); unique++; return unique }
		naked := map[int]time.Duration{}
		canned := map[int]bool{}
		instant := c.R.Intn(3)
		reply := func(p *Port, q *Req, d time.Duration) {
			f := answerTo(q, u())
			if q.Kind == "report" && q.Class == 0x25 {
				f = mkReport(q.Node, 0x25, 3, byte(u()), byte(u()), byte(u()))
			}
			if rude && r.Intn(8) == 0 {
				f[len(f)-1] ^= 0x40
			}
			if d == 0 {
				p.Feed(f)
			} else {
				p.FeedAfter(d, f)
			}
		}
		w.Op.Handle = func(p *Port, frame []byte) {
			jitter(r.Intn(128))
			if isGetNodes(TxFrame{B: frame}) {
				p.Feed([]byte{0x06})
				p.Feed(mkNodeList())
				return
			}
			q := byBody[string(frame[3:len(frame)-1])]
			if q == nil {
				return
			}
			ctl := byte(0x06)
			if hostile && !rude {
				ctl = []byte{0x06, 0x06, 0x06, 0}[r.Intn(4)]
			}
			if rude {
				ctl = []byte{0x06, 0x06, 0x06, 0x06, 0x06, 0x15, 0x18, 0}[r.Intn(8)]
			}
			d := []time.Duration{0, r.Dur(1, 40*time.Millisecond), r.Dur(1, 800*time.Millisecond)}[r.Intn(3)]
			ack := func() {
				if ctl == 0 {
					return
				}
				mu.Lock()
				if ctl == 0x15 {
					naked[q.ID] = w.Now()
				}
				if ctl == 0x18 {
					canned[q.ID] = true
				}
				mu.Unlock()
				p.Feed([]byte{ctl})
			}
			if q.Kind == "write" {
				time.AfterFunc(d, ack)
				return
			}
			if instant > 0 && r.Intn(2) == 0 { // the answer is there before anything else
				reply(p, q, 0)
				time.AfterFunc(d, ack)
				return
			}
			time.AfterFunc(d, ack)
			for k := []int{0, 1, 1, 1, 1, 2, 3}[r.Intn(7)]; k > 0; k-- {
				reply(p, q, d+[]time.Duration{0, r.Dur(1, 20*time.Millisecond), r.Dur(1, 500*time.Millisecond), r.Dur(1, 5*time.Second)}[r.Intn(4)])
			}
		}
		if err := w.Connect(""); err != nil {
			c.Violate("connect failed: %v", err)
			return
		}
		w.DrainEvents(nil)
		time.Sleep(time.Second)

		stop := make(chan struct{})
		go func() { // near misses and unsolicited frames
			for {
				select {
				case <-stop:
					return
				case <-time.After(r.Dur(time.Millisecond, 150*time.Millisecond)):
				}
				t := triples[r.Intn(len(triples))]
				f := r.noise()
				switch r.Intn(9) {
				case 0:
					f = mkReport(t[0], 0x25, 0x03, byte(u()))
				case 1: // right question, but undecodable
					f = mkReport(t[0], byte(t[1]), byte(t[2]), []byte{1}...)
				case 2:
					f = mkReport(t[0]^0x40, byte(t[1]), byte(t[2]), reportData(byte(t[1]), u())...)
				case 3:
					f = mkReport(t[0], byte(t[1]), byte(t[2])+2, reportData(byte(t[1]), u())...)
				case 4: // no report, but node, class and command at the same place
					f = mkFrame(0x00, 0x49, 0x84, byte(t[0]), 0x03, byte(t[1]), byte(t[2]), byte(u()))
				case 5:
					f = mkFrame(0x01, 0x13, 0x00, byte(t[0]), 0x03, byte(t[1]), byte(t[2]), byte(u()))
				case 6: // a node list that has no nodes or a protocol info that is cut
					f = mkFrame(0x01, []byte{0x02, 0x41}[r.Intn(2)], byte(r.Intn(256)))
				}
				w.Op.Port().Feed(f)
			}
		}()
		for k := 0; k < fails; k++ {
			time.AfterFunc(r.Dur(0, 12*time.Second), func() { w.Op.Port().Fail() })
		}
		var pause func() time.Duration
		if c.R.Intn(2) == 0 {
			pause = func() time.Duration { return r.Dur(0, 700*time.Millisecond) }
		}
		ncall := 1 + c.R.Intn(10)
		wait := w.callers(reqs, ncall, pause)
		if !wait(time.Duration(n)*5*time.Second + time.Minute) {
			c.Violate("calls that wait for an answer do not return")
		}
		time.Sleep(25 * time.Second)
		close(stop)
		time.Sleep(100 * time.Millisecond)
		items := w.fedItems()
		mu.Lock()
		defer mu.Unlock()
		tx, _ := w.txOf()

		// control bytes inside of damaged answers count as well
		accident := false
		for _, q := range reqs {
			for _, f := range tx[string(q.Body)] {
				for _, it := range items {
					if it.T < f.T0 || it.T > f.T+time.Second {
						continue
					}
					if _, ok := naked[q.ID]; it.Item.Ctrl == 0x15 && !ok {
						naked[q.ID], accident = it.T, true
					}
					if it.Item.Ctrl == 0x18 {
						accident = accident || !canned[q.ID]
						canned[q.ID] = true
					}
				}
			}
		}

		answeredF, answeredR, expired, near, ambiguous := 0, 0, 0, 0, 0
		const eps = 2 * time.Millisecond
		// everybody has to be released
		for _, q := range reqs {
			s := q.Snap()
			if q.Kind == "write" || !s.Accepted {
				continue
			}
			if s.Err != nil || s.NilChan {
				c.Violate("request %x got no channel: %v", q.Body, s.Err)
				continue
			}
			if q.Abandon {
				continue
			}
			if len(s.GotT) > 1 {
				c.Violate("request %x got %d answers", q.Body, len(s.GotT))
			}
			if len(s.GotT) > 0 && ((q.Kind == "function" && s.Msgs[0] == nil) || (q.Kind == "report" && isNilReport(s.Reps[0]))) {
				c.Violate("request %x got an empty answer", q.Body)
				continue
			}
			if !s.Closed {
				c.Violate("the caller of %x with the time limit %v, accepted at %v, is still waiting at %v", q.Body, q.Timeout, s.AcceptT, w.Now())
			} else if s.ClosedT > s.AcceptT+q.Timeout+time.Second {
				c.Violate("the caller of %x with the time limit %v, accepted at %v, was released at %v", q.Body, q.Timeout, s.AcceptT, s.ClosedT)
			}
			if len(s.GotT) == 0 && s.Closed {
				expired++
				_, nak := naked[q.ID]
				if s.ClosedT < s.AcceptT+q.Timeout-eps && !nak {
					c.Violate("the caller of %x with the time limit %v, accepted at %v, was released without an answer at %v", q.Body, q.Timeout, s.AcceptT, s.ClosedT)
				}
			}
		}

		// reports
		for _, q := range reqs {
			s := q.Snap()
			if q.Kind != "report" || q.Abandon || !s.Accepted || len(tx[string(q.Body)]) == 0 {
				continue
			}
			t0, t1, seq := tx[string(q.Body)][0].T0, tx[string(q.Body)][0].T, tx[string(q.Body)][0].Seq
			shared := false
			for _, o := range reqs {
				if o != q && o.Kind == "report" && o.Node == q.Node && o.Class == q.Class && o.Report == q.Report {
					shared = true
				}
			}
			var match []fedItem
			for _, it := range items {
				if it.Ref == nil || it.T < t0 || it.T > s.AcceptT+q.Timeout+time.Second {
					if it.Item.Frame != nil && it.T >= t0 && it.T < s.AcceptT+q.Timeout {
						near++
					}
					continue
				}
				if it.Ref.Kind == "cmd" && int(it.Ref.Node) == q.Node && it.Ref.Class == q.Class && it.Ref.Cmd == q.Report {
					match = append(match, it)
				} else {
					near++
				}
			}
			_, nak := naked[q.ID]
			sure := time.Duration(-1) // when an answer must have been delivered
			for _, it := range match {
				if (it.T > t1+eps || it.Item.Seq > seq) && it.T < s.AcceptT+q.Timeout-eps && !canned[q.ID] && fails == 0 {
					sure = it.T
					break
				}
			}
			if len(s.Reps) > 0 {
				answeredR++
				ok := false
				for _, it := range match {
					if it.T <= s.GotT[0] && it.T >= s.GotT[0]-time.Second && (sure < 0 || it.T <= sure || shared) && cmpReport(s.Reps[0], it.Ref.Report) == "" {
						ok = true
					}
				}
				if !ok {
					c.Violate("request %x, transmitted at %v, got %T %+v at %v, which is no first answer from node %d, class %x, report %x", q.Body, t0, s.Reps[0], s.Reps[0], s.GotT[0], q.Node, q.Class, q.Report)
				}
			} else if sure >= 0 && !nak && !shared {
				c.Violate("request %x, transmitted at %v with the time limit %v, got no answer although one arrived at %v", q.Body, t0, q.Timeout, sure)
			}
		}

		// controller functions are answered in the order they were transmitted
		for _, f := range []byte{0x41, 0x02} {
			type ev struct {
				t    time.Duration
				what int // 0 transmitted, 1 reply, 2 ends to wait
				q    *Req
				fr   []byte
				seq  int64
			}
			var evs []ev
			vague := fails > 0 || accident
			for _, q := range reqs {
				s := q.Snap()
				t := tx[string(q.Body)]
				if q.Kind != "function" || q.Body[0] != f || !s.Accepted {
					continue
				}
				if len(t) != 1 {
					vague = true
					continue
				}
				end := s.AcceptT + q.Timeout
				if nt, ok := naked[q.ID]; ok && nt < end {
					end = nt
				}
				if end <= t[0].T+eps {
					vague = vague || end > t[0].T0-eps
					if end <= t[0].T0 {
						continue
					}
				}
				evs = append(evs, ev{t[0].T0, 0, q, nil, t[0].Seq}, ev{end, 2, q, nil, 1 << 62})
			}
			for _, it := range items {
				if it.Ref != nil && it.Item.Frame[3] == f {
					for _, e := range evs {
						if d := e.t - it.T; d < eps && d > -eps && (e.what == 2 || e.what == 0 && it.Item.Seq < e.seq) {
							vague = true
						}
					}
					evs = append(evs, ev{it.T, 1, nil, it.Item.Frame, it.Item.Seq})
				}
			}
			sort.SliceStable(evs, func(i, j int) bool {
				return evs[i].t < evs[j].t || evs[i].t == evs[j].t && evs[i].seq < evs[j].seq
			})
			var waiting []*Req
			want := map[*Req][]byte{}
			for _, e := range evs {
				switch e.what {
				case 0:
					waiting = append(waiting, e.q)
				case 1:
					if len(waiting) > 0 {
						want[waiting[0]] = e.fr
						waiting = waiting[1:]
					}
				case 2:
					for i, q := range waiting {
						if q == e.q {
							waiting = append(append([]*Req(nil), waiting[:i]...), waiting[i+1:]...)
							break
						}
					}
				}
			}
			if vague {
				ambiguous++
			}
			// in any case: an answer is one that came while it waited, and no reply goes to two
			used := map[string]*Req{}
			for _, q := range reqs {
				s := q.Snap()
				if q.Kind != "function" || q.Body[0] != f || q.Abandon || !s.Accepted || len(tx[string(q.Body)]) == 0 {
					continue
				}
				t0 := tx[string(q.Body)][0].T0
				if len(s.Msgs) > 0 && s.Msgs[0] != nil {
					answeredF++
					var src []byte
					for _, it := range items {
						if it.Ref != nil && it.T >= t0 && it.T <= s.GotT[0] && it.T >= s.GotT[0]-time.Second && it.Item.Frame[3] == f && sameMsg(s.Msgs[0], it.Item.Frame) {
							src = it.Item.Frame
						}
					}
					if src == nil {
						c.Violate("request %x, transmitted at %v, got %+v, which no frame said since then", q.Body, t0, s.Msgs[0].Data)
						continue
					}
					if o := used[string(src)]; o != nil && !dupFrame(items, src) {
						c.Violate("the reply %x was delivered to the requests %x and %x", src, o.Body, q.Body)
					}
					used[string(src)] = q
				}
				if !vague {
					if w := want[q]; w == nil && len(s.Msgs) > 0 {
						c.Violate("request %x got %+v, but it was not its turn", q.Body, s.Msgs[0].Data)
					} else if w != nil && (len(s.Msgs) == 0 || !sameMsg(s.Msgs[0], w)) {
						c.Violate("request %x should have got the reply %x, got %v", q.Body, w, s.Msgs)
					}
				}
			}
		}

		// the library still works
		probe := reqReport(201, 0x31, 5, 60001, 5*time.Second)
		mu.Unlock()
		w.WaitUntil(10*time.Second, func() bool { return w.Op.Port().IsOpen() })
		twins := w.runTwins(c, r, hostile)
		natural := w.runNatural(c, r)
		mixed := w.runMixed(c, r)
		patient := w.runPatient(c, r, hostile)
		w.Op.setHandle(func(p *Port, frame []byte) {
			p.Feed([]byte{0x06})
			if bytes.Equal(frame[3:len(frame)-1], probe.Body) {
				p.FeedAfter(10*time.Millisecond, mkReport(201, 0x31, 5, 0x01, 0x01, 0x2a))
			}
		})
		ok := w.Within(time.Minute, func() { w.Do(w.Ctl.Connection, probe) })
		time.Sleep(6 * time.Second)
		mu.Lock()
		if s := probe.Snap(); !ok || len(s.Reps) != 1 || !s.Closed {
			c.Violate("a request after all others got %d answers, accepted %v", len(s.Reps), ok)
		}

		c.Count("answered_identical_requests", twins)
		c.Count("answered_requests_of_natural_length", natural)
		c.Count("answered_next_to_refused_or_after_reopening", mixed)
		c.Count("answered_of_many_or_after_hours", patient)
		c.Count("answered_functions", answeredF)
		c.Count("answered_reports", answeredR)
		c.Count("released_without_answer", expired)
		c.Count("near_misses_while_waiting", near)
		c.Count("received", len(items))
		c.Count("order_not_judged", ambiguous)
		c.Count("port_failures", fails)
		var res []string
		for _, q := range reqs {
			s := q.Snap()
			res = append(res, fmt.Sprintf("%d%c%d", q.ID, q.Kind[0], len(s.GotT)))
		}
		c.Mark(res, len(items))
		c.Sample(fmt.Sprintf("%d callers, requests and number of answers: %v", ncall, res))
		if hostile {
			if answeredF+answeredR > 0 && expired > 0 {
				c.Nontrivial()
			}
		} else if answeredF > 0 && answeredR > 0 && near > 0 {
			c.Nontrivial()
		}
	})
}

// runTwins lets several callers wait for the very same request, each gets an answer of its own.
func (w *World) runTwins(c *Case, r *lockedRand, impatient bool) int {
	var all []*Req
	want := map[string]int{}
	add := func(n int, mk func(i int) *Req) {
		for i := 0; i < n; i++ {
			q := mk(i)
			if impatient && i > 0 && r.Intn(4) == 0 { // gives up before the answer
				q.Timeout = 50 * time.Millisecond
			}
			all = append(all, q)
			want[string(q.Body)]++
		}
	}
	nr, nf := 2+r.Intn(3), 2+r.Intn(3)
	add(nr, func(i int) *Req { return reqReport(202, 0x31, 5, 0, 30*time.Second) })
	add(nf, func(i int) *Req { return reqFunction(0x41, 0, 30*time.Second) })
	var mu sync.Mutex
	sent := map[string]int{}
	w.Op.setHandle(func(p *Port, frame []byte) {
		mu.Lock()
		sent[string(frame[3:len(frame)-1])]++
		mu.Unlock()
		p.Feed([]byte{0x06})
	})
	wait := w.callers(all, len(all), func() time.Duration { return r.Dur(0, 20*time.Millisecond) })
	if !wait(time.Minute) {
		c.Violate("identical requests are not accepted")
		return 0
	}
	time.Sleep(2 * time.Second)
	mu.Lock()
	for k, n := range want {
		if sent[k] != n {
			c.Violate("%d callers sent %x, it was transmitted %d times", n, k, sent[k])
		}
	}
	mu.Unlock()
	feed := func(n int, mk func(i int) []byte) {
		for i := 0; i < n; i++ {
			w.Op.Port().Feed(mk(i))
			time.Sleep(r.Dur(0, 100*time.Millisecond))
		}
	}
	repT := w.Now()
	same := r.Intn(3) == 0 // all answers are the same, too
	feed(nr, func(i int) []byte { return mkReport(202, 0x31, 5, 0x01, 0x02, byte(i), 7) })
	funT := w.Now()
	feed(nf, func(i int) []byte {
		if same {
			i = 0
		}
		return mkFrame(0x01, 0x41, byte(i), 9, 0, 4, 0x11, 1)
	})
	time.Sleep(time.Second)
	answered := 0
	seen := map[string]bool{}
	for _, q := range all {
		s := q.Snap()
		if !s.Closed {
			c.Violate("one of the callers that sent the same request %x is not released", q.Body)
		}
		if q.Timeout < time.Second {
			if len(s.GotT) > 0 {
				c.Violate("request %x got an answer after its time limit", q.Body)
			}
			continue
		}
		if len(s.GotT) != 1 {
			c.Violate("one of %d callers that sent the same request %x got %d answers", want[string(q.Body)], q.Body, len(s.GotT))
			continue
		}
		answered++
		from := repT
		if q.Kind == "function" {
			from = funT
			k := fmt.Sprintf("%+v", s.Msgs[0].Data)
			if seen[k] && !same {
				c.Violate("one reply was delivered to two callers that sent the same request %x: %s", q.Body, k)
			}
			seen[k] = true
		}
		if s.GotT[0] < from {
			c.Violate("request %x got an answer at %v, which was received after %v", q.Body, s.GotT[0], from)
		}
	}
	return answered
}

// runNatural sends requests that are as short as those of the library itself, for a report or for any report of a
// class, and answers each after frames that are no answer to it.
func (w *World) runNatural(c *Case, r *lockedRand) int {
	classes := []byte{0x25, 0x31, 0x71, 0x84}
	reps := map[byte]byte{0x25: 3, 0x31: 5, 0x71: 5, 0x84: 7}
	data := func(class byte) []byte {
		if class == 0x25 {
			return []byte{0xff}
		}
		return reportData(class, 1+r.Intn(1000))
	}
	others := []struct {
		class, cmd byte
		data       []byte
	}{{0x25, 3, []byte{0xff}}, {0x26, 3, []byte{9}}, {0x26, 3, []byte{9, 9, 0}}, {0x31, 5, []byte{1, 1, 9}}, {0x71, 5, []byte{1, 2}}, {0x72, 5, []byte{0, 1, 0, 2, 0, 3}}, {0x60, 8, []byte{0x40, 2}}, {0x84, 7, nil}, {0x80, 3, []byte{50}}}
	perm := r.Perm(len(classes))
	asked := map[[2]int]bool{}
	var all []*Req
	base := 210 + r.Intn(10)
	for i := 0; i < 2+r.Intn(5); i++ {
		node, class := base+i%2, classes[perm[i%len(perm)]]
		if i >= len(perm) {
			node = base + 2 + i
		}
		q := &Req{ID: i, Kind: "report", Node: node, Class: class, Report: reps[class], Timeout: 30 * time.Second}
		q.Body = []byte{0x13, byte(node), 2, class, 2}
		if r.Intn(2) == 0 {
			q.Body = append(q.Body, 0x25)
		}
		if r.Intn(3) == 0 {
			q.Kind, q.Report = "function", 0 // any report of the class
		}
		asked[[2]int{node, int(class)}] = true
		all = append(all, q)
	}
	w.Op.setHandle(func(p *Port, frame []byte) { p.Feed([]byte{0x06}) })
	wait := w.callers(all, len(all), func() time.Duration { return r.Dur(0, 20*time.Millisecond) })
	if !wait(time.Minute) {
		c.Violate("short requests are not accepted")
		return 0
	}
	time.Sleep(3 * time.Second)
	answered := 0
	for _, i := range r.Perm(len(all)) {
		q := all[i]
		gap := func() {
			time.Sleep([]time.Duration{time.Microsecond, 3 * time.Millisecond, 60 * time.Millisecond}[r.Intn(3)])
		}
		for k := r.Intn(5); k > 0; k-- {
			switch r.Intn(6) {
			case 0: // another node
				w.Op.Port().Feed(mkReport(q.Node^0x40, q.Class, reps[q.Class], data(q.Class)...))
			case 1: // another class
				x := others[r.Intn(len(others))]
				if x.class == 0x84 && q.Report != 0 { // any command of this class is understood
					x.cmd = q.Report
				}
				if !asked[[2]int{q.Node, int(x.class)}] {
					w.Op.Port().Feed(mkReport(q.Node, x.class, x.cmd, x.data...))
				}
			case 2: // another report
				if q.Report != 0 {
					w.Op.Port().Feed(mkReport(q.Node, q.Class, q.Report+2, data(q.Class)...))
				}
			case 3: // what the controller says about the transmission
				w.Op.Port().Feed(mkFrame(0x01, 0x13, 0x01))
			case 4:
				w.Op.Port().Feed(mkFrame(0x00, 0x13, 0x03, byte(q.Node), 0x00, q.Class, reps[q.Class]))
			case 5: // a command that is cut after the class
				w.Op.Port().Feed(mkFrame(0x00, 0x04, 0x00, byte(q.Node), 0x01, q.Class))
			}
			gap()
		}
		if s := q.Snap(); len(s.GotT) > 0 || s.Closed {
			c.Violate("request %x was completed with %v %v, but nothing of what was received is an answer to it", q.Body, s.Msgs, s.Reps)
			continue
		}
		f := mkReport(q.Node, q.Class, reps[q.Class], data(q.Class)...)
		w.Op.Port().Feed(f)
		time.Sleep(50 * time.Millisecond)
		s := q.Snap()
		if len(s.GotT) != 1 || !s.Closed {
			c.Violate("request %x got %d answers (closed %v) after the answer %x", q.Body, len(s.GotT), s.Closed, f)
			continue
		}
		if q.Kind == "function" && !sameMsg(s.Msgs[0], f) {
			c.Violate("request %x got %+v instead of the answer %x", q.Body, s.Msgs[0], f)
		}
		if q.Kind == "report" {
			if d := cmpReport(s.Reps[0], refDecode(f).Report); d != "" {
				c.Violate("request %x got another report than %x: %s", q.Body, f, d)
			}
		}
		answered++
	}
	return answered
}

// runMixed has several requests to one node and to the controller waiting at the same time. Some are refused by the
// controller or can not be written, the port may be opened again before the answers come, and there may have been
// hundreds of commands before. All others have to get their answers.
func (w *World) runMixed(c *Case, r *lockedRand) int {
	const node = 230
	kinds := [][2]byte{{0x31, 5}, {0x72, 5}, {0x71, 5}, {0x60, 8}, {0x84, 7}}[:1+r.Intn(5)]
	var before, all []*Req
	if r.Intn(12) == 0 {
		// so many that their number reaches a multiple of 256 with those that wait
		for i := 255 - (len(w.Op.Commands())+r.Intn(8))%256; i >= 0; i-- {
			before = append(before, &Req{ID: i, Kind: "write", Body: []byte{0x13, 229, 4, 0x86, 0x11, byte(i >> 8), byte(i), 0x25}})
		}
	}
	fate := map[string]int{}   // 0 answered, 1 refused, 2 can not be written
	cancel := map[string]int{} // how often it is cancelled before
	cancelled := r.Intn(2) == 0
	for i := 0; i < 3+r.Intn(8); i++ {
		k := kinds[r.Intn(len(kinds))]
		q := reqReport(node, k[0], k[1], 0x4000+i, 90*time.Second)
		switch r.Intn(4) {
		case 0:
			q = reqFunction(0x41, 0x4000+i, 90*time.Second)
		case 1:
			q.Kind, q.Report = "function", 0 // any report of the class
		}
		f := []int{0, 0, 0, 0, 0, 0, 1, 2}[r.Intn(8)]
		if f == 2 {
			q.Timeout = r.Dur(time.Millisecond, 900*time.Millisecond)
		}
		fate[string(q.Body)] = f
		if cancelled && f == 0 && r.Intn(3) == 0 {
			cancel[string(q.Body)] = 1 + r.Intn(3)
		}
		all = append(all, q)
	}
	var mu sync.Mutex
	var order []string      // of what has been transmitted and not cancelled
	quick := r.Intn(3) == 0 // the replies to the functions come at once, while others are about to be sent again
	frames := map[string][]byte{}
	infos := 0
	w.Op.setRefuse(func(b []byte) bool { return len(b) > 5 && fate[string(b[3:len(b)-1])] == 2 })
	defer w.Op.setRefuse(nil)
	w.Op.setHandle(func(p *Port, frame []byte) {
		body := string(frame[3 : len(frame)-1])
		f, ok := fate[body]
		ctl := []byte{0x06}
		d := r.Dur(0, 30*time.Millisecond)
		mu.Lock()
		if cancel[body] > 0 {
			cancel[body]--
			ctl[0] = 0x18
		} else if ok {
			order = append(order, body)
			if quick && body[0] == 0x41 && f == 0 {
				infos++
				frames[body] = mkFrame(0x01, 0x41, byte(infos), 9, 0, 4, 0x11, byte(infos))
				p.FeedAfter(d+r.Dur(1, 45*time.Millisecond), frames[body])
			}
		}
		mu.Unlock()
		if f == 1 {
			ctl[0] = 0x15
		}
		p.FeedAfter(d, ctl)
	})
	wait := w.callers(before, 1, nil)
	if !wait(time.Minute * 2) {
		c.Violate("%d commands one after another are not accepted within two minutes", len(before))
		return 0
	}
	wait = w.callers(all, 1+r.Intn(len(all)), func() time.Duration { return r.Dur(0, 20*time.Millisecond) })
	if !wait(time.Minute) {
		c.Violate("requests are not accepted")
		return 0
	}
	if !w.WaitUntil(30*time.Second, func() bool {
		mu.Lock()
		defer mu.Unlock()
		n := 0
		for _, f := range fate {
			if f != 2 {
				n++
			}
		}
		return len(order) == n
	}) {
		c.Violate("accepted requests are not all transmitted, left to be cancelled: %v", cancel)
		return 0
	}
	time.Sleep(time.Second + r.Dur(0, 2*time.Second))
	if r.Intn(2) == 0 {
		p := w.Op.Port()
		p.Fail()
		w.WaitUntil(10*time.Second, func() bool { return w.Op.Port() != p })
		time.Sleep(r.Dur(0, 400*time.Millisecond))
	}
	for _, q := range all {
		if frames[string(q.Body)] != nil {
			continue
		}
		if s := q.Snap(); len(s.GotT) > 0 {
			c.Violate("request %x was answered with %v %v before any answer was received", q.Body, s.Msgs, s.Reps)
			return 0
		} else if f := fate[string(q.Body)]; f == 0 && s.Closed {
			c.Violate("request %x was released without an answer at %v", q.Body, s.ClosedT)
			return 0
		} else if f == 1 && !s.Closed {
			c.Violate("request %x has been refused, but its caller is still waiting", q.Body)
		}
	}
	var feed [][]byte
	for _, k := range kinds {
		f := mkReport(node, k[0], k[1], reportData(k[0], 1+r.Intn(1000))...)
		feed = append(feed, f)
		for _, q := range all {
			if q.Body[0] == 0x13 && q.Body[3] == k[0] {
				frames[string(q.Body)] = f
			}
		}
	}
	mu.Lock()
	n := infos
	for _, b := range order {
		if b[0] == 0x41 && fate[b] == 0 && frames[b] == nil {
			n++
			f := mkFrame(0x01, 0x41, byte(n), 9, 0, 4, 0x11, byte(n))
			frames[b] = f
			feed = append(feed, f)
		}
	}
	mu.Unlock()
	// the replies to the functions in their order, reports anywhere between
	reps, funs := feed[:len(kinds)], feed[len(kinds):]
	for len(reps)+len(funs) > 0 {
		l := &reps
		if len(reps) == 0 || len(funs) > 0 && r.Intn(2) == 0 {
			l = &funs
		}
		w.Op.Port().Feed((*l)[0])
		*l = (*l)[1:]
		time.Sleep(r.Dur(0, 60*time.Millisecond))
	}
	time.Sleep(5 * time.Second)
	answered := 0
	for _, q := range all {
		s := q.Snap()
		if fate[string(q.Body)] != 0 {
			if len(s.GotT) > 0 || !s.Closed {
				c.Violate("request %x was not accepted by the controller, its caller got %d answers, released %v", q.Body, len(s.GotT), s.Closed)
			}
			continue
		}
		want := frames[string(q.Body)]
		if len(s.GotT) != 1 || !s.Closed {
			c.Violate("request %x got %d answers (released %v), should have got %x", q.Body, len(s.GotT), s.Closed, want)
			continue
		}
		answered++
		if q.Kind == "function" && !sameMsg(s.Msgs[0], want) {
			c.Violate("request %x got %+v instead of %x", q.Body, s.Msgs[0].Data, want)
		}
		if q.Kind == "report" {
			if d := cmpReport(s.Reps[0], refDecode(want).Report); d != "" {
				c.Violate("request %x got another report than %x: %s", q.Body, want, d)
			}
		}
	}
	return answered
}

// runPatient has many requests waiting at the same time, some of them for hours. Each gets the one answer that is for
// it, also when the port is opened again in between, the others are released by their own time limits.
func (w *World) runPatient(c *Case, r *lockedRand, failures bool) int {
	if r.Intn(5) > 0 {
		return 0
	}
	time.Sleep(time.Minute)
	limits := []time.Duration{25 * time.Second, 2 * time.Minute, 20 * time.Minute, 3 * time.Hour, 30 * time.Hour}[r.Intn(4):]
	type plan struct {
		q     *Req
		after time.Duration
		frame []byte
		fed   time.Duration
	}
	var all []*Req
	var plans []*plan
	combos := r.Perm(190 * 4)
	n := 20 + r.Intn(200)
	for i := 0; i < n; i++ {
		k := []struct{ c, r byte }{{0x31, 5}, {0x72, 5}, {0x71, 5}, {0x60, 8}}[combos[i]%4]
		p := &plan{q: reqReport(1+combos[i]/4, k.c, k.r, 40000+i, limits[r.Intn(len(limits))])}
		switch r.Intn(5) {
		case 0: // never
		case 1: // in the last moment
			p.after = p.q.Timeout - r.Dur(10*time.Millisecond, time.Second)
		default:
			p.after = r.Dur(time.Millisecond, p.q.Timeout*5/4)
		}
		p.frame = answerTo(p.q, 1+r.Intn(1000000))
		plans, all = append(plans, p), append(all, p.q)
	}
	var infos []*Req
	for i := r.Intn([]int{6, 120}[r.Intn(2)]); i > 0; i-- {
		q := reqFunction(0x41, 41000+i, 40*time.Hour)
		infos, all = append(infos, q), append(all, q)
	}
	r.mu.Lock()
	r.r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	r.mu.Unlock()
	w.Op.setHandle(func(p *Port, frame []byte) { p.Feed([]byte{0x06}) })
	spread := []time.Duration{50 * time.Millisecond, time.Duration(len(all)) * 120 * time.Millisecond}[r.Intn(2)]
	wait := w.callers(all, len(all), func() time.Duration { return r.Dur(0, spread) })
	if !wait(time.Duration(n)*time.Second + time.Minute) {
		c.Violate("%d requests at the same time are not accepted", len(all))
		return 0
	}
	time.Sleep(2 * time.Second)
	start := w.Now()
	type event struct {
		at time.Duration
		p  *plan
		fr []byte
	}
	var evs []event
	for _, p := range plans {
		if p.after > 0 {
			evs = append(evs, event{p.q.Snap().AcceptT + p.after, p, p.frame})
		}
	}
	var replies [][]byte
	for i, n := 0, r.Intn(len(infos)+1); i < n; i++ {
		evs = append(evs, event{start + r.Dur(0, 30*time.Hour), nil, mkFrame(0x01, 0x41, byte(r.Intn(256)), byte(i), 0, 4, 0x10, byte(1+i))})
	}
	if failures {
		for i := r.Intn(4); i > 0; i-- {
			evs = append(evs, event{start + r.Dur(0, 2*limits[0]), nil, nil})
		}
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
	for _, e := range evs {
		if d := e.at - w.Now(); d > 0 {
			time.Sleep(d)
		}
		if e.fr == nil {
			old := w.Op.Port()
			old.Fail()
			if !w.WaitUntil(10*time.Second, func() bool { p := w.Op.Port(); return p != old && p.IsOpen() }) {
				c.Violate("the port was not opened again")
				return 0
			}
			time.Sleep(50 * time.Millisecond)
			continue
		}
		if e.p != nil {
			e.p.fed = w.Now()
		} else {
			replies = append(replies, e.fr)
		}
		w.Op.Port().Feed(e.fr)
		time.Sleep(time.Microsecond)
	}
	for w.Now() < start+41*time.Hour {
		time.Sleep(time.Hour)
	}
	tx, order := w.txOf()
	const eps = 2 * time.Millisecond
	answered := 0
	for _, p := range plans {
		s := p.q.Snap()
		if len(tx[string(p.q.Body)]) != 1 {
			c.Violate("request %x was transmitted %d times", p.q.Body, len(tx[string(p.q.Body)]))
			continue
		}
		end := s.AcceptT + p.q.Timeout
		switch {
		case !s.Closed || s.ClosedT > end+time.Second:
			c.Violate("one of %d requests at the same time: %x, accepted at %v with the time limit %v, released: %v at %v", n, p.q.Body, s.AcceptT, p.q.Timeout, s.Closed, s.ClosedT)
		case p.fed > 0 && p.fed < end-eps:
			if len(s.Reps) != 1 {
				c.Violate("one of %d requests at the same time: %x, accepted at %v with the time limit %v, got %d answers (released at %v), the answer arrived at %v", n, p.q.Body, s.AcceptT, p.q.Timeout, len(s.Reps), s.ClosedT, p.fed)
			} else if s.GotT[0] < p.fed || s.GotT[0] > p.fed+time.Second || cmpReport(s.Reps[0], refDecode(p.frame).Report) != "" {
				c.Violate("one of %d requests at the same time: %x got %+v at %v, the answer %x arrived at %v", n, p.q.Body, s.Reps[0], s.GotT[0], p.frame, p.fed)
			} else {
				answered++
			}
		case p.fed == 0 || p.fed > end+time.Second:
			if len(s.Reps) != 0 {
				c.Violate("one of %d requests at the same time: %x got %+v at %v, it was not answered in time (%v)", n, p.q.Body, s.Reps[0], s.GotT[0], p.fed)
			} else if s.ClosedT < end-eps {
				c.Violate("one of %d requests at the same time: %x, accepted at %v with the time limit %v, was released without an answer at %v", n, p.q.Body, s.AcceptT, p.q.Timeout, s.ClosedT)
			}
		}
	}
	turn := 0
	for _, f := range order {
		for _, q := range infos {
			if !bytes.Equal(f.Payload(), q.Body) {
				continue
			}
			s := q.Snap()
			if turn < len(replies) {
				if len(s.Msgs) != 1 || !sameMsg(s.Msgs[0], replies[turn]) {
					c.Violate("the reply %x should have completed request %x, which got %v", replies[turn], q.Body, s.Msgs)
				} else {
					answered++
				}
			} else if len(s.Msgs) != 0 || !s.Closed {
				c.Violate("request %x got %v (closed %v), there was no reply left for it", q.Body, s.Msgs, s.Closed)
			} else if s.ClosedT < s.AcceptT+q.Timeout-eps {
				c.Violate("request %x, one of %d at the same time, accepted at %v with the time limit %v, was released without an answer at %v", q.Body, len(all), s.AcceptT, q.Timeout, s.ClosedT)
			}
			turn++
		}
	}
	return answered
}

// dupFrame tells if the same frame was received more than once
func dupFrame(items []fedItem, fr []byte) bool {
	n := 0
	for _, it := range items {
		if bytes.Equal(it.Item.Frame, fr) {
			n++
		}
	}
	return n > 1
}
