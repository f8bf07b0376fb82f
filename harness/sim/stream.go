package sim

import (
	"fmt"
	"time"

	"github.com/stampzilla/gozwave/events"
)

func init() {
	register("S01", "streams of 20 to 120 intact sensor reports of known nodes (each with its own state key and value) mixed with noise, control bytes, damaged, cut off and undecodable frames, cut into reads of 1 to 500 bytes with gaps of 0 to 39.9 or more than 40.1 ms (34 and 46 on a slow port), empty reads between; what was processed is read from node states, update events and acknowledges and compared with a left to right scan; then rounds of two commands, the first of which is answered by a control byte anywhere between noise, damaged frames and intact frames. Non-trivial when reports were processed that arrived in pieces and bytes were discarded by age", func(c *Case) { runStream(c, false) })
	register("S03", "streams as S01 with any checksum-correct frames (all functions, undecodable, answers to waiting requests), while commands are transmitted over a port that takes bytes at once or one by one; the acknowledge bytes on the line are compared with the frames found by a left to right scan. Non-trivial when frames were acknowledged and other items were received", func(c *Case) { runStream(c, true) })
}

func runStream(c *Case, any bool) {
	c.Bubble(func() {
		w := NewWorld(c)
		r := newRand(c)
		w.Op.SlowWrite = c.R.Intn(3) == 0
		w.Op.Coalesce = c.R.Intn(2) == 0
		w.Op.Handle = func(p *Port, frame []byte) {
			if isGetNodes(TxFrame{B: frame}) {
				p.Feed([]byte{0x06})
				p.Feed(mkNodeList())
			}
		}
		known := []int{2, 3, 40, 231, 232}
		if err := w.Connect(c.confFile(plainNodes(known...))); err != nil {
			c.Violate("connect failed: %v", err)
			return
		}
		w.DrainEvents(nil)
		time.Sleep(500 * time.Millisecond)
		for _, id := range known {
			if w.Node(id) == nil {
				c.Violate("node %d of the configuration file is missing", id)
				return
			}
		}
		evBase := map[int]int{}
		for _, e := range w.EventLog() {
			if u, ok := e.Ev.(events.NodeUpdated); ok {
				evBase[u.Address]++
			}
		}
		baseFed := len(w.Op.Port().Fed())
		baseAck := 0
		for _, f := range w.Op.Tx() {
			if f.Ack {
				baseAck++
			}
		}

		// the stream
		var stream []byte
		keys := c.R.Perm(len(known) * 200)
		nFrames := 20 + c.R.Intn(100)
		noisy := c.R.Intn(4)
		for i := 0; i < nFrames; i++ {
			if any && c.R.Intn(2) == 0 {
				stream = append(stream, randValidFrame(c.R)...)
			} else {
				k := keys[i]
				d := []byte{byte(40 + k%200), 0x02, byte(c.R.Intn(256)), byte(c.R.Intn(256))}
				switch c.R.Intn(4) {
				case 0:
					d = []byte{d[0], 0x01, byte(c.R.Intn(256))}
				case 1:
					d = []byte{d[0], 0x04, byte(c.R.Intn(256)), 0x06, 0x01, byte(c.R.Intn(256))}
				}
				f := mkReport(known[k/200], 0x31, 5, d...)
				stream = append(stream, f...)
				for c.R.Intn(10) == 0 { // the very same frame again
					stream = append(stream, f...)
				}
			}
			for noisy > 0 && c.R.Intn(5) < noisy {
				switch c.R.Intn(8) {
				case 0:
					stream = append(stream, randBytes(c.R, 1+c.R.Intn(6))...)
				case 1:
					stream = append(stream, []byte{6, 0x15, 0x18}[c.R.Intn(3)])
				case 2: // damaged
					f := randValidFrame(c.R)
					f[c.R.Intn(len(f))] ^= 1 << uint(c.R.Intn(8))
					stream = append(stream, f...)
				case 3: // cut off
					f := randValidFrame(c.R)
					stream = append(stream, f[:1+c.R.Intn(len(f))]...)
				case 4: // intact but not decodable
					stream = append(stream, mkFrame(byte(c.R.Intn(2)), append([]byte{byte(0x50 + c.R.Intn(100))}, randBytes(c.R, c.R.Intn([]int{20, 20, 240}[c.R.Intn(3)]))...)...)...)
				case 5: // a start byte only
					stream = append(stream, 1)
				case 6: // a report within a broken one
					f := mkReport(known[0], 0x31, 5, byte(40+c.R.Intn(200)), 1, byte(c.R.Intn(256)))
					stream = append(stream, 1, byte(len(f)+3+c.R.Intn(4)), 0)
					stream = append(stream, f...)
				case 7:
					stream = append(stream, mkReport(7, 0x25, 3, 0xff)...)
				}
			}
		}
		// the reads
		maxCut := []int{1, 4, 20, 100, 500}[c.R.Intn(5)]
		style := c.R.Intn(3)
		cmds := any && c.R.Intn(2) == 0
		empties := c.R.Intn(3) == 0
		// a port that takes its time delays the next read too
		almost, over := 39900*time.Microsecond, 40100*time.Microsecond
		if w.Op.SlowWrite {
			almost, over = 34*time.Millisecond, 46*time.Millisecond
		}
		var sent []*Req
		for len(stream) > 0 {
			n := 1 + c.R.Intn(maxCut)
			if n > len(stream) {
				n = len(stream)
			}
			w.Op.Port().Feed(stream[:n])
			stream = stream[n:]
			gap := durIn(c.R, time.Millisecond, 3*time.Millisecond)
			switch {
			case style == 1 && c.R.Intn(4) == 0:
				gap = durIn(c.R, 3*time.Millisecond, almost)
			case style == 2 && c.R.Intn(12) == 0:
				gap = durIn(c.R, over, 400*time.Millisecond)
			case c.R.Intn(200) == 0:
				gap = durIn(c.R, over, 400*time.Millisecond)
			}
			if c.R.Intn(style*20+20) == 0 { // a long silence, also just after a round number of whatever unit
				gap = roundTimes[c.R.Intn(len(roundTimes))]
				if c.R.Intn(3) > 0 {
					gap += durIn(c.R, 0, 40*time.Millisecond)
				}
			}
			if empties && c.R.Intn(6) == 0 { // a read that returns nothing must not make a difference
				h := gap / 2
				time.Sleep(h)
				w.Op.Port().Feed(nil)
				gap -= h
			}
			if cmds && c.R.Intn(10) == 0 {
				q := reqReport(known[c.R.Intn(len(known))], 0x31, 5, len(sent), time.Second)
				if c.R.Intn(2) == 0 {
					q = reqWrite(c.R, len(sent), 60)
				}
				sent = append(sent, q)
				go w.Do(w.Ctl.Connection, q)
			}
			time.Sleep(gap)
		}
		time.Sleep(2 * time.Second)
		jitter(r.Intn(64))
		ctlSeen := 0
		if !any {
			ctlSeen = w.controlBytes(c, r, known)
		}

		fed := w.Op.Port().Fed()[baseFed:]
		items := refScan(fed)
		var frames []Item
		for _, it := range items {
			if it.Frame != nil {
				frames = append(frames, it)
			}
		}
		pieces := 0 // frames that were read in several pieces
		for _, f := range frames {
			if f.Size > maxCut {
				pieces++
			}
		}
		aged := 0
		lastT := time.Duration(-1)
		for _, ch := range fed {
			if len(ch.B) == 0 {
				continue
			}
			if lastT >= 0 && ch.T-lastT > maxGap {
				aged++
			}
			lastT = ch.T
		}

		// acknowledges
		var acks []TxFrame
		for _, f := range w.Op.Tx() {
			if f.Ack {
				acks = append(acks, f)
			}
		}
		acks = acks[baseAck:]
		if len(acks) != len(frames) {
			c.Violate("%d frames were received, %d acknowledges were written", len(frames), len(acks))
		}
		for i := range acks {
			if i < len(frames) && acks[i].Seq < frames[i].Seq {
				c.Violate("acknowledge number %d was written at %v, before frame number %d was complete at %v", i+1, acks[i].T, i+1, frames[i].T)
				break
			}
			if i < len(frames) && acks[i].T > frames[i].T+time.Second {
				c.Violate("acknowledge number %d was written at %v, frame number %d was complete at %v", i+1, acks[i].T, i+1, frames[i].T)
				break
			}
		}
		if bad := w.Op.BadTx(); len(bad) > 0 {
			c.Violate("written and neither a frame nor an acknowledge: %x", bad[0])
		}

		if !any {
			// states and events
			want := map[int]*RefState{}
			evs := map[int]int{}
			for _, id := range known {
				want[id] = newRefState()
			}
			judge, judgeEvents := true, true
			burst, burstT := 0, time.Duration(-1)
			for _, f := range frames {
				m := refDecode(f.Frame)
				if m == nil || m.Kind != "cmd" || want[int(m.Node)] == nil {
					continue
				}
				if m.Report.Kind == "alarm" || m.Report.Unspecified {
					judge = false
				}
				if want[int(m.Node)].apply(m.Report) {
					evs[int(m.Node)]++
				}
				if f.T != burstT {
					burst, burstT = 0, f.T
				}
				if burst++; burst > 8 {
					judgeEvents = false
				}
			}
			for _, id := range known {
				n := w.Node(id)
				if n == nil {
					c.Violate("node %d is gone", id)
					continue
				}
				if d := want[id].diff(stateOf(n)); d != "" && judge {
					c.Violate("node %d: %s", id, d)
				}
			}
			got := map[int]int{}
			for _, e := range w.EventLog() {
				if u, ok := e.Ev.(events.NodeUpdated); ok {
					got[u.Address]++
				}
			}
			for id := 1; id <= 232; id++ {
				if g := got[id] - evBase[id]; judge && judgeEvents && g != evs[id] {
					c.Violate("node %d: %d reports were received, %d updates were announced", id, evs[id], g)
				}
			}
			if !judge {
				c.Count("states_not_judged", 1)
			}
			if !judgeEvents {
				c.Count("events_not_judged", 1)
			}
		}
		c.Count("frames", len(frames))
		c.Count("other_items", len(items)-len(frames))
		c.Count("reads", len(fed))
		c.Count("frames_in_pieces", pieces)
		c.Count("pauses_over_40ms", aged)
		c.Count("commands", len(sent))
		c.Count("control_bytes_judged", ctlSeen)
		c.Mark(len(frames), len(items), len(fed), aged, w.Now())
		c.Sample(fmt.Sprintf("%d reads of up to %d bytes, %d frames, %d control bytes, %d pauses of more than 40 ms", len(fed), maxCut, len(frames), len(items)-len(frames), aged))
		if len(frames) > 0 && (any || pieces > 0 || maxCut == 100) {
			c.Nontrivial()
		}
	})
}

// roundTimes are durations at which clocks kept in a small unit or a small number start again.
var roundTimes = []time.Duration{50 * time.Millisecond, 100 * time.Millisecond, 128 * time.Millisecond, 256 * time.Millisecond, 512 * time.Millisecond, time.Second, 1024 * time.Millisecond, 2 * time.Second, 5 * time.Second, 10 * time.Second,
	32768 * time.Millisecond, 65536 * time.Microsecond, 65536 * time.Millisecond, 256 * time.Second, time.Minute, time.Hour, 65536 * time.Second, 24 * time.Hour, 7 * 24 * time.Hour, 365 * 24 * time.Hour,
	1 << 31, 1 << 32, (1 << 31) * time.Microsecond, (1 << 32) * time.Microsecond, (1 << 31) * time.Millisecond, (1 << 32) * time.Millisecond}

// controlBytes answers commands with control bytes that are hidden between other things, and observes that each takes effect.
func (w *World) controlBytes(c *Case, r *lockedRand, known []int) int {
	judged := 0
	for round := 0; round < 4; round++ {
		var chunk []byte
		extra := func(n int) {
			for ; n > 0; n-- {
				switch c.R.Intn(6) {
				case 0, 1:
					for k := 1 + c.R.Intn(5); k > 0; k-- {
						chunk = append(chunk, []byte{0, 2, 7, 0x55, 0xff, byte(0x20 + c.R.Intn(200))}[c.R.Intn(6)])
					}
				case 2:
					f := mkReport(known[0], 0x31, 5, byte(40+c.R.Intn(200)), 1, byte(c.R.Intn(256)))
					f[2+c.R.Intn(len(f)-2)] ^= 1 << uint(c.R.Intn(8))
					chunk = append(chunk, f...)
				case 3:
					f := mkReport(known[1], 0x31, 5, byte(40+c.R.Intn(200)), 1, byte(c.R.Intn(256)))
					chunk = append(chunk, f...)
				case 4:
					chunk = append(chunk, 1, []byte{0, 1, 2}[c.R.Intn(3)])
				case 5:
					chunk = append(chunk, mkFrame(0, 0x49, 0x84, 9, 0)...)
				}
			}
		}
		ctl := []byte{0x06, 0x06, 0x15, 0x18}[c.R.Intn(4)]
		extra(c.R.Intn(4))
		chunk = append(chunk, ctl)
		extra(c.R.Intn(3))
		cut := len(chunk)
		if c.R.Intn(2) == 0 {
			cut = 1 + c.R.Intn(len(chunk))
		}
		d := durIn(c.R, 60*time.Millisecond, 300*time.Millisecond)

		first := reqReport(99, 0x72, 5, 700+2*round, 20*time.Second)
		second := reqWrite(c.R, 701+2*round, 10)
		n := 0
		w.Op.setHandle(func(p *Port, frame []byte) {
			if string(frame[3:len(frame)-1]) == string(first.Body) {
				if n++; n == 1 {
					time.Sleep(d)
					p.Feed(chunk[:cut])
					if cut < len(chunk) {
						time.Sleep(2 * time.Millisecond)
						p.Feed(chunk[cut:])
					}
					return
				}
			}
			p.FeedAfter(60*time.Millisecond, []byte{0x06})
		})
		wait := w.callers([]*Req{first, second}, 1, nil)
		if !wait(10 * time.Second) {
			c.Violate("commands are not accepted")
			return judged
		}
		time.Sleep(4 * time.Second)
		tx, _ := w.txOf()
		t1, t2 := tx[string(first.Body)], tx[string(second.Body)]
		if len(t1) == 0 || len(t2) == 0 {
			c.Violate("a command was not transmitted: %x %d times, %x %d times", first.Body, len(t1), second.Body, len(t2))
			return judged
		}
		var it *Item
		for _, i := range refScan(w.Op.Port().Fed()) {
			i := i
			if i.Frame == nil && i.T > t1[0].T && i.T < t1[0].T+900*time.Millisecond && it == nil {
				it = &i
			}
		}
		if it == nil { // it belongs to something that was not complete
			continue
		}
		judged++
		if t2[0].T0 > it.T+200*time.Millisecond {
			c.Violate("the control byte %x, received at %v in %x, did not end the wait: the next command was transmitted at %v", it.Ctrl, it.T, chunk, t2[0].T0)
		}
		s := first.Snap()
		switch it.Ctrl {
		case 0x15:
			if !s.Closed || s.ClosedT > it.T+20*time.Millisecond {
				c.Violate("the caller of the command that was refused at %v is not released, in %x", it.T, chunk)
			}
		case 0x18:
			if len(t1) != 2 || t1[1].T0 > it.T+time.Second {
				c.Violate("the command that was cancelled at %v was transmitted %d times, in %x", it.T, len(t1), chunk)
			}
		}
		if it.Ctrl != 0x18 && len(t1) != 1 {
			c.Violate("the command that was answered by %x was transmitted %d times, in %x", it.Ctrl, len(t1), chunk)
		}
	}
	return judged
}
