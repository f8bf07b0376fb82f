package sim

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/stampzilla/gozwave"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/events"
	"github.com/stampzilla/gozwave/serialapi"
)

func init() {
	register("X03", "a network of 4 to 7 known nodes in service for months of virtual time: in every case one kind of operation (commands that are answered, refused, cancelled or lost, reports, alarms, port failures, saves) happens 66000 to 70000 times (alarms more than 8000 times, saves more than 1000 times, commands with every fate 9000 times), the others some hundred times, with idle periods of up to 400 days in between; every single operation is checked. Non-trivial when the big kind was completed", runX03)
}

// duty is one command that is under way, with what shall become of it.
type duty struct {
	fate    byte // 'a' answered, 'n' refused, 'c' cancelled, then answered, 's' acknowledged, not answered, 'l' lost
	cancels int
	seen    int
	body    []byte
	done    chan struct{} // closed with the last transmission
}

func runX03(c *Case) {
	c.Bubble(func() {
		r := newRand(c)
		ids := distinctIDs(c.R, 4+c.R.Intn(4))
		callers, sensors := ids[:1+c.R.Intn(3)], ids[3:]
		conf := plainNodes(ids...)
		for i := range conf {
			conf[i].Classes = []confClass{{ID: []int{0x25, 0x26}[i%2]}}
		}
		dir := filepath.Dir(c.tempFile("x"))
		file := filepath.Join(dir, "conf.json")
		os.WriteFile(file, confJSON(conf), 0644)

		var mu sync.Mutex
		duties := map[int]*duty{} // by node
		var trouble []string
		bad := func(format string, a ...interface{}) {
			mu.Lock()
			defer mu.Unlock()
			if len(trouble) < 5 {
				trouble = append(trouble, fmt.Sprintf(format, a...))
			}
		}
		failed := func() bool {
			mu.Lock()
			defer mu.Unlock()
			return len(trouble) > 0
		}
		sent, frames, acks := 0, 0, 0
		late := []time.Duration{0, 130 * time.Millisecond}[c.R.Intn(2)] // answers come so long after the ACK
		if c.Index%10 == 5 {
			callers, late = ids[:3], 130*time.Millisecond
		}
		feed := func(p *leanPort, n int, b []byte) {
			mu.Lock()
			frames += n
			mu.Unlock()
			p.feed(b)
		}
		o := &leanOpener{}
		o.raw = func(p *leanPort, b []byte) {
			if len(b) == 1 && b[0] == 0x06 {
				mu.Lock()
				acks++
				mu.Unlock()
				return
			}
			if len(b) < 5 || b[0] != 1 || int(b[1]) != len(b)-2 || b[2] != 0 || xorSum(b[1:len(b)-1]) != b[len(b)-1] {
				bad("%x was written to the port", b)
				return
			}
			body := append([]byte(nil), b[3:len(b)-1]...)
			if len(body) == 1 && body[0] == 2 {
				feed(p, 1, append([]byte{0x06}, mkNodeList(1)...))
				return
			}
			if len(body) < 2 {
				bad("command %x was transmitted, nobody sent it", body)
				return
			}
			mu.Lock()
			d := duties[int(body[1])]
			if d != nil && string(d.body) == string(body) {
				d.seen++
				sent++
				if d.seen == d.cancels+1 {
					close(d.done)
				}
			} else {
				d = nil
			}
			mu.Unlock()
			if d == nil {
				bad("command %x was transmitted, which is not the one that was sent", body)
				return
			}
			fate := d.fate
			if d.seen <= d.cancels {
				fate = 'C'
			}
			switch fate {
			case 'C':
				p.feed([]byte{0x18})
			case 'n':
				p.feed([]byte{0x15})
			case 's':
				p.feed([]byte{0x06})
			case 'a':
				out := []byte{0x06}
				k := 0
				s := body[len(body)-4:]
				if body[0] == 0x41 {
					out, k = append(out, mkFrame(0x01, 0x41, 0xd3, 0x16, 0, s[1], s[2], s[3])...), 1
				} else if body[3] == 0x31 {
					out, k = append(out, mkReport(int(body[1]), 0x31, 5, 1, 4, s[0], s[1], s[2], s[3])...), 1
				}
				if late > 0 && k > 0 { // the others come in between
					p.feed(out[:1])
					time.AfterFunc(late, func() { feed(p, k, out[1:]) })
					return
				}
				feed(p, k, out)
			}
		}
		ctl, err := gozwave.ConnectWithCustomPortOpener("/sim", file, o)
		if err != nil {
			c.Violate("connect failed: %v", err)
			return
		}
		w := &World{C: c, Ctl: ctl, start: time.Now()}
		reading := c.R.Intn(3) > 0
		updates := map[int]int{}
		if reading {
			ch := ctl.GetNextEvent()
			go func() {
				for e := range ch {
					if u, ok := e.(events.NodeUpdated); ok {
						mu.Lock()
						updates[u.Address]++
						mu.Unlock()
					}
				}
			}()
		}
		time.Sleep(time.Second)
		seq := uint32(0)
		number := func() []byte {
			mu.Lock()
			defer mu.Unlock()
			seq++
			return binary.BigEndian.AppendUint32(nil, seq)
		}
		// one sends one command and waits for what becomes of it
		one := func(id int, plain bool) {
			s := number()
			d := &duty{fate: 'a', done: make(chan struct{})}
			if !plain {
				d.fate = "aaaaaaaaannsslcccc"[r.Intn(18)]
			}
			if d.fate == 'c' {
				d.fate, d.cancels = 'a', 1+r.Intn(2)
			}
			kind := r.Intn(3)
			if plain && r.Intn(2) == 0 {
				kind = 1
			}
			if kind == 1 && (d.fate == 's' || d.fate == 'l') { // would get the reply to the next one
				kind = 2
			}
			switch kind {
			case 0:
				d.body = append([]byte{0x13, byte(id), 6, 0x25, 1}, s...)
			case 1:
				d.body = append([]byte{0x41, byte(id)}, s...)
			case 2:
				d.body = append([]byte{0x13, byte(id), 6, 0x31, 4}, s...)
			}
			mu.Lock()
			duties[id] = d
			mu.Unlock()
			t := time.Now()
			switch kind {
			case 0:
				if err := ctl.Connection.Write(serialapi.NewRaw(d.body)); err != nil {
					bad("sending failed: %v", err)
				}
				if d.cancels > 0 || !plain {
					time.Sleep(8 * time.Second)
				} else {
					select {
					case <-d.done:
					case <-time.After(5 * time.Second):
					}
				}
			case 1:
				ch, err := ctl.Connection.WriteWithTimeout(serialapi.NewRaw(d.body), 20*time.Second)
				if err != nil {
					bad("sending failed: %v", err)
					return
				}
				m := <-ch
				if d.fate != 'a' {
					if m != nil {
						bad("a command without a reply got one")
					}
				} else if m == nil {
					bad("the reply to function request number %d did not reach its caller", seq)
				} else if i, ok := m.Data.(*serialapi.FuncGetNodeProtocolInfo); !ok || i.Generic != s[2] || i.Specific != s[3] {
					bad("function request number %d got the reply to another one", binary.BigEndian.Uint32(s))
				}
				if m, open := <-ch; open {
					bad("a second answer %v", m)
				}
			case 2:
				ch, err := ctl.Connection.WriteAndWaitForReport(serialapi.NewRaw(d.body), 20*time.Second, 5)
				if err != nil {
					bad("sending failed: %v", err)
					return
				}
				rep := <-ch
				if d.fate != 'a' {
					if rep != nil {
						bad("a command without an answer got one")
					}
				} else if x, ok := rep.(*reports.SensorMultiLevel); !ok || x.Value != float64(int32(binary.BigEndian.Uint32(s))) {
					bad("report request number %d got %v", binary.BigEndian.Uint32(s), rep)
				}
				if m, open := <-ch; open {
					bad("a second answer %v", m)
				}
			}
			if kind > 0 {
				el := time.Since(t)
				switch {
				case d.fate == 'n' && el > 15*time.Second, d.fate == 'a' && el > 15*time.Second:
					bad("a caller waited %v for its answer", el)
				case (d.fate == 's' || d.fate == 'l') && (el < 19900*time.Millisecond || el > 35*time.Second):
					bad("a caller with a time limit of 20 s was released after %v", el)
				}
			}
			mu.Lock()
			n, fails := d.seen, len(trouble)
			mu.Unlock()
			if n != 1+d.cancels && fails == 0 {
				bad("command %x, cancelled %d times, was transmitted %d times", d.body, d.cancels, n)
			}
		}
		type want struct {
			on, level, temp bool
			onV             bool
			levelV, tempV   float64
		}
		wants := map[int]*want{}
		for _, id := range sensors {
			wants[id] = &want{}
		}
		check := func(id int) {
			n := ctl.Nodes.Get(id)
			if n == nil {
				bad("node %d is gone", id)
				return
			}
			x := wants[id]
			n.RLock()
			defer n.RUnlock()
			if x.on && n.StateBool["on"] != x.onV {
				bad("node %d: on is %v, last reported %v", id, n.StateBool["on"], x.onV)
			}
			if x.level && n.StateFloat["level"] != x.levelV {
				bad("node %d: level is %v, last reported %v", id, n.StateFloat["level"], x.levelV)
			}
			if v, ok := n.StateFloat["temperature_c"]; x.temp && (!ok || v != x.tempV) {
				bad("node %d: sensor is %v, last reported %v", id, n.StateFloat, x.tempV)
			}
		}
		report := func(id int) []byte {
			x := wants[id]
			switch r.Intn(4) {
			case 0:
				v := byte(r.Intn(2))
				x.on, x.onV = true, v == 1
				return mkReport(id, 0x25, 3, v*255)
			case 1:
				v := byte(r.Intn(100))
				x.on, x.onV, x.level, x.levelV = true, v > 0, true, float64(v)
				return mkReport(id, 0x26, 3, v)
			default:
				s := number()
				x.temp, x.tempV = true, float64(int32(binary.BigEndian.Uint32(s)))
				return mkReport(id, 0x31, 5, 1, 4, s[0], s[1], s[2], s[3])
			}
		}
		count := func(id int) int { mu.Lock(); defer mu.Unlock(); return updates[id] }
		kinds := map[string]func(n int){
			"commands": func(n int) {
				// somebody waits all the time, his answer comes at last
				id, s := sensors[0], number()
				d := &duty{fate: 's', done: make(chan struct{}), body: append([]byte{0x13, byte(id), 6, 0x72, 4}, s...)}
				mu.Lock()
				duties[id] = d
				mu.Unlock()
				patient, err := ctl.Connection.WriteAndWaitForReport(serialapi.NewRaw(d.body), 3*365*24*time.Hour, 5)
				if err != nil {
					bad("sending failed: %v", err)
					return
				}
				defer func() {
					if failed() {
						return
					}
					feed(o.current(), 1, mkReport(id, 0x72, 5, 0, 1, s[0], s[1], s[2], s[3]))
					select {
					case rep := <-patient:
						if m, ok := rep.(*reports.ManufacturerSpecific); !ok || m.ID != fmt.Sprintf("%x", s[2:]) {
							bad("a request that waited while %d commands were sent got %v", n, rep)
						}
					case <-time.After(time.Second):
						bad("a request that waited while %d commands were sent did not get its answer", n)
					}
					time.Sleep(time.Millisecond)
				}()
				var wg sync.WaitGroup
				for _, id := range callers {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := 0; i < n/len(callers) && !failed(); i++ {
							one(id, n > 10000 && i%100 > 0)
						}
					}()
				}
				wg.Wait()
			},
			"reports": func(n int) {
				for i := 0; i < n && !failed(); {
					id := sensors[r.Intn(len(sensors))]
					if r.Intn(10) == 0 { // alone
						u := count(id)
						feed(o.current(), 1, report(id))
						time.Sleep(time.Millisecond)
						check(id)
						if reading && count(id) == u {
							bad("node %d: a report was applied without an update event", id)
						}
						i++
						continue
					}
					var out []byte
					k := 1 + r.Intn(40)
					for j := 0; j < k; j++ {
						out = append(out, report(id)...)
					}
					feed(o.current(), k, out)
					time.Sleep(time.Millisecond)
					check(id)
					i += k
				}
			},
			"alarms": func(n int) {
				n = (n + 7) / 8
				for i := 0; i < n && !failed(); i++ {
					id := sensors[r.Intn(len(sensors))]
					typ := byte(1 + r.Intn(200))
					state := func() (bool, float64, float64) {
						x := ctl.Nodes.Get(id)
						x.RLock()
						defer x.RUnlock()
						return x.StateBool["alarm"], x.StateFloat["alarm"], x.StateFloat["alarmLastType"]
					}
					u := count(id)
					feed(o.current(), 1, mkReport(id, 0x71, 5, typ, 1, 0, 0xff, 1, 2))
					time.Sleep(100 * time.Millisecond)
					if a, v, l := state(); !a || v != float64(typ) || l != float64(typ) || reading && count(id) != u+1 {
						bad("alarm of type %d: alarm is %v, value %v, last type %v, %d events", typ, a, v, l, count(id)-u)
					}
					time.Sleep(1100 * time.Millisecond)
					if a, v, l := state(); a || v != 0 || l != float64(typ) || reading && count(id) != u+2 {
						bad("1.2 s after an alarm of type %d: alarm is %v, value %v, last type %v, %d events", typ, a, v, l, count(id)-u)
					}
				}
			},
			"failures": func(n int) {
				for i := 0; i < n && !failed(); i++ {
					o.mu.Lock()
					k := 0
					if r.Intn(10) == 0 {
						k = r.Intn(4)
					}
					o.fails = k
					before := o.opened
					o.mu.Unlock()
					if r.Intn(4) == 0 { // the first half of a frame
						f := mkReport(sensors[0], 0x25, 3, 255)
						o.current().feed(f[:3+r.Intn(4)])
						time.Sleep(time.Millisecond)
					}
					o.current().fail()
					time.Sleep(time.Duration(k+1)*time.Second + 300*time.Millisecond)
					o.mu.Lock()
					opened, open := o.opened, o.open
					o.mu.Unlock()
					if opened != before+1 || open != 1 {
						bad("%v after the port failed (opening failed %d times) it was opened %d times, %d ports are open", time.Duration(k+1)*time.Second+300*time.Millisecond, k, opened-before, open)
						return
					}
					ctl.Connection.RLock()
					con := ctl.Connection.Connected
					ctl.Connection.RUnlock()
					if !con {
						bad("300 ms after the port was opened again the connection says it is not connected")
					}
					id := sensors[r.Intn(len(sensors))]
					feed(o.current(), 1, report(id))
					time.Sleep(time.Millisecond)
					check(id)
					if r.Intn(20) == 0 {
						one(callers[0], true)
						time.Sleep(time.Millisecond) // until the answer is acknowledged
					}
				}
			},
			"saves": func(n int) {
				n = (n + 59) / 60
				for i := 0; i < n && !failed(); i++ {
					id := sensors[r.Intn(len(sensors))]
					s := number()
					feed(o.current(), 1, mkReport(id, 0x31, 5, 1, 4, s[0], s[1], s[2], s[3]))
					wants[id].temp, wants[id].tempV = true, float64(int32(binary.BigEndian.Uint32(s)))
					time.Sleep(11 * time.Second)
					var got struct {
						Nodes map[string]struct {
							StateFloat map[string]float64
						}
					}
					b, err := os.ReadFile(file)
					if err == nil {
						err = json.Unmarshal(b, &got)
					}
					if v := got.Nodes[fmt.Sprint(id)].StateFloat["temperature_c"]; err != nil || v != wants[id].tempV {
						bad("11 s after the last update the file holds %v of node %d instead of %v (%v)", v, id, wants[id].tempV, err)
					}
					if len(got.Nodes) != len(ids) {
						bad("the file holds %d nodes", len(got.Nodes))
					}
				}
			},
			"idle": func(n int) {
				if r.Intn(2) == 0 {
					time.Sleep(roundTimes[r.Intn(len(roundTimes))])
				} else {
					time.Sleep(r.Dur(time.Minute, 400*24*time.Hour))
				}
			},
		}
		names := []string{"commands", "reports", "alarms", "failures", "saves", "idle"}
		big := names[c.Index%5]
		bigN := 66000 + c.R.Intn(4000)
		if big == "commands" && c.Index%2 == 0 { // every fate, fewer of them
			bigN = 9000
		}
		c.R.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		names = append(names, names...)
		done := false
		for _, k := range names {
			n := 100 + c.R.Intn(200)
			if k == big && !done {
				n, done = bigN, true
			}
			if !w.Within(5*365*24*time.Hour, func() { kinds[k](n) }) {
				c.Violate("%d operations of the kind %s do not end", n, k)
				return
			}
			time.Sleep(3 * time.Second)
			for _, id := range sensors {
				check(id)
			}
			mu.Lock()
			f, a, list := frames, acks, trouble
			mu.Unlock()
			for _, s := range list {
				c.Violate("during %s, after %d commands and %d received frames: %s", k, sent, f, s)
			}
			if f != a {
				c.Violate("during %s: %d intact frames were received and %d acknowledged", k, f, a)
			}
			if c.violated() {
				return
			}
		}
		for _, id := range ids {
			if ctl.Nodes.Get(id) == nil {
				c.Violate("node %d is gone", id)
			}
		}
		o.mu.Lock()
		opened := o.opened
		o.mu.Unlock()
		c.Count("commands", sent)
		c.Count("frames_received", frames)
		c.Count("ports_opened", opened)
		c.Count("big_"+big, bigN)
		c.Mark(big, bigN, sent, frames)
		c.Sample(fmt.Sprintf("%d times %s: %d commands, %d frames, %d ports, %v of service", bigN, big, sent, frames, opened, w.Now()))
		c.Nontrivial()
	})
}
