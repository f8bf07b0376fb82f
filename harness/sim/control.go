package sim

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/nodes"
)

func init() {
	register("C05", "2 to 6 restored nodes with random command classes and 0 to 6 endpoints, sometimes up to 255; 20 to 60 on, off and level calls (levels of every kind: fractions, negative, above 99, infinite) on nodes and endpoints, one at a time or concurrently; recorded states of every kind and reports between the calls; devices controlled while they are found and identified, and afterwards; endpoints asked for by every kind of number; command encoders and wrapped messages of every length used several times, also from several goroutines. Each transmitted payload is compared with the expected one. Non-trivial when commands for both nodes and endpoints were seen and some calls had to transmit nothing", runC05)
}

func runC05(c *Case) {
	c.Bubble(func() {
		w := NewWorld(c)
		r := newRand(c)
		b := newBot(w, r)
		w.Op.Handle = b.Handle
		var list []confNode
		used := map[int]bool{}
		for i := 2 + c.R.Intn(5); i > 0; i-- {
			id := 2 + c.R.Intn(231)
			if used[id] {
				continue
			}
			used[id] = true
			n := confNode{ID: id, Awake: c.R.Intn(2) == 0, Endpoints: []confEndpoint{}}
			for _, cl := range c.R.Perm(256) {
				if c.R.Intn(40) == 0 && cl != 0x25 && cl != 0x26 {
					n.Classes = append(n.Classes, confClass{ID: cl})
				}
			}
			for _, cl := range []int{0x25, 0x26} {
				if c.R.Intn(2) == 0 {
					at := c.R.Intn(len(n.Classes) + 1)
					n.Classes = append(n.Classes[:at:at], append([]confClass{{ID: cl}}, n.Classes[at:]...)...)
				}
			}
			if c.R.Intn(3) > 0 { // what the device is known to be must not matter
				n.Bool = map[string]bool{"on": c.R.Intn(2) == 0}
				n.Float = map[string]float64{"level": []float64{0, 0, 1, 50, 99, 99, 100}[c.R.Intn(7)]}
			}
			many := c.R.Intn(7)
			if c.R.Intn(10) == 0 {
				many = []int{16, 127, 128, 129, 200, 254, 255}[c.R.Intn(7)]
			}
			for e := many; e > 0; e-- {
				n.Endpoints = append(n.Endpoints, confEndpoint{ID: len(n.Endpoints) + 1, Classes: n.Classes})
			}
			list = append(list, n)
		}
		if err := w.Connect(c.confFile(list)); err != nil {
			c.Violate("connect failed: %v", err)
			return
		}
		w.DrainEvents(nil)
		time.Sleep(time.Second)
		base := len(w.Op.Commands())

		var nobody *nodes.Node
		var wrong []string
		if p := try(func() {
			for _, id := range []int{-1, 0, 1, 5} {
				if e := nobody.Endpoint(id); e != nil {
					wrong = append(wrong, fmt.Sprintf("endpoint %d of no node", id))
				}
			}
			for _, n := range list {
				ids := []int{math.MinInt64, -1000, -1, 0, len(n.Endpoints) + 1, len(n.Endpoints) + 2, 256, 511, math.MaxInt64}
				for _, id := range ids {
					if e := w.Node(n.ID).Endpoint(id); e != nil {
						wrong = append(wrong, fmt.Sprintf("endpoint %d of node %d, which has %d", id, n.ID, len(n.Endpoints)))
					}
				}
				for id := 1; id <= len(n.Endpoints); id++ {
					if e := w.Node(n.ID).Endpoint(id); e == nil || e.Id != id {
						wrong = append(wrong, fmt.Sprintf("endpoint %d of node %d gives %v", id, n.ID, e))
					}
				}
			}
		}); p != "" {
			c.Violate("asking for an endpoint crashed: %s", p)
			return
		}
		for _, x := range wrong {
			c.Violate("%s", x)
		}
		if c.violated() {
			return
		}

		has := func(n confNode, cl int) bool {
			for _, x := range n.Classes {
				if x.ID == cl {
					return true
				}
			}
			return false
		}
		level := func() float64 {
			switch c.R.Intn(10) {
			case 0:
				return -c.R.Float64() * 1000
			case 1:
				return 99 + c.R.Float64()*2
			case 2:
				return c.R.Float64() * 1e9
			case 3:
				return []float64{math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64}[c.R.Intn(5)]
			case 4:
				return []float64{0, 1, 0.999999, 1.000001, 98.999999, 99, 99.5, 100, 255, 256, 257, 300, 0.5}[c.R.Intn(13)]
			case 5:
				return float64(c.R.Intn(101))
			case 6:
				return math.Nextafter(float64(c.R.Intn(100)), -1)
			}
			return c.R.Float64() * 100
		}
		type call struct {
			name string
			f    func()
			want []byte
		}
		var calls []call
		reported := 0
		fresh := map[int]float64{}
		onNode, onEndp, nothing := 0, 0, 0
		for i := 20 + c.R.Intn(41); i > 0; i-- {
			n := list[c.R.Intn(len(list))]
			node := w.Node(n.ID)
			var dev interface {
				On()
				Off()
				Level(float64)
			} = node
			ep := 0
			if len(n.Endpoints) > 0 && c.R.Intn(2) == 0 {
				ep = 1 + c.R.Intn(len(n.Endpoints))
				if c.R.Intn(4) == 0 {
					ep = len(n.Endpoints)
				}
				dev = node.Endpoint(ep)
			}
			var inner []byte
			var k call
			switch c.R.Intn(3) {
			case 0:
				k.name, k.f = "on", dev.On
				if has(n, 0x25) {
					inner = []byte{0x25, 0x01, 0xff}
				} else if has(n, 0x26) {
					inner = []byte{0x26, 0x01, 99}
				}
			case 1:
				k.name, k.f = "off", dev.Off
				if has(n, 0x25) {
					inner = []byte{0x25, 0x01, 0x00}
				} else if has(n, 0x26) {
					inner = []byte{0x26, 0x01, 0}
				}
			case 2:
				v := level()
				if l, ok := n.Float["level"]; ok && c.R.Intn(4) == 0 { // what it is already
					v = l
				} else if l, ok := fresh[n.ID]; ok && c.R.Intn(3) == 0 {
					v = l
				}
				fresh[n.ID] = v
				k.name, k.f = fmt.Sprintf("level %v", v), func() { dev.Level(v) }
				if has(n, 0x26) {
					l := byte(0)
					if v >= 99 {
						l = 99
					} else if v >= 1 {
						l = byte(math.Trunc(v))
					}
					inner = []byte{0x26, 0x01, l}
				}
			}
			k.name += fmt.Sprintf(" of node %d endpoint %d", n.ID, ep)
			if inner != nil {
				if ep > 0 {
					onEndp++
					k.want = append([]byte{0x13, byte(n.ID), 7, 0x60, 0x0d, 0x01, byte(ep)}, append(inner, 0x25)...)
				} else {
					onNode++
					k.want = append([]byte{0x13, byte(n.ID), 3}, append(inner, 0x25)...)
				}
			} else {
				nothing++
			}
			calls = append(calls, k)
			if c.R.Intn(5) == 0 {
				calls = append(calls, k)
			}
		}
		var want []string
		if c.Index%2 == 0 { // one at a time
			for _, k := range calls {
				if c.R.Intn(3) == 0 { // the device tells what it is, often just what is asked for
					id := list[c.R.Intn(len(list))].ID
					v := byte(c.R.Intn(100))
					if k.want != nil && c.R.Intn(3) > 0 {
						id, v = int(k.want[1]), k.want[len(k.want)-2]
					}
					cl := []byte{0x25, 0x26}[c.R.Intn(2)]
					if cl == 0x25 && v > 0 {
						v = 0xff
					}
					w.Op.Port().Feed(mkReport(id, cl, 3, v))
					time.Sleep(5 * time.Millisecond)
					reported++
				}
				at := len(w.Op.Commands())
				if !w.Within(time.Minute, k.f) {
					c.Violate("%s does not return", k.name)
					return
				}
				time.Sleep(120 * time.Millisecond)
				got := w.Op.Commands()[at:]
				if k.want == nil {
					if len(got) > 0 {
						c.Violate("%s: transmitted %x, the node does not support it", k.name, got[0].Payload())
					}
				} else if len(got) != 1 || string(got[0].Payload()) != string(k.want) {
					var g []string
					for _, f := range got {
						g = append(g, hx(f.Payload()))
					}
					c.Violate("%s: transmitted [%s], should be %x", k.name, strings.Join(g, " "), k.want)
				}
			}
		} else {
			var wg sync.WaitGroup
			for _, k := range calls {
				k := k
				if k.want != nil {
					want = append(want, hx(k.want))
				}
				wg.Add(1)
				go func() { defer wg.Done(); jitter(r.Intn(128)); k.f() }()
			}
			if !w.Within(10*time.Minute, wg.Wait) {
				c.Violate("calls do not return")
				return
			}
			time.Sleep(time.Second)
			var got []string
			for _, f := range w.Op.Commands()[base:] {
				got = append(got, hx(f.Payload()))
			}
			sort.Strings(got)
			sort.Strings(want)
			if strings.Join(got, " ") != strings.Join(want, " ") {
				c.Violate("transmitted %v, should be %v", got, want)
			}
		}
		c.Count("encoders_used_again", encodeAgain(c))
		c.Count("calls_while_identified", controlEarly(c))
		c.Count("reports_between_calls", reported)
		c.Count("node_commands", onNode)
		c.Count("endpoint_commands", onEndp)
		c.Count("calls_without_command", nothing)
		c.Mark(onNode, onEndp, nothing, len(list), c.R.Int63())
		c.Sample(fmt.Sprintf("%d nodes, %d node commands, %d endpoint commands, %d calls that must not transmit", len(list), onNode, onEndp, nothing))
		if onNode > 0 && onEndp > 0 && nothing > 0 {
			c.Nontrivial()
		}
	})
}

// controlEarly controls devices while they are found and identified, and afterwards: what they support counts at the moment of the call.
func controlEarly(c *Case) int {
	w := NewWorld(c)
	r := newRand(c)
	b := newBot(w, r)
	ids := distinctIDs(c.R, 1+c.R.Intn(4))
	for _, id := range ids {
		b.Nodes[id] = randDevice(c.R, id)
		b.Nodes[id].Listening = c.R.Intn(4) > 0
	}
	b.List = ids
	b.ManuMax, b.EndpMax, b.ProtoMax = 3*time.Second, 1500*time.Millisecond, 2*time.Second
	w.Op.Handle = b.Handle
	file := ""
	if c.R.Intn(2) == 0 { // some are known, perhaps with classes that they do not have any more
		var list []confNode
		for _, id := range ids {
			if c.R.Intn(3) > 0 {
				n := confNode{ID: id, Awake: c.R.Intn(2) == 0}
				for _, cl := range []int{0x25, 0x26, 0x31} {
					if c.R.Intn(2) == 0 {
						n.Classes = append(n.Classes, confClass{ID: cl})
					}
				}
				list = append(list, n)
			}
		}
		file = c.confFile(list)
	}
	if err := w.Connect(file); err != nil {
		c.Violate("connect failed: %v", err)
		return 0
	}
	w.DrainEvents(nil)
	stop := make(chan struct{})
	b.wakeLoop(stop, 200*time.Millisecond, 3*time.Second)
	defer close(stop)
	judged := 0
	sets := func(from int) (l []string) {
		for _, q := range b.Log()[from:] {
			if q.What == "set" {
				l = append(l, hx(q.B))
			}
		}
		return
	}
	look := func(n *nodes.Node) (l []byte, eps []*nodes.Endpoint) {
		n.RLock()
		defer n.RUnlock()
		for _, x := range n.CommandClasses {
			l = append(l, byte(x.ID))
		}
		return l, append(eps, n.Endpoints...)
	}
	step := func() bool {
		id := ids[c.R.Intn(len(ids))]
		n := w.Node(id)
		if n == nil {
			return true
		}
		before, eps := look(n)
		var dev interface {
			On()
			Off()
			Level(float64)
		} = n
		ep := 0
		if len(eps) > 0 && c.R.Intn(2) == 0 {
			ep = 1 + c.R.Intn(len(eps))
			e := n.Endpoint(ep)
			if e == nil {
				c.Violate("node %d has %d endpoints, number %d is not there", id, len(eps), ep)
				return false
			}
			dev = e
			before = nil
			for _, x := range e.CommandClasses {
				before = append(before, byte(x.ID))
			}
		}
		for _, cl := range []byte{0x25, 0x26, byte(c.R.Intn(256))} { // asking must not change the answer
			n.HasCommand(commands.ZWaveCommand(cl))
		}
		has := func(cl byte) bool { return strings.IndexByte(string(before), cl) >= 0 }
		var inner []byte
		from := len(b.Log())
		op := c.R.Intn(3)
		v := byte(c.R.Intn(100))
		ok := w.Within(time.Minute, func() {
			switch op {
			case 0:
				dev.On()
			case 1:
				dev.Off()
			case 2:
				dev.Level(float64(v))
			}
		})
		if !ok {
			c.Violate("a control call does not return")
			return false
		}
		switch {
		case op < 2 && has(0x25):
			inner = []byte{0x25, 1, byte(255 * (1 - op))}
		case op < 2 && has(0x26):
			inner = []byte{0x26, 1, byte(99 * (1 - op))}
		case op == 2 && has(0x26):
			inner = []byte{0x26, 1, v}
		}
		want := ""
		if inner != nil && ep == 0 {
			want = hx(append([]byte{0x13, byte(id), 3}, append(inner, 0x25)...))
		} else if inner != nil {
			want = hx(append([]byte{0x13, byte(id), 7, 0x60, 0x0d, 1, byte(ep)}, append(inner, 0x25)...))
		}
		time.Sleep(1500 * time.Millisecond) // other commands may be under way
		if after, _ := look(n); ep == 0 && string(after) != string(before) {
			return true
		}
		if got := join(sets(from)); got != want {
			c.Violate("node %d endpoint %d with command classes %x, call %d (on, off, level %d): transmitted [%s], should be [%s]", id, ep, before, op, v, got, want)
			return false
		}
		judged++
		return true
	}
	for i := 0; i < 8; i++ {
		if file == "" || i > 0 {
			time.Sleep(durIn(c.R, 0, 2*time.Second))
		}
		if !step() {
			return judged
		}
	}
	w.WaitUntil(time.Hour, func() bool {
		time.Sleep(500 * time.Millisecond)
		for _, id := range ids {
			if n := w.Node(id); n == nil || factsOf(n).manu == nil || factsOf(n).nilEndpoints {
				return false
			}
		}
		return true
	})
	for i := 0; i < 12; i++ {
		if !step() {
			return judged
		}
	}
	return judged
}

// encodeAgain encodes the same commands many times, one after another and at the same time, and around the same message.
func encodeAgain(c *Case) int {
	n := 0
	for i := 0; i < 6; i++ {
		node, ep := 1+c.R.Intn(232), 1+c.R.Intn(255)
		on, level := c.R.Intn(2) == 0, c.R.Intn(100)
		data := randBytes(c.R, 1+c.R.Intn(40))
		spare := make([]byte, len(data), len(data)+16) // somebody else's bytes follow
		copy(spare, data)
		sb := commands.NewSwitchBinary().SetNode(node).SetValue(on)
		sm := commands.NewSwitchMultilevel().SetNode(node).SetValue(float64(level) + c.R.Float64())
		raw := commands.NewRaw(spare)
		raw.SetNode(node)
		v := byte(0)
		if on {
			v = 0xff
		}
		type enc interface{ Encode() []byte }
		plain := []struct {
			e    enc
			want []byte
		}{
			{sb, []byte{0x13, byte(node), 3, 0x25, 1, v, 0x25}},
			{sm, []byte{0x13, byte(node), 3, 0x26, 1, byte(level), 0x25}},
			{raw, append([]byte{0x13, byte(node), byte(len(data) + 1)}, data...)},
		}
		for _, p := range plain {
			inner := p.e.Encode()
			m := make([]byte, len(inner), len(inner)+c.R.Intn(12))
			copy(m, inner)
			w := append([]byte{0x13, byte(node), inner[2] + 4, 0x60, 0x0d, 0x01, byte(ep)}, inner[3:]...)
			wrapped := commands.NewMultiChannelEncap(m, ep)
			other := commands.NewMultiChannelEncap(m, ep%255+1)
			var wg sync.WaitGroup
			var mu sync.Mutex
			check := func(what string, got, want []byte) {
				if string(got) != string(want) {
					mu.Lock()
					c.Violate("%s was encoded as %x, should be %x", what, got, want)
					mu.Unlock()
				}
			}
			for g := 0; g < 3; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < 3; k++ {
						got := p.e.Encode()
						check("a command", got, p.want)
						for j := range got { // what was encoded belongs to the caller
							got[j] = 0xee
						}
						got = wrapped.Encode()
						check("a command for an endpoint", got, w)
						for j := range got {
							got[j] = 0xee
						}
						other.Encode()
					}
				}()
			}
			wg.Wait()
			check("a message that was wrapped for an endpoint, and afterwards", m, inner)
			n += 2
		}
		if string(spare) != string(data) {
			c.Violate("the data of a command was changed by encoding it")
		}
	}
	return n
}
