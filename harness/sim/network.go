package sim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/database"
	"github.com/stampzilla/gozwave/events"
	"github.com/stampzilla/gozwave/nodes"
)

func init() {
	register("N01", "0 to 10 restored nodes and a node list reply with 0 to 10 new nodes (some cases up to 232), overlapping or not, answered at once or late, cut into reads, with reports of the nodes before and after, repeated unsolicited node lists; the list, each event and what can be done at the moment of the event are checked. Non-trivial when new nodes were announced and the list was compared", runN01)
	register("N02", "1 to 12 devices with random products of the device database (or unknown ones), device classes and endpoints, listening or sleeping with wake-ups; answers in any order, delayed up to 9 s, lost and repeated; facts are compared after identification, after a restart and after the identification that follows. Non-trivial when all nodes were identified with at least one known product or endpoint", runN02)
	register("N03", "1 to 5 devices, at least one of them sleeping, with wake-ups at any time (rare, frequent, in bursts), lost answers; transmissions to each node are compared with the wake-ups received before. Non-trivial when a sleeping node was asked at least two things and woke up more often than needed or at the wrong time", runN03)
	register("N04", "20 to 200 reports of 3 to 6 known nodes and some unknown ones: switches, levels, sensors, unknown-state values, undecodable ones, in bursts of up to 30 within one read, read events or not; the state is compared after every pause. Non-trivial when the same value was reported several times within a burst", runN04)
	register("N05", "1 to 12 alarms of 1 to 4 nodes (also overlapping ones), with other reports in between; state and update events are compared with the expected time line. Non-trivial when an alarm was seen raised and fallen back", runN05)
	register("E01", "20 to 150 reports of several nodes, some with alarms and identifications, with a fast, a slow or no reader of events; each event is compared with the state at that moment and the order of the reports. Non-trivial when at least ten events were judged or the case had no reader and all reports were applied", runE01)
}

// products lists the product ids of the device database sources.
var productsOnce sync.Once
var productList [][3]string

func products() [][3]string {
	productsOnce.Do(func() {
		files, _ := filepath.Glob("/repo/database/json/*.json")
		for _, f := range files {
			var d struct {
				M string   `json:"manufacturer_id"`
				R []string `json:"device_ref"`
			}
			b, err := os.ReadFile(f)
			if err != nil || json.Unmarshal(b, &d) != nil {
				continue
			}
			for _, r := range d.R {
				s := strings.Split(strings.ToLower(r), ":")
				if len(s) == 2 && len(s[0]) == 4 && len(s[1]) == 4 && len(d.M) == 4 {
					productList = append(productList, [3]string{strings.ToLower(d.M), s[0], s[1]})
				}
			}
		}
	})
	return productList
}

func hex6(p [3]string) (r [6]byte) {
	var x [3]uint16
	for i := range p {
		fmt.Sscanf(p[i], "%04x", &x[i])
		r[2*i], r[2*i+1] = byte(x[i]>>8), byte(x[i])
	}
	return
}

// device classes that have mandatory command classes
var mandatoryPairs [][2]byte
var mandatoryOnce sync.Once

func devClasses() [][2]byte {
	mandatoryOnce.Do(func() {
		for g := 0; g < 256; g++ {
			for s := 0; s < 256; s++ {
				if len(database.GetMandatoryCommandClasses(byte(g), byte(s))) > 0 {
					mandatoryPairs = append(mandatoryPairs, [2]byte{byte(g), byte(s)})
				}
			}
		}
	})
	return mandatoryPairs
}

func randDevice(r *rand.Rand, id int) *SimNode {
	n := &SimNode{ID: id, Listening: r.Intn(3) > 0, Basic: byte(r.Intn(5)), Generic: byte(r.Intn(256)), Specific: byte(r.Intn(256)), Endpoints: r.Intn(6), Flags: byte(r.Intn(4) << 6)}
	if dc := devClasses(); len(dc) > 0 && r.Intn(4) > 0 {
		p := dc[r.Intn(len(dc))]
		n.Generic, n.Specific = p[0], p[1]
	}
	if r.Intn(2) == 0 {
		r.Read(n.Caps[:])
	}
	if r.Intn(30) == 0 {
		n.Endpoints = r.Intn(128)
	}
	if ps := products(); len(ps) > 0 && r.Intn(4) > 0 {
		n.Manu = hex6(ps[r.Intn(len(ps))])
	} else {
		r.Read(n.Manu[:])
	}
	return n
}

func distinctIDs(r *rand.Rand, n int) []int {
	p := r.Perm(231)[:n]
	for i := range p {
		p[i] += 2
	}
	return p
}

func runN01(c *Case) {
	c.Bubble(func() {
		w := NewWorld(c)
		r := newRand(c)
		var restored, found []int
		all := distinctIDs(c.R, 20)
		nr, nf, overlap := c.R.Intn(6), c.R.Intn(6), c.R.Intn(4)
		big := c.R.Intn(6) == 0
		restored = append(restored, all[:nr]...)
		found = append(found, all[nr:nr+nf]...)
		for i := 0; i < overlap && i < nr; i++ {
			found = append(found, all[i])
		}
		if big {
			found = distinctIDs(c.R, 11+c.R.Intn(221))
		}
		ctl := c.R.Intn(3) > 0
		list := append([]int(nil), found...)
		if ctl {
			list = append(list, 1)
		}
		delay := []time.Duration{50 * time.Millisecond, time.Second, 4 * time.Second}[c.R.Intn(3)]
		repeat := c.R.Intn(2) == 0
		touch := c.R.Intn(2) == 0
		b := newBot(w, r)
		b.NoList = true
		w.Op.Handle = func(p *Port, frame []byte) {
			b.Handle(p, frame)
			if isGetNodes(TxFrame{B: frame}) {
				time.Sleep(delay)
				p.FeedCut(r, mkNodeList(list...))
				if repeat {
					time.Sleep(r.Dur(0, time.Second))
					p.Feed(mkNodeList(append([]int{}, all[15:]...)...)) // nobody asked for that
				}
			}
		}
		file := ""
		if nr > 0 || c.R.Intn(2) == 0 {
			known := plainNodes(restored...)
			if c.R.Intn(2) == 0 { // of any kind
				known = randConf(c.R, restored)
			}
			for i := range known { // also incomplete ones
				if c.R.Intn(4) == 0 {
					known[i].Classes = [][]confClass{nil, {}}[c.R.Intn(2)]
				}
				if c.R.Intn(4) == 0 {
					known[i].Awake = false
				}
			}
			file = c.confFile(known)
		}
		if err := w.Connect(file); err != nil {
			c.Violate("connect failed: %v", err)
			return
		}
		before := map[int]*nodes.Node{}
		for _, id := range restored {
			before[id] = w.Node(id)
			if before[id] == nil {
				c.Violate("restored node %d is missing", id)
				return
			}
		}
		var mu sync.Mutex
		announced := map[int]int{}
		w.DrainEvents(func(e Event) {
			d, ok := e.Ev.(events.NodeDiscoverd)
			if !ok {
				return
			}
			n := w.Ctl.Nodes.Get(d.Address)
			if n == nil {
				c.Violate("node %d was announced, but it can not be looked up", d.Address)
				return
			}
			mu.Lock()
			announced[d.Address]++
			mu.Unlock()
			if n.GetID() != d.Address {
				c.Violate("node %d was announced, its id is %d", d.Address, n.GetID())
			}
			if touch {
				go func() {
					n.On()
					n.Level(10)
					n.Endpoint(1)
					n.RequestManufacturerSpecific()
					n.RequestProtocolInfo()
				}()
			}
		})
		if c.R.Intn(2) == 0 { // reports of nodes, before they are known
			for i := 0; i < 5; i++ {
				w.Op.Port().Feed(mkReport(all[c.R.Intn(20)], 0x25, 3, 0xff))
			}
		}
		time.Sleep(delay + 3*time.Second)
		want := map[int]bool{}
		for _, id := range append(append([]int(nil), restored...), found...) {
			want[id] = true
		}
		var got map[int]*nodes.Node
		if !w.Within(time.Minute, func() { got = w.Ctl.Nodes.All() }) {
			c.Violate("listing the nodes blocks")
			return
		}
		for id := range want {
			if got[id] == nil {
				c.Violate("node %d is missing in the list", id)
			} else if got[id].GetID() != id || w.Node(id) != got[id] {
				c.Violate("node %d is listed as another one", id)
			}
		}
		for id := range got {
			if !want[id] {
				c.Violate("node %d is in the list, it is neither restored nor active", id)
			}
		}
		for id, n := range before {
			if w.Node(id) != n {
				c.Violate("the restored node %d was replaced", id)
			}
		}
		mu.Lock()
		defer mu.Unlock()
		for id, n := range announced {
			if !want[id] {
				c.Violate("node %d was announced", id)
			}
			if n > 1 {
				c.Violate("node %d was announced %d times", id, n)
			}
		}
		for _, id := range restored {
			if announced[id] != 1 {
				c.Violate("the restored node %d was announced %d times", id, announced[id])
			}
		}
		if !big {
			for _, id := range found {
				if before[id] == nil && announced[id] != 1 {
					c.Violate("the new node %d was announced %d times", id, announced[id])
				}
			}
		}
		// every node in the list is usable: it gets its reports
		for i, id := range found {
			if i < 8 {
				w.Op.Port().Feed(mkReport(id, 0x31, 5, 0xc8, 1, byte(i+1)))
			}
		}
		time.Sleep(100 * time.Millisecond)
		for i, id := range found {
			if n := w.Node(id); n != nil && i < 8 {
				if v := stateOf(n).Float["unknown (200)_"]; v != float64(i+1) {
					c.Violate("node %d was found, a report from it is not applied (%v)", id, v)
				}
			}
		}
		c.Count("restored", len(restored))
		c.Count("found", len(found))
		c.Count("announced", len(announced))
		sort.Ints(found)
		c.Mark(restored, found, delay)
		c.Sample(fmt.Sprintf("restored %v, active %v, announced %v", restored, found, announced))
		if len(found) > 0 && len(announced) > 0 {
			c.Nontrivial()
		}
	})
}

type facts struct {
	manu             *[3]string
	brand, prod, dsc string
	classes          []string
	endpoints        []int
	epClasses        []string // the first that differs from those of the node
	epWrong          int
	nilEndpoints     bool
}

func factsOf(n *nodes.Node) (f facts) {
	n.RLock()
	defer n.RUnlock()
	if m := n.ManufacurerSpecific; m != nil {
		f.manu = &[3]string{m.Manufacturer, m.Type, m.ID}
	}
	f.brand, f.prod, f.dsc = n.Brand, n.Product, n.Description
	f.classes = classList(n.CommandClasses)
	f.nilEndpoints = n.Endpoints == nil
	for _, e := range n.Endpoints {
		if e == nil {
			f.endpoints = append(f.endpoints, -1)
			continue
		}
		f.endpoints = append(f.endpoints, e.Id)
		if l := classList(e.CommandClasses); f.epWrong == 0 && strings.Join(l, " ") != strings.Join(f.classes, " ") {
			f.epWrong, f.epClasses = e.Id, l
		}
	}
	return
}

// classList is the sorted content of a list of command classes
func classList(l []*database.CommandClass) []string {
	var r []string
	for _, x := range l {
		if x == nil {
			r = append(r, "nil")
			continue
		}
		r = append(r, fmt.Sprintf("%02x:%v:%v:%v:%s", byte(x.ID), x.InNIF, x.Secure, x.NonSecure, x.Version))
	}
	sort.Strings(r)
	return r
}

// wrongFacts compares with what the device is, "" means equal.
func (d *SimNode) wrongFacts(f facts) string {
	m, t, p := d.manuIDs()
	if f.manu == nil || *f.manu != [3]string{m, t, p} {
		return fmt.Sprintf("manufacturer ids %v, should be %s %s %s", f.manu, m, t, p)
	}
	want := classList(database.GetMandatoryCommandClasses(d.Generic, d.Specific))
	var brand, prod, dsc string
	if dev := database.New(m, t, p); dev != nil {
		brand, prod, dsc = dev.Brand, dev.Product, dev.Description
		want = append(want, classList(dev.CommandClasses)...)
		sort.Strings(want)
	}
	if f.brand != brand || f.prod != prod || f.dsc != dsc {
		return fmt.Sprintf("brand %q product %q description %q, should be %q %q %q", f.brand, f.prod, f.dsc, brand, prod, dsc)
	}
	if strings.Join(want, " ") != strings.Join(f.classes, " ") {
		return fmt.Sprintf("command classes %v, should be %v", f.classes, want)
	}
	if len(f.endpoints) == 0 && !hasClasses(d) {
		return ""
	}
	if len(f.endpoints) != d.Endpoints {
		return fmt.Sprintf("endpoints %v, should be %d", f.endpoints, d.Endpoints)
	}
	for i, id := range f.endpoints {
		if id != i+1 {
			return fmt.Sprintf("endpoints are numbered %v", f.endpoints)
		}
	}
	if f.epWrong != 0 {
		return fmt.Sprintf("endpoint %d has the command classes %v, the node %v", f.epWrong, f.epClasses, f.classes)
	}
	return ""
}

func (d *SimNode) wrongProto(n *nodes.Node) string {
	p := n.ProtocolInfo()
	if p == nil {
		return "no protocol info"
	}
	if want, got := refDecode(d.proto()).Proto, protoOf(p); got != want {
		return fmt.Sprintf("protocol info %+v, should be %+v", got, want)
	}
	for _, x := range [][2]byte{{d.Generic, d.Specific}, {d.Generic, d.Specific + 1}, {d.Generic + 1, d.Specific}, {d.Specific, d.Generic}, {0, 0}} {
		if want, got := x[0] == d.Generic && x[1] == d.Specific, n.IsDeviceClass(x[0], x[1]); got != want {
			return fmt.Sprintf("is of the device class %02x/%02x: %v, its device class is %02x/%02x", x[0], x[1], got, d.Generic, d.Specific)
		}
	}
	has := map[byte]bool{}
	for _, x := range database.GetMandatoryCommandClasses(d.Generic, d.Specific) {
		has[byte(x.ID)] = true
	}
	if dev := database.New(d.manuIDs()); dev != nil {
		for _, x := range dev.CommandClasses {
			has[byte(x.ID)] = true
		}
	}
	for x := 0; x < 256; x++ {
		if n.HasCommand(commands.ZWaveCommand(x)) != has[byte(x)] {
			return fmt.Sprintf("has the command class %02x: %v, should be %v", x, !has[byte(x)], has[byte(x)])
		}
	}
	return ""
}

// wakeLoop lets sleeping nodes wake up now and then, until stop.
func (b *Bot) wakeLoop(stop chan struct{}, min, max time.Duration) {
	for _, n := range b.Nodes {
		if n.Listening || b.Asleep[n.ID] {
			continue
		}
		n := n
		go func() {
			for {
				select {
				case <-stop:
					return
				case <-time.After(b.r.Dur(min, max)):
				}
				b.w.Op.Port().Feed(mkReport(n.ID, 0x84, 0x07))
			}
		}()
	}
}

func runN02(c *Case) {
	c.Bubble(func() {
		w := NewWorld(c)
		r := newRand(c)
		b := newBot(w, r)
		n := 1 + c.R.Intn(12)
		if c.R.Intn(3) == 0 {
			n = 1
		}
		ids := distinctIDs(c.R, n)
		same := c.R.Intn(4) == 0
		for i, id := range ids {
			d := randDevice(c.R, id)
			if same && i > 0 { // several devices of the same kind
				f := b.Nodes[ids[0]]
				d.Manu, d.Generic, d.Specific = f.Manu, f.Generic, f.Specific
			}
			b.Nodes[id] = d
		}
		b.List = ids
		if c.R.Intn(40) == 0 { // most of the others never wake up
			b.Asleep = map[int]bool{}
			b.List = append([]int(nil), ids...)
			for _, id := range distinctIDs(c.R, 231)[:60+c.R.Intn(171)] {
				if b.Nodes[id] == nil {
					b.Nodes[id] = randDevice(c.R, id)
					b.Nodes[id].Listening = false
					b.Asleep[id] = true
					b.List = append(b.List, id)
				}
			}
			c.R.Shuffle(len(b.List), func(i, j int) { b.List[i], b.List[j] = b.List[j], b.List[i] })
		}
		if c.R.Intn(20) == 0 { // some can not be reached for a long time
			b.SilentTo = map[int]time.Duration{}
			for _, id := range ids {
				if c.R.Intn(2) == 0 {
					b.SilentTo[id] = durIn(c.R, time.Minute, 100*time.Minute)
				}
			}
		}
		b.ListLate = 50 * time.Millisecond
		b.Loss = []int{0, 10, 40}[c.R.Intn(3)]
		b.Dup = []int{0, 20, 60}[c.R.Intn(3)]
		b.ManuMax = []time.Duration{time.Millisecond, 500 * time.Millisecond, 9 * time.Second}[c.R.Intn(3)]
		b.EndpMax = []time.Duration{time.Millisecond, 300 * time.Millisecond, 1900 * time.Millisecond}[c.R.Intn(3)]
		b.ProtoMax = []time.Duration{time.Microsecond, 100 * time.Millisecond, 600 * time.Millisecond}[c.R.Intn(3)]
		if n == 1 && b.Asleep == nil {
			b.ProtoLoss = []int{0, 50}[c.R.Intn(2)]
		}
		w.Op.Handle = b.Handle
		file := c.tempFile("conf.json")
		if err := w.Connect(file); err != nil {
			c.Violate("connect failed: %v", err)
			return
		}
		w.DrainEvents(nil)
		stop := make(chan struct{})
		b.wakeLoop(stop, 200*time.Millisecond, 5*time.Second)
		if c.R.Intn(3) == 0 { // unsolicited facts of other devices
			go func() {
				for {
					select {
					case <-stop:
						return
					case <-time.After(r.Dur(10*time.Millisecond, 2*time.Second)):
					}
					p := products()[r.Intn(len(products()))]
					h := hex6(p)
					w.Op.Port().Feed(mkReport(1, 0x72, 5, h[:]...))
					w.Op.Port().Feed(mkReport(1, 0x60, 8, 0, 9))
				}
			}()
		}
		complete := func(w *World) bool {
			for _, id := range ids {
				n := w.Ctl.Nodes.Get(id)
				if n == nil {
					return false
				}
				f := factsOf(n)
				if f.manu == nil || f.nilEndpoints || n.ProtocolInfo() == nil {
					return false
				}
			}
			return true
		}
		judge := func(w *World, when string, proto bool) {
			for _, id := range ids {
				n := w.Node(id)
				if n == nil {
					c.Violate("%s: node %d is missing", when, id)
					continue
				}
				if e := b.Nodes[id].wrongFacts(factsOf(n)); e != "" {
					c.Violate("%s: node %d: %s", when, id, e)
				}
				if e := b.Nodes[id].wrongProto(n); proto && e != "" {
					c.Violate("%s: node %d: %s", when, id, e)
				}
			}
		}
		ok := w.WaitUntil(3*time.Hour, func() bool { time.Sleep(500 * time.Millisecond); return complete(w) })
		took := w.Now()
		if !ok {
			for _, id := range ids {
				n := w.Node(id)
				if n == nil {
					c.Violate("node %d was not found", id)
				} else {
					c.Violate("node %d was not identified within three hours: %+v proto %v", id, factsOf(n), n.ProtocolInfo())
				}
			}
			return
		}
		judge(w, "when all answers had arrived", true)
		time.Sleep(20 * time.Second)
		judge(w, "after identification", true)
		close(stop)

		// lost answers are asked for again
		log := b.Log()
		retries := 0
		for i, q := range log {
			if (q.What != "manu" && q.What != "endpoints") || q.Ans != 0 || b.Nodes[q.Node] == nil || !b.Nodes[q.Node].Listening {
				continue
			}
			found := false
			for _, o := range log[i+1:] {
				if o.Node == q.Node && o.What == q.What {
					found = true
					retries++
					// an answer to a manufacturer request is waited for up to 10 s, one to an endpoint request up to 2 s
					limit := 23 * time.Second
					if q.What == "endpoints" {
						limit = 15 * time.Second
					}
					if d := o.T - q.T; d < 10*time.Second || d > limit {
						c.Violate("the lost answer to %s of node %d was asked for again after %v", q.What, q.Node, d)
					}
					break
				}
			}
			if !found && b.Dup == 0 {
				c.Violate("the lost answer to %s of node %d was never asked for again", q.What, q.Node)
			}
		}

		// restart
		if err := w.Ctl.SaveConfigurationToFile(); err != nil {
			c.Violate("saving failed: %v", err)
		}
		w2 := NewWorld(c)
		b2 := newBot(w2, r)
		b2.Nodes, b2.List, b2.Asleep = b.Nodes, b.List, b.Asleep
		b2.ListLate = 3 * time.Second
		b2.ProtoMax = b.ProtoMax
		w2.Op.Handle = b2.Handle
		if err := w2.Connect(file); err != nil {
			c.Violate("connect failed: %v", err)
			return
		}
		w2.DrainEvents(nil)
		judge(w2, "restored", false)
		time.Sleep(30 * time.Second)
		judge(w2, "identified again after the restart", true)

		known, endp := 0, 0
		for _, d := range b.Nodes {
			if database.New(d.manuIDs()) != nil {
				known++
			}
			endp += d.Endpoints
		}
		c.Count("nodes", n)
		c.Count("known_products", known)
		c.Count("endpoints", endp)
		c.Count("requests", len(log))
		c.Count("lost_and_asked_again", retries)
		var order []string
		for _, q := range log {
			order = append(order, fmt.Sprintf("%s%d", q.What[:1], q.Node))
		}
		c.Mark(order)
		if len(order) > 60 {
			order = order[:60]
		}
		c.Sample(fmt.Sprintf("%d nodes identified in %v, requests %v", n, took, order))
		if known+endp > 0 {
			c.Nontrivial()
		}
	})
}

func runN03(c *Case) {
	c.Bubble(func() {
		w := NewWorld(c)
		r := newRand(c)
		b := newBot(w, r)
		ids := distinctIDs(c.R, 1+c.R.Intn(5))
		for i, id := range ids {
			d := randDevice(c.R, id)
			for !hasClasses(d) {
				d = randDevice(c.R, id)
			}
			d.Listening = i > 0 && c.R.Intn(2) == 0
			b.Nodes[id] = d
		}
		b.List = ids
		b.ListLate = 20 * time.Millisecond
		b.Loss = []int{0, 0, 30}[c.R.Intn(3)]
		b.ManuMax = []time.Duration{time.Millisecond, 300 * time.Millisecond, 4 * time.Second}[c.R.Intn(3)]
		b.EndpMax = []time.Duration{time.Millisecond, 300 * time.Millisecond, 1800 * time.Millisecond}[c.R.Intn(3)]
		w.Op.Handle = b.Handle
		file := ""
		endpKnown := map[int]bool{}
		if c.R.Intn(2) == 0 { // restored, with any awake flag
			l := plainNodes(ids...)
			for i := range l {
				l[i].Awake = c.R.Intn(2) == 0
				if c.R.Intn(2) == 0 {
					l[i].Endpoints = nil
				}
				endpKnown[ids[i]] = l[i].Endpoints != nil
			}
			file = c.confFile(l)
		}
		if err := w.Connect(file); err != nil {
			c.Violate("connect failed: %v", err)
			return
		}
		w.DrainEvents(nil)
		// wake-ups
		var mu sync.Mutex
		wakes := map[int][]time.Duration{}
		wake := func(id int) {
			mu.Lock()
			defer mu.Unlock()
			p := w.Op.Port()
			p.Feed(mkReport(id, 0x84, 0x07))
			wakes[id] = append(wakes[id], w.Now())
		}
		style := c.R.Intn(4)
		if c.R.Intn(6) == 0 { // hours of sleep
			style = 4
		}
		stop := make(chan struct{})
		for _, id := range ids {
			id := id
			go func() {
				if style == 0 {
					time.Sleep(r.Dur(0, time.Minute)) // nothing at all for a while
				}
				for {
					d := r.Dur(0, 200*time.Millisecond)
					switch style {
					case 0:
						d = r.Dur(10*time.Second, 60*time.Second)
					case 1:
						d = r.Dur(time.Second, 15*time.Second)
					case 4:
						d = r.Dur(5*time.Minute, 3*time.Hour)
					case 2:
						if r.Intn(3) > 0 {
							d = r.Dur(3*time.Second, 30*time.Second)
						}
					}
					select {
					case <-stop:
						return
					case <-time.After(d):
					}
					wake(id)
					if r.Intn(6) == 0 {
						wake(id)
					}
				}
			}()
		}
		// sometimes a wake-up right when the node is asked for its protocol info
		d := []time.Duration{20 * time.Second, 3 * time.Minute, 10 * time.Minute}[c.R.Intn(3)]
		if style == 4 {
			d = 12 * time.Hour
		}
		time.Sleep(d)
		close(stop)
		time.Sleep(10 * time.Second)
		end := w.Now()
		log := b.Log()
		mu.Lock()
		defer mu.Unlock()
		steps, useless, asked := 0, 0, 0
		var trace []string
		for _, id := range ids {
			d := b.Nodes[id]
			type step struct {
				t     time.Duration
				what  string
				ready time.Duration // when it must be waiting for the next one, -1: never or unknown
			}
			var st []step
			lastState := time.Duration(-1)
			for _, q := range log {
				if q.Node != id {
					continue
				}
				switch q.What {
				case "proto":
					if q.Ans == 0 {
						c.Inconclusive("no protocol info")
						return
					}
					if len(st) > 0 {
						continue
					}
					st = append(st, step{q.T, "proto", q.Ans})
				case "manu":
					rd := q.Ans
					if rd == 0 {
						rd = q.T + 20*time.Second + 300*time.Millisecond
					}
					st = append(st, step{q.T, "manu", rd})
				case "endpoints":
					rd := q.Ans
					if rd == 0 {
						rd = q.T + 12*time.Second + 300*time.Millisecond
					}
					st = append(st, step{q.T, "endpoints", rd})
				case "state":
					if lastState >= 0 && len(st) > 0 && st[len(st)-1].what == "state" {
						st[len(st)-1].ready = -1
						continue // the same step
					}
					lastState = q.T
					st = append(st, step{q.T, "state", -1})
				case "set", "other":
					c.Violate("node %d: transmitted %x, which nobody asked for", id, q.B)
				}
			}
			if len(st) == 0 {
				c.Violate("node %d was never asked for its protocol info", id)
				continue
			}
			for i := 1; i < len(st); i++ {
				steps++
				trace = append(trace, fmt.Sprintf("%d:%s@%v", id, st[i].what, st[i].t.Round(time.Millisecond)))
				if d.Listening {
					continue
				}
				ok := false
				for _, t := range wakes[id] {
					if t > st[i-1].t && t <= st[i].t {
						ok = true
					}
				}
				if !ok {
					c.Violate("the sleeping node %d was sent %s at %v, it has not woken up since the previous step (%s at %v, wake-ups %v)", id, st[i].what, st[i].t, st[i-1].what, st[i-1].t, near(wakes[id], st[i].t))
				}
			}
			if !d.Listening {
				if len(wakes[id]) > len(st)-1 {
					useless++
				}
				if len(st) > 2 {
					asked++
				}
			}
			// a step that waits must proceed
			for i, s := range st {
				if s.ready < 0 {
					continue
				}
				next := time.Duration(1 << 60)
				if i+1 < len(st) {
					next = st[i+1].t
				}
				if (s.what == "endpoints" || s.what == "manu" && endpKnown[id]) && !hasStates(d) {
					continue // there is nothing more to ask
				}
				if d.Listening {
					if next > s.ready+5*time.Second && end > s.ready+6*time.Second && !(s.what == "proto" && file != "" && next == 1<<60) && s.ready < end {
						c.Violate("the listening node %d: %s was done at %v, the next step came at %v", id, s.what, s.ready, next)
					}
					continue
				}
				for _, t := range wakes[id] {
					if t < s.ready+100*time.Millisecond || t >= next {
						continue
					}
					if next > t+5*time.Second && end > t+6*time.Second {
						c.Violate("the sleeping node %d woke up at %v, waiting since %v (%s), was not asked within 5 s (next step %v)", id, t, s.ready, s.what, next)
					}
					break
				}
			}
		}
		c.Count("steps", steps)
		c.Count("nodes", len(ids))
		nw := 0
		for _, x := range wakes {
			nw += len(x)
		}
		c.Count("wake_ups", nw)
		c.Mark(trace)
		if len(trace) > 30 {
			trace = trace[:30]
		}
		c.Sample(fmt.Sprintf("steps %v, %d wake-ups", trace, nw))
		if asked > 0 && useless > 0 {
			c.Nontrivial()
		}
	})
}

// hasClasses tells if any command class of the device is known. Devices without are not asked for endpoints.
func hasClasses(d *SimNode) bool {
	if len(database.GetMandatoryCommandClasses(d.Generic, d.Specific)) > 0 {
		return true
	}
	dev := database.New(d.manuIDs())
	return dev != nil && len(dev.CommandClasses) > 0
}

// hasStates tells if the device has anything that is asked for its state.
func hasStates(d *SimNode) bool {
	l := database.GetMandatoryCommandClasses(d.Generic, d.Specific)
	if dev := database.New(d.manuIDs()); dev != nil {
		l = append(l, dev.CommandClasses...)
	}
	for _, x := range l {
		if byte(x.ID) == 0x25 || byte(x.ID) == 0x26 || byte(x.ID) == 0x31 {
			return true
		}
	}
	return false
}

func near(l []time.Duration, t time.Duration) []time.Duration {
	var r []time.Duration
	for _, x := range l {
		if x > t-30*time.Second && x < t+5*time.Second {
			r = append(r, x)
		}
	}
	return r
}

// stateReport makes a report with a defined meaning, or one that must not change anything
func stateReport(r *rand.Rand, narrow bool) []byte {
	v := func() byte {
		return []byte{0, 1, 50, 99, 100, 101, 0xfd, 0xff, 0x7f, 0x80, byte(r.Intn(254))}[r.Intn(11)]
	}
	switch r.Intn(12) {
	case 0:
		return []byte{0x25, 3, v()}
	case 1:
		x := v()
		return []byte{0x25, 3, x, v(), byte(r.Intn(256))}
	case 2:
		return []byte{0x26, 3, v()}
	case 3:
		return []byte{0x26, 3, v(), byte(r.Intn(256)), byte(r.Intn(256))}
	case 4:
		return []byte{0x25, 3, 0xfe}
	case 5:
		return []byte{0x26, 3, 0xfe}
	case 6:
		return []byte{0x26, 3, 0xfe, v(), v()}
	case 7: // undecodable
		return [][]byte{{0x25, 3}, {0x25, 3, 1, 2}, {0x26, 3, 1, 2, 3, 4}, {0x31, 5, 1, 0x04, 1, 2}, {0x31, 5, 1, 0x03, 1, 2, 3}, {0x25, 1, 0xff}, {0x20, 3, 0xff}}[r.Intn(7)]
	}
	typ := byte(1 + r.Intn(60))
	if narrow {
		typ = byte(1 + r.Intn(3))
	}
	size := []int{1, 2, 4}[r.Intn(3)]
	return append([]byte{0x31, 5, typ, byte(r.Intn(8)<<5 | r.Intn(4)<<3 | size)}, randBytes(r, size)...)
}

// otherReport makes a report that says nothing about switches, levels and sensors
func otherReport(r *rand.Rand) []byte {
	switch r.Intn(5) {
	case 0:
		return []byte{0x71, 5, byte(r.Intn(256)), byte(r.Intn(256))}
	case 1:
		return append([]byte{0x72, 5}, randBytes(r, 6)...)
	case 2:
		return []byte{0x60, 8, byte(r.Intn(256)), byte(r.Intn(8))}
	case 3:
		return []byte{0x84, 7}
	}
	return []byte{0x71, 5, byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), []byte{0, 0xff, 0xff, byte(r.Intn(256))}[r.Intn(4)], byte(r.Intn(256)), byte(r.Intn(256))}
}

func runN04(c *Case) {
	c.Bubble(func() {
		w := NewWorld(c)
		r := newRand(c)
		b := newBot(w, r)
		w.Op.Handle = b.Handle
		w.Op.Coalesce = c.R.Intn(2) == 0
		ids := distinctIDs(c.R, 3+c.R.Intn(4))
		list := plainNodes(ids...)
		if c.R.Intn(2) == 0 {
			list = randConf(c.R, ids)
		}
		want := map[int]*RefState{}
		for i := range list {
			want[list[i].ID] = newRefState()
			for k, v := range list[i].Bool {
				want[list[i].ID].Bool[k] = v
			}
			for k, v := range list[i].Float {
				want[list[i].ID].Float[k] = v
			}
			if len(list[i].Bool)+len(list[i].Float) == 0 && c.R.Intn(2) == 0 {
				list[i].Bool = map[string]bool{"on": true}
				list[i].Float = map[string]float64{"level": 33, "something": 1.5}
				want[list[i].ID].Bool["on"] = true
				want[list[i].ID].Float["level"] = 33
				want[list[i].ID].Float["something"] = 1.5
			}
		}
		var found []int
		if c.R.Intn(2) == 0 { // others are found, but can not be identified
			for _, id := range distinctIDs(c.R, 8) {
				if want[id] == nil && len(found) < 2 {
					found = append(found, id)
				}
			}
			b.List = append(b.List, found...)
		}
		if c.R.Intn(2) == 0 { // some of them are identified at the same time
			for _, id := range ids[:2] {
				b.Nodes[id] = randDevice(c.R, id)
				b.List = append(b.List, id)
			}
		}
		if err := w.Connect(c.confFile(list)); err != nil {
			c.Violate("connect failed: %v", err)
			return
		}
		if c.R.Intn(3) > 0 {
			w.DrainEvents(nil)
		}
		time.Sleep(100 * time.Millisecond)
		for _, id := range found {
			if !w.WaitUntil(5*time.Second, func() bool { return w.Node(id) != nil }) {
				c.Violate("node %d was not found", id)
				return
			}
			ids = append(ids, id)
			want[id] = newRefState()
		}
		n := 20 + c.R.Intn(181)
		narrow := c.R.Intn(2) == 0
		applied, same, ignored, near := 0, 0, 0, 0
		lastSensor := map[int][]byte{}
		// check compares everything but the alarm
		check := func(id int) string {
			have, should := stateOf(w.Node(id)), newRefState()
			for k, v := range want[id].Bool {
				should.Bool[k] = v
			}
			for k, v := range want[id].Float {
				should.Float[k] = v
			}
			for _, s := range []*RefState{have, should} {
				delete(s.Bool, "alarm")
				delete(s.Float, "alarm")
				delete(s.Float, "alarmLastType")
			}
			return should.diff(have)
		}
		strangers := []int{1, 233, 255, 0}
		for n > 0 {
			burst := 1
			if c.R.Intn(2) == 0 {
				burst = 1 + c.R.Intn(30)
			}
			var held []*nodes.Node // somebody reads their fields for a while
			if c.R.Intn(30) == 0 {
				burst = 10 + c.R.Intn(300)
				for _, id := range ids {
					if n := w.Node(id); c.R.Intn(2) == 0 {
						n.RLock()
						held = append(held, n)
					}
				}
			}
			var chunk []byte
			last := map[string]bool{}
			for ; burst > 0 && n > 0; burst-- {
				n--
				id := ids[c.R.Intn(len(ids))]
				if c.R.Intn(10) == 0 {
					id = strangers[c.R.Intn(4)]
				}
				rep := stateReport(c.R, narrow)
				if l := lastSensor[id]; l != nil && c.R.Intn(4) == 0 { // almost or exactly the same once more
					rep = append([]byte(nil), l...)
					rep[len(rep)-1] += []byte{0, 1, 1, 0xff}[c.R.Intn(4)]
					near++
				} else if c.R.Intn(8) == 0 {
					rep = otherReport(c.R)
				}
				if rep[0] == 0x31 && len(rep) > 4 && refReport(rep[0], rep[1], rep[2:]) != nil {
					lastSensor[id] = rep
				}
				f := mkReport(id, rep[0], rep[1], rep[2:]...)
				if c.R.Intn(20) == 0 { // damaged, without bytes that start something else
					f = bytes.Replace(f, []byte{1}, []byte{2}, -1)
					f = bytes.Replace(f, []byte{6}, []byte{2}, -1)
					f = bytes.Replace(f, []byte{0x15}, []byte{2}, -1)
					f = bytes.Replace(f, []byte{0x18}, []byte{2}, -1)
					f[0] = 3
					chunk = append(chunk, f...)
					ignored++
					continue
				}
				if ref := refReport(rep[0], rep[1], rep[2:]); ref != nil && want[id] != nil && want[id].apply(ref) {
					applied++
					k := fmt.Sprint(id, rep[0])
					if last[k] {
						same++
					}
					last[k] = true
				} else {
					ignored++
				}
				if c.R.Intn(3) == 0 && len(chunk) > 0 { // another read at the same moment
					w.Op.Port().Feed(chunk)
					chunk = nil
				}
				chunk = append(chunk, f...)
			}
			w.Op.Port().Feed(chunk)
			if held != nil {
				time.Sleep(durIn(c.R, time.Millisecond, 3*time.Second))
				for _, n := range held {
					n.RUnlock()
				}
				time.Sleep(20 * time.Millisecond)
			}
			if c.R.Intn(3) > 0 {
				time.Sleep(durIn(c.R, time.Millisecond, 60*time.Millisecond))
			}
			if c.R.Intn(4) == 0 {
				time.Sleep(20 * time.Millisecond)
				for _, id := range ids {
					if d := check(id); d != "" {
						c.Violate("node %d after %d reports: %s", id, applied+ignored, d)
						return
					}
				}
			}
		}
		time.Sleep(time.Second)
		for _, id := range ids {
			node := w.Node(id)
			if node == nil {
				c.Violate("node %d is gone", id)
				continue
			}
			if d := check(id); d != "" {
				c.Violate("node %d after all %d reports: %s", id, applied+ignored, d)
			}
		}
		for _, id := range strangers {
			if w.Node(id) != nil {
				c.Violate("a report created node %d", id)
			}
		}
		c.Count("applied", applied)
		c.Count("repeated_within_a_burst", same)
		c.Count("almost_the_same_reading", near)
		c.Count("must_be_ignored", ignored)
		c.Mark(applied, ignored, same, c.R.Int63())
		c.Sample(fmt.Sprintf("%d nodes, %d reports that set something, %d that must be ignored, final states %v", len(ids), applied, ignored, want[ids[0]]))
		if same > 0 && ignored > 0 {
			c.Nontrivial()
		}
	})
}

func runN05(c *Case) {
	c.Bubble(func() {
		w := NewWorld(c)
		r := newRand(c)
		b := newBot(w, r)
		w.Op.Handle = b.Handle
		ids := distinctIDs(c.R, 1+c.R.Intn(4))
		list := plainNodes(ids...)
		if c.R.Intn(2) == 0 {
			list = randConf(c.R, ids)
		}
		rest := map[int]*RefState{} // everything but the alarms
		for _, n := range list {
			delete(n.Bool, "alarm") // an alarm that was saved is restored, but this is not about that
			delete(n.Float, "alarm")
			rest[n.ID] = newRefState()
			for k, v := range n.Bool {
				rest[n.ID].Bool[k] = v
			}
			for k, v := range n.Float {
				rest[n.ID].Float[k] = v
			}
			delete(rest[n.ID].Float, "alarmLastType")
		}
		if err := w.Connect(c.confFile(list)); err != nil {
			c.Violate("connect failed: %v", err)
			return
		}
		w.DrainEvents(nil)
		time.Sleep(300 * time.Millisecond)
		type alarm struct {
			t    time.Duration
			typ  byte
			node int
		}
		var log []alarm
		updates := map[int][]time.Duration{} // expected update events that are no alarms
		lastType := map[int]float64{}
		for _, n := range list {
			if v, ok := n.Float["alarmLastType"]; ok {
				lastType[n.ID] = v
			}
		}
		raised, fallen, between, nochange := 0, 0, 0, 0
		aval := map[int]float64{}
		n := 1 + c.R.Intn(12)
		overlapping := c.R.Intn(2) == 0
		storm := c.R.Intn(25) == 0 // many of them wait to fall back at the same time
		if storm {
			n = 40 + c.R.Intn(160)
		}
		read := func(id int, what string) *RefState {
			var s *RefState
			if !w.Within(200*time.Microsecond, func() { s = stateOf(w.Node(id)) }) {
				c.Violate("node %d can not be read %s", id, what)
				return nil
			}
			o := newRefState()
			for k, v := range s.Bool {
				if k != "alarm" {
					o.Bool[k] = v
				}
			}
			for k, v := range s.Float {
				if k != "alarm" && k != "alarmLastType" {
					o.Float[k] = v
				}
			}
			if d := rest[id].diff(o); d != "" {
				c.Violate("node %d %s: %s", id, what, d)
			}
			return s
		}
		// quiet tells if no alarm of the node falls back around t
		quiet := func(id int, t time.Duration) bool {
			for _, a := range log {
				if a.node == id {
					if d := t - a.t; d > 850*time.Millisecond && d < 1150*time.Millisecond {
						return false
					}
				}
			}
			return true
		}
		active := func(id int, t time.Duration) bool {
			for _, a := range log {
				if a.node == id && t-a.t < 1150*time.Millisecond {
					return true
				}
			}
			return false
		}
		sensor := 0
		var prev []byte // of the last alarm
		prevID := 0
		report := func(id int) {
			sensor++
			rep := []byte{0x31, 5, byte(100 + sensor%100), 1, byte(sensor % 100)}
			if c.R.Intn(2) == 0 {
				rep = stateReport(c.R, c.R.Intn(2) == 0)
			}
			w.Op.Port().Feed(mkReport(id, rep[0], rep[1], rep[2:]...))
			if ref := refReport(rep[0], rep[1], rep[2:]); ref != nil && rest[id].apply(ref) {
				updates[id] = append(updates[id], w.Now())
			}
			time.Sleep(time.Millisecond)
			read(id, "after a report while an alarm waits to fall back")
			between++
		}
		for i := 0; i < n && !c.violated(); i++ {
			id := ids[c.R.Intn(len(ids))]
			typ := byte(c.R.Intn(256))
			if c.R.Intn(4) == 0 {
				typ = 0
			}
			any := func() byte { return []byte{0, 0, 1, 0xff, byte(c.R.Intn(256)), byte(c.R.Intn(256))}[c.R.Intn(6)] }
			data := []byte{typ, any(), any(), 0xff, any(), any()}
			if c.R.Intn(3) == 0 {
				data = append(data, randBytes(c.R, c.R.Intn(4))...)
			}
			if again := c.R.Intn(3) == 0; again && prev != nil { // the very same alarm once more
				id, typ, data = prevID, prev[0], append([]byte(nil), prev...)
			} else if c.R.Intn(4) == 0 { // an alarm that is none
				before := read(id, "")
				bt := w.Now()
				switch c.R.Intn(3) {
				case 0:
					data = data[:2+c.R.Intn(4)]
				default:
					data[3] = []byte{0, 1, 0xfe, byte(c.R.Intn(255))}[c.R.Intn(4)]
				}
				w.Op.Port().Feed(mkReport(id, 0x71, 5, data...))
				time.Sleep(2 * time.Millisecond)
				after := read(id, "")
				if quiet(id, bt) && before != nil && after != nil {
					if d := before.diff(after); d != "" {
						c.Violate("an alarm report with another status (%x) changed node %d: %s", data, id, d)
					}
					nochange++
				}
				continue
			}
			prevID, prev = id, append([]byte(nil), data...)
			w.Op.Port().Feed(mkReport(id, 0x71, 5, data...))
			t := w.Now()
			ok := quiet(id, t)
			wasActive := active(id, t)
			log = append(log, alarm{t, typ, id})
			if typ != 0 {
				lastType[id] = float64(typ)
				aval[id] = float64(typ)
			} else if !wasActive {
				aval[id] = 0
			}
			time.Sleep(2 * time.Millisecond)
			if s := read(id, "when an alarm was raised"); s != nil && ok {
				if !s.Bool["alarm"] {
					c.Violate("node %d: alarm is not set at once", id)
				}
				if typ != 0 && s.Float["alarm"] != float64(typ) {
					c.Violate("node %d: alarm value is %v, was raised with %v", id, s.Float["alarm"], typ)
				}
				if s.Float["alarmLastType"] != lastType[id] {
					c.Violate("node %d: last alarm type is %v, should be %v", id, s.Float["alarmLastType"], lastType[id])
				}
				raised++
			}
			if storm && i < n-1 {
				time.Sleep(durIn(c.R, 0, 8*time.Millisecond))
				continue
			}
			if overlapping && c.R.Intn(2) == 0 {
				time.Sleep(durIn(c.R, 0, []time.Duration{200 * time.Millisecond, 1500 * time.Millisecond}[c.R.Intn(2)]))
				if c.R.Intn(2) == 0 {
					report(ids[c.R.Intn(len(ids))])
				}
				continue
			}
			for k := c.R.Intn(4); k > 0; k-- {
				time.Sleep(durIn(c.R, 0, 200*time.Millisecond))
				report(ids[c.R.Intn(len(ids))])
			}
			alone := true
			for _, a := range log[:len(log)-1] {
				if a.node == id && t-a.t < 2*time.Second {
					alone = false
				}
			}
			if now := w.Now() - t; alone && now < 800*time.Millisecond {
				if s := read(id, ""); s != nil && !s.Bool["alarm"] {
					c.Violate("node %d: the alarm fell back after %v", id, now)
				}
			}
			time.Sleep(t + 1200*time.Millisecond - w.Now())
			if s := read(id, "after an alarm"); s != nil {
				if s.Bool["alarm"] || s.Float["alarm"] != 0 {
					c.Violate("node %d: 1.2 s after the last alarm: alarm %v, value %v", id, s.Bool["alarm"], s.Float["alarm"])
				}
				if s.Float["alarmLastType"] != lastType[id] {
					c.Violate("node %d: last alarm type is %v after the alarm, should be %v", id, s.Float["alarmLastType"], lastType[id])
				}
				fallen++
			}
			if c.R.Intn(2) == 0 {
				time.Sleep(durIn(c.R, 0, 2*time.Second))
			}
		}
		time.Sleep(2 * time.Second)
		for _, id := range ids {
			if s := read(id, "at the end"); s != nil && (s.Bool["alarm"] || s.Float["alarm"] != 0 || s.Float["alarmLastType"] != lastType[id]) {
				c.Violate("node %d at the end: alarm %v, value %v, last type %v (should be %v)", id, s.Bool["alarm"], s.Float["alarm"], s.Float["alarmLastType"], lastType[id])
			}
		}
		// events: one when raised, one when it falls back
		evs := map[int][]time.Duration{}
		for _, e := range w.EventLog() {
			if u, ok := e.Ev.(events.NodeUpdated); ok {
				evs[u.Address] = append(evs[u.Address], e.T)
			}
		}
		for _, a := range log {
			up, down := 0, 0
			for _, t := range evs[a.node] {
				if t >= a.t && t <= a.t+2*time.Millisecond {
					up++
				}
				if t >= a.t+800*time.Millisecond && t <= a.t+1200*time.Millisecond {
					down++
				}
			}
			if up == 0 {
				c.Violate("node %d: no update event when the alarm was raised at %v", a.node, a.t)
			}
			if down == 0 {
				c.Violate("node %d: no update event when the alarm of %v fell back", a.node, a.t)
			}
		}
		for _, id := range ids {
			na := 0
			for _, a := range log {
				if a.node == id {
					na++
				}
			}
			if got, want := len(evs[id]), 2*na+len(updates[id]); got != want {
				c.Violate("node %d: %d alarms and %d other reports gave %d update events", id, na, len(updates[id]), got)
			}
		}
		c.Count("alarms", len(log))
		c.Count("raised_judged", raised)
		c.Count("fallen_back_judged", fallen)
		c.Count("reports_meanwhile", between)
		c.Count("other_status", nochange)
		var s []string
		for _, a := range log {
			s = append(s, fmt.Sprintf("%d:%d@%v", a.node, a.typ, a.t.Round(time.Millisecond)))
		}
		c.Mark(s)
		c.Sample(strings.Join(s, " "))
		if raised > 0 && fallen > 0 {
			c.Nontrivial()
		}
	})
}

// runE01Facts has a reader that looks at a node whenever an event names it. It always knows everything about the
// node (except its command classes), also while the node is identified.
func runE01Facts(c *Case) {
	type facts struct {
		nodeView
		Proto string
	}
	look := func(n *nodes.Node) facts {
		f := facts{nodeView: viewOf(n)}
		f.Classes = ""
		for i := range f.Endpoints {
			f.Endpoints[i].Classes = ""
		}
		if p := n.ProtocolInfo(); p != nil {
			f.Proto = fmt.Sprintf("%+v", *p)
		}
		return f
	}
	c.Bubble(func() {
		w := NewWorld(c)
		r := newRand(c)
		b := newBot(w, r)
		b.Loss = []int{0, 0, 30}[c.R.Intn(3)]
		b.ManuMax, b.EndpMax = time.Second, time.Second
		w.Op.Handle = b.Handle
		all := distinctIDs(c.R, 6)
		found, restored := all[:1+c.R.Intn(3)], all[3:3+c.R.Intn(3)]
		for _, id := range all {
			b.Nodes[id] = randDevice(c.R, id)
		}
		b.List = append(append([]int{}, found...), restored...)
		file := ""
		if len(restored) > 0 {
			file = c.confFile(randConf(c.R, restored))
		}
		var mu sync.Mutex
		known := map[int]facts{}
		events0 := 0
		if err := w.Connect(file); err != nil {
			c.Violate("connect failed: %v", err)
			return
		}
		for _, id := range restored { // this is read when it is started
			known[id] = look(w.Node(id))
		}
		ch := w.Ctl.GetNextEvent()
		go func() {
			for ev := range ch {
				addr := 0
				switch e := ev.(type) {
				case events.NodeUpdated:
					addr = e.Address
				case events.NodeDiscoverd:
					addr = e.Address
				default:
					continue
				}
				n := w.Ctl.Nodes.Get(addr)
				if n == nil {
					c.Violate("event %T names node %d, which is not in the list", ev, addr)
					continue
				}
				f := look(n)
				mu.Lock()
				events0++
				known[addr] = f
				mu.Unlock()
			}
		}()
		looks, steps := 0, 0
		last := map[int]facts{}
		for i := 30 + c.R.Intn(60); i > 0 && !c.violated(); i-- {
			time.Sleep(r.Dur(0, []time.Duration{200 * time.Millisecond, 3 * time.Second, 20 * time.Second}[c.R.Intn(3)]))
			id := b.List[c.R.Intn(len(b.List))]
			switch c.R.Intn(6) {
			case 0, 1, 2:
				w.Op.Port().Feed(mkReport(id, 0x84, 7))
			case 3:
				w.Op.Port().Feed(mkReport(id, 0x31, 5, byte(c.R.Intn(256)), 1, byte(c.R.Intn(256))))
			case 4:
				w.Op.Port().Feed(mkReport(id, 0x71, 5, byte(c.R.Intn(256)), 1, 0, byte(0xff*c.R.Intn(2)), 1, 2))
			case 5:
				w.Op.Port().Feed(mkReport(id, 0x26, 3, byte(c.R.Intn(101))))
			}
			time.Sleep(2 * time.Millisecond)
			for id, n := range w.Ctl.Nodes.All() {
				f := look(n)
				mu.Lock()
				k, ok := known[id]
				mu.Unlock()
				looks++
				if !reflect.DeepEqual(f, last[id]) {
					steps++
				}
				last[id] = f
				if ok && reflect.DeepEqual(k, f) {
					continue
				}
				time.Sleep(5 * time.Millisecond) // it might have changed right now
				f = look(n)
				mu.Lock()
				k, ok = known[id]
				mu.Unlock()
				if !ok || !reflect.DeepEqual(k, f) {
					c.Violate("node %d is %+v at %v, when its last event was read it was %+v (known %v)", id, f, w.Now(), k, ok)
				}
			}
		}
		c.Count("events", events0)
		c.Count("looks_at_nodes", looks)
		c.Count("changes_known_from_events", steps)
		c.Mark("facts", found, restored, events0, steps)
		c.Sample(fmt.Sprintf("nodes %v found, %v restored, %d events", found, restored, events0))
		if steps > 3 {
			c.Nontrivial()
		}
	})
}

func runE01(c *Case) {
	if c.Index%5 == 4 {
		runE01Facts(c)
		return
	}
	c.Bubble(func() {
		w := NewWorld(c)
		r := newRand(c)
		b := newBot(w, r)
		w.Op.Handle = b.Handle
		ids := distinctIDs(c.R, 2+c.R.Intn(4))
		b.List = nil
		identify := c.R.Intn(3) == 0
		fresh := 0
		if identify { // another node is identified at the same time
			for id := 2; id < 232; id++ {
				free := true
				for _, x := range ids {
					free = free && x != id
				}
				if free {
					fresh = id
					break
				}
			}
			b.Nodes[fresh] = randDevice(c.R, fresh)
			b.Nodes[fresh].Listening = true
			b.List = []int{fresh}
		}
		if err := w.Connect(c.confFile(plainNodes(ids...))); err != nil {
			c.Violate("connect failed: %v", err)
			return
		}
		mode := c.R.Intn(4) // 0, 1: fast, 2: slow, 3: none
		ch := w.Ctl.GetNextEvent()
		if mode != 3 { // what happened while it was started
			for more := true; more; {
				select {
				case <-ch:
				default:
					more = false
				}
			}
		}
		var mu sync.Mutex
		var order []int // nodes of the update events
		seen := map[int]int{}
		sent := map[int]int{}
		var want []int
		unread := 0
		if mode != 3 && !identify { // up to ten events wait until somebody reads them
			for i := 6 + c.R.Intn(5); i > 0; i-- {
				id := ids[c.R.Intn(len(ids))]
				sent[id]++
				want = append(want, id)
				w.Op.Port().Feed(mkReport(id, 0x31, 5, 99, 2, byte(sent[id]>>8), byte(sent[id])))
				if c.R.Intn(2) == 0 {
					time.Sleep(r.Dur(0, 20*time.Millisecond))
				}
			}
			time.Sleep(time.Second)
			unread = len(want)
		}
		var later map[int]int // events after the first part
		if mode != 3 {
			go func() {
				for {
					if mode == 2 {
						time.Sleep(r.Dur(0, 30*time.Millisecond))
					}
					ev := <-ch
					u, ok := ev.(events.NodeUpdated)
					addr := 0
					if ok {
						addr = u.Address
					} else if d, ok := ev.(events.NodeDiscoverd); ok {
						addr = d.Address
					} else {
						continue
					}
					n := w.Ctl.Nodes.Get(addr)
					if n == nil {
						c.Violate("event %T names node %d, which is not in the list", ev, addr)
						continue
					}
					if !ok || addr == fresh {
						continue
					}
					s := stateOf(n)
					mu.Lock()
					if later != nil {
						later[addr]++
						mu.Unlock()
						continue
					}
					order = append(order, addr)
					seen[addr]++
					k := seen[addr]
					unread--
					mu.Unlock()
					if v := s.Float["unknown (99)_"]; v < float64(k) {
						c.Violate("update event number %d of node %d, its state is %v", k, addr, v)
					}
				}
			}()
		}
		if mode != 3 && !w.WaitUntil(time.Minute, func() bool {
			mu.Lock()
			defer mu.Unlock()
			return unread <= 0
		}) {
			c.Violate("%d of %d update events that waited to be read did not come", unread, len(want))
			return
		}
		n := 20 + c.R.Intn(131)
		for n > 0 {
			burst := 1 + c.R.Intn(8)
			if mode == 2 && identify { // leave room for the events of the identification
				burst = 1 + c.R.Intn(4)
			}
			if mode == 3 {
				burst = 1 + c.R.Intn(40)
			}
			if mode == 2 { // never more than it can hold
				ok := w.WaitUntil(time.Minute, func() bool {
					mu.Lock()
					defer mu.Unlock()
					return unread <= 0
				})
				if !ok {
					c.Violate("%d reports were not followed by an update event", unread)
					return
				}
			}
			var chunk []byte
			for ; burst > 0 && n > 0; burst-- {
				n--
				id := ids[c.R.Intn(len(ids))]
				sent[id]++
				mu.Lock()
				unread++
				mu.Unlock()
				want = append(want, id)
				chunk = append(chunk, mkReport(id, 0x31, 5, 99, 2, byte(sent[id]>>8), byte(sent[id]))...)
				if c.R.Intn(5) == 0 { // no change, no event
					chunk = append(chunk, mkReport(id, 0x26, 3, 0xfe)...)
					chunk = append(chunk, mkReport(1, 0x26, 3, 0x22)...)
				}
				if c.R.Intn(4) == 0 {
					w.Op.Port().Feed(chunk)
					chunk = nil
				}
			}
			w.Op.Port().Feed(chunk)
			time.Sleep(r.Dur(time.Millisecond, 50*time.Millisecond))
		}
		time.Sleep(5 * time.Second)
		for _, id := range ids {
			var s *RefState
			if !w.Within(time.Minute, func() { s = stateOf(w.Node(id)) }) {
				c.Violate("node %d can not be read", id)
				return
			}
			if v := s.Float["unknown (99)_"]; v != float64(sent[id]) {
				c.Violate("node %d: report number %d was applied, %d were received (reader %d)", id, int(v), sent[id], mode)
			}
		}
		changes := 0
		if mode != 3 {
			mu.Lock()
			later = map[int]int{}
			mu.Unlock()
			changes = announcements(w, r, ids, map[bool]time.Duration{true: 300 * time.Millisecond, false: 20 * time.Millisecond}[mode == 2], func(id int) int {
				mu.Lock()
				defer mu.Unlock()
				return later[id]
			})
		}
		mu.Lock()
		defer mu.Unlock()
		if mode != 3 && !identify { // identification adds events that can be in the way
			if fmt.Sprint(order) != fmt.Sprint(want) {
				c.Violate("reports of the nodes %v were announced as %v", want, order)
			}
		} else if mode != 3 {
			if mode < 2 && fmt.Sprint(order) != fmt.Sprint(want) {
				c.Violate("reports of the nodes %v were announced as %v", want, order)
			}
		} else {
			// nobody reads events, requests work as well
			q := reqReport(50, 0x72, 5, 1, 10*time.Second)
			b.mu.Lock()
			b.Nodes[50] = &SimNode{ID: 50}
			b.mu.Unlock()
			w.Op.setHandle(func(p *Port, frame []byte) {
				p.Feed([]byte{0x06})
				p.Feed(mkReport(50, 0x72, 5, 1, 2, 3, 4, 5, 6))
			})
			if !w.Within(time.Minute, func() { w.Do(w.Ctl.Connection, q) }) {
				c.Violate("no command is accepted when nobody reads events")
			}
			time.Sleep(11 * time.Second)
			if s := q.Snap(); len(s.Reps) != 1 {
				c.Violate("no answer when nobody reads events")
			}
		}
		c.Count("reports", len(want))
		c.Count("single_changes_announced", changes)
		c.Count("events", len(order))
		c.Count([]string{"fast_reader", "fast_reader", "slow_reader", "no_reader"}[mode], 1)
		c.Mark(mode, want)
		c.Sample(fmt.Sprintf("%d reports, %d events, reader %d, identification %v", len(want), len(order), mode, identify))
		if mode == 3 || len(order) >= 10 {
			c.Nontrivial()
		}
	})
}

// announcements sends single reports with few different values and of all kinds, each that changes the state has to be
// followed by an event.
func announcements(w *World, r *lockedRand, ids []int, wait time.Duration, count func(id int) int) int {
	ref := map[int]*RefState{}
	alarm := map[int]time.Duration{}
	for _, id := range ids {
		ref[id] = stateOf(w.Node(id))
	}
	changes := 0
	for n := 10 + r.Intn(40); n > 0; n-- {
		id := ids[r.Intn(len(ids))]
		var f []byte
		switch r.Intn(6) {
		case 0:
			f = mkReport(id, 0x25, 3, []byte{0, 0xff, 0xff, 0xfe}[r.Intn(4)])
		case 1:
			f = mkReport(id, 0x25, 3, []byte{0, 0xff}[r.Intn(2)], []byte{0, 0xff}[r.Intn(2)], 0)
		case 2:
			f = mkReport(id, 0x26, 3, []byte{0, 50, 50, 0xfe}[r.Intn(4)])
		case 3:
			f = mkReport(id, 0x26, 3, []byte{0, 50, 50}[r.Intn(3)], []byte{0, 50}[r.Intn(2)], 0)
		case 4:
			f = mkReport(id, 0x31, 5, []byte{1, 5}[r.Intn(2)], 0x01, []byte{0, 20, 21}[r.Intn(3)])
		case 5:
			f = mkReport(id, 0x71, 5, []byte{0, 7, 9}[r.Intn(3)], 1, 0, []byte{0, 0xff}[r.Intn(2)], 7, 1, 0)
		}
		before, at := count(id), w.Now()
		old := newRefState()
		for k, v := range ref[id].Bool {
			old.Bool[k] = v
		}
		for k, v := range ref[id].Float {
			old.Float[k] = v
		}
		w.Op.Port().Feed(f)
		time.Sleep(wait)
		rep := refDecode(f).Report
		changed := false
		if rep.Kind == "alarm" {
			if a, ok := alarm[id]; f[12] == 0xff && (!ok || at-a > 2*time.Second) {
				changed = true
				alarm[id] = at
			} else if f[12] == 0xff {
				alarm[id] = at
			}
		} else {
			changed = ref[id].apply(rep) && old.diff(ref[id]) != ""
		}
		if got := count(id) - before; changed && got == 0 {
			w.C.Violate("node %d: the report %x changed the state from %v %v, but no event followed", id, f, old.Bool, old.Float)
			return changes
		}
		if changed {
			changes++
		}
		if r.Intn(4) == 0 {
			time.Sleep(r.Dur(0, 3*time.Second))
		}
	}
	return changes
}
