package sim

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/stampzilla/gozwave/events"
	"github.com/stampzilla/gozwave/nodes"
)

func init() {
	register("P01", "networks of 0 to 12 nodes (some cases up to 231), made of a configuration with every kind of content or found, identified and updated by reports; saved, restored by another controller, compared member by member, used at once, saved again. Non-trivial when at least two nodes were compared that had command classes, endpoints or state", runP01)
	register("P03", "configuration files of 0 to 8 nodes that are valid, with members missing, null, repeated, unknown or of another type, with bytes changed, removed or added, truncated anywhere, empty, missing or a directory; then reports, control, discovery, listing, serialising and saving. Non-trivial when the file was not the valid one and the library was used afterwards", runP03)
	register("P04", "1 to 8 bursts of 1 to 60 updates, less than 10 s apart within a burst, with idle times of 11 s to an hour between the bursts; the file is looked at before and after every update and within 11 s after the last one of a burst; some cases have no configuration file and look for anything written. Non-trivial when at least one burst had several updates and its result was found in the file, or nothing was written without a file", runP04)
}

func randName(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0:
		return ""
	case 1:
		return "a \"quoted\"\\ name\n\twith <html> & more"
	case 2:
		return "Überwächter ☃ 雪 \u2028 \u0000 x"
	}
	const l = "abcdefghijklmnopqrstuvwxyz ABC-_/.0123456789"
	b := make([]byte, r.Intn(30))
	for i := range b {
		b[i] = l[r.Intn(len(l))]
	}
	return string(b)
}

func randClasses(r *rand.Rand) []confClass {
	var l []confClass
	for i := r.Intn(8); i > 0; i-- {
		l = append(l, confClass{ID: r.Intn(256), InNIF: r.Intn(2) == 0, Secure: r.Intn(2) == 0, NonSecu: r.Intn(2) == 0, Version: fmt.Sprint(r.Intn(9))})
	}
	if r.Intn(2) == 0 {
		l = append(l, confClass{ID: 0x25}, confClass{ID: 0x26})
	}
	return l
}

func randState(r *rand.Rand) (map[string]bool, map[string]float64) {
	b, f := map[string]bool{}, map[string]float64{}
	for i := r.Intn(4); i > 0; i-- {
		b[[]string{"on", "alarm", randName(r)}[r.Intn(3)]] = r.Intn(2) == 0
	}
	for i := r.Intn(5); i > 0; i-- {
		v := []float64{0, -1, 99, r.NormFloat64() * 1e6, 1e-7, math.MaxFloat64, float64(r.Intn(1<<31)) / 1000}[r.Intn(7)]
		f[[]string{"level", "alarmlasttype", "temperature_c", randName(r)}[r.Intn(4)]] = v
	}
	return b, f
}

func randConf(r *rand.Rand, ids []int) []confNode {
	var l []confNode
	for _, id := range ids {
		n := confNode{ID: id, Awake: r.Intn(2) == 0, Brand: randName(r), Product: randName(r), Desc: randName(r), Classes: randClasses(r)}
		n.Bool, n.Float = randState(r)
		if r.Intn(3) > 0 {
			n.Manu = map[string]interface{}{"Manufacturer": fmt.Sprintf("%04x", r.Intn(1<<16)), "Type": fmt.Sprintf("%04x", r.Intn(1<<16)), "ID": fmt.Sprintf("%04x", r.Intn(1<<16))}
		}
		if r.Intn(5) > 0 {
			n.Endpoints = []confEndpoint{}
			for i := r.Intn(6); i > 0; i-- {
				e := confEndpoint{ID: len(n.Endpoints) + 1, Classes: n.Classes}
				e.Bool, e.Float = randState(r)
				if r.Intn(8) == 0 { // never had any
					e.Bool, e.Float, e.Bare = nil, nil, true
				}
				n.Endpoints = append(n.Endpoints, e)
			}
		}
		l = append(l, n)
	}
	return l
}

// nodeView is what can be seen of a node.
type nodeView struct {
	ID                   int
	Awake                bool
	Manu                 string
	Brand, Product, Desc string
	Classes              string
	Bool                 map[string]bool
	Float                map[string]float64
	Endpoints            []nodeView
}

func viewOf(n *nodes.Node) (v nodeView) {
	n.RLock()
	defer n.RUnlock()
	v = nodeView{ID: n.Id, Awake: n.IsAwake, Manu: "none", Brand: n.Brand, Product: n.Product, Desc: n.Description, Bool: map[string]bool{}, Float: map[string]float64{}}
	if m := n.ManufacurerSpecific; m != nil {
		v.Manu = m.Manufacturer + " " + m.Type + " " + m.ID
	}
	var cl []string
	for _, x := range n.CommandClasses {
		cl = append(cl, fmt.Sprintf("%02x:%v:%v:%v:%s", byte(x.ID), x.InNIF, x.Secure, x.NonSecure, x.Version))
	}
	v.Classes = strings.Join(cl, " ")
	for k, x := range n.StateBool {
		v.Bool[k] = x
	}
	for k, x := range n.StateFloat {
		v.Float[k] = x
	}
	for _, e := range n.Endpoints {
		w := nodeView{ID: e.Id, Bool: map[string]bool{}, Float: map[string]float64{}}
		var cl []string
		for _, x := range e.CommandClasses {
			cl = append(cl, fmt.Sprintf("%02x:%v:%v:%v:%s", byte(x.ID), x.InNIF, x.Secure, x.NonSecure, x.Version))
		}
		w.Classes = strings.Join(cl, " ")
		for k, x := range e.StateBool {
			w.Bool[k] = x
		}
		for k, x := range e.StateFloat {
			w.Float[k] = x
		}
		v.Endpoints = append(v.Endpoints, w)
	}
	return
}

func viewOfConf(n confNode) (v nodeView) {
	v = nodeView{ID: n.ID, Awake: n.Awake, Manu: "none", Brand: n.Brand, Product: n.Product, Desc: n.Desc, Bool: map[string]bool{}, Float: map[string]float64{}}
	if m := n.Manu; m != nil {
		v.Manu = fmt.Sprintf("%s %s %s", m["Manufacturer"], m["Type"], m["ID"])
	}
	cls := func(l []confClass) string {
		var cl []string
		for _, x := range l {
			cl = append(cl, fmt.Sprintf("%02x:%v:%v:%v:%s", x.ID, x.InNIF, x.Secure, x.NonSecu, x.Version))
		}
		return strings.Join(cl, " ")
	}
	v.Classes = cls(n.Classes)
	for k, x := range n.Bool {
		v.Bool[k] = x
	}
	for k, x := range n.Float {
		v.Float[k] = x
	}
	for _, e := range n.Endpoints {
		w := nodeView{ID: e.ID, Bool: map[string]bool{}, Float: map[string]float64{}, Classes: cls(e.Classes)}
		for k, x := range e.Bool {
			w.Bool[k] = x
		}
		for k, x := range e.Float {
			w.Float[k] = x
		}
		v.Endpoints = append(v.Endpoints, w)
	}
	return
}

func (w *World) views() map[int]nodeView {
	r := map[int]nodeView{}
	if !w.Within(time.Minute, func() {
		for id, n := range w.Ctl.Nodes.All() {
			v := viewOf(n)
			if v.ID != id {
				v.Brand += fmt.Sprintf(" (listed as %d)", id)
			}
			r[id] = v
		}
	}) {
		w.C.Violate("listing the nodes blocks")
	}
	return r
}

// diffViews describes the first differences.
func diffViews(want, got map[int]nodeView) []string {
	var d []string
	var ids []int
	for id := range want {
		ids = append(ids, id)
	}
	for id := range got {
		if _, ok := want[id]; !ok {
			d = append(d, fmt.Sprintf("node %d should not exist", id))
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		g, ok := got[id]
		if !ok {
			d = append(d, fmt.Sprintf("node %d is missing", id))
		} else if !reflect.DeepEqual(want[id], g) {
			d = append(d, fmt.Sprintf("node %d is %+v, should be %+v", id, g, want[id]))
		}
	}
	if len(d) > 3 {
		d = d[:3]
	}
	return d
}

// fileNodes reads the nodes in a configuration file, the way any JSON reader would.
func fileNodes(b []byte) (map[string]interface{}, error) {
	var f map[string]interface{}
	if err := json.Unmarshal(b, &f); err != nil {
		return nil, err
	}
	n, ok := f["Nodes"].(map[string]interface{})
	if !ok {
		return nil, fmt.Errorf("no nodes in the file")
	}
	return n, nil
}

func runP01(c *Case) {
	c.Bubble(func() {
		w := NewWorld(c)
		r := newRand(c)
		b := newBot(w, r)
		w.Op.Handle = b.Handle
		n := c.R.Intn(13)
		if c.R.Intn(20) == 0 {
			n = 100 + c.R.Intn(132)
		}
		big := c.R.Intn(600) == 0 || c.Index == 7 // a file of many megabytes
		if big {
			n = 231
		}
		all := distinctIDs(c.R, 231)
		ids := all[:n]
		conf := randConf(c.R, ids)
		for i := range conf {
			for big && len(conf[i].Endpoints) < 20 {
				e := confEndpoint{ID: len(conf[i].Endpoints) + 1, Classes: conf[i].Classes}
				e.Bool, e.Float = randState(c.R)
				conf[i].Endpoints = append(conf[i].Endpoints, e)
			}
		}
		file := c.confFile(conf)
		live := c.R.Intn(2) == 0
		if live { // other nodes are found and identified
			for _, id := range all[n:min(231, n+c.R.Intn(6))] {
				b.Nodes[id] = randDevice(c.R, id)
				b.Nodes[id].Listening = true
				b.List = append(b.List, id)
			}
		}
		if err := w.Connect(file); err != nil {
			c.Violate("connect failed: %v", err)
			return
		}
		w.DrainEvents(nil)
		// what is restored from a file is what the file says
		want := map[int]nodeView{}
		for _, x := range conf {
			want[x.ID] = viewOfConf(x)
		}
		for _, d := range diffViews(want, w.views()) {
			c.Violate("restored: %s", d)
		}
		if live {
			time.Sleep(20 * time.Second)
			for i := c.R.Intn(40); i > 0; i-- {
				id := all[c.R.Intn(min(231, n+6))]
				switch c.R.Intn(3) {
				case 0:
					w.Op.Port().Feed(mkReport(id, 0x25, 3, byte(c.R.Intn(2)*255)))
				case 1:
					w.Op.Port().Feed(mkReport(id, 0x26, 3, byte(c.R.Intn(100))))
				case 2:
					w.Op.Port().Feed(mkReport(id, 0x31, 5, byte(c.R.Intn(256)), byte(0x22+8*c.R.Intn(3)), byte(c.R.Intn(256)), byte(c.R.Intn(256))))
				}
			}
			time.Sleep(time.Second)
		}
		before := w.views()
		if err := w.Ctl.SaveConfigurationToFile(); err != nil {
			c.Violate("saving failed: %v", err)
			return
		}
		saved, err := os.ReadFile(file)
		if err != nil {
			c.Violate("the saved file can not be read: %v", err)
			return
		}
		// restore from a copy, the first controller might save again
		file2 := c.tempFile("restored.json")
		os.WriteFile(file2, saved, 0644)
		w2 := NewWorld(c)
		b2 := newBot(w2, r)
		w2.Op.Handle = b2.Handle
		if err := w2.Connect(file2); err != nil {
			c.Violate("connect failed: %v", err)
			return
		}
		w2.DrainEvents(nil)
		for _, d := range diffViews(before, w2.views()) {
			c.Violate("after restoring: %s", d)
		}
		// saved again without a change
		file3 := c.tempFile("again.json")
		os.WriteFile(file3, saved, 0644)
		w3 := NewWorld(c)
		w3.Op.Handle = newBot(w3, r).Handle
		if err := w3.Connect(file3); err != nil {
			c.Violate("connect failed: %v", err)
			return
		}
		w3.DrainEvents(nil)
		os.Remove(file3)
		if err := w3.Ctl.SaveConfigurationToFile(); err != nil {
			c.Violate("saving again failed: %v", err)
		}
		again, err := os.ReadFile(file3)
		if err != nil {
			c.Violate("the file that was saved again can not be read: %v", err)
			return
		}
		n1, e1 := fileNodes(saved)
		n2, e2 := fileNodes(again)
		if e1 != nil || e2 != nil || !reflect.DeepEqual(n1, n2) {
			c.Violate("saving again without changes gave another file (%v, %v): %.300s instead of %.300s", e1, e2, again, saved)
		}
		// a file that somebody else has damaged or removed is written again, although nothing has changed
		for i := 0; i < 3; i++ {
			switch c.R.Intn(4) {
			case 0:
				os.Remove(file3)
			case 1:
				os.WriteFile(file3, again[:c.R.Intn(len(again))], 0644)
			case 2:
				os.WriteFile(file3, confJSON(plainNodes(2+c.R.Intn(200))), 0644)
			}
			if err := w3.Ctl.SaveConfigurationToFile(); err != nil {
				c.Violate("saving again failed: %v", err)
			}
			b, _ := os.ReadFile(file3)
			if n3, e3 := fileNodes(b); e3 != nil || !reflect.DeepEqual(n1, n3) {
				c.Violate("saving after the file was damaged gave another file (%v): %.300s instead of %.300s", e3, b, saved)
			}
		}
		// restored nodes work at once
		rich, controlled := 0, 0
		type use struct {
			name string
			f    func()
			want []byte
		}
		var uses []use
		for id, v := range before {
			if v.Classes != "" || len(v.Endpoints) > 0 || len(v.Bool)+len(v.Float) > 0 {
				rich++
			}
			node := w2.Node(id)
			if node == nil || len(uses) > 20 {
				continue
			}
			var in []byte
			cl := " " + v.Classes
			if strings.Contains(cl, " 25:") {
				in = []byte{0x25, 1, 0xff}
			} else if strings.Contains(cl, " 26:") {
				in = []byte{0x26, 1, 99}
			} else {
				continue
			}
			uses = append(uses, use{fmt.Sprintf("node %d on", id), node.On, append(append([]byte{0x13, byte(id), 3}, in...), 0x25)})
			if len(v.Endpoints) > 0 {
				e := 1 + c.R.Intn(len(v.Endpoints))
				uses = append(uses, use{fmt.Sprintf("endpoint %d of node %d on", e, id), func() { node.Endpoint(e).On() }, append(append([]byte{0x13, byte(id), 7, 0x60, 0x0d, 1, byte(e)}, in...), 0x25)})
			}
		}
		for _, u := range uses {
			at := len(w2.Op.Commands())
			var p string
			if !w2.Within(time.Minute, func() { p = try(u.f) }) || p != "" {
				c.Violate("%s, after restoring: failed (%s)", u.name, p)
				return
			}
			time.Sleep(200 * time.Millisecond)
			ok := false
			for _, f := range w2.Op.Commands()[at:] {
				ok = ok || string(f.Payload()) == string(u.want)
			}
			if !ok {
				c.Violate("%s, after restoring: %x was not transmitted", u.name, u.want)
			}
			controlled++
		}
		for id := range before {
			w2.Op.Port().Feed(mkReport(id, 0x31, 5, 201, 1, byte(id)))
		}
		time.Sleep(100 * time.Millisecond)
		for id, v := range w2.views() {
			if v.Float["unknown (201)_"] != float64(int8(id)) {
				c.Violate("a report of the restored node %d was not applied", id)
			}
			for k, x := range before[id].Float {
				if v.Float[k] != x && k != "unknown (201)_" {
					c.Violate("a report of the restored node %d changed %s", id, k)
				}
			}
		}
		// the endpoints have no reports of their own, it is the user who keeps their state
		for id := range before {
			node := w2.Node(id)
			if node == nil {
				continue
			}
			node.Lock()
			for i, e := range node.Endpoints {
				if p := try(func() { e.StateBool["on"], e.StateFloat["level"] = true, float64(i) }); p != "" {
					c.Violate("the state of endpoint %d of the restored node %d can not be updated: %s", i+1, id, p)
				}
			}
			node.Unlock()
		}
		c.Count("nodes", len(before))
		c.Count("controlled_after_restore", controlled)
		c.Count("file_bytes", len(saved))
		c.Mark(string(saved))
		c.Sample(fmt.Sprintf("%d nodes, %d of them live, %d bytes", len(before), len(b.List), len(saved)))
		if rich >= 2 {
			c.Nontrivial()
		}
	})
}

// breakJSON changes any value somewhere in the tree. It returns what it did.
func breakJSON(r *rand.Rand, v interface{}, depth int) (interface{}, string) {
	odd := func() (interface{}, string) {
		switch r.Intn(9) {
		case 0:
			return nil, "null"
		case 1:
			return "x", "string"
		case 2:
			return float64(r.Intn(1000) - 500), "number"
		case 3:
			return true, "bool"
		case 4:
			return []interface{}{}, "empty list"
		case 5:
			return map[string]interface{}{}, "empty object"
		case 6:
			return []interface{}{nil, nil}, "list of null"
		case 7:
			return map[string]interface{}{"1": nil}, "object of null"
		}
		return 1e300, "huge number"
	}
	switch x := v.(type) {
	case map[string]interface{}:
		if len(x) > 0 && (depth < 2 || r.Intn(4) > 0) {
			var keys []string
			for k := range x {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			k := keys[r.Intn(len(keys))]
			switch r.Intn(8) {
			case 0:
				delete(x, k)
				return x, "without " + k
			case 1:
				x[k+"x"] = x[k]
				return x, "with unknown " + k + "x"
			case 2:
				x[k] = nil
				return x, k + " null"
			}
			w, d := breakJSON(r, x[k], depth+1)
			x[k] = w
			return x, k + ": " + d
		}
	case []interface{}:
		if len(x) > 0 && r.Intn(4) > 0 {
			i := r.Intn(len(x))
			if r.Intn(4) == 0 {
				x[i] = nil
				return x, fmt.Sprintf("[%d] null", i)
			}
			w, d := breakJSON(r, x[i], depth+1)
			x[i] = w
			return x, fmt.Sprintf("[%d] %s", i, d)
		}
	}
	return odd()
}

func runP03(c *Case) {
	c.Bubble(func() {
		w := NewWorld(c)
		r := newRand(c)
		b := newBot(w, r)
		w.Op.Handle = b.Handle
		n := c.R.Intn(9)
		all := distinctIDs(c.R, 231)
		ids := all[:n]
		conf := randConf(c.R, ids)
		for i := range conf {
			if c.R.Intn(2) == 0 {
				conf[i].Classes = append(conf[i].Classes, confClass{ID: 0x25}, confClass{ID: 0x26})
			}
		}
		data := confJSON(conf)
		file := c.tempFile("conf.json")
		kind := c.R.Intn(10)
		what := ""
		must := map[int]bool{} // nodes that have to be restored
		write := true
		switch kind {
		case 0:
			what = "valid"
			for _, id := range ids {
				must[id] = true
			}
		case 1: // missing or null members, of a well-formed file
			var f map[string]interface{}
			json.Unmarshal(data, &f)
			ns := f["Nodes"].(map[string]interface{})
			for _, id := range ids {
				must[id] = true
				key := fmt.Sprint(id)
				m := ns[key].(map[string]interface{})
				for k := range m {
					if k == "id" {
						continue
					}
					switch c.R.Intn(5) {
					case 0:
						delete(m, k)
					case 1:
						m[k] = nil
					}
				}
				if l, ok := m["CommandClasses"].([]interface{}); ok && len(l) > 0 && c.R.Intn(3) == 0 {
					l[c.R.Intn(len(l))] = nil
				}
				if l, ok := m["Endpoints"].([]interface{}); ok {
					for i := range l {
						e := l[i].(map[string]interface{})
						for k := range e {
							switch c.R.Intn(6) {
							case 0:
								delete(e, k)
							case 1:
								e[k] = nil
							}
						}
						if c.R.Intn(4) == 0 {
							l[i] = nil
						}
					}
				}
				if c.R.Intn(8) == 0 {
					m["future"] = []interface{}{1.0, "x", nil}
				}
				if c.R.Intn(8) == 0 {
					ns[key] = nil
					delete(must, id)
				}
			}
			if c.R.Intn(6) == 0 {
				f["Version"] = 2.0
			}
			if c.R.Intn(4) == 0 { // an entry says itself which node it is
				for _, id := range ids {
					key := fmt.Sprint(id)
					if m := ns[key]; m != nil && c.R.Intn(3) == 0 {
						delete(ns, key)
						ns[[]string{"x" + key, fmt.Sprintf("%03d.", id), key + "000", "node " + key}[c.R.Intn(4)]] = m
					}
				}
			}
			data, _ = json.Marshal(f)
			what = "members missing or null"
		case 2, 3, 4:
			var f interface{}
			json.Unmarshal(data, &f)
			for i := 1 + c.R.Intn(3); i > 0; i-- {
				var d string
				f, d = breakJSON(c.R, f, 0)
				what += d + "; "
			}
			data, _ = json.Marshal(f)
		case 5:
			data = data[:c.R.Intn(len(data)+1)]
			what = fmt.Sprintf("truncated to %d bytes", len(data))
		case 6:
			for i := 1 + c.R.Intn(4); i > 0 && len(data) > 0; i-- {
				at := c.R.Intn(len(data))
				switch c.R.Intn(3) {
				case 0:
					data[at] ^= byte(1 << uint(c.R.Intn(8)))
				case 1:
					data = append(data[:at:at], data[at+1:]...)
				case 2:
					data = append(data[:at:at], append([]byte{byte(c.R.Intn(256))}, data[at:]...)...)
				}
			}
			what = "bytes changed"
		case 7:
			data = []byte([]string{"", " ", "null", "[]", "{}", "0", "\"x\"", "true", "{\"Nodes\":null}", "{\"Nodes\":{}}", "{\"Nodes\":[]}", "{\"Nodes\":{\"5\":null}}", "{\"Nodes\":{\"5\":{}}}",
				"{\"nodes\":{\"5\":{\"ID\":5}}}", "{\"Nodes\":{\"5\":{\"id\":7}}}", "{\"Nodes\":{\"5\":{\"id\":-7,\"Endpoints\":[{}]}}}", "{\"Nodes\":{\"a\":{\"id\":5,\"Endpoints\":[null,{}]}, \"a\":{\"id\":6}}}", "\x00\x00\x00", "{\"Nodes\":{\"5\":{\"id\":5}}} trailing",
				"{\"Nodes\":{\"5\":{\"id\":1000000,\"CommandClasses\":[null,{\"ID\":37}],\"Endpoints\":[{\"Id\":-5}]}}}"}[c.R.Intn(20)])
			what = string(data)
		case 8:
			write = false
			what = "no file"
		case 9:
			write = false
			os.Mkdir(file, 0755)
			what = "a directory"
			if c.R.Intn(2) == 0 {
				os.Remove(file)
				file = filepath.Join(file, "missing", "conf.json")
				what = "no directory"
			}
		}
		if write {
			os.WriteFile(file, data, 0644)
		}
		found := append([]int{}, all[:min(231, n+3)]...)
		for _, id := range found {
			b.Nodes[id] = randDevice(c.R, id)
		}
		if c.R.Intn(3) > 0 {
			b.List = found
		}
		b.ListLate = 300 * time.Millisecond
		if err := w.Connect(file); err != nil {
			c.Violate("connecting with a configuration file that is damaged (%s) fails: %v", what, err)
			return
		}
		w.DrainEvents(nil)
		var got map[int]*nodes.Node
		if !w.Within(time.Minute, func() { got = w.Ctl.Nodes.All() }) {
			c.Violate("listing blocks (%s)", what)
			return
		}
		for id := range must {
			if got[id] == nil {
				c.Violate("node %d of a well-formed file (%s) was not restored", id, what)
			}
		}
		restored := len(got)
		actions := 0
		use := func(name string, f func()) bool {
			actions++
			var p string
			if !w.Within(10*time.Minute, func() { p = try(f) }) {
				c.Violate("%s blocks (%s)", name, what)
				return false
			}
			if p != "" {
				c.Violate("%s crashes (%s): %s", name, what, p)
				return false
			}
			return true
		}
		stop := make(chan struct{})
		b.wakeLoop(stop, time.Second, 9*time.Second)
		for round := 0; round < 2; round++ {
			for id := range w.Ctl.Nodes.All() {
				for _, f := range [][]byte{mkReport(id, 0x25, 3, 0xff), mkReport(id, 0x26, 3, 5, 6, 7), mkReport(id, 0x31, 5, 1, 0x22, 1, 2), mkReport(id, 0x71, 5, 1, 2, 3, 0xff, 5, 6), mkReport(id, 0x84, 7), mkReport(id, 0x72, 5, 1, 2, 3, 4, 5, 6), mkReport(id, 0x60, 8, 0, 3)} {
					w.Op.Port().Feed(f)
				}
			}
			time.Sleep(100 * time.Millisecond)
			for id := range w.Ctl.Nodes.All() {
				node := w.Node(id)
				if node == nil {
					c.Violate("listed node %d can not be looked up (%s)", id, what)
					return
				}
				if len(b.List) == 0 || round == 0 {
					if !use("control", func() { node.On(); node.Off(); node.Level(50); node.HasCommand(0x25) }) {
						return
					}
				}
				if !use("control of endpoints", func() {
					for i := -1; i < 8; i++ {
						if e := node.Endpoint(i); e != nil {
							e.On()
							e.Off()
							e.Level(10)
						}
					}
				}) || !use("looking at a node", func() { viewOf(node); node.GetID(); node.ProtocolInfo(); node.IsDeviceClass(1, 2) }) {
					return
				}
			}
			if !use("serialising", func() { json.Marshal(w.Ctl.Nodes) }) {
				return
			}
			time.Sleep(20 * time.Second)
			if !use("saving", func() { w.Ctl.SaveConfigurationToFile() }) {
				return
			}
		}
		close(stop)
		for _, id := range b.List {
			if w.Node(id) == nil {
				c.Violate("node %d was not found after starting with a damaged file (%s)", id, what)
			}
		}
		for id := range must {
			if len(b.List) > 0 {
				break
			}
			if s := stateOf(w.Node(id)); !s.Bool["on"] || s.Float["level"] != 5 {
				c.Violate("reports of the restored node %d are not applied (%s)", id, what)
			}
		}
		c.Count("kind_"+[]string{"valid", "members", "types", "types", "types", "truncated", "bytes", "special", "missing", "directory"}[kind], 1)
		c.Count("restored", restored)
		c.Count("actions", actions)
		c.Mark(what, string(data))
		c.Sample(fmt.Sprintf("%s: %d restored, %d active, %d actions", what, restored, len(b.List), actions))
		if kind > 0 && (actions > 0) {
			c.Nontrivial()
		}
	})
}

func runP04(c *Case) {
	c.Bubble(func() {
		w := NewWorld(c)
		r := newRand(c)
		b := newBot(w, r)
		w.Op.Handle = b.Handle
		ids := distinctIDs(c.R, 1+c.R.Intn(4))
		if c.R.Intn(8) == 0 { // no file at all
			d := filepath.Dir(c.tempFile("x"))
			cwd, _ := os.Getwd()
			os.Chdir(d)
			long := time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)
			os.Chtimes(d, long, long)
			defer os.Chdir(cwd)
			tmp := os.Getenv("TMPDIR")
			os.Setenv("TMPDIR", d)
			defer os.Setenv("TMPDIR", tmp)
			for _, id := range ids {
				b.Nodes[id] = randDevice(c.R, id)
				b.Nodes[id].Listening = true
			}
			b.List = ids
			if err := w.Connect(""); err != nil {
				c.Violate("connect failed: %v", err)
				return
			}
			w.DrainEvents(nil)
			time.Sleep(30 * time.Second)
			ups := 0
			for i := 0; i < 5; i++ {
				for _, id := range ids {
					w.Op.Port().Feed(mkReport(id, 0x25, 3, byte(i%2)*255))
					ups++
				}
				time.Sleep(r.Dur(time.Second, time.Minute))
			}
			if err := w.Ctl.SaveConfigurationToFile(); err == nil {
				c.Violate("saving without a configuration file reports success")
			}
			if st, err := os.Stat(d); err == nil && !st.ModTime().Equal(long) {
				c.Violate("without a configuration file something was written for a moment")
			}
			es, _ := os.ReadDir(d)
			for _, e := range es {
				c.Violate("without a configuration file %s was written", e.Name())
			}
			c.Count("updates_without_file", ups)
			c.Mark("none", ids)
			c.Sample("no configuration file")
			c.Nontrivial()
			return
		}
		dir := filepath.Join(filepath.Dir(c.tempFile("x")), "dir")
		os.Mkdir(dir, 0755)
		file := filepath.Join(dir, "conf.json")
		unread := c.Index%3 == 0 // nobody reads the events
		if unread || c.R.Intn(3) > 0 {
			conf := plainNodes(ids...)
			if c.R.Intn(2) == 0 {
				conf = randConf(c.R, ids)
			}
			os.WriteFile(file, confJSON(conf), 0644)
		} else { // found and identified
			for _, id := range ids {
				b.Nodes[id] = randDevice(c.R, id)
				b.Nodes[id].Listening = true
				b.Nodes[id].Endpoints = 0
			}
			b.List = ids
		}
		if err := w.Connect(file); err != nil {
			c.Violate("connect failed: %v", err)
			return
		}
		if !unread {
			w.DrainEvents(nil)
		}
		content := func() string { x, _ := os.ReadFile(file); return string(x) }
		lastUpdate := func() time.Duration {
			t := time.Duration(-1)
			for _, e := range w.EventLog() {
				if _, ok := e.Ev.(events.NodeUpdated); ok {
					t = e.T
				}
			}
			return t
		}
		check := func(when string) {
			x := content()
			n, err := fileNodes([]byte(x))
			if err != nil {
				c.Violate("%s: the configuration file is no complete one: %v", when, err)
				return
			}
			for id, v := range w.views() {
				m, ok := n[fmt.Sprint(id)].(map[string]interface{})
				if !ok {
					c.Violate("%s: node %d is missing in the file", when, id)
					continue
				}
				fl, _ := m["StateFloat"].(map[string]interface{})
				bo, _ := m["StateBool"].(map[string]interface{})
				for k, f := range v.Float {
					if y, ok := fl[k].(float64); !ok || y != f {
						c.Violate("%s: the file has %s = %v for node %d, it is %v", when, k, fl[k], id, f)
					}
				}
				for k, f := range v.Bool {
					if y, ok := bo[k].(bool); !ok || y != f {
						c.Violate("%s: the file has %s = %v for node %d, it is %v", when, k, bo[k], id, f)
					}
				}
				if len(fl) != len(v.Float) || len(bo) != len(v.Bool) || m["Brand"] != v.Brand {
					c.Violate("%s: the file has another state or brand for node %d", when, id)
				}
			}
			if len(n) != len(w.views()) {
				c.Violate("%s: the file has %d nodes", when, len(n))
			}
		}
		stored, postponed, several, damaged, away, meanwhile := 0, 0, 0, 0, 0, 0
		if b.List != nil {
			time.Sleep(5 * time.Second)
			t := lastUpdate()
			for t >= 0 && w.Now() < t+11*time.Second {
				time.Sleep(t + 11*time.Second - w.Now())
				t = lastUpdate()
			}
			if t >= 0 {
				check("after identification")
				stored++
			}
		}
		bursts := 1 + c.R.Intn(8)
		many := c.R.Intn(60) == 0
		if many {
			bursts = 30 + c.R.Intn(120)
		}
		k := 0
		for i := 0; i < bursts && !c.violated(); i++ {
			old := content()
			ups := []int{1, 2, 5, 60}[c.R.Intn(4)]
			if ups > 1 {
				ups = 1 + c.R.Intn(ups)
				several++
			}
			quick := c.R.Intn(3) == 0
			repeat := false
			if i > 0 {
				switch c.R.Intn(6) {
				case 0: // somebody else has removed or damaged the file
					repeat = c.R.Intn(2) == 0
					if c.R.Intn(2) == 0 {
						os.Remove(file)
					} else {
						os.WriteFile(file, []byte(old[:c.R.Intn(len(old)+1)]), 0644)
					}
					old = content()
					damaged++
				case 1: // the file can not be written for a while
					repeat = c.R.Intn(2) == 0
					os.Rename(dir, dir+".away")
					k++
					w.Op.Port().Feed(mkReport(ids[0], 0x31, 5, 77, 2, byte(k>>8), byte(k)))
					time.Sleep(r.Dur(11*time.Second, time.Minute))
					os.RemoveAll(dir)
					if err := os.Rename(dir+".away", dir); err != nil {
						c.Inconclusive("rename: %v", err)
						return
					}
					away++
				}
			}
			for j := 0; j < ups; j++ {
				if j > 0 {
					switch {
					case quick:
						time.Sleep(r.Dur(0+1, 10*time.Millisecond))
					case c.R.Intn(3) == 0:
						time.Sleep(r.Dur(9*time.Second, 9900*time.Millisecond))
					default:
						time.Sleep(r.Dur(1, 9*time.Second))
					}
					if content() != old {
						c.Violate("the file was written during a burst of updates (after update %d of %d)", j, ups)
						break
					}
					postponed++
				}
				if !repeat { // otherwise the same value as the last time
					k++
				}
				id := ids[c.R.Intn(len(ids))]
				f := mkReport(id, 0x31, 5, 77, 2, byte(k>>8), byte(k))
				for m := c.R.Intn(3) * c.R.Intn(10); m > 0; m-- {
					f = append(f, mkReport(id, 0x25, 3, byte(c.R.Intn(2)*255))...)
				}
				w.Op.Port().Feed(f)
			}
			for n := c.R.Intn(3) * c.R.Intn(3); n > 0; n-- { // more of them at the very moment when it is saved
				time.Sleep(10 * time.Second)
				for m := 1 + c.R.Intn(4); m > 0; m-- {
					var f []byte
					for l := 1 + c.R.Intn(30); l > 0; l-- {
						k++
						f = append(f, mkReport(ids[c.R.Intn(len(ids))], 0x31, 5, 77, 2, byte(k>>8), byte(k))...)
					}
					w.Op.Port().Feed(f)
				}
				meanwhile++
				if !w.Within(time.Minute, func() { w.views() }) {
					c.Violate("nothing gets anywhere after updates that came while the file was saved")
					return
				}
			}
			time.Sleep(5 * time.Millisecond)
			t := w.Now()
			time.Sleep(t + 11*time.Second - 10*time.Millisecond - w.Now())
			check(fmt.Sprintf("11 s after burst %d of %d updates", i, ups))
			stored++
			if idle := []time.Duration{time.Millisecond, 5 * time.Second, time.Minute, time.Hour, 24 * time.Hour, 300 * time.Hour}[c.R.Intn(6)]; !many || idle < time.Hour {
				time.Sleep(idle)
			}
			check("later")
		}
		c.Count("bursts_found_in_file", stored)
		c.Count("updates", k)
		c.Count("damaged_by_others", damaged)
		c.Count("not_writable_for_a_while", away)
		c.Count("postponed", postponed)
		c.Count("updates_while_saving", meanwhile)
		c.Mark(k, bursts, postponed, w.Now())
		c.Sample(fmt.Sprintf("%d bursts, %d updates, %d times postponed", bursts, k, postponed))
		if stored > 0 && several > 0 {
			c.Nontrivial()
		}
	})
}
