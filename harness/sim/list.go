package sim

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/nodes"
)

func init() {
	register("N06", "3 to 6 goroutines, each with 8 to 25 additions, lookups, listings and serialisations of a node list with up to 5 ids (the list of a controller that receives reports, or one of its own), at the same or different times, while others hold locks of nodes, change the maps they got and apply reports; the history of calls and results is checked for linearizability. Non-trivial when operations overlapped in time and an addition was seen by another goroutine", runN06)
}

type listIn struct {
	Op  string // add, get, all, json
	ID  int
	Tag string
}

// listModel is the sequential node list: the state is the sorted content.
var listModel = porcupine.Model{
	Init: func() interface{} { return "" },
	Step: func(state, in, out interface{}) (bool, interface{}) {
		m := listParse(state.(string))
		i := in.(listIn)
		switch i.Op {
		case "add":
			m[i.ID] = i.Tag
			return true, listState(m)
		case "get":
			return m[i.ID] == out.(string), state
		default:
			return state.(string) == out.(string), state
		}
	},
	Equal: func(a, b interface{}) bool { return a.(string) == b.(string) },
	DescribeOperation: func(in, out interface{}) string {
		return fmt.Sprintf("%v -> %v", in, out)
	},
}

func listParse(s string) map[int]string {
	m := map[int]string{}
	for _, e := range strings.Fields(s) {
		var id int
		var tag string
		fmt.Sscanf(strings.Replace(e, "=", " ", 1), "%d %s", &id, &tag)
		m[id] = tag
	}
	return m
}

func listState(m map[int]string) string {
	var l []string
	for id, t := range m {
		l = append(l, fmt.Sprintf("%03d=%s", id, t))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func runN06(c *Case) {
	var ops []porcupine.Operation
	seenOverlap, finished := false, false
	c.Bubble(func() {
		r := newRand(c)
		w := NewWorld(c)
		var list *nodes.List
		own := c.R.Intn(2) == 0
		if own {
			list = nodes.NewList()
		} else {
			b := newBot(w, r)
			b.NoList = true
			w.Op.Handle = b.Handle
			if err := w.Connect(""); err != nil {
				c.Violate("connect failed: %v", err)
				return
			}
			w.DrainEvents(nil)
			list = w.Ctl.Nodes
		}
		nid := 1 + c.R.Intn(5)
		ids := distinctIDs(c.R, nid)
		clients := 3 + c.R.Intn(4)
		nops := 8 + c.R.Intn(18)
		spread := []int{1, 3, 40}[c.R.Intn(3)] // how many instants the operations are spread over
		sleepy := c.R.Intn(2) == 0
		var clock int64
		tick := func() int64 {
			if raceEnabled { // would synchronise the goroutines that are observed
				return 0
			}
			return atomic.AddInt64(&clock, 1)
		}
		var mu sync.Mutex
		var current []*nodes.Node // all nodes that were added
		add := func(cl int, in listIn, out string, t0, t1 int64) {
			mu.Lock()
			defer mu.Unlock()
			ops = append(ops, porcupine.Operation{ClientId: cl, Input: in, Output: out, Call: t0, Return: t1})
		}
		tagOf := func(n *nodes.Node) string {
			if n == nil {
				return ""
			}
			n.RLock()
			defer n.RUnlock()
			return n.Brand
		}
		content := func(m map[int]*nodes.Node) string {
			x := map[int]string{}
			for id, n := range m {
				x[id] = tagOf(n)
				if n != nil && n.Id != id {
					x[id] = fmt.Sprintf("node_%d!", n.Id)
				}
			}
			return listState(x)
		}
		newNode := func(id int, tag string) *nodes.Node {
			n := nodes.New(id)
			n.Setup(nil, func(interface{}) {})
			n.Brand = tag
			n.StateFloat["x"] = float64(len(tag))
			return n
		}
		var wg, helpers sync.WaitGroup
		stop := make(chan struct{})
		for cl := 0; cl < clients; cl++ {
			cl := cl
			wg.Add(1)
			go func() {
				defer wg.Done()
				var held []map[int]*nodes.Node
				var heldWas []string
				for i := 0; i < nops; i++ {
					if sleepy && r.Intn(2) == 0 || i == 0 {
						time.Sleep(time.Duration(1+r.Intn(spread)) * time.Microsecond)
					}
					jitter(r.Intn(128))
					switch k := r.Intn(10); {
					case k < 3:
						id := ids[r.Intn(nid)]
						in := listIn{"add", id, fmt.Sprintf("t%d.%d", cl, i)}
						n := newNode(id, in.Tag)
						t0 := tick()
						list.Add(n)
						t1 := tick()
						add(cl, in, "", t0, t1)
						mu.Lock()
						current = append(current, n)
						mu.Unlock()
					case k < 6:
						id := ids[r.Intn(nid)]
						t0 := tick()
						n := list.Get(id)
						t1 := tick()
						add(cl, listIn{"get", id, ""}, tagOf(n), t0, t1)
					case k < 8:
						t0 := tick()
						m := list.All()
						t1 := tick()
						s := content(m)
						add(cl, listIn{"all", 0, ""}, s, t0, t1)
						if r.Intn(2) == 0 { // it belongs to the caller
							for id := range m {
								delete(m, id)
								break
							}
							m[ids[r.Intn(nid)]] = newNode(250, "foreign")
							m[249] = nil
						} else {
							held = append(held, m)
							heldWas = append(heldWas, s)
						}
					default:
						t0 := tick()
						b, err := json.Marshal(list)
						t1 := tick()
						if err != nil {
							c.Violate("serialising the list failed: %v", err)
							return
						}
						var d map[string]struct {
							ID    int `json:"id"`
							Brand string
						}
						if err := json.Unmarshal(b, &d); err != nil {
							c.Violate("the serialised list is no JSON: %v", err)
							return
						}
						x := map[int]string{}
						for key, n := range d {
							x[n.ID] = n.Brand
							if key != fmt.Sprint(n.ID) {
								x[n.ID] = "key_" + key
							}
						}
						add(cl, listIn{"json", 0, ""}, listState(x), t0, t1)
					}
				}
				for i, m := range held {
					if s := content(m); s != heldWas[i] {
						c.Violate("a listing changed after it was returned: %q became %q", heldWas[i], s)
					}
				}
			}()
		}
		for h := 0; h < 3; h++ {
			h := h
			helpers.Add(1)
			go func() {
				defer helpers.Done()
				for k := 0; ; k++ {
					d := time.Duration(1+r.Intn(10)) * time.Microsecond
					if k > 2000 { // something is stuck
						d = time.Second
					}
					select {
					case <-stop:
						return
					case <-time.After(d):
					}
					mu.Lock()
					var n *nodes.Node
					if len(current) > 0 {
						n = current[r.Intn(len(current))]
					}
					mu.Unlock()
					switch {
					case n == nil:
					case h == 0: // a user that looks at a node, and at others meanwhile
						n.Lock()
						n.StateFloat["y"]++
						time.Sleep(time.Duration(r.Intn(5)) * time.Microsecond)
						list.Get(ids[r.Intn(nid)])
						n.Unlock()
					case h == 1:
						n.RLock()
						list.All()
						_ = len(n.StateFloat)
						time.Sleep(time.Duration(r.Intn(5)) * time.Microsecond)
						list.Get(ids[r.Intn(nid)])
						n.RUnlock()
					case own:
						n.ProcessEvent(&reports.SensorMultiLevel{TypeString: "a", Unit: "b", Value: float64(r.Intn(9))})
					default:
						w.Op.Port().Feed(mkReport(ids[r.Intn(nid)], 0x31, 5, byte(r.Intn(256)), 1, 5))
					}
				}
			}()
		}
		if !w.Within(time.Minute, wg.Wait) {
			c.Violate("operations of the node list block forever")
			return
		}
		close(stop)
		if !w.Within(time.Minute, helpers.Wait) {
			c.Violate("lookups block forever while a node is locked")
			return
		}
		mu.Lock()
		defer mu.Unlock()
		overlaps, seen := 0, 0
		for i := range ops {
			for j := range ops[:i] {
				if ops[i].ClientId != ops[j].ClientId && ops[i].Call < ops[j].Return && ops[j].Call < ops[i].Return {
					overlaps++
				}
			}
			in := ops[i].Input.(listIn)
			if in.Op != "add" && strings.Contains(ops[i].Output.(string), "t") && !strings.HasPrefix(ops[i].Output.(string), fmt.Sprintf("t%d.", ops[i].ClientId)) {
				seen++
			}
		}
		c.Count("operations", len(ops))
		c.Count("overlapping_pairs", overlaps)
		c.Count("results_of_other_goroutines", seen)
		c.Mark(overlaps, seen, len(ops))
		c.Sample(fmt.Sprintf("%d operations of %d goroutines on %d ids, %d overlapping pairs", len(ops), clients, nid, overlaps))
		seenOverlap, finished = overlaps > 0 && seen > 0, true
	})
	if !finished {
		return
	}
	if raceEnabled { // without the times there is nothing to check
		c.Nontrivial()
		return
	}
	// in real time, to be able to give up
	switch porcupine.CheckOperationsTimeout(listModel, ops, 20*time.Second) {
	case porcupine.Illegal:
		sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
		var h []string
		for _, o := range ops {
			h = append(h, fmt.Sprintf("%d[%d-%d] %v=%v", o.ClientId, o.Call, o.Return, o.Input, o.Output))
		}
		if len(h) > 60 {
			h = h[:60]
		}
		c.Violate("no order of the operations explains their results: %s", strings.Join(h, "; "))
	case porcupine.Unknown:
		c.Inconclusive("the history is too hard to check")
		return
	}
	if seenOverlap {
		c.Nontrivial()
	}
}
