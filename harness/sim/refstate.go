package sim

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"github.com/stampzilla/gozwave/nodes"
)

// RefState is the state a node must have.
type RefState struct {
	Bool  map[string]bool
	Float map[string]float64
}

func newRefState() *RefState {
	return &RefState{Bool: map[string]bool{}, Float: map[string]float64{}}
}

// apply applies a report, and tells if the state was set by it. Alarms are not handled here.
func (s *RefState) apply(r *RefReport) bool {
	switch r.Kind {
	case "bin1":
		if !r.Valid {
			return false
		}
		s.Bool["on"] = r.On
	case "bin2":
		s.Bool["on"] = r.On
	case "ml1", "ml4":
		if !r.Valid {
			return false
		}
		s.Bool["on"] = r.Level > 0
		s.Float["level"] = r.Level
	case "sensor":
		name, unit := sensorName(r.SType, r.Scale)
		s.Float[sensorKey(name, unit)] = r.Value
	default:
		return false
	}
	return true
}

// stateOf reads the state of a node the way a user does.
func stateOf(n *nodes.Node) *RefState {
	n.RLock()
	defer n.RUnlock()
	s := newRefState()
	for k, v := range n.StateBool {
		s.Bool[k] = v
	}
	for k, v := range n.StateFloat {
		s.Float[k] = v
	}
	return s
}

// diff compares with what a node has, "" means equal.
func (s *RefState) diff(o *RefState) string {
	var keys []string
	for k := range s.Bool {
		if v, ok := o.Bool[k]; !ok || v != s.Bool[k] {
			keys = append(keys, fmt.Sprintf("%s should be %v, is %v (%v)", k, s.Bool[k], v, ok))
		}
	}
	for k := range o.Bool {
		if _, ok := s.Bool[k]; !ok {
			keys = append(keys, fmt.Sprintf("%s should not be set, is %v", k, o.Bool[k]))
		}
	}
	for k := range s.Float {
		v, ok := o.Float[k]
		d := abs(v - s.Float[k])
		if !ok || !(d <= 1e-9*(1+abs(s.Float[k]))) {
			keys = append(keys, fmt.Sprintf("%s should be %v, is %v (%v)", k, s.Float[k], v, ok))
		}
	}
	for k := range o.Float {
		if _, ok := s.Float[k]; !ok {
			keys = append(keys, fmt.Sprintf("%s should not be set, is %v", k, o.Float[k]))
		}
	}
	if len(keys) == 0 {
		return ""
	}
	sort.Strings(keys)
	if len(keys) > 4 {
		keys = keys[:4]
	}
	return join(keys)
}

// confNode describes a node of a configuration file.
type confNode struct {
	ID        int
	Awake     bool
	Manu      map[string]interface{}
	Brand     string
	Product   string
	Desc      string
	Classes   []confClass
	Endpoints []confEndpoint
	Bool      map[string]bool
	Float     map[string]float64
}

type confClass struct {
	ID                     int
	InNIF, Secure, NonSecu bool
	Version                string
}

type confEndpoint struct {
	ID      int
	Classes []confClass
	Bool    map[string]bool
	Float   map[string]float64
	Bare    bool // no state at all
}

func (c confClass) json() map[string]interface{} {
	return map[string]interface{}{"ID": c.ID, "InNIF": c.InNIF, "Secure": c.Secure, "NonSecure": c.NonSecu, "Version": c.Version}
}

func classesJSON(cl []confClass) interface{} {
	if cl == nil {
		return nil
	}
	r := []interface{}{}
	for _, c := range cl {
		r = append(r, c.json())
	}
	return r
}

func (n confNode) json() map[string]interface{} {
	var eps interface{}
	if n.Endpoints != nil {
		l := []interface{}{}
		for _, e := range n.Endpoints {
			b, f := e.Bool, e.Float
			if b == nil {
				b = map[string]bool{}
			}
			if f == nil {
				f = map[string]float64{}
			}
			if e.Bare {
				b, f = nil, nil
			}
			l = append(l, map[string]interface{}{"Id": e.ID, "CommandClasses": classesJSON(e.Classes), "StateBool": b, "StateFloat": f})
		}
		eps = l
	}
	b, f := n.Bool, n.Float
	if b == nil {
		b = map[string]bool{}
	}
	if f == nil {
		f = map[string]float64{}
	}
	var manu interface{}
	if n.Manu != nil {
		manu = n.Manu
	}
	return map[string]interface{}{"id": n.ID, "is_awake": n.Awake, "ManufacurerSpecific": manu, "Brand": n.Brand, "Product": n.Product,
		"Description": n.Desc, "CommandClasses": classesJSON(n.Classes), "Endpoints": eps, "StateBool": b, "StateFloat": f}
}

// confJSON makes the content of a configuration file.
func confJSON(list []confNode) []byte {
	m := map[string]interface{}{}
	for _, n := range list {
		m[fmt.Sprint(n.ID)] = n.json()
	}
	b, err := json.MarshalIndent(map[string]interface{}{"Nodes": m}, "", "\t")
	if err != nil {
		panic(err)
	}
	return b
}

// tempFile returns the name of a file that does not exist.
func (c *Case) tempFile(name string) string {
	dir := ""
	if c.Index%5 == 1 {
		dir = os.Getenv("VP_OTHER") // another file system than that of temporary files and of the working directory
	}
	d, err := os.MkdirTemp(dir, fmt.Sprintf("c%d.", c.Index))
	if err != nil {
		panic(err)
	}
	return filepath.Join(d, name)
}

// confFile writes a configuration file with these nodes.
func (c *Case) confFile(list []confNode) string {
	f := c.tempFile("conf.json")
	if err := os.WriteFile(f, confJSON(list), 0644); err != nil {
		panic(err)
	}
	return f
}

// plainNodes are known nodes without anything special.
func plainNodes(ids ...int) []confNode {
	var l []confNode
	for _, id := range ids {
		l = append(l, confNode{ID: id, Awake: true, Classes: []confClass{{ID: 0x25}, {ID: 0x26}}, Endpoints: []confEndpoint{}})
	}
	return l
}
