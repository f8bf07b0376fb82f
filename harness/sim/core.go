// Package sim runs gozwave against a simulated Z-Wave controller stick, in virtual time, and watches it.
package sim

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/sirupsen/logrus"
)

// Prop is one property: Run executes and judges one case.
type Prop struct {
	ID   string
	Rule string // how cases are made and what makes one non-trivial
	Run  func(c *Case)
}

var props = map[string]*Prop{}

func register(id, rule string, run func(c *Case)) {
	props[id] = &Prop{ID: id, Rule: rule, Run: run}
}

// Case is one execution of the code under test.
type Case struct {
	Prop  string
	Seed  int64
	Index int
	Tier  string
	R     *rand.Rand
	T     *testing.T

	mu         sync.Mutex
	viol       []string
	incon      []string
	stats      map[string]int
	fp         uint64
	nontrivial bool
	sample     interface{}
}

func seedFor(prop string, seed int64, index int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s|%d|%d", prop, seed, index)
	return int64(h.Sum64())
}

// Violate records that the property was broken in this execution.
func (c *Case) Violate(format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.viol) < 20 {
		c.viol = append(c.viol, fmt.Sprintf(format, a...))
	}
}

func (c *Case) violated() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viol) > 0
}

// Inconclusive records that this execution did not show what it should have observed.
func (c *Case) Inconclusive(format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.incon = append(c.incon, fmt.Sprintf(format, a...))
}

// Count adds to a measured quantity.
func (c *Case) Count(key string, n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.stats[key] += n
}

// Mark makes the case distinct by what was observed in it.
func (c *Case) Mark(a ...interface{}) {
	h := fnv.New64a()
	c.mu.Lock()
	defer c.mu.Unlock()
	fmt.Fprintf(h, "%d|", c.fp)
	for _, v := range a {
		fmt.Fprintf(h, "%v|", v)
	}
	c.fp = h.Sum64()
}

// Nontrivial says that the execution reached what the property is about.
func (c *Case) Nontrivial() {
	c.mu.Lock()
	c.nontrivial = true
	c.mu.Unlock()
}

// Sample keeps a description of the case for the evidence.
func (c *Case) Sample(v interface{}) {
	c.mu.Lock()
	c.sample = v
	c.mu.Unlock()
}

// Thorough is true in the thorough tier.
func (c *Case) Thorough() bool { return c.Tier == "thorough" }

type caseResult struct {
	Start      *int           `json:"start,omitempty"`
	Case       *int           `json:"case,omitempty"`
	Viol       []string       `json:"viol,omitempty"`
	Incon      []string       `json:"incon,omitempty"`
	Stats      map[string]int `json:"stats,omitempty"`
	Fp         string         `json:"fp,omitempty"`
	Nontrivial bool           `json:"nontrivial,omitempty"`
	Sample     interface{}    `json:"sample,omitempty"`
	Race       bool           `json:"race,omitempty"`
}

// Bubble runs f in virtual time. The library's goroutines never end, so the bubble is left frozen afterwards.
func (c *Case) Bubble(f func()) {
	done := make(chan struct{})
	never := make(chan struct{})
	go synctest.Test(c.T, func(t *testing.T) {
		f()
		close(done)
		<-never // not a bubble channel: virtual time stands still from here on
	})
	<-done
}

// RunWorker executes the cases [from,to) of a property and appends the results to the file out.
func RunWorker(t *testing.T) {
	id := os.Getenv("VP_PROP")
	p := props[id]
	if p == nil {
		t.Fatalf("unknown property %q", id)
	}
	var from, to int
	var seed int64
	fmt.Sscan(os.Getenv("VP_FROM"), &from)
	fmt.Sscan(os.Getenv("VP_TO"), &to)
	fmt.Sscan(os.Getenv("VP_SEED"), &seed)
	f, err := os.OpenFile(os.Getenv("VP_OUT"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		t.Fatal(err)
	}
	emit := func(r caseResult) {
		b, err := json.Marshal(r)
		if err != nil {
			b, _ = json.Marshal(caseResult{Case: r.Case, Incon: []string{"result: " + err.Error()}})
		}
		f.Write(append(b, '\n'))
	}
	logrus.SetOutput(io.Discard)
	for i := from; i < to; i++ {
		i := i
		emit(caseResult{Start: &i})
		c := &Case{Prop: id, Seed: seed, Index: i, Tier: os.Getenv("VP_TIER"), T: t,
			R: rand.New(rand.NewSource(seedFor(id, seed, i))), stats: map[string]int{}}
		setLogLevel(c)
		p.Run(c)
		c.mu.Lock()
		r := caseResult{Case: &i, Viol: c.viol, Incon: c.incon, Stats: c.stats, Fp: fmt.Sprintf("%016x", c.fp), Nontrivial: c.nontrivial}
		if i < 3 || len(c.viol) > 0 {
			r.Sample = c.sample
		}
		if raceEnabled {
			st, err := os.Stat(fmt.Sprintf("%s.%d", os.Getenv("VP_RACELOG"), os.Getpid()))
			r.Race = err == nil && st.Size() > 0
		}
		emit(r)
		c.mu.Unlock()
		time.Sleep(time.Millisecond) // let goroutines of the frozen bubble settle
	}
	f.Close()
}

// The log level changes which code runs, most of the time only what the library logs by default.
func setLogLevel(c *Case) {
	switch c.Index % 8 {
	case 3:
		logrus.SetLevel(logrus.DebugLevel)
	case 0, 5:
		logrus.SetLevel(logrus.InfoLevel)
	default:
		logrus.SetLevel(logrus.PanicLevel)
	}
}

func hx(b []byte) string { return fmt.Sprintf("%x", b) }

func sortedKeys(m map[string]int) []string {
	k := make([]string, 0, len(m))
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

func join(a []string) string { return strings.Join(a, ", ") }
