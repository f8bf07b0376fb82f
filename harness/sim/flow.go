package sim

import (
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/interfaces"
	"github.com/stampzilla/gozwave/serialapi"
)

// lockedRand is a random source for several goroutines.
type lockedRand struct {
	mu sync.Mutex
	r  *rand.Rand
}

func newRand(c *Case) *lockedRand { return &lockedRand{r: rand.New(rand.NewSource(c.R.Int63()))} }

func (l *lockedRand) Intn(n int) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.r.Intn(n)
}

func (l *lockedRand) Perm(n int) []int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.r.Perm(n)
}

// Dur is a random duration in [a,b)
func (l *lockedRand) Dur(a, b time.Duration) time.Duration {
	l.mu.Lock()
	defer l.mu.Unlock()
	return a + time.Duration(l.r.Int63n(int64(b-a)))
}

func durIn(r *rand.Rand, a, b time.Duration) time.Duration {
	return a + time.Duration(r.Int63n(int64(b-a)))
}

var spinSink uint64

// jitter gives other goroutines a chance to run here.
func jitter(n int) {
	if n&1 == 1 {
		runtime.Gosched()
	}
	for i := 0; i < (n%64)*8; i++ {
		atomic.AddUint64(&spinSink, 1)
	}
}

// enc is an encodable command with exactly these bytes.
type enc []byte

func (e enc) Encode() []byte { return append([]byte(nil), e...) }

// Req is one command given to the library and what came out of it.
type Req struct {
	ID      int
	Caller  int
	Kind    string // "write", "function" or "report"
	Body    []byte
	Node    int
	Class   byte
	Report  byte
	Timeout time.Duration
	Abandon bool // nobody reads the channel

	mu       sync.Mutex
	IssueT   time.Duration
	AcceptT  time.Duration
	Accepted bool
	Err      error
	Msgs     []*serialapi.Message
	Reps     []reports.Report
	GotT     []time.Duration
	Closed   bool
	ClosedT  time.Duration
	NilChan  bool
}

// Snap returns a copy without the lock.
func (r *Req) Snap() (s struct {
	Accepted, Closed, NilChan bool
	IssueT, AcceptT, ClosedT  time.Duration
	GotT                      []time.Duration
	Msgs                      []*serialapi.Message
	Reps                      []reports.Report
	Err                       error
}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	s.Accepted, s.Closed, s.NilChan = r.Accepted, r.Closed, r.NilChan
	s.IssueT, s.AcceptT, s.ClosedT = r.IssueT, r.AcceptT, r.ClosedT
	s.GotT, s.Msgs, s.Reps, s.Err = append(s.GotT, r.GotT...), append(s.Msgs, r.Msgs...), append(s.Reps, r.Reps...), r.Err
	return
}

// Do performs the call and starts to collect what its channel delivers. It returns when the library does.
func (w *World) Do(con interfaces.Writer, r *Req) {
	r.mu.Lock()
	r.IssueT = w.Now()
	r.mu.Unlock()
	accepted := func(err error, isNil bool) {
		r.mu.Lock()
		r.Accepted, r.AcceptT, r.Err, r.NilChan = true, w.Now(), err, isNil
		r.mu.Unlock()
	}
	switch r.Kind {
	case "write":
		err := con.Write(enc(r.Body))
		accepted(err, false)
	case "function":
		ch, err := con.WriteWithTimeout(enc(r.Body), r.Timeout)
		accepted(err, ch == nil)
		if ch == nil || r.Abandon {
			return
		}
		go func() {
			for m := range ch {
				r.mu.Lock()
				r.Msgs, r.GotT = append(r.Msgs, m), append(r.GotT, w.Now())
				r.mu.Unlock()
			}
			r.mu.Lock()
			r.Closed, r.ClosedT = true, w.Now()
			r.mu.Unlock()
		}()
	case "report":
		ch, err := con.WriteAndWaitForReport(enc(r.Body), r.Timeout, r.Report)
		accepted(err, ch == nil)
		if ch == nil || r.Abandon {
			return
		}
		go func() {
			for m := range ch {
				r.mu.Lock()
				r.Reps, r.GotT = append(r.Reps, m), append(r.GotT, w.Now())
				r.mu.Unlock()
			}
			r.mu.Lock()
			r.Closed, r.ClosedT = true, w.Now()
			r.mu.Unlock()
		}()
	}
}

// reqWrite makes a plain command with a unique content of a random length.
func reqWrite(r *rand.Rand, id, max int) *Req {
	n := 6 + r.Intn(max-5)
	if r.Intn(12) == 0 {
		n = max
	}
	b := randBytes(r, n)
	b[0] = []byte{0x13, 0x13, 0x13, 0x15, 0x20, 0xf2, byte(1 + r.Intn(255))}[r.Intn(7)]
	if b[0] == 0x02 || b[0] == 0x41 {
		b[0] = 0x13
	}
	b[1], b[3] = byte(1+r.Intn(232)), byte(0x80|r.Intn(128))
	b[n-2], b[n-1] = byte(id>>8), byte(id)
	return &Req{ID: id, Kind: "write", Body: b}
}

// reqFunction calls a function of the controller.
func reqFunction(f byte, id int, timeout time.Duration) *Req {
	b := []byte{f, 0, 0, 0, byte(id >> 8), byte(id)}
	if f == 0x41 {
		b[1] = byte(1 + id%232)
	}
	return &Req{ID: id, Kind: "function", Body: b, Timeout: timeout}
}

// reqReport asks a node for a report.
func reqReport(node int, class, report byte, id int, timeout time.Duration) *Req {
	b := []byte{0x13, byte(node), 5, class, 0x02, byte(id >> 8), byte(id), 0x25}
	return &Req{ID: id, Kind: "report", Body: b, Node: node, Class: class, Report: report, Timeout: timeout}
}

// isGetNodes tells if a written frame is the node list request of the library itself.
func isGetNodes(f TxFrame) bool { p := f.Payload(); return len(p) == 1 && p[0] == 0x02 }

// txOf lists the transmissions by content, without the node list request of the library itself.
func (w *World) txOf() (map[string][]TxFrame, []TxFrame) {
	m := map[string][]TxFrame{}
	var all []TxFrame
	for _, f := range w.Op.Commands() {
		if isGetNodes(f) {
			continue
		}
		m[string(f.Payload())] = append(m[string(f.Payload())], f)
		all = append(all, f)
	}
	return m, all
}

// noise returns an unsolicited thing a controller could send.
func (l *lockedRand) noise() []byte {
	l.mu.Lock()
	defer l.mu.Unlock()
	switch l.r.Intn(6) {
	case 0:
		return mkFrame(0x00, 0x13, byte(l.r.Intn(256)), 0x00, 0x00, 0x02)
	case 1:
		return mkFrame(0x01, 0x13, 0x01)
	case 2:
		rep := randReport(l.r)
		return mkReport(100+l.r.Intn(100), rep[0], rep[1], rep[2:]...)
	default:
		rep := randReport(l.r)
		return mkReport(1+l.r.Intn(232), rep[0], rep[1], rep[2:]...)
	}
}
