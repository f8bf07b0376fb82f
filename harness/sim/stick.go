package sim

import (
	"errors"
	"io"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/stampzilla/gozwave"
	"github.com/stampzilla/gozwave/nodes"
)

// Chunk is a piece of the byte stream with the virtual time it was transferred.
type Chunk struct {
	T   time.Duration
	Seq int64
	B   []byte
}

// TxFrame is one item the library wrote: a command frame, or an acknowledge byte when Ack is set.
type TxFrame struct {
	T    time.Duration // when its last byte was written
	T0   time.Duration // when its first byte was written
	Seq  int64
	Port int
	Ack  bool
	B    []byte
}

// Payload returns function and data of a frame.
func (f TxFrame) Payload() []byte { return f.B[3 : len(f.B)-1] }

// World is one simulated installation.
type World struct {
	C     *Case
	Op    *Opener
	Ctl   *gozwave.Controller
	start time.Time

	evMu   sync.Mutex
	Events []Event
}

// Event is an event that the library delivered to the user.
type Event struct {
	T   time.Duration
	Seq int64
	Ev  interface{}
}

// Opener is the port opener given to the library.
type Opener struct {
	w  *World
	mu sync.Mutex

	Script    func(n int) error           // error for the n:th open (from 0)
	Slow      func() time.Duration        // how long opening takes
	Handle    func(p *Port, frame []byte) // called on a goroutine of its own for every command frame
	Coalesce  bool                        // a read returns everything that is available
	SlowWrite bool                        // bytes of a write trickle out one by one
	ReadDelay time.Duration               // a read returns data this long after it became available

	Opens []time.Duration
	ports []*Port

	hMu     sync.RWMutex
	refuse  func(b []byte) bool // writing this fails, nothing of it is transmitted
	handle2 func(p *Port, frame []byte)
}

// Port is one opening of the simulated serial port.
type Port struct {
	cutting bool     // in the middle of a frame
	held    [][]byte // what comes after that frame
	w       *World
	op      *Opener
	Idx     int

	rxMu    sync.Mutex
	rxCond  *sync.Cond
	rx      [][]byte
	rxErr   error
	rxDead  bool
	fed     []Chunk
	OpenT   time.Duration
	ClosedT time.Duration // 0 while it is open
	FailT   time.Duration
	closes  int

	txMu    sync.Mutex
	txItems []TxFrame
	txPart  []byte
	txPartT time.Duration
	txBad   [][]byte
	txLost  int
	txDead  bool
	txN     int
}

var seqCounter int64

func (w *World) seq() int64 {
	if raceEnabled {
		return 0 // would synchronise the goroutines that are observed
	}
	return atomic.AddInt64(&seqCounter, 1)
}

// NewWorld must be called inside of the bubble.
func NewWorld(c *Case) *World {
	w := &World{C: c, start: time.Now()}
	w.Op = &Opener{w: w}
	return w
}

// Now is the virtual time since the start.
func (w *World) Now() time.Duration { return time.Since(w.start) }

// Open implements gozwave.PortOpener
func (o *Opener) Open() (io.ReadWriteCloser, error) {
	if o.Slow != nil {
		if d := o.Slow(); d > 0 {
			time.Sleep(d)
		}
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	n := len(o.Opens)
	o.Opens = append(o.Opens, o.w.Now())
	if o.Script != nil {
		if err := o.Script(n); err != nil {
			return nil, err
		}
	}
	for _, p := range o.ports {
		p.rxMu.Lock()
		if p.closes == 0 {
			o.w.C.Violate("port opened while port %d was still open", p.Idx)
		}
		p.rxMu.Unlock()
	}
	p := &Port{w: o.w, op: o, Idx: len(o.ports), OpenT: o.w.Now()}
	p.rxCond = sync.NewCond(&p.rxMu)
	o.ports = append(o.ports, p)
	return p, nil
}

func (o *Opener) handle() func(p *Port, frame []byte) {
	o.hMu.RLock()
	defer o.hMu.RUnlock()
	if o.handle2 != nil {
		return o.handle2
	}
	return o.Handle
}

// setRefuse makes some writes fail.
func (o *Opener) setRefuse(f func(b []byte) bool) {
	o.hMu.Lock()
	o.refuse = f
	o.hMu.Unlock()
}

func (o *Opener) refused(b []byte) bool {
	o.hMu.RLock()
	f := o.refuse
	o.hMu.RUnlock()
	return f != nil && f(b)
}

// setHandle replaces Handle while the library is running.
func (o *Opener) setHandle(h func(p *Port, frame []byte)) {
	o.hMu.Lock()
	o.handle2 = h
	o.hMu.Unlock()
}

// Port returns the last opened port, or nil
func (o *Opener) Port() *Port {
	o.mu.Lock()
	defer o.mu.Unlock()
	if len(o.ports) == 0 {
		return nil
	}
	return o.ports[len(o.ports)-1]
}

// Ports returns all ports opened so far.
func (o *Opener) Ports() []*Port {
	o.mu.Lock()
	defer o.mu.Unlock()
	return append([]*Port(nil), o.ports...)
}

// OpenTimes returns when opening was tried.
func (o *Opener) OpenTimes() []time.Duration {
	o.mu.Lock()
	defer o.mu.Unlock()
	return append([]time.Duration(nil), o.Opens...)
}

var errPort = errors.New("simulated port failure")

// portErrs is what reading ends with when a port fails, it depends on the driver
var portErrs = []error{errPort, io.EOF, &os.PathError{Op: "read", Path: "/dev/ttyACM0", Err: syscall.EIO}, io.ErrUnexpectedEOF, os.ErrClosed, syscall.ENODEV}

func (p *Port) Read(b []byte) (int, error) {
	p.rxMu.Lock()
	waited := false
	for len(p.rx) == 0 && p.rxErr == nil && !p.rxDead {
		waited = true
		p.rxCond.Wait()
	}
	if d := p.op.ReadDelay; d > 0 && waited && len(p.rx) > 0 {
		p.rxMu.Unlock()
		time.Sleep(d)
		p.rxMu.Lock()
	}
	defer p.rxMu.Unlock()
	if p.rxDead {
		return 0, errPort
	}
	if len(p.rx) == 0 {
		return 0, p.rxErr
	}
	n := copy(b, p.rx[0])
	p.rx[0] = p.rx[0][n:]
	if len(p.rx[0]) == 0 {
		p.rx = p.rx[1:]
	}
	for p.op.Coalesce && n > 0 && n < len(b) && len(p.rx) > 0 && len(p.rx[0]) > 0 {
		m := copy(b[n:], p.rx[0])
		n += m
		p.rx[0] = p.rx[0][m:]
		if len(p.rx[0]) == 0 {
			p.rx = p.rx[1:]
		}
	}
	return n, nil
}

// Feed makes b available for one read (or several if it is too long for one); an empty b gives an empty read.
func (p *Port) Feed(b []byte) {
	p.rxMu.Lock()
	defer p.rxMu.Unlock()
	p.feed(b)
}

func (p *Port) feed(b []byte) {
	if p.rxErr != nil || p.rxDead {
		return
	}
	b = append([]byte(nil), b...)
	if p.cutting { // the stick is in the middle of a frame
		p.held = append(p.held, b)
		return
	}
	p.rx = append(p.rx, b)
	p.fed = append(p.fed, Chunk{T: p.w.Now(), Seq: p.w.seq(), B: b})
	p.rxCond.Signal()
}

// FeedCut feeds a frame in pieces; nothing else is fed meanwhile.
func (p *Port) FeedCut(r *lockedRand, b []byte) {
	for {
		p.rxMu.Lock()
		if !p.cutting {
			break
		}
		p.rxMu.Unlock()
		time.Sleep(time.Millisecond)
	}
	for len(b) > 0 {
		n := 1 + r.Intn(len(b))
		if r.Intn(3) == 0 {
			n = len(b)
		}
		p.cutting = false
		p.feed(b[:n])
		b = b[n:]
		if len(b) > 0 {
			p.cutting = true
			p.rxMu.Unlock()
			time.Sleep(r.Dur(time.Millisecond, 30*time.Millisecond))
			p.rxMu.Lock()
		}
	}
	p.cutting = false
	for _, h := range p.held {
		p.feed(h)
	}
	p.held = nil
	p.rxMu.Unlock()
}

// FeedAfter feeds b after some time.
func (p *Port) FeedAfter(d time.Duration, b []byte) {
	if d <= 0 {
		p.Feed(b)
		return
	}
	time.AfterFunc(d, func() { p.Feed(b) })
}

// Fail makes reading fail, when all data fed before has been read.
func (p *Port) Fail() {
	p.rxMu.Lock()
	defer p.rxMu.Unlock()
	if p.rxErr == nil {
		p.rxErr = portErrs[(p.w.C.Index+p.Idx)%len(portErrs)]
		p.FailT = p.w.Now()
	}
	p.rxCond.Broadcast()
	p.txMu.Lock()
	p.txDead = true
	p.txMu.Unlock()
}

// Fed returns the received stream.
func (p *Port) Fed() []Chunk {
	p.rxMu.Lock()
	defer p.rxMu.Unlock()
	return append([]Chunk(nil), p.fed...)
}

// Close implements io.Closer
func (p *Port) Close() error {
	p.rxMu.Lock()
	p.rxDead = true
	p.closes++
	if p.closes == 1 {
		p.ClosedT = p.w.Now()
	}
	p.rxCond.Broadcast()
	p.rxMu.Unlock()
	p.txMu.Lock()
	p.txDead = true
	p.txMu.Unlock()
	return nil
}

// IsOpen tells if the library has the port open.
func (p *Port) IsOpen() bool {
	p.rxMu.Lock()
	defer p.rxMu.Unlock()
	return p.closes == 0
}

func (p *Port) Write(b []byte) (int, error) {
	if p.op.refused(b) {
		return 0, errPort
	}
	if !p.op.SlowWrite {
		p.txMu.Lock()
		defer p.txMu.Unlock()
		if p.txDead {
			p.txLost++
			return 0, errPort
		}
		p.take(b)
		return len(b), nil
	}
	for i := range b {
		p.txMu.Lock()
		if p.txDead {
			p.txLost++
			p.txMu.Unlock()
			return i, errPort
		}
		p.take(b[i : i+1])
		p.txMu.Unlock()
		if i%16 == 15 {
			time.Sleep(20 * time.Microsecond)
		}
	}
	return len(b), nil
}

// take parses what the library writes. txMu is held.
func (p *Port) take(b []byte) {
	for _, x := range b {
		if len(p.txPart) == 0 {
			p.txPartT = p.w.Now()
		}
		p.txPart = append(p.txPart, x)
		switch p.txPart[0] {
		case 0x06:
			p.txItems = append(p.txItems, TxFrame{T: p.w.Now(), T0: p.txPartT, Seq: p.w.seq(), Port: p.Idx, Ack: true, B: p.txPart})
			p.txPart = nil
		case 0x01:
			if len(p.txPart) < 2 || len(p.txPart) < int(p.txPart[1])+2 {
				continue
			}
			fr := TxFrame{T: p.w.Now(), T0: p.txPartT, Seq: p.w.seq(), Port: p.Idx, B: p.txPart}
			p.txPart = nil
			if len(fr.B) < 5 || fr.B[2] != 0x00 || xorSum(fr.B[1:len(fr.B)-1]) != fr.B[len(fr.B)-1] {
				p.txBad = append(p.txBad, fr.B)
				continue
			}
			p.txItems = append(p.txItems, fr)
			if h := p.op.handle(); h != nil {
				frame := append([]byte(nil), fr.B...)
				time.AfterFunc(0, func() { h(p, frame) })
			}
		default:
			p.txBad = append(p.txBad, p.txPart)
			p.txPart = nil
		}
	}
}

// Tx returns everything that was written to all ports, in order.
func (o *Opener) Tx() []TxFrame {
	var all []TxFrame
	for _, p := range o.Ports() {
		p.txMu.Lock()
		all = append(all, p.txItems...)
		p.txMu.Unlock()
	}
	return all
}

// Commands returns the command frames that were written.
func (o *Opener) Commands() []TxFrame {
	var r []TxFrame
	for _, f := range o.Tx() {
		if !f.Ack {
			r = append(r, f)
		}
	}
	return r
}

// BadTx returns written bytes that belong to no well-formed frame.
func (o *Opener) BadTx() [][]byte {
	var r [][]byte
	for _, p := range o.Ports() {
		p.txMu.Lock()
		r = append(r, p.txBad...)
		if len(p.txPart) > 0 && !p.txDead {
			r = append(r, p.txPart)
		}
		p.txMu.Unlock()
	}
	return r
}

// Lost returns how many writes failed since the port was gone.
func (o *Opener) Lost() int {
	n := 0
	for _, p := range o.Ports() {
		p.txMu.Lock()
		n += p.txLost
		p.txMu.Unlock()
	}
	return n
}

// Connect connects the library to the simulated stick. It returns when the library does.
func (w *World) Connect(file string) error {
	ctl, err := gozwave.ConnectWithCustomPortOpener("/sim", file, w.Op)
	if err != nil {
		return err
	}
	w.Ctl = ctl
	return nil
}

// DrainEvents starts to read events. f is called for each, if not nil.
func (w *World) DrainEvents(f func(Event)) {
	ch := w.Ctl.GetNextEvent()
	go func() {
		for ev := range ch {
			e := Event{T: w.Now(), Seq: w.seq(), Ev: ev}
			w.evMu.Lock()
			w.Events = append(w.Events, e)
			w.evMu.Unlock()
			if f != nil {
				f(e)
			}
		}
	}()
}

// EventLog returns the events read so far.
func (w *World) EventLog() []Event {
	w.evMu.Lock()
	defer w.evMu.Unlock()
	return append([]Event(nil), w.Events...)
}

// WaitUntil polls cond in virtual time.
func (w *World) WaitUntil(max time.Duration, cond func() bool) bool {
	end := w.Now() + max
	for !cond() {
		if w.Now() >= end {
			return false
		}
		time.Sleep(10 * time.Millisecond)
	}
	return true
}

// Node looks a node up, with a limit in virtual time since a lookup must never block.
func (w *World) Node(id int) *nodes.Node {
	var n *nodes.Node
	if !w.Within(time.Hour, func() { n = w.Ctl.Nodes.Get(id) }) {
		w.C.Violate("looking up node %d blocks forever", id)
		return nil
	}
	return n
}

// Within runs f on a goroutine and tells if it ended within d of virtual time.
func (w *World) Within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}
