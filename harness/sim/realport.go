package sim

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/stampzilla/gozwave"
	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/serialrecorder"
)

// line is a pseudo terminal with a simulated stick at the other end, in real time.
type line struct {
	mu     sync.Mutex
	m      int // its descriptor
	keep   int // the end of the user, kept open so that the other end is usable all the time
	name   string
	nodes  []int
	frames [][]byte
	got    []byte // all bytes that came out of the port
	sent   []byte // all bytes that went in
	stop   chan struct{}
	done   chan struct{}
}

// newLine opens a pseudo terminal and lets name point to it.
func newLine(name string, nodes ...int) (*line, error) {
	m, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	var n, zero uint32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(m), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&zero))); e != 0 {
		syscall.Close(m)
		return nil, e
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(m), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {
		syscall.Close(m)
		return nil, e
	}
	pts := fmt.Sprintf("/dev/pts/%d", n)
	keep, err := syscall.Open(pts, syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err == nil {
		// a name of our own, the number of the terminal is used again by others as soon as it is gone
		tmp := name + ".new"
		if err = os.Symlink(pts, tmp); err == nil {
			err = os.Rename(tmp, name)
		}
		if err != nil {
			syscall.Close(keep)
		}
	}
	if err != nil {
		syscall.Close(m)
		return nil, err
	}
	l := &line{m: m, keep: keep, name: name, nodes: nodes, stop: make(chan struct{}), done: make(chan struct{})}
	go l.run()
	return l, nil
}

func (l *line) run() {
	defer close(l.done)
	var in []byte
	buf := make([]byte, 4096)
	for {
		select {
		case <-l.stop:
			return
		default:
		}
		n, err := syscall.Read(l.m, buf)
		if err != nil || n <= 0 {
			time.Sleep(500 * time.Microsecond)
			continue
		}
		in = append(in, buf[:n]...)
		l.mu.Lock()
		l.got = append(l.got, buf[:n]...)
		l.mu.Unlock()
		for len(in) > 0 {
			it := refItem(in)
			if it.Wait > 0 {
				break
			}
			if it.Frame == nil {
				in = in[max(1, it.Size):]
				continue
			}
			f := append([]byte(nil), it.Frame...)
			in = in[it.Size:]
			l.mu.Lock()
			l.frames = append(l.frames, f)
			l.mu.Unlock()
			l.send([]byte{0x06})
			if isGetNodes(TxFrame{B: f}) {
				l.send(mkNodeList(l.nodes...))
			}
		}
	}
}

func (l *line) send(b []byte) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.sent = append(l.sent, b...)
	for len(b) > 0 {
		n, err := syscall.Write(l.m, b)
		if n > 0 {
			b = b[n:]
		}
		if err != nil {
			if err != syscall.EAGAIN && err != syscall.EINTR {
				return
			}
			time.Sleep(time.Millisecond)
		}
	}
}

// received says whether a frame with these bytes arrived.
func (l *line) received(b []byte) (n int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, f := range l.frames {
		if bytes.Contains(f, b) {
			n++
		}
	}
	return n
}

// hangup takes the stick away, together with the name of the port.
func (l *line) hangup() {
	os.Remove(l.name)
	close(l.stop)
	<-l.done
	syscall.Close(l.keep)
	syscall.Close(l.m)
}

// realWait waits in real time.
func realWait(limit time.Duration, f func() bool) bool {
	for end := time.Now().Add(limit); ; time.Sleep(2 * time.Millisecond) {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
	}
}

// runRealPort connects to a pseudo terminal with the serial driver (or another opener), in real time.
func runRealPort(c *Case, opener func(name string) gozwave.PortOpener, idle time.Duration) (lines []*line) {
	fail := c.Violate
	if opener != nil { // what the connection does is not what is asked
		fail = c.Inconclusive
	}
	name := c.tempFile("tty")
	defer os.RemoveAll(filepath.Dir(name))
	node := 2 + c.R.Intn(231)
	l, err := newLine(name, 1, node)
	if err != nil {
		c.Inconclusive("no pseudo terminal: %v", err)
		return
	}
	up := true
	defer func() {
		if up {
			l.hangup()
		}
	}()
	begin := time.Now()
	late := func() bool {
		if time.Since(begin) < 42*time.Second {
			return false
		}
		c.Inconclusive("the machine is too slow for real time")
		return true
	}
	type result struct {
		ctl *gozwave.Controller
		err error
	}
	res := make(chan result, 1)
	go func() {
		var r result
		if opener == nil {
			r.ctl, r.err = gozwave.Connect(name, "")
		} else {
			r.ctl, r.err = gozwave.ConnectWithCustomPortOpener(name, "", opener(name))
		}
		res <- r
	}()
	var ctl *gozwave.Controller
	select {
	case r := <-res:
		if r.err != nil || r.ctl == nil {
			fail("connecting to a serial port failed: %v, %v", r.ctl, r.err)
			return
		}
		ctl = r.ctl
	case <-time.After(15 * time.Second):
		fail("connecting to a serial port did not return within 15 s")
		return
	}
	connected := func() bool {
		ctl.Connection.RLock()
		defer ctl.Connection.RUnlock()
		return ctl.Connection.Connected
	}
	if !realWait(10*time.Second, connected) {
		fail("the serial port is open since 10 s, but not connected")
		return
	}
	start := time.Now()
	var t [64]uint32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(l.m), syscall.TCGETS, uintptr(unsafe.Pointer(&t))); e == 0 {
		if speed := t[2] & 0x100f; speed != syscall.B115200 {
			fail("the serial port is opened with speed code %#o", speed)
		}
		if t[2]&(syscall.PARENB|syscall.CSTOPB) != 0 || t[2]&syscall.CSIZE != syscall.CS8 {
			fail("the serial port is opened with control flags %#o", t[2])
		}
	}
	dropped := func() bool {
		if connected() {
			return false
		}
		fail("not connected %v after connecting, the serial port works", time.Since(start))
		return true
	}
	if !realWait(10*time.Second, func() bool { return ctl.Nodes.Get(node) != nil }) {
		fail("the node list was answered by a stick on a serial port, node %d is not in the list (requests %x)", node, l.frames)
		return
	}
	n := ctl.Nodes.Get(node)
	// every byte passes unchanged, in both directions
	key := sensorKey(sensorName(1, 0))
	special := []byte{0x00, 0x01, 0x03, 0x04, 0x06, 0x08, 0x0a, 0x0d, 0x0f, 0x11, 0x12, 0x13, 0x15, 0x16, 0x17, 0x18, 0x1a, 0x1c, 0x7f, 0xff}
	for len(special)%4 != 0 {
		special = append(special, byte(c.R.Intn(256)))
	}
	c.R.Shuffle(len(special), func(i, j int) { special[i], special[j] = special[j], special[i] })
	for i := 0; i < len(special); i += 4 {
		u := int(special[i])<<24 | int(special[i+1])<<16 | int(special[i+2])<<8 | int(special[i+3])
		want := float64(int32(u)) / 100
		ok := false
		for try := 0; try < 3 && !ok; try++ { // a slow machine may tear it apart
			l.send(mkReport(node, 0x31, 0x05, reportData(0x31, u)...))
			ok = realWait(3*time.Second, func() bool {
				n.RLock()
				defer n.RUnlock()
				v, is := n.StateFloat[key]
				return is && math.Abs(v-want) <= 1e-6*math.Abs(want)+1e-9
			})
		}
		if dropped() {
			return
		}
		if !ok {
			fail("a reading of % x did not pass through the serial port", special[i:i+4])
			return
		}
		c.Count("serial_reports", 1)
	}
	for i := 0; i < 3; i++ {
		data := append(append([]byte{0x70}, special...), byte(i))
		if i == 2 {
			data = append(data, randBytes(c.R, 20)...)
		}
		raw := commands.NewRaw(data)
		raw.SetNode(node)
		ok := make(chan struct{})
		go func() { ctl.Connection.Write(raw); close(ok) }()
		if !realWait(12*time.Second, func() bool { return l.received(data) > 0 }) {
			fail("the command %x did not come out of the serial port", data)
			return
		}
		<-ok
		if k := l.received(data); k != 1 && !dropped() {
			fail("the command %x came out of the serial port %d times", data, k)
		}
		c.Count("serial_commands", 1)
	}
	if late() {
		return
	}
	// silence is not an error
	for end := time.Now().Add(idle); time.Now().Before(end); time.Sleep(3 * time.Millisecond) {
		if dropped() {
			return
		}
	}
	c.Count("serial_idle_ms", int(idle/time.Millisecond))
	// the stick is taken out and put in again
	lines = append(lines, l)
	l.hangup()
	up = false
	if !realWait(10*time.Second, func() bool { return !connected() }) {
		fail("the serial port is gone since 10 s, but still connected")
		return
	}
	time.Sleep(time.Duration(c.R.Intn(2500)) * time.Millisecond)
	if connected() {
		fail("connected while there is no serial port")
		return
	}
	if late() {
		return
	}
	if l, err = newLine(name, 1, node); err != nil {
		c.Inconclusive("no pseudo terminal: %v", err)
		return
	}
	up = true
	lines = append(lines, l)
	if !realWait(10*time.Second, connected) {
		fail("the serial port is there again since 10 s, but it is not connected")
		return
	}
	start = time.Now()
	for i := c.R.Intn(40); i > 0; i-- {
		l.send(mkReport(node, 0x31, 0x05, reportData(0x31, 5000+i)...))
	}
	u := 123456 + c.R.Intn(1000000)
	ok := false
	for try := 0; try < 3 && !ok; try++ {
		l.send(mkReport(node, 0x31, 0x05, reportData(0x31, u)...))
		ok = realWait(3*time.Second, func() bool {
			n.RLock()
			defer n.RUnlock()
			return math.Abs(n.StateFloat[key]-float64(u)/100) < 1e-3
		})
	}
	if !ok {
		if !dropped() {
			fail("a report did not pass through the serial port that was opened again")
		}
		return
	}
	c.Count("serial_sessions", 2)
	c.Mark(node, u, special)
	c.Sample(fmt.Sprintf("serial port: node %d found, %d bytes passed in both directions, taken out and put in again", node, len(special)))
	c.Nontrivial()
	return lines
}

// runRecordedConnection connects through the recorder, and compares its log with the line.
func runRecordedConnection(c *Case) {
	sink := &logSink{slow: time.Duration(c.R.Intn(3)) * 200 * time.Microsecond}
	lines := runRealPort(c, func(name string) gozwave.PortOpener {
		rec := serialrecorder.New(name, 115200)
		rec.Logger = sink
		return rec
	}, 300*time.Millisecond)
	if len(lines) != 2 || c.violated() {
		return
	}
	// taken away before anything could be read or written, some bytes may be in one of them only
	const lost = 40
	match := func(log, a, b []byte) bool {
		k := 0
		for k < len(a) && k < len(log) && a[k] == log[k] {
			k++
		}
		// the log has all of a, or up to where it was taken away
		for ; k >= 0 && k >= len(a)-lost; k-- {
			for e := 0; e <= lost && e <= len(b); e++ { // the last ones may be under way
				x := b[:len(b)-e]
				if len(log)-k >= len(x) && len(log)-k-len(x) <= lost && bytes.HasSuffix(log[k:], x) {
					return true
				}
			}
		}
		return false
	}
	var problem string
	check := func() bool {
		rows, err := sink.rows()
		if err != nil {
			problem = fmt.Sprintf("the log can not be decoded after %d rows: %v", len(rows), err)
			return false
		}
		var log [2][]byte
		var last [2]time.Time
		for i, row := range rows {
			d := 0
			if row.Direction == serialrecorder.DirectionWrite {
				d = 1
			}
			if row.Timestamp.Before(last[d]) {
				problem = fmt.Sprintf("row %d is dated before the previous one", i)
				return false
			}
			last[d] = row.Timestamp
			log[d] = append(log[d], row.Data...)
		}
		for d, what := range []string{"read", "written"} {
			var s [2][]byte
			for i, l := range lines {
				l.mu.Lock()
				s[i] = append([]byte(nil), [][]byte{l.sent, l.got}[d]...)
				l.mu.Unlock()
			}
			if !match(log[d], s[0], s[1]) {
				problem = fmt.Sprintf("the log of what was %s is %x, the line had %x and, after it was put in again, %x", what, log[d], s[0], s[1])
				return false
			}
			c.Count("recorded_bytes_of_connections", len(log[d]))
		}
		return true
	}
	if !realWait(8*time.Second, check) {
		c.Violate("recording a connection: %s", problem)
	}
}
