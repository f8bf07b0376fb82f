package sim

import (
	"bytes"
	"encoding/gob"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/stampzilla/gozwave/serialrecorder"
	"github.com/tarm/serial"
)

func init() {
	register("R01", "1 to 3 sessions on a pseudo terminal, opened and closed with the same recorder; in each up to 2 kB are read in pieces of 1 to 64 bytes and up to 60 chunks are written at the same time, with buffers that are reused and overwritten at once, also empty, huge (blocking) and failing transfers; a fast or slow log; in half of the cases the port is opened again up to six times while somebody writes, and used after it could not be opened; one case in 80 connects a controller through the recorder. Every row is compared with the transfers. Non-trivial when rows of both directions of interleaved transfers were compared", runR01)
	register("R02", "recordings of 0 to 200 rows of both directions in any interleaving, with gaps of microseconds to minutes, within one file; the converter (built from the repository) prints them with every combination of filters. Non-trivial when rows were joined, and others stayed apart", runR02)
}

// pty is a pseudo terminal, the simulated serial line.
type pty struct {
	m    *os.File
	name string
}

func newPty() (*pty, error) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, err
	}
	var n, zero uint32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&zero))); e != 0 {
		return nil, e
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {
		return nil, e
	}
	return &pty{m: m, name: fmt.Sprintf("/dev/pts/%d", n)}, nil
}

// logSink is where the recorder logs to.
type logSink struct {
	mu   sync.Mutex
	b    []byte
	slow time.Duration
}

func (l *logSink) Write(b []byte) (int, error) {
	if l.slow > 0 {
		time.Sleep(l.slow)
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	l.b = append(l.b, b...)
	return len(b), nil
}

func (l *logSink) rows() ([]serialrecorder.Row, error) {
	l.mu.Lock()
	b := append([]byte(nil), l.b...)
	l.mu.Unlock()
	dec := gob.NewDecoder(bytes.NewReader(b))
	var r []serialrecorder.Row
	for {
		var x serialrecorder.Row
		if err := dec.Decode(&x); err == io.EOF {
			return r, nil
		} else if err != nil {
			return r, err
		}
		r = append(r, x)
	}
}

type transfer struct {
	data      []byte
	notBefore time.Time // it was not complete before
	notAfter  time.Time // the caller has got its result
}

func runR01(c *Case) {
	if c.Index%80 == 40 && !raceEnabled {
		runRecordedConnection(c)
		return
	}
	r := newRand(c)
	p, err := newPty()
	if err != nil {
		c.Inconclusive("no pseudo terminal: %v", err)
		return
	}
	defer p.m.Close()
	keep, err := os.OpenFile(p.name, os.O_RDWR|syscall.O_NOCTTY, 0) // the master is usable all the time
	if err != nil {
		c.Inconclusive("no pseudo terminal: %v", err)
		return
	}
	defer keep.Close()
	// a name of our own, the number of the terminal is used again by others as soon as it is gone
	name := c.tempFile("port")
	if err := os.Symlink(p.name, name); err != nil {
		c.Inconclusive("no pseudo terminal: %v", err)
		return
	}
	rec := serialrecorder.New(name, 115200)
	sink := &logSink{}
	if c.R.Intn(4) == 0 {
		sink.slow = time.Duration(c.R.Intn(400)) * time.Microsecond
	}
	rec.Logger = sink
	var reads, writes []transfer
	sessions := 1 + c.R.Intn(3)
	huge := c.R.Intn(6) == 0
	for s := 0; s < sessions && !c.violated(); s++ {
		port, err := rec.Open()
		if err != nil {
			c.Violate("opening the port failed: %v", err)
			return
		}
		total := c.R.Intn(2000)
		if c.R.Intn(8) == 0 {
			total = 0
		}
		nw := c.R.Intn(60)
		bufN := 1 + c.R.Intn(64)
		if c.R.Intn(100) == 0 || c.Index == 5 { // a long recording
			nw, total, bufN = 4000+c.R.Intn(4000), 20000, 4+c.R.Intn(8)
		}
		in := randBytes(c.R, total)
		var wg sync.WaitGroup
		var mu sync.Mutex
		type mark struct {
			upto int
			t    time.Time
		}
		var marks []mark
		// the other side sends
		wg.Add(1)
		go func() {
			defer wg.Done()
			for at := 0; at < total; {
				n := min(total-at, 1+r.Intn(100))
				mu.Lock()
				marks = append(marks, mark{at + n, time.Now()})
				mu.Unlock()
				p.m.Write(in[at : at+n])
				at += n
				if r.Intn(3) == 0 {
					time.Sleep(r.Dur(0, 300*time.Microsecond))
				}
			}
		}()
		// the user reads
		wg.Add(1)
		go func() {
			defer wg.Done()
			buf := make([]byte, bufN)
			for at := 0; at < total; {
				n, err := port.Read(buf)
				end := time.Now()
				if err != nil || n < 1 || n > len(buf) || at+n > total || !bytes.Equal(buf[:n], in[at:at+n]) {
					c.Violate("reading %d bytes at %d of %d gave %d, %v, %x", len(buf), at, total, n, err, buf[:max(0, min(n, len(buf)))])
					return
				}
				mu.Lock()
				var t time.Time
				for _, m := range marks {
					if m.upto >= at+n {
						t = m.t
						break
					}
				}
				reads = append(reads, transfer{append([]byte(nil), buf[:n]...), t, end})
				mu.Unlock()
				at += n
				for i := range buf { // free to be reused
					buf[i] ^= 0xa5
				}
				jitter(r.Intn(128))
			}
		}()
		// the user writes
		var sent []byte
		var chunks [][]byte
		for i := 0; i < nw; i++ {
			b := randBytes(c.R, 1+c.R.Intn(80))
			if c.R.Intn(12) == 0 {
				b = nil
			}
			if huge && i == 3 {
				b = randBytes(c.R, 150000)
			}
			chunks = append(chunks, b)
			sent = append(sent, b...)
		}
		var started time.Time
		wg.Add(1)
		go func() {
			defer wg.Done()
			buf := make([]byte, 200000)
			for _, b := range chunks {
				n := copy(buf, b)
				t := time.Now()
				m, err := port.Write(buf[:n])
				end := time.Now()
				if m != n || err != nil {
					c.Violate("writing %d bytes gave %d, %v", n, m, err)
					return
				}
				for i := range buf[:n] {
					buf[i] ^= 0x5a
				}
				if n == 0 {
					continue
				}
				mu.Lock()
				if n > 100000 && started.After(t) {
					t = started // it can not have been complete before the other side took any of it
				}
				writes = append(writes, transfer{append([]byte(nil), b...), t, end})
				mu.Unlock()
				jitter(r.Intn(128))
			}
		}()
		// the other side receives
		wg.Add(1)
		go func() {
			defer wg.Done()
			if huge {
				time.Sleep(3 * time.Millisecond)
			}
			mu.Lock()
			started = time.Now()
			mu.Unlock()
			got := make([]byte, len(sent))
			if _, err := io.ReadFull(p.m, got); err != nil || !bytes.Equal(got, sent) {
				c.Violate("the port received other bytes than were written (%v)", err)
			}
		}()
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		for waited := 0; ; waited++ {
			select {
			case <-done:
			case <-time.After(time.Second):
				if !c.violated() && waited < 30 {
					continue
				}
				if !c.violated() {
					c.Violate("transfers do not get anywhere")
				}
				return
			}
			break
		}
		if err := port.Close(); err != nil {
			c.Violate("closing the port failed: %v", err)
		}
		if n, err := port.Read(make([]byte, 5)); n != 0 || err == nil {
			c.Violate("reading from the closed port gave %d, %v", n, err)
		}
		if n, err := port.Write([]byte{1, 2}); n > 0 || err == nil {
			c.Violate("writing to the closed port gave %d, %v", n, err)
		}
	}
	// the port is opened again while somebody writes
	reopened := 0
	if c.R.Intn(2) == 0 && !c.violated() {
		port, err := rec.Open()
		if err != nil {
			c.Violate("opening the port failed: %v", err)
			return
		}
		var mu sync.Mutex
		var sent []byte
		stop, gone := make(chan struct{}), make(chan struct{})
		go func() {
			defer close(gone)
			defer func() {
				if x := recover(); x != nil {
					c.Violate("writing while the port is opened again panicked: %v", x)
				}
			}()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				b := []byte{byte(i), byte(i >> 8), 0x77}[:1+i%3]
				t := time.Now()
				n, err := port.Write(b)
				end := time.Now()
				if n == len(b) && err == nil {
					mu.Lock()
					sent = append(sent, b...)
					writes = append(writes, transfer{b, t, end})
					mu.Unlock()
				} else if n > 0 || err == nil {
					c.Violate("writing %d bytes gave %d, %v", len(b), n, err)
				}
				if len(sent) > 3000 {
					return
				}
				jitter(r.Intn(128))
			}
		}()
		for k := 1 + c.R.Intn(6); k > 0; k-- {
			time.Sleep(r.Dur(0, 300*time.Microsecond))
			port.Close()
			if r.Intn(2) == 0 {
				time.Sleep(r.Dur(0, 200*time.Microsecond))
			}
			p2, err := rec.Open()
			if err != nil {
				c.Violate("opening the port again failed: %v", err)
				break
			}
			_ = p2 // the writer goes on with what it has, like the writer of a connection may
			reopened++
		}
		time.Sleep(r.Dur(0, 300*time.Microsecond))
		close(stop)
		select {
		case <-gone:
		case <-time.After(20 * time.Second):
			c.Violate("writing while the port is opened again does not end")
			return
		}
		got := make([]byte, len(sent))
		if _, err := io.ReadFull(p.m, got); err != nil || !bytes.Equal(got, sent) {
			i := 0
			for i < len(got) && got[i] == sent[i] {
				i++
			}
			c.Violate("the port received other bytes than were written while it was opened again (%v): at %d %.30x instead of %.30x", err, i, got[i:], sent[i:])
		}
		port.Close()
	}
	// errors of the port itself
	failures := 0
	if c.R.Intn(3) == 0 && !c.violated() {
		port, err := rec.Open()
		ref, err2 := serial.OpenPort(&serial.Config{Name: name, Baud: 115200})
		if err != nil || err2 != nil {
			c.Violate("opening the port failed: %v %v", err, err2)
			return
		}
		p.m.Close()
		for i := 0; i < 3; i++ {
			b1, b2 := make([]byte, 9), make([]byte, 9)
			n1, e1 := port.Read(b1)
			n2, e2 := ref.Read(b2)
			if n1 != n2 || errText(e1) != errText(e2) {
				c.Violate("reading from the port that is gone gives %d, %v, with the recorder %d, %v", n2, e2, n1, e1)
			}
			n1, e1 = port.Write([]byte{1, 2, 3})
			n2, e2 = ref.Write([]byte{1, 2, 3})
			if n1 != n2 && max(n1, n2) > 0 || errText(e1) != errText(e2) {
				c.Violate("writing to the port that is gone gives %d, %v, with the recorder %d, %v", n2, e2, n1, e1)
			}
			failures++
		}
		ref.Close()
		port.Close()
		os.Remove(name)
		// it is not there any more, somebody may still have the old one
		if _, err := rec.Open(); err == nil {
			c.Violate("opening a port that is gone reports no error")
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					c.Violate("using the port after it could not be opened again panicked: %v", x)
				}
			}()
			if n, err := port.Write([]byte{1, 2, 3}); n > 0 || err == nil {
				c.Violate("writing to a port that could not be opened again gave %d, %v", n, err)
			}
			if n, err := port.Read(make([]byte, 3)); n > 0 || err == nil {
				c.Violate("reading from a port that could not be opened again gave %d, %v", n, err)
			}
			port.Close()
		}()
	}
	if _, err := serialrecorder.New(filepath.Join(filepath.Dir(c.tempFile("x")), "nothing"), 9600).Open(); err == nil {
		c.Violate("opening a port that does not exist reports no error")
	}
	if c.violated() {
		return
	}
	// the log is written later
	var rows []serialrecorder.Row
	want := len(reads) + len(writes)
	last, lastT := -1, time.Now()
	for {
		rows, err = sink.rows()
		if err != nil && !errors.Is(err, io.ErrUnexpectedEOF) {
			c.Violate("the log can not be decoded after %d rows: %v", len(rows), err)
			return
		}
		if len(rows) != last {
			last, lastT = len(rows), time.Now()
		}
		if err == nil && len(rows) >= want || time.Since(lastT) > 5*time.Second {
			break
		}
		time.Sleep(2 * time.Millisecond)
	}
	time.Sleep(2 * time.Millisecond)
	if rows, err = sink.rows(); err != nil {
		c.Violate("the log can not be decoded completely: %v after %d of %d rows", err, len(rows), want)
		return
	}
	ri, wi, inter := 0, 0, 0
	lastTime := map[serialrecorder.Direction]time.Time{}
	for i, x := range rows {
		var tr transfer
		if x.Direction.IsRead() {
			if ri >= len(reads) {
				c.Violate("row %d: there was no read number %d", i, ri)
				return
			}
			tr = reads[ri]
			ri++
		} else {
			if wi >= len(writes) {
				c.Violate("row %d: there was no write number %d", i, wi)
				return
			}
			tr = writes[wi]
			wi++
		}
		if i > 0 && rows[i-1].Direction != x.Direction {
			inter++
		}
		if !bytes.Equal(x.Data, tr.data) {
			c.Violate("row %d (%s): %d bytes %.40x instead of %d bytes %.40x", i, x.Direction, len(x.Data), x.Data, len(tr.data), tr.data)
			return
		}
		if x.Timestamp.UnixNano() < tr.notBefore.UnixNano() {
			c.Violate("row %d (%s): its time is %v before the transfer was complete", i, x.Direction, tr.notBefore.Sub(x.Timestamp))
		}
		if x.Timestamp.UnixNano() > tr.notAfter.UnixNano() {
			c.Violate("row %d (%s): its time is %v after the call that made it returned", i, x.Direction, x.Timestamp.Sub(tr.notAfter))
		}
		if x.Timestamp.UnixNano() < lastTime[x.Direction].UnixNano() && !lastTime[x.Direction].IsZero() {
			c.Violate("row %d (%s): its time is before the one of the previous row", i, x.Direction)
		}
		lastTime[x.Direction] = x.Timestamp
	}
	if ri != len(reads) || wi != len(writes) {
		c.Violate("the log has %d of %d reads and %d of %d writes", ri, len(reads), wi, len(writes))
	}
	c.Count("rows", len(rows))
	c.Count("changes_of_direction", inter)
	c.Count("sessions", sessions)
	c.Count("failures_compared", failures)
	c.Count("reopened_while_writing", reopened)
	c.Mark(len(reads), len(writes), inter, sessions)
	c.Sample(fmt.Sprintf("%d sessions, %d reads, %d writes, %d changes of direction in the log, slow log %v", sessions, len(reads), len(writes), inter, sink.slow))
	if ri > 0 && wi > 0 && inter > 1 {
		c.Nontrivial()
	}
}

func errText(e error) string {
	if e == nil {
		return ""
	}
	if p, ok := e.(*os.PathError); ok {
		return p.Op + p.Err.Error()
	}
	return e.Error()
}

var rowLine = regexp.MustCompile(`^(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d(?:\.\d+)?) ([+-]\d{4}).*: (read|write) - ([0-9a-f]*)$`)

func runR02(c *Case) {
	conv := filepath.Join(binDir(), "serialrecordingtohex")
	if _, err := os.Stat(conv); err != nil {
		c.Violate("the converter does not build")
		return
	}
	n := c.R.Intn(40)
	if c.R.Intn(6) == 0 {
		n = c.R.Intn(200)
	}
	if c.R.Intn(60) == 0 {
		n = c.R.Intn(3000)
	}
	if c.R.Intn(700) == 0 || c.Index == 3 {
		n = 10000 + c.R.Intn(60000)
	}
	now := time.Unix(1500000000+c.R.Int63n(1e8), c.R.Int63n(1e9))
	if c.R.Intn(2) == 0 {
		now = now.UTC()
	}
	var rows []serialrecorder.Row
	type group struct {
		dir      string
		data     []byte
		from, to time.Time
	}
	var groups []*group
	cur := map[serialrecorder.Direction]*group{}
	lastT := map[serialrecorder.Direction]time.Time{}
	bias := c.R.Intn(101)
	dense := c.R.Intn(3)
	joined, apart := 0, 0
	for i := 0; i < n; i++ {
		d := serialrecorder.DirectionRead
		if c.R.Intn(100) < bias {
			d = serialrecorder.DirectionWrite
		}
		var gap time.Duration
		switch k := c.R.Intn(6); {
		case k == 0:
			gap = durIn(c.R, 0, time.Minute)
		case k == 1 || dense == 0:
			gap = durIn(c.R, 0, 3*time.Millisecond)
		case k == 2:
			gap = 0
		default:
			gap = durIn(c.R, 0, 400*time.Microsecond)
		}
		now = now.Add(gap)
		if t, ok := lastT[d]; ok && c.R.Intn(8) == 0 { // close to the limit
			if l := t.Add(time.Millisecond + time.Duration(c.R.Intn(3)-1)); !l.Before(now.Add(-gap)) {
				now = l
			}
		}
		row := serialrecorder.Row{Timestamp: now, Direction: d, Data: randBytes(c.R, 1+c.R.Intn([]int{20, 20, 20, 2000}[c.R.Intn(4)]))}
		rows = append(rows, row)
		if t, ok := lastT[d]; ok && now.Sub(t) < time.Millisecond {
			cur[d].data = append(cur[d].data, row.Data...)
			cur[d].to = now
			joined++
		} else {
			g := &group{d.String(), append([]byte(nil), row.Data...), now, now}
			groups = append(groups, g)
			if ok {
				apart++
			}
			cur[d] = g
		}
		lastT[d] = now
	}
	// concurrent transfers are not always logged in the order of their times
	if c.R.Intn(3) == 0 {
		for i := 1; i < len(rows); i++ {
			if rows[i].Direction != rows[i-1].Direction && rows[i].Timestamp.Sub(rows[i-1].Timestamp) < 2*time.Millisecond && c.R.Intn(3) == 0 {
				rows[i], rows[i-1] = rows[i-1], rows[i]
			}
		}
	}
	var buf bytes.Buffer
	enc := gob.NewEncoder(&buf)
	for i := range rows {
		enc.Encode(&rows[i])
	}
	file := c.tempFile("rec.gob")
	os.WriteFile(file, buf.Bytes(), 0644)
	defer os.Remove(file)
	run := func(arg ...string) (lines []string, ok bool) {
		cmd := exec.Command(conv, append([]string{"-file=" + file}, arg...)...)
		var e bytes.Buffer
		cmd.Stderr = &e
		out, err := cmd.Output()
		if err != nil {
			c.Violate("converting %v of %d rows failed: %v %s", arg, len(rows), err, e.String())
			return nil, false
		}
		s := strings.TrimSuffix(string(out), "\n")
		if s == "" {
			return nil, true
		}
		return strings.Split(s, "\n"), true
	}
	for _, sel := range []string{"both", "read", "write", "none"} {
		var arg []string
		if sel == "read" || sel == "none" {
			arg = append(arg, "-write=false")
		}
		if sel == "write" || sel == "none" {
			arg = append(arg, "-read=false")
		}
		lines, ok := run(arg...)
		if !ok {
			return
		}
		want := map[string][]*group{}
		wantN := 0
		for _, g := range groups {
			if sel == "both" || sel == g.dir {
				want[g.dir] = append(want[g.dir], g)
				wantN++
			}
		}
		if len(lines) != wantN {
			c.Violate("%s: %d lines were printed for %d groups of rows", sel, len(lines), wantN)
			return
		}
		var prev time.Time
		var hexes []string
		for i, l := range lines {
			m := rowLine.FindStringSubmatch(l)
			if m == nil {
				c.Violate("%s: line %d is %.200q", sel, i, l)
				return
			}
			t, err := time.Parse("2006-01-02 15:04:05.999999999 -0700", m[1]+" "+m[2])
			if err != nil {
				c.Violate("%s: the time of line %d is %q", sel, i, m[1])
				return
			}
			if i > 0 && t.Before(prev) {
				c.Violate("%s: line %d is older than the one before", sel, i)
			}
			prev = t
			q := want[m[3]]
			if len(q) == 0 {
				c.Violate("%s: line %d is a %s too much: %.100s", sel, i, m[3], m[4])
				return
			}
			if hx(q[0].data) != m[4] {
				c.Violate("%s: line %d is %.200s, should be %.200s (%s)", sel, i, m[4], hx(q[0].data), m[3])
				return
			}
			if t.Before(q[0].from) || t.After(q[0].to) {
				c.Violate("%s: line %d has the time %v, its bytes were transferred from %v to %v", sel, i, t, q[0].from, q[0].to)
			}
			want[m[3]] = q[1:]
			hexes = append(hexes, m[4])
		}
		if sel == "read" || sel == "write" {
			short, ok := run(append(arg, "-short")...)
			if !ok {
				return
			}
			if strings.Join(short, "\n") != strings.Join(hexes, "\n") {
				c.Violate("%s: the short form has other bytes than the long one", sel)
			}
		}
	}
	sort.Slice(groups, func(i, j int) bool { return groups[i].from.Before(groups[j].from) })
	c.Count("rows", len(rows))
	c.Count("lines", len(groups))
	c.Count("joined", joined)
	c.Mark(buf.Len(), len(groups), joined)
	c.Sample(fmt.Sprintf("%d rows, %d lines, %d joined", len(rows), len(groups), joined))
	if joined > 0 && apart > 0 {
		c.Nontrivial()
	}
}

// binDir is where the check builds the programs of the repository.
func binDir() string {
	if d := os.Getenv("VP_BIN"); d != "" {
		return d
	}
	return filepath.Join(os.Getenv("VP_HERE"), "bin")
}
