package sim

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"time"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/serialapi"
)

func init() {
	register("C02", "each case decodes thousands of buffers: all 1 and 2 byte buffers, random bytes, valid frames of every function, truncated, corrupted, with trailing bytes and spare capacity; non-trivial when complete frames, incomplete frames, wrong checksums and control bytes all occurred", runC02)
	register("C03", "each case decodes thousands of checksum-correct frames of every function with random content, lengths and inner lengths and compares with an independent decoder; non-trivial when both accepted and rejected frames of all three functions occurred", runC03)
	register("C04", "each case decodes thousands of reports: all single byte switch values, all sensor type/size/scale/precision bytes, random and boundary data of every length, all class/command pairs, compared with an independent decoder; non-trivial when every report kind was accepted and some data rejected", runC04)
}

// try runs f and returns the panic text, if any.
func try(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprint(r)
		}
	}()
	f()
	return
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// randValidFrame makes a checksum-correct frame, often of a known function
func randValidFrame(r *rand.Rand) []byte {
	switch r.Intn(9) {
	case 0:
		return mkNodeList(1+r.Intn(232), 1+r.Intn(232), 1+r.Intn(232))
	case 1:
		p := append([]byte{0x41}, randBytes(r, r.Intn(9))...)
		return mkFrame(byte(r.Intn(2)), p...)
	case 2: // node list with any length
		n := r.Intn(40)
		p := append([]byte{0x02, 0x05, 0x00, byte(n)}, randBytes(r, n+r.Intn(4))...)
		if r.Intn(4) == 0 {
			p[3] = byte(r.Intn(256))
		}
		return mkFrame(0x01, p...)
	case 3: // application command with any inner length
		p := append([]byte{0x04, 0x00, byte(r.Intn(256)), byte(r.Intn(256))}, randBytes(r, r.Intn(20))...)
		if r.Intn(2) == 0 {
			p[3] = byte(r.Intn(16))
		}
		return mkFrame(0x00, p...)
	case 4: // anything
		return mkFrame(byte(r.Intn(256)), randBytes(r, r.Intn(30))...)
	case 5: // shorter than a header
		b := []byte{0x01, byte(1 + r.Intn(3))}
		b = append(b, randBytes(r, int(b[1]))...)
		b[len(b)-1] = xorSum(b[1 : len(b)-1])
		return b
	case 6:
		return mkFrame(0x01, randBytes(r, 200+r.Intn(52))...)
	default:
		rep := randReport(r)
		return mkReport(r.Intn(256), rep[0], rep[1], rep[2:]...)
	}
}

// randReport makes class, command and data of a mostly valid report
func randReport(r *rand.Rand) []byte {
	pick := func() byte {
		return []byte{0, 1, 0x63, 0x64, 0x65, 0x7f, 0x80, 0xfd, 0xfe, 0xff, byte(r.Intn(256))}[r.Intn(11)]
	}
	switch r.Intn(9) {
	case 0:
		return []byte{0x25, 0x03, pick()}
	case 1:
		return []byte{0x25, 0x03, pick(), pick(), pick()}
	case 2:
		return []byte{0x26, 0x03, pick()}
	case 3:
		return []byte{0x26, 0x03, pick(), pick(), pick()}
	case 4:
		size := []int{1, 2, 4}[r.Intn(3)]
		d := []byte{0x31, 0x05, byte(r.Intn(40)), byte(r.Intn(8)<<5 | r.Intn(4)<<3 | size)}
		for i := 0; i < size; i++ {
			d = append(d, pick())
		}
		if r.Intn(4) == 0 {
			d = append(d, pick())
		}
		return d
	case 5:
		d := []byte{0x71, 0x05}
		for i := 2 + r.Intn(8); i > 0; i-- {
			d = append(d, pick())
		}
		return d
	case 6:
		return append([]byte{0x72, 0x05}, randBytes(r, 6)...)
	case 7:
		return append([]byte{0x60, 0x08}, pick(), pick())
	}
	return append([]byte{0x84, pick()}, randBytes(r, r.Intn(3))...)
}

func runC02(c *Case) {
	type cls struct{ ctrl, frame, wait, skip, bad int }
	var n cls
	seen := map[string]bool{}
	one := func(buf []byte) {
		// a window into a larger array, everything around it must stay as it was
		pre, post := c.R.Intn(4), c.R.Intn(40)
		back := make([]byte, pre+len(buf)+post)
		c.R.Read(back)
		copy(back[pre:], buf)
		orig := append([]byte(nil), back...)
		win := back[pre : pre+len(buf)]

		var l int
		var msg *serialapi.Message
		var err error
		if p := try(func() { l, msg, err = serialapi.Decode(win) }); p != "" {
			c.Violate("Decode(%x) crashed: %s", buf, p)
			return
		}
		if !bytes.Equal(back, orig) {
			c.Violate("Decode(%x) changed the memory of its caller to %x (was %x)", buf, back, orig)
			return
		}
		it := refItem(buf)
		switch {
		case it.Ctrl != 0:
			n.ctrl++
			if l != 1 || err != nil || msg == nil {
				c.Violate("Decode(%x) = %d, %v, %v, want 1 and a control message", buf, l, msg, err)
				return
			}
			if msg.IsACK() != (it.Ctrl == 0x06) || msg.IsNAK() != (it.Ctrl == 0x15) || msg.IsCAN() != (it.Ctrl == 0x18) {
				c.Violate("Decode(%x): wrong kind of control message", buf)
			}
			if msg.Data != nil {
				c.Violate("Decode(%x): control message with content %v", buf, msg.Data)
			}
		case it.Wait > 0:
			n.wait++
			if l != it.Wait || msg != nil {
				c.Violate("Decode(%x) = %d, %v, %v, want %d and no message", buf, l, msg, err, it.Wait)
			}
		case it.Size == 0:
			if buf[0] == 1 {
				n.bad++
			} else {
				n.skip++
			}
			if l != -1 || msg != nil {
				c.Violate("Decode(%x) = %d, %v, %v, want -1 and no message", buf, l, msg, err)
			}
		default:
			n.frame++
			if l != it.Size {
				c.Violate("Decode(%x) = %d, %v, %v, want %d", buf, l, msg, err, it.Size)
				return
			}
			if (msg == nil) == (err == nil) {
				c.Violate("Decode(%x) gives message %v and error %v", buf, msg, err)
			}
			if msg != nil && (msg.IsACK() || msg.IsNAK() || msg.IsCAN()) {
				c.Violate("Decode(%x): a frame is no control message", buf)
			}
			if ref := refDecode(it.Frame); (ref == nil) != (msg == nil) {
				c.Violate("Decode(%x): got message %v error %v, decodable should be %v", buf, msg, err, ref != nil)
			}
			if len(seen) < 100000 {
				seen[string(it.Frame)] = true
			}
		}
		// what follows the first item must make no difference
		if it.Size > 0 {
			for k := 0; k < 2; k++ {
				var l2 int
				var m2 *serialapi.Message
				var e2 error
				alt := append(append([]byte(nil), buf[:it.Size]...), randBytes(c.R, k*c.R.Intn(30))...)
				if p := try(func() { l2, m2, e2 = serialapi.Decode(alt) }); p != "" {
					c.Violate("Decode(%x) crashed: %s", alt, p)
					return
				}
				if l2 != l || (e2 == nil) != (err == nil) || !reflect.DeepEqual(msg, m2) {
					c.Violate("Decode depends on what follows: %x gives %d %+v %v, %x gives %d %+v %v", buf, l, msg, err, alt, l2, m2, e2)
					return
				}
			}
		}
	}
	total := 0
	do := func(b []byte) {
		if len(b) > 0 && !c.violated() {
			one(b)
			total++
		}
	}
	if c.Index == 0 {
		for i := 0; i < 256; i++ {
			do([]byte{byte(i)})
			for j := 0; j < 256; j++ {
				do([]byte{byte(i), byte(j)})
			}
		}
	}
	if c.Index == 1 {
		for j := 0; j < 65536; j++ {
			do([]byte{1, byte(j >> 8), byte(j)})
		}
	}
	// every frame length, cut everywhere
	for L := c.Index % 16; L < 256; L += 16 {
		fr := append([]byte{0x01, byte(L)}, randBytes(c.R, L)...)
		if L > 0 {
			fr[L+1] = xorSum(fr[1 : L+1])
		}
		do(fr)
		do(fr[:1+c.R.Intn(len(fr))])
		do(fr[:len(fr)-1])
		do(append(append([]byte(nil), fr...), 0x06))
	}
	for i := 0; i < 3000; i++ {
		var b []byte
		switch c.R.Intn(6) {
		case 0:
			b = randBytes(c.R, 1+c.R.Intn(40))
			if c.R.Intn(2) == 0 {
				b[0] = []byte{1, 6, 0x15, 0x18}[c.R.Intn(4)]
			}
		case 1:
			b = randValidFrame(c.R)
			b[c.R.Intn(len(b))] ^= 1 << uint(c.R.Intn(8))
		case 2:
			b = randValidFrame(c.R)
			b = b[:1+c.R.Intn(len(b))]
		case 3:
			b = append(randValidFrame(c.R), randBytes(c.R, c.R.Intn(20))...)
		case 4:
			b = append([]byte{[]byte{6, 0x15, 0x18}[c.R.Intn(3)]}, randValidFrame(c.R)...)
		default:
			b = randValidFrame(c.R)
		}
		do(b)
	}
	c.Count("buffers", total)
	c.Count("frames", n.frame)
	c.Count("control", n.ctrl)
	c.Count("incomplete", n.wait)
	c.Count("wrong_checksum", n.bad)
	c.Count("skipped", n.skip)
	c.Mark(n, len(seen), c.R.Int63())
	c.Sample(fmt.Sprintf("%+v buffers=%d distinct frames=%d", n, total, len(seen)))
	if n.ctrl > 0 && n.frame > 0 && n.wait > 0 && n.skip > 0 && n.bad > 0 {
		c.Nontrivial()
	}
}

func cmpMessage(c *Case, fr []byte, msg *serialapi.Message, err error) string {
	ref := refDecode(fr)
	if ref == nil {
		if msg != nil || err == nil {
			c.Violate("Decode(%x) = %+v, %v, has to be rejected", fr, msg, err)
		}
		return "rejected"
	}
	if err != nil || msg == nil {
		c.Violate("Decode(%x) rejected: %v, is a correct %s", fr, err, ref.Kind)
		return ref.Kind
	}
	if msg.Length != fr[1] || msg.MessageType != fr[2] || byte(msg.Function) != fr[3] {
		c.Violate("Decode(%x): length %x type %x function %x", fr, msg.Length, msg.MessageType, byte(msg.Function))
	}
	switch ref.Kind {
	case "cmd":
		d, ok := msg.Data.(*serialapi.FuncApplicationCommandHandler)
		if !ok || d == nil {
			c.Violate("Decode(%x): content is %T", fr, msg.Data)
			return ref.Kind
		}
		if msg.NodeID != ref.Node || byte(d.Command) != ref.Class || d.Class != ref.Cmd {
			c.Violate("Decode(%x): node %d class %x command %x, want %d %x %x", fr, msg.NodeID, byte(d.Command), d.Class, ref.Node, ref.Class, ref.Cmd)
		}
		if e := cmpReport(d.Report, ref.Report); e != "" {
			c.Violate("Decode(%x): %s", fr, e)
		}
	case "list":
		d, ok := msg.Data.(*serialapi.DiscoverdNodes)
		if !ok || d == nil {
			c.Violate("Decode(%x): content is %T", fr, msg.Data)
			return ref.Kind
		}
		for i, a := range d.ActiveNodes {
			if a != ref.Active[i+1] {
				c.Violate("Decode(%x): node %d active is %v", fr, i+1, a)
				break
			}
		}
		if len(d.ActiveNodes) != 232 {
			c.Violate("node list has %d nodes", len(d.ActiveNodes))
		}
	case "proto":
		d, ok := msg.Data.(*serialapi.FuncGetNodeProtocolInfo)
		if !ok || d == nil {
			c.Violate("Decode(%x): content is %T", fr, msg.Data)
			return ref.Kind
		}
		if protoOf(d) != ref.Proto {
			c.Violate("Decode(%x): %+v, want %+v", fr, *d, ref.Proto)
		}
	}
	return ref.Kind
}

func protoOf(d *serialapi.FuncGetNodeProtocolInfo) RefProto {
	return RefProto{Listening: d.Listening, Routing: d.Routing, Beaming: d.Beaming, Flirs: d.Flirs, Security: d.Security,
		Version: d.Version, MaxBaud: d.MaxBaud, Basic: d.Basic, Generic: d.Generic, Specific: d.Specific}
}

// later looks at earlier results again and again, they must stay what they were.
type later struct {
	n    int
	kept [40]func() string
}

func (l *later) keep(c *Case, check func() string) {
	if f := l.kept[c.R.Intn(len(l.kept))]; f != nil {
		if e := f(); e != "" {
			c.Violate("%s, after other things were decoded", e)
		}
		l.n++
	}
	l.kept[c.R.Intn(len(l.kept))] = check
}

func (l *later) end(c *Case) {
	for _, f := range l.kept {
		if f == nil || c.violated() {
			continue
		}
		if e := f(); e != "" {
			c.Violate("%s, after other things were decoded", e)
		}
		l.n++
	}
	c.Count("looked_at_again", l.n)
}

func runC03(c *Case) {
	kinds := map[string]int{}
	var past later
	one := func(fr []byte) {
		if c.violated() {
			return
		}
		var l int
		var msg *serialapi.Message
		var err error
		in := append(append([]byte(nil), fr...), randBytes(c.R, c.R.Intn(3))...)
		if p := try(func() { l, msg, err = serialapi.Decode(in) }); p != "" {
			c.Violate("Decode(%x) crashed: %s", in, p)
			return
		}
		if l != len(fr) {
			c.Violate("Decode(%x) consumed %d", in, l)
			return
		}
		kinds[cmpMessage(c, fr, msg, err)]++
		if msg != nil && !c.violated() {
			past.keep(c, func() string {
				if cmpMessage(c, fr, msg, err); c.violated() {
					return fmt.Sprintf("Decode(%x) gave a message that changed", fr)
				}
				return ""
			})
		}
		if len(fr) > 3 && (fr[3] == 2 || fr[3] == 4 || fr[3] == 0x41) && refDecode(fr) == nil {
			kinds[fmt.Sprintf("rejected-%x", fr[3])]++
		}
	}
	// protocol info: all values of the flag bytes
	for i := 0; i < 256; i++ {
		p := append([]byte{0x41, byte(i), byte(c.R.Intn(256))}, randBytes(c.R, 4)...)
		one(mkFrame(1, p...))
		p = append([]byte{0x41, byte(c.R.Intn(256)), byte(i)}, randBytes(c.R, 4)...)
		one(mkFrame(1, p...))
		p = append([]byte{0x41, byte(c.R.Intn(256)), byte(i)}, randBytes(c.R, 3)...)
		one(mkFrame(1, p[:6-c.R.Intn(2)*c.R.Intn(4)]...))
	}
	// node lists: each node alone, every length
	for i := 1; i <= 232; i++ {
		one(mkNodeList(i))
	}
	for n := 0; n < 256; n++ {
		for _, extra := range []int{-1, 0, 1, 2} {
			if n+extra < 0 || n+extra > 240 {
				continue
			}
			one(mkFrame(1, append([]byte{2, 5, 0, byte(n)}, randBytes(c.R, n+extra)...)...))
			rep := randReport(c.R)
			body := append(append([]byte(nil), rep...), randBytes(c.R, 260)...)[:n+extra]
			one(mkFrame(0, append([]byte{4, byte(c.R.Intn(256)), byte(c.R.Intn(256)), byte(n)}, body...)...))
		}
	}
	// every function
	for f := 0; f < 256; f++ {
		one(mkFrame(byte(c.R.Intn(2)), append([]byte{byte(f)}, randBytes(c.R, c.R.Intn(12))...)...))
	}
	for i := 0; i < 3000; i++ {
		one(randValidFrame(c.R))
	}
	past.end(c)
	for _, k := range sortedKeys(kinds) {
		c.Count("frames_"+k, kinds[k])
		c.Mark(k, kinds[k])
	}
	c.Mark(c.R.Int63())
	c.Sample(kinds)
	if kinds["cmd"] > 0 && kinds["list"] > 0 && kinds["proto"] > 0 && kinds["rejected-2"] > 0 && kinds["rejected-4"] > 0 && kinds["rejected-41"] > 0 {
		c.Nontrivial()
	}
}

func isNilReport(r reports.Report) bool {
	return r == nil || (reflect.ValueOf(r).Kind() == reflect.Ptr && reflect.ValueOf(r).IsNil())
}

// cmpReport compares a decoded report with the reference, "" means equal.
func cmpReport(r reports.Report, ref *RefReport) string {
	if isNilReport(r) {
		return "no report"
	}
	bad := func(want string) string { return fmt.Sprintf("report is %T %+v, want %s %+v", r, r, want, *ref) }
	switch ref.Kind {
	case "wakeup":
		if _, ok := r.(*reports.WakeUp); !ok {
			return bad("wake-up")
		}
	case "bin1":
		d, ok := r.(*reports.SwitchBinaryV1)
		if !ok || d.CurrentValue != ref.On || d.Valid != ref.Valid {
			return bad("binary switch")
		}
	case "bin2":
		d, ok := r.(*reports.SwitchBinaryV2)
		if !ok || d.CurrentValue != ref.On || d.TargetValue != ref.Target || byte(d.Duration) != ref.Duration {
			return bad("binary switch v2")
		}
	case "ml1":
		d, ok := r.(*reports.SwitchMultilevelV1)
		if !ok || d.CurrentValue != ref.Level || d.Valid != ref.Valid {
			return bad("multilevel switch")
		}
	case "ml4":
		d, ok := r.(*reports.SwitchMultilevelV4)
		if !ok || d.CurrentValue != ref.Level || d.Valid != ref.Valid || d.TargetValue != ref.TargetLevel || d.TargetValid != ref.TargetValid || byte(d.Duration) != ref.Duration {
			return bad("multilevel switch v4")
		}
	case "sensor":
		d, ok := r.(*reports.SensorMultiLevel)
		if !ok || byte(d.ValueType) != ref.SType || d.Size != ref.Size || d.Scale != ref.Scale || d.Precision != ref.Precision {
			return bad("sensor")
		}
		if diff := d.Value - ref.Value; !ref.Unspecified && (diff > 1e-9*(1+abs(ref.Value)) || diff < -1e-9*(1+abs(ref.Value)) || diff != diff) {
			return bad("sensor")
		}
		name, unit := sensorName(ref.SType, ref.Scale)
		if d.TypeString != name || d.Unit != unit {
			return bad("sensor " + name + " " + unit)
		}
	case "alarm":
		d, ok := r.(*reports.Alarm)
		if !ok || d.Type != ref.Type || d.Level != ref.ALevel || d.SensorSourceID != ref.Source || d.Status != ref.Status || d.SensorType != ref.SensorT || d.Event != ref.Ev {
			return bad("alarm")
		}
	case "manu":
		d, ok := r.(*reports.ManufacturerSpecific)
		if !ok || d.Manufacturer != ref.Manufacturer || d.Type != ref.PType || d.ID != ref.PID {
			return bad("manufacturer")
		}
	case "endpoints":
		d, ok := r.(*reports.MultiChannelEndpoints)
		if !ok || d.Dynamic != ref.Dynamic || d.Identical != ref.Identical || d.Endpoints != ref.Endpoints {
			return bad("endpoints")
		}
	}
	return ""
}

func abs(f float64) float64 {
	if f < 0 {
		return -f
	}
	return f
}

func runC04(c *Case) {
	kinds := map[string]int{}
	var past later
	one := func(class, cmd byte, data []byte) {
		if c.violated() {
			return
		}
		back := append(append([]byte(nil), data...), randBytes(c.R, 8)...)
		in := back[:len(data):len(data)]
		if c.R.Intn(2) == 0 {
			in = back[:len(data)]
		}
		orig := append([]byte(nil), back...)
		var rep reports.Report
		var err error
		if p := try(func() { rep, err = reports.New(commands.ZWaveCommand(class), cmd, in) }); p != "" {
			c.Violate("report %02x %02x %x crashed: %s", class, cmd, data, p)
			return
		}
		if !bytes.Equal(back, orig) {
			c.Violate("report %02x %02x %x changed the memory of its caller", class, cmd, data)
		}
		ref := refReport(class, cmd, data)
		if ref == nil {
			kinds["rejected"]++
			if err == nil || !isNilReport(rep) {
				c.Violate("report %02x %02x %x = %T %+v, error %v, has to be rejected", class, cmd, data, rep, rep, err)
			}
			return
		}
		kinds[ref.Kind]++
		if err != nil {
			c.Violate("report %02x %02x %x is correct but rejected: %v", class, cmd, data, err)
			return
		}
		if e := cmpReport(rep, ref); e != "" {
			c.Violate("report %02x %02x %x: %s", class, cmd, data, e)
			return
		}
		var s string
		if p := try(func() { rep.SetNode(byte(c.R.Intn(256))); s = rep.String() }); p != "" {
			c.Violate("report %02x %02x %x: SetNode or String crashed: %s", class, cmd, data, p)
		}
		_ = s
		if e := cmpReport(rep, ref); e != "" {
			c.Violate("report %02x %02x %x changed by SetNode: %s", class, cmd, data, e)
		}
		past.keep(c, func() string {
			if e := cmpReport(rep, ref); e != "" {
				return fmt.Sprintf("report %02x %02x %x: %s", class, cmd, data, e)
			}
			return ""
		})
	}
	for v := 0; v < 256; v++ {
		x := byte(v)
		a, b := byte(c.R.Intn(256)), byte(c.R.Intn(256))
		one(0x25, 3, []byte{x})
		one(0x26, 3, []byte{x})
		one(0x25, 3, []byte{x, a, b})
		one(0x25, 3, []byte{a, x, b})
		one(0x25, 3, []byte{a, b, x})
		one(0x26, 3, []byte{x, a, b})
		one(0x26, 3, []byte{a, x, b})
		one(0x26, 3, []byte{a, b, x})
		one(0x60, 8, []byte{x, a})
		one(0x60, 8, []byte{a, x})
		// durations
		d := commands.Duration(x)
		dur, err := d.Duration()
		var want time.Duration
		switch {
		case v <= 127:
			want = time.Duration(v) * time.Second
		case v <= 253:
			want = time.Duration(v-127) * time.Minute
		}
		if (err != nil) != (v >= 254) || (err == nil && dur != want) {
			c.Violate("duration %02x is %v, %v, want %v", x, dur, err, want)
		}
		_ = d.String()
		kinds["duration"]++
	}
	// sensors: every type with every size/scale/precision byte, spread over 8 cases
	for typ := c.Index % 8; typ < 256; typ += 8 {
		for sb := 0; sb < 256; sb++ {
			size := sb & 7
			d := append([]byte{byte(typ), byte(sb)}, randBytes(c.R, size)...)
			switch c.R.Intn(8) {
			case 0:
				for i := 2; i < len(d); i++ {
					d[i] = 0xff
				}
			case 1:
				for i := 2; i < len(d); i++ {
					d[i] = 0
				}
				if size > 0 {
					d[2] = 0x80
				}
			case 2:
				d = append(d, randBytes(c.R, 3)...)
			case 3:
				if size > 0 {
					d = d[:len(d)-1-c.R.Intn(size)]
				}
			}
			one(0x31, 5, d)
		}
	}
	for n := 0; n < 14; n++ {
		for i := 0; i < 40; i++ {
			one(0x71, 5, randBytes(c.R, n))
			one(0x72, 5, randBytes(c.R, n))
			one(0x25, 3, randBytes(c.R, n))
			one(0x26, 3, randBytes(c.R, n))
			one(0x60, 8, randBytes(c.R, n))
			one(0x31, 5, randBytes(c.R, n))
			one(0x84, byte(i), randBytes(c.R, n))
		}
	}
	// all class/command pairs, spread over 16 cases
	for p := c.Index % 16; p < 65536; p += 16 {
		one(byte(p>>8), byte(p), randBytes(c.R, c.R.Intn(10)))
	}
	for i := 0; i < 3000; i++ {
		rep := randReport(c.R)
		one(rep[0], rep[1], rep[2:])
	}
	past.end(c)
	for _, k := range sortedKeys(kinds) {
		c.Count("reports_"+k, kinds[k])
		c.Mark(k, kinds[k])
	}
	c.Mark(c.R.Int63())
	c.Sample(kinds)
	if len(kinds) >= 11 {
		c.Nontrivial()
	}
}
