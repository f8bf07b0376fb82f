package sim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/stampzilla/gozwave/database"
)

func init() {
	register("D01", "all ids of the sources in database/json are looked up, in random order and by several goroutines, results are changed and looked up again; 20000 other triples per case (real parts combined differently, neighbours, empty and swapped ones) must give nothing. Non-trivial when at least 500 devices were compared", runD01)
	register("D02", "all 65536 pairs of generic and specific class are looked up, in random order and by several goroutines, results are changed and looked up again, and compared with database/mandatory.txt. Non-trivial when at least 30 pairs with classes were compared", runD02)
	register("D03", "1 to 8 device description files with labels of every kind of text (quotes, backslashes, control characters, other scripts), shared ids, 0 to 3 endpoints, options; specification lists of 1 to 12 blocks; the generators run twice (from different directories), the result is compiled, all ids and some others and all 65536 pairs are looked up in it. Non-trivial when at least two devices and two pairs were compared", runD03)
}

// srcDevice is a device description file.
type srcDevice struct {
	Label        string        `json:"label"`
	Manufacturer string        `json:"manufacturer_name"`
	ID           string        `json:"manufacturer_id"`
	Refs         []string      `json:"device_ref"`
	Description  string        `json:"decription"`
	Endpoints    []srcEndpoint `json:"endpoints"`
	Parameters   []srcParam    `json:"parameters"`
}

type srcEndpoint struct {
	Classes []srcClass `json:"commandclasses"`
}

type srcClass struct {
	ID        string `json:"id"`
	Name      string `json:"name"`
	Version   string `json:"version"`
	NIF       bool   `json:"nif"`
	Secure    bool   `json:"secure"`
	NonSecure bool   `json:"nonsecure"`
}

type srcParam struct {
	ID      int         `json:"id"`
	Label   string      `json:"label"`
	Size    int         `json:"size"`
	Min     int64       `json:"value_min"`
	Max     int64       `json:"value_max"`
	Options []srcOption `json:"options"`
}

type srcOption struct {
	Value int64  `json:"value"`
	Label string `json:"label"`
}

// refDevice describes what a lookup has to return.
func refDevice(d srcDevice, typ, prod string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "brand %q label %q description %q ids %s %s %s", d.Manufacturer, d.Label, d.Description, strings.ToLower(d.ID), strings.ToLower(typ), strings.ToLower(prod))
	if len(d.Endpoints) > 0 {
		for _, c := range d.Endpoints[0].Classes {
			var id int
			fmt.Sscanf(c.ID, "%x", &id)
			fmt.Fprintf(&b, " class %02x %q %v %v %v", id, c.Version, c.NIF, c.Secure, c.NonSecure)
		}
	}
	for _, p := range d.Parameters {
		fmt.Fprintf(&b, " parameter %d %q %d", p.ID, p.Label, p.Size)
		for _, o := range p.Options {
			fmt.Fprintf(&b, " [%d-%d %q]", o.Value, o.Value, o.Label)
		}
		if len(p.Options) == 0 {
			fmt.Fprintf(&b, " [%d-%d %q]", p.Min, p.Max, "")
		}
	}
	return b.String()
}

func gotDevice(d *database.Device) string {
	if d == nil {
		return ""
	}
	var b strings.Builder
	fmt.Fprintf(&b, "brand %q label %q description %q ids %s %s %s", d.Brand, d.Product, d.Description, strings.ToLower(d.ManufacturerID), strings.ToLower(d.ProductType), strings.ToLower(d.ProductID))
	for _, c := range d.CommandClasses {
		if c == nil {
			b.WriteString(" no class")
			continue
		}
		fmt.Fprintf(&b, " class %02x %q %v %v %v", byte(c.ID), c.Version, c.InNIF, c.Secure, c.NonSecure)
	}
	for _, p := range d.Parameters {
		if p == nil {
			b.WriteString(" no parameter")
			continue
		}
		fmt.Fprintf(&b, " parameter %d %q %d", p.ID, p.Name, p.Size)
		for _, o := range p.Values {
			fmt.Fprintf(&b, " [%d-%d %q]", o.From, o.To, o.Desc)
		}
	}
	return b.String()
}

// firstDiff shows where two descriptions differ.
func firstDiff(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	from := max(0, i-60)
	cut := func(s string) string { return s[min(from, len(s)):min(len(s), i+80)] }
	return fmt.Sprintf("...%q, should be ...%q", cut(got), cut(want))
}

// refDevices maps lower case ids to descriptions, the first listing counts.
func refDevices(dir string) (map[[3]string]string, error) {
	r := map[[3]string]string{}
	files, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	for _, f := range files {
		if !strings.HasSuffix(f.Name(), ".json") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, f.Name()))
		if err != nil {
			return nil, err
		}
		var d srcDevice
		if err := json.Unmarshal(b, &d); err != nil {
			return nil, fmt.Errorf("%s: %v", f.Name(), err)
		}
		for _, ref := range d.Refs {
			p := strings.Split(ref, ":")
			for len(p) < 2 {
				p = append(p, "")
			}
			k := [3]string{strings.ToLower(d.ID), strings.ToLower(p[0]), strings.ToLower(p[1])}
			if _, ok := r[k]; !ok {
				r[k] = refDevice(d, p[0], p[1])
			}
		}
	}
	return r, nil
}

var refDB map[[3]string]string
var refDBOnce sync.Once

func runD01(c *Case) {
	var err error
	refDBOnce.Do(func() { refDB, err = refDevices("/repo/database/json") })
	if err != nil || len(refDB) == 0 {
		c.Inconclusive("the sources can not be read: %v", err)
		return
	}
	var keys [][3]string
	for k := range refDB {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	var wg sync.WaitGroup
	n, none := 0, 0
	for g := 0; g < 3; g++ {
		r := rand.New(rand.NewSource(c.R.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					c.Violate("looking up devices panicked: %v", x)
				}
			}()
			cnt := 0
			for _, i := range r.Perm(len(keys)) {
				k := keys[i]
				d := database.New(k[0], k[1], k[2])
				if x := gotDevice(d); x != refDB[k] {
					c.Violate("lookup of %v: %s", k, firstDiff(x, refDB[k]))
					return
				}
				e := database.New(k[0], k[1], k[2])
				if e == d {
					c.Violate("two lookups of %v return the same device", k)
					return
				}
				// it belongs to the caller
				d.Brand, d.Product, d.ManufacturerID = "x", "y", "z"
				for _, x := range d.CommandClasses {
					x.ID ^= 0x55
					x.Version = "changed"
				}
				for _, p := range d.Parameters {
					p.Name = "changed"
					for j := range p.Values {
						p.Values[j].From--
						p.Values[j].Desc = "changed"
					}
					p.Values = append(p.Values[:0], p.Values[:0]...)
				}
				for j := range d.CommandClasses {
					d.CommandClasses[j] = nil
				}
				if x := gotDevice(e); x != refDB[k] {
					c.Violate("changing one result of a lookup of %v changed another one: %s", k, firstDiff(x, refDB[k]))
					return
				}
				if x := gotDevice(database.New(k[0], k[1], k[2])); x != refDB[k] {
					c.Violate("changing the result of a lookup of %v changed a later one: %s", k, firstDiff(x, refDB[k]))
					return
				}
				cnt++
			}
			c.mu.Lock()
			n += cnt
			c.mu.Unlock()
		}()
	}
	wg.Wait()
	for i := 0; i < 20000 && !c.violated(); i++ {
		a, b, d := keys[c.R.Intn(len(keys))], keys[c.R.Intn(len(keys))], keys[c.R.Intn(len(keys))]
		k := [3]string{a[0], b[1], d[2]}
		switch c.R.Intn(8) {
		case 0:
			k = [3]string{a[0], a[1], d[2]}
		case 1:
			k = [3]string{a[0], b[1], b[2]}
		case 2:
			k = a
			k[c.R.Intn(3)] = fmt.Sprintf("%04x", c.R.Intn(1<<16))
		case 3:
			k = a
			j := c.R.Intn(3)
			x := []byte(k[j])
			if len(x) > 0 {
				x[c.R.Intn(len(x))] = "0123456789abcdef"[c.R.Intn(16)]
			}
			k[j] = string(x)
		case 4:
			k = [3]string{a[c.R.Intn(3)], a[c.R.Intn(3)], a[c.R.Intn(3)]}
		case 5:
			k = a
			k[c.R.Intn(3)] = ""
		}
		x := gotDevice(database.New(k[0], k[1], k[2]))
		if want, ok := refDB[k]; x != want {
			c.Violate("lookup of %v, listed %v: %s", k, ok, firstDiff(x, want))
		} else if !ok {
			none++
		}
	}
	c.Count("lookups_compared", n)
	c.Count("devices_in_sources", len(keys))
	c.Count("unlisted_triples", none)
	c.Mark(none, c.Index)
	c.Sample(fmt.Sprintf("%d devices, %d unlisted triples", len(keys), none))
	if n >= 3*500 && none > 0 {
		c.Nontrivial()
	}
}

// className maps the names of the specification list, in this order. The first part that is contained counts, "=" means equal.
var classNames = []struct {
	name string
	id   byte
}{
	{"Application Status", 0x22}, {"Association Group Information", 0x59}, {"Multichannel Association", 0x8e}, {"Association", 0x85},
	{"=Basic", 0x20}, {"Binary Switch", 0x25}, {"Central Scene", 0x5b}, {"CRC16", 0x56}, {"Device Reset Locally", 0x5a},
	{"=Manufacturer Specific", 0x72}, {"Meter", 0x32}, {"Multi Channel", 0x60}, {"Multilevel Sensor", 0x31}, {"Multilevel Switch", 0x26},
	{"=Notification", 0x71}, {"=Power Level", 0x73}, {"Security", 0x98}, {"Version", 0x86}, {"Z-Wave Plus Info", 0x5e},
}

// unknownClasses are classes of the specification that the generator does not know, some begin or end like one that it knows
var unknownClasses = []string{"Simple AV", "Simple AV Control", "Power Management", "Basic Window Covering", "Basic Tariff Information", "Manufacturer Proprietary", "Thermostat Mode", "Thermostat Setback", "Binary Sensor", "Binary Toggle", "Multi Command", "Multilevel Toggle", "Configuration", "Wake Up", "Battery", "Clock", "Switch All", "Color Switch", "Scene Activation", "Screen Meta Data", "Door Lock", "Application Capability", "Device Identification", "Group Information", "Level", "Notify", "Plus"}

func classByName(s string) byte {
	for _, n := range classNames {
		if n.name == "="+s || n.name[0] != '=' && strings.Contains(s, n.name) {
			return n.id
		}
	}
	return 0
}

// refMandatory reads a specification list.
func refMandatory(text string) (map[string][]byte, error) {
	values := map[string]byte{}
	specific := map[string]map[string]byte{}
	for _, g := range zwClasses {
		values[g.Name] = g.Value
		specific[g.Name] = map[string]byte{}
		for _, s := range g.Specific {
			specific[g.Name][s.Name] = s.Value
		}
	}
	r := map[string][]byte{}
	for _, block := range strings.Split(strings.Replace(text, "\r\n", "\n", -1)+"\n", "\n\n") {
		var keys []string
		var classes []byte
		for _, l := range strings.Split(block, "\n") {
			l = strings.TrimSpace(l)
			switch {
			case strings.HasPrefix(l, "#"):
				w := strings.Split(l, "-")
				if len(w) < 3 {
					return nil, fmt.Errorf("line %q", l)
				}
				g, s := strings.TrimSpace(w[len(w)-2]), strings.TrimSpace(w[len(w)-1])
				if s == "SPECIFIC_TYPE_NOT_USED" {
					continue
				}
				v, ok := specific[g][s]
				if !ok {
					return nil, fmt.Errorf("unknown device class in line %q", l)
				}
				keys = append(keys, fmt.Sprintf("%02x%02x", values[g], v))
			case strings.HasPrefix(l, "-"):
				if id := classByName(strings.TrimSpace(strings.TrimPrefix(l, "-"))); id != 0 {
					classes = append(classes, id)
				}
			}
		}
		for _, k := range keys {
			r[k] = classes
		}
	}
	return r, nil
}

func classBytes(l []*database.CommandClass) (b []byte) {
	for _, x := range l {
		if x.InNIF || x.Secure || x.NonSecure || x.Version != "" {
			b = append(b, 0xff, 0xff)
		}
		b = append(b, byte(x.ID))
	}
	return
}

func runD02(c *Case) {
	text, err := os.ReadFile("/repo/database/mandatory.txt")
	if err != nil {
		c.Inconclusive("%v", err)
		return
	}
	want, err := refMandatory(string(text))
	if err != nil {
		c.Inconclusive("%v", err)
		return
	}
	var wg sync.WaitGroup
	full, empty := 0, 0
	for g := 0; g < 2; g++ {
		r := rand.New(rand.NewSource(c.R.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			f, e := 0, 0
			for _, i := range r.Perm(65536) {
				key := fmt.Sprintf("%04x", i)
				for again := 0; again < 3; again++ {
					l := database.GetMandatoryCommandClasses(byte(i>>8), byte(i))
					if !bytes.Equal(classBytes(l), want[key]) {
						c.Violate("device class %s has mandatory classes %x, should be %x (lookup %d)", key, classBytes(l), want[key], again)
						return
					}
					if len(l) == 0 {
						e++
						break
					}
					f++
					switch again { // it belongs to the caller
					case 0:
						for _, x := range l {
							x.ID, x.Version, x.Secure = 0x99, "7", true
						}
					case 1:
						for j := range l {
							l[j] = &database.CommandClass{ID: 0x11}
						}
						l = append(l[:len(l)-1], &database.CommandClass{ID: 0x12}, &database.CommandClass{ID: 0x13})
					}
				}
			}
			c.mu.Lock()
			full += f
			empty += e
			c.mu.Unlock()
		}()
	}
	wg.Wait()
	c.Count("lookups_with_classes", full)
	c.Count("lookups_without", empty)
	c.Mark(c.Index)
	c.Sample(fmt.Sprintf("%d device classes in the list", len(want)))
	if full >= 2*3*30 && empty > 0 {
		c.Nontrivial()
	}
}

func nastyText(r *rand.Rand) string {
	parts := []string{"\"", "\\", "\n", "\r", "\r\n", "\t", "\x00", "\ufeff", "\u2028", "é", "雪", "😀", "`", "'", "{{.Package}}", "</script>", "&amp;", "%d", "\\n", "\\\"", "$", "\x7f", "\x01", "plain text ", "\u00a0", "\x1b[0m", "*/", "//", "\b\f\v", "\ufffd"}
	var b strings.Builder
	for i := r.Intn(8); i > 0; i-- {
		b.WriteString(parts[r.Intn(len(parts))])
		if r.Intn(3) == 0 {
			b.WriteString("word")
		}
	}
	return b.String()
}

func runD03(c *Case) {
	dir := filepath.Dir(c.tempFile("x"))
	defer os.RemoveAll(dir)
	src := filepath.Join(dir, "src")
	os.Mkdir(src, 0755)
	hexID := func() string {
		s := fmt.Sprintf("%04x", c.R.Intn(1<<16))
		if c.R.Intn(2) == 0 {
			s = strings.ToUpper(s)
		}
		return s
	}
	var refs, manus []string
	for i := 0; i < 6; i++ {
		refs = append(refs, hexID()+":"+hexID())
		manus = append(manus, hexID())
	}
	manus = manus[:1+c.R.Intn(3)]
	flip := func(s string) string { // the same id, written in another way
		switch c.R.Intn(4) {
		case 0:
			return strings.ToUpper(s)
		case 1:
			return strings.ToLower(s)
		}
		return s
	}
	for i := 1 + c.R.Intn(8); i > 0; i-- {
		d := srcDevice{Label: nastyText(c.R), Manufacturer: nastyText(c.R), Description: nastyText(c.R), ID: flip(manus[c.R.Intn(len(manus))])}
		for j := c.R.Intn(4); j > 0; j-- {
			ref := flip(refs[c.R.Intn(6)])
			if c.R.Intn(3) == 0 {
				ref = hexID() + ":" + hexID()
			}
			if c.R.Intn(10) == 0 {
				ref = strings.Split(ref, ":")[0]
			}
			d.Refs = append(d.Refs, ref)
		}
		for j := c.R.Intn(4); j > 0; j-- {
			var e srcEndpoint
			for k := c.R.Intn(6); k > 0; k-- {
				cl := srcClass{ID: fmt.Sprintf("%02X", c.R.Intn(256)), Name: nastyText(c.R), NIF: c.R.Intn(2) == 0, Secure: c.R.Intn(2) == 0, NonSecure: c.R.Intn(2) == 0}
				cl.Version = []string{"", "1", "3", nastyText(c.R)}[c.R.Intn(4)]
				e.Classes = append(e.Classes, cl)
			}
			d.Endpoints = append(d.Endpoints, e)
		}
		for j := c.R.Intn(4); j > 0; j-- {
			p := srcParam{ID: 1 + c.R.Intn(300), Label: nastyText(c.R), Size: c.R.Intn(5), Min: int64(c.R.Intn(1000) - 500), Max: c.R.Int63n(1 << 32)}
			for k := c.R.Intn(4); k > 0; k-- {
				p.Options = append(p.Options, srcOption{int64(c.R.Intn(512) - 256), nastyText(c.R)})
			}
			d.Parameters = append(d.Parameters, p)
		}
		b, _ := json.MarshalIndent(d, "", " ")
		os.WriteFile(filepath.Join(src, fmt.Sprintf("%s_%d.json", strings.Repeat("x", c.R.Intn(3)), c.R.Intn(1000))), b, 0644)
	}
	os.WriteFile(filepath.Join(src, "README.txt"), []byte("no device"), 0644)
	want, err := refDevices(src)
	if err != nil {
		c.Inconclusive("%v", err)
		return
	}
	// the specification list
	var spec strings.Builder
	used := map[string]bool{}
	blocks := 1 + c.R.Intn(12)
	for i := 0; i < blocks; i++ {
		if c.R.Intn(2) == 0 {
			fmt.Fprintf(&spec, "Device type %d\n", i)
		}
		for j := 1 + c.R.Intn(3); j > 0; j-- {
			g := zwClasses[c.R.Intn(len(zwClasses))]
			if len(g.Specific) == 0 {
				continue
			}
			s := g.Specific[c.R.Intn(len(g.Specific))]
			if c.R.Intn(12) == 0 {
				s.Name = "SPECIFIC_TYPE_NOT_USED"
			} else if k := fmt.Sprint(g.Value, s.Value); used[k] {
				continue
			} else {
				used[k] = true
			}
			fmt.Fprintf(&spec, "# %s - %s - %s\n", []string{"Some type", "Type - with - dashes", "A"}[c.R.Intn(3)], g.Name, s.Name)
		}
		for j := c.R.Intn(9); j > 0; j-- {
			n := classNames[c.R.Intn(len(classNames))].name
			if n[0] == '=' {
				n = n[1:]
			} else {
				n += []string{"", " (v2 or newer)", " (*)", " - if CSC"}[c.R.Intn(4)]
			}
			switch c.R.Intn(8) {
			case 0:
				n = unknownClasses[c.R.Intn(len(unknownClasses))]
			case 1:
				fmt.Fprintf(&spec, "//- %s\n", n)
				continue
			case 2:
				fmt.Fprintf(&spec, "+ %s\n", n)
				continue
			}
			fmt.Fprintf(&spec, "- %s\n", n)
		}
		if i < blocks-1 || c.R.Intn(2) == 0 {
			spec.WriteString("\n")
		}
	}
	if len(used) == 0 { // a list without any device type is not of the supported form
		g := zwClasses[0]
		fmt.Fprintf(&spec, "\n# A - %s - %s\n- Basic\n", g.Name, g.Specific[0].Name)
	}
	list := filepath.Join(dir, "list.txt")
	os.WriteFile(list, []byte(spec.String()), 0644)
	wantM, err := refMandatory(spec.String())
	if err != nil {
		c.Inconclusive("%v", err)
		return
	}
	// generate
	gen := func(prog, out, wd string, arg ...string) []byte {
		p := filepath.Join(binDir(), prog)
		if _, err := os.Stat(p); err != nil {
			c.Violate("%s does not build", prog)
			return nil
		}
		cmd := exec.Command(p, append(arg, "-package", "database", "-file", out)...)
		cmd.Dir = wd
		if b, err := cmd.CombinedOutput(); err != nil {
			c.Violate("%s failed: %v %.500s", prog, err, b)
			return nil
		}
		b, err := os.ReadFile(out)
		if err != nil {
			c.Violate("%s wrote nothing", prog)
		}
		return b
	}
	dev, man := filepath.Join(dir, "devices.go"), filepath.Join(dir, "mandatory.go")
	d1 := gen("gen_database", dev, dir, "-databasedir", src)
	m1 := gen("gen_commandclasses", man, dir, "-mandatoryfile", list)
	d2 := gen("gen_database", filepath.Join(dir, "again.go"), src, "-databasedir", ".")
	m2 := gen("gen_commandclasses", filepath.Join(dir, "again2.go"), "/", "-mandatoryfile", list)
	if c.violated() {
		return
	}
	if !bytes.Equal(d1, d2) || !bytes.Equal(m1, m2) {
		c.Violate("the output depends on something else than the sources")
	}
	over := filepath.Join(dir, "overlay.json")
	o, _ := json.Marshal(map[string]interface{}{"Replace": map[string]string{"/repo/database/devices.go": dev, "/repo/database/mandatory.go": man}})
	os.WriteFile(over, o, 0644)
	bin := filepath.Join(dir, "dump")
	cmd := exec.Command("bash", "-c", ". /opt/vp/env.sh; export GOSUMDB=off; cd \"$VP_HERE/harness\" && exec go build -p 2 -ldflags=-w -overlay "+over+" -o "+bin+" ./dump")
	if b, err := cmd.CombinedOutput(); err != nil {
		c.Violate("the generated code does not compile: %.1500s", b)
		return
	}
	var q [][3]string
	for k := range want {
		q = append(q, k)
	}
	sort.Slice(q, func(i, j int) bool { return fmt.Sprint(q[i]) < fmt.Sprint(q[j]) })
	listed := len(q)
	for i := 0; i < 50; i++ {
		k := [3]string{strings.ToLower(manus[c.R.Intn(len(manus))]), strings.ToLower(hexID()), strings.ToLower(hexID())}
		if listed > 0 && c.R.Intn(2) == 0 {
			k = [3]string{q[c.R.Intn(listed)][0], q[c.R.Intn(listed)][1], q[c.R.Intn(listed)][2]}
		}
		q = append(q, k)
	}
	in, _ := json.Marshal(q)
	cmd = exec.Command(bin)
	cmd.Stdin = bytes.NewReader(in)
	out, err := cmd.Output()
	var got struct {
		Devices   []*database.Device
		Mandatory map[string][]*database.CommandClass
	}
	if err == nil {
		err = json.Unmarshal(out, &got)
	}
	if err != nil || len(got.Devices) != len(q) {
		c.Violate("the generated code can not be used: %v %.500s", err, out)
		return
	}
	for i, k := range q {
		if x := gotDevice(got.Devices[i]); x != want[k] {
			c.Violate("lookup of %v: %s", k, firstDiff(x, want[k]))
		}
	}
	pairs := 0
	for k, v := range wantM {
		if len(v) > 0 {
			pairs++
		}
		if x := classBytes(got.Mandatory[k]); !bytes.Equal(x, v) {
			c.Violate("device class %s has mandatory classes %x, should be %x", k, x, v)
		}
	}
	for k, v := range got.Mandatory {
		if _, ok := wantM[k]; !ok {
			c.Violate("device class %s has mandatory classes %x, it is not in the list", k, classBytes(v))
		}
	}
	c.Count("devices", listed)
	c.Count("pairs", pairs)
	c.Count("unlisted", len(q)-listed)
	c.Mark(string(d1), string(m1))
	c.Sample(fmt.Sprintf("%d devices, %d device classes, %d bytes generated", listed, pairs, len(d1)+len(m1)))
	if listed >= 2 && pairs >= 2 {
		c.Nontrivial()
	}
}
