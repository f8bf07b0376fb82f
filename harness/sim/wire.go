package sim

import (
	"fmt"
	"math"
	"strings"
	"time"
)

// ---- reference wire format, written from the specification in the property statements ----

func xorSum(b []byte) byte {
	s := byte(0xff)
	for _, x := range b {
		s ^= x
	}
	return s
}

// mkFrame builds a complete frame.
func mkFrame(typ byte, payload ...byte) []byte {
	f := append([]byte{0x01, byte(len(payload) + 2), typ}, payload...)
	return append(f, xorSum(f[1:]))
}

// mkReport builds an application command frame from a node.
func mkReport(node int, class, cmd byte, data ...byte) []byte {
	p := append([]byte{0x04, 0x00, byte(node), byte(len(data) + 2), class, cmd}, data...)
	return mkFrame(0x00, p...)
}

// mkNodeList builds a node list reply with the given nodes active.
func mkNodeList(ids ...int) []byte {
	p := make([]byte, 4+29+2)
	p[0], p[1], p[2], p[3] = 0x02, 0x05, 0x00, 0x1d
	for _, id := range ids {
		p[4+(id-1)/8] |= 1 << uint((id-1)%8)
	}
	p[33] = 0x05
	return mkFrame(0x01, p...)
}

// mkProto builds a protocol info reply.
func mkProto(listening bool, basic, generic, specific byte) []byte {
	c := byte(0x53)
	if listening {
		c |= 0x80
	}
	return mkFrame(0x01, 0x41, c, 0x9c, 0x00, basic, generic, specific)
}

// Item is what the first bytes of a buffer are.
type Item struct {
	T     time.Duration
	Seq   int64
	Ctrl  byte   // ACK, NAK or CAN
	Frame []byte // complete frame with correct checksum
	Size  int    // consumed
	Wait  int    // incomplete: size needed
}

// refItem classifies the first item of a non-empty buffer. Size 0 and Wait 0 means skip one byte.
func refItem(b []byte) Item {
	switch b[0] {
	case 0x06, 0x15, 0x18:
		return Item{Ctrl: b[0], Size: 1}
	case 0x01:
		if len(b) < 2 {
			return Item{Wait: 2}
		}
		need := int(b[1]) + 2
		if len(b) < need {
			return Item{Wait: need}
		}
		sum := byte(0xff)
		for _, x := range b[1 : need-1] {
			sum ^= x
		}
		if sum == b[need-1] {
			return Item{Frame: b[:need:need], Size: need}
		}
	}
	return Item{}
}

// maxGap is the age at which unfinished bytes are discarded.
const maxGap = 40 * time.Millisecond

// refScan is the reference for reassembly: it lists the items that must be processed.
func refScan(chunks []Chunk) []Item {
	var items []Item
	var buf []byte
	last := time.Duration(-1 << 60)
	for _, ch := range chunks {
		if len(ch.B) == 0 {
			continue
		}
		if ch.T-last > maxGap {
			buf = nil
		}
		last = ch.T
		buf = append(append([]byte(nil), buf...), ch.B...)
		for len(buf) > 0 {
			it := refItem(buf)
			if it.Wait > 0 {
				break
			}
			if it.Size == 0 {
				buf = buf[1:]
				continue
			}
			it.T, it.Seq = ch.T, ch.Seq
			items = append(items, it)
			buf = buf[it.Size:]
		}
	}
	return items
}

// RefMsg is the decoded content of a frame.
type RefMsg struct {
	Kind   string // "cmd", "list" or "proto"
	Node   byte
	Class  byte
	Cmd    byte
	Data   []byte
	Active map[int]bool
	Proto  RefProto
	Report *RefReport
}

// RefProto is the content of a protocol info reply.
type RefProto struct {
	Listening, Routing, Beaming, Flirs, Security bool
	Version                                      byte
	MaxBaud                                      int
	Basic, Generic, Specific                     byte
}

// refDecode decodes a complete frame with a correct checksum. nil means that it has to be rejected.
func refDecode(fr []byte) *RefMsg {
	body := fr[2 : len(fr)-1] // type, function, ...
	if len(body) < 2 {
		return nil
	}
	p := body[2:] // after the function
	switch body[1] {
	case 0x04: // status, node, length, class, command, data
		if len(p) < 3 || len(p) < 3+int(p[2]) || p[2] < 2 {
			return nil
		}
		c := p[3 : 3+int(p[2])]
		m := &RefMsg{Kind: "cmd", Node: p[1], Class: c[0], Cmd: c[1], Data: c[2:]}
		m.Report = refReport(c[0], c[1], c[2:])
		if m.Report == nil {
			return nil
		}
		return m
	case 0x02: // version, capabilities, length, bits
		if len(p) < 3 || len(p) < 3+int(p[2]) || p[2] < 6 || p[2] > 29 {
			return nil
		}
		m := &RefMsg{Kind: "list", Active: map[int]bool{}}
		for i, x := range p[3 : 3+int(p[2])] {
			for b := 0; b < 8; b++ {
				if x&(1<<uint(b)) != 0 {
					m.Active[8*i+b+1] = true
				}
			}
		}
		return m
	case 0x41:
		if len(p) < 5 {
			return nil
		}
		m := &RefMsg{Kind: "proto"}
		m.Proto = RefProto{
			Listening: p[0]>>7&1 == 1, Routing: p[0]>>6&1 == 1, Version: p[0]&7 + 1, MaxBaud: 9600,
			Flirs: p[1]>>5&3 != 0, Beaming: p[1]>>4&1 == 1, Security: p[1]&1 == 1,
			Basic: p[3], Generic: p[4],
		}
		if p[0]>>3&7 == 2 {
			m.Proto.MaxBaud = 40000
		}
		if len(p) > 5 {
			m.Proto.Specific = p[5]
		}
		return m
	}
	return nil
}

// RefReport is the decoded content of a node report.
type RefReport struct {
	Kind                          string
	On, Target                    bool
	Valid, TargetValid            bool
	Level, TargetLevel            float64
	Duration                      byte
	SType, Scale, Size, Precision byte
	Value                         float64
	Type, ALevel                  byte
	Source, Status, SensorT, Ev   byte
	Manufacturer, PType, PID      string
	Dynamic, Identical            bool
	Endpoints                     int
	Unspecified                   bool // accepted by the repository's own tests, but says nothing
}

func capped(x byte) float64 {
	if x > 100 {
		return 100
	}
	return float64(x)
}

// refReport decodes a report. nil means that it has to be rejected.
func refReport(class, cmd byte, d []byte) *RefReport {
	switch {
	case class == 0x84:
		return &RefReport{Kind: "wakeup"}
	case class == 0x25 && cmd == 0x03 && len(d) == 1:
		return &RefReport{Kind: "bin1", On: d[0] == 0xff, Valid: d[0] != 0xfe}
	case class == 0x25 && cmd == 0x03 && len(d) == 3:
		return &RefReport{Kind: "bin2", On: d[0] != 0, Target: d[1] != 0, Duration: d[2], Valid: true}
	case class == 0x26 && cmd == 0x03 && len(d) == 1:
		return &RefReport{Kind: "ml1", Level: capped(d[0]), Valid: d[0] != 0xfe}
	case class == 0x26 && cmd == 0x03 && len(d) == 3:
		return &RefReport{Kind: "ml4", Level: capped(d[0]), Valid: d[0] != 0xfe, TargetLevel: capped(d[1]), TargetValid: d[1] != 0xfe, Duration: d[2]}
	case class == 0x31 && cmd == 0x05:
		if len(d) < 2 {
			return nil
		}
		r := &RefReport{Kind: "sensor", SType: d[0], Size: d[1] & 7, Scale: d[1] >> 3 & 3, Precision: d[1] >> 5}
		if len(d) < 2+int(r.Size) {
			return nil
		}
		var v int64
		switch r.Size {
		case 0:
			r.Unspecified = true
		case 1, 2, 4:
			for _, x := range d[2 : 2+int(r.Size)] {
				v = v<<8 | int64(x)
			}
			if bits := uint(8 * r.Size); v >= 1<<(bits-1) {
				v -= 1 << bits
			}
		default:
			return nil
		}
		r.Value = float64(v)
		if r.Precision > 0 {
			r.Value /= math.Pow(10, float64(r.Precision))
		}
		return r
	case class == 0x71 && cmd == 0x05:
		if len(d) < 2 {
			return nil
		}
		r := &RefReport{Kind: "alarm", Type: d[0], ALevel: d[1]}
		if len(d) >= 6 {
			r.Source, r.Status, r.SensorT, r.Ev = d[2], d[3], d[4], d[5]
		}
		return r
	case class == 0x72 && cmd == 0x05:
		if len(d) != 6 {
			return nil
		}
		h := func(a, b byte) string { return fmt.Sprintf("%02x%02x", a, b) }
		return &RefReport{Kind: "manu", Manufacturer: h(d[0], d[1]), PType: h(d[2], d[3]), PID: h(d[4], d[5])}
	case class == 0x60 && cmd == 0x08:
		if len(d) < 2 {
			return nil
		}
		return &RefReport{Kind: "endpoints", Dynamic: d[0]>>7 == 1, Identical: d[0]>>6&1 == 1, Endpoints: int(d[1])}
	}
	return nil
}

// sensorUnits is the specification of sensor types: name and the unit of each scale
var sensorUnits = map[byte][5]string{
	1:  {"Temperature", "C", "F", "", ""},
	2:  {"General", "%", "", "", ""},
	3:  {"Luminance", "%", "lux", "", ""},
	4:  {"Power", "W", "BTU/h", "", ""},
	5:  {"RelativeHumidity", "%", "", "", ""},
	6:  {"Velocity", "m/s", "mph", "", ""},
	7:  {"Direction", "", "", "", ""},
	8:  {"AtmosphericPressure", "kPa", "inHg", "", ""},
	9:  {"BarometricPressure", "kPa", "inHg", "", ""},
	10: {"SolarRadiation", "W/m2", "W/m2", "W/m2", "W/m2"},
	11: {"DewPoint", "C", "F", "", ""},
	12: {"RainRate", "mm/h", "in/h", "", ""},
	13: {"TideLevel", "m", "ft", "", ""},
	14: {"Weight", "kg", "lb", "", ""},
	15: {"Voltage", "V", "mV", "", ""},
	16: {"Current", "A", "mA", "", ""},
	17: {"CO2", "ppm", "ppm", "ppm", "ppm"},
	18: {"AirFlow", "m3/h", "cfm", "", ""},
	19: {"TankCapacity", "l", "cbm", "gal", ""},
	20: {"Distance", "m", "cm", "ft", ""},
	21: {"AnglePosition", "%", "deg N", "deg S", ""},
	22: {"Rotation", "rpm", "hz", "", ""},
	23: {"WaterTemperature", "C", "F", "", ""},
	24: {"SoilTemperature", "C", "F", "", ""},
	25: {"SeismicIntensity", "mercalli", "EU macroseismic", "liedu", "shindo"},
	26: {"SeismicMagnitude", "local", "moment", "surface wave", "body wave"},
	27: {"Ultraviolet", "", "", "", ""},
	28: {"ElectricalResistivity", "ohm", "ohm", "ohm", "ohm"},
	29: {"ElectricalConductivity", "siemens/m", "siemens/m", "siemens/m", "siemens/m"},
	30: {"Loudness", "db", "dBA", "", ""},
	31: {"Moisture", "%", "content", "k ohm", "water activity"},
}

// sensorName gives quantity and unit of a sensor reading.
func sensorName(typ, scale byte) (string, string) {
	if u, ok := sensorUnits[typ]; ok {
		return u[0], u[1+scale]
	}
	return fmt.Sprintf("Unknown (%d)", typ), ""
}

// sensorKey is the state key of a sensor reading, built from what the report says it measures.
func sensorKey(name, unit string) string { return strings.ToLower(name + "_" + unit) }
