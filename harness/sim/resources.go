package sim

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/stampzilla/gozwave"
	"github.com/stampzilla/gozwave/serialapi"
)

func init() {
	register("X02", "a network of 1 to 12 known nodes, 1 to 5 kinds of operations (requests that are answered, refused, cancelled, lost, answered too late or never looked at, control operations, reports, alarms, wake-ups, noise and pieces of frames, port failures with failing openings, saves, failing saves, serialisations, failing connects), each 600 to 1200 times after a warm-up; goroutines of the library, live heap objects and open files of the idle library are compared before and after. Non-trivial when at least 100 operations were measured", runX02)
}

// leanPort is a port that keeps nothing of what passes it.
type leanPort struct {
	o      *leanOpener
	rx     chan []byte
	rest   []byte
	dead   chan struct{}
	failed chan struct{}
	once   sync.Once
	fonce  sync.Once
}

type leanOpener struct {
	mu     sync.Mutex
	port   *leanPort
	fails  int
	open   int
	opened int
	handle func(p *leanPort, body []byte)
	raw    func(p *leanPort, b []byte) // instead of handle
}

func (o *leanOpener) Open() (io.ReadWriteCloser, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if o.fails > 0 {
		o.fails--
		return nil, errors.New("port is gone")
	}
	o.opened++
	o.open++
	o.port = &leanPort{o: o, rx: make(chan []byte, 1000), dead: make(chan struct{}), failed: make(chan struct{})}
	return o.port, nil
}

func (o *leanOpener) current() *leanPort {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.port
}

func (p *leanPort) Read(b []byte) (int, error) {
	if len(p.rest) == 0 {
		select {
		case p.rest = <-p.rx:
		case <-p.dead:
			return 0, errPort
		case <-p.failed:
			return 0, io.EOF
		}
	}
	n := copy(b, p.rest)
	p.rest = p.rest[n:]
	return n, nil
}

func (p *leanPort) Write(b []byte) (int, error) {
	select {
	case <-p.dead:
		return 0, errPort
	case <-p.failed:
		return 0, errPort
	default:
	}
	if p.o.raw != nil {
		p.o.raw(p, b)
	} else if len(b) > 4 && b[0] == 1 {
		p.o.handle(p, append([]byte(nil), b[3:len(b)-1]...))
	}
	return len(b), nil
}

func (p *leanPort) Close() error {
	p.once.Do(func() {
		close(p.dead)
		p.o.mu.Lock()
		p.o.open--
		p.o.mu.Unlock()
	})
	return nil
}

func (p *leanPort) feed(b []byte) {
	select {
	case p.rx <- b:
	default:
	}
}

func (p *leanPort) fail() { p.fonce.Do(func() { close(p.failed) }) }

// usage is what the idle library holds.
type usage struct {
	Goroutines int
	Objects    uint64
	Files      int
	stacks     map[string]int
}

func measure() usage {
	var u usage
	if es, err := os.ReadDir("/proc/self/fd"); err == nil { // before anything is finalised
		u.Files = len(es)
	}
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	u.stacks = map[string]int{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		where := ""
		for _, l := range strings.Split(g, "\n") {
			if strings.Contains(l, "stampzilla/gozwave") && !strings.HasPrefix(l, "\t") {
				if i := strings.LastIndex(l, "("); i > 0 {
					l = l[:i]
				}
				where = strings.TrimPrefix(l, "created by ")
				break
			}
		}
		if where != "" {
			u.Goroutines++
			u.stacks[where]++
		}
	}
	buf = nil
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	u.Objects = m.HeapObjects
	return u
}

func runX02(c *Case) {
	c.Bubble(func() {
		r := newRand(c)
		ids := distinctIDs(c.R, 1+c.R.Intn(12))
		conf := plainNodes(ids...)
		for i := range conf {
			conf[i].Classes = []confClass{{ID: []int{0x25, 0x26}[i%2]}}
			conf[i].Endpoints = []confEndpoint{{ID: 1, Classes: conf[i].Classes}}
		}
		dir := filepath.Join(filepath.Dir(c.tempFile("x")), "dir")
		os.Mkdir(dir, 0755)
		file := filepath.Join(dir, "conf.json")
		os.WriteFile(file, confJSON(conf), 0644)
		var mu sync.Mutex
		fate := "answer" // of the commands that are transmitted now
		cancels := 0
		// nodes that never answer are asked again and again
		var restless []int
		for id := 2; c.Index%4 == 3 && len(restless) < 3; id++ {
			free := true
			for _, x := range ids {
				free = free && x != id
			}
			if free {
				restless = append(restless, id)
			}
		}
		o := &leanOpener{}
		o.handle = func(p *leanPort, body []byte) {
			mu.Lock()
			f := fate
			if f == "cancel" {
				if cancels++; cancels%3 == 0 {
					f = "answer"
				}
			}
			mu.Unlock()
			if len(body) == 1 && body[0] == 2 {
				p.feed([]byte{0x06})
				p.feed(mkNodeList(restless...))
				return
			}
			switch f {
			case "lost":
				return
			case "refuse":
				p.feed([]byte{0x15})
				return
			case "cancel":
				p.feed([]byte{0x18})
				return
			}
			p.feed([]byte{0x06})
			d := 5 * time.Millisecond
			switch f {
			case "silent":
				return
			case "late":
				d = 8 * time.Second
			}
			var answer []byte
			if body[0] == 0x41 {
				answer = mkFrame(0x01, 0x41, 0xd3, 0x16, 0, 4, 0x10, 1)
			} else if len(body) > 4 && body[3] == 0x31 {
				answer = mkReport(int(body[1]), 0x31, 5, 1, 2, 0, body[1])
			}
			if answer != nil {
				time.AfterFunc(d, func() { p.feed(answer) })
			}
		}
		ctl, err := gozwave.ConnectWithCustomPortOpener("/sim", file, o)
		if err != nil {
			c.Violate("connect failed: %v", err)
			return
		}
		w := &World{C: c, Ctl: ctl, start: time.Now()}
		if c.R.Intn(3) > 0 { // otherwise nobody reads them
			ch := ctl.GetNextEvent()
			go func() {
				for range ch {
				}
			}()
		}
		setFate := func(f string) {
			mu.Lock()
			fate = f
			mu.Unlock()
		}
		// request sends one request and may or may not look at what comes back
		request := func(look bool) {
			id := ids[r.Intn(len(ids))]
			switch r.Intn(3) {
			case 0:
				ctl.Connection.Write(serialapi.NewRaw([]byte{0x13, byte(id), 2, 0x25, 2, 0x25}))
			case 1:
				t, _ := ctl.Connection.WriteWithTimeout(serialapi.NewRaw([]byte{0x41, byte(id)}), 2*time.Second)
				if look {
					<-t
				}
			case 2:
				t, _ := ctl.Connection.WriteAndWaitForReport(serialapi.NewRaw([]byte{0x13, byte(id), 2, 0x31, 4, 0x25}), 2*time.Second, 5)
				if look {
					<-t
				}
			}
		}
		feed := func(b []byte) {
			o.current().feed(b)
			time.Sleep(r.Dur(1, 5*time.Millisecond))
		}
		requests := func(f string) func(n int) {
			return func(n int) {
				setFate(f)
				look := r.Intn(2) == 0
				callers := 1 + r.Intn(4)
				var wg sync.WaitGroup
				for k := 0; k < callers; k++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := 0; i < n/callers; i++ {
							request(look)
						}
					}()
				}
				wg.Wait()
				time.Sleep(15 * time.Second)
				setFate("answer")
			}
		}
		each := func(f func(id int)) func(n int) {
			return func(n int) {
				for i := 0; i < n; i++ {
					f(ids[r.Intn(len(ids))])
				}
			}
		}
		val := byte(0)
		kinds := map[string]func(n int){
			"answered":  requests("answer"),
			"refused":   requests("refuse"),
			"cancelled": requests("cancel"),
			"lost":      requests("lost"),
			"silent":    requests("silent"),
			"late":      requests("late"),
			"control": each(func(id int) {
				n := ctl.Nodes.Get(id)
				switch r.Intn(5) {
				case 0:
					n.On()
				case 1:
					n.Off()
				case 2:
					n.Level(float64(r.Intn(120)))
				case 3:
					n.Endpoint(1).On()
				case 4:
					n.Endpoint(2)
				}
			}),
			"reports": each(func(id int) {
				switch r.Intn(6) {
				case 0:
					feed(mkReport(id, 0x25, 3, byte(0xff*r.Intn(2))))
				case 1:
					feed(mkReport(id, 0x26, 3, byte(r.Intn(100))))
				case 2:
					feed(mkReport(id, 0x31, 5, byte(r.Intn(3)), 1, byte(r.Intn(100))))
				case 3:
					feed(mkReport(251, 0x31, 5, 1, 1, 1))
				case 4:
					feed(mkReport(id, 0x72, 5, 0, 1, 0, 2, 0, 3))
				case 5:
					feed(mkFrame(0x00, 0x49, 0x84, byte(id), 0))
				}
			}),
			"alarms":   each(func(id int) { feed(mkReport(id, 0x71, 5, byte(r.Intn(2)), 1, 0, byte(0xff*r.Intn(2)), 1, 2)) }),
			"wake-ups": each(func(id int) { feed(mkReport(id, 0x84, 7)) }),
			"noise": each(func(id int) {
				f := r.noise()
				if r.Intn(2) == 0 {
					f = mkReport(id, 0x31, 5, 1, 1, 1)
					f = f[:1+r.Intn(len(f)-1)]
				}
				feed(f)
			}),
			"failures": func(n int) {
				for i := 0; i < n; i++ {
					o.mu.Lock()
					o.fails = []int{0, 0, 1, 3}[r.Intn(4)]
					o.mu.Unlock()
					for k := r.Intn(3); k > 0; k-- {
						request(false)
					}
					o.current().fail()
					time.Sleep(r.Dur(0, 5*time.Second))
				}
				time.Sleep(10 * time.Second)
			},
			"saves": each(func(id int) {
				val++
				feed(mkReport(id, 0x31, 5, 44, 1, val))
				time.Sleep(10 * time.Millisecond)
				if err := ctl.SaveConfigurationToFile(); err != nil {
					c.Violate("saving failed: %v", err)
				}
			}),
			"failing saves": func(n int) {
				os.Rename(dir, dir+".away")
				for i := 0; i < n; i++ {
					ctl.SaveConfigurationToFile()
				}
				os.Rename(dir+".away", dir)
			},
			"serialisations": each(func(id int) {
				json.Marshal(ctl.Nodes)
				ctl.Nodes.All()
				ctl.Nodes.Get(252)
			}),
			"failing connects": each(func(id int) {
				if x, err := gozwave.ConnectWithCustomPortOpener("/sim", file, &leanOpener{fails: 1}); err == nil || x != nil {
					c.Violate("connect succeeded although the port can not be opened")
				}
			}),
		}
		count := map[string]int{}
		for k := range kinds {
			count[k] = 1
		}
		names := sortedKeys(count)
		c.R.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		names = names[:1+c.R.Intn(5)]
		n := 600 + c.R.Intn(601)
		round := func() bool {
			for _, k := range names {
				if !w.Within(24*time.Hour, func() { kinds[k](n) }) {
					c.Violate("%d operations of the kind %s do not end", n, k)
					return false
				}
			}
			time.Sleep(2 * time.Minute)
			return true
		}
		if !round() || !round() {
			return
		}
		// what a kind of operation leaves behind is left behind every time
		before := measure()
		after := before
		ops, maxG := 0, 2+4*len(restless)
		for again := 0; ; again++ {
			start := after
			if again > 0 {
				start = measure()
			}
			if !round() {
				return
			}
			after = measure()
			ops += n * len(names)
			var l []string
			for k, x := range after.stacks {
				if x > start.stacks[k] {
					l = append(l, fmt.Sprintf("%d in %s", x-start.stacks[k], k))
				}
			}
			sort.Strings(l)
			g, f, h := after.Goroutines-start.Goroutines, after.Files-start.Files, int64(after.Objects)-int64(start.Objects)
			if g <= maxG && f <= 2 && h <= int64(n/4) {
				break
			}
			if again < 3 {
				c.Count("measured_again", 1)
				continue
			}
			if g > maxG {
				c.Violate("%d goroutines of the idle library remain after each %d operations of the kinds %v: %s", g, n, names, strings.Join(l, ", "))
			}
			if f > 2 {
				c.Violate("%d files remain open after each %d operations of the kinds %v", f, n, names)
			}
			if h > int64(n/4) {
				c.Violate("%d heap objects remain after each %d operations of the kinds %v", h, n, names)
			}
			break
		}
		o.mu.Lock()
		if o.open != 1 {
			c.Violate("%d ports are open", o.open)
		}
		o.mu.Unlock()
		c.Count("operations_measured", ops)
		for _, k := range names {
			c.Count("kind_"+strings.ReplaceAll(k, " ", "_"), n)
		}
		c.Count("goroutines_of_the_idle_library", before.Goroutines)
		c.Mark(names, n, ids)
		c.Sample(fmt.Sprintf("%v %d times: %d goroutines before and %d after, heap objects %d before and %d after", names, n, before.Goroutines, after.Goroutines, before.Objects, after.Objects))
		if ops >= 100 {
			c.Nontrivial()
		}
	})
}
