package sim

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"github.com/sirupsen/logrus"
)

func init() {
	register("P02", "a process of its own saves a network of 1 to 60 nodes over an older one (or none) while writing fails at sampled file sizes (RLIMIT_FSIZE), a value of a node is one that JSON has no word for, the process is killed when a file reaches such a size, it is killed at or gets an error from each file system call in turn (seccomp filters on open, write, sync, close, rename, truncate, unlink and others), or it is killed at random times while it saves in a loop and another process reads the file all the time; every content that is seen must be one complete network. Non-trivial when at least one fault hit a save and the file was examined afterwards", runP02)
}

const genKey = "unknown (99)_"

// judgeNet tells which generation of the network a file holds.
func judgeNet(b []byte, n int) (int, error) {
	f, err := fileNodes(b)
	if err != nil {
		return 0, err
	}
	if len(f) != n {
		return 0, fmt.Errorf("%d nodes instead of %d", len(f), n)
	}
	gen := -1
	for id, x := range f {
		m, _ := x.(map[string]interface{})
		s, _ := m["StateFloat"].(map[string]interface{})
		g, ok := s[genKey].(float64)
		if !ok {
			return 0, fmt.Errorf("node %s has no state", id)
		}
		if gen >= 0 && int(g) != gen {
			return 0, fmt.Errorf("states of generation %d and %d", gen, int(g))
		}
		gen = int(g)
	}
	return gen, nil
}

func p02Conf(r *rand.Rand, n int) []confNode {
	l := randConf(r, distinctIDs(r, n))
	for i := range l {
		l[i].Bool = map[string]bool{}
		l[i].Float = map[string]float64{genKey: 1}
	}
	return l
}

func runP02(c *Case) {
	n := 1 + c.R.Intn(6)
	if c.R.Intn(3) == 0 {
		n = 20 + c.R.Intn(41)
	}
	conf := p02Conf(c.R, n)
	dir := filepath.Dir(c.tempFile("x"))
	start := filepath.Join(dir, "start.json")
	os.WriteFile(start, confJSON(conf), 0644)
	faults, olds, news, errs := 0, 0, 0, 0
	counter := 0
	// fresh makes a directory with the configuration file of generation 1, as the library writes it
	var first []byte
	prepare := func(old bool) string {
		counter++
		d := filepath.Join(dir, fmt.Sprint(counter))
		os.Mkdir(d, 0755)
		f := filepath.Join(d, "conf.json")
		if old {
			os.WriteFile(f, first, 0644)
		}
		return f
	}
	child := func(mode, file string, arg ...interface{}) *exec.Cmd {
		cmd := exec.Command(os.Args[0], "-test.run", "^TestChild$", "-test.timeout", "0")
		cmd.Env = append(os.Environ(), "VP_CHILD="+mode, "VP_PROP=", "VP_FILE="+file, "VP_START="+start, "VP_ARG="+fmt.Sprint(arg...), fmt.Sprintf("VP_NODES=%d", n))
		cmd.Dir = dir
		return cmd
	}
	code := func(err error) int {
		if err == nil {
			return 0
		}
		if e, ok := err.(*exec.ExitError); ok {
			if e.ExitCode() < 0 {
				return -9
			}
			return e.ExitCode()
		}
		return -1
	}
	// the first save, without any fault
	f0 := prepare(false)
	out, err := child("save", f0, 1).CombinedOutput()
	first, _ = os.ReadFile(f0)
	if code(err) != 4 {
		c.Violate("saving without any fault failed: %d %.2000s", code(err), out)
		return
	}
	if g, e := judgeNet(first, n); e != nil || g != 1 {
		c.Violate("saving without any fault: generation %d, %v", g, e)
		return
	}
	look := func(file, what string, old bool, saved, failed bool) {
		faults++
		b, err := os.ReadFile(file)
		if err != nil {
			if old || saved {
				c.Violate("%s: the file can not be read: %v", what, err)
			}
			return
		}
		g, e := judgeNet(b, n)
		if e != nil {
			c.Violate("%s: the file (%d bytes) holds no complete network: %v", what, len(b), e)
			return
		}
		switch {
		case g == 1 && old:
			if !bytes.Equal(b, first) {
				c.Violate("%s: the file is not the previous one, which has the same state", what)
			}
			if saved {
				c.Violate("%s: no error was reported, but the file holds the previous network", what)
			}
			olds++
		case g == 2:
			news++
		default:
			c.Violate("%s: the file holds generation %d", what, g)
		}
		if failed {
			errs++
		}
	}
	// whatever happened before, a process started afterwards can save
	again := func(file, what string) {
		out, err := child("again", file, 3).CombinedOutput()
		if code(err) != 4 {
			c.Violate("%s: saving failed in a process started afterwards: %d %.2000s", what, code(err), out)
			return
		}
		b, _ := os.ReadFile(file)
		if g, e := judgeNet(b, n); e != nil || g != 3 {
			c.Violate("%s: a process started afterwards saved, but the file holds generation %d (%v)", what, g, e)
		}
		c.Count("saved_afterwards", 1)
	}
	old := c.R.Intn(4) > 0
	sizes := func(k int) []int {
		l := []int{0, 1, len(first) - 1, len(first), len(first) + 2}
		for len(l) < k {
			l = append(l, c.R.Intn(len(first)+4))
		}
		return l
	}
	switch c.Index % 4 {
	case 0: // writing fails at any size, all in one process
		file := prepare(old)
		var ks []string
		for _, k := range sizes(60) {
			ks = append(ks, fmt.Sprint(k))
		}
		cmd := child("limits", file, strings.Join(ks, ","))
		out, err := cmd.CombinedOutput()
		if code(err) != 4 {
			c.Violate("the process ended while writing failed: %d %.3000s", code(err), out)
			return
		}
		for _, l := range strings.Split(string(out), "\n") {
			switch {
			case strings.HasPrefix(l, "VIOL "):
				c.Violate("%s", l[5:])
			case strings.HasPrefix(l, "FAULT "):
				faults++
				if strings.HasSuffix(l, "error") {
					errs++
				}
			}
		}
		again(file, "after failed saves")
	case 1: // the process ends when a file reaches a size
		ks := sizes(4 + c.R.Intn(4))
		for _, k := range ks[c.R.Intn(3):] {
			file := prepare(old)
			_, err := child("xfsz", file, k).CombinedOutput()
			x := code(err)
			look(file, fmt.Sprintf("killed when a file reached %d of %d bytes (%d)", k, len(first), x), old, x == 4, x == 3)
			if c.R.Intn(3) == 0 {
				again(file, "after a kill while writing")
			}
		}
	case 2: // file system calls
		for name := range sysCalls {
			for _, how := range []string{"kill", "EIO", "ENOSPC", "EACCES"}[:1+c.R.Intn(4)] {
				if c.R.Intn(3) == 0 && !c.Thorough() {
					continue
				}
				file := prepare(old)
				out, err := child("syscall", file, name+" "+how).CombinedOutput()
				x := code(err)
				if x == 5 {
					c.Inconclusive("no system call filter: %.300s", out)
					c.Count("no_filter", 1)
					continue
				}
				if x == 3 || x == 4 || x < 0 {
					c.Count("syscall_"+map[bool]string{true: "killed_in_", false: "error_or_unused_"}[x < 0]+name, 1)
				}
				look(file, fmt.Sprintf("%s %s (%d)", how, name, x), old, x == 4, x == 3)
				if c.R.Intn(3) == 0 {
					again(file, fmt.Sprintf("after %s %s", how, name))
				}
			}
		}
	case 3: // killed at random times, and a reader that never sees anything but complete networks
		for i := 0; i < 2; i++ {
			file := prepare(true)
			cmd := child("loop", file, 1+c.R.Intn(3))
			pipe, _ := cmd.StdoutPipe()
			if err := cmd.Start(); err != nil {
				c.Inconclusive("no process: %v", err)
				return
			}
			rd := bufio.NewReader(pipe)
			if l, err := rd.ReadString('\n'); err != nil || !strings.HasPrefix(l, "ready") {
				rest, _ := io.ReadAll(rd)
				cmd.Wait()
				c.Violate("saving in a loop failed: %.2000s%.2000s", l, rest)
				return
			}
			go io.Copy(io.Discard, rd)
			reads, gens := 0, map[int]bool{}
			end := time.Now().Add(time.Duration(5+c.R.Intn(60)) * time.Millisecond)
			for time.Now().Before(end) && !c.violated() {
				b, err := os.ReadFile(file)
				if err != nil {
					c.Violate("the file can not be read while it is saved: %v", err)
					break
				}
				g, e := judgeNet(b, n)
				if e != nil {
					c.Violate("another process read %d bytes, no complete network, while it was saved: %v", len(b), e)
					break
				}
				gens[g] = true
				reads++
			}
			cmd.Process.Kill()
			cmd.Wait()
			faults++
			b, err := os.ReadFile(file)
			if err != nil {
				c.Violate("after a kill the file can not be read: %v", err)
			} else if _, e := judgeNet(b, n); e != nil {
				c.Violate("after a kill the file (%d bytes) holds no complete network: %v", len(b), e)
			}
			again(file, "after a kill")
			c.Count("reads_while_saving", reads)
			c.Count("generations_seen", len(gens))
		}
	}
	c.Count("faults", faults)
	c.Count("previous_network_found", olds)
	c.Count("new_network_found", news)
	c.Count("errors_reported", errs)
	c.Mark(c.Index%4, string(first), faults, olds, news)
	c.Sample(fmt.Sprintf("kind %d, %d nodes, %d bytes, %d faults: previous network %d, new network %d, %d errors", c.Index%4, n, len(first), faults, olds, news, errs))
	os.RemoveAll(dir)
	if faults > 0 {
		c.Nontrivial()
	}
}

// sysCalls are those that a save can be interrupted in.
var sysCalls = map[string][]uintptr{
	"open":     {syscall.SYS_OPENAT, syscall.SYS_OPEN, syscall.SYS_CREAT},
	"write":    {syscall.SYS_WRITE, syscall.SYS_PWRITE64, syscall.SYS_WRITEV},
	"sync":     {syscall.SYS_FSYNC, syscall.SYS_FDATASYNC},
	"close":    {syscall.SYS_CLOSE},
	"rename":   {syscall.SYS_RENAME, syscall.SYS_RENAMEAT, 316},
	"truncate": {syscall.SYS_FTRUNCATE, syscall.SYS_TRUNCATE},
	"unlink":   {syscall.SYS_UNLINK, syscall.SYS_UNLINKAT},
	"link":     {syscall.SYS_LINK, syscall.SYS_LINKAT, syscall.SYS_SYMLINKAT, syscall.SYS_SYMLINK},
	"chmod":    {syscall.SYS_CHMOD, syscall.SYS_FCHMOD, syscall.SYS_FCHMODAT, syscall.SYS_FCHOWN, syscall.SYS_FCHOWNAT},
	"copy":     {326, syscall.SYS_SENDFILE, syscall.SYS_SPLICE},
}

type bpfInsn struct {
	code   uint16
	jt, jf uint8
	k      uint32
}

// filterCall makes all threads fail in these system calls from now on.
func filterCall(name, how string) error {
	var action uint32
	switch how {
	case "kill":
		action = 0x80000000 // SECCOMP_RET_KILL_PROCESS
	case "EIO":
		action = 0x00050000 | uint32(syscall.EIO)
	case "ENOSPC":
		action = 0x00050000 | uint32(syscall.ENOSPC)
	default:
		action = 0x00050000 | uint32(syscall.EACCES)
	}
	const ld, jeq, jgt, jset, ret = 0x20, 0x15, 0x25, 0x45, 0x06
	var prog []bpfInsn
	prog = append(prog, bpfInsn{code: ld, k: 0})
	for _, nr := range sysCalls[name] {
		body := []bpfInsn{}
		switch {
		case nr == syscall.SYS_OPENAT:
			body = append(body, bpfInsn{code: ld, k: 32}, bpfInsn{code: jset, jt: 1, jf: 0, k: syscall.O_CREAT | syscall.O_TRUNC | syscall.O_WRONLY | syscall.O_RDWR}, bpfInsn{code: ret, k: 0x7fff0000})
		case name == "write" || name == "close":
			body = append(body, bpfInsn{code: ld, k: 16}, bpfInsn{code: jgt, jt: 1, jf: 0, k: 2}, bpfInsn{code: ret, k: 0x7fff0000})
		}
		body = append(body, bpfInsn{code: ret, k: action})
		prog = append(prog, bpfInsn{code: jeq, jt: 0, jf: uint8(len(body)), k: uint32(nr)})
		prog = append(prog, body...)
	}
	prog = append(prog, bpfInsn{code: ret, k: 0x7fff0000})
	fprog := struct {
		len    uint16
		filter *bpfInsn
	}{uint16(len(prog)), &prog[0]}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 { // PR_SET_NO_NEW_PRIVS
		return e
	}
	const sysSeccomp, setModeFilter, tsync = 317, 1, 1
	if r, _, e := syscall.RawSyscall(sysSeccomp, setModeFilter, tsync, uintptr(unsafe.Pointer(&fprog))); e != 0 || r != 0 {
		return fmt.Errorf("seccomp: %v %d", e, r)
	}
	runtime.KeepAlive(prog)
	return nil
}

func setFileLimit(k uint64) {
	// the soft limit only, to be able to raise it again
	var l syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l)
	l.Cur = k
	if k == 1<<63 {
		l.Cur = l.Max
	}
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l)
}

// RunChild is what a process started by a case does. Its exit code: 3 saving reported an error, 4 it did not, 5 the fault is not available.
func RunChild(t *testing.T) {
	logrus.SetOutput(io.Discard)
	mode, file, arg := os.Getenv("VP_CHILD"), os.Getenv("VP_FILE"), os.Getenv("VP_ARG")
	var n int
	fmt.Sscan(os.Getenv("VP_NODES"), &n)
	c := &Case{T: t, R: rand.New(rand.NewSource(1)), stats: map[string]int{}}
	c.Bubble(func() {
		w := NewWorld(c)
		w.Op.Handle = newBot(w, newRand(c)).Handle
		old, oldErr := os.ReadFile(file)
		st, _ := os.ReadFile(os.Getenv("VP_START"))
		os.WriteFile(file, st, 0644) // the network is restored from here
		if err := w.Connect(file); err != nil {
			fmt.Println("connect failed:", err)
			os.Exit(1)
		}
		if oldErr == nil {
			os.WriteFile(file, old, 0644)
		} else {
			os.Remove(file)
		}
		w.DrainEvents(nil)
		var ids []int
		for id := range w.Ctl.Nodes.All() {
			ids = append(ids, id)
		}
		update := func(gen int) {
			for _, id := range ids {
				w.Op.Port().Feed(mkReport(id, 0x31, 5, 99, 2, byte(gen>>8), byte(gen)))
			}
			time.Sleep(100 * time.Millisecond)
			for _, id := range ids {
				if stateOf(w.Node(id)).Float[genKey] != float64(gen) {
					fmt.Println("report not applied")
					os.Exit(1)
				}
			}
		}
		save := func() int {
			if w.Ctl.SaveConfigurationToFile() != nil {
				return 3
			}
			return 4
		}
		switch mode {
		case "save":
			os.Exit(save())
		case "again":
			update(3)
			os.Exit(save())
		case "xfsz":
			update(2)
			var k uint64
			fmt.Sscan(arg, &k)
			setFileLimit(k)
			os.Exit(save())
		case "syscall":
			update(2)
			var name, how string
			fmt.Sscan(arg, &name, &how)
			if err := filterCall(name, how); err != nil {
				fmt.Println(err)
				os.Exit(5)
			}
			os.Exit(save())
		case "limits":
			signal.Ignore(syscall.SIGXFSZ)
			gen, stored := 1, 1
			if oldErr != nil {
				stored = 0
			}
			same := false // try again to save what has been tried before
			try1 := func(what string) {
				if same {
					what += " (the same network again)"
				} else {
					gen++
					update(gen)
				}
				x := save()
				setFileLimit(1 << 63)
				b, err := os.ReadFile(file)
				g := 0
				if err != nil {
					if !os.IsNotExist(err) || stored > 0 {
						fmt.Printf("VIOL %s: the file can not be read: %v\n", what, err)
						return
					}
				} else if g, err = judgeNet(b, n); err != nil {
					fmt.Printf("VIOL %s: the file (%d bytes) holds no complete network: %v\n", what, len(b), err)
					os.Exit(4)
				}
				if g != gen && g != stored {
					fmt.Printf("VIOL %s: the file holds generation %d, it was %d, should be %d\n", what, g, stored, gen)
				}
				if x == 4 && g != gen {
					fmt.Printf("VIOL %s: no error was reported, but the file holds generation %d instead of %d\n", what, g, gen)
				}
				stored = g
				fmt.Printf("FAULT %s %s\n", what, map[int]string{3: "error", 4: "stored"}[x])
			}
			for i, s := range strings.Split(arg, ",") {
				var k uint64
				fmt.Sscan(s, &k)
				setFileLimit(k)
				try1("writing fails at byte " + s)
				if i%7 == 4 {
					setFileLimit(k)
					same = true
					try1("writing fails at byte " + s)
					same = false
				}
				if i%7 == 6 { // recovers
					same = i%2 == 0
					try1("no fault")
					same = false
					if stored != gen {
						fmt.Printf("VIOL nothing was stored after writing worked again\n")
					}
					// someone else has damaged or removed the file
					if i%3 == 0 {
						os.Remove(file)
					} else {
						os.WriteFile(file, []byte("{"), 0644)
					}
					stored, same = gen, true
					try1("the file was damaged by someone else")
					same = false
				}
			}
			// a value that JSON has no word for
			for _, bad := range []float64{math.NaN(), math.Inf(1), math.Inf(-1)} {
				node := w.Node(ids[len(ids)/2])
				set := func(f func()) { node.Lock(); defer node.Unlock(); f() }
				set(func() { node.StateFloat["verif"] = bad })
				try1(fmt.Sprintf("a value is %v", bad))
				same = true
				try1(fmt.Sprintf("a value is %v", bad))
				set(func() { delete(node.StateFloat, "verif") })
				same = bad < 0
				try1("the value is gone")
				same = false
				if stored != gen {
					fmt.Printf("VIOL nothing was stored after the value %v was gone\n", bad)
				}
			}
			// the directory is gone
			d := filepath.Dir(file)
			os.Rename(d, d+".away")
			gen++
			update(gen)
			if save() == 4 {
				fmt.Printf("VIOL no error was reported when the directory did not exist\n")
			}
			os.Rename(d+".away", d)
			if b, err := os.ReadFile(file); err != nil && stored > 0 {
				fmt.Printf("VIOL the file vanished: %v\n", err)
			} else if g, e := judgeNet(b, n); stored > 0 && (e != nil || g != stored) {
				fmt.Printf("VIOL generation %d (%v) after the directory was gone, should be %d\n", g, e, stored)
			}
			os.Exit(4)
		case "loop":
			savers := 1
			fmt.Sscan(arg, &savers)
			update(2)
			if save() != 4 {
				os.Exit(1)
			}
			fmt.Println("ready")
			for gen := 3; ; gen++ {
				update(1 + gen%30000)
				var wg sync.WaitGroup
				for i := 0; i < savers; i++ {
					wg.Add(1)
					go func() { defer wg.Done(); save() }()
				}
				wg.Wait()
			}
		}
	})
}

var _ = json.Valid
