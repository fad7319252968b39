package c20

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
	"verif/vh"
)

// What the child process is asked to do.
type spec struct {
	Args   [][]byte
	Before int64 // time before the process was started
	Ops    []op
	Dir    string
}

type op struct {
	Kind string
	N    int
}

func TestMain(m *testing.M) {
	if s := os.Getenv("VERIF_BURN"); s != "" {
		n, _ := strconv.Atoi(s)
		b := make([]byte, 64<<20)
		for j := 0; j < len(b); j += 4096 {
			b[j] = 1
		}
		burn(n)
		os.Exit(0)
	}
	if s := os.Getenv("VERIF_CHILD"); s != "" {
		child(s)
		return
	}
	vh.Main(m, "a case is a child process linked with tricorder, started with a generated argument vector (empty, with separators, long, not UTF-8) and running a generated workload (CPU, system calls, memory held and returned, goroutines, descriptors, sleeps, file I/O, processes of its own), which after every step compares each built-in metric with the operating system's and runtime's figures taken right before and right after the request; non-trivial if it has at least two steps or two arguments; distinct by arguments and workload")
}

type figures struct {
	ru   syscall.Rusage
	gor  int
	fds  int
	mem  uint64
	now  time.Time
	mem2 runtime.MemStats
}

func fds() int {
	d, err := os.Open("/proc/self/fd")
	if err != nil {
		return -1
	}
	defer d.Close()
	n, err := d.Readdirnames(-1)
	if err != nil {
		return -1
	}
	return len(n) - 1
}

func take() (f figures) {
	f.now = time.Now()
	f.fds = fds()
	f.gor = runtime.NumGoroutine()
	runtime.ReadMemStats(&f.mem2)
	f.mem = f.mem2.Sys - f.mem2.HeapReleased
	syscall.Getrusage(syscall.RUSAGE_SELF, &f.ru)
	return
}

func tv(t syscall.Timeval) time.Duration {
	return time.Duration(t.Sec)*time.Second + time.Duration(t.Usec)*time.Microsecond
}

type builtin struct {
	path string
	kind types.Type
	unit units.Unit
}

var builtins = []builtin{
	{"/proc/args", types.String, units.None},
	{"/proc/cpu/sys", types.GoDuration, units.Second},
	{"/proc/cpu/user", types.GoDuration, units.Second},
	{"/proc/go/num-goroutines", types.Int64, units.None},
	{"/proc/go/version", types.String, units.None},
	{"/proc/io/input", types.Int64, units.None},
	{"/proc/io/num-open-file-descriptors", types.Int64, units.None},
	{"/proc/io/output", types.Int64, units.None},
	{"/proc/ipc/received", types.Int64, units.None},
	{"/proc/ipc/sent", types.Int64, units.None},
	{"/proc/memory/hard-page-fault", types.Int64, units.None},
	{"/proc/memory/max-resident-set-size", types.Int64, units.Byte},
	{"/proc/memory/shared", types.Int64, units.Byte},
	{"/proc/memory/soft-page-fault", types.Int64, units.None},
	{"/proc/memory/swaps", types.Int64, units.None},
	{"/proc/memory/total", types.Uint64, units.Byte},
	{"/proc/memory/unshared-data", types.Int64, units.Byte},
	{"/proc/memory/unshared-stack", types.Int64, units.Byte},
	{"/proc/name", types.String, units.None},
	{"/proc/scheduler/involuntary-switches", types.Int64, units.None},
	{"/proc/scheduler/voluntary-switches", types.Int64, units.None},
	{"/proc/signals/received", types.Int64, units.None},
	{"/proc/start-time", types.GoTime, units.None},
}

func bad(f string, a ...interface{}) {
	fmt.Printf("BAD: "+f+"\n", a...)
	os.Exit(0)
}

// compare makes a request between two sets of figures.
func compare(s *spec, mainTime time.Time, last map[string]interface{}, when string) {
	a := take()
	list := tricorder.ReadMyMetrics("/proc")
	b := take()
	m := map[string]*messages.Metric{}
	for _, x := range list {
		if m[x.Path] != nil {
			bad("%s twice", x.Path)
		}
		m[x.Path] = x
	}
	for _, w := range builtins {
		x := m[w.path]
		if x == nil {
			if w.path == "/proc/io/num-open-file-descriptors" && a.fds < 0 {
				continue
			}
			bad("%s: no metric %s", when, w.path)
		}
		if x.Kind != w.kind || x.Unit != w.unit {
			bad("%s: %s is %s in %s, want %s in %s", when, w.path, x.Kind, x.Unit, w.kind, w.unit)
		}
	}
	i64 := func(path string, lo, hi, slack int64) {
		v, ok := m[path].Value.(int64)
		if !ok || v < lo-slack || v > hi+slack {
			bad("%s: %s is %v, the system says %d before and %d after", when, path, m[path].Value, lo, hi)
		}
	}
	grows := func(path string) {
		v := m[path].Value
		if l, ok := last[path]; ok {
			switch x := v.(type) {
			case int64:
				if x < l.(int64) {
					bad("%s: %s went back from %v to %v", when, path, l, v)
				}
			case time.Duration:
				if x < l.(time.Duration) {
					bad("%s: %s went back from %v to %v", when, path, l, v)
				}
			}
		}
		last[path] = v
	}
	dur := func(path string, lo, hi time.Duration) {
		v, ok := m[path].Value.(time.Duration)
		if !ok || v < lo || v > hi {
			bad("%s: %s is %v, the system says %v before and %v after", when, path, m[path].Value, lo, hi)
		}
		grows(path)
	}
	dur("/proc/cpu/user", tv(a.ru.Utime), tv(b.ru.Utime))
	dur("/proc/cpu/sys", tv(a.ru.Stime), tv(b.ru.Stime))
	// the kernel's count of resident pages is approximate
	i64("/proc/memory/max-resident-set-size", a.ru.Maxrss<<10, b.ru.Maxrss<<10, 4<<20)
	for _, c := range []struct {
		path   string
		lo, hi int64
	}{
		{"/proc/memory/shared", a.ru.Ixrss << 10, b.ru.Ixrss << 10},
		{"/proc/memory/unshared-data", a.ru.Idrss << 10, b.ru.Idrss << 10},
		{"/proc/memory/unshared-stack", a.ru.Isrss << 10, b.ru.Isrss << 10},
		{"/proc/memory/soft-page-fault", a.ru.Minflt, b.ru.Minflt},
		{"/proc/memory/hard-page-fault", a.ru.Majflt, b.ru.Majflt},
		{"/proc/memory/swaps", a.ru.Nswap, b.ru.Nswap},
		{"/proc/io/input", a.ru.Inblock, b.ru.Inblock},
		{"/proc/io/output", a.ru.Oublock, b.ru.Oublock},
		{"/proc/ipc/sent", a.ru.Msgsnd, b.ru.Msgsnd},
		{"/proc/ipc/received", a.ru.Msgrcv, b.ru.Msgrcv},
		{"/proc/signals/received", a.ru.Nsignals, b.ru.Nsignals},
		{"/proc/scheduler/involuntary-switches", a.ru.Nivcsw, b.ru.Nivcsw},
		{"/proc/scheduler/voluntary-switches", a.ru.Nvcsw, b.ru.Nvcsw},
	} {
		i64(c.path, c.lo, c.hi, 0)
		grows(c.path)
	}
	lo, hi := a.gor, b.gor
	if lo > hi {
		lo, hi = hi, lo
	}
	i64("/proc/go/num-goroutines", int64(lo), int64(hi), 2)
	if a.fds >= 0 {
		// the descriptor used for counting may or may not count
		i64("/proc/io/num-open-file-descriptors", int64(a.fds), int64(b.fds), 2)
	}
	mlo, mhi := a.mem, b.mem
	if mlo > mhi {
		mlo, mhi = mhi, mlo
	}
	if v, ok := m["/proc/memory/total"].Value.(uint64); !ok || v+4<<20 < mlo || v > mhi+4<<20 {
		bad("%s: /proc/memory/total is %v, the runtime says %d before and %d after", when, m["/proc/memory/total"].Value, a.mem, b.mem)
	}
	str := func(path, want string) {
		if v, ok := m[path].Value.(string); !ok || v != want {
			bad("%s: %s is %q, want %q", when, path, m[path].Value, want)
		}
	}
	str("/proc/go/version", runtime.Version())
	var args []string
	for _, x := range s.Args {
		args = append(args, string(x))
	}
	str("/proc/name", args[0])
	str("/proc/args", strings.Join(args[1:], "|"))
	if v, ok := m["/proc/start-time"].Value.(time.Time); !ok || v.UnixNano() < s.Before || v.After(mainTime) {
		bad("%s: /proc/start-time is %v, the process was started between %v and %v", when, m["/proc/start-time"].Value, time.Unix(0, s.Before), mainTime)
	}
	for _, p := range []string{"/proc/cpu/user", "/proc/memory/total", "/proc/go/version"} {
		if ts, ok := m[p].TimeStamp.(time.Time); !ok || ts.Before(a.now) || ts.After(b.now.Add(time.Hour)) {
			bad("%s: %s has timestamp %v, the request began at %v", when, p, m[p].TimeStamp, a.now)
		}
	}
}

func burn(ms int) {
	x := 1.0
	for t := time.Now(); time.Since(t) < time.Duration(ms)*time.Millisecond; {
		for j := 0; j < 1000; j++ {
			x = x*1.0000001 + 1
		}
	}
	if x == 0 {
		fmt.Println()
	}
}

func child(s string) {
	mainTime := time.Now()
	var sp spec
	b, err := os.ReadFile(s)
	if err == nil {
		err = json.Unmarshal(b, &sp)
	}
	if err != nil {
		fmt.Println("HARNESS-ERROR:", err)
		os.Exit(0)
	}
	debug.SetGCPercent(-1)
	last := map[string]interface{}{}
	compare(&sp, mainTime, last, "at start")
	var held [][]byte
	var files []*os.File
	stop := make(chan struct{})
	for i, o := range sp.Ops {
		switch o.Kind {
		case "user":
			burn(o.N)
		case "spawn": // what other processes use is not this one's
			if self, err := os.Executable(); err == nil {
				cmd := exec.Command(self)
				cmd.Env = []string{fmt.Sprint("VERIF_BURN=", o.N)}
				cmd.Run()
			}
		case "sys":
			for t := time.Now(); time.Since(t) < time.Duration(o.N)*time.Millisecond; {
				syscall.Getppid()
				syscall.Getrusage(syscall.RUSAGE_SELF, new(syscall.Rusage))
			}
		case "alloc", "touch":
			b := make([]byte, o.N<<20)
			for j := 0; j < len(b); j += 4096 {
				b[j] = 1
			}
			held = append(held, b)
		case "reserve": // memory asked for and not touched
			held = append(held, make([]byte, o.N<<20))
		case "free":
			held = nil
			debug.FreeOSMemory()
		case "drop": // free for the runtime, but not returned
			held = nil
			runtime.GC()
		case "goroutines":
			for j := 0; j < o.N; j++ {
				go func() { <-stop }()
			}
		case "stop":
			close(stop)
			stop = make(chan struct{})
			time.Sleep(time.Millisecond)
		case "open":
			for j := 0; j < o.N; j++ {
				f, err := os.Open("/dev/null")
				if err == nil {
					files = append(files, f)
				}
			}
		case "close":
			for _, f := range files {
				f.Close()
			}
			files = nil
		case "sleep":
			for j := 0; j < o.N; j++ {
				time.Sleep(100 * time.Microsecond)
			}
		case "write":
			f, err := os.Create(filepath.Join(sp.Dir, "f"))
			if err == nil {
				f.Write(make([]byte, o.N<<10))
				f.Sync()
				f.Close()
			}
		case "read":
			os.ReadFile(os.Args[0])
		case "burst": // requests hardly apart
			one := func(path string) int64 {
				l := tricorder.ReadMyMetrics(path)
				if len(l) != 1 {
					bad("%d metrics at %s", len(l), path)
				}
				v, _ := l[0].Value.(int64)
				return v
			}
			const fd, gor = "/proc/io/num-open-file-descriptors", "/proc/go/num-goroutines"
			for k := 0; k < 3 && fds() >= 0; k++ {
				opened := 0
				was := one(fd)
				for j := 0; j < 8; j++ {
					if f, err := os.Open("/dev/null"); err == nil {
						files = append(files, f)
						opened++
					}
				}
				if is := one(fd); is < was+int64(opened)-2 {
					bad("after step %d: %s is %d, was %d before %d files were opened", i, fd, is, was, opened)
				}
			}
			for k := 0; k < 3; k++ {
				was := one(gor)
				for j := 0; j < 8; j++ {
					go func() { <-stop }()
				}
				if is := one(gor); is < was+6 {
					bad("after step %d: %s is %d, was %d before 8 were started", i, gor, is, was)
				}
			}
		case "request":
			vh.Get("/metrics/proc?format=text")
		}
		compare(&sp, mainTime, last, fmt.Sprintf("after step %d (%s %d)", i, o.Kind, o.N))
	}
	fmt.Println("GOOD")
	os.Exit(0)
}

func TestProcess(t *testing.T) {
	self, err := os.Executable()
	if err != nil {
		t.Fatal(err)
	}
	vh.Check(t, 250, 3000, func(t *rapid.T) {
		var sp spec
		arg := rapid.OneOf(
			rapid.SampledFrom([]string{"", "a", "-x", "--flag=value", "|", "a|b", " ", "é", "\xff\xfe", "a\nb", "-", "\"", "%s", strings.Repeat("long ", 500)}),
			rapid.Custom(func(t *rapid.T) string { return vh.Text(t, "arg") }))
		name := rapid.OneOf(rapid.SampledFrom([]string{self, "prog", "/usr/bin/prog", "a b", "", "-bash", "prog|x"})).Draw(t, "name")
		args := []string{name}
		args = append(args, rapid.SliceOfN(arg, 0, 6).Draw(t, "args")...)
		for i, a := range args {
			if len(a) > 100000 { // more than the system can pass
				a = a[:100000]
				args[i] = a
			}
			sp.Args = append(sp.Args, []byte(a))
		}
		n := rapid.IntRange(0, 6).Draw(t, "steps")
		for i := 0; i < n; i++ {
			k := rapid.SampledFrom([]string{"user", "user", "sys", "alloc", "alloc", "free", "drop", "drop", "goroutines", "stop", "open", "close", "sleep", "write", "read", "request", "spawn", "burst"}).Draw(t, "step")
			max := map[string]int{"user": 20, "sys": 20, "alloc": 48, "goroutines": 300, "open": 200, "sleep": 20, "write": 256, "spawn": 20}[k]
			switch {
			case k == "open" && rapid.IntRange(0, 3).Draw(t, "many") == 0:
				max = 2500
			case k == "goroutines" && rapid.IntRange(0, 5).Draw(t, "many") == 0:
				max = 70000
			case k == "alloc" && i == 0 && rapid.IntRange(0, 3).Draw(t, "huge") == 0:
				// first, so that it need not be cleared
				sp.Ops = append(sp.Ops, op{"reserve", rapid.SampledFrom([]int{2100, 4100, 4500, 5000}).Draw(t, "n")})
				continue
			}
			sp.Ops = append(sp.Ops, op{k, rapid.IntRange(0, max).Draw(t, "n")})
		}
		run(t, self, args, &sp)
		for _, o := range sp.Ops {
			vh.Label("step " + o.Kind)
		}
		vh.Case(fmt.Sprintf("%q %v", args, sp.Ops), len(sp.Ops) > 1 || len(args) > 2)
	})
}

// run starts the process and takes its verdict.
func run(t *rapid.T, self string, args []string, sp *spec) {
	dir, err := os.MkdirTemp("", "c20-")
	if err != nil {
		fmt.Println("HARNESS-ERROR:", err)
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	sp.Dir = dir
	sp.Before = time.Now().UnixNano()
	b, _ := json.Marshal(sp)
	if err := os.WriteFile(filepath.Join(dir, "spec"), b, 0600); err != nil {
		fmt.Println("HARNESS-ERROR:", err)
		t.Fatal(err)
	}
	cmd := &exec.Cmd{Path: self, Args: args, Dir: dir, Env: []string{"VERIF_CHILD=" + filepath.Join(dir, "spec"), "GODEBUG="}}
	out, err := cmd.CombinedOutput()
	if x, ok := err.(*exec.ExitError); ok && !x.Exited() && len(sp.Ops) > 0 && sp.Ops[0].Kind == "touch" {
		vh.Label("killed for its memory")
		return
	}
	if s := strings.TrimSpace(string(out)); err != nil || s != "GOOD" {
		if len(s) > 3000 {
			s = s[:3000]
		}
		t.Fatalf("process %q running %v: %v %s", args, sp.Ops, err, s)
	}
}

// A process with more resident memory than fits 31 bits, where there is enough.
func TestBig(t *testing.T) {
	self, err := os.Executable()
	if err != nil {
		t.Fatal(err)
	}
	b, _ := os.ReadFile("/proc/meminfo")
	var free int64
	for _, l := range strings.Split(string(b), "\n") {
		fmt.Sscanf(l, "MemAvailable: %d", &free)
	}
	if free < 24<<20 {
		t.Skip("too little memory")
	}
	vh.Check(t, 1, 2, func(t *rapid.T) {
		sp := &spec{Args: [][]byte{[]byte("big")}, Ops: []op{{"touch", rapid.IntRange(2100, 2400).Draw(t, "n")}, {"free", 0}}}
		run(t, self, []string{"big"}, sp)
		vh.Label("big")
		vh.Case(fmt.Sprint("big ", sp.Ops), true)
	})
}
