package c24

import (
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/rpc"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "a case is either a generated population asked 300 times and more by a drawn mix of requests (every interface, real server, failing connections, panicking callbacks, missing paths), with goroutines, descriptors and heap objects counted before and after, or a generated history that registers objects of every sort, asks for them, and removes or replaces most of them in every way there is, after which these have to be collectable; non-trivial if it has requests of three sorts, or removals of two sorts of objects; distinct by population and requests, or by history")
}

// answer is a response writer that fails after some bytes.
type answer struct {
	h    http.Header
	left int
}

func (a *answer) Header() http.Header { return a.h }
func (a *answer) WriteHeader(int)     {}
func (a *answer) Write(b []byte) (int, error) {
	if a.left -= len(b); a.left < 0 {
		return 0, errors.New("injected: connection lost")
	}
	return len(b), nil
}

// codec brings one call and drops the answer.
type codec struct{ method, path string }

func (c *codec) ReadRequestHeader(r *rpc.Request) error {
	r.ServiceMethod = "MetricsServer." + c.method
	return nil
}

func (c *codec) ReadRequestBody(v interface{}) error {
	if p, ok := v.(*string); ok {
		*p = c.path
	}
	return nil
}

func (c *codec) WriteResponse(*rpc.Response, interface{}) error { return nil }
func (c *codec) Close() error                                   { return nil }

var sorts = []string{"local", "rpc", "rpcget", "rpcwire", "rest", "restgz", "restone", "text", "html", "real", "realgz", "static", "probe", "cut", "cutgz", "cuttext"}

func url(how, path string) string {
	path = vh.URLPath(path)
	switch {
	case strings.HasPrefix(how, "restone"):
		return "/metricsapi" + path + "?singleton=1"
	case strings.HasPrefix(how, "rest"), how == "cut", how == "cutgz", how == "real", how == "realgz":
		return "/metricsapi" + path
	case strings.HasSuffix(how, "text"):
		return "/metrics" + path + "?format=text"
	case how == "static":
		return "/metricsstatic/theme.css"
	case how == "probe":
		return "/has-tricorder-metrics"
	}
	return "/metrics" + path
}

// ask performs a request, however it ends.
func ask(how, path string, bytes int) {
	vh.Panics(func() {
		switch how {
		case "local":
			tricorder.ReadMyMetrics(path)
		case "rpc":
			rpc.DefaultServer.ServeRequest(&codec{"ListMetrics", path})
		case "rpcget":
			rpc.DefaultServer.ServeRequest(&codec{"GetMetric", path})
		case "rpcwire":
			vh.RpcList(path)
		case "real":
			vh.Serve("GET", url(how, path))
		case "realgz":
			vh.Serve("GET", url(how, path), "Accept-Encoding", "gzip")
		default:
			req := httptest.NewRequest("GET", url(how, path), nil)
			if strings.HasSuffix(how, "gz") {
				req.Header.Set("Accept-Encoding", "gzip")
			}
			if strings.HasPrefix(how, "cut") {
				http.DefaultServeMux.ServeHTTP(&answer{http.Header{}, bytes}, req)
			} else {
				http.DefaultServeMux.ServeHTTP(httptest.NewRecorder(), req)
			}
		}
	})
}

type count struct{ goroutines, fds, objects, bytes int }

func fds() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(d)
}

func measure() (c count) {
	var ms runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&ms)
	return count{runtime.NumGoroutine(), fds(), int(ms.Mallocs - ms.Frees), int(ms.HeapAlloc)}
}

// grew tells what grew by a good part of n, the number of requests.
func grew(a, b count, n int) string {
	switch {
	case b.goroutines-a.goroutines > n/10:
		return fmt.Sprintf("goroutines from %d to %d", a.goroutines, b.goroutines)
	case b.fds-a.fds > n/30:
		return fmt.Sprintf("open descriptors from %d to %d", a.fds, b.fds)
	case b.objects-a.objects > n/2:
		return fmt.Sprintf("heap objects from %d to %d", a.objects, b.objects)
	case b.bytes-a.bytes > 400*n:
		return fmt.Sprintf("heap bytes from %d to %d", a.bytes, b.bytes)
	}
	return ""
}

type request struct {
	how, path string
	bytes     int
}

func TestRequests(t *testing.T) {
	groups := []*tricorder.Group{tricorder.NewGroup(), tricorder.NewGroup(), tricorder.NewGroup()}
	vh.Check(t, 120, 1500, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		var paths []string
		var panicking atomic.Bool
		vars := make([]int64, 40)
		n := rapid.IntRange(1, 8).Draw(t, "metrics")
		for i := 0; i < n; i++ {
			path := fmt.Sprintf("/vp/%s/m%d", rapid.SampledFrom([]string{"a", "b", "a/c", "d/e/f"}).Draw(t, "dir"), i)
			g := rapid.IntRange(0, 2).Draw(t, "group")
			var obj interface{}
			switch rapid.SampledFrom([]string{"ptr", "func", "panic", "list", "dist", "times"}).Draw(t, "sort") {
			case "ptr":
				obj = &vars[i]
			case "func":
				obj = func() float64 { return float64(i) }
			case "panic":
				obj = func() int {
					if panicking.Load() {
						panic("boom")
					}
					return 1
				}
			case "list":
				obj = tricorder.NewList([]string{"a", "b<c>", "d"}, false)
			case "times":
				obj = tricorder.NewList([]time.Time{time.Unix(1, 2), {}}, false)
			case "dist":
				obj = tricorder.PowersOfFour.NewNonCumulativeDistribution()
			}
			vh.Must(t, groups[g].RegisterMetric(path, obj, units.Second, "d"), "register "+path)
			if d, ok := obj.(*tricorder.NonCumulativeDistribution); ok {
				d.Add(3.5)
			}
			paths = append(paths, path)
		}
		paths = append(paths, "/vp", "/vp/a", "/vp/none", "/proc/io/num-open-file-descriptors", "/proc/io", "/proc")
		var mix []request
		used := map[string]bool{}
		for i := rapid.IntRange(1, 5).Draw(t, "requests"); i > 0; i-- {
			r := request{rapid.SampledFrom(sorts).Draw(t, "how"), rapid.SampledFrom(paths).Draw(t, "path"), rapid.IntRange(0, 300).Draw(t, "bytes")}
			mix = append(mix, r)
			used[r.how] = true
		}
		update := rapid.Bool().Draw(t, "update functions")
		if update {
			for _, g := range groups {
				g.RegisterUpdateFunc(func() time.Time { return time.Unix(5, 0) })
			}
		}
		// net/rpc does not survive a panic
		panicking.Store(rapid.IntRange(0, 2).Draw(t, "panic") == 2 && !used["rpcwire"])
		rounds := 300 / len(mix)
		run := func() {
			for i := 0; i < rounds; i++ {
				for _, r := range mix {
					ask(r.how, r.path, r.bytes)
				}
			}
		}
		for i := 0; i < 3; i++ {
			for _, r := range mix {
				ask(r.how, r.path, r.bytes)
			}
		}
		total := rounds * len(mix)
		// What a request leaves behind for good shows every time.
		var grown string
		for try := 0; try < 4; try++ {
			before := measure()
			run()
			if grown = grew(before, measure(), total); grown != "" {
				time.Sleep(time.Duration(20*(1+10*try)) * time.Millisecond)
				grown = grew(before, measure(), total)
			}
			if grown == "" {
				break
			}
		}
		if grown != "" {
			t.Fatalf("%d requests (repeatedly %v) let grow %s; metrics %v, panicking %v", total, mix, grown, paths, panicking.Load())
		}
		vh.Case(fmt.Sprint(paths, mix, update, panicking.Load()), len(used) >= 3)
	})
}

// box is large enough not to share memory with others.
type box struct {
	i   int64
	s   string
	tm  time.Time
	ptm *time.Time
	pad [16]int64
}

type object struct {
	sort string
	path string
	gone *atomic.Bool
	// removed tells that nothing should hold it any more
	removed bool
}

// world has no references to the objects themselves.
type world struct {
	t       *rapid.T
	groups  []*tricorder.Group
	objects []*object
	history []string
}

func (w *world) note(format string, a ...interface{}) {
	w.history = append(w.history, fmt.Sprintf(format, a...))
}

//go:noinline
func (w *world) register(sort, path string, g int) bool {
	gone := new(atomic.Bool)
	b := &box{i: 7, s: "s", tm: time.Unix(3, 0), ptm: new(time.Time)}
	fin := func(*box) { gone.Store(true) }
	var obj interface{}
	switch sort {
	case "int":
		runtime.SetFinalizer(b, fin)
		obj = &b.i
	case "string":
		runtime.SetFinalizer(b, fin)
		obj = &b.s
	case "time":
		runtime.SetFinalizer(b, fin)
		obj = &b.tm
	case "*time":
		runtime.SetFinalizer(b, fin)
		obj = &b.ptm
	case "func":
		runtime.SetFinalizer(b, fin)
		obj = func() int64 { return b.i }
	case "list":
		l := tricorder.NewList([]int64{1, 2, 3}, true)
		runtime.SetFinalizer(l, func(*tricorder.List) { gone.Store(true) })
		obj = l
	case "slice":
		s := make([]int64, 40)
		runtime.SetFinalizer(&s[0], func(*int64) { gone.Store(true) })
		obj = tricorder.NewList(s, false)
	case "cumulative":
		d := tricorder.PowersOfTwo.NewCumulativeDistribution()
		runtime.SetFinalizer(d, func(*tricorder.CumulativeDistribution) { gone.Store(true) })
		obj = d
	case "noncumulative":
		d := tricorder.PowersOfTen.NewNonCumulativeDistribution()
		runtime.SetFinalizer(d, func(*tricorder.NonCumulativeDistribution) { gone.Store(true) })
		obj = d
	}
	if err := w.groups[g].RegisterMetric(path, obj, units.None, "d"); err != nil {
		w.note("register %s as %s in group %d: %v", sort, path, g, err)
		w.objects = append(w.objects, &object{sort, path, gone, true})
		return false
	}
	if d, ok := obj.(*tricorder.CumulativeDistribution); ok {
		d.Add(1.5)
	}
	if d, ok := obj.(*tricorder.NonCumulativeDistribution); ok {
		d.Add(1.5)
		d.Add(2.5)
		d.Remove(1.5)
	}
	w.note("register %s as %s in group %d", sort, path, g)
	w.objects = append(w.objects, &object{sort, path, gone, false})
	return true
}

// changing registers a list whose slices are replaced one after another.
//
//go:noinline
func (w *world) changing(path string, times int, how string) {
	var l *tricorder.List
	for i := 0; i <= times; i++ {
		gone := new(atomic.Bool)
		s := make([]int64, 40)
		s[0] = int64(i)
		runtime.SetFinalizer(&s[0], func(*int64) { gone.Store(true) })
		if l == nil {
			l = tricorder.NewList(s, false)
			vh.Must(w.t, tricorder.RegisterMetric(path, l, units.None, "d"), "register "+path)
		} else {
			l.Change(s, false)
		}
		ask(how, path, 50)
		w.objects = append(w.objects, &object{"changed slice", path, gone, i < times})
	}
	w.note("list %s changed %d times, asked by %s", path, times, how)
}

// updates gives a group one update function after another.
//
//go:noinline
func (w *world) updates(g, times int, how string) {
	for i := 0; i < times; i++ {
		gone := new(atomic.Bool)
		b := &box{}
		runtime.SetFinalizer(b, func(*box) { gone.Store(true) })
		w.groups[g].RegisterUpdateFunc(func() time.Time { b.i++; return time.Unix(b.i, 0) })
		w.objects = append(w.objects, &object{"update function", fmt.Sprint("group ", g), gone, true})
		ask(how, "/vp", 50)
	}
	w.groups[g].RegisterUpdateFunc(func() time.Time { return time.Unix(1, 0) })
	w.note("group %d given %d update functions, asked by %s", g, times, how)
}

func (w *world) under(path string) (n int) {
	for _, o := range w.objects {
		if o.sort != "update function" && (o.path == path || strings.HasPrefix(o.path, path+"/")) && !o.removed {
			o.removed = true
			n++
		}
	}
	return
}

//go:noinline
func (w *world) remove(path, way string) {
	switch way {
	case "path":
		tricorder.UnregisterPath(path)
	case "relative":
		d, err := tricorder.GetDirectory("/vp")
		vh.Must(w.t, err, "get /vp")
		d.UnregisterPath(strings.TrimPrefix(path, "/vp/"))
	case "handle":
		d, err := tricorder.GetDirectory(path)
		if err != nil {
			tricorder.UnregisterPath(path)
		} else {
			d.UnregisterDirectory()
		}
	}
	w.note("remove %s by %s: %d objects", path, way, w.under(path))
}

func TestRelease(t *testing.T) {
	groups := []*tricorder.Group{tricorder.NewGroup(), tricorder.NewGroup(), tricorder.DefaultGroup}
	vh.Check(t, 900, 12000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		w := &world{t: t, groups: groups}
		dirs := []string{"/vp", "/vp/a", "/vp/b", "/vp/a/c"}
		asked := []string{"local", "rpc", "rpcget", "rest", "restgz", "restone", "text", "html", "cut", "cuttext"}
		sorts := []string{"int", "string", "time", "*time", "func", "list", "slice", "cumulative", "noncumulative"}
		if n := rapid.IntRange(0, 4).Draw(t, "sorts"); n > 0 { // only few sorts
			some := make([]string, n)
			for i := range some {
				some[i] = rapid.SampledFrom(sorts).Draw(t, "some")
			}
			sorts = some
		}
		serial := 0
		dropped := map[string]bool{}
		steps := rapid.IntRange(4, 40).Draw(t, "steps")
		for i := 0; i < steps; i++ {
			switch rapid.SampledFrom([]string{"register", "register", "register", "register", "ask", "remove", "again", "refuse", "list", "update"}).Draw(t, "step") {
			case "register":
				serial++
				w.register(rapid.SampledFrom(sorts).Draw(t, "sort"), fmt.Sprintf("%s/m%d", rapid.SampledFrom(dirs).Draw(t, "dir"), serial), rapid.IntRange(0, 2).Draw(t, "group"))
			case "again": // refused, or not
				w.register(rapid.SampledFrom(sorts).Draw(t, "sort"), rapid.SampledFrom(dirs).Draw(t, "dir")+"/m"+fmt.Sprint(rapid.IntRange(1, serial+1).Draw(t, "same")), rapid.IntRange(0, 2).Draw(t, "group"))
				serial++
			case "refuse":
				for _, o := range append([]*object(nil), w.objects...) {
					if !o.removed && o.sort != "update function" {
						for j := rapid.IntRange(1, 6).Draw(t, "times"); j > 0; j-- {
							w.register(rapid.SampledFrom(sorts).Draw(t, "sort"), o.path+rapid.SampledFrom([]string{"", "/x"}).Draw(t, "below"), rapid.IntRange(0, 2).Draw(t, "group"))
						}
						break
					}
				}
			case "ask":
				how := rapid.SampledFrom(asked).Draw(t, "how")
				path := rapid.SampledFrom(append(dirs, "/vp/m1", "/vp/a/m2")).Draw(t, "path")
				ask(how, path, rapid.IntRange(0, 200).Draw(t, "bytes"))
				w.note("ask %s by %s", path, how)
			case "list":
				serial++
				w.changing(fmt.Sprintf("/vp/m%d", serial), rapid.IntRange(1, 3).Draw(t, "times"), rapid.SampledFrom(asked).Draw(t, "how"))
			case "update":
				w.updates(rapid.IntRange(0, 1).Draw(t, "group"), rapid.IntRange(1, 3).Draw(t, "times"), rapid.SampledFrom(asked).Draw(t, "how"))
			case "remove":
				var paths []string
				for _, o := range w.objects {
					if !o.removed && o.sort != "update function" {
						paths = append(paths, o.path)
					}
				}
				paths = append(paths, dirs[1:]...)
				sort.Strings(paths)
				path := rapid.SampledFrom(paths).Draw(t, "which")
				if tricorderHas("/vp") {
					w.remove(path, rapid.SampledFrom([]string{"path", "relative", "handle"}).Draw(t, "way"))
				}
			}
		}
		if rapid.Bool().Draw(t, "ask all") {
			how := rapid.SampledFrom(asked).Draw(t, "how")
			for _, o := range w.objects {
				if !o.removed {
					ask(how, o.path, 100)
				}
			}
			ask(how, "/vp", 100000)
			w.note("ask all by %s", how)
		}
		// at the end most go
		way := rapid.SampledFrom([]string{"path", "handle", "none", "each"}).Draw(t, "end")
		switch way {
		case "each":
			for _, o := range append([]*object(nil), w.objects...) {
				if !o.removed {
					w.remove(o.path, "path")
				}
			}
		case "path", "handle":
			if tricorderHas("/vp") {
				w.remove("/vp", way)
			}
		}
		// a request after the removal, so that the last one holds nothing either
		if rapid.Bool().Draw(t, "asked after") {
			ask("local", "/vp", 0)
			w.note("ask /vp by local")
		}
		for _, o := range w.objects {
			if o.removed {
				dropped[o.sort] = true
			}
		}
		overwrite(40)
		var left []string
		for try := 0; try < 24; try++ {
			runtime.GC()
			left = left[:0]
			removed := 0
			for _, o := range w.objects {
				if o.removed {
					removed++
					if !o.gone.Load() {
						left = append(left, o.sort+" "+o.path)
					}
				}
			}
			// a cache may keep some of the last ones
			if len(left) <= 2 || 5*len(left) <= removed {
				left = nil
				break
			}
			time.Sleep(time.Duration(try) * time.Millisecond)
		}
		if left != nil {
			t.Fatalf("still held after their removal: %s; history: %s", strings.Join(left, ", "), strings.Join(w.history, "; "))
		}
		vh.Case(strings.Join(w.history, "; "), len(dropped) >= 2)
	})
}

func tricorderHas(path string) bool {
	_, err := tricorder.GetDirectory(path)
	return err == nil
}

// overwrite clears what earlier calls left on the stack.
//
//go:noinline
func overwrite(n int) int {
	var a [64]int
	for i := range a {
		a[i] = n
	}
	if n > 0 {
		return overwrite(n-1) + a[n]
	}
	return a[0]
}
