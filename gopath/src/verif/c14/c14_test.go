package c14

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "a case is a generated tree of metrics assigned to 1 to 3 groups and a generated schedule of up to 6 requests on any interface, stepped one at a time from callback to callback, with update functions replaced in between, against a model of which request reads which group; or a free-running mix of requests from several goroutines; non-trivial if at some point two requests were reading the same group, or the free run had two requests at once; distinct by tree and schedule")
}

// item is a metric: a callback, where the scheduler can hold a request, or a
// variable its group's update function writes.
type item struct {
	parts []string
	path  string
	g     int // group, or -1 for a list outside all groups
	gate  bool
	float bool
	nan   bool // a callback that yields NaN: read, but left out of listings
}

type group struct {
	g       *tricorder.Group
	void    bool // default update function
	fn      int  // current update function
	updates atomic.Int64
	wrong   atomic.Value // string
	i64     []*int64
	f64     []*float64
}

func stamp(g int, version int64) time.Time {
	return time.Unix(1e9+int64(g)*1e6+version, int64(g)*1001)
}

type request struct {
	id      int
	how     string
	path    string
	plan    []*item
	pos     int
	running bool
	ended   bool
	passed  map[*item]bool
	resume  chan struct{}
	visited map[int]int64 // group -> version
	epoch   map[int]int
	body    interface{}
	err     error
}

type sched struct {
	mu     sync.Mutex
	cur    *request
	events chan *item // nil: request ended
	stray  atomic.Bool
}

func (s *sched) running() *request {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.cur
}

func (s *sched) set(r *request) {
	s.mu.Lock()
	s.cur = r
	s.mu.Unlock()
}

// hit is called in callbacks.
func (s *sched) hit(it *item) {
	r := s.running()
	if r == nil {
		s.stray.Store(true)
		return
	}
	if r.passed[it] { // a value may be fetched more than once
		return
	}
	r.passed[it] = true
	s.events <- it
	<-r.resume
}

var hows = []string{"local", "rpc", "rpcget", "rest", "restone", "text", "html"}

const patience = 30 * time.Second

func TestSchedules(t *testing.T) {
	vh.Check(t, 2500, 40000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		s := &sched{events: make(chan *item)}
		var log []string
		note := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
		fail := func(f string, a ...interface{}) {
			t.Fatalf("%s\nafter:\n  %s", fmt.Sprintf(f, a...), strings.Join(log, "\n  "))
		}

		// groups
		ng, most := rapid.IntRange(1, 3).Draw(t, "groups"), 9
		if rapid.IntRange(0, 7).Draw(t, "many") == 0 {
			ng, most = rapid.IntRange(4, 9).Draw(t, "groups"), 18
		}
		groups := make([]*group, ng)
		install := func(g int, fn int) {
			gr := groups[g]
			f := func() time.Time {
				v := gr.updates.Add(1)
				if gr.fn != fn { // written by the scheduler only while nothing runs
					gr.wrong.Store(fmt.Sprintf("update function %d of group %d ran, the current one is %d", fn, g, gr.fn))
				}
				for _, p := range gr.i64 {
					*p = v
				}
				for _, p := range gr.f64 {
					*p = float64(v)
				}
				return stamp(g, v)
			}
			gr.g.RegisterUpdateFunc(f)
			gr.fn = fn
			gr.void = false
		}
		for g := range groups {
			groups[g] = &group{g: tricorder.NewGroup(), void: true}
			if rapid.IntRange(0, 5).Draw(t, "void") > 0 {
				install(g, 1)
			}
		}
		// metrics
		var items []*item
		n := rapid.IntRange(1, most).Draw(t, "metrics")
		used := map[string]bool{}
		for i := 0; i < n; i++ {
			parts := []string{"vp"}
			for d := rapid.IntRange(0, 2).Draw(t, "depth"); d > 0; d-- {
				parts = append(parts, rapid.SampledFrom([]string{"d", "e"}).Draw(t, "dir"))
			}
			name := rapid.SampledFrom([]string{"a", "b", "c", "dd", "f", "z"}).Draw(t, "name")
			parts = append(parts, name)
			path := "/" + strings.Join(parts, "/")
			if used[path] {
				continue
			}
			used[path] = true
			it := &item{parts: parts, path: path, g: rapid.IntRange(0, ng-1).Draw(t, "group")}
			kind := rapid.SampledFrom([]string{"gate", "gate", "gate", "fgate", "ptr", "ptr", "fptr", "list", "nan"}).Draw(t, "kind")
			var spec interface{}
			switch kind {
			case "gate":
				it.gate = true
				spec = func() int64 { s.hit(it); return groups[it.g].updates.Load() }
			case "fgate":
				it.gate, it.float = true, true
				spec = func() float64 { s.hit(it); return float64(groups[it.g].updates.Load()) }
			case "nan":
				it.gate, it.float, it.nan = true, true, true
				spec = func() float64 { s.hit(it); return math.NaN() }
			case "ptr":
				p := new(int64)
				*p = groups[it.g].updates.Load()
				groups[it.g].i64 = append(groups[it.g].i64, p)
				spec = p
			case "fptr":
				p := new(float64)
				it.float = true
				groups[it.g].f64 = append(groups[it.g].f64, p)
				spec = p
			case "list":
				it.g = -1
				spec = tricorder.NewList([]int64{7}, false)
			}
			var err error
			if it.g < 0 {
				err = tricorder.RegisterMetric(path, spec, units.None, "x")
			} else {
				err = vh.RegisterIn(t, groups[it.g].g, path, spec, units.None, "x")
			}
			vh.Must(t, err, "register "+path)
			items = append(items, it)
			note("metric %s %s group %d", path, kind, it.g)
		}
		sort.Slice(items, func(i, j int) bool { return vh.LessParts(items[i].parts, items[j].parts) })

		// model
		readers := make([]map[*request]bool, ng)
		count := make([]int64, ng)         // updates so far
		epoch := make([]int, ng)           // updates of default functions, too
		window := make([][2]time.Time, ng) // when the default function ran
		voidTs := map[string]string{}
		for g := range readers {
			readers[g] = map[*request]bool{}
		}
		var reqs []*request
		shared := 0
		plan := func(how, path string) []*item {
			var p []*item
			parts := strings.Split(path[1:], "/")
			for _, it := range items {
				if len(it.parts) < len(parts) || strings.Join(it.parts[:len(parts)], "/") != strings.Join(parts, "/") {
					continue
				}
				if how == "html" && len(it.parts) > len(parts)+1 {
					continue
				}
				p = append(p, it)
			}
			return p
		}
		// step lets r run to its next stop.
		step := func(r *request) {
			start := time.Now()
			s.set(r)
			if !r.running {
				r.running = true
				go func() {
					r.body, r.err = func() (interface{}, error) { return vh.Perform(r.how, r.path) }()
					s.events <- nil
				}()
			} else {
				r.resume <- struct{}{}
			}
			var at *item
			select {
			case at = <-s.events:
			case <-vh.After(patience):
				vh.Blocked()
				fail("request %d was held up for %v\n%s", r.id, patience, vh.Stacks())
			}
			s.set(nil)
			end := time.Now()
			// what the model says
			var stop *item
			for stop == nil && r.pos < len(r.plan) {
				it := r.plan[r.pos]
				r.pos++
				if it.g < 0 {
					continue
				}
				if _, ok := r.visited[it.g]; !ok {
					if len(readers[it.g]) == 0 {
						epoch[it.g]++
						if !groups[it.g].void {
							count[it.g]++
						} else {
							window[it.g] = [2]time.Time{start, end}
						}
					} else {
						shared++
					}
					readers[it.g][r] = true
					r.visited[it.g] = count[it.g]
					r.epoch[it.g] = epoch[it.g]
				}
				if it.gate {
					stop = it
				}
			}
			where := "its end"
			if at != nil {
				where = at.path
			}
			note("request %d (%s %s) runs to %s", r.id, r.how, r.path, where)
			for g, gr := range groups {
				if w := gr.wrong.Load(); w != nil {
					fail("%s", w)
				}
				if c := gr.updates.Load(); c != count[g] {
					fail("group %d was updated %d times, want %d (%d requests are reading it)", g, c, count[g], len(readers[g]))
				}
			}
			if s.stray.Load() {
				fail("a callback ran with no request running")
			}
			if at != stop {
				w := "its end"
				if stop != nil {
					w = stop.path
				}
				fail("request %d stopped at %s, want %s", r.id, where, w)
			}
			if at != nil {
				return
			}
			r.ended = true
			for g := range groups {
				delete(readers[g], r)
			}
			// the response
			if r.err != nil {
				fail("request %d: %v", r.id, r.err)
			}
			got := r.body.([]vh.Rep)
			var want []*item
			for _, it := range r.plan {
				if it.nan && r.how != "html" && r.how != "rpcget" && !(r.how == "text" && it.path == r.path) {
					continue
				}
				want = append(want, it)
			}
			if len(got) != len(want) {
				fail("request %d reports %v, want %d metrics", r.id, got, len(want))
			}
			for i, it := range want {
				w := vh.Rep{Path: it.path}
				switch {
				case it.g < 0:
					w.Val = "7"
					if r.how != "text" && r.how != "html" {
						w.Val = "[7]"
					}
				case it.nan:
					w.Val = "NaN"
				default:
					v := r.visited[it.g]
					w.Val = strconv.FormatInt(v, 10)
					// an update function replaced the default one while r reads
					if r.how != "text" && r.how != "html" {
						w.Ts = vh.TimeText(stamp(it.g, v), units.Second)
					}
				}
				if got[i].Path != w.Path || got[i].Val != w.Val {
					fail("request %d reports %v for %v", r.id, got[i], w)
				}
				if w.Ts == "" || it.nan {
					continue
				}
				if v := r.visited[it.g]; v > 0 {
					if got[i].Ts != w.Ts {
						fail("request %d reports %v, want timestamp %s", r.id, got[i], w.Ts)
					}
					continue
				}
				// the default function: the time it ran
				key := fmt.Sprint(it.g, r.epoch[it.g])
				if x, ok := voidTs[key]; ok && got[i].Ts != x {
					fail("request %d reports %v, another reading the group then got timestamp %s", r.id, got[i], x)
				}
				voidTs[key] = got[i].Ts
				ns, err := strconv.ParseInt(strings.Replace(got[i].Ts, ".", "", 1), 10, 64)
				if w := window[it.g]; err != nil || ns < w[0].UnixNano() || ns > w[1].UnixNano() {
					fail("request %d reports %v, the default update function ran between %v and %v", r.id, got[i], w[0], w[1])
				}
			}
		}
		newReq := func(t *rapid.T) {
			live := 0
			for _, r := range reqs {
				if !r.ended {
					live++
				}
			}
			if live >= 5 || len(items) == 0 {
				t.Skip("enough")
			}
			r := &request{id: len(reqs), passed: map[*item]bool{}, resume: make(chan struct{}),
				visited: map[int]int64{}, epoch: map[int]int{}}
			r.how = rapid.SampledFrom(hows).Draw(t, "how")
			it := rapid.SampledFrom(items).Draw(t, "at")
			k := len(it.parts)
			switch r.how {
			case "rpcget", "restone":
				if it.nan && r.how == "restone" {
					t.Skip("not expressible")
				}
			default:
				k = rapid.IntRange(1, k).Draw(t, "depth")
				if rapid.Bool().Draw(t, "all") {
					k = 1
				}
			}
			r.path = "/" + strings.Join(it.parts[:k], "/")
			r.plan = plan(r.how, r.path)
			reqs = append(reqs, r)
			step(r)
		}
		t.Repeat(map[string]func(*rapid.T){
			"request":  newReq,
			"request2": newReq,
			"step": func(t *rapid.T) {
				var live []*request
				for _, r := range reqs {
					if !r.ended {
						live = append(live, r)
					}
				}
				if len(live) == 0 {
					t.Skip("none")
				}
				step(rapid.SampledFrom(live).Draw(t, "which"))
			},
			"replace": func(t *rapid.T) {
				g := rapid.IntRange(0, ng-1).Draw(t, "group")
				if !vh.Within(patience, func() { install(g, groups[g].fn+1) }) {
					fail("RegisterUpdateFunc blocked\n%s", vh.Stacks())
				}
				note("update function %d for group %d", groups[g].fn, g)
			},
			"missing": func(t *rapid.T) {
				tricorder.ReadMyMetrics("/vp/none")
				vh.Get("/metricsapi/vp/d/none")
				vh.Get("/metrics/vp/none?format=text")
				for g, gr := range groups {
					if gr.updates.Load() != count[g] {
						fail("a request for nothing updated group %d", g)
					}
				}
			},
		})
		for _, r := range reqs {
			for !r.ended {
				step(r)
			}
		}
		// all is over: everything is updated once more, once
		if len(items) > 0 {
			r := &request{id: len(reqs), how: "local", path: "/vp", passed: map[*item]bool{}, resume: make(chan struct{}),
				visited: map[int]int64{}, epoch: map[int]int{}}
			r.plan = plan(r.how, r.path)
			for !r.ended {
				step(r)
			}
		}
		if shared > 0 {
			vh.Label("schedules with a shared group")
		}
		vh.Case(strings.Join(log, "; "), shared > 0)
	})
}

// A second request arriving while the group's update function is running for
// the first waits for it at most, skips its own update and sees the same.
func TestDuringUpdate(t *testing.T) {
	vh.Check(t, 150, 1500, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		g := tricorder.NewGroup()
		var v int64
		var calls atomic.Int64
		inUpdate := make(chan struct{}, 100)
		goOn := make(chan struct{})
		g.RegisterUpdateFunc(func() time.Time {
			n := calls.Add(1)
			inUpdate <- struct{}{}
			if n == 1 {
				<-goOn
			}
			v = n
			return stamp(0, n)
		})
		hold := make(chan struct{})
		vh.Must(t, g.RegisterMetric("/vp/a", func() int64 { <-hold; return calls.Load() }, units.None, ""), "register")
		vh.Must(t, g.RegisterMetric("/vp/b", &v, units.None, ""), "register")
		k := rapid.IntRange(1, 4).Draw(t, "others")
		type res struct {
			how string
			out []vh.Rep
			err error
		}
		results := make(chan res, k+1)
		run := func(how string) {
			out, err := vh.Perform(how, "/vp")
			results <- res{how, out, err}
		}
		lists := []string{"local", "rpc", "rest", "text", "html"}
		var used []string
		first := rapid.SampledFrom(lists).Draw(t, "first")
		used = append(used, first)
		go run(first)
		<-inUpdate
		for i := 0; i < k; i++ {
			how := rapid.SampledFrom(lists).Draw(t, "other")
			used = append(used, how)
			go run(how)
		}
		replace := rapid.Bool().Draw(t, "replace")
		rep2 := make(chan struct{})
		if replace {
			go func() {
				g.RegisterUpdateFunc(func() time.Time {
					n := calls.Add(1)
					v = n
					return stamp(0, n)
				})
				close(rep2)
			}()
		} else {
			close(rep2)
		}
		time.Sleep(time.Duration(rapid.IntRange(0, 300).Draw(t, "µs")) * time.Microsecond)
		if rapid.IntRange(0, 29).Draw(t, "slow") == 29 {
			time.Sleep(time.Duration(rapid.IntRange(500, 3500).Draw(t, "ms")) * time.Millisecond)
			vh.Label("slow update")
		}
		close(goOn)
		select {
		case <-rep2:
		case <-vh.After(patience):
			vh.Blocked()
			t.Fatalf("RegisterUpdateFunc blocked\n%s", vh.Stacks())
		}
		time.Sleep(time.Duration(rapid.IntRange(0, 300).Draw(t, "µs")) * time.Microsecond)
		// the first request is at /vp/a now or soon and stays there until all
		// have had time to arrive; whether they did does not matter to the
		// check, as a late one makes an update of its own
		close(hold)
		for i := 0; i <= k; i++ {
			select {
			case r := <-results:
				if r.err != nil || len(r.out) != 2 {
					t.Fatalf("%s: %v %v", r.how, r.out, r.err)
				}
				ver, err := strconv.ParseInt(r.out[1].Val, 10, 64)
				if r.out[0].Ts != r.out[1].Ts || r.out[0].Val != r.out[1].Val || err != nil || ver < 1 ||
					r.out[0].Ts != "" && r.out[0].Ts != vh.TimeText(stamp(0, ver), units.Second) {
					t.Fatalf("%s, with an update under way when it came: %v", r.how, r.out)
				}
			case <-vh.After(patience):
				vh.Blocked()
				t.Fatalf("a request is held up\n%s", vh.Stacks())
			}
		}
		if c := calls.Load(); c > int64(k+1) {
			t.Fatalf("%d updates for %d requests", c, k+1)
		}
		vh.Case(fmt.Sprint("during update ", used, replace), true)
	})
}

// While updates of some groups take their time, requests of other groups,
// registrations, removals and lookups go on. The updates may do such things
// themselves.
func TestApart(t *testing.T) {
	vh.Check(t, 250, 2500, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		n := rapid.IntRange(2, 6).Draw(t, "groups")
		blocked := rapid.IntRange(1, n-1).Draw(t, "blocked")
		hows := []string{"local", "rpc", "rest", "text", "html"}
		counts := make([]atomic.Int64, n)
		inUpdate := make(chan struct{}, n)
		goOn := make(chan struct{})
		vals := make([]int64, n)
		var desc []string
		finish := func(what string, f func() error) {
			done := make(chan error, 1)
			go func() { done <- f() }()
			select {
			case err := <-done:
				if err != nil {
					t.Fatalf("%s while updates of other groups are running: %v\n%v", what, err, desc)
				}
			case <-vh.After(patience):
				vh.Blocked()
				close(goOn)
				t.Fatalf("%s waits for updates of other groups\n%v\n%s", what, desc, vh.Stacks())
			}
		}
		dirs := make([]string, n)
		var nested []string
		read := func(how string, g int) error {
			before := counts[g].Load()
			out, err := vh.Perform(how, dirs[g])
			if err != nil {
				return err
			}
			after := counts[g].Load()
			if len(out) != 2 || before+1 != after || out[0].Val != fmt.Sprint(after) || out[1].Val != out[0].Val {
				return fmt.Errorf("%d updates before and %d after %s of group %d: %v", before, after, how, g, out)
			}
			return nil
		}
		for g := 0; g < n; g++ {
			g := g
			dirs[g] = fmt.Sprintf("/vp/g%d", g)
			grp := tricorder.NewGroup()
			nest := ""
			if g < blocked {
				nest = rapid.SampledFrom([]string{"", "read", "register", "unregister", "lookup", "update func"}).Draw(t, "nest")
			}
			nested = append(nested, nest)
			other := rapid.IntRange(blocked, n-1).Draw(t, "of")
			how := rapid.SampledFrom(hows).Draw(t, "how")
			grp.RegisterUpdateFunc(func() time.Time {
				c := counts[g].Add(1)
				vals[g] = c
				if g < blocked && c == 1 {
					switch nest {
					case "read":
						if _, err := vh.Perform(how, dirs[other]+"/x"); err != nil {
							return time.Time{}
						}
					case "register":
						tricorder.RegisterMetric(fmt.Sprintf("/vp/new%d", g), new(int), units.None, "")
					case "unregister":
						tricorder.UnregisterPath(fmt.Sprintf("/vp/old%d", g))
					case "lookup":
						tricorder.RegisterDirectory(fmt.Sprintf("/vp/dir%d", g))
					case "update func":
						tricorder.NewGroup().RegisterUpdateFunc(func() time.Time { return time.Now() })
					}
					inUpdate <- struct{}{}
					<-goOn
				}
				return stamp(g, c)
			})
			vh.Must(t, tricorder.RegisterMetric(fmt.Sprintf("/vp/old%d", g), new(int), units.None, ""), "register")
			vh.Must(t, grp.RegisterMetric(dirs[g]+"/x", &vals[g], units.None, ""), "register")
			vh.Must(t, grp.RegisterMetric(dirs[g]+"/y", func() int64 { return counts[g].Load() }, units.None, ""), "register")
		}
		desc = append(desc, fmt.Sprint(n, " groups, updates blocked of ", blocked, " ", nested))
		type res struct {
			g   int
			out []vh.Rep
			err error
		}
		results := make(chan res, n)
		for g := 0; g < blocked; g++ {
			how := rapid.SampledFrom(hows).Draw(t, "how")
			desc = append(desc, fmt.Sprintf("%s of group %d", how, g))
			go func() {
				out, err := vh.Perform(how, dirs[g])
				results <- res{g, out, err}
			}()
			select {
			case <-inUpdate:
			case <-vh.After(patience):
				vh.Blocked()
				close(goOn)
				t.Fatalf("the update of group %d waits for others or what it does itself\n%v\n%s", g, desc, vh.Stacks())
			}
		}
		for k := rapid.IntRange(1, 6).Draw(t, "ops"); k > 0; k-- {
			g := rapid.IntRange(blocked, n-1).Draw(t, "group")
			switch what := rapid.SampledFrom([]string{"read", "read", "register", "unregister", "lookup", "group", "proc"}).Draw(t, "op"); what {
			case "read":
				how := rapid.SampledFrom(hows).Draw(t, "how")
				desc = append(desc, fmt.Sprintf("%s of group %d", how, g))
				finish(how, func() error { return read(how, g) })
			case "register":
				desc = append(desc, what)
				path := fmt.Sprintf("/vp/g%d/n%d", rapid.IntRange(0, n-1).Draw(t, "under"), k)
				finish(what, func() error {
					defer tricorder.UnregisterPath(path)
					return tricorder.RegisterMetric(path, new(int), units.None, "")
				})
			case "unregister":
				desc = append(desc, what)
				finish(what, func() error { tricorder.UnregisterPath(fmt.Sprintf("/vp/old%d", g)); return nil })
			case "lookup":
				desc = append(desc, what)
				finish(what, func() error { _, err := tricorder.RegisterDirectory(dirs[g]); return err })
			case "group":
				desc = append(desc, what)
				finish(what, func() error {
					tricorder.NewGroup().RegisterUpdateFunc(func() time.Time { return time.Now() })
					return nil
				})
			case "proc":
				desc = append(desc, what)
				finish(what, func() error {
					out, err := vh.Perform("local", "/proc/cpu")
					if err == nil && len(out) != 2 {
						err = fmt.Errorf("%v", out)
					}
					return err
				})
			}
		}
		close(goOn)
		for i := 0; i < blocked; i++ {
			select {
			case r := <-results:
				if r.err != nil || len(r.out) != 2 || r.out[0].Val != "1" || r.out[1].Val != "1" {
					t.Fatalf("group %d, whose update took long: %v %v\n%v", r.g, r.out, r.err, desc)
				}
			case <-vh.After(patience):
				vh.Blocked()
				t.Fatalf("a request is held up\n%v\n%s", desc, vh.Stacks())
			}
		}
		vh.Case("apart "+strings.Join(desc, "; "), true)
	})
}

// Free-running requests. Versions only grow, every response shows one version
// of each group with its timestamp, one not older than when it began.
func TestFree(t *testing.T) {
	vh.Check(t, 120, 1500, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		type grp struct {
			g        *tricorder.Group
			a, b     int64
			c        float64
			s        string
			tm       time.Time
			tp       *time.Time
			version  atomic.Int64
			inside   atomic.Int64
			complain atomic.Value
			gone     []*atomic.Bool
		}
		ng := rapid.IntRange(1, 2).Draw(t, "groups")
		var gs []*grp
		install := func(gi int, g *grp) {
			dropped := &atomic.Bool{}
			g.g.RegisterUpdateFunc(func() time.Time {
				if dropped.Load() {
					g.complain.Store("an update function ran after another had replaced it")
				}
				if g.inside.Load() != 0 {
					g.complain.Store("the update function ran while a callback of the group was running")
				}
				v := g.version.Load() + 1
				g.a, g.b, g.c, g.s = v, v, float64(v), strconv.FormatInt(v, 10)
				g.tm = time.Unix(v, 0)
				tp := time.Unix(v, 0)
				g.tp = &tp
				g.version.Store(v)
				return stamp(gi, v)
			})
			for _, d := range g.gone {
				d.Store(true)
			}
			g.gone = []*atomic.Bool{dropped}
		}
		for i := 0; i < ng; i++ {
			g := &grp{g: tricorder.NewGroup()}
			install(i, g)
			gs = append(gs, g)
			cb := func() int64 {
				g.inside.Add(1)
				defer g.inside.Add(-1)
				return g.version.Load()
			}
			for name, spec := range map[string]interface{}{
				"a": &g.a, "b": &g.b, "c": &g.c, "s": &g.s, "t": &g.tm, "u": &g.tp, "0": cb, "z": cb, "x/y": &g.a,
			} {
				vh.Must(t, g.g.RegisterMetric(fmt.Sprintf("/vp/g%d/%s", i, name), spec, units.None, "x"), "register")
			}
		}
		workers := rapid.IntRange(2, 6).Draw(t, "workers")
		per := rapid.SampledFrom([]int{5, 40, 120}).Draw(t, "requests")
		type job struct{ how, path string }
		jobs := make([][]job, workers)
		all := ""
		for w := range jobs {
			// few kinds per worker, so that pairs meet often
			var mine []job
			for i := 0; i < 3; i++ {
				j := job{how: rapid.SampledFrom(hows).Draw(t, "how")}
				gi := rapid.IntRange(0, ng-1).Draw(t, "g")
				leaf := rapid.SampledFrom([]string{"a", "b", "c", "0", "z", "x/y"}).Draw(t, "leaf")
				switch {
				case j.how == "rpcget" || j.how == "restone" || rapid.IntRange(0, 2).Draw(t, "single") == 0:
					j.path = fmt.Sprintf("/vp/g%d/%s", gi, leaf)
				case rapid.Bool().Draw(t, "all"):
					j.path = "/vp"
				default:
					j.path = fmt.Sprintf("/vp/g%d", gi)
				}
				mine = append(mine, j)
				all += fmt.Sprint(" ", j)
			}
			jobs[w] = mine
		}
		replacers := rapid.IntRange(0, 1).Draw(t, "replacer")
		var wg sync.WaitGroup
		var bad atomic.Value
		var stop atomic.Bool
		begin := make(chan struct{})
		var live, most atomic.Int64
		for w := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				for i := 0; i < per && bad.Load() == nil; i++ {
					j := jobs[w][i%3]
					lo := make([]int64, ng)
					for g := range gs {
						lo[g] = gs[g].version.Load()
					}
					if n := live.Add(1); n > most.Load() {
						most.Store(n)
					}
					out, err := vh.Perform(j.how, j.path)
					live.Add(-1)
					if err != nil {
						bad.Store(fmt.Sprintf("%v: %v", j, err))
						return
					}
					if len(out) == 0 && !(j.how == "html" && j.path == "/vp") {
						bad.Store(fmt.Sprintf("%v reports nothing", j))
						return
					}
					seen := map[int]int64{}
					for _, r := range out {
						gi, err := strconv.Atoi(r.Path[5:6])
						if err != nil || gi >= ng {
							bad.Store(fmt.Sprintf("%v reports %v", j, r))
							return
						}
						val := strings.Trim(strings.ReplaceAll(r.Val, ",", ""), `"`)
						if i := strings.LastIndex(r.Path, "/"); r.Path[i:] == "/t" || r.Path[i:] == "/u" {
							continue // other formats; the race detector watches them
						}
						v, err := strconv.ParseInt(val, 10, 64)
						if err != nil {
							bad.Store(fmt.Sprintf("%v reports %v", j, r))
							return
						}
						if x, ok := seen[gi]; ok && x != v {
							bad.Store(fmt.Sprintf("%v reports versions %d and %d of one group: %v", j, x, v, out))
							return
						}
						seen[gi] = v
						if v < lo[gi] || v < 1 || v > gs[gi].version.Load() {
							bad.Store(fmt.Sprintf("%v reports version %d, was at %d before", j, v, lo[gi]))
							return
						}
						if w := vh.TimeText(stamp(gi, v), units.Second); r.Ts != "" && r.Ts != w {
							bad.Store(fmt.Sprintf("%v reports %v, version has timestamp %s", j, r, w))
							return
						}
					}
				}
			}()
		}
		var rg sync.WaitGroup
		for i := 0; i < replacers; i++ {
			rg.Add(1)
			go func() {
				defer rg.Done()
				<-begin
				for !stop.Load() {
					for gi, g := range gs {
						install(gi, g)
					}
					time.Sleep(50 * time.Microsecond)
				}
			}()
		}
		close(begin)
		if !vh.Within(100*time.Second, func() { wg.Wait(); stop.Store(true); rg.Wait() }) {
			t.Fatalf("blocked\n%s", vh.Stacks())
		}
		if b := bad.Load(); b != nil {
			t.Fatalf("%s", b)
		}
		for gi, g := range gs {
			if c := g.complain.Load(); c != nil {
				t.Fatalf("%s", c)
			}
			before := g.version.Load()
			l := tricorder.ReadMyMetrics(fmt.Sprintf("/vp/g%d/a", gi))
			if v := g.version.Load(); v != before+1 || len(l) != 1 || l[0].Value != v {
				t.Fatalf("with no other request: version went from %d to %d", before, v)
			}
		}
		if most.Load() > 1 {
			vh.Label("free runs with requests at once")
		}
		vh.Case(fmt.Sprint("free ", ng, workers, per, replacers, all), most.Load() > 1)
	})
}

// Many requests reading a group at once share one update, and the next after
// all of them have ended makes a new one.
func TestCrowd(t *testing.T) {
	vh.Check(t, 40, 300, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		g := tricorder.NewGroup()
		var updates atomic.Int64
		var current, last int64 // update function installed, one that ran last
		install := func(id int64) {
			g.RegisterUpdateFunc(func() time.Time {
				atomic.StoreInt64(&last, id)
				return stamp(0, updates.Add(1))
			})
		}
		install(0)
		entered := make(chan struct{}, 2000)
		var hold chan struct{}
		var v int64
		vh.Must(t, g.RegisterMetric("/vp/a", func() int64 {
			if h := hold; h != nil {
				entered <- struct{}{}
				<-h
			}
			return updates.Load()
		}, units.None, ""), "register")
		vh.Must(t, g.RegisterMetric("/vp/b", &v, units.None, ""), "register")
		rounds := rapid.IntRange(1, 3).Draw(t, "rounds")
		desc := "crowd"
		for r := 0; r < rounds; r++ {
			n := rapid.OneOf(rapid.IntRange(1, 20), rapid.IntRange(100, 300)).Draw(t, "n")
			kinds := rapid.SliceOfN(rapid.SampledFrom([]string{"local", "rpc", "rest", "restone", "rpcget", "text", "html"}), 1, 3).Draw(t, "kinds")
			if rapid.IntRange(0, 15).Draw(t, "huge") == 15 {
				n = rapid.IntRange(300, 1200).Draw(t, "more")
				kinds = []string{"local"}
			}
			desc += fmt.Sprint(" ", n, kinds)
			before := updates.Load()
			hold = make(chan struct{})
			results := make(chan string, n)
			for i := 0; i < n; i++ {
				how := kinds[i%len(kinds)]
				go func() {
					path := "/vp"
					if how == "restone" || how == "rpcget" {
						path = "/vp/a"
					}
					out, err := vh.Perform(how, path)
					s := ""
					if err != nil || len(out) == 0 {
						s = fmt.Sprintf("%s: %v %v", how, out, err)
					} else if out[0].Val != fmt.Sprint(before+1) || (out[0].Ts != "" && out[0].Ts != vh.TimeText(stamp(0, before+1), units.Second)) {
						s = fmt.Sprintf("%s reports %v, the update was number %d", how, out[0], before+1)
					}
					results <- s
				}()
			}
			for i := 0; i < n; i++ {
				select {
				case <-entered:
				case s := <-results:
					t.Fatalf("request %d of %d ended early: %s", i, n, s)
				case <-vh.After(patience):
					vh.Blocked()
					t.Fatalf("request %d of %d is held up\n%s", i, n, vh.Stacks())
				}
			}
			if u := updates.Load(); u != before+1 {
				t.Fatalf("%d updates for %d requests reading at once", u-before, n)
			}
			if rapid.Bool().Draw(t, "replace") {
				current++
				install(current)
				desc += " replaced"
			}
			h := hold
			hold = nil
			if l := tricorder.ReadMyMetrics("/vp/b"); len(l) != 1 || updates.Load() != before+1 {
				t.Fatalf("a request while %d others are reading: %d updates", n, updates.Load()-before)
			}
			close(h)
			for i := 0; i < n; i++ {
				select {
				case s := <-results:
					if s != "" {
						t.Fatalf("%s", s)
					}
				case <-vh.After(patience):
					vh.Blocked()
					t.Fatalf("request does not end\n%s", vh.Stacks())
				}
			}
			if l := tricorder.ReadMyMetrics("/vp/b"); len(l) != 1 || updates.Load() != before+2 {
				t.Fatalf("after %d requests at once have ended the next makes %d updates", n, updates.Load()-before-1)
			}
			if l := atomic.LoadInt64(&last); l != current {
				t.Fatalf("update function %d ran, the current one is %d", l, current)
			}
		}
		vh.Case(desc, true)
	})
}

// Requests one after the other over many groups: each updates every group
// under what it asks for once, the others never, and reports that update.
func TestManyGroups(t *testing.T) {
	vh.Check(t, 300, 3000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		ng := rapid.OneOf(rapid.IntRange(1, 12), rapid.IntRange(13, 70), rapid.IntRange(70, rapid.SampledFrom([]int{70, 70, 700}).Draw(t, "most"))).Draw(t, "groups")
		type grp struct {
			g       *tricorder.Group
			updates int64
			v       int64
		}
		gs := make([]*grp, ng)
		type leaf struct {
			path string
			g    int
		}
		var leaves []leaf
		for i := range gs {
			g := &grp{g: tricorder.NewGroup()}
			gs[i] = g
			g.g.RegisterUpdateFunc(func() time.Time {
				g.v = atomic.AddInt64(&g.updates, 1)
				return stamp(i, g.v)
			})
		}
		dirs := rapid.IntRange(1, 4).Draw(t, "dirs")
		for i := 0; i < ng; i++ {
			for k := rapid.IntRange(1, 3).Draw(t, "of it"); k > 0; k-- {
				path := fmt.Sprintf("/vp/d%d/m%04d_%d", rapid.IntRange(0, dirs-1).Draw(t, "dir"), (i*37)%1009, k)
				var spec interface{} = &gs[i].v
				if rapid.Bool().Draw(t, "callback") {
					spec = func() int64 { return atomic.LoadInt64(&gs[i].updates) }
				}
				vh.Must(t, vh.RegisterIn(t, gs[i].g, path, spec, units.None, ""), "register")
				leaves = append(leaves, leaf{path, i})
			}
		}
		sort.Slice(leaves, func(i, j int) bool { return leaves[i].path < leaves[j].path })
		desc := ""
		crossed := 0
		for r := rapid.IntRange(2, 12).Draw(t, "requests"); r > 0; r-- {
			how := rapid.SampledFrom([]string{"local", "local", "rpc", "rest", "text", "html"}).Draw(t, "how")
			path := "/vp"
			if d := rapid.IntRange(-2, dirs-1).Draw(t, "at"); d >= 0 && vh.HasDir(fmt.Sprintf("/vp/d%d", d)) {
				path = fmt.Sprintf("/vp/d%d", d)
			}
			if how == "html" && path == "/vp" { // shows directories only
				how = "text"
			}
			before := make([]int64, ng)
			for i, g := range gs {
				before[i] = atomic.LoadInt64(&g.updates)
			}
			var out []vh.Rep
			var err error
			if !vh.Within(patience, func() { out, err = vh.Perform(how, path) }) {
				t.Fatalf("%s %s blocks\n%s", how, path, vh.Stacks())
			}
			vh.Must(t, err, how+" "+path)
			in := map[int]bool{}
			var want []leaf
			for _, l := range leaves {
				if strings.HasPrefix(l.path, path+"/") {
					in[l.g] = true
					want = append(want, l)
				}
			}
			for i, g := range gs {
				w := before[i]
				if in[i] {
					w++
				}
				if now := atomic.LoadInt64(&g.updates); now != w {
					t.Fatalf("%s %s over %d groups updated group %d %d times (read: %v)\nearlier:%s", how, path, len(in), i, now-before[i], in[i], desc)
				}
			}
			if len(out) != len(want) {
				t.Fatalf("%s %s reports %d metrics, want %d", how, path, len(out), len(want))
			}
			for i, l := range want {
				if out[i].Path != l.path || out[i].Val != strconv.FormatInt(before[l.g]+1, 10) || out[i].Ts != "" && out[i].Ts != vh.TimeText(stamp(l.g, before[l.g]+1), units.Second) {
					t.Fatalf("%s %s over %d groups reports %v, want %s at version %d", how, path, len(in), out[i], l.path, before[l.g]+1)
				}
			}
			crossed = max(crossed, len(in))
			desc += fmt.Sprintf(" %s %s", how, path)
		}
		vh.Label("many groups")
		vh.Case(fmt.Sprint("many ", ng, desc, leaves), crossed > 1)
	})
}

// Variables and callbacks of every type: a request that reads any of them,
// alone or among others, updates their group first, once.
func TestKinds(t *testing.T) {
	vh.Check(t, 1200, 12000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		ng := rapid.IntRange(1, 3).Draw(t, "groups")
		type metric struct {
			path string
			g    int
			gt   vh.GoType
			u    units.Unit
			vals []interface{}
			cell *vh.Cell
			cb   bool
		}
		type grp struct {
			g       *tricorder.Group
			updates int64
			ms      []*metric
		}
		gs := make([]*grp, ng)
		for i := range gs {
			g := &grp{g: tricorder.NewGroup()}
			gs[i] = g
			g.g.RegisterUpdateFunc(func() time.Time {
				n := atomic.AddInt64(&g.updates, 1)
				for _, m := range g.ms {
					m.cell.Set(m.vals[int(n)%len(m.vals)])
				}
				return stamp(i, n)
			})
		}
		var all []*metric
		desc := ""
		for n := rapid.IntRange(1, 6).Draw(t, "metrics"); n > 0; n-- {
			m := &metric{path: fmt.Sprintf("/vp/%s/m%d", rapid.SampledFrom([]string{"d", "e"}).Draw(t, "dir"), n), g: rapid.IntRange(0, ng-1).Draw(t, "group"),
				gt: rapid.SampledFrom(vh.GoTypes).Draw(t, "type"), u: vh.Unit(t), cb: rapid.Bool().Draw(t, "callback")}
			for k := rapid.IntRange(2, 4).Draw(t, "vals"); k > 0; k-- {
				v := vh.Value(t, m.gt, false, "v")
				if s, ok := v.(string); ok && strings.Contains(s, "\n") {
					v = "x"
				}
				m.vals = append(m.vals, v)
			}
			m.cell = vh.NewCell(m.gt)
			m.cell.Set(m.vals[0])
			var spec interface{} = m.cell.Pointer()
			if m.cb {
				spec = m.cell.Func(nil)
			}
			vh.Must(t, vh.RegisterIn(t, gs[m.g].g, m.path, spec, m.u, ""), "register")
			gs[m.g].ms = append(gs[m.g].ms, m)
			all = append(all, m)
			desc += fmt.Sprintf(" %s %s group %d %v %v", m.path, m.gt.Name, m.g, m.cb, m.vals)
		}
		sort.Slice(all, func(i, j int) bool { return all[i].path < all[j].path })
		for r := rapid.IntRange(2, 8).Draw(t, "requests"); r > 0; r-- {
			m := rapid.SampledFrom(all).Draw(t, "which")
			path := rapid.SampledFrom([]string{m.path, m.path, m.path[:5], "/vp"}).Draw(t, "path")
			before := make([]int64, ng)
			in := make([]bool, ng)
			for i, g := range gs {
				before[i] = atomic.LoadInt64(&g.updates)
			}
			var read []*metric
			for _, x := range all {
				if x.path == path || strings.HasPrefix(x.path, path+"/") {
					read = append(read, x)
					in[x.g] = true
				}
			}
			how := rapid.SampledFrom([]string{"local", "rpc", "rpcget", "rest", "restone", "text", "html"}).Draw(t, "how")
			switch how {
			case "local", "rpc":
				var l messages.MetricList
				if how == "rpc" {
					var err error
					l, err = vh.RpcList(path)
					vh.Must(t, err, "rpc")
				} else {
					l = tricorder.ReadMyMetrics(path)
				}
				if len(l) != len(read) {
					t.Fatalf("%s %s reports %d metrics, want %d", how, path, len(l), len(read))
				}
				for i, x := range read {
					n := before[x.g] + 1
					if w := x.vals[int(n)%len(x.vals)]; !vh.Equal(l[i].Value, w) {
						t.Fatalf("%s %s reports %s for %s %s, the group's update %d set %s", how, path, vh.Show(l[i].Value), x.gt.Name, x.path, n, vh.Show(w))
					}
					if ts, ok := l[i].TimeStamp.(time.Time); !ok || !ts.Equal(stamp(x.g, n)) {
						t.Fatalf("%s %s reports timestamp %v for %s %s, want %v", how, path, l[i].TimeStamp, x.gt.Name, x.path, stamp(x.g, n))
					}
				}
			case "rpcget":
				path, read, in = m.path, []*metric{m}, make([]bool, ng)
				in[m.g] = true
				got, err := vh.RpcGet(path)
				vh.Must(t, err, "rpc")
				n := before[m.g] + 1
				if w := m.vals[int(n)%len(m.vals)]; !vh.Equal(got.Value, w) || !got.TimeStamp.(time.Time).Equal(stamp(m.g, n)) {
					t.Fatalf("RPC GetMetric(%s) reports %s at %v for a %s, the group's update %d set %s", path, vh.Show(got.Value), got.TimeStamp, m.gt.Name, n, vh.Show(w))
				}
			case "rest", "restone":
				u := "/metricsapi" + path
				if how == "restone" {
					path, read, in = m.path, []*metric{m}, make([]bool, ng)
					in[m.g] = true
					u = "/metricsapi" + path + "?singleton=1"
				}
				if r := vh.Get(u); r.Status != 200 {
					t.Fatalf("%s: status %d", u, r.Status)
				}
			case "text":
				body := vh.Get("/metrics" + path + "?format=text").Body
				want := ""
				for _, x := range read {
					if path != x.path {
						want += x.path + " "
					}
					n := before[x.g] + 1
					want += vh.PlainText(x.vals[int(n)%len(x.vals)], x.u) + "\n"
				}
				if body != want {
					t.Fatalf("text of %s is %q, after the update it is %q", path, body, want)
				}
			case "html":
				if r := vh.Get("/metrics" + path); r.Status != 200 {
					t.Fatalf("html of %s: status %d", path, r.Status)
				}
				if path == "/vp" { // only directories there
					read, in = nil, make([]bool, ng)
				}
			}
			for i, g := range gs {
				w := before[i]
				if in[i] {
					w++
				}
				if now := atomic.LoadInt64(&g.updates); now != w {
					t.Fatalf("%s %s updated group %d %d times (read: %v); metrics%s", how, path, i, now-before[i], in[i], desc)
				}
			}
			desc += fmt.Sprintf("; %s %s", how, path)
		}
		vh.Label("kinds")
		vh.Case("kinds"+desc, len(all) > 1)
	})
}

// Very many requests one after the other: each updates its groups once.
func TestLong(t *testing.T) {
	vh.Check(t, 6, 60, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		ng := rapid.IntRange(1, 3).Draw(t, "groups")
		updates := make([]int64, ng)
		for i := 0; i < ng; i++ {
			g := tricorder.NewGroup()
			g.RegisterUpdateFunc(func() time.Time {
				return stamp(i, atomic.AddInt64(&updates[i], 1))
			})
			for k := 0; k < 2; k++ {
				vh.Must(t, g.RegisterMetric(fmt.Sprintf("/vp/d%d/m%d", i, k), func() int64 { return atomic.LoadInt64(&updates[i]) }, units.None, ""), "register")
			}
		}
		n := rapid.OneOf(rapid.SampledFrom([]int{300, 66000}), rapid.IntRange(1000, 20000)).Draw(t, "requests")
		for r := 1; r <= n; r++ {
			l := tricorder.ReadMyMetrics("/vp")
			if len(l) != 2*ng {
				t.Fatalf("request %d reports %d metrics, want %d", r, len(l), 2*ng)
			}
			for i, m := range l {
				if m.Value != int64(r) || !m.TimeStamp.(time.Time).Equal(stamp(i/2, int64(r))) {
					t.Fatalf("request %d reports %s as %v at %v, want %d at %v", r, m.Path, m.Value, m.TimeStamp, r, stamp(i/2, int64(r)))
				}
			}
		}
		vh.Label("long history")
		vh.Case(fmt.Sprint("long ", ng, n), true)
	})
}
