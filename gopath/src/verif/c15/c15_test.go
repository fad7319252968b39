package c15

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"net/rpc"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "a case is a generated tree of metrics in 1 to 3 (now and then up to 18) groups and a generated request on some interface, repeated once for every write of its response that can fail (and generated byte positions) or every callback that can panic, alone or while another request is held reading, each followed by a generated clean request; an evaluation is one injected fault; non-trivial if the faulty request read a group before the fault; distinct by tree, request and fault")
}

var errFault = errors.New("injected fault")

// plan says where writing fails.
type plan struct {
	write int // index of the failing write, or -1
	at    int // total bytes accepted, or -1
	short bool
}

type faulty struct {
	p      plan
	writes int
	bytes  int
	dead   bool
	hit    bool
}

func (f *faulty) write(b []byte) (int, error) {
	if f.dead {
		return 0, errFault
	}
	n := len(b)
	if f.p.write >= 0 && f.writes == f.p.write {
		f.dead, f.hit = true, true
		n = 0
		if f.p.short {
			n = len(b) / 2
		}
	}
	if f.p.at >= 0 && f.bytes+n > f.p.at {
		f.dead, f.hit = true, true
		n = f.p.at - f.bytes
	}
	f.writes++
	f.bytes += n
	if f.dead {
		return n, errFault
	}
	return n, nil
}

type faultyHTTP struct {
	h      http.Header
	status int
	f      *faulty
	buf    bytes.Buffer
}

func (w *faultyHTTP) Header() http.Header { return w.h }
func (w *faultyHTTP) WriteHeader(s int)   { w.status = s }
func (w *faultyHTTP) Write(b []byte) (int, error) {
	n, err := w.f.write(b)
	w.buf.Write(b[:n])
	return n, err
}

type faultyConn struct {
	net.Conn
	mu sync.Mutex
	f  *faulty
}

func (c *faultyConn) Write(b []byte) (int, error) {
	c.mu.Lock()
	n, err := c.f.write(b)
	c.mu.Unlock()
	if n > 0 {
		c.Conn.Write(b[:n])
	}
	if err != nil { // the connection is gone, for reading too
		c.Conn.Close()
	}
	return n, err
}

func url(how, path string) string {
	switch how {
	case "rest", "restgz":
		return "/metricsapi" + path
	case "restone", "restonegz":
		return "/metricsapi" + path + "?singleton=1"
	case "text":
		return "/metrics" + path + "?format=text"
	}
	return "/metrics" + path
}

// attempt runs a request whose connection or callbacks may fail, to its end.
func attempt(how, path string, f *faulty) (panicked bool) {
	switch how {
	case "local":
		panicked, _ = vh.Panics(func() { tricorder.ReadMyMetrics(path) })
	case "rpcpanic", "rpcgetpanic":
		// net/rpc lets panics end the process unless requests are served like this
		c := &oneCall{path: path, method: "MetricsServer.ListMetrics"}
		if how == "rpcgetpanic" {
			c.method = "MetricsServer.GetMetric"
		}
		panicked, _ = vh.Panics(func() { rpc.DefaultServer.ServeRequest(c) })
	case "rpc", "rpcget":
		c, s := net.Pipe()
		served := make(chan struct{})
		go func() {
			defer close(served)
			rpc.ServeConn(&faultyConn{Conn: s, f: f})
		}()
		cl := rpc.NewClient(c)
		var call *rpc.Call
		if how == "rpc" {
			call = cl.Go("MetricsServer.ListMetrics", path, new(messages.MetricList), make(chan *rpc.Call, 1))
		} else {
			call = cl.Go("MetricsServer.GetMetric", path, new(messages.Metric), make(chan *rpc.Call, 1))
		}
		<-call.Done
		cl.Close()
		<-served
	default:
		req := httptest.NewRequest("GET", url(how, path), nil)
		if strings.HasSuffix(how, "gz") {
			req.Header.Set("Accept-Encoding", "gzip")
		}
		w := &faultyHTTP{h: http.Header{}, f: f}
		panicked, _ = vh.Panics(func() { http.DefaultServeMux.ServeHTTP(w, req) })
	}
	return
}

// oneCall is a codec that brings one call and drops the answer.
type oneCall struct{ method, path string }

func (c *oneCall) ReadRequestHeader(r *rpc.Request) error {
	r.ServiceMethod = c.method
	return nil
}

func (c *oneCall) ReadRequestBody(v interface{}) error {
	if p, ok := v.(*string); ok {
		*p = c.path
	}
	return nil
}

func (c *oneCall) WriteResponse(*rpc.Response, interface{}) error { return nil }
func (c *oneCall) Close() error                                   { return nil }

type item struct {
	parts   []string
	path    string
	g       int
	cb      bool
	calls   int
	panicAt int // which call panics, 0 for none
	value   interface{}
}

type group struct {
	g       *tricorder.Group
	updates atomic.Int64
	i64     []*int64
}

func stamp(g int, v int64) time.Time { return time.Unix(1e9+int64(g)*1e6+v, 0) }

var panics = []interface{}{"boom", errors.New("boom"), 42, http.ErrAbortHandler, nil}

func TestFaults(t *testing.T) {
	vh.Check(t, 2500, 25000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		ng, most := rapid.IntRange(1, 3).Draw(t, "groups"), 8
		letters := []string{"a", "b", "c", "e", "f", "g"}
		if rapid.IntRange(0, 14).Draw(t, "many groups") == 14 {
			ng, most = rapid.IntRange(4, 18).Draw(t, "groups"), 24
			for i := 0; i < 20; i++ {
				letters = append(letters, fmt.Sprint("n", i))
			}
		}
		groups := make([]*group, ng)
		for i := range groups {
			g := &group{g: tricorder.NewGroup()}
			groups[i] = g
			g.g.RegisterUpdateFunc(func() time.Time {
				v := g.updates.Add(1)
				for _, p := range g.i64 {
					*p = v
				}
				return stamp(i, v)
			})
		}
		// a held request waits here when asked to
		var holding atomic.Bool
		arrived := make(chan struct{})
		release := make(chan struct{})
		var items []*item
		used := map[string]bool{}
		n := rapid.IntRange(most/8, most).Draw(t, "metrics")
		desc := ""
		for i := 0; i < n; i++ {
			parts := []string{"vp", "t"}
			if rapid.Bool().Draw(t, "sub") {
				parts = append(parts, "d")
			}
			parts = append(parts, rapid.SampledFrom(letters).Draw(t, "name"))
			it := &item{parts: parts, path: "/" + strings.Join(parts, "/"), g: rapid.IntRange(0, ng-1).Draw(t, "group")}
			if used[it.path] {
				continue
			}
			used[it.path] = true
			g := groups[it.g]
			var spec interface{}
			kind := rapid.SampledFrom([]string{"cb", "cb", "fcb", "ptr", "ptr", "list", "dist"}).Draw(t, "kind")
			pre := func() {
				it.calls++
				if it.panicAt != 0 && it.calls >= it.panicAt {
					if it.value == nil {
						var p *item
						_ = p.path // a runtime error
					}
					panic(it.value)
				}
			}
			switch kind {
			case "cb":
				it.cb = true
				spec = func() int64 { pre(); return g.updates.Load() }
			case "fcb":
				it.cb = true
				spec = func() float64 { pre(); return float64(g.updates.Load()) }
			case "ptr":
				p := new(int64)
				g.i64 = append(g.i64, p)
				spec = p
			case "list":
				it.g = -1
				spec = tricorder.NewList([]int64{7}, false)
			case "dist":
				it.g = -2
				spec = rapid.SampledFrom([]*tricorder.Bucketer{tricorder.PowersOfTwo, tricorder.PowersOfTen}).Draw(t, "bucketer").NewCumulativeDistribution()
			}
			vh.Must(t, vh.RegisterIn(t, g.g, it.path, spec, units.None, "x"), "register")
			items = append(items, it)
			desc += fmt.Sprintf(" %s:%s:%d", it.path, kind, it.g)
		}
		// every group also has a metric where a request can be held
		for i, g := range groups {
			vh.Must(t, g.g.RegisterMetric(fmt.Sprintf("/vp/hold/%02d", i), func() int64 {
				if i == ng-1 && holding.Load() {
					arrived <- struct{}{}
					<-release
				}
				return g.updates.Load()
			}, units.None, ""), "register")
		}
		sort.Slice(items, func(i, j int) bool { return vh.LessParts(items[i].parts, items[j].parts) })

		how := rapid.SampledFrom([]string{"local", "text", "text", "html", "html", "rest", "restgz", "restone", "restonegz", "rpc", "rpcget"}).Draw(t, "how")
		it := rapid.SampledFrom(items).Draw(t, "target")
		k := len(it.parts)
		single := how == "restone" || how == "restonegz" || how == "rpcget"
		if !single && rapid.IntRange(0, 3).Draw(t, "single") > 0 {
			k = rapid.IntRange(2, k).Draw(t, "depth")
		}
		path := "/" + strings.Join(it.parts[:k], "/")
		under := func(path, how string) []*item {
			var r []*item
			for _, x := range items {
				if x.path != path && !strings.HasPrefix(x.path, path+"/") {
					continue
				}
				if how == "html" && x.path != path && strings.Contains(x.path[len(path)+1:], "/") {
					continue
				}
				r = append(r, x)
			}
			return r
		}
		mine := under(path, how)

		reset := func() {
			for _, x := range items {
				x.calls, x.panicAt = 0, 0
			}
		}
		counts := func() []int64 {
			c := make([]int64, ng)
			for i := range c {
				c[i] = groups[i].updates.Load()
			}
			return c
		}
		// clean makes an ordinary request and checks that it updates every
		// group it reads once, unless held, and reports fresh values.
		clean := func(after string, held bool) {
			reset()
			h := rapid.SampledFrom([]string{"local", "rpc", "rest", "text", "html", "rpcget", "restone"}).Draw(t, "next")
			p := path
			if h == "rpcget" || h == "restone" {
				p = rapid.SampledFrom(items).Draw(t, "next at").path
			} else if rapid.Bool().Draw(t, "all") {
				p = "/vp/t"
			}
			before := counts()
			type answer struct {
				out []vh.Rep
				err error
			}
			ch := make(chan answer, 1)
			go func() {
				o, err := vh.Perform(h, p)
				ch <- answer{o, err}
			}()
			var a answer
			select {
			case a = <-ch:
			case <-time.After(30 * time.Second):
				t.Fatalf("after %s, a request (%s %s) blocks\n%s", after, h, p, vh.Stacks())
			}
			if a.err != nil {
				t.Fatalf("after %s, a request (%s %s) fails: %v", after, h, p, a.err)
			}
			want := map[int]bool{}
			var list []*item
			for _, x := range under(p, h) {
				if x.g >= 0 {
					want[x.g] = true
					list = append(list, x)
				}
			}
			now := counts()
			for g := range groups {
				w := before[g]
				if want[g] && !held {
					w++
				}
				if now[g] != w {
					t.Fatalf("after %s, a request (%s %s) updated group %d %d times (held by another: %v, read: %v)", after, h, p, g, now[g]-before[g], held, want[g])
				}
			}
			var out []vh.Rep
			for _, r := range a.out {
				for _, x := range list {
					if x.path == r.Path {
						out = append(out, r)
					}
				}
			}
			if len(out) != len(list) {
				t.Fatalf("after %s, a request (%s %s) reports %v", after, h, p, a.out)
			}
			for i, x := range list {
				r := out[i]
				if r.Path != x.path || r.Val != strconv.FormatInt(now[x.g], 10) || r.Ts != "" && r.Ts != vh.TimeText(stamp(x.g, now[x.g]), units.Second) {
					t.Fatalf("after %s, a request (%s %s) reports %v, its group is at version %d", after, h, p, r, now[x.g])
				}
			}
		}
		clean("nothing", false)

		// the faults
		type fault struct {
			name string
			f    plan
			it   *item
			call int
			v    interface{}
		}
		var faults []fault
		none := plan{-1, -1, false}
		if how != "local" {
			probe := &faulty{p: none}
			reset()
			attempt(how, path, probe)
			for w := 0; w < probe.writes && w < 60; w++ {
				faults = append(faults, fault{name: fmt.Sprint("write ", w, " failing"), f: plan{w, -1, false}})
				if w%3 == 0 {
					faults = append(faults, fault{name: fmt.Sprint("write ", w, " being cut short"), f: plan{w, -1, true}})
				}
			}
			for i := 0; i < 4 && probe.bytes > 0; i++ {
				b := rapid.IntRange(0, probe.bytes-1).Draw(t, "byte")
				faults = append(faults, fault{name: fmt.Sprint("failing at byte ", b), f: plan{-1, b, false}})
			}
		}
		for _, x := range mine {
			if !x.cb {
				continue
			}
			for call := 1; call <= 3; call++ {
				faults = append(faults, fault{name: fmt.Sprint(x.path, " panicking in call ", call), f: none, it: x, call: call,
					v: rapid.SampledFrom(panics).Draw(t, "panic")})
			}
		}
		for _, ft := range faults {
			held := rapid.IntRange(0, 3).Draw(t, "held") == 0
			done := make(chan struct{})
			if held {
				holding.Store(true)
				go func() {
					defer close(done)
					tricorder.ReadMyMetrics("/vp/hold")
				}()
				<-arrived
				holding.Store(false)
			}
			reset()
			f := &faulty{p: ft.f}
			if ft.it != nil {
				ft.it.panicAt, ft.it.value = ft.call, ft.v
			}
			before := counts()
			rep := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "times")
			var hit bool
			for r := 0; r < rep; r++ {
				b := counts()
				for _, x := range items {
					x.calls = 0
				}
				f = &faulty{p: ft.f}
				var p bool
				by := how
				if ft.it != nil && strings.HasPrefix(how, "rpc") {
					by += "panic"
				}
				if !vh.Within(30*time.Second, func() { p = attempt(by, path, f) }) {
					t.Fatalf("%s %s with %s blocks\n%s", how, path, ft.name, vh.Stacks())
				}
				hit = f.hit || p || ft.it != nil && ft.it.calls >= ft.call
				for g, c := range counts() {
					if d := c - b[g]; d > 1 || d > 0 && held {
						t.Fatalf("%s %s with %s updated group %d %d times (held by another: %v)", how, path, ft.name, g, d, held)
					}
				}
			}
			what := fmt.Sprintf("%s %s with %s", how, path, ft.name)
			clean(what, held)
			if held {
				b := counts()
				release <- struct{}{}
				select {
				case <-done:
				case <-time.After(30 * time.Second):
					t.Fatalf("after %s, the request held meanwhile does not end\n%s", what, vh.Stacks())
				}
				for g, c := range counts() {
					if c != b[g] {
						t.Fatalf("after %s, group %d was updated while a request was reading it", what, g)
					}
				}
				clean(what+" while another request was reading", false)
			}
			touched := held
			for g, c := range counts() {
				touched = touched || c > before[g]+1
			}
			if ft.it != nil && hit {
				vh.Label("panic in " + how)
			} else if hit {
				vh.Label("failed write in " + how)
			}
			vh.Case(fmt.Sprint(desc, what, held, rep), hit && touched)
		}
	})
}

// Very many failing requests, now and then followed by a clean one.
func TestMany(t *testing.T) {
	vh.Check(t, 30, 300, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		how := rapid.SampledFrom([]string{"local", "text", "html", "rest", "restgz", "restone", "rpcpanic", "rpcgetpanic"}).Draw(t, "how")
		path := "/vp"
		if how == "html" || how == "restone" || how == "rpcgetpanic" || rapid.Bool().Draw(t, "single") {
			path = "/vp/z"
		}
		g := tricorder.NewGroup()
		var updates, calls int64
		g.RegisterUpdateFunc(func() time.Time { updates++; return stamp(0, updates) })
		failing := false
		at := int64(rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(t, "call"))
		vh.Must(t, g.RegisterMetric("/vp/a", &updates, units.None, ""), "register")
		vh.Must(t, g.RegisterMetric("/vp/z", func() float64 {
			if calls++; failing && calls >= at {
				panic("boom")
			}
			return float64(updates)
		}, units.None, ""), "register")
		cut := !strings.HasPrefix(how, "rpc") && how != "local" && rapid.IntRange(0, 3).Draw(t, "cut") == 3
		f := plan{-1, -1, false}
		if cut {
			f.write = rapid.IntRange(0, 3).Draw(t, "write")
		}
		n := rapid.SampledFrom([]int{130, 300, 1100, 6000}).Draw(t, "requests")
		desc := fmt.Sprint("many ", n, " ", how, " ", path, " cut ", cut, f.write, " call ", at)
		for r := 1; r <= n; r++ {
			calls, failing = 0, !cut
			attempt(how, path, &faulty{p: f})
			failing = false
			if r%64 != 0 && r != n {
				continue
			}
			was := updates
			out, err := vh.Perform("local", "/vp")
			vh.Must(t, err, "reading")
			if updates != was+1 || len(out) != 2 || out[0].Val != strconv.FormatInt(updates, 10) {
				t.Fatalf("after %d of %s, a request made %d updates and reports %v", r, desc, updates-was, out)
			}
		}
		vh.Label("many faults")
		vh.Case(desc, true)
	})
}
