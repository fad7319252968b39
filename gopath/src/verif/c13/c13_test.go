package c13

import (
	"encoding/json"
	"fmt"
	"html"
	"reflect"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Real = true
	vh.Main(m, "a case is a history of list creations, changes (mutable or not, from fresh slices, sub-slices of buffers the caller keeps editing, same element type or another Go type of the same kind), refused calls, caller-side edits and reads on every interface, checked against a model; or a concurrent run of changers and readers whose versions are recognisable; non-trivial if the history has a change and an edit of a slice passed as mutable, or the concurrent run had a read overlapping changes; distinct by history")
}

type unsupported struct{ A int }

type stamp time.Time
type namedIntSlice []int
type namedStringSlice []string

// A buffer the caller owns.
type buf struct {
	g      vh.GoType
	s      reflect.Value // full capacity
	frozen bool          // passed as immutable at some point
}

type listModel struct {
	l      *tricorder.List
	path   string
	g      vh.GoType // element type it was created with
	unit   units.Unit
	vals   []interface{}
	before time.Time
	after  time.Time
}

type handed struct {
	what string
	got  interface{} // slice handed out
	want interface{} // own copy
	ts   time.Time
}

func listable() []vh.GoType {
	var r []vh.GoType
	for _, g := range vh.GoTypes {
		if !g.Ptr {
			r = append(r, g)
		}
	}
	return r
}

func sameKind(k types.Type) []vh.GoType {
	var r []vh.GoType
	for _, g := range listable() {
		if g.Kind == k {
			r = append(r, g)
		}
	}
	return r
}

func value(t *rapid.T, g vh.GoType) interface{} {
	v := vh.Value(t, g, false, "v")
	return v
}

func drawVals(t *rapid.T, g vh.GoType, max int) []interface{} {
	n := rapid.IntRange(0, max).Draw(t, "len")
	vals := make([]interface{}, n)
	for i := range vals {
		vals[i] = value(t, g)
	}
	if n > 0 && max >= 7 && rapid.IntRange(0, 39).Draw(t, "long") == 39 {
		size := 0
		for _, v := range vals {
			s, _ := v.(string)
			size += len(s)
		}
		most := 1500
		if rapid.IntRange(0, 11).Draw(t, "longer") == 11 {
			most = rapid.SampledFrom([]int{20000, 20000, 20000, 140000}).Draw(t, "most")
		}
		for m := rapid.IntRange(8, most).Draw(t, "longlen"); size < 400 && len(vals) < m; {
			vals = append(vals, vals[len(vals)-n])
		}
	}
	return vals
}

// pass draws the slice to hand to NewList or Change: its values, the slice, mutable.
func pass(t *rapid.T, g vh.GoType, bufs *[]*buf) ([]interface{}, interface{}, bool, string) {
	mutable := rapid.Bool().Draw(t, "mutable")
	var mine []*buf
	for _, b := range *bufs {
		if b.g.Name == g.Name && !b.frozen {
			mine = append(mine, b)
		}
	}
	var b *buf
	if len(mine) > 0 && rapid.Bool().Draw(t, "reuse") {
		b = rapid.SampledFrom(mine).Draw(t, "buf")
	} else {
		vals := drawVals(t, g, 7)
		b = &buf{g: g, s: reflect.ValueOf(vh.SliceOf(g, vals))}
		*bufs = append(*bufs, b)
		if len(vals) == 0 && rapid.Bool().Draw(t, "nilslice") {
			b.s = reflect.Zero(reflect.SliceOf(g.T))
		}
	}
	lo := rapid.IntRange(0, b.s.Len()).Draw(t, "lo")
	hi := rapid.IntRange(lo, b.s.Len()).Draw(t, "hi")
	if rapid.IntRange(0, 2).Draw(t, "whole") > 0 {
		lo, hi = 0, b.s.Len()
	}
	sub := b.s
	if b.s.Len() > 0 {
		sub = b.s.Slice(lo, hi) // capacity reaches to the end of the buffer
	}
	vals := make([]interface{}, 0, hi-lo)
	for i := 0; i < sub.Len(); i++ {
		vals = append(vals, sub.Index(i).Convert(g.Canon).Interface())
	}
	arg := sub.Interface()
	switch a := arg.(type) {
	case []int:
		if rapid.Bool().Draw(t, "namedslice") {
			arg = namedIntSlice(a)
		}
	case []string:
		if rapid.Bool().Draw(t, "namedslice") {
			arg = namedStringSlice(a)
		}
	}
	if !mutable {
		b.frozen = true
	}
	return vals, arg, mutable, fmt.Sprintf("%T%v[%d:%d] mutable=%v", arg, vh.Show(vals), lo, hi, mutable)
}

func want(m *listModel) interface{} { return vh.CanonSlice(m.g, m.vals) }

func clone(s interface{}) interface{} {
	v := reflect.ValueOf(s)
	c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
	reflect.Copy(c, v)
	return c.Interface()
}

func equal(a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Kind() != reflect.Slice || y.Kind() != reflect.Slice || x.Type() != y.Type() || x.Len() != y.Len() {
		return false
	}
	for i := 0; i < x.Len(); i++ {
		if !vh.Equal(x.Index(i).Interface(), y.Index(i).Interface()) {
			return false
		}
	}
	return true
}

func checkMetric(t *rapid.T, how string, m *listModel, x *messages.Metric) {
	if x.Kind != types.List || x.SubType != m.g.Kind || x.Bits != m.g.Kind.Bits() || x.Bits != m.g.Bits && m.g.Bits != 0 {
		t.Fatalf("%s of %s: kind %s sub-type %s bits %d, want a list of %s", how, m.path, x.Kind, x.SubType, x.Bits, m.g.Kind)
	}
	if !equal(x.Value, want(m)) {
		t.Fatalf("%s of %s: %T %v, want %T %v", how, m.path, x.Value, x.Value, want(m), want(m))
	}
	checkTs(t, how, m, x.TimeStamp)
}

func checkTs(t *rapid.T, how string, m *listModel, ts interface{}) {
	at, ok := ts.(time.Time)
	if !ok || at.Before(m.before) || at.After(m.after) {
		t.Fatalf("%s of %s: timestamp %v, last change was between %v and %v", how, m.path, ts, m.before, m.after)
	}
}

var li = regexp.MustCompile(`(?s)<li>(.*?)</li>`)

// sameJSON tells whether raw is how an element appears in JSON.
func sameJSON(raw json.RawMessage, v interface{}, u units.Unit) bool {
	switch x := v.(type) {
	case time.Time:
		var s string
		return json.Unmarshal(raw, &s) == nil && s == vh.TimeText(x, u)
	case time.Duration:
		var s string
		return json.Unmarshal(raw, &s) == nil && s == vh.DurText(x, u)
	case string:
		var s string
		return json.Unmarshal(raw, &s) == nil && s == x
	case float32:
		f, err := strconv.ParseFloat(string(raw), 32)
		return err == nil && float32(f) == x
	case float64:
		f, err := strconv.ParseFloat(string(raw), 64)
		return err == nil && f == x
	}
	return string(raw) == fmt.Sprint(v)
}

func read(t *rapid.T, m *listModel, how string) *handed {
	switch how {
	case "local":
		l := tricorder.ReadMyMetrics(m.path)
		if len(l) != 1 {
			t.Fatalf("%d metrics at %s", len(l), m.path)
		}
		checkMetric(t, how, m, l[0])
		ts, _ := l[0].TimeStamp.(time.Time)
		return &handed{"result of ReadMyMetrics(" + m.path + ")", l[0].Value, clone(l[0].Value), ts}
	case "rpc":
		x, err := vh.RpcGet(m.path)
		vh.Must(t, err, "rpc")
		// gob sends an empty slice as such
		checkMetric(t, how, m, x)
	case "rest":
		l, err := vh.RestList(m.path)
		vh.Must(t, err, "rest")
		if len(l) != 1 {
			t.Fatalf("%d metrics at %s", len(l), m.path)
		}
		x := l[0]
		if x.Kind != "list" || types.Type(x.SubType) != vh.JsonKind(m.g.Kind) || x.Bits != m.g.Kind.Bits() {
			t.Fatalf("rest of %s: kind %s sub-type %s bits %d, want a list of %s", m.path, x.Kind, x.SubType, x.Bits, m.g.Kind)
		}
		var raw []json.RawMessage
		if err := json.Unmarshal(x.Value, &raw); err != nil {
			if m.g.Kind == types.Uint8 { // base64
				var b []byte
				if json.Unmarshal(x.Value, &b) == nil && equal(b, want(m)) {
					return nil
				}
			}
			t.Fatalf("rest of %s: value %s, want %v", m.path, x.Value, m.vals)
		}
		if len(raw) != len(m.vals) {
			t.Fatalf("rest of %s: value %s, want %v", m.path, x.Value, m.vals)
		}
		for i := range raw {
			if !sameJSON(raw[i], m.vals[i], m.unit) {
				t.Fatalf("rest of %s: element %d is %s, want %s", m.path, i, raw[i], vh.Show(m.vals[i]))
			}
		}
	case "text":
		r := vh.Get("/metrics" + m.path + "?format=text")
		var p []string
		for _, v := range m.vals {
			p = append(p, vh.PlainText(v, m.unit))
		}
		if w := strings.Join(p, "|") + "\n"; r.Body != w {
			t.Fatalf("text of %s: %q, want %q", m.path, r.Body, w)
		}
	case "html":
		r := vh.Get("/metrics" + m.path)
		items := li.FindAllStringSubmatch(r.Body, -1)
		if len(items) != len(m.vals) {
			t.Fatalf("html of %s shows %d elements, want %v: %q", m.path, len(items), m.vals, r.Body)
		}
		if m.g.Kind == types.String {
			for i := range items {
				if html.UnescapeString(items[i][1]) != vh.PlainText(m.vals[i], m.unit) {
					t.Fatalf("html of %s: %q, want %q", m.path, items[i][1], m.vals[i])
				}
			}
		}
	}
	return nil
}

var badLists = []interface{}{
	nil, 5, "abc", [3]int{1, 2, 3}, &[]int{1}, map[int]int{}, []unsupported{{1}}, []*int{new(int)}, []*time.Time{},
	[]complex128{1}, [][]int{{1}}, []interface{}{1}, []func() int{}, []error{}, make(chan int), []unsupported{}, []uintptr{1}, []stamp{{}}, []struct{ time.Time }{{}},
	[]*string(nil), []map[string]int{},
}

func TestHistory(t *testing.T) {
	vh.Check(t, 2500, 30000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		var lists []*listModel
		var bufs []*buf
		var results []*handed
		var log []string
		changes, edits, refused := 0, 0, 0
		types_ := listable()
		if rapid.Bool().Draw(t, "few") {
			types_ = []vh.GoType{vh.GoTypes[1], vh.GoTypes[5], vh.GoTypes[13], vh.GoTypes[11]}
		}
		verify := func() {
			for _, h := range results {
				if !equal(h.got, h.want) {
					t.Fatalf("%s changed from %v to %v", h.what, h.want, h.got)
				}
			}
		}
		newList := func(t *rapid.T) {
			if len(lists) >= 3 {
				t.Skip("enough")
			}
			g := rapid.SampledFrom(types_).Draw(t, "type")
			m := &listModel{g: g, path: fmt.Sprintf("/vp/l%d", len(lists)), unit: vh.Unit(t)}
			vals, arg, mutable, desc := pass(t, g, &bufs)
			m.before = time.Now()
			m.l = tricorder.NewList(arg, mutable)
			m.after = time.Now()
			m.vals = vals
			if err := tricorder.RegisterMetric(m.path, m.l, m.unit, "d"); err != nil {
				t.Fatalf("register list of %s: %v", g.Name, err)
			}
			lists = append(lists, m)
			log = append(log, "new "+desc)
		}
		newList(t)
		t.Repeat(map[string]func(*rapid.T){
			"new": newList,
			"change": func(t *rapid.T) {
				m := rapid.SampledFrom(lists).Draw(t, "list")
				g := rapid.SampledFrom(sameKind(m.g.Kind)).Draw(t, "same kind")
				vals, arg, mutable, desc := pass(t, g, &bufs)
				before := time.Now()
				m.l.Change(arg, mutable)
				m.before, m.after = before, time.Now()
				m.vals = vals
				changes++
				log = append(log, "change "+m.path+" "+desc)
			},
			"edit": func(t *rapid.T) {
				var mine []*buf
				for _, b := range bufs {
					if !b.frozen && b.s.Len() > 0 {
						mine = append(mine, b)
					}
				}
				if len(mine) == 0 {
					t.Skip("nothing to edit")
				}
				b := rapid.SampledFrom(mine).Draw(t, "buf")
				i := rapid.IntRange(0, b.s.Len()-1).Draw(t, "at")
				v := value(t, b.g)
				if rapid.Bool().Draw(t, "append") {
					// append within the capacity overwrites element i
					reflect.Append(b.s.Slice(0, i), reflect.ValueOf(v).Convert(b.g.T))
				} else {
					b.s.Index(i).Set(reflect.ValueOf(v).Convert(b.g.T))
				}
				edits++
				log = append(log, fmt.Sprintf("edit [%d]=%s", i, vh.Show(v)))
			},
			"refused": func(t *rapid.T) {
				m := rapid.SampledFrom(lists).Draw(t, "list")
				var arg interface{}
				if rapid.Bool().Draw(t, "bad") {
					arg = rapid.SampledFrom(badLists).Draw(t, "arg")
					if did, _ := vh.Panics(func() { tricorder.NewList(arg, true) }); !did {
						t.Fatalf("NewList(%T) did not panic", arg)
					}
				} else {
					g := rapid.SampledFrom(listable()).Filter(func(g vh.GoType) bool { return g.Kind != m.g.Kind }).Draw(t, "other kind")
					arg = vh.SliceOf(g, drawVals(t, g, 3))
				}
				mutable := rapid.Bool().Draw(t, "mutable")
				if did, _ := vh.Panics(func() { m.l.Change(arg, mutable) }); !did {
					t.Fatalf("Change of a list of %s to %T did not panic", m.g.Kind, arg)
				}
				refused++
				log = append(log, fmt.Sprintf("refused %s %T", m.path, arg))
			},
			"read": func(t *rapid.T) {
				m := rapid.SampledFrom(lists).Draw(t, "list")
				how := rapid.SampledFrom([]string{"local", "local", "rpc", "rest", "text", "html"}).Draw(t, "how")
				if h := read(t, m, how); h != nil && len(results) < 30 {
					results = append(results, h)
				}
				log = append(log, "read "+how)
			},
			"": func(t *rapid.T) {
				verify()
				for _, m := range lists {
					read(t, m, "local")
				}
			},
		})
		for _, m := range lists {
			for _, how := range []string{"local", "rpc", "rest", "text", "html"} {
				read(t, m, how)
			}
		}
		verify()
		if refused > 0 {
			vh.Label("with refused calls")
		}
		vh.Case(strings.Join(log, "; "), changes > 0 && edits > 0)
	})
}

// Each version v is v repeated len(v) times, in a slice of generated type.
func length(v int) int { return 1 + (v*7919)%23 }

func version(x interface{}) (int, bool) {
	s := reflect.ValueOf(x)
	if s.Kind() != reflect.Slice || s.Len() == 0 {
		return 0, false
	}
	at := func(i int) int {
		switch e := s.Index(i); e.Kind() {
		case reflect.String:
			n, err := strconv.Atoi(e.String())
			if err != nil {
				return -1
			}
			return n
		case reflect.Float64, reflect.Float32:
			return int(e.Float())
		case reflect.Uint64, reflect.Uint32, reflect.Uint16:
			return int(e.Uint())
		default:
			return int(e.Int())
		}
	}
	v := at(0)
	for i := 1; i < s.Len(); i++ {
		if at(i) != v {
			return 0, false
		}
	}
	return v, s.Len() == length(v)
}

type obs struct {
	lo, hi int64
	what   string
	v      int
	whole  bool
	ts     time.Time
	hasTs  bool
}

func TestConcurrent(t *testing.T) {
	vh.Check(t, 250, 3000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		kind := rapid.SampledFrom([]types.Type{types.Int64, types.Int64, types.Uint64, types.String, types.Float64, types.Int32}).Draw(t, "kind")
		gs := sameKind(kind)
		n := rapid.SampledFrom([]int{10, 100, 400}).Draw(t, "changes")
		changers := rapid.IntRange(1, 3).Draw(t, "changers")
		mk := func(v, c int) interface{} {
			g := gs[(v+c)%len(gs)]
			vals := make([]interface{}, length(v))
			for i := range vals {
				if kind == types.String {
					vals[i] = strconv.Itoa(v)
				} else {
					vals[i] = reflect.ValueOf(v).Convert(g.Canon).Interface()
				}
			}
			return vh.SliceOf(g, vals)
		}
		total := 1 + n*changers
		before := make([]time.Time, total)
		after := make([]time.Time, total)
		before[0] = time.Now()
		l := tricorder.NewList(mk(0, 0), true)
		after[0] = time.Now()
		vh.Must(t, tricorder.RegisterMetric("/vp/l", l, units.None, ""), "register")
		// per changer: changes started and finished
		started := make([]atomic.Int64, changers)
		done := make([]atomic.Int64, changers)
		var stop atomic.Bool
		var wg, rg sync.WaitGroup
		begin := make(chan struct{})
		for c := 0; c < changers; c++ {
			wg.Add(1)
			mutable := c%2 == 0 || rapid.Bool().Draw(t, "mutable")
			go func() {
				defer wg.Done()
				<-begin
				for i := 0; i < n; i++ {
					v := 1 + i*changers + c
					s := mk(v, c)
					before[v] = time.Now()
					started[c].Store(int64(v))
					l.Change(s, mutable)
					done[c].Store(int64(v))
					after[v] = time.Now()
					if mutable { // the caller goes on using its slice
						x := reflect.ValueOf(s)
						for j := 0; j < x.Len(); j++ {
							x.Index(j).SetZero()
						}
					}
					if i%5 == 0 {
						runtime.Gosched()
					}
				}
			}()
		}
		hows := rapid.SliceOfN(rapid.SampledFrom([]string{"local", "local", "rpc", "rest", "text", "html"}), 1, 3).Draw(t, "readers")
		seen := make([][]obs, len(hows))
		errs := make([]string, len(hows))
		for r, how := range hows {
			rg.Add(1)
			go func() {
				defer rg.Done()
				<-begin
				for last := false; !last && len(seen[r]) < 3000; {
					last = stop.Load()
					var o obs
					// with one changer the version must lie between these
					o.lo = done[0].Load()
					var val interface{}
					switch how {
					case "local", "rpc":
						var m *messages.Metric
						if how == "local" {
							l := tricorder.ReadMyMetrics("/vp/l")
							if len(l) != 1 {
								errs[r] = "metric missing"
								return
							}
							m = l[0]
						} else {
							var err error
							if m, err = vh.RpcGet("/vp/l"); err != nil {
								errs[r] = err.Error()
								return
							}
						}
						val = m.Value
						o.ts, o.hasTs = m.TimeStamp.(time.Time)
						o.hasTs = true
					case "rest":
						l, err := vh.RestList("/vp/l")
						if err != nil {
							errs[r] = err.Error()
							return
						}
						if kind == types.String {
							var s []string
							json.Unmarshal(l[0].Value, &s)
							val = s
						} else {
							var s []float64
							json.Unmarshal(l[0].Value, &s)
							val = s
						}
					case "text":
						b := vh.Get("/metrics/vp/l?format=text").Body
						p := strings.Split(strings.TrimSuffix(b, "\n"), "|")
						for i := range p {
							p[i] = strings.Trim(p[i], `"`)
						}
						val = p
					case "html":
						var p []string
						for _, x := range li.FindAllStringSubmatch(vh.Get("/metrics/vp/l").Body, -1) {
							p = append(p, strings.ReplaceAll(strings.Trim(html.UnescapeString(x[1]), `"`), ",", ""))
						}
						val = p
					}
					o.hi = started[0].Load()
					o.v, o.whole = version(val)
					if !o.whole {
						o.what = fmt.Sprint(val)
					}
					seen[r] = append(seen[r], o)
				}
			}()
		}
		close(begin)
		if !vh.Within(100*time.Second, func() { wg.Wait(); stop.Store(true); rg.Wait() }) {
			t.Fatalf("blocked\n%s", vh.Stacks())
		}
		overlap := 0
		stamps := map[int]time.Time{}
		for r := range seen {
			if errs[r] != "" {
				t.Fatalf("%s read failed: %s", hows[r], errs[r])
			}
			for _, o := range seen[r] {
				if !o.whole || o.v < 0 || o.v >= total {
					t.Fatalf("%s read saw no complete version: %s", hows[r], o.what)
				}
				if changers == 1 && (int64(o.v) < o.lo || int64(o.v) > o.hi) {
					t.Fatalf("%s read saw version %d; version %d was in place before it and %d last started", hows[r], o.v, o.lo, o.hi)
				}
				if o.hi > o.lo || o.lo > 0 && o.lo < int64(total-changers) {
					overlap++
				}
				if o.hasTs {
					if o.ts.Before(before[o.v]) || o.ts.After(after[o.v]) {
						t.Fatalf("%s read saw version %d with timestamp %v; it was set between %v and %v", hows[r], o.v, o.ts, before[o.v], after[o.v])
					}
					if x, ok := stamps[o.v]; ok && !x.Equal(o.ts) {
						t.Fatalf("version %d with timestamps %v and %v", o.v, x, o.ts)
					}
					stamps[o.v] = o.ts
				}
			}
		}
		last := tricorder.ReadMyMetrics("/vp/l")[0]
		v, whole := version(last.Value)
		if !whole || v < total-changers {
			ok := whole
			if ok { // must be the last change of some changer
				ok = false
				for c := 0; c < changers; c++ {
					ok = ok || v == 1+(n-1)*changers+c
				}
			}
			if !ok {
				t.Fatalf("at the end the list is %v", last.Value)
			}
		}
		if overlap > 0 {
			vh.Label("concurrent runs with overlap")
		}
		vh.Case(fmt.Sprint("concurrent ", kind, n, changers, hows), overlap > 0)
	})
}

// Long histories of changes.
func TestLong(t *testing.T) {
	vh.Check(t, 12, 120, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		g := rapid.SampledFrom(listable()).Draw(t, "type")
		m := &listModel{g: g, path: "/vp/l", unit: vh.Unit(t)}
		var versions [][]interface{}
		var slices []interface{}
		for i := rapid.IntRange(2, 5).Draw(t, "versions"); i > 0; i-- {
			vals := drawVals(t, g, 4)
			for _, v := range vals {
				if s, ok := v.(string); ok && len(s) > 1000 {
					vals = nil
					break
				}
			}
			versions = append(versions, vals)
			slices = append(slices, vh.SliceOf(g, vals))
		}
		m.vals, m.before = versions[0], time.Now()
		m.l = tricorder.NewList(slices[0], true)
		m.after = time.Now()
		vh.Must(t, tricorder.RegisterMetric(m.path, m.l, m.unit, ""), "register")
		desc := fmt.Sprint("long ", g.Name, len(versions))
		all := []string{"local", "rpc", "rest", "text", "html"}
		for r := rapid.IntRange(1, 3).Draw(t, "rounds"); r > 0; r-- {
			each := rapid.Bool().Draw(t, "each")
			n := rapid.SampledFrom([]int{127, 128, 255, 256, 512, 1024, 4096, 65535, 65536, 131072}).Draw(t, "changes")
			if each {
				n = rapid.SampledFrom([]int{1100, 5000, 12000}).Draw(t, "changes")
			}
			for _, how := range all {
				read(t, m, how)
			}
			mutable := rapid.Bool().Draw(t, "mutable")
			for i := 0; i < n; i++ {
				k := (i*3 + i/7 + r) % len(slices)
				m.before = time.Now()
				m.l.Change(slices[k], mutable)
				m.after = time.Now()
				m.vals = versions[k]
				if each {
					read(t, m, "local")
				}
			}
			for _, how := range all {
				read(t, m, how)
			}
			desc += fmt.Sprint(" ", n, each)
		}
		vh.Label("long history")
		vh.Case(desc, true)
	})
}
