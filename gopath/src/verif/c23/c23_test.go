package c23

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "a case is a generated set of groups (default or generated update functions, returning any times), lists and distributions registered at several paths and through several groups, and a history of changes, refused changes, removals, further registrations and listings on every interface, some of them with callbacks that change lists and distributions in the middle of the request; or concurrent changes and listings; non-trivial if some list, distribution or group is reported at two paths and changed; distinct by history")
}

// src is a source of timestamps: a group, a list or a distribution.
type src struct {
	what    string
	group   *tricorder.Group
	void    bool
	ts      time.Time // groups: what the latest update returned
	updates int
	list    *tricorder.List
	cum     *tricorder.CumulativeDistribution
	non     *tricorder.NonCumulativeDistribution
	unit    units.Unit
	held    []float64
	windows [][2]time.Time // when each change was made
	id      *int           // once seen
}

type entry struct {
	parts []string
	path  string
	s     *src
}

type got struct {
	path string
	id   int
	ts   string // seconds
	at   time.Time
	has  bool
}

func read(how, path string) ([]got, error) {
	var out []got
	switch how {
	case "local":
		for _, m := range tricorder.ReadMyMetrics(path) {
			at, ok := m.TimeStamp.(time.Time)
			out = append(out, got{m.Path, m.GroupId, stamp(at), at, ok})
		}
	case "rpc":
		l, err := vh.RpcList(path)
		if err != nil {
			return nil, err
		}
		for _, m := range l {
			at, ok := m.TimeStamp.(time.Time)
			out = append(out, got{m.Path, m.GroupId, stamp(at), at, ok})
		}
	case "rest":
		l, err := vh.RestList(path)
		if err != nil {
			return nil, err
		}
		for _, m := range l {
			var s string
			if json.Unmarshal(m.TimeStamp, &s) != nil || m.GroupId == nil {
				return nil, fmt.Errorf("%s has timestamp %s, group id %v", *m.Path, m.TimeStamp, m.GroupId)
			}
			out = append(out, got{path: *m.Path, id: *m.GroupId, ts: s})
		}
	}
	return out, nil
}

// stamp is how a timestamp is written; unlike time values, the zero time is not 0.
func stamp(t time.Time) string { return vh.Decimal(vh.TimeNs(t), units.Second) }

func (s *src) current() [2]time.Time { return s.windows[len(s.windows)-1] }

// change makes a change; it reports false if there is none to make.
func (s *src) change(k int) {
	before := time.Now()
	switch {
	case s.list != nil:
		s.list.Change(make([]int64, k%4), k%2 == 0)
	case s.cum != nil:
		s.cum.Add(float64(k))
	case s.non != nil && len(s.held) > 0 && k%3 == 1:
		s.non.Update(s.held[0], float64(k))
		s.held[0] = float64(k)
	case s.non != nil && len(s.held) > 0 && k%3 == 2:
		s.non.Remove(s.held[0])
		s.held = s.held[1:]
	default:
		s.non.Add(float64(k))
		s.held = append(s.held, float64(k))
	}
	s.windows = append(s.windows, [2]time.Time{before, time.Now()})
}

// refused makes a change that must be refused.
func (s *src) refused(k int) (string, bool) {
	var f func()
	switch {
	case s.list != nil:
		f = func() { s.list.Change([]interface{}{[]string{"x"}, 5, nil, []uint8{1}}[k%4], true) }
	case s.cum != nil:
		f = func() { s.cum.Add([]interface{}{"x", 5, nil, int64(1)}[k%4]) }
	default:
		f = func() {
			switch k % 3 {
			case 0:
				s.non.Add([]interface{}{"x", 5, nil, int64(1)}[k%4])
			case 1:
				s.non.Remove("x")
			default:
				s.non.Update("x", 5.0)
			}
		}
	}
	did, _ := vh.Panics(f)
	return fmt.Sprintf("refused change %d of %s", k, s.what), did
}

func (s *src) spec(k int) interface{} {
	switch {
	case s.list != nil:
		return s.list
	case s.cum != nil:
		return s.cum
	case s.non != nil:
		return s.non
	}
	switch k % 4 {
	case 0:
		return func() int { return 1 }
	case 1:
		return new(string)
	case 2:
		return new(float64)
	}
	return new(int64)
}

var awkward = []time.Time{{}, time.Unix(0, 0), time.Unix(0, 1), time.Unix(-1, 999999999), time.Unix(1500000000, 0),
	time.Unix(1500000000, 123456789), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(1, 1, 1, 0, 0, 0, 1, time.UTC),
	time.Unix(1<<33, 5).In(time.FixedZone("x", -7*3600))}

var bucketers = []*tricorder.Bucketer{tricorder.PowersOfTwo, tricorder.PowersOfTen, tricorder.PowersOfFour,
	tricorder.NewArbitraryBucketer(1), tricorder.NewLinearBucketer(3, 0, 5), tricorder.NewGeometricBucketer(1, 100)}

func TestHistory(t *testing.T) {
	vh.Check(t, 4000, 50000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		var log []string
		note := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
		fail := func(f string, a ...interface{}) {
			t.Fatalf("%s\nafter:\n  %s", fmt.Sprintf(f, a...), strings.Join(log, "\n  "))
		}
		var srcs []*src
		var draw func() time.Time
		addSrc := func(t *rapid.T) *src {
			s := &src{unit: units.None}
			before := time.Now()
			kind := rapid.SampledFrom([]string{"group", "group", "void", "list", "cum", "non"}).Draw(t, "source")
			switch kind {
			case "group":
				s.group = tricorder.NewGroup()
				s.group.RegisterUpdateFunc(func() time.Time {
					s.updates++
					s.ts = draw()
					return s.ts
				})
			case "void":
				s.group, s.void = tricorder.NewGroup(), true
			case "list":
				s.list = tricorder.NewList([]int64{1, 2}, true)
			case "cum":
				s.cum = rapid.SampledFrom(bucketers).Draw(t, "bucketer").NewCumulativeDistribution()
			case "non":
				s.non = rapid.SampledFrom(bucketers).Draw(t, "bucketer").NewNonCumulativeDistribution()
			}
			s.windows = append(s.windows, [2]time.Time{before, time.Now()})
			s.what = fmt.Sprintf("%s%d", kind, len(srcs))
			srcs = append(srcs, s)
			return s
		}
		def := &src{what: "default group", group: tricorder.DefaultGroup, void: true}
		srcs = append(srcs, def)
		var entries []*entry
		place := func(t *rapid.T) {
			parts := []string{"vp"}
			for d := rapid.IntRange(0, 2).Draw(t, "depth"); d > 0; d-- {
				parts = append(parts, rapid.SampledFrom([]string{"d", "e"}).Draw(t, "dir"))
			}
			parts = append(parts, rapid.SampledFrom([]string{"a", "b", "c", "f", "g", "h"}).Draw(t, "name"))
			path := "/" + strings.Join(parts, "/")
			for _, e := range entries {
				if e.path == path {
					return
				}
			}
			s := rapid.SampledFrom(srcs).Draw(t, "source")
			spec := s.spec(rapid.IntRange(0, 3).Draw(t, "as"))
			var err error
			if s.group != nil {
				err = vh.RegisterIn(t, s.group, path, spec, s.unit, "")
			} else {
				// lists and distributions keep their own id in whatever group
				var gs []*tricorder.Group
				for _, x := range srcs {
					if x.group != nil {
						gs = append(gs, x.group)
					}
				}
				err = vh.RegisterIn(t, rapid.SampledFrom(gs).Draw(t, "via"), path, spec, s.unit, "")
			}
			if err != nil {
				fail("registering %s: %v", path, err)
			}
			entries = append(entries, &entry{parts, path, s})
			sort.Slice(entries, func(i, j int) bool { return vh.LessParts(entries[i].parts, entries[j].parts) })
			note("%s at %s", s.what, path)
		}
		for i := rapid.IntRange(1, 4).Draw(t, "sources"); i > 0; i-- {
			addSrc(t)
		}
		for i := rapid.IntRange(1, 8).Draw(t, "paths"); i > 0; i-- {
			place(t)
		}
		ids := map[int]*src{}
		doubled, changed := false, false
		// some requests change things half-way
		var hook func()
		entriesHook := &entry{[]string{"vp", "d", "chook"}, "/vp/d/chook", def}
		vh.Must(t, tricorder.RegisterMetric(entriesHook.path, func() int {
			if hook != nil {
				hook()
			}
			return 0
		}, units.None, ""), "register")
		entries = append(entries, entriesHook)
		sort.Slice(entries, func(i, j int) bool { return vh.LessParts(entries[i].parts, entries[j].parts) })

		request := func(t *rapid.T, how, top string, mid []int) {
			start := time.Now()
			counts := map[*src]int{}
			first := map[*src]int{} // index of the change in force when it began
			for _, s := range srcs {
				counts[s] = s.updates
				first[s] = len(s.windows) - 1
			}
			tss := map[*src]time.Time{}
			// update functions run in other goroutines, so the times they return are drawn here
			pool := make([]time.Time, len(srcs))
			for i := range pool {
				pool[i] = rapid.OneOf(rapid.SampledFrom(awkward), rapid.Custom(func(t *rapid.T) time.Time { return vh.Time(t, "ts") })).Draw(t, "update")
			}
			var drawLock sync.Mutex
			next := 0
			draw = func() time.Time {
				drawLock.Lock()
				defer drawLock.Unlock()
				next++
				return pool[next%len(pool)]
			}
			if len(mid) > 0 {
				done := false
				hook = func() {
					if done {
						return
					}
					done = true
					for _, k := range mid {
						if s := srcs[k%len(srcs)]; s.group == nil && usable(s, entries) {
							s.change(k)
							changed = true
						}
					}
				}
			}
			out, err := read(how, top)
			hook = nil
			end := time.Now()
			if err != nil {
				fail("%s %s: %v", how, top, err)
			}
			note("%s %s", how, top)
			var want []*entry
			for _, e := range entries {
				if top == "/" || e.path == top || strings.HasPrefix(e.path, top+"/") {
					want = append(want, e)
				}
			}
			k := 0
			per := map[int]string{} // timestamp of each group in this response
			for _, g := range out {
				if x, ok := per[g.id]; ok && x != g.ts {
					fail("%s %s: group id %d has timestamps %s and %s (at %s)", how, top, g.id, x, g.ts, g.path)
				}
				per[g.id] = g.ts
				if !strings.HasPrefix(g.path, "/vp/") {
					// built-in: of the default group or of others
					if g.path == "/proc/args" || g.path == "/proc/name" {
						if def.id != nil && *def.id != g.id {
							fail("%s %s: %s has group id %d, other metrics of the default group %d", how, top, g.path, g.id, *def.id)
						}
					} else if s := ids[g.id]; s != nil && s != def {
						fail("%s %s: %s has the group id %d of %s", how, top, g.path, g.id, s.what)
					}
					continue
				}
				if k >= len(want) || want[k].path != g.path {
					fail("%s %s: reports %s unexpectedly", how, top, g.path)
				}
				s := want[k].s
				k++
				if s.id == nil {
					if o := ids[g.id]; o != nil {
						fail("%s %s: %s (%s) has group id %d, so has %s", how, top, g.path, s.what, g.id, o.what)
					}
					id := g.id
					s.id = &id
					ids[id] = s
				} else if *s.id != g.id {
					fail("%s %s: %s (%s) has group id %d, was %d", how, top, g.path, s.what, g.id, *s.id)
				}
				if how != "rest" && !g.has {
					fail("%s %s: %s has no timestamp", how, top, g.path)
				}
				if x, ok := tss[s]; ok && g.has && !x.Equal(g.at) {
					fail("%s %s: %s (%s) has timestamp %v, elsewhere in the response %v", how, top, g.path, s.what, g.at, x)
				}
				tss[s] = g.at
				within := func(w [2]time.Time) bool {
					if g.has {
						return !g.at.Before(w[0]) && !g.at.After(w[1])
					}
					// both are texts of nanoseconds since the epoch with nine decimals, positive
					lo, hi := stamp(w[0]), stamp(w[1])
					return len(g.ts) == len(lo) && g.ts >= lo && g.ts <= hi
				}
				switch {
				case s.group != nil && s.void:
					if !within([2]time.Time{start, end}) {
						fail("%s %s: %s (%s, default update function) has timestamp %s %v, the request ran from %v to %v", how, top, g.path, s.what, g.ts, g.at, start, end)
					}
				case s.group != nil:
					if s.updates != counts[s]+1 {
						fail("%s %s: %s updated %d times", how, top, s.what, s.updates-counts[s])
					}
					if g.has && !g.at.Equal(s.ts) || g.ts != stamp(s.ts) {
						fail("%s %s: %s (%s) has timestamp %s, its update function returned %v", how, top, g.path, s.what, g.ts, s.ts)
					}
				default:
					ok := false
					for _, w := range s.windows[first[s]:] {
						ok = ok || within(w)
					}
					if !ok {
						fail("%s %s: %s (%s) has timestamp %s, it was last changed between %v and %v (%d changes while the request ran)", how, top, g.path, s.what, g.ts, s.current()[0], s.current()[1], len(s.windows)-1-first[s])
					}
				}
			}
			if k != len(want) {
				fail("%s %s: reports %d metrics, want %d", how, top, k, len(want))
			}
			n := map[*src]int{}
			for _, e := range want {
				if n[e.s]++; n[e.s] > 1 {
					doubled = true
				}
			}
		}
		t.Repeat(map[string]func(*rapid.T){
			"source": func(t *rapid.T) {
				if len(srcs) > 7 {
					t.Skip("enough")
				}
				addSrc(t)
			},
			"place": func(t *rapid.T) {
				if len(entries) > 12 {
					t.Skip("enough")
				}
				place(t)
			},
			"remove": func(t *rapid.T) {
				e := rapid.SampledFrom(entries).Draw(t, "entry")
				if e == entriesHook {
					t.Skip("the hook stays")
				}
				tricorder.UnregisterPath(e.path)
				for i := range entries {
					if entries[i] == e {
						entries = append(entries[:i:i], entries[i+1:]...)
						break
					}
				}
				note("remove %s", e.path)
			},
			"change": func(t *rapid.T) {
				s := rapid.SampledFrom(srcs).Draw(t, "source")
				if s.group != nil || !usable(s, entries) {
					t.Skip("nothing to change")
				}
				k := rapid.IntRange(0, 11).Draw(t, "k")
				s.change(k)
				changed = true
				note("change %s", s.what)
			},
			"refused": func(t *rapid.T) {
				s := rapid.SampledFrom(srcs).Draw(t, "source")
				if s.group != nil {
					t.Skip("nothing to refuse")
				}
				what, did := s.refused(rapid.IntRange(0, 11).Draw(t, "k"))
				if !did {
					fail("%s did not panic", what)
				}
				note("%s", what)
			},
			"refused registration": func(t *rapid.T) {
				s := rapid.SampledFrom(srcs).Draw(t, "source")
				if s.group != nil {
					t.Skip("")
				}
				if err := tricorder.RegisterMetric(entriesHook.path, s.spec(0), units.None, ""); err == nil {
					fail("registering %s at a path in use succeeds", s.what)
				}
			},
			"replace": func(t *rapid.T) {
				s := rapid.SampledFrom(srcs).Draw(t, "source")
				if s.group == nil || s == def {
					t.Skip("no group")
				}
				s.void = false
				s.group.RegisterUpdateFunc(func() time.Time {
					s.updates++
					s.ts = draw()
					return s.ts
				})
				note("new update function for %s", s.what)
			},
			"request": func(t *rapid.T) {
				how := rapid.SampledFrom([]string{"local", "local", "rest", "rpc"}).Draw(t, "how")
				top := "/vp"
				switch rapid.IntRange(0, 3).Draw(t, "where") {
				case 0:
					e := rapid.SampledFrom(entries).Draw(t, "entry")
					top = "/" + strings.Join(e.parts[:rapid.IntRange(1, len(e.parts)).Draw(t, "up")], "/")
				case 1:
					top = "/"
				}
				var mid []int
				if rapid.Bool().Draw(t, "mid") {
					mid = rapid.SliceOfN(rapid.IntRange(0, 30), 1, 5).Draw(t, "changes")
				}
				request(t, how, top, mid)
			},
		})
		request(t, "local", "/", nil)
		request(t, "rest", "/vp", nil)
		vh.Case(strings.Join(log, "; "), doubled && changed)
	})
}

// usable tells whether the source can be changed: distributions need a unit.
func usable(s *src, entries []*entry) bool {
	if s.list != nil {
		return true
	}
	for _, e := range entries {
		if e.s == s {
			return true
		}
	}
	return false
}

// Changes and listings at once.
func TestConcurrent(t *testing.T) {
	vh.Check(t, 150, 1500, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		l := tricorder.NewList([]int64{0}, false)
		d := rapid.SampledFrom(bucketers).Draw(t, "bucketer").NewNonCumulativeDistribution()
		g := tricorder.NewGroup()
		var ver int64
		g.RegisterUpdateFunc(func() time.Time { ver++; return time.Unix(ver, 0) })
		copies := rapid.IntRange(2, 5).Draw(t, "copies")
		for i := 0; i < copies; i++ {
			vh.Must(t, tricorder.RegisterMetric(fmt.Sprintf("/vp/%d/l", i), l, units.None, ""), "register")
			vh.Must(t, tricorder.RegisterMetric(fmt.Sprintf("/vp/%d/d", i), d, units.None, ""), "register")
			vh.Must(t, g.RegisterMetric(fmt.Sprintf("/vp/%d/v", i), &ver, units.None, ""), "register")
		}
		n := rapid.SampledFrom([]int{20, 100, 300}).Draw(t, "changes")
		hows := rapid.SliceOfN(rapid.SampledFrom([]string{"local", "local", "rest", "rpc"}), 1, 3).Draw(t, "readers")
		var bad atomic.Value
		var stop atomic.Bool
		var wg, rg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				l.Change([]int64{int64(i)}, i%2 == 0)
			}
		}()
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				d.Add(float64(i))
			}
		}()
		for _, how := range hows {
			rg.Add(1)
			go func() {
				defer rg.Done()
				for last := false; !last && bad.Load() == nil; {
					last = stop.Load()
					out, err := read(how, "/vp")
					if err != nil || len(out) != 3*copies {
						bad.Store(fmt.Sprintf("%s: %v %v", how, out, err))
						return
					}
					ids := map[int]string{}
					for _, x := range out {
						if ts, ok := ids[x.id]; ok && ts != x.ts {
							bad.Store(fmt.Sprintf("%s: group id %d has timestamps %s and %s in one response (at %s)", how, x.id, ts, x.ts, x.path))
							return
						}
						ids[x.id] = x.ts
					}
					if len(ids) != 3 {
						bad.Store(fmt.Sprintf("%s: %d group ids for a list, a distribution and a group", how, len(ids)))
						return
					}
				}
			}()
		}
		if !vh.Within(100*time.Second, func() { wg.Wait(); stop.Store(true); rg.Wait() }) {
			t.Fatalf("blocked\n%s", vh.Stacks())
		}
		if b := bad.Load(); b != nil {
			t.Fatalf("%s", b)
		}
		vh.Case(fmt.Sprint("concurrent ", copies, n, hows), true)
	})
}

// Ids stay distinct when groups, lists and distributions are created at once.
func TestIds(t *testing.T) {
	vh.Check(t, 60, 600, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		workers := rapid.IntRange(2, 6).Draw(t, "workers")
		per := rapid.IntRange(1, 20).Draw(t, "each")
		var wg sync.WaitGroup
		begin := make(chan struct{})
		errs := make([]error, workers)
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				for i := 0; i < per; i++ {
					var err error
					path := fmt.Sprintf("/vp/%d/%d", w, i)
					switch (w + i) % 3 {
					case 0:
						err = tricorder.NewGroup().RegisterMetric(path, new(int), units.None, "")
					case 1:
						err = tricorder.RegisterMetric(path, tricorder.NewList([]string{}, false), units.None, "")
					default:
						err = tricorder.RegisterMetric(path, bucketers[(w+i)/3%len(bucketers)].NewCumulativeDistribution(), units.None, "")
					}
					if err != nil {
						errs[w] = err
					}
				}
			}()
		}
		close(begin)
		wg.Wait()
		more := 0
		if rapid.IntRange(0, 6).Draw(t, "burn") == 6 {
			// lists that are not registered take ids too; then more of every
			// sort with ids a power of two from those above
			for n := rapid.SampledFrom([]int{256, 32768, 65536, 65536}).Draw(t, "n") - workers*per - 5; n > 0; n-- {
				tricorder.NewList([]bool{true}, false)
			}
			for ; more < workers*per+30; more++ {
				path := fmt.Sprintf("/vp/more%d", more)
				switch rapid.IntRange(0, 2).Draw(t, "sort") {
				case 0:
					vh.Must(t, tricorder.NewGroup().RegisterMetric(path, new(int), units.None, ""), "register")
				case 1:
					vh.Must(t, tricorder.RegisterMetric(path, tricorder.NewList([]bool{}, false), units.None, ""), "register")
				default:
					vh.Must(t, tricorder.RegisterMetric(path, bucketers[more%len(bucketers)].NewCumulativeDistribution(), units.None, ""), "register")
				}
			}
		}
		seen := map[int]string{}
		l := tricorder.ReadMyMetrics("/vp")
		for _, m := range l {
			if p, ok := seen[m.GroupId]; ok {
				t.Fatalf("%s and %s have group id %d", p, m.Path, m.GroupId)
			}
			seen[m.GroupId] = m.Path
		}
		for _, m := range tricorder.ReadMyMetrics("/proc") {
			if p, ok := seen[m.GroupId]; ok {
				t.Fatalf("%s and %s have group id %d", p, m.Path, m.GroupId)
			}
		}
		if len(l) != workers*per+more {
			t.Fatalf("%d metrics of %d, errors %v", len(l), workers*per, errs)
		}
		vh.Case(fmt.Sprint("ids ", workers, per), true)
	})
}
