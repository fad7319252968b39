package c22

import (
	"fmt"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "a case is 2 to 4 generated scripts of registrations (metrics, directories, one distribution in differing units), removals (by path or handle) and lookups on 1 to 3 names of one directory, run at once several times in lock step, whose results must be those of some one-at-a-time order respecting real time; or up to 8 goroutines registering below directories not made yet, or one distribution in several units; or listings on every interface while a part of a generated tree is registered and removed all the time; non-trivial if two scripts change the same name, or listings overlapped changes; distinct by scripts")
}

const (
	regMetric = iota
	regDist
	regDir
	unreg
	unregDir // by handle of the goroutine's last directory
	lookup
	getDir
)

var kindName = []string{"metric", "dist", "dir", "unregister", "unregisterDirectory", "lookup", "getDirectory"}

type op struct {
	kind int
	name int
	unit units.Unit
	hnd  int // for unregDir: index of the op that yielded the handle, in the same script
}

func (o op) String() string {
	return fmt.Sprintf("%s(%d %s)", kindName[o.kind], o.name, o.unit)
}

// call is one executed operation.
type call struct {
	op
	id         int // unique; value of the metric registered
	hid        int // id of the call whose handle is used
	start, end int64
	err        error
	val        int // lookup: id seen, 0 none, -1 directory or distribution, -2 nonsense
	h          *tricorder.DirectorySpec
}

// entry is the model of a name: 0 nothing, or a metric, distribution or directory.
type entry struct {
	kind byte // 0, 'm', 'd' (distribution), 'D' (directory)
	id   int
}

type state struct {
	names [3]entry
	unit  units.Unit
	set   bool
}

// apply runs c on the model; it tells whether the results agree. bind maps
// calls that yielded a directory handle to the directory.
func apply(s state, c *call, bind map[int]int) (state, bool, int) {
	e := &s.names[c.name]
	switch c.kind {
	case regMetric:
		if e.kind != 0 {
			return s, c.err == tricorder.ErrPathInUse, 0
		}
		*e = entry{'m', c.id}
		return s, c.err == nil, 0
	case regDist:
		inUse, wrong := e.kind != 0, s.set && s.unit != c.unit
		if inUse || wrong {
			return s, inUse && c.err == tricorder.ErrPathInUse || wrong && c.err == tricorder.ErrWrongUnit, 0
		}
		*e = entry{'d', c.id}
		s.set, s.unit = true, c.unit
		return s, c.err == nil, 0
	case regDir:
		switch e.kind {
		case 0:
			*e = entry{'D', c.id}
			return s, c.err == nil, c.id
		case 'D':
			return s, c.err == nil, e.id
		}
		return s, c.err == tricorder.ErrPathInUse, 0
	case unreg:
		*e = entry{}
		return s, true, 0
	case unregDir:
		if d, ok := bind[c.hid]; ok && e.kind == 'D' && e.id == d {
			*e = entry{}
		}
		return s, true, 0
	case lookup:
		switch e.kind {
		case 0:
			return s, c.val == 0, 0
		case 'm':
			return s, c.val == e.id, 0
		case 'D': // an empty directory lists nothing
			return s, c.val == 0, 0
		}
		return s, c.val == -1, 0
	default: // getDir
		switch e.kind {
		case 0:
			return s, c.err == tricorder.ErrNotFound, 0
		case 'D':
			return s, c.err == nil, e.id
		}
		return s, c.err == tricorder.ErrPathInUse, 0
	}
}

// linear searches for a one-at-a-time order of the calls.
func linear(calls []*call) bool {
	n := len(calls)
	seen := map[string]bool{}
	bind := map[int]int{}
	var rec func(done uint64, s state) bool
	rec = func(done uint64, s state) bool {
		if done == 1<<n-1 {
			return true
		}
		key := fmt.Sprint(done, s, bind)
		if seen[key] {
			return false
		}
		seen[key] = true
		first := int64(1<<62 - 1) // earliest end of what is left
		for i, c := range calls {
			if done>>i&1 == 0 && c.end < first {
				first = c.end
			}
		}
		for i, c := range calls {
			if done>>i&1 != 0 || c.start > first {
				continue
			}
			s2, ok, d := apply(s, c, bind)
			if !ok {
				continue
			}
			if d != 0 {
				bind[c.id] = d
			}
			if rec(done|1<<i, s2) {
				return true
			}
			delete(bind, c.id)
		}
		return false
	}
	return rec(0, state{})
}

func look(path string) int {
	l := tricorder.ReadMyMetrics(path)
	switch {
	case len(l) == 0:
		return 0
	case len(l) > 1 || l[0].Path != path:
		return -2
	}
	if v, ok := l[0].Value.(int64); ok {
		return int(v)
	}
	return -1
}

func TestLinear(t *testing.T) {
	vh.Check(t, 1200, 20000, func(t *rapid.T) {
		workers := rapid.IntRange(2, 4).Draw(t, "workers")
		nn := rapid.IntRange(1, 3).Draw(t, "names")
		max := 4
		if workers == 4 {
			max = 3
		}
		scripts := make([][]op, workers)
		changes := map[int]int{}
		desc := ""
		for w := range scripts {
			n := rapid.IntRange(1, max).Draw(t, "ops")
			mine := map[int]bool{}
			for i := 0; i < n; i++ {
				o := op{name: rapid.IntRange(0, nn-1).Draw(t, "name")}
				o.kind = rapid.SampledFrom([]int{regMetric, regMetric, regMetric, regDist, regDir, unreg, unreg, unregDir, lookup, getDir}).Draw(t, "kind")
				o.unit = units.None
				switch o.kind {
				case regDist:
					o.unit = rapid.SampledFrom([]units.Unit{units.Second, units.Millisecond}).Draw(t, "unit")
				case unregDir:
					o.hnd = -1
					for k := i - 1; k >= 0; k-- {
						if x := scripts[w][k]; x.kind == regDir || x.kind == getDir {
							o.hnd, o.name = k, x.name
						}
					}
					if o.hnd < 0 {
						o.kind = regDir
					}
				}
				if o.kind < lookup {
					mine[o.name] = true
				}
				scripts[w] = append(scripts[w], o)
				desc += " " + o.String()
			}
			for k := range mine {
				changes[k]++
			}
			desc += " |"
		}
		rounds := vh.N(12, 12)
		base := tricorderBase
		for round := 0; round < rounds; round++ {
			vh.Reset()
			if _, err := tricorder.RegisterDirectory(base); err != nil {
				t.Fatalf("RegisterDirectory: %v", err)
			}
			dist := tricorder.PowersOfTwo.NewCumulativeDistribution()
			var clock atomic.Int64
			var at atomic.Int64 // barrier
			logs := make([][]*call, workers)
			specs := make([][]interface{}, workers)
			id := 0
			for w := range scripts {
				for _, o := range scripts[w] {
					id++
					v := int64(id)
					logs[w] = append(logs[w], &call{op: o, id: id})
					specs[w] = append(specs[w], &v)
				}
			}
			var wg sync.WaitGroup
			for w := range scripts {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i, c := range logs[w] {
						// those still in the race start step i together
						need := int64(0)
						for k := range scripts {
							for j := 0; j <= i; j++ {
								if j < len(scripts[k]) {
									need++
								}
							}
						}
						at.Add(1)
						for spin := 0; at.Load() < need; spin++ {
							if spin > 300 {
								runtime.Gosched()
							}
						}
						path := fmt.Sprintf("%s/n%d", base, c.name)
						c.start = clock.Add(1)
						switch c.kind {
						case regMetric:
							c.err = tricorder.RegisterMetric(path, specs[w][i], units.None, "")
						case regDist:
							c.err = tricorder.RegisterMetric(path, dist, c.unit, "")
						case regDir:
							c.h, c.err = tricorder.RegisterDirectory(path)
						case unreg:
							tricorder.UnregisterPath(path)
						case unregDir:
							x := logs[w][c.hnd]
							c.hid = x.id
							if x.h != nil && x.err == nil {
								x.h.UnregisterDirectory()
							} else {
								c.hid = 0
							}
						case lookup:
							c.val = look(path)
						case getDir:
							c.h, c.err = tricorder.GetDirectory(path)
						}
						c.end = clock.Add(1)
					}
				}()
			}
			if !vh.Within(60*time.Second, wg.Wait) {
				t.Fatalf("blocked: %s\n%s", desc, vh.Stacks())
			}
			var calls []*call
			for w := range logs {
				calls = append(calls, logs[w]...)
			}
			// what is left
			for n := 0; n < nn; n++ {
				id += 2
				path := fmt.Sprintf("%s/n%d", base, n)
				c := &call{op: op{kind: lookup, name: n}, id: id, start: clock.Add(1)}
				c.val = look(path)
				c.end = clock.Add(1)
				g := &call{op: op{kind: getDir, name: n}, id: id + 1, start: clock.Add(1)}
				g.h, g.err = tricorder.GetDirectory(path)
				g.end = clock.Add(1)
				calls = append(calls, c, g)
			}
			if !linear(calls) {
				sort.Slice(calls, func(i, j int) bool { return calls[i].start < calls[j].start })
				s := ""
				for _, c := range calls {
					s += fmt.Sprintf("\n  [%d,%d] id %d %v: err %v, saw %d", c.start, c.end, c.id, c.op, c.err, c.val)
				}
				vh.Reset()
				t.Fatalf("no order of these calls explains their results:%s", s)
			}
			// a metric that is reported is what its registration gave
			l := tricorder.ReadMyMetrics(base)
			for i, m := range l {
				if i > 0 && l[i-1].Path >= m.Path {
					t.Fatalf("listing out of order: %s, %s", l[i-1].Path, m.Path)
				}
			}
		}
		vh.Reset()
		nt := false
		for _, k := range changes {
			nt = nt || k > 1
		}
		vh.Case(desc, nt)
	})
}

const tricorderBase = vh.Base + "/d"

// gen is one lifetime of a changing metric.
type gen struct{ from, to atomic.Int64 }

func TestListing(t *testing.T) {
	vh.Check(t, 100, 1200, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		// stable metrics
		stable := map[string]bool{}
		var order [][]string
		dirs := []string{"/vp", "/vp/a", "/vp/a/b", "/vp/c", "/vp/c/z"}
		n := rapid.IntRange(1, 8).Draw(t, "stable")
		v := int64(-7)
		for i := 0; i < n; i++ {
			p := rapid.SampledFrom(dirs).Draw(t, "dir") + "/s" + rapid.SampledFrom([]string{"0", "1", "2", "3", "zz"}).Draw(t, "name")
			if stable[p] {
				continue
			}
			stable[p] = true
			vh.Must(t, tricorder.RegisterMetric(p, &v, units.None, "x"), "register")
			order = append(order, strings.Split(p, "/")[1:])
		}
		sort.Slice(order, func(i, j int) bool { return vh.LessParts(order[i], order[j]) })
		// changing ones: each changer owns a path or a subtree
		workers := rapid.IntRange(1, 4).Draw(t, "changers")
		per := rapid.SampledFrom([]int{20, 150}).Draw(t, "changes")
		paths := make([]string, workers)
		whole := make([]bool, workers) // removes the directory around it
		gens := make([][]gen, workers)
		var clock atomic.Int64
		for w := range paths {
			d := rapid.SampledFrom(dirs).Draw(t, "dir")
			paths[w] = fmt.Sprintf("%s/m%d", d, w)
			if whole[w] = rapid.Bool().Draw(t, "subtree"); whole[w] {
				paths[w] = fmt.Sprintf("%s/q%d/r/m", d, w)
			}
			gens[w] = make([]gen, per)
			for i := range gens[w] {
				gens[w][i].from.Store(1 << 60)
				gens[w][i].to.Store(1 << 60)
			}
		}
		byPath := map[string]int{}
		for w, p := range paths {
			byPath[p] = w
		}
		var bad atomic.Value
		var stop atomic.Bool
		var wg, rg sync.WaitGroup
		begin := make(chan struct{})
		for w := range paths {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				top := paths[w]
				if whole[w] {
					top = strings.TrimSuffix(top, "/r/m")
				}
				for i := 0; i < per; i++ {
					x := int64(i)
					g := &gens[w][i]
					g.from.Store(clock.Add(1))
					if err := tricorder.RegisterMetric(paths[w], &x, units.None, "x"); err != nil {
						bad.Store(fmt.Sprintf("registering %s: %v", paths[w], err))
						return
					}
					if i%3 == 0 {
						runtime.Gosched()
					}
					if err := tricorder.RegisterMetric(paths[w], &x, units.None, "x"); err != tricorder.ErrPathInUse {
						bad.Store(fmt.Sprintf("registering %s twice: %v", paths[w], err))
						return
					}
					switch {
					case !whole[w] || i%2 == 0:
						tricorder.UnregisterPath(top)
					default:
						d, err := tricorder.GetDirectory(top)
						if err != nil {
							bad.Store(fmt.Sprintf("GetDirectory(%s): %v", top, err))
							return
						}
						d.UnregisterDirectory()
					}
					g.to.Store(clock.Add(1))
				}
			}()
		}
		hows := rapid.SliceOfN(rapid.SampledFrom([]string{"local", "local", "rpc", "rest", "text", "html"}), 1, 3).Draw(t, "readers")
		overlapped := atomic.Int64{}
		for _, how := range hows {
			rg.Add(1)
			go func() {
				defer rg.Done()
				<-begin
				for last := false; !last && bad.Load() == nil; {
					last = stop.Load()
					start := clock.Add(1)
					out, err := vh.Perform(how, "/vp")
					end := clock.Add(1)
					if err != nil {
						bad.Store(fmt.Sprintf("%s listing: %v", how, err))
						return
					}
					if end > start+1 {
						overlapped.Add(1)
					}
					k := 0
					for i, r := range out {
						if i > 0 && !vh.LessParts(strings.Split(out[i-1].Path, "/"), strings.Split(r.Path, "/")) {
							bad.Store(fmt.Sprintf("%s listing has %s before %s", how, out[i-1].Path, r.Path))
							return
						}
						if w, ok := byPath[r.Path]; ok {
							x, err := strconv.Atoi(r.Val)
							if err != nil || x < 0 || x >= per || gens[w][x].from.Load() > end || gens[w][x].to.Load() < start {
								bad.Store(fmt.Sprintf("%s listing reports %v, which was not registered meanwhile", how, r))
								return
							}
							continue
						}
						if !stable[r.Path] || r.Val != "-7" {
							bad.Store(fmt.Sprintf("%s listing reports %v, which was never registered", how, r))
							return
						}
						if how == "html" {
							continue
						}
						if want := "/" + strings.Join(order[k], "/"); r.Path != want {
							bad.Store(fmt.Sprintf("%s listing has %s where %s is due", how, r.Path, want))
							return
						}
						k++
					}
					if how != "html" && k != len(order) {
						bad.Store(fmt.Sprintf("%s listing has %d of %d metrics that stay registered: %v", how, k, len(order), out))
						return
					}
				}
			}()
		}
		close(begin)
		if !vh.Within(100*time.Second, func() { wg.Wait(); stop.Store(true); rg.Wait() }) {
			t.Fatalf("blocked\n%s", vh.Stacks())
		}
		if b := bad.Load(); b != nil {
			t.Fatalf("%s", b)
		}
		vh.Label("listing runs")
		vh.Case(fmt.Sprint("listing ", order, paths, per, hows), overlapped.Load() > 0)
	})
}

// TestShared races registrations that do not exclude each other: of paths
// below directories nobody made yet, and of one distribution in several units.
func TestShared(t *testing.T) {
	vh.Check(t, 150, 2500, func(t *rapid.T) {
		workers := rapid.IntRange(2, 8).Draw(t, "workers")
		depth := rapid.IntRange(0, 4).Draw(t, "depth")
		shared := rapid.Bool().Draw(t, "dist")
		buck := rapid.SampledFrom([]*tricorder.Bucketer{tricorder.PowersOfTwo, tricorder.PowersOfTen, tricorder.NewArbitraryBucketer(1)}).Draw(t, "bucketer")
		us := make([]units.Unit, workers)
		dirs := make([]bool, workers) // registers a directory, then a metric through its handle
		for w := range us {
			us[w] = rapid.SampledFrom([]units.Unit{units.None, units.Byte, units.Second}).Draw(t, "unit")
			dirs[w] = rapid.Bool().Draw(t, "handle")
		}
		distinct := map[units.Unit]bool{}
		for _, u := range us {
			distinct[u] = true
		}
		for round := 0; round < 25; round++ {
			vh.Reset()
			var dist interface{} = buck.NewCumulativeDistribution()
			if round%2 == 1 {
				dist = buck.NewNonCumulativeDistribution()
			}
			prefix := vh.Base
			for i := 0; i < depth; i++ {
				prefix += fmt.Sprintf("/p%d", i)
			}
			paths := make([]string, workers)
			errs := make([]error, workers)
			var at atomic.Int64
			var wg sync.WaitGroup
			for w := 0; w < workers; w++ {
				paths[w] = fmt.Sprintf("%s/x%d", prefix, w)
				var m interface{} = dist
				if !shared {
					v := int64(w)
					m = &v
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					at.Add(1)
					for spin := 0; at.Load() < int64(workers); spin++ {
						if spin > 300 {
							runtime.Gosched()
						}
					}
					if !dirs[w] {
						errs[w] = tricorder.RegisterMetric(paths[w], m, us[w], "")
						return
					}
					d, err := tricorder.RegisterDirectory(prefix)
					if err == nil {
						err = d.RegisterMetric(fmt.Sprintf("x%d", w), m, us[w], "")
					}
					errs[w] = err
				}()
			}
			if !vh.Within(60*time.Second, wg.Wait) {
				t.Fatalf("blocked\n%s", vh.Stacks())
			}
			found := map[string]units.Unit{}
			for _, m := range tricorder.ReadMyMetrics(vh.Base) {
				found[m.Path] = m.Unit
			}
			won := map[units.Unit]bool{}
			for w, p := range paths {
				u, ok := found[p]
				switch {
				case errs[w] == nil:
					won[us[w]] = true
					if !ok || u != us[w] {
						t.Fatalf("%s was registered in %q, but is reported: %v in %q", p, us[w], ok, u)
					}
				case !shared || errs[w] != tricorder.ErrWrongUnit:
					t.Fatalf("registering %s: %v", p, errs[w])
				case ok:
					t.Fatalf("%s was refused but is reported", p)
				}
			}
			if shared && len(won) != 1 {
				t.Fatalf("the distribution was registered in %d units at once", len(won))
			}
		}
		vh.Reset()
		vh.Label("shared runs")
		vh.Case(fmt.Sprint("shared ", workers, depth, shared, us, dirs), shared && len(distinct) > 1 || !shared && depth > 0)
	})
}
