package c02

import (
	"fmt"
	"strings"
	"testing"
	"time"
	"unsafe"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "a case is a generated sequence of about 12 registrations of valid and invalid Go values and of distributions under drawn units and paths (free, occupied, through a metric, in new directories); the registry, directories and units are compared before and after each; non-trivial if it has a refusal for type or unit and a success; distinct by the sequence")
}

type bad struct {
	name string
	v    interface{}
}

type st struct{ A int }
type stamp time.Time
type stampPtr *time.Time
type embeds struct{ time.Time }
type intPtr *int
type strs []string
type fn func(int) int

var someErr error = fmt.Errorf("x")

func badValues() []bad {
	i, s, c, u := 5, "x", complex(1, 2), uintptr(3)
	pi, e, ifc := &i, someErr, interface{}(5)
	sl, mp, ar, ch, f, stv := []int{1}, map[string]int{}, [2]int{}, make(chan int), func() int { return 1 }, st{}
	ptm := new(time.Time)
	pptm := &ptm
	c64 := complex64(1)
	return []bad{
		{"nil", nil}, {"int", i}, {"string", s}, {"bool", true}, {"float64", 1.5}, {"time.Time", time.Time{}}, {"duration", time.Second},
		{"struct", stv}, {"slice", sl}, {"map", mp}, {"array", ar}, {"chan", ch}, {"complex", c}, {"uintptr", u}, {"unsafe", unsafe.Pointer(&i)},
		{"error", someErr},
		{"*complex128", &c}, {"*complex64", &c64}, {"*struct", &stv}, {"**int", &pi}, {"*slice", &sl}, {"*map", &mp}, {"*array", &ar},
		{"*chan", &ch}, {"*func", &f}, {"*error", &e}, {"*interface", &ifc}, {"*uintptr", &u}, {"***time", &pptm},
		{"*stamp", new(stamp)}, {"**stamp", new(*stamp)}, {"*stampPtr", new(stampPtr)}, {"*embeds", new(embeds)}, {"*intPtr", new(intPtr)}, {"*strs", new(strs)},
		{"stamp", stamp{}}, {"func stamp", func() stamp { return stamp{} }}, {"func *stamp", func() *stamp { return nil }}, {"func stampPtr", func() stampPtr { return nil }}, {"func embeds", func() embeds { return embeds{} }},
		{"nil *int", (*int)(nil)}, {"nil *string", (*string)(nil)}, {"nil *time", (*time.Time)(nil)}, {"nil **time", (**time.Time)(nil)},
		{"nil *duration", (*time.Duration)(nil)}, {"nil *float32", (*float32)(nil)}, {"nil *struct", (*st)(nil)}, {"nil map", map[string]int(nil)},
		{"nil slice", []int(nil)}, {"nil chan", (chan int)(nil)},
		{"nil *List", (*tricorder.List)(nil)}, {"nil *Cumulative", (*tricorder.CumulativeDistribution)(nil)},
		{"nil *NonCumulative", (*tricorder.NonCumulativeDistribution)(nil)},
		{"nil func", (func() int)(nil)}, {"nil func time", (func() time.Time)(nil)}, {"nil func string", (func() string)(nil)},
		{"func(int)", func(int) int { return 1 }}, {"func(int,string)", func(int, string) string { return "" }}, {"named func(int)", fn(func(int) int { return 1 })},
		{"func(int,...int)", func(int, ...int) int { return 1 }},
		{"func complex", func() complex128 { return 1 }}, {"func slice", func() []int { return nil }}, {"func *int", func() *int { return nil }},
		{"func error", func() error { return nil }}, {"func interface", func() interface{} { return 1 }}, {"func struct", func() st { return st{} }},
		{"func map", func() map[string]int { return nil }}, {"func func", func() func() int { return nil }},
		{"func uintptr", func() uintptr { return 0 }}, {"func chan", func() chan int { return nil }},
		{"List value", *tricorder.NewList([]int64{1}, false)},
		{"*Bucketer", tricorder.PowersOfTen}, {"*Group", tricorder.DefaultGroup},
	}
}

// Functions with no or several results: refused by error or by the documented panic.
func badArity() []bad {
	return []bad{
		{"func()", func() {}},
		{"func() (int, error)", func() (int, error) { return 0, nil }},
		{"func() (int, int, int)", func() (int, int, int) { return 0, 0, 0 }},
	}
}

type dist struct {
	v    interface{}
	cum  bool
	unit *units.Unit
	n    int // values added
}

func (d *dist) add(v interface{}) {
	if d.cum {
		d.v.(*tricorder.CumulativeDistribution).Add(v)
	} else {
		d.v.(*tricorder.NonCumulativeDistribution).Add(v)
	}
}

type entry struct {
	kind types.Type
	unit units.Unit
}

var bucketers = []*tricorder.Bucketer{tricorder.PowersOfTwo, tricorder.PowersOfTen, tricorder.NewArbitraryBucketer(0.5), tricorder.NewLinearBucketer(40, 0, 5)}

func TestRefusal(t *testing.T) {
	bads, arity := badValues(), badArity()
	vh.Check(t, 16000, 160000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		dists := make([]*dist, 3)
		for i := range dists {
			d := &dist{cum: rapid.Bool().Draw(t, "cum")}
			if d.cum {
				d.v = rapid.SampledFrom(bucketers).Draw(t, "bucketer").NewCumulativeDistribution()
			} else {
				d.v = rapid.SampledFrom(bucketers).Draw(t, "bucketer").NewNonCumulativeDistribution()
			}
			dists[i] = d
		}
		metrics := map[string]entry{} // by path
		dirs := map[string]bool{}
		var log []string
		var ok, refused, wrong int
		t.Repeat(map[string]func(*rapid.T){
			"register": func(t *rapid.T) {
				parts := append([]string{"vp"}, rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", "c", "d"}), 0, 3).Draw(t, "path")...)
				if rapid.IntRange(0, 25).Draw(t, "root") == 0 {
					parts = nil
				}
				path := "/" + strings.Join(parts, "/")
				unit := vh.Unit(t)
				var v interface{}
				var name string
				var d *dist
				var wantErrs []error
				mayPanic := false
				kind := types.Unknown
				switch rapid.IntRange(0, 7).Draw(t, "what") {
				case 0, 1, 2:
					b := rapid.SampledFrom(bads).Draw(t, "bad")
					v, name = b.v, b.name
					wantErrs = append(wantErrs, tricorder.ErrWrongType)
				case 3:
					b := rapid.SampledFrom(arity).Draw(t, "arity")
					v, name = b.v, b.name
					wantErrs = append(wantErrs, tricorder.ErrWrongType)
					mayPanic = true
				case 4, 5:
					i := rapid.IntRange(0, len(dists)-1).Draw(t, "dist")
					d = dists[i]
					v, name, kind = d.v, fmt.Sprintf("dist%d", i), types.Dist
					if d.unit != nil && *d.unit != unit {
						wantErrs = append(wantErrs, tricorder.ErrWrongUnit)
					}
				case 6:
					v, name, kind = tricorder.NewList([]string{"x"}, true), "list", types.List
				default:
					g := rapid.SampledFrom(vh.GoTypes).Draw(t, "type")
					c := vh.NewCell(g)
					name, kind = g.Name, g.Kind
					switch rapid.IntRange(0, 2).Draw(t, "as") {
					case 0:
						v = c.Pointer()
					case 1:
						v = c.Func(nil)
					default:
						v, kind = func(...string) string { return "" }, types.String
					}
				}
				// path occupied?
				if len(parts) == 0 || dirs[path] {
					wantErrs = append(wantErrs, tricorder.ErrPathInUse)
				} else {
					for i := 1; i <= len(parts); i++ {
						if _, ok := metrics["/"+strings.Join(parts[:i], "/")]; ok {
							wantErrs = append(wantErrs, tricorder.ErrPathInUse)
							break
						}
					}
				}
				var err error
				panicked, pv := vh.Panics(func() { err = tricorder.RegisterMetric(path, v, unit, "d") })
				log = append(log, fmt.Sprintf("%s at %s in %v -> %v", name, path, unit, err))
				if panicked && !mayPanic {
					t.Fatalf("registering %s at %s panicked: %v", name, path, pv)
				}
				if !panicked {
					good := len(wantErrs) == 0 && err == nil
					for _, w := range wantErrs {
						good = good || err == w
					}
					if !good {
						t.Fatalf("registering %s at %s in %v: error %v, want one of %v", name, path, unit, err, wantErrs)
					}
				}
				if len(wantErrs) > 0 {
					refused++
					if wantErrs[0] != tricorder.ErrPathInUse {
						wrong++
					}
					return
				}
				ok++
				for i := 1; i < len(parts); i++ {
					dirs["/"+strings.Join(parts[:i], "/")] = true
				}
				metrics[path] = entry{kind, unit}
				if d != nil && d.unit == nil {
					u := unit
					d.unit = &u
				}
			},
			"unregister": func(t *rapid.T) {
				if len(metrics) == 0 {
					t.Skip("none")
				}
				path := "/vp/" + rapid.SampledFrom([]string{"a", "b", "c", "a/b", "b/a", "a/a"}).Draw(t, "p")
				tricorder.UnregisterPath(path)
				log = append(log, "unregister "+path)
				for p := range metrics {
					if p == path || strings.HasPrefix(p, path+"/") {
						delete(metrics, p)
					}
				}
				for p := range dirs {
					if p == path || strings.HasPrefix(p, path+"/") {
						delete(dirs, p)
					}
				}
			},
			"add": func(t *rapid.T) {
				i := rapid.IntRange(0, len(dists)-1).Draw(t, "dist")
				d := dists[i]
				var v interface{} = 1.0
				wantPanic := d.unit == nil
				if rapid.Bool().Draw(t, "dur") {
					v = time.Second
					wantPanic = wantPanic || (*d.unit != units.Second && *d.unit != units.Millisecond)
				}
				panicked, _ := vh.Panics(func() { d.add(v) })
				if panicked != wantPanic {
					u := "no unit"
					if d.unit != nil {
						u = string(*d.unit)
					}
					t.Fatalf("adding %v to dist%d (%s): panicked %v, want %v", v, i, u, panicked, wantPanic)
				}
				if !panicked {
					d.n++
				}
			},
			"": func(t *rapid.T) {
				got := tricorder.ReadMyMetrics("/vp")
				seen := map[string]bool{}
				for _, g := range got {
					e, ok := metrics[g.Path]
					if !ok {
						t.Fatalf("%s is reported but was never registered", g.Path)
					}
					if seen[g.Path] {
						t.Fatalf("%s reported twice", g.Path)
					}
					seen[g.Path] = true
					if g.Kind != e.kind || g.Unit != e.unit {
						t.Fatalf("%s reported as %v in %v, registered as %v in %v", g.Path, g.Kind, g.Unit, e.kind, e.unit)
					}
				}
				for p := range metrics {
					if !seen[p] {
						t.Fatalf("%s is registered but not reported", p)
					}
				}
				for _, a := range []string{"/vp", "/vp/a", "/vp/b", "/vp/c", "/vp/d", "/vp/a/a", "/vp/a/b", "/vp/b/a", "/vp/b/b", "/vp/c/a", "/vp/c/d", "/vp/d/d", "/vp/d/a", "/vp/a/c", "/vp/c/c"} {
					_, err := tricorder.GetDirectory(a)
					if (err == nil) != dirs[a] {
						t.Fatalf("directory %s: lookup error %v, should exist: %v", a, err, dirs[a])
					}
				}
			},
		})
		// what was registered never crashes a request
		for _, u := range []string{"/metricsapi/vp", "/metrics/vp", "/metrics/vp?format=text"} {
			if p, v := vh.Panics(func() { vh.Get(u) }); p {
				t.Fatalf("GET %s panicked: %v", u, v)
			}
		}
		vh.Case(strings.Join(log, "; "), ok > 0 && wrong > 0)
	})
}
