package c19

import (
	"encoding/json"
	"flag"
	"fmt"
	"net/netip"
	"sort"
	"strings"
	"testing"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "a case is a generated command line of up to 8 flags of standard and custom types with generated names, usages and units, registered, set to generated values (valid or not) and registered again, also with further flags; non-trivial if a flag is set after registration; distinct by flags and sets")
}

// A custom flag without getter.
type plain struct{ s string }

func (p *plain) String() string     { return p.s }
func (p *plain) Set(s string) error { p.s = s + "!"; return nil }

// A custom flag with a getter whose type the harness chooses.
type getter struct {
	plain
	odd  interface{} // used instead, if isOdd
	isOd bool
}

func (g *getter) Get() interface{} {
	if g.isOd {
		return g.odd
	}
	return g.s
}

type point struct{ X, Y int }

var oddities = []interface{}{nil, []string{"a", "b"}, []int(nil), point{1, 2}, &point{3, 4}, map[string]int{"a": 1},
	complex(1, 2), (*int)(nil), func() int { return 1 }, error(nil), [2]int{1, 2}, struct{}{}}

type expect struct {
	name  string
	usage string
	unit  units.Unit
	kind  types.Type
	bits  int
	get   func() interface{} // current value as it has to be reported
	how   string
}

var serial int

func TestFlags(t *testing.T) {
	vh.Check(t, 4000, 40000, func(t *rapid.T) {
		orig := flag.CommandLine
		defer func() { flag.CommandLine = orig }()
		tricorder.UnregisterPath("/proc/flags")
		defer tricorder.UnregisterPath("/proc/flags")
		fs := flag.NewFlagSet("prog", flag.ContinueOnError)
		fs.SetOutput(new(strings.Builder))
		fs.Parse(nil)
		flag.CommandLine = fs
		// units set for a name stay for ever, so each case has its own names
		serial++
		prefix := fmt.Sprintf("c%d-", serial)
		var want []*expect
		registered := map[string]bool{}
		setUnit := map[string]units.Unit{}
		var log []string
		note := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }

		define := func(t *rapid.T) {
			tail := rapid.OneOf(
				rapid.SampledFrom([]string{"", "a", "b", "port", "log.level", "UPPER", "x y", "é", "a-b", "a_b", "a:b", "日本", "..", "a%2Fb", "a&b", "<b>", "\"q\""}),
				rapid.StringMatching(`[a-zA-Z0-9_.-]{1,8}`)).Draw(t, "name")
			e := &expect{name: prefix + tail, usage: vh.Text(t, "usage"), unit: units.None}
			plainName := rapid.IntRange(0, 5).Draw(t, "plain") == 0
			if plainName { // no unit is ever set for these
				e.name = rapid.SampledFrom([]string{"v", "h", "_x", "_", "help", "version", "test.v", "vv", "log_dir", "logtostderr", "1", "A"}).Draw(t, "plain name")
			}
			if fs.Lookup(e.name) != nil {
				return
			}
			if !plainName && rapid.IntRange(0, 3).Draw(t, "setunit") == 0 {
				u := vh.Unit(t)
				tricorder.SetFlagUnit(e.name, u)
				setUnit[e.name] = u
			}
			e.how = rapid.SampledFrom([]string{"bool", "int", "int64", "uint", "uint64", "float64", "string", "duration",
				"func", "boolfunc", "textvar", "plain", "getter", "getter", "getter", "odd", "odd"}).Draw(t, "type")
			switch e.how {
			case "bool":
				p := fs.Bool(e.name, rapid.Bool().Draw(t, "v"), e.usage)
				e.kind, e.get = types.Bool, func() interface{} { return *p }
			case "int":
				p := fs.Int(e.name, int(vh.Int64(t, 64, "v")), e.usage)
				e.kind, e.bits, e.get = types.Int64, 64, func() interface{} { return int64(*p) }
			case "int64":
				p := fs.Int64(e.name, vh.Int64(t, 64, "v"), e.usage)
				e.kind, e.bits, e.get = types.Int64, 64, func() interface{} { return *p }
			case "uint":
				p := fs.Uint(e.name, uint(vh.Uint64(t, 64, "v")), e.usage)
				e.kind, e.bits, e.get = types.Uint64, 64, func() interface{} { return uint64(*p) }
			case "uint64":
				p := fs.Uint64(e.name, vh.Uint64(t, 64, "v"), e.usage)
				e.kind, e.bits, e.get = types.Uint64, 64, func() interface{} { return *p }
			case "float64":
				p := fs.Float64(e.name, vh.Float(t, 64, "v"), e.usage)
				e.kind, e.bits, e.get = types.Float64, 64, func() interface{} { return *p }
			case "string":
				p := fs.String(e.name, vh.Text(t, "v"), e.usage)
				e.kind, e.get = types.String, func() interface{} { return *p }
			case "duration":
				p := fs.Duration(e.name, vh.Dur(t, "v"), e.usage)
				e.kind, e.unit, e.get = types.GoDuration, units.Second, func() interface{} { return *p }
			case "func":
				fs.Func(e.name, e.usage, func(string) error { return nil })
				e.kind, e.get = types.String, func() interface{} { return "" }
			case "boolfunc":
				fs.BoolFunc(e.name, e.usage, func(string) error { return nil })
				e.kind, e.get = types.String, func() interface{} { return "" }
			case "textvar":
				p := new(netip.Addr)
				fs.TextVar(p, e.name, netip.MustParseAddr("1.2.3.4"), e.usage)
				e.kind, e.get = types.String, func() interface{} { b, _ := p.MarshalText(); return string(b) }
			case "plain":
				p := &plain{vh.Text(t, "v")}
				fs.Var(p, e.name, e.usage)
				e.kind, e.get = types.String, func() interface{} { return p.s }
			case "getter":
				g := rapid.SampledFrom(vh.GoTypes).Draw(t, "go type")
				c := vh.NewCell(g)
				c.Set(vh.Value(t, g, false, "v"))
				x := &getter{}
				x.s = "string form"
				f := &live{getter: x, c: c}
				fs.Var(f, e.name, e.usage)
				e.kind, e.bits = g.Kind, g.Bits
				if g.Kind == types.GoDuration {
					e.unit = units.Second
				}
				e.how += " " + g.Name
				e.get = func() interface{} { return c.Get() }
			case "odd":
				x := &getter{isOd: true, odd: rapid.SampledFrom(oddities).Draw(t, "odd")}
				x.s = vh.Text(t, "v")
				fs.Var(x, e.name, e.usage)
				e.kind, e.get = types.String, func() interface{} { return x.s }
				e.how += fmt.Sprintf(" %T", x.odd)
			}
			if u, ok := setUnit[e.name]; ok {
				e.unit = u
			}
			want = append(want, e)
			note("%s %q [%s]", e.how, e.name, e.unit)
		}
		check := func() {
			var exp []*expect
			for _, e := range want {
				if registered[e.name] {
					exp = append(exp, e)
				}
			}
			sort.Slice(exp, func(i, j int) bool { return exp[i].name < exp[j].name })
			var shown []*expect
			for _, e := range exp {
				if !(e.kind.IsFloat() && vh.NonFinite(e.get())) {
					shown = append(shown, e)
				}
			}
			compare := func(how string, l messages.MetricList) {
				if len(l) != len(shown) {
					var p []string
					for _, m := range l {
						p = append(p, m.Path)
					}
					t.Fatalf("%s lists %q, want %d flags; after %s", how, p, len(shown), strings.Join(log, "; "))
				}
				for i, e := range shown {
					m := l[i]
					if m.Path != "/proc/flags/"+e.name || m.Description != e.usage || m.Unit != e.unit || m.Kind != e.kind || m.Bits != e.kind.Bits() {
						t.Fatalf("%s reports %+v, want %s %q [%s] %q; after %s", how, *m, e.how, e.name, e.unit, e.usage, strings.Join(log, "; "))
					}
					if !vh.Equal(m.Value, e.get()) {
						t.Fatalf("%s reports %s for %s %q, its value is %s; after %s", how, vh.Show(m.Value), e.how, e.name, vh.Show(e.get()), strings.Join(log, "; "))
					}
				}
			}
			compare("ReadMyMetrics", tricorder.ReadMyMetrics("/proc/flags"))
			switch rapid.IntRange(0, 3).Draw(t, "also") {
			case 0:
				l, err := vh.RpcList("/proc/flags")
				vh.Must(t, err, "rpc")
				compare("RPC", l)
			case 1:
				l, err := vh.RestList("/proc/flags")
				vh.Must(t, err, "rest")
				if len(l) != len(shown) {
					t.Fatalf("REST lists %d flags, want %d", len(l), len(shown))
				}
				for i, e := range shown {
					if *l[i].Path != "/proc/flags/"+e.name || *l[i].Description != e.usage || l[i].Unit != string(e.unit) {
						t.Fatalf("REST reports %s %q, want %q %q", *l[i].Path, *l[i].Description, e.name, e.usage)
					}
					if e.kind == types.String {
						var s string
						if json.Unmarshal(l[i].Value, &s) != nil || s != e.get() {
							t.Fatalf("REST reports %s for %q, want %q", l[i].Value, e.name, e.get())
						}
					}
				}
			case 2:
				if len(shown) > 0 {
					e := rapid.SampledFrom(shown).Draw(t, "one")
					m := tricorder.ReadMyMetrics("/proc/flags/" + e.name)
					if len(m) != 1 || !vh.Equal(m[0].Value, e.get()) {
						t.Fatalf("ReadMyMetrics of %q reports %v", e.name, m)
					}
				}
			}
		}
		register := func() {
			if did, v := vh.Panics(tricorder.RegisterFlags); did {
				t.Fatalf("RegisterFlags panicked: %v; after %s", v, strings.Join(log, "; "))
			}
			for _, e := range want {
				registered[e.name] = true
			}
			note("register")
			check()
		}
		few := rapid.IntRange(0, 8).Draw(t, "flags")
		for i := few; i > 0; i-- {
			define(t)
		}
		if rapid.IntRange(0, 79).Draw(t, "many") == 79 {
			for i := rapid.IntRange(20, rapid.SampledFrom([]int{100, 600}).Draw(t, "most")).Draw(t, "how many"); i > 0; i-- {
				n := i * 7919
				e := &expect{name: fmt.Sprint(prefix, "n", n), usage: fmt.Sprint("flag ", n), unit: units.None, how: "int"}
				p := fs.Int(e.name, n, e.usage)
				e.kind, e.bits, e.get = types.Int64, 64, func() interface{} { return int64(*p) }
				want = append(want, e)
			}
			note("many more, %d in all", len(want))
		}
		register()
		sets := 0
		t.Repeat(map[string]func(*rapid.T){
			"define": func(t *rapid.T) {
				if few > 12 {
					t.Skip("enough")
				}
				few++
				define(t)
			},
			"register": func(t *rapid.T) { register() },
			"set": func(t *rapid.T) {
				if len(want) == 0 {
					t.Skip("no flag")
				}
				e := rapid.SampledFrom(want).Draw(t, "flag")
				v := rapid.OneOf(
					rapid.SampledFrom([]string{"1", "0", "-5", "true", "false", "1h2m", "3.25", "abc", "", "-1ns", "18446744073709551615", "10.0.0.1", "NaN", "Inf", "0x10"}),
					rapid.Custom(func(t *rapid.T) string { return vh.Text(t, "s") })).Draw(t, "value")
				cur = t
				err := flag.Set(e.name, v)
				note("set %q to %q: %v", e.name, v, err)
				if registered[e.name] {
					sets++
				}
			},
			"unit too late": func(t *rapid.T) {
				var done []*expect
				for _, e := range want {
					if registered[e.name] && strings.HasPrefix(e.name, prefix) {
						done = append(done, e)
					}
				}
				if len(done) == 0 {
					t.Skip("none")
				}
				// the unit set beforehand stays
				e := rapid.SampledFrom(done).Draw(t, "flag")
				tricorder.SetFlagUnit(e.name, vh.Unit(t))
				note("late unit for %q", e.name)
			},
			"": func(t *rapid.T) { check() },
		})
		for _, e := range want {
			vh.Label(e.how)
		}
		vh.Case(strings.ReplaceAll(strings.Join(log, "; "), prefix, ""), sets > 0)
	})
}

var cur *rapid.T

// live is a getter whose Set draws a new value.
type live struct {
	*getter
	c *vh.Cell
}

func (l *live) Get() interface{} { return l.c.Raw() }
func (l *live) Set(s string) error {
	if s == "" && l.c.G.Ptr {
		l.c.SetNil()
		return nil
	}
	l.c.Set(vh.Value(cur, l.c.G, true, "new"))
	return nil
}
