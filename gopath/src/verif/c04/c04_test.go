package c04

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "a case is 1 to 10 generated metrics of any supported Go type (pointer, callback, list, distribution), read in process and over the RPC wire, changed, and read again several times; non-trivial if some metric is of a type other than plain int64/string/float64 and its value changed between reads; distinct by metrics and values")
}

var group = tricorder.NewGroup()

func check(t *rapid.T, it *vh.Item, m *messages.Metric, ts time.Time, how string) {
	t.Helper()
	if m.Path != it.Path || m.Description != it.Desc || string(m.Unit) != vh.UnitName(it.Unit) || string(m.Kind) != vh.KindName(it.Kind) || string(m.SubType) != vh.KindName(it.Sub) || m.Bits != it.Bits {
		t.Fatalf("%s of %s: path %q description %q unit %q kind %q subtype %q bits %d", how, it, m.Path, m.Description, m.Unit, m.Kind, m.SubType, m.Bits)
	}
	got, ok := m.TimeStamp.(time.Time)
	if !ok {
		t.Fatalf("%s of %s: timestamp is a %T", how, it, m.TimeStamp)
	}
	if it.How == "dist" {
		if _, ok := m.Value.(*messages.Distribution); !ok {
			t.Fatalf("%s of %s: value is a %T", how, it, m.Value)
		}
		return
	}
	want := it.Value()
	if !vh.Equal(m.Value, want) {
		t.Fatalf("%s of %s: value %s, want %s", how, it, vh.Show(m.Value), vh.Show(want))
	}
	if it.How != "list" && !got.Equal(ts) {
		t.Fatalf("%s of %s: timestamp %v, want %v", how, it, got, ts)
	}
	k, s := types.FromGoValueWithSubType(m.Value)
	if k != m.Kind || s != m.SubType {
		t.Fatalf("%s of %s: value of type %q/%q does not match kind %q/%q", how, it, k, s, m.Kind, m.SubType)
	}
}

func show(l messages.MetricList) string {
	var b strings.Builder
	for _, m := range l {
		b.WriteString(vh.ShowMetric(m) + "\n")
	}
	return b.String()
}

func identical(t *rapid.T, a, b *messages.Metric) {
	t.Helper()
	x, y := *a, *b
	if !x.TimeStamp.(time.Time).Equal(y.TimeStamp.(time.Time)) {
		t.Fatalf("%q: timestamp %v in process, %v on the wire", a.Path, x.TimeStamp, y.TimeStamp)
	}
	if dx, ok := x.Value.(*messages.Distribution); ok {
		if !vh.NonFinite(dx.Sum) && !vh.NonFinite(dx.Min) && !vh.NonFinite(dx.Max) && !vh.NonFinite(dx.Median) && !reflect.DeepEqual(x.Value, y.Value) {
			t.Fatalf("%q: distribution %+v in process, %+v on the wire", a.Path, x.Value, y.Value)
		}
	} else if !vh.Equal(x.Value, y.Value) {
		t.Fatalf("%q: value %s in process, %s on the wire", a.Path, vh.Show(x.Value), vh.Show(y.Value))
	}
	x.TimeStamp, y.TimeStamp, x.Value, y.Value = nil, nil, nil, nil
	if x != y {
		t.Fatalf("%q: %+v in process, %+v on the wire", a.Path, x, y)
	}
}

func TestValues(t *testing.T) {
	var ts time.Time
	group.RegisterUpdateFunc(func() time.Time { return ts })
	opts := &vh.PopOpts{Names: []string{"a", "b", "c", "d", "e", "f", "g"}, MaxItems: 10, NonFinite: true, ListNF: true, Text: vh.RawText}
	vh.Check(t, 12000, 120000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		ts = vh.Time(t, "ts")
		p := vh.Populate(t, group, opts)
		var log []string
		interesting, changed := false, false
		type answer struct {
			list messages.MetricList
			was  string
		}
		var old []answer
		for round := rapid.IntRange(1, 3).Draw(t, "rounds"); round >= 0; round-- {
			log = append(log, p.String())
			in := tricorder.ReadMyMetrics(vh.Base)
			old = append(old, answer{in, show(in)})
			wire, err := vh.RpcList(vh.Base)
			if err != nil {
				t.Fatalf("ListMetrics: %v", err)
			}
			var listed []*vh.Item
			for _, it := range p.Items {
				if !it.Omitted() {
					listed = append(listed, it)
				}
			}
			if len(in) != len(listed) || len(wire) != len(listed) {
				t.Fatalf("%d metrics in process, %d on the wire, want %d", len(in), len(wire), len(listed))
			}
			for i, it := range listed {
				check(t, it, in[i], ts, "in-process read")
				check(t, it, wire[i], ts, "RPC listing")
				identical(t, in[i], wire[i])
			}
			for _, it := range p.Items {
				if rapid.IntRange(0, 2).Draw(t, "get") == 0 {
					m, err := vh.RpcGet(it.Path)
					if err != nil {
						t.Fatalf("GetMetric(%s): %v", it, err)
					}
					check(t, it, m, ts, "RPC get")
				}
			}
			if round > 0 {
				ts = vh.Time(t, "ts")
				for _, it := range p.Items {
					if rapid.Bool().Draw(t, "change") {
						it.Mutate(t, opts)
						changed = true
						switch it.G.Name {
						case "int64", "string", "float64":
						default:
							interesting = true
						}
					}
				}
			}
		}
		for i, a := range old {
			if now := show(a.list); now != a.was {
				t.Fatalf("answer %d of ReadMyMetrics changed after it was returned:\nwas %s\nnow %s", i, a.was, now)
			}
		}
		vh.Case(strings.Join(log, " | "), changed && interesting)
	})
}

// Values read are those of the moment: a callback returning a new value on
// every call, a variable set by the update function.
func TestMoment(t *testing.T) {
	vh.Check(t, 5000, 40000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		g := tricorder.NewGroup()
		gt := rapid.SampledFrom(vh.GoTypes).Filter(func(g vh.GoType) bool { return !g.Ptr }).Draw(t, "type")
		cell := vh.NewCell(gt)
		var vals []interface{}
		for i := 0; i < 4; i++ {
			vals = append(vals, vh.Value(t, gt, false, "v"))
		}
		n := 0
		g.RegisterUpdateFunc(func() time.Time { cell.Set(vals[n%4]); return time.Unix(int64(n), 0) })
		vh.Must(t, vh.RegisterIn(t, g, "/vp/var", cell.Pointer(), vh.Unit(t), ""), "register")
		cb := vh.NewCell(gt)
		vh.Must(t, tricorder.RegisterMetric("/vp/cb", cb.Func(nil), vh.Unit(t), ""), "register")
		for ; n < 4; n++ {
			cb.Set(vals[3-n])
			var m, c *messages.Metric
			switch rapid.IntRange(0, 2).Draw(t, "how") {
			case 0:
				l := tricorder.ReadMyMetrics("/vp")
				if len(l) != 2 {
					t.Fatalf("%d metrics", len(l))
				}
				c, m = l[0], l[1]
			case 1:
				l, err := vh.RpcList("/vp")
				if err != nil || len(l) != 2 {
					t.Fatalf("%d metrics, %v", len(l), err)
				}
				c, m = l[0], l[1]
			default:
				var err error
				m, err = vh.RpcGet("/vp/var")
				vh.Must(t, err, "get")
				c, err = vh.RpcGet("/vp/cb")
				vh.Must(t, err, "get")
			}
			if !vh.Equal(m.Value, vals[n]) {
				t.Fatalf("%s variable reported as %s, has %s", gt.Name, vh.Show(m.Value), vh.Show(vals[n]))
			}
			if !vh.Equal(c.Value, vals[3-n]) {
				t.Fatalf("%s callback reported as %s, gives %s", gt.Name, vh.Show(c.Value), vh.Show(vals[3-n]))
			}
		}
		vh.Case(fmt.Sprintf("moment %s %v", gt.Name, vals), gt.Name != "int64")
	})
}

// Requests at the same time do not disturb each other.
func TestParallel(t *testing.T) {
	group := tricorder.NewGroup()
	group.RegisterUpdateFunc(func() time.Time { return time.Unix(1000, 5) })
	vh.Check(t, 250, 3000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		p := vh.Populate(t, group, &vh.PopOpts{MaxItems: 8, NonFinite: true, ListNF: true, Text: vh.RawText})
		if wrong := vh.Parallel(t, p.Requests("local", "rpc")); wrong != "" {
			t.Fatalf("%s", wrong)
		}
		vh.Case("parallel "+p.String(), len(p.Items) > 1)
	})
}

// Very many metrics, very long values.
func TestLarge(t *testing.T) {
	group := tricorder.NewGroup()
	ts := time.Unix(1000, 5)
	group.RegisterUpdateFunc(func() time.Time { return ts })
	vh.Check(t, 5, 30, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		p, what := vh.Large(t, group)
		in := tricorder.ReadMyMetrics(vh.Base)
		wire, err := vh.RpcList(vh.Base)
		if err != nil {
			t.Fatalf("ListMetrics: %v", err)
		}
		if len(in) != len(p.Items) || len(wire) != len(p.Items) {
			t.Fatalf("%d metrics in process, %d on the wire, want %d", len(in), len(wire), len(p.Items))
		}
		for i, it := range p.Items {
			check(t, it, in[i], ts, "in-process read")
			check(t, it, wire[i], ts, "RPC listing")
			identical(t, in[i], wire[i])
		}
		it := p.Items[0]
		m, err := vh.RpcGet(it.Path)
		if err != nil {
			t.Fatalf("GetMetric(%q): %v", it.Path, err)
		}
		check(t, it, m, ts, "RPC get")
		vh.Case(what, true)
	})
}
