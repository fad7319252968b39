package c09

import (
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"testing"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "a case is a history of adds, updates, removals, refused operations, registrations and reads on 1 to 3 distributions (some sharing a bucketer), checked against multisets after every step; non-trivial if some distribution had at least 3 values and an update, a removal or a refused operation happened, or one was emptied and refilled; distinct by history")
}

type fnamed float64

func read(t *rapid.T, path string) *messages.Distribution {
	switch rapid.IntRange(0, 5).Draw(t, "via") {
	case 0:
		m, err := vh.RpcGet(path)
		vh.Must(t, err, "GetMetric")
		return m.Value.(*messages.Distribution)
	case 1:
		l, err := vh.RestList(path)
		vh.Must(t, err, "REST")
		var d messages.Distribution
		vh.Must(t, json.Unmarshal(l[0].Value, &d), "REST value")
		return &d
	default:
		l := tricorder.ReadMyMetrics(path)
		if len(l) != 1 {
			t.Fatalf("%d metrics at %s", len(l), path)
		}
		return l[0].Value.(*messages.Distribution)
	}
}

func TestHistories(t *testing.T) {
	vh.Steps(25, 60)
	vh.Check(t, 24000, 120000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		inexact := rapid.Bool().Draw(t, "inexact")
		var ds []*vh.Dist
		paths := map[*vh.Dist][]string{}
		n := rapid.IntRange(1, 3).Draw(t, "dists")
		var log []string
		say := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
		for i := 0; i < n; i++ {
			var b *vh.Buck
			if i > 0 && rapid.Bool().Draw(t, "share") {
				b = ds[0].Buck
			} else {
				b = vh.NewBuck(t)
			}
			d := vh.NewDist(t, b, fmt.Sprintf("d%d", i))
			ds = append(ds, d)
			say("%s=%s cum=%v", d.Name, b.Desc, d.Cum != nil)
		}
		big, special, refill := false, false, false
		type kept struct {
			m    *messages.Distribution
			show string
		}
		var old []kept
		check := func() {
			// all of them in one answer
			if rapid.IntRange(0, 2).Draw(t, "together") == 0 {
				byPath := map[string]*messages.Distribution{}
				l := tricorder.ReadMyMetrics("/vp")
				if rapid.IntRange(0, 3).Draw(t, "rpc") == 0 {
					var err error
					l, err = vh.RpcList("/vp")
					vh.Must(t, err, "ListMetrics")
				}
				for _, m := range l {
					byPath[m.Path] = m.Value.(*messages.Distribution)
				}
				for _, d := range ds {
					for _, p := range paths[d] {
						m := byPath[p]
						if m == nil {
							t.Fatalf("%s is not at %s\nhistory: %s", d.Name, p, strings.Join(log, "; "))
						}
						if wrong := d.Verify(m); wrong != "" {
							t.Fatalf("%s at %s in an answer with others: %s\nhistory: %s", d.Name, p, wrong, strings.Join(log, "; "))
						}
						if len(old) < 8 {
							old = append(old, kept{m, vh.ShowDist(m)})
						}
					}
				}
			}
			for _, k := range old {
				if now := vh.ShowDist(k.m); now != k.show {
					t.Fatalf("an answer given before changed from %s to %s\nhistory: %s", k.show, now, strings.Join(log, "; "))
				}
			}
			for _, d := range ds {
				if !d.Set {
					continue
				}
				for _, p := range paths[d] {
					if wrong := d.Verify(read(t, p)); wrong != "" {
						t.Fatalf("%s at %s: %s\nhistory: %s", d.Name, p, wrong, strings.Join(log, "; "))
					}
				}
				if d.Non != nil {
					if int(d.Non.Count()) != len(d.Held) {
						t.Fatalf("%s: Count() %d, holds %d\nhistory: %s", d.Name, d.Non.Count(), len(d.Held), strings.Join(log, "; "))
					}
					sum, tol := 0.0, 0.0
					for _, h := range d.Held {
						sum += h.F
					}
					if !d.Exact {
						tol = 1e-12 * d.Abs
					}
					if math.Abs(d.Non.Sum()-sum) > tol {
						t.Fatalf("%s: Sum() %v, values add up to %v\nhistory: %s", d.Name, d.Non.Sum(), sum, strings.Join(log, "; "))
					}
				}
			}
		}
		pick := func(t *rapid.T) *vh.Dist { return rapid.SampledFrom(ds).Draw(t, "dist") }
		refuse := func(d *vh.Dist, what string, f func()) {
			say("%s refused %s", d.Name, what)
			if did, _ := vh.Panics(f); !did {
				t.Fatalf("%s: %s did not panic\nhistory: %s", d.Name, what, strings.Join(log, "; "))
			}
			special = true
		}
		t.Repeat(map[string]func(*rapid.T){
			"": func(t *rapid.T) { check() },
			"register": func(t *rapid.T) {
				d := pick(t)
				if len(paths[d]) >= 2 {
					t.Skip()
				}
				u := d.Unit
				if !d.Set {
					u = rapid.SampledFrom([]units.Unit{units.None, units.Second, units.Second, units.Millisecond, units.Millisecond, units.Byte, units.Unknown, units.BytePerSecond, units.Celsius, "Fortnights"}).Draw(t, "unit")
				}
				p := fmt.Sprintf("/vp/%s_%d", d.Name, len(paths[d]))
				vh.Must(t, d.Register(p, u), "register")
				paths[d] = append(paths[d], p)
				say("%s at %s in %s", d.Name, p, u)
			},
			"add": func(t *rapid.T) {
				d := pick(t)
				if !d.Set {
					t.Skip()
				}
				if len(d.Held) == 0 && d.Emptied {
					refill = true
				}
				for k := rapid.IntRange(1, 4).Draw(t, "times"); k > 0; k-- {
					h, ex := d.Value(t, inexact)
					m := 1
					if rapid.IntRange(0, 39).Draw(t, "lots") == 39 {
						m = rapid.IntRange(2, 700).Draw(t, "m")
					}
					say("%s+%s x%d", d.Name, vh.Show(h.Given), m)
					for ; m > 0; m-- {
						d.Add(h, ex)
					}
				}
				big = big || len(d.Held) >= 3
			},
			"update": func(t *rapid.T) {
				d := pick(t)
				if d.Non == nil || len(d.Held) == 0 {
					t.Skip()
				}
				i := rapid.IntRange(0, len(d.Held)-1).Draw(t, "which")
				h, ex := d.Value(t, inexact)
				say("%s:%s->%s", d.Name, vh.Show(d.Held[i].Given), vh.Show(h.Given))
				d.Update(i, h, ex)
				special = true
			},
			"remove": func(t *rapid.T) {
				d := pick(t)
				if d.Non == nil || len(d.Held) == 0 {
					t.Skip()
				}
				n := rapid.SampledFrom([]int{1, 1, 1, len(d.Held)}).Draw(t, "many")
				for ; n > 30; n-- {
					d.Remove(len(d.Held) - 1)
				}
				for ; n > 0; n-- {
					i := rapid.IntRange(0, len(d.Held)-1).Draw(t, "which")
					say("%s-%s", d.Name, vh.Show(d.Held[i].Given))
					d.Remove(i)
				}
				special = true
			},
			"minmax": func(t *rapid.T) {
				d := pick(t)
				if d.Non == nil || !d.Set {
					t.Skip()
				}
				say("%s minmax", d.Name)
				d.Non.UpdateMinMax()
				d.Loose = true
			},
			"refused": func(t *rapid.T) {
				d := pick(t)
				ok := interface{}(1.0)
				if len(d.Held) > 0 {
					ok = d.Held[0].Given
				}
				var bad interface{}
				if !d.Set {
					bad = rapid.SampledFrom([]interface{}{1.0, float32(2), time.Second}).Draw(t, "bad")
				} else {
					pool := []interface{}{1, int64(3), "x", nil, fnamed(2), true, uint8(1), new(float64), struct{}{}}
					if d.Unit != units.Second && d.Unit != units.Millisecond {
						pool = append(pool, time.Second, time.Duration(0), time.Millisecond)
					}
					bad = rapid.SampledFrom(pool).Draw(t, "bad")
					if d.Unit != units.Second && d.Unit != units.Millisecond && rapid.Bool().Draw(t, "duration") {
						bad = time.Second
					}
				}
				if d.Cum != nil {
					refuse(d, fmt.Sprintf("add %T", bad), func() { d.Cum.Add(bad) })
					return
				}
				switch rapid.IntRange(0, 3).Draw(t, "op") {
				case 0:
					refuse(d, fmt.Sprintf("add %T", bad), func() { d.Non.Add(bad) })
				case 1:
					refuse(d, fmt.Sprintf("update %T to it", bad), func() { d.Non.Update(ok, bad) })
				case 2:
					refuse(d, fmt.Sprintf("update it to %T", bad), func() { d.Non.Update(bad, ok) })
				default:
					refuse(d, fmt.Sprintf("remove %T", bad), func() { d.Non.Remove(bad) })
				}
			},
			"read": func(t *rapid.T) { check(); check() },
		})
		check()
		s := strings.Join(log, "; ")
		var labels []string
		if refill {
			labels = append(labels, "emptied and refilled")
		}
		vh.Case(s, big && special || refill, labels...)
	})
}

// Durations next to bucket limits: one nanosecond decides the bucket.
func TestDurations(t *testing.T) {
	vh.Check(t, 16000, 200000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		b := vh.NewBuck(t)
		d := b.B.NewNonCumulativeDistribution()
		u := rapid.SampledFrom([]units.Unit{units.Second, units.Millisecond}).Draw(t, "unit")
		per := time.Second
		if u == units.Millisecond {
			per = time.Millisecond
		}
		vh.Must(t, tricorder.RegisterMetric("/vp/d", d, u, ""), "register")
		counts := make([]uint64, len(b.Ends)+1)
		sum, abs := 0.0, 0.0
		var desc []string
		n := rapid.IntRange(1, 6).Draw(t, "n")
		for k := 0; k < n; k++ {
			i := rapid.IntRange(0, len(b.Ends)-1).Draw(t, "end")
			off := rapid.Int64Range(-2, 2).Draw(t, "off")
			e := b.Ends[i] * float64(per)
			if e != math.Trunc(e) || math.Abs(e) > 1e15 {
				continue
			}
			v := time.Duration(int64(e) + off)
			d.Add(v)
			// the bucket is decided in exact integers
			j := 0
			for j < len(b.Ends) && float64(v) >= b.Ends[j]*float64(per) {
				j++
			}
			counts[j]++
			sum += float64(v) / float64(per)
			abs += math.Abs(float64(v) / float64(per))
			desc = append(desc, fmt.Sprint(int64(v)))
		}
		m := tricorder.ReadMyMetrics("/vp/d")[0].Value.(*messages.Distribution)
		for j, r := range m.Ranges {
			if r.Count != counts[j] {
				t.Fatalf("%s in %s: %v ns: bucket %d [%v,%v) has %d, holds %d", b.Desc, u, desc, j, r.Lower, r.Upper, r.Count, counts[j])
			}
		}
		if math.Abs(m.Sum-sum) > 1e-12*abs {
			t.Fatalf("%s in %s: %v ns: sum %v, want %v", b.Desc, u, desc, m.Sum, sum)
		}
		vh.Case(fmt.Sprintf("dur %s %s %v", b.Desc, u, desc), len(desc) > 0)
	})
}

// Many values: counts at the limits of smaller integers.
func TestBulk(t *testing.T) {
	vh.Check(t, 40, 400, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		b := vh.NewBuck(t)
		d := vh.NewDist(t, b, "d")
		vh.Must(t, d.Register("/vp/d", units.None), "register")
		n := rapid.OneOf(rapid.SampledFrom([]int{127, 128, 255, 256, 257, 32768, 65535, 65536, 65537, 100000}), rapid.IntRange(1000, 70000)).Draw(t, "n")
		if wrong := d.Verify(read(t, "/vp/d")); wrong != "" {
			t.Fatalf("new %s: %s", b.Desc, wrong)
		}
		var vals []vh.Held
		for k := rapid.IntRange(1, 4).Draw(t, "distinct"); k > 0; k-- {
			h, _ := d.Value(t, false)
			vals = append(vals, h)
		}
		for i := 0; i < n; i++ {
			d.Add(vals[i%len(vals)], true)
		}
		if wrong := d.Verify(read(t, "/vp/d")); wrong != "" {
			t.Fatalf("after %d adds of %v to %s: %s", n, vals, b.Desc, wrong)
		}
		if d.Non != nil && rapid.Bool().Draw(t, "updates") {
			for i := 0; i < n; i++ {
				d.Update(i*7%n, vals[(i/3+1)%len(vals)], true)
			}
			if wrong := d.Verify(read(t, "/vp/d")); wrong != "" {
				t.Fatalf("after %d adds of %v to %s and as many updates: %s", n, vals, b.Desc, wrong)
			}
		}
		if d.Non != nil {
			for k := rapid.SampledFrom([]int{1, n - 1, n}).Draw(t, "remove"); k > 0; k-- {
				d.Remove(len(d.Held) - 1)
			}
			if wrong := d.Verify(read(t, "/vp/d")); wrong != "" {
				t.Fatalf("after %d adds of %v to %s and removals down to %d: %s", n, vals, b.Desc, len(d.Held), wrong)
			}
		}
		vh.Label("bulk")
		vh.Case(fmt.Sprint("bulk ", n, vals, b.Desc), true)
	})
}
