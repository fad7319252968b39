package c11

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "a case is a history of adds, updates and removals on one distribution over a generated bucketer; after every step the reported median is compared with the interval the sorted data and the reported ranges allow; non-trivial if at some point at least 3 values spread over at least 2 buckets were held; distinct by history")
}

func limits(m *messages.Distribution, b int) (lo, hi float64) {
	lo, hi = m.Min, m.Max
	if b > 0 {
		lo = math.Max(lo, m.Ranges[b].Lower)
	}
	if b < len(m.Ranges)-1 {
		hi = math.Min(hi, m.Ranges[b].Upper)
	}
	return
}

// check returns what is wrong.
func check(m *messages.Distribution, b *vh.Buck, data []float64, abs float64) string {
	n := len(data)
	if n == 0 {
		return ""
	}
	size := math.Max(math.Abs(m.Min), math.Abs(m.Max))
	eps := 1e-9*size + 1e-12*abs + 1e-300 // rounding, also of the running sum
	if math.IsInf(m.Median, 0) || !(m.Median >= m.Min-eps && m.Median <= m.Max+eps) {
		return fmt.Sprintf("median %v outside min %v and max %v", m.Median, m.Min, m.Max)
	}
	switch {
	case n <= 2:
		want := data[0]/2 + data[n-1]/2
		if math.Abs(m.Median-want) > eps {
			return fmt.Sprintf("median %v of %v", m.Median, data)
		}
	case n%2 == 1:
		lo, hi := limits(m, b.Bucket(data[n/2]))
		if m.Median < lo-eps || m.Median > hi+eps {
			return fmt.Sprintf("median %v outside %v..%v, the bucket of the middle value %v of %v", m.Median, lo, hi, data[n/2], data)
		}
	default:
		lo1, hi1 := limits(m, b.Bucket(data[n/2-1]))
		lo2, hi2 := limits(m, b.Bucket(data[n/2]))
		lo, hi := lo1/2+lo2/2, hi1/2+hi2/2
		if m.Median < lo-eps || m.Median > hi+eps {
			return fmt.Sprintf("median %v outside %v..%v, the buckets of the middle values %v, %v of %v", m.Median, lo, hi, data[n/2-1], data[n/2], data)
		}
	}
	return ""
}

func TestMedian(t *testing.T) {
	vh.Steps(30, 60)
	vh.Check(t, 24000, 160000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		b := vh.NewBuck(t)
		d := vh.NewDist(t, b, "d")
		vh.Must(t, d.Register("/vp/d", rapid.SampledFrom([]units.Unit{units.None, units.Second, units.Millisecond}).Draw(t, "unit")), "register")
		var log []string
		say := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
		rich := false
		small := rapid.Bool().Draw(t, "close")
		val := func(t *rapid.T) (vh.Held, bool) {
			if small { // stay within and around the bounded buckets
				lo, hi := b.Ends[0], b.Ends[len(b.Ends)-1]
				f := math.Floor(64*(lo+(hi-lo+2)*float64(rapid.IntRange(-5, 105).Draw(t, "pos"))/100)) / 64
				return vh.Held{Given: f, F: f}, true
			}
			return d.Value(t, true)
		}
		t.Repeat(map[string]func(*rapid.T){
			"": func(t *rapid.T) {
				m := tricorder.ReadMyMetrics("/vp/d")[0].Value.(*messages.Distribution)
				if wrong := check(m, b, d.Sorted(), d.Abs); wrong != "" {
					t.Fatalf("%s: %s\nhistory: %s", b.Desc, wrong, strings.Join(log, "; "))
				}
				if len(d.Held) >= 3 {
					used := 0
					for _, r := range m.Ranges {
						if r.Count > 0 {
							used++
						}
					}
					rich = rich || used >= 2
				}
			},
			"add": func(t *rapid.T) {
				for k := rapid.IntRange(1, 3).Draw(t, "times"); k > 0; k-- {
					h, ex := val(t)
					say("+%v", h.F)
					d.Add(h, ex)
				}
			},
			"same": func(t *rapid.T) { // a value already held, again
				if len(d.Held) == 0 {
					t.Skip()
				}
				h := rapid.SampledFrom(d.Held).Draw(t, "held")
				say("+%v", h.F)
				d.Add(h, true)
			},
			"update": func(t *rapid.T) {
				if d.Non == nil || len(d.Held) == 0 {
					t.Skip()
				}
				i := rapid.IntRange(0, len(d.Held)-1).Draw(t, "which")
				h, ex := val(t)
				say("%v->%v", d.Held[i].F, h.F)
				d.Update(i, h, ex)
			},
			"remove": func(t *rapid.T) {
				if d.Non == nil || len(d.Held) == 0 {
					t.Skip()
				}
				i := rapid.IntRange(0, len(d.Held)-1).Draw(t, "which")
				say("-%v", d.Held[i].F)
				d.Remove(i)
			},
		})
		vh.Case(b.Desc+": "+strings.Join(log, " "), rich)
	})
}

// Many values: thousands spread over the buckets.
func TestManyValues(t *testing.T) {
	vh.Check(t, 1000, 8000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		b := vh.NewBuck(t)
		d := b.B.NewCumulativeDistribution()
		vh.Must(t, tricorder.RegisterMetric("/vp/d", d, units.None, ""), "register")
		lo, hi := b.Ends[0], b.Ends[len(b.Ends)-1]
		n := rapid.IntRange(3, 3000).Draw(t, "n")
		seed := rapid.Uint64().Draw(t, "seed")
		skew := rapid.SampledFrom([]float64{0.2, 1, 5}).Draw(t, "skew")
		model := &vh.Dist{Buck: b}
		for i := 0; i < n; i++ {
			seed = seed*6364136223846793005 + 1442695040888963407
			u := math.Pow(float64(seed>>11)/(1<<53), skew)
			f := lo - 1 + (hi-lo+2)*u
			d.Add(f)
			model.Held = append(model.Held, vh.Held{Given: f, F: f})
		}
		m := tricorder.ReadMyMetrics("/vp/d")[0].Value.(*messages.Distribution)
		if wrong := check(m, b, model.Sorted(), 0); wrong != "" {
			t.Fatalf("%s: %s", b.Desc, wrong)
		}
		vh.Case(fmt.Sprint("many ", b.Desc, n, seed, skew), true)
	})
}

// Two heaps of values far apart, as large or nearly as large as each other.
func TestHeaps(t *testing.T) {
	vh.Check(t, 1500, 12000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		b := vh.NewBuck(t)
		d := b.B.NewNonCumulativeDistribution()
		vh.Must(t, tricorder.RegisterMetric("/vp/d", d, units.None, ""), "register")
		lo, hi := b.Ends[0], b.Ends[len(b.Ends)-1]
		n := rapid.IntRange(1, 1500).Draw(t, "n")
		m := max(0, n+rapid.SampledFrom([]int{0, 0, 1, -1, 2, -2, 3}).Draw(t, "more"))
		low := lo - float64(rapid.IntRange(1, 3).Draw(t, "below"))
		high := hi + float64(rapid.IntRange(1, 3).Draw(t, "above"))
		model := &vh.Dist{Buck: b}
		put := func(f float64) {
			d.Add(f)
			model.Held = append(model.Held, vh.Held{Given: f, F: f})
		}
		for i := 0; i < max(n, m); i++ {
			if i < n {
				put(low)
			}
			if i < m {
				put(high)
			}
		}
		x := tricorder.ReadMyMetrics("/vp/d")[0].Value.(*messages.Distribution)
		if wrong := check(x, b, model.Sorted(), 0); wrong != "" {
			t.Fatalf("%s: %d times %v, %d times %v: %s", b.Desc, n, low, m, high, wrong[:min(len(wrong), 200)])
		}
		vh.Case(fmt.Sprint("heaps ", b.Desc, n, m, low, high), n+m > 2)
	})
}

// Values near the limits of a double, with a finite sum.
func TestHuge(t *testing.T) {
	vh.Check(t, 4000, 40000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		set := map[float64]bool{}
		for i := rapid.IntRange(1, 4).Draw(t, "ends"); i > 0; i-- {
			set[rapid.OneOf(rapid.Float64(), rapid.Float64Range(-1e308, 1e308)).Draw(t, "end")] = true
		}
		b := &vh.Buck{}
		for e := range set {
			b.Ends = append(b.Ends, e)
		}
		sort.Float64s(b.Ends)
		b.B = tricorder.NewArbitraryBucketer(b.Ends...)
		b.Desc = fmt.Sprintf("arbitrary%v", b.Ends)
		d := b.B.NewCumulativeDistribution()
		vh.Must(t, tricorder.RegisterMetric("/vp/d", d, units.None, ""), "register")
		model := &vh.Dist{Buck: b}
		sum := 0.0
		// one limit first leaves room for several large values of the other sign
		sign := float64(rapid.IntRange(-1, 1).Draw(t, "sign"))
		for i, n := 0, rapid.IntRange(1, 12).Draw(t, "n"); i < n; i++ {
			f := rapid.OneOf(rapid.Float64Range(-math.MaxFloat64/2, math.MaxFloat64/2), rapid.Float64(),
				rapid.SampledFrom([]float64{math.MaxFloat64, -math.MaxFloat64, 1e308, -1e308, 9e307})).Draw(t, "value")
			if sign != 0 && i == 0 {
				f = -sign * math.MaxFloat64
			} else if sign != 0 && i < 4 {
				f = sign * math.MaxFloat64 * rapid.Float64Range(0.4, 0.66).Draw(t, "part")
			}
			if math.IsInf(sum+f, 0) {
				f = -f
			}
			sum += f
			d.Add(f)
			model.Held = append(model.Held, vh.Held{Given: f, F: f})
		}
		x := tricorder.ReadMyMetrics("/vp/d")[0].Value.(*messages.Distribution)
		if wrong := check(x, b, model.Sorted(), math.MaxFloat64); wrong != "" {
			t.Fatalf("%s: %s", b.Desc, wrong)
		}
		vh.Case(fmt.Sprint("huge ", b.Desc, model.Sorted()), len(model.Held) > 2)
	})
}
