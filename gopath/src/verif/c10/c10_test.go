package c10

import (
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "a case is one bucketer made from generated arguments (valid or outside the documented domain); the ranges a distribution over it reports are compared with the definition, and a value put at and on both sides of several endpoints must land in the documented bucket; non-trivial if the arguments are outside the domain or give at least 3 buckets; distinct by arguments")
}

// report makes a distribution and returns what is reported for it.
func report(t *rapid.T, b *tricorder.Bucketer, vals ...float64) *messages.Distribution {
	vh.Reset()
	defer vh.Reset()
	d := b.NewCumulativeDistribution()
	vh.Must(t, tricorder.RegisterMetric("/vp/d", d, units.None, ""), "register")
	for _, v := range vals {
		d.Add(v)
	}
	var l messages.MetricList
	if rapid.IntRange(0, 3).Draw(t, "via") == 0 {
		var err error
		l, err = vh.RpcList("/vp")
		vh.Must(t, err, "ListMetrics")
	} else {
		l = tricorder.ReadMyMetrics("/vp")
	}
	return l[0].Value.(*messages.Distribution)
}

// check compares ranges with endpoints; abs and rel are what rounding may do.
func check(t *rapid.T, desc string, b *tricorder.Bucketer, ends []float64, tol func(float64) float64) {
	t.Helper()
	m := report(t, b)
	r := m.Ranges
	if len(r) != len(ends)+1 {
		t.Fatalf("%s: %d buckets, want %d", desc, len(r), len(ends)+1)
	}
	for i, e := range ends {
		if math.Abs(r[i].Upper-e) > tol(e) {
			t.Fatalf("%s: upper limit of bucket %d is %v, want %v", desc, i, r[i].Upper, e)
		}
		if r[i+1].Lower != r[i].Upper {
			t.Fatalf("%s: bucket %d ends at %v, the next begins at %v", desc, i, r[i].Upper, r[i+1].Lower)
		}
		if i > 0 && !(r[i].Lower < r[i].Upper) {
			t.Fatalf("%s: bucket %d is [%v,%v)", desc, i, r[i].Lower, r[i].Upper)
		}
	}
	// values land in the bucket whose reported range contains them; the first
	// and the last have no limit
	var vals []float64
	for k := 0; k < 3; k++ {
		e := r[rapid.IntRange(0, len(ends)-1).Draw(t, "probe")].Upper
		vals = append(vals, e, math.Nextafter(e, math.Inf(1)), math.Nextafter(e, math.Inf(-1)))
	}
	vals = append(vals, -math.MaxFloat64, math.MaxFloat64, 0)
	want := make([]uint64, len(r))
	for _, v := range vals {
		i := 0
		for i < len(r)-1 && v >= r[i].Upper {
			i++
		}
		want[i]++
	}
	m2 := report(t, b, vals...)
	for i := range want {
		if m2.Ranges[i].Count != want[i] {
			t.Fatalf("%s: values %v: bucket %d [%v,%v) counts %d, want %d", desc, vals, i, r[i].Lower, r[i].Upper, m2.Ranges[i].Count, want[i])
		}
	}
	for i := range r {
		if *r[i] != (messages.RangeWithCount{Lower: m2.Ranges[i].Lower, Upper: m2.Ranges[i].Upper}) {
			t.Fatalf("%s: range %d differs between distributions", desc, i)
		}
	}
}

func refused(t *rapid.T, desc string, f func() *tricorder.Bucketer) {
	t.Helper()
	if did, _ := vh.Panics(func() { f() }); !did {
		t.Fatalf("%s did not panic", desc)
	}
	vh.Case(desc, true, "refused")
}

func posFloat(t *rapid.T, lo, hi int, label string) float64 {
	e := rapid.IntRange(lo, hi).Draw(t, label+"e")
	m := rapid.OneOf(rapid.SampledFrom([]float64{1, 2, 5, 9.999999, 3, 4.999}), rapid.Float64Range(1, 10)).Draw(t, label+"m")
	return m * math.Pow(10, float64(e))
}

func TestExponential(t *testing.T) {
	vh.Check(t, 24000, 240000, func(t *rapid.T) {
		count := rapid.IntRange(-1, 60).Draw(t, "count")
		start := rapid.OneOf(rapid.SampledFrom([]float64{0, -1, 1, -0.0, 0.001}), rapid.Custom(func(t *rapid.T) float64 { return posFloat(t, -9, 9, "s") })).Draw(t, "start")
		scale := rapid.OneOf(rapid.SampledFrom([]float64{1, 0.5, 0, -2, 2, 10, 1.1}), rapid.Float64Range(1.01, 50)).Draw(t, "scale")
		if rapid.IntRange(0, 19).Draw(t, "lots") == 19 { // as many as stay within the doubles
			count = rapid.IntRange(60, 2500).Draw(t, "count2")
			start = posFloat(t, -9, 9, "s2")
			scale = rapid.Float64Range(1.0005, math.Exp(600/float64(count))).Draw(t, "scale2")
		}
		desc := fmt.Sprintf("NewExponentialBucketer(%d, %v, %v)", count, start, scale)
		mk := func() *tricorder.Bucketer { return tricorder.NewExponentialBucketer(count, start, scale) }
		if count < 2 || start <= 0 || scale <= 1 {
			refused(t, desc, mk)
			return
		}
		var ends []float64
		for i := 0; i < count-1; i++ {
			ends = append(ends, start*math.Pow(scale, float64(i)))
		}
		check(t, desc, mk(), ends, func(e float64) float64 { return 1e-9 * e })
		vh.Case(desc, count >= 3)
	})
}

func TestLinear(t *testing.T) {
	vh.Check(t, 24000, 240000, func(t *rapid.T) {
		count := rapid.IntRange(-1, 100).Draw(t, "count")
		if rapid.IntRange(0, 19).Draw(t, "lots") == 19 {
			count = rapid.IntRange(100, 3000).Draw(t, "count2")
			if rapid.IntRange(0, 29).Draw(t, "very many") == 29 {
				count = rapid.IntRange(3000, 140000).Draw(t, "count3")
			}
		}
		start := rapid.OneOf(rapid.SampledFrom([]float64{0, -1, 1, 10, -3.5}), rapid.Float64Range(-1e6, 1e6)).Draw(t, "start")
		inc := rapid.OneOf(rapid.SampledFrom([]float64{0, -1, 0.1, 1, 10, 2.5}), rapid.Float64Range(0.001, 1e6)).Draw(t, "inc")
		desc := fmt.Sprintf("NewLinearBucketer(%d, %v, %v)", count, start, inc)
		mk := func() *tricorder.Bucketer { return tricorder.NewLinearBucketer(count, start, inc) }
		if count < 2 || inc <= 0 {
			refused(t, desc, mk)
			return
		}
		var ends []float64
		for i := 0; i < count-1; i++ {
			ends = append(ends, start+float64(i)*inc)
		}
		size := math.Abs(start) + float64(count)*inc
		check(t, desc, mk(), ends, func(e float64) float64 { return 1e-9 * size * math.Min(1, inc) })
		vh.Case(desc, count >= 3)
	})
}

func TestArbitrary(t *testing.T) {
	vh.Check(t, 24000, 240000, func(t *rapid.T) {
		n := rapid.IntRange(0, 12).Draw(t, "n")
		if rapid.IntRange(0, 39).Draw(t, "lots") == 39 {
			n = rapid.IntRange(13, 300).Draw(t, "n2")
		}
		set := map[float64]bool{}
		if rapid.IntRange(0, 999).Draw(t, "very many") == 999 {
			step := rapid.Float64Range(0.01, 100).Draw(t, "step")
			for m := rapid.IntRange(300, 140000).Draw(t, "m"); m > 0; m-- {
				set[float64(m-70000)*step] = true
			}
		}
		for i := 0; i < n; i++ {
			set[rapid.OneOf(rapid.Float64Range(-1e300, 1e300), rapid.Float64Range(-10, 10),
				rapid.Custom(func(t *rapid.T) float64 { return float64(rapid.IntRange(-50, 50).Draw(t, "i")) })).Draw(t, "end")] = true
		}
		var ends []float64
		for e := range set {
			ends = append(ends, e)
		}
		sort.Float64s(ends)
		if len(ends) > 0 && rapid.IntRange(0, 4).Draw(t, "close") == 0 { // another hardly above one
			e := rapid.SampledFrom(ends).Draw(t, "below")
			next := e + math.Abs(e)*rapid.SampledFrom([]float64{0, 1e-12, 1e-9, 1e-6}).Draw(t, "gap")
			if next == e {
				next = math.Nextafter(e, math.Inf(1))
			}
			if !set[next] {
				ends = append(ends, next)
				sort.Float64s(ends)
			}
		}
		desc := fmt.Sprintf("NewArbitraryBucketer(%v)", ends)
		if len(ends) > 400 {
			desc = fmt.Sprintf("NewArbitraryBucketer of %d from %v to %v", len(ends), ends[0], ends[len(ends)-1])
		}
		arg := append([]float64(nil), ends...)
		if len(ends) == 0 {
			refused(t, desc, func() *tricorder.Bucketer { return tricorder.NewArbitraryBucketer(arg...) })
			return
		}
		b := tricorder.NewArbitraryBucketer(arg...)
		// bucketers are immutable, so later use of the argument is harmless
		for i := range arg {
			arg[i] = 77
		}
		check(t, desc, b, ends, func(float64) float64 { return 0 })
		vh.Case(desc, len(ends) >= 2)
	})
}

// series lists 1, 2, 5 times powers of ten.
var series []float64

func init() {
	for e := -12; e <= 21; e++ {
		for _, m := range []float64{1, 2, 5} {
			series = append(series, m*math.Pow(10, float64(e)))
		}
	}
}

func close(a, b float64) bool { return math.Abs(a-b) <= 1e-9*math.Abs(b) }

func TestGeometric(t *testing.T) {
	vh.Check(t, 36000, 400000, func(t *rapid.T) {
		draw := func(label string) float64 {
			switch rapid.IntRange(0, 5).Draw(t, label+"?") {
			case 0:
				return rapid.SampledFrom([]float64{0, -1, -0.001}).Draw(t, label)
			case 1, 2:
				return rapid.SampledFrom(series[9:81]).Draw(t, label)
			default:
				return posFloat(t, -9, 16, label)
			}
		}
		lower, upper := draw("lower"), draw("upper")
		if rapid.IntRange(0, 3).Draw(t, "order") > 0 && upper < lower {
			lower, upper = upper, lower
		}
		desc := fmt.Sprintf("NewGeometricBucketer(%v, %v)", lower, upper)
		mk := func() *tricorder.Bucketer { return tricorder.NewGeometricBucketer(lower, upper) }
		if lower <= 0 || upper < lower {
			refused(t, desc, mk)
			return
		}
		b := mk()
		r := report(t, b).Ranges
		// the first endpoint: largest in the series not above lower, where a
		// series number within rounding of lower may count either way
		first := -1
		for i, s := range series {
			if close(r[0].Upper, s) {
				first = i
			}
		}
		if first < 0 {
			t.Fatalf("%s: first endpoint %v is not in the series", desc, r[0].Upper)
		}
		if s := series[first]; s > lower && !close(s, lower) {
			t.Fatalf("%s: first endpoint %v is above lower", desc, s)
		}
		if s := series[first+1]; s <= lower && !close(s, lower) {
			t.Fatalf("%s: first endpoint is %v though %v is not above lower", desc, series[first], s)
		}
		last := first + len(r) - 2
		if last >= len(series) || !close(r[len(r)-1].Lower, series[last]) {
			t.Fatalf("%s: endpoints are not consecutive in the series: last is %v", desc, r[len(r)-1].Lower)
		}
		if s := series[last]; s < upper && !close(s, upper) {
			t.Fatalf("%s: last endpoint %v is below upper", desc, s)
		}
		if last > first {
			if s := series[last-1]; s >= upper && !close(s, upper) {
				t.Fatalf("%s: last endpoint is %v though %v is not below upper", desc, series[last], s)
			}
		}
		check(t, desc, b, series[first:last+1], func(e float64) float64 { return 1e-9 * e })
		vh.Case(desc, len(r) >= 3)
	})
}

// Bounds written as decimals in the series: the documentation's example form.
func TestGeometricOwnEndpoints(t *testing.T) {
	vh.Check(t, 300, 2000, func(t *rapid.T) {
		i := rapid.IntRange(12*3, 12*3+16*3).Draw(t, "i") // 1 .. 1e16: exact doubles
		j := rapid.IntRange(i, 12*3+16*3).Draw(t, "j")
		b := tricorder.NewGeometricBucketer(series[i], series[j])
		check(t, fmt.Sprintf("NewGeometricBucketer(%v, %v)", series[i], series[j]), b, series[i:j+1], func(e float64) float64 { return 1e-9 * e })
		vh.Case(fmt.Sprintf("geo %d %d", i, j), j > i)
	})
}

func TestPredefined(t *testing.T) {
	vh.Check(t, 60, 300, func(t *rapid.T) {
		k := rapid.IntRange(0, 2).Draw(t, "which")
		b := []*tricorder.Bucketer{tricorder.PowersOfTwo, tricorder.PowersOfFour, tricorder.PowersOfTen}[k]
		base := []float64{2, 4, 10}[k]
		n := len(report(t, b).Ranges) - 1
		if max := math.Pow(base, float64(n-1)); n < 3 || max < 1e5 {
			t.Fatalf("powers of %v: only %d endpoints", base, n)
		}
		var ends []float64
		for i := 0; i < n; i++ {
			ends = append(ends, math.Pow(base, float64(i)))
		}
		check(t, fmt.Sprintf("powers of %v", base), b, ends, func(float64) float64 { return 0 })
		vh.Case(fmt.Sprint("powers of ", base), true)
	})
}
