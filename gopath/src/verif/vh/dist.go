package vh

import (
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
)

// Buck is a generated bucketer with its endpoints.
type Buck struct {
	B    *tricorder.Bucketer
	Ends []float64
	Desc string
}

// NewBuck draws a bucketer whose endpoints are known exactly.
func NewBuck(t *rapid.T) *Buck {
	switch rapid.IntRange(0, 5).Draw(t, "bucketer") {
	case 0:
		n := rapid.IntRange(1, 6).Draw(t, "ends")
		set := map[float64]bool{}
		for i := 0; i < n; i++ {
			set[float64(rapid.IntRange(-200, 200).Draw(t, "end"))/8] = true
		}
		var e []float64
		for f := range set {
			e = append(e, f)
		}
		sort.Float64s(e)
		return &Buck{tricorder.NewArbitraryBucketer(e...), e, fmt.Sprintf("arbitrary%v", e)}
	case 1:
		n := rapid.IntRange(2, 9).Draw(t, "count")
		if rapid.IntRange(0, 9).Draw(t, "lots") == 9 {
			n = rapid.IntRange(10, 400).Draw(t, "count2")
			if rapid.IntRange(0, 24).Draw(t, "very many") == 24 {
				n = rapid.IntRange(400, 9000).Draw(t, "count3")
			}
		}
		s := float64(rapid.IntRange(-80, 80).Draw(t, "start")) / 8
		inc := float64(rapid.IntRange(1, 40).Draw(t, "inc")) / 8
		var e []float64
		for i := 0; i < n-1; i++ {
			e = append(e, s+float64(i)*inc)
		}
		return &Buck{tricorder.NewLinearBucketer(n, s, inc), e, fmt.Sprintf("linear(%d,%v,%v)", n, s, inc)}
	case 2:
		n := rapid.IntRange(2, 9).Draw(t, "count")
		s := math.Ldexp(1, rapid.IntRange(-3, 2).Draw(t, "start"))
		k := rapid.SampledFrom([]float64{2, 1.5, 4, 10}).Draw(t, "scale")
		var e []float64
		for i, c := 0, s; i < n-1; i, c = i+1, c*k {
			e = append(e, c)
		}
		return &Buck{tricorder.NewExponentialBucketer(n, s, k), e, fmt.Sprintf("exponential(%d,%v,%v)", n, s, k)}
	case 3:
		return &Buck{tricorder.NewGeometricBucketer(1, 100), []float64{1, 2, 5, 10, 20, 50, 100}, "geometric(1,100)"}
	case 4:
		return &Buck{tricorder.PowersOfTen, []float64{1, 10, 100, 1000, 1e4, 1e5}, "PowersOfTen"}
	default:
		var e []float64
		for i := 0; i < 10; i++ {
			e = append(e, math.Ldexp(1, 2*i))
		}
		return &Buck{tricorder.PowersOfFour, e, "PowersOfFour"}
	}
}

// Dist is a distribution with a model of what it holds.
type Dist struct {
	Buck *Buck
	Cum  *tricorder.CumulativeDistribution
	Non  *tricorder.NonCumulativeDistribution
	Unit units.Unit
	Set  bool // unit assigned
	Name string

	Held    []Held
	Gen     uint64
	Exact   bool // all arithmetic so far is exact in a double
	Abs     float64
	Min     float64
	Max     float64
	Loose   bool // UpdateMinMax was called: min and max only bounded
	Emptied bool
}

// Held is a value held: what was given and what it amounts to.
type Held struct {
	Given interface{}
	F     float64
}

// NewDist draws a distribution.
func NewDist(t *rapid.T, b *Buck, name string) *Dist {
	d := &Dist{Buck: b, Name: name, Exact: true}
	if rapid.IntRange(0, 2).Draw(t, "cum") == 0 {
		d.Cum = b.B.NewCumulativeDistribution()
	} else {
		d.Non = b.B.NewNonCumulativeDistribution()
	}
	return d
}

// Obj is what is registered.
func (d *Dist) Obj() interface{} {
	if d.Cum != nil {
		return d.Cum
	}
	return d.Non
}

// Register registers the distribution.
func (d *Dist) Register(path string, u units.Unit) error {
	err := tricorder.RegisterMetric(path, d.Obj(), u, "")
	if err == nil {
		d.Unit, d.Set = u, true
	}
	return err
}

func (d *Dist) perUnit() time.Duration {
	if d.Unit == units.Millisecond {
		return time.Millisecond
	}
	return time.Second
}

// Value draws a value to add. inexact allows values whose sums round.
func (d *Dist) Value(t *rapid.T, inexact bool) (Held, bool) {
	var f float64
	exact := true
	switch rapid.IntRange(0, 5).Draw(t, "v?") {
	case 0: // an endpoint
		f = rapid.SampledFrom(d.Buck.Ends).Draw(t, "end")
	case 1: // near an endpoint
		f = rapid.SampledFrom(d.Buck.Ends).Draw(t, "end") + rapid.SampledFrom([]float64{-1.0 / 64, 1.0 / 64}).Draw(t, "off")
	case 2:
		if inexact {
			f = rapid.SampledFrom(d.Buck.Ends).Draw(t, "end")
			f = math.Nextafter(f, f+rapid.SampledFrom([]float64{-1, 1}).Draw(t, "off"))
			exact = false
			break
		}
		fallthrough
	case 3:
		f = float64(rapid.IntRange(-4000, 4000).Draw(t, "v")) / 64
	case 4:
		f = float64(rapid.IntRange(-1<<20, 1<<20).Draw(t, "v")) / 8
	default:
		f = float64(rapid.IntRange(-6400, 64000).Draw(t, "v")) / 64
		if inexact {
			f = rapid.Float64Range(-1e6, 1e6).Draw(t, "f")
			if rapid.IntRange(0, 3).Draw(t, "large") == 3 {
				f *= math.Ldexp(1, rapid.IntRange(1, 200).Draw(t, "exp"))
			}
			exact = false
		}
	}
	if f != math.Trunc(f*64)/64 {
		exact = false
	}
	timely := d.Unit == units.Second || d.Unit == units.Millisecond
	kinds := 2
	if timely {
		kinds = 4
	}
	switch rapid.IntRange(0, kinds).Draw(t, "as") {
	case 0, 3, 4:
		if timely && exact {
			ns := f * float64(d.perUnit())
			if ns == math.Trunc(ns) && math.Abs(ns) < 1<<60 {
				return Held{time.Duration(ns), f}, exact
			}
		}
	case 1:
		if float64(float32(f)) == f {
			return Held{float32(f), f}, exact
		}
	}
	return Held{f, f}, exact
}

func (d *Dist) note(h Held, exact bool) {
	d.Abs += math.Abs(h.F)
	d.Exact = d.Exact && exact
}

func (d *Dist) bound(f float64) {
	d.Min, d.Max = math.Min(d.Min, f), math.Max(d.Max, f)
}

// Add adds.
func (d *Dist) Add(h Held, exact bool) {
	if d.Cum != nil {
		d.Cum.Add(h.Given)
	} else {
		d.Non.Add(h.Given)
	}
	d.note(h, exact)
	if len(d.Held) == 0 {
		d.Min, d.Max, d.Loose = h.F, h.F, false
	}
	d.bound(h.F)
	d.Held = append(d.Held, h)
	d.Gen++
}

// Update replaces the i-th value held.
func (d *Dist) Update(i int, h Held, exact bool) {
	d.Non.Update(d.Held[i].Given, h.Given)
	d.note(d.Held[i], true)
	d.note(h, exact)
	d.Held[i] = h
	d.bound(h.F)
	d.Gen++
}

// Remove removes the i-th value held.
func (d *Dist) Remove(i int) {
	d.Non.Remove(d.Held[i].Given)
	d.note(d.Held[i], true)
	d.Held = append(d.Held[:i], d.Held[i+1:]...)
	d.Gen++
	if len(d.Held) == 0 {
		d.Emptied = true
	}
}

// Sorted is the data in order.
func (d *Dist) Sorted() []float64 {
	r := make([]float64, len(d.Held))
	for i, h := range d.Held {
		r[i] = h.F
	}
	sort.Float64s(r)
	return r
}

// Bucket is the index of the bucket of f by the bucketer's definition.
func (b *Buck) Bucket(f float64) int {
	i := 0
	for i < len(b.Ends) && f >= b.Ends[i] {
		i++
	}
	return i
}

// Verify compares a report with the model; it returns what is wrong.
func (d *Dist) Verify(m *messages.Distribution) string {
	if int(m.Count) != len(d.Held) {
		return fmt.Sprintf("count %d, holds %d", m.Count, len(d.Held))
	}
	tol := 0.0
	if !d.Exact {
		tol = 1e-12 * d.Abs
	}
	sum := 0.0
	counts := make([]uint64, len(d.Buck.Ends)+1)
	for _, h := range d.Held {
		sum += h.F
		counts[d.Buck.Bucket(h.F)]++
	}
	if math.Abs(m.Sum-sum) > tol {
		return fmt.Sprintf("sum %v, values add up to %v", m.Sum, sum)
	}
	if m.Generation != d.Gen {
		return fmt.Sprintf("generation %d after %d changes", m.Generation, d.Gen)
	}
	if m.IsNotCumulative != (d.Non != nil) {
		return fmt.Sprintf("non-cumulative is %v", m.IsNotCumulative)
	}
	if len(m.Ranges) != len(counts) {
		return fmt.Sprintf("%d ranges, want %d", len(m.Ranges), len(counts))
	}
	for i, r := range m.Ranges {
		if r.Count != counts[i] {
			return fmt.Sprintf("bucket %d [%v,%v) has count %d, holds %d", i, r.Lower, r.Upper, r.Count, counts[i])
		}
	}
	if len(d.Held) == 0 {
		return ""
	}
	avg := sum / float64(len(d.Held))
	if math.Abs(m.Average-avg) > tol+1e-12*math.Abs(avg) {
		return fmt.Sprintf("average %v, is %v", m.Average, avg)
	}
	if d.Loose {
		s := d.Sorted()
		if m.Min < d.Min || m.Min > s[0] || m.Max > d.Max || m.Max < s[len(s)-1] {
			return fmt.Sprintf("min %v max %v outside what UpdateMinMax allows: all-time %v..%v, current %v..%v", m.Min, m.Max, d.Min, d.Max, s[0], s[len(s)-1])
		}
		d.Min, d.Max, d.Loose = m.Min, m.Max, false
	} else if m.Min != d.Min || m.Max != d.Max {
		return fmt.Sprintf("min %v max %v, held since last empty %v..%v", m.Min, m.Max, d.Min, d.Max)
	}
	return ""
}
