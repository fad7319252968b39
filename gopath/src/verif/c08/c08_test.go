package c08

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/duration"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Real = true
	vh.Main(m, "a case is a list of up to 40 integers, durations or times of one type and unit (biased to powers of the radix, rounding thresholds and type limits), or one variable of it, or one Duration of any size, shown on its HTML page; non-trivial if some value is shown rounded, grouped, split into parts or negative; distinct by type, unit and values")
}

var (
	sfx     = []string{" thousand", " million", " billion", " trillion", "K trillion", "M trillion"}
	sfxByte = []string{" KiB", " MiB", " GiB", " TiB", " PiB", " EiB"}
	numRe   = regexp.MustCompile(`^(-?)([0-9]+)(?:\.([0-9]+))?$`)
)

func rat(i *big.Int) *big.Rat { return new(big.Rat).SetInt(i) }

// compact checks how x is shown; it returns an empty string or what is wrong.
func compact(shown string, x *big.Int, unit units.Unit) string {
	if unit == units.None {
		want := new(big.Int).Abs(x).String()
		for i := len(want) - 3; i > 0; i -= 3 {
			want = want[:i] + "," + want[i:]
		}
		if x.Sign() < 0 {
			want = "-" + want
		}
		if shown != want {
			return "want " + want
		}
		return ""
	}
	radix, list, per := int64(1000), sfx, ""
	switch unit {
	case units.Byte:
		radix, list = 1024, sfxByte
	case units.BytePerSecond:
		radix, list, per = 1024, sfxByte, "/s"
	}
	ax := new(big.Int).Abs(x)
	if ax.Cmp(big.NewInt(radix)) < 0 {
		if shown != x.String() {
			return "want " + x.String()
		}
		return ""
	}
	for k := len(list) - 1; k >= 0; k-- {
		num, ok := strings.CutSuffix(shown, list[k]+per)
		if !ok {
			continue
		}
		m := numRe.FindStringSubmatch(num)
		if m == nil {
			continue
		}
		if (m[1] == "-") != (x.Sign() < 0) {
			return "wrong sign"
		}
		if m[2][0] == '0' || len(m[2])+len(m[3]) < 3 {
			return "fewer than three significant digits"
		}
		scale := rat(new(big.Int).Exp(big.NewInt(radix), big.NewInt(int64(k+1)), nil))
		q := new(big.Rat).Quo(rat(ax), scale) // true number of units
		if q.Cmp(big.NewRat(9995, 10000)) < 0 || q.Cmp(big.NewRat(radix, 1)) >= 0 {
			f, _ := q.Float64()
			return fmt.Sprintf("magnitude off: true number of%s is %v", list[k], f)
		}
		n, _ := new(big.Rat).SetString(m[2] + "." + m[3] + "0")
		diff := n.Sub(n, q)
		diff.Abs(diff)
		// half a digit, plus double precision
		half := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Mul(big.NewInt(2), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(len(m[3]))), nil)))
		slop := new(big.Rat).Mul(q, big.NewRat(1, 1e15))
		half.Add(half, slop)
		if diff.Cmp(half) > 0 {
			f, _ := q.Float64()
			return fmt.Sprintf("wrongly rounded: true number of%s is %v", list[k], f)
		}
		return ""
	}
	return "not in a known form"
}

var durForms = []struct {
	re    *regexp.Regexp
	units []int64 // ns of each group
	lim   []int64 // each group but the first below this
	last  int64
}{
	{regexp.MustCompile(`^([0-9]+)ns$`), []int64{1}, []int64{0}, 1},
	{regexp.MustCompile(`^([0-9]+)(?:μ|µ)s$`), []int64{1e3}, []int64{0}, 1e3},
	{regexp.MustCompile(`^([0-9]+)ms$`), []int64{1e6}, []int64{0}, 1e6},
	{regexp.MustCompile(`^([0-9]+)\.([0-9]{3})s$`), []int64{1e9, 1e6}, []int64{60, 1000}, 1e6},
	{regexp.MustCompile(`^([0-9]+)m ([0-9]+)\.([0-9]{3})s$`), []int64{60e9, 1e9, 1e6}, []int64{60, 60, 1000}, 1e6},
	{regexp.MustCompile(`^([0-9]+)h ([0-9]+)m ([0-9]+)s$`), []int64{3600e9, 60e9, 1e9}, []int64{24, 60, 60}, 1e9},
	{regexp.MustCompile(`^([0-9]+)d ([0-9]+)h ([0-9]+)m ([0-9]+)s$`), []int64{86400e9, 3600e9, 60e9, 1e9}, []int64{0, 24, 60, 60}, 1e9},
}

// pretty checks how a non-negative duration of ns is shown.
func pretty(shown string, ns *big.Int) string {
	for _, f := range durForms {
		m := f.re.FindStringSubmatch(shown)
		if m == nil {
			continue
		}
		sum := new(big.Int)
		for i, s := range m[1:] {
			n, _ := new(big.Int).SetString(s, 10)
			if f.lim[i] > 0 && n.Cmp(big.NewInt(f.lim[i])) >= 0 {
				return "part " + s + " out of range"
			}
			sum.Add(sum, n.Mul(n, big.NewInt(f.units[i])))
		}
		want := new(big.Int).Quo(ns, big.NewInt(f.last))
		want.Mul(want, big.NewInt(f.last))
		if sum.Cmp(want) != 0 {
			return fmt.Sprintf("adds up to %v ns, truth %v ns", sum, ns)
		}
		if sum.Sign() == 0 && ns.Sign() != 0 {
			return "shown as nothing"
		}
		return ""
	}
	return "not in a known form"
}

// judge checks one value; it tells whether the value is non-trivial.
func judge(shown string, v interface{}, unit units.Unit) (wrong string, nontrivial bool) {
	switch x := v.(type) {
	case time.Time:
		p, err := time.Parse(time.RFC3339Nano, shown)
		if err != nil || !strings.HasSuffix(shown, "Z") || !p.Equal(x) {
			return "want " + x.UTC().Format(time.RFC3339Nano), true
		}
		return "", x.Nanosecond() != 0
	case time.Duration:
		if x < 0 {
			if want := vh.DurText(x, unit); shown != want {
				return "want " + want, true
			}
			return "", true
		}
		return pretty(shown, big.NewInt(int64(x))), x >= 10000
	}
	r := reflect.ValueOf(v)
	var b *big.Int
	if r.CanInt() {
		b = big.NewInt(r.Int())
	} else {
		b = new(big.Int).SetUint64(r.Uint())
	}
	return compact(shown, b, unit), len(b.String()) > 3
}

var intTypes, allTypes []vh.GoType

func init() {
	for _, g := range vh.GoTypes {
		switch k := g.Canon.Kind(); {
		case g.Named:
		case g.Kind == types.GoTime || g.Kind == types.GoDuration:
			allTypes = append(allTypes, g)
		case k >= reflect.Int && k <= reflect.Uint64:
			intTypes = append(intTypes, g)
			allTypes = append(allTypes, g, g)
		}
	}
}

// near draws integers around the places where the form or the digits change.
func near(t *rapid.T, g vh.GoType) interface{} {
	radix := rapid.SampledFrom([]float64{1000, 1024}).Draw(t, "radix")
	k := rapid.IntRange(1, 6).Draw(t, "k")
	m := rapid.SampledFrom([]float64{1, 1.005, 9.994, 9.995, 9.9949, 9.9951, 10, 10.05, 99.94, 99.95, 99.949, 99.951, 100, 100.5, 999.4, 999.5, 1000, 1023.5, 1024, 2.5, 1.115, 7.5}).Draw(t, "m")
	if rapid.Bool().Draw(t, "free") {
		m = float64(rapid.IntRange(1000, 1024000).Draw(t, "m1000")) / 1000
	}
	f := m * math.Pow(radix, float64(k))
	d := rapid.IntRange(-3, 3).Draw(t, "d")
	if g.Canon.Kind() >= reflect.Uint {
		if f >= 1<<63 {
			f /= 1024
		}
		return reflect.ValueOf(uint64(f) + uint64(d)).Convert(g.Canon).Interface()
	}
	for f >= 1<<62 {
		f /= 1024
	}
	v := int64(f) + int64(d)
	if rapid.Bool().Draw(t, "neg") {
		v = -v
	}
	return reflect.ValueOf(v).Convert(g.Canon).Interface()
}

func draw(t *rapid.T, g vh.GoType) interface{} {
	if g.Kind != types.GoTime && g.Kind != types.GoDuration && rapid.Bool().Draw(t, "near") {
		return near(t, g)
	}
	return vh.Value(t, g, false, "v")
}

func unit(t *rapid.T) units.Unit {
	return rapid.SampledFrom([]units.Unit{units.None, units.Byte, units.BytePerSecond, units.Second, units.Millisecond, units.Celsius, units.Unknown, "Packets"}).Draw(t, "unit")
}

func TestLists(t *testing.T) {
	vh.Check(t, 10000, 60000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		g := rapid.SampledFrom(allTypes).Filter(func(g vh.GoType) bool { return !g.Ptr }).Draw(t, "type")
		u := unit(t)
		vals := make([]interface{}, rapid.IntRange(1, 40).Draw(t, "n"))
		for i := range vals {
			vals[i] = draw(t, g)
		}
		l := tricorder.NewList(vh.SliceOf(g, vals), tricorder.ImmutableSlice)
		vh.Must(t, tricorder.RegisterMetric("/vp/l", l, u, ""), "register")
		toks, err := vh.Tokens(vh.Get("/metrics/vp/l").Body)
		vh.Must(t, err, "page")
		var shown []string
		for i, k := range toks {
			if k.Tag == "li" && i+1 < len(toks) {
				shown = append(shown, strings.TrimSpace(toks[i+1].Text))
			}
		}
		if len(shown) != len(vals) {
			t.Fatalf("%d elements shown of %d", len(shown), len(vals))
		}
		nontrivial := false
		for i, v := range vals {
			wrong, nt := judge(shown[i], v, u)
			if wrong != "" {
				t.Fatalf("%s in %s shown as %q: %s", vh.Show(v), u, shown[i], wrong)
			}
			nontrivial = nontrivial || nt
		}
		vh.Case(fmt.Sprintf("list %s %s %v", g.Name, u, vals), nontrivial)
	})
}

func TestVariables(t *testing.T) {
	vh.Check(t, 16000, 80000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		g := rapid.SampledFrom(allTypes).Draw(t, "type")
		u := unit(t)
		c := vh.NewCell(g)
		v := draw(t, g)
		c.Set(v)
		if rapid.Bool().Draw(t, "func") {
			vh.Must(t, tricorder.RegisterMetric("/vp/m", c.Func(nil), u, ""), "register")
		} else {
			vh.Must(t, tricorder.RegisterMetric("/vp/m", c.Pointer(), u, ""), "register")
		}
		path := rapid.SampledFrom([]string{"/metrics/vp/m", "/metrics/vp"}).Draw(t, "page")
		toks, err := vh.Tokens(vh.Get(path).Body)
		vh.Must(t, err, "page")
		for _, k := range toks {
			s := strings.TrimSpace(k.Text)
			if rest, ok := strings.CutPrefix(s, "/vp/m "); ok {
				wrong, nt := judge(strings.TrimSpace(rest), v, u)
				if wrong != "" {
					t.Fatalf("%s in %s shown as %q: %s", vh.Show(v), u, rest, wrong)
				}
				vh.Case(fmt.Sprintf("var %s %s %v", g.Name, u, v), nt)
				return
			}
		}
		t.Fatalf("value not shown: %+v", toks)
	})
}

// Durations beyond what a Go duration holds.
func TestPretty(t *testing.T) {
	vh.Check(t, 80000, 800000, func(t *rapid.T) {
		d := duration.Duration{
			Seconds: rapid.OneOf(rapid.SampledFrom([]int64{0, 1, 9, 59, 60, 61, 3599, 3600, 3661, 86399, 86400, 90061, math.MaxInt64}),
				rapid.Int64Range(0, 200000), rapid.Int64Range(0, math.MaxInt64)).Draw(t, "s"),
			Nanoseconds: rapid.OneOf(rapid.SampledFrom([]int32{0, 1, 999, 1000, 9999, 10000, 999999, 1000000, 9999999, 10000000, 999999999}),
				rapid.Int32Range(0, 999999999)).Draw(t, "ns"),
		}
		shown := d.PrettyFormat()
		ns := new(big.Int).Mul(big.NewInt(d.Seconds), big.NewInt(1e9))
		ns.Add(ns, big.NewInt(int64(d.Nanoseconds)))
		if wrong := pretty(shown, ns); wrong != "" {
			t.Fatalf("%ds %dns shown as %q: %s", d.Seconds, d.Nanoseconds, shown, wrong)
		}
		neg := duration.Duration{Seconds: -d.Seconds, Nanoseconds: -d.Nanoseconds}
		if ns.Sign() > 0 {
			if did, _ := vh.Panics(func() { neg.PrettyFormat() }); !did {
				t.Fatalf("negative duration -%s pretty formatted", shown)
			}
		}
		vh.Case("pretty "+strconv.FormatInt(d.Seconds, 10)+"."+strconv.Itoa(int(d.Nanoseconds)), true)
	})
}

// Requests at the same time do not disturb each other.
func TestParallel(t *testing.T) {
	group := tricorder.NewGroup()
	group.RegisterUpdateFunc(func() time.Time { return time.Unix(1000, 5) })
	vh.Check(t, 250, 3000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		p := vh.Populate(t, group, &vh.PopOpts{MaxItems: 8, NoDist: true})
		reqs := p.Requests("html")
		if rapid.Bool().Draw(t, "lists") {
			// long lists, whose elements take most of the time
			r := rand.New(rand.NewSource(rapid.Int64().Draw(t, "seed")))
			reqs = nil
			for _, u := range []units.Unit{units.None, units.Byte, units.BytePerSecond, units.Second} {
				ints, durs, floats := make([]int64, 200), make([]time.Duration, 200), make([]float64, 200)
				for i := range ints {
					ints[i] = r.Int63() >> uint(r.Intn(60))
					durs[i] = time.Duration(r.Int63() >> uint(r.Intn(60)))
					floats[i] = r.NormFloat64() * 1e6
				}
				for k, l := range []interface{}{ints, durs, floats} {
					path := fmt.Sprintf("/vp/long/%d/%s", k, u)
					vh.Must(t, tricorder.RegisterMetricInGroup(path, tricorder.NewList(l, false), group, u, ""), "register")
					reqs = append(reqs, vh.Url("/metrics"+vh.URLPath(path)))
				}
			}
		}
		if wrong := vh.Parallel(t, reqs); wrong != "" {
			t.Fatalf("%s", wrong)
		}
		vh.Case("parallel "+p.String(), len(p.Items) > 1)
	})
}
