package c17

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strings"
	"testing"
	"time"

	"github.com/Symantec/tricorder/go/tricorder/duration"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "a case is one duration, time, float or string with a unit put through the conversions of package duration and compared with exact rational arithmetic; non-trivial if the value is negative, has a sub-second part, or (for strings) is not a plain whole number; distinct by value and unit")
}

func norm(d duration.Duration) bool {
	return d.Nanoseconds > -1e9 && d.Nanoseconds < 1e9 &&
		!(d.Seconds > 0 && d.Nanoseconds < 0) && !(d.Seconds < 0 && d.Nanoseconds > 0)
}

func total(d duration.Duration) *big.Int {
	n := new(big.Int).Mul(big.NewInt(d.Seconds), big.NewInt(1e9))
	return n.Add(n, big.NewInt(int64(d.Nanoseconds)))
}

// text checks the decimal forms of d, which is ns nanoseconds, and parses them back.
func text(t *rapid.T, d duration.Duration, ns *big.Int, u units.Unit) {
	t.Helper()
	if !norm(d) || total(d).Cmp(ns) != 0 {
		t.Fatalf("%v ns is represented as %+v", ns, d)
	}
	if d.IsNegative() != (ns.Sign() < 0) {
		t.Fatalf("%v ns: IsNegative is %v", ns, d.IsNegative())
	}
	if s, want := d.String(), vh.Decimal(ns, units.Second); s != want {
		t.Fatalf("%v ns as text is %q, want %q", ns, s, want)
	}
	s, want := d.StringUsingUnits(u), vh.Decimal(ns, u)
	if s != want {
		t.Fatalf("%v ns in %s is %q, want %q", ns, u, s, want)
	}
	back, err := duration.ParseWithUnit(s, u)
	if err != nil || back != d {
		t.Fatalf("%q in %s parses to %+v, %v, want %+v", s, u, back, err, d)
	}
}

func TestDurations(t *testing.T) {
	vh.Check(t, 180000, 4500000, func(t *rapid.T) {
		d, u := vh.Dur(t, "d"), vh.Unit(t)
		dd := duration.New(d)
		text(t, dd, big.NewInt(int64(d)), u)
		if g := dd.AsGoDuration(); g != d {
			t.Fatalf("%d ns comes back as %d", int64(d), int64(g))
		}
		f := duration.ToFloat(d)
		exact := float64(d) / 1e9
		if math.Abs(f-exact) > math.Abs(exact)*0x1p-51 {
			t.Fatalf("%d ns is %v s", int64(d), f)
		}
		if math.Abs(dd.AsFloat()-exact) > math.Abs(exact)*0x1p-51 {
			t.Fatalf("%d ns is %v s by AsFloat", int64(d), dd.AsFloat())
		}
		if d >= -1<<50 && d <= 1<<50 {
			if g := duration.FromFloat(f); g != d {
				t.Fatalf("%d ns through float %v comes back as %d", int64(d), f, int64(g))
			}
		}
		// another that differs in one bit, of seconds or nanoseconds
		other := d ^ 1<<rapid.IntRange(0, 63).Draw(t, "bit")
		text(t, duration.New(other), big.NewInt(int64(other)), u)
		vh.Case(fmt.Sprint("dur ", int64(d), u), d < 0 || d%time.Second != 0)
	})
}

func TestTimes(t *testing.T) {
	vh.Check(t, 180000, 4500000, func(t *rapid.T) {
		tm, u := vh.Time(t, "t"), vh.Unit(t)
		ns := vh.TimeNs(tm)
		d := duration.SinceEpoch(tm)
		text(t, d, ns, u)
		if g := d.AsGoTime(); !g.Equal(tm) {
			t.Fatalf("%v comes back as %v", tm, g)
		}
		f := duration.TimeToFloat(tm)
		secs, _ := new(big.Rat).SetFrac(ns, big.NewInt(1e9)).Float64()
		slop := math.Abs(secs) * 0x1p-51
		if math.Abs(f-secs) > slop {
			t.Fatalf("%v is %v s since the epoch, want %v", tm, f, secs)
		}
		if g := duration.FloatToTime(f); math.Abs(diffNs(g, tm)) > slop*1e9+1 {
			t.Fatalf("%v through float %v comes back as %v", tm, f, g)
		}
		// another a power of two of seconds away
		shift := int64(1) << rapid.IntRange(0, 37).Draw(t, "bit")
		if tm.Unix()+shift > last {
			shift = -shift
		}
		if s := tm.Unix() + shift; s > first && s < last {
			other := time.Unix(s, int64(tm.Nanosecond()))
			text(t, duration.SinceEpoch(other), vh.TimeNs(other), u)
		}
		vh.Case(fmt.Sprint("time ", ns, u), ns.Sign() < 0 || tm.Nanosecond() != 0)
	})
}

var (
	first = time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC).Unix()
	last  = time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC).Unix()
)

func diffNs(a, b time.Time) float64 {
	f, _ := new(big.Float).SetInt(new(big.Int).Sub(vh.TimeNs(a), vh.TimeNs(b))).Float64()
	return f
}

func TestFloats(t *testing.T) {
	vh.Check(t, 120000, 2400000, func(t *rapid.T) {
		var f float64
		switch rapid.IntRange(0, 3).Draw(t, "f?") {
		case 0:
			f = rapid.Float64Range(-1e6, 1e6).Draw(t, "f")
		case 1:
			f = float64(rapid.Int64Range(-1<<40, 1<<40).Draw(t, "half")) / 2 * 1e-9
		case 2:
			f = rapid.Float64Range(-1, 1).Draw(t, "f") * 1e-6
		default:
			f = rapid.Float64Range(-5e6, 5e6).Draw(t, "f")
		}
		ns, _ := new(big.Rat).SetFloat64(f).Float64()
		ns *= 1e9
		g := duration.FromFloat(f)
		if math.Abs(float64(g)-ns) > 0.5+math.Abs(ns)*0x1p-51 {
			t.Fatalf("%v s is taken as %d ns", f, int64(g))
		}
		d := duration.SinceEpochFloat(f)
		n, _ := new(big.Float).SetInt(total(d)).Float64()
		if !norm(d) || math.Abs(n-ns) > 1+math.Abs(ns)*0x1p-51 {
			t.Fatalf("%v s since the epoch is taken as %+v", f, d)
		}
		vh.Case(fmt.Sprint("float ", f), f < 0 || f != math.Trunc(f))
	})
}

var (
	plain  = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?$`)
	almost = regexp.MustCompile(`^[-+]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][-+]?[0-9]+)?$`)
)

// truncated is the number of ns of decimal s in unit, truncated.
func truncated(s string, u units.Unit) *big.Int {
	r, ok := new(big.Rat).SetString(strings.TrimPrefix(s, "+"))
	if !ok {
		return nil
	}
	per := int64(1e9)
	if u == units.Millisecond {
		per = 1e6
	}
	r.Mul(r, big.NewRat(per, 1))
	return new(big.Int).Quo(r.Num(), r.Denom()) // truncates towards zero
}

func parseOne(t *rapid.T, s string, u units.Unit) {
	t.Helper()
	d, err := duration.ParseWithUnit(s, u)
	switch {
	case plain.MatchString(s):
		want := truncated(s, u)
		if err != nil {
			whole := strings.SplitN(strings.TrimPrefix(s, "-"), ".", 2)[0]
			w, _ := new(big.Int).SetString(whole, 10)
			if w.IsInt64() {
				t.Fatalf("%q in %s is refused: %v", s, u, err)
			}
			return
		}
		if total(d).Cmp(want) != 0 || !norm(d) {
			t.Fatalf("%q in %s parses to %+v, want %v ns", s, u, d, want)
		}
	case almost.MatchString(s): // other ways to write a number: refuse or get right
		if len(s) < 30 && err == nil && total(d).Cmp(truncated(s, u)) != 0 {
			t.Fatalf("%q in %s parses to %+v, want %v ns", s, u, d, truncated(s, u))
		}
	default:
		if err == nil {
			t.Fatalf("%q in %s is not a number but parses to %+v", s, u, d)
		}
	}
}

func TestParse(t *testing.T) {
	vh.Check(t, 240000, 4500000, func(t *rapid.T) {
		var s string
		switch rapid.IntRange(0, 5).Draw(t, "s?") {
		case 0:
			s = rapid.StringMatching(`-?[0-9]{1,12}(\.[0-9]{1,14})?`).Draw(t, "s")
		case 1:
			s = rapid.StringMatching(`-?[0-9]{1,20}(\.[0-9]{1,30})?`).Draw(t, "s")
		case 2:
			s = rapid.StringMatching(`-?0{0,3}[0-9]{1,4}\.0{0,9}[0-9]{1,4}`).Draw(t, "s")
		case 3: // a number with one character put in
			s = rapid.StringMatching(`-?[0-9]{1,5}(\.[0-9]{1,14})?`).Draw(t, "s")
			i := rapid.IntRange(0, len(s)).Draw(t, "at")
			s = s[:i] + rapid.SampledFrom([]string{"-", "+", ".", " ", "x", "_", "e", ",", "0x", "\x00", "é", "\n", "--"}).Draw(t, "ch") + s[i:]
		case 4:
			s = rapid.StringMatching(`[-+.0-9 ex_]{0,14}`).Draw(t, "s")
		default:
			s = rapid.String().Draw(t, "s")
		}
		u := vh.Unit(t)
		parseOne(t, s, u)
		vh.Case(fmt.Sprintf("parse %q %s", s, u), strings.ContainsAny(s, ".-+ ex_") || !plain.MatchString(s))
	})
}

func TestUnits(t *testing.T) {
	vh.Check(t, 200, 500, func(t *rapid.T) {
		u := rapid.OneOf(rapid.SampledFrom(vh.AllUnits), rapid.Custom(func(t *rapid.T) units.Unit { return units.Unit(rapid.StringMatching(`[a-z]{0,4}`).Draw(t, "u")) })).Draw(t, "unit")
		want := 1.0
		if u == units.Millisecond {
			want = 1000
		}
		n, d := units.FromSecondsRational(u)
		if units.FromSeconds(u) != want || float64(n)/float64(d) != want {
			t.Fatalf("%s per second: %v, %d/%d", u, units.FromSeconds(u), n, d)
		}
		vh.Case("unit "+string(u), true)
	})
}

// Conversions at the same time do not disturb each other.
func TestParallel(t *testing.T) {
	vh.Check(t, 1500, 15000, func(t *rapid.T) {
		var reqs []vh.Req
		for i := rapid.IntRange(2, 6).Draw(t, "n"); i > 0; i-- {
			d, u := vh.Dur(t, "d"), vh.Unit(t)
			reqs = append(reqs, vh.Req{What: fmt.Sprint(d, u), Do: func() string {
				s := duration.New(d).StringUsingUnits(u)
				back, err := duration.ParseWithUnit(s, u)
				out := fmt.Sprint(s, back, err, duration.New(d), duration.ToFloat(d), duration.SinceEpoch(time.Unix(0, int64(d))))
				if d >= 0 {
					out += duration.New(d).PrettyFormat()
				}
				return out
			}})
		}
		if wrong := vh.Parallel(t, reqs); wrong != "" {
			t.Fatalf("%s", wrong)
		}
		vh.Case("parallel "+reqs[0].What+reqs[1].What, true)
	})
}
