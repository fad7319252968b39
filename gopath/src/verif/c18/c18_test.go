package c18

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"testing"
	"time"

	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "a case is a type with a generated Go value, float or arbitrary Go value put through package types and compared with Go's own view of that type; non-trivial if the float is not a small integer, or the value is of a type other than int64, float64 and string; distinct by type and value")
}

// One row per metric type, from the documentation.
type row struct {
	t    types.Type
	zero interface{} // value carried in Go RPC or JSON
}

var rows = []row{
	{types.Bool, false}, {types.Int8, int8(0)}, {types.Int16, int16(0)}, {types.Int32, int32(0)}, {types.Int64, int64(0)},
	{types.Uint8, uint8(0)}, {types.Uint16, uint16(0)}, {types.Uint32, uint32(0)}, {types.Uint64, uint64(0)},
	{types.Float32, float32(0)}, {types.Float64, float64(0)}, {types.String, ""},
	{types.GoTime, time.Time{}}, {types.GoDuration, time.Duration(0)},
	{types.Time, "0.000000000"}, {types.Duration, "0.000000000"},
}

func isJson(t types.Type) bool { return t == types.Time || t == types.Duration }

func numeric(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Float64 }

func TestTypes(t *testing.T) {
	vh.Check(t, 12000, 120000, func(t *rapid.T) {
		r := rapid.SampledFrom(rows).Draw(t, "row")
		z, err := r.t.SafeZeroValue()
		if err != nil || !reflect.DeepEqual(z, r.zero) || !reflect.DeepEqual(r.t.ZeroValue(), r.zero) {
			t.Fatalf("zero value of %q is %s, %v", r.t, vh.Show(z), err)
		}
		if mz, err := messages.ZeroValue(r.t); err != nil || !reflect.DeepEqual(mz, r.zero) {
			t.Fatalf("messages.ZeroValue of %q is %s, %v", r.t, vh.Show(mz), err)
		}
		s, err := r.t.SafeNilSlice()
		if err != nil || reflect.TypeOf(s) != reflect.SliceOf(reflect.TypeOf(r.zero)) || !reflect.ValueOf(s).IsNil() ||
			!reflect.DeepEqual(r.t.NilSlice(), s) {
			t.Fatalf("nil slice of %q is a %T, %v", r.t, s, err)
		}
		kind := r.t
		if isJson(kind) {
			kind = types.String // JSON times and durations are carried as strings
		}
		// any value of the type, not only zero
		v := r.zero
		for _, g := range vh.GoTypes {
			if g.Kind == r.t && g.T == g.Canon {
				v = vh.Value(t, g, true, "v")
			}
		}
		if k, sub := types.FromGoValueWithSubType(v); k != kind || sub != types.Unknown || types.FromGoValue(v) != kind {
			t.Fatalf("%s is of type %q/%q, want %q", vh.Show(v), k, sub, kind)
		}
		sl := reflect.MakeSlice(reflect.TypeOf(s), rapid.IntRange(0, 3).Draw(t, "len"), 5)
		for i := 0; i < sl.Len(); i++ {
			sl.Index(i).Set(reflect.ValueOf(v))
		}
		for _, x := range []interface{}{s, sl.Interface()} {
			if k, sub := types.FromGoValueWithSubType(x); k != types.List || sub != kind || types.FromGoValue(x) != types.List {
				t.Fatalf("%T is of type %q/%q, want list/%q", x, k, sub, kind)
			}
		}
		k := reflect.TypeOf(r.zero).Kind()
		goTime := r.t == types.GoTime || r.t == types.GoDuration
		isInt := k >= reflect.Int && k <= reflect.Int64 && !goTime
		isUint := k >= reflect.Uint && k <= reflect.Uint64
		isFloat := k == reflect.Float32 || k == reflect.Float64
		bits := 0
		if isInt || isUint || isFloat {
			bits = reflect.TypeOf(r.zero).Bits()
		}
		if r.t.IsInt() != isInt || r.t.IsUint() != isUint || r.t.IsFloat() != isFloat || r.t.Bits() != bits ||
			r.t.UsesSubType() || !r.t.SupportsEquality() || r.t.CanToFromFloat() != (bits != 0 || goTime) {
			t.Fatalf("%q: IsInt %v IsUint %v IsFloat %v Bits %d UsesSubType %v SupportsEquality %v CanToFromFloat %v", r.t, r.t.IsInt(), r.t.IsUint(), r.t.IsFloat(), r.t.Bits(), r.t.UsesSubType(), r.t.SupportsEquality(), r.t.CanToFromFloat())
		}
		if !r.t.CanToFromFloat() {
			if did, _ := vh.Panics(func() { r.t.FromFloat(1) }); !did {
				t.Fatalf("FromFloat of %q did not panic", r.t)
			}
			if did, _ := vh.Panics(func() { r.t.ToFloat(r.zero) }); !did {
				t.Fatalf("ToFloat of %q did not panic", r.t)
			}
		}
		vh.Case(fmt.Sprintf("type %q %v", r.t, v), r.t != types.Int64 && r.t != types.Float64 && r.t != types.String)
	})
}

// Types that have no zero value or slice form.
func TestNoSuch(t *testing.T) {
	vh.Check(t, 12000, 120000, func(t *rapid.T) {
		ty := rapid.OneOf(rapid.SampledFrom([]types.Type{types.Unknown, types.List, types.Dist, "int", "uint", "goTimes", "BOOL", "int128", "dist"}),
			rapid.Custom(func(t *rapid.T) types.Type {
				return types.Type(rapid.StringMatching(`[a-zA-Z0-9]{0,9}`).Draw(t, "name"))
			})).Draw(t, "type")
		for _, r := range rows {
			if r.t == ty {
				return
			}
		}
		if z, err := ty.SafeZeroValue(); err == nil || z != nil {
			t.Fatalf("zero value of %q is %s", ty, vh.Show(z))
		}
		if s, err := ty.SafeNilSlice(); err == nil || s != nil {
			t.Fatalf("nil slice of %q is %T", ty, s)
		}
		if did, _ := vh.Panics(func() { ty.ZeroValue() }); !did {
			t.Fatalf("ZeroValue of %q did not panic", ty)
		}
		if did, _ := vh.Panics(func() { ty.NilSlice() }); !did {
			t.Fatalf("NilSlice of %q did not panic", ty)
		}
		z, err := messages.ZeroValue(ty)
		if d, ok := z.(*messages.Distribution); ty == types.Dist {
			if err != nil || !ok || d != nil || types.FromGoValue(z) != types.Dist {
				t.Fatalf("messages.ZeroValue of a distribution is %T, %v", z, err)
			}
		} else if err == nil || z != nil {
			t.Fatalf("messages.ZeroValue of %q is %s", ty, vh.Show(z))
		}
		if ty.IsInt() || ty.IsUint() || ty.IsFloat() || ty.Bits() != 0 || ty.CanToFromFloat() || ty.UsesSubType() != (ty == types.List) {
			t.Fatalf("%q is taken for a number or a list", ty)
		}
		if (ty == types.List || ty == types.Dist || ty == types.Unknown) && ty.SupportsEquality() {
			t.Fatalf("%q supports equality", ty)
		}
		if did, _ := vh.Panics(func() { ty.FromFloat(1) }); !did {
			t.Fatalf("FromFloat of %q did not panic", ty)
		}
		vh.Case("no "+string(ty), true)
	})
}

type (
	st  struct{ A int8 }
	fn  func() int
	ifc interface{ M() }
)

var atoms = []reflect.Type{
	reflect.TypeOf(0), reflect.TypeOf(uint(0)), reflect.TypeOf(uintptr(0)), reflect.TypeOf(complex64(0)), reflect.TypeOf(complex(1, 1)),
	reflect.TypeOf(st{}), reflect.TypeOf(fn(nil)), reflect.TypeOf(vh.NBool(false)), reflect.TypeOf(vh.NInt8(0)), reflect.TypeOf(vh.NInt64(0)),
	reflect.TypeOf(vh.NUint32(0)), reflect.TypeOf(vh.NFloat64(0)), reflect.TypeOf(vh.NString("")), reflect.TypeOf(map[string]int{}), reflect.TypeOf(make(chan int)),
	reflect.TypeOf((*ifc)(nil)), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf([3]int8{}), reflect.TypeOf(time.January), reflect.TypeOf(types.Bool),
	reflect.TypeOf(messages.Distribution{}), reflect.TypeOf(messages.RangeWithCount{}),
}

// Values of other Go types are unknown.
func TestUnknown(t *testing.T) {
	vh.Check(t, 18000, 180000, func(t *rapid.T) {
		var ty reflect.Type
		if rapid.Bool().Draw(t, "odd") {
			ty = rapid.SampledFrom(atoms).Draw(t, "atom")
		} else {
			ty = reflect.TypeOf(rapid.SampledFrom(rows).Draw(t, "row").zero)
			switch rapid.IntRange(0, 2).Draw(t, "wrap") {
			case 0:
				ty = reflect.PointerTo(ty)
			case 1:
				ty = reflect.SliceOf(reflect.SliceOf(ty))
			default:
				ty = reflect.ArrayOf(2, ty)
			}
		}
		for n := rapid.IntRange(0, 2).Draw(t, "deep"); n > 0; n-- {
			if rapid.Bool().Draw(t, "slice") {
				ty = reflect.SliceOf(ty)
			} else {
				ty = reflect.PointerTo(ty)
			}
		}
		if ty == reflect.TypeOf(&messages.Distribution{}) {
			return
		}
		v := reflect.Zero(ty).Interface()
		if k, sub := types.FromGoValueWithSubType(v); k != types.Unknown || sub != types.Unknown {
			t.Fatalf("%v is of type %q/%q", ty, k, sub)
		}
		vh.Case("unknown "+ty.String(), true)
	})
}

func fl(t *rapid.T, ty reflect.Type) (f float64, r *big.Int) {
	bits, signed := ty.Bits(), ty.Kind() <= reflect.Int64
	lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), uint(bits))
	if signed {
		lo = new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), uint(bits-1)))
		hi = new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
	}
	hi.Sub(hi, big.NewInt(1))
	for {
		switch rapid.IntRange(0, 6).Draw(t, "f?") {
		case 0: // halves
			f = float64(rapid.Int64Range(-300, 300).Draw(t, "h")) + 0.5
		case 1: // next to halves
			f = float64(rapid.Int64Range(-3, 300).Draw(t, "h")) + 0.5
			f = math.Nextafter(f, rapid.SampledFrom([]float64{-1e300, 1e300}).Draw(t, "side"))
		case 2: // any magnitude up to the type's
			e := rapid.IntRange(-3, bits).Draw(t, "e")
			f = math.Ldexp(rapid.Float64Range(-1, 1).Draw(t, "m"), e)
		case 3: // where a double has no fraction digits left, or just one
			e := rapid.IntRange(50, 62).Draw(t, "e")
			f = math.Ldexp(1, e) + float64(rapid.IntRange(-9, 9).Draw(t, "d"))
			if rapid.Bool().Draw(t, "neg") {
				f = -f
			}
		case 4: // limits of the type
			x := lo
			if rapid.Bool().Draw(t, "hi") {
				x = hi
			}
			g, _ := new(big.Float).SetInt(x).Float64()
			f = g + rapid.SampledFrom([]float64{0, 0.25, -0.25, 0.49, -0.49, -1, 1}).Draw(t, "d")
		case 5:
			f = rapid.SampledFrom([]float64{0, 0.49999999999999994, -0.49999999999999994, 0.5, -0.5, 4503599627370497, 4503599627370497.5, 9007199254740991, -4503599627370497}).Draw(t, "f")
		default:
			f = rapid.Float64Range(-1000, 1000).Draw(t, "f")
		}
		// nearest, halves away from zero, in exact arithmetic
		q := new(big.Rat).SetFloat64(f)
		neg := q.Sign() < 0
		q.Abs(q)
		q.Add(q, big.NewRat(1, 2))
		r = new(big.Int).Quo(q.Num(), q.Denom())
		if neg {
			r.Neg(r)
		}
		if r.Cmp(lo) >= 0 && r.Cmp(hi) <= 0 {
			return
		}
		f = 0
	}
}

func asBig(v interface{}) *big.Int {
	r := reflect.ValueOf(v)
	if r.CanInt() {
		return big.NewInt(r.Int())
	}
	return new(big.Int).SetUint64(r.Uint())
}

var numRows []row

func init() {
	for _, r := range rows {
		if k := reflect.TypeOf(r.zero).Kind(); numeric(k) && r.t != types.GoDuration {
			numRows = append(numRows, r)
		}
	}
}

func TestFromFloat(t *testing.T) {
	vh.Check(t, 240000, 4800000, func(t *rapid.T) {
		r := rapid.SampledFrom(numRows).Draw(t, "row")
		ty := reflect.TypeOf(r.zero)
		if ty.Kind() >= reflect.Float32 {
			f := vh.Float(t, ty.Bits(), "f")
			if v := r.t.FromFloat(f); !vh.Equal(v, reflect.ValueOf(f).Convert(ty).Interface()) {
				t.Fatalf("%v as %q is %s", f, r.t, vh.Show(v))
			}
			vh.Case(fmt.Sprint("fromfloat ", r.t, f), true)
			return
		}
		f, want := fl(t, ty)
		v := r.t.FromFloat(f)
		if reflect.TypeOf(v) != ty {
			t.Fatalf("%v as %q is a %T", f, r.t, v)
		}
		if asBig(v).Cmp(want) != 0 {
			t.Fatalf("%v as %q is %v, want %v", f, r.t, v, want)
		}
		vh.Case(fmt.Sprint("fromfloat ", r.t, f), f != math.Trunc(f) || math.Abs(f) > 1000)
	})
}

func TestRoundTrip(t *testing.T) {
	vh.Check(t, 180000, 3000000, func(t *rapid.T) {
		r := rapid.SampledFrom(numRows).Draw(t, "row")
		ty := reflect.TypeOf(r.zero)
		var v interface{}
		for _, g := range vh.GoTypes {
			if g.Kind == r.t && g.T == g.Canon {
				v = vh.Value(t, g, false, "v")
			}
		}
		f := r.t.ToFloat(v)
		if ty.Kind() >= reflect.Float32 {
			if f != reflect.ValueOf(v).Float() || !vh.Equal(r.t.FromFloat(f), v) {
				t.Fatalf("%s becomes %v, then %s", vh.Show(v), f, vh.Show(r.t.FromFloat(f)))
			}
			vh.Case(fmt.Sprint("roundtrip ", r.t, v), true)
			return
		}
		n := asBig(v)
		near, acc := new(big.Float).SetInt(n).Float64()
		if f != near {
			t.Fatalf("%s as a float is %v, want %v", vh.Show(v), f, near)
		}
		if acc == big.Exact {
			if back := r.t.FromFloat(f); !vh.Equal(back, v) {
				t.Fatalf("%s becomes float %v, then %s", vh.Show(v), f, vh.Show(back))
			}
		}
		vh.Case(fmt.Sprint("roundtrip ", r.t, v), n.CmpAbs(big.NewInt(1000)) > 0)
	})
}

// Times and durations convert through the same functions.
func TestTimely(t *testing.T) {
	vh.Check(t, 30000, 300000, func(t *rapid.T) {
		d := vh.Dur(t, "d")
		if d > 1<<50 || d < -1<<50 {
			d >>= 14
		}
		f := types.GoDuration.ToFloat(d)
		if math.Abs(f-float64(d)/1e9) > 1e-12*math.Abs(f) || !vh.Equal(types.GoDuration.FromFloat(f), d) {
			t.Fatalf("%d ns becomes %v, then %s", int64(d), f, vh.Show(types.GoDuration.FromFloat(f)))
		}
		tm := vh.Time(t, "t")
		g := types.GoTime.ToFloat(tm)
		back, ok := types.GoTime.FromFloat(g).(time.Time)
		if !ok || math.Abs(float64(back.Unix())-float64(tm.Unix())) > 1 {
			t.Fatalf("%v becomes %v, then %v", tm, g, back)
		}
		vh.Case(fmt.Sprint("timely ", int64(d), vh.TimeNs(tm)), true)
	})
}
