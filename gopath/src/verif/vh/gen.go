package vh

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
	"verif/vh/named"
)

// Named types with each supported underlying kind.
type (
	NBool    bool
	NInt     int
	NInt8    int8
	NInt16   int16
	NInt32   int32
	NInt64   int64
	NUint    uint
	NUint8   uint8
	NUint16  uint16
	NUint32  uint32
	NUint64  uint64
	NFloat32 float32
	NFloat64 float64
	NString  string
)

// GoType is one Go type tricorder can report.
type GoType struct {
	Name  string
	Kind  types.Type   // documented kind
	T     reflect.Type // type of the variable
	Canon reflect.Type // documented type of the reported value
	Bits  int
	Named bool
	Ptr   bool // *time.Time
}

func rt(x interface{}) reflect.Type { return reflect.TypeOf(x) }

// GoTypes are all scalar types supported.
var GoTypes = []GoType{
	{"bool", types.Bool, rt(false), rt(false), 0, false, false},
	{"int", types.Int64, rt(int(0)), rt(int64(0)), 64, false, false},
	{"int8", types.Int8, rt(int8(0)), rt(int8(0)), 8, false, false},
	{"int16", types.Int16, rt(int16(0)), rt(int16(0)), 16, false, false},
	{"int32", types.Int32, rt(int32(0)), rt(int32(0)), 32, false, false},
	{"int64", types.Int64, rt(int64(0)), rt(int64(0)), 64, false, false},
	{"uint", types.Uint64, rt(uint(0)), rt(uint64(0)), 64, false, false},
	{"uint8", types.Uint8, rt(uint8(0)), rt(uint8(0)), 8, false, false},
	{"uint16", types.Uint16, rt(uint16(0)), rt(uint16(0)), 16, false, false},
	{"uint32", types.Uint32, rt(uint32(0)), rt(uint32(0)), 32, false, false},
	{"uint64", types.Uint64, rt(uint64(0)), rt(uint64(0)), 64, false, false},
	{"float32", types.Float32, rt(float32(0)), rt(float32(0)), 32, false, false},
	{"float64", types.Float64, rt(float64(0)), rt(float64(0)), 64, false, false},
	{"string", types.String, rt(""), rt(""), 0, false, false},
	{"time", types.GoTime, rt(time.Time{}), rt(time.Time{}), 0, false, false},
	{"duration", types.GoDuration, rt(time.Duration(0)), rt(time.Duration(0)), 0, false, false},
	{"*time", types.GoTime, rt((*time.Time)(nil)), rt(time.Time{}), 0, false, true},
	{"Nbool", types.Bool, rt(NBool(false)), rt(false), 0, true, false},
	{"Nint", types.Int64, rt(NInt(0)), rt(int64(0)), 64, true, false},
	{"Nint8", types.Int8, rt(NInt8(0)), rt(int8(0)), 8, true, false},
	{"Nint16", types.Int16, rt(NInt16(0)), rt(int16(0)), 16, true, false},
	{"Nint32", types.Int32, rt(NInt32(0)), rt(int32(0)), 32, true, false},
	{"Nint64", types.Int64, rt(NInt64(0)), rt(int64(0)), 64, true, false},
	{"Nuint", types.Uint64, rt(NUint(0)), rt(uint64(0)), 64, true, false},
	{"Nuint8", types.Uint8, rt(NUint8(0)), rt(uint8(0)), 8, true, false},
	{"Nuint16", types.Uint16, rt(NUint16(0)), rt(uint16(0)), 16, true, false},
	{"Nuint32", types.Uint32, rt(NUint32(0)), rt(uint32(0)), 32, true, false},
	{"Nuint64", types.Uint64, rt(NUint64(0)), rt(uint64(0)), 64, true, false},
	{"Nfloat32", types.Float32, rt(NFloat32(0)), rt(float32(0)), 32, true, false},
	{"Nfloat64", types.Float64, rt(NFloat64(0)), rt(float64(0)), 64, true, false},
	{"Nstring", types.String, rt(NString("")), rt(""), 0, true, false},
	{"NDuration", types.Int64, rt(named.Duration(0)), rt(int64(0)), 64, true, false},
	{"NTime", types.String, rt(named.Time("")), rt(""), 0, true, false},
	{"NMonth", types.Int64, rt(named.Month(0)), rt(int64(0)), 64, true, false},
	{"NWeekday", types.Uint8, rt(named.Weekday(0)), rt(uint8(0)), 8, true, false},
	{"NSeconds", types.Float64, rt(named.Seconds(0)), rt(float64(0)), 64, true, false},
	{"time.Month", types.Int64, rt(time.Month(0)), rt(int64(0)), 64, true, false},
}

// AllUnits are the units of measurement.
var AllUnits = []units.Unit{units.None, units.Second, units.Millisecond,
	units.Byte, units.BytePerSecond, units.Celsius, units.Unknown}

// Unit draws a unit.
func Unit(t *rapid.T) units.Unit { return rapid.SampledFrom(AllUnits).Draw(t, "unit") }

// Strings with the characters that matter to some renderer.
var nasty = []string{"", " ", "a", "<script>alert(1)</script>", "\"", "'", "&amp;", "a&b", "<", ">",
	"</span>", "-->", "{{.}}", "%41", "100%", "a?b=c", "a#b", "a;b", "a|b", "\\", "\t", "é", "日本",
	"a+b", "javascript:x", "x\ny", "`", "=", "{min:1}", "true", "null", "\u2028", "a:b", "@", "\r", "\"><img src=x>", "<b>bold</b>", "<a href=\"/x\">x</a>", "x <i>y</i>"}

// Text draws a valid UTF-8 string without NUL, biased to awkward ones.
func Text(t *rapid.T, label string) string {
	if rapid.IntRange(0, 39).Draw(t, label+"l") == 39 {
		return LongText(t, 70000, label)
	}
	switch rapid.IntRange(0, 3).Draw(t, label+"?") {
	case 0:
		return rapid.SampledFrom(nasty).Draw(t, label)
	case 1:
		return rapid.StringN(0, 8, 20).Filter(okText).Draw(t, label)
	case 2:
		return rapid.StringMatching(`[a-zA-Z0-9 <>&"'/%?#|;:+=.,_-]{0,12}`).Draw(t, label)
	default:
		return rapid.StringMatching(`[a-z]{1,6}`).Draw(t, label)
	}
}

// RawText draws a string of any bytes, valid UTF-8 or not.
func RawText(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 4).Draw(t, label+"raw") {
	case 0:
		return rapid.SampledFrom([]string{"\xff", "a\x00b", "\x00", "\xc3\x28", "ok\xed\xa0\x80", "\xfe\xff", "\ufffd", "\x80abc", "x\xe2\x82", "\x1b[0m", "\x7f"}).Draw(t, label)
	case 1:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, label))
	}
	return Text(t, label)
}

// LongText draws a string of up to max bytes or so, of all magnitudes.
func LongText(t *rapid.T, max int, label string) string {
	unit := rapid.SampledFrom([]string{"abcdefghi ", "x", "<&>\"", "日本é", "0123456789"}).Draw(t, label)
	e := rapid.IntRange(4, 17).Draw(t, label+"e")
	n := rapid.IntRange(1<<uint(e-1), 1<<uint(e)).Draw(t, label+"n")
	if rapid.IntRange(0, 3).Draw(t, label+"r") == 3 { // hard to compress
		r := rand.New(rand.NewSource(rapid.Int64().Draw(t, label+"seed")))
		b := make([]byte, n+n%7*n/5)
		if len(b) > 2*max {
			b = b[:2*max]
		}
		for i := range b {
			b[i] = byte(33 + r.Intn(94))
		}
		return string(b)
	}
	if n > max {
		n = max
	}
	return strings.Repeat(unit, n/len(unit)+1) + rapid.StringMatching(`[a-z]{0,3}`).Draw(t, label+"t")
}

func okText(s string) bool {
	return utf8.ValidString(s) && !strings.ContainsAny(s, "\x00")
}

// Int64 draws an integer of n bits biased to boundaries.
func Int64(t *rapid.T, bits int, label string) int64 {
	lo, hi := int64(-1)<<(bits-1), int64(1)<<(bits-1)-1
	if bits == 64 {
		lo, hi = math.MinInt64, math.MaxInt64
	}
	switch rapid.IntRange(0, 5).Draw(t, label+"?") {
	case 0:
		return rapid.SampledFrom([]int64{0, 1, -1, lo, hi, lo + 1, hi - 1}).Draw(t, label)
	case 1: // around powers of ten
		v := int64(math.Pow(10, float64(rapid.IntRange(0, 18).Draw(t, label+"e")))) * rapid.Int64Range(1, 9).Draw(t, label+"m")
		v += rapid.Int64Range(-2, 2).Draw(t, label+"d")
		if rapid.Bool().Draw(t, label+"-") {
			v = -v
		}
		return wrap(v, bits)
	case 2: // around powers of two
		v := int64(uint64(1) << uint(rapid.IntRange(0, 63).Draw(t, label+"e")))
		v += rapid.Int64Range(-2, 2).Draw(t, label+"d")
		if rapid.Bool().Draw(t, label+"-") {
			v = -v
		}
		return wrap(v, bits)
	case 3:
		v := rapid.Int64Range(-200000, 200000).Draw(t, label)
		return wrap(v, bits)
	default:
		return rapid.Int64Range(lo, hi).Draw(t, label)
	}
}

func wrap(v int64, bits int) int64 { return v << uint(64-bits) >> uint(64-bits) }

// Uint64 draws an unsigned integer of n bits biased to boundaries.
func Uint64(t *rapid.T, bits int, label string) uint64 {
	hi := uint64(math.MaxUint64) >> uint(64-bits)
	switch rapid.IntRange(0, 5).Draw(t, label+"?") {
	case 0:
		return rapid.SampledFrom([]uint64{0, 1, hi, hi - 1, hi / 2, hi/2 + 1}).Draw(t, label)
	case 1:
		v := uint64(math.Pow(10, float64(rapid.IntRange(0, 19).Draw(t, label+"e")))) * rapid.Uint64Range(1, 9).Draw(t, label+"m")
		return (v + rapid.Uint64Range(0, 4).Draw(t, label+"d") - 2) & hi
	case 2:
		v := uint64(1) << uint(rapid.IntRange(0, 63).Draw(t, label+"e"))
		return (v + rapid.Uint64Range(0, 4).Draw(t, label+"d") - 2) & hi
	case 3:
		return rapid.Uint64Range(0, 200000).Draw(t, label) & hi
	default:
		return rapid.Uint64Range(0, hi).Draw(t, label)
	}
}

// Float draws a finite float that fits bits (32 or 64).
func Float(t *rapid.T, bits int, label string) float64 {
	max := math.MaxFloat64
	if bits == 32 {
		max = math.MaxFloat32
	}
	var f float64
	switch rapid.IntRange(0, 3).Draw(t, label+"?") {
	case 0:
		f = rapid.SampledFrom([]float64{0, 1, -1, 0.5, 0.1, -2.25, 1e21, 1e-7, 123456789.125, max, -max,
			math.SmallestNonzeroFloat32, math.Copysign(0, -1), 16777217, 1e15 + 0.5}).Draw(t, label)
	case 1:
		f = float64(rapid.Int64Range(-1000000, 1000000).Draw(t, label)) / 64
	default:
		f = rapid.Float64Range(-max, max).Draw(t, label)
	}
	if bits == 32 {
		f = float64(float32(f))
		if math.IsInf(f, 0) {
			f = 1
		}
	}
	return f
}

// Time draws a time of the years 1..9999.
func Time(t *rapid.T, label string) time.Time {
	const lo, hi = -62135596800, 253402300799
	var r time.Time
	ns := rapid.OneOf(rapid.SampledFrom([]int64{0, 1, 999999999, 500000000, 1000, 1000000}), rapid.Int64Range(0, 999999999))
	switch rapid.IntRange(0, 4).Draw(t, label+"?") {
	case 0:
		r = time.Unix(rapid.SampledFrom([]int64{lo, lo + 1, -1, 0, 1, hi, -2, 1464217799, -86400}).Draw(t, label), ns.Draw(t, label+"ns"))
	case 1:
		r = time.Unix(rapid.Int64Range(lo, hi).Draw(t, label), ns.Draw(t, label+"ns"))
	case 2:
		r = time.Unix(rapid.Int64Range(-3, 3).Draw(t, label), ns.Draw(t, label+"ns"))
	case 3:
		return time.Time{}
	default:
		r = time.Unix(rapid.Int64Range(1e9, 2e9).Draw(t, label), ns.Draw(t, label+"ns"))
	}
	switch rapid.IntRange(0, 2).Draw(t, label+"z") {
	case 0:
		return r.UTC()
	case 1:
		return r.In(time.FixedZone("X", 3600*rapid.IntRange(-11, 12).Draw(t, label+"zone")))
	default:
		return r
	}
}

// Dur draws a duration over all magnitudes.
func Dur(t *rapid.T, label string) time.Duration {
	switch rapid.IntRange(0, 3).Draw(t, label+"?") {
	case 0:
		d := rapid.SampledFrom([]int64{0, 1, 9999, 10000, 9999999, 10000000, 999999999, 1e9, 1e9 + 1, 59999999999, 60e9,
			3599999999999, 3600e9, 86399999999999, 86400e9, math.MaxInt64, math.MinInt64 + 1}).Draw(t, label)
		if rapid.Bool().Draw(t, label+"-") {
			d = -d
		}
		return time.Duration(d)
	case 1:
		e := rapid.IntRange(0, 62).Draw(t, label+"e")
		d := rapid.Int64Range(0, int64(1)<<uint(e)).Draw(t, label)
		if rapid.Bool().Draw(t, label+"-") {
			d = -d
		}
		return time.Duration(d)
	case 2:
		return time.Duration(rapid.Int64Range(-5000, 5000).Draw(t, label)) * time.Millisecond
	default:
		return time.Duration(rapid.Int64().Draw(t, label))
	}
}

// Value draws a value of the canonical type of g. nonFinite allows NaN and infinities.
func Value(t *rapid.T, g GoType, nonFinite bool, label string) interface{} {
	var v interface{}
	switch k := g.Canon.Kind(); {
	case g.Kind == types.GoTime:
		return Time(t, label)
	case g.Kind == types.GoDuration:
		return Dur(t, label)
	case k == reflect.Bool:
		v = rapid.Bool().Draw(t, label)
	case k >= reflect.Int && k <= reflect.Int64:
		v = Int64(t, g.Bits, label)
	case k >= reflect.Uint && k <= reflect.Uint64:
		v = Uint64(t, g.Bits, label)
	case k == reflect.Float32 || k == reflect.Float64:
		if nonFinite && rapid.IntRange(0, 2).Draw(t, label+"nf") == 0 {
			v = rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}).Draw(t, label)
		} else {
			v = Float(t, g.Bits, label)
		}
	case k == reflect.String:
		v = Text(t, label)
	default:
		panic("no generator for " + g.Name)
	}
	return reflect.ValueOf(v).Convert(g.Canon).Interface()
}

// Cell is a variable of some Go type the harness controls.
type Cell struct {
	G     GoType
	v     reflect.Value // pointer to the variable
	Isnil bool          // *time.Time that is nil
}

// NewCell makes a variable.
func NewCell(g GoType) *Cell { return &Cell{G: g, v: reflect.New(g.T), Isnil: g.Ptr} }

// Set stores a value of the canonical type.
func (c *Cell) Set(v interface{}) {
	if c.G.Ptr {
		tm := v.(time.Time)
		c.v.Elem().Set(reflect.ValueOf(&tm))
		c.Isnil = false
		return
	}
	c.v.Elem().Set(reflect.ValueOf(v).Convert(c.G.T))
}

// SetNil makes a *time.Time variable nil.
func (c *Cell) SetNil() {
	c.v.Elem().Set(reflect.Zero(c.G.T))
	c.Isnil = true
}

// Get is the value that has to be reported.
func (c *Cell) Get() interface{} {
	if c.G.Ptr {
		if c.Isnil {
			return time.Time{}
		}
		return *(c.v.Elem().Interface().(*time.Time))
	}
	return c.v.Elem().Convert(c.G.Canon).Interface()
}

// Raw is the variable's content in its own type.
func (c *Cell) Raw() interface{} { return c.v.Elem().Interface() }

// Pointer is what is registered to publish the variable.
func (c *Cell) Pointer() interface{} { return c.v.Interface() }

// Func is a callback returning the variable's value; pre runs first.
func (c *Cell) Func(pre func()) interface{} {
	ft := reflect.FuncOf(nil, []reflect.Type{c.G.T}, false)
	return reflect.MakeFunc(ft, func([]reflect.Value) []reflect.Value {
		if pre != nil {
			pre()
		}
		return []reflect.Value{reflect.ValueOf(c.v.Elem().Interface())}
	}).Interface()
}

// Equal compares reported values of the documented types; times as instants,
// floats bit for bit except that all NaN are alike.
func Equal(a, b interface{}) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	switch x := a.(type) {
	case time.Time:
		return x.Equal(b.(time.Time))
	case float64:
		y := b.(float64)
		return x == y || (x != x && y != y)
	case float32:
		y := b.(float32)
		return x == y || (x != x && y != y)
	}
	v, w := reflect.ValueOf(a), reflect.ValueOf(b)
	if v.Kind() == reflect.Slice {
		if v.Len() != w.Len() {
			return false
		}
		for i := 0; i < v.Len(); i++ {
			if !Equal(v.Index(i).Interface(), w.Index(i).Interface()) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

// Show describes a value with its type, deterministically.
func Show(v interface{}) string {
	switch x := v.(type) {
	case time.Time:
		return "time " + x.UTC().Format(time.RFC3339Nano)
	case string:
		return "string " + strconv.Quote(x)
	}
	return fmt.Sprintf("%T %v", v, v)
}

// NonFinite tells whether a value has a NaN or an infinity in it.
func NonFinite(v interface{}) bool {
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Float32, reflect.Float64:
		return math.IsNaN(r.Float()) || math.IsInf(r.Float(), 0)
	case reflect.Slice:
		for i := 0; i < r.Len(); i++ {
			if NonFinite(r.Index(i).Interface()) {
				return true
			}
		}
	}
	return false
}

var billion = big.NewInt(1000000000)

// Decimal formats ns nanoseconds as a decimal in unit with nine fractional digits.
func Decimal(ns *big.Int, unit units.Unit) string {
	n := new(big.Int).Set(ns)
	if unit == units.Millisecond {
		n.Mul(n, big.NewInt(1000))
	}
	sign := ""
	if n.Sign() < 0 {
		sign = "-"
		n.Neg(n)
	}
	q, r := new(big.Int).QuoRem(n, billion, new(big.Int))
	return fmt.Sprintf("%s%s.%09d", sign, q.String(), r.Int64())
}

// TimeNs is the time since the epoch in nanoseconds.
func TimeNs(t time.Time) *big.Int {
	n := new(big.Int).Mul(big.NewInt(t.Unix()), billion)
	return n.Add(n, big.NewInt(int64(t.Nanosecond())))
}

// TimeText is how a time value is written; the zero time is 0.
func TimeText(t time.Time, unit units.Unit) string {
	if t.IsZero() {
		return Decimal(new(big.Int), unit)
	}
	return Decimal(TimeNs(t), unit)
}

// DurText is how a duration is written.
func DurText(d time.Duration, unit units.Unit) string {
	return Decimal(big.NewInt(int64(d)), unit)
}

// PlainText is the plain-text form of a scalar.
func PlainText(v interface{}, unit units.Unit) string {
	switch x := v.(type) {
	case time.Time:
		return TimeText(x, unit)
	case time.Duration:
		return DurText(x, unit)
	case string:
		return `"` + x + `"`
	case bool:
		if x {
			return "true"
		}
		return "false"
	case float32:
		return strconv.FormatFloat(float64(x), 'f', -1, 32)
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64)
	}
	r := reflect.ValueOf(v)
	if r.CanInt() {
		return strconv.FormatInt(r.Int(), 10)
	}
	return strconv.FormatUint(r.Uint(), 10)
}

// KindName is the documented name of a kind, as it goes over the wire.
func KindName(k types.Type) string {
	switch k {
	case types.Unknown:
		return ""
	case types.Bool:
		return "bool"
	case types.Int8:
		return "int8"
	case types.Int16:
		return "int16"
	case types.Int32:
		return "int32"
	case types.Int64:
		return "int64"
	case types.Uint8:
		return "uint8"
	case types.Uint16:
		return "uint16"
	case types.Uint32:
		return "uint32"
	case types.Uint64:
		return "uint64"
	case types.Float32:
		return "float32"
	case types.Float64:
		return "float64"
	case types.String:
		return "string"
	case types.GoTime:
		return "goTime"
	case types.GoDuration:
		return "goDuration"
	case types.Dist:
		return "distribution"
	case types.List:
		return "list"
	case types.Time:
		return "time"
	case types.Duration:
		return "duration"
	}
	panic("no name for kind " + string(k))
}

// JsonName is the name of a kind in JSON and on pages.
func JsonName(k types.Type) string { return KindName(JsonKind(k)) }

// UnitName is the documented name of a unit on the wire; other units are their own.
func UnitName(u units.Unit) string {
	switch u {
	case units.None:
		return "None"
	case units.Second:
		return "Seconds"
	case units.Millisecond:
		return "Milliseconds"
	case units.Byte:
		return "Bytes"
	case units.BytePerSecond:
		return "BytesPerSecond"
	case units.Celsius:
		return "Celsius"
	}
	return string(u)
}

// JsonKind is the kind under which a Go RPC kind appears in JSON.
func JsonKind(k types.Type) types.Type {
	switch k {
	case types.GoTime:
		return types.Time
	case types.GoDuration:
		return types.Duration
	}
	return k
}

// SliceOf makes a slice of g.T (or of a named slice type's element) from canonical values.
func SliceOf(g GoType, vals []interface{}) interface{} {
	s := reflect.MakeSlice(reflect.SliceOf(g.T), len(vals), len(vals))
	for i, v := range vals {
		s.Index(i).Set(reflect.ValueOf(v).Convert(g.T))
	}
	return s.Interface()
}

// CanonSlice makes a slice of the documented element type.
func CanonSlice(g GoType, vals []interface{}) interface{} {
	s := reflect.MakeSlice(reflect.SliceOf(g.Canon), len(vals), len(vals))
	for i, v := range vals {
		s.Index(i).Set(reflect.ValueOf(v))
	}
	return s.Interface()
}
