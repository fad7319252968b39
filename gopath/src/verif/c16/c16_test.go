package c16

import (
	"fmt"
	"math/big"
	"reflect"
	"regexp"
	"strings"
	"testing"
	"time"

	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "a case is one generated metric of any kind, sub-type, unit, value and timestamp converted to JSON form and back (twice each way), or one JSON-form metric with a malformed value or timestamp; non-trivial if it is a time, a duration, a list, a distribution or malformed; distinct by metric")
}

var canon []vh.GoType

func init() {
	for _, g := range vh.GoTypes {
		if g.T == g.Canon {
			canon = append(canon, g)
		}
	}
}

func stamp(t *rapid.T) interface{} {
	if rapid.IntRange(0, 3).Draw(t, "nots") == 0 {
		return nil
	}
	return vh.Time(t, "ts")
}

// gen draws a Go RPC metric, whose value may be a nil list.
func gen(t *rapid.T) *messages.Metric {
	m := &messages.Metric{
		Path: vh.Text(t, "path"), Description: vh.Text(t, "desc"), Unit: vh.Unit(t),
		GroupId: rapid.IntRange(-1, 50).Draw(t, "group"), TimeStamp: stamp(t),
	}
	g := rapid.SampledFrom(canon).Draw(t, "type")
	switch rapid.IntRange(0, 6).Draw(t, "shape") {
	case 0:
		m.Kind = types.Dist
		m.Value = &messages.Distribution{Min: 1, Max: 3, Sum: 4, Count: 2, Generation: rapid.Uint64().Draw(t, "gen"),
			Ranges: []*messages.RangeWithCount{{Upper: 2, Count: 1}, {Lower: 2, Count: 1}}}
		if rapid.IntRange(0, 4).Draw(t, "nil") == 0 {
			m.Value = (*messages.Distribution)(nil)
		}
	case 1, 2:
		m.Kind, m.SubType, m.Bits = types.List, g.Kind, g.Kind.Bits()
		vals := make([]interface{}, rapid.IntRange(0, 4).Draw(t, "n"))
		for i := range vals {
			vals[i] = vh.Value(t, g, true, "e")
			if _, ok := vals[i].(string); ok {
				vals[i] = vh.RawText(t, "s")
			}
		}
		if n := len(vals); n > 0 && rapid.IntRange(0, 29).Draw(t, "long") == 29 {
			most := 300
			if rapid.IntRange(0, 49).Draw(t, "longer") == 49 {
				size := 0
				for _, v := range vals {
					s, _ := v.(string)
					size += len(s)
				}
				if size < 200 {
					most = rapid.SampledFrom([]int{3000, 20000, 140000}).Draw(t, "most")
				}
			}
			for m := rapid.IntRange(5+(most-300)/3, most).Draw(t, "m"); len(vals) < m; {
				vals = append(vals, vals[len(vals)-n])
			}
		}
		m.Value = vh.CanonSlice(g, vals)
		if len(vals) == 0 && rapid.Bool().Draw(t, "nil") {
			m.Value = g.Kind.NilSlice()
		}
	default:
		m.Kind, m.Bits, m.Value = g.Kind, g.Kind.Bits(), vh.Value(t, g, true, "v")
		if g.Kind == types.String {
			m.Value = vh.RawText(t, "s")
		}
	}
	return m
}

// jsonOf is the documented JSON form of a value.
func jsonOf(m *messages.Metric) (interface{}, types.Type, types.Type) {
	str := func(x interface{}) string { return vh.PlainText(x, m.Unit) }
	switch {
	case m.Kind == types.GoTime || m.Kind == types.GoDuration:
		return str(m.Value), vh.JsonKind(m.Kind), ""
	case m.Kind == types.List && (m.SubType == types.GoTime || m.SubType == types.GoDuration):
		s := []string{}
		r := reflect.ValueOf(m.Value)
		for i := 0; i < r.Len(); i++ {
			s = append(s, str(r.Index(i).Interface()))
		}
		return s, types.List, vh.JsonKind(m.SubType)
	case m.Kind == types.List:
		r := reflect.ValueOf(m.Value)
		if r.IsNil() {
			return reflect.MakeSlice(r.Type(), 0, 0).Interface(), types.List, m.SubType
		}
	}
	return m.Value, m.Kind, m.SubType
}

// epoch maps zero times to the epoch.
func epoch(v interface{}) interface{} {
	switch x := v.(type) {
	case time.Time:
		if x.IsZero() {
			return time.Unix(0, 0)
		}
	case []time.Time:
		y := make([]time.Time, len(x))
		for i := range x {
			y[i] = epoch(x[i]).(time.Time)
		}
		return y
	}
	return v
}

func nilSlice(v interface{}) bool {
	r := reflect.ValueOf(v)
	return r.Kind() == reflect.Slice && r.IsNil()
}

func sameTs(a, b interface{}) bool {
	x, ok := a.(time.Time)
	y, ok2 := b.(time.Time)
	if ok && ok2 {
		return x.Equal(y)
	}
	return a == b
}

// same compares metrics in every field.
func same(a, b *messages.Metric) bool {
	x, y := *a, *b
	if !vh.Equal(x.Value, y.Value) || nilSlice(x.Value) != nilSlice(y.Value) || !sameTs(x.TimeStamp, y.TimeStamp) {
		return false
	}
	x.Value, y.Value, x.TimeStamp, y.TimeStamp = nil, nil, nil, nil
	return x == y
}

func show(m *messages.Metric) string {
	ts := "nil"
	if m.TimeStamp != nil {
		ts = vh.Show(m.TimeStamp)
	}
	v := fmt.Sprintf("%T", m.Value)
	if _, ok := m.Value.(*messages.Distribution); !ok {
		v = vh.Show(m.Value)
	}
	return fmt.Sprintf("{%q %q unit %q kind %q sub %q bits %d group %d value %s timestamp %s}", m.Path, m.Description, m.Unit, m.Kind, m.SubType, m.Bits, m.GroupId, v, ts)
}

// clone copies a metric with everything its value holds.
func clone(m *messages.Metric) *messages.Metric {
	c := *m
	if d, ok := m.Value.(*messages.Distribution); ok && d != nil {
		e := *d
		e.Ranges = nil
		for _, r := range d.Ranges {
			x := *r
			e.Ranges = append(e.Ranges, &x)
		}
		c.Value = &e
	} else if v := reflect.ValueOf(m.Value); v.Kind() == reflect.Slice && !v.IsNil() {
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(s, v)
		c.Value = s.Interface()
	}
	return &c
}

// Conversions at the same time do not disturb each other.
func TestParallel(t *testing.T) {
	vh.Check(t, 1500, 15000, func(t *rapid.T) {
		var reqs []vh.Req
		for i := rapid.IntRange(2, 6).Draw(t, "n"); i > 0; i-- {
			orig := gen(t)
			reqs = append(reqs, vh.Req{What: show(orig), Do: func() string {
				m := *orig
				m.ConvertToJson()
				s := show(&m)
				err := m.ConvertToGoRPC()
				return fmt.Sprint(s, " ", show(&m), " ", err)
			}})
		}
		if wrong := vh.Parallel(t, reqs); wrong != "" {
			t.Fatalf("%s", wrong)
		}
		vh.Case("parallel "+reqs[0].What+reqs[1].What, true)
	})
}

func TestRoundTrip(t *testing.T) {
	vh.Check(t, 180000, 900000, func(t *rapid.T) {
		given := gen(t)
		orig := clone(given)
		m := *given
		// converting what is already in Go RPC form changes nothing
		if err := m.ConvertToGoRPC(); err != nil || !same(&m, orig) {
			t.Fatalf("%s in Go RPC form becomes %s, %v", show(orig), show(&m), err)
		}
		want := *orig
		want.Value, want.Kind, want.SubType = jsonOf(orig)
		want.TimeStamp = ""
		if ts, ok := orig.TimeStamp.(time.Time); ok {
			want.TimeStamp = vh.Decimal(vh.TimeNs(ts), units.Second)
		}
		v, k, s := messages.AsJsonWithSubType(orig.Value, orig.Kind, orig.SubType, orig.Unit)
		if !vh.Equal(v, want.Value) || nilSlice(v) || k != want.Kind || s != want.SubType {
			t.Fatalf("AsJsonWithSubType of %s is %s, %q, %q", show(orig), vh.Show(v), k, s)
		}
		m.ConvertToJson()
		if !same(&m, &want) {
			t.Fatalf("%s as JSON is %s, want %s", show(orig), show(&m), show(&want))
		}
		j := m
		m.ConvertToJson()
		if !same(&m, &j) {
			t.Fatalf("JSON form %s converted again is %s", show(&j), show(&m))
		}
		if err := m.ConvertToGoRPC(); err != nil {
			t.Fatalf("JSON form %s is refused: %v", show(&j), err)
		}
		back := *orig
		back.Value = epoch(orig.Value)
		if nilSlice(back.Value) {
			back.Value = reflect.MakeSlice(reflect.TypeOf(back.Value), 0, 0).Interface()
		}
		if !same(&m, &back) {
			t.Fatalf("%s through JSON %s comes back as %s", show(orig), show(&j), show(&m))
		}
		r := m
		if err := m.ConvertToGoRPC(); err != nil || !same(&m, &r) {
			t.Fatalf("Go RPC form %s converted again is %s, %v", show(&r), show(&m), err)
		}
		m.ConvertToJson()
		if !same(&m, &j) {
			t.Fatalf("%s to JSON is %s, was %s", show(&r), show(&m), show(&j))
		}
		if !same(given, orig) {
			t.Fatalf("converting copies of %s left it as %s", show(orig), show(given))
		}
		vh.Case(show(orig), orig.Kind == types.GoTime || orig.Kind == types.GoDuration || orig.Kind == types.List || orig.Kind == types.Dist)
	})
}

var number = regexp.MustCompile(`^[-+]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][-+]?[0-9]+)?$`)

func badString(t *rapid.T, dur bool) string {
	for {
		var s string
		switch rapid.IntRange(0, 4).Draw(t, "bad?") {
		case 0:
			s = rapid.SampledFrom([]string{"x", "--1", "--0.5", "-+1", "1.2.3", "1 ", " 1", "1.123456789x", "0x10", "1,5", "NaN", "inf", "-", ".", "-.", "true", "1.-5", "1.+5", "5s", "١"}).Draw(t, "bad")
		case 1:
			s = rapid.StringMatching(`-?[0-9]{1,5}\.[0-9]{0,14}[-+x_. ][0-9]{0,3}`).Draw(t, "bad")
		case 2:
			s = rapid.StringMatching(`[-+.0-9 x_]{1,8}`).Draw(t, "bad")
		case 3:
			if !dur {
				continue
			}
			// a number no duration can hold
			s = rapid.StringMatching(`-?[1-9][0-9]{13,17}(\.[0-9]{1,9})?`).Draw(t, "bad")
			return s
		default:
			s = rapid.StringN(1, 8, 30).Draw(t, "bad")
		}
		if !number.MatchString(s) && s != "" {
			return s
		}
	}
}

func goodString(t *rapid.T) string {
	return vh.Decimal(big.NewInt(rapid.Int64Range(-1e15, 1e15).Draw(t, "good")), units.Second)
}

// Malformed JSON-form metrics are refused and left alone.
func TestMalformed(t *testing.T) {
	vh.Check(t, 120000, 600000, func(t *rapid.T) {
		m := &messages.Metric{Path: vh.Text(t, "path"), Description: vh.Text(t, "desc"), Unit: vh.Unit(t), GroupId: rapid.IntRange(0, 9).Draw(t, "group")}
		kind := rapid.SampledFrom([]types.Type{types.Time, types.Duration}).Draw(t, "kind")
		list := rapid.Bool().Draw(t, "list")
		if list {
			m.Kind, m.SubType = types.List, kind
			var s []string
			for n := rapid.IntRange(0, 4).Draw(t, "n"); n > 0; n-- {
				s = append(s, goodString(t))
			}
			if n := len(s); n > 0 && rapid.IntRange(0, 29).Draw(t, "long") == 29 {
				for m := rapid.IntRange(5, 300).Draw(t, "m"); len(s) < m; {
					s = append(s, s[len(s)-n])
				}
			}
			m.Value = s
		} else {
			m.Kind, m.Value = kind, goodString(t)
		}
		m.TimeStamp = goodString(t)
		if rapid.Bool().Draw(t, "other") { // a metric of any other kind, bad timestamp
			g := gen(t)
			g.ConvertToJson()
			m.Kind, m.SubType, m.Value = g.Kind, g.SubType, g.Value
		}
		stampOnly := m.Kind != types.Time && m.Kind != types.Duration && m.SubType != types.Time && m.SubType != types.Duration
		what := rapid.IntRange(0, 2).Draw(t, "what")
		if stampOnly {
			what = 2
		}
		switch what {
		case 0: // not a decimal
			dur := m.Kind == types.Duration || m.SubType == types.Duration
			if m.Kind == types.List {
				s := append([]string(nil), m.Value.([]string)...)
				i := rapid.IntRange(0, len(s)).Draw(t, "at")
				s = append(s[:i], append([]string{badString(t, dur)}, s[i:]...)...)
				m.Value = s
			} else {
				m.Value = badString(t, dur)
			}
		case 1: // wrong Go type
			pool := []interface{}{nil, 1.5, int64(3), true, []interface{}{"1.0"}, []float64{1}, time.Unix(5, 0), time.Second, []time.Duration{1}, []time.Time{}, map[string]interface{}{}}
			if m.Kind == types.List {
				pool = append(pool, "1.000000000")
			} else {
				pool = append(pool, []string{"1.000000000"}, []string(nil))
			}
			m.Value = rapid.SampledFrom(pool).Draw(t, "value")
		default:
			if rapid.Bool().Draw(t, "tstype") {
				m.TimeStamp = rapid.SampledFrom([]interface{}{1.5, int64(3), true, []string{}, time.Second, map[string]interface{}{}}).Draw(t, "ts")
			} else {
				m.TimeStamp = badString(t, false)
			}
		}
		before := *m
		err := m.ConvertToGoRPC()
		desc := fmt.Sprintf("{unit %q kind %q sub %q value %#v timestamp %#v}", before.Unit, before.Kind, before.SubType, before.Value, before.TimeStamp)
		if err == nil {
			t.Fatalf("%s is accepted as %s", desc, show(m))
		}
		if m.Path != before.Path || m.Description != before.Description || m.Unit != before.Unit || m.Kind != before.Kind || m.SubType != before.SubType ||
			m.Bits != before.Bits || m.GroupId != before.GroupId || fmt.Sprintf("%#v", m.TimeStamp) != fmt.Sprintf("%#v", before.TimeStamp) ||
			fmt.Sprintf("%#v", m.Value) != fmt.Sprintf("%#v", before.Value) {
			t.Fatalf("%s is refused (%v) but changed to kind %q sub %q value %#v timestamp %#v", desc, err, m.Kind, m.SubType, m.Value, m.TimeStamp)
		}
		vh.Case(strings.Clone(desc), true)
	})
}
