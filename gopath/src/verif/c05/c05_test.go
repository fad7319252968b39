package c05

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Real = true
	vh.Main(m, "a case is 1 to 10 generated metrics of any type and value (awkward strings, boundary numbers, NaN and infinities in scalars, lists and distributions) fetched as REST listing and singletons, with and without gzip; non-trivial if it has at least 2 metrics and a time, duration, string, list, distribution or non-finite value; distinct by metrics and values")
}

// text is how a time or duration must be written.
func text(v interface{}, u units.Unit) string {
	switch x := v.(type) {
	case time.Time:
		return vh.TimeText(x, u)
	case time.Duration:
		return vh.DurText(x, u)
	}
	panic("not a time")
}

// decode checks that raw is, by the chart, the value of it.
func decode(it *vh.Item, raw json.RawMessage) error {
	want := it.Value()
	switch {
	case it.G.Kind == types.GoTime || it.G.Kind == types.GoDuration:
		if it.How == "list" {
			var got []string
			if err := json.Unmarshal(raw, &got); err != nil {
				return err
			}
			if got == nil {
				return fmt.Errorf("null instead of a list")
			}
			if len(got) != len(it.Vals) {
				return fmt.Errorf("%d elements, want %d", len(got), len(it.Vals))
			}
			for i, v := range it.Vals {
				if got[i] != text(v, it.Unit) {
					return fmt.Errorf("element %q, want %q", got[i], text(v, it.Unit))
				}
			}
			return nil
		}
		var got string
		if err := json.Unmarshal(raw, &got); err != nil {
			return err
		}
		if got != text(want, it.Unit) {
			return fmt.Errorf("%q, want %q", got, text(want, it.Unit))
		}
		return nil
	}
	if strings.TrimSpace(string(raw)) == "null" {
		return fmt.Errorf("null")
	}
	dst := reflect.New(reflect.TypeOf(want))
	if err := json.Unmarshal(raw, dst.Interface()); err != nil {
		return err
	}
	if got := dst.Elem().Interface(); !vh.Equal(got, want) {
		return fmt.Errorf("%s, want %s", vh.Show(got), vh.Show(want))
	}
	return nil
}

func distOf(path string) *messages.Distribution {
	for _, m := range tricorder.ReadMyMetrics(path) {
		if m.Path == path {
			return m.Value.(*messages.Distribution)
		}
	}
	return nil
}

// distribution decodes a distribution by the documented field names.
func distribution(raw json.RawMessage) (*messages.Distribution, error) {
	var j struct {
		Min             *float64 `json:"min"`
		Max             *float64 `json:"max"`
		Average         *float64 `json:"average"`
		Median          *float64 `json:"median"`
		Sum             *float64 `json:"sum"`
		Count           *uint64  `json:"count"`
		Generation      *uint64  `json:"generation"`
		IsNotCumulative bool     `json:"isNotCumulative"`
		Ranges          []struct {
			Lower *float64 `json:"lower"`
			Upper *float64 `json:"upper"`
			Count *uint64  `json:"count"`
		} `json:"ranges"`
	}
	if err := json.Unmarshal(raw, &j); err != nil {
		return nil, err
	}
	if err := vh.Keys(raw, "min", "max", "average", "median", "sum", "count", "generation"); err != nil {
		return nil, err
	}
	if j.Min == nil || j.Max == nil || j.Average == nil || j.Median == nil || j.Sum == nil || j.Count == nil || j.Generation == nil {
		return nil, fmt.Errorf("field is null")
	}
	d := &messages.Distribution{Min: *j.Min, Max: *j.Max, Average: *j.Average, Median: *j.Median, Sum: *j.Sum, Count: *j.Count,
		Generation: *j.Generation, IsNotCumulative: j.IsNotCumulative}
	for _, r := range j.Ranges {
		if r.Lower == nil || r.Upper == nil || r.Count == nil {
			return nil, fmt.Errorf("field of a range missing")
		}
		d.Ranges = append(d.Ranges, &messages.RangeWithCount{Lower: *r.Lower, Upper: *r.Upper, Count: *r.Count})
	}
	return d, nil
}

func distFinite(d *messages.Distribution) bool {
	for _, f := range []float64{d.Min, d.Max, d.Average, d.Median, d.Sum} {
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return false
		}
	}
	for _, r := range d.Ranges {
		if vh.NonFinite(r.Lower) || vh.NonFinite(r.Upper) {
			return false
		}
	}
	return true
}

// omitted tells whether JSON cannot express the value.
func omitted(it *vh.Item) bool {
	if it.How == "dist" {
		return !distFinite(distOf(it.Path))
	}
	return vh.NonFinite(it.Value())
}

func check(t *rapid.T, it *vh.Item, j *vh.JMetric, ts time.Time, gid int) {
	t.Helper()
	if j.Path == nil || j.Description == nil || j.GroupId == nil || j.Value == nil || j.TimeStamp == nil {
		t.Fatalf("field missing for %s: %+v", it, j)
	}
	if *j.Path != it.Path || *j.Description != it.Desc || j.Unit != vh.UnitName(it.Unit) || j.Kind != vh.JsonName(it.Kind) ||
		j.SubType != vh.JsonName(it.Sub) || j.Bits != it.Bits {
		t.Fatalf("%s comes as path %q description %q unit %q kind %q subtype %q bits %d", it, *j.Path, *j.Description, j.Unit, j.Kind, j.SubType, j.Bits)
	}
	var stamp string
	if err := json.Unmarshal(j.TimeStamp, &stamp); err != nil {
		t.Fatalf("timestamp of %s: %v", it, err)
	}
	if it.How == "dist" {
		d, err := distribution(j.Value)
		if err != nil {
			t.Fatalf("distribution %s: %v in %s", it, err, j.Value)
		}
		if want := distOf(it.Path); !reflect.DeepEqual(d, want) {
			t.Fatalf("distribution %s: %+v, want %+v", it, d, want)
		}
		return
	}
	if it.How != "list" {
		if want := vh.Decimal(vh.TimeNs(ts), units.Second); stamp != want {
			t.Fatalf("timestamp of %s is %q, want %q", it, stamp, want)
		}
		if *j.GroupId != gid {
			t.Fatalf("group id of %s is %d, want %d", it, *j.GroupId, gid)
		}
	}
	if err := decode(it, j.Value); err != nil {
		t.Fatalf("value of %s: %v (raw %s)", it, err, j.Value)
	}
}

func headers(t *rapid.T, what string, r vh.Resp) {
	t.Helper()
	if r.Header.Get("Content-Type") != "application/json" || r.Header.Get("X-Tricorder-Media-Type") != "tricorder.v1" {
		t.Fatalf("%s: headers %v", what, r.Header)
	}
}

var encodings = []string{"gzip", "gzip, deflate", "deflate, gzip", "br;q=1.0, gzip;q=0.8", "deflate", "", "identity", "deflate, br, zstd", "bzip2", "x-zip, lz4", "compress;q=0.5, *;q=0"}

// fetch gets the URL plainly and with an Accept-Encoding and requires the same content.
func fetch(t *rapid.T, url string) vh.Resp {
	t.Helper()
	plain := vh.Get(url)
	if plain.Header.Get("Content-Encoding") != "" {
		t.Fatalf("GET %s without Accept-Encoding is encoded as %q", url, plain.Header.Get("Content-Encoding"))
	}
	enc := rapid.SampledFrom(encodings).Draw(t, "enc")
	z := vh.Get(url, "Accept-Encoding", enc)
	body := z.Body
	if z.Header.Get("Content-Encoding") == "gzip" {
		if !strings.Contains(enc, "gzip") {
			t.Fatalf("GET %s accepting %q is compressed", url, enc)
		}
		var err error
		if body, err = vh.Gunzip(z.Body); err != nil {
			t.Fatalf("GET %s accepting %q: %v", url, enc, err)
		}
	} else if strings.Contains(enc, "gzip") {
		t.Fatalf("GET %s accepting %q is not compressed", url, enc)
	}
	if z.Status != plain.Status || body != plain.Body {
		t.Fatalf("GET %s accepting %q: status %d, body %q; plainly status %d, body %q", url, enc, z.Status, body, plain.Status, plain.Body)
	}
	if plain.Status == 200 {
		headers(t, url, plain)
		headers(t, url+" with "+enc, z)
	} else if plain.Header.Get("X-Tricorder-Media-Type") != "tricorder.v1" {
		t.Fatalf("GET %s: headers %v", url, plain.Header)
	}
	return plain
}

func TestRest(t *testing.T) {
	var ts time.Time
	group := tricorder.NewGroup()
	group.RegisterUpdateFunc(func() time.Time { return ts })
	opts := &vh.PopOpts{MaxItems: 10, NonFinite: true, ListNF: true}
	vh.Check(t, 4000, 40000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		ts = vh.Time(t, "ts")
		if ts.IsZero() {
			ts = time.Unix(5, 5)
		}
		p := vh.Populate(t, group, opts)
		gid := -1
		for _, m := range tricorder.ReadMyMetrics(vh.Base) {
			if m.Kind != types.List && m.Kind != types.Dist {
				gid = m.GroupId
			}
		}
		interesting := 0
		var listed []*vh.Item
		for _, it := range p.Items {
			om := omitted(it)
			if !om {
				listed = append(listed, it)
			} else {
				vh.Label("inexpressible " + it.How)
			}
			if om || it.Cell == nil || it.Kind == types.GoTime || it.Kind == types.GoDuration || it.Kind == types.String {
				interesting++
			}
		}
		r := fetch(t, "/metricsapi/vp")
		if r.Status != 200 {
			t.Fatalf("listing: status %d %q", r.Status, r.Body)
		}
		var l []*vh.JMetric
		if err := vh.Strict(r.Body, &l); err != nil {
			t.Fatalf("listing of %s: %v in %q", p, err, r.Body)
		}
		if len(l) != len(listed) {
			t.Fatalf("listing of %s has %d metrics, want %d: %q", p, len(l), len(listed), r.Body)
		}
		for i, it := range listed {
			check(t, it, l[i], ts, gid)
		}
		for _, it := range p.Items {
			if rapid.IntRange(0, 1).Draw(t, "single") != 0 {
				continue
			}
			r := fetch(t, "/metricsapi"+vh.URLPath(it.Path)+"?singleton=1")
			if omitted(it) {
				if r.Status != 404 {
					t.Fatalf("singleton %s: status %d %q, want 404", it, r.Status, r.Body)
				}
				continue
			}
			if r.Status != 200 {
				t.Fatalf("singleton %s: status %d", it, r.Status)
			}
			var j vh.JMetric
			if err := vh.Strict(r.Body, &j); err != nil {
				t.Fatalf("singleton %s: %v in %q", it, err, r.Body)
			}
			check(t, it, &j, ts, gid)
		}
		// what is not there
		missing := "/vp/" + rapid.SampledFrom([]string{"no%20such", "zzz/y", "nope", "%3Cb%3E"}).Draw(t, "missing")
		if r := fetch(t, "/metricsapi"+missing); r.Status != 200 || strings.TrimSpace(r.Body) != "[]" {
			t.Fatalf("listing of the missing %s: status %d %q", missing, r.Status, r.Body)
		}
		for _, u := range []string{missing, "/vp", "/"} {
			if r := fetch(t, "/metricsapi"+u+"?singleton=true"); r.Status != 404 {
				t.Fatalf("singleton %s, which is no metric: status %d %q", u, r.Status, r.Body)
			}
		}
		vh.Case(p.String(), len(p.Items) >= 2 && interesting > 0)
	})
}

// Callbacks that return something else every time they are called, non-finite
// at any of those calls, never spoil a response.
func TestFlicker(t *testing.T) {
	x := 42
	vh.Check(t, 3000, 20000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		seq := rapid.SliceOfN(rapid.SampledFrom([]float64{0, 1.5, math.NaN(), math.Inf(1), math.Inf(-1)}), 1, 6).Draw(t, "seq")
		n := 0
		vh.Must(t, tricorder.RegisterMetric("/vp/f", func() float64 { n++; return seq[n%len(seq)] }, units.None, ""), "register")
		vh.Must(t, tricorder.RegisterMetric("/vp/g", &x, units.None, ""), "register")
		for i := 0; i < 3; i++ {
			r := fetch2(t, "/metricsapi/vp")
			var l []*vh.JMetric
			if r.Status != 200 {
				t.Fatalf("listing: status %d %q", r.Status, r.Body)
			}
			if err := vh.Strict(r.Body, &l); err != nil {
				t.Fatalf("listing with a flickering callback: %v in %q", err, r.Body)
			}
			if len(l) == 0 || len(l) > 2 || *l[len(l)-1].Path != "/vp/g" {
				t.Fatalf("listing with a flickering callback: %q", r.Body)
			}
			r = fetch2(t, "/metricsapi/vp/f?singleton=true")
			switch r.Status {
			case 404:
			case 200:
				var j vh.JMetric
				if err := vh.Strict(r.Body, &j); err != nil {
					t.Fatalf("singleton flickering callback: %v in %q", err, r.Body)
				}
			default:
				t.Fatalf("singleton flickering callback: status %d", r.Status)
			}
		}
		nf := false
		for _, f := range seq {
			nf = nf || math.IsNaN(f) || math.IsInf(f, 0)
		}
		vh.Case(fmt.Sprint("flicker ", seq), nf && len(seq) > 1)
	})
}

func fetch2(t *rapid.T, url string) vh.Resp {
	r := vh.Get(url)
	if r.Status == 200 {
		headers(t, url, r)
	}
	return r
}

// Requests at the same time do not disturb each other.
func TestParallel(t *testing.T) {
	group := tricorder.NewGroup()
	group.RegisterUpdateFunc(func() time.Time { return time.Unix(1000, 5) })
	vh.Check(t, 250, 3000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		p := vh.Populate(t, group, &vh.PopOpts{MaxItems: 8, NonFinite: true, ListNF: true})
		if wrong := vh.Parallel(t, p.Requests("rest")); wrong != "" {
			t.Fatalf("%s", wrong)
		}
		vh.Case("parallel "+p.String(), len(p.Items) > 1)
	})
}

// Very many metrics, very long values.
func TestLarge(t *testing.T) {
	group := tricorder.NewGroup()
	ts := time.Unix(1000, 5)
	group.RegisterUpdateFunc(func() time.Time { return ts })
	vh.Check(t, 4, 30, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		p, what := vh.Large(t, group)
		gid := tricorder.ReadMyMetrics(p.Items[len(p.Items)-1].Path)[0].GroupId
		r := fetch(t, "/metricsapi/vp")
		var l []*vh.JMetric
		if r.Status != 200 {
			t.Fatalf("%s: status %d", what, r.Status)
		}
		if err := vh.Strict(r.Body, &l); err != nil {
			t.Fatalf("%s: %v", what, err)
		}
		if len(l) != len(p.Items) {
			t.Fatalf("%s: %d metrics, want %d", what, len(l), len(p.Items))
		}
		for i, it := range p.Items {
			check(t, it, l[i], ts, gid)
		}
		it := p.Items[0]
		r = fetch(t, "/metricsapi"+vh.URLPath(it.Path)+"?singleton=1")
		var j vh.JMetric
		if r.Status != 200 {
			t.Fatalf("%s: singleton: status %d", what, r.Status)
		}
		if err := vh.Strict(r.Body, &j); err != nil {
			t.Fatalf("%s: singleton: %v", what, err)
		}
		check(t, it, &j, ts, gid)
		vh.Case(what, true)
	})
}
