package c06

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Real = true
	vh.Main(m, "a case is 1 to 10 generated metrics of any type and value, read back from the plain-text view as a listing and one by one, or a distribution with generated contents; non-trivial if it has a list, distribution, time, duration, float or an integer of more than 9 digits; distinct by metrics and values")
}

// scalarOk parses text back.
func scalarOk(v interface{}, u units.Unit, text string) bool {
	switch x := v.(type) {
	case float64:
		f, err := strconv.ParseFloat(text, 64)
		return err == nil && (f == x || (f != f && x != x)) && !strings.ContainsAny(text, "eE")
	case float32:
		f, err := strconv.ParseFloat(text, 32)
		return err == nil && (float32(f) == x || (f != f && x != x)) && !strings.ContainsAny(text, "eE")
	}
	return text == vh.PlainText(v, u)
}

// consume takes the value of it from the front of text; values may hold any
// characters, so the expected form decides where it ends.
func consume(t *rapid.T, it *vh.Item, text string) string {
	t.Helper()
	switch it.How {
	case "dist":
		i := strings.Index(text, "}\n")
		if i < 0 {
			t.Fatalf("text of %s is not closed: %q", it, text)
		}
		checkDist(t, it, text[:i+1])
		return text[i+2:]
	case "list":
		for i, v := range it.Vals {
			if i > 0 {
				if !strings.HasPrefix(text, "|") {
					t.Fatalf("text of %s: element %d not separated by |: %q", it, i, text)
				}
				text = text[1:]
			}
			text = scalar(t, it, v, text)
		}
	default:
		text = scalar(t, it, it.Value(), text)
	}
	if !strings.HasPrefix(text, "\n") {
		t.Fatalf("text of %s does not end the record: %q", it, text)
	}
	return text[1:]
}

func scalar(t *rapid.T, it *vh.Item, v interface{}, text string) string {
	t.Helper()
	var s string
	if str, ok := v.(string); ok {
		want := `"` + str + `"`
		if !strings.HasPrefix(text, want) {
			t.Fatalf("text of %s: %q does not start with %q", it, text, want)
		}
		return text[len(want):]
	}
	if i := strings.IndexAny(text, "|\n"); i >= 0 {
		s = text[:i]
	} else {
		s = text
	}
	if !scalarOk(v, it.Unit, s) {
		t.Fatalf("text of %s: %q for %s", it, s, vh.Show(v))
	}
	return text[len(s):]
}

func num(s string) (float64, error) { return strconv.ParseFloat(s, 32) }

func close32(got string, want float64) bool {
	f, err := num(got)
	if err != nil && !math.IsInf(f, 0) {
		return false
	}
	w := float64(float32(want))
	if math.IsNaN(w) {
		return math.IsNaN(f)
	}
	return float64(float32(f)) == w || math.Abs(f-want) <= math.Abs(want)*1e-6
}

func distOf(path string) (*messages.Distribution, int) {
	for _, m := range tricorder.ReadMyMetrics(path) {
		if m.Path == path {
			d := m.Value.(*messages.Distribution)
			return d, len(d.Ranges)
		}
	}
	return nil, 0
}

func checkDist(t *rapid.T, it *vh.Item, text string) {
	t.Helper()
	d, n := distOf(it.Path)
	fail := func(f string, a ...interface{}) {
		t.Helper()
		t.Fatalf("text %q of distribution %+v: %s", text, *d, fmt.Sprintf(f, a...))
	}
	if !strings.HasPrefix(text, "{") || !strings.HasSuffix(text, "}") {
		fail("not in braces")
	}
	parts := strings.Split(text[1:len(text)-1], ";")
	want := []struct {
		k string
		v float64
	}{{"min", d.Min}, {"max", d.Max}, {"avg", d.Average}, {"median", d.Median}, {"sum", d.Sum}}
	if len(parts) < 6 {
		fail("%d parts", len(parts))
	}
	for i, w := range want {
		if !strings.HasPrefix(parts[i], w.k+":") || !close32(parts[i][len(w.k)+1:], w.v) {
			fail("%q is not %s %v", parts[i], w.k, w.v)
		}
	}
	if parts[5] != fmt.Sprintf("count:%d", d.Count) {
		fail("%q is not count %d", parts[5], d.Count)
	}
	rest := parts[6:]
	for i, r := range d.Ranges {
		if r.Count == 0 {
			continue
		}
		if len(rest) == 0 {
			fail("bucket %d missing", i)
		}
		b := rest[0]
		rest = rest[1:]
		var lo, hi, cnt string
		a, e := strings.Index(b, ","), strings.Index(b, "):")
		if !strings.HasPrefix(b, "[") || a < 0 || e < a {
			fail("bucket %q", b)
		}
		lo, hi, cnt = b[1:a], b[a+1:e], b[e+2:]
		if (i == 0 && lo != "-inf") || (i > 0 && !close32(lo, r.Lower)) {
			fail("lower bound of %q, want %v", b, r.Lower)
		}
		if (i == n-1 && hi != "inf") || (i < n-1 && !close32(hi, r.Upper)) {
			fail("upper bound of %q, want %v", b, r.Upper)
		}
		if cnt != fmt.Sprint(r.Count) {
			fail("count of %q, want %d", b, r.Count)
		}
	}
	if len(rest) != 0 {
		fail("extra %q", rest)
	}
}

// textQueries all ask for text; other parameters mean nothing.
var textQueries = []string{"?format=text", "?format=text", "?format=text&x=1", "?a&format=text", "?session=7&format=text&format=html", "?format=tex%74"}

func TestText(t *testing.T) {
	group := tricorder.NewGroup()
	group.RegisterUpdateFunc(func() time.Time { return time.Unix(1, 0) })
	opts := &vh.PopOpts{MaxItems: 10, NonFinite: true, ListNF: true, Text: vh.RawText}
	vh.Check(t, 15000, 150000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		p := vh.Populate(t, group, opts)
		interesting := false
		for _, it := range p.Items {
			if it.Cell == nil || it.Kind == types.GoTime || it.Kind == types.GoDuration || it.Kind.IsFloat() || len(vh.PlainText(it.Value(), it.Unit)) > 9 {
				interesting = true
			}
		}
		for _, it := range p.Items {
			r := vh.Get("/metrics" + vh.URLPath(it.Path) + rapid.SampledFrom(textQueries).Draw(t, "query"))
			if r.Status != 200 || !strings.HasPrefix(r.Header.Get("Content-Type"), "text/plain") {
				t.Fatalf("text of %s: status %d, type %q", it, r.Status, r.Header.Get("Content-Type"))
			}
			if rest := consume(t, it, r.Body); rest != "" {
				t.Fatalf("text of %s has trailing %q", it, rest)
			}
		}
		body := vh.Get("/metrics/vp" + rapid.SampledFrom(textQueries).Draw(t, "query")).Body
		for _, it := range p.Items {
			if it.Omitted() {
				continue
			}
			if !strings.HasPrefix(body, it.Path+" ") {
				t.Fatalf("text listing: record of %s expected at %q", it, body)
			}
			body = consume(t, it, body[len(it.Path)+1:])
		}
		if body != "" {
			t.Fatalf("text listing has trailing %q", body)
		}
		r := vh.Get("/metrics/vp/" + rapid.SampledFrom([]string{"no%20such", "zzz/y", "nope"}).Draw(t, "missing") + "?format=text")
		if !strings.Contains(r.Body, "Path does not exist") || len(r.Body) > 30 {
			t.Fatalf("text of a missing path is %q", r.Body)
		}
		vh.Case(p.String(), interesting)
	})
}

// Distributions with every bucketer and content.
func TestDistText(t *testing.T) {
	vh.Check(t, 8000, 80000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		eps := []float64{rapid.Float64Range(-1000, 1000).Draw(t, "first")}
		for n := rapid.IntRange(0, 5).Draw(t, "n"); n > 0; n-- {
			eps = append(eps, eps[len(eps)-1]+rapid.Float64Range(0.5, 100).Draw(t, "width"))
		}
		d := tricorder.NewArbitraryBucketer(eps...).NewCumulativeDistribution()
		it := &vh.Item{Path: "/vp/d", How: "dist", Kind: types.Dist, Cum: d}
		vh.Must(t, tricorder.RegisterMetric("/vp/d", d, units.None, ""), "register")
		vals := rapid.SliceOfN(rapid.Float64Range(-1500, 2000), 0, 12).Draw(t, "vals")
		for _, v := range vals {
			d.Add(v)
		}
		for _, u := range []string{"/metrics/vp/d?format=text", "/metrics/vp?format=text"} {
			body := vh.Get(u).Body
			if strings.HasSuffix(u, "vp?format=text") {
				if !strings.HasPrefix(body, "/vp/d ") {
					t.Fatalf("listing %q", body)
				}
				body = body[6:]
			}
			if rest := consume(t, it, body); rest != "" {
				t.Fatalf("trailing %q", rest)
			}
		}
		vh.Case(fmt.Sprint("dist ", eps, vals), len(vals) > 1)
	})
}

// Requests at the same time do not disturb each other.
func TestParallel(t *testing.T) {
	group := tricorder.NewGroup()
	group.RegisterUpdateFunc(func() time.Time { return time.Unix(1000, 5) })
	vh.Check(t, 300, 3600, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		p := vh.Populate(t, group, &vh.PopOpts{MaxItems: 8, NonFinite: true, ListNF: true})
		if wrong := vh.Parallel(t, p.Requests("text")); wrong != "" {
			t.Fatalf("%s", wrong)
		}
		vh.Case("parallel "+p.String(), len(p.Items) > 1)
	})
}

// Very many metrics, very long values.
func TestLarge(t *testing.T) {
	group := tricorder.NewGroup()
	vh.Check(t, 5, 30, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		p, what := vh.Large(t, group)
		body := vh.Get("/metrics/vp?format=text").Body
		for _, it := range p.Items {
			if !strings.HasPrefix(body, it.Path+" ") {
				t.Fatalf("%s: record of %q expected at %.200q", what, it.Path, body)
			}
			body = consume(t, it, body[len(it.Path)+1:])
		}
		if body != "" {
			t.Fatalf("%s: trailing %.200q", what, body)
		}
		it := p.Items[0]
		if rest := consume(t, it, vh.Get("/metrics"+vh.URLPath(it.Path)+"?format=text").Body); rest != "" {
			t.Fatalf("%s: text of %q has trailing %.200q", what, it.Path, rest)
		}
		vh.Case(what, true)
	})
}
