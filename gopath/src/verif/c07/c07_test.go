package c07

import (
	"fmt"
	"math"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Real = true
	vh.Main(m, "a case is a generated tree of 1 to 10 metrics with adversarial names, descriptions, units and strings; the page of every directory and metric is tokenized and compared with the structure the tree implies, and every link followed; non-trivial if some name, description, unit or value has an HTML or URL metacharacter; distinct by tree")
}

var unitPool = append([]units.Unit{"<b>", "Meters/\"s\"", "&amp;", "'x' onload=y", "%", "a>b"}, vh.AllUnits...)

type page struct {
	t    *rapid.T
	what string
	toks []vh.Tok
}

func load(t *rapid.T, rawurl string) *page {
	r := vh.Get(rawurl)
	if r.Status != 200 {
		t.Fatalf("GET %s: status %d", rawurl, r.Status)
	}
	if ct := r.Header.Get("Content-Type"); !strings.HasPrefix(ct, "text/html") {
		t.Fatalf("GET %s: a page of type %q", rawurl, ct)
	}
	security(t, rawurl, r)
	toks, err := vh.Tokens(r.Body)
	if err != nil {
		t.Fatalf("GET %s: %v in %q", rawurl, err, r.Body)
	}
	p := &page{t, rawurl, toks}
	// skip to the body
	for len(p.toks) > 0 {
		k := p.toks[0]
		switch k.Tag {
		case "html", "head", "/head", "link", "title", "/title", "meta":
			if k.Tag == "link" && k.Attrs["rel"] == "stylesheet" {
				styles(t, k.Attrs["href"])
			}
			p.toks = p.toks[1:]
			continue
		case "body":
			p.toks = p.toks[1:]
			return p
		}
		t.Fatalf("GET %s: unexpected %+v in the head of %q", rawurl, k, r.Body)
	}
	t.Fatalf("GET %s: no body in %q", rawurl, r.Body)
	return nil
}

// styles checks that a style sheet is served.
func styles(t *rapid.T, href string) {
	r := vh.Get(href)
	if r.Status != 200 || !strings.HasPrefix(r.Header.Get("Content-Type"), "text/css") || strings.TrimSpace(r.Body) == "" {
		t.Fatalf("style sheet %q: status %d, %v, %q", href, r.Status, r.Header, r.Body)
	}
}

func security(t *rapid.T, what string, r vh.Resp) {
	t.Helper()
	h := r.Header
	if h.Get("X-Frame-Options") != "DENY" || h.Get("X-XSS-Protection") == "" || h.Get("X-XSS-Protection")[0] != '1' ||
		!strings.Contains(h.Get("Content-Security-Policy"), "default-src 'self'") {
		t.Fatalf("GET %s: security headers are %v", what, h)
	}
	for _, d := range strings.Split(h.Get("Content-Security-Policy"), ";") {
		f := strings.Fields(d)
		if len(f) == 0 || f[0] != "default-src" && f[0] != "script-src" && f[0] != "object-src" {
			continue
		}
		for _, src := range f[1:] {
			if src != "'self'" && src != "'none'" {
				t.Fatalf("GET %s: the page may take scripts from %s: %v", what, src, h)
			}
		}
	}
}

func (p *page) tag(name string, attrs ...string) vh.Tok {
	p.t.Helper()
	if len(p.toks) == 0 {
		p.t.Fatalf("%s: page ends, <%s> expected", p.what, name)
	}
	k := p.toks[0]
	if k.Tag != name {
		p.t.Fatalf("%s: found %+v, <%s> expected", p.what, k, name)
	}
	ok := map[string]bool{}
	for _, a := range attrs {
		ok[a] = true
	}
	for a := range k.Attrs {
		if !ok[a] {
			p.t.Fatalf("%s: unexpected attribute in %+v", p.what, k)
		}
	}
	p.toks = p.toks[1:]
	return k
}

func (p *page) text() string {
	if len(p.toks) == 0 || p.toks[0].Tag != "" {
		return ""
	}
	s := p.toks[0].Text
	p.toks = p.toks[1:]
	return s
}

func (p *page) wantText(want string) {
	p.t.Helper()
	if got := p.text(); vh.Squash(got) != vh.Squash(want) {
		p.t.Fatalf("%s: text %q, want %q", p.what, got, want)
	}
}

func (p *page) end() {
	p.t.Helper()
	p.tag("/body")
	p.tag("/html")
	if len(p.toks) != 0 {
		p.t.Fatalf("%s: %+v after the end", p.what, p.toks[0])
	}
}

func unitPart(u units.Unit) string {
	if u == units.None {
		return ""
	}
	if u == units.Unknown {
		return "; unit: Unknown"
	}
	return "; unit: " + vh.UnitName(u)
}

// exactText is how a value must be shown if that does not depend on the
// human-friendly number formats.
func exactText(v interface{}, u units.Unit) (string, bool) {
	switch x := v.(type) {
	case string, bool, float32, float64:
		return vh.PlainText(v, u), true
	case time.Time:
		return x.UTC().Format("2006-01-02T15:04:05.999999999Z"), true
	}
	return "", false
}

var number = `[-+]?(?:[0-9]+\.?[0-9]*(?:e[-+]?[0-9]+)?|Inf|NaN)`
var rowRe = regexp.MustCompile(`^(?:<(` + number + `)|>=(` + number + `)|(` + number + `)-(` + number + `)):$`)
var sumRe = regexp.MustCompile(`^min:(` + number + `)max:(` + number + `)avg:(` + number + `)~median:(` + number + `)sum:(` + number + `)count:([0-9]+)$`)

func near(s string, want float64) bool {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return false
	}
	w := float64(float32(want))
	return float64(float32(f)) == w || (f != f && w != w) || math.Abs(f-want) <= 1e-6*math.Abs(want)
}

func (p *page) metric(it *vh.Item) {
	p.t.Helper()
	switch it.How {
	case "dist":
		var d *messages.Distribution
		for _, m := range tricorder.ReadMyMetrics(it.Path) {
			d = m.Value.(*messages.Distribution)
		}
		p.wantText(it.Path)
		p.tag("span", "class")
		p.wantText("(distribution: " + it.Desc + unitPart(it.Unit) + ")")
		p.tag("/span")
		p.tag("br")
		p.tag("table")
		for i, r := range d.Ranges {
			if r.Count == 0 {
				continue
			}
			p.tag("tr")
			p.tag("td", "align")
			label := vh.Squash(p.text())
			m := rowRe.FindStringSubmatch(label)
			ok := m != nil
			if ok {
				switch {
				case i == 0:
					ok = near(m[1], r.Upper)
				case i == len(d.Ranges)-1:
					ok = near(m[2], r.Lower)
				default:
					ok = near(m[3], r.Lower) && near(m[4], r.Upper)
				}
			}
			if !ok {
				p.t.Fatalf("%s: bucket %d of %s shown as %q", p.what, i, it, label)
			}
			p.tag("/td")
			p.tag("td", "align")
			p.wantText(fmt.Sprint(r.Count))
			p.tag("/td")
			p.tag("/tr")
		}
		p.tag("/table")
		if d.Count > 0 {
			p.tag("span", "class")
			s := vh.Squash(p.text())
			m := sumRe.FindStringSubmatch(s)
			if m == nil || !near(m[1], d.Min) || !near(m[2], d.Max) || !near(m[3], d.Average) || !near(m[4], d.Median) || !near(m[5], d.Sum) || m[6] != fmt.Sprint(d.Count) {
				p.t.Fatalf("%s: summary of %+v shown as %q", p.what, *d, s)
			}
			p.tag("/span")
			p.tag("br")
			p.tag("br")
		}
	case "list":
		p.wantText(it.Path)
		p.tag("span", "class")
		p.wantText("(list of " + vh.JsonName(it.Sub) + ": " + it.Desc + unitPart(it.Unit) + ")")
		p.tag("/span")
		p.tag("ul")
		for _, v := range it.Vals {
			p.tag("li")
			got := p.text()
			if want, ok := exactText(v, it.Unit); ok && vh.Squash(got) != vh.Squash(want) {
				p.t.Fatalf("%s: element of %s shown as %q, want %q", p.what, it, got, want)
			}
			p.tag("/li")
		}
		p.tag("/ul")
	default:
		got := p.text()
		if want, ok := exactText(it.Value(), it.Unit); ok {
			if vh.Squash(got) != vh.Squash(it.Path+" "+want) {
				p.t.Fatalf("%s: %s shown as %q, want %q", p.what, it, got, it.Path+" "+want)
			}
		} else if s := vh.Squash(got); !strings.HasPrefix(s, vh.Squash(it.Path)) || len(s) == len(vh.Squash(it.Path)) {
			p.t.Fatalf("%s: %s shown as %q", p.what, it, got)
		}
		p.tag("span", "class")
		p.wantText("(" + vh.JsonName(it.Kind) + ": " + it.Desc + unitPart(it.Unit) + ")")
		p.tag("/span")
		p.tag("br")
	}
}

func TestPages(t *testing.T) {
	group := tricorder.NewGroup()
	group.RegisterUpdateFunc(func() time.Time { return time.Unix(1, 0) })
	opts := &vh.PopOpts{MaxItems: 10, NonFinite: true, ListNF: true, Units: unitPool}
	vh.Check(t, 2500, 25000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		p := vh.Populate(t, group, opts)
		byPath := map[string]*vh.Item{}
		for _, it := range p.Items {
			byPath[it.Path] = it
		}
		var dirs []string
		for d := range p.Dirs {
			dirs = append(dirs, d)
		}
		sort.Strings(dirs)
		bodies := map[string]string{}
		for _, d := range dirs {
			names := map[string]bool{}
			for e := range p.Dirs {
				if rest, ok := strings.CutPrefix(e, d+"/"); ok && !strings.Contains(rest, "/") {
					names[rest] = true
				}
			}
			for e := range byPath {
				if rest, ok := strings.CutPrefix(e, d+"/"); ok && !strings.Contains(rest, "/") {
					names[rest] = true
				}
			}
			var sorted []string
			for n := range names {
				sorted = append(sorted, n)
			}
			sort.Strings(sorted)
			u := "/metrics" + vh.URLPath(d)
			bodies[d] = vh.Get(u).Body
			pg := load(t, u)
			for _, n := range sorted {
				path := d + "/" + n
				if it := byPath[path]; it != nil {
					pg.metric(it)
					continue
				}
				a := pg.tag("a", "href")
				pg.wantText(path)
				pg.tag("/a")
				pg.tag("br")
				// the link leads to the page of the sub-directory
				base, _ := url.Parse("http://h" + u)
				ref, err := base.Parse(a.Attrs["href"])
				if err != nil || ref.Host != "h" {
					t.Fatalf("%s: link %q to %q: %v", u, a.Attrs["href"], path, err)
				}
				ref.Host, ref.Scheme = "", ""
				got := vh.Get(ref.String())
				want := vh.Get("/metrics" + vh.URLPath(path))
				if got.Status != 200 || got.Body != want.Body {
					t.Fatalf("%s: link %q to %q leads to status %d, %q; the directory's page is %q", u, a.Attrs["href"], path, got.Status, got.Body, want.Body)
				}
			}
			pg.end()
		}
		for _, it := range p.Items {
			pg := load(t, "/metrics"+vh.URLPath(it.Path))
			pg.metric(it)
			pg.end()
			security(t, "text", vh.Get("/metrics"+vh.URLPath(it.Path)+"?format=text"))
		}
		for _, u := range []string{"/metrics/vp/no/such", "/metrics/vp/no/such?format=text", "/metrics/vp?format=text"} {
			security(t, u, vh.Get(u))
		}
		if r := vh.Get("/metrics/vp/no/such<b>").Body; strings.Contains(r, "<b>") {
			t.Fatalf("page of a missing path: %q", r)
		}
		s := p.String()
		vh.Case(s, strings.ContainsAny(s, "<>&'%?#;"))
	})
}

// The root page links to every top-level directory.
func TestRoot(t *testing.T) {
	vh.Check(t, 100, 1000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		x := 1
		name := vh.Name(t, "name")
		vh.Must(t, tricorder.RegisterMetric("/vp/"+name+"/m", &x, units.None, "d"), "register")
		pg := load(t, "/metrics/")
		found := 0
		for _, k := range pg.toks {
			if k.Tag == "a" && strings.Contains(k.Attrs["href"], "/vp") {
				found++
				if r := vh.Get(k.Attrs["href"]); !strings.Contains(r.Body, "href") {
					t.Fatalf("root link %q leads to %q", k.Attrs["href"], r.Body)
				}
			}
		}
		if found != 1 {
			t.Fatalf("%d links to /vp on the root page", found)
		}
		for i := 0; i < 2; i++ {
			r := vh.Get("/has-tricorder-metrics")
			security(t, "/has-tricorder-metrics", r)
			if r.Status != 200 || r.Body != "true" {
				t.Fatalf("/has-tricorder-metrics: status %d, %q", r.Status, r.Body)
			}
		}
		vh.Case("root "+name, strings.ContainsAny(name, "<>&'\"%?#;"))
	})
}

var _ = types.Bool

// Requests at the same time do not disturb each other.
func TestParallel(t *testing.T) {
	group := tricorder.NewGroup()
	group.RegisterUpdateFunc(func() time.Time { return time.Unix(1000, 5) })
	vh.Check(t, 250, 3000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		p := vh.Populate(t, group, &vh.PopOpts{MaxItems: 8, NonFinite: true, ListNF: true, Units: unitPool})
		if wrong := vh.Parallel(t, p.Requests("html")); wrong != "" {
			t.Fatalf("%s", wrong)
		}
		vh.Case("parallel "+p.String(), len(p.Items) > 1)
	})
}

// Very many metrics, very long values.
func TestLarge(t *testing.T) {
	group := tricorder.NewGroup()
	vh.Check(t, 3, 30, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		p, what := vh.Large(t, group)
		dir := p.Items[rapid.IntRange(0, len(p.Items)-1).Draw(t, "of")].Parts
		dir = dir[:len(dir)-1]
		path := "/" + strings.Join(dir, "/")
		pg := load(t, "/metrics"+path)
		for _, it := range p.Under(dir) {
			pg.metric(it)
		}
		pg.end()
		it := p.Items[0]
		pg = load(t, "/metrics"+vh.URLPath(it.Path))
		pg.metric(it)
		pg.end()
		vh.Case(what, true)
	})
}
