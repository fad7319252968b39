package c03

import (
	"fmt"
	"net/rpc"
	"strings"
	"testing"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Real = true
	vh.Main(m, "a case is a generated tree of 1 to 14 metrics and several query paths (directories, metrics, missing paths, prefixes that are not whole components), each asked on every interface; non-trivial if the tree has at least 3 metrics and some query selects a proper non-empty subset; distinct by tree and queries")
}

var names = []string{"a", "b", "ab", "a b", "a-", "A", "é", "a%41", "a?x", "a#", "b+", "aa", "日本", "a;b", "z",
	"1", "2", "10", "9", "01", "a1", "a2", "a10", "v1.9", "v1.10", "_", "-1", "1.5",
	"a.json", "index.html", "a.txt", "a ", " a", "a.", "~a", "a=b&c"}

func simple(t *rapid.T, label string) string {
	return rapid.StringMatching(`[a-zA-Z0-9 <>&"'%?#|;:+=.,_-]{0,10}`).Draw(t, label)
}

type meta struct {
	Path, Desc, Unit, Kind, Sub string
	Bits                        int
}

func metaOf(it *vh.Item, js bool) meta {
	k, s := it.Kind, it.Sub
	if js {
		k, s = vh.JsonKind(k), vh.JsonKind(s)
	}
	return meta{it.Path, it.Desc, vh.UnitName(it.Unit), vh.KindName(k), vh.KindName(s), it.Bits}
}

func ofMsg(m *messages.Metric) meta {
	return meta{m.Path, m.Description, string(m.Unit), string(m.Kind), string(m.SubType), m.Bits}
}

func ofJson(m *vh.JMetric) meta {
	r := meta{Unit: m.Unit, Kind: m.Kind, Sub: m.SubType, Bits: m.Bits}
	if m.Path != nil {
		r.Path = *m.Path
	}
	if m.Description != nil {
		r.Desc = *m.Description
	}
	return r
}

func same(t *rapid.T, what string, got, want []meta) {
	t.Helper()
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			t.Fatalf("%s lacks metric %d: %+v", what, i, want[i])
		case i >= len(want):
			t.Fatalf("%s has unexpected metric %d: %+v", what, i, got[i])
		case got[i] != want[i]:
			t.Fatalf("%s has at %d\n %+v, want\n %+v", what, i, got[i], want[i])
		}
	}
}

func TestListings(t *testing.T) {
	group := tricorder.NewGroup()
	group.RegisterUpdateFunc(func() time.Time { return time.Unix(1000, 5) })
	opts := &vh.PopOpts{Names: names, MaxItems: 14, NonFinite: true, Text: simple}
	vh.Check(t, 8000, 80000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		p := vh.Populate(t, group, opts)
		if rapid.IntRange(0, 3).Draw(t, "emptydir") == 0 {
			if _, err := tricorder.RegisterDirectory("/vp/zz/empty"); err != nil {
				t.Fatalf("empty directory: %v", err)
			}
			p.Dirs["/vp/zz"], p.Dirs["/vp/zz/empty"], p.Dirs["/vp"] = true, true, true
		}
		if len(p.Items) > 1 && rapid.IntRange(0, 3).Draw(t, "drop") == 0 {
			i := rapid.IntRange(0, len(p.Items)-1).Draw(t, "dropped")
			tricorder.UnregisterPath(p.Items[i].Path)
			p.Items = append(p.Items[:i:i], p.Items[i+1:]...)
		}
		proper := false
		var queries []string
		for q := rapid.IntRange(2, 5).Draw(t, "queries"); q > 0; q-- {
			var parts []string
			switch rapid.IntRange(0, 5).Draw(t, "query") {
			case 0:
				parts = []string{"vp"}
			case 1, 2, 3:
				if len(p.Items) == 0 {
					parts = []string{"vp"}
					break
				}
				it := rapid.SampledFrom(p.Items).Draw(t, "of")
				parts = it.Parts[:rapid.IntRange(1, len(it.Parts)).Draw(t, "len")]
			case 4: // below or beside a metric
				if len(p.Items) == 0 {
					parts = []string{"vp"}
					break
				}
				it := rapid.SampledFrom(p.Items).Draw(t, "of")
				parts = append(it.Parts[:len(it.Parts):len(it.Parts)], rapid.SampledFrom(names).Draw(t, "more"))
				if rapid.Bool().Draw(t, "beside") {
					parts = it.Parts[:len(it.Parts):len(it.Parts)]
					last := len(parts) - 1
					parts = append(parts[:last:last], parts[last]+"x")
				}
			default:
				parts = append([]string{"vp"}, rapid.SliceOfN(rapid.SampledFrom(names), 1, 3).Draw(t, "parts")...)
			}
			path := "/" + strings.Join(parts, "/")
			queries = append(queries, path)
			query(t, p, parts, path)
			if n := len(p.Under(parts)); n > 0 && n < len(p.Items) {
				proper = true
			}
		}
		vh.Case(p.String()+" Q "+strings.Join(queries, " "), len(p.Items) >= 3 && proper)
	})
}

func query(t *rapid.T, p *vh.Pop, parts []string, path string) {
	var want, wantJ []meta
	var single *vh.Item
	var listed []*vh.Item
	for _, it := range p.Under(parts) {
		if it.Path == path {
			single = it
		}
		if it.Omitted() {
			vh.Label("omitted non-finite")
			continue
		}
		listed = append(listed, it)
		want = append(want, metaOf(it, false))
		wantJ = append(wantJ, metaOf(it, true))
	}
	var got []meta
	for _, m := range tricorder.ReadMyMetrics(vh.Spell(t, parts, "sp")) {
		got = append(got, ofMsg(m))
	}
	same(t, fmt.Sprintf("ReadMyMetrics(%q)", path), got, want)

	l, err := vh.RpcList(vh.Spell(t, parts, "sp"))
	if err != nil {
		t.Fatalf("RPC ListMetrics(%q): %v", path, err)
	}
	got = nil
	for _, m := range l {
		got = append(got, ofMsg(m))
	}
	same(t, fmt.Sprintf("RPC ListMetrics(%q)", path), got, want)

	jl, err := vh.RestList(path)
	if err != nil {
		t.Fatalf("REST %q: %v", path, err)
	}
	got = nil
	for _, m := range jl {
		got = append(got, ofJson(m))
	}
	same(t, fmt.Sprintf("REST %q", path), got, wantJ)

	r := vh.Get("/metrics" + vh.URLPath(path) + "?format=text")
	if r.Status != 200 {
		t.Fatalf("text %q: status %d", path, r.Status)
	}
	switch {
	case single != nil:
		if single.How != "dist" && single.How != "list" {
			if w := vh.PlainText(single.Value(), single.Unit) + "\n"; !single.Omitted() && r.Body != w {
				t.Fatalf("text of metric %q is %q, want %q", path, r.Body, w)
			}
		}
	case p.Dirs[path]:
		lines := strings.SplitAfter(r.Body, "\n")
		if lines[len(lines)-1] != "" {
			t.Fatalf("text of directory %q does not end a line: %q", path, r.Body)
		}
		lines = lines[:len(lines)-1]
		if len(lines) != len(listed) {
			t.Fatalf("text of directory %q has %d records, want %d: %q", path, len(lines), len(listed), r.Body)
		}
		for i, it := range listed {
			if !strings.HasPrefix(lines[i], it.Path+" ") {
				t.Fatalf("text of directory %q: record %d is %q, want one of %q", path, i, lines[i], it.Path)
			}
		}
	default:
		if !strings.Contains(r.Body, "does not exist") || strings.Contains(r.Body, "\n") {
			t.Fatalf("text of missing path %q is %q", path, r.Body)
		}
	}

	// single metric
	m, err := vh.RpcGet(vh.Spell(t, parts, "sp"))
	if single != nil {
		if err != nil {
			t.Fatalf("RPC GetMetric(%q): %v", path, err)
		}
		same(t, fmt.Sprintf("RPC GetMetric(%q)", path), []meta{ofMsg(m)}, []meta{metaOf(single, false)})
	} else if _, ok := err.(rpc.ServerError); !ok || err.Error() != messages.ErrMetricNotFound.Error() {
		t.Fatalf("RPC GetMetric(%q) of no metric: error %v", path, err)
	}
	r = vh.Get("/metricsapi" + vh.URLPath(path) + "?singleton=true")
	if single != nil && !single.Omitted() {
		var j vh.JMetric
		if r.Status != 200 {
			t.Fatalf("REST singleton %q: status %d %q", path, r.Status, r.Body)
		}
		if err := vh.Strict(r.Body, &j); err != nil {
			t.Fatalf("REST singleton %q: %v in %q", path, err, r.Body)
		}
		same(t, fmt.Sprintf("REST singleton %q", path), []meta{ofJson(&j)}, []meta{metaOf(single, true)})
	} else if single == nil && r.Status != 404 {
		t.Fatalf("REST singleton %q of no metric: status %d", path, r.Status)
	}
}

// Listing the whole tree includes everything registered anywhere, in order,
// alike on every interface.
func TestWhole(t *testing.T) {
	vh.Check(t, 200, 2000, func(t *rapid.T) {
		vh.Reset()
		tricorder.UnregisterPath("/aa")
		tricorder.UnregisterPath("/zz")
		defer vh.Reset()
		defer tricorder.UnregisterPath("/aa")
		defer tricorder.UnregisterPath("/zz")
		x := 1
		var extra []string
		for _, base := range []string{"/aa", "/vp", "/zz"} {
			for n := rapid.IntRange(0, 3).Draw(t, "n"); n > 0; n-- {
				path := fmt.Sprintf("%s/%s", base, rapid.SampledFrom(names).Draw(t, "name"))
				if tricorder.RegisterMetric(path, &x, units.None, "") == nil {
					extra = append(extra, path)
				}
			}
		}
		var in, rp, js, tx []string
		for _, m := range tricorder.ReadMyMetrics(rapid.SampledFrom([]string{"", "/", "//", " "}).Draw(t, "root")) {
			in = append(in, m.Path)
		}
		l, err := vh.RpcList("/")
		vh.Must(t, err, "rpc")
		for _, m := range l {
			rp = append(rp, m.Path)
		}
		jl, err := vh.RestList("/")
		vh.Must(t, err, "rest")
		for _, m := range jl {
			js = append(js, *m.Path)
		}
		for i, line := range strings.Split(vh.Get("/metrics/?format=text").Body, "\n") {
			if i < len(in) && strings.HasPrefix(line, in[i]+" ") {
				tx = append(tx, in[i])
			} else if line != "" {
				tx = append(tx, line)
			}
		}
		for _, o := range []struct {
			n string
			l []string
		}{{"RPC", rp}, {"REST", js}, {"text", tx}} {
			if strings.Join(o.l, "\n") != strings.Join(in, "\n") {
				t.Fatalf("%s lists\n%q\nin process\n%q", o.n, o.l, in)
			}
		}
		have := map[string]int{}
		for i, p := range in {
			have[p]++
			if i > 0 && !(strings.Compare(strings.ReplaceAll(in[i-1], "/", "\x00"), strings.ReplaceAll(p, "/", "\x00")) < 0) {
				t.Fatalf("%q listed before %q", in[i-1], p)
			}
		}
		for _, p := range extra {
			if have[p] != 1 {
				t.Fatalf("%q listed %d times", p, have[p])
			}
		}
		// the root is a directory, not a metric
		root := rapid.SampledFrom([]string{"", "/", "//", " ", "/ /"}).Draw(t, "root2")
		if m, err := vh.RpcGet(root); err == nil || err.Error() != messages.ErrMetricNotFound.Error() {
			t.Fatalf("RPC GetMetric(%q) of the root: %v, error %v", root, m, err)
		}
		for _, u := range []string{"/metricsapi", "/metricsapi/", "/metricsapi//", "/metricsapi/%20", "/metricsapi/vp", "/metricsapi/aa", "/metricsapi/zz/"} {
			u += "?singleton=" + rapid.SampledFrom([]string{"true", "1", "yes"}).Draw(t, "singleton")
			r := vh.Get(u)
			if r.Status == 301 || r.Status == 307 || r.Status == 308 {
				continue
			}
			if r.Status != 404 {
				t.Fatalf("GET %s of no metric: status %d %q", u, r.Status, r.Body)
			}
		}
		if have["/proc/args"] != 1 {
			t.Fatalf("/proc/args listed %d times", have["/proc/args"])
		}
		vh.Case("whole "+strings.Join(extra, " "), len(extra) >= 2)
	})
}

var _ = types.Bool

// Requests at the same time do not disturb each other.
func TestParallel(t *testing.T) {
	group := tricorder.NewGroup()
	group.RegisterUpdateFunc(func() time.Time { return time.Unix(1000, 5) })
	vh.Check(t, 250, 3000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		p := vh.Populate(t, group, &vh.PopOpts{Names: names, MaxItems: 8, NonFinite: true, Text: simple})
		if wrong := vh.Parallel(t, p.Requests("local", "rpc", "rest", "text")); wrong != "" {
			t.Fatalf("%s", wrong)
		}
		vh.Case("parallel "+p.String(), len(p.Items) > 1)
	})
}

// Very many metrics, very long values.
func TestLarge(t *testing.T) {
	group := tricorder.NewGroup()
	group.RegisterUpdateFunc(func() time.Time { return time.Unix(1000, 5) })
	vh.Check(t, 4, 30, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		p, what := vh.Large(t, group)
		query(t, p, []string{"vp"}, "/vp")
		it := rapid.SampledFrom(p.Items).Draw(t, "one")
		query(t, p, it.Parts, it.Path)
		vh.Case(what, true)
	})
}
