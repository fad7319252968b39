package c01

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "a case is one generated sequence of about 25 register/unregister/lookup calls over few names, odd spellings, live and stale handles, compared with a tree model after every call; non-trivial if a refused registration, an unregistration of a non-empty directory and a call on a stale handle occurred, or two of these; distinct by the sequence of calls")
}

type node struct {
	name     string
	parent   *node
	children map[string]*node // nil for a metric
	metric   *int64
	desc     string
}

func dirNode(name string, parent *node) *node {
	return &node{name: name, parent: parent, children: map[string]*node{}}
}

func (n *node) live(root *node) bool {
	for ; n != root; n = n.parent {
		if n.parent == nil || n.parent.children[n.name] != n {
			return false
		}
	}
	return true
}

type handle struct {
	d    *tricorder.DirectorySpec
	n    *node // nil: made through a stale handle
	path string
}

type found struct {
	path, desc string
	val        int64
}

func (n *node) list(prefix string, out *[]found) {
	var names []string
	for k := range n.children {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		c := n.children[k]
		if c.children != nil {
			c.list(prefix+"/"+k, out)
		} else {
			*out = append(*out, found{prefix + "/" + k, c.desc, *c.metric})
		}
	}
}

var names = []string{"a", "b", "c", "a", "b", "a", "b", "c", "a", "b", "ab", " a", "A", ".", "..", "é", "a b", "a.b", "a\xff", "a\xfe", "a\ufffd", "\x00a", "e\u0301", "a\\b", "a%20b", "a+b", "a:b", "a,b", "~", "*", "a?b", "#a", "$a", "a\nb", "\"a\"", "&amp;"}

func components(t *rapid.T, min, max int) []string {
	if rapid.IntRange(0, 49).Draw(t, "deep") == 49 {
		n := rapid.IntRange(4, rapid.SampledFrom([]int{24, 24, 150}).Draw(t, "deepest")).Draw(t, "depth")
		return rapid.SliceOfN(rapid.SampledFrom(names), n, n).Draw(t, "names")
	}
	if rapid.IntRange(0, 49).Draw(t, "long") == 49 {
		return []string{strings.Repeat(rapid.SampledFrom([]string{"a", "é", "x."}).Draw(t, "unit"), rapid.IntRange(20, 3000).Draw(t, "len"))}
	}
	return rapid.SliceOfN(rapid.SampledFrom(names), min, max).Draw(t, "names")
}

type machine struct {
	root    *node // the real root, with only Base modelled
	hs      []*handle
	next    int64
	group   *tricorder.Group
	log     []string
	refused int
	rmdir   int
	stale   int
	past    [][]string // places something was ever registered at, or asked for
	known   map[string]bool
	tick    int
}

// remember notes a place and those above it.
func (m *machine) remember(parts []string) {
	if m.known == nil {
		m.known = map[string]bool{}
	}
	for i := len(parts); i > 0; i-- {
		if path := join("/", parts[:i]); !m.known[path] && len(m.past) < 60 {
			m.known[path] = true
			m.past = append(m.past, parts[:i])
		}
	}
}

// probe asks for one place by its path, on some interface.
func (m *machine) probe(t *rapid.T, parts []string) {
	m.tick++
	path := join("/", parts)
	n, _ := lookup(m.root, parts)
	var want []found
	if n != nil && n.children == nil {
		want = []found{{path, n.desc, *n.metric}}
	} else if n != nil {
		n.list(path, &want)
	}
	switch {
	case m.tick%7 == 0:
		g, err := vh.RpcGet(path)
		if n == nil || n.children != nil {
			if err == nil {
				t.Fatalf("GetMetric(%q), where no metric is, gives %+v", path, g)
			}
		} else if v, _ := g.Value.(int64); err != nil || (found{g.Path, g.Description, v}) != want[0] {
			t.Fatalf("GetMetric(%q) gives %+v, %v, want %v", path, g, err, want[0])
		}
	case m.tick%7 == 3 && reachable(parts):
		url := "/metrics" + vh.URLPath(path)
		if m.tick%2 == 0 {
			url += "?format=text"
		}
		body := vh.Get(url).Body
		if missing := strings.Contains(body, "Path does not exist"); missing != (n == nil) {
			t.Fatalf("GET %s: %q, want %v", url, body, want)
		}
		for _, f := range want {
			if m.tick%2 == 0 && !strings.Contains(body, fmt.Sprint(f.val)) {
				t.Fatalf("GET %s: %q, want %v", url, body, want)
			}
		}
	default:
		got := tricorder.ReadMyMetrics(path)
		if len(got) != len(want) {
			t.Fatalf("ReadMyMetrics(%q) gives %d metrics, want %v", path, len(got), want)
		}
		for i, g := range got {
			v, _ := g.Value.(int64)
			if (found{g.Path, g.Description, v}) != want[i] {
				t.Fatalf("ReadMyMetrics(%q) gives %q %q %v, want %v", path, g.Path, g.Description, g.Value, want[i])
			}
		}
	}
}

// reachable tells whether HTTP servers leave the path as it is.
func reachable(parts []string) bool {
	for _, p := range parts {
		if p == "." || p == ".." {
			return false
		}
	}
	return true
}

// where draws the start of a path: nil (absolute) or a handle.
func (m *machine) where(t *rapid.T) *handle {
	i := rapid.IntRange(-2, len(m.hs)-1).Draw(t, "handle")
	if i < 0 {
		return nil
	}
	return m.hs[i]
}

func (m *machine) step(f string, a ...interface{}) {
	m.log = append(m.log, fmt.Sprintf(f, a...))
}

// target draws a place: start node (nil if stale), full components, spelling.
func (m *machine) target(t *rapid.T, min int) (h *handle, start *node, parts []string, path string) {
	h = m.where(t)
	if h == nil {
		parts = append([]string{"vp"}, components(t, min, 3)...)
		if rapid.IntRange(0, 30).Draw(t, "root") == 0 {
			parts = nil
		}
		return nil, m.root, parts, vh.Spell(t, parts, "sp")
	}
	parts = components(t, min, 3)
	path = vh.Spell(t, parts, "sp")
	if h.n != nil && h.n.live(m.root) {
		start = h.n
	} else {
		m.stale++
	}
	if start == m.root {
		// keep inside Base
		parts = append([]string{"vp"}, parts...)
		path = vh.Spell(t, parts, "sp")
	}
	return
}

func (m *machine) registerMetric(t *rapid.T) {
	h, start, parts, path := m.target(t, 0)
	m.next++
	v, desc := new(int64), fmt.Sprintf("d%d", m.next)
	*v = m.next
	var err error
	how := rapid.IntRange(0, 2).Draw(t, "how")
	switch {
	case h == nil && how == 0:
		err = tricorder.RegisterMetric(path, v, units.None, desc)
	case h == nil && how == 1:
		err = m.group.RegisterMetric(path, v, units.None, desc)
	case h == nil:
		err = tricorder.RegisterMetricInGroup(path, v, m.group, units.None, desc)
	case how == 0:
		err = h.d.RegisterMetric(path, v, units.None, desc)
	case how == 1:
		err = h.d.RegisterMetricInGroup(path, v, m.group, units.None, desc)
	default:
		err = tricorder.DirectoryGroup{Group: m.group, Directory: h.d}.RegisterMetric(path, v, units.None, desc)
	}
	m.step("metric %s %q -> %v", hname(h), path, err)
	if start == nil {
		return
	}
	var want error
	if len(parts) == 0 {
		want = tricorder.ErrPathInUse
	}
	n := start
	for i, p := range parts {
		c := n.children[p]
		if c != nil && (c.children == nil || i == len(parts)-1) {
			want = tricorder.ErrPathInUse
			break
		}
		if c == nil {
			break
		}
		n = c
	}
	m.remember(absolute(start, parts))
	if err != want {
		t.Fatalf("registering metric %q: error %v, want %v", path, err, want)
	}
	if want != nil {
		m.refused++
		return
	}
	n = start
	for _, p := range parts[:len(parts)-1] {
		c := n.children[p]
		if c == nil {
			c = dirNode(p, n)
			n.children[p] = c
		}
		n = c
	}
	last := parts[len(parts)-1]
	n.children[last] = &node{name: last, parent: n, metric: v, desc: desc}
}

// many fills a directory with entries at once, or removes many.
func (m *machine) many(t *rapid.T) {
	if rapid.IntRange(0, 19).Draw(t, "rarely") != 19 {
		t.Skip()
	}
	n, _ := lookup(m.root, []string{"vp", "wide"})
	if n == nil {
		if _, err := tricorder.RegisterDirectory("/vp/wide"); err != nil {
			if vp := m.root.children["vp"]; vp != nil && vp.children == nil {
				return // /vp is a metric
			}
			t.Fatalf("registering /vp/wide: %v", err)
		}
		vp := m.root.children["vp"]
		if vp == nil {
			vp = dirNode("vp", m.root)
			m.root.children["vp"] = vp
		}
		n = dirNode("wide", vp)
		vp.children["wide"] = n
	}
	k := rapid.IntRange(2, 150).Draw(t, "many")
	step := rapid.SampledFrom([]int{1, 7, 53}).Draw(t, "step")
	rm := len(n.children) > 0 && rapid.Bool().Draw(t, "remove")
	m.step("many %d step %d remove %v", k, step, rm)
	for i := 0; i < k; i++ {
		name := fmt.Sprintf("w%d", i*step%151)
		path := "/vp/wide/" + name
		if rm {
			tricorder.UnregisterPath(path)
			delete(n.children, name)
			continue
		}
		m.next++
		v, desc := new(int64), fmt.Sprintf("d%d", m.next)
		*v = m.next
		err := tricorder.RegisterMetric(path, v, units.None, desc)
		if n.children[name] != nil {
			if err != tricorder.ErrPathInUse {
				t.Fatalf("registering metric %q again: error %v", path, err)
			}
			continue
		}
		if err != nil {
			t.Fatalf("registering metric %q: error %v", path, err)
		}
		n.children[name] = &node{name: name, parent: n, metric: v, desc: desc}
	}
}

func (m *machine) registerDirectory(t *rapid.T) {
	h, start, parts, path := m.target(t, 0)
	var d *tricorder.DirectorySpec
	var err error
	if h == nil {
		d, err = tricorder.RegisterDirectory(path)
	} else {
		d, err = h.d.RegisterDirectory(path)
	}
	m.step("dir %s %q -> %v", hname(h), path, err)
	if start == nil {
		if err == nil {
			m.hs = append(m.hs, &handle{d, nil, join(h.path, parts)})
		}
		return
	}
	n := start
	for _, p := range parts {
		c := n.children[p]
		if c != nil && c.children == nil {
			if err != tricorder.ErrPathInUse {
				t.Fatalf("registering directory %q through or at a metric: error %v", path, err)
			}
			m.refused++
			return
		}
		if c == nil {
			c = dirNode(p, n)
			n.children[p] = c
		}
		n = c
	}
	m.remember(absolute(start, parts))
	if err != nil || d == nil {
		t.Fatalf("registering directory %q: error %v", path, err)
	}
	from := "/"
	if h != nil {
		from = h.path
	}
	m.hs = append(m.hs, &handle{d, n, join(from, parts)})
}

func join(base string, parts []string) string {
	if len(parts) == 0 {
		return base
	}
	return strings.TrimSuffix(base, "/") + "/" + strings.Join(parts, "/")
}

func hname(h *handle) string {
	if h == nil {
		return "abs"
	}
	return "@" + h.path
}

func lookup(start *node, parts []string) (n *node, through bool) {
	n = start
	for _, p := range parts {
		if n.children == nil {
			return nil, true
		}
		n = n.children[p]
		if n == nil {
			return nil, false
		}
	}
	return n, false
}

func (m *machine) checkLookup(t *rapid.T, parts []string, path string, keep bool) {
	d, err := tricorder.GetDirectory(path)
	n, through := lookup(m.root, parts)
	switch {
	case through:
		if err != tricorder.ErrNotFound && err != tricorder.ErrPathInUse {
			t.Fatalf("GetDirectory(%q) through a metric: error %v", path, err)
		}
	case n == nil:
		if err != tricorder.ErrNotFound {
			t.Fatalf("GetDirectory(%q) of nothing: error %v", path, err)
		}
	case n.children == nil:
		if err != tricorder.ErrPathInUse {
			t.Fatalf("GetDirectory(%q) of a metric: error %v", path, err)
		}
	default:
		if err != nil || d == nil {
			t.Fatalf("GetDirectory(%q) of a directory: error %v", path, err)
		}
		if p := d.AbsPath(); p != join("/", parts) {
			t.Fatalf("GetDirectory(%q).AbsPath() = %q", path, p)
		}
		if keep {
			m.hs = append(m.hs, &handle{d, n, join("/", parts)})
		}
	}
}

func (m *machine) getDirectory(t *rapid.T) {
	parts := append([]string{"vp"}, components(t, 0, 3)...)
	if rapid.IntRange(0, 20).Draw(t, "root") == 0 {
		parts = nil
	}
	path := vh.Spell(t, parts, "sp")
	m.step("get %q", path)
	m.checkLookup(t, parts, path, true)
}

func (m *machine) unregisterPath(t *rapid.T) {
	h, start, parts, path := m.target(t, 0)
	m.step("unregister %s %q", hname(h), path)
	if h == nil {
		tricorder.UnregisterPath(path)
	} else {
		h.d.UnregisterPath(path)
	}
	if start == nil || len(parts) == 0 {
		return
	}
	n, _ := lookup(start, parts)
	if n == nil {
		return
	}
	if len(n.children) > 0 {
		m.rmdir++
	}
	delete(n.parent.children, n.name)
}

func (m *machine) unregisterDirectory(t *rapid.T) {
	if len(m.hs) == 0 {
		t.Skip("no handle")
	}
	h := rapid.SampledFrom(m.hs).Draw(t, "h")
	m.step("unregisterDirectory %s", h.path)
	h.d.UnregisterDirectory()
	if h.n == nil || !h.n.live(m.root) {
		m.stale++
		return
	}
	if h.n == m.root {
		return
	}
	if len(h.n.children) > 0 {
		m.rmdir++
	}
	delete(h.n.parent.children, h.n.name)
}

func (m *machine) change(t *rapid.T) {
	var l []found
	m.root.list("", &l)
	if len(l) == 0 {
		t.Skip("nothing")
	}
	f := rapid.SampledFrom(l).Draw(t, "m")
	n, _ := lookup(m.root, strings.Split(f.path[1:], "/"))
	m.next++
	*n.metric = m.next
}

func (m *machine) check(t *rapid.T) {
	var want []found
	m.root.list("", &want)
	got := tricorder.ReadMyMetrics(vh.Base)
	if len(got) != len(want) {
		var ps []string
		for _, g := range got {
			ps = append(ps, g.Path)
		}
		t.Fatalf("%d metrics reported %q, want %d: %v", len(got), ps, len(want), want)
	}
	for i, g := range got {
		v, _ := g.Value.(int64)
		if (found{g.Path, g.Description, v}) != want[i] {
			t.Fatalf("metric %d reported as %q %q %v, want %v", i, g.Path, g.Description, g.Value, want[i])
		}
	}
	for _, h := range m.hs {
		if p := h.d.AbsPath(); p != h.path {
			t.Fatalf("handle created under %q says its path is %q", h.path, p)
		}
	}
	var walk func(n *node, parts []string)
	walk = func(n *node, parts []string) {
		m.checkLookup(t, parts, "/"+strings.Join(parts, "/"), false)
		for k, c := range n.children {
			walk(c, append(parts[:len(parts):len(parts)], k))
		}
	}
	if vp := m.root.children["vp"]; vp != nil {
		walk(vp, []string{"vp"})
	}
	for i, k := m.tick, 0; k < 10 && k < len(m.past); i, k = i+1, k+1 {
		m.probe(t, m.past[i%len(m.past)])
	}
}

// absolute gives the components from the root of a place below a node.
func absolute(n *node, parts []string) []string {
	for ; n.parent != nil; n = n.parent {
		parts = append([]string{n.name}, parts...)
	}
	return parts
}

func outside() string {
	var s []string
	for _, g := range tricorder.ReadMyMetrics("/") {
		if !strings.HasPrefix(g.Path, vh.Base+"/") && g.Path != vh.Base {
			s = append(s, g.Path)
		}
	}
	return strings.Join(s, "\n")
}

func TestTree(t *testing.T) {
	group := tricorder.NewGroup()
	group.RegisterUpdateFunc(func() time.Time { return time.Unix(1, 0) })
	before := outside()
	vh.Steps(25, 40)
	vh.Check(t, 12000, 120000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		m := &machine{root: dirNode("", nil), group: group}
		t.Repeat(map[string]func(*rapid.T){
			"metric":  m.registerMetric,
			"metric2": m.registerMetric,
			"dir":     m.registerDirectory,
			"get":     m.getDirectory,
			"unreg":   m.unregisterPath,
			"unregd":  m.unregisterDirectory,
			"change":  m.change,
			"many":    m.many,
			"":        m.check,
		})
		if after := outside(); after != before {
			t.Fatalf("metrics outside %s changed from\n%s\nto\n%s", vh.Base, before, after)
		}
		k := 0
		for _, n := range []int{m.refused, m.rmdir, m.stale} {
			if n > 0 {
				k++
			}
		}
		vh.Case(strings.Join(m.log, "; "), k >= 2)
	})
}

// A second test aims at the history the first meets rarely: a directory
// replaced at the same path while old handles are around.
func TestStale(t *testing.T) {
	vh.Steps(15, 30)
	vh.Check(t, 4000, 40000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		m := &machine{root: dirNode("", nil), group: tricorder.DefaultGroup}
		paths := [][]string{{"vp", "a"}, {"vp", "a", "b"}, {"vp"}, {"vp", "a", "b", "c"}}
		t.Repeat(map[string]func(*rapid.T){
			"mk": func(t *rapid.T) {
				parts := rapid.SampledFrom(paths).Draw(t, "p")
				d, err := tricorder.RegisterDirectory(strings.Join(parts, "/"))
				m.step("dir %v -> %v", parts, err)
				n := m.root
				for _, p := range parts {
					c := n.children[p]
					if c == nil {
						c = dirNode(p, n)
						n.children[p] = c
					} else if c.children == nil {
						if err != tricorder.ErrPathInUse {
							t.Fatalf("directory at or through a metric: %v", err)
						}
						return
					}
					n = c
				}
				if err != nil {
					t.Fatalf("RegisterDirectory(%v): %v", parts, err)
				}
				m.hs = append(m.hs, &handle{d, n, join("/", parts)})
			},
			"metric": m.registerMetric,
			"unregd": m.unregisterDirectory,
			"unreg":  m.unregisterPath,
			"":       m.check,
		})
		vh.Case(strings.Join(m.log, "; "), m.stale > 0 && m.rmdir > 0)
	})
}
