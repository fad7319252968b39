package vh

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
)

// Item is one registered metric the harness controls.
type Item struct {
	Parts []string
	Path  string
	Desc  string
	Unit  units.Unit
	Kind  types.Type
	Sub   types.Type
	Bits  int
	How   string // ptr, func, list, dist
	G     GoType
	Cell  *Cell
	List  *tricorder.List
	Vals  []interface{} // list
	Cum   *tricorder.CumulativeDistribution
	Non   *tricorder.NonCumulativeDistribution
	Calls int // of the callback
	obj   interface{}
}

// Value is the value that has to be reported (not for distributions).
func (it *Item) Value() interface{} {
	switch it.How {
	case "list":
		return CanonSlice(it.G, it.Vals)
	case "dist":
		panic("dist")
	}
	return it.Cell.Get()
}

// Omitted tells whether listings leave the metric out (a non-finite float).
func (it *Item) Omitted() bool {
	return it.Cell != nil && it.Kind.IsFloat() && NonFinite(it.Cell.Get())
}

// String describes the item.
func (it *Item) String() string {
	v := ""
	if it.How == "dist" {
		v = "distribution"
	} else {
		v = Show(it.Value())
	}
	return fmt.Sprintf("%q %s %s [%s] %q = %s", it.Path, it.How, it.G.Name, it.Unit, it.Desc, v)
}

// PopOpts controls population generation.
type PopOpts struct {
	Names     []string // alphabet of names; nil: awkward text
	MaxItems  int
	NonFinite bool // NaN and infinities in scalars
	ListNF    bool // also in lists and distributions
	NoDist    bool
	Plain     bool // no named types
	Text      func(t *rapid.T, label string) string
	Units     []units.Unit
}

func (o *PopOpts) text(t *rapid.T, label string) string {
	if o.Text != nil {
		return o.Text(t, label)
	}
	return Text(t, label)
}

// value draws a scalar.
func (o *PopOpts) value(t *rapid.T, g GoType, nf bool, label string) interface{} {
	if g.Canon.Kind().String() == "string" {
		return o.text(t, label)
	}
	return Value(t, g, nf, label)
}

// Mutate changes the item's value.
func (it *Item) Mutate(t *rapid.T, o *PopOpts) {
	switch it.How {
	case "list":
		n := rapid.IntRange(0, 5).Draw(t, "len")
		it.Vals = nil
		for i := 0; i < n; i++ {
			it.Vals = append(it.Vals, o.value(t, it.G, o.ListNF, "elem"))
		}
		if n > 0 && n < 4 && rapid.IntRange(0, 19).Draw(t, "long") == 19 {
			small := true
			for _, v := range it.Vals {
				if s, ok := v.(string); ok && len(s) > 50 {
					small = false
				}
			}
			for m := rapid.IntRange(6, 1500).Draw(t, "longlen"); small && len(it.Vals) < m; {
				it.Vals = append(it.Vals, it.Vals[len(it.Vals)-n])
			}
		}
		s := SliceOf(it.G, it.Vals)
		if n == 0 && rapid.Bool().Draw(t, "nilslice") {
			s = reflect.Zero(reflect.SliceOf(it.G.T)).Interface()
		}
		mutable := rapid.Bool().Draw(t, "mutable")
		if it.List == nil {
			it.List = tricorder.NewList(s, mutable)
		} else {
			it.List.Change(s, mutable)
		}
	case "dist":
		n := rapid.IntRange(0, 4).Draw(t, "adds")
		for i := 0; i < n; i++ {
			f := Float(t, 32, "add")
			if rapid.IntRange(0, 19).Draw(t, "many") == 19 {
				for m := rapid.IntRange(2, 3000).Draw(t, "howmany"); m > 1; m-- {
					if it.Cum != nil {
						it.Cum.Add(f)
					} else {
						it.Non.Add(f)
					}
				}
			}
			if o.ListNF && rapid.IntRange(0, 5).Draw(t, "nf") == 0 {
				f = rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 1e308, -1e308}).Draw(t, "add")
			}
			if it.Cum != nil {
				it.Cum.Add(f)
			} else {
				it.Non.Add(f)
			}
		}
	default:
		if it.G.Ptr && rapid.IntRange(0, 2).Draw(t, "nil") == 0 {
			it.Cell.SetNil()
		} else {
			it.Cell.Set(o.value(t, it.G, o.NonFinite, "value"))
		}
	}
}

// Pop is a set of registered items under Base.
type Pop struct {
	Items []*Item
	Dirs  map[string]bool
}

var bucketers = []*tricorder.Bucketer{tricorder.PowersOfTen, tricorder.PowersOfTwo, tricorder.PowersOfFour,
	tricorder.NewLinearBucketer(4, -10, 7.5), tricorder.NewArbitraryBucketer(0.1), tricorder.NewGeometricBucketer(0.05, 30), tricorder.NewArbitraryBucketer(-8e307, 8e307)}

// Populate registers generated metrics under Base in group.
func Populate(t *rapid.T, group *tricorder.Group, o *PopOpts) *Pop {
	p := &Pop{Dirs: map[string]bool{}}
	n := rapid.IntRange(1, o.MaxItems).Draw(t, "items")
	used := map[string]bool{}
	// now and then a directory with many entries
	wide := rapid.IntRange(0, 24).Draw(t, "wide") == 24
	if wide {
		m := rapid.IntRange(10, 400).Draw(t, "entries")
		mod := 401
		if rapid.IntRange(0, 9).Draw(t, "huge") == 9 {
			m, mod = rapid.IntRange(401, 5000).Draw(t, "entries"), 5003
		}
		step := rapid.SampledFrom([]int{1, 7, 97, 389}).Draw(t, "step")
		sub := rapid.Bool().Draw(t, "subdirs")
		format := rapid.SampledFrom([]string{"w%d", "%d", "w-%d", "%x"}).Draw(t, "format")
		dir := rapid.SampledFrom([]string{"", "wide"}).Draw(t, "widedir")
		g := GoTypes[5]
		for i := 0; i < m; i++ {
			parts := []string{Base[1:]}
			if dir != "" {
				parts = append(parts, dir)
			}
			parts = append(parts, fmt.Sprintf(format, i*step%mod))
			if sub && i%3 == 0 {
				parts = append(parts, "m")
			}
			it := &Item{Parts: parts, Path: "/" + strings.Join(parts, "/"), Desc: "one of many", Unit: units.Byte,
				How: "ptr", G: g, Kind: g.Kind, Bits: g.Bits, Cell: NewCell(g)}
			it.obj = it.Cell.Pointer()
			it.Cell.Set(int64(i))
			p.register(t, group, it, used)
		}
	}
	for i := 0; i < n; i++ {
		parts := []string{Base[1:]}
		depth := rapid.IntRange(1, 4).Draw(t, "depth")
		if !wide && rapid.IntRange(0, 29).Draw(t, "deep") == 29 {
			depth = rapid.IntRange(5, rapid.SampledFrom([]int{40, 40, 40, 120}).Draw(t, "deepest")).Draw(t, "depth2")
		}
		for j := 0; j < depth; j++ {
			var name string
			if o.Names != nil {
				name = rapid.SampledFrom(o.Names).Draw(t, "name")
			} else {
				name = Name(t, "name")
			}
			parts = append(parts, name)
		}
		path := "/" + strings.Join(parts, "/")
		clash := used[path] || p.Dirs[path]
		for j := 1; j < len(parts); j++ {
			clash = clash || used["/"+strings.Join(parts[:j], "/")]
		}
		if clash {
			continue
		}
		it := &Item{Parts: parts, Path: path, Desc: o.text(t, "desc"), Unit: Unit(t)}
		if o.Units != nil {
			it.Unit = rapid.SampledFrom(o.Units).Draw(t, "unit2")
		}
		hows := []string{"ptr", "ptr", "func", "list", "dist"}
		if o.NoDist {
			hows = hows[:4]
		}
		it.How = rapid.SampledFrom(hows).Draw(t, "how")
		gs := GoTypes
		if o.Plain {
			gs = GoTypes[:17]
		}
		it.G = rapid.SampledFrom(gs).Filter(func(g GoType) bool { return it.How != "list" || !g.Ptr }).Draw(t, "type")
		it.Kind, it.Bits = it.G.Kind, 0
		if it.G.Kind.IsInt() || it.G.Kind.IsUint() || it.G.Kind.IsFloat() {
			it.Bits = it.G.Bits
		}
		switch it.How {
		case "list":
			it.Mutate(t, o)
			it.Kind, it.Sub, it.obj = types.List, it.G.Kind, it.List
		case "dist":
			it.Kind, it.Bits, it.G = types.Dist, 0, GoType{Name: "dist"}
			bs := bucketers
			if o.ListNF {
				bs = append(bs[:len(bs):len(bs)], tricorder.NewArbitraryBucketer(math.Inf(-1), 0, 5), tricorder.NewArbitraryBucketer(1, math.Inf(1)))
			}
			b := rapid.SampledFrom(bs).Draw(t, "bucketer")
			if rapid.Bool().Draw(t, "cum") {
				it.Cum = b.NewCumulativeDistribution()
				it.obj = it.Cum
			} else {
				it.Non = b.NewNonCumulativeDistribution()
				it.obj = it.Non
			}
		case "ptr":
			it.Cell = NewCell(it.G)
			it.obj = it.Cell.Pointer()
			it.Mutate(t, o)
		case "func":
			it.Cell = NewCell(it.G)
			it.obj = it.Cell.Func(func() { it.Calls++ })
			it.Mutate(t, o)
		}
		p.register(t, group, it, used)
		if it.How == "dist" {
			it.Mutate(t, o)
		}
	}
	sort.Slice(p.Items, func(i, j int) bool { return LessParts(p.Items[i].Parts, p.Items[j].Parts) })
	return p
}

func (p *Pop) register(t *rapid.T, group *tricorder.Group, it *Item, used map[string]bool) {
	if err := RegisterIn(t, group, it.Path, it.obj, it.Unit, it.Desc); err != nil {
		t.Fatalf("registering %s at %q: %v", it.G.Name, it.Path, err)
	}
	used[it.Path] = true
	for j := 1; j < len(it.Parts); j++ {
		p.Dirs["/"+strings.Join(it.Parts[:j], "/")] = true
	}
	p.Items = append(p.Items, it)
}

// LessParts orders paths as a depth-first listing does.
func LessParts(a, b []string) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

// Under lists the items at or under the path given by components, in order.
func (p *Pop) Under(parts []string) []*Item {
	var r []*Item
	for _, it := range p.Items {
		if len(it.Parts) < len(parts) {
			continue
		}
		ok := true
		for i := range parts {
			ok = ok && parts[i] == it.Parts[i]
		}
		if ok {
			r = append(r, it)
		}
	}
	return r
}

// String describes the population.
func (p *Pop) String() string {
	var s []string
	for _, it := range p.Items {
		s = append(s, it.String())
	}
	return strings.Join(s, "; ")
}

// Name draws a path component reachable over HTTP.
func Name(t *rapid.T, label string) string {
	s := strings.ReplaceAll(Text(t, label), "/", "_")
	if r := []rune(s); len(r) > 300 { // keep URLs within what servers take
		s = string(r[:300])
	}
	if strings.TrimSpace(s) == "" || s == "." || s == ".." {
		return "x" + s
	}
	return s
}
