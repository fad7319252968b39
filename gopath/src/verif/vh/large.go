package vh

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
)

func typeNamed(name string) GoType {
	for _, g := range GoTypes {
		if g.Name == name {
			return g
		}
	}
	panic(name)
}

// Large registers something big: very many metrics, or a very long string or
// list. It also says what, in a few words.
func Large(t *rapid.T, group *tricorder.Group) (*Pop, string) {
	p := &Pop{Dirs: map[string]bool{}}
	used := map[string]bool{}
	what := rapid.SampledFrom([]string{"flat", "nested", "string", "list"}).Draw(t, "large")
	add := func(it *Item) {
		it.Path = "/" + strings.Join(it.Parts, "/")
		it.Unit, it.Kind = units.None, it.G.Kind
		if it.Kind.IsInt() {
			it.Bits = 64
		}
		if it.How == "list" {
			it.Kind, it.Sub, it.obj = types.List, it.G.Kind, it.List
		} else {
			it.obj = it.Cell.Pointer()
		}
		if err := group.RegisterMetric(it.Path, it.obj, it.Unit, it.Desc); err != nil {
			t.Fatalf("registering %q: %v", it.Path, err)
		}
		used[it.Path] = true
		for j := 1; j < len(it.Parts); j++ {
			p.Dirs["/"+strings.Join(it.Parts[:j], "/")] = true
		}
		p.Items = append(p.Items, it)
	}
	n := 0
	switch what {
	case "string":
		n = rapid.IntRange(1<<20, 5<<20).Draw(t, "length")
		x := uint32(n)
		b := make([]byte, n)
		for i := range b {
			x = x*1664525 + 1013904223
			b[i] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-_"[x>>26]
		}
		it := &Item{Parts: []string{"vp", "s"}, Desc: "long", How: "ptr", G: typeNamed("string")}
		it.Cell = NewCell(it.G)
		it.Cell.Set(string(b))
		add(it)
	case "list":
		n = rapid.IntRange(65530, 200000).Draw(t, "length")
		it := &Item{Parts: []string{"vp", "l"}, Desc: "long", How: "list", G: typeNamed(rapid.SampledFrom([]string{"int64", "string", "duration", "time"}).Draw(t, "type"))}
		for i := 0; i < n; i++ {
			var v interface{}
			switch it.G.Name {
			case "int64":
				v = int64(i) * 7919
			case "string":
				v = fmt.Sprint("e", i)
			case "duration":
				v = time.Duration(i) * 1234567
			default:
				v = time.Unix(int64(i)*100+1, int64(i)).UTC()
			}
			it.Vals = append(it.Vals, v)
		}
		it.List = tricorder.NewList(SliceOf(it.G, it.Vals), rapid.Bool().Draw(t, "mutable"))
		add(it)
	default:
		n = rapid.SampledFrom([]int{10001, 16500, 33000, 66000}).Draw(t, "metrics")
		for i := 0; i < n; i++ {
			parts := []string{"vp", fmt.Sprint("m", i)}
			if what == "nested" {
				parts = []string{"vp", fmt.Sprint(i / 1000), fmt.Sprint(i % 1000)}
			}
			it := &Item{Parts: parts, Desc: fmt.Sprint("number ", i), How: "ptr", G: typeNamed("int64")}
			it.Cell = NewCell(it.G)
			it.Cell.Set(int64(i))
			add(it)
		}
	}
	if what != "flat" && what != "nested" {
		it := &Item{Parts: []string{"vp", "z"}, Desc: "after it", How: "ptr", G: typeNamed("int64")}
		it.Cell = NewCell(it.G)
		it.Cell.Set(int64(5))
		add(it)
	}
	sort.Slice(p.Items, func(i, j int) bool { return LessParts(p.Items[i].Parts, p.Items[j].Parts) })
	return p, fmt.Sprint("large ", what, " ", n)
}
