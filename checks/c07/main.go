// C07: tags and tracking ids over every small tree of contexts, and concurrent spans.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"log/slog"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/google/uuid"

	"verif.local/mc/lib/mc"
	"verif.local/mc/mcrt"
)

type kind int

const (
	kTagA kind = iota
	kTagB
	kTagBuf // tag from a caller's buffer that is overwritten afterwards
	kSpan
	kTracking
	kDetach
	kCancel
	kFresh // tracking with an invented id
	kValue
	kTimeout
	kHelper
	nKinds
)

var names = [...]string{"tagA", "tagB", "tagBuf", "span", "tracking", "detach", "cancel", "fresh", "value", "timeout", "helper"}

type tag struct{ k, v string }

type node struct {
	c      ctx.C
	kind   kind
	parent *node
	tags   []tag
	id     string // tracking id in force
	end    func()
}

type vkey struct{}

func list(c ctx.C) (out []tag, err error) {
	err = ctx.RangeTag(c, func(k string, j ctx.JSON) error {
		out = append(out, tag{k, string(j)})
		return nil
	})
	return
}

func verify(x *mcrt.X, all []*node, hist string) {
	for i, n := range all {
		got, err := list(n.c)
		if err != nil || fmt.Sprint(got) != fmt.Sprint(n.tags) {
			x.Failf("tags:"+names[n.kind], "%s: context %d lists tags %v (%v), should be %v", hist, i, got, err, n.tags)
		}
		near := map[string]string{}
		for _, t := range n.tags {
			near[t.k] = t.v
		}
		for _, k := range []string{"a", "b", "buf", "tracking-id", "none"} {
			v := n.c.Value(k)
			if want, ok := near[k]; ok {
				if j, isj := v.(ctx.JSON); !isj || string(j) != want {
					x.Failf("lookup:"+names[n.kind], "%s: context %d looks up %s as %v, should be %s", hist, i, k, v, want)
				}
			} else if v != nil {
				x.Failf("lookup:"+names[n.kind], "%s: context %d looks up %s as %v, never set", hist, i, k, v)
			}
		}
		// a listing stops at the first error and returns it
		for stop := 0; stop < len(n.tags); stop++ {
			e := errors.New("stop")
			seen := 0
			err := ctx.RangeTag(n.c, func(k string, j ctx.JSON) error {
				seen++
				if seen == stop+1 {
					return e
				}
				return nil
			})
			if err != e || seen != stop+1 {
				x.Failf("stop", "%s: listing stopped after %d of %d with %v", hist, seen, len(n.tags), err)
			}
		}
		if id := ctx.GetTracking(n.c); id != n.id {
			x.Failf("id:"+names[n.kind], "%s: context %d has tracking id %q, should be %q", hist, i, id, n.id)
		}
	}
}

// position checks that id is parent extended by one position.
func position(x *mcrt.X, hist, parent, id string) {
	if !strings.HasPrefix(id, parent+".") || strings.Contains(id[len(parent)+1:], ".") || len(id) == len(parent)+1 {
		x.Failf("span-id", "%s: span %q under %q", hist, id, parent)
	}
}

func build(x *mcrt.X, all []*node, ids map[string]bool, hist *string, kinds int) []*node {
	pi := mcrt.Choose(len(all))
	return derive(x, all, ids, hist, pi, kind(mcrt.Choose(kinds)))
}

func derive(x *mcrt.X, all []*node, ids map[string]bool, hist *string, pi int, k kind) []*node {
	p := all[pi]
	i := len(all)
	n := &node{kind: k, parent: p, tags: append([]tag(nil), p.tags...), id: p.id}
	*hist += fmt.Sprintf(" %d=%s(%d)", i, names[k], pi)
	newID := func(id string) {
		if ids[id] {
			x.Failf("dup-id", "%s: tracking id %q given twice", *hist, id)
		}
		ids[id] = true
		n.id = id
		n.tags = append(n.tags, tag{"tracking-id", fmt.Sprintf("%q", id)})
	}
	switch k {
	case kTagA:
		n.c = ctx.WithTag(p.c, "a", i)
		n.tags = append(n.tags, tag{"a", fmt.Sprint(i)})
	case kTagB:
		n.c = ctx.WithTag(p.c, "b", fmt.Sprint(i))
		n.tags = append(n.tags, tag{"b", fmt.Sprintf("%q", fmt.Sprint(i))})
	case kTagBuf:
		buf := []byte(fmt.Sprintf("[%d]", i))
		switch i % 3 {
		case 0:
			n.c = ctx.WithTag(p.c, "buf", buf)
		case 1:
			n.c = ctx.WithTag(p.c, "buf", json.RawMessage(buf))
		default:
			n.c = ctx.WithTag(p.c, "buf", ctx.JSON(buf))
		}
		n.tags = append(n.tags, tag{"buf", string(buf)})
		copy(buf, "!!!!!")
	case kSpan:
		c, cf := ctx.Span(p.c, "s")
		n.c, n.end = c, func() { cf(nil) }
		id := ctx.GetTracking(n.c)
		if p.id != "" {
			position(x, *hist, p.id, id)
		} else if id == "" {
			x.Failf("span-id", "%s: span without an id", *hist)
		}
		newID(id)
	case kTracking:
		id := fmt.Sprint("T", i)
		n.c = ctx.WithTracking(p.c, id)
		newID(id)
	case kFresh:
		n.c = ctx.WithTracking(p.c, "")
		if ctx.GetTracking(n.c) == "" {
			x.Failf("fresh", "%s: no tracking id invented", *hist)
		}
		newID(ctx.GetTracking(n.c))
	case kDetach:
		n.c = ctx.Detach(p.c)
	case kCancel:
		c, cf := ctx.WithCancel(p.c)
		n.c, n.end = c, func() { cf(nil) }
	case kValue:
		n.c = ctx.WithValue(p.c, vkey{}, i)
	case kTimeout:
		n.c, n.end = ctx.WithTimeout(p.c, time.Hour)
	case kHelper:
		n.c = log.WithHelper(p.c, func() {})
	}
	return append(all, n)
}

func tree(name string, nodes, kinds int, tracked bool) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, MaxBound: -1, AllowLeak: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		uuid.SetRand(&counter{})
		c, cf := ctx.Background()
		defer cf(nil)
		root := &node{c: log.WithLogFunc(c, func(ctx.C, slog.Level, string, string, ...any) {}), kind: kCancel}
		ids := map[string]bool{}
		if tracked {
			root.c = ctx.WithTracking(root.c, "R")
			root.id = "R"
			root.tags = []tag{{"tracking-id", `"R"`}}
			ids["R"] = true
		}
		all := []*node{root}
		hist := "0=root"
		for i := 1; i < nodes; i++ {
			all = build(x, all, ids, &hist, kinds)
		}
		verify(x, all, hist)
		return nil
	}}
}

// large: long chains, wide stars and combs of derivations, in every mix of two kinds and of all of them.
func large() *mcrt.Scenario {
	sizes := []int{9, 17, 40, 70, 130, 300}
	return &mcrt.Scenario{Name: "large trees", MaxBound: -1, AllowLeak: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		uuid.SetRand(&counter{})
		c, cf := ctx.Background()
		defer cf(nil)
		c = ctx.WithTracking(log.WithLogFunc(c, func(ctx.C, slog.Level, string, string, ...any) {}), "R")
		all := []*node{{c: c, kind: kCancel, id: "R", tags: []tag{{"tracking-id", `"R"`}}}}
		ids := map[string]bool{"R": true}
		size := sizes[mcrt.Choose(len(sizes))]
		shape := mcrt.Choose(4)
		a := kind(mcrt.Choose(int(nKinds)))
		b := kind(mcrt.Choose(int(nKinds) + 1))
		hist, timeouts := "", 0
		for i := 1; i < size; i++ {
			k := a
			if i%2 == 0 {
				k = b
			}
			if b == nKinds {
				k = (a + kind(i*i/3)) % nKinds
			}
			if k == kTimeout { // as far as the engine's threads reach
				if timeouts++; timeouts > 20 {
					k = kCancel
				}
			}
			pi := 0
			switch shape {
			case 0: // a chain
				pi = i - 1
			case 1: // all of one, which is a span itself
				if i > 1 {
					pi = 1
				}
			case 2: // a binary tree
				pi = (i - 1) / 2
			case 3: // a chain with a twig on each second one
				pi = i - 1
				if i%2 == 1 && i > 1 {
					pi = i - 2
				}
			}
			all = derive(x, all, ids, &hist, pi, k)
			if f := all[i].end; f != nil && size > 40 { // what has ended keeps its tags
				f()
				time.Sleep(time.Microsecond)
			}
		}
		what := fmt.Sprintf("%d contexts, shape %d, kinds %s and %v", size, shape, names[a], b)
		var some []*node
		for i, n := range all {
			if i < 3 || i == size/2 || i >= size-3 || i == 63 || i == 64 {
				some = append(some, n)
			}
		}
		verify(x, some, what)
		return nil
	}}
}

// counter makes invented ids reproducible.
type counter struct{ n uint64 }

func (c *counter) Read(b []byte) (int, error) {
	c.n++
	for i := range b {
		b[i] = byte(c.n >> (8 * uint(i%8)))
	}
	return len(b), nil
}

type tv struct {
	v    any
	want string // "": any valid JSON
}

type jm struct{ s string }

func (j jm) MarshalJSON() ([]byte, error) {
	if j.s == "" {
		return nil, errors.New("no")
	}
	return []byte(j.s), nil
}

func values() []tv {
	var np *int
	seven := 7
	return []tv{
		{"x", `"x"`}, {"", `""`}, {"é\n\"<", ""}, {1, "1"}, {-2.5, "-2.5"}, {true, "true"}, {nil, "null"}, {np, "null"}, {&seven, "7"},
		{[]int{1, 2}, "[1,2]"}, {[]int(nil), "null"}, {map[string]int{"b": 1, "a": 2}, `{"a":2,"b":1}`}, {struct {
			A int `json:"a"`
		}{3}, `{"a":3}`},
		{[]byte(`{"k":1}`), `{"k":1}`}, {[]byte("not json"), `"bm90IGpzb24="`}, {[]byte{}, ""}, {[]byte(nil), ""},
		{json.RawMessage(`[1]`), "[1]"}, {ctx.JSON(`"s"`), `"s"`}, {json.RawMessage(nil), ""}, {ctx.JSON(nil), ""},
		{jm{`{"m":1}`}, `{"m":1}`}, {jm{""}, ""}, {make(chan int), ""}, {func() {}, ""}, {errors.New("e"), ""}, {time.Second, "1000000000"},
	}
}

func scenarios() []*mcrt.Scenario {
	out := []*mcrt.Scenario{
		tree("trees of 5, main kinds, tracked", 5, int(kCancel)+1, true),
		tree("trees of 4, all kinds, untracked", 4, int(nKinds), false),
	}
	if mc.Thorough() {
		out = append(out, tree("trees of 5, all kinds, tracked", 5, int(nKinds), true), tree("trees of 6, few kinds", 6, int(kTracking)+1, true))
	}
	add := func(name string, body func(x *mcrt.X)) *mcrt.Scenario {
		s := &mcrt.Scenario{Name: name, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) { body(x); return nil }}
		out = append(out, s)
		return s
	}
	add("tag values", func(x *mcrt.X) {
		vs := values()
		i := mcrt.Choose(len(vs))
		v := vs[i]
		c := ctx.WithTag(ctx.WithTag(ctx.TODO(), "before", 0), "a", v.v)
		c = ctx.WithTag(c, "after", 1)
		got, err := list(c)
		if err != nil || len(got) != 3 || got[0] != (tag{"before", "0"}) || got[1].k != "a" || got[2] != (tag{"after", "1"}) {
			x.Failf("value-list", "tag value %T %v: listed %v %v", v.v, v.v, got, err)
			return
		}
		if v.want != "" && got[1].v != v.want || !json.Valid([]byte(got[1].v)) {
			x.Failf("value", "tag value %T %v is recorded as %q, want %q", v.v, v.v, got[1].v, v.want)
		}
	}).MaxBound = -1
	add("many spans", func(x *mcrt.X) {
		root := ctx.WithTracking(ctx.TODO(), "R")
		ids := map[string]bool{"R": true}
		for i := 0; i < 300; i++ {
			s, cf := ctx.Span(root, "s")
			id := ctx.GetTracking(s)
			position(x, "many", "R", id)
			if ids[id] {
				x.Failf("dup-id", "span %d repeats id %q", i, id)
			}
			ids[id] = true
			if i%20 == 0 {
				for j := 0; j < 20; j++ {
					n, nf := ctx.Span(ctx.WithTag(s, "k", j), "n")
					nid := ctx.GetTracking(n)
					position(x, "nested", id, nid)
					if ids[nid] {
						x.Failf("dup-id", "nested span repeats id %q", nid)
					}
					ids[nid] = true
					nf(nil)
				}
			}
			cf(nil)
		}
	}).MaxBound = -1
	spans := func(name string, depth int, derive ...func(c ctx.C) ctx.C) {
		add(name, func(x *mcrt.X) {
			root := ctx.WithTag(ctx.WithTracking(ctx.TODO(), "R"), "shared", 1)
			var wg sync.WaitGroup
			ids := make([][]string, len(derive))
			for i, d := range derive {
				i, d := i, d
				wg.Add(1)
				go func() {
					defer wg.Done()
					c := d(root)
					for k := 0; k < depth; k++ {
						s, cf := ctx.Span(c, "s")
						defer cf(nil)
						id := ctx.GetTracking(s)
						position(x, name, "R", id)
						n, nf := ctx.Span(s, "n")
						defer nf(nil)
						position(x, name, id, ctx.GetTracking(n))
						ids[i] = append(ids[i], id, ctx.GetTracking(n))
						s = ctx.WithTag(s, "mine", i)
						got, _ := list(s)
						want := fmt.Sprint([]tag{{"tracking-id", `"R"`}, {"shared", "1"}})
						if !strings.HasPrefix(fmt.Sprint(got), strings.TrimSuffix(want, "]")) || got[len(got)-1] != (tag{"mine", fmt.Sprint(i)}) || got[len(got)-2] != (tag{"tracking-id", fmt.Sprintf("%q", id)}) {
							x.Failf("concurrent-tags", "goroutine %d sees %v", i, got)
						}
					}
				}()
			}
			wg.Wait()
			seen := map[string]bool{}
			for _, l := range ids {
				for _, id := range l {
					if seen[id] {
						x.Failf("dup-id", "concurrent spans share id %q: %v", id, ids)
					}
					seen[id] = true
				}
			}
			var first []string
			for _, l := range ids {
				first = append(first, l[0])
			}
			sort.Strings(first)
			x.Outf("%v", first)
		})
	}
	same := func(c ctx.C) ctx.C { return c }
	tagged := func(c ctx.C) ctx.C { return ctx.WithTag(c, "x", 1) }
	det := func(c ctx.C) ctx.C { return ctx.Detach(c) }
	spans("two goroutines span one context", 2, same, same)
	spans("three goroutines span one context", 1, same, same, same)
	spans("tagged and detached contexts of one root", 1, same, tagged, det)
	out = append(out, large())
	return out
}

func main() {
	mc.Main("C07", mc.Options{
		QuickBound: 3, ThoroughBound: 6,
		Rule:   "every tree of up to 4 derivations of every kind from every existing context; chains, stars, binary trees and combs of up to 300 derivations of two kinds in turn or all; every schedule of goroutines deriving spans and tags from one context",
		Assume: []string{"package context of the standard library is correct"},
	}, scenarios)
}
