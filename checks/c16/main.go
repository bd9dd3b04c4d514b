// C16: every operation sequence on maps and sets of many types against a plain map; every schedule for linearizability.
package main

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	gosync "sync"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/utils/lists"
	"github.com/Aize-Public/forego/utils/sync"

	"verif.local/mc/lib/mc"
	"verif.local/mc/lib/vk"
	"verif.local/mc/mcrt"
	"verif.local/mc/mcrt/lin"
)

var c = ctx.TODO()

// ---- sequences

type sq struct {
	k    *vk.Check
	w    *vk.Worker
	hist []string
	bad  bool
}

func (s *sq) fail(key, f string, a ...any) {
	s.bad = true
	s.k.Violate(key, strings.Join(s.hist, "; ")+": "+fmt.Sprintf(f, a...), map[string]any{"history": s.hist})
}

var errStop = errors.New("stop")

func same(a, b any) bool { return reflect.DeepEqual(a, b) }

// runMap runs the sequence number i of length depth on a map of K to V
func runMap[K comparable, V any](k *vk.Check, w *vk.Worker, name string, keys []K, vals []V, depth int, i int64) {
	s := &sq{k: k, w: w, hist: []string{name}}
	var m sync.Map[K, V]
	model := map[K]V{}
	kinds := 11
	n := kinds * len(keys) * len(vals)
	p := vk.Catch(func() error {
		for d := 0; d < depth && !s.bad; d++ {
			o := int(i % int64(n))
			i /= int64(n)
			op, key, val := o%kinds, keys[o/kinds%len(keys)], vals[o/kinds/len(keys)]
			old, had := model[key]
			s.w.Ev++
			note := func(f string, a ...any) { s.hist = append(s.hist, fmt.Sprintf(f, a...)) }
			switch op {
			case 0:
				note("Store(%v,%#v)", key, val)
				m.Store(key, val)
				model[key] = val
			case 1:
				note("Load(%v)", key)
				if v, ok := m.Load(key); ok != had || !same(v, old) {
					s.fail(name+":load", "%#v %v, want %#v %v", v, ok, old, had)
				}
			case 2:
				note("Get(%v)", key)
				if v := m.Get(key); !same(v, old) {
					s.fail(name+":get", "%#v, want %#v", v, old)
				}
			case 3:
				note("LoadOrStore(%v,%#v)", key, val)
				v, ok := m.LoadOrStore(key, val)
				if !had {
					model[key] = val
					old = val
				}
				if ok != had || !same(v, old) {
					s.fail(name+":loadorstore", "%#v %v, want %#v %v", v, ok, old, had)
				}
			case 4:
				note("GetOrStore(%v,%#v)", key, val)
				v := m.GetOrStore(key, val)
				if !had {
					model[key] = val
					old = val
				}
				if !same(v, old) {
					s.fail(name+":getorstore", "%#v, want %#v", v, old)
				}
			case 5:
				note("Delete(%v)", key)
				m.Delete(key)
				delete(model, key)
			case 6:
				note("LoadAndDelete(%v)", key)
				v, ok := m.LoadAndDelete(key)
				delete(model, key)
				if ok != had || !same(v, old) {
					s.fail(name+":loadanddelete", "%#v %v, want %#v %v", v, ok, old, had)
				}
			case 7:
				note("IsEmpty()")
				if e := m.IsEmpty(); e != (len(model) == 0) {
					s.fail(name+":isempty", "%v with %v", e, model)
				}
			case 8: // Map, and what it gives is the caller's
				note("Map()")
				got := m.Map()
				if !same(got, model) {
					s.fail(name+":map", "%v, want %v", got, model)
				}
				got[key] = val
				delete(got, keys[0])
			case 9: // Range, stopped after two; deleting while ranging
				note("Range()")
				seen := map[K]bool{}
				m.Range(func(k K, v V) bool {
					w, ok := model[k]
					if !ok || seen[k] || !same(v, w) {
						s.fail(name+":range", "visits %v=%#v, want %v", k, v, model)
					}
					seen[k] = true
					return len(seen) < 2
				})
				if want := len(model); len(seen) != want && !(len(seen) == 2 && want > 2) {
					s.fail(name+":range-count", "visits %v of %v", seen, model)
				}
			case 10:
				note("RangeErr()")
				n := 0
				err := m.RangeErr(func(k K, v V) error {
					n++
					if w, ok := model[k]; !ok || !same(v, w) {
						s.fail(name+":rangeerr", "visits %v=%#v, want %v", k, v, model)
					}
					m.Delete(k)
					delete(model, k)
					if n == 2 {
						return errStop
					}
					return nil
				})
				if (err == errStop) != (n == 2) || (err != nil) != (n == 2) || (n < 2 && len(model) > 0) {
					s.fail(name+":rangeerr-end", "error %v after %d, left %v", err, n, model)
				}
			}
		}
		return nil
	})
	if p != nil {
		s.fail(name+":panic", "%v", p)
	}
	w.Nt++
	w.Out(fmt.Sprint(len(model), " entries"))
}

func runSet[T ordered](k *vk.Check, w *vk.Worker, name string, elems []T, depth int, i int64) {
	s := &sq{k: k, w: w, hist: []string{name}}
	var m lists.Set[T]
	model := map[T]bool{}
	p := vk.Catch(func() error {
		for d := 0; d < depth && !s.bad; d++ {
			o := int(i % int64(4*len(elems)))
			i /= int64(4 * len(elems))
			e := elems[o/4]
			had := model[e]
			s.w.Ev++
			switch o % 4 {
			case 0:
				s.hist = append(s.hist, fmt.Sprintf("Add(%v)", e))
				if m.Add(e) == had {
					s.fail(name+":add", "says %v", !had)
				}
				model[e] = true
			case 1:
				s.hist = append(s.hist, fmt.Sprintf("Has(%v)", e))
				if m.Has(e) != had {
					s.fail(name+":has", "says %v", !had)
				}
			case 2:
				s.hist = append(s.hist, fmt.Sprintf("Remove(%v)", e))
				if m.Remove(e) != had {
					s.fail(name+":remove", "says %v", !had)
				}
				delete(model, e)
			case 3:
				s.hist = append(s.hist, "All()")
				all := m.All()
				seen := map[T]bool{}
				for _, e := range all {
					seen[e] = true
				}
				if len(all) != len(seen) || !same(seen, model) {
					s.fail(name+":all", "%v, want %v", all, model)
				}
			}
		}
		return nil
	})
	if p != nil {
		s.fail(name+":panic", "%v", p)
	}
	w.Nt++
}

func pow(a, b int) int64 {
	r := int64(1)
	for ; b > 0; b-- {
		r *= int64(a)
	}
	return r
}

func maps[K comparable, V any](k *vk.Check, name string, keys []K, vals []V, depth int) {
	k.Par(pow(11*len(keys)*len(vals), depth), func(w *vk.Worker, i int64) { runMap(k, w, name, keys, vals, depth, i) })
}

func sets[T ordered](k *vk.Check, name string, elems []T, depth int) {
	k.Par(pow(4*len(elems), depth), func(w *vk.Worker, i int64) { runSet(k, w, name, elems, depth, i) })
}

type ordered interface {
	int | string | float64
}

type st struct {
	A int
	B string
}
type ifc interface{ Foo() }
type imp struct{ n int }

func (imp) Foo()          {}
func (*st) Foo()          {}
func (st) String() string { return "st" }

// ---- encoding

func roundTrip[K comparable, V any](k *vk.Check, name string, keys []K, vals []V) {
	n := len(vals) + 1
	k.Par(pow(n, len(keys)), func(w *vk.Worker, i int64) {
		var m sync.Map[K, V]
		want := map[K]V{}
		for _, key := range keys {
			if v := int(i % int64(n)); v > 0 {
				m.Store(key, vals[v-1])
				want[key] = vals[v-1]
			}
			i /= int64(n)
		}
		w.Ev++
		var back sync.Map[K, V]
		var plain map[K]V
		if p := vk.Catch(func() error {
			node, err := enc.Marshal(c, &m)
			if err != nil {
				return err
			}
			if err := enc.Unmarshal(c, node, &back); err != nil {
				return err
			}
			if err := enc.Unmarshal(c, node, &plain); err != nil {
				return err
			}
			j := enc.JSON{}.Encode(c, node)
			node2, err := enc.JSON{}.Decode(c, j)
			if err != nil {
				return err
			}
			var again sync.Map[K, V]
			if err := enc.Unmarshal(c, node2, &again); err != nil {
				return err
			}
			if !same(again.Map(), want) {
				k.Violate(name+":json", fmt.Sprintf("%v comes back from %s as %v", want, j, again.Map()), fmt.Sprint(want))
			}
			return nil
		}); p != nil {
			k.Violate(name+":encode", fmt.Sprintf("%v: %v", want, p), fmt.Sprint(want))
			return
		}
		if !same(back.Map(), want) || (len(want) > 0 && !same(plain, want)) {
			k.Violate(name+":roundtrip", fmt.Sprintf("%v comes back as %v, as a plain map %v", want, back.Map(), plain), fmt.Sprint(want))
		}
		w.Nt++
	})
}

func sequential(k *vk.Check) {
	d := k.Pick(3, 4)
	one := 1
	maps(k, "Map[int,int]", []int{0, 1}, []int{0, 7}, d)
	maps(k, "Map[string,any]", []string{"", "a", "b"}, []any{nil, 1, (*int)(nil)}, 3)
	maps(k, "Map[any,any]", []any{nil, 1, "1"}, []any{nil, 0}, 3)
	maps(k, "Map[string,error]", []string{"a", "b"}, []error{nil, errStop}, d)
	maps(k, "Map[string,*int]", []string{"a", "b"}, []*int{nil, &one}, d)
	maps(k, "Map[st,st]", []st{{}, {1, "x"}}, []st{{}, {1, "x"}}, d)
	maps(k, "Map[ifc,ifc]", []ifc{nil, imp{1}}, []ifc{nil, (*st)(nil)}, d)
	maps(k, "Map[error,[]int]", []error{nil, errStop}, [][]int{nil, {1}}, d)
	maps(k, "Map[bool,func]", []bool{false, true}, []func(){nil}, d)
	maps(k, "Map[string,bool]", []string{"a"}, []bool{false, true}, d+1)
	sets(k, "Set[int]", []int{0, 1, 2}, d+2)
	sets(k, "Set[string]", []string{"", "a", "b"}, d+2)
	sets(k, "Set[float64]", []float64{0, 0.5, -1}, d+2)
	roundTrip(k, "Map[string,int]", []string{"", "a", "b", "é\"\\"}, []int{0, -1, 1 << 50})
	roundTrip(k, "Map[string,string]", []string{"a", "b", "0"}, []string{"", "x", "\n"})
	roundTrip(k, "Map[string,any]", []string{"a", "b", "c"}, []any{nil, "x", true})
	roundTrip(k, "Map[string,*int]", []string{"a", "b"}, []*int{nil, &one})
	roundTrip(k, "Map[string,st]", []string{"a", "b"}, []st{{}, {1, "x"}})
	roundTrip(k, "Map[string,[]int]", []string{"a", "b"}, [][]int{{}, {1, 2}})
	roundTrip(k, "Map[int,bool]", []int{0, 1, -5}, []bool{false, true})
	roundTrip(k, "Map[string,map]", []string{"a", "b"}, []map[string]int{{}, {"x": 1}})
	big(k)
	k.Set("sequence_length", d)
}

// ---- schedules: a map of strings to int pointers or any; the state of one key is "" (absent) or its value

type mapOps interface {
	Load(k string) (any, bool)
	Store(k string, v any)
}

type rec struct {
	key       string
	call, ret int
	name      string
	apply     func(s string) (string, bool)
}

type logbook struct {
	b  lin.Book
	ex []func(x *mcrt.X, check func(key string, extra ...*lin.Op) bool)
}

func show(v any) string {
	if v == nil {
		return "nil"
	}
	return fmt.Sprint(v)
}

type world struct {
	x *mcrt.X
	m sync.Map[string, any]
	s lists.Set[string]
	b lin.Book
}

func (w *world) op(key string, call int, name string, apply func(s string) (string, bool)) {
	w.b.Add(&rec{key, call, w.b.Tick(), key + ": " + name, apply})
}

var keys = []string{"a", "b"}

func (w *world) do(o int, key string, val any) {
	call := w.b.Tick()
	v := show(val)
	at := func(want string, ok bool) func(s string) (string, bool) {
		return func(s string) (string, bool) {
			if !ok {
				return s, s == ""
			}
			return s, s == want
		}
	}
	visit := func(name string, got map[string]any) {
		for _, k := range keys {
			g, ok := got[k]
			w.op(k, call, name+" "+show(g), at(show(g), ok))
		}
	}
	switch o {
	case 0:
		w.m.Store(key, val)
		w.op(key, call, "store "+v, func(string) (string, bool) { return v, true })
	case 1:
		g, ok := w.m.Load(key)
		w.op(key, call, fmt.Sprintf("load %v %v", g, ok), at(show(g), ok))
	case 2:
		g, loaded := w.m.LoadOrStore(key, val)
		w.op(key, call, fmt.Sprintf("loadorstore %s: %v %v", v, g, loaded), func(s string) (string, bool) {
			if s == "" {
				return v, !loaded && show(g) == v
			}
			return s, loaded && show(g) == s
		})
	case 3:
		w.m.Delete(key)
		w.op(key, call, "delete", func(string) (string, bool) { return "", true })
	case 4:
		g, ok := w.m.LoadAndDelete(key)
		w.op(key, call, fmt.Sprintf("loadanddelete %v %v", g, ok), func(s string) (string, bool) {
			if s == "" {
				return "", !ok
			}
			return "", ok && show(g) == s
		})
	case 5:
		g := w.m.GetOrStore(key, val)
		w.op(key, call, fmt.Sprintf("getorstore %s: %v", v, g), func(s string) (string, bool) {
			if s == "" {
				return v, show(g) == v
			}
			return s, show(g) == s
		})
	case 6:
		got := map[string]any{}
		w.m.Range(func(k string, v any) bool {
			if _, ok := got[k]; ok {
				w.x.Failf("twice", "Range visits %q twice", k)
			}
			got[k] = v
			return true
		})
		visit("range", got)
	case 7:
		visit("map", w.m.Map())
	case 8:
		if w.m.IsEmpty() {
			visit("isempty", nil)
		}
	case 9:
		g := w.m.Get(key)
		w.op(key, call, "get "+show(g), func(s string) (string, bool) { return s, s == show(g) || (s == "" && g == nil) })
	case 10:
		n, err := enc.Marshal(c, &w.m)
		if err != nil {
			w.x.Failf("marshal", "%v", err)
			return
		}
		got := map[string]any{}
		for k, v := range n.(enc.Map) {
			switch v := v.(type) {
			case enc.Integer:
				got[k] = int(v)
			case enc.Nil:
				got[k] = nil
			}
		}
		visit("marshal", got)
	}
}

func (w *world) doSet(o int, key string) {
	call := w.b.Tick()
	switch o {
	case 0:
		ok := w.s.Add(key)
		w.op(key, call, fmt.Sprint("add ", ok), func(s string) (string, bool) { return "in", ok == (s == "") })
	case 1:
		ok := w.s.Has(key)
		w.op(key, call, fmt.Sprint("has ", ok), func(s string) (string, bool) { return s, ok == (s != "") })
	case 2:
		ok := w.s.Remove(key)
		w.op(key, call, fmt.Sprint("remove ", ok), func(s string) (string, bool) { return "", ok == (s != "") })
	case 3:
		in := map[string]bool{}
		for _, k := range w.s.All() {
			if in[k] {
				w.x.Failf("twice", "All lists %q twice", k)
			}
			in[k] = true
		}
		for _, k := range keys {
			k := k
			w.op(k, call, fmt.Sprint("all ", in[k]), func(s string) (string, bool) { return s, in[k] == (s != "") })
		}
	}
}

func (w *world) judge(init map[string]string) {
	for _, k := range keys {
		h := &lin.Hist{}
		for _, v := range w.b.All() {
			if r := v.(*rec); r.key == k {
				h.Ops = append(h.Ops, &lin.Op{Name: r.name, Call: r.call, Ret: r.ret, Apply: r.apply})
			}
		}
		if !h.Check(init[k], nil) {
			w.x.Failf("not-linearizable", "from %q: %s", init[k], h)
		}
	}
}

func concurrent(name string, set bool, progs []int, ops [][]int, quick, bound int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, QuickBound: quick, MaxBound: bound, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		w := &world{x: x}
		init := map[string]string{}
		if mcrt.Choose(2) == 1 {
			if set {
				w.s.Add("a")
				init["a"] = "in"
			} else {
				w.m.Store("a", nil)
				init["a"] = "nil"
			}
		}
		type step struct {
			o   int
			key string
			val any
		}
		plans := make([][]step, len(progs))
		id := 0
		for t, n := range progs {
			for i := 0; i < n; i++ {
				id++
				s := step{o: ops[t][mcrt.Choose(len(ops[t]))], key: "a", val: id}
				if t == 1 && i == 0 {
					s.key = keys[mcrt.Choose(2)]
					if s.o == 0 || s.o == 2 {
						s.val = nil
					}
				}
				plans[t] = append(plans[t], s)
			}
		}
		var wg gosync.WaitGroup
		for t := range progs {
			t := t
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, s := range plans[t] {
					if set {
						w.doSet(s.o, s.key)
					} else {
						w.do(s.o, s.key, s.val)
					}
				}
			}()
		}
		wg.Wait()
		if set {
			w.doSet(3, "")
		} else {
			w.do(6, "", nil)
		}
		w.judge(init)
		var l []string
		for k := range w.m.Map() {
			l = append(l, k)
		}
		sort.Strings(l)
		x.Outf("%v", l)
		return nil
	}}
}

func scenarios() []*mcrt.Scenario {
	all := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
	wr := []int{0, 2, 3, 4}
	out := []*mcrt.Scenario{
		concurrent("map, two callers", false, []int{1, 1}, [][]int{all, all}, 4, 8),
		concurrent("map, two writes against any", false, []int{2, 1}, [][]int{wr, all}, 3, 6),
		concurrent("map, three callers", false, []int{1, 1, 1}, [][]int{wr, []int{0, 2, 3, 6}, all}, 2, 4),
		concurrent("set, three callers", true, []int{1, 1, 1}, [][]int{{0, 1, 2, 3}, {0, 1, 2, 3}, {0, 1, 2, 3}}, 3, 8),
		concurrent("set, two each", true, []int{2, 2}, [][]int{{0, 1, 2, 3}, {0, 1, 2, 3}}, 3, 6),
	}
	if mc.Thorough() {
		out = append(out, concurrent("map, two each", false, []int{2, 2}, [][]int{all, all}, 2, 4),
			concurrent("map, three any", false, []int{1, 1, 1}, [][]int{all, all, all}, 2, 4),
			concurrent("set, three, two each", true, []int{2, 2, 2}, [][]int{{0, 1, 2, 3}, {0, 2}, {0, 2, 3}}, 2, 3))
	}
	return out
}

func main() {
	mc.Main("C16", mc.Options{
		QuickBound: 4, ThoroughBound: 8,
		Rule:   "every sequence of map operations for ten type combinations and of set operations for four, up to the length given; every small map through encoding and back; maps and sets of up to 65 (130) entries changed at each one; every schedule of two or three callers up to the preemption bound, linearizable key by key (a range reads each key once during its run)",
		Assume: []string{"sync.Map of the standard library is linearizable key by key and its Range reads every key once (it is modelled so)"},
		Before: sequential,
	}, scenarios)
}
