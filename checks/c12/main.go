// C12: every operation sequence against a plain map, every filter on every value, every schedule for linearizability.
package main

import (
	"errors"
	"fmt"
	"log/slog"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/storage"

	"verif.local/mc/lib/mc"
	"verif.local/mc/lib/vk"
	"verif.local/mc/mcrt"
	"verif.local/mc/mcrt/lin"
)

func quiet() ctx.C {
	return log.WithLogFunc(ctx.TODO(), func(ctx.C, slog.Level, string, string, ...any) {})
}

// val makes a fresh value; n distinguishes it, t is its type field. Every kind of container is found in every kind.
func val(n int, t string) enc.Map {
	i := enc.Integer(n)
	m := enc.Map{"num": i,
		"deep":  enc.Map{"x": i, "y": enc.List{i, enc.Map{"z": i}, enc.List{i}, enc.Pairs{{Name: "q", JSON: "q", Value: i}}}, "m": enc.Map{"z": i}, "p": enc.Pairs{{Name: "q", JSON: "q", Value: i}}},
		"pairs": enc.Pairs{{Name: "p", JSON: "p", Value: i}, {Name: "m", JSON: "m", Value: enc.Map{"z": i}}, {Name: "l", JSON: "l", Value: enc.List{i}}, {Name: "pp", JSON: "pp", Value: enc.Pairs{{Name: "q", JSON: "q", Value: i}}}}}
	if t != "" {
		m["t"] = enc.String(t)
	}
	return m
}

// poison changes everything that can be changed in a value.
func poison(m enc.Map) {
	if m == nil {
		return
	}
	var spoil func(n enc.Node)
	spoil = func(n enc.Node) {
		switch n := n.(type) {
		case enc.Map:
			for k, v := range n {
				spoil(v)
				n[k] = enc.Integer(666)
			}
			n["poison"] = enc.Bool(true)
		case enc.List:
			for i, v := range n {
				spoil(v)
				n[i] = enc.Integer(666)
			}
		case enc.Pairs:
			for i, v := range n {
				spoil(v.Value)
				n[i] = enc.Pair{Name: "poison", JSON: "poison", Value: enc.Integer(666)}
			}
		}
	}
	spoil(m)
	delete(m, "t")
}

// show is the canonical text of a value.
func show(n enc.Node) string {
	switch n := n.(type) {
	case nil:
		return "null"
	case enc.Nil:
		return "null"
	case enc.Map:
		ks := []string{}
		for k, v := range n {
			ks = append(ks, fmt.Sprintf("%q:%s", k, show(v)))
		}
		sort.Strings(ks)
		return "{" + strings.Join(ks, ",") + "}"
	case enc.Pairs:
		ks := []string{}
		for _, p := range n {
			ks = append(ks, fmt.Sprintf("%q:%s", p.JSON, show(p.Value)))
		}
		return "pairs{" + strings.Join(ks, ",") + "}"
	case enc.List:
		ks := []string{}
		for _, v := range n {
			ks = append(ks, show(v))
		}
		return "[" + strings.Join(ks, ",") + "]"
	case enc.Time:
		return "time " + time.Time(n).UTC().Format(time.RFC3339Nano)
	default:
		return fmt.Sprintf("%T(%v)", n, n)
	}
}

// ---- every sequence

type entry struct {
	n int
	t string
}

type op struct {
	name string
	run  func(s *seq)
}

type seq struct {
	k     *vk.Check
	kv    storage.KeyValue
	model map[string]entry
	hist  []string
	bad   bool
	c     ctx.C
	n     int
}

func (s *seq) fail(key, f string, a ...any) {
	s.bad = true
	s.k.Violate(key, strings.Join(s.hist, "; ")+": "+fmt.Sprintf(f, a...), map[string]any{"history": s.hist})
}

func (s *seq) get(key string) {
	v, err := s.kv.Get(s.c, key)
	e, ok := s.model[key]
	switch {
	case err != nil:
		s.fail("get-error", "Get(%q) fails: %v", key, err)
	case ok != (v != nil):
		s.fail("get-presence", "Get(%q)=%v, present: %v", key, v, ok)
	case ok && show(v) != show(val(e.n, e.t)):
		s.fail("get-value", "Get(%q)=%s, want %s", key, show(v), show(val(e.n, e.t)))
	}
	poison(v)
}

var errStop = errors.New("stop")

// rng ranges with filters; after visits, the callback returns stop (nil: goes on); every visit runs during.
func (s *seq) rng(match func(e entry) bool, after int, stop error, during func(), filters ...storage.Filter) {
	want := map[string]entry{}
	for k, e := range s.model {
		if match(e) {
			want[k] = e
		}
	}
	seen := map[string]bool{}
	err := s.kv.Range(s.c, func(c ctx.C, key string, v enc.Map) error {
		e, ok := want[key]
		if !ok || seen[key] {
			s.fail("range-visit", "Range visits %q (seen %v), want %v", key, seen, want)
		} else if show(v) != show(val(e.n, e.t)) {
			s.fail("range-value", "Range gives %s for %q, want %s", show(v), key, show(val(e.n, e.t)))
		}
		seen[key] = true
		poison(v)
		if during != nil {
			during()
		}
		if len(seen) == after {
			return stop
		}
		return nil
	}, filters...)
	stopped := stop != nil && len(want) >= after
	switch {
	case stopped && len(seen) != after:
		s.fail("range-stop", "Range visits %d entries after %v was returned for number %d", len(seen), stop, after)
	case stopped && stop != storage.EOD && !errors.Is(err, stop):
		s.fail("range-error", "Range returns %v, the callback failed with %v", err, stop)
	case (!stopped || stop == storage.EOD) && err != nil:
		s.fail("range-fails", "Range fails: %v", err)
	case !stopped && len(seen) != len(want):
		s.fail("range-misses", "Range visits %v, want %v", seen, want)
	}
}

func anyE(entry) bool { return true }

func ops() []op {
	var out []op
	add := func(name string, f func(s *seq)) { out = append(out, op{name, f}) }
	for _, key := range []string{"a", "b", ""} {
		key := key
		add(fmt.Sprintf("get %q", key), func(s *seq) { s.get(key) })
		add(fmt.Sprintf("delete %q", key), func(s *seq) {
			if err := s.kv.Delete(s.c, key); err != nil {
				s.fail("delete", "Delete fails: %v", err)
			}
			delete(s.model, key)
		})
		for _, t := range []string{"", "x", "y"} {
			if key == "" && t == "y" {
				continue
			}
			t := t
			add(fmt.Sprintf("upsert %q t=%q", key, t), func(s *seq) {
				s.n++
				m := val(s.n, t)
				if err := s.kv.Upsert(s.c, key, m); err != nil {
					s.fail("upsert", "Upsert fails: %v", err)
				}
				s.model[key] = entry{s.n, t}
				poison(m)
			})
		}
	}
	fx := storage.Filter{Field: "t", Cmp: storage.Equal, Val: enc.String("x")}
	fnx := storage.Filter{Field: "t", Cmp: storage.NotEqual, Val: enc.String("x")}
	fnil := storage.Filter{Field: "t", Cmp: storage.Equal, Val: enc.Nil{}}
	fn1 := storage.Filter{Field: "num", Cmp: storage.NotEqual, Val: enc.Integer(1)}
	add("range all", func(s *seq) { s.rng(anyE, 0, nil, nil) })
	add("range t=x", func(s *seq) { s.rng(func(e entry) bool { return e.t == "x" }, 0, nil, nil, fx) })
	add("range t!=x, num!=1", func(s *seq) { s.rng(func(e entry) bool { return e.t != "x" && e.n != 1 }, 0, nil, nil, fnx, fn1) })
	add("range t=nil", func(s *seq) { s.rng(func(e entry) bool { return e.t == "" }, 0, nil, nil, fnil) })
	add("range EOD at 2", func(s *seq) { s.rng(anyE, 2, storage.EOD, nil) })
	add("range error at 1", func(s *seq) { s.rng(anyE, 1, errStop, nil) })
	add("range and delete all inside", func(s *seq) {
		s.rng(anyE, 0, nil, func() {
			for _, k := range []string{"a", "b", ""} {
				s.kv.Delete(s.c, k)
				delete(s.model, k)
			}
		})
	})
	add("range and upsert inside", func(s *seq) {
		s.rng(anyE, 0, nil, func() {
			s.n++
			s.kv.Upsert(s.c, "b", val(s.n, "y"))
			s.model["b"] = entry{s.n, "y"}
			s.get("a")
		})
	})
	add("range unsupported", func(s *seq) {
		calls := 0
		err := s.kv.Range(s.c, func(ctx.C, string, enc.Map) error { calls++; return nil }, storage.Filter{Field: "num", Cmp: storage.Greater, Val: enc.Integer(0)})
		if calls > 0 || (err == nil) != (len(s.model) == 0) {
			if err == nil && calls == len(s.model) { // every number is above 0: fine if it is supported one day
				return
			}
			s.fail("unsupported", "an unsupported comparison visits %d of %d, error %v", calls, len(s.model), err)
		}
	})
	return out
}

func sequences(k *vk.Check) {
	all := ops()
	depth := k.Pick(4, 5)
	total := int64(1)
	for i := 0; i < depth; i++ {
		total *= int64(len(all))
	}
	k.Par(total, func(w *vk.Worker, i int64) {
		s := &seq{k: k, kv: storage.NewMemKeyValue(), model: map[string]entry{}, c: quiet()}
		what := ""
		for d, j := 0, i; d < depth; d++ {
			what += all[j%int64(len(all))].name + "; "
			j /= int64(len(all))
		}
		w.Note(what)
		for d := 0; d < depth && !s.bad; d++ {
			o := all[i%int64(len(all))]
			i /= int64(len(all))
			s.hist = append(s.hist, o.name)
			if p := vk.Catch(func() error { o.run(s); return nil }); p != nil {
				s.fail("panic", "%v", p)
			}
			w.Ev++
		}
		if !s.bad {
			s.hist = append(s.hist, "check")
			for _, key := range []string{"a", "b", ""} {
				s.get(key)
			}
			s.rng(anyE, 0, nil, nil)
		}
		w.Nt += int64(len(s.model))
		w.Out(fmt.Sprint(len(s.model), " entries"))
	})
	k.Set("operations", len(all))
	k.Set("sequence_length", depth)
}

// ---- every filter

func nodes() []enc.Node {
	t := time.Date(2024, 1, 2, 3, 4, 5, 6, time.UTC)
	return []enc.Node{
		nil, enc.Nil{}, enc.String(""), enc.String("a"), enc.String("b"), enc.String("1"), enc.String("true"), enc.String("null"),
		enc.Integer(0), enc.Integer(1), enc.Integer(-1), enc.Float(1.5), enc.Bool(true), enc.Bool(false),
		enc.Time(t), enc.Time(t.Add(1)), enc.Duration(time.Second),
		enc.List{}, enc.List{enc.Integer(1)}, enc.List{enc.Integer(1), enc.Integer(2)}, enc.List{enc.Integer(2), enc.Integer(1)}, enc.List{enc.String("a")}, enc.List{enc.String("1")}, enc.List{enc.List{}},
		enc.List{enc.String("a, b")}, enc.List{enc.String("a"), enc.String("b")},
		enc.Map{}, enc.Map{"a": enc.Integer(1)}, enc.Map{"a": enc.Integer(2)}, enc.Map{"b": enc.Integer(1)}, enc.Map{"a": enc.Integer(1), "b": enc.Integer(2)}, enc.Map{"a": enc.Integer(2), "b": enc.Integer(1)},
		enc.Map{"a": enc.Map{"x": enc.Integer(1), "y": enc.Integer(2), "z": enc.Nil{}}}, enc.Map{"a": enc.List{enc.Map{"x": enc.Integer(1), "y": enc.Integer(2)}}},
		enc.Map{"a": enc.String("1")}, enc.Map{"a": enc.Nil{}}, enc.String(`{"a":1}`), enc.String("enc.Nil{}"),
	}
}

func filters(k *vk.Check) {
	vals, lits := nodes(), nodes()
	fields := []string{"f", "other"}
	cmps := []storage.Cmp{storage.Equal, storage.NotEqual, storage.Greater, storage.Lesser, storage.GreaterEq, storage.LesserEq, "", "eq"}
	type flt struct {
		f  storage.Filter
		ok func(v enc.Node) bool // nil: unsupported
	}
	var fs []flt
	for _, fd := range fields {
		for _, cmp := range cmps {
			for _, l := range lits {
				l, fd := l, fd
				x := flt{f: storage.Filter{Field: fd, Cmp: cmp, Val: l}}
				eq := func(v enc.Node) bool {
					if fd == "other" {
						v = nil
					}
					return show(v) == show(l)
				}
				switch cmp {
				case storage.Equal:
					x.ok = eq
				case storage.NotEqual:
					x.ok = func(v enc.Node) bool { return !eq(v) }
				}
				fs = append(fs, x)
			}
		}
	}
	try := func(w *vk.Worker, v enc.Node, list ...flt) {
		c := quiet()
		kv := storage.NewMemKeyValue()
		m := enc.Map{"f": v}
		if v == nil {
			delete(m, "f")
		}
		_ = kv.Upsert(c, "k", m)
		want, unsupported := true, false
		var sf []storage.Filter
		for _, f := range list {
			sf = append(sf, f.f)
			if f.ok == nil {
				unsupported = true
			} else if !f.ok(v) {
				want = false
			}
		}
		what := fmt.Sprintf("an entry with f=%s under %+v", show(v), sf)
		visited := 0
		var err error
		p := vk.Catch(func() error {
			err = kv.Range(c, func(ctx.C, string, enc.Map) error { visited++; return nil }, sf...)
			return nil
		})
		w.Ev++
		w.Nt++
		switch {
		case p != nil:
			k.Violate("filter-panic", what+": "+p.Error(), what)
		case unsupported:
			w.Out("unsupported")
			// an operator that is not supported must not let an entry through that another filter excludes, nor be ignored
			if visited > 0 && (!want || err != nil) {
				k.Violate("filter-unsupported", what+": visited", what)
			} else if len(list) == 1 && err == nil {
				k.Violate("filter-ignored", what+": no error", what)
			}
		case err != nil:
			k.Violate("filter-error", fmt.Sprintf("%s: %v", what, err), what)
		case (visited == 1) != want:
			k.Violate("filter-match", fmt.Sprintf("%s: visited %d times, should match: %v", what, visited, want), what)
		default:
			w.Out(fmt.Sprint("match ", want))
		}
	}
	k.Par(int64(len(vals)*len(fs)), func(w *vk.Worker, i int64) {
		v, f := vals[i%int64(len(vals))], fs[i/int64(len(vals))]
		for rep := 0; rep < 8; rep++ { // the order of a map is drawn anew each time
			try(w, v, f)
		}
	})
	// pairs of filters, over a part of the values
	var few []flt
	for _, f := range fs {
		switch f.f.Val.(type) {
		case nil, enc.Integer, enc.String:
			if f.f.Cmp != "" && f.f.Cmp != "eq" {
				few = append(few, f)
			}
		}
	}
	if !k.Thorough() {
		few = few[:len(few)/2+8]
	}
	n := int64(len(few))
	k.Par(n*n, func(w *vk.Worker, i int64) {
		for _, v := range vals[:14] {
			try(w, v, few[i/n], few[i%n])
		}
	})
	k.Set("filters", len(fs))
}

// ---- every schedule

// state of the sequential specification: "a=1 b=2"
func parse(s string) map[string]int {
	m := map[string]int{}
	for _, f := range strings.Fields(s) {
		k, v, _ := strings.Cut(f, "=")
		var n int
		fmt.Sscan(v, &n)
		m[k] = n
	}
	return m
}

func format(m map[string]int) string {
	var l []string
	for k, n := range m {
		l = append(l, fmt.Sprintf("%s=%d", k, n))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func num(x *mcrt.X, m enc.Map) int {
	if m == nil {
		return 0
	}
	n := int(m["num"].(enc.Integer))
	if show(m) != show(val(n, "")) {
		x.Failf("torn", "a value of mixed parts: %s", show(m))
	}
	return n
}

const nOps = 8

func do(x *mcrt.X, h *lin.Hist, c ctx.C, kv storage.KeyValue, o, id int) {
	ret := h.Begin()
	switch o {
	case 0, 1: // get
		key := string("ab"[o])
		v, err := kv.Get(c, key)
		n := num(x, v)
		poison(v)
		if err != nil {
			x.Failf("get", "Get fails: %v", err)
		}
		ret(fmt.Sprintf("get %s=%d", key, n), func(s string) (string, bool) { return s, parse(s)[key] == n })
	case 2, 3: // upsert
		key := string("ab"[o-2])
		m := val(id, "")
		err := kv.Upsert(c, key, m)
		if err != nil {
			x.Failf("upsert", "Upsert fails: %v", err)
		}
		poison(m)
		ret(fmt.Sprintf("set %s=%d", key, id), func(s string) (string, bool) { m := parse(s); m[key] = id; return format(m), true })
	case 4: // delete
		err := kv.Delete(c, "a")
		if err != nil {
			x.Failf("delete", "Delete fails: %v", err)
		}
		ret("delete a", func(s string) (string, bool) { m := parse(s); delete(m, "a"); return format(m), true })
	case 5, 6: // range: sees one state whatever happens meanwhile
		got := map[string]int{}
		var fs []storage.Filter
		if o == 6 {
			fs = append(fs, storage.Filter{Field: "num", Cmp: storage.NotEqual, Val: enc.Integer(1)})
		}
		err := kv.Range(c, func(c ctx.C, key string, v enc.Map) error {
			if _, ok := got[key]; ok {
				x.Failf("twice", "Range visits %q twice", key)
			}
			got[key] = num(x, v)
			mcrt.Point(mcrt.OpUser, nil)
			poison(v)
			return nil
		}, fs...)
		if err != nil {
			x.Failf("range", "Range fails: %v", err)
		}
		seen := format(got)
		ret("range "+seen, func(s string) (string, bool) {
			m := parse(s)
			if o == 6 {
				for k, v := range m {
					if v == 1 {
						delete(m, k)
					}
				}
			}
			return s, format(m) == seen
		})
	case 7: // a range that is aborted and that writes from inside
		err := kv.Range(c, func(c ctx.C, key string, v enc.Map) error { poison(v); return errStop })
		if err != nil && !errors.Is(err, errStop) {
			x.Failf("range-abort", "Range gives %v", err)
		}
		ret(fmt.Sprintf("abort %v", err), func(s string) (string, bool) { return s, (err != nil) == (len(parse(s)) > 0) })
	}
}

func concurrent(name string, progs []int, first [][]int, quick, bound int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, QuickBound: quick, MaxBound: bound, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		c := quiet()
		kv := storage.NewMemKeyValue()
		h := &lin.Hist{}
		init := ""
		if mcrt.Choose(2) == 1 {
			_ = kv.Upsert(c, "a", val(1, ""))
			_ = kv.Upsert(c, "b", val(2, ""))
			init = "a=1 b=2"
		}
		plan := make([][]int, len(progs))
		for t, n := range progs {
			for i := 0; i < n; i++ {
				set := first[t]
				plan[t] = append(plan[t], set[mcrt.Choose(len(set))])
			}
		}
		var wg sync.WaitGroup
		id := 2
		for t := range progs {
			t, base := t, id
			id += progs[t]
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i, o := range plan[t] {
					do(x, h, c, kv, o, base+i+1)
				}
			}()
		}
		wg.Wait()
		do(x, h, c, kv, 5, 0)
		if !h.Check(init, nil) {
			x.Failf("not-linearizable", "from {%s}: %s", init, h)
		}
		x.Outf("%s", h.Ops[len(h.Ops)-1].Name)
		return nil
	}}
}

func scenarios() []*mcrt.Scenario {
	all := []int{0, 1, 2, 3, 4, 5, 6, 7}
	w := []int{2, 3, 4}
	r := []int{5, 6, 7}
	out := []*mcrt.Scenario{
		concurrent("two callers, any two operations", []int{1, 1}, [][]int{all, all}, 4, 12),
		concurrent("writers against a range", []int{2, 1}, [][]int{w, r}, 3, 6),
		concurrent("three callers", []int{1, 1, 1}, [][]int{all, w, []int{0, 5}}, 2, 3),
	}
	if mc.Thorough() {
		out = append(out, concurrent("two callers, two each", []int{2, 2}, [][]int{all, all}, 2, 3),
			concurrent("three callers, any", []int{1, 1, 1}, [][]int{all, all, all}, 2, 4),
			concurrent("four callers", []int{1, 1, 1, 1}, [][]int{w, w, []int{0, 5}, []int{0, 5}}, 1, 2))
	}
	return out
}

func main() {
	mc.Main("C12", mc.Options{
		QuickBound: 6, ThoroughBound: 12,
		Rule:   "every sequence of 23 operations up to the length given against a plain map; every filter on every value of 39 kinds and pairs of filters; values up to 24 (64) deep and 80 (300) wide, stores of up to 64 (130) entries changed or stopped at each one; every schedule of 2 to 4 concurrent callers up to the preemption bound, each history checked for linearizability",
		Before: func(k *vk.Check) { sequences(k); filters(k); big(k) },
	}, scenarios)
}
