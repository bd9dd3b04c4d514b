package main

import (
	"errors"
	"fmt"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/storage"

	"verif.local/mc/lib/vk"
)

// nested makes a fresh value of depth containers in each other, kinds in turn, each with a scalar beside the inner one.
func nested(depth, kind int) enc.Node {
	if depth == 0 {
		return enc.Integer(5)
	}
	in := nested(depth-1, kind/3+kind%3*9)
	switch kind % 3 {
	case 0:
		return enc.Map{"in": in, "n": enc.Integer(depth)}
	case 1:
		return enc.List{enc.Integer(depth), in}
	}
	return enc.Pairs{{Name: "in", JSON: "in", Value: in}, {Name: "n", JSON: "n", Value: enc.Integer(depth)}}
}

// wide makes a fresh map of n fields, with lists and pairs of n elements in it.
func wide(n int) enc.Map {
	m := enc.Map{}
	l, p := enc.List{}, enc.Pairs{}
	for i := 0; i < n; i++ {
		m[fmt.Sprint("f", i)] = enc.Integer(i)
		l = append(l, enc.List{enc.Integer(i)})
		p = append(p, enc.Pair{Name: fmt.Sprint(i), JSON: fmt.Sprint(i), Value: enc.Map{"x": enc.Integer(i)}})
	}
	m["l"], m["p"] = l, p
	return m
}

func big(k *vk.Check) {
	c := quiet()
	// deep and wide values, kept apart from the caller's copies
	depths := k.Pick(24, 64)
	k.Par(int64(depths*27+k.Pick(80, 300)), func(w *vk.Worker, i int64) {
		fresh := func() enc.Map { return wide(int(i) - depths*27) }
		what := fmt.Sprintf("a value of %d fields", int(i)-depths*27)
		if int(i) < depths*27 {
			fresh = func() enc.Map { return enc.Map{"v": nested(int(i)/27, int(i)%27)} }
			what = fmt.Sprintf("a value %d deep, kinds %d", int(i)/27, int(i)%27)
		}
		w.Note(what)
		err := vk.Catch(func() error {
			kv := storage.NewMemKeyValue()
			in := fresh()
			if err := kv.Upsert(c, "k", in); err != nil {
				return err
			}
			poison(in)
			for n := 0; n < 2; n++ {
				got, err := kv.Get(c, "k")
				if err != nil || show(got) != show(fresh()) {
					return fmt.Errorf("Get number %d gives %s (%v), want %s", n, show(got), err, show(fresh()))
				}
				poison(got)
				seen := 0
				err = kv.Range(c, func(_ ctx.C, _ string, v enc.Map) error {
					if seen++; show(v) != show(fresh()) {
						return fmt.Errorf("Range gives %s, want %s", show(v), show(fresh()))
					}
					poison(v)
					return nil
				})
				if err != nil || seen != 1 {
					return fmt.Errorf("Range %d visits: %v", seen, err)
				}
			}
			return nil
		})
		if err != nil {
			k.Violate("big-value", what+": "+err.Error(), what)
		}
		w.Ev++
		w.Nt++
		w.Out("big value")
	})
	// many entries: each one deleted, a range stopped at each number, filters, changes from inside at each number
	sizes := []int{9, 10, 16, 17, 33, 64, 65, 130}[:k.Pick(6, 8)]
	for _, n := range sizes {
		n := n
		k.Par(int64(n*5), func(w *vk.Worker, i int64) {
			at, mode := int(i)/5, int(i)%5
			what := fmt.Sprintf("%d entries, mode %d at %d", n, mode, at)
			w.Note(what)
			fail := func(f string, a ...any) { k.Violate("big", what+": "+fmt.Sprintf(f, a...), what) }
			key := func(j int) string { return fmt.Sprint("key", j) }
			kv := storage.NewMemKeyValue()
			model := map[string]int{}
			up := func(j, v int) {
				if err := kv.Upsert(c, key(j), enc.Map{"n": enc.Integer(v), "half": enc.Bool(v%2 == 0)}); err != nil {
					fail("Upsert fails: %v", err)
				}
				model[key(j)] = v
			}
			verify := func(want func(v int) bool, fs ...storage.Filter) {
				w.Ev++
				left := map[string]int{}
				for k, v := range model {
					if want(v) {
						left[k] = v
					}
				}
				err := kv.Range(c, func(_ ctx.C, k string, v enc.Map) error {
					if e, ok := left[k]; !ok || v["n"] != enc.Integer(e) {
						fail("Range visits %q=%v twice or wrongly", k, v)
					}
					delete(left, k)
					return nil
				}, fs...)
				if err != nil || len(left) > 0 {
					fail("Range misses %v: %v", left, err)
				}
			}
			all := func(int) bool { return true }
			err := vk.Catch(func() error {
				for j := 0; j < n; j++ {
					up(j, j)
				}
				verify(all)
				verify(func(v int) bool { return v%2 == 0 }, storage.Filter{Field: "half", Cmp: storage.Equal, Val: enc.Bool(true)})
				verify(func(v int) bool { return v != at }, storage.Filter{Field: "n", Cmp: storage.NotEqual, Val: enc.Integer(at)})
				verify(func(v int) bool { return v == at }, storage.Filter{Field: "n", Cmp: storage.Equal, Val: enc.Integer(at)})
				switch mode {
				case 0: // one deleted, then those after it too
					for j := at; j < n; j++ {
						kv.Delete(c, key(j))
						delete(model, key(j))
						if j == at {
							verify(all)
						}
					}
				case 1, 2: // stopped
					stop := errStop
					if mode == 2 {
						stop = storage.EOD
					}
					num := 0
					err := kv.Range(c, func(ctx.C, string, enc.Map) error {
						if num++; num == at+1 {
							return stop
						}
						return nil
					})
					if num != at+1 || (mode == 1) != errors.Is(err, errStop) || (mode == 2) != (err == nil) {
						fail("stopped at %d: %d visits, error %v", at+1, num, err)
					}
				case 3: // changed from inside: the range still visits what was there when it began
					num, seen := 0, map[string]bool{}
					err := kv.Range(c, func(_ ctx.C, k string, v enc.Map) error {
						if num++; num == at+1 {
							for j := 0; j < n; j += 2 {
								kv.Delete(c, key(j))
								delete(model, key(j))
							}
							for j := 1; j < n+9; j += 2 {
								up(j, j+1000)
							}
						}
						var j int
						fmt.Sscanf(k, "key%d", &j)
						if seen[k] || j >= n || v["n"] != enc.Integer(j) {
							fail("Range visits %q=%v", k, v)
						}
						seen[k] = true
						return nil
					})
					if num != n || err != nil {
						fail("%d visits: %v", num, err)
					}
				case 4: // written anew
					for j := at; j < n; j++ {
						up(j, j+500)
					}
				}
				verify(all)
				for j := 0; j < n+9; j++ {
					v, err := kv.Get(c, key(j))
					e, ok := model[key(j)]
					if err != nil || (v != nil) != ok || ok && v["n"] != enc.Integer(e) {
						fail("Get(%s)=%v %v, want %v %v", key(j), v, err, e, ok)
					}
				}
				return nil
			})
			if err != nil {
				fail("%v", err)
			}
			w.Nt++
			w.Out(fmt.Sprint("big ", mode))
		})
	}
	k.Set("entries_at_most", sizes[len(sizes)-1])
}
