// C19: the list helpers on every list over a small alphabet up to a length.
package main

import (
	"fmt"
	"reflect"
	"sort"

	"github.com/Aize-Public/forego/utils/lists"
	"github.com/Aize-Public/forego/utils/maps"
	"verif.local/mc/lib/vk"
)

// guarded gives a copy of l inside a larger array, and a function that tells whether anything but l's places changed.
func guarded[T any](l []T, guard T, spare int) ([]T, func() ([]T, bool)) {
	back := make([]T, len(l)+spare+2)
	for i := range back {
		back[i] = guard
	}
	copy(back[1:], l)
	return back[1 : 1+len(l) : 1+len(l)+spare], func() ([]T, bool) {
		ok := reflect.DeepEqual(back[0], guard)
		for _, v := range back[1+len(l):] {
			ok = ok && reflect.DeepEqual(v, guard)
		}
		return back[1 : 1+len(l)], ok
	}
}

type item struct{ key, id int }

func eq(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Kind() == reflect.Slice && va.Len() == 0 && vb.Len() == 0 {
		return true
	}
	return reflect.DeepEqual(a, b)
}

func counts(l []item) map[item]int {
	m := map[item]int{}
	for _, v := range l {
		m[v]++
	}
	return m
}

// helpers runs all but Permute on one list.
func helpers(k *vk.Check, w *vk.Worker, l []int) {
	fail := func(key, f string, a ...any) {
		k.Violate(key, fmt.Sprintf("%v: ", l)+fmt.Sprintf(f, a...), fmt.Sprint(l))
	}
	n := len(l)
	for spare := 0; spare < 2; spare++ {
		// Reverse
		in, check := guarded(l, -7, spare)
		lists.Reverse(in)
		want := make([]int, n)
		for i, v := range l {
			want[n-1-i] = v
		}
		if got, ok := check(); !ok || !eq(got, want) {
			fail("reverse", "gives %v, outside untouched: %v", got, ok)
		}
		// Sort and SortFunc, on items that can be told apart
		items := make([]item, n)
		for i, v := range l {
			items[i] = item{v, i}
		}
		try := func(name string, f func([]item), less func(a, b item) bool) {
			in, check := guarded(items, item{-7, -7}, spare)
			f(in)
			got, ok := check()
			sorted := sort.SliceIsSorted(got, func(i, j int) bool { return less(got[i], got[j]) })
			if !ok || !sorted || !eq(counts(got), counts(items)) {
				fail(name, "gives %v, outside untouched: %v", got, ok)
			}
			w.Ev++
		}
		up := func(a, b item) bool { return a.key < b.key }
		down := func(a, b item) bool { return a.key > b.key }
		try("sort", func(x []item) { lists.Sort(x, up) }, up)
		try("sort-down", func(x []item) { lists.Sort(x, down) }, down)
		try("sort-both", func(x []item) {
			lists.Sort(x, func(a, b item) bool { return a.key < b.key || a.key == b.key && a.id > b.id })
		}, func(a, b item) bool { return a.key < b.key || a.key == b.key && a.id > b.id })
		try("sortfunc-int", func(x []item) { lists.SortFunc(x, func(i item) int { return i.key }) }, up)
		try("sortfunc-down", func(x []item) { lists.SortFunc(x, func(i item) float64 { return -float64(i.key) / 2 }) }, down)
		try("sortfunc-string", func(x []item) { lists.SortFunc(x, func(i item) string { return string("abc"[i.key]) }) }, up)
		// Copy
		in, check = guarded(l, -7, spare)
		out := lists.Copy(in)
		if !eq(out, l) {
			fail("copy", "gives %v", out)
		}
		for i := range out {
			out[i] = 99
		}
		_ = append(out, 98)
		if got, ok := check(); !ok || !eq(got, l) {
			fail("copy-shares", "the copy shares the original's elements: %v", got)
		}
		// AddUnique and Contains
		for v := -1; v < 4; v++ {
			in, check := guarded(l, -7, spare)
			has := false
			for _, e := range l {
				has = has || e == v
			}
			if lists.Contains(in, v) != has {
				fail("contains", "%d: %v", v, !has)
			}
			want := append([]int{}, l...)
			if !has {
				want = append(want, v)
			}
			if got := lists.AddUnique(in, v); !eq(got, want) {
				fail("addunique", "%d: %v", v, got)
			}
			if got, _ := check(); !eq(got, l) {
				fail("addunique-input", "%d: the input is %v", v, got)
			}
			w.Ev++
		}
		// Split into chunks, and Flatten back
		for max := 1; max <= n+2; max++ {
			in, check := guarded(l, -7, spare)
			chunks := lists.Split(in, max)
			need := (n + max - 1) / max
			if need == 0 {
				need = 1
			}
			var cat []int
			sizes := map[int]bool{}
			for _, c := range chunks {
				cat = append(cat, c...)
				sizes[len(c)] = true
				if len(c) > max || (len(c) == 0 && n > 0) {
					fail("split", "by %d: %v", max, chunks)
				}
			}
			if len(chunks) != need || !eq(cat, l) {
				fail("split", "by %d: %v", max, chunks)
			}
			flat := lists.Flatten(chunks)
			if !eq(flat, l) {
				fail("flatten", "of %v gives %v", chunks, flat)
			}
			for i := range flat {
				flat[i] = 99
			}
			_ = append(flat, 97)
			if got, ok := check(); !ok || !eq(got, l) {
				fail("split-input", "by %d: the input is %v, outside untouched: %v", max, got, ok)
			}
			w.Ev++
		}
	}
	// Flatten of every way to cut the list, empty parts included
	for cut := 0; cut < 1<<n; cut++ {
		var parts [][]int
		cur := []int{}
		for i, v := range l {
			cur = append(cur, v)
			if cut&(1<<i) != 0 {
				parts = append(parts, cur, nil)
				cur = nil
			}
		}
		parts = append(parts, cur)
		before := fmt.Sprint(parts)
		got := lists.Flatten(parts)
		if !eq(got, l) || fmt.Sprint(parts) != before {
			fail("flatten", "of %s gives %v", before, got)
		}
		for i := range got {
			got[i] = 99
		}
		if fmt.Sprint(parts) != before {
			fail("flatten-shares", "of %s: the result shares elements", before)
		}
		w.Ev++
	}
	// maps.Pairs
	m := map[int]int{}
	for i, v := range l {
		m[v] = i
	}
	ps := maps.Pairs(m)
	back := map[int]int{}
	for i, p := range ps {
		back[p.Key] = p.Value
		if ps.Keys()[i] != p.Key || ps.Values()[i] != p.Value {
			fail("pairs-lists", "%v: keys %v values %v", ps, ps.Keys(), ps.Values())
		}
	}
	if len(ps) != len(m) || !eq(back, m) {
		fail("pairs", "%v gives %v", m, ps)
	}
	w.Nt++
}

func permute(k *vk.Check, w *vk.Worker, n int, distinct bool) {
	l := make([]int, n)
	for i := range l {
		l[i] = i
		if !distinct {
			l[i] = i / 2
		}
	}
	fail := func(key, f string, a ...any) {
		k.Violate("permute:"+key, fmt.Sprintf("permuting %v: ", l)+fmt.Sprintf(f, a...), fmt.Sprint(l))
	}
	ids := make([]item, n)
	for i, v := range l {
		ids[i] = item{v, i}
	}
	in, check := guarded(ids, item{-7, -7}, 1)
	next := lists.Permute(in)
	if !eq(in, ids) {
		fail("early", "changed before the first call")
	}
	seen := map[string]bool{}
	want := 1
	for i := 2; i <= n; i++ {
		want *= i
	}
	for next() {
		s := fmt.Sprint(in)
		if len(seen) == 0 && !eq(in, ids) {
			fail("first", "the first permutation is %v", in)
		}
		if seen[s] {
			fail("twice", "%v comes twice", in)
			break
		}
		seen[s] = true
		if !eq(counts(in), counts(ids)) {
			fail("elements", "%v", in)
			break
		}
		if len(seen) > want {
			break
		}
		w.Ev++
	}
	if len(seen) != want {
		fail("count", "%d permutations of %d", len(seen), want)
	}
	last := fmt.Sprint(in)
	for i := 0; i < 3; i++ {
		if next() || fmt.Sprint(in) != last {
			fail("over", "goes on after the end")
		}
	}
	if _, ok := check(); !ok {
		fail("outside", "changed something outside the list")
	}
	w.Nt++
}

func main() {
	vk.Main("C19", "exploration", func(k *vk.Check) {
		n := k.Pick(8, 10)
		k.Rule("every list over {0,1,2} up to the length given through every helper with every parameter, inside guarded arrays; lists of every length up to 139 (299) in eight shapes with an odd element at every (every 16th) place; every permutation of up to 8 (9) elements")
		total := int64(0)
		p := int64(1)
		for l := 0; l <= n; l++ {
			total += p
			p *= 3
		}
		k.Par(total, func(w *vk.Worker, i int64) {
			l, p := 0, int64(1)
			for i >= p {
				i -= p
				p *= 3
				l++
			}
			list := make([]int, l)
			for j := range list {
				list[j] = int(i % 3)
				i /= 3
			}
			helpers(k, w, list)
		})
		// longer lists: splitting has nothing to do with the values
		k.Par(int64(k.Pick(60, 200)), func(w *vk.Worker, i int64) {
			l := make([]int, i)
			for j := range l {
				l[j] = j
			}
			for max := 1; max <= len(l)+1; max++ {
				ch := lists.Split(l, max)
				need := (len(l) + max - 1) / max
				if need == 0 {
					need = 1
				}
				ok := len(ch) == need && eq(lists.Flatten(ch), l)
				for _, c := range ch {
					ok = ok && len(c) <= max && (len(c) > 0 || len(l) == 0)
				}
				if !ok {
					k.Violate("split-long", fmt.Sprintf("%d elements by %d: %v", len(l), max, ch), nil)
				}
				w.Ev++
			}
			if vk.Catch(func() error { lists.Split(l, 0); return nil }) == nil || vk.Catch(func() error { lists.Split(l, -1); return nil }) == nil {
				k.Violate("split-zero", "a chunk size below one is accepted", nil)
			}
		})
		long := k.Pick(140, 300)
		k.Par(int64(long), func(w *vk.Worker, i int64) { big(k, w, int(i)) })
		k.Set("long_list_length", long-1)
		k.Par(int64(k.Pick(9, 10)), func(w *vk.Worker, i int64) { permute(k, w, int(i), true); permute(k, w, int(i), false) })
		k.Set("list_length", n)
	})
}
