package main

import (
	"fmt"
	"sort"

	"github.com/Aize-Public/forego/utils/lists"
	"github.com/Aize-Public/forego/utils/maps"
	"verif.local/mc/lib/vk"
)

// shapes are lists of n keys where an implementation that treats long lists differently could slip.
func shapes(n int) map[string]func(i int) int {
	return map[string]func(i int) int{
		"up":       func(i int) int { return i },
		"down":     func(i int) int { return n - i },
		"same":     func(i int) int { return 7 },
		"saw":      func(i int) int { return i % 7 },
		"pipe":     func(i int) int { return min(i, n-1-i) },
		"two":      func(i int) int { return i & 1 },
		"stride":   func(i int) int { return i * 61 % 127 },
		"negative": func(i int) int { return 3 - i },
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// big runs the helpers on long lists: every length up to a bound, in each of the shapes, the odd element at every place.
func big(k *vk.Check, w *vk.Worker, n int) {
	for name, f := range shapes(n) {
		base := make([]item, n)
		for i := range base {
			base[i] = item{f(i), i}
		}
		places := []int{-1}
		if name == "up" || name == "same" {
			for i := 0; i < n; i++ {
				if n <= 70 || i < 4 || i > n-4 || i%16 == 0 {
					places = append(places, i)
				}
			}
		}
		for _, at := range places {
			l := append([]item{}, base...)
			if at >= 0 {
				l[at].key = -50
			}
			fail := func(key, f string, a ...any) {
				k.Violate("big-"+key, fmt.Sprintf("%d elements %s, odd one at %d: ", n, name, at)+fmt.Sprintf(f, a...), fmt.Sprint(l))
			}
			w.Ev++
			in, check := guarded(l, item{-7, -7}, 1)
			lists.Reverse(in)
			got, ok := check()
			for i := range l {
				ok = ok && got[i] == l[n-1-i]
			}
			if !ok {
				fail("reverse", "gives %v", got)
			}
			try := func(name string, f func([]item), less func(a, b item) bool) {
				in, check := guarded(l, item{-7, -7}, 1)
				f(in)
				got, ok := check()
				if !ok || !sort.SliceIsSorted(got, func(i, j int) bool { return less(got[i], got[j]) }) || !eq(counts(got), counts(l)) {
					fail(name, "gives %v, outside untouched: %v", got, ok)
				}
			}
			up := func(a, b item) bool { return a.key < b.key }
			total := func(a, b item) bool { return a.key < b.key || a.key == b.key && a.id > b.id }
			try("sort", func(x []item) { lists.Sort(x, up) }, up)
			try("sort-both", func(x []item) { lists.Sort(x, total) }, total)
			try("sortfunc", func(x []item) { lists.SortFunc(x, func(i item) int { return i.key }) }, up)
			try("sortfunc-string", func(x []item) { lists.SortFunc(x, func(i item) string { return fmt.Sprintf("%05d", i.key+500) }) }, up)
			in, check = guarded(l, item{-7, -7}, 1)
			out := lists.Copy(in)
			if !eq(out, l) {
				fail("copy", "gives %v", out)
			}
			for i := range out {
				out[i].id = 9999
			}
			if got, ok := check(); !ok || !eq(got, l) {
				fail("copy-shares", "the copy shares elements")
			}
			nums := make([]int, n)
			for i := range l {
				nums[i] = l[i].key
			}
			for _, v := range []int{-50, f(n / 2), -999} {
				has := false
				for _, e := range nums {
					has = has || e == v
				}
				in, check := guarded(nums, -7, 1)
				if lists.Contains(in, v) != has {
					fail("contains", "%v: %v", v, !has)
				}
				want := append([]int{}, nums...)
				if !has {
					want = append(want, v)
				}
				if got := lists.AddUnique(in, v); !eq(got, want) {
					fail("addunique", "%v: %v", v, got)
				}
				if got, _ := check(); !eq(got, nums) {
					fail("addunique-input", "%v: the input is %v", v, got)
				}
			}
		}
	}
	// parts of every size, empty ones between them
	for size := 1; size <= n && size < 40; size++ {
		var parts [][]int
		var all []int
		for i := 0; i < n; i++ {
			if i%size == 0 {
				parts = append(parts, nil, []int{})
			}
			parts[len(parts)-1] = append(parts[len(parts)-1], i)
			all = append(all, i)
		}
		before := fmt.Sprint(parts)
		got := lists.Flatten(parts)
		if !eq(got, all) || fmt.Sprint(parts) != before {
			k.Violate("big-flatten", fmt.Sprintf("%d elements in parts of %d give %v", n, size, got), nil)
		}
		for i := range got {
			got[i] = -1
		}
		_ = append(got, -2)
		if fmt.Sprint(parts) != before {
			k.Violate("big-flatten-shares", fmt.Sprintf("%d elements in parts of %d: the result shares elements", n, size), nil)
		}
		w.Ev++
	}
	m := map[int]string{}
	for i := 0; i < n; i++ {
		m[i] = fmt.Sprint(i)
	}
	ps := maps.Pairs(m)
	back := map[int]string{}
	ks, vs := ps.Keys(), ps.Values()
	ok := len(ps) == n && len(ks) == n && len(vs) == n
	for i, p := range ps {
		back[p.Key] = p.Value
		ok = ok && ks[i] == p.Key && vs[i] == p.Value
	}
	if !ok || !eq(back, m) {
		k.Violate("big-pairs", fmt.Sprintf("%d entries give %v", n, ps), nil)
	}
	w.Nt++
}
