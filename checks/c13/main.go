// C13: every operation sequence against a recency list, every schedule for linearizability to it.
package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/utils/caches"

	"verif.local/mc/lib/mc"
	"verif.local/mc/mcrt"
	"verif.local/mc/mcrt/lin"
)

var errLoad = errors.New("load failed")

// ent is an entry of the model; the list goes from the most to the least recently used.
type ent struct{ key, val, size int }

func encode(l []ent) string {
	s := make([]string, len(l))
	for i, e := range l {
		s[i] = fmt.Sprintf("%d:%d:%d", e.key, e.val, e.size)
	}
	return strings.Join(s, " ")
}

func decode(s string) (l []ent) {
	for _, f := range strings.Fields(s) {
		var e ent
		fmt.Sscanf(f, "%d:%d:%d", &e.key, &e.val, &e.size)
		l = append(l, e)
	}
	return l
}

func find(l []ent, key int) int {
	for i, e := range l {
		if e.key == key {
			return i
		}
	}
	return -1
}

func drop(l []ent, i int) []ent { return append(append([]ent{}, l[:i]...), l[i+1:]...) }

func insert(l []ent, e ent, max int) []ent {
	l = append([]ent{e}, l...)
	tot := 0
	for _, e := range l {
		tot += e.size
	}
	for tot > max {
		tot -= l[len(l)-1].size
		l = l[:len(l)-1]
	}
	return l
}

func keysOf(c caches.Cache[int, int]) string {
	l := c.(interface{ Keys() []int }).Keys()
	sort.Ints(l)
	return fmt.Sprint(l)
}

func keys(l []ent) string {
	k := []int{}
	for _, e := range l {
		k = append(k, e.key)
	}
	sort.Ints(k)
	return fmt.Sprint(k)
}

// what the next load does
type plan struct {
	size  int
	err   error
	panic bool
}

func sequence(name string, max, nkeys, depth int, plans []plan) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, MaxBound: -1, NoUnlockPoints: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		c := ctx.TODO()
		loads := 0
		var next plan
		asked := -1
		lru := caches.NewLRU(c, max, func(c ctx.C, k int) (int, int, error) {
			loads++
			asked = k
			if next.panic {
				panic("loader")
			}
			return loads, next.size, next.err
		})
		var model []ent
		hist := fmt.Sprintf("max %d", max)
		check := func() {
			if got := keysOf(lru); got != keys(model) {
				x.Failf("keys", "%s: keys %s, want %s", hist, got, keys(model))
			}
		}
		for d := 0; d < depth; d++ {
			o := mcrt.Choose(nkeys * 2)
			k := o % nkeys
			if o >= nkeys {
				hist += fmt.Sprintf("; invalidate %d", k)
				lru.Invalidate(c, k)
				if i := find(model, k); i >= 0 {
					model = drop(model, i)
				}
				check()
				continue
			}
			i := find(model, k)
			if i >= 0 {
				hist += fmt.Sprintf("; get %d", k)
				n := loads
				v, hm, err := lru.Get(c, k)
				e := model[i]
				if v != e.val || hm != caches.HIT || err != nil || loads != n {
					x.Failf("hit", "%s: %d %s %v with %d loads, held: %d", hist, v, hm, err, loads-n, e.val)
				}
				model = append([]ent{e}, drop(model, i)...)
				check()
				continue
			}
			next = plans[mcrt.Choose(len(plans))]
			asked = -1
			hist += fmt.Sprintf("; get %d loading %+v", k, next)
			n := loads
			var v int
			var hm caches.HitMiss
			var err error
			panicked := func() (r any) {
				defer func() { r = recover() }()
				v, hm, err = lru.Get(c, k)
				return nil
			}()
			if loads != n+1 || asked != k {
				x.Failf("load", "%s: %d loads, of %d", hist, loads-n, asked)
			}
			switch {
			case next.panic:
				if panicked == nil {
					x.Failf("panic", "%s: the loader's panic is lost", hist)
				}
			case panicked != nil:
				x.Failf("panics", "%s: panic: %v", hist, panicked)
				return nil
			case next.err != nil:
				if !errors.Is(err, next.err) || hm != caches.ERR {
					x.Failf("error", "%s: %s %v", hist, hm, err)
				}
			case next.size == 0:
				if v != loads || hm != caches.NO || err != nil {
					x.Failf("uncached", "%s: %d %s %v", hist, v, hm, err)
				}
			default:
				if v != loads || hm != caches.MISS || err != nil {
					x.Failf("miss", "%s: %d %s %v", hist, v, hm, err)
				}
				if next.size > max {
					// nothing can make room for it; what else goes is not specified
					for j := len(model) - 1; j >= 0; j-- {
						if !strings.Contains(keysOf(lru), fmt.Sprint(model[j].key)) {
							model = drop(model, j)
						}
					}
				} else {
					model = insert(model, ent{k, v, next.size}, max)
				}
			}
			check()
			_ = fmt.Sprint(lru)
		}
		x.Outf("%d kept", len(model))
		return nil
	}}
}

// large: a cache of many entries is filled, one entry used, one dropped, then it overflows, entry by entry or by a large one.
func large(max int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: fmt.Sprintf("large cache of %d", max), MaxBound: -1, NoUnlockPoints: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		c := ctx.TODO()
		size := 1
		lru := caches.NewLRU(c, max, func(c ctx.C, k int) (int, int, error) { return k * 2, size, nil })
		var model []ent
		hist := fmt.Sprintf("max %d", max)
		get := func(k int) {
			v, hm, err := lru.Get(c, k)
			want := caches.MISS
			if i := find(model, k); i >= 0 {
				want = caches.HIT
				e := model[i]
				model = append([]ent{e}, drop(model, i)...)
			} else {
				model = insert(model, ent{k, k * 2, size}, max)
			}
			if v != k*2 || hm != want || err != nil {
				x.Failf("large-get", "%s; get %d: %d %s %v", hist, k, v, hm, err)
			}
		}
		check := func() {
			if got := keysOf(lru); got != keys(model) {
				x.Failf("large-keys", "%s: keys %s, want %s", hist, got, keys(model))
			}
		}
		touch, gone, how := mcrt.Choose(max), mcrt.Choose(max+1), mcrt.Choose(3)
		for i := 0; i < max; i++ {
			get(i)
		}
		check()
		hist += fmt.Sprintf("; all loaded, get %d, invalidate %d", touch, gone)
		get(touch)
		if gone < max {
			lru.Invalidate(c, gone)
			if i := find(model, gone); i >= 0 {
				model = drop(model, i)
			}
		}
		check()
		switch how {
		case 0: // one by one, all the way round
			for i := 0; i < max+2; i++ {
				hist += fmt.Sprintf("; get %d", 1000+i)
				get(1000 + i)
				if i < 4 || i%8 == 0 {
					check()
				}
			}
		case 1: // one that pushes out half of the others
			size = (max + 1) / 2
			hist += fmt.Sprintf("; get 1000 of size %d", size)
			get(1000)
			check()
			size = 1
			get(1001)
		case 2: // use all again, backwards, then one more
			for i := max - 1; i >= 0; i-- {
				get(i)
			}
			check()
			get(1000)
		}
		check()
		for i := 0; i < max; i += 3 {
			get(i)
			get(1000 + i)
		}
		check()
		x.Outf("large %d", how)
		return nil
	}}
}

// concurrent callers; a load takes time, so that others can come in
func concurrent(name string, max int, init []int, progs []int, sets [][]int, quick, bound int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, QuickBound: quick, MaxBound: bound, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		c := ctx.TODO()
		loads := 0
		failing := false
		lru := caches.NewLRU(c, max, func(c ctx.C, k int) (int, int, error) {
			loads++
			v := loads
			mcrt.Point(mcrt.OpUser, nil)
			if k == 9 {
				return v, 1, errLoad
			}
			if k == 8 {
				return v, 0, nil
			}
			return v, 1, nil
		})
		_ = failing
		var model []ent
		for _, k := range init {
			v, _, _ := lru.Get(c, k)
			model = insert(model, ent{k, v, 1}, max)
		}
		h := &lin.Hist{}
		do := func(o int) {
			ret := h.Begin()
			switch {
			case o >= 0 && o < 10:
				v, hm, err := lru.Get(c, o)
				ret(fmt.Sprintf("get %d=%d %s %v", o, v, hm, err), func(s string) (string, bool) {
					l := decode(s)
					i := find(l, o)
					switch hm {
					case caches.HIT:
						if i < 0 || l[i].val != v || err != nil {
							return s, false
						}
						e := l[i]
						return encode(append([]ent{e}, drop(l, i)...)), true
					case caches.MISS:
						return encode(insert(l, ent{o, v, 1}, max)), i < 0 && err == nil && o < 8
					case caches.NO:
						return s, o == 8 && err == nil
					case caches.ERR:
						return s, o == 9 && errors.Is(err, errLoad)
					}
					return s, false
				})
			case o >= 10 && o < 20:
				lru.Invalidate(c, o-10)
				ret(fmt.Sprintf("invalidate %d", o-10), func(s string) (string, bool) {
					l := decode(s)
					if i := find(l, o-10); i >= 0 {
						l = drop(l, i)
					}
					return encode(l), true
				})
			case o == 20:
				ks := keysOf(lru)
				ret("keys "+ks, func(s string) (string, bool) { return s, keys(decode(s)) == ks })
			case o == 21:
				str := fmt.Sprint(lru)
				ret("string "+str, func(s string) (string, bool) { return s, true })
			}
		}
		var wg sync.WaitGroup
		plans := make([][]int, len(progs))
		for t, n := range progs {
			for i := 0; i < n; i++ {
				plans[t] = append(plans[t], sets[t][mcrt.Choose(len(sets[t]))])
			}
		}
		for t := range progs {
			t := t
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, o := range plans[t] {
					do(o)
				}
			}()
		}
		wg.Wait()
		do(20)
		for _, k := range []int{1, 2} {
			do(k)
		}
		if !h.Check(encode(model), nil) {
			x.Failf("not-linearizable", "from {%s} max %d: %s", encode(model), max, h)
		}
		x.Outf("%d loads", loads)
		return nil
	}}
}

func scenarios() []*mcrt.Scenario {
	deep := 5
	if mc.Thorough() {
		deep = 6
	}
	unit := []plan{{size: 1}}
	odd := []plan{{size: 1}, {size: 2}, {size: 3}, {size: 0}, {size: 9}, {size: 1, err: errLoad}, {size: 1, panic: true}}
	out := []*mcrt.Scenario{
		sequence("unit sizes, 3 of 4 keys", 3, 4, deep, unit),
		sequence("unit sizes, 2 of 3 keys", 2, 3, deep+2, unit),
		sequence("mixed sizes and failures", 3, 3, deep-1, odd),
		sequence("sizes 1 to 3 in 4", 4, 4, deep, odd[:3]),
		sequence("room for nothing", 0, 2, 3, odd),
	}
	any := []int{1, 2, 3, 8, 9, 11, 12, 20, 21}
	out = append(out,
		concurrent("two callers", 2, []int{1, 2}, []int{2, 1}, [][]int{any, any}, 2, 4),
		concurrent("two callers, empty", 2, nil, []int{1, 1}, [][]int{any, any}, 4, 10),
		concurrent("three callers", 2, []int{2}, []int{1, 1, 1}, [][]int{{1, 3, 9}, {1, 2, 11, 20}, {2, 3, 12, 21}}, 3, 6),
	)
	for _, n := range []int{5, 8, 9, 16, 17, 33} {
		out = append(out, large(n))
	}
	if mc.Thorough() {
		out = append(out, large(64), large(65))
		out = append(out, concurrent("two callers, two each", 2, []int{1, 2}, []int{2, 2}, [][]int{any, any}, 2, 3),
			concurrent("three callers, any", 1, []int{1}, []int{1, 1, 1}, [][]int{any, any, any}, 2, 4),
			sequence("unit sizes, 4 of 5 keys", 4, 5, 6, unit))
	}
	return out
}

func main() {
	mc.Main("C13", mc.Options{
		QuickBound: 4, ThoroughBound: 10,
		Rule:   "every sequence of lookups (with every kind of load) and invalidations up to the depths given, against a list in order of use; caches of 5 to 33 (65) entries with each entry used and each dropped before they overflow; every schedule of two or three callers up to the preemption bound, each history checked for linearizability to that list",
		Assume: []string{"loads do not call the cache that runs them (the LRU holds its lock while loading, as its source notes)", "two uses of the cache are at least a tick of the clock apart"},
	}, scenarios)
}
