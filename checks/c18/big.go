package main

import (
	"fmt"

	"github.com/Aize-Public/forego/utils"
	"verif.local/mc/lib/vk"
)

// big maps: n keys, an interval of them (or every step-th) deleted, before, or while ranging, put back, deleted again.
func big(k *vk.Check, n int) {
	type cut struct{ from, to, step int }
	var cuts []cut
	for from := 0; from <= n; from++ {
		for to := from; to <= n; to++ {
			if n <= 48 || from == to-1 || from == 0 || to == n || (from+to)%37 == 0 {
				cuts = append(cuts, cut{from, to, 1})
			}
		}
	}
	for step := 2; step < 6; step++ {
		for from := 0; from < step; from++ {
			cuts = append(cuts, cut{from, n, step})
		}
	}
	k.Par(int64(len(cuts)*4), func(w *vk.Worker, i int64) {
		c, mode := cuts[int(i)/4], int(i)%4
		hist := fmt.Sprintf("%d keys, %d to %d by %d deleted, mode %d", n, c.from, c.to, c.step, mode)
		w.Note(hist)
		fail := func(f string, a ...any) { k.Violate("big", hist+": "+fmt.Sprintf(f, a...), hist) }
		err := vk.Catch(func() error {
			m := utils.NewOrderedMap[int, int]()
			val := map[int]int{}
			var order []int
			ask := func(when string) {
				w.Ev++
				var ks, vs []int
				for _, key := range order {
					if v, ok := val[key]; ok {
						ks, vs = append(ks, key), append(vs, v)
					}
				}
				if m.Len() != len(ks) || fmt.Sprint(m.Keys()) != fmt.Sprint(ks) || fmt.Sprint(m.Values()) != fmt.Sprint(vs) {
					fail("%s: keys %v values %v, want %v %v", when, m.Keys(), m.Values(), ks, vs)
				}
				for key := -1; key <= n; key++ {
					e := m.Get(key)
					v, ok := val[key]
					if e.Found != ok || e.Value != v {
						fail("%s: Get(%d) gives %+v, want %v %v", when, key, e, v, ok)
					}
				}
			}
			put := func(key, v int) {
				old, ok := val[key]
				if e := m.Put(key, v); e.Found != ok || e.Value != old {
					fail("Put(%d) gives %+v, was %v %v", key, e, old, ok)
				}
				if !ok {
					for i, o := range order {
						if o == key {
							order = append(order[:i:i], order[i+1:]...)
							break
						}
					}
					order = append(order, key)
				}
				val[key] = v
			}
			del := func(key int) {
				old, ok := val[key]
				if e := m.Delete(key); e.Found != ok || e.Value != old {
					fail("Delete(%d) gives %+v, was %v %v", key, e, old, ok)
				}
				delete(val, key)
			}
			for j := 0; j < n; j++ {
				put(j, j*3)
			}
			ask("full")
			out := map[int]bool{}
			var list []int
			for j := c.from; j < c.to; j += c.step {
				out[j] = true
				list = append(list, j)
			}
			if mode >= 2 { // deletions while ranging, at the visit of the first, the middle or the last of them (2) or of key 0 (3)
				at := 0
				if mode == 2 && len(list) > 0 {
					at = list[len(list)/2]
				}
				var seen []int
				_ = m.Range(func(key, v int) error {
					if v != j3(key) {
						fail("visits %d=%d", key, v)
					}
					if _, ok := val[key]; !ok {
						fail("visits %d, which is gone", key)
					}
					seen = append(seen, key)
					if key == at {
						for _, j := range list {
							del(j)
						}
					}
					return nil
				})
				var want []int
				for j := 0; j < n; j++ {
					if !out[j] || j <= at {
						want = append(want, j)
					}
				}
				if fmt.Sprint(seen) != fmt.Sprint(want) {
					fail("visits %v, want %v", seen, want)
				}
			} else {
				for x := range list {
					j := list[x]
					if mode == 1 {
						j = list[len(list)-1-x]
					}
					del(j)
				}
			}
			ask("deleted")
			for _, j := range list {
				put(j, j)
			}
			if n > 0 {
				put(n/2, -1)
			}
			put(n, 5)
			ask("put back")
			for _, j := range list {
				del(j)
			}
			ask("deleted again")
			for j := n; j >= 0; j-- {
				del(j)
			}
			ask("all deleted")
			put(0, 1)
			ask("one again")
			return nil
		})
		if err != nil {
			fail("%v", err)
		}
		w.Nt++
		w.Out(fmt.Sprint("big ", mode))
	})
}

func j3(j int) int { return j * 3 }
