package main

import (
	"fmt"
	"sort"

	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/utils/lists"
	"github.com/Aize-Public/forego/utils/sync"

	"verif.local/mc/lib/vk"
)

// big maps and sets: n entries, those from one on (or one alone) deleted, replaced or stopped at; through encoding and back.
func big(k *vk.Check) {
	sizes := []int{5, 8, 9, 16, 17, 33, 65, 130}[:k.Pick(7, 8)]
	for _, n := range sizes {
		n := n
		k.Par(int64(n*3), func(w *vk.Worker, i int64) {
			at, mode := int(i)/3, int(i)%3
			what := fmt.Sprintf("%d entries, mode %d at %d", n, mode, at)
			w.Note(what)
			fail := func(f string, a ...any) { k.Violate("big", what+": "+fmt.Sprintf(f, a...), what) }
			var m sync.Map[int, string]
			var s lists.Set[int]
			model := map[int]string{}
			verify := func(when string) {
				w.Ev++
				if !same(m.Map(), model) || m.IsEmpty() != (len(model) == 0) {
					fail("%s: %v, want %v", when, m.Map(), model)
				}
				seen := map[int]string{}
				m.Range(func(key int, v string) bool { seen[key] = v; return true })
				all := s.All()
				sort.Ints(all)
				if !same(seen, model) || len(all) != len(model) {
					fail("%s: Range visits %v, All gives %v, want %v", when, seen, all, model)
				}
				for i, key := range all {
					if _, ok := model[key]; !ok || i > 0 && all[i-1] == key {
						fail("%s: All gives %v", when, all)
					}
				}
				for key := -1; key <= n; key++ {
					v, ok := m.Load(key)
					e, had := model[key]
					if v != e || ok != had || s.Has(key) != had || m.Get(key) != e {
						fail("%s: Load(%d)=%q %v, has %v, want %q %v", when, key, v, ok, s.Has(key), e, had)
					}
				}
				node, err := m.MarshalNode(c)
				if err != nil {
					fail("%s: %v", when, err)
				}
				var back sync.Map[int, string]
				node, err = enc.JSON{}.Decode(c, enc.JSON{}.Encode(c, node))
				if err == nil {
					err = back.UnmarshalNode(c, node)
				}
				if err != nil || !same(back.Map(), model) {
					fail("%s: through JSON %v (%v), want %v", when, back.Map(), err, model)
				}
			}
			err := vk.Catch(func() error {
				for j := 0; j < n; j++ {
					m.Store(j, fmt.Sprint("v", j))
					if !s.Add(j) {
						fail("Add(%d) finds it there", j)
					}
					model[j] = fmt.Sprint("v", j)
				}
				verify("full")
				for j := at; j < n; j++ {
					switch mode {
					case 0:
						v, ok := m.LoadAndDelete(j)
						if !s.Remove(j) || s.Remove(j) || !ok || v != model[j] {
							fail("LoadAndDelete(%d)=%q %v", j, v, ok)
						}
						delete(model, j)
					case 1:
						if v, loaded := m.LoadOrStore(j, "new"); !loaded || v != model[j] || s.Add(j) {
							fail("LoadOrStore(%d)=%q %v", j, v, loaded)
						}
						m.Store(j, "w")
						model[j] = "w"
					case 2:
						num := 0
						m.Range(func(int, string) bool { num++; return num <= j })
						if want := j + 1; num != want {
							fail("Range stopped at %d: %d visits", want, num)
						}
						num = 0
						err := m.RangeErr(func(key int, _ string) error {
							m.Delete(key)
							s.Remove(key)
							delete(model, key)
							if num++; num > (n-at)/2 {
								return errStop
							}
							return nil
						})
						if err != errStop && len(model) > 0 || num > (n-at)/2+1 {
							fail("RangeErr stopped after %d: %v", num, err)
						}
					}
					if j == at || j == n-1 {
						verify(fmt.Sprint("changed ", j))
					}
					if mode == 2 {
						break
					}
				}
				verify("changed")
				for j := n; j >= 0; j-- {
					_, had := model[j]
					if v, loaded := m.LoadOrStore(j, "again"); loaded != had || !had && v != "again" || s.Add(j) == had {
						fail("LoadOrStore(%d) again: %q %v", j, v, loaded)
					} else {
						model[j] = v
					}
				}
				verify("again")
				return nil
			})
			if err != nil {
				fail("%v", err)
			}
			w.Nt++
			w.Out(fmt.Sprint("big ", mode))
		})
	}
	k.Set("entries_at_most", sizes[len(sizes)-1])
}
