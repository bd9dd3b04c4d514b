// C18: every operation sequence on the ordered map against a list of pairs and a plain map.
package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/Aize-Public/forego/utils"
	"verif.local/mc/lib/vk"
)

type pair[K comparable, V any] struct {
	k K
	v V
}

var errStop = errors.New("stop")

func run[K comparable, V any](k *vk.Check, w *vk.Worker, name string, keys []K, vals []V, depth int, i int64, rich bool) {
	var hist []string
	bad := false
	fail := func(key, f string, a ...any) {
		bad = true
		k.Violate(name+":"+key, name+" "+strings.Join(hist, "; ")+": "+fmt.Sprintf(f, a...), map[string]any{"history": hist})
	}
	m := utils.NewOrderedMap[K, V]()
	var list []pair[K, V]
	at := func(key K) int {
		for i, p := range list {
			if p.k == key {
				return i
			}
		}
		return -1
	}
	same := func(a, b any) bool { return reflect.DeepEqual(a, b) }
	nput, ndel := len(keys)*len(vals), len(keys)
	n := int64(nput + ndel)
	if rich {
		n += 2
	}
	p := vk.Catch(func() error {
		for d := 0; d < depth && !bad; d++ {
			o := int(i % n)
			i /= n
			w.Ev++
			switch {
			case o < nput:
				key, v := keys[o%len(keys)], vals[o/len(keys)]
				hist = append(hist, fmt.Sprintf("Put(%v,%v)", key, v))
				old := m.Put(key, v)
				if j := at(key); j >= 0 {
					if !old.Found || !same(old.Value, list[j].v) {
						fail("put", "gives %+v, was %v", old, list[j].v)
					}
					list[j].v = v
				} else {
					var zero V
					if old.Found || !same(old.Value, zero) {
						fail("put-new", "gives %+v", old)
					}
					list = append(list, pair[K, V]{key, v})
				}
			case o < nput+ndel:
				key := keys[o-nput]
				hist = append(hist, fmt.Sprintf("Delete(%v)", key))
				old := m.Delete(key)
				if j := at(key); j >= 0 {
					if !old.Found || !same(old.Value, list[j].v) {
						fail("delete", "gives %+v, was %v", old, list[j].v)
					}
					list = append(list[:j:j], list[j+1:]...)
				} else if old.Found {
					fail("delete-new", "gives %+v", old)
				}
			case o == nput+ndel: // delete everything while ranging
				hist = append(hist, "delete while ranging")
				seen := 0
				_ = m.Range(func(key K, v V) error {
					if j := at(key); j != 0 {
						fail("range-delete", "visits %v, number %d of what is left", key, j)
						return errStop
					}
					m.Delete(key)
					list = list[1:]
					seen++
					return nil
				})
				if len(list) != 0 {
					fail("range-delete", "stopped after %d", seen)
				}
			default: // replace every value while ranging
				hist = append(hist, "update while ranging")
				j := 0
				_ = m.Range(func(key K, v V) error {
					if j >= len(list) || list[j].k != key || !same(list[j].v, v) {
						fail("range-update", "visits %v=%v as number %d", key, v, j)
						return errStop
					}
					m.Put(key, vals[0])
					list[j].v = vals[0]
					j++
					return nil
				})
			}
			// all the questions
			var ks []K
			var vs []V
			for _, p := range list {
				ks, vs = append(ks, p.k), append(vs, p.v)
			}
			gk, gv := m.Keys(), m.Values()
			if m.Len() != len(list) || len(gk) != len(ks) || len(gv) != len(vs) || (len(ks) > 0 && (!same(gk, ks) || !same(gv, vs))) {
				fail("list", "keys %v values %v len %d, want %v %v", gk, gv, m.Len(), ks, vs)
				return nil
			}
			for i := range gk { // what was handed out is the caller's
				gk[i], gv[i] = keys[0], vals[0]
			}
			for _, key := range keys {
				e := m.Get(key)
				j := at(key)
				if e.Found != (j >= 0) || (j >= 0 && !same(e.Value, list[j].v)) {
					fail("get", "Get(%v) gives %+v, number %d", key, e, j)
				}
				var zero V
				if j < 0 && !same(e.Value, zero) {
					fail("get-zero", "Get(%v) gives %+v", key, e)
				}
			}
			for stop := 0; stop <= len(list); stop++ { // a range that fails at number stop
				j := 0
				err := m.Range(func(key K, v V) error {
					if j >= len(list) || list[j].k != key || !same(list[j].v, v) {
						fail("range", "visits %v=%v as number %d, want %v", key, v, j, list)
					}
					j++
					if j == stop {
						return errStop
					}
					return nil
				})
				want := len(list)
				if stop > 0 {
					want = stop
				}
				if j != want || (stop > 0) != (err == errStop) || (err != nil) != (stop > 0) {
					fail("range-stop", "stopping at %d: %d visited, error %v", stop, j, err)
				}
			}
		}
		return nil
	})
	if p != nil {
		fail("panic", "%v", p)
	}
	w.Nt++
	w.Out(fmt.Sprint(len(list), " entries"))
}

func all[K comparable, V any](k *vk.Check, name string, keys []K, vals []V, depth int, rich bool) {
	n := int64(len(keys) * (len(vals) + 1))
	if rich {
		n += 2
	}
	total := int64(1)
	for i := 0; i < depth; i++ {
		total *= n
	}
	k.Par(total, func(w *vk.Worker, i int64) { run(k, w, name, keys, vals, depth, i, rich) })
	k.Set("length "+name, depth)
}

// a range during which entries come and go: at the visit of one entry any set of entries is deleted, then some are added
func changing(k *vk.Check, n int) {
	full := 1 << n
	k.Par(int64(full*full), func(w *vk.Worker, i int64) {
		before, during := int(i)%full, int(i)/full // deleted before, deleted during
		if before&during != 0 {
			return
		}
		for at := 0; at < n; at++ {
			if before>>at&1 == 1 {
				continue
			}
			for _, add := range [][]int{nil, {n}, {at}, {n - 1, 0, n}} {
				if n == 1 && len(add) > 1 {
					continue
				}
				w.Ev++
				m := utils.NewOrderedMap[int, int]()
				for j := 0; j < n; j++ {
					m.Put(j, j)
				}
				gone := map[int]bool{}
				for j := 0; j < n; j++ {
					if before>>j&1 == 1 {
						m.Delete(j)
						gone[j] = true
					}
				}
				var seen []int
				bad := ""
				touched := map[int]bool{} // added again: may be seen or not
				p := vk.Catch(func() error {
					return m.Range(func(key, v int) error {
						if !touched[key] && gone[key] {
							bad = fmt.Sprintf("visits %d, which is gone", key)
						}
						for _, s := range seen {
							if s == key && !touched[key] {
								bad = fmt.Sprintf("visits %d twice", key)
							}
						}
						seen = append(seen, key)
						if len(seen) > 4*n {
							return errStop
						}
						if key == at && !touched[at] {
							for j := 0; j < n; j++ {
								if during>>j&1 == 1 {
									m.Delete(j)
									gone[j] = true
								}
							}
							for _, j := range add {
								if gone[j] || j == n {
									m.Put(j, j)
									touched[j] = true
								}
							}
						}
						return nil
					})
				})
				if p != nil {
					bad = p.Error()
				}
				last := -1
				for _, s := range seen {
					if !touched[s] && s <= last {
						bad = "out of order"
					}
					if !touched[s] {
						last = s
					}
				}
				var want []int
				for j := 0; j < n; j++ {
					if !gone[j] {
						want = append(want, j)
						ok := false
						for _, s := range seen {
							ok = ok || s == j
						}
						if !ok {
							bad = fmt.Sprintf("does not visit %d", j)
						}
					}
				}
				for _, j := range add {
					if touched[j] {
						want = append(want, j)
					}
				}
				if keys := m.Keys(); fmt.Sprint(keys) != fmt.Sprint(want) || m.Len() != len(want) {
					bad = fmt.Sprintf("then the keys are %v, not %v", keys, want)
				}
				for _, j := range want {
					if e := m.Get(j); !e.Found || e.Value != j {
						bad = fmt.Sprintf("then Get(%d) gives %+v", j, e)
					}
				}
				if bad != "" {
					w.Violate("changing range", fmt.Sprintf("%d keys, %b deleted, at %d %b deleted and %v added: visited %v: %s", n, before, at, during, add, seen, bad), nil)
				}
				w.Nt++
			}
		}
		w.Out("changing range")
	})
	k.Set("keys of a changing range", n)
}

func main() {
	vk.Main("C18", "exploration", func(k *vk.Check) {
		k.Rule("every sequence of puts, deletes and modifying ranges up to the lengths given, with every question asked after every step; maps of up to 130 (260) keys with every interval of them deleted, before or during a range, and put back")
		all(k, "string to int", []string{"a", "b", ""}, []int{0, 1}, k.Pick(5, 6), true)
		all(k, "string to int, one value", []string{"a", "b", "c"}, []int{1}, k.Pick(7, 8), false)
		all(k, "five keys", []int{0, 1, 2, 3, 4}, []string{"x"}, k.Pick(5, 6), true)
		all(k, "interface keys", []any{nil, 1, "1"}, []any{nil, 1}, k.Pick(4, 5), true)
		all(k, "struct keys", [][2]int{{}, {0, 1}}, []*int{nil, new(int)}, k.Pick(5, 6), true)
		for n := 1; n <= k.Pick(8, 10); n++ {
			changing(k, n)
		}
		for n := 6; n <= k.Pick(40, 48); n++ {
			big(k, n)
		}
		for _, n := range []int{64, 65, 100, 130, 260}[:k.Pick(4, 5)] {
			big(k, n)
		}
		all(k, "two keys, long", []string{"a", "b"}, []int{1}, k.Pick(9, 10), true)
	})
}
