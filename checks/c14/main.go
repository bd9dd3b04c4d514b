// C14: every sequence of requests, invalidations and passing time against a model; racing requests under every schedule.
package main

import (
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/utils/caches"

	"verif.local/mc/lib/mc"
	"verif.local/mc/mcrt"
	"verif.local/mc/mcrt/lin"
)

var errLoad = errors.New("load failed")

// ---- sequences

type plan struct {
	ttl   time.Duration
	err   error
	panic bool
}

type held struct {
	val    int
	err    error
	expire int64
}

// sequences over a request cache with room for all keys
func sequence(name string, nkeys, depth int, plans []plan, sleeps []time.Duration) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, MaxBound: -1, NoUnlockPoints: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		c := ctx.TODO()
		loads, asked := 0, -1
		var next plan
		rc := caches.NewRequestLRU(c, nkeys, func(c ctx.C, k int) (int, time.Duration, error) {
			loads++
			asked = k
			if next.panic {
				panic("loader")
			}
			return loads*10 + k, next.ttl, next.err
		})
		model := map[int]held{}
		hist := ""
		for d := 0; d < depth; d++ {
			o := mcrt.Choose(2*nkeys + len(sleeps))
			if o >= 2*nkeys {
				s := sleeps[o-2*nkeys]
				hist += fmt.Sprintf("; sleep %v", s)
				time.Sleep(s)
				continue
			}
			k := o % nkeys
			if o >= nkeys {
				hist += fmt.Sprintf("; invalidate %d", k)
				rc.Invalidate(c, k)
				delete(model, k)
				continue
			}
			n := loads
			h, ok := model[k]
			if ok && h.expire > mcrt.VNow() {
				hist += fmt.Sprintf("; request %d", k)
				v, hm, err := rc.Request(c, k)
				if v != h.val || hm != caches.HIT || err != h.err || loads != n {
					x.Failf("held", "%s: %d %s %v with %d loads, held: %d %v", hist, v, hm, err, loads-n, h.val, h.err)
				}
				continue
			}
			next = plans[mcrt.Choose(len(plans))]
			asked = -1
			hist += fmt.Sprintf("; request %d loading %+v", k, next)
			var v int
			var hm caches.HitMiss
			var err error
			panicked := func() (r any) {
				defer func() { r = recover() }()
				v, hm, err = rc.Request(c, k)
				return nil
			}()
			delete(model, k)
			if loads != n+1 || asked != k {
				x.Failf("load", "%s: %d loads, of %d", hist, loads-n, asked)
				return nil
			}
			if next.panic {
				if panicked == nil {
					x.Failf("panic", "%s: the loader's panic is lost", hist)
				}
				continue
			}
			want := caches.MISS
			if next.err != nil {
				want = caches.ERR
			}
			if panicked != nil || hm != want || err != next.err || (err == nil && v != loads*10+k) {
				x.Failf("loaded", "%s: %d %s %v panic %v", hist, v, hm, err, panicked)
			}
			if next.ttl > 0 {
				model[k] = held{v, next.err, mcrt.VNow() + int64(next.ttl)}
			}
		}
		x.Outf("%d loads", loads)
		return nil
	}}
}

// sequences over a request cache that is too small
func evicting(max, nkeys, depth int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: fmt.Sprintf("request cache of %d with %d keys", max, nkeys), MaxBound: -1, NoUnlockPoints: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		c := ctx.TODO()
		loads := 0
		rc := caches.NewRequestLRU(c, max, func(c ctx.C, k int) (int, time.Duration, error) {
			loads++
			return loads*10 + k, time.Hour, nil
		})
		var model [][2]int // key, value; most recently used first
		hist := ""
		for d := 0; d < depth; d++ {
			k := mcrt.Choose(nkeys)
			hist += fmt.Sprint(" ", k)
			n := loads
			v, hm, err := rc.Request(c, k)
			at := -1
			for i, e := range model {
				if e[0] == k {
					at = i
				}
			}
			if at >= 0 {
				if v != model[at][1] || hm != caches.HIT || loads != n || err != nil {
					x.Failf("evicting-hit", "requests%s: %d %s %v", hist, v, hm, err)
				}
				model = append(model[:at], model[at+1:]...)
			} else if hm != caches.MISS || loads != n+1 || v != loads*10+k || err != nil {
				x.Failf("evicting-miss", "requests%s: %d %s %v", hist, v, hm, err)
			}
			model = append([][2]int{{k, v}}, model...)
			if len(model) > max {
				model = model[:max]
			}
		}
		x.Outf("%d loads", loads)
		return nil
	}}
}

// large: many entries, one used, one dropped, then more than there is room for
func large(max int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: fmt.Sprintf("large caches of %d", max), MaxBound: -1, NoUnlockPoints: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		c := ctx.TODO()
		loads := 0
		rc := caches.NewRequestLRU(c, max, func(c ctx.C, k int) (int, time.Duration, error) {
			loads++
			return loads*10000 + k, time.Hour, nil
		})
		mem := caches.Mem(c, func(c ctx.C, k int) (int, error) { loads++; return loads*10000 + k, nil })
		var order []int // most recently used first
		val, memval := map[int]int{}, map[int]int{}
		hist := ""
		request := func(k int) {
			n := loads
			v, hm, err := rc.Request(c, k)
			h, ok := val[k]
			if ok && (v != h || hm != caches.HIT || loads != n || err != nil) || !ok && (v != loads*10000+k || hm != caches.MISS || loads != n+1 || err != nil) {
				x.Failf("large-request", "%d loaded%s; request %d: %d %s %v, held %v %d", max, hist, k, v, hm, err, ok, h)
			}
			val[k] = v
			for i, o := range order {
				if o == k {
					order = append(order[:i:i], order[i+1:]...)
					break
				}
			}
			order = append([]int{k}, order...)
			if len(order) > max {
				delete(val, order[max])
				order = order[:max]
			}
			n = loads
			v, hm, err = mem.Get(c, k)
			h, ok = memval[k]
			if ok && (v != h || hm != caches.HIT || loads != n || err != nil) || !ok && (v != loads*10000+k || hm != caches.MISS || loads != n+1 || err != nil) {
				x.Failf("large-mem", "%d loaded%s; get %d: %d %s %v, held %v %d", max, hist, k, v, hm, err, ok, h)
			}
			memval[k] = v
		}
		for i := 0; i < max; i++ {
			request(i)
		}
		touch, gone := mcrt.Choose(max), mcrt.Choose(max+1)
		back := mcrt.Choose(2) == 1
		hist = fmt.Sprintf("; request %d; invalidate %d", touch, gone)
		request(touch)
		rc.Invalidate(c, gone)
		mem.Invalidate(c, gone)
		delete(val, gone)
		delete(memval, gone)
		for i, o := range order {
			if o == gone {
				order = append(order[:i:i], order[i+1:]...)
				break
			}
		}
		if back {
			for i := max - 1; i >= 0; i-- {
				request(i)
			}
		}
		for i := 0; i < max+1; i++ {
			request(1000 + i)
			if len(order) > 1 && i%3 == 0 {
				request(order[len(order)-1]) // the one that would go next
			}
		}
		for i := 0; i < max; i++ {
			request(1000 + i)
			request(i)
		}
		x.Outf("%d loads", loads)
		return nil
	}}
}

// sequences over the memory cache
func memory(nkeys, depth int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: "memory cache", MaxBound: -1, NoUnlockPoints: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		c := ctx.TODO()
		loads, mode := 0, 0
		m := caches.Mem(c, func(c ctx.C, k int) (int, error) {
			loads++
			switch mode {
			case 1:
				return loads*10 + k, errLoad
			case 2:
				panic("loader")
			}
			return loads*10 + k, nil
		})
		model := map[int]int{}
		hist := ""
		for d := 0; d < depth; d++ {
			o := mcrt.Choose(2 * nkeys)
			k := o % nkeys
			if o >= nkeys {
				hist += fmt.Sprintf("; invalidate %d", k)
				m.Invalidate(c, k)
				delete(model, k)
				continue
			}
			n := loads
			h, ok := model[k]
			mode = 0
			if !ok {
				mode = mcrt.Choose(3)
			}
			hist += fmt.Sprintf("; get %d mode %d", k, mode)
			var v int
			var hm caches.HitMiss
			var err error
			panicked := func() (r any) {
				defer func() { r = recover() }()
				v, hm, err = m.Get(c, k)
				return nil
			}()
			good := false
			switch {
			case ok:
				good = v == h && hm == caches.HIT && err == nil && loads == n
			case mode == 0:
				good = v == loads*10+k && hm == caches.MISS && err == nil && loads == n+1
				model[k] = v
			case mode == 1:
				good = hm == caches.ERR && errors.Is(err, errLoad) && loads == n+1
			case mode == 2:
				good = panicked != nil && loads == n+1
			}
			if !good || (panicked != nil) != (mode == 2) {
				x.Failf("memory", "%s: %d %s %v panic %v, held %d %v, %d loads", hist, v, hm, err, panicked, h, ok, loads-n)
				return nil
			}
		}
		x.Outf("%d loads", loads)
		return nil
	}}
}

// ---- racing requests

type span struct{ from, to int }

type load struct {
	key, val int
	span
	by      *req
	kept    bool // has a time to live
	err     error
	expires int64
	at      int64 // virtual start
}

type req struct {
	key, val int
	hm       caches.HitMiss
	err      error
	span
	at int64 // virtual time of the call
}

type inv struct {
	key int
	span
}

type world struct {
	lin.Book
	n     lin.Book // counts loads
	loads []*load
	reqs  []*req
	invs  []*inv
}

func (w *world) tick() int { return w.Tick() }

// sort puts the notes where they belong, once everybody is done.
func (w *world) sort() {
	for _, v := range w.All() {
		switch v := v.(type) {
		case *load:
			w.loads = append(w.loads, v)
		case *req:
			w.reqs = append(w.reqs, v)
		case *inv:
			w.invs = append(w.invs, v)
		}
	}
}

type who struct{}

func (w *world) String() string {
	s := ""
	for _, r := range w.reqs {
		s += fmt.Sprintf("[%d..%d request %d=%d %s %v] ", r.from, r.to, r.key, r.val, r.hm, r.err)
	}
	for _, l := range w.loads {
		s += fmt.Sprintf("[%d..%d load %d=%d kept %v %v] ", l.from, l.to, l.key, l.val, l.kept, l.err)
	}
	for _, i := range w.invs {
		s += fmt.Sprintf("[%d..%d invalidate %d] ", i.from, i.to, i.key)
	}
	return s
}

// judge checks the recorded history; evictions: entries may go at any time.
func (w *world) judge(x *mcrt.X, evictions bool) {
	find := func(val int) *load {
		for _, l := range w.loads {
			if l.val == val {
				return l
			}
		}
		return nil
	}
	for _, r := range w.reqs {
		l := find(r.val)
		if l == nil || l.key != r.key || l.from > r.to {
			x.Failf("foreign", "a request got a value no load of its key gave: %s", w)
			continue
		}
		if (r.err == nil) != (l.err == nil) || (l.err != nil && !errors.Is(r.err, l.err)) {
			x.Failf("error", "request of %d: %v, its load: %v: %s", r.key, r.err, l.err, w)
		}
		if r.hm != caches.HIT {
			if l.by != r || (r.hm == caches.ERR) != (l.err != nil) || (r.hm == caches.MISS) != (l.err == nil) {
				x.Failf("own", "a request says %s for a load that is not its own: %s", r.hm, w)
			}
			continue
		}
		if l.by == r {
			x.Failf("hit-own", "a request that loaded says hit: %s", w)
		}
		if !l.kept {
			x.Failf("kept", "a result without time to live is held: %s", w)
		}
		if l.to > r.to {
			x.Failf("early", "a request got a value before it was loaded: %s", w)
		}
		if l.kept && l.to < r.from && l.expires < r.at {
			x.Failf("expired", "a request got an expired value: %s", w)
		}
		for _, i := range w.invs {
			if i.key == r.key && l.from < i.from && i.to < r.from {
				x.Failf("stale", "a request after an invalidation got what was loaded before: %s", w)
			}
		}
	}
	if evictions {
		return
	}
	for _, a := range w.loads {
		for _, b := range w.loads {
			if a == b || a.key != b.key || a.from > b.from || !a.kept || b.at > a.expires {
				continue
			}
			excused := false
			for _, i := range w.invs {
				if i.key == a.key && i.from < b.from && (i.to > a.by.from || i.to > b.by.from) {
					excused = true
				}
			}
			if !excused {
				x.Failf("loaded-twice", "a second load of %d while the first is running or held: %s", a.key, w)
			}
		}
	}
}

func (w *world) request(c ctx.C, rc *caches.RequestCache[int, int], k int) {
	r := &req{key: k, at: mcrt.VNow()}
	r.from = w.tick()
	r.val, r.hm, r.err = rc.Request(ctx.WithValue(c, who{}, r), k)
	r.to = w.tick()
	w.Add(r)
}

func (w *world) invalidate(c ctx.C, rc *caches.RequestCache[int, int], k int) {
	i := &inv{key: k}
	i.from = w.tick()
	rc.Invalidate(c, k)
	i.to = w.tick()
	w.Add(i)
}

// racing: ops of each goroutine are chosen from its set; 0..4 request key, 10..14 invalidate, 20 sleeps.
// key 1 and 2 give values for a second, 3 an error for a second, 4 a value without time to live, 0 an error without.
func racing(name string, max int, evictions bool, progs []int, sets [][]int, quick, bound int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, QuickBound: quick, MaxBound: bound, NoRace: false, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		c := ctx.TODO()
		w := &world{}
		rc := caches.NewRequestLRU(c, max, func(c ctx.C, k int) (int, time.Duration, error) {
			l := &load{key: k, val: 100*w.n.Tick() + k, by: c.Value(who{}).(*req), at: mcrt.VNow(), expires: 1 << 62}
			l.from = w.tick()
			l.kept = k != 4 && k != 0
			w.Add(l)
			if k == 3 || k == 0 {
				l.err = errLoad
			}
			mcrt.Point(mcrt.OpUser, nil)
			ttl := time.Duration(0)
			if l.kept {
				ttl = time.Second
				l.expires = mcrt.VNow() + int64(ttl) + 100
			}
			l.to = w.tick()
			return l.val, ttl, l.err
		})
		plans := make([][]int, len(progs))
		for t, n := range progs {
			for i := 0; i < n; i++ {
				plans[t] = append(plans[t], sets[t][mcrt.Choose(len(sets[t]))])
			}
		}
		var wg sync.WaitGroup
		for t := range progs {
			t := t
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, o := range plans[t] {
					switch {
					case o < 10:
						w.request(c, rc, o)
					case o < 20:
						w.invalidate(c, rc, o-10)
					default:
						time.Sleep(1500 * time.Millisecond)
					}
				}
			}()
		}
		wg.Wait()
		for _, k := range sets[0] {
			if k < 10 {
				w.request(c, rc, k)
			}
		}
		w.sort()
		w.judge(x, evictions)
		x.Outf("%d loads", len(w.loads))
		return nil
	}}
}

// memcache: concurrent callers of the memory cache, linearizable to a map
func memcache(quick, bound int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: "memory cache, racing", QuickBound: quick, MaxBound: bound, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		c := ctx.TODO()
		loads := 0
		m := caches.Mem(c, func(c ctx.C, k int) (int, error) {
			loads++
			v := loads
			mcrt.Point(mcrt.OpUser, nil)
			if k == 2 {
				return v, errLoad
			}
			return v, nil
		})
		h := &lin.Hist{}
		do := func(o int) {
			ret := h.Begin()
			if o >= 10 {
				m.Invalidate(c, o-10)
				ret("invalidate", func(s string) (string, bool) {
					if o == 10 {
						return "", true
					}
					return s, true
				})
				return
			}
			v, hm, err := m.Get(c, o)
			ret(fmt.Sprintf("get %d=%d %s %v", o, v, hm, err), func(s string) (string, bool) {
				if o == 2 {
					return s, hm == caches.ERR && errors.Is(err, errLoad)
				}
				if o == 1 { // held apart from key 0 and never invalidated here
					return s, err == nil
				}
				switch hm {
				case caches.HIT:
					return s, s == fmt.Sprint(v) && err == nil
				case caches.MISS:
					return fmt.Sprint(v), s == "" && err == nil
				}
				return s, false
			})
		}
		set := []int{0, 1, 2, 10}
		var wg sync.WaitGroup
		for t := 0; t < 3; t++ {
			o := set[mcrt.Choose(len(set))]
			wg.Add(1)
			go func() { defer wg.Done(); do(o) }()
		}
		wg.Wait()
		do(0)
		do(0)
		if !h.Check("", nil) {
			x.Failf("mem-not-linearizable", "%s", h)
		}
		x.Outf("%d loads", loads)
		return nil
	}}
}

func scenarios() []*mcrt.Scenario {
	more := 0
	if mc.Thorough() {
		more = 1
	}
	plans := []plan{{ttl: time.Second}, {ttl: 3 * time.Second}, {ttl: 0}, {ttl: -1}, {ttl: time.Second, err: errLoad}, {err: errLoad}, {ttl: time.Second, panic: true}}
	sleeps := []time.Duration{700 * time.Millisecond, 2100 * time.Millisecond}
	out := []*mcrt.Scenario{
		sequence("one key, any load", 1, 5+more, plans, sleeps),
		sequence("two keys, any load", 2, 4+more, plans, sleeps),
		sequence("three keys", 3, 5+more, plans[:1], sleeps[:1]),
		evicting(2, 3, 7+more), evicting(3, 4, 6+more), evicting(1, 2, 7),
		large(5), large(8), large(16), large(17), large(33),
		memory(2, 5+more),
		memcache(5, 12),
		racing("same key", 4, false, []int{1, 1}, [][]int{{1}, {1, 11, 2}}, 6, 12),
		racing("three of the same key", 4, false, []int{1, 1, 1}, [][]int{{1}, {1}, {1, 11}}, 3, 6),
		racing("request, invalidate, request", 4, false, []int{2, 2}, [][]int{{1, 11}, {1, 11, 2}}, 2, 4),
		racing("errors and uncacheable", 4, false, []int{1, 1, 1}, [][]int{{3, 4, 0}, {3, 4, 0}, {3, 4, 13, 14}}, 2, 4),
		racing("expiry", 4, false, []int{2, 2}, [][]int{{1, 3, 20}, {1, 3, 20}}, 2, 4),
		racing("too small", 1, true, []int{2, 1}, [][]int{{1, 2}, {1, 2, 11}}, 2, 5),
	}
	// a load of one key that waits for the load of another: nobody may stand in the way
	out = append(out, &mcrt.Scenario{Name: "slow load", Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		c := ctx.TODO()
		other := make(chan struct{})
		n := &lin.Book{}
		rc := caches.NewRequestLRU(c, 3, func(c ctx.C, k int) (int, time.Duration, error) {
			n.Tick()
			if k == 1 {
				<-other
			}
			return k, time.Second, nil
		})
		var wg sync.WaitGroup
		wg.Add(3)
		for i := 0; i < 2; i++ {
			go func() {
				defer wg.Done()
				if v, _, err := rc.Request(c, 1); v != 1 || err != nil {
					x.Failf("slow", "%d %v", v, err)
				}
			}()
		}
		go func() {
			defer wg.Done()
			if v, _, err := rc.Request(c, 2); v != 2 || err != nil {
				x.Failf("slow", "%d %v", v, err)
			}
			rc.Invalidate(c, 2)
			close(other)
		}()
		wg.Wait()
		if n := n.Tick() - 1; n != 2 {
			x.Failf("slow-loads", "%d loads", n)
		}
		return nil
	}})
	if mc.Thorough() {
		out = append(out,
			racing("three callers, any", 4, false, []int{1, 1, 1}, [][]int{{1, 2, 3}, {1, 2, 11, 3}, {1, 3, 11, 13}}, 2, 4),
			racing("two each", 4, false, []int{2, 2}, [][]int{{1, 2, 11, 20, 4}, {1, 2, 11, 20, 4}}, 1, 3),
			racing("too small, three", 2, true, []int{2, 1, 1}, [][]int{{1, 2}, {1, 2, 3}, {3, 11}}, 1, 3))
	}
	return out
}

func main() {
	mc.Main("C14", mc.Options{
		QuickBound: 4, ThoroughBound: 8,
		Rule:   "every sequence of requests with every kind of load, invalidations and passing time up to the depths given; caches of 5 to 33 entries with each one used and each one dropped before they overflow; every schedule of two or three racing callers up to the preemption bound, judged by which load each answer can come from",
		Assume: []string{"loads do not ask the cache for their own key"},
	}, scenarios)
}
