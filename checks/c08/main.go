// C08: every small tree of contexts under every sequence of cancellations and passing time, and racing cancellations.
package main

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/Aize-Public/forego/ctx"

	"verif.local/mc/lib/mc"
	"verif.local/mc/mcrt"
)

type kind int

const (
	kCancel kind = iota
	kTimeout1
	kTimeout2
	kDetach
	kTag
	kSpan
	kTrack
	kDeadline
	kPast
	nKinds
)

var names = [...]string{"cancel", "timeout1s", "timeout3s", "detach", "tag", "span", "tracking", "deadline2s", "pastdeadline"}

type node struct {
	c        ctx.C
	kind     kind
	parent   *node
	cancel   func(error) // nil: can't be ended by itself
	plain    bool        // cancel takes no cause
	deadline int64       // virtual ns, 0 none
	ended    bool
	cause    error
	err      error
	vals     map[string]string
}

type vkey string

var causes = []error{errors.New("cause A"), errors.New("cause B"), nil}

func (n *node) String() string { return names[n.kind] }

// end marks n and what derives from it as ended.
func end(all []*node, n *node, err, cause error) {
	if n.ended {
		return
	}
	n.ended, n.err, n.cause = true, err, cause
	for _, m := range all {
		if m.parent == n && m.kind != kDetach {
			end(all, m, err, cause)
		}
	}
}

func build(x *mcrt.X, all []*node, hist *string, kinds int) []*node {
	p := all[mcrt.Choose(len(all))]
	return derive(x, all, hist, p, kind(mcrt.Choose(kinds)))
}

func derive(x *mcrt.X, all []*node, hist *string, p *node, k kind) []*node {
	n := &node{kind: k, parent: p, vals: map[string]string{}}
	for k, v := range p.vals {
		n.vals[k] = v
	}
	pi := 0
	for i, m := range all {
		if m == p {
			pi = i
		}
	}
	*hist += fmt.Sprintf(" %d=%s(%d)", len(all), names[k], pi)
	switch k {
	case kCancel:
		c, cf := ctx.WithCancel(p.c)
		n.c, n.cancel = c, cf
	case kSpan:
		c, cf := ctx.Span(p.c, "s")
		n.c, n.cancel = c, cf
	case kTimeout1, kTimeout2:
		d := time.Second
		if k == kTimeout2 {
			d = 3 * time.Second
		}
		c, cf := ctx.WithTimeout(p.c, d)
		n.c, n.cancel, n.plain = c, func(error) { cf() }, true
		n.deadline = mcrt.VNow() + int64(d)
	case kDeadline, kPast:
		d := 2 * time.Second
		if k == kPast {
			d = -time.Second
		}
		c, cf := ctx.WithDeadline(p.c, time.Now().Add(d))
		n.c, n.cancel, n.plain = c, func(error) { cf() }, true
		n.deadline = mcrt.VNow() + int64(d)
	case kDetach:
		n.c = ctx.Detach(p.c)
	case kTag:
		key := fmt.Sprint("k", len(all))
		n.vals[key] = `"v"`
		n.c = ctx.WithTag(p.c, key, "v")
	case kTrack:
		n.c = ctx.WithTracking(p.c, fmt.Sprint("t", len(all)))
	}
	all = append(all, n)
	if p.ended && k != kDetach {
		n.ended, n.err, n.cause = true, p.err, p.cause
	}
	expire(all)
	return all
}

// expire ends what is past its deadline, earliest first.
func expire(all []*node) {
	for {
		var best *node
		for _, n := range all {
			if !n.ended && n.deadline != 0 && n.deadline <= mcrt.VNow() && (best == nil || n.deadline < best.deadline) {
				best = n
			}
		}
		if best == nil {
			return
		}
		end(all, best, context.DeadlineExceeded, context.DeadlineExceeded)
	}
}

// effective deadline of n
func (n *node) eff() int64 {
	d := int64(0)
	for m := n; m != nil; m = m.parent {
		if m.deadline != 0 && (d == 0 || m.deadline < d) {
			d = m.deadline
		}
		if m.kind == kDetach {
			break
		}
	}
	return d
}

func verify(x *mcrt.X, all []*node, hist string) {
	for i, n := range all {
		done := false
		select {
		case <-n.c.Done():
			done = true
		default:
		}
		if done != n.ended {
			x.Failf("done:"+n.String(), "%s: context %d (%s) ended=%v, should be %v", hist, i, n, done, n.ended)
			continue
		}
		if n.c.Err() != n.err {
			x.Failf("err:"+n.String(), "%s: context %d (%s) Err()=%v, should be %v", hist, i, n, n.c.Err(), n.err)
		}
		if g := ctx.Cause(n.c); g != n.cause {
			x.Failf("cause:"+n.String(), "%s: context %d (%s) Cause=%v, should be %v", hist, i, n, g, n.cause)
		}
		dl, ok := n.c.Deadline()
		want := n.eff()
		if ok != (want != 0) {
			x.Failf("deadline:"+n.String(), "%s: context %d (%s) has a deadline: %v, should be %v", hist, i, n, ok, want != 0)
		} else if ok {
			if d := dl.Sub(base).Nanoseconds() - want; d > 1000 || d < -1000 {
				x.Failf("deadline-value:"+n.String(), "%s: context %d (%s) deadline %v off by %d", hist, i, n, dl, d)
			}
		}
		// values stay visible whatever ends
		got := map[string]string{}
		_ = ctx.RangeTag(n.c, func(k string, j ctx.JSON) error {
			if k[0] == 'k' {
				got[k] = string(j)
			}
			return nil
		})
		if fmt.Sprint(got) != fmt.Sprint(n.vals) {
			x.Failf("values:"+n.String(), "%s: context %d (%s) has tags %v, should be %v", hist, i, n, got, n.vals)
		}
		if n.c.Value(vkey("root")) != "yes" {
			x.Failf("root-value:"+n.String(), "%s: context %d (%s) lost its root's value", hist, i, n)
		}
	}
}

var base time.Time

func tree(name string, nodes, events, kinds int, thorough bool) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, MaxBound: -1, NoUnlockPoints: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		base = time.Now().Add(-time.Duration(mcrt.VNow()))
		c, cf := ctx.Background()
		c = ctx.WithValue(c, vkey("root"), "yes")
		all := []*node{{c: c, kind: kCancel, cancel: cf, vals: map[string]string{}}}
		hist := "0=root"
		for i := 1; i < nodes; i++ {
			all = build(x, all, &hist, kinds)
		}
		verify(x, all, hist)
		for e := 0; e < events; e++ {
			// an event: cancel a node, let time pass, or derive one more context
			i := mcrt.Choose(len(all) + 2)
			switch {
			case i == len(all):
				hist += " sleep"
				time.Sleep(1500 * time.Millisecond)
				expire(all)
			case i == len(all)+1:
				if e > 0 && len(all) < nodes+2 {
					all = build(x, all, &hist, kinds)
				}
			default:
				n := all[i]
				if n.cancel == nil {
					return nil // nothing new: a context that can't be ended by itself
				}
				cause := causes[e%3]
				hist += fmt.Sprintf(" end(%d,%v)", i, cause)
				n.cancel(cause)
				if n.plain || cause == nil {
					cause = context.Canceled
				}
				end(all, n, context.Canceled, cause)
			}
			verify(x, all, hist)
			if len(hist) == 0 {
				break
			}
		}
		return nil
	}}
}

// large: long chains, wide stars and combs, one of them ended, or time passing, and another ended after it.
func large() *mcrt.Scenario {
	sizes := []int{9, 17, 40, 70}
	return &mcrt.Scenario{Name: "large trees", MaxBound: -1, NoUnlockPoints: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		base = time.Now().Add(-time.Duration(mcrt.VNow()))
		c, cf := ctx.Background()
		c = ctx.WithValue(c, vkey("root"), "yes")
		all := []*node{{c: c, kind: kCancel, cancel: cf, vals: map[string]string{}}}
		size := sizes[mcrt.Choose(len(sizes))]
		shape := mcrt.Choose(3)
		a := kind(mcrt.Choose(int(nKinds)))
		b := []kind{kCancel, kDetach, kTag, kSpan, nKinds}[mcrt.Choose(5)]
		hist := ""
		for i := 1; i < size; i++ {
			k := a
			if i%5 != 0 {
				k = b
			}
			if b == nKinds {
				k = (a + kind(i*i/3)) % nKinds
			}
			if k == kPast && i < size-2 {
				k = kTrack
			}
			p := all[i-1]
			switch shape {
			case 1:
				p = all[min(i-1, 1)]
			case 2:
				p = all[(i-1)/2]
			}
			all = derive(x, all, &hist, p, k)
		}
		what := fmt.Sprintf("%d contexts, shape %d, kinds %s and %v", size, shape, names[a], b)
		verify(x, all, what)
		at := []int{0, 1, size / 2, size - 1}
		for e := 0; e < 2; e++ {
			i := mcrt.Choose(len(at) + 1)
			if i == len(at) {
				what += ", sleep"
				time.Sleep(1500 * time.Millisecond)
				expire(all)
			} else {
				n := all[at[i]]
				for n.cancel == nil {
					n = n.parent
				}
				what += fmt.Sprintf(", end %d", at[i])
				cause := causes[e]
				n.cancel(cause)
				if n.plain {
					cause = context.Canceled
				}
				end(all, n, context.Canceled, cause)
			}
			verify(x, all, what)
		}
		return nil
	}}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// oneOf fails unless err is one of the given causes.
func oneOf(x *mcrt.X, what string, err error, of ...error) {
	for _, e := range of {
		if err == e {
			return
		}
	}
	x.Failf("racing-cause:"+what, "%s reports cause %v, not one of %v", what, err, of)
}

func scenarios() []*mcrt.Scenario {
	out := []*mcrt.Scenario{
		large(),
		tree("trees of 3, 3 events", 3, 3, int(nKinds), false),
		tree("trees of 4, 2 events", 4, 2, int(kTag)+1, false),
	}
	if mc.Thorough() {
		out = append(out, tree("trees of 4, 3 events", 4, 3, int(kTag)+1, true), tree("trees of 5, 2 events", 5, 2, int(kTag)+1, true), tree("trees of 4 of all kinds, 2 events", 4, 2, int(nKinds), true))
	}
	eA, eB := causes[0], causes[1]
	add := func(name string, body func(x *mcrt.X)) {
		out = append(out, &mcrt.Scenario{Name: name, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) { body(x); return nil }})
	}
	add("parent and child ended at once", func(x *mcrt.X) {
		p, pf := ctx.WithCancel(ctx.TODO())
		s, sf := ctx.Span(ctx.WithTag(p, "a", 1), "s")
		g := ctx.WithTag(s, "b", 2)
		d, df := ctx.WithCancel(ctx.Detach(g))
		var wg sync.WaitGroup
		wg.Add(3)
		go func() { defer wg.Done(); pf(eA) }()
		go func() { defer wg.Done(); sf(eB) }()
		go func() {
			defer wg.Done()
			<-g.Done()
			first := ctx.Cause(g)
			oneOf(x, "grandchild", first, eA, eB)
			if g.Err() != context.Canceled {
				x.Failf("err", "Err is %v", g.Err())
			}
			mcrt.Yield()
			if again := ctx.Cause(g); again != first {
				x.Failf("cause-changed", "the cause changed from %v to %v", first, again)
			}
			x.Outf("%v", first)
		}()
		wg.Wait()
		oneOf(x, "parent", ctx.Cause(p), eA)
		oneOf(x, "child", ctx.Cause(s), eA, eB)
		if ctx.Cause(s) != ctx.Cause(g) {
			x.Failf("inherit", "a tagged context reports %v, the one it derives from %v", ctx.Cause(g), ctx.Cause(s))
		}
		if d.Err() != nil || ctx.Cause(d) != nil {
			x.Failf("detached", "the detached context ended: %v %v", d.Err(), ctx.Cause(d))
		}
		df(eB)
		oneOf(x, "detached", ctx.Cause(d), eB)
	})
	add("derived while its parent ends", func(x *mcrt.X) {
		p, pf := ctx.WithCancel(ctx.TODO())
		go pf(eA)
		s, _ := ctx.Span(p, "s")
		t, tf := ctx.WithTimeout(ctx.WithTag(s, "k", 1), time.Hour)
		defer tf()
		d := ctx.Detach(t)
		<-s.Done()
		<-p.Done()
		select {
		case <-t.Done():
			oneOf(x, "timeout", ctx.Cause(t), eA, context.DeadlineExceeded)
		default:
			<-t.Done() // must follow its parent
		}
		if d.Err() != nil || ctx.Cause(d) != nil {
			x.Failf("detached", "the detached context ended: %v %v", d.Err(), ctx.Cause(d))
		}
		oneOf(x, "span", ctx.Cause(s), eA)
	})
	add("deadline against cancel", func(x *mcrt.X) {
		p, pf := ctx.WithCancel(ctx.TODO())
		t, tf := ctx.WithTimeout(p, time.Second)
		defer tf()
		u, uf := ctx.WithDeadline(ctx.Detach(t), time.Now().Add(2*time.Second))
		defer uf()
		fin := make(chan struct{})
		go func() { defer close(fin); time.Sleep(time.Second); pf(eA) }()
		<-t.Done()
		oneOf(x, "timeout", ctx.Cause(t), eA, context.DeadlineExceeded)
		<-u.Done()
		oneOf(x, "detached deadline", ctx.Cause(u), context.DeadlineExceeded)
		<-fin
		x.Outf("%v", ctx.Cause(t))
	})
	add("one context ended twice at once", func(x *mcrt.X) {
		p, pf := ctx.Background()
		var wg sync.WaitGroup
		wg.Add(2)
		var seen [2]error
		for i := 0; i < 2; i++ {
			i := i
			go func() {
				defer wg.Done()
				if i == 0 {
					pf(eA)
				} else {
					pf.Exit()
				}
				seen[i] = ctx.Cause(p)
			}()
		}
		wg.Wait()
		if seen[0] != seen[1] || seen[0] != ctx.Cause(p) {
			x.Failf("agree", "causes seen: %v", seen)
		}
		oneOf(x, "context", seen[0], eA, context.Canceled)
		x.Outf("%v", seen[0])
	})
	return out
}

func main() {
	mc.Main("C08", mc.Options{
		QuickBound: 3, ThoroughBound: 6,
		Rule:   "every tree of up to 3 derived contexts of every kind and every sequence of up to 3 cancellations, time steps and further derivations; chains, stars and binary trees of up to 70 contexts with every pair of cancellations or steps of time at chosen places; racing cancellations under every schedule up to the preemption bound",
		Assume: []string{"package context of the standard library is correct (its clock and its cancel functions are driven by the scheduler)"},
	}, scenarios)
}
