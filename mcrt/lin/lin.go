// Package lin decides whether a recorded concurrent history is linearizable against a sequential specification.
package lin

import (
	"fmt"
	"strings"
)

// Op is one call: Call and Ret are positions in the history, Apply gives the state after the call and whether the recorded result fits the state before it.
type Op struct {
	Name      string
	Call, Ret int
	Apply     func(state string) (string, bool)
}

// Hist records calls; it needs no lock under the controlled scheduler, where one goroutine runs at a time.
type Hist struct {
	clock int
	Ops   []*Op
}

// Begin notes the call, the function it returns notes the return together with its meaning.
func (h *Hist) Begin() func(name string, apply func(state string) (string, bool)) {
	h.clock++
	op := &Op{Call: h.clock, Ret: 1 << 30}
	return func(name string, apply func(string) (string, bool)) {
		h.clock++
		op.Ret, op.Name, op.Apply = h.clock, name, apply
		h.Ops = append(h.Ops, op)
	}
}

// Check searches for an order of the calls that respects real time and the specification; final, if not nil, judges the state at the end.
func (h *Hist) Check(init string, final func(state string) bool) bool {
	n := len(h.Ops)
	if n > 20 {
		panic("history too long")
	}
	seen := map[string]bool{}
	var rec func(done int, state string) bool
	rec = func(done int, state string) bool {
		if done == 1<<n-1 {
			return final == nil || final(state)
		}
		key := fmt.Sprint(done, "|", state)
		if seen[key] {
			return false
		}
		seen[key] = true
		for i, o := range h.Ops {
			if done&(1<<i) != 0 {
				continue
			}
			first := true
			for j, p := range h.Ops {
				if j != i && done&(1<<j) == 0 && p.Ret < o.Call {
					first = false
					break
				}
			}
			if !first {
				continue
			}
			if s, ok := o.Apply(state); ok && rec(done|1<<i, s) {
				return true
			}
		}
		return false
	}
	return rec(0, init)
}

func (h *Hist) String() string {
	var b strings.Builder
	for _, o := range h.Ops {
		fmt.Fprintf(&b, "[%d..%d %s] ", o.Call, o.Ret, o.Name)
	}
	return b.String()
}
