//go:build mcrt

package mtime

import (
	"context"
	"time"

	"verif.local/mc/mcrt"
)

func init() {
	h := &context.MCHooks
	h.On = mcrt.On
	h.Point = func() { mcrt.Point(mcrt.OpCtx, nil) }
	h.Go = mcrt.GoQuiet
	h.Now = Now
	h.AfterFunc = func(d time.Duration, f func()) interface{ Stop() bool } {
		t := &Timer{m: mcrt.NewFuncTimer(f)}
		t.m.Arm(int64(d))
		return quiet{t}
	}
	h.Either = func(a, b <-chan struct{}) bool {
		x, y := mcrt.R(a), mcrt.R(b)
		s := mcrt.Select(false, x.Case(), y.Case())
		if s.I == 0 {
			x.Got(s)
			return true
		}
		y.Got(s)
		return false
	}
}

// quiet stops without a scheduling point: package context calls it with its own lock held.
type quiet struct{ t *Timer }

func (q quiet) Stop() bool { return q.t.m.Disarm() }
