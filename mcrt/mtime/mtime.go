// Package mtime stands in for the parts of package time that read the clock or wait.
package mtime

import (
	"time"

	"verif.local/mc/mcrt"
)

// Base is where virtual time starts.
var Base = time.Date(2024, 1, 2, 3, 4, 5, 0, time.UTC)

func Now() time.Time {
	if !mcrt.On() {
		return time.Now()
	}
	return Base.Add(time.Duration(mcrt.Now()))
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	if !mcrt.On() {
		time.Sleep(d)
		return
	}
	mcrt.Sleep(int64(d))
}

type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	m    *mcrt.Timer
	real *time.Timer
}

func NewTimer(d time.Duration) *Timer {
	if !mcrt.On() {
		t := time.NewTimer(d)
		return &Timer{C: t.C, real: t}
	}
	mcrt.Point(mcrt.OpTimer, nil)
	t := newChan()
	t.m.Arm(int64(d))
	return t
}

func newChan() *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.m = mcrt.NewChanTimer(func() {
		select {
		case c <- Base.Add(time.Duration(mcrt.VNow())):
		default:
		}
	})
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	if !mcrt.On() {
		return &Timer{real: time.AfterFunc(d, f)}
	}
	mcrt.Point(mcrt.OpTimer, nil)
	t := &Timer{m: mcrt.NewFuncTimer(f)}
	t.m.Arm(int64(d))
	return t
}

func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	mcrt.Point(mcrt.OpTimer, nil)
	return t.m.Disarm()
}

func (t *Timer) Reset(d time.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	mcrt.Point(mcrt.OpTimer, nil)
	was := t.m.Disarm()
	t.m.Arm(int64(d))
	return was
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Ticker struct {
	C    <-chan time.Time
	t    *Timer
	real *time.Ticker
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if !mcrt.On() {
		r := time.NewTicker(d)
		return &Ticker{C: r.C, real: r}
	}
	mcrt.Point(mcrt.OpTimer, nil)
	t := newChan()
	t.m.SetPeriod(int64(d))
	t.m.Arm(int64(d))
	return &Ticker{C: t.C, t: t}
}
func (t *Ticker) Stop() {
	if t.real != nil {
		t.real.Stop()
		return
	}
	t.t.Stop()
}
func (t *Ticker) Reset(d time.Duration) {
	if t.real != nil {
		t.real.Reset(d)
		return
	}
	t.t.m.SetPeriod(int64(d))
	t.t.Reset(d)
}
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
