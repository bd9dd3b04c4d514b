// Package msignal stands in for os/signal in instrumented code.
package msignal

import (
	"context"
	"os"
	"os/signal"

	"verif.local/mc/mcrt"
)

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	if !mcrt.On() {
		signal.Notify(c, sig...)
		return
	}
	mcrt.SignalNotify(c, sig...)
}
func Stop(c chan<- os.Signal) {
	if !mcrt.On() {
		signal.Stop(c)
		return
	}
	mcrt.SignalStop(c)
}
func Ignore(sig ...os.Signal)    {}
func Ignored(sig os.Signal) bool { return false }
func Reset(sig ...os.Signal)     {}
func NotifyContext(parent context.Context, signals ...os.Signal) (context.Context, context.CancelFunc) {
	c, cf := context.WithCancel(parent)
	ch := make(chan os.Signal, 1)
	Notify(ch, signals...)
	mcrt.Go(func() {
		r, d := mcrt.R(ch), mcrt.R(c.Done())
		mcrt.Select(false, r.Case(), d.Case())
		cf()
	})
	return c, func() { cf(); Stop(ch) }
}
