package main

import (
	"errors"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync/atomic"

	"github.com/Aize-Public/forego/ctx"
	fhttp "github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/utils"
	"verif.local/mc/lib/vk"
)

// frames of the caller's callers, the caller itself first
func frames() (out []runtime.Frame) {
	pc := make([]uintptr, 5000)
	it := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
	for {
		f, more := it.Next()
		out = append(out, f)
		if !more {
			return
		}
	}
}

func at(f runtime.Frame) string { return fmt.Sprintf("%s:%d", f.File, f.Line) }

// ways of getting from one call to the next, so that stacks are of every make
type via struct{}

func (via) method(f func())        { f() }
func (*via) pointer(f func())      { f() }
func generic[T any](_ T, f func()) { f() }

var links = []struct {
	name string
	call func(f func())
}{
	{"function", func(f func()) { f() }},
	{"method", func(f func()) { via{}.method(f) }},
	{"pointer method", func(f func()) { (&via{}).pointer(f) }},
	{"generic", func(f func()) { generic(1, f) }},
	{"deferred", func(f func()) { defer f() }},
	{"recovering", func(f func()) {
		defer func() { _ = recover(); f() }()
		panic("x")
	}},
	{"goroutine", func(f func()) {
		ch := make(chan bool)
		go func() { defer close(ch); f() }()
		<-ch
	}},
}

// the stack of an error is that of the place it was created, all of it; the helpers tell the place asked for
func stacks(k *vk.Check) {
	var n atomic.Int64
	base := errors.New("base")
	makers := []struct {
		name string
		make func(c ctx.C) (error, []runtime.Frame)
	}{
		{"NewErrorf", func(c ctx.C) (error, []runtime.Frame) { return ctx.NewErrorf(c, "x"), frames() }},
		{"NewErrorf %w", func(c ctx.C) (error, []runtime.Frame) { return ctx.NewErrorf(c, "x %w", base), frames() }},
		{"WrapError", func(c ctx.C) (error, []runtime.Frame) { return ctx.WrapError(c, base), frames() }},
		{"http.NewErrorf", func(c ctx.C) (error, []runtime.Frame) { return fhttp.NewErrorf(c, 404, "x"), frames() }},
	}
	judge := func(name, what string, err error, fs []runtime.Frame) {
		n.Add(1)
		var ce ctx.Error
		if !errors.As(err, &ce) {
			k.Violate("stack:"+name, what+": no stack", what)
			return
		}
		from := 0
		for from < 2 && from < len(ce.Stack) && ce.Stack[from] != at(fs[0]) {
			from++ // of the library itself
		}
		want := len(fs)
		if want > 90 {
			want = 90 // as many as anybody needs
		}
		for i := 0; i < want; i++ {
			if from+i >= len(ce.Stack) || ce.Stack[from+i] != at(fs[i]) {
				got := "nothing"
				if from+i < len(ce.Stack) {
					got = ce.Stack[from+i]
				}
				k.Violate("stack:"+name, fmt.Sprintf("%s: entry %d of the stack is %s, the call was at %s", what, i, got, at(fs[i])), what)
				return
			}
		}
		if len(fs) < 90 && len(ce.Stack)-from != len(fs) {
			k.Violate("stack:"+name, fmt.Sprintf("%s: the stack has %d entries, there were %d calls", what, len(ce.Stack)-from, len(fs)), what)
		}
	}
	chain := func(depth, a, b int, f func()) {
		var down func(i int)
		down = func(i int) {
			if i == depth {
				f()
				return
			}
			l := links[a]
			if i%2 == 1 {
				l = links[b]
			}
			l.call(func() { down(i + 1) })
		}
		down(0)
	}
	depths := []int{0, 1, 2, 3, 6, 13, 30}
	if k.Thorough() {
		depths = append(depths, 50, 70)
	}
	k.Par(int64(len(links)*len(links)), func(w *vk.Worker, i int64) {
		a, b := int(i)/len(links), int(i)%len(links)
		w.Note(fmt.Sprintf("calls by %s and %s", links[a].name, links[b].name))
		{
			for _, depth := range depths {
				what := fmt.Sprintf("%d calls by %s and %s", depth, links[a].name, links[b].name)
				for _, m := range makers {
					chain(depth, a, b, func() {
						err, fs := m.make(ctxs[0])
						judge(m.name, what+", "+m.name, err, fs)
						// and it stays, wrapped anywhere
						again := ctx.WrapError(ctxs[1], fmt.Errorf("y %w", err))
						judge(m.name, what+", wrapped, "+m.name, again, fs)
					})
				}
				chain(depth, a, b, func() {
					fs := frames()
					for above := 0; above <= len(fs)+1; above++ {
						n.Add(1)
						got, line := utils.Caller(above), 0
						if above == 0 {
							_, _, line, _ = runtime.Caller(0)
							line--
							line-- // the line of the call
						}
						switch {
						case above >= len(fs):
							if got != (utils.StackFrame{}) {
								k.Violate("caller", fmt.Sprintf("%s: Caller(%d) of %d is %v", what, above, len(fs), got), what)
							}
							continue
						case above == 0:
							if got.Func != fs[0].Function || got.File != fs[0].File || got.Line < fs[0].Line || got.Line > line {
								k.Violate("caller", fmt.Sprintf("%s: Caller(0) is %v, in %s", what, got, at(fs[0])), what)
							}
						default:
							if got != (utils.StackFrame{File: fs[above].File, Line: fs[above].Line, Func: fs[above].Function}) {
								k.Violate("caller", fmt.Sprintf("%s: Caller(%d) is %v, not %s", what, above, got, at(fs[above])), what)
							}
						}
						full := fs[above].Function
						last := full[strings.LastIndex(full, "/")+1:]
						name := strings.TrimSuffix(last, "[...]")
						name = name[strings.LastIndex(name, ".")+1:]
						if got.ShortFunc() != last || got.FuncName() != name {
							k.Violate("caller-name", fmt.Sprintf("%s is named %q and %q", full, got.ShortFunc(), got.FuncName()), full)
						}
						if above > 0 && got.FileLine() != at(fs[above]) {
							k.Violate("caller-name", fmt.Sprintf("%s is %s", at(fs[above]), got.FileLine()), full)
						}
						if _, err := os.Stat(got.File); err == nil && got.AbsFile() != got.File {
							k.Violate("caller-file", fmt.Sprintf("%s is found at %s", got.File, got.AbsFile()), full)
						}
					}
					for above := 0; above <= len(fs)+1; above++ {
						for max := 0; max <= len(fs)+2; max++ {
							if max > 3 && max < len(fs)-above-1 && max%11 != 0 || max > len(fs)-above+2 && max%11 != 0 {
								continue
							}
							n.Add(1)
							got := utils.Stack(above, max)
							want := len(fs) - above
							if want < 0 {
								want = 0
							}
							if want > max {
								want = max
							}
							ok := len(got) == want
							for i := 0; ok && i < want; i++ {
								if above+i > 0 {
									ok = got[i] == at(fs[above+i])
								}
							}
							if !ok {
								k.Violate("stack-helper", fmt.Sprintf("%s: Stack(%d,%d) is %v", what, above, max, got), what)
							}
						}
					}
				})
			}
		}
	})
	k.Evals(n.Load())
	k.Set("stacks", n.Load())
}
