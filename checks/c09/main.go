// C09: every expression of error constructors and wrappers up to a depth, against a model of what it wraps.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"

	"github.com/Aize-Public/forego/ctx"
	fhttp "github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/utils"
	"verif.local/mc/lib/vk"
)

// ---- causes of every kind

type valErr struct{ n int }

func (e valErr) Error() string { return fmt.Sprint("value error ", e.n) }

type ptrErr struct{ n int }

func (e *ptrErr) Error() string { return fmt.Sprint("pointer error ", e.n) }

type sliceErr []string // can't be compared

func (e sliceErr) Error() string { return strings.Join(e, "+") }

type isErr struct{}

func (isErr) Error() string        { return "is error" }
func (isErr) Is(target error) bool { return target == errAlias }

type transparent struct {
	why string
	err error
}

func (t transparent) Error() string { return t.why + t.err.Error() }
func (t transparent) Unwrap() error { return t.err }

var (
	errPlain = errors.New("plain %d cause")
	errAlias = errors.New("alias")
	thePtr   = &ptrErr{2}
	theSlice = sliceErr{"x", "y"}
	probes   = []error{io.EOF, errPlain, valErr{1}, valErr{9}, thePtr, isErr{}, errAlias, context.Canceled, io.ErrUnexpectedEOF}
	ctxs     []ctx.C
)

const (
	iEOF = 1 << iota
	iPlain
	iVal
	iVal9
	iPtr
	iIs
	iAlias
	iCanceled
	iUnexp
	iSlice
)

// origin is where a ctx.Error was created.
type origin struct {
	c  ctx.C
	at string
}

type expr struct {
	err     error
	wraps   int // bitmask of probes it must match
	texts   []string
	origins []origin // of the ctx.Errors it contains, first created first on each path
	code    int      // of the outermost http.Error, 0 none
	desc    string
}

func here() string {
	_, f, l, _ := runtime.Caller(1)
	return fmt.Sprintf("%s:%d", f, l)
}

func leaves() []expr {
	mk := func(e error, bits int) expr {
		return expr{err: e, wraps: bits, texts: []string{e.Error()}, desc: fmt.Sprintf("%T", e)}
	}
	out := []expr{
		mk(io.EOF, iEOF), mk(errPlain, iPlain), mk(valErr{1}, iVal), mk(thePtr, iPtr), mk(theSlice, iSlice), mk(isErr{}, iIs|iAlias), mk(context.Canceled, iCanceled),
	}
	e, at := ctx.NewErrorf(ctxs[0], "fresh %d", 5), here()
	out = append(out, expr{err: e, texts: []string{"fresh 5"}, origins: []origin{{ctxs[0], at}}, desc: "NewErrorf"})
	h, at := fhttp.NewErrorf(ctxs[0], 404, "gone %s", "x"), here()
	out = append(out, expr{err: h, texts: []string{"gone x", "404"}, origins: []origin{{ctxs[0], at}}, code: 404, desc: "http.NewErrorf"})
	out = append(out, expr{err: fhttp.Error{Code: 418}, texts: []string{"418"}, code: 418, desc: "http.Error"})
	return out
}

// fresh gives what a wrapper that creates the ctx.Error adds when there is none yet.
func (x expr) origin(c ctx.C, at string) []origin {
	if len(x.origins) > 0 {
		return x.origins
	}
	return []origin{{c, at}}
}

func (x expr) with(err error, desc string, texts ...string) expr {
	return expr{err: err, wraps: x.wraps, texts: append(append([]string{}, texts...), x.texts...), origins: x.origins, code: x.code, desc: desc + "(" + x.desc + ")"}
}

type unary func(x expr, c ctx.C) expr

var unaries = []unary{
	func(x expr, c ctx.C) expr {
		e, at := ctx.WrapError(c, x.err), here()
		y := x.with(e, "WrapError")
		y.origins = x.origin(c, at)
		return y
	},
	func(x expr, c ctx.C) expr {
		e, at := ctx.NewErrorf(c, "while %q: %w", "doing", x.err), here()
		y := x.with(e, "NewErrorf%w", `while "doing": `)
		y.origins = x.origin(c, at)
		return y
	},
	func(x expr, c ctx.C) expr {
		e, at := ctx.NewErrorf(c, "%w", x.err), here()
		y := x.with(e, "NewErrorf%w")
		y.origins = x.origin(c, at)
		return y
	},
	func(x expr, c ctx.C) expr { // only the text survives
		e, at := ctx.NewErrorf(c, "text %v", x.err), here()
		y := x.with(e, "NewErrorf%v", "text ")
		y.origins, y.wraps, y.code = []origin{{c, at}}, 0, 0
		return y
	},
	func(x expr, c ctx.C) expr { return x.with(fmt.Errorf("fmt %w", x.err), "Errorf", "fmt ") },
	func(x expr, c ctx.C) expr { return x.with(transparent{"seen ", x.err}, "custom", "seen ") },
	func(x expr, c ctx.C) expr {
		e, at := fhttp.NewErrorf(c, 400, "bad %w", x.err), here()
		y := x.with(e, "http.NewErrorf", "400", "bad ")
		y.origins, y.code = x.origin(c, at), 400
		return y
	},
	func(x expr, c ctx.C) expr {
		y := x.with(fhttp.Error{Code: 500, Err: x.err}, "http.Error", "500")
		y.code = 500
		return y
	},
	func(x expr, c ctx.C) expr { // two things wrapped at once, the other one plain
		e, at := ctx.NewErrorf(c, "%w and %w", io.ErrUnexpectedEOF, x.err), here()
		y := x.with(e, "NewErrorf%w%w", "unexpected EOF and ")
		y.wraps |= iUnexp
		y.origins = x.origin(c, at)
		return y
	},
	func(x expr, c ctx.C) expr { // a pointer to the error type
		var ce ctx.Error
		if errors.As(x.err, &ce) {
			if v, ok := x.err.(ctx.Error); ok {
				return x.with(&v, "pointer")
			}
		}
		return x.with(errors.Join(nil, x.err, nil), "Join1")
	},
}

type binary func(a, b expr, c ctx.C) expr

var binaries = []binary{
	func(a, b expr, c ctx.C) expr {
		y := a.with(errors.Join(a.err, b.err), "Join")
		return y.merge(b, a)
	},
	func(a, b expr, c ctx.C) expr {
		e, at := ctx.NewErrorf(c, "%w then %w", a.err, b.err), here()
		y := a.with(e, "NewErrorf2", " then ").merge(b, a)
		if len(y.origins) == 0 {
			y.origins = []origin{{c, at}}
		}
		return y
	},
	func(a, b expr, c ctx.C) expr {
		e, at := ctx.WrapError(c, errors.Join(a.err, b.err)), here()
		y := a.with(e, "WrapJoin").merge(b, a)
		if len(y.origins) == 0 {
			y.origins = []origin{{c, at}}
		}
		return y
	},
	func(a, b expr, c ctx.C) expr { // the second one as text only
		e, at := ctx.NewErrorf(c, "%w because %v", a.err, b.err), here()
		y := a.with(e, "NewErrorf%w%v", " because ")
		y.texts = append(y.texts, b.texts...)
		y.origins = a.origin(c, at)
		return y
	},
}

func (y expr) merge(b, a expr) expr {
	y.wraps = a.wraps | b.wraps
	y.texts = append(y.texts, b.texts...)
	y.origins = append(append([]origin{}, a.origins...), b.origins...)
	if y.code == 0 {
		y.code = b.code
	}
	y.desc += "," + b.desc
	return y
}

// nesting is the largest number of ctx.Errors on one path.
func nesting(e error) int {
	n := 0
	switch x := e.(type) {
	case interface{ Unwrap() error }:
		if u := x.Unwrap(); u != nil {
			n = nesting(u)
		}
	case interface{ Unwrap() []error }:
		for _, u := range x.Unwrap() {
			if m := nesting(u); m > n {
				n = m
			}
		}
	}
	switch e.(type) {
	case ctx.Error, *ctx.Error:
		n++
	}
	return n
}

func verify(k *vk.Check, x expr) {
	bad := func(key, f string, args ...any) {
		k.Violate(key, x.desc+": "+fmt.Sprintf(f, args...), map[string]any{"expression": x.desc, "error": x.err.Error()})
	}
	if x.err == nil {
		k.Violate("lost", x.desc+": gave nil", map[string]any{"expression": x.desc})
		return
	}
	for i, p := range probes {
		want := x.wraps&(1<<uint(i)) != 0
		if got := errors.Is(x.err, p); got != want {
			bad(fmt.Sprintf("is:%T:%v", p, want), "errors.Is(%v) is %v", p, got)
		}
	}
	var v valErr
	if got, want := errors.As(x.err, &v), x.wraps&iVal != 0; got != want || got && v.n != 1 {
		bad("as:value", "errors.As(value) is %v %v", got, v)
	}
	var p *ptrErr
	if got, want := errors.As(x.err, &p), x.wraps&iPtr != 0; got != want || got && p != thePtr {
		bad("as:pointer", "errors.As(pointer) is %v", got)
	}
	var s sliceErr
	if got, want := errors.As(x.err, &s), x.wraps&iSlice != 0; got != want || got && len(s) != 2 {
		bad("as:slice", "errors.As(slice) is %v", got)
	}
	msg := x.err.Error()
	for _, t := range x.texts {
		if !strings.Contains(msg, t) {
			bad("message", "message %q does not contain %q", msg, t)
		}
	}
	var ce ctx.Error
	var pce *ctx.Error
	has := errors.As(x.err, &ce)
	if !has && errors.As(x.err, &pce) {
		ce, has = *pce, true
	}
	if has != (len(x.origins) > 0) {
		bad("origin", "carries a stack: %v, should be %v", has, !has)
	} else if has {
		ok := false
		for _, o := range x.origins {
			if ce.C != nil && fmt.Sprint(o.c.Value("level")) == fmt.Sprint(ce.C.Value("level")) && len(ce.Stack) > 0 && (ce.Stack[0] == o.at || len(ce.Stack) > 1 && ce.Stack[1] == o.at) {
				ok = true
			}
		}
		if !ok {
			top := ce.Stack
			if len(top) > 2 {
				top = top[:2]
			}
			bad("origin-place", "carries the stack %v, created at %v", top, x.origins)
		}
	}
	if n := nesting(x.err); n > 1 {
		bad("nested", "wrapped %d times in a row", n)
	}
	if code := fhttp.ErrorCode(x.err, -1); x.code == 0 && code != -1 || x.code != 0 && code != x.code {
		bad("code", "http code %d, should be %d", code, x.code)
	}
}

// gates: every nesting of gates and every signal that can come back through them
func gates(k *vk.Check) int {
	n := 0
	for depth := 1; depth <= 4; depth++ {
		for which := -1; which <= depth; which++ { // -1: nil, depth: a foreign error, otherwise the gate whose signal comes back
			for wrap := 0; wrap < 4; wrap++ {
				foreign := errors.New("foreign")
				passed := make([]bool, depth) // gate i returned an error
				var sig []error
				var run func(i int) error
				run = func(i int) error {
					err := utils.ErrorGate(func(e error) error {
						sig = append(sig, e)
						var r error
						if i+1 < depth {
							r = run(i + 1)
						} else {
							switch {
							case which < 0:
								return nil
							case which == depth:
								r = foreign
							default:
								r = sig[which]
							}
						}
						if r == nil {
							return nil
						}
						switch wrap {
						case 1:
							return ctx.NewErrorf(ctxs[0], "w %w", r)
						case 2:
							return fmt.Errorf("f %w", r)
						case 3:
							return ctx.WrapError(ctxs[0], errors.Join(r, io.EOF))
						}
						return r
					})
					passed[i] = err != nil
					return err
				}
				err := run(0)
				n++
				for i := range passed {
					want := which == depth || which >= 0 && i > which
					if passed[i] != want {
						k.Violate(fmt.Sprintf("gate:%v", want), fmt.Sprintf("%d nested gates, signal of gate %d comes back: gate %d lets it pass: %v", depth, which, i, passed[i]),
							map[string]any{"depth": depth, "signal": which, "wrap": wrap})
					}
				}
				if (err != nil) != (which == depth) || which == depth && !errors.Is(err, foreign) {
					k.Violate("gate-result", fmt.Sprintf("%d nested gates, signal %d: result %v", depth, which, err), nil)
				}
			}
		}
	}
	return n
}

func main() {
	for i := 0; i < 4; i++ {
		ctxs = append(ctxs, ctx.WithTag(ctx.TODO(), "level", i))
	}
	vk.Main("C09", "exploration", func(k *vk.Check) {
		k.Rule("every expression over 10 causes, 10 unary and 4 binary wrappers to the depth given, each checked against a model of what it wraps and where it was created")
		if e := ctx.WrapError(ctxs[0], nil); e != nil {
			k.Violate("nil", fmt.Sprintf("WrapError(nil) is %v", e), nil)
		}
		if e := ctx.WrapError(nil, nil); e != nil {
			k.Violate("nil", fmt.Sprintf("WrapError(nil) is %v", e), nil)
		}
		lv := [][]expr{leaves()}
		for d := 1; d <= 2; d++ {
			var next []expr
			prev := lv[d-1]
			for _, a := range prev {
				for _, u := range unaries {
					next = append(next, u(a, ctxs[d]))
				}
			}
			if d == 1 {
				for _, a := range prev {
					for _, b := range prev {
						for _, f := range binaries {
							next = append(next, f(a, b, ctxs[d]))
						}
					}
				}
			}
			lv = append(lv, next)
		}
		var all []expr
		for d, l := range lv {
			k.Set(fmt.Sprintf("expressions_depth_%d", d+1), len(l))
			all = append(all, l...)
		}
		w0 := k.NewWorker(0)
		var mu sync.Mutex
		outcomes := map[string]int64{}
		one := func(w *vk.Worker, x expr) {
			w.Ev++
			if len(x.origins) > 0 {
				w.Nt++
			}
			if p := vk.Catch(func() error { verify(k, x); return nil }); p != nil {
				k.Violate("panic", x.desc+": "+p.Error(), map[string]any{"expression": x.desc})
			}
			w.Out(fmt.Sprintf("wraps=%x origin=%v code=%d", x.wraps, len(x.origins) > 0, x.code))
		}
		_, _ = &mu, outcomes
		k.Par(int64(len(all)), func(w *vk.Worker, i int64) { one(w, all[i]) })
		// depth 3 binary: small with everything; deeper unary chains
		small := append(append([]expr{}, lv[0]...), lv[1]...)
		k.Par(int64(len(small)), func(w *vk.Worker, i int64) {
			a := small[i]
			w.Note(a.desc)
			for _, b := range small {
				for _, f := range binaries {
					x := f(a, b, ctxs[2])
					one(w, x)
				}
			}
		})
		base := lv[2]
		if k.Thorough() {
			k.Par(int64(len(small)), func(w *vk.Worker, i int64) {
				for _, b := range small {
					for _, f := range binaries {
						x := f(small[i], b, ctxs[2])
						for _, u := range unaries {
							one(w, u(x, ctxs[3]))
						}
					}
				}
			})
		}
		k.Par(int64(len(base)), func(w *vk.Worker, i int64) {
			for _, u := range unaries {
				x := u(base[i], ctxs[3])
				one(w, x)
				for _, v := range unaries {
					one(w, v(x, ctxs[1]))
				}
			}
		})
		// long: two wrappers in turn on every cause, wide joins and long folds of causes
		lengths := []int{6, 9, 17, 40, 70}
		nu := len(unaries)
		k.Par(int64(len(lv[0])*nu*nu), func(w *vk.Worker, i int64) {
			x := lv[0][int(i)/(nu*nu)]
			u, v := unaries[int(i)/nu%nu], unaries[int(i)%nu]
			n := 0
			for j := 1; j <= lengths[len(lengths)-1]; j++ {
				if j%2 == 1 {
					x = u(x, ctxs[1])
				} else {
					x = v(x, ctxs[2])
				}
				if j == lengths[n] {
					n++
					one(w, x)
				}
			}
		})
		k.Par(int64(len(binaries)*len(lv[0])*2), func(w *vk.Worker, i int64) {
			f, first, left := binaries[int(i)/(2*len(lv[0]))], int(i)/2%len(lv[0]), i%2 == 0
			x := lv[0][first]
			n := 0
			for j := 1; j <= lengths[len(lengths)-1]; j++ {
				b := lv[0][(first+j*j)%len(lv[0])]
				if left {
					x = f(x, b, ctxs[1])
				} else {
					x = f(b, x, ctxs[1])
				}
				if j == lengths[n] {
					n++
					one(w, x)
				}
			}
		})
		// deep: created far down the stack
		for _, depth := range []int{1, 10, 30, 40, 70, 130, 300, 1000} {
			for _, x := range append(append([]expr{}, lv[0]...), lv[1]...) {
				for _, u := range unaries {
					var y expr
					var down func(n int)
					down = func(n int) {
						if n > 0 {
							down(n - 1)
							return
						}
						y = u(x, ctxs[2])
					}
					down(depth)
					y.desc = fmt.Sprintf("%s, %d calls deep", y.desc, depth)
					one(w0, y)
				}
			}
		}
		w0.Flush()
		stacks(k)
		k.Evals(int64(gates(k)))
		k.Sample("expression", all[len(all)/2].desc)
		k.Sample("expression", all[len(all)-1].desc+" => "+all[len(all)-1].err.Error())
		k.Assume("the standard library's errors and fmt packages are correct")
	})
}
