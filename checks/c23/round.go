package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/http"

	"verif.local/mc/lib/vk"
	"verif.local/mc/lib/vtest"
)

// ---------------------------------------------------------------- round trips: client, server, client

var errTrip = errors.New("the action failed")

// probe is what the action saw, shared by reference
type probe struct {
	runs  int
	self  any
	in    any
	state any
	user  any
	out   any
	fails bool
}

// trip is an operation over one type, for one kind of user
type trip[V, U any] struct {
	R    api.Request `url:"/trip"`
	User U           `api:"auth"`
	In   V           `api:"in" json:"in"`
	Req  V           `api:"in,required" json:"req"`
	Both V           `api:"both" json:"both"`
	Out  V           `api:"out" json:"out"`
	Free V           // state
	None V           `json:"none"`
	P    *probe
}

func (o *trip[V, U]) Do(c ctx.C) error {
	p := o.P
	p.runs++
	p.self, p.in, p.state, p.user = o, []any{o.In, o.Req, o.Both}, []any{o.Free, o.None}, o.User
	if p.fails {
		return ctx.NewErrorf(c, "it: %w", errTrip)
	}
	var zero V
	o.Out, o.Both = o.Req, o.In
	o.In, o.Req, o.Free, o.None = zero, zero, zero, zero
	return nil
}

// must is one that needs a user
type must[V, U any] struct {
	User U `api:"auth,required"`
	In   V `api:"in"`
	Out  V `api:"out"`
	P    *probe
}

func (o *must[V, U]) Do(c ctx.C) error {
	o.P.runs++
	o.P.user = o.User
	o.Out = o.In
	return nil
}

func trips[V, U any](k *vk.Check, name string, vals []V, users []any, wantUser func(any) (any, bool)) {
	c := ctx.TODO()
	fail := func(key, f string, a ...any) { k.Violate("trip-"+key, name+": "+fmt.Sprintf(f, a...), name) }
	for _, in := range vals {
		for _, req := range vals {
			for _, both := range vals {
				for i, uid := range users {
					for _, fails := range []bool{false, true} {
						k.Evals(1)
						p := &probe{fails: fails}
						o := &trip[V, U]{In: in, Req: req, Both: both, Out: both, Free: in, None: req, P: p}
						var zero U
						err := vk.Catch(func() error { return http.TestAPI(c, uid, o) })
						what := fmt.Sprintf("in=%#v req=%#v both=%#v by %#v", in, req, both, uid)
						if pn, ok := vk.IsPanic(err); ok {
							fail("panic", "%s: %v", what, pn.Val)
							return
						}
						wu, okUser := wantUser(uid)
						missing := reflect.ValueOf(&req).Elem().IsZero()
						wantErr := fails || missing || !okUser
						if (err != nil) != wantErr {
							fail("result", "%s: error %v, an error is expected: %v", what, err, wantErr)
							continue
						}
						runs := 1
						if missing || !okUser {
							runs = 0
						}
						if p.runs != runs {
							fail("runs", "%s: the action ran %d times, not %d", what, p.runs, runs)
							continue
						}
						if runs == 1 {
							if fails && !errors.Is(err, errTrip) {
								fail("error", "%s: %v is not the action's error", what, err)
							}
							if p.self == any(o) {
								fail("fresh", "%s: the action ran on the caller's object", what)
							}
							if !eq(p.in, []any{in, req, both}) {
								fail("in", "%s: the action saw %#v", what, p.in)
							}
							if !eq(p.state, []any{in, req}) {
								fail("state", "%s: the action saw the state %#v", what, p.state)
							}
							if !eq(p.user, wu) {
								fail("user", "%s: the action saw the user %#v, not %#v", what, p.user, wu)
							}
						}
						want := &trip[V, U]{In: in, Req: req, Both: both, Out: both, Free: in, None: req, P: p, User: zero}
						if !wantErr {
							want.Out, want.Both = req, in
						}
						if !eq(o, want) {
							fail("out", "%s: the caller has %+v, not %+v (%v)", what, o, want, err)
						}
						k.Nontrivial(1)
						if i > 0 && fails {
							break
						}
					}
				}
			}
		}
	}
	for _, in := range vals {
		for _, uid := range users {
			k.Evals(1)
			p := &probe{}
			o := &must[V, U]{In: in, P: p}
			err := vk.Catch(func() error { return http.TestAPI(c, uid, o) })
			wu, okUser := wantUser(uid)
			okUser = okUser && uid != nil
			if pn, ok := vk.IsPanic(err); ok {
				fail("panic", "%#v by %#v: %v", in, uid, pn.Val)
			} else if okUser != (err == nil) || okUser != (p.runs == 1) {
				fail("auth", "%#v by %#v: error %v, the action ran %d times", in, uid, err, p.runs)
			} else if okUser && (!eq(o.Out, in) || !eq(p.user, wu)) {
				fail("auth", "%#v by %#v: %#v, the action saw the user %#v", in, uid, o.Out, p.user)
			}
		}
	}
	// api.Test does the same in a test, by nobody
	type result struct {
		what, bad string
	}
	var results []result
	test := func(what string, wantFail bool, p *probe, f func(t *testing.T) bool) {
		k.Evals(1)
		r := result{what: what}
		returned, good, failed := false, false, false
		vtest.Run([]testing.InternalTest{{Name: "trip", F: func(t *testing.T) {
			t.Run("x", func(t *testing.T) {
				defer func() { failed = t.Failed() }()
				good = f(t)
				returned = true
			})
		}}})
		switch {
		case failed != wantFail || returned == wantFail:
			r.bad = fmt.Sprintf("the test fails: %v, it should: %v; it goes on: %v", failed, wantFail, returned)
		case returned && !good:
			r.bad = "the caller does not have the outputs"
		}
		results = append(results, r)
	}
	for _, in := range vals {
		for _, req := range vals {
			in, req := in, req
			missing := reflect.ValueOf(&req).Elem().IsZero()
			for _, fails := range []bool{false, true} {
				p := &probe{fails: fails}
				o := &trip[V, U]{In: in, Req: req, Both: req, Free: in, None: req, P: p}
				test(fmt.Sprintf("in=%#v req=%#v", in, req), missing || fails, p, func(t *testing.T) bool {
					got := api.Test(t, o)
					return got == o && eq(o, &trip[V, U]{In: in, Req: req, Both: in, Out: req, Free: in, None: req, P: p}) && p.runs == 1 && p.self != any(o)
				})
				if missing && p.runs != 0 {
					fail("runs", "api.Test: the action ran without the required input")
				}
			}
		}
		p := &probe{}
		test("by nobody", true, p, func(t *testing.T) bool { api.Test(t, &must[V, U]{In: in, P: p}); return true })
		if p.runs != 0 {
			fail("runs", "api.Test: the action ran without the required user")
		}
	}
	for _, r := range results {
		if r.bad != "" {
			fail("test", "api.Test, %s: %s", r.what, r.bad)
		}
	}
}

type named string

func rounds(k *vk.Check) {
	asString := func(u any) (any, bool) {
		switch u := u.(type) {
		case nil:
			return "", true
		case string:
			return u, true
		case named:
			return string(u), true
		}
		return "", false
	}
	users := []any{nil, "me", named("you"), "", strings.Repeat("x", 300), "ü\"\n"}
	wrong := append(users[:len(users):len(users)], []int{3}, map[string]int{"a": 1})
	one := 1
	trips[int, string](k, "int", []int{0, 1, -1 << 63}, wrong, asString)
	trips[string, string](k, "string", []string{"", "a", "ü\"\\\n\x00", strings.Repeat("long", 20000)}, users, asString)
	trips[bool, string](k, "bool", []bool{false, true}, users, asString)
	trips[float64, string](k, "float64", []float64{0, 0.5, -1e300}, users, asString)
	trips[[]int, string](k, "[]int", [][]int{nil, {1}, {}, make([]int, 300)}, users[:3], asString)
	trips[map[string]int, string](k, "map", []map[string]int{nil, {}, {"a": 1}, {"b": 0, "c": 2}}, users[:3], asString)
	trips[*int, string](k, "*int", []*int{nil, &one, new(int)}, users[:3], asString)
	trips[sub, string](k, "struct", []sub{{}, {A: 1}, {B: "x"}}, users[:3], asString)
	trips[*sub, string](k, "*struct", []*sub{nil, {}, {A: 1, B: "x"}}, users[:3], asString)
	trips[[]sub, string](k, "[]struct", [][]sub{nil, {{A: 1}, {}}}, users[:3], asString)
	trips[[2]int, string](k, "array", [][2]int{{}, {1}, {0, 2}}, users[:3], asString)
	trips[any, string](k, "any", []any{nil, "x", 1.5, true, []any{"x", nil}, map[string]any{"a": "b"}}, users[:2], asString)
	trips[time.Time, string](k, "time", []time.Time{{}, time.Unix(1, 5).UTC()}, users[:2], asString)
	trips[time.Duration, string](k, "duration", []time.Duration{0, 1, -time.Hour}, users[:2], asString)
	trips[enc.Node, string](k, "enc.Node", []enc.Node{enc.Nil{}, enc.String("x"), enc.List{enc.Bool(true)}}, users[:2], asString)
	asSub := func(u any) (any, bool) {
		switch u := u.(type) {
		case nil:
			return (*sub)(nil), true
		case sub:
			return &u, true
		case *sub:
			return u, true
		}
		return nil, false
	}
	trips[int, *sub](k, "int by a struct", []int{0, 7}, []any{nil, sub{A: 1}, &sub{B: "x"}, sub{}, "x", 3}, asSub)
	if h, err := api.NewHandler(ctx.TODO(), &trip[int, int]{}); err != nil || h.Path() != "/trip" || h.Type() != reflect.TypeOf(trip[int, int]{}) {
		k.Violate("trip-path", fmt.Sprint(err), nil)
	}
}
