// Code generated by gen.py. DO NOT EDIT.

package main

import (
	"reflect"
	"testing"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/test"
	aka "github.com/Aize-Public/forego/test"
)

type form struct {
	helper, form string
	run          func(t *testing.T, c ctx.C, a, b any)
}

func asErr(v any) error { e, _ := v.(error); return e }

func (n named) Nil() any { return n.v }

func spreadNil(t *testing.T, c ctx.C, a, b any) (*testing.T, any) { return t, a }

func (n named) NotNil() any { return n.v }

func spreadNotNil(t *testing.T, c ctx.C, a, b any) (*testing.T, any) { return t, a }

func (n named) Empty() any { return n.v }

func spreadEmpty(t *testing.T, c ctx.C, a, b any) (*testing.T, any) { return t, a }

func (n named) NotEmpty() any { return n.v }

func spreadNotEmpty(t *testing.T, c ctx.C, a, b any) (*testing.T, any) { return t, a }

func (n named) Assert() any { return n.v }

func spreadAssert(t *testing.T, c ctx.C, a, b any) (*testing.T, bool) { return t, a.(bool) }

func (n named) NoError() any { return n.v }

func spreadNoError(t *testing.T, c ctx.C, a, b any) (*testing.T, error) { return t, asErr(a) }

func (n named) Error() any { return n.v }

func spreadError(t *testing.T, c ctx.C, a, b any) (*testing.T, error) { return t, asErr(a) }

func (n named) EqualsType() any { return n.v }

func spreadEqualsType(t *testing.T, c ctx.C, a, b any) (*testing.T, any, any) { return t, a, b }

func (n named) EqualsGo() any { return n.v }

func spreadEqualsGo(t *testing.T, c ctx.C, a, b any) (*testing.T, any, any) { return t, a, b }

func (n named) NotEqualsGo() any { return n.v }

func spreadNotEqualsGo(t *testing.T, c ctx.C, a, b any) (*testing.T, any, any) { return t, a, b }

func (n named) EqualsStr() any { return n.v }

func spreadEqualsStr(t *testing.T, c ctx.C, a, b any) (*testing.T, string, string) {
	return t, a.(string), b.(string)
}

func (n named) NotEqualsStr() any { return n.v }

func spreadNotEqualsStr(t *testing.T, c ctx.C, a, b any) (*testing.T, string, string) {
	return t, a.(string), b.(string)
}

func (n named) Contains() any { return n.v }

func spreadContains(t *testing.T, c ctx.C, a, b any) (*testing.T, string, string) {
	return t, a.(string), b.(string)
}

func (n named) NotContains() any { return n.v }

func spreadNotContains(t *testing.T, c ctx.C, a, b any) (*testing.T, string, string) {
	return t, a.(string), b.(string)
}

func (n named) ContainsGo() any { return n.v }

func spreadContainsGo(t *testing.T, c ctx.C, a, b any) (*testing.T, any, string) {
	return t, a, b.(string)
}

func (n named) EqualsJSON() any { return n.v }

func spreadEqualsJSON(t *testing.T, c ctx.C, a, b any) (ctx.C, any, any) { return c, a, b }

func (n named) NotEqualsJSON() any { return n.v }

func spreadNotEqualsJSON(t *testing.T, c ctx.C, a, b any) (ctx.C, any, any) { return c, a, b }

func (n named) ContainsJSON() any { return n.v }

func spreadContainsJSON(t *testing.T, c ctx.C, a, b any) (ctx.C, any, string) {
	return c, a, b.(string)
}

func (n named) NotContainsJSON() any { return n.v }

func spreadNotContainsJSON(t *testing.T, c ctx.C, a, b any) (ctx.C, any, string) {
	return c, a, b.(string)
}

func via[T any](t *testing.T, c ctx.C, a, b T, f func(t *testing.T, c ctx.C, a, b T)) { f(t, c, a, b) }

var forms = []form{
	{"Nil", "direct", func(t *testing.T, c ctx.C, a, b any) {
		test.Nil(t, a)
	}},
	{"Nil", "alias", func(t *testing.T, c ctx.C, a, b any) {
		aka.Nil(t, a)
	}},
	{"Nil", "function value", func(t *testing.T, c ctx.C, a, b any) {
		f := test.Nil
		f(t, a)
	}},
	{"Nil", "field", func(t *testing.T, c ctx.C, a, b any) {
		s := struct{ f func(*testing.T, any) }{test.Nil}
		s.f(t, a)
	}},
	{"Nil", "parentheses", func(t *testing.T, c ctx.C, a, b any) {
		(test.Nil)(t, a)
	}},
	{"Nil", "defer", func(t *testing.T, c ctx.C, a, b any) {
		defer test.Nil(t, a)
		use(a, b)
		use(b, a)
	}},
	{"Nil", "deferred closure", func(t *testing.T, c ctx.C, a, b any) {
		defer func() { test.Nil(t, a) }()
	}},
	{"Nil", "closure", func(t *testing.T, c ctx.C, a, b any) {
		func() { test.Nil(t, a) }()
	}},
	{"Nil", "several lines", func(t *testing.T, c ctx.C, a, b any) {
		test.Nil(
			t,
			a,
		)
	}},
	{"Nil", "selector on its own line", func(t *testing.T, c ctx.C, a, b any) {
		test.
			Nil(t, a)
	}},
	{"Nil", "twice on a line", func(t *testing.T, c ctx.C, a, b any) {
		test.Nil(t, a)
		test.Nil(t, a)
	}},
	{"Nil", "a method of the same name in an argument", func(t *testing.T, c ctx.C, a, b any) {
		test.Nil(t, named{a}.Nil())
	}},
	{"Nil", "results of a call", func(t *testing.T, c ctx.C, a, b any) {
		test.Nil(spreadNil(t, c, a, b))
	}},
	{"Nil", "reflection", func(t *testing.T, c ctx.C, a, b any) {
		reflect.ValueOf(test.Nil).Call([]reflect.Value{val(t, 0, test.Nil), val(a, 1, test.Nil)})
	}},
	{"Nil", "generic", func(t *testing.T, c ctx.C, a, b any) {
		via(t, c, a, b, func(t *testing.T, c ctx.C, a, b any) { test.Nil(t, a) })
	}},
	{"Nil", "a variable", func(t *testing.T, c ctx.C, a, b any) {
		x, y := a, b
		use(x, y)
		a, b = y, x
		a, b = x, y
		if z := a; true {
			use(z, b)
			test.Nil(t, a)
		}
	}},
	{"Nil", "statements", func(t *testing.T, c ctx.C, a, b any) {
	loop:
		for i := 0; i < 1; i++ {
			switch x := a.(type) {
			default:
				use(x, i)
				select {
				default:
					test.Nil(t, a)
					break loop
				}
			}
		}
	}},
	{"Nil", "a function on the line", func(t *testing.T, c ctx.C, a, b any) {
		use(func() {}, func(x ...any) { test.Nil(t, a) })
		test.Nil(t, a)
	}},
	{"NotNil", "direct", func(t *testing.T, c ctx.C, a, b any) {
		test.NotNil(t, a)
	}},
	{"NotNil", "alias", func(t *testing.T, c ctx.C, a, b any) {
		aka.NotNil(t, a)
	}},
	{"NotNil", "function value", func(t *testing.T, c ctx.C, a, b any) {
		f := test.NotNil
		f(t, a)
	}},
	{"NotNil", "field", func(t *testing.T, c ctx.C, a, b any) {
		s := struct{ f func(*testing.T, any) }{test.NotNil}
		s.f(t, a)
	}},
	{"NotNil", "parentheses", func(t *testing.T, c ctx.C, a, b any) {
		(test.NotNil)(t, a)
	}},
	{"NotNil", "defer", func(t *testing.T, c ctx.C, a, b any) {
		defer test.NotNil(t, a)
		use(a, b)
		use(b, a)
	}},
	{"NotNil", "deferred closure", func(t *testing.T, c ctx.C, a, b any) {
		defer func() { test.NotNil(t, a) }()
	}},
	{"NotNil", "closure", func(t *testing.T, c ctx.C, a, b any) {
		func() { test.NotNil(t, a) }()
	}},
	{"NotNil", "several lines", func(t *testing.T, c ctx.C, a, b any) {
		test.NotNil(
			t,
			a,
		)
	}},
	{"NotNil", "selector on its own line", func(t *testing.T, c ctx.C, a, b any) {
		test.
			NotNil(t, a)
	}},
	{"NotNil", "twice on a line", func(t *testing.T, c ctx.C, a, b any) {
		test.NotNil(t, a)
		test.NotNil(t, a)
	}},
	{"NotNil", "a method of the same name in an argument", func(t *testing.T, c ctx.C, a, b any) {
		test.NotNil(t, named{a}.NotNil())
	}},
	{"NotNil", "results of a call", func(t *testing.T, c ctx.C, a, b any) {
		test.NotNil(spreadNotNil(t, c, a, b))
	}},
	{"NotNil", "reflection", func(t *testing.T, c ctx.C, a, b any) {
		reflect.ValueOf(test.NotNil).Call([]reflect.Value{val(t, 0, test.NotNil), val(a, 1, test.NotNil)})
	}},
	{"NotNil", "generic", func(t *testing.T, c ctx.C, a, b any) {
		via(t, c, a, b, func(t *testing.T, c ctx.C, a, b any) { test.NotNil(t, a) })
	}},
	{"NotNil", "a variable", func(t *testing.T, c ctx.C, a, b any) {
		x, y := a, b
		use(x, y)
		a, b = y, x
		a, b = x, y
		if z := a; true {
			use(z, b)
			test.NotNil(t, a)
		}
	}},
	{"NotNil", "statements", func(t *testing.T, c ctx.C, a, b any) {
	loop:
		for i := 0; i < 1; i++ {
			switch x := a.(type) {
			default:
				use(x, i)
				select {
				default:
					test.NotNil(t, a)
					break loop
				}
			}
		}
	}},
	{"NotNil", "a function on the line", func(t *testing.T, c ctx.C, a, b any) {
		use(func() {}, func(x ...any) { test.NotNil(t, a) })
		test.NotNil(t, a)
	}},
	{"Empty", "direct", func(t *testing.T, c ctx.C, a, b any) {
		test.Empty(t, a)
	}},
	{"Empty", "alias", func(t *testing.T, c ctx.C, a, b any) {
		aka.Empty(t, a)
	}},
	{"Empty", "function value", func(t *testing.T, c ctx.C, a, b any) {
		f := test.Empty
		f(t, a)
	}},
	{"Empty", "field", func(t *testing.T, c ctx.C, a, b any) {
		s := struct{ f func(*testing.T, any) }{test.Empty}
		s.f(t, a)
	}},
	{"Empty", "parentheses", func(t *testing.T, c ctx.C, a, b any) {
		(test.Empty)(t, a)
	}},
	{"Empty", "defer", func(t *testing.T, c ctx.C, a, b any) {
		defer test.Empty(t, a)
		use(a, b)
		use(b, a)
	}},
	{"Empty", "deferred closure", func(t *testing.T, c ctx.C, a, b any) {
		defer func() { test.Empty(t, a) }()
	}},
	{"Empty", "closure", func(t *testing.T, c ctx.C, a, b any) {
		func() { test.Empty(t, a) }()
	}},
	{"Empty", "several lines", func(t *testing.T, c ctx.C, a, b any) {
		test.Empty(
			t,
			a,
		)
	}},
	{"Empty", "selector on its own line", func(t *testing.T, c ctx.C, a, b any) {
		test.
			Empty(t, a)
	}},
	{"Empty", "twice on a line", func(t *testing.T, c ctx.C, a, b any) {
		test.Empty(t, a)
		test.Empty(t, a)
	}},
	{"Empty", "a method of the same name in an argument", func(t *testing.T, c ctx.C, a, b any) {
		test.Empty(t, named{a}.Empty())
	}},
	{"Empty", "results of a call", func(t *testing.T, c ctx.C, a, b any) {
		test.Empty(spreadEmpty(t, c, a, b))
	}},
	{"Empty", "reflection", func(t *testing.T, c ctx.C, a, b any) {
		reflect.ValueOf(test.Empty).Call([]reflect.Value{val(t, 0, test.Empty), val(a, 1, test.Empty)})
	}},
	{"Empty", "generic", func(t *testing.T, c ctx.C, a, b any) {
		via(t, c, a, b, func(t *testing.T, c ctx.C, a, b any) { test.Empty(t, a) })
	}},
	{"Empty", "a variable", func(t *testing.T, c ctx.C, a, b any) {
		x, y := a, b
		use(x, y)
		a, b = y, x
		a, b = x, y
		if z := a; true {
			use(z, b)
			test.Empty(t, a)
		}
	}},
	{"Empty", "statements", func(t *testing.T, c ctx.C, a, b any) {
	loop:
		for i := 0; i < 1; i++ {
			switch x := a.(type) {
			default:
				use(x, i)
				select {
				default:
					test.Empty(t, a)
					break loop
				}
			}
		}
	}},
	{"Empty", "a function on the line", func(t *testing.T, c ctx.C, a, b any) {
		use(func() {}, func(x ...any) { test.Empty(t, a) })
		test.Empty(t, a)
	}},
	{"NotEmpty", "direct", func(t *testing.T, c ctx.C, a, b any) {
		test.NotEmpty(t, a)
	}},
	{"NotEmpty", "alias", func(t *testing.T, c ctx.C, a, b any) {
		aka.NotEmpty(t, a)
	}},
	{"NotEmpty", "function value", func(t *testing.T, c ctx.C, a, b any) {
		f := test.NotEmpty
		f(t, a)
	}},
	{"NotEmpty", "field", func(t *testing.T, c ctx.C, a, b any) {
		s := struct{ f func(*testing.T, any) }{test.NotEmpty}
		s.f(t, a)
	}},
	{"NotEmpty", "parentheses", func(t *testing.T, c ctx.C, a, b any) {
		(test.NotEmpty)(t, a)
	}},
	{"NotEmpty", "defer", func(t *testing.T, c ctx.C, a, b any) {
		defer test.NotEmpty(t, a)
		use(a, b)
		use(b, a)
	}},
	{"NotEmpty", "deferred closure", func(t *testing.T, c ctx.C, a, b any) {
		defer func() { test.NotEmpty(t, a) }()
	}},
	{"NotEmpty", "closure", func(t *testing.T, c ctx.C, a, b any) {
		func() { test.NotEmpty(t, a) }()
	}},
	{"NotEmpty", "several lines", func(t *testing.T, c ctx.C, a, b any) {
		test.NotEmpty(
			t,
			a,
		)
	}},
	{"NotEmpty", "selector on its own line", func(t *testing.T, c ctx.C, a, b any) {
		test.
			NotEmpty(t, a)
	}},
	{"NotEmpty", "twice on a line", func(t *testing.T, c ctx.C, a, b any) {
		test.NotEmpty(t, a)
		test.NotEmpty(t, a)
	}},
	{"NotEmpty", "a method of the same name in an argument", func(t *testing.T, c ctx.C, a, b any) {
		test.NotEmpty(t, named{a}.NotEmpty())
	}},
	{"NotEmpty", "results of a call", func(t *testing.T, c ctx.C, a, b any) {
		test.NotEmpty(spreadNotEmpty(t, c, a, b))
	}},
	{"NotEmpty", "reflection", func(t *testing.T, c ctx.C, a, b any) {
		reflect.ValueOf(test.NotEmpty).Call([]reflect.Value{val(t, 0, test.NotEmpty), val(a, 1, test.NotEmpty)})
	}},
	{"NotEmpty", "generic", func(t *testing.T, c ctx.C, a, b any) {
		via(t, c, a, b, func(t *testing.T, c ctx.C, a, b any) { test.NotEmpty(t, a) })
	}},
	{"NotEmpty", "a variable", func(t *testing.T, c ctx.C, a, b any) {
		x, y := a, b
		use(x, y)
		a, b = y, x
		a, b = x, y
		if z := a; true {
			use(z, b)
			test.NotEmpty(t, a)
		}
	}},
	{"NotEmpty", "statements", func(t *testing.T, c ctx.C, a, b any) {
	loop:
		for i := 0; i < 1; i++ {
			switch x := a.(type) {
			default:
				use(x, i)
				select {
				default:
					test.NotEmpty(t, a)
					break loop
				}
			}
		}
	}},
	{"NotEmpty", "a function on the line", func(t *testing.T, c ctx.C, a, b any) {
		use(func() {}, func(x ...any) { test.NotEmpty(t, a) })
		test.NotEmpty(t, a)
	}},
	{"Assert", "direct", func(t *testing.T, c ctx.C, a, b any) {
		test.Assert(t, a.(bool))
	}},
	{"Assert", "alias", func(t *testing.T, c ctx.C, a, b any) {
		aka.Assert(t, a.(bool))
	}},
	{"Assert", "function value", func(t *testing.T, c ctx.C, a, b any) {
		f := test.Assert
		f(t, a.(bool))
	}},
	{"Assert", "field", func(t *testing.T, c ctx.C, a, b any) {
		s := struct{ f func(*testing.T, bool) }{test.Assert}
		s.f(t, a.(bool))
	}},
	{"Assert", "parentheses", func(t *testing.T, c ctx.C, a, b any) {
		(test.Assert)(t, a.(bool))
	}},
	{"Assert", "defer", func(t *testing.T, c ctx.C, a, b any) {
		defer test.Assert(t, a.(bool))
		use(a, b)
		use(b, a)
	}},
	{"Assert", "deferred closure", func(t *testing.T, c ctx.C, a, b any) {
		defer func() { test.Assert(t, a.(bool)) }()
	}},
	{"Assert", "closure", func(t *testing.T, c ctx.C, a, b any) {
		func() { test.Assert(t, a.(bool)) }()
	}},
	{"Assert", "several lines", func(t *testing.T, c ctx.C, a, b any) {
		test.Assert(
			t,
			a.(bool),
		)
	}},
	{"Assert", "selector on its own line", func(t *testing.T, c ctx.C, a, b any) {
		test.
			Assert(t, a.(bool))
	}},
	{"Assert", "twice on a line", func(t *testing.T, c ctx.C, a, b any) {
		test.Assert(t, a.(bool))
		test.Assert(t, a.(bool))
	}},
	{"Assert", "a method of the same name in an argument", func(t *testing.T, c ctx.C, a, b any) {
		test.Assert(t, named{a}.Assert().(bool))
	}},
	{"Assert", "results of a call", func(t *testing.T, c ctx.C, a, b any) {
		test.Assert(spreadAssert(t, c, a, b))
	}},
	{"Assert", "reflection", func(t *testing.T, c ctx.C, a, b any) {
		reflect.ValueOf(test.Assert).Call([]reflect.Value{val(t, 0, test.Assert), val(a.(bool), 1, test.Assert)})
	}},
	{"Assert", "generic", func(t *testing.T, c ctx.C, a, b any) {
		via(t, c, a, b, func(t *testing.T, c ctx.C, a, b any) { test.Assert(t, a.(bool)) })
	}},
	{"Assert", "a variable", func(t *testing.T, c ctx.C, a, b any) {
		x, y := a, b
		use(x, y)
		a, b = y, x
		a, b = x, y
		if z := a; true {
			use(z, b)
			test.Assert(t, a.(bool))
		}
	}},
	{"Assert", "statements", func(t *testing.T, c ctx.C, a, b any) {
	loop:
		for i := 0; i < 1; i++ {
			switch x := a.(type) {
			default:
				use(x, i)
				select {
				default:
					test.Assert(t, a.(bool))
					break loop
				}
			}
		}
	}},
	{"Assert", "a function on the line", func(t *testing.T, c ctx.C, a, b any) {
		use(func() {}, func(x ...any) { test.Assert(t, a.(bool)) })
		test.Assert(t, a.(bool))
	}},
	{"NoError", "direct", func(t *testing.T, c ctx.C, a, b any) {
		test.NoError(t, asErr(a))
	}},
	{"NoError", "alias", func(t *testing.T, c ctx.C, a, b any) {
		aka.NoError(t, asErr(a))
	}},
	{"NoError", "function value", func(t *testing.T, c ctx.C, a, b any) {
		f := test.NoError
		f(t, asErr(a))
	}},
	{"NoError", "field", func(t *testing.T, c ctx.C, a, b any) {
		s := struct{ f func(*testing.T, error) }{test.NoError}
		s.f(t, asErr(a))
	}},
	{"NoError", "parentheses", func(t *testing.T, c ctx.C, a, b any) {
		(test.NoError)(t, asErr(a))
	}},
	{"NoError", "defer", func(t *testing.T, c ctx.C, a, b any) {
		defer test.NoError(t, asErr(a))
		use(a, b)
		use(b, a)
	}},
	{"NoError", "deferred closure", func(t *testing.T, c ctx.C, a, b any) {
		defer func() { test.NoError(t, asErr(a)) }()
	}},
	{"NoError", "closure", func(t *testing.T, c ctx.C, a, b any) {
		func() { test.NoError(t, asErr(a)) }()
	}},
	{"NoError", "several lines", func(t *testing.T, c ctx.C, a, b any) {
		test.NoError(
			t,
			asErr(a),
		)
	}},
	{"NoError", "selector on its own line", func(t *testing.T, c ctx.C, a, b any) {
		test.
			NoError(t, asErr(a))
	}},
	{"NoError", "twice on a line", func(t *testing.T, c ctx.C, a, b any) {
		test.NoError(t, asErr(a))
		test.NoError(t, asErr(a))
	}},
	{"NoError", "a method of the same name in an argument", func(t *testing.T, c ctx.C, a, b any) {
		test.NoError(t, asErr(named{a}.NoError()))
	}},
	{"NoError", "results of a call", func(t *testing.T, c ctx.C, a, b any) {
		test.NoError(spreadNoError(t, c, a, b))
	}},
	{"NoError", "reflection", func(t *testing.T, c ctx.C, a, b any) {
		reflect.ValueOf(test.NoError).Call([]reflect.Value{val(t, 0, test.NoError), val(asErr(a), 1, test.NoError)})
	}},
	{"NoError", "generic", func(t *testing.T, c ctx.C, a, b any) {
		via(t, c, a, b, func(t *testing.T, c ctx.C, a, b any) { test.NoError(t, asErr(a)) })
	}},
	{"NoError", "a variable", func(t *testing.T, c ctx.C, a, b any) {
		x, y := a, b
		use(x, y)
		a, b = y, x
		a, b = x, y
		if z := a; true {
			use(z, b)
			test.NoError(t, asErr(a))
		}
	}},
	{"NoError", "statements", func(t *testing.T, c ctx.C, a, b any) {
	loop:
		for i := 0; i < 1; i++ {
			switch x := a.(type) {
			default:
				use(x, i)
				select {
				default:
					test.NoError(t, asErr(a))
					break loop
				}
			}
		}
	}},
	{"NoError", "a function on the line", func(t *testing.T, c ctx.C, a, b any) {
		use(func() {}, func(x ...any) { test.NoError(t, asErr(a)) })
		test.NoError(t, asErr(a))
	}},
	{"Error", "direct", func(t *testing.T, c ctx.C, a, b any) {
		test.Error(t, asErr(a))
	}},
	{"Error", "alias", func(t *testing.T, c ctx.C, a, b any) {
		aka.Error(t, asErr(a))
	}},
	{"Error", "function value", func(t *testing.T, c ctx.C, a, b any) {
		f := test.Error
		f(t, asErr(a))
	}},
	{"Error", "field", func(t *testing.T, c ctx.C, a, b any) {
		s := struct{ f func(*testing.T, error) }{test.Error}
		s.f(t, asErr(a))
	}},
	{"Error", "parentheses", func(t *testing.T, c ctx.C, a, b any) {
		(test.Error)(t, asErr(a))
	}},
	{"Error", "defer", func(t *testing.T, c ctx.C, a, b any) {
		defer test.Error(t, asErr(a))
		use(a, b)
		use(b, a)
	}},
	{"Error", "deferred closure", func(t *testing.T, c ctx.C, a, b any) {
		defer func() { test.Error(t, asErr(a)) }()
	}},
	{"Error", "closure", func(t *testing.T, c ctx.C, a, b any) {
		func() { test.Error(t, asErr(a)) }()
	}},
	{"Error", "several lines", func(t *testing.T, c ctx.C, a, b any) {
		test.Error(
			t,
			asErr(a),
		)
	}},
	{"Error", "selector on its own line", func(t *testing.T, c ctx.C, a, b any) {
		test.
			Error(t, asErr(a))
	}},
	{"Error", "twice on a line", func(t *testing.T, c ctx.C, a, b any) {
		test.Error(t, asErr(a))
		test.Error(t, asErr(a))
	}},
	{"Error", "a method of the same name in an argument", func(t *testing.T, c ctx.C, a, b any) {
		test.Error(t, asErr(named{a}.Error()))
	}},
	{"Error", "results of a call", func(t *testing.T, c ctx.C, a, b any) {
		test.Error(spreadError(t, c, a, b))
	}},
	{"Error", "reflection", func(t *testing.T, c ctx.C, a, b any) {
		reflect.ValueOf(test.Error).Call([]reflect.Value{val(t, 0, test.Error), val(asErr(a), 1, test.Error)})
	}},
	{"Error", "generic", func(t *testing.T, c ctx.C, a, b any) {
		via(t, c, a, b, func(t *testing.T, c ctx.C, a, b any) { test.Error(t, asErr(a)) })
	}},
	{"Error", "a variable", func(t *testing.T, c ctx.C, a, b any) {
		x, y := a, b
		use(x, y)
		a, b = y, x
		a, b = x, y
		if z := a; true {
			use(z, b)
			test.Error(t, asErr(a))
		}
	}},
	{"Error", "statements", func(t *testing.T, c ctx.C, a, b any) {
	loop:
		for i := 0; i < 1; i++ {
			switch x := a.(type) {
			default:
				use(x, i)
				select {
				default:
					test.Error(t, asErr(a))
					break loop
				}
			}
		}
	}},
	{"Error", "a function on the line", func(t *testing.T, c ctx.C, a, b any) {
		use(func() {}, func(x ...any) { test.Error(t, asErr(a)) })
		test.Error(t, asErr(a))
	}},
	{"EqualsType", "direct", func(t *testing.T, c ctx.C, a, b any) {
		test.EqualsType(t, a, b)
	}},
	{"EqualsType", "alias", func(t *testing.T, c ctx.C, a, b any) {
		aka.EqualsType(t, a, b)
	}},
	{"EqualsType", "function value", func(t *testing.T, c ctx.C, a, b any) {
		f := test.EqualsType
		f(t, a, b)
	}},
	{"EqualsType", "field", func(t *testing.T, c ctx.C, a, b any) {
		s := struct{ f func(*testing.T, any, any) }{test.EqualsType}
		s.f(t, a, b)
	}},
	{"EqualsType", "parentheses", func(t *testing.T, c ctx.C, a, b any) {
		(test.EqualsType)(t, a, b)
	}},
	{"EqualsType", "defer", func(t *testing.T, c ctx.C, a, b any) {
		defer test.EqualsType(t, a, b)
		use(a, b)
		use(b, a)
	}},
	{"EqualsType", "deferred closure", func(t *testing.T, c ctx.C, a, b any) {
		defer func() { test.EqualsType(t, a, b) }()
	}},
	{"EqualsType", "closure", func(t *testing.T, c ctx.C, a, b any) {
		func() { test.EqualsType(t, a, b) }()
	}},
	{"EqualsType", "several lines", func(t *testing.T, c ctx.C, a, b any) {
		test.EqualsType(
			t,
			a,
			b,
		)
	}},
	{"EqualsType", "selector on its own line", func(t *testing.T, c ctx.C, a, b any) {
		test.
			EqualsType(t, a, b)
	}},
	{"EqualsType", "twice on a line", func(t *testing.T, c ctx.C, a, b any) {
		test.EqualsType(t, a, b)
		test.EqualsType(t, a, b)
	}},
	{"EqualsType", "a method of the same name in an argument", func(t *testing.T, c ctx.C, a, b any) {
		test.EqualsType(t, a, named{b}.EqualsType())
	}},
	{"EqualsType", "results of a call", func(t *testing.T, c ctx.C, a, b any) {
		test.EqualsType(spreadEqualsType(t, c, a, b))
	}},
	{"EqualsType", "reflection", func(t *testing.T, c ctx.C, a, b any) {
		reflect.ValueOf(test.EqualsType).Call([]reflect.Value{val(t, 0, test.EqualsType), val(a, 1, test.EqualsType), val(b, 2, test.EqualsType)})
	}},
	{"EqualsType", "generic", func(t *testing.T, c ctx.C, a, b any) {
		via(t, c, a, b, func(t *testing.T, c ctx.C, a, b any) { test.EqualsType(t, a, b) })
	}},
	{"EqualsType", "a variable", func(t *testing.T, c ctx.C, a, b any) {
		x, y := a, b
		use(x, y)
		a, b = y, x
		a, b = x, y
		if z := a; true {
			use(z, b)
			test.EqualsType(t, a, b)
		}
	}},
	{"EqualsType", "statements", func(t *testing.T, c ctx.C, a, b any) {
	loop:
		for i := 0; i < 1; i++ {
			switch x := a.(type) {
			default:
				use(x, i)
				select {
				default:
					test.EqualsType(t, a, b)
					break loop
				}
			}
		}
	}},
	{"EqualsType", "a function on the line", func(t *testing.T, c ctx.C, a, b any) {
		use(func() {}, func(x ...any) { test.EqualsType(t, a, b) })
		test.EqualsType(t, a, b)
	}},
	{"EqualsGo", "direct", func(t *testing.T, c ctx.C, a, b any) {
		test.EqualsGo(t, a, b)
	}},
	{"EqualsGo", "alias", func(t *testing.T, c ctx.C, a, b any) {
		aka.EqualsGo(t, a, b)
	}},
	{"EqualsGo", "function value", func(t *testing.T, c ctx.C, a, b any) {
		f := test.EqualsGo
		f(t, a, b)
	}},
	{"EqualsGo", "field", func(t *testing.T, c ctx.C, a, b any) {
		s := struct{ f func(*testing.T, any, any) }{test.EqualsGo}
		s.f(t, a, b)
	}},
	{"EqualsGo", "parentheses", func(t *testing.T, c ctx.C, a, b any) {
		(test.EqualsGo)(t, a, b)
	}},
	{"EqualsGo", "defer", func(t *testing.T, c ctx.C, a, b any) {
		defer test.EqualsGo(t, a, b)
		use(a, b)
		use(b, a)
	}},
	{"EqualsGo", "deferred closure", func(t *testing.T, c ctx.C, a, b any) {
		defer func() { test.EqualsGo(t, a, b) }()
	}},
	{"EqualsGo", "closure", func(t *testing.T, c ctx.C, a, b any) {
		func() { test.EqualsGo(t, a, b) }()
	}},
	{"EqualsGo", "several lines", func(t *testing.T, c ctx.C, a, b any) {
		test.EqualsGo(
			t,
			a,
			b,
		)
	}},
	{"EqualsGo", "selector on its own line", func(t *testing.T, c ctx.C, a, b any) {
		test.
			EqualsGo(t, a, b)
	}},
	{"EqualsGo", "twice on a line", func(t *testing.T, c ctx.C, a, b any) {
		test.EqualsGo(t, a, b)
		test.EqualsGo(t, a, b)
	}},
	{"EqualsGo", "a method of the same name in an argument", func(t *testing.T, c ctx.C, a, b any) {
		test.EqualsGo(t, a, named{b}.EqualsGo())
	}},
	{"EqualsGo", "results of a call", func(t *testing.T, c ctx.C, a, b any) {
		test.EqualsGo(spreadEqualsGo(t, c, a, b))
	}},
	{"EqualsGo", "reflection", func(t *testing.T, c ctx.C, a, b any) {
		reflect.ValueOf(test.EqualsGo).Call([]reflect.Value{val(t, 0, test.EqualsGo), val(a, 1, test.EqualsGo), val(b, 2, test.EqualsGo)})
	}},
	{"EqualsGo", "generic", func(t *testing.T, c ctx.C, a, b any) {
		via(t, c, a, b, func(t *testing.T, c ctx.C, a, b any) { test.EqualsGo(t, a, b) })
	}},
	{"EqualsGo", "a variable", func(t *testing.T, c ctx.C, a, b any) {
		x, y := a, b
		use(x, y)
		a, b = y, x
		a, b = x, y
		if z := a; true {
			use(z, b)
			test.EqualsGo(t, a, b)
		}
	}},
	{"EqualsGo", "statements", func(t *testing.T, c ctx.C, a, b any) {
	loop:
		for i := 0; i < 1; i++ {
			switch x := a.(type) {
			default:
				use(x, i)
				select {
				default:
					test.EqualsGo(t, a, b)
					break loop
				}
			}
		}
	}},
	{"EqualsGo", "a function on the line", func(t *testing.T, c ctx.C, a, b any) {
		use(func() {}, func(x ...any) { test.EqualsGo(t, a, b) })
		test.EqualsGo(t, a, b)
	}},
	{"NotEqualsGo", "direct", func(t *testing.T, c ctx.C, a, b any) {
		test.NotEqualsGo(t, a, b)
	}},
	{"NotEqualsGo", "alias", func(t *testing.T, c ctx.C, a, b any) {
		aka.NotEqualsGo(t, a, b)
	}},
	{"NotEqualsGo", "function value", func(t *testing.T, c ctx.C, a, b any) {
		f := test.NotEqualsGo
		f(t, a, b)
	}},
	{"NotEqualsGo", "field", func(t *testing.T, c ctx.C, a, b any) {
		s := struct{ f func(*testing.T, any, any) }{test.NotEqualsGo}
		s.f(t, a, b)
	}},
	{"NotEqualsGo", "parentheses", func(t *testing.T, c ctx.C, a, b any) {
		(test.NotEqualsGo)(t, a, b)
	}},
	{"NotEqualsGo", "defer", func(t *testing.T, c ctx.C, a, b any) {
		defer test.NotEqualsGo(t, a, b)
		use(a, b)
		use(b, a)
	}},
	{"NotEqualsGo", "deferred closure", func(t *testing.T, c ctx.C, a, b any) {
		defer func() { test.NotEqualsGo(t, a, b) }()
	}},
	{"NotEqualsGo", "closure", func(t *testing.T, c ctx.C, a, b any) {
		func() { test.NotEqualsGo(t, a, b) }()
	}},
	{"NotEqualsGo", "several lines", func(t *testing.T, c ctx.C, a, b any) {
		test.NotEqualsGo(
			t,
			a,
			b,
		)
	}},
	{"NotEqualsGo", "selector on its own line", func(t *testing.T, c ctx.C, a, b any) {
		test.
			NotEqualsGo(t, a, b)
	}},
	{"NotEqualsGo", "twice on a line", func(t *testing.T, c ctx.C, a, b any) {
		test.NotEqualsGo(t, a, b)
		test.NotEqualsGo(t, a, b)
	}},
	{"NotEqualsGo", "a method of the same name in an argument", func(t *testing.T, c ctx.C, a, b any) {
		test.NotEqualsGo(t, a, named{b}.NotEqualsGo())
	}},
	{"NotEqualsGo", "results of a call", func(t *testing.T, c ctx.C, a, b any) {
		test.NotEqualsGo(spreadNotEqualsGo(t, c, a, b))
	}},
	{"NotEqualsGo", "reflection", func(t *testing.T, c ctx.C, a, b any) {
		reflect.ValueOf(test.NotEqualsGo).Call([]reflect.Value{val(t, 0, test.NotEqualsGo), val(a, 1, test.NotEqualsGo), val(b, 2, test.NotEqualsGo)})
	}},
	{"NotEqualsGo", "generic", func(t *testing.T, c ctx.C, a, b any) {
		via(t, c, a, b, func(t *testing.T, c ctx.C, a, b any) { test.NotEqualsGo(t, a, b) })
	}},
	{"NotEqualsGo", "a variable", func(t *testing.T, c ctx.C, a, b any) {
		x, y := a, b
		use(x, y)
		a, b = y, x
		a, b = x, y
		if z := a; true {
			use(z, b)
			test.NotEqualsGo(t, a, b)
		}
	}},
	{"NotEqualsGo", "statements", func(t *testing.T, c ctx.C, a, b any) {
	loop:
		for i := 0; i < 1; i++ {
			switch x := a.(type) {
			default:
				use(x, i)
				select {
				default:
					test.NotEqualsGo(t, a, b)
					break loop
				}
			}
		}
	}},
	{"NotEqualsGo", "a function on the line", func(t *testing.T, c ctx.C, a, b any) {
		use(func() {}, func(x ...any) { test.NotEqualsGo(t, a, b) })
		test.NotEqualsGo(t, a, b)
	}},
	{"EqualsStr", "direct", func(t *testing.T, c ctx.C, a, b any) {
		test.EqualsStr(t, a.(string), b.(string))
	}},
	{"EqualsStr", "alias", func(t *testing.T, c ctx.C, a, b any) {
		aka.EqualsStr(t, a.(string), b.(string))
	}},
	{"EqualsStr", "function value", func(t *testing.T, c ctx.C, a, b any) {
		f := test.EqualsStr
		f(t, a.(string), b.(string))
	}},
	{"EqualsStr", "field", func(t *testing.T, c ctx.C, a, b any) {
		s := struct {
			f func(*testing.T, string, string)
		}{test.EqualsStr}
		s.f(t, a.(string), b.(string))
	}},
	{"EqualsStr", "parentheses", func(t *testing.T, c ctx.C, a, b any) {
		(test.EqualsStr)(t, a.(string), b.(string))
	}},
	{"EqualsStr", "defer", func(t *testing.T, c ctx.C, a, b any) {
		defer test.EqualsStr(t, a.(string), b.(string))
		use(a, b)
		use(b, a)
	}},
	{"EqualsStr", "deferred closure", func(t *testing.T, c ctx.C, a, b any) {
		defer func() { test.EqualsStr(t, a.(string), b.(string)) }()
	}},
	{"EqualsStr", "closure", func(t *testing.T, c ctx.C, a, b any) {
		func() { test.EqualsStr(t, a.(string), b.(string)) }()
	}},
	{"EqualsStr", "several lines", func(t *testing.T, c ctx.C, a, b any) {
		test.EqualsStr(
			t,
			a.(string),
			b.(string),
		)
	}},
	{"EqualsStr", "selector on its own line", func(t *testing.T, c ctx.C, a, b any) {
		test.
			EqualsStr(t, a.(string), b.(string))
	}},
	{"EqualsStr", "twice on a line", func(t *testing.T, c ctx.C, a, b any) {
		test.EqualsStr(t, a.(string), b.(string))
		test.EqualsStr(t, a.(string), b.(string))
	}},
	{"EqualsStr", "a method of the same name in an argument", func(t *testing.T, c ctx.C, a, b any) {
		test.EqualsStr(t, a.(string), named{b}.EqualsStr().(string))
	}},
	{"EqualsStr", "results of a call", func(t *testing.T, c ctx.C, a, b any) {
		test.EqualsStr(spreadEqualsStr(t, c, a, b))
	}},
	{"EqualsStr", "reflection", func(t *testing.T, c ctx.C, a, b any) {
		reflect.ValueOf(test.EqualsStr).Call([]reflect.Value{val(t, 0, test.EqualsStr), val(a.(string), 1, test.EqualsStr), val(b.(string), 2, test.EqualsStr)})
	}},
	{"EqualsStr", "generic", func(t *testing.T, c ctx.C, a, b any) {
		via(t, c, a, b, func(t *testing.T, c ctx.C, a, b any) { test.EqualsStr(t, a.(string), b.(string)) })
	}},
	{"EqualsStr", "a variable", func(t *testing.T, c ctx.C, a, b any) {
		x, y := a, b
		use(x, y)
		a, b = y, x
		a, b = x, y
		if z := a; true {
			use(z, b)
			test.EqualsStr(t, a.(string), b.(string))
		}
	}},
	{"EqualsStr", "statements", func(t *testing.T, c ctx.C, a, b any) {
	loop:
		for i := 0; i < 1; i++ {
			switch x := a.(type) {
			default:
				use(x, i)
				select {
				default:
					test.EqualsStr(t, a.(string), b.(string))
					break loop
				}
			}
		}
	}},
	{"EqualsStr", "a function on the line", func(t *testing.T, c ctx.C, a, b any) {
		use(func() {}, func(x ...any) { test.EqualsStr(t, a.(string), b.(string)) })
		test.EqualsStr(t, a.(string), b.(string))
	}},
	{"NotEqualsStr", "direct", func(t *testing.T, c ctx.C, a, b any) {
		test.NotEqualsStr(t, a.(string), b.(string))
	}},
	{"NotEqualsStr", "alias", func(t *testing.T, c ctx.C, a, b any) {
		aka.NotEqualsStr(t, a.(string), b.(string))
	}},
	{"NotEqualsStr", "function value", func(t *testing.T, c ctx.C, a, b any) {
		f := test.NotEqualsStr
		f(t, a.(string), b.(string))
	}},
	{"NotEqualsStr", "field", func(t *testing.T, c ctx.C, a, b any) {
		s := struct {
			f func(*testing.T, string, string)
		}{test.NotEqualsStr}
		s.f(t, a.(string), b.(string))
	}},
	{"NotEqualsStr", "parentheses", func(t *testing.T, c ctx.C, a, b any) {
		(test.NotEqualsStr)(t, a.(string), b.(string))
	}},
	{"NotEqualsStr", "defer", func(t *testing.T, c ctx.C, a, b any) {
		defer test.NotEqualsStr(t, a.(string), b.(string))
		use(a, b)
		use(b, a)
	}},
	{"NotEqualsStr", "deferred closure", func(t *testing.T, c ctx.C, a, b any) {
		defer func() { test.NotEqualsStr(t, a.(string), b.(string)) }()
	}},
	{"NotEqualsStr", "closure", func(t *testing.T, c ctx.C, a, b any) {
		func() { test.NotEqualsStr(t, a.(string), b.(string)) }()
	}},
	{"NotEqualsStr", "several lines", func(t *testing.T, c ctx.C, a, b any) {
		test.NotEqualsStr(
			t,
			a.(string),
			b.(string),
		)
	}},
	{"NotEqualsStr", "selector on its own line", func(t *testing.T, c ctx.C, a, b any) {
		test.
			NotEqualsStr(t, a.(string), b.(string))
	}},
	{"NotEqualsStr", "twice on a line", func(t *testing.T, c ctx.C, a, b any) {
		test.NotEqualsStr(t, a.(string), b.(string))
		test.NotEqualsStr(t, a.(string), b.(string))
	}},
	{"NotEqualsStr", "a method of the same name in an argument", func(t *testing.T, c ctx.C, a, b any) {
		test.NotEqualsStr(t, a.(string), named{b}.NotEqualsStr().(string))
	}},
	{"NotEqualsStr", "results of a call", func(t *testing.T, c ctx.C, a, b any) {
		test.NotEqualsStr(spreadNotEqualsStr(t, c, a, b))
	}},
	{"NotEqualsStr", "reflection", func(t *testing.T, c ctx.C, a, b any) {
		reflect.ValueOf(test.NotEqualsStr).Call([]reflect.Value{val(t, 0, test.NotEqualsStr), val(a.(string), 1, test.NotEqualsStr), val(b.(string), 2, test.NotEqualsStr)})
	}},
	{"NotEqualsStr", "generic", func(t *testing.T, c ctx.C, a, b any) {
		via(t, c, a, b, func(t *testing.T, c ctx.C, a, b any) { test.NotEqualsStr(t, a.(string), b.(string)) })
	}},
	{"NotEqualsStr", "a variable", func(t *testing.T, c ctx.C, a, b any) {
		x, y := a, b
		use(x, y)
		a, b = y, x
		a, b = x, y
		if z := a; true {
			use(z, b)
			test.NotEqualsStr(t, a.(string), b.(string))
		}
	}},
	{"NotEqualsStr", "statements", func(t *testing.T, c ctx.C, a, b any) {
	loop:
		for i := 0; i < 1; i++ {
			switch x := a.(type) {
			default:
				use(x, i)
				select {
				default:
					test.NotEqualsStr(t, a.(string), b.(string))
					break loop
				}
			}
		}
	}},
	{"NotEqualsStr", "a function on the line", func(t *testing.T, c ctx.C, a, b any) {
		use(func() {}, func(x ...any) { test.NotEqualsStr(t, a.(string), b.(string)) })
		test.NotEqualsStr(t, a.(string), b.(string))
	}},
	{"Contains", "direct", func(t *testing.T, c ctx.C, a, b any) {
		test.Contains(t, a.(string), b.(string))
	}},
	{"Contains", "alias", func(t *testing.T, c ctx.C, a, b any) {
		aka.Contains(t, a.(string), b.(string))
	}},
	{"Contains", "function value", func(t *testing.T, c ctx.C, a, b any) {
		f := test.Contains
		f(t, a.(string), b.(string))
	}},
	{"Contains", "field", func(t *testing.T, c ctx.C, a, b any) {
		s := struct {
			f func(*testing.T, string, string)
		}{test.Contains}
		s.f(t, a.(string), b.(string))
	}},
	{"Contains", "parentheses", func(t *testing.T, c ctx.C, a, b any) {
		(test.Contains)(t, a.(string), b.(string))
	}},
	{"Contains", "defer", func(t *testing.T, c ctx.C, a, b any) {
		defer test.Contains(t, a.(string), b.(string))
		use(a, b)
		use(b, a)
	}},
	{"Contains", "deferred closure", func(t *testing.T, c ctx.C, a, b any) {
		defer func() { test.Contains(t, a.(string), b.(string)) }()
	}},
	{"Contains", "closure", func(t *testing.T, c ctx.C, a, b any) {
		func() { test.Contains(t, a.(string), b.(string)) }()
	}},
	{"Contains", "several lines", func(t *testing.T, c ctx.C, a, b any) {
		test.Contains(
			t,
			a.(string),
			b.(string),
		)
	}},
	{"Contains", "selector on its own line", func(t *testing.T, c ctx.C, a, b any) {
		test.
			Contains(t, a.(string), b.(string))
	}},
	{"Contains", "twice on a line", func(t *testing.T, c ctx.C, a, b any) {
		test.Contains(t, a.(string), b.(string))
		test.Contains(t, a.(string), b.(string))
	}},
	{"Contains", "a method of the same name in an argument", func(t *testing.T, c ctx.C, a, b any) {
		test.Contains(t, a.(string), named{b}.Contains().(string))
	}},
	{"Contains", "results of a call", func(t *testing.T, c ctx.C, a, b any) {
		test.Contains(spreadContains(t, c, a, b))
	}},
	{"Contains", "reflection", func(t *testing.T, c ctx.C, a, b any) {
		reflect.ValueOf(test.Contains).Call([]reflect.Value{val(t, 0, test.Contains), val(a.(string), 1, test.Contains), val(b.(string), 2, test.Contains)})
	}},
	{"Contains", "generic", func(t *testing.T, c ctx.C, a, b any) {
		via(t, c, a, b, func(t *testing.T, c ctx.C, a, b any) { test.Contains(t, a.(string), b.(string)) })
	}},
	{"Contains", "a variable", func(t *testing.T, c ctx.C, a, b any) {
		x, y := a, b
		use(x, y)
		a, b = y, x
		a, b = x, y
		if z := a; true {
			use(z, b)
			test.Contains(t, a.(string), b.(string))
		}
	}},
	{"Contains", "statements", func(t *testing.T, c ctx.C, a, b any) {
	loop:
		for i := 0; i < 1; i++ {
			switch x := a.(type) {
			default:
				use(x, i)
				select {
				default:
					test.Contains(t, a.(string), b.(string))
					break loop
				}
			}
		}
	}},
	{"Contains", "a function on the line", func(t *testing.T, c ctx.C, a, b any) {
		use(func() {}, func(x ...any) { test.Contains(t, a.(string), b.(string)) })
		test.Contains(t, a.(string), b.(string))
	}},
	{"NotContains", "direct", func(t *testing.T, c ctx.C, a, b any) {
		test.NotContains(t, a.(string), b.(string))
	}},
	{"NotContains", "alias", func(t *testing.T, c ctx.C, a, b any) {
		aka.NotContains(t, a.(string), b.(string))
	}},
	{"NotContains", "function value", func(t *testing.T, c ctx.C, a, b any) {
		f := test.NotContains
		f(t, a.(string), b.(string))
	}},
	{"NotContains", "field", func(t *testing.T, c ctx.C, a, b any) {
		s := struct {
			f func(*testing.T, string, string)
		}{test.NotContains}
		s.f(t, a.(string), b.(string))
	}},
	{"NotContains", "parentheses", func(t *testing.T, c ctx.C, a, b any) {
		(test.NotContains)(t, a.(string), b.(string))
	}},
	{"NotContains", "defer", func(t *testing.T, c ctx.C, a, b any) {
		defer test.NotContains(t, a.(string), b.(string))
		use(a, b)
		use(b, a)
	}},
	{"NotContains", "deferred closure", func(t *testing.T, c ctx.C, a, b any) {
		defer func() { test.NotContains(t, a.(string), b.(string)) }()
	}},
	{"NotContains", "closure", func(t *testing.T, c ctx.C, a, b any) {
		func() { test.NotContains(t, a.(string), b.(string)) }()
	}},
	{"NotContains", "several lines", func(t *testing.T, c ctx.C, a, b any) {
		test.NotContains(
			t,
			a.(string),
			b.(string),
		)
	}},
	{"NotContains", "selector on its own line", func(t *testing.T, c ctx.C, a, b any) {
		test.
			NotContains(t, a.(string), b.(string))
	}},
	{"NotContains", "twice on a line", func(t *testing.T, c ctx.C, a, b any) {
		test.NotContains(t, a.(string), b.(string))
		test.NotContains(t, a.(string), b.(string))
	}},
	{"NotContains", "a method of the same name in an argument", func(t *testing.T, c ctx.C, a, b any) {
		test.NotContains(t, a.(string), named{b}.NotContains().(string))
	}},
	{"NotContains", "results of a call", func(t *testing.T, c ctx.C, a, b any) {
		test.NotContains(spreadNotContains(t, c, a, b))
	}},
	{"NotContains", "reflection", func(t *testing.T, c ctx.C, a, b any) {
		reflect.ValueOf(test.NotContains).Call([]reflect.Value{val(t, 0, test.NotContains), val(a.(string), 1, test.NotContains), val(b.(string), 2, test.NotContains)})
	}},
	{"NotContains", "generic", func(t *testing.T, c ctx.C, a, b any) {
		via(t, c, a, b, func(t *testing.T, c ctx.C, a, b any) { test.NotContains(t, a.(string), b.(string)) })
	}},
	{"NotContains", "a variable", func(t *testing.T, c ctx.C, a, b any) {
		x, y := a, b
		use(x, y)
		a, b = y, x
		a, b = x, y
		if z := a; true {
			use(z, b)
			test.NotContains(t, a.(string), b.(string))
		}
	}},
	{"NotContains", "statements", func(t *testing.T, c ctx.C, a, b any) {
	loop:
		for i := 0; i < 1; i++ {
			switch x := a.(type) {
			default:
				use(x, i)
				select {
				default:
					test.NotContains(t, a.(string), b.(string))
					break loop
				}
			}
		}
	}},
	{"NotContains", "a function on the line", func(t *testing.T, c ctx.C, a, b any) {
		use(func() {}, func(x ...any) { test.NotContains(t, a.(string), b.(string)) })
		test.NotContains(t, a.(string), b.(string))
	}},
	{"ContainsGo", "direct", func(t *testing.T, c ctx.C, a, b any) {
		test.ContainsGo(t, a, b.(string))
	}},
	{"ContainsGo", "alias", func(t *testing.T, c ctx.C, a, b any) {
		aka.ContainsGo(t, a, b.(string))
	}},
	{"ContainsGo", "function value", func(t *testing.T, c ctx.C, a, b any) {
		f := test.ContainsGo
		f(t, a, b.(string))
	}},
	{"ContainsGo", "field", func(t *testing.T, c ctx.C, a, b any) {
		s := struct{ f func(*testing.T, any, string) }{test.ContainsGo}
		s.f(t, a, b.(string))
	}},
	{"ContainsGo", "parentheses", func(t *testing.T, c ctx.C, a, b any) {
		(test.ContainsGo)(t, a, b.(string))
	}},
	{"ContainsGo", "defer", func(t *testing.T, c ctx.C, a, b any) {
		defer test.ContainsGo(t, a, b.(string))
		use(a, b)
		use(b, a)
	}},
	{"ContainsGo", "deferred closure", func(t *testing.T, c ctx.C, a, b any) {
		defer func() { test.ContainsGo(t, a, b.(string)) }()
	}},
	{"ContainsGo", "closure", func(t *testing.T, c ctx.C, a, b any) {
		func() { test.ContainsGo(t, a, b.(string)) }()
	}},
	{"ContainsGo", "several lines", func(t *testing.T, c ctx.C, a, b any) {
		test.ContainsGo(
			t,
			a,
			b.(string),
		)
	}},
	{"ContainsGo", "selector on its own line", func(t *testing.T, c ctx.C, a, b any) {
		test.
			ContainsGo(t, a, b.(string))
	}},
	{"ContainsGo", "twice on a line", func(t *testing.T, c ctx.C, a, b any) {
		test.ContainsGo(t, a, b.(string))
		test.ContainsGo(t, a, b.(string))
	}},
	{"ContainsGo", "a method of the same name in an argument", func(t *testing.T, c ctx.C, a, b any) {
		test.ContainsGo(t, a, named{b}.ContainsGo().(string))
	}},
	{"ContainsGo", "results of a call", func(t *testing.T, c ctx.C, a, b any) {
		test.ContainsGo(spreadContainsGo(t, c, a, b))
	}},
	{"ContainsGo", "reflection", func(t *testing.T, c ctx.C, a, b any) {
		reflect.ValueOf(test.ContainsGo).Call([]reflect.Value{val(t, 0, test.ContainsGo), val(a, 1, test.ContainsGo), val(b.(string), 2, test.ContainsGo)})
	}},
	{"ContainsGo", "generic", func(t *testing.T, c ctx.C, a, b any) {
		via(t, c, a, b, func(t *testing.T, c ctx.C, a, b any) { test.ContainsGo(t, a, b.(string)) })
	}},
	{"ContainsGo", "a variable", func(t *testing.T, c ctx.C, a, b any) {
		x, y := a, b
		use(x, y)
		a, b = y, x
		a, b = x, y
		if z := a; true {
			use(z, b)
			test.ContainsGo(t, a, b.(string))
		}
	}},
	{"ContainsGo", "statements", func(t *testing.T, c ctx.C, a, b any) {
	loop:
		for i := 0; i < 1; i++ {
			switch x := a.(type) {
			default:
				use(x, i)
				select {
				default:
					test.ContainsGo(t, a, b.(string))
					break loop
				}
			}
		}
	}},
	{"ContainsGo", "a function on the line", func(t *testing.T, c ctx.C, a, b any) {
		use(func() {}, func(x ...any) { test.ContainsGo(t, a, b.(string)) })
		test.ContainsGo(t, a, b.(string))
	}},
	{"EqualsJSON", "direct", func(t *testing.T, c ctx.C, a, b any) {
		test.EqualsJSON(c, a, b)
	}},
	{"EqualsJSON", "alias", func(t *testing.T, c ctx.C, a, b any) {
		aka.EqualsJSON(c, a, b)
	}},
	{"EqualsJSON", "function value", func(t *testing.T, c ctx.C, a, b any) {
		f := test.EqualsJSON
		f(c, a, b)
	}},
	{"EqualsJSON", "field", func(t *testing.T, c ctx.C, a, b any) {
		s := struct{ f func(ctx.C, any, any) }{test.EqualsJSON}
		s.f(c, a, b)
	}},
	{"EqualsJSON", "parentheses", func(t *testing.T, c ctx.C, a, b any) {
		(test.EqualsJSON)(c, a, b)
	}},
	{"EqualsJSON", "defer", func(t *testing.T, c ctx.C, a, b any) {
		defer test.EqualsJSON(c, a, b)
		use(a, b)
		use(b, a)
	}},
	{"EqualsJSON", "deferred closure", func(t *testing.T, c ctx.C, a, b any) {
		defer func() { test.EqualsJSON(c, a, b) }()
	}},
	{"EqualsJSON", "closure", func(t *testing.T, c ctx.C, a, b any) {
		func() { test.EqualsJSON(c, a, b) }()
	}},
	{"EqualsJSON", "several lines", func(t *testing.T, c ctx.C, a, b any) {
		test.EqualsJSON(
			c,
			a,
			b,
		)
	}},
	{"EqualsJSON", "selector on its own line", func(t *testing.T, c ctx.C, a, b any) {
		test.
			EqualsJSON(c, a, b)
	}},
	{"EqualsJSON", "twice on a line", func(t *testing.T, c ctx.C, a, b any) {
		test.EqualsJSON(c, a, b)
		test.EqualsJSON(c, a, b)
	}},
	{"EqualsJSON", "a method of the same name in an argument", func(t *testing.T, c ctx.C, a, b any) {
		test.EqualsJSON(c, a, named{b}.EqualsJSON())
	}},
	{"EqualsJSON", "results of a call", func(t *testing.T, c ctx.C, a, b any) {
		test.EqualsJSON(spreadEqualsJSON(t, c, a, b))
	}},
	{"EqualsJSON", "reflection", func(t *testing.T, c ctx.C, a, b any) {
		reflect.ValueOf(test.EqualsJSON).Call([]reflect.Value{val(c, 0, test.EqualsJSON), val(a, 1, test.EqualsJSON), val(b, 2, test.EqualsJSON)})
	}},
	{"EqualsJSON", "generic", func(t *testing.T, c ctx.C, a, b any) {
		via(t, c, a, b, func(t *testing.T, c ctx.C, a, b any) { test.EqualsJSON(c, a, b) })
	}},
	{"EqualsJSON", "a variable", func(t *testing.T, c ctx.C, a, b any) {
		x, y := a, b
		use(x, y)
		a, b = y, x
		a, b = x, y
		if z := a; true {
			use(z, b)
			test.EqualsJSON(c, a, b)
		}
	}},
	{"EqualsJSON", "statements", func(t *testing.T, c ctx.C, a, b any) {
	loop:
		for i := 0; i < 1; i++ {
			switch x := a.(type) {
			default:
				use(x, i)
				select {
				default:
					test.EqualsJSON(c, a, b)
					break loop
				}
			}
		}
	}},
	{"EqualsJSON", "a function on the line", func(t *testing.T, c ctx.C, a, b any) {
		use(func() {}, func(x ...any) { test.EqualsJSON(c, a, b) })
		test.EqualsJSON(c, a, b)
	}},
	{"NotEqualsJSON", "direct", func(t *testing.T, c ctx.C, a, b any) {
		test.NotEqualsJSON(c, a, b)
	}},
	{"NotEqualsJSON", "alias", func(t *testing.T, c ctx.C, a, b any) {
		aka.NotEqualsJSON(c, a, b)
	}},
	{"NotEqualsJSON", "function value", func(t *testing.T, c ctx.C, a, b any) {
		f := test.NotEqualsJSON
		f(c, a, b)
	}},
	{"NotEqualsJSON", "field", func(t *testing.T, c ctx.C, a, b any) {
		s := struct{ f func(ctx.C, any, any) }{test.NotEqualsJSON}
		s.f(c, a, b)
	}},
	{"NotEqualsJSON", "parentheses", func(t *testing.T, c ctx.C, a, b any) {
		(test.NotEqualsJSON)(c, a, b)
	}},
	{"NotEqualsJSON", "defer", func(t *testing.T, c ctx.C, a, b any) {
		defer test.NotEqualsJSON(c, a, b)
		use(a, b)
		use(b, a)
	}},
	{"NotEqualsJSON", "deferred closure", func(t *testing.T, c ctx.C, a, b any) {
		defer func() { test.NotEqualsJSON(c, a, b) }()
	}},
	{"NotEqualsJSON", "closure", func(t *testing.T, c ctx.C, a, b any) {
		func() { test.NotEqualsJSON(c, a, b) }()
	}},
	{"NotEqualsJSON", "several lines", func(t *testing.T, c ctx.C, a, b any) {
		test.NotEqualsJSON(
			c,
			a,
			b,
		)
	}},
	{"NotEqualsJSON", "selector on its own line", func(t *testing.T, c ctx.C, a, b any) {
		test.
			NotEqualsJSON(c, a, b)
	}},
	{"NotEqualsJSON", "twice on a line", func(t *testing.T, c ctx.C, a, b any) {
		test.NotEqualsJSON(c, a, b)
		test.NotEqualsJSON(c, a, b)
	}},
	{"NotEqualsJSON", "a method of the same name in an argument", func(t *testing.T, c ctx.C, a, b any) {
		test.NotEqualsJSON(c, a, named{b}.NotEqualsJSON())
	}},
	{"NotEqualsJSON", "results of a call", func(t *testing.T, c ctx.C, a, b any) {
		test.NotEqualsJSON(spreadNotEqualsJSON(t, c, a, b))
	}},
	{"NotEqualsJSON", "reflection", func(t *testing.T, c ctx.C, a, b any) {
		reflect.ValueOf(test.NotEqualsJSON).Call([]reflect.Value{val(c, 0, test.NotEqualsJSON), val(a, 1, test.NotEqualsJSON), val(b, 2, test.NotEqualsJSON)})
	}},
	{"NotEqualsJSON", "generic", func(t *testing.T, c ctx.C, a, b any) {
		via(t, c, a, b, func(t *testing.T, c ctx.C, a, b any) { test.NotEqualsJSON(c, a, b) })
	}},
	{"NotEqualsJSON", "a variable", func(t *testing.T, c ctx.C, a, b any) {
		x, y := a, b
		use(x, y)
		a, b = y, x
		a, b = x, y
		if z := a; true {
			use(z, b)
			test.NotEqualsJSON(c, a, b)
		}
	}},
	{"NotEqualsJSON", "statements", func(t *testing.T, c ctx.C, a, b any) {
	loop:
		for i := 0; i < 1; i++ {
			switch x := a.(type) {
			default:
				use(x, i)
				select {
				default:
					test.NotEqualsJSON(c, a, b)
					break loop
				}
			}
		}
	}},
	{"NotEqualsJSON", "a function on the line", func(t *testing.T, c ctx.C, a, b any) {
		use(func() {}, func(x ...any) { test.NotEqualsJSON(c, a, b) })
		test.NotEqualsJSON(c, a, b)
	}},
	{"ContainsJSON", "direct", func(t *testing.T, c ctx.C, a, b any) {
		test.ContainsJSON(c, a, b.(string))
	}},
	{"ContainsJSON", "alias", func(t *testing.T, c ctx.C, a, b any) {
		aka.ContainsJSON(c, a, b.(string))
	}},
	{"ContainsJSON", "function value", func(t *testing.T, c ctx.C, a, b any) {
		f := test.ContainsJSON
		f(c, a, b.(string))
	}},
	{"ContainsJSON", "field", func(t *testing.T, c ctx.C, a, b any) {
		s := struct{ f func(ctx.C, any, string) }{test.ContainsJSON}
		s.f(c, a, b.(string))
	}},
	{"ContainsJSON", "parentheses", func(t *testing.T, c ctx.C, a, b any) {
		(test.ContainsJSON)(c, a, b.(string))
	}},
	{"ContainsJSON", "defer", func(t *testing.T, c ctx.C, a, b any) {
		defer test.ContainsJSON(c, a, b.(string))
		use(a, b)
		use(b, a)
	}},
	{"ContainsJSON", "deferred closure", func(t *testing.T, c ctx.C, a, b any) {
		defer func() { test.ContainsJSON(c, a, b.(string)) }()
	}},
	{"ContainsJSON", "closure", func(t *testing.T, c ctx.C, a, b any) {
		func() { test.ContainsJSON(c, a, b.(string)) }()
	}},
	{"ContainsJSON", "several lines", func(t *testing.T, c ctx.C, a, b any) {
		test.ContainsJSON(
			c,
			a,
			b.(string),
		)
	}},
	{"ContainsJSON", "selector on its own line", func(t *testing.T, c ctx.C, a, b any) {
		test.
			ContainsJSON(c, a, b.(string))
	}},
	{"ContainsJSON", "twice on a line", func(t *testing.T, c ctx.C, a, b any) {
		test.ContainsJSON(c, a, b.(string))
		test.ContainsJSON(c, a, b.(string))
	}},
	{"ContainsJSON", "a method of the same name in an argument", func(t *testing.T, c ctx.C, a, b any) {
		test.ContainsJSON(c, a, named{b}.ContainsJSON().(string))
	}},
	{"ContainsJSON", "results of a call", func(t *testing.T, c ctx.C, a, b any) {
		test.ContainsJSON(spreadContainsJSON(t, c, a, b))
	}},
	{"ContainsJSON", "reflection", func(t *testing.T, c ctx.C, a, b any) {
		reflect.ValueOf(test.ContainsJSON).Call([]reflect.Value{val(c, 0, test.ContainsJSON), val(a, 1, test.ContainsJSON), val(b.(string), 2, test.ContainsJSON)})
	}},
	{"ContainsJSON", "generic", func(t *testing.T, c ctx.C, a, b any) {
		via(t, c, a, b, func(t *testing.T, c ctx.C, a, b any) { test.ContainsJSON(c, a, b.(string)) })
	}},
	{"ContainsJSON", "a variable", func(t *testing.T, c ctx.C, a, b any) {
		x, y := a, b
		use(x, y)
		a, b = y, x
		a, b = x, y
		if z := a; true {
			use(z, b)
			test.ContainsJSON(c, a, b.(string))
		}
	}},
	{"ContainsJSON", "statements", func(t *testing.T, c ctx.C, a, b any) {
	loop:
		for i := 0; i < 1; i++ {
			switch x := a.(type) {
			default:
				use(x, i)
				select {
				default:
					test.ContainsJSON(c, a, b.(string))
					break loop
				}
			}
		}
	}},
	{"ContainsJSON", "a function on the line", func(t *testing.T, c ctx.C, a, b any) {
		use(func() {}, func(x ...any) { test.ContainsJSON(c, a, b.(string)) })
		test.ContainsJSON(c, a, b.(string))
	}},
	{"NotContainsJSON", "direct", func(t *testing.T, c ctx.C, a, b any) {
		test.NotContainsJSON(c, a, b.(string))
	}},
	{"NotContainsJSON", "alias", func(t *testing.T, c ctx.C, a, b any) {
		aka.NotContainsJSON(c, a, b.(string))
	}},
	{"NotContainsJSON", "function value", func(t *testing.T, c ctx.C, a, b any) {
		f := test.NotContainsJSON
		f(c, a, b.(string))
	}},
	{"NotContainsJSON", "field", func(t *testing.T, c ctx.C, a, b any) {
		s := struct{ f func(ctx.C, any, string) }{test.NotContainsJSON}
		s.f(c, a, b.(string))
	}},
	{"NotContainsJSON", "parentheses", func(t *testing.T, c ctx.C, a, b any) {
		(test.NotContainsJSON)(c, a, b.(string))
	}},
	{"NotContainsJSON", "defer", func(t *testing.T, c ctx.C, a, b any) {
		defer test.NotContainsJSON(c, a, b.(string))
		use(a, b)
		use(b, a)
	}},
	{"NotContainsJSON", "deferred closure", func(t *testing.T, c ctx.C, a, b any) {
		defer func() { test.NotContainsJSON(c, a, b.(string)) }()
	}},
	{"NotContainsJSON", "closure", func(t *testing.T, c ctx.C, a, b any) {
		func() { test.NotContainsJSON(c, a, b.(string)) }()
	}},
	{"NotContainsJSON", "several lines", func(t *testing.T, c ctx.C, a, b any) {
		test.NotContainsJSON(
			c,
			a,
			b.(string),
		)
	}},
	{"NotContainsJSON", "selector on its own line", func(t *testing.T, c ctx.C, a, b any) {
		test.
			NotContainsJSON(c, a, b.(string))
	}},
	{"NotContainsJSON", "twice on a line", func(t *testing.T, c ctx.C, a, b any) {
		test.NotContainsJSON(c, a, b.(string))
		test.NotContainsJSON(c, a, b.(string))
	}},
	{"NotContainsJSON", "a method of the same name in an argument", func(t *testing.T, c ctx.C, a, b any) {
		test.NotContainsJSON(c, a, named{b}.NotContainsJSON().(string))
	}},
	{"NotContainsJSON", "results of a call", func(t *testing.T, c ctx.C, a, b any) {
		test.NotContainsJSON(spreadNotContainsJSON(t, c, a, b))
	}},
	{"NotContainsJSON", "reflection", func(t *testing.T, c ctx.C, a, b any) {
		reflect.ValueOf(test.NotContainsJSON).Call([]reflect.Value{val(c, 0, test.NotContainsJSON), val(a, 1, test.NotContainsJSON), val(b.(string), 2, test.NotContainsJSON)})
	}},
	{"NotContainsJSON", "generic", func(t *testing.T, c ctx.C, a, b any) {
		via(t, c, a, b, func(t *testing.T, c ctx.C, a, b any) { test.NotContainsJSON(c, a, b.(string)) })
	}},
	{"NotContainsJSON", "a variable", func(t *testing.T, c ctx.C, a, b any) {
		x, y := a, b
		use(x, y)
		a, b = y, x
		a, b = x, y
		if z := a; true {
			use(z, b)
			test.NotContainsJSON(c, a, b.(string))
		}
	}},
	{"NotContainsJSON", "statements", func(t *testing.T, c ctx.C, a, b any) {
	loop:
		for i := 0; i < 1; i++ {
			switch x := a.(type) {
			default:
				use(x, i)
				select {
				default:
					test.NotContainsJSON(c, a, b.(string))
					break loop
				}
			}
		}
	}},
	{"NotContainsJSON", "a function on the line", func(t *testing.T, c ctx.C, a, b any) {
		use(func() {}, func(x ...any) { test.NotContainsJSON(c, a, b.(string)) })
		test.NotContainsJSON(c, a, b.(string))
	}},
	{"Nil", "no source", func(t *testing.T, c ctx.C, a, b any) {
//line /nonexistent/source.go:7
		test.Nil(t, a)
//line forms.go:1000
	}},
	{"Nil", "source that is no Go", func(t *testing.T, c ctx.C, a, b any) {
//line /proc/self/cmdline:1
		test.Nil(t, a)
//line forms.go:1000
	}},
	{"Nil", "another line of the source", func(t *testing.T, c ctx.C, a, b any) {
//line gen.py:1
		test.Nil(t, a)
//line forms.go:1000
	}},
	{"NotNil", "no source", func(t *testing.T, c ctx.C, a, b any) {
//line /nonexistent/source.go:7
		test.NotNil(t, a)
//line forms.go:1000
	}},
	{"NotNil", "source that is no Go", func(t *testing.T, c ctx.C, a, b any) {
//line /proc/self/cmdline:1
		test.NotNil(t, a)
//line forms.go:1000
	}},
	{"NotNil", "another line of the source", func(t *testing.T, c ctx.C, a, b any) {
//line gen.py:1
		test.NotNil(t, a)
//line forms.go:1000
	}},
	{"Empty", "no source", func(t *testing.T, c ctx.C, a, b any) {
//line /nonexistent/source.go:7
		test.Empty(t, a)
//line forms.go:1000
	}},
	{"Empty", "source that is no Go", func(t *testing.T, c ctx.C, a, b any) {
//line /proc/self/cmdline:1
		test.Empty(t, a)
//line forms.go:1000
	}},
	{"Empty", "another line of the source", func(t *testing.T, c ctx.C, a, b any) {
//line gen.py:1
		test.Empty(t, a)
//line forms.go:1000
	}},
	{"NotEmpty", "no source", func(t *testing.T, c ctx.C, a, b any) {
//line /nonexistent/source.go:7
		test.NotEmpty(t, a)
//line forms.go:1000
	}},
	{"NotEmpty", "source that is no Go", func(t *testing.T, c ctx.C, a, b any) {
//line /proc/self/cmdline:1
		test.NotEmpty(t, a)
//line forms.go:1000
	}},
	{"NotEmpty", "another line of the source", func(t *testing.T, c ctx.C, a, b any) {
//line gen.py:1
		test.NotEmpty(t, a)
//line forms.go:1000
	}},
	{"Assert", "no source", func(t *testing.T, c ctx.C, a, b any) {
//line /nonexistent/source.go:7
		test.Assert(t, a.(bool))
//line forms.go:1000
	}},
	{"Assert", "source that is no Go", func(t *testing.T, c ctx.C, a, b any) {
//line /proc/self/cmdline:1
		test.Assert(t, a.(bool))
//line forms.go:1000
	}},
	{"Assert", "another line of the source", func(t *testing.T, c ctx.C, a, b any) {
//line gen.py:1
		test.Assert(t, a.(bool))
//line forms.go:1000
	}},
	{"NoError", "no source", func(t *testing.T, c ctx.C, a, b any) {
//line /nonexistent/source.go:7
		test.NoError(t, asErr(a))
//line forms.go:1000
	}},
	{"NoError", "source that is no Go", func(t *testing.T, c ctx.C, a, b any) {
//line /proc/self/cmdline:1
		test.NoError(t, asErr(a))
//line forms.go:1000
	}},
	{"NoError", "another line of the source", func(t *testing.T, c ctx.C, a, b any) {
//line gen.py:1
		test.NoError(t, asErr(a))
//line forms.go:1000
	}},
	{"Error", "no source", func(t *testing.T, c ctx.C, a, b any) {
//line /nonexistent/source.go:7
		test.Error(t, asErr(a))
//line forms.go:1000
	}},
	{"Error", "source that is no Go", func(t *testing.T, c ctx.C, a, b any) {
//line /proc/self/cmdline:1
		test.Error(t, asErr(a))
//line forms.go:1000
	}},
	{"Error", "another line of the source", func(t *testing.T, c ctx.C, a, b any) {
//line gen.py:1
		test.Error(t, asErr(a))
//line forms.go:1000
	}},
	{"EqualsType", "no source", func(t *testing.T, c ctx.C, a, b any) {
//line /nonexistent/source.go:7
		test.EqualsType(t, a, b)
//line forms.go:1000
	}},
	{"EqualsType", "source that is no Go", func(t *testing.T, c ctx.C, a, b any) {
//line /proc/self/cmdline:1
		test.EqualsType(t, a, b)
//line forms.go:1000
	}},
	{"EqualsType", "another line of the source", func(t *testing.T, c ctx.C, a, b any) {
//line gen.py:1
		test.EqualsType(t, a, b)
//line forms.go:1000
	}},
	{"EqualsGo", "no source", func(t *testing.T, c ctx.C, a, b any) {
//line /nonexistent/source.go:7
		test.EqualsGo(t, a, b)
//line forms.go:1000
	}},
	{"EqualsGo", "source that is no Go", func(t *testing.T, c ctx.C, a, b any) {
//line /proc/self/cmdline:1
		test.EqualsGo(t, a, b)
//line forms.go:1000
	}},
	{"EqualsGo", "another line of the source", func(t *testing.T, c ctx.C, a, b any) {
//line gen.py:1
		test.EqualsGo(t, a, b)
//line forms.go:1000
	}},
	{"NotEqualsGo", "no source", func(t *testing.T, c ctx.C, a, b any) {
//line /nonexistent/source.go:7
		test.NotEqualsGo(t, a, b)
//line forms.go:1000
	}},
	{"NotEqualsGo", "source that is no Go", func(t *testing.T, c ctx.C, a, b any) {
//line /proc/self/cmdline:1
		test.NotEqualsGo(t, a, b)
//line forms.go:1000
	}},
	{"NotEqualsGo", "another line of the source", func(t *testing.T, c ctx.C, a, b any) {
//line gen.py:1
		test.NotEqualsGo(t, a, b)
//line forms.go:1000
	}},
	{"EqualsStr", "no source", func(t *testing.T, c ctx.C, a, b any) {
//line /nonexistent/source.go:7
		test.EqualsStr(t, a.(string), b.(string))
//line forms.go:1000
	}},
	{"EqualsStr", "source that is no Go", func(t *testing.T, c ctx.C, a, b any) {
//line /proc/self/cmdline:1
		test.EqualsStr(t, a.(string), b.(string))
//line forms.go:1000
	}},
	{"EqualsStr", "another line of the source", func(t *testing.T, c ctx.C, a, b any) {
//line gen.py:1
		test.EqualsStr(t, a.(string), b.(string))
//line forms.go:1000
	}},
	{"NotEqualsStr", "no source", func(t *testing.T, c ctx.C, a, b any) {
//line /nonexistent/source.go:7
		test.NotEqualsStr(t, a.(string), b.(string))
//line forms.go:1000
	}},
	{"NotEqualsStr", "source that is no Go", func(t *testing.T, c ctx.C, a, b any) {
//line /proc/self/cmdline:1
		test.NotEqualsStr(t, a.(string), b.(string))
//line forms.go:1000
	}},
	{"NotEqualsStr", "another line of the source", func(t *testing.T, c ctx.C, a, b any) {
//line gen.py:1
		test.NotEqualsStr(t, a.(string), b.(string))
//line forms.go:1000
	}},
	{"Contains", "no source", func(t *testing.T, c ctx.C, a, b any) {
//line /nonexistent/source.go:7
		test.Contains(t, a.(string), b.(string))
//line forms.go:1000
	}},
	{"Contains", "source that is no Go", func(t *testing.T, c ctx.C, a, b any) {
//line /proc/self/cmdline:1
		test.Contains(t, a.(string), b.(string))
//line forms.go:1000
	}},
	{"Contains", "another line of the source", func(t *testing.T, c ctx.C, a, b any) {
//line gen.py:1
		test.Contains(t, a.(string), b.(string))
//line forms.go:1000
	}},
	{"NotContains", "no source", func(t *testing.T, c ctx.C, a, b any) {
//line /nonexistent/source.go:7
		test.NotContains(t, a.(string), b.(string))
//line forms.go:1000
	}},
	{"NotContains", "source that is no Go", func(t *testing.T, c ctx.C, a, b any) {
//line /proc/self/cmdline:1
		test.NotContains(t, a.(string), b.(string))
//line forms.go:1000
	}},
	{"NotContains", "another line of the source", func(t *testing.T, c ctx.C, a, b any) {
//line gen.py:1
		test.NotContains(t, a.(string), b.(string))
//line forms.go:1000
	}},
	{"ContainsGo", "no source", func(t *testing.T, c ctx.C, a, b any) {
//line /nonexistent/source.go:7
		test.ContainsGo(t, a, b.(string))
//line forms.go:1000
	}},
	{"ContainsGo", "source that is no Go", func(t *testing.T, c ctx.C, a, b any) {
//line /proc/self/cmdline:1
		test.ContainsGo(t, a, b.(string))
//line forms.go:1000
	}},
	{"ContainsGo", "another line of the source", func(t *testing.T, c ctx.C, a, b any) {
//line gen.py:1
		test.ContainsGo(t, a, b.(string))
//line forms.go:1000
	}},
	{"EqualsJSON", "no source", func(t *testing.T, c ctx.C, a, b any) {
//line /nonexistent/source.go:7
		test.EqualsJSON(c, a, b)
//line forms.go:1000
	}},
	{"EqualsJSON", "source that is no Go", func(t *testing.T, c ctx.C, a, b any) {
//line /proc/self/cmdline:1
		test.EqualsJSON(c, a, b)
//line forms.go:1000
	}},
	{"EqualsJSON", "another line of the source", func(t *testing.T, c ctx.C, a, b any) {
//line gen.py:1
		test.EqualsJSON(c, a, b)
//line forms.go:1000
	}},
	{"NotEqualsJSON", "no source", func(t *testing.T, c ctx.C, a, b any) {
//line /nonexistent/source.go:7
		test.NotEqualsJSON(c, a, b)
//line forms.go:1000
	}},
	{"NotEqualsJSON", "source that is no Go", func(t *testing.T, c ctx.C, a, b any) {
//line /proc/self/cmdline:1
		test.NotEqualsJSON(c, a, b)
//line forms.go:1000
	}},
	{"NotEqualsJSON", "another line of the source", func(t *testing.T, c ctx.C, a, b any) {
//line gen.py:1
		test.NotEqualsJSON(c, a, b)
//line forms.go:1000
	}},
	{"ContainsJSON", "no source", func(t *testing.T, c ctx.C, a, b any) {
//line /nonexistent/source.go:7
		test.ContainsJSON(c, a, b.(string))
//line forms.go:1000
	}},
	{"ContainsJSON", "source that is no Go", func(t *testing.T, c ctx.C, a, b any) {
//line /proc/self/cmdline:1
		test.ContainsJSON(c, a, b.(string))
//line forms.go:1000
	}},
	{"ContainsJSON", "another line of the source", func(t *testing.T, c ctx.C, a, b any) {
//line gen.py:1
		test.ContainsJSON(c, a, b.(string))
//line forms.go:1000
	}},
	{"NotContainsJSON", "no source", func(t *testing.T, c ctx.C, a, b any) {
//line /nonexistent/source.go:7
		test.NotContainsJSON(c, a, b.(string))
//line forms.go:1000
	}},
	{"NotContainsJSON", "source that is no Go", func(t *testing.T, c ctx.C, a, b any) {
//line /proc/self/cmdline:1
		test.NotContainsJSON(c, a, b.(string))
//line forms.go:1000
	}},
	{"NotContainsJSON", "another line of the source", func(t *testing.T, c ctx.C, a, b any) {
//line gen.py:1
		test.NotContainsJSON(c, a, b.(string))
//line forms.go:1000
	}},
}
