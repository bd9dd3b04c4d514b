// C29: the assertions of the test package, every one with every pair of values of an alphabet and in every form of call,
// run as tests by the testing package.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/test"
	"verif.local/mc/lib/vk"
	"verif.local/mc/lib/vtest"
)

type named struct{ v any }

func use(a ...any) {
	for _, v := range a {
		if f, ok := v.(func(x ...any)); ok {
			f()
		}
	}
}

// the i-th argument of f as a reflect.Value of its type
func val(v any, i int, f any) reflect.Value {
	rv := reflect.New(reflect.TypeOf(f).In(i)).Elem()
	if v != nil {
		rv.Set(reflect.ValueOf(v))
	}
	return rv
}

// ---------------------------------------------------------------- values

type myErr struct{ s string }

func (e *myErr) Error() string { return e.s }

type errList []error

func (e errList) Error() string { return fmt.Sprint(len(e)) }

type panics struct{ p *int }

func (p panics) String() string   { panic("no text") }
func (p panics) GoString() string { panic("no text") }

type nilStringer struct{ s string }

func (p *nilStringer) String() string { return p.s }

type ordered struct {
	B string
	A int
}
type ptrs struct{ P, Q *ptrs }

func localA() any { type local struct{ A int }; return local{} }
func localB() any { type local struct{ A int }; return local{} }

func alphabet() []any {
	one := 1
	return []any{
		nil, true, false, 0, 1, -1, int8(1), int64(1<<53 + 1), int64(1 << 53), uint64(math.MaxUint64), 1.0, 0.5, float32(0.1), math.NaN(), math.Inf(1), 1e21, complex(1, 2),
		"", "a", "1", "1.0", "10e-1", "-0", "9007199254740993", "9007199254740992", "1e400", "0.1", "1e21", `"a"`, "null", "[1]", " [ 1 ] ", `{"a":1,"b":2}`, `{"b":2, "a":1}`, `{"B":"x","A":1}`, "{", "[1][", "%d", "%!s(MISSING)", "\xff", "`\\\n", "true", "<a&b>",
		json.RawMessage(`{"a":1,"b":2.0}`), json.RawMessage(nil), json.RawMessage("{"), []byte(nil), []byte{}, []byte("[1]"), []byte("zz"), []byte("9007199254740993"),
		[]int{}, []int(nil), []int{1}, []any{nil}, [2]int{}, [0]int{}, map[string]int(nil), map[string]int{}, map[string]int{"a": 1, "b": 2}, map[int]string{1: "x"},
		struct{}{}, ordered{}, ordered{"x", 1}, &ordered{"x", 1}, (*ordered)(nil), named{}, named{1}, &ptrs{}, &ptrs{P: &ptrs{}}, &one, (*int)(nil), new(any), localA(), localB(),
		func() {}, (func())(nil), make(chan int), (chan int)(nil), make(chan int, 1), unsafe.Pointer(nil), unsafe.Pointer(&one), uintptr(0),
		errors.New("x"), &myErr{"x"}, (*myErr)(nil), errList{}, errList(nil), ctx.NewErrorf(nil, "in %s", "x"), ctx.Error{}, fmt.Errorf("w %w", ctx.NewErrorf(nil, "x")),
		panics{}, panics{&one}, &panics{}, &nilStringer{"s"}, (*nilStringer)(nil), time.Time{}, time.Unix(0, 0).UTC(), reflect.ValueOf(1), reflect.Value{},
		enc.Map{"a": enc.Integer(1), "b": enc.Integer(2)}, enc.Map(nil), enc.Integer(1), enc.Digits("1.0"), enc.Digits("9007199254740993"), enc.String("a"), enc.Nil{}, enc.List{enc.Integer(1)}, enc.Pairs{{Name: "B", JSON: "b", Value: enc.Integer(2)}, {Name: "A", JSON: "a", Value: enc.Integer(1)}},
	}
}

func show(v any) (s string) {
	defer func() {
		if recover() != nil {
			s = fmt.Sprintf("%T", v)
		}
	}()
	return fmt.Sprintf("%T(%.60q)", v, fmt.Sprintf("%+v", v))
}

// ---------------------------------------------------------------- what the assertions say

type verdict int

const (
	passes verdict = iota
	fails
	either  // the assertion says nothing of such values, but has to give a verdict
	refused // no such notion: it can't pass
)

func iff(b bool) verdict {
	if b {
		return passes
	}
	return fails
}

func not(v verdict) verdict {
	switch v {
	case passes:
		return fails
	case fails:
		return passes
	}
	return v
}

func isNil(v any) bool {
	if v == nil {
		return true
	}
	switch rv := reflect.ValueOf(v); rv.Kind() {
	case reflect.Slice, reflect.Map, reflect.Chan, reflect.Pointer, reflect.Func, reflect.UnsafePointer:
		return rv.IsNil()
	}
	return false
}

func empty(v any) verdict {
	if v == nil {
		return passes
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Pointer:
		return iff(rv.IsNil())
	case reflect.Slice, reflect.Map, reflect.Chan, reflect.String:
		return iff(rv.Len() == 0)
	case reflect.Struct:
		return iff(rv.IsZero())
	}
	return refused
}

// what the value is as JSON
func text(v any) (string, bool) {
	var in []byte
	switch x := v.(type) {
	case json.RawMessage:
		in = x
	case []byte:
		in = x
	case string:
		in = []byte(x)
	}
	if in != nil && json.Valid(in) {
		n, err := enc.JSON{}.Decode(context.Background(), in)
		if err != nil {
			return "", false
		}
		v = n
	}
	j, err := enc.MarshalJSON(context.Background(), v)
	return string(j), err == nil && json.Valid(j)
}

func parse(s string) any {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		panic(err)
	}
	return v
}

func sameJSON(a, b any) bool {
	switch a := a.(type) {
	case json.Number:
		b, ok := b.(json.Number)
		if !ok {
			return false
		}
		x, _ := new(big.Rat).SetString(string(a))
		y, _ := new(big.Rat).SetString(string(b))
		return x.Cmp(y) == 0
	case []any:
		b, ok := b.([]any)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !sameJSON(a[i], b[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		b, ok := b.(map[string]any)
		if !ok || len(a) != len(b) {
			return false
		}
		for k := range a {
			if v, ok := b[k]; !ok || !sameJSON(a[k], v) {
				return false
			}
		}
		return true
	}
	return a == b
}

func equalJSON(a, b any) verdict {
	x, okx := text(a)
	y, oky := text(b)
	if !okx && !oky {
		return either // nothing to compare
	}
	return iff(okx && oky && sameJSON(parse(x), parse(y)))
}

func containsJSON(a any, s string) verdict {
	x, ok := text(a)
	if !ok {
		return either
	}
	return iff(strings.Contains(x, s))
}

// the verdict of an assertion on values
func judge(helper string, a, b any) verdict {
	switch helper {
	case "Nil":
		return iff(isNil(a))
	case "NotNil":
		return iff(!isNil(a))
	case "Empty":
		return empty(a)
	case "NotEmpty":
		return not(empty(a))
	case "Assert":
		return iff(a.(bool))
	case "NoError", "Error":
		if a != nil && isNil(a) {
			return either // a nil pointer in an error
		}
		return iff((a == nil) == (helper == "NoError"))
	case "EqualsType":
		return iff(reflect.TypeOf(a) == reflect.TypeOf(b))
	case "EqualsGo":
		return iff(fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b))
	case "NotEqualsGo":
		return iff(fmt.Sprintf("%#v", a) != fmt.Sprintf("%#v", b))
	case "EqualsStr":
		return iff(a == b)
	case "NotEqualsStr":
		return iff(a != b)
	case "Contains":
		return iff(strings.Contains(a.(string), b.(string)))
	case "NotContains":
		return iff(!strings.Contains(a.(string), b.(string)))
	case "ContainsGo":
		return iff(strings.Contains(fmt.Sprintf("%#v", a), b.(string)))
	case "EqualsJSON":
		return equalJSON(a, b)
	case "NotEqualsJSON":
		return not(equalJSON(a, b))
	case "ContainsJSON":
		return containsJSON(a, b.(string))
	case "NotContainsJSON":
		return not(containsJSON(a, b.(string)))
	}
	panic(helper)
}

// ---------------------------------------------------------------- running

type tcase struct {
	key, what string
	want      verdict
	run       func(t *testing.T, c ctx.C)
	after     func() string // what is wrong otherwise
	a, b      any
}

type outcome struct {
	failed, returned bool
	panicked         any
}

// run the cases as tests of the testing package
func runAll(cs []tcase) []outcome {
	out := make([]outcome, len(cs))
	var tests []testing.InternalTest
	const batch = 400
	for lo := 0; lo < len(cs); lo += batch {
		lo := lo
		tests = append(tests, testing.InternalTest{Name: fmt.Sprint("batch", lo), F: func(t *testing.T) {
			t.Parallel()
			for i := lo; i < lo+batch && i < len(cs); i++ {
				i := i
				t.Run("case", func(t *testing.T) {
					o := &out[i]
					defer func() {
						if !o.returned {
							o.panicked = recover()
						}
						o.failed = t.Failed()
					}()
					cs[i].run(t, test.WithTester(context.Background(), t))
					o.returned = true
				})
			}
		}})
	}
	vtest.Run(tests)
	return out
}

func wrong(want verdict, o outcome) string {
	got := fails
	switch {
	case o.panicked != nil:
		if want == refused {
			return ""
		}
		return fmt.Sprintf("it panics: %v", o.panicked)
	case o.returned && o.failed:
		return "the test goes on after the failure"
	case !o.returned && !o.failed:
		return "the test stops and did not fail"
	case o.returned:
		got = passes
	}
	switch {
	case want == either, want == got, want == refused && got == fails:
		return ""
	case got == passes:
		return "it passes"
	}
	return "it fails"
}

// the defect of the test package which a wrong verdict is due to (it may not be edited here): what it predicts has to be
// what happened
func defect(c tcase, o outcome) string {
	helper, form, formed := strings.Cut(c.key, " as ")
	passed := o.returned && !o.failed
	_, crash := o.panicked.(runtime.Error)
	switch helper {
	case "Nil", "NotNil", "Empty", "NotEmpty":
		if formed && crash {
			switch form {
			case "function value", "field", "parentheses", "selector on its own line", "a method of the same name in an argument", "defer", "results of a call", "reflection", "no source", "source that is no Go", "another line of the source":
				return "Nil or Empty where the arguments can't be found in the source"
			}
		}
		if s, ok := c.a.(fmt.Stringer); ok && o.panicked != nil && func() (p bool) {
			defer func() { p = recover() != nil }()
			_ = s.String()
			return
		}() {
			return "a String method that panics"
		}
		switch reflect.ValueOf(c.a).Kind() {
		case reflect.Func, reflect.UnsafePointer:
			if o.panicked == nil && (helper == "Nil" || helper == "NotNil") && passed == (helper == "NotNil") && isNil(c.a) {
				return "a nil function or unsafe pointer"
			}
		}
	case "EqualsType":
		if passed && fmt.Sprintf("%T", c.a) == fmt.Sprintf("%T", c.b) {
			return "types of the same name"
		}
	case "EqualsJSON", "NotEqualsJSON", "ContainsJSON", "NotContainsJSON":
		is := false
		if strings.HasSuffix(helper, "EqualsJSON") {
			is = floats(c.a) == floats(c.b)
		} else {
			is = strings.Contains(floats(c.a), c.b.(string))
		}
		if o.panicked == nil && passed == (is != strings.HasPrefix(helper, "Not")) {
			return "JSON compared as text, its numbers as floats"
		}
	case "Shift of nothing", "Pop of nothing":
		if crash {
			return "Shift or Pop of a nil list"
		}
	}
	return ""
}

// what the helpers make of a value: JSON in the order of its fields, with the numbers of a text as floats
func floats(v any) string {
	var in []byte
	switch x := v.(type) {
	case json.RawMessage:
		in = x
	case []byte:
		in = x
	case string:
		in = []byte(x)
	}
	if json.Valid(in) {
		_ = json.Unmarshal(in, &v)
	}
	j, err := enc.MarshalJSON(context.Background(), v)
	if err != nil {
		return err.Error()
	}
	return string(j)
}

func main() {
	vk.Main("C29", "exploration", func(k *vk.Check) {
		vtest.Prepare()
		k.Rule("every assertion on every value, or pair of values, of an alphabet of awkward ones; every assertion in every form of call, with a true and a false condition; every list of up to four elements with every sequence of shifts and pops")
		k.Assume("Empty is about nil, strings, lists, maps, channels, pointers and structures: of anything else it must not pass, and may panic", "a nil pointer inside an error is judged by neither NoError nor Error, but by one of them only", "two values that can't be marshalled are not compared")
		vals := alphabet()
		k.Set("values", len(vals))
		k.Set("forms of call", len(forms))
		var order []string
		for _, f := range forms {
			if f.form == "direct" {
				order = append(order, f.helper)
			}
		}
		k.Set("assertions", len(order))
		var cs []tcase
		add := func(helper string, a, b any, two bool) {
			what := fmt.Sprintf("%s of %s", helper, show(a))
			if two {
				what += " and " + show(b)
			}
			cs = append(cs, tcase{key: helper, what: what, want: judge(helper, a, b), a: a, b: b, run: func(t *testing.T, c ctx.C) { direct[helper](t, c, a, b) }})
		}
		for _, h := range order {
			for _, a := range vals {
				switch h {
				case "Nil", "NotNil", "Empty", "NotEmpty":
					add(h, a, nil, false)
					continue
				case "Assert":
					if _, ok := a.(bool); ok {
						add(h, a, nil, false)
					}
					continue
				case "NoError", "Error":
					if _, ok := a.(error); ok || a == nil {
						add(h, a, nil, false)
					}
					continue
				case "EqualsStr", "NotEqualsStr", "Contains", "NotContains":
					if _, ok := a.(string); !ok {
						continue
					}
				}
				for _, b := range vals {
					switch h {
					case "EqualsStr", "NotEqualsStr", "Contains", "NotContains", "ContainsGo", "ContainsJSON", "NotContainsJSON":
						if _, ok := b.(string); !ok {
							continue
						}
					}
					add(h, a, b, true)
				}
			}
		}
		// two values that make the condition true and false
		truth := map[string][4]any{
			"Nil": {nil, nil, 1, nil}, "NotNil": {1, nil, nil, nil}, "Empty": {"", nil, "x", nil}, "NotEmpty": {"x", nil, "", nil},
			"Assert": {true, nil, false, nil}, "NoError": {nil, nil, errors.New("x"), nil}, "Error": {errors.New("x"), nil, nil, nil},
			"EqualsType": {1, 2, 1, "x"}, "EqualsGo": {1, 1, 1, 2}, "NotEqualsGo": {1, 2, 1, 1}, "EqualsStr": {"a", "a", "a", "b"}, "NotEqualsStr": {"a", "b", "a", "a"},
			"Contains": {"abc", "b", "abc", "x"}, "NotContains": {"abc", "x", "abc", "b"}, "ContainsGo": {"abc", "b", "abc", "x"},
			"EqualsJSON": {1, "1", 1, "2"}, "NotEqualsJSON": {1, "2", 1, "1"}, "ContainsJSON": {[]int{1}, "1", []int{1}, "2"}, "NotContainsJSON": {[]int{1}, "2", []int{1}, "1"},
		}
		for _, f := range forms {
			f := f
			v := truth[f.helper]
			for i, want := range []verdict{passes, fails} {
				a, b := v[2*i], v[2*i+1]
				if judge(f.helper, a, b) != want {
					panic(f.helper)
				}
				cs = append(cs, tcase{key: f.helper + " as " + f.form, what: fmt.Sprintf("%s called as %s, %v and %v", f.helper, f.form, a, b), want: want, a: a, b: b, run: func(t *testing.T, c ctx.C) { f.run(t, c, a, b) }})
			}
		}
		cs = append(cs, special()...)
		cs = append(cs, lists()...)

		out := runAll(cs)
		w := k.NewWorker(0)
		for i, c := range cs {
			w.Ev++
			bad := wrong(c.want, out[i])
			if bad == "" && c.after != nil {
				bad = c.after()
			}
			if bad != "" {
				key := c.key
				if d := defect(c, out[i]); d != "" {
					key = d
				}
				w.Violate(key, c.what+": "+bad, c.what)
				continue
			}
			w.Nt++
			w.Out(fmt.Sprint(strings.Split(c.key, " ")[0], " failed:", out[i].failed))
		}
		// of an error that holds a nil pointer one of the two passes
		for _, v := range vals {
			if e, ok := v.(error); ok && isNil(v) {
				two := runAll([]tcase{{run: func(t *testing.T, c ctx.C) { test.NoError(t, e) }}, {run: func(t *testing.T, c ctx.C) { test.Error(t, e) }}})
				w.Ev++
				if two[0].failed == two[1].failed {
					w.Violate("NoError", fmt.Sprintf("NoError and Error agree on %T", e), fmt.Sprintf("%T", e))
				}
			}
		}
		w.Flush()
		contexts(k)
	})
}

// calls that need their own text
func special() []tcase {
	return []tcase{
		{"NotNil of a function", "NotNil of an empty function literal", passes, func(t *testing.T, c ctx.C) { test.NotNil(t, func() {}) }, nil, nil, nil},
		{"Nil of a function", "Nil of an empty function literal", fails, func(t *testing.T, c ctx.C) { test.Nil(t, func() {}) }, nil, nil, nil},
		{"EqualsType of a function", "EqualsType of empty function literals", passes, func(t *testing.T, c ctx.C) { test.EqualsType(t, func() {}, func() {}) }, nil, nil, nil},
		{"EqualsType of a function", "EqualsType of function literals", fails, func(t *testing.T, c ctx.C) {
			test.EqualsType(t, func() { use(1); use(2) }, func() error { return nil })
		}, nil, nil, nil},
		{"OK", "OK", passes, func(t *testing.T, c ctx.C) { test.OK(t, "100%") }, nil, nil, nil},
		{"OK", "OK with arguments", passes, func(t *testing.T, c ctx.C) { test.OK(t, "%v", nil) }, nil, nil, nil},
		{"Fail", "Fail", fails, func(t *testing.T, c ctx.C) { test.Fail(t, "100%") }, nil, nil, nil},
		{"Fail", "Fail with arguments", fails, func(t *testing.T, c ctx.C) { test.Fail(t, "%v", nil) }, nil, nil, nil},
		{"Assert", "Assert of a condition over lines", passes, func(t *testing.T, c ctx.C) {
			test.Assert(t, len("a") == 1 &&
				len("bb") == 2)
		}, nil, nil, nil},
		{"Assert", "Assert of a call", fails, func(t *testing.T, c ctx.C) {
			test.Assert(t, func() bool {
				return false
			}())
		}, nil, nil, nil},
	}
}

// Shift and Pop on every list, in every order
func lists() (cs []tcase) {
	for n := 0; n <= 4; n++ {
		for ops := 0; ops < 1<<(n+1); ops++ {
			for take := 0; take <= n+1; take++ {
				if ops >= 1<<take {
					continue
				}
				n, ops, take := n, ops, take
				var msg string
				cs = append(cs, tcase{"Shift and Pop", fmt.Sprintf("%d elements, %d taken, by %b", n, take, ops), iff(take <= n), func(t *testing.T, c ctx.C) {
					var list []string
					if n > 0 {
						list = make([]string, 0, 8)
					}
					var model []string
					for i := 0; i < n; i++ {
						list = append(list, fmt.Sprint("e", i))
						model = append(model, fmt.Sprint("e", i))
					}
					for i := 0; i < take; i++ {
						before := len(list)
						if ops&(1<<i) == 0 {
							got := test.Shift(t, &list)
							if got != model[0] {
								msg = fmt.Sprintf("Shift gives %q of %q", got, model)
							}
							model = model[1:]
						} else {
							got := test.Pop(t, &list)
							if got != model[len(model)-1] {
								msg = fmt.Sprintf("Pop gives %q of %q", got, model)
							}
							model = model[:len(model)-1]
						}
						if len(list) != before-1 || strings.Join(list, " ") != strings.Join(model, " ") {
							msg = fmt.Sprintf("%q is left, not %q", list, model)
						}
					}
				}, func() string { return msg }, nil, nil})
			}
		}
	}
	for _, n := range []int{5, 9, 17, 40, 70} { // long ones
		for pattern := 0; pattern < 5; pattern++ {
			for _, take := range []int{n, n + 1} {
				n, pattern, take := n, pattern, take
				var msg string
				cs = append(cs, tcase{"Shift and Pop", fmt.Sprintf("%d elements, %d taken, pattern %d", n, take, pattern), iff(take <= n), func(t *testing.T, c ctx.C) {
					var list, model []string
					for i := 0; i < n; i++ {
						list, model = append(list, fmt.Sprint("e", i)), append(model, fmt.Sprint("e", i))
					}
					for i := 0; i < take; i++ {
						if []bool{true, false, i%2 == 0, i%3 == 0, i < n/2}[pattern] {
							if got := test.Shift(t, &list); got != model[0] {
								msg = fmt.Sprintf("Shift gives %q of %q", got, model)
							}
							model = model[1:]
						} else {
							if got := test.Pop(t, &list); got != model[len(model)-1] {
								msg = fmt.Sprintf("Pop gives %q of %q", got, model)
							}
							model = model[:len(model)-1]
						}
						if strings.Join(list, " ") != strings.Join(model, " ") {
							msg = fmt.Sprintf("%q is left, not %q", list, model)
						}
					}
				}, func() string { return msg }, nil, nil})
			}
		}
	}
	for _, nilList := range []bool{true, false} {
		l := &[]int{}
		if nilList {
			l = nil
		}
		cs = append(cs, tcase{"Shift of nothing", fmt.Sprint("Shift, nil: ", nilList), fails, func(t *testing.T, c ctx.C) { test.Shift(t, l) }, nil, nil, nil},
			tcase{"Pop of nothing", fmt.Sprint("Pop, nil: ", nilList), fails, func(t *testing.T, c ctx.C) { test.Pop(t, l) }, nil, nil, nil})
	}
	return
}

// the context of a test lives as long as the test
func contexts(k *vk.Check) {
	w := k.NewWorker(0)
	defer w.Flush()
	for _, fail := range []string{"", "Fail", "Skip", "subtest"} {
		var c, sub ctx.C
		var during, cleanup error
		var tester, helper bool
		var mu sync.Mutex
		runAll([]tcase{{run: func(t *testing.T, _ ctx.C) {
			mu.Lock()
			defer mu.Unlock()
			c = test.Context(t)
			tester = test.ExtractTester(c) == t
			t.Cleanup(func() { cleanup = c.Err() })
			during = c.Err()
			switch fail {
			case "Fail":
				test.Fail(t, "on purpose")
			case "Skip":
				t.Skip()
			case "subtest":
				t.Run("sub", func(t *testing.T) {
					sub = test.Context(t)
					test.EqualsJSON(sub, 1, 1)
					helper = test.ExtractTester(sub) == t
				})
				if sub.Err() == nil || c.Err() != nil {
					during = errors.New("context of the subtest")
				}
			}
		}}})
		w.Ev++
		if c == nil || during != nil || c.Err() == nil || !tester || fail == "subtest" && !helper {
			w.Violate("Context", fmt.Sprintf("test %q: context %v during, %v after the test, tester %v %v", fail, during, c.Err(), tester, helper), fail)
		}
		_ = cleanup // cleanups run in reverse, so this one sees it alive
		if cleanup != nil {
			w.Violate("Context", fmt.Sprintf("test %q: the context is over before a later cleanup: %v", fail, cleanup), fail)
		}
		w.Nt++
		w.Out("context")
	}
	if test.ExtractTester(nil) != nil || test.ExtractTester(context.Background()) != nil {
		w.Violate("ExtractTester", "a tester from nowhere", "")
	}
}
