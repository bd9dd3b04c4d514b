// C04: marshalling and unmarshalling report errors, never crash.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"log/slog"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/enc"
	"verif.local/mc/lib/vk"
)

var c = log.WithLogFunc(ctx.TODO(), func(ctx.C, slog.Level, string, string, ...any) {})

type nBool bool
type nStr string
type nInt int8
type nTime time.Time
type nDur time.Duration
type nMap map[string]int
type nSlice []nInt
type nAny any
type st0 struct{}
type st1 struct {
	A int
	B string `json:"b"`
	s int
	D bool `json:"-"`
}
type emb struct {
	st1
	St2
	P *St2 `json:"p"`
}
type St2 struct {
	X any      `json:"x"`
	Y []string `json:"a"`
	Z map[string]int
	E error
}
type rec struct {
	Next *rec           `json:"a"`
	M    map[string]rec `json:"b"`
	L    []rec          `json:"x"`
}
type stIface struct {
	S fmt.Stringer `json:"a"`
	F func()       `json:"b"`
	C chan int     `json:"x"`
}
type um struct{ got enc.Node }

func (u *um) UnmarshalNode(c ctx.C, n enc.Node) error {
	u.got = n
	if _, ok := n.(enc.Bool); ok {
		return errors.New("no bools")
	}
	return nil
}

type jum struct{ got string }

func (u *jum) UnmarshalJSON(b []byte) error {
	u.got = string(b)
	if len(b) > 0 && b[0] == '[' {
		return errors.New("no lists")
	}
	return nil
}

func rt[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

func targets() []reflect.Type {
	base := []reflect.Type{
		rt[bool](), rt[nBool](), rt[int](), rt[int8](), rt[uint8](), rt[uint](), rt[uint64](), rt[float32](), rt[float64](), rt[string](), rt[nStr](), rt[nInt](),
		rt[complex128](), rt[uintptr](), rt[unsafe.Pointer](), rt[chan int](), rt[func()](),
		rt[any](), rt[nAny](), rt[fmt.Stringer](), rt[error](), rt[enc.Marshaler](), rt[enc.Numeric](), rt[interface{ M() }](), rt[json.Marshaler](),
		rt[time.Time](), rt[nTime](), rt[time.Duration](), rt[nDur](), rt[enc.Time](), rt[enc.Duration](), rt[json.RawMessage](), rt[json.Number](),
		rt[enc.Node](), rt[enc.Map](), rt[enc.List](), rt[enc.Pairs](), rt[enc.String](), rt[enc.Bool](), rt[enc.Integer](), rt[enc.Float](), rt[enc.Digits](), rt[enc.Nil](),
		rt[st0](), rt[st1](), rt[emb](), rt[St2](), rt[rec](), rt[stIface](), rt[um](), rt[jum](), rt[nMap](), rt[nSlice](),
		rt[[0]int](), rt[[1]int](), rt[[2]any](), rt[[2]fmt.Stringer](), rt[[1][1]st1](),
		rt[map[string]any](), rt[map[int]any](), rt[map[uint8]string](), rt[map[nStr]int](), rt[map[nInt]bool](), rt[map[bool]int](), rt[map[float64]int](), rt[map[any]int](),
		rt[map[fmt.Stringer]int](), rt[map[[1]string]int](), rt[map[st0]int](), rt[map[*int]int](), rt[map[time.Time]int](), rt[map[enc.Time]int](), rt[map[enc.Duration]any](), rt[map[um]int](), rt[map[string]fmt.Stringer](), rt[map[string]func()](),
		rt[struct{ A, a any }](), rt[struct {
			A **int `json:"a"`
		}](),
	}
	out := append([]reflect.Type{}, base...)
	for _, t := range base {
		out = append(out, reflect.PointerTo(t), reflect.SliceOf(t), reflect.PointerTo(reflect.PointerTo(t)))
	}
	for _, t := range base {
		out = append(out, reflect.MapOf(rt[string](), t), reflect.ArrayOf(1, t),
			reflect.StructOf([]reflect.StructField{{Name: "A", Type: t, Tag: `json:"a"`}, {Name: "B", Type: reflect.PointerTo(t), Tag: `json:"b,omitempty"`}}))
	}
	return out
}

// special: the type (somewhere inside) decides for itself what it accepts, or the documents' numbers matter (C02).
func special(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	p := reflect.PointerTo(t)
	if p.Implements(rt[enc.Unmarshaler]()) || p.Implements(rt[json.Unmarshaler]()) || t == rt[json.RawMessage]() || t == rt[time.Time]() || t == rt[enc.Node]() || t == rt[enc.Nil]() ||
		t == rt[nTime]() || t == rt[nDur]() || t == rt[time.Duration]() {
		return true
	}
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Array:
		return special(t.Elem(), seen)
	case reflect.Map:
		switch t.Key().Kind() {
		case reflect.String, reflect.Int, reflect.Int8, reflect.Uint8:
		default:
			return true
		}
		return special(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if special(t.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}

// compat says whether a document (as encoding/json sees it with UseNumber) fits a type.
func compat(v any, t reflect.Type) bool {
	if v == nil {
		return true
	}
	switch t.Kind() {
	case reflect.Pointer:
		return compat(v, t.Elem())
	case reflect.Interface:
		if t == rt[enc.Node]() {
			return true
		}
		return t.NumMethod() == 0
	case reflect.Bool:
		_, ok := v.(bool)
		return ok
	case reflect.String:
		switch v.(type) {
		case string, json.Number:
			return true
		}
		return false
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, ok := v.(json.Number)
		if !ok || strings.ContainsAny(string(n), "eE") {
			return false
		}
		i, _, _ := strings.Cut(string(n), ".")
		x, err := strconv.ParseInt(i, 10, t.Bits())
		return err == nil && (x != 0 || true)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, ok := v.(json.Number)
		if !ok || strings.ContainsAny(string(n), "eE") {
			return false
		}
		i, _, _ := strings.Cut(string(n), ".")
		_, err := strconv.ParseUint(i, 10, t.Bits())
		return err == nil
	case reflect.Float32, reflect.Float64:
		n, ok := v.(json.Number)
		if !ok {
			return false
		}
		_, err := strconv.ParseFloat(string(n), t.Bits())
		return err == nil
	case reflect.Slice:
		l, ok := v.([]any)
		if !ok {
			return false
		}
		for _, e := range l {
			if !compat(e, t.Elem()) {
				return false
			}
		}
		return true
	case reflect.Array:
		l, ok := v.([]any)
		if !ok || len(l) != t.Len() {
			return false
		}
		for _, e := range l {
			if !compat(e, t.Elem()) {
				return false
			}
		}
		return true
	case reflect.Map:
		m, ok := v.(map[string]any)
		if !ok {
			return false
		}
		for k, e := range m {
			switch t.Key().Kind() {
			case reflect.String:
			case reflect.Int, reflect.Int8:
				if _, err := strconv.ParseInt(k, 10, t.Key().Bits()); err != nil {
					return false
				}
			case reflect.Uint8:
				if _, err := strconv.ParseUint(k, 10, 8); err != nil {
					return false
				}
			}
			if !compat(e, t.Elem()) {
				return false
			}
		}
		return true
	case reflect.Struct:
		m, ok := v.(map[string]any)
		if !ok {
			return false
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !f.IsExported() || f.Tag.Get("json") == "-" {
				continue
			}
			if e, ok := m[fieldName(f)]; ok && !compat(e, f.Type) {
				return false
			}
		}
		return true
	}
	return false
}

func fieldName(f reflect.StructField) string {
	n, _, _ := strings.Cut(f.Tag.Get("json"), ",")
	if n == "" {
		return f.Name
	}
	return n
}

func docs(thorough bool) []string {
	leaves := []string{"null", "true", "0", "7", "-1", "300", "1.5", "1e2", "1e999", `""`, `"x"`, `"7"`, `"2024-01-02T03:04:05Z"`, `"1m3s"`}
	keys := []string{"a", "b", "A", "x", "p", "", "7", "-1", "s", "-", "St2"}
	out := append([]string{}, leaves...)
	lvl := func(in []string, two bool) (o []string) {
		o = append(o, "[]", "{}")
		for _, a := range in {
			o = append(o, "["+a+"]")
			for _, k := range keys {
				o = append(o, fmt.Sprintf("{%q:%s}", k, a))
			}
		}
		if two {
			for i, a := range in {
				for j, b := range in {
					o = append(o, "["+a+","+b+"]")
					o = append(o, fmt.Sprintf("{%q:%s,%q:%s}", keys[(i+j)%len(keys)], a, keys[(i+2*j+1)%len(keys)], b), fmt.Sprintf(`{"a":%s,"b":%s}`, a, b))
				}
			}
		}
		return
	}
	l1 := lvl(leaves, true)
	small := []string{"null", "true", "7", `"x"`, "[]", "{}", "[7]", `{"a":7}`, `{"b":"x"}`, `{"a":null}`, `[null]`, `{"x":[7]}`}
	l2 := lvl(small, true)
	out = append(append(out, l1...), l2...)
	l3 := lvl(l1[:k3(thorough, len(l1))], false)
	out = append(out, l3...)
	if thorough {
		out = append(out, lvl(l3, false)...)
	}
	// the same document may appear twice; keep one
	seen := map[string]bool{}
	uniq := out[:0]
	for _, d := range out {
		if !seen[d] {
			seen[d] = true
			uniq = append(uniq, d)
		}
	}
	return uniq
}
func k3(t bool, n int) int {
	if t {
		return n
	}
	return 160
}

// nodes that no document decodes to, but programs can build.
func oddNodes() []enc.Node {
	leaves := []enc.Node{nil, enc.Nil{}, enc.Bool(true), enc.Integer(7), enc.Integer(-300), enc.Float(1.5), enc.Float(math.NaN()), enc.Float(math.Inf(1)), enc.Digits("12"), enc.Digits("zzz"), enc.Digits(""),
		enc.String("x"), enc.String("12"), enc.Time(time.Unix(1700000000, 5).UTC()), enc.Duration(time.Second), enc.Duration(65), enc.Map(nil), enc.List(nil), enc.Pairs(nil)}
	out := append([]enc.Node{}, leaves...)
	for _, a := range leaves {
		out = append(out, enc.List{a}, enc.List{a, enc.Nil{}}, enc.Map{"a": a}, enc.Map{"7": a}, enc.Pairs{{Name: "A", JSON: "a", Value: a}}, enc.List{enc.List{a}}, enc.Map{"b": enc.Map{"a": a}}, enc.List{enc.Pairs{{JSON: "x", Value: a}}}, enc.Pairs{{JSON: "", Value: a}, {JSON: "", Value: a}},
			enc.Pairs{{JSON: "p", Value: enc.Pairs{{JSON: "x", Value: enc.List{a}}}}})
	}
	return out
}

func main() {
	vk.Main("C04", "exploration", func(k *vk.Check) {
		k.Rule("cases: every document of the stated grammar (14 scalars, lists and objects of up to two members, nested) and every hand-buildable tree including nil children, into every target type (82 base types, and pointers, slices, maps, arrays and structs of them), from text and from trees; and every awkward Go value through Marshal. Non-trivial: outcome (accepted/refused) was predicted by the shape table, or the target is self-deciding and did not crash.")
		ts := targets()
		ds := docs(k.Thorough())
		k.Set("documents", len(ds))
		k.Set("target_types", len(ts))
		sp := make([]bool, len(ts))
		for i, t := range ts {
			sp[i] = special(t, map[reflect.Type]bool{})
		}
		k.Par(int64(len(ds)), func(w *vk.Worker, i int64) {
			doc := ds[i]
			d := json.NewDecoder(strings.NewReader(doc))
			d.UseNumber()
			var model any
			if err := d.Decode(&model); err != nil {
				panic(doc)
			}
			n, err := enc.JSON{}.Decode(c, []byte(doc))
			if err != nil {
				k.Violate("decode "+doc, err.Error(), doc)
				return
			}
			for ti, t := range ts {
				w.Note(doc + " -> " + t.String())
				for _, via := range []string{"text", "node"} {
					w.Ev++
					var err error
					perr := vk.Catch(func() error {
						p := reflect.New(t).Interface()
						if via == "text" {
							err = enc.UnmarshalJSON(c, []byte(doc), p)
						} else {
							err = enc.Unmarshal(c, n, p)
						}
						return nil
					})
					key := fmt.Sprintf("%s -> %v", doc, t)
					rep := map[string]any{"document": doc, "type": t.String(), "via": via}
					if perr != nil {
						k.Violate("panic "+t.String()+" "+kindOf(model), key+": "+perr.Error(), rep)
						continue
					}
					if sp[ti] {
						w.Out(fmt.Sprintf("special-%v", err == nil))
						w.Nt++
						continue
					}
					want := compat(model, t)
					if want != (err == nil) {
						k.Violate("shape "+t.String()+" "+kindOf(model), fmt.Sprintf("%s: fits=%v but error is %v", key, want, err), rep)
						continue
					}
					w.Nt++
					w.Out(fmt.Sprintf("fits-%v", want))
					if w.Ev%40009 == 0 {
						k.Sample(fmt.Sprintf("fits-%v", want), key)
					}
				}
			}
		})
		odd := oddNodes()
		k.Set("odd_trees", len(odd))
		k.Par(int64(len(odd)), func(w *vk.Worker, i int64) {
			for _, t := range ts {
				w.Ev++
				w.Note(fmt.Sprintf("odd tree %d -> %v", i, t))
				perr := vk.Catch(func() error { _ = enc.Unmarshal(c, odd[i], reflect.New(t).Interface()); return nil })
				if perr != nil {
					k.Violate(fmt.Sprintf("panic tree %s -> %v", showNode(odd[i]), t), perr.Error(), showNode(odd[i]))
					continue
				}
				w.Nt++
			}
			for _, f := range []func() error{
				func() error { _, err := enc.MarshalJSON(c, odd[i]); return err },
				func() error { _, err := enc.MarshalJSON(c, []any{odd[i]}); return err },
				func() error { _, err := enc.MarshalJSON(c, struct{ A any }{odd[i]}); return err },
			} {
				w.Ev++
				if _, ok := vk.IsPanic(vk.Catch(f)); ok {
					k.Violate(fmt.Sprintf("panic encoding tree %s", showNode(odd[i])), vk.Catch(f).Error(), showNode(odd[i]))
				}
			}
		})
		badTargets(k)
		marshals(k)
		unhandled(k)
		manyUnhandled(k)
		factories(k)
	})
}

func kindOf(v any) string {
	switch v := v.(type) {
	case []any:
		if len(v) > 0 {
			return "list of " + kindOf(v[0])
		}
		return "list"
	case map[string]any:
		ks := []string{}
		for k, e := range v {
			ks = append(ks, k+":"+kindOf(e))
		}
		sort.Strings(ks)
		return "object " + strings.Join(ks, ",")
	}
	return fmt.Sprintf("%T", v)
}

func showNode(n enc.Node) string {
	switch n := n.(type) {
	case nil:
		return "nil"
	case enc.List:
		o := []string{}
		for _, e := range n {
			o = append(o, showNode(e))
		}
		return "List[" + strings.Join(o, " ") + "]"
	case enc.Map:
		o := []string{}
		for k, e := range n {
			o = append(o, fmt.Sprintf("%q:%s", k, showNode(e)))
		}
		sort.Strings(o)
		return "Map{" + strings.Join(o, " ") + "}"
	case enc.Pairs:
		o := []string{}
		for _, e := range n {
			o = append(o, fmt.Sprintf("%q:%s", e.JSON, showNode(e.Value)))
		}
		return "Pairs{" + strings.Join(o, " ") + "}"
	case enc.Time:
		return "Time"
	}
	return fmt.Sprintf("%T(%v)", n, n)
}

func badTargets(k *vk.Check) {
	var np *int
	var ni any
	for name, into := range map[string]any{"nil": nil, "int": 3, "string": "x", "nil *int": np, "nil any": ni, "map": map[string]any{}, "slice": []int{}, "struct": st1{}, "func": func() {}} {
		for _, doc := range []string{"null", "7", "{}", "[]"} {
			k.Evals(1)
			var err error
			perr := vk.Catch(func() error { err = enc.UnmarshalJSON(c, []byte(doc), into); return nil })
			if perr != nil {
				k.Violate("bad target "+name, fmt.Sprintf("%s into %s: %v", doc, name, perr), name)
			} else if err == nil {
				k.Violate("bad target "+name, fmt.Sprintf("%s into %s reported success", doc, name), name)
			}
			k.Nontrivial(1)
		}
	}
}

type failing struct{}

func (failing) MarshalNode(ctx.C) (enc.Node, error) { return nil, errors.New("boom") }

type empty struct{}

func (empty) MarshalNode(ctx.C) (enc.Node, error) { return nil, nil }

type badJSON struct{ s string }

func (b badJSON) MarshalJSON() ([]byte, error) {
	if b.s == "err" {
		return nil, errors.New("boom")
	}
	return []byte(b.s), nil
}

func marshals(k *vk.Check) {
	x := 5
	px := &x
	var nilRec *rec
	var nilErr error
	base := []struct {
		name string
		v    any
		ok   int // 1 must succeed, -1 must fail, 0 either
	}{
		{"nil", nil, 1}, {"chan", make(chan int), -1}, {"nil chan", (chan int)(nil), -1}, {"func", func() {}, -1}, {"nil func", (func())(nil), -1}, {"complex", complex(1, 2), -1}, {"complex64", complex64(1), -1},
		{"uintptr", uintptr(3), 0}, {"unsafe", unsafe.Pointer(px), -1}, {"nil unsafe", unsafe.Pointer(nil), -1},
		{"NaN", math.NaN(), -1}, {"Inf", float32(math.Inf(-1)), -1}, {"**int", &px, 1}, {"nil *rec", nilRec, 1}, {"nil error", nilErr, 1}, {"error", errors.New("plain"), 0},
		{"ctx error", ctx.NewErrorf(c, "boo"), 1}, {"zero ctx error", ctx.Error{}, 1}, {"zero *ctx error", &ctx.Error{}, 1}, {"*time", (*time.Time)(nil), 1}, {"nil *vm", (*um)(nil), 1}, {"failing", failing{}, -1}, {"empty node", empty{}, 1}, {"*empty", &empty{}, 1},
		{"bad json", badJSON{"{"}, -1}, {"trailing json", badJSON{"1 2"}, -1}, {"no json", badJSON{""}, 0}, {"err json", badJSON{"err"}, -1}, {"good json", badJSON{"[1]"}, 1},
		{"map[bool]", map[bool]int{true: 1}, -1}, {"map[struct]", map[st0]int{{}: 1}, -1}, {"map[any]", map[any]int{"x": 1, 7: 2}, 1}, {"map[any]nil", map[any]int{nil: 1}, -1}, {"map[any]chan", map[any]int{make(chan int): 1}, -1},
		{"map[[1]int]", map[[1]int]int{{1}: 1}, -1}, {"map[float]", map[float64]int{1.5: 1}, 1}, {"map[nStr]", map[nStr]int{"x": 1}, 1}, {"map[*int]", map[*int]int{px: 1}, 0}, {"map[error]", map[error]int{errors.New("x"): 1}, 0},
		{"map chan", map[string]chan int{"a": nil}, -1}, {"[]func", []func(){nil}, -1}, {"[]any nil", []any{nil, nilRec, (*int)(nil)}, 1}, {"[0]", [0]int{}, 1}, {"struct chan", stIface{}, -1},
		{"emb", emb{}, 1}, {"time max", time.Unix(1<<40, 0), 0}, {"time min", time.Unix(-1<<40, 0), 0}, {"duration", time.Duration(math.MinInt64), 1}, {"raw bad", json.RawMessage("{"), -1}, {"raw nil", json.RawMessage(nil), 1},
		{"number", json.Number("12"), 0}, {"number bad", json.Number("x"), 0}, {"reflect", reflect.ValueOf(3), 0}, {"nested any", map[string]any{"a": []any{map[int]any{1: struct{ X any }{&px}}}}, 1},
		{"invalid utf8", "\xff\xfe", 1}, {"key invalid utf8", map[string]int{"\xff": 1}, 1},
	}
	for _, b := range base {
		for wrap, v := range map[string]any{"": b.v, "slice ": []any{b.v}, "map ": map[string]any{"k": b.v}, "struct ": struct {
			A any `json:"a"`
		}{b.v}, "omit ": struct {
			A any `json:"a,omitempty"`
		}{b.v}, "ptr ": &b.v} {
			for _, how := range []string{"Marshal", "MarshalJSON"} {
				k.Evals(1)
				var err error
				var j []byte
				perr := vk.Catch(func() error {
					if how == "Marshal" {
						_, err = enc.Marshal(c, v)
					} else {
						j, err = enc.MarshalJSON(c, v)
					}
					return nil
				})
				key := how + " " + wrap + b.name
				switch {
				case perr != nil:
					k.Violate(key, key+": "+perr.Error(), key)
				case b.ok > 0 && err != nil:
					k.Violate(key, key+" refused: "+err.Error(), key)
				case b.ok < 0 && err == nil:
					k.Violate(key, key+" accepted: "+string(j), key)
				case err == nil && how == "MarshalJSON" && !json.Valid(j):
					k.Violate(key, key+" gave an invalid document: "+string(j), key)
				}
				k.Nontrivial(1)
				k.Outcome(fmt.Sprintf("marshal-ok-%v", err == nil))
			}
		}
	}
}

// unhandled: the callback sees exactly the members that have no field, with the right path, and its error stops the call.
func unhandled(k *vk.Check) {
	type L3 struct {
		Z int `json:"z"`
	}
	type L2 struct {
		C L3            `json:"c"`
		M map[string]L3 `json:"m"`
		L []L3          `json:"l"`
		H int           `json:"-"`
	}
	type L1 struct {
		A int `json:"a"`
		B *L2 `json:"b"`
		u int
	}
	extra := []string{"q", "r", "", "u", "H", "-"}
	values := []enc.Node{enc.Integer(0), enc.Nil{}, enc.String(""), enc.Map{}, enc.List{}, enc.Bool(false), enc.Digits("3")}
	for mask := 0; mask < 1<<len(extra); mask++ {
		for _, at := range []string{"top", "b", "c", "m", "l"} {
			obj := enc.Map{}
			want := []string{}
			for i, e := range extra {
				if mask>>i&1 == 1 {
					v := values[(i+mask/3)%len(values)]
					obj[e] = v
					want = append(want, fmt.Sprintf("%s=%v", e, v))
				}
			}
			var doc enc.Node
			b := enc.Map{}
			switch at {
			case "top":
				obj["a"] = enc.Integer(1)
				doc = obj
			case "b":
				doc = enc.Map{"b": obj}
			case "c":
				b["c"] = obj
				doc = enc.Map{"a": enc.Integer(1), "b": b}
			case "m":
				b["m"] = enc.Map{"k1": obj}
				doc = enc.Map{"b": b}
			case "l":
				b["l"] = enc.List{enc.Map{"z": enc.Integer(3)}, obj}
				doc = enc.Map{"b": b}
			}
			var paths [][]any
			var nodes []enc.Node
			h := enc.Handler{UnhandledFields: func(c ctx.C, path []any, n enc.Node) error {
				paths = append(paths, path)
				nodes = append(nodes, n)
				return nil
			}}
			k.Evals(1)
			k.Nontrivial(1)
			var into L1
			err := vk.Catch(func() error { return h.Unmarshal(c, doc, &into) })
			got := []string{}
			for i := range paths {
				got = append(got, fmt.Sprintf("%v=%v", paths[i][len(paths[i])-1], nodes[i]))
			}
			sort.Strings(got)
			sort.Strings(want)
			if err != nil || strings.Join(got, ";") != strings.Join(want, ";") {
				k.Violate("unhandled "+at, fmt.Sprintf("at %s: callback saw %q, members without a field are %q (%v)", at, got, want, err), vk.JSON(doc))
			}
			lead := map[string][]string{"top": {}, "b": {"B"}, "c": {"B", "C"}, "m": {"B", "M", "*"}, "l": {"B", "L", "1"}}[at]
			for _, p := range paths {
				p := noTypes(p)
				ok := len(p) == len(lead)+1
				for i := 0; ok && i < len(lead); i++ {
					_, isInt := p[i].(int)
					ok = lead[i] == "*" || strings.EqualFold(fmt.Sprint(p[i]), lead[i]) && isInt == (lead[i] == "1")
				}
				if !ok {
					k.Violate("unhandled path "+at, fmt.Sprintf("at %s: the path given is %v, want %v and the name", at, p, lead), vk.JSON(doc))
				}
			}
			// as text, and as pairs
			for _, via := range []string{"text", "pairs"} {
				var src enc.Node = pairsOf(doc)
				if via == "text" {
					if src, err = (enc.JSON{}).Decode(c, enc.JSON{}.Encode(c, doc)); err != nil {
						k.Violate("unhandled text", err.Error(), vk.JSON(doc))
						continue
					}
				}
				nodes, paths = nil, nil
				err := vk.Catch(func() error { return h.Unmarshal(c, src, &into) })
				got := []string{}
				for i := range paths {
					if p, ok := nodes[i].(enc.Pairs); ok {
						nodes[i] = p.AsMap()
					}
					got = append(got, fmt.Sprintf("%v=%v", paths[i][len(paths[i])-1], nodes[i]))
				}
				sort.Strings(got)
				if err != nil || strings.Join(got, ";") != strings.Join(want, ";") {
					k.Violate("unhandled "+via+" "+at, fmt.Sprintf("at %s as %s: callback saw %q, members without a field are %q (%v)", at, via, got, want, err), vk.JSON(doc))
				}
			}
			if len(want) > 0 {
				n := 0
				h.UnhandledFields = func(c ctx.C, path []any, n2 enc.Node) error { n++; return errors.New("stop it") }
				err := vk.Catch(func() error { return h.Unmarshal(c, doc, &into) })
				if err == nil || !strings.Contains(err.Error(), "stop it") || n != 1 {
					k.Violate("unhandled error "+at, fmt.Sprintf("callback error did not stop the call: %v after %d calls", err, n), vk.JSON(doc))
				}
			}
		}
	}
}

// noTypes leaves out the types a path may begin with.
func noTypes(p []any) (out []any) {
	for _, e := range p {
		if _, ok := e.(reflect.Type); !ok {
			out = append(out, e)
		}
	}
	return out
}

// pairsOf gives the same tree with every object as pairs.
func pairsOf(n enc.Node) enc.Node {
	switch n := n.(type) {
	case enc.Map:
		p := enc.Pairs{}
		for k, v := range n {
			p = append(p, enc.Pair{Name: "N", JSON: k, Value: pairsOf(v)})
		}
		return p
	case enc.List:
		l := enc.List{}
		for _, v := range n {
			l = append(l, pairsOf(v))
		}
		return l
	}
	return n
}

// manyUnhandled: lists of objects with up to n members that have no field; all are reported, or the m-th stops the call.
func manyUnhandled(k *vk.Check) {
	type elem struct {
		A int            `json:"a"`
		N []elem         `json:"n"`
		M map[string]int `json:"m"`
	}
	k.Par(int64(k.Pick(70, 150)), func(w *vk.Worker, i int64) {
		n := int(i) + 1
		for stop := 0; stop <= n; stop++ { // 0: none
			list := enc.List{}
			want := map[string]bool{}
			for j := 0; j < n; j++ {
				e := enc.Map{"a": enc.Integer(j)}
				switch j % 3 {
				case 0:
					e[fmt.Sprint("x", j)] = enc.Integer(j)
				case 1:
					e = enc.Map{"n": enc.List{enc.Map{}, enc.Map{fmt.Sprint("x", j): enc.Integer(j)}}}
				case 2:
					for d := 0; d < 12; d++ {
						e = enc.Map{"n": enc.List{e}}
						if d == 0 {
							e["n"].(enc.List)[0].(enc.Map)[fmt.Sprint("x", j)] = enc.Integer(j)
						}
					}
				}
				want[fmt.Sprint("x", j)] = true
				list = append(list, e)
			}
			calls := 0
			bad := ""
			h := enc.Handler{UnhandledFields: func(_ ctx.C, path []any, v enc.Node) error {
				calls++
				name := fmt.Sprint(path[len(path)-1])
				if !want[name] || "x"+v.String() != name || noTypes(path)[0] != int(v.(enc.Integer)) {
					bad = fmt.Sprintf("call %d is for %v=%v", calls, path, v)
				}
				delete(want, name)
				if calls == stop {
					return errors.New("stop it")
				}
				return nil
			}}
			var into []elem
			err := vk.Catch(func() error { return h.Unmarshal(c, list, &into) })
			w.Ev++
			w.Nt++
			switch {
			case bad != "":
			case stop == 0 && (err != nil || calls != n || len(want) > 0 || len(into) != n):
				bad = fmt.Sprintf("%d calls, error %v, not reported: %v", calls, err, want)
			case stop > 0 && (err == nil || calls != stop):
				bad = fmt.Sprintf("%d calls, error %v", calls, err)
			}
			if bad != "" {
				k.Violate("many unhandled", fmt.Sprintf("%d members without a field, stop at %d: %s", n, stop, bad), n)
			}
		}
	})
	// one misfit among many
	docs := map[string]string{"int": "7", "string": `"x"`, "list": "[1]", "object": `{"a":1}`, "bool": "true", "big": "1e99", "null": "null"}
	k.Par(int64(k.Pick(70, 150)), func(w *vk.Worker, i int64) {
		n := int(i) + 1
		for at := 0; at < n; at++ {
			if n > 40 && at > 3 && at < n-3 && at%8 > 1 {
				continue
			}
			for name, d := range docs {
				list, obj := make([]string, n), make([]string, n)
				for j := range list {
					list[j] = "5"
					if j == at {
						list[j] = d
					}
					obj[j] = fmt.Sprintf(`"%d":%s`, j, list[j])
				}
				fits := name == "int" || name == "null"
				for _, t := range []reflect.Type{rt[[]int](), rt[map[int]*int](), reflect.ArrayOf(n, rt[int8]()), rt[map[string]uint16](), rt[[]*nInt]()} {
					doc := "[" + strings.Join(list, ",") + "]"
					if t.Kind() == reflect.Map {
						doc = "{" + strings.Join(obj, ",") + "}"
					}
					p := reflect.New(t)
					var err error
					perr := vk.Catch(func() error { err = enc.UnmarshalJSON(c, []byte(doc), p.Interface()); return nil })
					w.Ev++
					w.Nt++
					if perr != nil || fits != (err == nil) || fits && p.Elem().Len() != n {
						k.Violate("one of many "+t.String(), fmt.Sprintf("%d elements with %s at %d into %v: %v %v", n, d, at, t, err, perr), doc)
					}
				}
			}
		}
	})
}

type shape interface{ Area() int }
type square struct {
	Side int `json:"side"`
}

func (s square) Area() int { return s.Side * s.Side }

type canvas struct {
	Main   shape            `json:"main"`
	List   []shape          `json:"list"`
	ByName map[string]shape `json:"by_name"`
	N      nInt             `json:"n"`
	Sq     square           `json:"sq"`
}

// factories: a registered factory builds the value; its error, or a result of the wrong type, is an error.
func factories(k *vk.Check) {
	results := map[string]func(c ctx.C, n enc.Node) (any, error){
		"good":  func(c ctx.C, n enc.Node) (any, error) { var s square; err := enc.Unmarshal(c, n, &s); return s, err },
		"ptr":   func(c ctx.C, n enc.Node) (any, error) { var s square; err := enc.Unmarshal(c, n, &s); return &s, err },
		"nil":   func(c ctx.C, n enc.Node) (any, error) { return nil, nil },
		"wrong": func(c ctx.C, n enc.Node) (any, error) { return "text", nil },
		"func":  func(c ctx.C, n enc.Node) (any, error) { return func() {}, nil },
		"error": func(c ctx.C, n enc.Node) (any, error) { return square{1}, errors.New("refused") },
	}
	sq := enc.Map{"side": enc.Integer(3)}
	for name, f := range results {
		for where, doc := range map[string]enc.Node{"main": enc.Map{"main": sq}, "list": enc.Map{"list": enc.List{sq, sq}}, "map": enc.Map{"by_name": enc.Map{"x": sq}}} {
			h := enc.Handler{Factory: map[reflect.Type]func(c ctx.C, n enc.Node) (any, error){rt[shape](): f}}
			var into canvas
			k.Evals(1)
			k.Nontrivial(1)
			var err error
			perr := vk.Catch(func() error { err = h.Unmarshal(c, doc, &into); return nil })
			key := "factory " + name + " " + where
			if perr != nil {
				k.Violate(key, perr.Error(), key)
				continue
			}
			good := name == "good" || name == "ptr"
			if good != (err == nil) {
				k.Violate(key, fmt.Sprintf("%s: error is %v", key, err), key)
				continue
			}
			if good {
				all := append([]shape{into.Main, into.ByName["x"]}, into.List...)
				n := 0
				for _, s := range all {
					if s != nil {
						n++
						if s.Area() != 9 {
							k.Violate(key, fmt.Sprintf("%s: %+v", key, into), key)
						}
					}
				}
				if n == 0 {
					k.Violate(key, key+": nothing was set", key)
				}
			}
		}
		for _, t := range []reflect.Type{rt[nInt](), rt[square](), rt[int](), rt[canvas]()} {
			h := enc.Handler{Factory: map[reflect.Type]func(c ctx.C, n enc.Node) (any, error){t: f}}
			var into canvas
			k.Evals(1)
			perr := vk.Catch(func() error {
				_ = h.Unmarshal(c, enc.Map{"n": enc.Integer(1), "sq": sq}, &into)
				return nil
			})
			if perr != nil {
				k.Violate("factory "+name+" for "+t.String(), perr.Error(), name)
			}
		}
	}
}
