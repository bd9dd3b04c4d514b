// C03: a Go value survives a round trip through JSON text or a node tree.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"log/slog"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/enc"
	"verif.local/mc/lib/vk"
)

var c = ctx.TODO()

// ---- leaves with their own behaviour

type nStr string
type nInt int16

// vm marshals by value into a node and back.
type vm struct{ A, B string }

func (v vm) MarshalNode(c ctx.C) (enc.Node, error) { return enc.String(v.A + "|" + v.B), nil }
func (v *vm) UnmarshalNode(c ctx.C, n enc.Node) error {
	s, ok := n.(enc.String)
	if !ok {
		return ctx.NewErrorf(c, "want string, got %T", n)
	}
	var found bool
	v.A, v.B, found = strings.Cut(string(s), "|")
	if !found {
		return ctx.NewErrorf(c, "bad %q", s)
	}
	return nil
}
func (v vm) MarshalJSON() ([]byte, error) { return json.Marshal(v.A + "|" + v.B) }
func (v *vm) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	v.A, v.B, _ = strings.Cut(s, "|")
	return nil
}

// om marshals into an object node.
type om struct{ X int }

func (o om) MarshalNode(c ctx.C) (enc.Node, error) {
	return enc.Pairs{{Name: "Zed", JSON: "z", Value: enc.Integer(o.X)}, {Name: "A", JSON: "a", Value: enc.Bool(true)}}, nil
}
func (o *om) UnmarshalNode(c ctx.C, n enc.Node) error {
	m, err := enc.AsMap(c, n)
	if err != nil {
		return err
	}
	return enc.Unmarshal(c, m["z"], &o.X)
}
func (o om) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`{"z":%d,"a":true}`, o.X)), nil }
func (o *om) UnmarshalJSON(b []byte) error {
	var m map[string]any
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	o.X = int(m["z"].(float64))
	return nil
}

// jm only knows encoding/json.
type jm struct{ L []int }

func (o jm) MarshalJSON() ([]byte, error)  { return json.Marshal(o.L) }
func (o *jm) UnmarshalJSON(b []byte) error { return json.Unmarshal(b, &o.L) }

type inner struct {
	N int    `json:"n"`
	S string `json:"s,omitempty"`
}
type rec struct {
	V    int   `json:"v"`
	Next *rec  `json:"next,omitempty"`
	Kids []rec `json:"kids"`
	By   map[string]*rec
}
type hidden struct {
	Pub   int
	priv  int
	Skip  int `json:"-"`
	Other *int
	skip2 string `json:"x"`
}

func rt[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

type typ struct {
	t reflect.Type
	f flags
}
type flags struct{ noJSON, f32, omit, noAny bool }

func (f flags) or(g flags) flags {
	return flags{f.noJSON || g.noJSON, f.f32 || g.f32, f.omit || g.omit, f.noAny || g.noAny}
}

func leafTypes() []typ {
	no := flags{noJSON: true}
	return []typ{
		{rt[bool](), flags{}}, {rt[int](), flags{}}, {rt[int8](), flags{}}, {rt[int64](), flags{}}, {rt[uint16](), flags{}}, {rt[uint64](), flags{}},
		{rt[float32](), flags{f32: true}}, {rt[float64](), flags{}}, {rt[string](), flags{}}, {rt[nStr](), flags{}}, {rt[nInt](), flags{}},
		{rt[time.Time](), flags{}}, {rt[time.Duration](), flags{}}, {rt[enc.Duration](), flags{}}, {rt[enc.Time](), flags{}},
		{rt[any](), flags{}}, {rt[vm](), flags{}}, {rt[om](), flags{}}, {rt[jm](), flags{}}, {rt[json.RawMessage](), flags{}},
		{rt[[]byte](), no}, {rt[enc.Node](), no}, {rt[enc.Map](), no}, {rt[enc.List](), flags{noJSON: true, noAny: true}}, {rt[enc.String](), flags{}},
		{rt[inner](), flags{omit: true}}, {rt[rec](), flags{omit: true}},
	}
}

var values map[reflect.Type][]reflect.Value

func vals[T any](xs ...T) {
	t := rt[T]()
	for i := range xs {
		values[t] = append(values[t], reflect.ValueOf(&xs[i]).Elem())
	}
}

func initValues() {
	values = map[reflect.Type][]reflect.Value{}
	vals(false, true)
	vals[int](0, -7, math.MaxInt64, math.MinInt64)
	vals[int8](0, -128, 127)
	vals[int64](0, 1<<53+1)
	vals[uint16](0, 65535)
	vals[uint64](0, math.MaxUint64, 1<<63)
	vals[float32](0, 0.1, -1e30, math.MaxFloat32)
	vals[float64](0, 0.1, 1e-7, 1e300, 9007199254740993)
	vals("", "x", "a\"\\\n<é😀", "null")
	vals[nStr]("", "n")
	vals[nInt](0, -300)
	vals(time.Time{}, time.Date(2024, 2, 29, 12, 0, 0, 123456789, time.UTC), time.Date(2001, 1, 1, 0, 0, 0, 1000, time.FixedZone("", 5*3600+1800)))
	vals[time.Duration](0, time.Second, -3)
	vals[enc.Duration](0, enc.Duration(1500*time.Millisecond), enc.Duration(-3))
	vals(enc.Time{}, enc.Time(time.Date(2024, 2, 29, 12, 0, 0, 120000000, time.UTC)))
	vals[any](nil, true, 1.5, "s", "", []any{}, []any{nil, "x", 2.0}, map[string]any{}, map[string]any{"a": []any{map[string]any{"b": nil}}, "": 0.0})
	vals(vm{}, vm{"a", "b"}, vm{"", "|"})
	vals(om{}, om{-5})
	vals(jm{L: []int{}}, jm{L: []int{1, 2}})
	vals(json.RawMessage(`null`), json.RawMessage(`{"a":[1,2.50]}`), json.RawMessage(`"x"`))
	vals([]byte(nil), []byte{}, []byte{0, 255, 7})
	vals[enc.Node](enc.Nil{}, enc.Bool(true), enc.String("x"), enc.Digits("1.50"), enc.List{enc.Nil{}, enc.Digits("3")}, enc.Map{"k": enc.Map{}})
	vals(enc.Map{}, enc.Map{"a": enc.Nil{}, "": enc.List{}})
	vals(enc.List{}, enc.List{enc.String("q"), enc.Bool(false)})
	vals[enc.String]("", "es")
	vals(inner{}, inner{1, "x"}, inner{-1, ""})
	vals(rec{}, rec{V: 1, Next: &rec{V: 2, Next: &rec{}}, Kids: []rec{{V: 3}, {Kids: []rec{}}}, By: map[string]*rec{"": nil, "k": {V: 9}}})
}

// gen lists the values used for a type, at most max of them.
func gen(t reflect.Type, max int) []reflect.Value {
	if v, ok := values[t]; ok {
		if len(v) > max {
			// keep the first and spread the rest
			out := []reflect.Value{}
			for i := 0; i < max; i++ {
				out = append(out, v[i*(len(v)-1)/(max-1)])
			}
			return out
		}
		return v
	}
	var out []reflect.Value
	switch t.Kind() {
	case reflect.Pointer:
		out = append(out, reflect.Zero(t))
		for _, e := range gen(t.Elem(), max-1) {
			p := reflect.New(t.Elem())
			p.Elem().Set(e)
			out = append(out, p)
		}
	case reflect.Slice:
		out = append(out, reflect.Zero(t), reflect.MakeSlice(t, 0, 0))
		es := gen(t.Elem(), max)
		for _, e := range es {
			out = append(out, reflect.Append(reflect.MakeSlice(t, 0, 1), e))
		}
		all := reflect.MakeSlice(t, 0, len(es))
		out = append(out, reflect.Append(all, es...))
	case reflect.Array:
		es := gen(t.Elem(), max)
		for i := range es {
			a := reflect.New(t).Elem()
			for j := 0; j < t.Len(); j++ {
				a.Index(j).Set(es[(i+j)%len(es)])
			}
			out = append(out, a)
		}
	case reflect.Map:
		out = append(out, reflect.Zero(t), reflect.MakeMap(t))
		ks := gen(t.Key(), 3)
		es := gen(t.Elem(), max)
		for i, e := range es {
			m := reflect.MakeMap(t)
			m.SetMapIndex(ks[i%len(ks)], e)
			out = append(out, m)
		}
		m := reflect.MakeMap(t)
		for i, k := range ks {
			m.SetMapIndex(k, es[i%len(es)])
		}
		out = append(out, m)
	case reflect.Struct:
		out = append(out, reflect.Zero(t))
		n := 0
		lists := make([][]reflect.Value, t.NumField())
		for i := range lists {
			lists[i] = gen(t.Field(i).Type, max)
			if len(lists[i]) > n {
				n = len(lists[i])
			}
		}
		for k := 0; k < n; k++ {
			s := reflect.New(t).Elem()
			for i := range lists {
				s.Field(i).Set(lists[i][(k+i)%len(lists[i])])
			}
			out = append(out, s)
		}
	default:
		panic("no values for " + t.String())
	}
	return out
}

// isNull: the value's JSON form is null, so it cannot be told from a nil.
func isNull(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Pointer:
		return v.IsNil() || isNull(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			return true
		}
		if n, ok := v.Interface().(enc.Node); ok {
			_, isnil := n.(enc.Nil)
			return isnil
		}
		return false
	case reflect.Slice:
		if v.Type() == rt[json.RawMessage]() {
			return v.Len() == 0 || string(v.Bytes()) == "null"
		}
		return v.IsNil()
	case reflect.Map:
		return v.IsNil()
	case reflect.Struct:
		if v.Type() == rt[jm]() {
			return v.Field(0).IsNil()
		}
		return false
	}
	return false
}

func equal(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Type() {
	case rt[enc.Map](), rt[enc.List]():
		if a.Len() == 0 || b.Len() == 0 { // nil and empty are one value for the node types
			return a.Len() == b.Len()
		}
	}
	if isNull(a) || isNull(b) {
		return isNull(a) && isNull(b)
	}
	switch x := a.Interface().(type) {
	case time.Time:
		y := b.Interface().(time.Time)
		_, xo := x.Zone()
		_, yo := y.Zone()
		return x.Equal(y) && xo == yo
	case enc.Time:
		return time.Time(x).Equal(time.Time(b.Interface().(enc.Time)))
	case json.RawMessage:
		return sameJSON(x, b.Interface().(json.RawMessage), flags{}) == ""
	case enc.Map, enc.List:
		return sameJSON(enc.JSON{}.Encode(c, x.(enc.Node)), enc.JSON{}.Encode(c, b.Interface().(enc.Node)), flags{}) == ""
	}
	if a.Type() == rt[enc.Node]() {
		return sameJSON(enc.JSON{}.Encode(c, a.Interface().(enc.Node)), enc.JSON{}.Encode(c, b.Interface().(enc.Node)), flags{}) == ""
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		return equal(a.Elem(), b.Elem())
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !equal(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if !equal(a.MapIndex(k), b.MapIndex(k)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).IsExported() && !equal(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	default:
		return a.Equal(b)
	}
}

// sameJSON compares two documents as JSON values; returns the first difference.
func sameJSON(a, b []byte, f flags) string {
	dec := func(x []byte) (any, error) {
		d := json.NewDecoder(bytes.NewReader(x))
		d.UseNumber()
		var v any
		err := d.Decode(&v)
		return v, err
	}
	x, err1 := dec(a)
	y, err2 := dec(b)
	if err1 != nil || err2 != nil {
		return fmt.Sprintf("invalid document: %q %q", a, b)
	}
	return diff(x, y, f)
}

func diff(x, y any, f flags) string {
	switch x := x.(type) {
	case map[string]any:
		y, ok := y.(map[string]any)
		if !ok {
			return fmt.Sprintf("%v vs %v", x, y)
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok {
				if f.omit && emptyish(v) {
					continue // what counts as empty is the codec's choice
				}
				return fmt.Sprintf("member %q only on one side", k)
			}
			if d := diff(v, w, f); d != "" {
				return k + ": " + d
			}
		}
		for k := range y {
			if _, ok := x[k]; !ok {
				if f.omit && emptyish(y[k]) {
					continue
				}
				return fmt.Sprintf("member %q missing", k)
			}
		}
		return ""
	case []any:
		y, ok := y.([]any)
		if !ok || len(x) != len(y) {
			return fmt.Sprintf("%v vs %v", x, y)
		}
		for i := range x {
			if d := diff(x[i], y[i], f); d != "" {
				return fmt.Sprintf("[%d]: %s", i, d)
			}
		}
		return ""
	case json.Number:
		y, ok := y.(json.Number)
		if !ok {
			return fmt.Sprintf("%v vs %v", x, y)
		}
		if x == y {
			return ""
		}
		if strings.ContainsAny(string(x+y), ".eE") {
			bits := 64
			if f.f32 {
				bits = 32
			}
			p, e1 := strconv.ParseFloat(string(x), bits)
			q, e2 := strconv.ParseFloat(string(y), bits)
			if e1 == nil && e2 == nil && p == q {
				return ""
			}
		}
		return fmt.Sprintf("%v vs %v", x, y)
	}
	if x != y {
		return fmt.Sprintf("%v vs %v", x, y)
	}
	return ""
}

func emptyish(v any) bool {
	switch v := v.(type) {
	case nil:
		return true
	case bool:
		return !v
	case string:
		return v == ""
	case json.Number:
		return v == "0"
	case []any:
		return len(v) == 0
	case map[string]any:
		return len(v) == 0
	}
	return false
}

// native forms: what an untyped target receives; numbers and times are compared by text.
func norm(v any) any {
	switch v := v.(type) {
	case map[string]any:
		o := map[string]any{}
		for k, e := range v {
			o[k] = norm(e)
		}
		return o
	case []any:
		o := []any{}
		for _, e := range v {
			o = append(o, norm(e))
		}
		return o
	case int64:
		return float64(v)
	case time.Time:
		return v.Format(time.RFC3339Nano)
	case enc.Time:
		return v.String()
	case enc.Duration:
		return v.String()
	case time.Duration:
		return enc.Duration(v).String()
	}
	return v
}

func check(w *vk.Worker, ty typ, v reflect.Value) {
	k := w.Check
	w.Ev++
	t := ty.t
	key := fmt.Sprintf("%v %s", t, show(v))
	w.Note(key)
	rep := map[string]any{"type": t.String(), "value": show(v)}
	var n enc.Node
	var j []byte
	var err error
	if perr := vk.Catch(func() error {
		n, err = enc.Marshal(c, v.Interface())
		if err == nil {
			j, err = enc.MarshalJSON(c, v.Interface())
		}
		return nil
	}); perr != nil {
		k.Violate(key, "marshal: "+perr.Error(), rep)
		return
	}
	if err != nil {
		k.Violate(key, "marshal refused: "+err.Error(), rep)
		return
	}
	if !ty.f.noJSON {
		ref, err := json.Marshal(v.Interface())
		if err != nil {
			panic(err)
		}
		if d := sameJSON(j, ref, ty.f); d != "" {
			k.Violate(key, fmt.Sprintf("encoded as %s, encoding/json gives %s: %s", j, ref, d), rep)
			return
		}
	}
	for _, via := range []string{"text", "node", "map"} {
		out := reflect.New(t)
		var err error
		perr := vk.Catch(func() error {
			switch via {
			case "text":
				err = enc.UnmarshalJSON(c, j, out.Interface())
			case "node":
				err = enc.Unmarshal(c, n, out.Interface())
			case "map":
				if p, ok := n.(enc.Pairs); ok {
					err = enc.Unmarshal(c, p.AsMap(), out.Interface())
				} else {
					err = enc.Unmarshal(c, n, out.Interface())
				}
			}
			return nil
		})
		if perr != nil {
			k.Violate(key, fmt.Sprintf("unmarshal via %s: %v", via, perr), rep)
			return
		}
		if err != nil {
			k.Violate(key, fmt.Sprintf("unmarshal of %s via %s refused: %v", j, via, err), rep)
			return
		}
		if !equal(v, out.Elem()) {
			k.Violate(key, fmt.Sprintf("went as %s via %s, came back as %s", j, via, show(out.Elem())), rep)
			return
		}
	}
	// an untyped reader sees the same member names and values either way
	var a1, a2 any
	if perr := vk.Catch(func() error {
		if err := enc.UnmarshalJSON(c, j, &a1); err != nil {
			return err
		}
		return enc.Unmarshal(c, n, &a2)
	}); perr != nil {
		k.Violate(key, fmt.Sprintf("unmarshal into any: %v", perr), rep)
		return
	}
	if !ty.f.noAny && !reflect.DeepEqual(loose(norm(a1)), loose(norm(a2))) {
		k.Violate(key, fmt.Sprintf("an untyped target gets %v from the text but %v from the tree", a1, a2), rep)
		return
	}
	w.Nt++
	w.Out(fmt.Sprintf("%T", n))
	if w.Ev%997 == 0 {
		k.Sample(fmt.Sprintf("%T", n), key+" => "+string(j))
	}
}

// loose turns durations spelled as text into one form.
func loose(v any) any {
	switch v := v.(type) {
	case string:
		if v == "" {
			return "0s"
		}
		return v
	case map[string]any:
		for k, e := range v {
			v[k] = loose(e)
		}
	case []any:
		for k, e := range v {
			v[k] = loose(e)
		}
	}
	return v
}

func show(v reflect.Value) string {
	j, err := json.Marshal(v.Interface())
	if err != nil {
		return fmt.Sprintf("%#v", v.Interface())
	}
	if len(j) > 200 {
		j = append(j[:200], "..."...)
	}
	return string(j)
}

func main() {
	vk.Main("C03", "exploration", func(k *vk.Check) {
		c = log.WithLogFunc(c, func(ctx.C, slogLevel, string, string, ...any) {})
		k.Rule("cases: every type built from 27 leaf types by pointer, slice, array, string/int/named-key map and struct field forms (tag spellings, omitempty) up to depth 3, times representative values including nil, empty and zero; each value goes through JSON text and through the node tree into the same type and into any. Also slices, arrays and maps of up to 1000 elements with another one at chosen places, structs of up to 41 fields with each one set, and types nested 24 (60) deep. Maps of 25 kinds of keys with every subset of up to three keys of an alphabet. Non-trivial: all conversions succeeded and were compared.")
		initValues()
		ls := leafTypes()
		unary := func(in []typ) (out []typ) {
			for _, x := range in {
				out = append(out, typ{reflect.PointerTo(x.t), x.f}, typ{reflect.SliceOf(x.t), x.f.or(flags{noJSON: x.t.Kind() == reflect.Uint8})},
					typ{reflect.ArrayOf(2, x.t), x.f}, typ{reflect.MapOf(rt[string](), x.t), x.f}, typ{reflect.MapOf(rt[int](), x.t), x.f}, typ{reflect.MapOf(rt[nStr](), x.t), x.f})
			}
			return
		}
		tags := []reflect.StructTag{``, `json:"n"`, `json:"n,omitempty"`, `json:",omitempty"`, `json:"ë-x.y"`}
		structs := func(in []typ) (out []typ) {
			for i, x := range in {
				for _, tag := range tags {
					f := x.f
					if strings.Contains(string(tag), "omitempty") {
						f.omit = true
					}
					out = append(out, typ{reflect.StructOf([]reflect.StructField{{Name: "First", Type: rt[int](), Tag: `json:"zz"`}, {Name: "F", Type: x.t, Tag: tag}, {Name: "Last", Type: rt[string]()}}), f})
				}
				y := in[(i*7+3)%len(in)]
				f := x.f.or(y.f)
				f.omit = true
				out = append(out, typ{reflect.StructOf([]reflect.StructField{{Name: "A", Type: x.t, Tag: `json:"b"`}, {Name: "B", Type: y.t, Tag: `json:"a,omitempty"`}}), f})
			}
			return
		}
		t1 := unary(ls)
		s0 := structs(ls)
		s1 := structs(t1)
		t2 := unary(t1)
		us := unary(s0)
		ss := structs(s0)
		all := append(append(append(append(append(append([]typ{}, ls...), t1...), s0...), s1...), t2...), us...)
		all = append(append(append(all, ss...), unary(t2)...), structs(t2)...)
		if k.Thorough() {
			u3 := unary(t2)
			all = append(append(append(all, unary(ss)...), unary(u3)...), structs(u3)...)
		}
		k.Set("types", len(all))
		k.Par(int64(len(all)), func(w *vk.Worker, i int64) {
			for _, v := range gen(all[i].t, k.Pick(6, 7)) {
				check(w, all[i], v)
			}
		})
		hiddenFields(k)
		fieldNames(k)
		mapKeys(k)
		big(k)
	})
}

// fieldNames: the json name of a field may be the Go name of another one, or differ from it by case only; with every
// combination of fields set.
func fieldNames(k *vk.Check) {
	tags := []reflect.StructTag{``, `json:",omitempty"`, `json:"A"`, `json:"B"`, `json:"a"`, `json:"b,omitempty"`, `json:"A,omitempty"`, `json:"B,omitempty"`, `json:"C,omitempty"`}
	types := []reflect.Type{rt[string](), rt[int](), rt[*string]()}
	str := "p"
	set := []any{"x", 7, &str}
	fields := []string{"A", "B", "C"}
	n := len(tags) * len(types)
	total := n * n * n
	k.Par(int64(total), func(w *vk.Worker, i int64) {
		var fs []reflect.StructField
		var kinds []int
		seen := map[string]bool{}
		for f, x := 0, int(i); f < len(fields); f, x = f+1, x/n {
			tag := tags[x%n%len(tags)]
			kind := x % n / len(tags)
			name, _, _ := strings.Cut(tag.Get("json"), ",")
			if name == "" {
				name = fields[f]
			}
			if seen[name] {
				return
			}
			seen[name] = true
			fs = append(fs, reflect.StructField{Name: fields[f], Type: types[kind], Tag: tag})
			kinds = append(kinds, kind)
		}
		t := reflect.StructOf(fs)
		for mask := 0; mask < 1<<len(fields); mask++ {
			v := reflect.New(t).Elem()
			for f := range fields {
				if mask>>f&1 == 1 {
					v.Field(f).Set(reflect.ValueOf(set[kinds[f]]))
				}
			}
			check(w, typ{t, flags{omit: true}}, v)
		}
	})
}

type slogLevel = slog.Level

// hiddenFields: unexported fields and fields marked "-" are neither emitted nor filled.
func hiddenFields(k *vk.Check) {
	names := []string{"", "-", "Pub", "priv", "Skip", "Other", "skip2", "x", "skip", "PRIV"}
	forms := []string{"7", `"7"`, "null", "[7]", "{}"}
	five := 5
	for mask := 0; mask < 1<<len(names); mask++ {
		for _, form := range forms {
			doc := []string{}
			for i, n := range names {
				if mask>>i&1 == 1 {
					doc = append(doc, fmt.Sprintf("%q:%s", n, form))
				}
			}
			j := "{" + strings.Join(doc, ",") + "}"
			h := hidden{Pub: 1, priv: 2, Skip: 3, Other: &five, skip2: "s"}
			k.Evals(1)
			perr := vk.Catch(func() error { _ = enc.UnmarshalJSON(c, []byte(j), &h); return nil })
			if perr != nil || h.priv != 2 || h.Skip != 3 || h.skip2 != "s" {
				k.Violate("hidden fields", fmt.Sprintf("document %s filled a hidden field: %+v %v", j, h, perr), j)
			}
			if mask>>2&1 == 0 && h.Pub != 1 || mask>>5&1 == 0 && h.Other != &five {
				k.Violate("absent fields", fmt.Sprintf("document %s changed a field it does not mention: %+v", j, h), j)
			}
		}
	}
	h := hidden{Pub: 1, priv: 2, Skip: 3, skip2: "s"}
	j := enc.MustMarshalJSON(c, h)
	if d := sameJSON(j, []byte(`{"Pub":1,"Other":null}`), flags{}); d != "" {
		k.Violate("hidden emitted", fmt.Sprintf("%+v encoded as %s", h, j), string(j))
	}
	k.Evals(1)
}
