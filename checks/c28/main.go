// C28: the generated OpenAPI against the types, against what the codec makes of their values, and against what handlers
// accept.
package main

import (
	"encoding/json"
	"fmt"
	"log/slog"
	"math"
	"net/http/httptest"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/api/openapi"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/http"
	"verif.local/mc/lib/vk"
)

var c = log.WithLogFunc(ctx.TODO(), func(ctx.C, slog.Level, string, string, ...any) {})

// ---------------------------------------------------------------- a document

type doc struct {
	root  any            // the schema asked for
	comps map[string]any // components
}

const prefix = "#/components/schemas/"

func asMap(v any) map[string]any { m, _ := v.(map[string]any); return m }

func str(m map[string]any, k string) string { s, _ := m[k].(string); return s }

// as it is when served
func wire(v any) (out any, err error) {
	j, err := enc.MarshalJSON(c, v)
	if err != nil {
		return nil, err
	}
	d := json.NewDecoder(strings.NewReader(string(j)))
	d.UseNumber()
	if err = d.Decode(&out); err != nil {
		return nil, err
	}
	return floats(out), nil
}

// numbers as floats, those too big for one as text
func floats(v any) any {
	switch v := v.(type) {
	case json.Number:
		if f, err := v.Float64(); err == nil {
			return f
		}
		return v.String()
	case []any:
		for i := range v {
			v[i] = floats(v[i])
		}
	case map[string]any:
		for k := range v {
			v[k] = floats(v[k])
		}
	}
	return v
}

func document(s *openapi.Service, root *openapi.Schema) (d doc, err error) {
	n, err := wire(s)
	if err != nil {
		return d, fmt.Errorf("the document can't be marshalled: %v", err)
	}
	d.comps = asMap(asMap(asMap(n)["components"])["schemas"])
	if root != nil {
		if d.root, err = wire(root); err != nil {
			return d, fmt.Errorf("the schema can't be marshalled: %v", err)
		}
	}
	if err := d.sane(d.root); err != nil {
		return d, err
	}
	return d, d.sane(n)
}

var compRE = regexp.MustCompile(`^[a-zA-Z0-9._-]+$`)

// references resolve, names and types are those of OpenAPI
func (d doc) sane(v any) error {
	switch v := v.(type) {
	case []any:
		for _, e := range v {
			if err := d.sane(e); err != nil {
				return err
			}
		}
	case map[string]any:
		if r, ok := v["$ref"]; ok {
			if _, err := d.resolve(r); err != nil {
				return err
			}
		}
		if cs, ok := v["schemas"]; ok {
			for n := range asMap(cs) {
				if !compRE.MatchString(n) {
					return fmt.Errorf("component name %q", n)
				}
			}
		}
		if str(v, "type") == "array" && asMap(v["items"]) == nil {
			return fmt.Errorf("array without items: %v", v)
		}
		for k, e := range v {
			if k == "example" {
				continue
			}
			if err := d.sane(e); err != nil {
				return err
			}
		}
	}
	return nil
}

func (d doc) resolve(r any) (map[string]any, error) {
	s, _ := r.(string)
	if !strings.HasPrefix(s, prefix) {
		return nil, fmt.Errorf("reference %q", r)
	}
	if m := asMap(d.comps[strings.TrimPrefix(s, prefix)]); m != nil {
		return m, nil
	}
	return nil, fmt.Errorf("reference %q leads nowhere", r)
}

// the schema itself, through a reference
func (d doc) deref(s map[string]any) (map[string]any, error) {
	if s == nil {
		return nil, fmt.Errorf("no schema")
	}
	if r, ok := s["$ref"]; ok {
		return d.resolve(r)
	}
	if l, ok := s["allOf"].([]any); ok && len(l) == 1 {
		return d.deref(asMap(l[0]))
	}
	return s, nil
}

type knownErr struct{ key, msg string }

func (e knownErr) Error() string { return e.msg }

const bytesKey = "a byte slice is published as a string and sent as a list"

// ---------------------------------------------------------------- values against schemas

// any value of the codec has to be valid; null stands for anything that is not there
func (d doc) valid(s map[string]any, v any, path string) error {
	s, err := d.deref(s)
	if err != nil {
		return err
	}
	if v == nil {
		return nil
	}
	bad := fmt.Errorf("%s: %s is not %q", path, vk.JSON(v), str(s, "type"))
	switch t := str(s, "type"); t {
	case "":
	case "string":
		if _, ok := v.([]any); ok && str(s, "format") == "byte" {
			return knownErr{bytesKey, bad.Error()}
		}
		if _, ok := v.(string); !ok {
			return bad
		}
	case "number", "integer":
		f, ok := v.(float64)
		if !ok || t == "integer" && f != math.Trunc(f) {
			return bad
		}
	case "boolean":
		if _, ok := v.(bool); !ok {
			return bad
		}
	case "array":
		l, ok := v.([]any)
		if !ok {
			return bad
		}
		for i, e := range l {
			if err := d.valid(asMap(s["items"]), e, fmt.Sprint(path, "[", i, "]")); err != nil {
				return err
			}
		}
	case "object":
		props, add := asMap(s["properties"]), asMap(s["additionalProperties"])
		m, ok := v.(map[string]any)
		if !ok {
			if _, has := s["properties"]; has || add != nil {
				return bad
			}
			return nil // the form in which anything is published
		}
		for k, e := range m {
			sub := asMap(props[k])
			if sub == nil {
				sub = add
			}
			if sub != nil {
				if err := d.valid(sub, e, path+"."+k); err != nil {
					return err
				}
			}
		}
		req, _ := s["required"].([]any)
		for _, r := range req {
			if _, ok := m[r.(string)]; !ok {
				return fmt.Errorf("%s: %s is required and missing", path, r)
			}
		}
	default:
		return fmt.Errorf("%s: type %q", path, t)
	}
	return nil
}

// ---------------------------------------------------------------- schemas against types

func fields(t reflect.Type) map[string]reflect.StructField {
	m := map[string]reflect.StructField{}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		j := f.Tag.Get("json")
		if !f.IsExported() || j == "-" {
			continue
		}
		n, _, _ := strings.Cut(j, ",")
		if n == "" {
			n = f.Name
		}
		m[n] = f
	}
	return m
}

// cut: a named list or map that contains itself has no description of its own, so that it is cut off somewhere.
func cut(t reflect.Type) bool {
	if t.Name() == "" {
		return false
	}
	seen := map[reflect.Type]bool{}
	var in func(x reflect.Type) bool
	in = func(x reflect.Type) bool {
		if x == t {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		switch x.Kind() {
		case reflect.Pointer, reflect.Slice, reflect.Array, reflect.Map:
			return in(x.Elem())
		case reflect.Struct:
			for i := 0; i < x.NumField(); i++ {
				if in(x.Field(i).Type) {
					return true
				}
			}
		}
		return false
	}
	return in(t.Elem())
}

func (d doc) describes(s map[string]any, t reflect.Type, path string, seen map[reflect.Type]bool) error {
	s, err := d.deref(s)
	if err != nil {
		return fmt.Errorf("%s: %v", path, err)
	}
	typ := str(s, "type")
	props, add, items := asMap(s["properties"]), asMap(s["additionalProperties"]), asMap(s["items"])
	for {
		if l, ok := leaves[t]; ok {
			switch l.typ {
			case "?":
			case "*":
				if typ != "object" && typ != "" || len(props) > 0 || add != nil {
					return fmt.Errorf("%s: anything is published as %s", path, vk.JSON(s))
				}
			default:
				if typ != l.typ && !(l.typ == "number" && typ == "integer") {
					return fmt.Errorf("%s: %v is published as %q", path, t, typ)
				}
			}
			return nil
		}
		if t.Kind() != reflect.Pointer {
			break
		}
		t = t.Elem()
	}
	again := seen[t]
	if t.Name() != "" {
		seen[t] = true
	}
	switch t.Kind() {
	case reflect.Slice, reflect.Array:
		if typ != "array" {
			return fmt.Errorf("%s: %v is published as %q", path, t, typ)
		}
		if again || cut(t) && len(items) == 0 {
			return nil
		}
		return d.describes(items, t.Elem(), path+"[]", seen)
	case reflect.Map:
		if typ != "object" || !again && add == nil && !cut(t) || len(props) > 0 {
			return fmt.Errorf("%s: %v is published as %s", path, t, vk.JSON(s))
		}
		if again || cut(t) && add == nil {
			return nil
		}
		return d.describes(add, t.Elem(), path+"{}", seen)
	case reflect.Struct:
		if typ != "object" || add != nil {
			return fmt.Errorf("%s: %v is published as %s", path, t, vk.JSON(s))
		}
		want := fields(t)
		for n := range props {
			if _, ok := want[n]; !ok {
				return fmt.Errorf("%s: %v has a field %q that does not travel", path, t, n)
			}
		}
		for n, f := range want {
			p := asMap(props[n])
			if p == nil {
				return fmt.Errorf("%s: %v lacks the field %q", path, t, n)
			}
			if doc := f.Tag.Get("doc"); doc != str(p, "description") {
				return fmt.Errorf("%s: %v.%s is described as %q", path, t, n, str(p, "description"))
			}
			if again {
				continue
			}
			if err := d.describes(p, f.Type, path+"."+n, seen); err != nil {
				return err
			}
		}
		return nil
	}
	return fmt.Errorf("%s: %v: not in the table of the check", path, t)
}

// ---------------------------------------------------------------- values of types

func values(t reflect.Type, depth int) (out []reflect.Value) {
	if l, ok := leaves[t]; ok {
		for _, v := range l.vals {
			rv := reflect.New(t).Elem()
			if v != nil {
				rv.Set(reflect.ValueOf(v))
			}
			out = append(out, rv)
		}
		return
	}
	out = append(out, reflect.Zero(t))
	if depth == 0 {
		return
	}
	switch t.Kind() {
	case reflect.Pointer:
		for _, v := range values(t.Elem(), depth-1) {
			p := reflect.New(t.Elem())
			p.Elem().Set(v)
			out = append(out, p)
		}
	case reflect.Slice:
		l := reflect.MakeSlice(t, 0, 2)
		out = append(out, l)
		for _, v := range values(t.Elem(), depth-1) {
			l = reflect.Append(l, v)
		}
		out = append(out, l)
	case reflect.Array:
		for _, v := range values(t.Elem(), depth-1) {
			a := reflect.New(t).Elem()
			for i := 0; i < a.Len(); i++ {
				a.Index(i).Set(v)
			}
			out = append(out, a)
		}
	case reflect.Map:
		m := reflect.MakeMap(t)
		out = append(out, reflect.MakeMap(t), m)
		for i, v := range values(t.Elem(), depth-1) {
			k := reflect.New(t.Key()).Elem()
			if k.CanInt() {
				k.SetInt(int64(i))
			} else {
				k.SetString(fmt.Sprint("k", i))
			}
			m.SetMapIndex(k, v)
		}
	case reflect.Struct:
		// the i-th value has the i-th of each field
		n := 1
		per := make([][]reflect.Value, t.NumField())
		for i := range per {
			if t.Field(i).IsExported() {
				per[i] = values(t.Field(i).Type, depth-1)
				if len(per[i]) > n {
					n = len(per[i])
				}
			}
		}
		for j := 0; j < n; j++ {
			s := reflect.New(t).Elem()
			for i, vs := range per {
				if len(vs) > 0 {
					s.Field(i).Set(vs[j%len(vs)])
				}
			}
			out = append(out, s)
		}
	}
	return
}

// ---------------------------------------------------------------- type expressions

var constructors = []struct {
	name string
	make func(t reflect.Type) reflect.Type
}{
	{"*", reflect.PointerTo},
	{"[]", reflect.SliceOf},
	{"[2]", func(t reflect.Type) reflect.Type { return reflect.ArrayOf(2, t) }},
	{"map[string]", func(t reflect.Type) reflect.Type { return reflect.MapOf(rtype[string](), t) }},
	{"map[int]", func(t reflect.Type) reflect.Type { return reflect.MapOf(rtype[int](), t) }},
	{"struct{A}", func(t reflect.Type) reflect.Type {
		return reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}})
	}},
	{"struct{A,B}", func(t reflect.Type) reflect.Type {
		return reflect.StructOf([]reflect.StructField{{Name: "A", Type: t, Tag: `json:"a,omitempty" doc:"the a"`}, {Name: "B", Type: rtype[*plainer](), Tag: `json:"b"`}, {Name: "C", Type: t, Tag: `json:"-"`}})
	}},
}

type subject struct {
	t  reflect.Type
	ok bool // can travel
}

func base() (out []subject) {
	for t := range leaves {
		out = append(out, subject{t, true})
	}
	for _, t := range others {
		out = append(out, subject{t, true})
	}
	for _, t := range unsupported {
		out = append(out, subject{t, false})
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].t.String() < out[j].t.String() })
	return
}

func report(w *vk.Worker, what string, t any, err error) {
	key, msg := what, fmt.Sprintf("%v: %v", t, err)
	if k, ok := err.(knownErr); ok {
		key = k.key
	}
	w.Violate(key, msg, fmt.Sprint(t))
}

// one type on a service; the document stays valid in any case
func one(w *vk.Worker, s *openapi.Service, x subject, what string) {
	var root *openapi.Schema
	get := func() error {
		return vk.Catch(func() (err error) { root, err = s.SchemaFromType(c, x.t, nil); return })
	}
	err := get()
	w.Ev++
	if _, p := vk.IsPanic(err); p {
		report(w, what+"/panic", x.t, err)
		return
	}
	if !x.ok {
		if err == nil {
			report(w, what+"/unsupported", x.t, fmt.Errorf("a schema for a type that can't travel: %s", vk.JSON(root)))
		} else if err := get(); err == nil {
			report(w, what+"/unsupported", x.t, fmt.Errorf("the second time it has a schema"))
		}
		if _, err := document(s, nil); err != nil {
			report(w, what+"/document", x.t, err)
		}
		w.Out("refused")
		w.Nt++
		return
	}
	if err != nil {
		report(w, what+"/error", x.t, err)
		return
	}
	d, err := document(s, root)
	if err != nil {
		report(w, what+"/document", x.t, err)
		return
	}
	if err := d.describes(asMap(d.root), x.t, "", map[reflect.Type]bool{}); err != nil {
		report(w, what+"/describes", x.t, err)
		return
	}
	for _, v := range values(x.t, 4) {
		got, err := wire(v.Interface())
		if err != nil {
			if _, p := vk.IsPanic(err); !p {
				continue
			}
		}
		w.Ev++
		if err := d.valid(asMap(d.root), got, ""); err != nil {
			report(w, what+"/value", fmt.Sprintf("%v value %s", x.t, vk.JSON(got)), err)
			if _, ok := err.(knownErr); !ok {
				return
			}
		}
		w.Nt++
	}
	w.Out(str(asMap(d.root), "type"))
}

func types(k *vk.Check) {
	depth := k.Pick(3, 4)
	b := base()
	n, p := int64(0), int64(len(b))
	for i := 0; i <= depth; i++ {
		n += p
		p *= int64(len(constructors))
	}
	k.Set("type expressions", n)
	k.Set("base types", len(b))
	k.Par(n, func(w *vk.Worker, i int64) {
		x := b[i%int64(len(b))]
		i /= int64(len(b))
		p := int64(1)
		l := 0
		for i >= p {
			i -= p
			p *= int64(len(constructors))
			l++
		}
		last := ""
		for ; l > 0; l-- {
			ct := constructors[i%int64(len(constructors))]
			i /= int64(len(constructors))
			if ct.name == "*" && last == "*" && l < 2 {
				continue
			}
			last = ct.name
			x.t = ct.make(x.t)
		}
		w.Note(x.t.String())
		one(w, openapi.NewService("t"), x, "type")
	})
}

// large structures, deep types, services with every type
func large(k *vk.Check) {
	b := base()
	var good []subject
	for _, x := range b {
		if x.ok {
			good = append(good, x)
		}
	}
	sizes := []int{9, 17, 33, 40, 64, 70, 130}
	n := int64(len(sizes) * len(good))
	k.Par(n, func(w *vk.Worker, i int64) { // structures with many fields, half of them alike
		size, first := sizes[i%int64(len(sizes))], int(i)/len(sizes)
		var sf []reflect.StructField
		for j := 0; j < size; j++ {
			f := reflect.StructField{Name: fmt.Sprint("F", j), Type: good[first].t}
			if j%2 == 1 {
				f.Type = good[(first+j)%len(good)].t
			}
			switch j % 5 {
			case 1:
				f.Tag = reflect.StructTag(fmt.Sprintf(`json:"f%d"`, j))
			case 3:
				f.Tag = reflect.StructTag(fmt.Sprintf(`json:"other%d,omitempty" doc:"the %d"`, j, j))
			}
			sf = append(sf, f)
		}
		x := subject{reflect.StructOf(sf), true}
		w.Note(fmt.Sprintf("%d fields of %v", size, good[first].t))
		one(w, openapi.NewService("t"), x, "large")
	})
	// two constructors in turn, deep
	nc := int64(len(constructors))
	depths := []int64{6, 9, 17, 33}
	k.Par(nc*nc*int64(len(b)), func(w *vk.Worker, i int64) {
		x := b[i%int64(len(b))]
		ca, cb := constructors[i/int64(len(b))%nc], constructors[i/int64(len(b))/nc]
		if ca.name == "*" && cb.name == "*" {
			return
		}
		next := 0
		t := x.t
		wide := strings.HasPrefix(ca.name+cb.name, "[2]") || strings.HasSuffix(ca.name+cb.name, "[2]") || strings.Contains(ca.name+cb.name, "A,B")
		for d := int64(1); d <= depths[len(depths)-1]; d++ {
			if d > 9 && wide {
				break // exponential in size
			}
			if d%2 == 1 {
				t = ca.make(t)
			} else {
				t = cb.make(t)
			}
			if d == depths[next] {
				next++
				w.Note(fmt.Sprintf("%v under %s and %s %d deep", x.t, ca.name, cb.name, d))
				one(w, openapi.NewService("t"), subject{t, x.ok}, "deep")
			}
		}
	})
	// all on one service, from each on
	k.Par(int64(2*len(b)), func(w *vk.Worker, i int64) {
		s := openapi.NewService("t")
		for j := range b {
			at := (int(i)/2 + j) % len(b)
			if i%2 == 1 {
				at = (int(i)/2 - j + len(b)) % len(b)
			}
			one(w, s, b[at], "all")
		}
		for j := range b {
			one(w, s, b[j], "all") // as before
		}
	})
	k.Set("large structures", n)
}

// several types on one service, in every order
func together(k *vk.Check) {
	var b []subject
	for _, x := range base() {
		if _, leaf := leaves[x.t]; !leaf {
			b = append(b, x)
		}
	}
	n := int64(len(b))
	max := n * n
	if k.Thorough() {
		max *= n
	}
	k.Set("types on one service", max)
	k.Par(max, func(w *vk.Worker, i int64) {
		s := openapi.NewService("t")
		one(w, s, b[i%n], "together")
		one(w, s, b[i/n%n], "together")
		if k.Thorough() {
			one(w, s, b[i/n/n], "together")
		}
		one(w, s, b[i%n], "together") // as before
	})
}

func whole(t reflect.Type) bool {
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	return t.Kind() >= reflect.Int && t.Kind() <= reflect.Uintptr
}

// examples and descriptions on fields
func examples(k *vk.Check) {
	exs := []string{"", " ", "x", "1", "-1", "0", "01", "0.5", "-2.25", "42.0", "9007199254740993.5", "1234567890123", "1e400", "-1e400", "NaN", "Inf", "-inf", "1_0", "0x10", "9223372036854775807", "18446744073709551615", "true", "false", "null", `"s"`, "[]", "[1,", `[1,"a"]`, "{}", `{"a":1e3}`, `{"a"`, "{} x", "\xff", "é", "\n1"}
	b := base()
	k.Par(int64(len(b)*len(exs)), func(w *vk.Worker, i int64) {
		x, ex := b[int(i)/len(exs)], exs[int(i)%len(exs)]
		if !x.ok {
			return
		}
		tag := reflect.StructTag(fmt.Sprintf("doc:%s example:%s", strconv.Quote("d: "+ex), strconv.Quote(ex)))
		s := openapi.NewService("t")
		var root *openapi.Schema
		err := vk.Catch(func() (err error) { root, err = s.SchemaFromType(c, x.t, &tag); return })
		w.Ev++
		if err != nil {
			report(w, "example/error", fmt.Sprintf("%v example %q", x.t, ex), err)
			return
		}
		d, err := document(s, root)
		if err != nil {
			report(w, "example/document", fmt.Sprintf("%v example %q", x.t, ex), err)
			return
		}
		m := asMap(d.root)
		if got := str(m, "description"); got != strings.ToValidUTF8("d: "+ex, "\ufffd") {
			report(w, "example/description", fmt.Sprintf("%v", x.t), fmt.Errorf("described as %q, not %q", got, ex))
		}
		// the text itself, or the value it has
		got, has := m["example"]
		ex = strings.TrimSpace(ex)
		if ex == "" {
			if has && got != nil {
				report(w, "example/none", fmt.Sprintf("%v", x.t), fmt.Errorf("an example from nowhere: %v", got))
			}
			return
		}
		var want any
		okj := json.Unmarshal([]byte(ex), &want) == nil && vk.JSON(want) == vk.JSON(got)
		f, ferr := strconv.ParseFloat(ex, 64)
		if gf, ok := got.(float64); ok && ferr == nil && f == gf {
			okj = true
		}
		if !okj && got != strings.ToValidUTF8(ex, "\ufffd") {
			report(w, "example/value", fmt.Sprintf("%v example %q", x.t, ex), fmt.Errorf("published as %s", vk.JSON(got)))
		}
		// where the text is a value the schema has a form for, it is published in that form
		want = nil
		if json.Unmarshal([]byte(ex), &want) == nil && want != nil {
			typed := false
			switch v := want.(type) {
			case float64:
				// written plainly: how far beyond that a number is understood is best effort
				_, ierr := strconv.ParseInt(ex, 10, 64)
				typed = str(m, "type") == "number" && (ierr == nil || !whole(x.t) && !strings.ContainsAny(ex, "eE") && v < 1e15 && v > -1e15)
			case bool:
				typed = str(m, "type") == "boolean"
			case []any:
				typed = str(m, "type") == "array"
			case map[string]any:
				typed = m["additionalProperties"] != nil || m["allOf"] != nil // not raw JSON, which is a text as well
			}
			if _, text := got.(string); typed && text {
				report(w, "example/form", fmt.Sprintf("%v example %q", x.t, ex), fmt.Errorf("published as the text %s under %q", vk.JSON(got), str(m, "type")))
			}
			w.Nt++
		}
		w.Nt++
	})
}

// ---------------------------------------------------------------- handlers

var apiTags = []string{"", "in", "out", "both", "in,required", "both,required", "in,out", "out,required", "auth", "auth,required"}

type apiType struct {
	t    reflect.Type
	full any
}

// alone in their handler
var apiWide = func() []apiType {
	yes, n, str := true, 7, "p"
	var l []apiType
	for _, v := range []any{true, &yes, int8(1), int64(-2), uint(3), uint8(4), uint64(5), float32(1.5), 2.5, &n, &str, mNum{4}, &mNum{4}, time.Unix(1000, 0).UTC(), enc.Time(time.Unix(1000, 0).UTC()), time.Minute, plain{A: 3}, []bool{false}, [2]bool{true, true}, []string{""},
		map[string]bool{"a": false}, map[int]string{1: ""}, &[]int{0}, recPtr{1, nil}, struct{ X bool }{true}, &struct{ X bool }{}, []*bool{nil}} {
		l = append(l, apiType{reflect.TypeOf(v), v})
	}
	return append(l, apiTypes...)
}()

var apiTypes = []apiType{
	{rtype[int](), 5}, {rtype[string](), "s"}, {rtype[[]mNum](), []mNum{{4}}}, {rtype[*plain](), &plain{A: 3, C: &plainer{Z: 1}}}, {rtype[map[string]recPtr](), map[string]recPtr{"a": {1, nil}}}, {rtype[chan int](), nil},
}

func handlers(k *vk.Check) {
	handlersOf(k, apiWide, 1)
	handlersOf(k, apiTypes, k.Pick(2, 3))
}

func handlersOf(k *vk.Check, apiTypes []apiType, fieldsN int) {
	nt, ny := int64(len(apiTags)), int64(len(apiTypes))
	n := int64(2)
	for i := 0; i < fieldsN; i++ {
		n *= nt * ny
	}
	k.Set(fmt.Sprintf("handler types with %d fields", fieldsN), n)
	k.Par(n, func(w *vk.Worker, i int64) {
		urls := int(i%2) + 1
		i /= 2
		var sf []reflect.StructField
		var tags []string
		var full []any
		auth, refused := 0, false
		in, out := map[string]bool{}, map[string]bool{}
		required := map[string]bool{}
		for j := 0; j < fieldsN; j++ {
			tag := apiTags[i%nt]
			i /= nt
			ty := apiTypes[i%ny]
			i /= ny
			name := string(rune('A' + j))
			json := []string{"", "bb", "c"}[j]
			st := fmt.Sprintf(`api:%q doc:"d%d"`, tag, j)
			if json != "" {
				st += fmt.Sprintf(` json:"%s,omitempty"`, json)
			}
			sf = append(sf, reflect.StructField{Name: name, Type: ty.t, Tag: reflect.StructTag(st)})
			if json != "" {
				name = json
			}
			tags = append(tags, tag)
			full = append(full, ty.full)
			parts := "," + tag + ","
			has := func(s string) bool { return strings.Contains(parts, ","+s+",") }
			if has("auth") {
				auth++
				continue
			}
			if has("in") || has("both") {
				in[name] = true
				if has("required") {
					required[name] = true
				}
			}
			if has("out") || has("both") {
				out[name] = true
			}
			if (in[name] || out[name]) && ty.full == nil {
				refused = true
			}
		}
		for u := 0; u < urls; u++ {
			sf = append(sf, reflect.StructField{Name: fmt.Sprint("U", u), Type: rtype[string](), Tag: reflect.StructTag(fmt.Sprintf(`url:"/u%d"`, u))})
		}
		t := reflect.StructOf(sf)
		w.Note(t.String())
		w.Ev++
		bad := func(key, f string, a ...any) {
			w.Violate("handler/"+key, fmt.Sprintf("%v: %s", t, fmt.Sprintf(f, a...)), t.String())
		}
		srv, err := api.NewServer(c, reflect.New(t).Interface())
		if err != nil {
			if auth <= 1 {
				bad("new", "%v", err)
			}
			return
		}
		s := openapi.NewService("t")
		var pi *openapi.PathItem
		err = vk.Catch(func() (err error) { pi, err = srv.UpdateOpenAPI(c, s); return })
		if refused || err != nil {
			if _, p := vk.IsPanic(err); p || !refused || err == nil {
				bad("update", "%v, to be refused: %v", err, refused)
			}
			if _, err := document(s, nil); err != nil {
				bad("document", "%v", err)
			}
			w.Out("refused")
			return
		}
		d, err := document(s, nil)
		if err != nil {
			bad("document", "%v", err)
			return
		}
		whole, _ := wire(s)
		paths := asMap(asMap(whole)["paths"])
		if len(paths) != urls || len(s.Paths) != urls {
			bad("paths", "%d paths, not %d", len(paths), urls)
		}
		post := asMap(asMap(paths["/u0"])["post"])
		for u := 0; u < urls; u++ {
			if !reflect.DeepEqual(asMap(asMap(paths[fmt.Sprint("/u", u)])["post"]), post) || s.Paths[fmt.Sprint("/u", u)].Post != pi {
				bad("paths", "paths differ: %v", paths)
			}
		}
		content := func(m map[string]any) map[string]any {
			return asMap(asMap(asMap(m["content"])["application/json"])["schema"])
		}
		ins, outs := content(asMap(post["requestBody"])), content(asMap(asMap(post["responses"])["200"]))
		if str(ins, "type") != "object" || str(outs, "type") != "object" {
			bad("object", "%v %v", ins, outs)
			return
		}
		names := func(m map[string]bool) string {
			var l []string
			for k := range m {
				l = append(l, k)
			}
			sort.Strings(l)
			return fmt.Sprint(l)
		}
		keys := func(v any) string {
			m := map[string]bool{}
			for k := range asMap(v) {
				m[k] = true
			}
			return names(m)
		}
		if keys(ins["properties"]) != names(in) || keys(outs["properties"]) != names(out) {
			bad("fields", "published %v and %v, not %v and %v", keys(ins["properties"]), keys(outs["properties"]), names(in), names(out))
		}
		published := map[string]bool{}
		if l, ok := ins["required"].([]any); ok {
			for _, r := range l {
				published[r.(string)] = true
			}
		}
		if l, ok := outs["required"].([]any); ok && len(l) > 0 {
			for _, r := range l {
				if !out[r.(string)] {
					bad("required", "response requires %v", r)
				}
			}
		}
		// what the client sends, and every part of it
		obj := reflect.New(t)
		for j, f := range full {
			if f != nil {
				obj.Elem().Field(j).Set(reflect.ValueOf(f))
			}
		}
		cl, _ := api.NewClient(c, obj.Interface())
		req := &api.JSON{}
		if err := cl.Send(c, obj.Interface(), req); err != nil {
			bad("client", "%v", err)
			return
		}
		var inNames []string
		for n := range in {
			inNames = append(inNames, n)
		}
		sort.Strings(inNames)
		var uids []enc.Node
		sec, _ := post["security"].([]any)
		jwt, open := false, false
		for _, s := range sec {
			if m := asMap(s); m["jwt"] != nil {
				jwt = true
			} else {
				open = true
			}
		}
		if jwt != (auth > 0) {
			bad("security", "published %v with %d auth fields", sec, auth)
		}
		uids = []enc.Node{nil}
		if auth > 0 {
			for j, tg := range tags {
				if strings.HasPrefix(tg, "auth") && full[j] != nil {
					n, _ := enc.Marshal(c, full[j])
					uids = append(uids, n)
				}
			}
		}
		for mask := 0; mask < 1<<len(inNames); mask++ {
			for _, uid := range uids {
				part := &api.JSON{Data: enc.Map{}, UID: uid}
				complete := true
				for b, n := range inNames {
					if mask&(1<<b) != 0 {
						part.Data[n] = req.Data[n]
					} else if published[n] {
						complete = false
					}
				}
				allowed := complete && (uid != nil || !jwt || open)
				got, err := srv.Recv(c, part)
				w.Ev++
				if (err == nil) != allowed {
					bad("enforced", "published required %v, security %v: a request of %v with user %v gives %v", names(published), sec, part.Data, uid, err)
					return
				}
				w.Out(fmt.Sprint("accepted ", allowed))
				if err != nil {
					continue
				}
				w.Nt++
				bodyv, err := wire(part.Data)
				if err != nil {
					continue
				}
				if err := d.valid(ins, bodyv, "in"); err != nil {
					bad("in", "%v", err)
				}
				for _, o := range []any{got, obj.Interface()} {
					res := &api.JSON{}
					if err := srv.Send(c, o, res); err != nil {
						bad("send", "%v", err)
						continue
					}
					resv, err := wire(res.Data)
					if err == nil {
						err = d.valid(outs, resv, "out")
					}
					if err != nil {
						bad("out", "%v", err)
					}
					if keys(resv) != names(out) {
						bad("out", "a response of %v, published %v", keys(resv), names(out))
					}
				}
			}
		}
	})
}

// ---------------------------------------------------------------- the document of a server

type opA struct {
	_  string   `url:"/a"`
	In *plain   `api:"in,required"`
	R  []recPtr `api:"out"`
}

func (*opA) Do(ctx.C) error { return nil }

type opB struct {
	U   string `url:"/b"`
	V   string `url:"/b/two"`
	Who string `api:"auth,required"`
	X   gen[mutA]
	Y   gen[mutA] `api:"both"`
}

func (*opB) Do(ctx.C) error { return nil }

type opC struct {
	U string `url:"/c"`
}

func (*opC) Do(ctx.C) error { return nil }

type opBad struct {
	U string   `url:"/bad"`
	X chan int `api:"in"`
}

func (*opBad) Do(ctx.C) error { return nil }

// every subset of registrations in several orders: each is served and documented
func servers(k *vk.Check) {
	type reg struct {
		paths []string
		posts bool
		do    func(s *http.Server) error
	}
	regs := []reg{
		{[]string{"/a"}, true, func(s *http.Server) error { _, err := s.RegisterAPI(c, &opA{}); return err }},
		{[]string{"/b", "/b/two"}, true, func(s *http.Server) error { _, err := s.RegisterAPI(c, &opB{}); return err }},
		{[]string{"/c"}, true, func(s *http.Server) error { _, err := s.RegisterAPI(c, &opC{}); return err }},
		{nil, true, func(s *http.Server) error {
			if _, err := s.RegisterAPI(c, &opBad{}); err == nil {
				return fmt.Errorf("a handler of a channel is accepted")
			}
			return nil
		}},
		{[]string{"/r"}, true, func(s *http.Server) error {
			s.HandleRequest("/r", func(c ctx.C, in []byte, r *nethttp) ([]byte, error) { return []byte("{}"), nil })
			return nil
		}},
		{[]string{"/h"}, false, func(s *http.Server) error {
			s.HandleFunc("/h", func(w respw, r *nethttp) { w.WriteHeader(204) })
			return nil
		}},
	}
	var orders [][]int
	var perm func(used int, cur []int)
	perm = func(used int, cur []int) {
		orders = append(orders, append([]int{}, cur...))
		for i := range regs {
			if used&(1<<i) == 0 {
				perm(used|1<<i, append(cur, i))
			}
		}
	}
	perm(0, nil)
	k.Set("orders of registration", len(orders))
	k.Par(int64(len(orders)), func(w *vk.Worker, i int64) {
		s := http.NewServer(c)
		want := map[string]bool{}
		w.Ev++
		for _, r := range orders[i] {
			if err := vk.Catch(func() error { return regs[r].do(s) }); err != nil {
				w.Violate("server/register", fmt.Sprintf("registrations %v: %v", orders[i], err), orders[i])
				return
			}
			for _, p := range regs[r].paths {
				want[p] = regs[r].posts
			}
		}
		rec := httptest.NewRecorder()
		s.Mux().ServeHTTP(rec, httptest.NewRequest("GET", "/openapi.json", nil).WithContext(c))
		var n any
		err := json.Unmarshal(rec.Body.Bytes(), &n)
		if rec.Code != 200 || err != nil {
			w.Violate("server/document", fmt.Sprintf("registrations %v: status %d, %v", orders[i], rec.Code, err), orders[i])
			return
		}
		m := asMap(n)
		d := doc{comps: asMap(asMap(m["components"])["schemas"])}
		if err := d.sane(n); err != nil || !strings.HasPrefix(str(m, "openapi"), "3.") || asMap(m["info"]) == nil {
			w.Violate("server/document", fmt.Sprintf("registrations %v: %v", orders[i], err), orders[i])
		}
		paths := asMap(m["paths"])
		for p, posts := range want {
			if _, ok := paths[p]; !ok || posts && asMap(asMap(paths[p])["post"]) == nil {
				w.Violate("server/path", fmt.Sprintf("registrations %v: %s is not documented", orders[i], p), orders[i])
			}
			rec := httptest.NewRecorder()
			s.Mux().ServeHTTP(rec, httptest.NewRequest("POST", p, strings.NewReader("{}")).WithContext(c))
			if rec.Code == 404 {
				w.Violate("server/path", fmt.Sprintf("registrations %v: %s is documented and not served", orders[i], p), orders[i])
			}
		}
		for p := range paths {
			if _, ok := want[p]; !ok {
				w.Violate("server/path", fmt.Sprintf("registrations %v: %s is documented and was not registered", orders[i], p), orders[i])
			}
		}
		w.Nt++
		w.Out(fmt.Sprint("server ", len(want)))
	})
}

func main() {
	vk.Main("C28", "exploration", func(k *vk.Check) {
		k.Rule("every type expression to the depth bound over pointers, slices, arrays, maps and structures of each base type (plain, named, with marshallers of every outcome, recursive, generic, local, of packages with similar names, unsupported); every pair of composed types on one service; structures of up to 130 fields, types up to 33 deep, every type on one service in rotations of two orders; every example text on every base type; every handler type of two fields over tags and types with every part of its input; every order of registration of every subset of a set of handlers")
		k.Assume("null is accepted wherever a value is: the document has no notion of it", "interfaces and raw JSON are published as an object without properties, which stands for any value", "of a type with its own marshaller only the kind of JSON value is published")
		types(k)
		together(k)
		large(k)
		examples(k)
		handlers(k)
		servers(k)
	})
}
