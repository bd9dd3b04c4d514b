package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"verif.local/mc/lib/vk"
)

type kU8 uint8
type kF float64

// keys with a form of their own
type (
	kLevel int    // a word in a node
	kColor string // in capitals in JSON
	kPlus  int    // one more in JSON
	kTwice uint16 // twice as much in a node
)

func (l kLevel) MarshalNode(ctx.C) (enc.Node, error) {
	return enc.String(fmt.Sprintf("level %d", int(l))), nil
}
func (l *kLevel) UnmarshalNode(c ctx.C, n enc.Node) error {
	s, ok := n.(enc.String)
	if !ok {
		return fmt.Errorf("%T is no level", n)
	}
	_, err := fmt.Sscanf(string(s), "level %d", (*int)(l))
	return err
}
func (l kColor) MarshalJSON() ([]byte, error) { return json.Marshal("#" + string(l)) }
func (l *kColor) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil || s == "" {
		return fmt.Errorf("no color %s: %v", b, err)
	}
	*l = kColor(s[1:])
	return nil
}
func (l kPlus) MarshalJSON() ([]byte, error) { return json.Marshal(int(l) + 1) }
func (l *kPlus) UnmarshalJSON(b []byte) error {
	var n int
	if err := json.Unmarshal(b, &n); err != nil {
		return err
	}
	*l = kPlus(n - 1)
	return nil
}
func (l kTwice) MarshalNode(ctx.C) (enc.Node, error) { return enc.Integer(2 * int64(l)), nil }
func (l *kTwice) UnmarshalNode(c ctx.C, n enc.Node) error {
	var i int
	if err := enc.Unmarshal(c, n, &i); err != nil {
		return err
	}
	*l = kTwice(i / 2)
	return nil
}

// mapKeys: maps with keys of every type that can stand for a JSON name, every subset of up to three keys of an alphabet; the
// names have to be those encoding/json gives (for types both know), every entry is there under its own name, and the map comes
// back. Keys that only travel one way (floats, any) are judged by their names.
func mapKeys(k *vk.Check) {
	type kind struct {
		keys []reflect.Value
		back bool                         // comes back into the same type
		name func(k reflect.Value) string // what it is called, "" when only the number matters
	}
	var kinds []kind
	text := func(v reflect.Value) string { return v.String() }
	dec := func(v reflect.Value) string {
		if v.CanInt() {
			return strconv.FormatInt(v.Int(), 10)
		}
		return strconv.FormatUint(v.Uint(), 10)
	}
	add := func(back bool, name func(reflect.Value) string, t reflect.Type, xs ...any) {
		kd := kind{back: back, name: name}
		for _, x := range xs {
			v := reflect.New(t).Elem()
			v.Set(reflect.ValueOf(x))
			kd.keys = append(kd.keys, v)
		}
		kinds = append(kinds, kd)
	}
	strs := []any{"", "a", "A", "a b", "é", "\"", "\\", "\n", "0", "-1", "1.0", "null", "#key", "<", "\u2028"}
	add(true, text, rt[string](), strs...)
	var named, nodes []any
	for _, s := range strs {
		named = append(named, nStr(s.(string)))
		nodes = append(nodes, enc.String(s.(string)))
	}
	add(true, text, rt[nStr](), named...)
	add(true, text, rt[enc.String](), nodes...)
	add(true, dec, rt[int](), 0, 1, -1, 10, math.MaxInt64, math.MinInt64, 1<<53+1, -(1<<53 + 1))
	add(true, dec, rt[int8](), int8(0), int8(127), int8(-128), int8(9))
	add(true, dec, rt[int16](), int16(0), int16(32767), int16(-32768))
	add(true, dec, rt[int32](), int32(0), int32(math.MaxInt32), int32(math.MinInt32))
	add(true, dec, rt[int64](), int64(0), int64(math.MaxInt64), int64(math.MinInt64), int64(1e18), int64(-1))
	add(true, dec, rt[nInt](), nInt(0), nInt(-300), nInt(7))
	add(true, dec, rt[uint](), uint(0), uint(math.MaxUint64), uint(1<<63))
	add(true, dec, rt[uint8](), uint8(0), uint8(255), uint8(128))
	add(true, dec, rt[kU8](), kU8(0), kU8(255))
	add(true, dec, rt[uint16](), uint16(0), uint16(65535))
	add(true, dec, rt[uint32](), uint32(0), uint32(math.MaxUint32))
	add(true, dec, rt[uint64](), uint64(0), uint64(math.MaxUint64), uint64(1<<63), uint64(1<<63-1))
	add(true, dec, rt[time.Duration](), time.Duration(0), time.Second, time.Duration(-3))
	add(true, text, rt[enc.Duration](), enc.Duration(0), enc.Duration(1500*time.Millisecond), enc.Duration(-3))
	kinds[len(kinds)-1].name = func(v reflect.Value) string {
		if v.Int() == 0 {
			return "" // as everywhere
		}
		return time.Duration(v.Int()).String()
	}
	add(true, text, rt[vm](), vm{"a", "b"}, vm{"", ""})
	kinds[len(kinds)-1].name = func(v reflect.Value) string { x := v.Interface().(vm); return x.A + "|" + x.B }
	add(true, nil, rt[kLevel](), kLevel(0), kLevel(-4), kLevel(5))
	kinds[len(kinds)-1].name = func(v reflect.Value) string { return fmt.Sprint("level ", v.Int()) }
	add(true, nil, rt[kColor](), kColor(""), kColor("red"), kColor("5"))
	kinds[len(kinds)-1].name = func(v reflect.Value) string { return "#" + v.String() }
	add(true, nil, rt[kPlus](), kPlus(0), kPlus(-1), kPlus(1<<40))
	kinds[len(kinds)-1].name = func(v reflect.Value) string { return fmt.Sprint(v.Int() + 1) }
	add(true, nil, rt[kTwice](), kTwice(0), kTwice(65535), kTwice(3))
	kinds[len(kinds)-1].name = func(v reflect.Value) string { return fmt.Sprint(2 * v.Uint()) }
	floats := []any{0.0, 1.5, -1.5, 1e21, 1e-7, 123456789.0, math.MaxFloat64, float64(1 << 60)}
	var kf []any
	for _, f := range floats {
		kf = append(kf, kF(f.(float64)))
	}
	add(false, nil, rt[float64](), floats...)
	add(false, nil, rt[kF](), kf...)
	add(false, nil, rt[float32](), float32(0.25), float32(-3), float32(1<<20))
	add(false, nil, rt[enc.Float](), enc.Float(0), enc.Float(-2.5))
	add(false, dec, rt[enc.Integer](), enc.Integer(0), enc.Integer(math.MinInt64))
	add(false, text, rt[enc.Digits](), enc.Digits("0"), enc.Digits("123456789012345678901234567890"), enc.Digits("1.5"))
	add(false, text, rt[json.Number](), json.Number("0"), json.Number("-1.5"), json.Number("12345678901234567890123"))
	any3 := func(v reflect.Value) string {
		v = v.Elem()
		switch {
		case v.Kind() == reflect.String:
			return v.String()
		case v.CanInt() || v.CanUint():
			return dec(v)
		}
		return ""
	}
	add(false, any3, rt[any](), "x", "7x", 7, int8(-7), uint64(math.MaxUint64), nStr("n"), nInt(12), enc.String("es"), enc.Integer(99), 2.5)

	type job struct {
		kd  *kind
		set []int
	}
	var jobs []job
	for i := range kinds {
		kd := &kinds[i]
		n := len(kd.keys)
		for a := 0; a < n; a++ {
			jobs = append(jobs, job{kd, []int{a}})
			for b := a + 1; b < n; b++ {
				jobs = append(jobs, job{kd, []int{a, b}})
				for c := b + 1; c < n; c++ {
					jobs = append(jobs, job{kd, []int{a, b, c}})
				}
			}
		}
		all := job{kd: kd}
		for a := 0; a < n; a++ {
			all.set = append(all.set, a)
		}
		jobs = append(jobs, all)
	}
	k.Set("maps of every kind of key", len(jobs))
	k.Par(int64(len(jobs)), func(w *vk.Worker, i int64) {
		j := jobs[i]
		kt := j.kd.keys[0].Type()
		for _, elem := range []reflect.Type{rt[string](), rt[[]int](), rt[*int](), rt[any]()} {
			mt := reflect.MapOf(kt, elem)
			m := reflect.MakeMap(mt)
			val := func(a int) reflect.Value {
				v := reflect.New(elem).Elem()
				switch elem.Kind() {
				case reflect.String, reflect.Interface:
					v.Set(reflect.ValueOf(fmt.Sprint("v", a)))
				case reflect.Slice:
					v.Set(reflect.ValueOf([]int{a}))
				case reflect.Pointer:
					if a > 0 {
						v.Set(reflect.ValueOf(&a))
					}
				}
				return v
			}
			for _, a := range j.set {
				m.SetMapIndex(j.kd.keys[a], val(a))
			}
			what := fmt.Sprintf("%v %v", mt, m)
			w.Note(what)
			w.Ev++
			var node enc.Node
			var js []byte
			err := vk.Catch(func() (err error) {
				if node, err = enc.Marshal(c, m.Interface()); err == nil {
					js, err = enc.MarshalJSON(c, m.Interface())
				}
				return
			})
			if err != nil {
				w.Violate("keys/marshal/"+kt.String(), fmt.Sprintf("%s: %v", what, err), what)
				continue
			}
			nm, ok := node.(enc.Map)
			if !ok || len(nm) != len(j.set) {
				w.Violate("keys/count/"+kt.String(), fmt.Sprintf("%s becomes %v", what, node), what)
				continue
			}
			var fromJSON map[string]any
			if err := json.Unmarshal(js, &fromJSON); err != nil || len(fromJSON) != len(j.set) {
				w.Violate("keys/json/"+kt.String(), fmt.Sprintf("%s becomes %s: %v", what, js, err), what)
				continue
			}
			for _, a := range j.set {
				key := j.kd.keys[a]
				name := ""
				if j.kd.name != nil {
					name = j.kd.name(key)
				}
				if j.kd.name == nil || name == "" && kt == rt[any]() { // by what the name denotes
					if kt == rt[any]() {
						key = key.Elem()
					}
					n := 0
					for have := range nm {
						if key.CanFloat() {
							if f, err := strconv.ParseFloat(have, 64); err == nil && f == key.Float() {
								name = have
								n++
							}
						}
					}
					if n != 1 {
						w.Violate("keys/name/"+kt.String(), fmt.Sprintf("%s: %v has %d names in %s", what, key, n, js), what)
						continue
					}
				}
				w.Nt++
				got, has := nm[name]
				if _, inJSON := fromJSON[name]; !has || !inJSON {
					w.Violate("keys/name/"+kt.String(), fmt.Sprintf("%s: no %q in %s", what, name, js), what)
					continue
				}
				back := reflect.New(elem)
				if err := enc.Unmarshal(c, got, back.Interface()); err != nil || !reflect.DeepEqual(back.Elem().Interface(), val(a).Interface()) {
					w.Violate("keys/value/"+kt.String(), fmt.Sprintf("%s: %q is %v: %v", what, name, got, err), what)
				}
			}
			if !j.kd.back {
				continue
			}
			for way, f := range map[string]func(into any) error{
				"tree": func(into any) error { return enc.Unmarshal(c, node, into) },
				"text": func(into any) error { return enc.UnmarshalJSON(c, js, into) },
			} {
				into := reflect.New(mt)
				if err := vk.Catch(func() error { return f(into.Interface()) }); err != nil {
					w.Violate("keys/back/"+kt.String(), fmt.Sprintf("%s as %s %s: %v", what, way, js, err), what)
				} else if !equal(m, into.Elem()) {
					w.Violate("keys/back/"+kt.String(), fmt.Sprintf("%s as %s %s comes back as %v", what, way, js, into.Elem()), what)
				}
			}
			w.Out("keys " + kt.Kind().String())
		}
	})
}
