package main

import (
	"fmt"
	"reflect"

	"verif.local/mc/lib/vk"
)

// big values: long slices, arrays and maps of every leaf type with another value at every place, structs of many fields
// with one of them set, and types nested many levels deep.
func big(k *vk.Check) {
	ls := leafTypes()
	var sizes []int
	for n := 3; n <= k.Pick(34, 70); n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 64, 65, 100, 128, 129, 256, 257, 1000)
	k.Par(int64(len(ls)*len(sizes)), func(w *vk.Worker, i int64) {
		ty, n := ls[int(i)%len(ls)], sizes[int(i)/len(ls)]
		vs := gen(ty.t, 4)
		f := ty.f.or(flags{noJSON: ty.t.Kind() == reflect.Uint8})
		for at := 0; at < n; at++ {
			if n > 20 && at > 2 && at < n-3 && at%16 > 1 {
				continue
			}
			for _, base := range vs[:min(2, len(vs))] {
				odd := vs[(at+1)%len(vs)]
				sl := reflect.MakeSlice(reflect.SliceOf(ty.t), n, n)
				ar := reflect.New(reflect.ArrayOf(n, ty.t)).Elem()
				ms := reflect.MakeMap(reflect.MapOf(rt[string](), ty.t))
				mi := reflect.MakeMap(reflect.MapOf(rt[int](), reflect.PointerTo(ty.t)))
				for j := 0; j < n; j++ {
					v := base
					if j == at {
						v = odd
					}
					sl.Index(j).Set(v)
					ar.Index(j).Set(v)
					ms.SetMapIndex(reflect.ValueOf(fmt.Sprint("key ", j)), v)
					p := reflect.New(ty.t)
					p.Elem().Set(v)
					mi.SetMapIndex(reflect.ValueOf(j-3), p)
				}
				check(w, typ{sl.Type(), f}, sl)
				check(w, typ{ar.Type(), ty.f}, ar)
				check(w, typ{ms.Type(), ty.f}, ms)
				check(w, typ{mi.Type(), ty.f}, mi)
			}
			if n > 300 {
				break
			}
		}
	})
	// many fields
	k.Par(int64(len(ls)*40), func(w *vk.Worker, i int64) {
		ty, n := ls[int(i)%len(ls)], int(i)/len(ls)+2
		for form := 0; form < 3; form++ {
			f := ty.f
			f.omit = f.omit || form > 0
			var fs []reflect.StructField
			for j := 0; j < n; j++ {
				tag := reflect.StructTag("")
				switch {
				case form == 1:
					tag = `json:",omitempty"`
				case form == 2: // the names in the opposite order, every third left out if empty
					tag = reflect.StructTag(fmt.Sprintf(`json:"n%d"`, n-j))
					if j%3 == 0 {
						tag = reflect.StructTag(fmt.Sprintf(`json:"n%d,omitempty"`, n-j))
					}
				}
				fs = append(fs, reflect.StructField{Name: fmt.Sprint("F", j), Type: ty.t, Tag: tag})
			}
			t := reflect.StructOf(fs)
			vs := gen(ty.t, 4)
			for at := 0; at < n; at++ {
				v := reflect.New(t).Elem()
				if ty.t.Kind() == reflect.Interface || ty.t.Kind() == reflect.Map || ty.t.Kind() == reflect.Slice {
					for j := 0; j < n; j++ {
						v.Field(j).Set(vs[0])
					}
				}
				v.Field(at).Set(vs[len(vs)-1])
				check(w, typ{t, f}, v)
			}
		}
	})
	// deep
	depth := k.Pick(24, 60)
	k.Par(int64(len(ls)*5), func(w *vk.Worker, i int64) {
		ty, form := ls[int(i)%len(ls)], int(i)/len(ls)
		t, f := ty.t, ty.f.or(flags{noJSON: ty.t.Kind() == reflect.Uint8})
		wrap := func(v reflect.Value, d int) reflect.Value { return v }
		_ = wrap
		var steps []func(v reflect.Value) reflect.Value
		for d := 0; d < depth; d++ {
			kind := form
			if form == 4 {
				kind = d % 4
			}
			switch kind {
			case 0:
				t = reflect.PointerTo(t)
				steps = append(steps, func(v reflect.Value) reflect.Value {
					p := reflect.New(v.Type())
					p.Elem().Set(v)
					return p
				})
			case 1:
				t = reflect.SliceOf(t)
				steps = append(steps, func(v reflect.Value) reflect.Value {
					s := reflect.MakeSlice(reflect.SliceOf(v.Type()), 1, 1)
					s.Index(0).Set(v)
					return s
				})
			case 2:
				t = reflect.MapOf(rt[string](), t)
				steps = append(steps, func(v reflect.Value) reflect.Value {
					m := reflect.MakeMap(reflect.MapOf(rt[string](), v.Type()))
					m.SetMapIndex(reflect.ValueOf("k"), v)
					return m
				})
			case 3:
				t = reflect.StructOf([]reflect.StructField{{Name: "F", Type: t, Tag: `json:"f"`}, {Name: "G", Type: rt[int]()}})
				st := t
				steps = append(steps, func(v reflect.Value) reflect.Value {
					s := reflect.New(st).Elem()
					s.Field(0).Set(v)
					s.Field(1).SetInt(3)
					return s
				})
			}
			for _, v := range gen(ty.t, 4) {
				for _, s := range steps {
					v = s(v)
				}
				check(w, typ{t, f}, v)
			}
		}
	})
	k.Set("longest", sizes[len(sizes)-1])
	k.Set("deepest", depth)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
