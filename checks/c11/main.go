// C11: every field kind under every environment text up to a length, tags with and without defaults, presets and sharing.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/Aize-Public/forego/config"
	"github.com/Aize-Public/forego/ctx"
	"verif.local/mc/lib/vk"
)

var c = ctx.TODO()

type (
	nStr   string
	nBool  bool
	nInt   int
	nSlice []string
	nMap   map[string]int
)

// text uses the standard interface, ctext the package's own, jtext json's.
type text struct{ V string }

func (t *text) UnmarshalText(b []byte) error {
	if strings.Contains(string(b), "-") {
		return errors.New("no dashes")
	}
	t.V = "<" + string(b) + ">"
	return nil
}

type ctext struct{ V string }

func (t *ctext) UnmarshalText(c ctx.C, s string) error {
	if strings.Contains(s, "-") {
		return ctx.NewErrorf(c, "no dashes")
	}
	t.V = "{" + s + "}"
	return nil
}

type jtext struct{ V int }

func (t *jtext) UnmarshalJSON(b []byte) error { return json.Unmarshal(b, &t.V) }

// the struct shapes; KEY is what they ask for
type req[F any] struct {
	Keep string
	X    F `config:"KEY"`
	Also F
}
type defEmpty[F any] struct {
	X F `config:"KEY,default="`
}
type defNone[F any] struct {
	X F `config:"KEY,default"`
}
type def5[F any] struct {
	X F `config:"KEY,default=5"`
}
type defT[F any] struct {
	X F `config:"KEY,default=true"`
}
type defA[F any] struct {
	X F `config:"KEY,default=a=1"`
}

// want converts s the way the kind of field demands; ok false: must be an error.
type want func(s string) (v any, ok bool)

func wBool(s string) (bool, bool) {
	switch strings.ToLower(s) {
	case "true", "1", "yes", "y":
		return true, true
	case "", "false", "0", "no", "n":
		return false, true
	}
	return false, false
}

func wText(s string) (text, bool) { return text{"<" + s + ">"}, !strings.Contains(s, "-") }

// elems splits a list; nil for the empty text.
func elems(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ",")
}

type runner struct {
	k *vk.Check
	w *vk.Worker
}

// load runs From and turns a panic into a violation.
func load[T any](r runner, cfg T, env map[string]string, what string) (out T, err error, ok bool) {
	p := vk.Catch(func() error {
		out, err = config.From(c, cfg, func(k string) string { return env[k] })
		return nil
	})
	r.w.Ev++
	if p != nil {
		r.k.Violate(fmt.Sprintf("panic:%T", cfg), what+": "+p.Error(), map[string]any{"config": fmt.Sprintf("%T", cfg), "env": env})
		return out, nil, false
	}
	return out, err, true
}

func verdict(r runner, what string, got any, err error, w any, ok bool, env map[string]string) {
	key := what[:strings.Index(what, " ")]
	rep := map[string]any{"case": what, "env": env}
	if !ok {
		r.w.Out("error")
		if err == nil {
			r.k.Violate("accepted:"+key, fmt.Sprintf("%s: accepted as %#v, must be an error", what, got), rep)
		} else if !strings.Contains(err.Error(), "KEY") {
			r.k.Violate("unnamed:"+key, fmt.Sprintf("%s: the error does not name the setting: %v", what, err), rep)
		}
		return
	}
	r.w.Out("value")
	r.w.Nt++
	if err != nil {
		r.k.Violate("refused:"+key, fmt.Sprintf("%s: %v", what, err), rep)
	} else if !equal(got, w) {
		r.k.Violate("value:"+key, fmt.Sprintf("%s: got %#v, want %#v", what, got, w), rep)
	}
}

// equal ignores the difference between nil and empty.
func equal(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsValid() && vb.IsValid() && va.Type() == vb.Type() && (va.Kind() == reflect.Slice || va.Kind() == reflect.Map) && va.Len() == 0 && vb.Len() == 0 {
		return true
	}
	return reflect.DeepEqual(a, b)
}

// one checks field type F under environment text s.
func one[F any](r runner, name, s string, w want, kinds int) {
	env := map[string]string{"KEY": s, "Keep": "wrong", "Also": "wrong", "": "wrong"}
	what := func(shape string) string { return fmt.Sprintf("%s %s with KEY=%q", name, shape, s) }
	conv := func(s string) (any, bool) { return w(s) }
	var zero F
	// required
	{
		o, err, alive := load(r, req[F]{Keep: "kept"}, env, what("required"))
		if alive {
			v, ok := conv(s)
			if s == "" {
				ok = false
			}
			verdict(r, what("required"), o.X, err, v, ok, env)
			if o.Keep != "kept" || !equal(o.Also, zero) {
				r.k.Violate("touched:"+name, what("required")+": changed a field without a tag", nil)
			}
		}
	}
	def := func(shape string, got any, err error, alive bool, d string) {
		if !alive {
			return
		}
		t := s
		if t == "" {
			t = d
		}
		v, ok := conv(t)
		if t == "" && !ok && err == nil && equal(got, zero) {
			return // an empty default means the zero value
		}
		if t == "" && err != nil && zeroByText[name] {
			return // text types decide themselves about the empty text
		}
		verdict(r, what(shape), got, err, v, ok, env)
	}
	o1, err, alive := load(r, defEmpty[F]{}, env, what("default="))
	def("default=", o1.X, err, alive, "")
	o2, err, alive := load(r, defNone[F]{}, env, what("default"))
	def("default", o2.X, err, alive, "")
	o3, err, alive := load(r, def5[F]{}, env, what("default=5"))
	def("default=5", o3.X, err, alive, "5")
	o4, err, alive := load(r, defT[F]{}, env, what("default=true"))
	def("default=true", o4.X, err, alive, "true")
	o5, err, alive := load(r, defA[F]{}, env, what("default=a=1"))
	def("default=a=1", o5.X, err, alive, "a=1")
}

var zeroByText = map[string]bool{"text": true, "jtext": true}

func num(s string) (int, bool) { i, err := strconv.Atoi(s); return i, err == nil }

func all(r runner, s string) {
	unsupported := func(string) (any, bool) { return nil, false }
	one[string](r, "string", s, func(s string) (any, bool) { return s, true }, 0)
	one[nStr](r, "nStr", s, func(s string) (any, bool) { return nStr(s), true }, 0)
	one[bool](r, "bool", s, func(s string) (any, bool) { v, ok := wBool(s); return v, ok }, 0)
	one[nBool](r, "nBool", s, func(s string) (any, bool) { v, ok := wBool(s); return nBool(v), ok }, 0)
	one[int](r, "int", s, func(s string) (any, bool) { v, ok := num(s); return v, ok }, 0)
	one[nInt](r, "nInt", s, func(s string) (any, bool) { v, ok := num(s); return nInt(v), ok }, 0)
	one[[]string](r, "[]string", s, func(s string) (any, bool) { return elems(s), true }, 0)
	one[nSlice](r, "nSlice", s, func(s string) (any, bool) { return nSlice(elems(s)), true }, 0)
	one[[]int](r, "[]int", s, func(s string) (any, bool) {
		var l []int
		for _, e := range elems(s) {
			i, ok := num(e)
			if !ok {
				return nil, false
			}
			l = append(l, i)
		}
		return l, true
	}, 0)
	one[[]nBool](r, "[]nBool", s, func(s string) (any, bool) {
		var l []nBool
		for _, e := range elems(s) {
			b, ok := wBool(e)
			if !ok {
				return nil, false
			}
			l = append(l, nBool(b))
		}
		return l, true
	}, 0)
	one[[]text](r, "[]text", s, func(s string) (any, bool) {
		var l []text
		for _, e := range elems(s) {
			if e == "" {
				return nil, false
			}
			t, ok := wText(e)
			if !ok {
				return nil, false
			}
			l = append(l, t)
		}
		return l, true
	}, 0)
	one[map[string]string](r, "map[string]string", s, func(s string) (any, bool) {
		m := map[string]string{}
		for _, e := range elems(s) {
			k, v, _ := strings.Cut(e, "=")
			m[k] = v
		}
		return m, true
	}, 0)
	mi := func(s string) (map[string]int, bool) {
		m := map[string]int{}
		for _, e := range elems(s) {
			k, v, _ := strings.Cut(e, "=")
			i, ok := num(v)
			if !ok {
				return nil, false
			}
			m[k] = i
		}
		return m, true
	}
	one[map[string]int](r, "map[string]int", s, func(s string) (any, bool) { m, ok := mi(s); return m, ok }, 0)
	one[nMap](r, "nMap", s, func(s string) (any, bool) { m, ok := mi(s); return nMap(m), ok }, 0)
	one[map[nStr]nBool](r, "map[nStr]nBool", s, func(s string) (any, bool) {
		m := map[nStr]nBool{}
		for _, e := range elems(s) {
			k, v, _ := strings.Cut(e, "=")
			b, ok := wBool(v)
			if !ok {
				return nil, false
			}
			m[nStr(k)] = nBool(b)
		}
		return m, true
	}, 0)
	one[map[nInt]string](r, "map[nInt]string", s, func(s string) (any, bool) {
		m := map[nInt]string{}
		for _, e := range elems(s) {
			k, v, _ := strings.Cut(e, "=")
			i, ok := num(k)
			if !ok {
				return nil, false
			}
			m[nInt(i)] = v
		}
		return m, true
	}, 0)
	one[text](r, "text", s, func(s string) (any, bool) { t, ok := wText(s); return t, ok && s != "" }, 0)
	one[ctext](r, "ctext", s, func(s string) (any, bool) { return ctext{"{" + s + "}"}, !strings.Contains(s, "-") }, 0)
	one[jtext](r, "jtext", s, func(s string) (any, bool) {
		var j jtext
		if s == "" {
			return nil, false
		}
		err := json.Unmarshal([]byte(s), &j.V)
		return j, err == nil
	}, 0)
	one[*int](r, "*int", s, unsupported, 0)
	one[struct{ A int }](r, "struct", s, unsupported, 0)
	one[func()](r, "func", s, unsupported, 0)
	one[chan int](r, "chan", s, unsupported, 0)
	one[any](r, "any", s, unsupported, 0)
	one[complex128](r, "complex", s, unsupported, 0)
}

// presets: what was in the struct before, and what several loads share
func presets(k *vk.Check, w *vk.Worker) {
	r := runner{k, w}
	for _, s := range []string{"", "x", "x,y", "x,y,z"} {
		for spare := 0; spare < 3; spare++ {
			backing := append(make([]string, 0, 8), "p", "q", "KEEP1", "KEEP2", "KEEP3")
			base := defEmpty[[]string]{X: backing[: 2 : 2+spare*3]}
			one := map[string]string{"KEY": s}
			a, err, ok := load(r, base, one, "preset")
			if !ok || err != nil {
				k.Violate("preset", fmt.Sprintf("preset slice, KEY=%q: %v", s, err), nil)
				continue
			}
			if s != "" && !equal(a.X, elems(s)) {
				k.Violate("preset-slice", fmt.Sprintf("a preset slice [p q] loaded with KEY=%q gives %q", s, a.X), map[string]any{"env": one})
			}
			b, _, _ := load(r, base, map[string]string{"KEY": "other,one,two"}, "preset")
			if s != "" && !equal(a.X, elems(s)) {
				k.Violate("shared-slice", fmt.Sprintf("loading a second configuration changed the first to %q", a.X), map[string]any{"env": one})
			}
			_ = b
			if fmt.Sprint(backing) != "[p q KEEP1 KEEP2 KEEP3]" {
				k.Violate("input-slice", fmt.Sprintf("loading changed the caller's slice to %q", backing), map[string]any{"env": one})
			}
			w.Nt++
		}
		m := map[string]string{"pre": "1"}
		base := defEmpty[map[string]string]{X: m}
		a, err, ok := load(r, base, map[string]string{"KEY": s}, "preset map")
		if ok && err == nil {
			if len(m) != 1 || m["pre"] != "1" {
				k.Violate("input-map", fmt.Sprintf("loading changed the caller's map to %v", m), nil)
			}
			if s != "" {
				a.X["later"] = "1"
				if len(m) != 1 {
					k.Violate("shared-map", "two configurations share a map", nil)
				}
			}
		}
	}
}

type several struct {
	A string `config:"A"`
	B int    `config:"B,default=7"`
	c string
	C []int          `config:"C,default="`
	D bool           `config:"D"`
	E map[string]int `config:"E,default="`
	F string         `json:"f"`
	G time.Time
}

// every combination of five settings being absent, good or bad
func combos(k *vk.Check, w *vk.Worker) {
	r := runner{k, w}
	vals := map[string][]string{"A": {"", "a"}, "B": {"", "3", "x"}, "C": {"", "1,2", "1,x"}, "D": {"", "yes", "maybe"}, "E": {"", "k=1", "k"}}
	keys := []string{"A", "B", "C", "D", "E"}
	var rec func(i int, env map[string]string)
	rec = func(i int, env map[string]string) {
		if i < len(keys) {
			for _, v := range vals[keys[i]] {
				env[keys[i]] = v
				rec(i+1, env)
			}
			return
		}
		calls := map[string]int{}
		in := several{F: "f", c: "c", G: time.Unix(9, 0)}
		var out several
		var err error
		if p := vk.Catch(func() error {
			out, err = config.From(c, in, func(k string) string { calls[k]++; return env[k] })
			return nil
		}); p != nil {
			k.Violate("panic:several", p.Error(), env)
			return
		}
		_ = r
		w.Ev++
		bad := ""
		switch {
		case env["A"] == "":
			bad = "A"
		case env["B"] == "x":
			bad = "B"
		case env["C"] == "1,x":
			bad = "C"
		case env["D"] == "" || env["D"] == "maybe":
			bad = "D"
		case env["E"] == "k":
			bad = "E"
		}
		if in.F != "f" || in.c != "c" {
			k.Violate("input", "the caller's struct changed", env)
		}
		if bad != "" {
			if err == nil {
				k.Violate("several-accepted", fmt.Sprintf("%v accepted although %s is bad", env, bad), env)
			}
			return
		}
		want := several{A: env["A"], B: 7, c: "c", D: true, F: "f", G: time.Unix(9, 0)}
		if env["B"] == "3" {
			want.B = 3
		}
		if env["C"] != "" {
			want.C = []int{1, 2}
		}
		if env["E"] != "" {
			want.E = map[string]int{"k": 1}
		}
		w.Nt++
		if err != nil || fmt.Sprintf("%+v", out) != fmt.Sprintf("%+v", want) {
			k.Violate("several", fmt.Sprintf("%v gives %+v %v, want %+v", env, out, err, want), env)
		}
		for _, key := range keys {
			if calls[key] == 0 {
				k.Violate("not-asked", key+" was never looked up", env)
			}
		}
	}
	rec(0, map[string]string{})
}

type hidden struct {
	x string `config:"KEY"`
}
type badTag struct {
	X string `config:"KEY,wrong=1"`
}
type emb struct {
	several
	Y string `config:"KEY"`
}

func odd(k *vk.Check, w *vk.Worker) {
	r := runner{k, w}
	env := map[string]string{"KEY": "v", "A": "a", "D": "1"}
	noValue := func(what string, err error, alive bool) {
		if alive && err == nil {
			k.Violate("odd:"+what, what+" is accepted", nil)
		}
	}
	h, err, alive := load(r, hidden{}, env, "unexported field")
	if h.x != "v" {
		noValue("unexported field", err, alive)
	}
	_, err, alive = load(r, badTag{}, env, "unknown tag")
	noValue("unknown tag option", err, alive)
	_, err, alive = load[any](r, nil, env, "nil interface")
	noValue("nil interface", err, alive)
	_, err, alive = load[any](r, req[string]{}, env, "struct in an interface")
	if alive && err == nil {
		k.Violate("odd:any", "a struct in an interface is accepted but can't be filled", nil)
	}
	_, err, alive = load(r, 5, env, "int")
	noValue("an int as configuration", err, alive)
	_, err, alive = load(r, &req[string]{}, env, "pointer")
	noValue("a pointer as configuration", err, alive)
	_, err, alive = load[*req[string]](r, nil, env, "nil pointer")
	noValue("a nil pointer as configuration", err, alive)
	_, err, alive = load[error](r, nil, env, "nil error")
	noValue("a nil error as configuration", err, alive)
	e, err, alive := load(r, emb{}, env, "embedding")
	if alive && (err != nil || e.Y != "v") {
		k.Violate("odd:embedding", fmt.Sprintf("embedding struct: %+v %v", e, err), nil)
	}
	if p := vk.Catch(func() error { config.Must(c, req[int]{}, func(string) string { return "x" }); return nil }); p == nil {
		k.Violate("must", "Must accepts a value that does not parse", nil)
	}
	if got := config.Must(c, req[int]{}, func(string) string { return "4" }); got.X != 4 {
		k.Violate("must", fmt.Sprint("Must gives ", got.X), nil)
	}
	w.Ev += 11
}

type many struct {
	F00 int `config:"KEY00"`
	F01 int `config:"KEY01"`
	F02 int `config:"KEY02,default=14"`
	F03 int `config:"KEY03"`
	F04 int `config:"KEY04"`
	F05 int `config:"KEY05,default=35"`
	F06 int `config:"KEY06"`
	F07 int `config:"KEY07"`
	F08 int `config:"KEY08,default=56"`
	F09 int `config:"KEY09"`
	F10 int `config:"KEY10"`
	F11 int `config:"KEY11,default=77"`
	F12 int `config:"KEY12"`
	F13 int `config:"KEY13"`
	F14 int `config:"KEY14,default=98"`
	F15 int `config:"KEY15"`
	F16 int `config:"KEY16"`
	F17 int `config:"KEY17,default=119"`
	F18 int `config:"KEY18"`
	F19 int `config:"KEY19"`
	F20 int `config:"KEY20,default=140"`
	F21 int `config:"KEY21"`
	F22 int `config:"KEY22"`
	F23 int `config:"KEY23,default=161"`
}

// 24 settings: none bad, or one bad, missing or left to its default
func wide(k *vk.Check, w *vk.Worker) {
	for at := -1; at < 24; at++ {
		for _, odd := range []string{"", "x", "12"} {
			env := map[string]string{}
			for i := 0; i < 24; i++ {
				env[fmt.Sprintf("KEY%02d", i)] = fmt.Sprint(i + 100)
			}
			if at >= 0 {
				env[fmt.Sprintf("KEY%02d", at)] = odd
			}
			out, err, ok := load(runner{k, w}, many{}, env, "24 settings")
			if !ok {
				continue
			}
			if at >= 0 && (odd == "x" || odd == "" && at%3 != 2) {
				if err == nil || !strings.Contains(err.Error(), fmt.Sprintf("KEY%02d", at)) {
					k.Violate("many-accepted", fmt.Sprintf("setting number %d is %q: error %v", at, odd, err), env)
				}
				continue
			}
			v := reflect.ValueOf(out)
			for i := 0; i < 24; i++ {
				want := i + 100
				if i == at && odd == "12" {
					want = 12
				} else if i == at {
					want = i * 7
				}
				if err != nil || v.Field(i).Int() != int64(want) {
					k.Violate("many", fmt.Sprintf("setting number %d is %q: field %d is %v, want %d: %v", at, odd, i, v.Field(i), want, err), env)
				}
			}
			w.Nt++
		}
	}
}

// long are lists and texts of up to n elements with an odd one at every place
func long(n int) (out []string) {
	odds := []string{"", "x", "-1", "a=1", "=", "007", "yes", " 1"}
	for l := 5; l <= n; l++ {
		for _, e := range []string{"1", "7=1", "k"} {
			for at := 0; at < l; at++ {
				if l > 24 && at > 3 && at < l-3 && at%8 != 0 {
					continue
				}
				for _, o := range odds {
					list := make([]string, l)
					for i := range list {
						list[i] = e
						if e == "7=1" {
							list[i] = fmt.Sprintf("%d=1", i)
						}
					}
					list[at] = o
					out = append(out, strings.Join(list, ","))
				}
			}
		}
	}
	for l := 5; l <= 300; l++ {
		out = append(out, strings.Repeat("9", l), strings.Repeat("0", l)+"1", "-"+strings.Repeat("0", l)+"5", strings.Repeat("a", l), strings.Repeat("a", l)+"=1", strings.Repeat("a", l)+",b", " "+strings.Repeat(" ", l))
	}
	return out
}

func main() {
	vk.Main("C11", "exploration", func(k *vk.Check) {
		k.Rule("25 field types in 6 tag shapes under every environment text over a 10-letter alphabet up to the length given plus chosen words and lists of up to 70 (140) elements with an odd one at every (every 8th) place; 24 settings with an odd one at every place; all presence combinations of five settings; preset and shared values")
		words := []string{"true", "TRUE", "Yes", "no", "false", "maybe", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "0x10", "1_000", "+5", "1e3", "a=1,b=2", "a=b=c", ",,", "=,=", "a=1,a=2", "true,false,no", "1,2,3", "2020-01-02T03:04:05Z", `"q"`, "null", "é", "\n"}
		words = append(words, long(k.Pick(70, 140))...)
		alpha := "a1-=,t 0yn"
		n := k.Pick(4, 5)
		var total int64
		for l, p := 0, int64(1); l <= n; l, p = l+1, p*int64(len(alpha)) {
			total += p
		}
		k.Par(total+int64(len(words)), func(w *vk.Worker, i int64) {
			s := ""
			if i >= total {
				s = words[i-total]
			} else {
				l, p := 0, int64(1)
				for i >= p {
					i -= p
					l++
					p *= int64(len(alpha))
				}
				for ; l > 0; l-- {
					s += string(alpha[i%int64(len(alpha))])
					i /= int64(len(alpha))
				}
			}
			w.Note(s)
			all(runner{k, w}, s)
		})
		k.Par(1, func(w *vk.Worker, i int64) { presets(k, w); combos(k, w); wide(k, w); odd(k, w) })
		k.Sample("text", words[:25])
		k.Set("text_length", n)
	})
}
