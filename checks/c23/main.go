// C23: every handler type of a generated family under every request, histories of requests on one handler, and
// concurrent requests.
package main

import (
	"bytes"
	"fmt"
	"log/slog"
	"reflect"
	"strings"
	"sync"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/http"

	"verif.local/mc/lib/mc"
	"verif.local/mc/lib/vk"
	"verif.local/mc/lib/vtest"
	"verif.local/mc/mcrt"
)

func mute() { log.SetDefaultLoggerLevel(slog.LevelError + 100) }

// ---------------------------------------------------------------- generated handler types

type sub struct {
	A int    `json:"a"`
	B string `json:"b"`
}

type typ struct {
	t          reflect.Type
	reg        any // registered value
	set        any // what the action writes
	valid      string
	want       any
	zero       string
	zeroVal    any
	wrong      string
	wrongFails bool
}

func ptr(i int) *int { return &i }

var types = []typ{
	{reflect.TypeOf(0), 7, 9, "5", 5, "0", 0, `"x"`, true},
	{reflect.TypeOf(""), "reg", "set", `"v"`, "v", `""`, "", `[1]`, true},
	{reflect.TypeOf([]int{}), []int{7, 8}, []int{9}, "[5,6]", []int{5, 6}, "null", []int(nil), `{"a":1}`, true},
	{reflect.TypeOf(map[string]int{}), map[string]int{"r": 7}, map[string]int{"s": 9}, `{"k":5}`, map[string]int{"k": 5}, "null", map[string]int(nil), `[1]`, true},
	{reflect.TypeOf((*int)(nil)), ptr(7), ptr(9), "5", ptr(5), "null", (*int)(nil), `"x"`, true},
	{reflect.TypeOf(sub{}), sub{7, "r"}, sub{9, "s"}, `{"a":5,"b":"v"}`, sub{5, "v"}, `{}`, sub{}, `3`, true},
}

// tags of a field; the position in the list names the combination
type apiTag struct {
	s                        string
	in, out, auth, req, fail bool
}

var apiTags = []apiTag{
	{s: ""}, {s: "in", in: true}, {s: "out", out: true}, {s: "both", in: true, out: true}, {s: "in,out", in: true, out: true},
	{s: "in,required", in: true, req: true}, {s: "both,required", in: true, out: true, req: true}, {s: "required,in", in: true, req: true},
	{s: "auth", auth: true}, {s: "auth,required", auth: true, req: true}, {s: "out,auth", auth: true, out: true}, {s: "in,bogus", fail: true}, {s: "inout", fail: true},
}

var nameTags = []struct{ s, name string }{
	{"", ""}, {`json:"j"`, "j"}, {`json:"j,omitempty"`, "j"}, {`enc:"e" json:"j"`, "e"}, {`json:",omitempty"`, ""}, {`enc:",omitempty"`, ""},
}

// request states of a field
const (
	absent = iota
	null
	valid
	zero
	wrong
	nStates
)

type fieldSpec struct{ tag, name, typ, reg, req int }

type built struct {
	st reflect.Type
}

var cache sync.Map

func structOf(fs []fieldSpec) reflect.Type {
	k := ""
	for _, f := range fs {
		k += fmt.Sprintf("%d.%d.%d ", f.tag, f.name, f.typ)
	}
	if t, ok := cache.Load(k); ok {
		return t.(reflect.Type)
	}
	var l []reflect.StructField
	for i, f := range fs {
		tag := nameTags[f.name].s
		if a := apiTags[f.tag].s; a != "" {
			tag += fmt.Sprintf(` api:"%s"`, a)
		}
		l = append(l, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: types[f.typ].t, Tag: reflect.StructTag(strings.TrimSpace(tag))})
	}
	t := reflect.StructOf(l)
	cache.Store(k, t)
	return t
}

func clone(v any) any { // a value of its own
	switch v := v.(type) {
	case []int:
		if v == nil {
			return v
		}
		return append([]int{}, v...)
	case map[string]int:
		if v == nil {
			return v
		}
		m := map[string]int{}
		for k, x := range v {
			m[k] = x
		}
		return m
	case *int:
		if v == nil {
			return v
		}
		return ptr(*v)
	}
	return v
}

func describe(fs []fieldSpec, uid int) string {
	s := ""
	for i, f := range fs {
		s += fmt.Sprintf("F%d %v `%s api:%q` registered %v request %s; ", i, types[f.typ].t, nameTags[f.name].s, apiTags[f.tag].s,
			f.reg == 1, []string{"absent", "null", "valid", "zero", "wrong"}[f.req])
	}
	return s + fmt.Sprintf("uid %s", []string{"absent", "null", "valid", "wrong"}[uid])
}

func eq(a, b any) bool { return reflect.DeepEqual(a, b) }

func fieldName(i int, f fieldSpec) string {
	if n := nameTags[f.name].name; n != "" {
		return n
	}
	return fmt.Sprintf("F%d", i)
}

// handler runs one request through a fresh handler of the type and judges every step.
func handler(w *vk.Worker, fs []fieldSpec, uid int) {
	w.Ev++
	c := ctx.TODO()
	seen := map[string]bool{}
	for i, f := range fs {
		n := fieldName(i, f)
		if seen[n] {
			return // two fields of one name
		}
		seen[n] = true
	}
	what := func() string { return describe(fs, uid) }
	fail := func(key, f string, a ...any) {
		w.Violate(key, what()+": "+fmt.Sprintf(f, a...), map[string]any{"fields": fs, "uid": uid})
	}
	st := structOf(fs)
	reg := reflect.New(st)
	auths := 0
	bad := false
	for i, f := range fs {
		if f.reg == 1 {
			reg.Elem().Field(i).Set(reflect.ValueOf(clone(types[f.typ].reg)))
		}
		if apiTags[f.tag].auth {
			auths++
		}
		bad = bad || apiTags[f.tag].fail
	}
	bad = bad || auths > 1
	var h api.Handler[any]
	err := vk.Catch(func() (err error) { h, err = api.NewHandler[any](c, reg.Interface()); return })
	if p, ok := vk.IsPanic(err); ok {
		fail("panic-new:"+p.Site(), "NewHandler panics: %v", p.Val)
		return
	}
	if (err != nil) != bad {
		fail("new-error", "NewHandler: %v", err)
		return
	}
	if err != nil {
		w.Out("refused type")
		return
	}
	ser := h.Server()

	// the request
	req := &api.JSON{}
	var body []string
	for i, f := range fs {
		t := types[f.typ]
		v := ""
		switch f.req {
		case null:
			v = "null"
		case valid:
			v = t.valid
		case zero:
			v = t.zero
		case wrong:
			v = t.wrong
		default:
			continue
		}
		body = append(body, fmt.Sprintf("%q:%s", fieldName(i, f), v))
	}
	body = append(body, `"extra":1`)
	text := "{" + strings.Join(body, ",") + "}"
	if err := req.ReadFrom(c, bytes.NewBufferString(text)); err != nil {
		fail("read", "ReadFrom(%s): %v", text, err)
		return
	}
	var authTyp typ
	for _, f := range fs {
		if apiTags[f.tag].auth {
			authTyp = types[f.typ]
		}
	}
	switch uid {
	case 1:
		req.UID = enc.Nil{}
	case 2, 3:
		s := `"nobody"`
		if auths == 1 {
			s = authTyp.valid
			if uid == 3 {
				s = authTyp.wrong
			}
		}
		n, err := enc.JSON{}.Decode(c, []byte(s))
		if err != nil {
			panic(err)
		}
		req.UID = n
	}
	// what is expected
	expectErr := false
	want := make([]any, len(fs))
	for i, f := range fs {
		t, a := types[f.typ], apiTags[f.tag]
		want[i] = t.zeroVal
		if !a.in && !a.out && f.reg == 1 {
			want[i] = t.reg
		}
		if a.in {
			switch f.req {
			case valid:
				want[i] = t.want
			case wrong:
				expectErr = expectErr || t.wrongFails
			}
			if a.req && f.req != valid {
				expectErr = true
			}
		}
		if a.auth {
			switch uid {
			case 0, 1:
				expectErr = expectErr || a.req
			case 2:
				want[i] = t.want
			case 3:
				expectErr = expectErr || t.wrongFails
			}
		}
	}
	for round := 0; round < 2; round++ {
		var obj any
		err = vk.Catch(func() (err error) { obj, err = ser.Recv(c, req); return })
		if p, ok := vk.IsPanic(err); ok {
			fail("panic-recv:"+p.Site(), "Recv panics: %v", p.Val)
			return
		}
		if (err != nil) != expectErr {
			fail("recv-error", "request %s: error %v, expected: %v", text, err, expectErr)
			return
		}
		if err != nil {
			w.Out("refused request")
			if obj != nil && !reflect.ValueOf(obj).IsZero() {
				fail("object-with-error", "Recv gives both %+v and %v", obj, err)
			}
			return
		}
		w.Nt++
		v := reflect.ValueOf(obj).Elem()
		if v.Addr().Pointer() == reg.Pointer() {
			fail("same-object", "the request runs on the registered object")
			return
		}
		for i := range fs {
			if got := v.Field(i).Interface(); !eq(got, want[i]) {
				fail(fmt.Sprintf("recv-value round %d", round), "request %s round %d: F%d is %v, want %v", text, round, i, got, want[i])
			}
		}
		// the action
		for i, f := range fs {
			fv := v.Field(i)
			// in place first: nothing of it may be seen elsewhere unless it is registered state
			if a := apiTags[f.tag]; a.in || a.out || a.auth && uid == 2 {
				switch {
				case fv.Kind() == reflect.Slice && fv.Len() > 0:
					fv.Index(0).SetInt(99)
				case fv.Kind() == reflect.Map && !fv.IsNil():
					fv.SetMapIndex(reflect.ValueOf("k"), reflect.ValueOf(99))
				case fv.Kind() == reflect.Pointer && !fv.IsNil():
					fv.Elem().SetInt(99)
				}
			}
			fv.Set(reflect.ValueOf(clone(types[f.typ].set)))
		}
		res := &api.JSON{}
		if round == 1 {
			res.Data = enc.Map{}
		}
		err = vk.Catch(func() error { return ser.Send(c, obj, res) })
		if err != nil {
			fail("send-error", "Send: %v", err)
			return
		}
		outs := 0
		for i, f := range fs {
			n := fieldName(i, f)
			d, there := res.Data[n]
			if there != apiTags[f.tag].out {
				fail("send-fields", "response %v: %q there: %v", res.Data, n, there)
				return
			}
			if there {
				outs++
				back := reflect.New(types[f.typ].t)
				if err := enc.Unmarshal(c, d, back.Interface()); err != nil || !eq(back.Elem().Interface(), types[f.typ].set) {
					fail("send-value", "response %v: %q gives %v (%v)", res.Data, n, back.Elem().Interface(), err)
				}
			}
		}
		if len(res.Data) != outs {
			fail("send-fields", "response %v, declared outputs %d", res.Data, outs)
		}
		// the registered object is what it was
		for i, f := range fs {
			var exp any = types[f.typ].zeroVal
			if f.reg == 1 {
				exp = types[f.typ].reg
			}
			if got := reg.Elem().Field(i).Interface(); !eq(got, exp) {
				fail("registered-changed", "request %s: registered F%d has become %v", text, i, got)
			}
		}
		// the client's side of the same
		cli := h.Client()
		if round == 0 {
			from := reflect.New(st)
			for i, f := range fs {
				from.Elem().Field(i).Set(reflect.ValueOf(clone(types[f.typ].set)))
			}
			data := &api.JSON{}
			if err := vk.Catch(func() error { return cli.Send(c, from.Interface(), data) }); err != nil {
				fail("client-send", "client Send: %v", err)
				return
			}
			for i, f := range fs {
				n := fieldName(i, f)
				if _, there := data.Data[n]; there != apiTags[f.tag].in {
					fail("client-fields", "request %v: %q there: %v", data.Data, n, there)
				}
			}
			into := reflect.New(st)
			if err := vk.Catch(func() error { return cli.Recv(c, res, into.Interface()) }); err != nil {
				fail("client-recv", "client Recv: %v", err)
				return
			}
			for i, f := range fs {
				exp := types[f.typ].zeroVal
				if apiTags[f.tag].out {
					exp = types[f.typ].set
				}
				if got := into.Elem().Field(i).Interface(); !eq(got, exp) {
					fail("client-value", "client Recv: F%d is %v, want %v", i, got, exp)
				}
			}
		}
		w.Out("served")
	}
}

func allFields(nTags, nNames, nTypes int) (l []fieldSpec) {
	for t := 0; t < nTags; t++ {
		for n := 0; n < nNames; n++ {
			for y := 0; y < nTypes; y++ {
				for g := 0; g < 2; g++ {
					for r := 0; r < nStates; r++ {
						l = append(l, fieldSpec{t, n, y, g, r})
					}
				}
			}
		}
	}
	return
}

// ---------------------------------------------------------------- written handler types

type secret struct {
	mu    sync.Mutex
	n     int
	count *int
	table map[string]int
	list  []int
	any   any

	R    api.Request    `url:"/a"`
	S    api.Request    `url:"http://host/b"`
	UID  string         `api:"auth,required"`
	In   int            `api:"in" json:"in"`
	Req  []int          `api:"both,required" json:"req"`
	Out  map[string]int `api:"out" json:"out"`
	Free string
}

func (this *secret) Do(c ctx.C) error {
	this.mu.Lock()
	defer this.mu.Unlock()
	*this.count++
	this.n++
	this.Req[0] += this.n
	this.list = append(this.list, this.In)
	this.Out = map[string]int{"in": this.In, "n": this.n, "table": this.table["x"], "list": len(this.list)}
	this.In = -1
	this.Free += "!"
	return nil
}

func newSecret() *secret {
	n := 0
	return &secret{n: 5, count: &n, table: map[string]int{"x": 3}, list: make([]int, 1, 8), any: 3, Free: "free"}
}

type hidden struct {
	in int `api:"in"`
	O  int `api:"out"`
}

type hiddenOut struct {
	out int `api:"out"`
	O   int `api:"in"`
}

func (this *hidden) Do(c ctx.C) error    { this.O = this.in; return nil }
func (this *hiddenOut) Do(c ctx.C) error { this.out = this.O; return nil }

type optional struct {
	R   api.Request `url:"/o"`
	UID *string     `api:"auth"`
	In  string      `api:"in,required" json:"in"`
	Out string      `api:"out" json:"out"`
	Ran *int
}

func (this *optional) Do(c ctx.C) error {
	*this.Ran++
	this.Out = this.In
	if this.UID != nil {
		this.Out += "/" + *this.UID
	}
	return nil
}

func request(c ctx.C, h api.Server[*secret], in string, uid string) (string, error) {
	req := &api.JSON{}
	if err := req.ReadFrom(c, bytes.NewBufferString(in)); err != nil {
		return "", err
	}
	if uid != "" {
		req.UID = enc.String(uid)
	}
	o, err := h.Recv(c, req)
	if err != nil {
		return "", err
	}
	if err := o.Do(c); err != nil {
		return "", err
	}
	res := &api.JSON{}
	if err := h.Send(c, o, res); err != nil {
		return "", err
	}
	return string(enc.JSON{}.Encode(c, res.Data)), nil
}

func written(k *vk.Check) {
	c := ctx.TODO()
	// the written type with private state: every history of requests
	reqs := []struct{ in, uid, want string }{
		{`{"in":1,"req":[10]}`, "u", `{"out":{"in":1,"list":2,"n":6,"table":3},"req":[16]}`},
		{`{"in":2,"req":[20,1],"out":{"n":1},"Free":"x","n":8,"UID":"x"}`, "v", `{"out":{"in":2,"list":2,"n":6,"table":3},"req":[26,1]}`},
		{`{"in":1}`, "u", "error"},
		{`{"req":[10]}`, "", "error"},
		{`{"in":1,"req":[10],"UID":"u"}`, "", "error"},
		{`{"req":[1]}`, "u", `{"out":{"in":0,"list":2,"n":6,"table":3},"req":[7]}`},
		{`{"req":[1],"in":"x"}`, "u", "error"},
	}
	depth := k.Pick(3, 4)
	n := int64(1)
	for i := 0; i < depth; i++ {
		n *= int64(len(reqs))
	}
	k.Par(n, func(w *vk.Worker, i int64) {
		s := newSecret()
		h, err := api.NewServer(c, s)
		if err != nil {
			w.Violate("private-new", err.Error(), nil)
			return
		}
		ran := 0
		hist := ""
		for d := 0; d < depth; d++ {
			r := reqs[i%int64(len(reqs))]
			i /= int64(len(reqs))
			hist += r.in + " by " + r.uid + "; "
			w.Ev++
			var got string
			err := vk.Catch(func() (err error) { got, err = request(c, h, r.in, r.uid); return })
			if p, ok := vk.IsPanic(err); ok {
				w.Violate("private-panic:"+p.Site(), fmt.Sprintf("%s panics: %v", hist, p.Val), hist)
				return
			}
			if err != nil {
				got = "error"
			} else {
				ran++
			}
			w.Out(got)
			if got != r.want {
				w.Violate("private-result", fmt.Sprintf("%s: %s, want %s (%v)", hist, got, r.want, err), hist)
				return
			}
			if *s.count != ran {
				w.Violate("private-runs", fmt.Sprintf("%s: the action ran %d times, want %d", hist, *s.count, ran), hist)
				return
			}
			if s.n != 5 || s.Free != "free" || s.In != 0 || s.Req != nil || s.Out != nil || s.UID != "" || len(s.list) != 1 {
				w.Violate("private-registered", fmt.Sprintf("%s: the registered object has changed: %+v", hist, s.n), hist)
				return
			}
		}
	})
	// private inputs and outputs can't work: refused when registered, not when used
	for name, f := range map[string]func() error{
		"private input":  func() error { _, err := api.NewHandler(c, &hidden{}); return err },
		"private output": func() error { _, err := api.NewHandler(c, &hiddenOut{}); return err },
		"not a struct":   func() error { n := 3; _, err := api.NewHandler(c, &n); return err },
		"not a pointer":  func() error { _, err := api.NewHandler(c, secret{}); return err },
		"bad url": func() error {
			_, err := api.NewHandler(c, &struct {
				R api.Request `url:"http://[::1"`
			}{})
			return err
		},
	} {
		k.Evals(1)
		err := vk.Catch(f)
		if p, ok := vk.IsPanic(err); ok {
			k.Violate("refuse-panic:"+name, fmt.Sprintf("%s: NewHandler panics: %v", name, p.Val), name)
		} else if err == nil {
			k.Violate("refuse:"+name, name+" is accepted by NewHandler", name)
		}
	}
	if h, err := api.NewHandler(c, (*optional)(nil)); err != nil || h.Type() != reflect.TypeOf(optional{}) {
		k.Violate("nil-pointer", fmt.Sprintf("a nil pointer: %v", err), nil)
	}
	if h, err := api.NewHandler(c, newSecret()); err != nil {
		k.Violate("private-new", err.Error(), nil)
	} else {
		if fmt.Sprintln(h.Paths(), h.Path(), h.URL()) != "[/a /b] /a /a\n" || len(h.URLs()) != 2 {
			k.Violate("urls", fmt.Sprint(h.Paths(), h.Path(), h.URL()), nil)
		}
	}
	// through the HTTP server: the action runs exactly when everything required is there
	{
		ran := 0
		s := http.NewServer(c)
		_, err := s.RegisterAPI(c, &optional{Ran: &ran})
		if err != nil {
			k.Violate("http-register", err.Error(), nil)
		}
		sec := newSecret()
		if _, err := s.RegisterAPI(c, sec); err != nil {
			k.Violate("http-register", err.Error(), nil)
		}
		for _, t := range []struct {
			path, body string
			code, runs int
			want       string
		}{
			{"/o", `{"in":"x"}`, 200, 1, `{"out":"x"}`}, {"/o", `{"in":""}`, 400, 0, ""}, {"/o", `{}`, 400, 0, ""}, {"/o", ``, 400, 0, ""},
			{"/o", `{"in":null}`, 400, 0, ""}, {"/o", `{"in":"y","UID":"evil","Ran":null,"out":"z"}`, 200, 1, `{"out":"y"}`}, {"/o", `{"in":[3]}`, 400, 0, ""},
			{"/a", `{"req":[1]}`, 400, 0, ""}, {"/a", `{"req":[1],"UID":"me"}`, 400, 0, ""}, {"/b", `{"req":[1],"uid":"me"}`, 400, 0, ""},
		} {
			k.Evals(1)
			ran, *sec.count = 0, 0
			code, body := post(c, s, t.path, t.body)
			runs := ran + *sec.count
			if code != t.code || runs != t.runs || t.want != "" && body != t.want {
				k.Violate("http:"+t.path+t.body, fmt.Sprintf("%s %s: %d %s after %d runs, want %d %s after %d", t.path, t.body, code, body, runs, t.code, t.want, t.runs), t)
			}
		}
	}
}

func sequential(k *vk.Check) {
	mute()
	written(k)
	vtest.Prepare()
	mute()
	rounds(k)
	full := allFields(len(apiTags), len(nameTags), len(types))
	first, small := allFields(len(apiTags), 2, 3), allFields(len(apiTags), 1, 1)
	if k.Thorough() {
		first, small = full, allFields(len(apiTags), 2, 2)
	}
	k.Set("field_variants", len(full))
	k.Par(int64(len(full))*4, func(w *vk.Worker, i int64) {
		handler(w, []fieldSpec{full[i/4]}, int(i%4))
	})
	k.Par(int64(len(small))*int64(len(first)), func(w *vk.Worker, i int64) {
		f, s := first[i%int64(len(first))], small[i/int64(len(first))]
		for uid := 0; uid < 4; uid++ {
			if uid%2 == 1 && !apiTags[f.tag].auth && !apiTags[s.tag].auth {
				continue
			}
			handler(w, []fieldSpec{f, s}, uid)
		}
	})
	// many fields: two variants in turn, and in the middle one for the user
	var many []fieldSpec
	for _, f := range allFields(len(apiTags), 1, len(types)) {
		if !apiTags[f.tag].fail && !apiTags[f.tag].auth && f.reg == (f.typ+f.tag)%2 {
			many = append(many, f)
		}
	}
	users := []int{-1}
	for i, a := range apiTags {
		if a.auth {
			users = append(users, i)
		}
	}
	sizes := []int{8, 17, 33, 40, 65, 70, 130}
	nm := int64(len(many))
	k.Par(nm*nm, func(w *vk.Worker, i int64) {
		a, b := many[i%nm], many[i/nm]
		if a.req == wrong && b.req == wrong || !k.Thorough() && a.tag != b.tag && a.typ != b.typ && a.req != b.req {
			return
		}
		size, user := sizes[i%7], users[int(i/7)%len(users)]
		if k.Thorough() && i%3 == 0 {
			size *= 2
		}
		var fs []fieldSpec
		for j := 0; j < size; j++ {
			f := a
			if j%2 == 1 {
				f = b
			}
			if user >= 0 && j == size/2 {
				f = fieldSpec{tag: user, typ: b.typ, req: absent}
			}
			f.name = []int{0, 4, 5}[j%3]
			fs = append(fs, f)
		}
		handler(w, fs, int(i)%4)
	})
	k.Set("large_handlers", nm*nm)
}

// concurrent requests on one handler
func concurrent(name string, threads, per int, quick, bound int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, QuickBound: quick, MaxBound: bound, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		mute()
		c := ctx.TODO()
		s := newSecret()
		total := make([]int, threads)
		s.count = nil
		h, err := api.NewServer(c, s)
		if err != nil {
			x.Failf("new", "%v", err)
			return nil
		}
		var wg sync.WaitGroup
		for t := 0; t < threads; t++ {
			t := t
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < per; i++ {
					req := &api.JSON{}
					in := fmt.Sprintf(`{"in":%d,"req":[%d]}`, t, 10*t+1)
					_ = req.ReadFrom(c, bytes.NewBufferString(in))
					req.UID = enc.String(fmt.Sprint("u", t))
					o, err := h.Recv(c, req)
					if err != nil {
						x.Failf("recv", "%v", err)
						return
					}
					mcrt.Point(mcrt.OpUser, nil)
					if o.UID != fmt.Sprint("u", t) || o.In != t || len(o.Req) != 1 || o.Req[0] != 10*t+1 || o.n != 5 || o.Free != "free" {
						x.Failf("mixed", "request %d sees %s %d %v", t, o.UID, o.In, o.Req)
					}
					o.count = &total[t]
					o.list = nil
					if err := o.Do(c); err != nil {
						x.Failf("do", "%v", err)
					}
					mcrt.Point(mcrt.OpUser, nil)
					res := &api.JSON{}
					if err := h.Send(c, o, res); err != nil {
						x.Failf("send", "%v", err)
					}
					if got, want := string(enc.JSON{}.Encode(c, res.Data)), fmt.Sprintf(`{"out":{"in":%d,"list":1,"n":6,"table":3},"req":[%d]}`, t, 10*t+7); got != want {
						x.Failf("mixed-out", "response %s, want %s", got, want)
					}
				}
			}()
		}
		wg.Wait()
		return nil
	}}
}

func main() {
	mc.Main("C23", mc.Options{QuickBound: 2, ThoroughBound: 3,
		Rule:   "every handler type with one or two fields over 13 api tags, 6 name tags, 6 field types, registered or not, under every presence of each input (absent, null, valid, zero, wrong type) and of the authentication, each request twice on one handler; handlers of up to 130 fields; every history of requests on a type with private state; round trips over 15 types with every combination of values and users; concurrent requests under every schedule up to the preemption bound",
		Assume: []string{"values of declared inputs and outputs convert as C01 and C02 say", "state fields are copied by reference, as documented"},
		Before: sequential,
	}, func() []*mcrt.Scenario {
		return []*mcrt.Scenario{
			concurrent("two requests", 2, 1, 2, 3),
			concurrent("two requests, twice", 2, 2, 1, 2),
			concurrent("three requests", 3, 1, 1, 2),
		}
	})
}
