// C05: concurrent callers of the codec, every pair (and some triples) of operations under every schedule.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"log/slog"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/enc"

	"verif.local/mc/lib/mc"
	"verif.local/mc/mcrt"
)

// point is where user code called by the codec lets the scheduler in.
func point() { mcrt.Point(mcrt.OpUser, nil) }

type custom struct{ v string }

func (x custom) MarshalNode(c ctx.C) (enc.Node, error) {
	point()
	return enc.String("<" + x.v + ">"), nil
}
func (x *custom) UnmarshalNode(c ctx.C, n enc.Node) error {
	point()
	s, ok := n.(enc.String)
	if !ok || len(s) < 2 {
		return fmt.Errorf("bad custom")
	}
	x.v = string(s[1 : len(s)-1])
	return nil
}

type jcustom struct{ v string }

func (x jcustom) MarshalJSON() ([]byte, error)  { point(); return json.Marshal("{" + x.v + "}") }
func (x *jcustom) UnmarshalJSON(b []byte) error { point(); return json.Unmarshal(b, &x.v) }

type jcustom2 struct{ v string }

func (x *jcustom2) UnmarshalJSON(b []byte) error { point(); return json.Unmarshal(b, &x.v) }

type inner struct {
	A int            `json:"a"`
	M map[string]int `json:"m,omitempty"`
}

type all struct {
	S   string            `json:"s"`
	I   int8              `json:"i"`
	U   uint64            `json:"u"`
	F   float64           `json:"f"`
	B   *bool             `json:"b"`
	L   []inner           `json:"l"`
	R   [2]string         `json:"r"`
	M   map[int]string    `json:"m"`
	T   time.Time         `json:"t"`
	D   enc.Duration      `json:"d"`
	C   custom            `json:"c"`
	P   *custom           `json:"p"`
	N   enc.Node          `json:"n"`
	X   any               `json:"x"`
	Sk  string            `json:"-"`
	Mm  map[string]custom `json:"mm"`
	Emb inner             `json:"emb"`
}

func value() all {
	b := true
	return all{"héllo\n", -7, 1 << 63, 1.5, &b, []inner{{1, nil}, {2, map[string]int{"z": 1, "y": 2}}}, [2]string{"p", "q"}, map[int]string{3: "c", -4: "d"},
		time.Date(2020, 1, 2, 3, 4, 5, 6, time.UTC), enc.Duration(90 * time.Second), custom{"k"}, &custom{"pp"}, enc.Map{"deep": enc.List{enc.Integer(1)}}, []any{"x", 1.0}, "", map[string]custom{"e": {"1"}, "f": {"2"}}, inner{A: 5}}
}

const doc = `{"s":"h\u00e9llo","i":-7,"u":9223372036854775808,"f":1.5,"b":true,"l":[{"a":1},{"a":2,"m":{"z":1}}],"r":["p","q"],"m":{"3":"c"},"t":"2020-01-02T03:04:05Z","d":"1m30s","c":"<k>","p":"<pp>","n":{"deep":[1]},"x":["x",{"y":null}],"mm":{"e":"<1>"},"emb":{"a":5},"extra":{"a":[1]},"more":2}`

// show renders a result so that equal results give equal strings.
func show(x any) string {
	switch x := x.(type) {
	case []byte:
		return "bytes:" + string(x)
	case error:
		return "error:" + firstLine(x.Error())
	case enc.Node:
		return "node:" + showNode(x)
	case json.RawMessage:
		return "raw:" + string(x)
	}
	j, err := json.Marshal(x)
	if err != nil {
		return fmt.Sprintf("%+v", x)
	}
	return fmt.Sprintf("%T:%s", x, j)
}

func showNode(n enc.Node) string {
	switch n := n.(type) {
	case enc.Pairs:
		s := "<"
		for _, p := range n {
			s += p.Name + "=" + showNode(p.Value) + " "
		}
		return s + ">"
	case enc.Map:
		keys := make([]string, 0, len(n))
		for k := range n {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		s := "{"
		for _, k := range keys {
			s += k + ":" + showNode(n[k]) + " "
		}
		return s + "}"
	case enc.List:
		s := "["
		for _, e := range n {
			s += showNode(e) + " "
		}
		return s + "]"
	}
	return fmt.Sprintf("%T(%v)", n, n)
}

func firstLine(s string) string { s, _, _ = strings.Cut(s, "\n"); return s }

type box struct {
	Raw json.RawMessage `json:"raw"`
	J   jcustom         `json:"j"`
}

type iface interface{ Foo() string }
type impl struct{ V string }

func (x impl) Foo() string { return x.V }

type op struct {
	name string
	// setup builds the input; run may be called from two goroutines on the same input
	setup func() any
	run   func(c ctx.C, in any) any
}

func nodeOf(s string) enc.Node {
	n, err := enc.JSON{}.Decode(ctx.TODO(), []byte(s))
	if err != nil {
		panic(err)
	}
	return n
}

type res struct {
	A any
	E string
}

func pack(v any, err error) any {
	r := res{A: v}
	if err != nil {
		r.E = firstLine(err.Error())
		r.A = nil
	}
	return r
}

func showRes(x any) string {
	r := x.(res)
	return show(r.A) + " err=" + r.E
}

var ops = []op{
	{"marshal struct", func() any { return value() }, func(c ctx.C, in any) any { return pack(enc.Marshal(c, in)) }},
	{"marshal json", func() any { v := value(); return &v }, func(c ctx.C, in any) any { return pack(enc.MarshalJSON(c, in)) }},
	{"marshal map", func() any { return map[string]any{"a": 1, "b": []custom{{"x"}, {"y"}}, "c": jcustom{"j"}} }, func(c ctx.C, in any) any { return pack(enc.Marshal(c, in)) }},
	{"unmarshal json", func() any { return []byte(doc) }, func(c ctx.C, in any) any {
		var v all
		err := enc.UnmarshalJSON(c, in.([]byte), &v)
		return pack(v, err)
	}},
	{"unmarshal node", func() any { return nodeOf(doc) }, func(c ctx.C, in any) any {
		var v all
		err := enc.Unmarshal(c, in.(enc.Node), &v)
		return pack(v, err)
	}},
	{"unmarshal any", func() any { return nodeOf(doc) }, func(c ctx.C, in any) any {
		var v any
		err := enc.Unmarshal(c, in.(enc.Node), &v)
		return pack(v, err)
	}},
	{"unmarshal map", func() any { return nodeOf(`{"a":"<1>","b":"<2>"}`) }, func(c ctx.C, in any) any {
		var v map[string]*custom
		err := enc.Unmarshal(c, in.(enc.Node), &v)
		s := ""
		for _, k := range []string{"a", "b"} {
			if v[k] != nil {
				s += v[k].v
			}
		}
		return pack(s, err)
	}},
	{"unmarshal raw", func() any { return nodeOf(`{"raw":{"k":[1,2]},"j":"v"}`) }, func(c ctx.C, in any) any {
		var v box
		err := enc.Unmarshal(c, in.(enc.Node), &v)
		return pack(string(v.Raw)+v.J.v, err)
	}},
	{"unmarshal UnmarshalJSON", func() any { return nodeOf(`["a","b"]`) }, func(c ctx.C, in any) any {
		var v []jcustom2
		err := enc.Unmarshal(c, in.(enc.Node), &v)
		s := ""
		for _, e := range v {
			s += e.v
		}
		return pack(s, err)
	}},
	{"unmarshal mismatch", func() any { return nodeOf(`{"l":[{"a":1},{"a":"no"}]}`) }, func(c ctx.C, in any) any {
		var v all
		err := enc.Unmarshal(c, in.(enc.Node), &v)
		return pack(nil, err)
	}},
	{"unhandled fields", func() any { return nodeOf(doc) }, func(c ctx.C, in any) any {
		seen := []string{}
		h := enc.Handler{UnhandledFields: func(c ctx.C, path []any, n enc.Node) error {
			point()
			seen = append(seen, fmt.Sprint(path)+showNode(n))
			return nil
		}}
		var v all
		err := h.Unmarshal(c, in.(enc.Node), &v)
		sort.Strings(seen)
		return pack(seen, err)
	}},
	{"factory", func() any { return nodeOf(`[{"V":"1"},{"V":"2"}]`) }, func(c ctx.C, in any) any {
		h := enc.Handler{Factory: map[reflect.Type]func(ctx.C, enc.Node) (any, error){
			reflect.TypeOf((*iface)(nil)).Elem(): func(c ctx.C, n enc.Node) (any, error) {
				point()
				var v impl
				err := enc.Unmarshal(c, n, &v)
				return v, err
			},
		}}
		var v []iface
		err := h.Unmarshal(c, in.(enc.Node), &v)
		s := ""
		for _, e := range v {
			s += e.Foo()
		}
		return pack(s, err)
	}},
	{"encode map", func() any {
		return enc.Map{"a": enc.List{enc.Integer(1), enc.Nil{}}, "b": enc.Float(1.25), "c": enc.String("x<")}
	}, func(c ctx.C, in any) any {
		return pack(enc.JSON{}.Encode(c, in.(enc.Node)), nil)
	}},
	{"encode pairs", func() any {
		return enc.Pairs{{"b", "", enc.Integer(1)}, {"a", "", enc.Pairs{{"z", "", enc.Bool(true)}}}}
	}, func(c ctx.C, in any) any {
		return pack(enc.JSON{Indent: true}.Encode(c, in.(enc.Node)), nil)
	}},
	{"decode", func() any { return []byte(doc) }, func(c ctx.C, in any) any { return pack(enc.JSON{}.Decode(c, in.([]byte))) }},
	{"decode error", func() any { return []byte(`{"a":[1,`) }, func(c ctx.C, in any) any { return pack(enc.JSON{}.Decode(c, in.([]byte))) }},
	{"print node", func() any { return nodeOf(`{"a":[1,true,"s",null]}`) }, func(c ctx.C, in any) any {
		n := in.(enc.Node)
		return pack(n.String()+n.GoString(), nil)
	}},
	{"pairs lookup", func() any { return enc.Pairs{{"b", "B", enc.Integer(1)}, {"a", "A", enc.Integer(2)}} }, func(c ctx.C, in any) any {
		p := in.(enc.Pairs)
		m := p.AsMap()
		p = append(enc.Pairs{}, p...)
		return pack(showNode(m)+showNode(p), nil)
	}},
	{"times", func() any { return []enc.Node{enc.Time(time.Unix(1, 2).UTC()), enc.Duration(time.Minute)} }, func(c ctx.C, in any) any {
		l := in.([]enc.Node)
		a, e1 := enc.MarshalJSON(c, l[0])
		b, e2 := enc.MarshalJSON(c, l[1])
		var t time.Time
		var d time.Duration
		var dd enc.Duration
		e3 := enc.UnmarshalJSON(c, a, &t)
		e4 := enc.UnmarshalJSON(c, b, &dd)
		_ = d
		return pack(fmt.Sprint(string(a), string(b), e1, e2, e3, e4, t, dd), nil)
	}},
}

var want = map[string]string{}

func quietCtx() ctx.C { return log.WithLogFunc(ctx.TODO(), logged) }

func logged(c ctx.C, level slog.Level, src, f string, args ...any) {
	if p, _ := c.Value(logKey{}).(*[]string); p != nil {
		*p = append(*p, fmt.Sprintf(f, args...))
	}
}

type logKey struct{}

func scenarios() []*mcrt.Scenario {
	base := quietCtx()
	for _, o := range ops {
		in := o.setup()
		want[o.name] = showRes(o.run(base, in))
		for i := 0; i < 3; i++ {
			if s := showRes(o.run(base, in)); s != want[o.name] {
				panic(o.name + " is not a function: " + s + " / " + want[o.name])
			}
		}
	}
	var out []*mcrt.Scenario
	scen := func(name string, list []op, shared, pause bool) {
		out = append(out, &mcrt.Scenario{Name: name, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
			var wg sync.WaitGroup
			ins := make([]any, len(list))
			for i, o := range list {
				if shared && i > 0 && list[0].name == o.name {
					ins[i] = ins[0]
				} else {
					ins[i] = o.setup()
				}
			}
			root := quietCtx()
			for i, o := range list {
				i, o := i, o
				wg.Add(1)
				go func() {
					defer wg.Done()
					var lines []string
					c := context.WithValue(root, logKey{}, &lines)
					r := o.run(c, ins[i])
					got := showRes(r)
					if got != want[o.name] {
						x.Failf("result:"+o.name, "%s alone gives %s, concurrently %s", o.name, want[o.name], got)
					}
					if pause {
						mcrt.Yield()
						if got := showRes(r); got != want[o.name] {
							x.Failf("aliased:"+o.name, "the result of %s changed after it was returned: %s", o.name, got)
						}
						if b, ok := r.(res).A.([]byte); ok {
							for i := range b {
								b[i] = '!'
							}
						}
					}
				}()
			}
			wg.Wait()
			return nil
		}})
	}
	for i, a := range ops {
		for j := i; j < len(ops); j++ {
			scen(a.name+" | "+ops[j].name, []op{a, ops[j]}, false, true)
		}
		scen("shared input: "+a.name+" twice", []op{a, a}, true, true)
	}
	// the operations that report inefficient types keep shared state: three at once
	scen("raw x3", []op{ops[7], ops[7], ops[7]}, true, true)
	scen("raw, UnmarshalJSON x2", []op{ops[7], ops[8], ops[8]}, true, true)
	// one handler used by two callers
	out = append(out, &mcrt.Scenario{Name: "one handler, two callers", Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		type seen struct{}
		h := enc.Handler{UnhandledFields: func(c ctx.C, path []any, n enc.Node) error {
			point()
			l := c.Value(seen{}).(*[]string)
			*l = append(*l, fmt.Sprint(path))
			return nil
		}}.Append("pre").Append("fix")
		var wg sync.WaitGroup
		for _, s := range []string{"L", "Emb"} {
			s := s
			wg.Add(1)
			go func() {
				defer wg.Done()
				l := []string{}
				c := ctx.C(context.WithValue(quietCtx(), seen{}, &l))
				var v map[string]inner
				err := h.Append(s).Unmarshal(c, nodeOf(`{"x`+s+`":{"bad`+s+`":1}}`), &v)
				if err != nil || len(l) != 1 || !strings.Contains(l[0], "bad"+s) || !strings.Contains(l[0], "pre fix "+s) {
					x.Failf("path", "unhandled field reported as %v (%v) on behalf of %s", l, err, s)
				}
			}()
		}
		wg.Wait()
		return nil
	}})
	return out
}

func main() {
	mc.Main("C05", mc.Options{
		QuickBound: 2, ThoroughBound: 4,
		Rule:   "all schedules up to the preemption bound of every pair of codec operations, with separate and with shared input; user callbacks and every synchronisation are scheduling points; happens-before race detection on each",
		Assume: []string{"encoding/json and reflect are correct and safe for concurrent use"},
	}, scenarios)
}
