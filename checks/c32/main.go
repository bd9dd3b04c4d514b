// C32: requests served at the same time: every pair of requests (and some triples) under every schedule up to the
// preemption bound, each answered as if it were alone.
package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log/slog"
	gohttp "net/http"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/utils/prom"

	"verif.local/mc/lib/mc"
	"verif.local/mc/mcrt"
)

func point() { mcrt.Point(mcrt.OpUser, nil) }

// ---------------------------------------------------------------- a connection of its own for each request

type body struct {
	data []byte
	step int
	err  error
	shut bool
}

func (b *body) Read(p []byte) (int, error) {
	point()
	if len(b.data) == 0 {
		if b.err != nil {
			return 0, b.err
		}
		return 0, io.EOF
	}
	n := b.step
	if n > len(b.data) {
		n = len(b.data)
	}
	n = copy(p, b.data[:n])
	b.data = b.data[n:]
	return n, nil
}

func (b *body) Close() error { b.shut = true; return nil }

type answer struct {
	h     gohttp.Header
	sent  gohttp.Header // as it was with the status
	codes []int
	out   bytes.Buffer
}

func (a *answer) Header() gohttp.Header { return a.h }

func (a *answer) WriteHeader(code int) {
	point()
	if len(a.codes) == 0 {
		a.sent = a.h.Clone()
	}
	a.codes = append(a.codes, code)
}

func (a *answer) Write(p []byte) (int, error) {
	if len(a.codes) == 0 {
		a.WriteHeader(200)
	}
	h := len(p) / 2
	a.out.Write(p[:h])
	point() // (what is written may not change meanwhile)
	a.out.Write(p[h:])
	return len(p), nil
}

// text is the body as the client reads it
func (a *answer) text() (string, error) {
	if a.sent.Get("Content-Encoding") != "gzip" {
		return a.out.String(), nil
	}
	r, err := gzip.NewReader(&a.out)
	if err != nil {
		return "", err
	}
	b, err := io.ReadAll(r)
	return string(b), err
}

// ---------------------------------------------------------------- the server

// Op is an API with state of its own.
type Op struct {
	R    api.Request `url:"/api"`
	In   string      `api:"in,required" json:"in"`
	Opt  int         `api:"in" json:"opt"`
	Out  string      `api:"out" json:"out"`
	Opts int         `api:"out" json:"opts"`
	seen int
}

func (o *Op) Do(c ctx.C) error {
	o.seen++
	in := o.In
	point()
	if o.In != in || o.seen != 1 {
		return errors.New("mixed")
	}
	if strings.HasPrefix(in, "bad") {
		return http.NewErrorf(c, 409, "not %s", in)
	}
	o.Out, o.Opts = "was "+in, o.Opt+1
	return nil
}

func tags(c ctx.C) string {
	m := map[string]string{}
	_ = ctx.RangeTag(c, func(k string, j ctx.JSON) error { m[k] = string(j); return nil })
	return m["ua"] + m["path"]
}

const size = 17000

// long is a document that takes more than the 16 kB which are compressed
func long(who string) string {
	var s strings.Builder
	s.WriteString(`"`)
	for i := 0; s.Len() < size; i++ {
		fmt.Fprintf(&s, "%s%d", who, i*i)
	}
	return s.String() + `"`
}

func server(c ctx.C, x *mcrt.X) gohttp.Handler {
	http.Metrics.Request = &prom.Histogram{Buckets: prom.DefaultBuckets, Labels: http.Metrics.Request.Labels}
	s := http.NewServer(c)
	s.HandleRequest("/echo", func(c ctx.C, in []byte, r *gohttp.Request) ([]byte, error) {
		keep := string(in)
		point()
		if string(in) != keep {
			x.Failf("input", "the input changes while it is handled: %q, was %q", in, keep)
		}
		if t := r.UserAgent(); !strings.Contains(tags(c), t) || t == "" {
			x.Failf("tags", "the request of %q has the tags of another one: %s", t, tags(c))
		}
		switch {
		case bytes.HasPrefix(in, []byte("long ")):
			return []byte(long(string(in[5:]))), nil
		case bytes.HasPrefix(in, []byte("bad ")):
			return nil, http.NewErrorf(c, 400, "you sent %s", in[4:])
		case bytes.HasPrefix(in, []byte("secret ")):
			return nil, fmt.Errorf("secret: %s", in[7:])
		case bytes.HasPrefix(in, []byte("panic ")):
			panic("as asked by " + string(in[6:]))
		case bytes.HasPrefix(in, []byte("none ")):
			return nil, nil
		}
		return []byte(fmt.Sprintf("%q", in)), nil
	})
	s.Handle("/raw", gohttp.HandlerFunc(func(w gohttp.ResponseWriter, r *gohttp.Request) {
		in, _ := io.ReadAll(r.Body)
		w.Header().Set("X-Who", string(in))
		w.WriteHeader(202)
		w.WriteHeader(500) // once is enough
		_, _ = io.WriteString(w, "raw "+string(in))
	}))
	http.CallHandler{Path: "/call", Handler: func(c ctx.C, call *http.Call) error {
		call.Write([]byte("called "))
		point()
		call.Write([]byte(strings.Trim(tags(c), `"`)))
		return nil
	}}.Register(s)
	s.MustRegisterAPI(c, &Op{})
	s.SetupPrometheus(c, "/metrics")
	// the handler a listening server has
	v := reflect.ValueOf(s).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf((*gohttp.Handler)(nil)).Elem() {
			return *(*gohttp.Handler)(unsafe.Pointer(v.Field(i).UnsafeAddr()))
		}
	}
	return s.Mux()
}

// ---------------------------------------------------------------- requests

type request struct {
	name         string
	method, path string
	body         func(who string) string
	accept       string
	cut          bool // the body cannot be read
	code         int
	want         func(who, got string) bool
	metric       bool // counted under its path
	header       func(who string, h gohttp.Header) bool
	panics       bool
}

func is(f string) func(who, got string) bool {
	return func(who, got string) bool { return got == says(f)(who) }
}

func says(f string) func(string) string {
	return func(who string) string { return strings.ReplaceAll(f, "WHO", who) }
}

// fields wants an object with exactly a tracking id and, if any, this error
func fields(text string) func(who, got string) bool {
	return func(who, got string) bool {
		var m map[string]any
		if json.Unmarshal([]byte(got), &m) != nil {
			return false
		}
		if text == "" {
			return len(m) == 1 && m["tracking"] != nil
		}
		e, _ := m["error"].(string)
		return len(m) == 2 && m["tracking"] != nil && strings.Contains(e, strings.ReplaceAll(text, "WHO", who))
	}
}

var kinds = []request{
	{name: "small", path: "/echo", body: says("hi WHO"), code: 200, want: is(`"hi WHO"`)},
	{name: "gzip", path: "/echo", body: says("long WHO"), accept: "gzip", code: 200, want: func(who, got string) bool { return got == long(who) },
		header: func(_ string, h gohttp.Header) bool { return h.Get("Content-Encoding") == "gzip" }},
	{name: "plain", path: "/echo", body: says("long WHO"), code: 200, want: func(who, got string) bool { return got == long(who) },
		header: func(_ string, h gohttp.Header) bool { return h.Get("Content-Encoding") == "" }},
	{name: "bad", path: "/echo", body: says("bad WHO"), code: 400, want: fields("you sent WHO")},
	{name: "secret", path: "/echo", body: says("secret WHO"), code: 500, want: fields("")},
	{name: "panic", path: "/echo", body: says("panic WHO"), panics: true},
	{name: "none", path: "/echo", body: says("none WHO"), code: 204, want: is("")},
	{name: "cut", path: "/echo", body: says("hi WHO"), cut: true, code: 400, want: fields("cut")},
	{name: "raw", path: "/raw", body: says("WHO"), code: 202, want: is("raw WHO"), header: func(who string, h gohttp.Header) bool { return h.Get("X-Who") == who }},
	{name: "call", path: "/call", body: says("WHO"), code: 200, want: func(who, got string) bool {
		return strings.HasPrefix(got, "called ") && strings.Contains(got, who)
	}},
	{name: "api", path: "/api", body: says(`{"in":"WHO","opt":4}`), code: 200, want: func(who, got string) bool {
		var m map[string]any
		return json.Unmarshal([]byte(got), &m) == nil && len(m) == 2 && m["out"] == "was "+who && m["opts"] == 5.0
	}},
	{name: "api without", path: "/api", body: says(`{"opt":4,"WHO":1}`), code: 400, want: fields("in")},
	{name: "api refused", path: "/api", body: says(`{"in":"bad WHO"}`), code: 409, want: fields("not bad WHO")},
	{name: "live", method: "GET", path: "/live", body: says(""), code: 204, want: is("")},
	{name: "nothing", method: "GET", path: "/nothing", body: says(""), code: 404, want: func(who, got string) bool { return true }},
	{name: "metrics", method: "GET", path: "/metrics", body: says(""), code: 200, want: func(who, got string) bool { return strings.Contains(got, "# TYPE go_routines gauge") }},
	{name: "openapi", method: "GET", path: "/openapi.json", body: says(""), code: 200, want: func(who, got string) bool {
		var m map[string]any
		return json.Unmarshal([]byte(got), &m) == nil && m["openapi"] != nil
	}},
}

func kind(name string) request {
	for _, k := range kinds {
		if k.name == name {
			return k
		}
	}
	panic(name)
}

func (q request) verb() string {
	if q.method != "" {
		return q.method
	}
	return "POST"
}

// serve does one request and judges its answer
func (q request) serve(c ctx.C, x *mcrt.X, h gohttp.Handler, who string) {
	b := &body{data: []byte(q.body(who)), step: 6}
	if q.cut {
		b.err = errors.New("cut")
	}
	r, err := gohttp.NewRequestWithContext(c, q.verb(), q.path, b)
	if err != nil {
		x.Failf("request", "%v", err)
		return
	}
	r.Header.Set("User-Agent", "agent-of-"+who)
	if q.accept != "" {
		r.Header.Set("Accept-Encoding", q.accept)
	}
	a := &answer{h: gohttp.Header{}}
	t0 := time.Now()
	p := func() (p any) {
		defer func() { p = recover() }()
		h.ServeHTTP(a, r)
		return nil
	}()
	if q.panics {
		if p == nil || !strings.Contains(fmt.Sprint(p), who) {
			x.Failf("panic", "%s: the panic of its handler is lost or another one's: %v", q.name, p)
		}
		return
	}
	if p != nil {
		x.Failf("panics", "%s: panic: %v", q.name, p)
		return
	}
	if len(a.codes) == 0 {
		a.WriteHeader(200)
	}
	if q.name == "call" && a.codes[0] == 400 && time.Since(t0) >= 30*time.Second {
		return // the time to read the request is over
	}
	text, err := a.text()
	if err != nil {
		x.Failf("body:"+q.name, "%s: the body cannot be decoded: %v", q.name, err)
		return
	}
	if len(a.codes) != 1 || a.codes[0] != q.code {
		x.Failf("status:"+q.name, "%s: status %v, not %d: %.200s", q.name, a.codes, q.code, text)
	} else if !q.want(who, text) {
		x.Failf("body:"+q.name, "%s of %s: %.300q", q.name, who, text)
	} else if q.header != nil && !q.header(who, a.sent) {
		x.Failf("header:"+q.name, "%s of %s: %v", q.name, who, a.sent)
	}
}

// counts are the requests counted
func counts() (string, error) {
	var w bytes.Buffer
	if err := http.Metrics.Request.Print("m", &w); err != nil {
		return "", err
	}
	var l []string
	for _, s := range strings.Split(w.String(), "\n") {
		if strings.HasPrefix(s, "m_count") {
			l = append(l, strings.TrimPrefix(s, "m_count"))
		}
	}
	sort.Strings(l)
	return strings.Join(l, " "), nil
}

func together(qs []request, quick, max int) *mcrt.Scenario {
	var names []string
	for _, q := range qs {
		names = append(names, q.name)
	}
	return &mcrt.Scenario{Name: strings.Join(names, "+"), QuickBound: quick, MaxBound: max, NoUnlockPoints: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		log.SetDefaultLoggerLevel(slog.LevelError + 100)
		c := ctx.TODO()
		h := server(c, x)
		var wg sync.WaitGroup
		want := map[string]int{}
		for i, q := range qs {
			i, q := i, q
			wg.Add(1)
			go func() {
				defer wg.Done()
				q.serve(c, x, h, fmt.Sprint("user", i))
			}()
			if !q.panics {
				want[fmt.Sprintf(`{method=%q,path=%q,code="%d"}`, q.verb(), q.path, q.code)]++
			}
		}
		wg.Wait()
		if timer(qs) {
			return nil // (may have another status)
		}
		var l []string
		for k, n := range want {
			l = append(l, fmt.Sprintf("%s %d", k, n))
		}
		sort.Strings(l)
		if got, err := counts(); err != nil {
			x.Failf("metrics", "%v", err)
		} else if w := strings.Join(l, " "); got != w {
			x.Failf("metrics", "counted: %s, but there were: %s", got, w)
		}
		return nil
	}}
}

func timer(qs []request) bool {
	for _, q := range qs {
		if q.name == "call" {
			return true
		}
	}
	return false
}

func main() {
	mc.Main("C32", mc.Options{QuickBound: 2, ThoroughBound: 3,
		Rule:   "every pair of 17 kinds of request and some triples, under every schedule up to the preemption bound, with scheduling points at every read of a request, write of a response, and within the handlers",
		Assume: []string{"registering is done before serving", "the metrics of a request whose handler panics are not promised"},
	}, func() []*mcrt.Scenario {
		var l []*mcrt.Scenario
		for i, a := range kinds {
			for _, b := range kinds[i:] {
				quick, max := 2, 3
				if qs := []request{a, b}; timer(qs) { // (many steps)
					quick, max = 1, 2
				}
				l = append(l, together([]request{a, b}, quick, max))
			}
		}
		for _, n := range []string{"gzip,gzip,gzip", "api,api,api without", "small,bad,secret", "raw,raw,metrics", "panic,small,api"} {
			var qs []request
			for _, s := range strings.Split(n, ",") {
				qs = append(qs, kind(s))
			}
			l = append(l, together(qs, 1, 2))
		}
		if s := os.Getenv("C32_ONLY"); s != "" {
			for _, sc := range l {
				if sc.Name == s {
					return []*mcrt.Scenario{sc}
				}
			}
		}
		return l
	})
}
