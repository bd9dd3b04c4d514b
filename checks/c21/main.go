// C21: every outcome of a handler under every request shape against a real server on the loopback interface, read byte by
// byte, with the request metrics counted; concurrent requests under every schedule.
package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"net"
	gohttp "net/http"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/http"

	"verif.local/mc/lib/mc"
	"verif.local/mc/lib/promtext"
	"verif.local/mc/lib/vk"
	"verif.local/mc/mcrt"
)

const secret = "hunter2-internal-detail"

// ---------------------------------------------------------------- outcomes

type outcome struct {
	name  string
	out   []byte
	err   error
	panic bool
	// expected
	code int
	msg  string // error message expected in the body, "" none
}

func rnd(n int) []byte { // incompressible
	b := make([]byte, n)
	x := uint32(12345)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func outcomes() (l []outcome) {
	c := ctx.TODO()
	add := func(o outcome) { l = append(l, o) }
	big := bytes.Repeat([]byte(`{"a":[1,2,3]} `), 8000)
	for n, b := range map[string][]byte{"none": nil, "empty": {}, "one byte": []byte("x"), "json": []byte(`{"a":1}`), "16K": big[:16*1024], "16K+1": big[:16*1024+1],
		"100K": big, "random 20K": rnd(20000), "random 200K": rnd(200000), "4K": big[:4096]} {
		code := 200
		if len(b) == 0 {
			code = 204
		}
		add(outcome{name: "value " + n, out: b, code: code})
	}
	for n, e := range map[string]error{"plain": errors.New(secret), "ctx": ctx.NewErrorf(c, "%s", secret), "eof": fmt.Errorf("%s: %w", secret, io.EOF)} {
		add(outcome{name: "error " + n, err: e, code: 500})
		add(outcome{name: "error and value " + n, err: e, out: []byte(secret), code: 500})
	}
	codes := []int{-1, 0, 1, 99, 100, 101, 102, 103, 199, 600, 700, 999, 1000, 1 << 20}
	for i := 200; i < 600; i += 1 {
		if i < 232 || i >= 300 && i < 309 || i >= 400 && i < 452 || i >= 498 && i < 512 || i == 599 {
			codes = append(codes, i)
		}
	}
	for _, code := range codes {
		want := code
		if code < 200 || code > 999 {
			want = 500
		}
		for n, e := range map[string]error{
			"bare":    http.Error{Code: code},
			"wrapped": http.Error{Code: code, Err: errors.New(secret)},
			"newf":    http.NewErrorf(c, code, "%s \"quoted\"\n<é>\x01", secret),
			"inside":  ctx.NewErrorf(c, "outer: %w", fmt.Errorf("mid: %w", http.Error{Code: code, Err: errors.New(secret)})),
			"first":   http.Error{Code: code, Err: http.Error{Code: 418, Err: errors.New(secret)}},
		} {
			o := outcome{name: fmt.Sprintf("code %d %s", code, n), err: e, code: want}
			if want < 500 {
				o.msg = e.Error()
			}
			add(o)
		}
	}
	add(outcome{name: "panic", panic: true})
	add(outcome{name: "panic after error", panic: true, err: errors.New("x")})
	sort.Slice(l, func(i, j int) bool { return l[i].name < l[j].name })
	return
}

var cases = outcomes()

func outcomeOf(r *gohttp.Request) *outcome {
	i, err := strconv.Atoi(r.Header.Get("X-Case"))
	if err != nil {
		panic(err)
	}
	return &cases[i]
}

// ---------------------------------------------------------------- the server

type Op struct {
	R  api.Request `url:"/api"`
	R2 api.Request `url:"/api/other"`
	In int         `api:"in" json:"in"`
	S  []string    `api:"in,required" json:"s"`
	O  any         `api:"out" json:"o"`
}

var opErr = []error{nil, errors.New(secret), http.Error{Code: 403, Err: errors.New("forbidden thing")}, http.Error{Code: 503, Err: errors.New(secret)}, http.Error{}}

func (this *Op) Do(c ctx.C) error {
	switch {
	case this.In >= 100:
		panic("op")
	case this.In >= 20:
		this.O = make(chan int)
	case this.In >= 10:
		this.O = map[string]any{"list": strings.Repeat("x", 20000)}
	default:
		this.O = this.S
	}
	if this.In > 0 && this.In < len(opErr) {
		return opErr[this.In]
	}
	return nil
}

type step struct {
	code int
	data string
	name string
}

var steps = []step{{code: 200}, {code: 404}, {code: 500}, {code: 103}, {code: 100}, {data: "a"}, {data: ""}, {code: 204}}

func (s step) String() string {
	if s.code != 0 {
		return fmt.Sprint(s.code)
	}
	return fmt.Sprintf("%q", s.data)
}

func decodeSteps(v string) (l []step) {
	for _, r := range v {
		l = append(l, steps[r-'a'])
	}
	return
}

func raw(w gohttp.ResponseWriter, r *gohttp.Request) {
	for _, s := range decodeSteps(r.Header.Get("X-Steps")) {
		if s.code != 0 {
			w.WriteHeader(s.code)
		} else {
			_, _ = w.Write([]byte(s.data))
		}
	}
}

type seenReq struct {
	body   string
	method string
}

type server struct {
	s    *http.Server
	addr string
	mu   sync.Mutex
	seen map[string]seenReq // by request id
	want map[string]int     // metric counts expected: method code
	have map[string]int     // what there was before
}

func start() *server {
	c := ctx.TODO()
	s := &server{s: http.NewServer(c), seen: map[string]seenReq{}, want: map[string]int{}}
	f := func(c ctx.C, in []byte, r *gohttp.Request) ([]byte, error) {
		s.mu.Lock()
		s.seen[r.Header.Get("X-Id")] = seenReq{string(in), r.Method}
		s.mu.Unlock()
		o := outcomeOf(r)
		if o.panic {
			panic("handler")
		}
		return o.out, o.err
	}
	s.s.HandleRequest("/req", f)
	s.s.HandleRequest("/tree/", f)
	s.s.HandleRequest("/ready2", f)
	if _, err := s.s.RegisterAPI(c, &Op{}); err != nil {
		panic(err)
	}
	http.CallHandler{Path: "/call", Handler: func(c ctx.C, call *http.Call) error { return nil }}.Register(s.s)
	for i := range cases {
		o := cases[i]
		http.CallHandler{Path: fmt.Sprintf("/call/%d", i), Handler: func(c ctx.C, call *http.Call) error {
			if o.panic {
				panic("handler")
			}
			if i%2 == 0 {
				call.SetBody(o.out)
			} else {
				call.Write(o.out[:len(o.out)/2])
				call.Write(o.out[len(o.out)/2:])
			}
			return o.err
		}}.Register(s.s)
	}
	s.s.HandleFunc("/func", raw)
	s.s.Handle("/handle/", gohttp.HandlerFunc(raw))
	s.s.Mux().HandleFunc("/mux", raw)
	a, err := s.s.Listen(c, "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s.addr = a.String()
	s.have = counts()
	return s
}

// counts of the request metric by method and code
func counts() map[string]int {
	var b bytes.Buffer
	if err := http.Metrics.Request.Print("r", &b); err != nil {
		panic(err)
	}
	m := map[string]int{}
	for _, l := range strings.Split(b.String(), "\n") {
		if rest, ok := strings.CutPrefix(l, "r_count{method="); ok {
			var method, code string
			var n int
			q, _ := strconv.QuotedPrefix(rest)
			method, _ = strconv.Unquote(q)
			i := strings.LastIndex(rest, ",code=\"")
			code, tail, _ := strings.Cut(rest[i+7:], "\"} ")
			fmt.Sscan(tail, &n)
			m[method+" "+code] += n
		}
	}
	return m
}

// ---------------------------------------------------------------- the client: bytes

type conn struct {
	c net.Conn
	r *bufio.Reader
}

func (s *server) dial() *conn {
	c, err := net.Dial("tcp", s.addr)
	if err != nil {
		panic(err)
	}
	return &conn{c, bufio.NewReaderSize(c, 65536)}
}

type reqShape struct {
	method, accept, enc, body string
	framing                   int // 0 none, 1 length, 2 chunked, 3 length but cut short, 4 chunked but cut short
}

func (q reqShape) String() string {
	return fmt.Sprintf("%s accept=%q accept-encoding=%q body %d bytes, framing %s", q.method, q.accept, q.enc, len(q.body), []string{"none", "length", "chunked", "length cut short", "chunked cut short"}[q.framing])
}

var ids struct {
	sync.Mutex
	n int
}

type response struct {
	code  int
	head  gohttp.Header
	body  []byte
	early int // informational responses before it
	all   string
}

// send writes the request and reads one response; err says the connection gave none.
func (k *conn) send(path string, q reqShape, hdr string) (*response, error) {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: x\r\nUser-Agent: v\r\n%s", q.method, path, hdr)
	if q.accept != "" {
		fmt.Fprintf(&b, "Accept: %s\r\n", q.accept)
	}
	for _, e := range strings.Split(q.enc, "|") {
		if e != "" {
			fmt.Fprintf(&b, "Accept-Encoding: %s\r\n", e)
		}
	}
	switch q.framing {
	case 0:
		b.WriteString("\r\n")
	case 1, 3:
		n := len(q.body)
		if q.framing == 3 {
			n += 10
		}
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", n, q.body)
	case 2, 4:
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		h := len(q.body) / 2
		for _, p := range []string{q.body[:h], q.body[h:]} {
			if p != "" {
				fmt.Fprintf(&b, "%x\r\n%s\r\n", len(p), p)
			}
		}
		if q.framing == 2 {
			b.WriteString("0\r\n\r\n")
		}
	}
	_ = k.c.SetDeadline(time.Now().Add(60 * time.Second))
	if _, err := k.c.Write(b.Bytes()); err != nil {
		return nil, err
	}
	if q.framing >= 3 {
		_ = k.c.(*net.TCPConn).CloseWrite()
	}
	res := &response{}
	for {
		r, err := gohttp.ReadResponse(k.r, &gohttp.Request{Method: q.method})
		if err != nil {
			return nil, err
		}
		if r.StatusCode < 200 && r.StatusCode != 101 {
			res.early++
			continue
		}
		body, err := io.ReadAll(r.Body)
		if err != nil {
			return nil, fmt.Errorf("reading the body: %w", err)
		}
		var h bytes.Buffer
		_ = r.Header.Write(&h)
		res.code, res.head, res.body, res.all = r.StatusCode, r.Header, body, h.String()+string(body)
		return res, nil
	}
}

// gzipOK tells whether a client sending that Accept-Encoding takes gzip (RFC 9110 12.5.3).
func gzipOK(h string) bool {
	star, found := false, false
	ok := false
	for _, it := range strings.Split(strings.ReplaceAll(h, "|", ","), ",") {
		name, par, _ := strings.Cut(strings.TrimSpace(it), ";")
		q := 1.0
		if v, is := strings.CutPrefix(strings.ReplaceAll(strings.ToLower(par), " ", ""), "q="); is {
			q, _ = strconv.ParseFloat(v, 64)
		}
		switch strings.ToLower(strings.TrimSpace(name)) {
		case "gzip", "x-gzip":
			found = true
			ok = ok || q > 0
		case "*":
			star = q > 0
		}
	}
	return ok || !found && star
}

func noBody(method string, code int) bool {
	return method == "HEAD" || code == 204 || code == 304 || code < 200
}

// ---------------------------------------------------------------- judging

type world struct {
	k *vk.Check
	s *server
}

func (wd *world) expectMetric(method string, code int) {
	wd.s.mu.Lock()
	wd.s.want[fmt.Sprintf("%s %d", method, code)]++
	wd.s.mu.Unlock()
}

func (wd *world) judge(w *vk.Worker, path string, q reqShape, o *outcome, res *response, api bool) {
	what := func() string { return fmt.Sprintf("%s %v, handler: %s", path, q, o.name) }
	if res.code != o.code {
		w.Violate("status:"+path+":"+o.name, fmt.Sprintf("%s: status %d, want %d", what(), res.code, o.code), what())
		return
	}
	w.Out(fmt.Sprintf("%s %d", strings.Split(path, "/")[1], res.code))
	if o.code >= 500 && strings.Contains(res.all, secret[:7]) {
		w.Violate("leak:"+path, fmt.Sprintf("%s: the response reveals the error: %s", what(), res.all), what())
	}
	if noBody(q.method, res.code) {
		if len(res.body) > 0 {
			w.Violate("body-not-allowed", fmt.Sprintf("%s: body %q", what(), res.body), what())
		}
		return
	}
	body := res.body
	switch e := res.head.Get("Content-Encoding"); e {
	case "":
	case "gzip":
		w.Out("gzip")
		if !gzipOK(q.enc) {
			w.Violate("gzip-unasked:"+q.enc, fmt.Sprintf("%s: compressed", what()), what())
		}
		z, err := gzip.NewReader(bytes.NewReader(body))
		if err == nil {
			body, err = io.ReadAll(z)
		}
		if err != nil {
			w.Violate("gzip-broken", fmt.Sprintf("%s: %v", what(), err), what())
			return
		}
	default:
		w.Violate("encoding", fmt.Sprintf("%s: Content-Encoding %q", what(), e), what())
	}
	switch {
	case o.err == nil:
		if !bytes.Equal(body, o.out) {
			w.Violate("body:"+path, fmt.Sprintf("%s: body of %d bytes, want %d", what(), len(body), len(o.out)), what())
		}
	case strings.HasPrefix(path, "/call"):
		if len(body) != 0 {
			w.Violate("call-error-body", fmt.Sprintf("%s: body %q", what(), body), what())
		}
	default:
		var m map[string]any
		if err := json.Unmarshal(body, &m); err != nil {
			w.Violate("error-body:"+path, fmt.Sprintf("%s: body %q: %v", what(), body, err), what())
			return
		}
		msg, has := m["error"].(string)
		if has != (o.code < 500) {
			w.Violate("error-message:"+path, fmt.Sprintf("%s: body %s", what(), body), what())
		} else if has && msg != o.msg {
			w.Violate("error-message:"+path, fmt.Sprintf("%s: message %q, want %q", what(), msg, o.msg), what())
		}
	}
}

var methods = []string{"GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH", "BREW"}
var encs = []string{"", "gzip", "gzip, deflate, br", "deflate", "gzip;q=0", "gzip; q=0.0", "gzip;q=0.5", "*", "*;q=0", "identity", "GZIP", "identity, gzip;q=0, *", "x-gzip", "deflate|gzip", "br;q=1.0, gzip;q=0.8, *;q=0.1", "gzipped", "not-gzip", "gzip ; q=0"}
var accepts = []string{"", "*/*", "application/gzip", "gzip"}
var bodies = []string{"", "x", `{"a":1}`, strings.Repeat("0123456789abcdef", 5000)}

func shapes(full bool) (l []reqShape) {
	seen := map[reqShape]bool{}
	add := func(q reqShape) {
		if !seen[q] {
			seen[q] = true
			l = append(l, q)
		}
	}
	for _, m := range methods {
		add(reqShape{method: m})
	}
	for _, e := range encs {
		for _, a := range accepts {
			add(reqShape{method: "POST", accept: a, enc: e, framing: 1, body: "x"})
		}
		add(reqShape{method: "HEAD", enc: e})
	}
	for _, m := range methods {
		for _, b := range bodies {
			for f := 0; f < 5; f++ {
				if f == 0 && b != "" || m == "HEAD" && f != 0 && !full {
					continue
				}
				add(reqShape{method: m, framing: f, body: b, enc: "gzip"})
			}
		}
	}
	return
}

// requests through HandleRequest: every outcome under every shape
func (wd *world) handled(w *vk.Worker, k *conn, path string, q reqShape, i int) *conn {
	o := &cases[i]
	w.Ev++
	ids.Lock()
	ids.n++
	id := fmt.Sprint(ids.n)
	ids.Unlock()
	w.Note(fmt.Sprintf("%s %v %s", path, q, o.name))
	res, err := k.send(path, q, fmt.Sprintf("X-Case: %d\r\nX-Id: %s\r\n", i, id))
	fresh := func() *conn { k.c.Close(); return wd.s.dial() }
	what := func() string { return fmt.Sprintf("%s %v, handler: %s", path, q, o.name) }
	call := strings.HasPrefix(path, "/call")
	if q.framing >= 3 { // the body can't be read
		if err != nil {
			w.Violate("cut-no-response", fmt.Sprintf("%s: %v", what(), err), what())
			return fresh()
		}
		if res.code != 400 {
			w.Violate("cut-status", fmt.Sprintf("%s: status %d for a request cut short", what(), res.code), what())
		}
		wd.expectMetric(q.method, res.code)
		wd.s.mu.Lock()
		if v, ran := wd.s.seen[id]; ran {
			w.Violate("cut-ran", fmt.Sprintf("%s: the handler runs on half a request: %q", what(), v.body), what())
		}
		wd.s.mu.Unlock()
		return fresh()
	}
	if o.panic {
		if err == nil {
			w.Violate("panic-response", fmt.Sprintf("%s: status %d after a panic", what(), res.code), what())
		}
		return fresh() // and the server is still there, as the next ones see
	}
	if err != nil {
		w.Violate("no-response:"+path+":"+o.name, fmt.Sprintf("%s: %v", what(), err), what())
		return fresh()
	}
	w.Nt++
	if !call {
		wd.s.mu.Lock()
		v := wd.s.seen[id]
		delete(wd.s.seen, id)
		wd.s.mu.Unlock()
		if v.body != q.body || v.method != q.method {
			w.Violate("request-body", fmt.Sprintf("%s: the handler sees %s and %d bytes", what(), v.method, len(v.body)), what())
		}
	}
	wd.expectMetric(q.method, res.code)
	wd.judge(w, path, q, o, res, false)
	return k
}

func (wd *world) check(name string) {
	s := wd.s
	s.mu.Lock()
	defer s.mu.Unlock()
	var diff string
	for try := 0; ; try++ {
		now := counts()
		diff = ""
		keys := map[string]bool{}
		for k := range now {
			keys[k] = true
		}
		for k := range s.want {
			keys[k] = true
		}
		var l []string
		for k := range keys {
			if now[k]-s.have[k] != s.want[k] {
				l = append(l, fmt.Sprintf("%s: %d, want %d", k, now[k]-s.have[k], s.want[k]))
			}
		}
		sort.Strings(l)
		diff = strings.Join(l, "; ")
		if diff == "" || try > 100 {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if diff != "" {
		wd.k.Violate("metrics:"+name, fmt.Sprintf("%s: requests counted: %s", name, diff), diff)
		s.have = counts()
		s.want = map[string]int{}
	}
}

func (wd *world) apiOp(w *vk.Worker, k *conn, path, body string, framing int, want int, msg string, out string) *conn {
	w.Ev++
	q := reqShape{method: "POST", framing: framing, body: body, enc: "gzip"}
	res, err := k.send(path, q, "")
	if err != nil {
		if want != 0 {
			w.Violate("api-no-response", fmt.Sprintf("%s %q: %v", path, body, err), body)
		}
		k.c.Close()
		return wd.s.dial()
	}
	w.Nt++
	wd.expectMetric("POST", res.code)
	b := res.body
	if res.head.Get("Content-Encoding") == "gzip" {
		z, err := gzip.NewReader(bytes.NewReader(b))
		if err == nil {
			b, err = io.ReadAll(z)
		}
		if err != nil {
			w.Violate("api-gzip", err.Error(), body)
		}
	}
	if res.code != want {
		w.Violate(fmt.Sprintf("api-status:%s:%d", body, res.code), fmt.Sprintf("%s %q: status %d, want %d: %s", path, body, res.code, want, b), body)
		return k
	}
	var m map[string]any
	if err := json.Unmarshal(b, &m); err != nil {
		w.Violate("api-body", fmt.Sprintf("%s %q: body %q: %v", path, body, b, err), body)
		return k
	}
	e, has := m["error"].(string)
	switch {
	case want == 200:
		if has || out != "" && string(b) != out {
			w.Violate("api-value", fmt.Sprintf("%s %q: body %s, want %s", path, body, b, out), body)
		}
	case want < 500:
		if !has || e == "" || !strings.Contains(e, msg) {
			w.Violate("api-message", fmt.Sprintf("%s %q: body %s", path, body, b), body)
		}
	default:
		if has || strings.Contains(res.all, secret[:7]) {
			w.Violate("api-leak", fmt.Sprintf("%s %q: body %s", path, body, b), body)
		}
	}
	return k
}

func sequential(k *vk.Check) {
	log.SetDefaultLoggerLevel(slog.LevelError + 100)
	quietNetHTTP()
	s := start()
	wd := &world{k, s}
	conns := make([]*conn, 64)
	get := func(w *vk.Worker) *conn {
		if conns[w.N] == nil {
			conns[w.N] = s.dial()
		}
		return conns[w.N]
	}
	sh := shapes(k.Thorough())
	k.Set("request_shapes", len(sh))
	k.Set("handler_outcomes", len(cases))
	// outcomes under shapes
	few := sh
	if !k.Thorough() { // every outcome under a few shapes, the telling outcomes under all
		few = []reqShape{{method: "GET"}, {method: "POST", framing: 1, body: "x", enc: "*", accept: "gzip"}, {method: "PUT", framing: 1, body: bodies[3], enc: "gzip;q=0"}, {method: "DELETE", framing: 3, body: "x"}, {method: "POST", framing: 2, body: bodies[3], enc: "gzip"}, {method: "HEAD"}}
	}
	k.Par(int64(len(few)*len(cases)), func(w *vk.Worker, i int64) {
		conns[w.N] = wd.handled(w, get(w), "/req", few[i/int64(len(cases))], int(i%int64(len(cases))))
	})
	wd.check("HandleRequest")
	k.Par(int64(len(sh)*len(cases)), func(w *vk.Worker, i int64) {
		c := int(i % int64(len(cases)))
		if n := cases[c].name; !strings.HasPrefix(n, "value") && n != "code 404 newf" && n != "error plain" && n != "panic" {
			return
		}
		conns[w.N] = wd.handled(w, get(w), "/tree/a/b", sh[i/int64(len(cases))], c)
	})
	wd.check("HandleRequest on a tree")
	// bodies of many sizes, none of which is cut
	var sizes []int
	for _, p := range []int{12, 15, 16, 20, 22, 23} {
		sizes = append(sizes, 1<<p-1, 1<<p, 1<<p+1)
	}
	sizes = append(sizes, 10_000_001, 1<<24+1, k.Pick(1<<24+2, 1<<26+1))
	big := strings.Repeat("0123456789abcdef", (sizes[len(sizes)-1]+15)/16)
	k.Set("body_sizes", len(sizes))
	k.Par(int64(len(sizes)*2), func(w *vk.Worker, i int64) {
		q := reqShape{method: "POST", framing: int(i%2) + 1, body: big[:sizes[i/2]], enc: "gzip"}
		for c := range cases {
			if cases[c].name == "value json" {
				conns[w.N] = wd.handled(w, get(w), "/req", q, c)
			}
		}
		if len(q.body) > k.Pick(1<<22+1, 1<<24+2) {
			return
		}
		conns[w.N] = wd.apiOp(w, get(w), "/api", `{"s":["`+q.body+`"]}`, q.framing, 200, "", `{"o":["`+q.body+`"]}`)
	})
	for i, c := range conns { // the server has closed those that waited
		if c != nil {
			c.c.Close()
			conns[i] = nil
		}
	}
	wd.check("bodies of many sizes")
	call := []reqShape{{method: "GET"}, {method: "POST", framing: 1, body: "x", enc: "gzip"}, {method: "HEAD"}, {method: "POST", framing: 4, body: "x"}}
	k.Par(int64(len(call)*len(cases)), func(w *vk.Worker, i int64) {
		c := int(i % int64(len(cases)))
		conns[w.N] = wd.handled(w, get(w), fmt.Sprintf("/call/%d", c), call[i/int64(len(cases))], c)
	})
	wd.check("CallHandler")
	// registered API
	type ap struct {
		body      string
		code      int
		msg, want string
	}
	aps := []ap{
		{`{"s":["a"]}`, 200, "", `{"o":["a"]}`}, {`{"s":["a"],"in":1}`, 500, "", ""}, {`{"s":["a"],"in":2}`, 403, "forbidden thing", ""},
		{`{"s":["a"],"in":3}`, 503, "", ""}, {`{"s":["a"],"in":4}`, 500, "", ""}, {`{"s":["a"],"in":10}`, 200, "", ""}, {`{"s":["a"],"in":20}`, 500, "", ""},
		{`{"s":["a"],"in":100}`, 0, "", ""}, {`{}`, 400, "", ""}, {``, 400, "", ""}, {`{"s":null}`, 400, "", ""}, {`{"s":3}`, 400, "", ""}, {`{"s":["a"],"in":[]}`, 400, "", ""},
		{`null`, 400, "", ""}, {`[]`, 400, "", ""}, {`3`, 400, "", ""}, {`"x"`, 400, "", ""},
	}
	good := `{"s":["a"],"in":0}`
	for i := 0; i < len(good); i++ { // cut anywhere, and one byte too many anywhere
		if i > 0 {
			aps = append(aps, ap{good[:i], 400, "", ""})
		}
		for _, b := range []string{"}", "\x00", "\xff", ","} {
			if t := good[:i] + b + good[i:]; !json.Valid([]byte(t)) {
				aps = append(aps, ap{t, 400, "", ""})
			}
		}
	}
	aps = append(aps, ap{good + good, 400, "", ""}, ap{good + "x", 400, "", ""})
	k.Par(int64(len(aps))*4, func(w *vk.Worker, i int64) {
		a := aps[i/4]
		path := []string{"/api", "/api/other"}[i%2]
		conns[w.N] = wd.apiOp(w, get(w), path, a.body, []int{1, 2}[i/2%2], a.code, a.msg, a.want)
	})
	wd.check("RegisterAPI")
	// handlers writing by themselves
	depth := k.Pick(3, 4)
	var progs []string
	var gen func(p string)
	gen = func(p string) {
		progs = append(progs, p)
		if len(p) < depth {
			for i := range steps {
				gen(p + string(rune('a'+i)))
			}
		}
	}
	gen("")
	paths := []string{"/func", "/handle/x/y", "/mux"}
	ms := []string{"GET", "HEAD"}
	k.Par(int64(len(progs)*len(paths)*len(ms)), func(w *vk.Worker, i int64) {
		m := ms[i%2]
		path := paths[i/2%3]
		p := progs[i/6]
		w.Ev++
		code, body, early := 0, "", 0
		for _, s := range decodeSteps(p) {
			switch {
			case s.code >= 200 && code == 0:
				code = s.code
			case s.code == 0:
				if code == 0 {
					code = 200
				}
				body += s.data
			case s.code > 0 && s.code < 200 && code == 0:
				early++
			}
		}
		if code == 0 {
			code = 200
		}
		what := fmt.Sprintf("%s %s writing %v", m, path, decodeSteps(p))
		w.Note(what)
		res, err := get(w).send(path, reqShape{method: m}, fmt.Sprintf("X-Steps: %s\r\n", p))
		if err != nil {
			w.Violate("raw-no-response", fmt.Sprintf("%s: %v", what, err), what)
			conns[w.N].c.Close()
			conns[w.N] = nil
			return
		}
		w.Nt++
		wd.expectMetric(m, res.code)
		if noBody(m, code) {
			body = ""
		}
		if res.code != code || string(res.body) != body || res.early != early {
			w.Violate("raw:"+path, fmt.Sprintf("%s: status %d body %q after %d informational ones, want %d %q %d", what, res.code, res.body, res.early, code, body, early), what)
		}
		w.Out(fmt.Sprintf("raw %d", res.code))
	})
	wd.check("handlers writing by themselves")
	// liveness, readiness, unknown paths, redirects, the document
	w := k.NewWorker(0)
	cn := s.dial()
	one := func(m, path string, code int) *response {
		w.Ev++
		res, err := cn.send(path, reqShape{method: m}, "")
		if err != nil {
			w.Violate("fixed:"+path, fmt.Sprintf("%s %s: %v", m, path, err), path)
			cn = s.dial()
			return nil
		}
		wd.expectMetric(m, res.code)
		if code == -1 && res.code/100 == 3 && res.head.Get("Location") == "/tree/" {
			return res
		}
		if res.code != code {
			w.Violate("fixed:"+path, fmt.Sprintf("%s %s: status %d, want %d", m, path, res.code, code), path)
		}
		return res
	}
	for _, m := range methods[:4] {
		one(m, "/live", 204)
		one(m, "/ready", 204)
		one(m, "/nowhere", 404)
		one(m, "/req/sub", 404)
		one(m, "/tree", -1)
	}
	for code := 200; code < 600; code++ {
		s.s.SetReady(code)
		one("GET", "/ready", code)
		if code%50 == 0 {
			one("GET", "/live", 204)
		}
	}
	s.s.SetReady(204)
	one("GET", "/ready", 204)
	if r := one("GET", "/openapi.json", 200); r != nil && !json.Valid(r.body) {
		w.Violate("openapi", "the document is not JSON", string(r.body))
	}
	w.Flush()
	wd.check("fixed paths")
	// what monitoring registers
	s.s.SetupPrometheus(ctx.TODO(), "")
	s.s.SetupPrometheus(ctx.TODO(), "/other/metrics")
	s.s.SetupMonitoring(ctx.TODO(), "/debug")
	s.s.SetupMonitoring(ctx.TODO(), "/elsewhere")
	var fams [2][]string
	for i, path := range []string{"/metrics", "/other/metrics"} {
		r := one("GET", path, 200)
		if r == nil {
			continue
		}
		w.Nt++
		fs, err := promtext.Parse(string(r.body))
		if err != nil {
			w.Violate("metrics-page", fmt.Sprintf("%s: %v", path, err), path)
			continue
		}
		if ct := r.head.Get("Content-Type"); !strings.HasPrefix(ct, "text/plain") {
			w.Violate("metrics-page", fmt.Sprintf("%s: served as %q", path, ct), path)
		}
		for _, f := range fs {
			fams[i] = append(fams[i], f.Name+" "+f.Type)
		}
	}
	if a, b := fmt.Sprint(fams[0]), fmt.Sprint(fams[1]); a != b || !strings.Contains(a, "http_request") || !strings.Contains(a, "go_routines gauge") {
		w.Violate("metrics-page", fmt.Sprintf("the pages have %s and %s", a, b), "/metrics")
	}
	for _, pre := range []string{"/debug", "/elsewhere"} {
		for path, want := range map[string]func(b string) bool{
			"/pprof/":                   func(b string) bool { return strings.Contains(b, "goroutine") && strings.Contains(b, "heap") },
			"/pprof/cmdline":            func(b string) bool { return b == strings.Join(os.Args, "\x00") },
			"/pprof/symbol":             func(b string) bool { return strings.Contains(b, "num_symbols: 1") },
			"/goroutines":               func(b string) bool { return strings.HasPrefix(b, "goroutine profile: total ") },
			"/pprof/trace?seconds=0.05": func(b string) bool { return strings.HasPrefix(b, "go 1.") },
			"/pprof/profile?seconds=1":  func(b string) bool { return strings.HasPrefix(b, "\x1f\x8b") },
		} {
			if r := one("GET", pre+path, 200); r != nil {
				w.Nt++
				if !want(string(r.body)) {
					w.Violate("monitoring", fmt.Sprintf("%s%s: %.200q", pre, path, r.body), path)
				}
			}
		}
	}
	w.Flush()
	wd.check("monitoring")
	for _, c := range conns {
		if c != nil {
			c.c.Close()
		}
	}
	k.Traces(k.GetEvals())
}

// ---------------------------------------------------------------- concurrency

type recorder struct {
	h    gohttp.Header
	code int
	body []byte
}

func (r *recorder) Header() gohttp.Header { return r.h }
func (r *recorder) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *recorder) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.body = append(r.body, b...)
	return len(b), nil
}

func serve(s *http.Server, path, hdr string) *recorder {
	r, _ := gohttp.NewRequestWithContext(ctx.TODO(), "POST", path, strings.NewReader(`{"s":["a"]}`))
	r.Header.Set("X-Steps", hdr)
	w := &recorder{h: gohttp.Header{}}
	s.Mux().ServeHTTP(w, r)
	return w
}

func concurrent(name string, threads int, quick, bound int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, QuickBound: quick, MaxBound: bound, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		log.SetDefaultLoggerLevel(slog.LevelError + 100)
		c := ctx.TODO()
		s := http.NewServer(c)
		if _, err := s.RegisterAPI(c, &Op{}); err != nil {
			panic(err)
		}
		s.HandleFunc("/func", raw)
		mux := s.Mux()
		_ = mux
		var wg sync.WaitGroup
		for i := 0; i < threads; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				switch i {
				case 0, 3:
					w := serve(s, "/func", "bf")
					if w.code != 404 || string(w.body) != "a" {
						x.Failf("func", "%d %q", w.code, w.body)
					}
				case 1:
					w := serve(s, "/func", "b")
					if w.code != 404 {
						x.Failf("func", "%d %q", w.code, w.body)
					}
					if w := serve(s, "/ready", ""); w.code != 204 && w.code != 503 {
						x.Failf("ready", "%d", w.code)
					}
				case 2:
					w := serve(s, "/api", "")
					if w.code != 200 || string(w.body) != `{"o":["a"]}` {
						x.Failf("api", "%d %q", w.code, w.body)
					}
				}
			}()
		}
		wg.Wait()
		s.SetReady(503)
		if w := serve(s, "/ready", ""); w.code != 503 {
			x.Failf("ready", "%d", w.code)
		}
		want := 2
		if threads > 3 {
			want = 3
		}
		if n := counts()["POST 404"]; n != want {
			x.Failf("metrics", "%d requests counted, want %d", n, want)
		}
		return nil
	}}
}

func main() {
	mc.Main("C21", mc.Options{QuickBound: 2, ThoroughBound: 3,
		Rule:   "every handler outcome (values around the compression threshold, plain, coded and wrapped errors for every interesting code, panics) under every request shape (method, body framing including cut short, Accept and Accept-Encoding forms) through HandleRequest, CallHandler, RegisterAPI, Handle, HandleFunc and the bare mux of a real server on the loopback interface; every sequence of header and body writes of a raw handler; every readiness code; every response read from the bytes of one kept-alive connection; the request metric compared with the responses sent; concurrent requests under every schedule up to the preemption bound",
		Assume: []string{"a panic aborts its own connection, as net/http does it", "codes outside 200..999 are not statuses of an error"},
		Before: sequential,
	}, func() []*mcrt.Scenario {
		return []*mcrt.Scenario{
			concurrent("two requests", 2, 1, 2),
			concurrent("three requests", 3, 1, 2),
			concurrent("four requests", 4, 0, 1),
		}
	})
}
