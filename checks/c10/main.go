// C10: every small tree of contexts carrying loggers, helpers and tags, every kind of argument, and concurrent logging.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"

	"verif.local/mc/lib/mc"
	"verif.local/mc/mcrt"
)

// ---------------------------------------------------------------- sinks

type sink struct {
	name  string
	buf   bytes.Buffer
	level slog.Leveler
	fn    bool // a LogFunc: no levels, no formatting
	calls []call
	fresh bool // format of NewDefaultSlogLogger
}

type call struct {
	level  slog.Level
	src, f string
	args   []any
}

func (s *sink) take() string { t := s.buf.String(); s.buf.Reset(); return t }

var stdout *os.File // what the default logger writes to

func takeStdout() string {
	n, _ := stdout.Seek(0, io.SeekCurrent)
	if n == 0 {
		return ""
	}
	b := make([]byte, n)
	_, _ = stdout.ReadAt(b, 0)
	_ = stdout.Truncate(0)
	_, _ = stdout.Seek(0, io.SeekStart)
	return string(b)
}

func (s *sink) make() *slog.Logger {
	if s.fresh {
		l := log.NewDefaultSlogLogger(&s.buf)
		s.level = log.DefaultLoggerLevel
		return l
	}
	return slog.New(slog.NewJSONHandler(&s.buf, &slog.HandlerOptions{Level: s.level}))
}

// ---------------------------------------------------------------- lines

// parse checks that text is one JSON object on one line without repeated keys and returns it.
func parse(text string) (map[string]any, error) {
	if strings.Count(text, "\n") != 1 || !strings.HasSuffix(text, "\n") {
		return nil, fmt.Errorf("not exactly one line: %q", text)
	}
	dec := json.NewDecoder(strings.NewReader(text))
	v, err := object(dec)
	if err != nil {
		return nil, fmt.Errorf("%v in %q", err, text)
	}
	m, ok := v.(map[string]any)
	if !ok {
		return nil, fmt.Errorf("not an object: %q", text)
	}
	if _, err := dec.Token(); err != io.EOF {
		return nil, fmt.Errorf("trailing data: %q", text)
	}
	return m, nil
}

func object(dec *json.Decoder) (any, error) {
	t, err := dec.Token()
	if err != nil {
		return nil, err
	}
	switch t {
	case json.Delim('{'):
		m := map[string]any{}
		for dec.More() {
			k, err := dec.Token()
			if err != nil {
				return nil, err
			}
			v, err := object(dec)
			if err != nil {
				return nil, err
			}
			if _, dup := m[k.(string)]; dup {
				return nil, fmt.Errorf("key %q twice", k)
			}
			m[k.(string)] = v
		}
		_, err := dec.Token()
		return m, err
	case json.Delim('['):
		l := []any{}
		for dec.More() {
			v, err := object(dec)
			if err != nil {
				return nil, err
			}
			l = append(l, v)
		}
		_, err := dec.Token()
		return l, err
	}
	return t, nil
}

func native(j string) any {
	var v any
	if err := json.Unmarshal([]byte(j), &v); err != nil {
		return "invalid " + j
	}
	return v
}

// checkLine compares a line with what it must hold; tags maps names to JSON ("*": anything).
func checkLine(text string, dflt bool, level slog.Level, msg, src string, tags map[string]string) error {
	m, err := parse(text)
	if err != nil {
		return err
	}
	msgKey, lv := "msg", level.String()
	if dflt {
		msgKey, lv = "message", strings.ToLower(lv)
	}
	if m["level"] != lv {
		return fmt.Errorf("level %v instead of %s", m["level"], lv)
	}
	if m[msgKey] != msg {
		return fmt.Errorf("message %q instead of %q", m[msgKey], msg)
	}
	if src == "" {
		if _, ok := m["src"]; ok {
			return fmt.Errorf("src %v instead of none", m["src"])
		}
	} else if src != "*" && m["src"] != src {
		return fmt.Errorf("src %v instead of %s", m["src"], src)
	}
	if t, ok := m["time"].(string); !ok {
		return fmt.Errorf("time %v", m["time"])
	} else if _, err := time.Parse(time.RFC3339Nano, t); err != nil {
		return err
	}
	want := map[string]any{}
	got, _ := m["tags"].(map[string]any)
	for k, j := range tags {
		if j == "*" {
			if _, ok := got[k]; !ok {
				return fmt.Errorf("no tag %q in %v", k, got)
			}
			want[k] = got[k]
			continue
		}
		want[k] = native(j)
	}
	if len(want) != len(got) || len(want) > 0 && !reflect.DeepEqual(want, got) {
		return fmt.Errorf("tags %v instead of %v", got, want)
	}
	n := 4
	if src == "" {
		n--
	}
	if len(want) > 0 {
		n++
	}
	if len(m) != n {
		return fmt.Errorf("unexpected members: %v", m)
	}
	return nil
}

// ---------------------------------------------------------------- trees

type node struct {
	c      ctx.C
	tags   map[string]string
	sink   *sink
	helper string
}

const (
	kTag = iota
	kReserved
	kLogger
	kLoggerInfo
	kFresh
	kFunc
	kHelper
	kDetach
	kCancel
	nKinds
)

var names = []string{"tag", "reserved-tag", "logger", "logger(info)", "default-logger", "logfunc", "helper", "detach", "cancel"}
var reserved = []string{"level", "msg", "message", "time", "src", "tags", "error", "source"}
var levels = []slog.Level{slog.LevelDebug, slog.LevelInfo, slog.LevelWarn, slog.LevelError}

func tree(name string, nodes, kinds int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, MaxBound: -1, AllowLeak: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		takeStdout()
		var helped []string
		dflt := &sink{name: "stdout", level: log.DefaultLoggerLevel, fresh: true}
		c, cf := ctx.Background()
		defer cf(nil)
		all := []*node{{c: c, tags: map[string]string{}, sink: dflt}}
		sinks := []*sink{dflt}
		hist := "0=root"
		for i := 1; i < nodes; i++ {
			pi := mcrt.Choose(len(all))
			p := all[pi]
			k := mcrt.Choose(kinds)
			n := &node{tags: map[string]string{}, sink: p.sink, helper: p.helper}
			for k, v := range p.tags {
				n.tags[k] = v
			}
			hist += fmt.Sprintf(" %d=%s(%d)", i, names[k], pi)
			switch k {
			case kTag:
				n.c = ctx.WithTag(p.c, "a", i)
				n.tags["a"] = fmt.Sprint(i)
			case kReserved:
				r := reserved[(i+pi*3)%len(reserved)]
				n.c = ctx.WithTag(p.c, r, []int{i})
				n.tags[r] = fmt.Sprintf("[%d]", i)
				hist += ":" + r
			case kLogger, kLoggerInfo, kFresh:
				s := &sink{name: fmt.Sprint("logger", i), level: slog.LevelDebug}
				if k == kLoggerInfo {
					s.level = slog.LevelWarn
				}
				s.fresh = k == kFresh
				sinks = append(sinks, s)
				n.sink = s
				n.c = log.WithSlogLogger(p.c, s.make())
			case kFunc:
				s := &sink{name: fmt.Sprint("func", i), fn: true}
				sinks = append(sinks, s)
				n.sink = s
				n.c = log.WithLogFunc(p.c, func(c ctx.C, level slog.Level, src, f string, args ...any) {
					s.calls = append(s.calls, call{level, src, f, args})
				})
			case kHelper:
				h := fmt.Sprint("h", i)
				n.helper = h
				n.c = log.WithHelper(p.c, func() { helped = append(helped, h) })
			case kDetach:
				n.c = ctx.Detach(p.c)
			case kCancel:
				c, cf := ctx.WithCancel(p.c)
				cf(nil)
				n.c = c
			}
			all = append(all, n)
		}
		set := levels[mcrt.Choose(3)]
		log.SetDefaultLoggerLevel(set)
		hist += " level=" + set.String()
		for i, n := range all {
			for li, lv := range levels {
				helped = nil
				src := ""
				switch li {
				case 0:
					log.Debugf(n.c, "m%d %s", i, "x")
					src = here()
				case 1:
					log.Infof(n.c, "m%d %s", i, "x")
					src = here()
				case 2:
					log.Warnf(n.c, "m%d %s", i, "x")
					src = here()
				case 3:
					log.Errorf(n.c, "m%d %s", i, "x")
					src = here()
				}
				for _, s := range sinks {
					text := s.take()
					if s == dflt {
						text = takeStdout()
					}
					calls := s.calls
					s.calls = nil
					what := fmt.Sprintf("%s: %s on context %d", hist, lv, i)
					if s != n.sink {
						if text != "" || len(calls) > 0 {
							x.Failf("wrong-sink", "%s: %s received %q %v, it belongs to %s", what, s.name, text, calls, n.sink.name)
						}
						continue
					}
					if s.fn {
						if len(calls) != 1 || calls[0].level != lv || calls[0].src != src || calls[0].f != "m%d %s" || fmt.Sprint(calls[0].args) != fmt.Sprint([]any{i, "x"}) {
							x.Failf("logfunc", "%s: the log function got %v (src %s)", what, calls, src)
						}
						continue
					}
					if lv < s.level.Level() {
						if text != "" {
							x.Failf("below-level", "%s: wrote %q", what, text)
						}
						continue
					}
					if err := checkLine(text, s.fresh, lv, fmt.Sprintf("m%d x", i), src, n.tags); err != nil {
						x.Failf("line", "%s: %v", what, err)
					}
				}
				for _, h := range helped {
					if h != n.helper {
						x.Failf("helper", "%s: logging on context %d called helper %s", hist, i, h)
					}
				}
				if n.helper != "" && len(helped) == 0 {
					x.Failf("helper", "%s: logging on context %d did not call its helper", hist, i)
				}
			}
		}
		return nil
	}}
}

// here is the source position of the line before the call.
func here() string {
	_, file, line, _ := runtime.Caller(1)
	return fmt.Sprintf("%s:%d", file, line-1)
}

// ---------------------------------------------------------------- arguments

type loggable struct {
	out any
	set map[string]string
}

func (l loggable) LogAs(t *log.Tags) any {
	for k, v := range l.set {
		(*t)[k] = ctx.JSON(v)
	}
	return l.out
}

type ploggable struct{ secret string }

func (l *ploggable) LogAs(*log.Tags) any { return "hidden" }

type valErr struct{ s string }

func (e valErr) Error() string { return e.s }

type ptrErr struct{ s string }

func (e *ptrErr) Error() string { return "ptr:" + e.s }

type secretErr struct{ s string }

func (e secretErr) Error() string       { return e.s }
func (e secretErr) LogAs(*log.Tags) any { return "masked error" }

const secret = "S3CR3T"

type arg struct {
	name string
	v    any
	as   any               // what is printed
	tags map[string]string // tags it sets
	err  string            // the text it contributes to the error tag
}

func args() []arg {
	c := ctx.WithTag(ctx.TODO(), "etag", 1)
	rs := log.RedactedString(secret)
	ce := ctx.NewErrorf(c, "wrapped %w", io.EOF)
	ptrce := ce.(ctx.Error)
	joined, noctx := errors.Join(ce, valErr{"v"}), ctx.WrapError(nil, valErr{"z"})
	sv := "str \"q\"\nnl"
	var nilRS *log.RedactedString
	var nilErr *ptrErr
	var nilVal *valErr
	var nilCE *ctx.Error
	var nilLg *loggable
	return []arg{
		{name: "int", v: 7, as: 7},
		{name: "string", v: sv, as: sv},
		{name: "nil", v: nil, as: nil},
		{name: "redacted", v: rs, as: "***"},
		{name: "*redacted", v: &rs, as: "***"},
		{name: "nil *redacted", v: nilRS, as: nilRS},
		{name: "empty redacted", v: log.RedactedString(""), as: "***"},
		{name: "loggable", v: loggable{out: "shown"}, as: "shown"},
		{name: "loggable nil", v: loggable{out: nil}, as: nil},
		{name: "loggable tags", v: loggable{out: 5, set: map[string]string{"a": "42", "new": `"n"`}}, as: 5, tags: map[string]string{"a": "42", "new": `"n"`}},
		{name: "loggable level tag", v: loggable{out: 5, set: map[string]string{"level": "9"}}, as: 5, tags: map[string]string{"level": "9"}},
		{name: "ptr loggable", v: &ploggable{secret}, as: "hidden"},
		{name: "nil loggable", v: nilLg, as: nilLg},
		{name: "error", v: io.EOF, as: io.EOF, err: "EOF"},
		{name: "ctx error", v: ce, as: ce, err: "wrapped EOF"},
		{name: "*ctx error", v: &ptrce, as: &ptrce, err: "wrapped EOF"},
		{name: "joined", v: joined, as: joined, err: "wrapped EOF\nv"},
		{name: "ctx error without context", v: noctx, as: noctx, err: "z"},
		{name: "nil error pointer", v: nilErr, as: "*"},
		{name: "nil value-error pointer", v: nilVal, as: nilVal},
		{name: "nil *ctx.Error", v: nilCE, as: nilCE},
		{name: "masked error", v: secretErr{secret}, as: "masked error"},
		{name: "masked ctx error", v: error(secretErr{secret}), as: "masked error"},
		{name: "map", v: map[string]int{"a": 1}, as: map[string]int{"a": 1}},
		{name: "struct", v: struct{ A, B any }{1, nil}, as: struct{ A, B any }{1, nil}},
		{name: "bytes", v: []byte("xy"), as: []byte("xy")},
		{name: "ctx.JSON", v: ctx.JSON(`{"a":1}`), as: ctx.JSON(`{"a":1}`)},
	}
}

var formats = []string{"%v", "a %v b", "%v %v", "%v%%%v", "none", "%s", "%[2]v", "%d|%q", "%v %v %v", "", "100%", "%!", "%+v %#v"}

func argsScenario(n int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: fmt.Sprintf("%d arguments", n), MaxBound: -1, AllowLeak: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		as := args()
		f := formats[mcrt.Choose(len(formats))]
		var list []arg
		for i := 0; i < n; i++ {
			list = append(list, as[mcrt.Choose(len(as))])
		}
		s := &sink{fresh: true}
		c := log.WithSlogLogger(ctx.WithTag(ctx.TODO(), "a", "ctx"), s.make())
		in := make([]any, n)
		shown := make([]any, n)
		tags := map[string]string{"a": `"ctx"`}
		hist := fmt.Sprintf("%q", f)
		any1 := false
		var errs []string
		for i, a := range list {
			in[i], shown[i] = a.v, a.as
			hist += " " + a.name
			for k, v := range a.tags {
				tags[k] = v
			}
			if a.as == "*" {
				any1 = true
			}
			if a.err != "" {
				errs = append(errs, a.err)
				tags["error"] = "*"
			}
		}
		keep := append([]any(nil), in...)
		log.Warnf(c, f, in...)
		src := here()
		text := s.take()
		for i := range in {
			if !same(in[i], keep[i]) {
				x.Failf("args-changed", "%s: logging replaced argument %d by %v", hist, i, in[i])
			}
		}
		if strings.Contains(text, secret) {
			x.Failf("secret", "%s: %s", hist, text)
		}
		m, err := parse(text)
		if err != nil {
			x.Failf("line", "%s: %v", hist, err)
			return nil
		}
		msg := fmt.Sprintf(f, shown...)
		if any1 { // text of an error whose method panics is up to fmt
			msg, _ = m["message"].(string)
			t, _ := m["tags"].(map[string]any)
			if t["error"] != nil {
				tags["error"] = "*"
			}
		}
		if f == "%d|%q" || f == "%s" || f == "%+v %#v" {
			// the verbs show the dynamic type; only shape and secrecy matter
			msg, _ = m["message"].(string)
		}
		if err := checkLine(text, true, slog.LevelWarn, msg, src, tags); err != nil {
			x.Failf("content", "%s: %v in %s", hist, err, text)
			return nil
		}
		if len(errs) > 0 && !any1 {
			l, _ := m["tags"].(map[string]any)["error"].([]any)
			var got []string
			for _, e := range l {
				m := e.(map[string]any)
				got = append(got, fmt.Sprint(m["error"]))
				// one that carries a context has its stack and the tags it was created with
				if t := fmt.Sprint(m["error"]); strings.HasPrefix(t, "wrapped EOF") && !strings.Contains(hist, "*ctx error") {
					if st, _ := m["stack"].([]any); len(st) == 0 || fmt.Sprint(m["tags"]) != "map[etag:1]" {
						x.Failf("error-origin", "%s: the error %q is logged with stack %v and tags %v, want a stack and the tags it was created with", hist, t, m["stack"], m["tags"])
					}
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(errs) {
				x.Failf("error-tag", "%s: error tag holds %q, want %q", hist, got, errs)
			}
		}
		return nil
	}}
}

func same(a, b any) bool {
	defer func() { _ = recover() }()
	return reflect.DeepEqual(a, b) && reflect.TypeOf(a) == reflect.TypeOf(b)
}

// tag values of every kind, logged directly and through an error created there
func tagScenario() *mcrt.Scenario {
	return &mcrt.Scenario{Name: "tag names and values", MaxBound: -1, AllowLeak: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		keys := append([]string{"", "a b", "é\"", "tags.x", "stack"}, reserved...)
		vals := []any{"s", "line\nbreak", nil, 1.5, []int{}, map[string]any{"level": 1, "msg": "x"}, []byte("{ \"k\" :\n 1}"), json.RawMessage("[1,\n2]"), make(chan int), json.RawMessage("{bad"), ctx.JSON(""), true, "<&>\u2028"}
		k := keys[mcrt.Choose(len(keys))]
		v := vals[mcrt.Choose(len(vals))]
		lv := levels[mcrt.Choose(4)]
		s := &sink{fresh: true}
		c := ctx.WithTag(log.WithSlogLogger(ctx.TODO(), s.make()), k, v)
		want := "*"
		_ = ctx.RangeTag(c, func(_ string, j ctx.JSON) error {
			if json.Valid(j) {
				want = string(j)
			}
			return nil
		})
		log.Customf(c, lv, "here", "msg")
		if err := checkLine(s.take(), true, lv, "msg", "here", map[string]string{k: want}); err != nil {
			x.Failf("tag-line", "tag %q = %v: %v", k, v, err)
		}
		log.Customf(ctx.WithTag(log.WithSlogLogger(ctx.TODO(), s.make()), "o", 1), lv+1, "", "e %v", ctx.NewErrorf(c, "boom"))
		text := s.take()
		tags := map[string]string{"o": "1", "error": "*"}
		if want == "*" {
			if m, err := parse(text); err == nil && m["tags"].(map[string]any)["error"] == nil {
				delete(tags, "error") // an invalid raw tag can't be shown inside the error
			}
		}
		if err := checkLine(text, true, lv+1, "e boom", "", tags); err != nil {
			x.Failf("tag-error-line", "error from a context with tag %q = %v: %v", k, v, err)
		}
		return nil
	}}
}

// many: many arguments, many tags and long texts, every mix of two kinds of argument.
func manyScenario() *mcrt.Scenario {
	sizes := []int{5, 9, 17, 33, 70, 130}
	return &mcrt.Scenario{Name: "many arguments and tags", MaxBound: -1, AllowLeak: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		as := args()
		n := sizes[mcrt.Choose(len(sizes))]
		a, b := as[mcrt.Choose(len(as))], as[mcrt.Choose(len(as))]
		width := []int{1, 1500, 40000}[mcrt.Choose(3)]
		if a.as == "*" || b.as == "*" {
			return nil
		}
		s := &sink{fresh: true}
		c := log.WithSlogLogger(ctx.TODO(), s.make())
		tags := map[string]string{}
		for i := 0; i < n; i++ {
			c = ctx.WithTag(c, fmt.Sprint("t", i), i)
			tags[fmt.Sprint("t", i)] = fmt.Sprint(i)
			if i%10 == 9 {
				c = log.WithHelper(c, func() {})
			}
		}
		wide := strings.Repeat("x", width-1) + "é"
		c = ctx.WithTag(c, "wide", wide)
		tags["wide"] = fmt.Sprintf("%q", wide)
		var in, shown []any
		nerr := 0
		for i := 0; i < n; i++ {
			z := a
			if i%2 == 1 {
				z = b
			}
			in, shown = append(in, z.v), append(shown, z.as)
			for k, v := range z.tags {
				tags[k] = v
			}
			if z.err != "" {
				nerr++
				tags["error"] = "*"
			}
		}
		f := wide + strings.Repeat(" %v", n)
		what := fmt.Sprintf("%d arguments %s and %s, %d tags, a text of %d", n, a.name, b.name, n+1, width)
		log.Errorf(c, f, in...)
		src := here()
		text := s.take()
		if strings.Contains(text, secret) {
			x.Failf("many/secret", "%s: %.300s", what, text)
		}
		if err := checkLine(text, true, slog.LevelError, fmt.Sprintf(f, shown...), src, tags); err != nil {
			x.Failf("many/content", "%s: %.300s", what, err)
			return nil
		}
		m, _ := parse(text)
		if l, _ := m["tags"].(map[string]any)["error"].([]any); len(l) != nerr {
			x.Failf("many/errors", "%s: the error tag holds %d errors, %d were given", what, len(l), nerr)
		}
		return nil
	}}
}

// ---------------------------------------------------------------- concurrency

func concurrent(name string, warm bool, fs ...func(c ctx.C, s *sink, x *mcrt.X, i int)) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		s := &sink{fresh: true}
		c := ctx.WithTag(log.WithSlogLogger(ctx.TODO(), s.make()), "root", 1)
		var wg sync.WaitGroup
		for i, f := range fs {
			i, f := i, f
			wg.Add(1)
			go func() { defer wg.Done(); f(c, s, x, i) }()
		}
		wg.Wait()
		// every line is whole
		for _, l := range strings.SplitAfter(s.take(), "\n") {
			if l == "" {
				continue
			}
			if _, err := parse(l); err != nil {
				x.Failf("torn", "%v", err)
			}
		}
		log.Infof(c, "end")
		if err := checkLine(s.take(), true, slog.LevelInfo, "end", "*", map[string]string{"root": "1"}); err != nil {
			x.Failf("after", "after concurrent use the root context logs: %v", err)
		}
		return nil
	}}
}

func scenarios() []*mcrt.Scenario {
	if stdout == nil && os.Getenv("MC_WORKER") != "" {
		f, err := os.CreateTemp("", "stdout")
		if err != nil {
			panic(err)
		}
		stdout, os.Stdout = f, f
	} else if stdout == nil {
		stdout, _ = os.CreateTemp("", "stdout")
	}
	out := []*mcrt.Scenario{
		tree("trees of 4", 4, nKinds),
		tree("trees of 5, few kinds", 5, kFresh),
		argsScenario(0), argsScenario(1), argsScenario(2), tagScenario(), manyScenario(),
	}
	if mc.Thorough() {
		out = append(out, tree("trees of 5", 5, nKinds), argsScenario(3))
	}
	logIt := func(c ctx.C, s *sink, x *mcrt.X, i int) {
		log.Infof(c, "g%d %v", i, log.RedactedString(secret))
		log.Errorf(ctx.WithTag(c, "mine", i), "g%d %v", i, ctx.NewErrorf(c, "e%d", i))
	}
	derive := func(c ctx.C, s *sink, x *mcrt.X, i int) {
		mine := &sink{name: "mine", level: slog.LevelDebug}
		d := log.WithSlogLogger(c, mine.make())
		log.Infof(d, "own %d", i)
		if m, err := parse(mine.take()); err != nil || m["msg"] != fmt.Sprintf("own %d", i) {
			x.Failf("derived", "a logger installed on a derived context got %v %v", m, err)
		}
	}
	helper := func(c ctx.C, s *sink, x *mcrt.X, i int) {
		n := 0
		d := log.WithHelper(c, func() { n++ })
		log.Infof(d, "own %d", i)
		if n == 0 {
			x.Failf("helper", "helper not called")
		}
	}
	shared := []any{log.RedactedString(secret), 1}
	sharedArgs := func(c ctx.C, s *sink, x *mcrt.X, i int) { log.Infof(c, "%v %v", shared...) }
	setLevel := func(c ctx.C, s *sink, x *mcrt.X, i int) {
		log.SetDefaultLoggerLevel(slog.LevelWarn)
		log.SetDefaultLoggerLevel(slog.LevelDebug)
	}
	out = append(out,
		concurrent("log | log", false, logIt, logIt),
		concurrent("log | derive a logger", false, logIt, derive),
		concurrent("derive | derive", false, derive, derive),
		concurrent("helper | derive | log", false, helper, derive, logIt),
		concurrent("helper | helper", false, helper, helper),
		concurrent("same argument slice", false, sharedArgs, sharedArgs),
		concurrent("log | level", false, logIt, setLevel, logIt),
	)
	_ = context.Background
	return out
}

func main() {
	mc.Main("C10", mc.Options{
		QuickBound: 3, ThoroughBound: 6,
		Rule:   "every tree of up to 3 derived contexts (tags, loggers, functions, helpers, levels), every level logged on every context and every sink inspected; every pair of argument kinds under 13 formats, and in turn up to 130 times with as many tags and texts up to 40 kB; every tag name and value kind; all schedules of concurrent loggers up to the preemption bound",
		Assume: []string{"log/slog's JSON handler is correct", "a scheduling point inside the standard library's slog handler is not explored (its own lock protects the writer)"},
	}, scenarios)
}
