// C27: the text of the metrics page against a strict reader of the exposition format and a reference accumulator.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http/httptest"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/Aize-Public/forego/utils/prom"
	"verif.local/mc/lib/promtext"
	"verif.local/mc/lib/vk"
)

var letters = []string{"a", "n", `"`, `\`, "\n", "\r", "\t", "\x00", "\x7f", " ", ",", "=", "{", "}", "#", "é", "\u2028", "\ufeff", "😀", "\xff", "\xc3"}

// the i-th string of up to max letters
func strs(max int) (n int64, at func(i int64) string) {
	k := int64(len(letters))
	p := int64(1)
	for l := 0; l <= max; l++ {
		n += p
		p *= k
	}
	return n, func(i int64) string {
		p := int64(1)
		l := 0
		for i >= p {
			i -= p
			p *= k
			l++
		}
		s := ""
		for ; l > 0; l-- {
			s += letters[i%k]
			i /= k
		}
		return s
	}
}

// a metric of any type
type inst struct {
	observe func(v float64, l ...string)
	print   func(w io.Writer) error
	suffix  string // of the sample that has the sum of the values
}

var kinds = map[string]func(help string, labels []string) inst{
	"counter": func(help string, labels []string) inst {
		m := &prom.Counter{Name: "m", Desc: help, Labels: labels}
		return inst{m.Observe, m.Print, ""}
	},
	"gauge-flagged counter": func(help string, labels []string) inst {
		m := &prom.Counter{Name: "m", Desc: help, Labels: labels, Gauge: true}
		return inst{m.Observe, m.Print, ""}
	},
	"gauge": func(help string, labels []string) inst {
		m := &prom.Gauge{Desc: help, Labels: labels}
		return inst{func(v float64, l ...string) { m.SetFunc(func() float64 { return v }, l...) }, func(w io.Writer) error { return m.Print("m", w) }, ""}
	},
	"counting gauge": func(help string, labels []string) inst {
		m := &prom.Gauge{Desc: help, Labels: labels}
		return inst{func(v float64, l ...string) { m.Counter(l...).Inc(int(v)) }, func(w io.Writer) error { return m.Print("m", w) }, ""}
	},
	"histogram": func(help string, labels []string) inst {
		m := &prom.Histogram{Desc: help, Labels: labels, Buckets: []float64{1, 2.5}}
		return inst{m.Observe, func(w io.Writer) error { return m.Print("m", w) }, "_sum"}
	},
}

var names []string

func typeOf(k string) string {
	switch k {
	case "counter", "histogram":
		return k
	}
	return "gauge"
}

func parse(print func(w io.Writer) error) (fams []*promtext.Family, page string, err error) {
	var w bytes.Buffer
	err = vk.Catch(func() error { return print(&w) })
	if err != nil {
		return nil, w.String(), err
	}
	fams, err = promtext.Parse(w.String())
	return fams, w.String(), err
}

func same(a, b float64) bool { return a == b || a != a && b != b }

func help(s string) string { return strings.TrimLeft(s, " \t") }

// one family named m of that type and help
func family(fams []*promtext.Family, typ, desc string) error {
	if len(fams) != 1 {
		return fmt.Errorf("%d families", len(fams))
	}
	f := fams[0]
	if f.Name != "m" || f.Type != typ {
		return fmt.Errorf("family %s of type %s", f.Name, f.Type)
	}
	if utf8.ValidString(desc) && help(f.Help) != help(desc) {
		return fmt.Errorf("help reads %q", f.Help)
	}
	return nil
}

func labelValues(k *vk.Check) {
	n, at := strs(k.Pick(4, 5))
	k.Set("label values and help texts", n)
	k.Par(n, func(w *vk.Worker, i int64) {
		v := at(i)
		for _, kn := range names {
			w.Note(fmt.Sprintf("%s label %q", kn, v))
			m := kinds[kn](v, []string{"l"})
			m.observe(3, v)
			fams, page, err := parse(m.print)
			if err == nil {
				err = family(fams, typeOf(kn), v)
			}
			if err == nil && utf8.ValidString(v) {
				for _, s := range fams[0].Samples {
					if got, ok := s.Labels["l"]; !ok || got != v {
						err = fmt.Errorf("label reads %q", got)
					}
				}
			}
			w.Ev += 1
			if err != nil {
				w.Violate("label/"+kn, fmt.Sprintf("%s with label value and help %q: %v in %q", kn, v, err, page), map[string]string{"kind": kn, "value": fmt.Sprintf("%q", v)})
				continue
			}
			w.Nt += 1
			w.Out("label " + kn)
		}
	})
}

// many label sets in one metric: each is one series with its own values
func labelSets(k *vk.Check) {
	n, at := strs(k.Pick(2, 2))
	var all []string
	for i := int64(0); i < n; i++ {
		if s := at(i); utf8.ValidString(s) {
			all = append(all, s)
		}
	}
	type pair [2]string
	var pairs []pair
	for _, a := range all {
		for _, b := range all {
			if len(a)+len(b) <= k.Pick(4, 8) {
				pairs = append(pairs, pair{a, b})
			}
		}
	}
	k.Set("label pairs in one metric", len(pairs))
	k.Par(int64(len(names)), func(w *vk.Worker, i int64) {
		kn := names[i]
		m := kinds[kn]("", []string{"x", "y"})
		want := map[pair]float64{}
		for j, p := range pairs {
			m.observe(float64(j), p[0], p[1])
			if kn == "gauge" {
				want[p] = float64(j)
			} else {
				want[p] += float64(j)
			}
		}
		fams, _, err := parse(m.print)
		if err == nil {
			err = family(fams, typeOf(kn), "")
		}
		w.Ev += int64(len(pairs))
		if err != nil {
			w.Violate("sets/"+kn, fmt.Sprintf("%s with %d label pairs: %v", kn, len(pairs), err), kn)
			return
		}
		seen := 0
		for _, s := range fams[0].Samples {
			if s.Name == "m"+m.suffix {
				p := pair{s.Labels["x"], s.Labels["y"]}
				if v, ok := want[p]; !ok || v != s.Value {
					w.Violate("sets/"+kn, fmt.Sprintf("%s: label pair %q shows %v, not %v (%v)", kn, p, s.Value, v, ok), kn)
					return
				}
				seen++
			}
		}
		if seen != len(want) {
			w.Violate("sets/"+kn, fmt.Sprintf("%s: %d series of %d", kn, seen, len(want)), kn)
		}
		w.Nt += int64(seen)
		w.Out("sets " + kn)
	})
}

var values = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 0.2, 1.0 / 3, 1e-9, 5e-324, 2.5, 1e6, 123456789.125, 1 << 53, 1<<53 + 2, 1e21, 1e300, math.MaxFloat64, math.NaN(), math.Inf(1), math.Inf(-1)}

var bucketLists = [][]float64{nil, {1}, {0.1, 1, 2.5}, {-1, 0, 1e-9, 1e21}, {math.Inf(-1), 0}, {0.3, 1, math.Inf(1)}, {math.Inf(1)}, {5e-324, 1.0 / 3, math.MaxFloat64}, {1e-5, 1e5, 1e6, 100000.5}}

// every sequence of values up to a length
func sequences(k *vk.Check) {
	max := k.Pick(4, 5)
	nv := int64(len(values))
	total, p := int64(0), int64(1)
	for l := 0; l <= max; l++ {
		total += p
		p *= nv
	}
	k.Set("observation sequences", total)
	k.Par(total, func(w *vk.Worker, i int64) {
		p, l := int64(1), 0
		for i >= p {
			i -= p
			p *= nv
			l++
		}
		var seq []float64
		for ; l > 0; l-- {
			seq = append(seq, values[i%nv])
			i /= nv
		}
		sum := 0.0
		for _, v := range seq {
			sum += v
		}
		w.Note(fmt.Sprint(seq))
		for _, labels := range [][]string{nil, {"l"}} {
			bad := func(what string, page string, f string, a ...any) {
				w.Violate("sequence/"+what, fmt.Sprintf("%s of %v, labels %v: %s in %q", what, seq, labels, fmt.Sprintf(f, a...), page), fmt.Sprint(seq))
			}
			for _, kn := range []string{"counter", "gauge-flagged counter"} {
				m := kinds[kn]("h", labels)
				for _, v := range seq {
					m.observe(v, labels...)
				}
				fams, page, err := parse(m.print)
				w.Ev += 1
				switch {
				case err != nil:
					bad(kn, page, "%v", err)
				case len(seq) == 0:
					if len(fams) > 1 || len(fams) == 1 && len(fams[0].Samples) > 0 {
						bad(kn, page, "samples of nothing")
					}
				default:
					if err := family(fams, typeOf(kn), "h"); err != nil {
						bad(kn, page, "%v", err)
					} else if len(fams[0].Samples) != 1 || !same(fams[0].Samples[0].Value, sum) {
						bad(kn, page, "not %v", sum)
					}
					w.Nt += 1
				}
			}
			for bi, bs := range bucketLists {
				m := &prom.Histogram{Desc: "h", Labels: labels, Buckets: bs}
				for _, v := range seq {
					m.Observe(v, labels...)
				}
				fams, page, err := parse(func(w io.Writer) error { return m.Print("m", w) })
				w.Ev += 1
				if err != nil {
					bad("histogram", page, "buckets %v: %v", bs, err)
					continue
				}
				if len(seq) == 0 {
					if len(fams) > 1 || len(fams) == 1 && len(fams[0].Samples) > 0 {
						bad("histogram", page, "samples of nothing")
					}
					continue
				}
				if err := family(fams, "histogram", "h"); err != nil {
					bad("histogram", page, "%v", err)
					continue
				}
				w.Nt += 1
				w.Out(fmt.Sprint("histogram ", bi, " ", len(seq)))
				want := map[string]float64{"m_sum": sum, "m_count": float64(len(seq))}
				les := append([]float64{}, bs...)
				if len(les) == 0 || !math.IsInf(les[len(les)-1], 1) {
					les = append(les, math.Inf(1))
				}
				for _, le := range les {
					n := 0
					for _, v := range seq {
						if v <= le || math.IsInf(le, 1) { // the last bucket has everything
							n++
						}
					}
					want[fmt.Sprint("m_bucket", le)] = float64(n)
				}
				got := map[string]float64{}
				var order []float64
				for _, s := range fams[0].Samples {
					name := s.Name
					if s.Name == "m_bucket" {
						le, err := promtext.Number(s.Labels["le"])
						if err != nil {
							bad("histogram", page, "%v", err)
						}
						name += fmt.Sprint(le)
						order = append(order, le)
					} else if _, ok := s.Labels["le"]; ok {
						bad("histogram", page, "%s has a bound", s.Name)
					}
					got[name] = s.Value
				}
				ok := len(got) == len(want) && len(fams[0].Samples) == len(want)
				for n, v := range want {
					g, has := got[n]
					ok = ok && has && same(g, v)
				}
				if !ok {
					bad("histogram", page, "buckets %v: %v, not %v", bs, got, want)
				}
				if sort.Float64sAreSorted(bs) && !sort.Float64sAreSorted(order) {
					bad("histogram", page, "buckets are not in order")
				}
			}
		}
	})
}

// every sequence of changes to a gauge
func gauges(k *vk.Check) {
	depth := k.Pick(6, 7)
	type op struct {
		name string
		do   func(g *prom.Gauge, want map[string]float64)
	}
	var ops []op
	for _, l := range []string{"x", "y"} {
		l := l
		for i, v := range []float64{0.5, math.NaN(), math.Inf(-1)} {
			v := v
			if l == "y" && i > 0 {
				continue
			}
			ops = append(ops, op{fmt.Sprintf("SetFunc(%v,%s)", v, l), func(g *prom.Gauge, want map[string]float64) {
				g.SetFunc(func() float64 { return v }, l)
				want[l] = v
				delete(want, "#"+l)
			}})
		}
		ops = append(ops, op{"SetFunc(nil," + l + ")", func(g *prom.Gauge, want map[string]float64) {
			g.SetFunc(nil, l)
			delete(want, l)
			delete(want, "#"+l)
		}})
		for _, d := range []int{5, -7, 1 << 40} {
			d := d
			if l == "y" && d != 5 {
				continue
			}
			ops = append(ops, op{fmt.Sprintf("Counter(%s).Inc(%d)", l, d), func(g *prom.Gauge, want map[string]float64) {
				_, is := want["#"+l]
				_, has := want[l]
				if has && !is {
					return // documented to panic
				}
				if d > 0 {
					g.Counter(l).Inc(d)
				} else {
					g.Counter(l).Dec(-d)
				}
				want[l] += float64(d)
				want["#"+l] = 1
			}})
		}
	}
	n := int64(1)
	for i := 0; i < depth; i++ {
		n *= int64(len(ops))
	}
	k.Set("gauge histories", n)
	k.Par(n, func(w *vk.Worker, i int64) {
		g := &prom.Gauge{Labels: []string{"l"}, Desc: "h"}
		want := map[string]float64{}
		hist := ""
		err := vk.Catch(func() error {
			for j := 0; j < depth; j++ {
				o := ops[i%int64(len(ops))]
				i /= int64(len(ops))
				hist += o.name + "; "
				o.do(g, want)
			}
			return nil
		})
		var page string
		var fams []*promtext.Family
		if err == nil {
			fams, page, err = parse(func(w io.Writer) error { return g.Print("m", w) })
		}
		w.Ev += 1
		got := map[string]float64{}
		for _, f := range fams {
			if e := family(fams, "gauge", "h"); e != nil && err == nil {
				err = e
			}
			for _, s := range f.Samples {
				got[s.Labels["l"]] = s.Value
			}
		}
		delete(want, "#x")
		delete(want, "#y")
		ok := len(got) == len(want)
		for l, v := range want {
			g, has := got[l]
			ok = ok && has && same(g, v)
		}
		if err != nil || !ok {
			w.Violate("gauge", fmt.Sprintf("gauge after %s: %v, not %v: %v in %q", hist, got, want, err, page), hist)
			return
		}
		w.Nt += 1
		w.Out(fmt.Sprint("gauge ", len(want)))
	})
}

// custom metrics: every subset of a set of samples, in every type
func customs(k *vk.Check) {
	type sample struct {
		key string
		val any
	}
	all := []sample{
		{"m", 1}, {`m{l="a"}`, 0.1}, {`m{l="b",k="c"}`, math.NaN()}, {"m_sum", math.Inf(-1)}, {"m_count", uint64(math.MaxUint64)},
		{`m{l="é"}`, int64(math.MinInt64)}, {`m{quantile="0.5"}`, float32(0.25)}, {`m{l="\n"}`, 1e300}, {`m_bucket{le="+Inf"}`, 7},
	}
	types := []string{"summary", "gauge", "counter", "histogram", "untyped", ""}
	n := int64(1<<len(all)) * int64(len(types))
	k.Set("custom metrics", n)
	k.Par(n, func(w *vk.Worker, i int64) {
		typ := types[i%int64(len(types))]
		mask := i / int64(len(types))
		m := map[string]any{}
		want := []float64{}
		for j, s := range all {
			hist := strings.HasPrefix(s.key, "m_bucket")
			sums := s.key == "m_sum" || s.key == "m_count"
			if hist && typ != "histogram" || sums && typ != "histogram" && typ != "summary" || !hist && !sums && typ == "histogram" {
				continue // not a sample of such a family
			}
			if mask&(1<<j) != 0 {
				m[s.key] = s.val
				rv := reflect.ValueOf(s.val)
				switch {
				case rv.CanInt():
					want = append(want, float64(rv.Int()))
				case rv.CanUint():
					want = append(want, float64(rv.Uint()))
				default:
					want = append(want, rv.Float())
				}
			}
		}
		for _, desc := range []string{"", "h", "a\nb\\"} {
			c := prom.Custom{Desc: desc, Type: typ, Func: func() map[string]any { return m }}
			fams, page, err := parse(func(w io.Writer) error { return c.Print("m", w) })
			w.Ev += 1
			if err == nil && len(m) > 0 {
				t := typ
				if t == "" {
					t = "untyped"
				}
				err = family(fams, t, desc)
			}
			var got []float64
			for _, f := range fams {
				for _, s := range f.Samples {
					got = append(got, s.Value)
				}
			}
			sort.Float64s(got)
			sort.Float64s(want)
			ok := len(got) == len(want)
			for i := range want {
				ok = ok && same(got[i], want[i])
			}
			if err != nil || !ok {
				w.Violate("custom", fmt.Sprintf("custom %s %v: %v in %q, values %v", typ, m, err, page, want), fmt.Sprint(typ, m))
				continue
			}
			w.Nt += 1
		}
		w.Out("custom " + typ)
	})
}

// the number of label values has to be that of the names, and a refused observation leaves nothing behind
func arity(k *vk.Check) {
	w := k.NewWorker(0)
	defer w.Flush()
	ls := []string{"a", "b", "c"}
	for _, kn := range names {
		for n := 0; n <= 3; n++ {
			for v := 0; v <= 3; v++ {
				m := kinds[kn]("", ls[:n])
				m.observe(1, ls[:n]...)
				_, before, _ := parse(m.print)
				err := vk.Catch(func() error { m.observe(5, ls[:v]...); return nil })
				_, p := vk.IsPanic(err)
				_, after, perr := parse(m.print)
				w.Ev += 1
				if p != (n != v) || perr != nil || p && before != after {
					w.Violate("arity/"+kn, fmt.Sprintf("%s of %d labels, %d values: %v; page %q then %q %v", kn, n, v, err, before, after, perr), fmt.Sprint(kn, n, v))
				}
				w.Nt += 1
				w.Out(fmt.Sprint("arity ", p))
			}
		}
	}
}

type failing struct {
	n    int
	fail error
	once bool // only one write fails, the following ones don't
}

func (f *failing) Write(b []byte) (int, error) {
	if f.n == 0 {
		if f.once {
			f.n = 1 << 30
		}
		return 0, f.fail
	}
	f.n--
	return len(b), nil
}

// a page that can't be written is an error, wherever it breaks
func writers(k *vk.Check) {
	w := k.NewWorker(0)
	defer w.Flush()
	check := func(what string, print func(w io.Writer) error) {
		for n := 0; ; n++ {
			f := &failing{n: n, fail: errors.New("disk full")}
			err := vk.Catch(func() error { return print(f) })
			w.Ev += 1
			if f.n > 0 {
				if err != nil {
					w.Violate("writer/"+what, fmt.Sprintf("%s: %v", what, err), what)
				}
				return
			}
			w.Nt += 1
			// n writes were enough exactly when a further one is not attempted
			g := &failing{n: n + 1, fail: errors.New("disk full")}
			_ = vk.Catch(func() error { return print(g) })
			if g.n == 1 {
				if err != nil {
					w.Violate("writer/"+what, fmt.Sprintf("%s: %v", what, err), what)
				}
				return
			}
			if !errors.Is(err, f.fail) {
				w.Violate("writer/"+what, fmt.Sprintf("%s: write %d fails, the error is %v", what, n+1, err), what)
			}
			// nor is the loss forgotten when the writes after it go through
			o := &failing{n: n, fail: errors.New("disk busy"), once: true}
			if err := vk.Catch(func() error { return print(o) }); !errors.Is(err, o.fail) {
				w.Violate("writer/once/"+what, fmt.Sprintf("%s: only write %d fails, the error is %v", what, n+1, err), what)
			}
			w.Out("writer")
		}
	}
	for _, kn := range names {
		for _, labels := range [][]string{nil, {"a"}} {
			m := kinds[kn]("h", labels)
			m.observe(1, labels...)
			check(fmt.Sprint(kn, labels), m.print)
		}
	}
	c := prom.Custom{Type: "gauge", Func: func() map[string]any { return map[string]any{"m": 1, `m{l="a"}`: 2} }}
	check("custom", func(w io.Writer) error { return c.Print("m", w) })
}

// the metrics of the runtime, which the package registers itself, against the runtime
func builtin(k *vk.Check) {
	w := k.NewWorker(0)
	defer w.Flush()
	for n := 0; n < 12; n++ { // as many collections as make all quantiles differ
		old := debug.SetGCPercent(-1) // and none while it is looked at
		for i := 0; i <= n; i++ {
			runtime.GC()
		}
		var gc debug.GCStats
		gc.PauseQuantiles = make([]time.Duration, 5)
		debug.ReadGCStats(&gc)
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		g0 := runtime.NumGoroutine()
		pages := map[string]string{}
		err := prom.Range(func(name string, m prom.Metric) error {
			var b bytes.Buffer
			err := m.Print(name, &b)
			pages[name] = b.String()
			return err
		})
		runtime.ReadMemStats(&m1)
		debug.SetGCPercent(old)
		w.Ev++
		if err != nil {
			w.Violate("builtin", err.Error(), n)
			continue
		}
		value := func(name, suffix, typ string, labels map[string]string) (v float64) {
			fs, err := promtext.Parse(pages[name])
			if err != nil || len(fs) != 1 || fs[0].Name != name || fs[0].Type != typ {
				w.Violate("builtin/"+name, fmt.Sprintf("%q: %v", pages[name], err), name)
				return math.NaN()
			}
			for _, s := range fs[0].Samples {
				if s.Name == name+suffix && len(s.Labels) == len(labels) && (len(labels) == 0 || reflect.DeepEqual(s.Labels, labels)) {
					w.Nt++
					return s.Value
				}
			}
			w.Violate("builtin/"+name, fmt.Sprintf("no %s%s%v in %q", name, suffix, labels, pages[name]), name)
			return math.NaN()
		}
		expect := func(what string, got, lo, hi float64) {
			if !(got >= lo && got <= hi) {
				w.Violate("builtin/"+what, fmt.Sprintf("%s is %v, not within %v and %v", what, got, lo, hi), n)
			}
		}
		is := func(what string, got, want float64) { expect(what, got, want, want) }
		is("go_info", value("go_info", "", "gauge", map[string]string{"version": runtime.Version()}), 1)
		expect("go_routines", value("go_routines", "", "gauge", nil), float64(g0-2), float64(g0+2))
		expect("go_memstats_alloc_bytes", value("go_memstats_alloc_bytes", "", "gauge", nil), float64(m0.Alloc), float64(m1.Alloc))
		d := "go_gc_duration_seconds"
		is(d+"_count", value(d, "_count", "summary", nil), float64(gc.NumGC))
		is(d+"_sum", value(d, "_sum", "summary", nil), gc.PauseTotal.Seconds())
		for i, q := range []string{"0", "0.25", "0.5", "0.75", "1"} {
			is(d+" "+q, value(d, "", "summary", map[string]string{"quantile": q}), gc.PauseQuantiles[i].Seconds())
		}
		w.Out("builtin")
	}
}

// metrics of every type registered one after another, the page served after each
func pages(k *vk.Check) {
	w := k.NewWorker(0)
	defer w.Flush()
	type reg struct {
		name string
		typ  string
		n    int // samples
		do   func(name string)
	}
	var regs []reg
	for i, l := range letters {
		l := l
		for _, r := range []reg{
			{"h", "histogram", 8, func(name string) {
				m := prom.Register(name, &prom.Histogram{Desc: l, Labels: []string{"l"}, Buckets: []float64{1, 2}})
				m.Observe(0.1, l)
				m.ObserveSince(time.Now().Add(-time.Second*3), l)
				m.Observe(7, "other")
				m.ObserveSince(time.Now(), l)
				m.Observe(5, l)
				m.Observe(1.5, l)
			}},
			{"g", "gauge", 2, func(name string) {
				m := prom.Register(name, &prom.Gauge{Desc: l, Labels: []string{"l"}})
				m.SetFunc(func() float64 { return 3 }, l)
				m.Counter("other").Inc(2)
			}},
			{"e", "", 0, func(name string) { prom.Register(name, &prom.Gauge{Desc: l}) }},
			{"f", "", 0, func(name string) { prom.Register(name, &prom.Histogram{Desc: l}) }},
			{"c", "summary", 1, func(name string) {
				prom.Register(name, &prom.Custom{Desc: l, Type: "summary", Func: func() map[string]any { return map[string]any{name + "_count": 4} }})
			}},
		} {
			if l == "\xff" || l == "\xc3" {
				r.n = -1
			}
			r.name = fmt.Sprint(r.name, i)
			regs = append(regs, r)
		}
	}
	std := map[string]bool{"go_routines": true, "go_info": true, "go_memstats_alloc_bytes": true, "go_gc_duration_seconds": true}
	for i, r := range regs {
		r.do(r.name)
		if _, p := vk.IsPanic(vk.Catch(func() error { prom.Register(r.name, &prom.Gauge{}).SetFunc(func() float64 { return -1 }); return nil })); !p {
			w.Violate("duplicate", "the name of another metric is accepted", r.name)
		}
		rec := httptest.NewRecorder()
		err := vk.Catch(func() error { prom.Handler()(rec, httptest.NewRequest("GET", "/metrics", nil)); return nil })
		w.Ev += 1
		res := rec.Result()
		if err != nil || res.StatusCode != 200 || !strings.HasPrefix(res.Header.Get("Content-Type"), "text/plain") {
			w.Violate("page", fmt.Sprintf("page of %d metrics: %v, status %d, %s", i+1, err, res.StatusCode, res.Header.Get("Content-Type")), r.name)
			return
		}
		fams, err := promtext.Parse(rec.Body.String())
		if err != nil {
			w.Violate("page", fmt.Sprintf("page of %d metrics: %v", i+1, err), r.name)
			return
		}
		got := map[string]*promtext.Family{}
		for _, f := range fams {
			got[f.Name] = f
			delete(std, f.Name)
		}
		for _, q := range regs[:i+1] {
			f := got[q.name]
			if f == nil {
				if q.typ != "" {
					w.Violate("page", fmt.Sprintf("%s is not on the page", q.name), q.name)
				}
				continue
			}
			if q.typ == "" && len(f.Samples) > 0 || q.typ != "" && f.Type != q.typ || q.n >= 0 && len(f.Samples) != q.n {
				if !(q.typ == "histogram" && len(f.Samples) == 10) {
					w.Violate("page", fmt.Sprintf("%s is %s of %d samples", q.name, f.Type, len(f.Samples)), q.name)
				}
			}
			if q.typ == "histogram" && q.n >= 0 {
				for _, s := range f.Samples {
					if s.Name == q.name+"_count" {
						want := 5.0
						if s.Labels["l"] == "other" {
							want = 1
						}
						if s.Value != want {
							w.Violate("page", fmt.Sprintf("%s counts %v", q.name, s.Value), q.name)
						}
					}
					if s.Labels["le"] == "2" && s.Labels["l"] != "other" && s.Value != 3 {
						w.Violate("since", fmt.Sprintf("%s: %v observations up to 2 of 0.1, 3 s ago, now, 5 and 1.5", q.name, s.Value), q.name)
					}
				}
			}
		}
		w.Nt += 1
		w.Out("page")
	}
	if len(std) > 0 {
		w.Violate("standard", fmt.Sprintf("not on the page: %v", std), "std")
	}
	k.Set("pages", len(regs))
}

// large: many buckets (sorted, reversed, shuffled, the default ones), many labels, long texts, many observations
func large(k *vk.Check) {
	n := 0
	for _, size := range []int{2, 9, 17, 33, 70, 130, 300} {
		for form := 0; form < 4; form++ {
			bs := make([]float64, size)
			for i := range bs {
				j := i
				switch form {
				case 1:
					j = size - 1 - i
				case 2:
					j = i * 7 % size // a permutation: 7 divides none of the sizes but 70
					if size%7 == 0 {
						j = i * 11 % size
					}
				}
				bs[i] = float64(j) * 0.1
			}
			if form == 3 {
				bs = prom.DefaultBuckets
			}
			for nl := 0; nl <= 12; nl += 3 {
				var names, vals []string
				for i := 0; i < nl; i++ {
					names, vals = append(names, fmt.Sprint("l", i)), append(vals, strings.Repeat(fmt.Sprint("v\"", i), size))
				}
				m := &prom.Histogram{Desc: strings.Repeat("h\n", size), Labels: names, Buckets: bs}
				c := &prom.Counter{Name: "m", Desc: "h", Labels: names}
				sum, counts, total := 0.0, make([]int, len(bs)), 0
				for i := 0; i < 5*size; i++ {
					v := float64(i*i%(size+1)) * 0.1
					if i%3 == 0 {
						v += 0.05
					}
					m.Observe(v, vals...)
					c.Observe(v, vals...)
					sum += v
					total++
					for b, le := range bs {
						if v <= le {
							counts[b]++
						}
					}
				}
				what := fmt.Sprintf("%d buckets (form %d), %d labels, %d observations", len(bs), form, nl, total)
				n++
				fams, page, err := parse(func(w io.Writer) error { return m.Print("m", w) })
				if err == nil {
					err = family(fams, "histogram", strings.Repeat("h\n", size))
				}
				if err != nil {
					k.Violate("large", fmt.Sprintf("%s: %v in %.300q", what, err, page), what)
					continue
				}
				got := map[string]float64{}
				for _, s := range fams[0].Samples {
					name := s.Name
					if le, ok := s.Labels["le"]; ok {
						f, err := promtext.Number(le)
						if err != nil {
							k.Violate("large", fmt.Sprintf("%s: %v", what, err), what)
						}
						name += fmt.Sprint(f)
					}
					for i := range names {
						if s.Labels[names[i]] != vals[i] {
							k.Violate("large", fmt.Sprintf("%s: label %s reads %.100q", what, names[i], s.Labels[names[i]]), what)
						}
					}
					got[name] = s.Value
				}
				want := map[string]float64{"m_sum": sum, "m_count": float64(total), "m_bucket+Inf": float64(total)}
				for b, le := range bs {
					want[fmt.Sprint("m_bucket", le)] = float64(counts[b])
				}
				if len(got) != len(fams[0].Samples) || fmt.Sprint(got) != fmt.Sprint(want) {
					k.Violate("large", fmt.Sprintf("%s: %.400s, not %.400s", what, fmt.Sprint(got), fmt.Sprint(want)), what)
				}
				fams, page, err = parse(c.Print)
				if err != nil || family(fams, "counter", "h") != nil || len(fams[0].Samples) != 1 || fams[0].Samples[0].Value != sum || len(fams[0].Samples[0].Labels) != nl {
					k.Violate("large", fmt.Sprintf("%s, as a counter: %v in %.300q, not %v", what, err, page, sum), what)
				}
			}
		}
	}
	// timed observations
	for _, labels := range [][]string{nil, {"l"}} {
		m := &prom.Histogram{Desc: "h", Labels: labels, Buckets: []float64{0.5, 99, 101, 1e6}}
		start := time.Now()
		m.ObserveSince(start, labels...)
		m.ObserveSince(start.Add(-100*time.Second), labels...)
		spent := time.Since(start).Seconds()
		n++
		fams, page, err := parse(func(w io.Writer) error { return m.Print("m", w) })
		if err == nil {
			err = family(fams, "histogram", "h")
		}
		if err != nil {
			k.Violate("since", fmt.Sprintf("%v in %q", err, page), labels)
			continue
		}
		if spent > 0.4 {
			continue // a very slow machine
		}
		want := map[string]float64{"0.5": 1, "99": 1, "101": 2, "1e+06": 2, "+Inf": 2}
		for _, s := range fams[0].Samples {
			ok := true
			switch s.Name {
			case "m_bucket":
				ok = want[s.Labels["le"]] == s.Value
			case "m_count":
				ok = s.Value == 2
			case "m_sum":
				ok = s.Value >= 100 && s.Value <= 100+2*spent
			}
			if !ok {
				k.Violate("since", fmt.Sprintf("an observation of 0s and one of 100s: %q", page), labels)
			}
		}
	}
	k.Set("large metrics", n)
	k.Evals(int64(n))
}

func main() {
	for n := range kinds {
		names = append(names, n)
	}
	sort.Strings(names)
	vk.Main("C27", "exploration", func(k *vk.Check) {
		k.Rule("every string up to the length bound over an alphabet of awkward characters as label value and as help text of every type of metric; every pair of short label values in one metric; every sequence of observations over boundary values on counters and on histograms of several bucket lists; every history of changes of a gauge to the depth bound; every subset of a set of custom samples; every count of labels; every failing write; up to 300 buckets in four orders, 12 labels and 1500 observations; pages of one to a hundred registered metrics")
		k.Assume("names of metrics and labels, and the text of custom samples, are valid: they are the program's own", "text that is not UTF-8 can't be shown as it is in this format: the page has to be valid, that label may read differently")
		labelValues(k)
		labelSets(k)
		sequences(k)
		gauges(k)
		customs(k)
		arity(k)
		writers(k)
		builtin(k)
		large(k)
		pages(k)
	})
}
