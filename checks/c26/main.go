// C26: metrics under every schedule of observers and scrapers.  The values observed are distinct powers of two, so that
// every number on the page tells which observations are in it.
package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"net/http/httptest"
	"strings"
	"sync"

	"github.com/Aize-Public/forego/utils/prom"

	"verif.local/mc/lib/mc"
	"verif.local/mc/lib/promtext"
	"verif.local/mc/mcrt"
	"verif.local/mc/mcrt/lin"
)

type obs struct {
	call, ret int
	label     string
	val       int
}

type scrape struct {
	call, ret int
	page      string
	err       any
	who       int
}

type metric interface {
	observe(v int, label string)
	print(w io.Writer) error
	check(x *mcrt.X, what string, fams []*promtext.Family) map[string]int // the set of observations per label, as a sum
}

// ---------------------------------------------------------------- metrics

func sets(x *mcrt.X, what string, fams []*promtext.Family, typ string) map[string]int {
	m := map[string]int{}
	if len(fams) > 1 {
		x.Failf("families", "%s: %d families", what, len(fams))
	}
	for _, f := range fams {
		if f.Type != typ || f.Help != "help" || f.Name != "m" {
			x.Failf("family", "%s: family %s %s %q", what, f.Name, f.Type, f.Help)
		}
		for _, s := range f.Samples {
			m[s.Labels["l"]] = int(s.Value)
			if float64(int(s.Value)) != s.Value {
				x.Failf("value", "%s: value %s", what, s.Raw)
			}
		}
	}
	return m
}

type counter struct{ c *prom.Counter }

func (m counter) observe(v int, label string) { m.c.Observe(float64(v), label) }
func (m counter) print(w io.Writer) error     { return m.c.Print(w) }
func (m counter) check(x *mcrt.X, what string, fams []*promtext.Family) map[string]int {
	return sets(x, what, fams, "counter")
}

type gauge struct{ g *prom.Gauge }

func (m gauge) observe(v int, label string) { m.g.Counter(label).Inc(v) }
func (m gauge) print(w io.Writer) error     { return m.g.Print("m", w) }
func (m gauge) check(x *mcrt.X, what string, fams []*promtext.Family) map[string]int {
	return sets(x, what, fams, "gauge")
}

type histogram struct{ h *prom.Histogram }

func (m histogram) observe(v int, label string) { m.h.Observe(float64(v), label) }
func (m histogram) print(w io.Writer) error     { return m.h.Print("m", w) }

func (m histogram) check(x *mcrt.X, what string, fams []*promtext.Family) map[string]int {
	out := map[string]int{}
	if len(fams) == 0 {
		return out
	}
	f := fams[0]
	if len(fams) > 1 || f.Type != "histogram" || f.Help != "help" || f.Name != "m" {
		x.Failf("family", "%s: family %s %s %q", what, f.Name, f.Type, f.Help)
	}
	by := map[string]map[string]float64{}
	for _, s := range f.Samples {
		l := s.Labels["l"]
		if by[l] == nil {
			by[l] = map[string]float64{}
		}
		by[l][strings.TrimPrefix(s.Name, "m_")+s.Labels["le"]] = s.Value
	}
	for l, v := range by {
		sum := int(v["sum"])
		out[l] = sum
		want := map[string]float64{"sum": float64(sum), "bucket+Inf": 0, "count": 0}
		for _, le := range m.h.Buckets {
			want["bucket"+fmt.Sprint(le)] = 0
		}
		for bit := 1; bit <= sum; bit *= 2 {
			if sum&bit != 0 {
				want["count"]++
				want["bucket+Inf"]++
				for _, le := range m.h.Buckets {
					if float64(bit) <= le {
						want["bucket"+fmt.Sprint(le)]++
					}
				}
			}
		}
		if fmt.Sprint(v) != fmt.Sprint(want) {
			x.Failf("torn", "%s: label %q shows %v, a sum of %d means %v", what, l, v, sum, want)
		}
	}
	return out
}

func kinds(name string) metric {
	switch name {
	case "counter":
		return counter{&prom.Counter{Name: "m", Desc: "help", Labels: []string{"l"}}}
	case "gauge":
		return gauge{&prom.Gauge{Desc: "help", Labels: []string{"l"}}}
	default:
		return histogram{&prom.Histogram{Desc: "help", Labels: []string{"l"}, Buckets: []float64{1, 4, 10}}}
	}
}

// plan: observers, each with the labels of its observations; scrapers, each with a number of scrapes
func observing(kind string, observers []string, scrapers []int, bound, quick int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: fmt.Sprintf("%s, observers %v, scrapers %v", kind, observers, scrapers), MaxBound: bound, QuickBound: quick, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		m := kinds(kind)
		var book lin.Book
		var wg sync.WaitGroup
		val := 1
		for _, labels := range observers {
			labels, first := labels, val
			val <<= len(labels)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i, l := range labels {
					o := obs{call: book.Tick(), label: string(l), val: first << i}
					m.observe(o.val, o.label)
					o.ret = book.Tick()
					book.Add(o)
				}
			}()
		}
		one := func(who int) {
			s := scrape{call: book.Tick(), who: who}
			var w bytes.Buffer
			func() {
				defer func() { s.err = recover() }()
				if err := m.print(&w); err != nil {
					panic(err)
				}
			}()
			s.ret, s.page = book.Tick(), w.String()
			book.Add(s)
		}
		for i, n := range scrapers {
			i, n := i, n
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < n; j++ {
					one(i)
				}
			}()
		}
		wg.Wait()
		one(-1)
		return func(x *mcrt.X, i *mcrt.Info) {
			mcrt.DefaultJudge(&mcrt.Scenario{}, x, i)
			var all []obs
			for _, v := range book.All() {
				if o, ok := v.(obs); ok {
					all = append(all, o)
				}
			}
			prev := map[int]map[string]int{}
			for _, v := range book.All() {
				s, ok := v.(scrape)
				if !ok {
					continue
				}
				what := kind
				if s.err != nil {
					x.Failf("scrape", "%s: a scrape fails: %v", what, s.err)
					continue
				}
				fams, err := promtext.Parse(s.page)
				if err != nil {
					x.Failf("page", "%s: %v", what, err)
					continue
				}
				got := m.check(x, what, fams)
				must, may := map[string]int{}, map[string]int{}
				for _, o := range all {
					if o.ret < s.call {
						must[o.label] |= o.val
					}
					if o.call < s.ret {
						may[o.label] |= o.val
					}
				}
				for l, v := range must {
					if got[l]&v != v {
						x.Failf("lost", "%s: a scrape shows %d for %q, observations %d were done before", what, got[l], l, v)
					}
				}
				for l, v := range got {
					if v&^may[l] != 0 {
						x.Failf("invented", "%s: a scrape shows %d for %q, of observations %d", what, v, l, may[l])
					}
				}
				for l, v := range prev[s.who] {
					if got[l]&v != v {
						x.Failf("backwards", "%s: %d for %q after %d", what, got[l], l, v)
					}
				}
				prev[s.who] = got
				if s.who < 0 {
					x.Outf("%v", got)
				} else {
					x.Outf("%v;", got)
				}
			}
		}
	}}
}

// gauges whose functions are set, replaced and removed while they are scraped
func funcs(name string, bound, quick int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, MaxBound: bound, QuickBound: quick, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		g := &prom.Gauge{Labels: []string{"l"}}
		c := g.Counter("c").Inc(5)
		var wg sync.WaitGroup
		wg.Add(3)
		go func() {
			defer wg.Done()
			g.SetFunc(func() float64 { return 1 }, "f")
			g.SetFunc(func() float64 { return 2 }, "f")
			g.SetFunc(nil, "f")
		}()
		go func() {
			defer wg.Done()
			c.Dec(2)
			if g.Counter("c") != c {
				x.Failf("counter", "another counter for the same label")
			}
		}()
		seen := ""
		go func() {
			defer wg.Done()
			last := 0.0
			for i := 0; i < 2; i++ {
				var w bytes.Buffer
				if err := g.Print("m", &w); err != nil {
					x.Failf("scrape", "%v", err)
				}
				fams, err := promtext.Parse(w.String())
				if err != nil || len(fams) != 1 {
					x.Failf("page", "%v in %q", err, w.String())
					return
				}
				f := math.NaN()
				for _, s := range fams[0].Samples {
					switch s.Labels["l"] {
					case "c":
						if s.Value != 5 && s.Value != 3 {
							x.Failf("value", "counter shows %v", s.Value)
						}
					case "f":
						f = s.Value
						if f != 1 && f != 2 || f < last {
							x.Failf("value", "function shows %v after %v", f, last)
						}
						last = f
					}
				}
				seen += fmt.Sprint(f, " ")
			}
		}()
		wg.Wait()
		var w bytes.Buffer
		_ = g.Print("m", &w)
		if strings.Contains(w.String(), `"f"`) || !strings.Contains(w.String(), `m{l="c"} 3`) {
			x.Failf("final", "at last %q", w.String())
		}
		x.Outf("%s", seen)
		return nil
	}}
}

// the registry: names are registered once, the page has what was registered before
func registry(name string, bound, quick int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, MaxBound: bound, QuickBound: quick, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		var wg sync.WaitGroup
		var book lin.Book
		reg := func(name string, v float64) (ok bool) {
			defer func() { ok = recover() == nil }()
			prom.Register(name, &prom.Gauge{}).SetFunc(func() float64 { return v })
			return
		}
		wg.Add(3)
		won := make([]bool, 2)
		for i := range won {
			i := i
			go func() {
				defer wg.Done()
				won[i] = reg("same", float64(i))
				if !reg(fmt.Sprint("own", i), 7) {
					x.Failf("register", "a new name is refused")
				}
				book.Add(fmt.Sprint("own", i))
			}()
		}
		go func() {
			defer wg.Done()
			must := len(book.All())
			done := append([]any{}, book.All()[:must]...)
			w := httptest.NewRecorder()
			prom.Handler()(w, httptest.NewRequest("GET", "/metrics", nil))
			fams, err := promtext.Parse(w.Body.String())
			if err != nil || w.Code != 200 {
				x.Failf("page", "%d %v", w.Code, err)
				return
			}
			names := map[string]bool{}
			for _, f := range fams {
				names[f.Name] = true
			}
			for _, n := range done {
				if !names[n.(string)] {
					x.Failf("unlisted", "%s is registered and not on the page", n)
				}
			}
			x.Outf("%d", len(done))
		}()
		wg.Wait()
		if won[0] == won[1] {
			x.Failf("duplicate", "two registrations of one name: %v", won)
		}
		n := 0
		_ = prom.Range(func(name string, m prom.Metric) error {
			if name == "same" || strings.HasPrefix(name, "own") {
				n++
			}
			return nil
		})
		if n != 3 {
			x.Failf("registry", "%d metrics of 3", n)
		}
		return nil
	}}
}

func main() {
	mc.Main("C26", mc.Options{QuickBound: 3, ThoroughBound: 5,
		Rule:   "every schedule up to the preemption bound of two observers and up to two scrapers on each type of metric, on one label set or several, the first observation of each included; of gauges changed and of metrics registered while the page is written",
		Assume: []string{"a series is judged on its own: a page as a whole need not show all series at one moment"},
	}, func() []*mcrt.Scenario {
		var s []*mcrt.Scenario
		for _, k := range []string{"counter", "histogram", "gauge"} {
			s = append(s,
				observing(k, []string{"a", "a"}, []int{1}, 6, 4),
				observing(k, []string{"aa", "a"}, []int{1}, 5, 3),
				observing(k, []string{"ab", "ba"}, []int{1}, 4, 2),
				observing(k, []string{"aa"}, []int{2}, 5, 3),
				observing(k, []string{"a", "a"}, []int{1, 1}, 4, 2),
				observing(k, []string{"a", "a", "a"}, []int{1}, 4, 2))
		}
		return append(s, funcs("gauge functions", 5, 3), registry("registry", 3, 2))
	})
}
