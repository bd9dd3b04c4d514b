// Package vk is the frame every check runs in: budgets, evidence, violations, known findings, crash supervision.
package vk

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type Violation struct {
	Key    string `json:"key"`    // stable identity of what failed (input, history, call site)
	Msg    string `json:"msg"`    // human explanation
	Replay any    `json:"replay"` // enough to reproduce it
}

type Check struct {
	ID    string
	Level string
	Tier  string
	Seed  int
	Root  string // /verif
	Args  []string

	start    time.Time
	deadline time.Time

	mu         sync.Mutex
	viol       map[string]*Violation
	violCount  int
	evals      int64
	nontrivial int64
	states     int64
	trans      int64
	traces     int64
	rule       string
	samples    []any
	sampleN    map[string]int
	outcomes   map[string]int64
	cov        map[string]any
	assume     []string
	capped     []string
	abort      atomic.Bool

	notes *noteArea
}

// Main runs the body of a check.  The process re-executes itself once so that a crash of the code under test
// (a panic in a goroutine it started, a fatal runtime error) is attributed to the case being run.
func Main(id, level string, body func(*Check)) {
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	c := &Check{ID: id, Level: level, Root: root, Tier: os.Getenv("VERIF_TIER"), start: time.Now(),
		viol: map[string]*Violation{}, sampleN: map[string]int{}, outcomes: map[string]int64{}, cov: map[string]any{}}
	if len(os.Args) > 1 {
		c.Args = os.Args[1:]
	}
	if c.Tier == "" {
		c.Tier = "quick"
	}
	c.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	if os.Getenv("VK_CHILD") == "" {
		os.Exit(c.supervise())
	}
	budget := 150 * time.Second
	if c.Tier == "thorough" {
		budget = 3000 * time.Second
	}
	if s := os.Getenv("VK_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	c.deadline = c.start.Add(budget)
	c.notes = openNotes(os.Getenv("VK_NOTES"))
	go c.watchdog()
	body(c)
	os.Exit(c.finish())
}

func (c *Check) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (c *Check) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// Stop reports whether exploration should end: budget used up or enough violations.
func (c *Check) Stop() bool {
	if c.abort.Load() {
		return true
	}
	if time.Now().After(c.deadline) {
		c.Cap("time budget reached")
		c.abort.Store(true)
		return true
	}
	return false
}

func (c *Check) Deadline() time.Time { return c.deadline }

// Cap records that something was not explored completely.
func (c *Check) Cap(why string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, w := range c.capped {
		if w == why {
			return
		}
	}
	c.capped = append(c.capped, why)
}

func (c *Check) Violate(key, msg string, replay any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.violCount++
	if v, ok := c.viol[key]; ok {
		_ = v
		return
	}
	if os.Getenv("VK_FIRST") != "" { // for trying out changes in bulk: the first violation is enough
		if _, ok := c.knownFindings()[key]; !ok {
			fmt.Printf("violation %s: %s\nVIOLATION property=%s replay=none\n", key, msg, c.ID)
			os.Exit(1)
		}
	}
	if len(c.viol) < 200 {
		c.viol[key] = &Violation{key, msg, replay}
	}
	if len(c.viol) >= 200 {
		if !c.abort.Load() {
			c.capped = append(c.capped, "stopped after 200 distinct violations")
		}
		c.abort.Store(true)
	}
}

func (c *Check) Violations() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.viol) }

func (c *Check) Evals(n int64)      { atomic.AddInt64(&c.evals, n) }
func (c *Check) Nontrivial(n int64) { atomic.AddInt64(&c.nontrivial, n) }
func (c *Check) States(n int64)     { atomic.AddInt64(&c.states, n) }
func (c *Check) Trans(n int64)      { atomic.AddInt64(&c.trans, n) }
func (c *Check) Traces(n int64)     { atomic.AddInt64(&c.traces, n) }
func (c *Check) GetEvals() int64    { return atomic.LoadInt64(&c.evals) }
func (c *Check) Rule(s string)      { c.rule = s }
func (c *Check) Assume(s ...string) { c.assume = append(c.assume, s...) }
func (c *Check) Set(k string, v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.cov[k] = v
}

// Sample keeps up to two examples per kind.
func (c *Check) Sample(kind string, v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.sampleN[kind] >= 2 || len(c.samples) >= 40 {
		return
	}
	c.sampleN[kind]++
	c.samples = append(c.samples, map[string]any{"kind": kind, "case": v})
}

func (c *Check) Outcome(s string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.outcomes) < 4000 || c.outcomes[s] > 0 {
		c.outcomes[s]++
	}
}
func (c *Check) OutcomeN(s string, n int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.outcomes[s] += n
}

// ---------------------------------------------------------------- finishing

type known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	Status   string `json:"status"` // "known" or "fixed"
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func (c *Check) knownFindings() map[string]known {
	out := map[string]known{}
	b, err := os.ReadFile(filepath.Join(c.Root, "known-findings.json"))
	if err != nil {
		return out
	}
	var list []known
	if err := json.Unmarshal(b, &list); err != nil {
		fmt.Fprintln(os.Stderr, "known-findings.json:", err)
		os.Exit(2)
	}
	for _, k := range list {
		if k.Property == c.ID && k.Status == "known" {
			out[k.Key] = k
		}
	}
	return out
}

func (c *Check) finish() int {
	kf := c.knownFindings()
	keys := []string{}
	for k := range c.viol {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if len(keys[i]) != len(keys[j]) {
			return len(keys[i]) < len(keys[j])
		}
		return keys[i] < keys[j]
	})
	var fresh []*Violation
	for _, k := range keys {
		if f, ok := kf[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, f.What)
			continue
		}
		fresh = append(fresh, c.viol[k])
	}
	code := 0
	if len(fresh) > 0 {
		code = 1
		path := c.writeReplay(fresh)
		n := 0
		for _, v := range fresh {
			if n++; n > 8 {
				fmt.Printf("... and %d more\n", len(fresh)-8)
				break
			}
			fmt.Printf("violation %s: %s\n", v.Key, v.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
	}
	c.writeEvidence(len(fresh))
	return code
}

func (c *Check) writeReplay(v []*Violation) string {
	dir := filepath.Join(c.Root, "evidence", "replay")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, c.ID+".json")
	if len(v) > 20 {
		v = v[:20]
	}
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		b = []byte(fmt.Sprintf("%q", fmt.Sprintf("%+v", v)))
	}
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

func (c *Check) writeEvidence(viol int) {
	cov := c.cov
	cov["exhaustive"] = len(c.capped) == 0
	if len(c.capped) > 0 {
		cov["capped_by"] = c.capped
	}
	if len(c.outcomes) > 0 {
		cov["distinct_outcomes"] = len(c.outcomes)
		if len(c.outcomes) <= 80 {
			cov["outcomes"] = c.outcomes
		} else {
			top := map[string]int64{}
			ks := make([]string, 0, len(c.outcomes))
			for k := range c.outcomes {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks[:40] {
				top[k] = c.outcomes[k]
			}
			cov["outcomes_sample"] = top
		}
	}
	if len(c.samples) == 0 {
		c.samples = []any{"none"}
	}
	cov["samples"] = c.samples
	switch c.Level {
	case "model_checking":
		cov["states"] = c.states
		cov["transitions"] = c.trans
		cov["traces_validated_against_impl"] = c.traces
		if c.evals > 0 {
			cov["evaluations"] = c.evals
		}
		if c.rule != "" {
			cov["rule"] = c.rule
		}
	default:
		cov["evaluations"] = c.evals
		cov["distinct_nontrivial"] = c.nontrivial
		cov["rule"] = c.rule
		if c.states > 0 {
			cov["states"] = c.states
			cov["transitions"] = c.trans
		}
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level, "coverage": cov,
		"wall_s": float64(int(time.Since(c.start).Seconds()*100)) / 100, "violations": viol,
	}
	if len(c.assume) > 0 {
		ev["assumptions"] = c.assume
	}
	dir := filepath.Join(c.Root, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
	fmt.Printf("%s %s: evals=%d states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs exhaustive=%v violations=%d\n", c.ID, c.Tier,
		c.evals, c.states, c.trans, c.traces, len(c.outcomes), time.Since(c.start).Seconds(), len(c.capped) == 0, viol)
}

// ---------------------------------------------------------------- workers

type Worker struct {
	*Check
	N          int
	Ev, Nt     int64
	out        map[string]int64
	slot       []byte
	began      atomic.Int64
	rough      atomic.Bool // began by Par, not by a Note: the item may be many cases
}

// Out counts an outcome in the worker (merged later).
func (w *Worker) Out(s string) { w.out[s]++ }

// Note records the case about to run, so that a crash or a hang can be attributed to it.
func (w *Worker) Note(s string) {
	if w.slot != nil {
		n := copy(w.slot[2:], s)
		w.slot[0], w.slot[1] = byte(n>>8), byte(n)
	}
	w.began.Store(time.Now().Unix())
	w.rough.Store(false)
}

// item marks the start of a part of a sweep that may not say which cases it runs.
func (w *Worker) item(i int64) {
	if w.slot != nil {
		n := copy(w.slot[2:], fmt.Sprint("item ", i))
		w.slot[0], w.slot[1] = byte(n>>8), byte(n)
	}
	w.rough.Store(true)
	w.began.Store(time.Now().Unix())
}

func (w *Worker) Idle() { w.began.Store(0) }

var allWorkers struct {
	sync.Mutex
	list []*Worker
}

func (c *Check) NewWorker(n int) *Worker {
	w := &Worker{Check: c, N: n, out: map[string]int64{}}
	if c.notes != nil {
		w.slot = c.notes.slot(n)
	}
	allWorkers.Lock()
	allWorkers.list = append(allWorkers.list, w)
	allWorkers.Unlock()
	return w
}

func (w *Worker) Flush() {
	w.Idle()
	w.Check.Evals(w.Ev)
	w.Check.Nontrivial(w.Nt)
	w.Ev, w.Nt = 0, 0
	for k, v := range w.out {
		w.OutcomeN(k, v)
	}
	w.out = map[string]int64{}
}

// Par calls f for i in [0,n), in chunks, on all CPUs.  Exploration order is fixed, only the placement varies.
func (c *Check) Par(n int64, f func(w *Worker, i int64)) {
	if n <= 0 {
		return
	}
	workers := runtime.NumCPU()
	if workers > 16 {
		workers = 16
	}
	chunk := n / int64(workers*16)
	if chunk < 1 {
		chunk = 1
	}
	if chunk > 4096 {
		chunk = 4096
	}
	var next int64
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		w := c.NewWorker(k)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer w.Flush()
			for {
				lo := atomic.AddInt64(&next, chunk) - chunk
				if lo >= n || c.Stop() {
					return
				}
				hi := lo + chunk
				if hi > n {
					hi = n
				}
				for i := lo; i < hi; i++ {
					if i == lo {
						w.item(i)
					}
					f(w, i)
				}
			}
		}()
	}
	wg.Wait()
}

// Catch runs f and turns a panic into an error.
func Catch(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = &PanicError{r, string(debug.Stack())}
		}
	}()
	return f()
}

type PanicError struct {
	Val   any
	Stack string
}

func (p *PanicError) Error() string { return fmt.Sprintf("panic: %v", p.Val) }

// Site returns the first frame of the code under test in a panic's stack.
func (p *PanicError) Site() string {
	lines := strings.Split(p.Stack, "\n")
	for i, l := range lines {
		if strings.Contains(l, "github.com/Aize-Public/forego/") && !strings.HasPrefix(l, "\t") {
			f := l
			if j := strings.LastIndex(f, "("); j > 0 {
				f = f[:j]
			}
			_ = i
			return strings.TrimPrefix(f, "github.com/Aize-Public/forego/")
		}
	}
	return "?"
}

func IsPanic(err error) (*PanicError, bool) {
	p, ok := err.(*PanicError)
	return p, ok
}

func Hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func JSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	return string(b)
}

// ---------------------------------------------------------------- supervision

const slotSize = 8192
const slots = 64

type noteArea struct{ b []byte }

func openNotes(path string) *noteArea {
	if path == "" {
		return nil
	}
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil
	}
	defer f.Close()
	_ = f.Truncate(slotSize * slots)
	b, err := syscall.Mmap(int(f.Fd()), 0, slotSize*slots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return &noteArea{b}
}

func (n *noteArea) slot(i int) []byte { i %= slots; return n.b[i*slotSize : (i+1)*slotSize] }

// HangAfter is how long one case may run before it counts as a hang (cases take micro- to milliseconds).
var HangAfter = 90 * time.Second

func (c *Check) watchdog() {
	for {
		time.Sleep(time.Second)
		now := time.Now().Unix()
		allWorkers.Lock()
		for _, w := range allWorkers.list {
			limit := HangAfter
			if w.rough.Load() {
				limit = 2 * c.deadline.Sub(c.start)
			}
			if b := w.began.Load(); b != 0 && now-b > int64(limit/time.Second) {
				n := int(w.slot[0])<<8 | int(w.slot[1])
				s := string(w.slot[2 : 2+n])
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				c.Violate("hang:"+s, "did not terminate within "+limit.String(), map[string]any{"case": s, "stacks": string(buf)})
				os.Exit(c.finish())
			}
		}
		allWorkers.Unlock()
	}
}

func (c *Check) supervise() int {
	notes := filepath.Join(os.TempDir(), fmt.Sprintf("vk-notes-%s-%d", c.ID, os.Getpid()))
	defer os.Remove(notes)
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VK_CHILD=1", "VK_NOTES="+notes)
	cmd.Stdout = os.Stdout
	var tail tailBuf
	cmd.Stderr = &tail
	err := cmd.Run()
	out := tail.String()
	if err == nil {
		fmt.Fprint(os.Stderr, lastN(out, 4000))
		return 0
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 {
		fmt.Fprint(os.Stderr, lastN(out, 4000))
		return 1
	}
	fmt.Fprint(os.Stderr, firstN(out, 8000))
	crash := strings.Contains(out, "panic: ") || strings.Contains(out, "fatal error: ")
	if crash && strings.Contains(crashTrace(out), "github.com/Aize-Public/forego/") {
		cases := []string{}
		if b, err := os.ReadFile(notes); err == nil {
			for i := 0; i+slotSize <= len(b); i += slotSize {
				n := int(b[i])<<8 | int(b[i+1])
				if n > 0 && n < slotSize-2 {
					cases = append(cases, string(b[i+2:i+2+n]))
				}
			}
		}
		msg := crashLine(out)
		c.Violate("crash:"+msg, "the process crashed: "+msg, map[string]any{"cases_running": cases, "stderr": firstN(out, 6000)})
		if c.rule == "" {
			c.rule = "aborted by a crash of the code under test"
		}
		c.Cap("aborted by a crash")
		return c.finish()
	}
	fmt.Fprintln(os.Stderr, "check ended abnormally:", err)
	return 2
}

// crashTrace is the trace of the goroutine that crashed (the first one printed).
func crashTrace(s string) string {
	i := strings.Index(s, "\ngoroutine ")
	if i < 0 {
		return s
	}
	rest := s[i+1:]
	if j := strings.Index(rest, "\n\ngoroutine "); j > 0 {
		rest = rest[:j]
	}
	return rest
}

func crashLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
			if len(l) > 200 {
				l = l[:200]
			}
			return l
		}
	}
	return "?"
}

type tailBuf struct {
	mu  sync.Mutex
	buf bytes.Buffer
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.buf.Len() > 8<<20 {
		b := append([]byte(nil), t.buf.Bytes()[t.buf.Len()-(4<<20):]...)
		t.buf.Reset()
		t.buf.Write(b)
	}
	return t.buf.Write(p)
}
func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return t.buf.String() }

func lastN(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
