// Package mc drives mcrt explorations: scenarios are enumerated bound by bound, spread over worker processes.
package mc

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/mc/lib/vk"
	"verif.local/mc/mcrt"
	_ "verif.local/mc/mcrt/mtime" // hooks package context
)

type task struct {
	Scenario string  `json:"scenario"`
	Bound    int     `json:"bound"`
	Prefix   []int16 `json:"prefix,omitempty"`
	Frontier int     `json:"frontier,omitempty"`
	MaxExecs int64   `json:"max_execs,omitempty"`
	Deadline int64   `json:"deadline"`
}

// Options of a check.
type Options struct {
	QuickBound, ThoroughBound int // preemption bounds
	Assume                    []string
	Rule                      string
	// Before runs in the parent before the exploration (sequential parts of the check).
	Before func(k *vk.Check)
}

// Main is the entry point of a scheduling check.
func Main(id string, o Options, scenarios func() []*mcrt.Scenario) {
	if os.Getenv("MC_WORKER") != "" {
		worker(scenarios())
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "replay" {
		replay(scenarios())
		return
	}
	vk.Main(id, "model_checking", func(k *vk.Check) { drive(k, o, scenarios()) })
}

func find(scs []*mcrt.Scenario, name string) *mcrt.Scenario {
	for _, s := range scs {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// replay SCENARIO BOUND 0,1,0,...: run one schedule and print its trace.
func replay(scs []*mcrt.Scenario) {
	sc := find(scs, os.Args[2])
	if sc == nil {
		for _, s := range scs {
			fmt.Println(s.Name)
		}
		os.Exit(2)
	}
	b, _ := strconv.Atoi(os.Args[3])
	var sched []int16
	for _, s := range strings.Split(os.Args[4], ",") {
		n, _ := strconv.Atoi(s)
		sched = append(sched, int16(n))
	}
	r, tr := mcrt.Replay(sc, b, sched)
	for _, l := range tr {
		fmt.Println(l)
	}
	fmt.Println(vk.JSON(r))
}

// ---------------------------------------------------------------- worker

func worker(scs []*mcrt.Scenario) {
	runtime.GOMAXPROCS(1)
	logPath := os.Getenv("MC_RACELOG")
	if logPath != "" {
		path := fmt.Sprintf("%s.%d", logPath, os.Getpid())
		var off int64
		mcrt.RaceLog = func() string {
			f, err := os.Open(path)
			if err != nil {
				return ""
			}
			defer f.Close()
			_, _ = f.Seek(off, 0)
			var b bytes.Buffer
			n, _ := b.ReadFrom(f)
			off += n
			if d := os.Getenv("MC_RACE_RAW"); d != "" { // for looking into a report
				_ = os.WriteFile(d, b.Bytes(), 0o644)
			}
			return b.String()
		}
	}
	out := bufio.NewWriter(os.NewFile(3, "results"))
	in := bufio.NewReader(os.Stdin)
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(time.Second)
			p := mcrt.Progress()
			if p != last {
				last, since = p, time.Now()
				continue
			}
			if mcrt.On() && time.Since(since) > 40*time.Second {
				fmt.Fprintf(os.Stderr, "MC-STUCK\n%s\n", mcrt.Stacks())
				os.Exit(3)
			}
		}
	}()
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var t task
		if json.Unmarshal(line, &t) != nil {
			os.Exit(2)
		}
		sc := find(scs, t.Scenario)
		r := mcrt.Explore(sc, t.Bound, t.Prefix, t.Frontier, t.MaxExecs, time.UnixMilli(t.Deadline))
		b, _ := json.Marshal(r)
		_, _ = out.Write(append(b, '\n'))
		_ = out.Flush()
	}
}

type proc struct {
	cmd    *exec.Cmd
	in     *bufio.Writer
	out    *bufio.Reader
	stderr *bytes.Buffer
	pw     *os.File
}

type pool struct {
	free chan *proc
	all  []*proc
	mu   sync.Mutex
}

func start() (*proc, error) {
	p := &proc{stderr: &bytes.Buffer{}}
	rl := os.Getenv("VK_OUT")
	if rl == "" {
		rl = os.TempDir()
	}
	rl += "/race"
	p.cmd = exec.Command(os.Args[0])
	p.cmd.Env = append(os.Environ(), "MC_WORKER=1", "MC_RACELOG="+rl, "GORACE=log_path="+rl+" halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3 suppress_equal_stacks=0 suppress_equal_addresses=0", "GOMAXPROCS=1", "GOTRACEBACK=all")
	w, err := p.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	r, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	p.cmd.ExtraFiles = []*os.File{pw}
	p.cmd.Stderr = p.stderr
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	p.in, p.out = bufio.NewWriter(w), bufio.NewReaderSize(r, 1<<20)
	return p, nil
}

// crash is what became of a worker that died.
type crash struct{ stderr string }

func (pl *pool) do(t task) (*mcrt.Result, *crash) {
	p := <-pl.free
	b, _ := json.Marshal(t)
	_, _ = p.in.Write(append(b, '\n'))
	_ = p.in.Flush()
	line, err := p.out.ReadBytes('\n')
	var r mcrt.Result
	if err == nil {
		err = json.Unmarshal(line, &r)
	}
	if err != nil {
		_ = p.cmd.Wait()
		c := &crash{p.stderr.String()}
		if q, e := start(); e == nil {
			pl.mu.Lock()
			pl.all = append(pl.all, q)
			pl.mu.Unlock()
			pl.free <- q
		}
		return nil, c
	}
	if rss(p.cmd.Process.Pid) > 700<<20 { // the race runtime never gives back what goroutines cost it
		if q, e := start(); e == nil {
			_ = p.cmd.Process.Kill()
			_ = p.cmd.Wait()
			pl.mu.Lock()
			pl.all = append(pl.all, q)
			pl.mu.Unlock()
			p = q
		}
	}
	pl.free <- p
	return &r, nil
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	var size, res int64
	fmt.Sscan(string(b), &size, &res)
	return res * int64(os.Getpagesize())
}

// ---------------------------------------------------------------- driver

type scen struct {
	sc       *mcrt.Scenario
	done     int // deepest bound explored completely
	execs    int64
	steps    int64
	nodes    int64
	replayed int64
	outcomes map[string]int64
	maxd     int
	maxt     int
	stopped  bool
	full     bool // the last two bounds gave the same number of executions: nothing left to preempt
	lastN    int64
}

func drive(k *vk.Check, o Options, scs []*mcrt.Scenario) {
	k.Rule(o.Rule)
	k.Assume(o.Assume...)
	if o.Before != nil {
		o.Before(k)
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	pl := &pool{free: make(chan *proc, 256)}
	for i := 0; i < n; i++ {
		p, err := start()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		pl.all = append(pl.all, p)
		pl.free <- p
	}
	defer func() {
		for _, p := range pl.all {
			_ = p.cmd.Process.Kill()
		}
	}()
	only := os.Getenv("MC_ONLY")
	var list []*scen
	for _, s := range scs {
		if only == "" || strings.Contains(s.Name, only) {
			list = append(list, &scen{sc: s, done: -1, outcomes: map[string]int64{}})
		}
	}
	maxB := k.Pick(o.QuickBound, o.ThoroughBound)
	if s := os.Getenv("MC_BOUND"); s != "" {
		maxB, _ = strconv.Atoi(s)
	}
	var mu sync.Mutex
	internal := ""
	for b := 0; b <= maxB; b++ {
		var wg sync.WaitGroup
		for _, s := range list {
			lim := s.sc.MaxBound
			if !k.Thorough() && s.sc.QuickBound > 0 && (lim == 0 || s.sc.QuickBound < lim) {
				lim = s.sc.QuickBound
			}
			if lim < 0 {
				lim = 0
			} else if lim == 0 {
				lim = maxB
			}
			if s.stopped || s.full || b > lim {
				continue
			}
			s := s
			wg.Add(1)
			go func() {
				defer wg.Done()
				rs, complete, cr := explore(k, pl, s.sc, b)
				mu.Lock()
				defer mu.Unlock()
				if cr != nil {
					s.stopped = true
					if msg := crashViolation(k, s.sc, cr); msg != "" {
						internal = msg
					}
					return
				}
				var execs, nodes int64
				out := map[string]int64{}
				for _, r := range rs {
					execs += r.Execs
					s.steps += r.Steps
					nodes += r.Nodes
					s.replayed += r.Replayed
					for o, c := range r.Outcomes {
						out[o] += c
					}
					if r.MaxDepth > s.maxd {
						s.maxd = r.MaxDepth
					}
					if r.MaxThreads > s.maxt {
						s.maxt = r.MaxThreads
					}
					if r.Internal != "" {
						internal = s.sc.Name + ": " + r.Internal
					}
					for _, v := range r.Viol {
						k.Violate(s.sc.Name+":"+v.Key, s.sc.Name+": "+v.Msg, map[string]any{"scenario": s.sc.Name, "preemption_bound": b, "schedule": v.Schedule, "trace": v.Trace})
						s.stopped = true
					}
				}
				s.execs += execs
				s.nodes = nodes
				s.outcomes = out
				if complete {
					s.done = b
					if execs == s.lastN {
						s.full = true
					}
					s.lastN = execs
				} else {
					s.stopped = true
				}
			}()
		}
		wg.Wait()
		if internal != "" || k.Stop() {
			break
		}
	}
	var per []map[string]any
	names := map[string]int{}
	var states, trans, execs int64
	for _, s := range list {
		if s.done < 0 && k.Violations() == 0 {
			k.Cap("scenario " + s.sc.Name + " not completed at bound 0")
		}
		states += s.nodes
		trans += s.steps
		execs += s.execs
		m := map[string]any{"scenario": s.sc.Name, "schedules": s.execs, "steps": s.steps, "tree_nodes": s.nodes, "preemption_bound_completed": s.done, "outcomes": len(s.outcomes), "max_choices": s.maxd, "goroutines": s.maxt, "replays_checked": s.replayed}
		if s.full {
			m["all_schedules"] = true
		}
		per = append(per, m)
		for o, c := range s.outcomes {
			k.OutcomeN(s.sc.Name+": "+o, c)
		}
		names[fmt.Sprint(s.done)]++
		var os []string
		for o := range s.outcomes {
			os = append(os, o)
		}
		sort.Strings(os)
		if len(os) > 3 {
			os = os[:3]
		}
		k.Sample("scenario", map[string]any{"scenario": s.sc.Name, "outcomes": os})
	}
	k.States(states)
	k.Trans(trans)
	k.Traces(execs)
	k.Set("scenarios", per)
	k.Set("scenarios_by_completed_bound", names)
	k.Set("race_detector", mcrt.RaceBuild)
	k.Set("explanation", "states = nodes of the tree of scheduling choices at the deepest bound, transitions = scheduled steps, traces = schedules executed on the real code; every schedule with at most the given number of preemptions is executed, select and map-range nondeterminism included")
	if internal != "" && k.Violations() == 0 {
		fmt.Fprintln(os.Stderr, "check cannot decide:", internal)
		for _, p := range pl.all {
			_ = p.cmd.Process.Kill()
		}
		os.Exit(2)
	}
}

// explore runs one scenario at one bound, splitting the tree over the pool when it is large.
func explore(k *vk.Check, pl *pool, sc *mcrt.Scenario, b int) ([]*mcrt.Result, bool, *crash) {
	dl := k.Deadline().UnixMilli()
	r, c := pl.do(task{Scenario: sc.Name, Bound: b, MaxExecs: 400, Deadline: dl})
	if c != nil {
		return nil, false, c
	}
	if r.Complete || len(r.Viol) > 0 || r.Internal != "" {
		return []*mcrt.Result{r}, r.Complete, nil
	}
	// the tree is worked off in pieces; a piece that is too large gives back the subtrees it did not get to
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	out := []*mcrt.Result{r}
	todo := r.Rest
	complete := len(todo) > 0
	var cr *crash
	stop, busy := false, 0
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			defer mu.Unlock()
			for {
				for len(todo) == 0 && busy > 0 && !stop {
					cond.Wait()
				}
				if stop || len(todo) == 0 {
					cond.Broadcast()
					return
				}
				if k.Stop() {
					complete, stop = false, true
					continue
				}
				p := todo[len(todo)-1] // the last one is the closest to the root: the largest
				todo = todo[:len(todo)-1]
				busy++
				mu.Unlock()
				r, c := pl.do(task{Scenario: sc.Name, Bound: b, Prefix: p, MaxExecs: 4000, Deadline: dl})
				mu.Lock()
				busy--
				if c != nil {
					cr, stop = c, true
				} else {
					todo = append(todo, r.Rest...)
					r.Rest = nil
					out = append(out, r)
					if !r.Complete && (r.Stopped || len(r.Viol) > 0 || r.Internal != "") {
						complete = false
					}
					if len(r.Viol) > 0 || r.Internal != "" {
						stop = true
					}
				}
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	if cr != nil {
		return nil, false, cr
	}
	return out, complete && !stop, nil
}

// crashViolation turns a dead worker into a violation if the code under test is to blame, or says why it is not.
func crashViolation(k *vk.Check, sc *mcrt.Scenario, c *crash) string {
	s := c.stderr
	if i := strings.Index(s, "MC-STUCK"); i >= 0 {
		for _, g := range strings.Split(s[i:], "\n\n") {
			if strings.Contains(g, "Aize-Public/forego/") {
				h := g
				if j := strings.Index(g, "\n"); j > 0 {
					h = g[:j]
				}
				if strings.Contains(h, "[running") || strings.Contains(h, "[runnable") {
					k.Violate(sc.Name+":hang", sc.Name+": the code under test loops without ever synchronising", map[string]any{"scenario": sc.Name, "goroutine": g})
					return ""
				}
			}
		}
		return sc.Name + ": an operation blocked outside the scheduler\n" + head(s, 4000)
	}
	line := ""
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
			line = l
			break
		}
	}
	if line != "" && strings.Contains(s, "Aize-Public/forego/") {
		k.Violate(sc.Name+":crash:"+line, sc.Name+": "+line, map[string]any{"scenario": sc.Name, "stderr": head(s, 6000)})
		return ""
	}
	return sc.Name + ": worker died\n" + head(s, 4000)
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// Thorough tells scenario tables to include their larger members.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }
