// C31: a listening server ends gracefully: every phase a connection can be in when the shutdown begins, alone and in
// pairs (and triples), completed in every order, against a program that serves the way the documentation shows.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	gohttp "net/http"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"golang.org/x/net/websocket"

	"verif.local/mc/lib/vk"
)

const enough = 28 * time.Second   // more than this after the start, and the server's own patience may have ended
const patience = 40 * time.Second // for anything that has to come; the machine may be busy

// ---------------------------------------------------------------- the program under test

type prog struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	addrs []string
	lines chan string
	ended chan struct{}
	over  atomic.Bool
	bad   []string
	code  int
	tail  bytes.Buffer
}

func start(mode string) (*prog, error) {
	p := &prog{lines: make(chan string, 1000), ended: make(chan struct{})}
	p.cmd = exec.Command(os.Args[0])
	p.cmd.Env = append(os.Environ(), "C31_CHILD="+mode)
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := p.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	p.in = in
	out, err := p.cmd.StderrPipe()
	if err != nil {
		return nil, err
	}
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		s := bufio.NewScanner(out)
		s.Buffer(nil, 1<<20)
		for s.Scan() {
			t := s.Text()
			if !strings.HasPrefix(t, "\x01") {
				if p.tail.Len() < 4000 {
					p.tail.WriteString(t + "\n")
				}
				continue
			}
			if t == "\x01over" {
				p.over.Store(true)
			}
			p.lines <- t[1:]
		}
		_ = p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.ended)
		close(p.lines)
	}()
	l, err := p.line("addrs")
	if err != nil {
		p.kill()
		return nil, err
	}
	p.addrs = strings.Fields(l)[1:]
	return p, nil
}

// line waits for a line that starts so
func (p *prog) line(prefix string) (string, error) {
	t := time.After(patience)
	for {
		select {
		case l, ok := <-p.lines:
			if !ok {
				return "", fmt.Errorf("the program ended with %d: %s", p.code, p.tail.String())
			}
			if strings.HasPrefix(l, "bad ") {
				p.bad = append(p.bad, l[4:])
			}
			if strings.HasPrefix(l, prefix) {
				return l, nil
			}
		case <-t:
			return "", fmt.Errorf("the program does not say %q", prefix)
		}
	}
}

func (p *prog) tell(s string) { fmt.Fprintln(p.in, s) }

func (p *prog) alive() bool {
	select {
	case <-p.ended:
		return false
	default:
		return !p.over.Load()
	}
}

func (p *prog) kill() {
	_ = p.cmd.Process.Kill()
	<-p.ended
}

// ---------------------------------------------------------------- phases

type client struct {
	conn net.Conn
	br   *bufio.Reader
	ws   *websocket.Conn
	done func() error // completes what is under way; nil if nothing is
	may  func() error // what may still be asked, an error of the connection being fine
}

func (c *client) close() {
	if c.ws != nil {
		_ = c.ws.Close()
	}
	if c.conn != nil {
		_ = c.conn.Close()
	}
}

func (c *client) response(want string) error {
	_ = c.conn.SetReadDeadline(time.Now().Add(patience))
	r, err := gohttp.ReadResponse(c.br, nil)
	if err != nil {
		return fmt.Errorf("instead of a response: %w", err)
	}
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return fmt.Errorf("status %d and %d bytes of a response, then %w", r.StatusCode, len(b), err)
	}
	if r.StatusCode != 200 || string(b) != want {
		if len(b) > 100 {
			b = b[:100]
		}
		return fmt.Errorf("response %d %q", r.StatusCode, b)
	}
	return nil
}

type phase struct {
	name  string
	busy  bool // something is being handled
	begin bool // which asks for the shutdown itself
	work  bool // goes on when told
	extra bool // in pairs only, unless thorough
	enter func(p *prog, addr string) (*client, error)
}

func dial(addr string) (*client, error) {
	conn, err := net.DialTimeout("tcp", addr, patience)
	if err != nil {
		return nil, err
	}
	return &client{conn: conn, br: bufio.NewReader(conn)}, nil
}

func send(c *client, s string) error {
	_ = c.conn.SetWriteDeadline(time.Now().Add(patience))
	_, err := io.WriteString(c.conn, s)
	return err
}

// half sends a request up to half its body, once the server asks for it
func half(path, body, want string) func(p *prog, addr string) (*client, error) {
	return func(p *prog, addr string) (*client, error) {
		c, err := dial(addr)
		if err != nil {
			return nil, err
		}
		if err := send(c, fmt.Sprintf("POST %s HTTP/1.1\r\nHost: x\r\nExpect: 100-continue\r\nContent-Length: %d\r\n\r\n", path, len(body))); err != nil {
			return nil, err
		}
		_ = c.conn.SetReadDeadline(time.Now().Add(patience))
		for _, want := range []string{"HTTP/1.1 100 Continue\r\n", "\r\n"} {
			if l, err := c.br.ReadString('\n'); err != nil || l != want {
				return nil, fmt.Errorf("%q %v", l, err)
			}
		}
		if err := send(c, body[:len(body)/2]); err != nil {
			return nil, err
		}
		c.done = func() error {
			if err := send(c, body[len(body)/2:]); err != nil {
				return err
			}
			return c.response(want)
		}
		return c, nil
	}
}

// working sends a request whose handler works until it is told to go on
func working(path string) func(p *prog, addr string) (*client, error) {
	return func(p *prog, addr string) (*client, error) {
		c, err := dial(addr)
		if err != nil {
			return nil, err
		}
		if err := send(c, "GET "+path+" HTTP/1.1\r\nHost: x\r\n\r\n"); err != nil {
			return nil, err
		}
		if _, err := p.line("working"); err != nil {
			return nil, err
		}
		c.done = func() error { return c.response("worked") }
		return c, nil
	}
}

func wsDial(path, addr string) (*client, error) {
	raw, err := net.DialTimeout("tcp", addr, patience)
	if err != nil {
		return nil, err
	}
	_ = raw.SetDeadline(time.Now().Add(2 * patience))
	cfg, err := websocket.NewConfig("ws://"+addr+path, "http://"+addr)
	if err != nil {
		return nil, err
	}
	w, err := websocket.NewClient(cfg, raw)
	if err != nil {
		return nil, err
	}
	return &client{ws: w, conn: raw}, nil
}

// talk sends and expects that answer
func (c *client) talk(msg, want string) error {
	if msg != "" {
		if _, err := io.WriteString(c.ws, msg); err != nil {
			return err
		}
	}
	var got string
	if err := websocket.Message.Receive(c.ws, &got); err != nil {
		return fmt.Errorf("instead of an answer: %w", err)
	}
	var a, b any
	if json.Unmarshal([]byte(got), &a) != nil || json.Unmarshal([]byte(want), &b) != nil || vk.JSON(a) != vk.JSON(b) {
		return fmt.Errorf("answer %q, not %q", got, want)
	}
	return nil
}

// leave closes properly and waits for the end of the connection
func (c *client) leave() error {
	_ = c.conn.SetDeadline(time.Now().Add(patience))
	if err := c.ws.WriteClose(1000); err != nil {
		return err
	}
	for i := 0; i < 10; i++ {
		var got string
		err := websocket.Message.Receive(c.ws, &got)
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			return fmt.Errorf("the connection does not end after the close")
		} else if err != nil {
			return nil
		}
	}
	return fmt.Errorf("messages after the close")
}

var phases = []phase{
	{name: "connected", enter: func(p *prog, addr string) (*client, error) {
		c, err := dial(addr)
		if err == nil {
			c.may = func() error {
				if err := send(c, "GET /live HTTP/1.1\r\nHost: x\r\n\r\n"); err != nil {
					return err
				}
				r, err := gohttp.ReadResponse(c.br, nil)
				if err == nil && r.StatusCode != 204 {
					return fmt.Errorf("bad status %d", r.StatusCode)
				}
				return err
			}
		}
		return c, err
	}},
	{name: "idle after a request", enter: func(p *prog, addr string) (*client, error) {
		c, err := dial(addr)
		if err != nil {
			return nil, err
		}
		if err := send(c, "POST /body HTTP/1.1\r\nHost: x\r\nContent-Length: 3\r\n\r\nabc"); err != nil {
			return nil, err
		}
		return c, c.response(`{"got":3}`)
	}},
	{name: "half the header", enter: func(p *prog, addr string) (*client, error) {
		c, err := dial(addr)
		if err != nil {
			return nil, err
		}
		c.may = func() error {
			if err := send(c, "ost: x\r\nContent-Length: 3\r\n\r\nabc"); err != nil {
				return err
			}
			r, err := gohttp.ReadResponse(c.br, nil)
			if err == nil && r.StatusCode != 200 {
				return fmt.Errorf("bad status %d", r.StatusCode)
			}
			return err
		}
		return c, send(c, "POST /body HTTP/1.1\r\nH")
	}},
	{name: "half the body", busy: true, enter: half("/body", "0123456789", `{"got":10}`)},
	{name: "half the body of an API", busy: true, enter: half("/api", `{"In":"01234567890123456789"}`, `{"Out":20}`)},
	{name: "handler at work", busy: true, work: true, enter: working("/work")},
	{name: "handler that began it", busy: true, work: true, begin: true, enter: working("/stop")},
	{name: "half the response", busy: true, enter: func(p *prog, addr string) (*client, error) {
		c, err := dial(addr)
		if err != nil {
			return nil, err
		}
		if err := send(c, "GET /big HTTP/1.1\r\nHost: x\r\n\r\n"); err != nil {
			return nil, err
		}
		_ = c.conn.SetReadDeadline(time.Now().Add(patience))
		if _, err := c.br.Peek(1000); err != nil {
			return nil, err
		}
		c.done = func() error { return c.response(string(big)) }
		return c, nil
	}},
	{name: "WebSocket", busy: true, enter: func(p *prog, addr string) (*client, error) {
		c, err := wsDial("/ws", addr)
		if err != nil {
			return nil, err
		}
		c.done = func() error {
			if err := c.talk(`{"b":2}`, `{"b":2}`); err != nil {
				return err
			}
			return c.leave()
		}
		return c, c.talk(`{"a":1}`, `{"a":1}`)
	}},
	{name: "WebSocket handler at work", busy: true, work: true, enter: func(p *prog, addr string) (*client, error) {
		c, err := wsDial("/ws", addr)
		if err != nil {
			return nil, err
		}
		if _, err := io.WriteString(c.ws, `"work"`); err != nil {
			return nil, err
		}
		c.done = func() error {
			if err := c.talk("", `"work"`); err != nil {
				return err
			}
			return c.leave()
		}
		_, err = p.line("working")
		return c, err
	}},
	{name: "RPC connection", busy: true, enter: func(p *prog, addr string) (*client, error) {
		c, err := wsDial("/rpc", addr)
		if err != nil {
			return nil, err
		}
		c.done = func() error {
			if err := c.talk(`{"channel":"c","type":"data","path":"add","data":3}`, `{"channel":"c","type":"","path":"sum","data":8}`); err != nil {
				return err
			}
			return c.leave()
		}
		return c, c.talk(`{"channel":"c","type":"open","path":"obj","data":5}`, `{"channel":"c","type":"","path":"hello","data":5}`)
	}},
	{name: "RPC at work", busy: true, work: true, enter: func(p *prog, addr string) (*client, error) {
		c, err := wsDial("/rpc", addr)
		if err != nil {
			return nil, err
		}
		if err := c.talk(`{"channel":"c","type":"open","path":"obj","data":5}`, `{"channel":"c","type":"","path":"hello","data":5}`); err != nil {
			return nil, err
		}
		if _, err := io.WriteString(c.ws, `{"channel":"c","type":"data","path":"work"}`); err != nil {
			return nil, err
		}
		c.done = func() error {
			if err := c.talk("", `{"channel":"c","type":"","path":"worked","data":5}`); err != nil {
				return err
			}
			return c.leave()
		}
		_, err = p.line("working")
		return c, err
	}},
	{name: "handler at work on a used connection", busy: true, work: true, extra: true, enter: func(p *prog, addr string) (*client, error) {
		c, err := dial(addr)
		if err != nil {
			return nil, err
		}
		for i := 0; i < 2; i++ {
			if err := send(c, "POST /body HTTP/1.1\r\nHost: x\r\nContent-Length: 3\r\n\r\nabc"); err != nil {
				return nil, err
			}
			if err := c.response(`{"got":3}`); err != nil {
				return nil, err
			}
		}
		if err := send(c, "GET /work HTTP/1.1\r\nHost: x\r\n\r\n"); err != nil {
			return nil, err
		}
		c.done = func() error { return c.response("worked") }
		_, err = p.line("working")
		return c, err
	}},
	{name: "WebSocket being taken", busy: true, work: true, extra: true, enter: func(p *prog, addr string) (*client, error) {
		c, err := wsDial("/slow", addr)
		if err != nil {
			return nil, err
		}
		c.done = func() error {
			if err := c.talk(`{"b":2}`, `{"b":2}`); err != nil {
				return err
			}
			return c.leave()
		}
		_, err = p.line("working")
		return c, err
	}},
	{name: "RPC connection with nothing open", busy: true, extra: true, enter: func(p *prog, addr string) (*client, error) {
		c, err := wsDial("/rpc", addr)
		if err != nil {
			return nil, err
		}
		c.done = func() error {
			if err := c.talk(`{"channel":"c","type":"open","path":"obj","data":5}`, `{"channel":"c","type":"","path":"hello","data":5}`); err != nil {
				return err
			}
			return c.leave()
		}
		// (the server is known to have it once it answers a ping)
		ping := websocket.Codec{Marshal: func(any) ([]byte, byte, error) { return nil, websocket.PingFrame, nil }}
		if err := ping.Send(c.ws, nil); err != nil {
			return c, err
		}
		pong := make([]byte, 2)
		_, err = io.ReadFull(c.conn, pong)
		return c, err
	}},
}

// ---------------------------------------------------------------- one history

type history struct {
	phases  []int
	reverse bool
	listens int
	servers int
	wait    bool          // by WaitForSignal
	hold    time.Duration // goes by before anything is completed
}

func (h history) String() string {
	var l []string
	for _, p := range h.phases {
		l = append(l, phases[p].name)
	}
	s := fmt.Sprintf("%d addresses of %d servers, connections: %s", h.listens, h.servers, strings.Join(l, ", "))
	if h.reverse {
		s += " (the last one completed first)"
	}
	if h.wait {
		s += ", waiting for signals"
	}
	if h.hold > 0 {
		s += fmt.Sprintf(", %v after the shutdown has begun", h.hold)
	}
	return s
}

func run(h history) (key string, err error) {
	t0 := time.Now() // (before anything begins)
	p, err := start(fmt.Sprintf("%d/%d/%v", h.listens, h.servers, h.wait))
	if err != nil {
		return "start", err
	}
	defer p.kill()
	var cs []*client
	defer func() {
		for _, c := range cs {
			c.close()
		}
	}()
	begun := false
	for i, ph := range h.phases {
		c, err := phases[ph].enter(p, p.addrs[i%len(p.addrs)])
		if c != nil {
			cs = append(cs, c)
		}
		if err != nil {
			return "serve", fmt.Errorf("before the shutdown, %s: %w", phases[ph].name, err)
		}
		begun = begun || phases[ph].begin
	}
	if !begun && !p.alive() {
		return "alive", fmt.Errorf("the program has ended before the shutdown")
	}
	if !begun {
		p.tell("begin")
	}
	// nobody new is served
	for _, a := range p.addrs {
		for end := time.Now().Add(patience); ; time.Sleep(2 * time.Millisecond) {
			conn, err := net.DialTimeout("tcp", a, time.Second)
			if err != nil {
				break
			}
			_ = conn.Close()
			if time.Now().After(end) {
				return "accepts", fmt.Errorf("%s takes connections long after the shutdown has begun", a)
			}
		}
	}
	order := make([]int, len(cs))
	for i := range order {
		if order[i] = i; h.reverse {
			order[i] = len(cs) - 1 - i
		}
	}
	if len(cs) == 1 {
		time.Sleep(200 * time.Millisecond)
	}
	time.Sleep(h.hold)
	told := false
	for _, i := range order {
		ph := phases[h.phases[i]]
		if c := cs[i]; ph.busy {
			time.Sleep(60 * time.Millisecond)
			if time.Since(t0) > enough { // more than the server's own patience may have passed
				return "", nil
			}
			if !(ph.work && told && c.ws == nil) && !p.alive() { // (once told, a handler may be done)
				return "cut", fmt.Errorf("the shutdown is complete although this is under way: %s", ph.name)
			}
			if ph.work && !told {
				told = true
				p.tell("go")
			}
			if err := c.done(); err != nil {
				if time.Since(t0) > enough {
					return "", nil
				}
				return "cut", fmt.Errorf("%s, under way as the shutdown began: %w", ph.name, err)
			}
			c.close()
		} else if c.may != nil && h.reverse {
			_ = c.conn.SetDeadline(time.Now().Add(patience))
			if err := c.may(); err != nil && strings.HasPrefix(err.Error(), "bad") {
				return "late", fmt.Errorf("%s: %v", ph.name, err)
			}
		} else if c.may == nil { // idle: it is closed
			_ = c.conn.SetReadDeadline(time.Now().Add(patience))
			if b, err := c.br.ReadByte(); err == nil {
				return "idle", fmt.Errorf("an idle connection gets %q", b)
			} else if ne, ok := err.(net.Error); ok && ne.Timeout() {
				return "idle", fmt.Errorf("an idle connection is not closed")
			}
		}
	}
	select {
	case <-p.ended:
	case <-time.After(patience):
		return "hangs", fmt.Errorf("the shutdown does not complete, everything is done")
	}
	if p.code != 0 || !p.over.Load() {
		return "exit", fmt.Errorf("the program ended with %d: %s", p.code, p.tail.String())
	}
	return "", nil
}

func histories(thorough bool) (out []history) {
	n := len(phases)
	add := func(ph ...int) {
		begins := 0
		for _, p := range ph {
			if phases[p].begin {
				begins++
			}
		}
		if begins > 0 && (begins > 1 || !phases[ph[len(ph)-1]].begin) {
			return // it has to be the last to come
		}
		for r := 0; r < 2; r++ {
			if r == 1 && len(ph) == 0 {
				continue
			}
			i := len(out)
			out = append(out, history{phases: ph, reverse: r == 1, listens: 1 + i%3, servers: 1 + i/3%2, wait: i%2 == 0})
			if thorough {
				out = append(out, history{phases: ph, reverse: r == 1, listens: 1, servers: 1, wait: i%2 == 1})
			}
		}
	}
	for a := 0; a < n; a++ { // first, as they take the longest
		if phases[a].busy {
			out = append(out, history{phases: []int{a}, listens: 1, servers: 1, wait: a%2 == 1, hold: 12 * time.Second})
			if thorough {
				out = append(out, history{phases: []int{a}, listens: 1, servers: 1, wait: a%2 == 0, hold: 24 * time.Second})
			}
		}
	}
	add()
	for a := 0; a < n; a++ {
		add(a)
	}
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			if thorough || a <= b || phases[b].begin {
				add(a, b)
			}
		}
	}
	for a := 0; a < n; a++ {
		for b := a; b < n; b++ {
			for c := b; c < n; c++ {
				if phases[c].extra && !thorough {
					continue
				}
				add(a, b, c)
				for d := c; thorough && d < n; d++ {
					add(a, b, c, d)
				}
			}
		}
	}
	return
}

func main() {
	if mode := os.Getenv("C31_CHILD"); mode != "" {
		child(mode)
		return
	}
	vk.Main("C31", "exploration", func(k *vk.Check) {
		k.Rule("every phase a connection can be in as the shutdown begins (15), alone, in pairs and in triples (thorough: fours), completed in both orders, over one to three addresses of one or two servers, in a program of its own that waits for the signal or for the drained channel; every way of not being able to listen")
		k.Assume("the server's own patience of half a minute is not outlasted", "what has not been read as a request yet need not be served")
		hs := histories(k.Thorough())
		k.Set("histories", len(hs))
		sem := make(chan bool, 20)
		var wg sync.WaitGroup
		for i := range hs {
			if k.Stop() {
				break
			}
			sem <- true
			wg.Add(1)
			h := hs[i]
			go func() {
				defer func() { <-sem; wg.Done() }()
				key, err := run(h)
				k.Evals(1)
				k.Traces(1)
				k.Trans(int64(2*len(h.phases) + 1))
				k.Outcome("history of " + fmt.Sprint(len(h.phases)))
				if err != nil && key == "start" && os.Getenv("C31_STRICT") == "" && strings.Contains(err.Error(), "resource temporarily unavailable") {
					k.Cap("no room for more processes")
				} else if err != nil {
					k.Violate(key, h.String()+": "+err.Error(), h.String())
				}
				k.Nontrivial(1)
			}()
		}
		wg.Wait()
		for _, mode := range []string{"used", "wrong", "late", "held", "race", "race", "race", "race", "race"} {
			wg.Add(1)
			mode := mode
			go func() {
				defer wg.Done()
				k.Evals(1)
				p, err := start(mode)
				if err != nil {
					k.Violate("listen/"+mode, mode+": "+err.Error(), mode)
					return
				}
				defer p.kill()
				p.tell("begin")
				select {
				case <-p.ended:
				case <-time.After(patience):
					k.Violate("listen/"+mode, mode+": the shutdown does not complete", mode)
				}
				for _, b := range p.bad {
					k.Violate("listen/"+mode, b, mode)
				}
				k.Outcome("listen " + mode)
			}()
		}
		wg.Wait()
	})
}
