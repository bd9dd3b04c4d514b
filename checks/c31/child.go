package main

import (
	"bufio"
	"fmt"
	"io"
	"log/slog"
	"net"
	gohttp "net/http"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/http/ws"
	"github.com/Aize-Public/forego/shutdown"
)

// ---------------------------------------------------------------- the program that serves

// Op is served as an API.
type Op struct {
	_   string `url:"/api"`
	In  string `api:"in"`
	Out int    `api:"out"`
}

func (o *Op) Do(ctx.C) error { o.Out = len(o.In); return nil }

// Obj is served over a WebSocket.
type Obj struct{ n int }

func (o *Obj) Init(c ws.C, in int) error { o.n = in; return c.Reply("hello", in) }
func (o *Obj) Add(c ws.C, in int) error  { o.n += in; return c.Reply("sum", o.n) }
func (o *Obj) Work(c ws.C) error {
	say("working")
	<-goOn
	return c.Reply("worked", o.n)
}

var (
	goOn  = make(chan struct{})
	sayMu sync.Mutex
)

func say(f string, a ...any) {
	sayMu.Lock()
	defer sayMu.Unlock()
	fmt.Fprintf(os.Stderr, "\x01"+f+"\n", a...)
}

var big = []byte(`"` + strings.Repeat("0123456789abcdef", bigSize/16) + `"`)

const bigSize = 24 << 20

func server(c ctx.C) *http.Server {
	s := http.NewServer(c)
	s.HandleRequest("/body", func(c ctx.C, in []byte, r *gohttp.Request) ([]byte, error) {
		return []byte(fmt.Sprintf(`{"got":%d}`, len(in))), nil
	})
	s.HandleRequest("/big", func(c ctx.C, in []byte, r *gohttp.Request) ([]byte, error) { return big, nil })
	s.HandleFunc("/work", func(w gohttp.ResponseWriter, r *gohttp.Request) {
		say("working")
		<-goOn
		_, _ = io.WriteString(w, "worked")
	})
	s.Handle("/stop", gohttp.HandlerFunc(func(w gohttp.ResponseWriter, r *gohttp.Request) { // asks for the shutdown itself
		shutdown.Begin()
		say("working")
		<-goOn
		_, _ = io.WriteString(w, "worked")
	}))
	s.MustRegisterAPI(c, &Op{})
	s.Handle("/ws", ws.Handler{OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error {
		if s, ok := n.(enc.String); ok && s == "work" {
			say("working")
			<-goOn
		}
		return conn.Send(c, n)
	}}.Server())
	s.Handle("/slow", ws.Handler{OnConnect: func(c ctx.C, conn *ws.Conn) (ctx.C, error) {
		say("working")
		<-goOn
		return c, nil
	}, OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error { return conn.Send(c, n) }}.Server())
	h := &ws.RpcHandler{}
	h.MustRegister(c, &Obj{})
	s.Handle("/rpc", h.Server())
	return s
}

// child serves at as many addresses as asked for until it is told to end
func child(mode string) {
	log.SetDefaultLoggerLevel(slog.LevelError + 100)
	c, cf := ctx.Background()
	defer cf(nil)
	var n, servers int
	wait := false
	if _, err := fmt.Sscanf(mode, "%d/%d/%t", &n, &servers, &wait); err == nil {
		var all []*http.Server
		for i := 0; i < servers; i++ {
			all = append(all, server(c))
		}
		addrs := ""
		for i := 0; i < n; i++ {
			a, err := all[i%servers].Listen(c, "127.0.0.1:0")
			if err != nil {
				say("error %v", err)
				os.Exit(3)
			}
			addrs += " " + a.String()
		}
		say("addrs%s", addrs)
	} else if !listening(c, mode) {
		os.Exit(4)
	}
	go func() {
		in := bufio.NewScanner(os.Stdin)
		for in.Scan() {
			switch in.Text() {
			case "begin":
				shutdown.Begin()
			case "go":
				close(goOn)
			}
		}
		os.Exit(5) // the parent is gone
	}()
	if wait {
		shutdown.WaitForSignal(c, cf)
	} else {
		<-shutdown.Started()
		<-shutdown.Done()
	}
	say("over")
	os.Exit(0)
}

// listening: what Listen gives when it can't, or when it is too late
func listening(c ctx.C, mode string) bool {
	s := server(c)
	listen := func(addr string) (a *net.TCPAddr, err error, ended bool) {
		ch := make(chan bool)
		go func() {
			defer close(ch)
			a, err = s.Listen(c, addr)
		}()
		select {
		case <-ch:
			return a, err, true
		case <-time.After(20 * time.Second):
			return nil, nil, false
		}
	}
	drained := func() bool {
		select {
		case <-shutdown.Done():
			return true
		default:
			return false
		}
	}
	switch mode {
	case "used": // an address in use
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			say("error %v", err)
			return false
		}
		a, err, ended := listen(l.Addr().String())
		if !ended || err == nil {
			say("bad Listen on an address in use gives %v, %v, ended: %v", a, err, ended)
		}
		if !drained() {
			say("bad a server that could not listen holds the shutdown")
		}
		_ = l.Close()
		if a, err, ended = listen(l.Addr().String()); !ended || err != nil || a.String() != l.Addr().String() {
			say("bad Listen on %v once it is free gives %v, %v, ended: %v", l.Addr(), a, err, ended)
		}
	case "wrong":
		for _, addr := range []string{"127.0.0.1:99999", "nowhere", "127.0.0.1", "1.2.3.4.5:80", "127.0.0.1:x"} {
			if a, err, ended := listen(addr); !ended || err == nil {
				say("bad Listen on %q gives %v, %v, ended: %v", addr, a, err, ended)
			}
			if !drained() {
				say("bad a server that could not listen holds the shutdown")
			}
		}
	case "late": // the shutdown has begun: nothing is served, and nothing held for long
		shutdown.Begin()
		for i := 0; i < 3; i++ {
			a, err, ended := listen("127.0.0.1:0")
			if !ended {
				say("bad Listen does not return once the shutdown has begun")
			} else if err == nil && a == nil {
				say("bad Listen gives neither address nor error")
			}
			time.Sleep(time.Duration(i) * 10 * time.Millisecond)
			if a != nil {
				for end := time.Now().Add(20 * time.Second); ; time.Sleep(5 * time.Millisecond) {
					conn, err := net.Dial("tcp", a.String())
					if err != nil {
						break
					}
					_ = conn.Close()
					if time.Now().After(end) {
						say("bad %v takes connections long after the shutdown has begun", a)
						break
					}
				}
			}
		}
	case "race": // Listen and the shutdown at once
		done := make(chan bool)
		go func() { defer close(done); shutdown.Begin() }()
		if a, err, ended := listen("127.0.0.1:0"); !ended {
			say("bad Listen does not return, the shutdown began at the same time")
		} else if err == nil && a == nil {
			say("bad Listen gives neither address nor error")
		}
		<-done
	case "held": // a listening server holds the shutdown
		a, err, ended := listen("127.0.0.1:0")
		if !ended || err != nil {
			say("bad Listen gives %v %v", a, err)
		}
		if drained() {
			say("bad a listening server does not hold the shutdown")
		}
	}
	say("addrs")
	return true
}
