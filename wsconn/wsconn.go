// Package wsconn is the client's end of a websocket connection in memory: what the server reads is pushed here, what it
// writes is kept and taken apart frame by frame. It is instrumented like the code under test.
package wsconn

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"
)

const (
	Cont   byte = 0
	Text   byte = 1
	Binary byte = 2
	Close  byte = 8
	Ping   byte = 9
	Pong   byte = 10
)

// Conn is the server's end.
type Conn struct {
	mu     sync.Mutex
	more   sync.Cond
	in     []byte
	eof    error // after in
	out    []byte
	closed int
	after  int // writes refused after the close
	writes int

	Chunk  int // at most that many bytes per read
	FailAt int // the write with that number fails (and all after it), 0 never
}

var ErrBroken = errors.New("broken pipe")

func New() *Conn {
	c := &Conn{}
	c.more.L = &c.mu
	return c
}

func (c *Conn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for len(c.in) == 0 && c.eof == nil && c.closed == 0 {
		c.more.Wait()
	}
	if c.closed > 0 {
		return 0, net.ErrClosed
	}
	if len(c.in) == 0 {
		return 0, c.eof
	}
	n := len(c.in)
	if c.Chunk > 0 && n > c.Chunk {
		n = c.Chunk
	}
	n = copy(p, c.in[:n])
	c.in = c.in[n:]
	return n, nil
}

func (c *Conn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed > 0 {
		c.after++
		return 0, net.ErrClosed
	}
	c.writes++
	if c.FailAt > 0 && c.writes >= c.FailAt {
		return 0, ErrBroken
	}
	c.out = append(c.out, p...)
	return len(p), nil
}

func (c *Conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closed++
	c.more.Broadcast()
	if c.closed > 1 {
		return net.ErrClosed
	}
	return nil
}

type addr struct{}

func (addr) Network() string { return "mem" }
func (addr) String() string  { return "mem:0" }

func (c *Conn) LocalAddr() net.Addr                { return addr{} }
func (c *Conn) RemoteAddr() net.Addr               { return addr{} }
func (c *Conn) SetDeadline(t time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }

// Push gives the server more to read.
func (c *Conn) Push(b []byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.in = append(c.in, b...)
	c.more.Broadcast()
}

// End: the peer is gone.
func (c *Conn) End(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.eof == nil {
		c.eof = err
	}
	c.more.Broadcast()
}

func (c *Conn) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed > 0
}

func (c *Conn) Out() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.out
}

// Msg is one websocket frame of the server.
type Msg struct {
	Op   byte
	Data string
}

func (m Msg) String() string { return fmt.Sprintf("%d:%q", m.Op, m.Data) }

// Frames takes the output apart, after the handshake.
func (c *Conn) Frames() (l []Msg, status string, err error) {
	b := c.Out()
	i := bytes.Index(b, []byte("\r\n\r\n"))
	if i < 0 {
		return nil, "", fmt.Errorf("no handshake in %q", b)
	}
	status = strings.SplitN(string(b[:i]), "\r\n", 2)[0]
	b = b[i+4:]
	for len(b) > 0 {
		if len(b) < 2 {
			return l, status, fmt.Errorf("torn header %x", b)
		}
		if b[0]&0x70 != 0 || b[0]&0x80 == 0 || b[1]&0x80 != 0 {
			return l, status, fmt.Errorf("bad header %x", b[:2])
		}
		m := Msg{Op: b[0] & 15}
		n, h := uint64(b[1]), 2
		switch n {
		case 126:
			if len(b) < 4 {
				return l, status, fmt.Errorf("torn header %x", b)
			}
			n, h = uint64(binary.BigEndian.Uint16(b[2:])), 4
		case 127:
			if len(b) < 10 {
				return l, status, fmt.Errorf("torn header %x", b)
			}
			n, h = binary.BigEndian.Uint64(b[2:]), 10
		}
		if uint64(len(b)-h) < n {
			return l, status, fmt.Errorf("torn frame: %d of %d bytes", len(b)-h, n)
		}
		if m.Op >= 8 && n > 125 {
			return l, status, fmt.Errorf("control frame of %d bytes", n)
		}
		m.Data = string(b[h : h+int(n)])
		l = append(l, m)
		b = b[h+int(n):]
	}
	return l, status, nil
}

// Frame of a client: masked.
func Frame(fin bool, op byte, data string) []byte {
	b := []byte{op, 0x80}
	if fin {
		b[0] |= 0x80
	}
	switch n := len(data); {
	case n <= 125:
		b[1] |= byte(n)
	case n < 65536:
		b[1] |= 126
		b = binary.BigEndian.AppendUint16(b, uint16(n))
	default:
		b[1] |= 127
		b = binary.BigEndian.AppendUint64(b, uint64(n))
	}
	key := []byte{0x37, 0xfa, 0x21, 0x3d}
	b = append(b, key...)
	for i := 0; i < len(data); i++ {
		b = append(b, data[i]^key[i%4])
	}
	return b
}

type writer struct {
	c *Conn
	h http.Header
}

func (w *writer) Header() http.Header         { return w.h }
func (w *writer) Write(p []byte) (int, error) { return 0, http.ErrHijacked }
func (w *writer) WriteHeader(int)             {}
func (w *writer) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return w.c, bufio.NewReadWriter(bufio.NewReader(w.c), bufio.NewWriter(w.c)), nil
}

// Serve runs a server on the connection until it returns; a panic, which net/http would catch, is returned.
func Serve(h http.Handler, c context.Context, conn *Conn) (panicked any) {
	r := &http.Request{Method: "GET", URL: &url.URL{Path: "/ws"}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Host: "mem", RequestURI: "/ws", Body: http.NoBody, Header: http.Header{
		"Upgrade": {"websocket"}, "Connection": {"Upgrade"}, "Sec-Websocket-Key": {"dGhlIHNhbXBsZSBub25jZQ=="}, "Sec-Websocket-Version": {"13"}, "Origin": {"http://mem/"},
	}}
	defer func() { panicked = recover() }()
	h.ServeHTTP(&writer{conn, http.Header{}}, r.WithContext(c))
	return nil
}

// EOF ends a connection the polite way.
var EOF = io.EOF
