package mcrt

import (
	"fmt"
	"os"
	"reflect"
	"unsafe"
)

// hchan mirrors the head of runtime.hchan.
type hchan struct {
	qcount   uint
	dataqsiz uint
	buf      unsafe.Pointer
	elemsize uint16
	closed   uint32
}

func init() {
	c := make(chan int, 3)
	c <- 1
	h := hof(c)
	ok := h.qcount == 1 && h.dataqsiz == 3 && h.closed == 0 && h.elemsize == 8
	close(c)
	ok = ok && h.closed == 1
	if !ok {
		fmt.Fprintln(os.Stderr, "mcrt: unknown channel layout in this Go release")
		os.Exit(2)
	}
}

func hof[T any](c chan T) *hchan { return *(**hchan)(unsafe.Pointer(&c)) }

// Case is one channel operation.
type Case struct {
	h    *hchan
	send bool
	val  unsafe.Pointer // *T: value to send, or where to receive
	ok   *bool          // receive: set when the value came from a sender
	rc   *reflect.SelectCase
}

// RC is the receiving side of a channel.
type RC[T any] struct {
	c  <-chan T
	v  *T
	ok *bool
}

// SC is the sending side of a channel.
type SC[T any] struct{ c chan<- T }

func R[T any](c <-chan T) RC[T] { return RC[T]{c, new(T), new(bool)} }
func W[T any](c chan<- T) SC[T] { return SC[T]{c} }

func (r RC[T]) h() *hchan { return *(**hchan)(unsafe.Pointer(&r.c)) }
func (s SC[T]) h() *hchan { return *(**hchan)(unsafe.Pointer(&s.c)) }

// Sel is the outcome of a select.
type Sel struct {
	I       int // chosen case, -1 for default
	partner *thread
	pk      int
	direct  bool // a partner completed it
	rv      reflect.Value
	rok     bool
}

func (r RC[T]) Case() Case {
	c := Case{h: r.h(), val: unsafe.Pointer(r.v), ok: r.ok}
	if !S.active {
		c.rc = &reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.c)}
	}
	return c
}

func (s SC[T]) Case(v T) (Case, *T) {
	p := new(T)
	*p = v
	c := Case{h: s.h(), send: true, val: unsafe.Pointer(p)}
	if !S.active {
		c.rc = &reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(s.c), Send: reflect.ValueOf(p).Elem()}
	}
	return c, p
}

// Recv receives.
func (r RC[T]) Recv() T { v, _ := r.Recv2(); return v }

func (r RC[T]) Recv2() (T, bool) {
	if !S.active {
		v, ok := <-r.c
		return v, ok
	}
	s := Select1(OpRecv, r.Case())
	return r.Got(&s)
}

// Zero is a typed zero value with the flag that goes with it.
func (r RC[T]) Zero() (T, bool) { var z T; return z, false }

// Got finishes a receive case and returns what was received.
func (r RC[T]) Got(s *Sel) (T, bool) {
	if !S.active {
		if s.rok {
			v, _ := s.rv.Interface().(T)
			return v, true
		}
		var z T
		return z, false
	}
	switch {
	case s.direct:
		return *r.v, *r.ok
	case s.partner != nil:
		v := *(*T)(s.partner.cases[s.pk].val)
		completed(s.partner, s.pk)
		return v, true
	default:
		v, ok := <-r.c // cannot block
		return v, ok
	}
}

func (s SC[T]) Send(v T) {
	if !S.active {
		s.c <- v
		return
	}
	c, p := s.Case(v)
	x := Select1(OpSend, c)
	s.Sent(&x, p)
}

// Sent finishes a send case.
func (s SC[T]) Sent(x *Sel, p *T) {
	if !S.active {
		return
	}
	switch {
	case x.direct:
	case x.partner != nil:
		q := &x.partner.cases[x.pk]
		*(*T)(q.val) = *p
		*q.ok = true
		completed(x.partner, x.pk)
	default:
		s.c <- *p // cannot block; panics if closed, as it should
	}
}

func completed(p *thread, k int) {
	RaceReleaseMerge(unsafe.Pointer(&p.cell[0]))
	p.fired = int32(k)
}

// Close closes a channel.
func Close[T any](c chan<- T) {
	if S.active {
		Point(OpClose, *(*unsafe.Pointer)(unsafe.Pointer(&c)))
	}
	close(c)
}

// Select1 performs a single operation.
func Select1(op Op, c Case) Sel {
	t := S.cur
	t.cases[0] = c
	t.ncases = 1
	return sel(t, op, false)
}

// Select performs a select statement.
func Select(hasDefault bool, cs ...Case) *Sel {
	if !S.active {
		return realSelect(hasDefault, cs)
	}
	t := S.cur
	if len(cs) > maxCases {
		fail(stInternal, "select with too many cases")
	}
	for i := range cs {
		t.cases[i] = cs[i]
	}
	t.ncases = len(cs)
	s := sel(t, OpSelect, hasDefault)
	return &s
}

func sel(t *thread, op Op, hasDefault bool) Sel {
	mark(t, op, unsafe.Pointer(t.cases[0].h))
	t.wk = wReady
	t.fired = -1
	schedule(t)
	for {
		var ready [maxCases]int
		n := 0
		for i := 0; i < t.ncases; i++ {
			if caseReady(t, &t.cases[i]) {
				ready[n] = i
				n++
			}
		}
		if n > 0 {
			i := ready[choose(n)]
			c := &t.cases[i]
			s := Sel{I: i}
			if c.h.closed == 0 && c.h.dataqsiz == 0 {
				p := partner(t, c)
				s.partner = p
				for k := 0; k < p.ncases; k++ {
					if p.cases[k].h == c.h && p.cases[k].send != c.send {
						s.pk = k
						break
					}
				}
				RaceAcquire(unsafe.Pointer(&p.cell[1]))
			}
			return s
		}
		if hasDefault {
			return Sel{I: -1}
		}
		S.seq++
		t.seq = S.seq
		t.fired = -1
		t.wk = wChan
		RaceRelease(unsafe.Pointer(&t.cell[1]))
		schedule(t)
		t.wk = wReady
		if t.fired >= 0 {
			i := int(t.fired)
			t.fired = -1
			RaceAcquire(unsafe.Pointer(&t.cell[0]))
			return Sel{I: i, direct: true}
		}
	}
}

func realSelect(hasDefault bool, cs []Case) *Sel {
	var rc []reflect.SelectCase
	for _, c := range cs {
		rc = append(rc, *c.rc)
	}
	if hasDefault {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(rc)
	if hasDefault && i == len(cs) {
		i = -1
	}
	return &Sel{I: i, rv: v, rok: ok}
}
