// C30: the buffered pipe of the test package against a byte stream: every sequence of operations to a depth, every
// schedule of appenders, readers, writers and closers.
package main

import (
	"bytes"
	"fmt"
	"io"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Aize-Public/forego/test"

	"verif.local/mc/lib/mc"
	"verif.local/mc/mcrt"
	"verif.local/mc/mcrt/lin"
)

// one operation on the pipe and on its model
type model struct {
	pending []byte
	open    bool
	writing bool
	written [][]byte
	next    byte
	pipe    *test.BufferedRWC
	hist    string
}

func (m *model) fresh(n int) []byte {
	b := make([]byte, n, n+1)
	for i := range b {
		m.next++
		b[i] = m.next
	}
	return b
}

func (m *model) read(x *mcrt.X, n, capacity int) {
	m.hist += fmt.Sprintf("Read(%d of %d); ", n, capacity)
	if len(m.pending) == 0 && m.open && (n > 0 || capacity > 0) {
		return // would block (also with room for nothing, see the probes)
	}
	dst := make([]byte, n, capacity)
	for i := range dst[:capacity] {
		dst[:capacity][i] = 255
	}
	got, err := m.pipe.Read(dst)
	switch {
	case got < 0 || got > n:
		x.Failf("count", "%s: read %d of %d", m.hist, got, n)
	case err == io.EOF && (len(m.pending) > 0 || m.open):
		x.Failf("eof", "%s: end of file with %d bytes pending, open %v", m.hist, len(m.pending), m.open)
	case err != nil && err != io.EOF:
		x.Failf("error", "%s: %v", m.hist, err)
	case err == io.EOF && got != 0:
		x.Failf("eof", "%s: %d bytes with the end of file", m.hist, got)
	case err == nil && got == 0 && n > 0:
		x.Failf("nothing", "%s: nothing read of %d bytes, open %v", m.hist, len(m.pending), m.open)
	case !bytes.HasPrefix(m.pending, dst[:got]):
		x.Failf("bytes", "%s: read %v of %v", m.hist, dst[:got], m.pending)
	default:
		for _, b := range dst[:capacity][got:] {
			if b != 255 {
				x.Failf("beyond", "%s: read %d, the slice beyond is changed: %v", m.hist, got, dst[:capacity])
				break
			}
		}
		m.pending = m.pending[got:]
	}
}

func (m *model) write(x *mcrt.X, n int) {
	m.hist += fmt.Sprintf("Write(%d); ", n)
	b := m.fresh(n)
	got, err := m.pipe.Write(b)
	if n == 0 {
		if got != 0 {
			x.Failf("write", "%s: %d %v", m.hist, got, err)
		}
		return
	}
	if m.open != (err == nil) || m.open && got != n || !m.open && got != 0 {
		x.Failf("write", "%s: %d %v, open %v", m.hist, got, err, m.open)
		return
	}
	if m.open {
		m.written = append(m.written, append([]byte{}, b...))
	}
}

func (m *model) append(x *mcrt.X, n int) {
	m.hist += fmt.Sprintf("Append(%d); ", n)
	b := m.fresh(n)
	refused := func() (r any) {
		defer func() { r = recover() }()
		m.pipe.Append(b)
		return nil
	}()
	if (refused == nil) != m.open || refused != nil && refused != io.ErrClosedPipe {
		x.Failf("append", "%s: %v, open %v", m.hist, refused, m.open)
	}
	if refused == nil {
		m.pending = append(m.pending, b...)
	}
}

func (m *model) close(x *mcrt.X) {
	m.hist += "Close; "
	err := m.pipe.Close()
	if m.open && err != nil {
		x.Failf("close", "%s: %v", m.hist, err)
	}
	m.open = false
}

func (m *model) look(x *mcrt.X) {
	if got := m.pipe.HasRead(); got != (len(m.pending) > 0) {
		x.Failf("hasread", "%s: HasRead is %v, %d bytes pending", m.hist, got, len(m.pending))
	}
	if got := m.pipe.IsReadClosed(); got == m.open {
		x.Failf("readclosed", "%s: IsReadClosed is %v", m.hist, got)
	}
	if a, b := bytes.Join(m.pipe.Written, nil), bytes.Join(m.written, nil); !bytes.Equal(a, b) {
		x.Failf("written", "%s: written %v, not %v", m.hist, a, b)
	}
}

func sequences(depth int, first int) *mcrt.Scenario {
	ops := []func(m *model, x *mcrt.X){
		func(m *model, x *mcrt.X) { m.append(x, 1) },
		func(m *model, x *mcrt.X) { m.append(x, 3) },
		func(m *model, x *mcrt.X) { m.read(x, 0, 0) },
		func(m *model, x *mcrt.X) { m.read(x, 0, 4) },
		func(m *model, x *mcrt.X) { m.read(x, 1, 4) },
		func(m *model, x *mcrt.X) { m.read(x, 2, 2) },
		func(m *model, x *mcrt.X) { m.read(x, 5, 5) },
		func(m *model, x *mcrt.X) { m.write(x, 2) },
		func(m *model, x *mcrt.X) { m.write(x, 0) },
		func(m *model, x *mcrt.X) { m.close(x) },
		func(m *model, x *mcrt.X) { m.hist += "SetReadClosed; "; m.pipe.SetReadClosed(); m.open = false },
	}
	return &mcrt.Scenario{Name: fmt.Sprintf("sequences of %d operations, the first being %d", depth, first), MaxBound: -1, NoRace: true, NoUnlockPoints: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		m := &model{open: true, pipe: test.NewBufferedRWC()}
		ops[first](m, x)
		m.look(x)
		for i := 1; i < depth; i++ {
			ops[mcrt.Choose(len(ops))](m, x)
			m.look(x)
		}
		// the rest comes out, then the end
		m.pipe.SetReadClosed()
		m.open = false
		for i := 0; i < 20 && len(m.pending) > 0; i++ {
			m.read(x, 2, 3)
		}
		m.read(x, 1, 1)
		x.Outf("%d", len(m.hist)/8)
		return nil
	}}
}

// large: many appends of every size, read in pieces of every size, with writes between
func large() *mcrt.Scenario {
	counts, sizes, reads := []int{5, 17, 40, 130}, []int{1, 7, 500, 5000, 70000}, []int{1, 3, 64, 512, 4096, 40000, 100000}
	return &mcrt.Scenario{Name: "many appends of every size", MaxBound: -1, NoRace: true, NoUnlockPoints: true, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		m := &model{open: true, pipe: test.NewBufferedRWC()}
		count, size, read := counts[mcrt.Choose(len(counts))], sizes[mcrt.Choose(len(sizes))], reads[mcrt.Choose(len(reads))]
		order := mcrt.Choose(4)
		if count*size/read > 2000 || count*size > 1<<20 {
			return nil
		}
		what := fmt.Sprintf("%d appends of %d, reads of %d, order %d: ", count, size, read, order)
		for i := 0; i < count; i++ {
			m.hist = what
			n := size
			if i%3 == 1 {
				n = size/2 + 1
			}
			m.append(x, n)
			switch order {
			case 1: // a read after each
				m.read(x, read, read+1)
			case 2: // and a write
				m.write(x, n)
				if i%2 == 0 {
					m.read(x, read, read)
				}
			case 3: // as much as there is now and then
				for i%8 == 7 && len(m.pending) > 0 {
					m.read(x, read, read)
				}
			}
			if i < 3 || i%16 == 0 {
				m.look(x)
			}
		}
		m.look(x)
		m.close(x)
		for i := 0; i < 5000 && len(m.pending) > 0; i++ {
			m.hist = what + "the rest: "
			m.read(x, read, read+2)
		}
		if len(m.pending) > 0 {
			x.Failf("rest", "%s %d bytes do not come out", what, len(m.pending))
		}
		m.read(x, 1, 1)
		m.look(x)
		return nil
	}}
}

const nOps = 11

type readRec struct {
	call, ret, who int
	data           []byte
}

// appenders with reused slices, readers of several sizes, and a closer
func stream(name string, appends [][]int, reads []int, bound, quick int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, MaxBound: bound, QuickBound: quick, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		p := test.NewBufferedRWC()
		var book lin.Book
		var ap, rd sync.WaitGroup
		next := byte(0)
		var order [][]byte
		for _, sizes := range appends {
			var chunks [][]byte
			for _, n := range sizes {
				var c []byte
				for i := 0; i < n; i++ {
					next++
					c = append(c, next)
				}
				chunks = append(chunks, c)
			}
			order = append(order, bytes.Join(chunks, nil))
			ap.Add(1)
			go func() {
				defer ap.Done()
				for _, c := range chunks {
					p.Append(append([]byte{}, c...))
				}
			}()
		}
		for who, size := range reads {
			who, size := who, size
			rd.Add(1)
			go func() {
				defer rd.Done()
				for {
					r := readRec{call: book.Tick(), who: who}
					dst := make([]byte, size)
					n, err := p.Read(dst)
					r.ret, r.data = book.Tick(), dst[:n]
					book.Add(r)
					if err != nil {
						if err != io.EOF || n > 0 {
							x.Failf("error", "read %d: %v", n, err)
						}
						return
					}
					if n == 0 {
						x.Failf("nothing", "a read of nothing")
						return
					}
				}
			}()
		}
		ap.Wait()
		p.SetReadClosed()
		rd.Wait()
		if p.HasRead() {
			x.Failf("left", "bytes are left")
		}
		return func(x *mcrt.X, i *mcrt.Info) {
			mcrt.DefaultJudge(&mcrt.Scenario{}, x, i)
			seen := map[byte]int{}
			var recs []readRec
			for _, v := range book.All() {
				r := v.(readRec)
				if len(r.data) == 0 {
					continue
				}
				recs = append(recs, r)
				for _, b := range r.data {
					seen[b]++
				}
			}
			total := 0
			src := map[byte]int{}
			for a, o := range order {
				total += len(o)
				for _, b := range o {
					src[b] = a
					if seen[b] != 1 {
						x.Failf("once", "byte %d is read %d times", b, seen[b])
					}
				}
			}
			if len(seen) != total {
				x.Failf("invented", "read %v of %d bytes", seen, total)
			}
			for _, r := range recs {
				for i := 1; i < len(r.data); i++ {
					if src[r.data[i]] == src[r.data[i-1]] && r.data[i] != r.data[i-1]+1 {
						x.Failf("order", "one read gives %v", r.data)
					}
				}
			}
			// of one appender: what is read later was appended later
			for _, a := range recs {
				for _, b := range recs {
					if a.ret < b.call {
						for _, u := range a.data {
							for _, v := range b.data {
								if src[u] == src[v] && u > v {
									x.Failf("order", "%d is read before %d", u, v)
								}
							}
						}
					}
				}
			}
			x.Outf("%d reads", len(recs))
		}
	}}
}

// readers that wait when the pipe is closed, and a close that meets appends and writes
func closing(name, how string, bound, quick int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name + ", " + how, MaxBound: bound, QuickBound: quick, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		p := test.NewBufferedRWC()
		var wg sync.WaitGroup
		wg.Add(4)
		var closed sync.WaitGroup
		closed.Add(1)
		got := make([][]byte, 2)
		for i := range got {
			i := i
			go func() {
				defer wg.Done()
				if how == "Close" {
					closed.Wait() // a reader that waits already: see the probes
				}
				b, err := io.ReadAll(p)
				if err != nil {
					x.Failf("error", "%v", err)
				}
				got[i] = b
			}()
		}
		appended := ""
		go func() {
			defer wg.Done()
			for _, s := range []string{"ab", "c"} {
				if func() (ok bool) {
					defer func() { ok = recover() == nil }()
					p.Append([]byte(s))
					return
				}() {
					appended += s
				}
			}
		}()
		written := 0
		go func() {
			defer wg.Done()
			for i := 0; i < 2; i++ {
				n, err := p.Write([]byte("x"))
				if n == 1 && err == nil {
					written++
				} else if n != 0 || err != io.ErrClosedPipe {
					x.Failf("write", "%d %v", n, err)
				}
			}
		}()
		switch how {
		case "Close":
			if err := p.Close(); err != nil {
				x.Failf("close", "%v", err)
			}
		case "SetReadClosed":
			p.SetReadClosed()
		}
		closed.Done()
		if n, err := p.Write([]byte("y")); n != 0 || err != io.ErrClosedPipe {
			x.Failf("write", "after %s: %d %v", how, n, err)
		}
		wg.Wait()
		if n := len(got[0]) + len(got[1]); n != len(appended) {
			x.Failf("lost", "%q appended, %q read", appended, got)
		}
		if n := len(bytes.Join(p.Written, nil)); n != written {
			x.Failf("written", "%d of %d bytes written", n, written)
		}
		x.Outf("%s %d", appended, written)
		return nil
	}}
}

// writers at the same time
func writers(name string, bound, quick int) *mcrt.Scenario {
	return &mcrt.Scenario{Name: name, MaxBound: bound, QuickBound: quick, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
		p := test.NewBufferedRWC()
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 2; j++ {
					buf := make([]byte, 2)
					buf[0], buf[1] = byte(10*i+j), byte(10*i+j+100)
					if n, err := p.Write(buf); n != 2 || err != nil {
						x.Failf("write", "%d %v", n, err)
					}
				}
			}()
		}
		wg.Wait()
		all := bytes.Join(p.Written, nil)
		last := map[byte]int{0: -1, 1: -1}
		for k := 0; k < len(all); k += 2 {
			i, j := all[k]/10, int(all[k]%10)
			if k+1 >= len(all) || all[k+1] != all[k]+100 || j != last[i]+1 {
				x.Failf("written", "%v", all)
				break
			}
			last[i] = j
		}
		if len(all) != 8 {
			x.Failf("written", "%v", all)
		}
		x.Outf("%v", all)
		return nil
	}}
}

func main() {
	mc.Main("C30", mc.Options{QuickBound: 3, ThoroughBound: 5,
		Rule:   "every sequence of operations to the depth bound, reads of several lengths and capacities; up to 130 appends and a megabyte of data in pieces of every size; every schedule up to the preemption bound of appenders, readers of several sizes, writers and a closer; each known defect in a scenario of its own, which the other scenarios leave out",
		Assume: []string{"an operation that would wait forever is left out of the sequences; waiting is explored in the schedules"},
	}, func() []*mcrt.Scenario {
		depth := 5
		if mc.Thorough() {
			depth = 7
		}
		var s []*mcrt.Scenario
		for i := 0; i < nOps; i++ {
			s = append(s, sequences(depth, i))
		}
		s = append(s,
			stream("one appender, one reader", [][]int{{2, 1, 3}}, []int{2}, 6, 4),
			stream("one appender, large reads", [][]int{{2, 1}}, []int{8}, 6, 4),
			stream("one appender, two readers", [][]int{{3, 1}}, []int{1, 2}, 5, 2),
			stream("one chunk, two readers", [][]int{{4}}, []int{1, 2}, 5, 2),
			stream("two appenders, one reader", [][]int{{2, 1}, {1, 2}}, []int{2}, 5, 2),
			stream("two appenders, two readers", [][]int{{2}, {1}}, []int{1, 2}, 4, 1),
			stream("three readers", [][]int{{3}}, []int{1, 1, 1}, 4, 1),
			closing("close meets readers, appends and writes", "Close", 4, 2),
			closing("close meets readers, appends and writes", "SetReadClosed", 4, 2),
			writers("two writers", 6, 5), large())
		return append(s, probes()...)
	})
}

// what is known to go wrong, each on its own so that the rest is explored without it
func probes() []*mcrt.Scenario {
	probe := func(name string, f func(x *mcrt.X, p *test.BufferedRWC)) *mcrt.Scenario {
		// no preemption, so that a sleep is over when everybody waits
		return &mcrt.Scenario{Name: name, MaxBound: 0, QuickBound: 0, Body: func(x *mcrt.X) func(*mcrt.X, *mcrt.Info) {
			f(x, test.NewBufferedRWC())
			x.Outf("%s", name)
			return nil
		}}
	}
	read := func(p *test.BufferedRWC, wg *sync.WaitGroup, done *atomic.Int32, n, capacity int) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			_, _ = p.Read(make([]byte, n, capacity))
			done.Add(1)
		}()
	}
	settle := func(x *mcrt.X, p *test.BufferedRWC, wg *sync.WaitGroup, done *atomic.Int32, n int32) {
		time.Sleep(time.Second)
		if done.Load() != n {
			x.Failf("waits", "%d of %d readers are back", done.Load(), n)
		}
		p.SetReadClosed()
		wg.Wait()
	}
	return []*mcrt.Scenario{
		probe("an appended slice is used again", func(x *mcrt.X, p *test.BufferedRWC) {
			b, got := []byte("ab"), make([]byte, 2)
			p.Append(b)
			b[0] = 'x'
			if n, err := p.Read(got); string(got[:n]) != "ab" || err != nil {
				x.Failf("changed", "%q %v", got, err)
			}
		}),
		probe("a written slice is used again", func(x *mcrt.X, p *test.BufferedRWC) {
			b := []byte("ab")
			_, _ = p.Write(b)
			b[0] = 'x'
			if got := bytes.Join(p.Written, nil); string(got) != "ab" {
				x.Failf("changed", "%q", got)
			}
		}),
		probe("an empty append", func(x *mcrt.X, p *test.BufferedRWC) {
			got := make([]byte, 2)
			p.Append(nil)
			p.Append([]byte("a"))
			if n, err := p.Read(got); n != 1 || err != nil {
				x.Failf("nothing", "read %d, %v", n, err)
			}
		}),
		probe("a read into no room", func(x *mcrt.X, p *test.BufferedRWC) {
			var wg sync.WaitGroup
			var done atomic.Int32
			read(p, &wg, &done, 0, 4)
			settle(x, p, &wg, &done, 1)
		}),
		probe("Close with a waiting reader", func(x *mcrt.X, p *test.BufferedRWC) {
			var wg sync.WaitGroup
			var done atomic.Int32
			read(p, &wg, &done, 1, 1)
			time.Sleep(time.Second)
			_ = p.Close()
			settle(x, p, &wg, &done, 1)
		}),
		probe("an append for two waiting readers", func(x *mcrt.X, p *test.BufferedRWC) {
			var wg sync.WaitGroup
			var done atomic.Int32
			read(p, &wg, &done, 1, 1)
			read(p, &wg, &done, 1, 1)
			time.Sleep(time.Second)
			p.Append([]byte("ab"))
			settle(x, p, &wg, &done, 2)
		}),
		probe("the Closed field", func(x *mcrt.X, p *test.BufferedRWC) {
			_ = p.Close()
			if !p.Closed {
				x.Failf("unset", "not set by Close")
			}
		}),
	}
}
