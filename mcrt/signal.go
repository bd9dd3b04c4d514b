package mcrt

import "os"

type sigReg struct {
	c    chan<- os.Signal
	all  bool
	n    int
	sigs [16]os.Signal
}

var sigRegs [16]sigReg
var nSigRegs int

func resetSignals() { nSigRegs = 0 }

func SignalNotify(c chan<- os.Signal, sigs ...os.Signal) {
	Point(OpSignal, nil)
	r := sigReg{c: c, all: len(sigs) == 0}
	for _, s := range sigs {
		r.sigs[r.n] = s
		r.n++
	}
	sigRegs[nSigRegs] = r
	nSigRegs++
}

func SignalStop(c chan<- os.Signal) {
	Point(OpSignal, nil)
	for i := 0; i < nSigRegs; i++ {
		if sigRegs[i].c == c {
			sigRegs[i] = sigReg{}
		}
	}
}

// Raise delivers a signal the way the runtime does: a non-blocking send to everyone registered for it.
// It reports whether anyone was.
func Raise(s os.Signal) bool {
	Point(OpSignal, nil)
	hit := false
	for i := 0; i < nSigRegs; i++ {
		r := &sigRegs[i]
		if r.c == nil {
			continue
		}
		m := r.all
		for k := 0; k < r.n; k++ {
			m = m || r.sigs[k] == s
		}
		if m {
			hit = true
			select {
			case r.c <- s:
			default:
			}
		}
	}
	return hit
}
