// Package vsched is a controlled scheduler for stateless model checking of
// real Go code.
//
// Instrumented code calls P at every scheduling point (before synchronisation
// operations) and Q before every statement. While an execution is controlled,
// exactly one goroutine runs at a time; at a scheduling point it parks, and the
// explorer (see explore.go) decides who continues.
//
// Parking and releasing happen with the race detector's synchronisation
// tracking switched off, so that the controlled schedule does not add any
// happens-before edges: the race detector sees only the synchronisation of the
// code under test.
package vsched

import (
	"bytes"
	"runtime"
	"strconv"
)

func gword(off uintptr) uint64

var goidOff uintptr

func slowGoid() uint64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	f := bytes.Fields(buf[:n])
	id, _ := strconv.ParseUint(string(f[1]), 10, 64)
	return id
}

func init() {
	cand := map[uintptr]int{}
	const N = 6
	for i := 0; i < N; i++ {
		done := make(chan bool)
		go func() {
			id := slowGoid()
			for off := uintptr(0); off < 384; off += 8 {
				if gword(off) == id {
					cand[off]++
				}
			}
			close(done)
		}()
		<-done
	}
	for off, n := range cand {
		if n == N && (goidOff == 0 || off < goidOff) {
			goidOff = off
		}
	}
	if goidOff == 0 {
		panic("vsched: cannot find the goroutine id")
	}
}

type gate struct {
	goid   uint64
	ch     chan struct{}
	site   int
	waitOn interface{} // nil: enabled
}

const maxArrivals = 4096

var (
	active   bool // a controlled execution is going on
	full     bool // Q gates, too
	arrivals [maxArrivals]*gate
	nArr     int
	parked   [maxArrivals]*gate // in no particular order
	nParked  int
	ncpu     = 0
)

// P is a scheduling point.
//
//go:norace
func P(site int) {
	if !active {
		return
	}
	park(site, nil)
}

// Q is a scheduling point in the fine-grained mode only.
//
//go:norace
func Q(site int) {
	if !full {
		return
	}
	if active {
		park(site, nil)
	}
}

//go:norace
func park(site int, on interface{}) {
	raceOff()
	g := &gate{goid: gword(goidOff), ch: make(chan struct{}), site: site, waitOn: on}
	if nArr >= maxArrivals {
		panic("vsched: too many goroutines")
	}
	arrivals[nArr] = g
	nArr++
	<-g.ch
	raceOn()
}

// Quiet ends the control of the current execution: from here on everything
// runs as it likes. For what follows the part that is being explored.
//
//go:norace
func Quiet() {
	if active {
		active, full, quiet = false, false, true
	}
}

var quiet bool

// Spin is a lock operation after Quiet: a lock that is not released in good time
// never will be.
//
//go:norace
func Spin(try func() bool) bool {
	if !quiet {
		return false
	}
	for i := 0; !try(); i++ {
		if i > 3000000 {
			panic("vsched: a lock is never released")
		}
		runtime.Gosched()
	}
	return true
}

// Active tells whether an execution is being controlled.
//
//go:norace
func Active() bool { return active }

// Block parks the calling goroutine until Wake(on).
func Block(on interface{}) { park(-1, on) }

// Wake makes the goroutines blocked on something able to run again.
// (parked is an array because maps would be seen by the race detector.)
//
//go:norace
func Wake(on interface{}) {
	if !active {
		return
	}
	raceOff()
	for i := 0; i < nParked; i++ {
		if parked[i].waitOn == on {
			parked[i].waitOn = nil
		}
	}
	for i := 0; i < nArr; i++ {
		if arrivals[i].waitOn == on {
			arrivals[i].waitOn = nil
		}
	}
	raceOn()
}

// Go starts f in a new goroutine with a scheduling point at its start.
func Go(f func()) {
	go func() {
		P(-2)
		f()
	}()
	P(-3)
}

// SetNumCPU makes NumCPU and GOMAXPROCS report n (0: the truth).
//
//go:norace
func SetNumCPU(n int) { ncpu = n }

// NumCPU replaces runtime.NumCPU.
//
//go:norace
func NumCPU() int {
	if ncpu != 0 {
		return ncpu
	}
	return runtime.NumCPU()
}

// GOMAXPROCS replaces runtime.GOMAXPROCS.
//
//go:norace
func GOMAXPROCS(n int) int {
	if ncpu != 0 {
		return ncpu
	}
	return runtime.GOMAXPROCS(0)
}

// Gosched replaces runtime.Gosched.
func Gosched() {
	if active {
		P(-4)
	} else {
		runtime.Gosched()
	}
}

var stamp int

// Stamp returns increasing numbers, without synchronising anybody.
//
//go:norace
func Stamp() int { stamp++; return stamp }
