// Package vrt runs the goroutines of the code under test: it records how they end and, when a scheduler is
// installed, lets them run one at a time between scheduling points.
package vrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
)

// SimExit is the panic value with which a simulated process exit unwinds the goroutine that asked for it.
type SimExit struct{ Code int }

// SimKill unwinds a goroutine of the code that the harness gives up on; it counts as no failure by itself.
type SimKill struct{ Why string }

// Sim is the record of one execution.
type Sim struct {
	mu     sync.Mutex
	Panics []string
	Exits  []int
	Kills  []string
	Live   int
	sched  bool
	fine   bool
	all    bool
	parked [64]*Parked
	names  [64]int     // goroutine ids by number
	made   int         // goroutines started so far
	passed [4096]int32 // how often statements have been reached
	logged []string    // what the code has printed, if that is of interest
	tell   bool
}

// SimListen makes the record hold what the code prints from now on.
func (s *Sim) SimListen() { s.tell = true }

// SimPrinted is what the code has printed.
func (s *Sim) SimPrinted() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string{}, s.logged...)
}

// SimPrint notes what the code prints.
func SimPrint(text string) {
	s := cur
	if s == nil || !s.tell {
		return
	}
	s.mu.Lock()
	s.logged = append(s.logged, text)
	s.mu.Unlock()
}

// Parked is a goroutine waiting at a scheduling point.
type Parked struct {
	ID int // which goroutine it is, in the order of creation
	ch chan struct{}
}

var cur *Sim

// SimReset starts a new execution.
func SimReset(controlled bool) *Sim {
	SimRestore()
	cur = &Sim{sched: controlled}
	return cur
}

// SimRecover is deferred in every goroutine that runs code under test.
func SimRecover() {
	s := cur
	switch r := recover().(type) {
	case nil:
	case SimExit:
		s.mu.Lock()
		s.Exits = append(s.Exits, r.Code)
		s.mu.Unlock()
	case SimKill:
		s.mu.Lock()
		s.Kills = append(s.Kills, r.Why)
		s.mu.Unlock()
	default:
		s.mu.Lock()
		s.Panics = append(s.Panics, fmt.Sprintf("%v\n%s", r, trim(string(debug.Stack()))))
		s.mu.Unlock()
	}
}

func trim(st string) string {
	out := []string{}
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "/net/") && strings.Contains(l, ".go:") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "\n")
}

// Go runs f in a new goroutine.
func Go(f func()) {
	s := cur
	s.mu.Lock()
	s.Live++
	n := s.made
	s.made++
	s.mu.Unlock()
	go func() {
		defer func() {
			s.mu.Lock()
			s.Live--
			s.mu.Unlock()
		}()
		defer SimRecover()
		s.name(n)
		P()
		f()
	}()
}

// The scheduler works behind the back of the race detector: what it does orders nothing for the code under test.

//go:norace
func (s *Sim) name(n int) {
	if n < len(s.names) {
		s.names[n] = goid()
	}
}

// P is a scheduling point before an operation that goroutines synchronize or communicate with.
//
//go:norace
func P() {
	if s := cur; s != nil && s.sched {
		s.park()
	}
}

// S is a scheduling point before a statement that uses the state of a session; it counts only when the scheduler
// asks for that.  Without them, an interleaving that only they would show contains a data race.
//
//go:norace
func S(at int) {
	if s := cur; s != nil && s.sched && s.fine && s.pass(at, 1000) {
		s.park()
	}
}

// T is a scheduling point before a statement that uses a variable of a package.
//
//go:norace
func T(at int) {
	if s := cur; s != nil && s.sched && s.all && s.pass(at, 100) {
		s.park()
	}
}

// pass counts how often a statement is reached: a loop that fills a large table is not worth stopping in every time.
//
//go:norace
func (s *Sim) pass(at, most int) bool {
	if at < 0 {
		return true
	}
	SimRaceOff()
	defer SimRaceOn()
	s.mu.Lock()
	defer s.mu.Unlock()
	s.passed[at&4095]++
	return int(s.passed[at&4095]) <= most
}

//go:norace
func (s *Sim) park() {
	SimRaceOff()
	defer SimRaceOn()
	p := &Parked{ch: make(chan struct{}), ID: -1}
	id := goid()
	for i := range s.names {
		if s.names[i] == id {
			p.ID = i
		}
	}
	s.mu.Lock()
	if !s.sched || p.ID < 0 {
		s.mu.Unlock()
		return
	}
	s.parked[p.ID] = p
	s.mu.Unlock()
	<-p.ch
}

//go:norace
func goid() int {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	id := 0
	for _, c := range b[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int(c-'0')
	}
	return id
}

// SimControl starts controlled scheduling.
//
//go:norace
func (s *Sim) SimControl(fine bool) { s.sched, s.fine = true, fine }

// SimControlAll starts controlled scheduling with all scheduling points.
//
//go:norace
func (s *Sim) SimControlAll() { s.sched, s.fine, s.all = true, true, true }

// SimControlled tells whether a scheduler is in control.
//
//go:norace
func SimControlled() bool { return cur != nil && cur.sched }

// SimParked lists the goroutines waiting at scheduling points, in the order in which they were created.
//
//go:norace
func (s *Sim) SimParked() []*Parked {
	SimRaceOff()
	defer SimRaceOn()
	s.mu.Lock()
	defer s.mu.Unlock()
	out := []*Parked{}
	for _, p := range s.parked {
		if p != nil {
			out = append(out, p)
		}
	}
	return out
}

// SimGrant lets one of them continue.
//
//go:norace
func (s *Sim) SimGrant(p *Parked) {
	SimRaceOff()
	defer SimRaceOn()
	s.mu.Lock()
	s.parked[p.ID] = nil
	s.mu.Unlock()
	close(p.ch)
}

// SimFree ends controlled scheduling: everything parked continues and nothing parks again.
//
//go:norace
func (s *Sim) SimFree() {
	SimRaceOff()
	defer SimRaceOn()
	s.mu.Lock()
	s.sched = false
	for i, p := range s.parked {
		if p != nil {
			close(p.ch)
			s.parked[i] = nil
		}
	}
	s.mu.Unlock()
}

// SimTrouble returns the ends of goroutines that no goroutine of the code should have.
func (s *Sim) SimTrouble() (panics, kills []string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.Panics, s.Kills
}

// SimExited returns the exit code if the code has ended the process.
func (s *Sim) SimExited() (int, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.Exits) == 0 {
		return 0, false
	}
	return s.Exits[0], true
}

// SimLive is the number of goroutines the code has started that have not ended.
func (s *Sim) SimLive() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.Live
}
