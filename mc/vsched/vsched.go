// Package vsched is the controlled scheduler compiled into the instrumented
// copy of the library. P is called before every statement of the library; when
// a scheduler is active it is a scheduling point at which the explorer may
// switch to another thread. Only one thread runs at any time.
//
// Everything that runs on the explored threads is marked norace and hands over
// through plain memory, so that under the race detector the scheduler adds no
// happens-before edges: two accesses are ordered only if the library orders
// them, although the threads never really run at the same time. GOMAXPROCS
// must be 1.
package vsched

import (
	"fmt"
	"runtime"
	"sync"
)

var resets []func()

// RegisterReset adds a function restoring package-level state.
func RegisterReset(f func()) { resets = append(resets, f) }

// ResetAll restores the package-level state of every instrumented package to
// what it was after initialisation.
func ResetAll() {
	for _, f := range resets {
		f()
	}
}

// Resets is the number of registered packages.
func Resets() int { return len(resets) }

// Step describes one scheduling point of an execution.
type Step struct {
	Thread  int8  // thread about to perform the step
	Enabled uint8 // mask of threads able to run
	Runs    bool  // the thread that ran before is still able to run
}

// Dev is a departure from the default schedule: at step Step run Thread.
type Dev struct {
	Step   int
	Thread int8
}

type thread struct {
	turn    bool
	done    bool
	blocked func() bool // non-nil: waiting until it returns true
}

// S is one controlled execution.
type S struct {
	threads []*thread
	cur     int
	devs    []Dev
	Steps   []Step
	Seen    *PosSet // distinct per-thread position vectors, if not nil
	Salt    uint64
	Horizon int
	Failure string // deadlock, livelock, panic
	pos     []int
	streak  int
	all     sync.WaitGroup
	dead    bool
}

// fairness: a thread that performed this many steps in a row lets another one
// run, so that waiting for another thread by spinning makes progress.
const fairness = 5000

// active is the running execution, nil outside of one.
var active *S

// Points counts scheduling points.
var Points int64

// Budget bounds the statements executed outside of executions (0: no bound).
var Budget int64

// PosSet is a set of hashes.
type PosSet struct {
	t []uint64
	N int64
}

// NewPosSet returns an empty set for up to 1<<bits elements.
func NewPosSet(bits uint) *PosSet { return &PosSet{t: make([]uint64, 1<<bits)} }

//go:norace
func (p *PosSet) Add(h uint64) {
	if h == 0 {
		h = 1
	}
	m := uint64(len(p.t) - 1)
	for i := h & m; ; i = (i + 1) & m {
		if p.t[i] == h {
			return
		}
		if p.t[i] == 0 {
			if p.N < int64(m-m/8) {
				p.t[i] = h
				p.N++
			}
			return
		}
	}
}

type abort struct{}

// P is a scheduling point; id identifies the statement.
//
//go:norace
func P(id int) {
	s := active
	if s == nil {
		if Budget > 0 {
			if Budget--; Budget == 0 {
				panic("does not return: statement budget used up")
			}
		}
		return
	}
	s.point()
}

// Run executes the bodies under the schedule given by devs.
//
//go:norace
func Run(s *S, bodies []func()) {
	s.threads = make([]*thread, len(bodies))
	s.pos = make([]int, len(bodies))
	s.Steps = s.Steps[:0]
	s.Failure = ""
	s.dead = false
	s.streak = 0
	if s.Horizon == 0 {
		s.Horizon = 1 << 20
	}
	for i := range bodies {
		s.threads[i] = &thread{}
	}
	s.all.Add(len(bodies))
	for i, b := range bodies {
		go s.body(i, b)
	}
	active = s
	s.cur = -1
	s.switchTo(s.choose(false))
	s.all.Wait()
	active = nil
}

//go:norace
func (s *S) body(i int, b func()) {
	s.wait(s.threads[i])
	defer s.end(i)
	if s.dead {
		return
	}
	b()
}

//go:norace
func (s *S) end(i int) {
	if e := recover(); e != nil {
		if _, ok := e.(abort); !ok && s.Failure == "" {
			s.Failure = fmt.Sprintf("thread %d panics: %v", i, e)
		}
	}
	s.threads[i].done = true
	s.leave()
	s.all.Done()
}

//go:norace
func (s *S) wait(t *thread) {
	for !t.turn {
		runtime.Gosched()
	}
	t.turn = false
}

// enabled is the mask of threads able to run.
//
//go:norace
func (s *S) enabled() (m uint8) {
	for i, t := range s.threads {
		if !t.done && (t.blocked == nil || t.blocked()) {
			m |= 1 << uint(i)
		}
	}
	return m
}

// choose records a step and picks the thread performing it. runs: the current
// thread can continue.
//
//go:norace
func (s *S) choose(runs bool) int {
	m := s.enabled()
	if m == 0 {
		return -1
	}
	n := len(s.Steps)
	t := -1
	if runs && s.streak >= fairness && m&^(1<<uint(s.cur)) != 0 {
		runs = false
		for k := 1; k <= len(s.threads); k++ {
			if c := (s.cur + k) % len(s.threads); m>>uint(c)&1 == 1 {
				t = c
				break
			}
		}
	} else if runs {
		t = s.cur
	} else {
		for i := range s.threads {
			if m>>uint(i)&1 == 1 {
				t = i
				break
			}
		}
	}
	if len(s.devs) > 0 && s.devs[0].Step == n {
		t = int(s.devs[0].Thread)
		s.devs = s.devs[1:]
		if m>>uint(t)&1 == 0 {
			panic(fmt.Sprintf("vsched: replay diverged: thread %d not enabled at step %d", t, n))
		}
	}
	if t == s.cur {
		s.streak++
	} else {
		s.streak = 0
	}
	s.Steps = append(s.Steps, Step{int8(t), m, runs})
	s.pos[t]++
	if s.Seen != nil {
		h := s.Salt
		for _, p := range s.pos {
			h = (h ^ uint64(p)) * 0x9E3779B97F4A7C15
			h ^= h >> 29
		}
		s.Seen.Add(h)
	}
	return t
}

//go:norace
func (s *S) switchTo(t int) {
	if t < 0 {
		return
	}
	s.cur = t
	s.threads[t].turn = true
}

//go:norace
func (s *S) point() {
	if s.dead {
		panic(abort{})
	}
	Points++
	me := s.cur
	if len(s.Steps) >= s.Horizon {
		if s.Failure == "" {
			s.Failure = fmt.Sprintf("no end after %d steps", s.Horizon)
		}
		s.dead = true
		panic(abort{})
	}
	t := s.choose(true)
	if t == me {
		return
	}
	s.switchTo(t)
	s.wait(s.threads[me])
	if s.dead {
		panic(abort{})
	}
}

// Block waits until ready reports true. It is a scheduling point. The waiting
// condition must be norace.
//
//go:norace
func Block(ready func() bool) {
	s := active
	if s == nil {
		if !ready() {
			panic("deadlock: a single thread waits forever")
		}
		return
	}
	if s.dead {
		panic(abort{})
	}
	me := s.cur
	P(-1)
	for !ready() {
		s.threads[me].blocked = ready
		t := s.choose(false)
		if t < 0 {
			s.threads[me].blocked = nil
			if s.Failure == "" {
				s.Failure = fmt.Sprintf("deadlock: thread %d waits forever", me)
			}
			s.dead = true
			panic(abort{})
		}
		if t != me {
			s.switchTo(t)
			s.wait(s.threads[me])
			if s.dead {
				panic(abort{})
			}
		}
		s.threads[me].blocked = nil
	}
}

// leave hands over after the current thread ended.
//
//go:norace
func (s *S) leave() {
	if s.dead {
		// unwind the next unfinished thread, one at a time
		for i, t := range s.threads {
			if !t.done {
				s.cur = i
				t.turn = true
				return
			}
		}
		return
	}
	all := true
	for _, t := range s.threads {
		all = all && t.done
	}
	if all {
		return
	}
	t := s.choose(false)
	if t < 0 {
		if s.Failure == "" {
			s.Failure = "deadlock: every remaining thread waits forever"
		}
		s.dead = true
		s.leave()
		return
	}
	s.switchTo(t)
}

// Explore runs every schedule with at most bound preemptions (switches away
// from a thread that could continue), and calls check after each. It stops when
// check returns false or limit executions were made; complete reports whether
// all were explored.
func Explore(s *S, mk func() []func(), bound int, limit int64, check func(s *S, devs []Dev) bool) (execs, steps int64, complete bool) {
	complete = true
	stop := false
	type alt struct {
		d Dev
		c int
	}
	var rec func(devs []Dev, cost int)
	rec = func(devs []Dev, cost int) {
		if stop {
			return
		}
		if execs >= limit {
			complete = false
			stop = true
			return
		}
		s.devs = devs
		Run(s, mk())
		execs++
		steps += int64(len(s.Steps))
		if !check(s, devs) {
			stop = true
			return
		}
		from := 0
		if len(devs) > 0 {
			from = devs[len(devs)-1].Step + 1
		}
		var alts []alt
		for i := from; i < len(s.Steps); i++ {
			st := s.Steps[i]
			c := cost
			if st.Runs {
				c++
			}
			if c > bound {
				continue
			}
			for t := range s.threads {
				if int8(t) != st.Thread && st.Enabled>>uint(t)&1 == 1 {
					alts = append(alts, alt{Dev{i, int8(t)}, c})
				}
			}
		}
		for _, a := range alts {
			rec(append(devs[:len(devs):len(devs)], a.d), a.c)
			if stop {
				return
			}
		}
	}
	rec(nil, 0)
	return
}

// Replay runs one schedule.
func Replay(mk func() []func(), devs []Dev) *S {
	s := &S{devs: devs}
	Run(s, mk())
	return s
}
