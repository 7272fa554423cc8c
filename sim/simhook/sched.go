// Package simhook is the run-time half of the simulator. The instrumented library
// calls into it at every statement, and for every source of nondeterminism.
//
// All simulated threads are real goroutines, but exactly one of them runs at a time:
// the one holding the baton. Who gets the baton, and after how many statements, is
// decided by the schedule alone.
//
// In a race-detecting build, passing the baton must not order memory accesses, or the
// detector would see one thread. So scheduler code is "norace", uses no map and no
// append, and parks goroutines with synchronisation events disabled. Only the simulated
// primitives (mutexes, wait groups, pools, channels) order accesses, as the real ones do.
package simhook

import (
	"fmt"
	"math"
	"runtime/debug"
	"unsafe"
)

// On is referenced by every instrumented file.
const On = true

const (
	maxTasks = 4096
	maxSteps = 1 << 16
	// blockLimit is how many times in a row threads may find themselves blocked
	// before the simulation is declared deadlocked.
	blockLimit = 4096
)

// Step is one decision of the schedule: task runs for n yields.
type Step struct {
	Task int32
	N    int32
}

// Crash is the value a thread panics with when the plan crashes it.
type Crash struct{}

// Deadlock is the value a thread panics with when no thread can proceed.
type Deadlock struct{}

// Task is a simulated thread.
type Task struct {
	id      int
	wake    chan struct{}
	done    bool
	blocked bool
	crashAt int64
	ran     int64

	Panic any
	Stack string
}

// Sched is one simulated execution of several threads.
type Sched struct {
	tasks  [maxTasks]*Task
	ntasks int
	cur    *Task

	rng rng64
	// mean is the mean number of statements between switches; 0 never switches.
	mean int64
	// burst makes some quanta very short.
	burst bool

	// steps are the recorded decisions.
	steps  [maxSteps]Step
	nsteps int
	// replay are the decisions to replay.
	replay  []Step
	nreplay int

	quantum  int64
	fromLeft int64
	streak   int
	Switches int64
	Yields   int64
	Blocks   int64

	finished chan struct{}
}

var (
	cur  *Sched
	left int64 = math.MaxInt64
	// Hooks tells whether entry and exit hooks are on.
	Hooks bool
	ncpu  = 1
)

// Y is called before every statement of the library.
//
//go:norace
func Y() {
	left--
	if left <= 0 {
		slowY()
	}
}

//go:norace
func slowY() {
	s := cur
	if s == nil {
		left = math.MaxInt64
		return
	}
	t := s.cur
	s.account()
	if t.crashAt > 0 && t.ran >= t.crashAt {
		t.crashAt = 0
		s.rearm()
		panic(Crash{})
	}
	if s.quantum <= 0 {
		s.pick(t, false)
	}
	s.rearm()
}

// account moves the statements run since the last call to the books.
//
//go:norace
func (s *Sched) account() {
	n := s.fromLeft - left
	s.fromLeft = left
	s.cur.ran += n
	s.quantum -= n
	s.Yields += n
	if n > 0 {
		s.streak = 0
	}
}

// rearm computes when slowY has to be called next.
//
//go:norace
func (s *Sched) rearm() {
	l := s.quantum
	if l < 1 {
		l = 1
	}
	t := s.cur
	if t.crashAt > 0 && t.crashAt-t.ran < l {
		l = t.crashAt - t.ran
		if l < 1 {
			l = 1
		}
	}
	left = l
	s.fromLeft = l
}

// pick makes the next decision and passes the baton accordingly.
// When self is done, it does not wait for the baton to come back.
//
//go:norace
func (s *Sched) pick(self *Task, mustSwitch bool) {
	var next *Task
	var q int64

	alive := 0
	for i := 0; i < s.ntasks; i++ {
		if !s.tasks[i].done && !s.tasks[i].blocked {
			alive++
		}
	}
	if alive == 0 {
		// Only threads blocked outside of the simulator are left, if any.
		return
	}

	if s.nreplay < len(s.replay) {
		st := s.replay[s.nreplay]
		s.nreplay++
		q = int64(st.N)
		k := int(st.Task) % s.ntasks
		for s.tasks[k].done || s.tasks[k].blocked {
			k = (k + 1) % s.ntasks
		}
		next = s.tasks[k]
	} else if s.replay != nil {
		// The recorded schedule is over: run to completion in order.
		q = math.MaxInt32
		k := self.id
		if mustSwitch {
			k = (k + 1) % s.ntasks
		}
		for s.tasks[k].done || s.tasks[k].blocked {
			k = (k + 1) % s.ntasks
		}
		next = s.tasks[k]
	} else {
		r := int(s.rng.next() % uint64(alive))
		for i := 0; i < s.ntasks; i++ {
			if s.tasks[i].done || s.tasks[i].blocked {
				continue
			}
			if r == 0 {
				next = s.tasks[i]
				break
			}
			r--
		}
		if mustSwitch && next == self && alive > 1 {
			for k := (self.id + 1) % s.ntasks; ; k = (k + 1) % s.ntasks {
				if !s.tasks[k].done && !s.tasks[k].blocked && s.tasks[k] != self {
					next = s.tasks[k]
					break
				}
			}
		}
		q = s.drawQuantum()
	}
	if mustSwitch && next == self && alive > 1 {
		for k := (self.id + 1) % s.ntasks; ; k = (k + 1) % s.ntasks {
			if !s.tasks[k].done && !s.tasks[k].blocked && s.tasks[k] != self {
				next = s.tasks[k]
				break
			}
		}
	}

	if s.nsteps < maxSteps {
		s.steps[s.nsteps] = Step{int32(next.id), int32(q)}
		s.nsteps++
	} else {
		// The trace is full: stop switching, so that it stays complete.
		q = math.MaxInt32
	}
	s.quantum = q

	if next == self {
		return
	}
	s.Switches++
	s.cur = next
	s.rearm()
	raceDisable()
	next.wake <- struct{}{}
	if !self.done && !self.blocked {
		<-self.wake
	}
	raceEnable()
}

//go:norace
func (s *Sched) drawQuantum() int64 {
	if s.mean <= 0 {
		return math.MaxInt32
	}
	r := s.rng.next()
	if s.burst && r&7 == 0 {
		return int64(1 + (r>>3)%4)
	}
	return int64(1 + (r>>3)%uint64(2*s.mean))
}

// Blocked is called by a thread that cannot proceed until another one does.
//
//go:norace
func Blocked() {
	s := cur
	if s == nil {
		return
	}
	s.account()
	s.Blocks++
	s.streak++
	alive := 0
	for i := 0; i < s.ntasks; i++ {
		if !s.tasks[i].done {
			alive++
		}
	}
	if alive <= 1 || s.streak > blockLimit {
		panic(Deadlock{})
	}
	s.pick(s.cur, true)
	s.rearm()
}

// Config is how a simulated execution is scheduled.
type Config struct {
	Seed   uint64
	Mean   int64
	Burst  bool
	Replay []Step
	// CrashAt is, per initial thread, the statement at which it crashes; 0 is never.
	CrashAt []int64
}

// Run runs the threads under a schedule, until all of them end.
func Run(cfg Config, fns ...func()) *Sched {
	s := &Sched{
		rng:      newRng(cfg.Seed),
		mean:     cfg.Mean,
		burst:    cfg.Burst,
		replay:   cfg.Replay,
		finished: make(chan struct{}),
	}
	for i, fn := range fns {
		t := &Task{id: i, wake: make(chan struct{}, 1)}
		if i < len(cfg.CrashAt) {
			t.crashAt = cfg.CrashAt[i]
		}
		s.tasks[i] = t
		s.ntasks++
		go s.body(t, fn)
	}
	if s.ntasks == 0 {
		return s
	}
	cur = s
	s.start()
	<-s.finished
	for i := 0; i < s.ntasks; i++ {
		RaceAcquire(unsafe.Pointer(s.tasks[i]))
	}
	cur = nil
	left = math.MaxInt64
	return s
}

//go:norace
func (s *Sched) start() {
	s.cur = s.tasks[0]
	if s.nreplay < len(s.replay) {
		s.cur = s.tasks[int(s.replay[0].Task)%s.ntasks]
		s.quantum = int64(s.replay[0].N)
		s.nreplay++
	} else {
		if s.replay == nil {
			s.cur = s.tasks[int(s.rng.next()%uint64(s.ntasks))]
		}
		s.quantum = s.drawQuantum()
		if s.replay != nil {
			s.quantum = math.MaxInt32
		}
	}
	s.steps[0] = Step{int32(s.cur.id), int32(s.quantum)}
	s.nsteps = 1
	s.rearm()
	raceDisable()
	s.cur.wake <- struct{}{}
	raceEnable()
}

func (s *Sched) body(t *Task, fn func()) {
	raceDisable()
	<-t.wake
	raceEnable()
	defer func() {
		if r := recover(); r != nil {
			t.Panic = r
			if _, ok := r.(Crash); !ok {
				t.Stack = string(debug.Stack())
			}
		}
		RaceRelease(unsafe.Pointer(t))
		s.end(t)
		if Race {
			// The detector forgets what a thread did soon after it ends.
			raceDisable()
			<-s.finished
			raceEnable()
		}
	}()
	fn()
}

//go:norace
func (s *Sched) end(t *Task) {
	s.account()
	s.streak = 0
	t.done = true
	for i := 0; i < s.ntasks; i++ {
		if !s.tasks[i].done {
			s.pick(t, true)
			return
		}
	}
	raceDisable()
	close(s.finished)
	raceEnable()
}

// Go starts a simulated thread.
func Go(fn func()) {
	s := current()
	if s == nil {
		go fn()
		return
	}
	t := s.newTask()
	go s.body(t, fn)
}

//go:norace
func current() *Sched { return cur }

//go:norace
func (s *Sched) newTask() *Task {
	if s.ntasks >= maxTasks {
		panic("simhook: too many threads")
	}
	t := &Task{id: s.ntasks, wake: make(chan struct{}, 1)}
	s.tasks[s.ntasks] = t
	s.ntasks++
	return t
}

// Steps returns the recorded schedule.
func (s *Sched) Steps() []Step {
	return append([]Step(nil), s.steps[:s.nsteps]...)
}

// Task returns the i-th thread.
func (s *Sched) Task(i int) *Task { return s.tasks[i] }

// NumTasks returns the number of threads that ran.
func (s *Sched) NumTasks() int { return s.ntasks }

// Ran returns how many statements the thread ran.
func (t *Task) Ran() int64 { return t.ran }

// Active tells whether a simulated execution is running.
//
//go:norace
func Active() bool { return cur != nil }

// TaskID returns the running thread.
//
//go:norace
func TaskID() int {
	if cur == nil {
		return -1
	}
	return cur.cur.id
}

// NumCPU stands in for runtime.NumCPU.
//
//go:norace
func NumCPU() int { return ncpu }

// SetNumCPU sets what NumCPU returns.
func SetNumCPU(n int) { ncpu = n }

// rng64 is a splitmix64 generator.
type rng64 struct{ s uint64 }

//go:norace
func newRng(seed uint64) rng64 { return rng64{seed} }

//go:norace
func (r *rng64) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// choice draws from the generator that decides what simulated primitives do.
var choice rng64

// SeedChoices seeds the decisions of simulated primitives.
func SeedChoices(seed uint64) { choice = newRng(seed) }

//go:norace
func Choice(n uint64) uint64 { return choice.next() % n }

// DropPools lets the pools of the code keep nothing, as they are free to do. Two threads
// that reuse an object are ordered by it, which hides their races.
var DropPools bool

func (s Step) String() string { return fmt.Sprintf("%d:%d", s.Task, s.N) }
