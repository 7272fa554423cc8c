// Command ringosim simulates provers, verifiers, their network, storage, entropy and
// threads around the instrumented library, under one seed, and checks one property.
package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"hash"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/sp301415/ringo-snark/simhook"
)

// Op is one operation of a plan.
type Op struct {
	K string  `json:"k"`
	N []int64 `json:"n,omitempty"`
	// Seed is where the operation draws its data from, so that
	// dropping other operations does not change it.
	Seed uint64 `json:"seed"`
}

func (o Op) n(i int) int64 {
	if i < len(o.N) {
		return o.N[i]
	}
	return 0
}

// Plan is everything that decides a run: a run is a pure function of its plan and the code.
type Plan struct {
	Prop  string           `json:"property"`
	Kind  string           `json:"kind"`
	Index int              `json:"index"`
	Seed  uint64           `json:"seed"`
	Cfg   map[string]int64 `json:"cfg"`
	Ops   []Op             `json:"ops"`
	// Sched, if set, is the schedule to replay; otherwise it is drawn from the seed.
	Sched []simhook.Step `json:"sched,omitempty"`
}

func (p *Plan) clone() *Plan {
	q := *p
	q.Cfg = map[string]int64{}
	for k, v := range p.Cfg {
		q.Cfg[k] = v
	}
	q.Ops = make([]Op, len(p.Ops))
	for i := range p.Ops {
		q.Ops[i] = p.Ops[i]
		q.Ops[i].N = append([]int64(nil), p.Ops[i].N...)
	}
	q.Sched = append([]simhook.Step(nil), p.Sched...)
	if p.Sched == nil {
		q.Sched = nil
	}
	return &q
}

// Rng is a splitmix64 generator.
type Rng struct{ s uint64 }

func newRng(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u64() % uint64(n))
}
func (r *Rng) n64(n int64) int64 { return int64(r.u64() % uint64(n)) }
func (r *Rng) p(pct int) bool    { return r.n(100) < pct }
func (r *Rng) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.u64())
	}
	return b
}
func pick[T any](r *Rng, l []T) T { return l[r.n(len(l))] }

func mix(a ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, x := range a {
		r := Rng{h ^ x}
		h = r.u64()
	}
	return h
}

// Violation is what a run found.
type Violation struct {
	// Class is what is kept while a failing plan is minimised.
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Run is one simulated execution.
type Run struct {
	plan *Plan
	viol *Violation

	h     hash.Hash
	lines []string
	keep  bool

	faults  map[string]int64
	probes  map[string]int64
	events  int64
	simTime int64
	netTime int64
	inter   []uint64
	sched   []simhook.Step
}

func newRun(p *Plan) *Run {
	return &Run{plan: p, h: sha256.New(), faults: map[string]int64{}, probes: map[string]int64{}}
}

func (r *Run) log(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	r.h.Write([]byte(s))
	r.h.Write([]byte{'\n'})
	if r.keep {
		r.lines = append(r.lines, s)
	}
	r.events++
}

func (r *Run) fault(k string) { r.faults[k]++ }
func (r *Run) probe(k string) { r.probes[k]++ }

func (r *Run) fail(class, f string, a ...any) {
	if r.viol == nil {
		r.viol = &Violation{class, fmt.Sprintf(f, a...)}
		r.log("VIOLATION %s %s", class, r.viol.Msg)
	}
}

func (r *Run) digest() string { return hex.EncodeToString(r.h.Sum(nil)[:12]) }

// interleaving notes a schedule, for counting distinct ones.
func (r *Run) interleaving(steps []simhook.Step) {
	h := sha256.New()
	var b [8]byte
	for _, s := range steps {
		binary.LittleEndian.PutUint32(b[:4], uint32(s.Task))
		binary.LittleEndian.PutUint32(b[4:], uint32(s.N))
		h.Write(b[:])
	}
	r.inter = append(r.inter, binary.LittleEndian.Uint64(h.Sum(nil)))
}

// Result is what a worker reports of a run.
type Result struct {
	Index   int              `json:"i"`
	Kind    string           `json:"kind"`
	Viol    *Violation       `json:"viol,omitempty"`
	Digest  string           `json:"digest"`
	Faults  map[string]int64 `json:"faults,omitempty"`
	Probes  map[string]int64 `json:"probes,omitempty"`
	Events  int64            `json:"events"`
	SimTime int64            `json:"t"`
	NetTime int64            `json:"nt"`
	Inter   []uint64         `json:"inter,omitempty"`
	Sched   []simhook.Step   `json:"sched,omitempty"`
	Shape   string           `json:"shape"`
}

// Prop is a property that the simulator decides.
type Prop struct {
	ID string
	// Race tells that some kinds of runs need the race-detecting build.
	Race bool
	// Script returns the i-th plan of the fixed part of the exploration, nil past its end.
	Script func(i int, tier string) *Plan
	// Gen draws a plan.
	Gen func(r *Rng, tier string) *Plan
	// Exec runs a plan.
	Exec func(p *Plan, r *Run)
	// Rule says how cases are made and what makes them non-trivial.
	Rule string
	// Real and Stub are the components that ran real code, and those that were simulated.
	Real, Stub []string
	// Nontrivial tells whether a run counts; default is any run with events.
	Nontrivial func(res *Result) bool
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// runPlan runs a plan, with all simulated state reset.
func runPlan(p *Plan, keep bool) (res *Result, run *Run) {
	pr := props[p.Prop]
	run = newRun(p)
	run.keep = keep
	resetWorld(p)
	func() {
		defer func() {
			if e := recover(); e != nil {
				st := string(debug.Stack())
				if !inLibrary(st) {
					// A panic of the harness itself is an error of the check.
					panic(fmt.Sprintf("harness: %v\n%s", e, st))
				}
				run.fail("library-panics in "+firstFrame(st), "the library panicked on valid input: %s", short(e, 200))
			}
		}()
		pr.Exec(p, run)
	}()
	resetWorld(p)
	res = &Result{
		Index: p.Index, Kind: p.Kind, Viol: run.viol, Digest: run.digest(),
		Faults: run.faults, Probes: run.probes, Events: run.events, SimTime: run.simTime, NetTime: run.netTime,
		Inter: run.inter, Shape: shapeOf(p),
	}
	if run.viol != nil {
		res.Sched = run.sched
	}
	return res, run
}

func resetWorld(p *Plan) {
	simhook.SeedEntropy(mix(p.Seed, 1))
	simhook.SeedChoices(mix(p.Seed, 2))
	simhook.Hooks = false
	simhook.EnterFn, simhook.ExitFn = nil, nil
	simhook.Recording = false
	simhook.Records = nil
	simhook.Rewrite = nil
	simhook.Tweak = nil
	simhook.SetNumCPU(1)
	specs = map[int]any{}
}

// shapeOf describes a plan up to its random data, for counting distinct cases.
func shapeOf(p *Plan) string {
	var b strings.Builder
	b.WriteString(p.Kind)
	keys := make([]string, 0, len(p.Cfg))
	for k := range p.Cfg {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Fprintf(&b, " %s=%d", k, p.Cfg[k])
	}
	for _, o := range p.Ops {
		fmt.Fprintf(&b, " %s%v", o.K, o.N)
	}
	return b.String()
}

// firstFrame returns the innermost frame of the library in a stack, if it is
// the library that panicked rather than the harness it was called by.
func firstFrame(stack string) string {
	lines := strings.Split(stack, "\n")
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			start = i
		}
	}
	for i := start; i < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "main.") || strings.Contains(l, "/ringosim.") {
			return ""
		}
		if strings.HasPrefix(l, "github.com/sp301415/ringo-snark/") && !strings.Contains(l, "/simhook") {
			if k := strings.LastIndexByte(l, '('); k > 0 {
				l = l[:k]
			}
			return strings.TrimPrefix(l, "github.com/sp301415/ringo-snark/")
		}
	}
	return ""
}

func inLibrary(stack string) bool { return firstFrame(stack) != "" }

// catch runs fn and returns what it panicked with, if anything.
func catch(fn func()) (val any, stack string) {
	defer func() {
		if e := recover(); e != nil {
			val = e
			stack = string(debug.Stack())
		}
	}()
	fn()
	return nil, ""
}

func short(s any, n int) string {
	t := fmt.Sprint(s)
	if len(t) > n {
		t = t[:n] + "…"
	}
	return t
}
