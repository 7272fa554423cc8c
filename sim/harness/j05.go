package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/simhook"
)

// J05: provers and their safe copies in several threads.

func dispatchJ05(p *Plan, r *Run) {
	switch p.Cfg["field"] % numFields {
	case 0:
		execJ05[f0](p, r)
	case 1:
		execJ05[f1](p, r)
	case 2:
		execJ05[f2](p, r)
	case 3:
		execJ05[f3](p, r)
	case 4:
		execJ05[f4](p, r)
	}
}

var reRaceFn = regexp.MustCompile(`(?m)^  (github\.com/sp301415/ringo-snark/[^\s(]+(?:\([^)]*\))?[^\s(]*)\(`)

// raceReport tells where the detector saw the first race.
func raceReport() string {
	path := ""
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if v, ok := strings.CutPrefix(f, "log_path="); ok {
			path = fmt.Sprintf("%s.%d", v, os.Getpid())
		}
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return ""
	}
	defer os.Remove(path)
	rep := string(b)
	if i := strings.Index(rep, "WARNING: DATA RACE"); i >= 0 {
		rep = rep[i:]
	}
	if i := strings.Index(rep, "=================="); i >= 0 {
		rep = rep[:i]
	}
	// Only the accesses, not where the threads were made.
	if i := strings.Index(rep, "Goroutine "); i >= 0 {
		rep = rep[:i]
	}
	var at []string
	for _, half := range strings.SplitN(rep, "Previous ", 2) {
		for _, m := range reRaceFn.FindAllStringSubmatch(half, -1) {
			if !strings.Contains(m[1], "ringosim") && !strings.Contains(m[1], "simhook") {
				at = append(at, strings.TrimPrefix(m[1], "github.com/sp301415/ringo-snark/"))
				break
			}
		}
	}
	return strings.Join(at, " and ")
}

// threads runs threads under the plan's schedule, and reports races, deadlocks and panics.
// A thread that the plan crashes is not a failure.
func (r *Run) threads(fns []func(), crashAt []int64) *simhook.Sched {
	p := r.plan
	mean := p.Cfg["mean"]
	before := simhook.RaceErrors()
	simhook.DropPools = simhook.Race && mix(p.Seed, 12)%3 != 0
	defer func() { simhook.DropPools = false }()
	s := simhook.Run(simhook.Config{Seed: mix(p.Seed, 11), Mean: mean, Burst: p.Cfg["burst"] == 1, Replay: p.Sched, CrashAt: crashAt}, fns...)
	r.sched = s.Steps()
	r.interleaving(r.sched)
	for i := 0; i < s.NumTasks(); i++ {
		t := s.Task(i)
		r.simTime += t.Ran()
		if t.Panic == nil {
			continue
		}
		switch t.Panic.(type) {
		case simhook.Crash:
			r.fault("thread_crash")
		case simhook.Deadlock:
			r.fail("deadlock", "the threads wait for each other for ever")
		default:
			if fr := firstFrame(t.Stack); fr != "" {
				r.fail("thread-panics", "thread %d panicked: %s at %s", i, short(t.Panic, 200), fr)
			} else {
				panic(fmt.Sprintf("thread %d: %v\n%s", i, t.Panic, t.Stack))
			}
		}
	}
	if n := simhook.RaceErrors() - before; n > 0 {
		at := raceReport()
		r.fail("data-race", "the threads race on memory (%s)", at)
	}
	r.log("threads=%d switches=%d", s.NumTasks(), s.Switches)
	r.faults["context_switch"] += s.Switches
	return s
}

func execJ05[E bignum.Uint[E]](p *Plan, r *Run) {
	data := newRng(mix(p.Seed, 5))
	k := newKit[E](max(int(p.Cfg["n"]), 1), max(int(p.Cfg["batch"]), 1), data.bytes(16))
	simhook.SetNumCPU(max(1, int(p.Cfg["cpus"])))
	nt := max(2, int(p.Cfg["threads"]))
	root := k.prover()
	vf := k.verifier()
	ck := jindo.NewCommitKey(k.params, k.crs)
	draw := func(d *Rng) []E { return randVec[E](d, k.polyLen(d, int64(d.n(10))), d.n(numPats)) }
	mk := func(pr *jindo.Prover[E], d *Rng) *session[E] {
		var vs [][]E
		for i := 0; i < k.params.Batch(); i++ {
			vs = append(vs, draw(d))
		}
		return k.commit(pr, vs...)
	}
	shared := mk(root, data)
	shared.x = randElem[E](data)
	shared.y, shared.pf = root.Evaluate(shared.x, shared.v, shared.com, shared.open)

	type done struct {
		s     *session[E]
		fresh bool
	}
	results := make([][]done, nt)
	verdicts := make([][]bool, nt)
	fns := make([]func(), nt)
	crash := make([]int64, nt)
	for i := 0; i < nt; i++ {
		results[i] = make([]done, 0, 32)
		verdicts[i] = make([]bool, 0, 32)
		var pr *jindo.Prover[E]
		switch {
		case i == 0 && p.Cfg["norig"] == 0:
			pr = root
		case i%3 == 2:
			pr = root.SafeCopy().SafeCopy()
		case i == nt-1 && p.Cfg["separate"] == 1:
			pr = k.prover()
		default:
			pr = root.SafeCopy()
		}
		var vt *jindo.Verifier[E]
		if p.Cfg["verifier"] == 1 {
			vt = k.verifier()
		}
		crash[i] = p.Cfg[fmt.Sprintf("crash%d", i)]
		var ops []Op
		for _, o := range p.Ops {
			if int(o.n(0))%nt == i {
				ops = append(ops, o)
			}
		}
		fns[i] = func() {
			var own *session[E]
			for _, o := range ops {
				d := newRng(o.Seed)
				switch o.K {
				case "commit":
					own = mk(pr, d)
					results[i] = append(results[i], done{own, true})
				case "eval":
					s := own
					if s == nil || o.n(1)%2 == 0 {
						s = shared
					}
					n := &session[E]{x: evalPoint[E](d, o.n(2)), v: s.v, com: s.com, open: s.open}
					n.y, n.pf = pr.Evaluate(n.x, n.v, n.com, n.open)
					results[i] = append(results[i], done{n, false})
				case "copy":
					pr = pr.SafeCopy()
				case "new":
					// A prover, or a verifier, built while the others work.
					switch o.n(1) % 3 {
					case 0:
						pr = k.prover()
					case 1:
						vt = k.verifier()
					case 2:
						// For another reference string, and other parameters.
						crs := d.bytes(16)
						k2 := &kit[E]{params: k.params, q: k.q, qq: k.qq, crs: crs}
						if d.p(30) {
							k2.params = jindo.NewParameters[E](1+d.n(40), 1+d.n(2))
							k2.q, k2.qq = k2.params.RingQ(), k2.params.RingQOut()
						}
						p2 := k2.prover()
						var vs [][]E
						for i := 0; i < k2.params.Batch(); i++ {
							vs = append(vs, randVec[E](d, 1+d.n(3), d.n(numPats)))
						}
						n := k2.commit(p2, vs...)
						n.x = randElem[E](d)
						n.y, n.pf = p2.Evaluate(n.x, n.v, n.com, n.open)
						verdicts[i] = append(verdicts[i], k2.verifier().Verify(n.x, n.com, n.y, n.pf))
					}
				case "verify":
					if vt != nil {
						verdicts[i] = append(verdicts[i], vt.Verify(shared.x, shared.com, shared.y, shared.pf))
					}
				}
			}
		}
	}
	r.threads(fns, crash)
	if r.viol != nil || p.Cfg["race"] == 1 {
		return
	}
	alone := k.prover()
	for i := range results {
		for _, ok := range verdicts[i] {
			if !ok {
				r.fail("verdict-differs", "a verifier in thread %d rejected a proof that is accepted alone", i)
			}
		}
		for j, d := range results[i] {
			if r.viol != nil {
				return
			}
			s := d.s
			if d.fresh {
				// What was committed is what was asked for, and it is opened by what was returned.
				x := randElem[E](data)
				for m := range s.v {
					if k.openedValue(x, s.open[m]).Cmp(horner(s.v[m], x)) != 0 {
						r.fail("wrong-opening", "thread %d result %d: the opening does not hold the committed polynomial", i, j)
					}
					o := copyOpen(s.open[m])
					c := k.combine(ck, o, true)
					if !eqPolys(o.InCommit, s.open[m].InCommit) || !eqPolys(c.Value, s.com[m].Value) {
						r.fail("wrong-commitment", "thread %d result %d: the commitment is not that of its opening", i, j)
					}
				}
				r.log("thread %d commit %d %x", i, j, polyBytes(s.com[0].Value[0])[20:36])
				continue
			}
			for m := range s.v {
				if bigOf(s.y[m]).Cmp(horner(s.v[m], s.x)) != 0 {
					r.fail("wrong-evaluation", "thread %d result %d: wrong value of polynomial %d", i, j, m)
				}
			}
			if ok, pan := verify(vf, s.x, s.com, s.y, s.pf); !ok {
				r.fail("concurrent-proof-rejected", "thread %d result %d: the proof is rejected (panic %v)", i, j, pan != nil)
			}
			y2, pf2 := alone.Evaluate(s.x, s.v, s.com, s.open)
			if !eqVec(y2, s.y) || !eqProof(pf2, s.pf) {
				r.fail("evaluation-differs", "thread %d result %d: the proof is not the one that is made alone", i, j)
			}
			r.log("thread %d eval %d %x", i, j, polyBytes(s.pf.PartialMask)[20:36])
		}
	}
}

// schedCfg draws a schedule.
func schedCfg(r *Rng, c map[string]int64) {
	c["mean"] = pick(r, []int64{3, 20, 100, 1000, 10000, 100000})
	c["burst"] = int64(r.n(2))
	c["cpus"] = pick(r, []int64{1, 2, 3, 8})
}

// raceMean draws the mean quantum of a run for the race detector. It only sees accesses
// that are near to each other: it remembers the last 300000 events of a thread.
func raceMean(r *Rng) int64 { return pick(r, []int64{30, 100, 300, 1000, 10000}) }

func genJ05(r *Rng, tier string) *Plan {
	p := &Plan{Kind: "threads", Cfg: map[string]int64{
		"field": int64(r.n(numFields)), "n": pick(r, []int64{1, 9, 33, 64}), "batch": int64(pick(r, []int{1, 1, 2})),
		"threads": int64(2 + r.n(3)), "norig": int64(r.n(2)), "separate": int64(r.n(2)), "verifier": int64(r.n(2)),
	}}
	schedCfg(r, p.Cfg)
	if r.p(20) {
		p.Cfg["n"] = wideN(p.Cfg["field"])
	}
	nt := int(p.Cfg["threads"])
	if r.p(20) {
		p.Cfg[fmt.Sprintf("crash%d", r.n(nt))] = 1 + r.n64(20000)
	}
	for i := 0; i < nt; i++ {
		for j := 1 + r.n(3); j > 0; j-- {
			k := pick(r, []string{"commit", "commit", "eval", "eval", "eval", "verify", "copy", "new"})
			p.Ops = append(p.Ops, Op{K: k, N: []int64{int64(i), int64(r.n(6)), int64(r.n(8))}})
		}
	}
	if r.p(35) {
		p.Kind = "races"
		p.Cfg["race"] = 1
		p.Cfg["mean"] = raceMean(r)
		if r.p(60) {
			// All of them do the same at about the same time: the detector sees unordered
			// accesses, whatever the schedule, but not ones that are far apart.
			p.Cfg["mean"] = pick(r, []int64{30, 100, 100, 1000})
			p.Ops = nil
			for j := 1 + r.n(2); j > 0; j-- {
				k, n := pick(r, []string{"commit", "eval", "eval", "verify", "copy", "new", "new"}), []int64{0, int64(r.n(6)), int64(r.n(8))}
				for i := 0; i < nt; i++ {
					p.Ops = append(p.Ops, Op{K: k, N: []int64{int64(i), n[1], n[2]}})
				}
			}
		}
	}
	return p
}

func scriptJ05(i int, tier string) *Plan {
	if i >= 4*numFields {
		return nil
	}
	race := int64(i / (2 * numFields))
	f := int64(i % numFields)
	p := &Plan{Kind: []string{"threads", "races"}[race], Cfg: map[string]int64{"field": f, "n": 64, "batch": 1 + int64(i/numFields)%2, "threads": 3,
		"mean": 1000, "burst": 1, "cpus": 2, "verifier": 1, "race": race}}
	if race == 0 {
		delete(p.Cfg, "race")
	}
	for t := int64(0); t < 3; t++ {
		if t > 0 && f < 3 {
			p.Ops = append(p.Ops, Op{K: "new", N: []int64{t, t + f}}, Op{K: "new", N: []int64{t, 2}})
		}
		p.Ops = append(p.Ops, Op{K: "commit", N: []int64{t}}, Op{K: "eval", N: []int64{t, 1, 0}}, Op{K: "eval", N: []int64{t, 0, 0}}, Op{K: "verify", N: []int64{t}})
	}
	return p
}

func init() {
	register(&Prop{
		ID: "J05", Race: true, Script: scriptJ05, Gen: genJ05, Exec: dispatchJ05,
		Rule: "2 to 4 threads of commit, evaluate, copy, build and verify operations on a prover, its safe copies and separate provers, which share " +
			"parameters and stored commitments, x seeded schedules with mean quanta from 3 to 100000 statements x thread crashes; races by the " +
			"detector under the same schedules; results compared with the same operations alone",
		Real: []string{"jindo prover, verifier, encoder, commitment key, parameters", "csprng samplers", "field arithmetic", "lattigo rings (dependency)"},
		Stub: []string{"thread scheduler", "entropy source", "sync primitives (same semantics, under the scheduler)"},
	})
}
