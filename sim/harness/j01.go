package main

import (
	"fmt"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/simhook"
)

// J01: honest provers and verifiers over a faulty network, with crashes and restarts.

var pcsSizes = []int64{1, 9, 64, 257, 31, 100, 2, 513}

func dispatchJ01(p *Plan, r *Run) {
	switch p.Cfg["field"] % numFields {
	case 0:
		execJ01[f0](p, r)
	case 1:
		execJ01[f1](p, r)
	case 2:
		execJ01[f2](p, r)
	case 3:
		execJ01[f3](p, r)
	case 4:
		execJ01[f4](p, r)
	}
}

// j01Node is a prover process; crashes lose p, and only p.
type j01Node[E bignum.Uint[E]] struct {
	name string
	p    *jindo.Prover[E]
}

// runCrash runs fn as a simulated thread that crashes after some statements.
// It returns false if it crashed; anything else it panicked with is returned.
func runCrash(r *Run, at int64, fn func()) (done bool, pan any) {
	s := simhook.Run(simhook.Config{CrashAt: []int64{at}}, fn)
	t := s.Task(0)
	r.simTime += t.Ran()
	if t.Panic == nil {
		return true, nil
	}
	if _, ok := t.Panic.(simhook.Crash); ok {
		r.fault("crash")
		return false, nil
	}
	return false, t.Panic
}

func execJ01[E bignum.Uint[E]](p *Plan, r *Run) {
	batch := int(p.Cfg["batch"])
	k := newKit[E](max(int(p.Cfg["n"]), 1), max(batch, 1), newRng(mix(p.Seed, 5)).bytes(int(p.Cfg["crs"])))
	np, nv := max(1, int(p.Cfg["provers"])), max(1, int(p.Cfg["verifiers"]))

	provers := make([]*j01Node[E], np)
	for i := range provers {
		provers[i] = &j01Node[E]{fmt.Sprintf("P%d", i), k.prover()}
	}
	verifiers := make([]*jindo.Verifier[E], nv)
	for i := range verifiers {
		verifiers[i] = k.verifier()
	}

	net := newNet(r, mix(p.Seed, 6), int(p.Cfg["drop"]), int(p.Cfg["dup"]), p.Cfg["jitter"], 2000)
	// Durable storage: polynomials with their commitments, whoever made them.
	var store []*commitJob[E]

	type request struct {
		id      int
		s       *session[E]
		resp    []byte
		wireY   []byte
		wireC   []byte
		done    []bool
		shared  *session[E]
		deliver func(v int)
	}
	var reqs []*request

	// Callers that pass everything in the same objects, overwritten in between.
	reuse := p.Cfg["reuse"] == 1
	type buffers struct {
		x   kept[E]
		v   kept[[]E]
		vs  kept[[][]E]
		y   kept[[]E]
		com kept[[]*jindo.Commitment]
		pf  kept[*jindo.Proof]
	}
	bufs := make([]buffers, nv+1)
	for i := range bufs {
		b := &bufs[i]
		b.x.on, b.v.on, b.vs.on, b.y.on, b.com.on, b.pf.on = reuse, reuse, reuse, reuse, reuse, reuse
	}
	mine := &bufs[nv]

	commit := func(n *j01Node[E], v []E, crashAt int64) bool {
		before := copyVec(v)
		var job *commitJob[E]
		ok, pan := runCrash(r, crashAt, func() {
			c, o := n.p.Commit(mine.v.into(v))
			job = &commitJob[E]{v, c, o}
		})
		if pan != nil {
			r.fail("commit-panics", "Commit of %d coefficients panicked: %v", len(v), short(pan, 200))
			return false
		}
		if !ok {
			r.log("%s crashed while committing", n.name)
			n.p = k.prover()
			return false
		}
		if !eqVec(before, v) {
			r.fail("commit-alters-input", "Commit changed the polynomial it was given")
		}
		store = append(store, job)
		return true
	}

	// The verifier's end: check a delivered response.
	check := func(q *request, vi int, s *session[E]) {
		b := &bufs[vi]
		ok, pan := verify(verifiers[vi], b.x.into(s.x), b.com.into(s.com), b.y.into(s.y), b.pf.into(s.pf))
		if pan != nil {
			r.fail("verify-panics", "Verify of an honest proof panicked: %v", short(pan, 200))
			return
		}
		if !ok {
			r.fail("honest-rejected", "verifier %d rejected the honest proof of request %d (field %s n %d batch %d x %v)",
				vi, q.id, fieldNames[p.Cfg["field"]%numFields], p.Cfg["n"], batch, short(bigOf(s.x), 30))
		}
		q.done[vi] = true
	}

	for oi, op := range p.Ops {
		rng := newRng(op.Seed)
		n := provers[int(op.n(0))%np]
		at := int64(oi) * 40
		switch op.K {
		case "commit":
			net.after(at, func() {
				if r.viol != nil {
					return
				}
				v := randVec[E](rng, k.polyLen(rng, op.n(1)), int(op.n(2))%numPats)
				commit(n, v, op.n(3))
				r.log("t=%d %s commits %d coefficients", net.now, n.name, len(v))
			})
		case "restart":
			net.after(at, func() {
				r.fault("restart")
				n.p = k.prover()
				r.log("t=%d %s restarts", net.now, n.name)
			})
		case "copy":
			net.after(at, func() {
				n.p = n.p.SafeCopy()
				r.log("t=%d %s goes on with a safe copy", net.now, n.name)
			})
		case "restartV":
			net.after(at, func() {
				r.fault("restart")
				verifiers[int(op.n(0))%nv] = k.verifier()
			})
		case "part":
			net.after(at, func() {
				who := fmt.Sprintf("V%d", int(op.n(0))%nv)
				net.part[who] = net.now + 20 + op.n(1)%400
				r.fault("partition")
			})
		case "eval":
			net.after(at, func() {
				if r.viol != nil {
					return
				}
				for len(store) < batch || (len(store) == 0) {
					if !commit(n, randVec[E](rng, k.polyLen(rng, int64(rng.n(10))), rng.n(numPats)), 0) && r.viol != nil {
						return
					}
				}
				x := evalPoint[E](rng, op.n(1))
				s := &session[E]{x: x}
				for i := 0; i < k.params.Batch(); i++ {
					// Mostly the latest ones; sometimes any, or the same one twice.
					j := len(store) - 1 - i
					if op.n(2)%3 == 1 {
						j = rng.n(len(store))
					}
					s.v = append(s.v, store[j].v)
					s.com = append(s.com, store[j].com)
					s.open = append(s.open, store[j].open)
				}
				q := &request{id: len(reqs), s: s, done: make([]bool, nv)}
				reqs = append(reqs, q)

				crashAt := op.n(3)
				answer := func() bool {
					if q.resp != nil {
						return true
					}
					xb, comB, opB := x.New().Set(x), copyComs(s.com), copyOpens(s.open)
					ok, pan := runCrash(r, crashAt, func() {
						s.y, s.pf = n.p.Evaluate(mine.x.into(x), mine.vs.into(s.v), mine.com.into(s.com), s.open)
					})
					crashAt = 0
					if pan != nil {
						r.fail("evaluate-panics", "Evaluate panicked: %v", short(pan, 200))
						return false
					}
					if !ok {
						r.log("%s crashed while evaluating", n.name)
						n.p = k.prover()
						return false
					}
					if x.Cmp(xb) != 0 || !eqComs(comB, s.com) {
						r.fail("evaluate-alters-input", "Evaluate changed its point or commitments")
					}
					for i := range opB {
						if !eqPolys(opB[i].InCommit, s.open[i].InCommit) || !eqPolys(opB[i].Encode[0], s.open[i].Encode[0]) {
							r.fail("evaluate-alters-input", "Evaluate changed an opening")
						}
					}
					for i := range s.v {
						if want := horner(s.v[i], x); bigOf(s.y[i]).Cmp(want) != 0 {
							r.fail("wrong-evaluation", "polynomial %d of %d coefficients at %v: got %v, want %v",
								i, len(s.v[i]), short(bigOf(x), 40), short(bigOf(s.y[i]), 40), short(want, 40))
						}
					}
					q.resp, q.wireY, q.wireC = wireProof(s.pf), wireElems(s.y), wireComs(s.com)
					q.shared = s
					return true
				}

				// The verifier asks until it is answered; the answer may come late, twice, or corrupted.
				for vi := 0; vi < nv; vi++ {
					vn := fmt.Sprintf("V%d", vi)
					var ask func()
					tries := 0
					ask = func() {
						if q.done[vi] || r.viol != nil || tries > 400 {
							return
						}
						tries++
						net.send(vn, n.name, "request", func() {
							if r.viol != nil || !answer() {
								return
							}
							if net.now < net.calm && rng.n(100) < int(p.Cfg["corrupt"]) {
								bad := append([]byte(nil), q.resp...)
								net.send(n.name, vn, "corrupted response", func() {
									defer func() { recover() }()
									r.fault("corrupted_message")
									pf := unwireProof(bad)
									pf.Encode[0].Coeffs[0][0] ^= 1
									verifiers[vi].Verify(x, s.com, s.y, pf)
								})
							}
							net.send(n.name, vn, "response", func() {
								if r.viol != nil {
									return
								}
								if p.Cfg["share"] == 1 {
									check(q, vi, q.shared)
									return
								}
								check(q, vi, &session[E]{x: x, com: unwireComs(q.wireC, len(s.com)),
									y: unwireElems[E](q.wireY, len(s.y)), pf: unwireProof(q.resp)})
							})
						})
						net.after(60, ask)
					}
					ask()
				}
			})
		}
	}
	if !net.run(200000) {
		r.fail("no-progress", "the network did not come to rest")
	}
	for _, q := range reqs {
		for vi := range q.done {
			if r.viol == nil && !q.done[vi] {
				r.fail("no-progress", "request %d was never answered to verifier %d although faults stopped", q.id, vi)
			}
		}
	}
	r.log("end t=%d store=%d requests=%d", net.now, len(store), len(reqs))
	if len(reqs) > 0 {
		r.probe("requests")
	}
	if k.params.Cols() > 1 {
		r.probe("several_columns")
	}
}

func genJ01(r *Rng, tier string) *Plan {
	p := &Plan{Kind: "network", Cfg: map[string]int64{
		"field": int64(r.n(numFields)), "n": pick(r, pcsSizes), "batch": int64(pick(r, []int{1, 1, 2, 3, 5})),
		"crs": crsLen(r), "provers": int64(1 + r.n(2)), "verifiers": int64(1 + r.n(2)),
	}}
	if r.p(25) {
		p.Cfg["n"] = int64(1 + r.n(700))
	}
	if r.p(5) {
		p.Cfg["n"], p.Cfg["batch"] = int64(1000+r.n(1200)), 1
	}
	if r.p(60) {
		p.Cfg["drop"] = int64(r.n(40))
		p.Cfg["dup"] = int64(r.n(40))
		p.Cfg["jitter"] = int64(r.n(120))
		p.Cfg["corrupt"] = int64(r.n(30))
	}
	p.Cfg["share"], p.Cfg["reuse"] = int64(r.n(2)), int64(r.n(2))
	n := 3 + r.n(6)
	for i := 0; i < n; i++ {
		crash := int64(0)
		if r.p(15) {
			crash = 1 + r.n64(1<<uint(4+r.n(15)))
		}
		switch c := r.n(100); {
		case c < 35:
			p.Ops = append(p.Ops, Op{K: "commit", N: []int64{int64(r.n(2)), int64(r.n(10)), int64(r.n(numPats)), crash}})
		case c < 75:
			p.Ops = append(p.Ops, Op{K: "eval", N: []int64{int64(r.n(2)), int64(r.n(8)), int64(r.n(3)), crash}})
		case c < 82:
			p.Ops = append(p.Ops, Op{K: "restart", N: []int64{int64(r.n(2))}})
		case c < 90:
			p.Ops = append(p.Ops, Op{K: "copy", N: []int64{int64(r.n(2))}})
		case c < 95:
			p.Ops = append(p.Ops, Op{K: "restartV", N: []int64{int64(r.n(2))}})
		default:
			p.Ops = append(p.Ops, Op{K: "part", N: []int64{int64(r.n(2)), int64(r.n(400))}})
		}
	}
	p.Ops = append(p.Ops, Op{K: "eval", N: []int64{0, int64(r.n(8)), 0}})
	return p
}

// scriptJ01 goes through every field, batch and length class, and crash points.
func scriptJ01(i int, tier string) *Plan {
	type c struct{ f, n, b int64 }
	var l []c
	for f := int64(0); f < numFields; f++ {
		for _, n := range []int64{1, 64, 257} {
			for _, b := range []int64{1, 2, 4} {
				l = append(l, c{f, n, b})
			}
		}
		l = append(l, c{f, 1024, 1})
	}
	l = append(l, c{4, 2500, 2}, c{3, 4096, 1}, c{0, 2048, 2})
	if i >= len(l) {
		return nil
	}
	p := &Plan{Kind: "matrix", Cfg: map[string]int64{"field": l[i].f, "n": l[i].n, "batch": l[i].b, "crs": int64(i % 9),
		"provers": 1, "verifiers": 1 + int64(i%2), "share": int64(i % 2), "reuse": int64(i / 2 % 2)}}
	for c := int64(0); c < 10; c++ {
		if l[i].n > 300 && c > 5 {
			break
		}
		p.Ops = append(p.Ops, Op{K: "commit", N: []int64{0, c, c % numPats}})
		if c >= l[i].b-1 {
			p.Ops = append(p.Ops, Op{K: "eval", N: []int64{0, c, 0}})
		}
	}
	return p
}

func init() {
	register(&Prop{
		ID: "J01", Script: scriptJ01, Gen: genJ01, Exec: dispatchJ01,
		Rule: "field x size x batch x polynomial length class x coefficient pattern x evaluation point, under seeded message loss, " +
			"duplication, delay, reordering, partition, corruption, and crashes at a statement of Commit or Evaluate; " +
			"non-trivial when at least one evaluation was requested",
		Real: []string{"jindo prover, verifier, encoder, commitment key, parameters", "csprng samplers", "field arithmetic", "lattigo rings (dependency)"},
		Stub: []string{"network and clock (discrete events)", "entropy source", "processes (objects dropped at a crash)"},
	})
}
