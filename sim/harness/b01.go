package main

import (
	"fmt"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bignum"
)

// B01: satisfied circuits, proved by processes that crash, and verified across a faulty network.

func dispatchB01(p *Plan, r *Run) {
	switch p.Cfg["field"] % numFields {
	case 0:
		execB01[f0](p, r)
	case 1:
		execB01[f1](p, r)
	case 2:
		execB01[f2](p, r)
	case 3:
		execB01[f3](p, r)
	case 4:
		execB01[f4](p, r)
	}
}

// snarkNode is a process with what it compiled.
type snarkNode[E bignum.Uint[E]] struct {
	name string
	prv  *buckler.Prover[E]
	vrf  *buckler.Verifier[E]
}

// boot compiles the circuit in a process, as after a start.
func (n *snarkNode[E]) boot(r *Run, s *spec[E], crs []byte) bool {
	var err error
	pan, st := catch(func() { n.prv, n.vrf, err = s.compile(crs) })
	switch {
	case pan != nil:
		r.fail("library-panics in "+firstFrame(st), "compiling %s at rank %d panicked: %s", s.kinds(), s.rank, short(pan, 200))
	case err != nil:
		r.fail("compile-fails", "compiling %s: %v", s.kinds(), err)
	}
	return r.viol == nil
}

func execB01[E bignum.Uint[E]](p *Plan, r *Run) {
	s := specOf[E](p, p.Ops)
	data := newRng(mix(p.Seed, 5))
	crs := data.bytes(int(p.Cfg["crs"]))
	nv := max(1, int(p.Cfg["verifiers"]))
	prover := &snarkNode[E]{name: "P"}
	if !prover.boot(r, s, crs) {
		return
	}
	verifiers := []*snarkNode[E]{}
	for i := 0; i < nv; i++ {
		v := &snarkNode[E]{name: fmt.Sprintf("V%d", i)}
		if i == 0 && p.Cfg["pair"] == 1 {
			// The verifier that was compiled with the prover.
			v.vrf = prover.vrf
		} else if !v.boot(r, s, crs) {
			return
		}
		verifiers = append(verifiers, v)
	}
	r.log("rank %d %s", s.rank, s.kinds())
	net := newNet(r, mix(p.Seed, 6), int(p.Cfg["drop"]), int(p.Cfg["dup"]), p.Cfg["jitter"], 2000)

	type request struct {
		a    *asg
		pf   *buckler.Proof[E]
		wire []byte
		done []bool
	}
	var reqs []*request
	// Callers that pass everything in the same objects, overwritten in between.
	type buffers struct {
		c  kept[circ[E]]
		pf kept[*buckler.Proof[E]]
	}
	bufs := make([]buffers, nv+1)
	for i := range bufs {
		bufs[i].c.on, bufs[i].pf.on = p.Cfg["reuse"] == 1, p.Cfg["reuse"] == 1
	}
	check := func(q *request, id, vi int, pf *buckler.Proof[E]) {
		ok, pan, st := verifyCirc(verifiers[vi].vrf, buckler.Circuit[E](bufs[vi].c.into(s.assign(q.a, p.Cfg["share"] == 1))), bufs[vi].pf.into(pf))
		if pan != nil {
			r.fail("library-panics in "+firstFrame(st), "Verify of an honest proof panicked: %s", short(pan, 200))
			return
		}
		if !ok {
			r.fail("honest-rejected", "verifier %d rejected the honest proof %d of a circuit of rank %d over %s with %s",
				vi, id, s.rank, fieldNames[p.Cfg["field"]%numFields], s.kinds())
		}
		q.done[vi] = true
	}
	for oi, op := range p.Ops {
		at := int64(oi) * 40
		switch op.K {
		case "restart":
			net.after(at, func() {
				if r.viol == nil {
					r.fault("restart")
					prover.boot(r, s, crs)
				}
			})
		case "restartV":
			net.after(at, func() {
				if r.viol == nil {
					r.fault("restart")
					verifiers[int(op.n(0))%nv].boot(r, s, crs)
				}
			})
		case "part":
			net.after(at, func() {
				net.part[fmt.Sprintf("V%d", int(op.n(0))%nv)] = net.now + 20 + op.n(1)%400
				r.fault("partition")
			})
		case "prove":
			net.after(at, func() {
				if r.viol != nil {
					return
				}
				seed := op.Seed
				if op.n(0)%3 == 0 && len(reqs) > 0 {
					// The same assignment again.
					seed = p.Seed
				}
				q := &request{a: s.fill(seed), done: make([]bool, nv)}
				if v, at := s.judge(q.a); v != holds {
					panic(fmt.Sprintf("the assignment does not satisfy constraint %d %+v", at, s.cons[max(at, 0)]))
				}
				id := len(reqs)
				reqs = append(reqs, q)
				crashAt := op.n(1)
				answer := func() bool {
					if q.pf != nil {
						return true
					}
					c := bufs[nv].c.into(s.assign(q.a, true))
					var err error
					var pf *buckler.Proof[E]
					ok, pan := runCrash(r, crashAt, func() { pf, err = prover.prv.Prove(c) })
					crashAt = 0
					switch {
					case pan != nil:
						r.fail("prove-panics", "Prove of a satisfied circuit of rank %d with %s panicked: %s", s.rank, s.kinds(), short(pan, 200))
						return false
					case !ok:
						r.log("the prover crashed while proving")
						prover.boot(r, s, crs)
						return false
					case err != nil:
						r.fail("prove-fails", "Prove of a satisfied circuit with %s: %v", s.kinds(), err)
						return false
					}
					q.pf, q.wire = pf, wireSnark(pf)
					r.log("t=%d proof %d %x", net.now, id, q.wire[20:36])
					return true
				}
				for vi := range verifiers {
					vn := verifiers[vi].name
					tries := 0
					var ask func()
					ask = func() {
						if q.done[vi] || r.viol != nil || tries > 400 {
							return
						}
						tries++
						net.send(vn, "P", "request", func() {
							if r.viol != nil || !answer() {
								return
							}
							net.send("P", vn, "response", func() {
								if r.viol != nil {
									return
								}
								if q.done[vi] && net.rng.p(70) {
									return
								}
								if p.Cfg["share"] == 1 {
									check(q, id, vi, q.pf)
								} else {
									check(q, id, vi, unwireSnark[E](q.wire))
								}
							})
						})
						net.after(60, ask)
					}
					ask()
				}
			})
		}
	}
	if !net.run(100000) {
		r.fail("no-progress", "the network did not come to rest")
	}
	for id, q := range reqs {
		for vi := range q.done {
			if r.viol == nil && !q.done[vi] {
				r.fail("no-progress", "proof %d never reached verifier %d although faults stopped", id, vi)
			}
		}
	}
	for _, c := range s.cons {
		r.probe("constraint_" + c.kind)
	}
	if len(reqs) > 0 {
		r.probe("requests")
	}
}

func genB01(r *Rng, tier string) *Plan {
	p := &Plan{Kind: "network", Cfg: snarkCfg(r)}
	p.Cfg["verifiers"], p.Cfg["pair"], p.Cfg["share"] = int64(1+r.n(2)), int64(r.n(2)), int64(r.n(2))
	p.Cfg["reuse"] = int64(r.n(2))
	if r.p(50) {
		p.Cfg["drop"], p.Cfg["dup"], p.Cfg["jitter"] = int64(r.n(40)), int64(r.n(30)), int64(r.n(120))
	}
	p.Ops = genSpecOps(r, 1+r.n(6))
	for i := 1 + r.n(3); i > 0; i-- {
		crash := int64(0)
		if r.p(15) {
			crash = 1 + r.n64(1<<uint(4+r.n(18)))
		}
		p.Ops = append(p.Ops, Op{K: "prove", N: []int64{int64(r.n(3)), crash}})
		switch c := r.n(100); {
		case c < 12:
			p.Ops = append(p.Ops, Op{K: "restart"})
		case c < 24:
			p.Ops = append(p.Ops, Op{K: "restartV", N: []int64{int64(r.n(2))}})
		case c < 34:
			p.Ops = append(p.Ops, Op{K: "part", N: []int64{int64(r.n(2)), int64(r.n(400))}})
		}
	}
	return p
}

// matrixOps are small circuits that together have every kind of constraint in every form.
func matrixOps() [][]Op {
	var l [][]Op
	one := func(ops ...Op) { l = append(l, ops) }
	wit := Op{K: "wit", N: []int64{patRandom}, Seed: 101}
	pub := Op{K: "pub", N: []int64{patRandom}, Seed: 102}
	for c := int64(0); c < 4; c++ {
		for d := int64(0); d < 3; d++ {
			one(wit, wit, pub, Op{K: "arith", N: []int64{3, c, 0, d}, Seed: uint64(200 + 10*c + d)}, Op{K: "arith", N: []int64{2, c, 1, d}, Seed: uint64(300 + 10*c + d)})
		}
	}
	for c := int64(0); c < 5; c++ {
		one(wit, pub, Op{K: "sum", N: []int64{2, c, c % 3, c % 2}, Seed: uint64(400 + c)}, Op{K: "sum", N: []int64{1, (c + 1) % 5, 2, 1 - c%2}, Seed: uint64(410 + c)})
	}
	for c := int64(0); c < 6; c++ {
		one(wit, Op{K: "lin", N: []int64{c, 0}, Seed: uint64(500 + c)}, Op{K: "lin", N: []int64{c, 1}, Seed: uint64(510 + c)}, Op{K: "lin", N: []int64{c + 1, 0}, Seed: uint64(520 + c)})
	}
	for d := int64(3); d < 5; d++ {
		one(wit, wit, pub, Op{K: "arith", N: []int64{3, 0, 0, d}, Seed: uint64(200 + d)})
		one(wit, wit, pub, Op{K: "sum", N: []int64{3, 3, d}, Seed: uint64(210 + d)})
	}
	// Constraints of a single term among others.
	one(wit, Op{K: "arith", N: []int64{2, 1}, Seed: 221}, Op{K: "arith", N: []int64{0, 1}, Seed: 222}, Op{K: "inf", N: []int64{0}, Seed: 223}, Op{K: "arith", N: []int64{0, 0}, Seed: 224})
	one(wit, Op{K: "inf", N: []int64{0}, Seed: 223}, Op{K: "arith", N: []int64{0, 0}, Seed: 224}, Op{K: "arith", N: []int64{2, 0}, Seed: 224})
	one(Op{K: "inf", N: []int64{5, 0, 1}, Seed: 225}, Op{K: "two", N: []int64{5, 0, 1}, Seed: 225}, Op{K: "approx", N: []int64{5, 0, 1}, Seed: 225})
	for c := range infBounds {
		one(Op{K: "inf", N: []int64{int64(c)}, Seed: uint64(600 + c)})
	}
	one(Op{K: "inf", N: []int64{5}, Seed: 640}, Op{K: "inf", N: []int64{6, 1}, Seed: 641}, Op{K: "inf", N: []int64{5}, Seed: 642})
	for c := range twoBounds {
		one(Op{K: "two", N: []int64{int64(c)}, Seed: uint64(700 + c)})
	}
	one(Op{K: "two", N: []int64{4}, Seed: 740}, Op{K: "two", N: []int64{6, 1}, Seed: 741}, Op{K: "two", N: []int64{7}, Seed: 742})
	one(Op{K: "two", N: []int64{4}, Seed: 740}, Op{K: "inf", N: []int64{6, 1}, Seed: 741}, Op{K: "approx", N: []int64{3, 1}, Seed: 742})
	for c := 0; c < 4; c++ {
		one(Op{K: "approx", N: []int64{int64(c)}, Seed: uint64(800 + c)})
	}
	all := []Op{wit, pub, {K: "arith", N: []int64{3, 0, 0, 2}, Seed: 901}, {K: "sum", N: []int64{2, 3, 1, 0}, Seed: 902}, {K: "lin", N: []int64{0, 0}, Seed: 903},
		{K: "inf", N: []int64{5}, Seed: 904}, {K: "two", N: []int64{6}, Seed: 905}, {K: "approx", N: []int64{2}, Seed: 906}}
	one(all...)
	for i := 2; i < len(all); i++ {
		for j := i + 1; j < len(all); j++ {
			one(wit, pub, all[i], all[j])
		}
	}
	return l
}

var matrixCircuits = matrixOps()

func scriptB01(i int, tier string) *Plan {
	// One circuit with the real random projection, then the small ones.
	if i == 0 {
		return &Plan{Kind: "projection", Cfg: map[string]int64{"field": 2, "logn": 11, "form": 0, "crs": 8, "pair": 1},
			Ops: []Op{{K: "approx", N: []int64{1}}, {K: "prove", N: []int64{1}}}}
	}
	if i == 1 {
		// And with several of them, of new and of constrained values.
		return &Plan{Kind: "projection", Cfg: map[string]int64{"field": 1, "logn": 11, "form": 1, "crs": 8},
			Ops: []Op{{K: "approx", N: []int64{2}, Seed: 1}, {K: "approx", N: []int64{1}, Seed: 2}, {K: "approx", N: []int64{3, 1}, Seed: 3}, {K: "prove", N: []int64{1}}}}
	}
	i--
	if i <= 3 {
		// Bounds that are a good part of the field.
		return &Plan{Kind: "matrix", Cfg: map[string]int64{"field": []int64{1, 1, 2}[i-1], "logn": 2, "form": 0, "crs": 8, "pair": 1},
			Ops: []Op{{K: "inf", N: []int64{1000 + int64(i-1), 0, 0}, Seed: uint64(i)}, {K: "arith", N: []int64{2, 2, 2, 0}}, {K: "prove", N: []int64{1}}, {K: "prove", N: []int64{1}, Seed: 2}}}
	}
	i -= 3
	if i > len(matrixCircuits) {
		return nil
	}
	p := &Plan{Kind: "matrix", Cfg: map[string]int64{"field": int64(i % numFields), "logn": int64(3 + i%3), "form": int64(i / 2 % 2), "alias": int64(i / 3 % 2),
		"crs": 8, "share": int64(i / 5 % 2), "reuse": int64(i / 3 % 2), "pair": int64(i % 2)}}
	p.Ops = append(p.Ops, matrixCircuits[i-1]...)
	p.Ops = append(p.Ops, Op{K: "prove", N: []int64{1}}, Op{K: "prove", N: []int64{1}})
	return p
}

var snarkReal = []string{"buckler compiler, prover, verifier, encoder, linear relations", "jindo commitment scheme", "bigpoly transforms and evaluators",
	"csprng samplers", "field arithmetic", "gnark-crypto transcript (dependency)", "lattigo rings (dependency)"}

func init() {
	register(&Prop{
		ID: "B01", Script: scriptB01, Gen: genB01, Exec: dispatchB01,
		Rule: "circuits of 1 to 6 constraints of every kind (terms up to degree 3, shared and aliased terms, any sum, six kinds of linear relation, bounds " +
			"at and around powers of two, existing and new witnesses) in flat and nested circuit types, with values filled in to satisfy them, often with " +
			"equality, x field x rank x network faults, crashes at a statement of Prove, and restarts; non-trivial when a proof was asked for",
		Real: snarkReal,
		Stub: []string{"network and clock (discrete events)", "entropy source", "processes (objects dropped at a crash)"},
	})
}
