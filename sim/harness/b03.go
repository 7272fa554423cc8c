package main

import (
	"fmt"
	"math/big"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
)

// B03: an adversary on the network alters, mixes and replays circuit proofs and public inputs.

func dispatchB03(p *Plan, r *Run) {
	switch p.Cfg["field"] % numFields {
	case 0:
		execB03[f0](p, r)
	case 1:
		execB03[f1](p, r)
	case 2:
		execB03[f2](p, r)
	case 3:
		execB03[f3](p, r)
	case 4:
		execB03[f4](p, r)
	}
}

// kitOf has the tools for the commitment scheme of a compiled circuit.
func kitOf[E bignum.Uint[E]](params jindo.Parameters, crs []byte) *kit[E] {
	return &kit[E]{params: params, q: params.RingQ(), qq: params.RingQOut(), crs: crs}
}

// snarkSession is an honest proof with its statement.
type snarkSession[E bignum.Uint[E]] struct {
	a  *asg
	pf *buckler.Proof[E]
}

// asPCS presents a proof as a session of the commitment scheme.
func (s *snarkSession[E]) asPCS() *session[E] {
	return &session[E]{x: elemInt[E](0), com: s.pf.Witness, y: s.pf.Evals, pf: s.pf.EvalProof}
}

// snarkTampered is what reaches the verifier.
type snarkTampered[E bignum.Uint[E]] struct {
	a  *asg
	pf *buckler.Proof[E]
}

func eqAsgPublic(a, b *asg) bool {
	for i := range a.P {
		for j := range a.P[i] {
			if a.P[i][j].Cmp(b.P[i][j]) != 0 {
				return false
			}
		}
	}
	return true
}

var b03Kinds = []string{"com-poly", "com-swap", "com-other", "y-one", "y-swap", "y-cancel", "y-other", "pf-incommit", "pf-partial", "pf-mask",
	"pf-encode", "pf-mlwe", "pf-all-other", "part-other", "batch-rot",
	"lin-mask", "sum-mask", "mask-swap", "public", "public-swap", "public-other", "public-cancel", "replay", "mixed"}

func alterElem[E bignum.Uint[E]](rng *Rng, x, other E, how int64) E {
	var z E
	switch how % 6 {
	case 0:
		return nudge(rng, x)
	case 1:
		return z.New().Neg(x)
	case 2:
		return z.New()
	case 3:
		return randElem[E](rng)
	case 4:
		return z.New().Set(other)
	}
	return z.New().Add(x, elemInt[E](1))
}

func mutateSnark[E bignum.Uint[E]](k *kit[E], s *spec[E], rng *Rng, kind string, how int64, t *snarkTampered[E], a, b *snarkSession[E]) {
	switch kind {
	case "lin-mask":
		if !isNil(t.pf.LinCheckMaskSum) {
			t.pf.LinCheckMaskSum = alterElem(rng, t.pf.LinCheckMaskSum, b.pf.LinCheckMaskSum, how)
		}
	case "sum-mask":
		if !isNil(t.pf.SumCheckMaskSum) {
			t.pf.SumCheckMaskSum = alterElem(rng, t.pf.SumCheckMaskSum, b.pf.SumCheckMaskSum, how)
		}
	case "mask-swap":
		if !isNil(t.pf.SumCheckMaskSum) && !isNil(t.pf.LinCheckMaskSum) {
			t.pf.SumCheckMaskSum, t.pf.LinCheckMaskSum = t.pf.LinCheckMaskSum, t.pf.SumCheckMaskSum
		}
	case "public", "public-cancel":
		if len(t.a.P) == 0 {
			return
		}
		v := t.a.P[rng.n(len(t.a.P))]
		i := rng.n(len(v))
		if rng.p(40) {
			i = pick(rng, []int{0, len(v) - 1})
		}
		d := new(big.Int).Lsh(big.NewInt(1), uint(rng.n(s.m.BitLen()-1)))
		v[i].Mod(v[i].Add(v[i], d), s.m)
		if kind == "public-cancel" {
			// The sum of a value, or of two values, stays the same.
			if rng.p(50) {
				v = t.a.P[rng.n(len(t.a.P))]
			}
			j := (i + 1 + rng.n(len(v)-1)) % len(v)
			v[j].Mod(v[j].Sub(v[j], d), s.m)
		}
	case "public-swap":
		if len(t.a.P) == 0 {
			return
		}
		i, j := rng.n(len(t.a.P)), rng.n(len(t.a.P))
		if how%2 == 0 {
			t.a.P[i], t.a.P[j] = t.a.P[j], t.a.P[i]
			return
		}
		v := t.a.P[i]
		x, y := rng.n(len(v)), rng.n(len(v))
		v[x], v[y] = v[y], v[x]
	case "public-other":
		if len(t.a.P) > 0 {
			i := rng.n(len(t.a.P))
			t.a.P[i] = b.a.clone().P[i]
		}
	case "replay":
		// The proof of another session for this statement.
		t.pf = copySnark(b.pf)
	case "mixed":
		m := 1 + int(how)%30
		if m&1 != 0 {
			t.pf.Witness = copyComs(b.pf.Witness)
		}
		if m&2 != 0 {
			t.pf.Evals = copyVec(b.pf.Evals)
		}
		if m&4 != 0 {
			t.pf.EvalProof = copyProof(b.pf.EvalProof)
		}
		if m&8 != 0 {
			t.pf.LinCheckMaskSum = b.pf.LinCheckMaskSum
			t.pf.SumCheckMaskSum = b.pf.SumCheckMaskSum
		}
		if m&16 != 0 {
			t.a = b.a.clone()
		}
	default:
		pt := tamperedOf(&session[E]{x: elemInt[E](0), com: t.pf.Witness, y: t.pf.Evals, pf: t.pf.EvalProof}, nil)
		k.mutate(rng, kind, how, pt, a.asPCS(), b.asPCS())
		t.pf.Witness, t.pf.Evals, t.pf.EvalProof = pt.com, pt.y, pt.pf
	}
}

// otherCircuits returns variants of a circuit, of the same layout.
func otherCircuit[E bignum.Uint[E]](s *spec[E], d *Rng) *spec[E] {
	o := newSpec[E](s.rank, s.form)
	id := o.id
	*o = *s
	o.id = id
	specs[id] = o
	o.cons = nil
	for _, c := range s.cons {
		n := *c
		n.terms = append([]term(nil), c.terms...)
		n.prefix = 0
		o.cons = append(o.cons, &n)
	}
	c := o.cons[d.n(len(o.cons))]
	switch c.kind {
	case "arith", "sum":
		if c.kind == "sum" && d.p(50) {
			c.sum = new(big.Int).Add(c.sum, big.NewInt(1))
			break
		}
		t := &c.terms[d.n(len(c.terms))]
		t.how = 0
		t.coef = new(big.Int).Add(t.coef, big.NewInt(1))
	case "lin":
		if len(o.chks) > 1 && d.p(60) {
			c.chk = d.n(len(o.chks))
		} else {
			c.in, c.out = c.out, c.in
		}
	default:
		// A bound with as many digits.
		b := new(big.Int).Sub(c.bound, big.NewInt(1))
		if b.Sign() > 0 && b.BitLen() == c.bound.BitLen() {
			c.bound = b
		} else {
			c.w = d.n(o.nW)
		}
	}
	return o
}

func execB03[E bignum.Uint[E]](p *Plan, r *Run) {
	s := specOf[E](p, p.Ops)
	crs := newRng(mix(p.Seed, 5)).bytes(int(p.Cfg["crs"]))
	node, other := &snarkNode[E]{name: "P"}, &snarkNode[E]{name: "V"}
	if !node.boot(r, s, crs) || !other.boot(r, s, crs) {
		return
	}
	k := kitOf[E](node.prv.JindoParams, crs)
	mk := func(seed uint64) *snarkSession[E] {
		a := s.fill(seed)
		pf, err, pan, st := proveCirc(node.prv, buckler.Circuit[E](s.assign(a, true)))
		if pan != nil || err != nil {
			r.fail("library-panics in "+firstFrame(st), "Prove failed: %v %s", err, short(pan, 200))
			return nil
		}
		return &snarkSession[E]{a, pf}
	}
	a := mk(p.Seed)
	bs := p.Seed + 1
	if p.Cfg["same"] == 1 {
		bs = p.Seed
	}
	if r.viol != nil {
		return
	}
	b := mk(bs)
	if r.viol != nil {
		return
	}
	r.log("rank %d %s", s.rank, s.kinds())
	for oi, o := range p.Ops {
		rng := newRng(o.Seed)
		switch o.K {
		case "tamper":
			kind := b03Kinds[int(o.n(0))%len(b03Kinds)]
			t := &snarkTampered[E]{a.a.clone(), copySnark(a.pf)}
			mutateSnark(k, s, rng, kind, o.n(1), t, a, b)
			pa, pb := eqAsgPublic(t.a, a.a), eqAsgPublic(t.a, b.a)
			if (pa && eqSnark(t.pf, a.pf)) || (pb && eqSnark(t.pf, b.pf)) {
				r.probe("unchanged")
				continue
			}
			r.fault("tamper_" + kind)
			ok, pan, st := verifyCirc(other.vrf, buckler.Circuit[E](s.assign(t.a, false)), t.pf)
			if pan != nil {
				r.fail("library-panics in "+firstFrame(st), "Verify panicked on a %s: %s", kind, short(pan, 200))
				return
			}
			r.log("op %d %s: %v", oi, kind, ok)
			if ok {
				r.fail("altered-accepted-"+kind, "%s %d: altered proof or statement is accepted (rank %d, %s, %s)", kind, o.n(1), s.rank, fieldNames[p.Cfg["field"]%numFields], s.kinds())
				return
			}
		case "crs":
			t := &tampered[E]{crs: append([]byte(nil), crs...), x: elemInt[E](0)}
			k.mutate(rng, "crs", o.n(0), t, a.asPCS(), b.asPCS())
			if string(t.crs) == string(crs) {
				continue
			}
			r.fault("other_reference_string")
			v := &snarkNode[E]{name: "W"}
			if !v.boot(r, s, t.crs) {
				return
			}
			if ok, _, _ := verifyCirc(v.vrf, buckler.Circuit[E](s.assign(a.a, false)), a.pf); ok {
				r.fail("altered-accepted-crs", "a proof for reference string %x is accepted for %x", crs, t.crs)
				return
			}
		case "circuit":
			s2 := otherCircuit(s, rng)
			if v, _ := s2.judge(a.a); v != violated {
				r.probe("still_satisfied")
				continue
			}
			v := &snarkNode[E]{name: "W"}
			if !v.boot(r, s2, crs) {
				return
			}
			r.fault("other_circuit")
			ok, pan, st := verifyCirc(v.vrf, buckler.Circuit[E](s2.assign(a.a, false)), a.pf)
			if pan != nil {
				r.fail("library-panics in "+firstFrame(st), "Verify of a proof of another circuit panicked: %s", short(pan, 200))
				return
			}
			if ok {
				r.fail("altered-accepted-circuit", "a proof is accepted for another circuit, which its witnesses violate: %s", s.kinds())
				return
			}
		}
	}
	// The honest proof is as good as before.
	ok, _, _ := verifyCirc(other.vrf, buckler.Circuit[E](s.assign(a.a, false)), a.pf)
	r.log("honest %v", ok)
	if !ok {
		r.fail("honest-rejected", "the unaltered proof is rejected after the altered ones")
	}
}

func genB03(r *Rng, tier string) *Plan {
	p := &Plan{Kind: "network", Cfg: snarkCfg(r)}
	p.Cfg["same"] = int64(r.n(2))
	p.Ops = genSpecOps(r, 1+r.n(5))
	for i := 12 + r.n(12); i > 0; i-- {
		p.Ops = append(p.Ops, Op{K: "tamper", N: []int64{int64(r.n(len(b03Kinds))), int64(r.n(64))}})
	}
	for i := r.n(3); i > 0; i-- {
		p.Ops = append(p.Ops, Op{K: "circuit"})
	}
	if r.p(40) {
		p.Ops = append(p.Ops, Op{K: "crs", N: []int64{int64(r.n(7))}})
	}
	return p
}

func scriptB03(i int, tier string) *Plan {
	if i >= 4*numFields+2 {
		return nil
	}
	if i >= 4*numFields {
		// With random projections.
		p := &Plan{Kind: "projection", Cfg: map[string]int64{"field": int64(1 + i%2), "logn": 11, "form": int64(i % 2), "crs": 7, "same": int64(i % 2)},
			Ops: []Op{{K: "approx", N: []int64{2}, Seed: 1}, {K: "approx", N: []int64{1}, Seed: 2}}}
		for j := range b03Kinds {
			p.Ops = append(p.Ops, Op{K: "tamper", N: []int64{int64(j), int64(i)}, Seed: uint64(1000 + 2*j)})
		}
		return p
	}
	l := matrixCircuits[len(matrixCircuits)-16]
	if i >= numFields {
		l = matrixCircuits[(i*11)%len(matrixCircuits)]
	}
	p := &Plan{Kind: "matrix", Cfg: map[string]int64{"field": int64(i % numFields), "logn": 4, "form": int64(i % 2), "crs": crsLens[i%len(crsLens)], "same": int64(i / 2 % 2)}}
	p.Ops = append(p.Ops, l...)
	for j := range b03Kinds {
		for h := int64(0); h < 2; h++ {
			p.Ops = append(p.Ops, Op{K: "tamper", N: []int64{int64(j), int64(i)*2 + h}, Seed: uint64(1000 + 2*j + int(h))})
		}
	}
	for j := int64(0); j < 4; j++ {
		p.Ops = append(p.Ops, Op{K: "circuit", Seed: uint64(i)*10 + uint64(j)})
	}
	for j := int64(0); j < 7; j++ {
		p.Ops = append(p.Ops, Op{K: "crs", N: []int64{j}})
	}
	return p
}

func init() {
	register(&Prop{
		ID: "B03", Script: scriptB03, Gen: genB03, Exec: dispatchB03,
		Rule: fmt.Sprintf("circuits as for B01 x two honest proofs (of the same or different assignments) x %d ways to alter, mix or replay their parts and public "+
			"inputs, other reference strings, and variants of the circuit which the witnesses violate; counted when what reaches the verifier differs from both", len(b03Kinds)),
		Real: snarkReal,
		Stub: []string{"network (an adversary alters its messages)", "entropy source"},
	})
}
