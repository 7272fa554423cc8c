package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/simhook"
)

// B04: what the challenges of a circuit proof depend on.

func dispatchB04(p *Plan, r *Run) {
	switch p.Cfg["field"] % numFields {
	case 0:
		execB04[f0](p, r)
	case 1:
		execB04[f1](p, r)
	case 2:
		execB04[f2](p, r)
	case 3:
		execB04[f3](p, r)
	case 4:
		execB04[f4](p, r)
	}
}

// challenges returns what fn drew from the oracle of the circuit proof, in order.
func challenges(fn func()) (out [][]byte) {
	simhook.Recording = true
	simhook.Records = nil
	fn()
	simhook.Recording = false
	for _, r := range simhook.Records {
		if r.Alg == "sha256" {
			out = append(out, r.Out)
		}
	}
	simhook.Records = nil
	return out
}

// layout tells which of the messages of a proof is which.
type layout struct {
	nW, wit, masks, all int
	arith, lin, sum     bool
}

// layoutOf works it out from how many witnesses were encoded.
func layoutOf[E bignum.Uint[E]](s *spec[E], pf *buckler.Proof[E], encodes int) (l layout) {
	l.nW, l.all, l.wit = s.nW, len(pf.Witness), encodes
	l.lin, l.sum = !isNil(pf.LinCheckMaskSum), !isNil(pf.SumCheckMaskSum)
	rest := l.all - l.wit
	for _, b := range []bool{l.lin, l.sum} {
		if b {
			rest -= 4
			l.masks++
		}
	}
	l.arith = rest == 1
	return l
}

// from returns the first and the number of challenges, out of n, which have to depend on a message.
func (l layout) from(i, n int) int {
	switch {
	case i < l.nW:
		return 0
	case i < l.wit+l.masks:
		// Digits may be committed to after the projection is known.
		return min(1, n-1)
	}
	return n - 1
}

func execB04[E bignum.Uint[E]](p *Plan, r *Run) {
	switch p.Kind {
	case "effective":
		execEffective[E](p, r)
		return
	case "projection-entries":
		execProjection[E](p, r)
		return
	}
	s := specOf[E](p, p.Ops)
	crs := newRng(mix(p.Seed, 5)).bytes(int(p.Cfg["crs"]))
	node, other := &snarkNode[E]{name: "P"}, &snarkNode[E]{name: "V"}
	if !node.boot(r, s, crs) || !other.boot(r, s, crs) {
		return
	}
	k := kitOf[E](node.prv.JindoParams, crs)
	a := s.fill(p.Seed)
	var pf *buckler.Proof[E]
	var h puppet[E]
	prove := func(a *asg) (pf *buckler.Proof[E], out [][]byte) {
		out = challenges(func() {
			var err error
			var pan any
			var st string
			h.run(func() { pf, err, pan, st = proveCirc(node.prv, buckler.Circuit[E](s.assign(a, true))) })
			if pan != nil || err != nil {
				r.fail("library-panics in "+firstFrame(st), "Prove failed: %v %s", err, short(pan, 200))
			}
		})
		return
	}
	verify := func(a *asg, pf *buckler.Proof[E]) (ok bool, out [][]byte) {
		out = challenges(func() {
			var pan any
			var st string
			ok, pan, st = verifyCirc(other.vrf, buckler.Circuit[E](s.assign(a, false)), pf)
			if pan != nil {
				r.fail("library-panics in "+firstFrame(st), "Verify panicked: %s", short(pan, 200))
			}
		})
		return
	}
	pf, fromProver := prove(a)
	if r.viol != nil {
		return
	}
	_, base := verify(a, pf)
	if len(fromProver) == 0 || len(base) == 0 {
		// Challenges come from somewhere the seam does not see.
		r.probe("oracle_not_seen")
		r.log("the oracle was not seen")
		return
	}
	if !eqOutputs(fromProver, base) {
		r.fail("sides-differ", "prover and verifier derive different challenges from one transcript")
		return
	}
	for i := range base {
		for j := range base[:i] {
			if bytes.Equal(base[i], base[j]) {
				r.fail("challenge-repeats", "challenges %d and %d are the same", j, i)
				return
			}
		}
	}
	l := layoutOf(s, pf, h.encodes)
	r.log("rank %d %s messages %+v challenges %d", s.rank, s.kinds(), l, len(base))
	distinct := func(what, detail string, o [][]byte, from int) {
		if len(o) != len(base) {
			if len(o) == 0 {
				r.probe("not_reached_" + what)
				return
			}
			r.fail("challenge-count", "%s (%s): %d challenges instead of %d", what, detail, len(o), len(base))
			return
		}
		r.fault("changed_" + what)
		for i := from; i < len(base); i++ {
			if bytes.Equal(base[i], o[i]) {
				r.fail("unbound-"+what, "%s (%s): challenge %d of %d is the same as without the change (%s)", what, detail, i, len(base), s.kinds())
				return
			}
		}
	}
	for oi, o := range p.Ops {
		if isSpecOp(o.K) {
			continue
		}
		d := newRng(o.Seed)
		t := &snarkTampered[E]{a.clone(), copySnark(pf)}
		kind, detail, from := o.K, "", 0
		proverSide := false
		switch kind {
		case "public", "public-pair", "public-order", "public-prover":
			if len(t.a.P) == 0 {
				continue
			}
			vi := d.n(len(t.a.P))
			v := t.a.P[vi]
			i := d.n(len(v))
			if d.p(40) {
				i = pick(d, []int{0, len(v) - 1})
			}
			wi, j := d.n(len(t.a.P)), d.n(len(v))
			w := t.a.P[wi]
			x := new(big.Int).Set(v[i])
			y := new(big.Int).Set(w[j])
			e := new(big.Int).Lsh(big.NewInt(1), uint(d.n(s.m.BitLen()-1)))
			detail = fmt.Sprintf("input %d entry %d", vi, i)
			switch kind {
			case "public-order":
				v[i], w[j] = w[j], v[i]
				detail += fmt.Sprintf(" and input %d entry %d", wi, j)
			case "public-pair":
				v[i].Mod(v[i].Add(v[i], e), s.m)
				w[j].Mod(w[j].Sub(w[j], e), s.m)
				detail += fmt.Sprintf(" and input %d entry %d", wi, j)
			default:
				v[i].Mod(v[i].Add(v[i], e), s.m)
				proverSide = kind == "public-prover"
			}
			if x.Cmp(t.a.P[vi][i]) == 0 && y.Cmp(t.a.P[wi][j]) == 0 {
				continue
			}
		case "com":
			i := int(o.n(0)) % l.all
			from = l.from(i, len(base))
			detail = fmt.Sprintf("commitment %d of %d, %s", i, l.all, bump(d, k.qq, t.pf.Witness[i].Value))
		case "com-order":
			i, j := d.n(l.all), d.n(l.all)
			if eqPolys(t.pf.Witness[i].Value, t.pf.Witness[j].Value) {
				continue
			}
			t.pf.Witness[i], t.pf.Witness[j] = t.pf.Witness[j], t.pf.Witness[i]
			from = l.from(min(i, j), len(base))
			detail = fmt.Sprintf("commitments %d and %d", i, j)
		case "lin-sum":
			if !l.lin {
				continue
			}
			t.pf.LinCheckMaskSum = nudge(d, t.pf.LinCheckMaskSum)
			from = min(1, len(base)-1)
		case "sum-sum":
			if !l.sum {
				continue
			}
			t.pf.SumCheckMaskSum = nudge(d, t.pf.SumCheckMaskSum)
			from = min(1, len(base)-1)
		case "sums":
			// Both sums, such that their total, or their order, stays the same.
			if !l.sum || !l.lin || t.pf.LinCheckMaskSum.Cmp(t.pf.SumCheckMaskSum) == 0 {
				continue
			}
			if d.p(50) {
				t.pf.LinCheckMaskSum, t.pf.SumCheckMaskSum = t.pf.SumCheckMaskSum, t.pf.LinCheckMaskSum
			} else {
				e := randElem[E](d)
				if bigOf(e).Sign() == 0 {
					continue
				}
				t.pf.LinCheckMaskSum.Add(t.pf.LinCheckMaskSum, e)
				t.pf.SumCheckMaskSum.Sub(t.pf.SumCheckMaskSum, e)
			}
			from = min(1, len(base)-1)
		case "again":
			// The same statement is proved again.
			detail = "a second proof"
			proverSide = true
		}
		if proverSide {
			pf2, out := prove(t.a)
			if r.viol != nil {
				return
			}
			distinct(kind, detail, out, 0)
			if _, o2 := verify(t.a, pf2); r.viol == nil && len(o2) > 0 && !eqOutputs(out, o2) {
				r.fail("sides-differ", "prover and verifier derive different challenges from one transcript after a change of %s", detail)
			}
		} else {
			ok, out := verify(t.a, t.pf)
			distinct(kind, detail, out, from)
			if ok && r.viol == nil {
				r.fail("altered-accepted", "%s (%s) is accepted", kind, detail)
			}
		}
		r.log("op %d %s %s", oi, kind, detail)
		if r.viol != nil {
			return
		}
	}
}

var b04Kinds = []string{"public", "public", "public", "public-pair", "public-order", "com", "com", "com", "com", "com-order", "lin-sum", "sum-sum", "sums"}

func genB04(r *Rng, tier string) *Plan {
	if r.p(12) {
		return &Plan{Kind: "effective", Cfg: map[string]int64{"field": int64(r.n(numFields)), "logn": int64(1 + r.n(4)), "crs": int64(r.n(40)), "proofs": int64(pick(r, []int{2, 4, 16, 40}))}}
	}
	if r.p(2) {
		return &Plan{Kind: "projection-entries", Cfg: map[string]int64{"field": int64(1 + r.n(2)), "logn": 11, "proofs": 4}}
	}
	p := &Plan{Kind: "transcript", Cfg: snarkCfg(r)}
	p.Ops = genSpecOps(r, 1+r.n(5))
	for i := 20 + r.n(20); i > 0; i-- {
		p.Ops = append(p.Ops, Op{K: pick(r, b04Kinds), N: []int64{int64(r.n(64))}})
	}
	for i := r.n(3); i > 0; i-- {
		p.Ops = append(p.Ops, Op{K: pick(r, []string{"again", "public-prover"})})
	}
	return p
}

func scriptB04(i int, tier string) *Plan {
	if i == 0 {
		return &Plan{Kind: "projection-entries", Cfg: map[string]int64{"field": 1, "logn": 11, "proofs": 3, "fixed": 1}}
	}
	i--
	if i == 0 {
		// Two random projections: every message of the second round.
		p := &Plan{Kind: "projection", Cfg: map[string]int64{"field": 2, "logn": 11, "form": 0, "crs": 3}}
		p.Ops = []Op{{K: "approx", N: []int64{2}, Seed: 1}, {K: "approx", N: []int64{1}, Seed: 2}}
		for j := int64(0); j < 14; j++ {
			p.Ops = append(p.Ops, Op{K: "com", N: []int64{j}, Seed: uint64(300 + j)})
		}
		return p
	}
	i--
	if i < numFields {
		return &Plan{Kind: "effective", Cfg: map[string]int64{"field": int64(i), "logn": 3, "crs": 16, "proofs": 40}}
	}
	i -= numFields
	if i >= 1+4*numFields {
		return nil
	}
	p := &Plan{Kind: "matrix", Cfg: map[string]int64{"field": int64(i % numFields), "logn": 3, "form": int64(i % 2), "crs": int64(i)}}
	if i == 0 {
		// The rank at which projections are real.
		p.Cfg["logn"], p.Cfg["field"] = 11, 1
		p.Kind = "projection"
		p.Ops = []Op{{K: "pub", N: []int64{0}, Seed: 1}, {K: "approx", N: []int64{1}, Seed: 2}, {K: "sum", N: []int64{1, 0, 1, 0}, Seed: 3}}
		for j := int64(0); j < 12; j++ {
			p.Ops = append(p.Ops, Op{K: "com", N: []int64{j}, Seed: uint64(300 + j)})
		}
		p.Ops = append(p.Ops, Op{K: "public", Seed: 4}, Op{K: "lin-sum", Seed: 5}, Op{K: "sum-sum", Seed: 6})
		return p
	}
	l := matrixCircuits[len(matrixCircuits)-16]
	if i >= numFields {
		l = matrixCircuits[(i*7)%len(matrixCircuits)]
	}
	p.Ops = append(p.Ops, Op{K: "pub", N: []int64{0}, Seed: 1})
	p.Ops = append(p.Ops, l...)
	for j := int64(0); j < 24; j++ {
		p.Ops = append(p.Ops, Op{K: "com", N: []int64{j}, Seed: uint64(100 + j)}, Op{K: b04Kinds[int(j)%len(b04Kinds)], N: []int64{j}, Seed: uint64(200 + j)})
	}
	p.Ops = append(p.Ops, Op{K: "public-prover", Seed: 5}, Op{K: "again", Seed: 6})
	return p
}

func init() {
	register(&Prop{
		ID: "B04", Script: scriptB04, Gen: genB04, Exec: dispatchB04,
		Rule: "circuits as for B01 x one honest transcript x changes of one public entry (every bit), one value of one commitment (every one in turn), one mask sum, and " +
			"swaps and compensating changes of these; counted when the challenges after the change were drawn",
		Real: snarkReal,
		Stub: []string{"entropy source", "hash functions record what they absorb and deliver"},
	})
}
