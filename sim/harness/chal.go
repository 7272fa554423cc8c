package main

import (
	"fmt"
	"math/big"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/simhook"
)

// The challenges that a proof was really made with, computed from what it says: the
// values that are drawn from the oracle may be used in a way that makes them useless.

// oneOfEach has two arithmetic constraints, a linear one and a sum, such that each of the
// constants they are batched with is determined by the evaluations.
type oneOfEach[E bignum.Uint[E]] struct {
	W   [5]buckler.Witness[E]
	chk *tapChecker[E]
	sum uint64
}

// tapChecker is a linear relation that sees what it is asked.
type tapChecker[E bignum.Uint[E]] struct {
	sparse[E]
	tap func(v, vTr []E)
}

func (c *tapChecker[E]) TransposeTo(vOut, v []E) {
	in := copyVec(v)
	c.sparse.TransposeTo(vOut, v)
	if c.tap != nil {
		c.tap(in, copyVec(vOut))
	}
}

func (c *oneOfEach[E]) Define(ctx *buckler.Context[E]) {
	var a, b, s buckler.ArithmeticConstraint[E]
	a.AddTerm(nil, c.W[0], c.W[1])
	a.SubTerm(nil, c.W[2])
	ctx.AddArithmeticConstraint(a)
	b.AddTerm(nil, c.W[0], c.W[0])
	b.SubTerm(nil, c.W[3])
	ctx.AddArithmeticConstraint(b)
	ctx.AddLinearConstraint(c.W[1], c.W[0], c.chk)
	s.AddTerm(nil, c.W[0], c.W[2])
	s.AddTerm(nil, c.W[4])
	ctx.AddSumCheckConstraint(s, c.sum)
}

// effective are the challenges of one proof.
var effectiveNames = []string{"evaluation point", "arithmetic batching constant", "inverse of the arithmetic batching constant",
	"linear check constant", "linear batching constant", "sum batching constant"}

func execEffective[E bignum.Uint[E]](p *Plan, r *Run) {
	d := newRng(mix(p.Seed, 5))
	n := 1 << max(1, int(p.Cfg["logn"]))
	m := newSpec[E](n, 0).m
	chk := &tapChecker[E]{}
	for i := 0; i < n; i++ {
		for k := 1 + d.n(2); k > 0; k-- {
			chk.row, chk.col, chk.val = append(chk.row, i), append(chk.col, d.n(n)), append(chk.val, randElem[E](d))
		}
	}
	sum := uint64(d.n(1000))
	crs := d.bytes(int(p.Cfg["crs"]))
	prv, vrf, err := buckler.Compile[E](n, &oneOfEach[E]{chk: chk, sum: sum}, crs)
	if err != nil {
		r.fail("compile-fails", "%v", err)
		return
	}
	mod := func(x *big.Int) *big.Int { return x.Mod(x, m) }
	mul := func(x, y *big.Int) *big.Int { return mod(new(big.Int).Mul(x, y)) }
	sub := func(x, y *big.Int) *big.Int { return mod(new(big.Int).Sub(x, y)) }
	add := func(x, y *big.Int) *big.Int { return mod(new(big.Int).Add(x, y)) }
	div := func(x, y *big.Int) *big.Int {
		inv := new(big.Int).ModInverse(y, m)
		if inv == nil {
			return new(big.Int)
		}
		return mul(x, inv)
	}
	assign := func() *oneOfEach[E] {
		c := &oneOfEach[E]{chk: chk, sum: sum}
		w0 := make([]E, n)
		for i := range w0 {
			w0[i] = randElem[E](d)
		}
		w1, w2, w3, w4 := zeros[E](n), zeros[E](n), zeros[E](n), zeros[E](n)
		chk.TransformTo(w1, w0)
		rest := elemInt[E](int64(sum))
		for i := range w0 {
			w2[i].Mul(w0[i], w1[i])
			w3[i].Mul(w0[i], w0[i])
			t := elemInt[E](0)
			rest.Sub(rest, t.Mul(w0[i], w2[i]))
		}
		w4[d.n(n)] = rest
		c.W = [5]buckler.Witness[E]{w0, w1, w2, w3, w4}
		return c
	}
	intt := bigpoly.NewCyclicTransformer[E](n)
	encodedAt := func(v []E, x E) *big.Int {
		c := copyVec(v)
		intt.InvNTTTo(c, c)
		return horner(c, x)
	}

	// prove makes a proof, with one of the commitments replaced by another.
	prove := func(c *oneOfEach[E], alter int) (pf *buckler.Proof[E], out []*big.Int) {
		var x E
		var vec, tr []E
		seen := false
		at := 0
		chk.tap = func(v, vTr []E) { vec, tr = v, vTr }
		simhook.EnterFn = func(name string, recv any, args ...any) {
			if name == "jindo.Prover.Evaluate" {
				x, seen = (*args[0].(*E)).New().Set(*args[0].(*E)), true
			}
		}
		simhook.ExitFn = func(name string, recv any, res ...any) {
			if name == "jindo.Prover.Commit" && len(res) == 2 {
				if com, ok := res[0].(**jindo.Commitment); ok && at == alter {
					*com = copyCom(*com)
					l := (*com).Value
					l[0].Coeffs[0][0] ^= 1
				}
				at++
			}
		}
		simhook.Hooks = true
		var err error
		pan, st := catch(func() { pf, err = prv.Prove(c) })
		simhook.Hooks = false
		simhook.EnterFn, simhook.ExitFn = nil, nil
		chk.tap = nil
		if pan != nil || err != nil {
			r.fail("library-panics in "+firstFrame(st), "Prove failed: %v %s", err, short(pan, 200))
			return nil, nil
		}
		if !seen || vec == nil || len(pf.Evals) != 14 || at != 14 {
			return pf, nil
		}
		e := bigs(pf.Evals)
		xb := bigOf(x)
		z := sub(new(big.Int).Exp(xb, big.NewInt(int64(n)), m), big.NewInt(1))
		c0, c1 := sub(mul(e[0], e[1]), e[2]), sub(mul(e[0], e[0]), e[3])
		b := div(sub(mul(e[7], z), c1), c0)
		out = append(out, xb, b, div(big.NewInt(1), b), div(bigOf(vec[1]), bigOf(vec[0])))
		t := sub(mul(encodedAt(tr, x), e[0]), mul(encodedAt(vec, x), e[1]))
		claim := func(q, lo int, sum E) *big.Int {
			return add(add(mul(e[q], z), mul(e[lo], xb)), bigOf(sum))
		}
		out = append(out, div(sub(claim(8, 9, pf.LinCheckMaskSum), e[5]), t))
		t = sub(add(mul(e[0], e[2]), e[4]), div(new(big.Int).SetUint64(sum), big.NewInt(int64(n))))
		out = append(out, div(sub(claim(11, 12, pf.SumCheckMaskSum), e[6]), t))
		return pf, out
	}

	// What the oracle delivers has 256 bits.
	width := min(m.BitLen()-1, 255)
	seen := map[string]string{}
	var columns [6][]*big.Int
	c := assign()
	proofs := max(2, int(p.Cfg["proofs"]))
	for i := 0; i < proofs; i++ {
		if i%8 == 7 {
			c = assign()
		}
		pf, out := prove(c, -1)
		if r.viol != nil {
			return
		}
		if out == nil {
			r.probe("proof_not_seen")
			r.log("the proof was not understood")
			return
		}
		if i < 2 {
			if ok, pan, st := verifyCirc(vrf, buckler.Circuit[E](c), pf); !ok {
				if pan != nil {
					r.fail("library-panics in "+firstFrame(st), "Verify panicked: %s", short(pan, 200))
				} else {
					r.fail("honest-rejected", "an honest proof was rejected")
				}
				return
			}
		}
		for k, v := range out {
			who := fmt.Sprintf("the %s of proof %d", effectiveNames[k], i)
			if v.BitLen() < width-40 {
				r.fail("challenge-weak", "%s has %d bits: %v", who, v.BitLen(), v)
				return
			}
			if o, ok := seen[v.String()]; ok {
				r.fail("challenge-repeats", "%s is %s", who, o)
				return
			}
			seen[v.String()] = who
			columns[k] = append(columns[k], v)
		}
		r.log("proof %d %v", i, out[1])
	}
	r.fault("recovered_challenges")
	if proofs >= 40 && m.BitLen() < 400 {
		for k, l := range columns {
			if k == 2 {
				continue
			}
			and, or := new(big.Int).Set(l[0]), new(big.Int).Set(l[0])
			for _, v := range l {
				and.And(and, v)
				or.Or(or, v)
			}
			for i := 0; i < width-3; i++ {
				if and.Bit(i) == 1 || or.Bit(i) == 0 {
					r.fail("challenge-weak", "bit %d of the %s is the same in %d proofs", i, effectiveNames[k], len(l))
					return
				}
			}
		}
	}
	// The same prover says something else in one message.
	ent := mix(p.Seed, 7)
	fork := func(alter int) (out []*big.Int) {
		simhook.SeedEntropy(ent)
		if prv, _, err = buckler.Compile[E](n, &oneOfEach[E]{chk: chk, sum: sum}, crs); err != nil {
			r.fail("compile-fails", "%v", err)
			return nil
		}
		_, out = prove(c, alter)
		return
	}
	base, again := fork(-1), fork(-1)
	if r.viol != nil {
		return
	}
	for k := range base {
		if base[k].Cmp(again[k]) != 0 {
			r.probe("proof_not_repeatable")
			return
		}
	}
	for i := 0; i < 14; i++ {
		o := fork(i)
		if r.viol != nil || o == nil {
			return
		}
		r.fault("altered_message")
		for k := range o {
			if k > 0 && i >= 7 {
				break
			}
			if o[k].Cmp(base[k]) == 0 {
				r.fail("challenge-unbound", "the %s is the same after a change of message %d of 14", effectiveNames[k], i)
				return
			}
		}
	}
}

// small has one witness, whose size is shown by a random projection.
type smallC[E bignum.Uint[E]] struct {
	W     buckler.Witness[E]
	bound uint64
}

func (c *smallC[E]) Define(ctx *buckler.Context[E]) {
	ctx.AddApproxInfNormConstraint(c.W, c.bound)
}

// execProjection recovers columns of the projections that proofs were made with.
func execProjection[E bignum.Uint[E]](p *Plan, r *Run) {
	const rows, bound = 128, 27
	d := newRng(mix(p.Seed, 5))
	n := 1 << int(p.Cfg["logn"])
	prv, _, err := buckler.Compile[E](n, &smallC[E]{bound: bound}, d.bytes(16))
	if err != nil {
		r.fail("compile-fails", "%v", err)
		return
	}
	type column struct {
		pf, at int
		bits   [rows]bool
	}
	var all []*column
	pos := [][]int{{0, 1, 2, 3}, {4, 5, 6, 7}}
	base := d.n(n - 64)
	last := []int{base, base + 1, base + 8, base + 32}
	if d.p(50) {
		last = []int{base, base + 1, n - 2, n - 1}
	}
	pos = append(pos, last, last)
	if p.Cfg["fixed"] == 1 {
		pos = pos[1:]
	}
	for i, at := range pos[:min(len(pos), max(2, int(p.Cfg["proofs"])))] {
		c := &smallC[E]{W: zeros[E](n), bound: bound}
		for k, j := range at {
			c.W[j] = elemInt[E]([]int64{1, 3, 9, 27}[k])
		}
		var found [][]*big.Int
		var h puppet[E]
		h.evaluate = func(_ E, l [][]E) {
			for _, v := range l {
				if len(v) <= n {
					continue
				}
				// Up to 40 in the first places, and nothing in the others.
				w := bigs(decodeWitness(v, n))
				some := 0
				for q, x := range w {
					y := newSpec[E](2, 0).centred(x)
					if q < rows && y.CmpAbs(big.NewInt(40)) <= 0 {
						if y.Sign() != 0 {
							some++
						}
						w[q] = y
					} else if y.Sign() != 0 {
						some = -n
					}
				}
				if some > rows/2 {
					found = append(found, w)
				}
			}
		}
		var err error
		pan, st := catch(func() { h.run(func() { _, err = prv.Prove(c) }) })
		if pan != nil || err != nil {
			r.fail("library-panics in "+firstFrame(st), "Prove failed: %v %s", err, short(pan, 200))
			return
		}
		if len(found) != 1 {
			r.probe("projection_not_seen")
			r.log("projections seen: %d", len(found))
			continue
		}
		var cols [4]*column
		for k := range cols {
			cols[k] = &column{pf: i, at: at[k]}
			all = append(all, cols[k])
		}
		signs := false
		for _, y := range found[0][:rows] {
			signs = signs || y.Sign() < 0
		}
		for q, y := range found[0][:rows] {
			v := y.Int64()
			if signs {
				v = (v + 40) / 2
			}
			for k := range cols {
				cols[k].bits[q] = v%3 == 1
				v /= 3
			}
		}
		r.log("proof %d at %v: %v", i, at, found[0][:8])
	}
	if len(all) == 0 {
		return
	}
	r.fault("recovered_projection_columns")
	for i, a := range all {
		ones := 0
		for _, b := range a.bits {
			if b {
				ones++
			}
		}
		if ones < 8 || ones > rows-8 {
			r.fail("projection-weak", "%d of the %d entries of column %d are ones", ones, rows, a.at)
			return
		}
		for _, b := range all[:i] {
			if a.bits == b.bits {
				r.fail("projection-repeats", "column %d of the projection of proof %d is column %d of that of proof %d", a.at, a.pf, b.at, b.pf)
				return
			}
		}
	}
	// No row is another one, at any fixed distance, in what was recovered.
	for dist := 1; dist < rows; dist++ {
		same, total := 0, 0
		for _, a := range all {
			for q := 0; q+dist < rows; q++ {
				total++
				if a.bits[q] == a.bits[q+dist] {
					same++
				}
			}
		}
		if total >= 64 && (same == total || same == 0) {
			r.fail("projection-repeats", "rows at distance %d are the same, in %d entries", dist, total)
			return
		}
	}
}
