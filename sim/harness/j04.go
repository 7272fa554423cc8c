package main

import (
	"math"
	"math/big"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/simhook"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// J04: Byzantine committers with long openings.

func dispatchJ04(p *Plan, r *Run) {
	switch p.Cfg["field"] % numFields {
	case 0:
		execJ04[f0](p, r)
	case 1:
		execJ04[f1](p, r)
	case 2:
		execJ04[f2](p, r)
	case 3:
		execJ04[f3](p, r)
	case 4:
		execJ04[f4](p, r)
	}
}

// refBounds derives the norm bounds from the shape, independently of the library.
func (k *kit[E]) refBounds() (res, in float64) {
	const eta, tail = 6.0, 5.0
	p := k.params
	t, b, e := float64(p.Batch()), float64(p.Base()), float64(p.Exp())
	d := float64(k.q.N())
	n, m := float64(p.Cols()), float64(p.Rows()-1)
	nu, mu := 8192/d, float64(p.InMSISRank())
	xOne := math.Sqrt(e) * b
	cOne := math.Sqrt(e) * math.Min(b, math.Exp2(120/e)) / 2
	w := 2 / (b - 1) * (b + 1) * eta
	f := tail * (b + 1) * w
	f0 := f * math.Sqrt(m+1) * xOne
	fm := f * math.Sqrt(n+1) * cOne
	fm0 := f * math.Sqrt((m+1)*n+1) * cOne * xOne
	bt := 1.0
	if t > 1 {
		bt = math.Sqrt(t) * cOne
	}
	ri := (math.Sqrt(n)*cOne*f + fm) * bt
	r0 := (math.Sqrt(n)*cOne*f0 + fm0) * bt
	mw := 2 * math.Sqrt2 * eta * tail
	rm := (math.Sqrt(n)*cOne*mw + mw*cOne*math.Sqrt(n+1)) * bt
	res = math.Sqrt(d*(m*ri*ri+r0*r0) + d*(mu+nu)*rm*rm)
	res *= 2
	// The modulus is at least as large as the outer commitment was told it would be.
	qf, _ := new(big.Float).SetInt(k.q.Modulus()).Float64()
	cut := res / 2 / ((1 + math.Sqrt(n)*cOne) * math.Sqrt(mu*d)) / bt
	in = 2 * math.Sqrt((n+1)*mu*d) * qf / cut * bt
	return res, in
}

// norms returns the Euclidean norms that a verifier has to bound.
func (k *kit[E]) norms(ck *jindo.CommitKey, com []*jindo.Commitment, pf *jindo.Proof, tr *transcript) (res, in float64) {
	p := k.params
	toF := func(s *big.Int) float64 {
		f, _ := new(big.Float).Sqrt(new(big.Float).SetInt(s)).Float64()
		return f
	}
	// Inner.
	s := normSq(k.q, pf.Encode...)
	s.Add(s, normSq(k.q, pf.MLWE...))
	ch := make([]ring.Poly, p.Cols())
	for j := range ch {
		ch[j] = fromCoeffs(k.q, k.challenge(tr.cols[j]))
	}
	cut := new(big.Int).Lsh(big.NewInt(1), uint(p.LogInCutOff()))
	for i := 0; i < p.InMSISRank(); i++ {
		acc := k.q.NewPoly()
		for j := 0; j <= p.Cols(); j++ {
			c := coeffs(k.qq, pf.InCommit[j*p.InMSISRank()+i])
			for l := range c {
				c[l].Mul(c[l], cut)
			}
			pc := fromCoeffs(k.q, c)
			if j < p.Cols() {
				pc = mulPoly(k.q, pc, ch[j])
			}
			addPoly(k.q, acc, pc)
		}
		for j := range pf.Encode {
			subPoly(k.q, acc, mulPoly(k.q, ck.In[i][j], pf.Encode[j]))
		}
		for j := 0; j < p.MLWERank(); j++ {
			subPoly(k.q, acc, mulPoly(k.q, ck.MLWE[i][j], pf.MLWE[j]))
		}
		subPoly(k.q, acc, pf.MLWE[p.MLWERank()+i])
		s.Add(s, normSq(k.q, acc))
	}
	res = toF(s)
	// Outer.
	s = normSq(k.qq, pf.InCommit...)
	cutO := new(big.Int).Lsh(big.NewInt(1), uint(p.OutCutOff()))
	for i := 0; i < p.OutMSISRank(); i++ {
		acc := k.qq.NewPoly()
		for m := range com {
			pc := com[m].Value[i]
			if len(com) > 1 {
				pc = mulPoly(k.qq, pc, fromCoeffs(k.qq, k.challenge(tr.batch[m])))
			}
			addPoly(k.qq, acc, pc)
		}
		c := coeffs(k.qq, acc)
		for l := range c {
			c[l].Mul(c[l], cutO)
		}
		acc = fromCoeffs(k.qq, c)
		for j := range pf.InCommit {
			subPoly(k.qq, acc, mulPoly(k.qq, ck.Out[i][j], pf.InCommit[j]))
		}
		s.Add(s, normSq(k.qq, acc))
	}
	in = toF(s)
	return res, in
}

// long draws a polynomial of about the given Euclidean norm.
func long(rng *Rng, q *ring.Ring, norm float64, how int64) []*big.Int {
	c := make([]*big.Int, q.N())
	for i := range c {
		c[i] = new(big.Int)
	}
	set := func(i int, f float64) {
		if rng.p(50) {
			f = -f
		}
		new(big.Float).SetFloat64(f).Int(c[i])
	}
	switch how % 5 {
	case 0:
		for i := range c {
			set(i, norm/math.Sqrt(float64(len(c))))
		}
	case 1:
		set(0, norm)
	case 2:
		set(len(c)-1, norm)
	case 3:
		set(rng.n(len(c)), norm)
	case 4:
		for i := 0; i < 4; i++ {
			set(i*len(c)/4+rng.n(len(c)/4), norm/2)
		}
	}
	return c
}

var j04Parts = []string{"encode", "mlwe", "tail", "inner-error", "outer-error", "in-commit", "scaled"}

var j04Ratios = []float64{0.5, 1.02, 1.2, 1.6, 2.5, 5, 40, 1 << 10, 1 << 20, 1.05, 1.002, 3}

func execJ04[E bignum.Uint[E]](p *Plan, r *Run) {
	data := newRng(mix(p.Seed, 5))
	k := newKit[E](max(int(p.Cfg["n"]), 1), max(int(p.Cfg["batch"]), 1), data.bytes(16))
	pr, vf := k.prover(), k.verifier()
	ck := jindo.NewCommitKey(k.params, k.crs)
	n := k.params.Batch()
	var vs [][]E
	for i := 0; i < n; i++ {
		vs = append(vs, randVec[E](data, k.polyLen(data, 0), data.n(numPats)))
	}
	s := k.commit(pr, vs...)
	bRes, bIn := k.params.ResTwoNm(), k.params.InComDcmpTwoNm()
	refRes, refIn := k.refBounds()
	r.log("bounds %.6g %.6g reference %.6g %.6g", bRes, bIn, refRes, refIn)
	lim := func(pub, ref float64) float64 { return math.Min(pub*(1+1e-6), ref*1.05) }
	limRes, limIn := lim(bRes, refRes), lim(bIn, refIn)
	mlwe, inr, cols := k.params.MLWERank(), k.params.InMSISRank(), k.params.Cols()

	for _, op := range p.Ops {
		rng := newRng(op.Seed)
		x := evalPoint[E](rng, op.n(4))
		open, com := copyOpens(s.open), copyComs(s.com)
		ratio := j04Ratios[int(op.n(1))%len(j04Ratios)]
		m := int(op.n(3)) % n
		// Byzantine committer: some parts of the mask are long.
		inflate := func(part string, ratio float64, idx int) {
			o := open[m]
			// A batch challenge multiplies what a member adds.
			gain := 1.0
			if n > 1 {
				gain = math.Sqrt(float64(k.params.Exp())) * float64(k.params.ChallengeBound()) / math.Sqrt(12)
			}
			switch part {
			case "encode":
				addPoly(k.q, o.Encode[cols][idx%k.params.Rows()], fromCoeffs(k.q, long(rng, k.q, ratio*limRes/gain, op.n(5))))
				com[m] = k.combine(ck, o, true)
			case "mlwe":
				addPoly(k.q, o.MLWE[cols][idx%mlwe], fromCoeffs(k.q, long(rng, k.q, ratio*limRes/gain, op.n(5))))
				com[m] = k.combine(ck, o, true)
			case "tail":
				addPoly(k.q, o.MLWE[cols][mlwe+idx%inr], fromCoeffs(k.q, long(rng, k.q, ratio*limRes/gain, op.n(5))))
				com[m] = k.combine(ck, o, true)
			case "inner-error":
				c := long(rng, k.qq, ratio*limRes/gain/math.Exp2(float64(k.params.LogInCutOff())), op.n(5))
				addPoly(k.qq, o.InCommit[cols*inr+idx%inr], fromCoeffs(k.qq, c))
				com[m] = k.combine(ck, o, false)
			case "outer-error":
				c := long(rng, k.qq, ratio*limIn/gain/math.Exp2(float64(k.params.OutCutOff())), op.n(5))
				e := fromCoeffs(k.qq, c)
				v := com[m].Value[idx%k.params.OutMSISRank()]
				for l := range e.Coeffs {
					k.qq.SubRings[l].Add(v.Coeffs[l], e.Coeffs[l], v.Coeffs[l])
				}
			case "in-commit":
				// Adding multiples of what the cut maps to almost nothing.
				cut := new(big.Int).Lsh(big.NewInt(1), uint(k.params.LogInCutOff()))
				q := k.q.Modulus()
				step, _ := new(big.Float).SetInt(new(big.Int).Div(q, cut)).Float64()
				c := long(rng, k.qq, ratio*limIn/gain/step, op.n(5))
				for i := range c {
					c[i].Mul(c[i], q)
					h := new(big.Int).Rsh(cut, 1)
					c[i].Add(c[i], h)
					c[i].Div(c[i], cut)
				}
				addPoly(k.qq, o.InCommit[idx%len(o.InCommit)], fromCoeffs(k.qq, c))
				com[m] = k.combine(ck, o, false)
			case "scaled":
				f := uint64(ratio * 1.5)
				if f < 2 {
					f = 2
				}
				for i := range o.InCommit {
					k.qq.MulScalar(o.InCommit[i], f, o.InCommit[i])
				}
				for i := range o.Encode {
					for j := range o.Encode[i] {
						k.q.MulScalar(o.Encode[i][j], f, o.Encode[i][j])
					}
					for j := range o.MLWE[i] {
						k.q.MulScalar(o.MLWE[i][j], f, o.MLWE[i][j])
					}
				}
				for i := range com[m].Value {
					for l := range k.qq.SubRings {
						k.qq.SubRings[l].MulScalarMontgomery(com[m].Value[i].Coeffs[l], ring.MForm(f, k.qq.SubRings[l].Modulus, k.qq.SubRings[l].BRedConstant), com[m].Value[i].Coeffs[l])
					}
				}
			}
		}
		part := j04Parts[int(op.n(0))%len(j04Parts)]
		if op.n(6) > 0 {
			// Two parts that are each short enough, but not together.
			part2 := j04Parts[int(op.n(6))%6]
			inflate(part, ratio*0.8, int(op.n(2)))
			inflate(part2, ratio*0.8, int(op.n(7)))
			part += "+" + part2
		} else {
			inflate(part, ratio, int(op.n(2)))
		}
		b := &byz[E]{k: k, p: pr, ck: ck, s: s, r: r}
		y, pf := pr.Evaluate(x, b.impliedOf(x, open), com, open)
		simhook.Recording, simhook.Records = true, nil
		ok, _ := verify(vf, x, com, y, pf)
		recs := simhook.Records
		simhook.Recording, simhook.Records = false, nil
		tr := k.transcriptOf(recs)
		if tr == nil {
			r.probe("transcript_not_understood")
			continue
		}
		res, in := k.norms(ck, com, pf, tr)
		r.log("%s ratio %.4g part %d member %d: norms %.4g %.4g of the limits: accepted %v", part, ratio, op.n(2), m, res/limRes, in/limIn, ok)
		if res <= limRes && in <= limIn {
			if ok {
				r.probe("within_bounds_accepted:" + part)
			} else {
				r.probe("within_bounds_rejected:" + part)
			}
			continue
		}
		r.fault("long:" + part)
		if ok {
			r.fail("long-opening-accepted", "an opening with response norm %.6g (bound %.6g) and inner commitment norm %.6g (bound %.6g) was accepted: long %s, index %d (field %s, %d columns, %d rows, batch %d)",
				res, limRes, in, limIn, part, op.n(2), fieldNames[p.Cfg["field"]%numFields], cols, k.params.Rows(), n)
			return
		}
	}
}

func genJ04(r *Rng, tier string) *Plan {
	p := &Plan{Kind: "long", Cfg: map[string]int64{
		"field": int64(r.n(numFields)), "n": pick(r, []int64{1, 9, 64, 257, 300}), "batch": int64(pick(r, []int{1, 1, 1, 2, 3})),
	}}
	for i := 0; i < 16; i++ {
		o := Op{K: "long", N: []int64{int64(r.n(len(j04Parts))), int64(r.n(len(j04Ratios))), int64(r.n(64)), int64(r.n(3)), int64(r.n(8)), int64(r.n(5)), 0, int64(r.n(64))}}
		if r.p(25) {
			o.N[6] = int64(r.n(6))
			o.N[1] = int64(pick(r, []int{1, 2, 3, 9, 10}))
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

func scriptJ04(i int, tier string) *Plan {
	shapes := [][3]int64{{0, 64, 1}, {3, 257, 1}, {1, 300, 2}, {4, 64, 1}, {2, 9, 2}}
	if i >= 2*len(shapes) {
		return nil
	}
	s := shapes[i%len(shapes)]
	p := &Plan{Kind: "every-part", Cfg: map[string]int64{"field": s[0], "n": s[1], "batch": s[2]}}
	if i < len(shapes) {
		for part := int64(0); part < int64(len(j04Parts)); part++ {
			for _, ratio := range []int64{0, 1, 3, 7} {
				p.Ops = append(p.Ops, Op{K: "long", N: []int64{part, ratio, part * 3, 0, part % 8, ratio % 5}})
			}
		}
		return p
	}
	p.Kind = "every-index"
	for idx := int64(0); idx < 32; idx++ {
		p.Ops = append(p.Ops, Op{K: "long", N: []int64{idx % 2, 1, idx, 0, 0, idx % 5}})
		if idx < 20 {
			p.Ops = append(p.Ops, Op{K: "long", N: []int64{2 + idx%4, 2, idx, 0, 0, idx % 5}})
		}
	}
	return p
}

func init() {
	register(&Prop{
		ID: "J04", Script: scriptJ04, Gen: genJ04, Exec: dispatchJ04,
		Rule: "a Byzantine committer makes one part (a row encoding, a hiding term, the inner or outer error, an inner commitment) or all parts " +
			"longer, to between 1.002 and 2^20 times the bound, spread over all coefficients or in one; counted only when the norms, " +
			"recomputed in math/big, exceed a bound",
		Real:       []string{"jindo prover, verifier, encoder, commitment key, parameters", "csprng samplers", "field arithmetic", "lattigo rings (dependency)"},
		Stub:       []string{"Byzantine committer", "entropy source"},
		Nontrivial: func(res *Result) bool { return len(res.Faults) > 0 },
	})
}
