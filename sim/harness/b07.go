package main

import (
	"fmt"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// B07: proofs of the wrong shape arrive from the network, and assignments that do not fit
// the circuit from the application.

func dispatchB07(p *Plan, r *Run) {
	switch p.Cfg["field"] % numFields {
	case 0:
		execB07[f0](p, r)
	case 1:
		execB07[f1](p, r)
	case 2:
		execB07[f2](p, r)
	case 3:
		execB07[f3](p, r)
	case 4:
		execB07[f4](p, r)
	}
}

const numListShapes = 8

// misshapeList returns a list of another length, or with a hole.
func misshapeList[T any](d *Rng, l []T, how int64, blank T) ([]T, string) {
	n := len(l)
	cp := append([]T(nil), l...)
	at := pick(d, []int{0, max(n-1, 0), d.n(max(n, 1))})
	switch how % numListShapes {
	case 0:
		return nil, "nil"
	case 1:
		return cp[:max(n-1, 0)], "without its last element"
	case 2:
		if n > 0 {
			return append(cp[:at], cp[at+1:]...), fmt.Sprintf("without element %d", at)
		}
	case 3:
		return append(cp, blank), "with a blank element more"
	case 4:
		if n > 0 {
			return append(cp, cp[at]), "with an element twice"
		}
	case 5:
		return append(cp, l...), "doubled"
	case 6:
		if n > 0 {
			cp[at] = blank
			return cp, fmt.Sprintf("with element %d blank", at)
		}
	case 7:
		return []T{}, "empty"
	}
	return cp[:n/2], "halved"
}

const numPolyShapes = 11

// misshapePoly returns a polynomial with other limbs or another degree.
func misshapePoly(d *Rng, p ring.Poly, how int64) (ring.Poly, string) {
	q := *p.CopyNew()
	n := len(q.Coeffs)
	if n == 0 {
		return ring.Poly{}, "empty"
	}
	at := pick(d, []int{0, n - 1})
	row := q.Coeffs[at]
	switch how % numPolyShapes {
	case 0:
		return ring.Poly{}, "empty"
	case 1:
		q.Coeffs = q.Coeffs[:n-1]
		return q, "without its last limb"
	case 2:
		q.Coeffs = q.Coeffs[:0]
		return q, "without limbs"
	case 3:
		q.Coeffs = append(q.Coeffs, make([]uint64, len(row)))
		return q, "with a limb more"
	case 4:
		q.Coeffs[at] = nil
	case 5:
		q.Coeffs[at] = row[:len(row)-1]
	case 6:
		q.Coeffs[at] = row[:0]
	case 7:
		q.Coeffs[at] = append(append([]uint64(nil), row...), 0)
	case 8:
		for i := range q.Coeffs {
			q.Coeffs[i] = q.Coeffs[i][:len(row)/2]
		}
	case 9:
		for i := range q.Coeffs {
			q.Coeffs[i] = append(append([]uint64(nil), q.Coeffs[i]...), make([]uint64, len(row))...)
		}
	case 10:
		for i := range q.Coeffs {
			q.Coeffs[i] = q.Coeffs[i][:1]
		}
	}
	return q, fmt.Sprintf("with limb %d (or all) of length %d", at, len(q.Coeffs[at]))
}

// misshapeIn misshapes one polynomial of a list.
func misshapeIn(d *Rng, l []ring.Poly, how int64) ([]ring.Poly, string) {
	if len(l) == 0 {
		return l, ""
	}
	i := pick(d, []int{0, len(l) - 1, d.n(len(l))})
	p, s := misshapePoly(d, l[i], how)
	cp := append([]ring.Poly(nil), l...)
	cp[i] = p
	return cp, fmt.Sprintf("polynomial %d %s", i, s)
}

var b07Parts = []string{"proof", "witness", "witness-value", "witness-poly", "evals", "lin-mask", "sum-mask", "eval-proof",
	"incommit", "incommit-poly", "partial", "partial-poly", "mask", "encode", "encode-poly", "mlwe", "mlwe-poly"}

// misshape changes the shape of a part of a proof. It returns "" if there is nothing to change.
func misshape[E bignum.Uint[E]](s *spec[E], d *Rng, part string, how int64, pf *buckler.Proof[E]) (out *buckler.Proof[E], detail string) {
	var blank E
	has := func(kind string) bool {
		for _, c := range s.cons {
			if c.kind == kind {
				return true
			}
		}
		return false
	}
	switch part {
	case "proof":
		if how%2 == 0 {
			return nil, "nil"
		}
		return &buckler.Proof[E]{}, "blank"
	case "witness":
		b := (*jindo.Commitment)(nil)
		if d.p(40) {
			b = &jindo.Commitment{}
		}
		pf.Witness, detail = misshapeList(d, pf.Witness, how, b)
	case "witness-value", "witness-poly":
		i := pick(d, []int{0, len(pf.Witness) - 1, d.n(len(pf.Witness))})
		c := &jindo.Commitment{}
		if part == "witness-value" {
			c.Value, detail = misshapeList(d, pf.Witness[i].Value, how, ring.Poly{})
		} else {
			c.Value, detail = misshapeIn(d, pf.Witness[i].Value, how)
		}
		pf.Witness[i] = c
		detail = fmt.Sprintf("%d %s", i, detail)
	case "evals":
		pf.Evals, detail = misshapeList(d, pf.Evals, how, blank)
	case "lin-mask":
		if isNil(pf.LinCheckMaskSum) || !has("lin") {
			return pf, ""
		}
		pf.LinCheckMaskSum, detail = blank, "nil"
	case "sum-mask":
		if isNil(pf.SumCheckMaskSum) || !has("sum") {
			return pf, ""
		}
		pf.SumCheckMaskSum, detail = blank, "nil"
	case "eval-proof":
		if how%2 == 0 {
			pf.EvalProof = nil
			return pf, "nil"
		}
		pf.EvalProof = &jindo.Proof{}
		return pf, "blank"
	case "incommit":
		pf.EvalProof.InCommit, detail = misshapeList(d, pf.EvalProof.InCommit, how, ring.Poly{})
	case "incommit-poly":
		pf.EvalProof.InCommit, detail = misshapeIn(d, pf.EvalProof.InCommit, how)
	case "partial":
		pf.EvalProof.Partial, detail = misshapeList(d, pf.EvalProof.Partial, how, ring.Poly{})
	case "partial-poly":
		pf.EvalProof.Partial, detail = misshapeIn(d, pf.EvalProof.Partial, how)
	case "mask":
		pf.EvalProof.PartialMask, detail = misshapePoly(d, pf.EvalProof.PartialMask, how)
	case "encode":
		pf.EvalProof.Encode, detail = misshapeList(d, pf.EvalProof.Encode, how, ring.Poly{})
	case "encode-poly":
		pf.EvalProof.Encode, detail = misshapeIn(d, pf.EvalProof.Encode, how)
	case "mlwe":
		pf.EvalProof.MLWE, detail = misshapeList(d, pf.EvalProof.MLWE, how, ring.Poly{})
	case "mlwe-poly":
		pf.EvalProof.MLWE, detail = misshapeIn(d, pf.EvalProof.MLWE, how)
	}
	return pf, detail
}

// Circuits of other types.
type valueC[E bignum.Uint[E]] struct{ P, W []buckler.Witness[E] }

func (c valueC[E]) Define(ctx *buckler.Context[E]) {}

type plainC[E bignum.Uint[E]] struct {
	P []buckler.PublicWitness[E]
	W []buckler.Witness[E]
}

func (c *plainC[E]) Define(ctx *buckler.Context[E]) {}

// hidden has values that reflection may look at but not take.
type hidden[E bignum.Uint[E]] struct {
	w buckler.Witness[E]
	p []buckler.PublicWitness[E]
}

// decoy is an interface value that is not what the circuit had when it was compiled.
type decoy[E bignum.Uint[E]] struct {
	W1, W2 buckler.Witness[E]
	P1     buckler.PublicWitness[E]
}

const numAsgShapes = 16

// misfit returns an assignment that does not fit the circuit, public says that its public values do not.
func misfit[E bignum.Uint[E]](s *spec[E], d *Rng, a *asg, how int64, secrets bool) (c buckler.Circuit[E], detail string, public bool) {
	g := s.assign(a, secrets)
	vec := func(v []E, kind int64) []E {
		switch kind % 5 {
		case 0:
			return nil
		case 1:
			return []E{}
		case 2:
			return v[:len(v)-1]
		case 3:
			return append(append([]E(nil), v...), elemInt[E](int64(d.n(2))))
		}
		return append(append([]E(nil), v...), v...)
	}
	names := []string{"nil", "empty", "one too short", "one too long", "doubled"}
	ps, ws := g.refs()
	flat, isFlat := g.(*flatC[E])
	nest, _ := g.(*nestC[E])
	if isFlat && s.nP+s.nW == 0 && (how%numAsgShapes == 1 || how%numAsgShapes == 13) {
		return nil, "", false
	}
	one := func() []E { return s.elems(s.pattern(newRng(1), patRandom)) }
	switch how % numAsgShapes {
	case 0:
		return nil, "nil", true
	case 1:
		if isFlat {
			return (*flatC[E])(nil), "a nil pointer", s.nP > 0
		}
		return (*nestC[E])(nil), "a nil pointer", true
	case 2:
		return valueC[E]{}, "not a pointer", true
	case 3:
		return &valueC[E]{}, "a pointer to another type", true
	case 4:
		// The right values in another type.
		c := &plainC[E]{}
		for _, p := range ps {
			c.P = append(c.P, *p)
		}
		for _, w := range ws {
			c.W = append(c.W, *w)
		}
		return c, "another type with the same values", true
	case 5, 6:
		if len(ps) == 0 {
			return nil, "", false
		}
		i := pick(d, []int{0, len(ps) - 1, d.n(len(ps))})
		k := int64(d.n(5))
		*ps[i] = vec(*ps[i], k)
		return g, fmt.Sprintf("public value %d is %s", i, names[k]), true
	case 7, 8:
		if !secrets || len(ws) == 0 {
			return nil, "", false
		}
		i := pick(d, []int{0, len(ws) - 1, d.n(len(ws))})
		k := int64(d.n(5))
		*ws[i] = vec(*ws[i], k)
		return g, fmt.Sprintf("witness %d is %s", i, names[k]), false
	case 9:
		// More public values.
		if isFlat {
			flat.P = append(flat.P, one())
		} else {
			nest.Ptr.P = append(nest.Ptr.P, one())
		}
		return g, "one public value more", true
	case 10:
		if isFlat {
			flat.W = append(flat.W, one())
		} else {
			nest.Rest[0] = append(nest.Rest[0], one())
		}
		return g, "one witness more", false
	case 11:
		if isFlat {
			if len(flat.P) == 0 {
				return nil, "", false
			}
			flat.P = flat.P[:len(flat.P)-1]
		} else {
			if len(nest.Ptr.P) == 0 {
				return nil, "", false
			}
			nest.Ptr.P = nest.Ptr.P[:len(nest.Ptr.P)-1]
		}
		return g, "one public value fewer", true
	case 12:
		if isFlat {
			if len(flat.W) == 0 {
				return nil, "", false
			}
			flat.W = flat.W[:len(flat.W)-1]
		} else {
			public = len(nest.Ptr.P) > 0
			nest.Ptr = nil
		}
		return g, "one witness fewer", public
	case 13:
		if isFlat {
			flat.P, flat.W = nil, nil
			return g, "no values", s.nP > 0
		}
		nest.Any = pick(d, []any{nil, "text", 5, []byte{1}, map[string]int{"a": 1}, func() {}, (*nestPart[E])(nil), nestPart[E]{}, &decoy[E]{}})
		public = false
		if _, ok := nest.Any.(*decoy[E]); ok {
			public = true
		}
		if !secrets && !public {
			return nil, "", false
		}
		return g, fmt.Sprintf("another interface value %T", nest.Any), public
	case 14:
		if isFlat {
			return nil, "", false
		}
		h := &hidden[E]{}
		if d.p(60) {
			h.w = nest.Any.(*nestPart[E]).W
		}
		if d.p(40) {
			h.p = append(h.p, one())
			public = true
		}
		nest.Any = h
		return g, "values in fields that are not exported", public
	case 15:
		if isFlat {
			return nil, "", false
		}
		nest.Nil = &decoy[E]{W1: one(), W2: one(), P1: one()}
		return g, "values where there were none", true
	}
	return nil, "", false
}

func execB07[E bignum.Uint[E]](p *Plan, r *Run) {
	s := specOf[E](p, p.Ops)
	crs := newRng(mix(p.Seed, 5)).bytes(int(p.Cfg["crs"]))
	node, other := &snarkNode[E]{name: "P"}, &snarkNode[E]{name: "V"}
	if !node.boot(r, s, crs) {
		return
	}
	if p.Cfg["pair"] == 1 {
		other = node
	} else if !other.boot(r, s, crs) {
		return
	}
	a := s.fill(p.Seed)
	honest := func(when string) *buckler.Proof[E] {
		pf, err, pan, st := proveCirc(node.prv, buckler.Circuit[E](s.assign(a, true)))
		if pan != nil || err != nil {
			r.fail("unusable-prover", "Prove of an honest assignment %s: error %v, panic %s in %s", when, err, short(pan, 200), firstFrame(st))
			return nil
		}
		ok, pan, st := verifyCirc(other.vrf, buckler.Circuit[E](s.assign(a, false)), pf)
		if pan != nil || !ok {
			r.fail("unusable-verifier", "Verify of an honest proof %s: %v, panic %s in %s", when, ok, short(pan, 200), firstFrame(st))
			return nil
		}
		return pf
	}
	base := honest("at the start")
	if r.viol != nil {
		return
	}
	r.log("rank %d %s", s.rank, s.kinds())
	for oi, o := range p.Ops {
		d := newRng(o.Seed)
		switch o.K {
		case "pf":
			pf, what := copySnark(base), ""
			for i := 0; i < max(1, int(o.n(2))) && pf != nil; i++ {
				part := b07Parts[(int(o.n(0))+i*d.n(len(b07Parts)))%len(b07Parts)]
				if pf.EvalProof == nil || len(pf.Witness) != len(base.Witness) {
					break
				}
				ok := true
				for _, c := range pf.Witness {
					ok = ok && c != nil
				}
				if !ok {
					break
				}
				q, detail := misshape(s, d, part, o.n(1), pf)
				if detail != "" {
					what += part + " " + detail + " "
					r.fault("misshapen_" + part)
				}
				pf = q
			}
			if what == "" {
				r.probe("nothing_to_change")
				continue
			}
			ok, pan, st := verifyCirc(other.vrf, buckler.Circuit[E](s.assign(a, p.Cfg["full"] == 1)), pf)
			r.log("op %d %s: %v", oi, what, ok)
			if pan != nil {
				r.fail("verify-panics in "+firstFrame(st), "Verify panicked on a proof with %s: %s", what, short(pan, 200))
				return
			}
			if ok {
				r.fail("misshapen-accepted", "Verify accepted a proof with %s(%s)", what, s.kinds())
				return
			}
		case "vasg":
			c, detail, public := misfit(s, d, a, o.n(0), p.Cfg["full"] == 1)
			if detail == "" {
				continue
			}
			r.fault("misfit_verify")
			ok, pan, st := verifyCirc(other.vrf, c, copySnark(base))
			r.log("op %d verify with %s: %v", oi, detail, ok)
			if pan != nil {
				r.fail("verify-panics in "+firstFrame(st), "Verify panicked on an assignment which is or has %s: %s", detail, short(pan, 200))
				return
			}
			if ok && public {
				r.fail("misfit-accepted", "Verify accepted an assignment which is or has %s", detail)
				return
			}
		case "pasg":
			c, detail, _ := misfit(s, d, a, o.n(0), true)
			if detail == "" {
				continue
			}
			r.fault("misfit_prove")
			pf, err, pan, st := proveCirc(node.prv, c)
			r.log("op %d prove with %s: %v", oi, detail, err)
			if pan != nil {
				r.fail("prove-panics in "+firstFrame(st), "Prove panicked on an assignment which is or has %s: %s", detail, short(pan, 200))
				return
			}
			if err == nil {
				ok, pan, st := verifyCirc(other.vrf, buckler.Circuit[E](s.assign(a, false)), pf)
				if pan != nil {
					r.fail("verify-panics in "+firstFrame(st), "Verify panicked on what Prove made of %s: %s", detail, short(pan, 200))
					return
				}
				if ok {
					r.fail("misfit-proved", "Prove made an accepted proof of an assignment which is or has %s", detail)
					return
				}
			}
		case "use":
			honest(fmt.Sprintf("after %d operations", oi))
			if r.viol != nil {
				return
			}
		}
	}
	honest("at the end")
	if r.viol != nil {
		return
	}
	if ok, _, _ := verifyCirc(other.vrf, buckler.Circuit[E](s.assign(a, false)), base); !ok {
		r.fail("unusable-verifier", "the first honest proof is rejected at the end")
	}
}

func genB07(r *Rng, tier string) *Plan {
	p := &Plan{Kind: "malformed", Cfg: snarkCfg(r)}
	p.Cfg["pair"], p.Cfg["full"] = int64(r.n(2)), int64(r.n(2))
	p.Ops = genSpecOps(r, 1+r.n(4))
	for i := 15 + r.n(25); i > 0; i-- {
		switch c := r.n(100); {
		case c < 65:
			n := int64(1)
			if r.p(20) {
				n = 2
			}
			p.Ops = append(p.Ops, Op{K: "pf", N: []int64{int64(r.n(len(b07Parts))), int64(r.n(numListShapes * numPolyShapes)), n}})
		case c < 80:
			p.Ops = append(p.Ops, Op{K: "vasg", N: []int64{int64(r.n(numAsgShapes))}})
		case c < 97:
			p.Ops = append(p.Ops, Op{K: "pasg", N: []int64{int64(r.n(numAsgShapes))}})
		default:
			p.Ops = append(p.Ops, Op{K: "use"})
		}
	}
	return p
}

func scriptB07(i int, tier string) *Plan {
	if i > 4*numFields {
		return nil
	}
	if i == 4*numFields {
		// With random projections.
		p := &Plan{Kind: "projection", Cfg: map[string]int64{"field": 1, "logn": 11, "form": 0, "crs": 7, "pair": 1},
			Ops: []Op{{K: "approx", N: []int64{2}, Seed: 1}, {K: "approx", N: []int64{1}, Seed: 2}}}
		for j := range b07Parts {
			p.Ops = append(p.Ops, Op{K: "pf", N: []int64{int64(j), int64(j) % numPolyShapes, 1}, Seed: uint64(j)})
		}
		for h := int64(0); h < numAsgShapes; h++ {
			p.Ops = append(p.Ops, Op{K: "vasg", N: []int64{h}, Seed: uint64(h)}, Op{K: "pasg", N: []int64{h}, Seed: uint64(h + 50)})
		}
		return p
	}
	l := matrixCircuits[len(matrixCircuits)-16]
	if i >= numFields {
		l = matrixCircuits[(i*13)%len(matrixCircuits)]
	}
	p := &Plan{Kind: "matrix", Cfg: map[string]int64{"field": int64(i % numFields), "logn": 4, "form": int64(i / 2 % 2), "crs": int64(i), "pair": int64(i % 2), "full": int64(i / 3 % 2)}}
	p.Ops = append(p.Ops, l...)
	for j := range b07Parts {
		for h := int64(0); h < numPolyShapes; h++ {
			p.Ops = append(p.Ops, Op{K: "pf", N: []int64{int64(j), h, 1}, Seed: uint64(i)*1000 + uint64(j)*20 + uint64(h)})
		}
	}
	for h := int64(0); h < numAsgShapes; h++ {
		for v := uint64(0); v < 3; v++ {
			p.Ops = append(p.Ops, Op{K: "vasg", N: []int64{h}, Seed: uint64(i)*100 + uint64(h)*5 + v}, Op{K: "pasg", N: []int64{h}, Seed: uint64(i)*100 + uint64(h)*5 + v + 50})
		}
	}
	return p
}

func init() {
	register(&Prop{
		ID: "B07", Script: scriptB07, Gen: genB07, Exec: dispatchB07,
		Rule: fmt.Sprintf("circuits as for B01 x %d parts of a proof, each missing, blank, shorter, longer, doubled, or (polynomials) with %d other shapes of limbs, one or two "+
			"at once, x %d ways in which an assignment does not fit, to Prove and Verify, between honest uses of the same objects", len(b07Parts), numPolyShapes, numAsgShapes),
		Real: snarkReal,
		Stub: []string{"network (an adversary sends malformed proofs)", "entropy source"},
	})
}
