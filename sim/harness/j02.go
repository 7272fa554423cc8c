package main

import (
	"bytes"
	"fmt"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// J02: an adversary on the network alters, mixes and replays messages.

func dispatchJ02(p *Plan, r *Run) {
	switch p.Cfg["field"] % numFields {
	case 0:
		execJ02[f0](p, r)
	case 1:
		execJ02[f1](p, r)
	case 2:
		execJ02[f2](p, r)
	case 3:
		execJ02[f3](p, r)
	case 4:
		execJ02[f4](p, r)
	}
}

// tampered is a statement with its proof, and the reference string of its verifier.
type tampered[E bignum.Uint[E]] struct {
	crs []byte
	x   E
	com []*jindo.Commitment
	y   []E
	pf  *jindo.Proof
}

func tamperedOf[E bignum.Uint[E]](s *session[E], crs []byte) *tampered[E] {
	return &tampered[E]{crs: append([]byte(nil), crs...), x: s.x.New().Set(s.x), com: copyComs(s.com), y: copyVec(s.y), pf: copyProof(s.pf)}
}

func (t *tampered[E]) same(u *tampered[E]) bool {
	return bytes.Equal(t.crs, u.crs) && t.x.Cmp(u.x) == 0 && eqComs(t.com, u.com) && eqVec(t.y, u.y) && eqProof(t.pf, u.pf)
}

// limbs bounds a polynomial to the limbs that a ring looks at.
func limbs(q *ring.Ring, p ring.Poly) int { return min(len(p.Coeffs), q.ModuliChainLength()) }

// tamperPoly applies a change to one polynomial of the list; other is the same list of another session.
func tamperPoly(rng *Rng, q *ring.Ring, l, other []ring.Poly, how int64) {
	i := rng.n(len(l))
	if rng.p(30) {
		i = pick(rng, []int{0, len(l) - 1})
	}
	p := l[i]
	switch how % 8 {
	case 0: // one value of one limb
		k, j := rng.n(limbs(q, p)), rng.n(len(p.Coeffs[0]))
		m := q.SubRings[k].Modulus
		p.Coeffs[k][j] = (p.Coeffs[k][j] + 1 + rng.u64()%(m-1)) % m
	case 1: // a small polynomial is added: one coefficient
		c := coeffs(q, p)
		c[rng.n(len(c))].Add(c[0], c[0])
		n := fromCoeffs(q, c)
		for k := 0; k < limbs(q, p); k++ {
			copy(p.Coeffs[k], n.Coeffs[k])
		}
	case 2:
		p.Zero()
	case 3:
		for k := 0; k < limbs(q, p); k++ {
			for j := range p.Coeffs[k] {
				p.Coeffs[k][j] = rng.u64() % q.SubRings[k].Modulus
			}
		}
	case 4:
		for k := 0; k < limbs(q, p); k++ {
			m := q.SubRings[k].Modulus
			for j := range p.Coeffs[k] {
				p.Coeffs[k][j] = (m - p.Coeffs[k][j]) % m
			}
		}
	case 5:
		j := rng.n(len(l))
		l[i], l[j] = l[j], l[i]
	case 6:
		if i < len(other) {
			l[i] = *other[i].CopyNew()
		}
	case 7: // one bit of the message
		k, j := rng.n(limbs(q, p)), rng.n(len(p.Coeffs[0]))
		v := p.Coeffs[k][j] ^ 1<<uint(rng.n(50))
		if v < q.SubRings[k].Modulus {
			p.Coeffs[k][j] = v
		}
	}
}

var j02Kinds = []string{"com-poly", "com-swap", "com-other", "x", "y-one", "y-swap", "y-cancel", "y-other", "crs",
	"pf-incommit", "pf-partial", "pf-mask", "pf-encode", "pf-mlwe", "pf-all-other", "part-other", "replay", "batch-rot"}

// mutateSession applies a mutation; b is the other session.
func (k *kit[E]) mutate(rng *Rng, kind string, how int64, t *tampered[E], a, b *session[E]) {
	var z E
	n := len(t.com)
	i, j := rng.n(n), rng.n(n)
	switch kind {
	case "com-poly":
		tamperPoly(rng, k.qq, t.com[i].Value, b.com[i].Value, how)
	case "com-swap":
		t.com[i], t.com[j] = t.com[j], t.com[i]
	case "com-other":
		t.com[i] = copyCom(b.com[j])
	case "x":
		switch how % 5 {
		case 0:
			t.x.Add(t.x, elemInt[E](1))
		case 1:
			t.x.Set(b.x)
		case 2:
			t.x.Set(randElem[E](rng))
		case 3:
			t.x.Neg(t.x)
		case 4:
			t.x.SetInt64(int64(rng.n(2)))
		}
	case "y-one":
		switch how % 4 {
		case 0:
			t.y[i].Add(t.y[i], elemInt[E](1))
		case 1:
			t.y[i].Neg(t.y[i])
		case 2:
			t.y[i].SetInt64(0)
		case 3:
			t.y[i].Set(randElem[E](rng))
		}
	case "y-swap":
		t.y[i], t.y[j] = t.y[j], t.y[i]
	case "y-cancel":
		d := elemInt[E](1)
		if how%2 == 1 {
			d = randElem[E](rng)
		}
		t.y[i].Add(t.y[i], d)
		t.y[j].Sub(t.y[j], d)
	case "y-other":
		t.y[i].Set(b.y[j])
	case "crs":
		switch how % 7 {
		case 0:
			t.crs = append(t.crs, 0)
		case 1:
			t.crs = append(t.crs, byte(1+rng.n(255)))
		case 2:
			if len(t.crs) > 0 {
				t.crs[rng.n(len(t.crs))] ^= 1 << uint(rng.n(8))
			}
		case 3:
			if len(t.crs) > 0 {
				t.crs = t.crs[:len(t.crs)-1]
			}
		case 4:
			t.crs = append([]byte{0}, t.crs...)
		case 5:
			if len(t.crs) > 0 {
				t.crs[len(t.crs)-1] ^= 1 << uint(rng.n(8))
			}
		case 6:
			// Two bytes trade places.
			if len(t.crs) > 1 {
				i := rng.n(len(t.crs) - 1)
				t.crs[i], t.crs[i+1] = t.crs[i+1], t.crs[i]
			}
		}
	case "pf-incommit":
		tamperPoly(rng, k.qq, t.pf.InCommit, b.pf.InCommit, how)
	case "pf-partial":
		tamperPoly(rng, k.q, t.pf.Partial, b.pf.Partial, how)
	case "pf-mask":
		l := []ring.Poly{t.pf.PartialMask}
		tamperPoly(rng, k.q, l, []ring.Poly{b.pf.PartialMask}, how)
		t.pf.PartialMask = l[0]
	case "pf-encode":
		tamperPoly(rng, k.q, t.pf.Encode, b.pf.Encode, how)
	case "pf-mlwe":
		// The last ones are free within the norm bound; see the statement.
		tamperPoly(rng, k.q, t.pf.MLWE[:k.params.MLWERank()], b.pf.MLWE, how)
	case "pf-all-other":
		t.pf = copyProof(b.pf)
	case "part-other":
		m := int(how) % 31
		if m&1 != 0 {
			t.pf.InCommit = copyPolys(b.pf.InCommit)
		}
		if m&2 != 0 {
			t.pf.Partial = copyPolys(b.pf.Partial)
		}
		if m&4 != 0 {
			t.pf.PartialMask = *b.pf.PartialMask.CopyNew()
		}
		if m&8 != 0 {
			t.pf.Encode = copyPolys(b.pf.Encode)
		}
		if m&16 != 0 {
			t.pf.MLWE = copyPolys(b.pf.MLWE)
		}
	case "replay":
		// The other session's proof, with some of its statement.
		t.pf = copyProof(b.pf)
		m := int(how) % 7
		if m&1 != 0 {
			t.x.Set(b.x)
		}
		if m&2 != 0 {
			t.y = copyVec(b.y)
		}
		if m&4 != 0 {
			t.com = copyComs(b.com)
		}
	case "batch-rot":
		d := 1 + rng.n(n)
		m := 1 + int(how)%3
		if m&1 != 0 {
			t.com = append(t.com[d%n:], t.com[:d%n]...)
		}
		if m&2 != 0 {
			t.y = append(t.y[d%n:], t.y[:d%n]...)
		}
	}
	_ = z
}

func execJ02[E bignum.Uint[E]](p *Plan, r *Run) {
	data := newRng(mix(p.Seed, 5))
	k := newKit[E](max(int(p.Cfg["n"]), 1), max(int(p.Cfg["batch"]), 1), data.bytes(int(p.Cfg["crs"])))
	pr := k.prover()
	vf := k.verifier()
	mk := func(like *session[E]) *session[E] {
		var vs [][]E
		for i := 0; i < k.params.Batch(); i++ {
			pat := data.n(numPats)
			if p.Cfg["same"] == 1 && like != nil {
				// The same polynomials again, with fresh blinding.
				vs = append(vs, like.v[i])
				continue
			}
			vs = append(vs, randVec[E](data, k.polyLen(data, int64(data.n(10))), pat))
		}
		s := k.commit(pr, vs...)
		s.x = evalPoint[E](data, int64(data.n(8)))
		if p.Cfg["same"] == 1 && like != nil {
			s.x = like.x
		}
		s.y, s.pf = pr.Evaluate(s.x, s.v, s.com, s.open)
		return s
	}
	a := mk(nil)
	b := mk(a)
	for _, s := range []*session[E]{a, b} {
		if ok, _ := verify(vf, s.x, s.com, s.y, s.pf); !ok {
			r.log("an honest session is rejected: nothing to tamper with")
			r.probe("honest_rejected")
			return
		}
	}
	base := tamperedOf(a, k.crs)
	tb := tamperedOf(b, k.crs)
	for _, op := range p.Ops {
		rng := newRng(op.Seed)
		t := tamperedOf(a, k.crs)
		kind := j02Kinds[int(op.n(0))%len(j02Kinds)]
		k.mutate(rng, kind, op.n(1), t, a, b)
		if op.n(2) > 0 {
			k.mutate(rng, j02Kinds[int(op.n(2))%len(j02Kinds)], op.n(3), t, a, b)
		}
		if t.same(base) || t.same(tb) {
			r.probe("tampering_without_effect")
			continue
		}
		tv := vf
		if !bytes.Equal(t.crs, k.crs) {
			kk := newKit[E](max(int(p.Cfg["n"]), 1), k.params.Batch(), t.crs)
			tv = kk.verifier()
		}
		ok, pan := verify(tv, t.x, t.com, t.y, t.pf)
		r.fault("tampered:" + kind)
		r.log("%s/%d: accepted %v panic %v", kind, op.n(1), ok, pan != nil)
		what := fmt.Sprintf("%s variant %d (then %d/%d), field %s, size %d, batch %d", kind, op.n(1), op.n(2), op.n(3),
			fieldNames[p.Cfg["field"]%numFields], p.Cfg["n"], k.params.Batch())
		if pan != nil {
			r.fail("verify-panics", "the verifier panicked on a tampered message of the right shape: %s: %s", what, short(pan, 150))
		}
		if ok {
			r.fail("tampered-accepted", "the verifier accepted a tampered message: %s", what)
		}
		if r.viol != nil {
			return
		}
	}
}

func genJ02(r *Rng, tier string) *Plan {
	p := &Plan{Kind: "tamper", Cfg: map[string]int64{
		"field": int64(r.n(numFields)), "n": pick(r, []int64{1, 9, 64, 257, 300}), "batch": int64(pick(r, []int{1, 1, 2, 3})),
		"crs": max(1, crsLen(r)), "same": int64(r.n(2)),
	}}
	if r.p(8) {
		p.Cfg["n"], p.Cfg["batch"] = 1024, 1
	}
	for i := 0; i < 24; i++ {
		o := Op{K: "tamper", N: []int64{int64(r.n(len(j02Kinds))), int64(r.n(64))}}
		if r.p(12) {
			o.N = append(o.N, int64(1+r.n(len(j02Kinds)-1)), int64(r.n(64)))
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

func scriptJ02(i int, tier string) *Plan {
	// Every kind in every variant, for every field and batch 1 and 3.
	if i >= 2*numFields*4 {
		return nil
	}
	f, rest := i%numFields, i/numFields
	p := &Plan{Kind: "every-kind", Cfg: map[string]int64{"field": int64(f), "n": []int64{64, 257}[rest%2], "batch": 1 + 2*int64(rest%2),
		"crs": crsLens[(5*f+rest)%len(crsLens)], "same": int64(rest/2) % 2}}
	for kd := range j02Kinds {
		nh := 8
		switch j02Kinds[kd] {
		case "part-other":
			nh = 31
		case "com-swap", "com-other", "y-swap", "y-other", "pf-all-other":
			nh = 1
		case "y-cancel":
			nh = 2
		case "batch-rot":
			nh = 3
		case "x":
			nh = 5
		case "crs":
			nh = 7
		}
		for h := 0; h < nh; h++ {
			if (h+kd)%2 != rest/4%2 && nh > 3 {
				continue
			}
			p.Ops = append(p.Ops, Op{K: "tamper", N: []int64{int64(kd), int64(h)}})
		}
	}
	return p
}

func init() {
	register(&Prop{
		ID: "J02", Script: scriptJ02, Gen: genJ02, Exec: dispatchJ02,
		Rule: "two honest sessions x one change (18 kinds, up to 31 variants each, sometimes two at once) of commitments, point, values, " +
			"reference string or proof parts, including swaps with and replays of the other session; a change that leaves the message equal " +
			"to an honest one is not counted",
		Real:       []string{"jindo prover, verifier, encoder, commitment key, parameters", "csprng samplers", "field arithmetic", "lattigo rings (dependency)"},
		Stub:       []string{"adversary on the network", "entropy source"},
		Nontrivial: func(res *Result) bool { return len(res.Faults) > 0 },
	})
}
