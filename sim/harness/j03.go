package main

import (
	"fmt"
	"math/big"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// J03: Byzantine provers, who know the committed polynomials and the key,
// and control every message and the order in which they choose them.

func dispatchJ03(p *Plan, r *Run) {
	switch p.Cfg["field"] % numFields {
	case 0:
		execJ03[f0](p, r)
	case 1:
		execJ03[f1](p, r)
	case 2:
		execJ03[f2](p, r)
	case 3:
		execJ03[f3](p, r)
	case 4:
		execJ03[f4](p, r)
	}
}

// forgery is what a Byzantine prover sends.
type forgery[E bignum.Uint[E]] struct {
	x  E
	y  []E
	pf *jindo.Proof
}

var j03Attacks = []string{
	"lie", "lie-cancel", "lie-adaptive", "open-other", "open-other-inner", "open-other-outer",
	"alter-entry", "alter-entry-recommit", "alter-entry-tail",
	"partial-plain", "partial-mask-after", "partial-after", "partial-row", "partial-columns", "partial-limb",
	"wrong-point", "swap-members", "members-cancel", "swap-rows", "swap-cols",
}

// byz is a Byzantine prover over an honestly committed session.
type byz[E bignum.Uint[E]] struct {
	k     *kit[E]
	p     *jindo.Prover[E]
	ck    *jindo.CommitKey
	s     *session[E]
	other *session[E]
	r     *Run
}

// shifted returns the polynomials with the constants of some of them shifted, so that the claimed values are.
func (b *byz[E]) shifted(d []E) [][]E {
	v := make([][]E, len(b.s.v))
	for i := range v {
		v[i] = b.s.v[i]
		if bigOf(d[i]).Sign() != 0 {
			v[i] = copyVec(v[i])
			v[i][0].Add(v[i][0], d[i])
		}
	}
	return v
}

func zeros[E bignum.Uint[E]](n int) []E {
	l := make([]E, n)
	for i := range l {
		l[i] = elemInt[E](0)
	}
	return l
}

// scalar returns the value of a challenge polynomial.
func (k *kit[E]) scalar(ch []byte) *big.Int { return k.decodeCoeffs(k.challenge(ch))[0] }

// impliedOf returns polynomials that evaluate to what the openings hold.
func (b *byz[E]) impliedOf(x E, open []*jindo.Opening) [][]E {
	v := make([][]E, len(open))
	for i := range v {
		v[i] = []E{elemOf[E](b.k.openedValue(x, open[i]))}
	}
	return v
}

// addPoly adds a polynomial to another, in place.
func addPoly(q *ring.Ring, a, b ring.Poly) { q.Add(a, b, a) }

func subPoly(q *ring.Ring, a, b ring.Poly) { q.Sub(a, b, a) }

func mulPoly(q *ring.Ring, a, b ring.Poly) ring.Poly {
	c := q.NewPoly()
	q.MulCoeffsMontgomery(a, b, c)
	return c
}

// attack runs one strategy; nil means that it does not apply.
func (b *byz[E]) attack(name string, rng *Rng, x E, col, row, slot, m int) *forgery[E] {
	k, s := b.k, b.s
	n := k.params.Batch()
	cols, rows, slots := k.params.Cols(), k.params.Rows(), k.params.Slots()
	col, row, slot, m = col%cols, row%rows, slot%slots, m%n
	m2 := (m + 1) % n
	delta := elemInt[E](1)
	if rng.p(50) {
		delta = randElem[E](rng)
	}
	db := bigOf(delta)
	if db.Sign() == 0 {
		return nil
	}
	fmod := modulus[E]()
	run := func(v [][]E, open []*jindo.Opening) *forgery[E] {
		y, pf := b.p.Evaluate(x, v, s.com, open)
		return &forgery[E]{x, y, pf}
	}

	switch name {
	case "lie":
		d := zeros[E](n)
		d[m].Set(delta)
		return run(b.shifted(d), s.open)
	case "lie-cancel":
		if n < 2 {
			return nil
		}
		d := zeros[E](n)
		d[m].Set(delta)
		d[m2].Sub(d[m2], delta)
		return run(b.shifted(d), s.open)
	case "lie-adaptive":
		// Values chosen after the batching challenges, were these not to depend on them.
		if n < 2 {
			return nil
		}
		_, _, tr := k.evaluate(b.p, x, s.v, s.com, s.open)
		if tr == nil {
			return nil
		}
		c1, c2 := k.scalar(tr.batch[m]), k.scalar(tr.batch[m2])
		inv := new(big.Int).ModInverse(c2, fmod)
		if inv == nil {
			return nil
		}
		d := zeros[E](n)
		d[m].Set(delta)
		t := new(big.Int).Mul(db, c1)
		t.Mul(t, inv)
		t.Neg(t)
		d[m2].Set(elemOf[E](t.Mod(t, fmod)))
		return run(b.shifted(d), s.open)
	case "open-other", "open-other-inner", "open-other-outer":
		open := copyOpens(s.open)
		o := b.other.open[m]
		if name != "open-other-inner" {
			open[m].InCommit = copyPolys(o.InCommit)
		}
		if name != "open-other-outer" {
			for i := range o.Encode {
				open[m].Encode[i] = copyPolys(o.Encode[i])
				open[m].MLWE[i] = copyPolys(o.MLWE[i])
			}
		}
		if name == "open-other-outer" {
			return run(b.otherV(m), open)
		}
		return run(b.impliedOf(x, open), open)
	case "alter-entry", "alter-entry-recommit", "alter-entry-tail":
		open := copyOpens(s.open)
		e := k.encodeOne(db, slot)
		addPoly(k.q, open[m].Encode[col][row], e)
		switch name {
		case "alter-entry-recommit":
			k.combine(b.ck, open[m], true)
		case "alter-entry-tail":
			for i := 0; i < k.params.InMSISRank(); i++ {
				subPoly(k.q, open[m].MLWE[col][k.params.MLWERank()+i], mulPoly(k.q, b.ck.In[i][row], e))
			}
		}
		return run(b.impliedOf(x, open), open)
	case "members-cancel":
		if n < 2 {
			return nil
		}
		open := copyOpens(s.open)
		e := k.encodeOne(db, slot)
		addPoly(k.q, open[m].Encode[col][row], e)
		subPoly(k.q, open[m2].Encode[col][row], e)
		return run(b.impliedOf(x, open), open)
	case "swap-members":
		if n < 2 {
			return nil
		}
		open := append([]*jindo.Opening(nil), s.open...)
		open[m], open[m2] = open[m2], open[m]
		v := append([][]E(nil), s.v...)
		v[m], v[m2] = v[m2], v[m]
		return run(v, open)
	case "swap-rows":
		open := copyOpens(s.open)
		row2 := (row + 1 + rng.n(rows-1)) % rows
		for i := 0; i < cols; i++ {
			if i == col || rng.p(50) {
				open[m].Encode[i][row], open[m].Encode[i][row2] = open[m].Encode[i][row2], open[m].Encode[i][row]
			}
		}
		return run(b.impliedOf(x, open), open)
	case "swap-cols":
		if cols < 2 {
			return nil
		}
		open := copyOpens(s.open)
		c2 := (col + 1) % cols
		o := open[m]
		o.Encode[col], o.Encode[c2] = o.Encode[c2], o.Encode[col]
		o.MLWE[col], o.MLWE[c2] = o.MLWE[c2], o.MLWE[col]
		if rng.p(50) {
			im := k.params.InMSISRank()
			for i := 0; i < im; i++ {
				o.InCommit[col*im+i], o.InCommit[c2*im+i] = o.InCommit[c2*im+i], o.InCommit[col*im+i]
			}
		}
		return run(b.impliedOf(x, open), open)
	case "wrong-point":
		// Evaluate elsewhere, and claim it to be here.
		x2 := randElem[E](rng)
		if rng.p(40) {
			x2 = x.New().Add(x, elemInt[E](1))
		}
		if x2.Cmp(x) == 0 {
			return nil
		}
		var f *forgery[E]
		rewriting(func() {
			y, pf := b.p.Evaluate(x2, s.v, s.com, s.open)
			f = &forgery[E]{x, y, pf}
		}, [2][]byte{x2.Marshal(), x.Marshal()})
		return f
	}

	// The rest lie about a value, and about a partial evaluation accordingly.
	d := zeros[E](n)
	d[m].Set(delta)
	v := b.shifted(d)
	y, pf1, tr1 := k.evaluate(b.p, x, v, s.com, s.open)
	if tr1 == nil {
		b.r.probe("transcript_not_understood")
		return nil
	}
	need := new(big.Int).Set(db)
	if n > 1 {
		need.Mul(need, k.scalar(tr1.batch[m]))
	}
	div := k.right(x, col*slots+slot)
	col2 := (col + 1) % cols
	if name == "partial-columns" {
		if cols < 2 {
			return nil
		}
		div.Sub(div, k.right(x, col2*slots+slot))
		div.Mod(div, fmod)
	}
	scale := big.NewInt(1)
	if name == "partial-limb" {
		if len(k.q.SubRings) < 2 {
			return nil
		}
		// Only one limb of the error is not zero.
		scale.Div(k.q.Modulus(), new(big.Int).SetUint64(k.q.SubRings[row%len(k.q.SubRings)].Modulus))
		div.Mul(div, scale)
	}
	if div.ModInverse(div, fmod) == nil {
		return nil
	}
	need.Mul(need, div)
	need.Mod(need, fmod)
	lst := make([]*big.Int, slots)
	for i := range lst {
		lst[i] = new(big.Int)
	}
	lst[slot] = need
	dg := k.digits(lst)
	for i := range dg {
		dg[i].Mul(dg[i], scale)
	}
	e := fromCoeffs(k.q, dg)

	if name == "partial-after" {
		// The partial evaluation is chosen after the challenges.
		c := fromCoeffs(k.q, k.challenge(tr1.cols[col]))
		addPoly(k.q, pf1.Partial[col], e)
		subPoly(k.q, pf1.PartialMask, mulPoly(k.q, c, e))
		return &forgery[E]{x, y, pf1}
	}

	subst := [][2][]byte{}
	np := *pf1.Partial[col].CopyNew()
	addPoly(k.q, np, e)
	subst = append(subst, [2][]byte{polyBytes(pf1.Partial[col]), polyBytes(np)})
	np2 := *pf1.Partial[col2].CopyNew()
	if name == "partial-columns" {
		subPoly(k.q, np2, e)
		subst = append(subst, [2][]byte{polyBytes(pf1.Partial[col2]), polyBytes(np2)})
	}
	var pf *jindo.Proof
	var tr *transcript
	hits := rewriting(func() { _, pf, tr = k.evaluate(b.p, x, v, s.com, s.open) }, subst...)
	if hits == len(subst) {
		b.r.probe("rewrote_transcript")
	} else {
		b.r.probe("rewrite_missed")
	}
	if tr == nil {
		return nil
	}
	pf.Partial[col] = np
	if name == "partial-columns" {
		pf.Partial[col2] = np2
		return &forgery[E]{x, y, pf}
	}
	ce := mulPoly(k.q, fromCoeffs(k.q, k.challenge(tr.cols[col])), e)
	switch name {
	case "partial-plain", "partial-limb":
	case "partial-mask-after":
		subPoly(k.q, pf.PartialMask, ce)
	case "partial-row":
		// A row with left factor one takes the error.
		if k.left(x)[row].Cmp(big.NewInt(1)) != 0 {
			row = 0
		}
		addPoly(k.q, pf.Encode[row], ce)
	}
	return &forgery[E]{x, y, pf}
}

// otherV returns the polynomials with one replaced by the other session's.
func (b *byz[E]) otherV(m int) [][]E {
	v := append([][]E(nil), b.s.v...)
	v[m] = b.other.v[m]
	return v
}

func execJ03[E bignum.Uint[E]](p *Plan, r *Run) {
	data := newRng(mix(p.Seed, 5))
	k := newKit[E](max(int(p.Cfg["n"]), 1), max(int(p.Cfg["batch"]), 1), data.bytes(16))
	undo := degenerate(int(p.Cfg["degenerate"]), int(p.Cfg["da"]), int(p.Cfg["db"]))
	pr, vf := k.prover(), k.verifier()
	ck := jindo.NewCommitKey(k.params, k.crs)
	undo()
	mk := func() *session[E] {
		var vs [][]E
		for i := 0; i < k.params.Batch(); i++ {
			vs = append(vs, randVec[E](data, k.polyLen(data, int64(data.n(10))*int64(data.n(2))), data.n(numPats)))
		}
		return k.commit(pr, vs...)
	}
	b := &byz[E]{k: k, p: pr, ck: ck, s: mk(), other: mk(), r: r}

	for _, op := range p.Ops {
		rng := newRng(op.Seed)
		name := j03Attacks[int(op.n(0))%len(j03Attacks)]
		x := evalPoint[E](rng, op.n(1))
		if r.events%8 == 0 {
			// The honest proof of the same statement is accepted, so that rejections mean something.
			y, pf := pr.Evaluate(x, b.s.v, b.s.com, b.s.open)
			if ok, _ := verify(vf, x, b.s.com, y, pf); !ok {
				r.log("an honest proof is rejected")
				r.probe("honest_rejected")
			} else {
				r.probe("honest_accepted")
			}
		}
		f := b.attack(name, rng, x, int(op.n(2)), int(op.n(3)), int(op.n(4)), int(op.n(5)))
		if f == nil {
			r.probe("not_applicable:" + name)
			continue
		}
		lie := -1
		for i := range f.y {
			if bigOf(f.y[i]).Cmp(horner(b.s.v[i], f.x)) != 0 {
				lie = i
			}
		}
		if lie < 0 {
			r.probe("true_statement")
			continue
		}
		ok, pan := verify(vf, f.x, b.s.com, f.y, f.pf)
		r.fault("byzantine:" + name)
		r.log("%s x=%s col=%d row=%d slot=%d member=%d: accepted %v panic %v", name, short(bigOf(x), 12), op.n(2), op.n(3), op.n(4), op.n(5), ok, pan != nil)
		if ok {
			r.fail("false-evaluation-accepted", "the verifier accepted %s for polynomial %d at %s, whose value is %s: strategy %s column %d row %d slot %d (field %s, %d columns, %d rows, batch %d, key %d/%d/%d)",
				short(bigOf(f.y[lie]), 30), lie, short(bigOf(f.x), 30), short(horner(b.s.v[lie], f.x), 30), name,
				int(op.n(2))%k.params.Cols(), int(op.n(3))%k.params.Rows(), int(op.n(4))%k.params.Slots(),
				fmt.Sprint(fieldNames[p.Cfg["field"]%numFields]), k.params.Cols(), k.params.Rows(), k.params.Batch(),
				p.Cfg["degenerate"], p.Cfg["da"], p.Cfg["db"])
			return
		}
	}
}

func genJ03(r *Rng, tier string) *Plan {
	p := &Plan{Kind: "byzantine", Cfg: map[string]int64{
		"field": int64(r.n(numFields)), "n": pick(r, []int64{1, 9, 64, 257, 300}), "batch": int64(pick(r, []int{1, 1, 2, 3})),
	}}
	if r.p(15) {
		p.Cfg["n"], p.Cfg["batch"] = 1024, 1
	}
	if r.p(50) {
		p.Cfg["degenerate"], p.Cfg["da"], p.Cfg["db"] = 1, int64(r.n(24)), int64(r.n(24))
	}
	for i := 0; i < 24; i++ {
		p.Ops = append(p.Ops, Op{K: "attack", N: []int64{int64(r.n(len(j03Attacks))), int64(r.n(8)), int64(r.n(8)), int64(r.n(40)), int64(r.n(32)), int64(r.n(4))}})
	}
	return p
}

// scriptJ03 tries every strategy everywhere.
func scriptJ03(i int, tier string) *Plan {
	// First, every field with every strategy; then every row, column and key row of some shapes.
	shapes := [][3]int64{{0, 64, 1}, {1, 300, 2}, {2, 64, 3}, {3, 257, 1}, {4, 257, 2}, {0, 1024, 1}, {1, 1024, 1}, {4, 1, 1}, {3, 64, 2}, {2, 257, 1}}
	if i < len(shapes) {
		s := shapes[i]
		p := &Plan{Kind: "every-strategy", Cfg: map[string]int64{"field": s[0], "n": s[1], "batch": s[2]}}
		for a := range j03Attacks {
			for c := int64(0); c < 3; c++ {
				p.Ops = append(p.Ops, Op{K: "attack", N: []int64{int64(a), []int64{0, 2, 5}[c], c, c * 7, c * 5, c}})
			}
		}
		return p
	}
	i -= len(shapes)
	if i < 24 {
		// The key has one row only, so that each has to be checked.
		s := shapes[[]int{3, 0, 1}[i%3]]
		p := &Plan{Kind: "one-key-row", Cfg: map[string]int64{"field": s[0], "n": s[1], "batch": 1, "degenerate": 1, "da": int64(i), "db": int64(i)}}
		for row := int64(0); row < 34; row += 3 {
			for _, a := range []int64{6, 7, 8, 4} {
				p.Ops = append(p.Ops, Op{K: "attack", N: []int64{a, 0, row, row + int64(i)%3, row, 0}})
			}
		}
		return p
	}
	i -= 24
	if i < 8 {
		s := shapes[[]int{3, 5, 6, 4}[i%4]]
		p := &Plan{Kind: "every-entry", Cfg: map[string]int64{"field": s[0], "n": s[1], "batch": 1}}
		for e := int64(0); e < 34; e++ {
			p.Ops = append(p.Ops, Op{K: "attack", N: []int64{6 + int64(i)/4, int64(e % 3), e, e, e, 0}})
			p.Ops = append(p.Ops, Op{K: "attack", N: []int64{12, 2, e, e, e, 0}})
			p.Ops = append(p.Ops, Op{K: "attack", N: []int64{9 + e%3, 0, e, e, e, 0}})
		}
		return p
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "J03", Script: scriptJ03, Gen: genJ03, Exec: dispatchJ03,
		Rule: "20 Byzantine strategies x evaluation point x column, row, slot and batch member x field x shape x commitment keys that are full or " +
			"have a single non-zero row (so that each row has to be checked); counted only when the claimed value is false",
		Real:       []string{"jindo prover (as the Byzantine prover's toolbox), verifier, encoder, commitment key, parameters", "csprng samplers", "field arithmetic", "lattigo rings (dependency)"},
		Stub:       []string{"Byzantine prover's choices and its rewriting of the transcript", "entropy source"},
		Nontrivial: func(res *Result) bool { return len(res.Faults) > 0 },
	})
}
