package main

import (
	"fmt"
	"math/big"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/simhook"
)

// B05: provers that deviate from the protocol to prove false statements.

func dispatchB05(p *Plan, r *Run) {
	switch p.Cfg["field"] % numFields {
	case 0:
		execB05[f0](p, r)
	case 1:
		execB05[f1](p, r)
	case 2:
		execB05[f2](p, r)
	case 3:
		execB05[f3](p, r)
	case 4:
		execB05[f4](p, r)
	}
}

// puppet is a prover whose steps are taken over while it proves.
type puppet[E bignum.Uint[E]] struct {
	// encode is shown what is encoded, and may return something else to encode.
	encode func(i int, v []E) []E
	// commit is shown what is committed to, and may return something else.
	commit func(i int, v []E) []E
	// evaluate is shown the polynomials that are evaluated, and may change the list.
	evaluate func(x E, v [][]E)
	// after may change the evaluations.
	after func(x E, y []E)

	// keep are values that must be committed to as they are: the deviation is elsewhere.
	keep [][]*big.Int
	rank int

	encodes, commits int
	inside           bool
}

// kept tells whether a vector is one that must stay.
func (h *puppet[E]) kept(v []E) bool {
	zero := true
	for _, x := range v {
		if bigOf(x).Sign() != 0 {
			zero = false
		}
	}
	if zero {
		return false
	}
	for _, k := range h.keep {
		same := len(k) == len(v)
		for i := 0; same && i < len(k); i++ {
			same = bigOf(v[i]).Cmp(k[i]) == 0
		}
		if same {
			return true
		}
	}
	return false
}

// decodeWitness returns the values that a committed polynomial stands for.
func decodeWitness[E bignum.Uint[E]](v []E, rank int) []E {
	out := zeros[E](rank)
	for i := range v {
		out[i%rank].Add(out[i%rank], v[i])
	}
	bigpoly.NewCyclicTransformer[E](rank).FwdNTTTo(out, out)
	return out
}

func (h *puppet[E]) run(fn func()) {
	h.encodes, h.commits, h.inside = 0, 0, false
	enc := func(v *[]E) {
		if h.encode != nil && !h.kept(*v) {
			if n := h.encode(h.encodes, *v); n != nil {
				*v = n
			}
		}
		h.encodes++
	}
	var x E
	simhook.EnterFn = func(name string, recv any, args ...any) {
		switch name {
		case "buckler.Encoder.RandEncode":
			if len(args) == 1 {
				enc(args[0].(*[]E))
				h.inside = true
			}
		case "buckler.Encoder.RandEncodeTo":
			if len(args) == 2 && !h.inside {
				enc(args[1].(*[]E))
			}
		case "jindo.Prover.Commit":
			v := args[0].(*[]E)
			if h.commit != nil && !(h.rank > 0 && h.kept(decodeWitness(*v, h.rank))) {
				if n := h.commit(h.commits, *v); n != nil {
					*v = n
				}
			}
			h.commits++
		case "jindo.Prover.Evaluate":
			x = *args[0].(*E)
			if h.evaluate != nil {
				h.evaluate(x, *args[1].(*[][]E))
			}
		}
	}
	simhook.ExitFn = func(name string, recv any, res ...any) {
		switch name {
		case "buckler.Encoder.RandEncode":
			h.inside = false
		case "jindo.Prover.Evaluate":
			if h.after != nil && len(res) == 2 {
				if y, ok := res[0].(*[]E); ok {
					h.after(x, *y)
				}
			}
		}
	}
	simhook.Hooks = true
	defer func() {
		simhook.Hooks = false
		simhook.EnterFn, simhook.ExitFn = nil, nil
	}()
	fn()
}

// baseOf returns the weights of the digits that a bound is decomposed into.
func baseOf(b *big.Int) []*big.Int {
	var l []*big.Int
	sum := new(big.Int)
	for i, n := 0, b.BitLen(); i < n; i++ {
		w := new(big.Int).Sub(b, sum)
		w.Rsh(w.Add(w, big.NewInt(1)), 1)
		if i == n-1 {
			w.SetInt64(1)
		}
		l = append(l, w)
		sum.Add(sum, w)
	}
	return l
}

var b05Attacks = []string{"digit-inf", "digit-two", "degree-sum", "degree-lin", "mask-sum", "mask-lin", "late-sum", "late-lin", "weaker", "lie-evals",
	"projection-digits", "projection-zero", "projection-values"}

// challengeAt returns the n-th last challenge drawn so far.
func challengeAt[E bignum.Uint[E]](n int) E {
	var z E
	for i := len(simhook.Records) - 1; i >= 0; i-- {
		if simhook.Records[i].Alg == "sha256" {
			if n == 0 {
				return z.New().SetBytes(simhook.Records[i].Out)
			}
			n--
		}
	}
	return z
}

func count(s []*con, kind ...string) (n int) {
	for _, c := range s {
		for _, k := range kind {
			if c.kind == k {
				n++
			}
		}
	}
	return n
}

// weaken returns the circuit without what one constraint asks for, but of the same layout.
func (s *spec[E]) weaken(at int) *spec[E] {
	o := newSpec[E](s.rank, s.form)
	id := o.id
	*o = *s
	o.id = id
	specs[id] = o
	o.cons = nil
	for i, c := range s.cons {
		n := *c
		n.prefix = 0
		n.terms = nil
		for _, t := range c.terms {
			if i == at {
				t.coef, t.how = new(big.Int), 0
			}
			n.terms = append(n.terms, t)
		}
		if i == at {
			switch c.kind {
			case "sum":
				n.sum = new(big.Int)
			case "lin":
				// The relation of a value to itself.
				id := &sparse[E]{}
				for j := 0; j < s.rank; j++ {
					id.row, id.col, id.val = append(id.row, j), append(id.col, j), append(id.val, elemInt[E](1))
				}
				o.chks = append(append([]checker[E](nil), s.chks...), checker[E]{"id", id, func(v []*big.Int) []*big.Int { return v }})
				n.chk, n.out = len(o.chks)-1, n.in
			case "arith":
			default:
				return nil
			}
		}
		o.cons = append(o.cons, &n)
	}
	return o
}

// errors returns by how much an assignment misses a sum or a linear relation.
func (s *spec[E]) missed(c *con, a *asg) []*big.Int {
	switch c.kind {
	case "sum":
		t := new(big.Int)
		for _, x := range s.rows(c.terms, a) {
			t.Add(t, x)
		}
		t.Sub(t, c.sum)
		return []*big.Int{t.Mod(t, s.m)}
	case "two":
		t := new(big.Int)
		for _, x := range a.W[c.w] {
			t.Add(t, new(big.Int).Mul(x, x))
		}
		return []*big.Int{t.Mod(t, s.m)}
	case "lin":
		ref := s.chks[c.chk].ref(a.W[c.in])
		out := make([]*big.Int, len(ref))
		for i := range ref {
			out[i] = new(big.Int).Sub(ref[i], a.W[c.out][i])
			out[i].Mod(out[i], s.m)
		}
		return out
	}
	return nil
}

// attack is a prepared deviation.
type attack[E bignum.Uint[E]] struct {
	a    *asg
	at   int
	hook *puppet[E]
	// prv is the prover to run, if it is not that of the circuit; c is what it is given.
	prv *buckler.Prover[E]
	c   buckler.Circuit[E]
	// finish changes the proof.
	finish func(pf *buckler.Proof[E])
	// did is set when the deviation took place.
	did bool
}

// plan prepares an attack; it is nil if the circuit has nothing that it applies to.
func planB05[E bignum.Uint[E]](r *Run, s *spec[E], node *snarkNode[E], crs []byte, o Op, kind string) *attack[E] {
	d := newRng(o.Seed)
	var idx []int
	want := map[string]string{"digit-inf": "inf", "digit-two": "two", "degree-sum": "sum", "mask-sum": "sum", "late-sum": "sum", "degree-lin": "lin", "mask-lin": "lin",
		"late-lin": "lin", "projection-digits": "approx", "projection-zero": "approx", "projection-values": "approx"}[kind]
	if kind == "lie-evals" {
		want = pick(d, []string{"sum", "lin"})
	}
	real := func(c *con) bool {
		t := new(big.Int).Mul(c.bound, big.NewInt(int64(s.rank)))
		return t.Sign() > 0 && 128*t.BitLen() <= s.rank
	}
	for i, c := range s.cons {
		switch {
		case c.slot < 0:
		case want == "inf" && c.kind == "approx" && real(c):
		case want == "approx" && c.kind == "approx" && !real(c):
		case want == "inf" && c.kind == "approx" && c.bound.Cmp(big.NewInt(1)) > 0:
			idx = append(idx, i)
		case kind == "weaker" && (c.kind == "sum" || c.kind == "lin" || c.kind == "arith"):
			idx = append(idx, i)
		case c.kind == want && (c.bound == nil || c.bound.Cmp(big.NewInt(1)) > 0 || want != "inf"):
			idx = append(idx, i)
		}
	}
	if len(idx) == 0 {
		return nil
	}
	at := idx[int(o.n(1))%len(idx)]
	c := s.cons[at]
	nSum, nLin := count(s.cons, "sum", "two"), 0
	for _, c := range s.cons {
		if c.kind == "lin" || (c.kind == "approx" && real(c)) {
			nLin++
		}
	}
	exact := (c.kind == "sum" && nSum == 1) || (c.kind == "lin" && nLin == 1)
	row := d.n(s.rank)
	if d.p(40) {
		row = pick(d, []int{0, s.rank - 1})
	}
	delta := bigOf(randElem[E](d))
	if delta.Sign() == 0 || d.p(30) {
		delta.SetInt64(1)
	}
	tweak := func(f func(v []*big.Int)) map[int]func(v []*big.Int) { return map[int]func(v []*big.Int){c.slot: f} }
	t := &attack[E]{at: at, hook: &puppet[E]{}}
	h := t.hook
	nInv := new(big.Int).ModInverse(big.NewInt(int64(s.rank)), s.m)
	D := node.prv.JindoParams.Rank()

	switch kind {
	case "digit-inf", "digit-two":
		base := baseOf(c.bound)
		if len(base) == 0 {
			return nil
		}
		honest := s.fill(o.Seed)
		j := d.n(len(base))
		if d.p(50) {
			j = pick(d, []int{0, len(base) - 1})
		}
		// The honest digits are found by what the prover encodes for an honest assignment.
		var enc [][]*big.Int
		(&puppet[E]{encode: func(i int, v []E) []E { enc = append(enc, bigs(v)); return nil }}).run(func() {
			proveCirc(node.prv, buckler.Circuit[E](s.assign(honest, true)))
		})
		first := -1
		recomposes := func(off int) bool {
			x := new(big.Int)
			if kind == "digit-two" {
				n2 := new(big.Int)
				for _, w := range honest.W[c.w] {
					n2.Add(n2, x.Mul(w, w))
				}
				for j, b := range base {
					n2.Sub(n2, new(big.Int).Mul(b, enc[off][j]))
				}
				return n2.Mod(n2, s.m).Sign() == 0
			}
			for i := 0; i < s.rank; i++ {
				x.Set(honest.W[c.w][i])
				for j, b := range base {
					x.Sub(x, new(big.Int).Mul(b, enc[off+j][i]))
				}
				if x.Mod(x, s.m).Sign() != 0 {
					return false
				}
			}
			return true
		}
		need := len(base)
		if kind == "digit-two" {
			need = 1
		}
		var offs []int
		for off := s.nW; off+need <= len(enc); off++ {
			if recomposes(off) {
				offs = append(offs, off)
			}
		}
		if len(offs) == 0 {
			r.probe("digits_not_found")
			return nil
		}
		first = pick(d, offs)
		// A value out of bounds, and the digit that makes up for it.
		target := new(big.Int).Add(c.bound, big.NewInt(1))
		switch d.n(4) {
		case 0:
			target.Add(c.bound, base[j])
		case 1:
			target = bigOf(randElem[E](d))
		case 2:
			target.Neg(target)
		}
		tw := tweak(func(v []*big.Int) { v[row].Set(target) })
		if kind == "digit-two" {
			old := new(big.Int)
			tw = tweak(func(v []*big.Int) { old.Set(v[row]); v[row].Set(target) })
		}
		t.a = s.fillWith(o.Seed, tw)
		diff := new(big.Int)
		if kind == "digit-two" {
			for i := range t.a.W[c.w] {
				diff.Add(diff, new(big.Int).Mul(t.a.W[c.w][i], t.a.W[c.w][i]))
				diff.Sub(diff, new(big.Int).Mul(honest.W[c.w][i], honest.W[c.w][i]))
			}
		} else {
			diff.Sub(t.a.W[c.w][row], honest.W[c.w][row])
		}
		inv := new(big.Int).ModInverse(base[j], s.m)
		if inv == nil {
			return nil
		}
		diff.Mod(diff.Mul(diff, inv), s.m)
		h.encode = func(i int, v []E) []E {
			if i < first || i >= first+need {
				return nil
			}
			k, pos := i-first, row
			n := append([]*big.Int(nil), enc[i]...)
			if kind == "digit-two" {
				k, pos = j, j
			}
			if k == j {
				n[pos] = new(big.Int).Add(n[pos], diff)
				n[pos].Mod(n[pos], s.m)
				t.did = true
			}
			return s.elems(n)
		}

	case "degree-sum", "degree-lin":
		if !exact {
			return nil
		}
		t.a = s.fillWith(o.Seed, tweak(func(v []*big.Int) { v[row].Add(v[row], delta) }))
		l := s.lay
		miss := s.missed(c, t.a)
		quo := l.wit + l.masks
		if l.arith {
			quo++
		}
		if kind == "degree-sum" && l.lin {
			quo += 3
		}
		mul := 1 + int(o.n(2))%2
		shift := int(o.n(3)) % 6
		var changed [3][]E
		var e *big.Int
		h.commit = func(i int, v []E) []E {
			if i < quo || i > quo+2 {
				return nil
			}
			n := append([]E(nil), copyVec(v)...)
			if i == quo {
				e = s.exactError(kind == "degree-sum", miss, nInv)
				if e == nil {
					return nil
				}
			}
			if e == nil {
				return nil
			}
			ee := elemOf[E](e)
			top := mul*s.rank - 1
			switch i {
			case quo:
				// e = -e (X^kN - 1) + e X^kN
				for k := 0; k < mul; k++ {
					for len(n) <= k*s.rank {
						n = append(n, elemInt[E](0))
					}
					n[k*s.rank].Sub(n[k*s.rank], ee)
				}
			case quo + 1:
				for len(n) <= top {
					n = append(n, elemInt[E](0))
				}
				n[top].Add(n[top], ee)
			case quo + 2:
				lo := changed[1]
				by := D - (s.rank - 1)
				switch shift {
				case 1:
					by = D - s.rank
				case 2:
					by = D - len(lo)
				case 3:
					by = 0
				case 4:
					by = -1
				}
				if by >= 0 {
					n = zeros[E](D)
					for k := range lo {
						switch {
						case by+k < D:
							n[by+k].Add(n[by+k], lo[k])
						case shift == 5:
							n[by+k-D].Add(n[by+k-D], lo[k])
						}
					}
				}
			}
			if len(n) > D {
				n = n[:D]
			}
			changed[i-quo] = n
			return n
		}
		h.evaluate = func(x E, v [][]E) {
			for k := range changed {
				if changed[k] != nil && quo+k < len(v) {
					v[quo+k] = changed[k]
					t.did = true
				}
			}
		}

	case "mask-sum", "mask-lin":
		// The mask makes up for the error, as far as it can be known before the challenges.
		if kind == "mask-lin" {
			row = 0
		}
		t.a = s.fillWith(o.Seed, tweak(func(v []*big.Int) { v[row].Add(v[row], delta) }))
		miss := s.missed(c, t.a)
		l := s.lay
		mask := l.wit
		if kind == "mask-sum" && l.lin {
			mask++
		}
		e := new(big.Int).Mul(miss[0], nInv)
		e.Mod(e, s.m)
		h.commit = func(i int, v []E) []E {
			if i == mask {
				v[0].Sub(v[0], elemOf[E](e))
				t.did = true
			}
			return nil
		}

	case "late-sum", "late-lin":
		if !exact {
			return nil
		}
		t.a = s.fillWith(o.Seed, tweak(func(v []*big.Int) { v[row].Add(v[row], delta) }))
		miss := s.missed(c, t.a)
		var e *big.Int
		l := s.lay
		quo := l.wit + l.masks
		if l.arith {
			quo++
		}
		if kind == "late-sum" && l.lin {
			quo += 3
		}
		h.commit = func(i int, v []E) []E {
			if i == quo {
				e = s.exactError(kind == "late-sum", miss, nInv)
			}
			return nil
		}
		t.finish = func(pf *buckler.Proof[E]) {
			if e == nil {
				return
			}
			x := pf.LinCheckMaskSum
			if kind == "late-sum" {
				x = pf.SumCheckMaskSum
			}
			if !isNil(x) {
				x.Add(x, elemOf[E](e))
				t.did = true
			}
		}

	case "lie-evals":
		if !exact {
			return nil
		}
		t.a = s.fillWith(o.Seed, tweak(func(v []*big.Int) { v[row].Add(v[row], delta) }))
		miss := s.missed(c, t.a)
		l := s.lay
		quo := l.wit + l.masks
		if l.arith {
			quo++
		}
		if c.kind == "sum" && l.lin {
			quo += 3
		}
		var e *big.Int
		h.commit = func(i int, v []E) []E {
			if i == quo {
				e = s.exactError(c.kind == "sum", miss, nInv)
			}
			return nil
		}
		how := d.n(3)
		h.after = func(x E, y []E) {
			if e == nil || quo+2 >= len(y) {
				return
			}
			t.did = true
			ee, bx := new(big.Int).Set(e), bigOf(x)
			switch how {
			case 0:
				// The quotient takes the error.
				van := new(big.Int).Exp(bx, big.NewInt(int64(s.rank)), s.m)
				van.Sub(van, big.NewInt(1)).ModInverse(van.Mod(van, s.m), s.m)
				y[quo].Add(y[quo], elemOf[E](ee.Mod(ee.Mul(ee, van), s.m)))
			case 1:
				// The remainder takes it, in both of its forms.
				lo := new(big.Int).ModInverse(bx, s.m)
				lo.Mod(lo.Mul(lo, ee), s.m)
				hi := new(big.Int).Exp(bx, big.NewInt(int64(D-(s.rank-1))), s.m)
				hi.Mod(hi.Mul(hi, lo), s.m)
				y[quo+1].Add(y[quo+1], elemOf[E](lo))
				y[quo+2].Add(y[quo+2], elemOf[E](hi))
			case 2:
				// The mask takes it.
				mask := l.wit
				if c.kind == "sum" && l.lin {
					mask++
				}
				y[mask].Sub(y[mask], elemOf[E](ee))
			}
		}

	case "weaker":
		t.a = s.fillWith(o.Seed, tweak(func(v []*big.Int) { v[row].Add(v[row], delta) }))
		w := s.weaken(at)
		if w == nil {
			return nil
		}
		if v, _ := w.judge(t.a); v != holds {
			return nil
		}
		node := &snarkNode[E]{name: "X"}
		if !node.boot(r, w, crs) {
			return nil
		}
		t.prv, t.c = node.prv, buckler.Circuit[E](w.assign(t.a, true))
		t.did = true

	case "projection-digits", "projection-zero", "projection-values":
		// One witness is far out of bounds; what is said of its projection is not so.
		far := new(big.Int).Mul(c.bound, big.NewInt(int64(5*s.rank)))
		far.Add(far, delta)
		t.a = s.fillWith(o.Seed, tweak(func(v []*big.Int) { v[row].Set(far) }))
		l := s.lay
		base := baseOf(new(big.Int).Mul(c.bound, big.NewInt(int64(s.rank))))
		// Every projection has its values and their digits, after all other witnesses.
		before, all := 0, 0
		for i, c := range s.cons {
			if c.kind == "approx" && real(c) {
				if all++; i < at {
					before++
				}
			}
		}
		proj := l.wit - 2*(all-before)
		var vals []*big.Int
		h.encode = func(i int, v []E) []E {
			switch i {
			case proj:
				vals = bigs(v)
				t.did = true
				if kind == "projection-digits" {
					return nil
				}
				n := zeros[E](s.rank)
				if kind == "projection-values" {
					// Ones, which have digits.
					for k := 0; k < 128; k++ {
						n[k] = elemInt[E](1)
					}
				}
				return n
			case proj + 1:
				n := zeros[E](s.rank)
				switch kind {
				case "projection-digits":
					inv := new(big.Int).ModInverse(base[0], s.m)
					for k := 0; k < 128; k++ {
						x := new(big.Int).Mul(vals[k], inv)
						n[k*len(base)] = elemOf[E](x.Mod(x, s.m))
					}
				case "projection-values":
					for k := 0; k < 128; k++ {
						n[k*len(base)+len(base)-1] = elemInt[E](1)
					}
				}
				return n
			}
			return nil
		}
	}
	return t
}

// exactError is the constant that the batched polynomial of a circuit with one sum, or one
// linear relation, is off by, once the challenges are known.
func (s *spec[E]) exactError(sum bool, miss []*big.Int, nInv *big.Int) *big.Int {
	e := new(big.Int)
	if sum {
		bc := challengeAt[E](0)
		if isNil(bc) {
			return nil
		}
		e.Mul(miss[0], bigOf(bc))
	} else {
		lc, bc := challengeAt[E](0), challengeAt[E](1)
		if isNil(bc) {
			return nil
		}
		x := big.NewInt(1)
		for _, m := range miss {
			e.Add(e, new(big.Int).Mul(m, x))
			x.Mod(x.Mul(x, bigOf(lc)), s.m)
		}
		e.Mul(e, bigOf(bc))
	}
	e.Mul(e, nInv)
	return e.Mod(e, s.m)
}

func execB05[E bignum.Uint[E]](p *Plan, r *Run) {
	s := specOf[E](p, p.Ops)
	crs := newRng(mix(p.Seed, 5)).bytes(int(p.Cfg["crs"]))
	node, other := &snarkNode[E]{name: "P"}, &snarkNode[E]{name: "V"}
	if !node.boot(r, s, crs) || !other.boot(r, s, crs) {
		return
	}
	var h puppet[E]
	var pf *buckler.Proof[E]
	var err error
	var pan any
	var st string
	h.run(func() { pf, err, pan, st = proveCirc(node.prv, buckler.Circuit[E](s.assign(s.fill(p.Seed), true))) })
	if pan != nil || err != nil {
		r.fail("library-panics in "+firstFrame(st), "Prove failed: %v %s", err, short(pan, 200))
		return
	}
	s.lay = layoutOf(s, pf, h.encodes)
	r.log("rank %d of %d %s", s.rank, node.prv.JindoParams.Rank(), s.kinds())
	for oi, o := range p.Ops {
		if o.K != "attack" || r.viol != nil {
			continue
		}
		kind := b05Attacks[int(o.n(0))%len(b05Attacks)]
		t := planB05(r, s, node, crs, o, kind)
		if r.viol != nil {
			return
		}
		if t == nil {
			r.probe("no_target_" + kind)
			continue
		}
		verdict, at := s.judge(t.a)
		if verdict != violated {
			r.probe("not_violated_" + kind)
			continue
		}
		prv, c := node.prv, buckler.Circuit[E](s.assign(t.a, true))
		if t.prv != nil {
			prv, c = t.prv, t.c
		}
		var pf *buckler.Proof[E]
		t.hook.keep, t.hook.rank = t.a.W, s.rank
		simhook.Recording, simhook.Records = true, nil
		t.hook.run(func() { pf, err, pan, _ = proveCirc(prv, c) })
		simhook.Recording, simhook.Records = false, nil
		if pan != nil || err != nil {
			r.probe("attack_refused_" + kind)
			continue
		}
		if t.finish != nil {
			t.finish(pf)
		}
		if !t.did {
			r.probe("attack_idle_" + kind)
			continue
		}
		r.fault("byzantine_" + kind)
		ok, pan, st := verifyCirc(other.vrf, buckler.Circuit[E](s.assign(t.a, false)), pf)
		if pan != nil {
			r.fail("library-panics in "+firstFrame(st), "Verify of a proof of a false statement panicked: %s", short(pan, 200))
			return
		}
		r.log("op %d %s constraint %d %s: %v", oi, kind, at, s.cons[at].kind, ok)
		if ok {
			msg := fmt.Sprintf("%s: the committed assignment violates constraint %d (%s", kind, at, s.cons[at].kind)
			if b := s.cons[at].bound; b != nil {
				msg += fmt.Sprintf(" with bound %v", b)
			}
			r.fail("false-accepted-"+kind, "%s) of a circuit of rank %d over %s with %s, but the proof is accepted", msg, s.rank, fieldNames[p.Cfg["field"]%numFields], s.kinds())
		}
	}
}

func genB05(r *Rng, tier string) *Plan {
	p := &Plan{Kind: "byzantine", Cfg: snarkCfg(r)}
	p.Cfg["logn"] = min(p.Cfg["logn"], 5)
	// Few constraints, so that the attacks have what they need.
	switch r.n(4) {
	case 0:
		p.Ops = genSpecOps(r, 1+r.n(4))
	default:
		p.Ops = genSpecOps(r, 0)
		for _, k := range []string{"arith", "sum", "lin", "inf", "two"} {
			if r.p(45) && !(k == "two" && r.p(50)) {
				p.Ops = append(p.Ops, genSpecOp(r, k))
			}
		}
	}
	for i := 2 + r.n(4); i > 0; i-- {
		p.Ops = append(p.Ops, Op{K: "attack", N: []int64{int64(r.n(10)), int64(r.n(6)), int64(r.n(4)) / 3, int64(r.n(6))}})
	}
	return p
}

func scriptB05(i int, tier string) *Plan {
	p := &Plan{Kind: "matrix", Cfg: map[string]int64{"field": int64(i % numFields), "logn": 3, "form": int64(i % 2), "crs": int64(i)}}
	at := func(kind string, n ...int64) {
		for j, k := range b05Attacks {
			if k == kind {
				p.Ops = append(p.Ops, Op{K: "attack", N: append([]int64{int64(j)}, n...), Seed: uint64(100*i + len(p.Ops))})
			}
		}
	}
	if i < 2 {
		// The rank at which projections are real.
		p.Kind, p.Cfg["logn"], p.Cfg["field"] = "projection", 11, int64(1+i)
		p.Ops = []Op{{K: "approx", N: []int64{int64(1 + i)}, Seed: 2}}
		if i == 1 {
			p.Ops = append(p.Ops, Op{K: "sum", N: []int64{1, 0, 1, 1}, Seed: 3})
		}
		at([]string{"projection-digits", "projection-zero"}[i])
		at([]string{"projection-values", "degree-sum"}[i])
		return p
	}
	i -= 2
	if i < 2 {
		// Two projections, the second of which is attacked.
		p.Kind, p.Cfg["logn"], p.Cfg["field"] = "projection", 11, int64(2-i)
		p.Ops = []Op{{K: "approx", N: []int64{int64(2 - i)}, Seed: 2}, {K: "approx", N: []int64{int64(1 + i)}, Seed: 3}}
		at([]string{"projection-digits", "projection-values"}[i], 1)
		at([]string{"projection-values", "projection-zero"}[i], 1)
		return p
	}
	i -= 2
	switch {
	case i < 2*numFields:
		// One sum and one linear relation: every variant of the attacks on degrees, masks and sums.
		p.Ops = append(p.Ops, Op{K: "wit", N: []int64{0}, Seed: 1}, Op{K: "sum", N: []int64{2, int64(i % 5), 2, int64(i % 2)}, Seed: uint64(i)}, Op{K: "lin", N: []int64{int64(i % 6)}, Seed: uint64(i)})
		if i%2 == 1 {
			p.Ops = append(p.Ops, Op{K: "arith", N: []int64{2, 1, 0, 3}, Seed: uint64(i)})
		}
		for k := int64(i % 2); k < 6; k += 2 {
			at("degree-sum", 0, k/2%2, k)
			at("degree-lin", 0, (k/2+1)%2, k)
		}
		at("degree-sum", 0, 0, 0)
		at("degree-lin", 0, 0, 0)
		at("degree-sum", 0, 0, 1)
		at("degree-lin", 0, 0, 1)
		for _, k := range []string{"mask-sum", "mask-lin", "late-sum", "late-lin", "weaker", "lie-evals", "lie-evals"} {
			at(k)
		}
	case i < 4*numFields:
		// Digits, of bounds of every length.
		p.Ops = append(p.Ops, Op{K: "inf", N: []int64{int64(2 + i%8)}, Seed: uint64(i)}, Op{K: "inf", N: []int64{int64(11 + i%7)}, Seed: uint64(i + 1)},
			Op{K: "two", N: []int64{int64(i % 14)}, Seed: uint64(i + 2)})
		for k := int64(0); k < 4; k++ {
			at("digit-inf", k%2)
			at("digit-two", 0)
		}
	case i < 5*numFields:
		// Many sums and relations, of which one is wrong.
		for k := int64(0); k < 3; k++ {
			p.Ops = append(p.Ops, Op{K: "sum", N: []int64{1 + k, k, 1, k}, Seed: uint64(i) + uint64(k)}, Op{K: "lin", N: []int64{k + int64(i), 0}, Seed: uint64(k)},
				Op{K: "arith", N: []int64{2, k, 0, 2}, Seed: uint64(k)})
		}
		for k := int64(0); k < 9; k += 2 {
			at("weaker", k+int64(i%2))
		}
		for k := int64(0); k < 3; k++ {
			at("mask-sum", k)
			at("mask-lin", k)
		}
	default:
		return nil
	}
	return p
}

func init() {
	register(&Prop{
		ID: "B05", Script: scriptB05, Gen: genB05, Exec: dispatchB05,
		Rule: fmt.Sprintf("circuits as for B01 x assignments that violate them x %d strategies of a prover that controls what it encodes, commits to, evaluates and claims, "+
			"with what is known at the time: digits out of range, remainders of too high a degree, masks and claims that make up for an error, other circuits of the "+
			"same layout, wrong projections, wrong evaluations; counted when the deviation took place", len(b05Attacks)),
		Real: snarkReal,
		Stub: []string{"entropy source", "the deviating steps of the prover"},
	})
}
