package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
)

// Circuits: a specification of constraints, which also knows how to fill in satisfying
// assignments, and a reference model of what the constraints mean, in math/big.

// term is a term of an arithmetic constraint.
type term struct {
	coef *big.Int
	// how is which call adds it: 0 with a constant, 1 AddTerm, 2 SubTerm.
	how int
	pw  int
	w   []int
}

// con is a constraint.
type con struct {
	kind  string // arith, sum, lin, inf, two, approx
	terms []term
	sum   *big.Int
	// prefix is how many terms this constraint takes over from the one before it,
	// by copying it before its own terms are added.
	prefix int
	out, in,
	chk int
	w     int
	bound *big.Int
	// slot is the value that was made to satisfy the constraint, -1 if there is none.
	slot int
	// sgn is the sign with which that value enters.
	sgn int64
}

// checker is a linear relation, with a reference for it.
type checker[E bignum.Uint[E]] struct {
	name string
	lc   buckler.LinearChecker[E]
	ref  func(v []*big.Int) []*big.Int
}

// asg is an assignment.
type asg struct{ P, W [][]*big.Int }

func (a *asg) clone() *asg {
	cp := func(l [][]*big.Int) [][]*big.Int {
		m := make([][]*big.Int, len(l))
		for i := range l {
			for _, x := range l[i] {
				m[i] = append(m[i], new(big.Int).Set(x))
			}
		}
		return m
	}
	return &asg{cp(a.P), cp(a.W)}
}

// slot is a value of the assignment and how it is filled in.
type slot struct {
	pw   bool
	fill func(d *Rng, a *asg) []*big.Int
}

// spec is a circuit.
type spec[E bignum.Uint[E]] struct {
	id, rank int
	form     int64
	m        *big.Int
	slots    []slot
	nP, nW   int
	cons     []*con
	chks     []checker[E]
	// maxAbs bounds the absolute values of a witness, if that is known.
	maxAbs map[int]*big.Int
	eval   *bigpoly.CyclotomicEvaluator[E]
	// asAliased makes Define reuse and overwrite what it passes in.
	alias bool
	// lay is the layout of its proofs, once it is known.
	lay layout
}

// specs are the circuits of the current run.
var specs = map[int]any{}

func newSpec[E bignum.Uint[E]](rank int, form int64) *spec[E] {
	s := &spec[E]{id: len(specs), rank: rank, form: form, m: modulus[E](), maxAbs: map[int]*big.Int{}}
	specs[s.id] = s
	return s
}

func (s *spec[E]) addP(fill func(d *Rng, a *asg) []*big.Int) int {
	s.slots = append(s.slots, slot{true, fill})
	s.nP++
	return s.nP - 1
}

func (s *spec[E]) addW(fill func(d *Rng, a *asg) []*big.Int) int {
	s.slots = append(s.slots, slot{false, fill})
	s.nW++
	return s.nW - 1
}

// fill makes a satisfying assignment.
func (s *spec[E]) fill(seed uint64) *asg { return s.fillWith(seed, nil) }

// fillWith makes an assignment in which some values are changed, and those that come later follow.
func (s *spec[E]) fillWith(seed uint64, tweak map[int]func(v []*big.Int)) *asg {
	a := &asg{}
	for i, sl := range s.slots {
		v := sl.fill(newRng(mix(seed, uint64(i))), a)
		if t := tweak[i]; t != nil {
			for _, x := range v {
				x.Mod(x, s.m)
			}
			t(v)
		}
		for _, x := range v {
			x.Mod(x, s.m)
		}
		if sl.pw {
			a.P = append(a.P, v)
		} else {
			a.W = append(a.W, v)
		}
	}
	return a
}

// pattern draws a vector of field elements.
func (s *spec[E]) pattern(d *Rng, pat int) []*big.Int {
	v := make([]*big.Int, s.rank)
	for i, e := range randVec[E](d, s.rank, pat) {
		v[i] = bigOf(e)
	}
	return v
}

// within draws a vector of integers of absolute value at most b, often reaching it.
func (s *spec[E]) within(d *Rng, b *big.Int) []*big.Int {
	v := make([]*big.Int, s.rank)
	mode := d.n(5)
	w := new(big.Int).Lsh(b, 1)
	w.Add(w, big.NewInt(1))
	for i := range v {
		v[i] = new(big.Int).SetBytes(d.bytes(len(w.Bytes()) + 8))
		v[i].Mod(v[i], w)
		v[i].Sub(v[i], b)
		switch {
		case mode == 0, mode == 1 && d.p(40):
			v[i].Set(b)
			if d.p(50) {
				v[i].Neg(v[i])
			}
		case mode == 2:
			v[i].SetInt64(0)
		}
	}
	if mode == 2 {
		v[d.n(len(v))].Set(b)
		v[d.n(len(v))].Neg(b)
	}
	return v
}

// withNorm draws a vector of integers with sum of squares at most b, often equal to it.
func (s *spec[E]) withNorm(d *Rng, b *big.Int) []*big.Int {
	v := make([]*big.Int, s.rank)
	left := new(big.Int).Set(b)
	full := d.p(60)
	t := new(big.Int)
	for i := range v {
		v[i] = new(big.Int)
	}
	start := d.n(len(v))
	for k := range v {
		i := (start + k) % len(v)
		r := new(big.Int).Sqrt(left)
		if r.Sign() == 0 {
			break
		}
		rest := int64(len(v) - k)
		switch {
		case full && left.Cmp(big.NewInt(rest)) <= 0:
			// Ones make up what is left.
			v[i].SetInt64(1)
		case full && d.p(70):
			v[i].Set(r)
		default:
			v[i].SetBytes(d.bytes(len(r.Bytes()) + 2))
			v[i].Mod(v[i], t.Add(r, big.NewInt(1)))
		}
		left.Sub(left, t.Mul(v[i], v[i]))
		if d.p(50) {
			v[i].Neg(v[i])
		}
	}
	return v
}

func (s *spec[E]) centred(x *big.Int) *big.Int {
	c := new(big.Int).Set(x)
	if c.Cmp(new(big.Int).Rsh(s.m, 1)) > 0 {
		c.Sub(c, s.m)
	}
	return c
}

// rows evaluates terms on each row.
func (s *spec[E]) rows(ts []term, a *asg) []*big.Int {
	out := make([]*big.Int, s.rank)
	t := new(big.Int)
	for i := range out {
		out[i] = new(big.Int)
		for _, tm := range ts {
			t.Set(tm.coef)
			if tm.pw >= 0 {
				t.Mul(t, a.P[tm.pw][i])
			}
			for _, w := range tm.w {
				t.Mul(t, a.W[w][i])
				t.Mod(t, s.m)
			}
			out[i].Add(out[i], t)
		}
		out[i].Mod(out[i], s.m)
	}
	return out
}

// Verdicts of the reference model.
const (
	holds = iota
	violated
	unclear
)

// check is the reference model of one constraint.
func (s *spec[E]) check(c *con, a *asg) int {
	bad := func(b bool) int {
		if b {
			return violated
		}
		return holds
	}
	switch c.kind {
	case "arith":
		for _, x := range s.rows(c.terms, a) {
			if x.Sign() != 0 {
				return violated
			}
		}
	case "sum":
		t := new(big.Int)
		for _, x := range s.rows(c.terms, a) {
			t.Add(t, x)
		}
		t.Sub(t, c.sum)
		return bad(t.Mod(t, s.m).Sign() != 0)
	case "lin":
		want := s.chks[c.chk].ref(a.W[c.in])
		for i := range want {
			if want[i].Cmp(a.W[c.out][i]) != 0 {
				return violated
			}
		}
	case "inf":
		for _, x := range a.W[c.w] {
			if y := s.centred(x); y.Abs(y).Cmp(c.bound) > 0 {
				return violated
			}
		}
	case "two":
		t, u := new(big.Int), new(big.Int)
		for _, x := range a.W[c.w] {
			t.Add(t, u.Mul(x, x))
		}
		return bad(t.Mod(t, s.m).Cmp(c.bound) > 0)
	case "approx":
		v := holds
		slack := new(big.Int).Mul(c.bound, big.NewInt(int64(4*s.rank)))
		for _, x := range a.W[c.w] {
			y := s.centred(x)
			switch y.Abs(y); {
			case y.Cmp(slack) > 0:
				return violated
			case y.Cmp(c.bound) > 0:
				v = unclear
			}
		}
		return v
	}
	return holds
}

// judge returns the reference verdict for an assignment, and a violated constraint.
func (s *spec[E]) judge(a *asg) (verdict, at int) {
	at = -1
	for i, c := range s.cons {
		switch s.check(c, a) {
		case violated:
			return violated, i
		case unclear:
			verdict = unclear
		}
	}
	return verdict, at
}

// sparse is a linear relation given by its entries.
type sparse[E bignum.Uint[E]] struct {
	row, col []int
	val      []E
}

func (c *sparse[E]) TransformTo(vOut, v []E) {
	var t E
	t = t.New()
	for i := range vOut {
		vOut[i].SetUint64(0)
	}
	for i := range c.row {
		t.Mul(c.val[i], v[c.col[i]])
		vOut[c.row[i]].Add(vOut[c.row[i]], t)
	}
}

func (c *sparse[E]) TransposeTo(vOut, v []E) {
	var t E
	t = t.New()
	for i := range vOut {
		vOut[i].SetUint64(0)
	}
	for i := range c.row {
		t.Mul(c.val[i], v[c.row[i]])
		vOut[c.col[i]].Add(vOut[c.col[i]], t)
	}
}

func (s *spec[E]) elems(v []*big.Int) []E {
	l := make([]E, len(v))
	for i := range v {
		l[i] = elemOf[E](v[i])
	}
	return l
}

func bigs[E bignum.Uint[E]](v []E) []*big.Int {
	l := make([]*big.Int, len(v))
	for i := range v {
		l[i] = bigOf(v[i])
	}
	return l
}

// addChecker makes a linear relation.
func (s *spec[E]) addChecker(d *Rng, kind int64) int {
	n := s.rank
	if s.eval == nil {
		s.eval = bigpoly.NewCyclotomicEvaluator[E](n)
	}
	ev := s.eval
	switch kind % 6 {
	case 0:
		s.chks = append(s.chks, checker[E]{"ntt", buckler.NewNTTChecker[E](n), func(v []*big.Int) []*big.Int {
			return bigs(ev.NTT(&bigpoly.Poly[E]{Coeffs: s.elems(v)}).Coeffs)
		}})
	case 1, 2:
		idx := 1 + 2*d.n(n)
		aut := func(v []*big.Int) []*big.Int {
			out := make([]*big.Int, n)
			for i := range v {
				j := i * idx % (2 * n)
				out[j%n] = new(big.Int).Set(v[i])
				if j >= n {
					out[j-n].Neg(v[i]).Mod(out[j-n], s.m)
				}
			}
			return out
		}
		if kind%6 == 1 {
			s.chks = append(s.chks, checker[E]{"aut", buckler.NewAutChecker(ev, idx, false), aut})
			break
		}
		s.chks = append(s.chks, checker[E]{"autntt", buckler.NewAutChecker(ev, idx, true), func(v []*big.Int) []*big.Int {
			p := ev.InvNTT(&bigpoly.Poly[E]{Coeffs: s.elems(v), IsNTT: true})
			return bigs(ev.NTT(&bigpoly.Poly[E]{Coeffs: s.elems(aut(bigs(p.Coeffs)))}).Coeffs)
		}})
	default:
		c := &sparse[E]{}
		var val []*big.Int
		add := func(i, j int, x *big.Int) {
			x.Mod(x, s.m)
			c.row, c.col, c.val = append(c.row, i), append(c.col, j), append(c.val, elemOf[E](x))
			val = append(val, x)
		}
		switch kind % 6 {
		case 3:
			// A signed permutation.
			p := make([]int, n)
			for i := range p {
				j := d.n(i + 1)
				p[i] = p[j]
				p[j] = i
			}
			for i := range p {
				add(i, p[i], big.NewInt(int64(1-2*d.n(2))))
			}
		case 4:
			// Two of its rows are zero, and some of its columns.
			for i := 2; i < n; i++ {
				for k := 0; k < 3; k++ {
					add(i, d.n(n), bigOf(randElem[E](d)))
				}
			}
		case 5:
			// A matrix with one full row and one full column.
			r, cc := d.n(n), d.n(n)
			for i := 0; i < n; i++ {
				add(r, i, bigOf(randElem[E](d)))
				if i != r {
					add(i, cc, bigOf(randElem[E](d)))
				}
			}
		}
		s.chks = append(s.chks, checker[E]{"sparse", c, func(v []*big.Int) []*big.Int {
			out := make([]*big.Int, n)
			t := new(big.Int)
			for i := range out {
				out[i] = new(big.Int)
			}
			for i := range c.row {
				out[c.row[i]].Add(out[c.row[i]], t.Mul(val[i], v[c.col[i]]))
			}
			for i := range out {
				out[i].Mod(out[i], s.m)
			}
			return out
		}})
	}
	return len(s.chks) - 1
}

var infBounds = []string{"0", "1", "2", "3", "4", "5", "7", "8", "15", "16", "17", "100", "255", "256", "1000", "1048575", "1048576", "1048577",
	"4294967296", "18446744073709551615", "18446744073709551616"}
var twoBounds = []string{"0", "1", "2", "3", "4", "7", "8", "10", "15", "16", "100", "127", "128", "255", "256", "1000", "4096", "65535", "65536", "1000003"}

func bigStr(s string) *big.Int { b, _ := new(big.Int).SetString(s, 10); return b }

// terms draws terms over the witnesses there are.
func (s *spec[E]) drawTerms(d *Rng, n, maxDeg int) []term {
	var ts []term
	for ; n > 0; n-- {
		t := term{how: d.n(3), pw: -1}
		switch t.how {
		case 1:
			t.coef = big.NewInt(1)
		case 2:
			t.coef = big.NewInt(-1)
		default:
			t.coef = pick(d, []*big.Int{big.NewInt(1), big.NewInt(-1), big.NewInt(2), big.NewInt(int64(d.n(1000))), bigOf(randElem[E](d))})
		}
		if s.nP > 0 && d.p(40) {
			t.pw = d.n(s.nP)
		}
		if s.nW > 0 {
			for k := d.n(maxDeg + 1); k > 0; k-- {
				t.w = append(t.w, d.n(s.nW))
			}
		}
		ts = append(ts, t)
	}
	return ts
}

// add adds a constraint, with the values that it needs, from an operation of a plan.
func (s *spec[E]) add(o Op) bool {
	nc, ns := len(s.cons), len(s.slots)
	ok := s.addOp(o)
	for _, c := range s.cons[nc:] {
		c.slot = -1
		if len(s.slots) > ns {
			c.slot = len(s.slots) - 1
		} else if c.bound != nil {
			// The norm of a value that was there already.
			for i, k := 0, 0; i < len(s.slots); i++ {
				if s.slots[i].pw {
					continue
				}
				if k == c.w {
					c.slot = i
				}
				k++
			}
		}
		if c.sgn == 0 {
			c.sgn = 1
		}
	}
	return ok
}

func (s *spec[E]) addOp(o Op) bool {
	d := newRng(o.Seed)
	one, neg := big.NewInt(1), big.NewInt(-1)
	fromPattern := func(pat int) func(*Rng, *asg) []*big.Int {
		return func(d *Rng, _ *asg) []*big.Int { return s.pattern(d, pat) }
	}
	switch o.K {
	case "wit":
		s.addW(fromPattern(int(o.n(0)) % numPats))
	case "pub":
		s.addP(fromPattern(int(o.n(0)) % numPats))

	case "arith":
		// N: number of terms, how the rows are made zero, share a prefix with the last one
		c := &con{kind: "arith"}
		if last := len(s.cons) - 1; o.n(2) == 1 && last >= 0 && s.cons[last].kind == "arith" && len(s.cons[last].terms) > 1 {
			c.prefix = len(s.cons[last].terms) - 1
			c.terms = append(c.terms, s.cons[last].terms[:c.prefix]...)
		}
		maxDeg := 1 + int(o.n(3))%5
		c.terms = append(c.terms, s.drawTerms(d, int(o.n(0))%5, maxDeg)...)
		open := append([]term(nil), c.terms...)
		switch o.n(1) % 4 {
		case 0:
			// A public value is minus the sum.
			p := s.addP(func(_ *Rng, a *asg) []*big.Int {
				v := s.rows(open, a)
				for _, x := range v {
					x.Neg(x)
				}
				return v
			})
			c.terms = append(c.terms, term{one, 1, p, nil})
		case 1:
			// A witness is the sum.
			w := s.addW(func(_ *Rng, a *asg) []*big.Int { return s.rows(open, a) })
			c.terms = append(c.terms, term{neg, 2, -1, []int{w}})
			c.sgn = -1
		case 2:
			// A public value times a witness without zeros is minus the sum.
			w := s.addW(func(d *Rng, _ *asg) []*big.Int {
				v := s.pattern(d, patRandom)
				for i := range v {
					if v[i].Sign() == 0 {
						v[i].SetInt64(1)
					}
				}
				return v
			})
			p := s.addP(func(_ *Rng, a *asg) []*big.Int {
				v := s.rows(open, a)
				for i, x := range v {
					x.Mul(x.Neg(x), new(big.Int).ModInverse(a.W[w][i], s.m))
				}
				return v
			})
			c.terms = append(c.terms, term{one, int(d.n(2)), p, []int{w}})
		case 3:
			// The same terms, with their factors in another order.
			for _, t := range open {
				n := term{new(big.Int).Neg(t.coef), 0, t.pw, nil}
				for i := len(t.w) - 1; i >= 0; i-- {
					n.w = append(n.w, t.w[i])
				}
				c.terms = append(c.terms, n)
			}
			if len(open) == 0 {
				return false
			}
		}
		s.cons = append(s.cons, c)

	case "sum":
		// N: number of terms, kind of sum
		c := &con{kind: "sum"}
		maxDeg := 1 + int(o.n(2))%5
		c.terms = s.drawTerms(d, int(o.n(0))%4, maxDeg)
		switch o.n(1) % 5 {
		case 0:
			c.sum = new(big.Int)
		case 1:
			c.sum = big.NewInt(1 + int64(d.n(1000000)))
		case 2:
			c.sum = new(big.Int).SetUint64(^uint64(0) - uint64(d.n(3)))
		case 3:
			c.sum = bigOf(randElem[E](d))
		case 4:
			// A representative outside of [0, p).
			c.sum = new(big.Int).Add(bigOf(randElem[E](d)), s.m)
			if d.p(50) {
				c.sum.Sub(c.sum, new(big.Int).Lsh(s.m, 1))
			}
		}
		open := append([]term(nil), c.terms...)
		close := func(d *Rng, a *asg) []*big.Int {
			t := new(big.Int).Set(c.sum)
			for _, x := range s.rows(open, a) {
				t.Sub(t, x)
			}
			v := s.pattern(d, pick(d, []int{patRandom, patZero, patSmall}))
			for _, x := range v {
				t.Sub(t, x)
			}
			i := d.n(s.rank)
			v[i].Add(v[i], t)
			return v
		}
		if o.n(3)%2 == 0 {
			c.terms = append(c.terms, term{one, d.n(2), s.addP(close), nil})
		} else {
			c.terms = append(c.terms, term{one, d.n(2), -1, []int{s.addW(close)}})
		}
		s.cons = append(s.cons, c)

	case "lin":
		// N: kind of relation, reuse the last one
		if s.nW == 0 {
			s.addW(fromPattern(patRandom))
		}
		k := len(s.chks) - 1
		if o.n(1) == 0 || k < 0 {
			k = s.addChecker(d, o.n(0))
		}
		in := d.n(s.nW)
		out := s.addW(func(_ *Rng, a *asg) []*big.Int { return s.chks[k].ref(a.W[in]) })
		s.cons = append(s.cons, &con{kind: "lin", out: out, in: in, chk: k})

	case "inf", "approx", "two":
		// N: bound, use a witness that is there already, add a looser bound too
		var b *big.Int
		switch o.K {
		case "two":
			b = bigStr(twoBounds[int(o.n(0))%len(twoBounds)])
		case "approx":
			b = big.NewInt(o.n(0) % 20)
		default:
			b = bigStr(infBounds[int(o.n(0))%len(infBounds)])
			if k := o.n(0) - 1000; k >= 0 {
				// A share of the field, up to all of it.
				den := []int64{2, 3, 4, 5}[k%4]
				b.Sub(s.m, big.NewInt(1))
				b.Div(b, big.NewInt(den))
			}
		}
		w := -1
		if o.n(1) == 1 {
			for i := s.nW - 1; i >= 0; i-- {
				if s.maxAbs[i] == nil || (w >= 0 && d.p(50)) {
					continue
				}
				w = i
			}
			if w >= 0 {
				m := s.maxAbs[w]
				if o.K == "two" {
					b2 := new(big.Int).Mul(m, m)
					b2.Mul(b2, big.NewInt(int64(s.rank)))
					if b2.Cmp(b) > 0 {
						b = b2
					}
				} else if m.Cmp(b) > 0 {
					b.Set(m)
				}
			}
		}
		if o.K == "two" && (b.BitLen() > s.rank || b.BitLen() > s.m.BitLen()-2) {
			return false
		}
		if w < 0 {
			if o.K == "two" {
				w = s.addW(func(d *Rng, _ *asg) []*big.Int { return s.withNorm(d, b) })
				s.maxAbs[w] = new(big.Int).Sqrt(b)
			} else {
				w = s.addW(func(d *Rng, _ *asg) []*big.Int { return s.within(d, b) })
				s.maxAbs[w] = b
			}
		}
		if o.n(2) == 1 {
			// A looser bound on the same witness, before the tight one.
			b2 := new(big.Int).Lsh(b, 1)
			b2.Add(b2, big.NewInt(1))
			if o.K != "two" || (b2.BitLen() <= s.rank && b2.BitLen() <= s.m.BitLen()-2) {
				s.cons = append(s.cons, &con{kind: o.K, w: w, bound: b2})
			}
		}
		s.cons = append(s.cons, &con{kind: o.K, w: w, bound: b})
	default:
		return false
	}
	return true
}

// isSpecOp tells whether an operation belongs to the circuit.
func isSpecOp(k string) bool {
	switch k {
	case "wit", "pub", "arith", "sum", "lin", "inf", "two", "approx":
		return true
	}
	return false
}

// specOf builds the circuit of a plan.
func specOf[E bignum.Uint[E]](p *Plan, ops []Op) *spec[E] {
	rank := 1 << uint(max(1, p.Cfg["logn"]))
	s := newSpec[E](rank, p.Cfg["form"])
	s.alias = p.Cfg["alias"] == 1
	for _, o := range ops {
		if isSpecOp(o.K) {
			s.add(o)
		}
	}
	if len(s.cons) == 0 {
		s.add(Op{K: "inf", N: []int64{1}, Seed: 1})
	}
	return s
}

// define tells the library the circuit.
func (s *spec[E]) define(ctx *buckler.Context[E], P []buckler.PublicWitness[E], W []buckler.Witness[E]) {
	var last buckler.ArithmeticConstraint[E]
	coef := elemInt[E](0)
	for _, c := range s.cons {
		switch c.kind {
		case "arith", "sum":
			var a buckler.ArithmeticConstraint[E]
			if c.prefix > 0 {
				a = last
			}
			for i, t := range c.terms[c.prefix:] {
				if i == len(c.terms)-c.prefix-1 {
					last = a
				}
				var p buckler.PublicWitness[E]
				if t.pw >= 0 {
					p = P[t.pw]
				}
				var w []buckler.Witness[E]
				for _, k := range t.w {
					w = append(w, W[k])
				}
				switch t.how {
				case 1:
					a.AddTerm(p, w...)
				case 2:
					a.SubTerm(p, w...)
				default:
					if !s.alias {
						coef = elemInt[E](0)
					}
					coef.SetBigInt(t.coef)
					a.AddTermWithConst(coef, p, w...)
				}
			}
			switch {
			case c.kind == "arith":
				ctx.AddArithmeticConstraint(a)
			case c.sum.IsUint64() && c.sum.Bit(0) == 0:
				ctx.AddSumCheckConstraint(a, c.sum.Uint64())
			default:
				b := new(big.Int).Set(c.sum)
				ctx.AddSumCheckConstraintBig(a, b)
				if s.alias {
					b.SetInt64(17)
				}
			}
		case "lin":
			ctx.AddLinearConstraint(W[c.out], W[c.in], s.chks[c.chk].lc)
		default:
			b := new(big.Int).Set(c.bound)
			small := b.IsUint64() && b.Bit(1) == 0
			switch {
			case c.kind == "inf" && small:
				ctx.AddInfNormConstraint(W[c.w], b.Uint64())
			case c.kind == "inf":
				ctx.AddInfNormConstraintBig(W[c.w], b)
			case c.kind == "two" && small:
				ctx.AddSqTwoNormConstraint(W[c.w], b.Uint64())
			case c.kind == "two":
				ctx.AddSqNormConstraintBig(W[c.w], b)
			case small:
				ctx.AddApproxInfNormConstraint(W[c.w], b.Uint64())
			default:
				ctx.AddApproxInfNormConstraintBig(W[c.w], b)
			}
			if s.alias {
				b.SetInt64(3)
			}
		}
	}
	if s.alias {
		coef.SetInt64(12345)
	}
}

// circ is a circuit with its values.
type circ[E bignum.Uint[E]] interface {
	buckler.Circuit[E]
	refs() ([]*buckler.PublicWitness[E], []*buckler.Witness[E])
}

// flatC has its values in two slices.
type flatC[E bignum.Uint[E]] struct {
	ID int
	P  []buckler.PublicWitness[E]
	W  []buckler.Witness[E]
}

// nestC has its values in structs, arrays, pointers and interfaces, in a mixed order.
type nestC[E bignum.Uint[E]] struct {
	Tail []nestPart[E]
	Head buckler.Witness[E]
	Note string
	Mid  struct {
		Q [2]buckler.PublicWitness[E]
		V buckler.Witness[E]
	}
	ID   int
	Ptr  *nestPart[E]
	Any  any
	None *nestPart[E]
	Rest [1][]buckler.Witness[E]
	Nil  any
	Last buckler.PublicWitness[E]
}

type nestPart[E bignum.Uint[E]] struct {
	W buckler.Witness[E]
	P []buckler.PublicWitness[E]
}

func (c *flatC[E]) refs() (p []*buckler.PublicWitness[E], w []*buckler.Witness[E]) {
	for i := range c.P {
		p = append(p, &c.P[i])
	}
	for i := range c.W {
		w = append(w, &c.W[i])
	}
	return p, w
}

func (c *nestC[E]) refs() (p []*buckler.PublicWitness[E], w []*buckler.Witness[E]) {
	w = append(w, &c.Head, &c.Mid.V, &c.Ptr.W, &c.Any.(*nestPart[E]).W)
	p = append(p, &c.Last, &c.Mid.Q[1], &c.Mid.Q[0])
	for i := range c.Tail {
		w = append(w, &c.Tail[i].W)
		for j := range c.Tail[i].P {
			p = append(p, &c.Tail[i].P[j])
		}
	}
	for i := range c.Rest[0] {
		w = append(w, &c.Rest[0][i])
	}
	for i := range c.Ptr.P {
		p = append(p, &c.Ptr.P[i])
	}
	return p, w
}

func defineBy[E bignum.Uint[E]](c circ[E], id int, ctx *buckler.Context[E]) {
	p, w := c.refs()
	var P []buckler.PublicWitness[E]
	var W []buckler.Witness[E]
	for i := range p {
		P = append(P, *p[i])
	}
	for i := range w {
		W = append(W, *w[i])
	}
	specs[id].(*spec[E]).define(ctx, P, W)
}

func (c *flatC[E]) Define(ctx *buckler.Context[E]) { defineBy[E](c, c.ID, ctx) }
func (c *nestC[E]) Define(ctx *buckler.Context[E]) { defineBy[E](c, c.ID, ctx) }

// empty returns a circuit without values, as it is compiled.
func (s *spec[E]) empty() circ[E] {
	if s.form%2 == 0 {
		return &flatC[E]{ID: s.id, P: make([]buckler.PublicWitness[E], s.nP), W: make([]buckler.Witness[E], s.nW)}
	}
	c := &nestC[E]{ID: s.id, Note: "x", Ptr: &nestPart[E]{}, Any: &nestPart[E]{}}
	left := max(0, s.nW-4)
	t := min(left, 2)
	c.Tail = make([]nestPart[E], t)
	c.Rest[0] = make([]buckler.Witness[E], left-t)
	pl := max(0, s.nP-3)
	if t > 0 {
		c.Tail[t-1].P = make([]buckler.PublicWitness[E], min(pl, 1))
		pl -= min(pl, 1)
	}
	c.Ptr.P = make([]buckler.PublicWitness[E], pl)
	return c
}

// assign returns a circuit with values. Without secrets it only has the public ones.
func (s *spec[E]) assign(a *asg, secrets bool) circ[E] {
	c := s.empty()
	p, w := c.refs()
	zero := make([]*big.Int, s.rank)
	for i := range zero {
		zero[i] = new(big.Int)
	}
	for i := range p {
		v := zero
		if i < len(a.P) {
			v = a.P[i]
		}
		*p[i] = s.elems(v)
	}
	for i := range w {
		if !secrets {
			break
		}
		v := zero
		if i < len(a.W) {
			v = a.W[i]
		}
		*w[i] = s.elems(v)
	}
	return c
}

// compile builds a prover and a verifier, as one process does.
func (s *spec[E]) compile(crs []byte) (*buckler.Prover[E], *buckler.Verifier[E], error) {
	crs, reuse := crsCopy(crs, 0x3c)
	defer reuse()
	return buckler.Compile[E](s.rank, s.empty(), crs)
}

func (s *spec[E]) kinds() string {
	m := map[string]int{}
	for _, c := range s.cons {
		m[c.kind]++
	}
	return fmt.Sprint(m)
}

// copySnark copies a proof.
func copySnark[E bignum.Uint[E]](p *buckler.Proof[E]) *buckler.Proof[E] {
	q := &buckler.Proof[E]{Witness: copyComs(p.Witness), Evals: copyVec(p.Evals), EvalProof: copyProof(p.EvalProof)}
	if !isNil(p.LinCheckMaskSum) {
		q.LinCheckMaskSum = p.LinCheckMaskSum.New().Set(p.LinCheckMaskSum)
	}
	if !isNil(p.SumCheckMaskSum) {
		q.SumCheckMaskSum = p.SumCheckMaskSum.New().Set(p.SumCheckMaskSum)
	}
	return q
}

func isNil[E any](x E) bool {
	var z E
	return any(x) == any(z)
}

func eqElem[E bignum.Uint[E]](a, b E) bool {
	if isNil(a) || isNil(b) {
		return isNil(a) && isNil(b)
	}
	return a.Cmp(b) == 0
}

func eqSnark[E bignum.Uint[E]](a, b *buckler.Proof[E]) bool {
	return eqComs(a.Witness, b.Witness) && eqElem(a.LinCheckMaskSum, b.LinCheckMaskSum) &&
		eqElem(a.SumCheckMaskSum, b.SumCheckMaskSum) && eqVec(a.Evals, b.Evals) && eqProof(a.EvalProof, b.EvalProof)
}

// wireSnark puts a proof on the wire.
func wireSnark[E bignum.Uint[E]](p *buckler.Proof[E]) []byte {
	var w bytes.Buffer
	put := func(b []byte) {
		binary.Write(&w, binary.LittleEndian, uint32(len(b)))
		w.Write(b)
	}
	opt := func(x E) {
		if isNil(x) {
			put(nil)
			return
		}
		put(x.Marshal())
	}
	binary.Write(&w, binary.LittleEndian, uint32(len(p.Witness)))
	put(wireComs(p.Witness))
	opt(p.LinCheckMaskSum)
	opt(p.SumCheckMaskSum)
	put(wireElems(p.Evals))
	put(wireProof(p.EvalProof))
	return w.Bytes()
}

func unwireSnark[E bignum.Uint[E]](b []byte) *buckler.Proof[E] {
	w := bytes.NewBuffer(b)
	var n uint32
	get := func() []byte {
		var sz uint32
		binary.Read(w, binary.LittleEndian, &sz)
		return w.Next(int(sz))
	}
	opt := func() (x E) {
		if b := get(); len(b) > 0 {
			x = x.New()
			x.Unmarshal(b)
		}
		return x
	}
	binary.Read(w, binary.LittleEndian, &n)
	p := &buckler.Proof[E]{}
	p.Witness = unwireComs(get(), int(n))
	p.LinCheckMaskSum = opt()
	p.SumCheckMaskSum = opt()
	p.Evals = unwireElems[E](get(), int(n))
	p.EvalProof = unwireProof(get())
	return p
}

// proveCirc and verifyCirc keep panics apart from results.
func proveCirc[E bignum.Uint[E]](p *buckler.Prover[E], c buckler.Circuit[E]) (pf *buckler.Proof[E], err error, pan any, stack string) {
	pan, stack = catch(func() { pf, err = p.Prove(c) })
	return
}

func verifyCirc[E bignum.Uint[E]](v *buckler.Verifier[E], c buckler.Circuit[E], pf *buckler.Proof[E]) (ok bool, pan any, stack string) {
	pan, stack = catch(func() { ok = v.Verify(c, pf) })
	return
}

// genSpecOps draws the circuit of a plan.
func genSpecOps(r *Rng, n int) []Op {
	var ops []Op
	for i := r.n(4); i > 0; i-- {
		ops = append(ops, Op{K: "wit", N: []int64{int64(r.n(numPats))}})
	}
	for i := r.n(3); i > 0; i-- {
		ops = append(ops, Op{K: "pub", N: []int64{int64(r.n(numPats))}})
	}
	// Most circuits have a few kinds of constraints.
	kinds := []string{"arith", "sum", "lin", "inf", "two", "approx"}
	var use []string
	for _, k := range kinds {
		if r.p(45) {
			use = append(use, k)
		}
	}
	if len(use) == 0 {
		use = []string{pick(r, kinds)}
	}
	for i := 0; i < n; i++ {
		ops = append(ops, genSpecOp(r, pick(r, use)))
	}
	return ops
}

func genSpecOp(r *Rng, k string) Op {
	o := Op{K: k}
	switch k {
	case "arith":
		o.N = []int64{int64(r.n(5)), int64(r.n(4)), int64(r.n(3)) / 2, pick(r, []int64{0, 1, 1, 2, 2, 3, 4})}
	case "sum":
		o.N = []int64{int64(r.n(4)), int64(r.n(5)), pick(r, []int64{0, 1, 1, 2, 2, 3}), int64(r.n(2))}
	case "lin":
		o.N = []int64{int64(r.n(6)), int64(r.n(2))}
	case "inf":
		b := r.n(len(infBounds))
		if r.p(60) {
			b = r.n(12)
		}
		o.N = []int64{int64(b), int64(r.n(4)) / 3, int64(r.n(5)) / 4}
	case "two":
		o.N = []int64{int64(r.n(len(twoBounds))), int64(r.n(4)) / 3, int64(r.n(5)) / 4}
	case "approx":
		o.N = []int64{int64(r.n(20)), int64(r.n(4)) / 3, int64(r.n(5)) / 4}
	}
	return o
}

// snarkCfg draws the rest of a plan.
func snarkCfg(r *Rng) map[string]int64 {
	c := map[string]int64{"field": int64(r.n(numFields)), "logn": int64(pick(r, []int{3, 3, 4, 4, 5, 5, 6, 7})), "form": int64(r.n(2)), "alias": int64(r.n(2)),
		"crs": crsLen(r)}
	if r.p(8) {
		c["logn"] = int64(1 + r.n(2))
	}
	return c
}
