package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/simhook"
)

// M01: ring evaluators, transformers and linear checkers that several threads share.

func dispatchM01(p *Plan, r *Run) {
	switch p.Cfg["field"] % numFields {
	case 0:
		execM01[f0](p, r)
	case 1:
		execM01[f1](p, r)
	case 2:
		execM01[f2](p, r)
	case 3:
		execM01[f3](p, r)
	case 4:
		execM01[f4](p, r)
	}
}

// evaluator is what both kinds of ring evaluators offer.
type evaluator[E bignum.Uint[E]] interface {
	NewPoly(isNTT bool) *bigpoly.Poly[E]
	Rank() int
	Add(p0, p1 *bigpoly.Poly[E]) *bigpoly.Poly[E]
	AddTo(pOut, p0, p1 *bigpoly.Poly[E])
	Sub(p0, p1 *bigpoly.Poly[E]) *bigpoly.Poly[E]
	SubTo(pOut, p0, p1 *bigpoly.Poly[E])
	Neg(p *bigpoly.Poly[E]) *bigpoly.Poly[E]
	NegTo(pOut, p *bigpoly.Poly[E])
	ScalarMul(p *bigpoly.Poly[E], c E) *bigpoly.Poly[E]
	ScalarMulTo(pOut, p *bigpoly.Poly[E], c E)
	ScalarMulAddTo(pOut, p *bigpoly.Poly[E], c E)
	ScalarMulSubTo(pOut, p *bigpoly.Poly[E], c E)
	Mul(p0, p1 *bigpoly.Poly[E]) *bigpoly.Poly[E]
	MulTo(pOut, p0, p1 *bigpoly.Poly[E])
	MulAddTo(pOut, p0, p1 *bigpoly.Poly[E])
	MulSubTo(pOut, p0, p1 *bigpoly.Poly[E])
	NTT(p *bigpoly.Poly[E]) *bigpoly.Poly[E]
	NTTTo(pOut, p *bigpoly.Poly[E])
	InvNTT(p *bigpoly.Poly[E]) *bigpoly.Poly[E]
	InvNTTTo(pOut, p *bigpoly.Poly[E])
}

type transformer[E bignum.Uint[E]] interface {
	FwdNTTTo(vOut, v []E)
	InvNTTTo(vOut, v []E)
	Rank() int
}

// domain is where a transform evaluates polynomials: the powers of its points.
type domain struct {
	m   *big.Int
	n   int
	pow [][]*big.Int
	at  map[string]int
	inv *big.Int
}

// newDomain makes the domain of the points that the polynomial X is transformed to. They
// have to be all the roots of X^n-1, or of X^n+1.
func newDomain(pts []*big.Int, m *big.Int, cyclotomic bool) (*domain, string) {
	n := len(pts)
	d := &domain{m: m, n: n, at: map[string]int{}, inv: new(big.Int).ModInverse(big.NewInt(int64(n)), m)}
	want := big.NewInt(1)
	if cyclotomic {
		want = new(big.Int).Sub(m, want)
	}
	for k, x := range pts {
		if new(big.Int).Exp(x, big.NewInt(int64(n)), m).Cmp(want) != 0 {
			return nil, fmt.Sprintf("X is transformed to something else than roots, at %d", k)
		}
		if _, ok := d.at[x.String()]; ok {
			return nil, fmt.Sprintf("X is transformed to the same root twice, at %d", k)
		}
		d.at[x.String()] = k
		row := make([]*big.Int, 2*n)
		row[0] = big.NewInt(1)
		for j := 1; j < 2*n; j++ {
			row[j] = new(big.Int).Mul(row[j-1], x)
			row[j].Mod(row[j], m)
		}
		d.pow = append(d.pow, row)
	}
	return d, ""
}

func (d *domain) fwd(v []*big.Int) []*big.Int {
	out := make([]*big.Int, d.n)
	t := new(big.Int)
	for k := range out {
		s := new(big.Int)
		for j := range v {
			s.Add(s, t.Mul(v[j], d.pow[k][j]))
		}
		out[k] = s.Mod(s, d.m)
	}
	return out
}

// back is the inverse of fwd, or its transpose.
func (d *domain) back(v []*big.Int, transpose bool) []*big.Int {
	out := make([]*big.Int, d.n)
	t := new(big.Int)
	for j := range out {
		s := new(big.Int)
		for k := range v {
			e := j
			if !transpose {
				e = (2*d.n - j) % (2 * d.n)
			}
			s.Add(s, t.Mul(v[k], d.pow[k][e]))
		}
		if !transpose {
			s.Mul(s, d.inv)
		}
		out[j] = s.Mod(s, d.m)
	}
	return out
}

// aut is the automorphism that maps X to X^idx.
func (d *domain) aut(v []*big.Int, idx int, isNTT bool) []*big.Int {
	n := d.n
	out := make([]*big.Int, n)
	e := ((idx % (2 * n)) + 2*n) % (2 * n)
	for i := range v {
		if isNTT {
			out[i] = v[d.at[d.pow[i][e].String()]]
			continue
		}
		j := (i * e) % (2 * n)
		if j < n {
			out[j] = v[i]
		} else {
			x := new(big.Int).Neg(v[i])
			out[j-n] = x.Mod(x, d.m)
		}
	}
	return out
}

const (
	m01Own    = 4
	m01Shared = 3
	m01Rings  = 4
)

// ring01 is a ring and the objects for it that the threads share.
type ring01[E bignum.Uint[E]] struct {
	cyclotomic bool
	n          int
	ev         evaluator[E]
	tr         transformer[E]
	aut        map[string]buckler.LinearChecker[E]
	nttc       buckler.LinearChecker[E]

	evDom, trDom, chkDom *domain
	shared               []*bigpoly.Poly[E]
}

func points01[E bignum.Uint[E]](n int, f func(vOut, v []E)) []*big.Int {
	v, w := make([]E, n), make([]E, n)
	for i := range v {
		v[i], w[i] = elemInt[E](0), elemInt[E](0)
	}
	v[1].SetInt64(1)
	f(w, v)
	return bigVec(w)
}

func bigVec[E bignum.Uint[E]](v []E) []*big.Int {
	out := make([]*big.Int, len(v))
	for i := range v {
		out[i] = bigOf(v[i])
	}
	return out
}

// step01 is an operation, with the slots it uses: those of the thread first, then the shared ones.
type step01 struct {
	op         int
	k          string
	ring       int
	dst, a, b  int
	dst2       int
	idx        int
	fresh      bool
	form       bool // of the sources
	seed       uint64
	otherField int
}

// done01 is what an operation left.
type done01[E bignum.Uint[E]] struct {
	dst, dst2 *bigpoly.Poly[E]
	val       E
	note      string
	bytes     []byte
}

func copyPoly[E bignum.Uint[E]](p *bigpoly.Poly[E]) *bigpoly.Poly[E] {
	return &bigpoly.Poly[E]{Coeffs: copyVec(p.Coeffs), IsNTT: p.IsNTT}
}

var autIdx = []int{1, 3, -1, 5, -3}

func (s *step01) autIdx(n int) int {
	d := newRng(mix(s.seed, 3))
	switch d.n(4) {
	case 0:
		return pick(d, autIdx)
	case 1:
		return 2*n - 1
	case 2:
		return (2*d.n(1<<40) + 1) * (1 - 2*d.n(2))
	}
	return 2*d.n(n) + 1
}

// resolve turns a thread's operations into steps that are allowed, given the forms of the slots.
func resolve01(p *Plan, nt, thread int) []step01 {
	var forms [m01Rings][m01Own + m01Shared]bool
	for i := range forms {
		for j := range forms[i] {
			forms[i][j] = j%2 == 1
		}
	}
	var out []step01
	for i, o := range p.Ops {
		if int(o.n(0))%nt != thread {
			continue
		}
		s := step01{op: i, k: o.K, ring: int(o.n(1)) % m01Rings, dst: int(o.n(2)) % m01Own, a: int(o.n(3)) % (m01Own + m01Shared),
			b: int(o.n(4)) % (m01Own + m01Shared), fresh: o.n(5)%2 == 1, seed: mix(p.Seed, o.Seed, uint64(i))}
		cyclotomic := s.ring%2 == 1
		f := &forms[s.ring]
		// with is the slot of a form that is next to another one.
		with := func(from int, want bool) int {
			for k := 0; k < len(f); k++ {
				if j := (from + k) % len(f); f[j] == want {
					return j
				}
			}
			return from
		}
		switch s.k {
		case "add", "sub":
			s.b = with(s.b, f[s.a])
			s.form = f[s.a]
		case "mul":
			s.a, s.b = with(s.a, true), with(s.b, true)
			s.form = true
		case "muladd", "mulsub":
			if !f[s.dst] {
				s.k = "ntt"
				s.a, s.fresh = s.dst, false
				break
			}
			s.a, s.b = with(s.a, true), with(s.b, true)
			s.form = true
		case "smuladd", "smulsub":
			s.a = with(s.a, f[s.dst])
			s.form = f[s.a]
		case "intt", "tr-inv":
			s.a = with(s.a, true)
			s.form = true
		case "ntt", "tr-fwd", "quorem", "eval":
			s.a = with(s.a, false)
		case "aut", "chk-aut", "chk-ntt", "modswitch":
			if !cyclotomic {
				s.k = "neg"
			}
		}
		if s.k == "quorem" && cyclotomic {
			s.k = "ntt"
		}
		if s.k == "quorem" {
			s.dst2 = (s.dst + 1) % m01Own
		}
		if s.k == "chk-aut" || s.k == "chk-ntt" {
			// No promise is made of checkers whose output is their input.
			if s.a == s.dst {
				s.a = m01Own
			}
		}
		switch s.k {
		case "neg", "smul", "aut", "copy", "chk-aut":
			s.form = f[s.a]
		}
		switch s.k {
		case "add", "sub", "neg", "smul", "aut", "copy", "chk-aut":
			f[s.dst] = s.form
		case "mul", "ntt", "tr-fwd":
			f[s.dst] = true
		case "intt", "tr-inv", "modswitch", "quorem", "chk-ntt", "bad":
			f[s.dst] = false
		case "clear":
			s.form = f[s.dst]
		}
		if s.k == "quorem" {
			f[s.dst2] = false
		}
		s.idx = i
		out = append(out, s)
	}
	return out
}

// other01 multiplies in rings of another field, or rank, that are made on the spot.
func other01(f int, seed uint64) string {
	switch f % numFields {
	case 0:
		return fresh01[f0](seed)
	case 1:
		return fresh01[f1](seed)
	case 2:
		return fresh01[f2](seed)
	case 3:
		return fresh01[f3](seed)
	}
	return fresh01[f4](seed)
}

func fresh01[E bignum.Uint[E]](seed uint64) string {
	d := newRng(seed)
	n := 2 << d.n(6)
	m := modulus[E]()
	cyclotomic := d.p(50)
	var ev evaluator[E]
	if cyclotomic {
		ev = bigpoly.NewCyclotomicEvaluator[E](n)
	} else {
		ev = bigpoly.NewCyclicEvaluator[E](n)
	}
	a, b := randVec[E](d, n, patRandom), randVec[E](d, n, patSparse)
	pa, pb := &bigpoly.Poly[E]{Coeffs: a}, &bigpoly.Poly[E]{Coeffs: b}
	pc := ev.InvNTT(ev.Mul(ev.NTT(pa), ev.NTT(pb)))
	want := make([]*big.Int, n)
	for i := range want {
		want[i] = new(big.Int)
	}
	t := new(big.Int)
	for i := range a {
		ai := bigOf(a[i])
		for j := range b {
			if k := i + j; k < n {
				want[k].Add(want[k], t.Mul(ai, bigOf(b[j])))
			} else if cyclotomic {
				want[k-n].Sub(want[k-n], t.Mul(ai, bigOf(b[j])))
			} else {
				want[k-n].Add(want[k-n], t.Mul(ai, bigOf(b[j])))
			}
		}
	}
	for i := range want {
		want[i].Mod(want[i], m)
		if len(pc.Coeffs) != n || bigOf(pc.Coeffs[i]).Cmp(want[i]) != 0 {
			return fmt.Sprintf("a product in a new ring of rank %d (cyclotomic %v) is wrong", n, cyclotomic)
		}
	}
	return ""
}

func (s *step01) scalar01(d *Rng) int64 { return int64(d.n(5)) - 2 }

func modSwitchInput(d *Rng, n int, m *big.Int) ([]*big.Int, *big.Int) {
	q := new(big.Int).SetBytes(d.bytes(1 + d.n(40)))
	if d.p(30) {
		q.SetInt64(int64(2 + d.n(30)))
	}
	if q.Cmp(big.NewInt(2)) < 0 {
		q.SetInt64(2)
	}
	v := make([]*big.Int, n)
	for i := range v {
		v[i] = new(big.Int).SetBytes(d.bytes(1 + d.n(44)))
		v[i].Mod(v[i], q)
		switch d.n(10) {
		case 0:
			v[i].Sub(q, big.NewInt(1))
		case 1:
			v[i].Rsh(q, 1)
		case 2:
			v[i].SetInt64(0)
		case 3:
			v[i].Neg(v[i])
		}
	}
	return v, q
}

// roundedSwitch is round(x*m/q) mod m; the second result tells that x*m/q is halfway.
func roundedSwitch(x, q, m *big.Int) (*big.Int, bool) {
	n := new(big.Int).Mul(x, m)
	n.Lsh(n, 1)
	// floor((2xm + q) / 2q)
	k := new(big.Int).Add(n, q)
	q2 := new(big.Int).Lsh(q, 1)
	z, rem := new(big.Int).DivMod(k, q2, new(big.Int))
	return z.Mod(z, m), rem.Sign() == 0
}

func execM01[E bignum.Uint[E]](p *Plan, r *Run) {
	data := newRng(mix(p.Seed, 5))
	m := modulus[E]()
	simhook.SetNumCPU(2)
	nt := max(1, int(p.Cfg["threads"]))
	rings := make([]*ring01[E], m01Rings)
	for i := range rings {
		g := &ring01[E]{cyclotomic: i%2 == 1, aut: map[string]buckler.LinearChecker[E]{}}
		g.n = 1 << max(1, int(p.Cfg[fmt.Sprintf("logn%d", i/2)]))
		if g.cyclotomic {
			ev := bigpoly.NewCyclotomicEvaluator[E](g.n)
			g.ev, g.tr = ev, bigpoly.NewCyclotomicTransformer[E](g.n)
			g.nttc = buckler.NewNTTChecker[E](g.n)
			for _, idx := range autIdx {
				g.aut[fmt.Sprint(idx, false)] = buckler.NewAutChecker(ev, idx, false)
				g.aut[fmt.Sprint(idx, true)] = buckler.NewAutChecker(ev, idx, true)
			}
		} else {
			g.ev, g.tr = bigpoly.NewCyclicEvaluator[E](g.n), bigpoly.NewCyclicTransformer[E](g.n)
		}
		for j := 0; j < m01Shared; j++ {
			g.shared = append(g.shared, &bigpoly.Poly[E]{Coeffs: randVec[E](data, g.n, data.n(numPats)), IsNTT: (m01Own+j)%2 == 1})
		}
		rings[i] = g
	}
	// The rings of other threads are as good as new ones: their domains are those of fresh objects.
	for i, g := range rings {
		var bad [3]string
		if g.cyclotomic {
			ev := bigpoly.NewCyclotomicEvaluator[E](g.n)
			g.evDom, bad[0] = newDomain(points01(g.n, func(w, v []E) { ev.NTTTo(&bigpoly.Poly[E]{Coeffs: w}, &bigpoly.Poly[E]{Coeffs: v}) }), m, true)
			g.trDom, bad[1] = newDomain(points01(g.n, bigpoly.NewCyclotomicTransformer[E](g.n).FwdNTTTo), m, true)
			g.chkDom, bad[2] = newDomain(points01(g.n, buckler.NewNTTChecker[E](g.n).TransformTo), m, true)
		} else {
			ev := bigpoly.NewCyclicEvaluator[E](g.n)
			g.evDom, bad[0] = newDomain(points01(g.n, func(w, v []E) { ev.NTTTo(&bigpoly.Poly[E]{Coeffs: w}, &bigpoly.Poly[E]{Coeffs: v}) }), m, false)
			g.trDom, bad[1] = newDomain(points01(g.n, bigpoly.NewCyclicTransformer[E](g.n).FwdNTTTo), m, false)
		}
		for _, b := range bad {
			if b != "" {
				r.fail("wrong-domain", "ring %d of rank %d: %s", i, g.n, b)
				return
			}
		}
	}
	type slots [m01Rings][]*bigpoly.Poly[E]
	own := make([]slots, nt)
	start := make([][m01Rings][]*bigpoly.Poly[E], nt)
	for t := range own {
		for i, g := range rings {
			for j := 0; j < m01Own; j++ {
				q := &bigpoly.Poly[E]{Coeffs: randVec[E](data, g.n, data.n(numPats)), IsNTT: j%2 == 1}
				own[t][i] = append(own[t][i], q)
				start[t][i] = append(start[t][i], copyPoly(q))
			}
		}
	}
	var sharedWas [][]*bigpoly.Poly[E]
	for _, g := range rings {
		var l []*bigpoly.Poly[E]
		for _, q := range g.shared {
			l = append(l, copyPoly(q))
		}
		sharedWas = append(sharedWas, l)
	}

	steps := make([][]step01, nt)
	results := make([][]*done01[E], nt)
	fns := make([]func(), nt)
	crash := make([]int64, nt)
	for t := 0; t < nt; t++ {
		steps[t] = resolve01(p, nt, t)
		results[t] = make([]*done01[E], 0, len(steps[t]))
		crash[t] = p.Cfg[fmt.Sprintf("crash%d", t)]
		fns[t] = func() {
			for _, s := range steps[t] {
				results[t] = append(results[t], run01(&s, rings[s.ring], own[t][s.ring], m))
			}
		}
	}
	if nt == 1 {
		fns[0]()
	} else {
		r.threads(fns, crash)
	}
	if r.viol != nil {
		return
	}
	for i, g := range rings {
		for j, q := range g.shared {
			if q.IsNTT != sharedWas[i][j].IsNTT || !eqVec(q.Coeffs, sharedWas[i][j].Coeffs) {
				r.fail("input-changed", "polynomial %d of ring %d (rank %d), that was only ever an input, was changed", j, i, g.n)
				return
			}
		}
	}
	if p.Cfg["race"] == 1 {
		return
	}
	for t := range results {
		var vals [m01Rings][][]*big.Int
		var forms [m01Rings][]bool
		for i := range rings {
			for j := 0; j < m01Own; j++ {
				vals[i] = append(vals[i], bigVec(start[t][i][j].Coeffs))
				forms[i] = append(forms[i], start[t][i][j].IsNTT)
			}
			for j := 0; j < m01Shared; j++ {
				vals[i] = append(vals[i], bigVec(sharedWas[i][j].Coeffs))
				forms[i] = append(forms[i], sharedWas[i][j].IsNTT)
			}
		}
		for n, got := range results[t] {
			s := steps[t][n]
			if !check01(r, &s, rings[s.ring], vals[s.ring], forms[s.ring], got, m, t) {
				return
			}
			r.probe("op_" + s.k)
		}
		// Slots that were only read are as they were.
		if len(results[t]) == len(steps[t]) {
			for i, g := range rings {
				for j := 0; j < m01Own; j++ {
					if own[t][i][j].IsNTT != forms[i][j] || !eqBig(own[t][i][j].Coeffs, vals[i][j]) {
						r.fail("input-changed", "thread %d: polynomial %d of ring %d (rank %d) is not what was last put there", t, j, i, g.n)
						return
					}
				}
			}
		}
		r.log("thread %d: %d operations", t, len(results[t]))
	}
}

func eqBig[E bignum.Uint[E]](v []E, w []*big.Int) bool {
	if len(v) != len(w) {
		return false
	}
	c := new(big.Int)
	for i := range v {
		if v[i].BigInt(c).Cmp(w[i]) != 0 {
			return false
		}
	}
	return true
}

// run01 performs a step, with the library.
func run01[E bignum.Uint[E]](s *step01, g *ring01[E], own []*bigpoly.Poly[E], m *big.Int) *done01[E] {
	d := newRng(s.seed)
	at := func(i int) *bigpoly.Poly[E] {
		if i < m01Own {
			return own[i]
		}
		return g.shared[i-m01Own]
	}
	a, b, out := at(s.a), at(s.b), own[s.dst]
	ev := g.ev
	done := &done01[E]{}
	put := func(p *bigpoly.Poly[E]) { own[s.dst] = p }
	var c E
	if s.k == "smul" || s.k == "smuladd" || s.k == "smulsub" || s.k == "eval" {
		c = randElem[E](d)
		if d.p(20) {
			c = elemInt[E](s.scalar01(d))
		}
		done.val = c.New().Set(c)
	}
	switch s.k {
	case "add":
		if s.fresh {
			put(ev.Add(a, b))
		} else {
			ev.AddTo(out, a, b)
		}
	case "sub":
		if s.fresh {
			put(ev.Sub(a, b))
		} else {
			ev.SubTo(out, a, b)
		}
	case "neg":
		if s.fresh {
			put(ev.Neg(a))
		} else {
			ev.NegTo(out, a)
		}
	case "smul":
		if s.fresh {
			put(ev.ScalarMul(a, c))
		} else {
			ev.ScalarMulTo(out, a, c)
		}
	case "smuladd":
		ev.ScalarMulAddTo(out, a, c)
	case "smulsub":
		ev.ScalarMulSubTo(out, a, c)
	case "mul":
		if s.fresh {
			put(ev.Mul(a, b))
		} else {
			ev.MulTo(out, a, b)
		}
	case "muladd":
		ev.MulAddTo(out, a, b)
	case "mulsub":
		ev.MulSubTo(out, a, b)
	case "ntt":
		if s.fresh {
			put(ev.NTT(a))
		} else {
			ev.NTTTo(out, a)
		}
	case "intt":
		if s.fresh {
			put(ev.InvNTT(a))
		} else {
			ev.InvNTTTo(out, a)
		}
	case "tr-fwd":
		g.tr.FwdNTTTo(out.Coeffs, a.Coeffs)
		out.IsNTT = true
	case "tr-inv":
		g.tr.InvNTTTo(out.Coeffs, a.Coeffs)
		out.IsNTT = false
	case "aut":
		ce := ev.(*bigpoly.CyclotomicEvaluator[E])
		if s.fresh {
			put(ce.Aut(a, s.autIdx(g.n)))
		} else {
			ce.AutTo(out, a, s.autIdx(g.n))
		}
	case "chk-aut", "chk-ntt":
		t := g.nttc
		if s.k == "chk-aut" {
			t = g.aut[fmt.Sprint(pick(d, autIdx), s.form)]
			out.IsNTT = s.form
		} else {
			out.IsNTT = false
		}
		if s.fresh {
			t.TransposeTo(out.Coeffs, a.Coeffs)
		} else {
			t.TransformTo(out.Coeffs, a.Coeffs)
		}
	case "modswitch":
		v, q := modSwitchInput(d, g.n, m)
		ce := ev.(*bigpoly.CyclotomicEvaluator[E])
		if s.fresh {
			put(ce.ModSwitch(v, q))
		} else {
			ce.ModSwitchTo(out, v, q)
		}
		v2, q2 := modSwitchInput(newRng(s.seed), g.n, m)
		for i := range v {
			if v[i].Cmp(v2[i]) != 0 || q.Cmp(q2) != 0 {
				done.note = "ModSwitch changed its input"
			}
		}
	case "quorem":
		quo, rem := ev.(*bigpoly.CyclicEvaluator[E]).QuoRemByVanishing(a, 1+d.n(g.n))
		own[s.dst], own[s.dst2] = quo, rem
		done.dst2 = copyPoly(rem)
	case "eval":
		done.val = a.Evaluate(c)
		if c.Cmp(randScalar01[E](s)) != 0 {
			done.note = "Evaluate changed its argument"
		}
	case "copy":
		out.CopyFrom(a)
	case "clear":
		out.Clear()
	case "marshal":
		done.bytes = a.Marshal()
	case "new":
		done.note = other01(d.n(numFields), d.u64())
	case "bad":
		bad01(d, g, a, b, out)
		// Whatever that left.
		for i := range out.Coeffs {
			out.Coeffs[i] = elemInt[E](int64(i))
		}
		out.IsNTT = false
	}
	done.dst = copyPoly(own[s.dst])
	return done
}

func randScalar01[E bignum.Uint[E]](s *step01) E {
	d := newRng(s.seed)
	c := randElem[E](d)
	if d.p(20) {
		c = elemInt[E](s.scalar01(d))
	}
	return c
}

// bad01 makes a call that the evaluator refuses.
func bad01[E bignum.Uint[E]](d *Rng, g *ring01[E], a, b, out *bigpoly.Poly[E]) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(simhook.Crash); ok {
				panic(e)
			}
		}
	}()
	short := bigpoly.NewPoly[E](g.n/2, true)
	switch d.n(5) {
	case 0:
		g.ev.MulAddTo(out, short, short)
	case 1:
		g.ev.ScalarMulAddTo(out, short, elemInt[E](3))
	case 2:
		if ce, ok := g.ev.(*bigpoly.CyclotomicEvaluator[E]); ok {
			ce.AutTo(out, a, 2)
		}
	case 3:
		if ce, ok := g.ev.(*bigpoly.CyclotomicEvaluator[E]); ok {
			// The output's coefficients are missing.
			w := &bigpoly.Poly[E]{Coeffs: make([]E, g.n)}
			ce.AutTo(w, a, 3)
		}
	case 4:
		w := &bigpoly.Poly[E]{Coeffs: make([]E, g.n), IsNTT: true}
		q := &bigpoly.Poly[E]{Coeffs: a.Coeffs, IsNTT: true}
		g.ev.MulAddTo(w, q, q)
	}
}

// check01 performs a step with math/big, and compares.
func check01[E bignum.Uint[E]](r *Run, s *step01, g *ring01[E], vals [][]*big.Int, forms []bool, got *done01[E], m *big.Int, t int) bool {
	d := newRng(s.seed)
	a, b, old := vals[s.a], vals[s.b], vals[s.dst]
	where := fmt.Sprintf("thread %d op %d: %s in a ring of rank %d (cyclotomic %v)", t, s.op, s.k, g.n, g.cyclotomic)
	if got.note != "" {
		r.fail("wrong-result", "%s: %s", where, got.note)
		return false
	}
	each := func(f func(x *big.Int, i int)) []*big.Int {
		out := make([]*big.Int, g.n)
		for i := range out {
			out[i] = new(big.Int)
			f(out[i], i)
			out[i].Mod(out[i], m)
		}
		return out
	}
	var c *big.Int
	if s.k == "smul" || s.k == "smuladd" || s.k == "smulsub" || s.k == "eval" {
		c = bigOf(randScalar01[E](s))
	}
	out, form := old, forms[s.dst]
	switch s.k {
	case "add":
		out, form = each(func(x *big.Int, i int) { x.Add(a[i], b[i]) }), s.form
	case "sub":
		out, form = each(func(x *big.Int, i int) { x.Sub(a[i], b[i]) }), s.form
	case "neg":
		out, form = each(func(x *big.Int, i int) { x.Neg(a[i]) }), s.form
	case "smul":
		out, form = each(func(x *big.Int, i int) { x.Mul(a[i], c) }), s.form
	case "smuladd":
		out = each(func(x *big.Int, i int) { x.Mul(a[i], c).Add(x, old[i]) })
	case "smulsub":
		out = each(func(x *big.Int, i int) { x.Mul(a[i], c).Sub(old[i], x) })
	case "mul":
		out, form = each(func(x *big.Int, i int) { x.Mul(a[i], b[i]) }), true
	case "muladd":
		out = each(func(x *big.Int, i int) { x.Mul(a[i], b[i]).Add(x, old[i]) })
	case "mulsub":
		out = each(func(x *big.Int, i int) { x.Mul(a[i], b[i]).Sub(old[i], x) })
	case "ntt":
		out, form = g.evDom.fwd(a), true
	case "intt":
		out, form = g.evDom.back(a, false), false
	case "tr-fwd":
		out, form = g.trDom.fwd(a), true
	case "tr-inv":
		out, form = g.trDom.back(a, false), false
	case "aut":
		out, form = g.evDom.aut(a, s.autIdx(g.n), s.form), s.form
	case "chk-aut":
		idx := pick(d, autIdx)
		if s.fresh {
			for k := 1; k < 2*g.n; k += 2 {
				if ((k*idx)%(2*g.n)+2*g.n)%(2*g.n) == 1 {
					idx = k
					break
				}
			}
		}
		out, form = g.evDom.aut(a, idx, s.form), s.form
	case "chk-ntt":
		form = false
		if s.fresh {
			out = g.chkDom.back(a, true)
		} else {
			out = g.chkDom.fwd(a)
		}
	case "modswitch":
		v, q := modSwitchInput(d, g.n, m)
		form = false
		out = make([]*big.Int, g.n)
		for i := range out {
			z, half := roundedSwitch(v[i], q, m)
			if i < len(got.dst.Coeffs) && half {
				// Either neighbour.
				if w := new(big.Int).Sub(z, big.NewInt(1)); bigOf(got.dst.Coeffs[i]).Cmp(w.Mod(w, m)) == 0 {
					z = w
				}
			}
			out[i] = z
		}
	case "quorem":
		k := 1 + d.n(g.n)
		form = false
		quo := each(func(x *big.Int, i int) { x.SetInt64(0) })
		rem := each(func(x *big.Int, i int) { x.Set(a[i]) })
		for i := g.n - 1; i >= k; i-- {
			// rem -= rem[i] * X^(i-k) * (X^k - 1)
			quo[i-k].Set(rem[i])
			rem[i-k].Add(rem[i-k], rem[i]).Mod(rem[i-k], m)
			rem[i] = new(big.Int)
		}
		out = quo
		vals[s.dst2], forms[s.dst2] = rem, false
		if got.dst2.IsNTT || !eqBig(got.dst2.Coeffs, rem) {
			r.fail("wrong-result", "%s: wrong remainder by X^%d-1", where, k)
			return false
		}
	case "eval":
		y := new(big.Int)
		for i := g.n - 1; i >= 0; i-- {
			y.Mul(y, c).Add(y, a[i]).Mod(y, m)
		}
		if bigOf(got.val).Cmp(y) != 0 {
			r.fail("wrong-result", "%s: wrong value", where)
			return false
		}
	case "copy":
		out, form = a, s.form
	case "clear":
		out = each(func(x *big.Int, i int) {})
	case "marshal":
		var w bytes.Buffer
		for i := range a {
			w.Write(elemOf[E](a[i]).Marshal())
		}
		if !bytes.Equal(w.Bytes(), got.bytes) {
			r.fail("wrong-result", "%s: wrong bytes", where)
			return false
		}
	case "bad":
		out, form = each(func(x *big.Int, i int) { x.SetInt64(int64(i)) }), false
	}
	vals[s.dst], forms[s.dst] = out, form
	if got.dst.IsNTT != form {
		r.fail("wrong-form", "%s: the result's form is wrong", where)
		return false
	}
	if !eqBig(got.dst.Coeffs, out) {
		first := -1
		for i := range out {
			if i >= len(got.dst.Coeffs) || bigOf(got.dst.Coeffs[i]).Cmp(out[i]) != 0 {
				first = i
				break
			}
		}
		r.fail("wrong-result", "%s: coefficient %d is wrong (output %d, inputs %d and %d, fresh output %v, NTT form %v)", where, first, s.dst, s.a, s.b, s.fresh, s.form)
		return false
	}
	r.log("%d %s %x", s.op, s.k, mix(uint64(len(got.dst.Coeffs)), low64(out[0]), low64(out[len(out)-1])))
	return true
}

func low64(x *big.Int) uint64 {
	return new(big.Int).And(x, new(big.Int).SetUint64(^uint64(0))).Uint64()
}

var m01Ops = []string{"add", "sub", "neg", "smul", "smuladd", "smulsub", "mul", "muladd", "mulsub", "ntt", "intt", "tr-fwd", "tr-inv",
	"aut", "aut", "chk-aut", "chk-ntt", "modswitch", "quorem", "eval", "copy", "clear", "marshal", "new", "bad"}

func genM01(r *Rng, tier string) *Plan {
	p := &Plan{Kind: "threads", Cfg: map[string]int64{"field": int64(r.n(numFields)), "threads": int64(2 + r.n(3)),
		"logn0": pick(r, []int64{1, 2, 3, 3, 4, 4}), "logn1": pick(r, []int64{5, 5, 5, 6, 6, 7})}}
	if r.p(4) {
		p.Cfg["logn1"] = 8
	}
	schedCfg(r, p.Cfg)
	nt := int(p.Cfg["threads"])
	if r.p(20) {
		p.Cfg[fmt.Sprintf("crash%d", r.n(nt))] = 1 + r.n64(20000)
	}
	n := nt * (3 + r.n(8))
	if r.p(20) {
		p.Kind = "history"
		p.Cfg["threads"] = 1
		n = 20 + r.n(30)
	}
	// Few rings, so that the threads meet.
	focus := r.n(m01Rings)
	opset := m01Ops
	if r.p(50) {
		// Or few operations.
		opset = nil
		for i := 0; i < 4; i++ {
			opset = append(opset, pick(r, m01Ops))
		}
	}
	for i := 0; i < n; i++ {
		ring := focus
		if r.p(25) {
			ring = r.n(m01Rings)
		}
		o := Op{K: pick(r, opset), N: []int64{int64(r.n(nt)), int64(ring), int64(r.n(m01Own)), int64(r.n(m01Own + m01Shared)), int64(r.n(m01Own + m01Shared)), int64(r.n(2))}, Seed: r.u64()}
		if r.p(25) {
			o.N[3] = o.N[2]
		}
		if r.p(25) {
			o.N[4] = o.N[3]
		}
		p.Ops = append(p.Ops, o)
	}
	if p.Kind == "threads" && r.p(35) {
		p.Kind = "races"
		p.Cfg["race"] = 1
		p.Cfg["mean"] = pick(r, []int64{20, 100, 1000, 10000})
	}
	return p
}

// scriptM01 runs every operation in every ring against itself and the others, for every field.
func scriptM01(i int, tier string) *Plan {
	if i >= 5*numFields {
		return nil
	}
	kind, f := i/numFields, int64(i%numFields)
	p := &Plan{Kind: []string{"history", "threads", "threads", "races", "threads"}[kind], Cfg: map[string]int64{"field": f, "threads": 3,
		"logn0": []int64{1, 3, 4, 2, 3}[kind], "logn1": []int64{5, 6, 5, 5, 7}[kind], "mean": []int64{0, 30, 300, 100, 5}[kind], "burst": int64(kind % 2)}}
	if kind == 0 {
		p.Cfg["threads"] = 1
	}
	if kind == 3 {
		p.Cfg["race"] = 1
	}
	r := newRng(uint64(100 + i))
	for ring := int64(0); ring < m01Rings; ring++ {
		for n, k := range m01Ops {
			for t := int64(0); t < p.Cfg["threads"]; t++ {
				o := Op{K: k, N: []int64{t, ring, int64(r.n(m01Own)), int64(r.n(m01Own + m01Shared)), int64(r.n(m01Own + m01Shared)), int64(r.n(2))}, Seed: uint64(n)*7 + uint64(t)}
				if r.p(30) {
					o.N[3] = o.N[2]
				}
				p.Ops = append(p.Ops, o)
			}
		}
	}
	return p
}

func init() {
	register(&Prop{
		ID: "M01", Race: true, Script: scriptM01, Gen: genM01, Exec: dispatchM01,
		Rule: "1 to 4 threads of ring operations (arithmetic, transforms, automorphisms, modulus switching, division, linear checkers, new rings of any field, " +
			"refused calls) on shared cyclic and cyclotomic evaluators of two ranks from 2 to 256, with shared and own inputs, outputs that are inputs or not, x " +
			"seeded schedules with mean quanta from 3 to 100000 statements x scratch buffers reused in a seeded order x thread crashes; every result compared with " +
			"math/big; races by the detector under the same schedules",
		Real: []string{"bigpoly evaluators, transformers, polynomials", "buckler linear checkers", "field arithmetic"},
		Stub: []string{"thread scheduler", "sync.Pool (which buffer is reused is drawn from the seed)"},
	})
}
