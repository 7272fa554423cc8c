package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/big"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/simhook"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// J06: the randomness of commitments over histories of provers, copies, threads and restarts.

func dispatchJ06(p *Plan, r *Run) {
	switch p.Cfg["field"] % numFields {
	case 0:
		execJ06[f0](p, r)
	case 1:
		execJ06[f1](p, r)
	case 2:
		execJ06[f2](p, r)
	case 3:
		execJ06[f3](p, r)
	case 4:
		execJ06[f4](p, r)
	}
}

// noise is a polynomial that ought to be random, as floats of about unit deviation.
type noise struct {
	who string
	v   []float64
	raw []int64
}

// small returns centred coefficients of at most 62 bits exactly, and floats for the rest.
func small(q *ring.Ring, p ring.Poly) ([]float64, []int64) {
	c := coeffs(q, p)
	f := make([]float64, len(c))
	n := make([]int64, len(c))
	for i := range c {
		f[i], _ = new(big.Float).SetInt(c[i]).Float64()
		n[i] = new(big.Int).And(new(big.Int).Abs(c[i]), big.NewInt(math.MaxInt64)).Int64() * int64(c[i].Sign())
	}
	return f, n
}

func deviation(f []float64) float64 {
	s := 0.0
	for _, x := range f {
		s += x * x
	}
	return math.Sqrt(s / float64(len(f)))
}

func correlation(a, b []float64) float64 {
	var ab, aa, bb float64
	for i := range a {
		ab += a[i] * b[i]
		aa += a[i] * a[i]
		bb += b[i] * b[i]
	}
	if aa == 0 || bb == 0 {
		return 0
	}
	return math.Abs(ab) / math.Sqrt(aa*bb)
}

// fieldPool holds field elements that ought to be independent and uniform.
type fieldPool struct {
	r    *Run
	m    *big.Int
	seen map[string]string
	diff map[string]string
	quo  map[string]string
	// limbs are words of 64 bits of the values, and of their Montgomery form.
	limbs map[uint64]string
}

func newFieldPool(r *Run, m *big.Int) *fieldPool {
	return &fieldPool{r, m, map[string]string{}, map[string]string{}, map[string]string{}, map[uint64]string{}}
}

// add takes a run of consecutive random elements.
func (fp *fieldPool) add(who string, l []*big.Int) {
	note := func(set map[string]string, what string, x *big.Int, at string) {
		k := string(x.Bytes())
		if o, ok := set[k]; ok {
			fp.r.fail("blinding-repeats", "%s: %s of blinding values is that of %s", at, what, o)
		}
		set[k] = at
	}
	for i, x := range l {
		at := fmt.Sprintf("%s value %d", who, i)
		note(fp.seen, "one", x, at)
		if x.BitLen() < fp.m.BitLen()-48 {
			fp.r.fail("blinding-weak", "%s: has only %d of %d bits", at, x.BitLen(), fp.m.BitLen())
		}
		fp.words(x, at)
		if i == 0 {
			continue
		}
		d := new(big.Int).Sub(x, l[i-1])
		note(fp.diff, "the difference of two", d.Mod(d, fp.m), at)
		if inv := new(big.Int).ModInverse(l[i-1], fp.m); inv != nil {
			q := new(big.Int).Mul(x, inv)
			note(fp.quo, "the quotient of two", q.Mod(q, fp.m), at)
		}
	}
	// Bits that are the same in all of many values.
	if len(l) >= 64 {
		and, or := new(big.Int).Set(l[0]), new(big.Int).Set(l[0])
		for _, x := range l {
			and.And(and, x)
			or.Or(or, x)
		}
		for i := 0; i < fp.m.BitLen()-2; i++ {
			if and.Bit(i) == 1 || or.Bit(i) == 0 {
				fp.r.fail("blinding-weak", "%s: bit %d is the same in all of %d values", who, i, len(l))
				break
			}
		}
	}
}

// words notes the words of a value but for the highest, which has fewer bits.
func (fp *fieldPool) words(x *big.Int, at string) {
	n := (fp.m.BitLen() + 63) / 64
	mont := new(big.Int).Lsh(x, uint(64*n))
	for k, y := range []*big.Int{x, mont.Mod(mont, fp.m)} {
		b := make([]byte, 8*n)
		y.FillBytes(b)
		for i := 1; i < n; i++ {
			w := binary.BigEndian.Uint64(b[8*i:])
			if o, ok := fp.limbs[w]; ok {
				fp.r.fail("blinding-repeats", "%s: a word is that of %s", at, o)
			}
			fp.limbs[w] = fmt.Sprintf("%s (word %d of form %d)", at, n-1-i, k)
		}
	}
}

// freshness checks all randomness of a history of commitments.
type freshness[E bignum.Uint[E]] struct {
	r     *Run
	k     *kit[E]
	pool  *fieldPool
	polys []noise
	coms  map[string]string
	grams map[[20]int32]string
}

func newFreshness[E bignum.Uint[E]](r *Run, k *kit[E]) *freshness[E] {
	return &freshness[E]{r: r, k: k, pool: newFieldPool(r, modulus[E]()), coms: map[string]string{}, grams: map[[20]int32]string{}}
}

func (f *freshness[E]) poly(who string, p ring.Poly, scale, sigma float64, grams bool) {
	fl, raw := small(f.k.q, p)
	if d := deviation(fl) / scale; d < sigma/2 {
		f.r.fail("blinding-missing", "%s: deviation %.3g, published is %.3g", who, d, sigma)
	}
	f.polys = append(f.polys, noise{who, fl[:256], raw})
	if !grams {
		return
	}
	for i := 0; i+20 <= len(raw); i++ {
		var g [20]int32
		for j := range g {
			g[j] = int32(raw[i+j])
		}
		at := fmt.Sprintf("%s coefficient %d", who, i)
		if o, ok := f.grams[g]; ok {
			f.r.fail("blinding-repeats", "%s: the 20 coefficients from here are those of %s", at, o)
			return
		}
		f.grams[g] = at
	}
}

// add takes an opening and the length of what was committed.
func (f *freshness[E]) add(who string, n int, com *jindo.Commitment, o *jindo.Opening) {
	k, p := f.k, f.k.params
	b := float64(p.Base())
	cs := string(polyBytes(com.Value[0]))
	if w, ok := f.coms[cs]; ok {
		f.r.fail("commitment-repeats", "%s: the commitment is that of %s", who, w)
	}
	f.coms[cs] = who
	var last, mask []*big.Int
	for i := 0; i <= p.Cols(); i++ {
		for j := 0; j < p.Rows(); j++ {
			at := fmt.Sprintf("%s column %d row %d", who, i, j)
			start := j * p.Cols() * p.Slots()
			if i < p.Cols() {
				start += i * p.Slots()
			}
			if j > 0 && j < p.Rows()-1 && start >= n {
				// Rows past the polynomial may be left out.
				continue
			}
			sigma := p.EcdStdDev()
			switch {
			case i == p.Cols() && j == 0:
				sigma = p.MaskBlindStdDev()
			case i == p.Cols():
				sigma = p.MaskStdDev()
			case j == 0:
				sigma = p.EcdBlindStdDev()
			}
			f.poly(at, o.Encode[i][j], b, sigma, false)
			switch {
			case i == p.Cols():
				mask = append(mask, k.decode(o.Encode[i][j])...)
			case j == p.Rows()-1:
				last = append(last, k.decode(o.Encode[i][j])...)
			}
		}
		for j, m := range o.MLWE[i] {
			sigma := p.MLWEStdDev()
			if i == p.Cols() {
				sigma = p.MaskMLWEStdDev()
			}
			f.poly(fmt.Sprintf("%s column %d hiding term %d", who, i, j), m, 1, sigma, true)
		}
	}
	f.pool.add(who+" blinding row", last[:len(last)-1])
	f.pool.add(who+" mask", mask)
	f.r.log("%s %d noises %x", who, len(f.polys), cs[20:36])
}

func (f *freshness[E]) finish() {
	for i := range f.polys {
		for j := range i {
			if c := correlation(f.polys[i].v, f.polys[j].v); c > 0.6 {
				f.r.fail("blinding-correlated", "%s and %s: correlation %.3f", f.polys[i].who, f.polys[j].who, c)
				return
			}
		}
	}
	f.r.probes["blinding_polynomials"] += int64(len(f.polys))
	f.r.probes["blinding_values"] += int64(len(f.pool.seen))
}

func execJ06[E bignum.Uint[E]](p *Plan, r *Run) {
	data := newRng(mix(p.Seed, 5))
	k := newKit[E](max(int(p.Cfg["n"]), 1), max(int(p.Cfg["batch"]), 1), data.bytes(16))
	simhook.SetNumCPU(max(1, int(p.Cfg["cpus"])))
	f := newFreshness(r, k)
	type made struct {
		who string
		n   int
		com *jindo.Commitment
		op  *jindo.Opening
	}
	var all []made
	// A few polynomials that are committed to again and again.
	polys := make([][]E, 3)
	for i := range polys {
		polys[i] = randVec[E](data, k.polyLen(data, int64(data.n(10))), pick(data, []int{patRandom, patZero, patOnes, patSmall}))
	}
	actors := []*jindo.Prover[E]{k.prover()}
	act := func(n int64) int { return int(n) % len(actors) }
	inThreads := p.Cfg["threads"] == 1
	var pend [][]func()
	flush := func() {
		if len(pend) == 0 {
			return
		}
		fns := make([]func(), len(pend))
		crash := make([]int64, len(pend))
		for i := range pend {
			crash[i] = p.Cfg[fmt.Sprintf("crash%d", i)]
			fns[i] = func() {
				for _, fn := range pend[i] {
					fn()
				}
			}
		}
		if len(fns) == 1 {
			fns = append(fns, func() {})
			crash = append(crash, 0)
		}
		r.threads(fns, crash)
		for i := range crash {
			if crash[i] > 0 && i < len(actors) {
				// The process that crashed comes back from the reference string.
				actors[i] = k.prover()
				r.fault("restart")
			}
		}
		pend = nil
	}
	for oi, o := range p.Ops {
		if o.K != "commit" {
			flush()
		}
		switch o.K {
		case "new":
			actors = append(actors, k.prover())
		case "copy":
			actors = append(actors, actors[act(o.n(0))].SafeCopy())
		case "restart":
			actors[act(o.n(0))] = k.prover()
			r.fault("restart")
		case "evaluate":
			s := &session[E]{x: randElem[E](data)}
			for i := len(all) - 1; i >= 0 && len(s.com) < k.params.Batch(); i-- {
				if m := all[i]; m.op != nil {
					s.com, s.open, s.v = append(s.com, m.com), append(s.open, m.op), append(s.v, polys[0])
				}
			}
			if len(s.com) == k.params.Batch() {
				actors[act(o.n(0))].Evaluate(s.x, s.v, s.com, s.open)
			}
		case "commit":
			a := act(o.n(0))
			v := polys[int(o.n(1))%len(polys)]
			who := fmt.Sprintf("op %d actor %d", oi, a)
			if inThreads {
				for len(pend) <= a {
					pend = append(pend, nil)
				}
				slot := len(all)
				all = append(all, made{who: who, n: len(v)})
				pr := actors[a]
				pend[a] = append(pend[a], func() {
					c, op := pr.Commit(v)
					all[slot].com, all[slot].op = c, op
				})
			} else {
				if at := o.n(2); at > 0 {
					// The process crashes within the commitment.
					pr := actors[a]
					r.threads([]func(){func() { pr.Commit(v) }, func() {}}, []int64{at, 0})
					actors[a] = k.prover()
					r.fault("restart")
				}
				c, op := actors[a].Commit(v)
				all = append(all, made{who, len(v), c, op})
			}
		}
		if r.viol != nil {
			return
		}
	}
	flush()
	n := 0
	for _, m := range all {
		if m.op != nil {
			f.add(m.who, m.n, m.com, m.op)
			n++
		}
		if r.viol != nil {
			return
		}
	}
	f.finish()
	r.log("commitments=%d", n)
}

func genJ06(r *Rng, tier string) *Plan {
	p := &Plan{Kind: "history", Cfg: map[string]int64{
		"field": int64(r.n(numFields)), "n": pick(r, []int64{1, 9, 33, 64, 128}), "batch": int64(pick(r, []int{1, 1, 2})),
		"mean": 1000, "cpus": 1,
	}}
	if r.p(25) {
		p.Cfg["n"] = wideN(p.Cfg["field"])
	}
	if r.p(35) {
		p.Kind = "threads"
		p.Cfg["threads"] = 1
		schedCfg(r, p.Cfg)
		if r.p(30) {
			p.Cfg[fmt.Sprintf("crash%d", r.n(3))] = 1 + r.n64(20000)
		}
	}
	for i := 3 + r.n(6); i > 0; i-- {
		k := pick(r, []string{"commit", "commit", "commit", "commit", "copy", "copy", "new", "restart", "evaluate"})
		at := int64(0)
		if p.Kind == "history" && r.p(10) {
			at = 1 + r.n64(20000)
		}
		p.Ops = append(p.Ops, Op{K: k, N: []int64{int64(r.n(6)), int64(r.n(3)), at}})
	}
	p.Ops = append(p.Ops, Op{K: "commit", N: []int64{int64(r.n(6)), int64(r.n(3))}})
	return p
}

func scriptJ06(i int, tier string) *Plan {
	if i >= 2*numFields {
		return nil
	}
	p := &Plan{Kind: "history", Cfg: map[string]int64{"field": int64(i % numFields), "n": 64, "batch": 1, "cpus": 1, "mean": 1000}}
	if i >= numFields {
		p.Kind = "threads"
		p.Cfg["threads"], p.Cfg["cpus"] = 1, 2
		p.Cfg["n"] = wideN(int64(i))
	}
	// The same polynomial from a prover, its copies, a copy of a copy, another prover, and after restarts.
	p.Ops = []Op{{K: "commit", N: []int64{0, 0}}, {K: "commit", N: []int64{0, 0}}, {K: "copy", N: []int64{0}}, {K: "copy", N: []int64{1}},
		{K: "new"}, {K: "commit", N: []int64{0, 0}}, {K: "commit", N: []int64{1, 0}}, {K: "commit", N: []int64{2, 0}}, {K: "commit", N: []int64{3, 0}},
		{K: "restart", N: []int64{0}}, {K: "restart", N: []int64{1}}, {K: "commit", N: []int64{0, 0}}, {K: "commit", N: []int64{1, 1}}, {K: "commit", N: []int64{0, 2}}}
	return p
}

func init() {
	register(&Prop{
		ID: "J06", Script: scriptJ06, Gen: genJ06, Exec: dispatchJ06,
		Rule: "histories of 3 to 14 commitments of three polynomials over provers, copies of copies, restarts, evaluations, and crashes inside of " +
			"commitments, one after another or in threads under seeded schedules; every hiding polynomial and blinding value of the whole history is " +
			"compared with every other",
		Real: []string{"jindo prover, encoder, commitment key, parameters", "csprng samplers", "field arithmetic", "lattigo rings (dependency)"},
		Stub: []string{"entropy source", "thread scheduler", "sync primitives (same semantics, under the scheduler)"},
	})
}
