package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/simhook"
)

// B08: the blinding of circuit proofs over histories of provers, threads and restarts.

func dispatchB08(p *Plan, r *Run) {
	switch p.Cfg["field"] % numFields {
	case 0:
		execB08[f0](p, r)
	case 1:
		execB08[f1](p, r)
	case 2:
		execB08[f2](p, r)
	case 3:
		execB08[f3](p, r)
	case 4:
		execB08[f4](p, r)
	}
}

func comKey(c *jindo.Commitment) string {
	var b bytes.Buffer
	c.WriteRawTo(&b)
	return b.String()
}

// blinding checks all blinding of a history of proofs.
type blinding[E bignum.Uint[E]] struct {
	r *Run
	s *spec[E]
	// polys are the committed polynomials by their commitments.
	polys map[string][]E
	// pool has the blinding values, and open those of masked quotients and remainders.
	pool, open *fieldPool
	sums       map[string]string
	coms       map[string]string
	cur        map[any][]E
}

func newBlinding[E bignum.Uint[E]](r *Run, s *spec[E]) *blinding[E] {
	return &blinding[E]{r, s, map[string][]E{}, newFieldPool(r, s.m), newFieldPool(r, s.m), map[string]string{}, map[string]string{}, map[any][]E{}}
}

// watch sees what is committed to.
func (b *blinding[E]) watch() {
	simhook.EnterFn = func(name string, recv any, args ...any) {
		if name == "jindo.Prover.Commit" {
			b.cur[recv] = copyVec(*args[0].(*[]E))
		}
	}
	simhook.ExitFn = func(name string, recv any, res ...any) {
		if name == "jindo.Prover.Commit" && len(res) == 2 {
			if c, ok := res[0].(**jindo.Commitment); ok && *c != nil {
				b.polys[comKey(*c)] = b.cur[recv]
			}
		}
	}
	simhook.Hooks = true
}

func (b *blinding[E]) once(set map[string]string, class, what, key, who string) {
	if o, ok := set[key]; ok {
		b.r.fail(class, "%s: %s is that of %s", who, what, o)
	}
	set[key] = who
}

// add takes a proof and the assignment it is for.
func (b *blinding[E]) add(who string, a *asg, pf *buckler.Proof[E]) {
	s, l := b.s, b.s.lay
	if len(pf.Witness) != l.all {
		b.r.fail("messages-differ", "%s: %d messages, and %d before", who, len(pf.Witness), l.all)
		return
	}
	polys := make([][]E, l.all)
	for i, c := range pf.Witness {
		k := comKey(c)
		polys[i] = b.polys[k]
		if polys[i] == nil {
			// What was committed to was not seen.
			b.r.probe("commitment_not_seen")
			return
		}
		b.once(b.coms, "commitment-repeats", fmt.Sprintf("commitment %d", i), k, who)
	}
	n := s.rank
	var rs []*big.Int
	have := map[string]int{}
	for i := 0; i < l.wit; i++ {
		v := polys[i]
		if len(v) <= n {
			b.r.fail("witness-not-blinded", "%s: witness %d is committed to without blinding", who, i)
			return
		}
		blind := bigs(v[n:])
		zero := true
		for _, x := range blind {
			if x.Sign() != 0 {
				rs = append(rs, x)
				zero = false
			}
		}
		if zero {
			b.r.fail("witness-not-blinded", "%s: the blinding of witness %d is zero", who, i)
			return
		}
		var key bytes.Buffer
		for _, x := range decodeWitness(v, n) {
			fmt.Fprintf(&key, "%v,", bigOf(x))
		}
		have[key.String()]++
	}
	for i := range a.W {
		// Where a value of the circuit is among the commitments is up to the library.
		var key bytes.Buffer
		for _, x := range a.W[i] {
			fmt.Fprintf(&key, "%v,", x)
		}
		if have[key.String()] == 0 {
			b.r.fail("witness-altered", "%s: no commitment has the values of witness %d", who, i)
			return
		}
		have[key.String()]--
	}
	b.pool.add(who+" witness blinding", rs)
	at, quo := l.wit, l.wit+l.masks
	if l.arith {
		quo++
	}
	for k, has := range []bool{l.lin, l.sum} {
		if !has {
			continue
		}
		name, sum := "linear", pf.LinCheckMaskSum
		if k == 1 {
			name, sum = "sum", pf.SumCheckMaskSum
		}
		name = who + " mask of the " + name + " check"
		mask, q, lo := polys[at], polys[quo], polys[quo+1]
		b.pool.add(name, bigs(mask))
		b.once(b.sums, "mask-sum-repeats", "the mask sum", string(bigOf(sum).Bytes()), name)
		// The sum that is sent is that of the mask, and the mask covers all that it has to hide.
		t := elemInt[E](0)
		for i := 0; i < len(mask); i += n {
			t.Add(t, mask[i])
		}
		if t.Cmp(sum) != 0 {
			b.r.fail("mask-sum-wrong", "%s: its sum is not the one that is sent", name)
			return
		}
		covered := len(mask) - n
		for i := covered; i < len(q); i++ {
			if bigOf(q[i]).Sign() != 0 {
				b.r.fail("mask-short", "%s: has %d coefficients, and the quotient has %d", name, len(mask), len(q))
				return
			}
		}
		b.open.add(name+" quotient", bigs(q[:min(len(q), max(covered, 0))]))
		b.open.add(name+" remainder", bigs(lo))
		at++
		quo += 3
	}
	b.r.log("%s %x", who, sumOf(b.polys, pf))
}

func sumOf[E bignum.Uint[E]](polys map[string][]E, pf *buckler.Proof[E]) []byte {
	x := comKey(pf.Witness[0])
	return []byte(x[20:min(36, len(x))])
}

func execB08[E bignum.Uint[E]](p *Plan, r *Run) {
	s := specOf[E](p, p.Ops)
	crs := newRng(mix(p.Seed, 5)).bytes(int(p.Cfg["crs"]))
	simhook.SetNumCPU(max(1, int(p.Cfg["cpus"])))
	boot := func() *snarkNode[E] {
		n := &snarkNode[E]{name: "P"}
		if !n.boot(r, s, crs) {
			return nil
		}
		return n
	}
	actors := []*snarkNode[E]{boot()}
	if r.viol != nil {
		return
	}
	b := newBlinding(r, s)
	// The layout of the proofs.
	var h puppet[E]
	first := s.fill(p.Seed)
	prove := func(n *snarkNode[E], a *asg) *buckler.Proof[E] {
		pf, err := n.prv.Prove(s.assign(a, true))
		if err != nil {
			r.fail("prove-fails", "Prove of a satisfied circuit with %s: %v", s.kinds(), err)
		}
		return pf
	}
	var pf *buckler.Proof[E]
	h.run(func() { pf = prove(actors[0], first) })
	if pf == nil {
		return
	}
	s.lay = layoutOf(s, pf, h.encodes)
	if s.lay.wit < s.nW {
		r.probe("encoding_not_seen")
		return
	}
	r.log("rank %d %s %+v", s.rank, s.kinds(), s.lay)
	b.watch()
	type made struct {
		who string
		a   *asg
		pf  *buckler.Proof[E]
	}
	var all []*made
	var pend [][]func()
	flush := func() {
		if len(pend) == 0 {
			return
		}
		fns := make([]func(), max(2, len(pend)))
		crash := make([]int64, len(fns))
		for i := range fns {
			fns[i] = func() {}
		}
		for i := range pend {
			crash[i] = p.Cfg[fmt.Sprintf("crash%d", i)]
			fns[i] = func() {
				for _, fn := range pend[i] {
					fn()
				}
			}
		}
		r.threads(fns, crash)
		for i := range crash {
			if crash[i] > 0 && i < len(actors) && r.viol == nil {
				actors[i] = boot()
				r.fault("restart")
			}
		}
		pend = nil
	}
	act := func(n int64) int { return int(n) % len(actors) }
	for oi, o := range p.Ops {
		if r.viol != nil {
			return
		}
		if o.K != "prove" {
			flush()
		}
		switch o.K {
		case "new":
			actors = append(actors, boot())
		case "restart":
			actors[act(o.n(0))] = boot()
			r.fault("restart")
		case "prove":
			i := act(o.n(0))
			m := &made{who: fmt.Sprintf("proof %d by %d", oi, i), a: first}
			if o.n(1)%3 == 2 {
				m.a = s.fill(o.Seed)
			}
			all = append(all, m)
			n := actors[i]
			if p.Cfg["threads"] == 1 {
				for len(pend) <= i {
					pend = append(pend, nil)
				}
				pend[i] = append(pend[i], func() { m.pf = prove(n, m.a) })
				continue
			}
			if at := o.n(2); at > 0 {
				ok, pan := runCrash(r, at, func() { prove(n, m.a) })
				if pan != nil {
					r.fail("prove-panics", "%v", short(pan, 200))
					return
				}
				if !ok {
					actors[i] = boot()
					n = actors[i]
					r.fault("restart")
				}
			}
			m.pf = prove(n, m.a)
		}
	}
	flush()
	simhook.Hooks = false
	c := 0
	for _, m := range all {
		if m.pf != nil && r.viol == nil {
			b.add(m.who, m.a, m.pf)
			r.fault("proof_checked")
			c++
		}
	}
	r.probes["blinding_values"] += int64(len(b.pool.seen))
	r.log("proofs=%d", c)
}

func genB08(r *Rng, tier string) *Plan {
	p := &Plan{Kind: "history", Cfg: snarkCfg(r)}
	p.Cfg["cpus"], p.Cfg["mean"] = 1, 1000
	p.Ops = genSpecOps(r, 1+r.n(4))
	if r.p(35) {
		p.Kind = "threads"
		p.Cfg["threads"] = 1
		schedCfg(r, p.Cfg)
		if r.p(30) {
			p.Cfg[fmt.Sprintf("crash%d", r.n(3))] = 1 + r.n64(400000)
		}
		for i := 1 + r.n(2); i > 0; i-- {
			p.Ops = append(p.Ops, Op{K: "new"})
		}
	}
	for i := 2 + r.n(5); i > 0; i-- {
		k := pick(r, []string{"prove", "prove", "prove", "prove", "prove", "new", "restart"})
		at := int64(0)
		if p.Kind == "history" && r.p(10) {
			at = 1 + r.n64(400000)
		}
		p.Ops = append(p.Ops, Op{K: k, N: []int64{int64(r.n(6)), int64(r.n(3)), at}})
	}
	p.Ops = append(p.Ops, Op{K: "prove", N: []int64{int64(r.n(6)), 0}})
	return p
}

func scriptB08(i int, tier string) *Plan {
	p := &Plan{Kind: "history", Cfg: map[string]int64{"field": int64(i % numFields), "logn": 3, "form": int64(i % 2), "crs": int64(i), "cpus": 1, "mean": 1000}}
	switch {
	case i == 0:
		p.Cfg["logn"], p.Cfg["field"] = 11, 1
		p.Kind = "projection"
		p.Ops = []Op{{K: "approx", N: []int64{1}, Seed: 2}, {K: "approx", N: []int64{2}, Seed: 5}, {K: "sum", N: []int64{1, 0, 1, 0}, Seed: 3}, {K: "prove"}, {K: "prove"}}
		return p
	case i <= numFields:
		p.Ops = append(p.Ops, matrixCircuits[len(matrixCircuits)-16]...)
	case i <= 3*numFields:
		p.Ops = append(p.Ops, matrixCircuits[(i*5)%len(matrixCircuits)]...)
	default:
		return nil
	}
	if i%2 == 1 {
		p.Kind = "threads"
		p.Cfg["threads"], p.Cfg["cpus"] = 1, 2
	}
	p.Ops = append(p.Ops, Op{K: "new"}, Op{K: "prove", N: []int64{0}}, Op{K: "prove", N: []int64{1}}, Op{K: "prove", N: []int64{0}}, Op{K: "restart", N: []int64{0}},
		Op{K: "prove", N: []int64{0}}, Op{K: "prove", N: []int64{1, 2}})
	return p
}

func init() {
	register(&Prop{
		ID: "B08", Script: scriptB08, Gen: genB08, Exec: dispatchB08,
		Rule: "histories of 2 to 8 proofs of the same and other assignments of circuits as for B01, by provers of one reference string that are restarted or crash " +
			"while proving, one after another or in threads under seeded schedules; every blinding value, mask, mask sum and commitment of the whole history is " +
			"compared with every other, and what is committed to with the assignment",
		Real: snarkReal,
		Stub: []string{"entropy source", "thread scheduler", "sync primitives (same semantics, under the scheduler)"},
	})
}
