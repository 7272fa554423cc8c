package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/simhook"
)

// B06: histories and threads of provers and verifiers that share circuits, linear relations,
// assignments and proofs.

func dispatchB06(p *Plan, r *Run) {
	switch p.Cfg["field"] % numFields {
	case 0:
		execB06[f0](p, r)
	case 1:
		execB06[f1](p, r)
	case 2:
		execB06[f2](p, r)
	case 3:
		execB06[f3](p, r)
	case 4:
		execB06[f4](p, r)
	}
}

// subCircuit is a circuit with some of the constraints of another one, in another order, and
// the same linear relations.
func subCircuit[E bignum.Uint[E]](s *spec[E], d *Rng) *spec[E] {
	o := newSpec[E](s.rank, s.form)
	id := o.id
	*o = *s
	o.id = id
	specs[id] = o
	o.cons = nil
	for _, i := range perm(d, len(s.cons)) {
		if len(o.cons) > 0 && d.p(30) {
			continue
		}
		n := *s.cons[i]
		n.terms = append([]term(nil), n.terms...)
		n.prefix = 0
		o.cons = append(o.cons, &n)
	}
	return o
}

func perm(d *Rng, n int) []int {
	p := make([]int, n)
	for i := range p {
		j := d.n(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

// stockItem is an assignment and what is known of it.
type stockItem[E bignum.Uint[E]] struct {
	a     *asg
	fits  bool
	valid int
	c     circ[E]
	snap  [][]byte
}

// snapshot is what a circuit holds.
func snapshot[E bignum.Uint[E]](c circ[E]) (out [][]byte) {
	p, w := c.refs()
	var l [][]E
	for _, v := range p {
		l = append(l, *v)
	}
	for _, v := range w {
		l = append(l, *v)
	}
	for _, v := range l {
		b := []byte(fmt.Sprintf("%d %p:", len(v), v))
		for _, x := range v {
			b = append(b, x.Marshal()...)
		}
		out = append(out, b)
	}
	return out
}

func eqSnapshot(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// held is a proof that must stay as it is.
type held[E bignum.Uint[E]] struct {
	pf   *buckler.Proof[E]
	snap []byte
	from int
}

func hold[E bignum.Uint[E]](pf *buckler.Proof[E], from int) *held[E] {
	return &held[E]{pf, wireSnark(pf), from}
}

const numStock = 5

// b06World is one circuit with its stock.
type b06World[E bignum.Uint[E]] struct {
	s      *spec[E]
	stock  []*stockItem[E]
	proofs []*held[E]
}

func newB06World[E bignum.Uint[E]](s *spec[E], seed uint64, d *Rng) *b06World[E] {
	w := &b06World[E]{s: s}
	put := func(a *asg, fits bool) *stockItem[E] {
		it := &stockItem[E]{a: a, fits: fits, c: s.assign(a, true)}
		it.valid, _ = s.judge(a)
		w.stock = append(w.stock, it)
		return it
	}
	put(s.fill(seed), true)
	put(s.fill(seed+1), true)
	// Two that violate something, or not.
	for i := 0; i < 2; i++ {
		a := s.fill(seed)
		if len(a.W) > 0 {
			v := a.W[d.n(len(a.W))]
			x := v[d.n(len(v))]
			x.Add(x, big.NewInt(int64(1+d.n(1000)))).Mod(x, s.m)
		}
		put(a, true)
	}
	// One that does not fit.
	it := put(s.fill(seed), true)
	p, ws := it.c.refs()
	if len(ws) > 0 && d.p(60) {
		v := ws[len(ws)-1]
		*v = (*v)[:len(*v)-1]
		it.fits = false
	} else if len(p) > 0 {
		v := p[len(p)-1]
		*v = append(*v, elemInt[E](1))
		it.fits = false
	}
	for _, it := range w.stock {
		it.snap = snapshot(it.c)
	}
	return w
}

func execB06[E bignum.Uint[E]](p *Plan, r *Run) {
	s := specOf[E](p, p.Ops)
	data := newRng(mix(p.Seed, 5))
	crs := data.bytes(int(p.Cfg["crs"]))
	simhook.SetNumCPU(max(1, int(p.Cfg["cpus"])))
	s2 := subCircuit(s, data)
	worlds := []*b06World[E]{newB06World(s, p.Seed, data)}
	// Three processes' worth of objects, two of the first circuit and one of the second.
	of := []int{0}
	if p.Cfg["small"] == 0 {
		worlds = append(worlds, newB06World(s2, p.Seed, data))
		of = []int{0, 0, 1}
	}
	var nodes []*snarkNode[E]
	for i := range of {
		n := &snarkNode[E]{name: fmt.Sprint(i)}
		if !n.boot(r, worlds[of[i]].s, crs) {
			return
		}
		nodes = append(nodes, n)
	}
	for wi, w := range worlds {
		n := nodes[2*wi] // the first one of that circuit
		// The race detector is slow.
		for i := 0; i < 2-int(p.Cfg["race"]); i++ {
			pf, err, pan, _ := proveCirc(n.prv, buckler.Circuit[E](w.s.assign(w.stock[i].a, true)))
			if pan != nil || err != nil {
				r.fail("prove-fails", "Prove of a satisfied circuit with %s: %v %s", w.s.kinds(), err, short(pan, 200))
				return
			}
			w.proofs = append(w.proofs, hold(pf, i))
		}
		t := copySnark(w.proofs[0].pf)
		i := data.n(len(t.Evals))
		t.Evals[i] = nudge(data, t.Evals[i])
		w.proofs = append(w.proofs, hold(t, -1))
	}
	r.log("rank %d %s and %s", s.rank, s.kinds(), s2.kinds())

	type outcome struct {
		op, obj int
		what    string
		it      *stockItem[E]
		pf      *held[E]
		err     error
		ok      bool
	}
	nt := max(1, int(p.Cfg["threads"]))
	lanes := make([][]*outcome, nt)
	fns := make([]func(), nt)
	// Each prover and each verifier belongs to one thread; everything else is shared.
	owner := func(node int, verifier bool) int {
		k := int64(2 * node)
		if verifier {
			k++
		}
		return int(p.Cfg[fmt.Sprintf("own%d", k)]+k) % nt
	}
	for t := 0; t < nt; t++ {
		lanes[t] = make([]*outcome, 0, 2*len(p.Ops))
		var ops []int
		for i, o := range p.Ops {
			if (o.K == "prove" || o.K == "verify") && owner(int(o.n(0))%len(nodes), o.K == "verify") == t {
				ops = append(ops, i)
			}
			if o.K == "compile" && int(o.n(3))%nt == t {
				ops = append(ops, i)
			}
		}
		fns[t] = func() {
			// Callers that pass everything in the same objects, overwritten in between.
			var keptP, keptV kept[circ[E]]
			var keptPf kept[*buckler.Proof[E]]
			keptP.on, keptV.on, keptPf.on = p.Cfg["reuse"] == 1, p.Cfg["reuse"] == 1, p.Cfg["reuse"] == 1
			for _, i := range ops {
				o := p.Ops[i]
				ni := int(o.n(0)) % len(nodes)
				w := worlds[of[ni]]
				it := w.stock[int(o.n(1))%len(w.stock)]
				out := &outcome{op: i, obj: ni, what: o.K, it: it}
				if o.K == "compile" {
					// Another process' worth of objects, made and used while the others work.
					if o.n(4)%2 == 1 {
						// One for another reference string, which nothing else has to do with.
						if _, _, err := w.s.compile(append([]byte{byte(i)}, crs...)); err != nil {
							panic(err)
						}
					}
					prv, vrf, err := w.s.compile(crs)
					if err != nil {
						panic(err)
					}
					in := w.proofs[int(o.n(2))%len(w.proofs)]
					lanes[t] = append(lanes[t], &outcome{op: i, obj: ni, what: "verify", it: it, pf: in, ok: vrf.Verify(it.c, in.pf)})
					out.what = "prove"
					pf, err := prv.Prove(it.c)
					out.err = err
					if err == nil {
						out.pf = hold(pf, -1)
					}
				} else if o.K == "prove" {
					pf, err := nodes[ni].prv.Prove(keptP.into(it.c))
					out.err = err
					if err == nil {
						out.pf = hold(pf, -1)
					}
				} else {
					out.pf = w.proofs[int(o.n(2))%len(w.proofs)]
					out.ok = nodes[ni].vrf.Verify(keptV.into(it.c), keptPf.into(out.pf.pf))
				}
				lanes[t] = append(lanes[t], out)
			}
		}
	}
	if nt == 1 {
		fns[0]()
	} else {
		r.threads(fns, make([]int64, nt))
	}
	if r.viol != nil {
		return
	}
	// Nothing that was passed in has changed, nor what was returned.
	for wi, w := range worlds {
		for i, it := range w.stock {
			if !eqSnapshot(it.snap, snapshot(it.c)) {
				r.fail("assignment-changed", "assignment %d of circuit %d was changed (%s)", i, wi, w.s.kinds())
				return
			}
		}
		for i, h := range w.proofs {
			if !bytes.Equal(h.snap, wireSnark(h.pf)) {
				r.fail("proof-changed", "proof %d of circuit %d was changed (%s)", i, wi, w.s.kinds())
				return
			}
		}
	}
	if p.Cfg["race"] == 1 {
		return
	}
	fresh := []*snarkNode[E]{{name: "F"}, {name: "G"}}[:len(worlds)]
	for i := range fresh {
		if !fresh[i].boot(r, worlds[i].s, crs) {
			return
		}
	}
	for t := range lanes {
		for _, o := range lanes[t] {
			w := worlds[of[o.obj]]
			r.fault("checked_" + o.what)
			switch o.what {
			case "prove":
				switch {
				case !o.it.fits:
					if o.err == nil {
						r.probe("misfit_proved")
					}
				case o.it.valid == holds && o.err != nil:
					r.fail("prove-fails", "op %d: Prove of a satisfied circuit with %s: %v", o.op, w.s.kinds(), o.err)
				case o.it.valid == violated && o.err != nil:
				case o.err == nil:
					if !bytes.Equal(o.pf.snap, wireSnark(o.pf.pf)) {
						r.fail("proof-changed", "op %d: a proof was changed after it was returned (%s)", o.op, w.s.kinds())
						return
					}
					ok, pan, _ := verifyCirc(fresh[of[o.obj]].vrf, buckler.Circuit[E](o.it.c), o.pf.pf)
					r.log("op %d prove valid=%d: %v", o.op, o.it.valid, ok)
					if pan != nil {
						r.fail("verify-panics", "op %d: %s", o.op, short(pan, 200))
					}
					if o.it.valid == holds && !ok {
						r.fail("verdict-differs", "op %d (thread %d of %d): the proof of a satisfied circuit with %s is rejected by a fresh verifier", o.op, t, nt, w.s.kinds())
					}
					if o.it.valid == violated && ok {
						r.fail("false-accepted", "op %d: the proof of a violated circuit with %s is accepted", o.op, w.s.kinds())
					}
				}
			case "verify":
				want := o.it.fits && o.pf.from >= 0 && eqAsgPublic(o.it.a, w.stock[o.pf.from].a)
				if !o.it.fits && o.pf.from >= 0 {
					// Only its public values count.
					ok, _, _ := verifyCirc(fresh[of[o.obj]].vrf, buckler.Circuit[E](o.it.c), o.pf.pf)
					want = ok
				}
				r.log("op %d verify: %v", o.op, o.ok)
				if o.ok != want {
					r.fail("verdict-differs", "op %d (thread %d of %d): the verdict is %v instead of %v (%s)", o.op, t, nt, o.ok, want, w.s.kinds())
				}
			}
			if r.viol != nil {
				return
			}
		}
	}
	// The old verifiers agree with the fresh ones on what was proved meanwhile.
	for t := range lanes {
		for _, o := range lanes[t] {
			if o.what != "prove" || o.err != nil || o.it.valid != holds || !o.it.fits {
				continue
			}
			for ni, n := range nodes {
				if of[ni] != of[o.obj] {
					continue
				}
				if ok, pan, _ := verifyCirc(n.vrf, buckler.Circuit[E](o.it.c), o.pf.pf); !ok || pan != nil {
					r.fail("verdict-differs", "op %d: a used verifier rejects what a fresh one accepts (%s)", o.op, worlds[of[ni]].s.kinds())
					return
				}
			}
		}
	}
}

func genB06(r *Rng, tier string) *Plan {
	p := &Plan{Kind: "threads", Cfg: snarkCfg(r)}
	p.Cfg["logn"] = int64(pick(r, []int{2, 3, 3, 3, 4, 5}))
	schedCfg(r, p.Cfg)
	p.Cfg["threads"] = int64(2 + r.n(3))
	if r.p(40) {
		p.Cfg["reuse"] = 1
	}
	race := r.p(20)
	p.Ops = genSpecOps(r, 1+r.n(4))
	if race {
		p.Cfg["logn"] = int64(2 + r.n(2))
		p.Ops = genSpecOps(r, 1+r.n(2))
	}
	if r.p(60) {
		p.Ops = append(p.Ops, Op{K: "lin", N: []int64{int64(r.n(6) % 4), 0}})
		if !race {
			p.Ops = append(p.Ops, Op{K: "lin", N: []int64{int64(r.n(3)), int64(r.n(2))}})
		}
	}
	if race && r.p(70) {
		p.Ops = append(p.Ops, Op{K: pick(r, []string{"two", "two", "inf", "approx"}), N: []int64{int64(1 + r.n(8)), 0, 0}})
	}
	for k := 0; k < 6; k++ {
		p.Cfg[fmt.Sprintf("own%d", k)] = int64(r.n(4))
	}
	n := 5 + r.n(6)
	if race {
		n = 3 + r.n(3)
	} else if r.p(35) {
		p.Kind = "history"
		p.Cfg["threads"] = 1
		n = 8 + r.n(12)
	}
	if race && r.p(50) {
		// All of them verify one proof, or use one assignment, at about the same time.
		for k := 0; k < 6; k++ {
			p.Cfg[fmt.Sprintf("own%d", k)] = 0
		}
		it, pf := int64(r.n(2)), int64(r.n(2))
		for k := int64(0); k < 3; k++ {
			if r.p(50) {
				p.Ops = append(p.Ops, Op{K: "prove", N: []int64{k, it}})
			}
			p.Ops = append(p.Ops, Op{K: "verify", N: []int64{k, it, pf}}, Op{K: "verify", N: []int64{k, it, pf}})
		}
		n = 0
	}
	for ; n > 0; n-- {
		p.Ops = append(p.Ops, Op{K: pick(r, []string{"prove", "prove", "verify", "verify", "verify"}), N: []int64{int64(r.n(3)), int64(r.n(numStock)), int64(r.n(3))}})
	}
	if r.p(30) {
		for k := 1 + r.n(2); k > 0; k-- {
			p.Ops = append(p.Ops, Op{K: "compile", N: []int64{int64(r.n(3)), int64(r.n(numStock)), int64(r.n(3)), int64(r.n(4)), int64(r.n(2))}})
		}
	}
	if race {
		p.Kind = "races"
		p.Cfg["race"] = 1
		p.Cfg["mean"] = raceMean(r)
		if r.p(30) {
			// All of them compile at about the same time.
			var ops []Op
			for _, o := range p.Ops {
				if o.K != "prove" && o.K != "verify" && o.K != "compile" {
					ops = append(ops, o)
				}
			}
			it, other := int64(r.n(2)), int64(r.n(2))
			for k := int64(0); k < min(3, p.Cfg["threads"]); k++ {
				ops = append(ops, Op{K: "compile", N: []int64{2 * other * k, it, 0, k, other}})
			}
			p.Ops = ops
		}
	}
	return p
}

func scriptB06(i int, tier string) *Plan {
	if i < 2 {
		// With the real random projection. Its prover and verifier share what they are compiled from.
		p := &Plan{Kind: "projection", Cfg: map[string]int64{"field": int64(1 + i), "logn": 11, "form": 0, "crs": 8, "threads": int64(2 - i), "mean": 200000, "burst": 1, "cpus": 2,
			"small": 1}}
		p.Ops = []Op{{K: "approx", N: []int64{1}}, {K: "prove", N: []int64{0, 0}}, {K: "verify", N: []int64{0, 0, 0}}, {K: "verify", N: []int64{0, 0, 1}},
			{K: "verify", N: []int64{0, 1, 0}}, {K: "prove", N: []int64{0, 1}}, {K: "verify", N: []int64{0, 0, 0}}}
		return p
	}
	i -= 2
	if i < 2 {
		// All of them compile at about the same time.
		p := &Plan{Kind: "races", Cfg: map[string]int64{"field": int64(2 * i), "logn": 2, "form": 0, "crs": 8, "threads": 2, "mean": 100, "burst": 0, "cpus": 2, "race": 1}}
		p.Ops = []Op{{K: "lin", N: []int64{int64(i), 0}, Seed: 3}, {K: "two", N: []int64{5, 0, 0}, Seed: 9},
			{K: "compile", N: []int64{0, 0, 0, 0, int64(i)}}, {K: "compile", N: []int64{2 * int64(i), 1, 0, 1, int64(i)}}}
		return p
	}
	i -= 2
	if i >= 3*numFields {
		return nil
	}
	kind := i / numFields
	f := int64(i % numFields)
	if kind == 2 && f > 1 {
		kind = 0
	}
	p := &Plan{Kind: []string{"threads", "history", "races"}[kind], Cfg: map[string]int64{"field": f, "logn": 3, "form": f % 2, "crs": f,
		"threads": 4, "mean": []int64{300, 0, 3000}[kind], "burst": int64(i % 2), "cpus": 2}}
	switch kind {
	case 1:
		p.Cfg["threads"] = 1
	case 2:
		p.Cfg["race"] = 1
	}
	r := newRng(uint64(700 + i))
	p.Ops = append(p.Ops, genSpecOps(r, 2-kind/2)...)
	p.Ops = append(p.Ops, Op{K: "lin", N: []int64{(f + int64(kind)/2) % 3, 0}, Seed: 5})
	if kind == 2 {
		p.Ops = append(p.Ops, Op{K: []string{"two", "inf"}[f%2], N: []int64{5, 0, 0}, Seed: 9})
	}
	for n := int64(0); n < 3; n++ {
		if kind == 2 {
			p.Ops = append(p.Ops, Op{K: "verify", N: []int64{n, 0, 0}}, Op{K: "prove", N: []int64{n, n % 2}}, Op{K: "verify", N: []int64{n, 0, 0}})
			continue
		}
		p.Ops = append(p.Ops, Op{K: "prove", N: []int64{n, 2 + f%2}}, Op{K: "verify", N: []int64{n, 0, 2}}, Op{K: "prove", N: []int64{n, n % 2}}, Op{K: "verify", N: []int64{n, 0, 0}})
	}
	if f%2 == 1 || kind == 2 {
		p.Ops = append(p.Ops, Op{K: "compile", N: []int64{0, 0, 0, 0, 1}}, Op{K: "compile", N: []int64{1, 1, 0, 1, 1}})
	}
	return p
}

func init() {
	register(&Prop{
		ID: "B06", Race: true, Script: scriptB06, Gen: genB06, Exec: dispatchB06,
		Rule: "three compiled provers and their verifiers, of a circuit as for B01 and of one that shares its linear relations, which prove and verify a stock of " +
			"assignments (satisfied, violated, misfitting) and proofs (honest, altered) that they share, and more that are compiled meanwhile, in a sequence or in 2 to 4 threads x seeded schedules; " +
			"races by the detector under the same schedules; verdicts compared with fresh objects, arguments and results with snapshots",
		Real: snarkReal,
		Stub: []string{"thread scheduler", "entropy source", "sync primitives (same semantics, under the scheduler)"},
	})
}
