package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/buckler/internal/zp110"
	"github.com/sp301415/ringo-snark/buckler/internal/zp220"
	"github.com/sp301415/ringo-snark/buckler/internal/zp440"
	"github.com/sp301415/ringo-snark/buckler/internal/zp880"
	bfvzp "github.com/sp301415/ringo-snark/examples/bfv/zp"
	multzp "github.com/sp301415/ringo-snark/examples/mult/zp"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/jindo/simzp"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/csprng"
	"github.com/sp301415/ringo-snark/simhook"
)

// E01: an entropy source that fails, or delivers in pieces, at every read there is.

func dispatchE01(p *Plan, r *Run) {
	switch p.Cfg["field"] % numFields {
	case 0:
		execE01[f0](p, r)
	case 1:
		execE01[f1](p, r)
	case 2:
		execE01[f2](p, r)
	case 3:
		execE01[f3](p, r)
	case 4:
		execE01[f4](p, r)
	}
}

// entStage is a step that may need entropy. It returns what was made of it.
type entStage struct {
	name string
	do   func() (out []byte, err error)
}

// entWorld is a sequence of steps, and what tells whether what they made is good.
type entWorld struct {
	stages []entStage
	check  func(r *Run, done int) string
	// bits is how many bits of entropy each step needs, where that is known.
	bits []int
}

type randElems interface {
	SetRandom() error
	MustSetRandom()
}

// fieldStages are the steps of one of the seven fields.
func fieldStages[U any, V ~[]U, PU interface {
	*U
	SetRandom() (*U, error)
	MustSetRandom() *U
	SetInt64(int64) *U
	Marshal() []byte
}, R interface {
	SetRandom() error
	MustSetRandom()
}](name string, n int, vec func(V) R) (w *entWorld) {
	var top U
	bits := new(big.Int).SetBytes(PU(PU(&top).SetInt64(-1)).Marshal()).BitLen()
	show := func(v V) (b []byte) {
		for i := range v {
			b = append(b, PU(&v[i]).Marshal()...)
		}
		return b
	}
	return &entWorld{bits: []int{bits, bits, n * bits, n * bits}, stages: []entStage{
		{name + " SetRandom", func() ([]byte, error) {
			v := make(V, 1)
			p, err := PU(&v[0]).SetRandom()
			if err != nil {
				return nil, err
			}
			if p != &v[0] {
				return nil, fmt.Errorf("another element")
			}
			return show(v), nil
		}},
		{name + " MustSetRandom", func() ([]byte, error) {
			v := make(V, 1)
			PU(&v[0]).MustSetRandom()
			return show(v), nil
		}},
		{name + " Vector.SetRandom", func() ([]byte, error) {
			v := make(V, n)
			err := vec(v).SetRandom()
			return show(v), err
		}},
		{name + " Vector.MustSetRandom", func() ([]byte, error) {
			v := make(V, n)
			vec(v).MustSetRandom()
			return show(v), nil
		}},
	}}
}

func elementWorld(kind int64, n int) *entWorld {
	w := &entWorld{}
	switch kind % 7 {
	case 0:
		w = fieldStages[zp110.Uint, zp110.Vector]("zp110", n, func(v zp110.Vector) zp110.Vector { return v })
	case 1:
		w = fieldStages[zp220.Uint, zp220.Vector]("zp220", n, func(v zp220.Vector) zp220.Vector { return v })
	case 2:
		w = fieldStages[zp440.Uint, zp440.Vector]("zp440", n, func(v zp440.Vector) zp440.Vector { return v })
	case 3:
		w = fieldStages[zp880.Uint, zp880.Vector]("zp880", n, func(v zp880.Vector) zp880.Vector { return v })
	case 4:
		w = fieldStages[simzp.Uint, simzp.Vector]("jindo zp", n, func(v simzp.Vector) simzp.Vector { return v })
	case 5:
		w = fieldStages[bfvzp.Uint, bfvzp.Vector]("bfv zp", n, func(v bfvzp.Vector) bfvzp.Vector { return v })
	case 6:
		w = fieldStages[multzp.Uint, multzp.Vector]("mult zp", n, func(v multzp.Vector) multzp.Vector { return v })
	}
	return w
}

func samplerWorld(d *Rng) *entWorld {
	sigma := pick(d, []float64{1.5, 2, 3.2, 10, 45.7, 1000})
	var tw *csprng.TwinCDTGaussianSampler
	floats := func(l ...float64) (b []byte) {
		for _, x := range l {
			b = binary.LittleEndian.AppendUint64(b, math.Float64bits(x))
		}
		return b
	}
	ints := func(f func() int64) (b []byte) {
		for i := 0; i < 16; i++ {
			b = binary.LittleEndian.AppendUint64(b, uint64(f()))
		}
		return b
	}
	return &entWorld{stages: []entStage{
		{"NewUniformSampler", func() ([]byte, error) {
			s := csprng.NewUniformSampler()
			b := make([]byte, 100)
			_, err := s.Read(b)
			return append(b, floats(s.SampleFloat(), float64(s.SampleN(1000)))...), err
		}},
		{"NewRoundedGaussianSampler", func() ([]byte, error) {
			s := csprng.NewRoundedGaussianSampler()
			return ints(func() int64 { return s.Sample(0.5, sigma*1000) }), nil
		}},
		{"NewCOSACSampler", func() ([]byte, error) {
			s := csprng.NewCOSACSampler()
			return ints(func() int64 { return s.Sample(0.3, sigma) }), nil
		}},
		{"NewTwinCDTGaussianSampler", func() ([]byte, error) {
			s := csprng.NewTwinCDTGaussianSampler(sigma)
			out := ints(func() int64 { return s.Sample(0.7) })
			tw = s
			return out, nil
		}},
		{"TwinCDT SafeCopy", func() ([]byte, error) {
			if tw == nil {
				return nil, fmt.Errorf("there is none")
			}
			c := tw.SafeCopy()
			return ints(func() int64 { return c.Sample(0.1) }), nil
		}},
	}}
}

// schemeWorld is a prover, its copy, and the copy's copy, that commit and evaluate.
func schemeWorld[E bignum.Uint[E]](k *kit[E], seed uint64) *entWorld {
	d := newRng(seed)
	var pr [3]*jindo.Prover[E]
	var ss [3]*session[E]
	var vs [3][][]E
	for i := range vs {
		for j := 0; j < k.params.Batch(); j++ {
			vs[i] = append(vs[i], randVec[E](d, k.polyLen(d, int64(d.n(10))), d.n(numPats)))
		}
	}
	x := randElem[E](d)
	w := &entWorld{}
	for i := range pr {
		w.stages = append(w.stages, entStage{[]string{"NewProver", "SafeCopy", "SafeCopy of a copy"}[i], func() ([]byte, error) {
			if i == 0 {
				pr[0] = k.prover()
			} else {
				if pr[i-1] == nil {
					return nil, fmt.Errorf("there is none")
				}
				pr[i] = pr[i-1].SafeCopy()
			}
			return nil, nil
		}})
	}
	for i := range pr {
		w.stages = append(w.stages, entStage{"Commit", func() ([]byte, error) {
			if pr[i] == nil {
				return nil, fmt.Errorf("there is none")
			}
			s := k.commit(pr[i], vs[i]...)
			ss[i] = s
			return wireComs(s.com), nil
		}}, entStage{"Evaluate", func() ([]byte, error) {
			s := ss[i]
			if s == nil {
				return nil, fmt.Errorf("there is none")
			}
			s.x = x
			y, pf := pr[i].Evaluate(x, s.v, s.com, s.open)
			s.y, s.pf = y, pf
			return append(wireElems(y), wireProof(pf)...), nil
		}})
	}
	w.check = func(r *Run, done int) string {
		vf := k.verifier()
		for i := range ss {
			if ss[i] == nil || ss[i].pf == nil {
				if done > 3+2*i+1 {
					return "there is no proof"
				}
				continue
			}
			if ok, pan := verify(vf, x, ss[i].com, ss[i].y, ss[i].pf); !ok || pan != nil {
				return fmt.Sprintf("the proof of prover %d is rejected: %v %s", i, ok, short(pan, 100))
			}
		}
		return ""
	}
	return w
}

// snarkWorld is a compiled circuit that is proved twice.
func snarkWorld[E bignum.Uint[E]](s *spec[E], crs []byte, seed uint64) *entWorld {
	var prv *buckler.Prover[E]
	var vrf *buckler.Verifier[E]
	a := s.fill(seed)
	c := s.assign(a, true)
	var pfs [2]*buckler.Proof[E]
	w := &entWorld{}
	w.stages = append(w.stages, entStage{"Compile", func() ([]byte, error) {
		p, v, err := s.compile(crs)
		if err != nil {
			return nil, err
		}
		prv, vrf = p, v
		return nil, nil
	}})
	for i := range pfs {
		w.stages = append(w.stages, entStage{"Prove", func() ([]byte, error) {
			if prv == nil {
				return nil, fmt.Errorf("there is none")
			}
			pf, err := prv.Prove(c)
			if err != nil {
				return nil, err
			}
			pfs[i] = pf
			return wireSnark(pf), nil
		}})
	}
	w.check = func(r *Run, done int) string {
		for i := range pfs {
			if pfs[i] == nil {
				if done > 1+i {
					return "there is no proof"
				}
				continue
			}
			if ok, pan, _ := verifyCirc(vrf, buckler.Circuit[E](c), pfs[i]); !ok || pan != nil {
				return fmt.Sprintf("proof %d is rejected: %v %s", i, ok, short(pan, 100))
			}
		}
		return ""
	}
	return w
}

// entResult is how a step went.
type entResult struct {
	out         []byte
	err         error
	pan         any
	reads, last int64 // the reads that it made
}

func (e *entResult) ok() bool { return e.err == nil && e.pan == nil }

func again(st entStage) (out []byte, err error, pan any) {
	defer func() { pan = recover() }()
	out, err = st.do()
	return
}

func (w *entWorld) run(n int, before func(stage int)) (res []*entResult) {
	for i := 0; i < n && i < len(w.stages); i++ {
		before(i)
		e := &entResult{reads: simhook.Ent.Reads}
		func() {
			defer func() { e.pan = recover() }()
			e.out, e.err = w.stages[i].do()
		}()
		e.last = simhook.Ent.Reads
		res = append(res, e)
	}
	return res
}

func execE01[E bignum.Uint[E]](p *Plan, r *Run) {
	data := newRng(mix(p.Seed, 5))
	crs := data.bytes(16)
	simhook.SetNumCPU(1)
	var k *kit[E]
	var s *spec[E]
	newWorld := func(seed uint64) *entWorld {
		switch p.Kind {
		case "elements":
			return elementWorld(p.Cfg["kind"], 1+int(p.Cfg["n"])%40)
		case "samplers":
			return samplerWorld(newRng(seed))
		case "scheme":
			if k == nil {
				k = newKit[E](max(int(p.Cfg["n"]), 1), max(int(p.Cfg["batch"]), 1), crs)
			}
			return schemeWorld(k, seed)
		default:
			if s == nil {
				s = specOf[E](p, p.Ops)
			}
			return snarkWorld(s, crs, seed)
		}
	}
	none := func(int) {}
	type baseline struct {
		res   []*entResult
		total int64
		// zeros is how many reads the stages make of a source of zeros.
		zeros map[int]int64
	}
	bases := map[uint64]*baseline{}
	for i, o := range p.Ops {
		if o.K == "flip" {
			// Every bit of entropy that an element is worth changes it.
			w := newWorld(1)
			j := int(o.n(0)) % len(w.stages)
			if w.bits == nil {
				continue
			}
			one := func(bit int64) *entResult {
				simhook.SeedEntropy(mix(o.Seed, 9))
				simhook.Ent.FlipBit = bit
				e := &entResult{}
				e.out, e.err, e.pan = again(w.stages[j])
				return e
			}
			base := one(0)
			bytesRead := simhook.Ent.Bytes
			need, step := w.bits[j], int64(1)
			if bytesRead > 200 {
				n := int(p.Cfg["n"])%40 + 1
				if j < 2 {
					n = 1
				}
				need, step = n*(need/n/8), 8
			}
			used, from := 0, int64(newRng(o.Seed).n(int(step)))
			for b := from; b < 8*bytesRead; b += step {
				if e := one(1 + b); !bytes.Equal(e.out, base.out) || !e.ok() {
					used++
				}
				r.faults["entropy_bit_flipped"]++
			}
			simhook.SeedEntropy(mix(p.Seed, 1))
			r.log("op %d: %s %d of %d", i, w.stages[j].name, used, need)
			if !base.ok() || used < need-need/50-8/int(step) {
				r.fail("weak-output", "op %d: %s read %d bytes of entropy, of which only %d bits (of every %d) have an effect, for %d bits", i, w.stages[j].name, bytesRead, used, step, w.bits[j])
				return
			}
			continue
		}
		if o.K != "fault" {
			continue
		}
		// N: how, where, how long, size of the pieces
		seed := mix(o.Seed, 1) % 3
		b := bases[seed]
		if b == nil {
			w := newWorld(seed)
			simhook.SeedEntropy(mix(seed, 7))
			b = &baseline{res: w.run(len(w.stages), none)}
			b.total = simhook.Ent.Reads
			bases[seed] = b
			for j, e := range b.res {
				if !e.ok() {
					r.fail("works-not", "op %d: %s without faults: %v %s", i, w.stages[j].name, e.err, short(e.pan, 200))
					return
				}
			}
			if w.check != nil {
				if m := w.check(r, len(w.stages)); m != "" {
					r.fail("works-not", "op %d: without faults %s", i, m)
					return
				}
			}
			r.log("baseline %d: %d reads", seed, b.total)
		}
		if b.total == 0 {
			r.fail("no-entropy", "op %d: no entropy is used", i)
			return
		}
		w := newWorld(seed)
		simhook.SeedEntropy(mix(seed, 7))
		how := o.n(0) % 6
		if how >= 4 {
			// Short deliveries, or empty ones, change nothing.
			if how == 4 {
				simhook.Ent.Chunk = int(1 + o.n(3)%40)
			}
			simhook.Ent.Empty = uint64(o.n(2) % 60)
			if how == 5 && simhook.Ent.Empty == 0 {
				simhook.Ent.Empty = 10
			}
			res := w.run(len(w.stages), none)
			r.faults["short_delivery"] += simhook.Ent.Shorts
			r.faults["empty_delivery"] += simhook.Ent.Empties
			simhook.Ent.Chunk, simhook.Ent.Empty = 0, 0
			for j, e := range res {
				if !e.ok() {
					r.fail("short-fails", "op %d: with short deliveries, %s: %v %s", i, w.stages[j].name, e.err, short(e.pan, 200))
					return
				}
				if !bytes.Equal(e.out, b.res[j].out) {
					r.fail("short-changes", "op %d: with deliveries of at most %d bytes (%d%% empty), %s has another result", i, 1+o.n(3)%40, o.n(2)%60, w.stages[j].name)
					return
				}
			}
			r.log("op %d: short", i)
			continue
		}
		at := 1 + o.n(1)%b.total
		simhook.Ent.FailAt = at
		simhook.Ent.Partial = how&1 == 1
		simhook.Ent.FailLen = 1 << 40
		if how&2 == 2 {
			simhook.Ent.FailLen = 1
		}
		hit := -1
		for j, e := range b.res {
			if e.reads < at && at <= e.last {
				hit = j
			}
		}
		res := w.run(hit+1, none)
		fails := simhook.Ent.Fails
		simhook.Ent.FailAt, simhook.Ent.Partial = 0, false
		r.faults[[]string{"source_fails", "source_fails_midway", "source_fails_once", "source_fails_once_midway"}[how]]++
		for j, e := range res {
			name := w.stages[j].name
			if j < hit {
				if !e.ok() || !bytes.Equal(e.out, b.res[j].out) {
					r.fail("not-repeatable", "op %d: %s before the failure differs: %v %s", i, name, e.err, short(e.pan, 200))
					return
				}
				continue
			}
			if e.ok() {
				r.fail("failure-ignored", "op %d: read %d of %d of the entropy source fails, and %s succeeds (%d failures)", i, at, b.total, name, fails)
				return
			}
			r.log("op %d: fail at %d in %s: %v", i, at, name, e.pan != nil)
		}
		// Now that there is entropy again. The old objects may go on, or not; if they do, they
		// need as much as ever. A source of zeros makes that exact: no draw is rejected.
		if o.n(2)%4 == 1 && hit > 0 {
			simhook.Ent.FixedTo = 1 << 30
			if b.zeros == nil {
				b.zeros = map[int]int64{}
			}
			if _, ok := b.zeros[hit]; !ok {
				z := newWorld(seed)
				res := z.run(hit+1, none)
				b.zeros[hit] = res[hit].last - res[hit].reads
				if !res[hit].ok() {
					b.zeros[hit] = 0
				}
			}
			before := simhook.Ent.Reads
			_, err, pan := again(w.stages[hit])
			n := simhook.Ent.Reads - before
			simhook.Ent.FixedTo = 0
			r.log("op %d: again %v %d of %d", i, pan == nil && err == nil, n, b.zeros[hit])
			if pan == nil && err == nil && n < b.zeros[hit] {
				r.fail("weak-output", "op %d: %s failed at read %d of the entropy source; done again it succeeds with %d reads instead of %d", i, w.stages[hit].name, at, n, b.zeros[hit])
				return
			}
		}
		for j := hit + 1; j < len(w.stages); j++ {
			if _, err, pan := again(w.stages[j]); err == nil && pan == nil {
				r.probe("old_object_goes_on")
			} else {
				r.probe("old_object_stops")
			}
		}
		if o.n(2)%3 == 0 && w.check != nil {
			// What was made before and after verifies.
			if m := w.check(r, hit); m != "" {
				r.fail("weak-output", "op %d: after a failure in %s at read %d, %s", i, w.stages[hit].name, at, m)
				return
			}
		}
		w2 := newWorld(seed + 10)
		for j, e := range w2.run(len(w2.stages), none) {
			if !e.ok() {
				r.fail("works-not", "op %d: after a failure in %s at read %d of %d, new objects: %s: %v %s", i, w.stages[hit].name, at, b.total, w2.stages[j].name, e.err, short(e.pan, 200))
				return
			}
		}
		if w2.check != nil {
			if m := w2.check(r, len(w2.stages)); m != "" {
				r.fail("works-not", "op %d: after a failure in %s, with new objects %s", i, w.stages[hit].name, m)
				return
			}
		}
	}
}

func genE01(r *Rng, tier string) *Plan {
	p := &Plan{Cfg: map[string]int64{"field": int64(r.n(numFields))}}
	n := 0
	switch c := r.n(100); {
	case c < 12:
		p.Kind = "elements"
		p.Cfg["kind"], p.Cfg["n"] = int64(r.n(7)), int64(r.n(40))
		n = 30
	case c < 22:
		p.Kind = "samplers"
		n = 10
	case c < 70:
		p.Kind = "scheme"
		p.Cfg["n"], p.Cfg["batch"] = pick(r, []int64{1, 9, 33, 64}), int64(pick(r, []int{1, 1, 2}))
		if r.p(15) {
			p.Cfg["n"] = wideN(p.Cfg["field"])
		}
		n = 6
	default:
		p.Kind = "proof"
		for k, v := range snarkCfg(r) {
			p.Cfg[k] = v
		}
		p.Cfg["logn"] = int64(pick(r, []int{1, 2, 3, 3, 4}))
		p.Ops = genSpecOps(r, 1+r.n(3))
		n = 4
	}
	for ; n > 0; n-- {
		p.Ops = append(p.Ops, Op{K: "fault", N: []int64{int64(r.n(6)), int64(r.n(1 << 20)), int64(r.n(60)), int64(r.n(40))}})
	}
	if p.Kind == "elements" {
		p.Ops = append(p.Ops, Op{K: "flip", N: []int64{int64(r.n(4))}})
	}
	return p
}

// scriptE01 takes the samplers, the fields and the commitment scheme through a failure at
// every read, and the proof system through one at every few.
func scriptE01(i int, tier string) *Plan {
	type sc struct {
		kind string
		cfg  map[string]int64
		// reads is at least how many reads there are.
		reads, step int64
	}
	var l []sc
	for k := int64(0); k < 7; k++ {
		l = append(l, sc{"elements", map[string]int64{"kind": k, "n": 9}, 60, 1})
	}
	l = append(l, sc{"samplers", map[string]int64{}, 8, 1})
	for f := int64(0); f < numFields; f++ {
		for part := int64(0); part < 4; part++ {
			l = append(l, sc{"scheme", map[string]int64{"field": f, "n": []int64{1, 9}[f%2], "batch": 1, "part": part}, 160, 4})
		}
		l = append(l, sc{"proof", map[string]int64{"field": f, "logn": 2, "form": f % 2}, 400, 37})
	}
	if i >= len(l) {
		return nil
	}
	c := l[i]
	p := &Plan{Kind: c.kind, Cfg: c.cfg}
	if c.kind == "proof" {
		p.Ops = genSpecOps(newRng(uint64(600+i)), 2)
	}
	for at := c.cfg["part"]; at < c.reads; at += c.step {
		p.Ops = append(p.Ops, Op{K: "fault", N: []int64{(at / c.step) % 4, at, at, 0}})
	}
	if c.kind == "elements" {
		for n := int64(0); n < 4; n++ {
			p.Ops = append(p.Ops, Op{K: "flip", N: []int64{n}, Seed: uint64(800 + i)})
		}
	}
	for n := int64(0); n < 4; n++ {
		p.Ops = append(p.Ops, Op{K: "fault", N: []int64{4 + n%2, 0, n / 2 * 20, []int64{0, 6, 30, 1}[n]}})
	}
	return p
}

func init() {
	register(&Prop{
		ID: "E01", Script: scriptE01, Gen: genE01, Exec: dispatchE01,
		Rule: "set-up, copies, commitments, evaluations and proofs, the samplers and the random elements of all seven fields, with an entropy source that fails at any read " +
			"(for good or once, with nothing or half of it delivered) or delivers in pieces of 1 to 40 bytes or nothing now and then; compared with the fault-free run, and " +
			"with new objects after the failure",
		Real: append([]string{"random elements and vectors of all seven generated fields"}, snarkReal...),
		Stub: []string{"entropy source (seeded stream with faults)"},
	})
}
