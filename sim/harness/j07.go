package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/bits"
	"reflect"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/simhook"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// J07: what the challenges of an evaluation depend on.

func dispatchJ07(p *Plan, r *Run) {
	switch p.Cfg["field"] % numFields {
	case 0:
		execJ07[f0](p, r)
	case 1:
		execJ07[f1](p, r)
	case 2:
		execJ07[f2](p, r)
	case 3:
		execJ07[f3](p, r)
	case 4:
		execJ07[f4](p, r)
	}
}

// outputs returns what fn drew from its oracle, in pieces of 16 bytes.
func outputs(fn func()) [][]byte {
	simhook.Recording = true
	simhook.Records = nil
	fn()
	simhook.Recording = false
	var all []byte
	for _, r := range simhook.Records {
		all = append(all, r.Out...)
	}
	simhook.Records = nil
	var out [][]byte
	for ; len(all) >= 16; all = all[16:] {
		out = append(out, all[:16])
	}
	return out
}

func eqOutputs(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// bump changes one value of one limb of one polynomial, the edges more often.
func bump(rng *Rng, q *ring.Ring, l []ring.Poly) string {
	edge := func(n int) int {
		switch rng.n(4) {
		case 0:
			return 0
		case 1:
			return n - 1
		}
		return rng.n(n)
	}
	i := edge(len(l))
	k := edge(limbs(q, l[i]))
	j := edge(len(l[i].Coeffs[0]))
	m := q.SubRings[k].Modulus
	old := l[i].Coeffs[k][j]
	v := old ^ 1<<uint(rng.n(50))
	if v >= m || rng.p(50) {
		v = (old + 1 + rng.u64()%(m-1)) % m
	}
	l[i].Coeffs[k][j] = v
	return fmt.Sprintf("polynomial %d limb %d value %d", i, k, j)
}

// nudge changes an element by a power of two, so that each of its bits is reached.
func nudge[E bignum.Uint[E]](rng *Rng, x E) E {
	m := modulus[E]()
	d := new(big.Int).Lsh(big.NewInt(1), uint(rng.n(m.BitLen()-1)))
	d.Add(d, bigOf(x))
	return elemOf[E](d.Mod(d, m))
}

// effective recovers the challenges that a proof was made with, from the proof itself:
// those of the columns if there is one commitment, and those of the batch otherwise.
func (k *kit[E]) effective(o []*jindo.Opening, pf *jindo.Proof) [][]uint64 {
	var rows [][]ring.Poly
	var rhs []ring.Poly
	if len(o) > 1 {
		for j := range pf.InCommit {
			var row []ring.Poly
			for i := range o {
				row = append(row, o[i].InCommit[j])
			}
			rows, rhs = append(rows, row), append(rhs, pf.InCommit[j])
		}
		return solve(k.qq, rows, rhs)
	}
	cols := k.params.Cols()
	sum := func(p, mask ring.Poly) ring.Poly {
		d := k.q.NewPoly()
		k.q.Sub(p, mask, d)
		return d
	}
	for i := range pf.Encode {
		var row []ring.Poly
		for c := 0; c < cols; c++ {
			row = append(row, o[0].Encode[c][i])
		}
		rows, rhs = append(rows, row), append(rhs, sum(pf.Encode[i], o[0].Encode[cols][i]))
	}
	for i := range pf.MLWE {
		var row []ring.Poly
		for c := 0; c < cols; c++ {
			row = append(row, o[0].MLWE[c][i])
		}
		rows, rhs = append(rows, row), append(rhs, sum(pf.MLWE[i], o[0].MLWE[cols][i]))
	}
	return solve(k.q, rows, rhs)
}

// solve finds the polynomials, by the residues of their coefficients in the first limb, whose
// combination by each row is its right-hand side.
func solve(q *ring.Ring, rows [][]ring.Poly, rhs []ring.Poly) [][]uint64 {
	n, sub := len(rows[0]), q.SubRings[0]
	m := sub.Modulus
	mul := func(a, b uint64) uint64 {
		hi, lo := bits.Mul64(a, b)
		return bits.Rem64(hi, lo, m)
	}
	out := make([][]uint64, n)
	for c := range out {
		out[c] = make([]uint64, q.N())
	}
	for t := 0; t < q.N(); t++ {
		var a [][]uint64
		for i := range rows {
			e := make([]uint64, n+1)
			for c := 0; c < n; c++ {
				e[c] = rows[i][c].Coeffs[0][t]
			}
			e[n] = rhs[i].Coeffs[0][t]
			a = append(a, e)
		}
		for c := 0; c < n; c++ {
			piv := -1
			for i := c; i < len(a); i++ {
				if a[i][c] != 0 {
					piv = i
					break
				}
			}
			if piv < 0 {
				return nil
			}
			a[c], a[piv] = a[piv], a[c]
			inv := new(big.Int).ModInverse(new(big.Int).SetUint64(a[c][c]), new(big.Int).SetUint64(m)).Uint64()
			for j := c; j <= n; j++ {
				a[c][j] = mul(a[c][j], inv)
			}
			for i := range a {
				if i == c || a[i][c] == 0 {
					continue
				}
				f := a[i][c]
				for j := c; j <= n; j++ {
					a[i][j] = (a[i][j] + m - mul(f, a[c][j])) % m
				}
			}
		}
		for c := 0; c < n; c++ {
			out[c][t] = a[c][n]
		}
	}
	// The quotient of two internal forms is plain.
	for c := range out {
		sub.INTT(out[c], out[c])
	}
	return out
}

func execJ07[E bignum.Uint[E]](p *Plan, r *Run) {
	data := newRng(mix(p.Seed, 5))
	batch := max(int(p.Cfg["batch"]), 1)
	crs := data.bytes(int(p.Cfg["crs"]))
	k := newKit[E](max(int(p.Cfg["n"]), 1), batch, crs)
	pr, vf := k.prover(), k.verifier()
	draw := func() *session[E] {
		var vs [][]E
		for i := 0; i < batch; i++ {
			vs = append(vs, randVec[E](data, k.polyLen(data, int64(data.n(10))), data.n(numPats)))
		}
		s := k.commit(pr, vs...)
		s.x = evalPoint[E](data, int64(data.n(8)))
		return s
	}
	s := draw()
	fromProver := outputs(func() { s.y, s.pf = pr.Evaluate(s.x, s.v, s.com, s.open) })
	base := tamperedOf(s, crs)
	at := func(v *jindo.Verifier[E], t *tampered[E]) (o [][]byte) {
		return outputs(func() { verify(v, t.x, t.com, t.y, t.pf) })
	}
	fromVerifier := at(vf, base)
	if len(fromProver) == 0 || len(fromVerifier) == 0 {
		// Challenges come from somewhere the seam does not see.
		r.probe("oracle_not_seen")
		r.log("the oracle was not seen")
	}
	if !eqOutputs(fromProver, fromVerifier) {
		r.fail("sides-differ", "prover and verifier derive different challenges from one transcript")
		return
	}
	cols := k.params.Cols()
	var eff [][][]uint64
	drawn := map[string]bool{}
	note := func(s *session[E], pf *jindo.Proof, out [][]byte) {
		key := string(bytes.Join(out, nil))
		if p.Cfg["solve"] == 1 && !drawn[key] {
			drawn[key] = true
			if e := k.effective(s.open, pf); e != nil {
				eff = append(eff, e)
			}
		}
	}
	note(s, s.pf, fromProver)
	// distinct compares the outputs of a variant with those of the base.
	distinct := func(what, detail string, a, b [][]byte, from int) {
		if len(a) == 0 || len(b) == 0 {
			r.probe("not_reached_" + what)
			return
		}
		if len(a) != len(b) {
			r.fail("challenge-count", "%s (%s): %d challenges instead of %d", what, detail, len(b), len(a))
			return
		}
		r.fault("changed_" + what)
		for i := max(from, 0); i < len(a); i++ {
			if bytes.Equal(a[i], b[i]) {
				name := "column"
				if i < len(a)-cols {
					name = "batching"
				}
				r.fail("unbound-"+what, "%s (%s): %s challenge %d is the same as without the change", what, detail, name, i)
				return
			}
		}
	}
	for oi, o := range p.Ops {
		d := newRng(o.Seed)
		t := tamperedOf(s, crs)
		kind := o.K
		detail := ""
		v, from := vf, 0
		i := d.n(batch)
		switch kind {
		case "crs":
			if len(t.crs) == 0 {
				continue
			}
			j := d.n(len(t.crs))
			if d.p(40) {
				j = len(t.crs) - 1
			}
			t.crs[j] ^= 1 << uint(d.n(8))
			detail = fmt.Sprintf("byte %d of %d", j, len(t.crs))
			v = jindo.NewVerifier[E](k.params, t.crs)
		case "com":
			detail = fmt.Sprintf("commitment %d %s", i, bump(d, k.qq, t.com[i].Value))
		case "com-order":
			j := (i + 1 + d.n(max(batch-1, 1))) % batch
			if eqPolys(t.com[i].Value, t.com[j].Value) {
				continue
			}
			t.com[i], t.com[j] = t.com[j], t.com[i]
			detail = fmt.Sprintf("%d and %d", i, j)
		case "x":
			t.x = nudge(d, t.x)
		case "y":
			t.y[i] = nudge(d, t.y[i])
			detail = fmt.Sprintf("value %d", i)
		case "y-order":
			j := (i + 1 + d.n(max(batch-1, 1))) % batch
			if t.y[i].Cmp(t.y[j]) == 0 {
				continue
			}
			t.y[i], t.y[j] = t.y[j], t.y[i]
			detail = fmt.Sprintf("%d and %d", i, j)
		case "y-shift":
			// A change of two values that keeps their sum.
			j := (i + 1 + d.n(max(batch-1, 1))) % batch
			if i == j {
				continue
			}
			e := randElem[E](d)
			t.y[i].Add(t.y[i], e)
			t.y[j].Sub(t.y[j], e)
			if bigOf(e).Sign() == 0 {
				continue
			}
			detail = fmt.Sprintf("%d and %d", i, j)
		case "partial":
			detail = bump(d, k.q, t.pf.Partial)
			from = len(fromVerifier) - cols
		case "partial-order":
			j := d.n(cols)
			l := d.n(cols)
			if t.pf.Partial[j].Equal(&t.pf.Partial[l]) {
				continue
			}
			t.pf.Partial[j], t.pf.Partial[l] = t.pf.Partial[l], t.pf.Partial[j]
			from = len(fromVerifier) - cols
		case "mask":
			l := []ring.Poly{t.pf.PartialMask}
			detail = bump(d, k.q, l)
			from = len(fromVerifier) - cols
		case "prover-x", "prover-com":
			// The prover's side of the same changes; and both sides still agree.
			n := &session[E]{x: t.x, v: s.v, com: t.com, open: s.open}
			if kind == "prover-x" {
				n.x = nudge(d, n.x)
			} else {
				detail = fmt.Sprintf("commitment %d %s", i, bump(d, k.qq, n.com[i].Value))
			}
			a := outputs(func() { n.y, n.pf = pr.Evaluate(n.x, n.v, n.com, n.open) })
			distinct(kind, detail, fromProver, a, 0)
			b := at(vf, tamperedOf(n, crs))
			if len(b) > 0 && !eqOutputs(a, b) {
				r.fail("sides-differ", "prover and verifier derive different challenges from one transcript (after %s)", kind)
			}
			note(s, n.pf, a)
			r.log("op %d %s %d %d", oi, kind, len(a), len(b))
			continue
		case "session":
			// Another commitment and point altogether.
			n := draw()
			a := outputs(func() { n.y, n.pf = pr.Evaluate(n.x, n.v, n.com, n.open) })
			distinct(kind, "", fromProver, a, 0)
			if b := at(vf, tamperedOf(n, crs)); !eqOutputs(a, b) {
				r.fail("sides-differ", "prover and verifier derive different challenges from one transcript")
			}
			note(n, n.pf, a)
			continue
		case "bytes":
			// Nearly all that the oracle delivers ends up in the challenge polynomials.
			if p.Cfg["solve"] != 1 {
				continue
			}
			ref := k.effective(s.open, s.pf)
			if ref == nil {
				continue
			}
			c := d.n(len(ref))
			used := 0
			for j := 0; j < 16; j++ {
				pos := 0
				simhook.Tweak = func(alg string, out []byte) {
					for i := range out {
						if pos == 16*c+j {
							out[i] ^= 1 << uint(d.n(8))
						}
						pos++
					}
				}
				_, pf := pr.Evaluate(s.x, s.v, s.com, s.open)
				simhook.Tweak = nil
				if pos == 0 {
					used = 16
					break
				}
				e := k.effective(s.open, pf)
				if e == nil || !reflect.DeepEqual(e[c], ref[c]) {
					used++
				}
			}
			r.probe("challenge_bytes_checked")
			if used < 12 {
				r.fail("challenge-bytes-ignored", "only %d of the 16 bytes of challenge %d have a part in its polynomial", used, c)
			}
			continue
		case "prover-crs":
			if len(t.crs) == 0 {
				continue
			}
			t.crs[d.n(len(t.crs))] ^= 1 << uint(d.n(8))
			q := jindo.NewProver[E](k.params, t.crs)
			a := outputs(func() { q.Evaluate(s.x, s.v, s.com, s.open) })
			distinct(kind, "", fromProver, a, 0)
			continue
		default:
			continue
		}
		out := at(v, t)
		distinct(kind, detail, fromVerifier, out, from)
		if len(out) > 0 {
			r.log("op %d %s %s %x", oi, kind, detail, out[len(out)-1])
		}
		if r.viol != nil {
			return
		}
	}
	// The polynomials that the challenges become, as recovered from the proofs, span what the parameters promise.
	for a := range eff {
		for b := 0; b < a; b++ {
			same := true
			for c := range eff[a] {
				for i := range eff[a][c] {
					same = same && eff[a][c][i] == eff[b][c][i]
				}
			}
			if same && len(eff[a]) > 0 {
				r.fail("challenge-repeats", "proofs %d and %d of different transcripts were made with the same challenge polynomials", b, a)
			}
		}
	}
	bound := k.params.ChallengeBound()
	if len(eff) > 0 {
		r.probes["challenges_recovered"] += int64(len(eff) * len(eff[0]))
		for j := 0; j < k.params.Exp(); j++ {
			seen := map[uint64]bool{}
			n := 0
			for a := range eff {
				for c := range eff[a] {
					seen[eff[a][c][j*k.params.Slots()]] = true
					n++
				}
			}
			want := 1
			switch {
			case bound > uint64(64*n) && n > 1:
				want = n / 2
			case bound > 8 && n >= 12:
				want = 4
			case bound >= 2 && n >= 40:
				want = 2
			}
			if len(seen) < want {
				r.fail("challenge-narrow", "coefficient %d of %d challenges takes %d values out of %d", j, n, len(seen), bound)
			}
		}
	}
}

var j07Kinds = []string{"crs", "com", "com", "com-order", "x", "x", "y", "y", "y-order", "y-shift", "partial", "partial", "partial-order", "mask",
	"prover-x", "prover-com", "session", "prover-crs"}

func genJ07(r *Rng, tier string) *Plan {
	p := &Plan{Kind: "transcript", Cfg: map[string]int64{
		"field": int64(r.n(numFields)), "n": pick(r, []int64{1, 9, 33, 64, 128}), "batch": int64(pick(r, []int{1, 2, 2, 3, 4})),
		"crs": pick(r, []int64{0, 1, 15, 16, 17, 32, 33, 64, 100, 200}),
	}}
	if r.p(35) {
		p.Cfg["n"] = wideN(p.Cfg["field"]) * (1 + int64(r.n(2)))
	}
	if r.p(50) {
		p.Cfg["solve"] = 1
	}
	for i := 12 + r.n(20); i > 0; i-- {
		p.Ops = append(p.Ops, Op{K: pick(r, j07Kinds)})
	}
	if r.p(10) {
		p.Cfg["solve"] = 1
		p.Ops = append(p.Ops, Op{K: "bytes"})
	}
	return p
}

func scriptJ07(i int, tier string) *Plan {
	if i >= 2*numFields {
		return nil
	}
	p := &Plan{Kind: "transcript", Cfg: map[string]int64{"field": int64(i % numFields), "n": 64, "batch": 3, "crs": 40, "solve": 1}}
	if i >= numFields {
		p.Cfg["batch"] = 1
		p.Cfg["n"] = wideN(int64(i)) * 2
	}
	for j := 0; j < 12; j++ {
		p.Ops = append(p.Ops, Op{K: "prover-x"})
	}
	p.Ops = append(p.Ops, Op{K: "bytes"})
	for _, kd := range j07Kinds {
		p.Ops = append(p.Ops, Op{K: kd}, Op{K: kd})
	}
	return p
}

func init() {
	register(&Prop{
		ID: "J07", Script: scriptJ07, Gen: genJ07, Exec: dispatchJ07,
		Rule: "an honest evaluation, then 12 to 32 variants of it in which one component changed in one place (reference string, commitment, order, " +
			"point, value, partial evaluation, mask), on the verifier's or prover's side; every output of the challenge oracle after that component " +
			"must differ, both sides must agree, and the challenge polynomials recovered from the proofs must span their range",
		Real: []string{"jindo prover, verifier, encoder, commitment key, parameters", "SHAKE128 (behind a recording wrapper)", "csprng samplers", "field arithmetic", "lattigo rings (dependency)"},
		Stub: []string{"entropy source", "network"},
	})
}
