package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"reflect"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/simhook"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// kit has the tools to simulate parties of the commitment scheme over one field.
type kit[E bignum.Uint[E]] struct {
	params jindo.Parameters
	q, qq  *ring.Ring
	crs    []byte
}

var paramCache = map[string]jindo.Parameters{}

func getParams[E bignum.Uint[E]](n, batch int) jindo.Parameters {
	var z E
	key := fmt.Sprintf("%T %d %d", z, n, batch)
	p, ok := paramCache[key]
	if !ok {
		p = jindo.NewParameters[E](n, batch)
		paramCache[key] = p
	}
	return p
}

func newKit[E bignum.Uint[E]](n, batch int, crs []byte) *kit[E] {
	p := getParams[E](n, batch)
	return &kit[E]{params: p, q: p.RingQ(), qq: p.RingQOut(), crs: crs}
}

// crsCopy returns a buffer with the reference string, and a function that uses the
// buffer for something else, which differs by party.
func crsCopy(crs []byte, party byte) ([]byte, func()) {
	b := bytes.Clone(crs)
	return b, func() {
		for i := range b {
			b[i] ^= party
		}
	}
}

func (k *kit[E]) prover() *jindo.Prover[E] {
	crs, reuse := crsCopy(k.crs, 0xa5)
	defer reuse()
	return jindo.NewProver[E](k.params, crs)
}

func (k *kit[E]) verifier() *jindo.Verifier[E] {
	crs, reuse := crsCopy(k.crs, 0x5a)
	defer reuse()
	return jindo.NewVerifier[E](k.params, crs)
}

// commitJob is a polynomial with its commitment, as durably stored by a prover.
type commitJob[E bignum.Uint[E]] struct {
	v    []E
	com  *jindo.Commitment
	open *jindo.Opening
}

// session is an evaluation: the statement and its proof.
type session[E bignum.Uint[E]] struct {
	x    E
	v    [][]E
	com  []*jindo.Commitment
	open []*jindo.Opening
	y    []E
	pf   *jindo.Proof
}

func (k *kit[E]) commit(p *jindo.Prover[E], v ...[]E) *session[E] {
	s := &session[E]{}
	for i := range v {
		c, o := p.Commit(v[i])
		s.v = append(s.v, v[i])
		s.com = append(s.com, c)
		s.open = append(s.open, o)
	}
	return s
}

func copyPolys(l []ring.Poly) []ring.Poly {
	m := make([]ring.Poly, len(l))
	for i := range l {
		m[i] = *l[i].CopyNew()
	}
	return m
}

func copyCom(c *jindo.Commitment) *jindo.Commitment {
	return &jindo.Commitment{Value: copyPolys(c.Value)}
}

func copyComs(c []*jindo.Commitment) []*jindo.Commitment {
	d := make([]*jindo.Commitment, len(c))
	for i := range c {
		d[i] = copyCom(c[i])
	}
	return d
}

func copyOpen(o *jindo.Opening) *jindo.Opening {
	n := &jindo.Opening{InCommit: copyPolys(o.InCommit)}
	for i := range o.Encode {
		n.Encode = append(n.Encode, copyPolys(o.Encode[i]))
	}
	for i := range o.MLWE {
		n.MLWE = append(n.MLWE, copyPolys(o.MLWE[i]))
	}
	return n
}

func copyOpens(o []*jindo.Opening) []*jindo.Opening {
	d := make([]*jindo.Opening, len(o))
	for i := range o {
		d[i] = copyOpen(o[i])
	}
	return d
}

func copyProof(p *jindo.Proof) *jindo.Proof {
	return &jindo.Proof{
		InCommit:    copyPolys(p.InCommit),
		Partial:     copyPolys(p.Partial),
		PartialMask: *p.PartialMask.CopyNew(),
		Encode:      copyPolys(p.Encode),
		MLWE:        copyPolys(p.MLWE),
	}
}

func eqPolys(a, b []ring.Poly) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Equal(&b[i]) {
			return false
		}
	}
	return true
}

func eqProof(a, b *jindo.Proof) bool {
	return eqPolys(a.InCommit, b.InCommit) && eqPolys(a.Partial, b.Partial) &&
		a.PartialMask.Equal(&b.PartialMask) && eqPolys(a.Encode, b.Encode) && eqPolys(a.MLWE, b.MLWE)
}

func eqComs(a, b []*jindo.Commitment) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eqPolys(a[i].Value, b[i].Value) {
			return false
		}
	}
	return true
}

// putPolys and getPolys put polynomials on the wire and back.
func putPolys(w *bytes.Buffer, l []ring.Poly) {
	binary.Write(w, binary.LittleEndian, uint32(len(l)))
	for i := range l {
		b, err := l[i].MarshalBinary()
		if err != nil {
			panic(err)
		}
		binary.Write(w, binary.LittleEndian, uint32(len(b)))
		w.Write(b)
	}
}

func getPolys(w *bytes.Buffer) []ring.Poly {
	var n, sz uint32
	binary.Read(w, binary.LittleEndian, &n)
	l := make([]ring.Poly, n)
	for i := range l {
		binary.Read(w, binary.LittleEndian, &sz)
		if err := l[i].UnmarshalBinary(w.Next(int(sz))); err != nil {
			panic(err)
		}
	}
	return l
}

func wireComs(c []*jindo.Commitment) []byte {
	var w bytes.Buffer
	for i := range c {
		putPolys(&w, c[i].Value)
	}
	return w.Bytes()
}

func unwireComs(b []byte, n int) []*jindo.Commitment {
	w := bytes.NewBuffer(b)
	c := make([]*jindo.Commitment, n)
	for i := range c {
		c[i] = &jindo.Commitment{Value: getPolys(w)}
	}
	return c
}

func wireProof(p *jindo.Proof) []byte {
	var w bytes.Buffer
	putPolys(&w, p.InCommit)
	putPolys(&w, p.Partial)
	putPolys(&w, []ring.Poly{p.PartialMask})
	putPolys(&w, p.Encode)
	putPolys(&w, p.MLWE)
	return w.Bytes()
}

func unwireProof(b []byte) *jindo.Proof {
	w := bytes.NewBuffer(b)
	p := &jindo.Proof{}
	p.InCommit = getPolys(w)
	p.Partial = getPolys(w)
	p.PartialMask = getPolys(w)[0]
	p.Encode = getPolys(w)
	p.MLWE = getPolys(w)
	return p
}

func wireElems[E bignum.Uint[E]](l []E) []byte {
	var w bytes.Buffer
	for i := range l {
		w.Write(l[i].Marshal())
	}
	return w.Bytes()
}

func unwireElems[E bignum.Uint[E]](b []byte, n int) []E {
	var z E
	l := make([]E, n)
	sz := len(b) / n
	for i := range l {
		l[i] = z.New()
		l[i].Unmarshal(b[i*sz : (i+1)*sz])
	}
	return l
}

// coeffs returns the centred coefficients of a polynomial in the library's internal form.
func coeffs(q *ring.Ring, p ring.Poly) []*big.Int {
	t := q.NewPoly()
	for i := range t.Coeffs {
		copy(t.Coeffs[i], p.Coeffs[i])
	}
	q.IMForm(t, t)
	q.INTT(t, t)
	c := make([]*big.Int, q.N())
	for i := range c {
		c[i] = new(big.Int)
	}
	q.PolyToBigintCentered(t, 1, c)
	return c
}

// fromCoeffs is the inverse of coeffs.
func fromCoeffs(q *ring.Ring, c []*big.Int) ring.Poly {
	p := q.NewPoly()
	t := new(big.Int)
	for l := range p.Coeffs {
		m := new(big.Int).SetUint64(q.SubRings[l].Modulus)
		for i := range c {
			p.Coeffs[l][i] = t.Mod(c[i], m).Uint64()
		}
	}
	q.MForm(p, p)
	q.NTT(p, p)
	return p
}

// normSq returns the squared Euclidean norm of polynomials.
func normSq(q *ring.Ring, l ...ring.Poly) *big.Int {
	s, t := new(big.Int), new(big.Int)
	for i := range l {
		for _, c := range coeffs(q, l[i]) {
			s.Add(s, t.Mul(c, c))
		}
	}
	return s
}

// decode returns the slots that a polynomial encodes.
func (k *kit[E]) decode(p ring.Poly) []*big.Int { return k.decodeCoeffs(coeffs(k.q, p)) }

func (k *kit[E]) decodeCoeffs(c []*big.Int) []*big.Int {
	m := modulus[E]()
	b := new(big.Int).SetUint64(k.params.Base())
	s, e := k.params.Slots(), k.params.Exp()
	out := make([]*big.Int, s)
	for i := range out {
		out[i] = new(big.Int)
		for j := e - 1; j >= 0; j-- {
			out[i].Mul(out[i], b)
			out[i].Add(out[i], c[j*s+i])
		}
		out[i].Mod(out[i], m)
	}
	return out
}

// digits returns the coefficients of the plain encoding of slots.
func (k *kit[E]) digits(v []*big.Int) []*big.Int {
	b := new(big.Int).SetUint64(k.params.Base())
	s, e := k.params.Slots(), k.params.Exp()
	c := make([]*big.Int, k.q.N())
	for i := range c {
		c[i] = new(big.Int)
	}
	for i := range v {
		t := new(big.Int).Set(v[i])
		for j := 0; j < e-1; j++ {
			t.DivMod(t, b, c[j*s+i])
		}
		c[(e-1)*s+i].Set(t)
	}
	return c
}

// encode returns the plain encoding of slots, in the library's internal form.
func (k *kit[E]) encode(v []*big.Int) ring.Poly { return fromCoeffs(k.q, k.digits(v)) }

func (k *kit[E]) encodeOne(v *big.Int, slot int) ring.Poly {
	l := make([]*big.Int, k.params.Slots())
	for i := range l {
		l[i] = new(big.Int)
	}
	l[slot].Mod(v, modulus[E]())
	return k.encode(l)
}

// left and right are the vectors that an evaluation at x contracts the matrix with.
func (k *kit[E]) left(x E) []*big.Int {
	m := modulus[E]()
	xb := bigOf(x)
	skip := new(big.Int).Exp(xb, big.NewInt(int64(k.params.Cols()*k.params.Slots())), m)
	l := make([]*big.Int, k.params.Rows())
	l[0] = big.NewInt(1)
	for i := 1; i < len(l); i++ {
		l[i] = new(big.Int).Mul(l[i-1], skip)
		l[i].Mod(l[i], m)
	}
	l[len(l)-1] = xb
	return l
}

func (k *kit[E]) right(x E, i int) *big.Int {
	return new(big.Int).Exp(bigOf(x), big.NewInt(int64(i)), modulus[E]())
}

// openedValue evaluates at x what an opening encodes, whatever was committed.
func (k *kit[E]) openedValue(x E, o *jindo.Opening) *big.Int {
	m := modulus[E]()
	l := k.left(x)
	y, t := new(big.Int), new(big.Int)
	for i := 0; i < k.params.Cols(); i++ {
		for j := 0; j < k.params.Rows(); j++ {
			for s, d := range k.decode(o.Encode[i][j]) {
				t.Mul(d, l[j])
				t.Mul(t, k.right(x, i*k.params.Slots()+s))
				y.Add(y, t)
			}
		}
	}
	return y.Mod(y, m)
}

// challenge turns the 16 bytes of a challenge into its polynomial, as the protocol says.
func (k *kit[E]) challenge(b []byte) []*big.Int {
	hi, lo := binary.BigEndian.Uint64(b[8:16]), binary.BigEndian.Uint64(b[:8])
	n := new(big.Int).SetUint64(hi)
	n.Lsh(n, 64)
	n.Or(n, new(big.Int).SetUint64(lo))
	cb := k.params.ChallengeBound()
	bb := new(big.Int).SetUint64(cb)
	c := make([]*big.Int, k.q.N())
	for i := range c {
		c[i] = new(big.Int)
	}
	for i := 0; i < k.params.Exp(); i++ {
		r := new(big.Int)
		n.DivMod(n, bb, r)
		if r.Uint64() > cb/2 {
			// The library negates the distance to the bound.
			r.Sub(bb, r)
			r.Neg(r)
		}
		c[i*k.params.Slots()] = r
	}
	return c
}

// transcript is what a prover or verifier drew from its oracle.
type transcript struct{ batch, cols [][]byte }

// transcriptOf splits the recorded challenges of one evaluation.
func (k *kit[E]) transcriptOf(recs []simhook.HashRec) *transcript {
	nb := k.params.Batch()
	if nb == 1 {
		nb = 0
	}
	var out [][]byte
	for _, r := range recs {
		for o := r.Out; len(o) >= 16; o = o[16:] {
			out = append(out, o[:16])
		}
	}
	if len(out) != nb+k.params.Cols() {
		return nil
	}
	return &transcript{batch: out[:nb], cols: out[nb:]}
}

// evaluate runs the prover on a statement, recording its challenges.
func (k *kit[E]) evaluate(p *jindo.Prover[E], x E, v [][]E, com []*jindo.Commitment, open []*jindo.Opening) ([]E, *jindo.Proof, *transcript) {
	simhook.Recording = true
	simhook.Records = nil
	defer func() { simhook.Recording = false; simhook.Records = nil }()
	y, pf := p.Evaluate(x, v, com, open)
	return y, pf, k.transcriptOf(simhook.Records)
}

// rewriting runs fn while replacing, in what the oracles absorb, each old by its new.
func rewriting(fn func(), subst ...[2][]byte) (n int) {
	simhook.Rewrite = func(alg string, in []byte) []byte {
		for _, s := range subst {
			if len(s[0]) > 0 && bytes.Contains(in, s[0]) {
				in = bytes.Replace(in, s[0], s[1], 1)
				n++
			}
		}
		return in
	}
	defer func() { simhook.Rewrite = nil }()
	fn()
	return n
}

func polyBytes(p ring.Poly) []byte {
	var w bytes.Buffer
	p.WriteTo(&w)
	return w.Bytes()
}

// combine recomputes the commitments of an opening from its encodings and hiding terms.
func (k *kit[E]) combine(ck *jindo.CommitKey, o *jindo.Opening, inner bool) *jindo.Commitment {
	p := k.params
	if inner {
		for i := range o.Encode {
			for j := 0; j < p.InMSISRank(); j++ {
				acc := k.q.NewPoly()
				for l := range o.Encode[i] {
					k.q.MulCoeffsMontgomeryThenAdd(ck.In[j][l], o.Encode[i][l], acc)
				}
				for l := 0; l < p.MLWERank(); l++ {
					k.q.MulCoeffsMontgomeryThenAdd(ck.MLWE[j][l], o.MLWE[i][l], acc)
				}
				k.q.Add(acc, o.MLWE[i][p.MLWERank()+j], acc)
				c := coeffs(k.q, acc)
				for l := range c {
					c[l].Rsh(c[l], uint(p.LogInCutOff()))
				}
				o.InCommit[i*p.InMSISRank()+j] = fromCoeffs(k.qq, c)
			}
		}
	}
	com := jindo.NewCommitment(p)
	for i := 0; i < p.OutMSISRank(); i++ {
		acc := k.qq.NewPoly()
		for j := range o.InCommit {
			k.qq.MulCoeffsMontgomeryThenAdd(ck.Out[i][j], o.InCommit[j], acc)
		}
		c := coeffs(k.qq, acc)
		for l := range c {
			c[l].Rsh(c[l], uint(p.OutCutOff()))
		}
		v := fromCoeffs(k.qq, c)
		for l := range v.Coeffs {
			copy(com.Value[i].Coeffs[l], v.Coeffs[l])
		}
	}
	return com
}

// degenerate makes every commitment key built from now on lack some of its entries,
// for both sides, so that only the others can tell a lie.
//
//	kind 1: only row a of In, MLWE and Out is there
//	kind 2: only column a of In, and column b of Out, is there
func degenerate(kind, a, b int) func() {
	if kind == 0 {
		return func() {}
	}
	simhook.Hooks = true
	simhook.ExitFn = func(name string, recv any, res ...any) {
		if name != "jindo.NewCommitKey" || len(res) != 1 {
			return
		}
		pk, ok := res[0].(**jindo.CommitKey)
		if !ok || *pk == nil {
			return
		}
		ck := *pk
		for i := range ck.In {
			for j := range ck.In[i] {
				if (kind == 1 && i != a%len(ck.In)) || (kind == 2 && j != a%len(ck.In[i])) {
					ck.In[i][j].Zero()
				}
			}
		}
		for i := range ck.Out {
			for j := range ck.Out[i] {
				if (kind == 1 && i != b%len(ck.Out)) || (kind == 2 && j != b%len(ck.Out[i])) {
					ck.Out[i][j].Zero()
				}
			}
		}
	}
	return func() { simhook.Hooks = false; simhook.ExitFn = nil }
}

// verify runs a verifier; a panic is reported apart from a verdict.
func verify[E bignum.Uint[E]](v *jindo.Verifier[E], x E, com []*jindo.Commitment, y []E, pf *jindo.Proof) (ok bool, pan any) {
	pan, _ = catch(func() { ok = v.Verify(x, com, y, pf) })
	return ok, pan
}

// evalPoint draws an evaluation point.
func evalPoint[E bignum.Uint[E]](r *Rng, code int64) E {
	var z E
	switch code % 8 {
	case 1:
		return z.New()
	case 2:
		return elemInt[E](1)
	case 3:
		return elemInt[E](-1)
	case 4:
		return elemInt[E](int64(2 + r.n(20)))
	}
	return randElem[E](r)
}

// polyLen picks the length of a polynomial, with the edges of the matrix first.
func (k *kit[E]) polyLen(r *Rng, code int64) int {
	rank, row := k.params.Rank(), k.params.Cols()*k.params.Slots()
	n := rank
	switch code % 10 {
	case 0:
		n = rank
	case 1:
		n = 1
	case 2:
		n = rank - 1
	case 3:
		n = row
	case 4:
		n = row + 1
	case 5:
		n = row - 1
	case 6:
		n = 2 * row
	case 7:
		n = k.params.Slots() + 1
	case 8:
		n = 2
	default:
		n = 1 + r.n(rank)
	}
	return min(max(n, 1), rank)
}

func typeName(x any) string { return reflect.TypeOf(x).String() }

// crsLens are lengths of reference strings at and around the sizes of seeds, keys and hash blocks.
var crsLens = []int64{16, 64, 65, 129, 300, 32, 33, 1100, 17, 128, 256, 257, 63, 127, 168, 169, 5000}

// crsLen draws the length of a reference string.
func crsLen(r *Rng) int64 {
	if r.p(30) {
		return pick(r, crsLens)
	}
	return int64(r.n(40))
}
