package main

import (
	"fmt"
	"math/big"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bignum"
)

// B02: assignments that violate a circuit, given to provers that otherwise follow the protocol.

func dispatchB02(p *Plan, r *Run) {
	switch p.Cfg["field"] % numFields {
	case 0:
		execB02[f0](p, r)
	case 1:
		execB02[f1](p, r)
	case 2:
		execB02[f2](p, r)
	case 3:
		execB02[f3](p, r)
	case 4:
		execB02[f4](p, r)
	}
}

const numBreaks = 14

var breakNames = [numBreaks]string{"one entry", "two rows cancel", "two constraints cancel", "three cancel", "every row", "swap", "just beyond",
	"random vector", "small multiple", "last row", "first row", "other values", "far pair", "neighbours cancel"}

// breaks returns changes to an assignment that are meant to violate something.
func (s *spec[E]) breaks(d *Rng, mode int, target int64) map[int]func(v []*big.Int) {
	n := s.rank
	var idx []int
	for i, c := range s.cons {
		if c.slot >= 0 {
			idx = append(idx, i)
		}
	}
	if len(idx) == 0 {
		return nil
	}
	at := idx[int(target)%len(idx)]
	c := s.cons[at]
	row := d.n(n)
	delta := pick(d, []*big.Int{big.NewInt(1), big.NewInt(-1), big.NewInt(2), new(big.Int).Lsh(big.NewInt(1), uint(d.n(s.m.BitLen()-1))), bigOf(randElem[E](d))})
	if delta.Sign() == 0 {
		delta.SetInt64(1)
	}
	addAt := func(i int, k int64) func(v []*big.Int) {
		return func(v []*big.Int) { v[i].Add(v[i], new(big.Int).Mul(delta, big.NewInt(k))) }
	}
	tw := map[int]func(v []*big.Int){}
	// others are the constraints that are batched with it.
	var others []int
	batch := func(c *con) string {
		if c.kind == "inf" && c.bound.Sign() == 0 {
			return "arith"
		}
		return c.kind
	}
	for _, i := range idx {
		if i != at && batch(s.cons[i]) == batch(c) && s.cons[i].slot != c.slot {
			others = append(others, i)
		}
	}
	mode %= numBreaks
	if (mode == 2 || mode == 3 || mode == 13) && len(others) == 0 {
		mode = 1
	}
	switch mode {
	case 0:
		tw[c.slot] = addAt(row, 1)
	case 1:
		r2 := (row + 1 + d.n(n-1)) % n
		tw[c.slot] = func(v []*big.Int) { addAt(row, 1)(v); addAt(r2, -1)(v) }
	case 2:
		o := s.cons[pick(d, others)]
		k := int64(1)
		if d.p(30) {
			k = int64(2 + d.n(4))
		}
		tw[c.slot] = addAt(row, 1)
		tw[o.slot] = addAt(row, -k*c.sgn*o.sgn)
		if d.p(20) {
			tw[o.slot] = addAt(d.n(n), -k*c.sgn*o.sgn)
		}
	case 3:
		o := s.cons[pick(d, others)]
		o2 := s.cons[pick(d, others)]
		tw[c.slot] = addAt(row, 1)
		tw[o.slot] = addAt(row, -2*c.sgn*o.sgn)
		if o2.slot != o.slot {
			tw[o2.slot] = addAt(row, c.sgn*o2.sgn)
		}
	case 13:
		// What cancels if constraints and rows are combined with powers of one number.
		oi := pick(d, others)
		o := s.cons[oi]
		k := 1
		if d.p(70) {
			k = 0
			for i := min(oi, at); i < max(oi, at); i++ {
				if batch(s.cons[i]) == batch(c) && (c.kind != "lin" || s.cons[i].chk == c.chk || o.chk != c.chk) {
					k++
				}
			}
		}
		if oi < at {
			k = -k
		}
		if d.p(50) {
			k = -k
		}
		tw[c.slot] = addAt(row, 1)
		tw[o.slot] = addAt(((row+k)%n+n)%n, -c.sgn*o.sgn)
	case 4:
		tw[c.slot] = func(v []*big.Int) {
			for i := range v {
				addAt(i, 1)(v)
			}
		}
	case 5:
		r2 := (row + 1 + d.n(n-1)) % n
		tw[c.slot] = func(v []*big.Int) { v[row], v[r2] = v[r2], v[row] }
	case 6:
		sign := int64(1 - 2*d.n(2))
		switch c.kind {
		case "inf":
			tw[c.slot] = func(v []*big.Int) {
				v[row].Add(c.bound, big.NewInt(1)).Mul(v[row], big.NewInt(sign))
			}
		case "two":
			tw[c.slot] = func(v []*big.Int) {
				// The norm is the bound and one: as a sum of squares that fits.
				w := s.withNorm(d, c.bound)
				sum, t := new(big.Int), new(big.Int)
				for i := range v {
					v[i].Set(w[i])
					sum.Add(sum, t.Mul(v[i], v[i]))
				}
				for i := range v {
					if sum.Cmp(c.bound) > 0 {
						break
					}
					if v[i].Sign() == 0 {
						v[i].SetInt64(1)
						sum.Add(sum, big.NewInt(1))
					}
				}
				if sum.Cmp(c.bound) <= 0 {
					v[row].Sqrt(c.bound)
					v[row].Add(v[row], big.NewInt(1))
				}
			}
		case "approx":
			tw[c.slot] = func(v []*big.Int) {
				v[row].Add(c.bound, big.NewInt(1)).Mul(v[row], big.NewInt(int64(4*n)*sign+sign))
			}
		default:
			tw[c.slot] = addAt(n-1, 1)
		}
	case 7:
		tw[c.slot] = func(v []*big.Int) {
			for i := range v {
				v[i].Set(bigOf(randElem[E](d)))
			}
		}
	case 8:
		k := big.NewInt(int64(2 + d.n(5)))
		if c.bound != nil {
			k.Mul(k, c.bound)
			tw[c.slot] = func(v []*big.Int) { v[row].Set(k) }
		} else {
			tw[c.slot] = func(v []*big.Int) { v[row].Mul(v[row], k) }
		}
	case 9:
		tw[c.slot] = addAt(n-1, 1)
	case 10:
		tw[c.slot] = addAt(0, 1)
	case 12:
		k := new(big.Int).Set(delta)
		if c.bound != nil {
			k.Add(c.bound, big.NewInt(1)).Mul(k, big.NewInt(int64(5*n)))
		}
		r2 := (row + 1 + d.n(n-1)) % n
		tw[c.slot] = func(v []*big.Int) {
			v[row].Add(v[row], k)
			v[r2].Sub(v[r2], k)
		}
	case 11:
		// A value that other constraints use changes, and nothing follows it.
		i := d.n(len(s.slots))
		tw[i] = addAt(row, 1)
		delete(tw, -1)
	}
	return tw
}

func execB02[E bignum.Uint[E]](p *Plan, r *Run) {
	s := specOf[E](p, p.Ops)
	crs := newRng(mix(p.Seed, 5)).bytes(int(p.Cfg["crs"]))
	node := &snarkNode[E]{name: "P"}
	other := &snarkNode[E]{name: "V"}
	if !node.boot(r, s, crs) || !other.boot(r, s, crs) {
		return
	}
	vrf := other.vrf
	if p.Cfg["pair"] == 1 {
		vrf = node.vrf
	}
	r.log("rank %d %s", s.rank, s.kinds())
	for oi, o := range p.Ops {
		if r.viol != nil {
			return
		}
		switch o.K {
		case "good":
			// Honest work in between.
			if pf, err, pan, _ := proveCirc(node.prv, buckler.Circuit[E](s.assign(s.fill(o.Seed), true))); err == nil && pan == nil {
				ok, _, _ := verifyCirc(vrf, buckler.Circuit[E](s.assign(s.fill(o.Seed), false)), pf)
				r.log("good %v", ok)
			}
		case "break":
			d := newRng(o.Seed)
			mode := int(o.n(0)) % numBreaks
			tw := s.breaks(d, mode, o.n(1))
			if tw == nil {
				continue
			}
			var a *asg
			if mode == 11 {
				// Only the changed value differs from an honest assignment.
				a = s.fill(o.Seed)
				s.tweakOnly(a, tw)
			} else {
				a = s.fillWith(o.Seed, tw)
			}
			verdict, at := s.judge(a)
			if verdict != violated {
				r.probe("not_violated")
				continue
			}
			r.fault("violation_" + s.cons[at].kind)
			r.probe("break_" + breakNames[mode])
			pf, err, pan, _ := proveCirc(node.prv, buckler.Circuit[E](s.assign(a, true)))
			if pan != nil {
				r.probe("prove_panics")
				continue
			}
			if err != nil {
				r.probe("prove_refuses")
				continue
			}
			ok, pan, st := verifyCirc(vrf, buckler.Circuit[E](s.assign(a, p.Cfg["share"] == 1)), pf)
			if pan != nil {
				r.fail("library-panics in "+firstFrame(st), "Verify of a proof of a false statement panicked: %s", short(pan, 200))
				return
			}
			r.log("op %d %s constraint %d %s: %v", oi, breakNames[mode], at, s.cons[at].kind, ok)
			if ok {
				c := s.cons[at]
				msg := fmt.Sprintf("%s: the assignment violates constraint %d (%s", breakNames[mode], at, c.kind)
				if c.bound != nil {
					msg += fmt.Sprintf(" with bound %v", c.bound)
				}
				r.fail("false-accepted-"+c.kind, "%s) of a circuit of rank %d over %s with %s, but its proof is accepted", msg, s.rank, fieldNames[p.Cfg["field"]%numFields], s.kinds())
			}
		}
	}
}

// tweakOnly changes values of a made assignment.
func (s *spec[E]) tweakOnly(a *asg, tw map[int]func(v []*big.Int)) {
	np, nw := 0, 0
	for i, sl := range s.slots {
		var v []*big.Int
		if sl.pw {
			v = a.P[np]
			np++
		} else {
			v = a.W[nw]
			nw++
		}
		if t := tw[i]; t != nil {
			t(v)
			for _, x := range v {
				x.Mod(x, s.m)
			}
		}
	}
}

func genB02(r *Rng, tier string) *Plan {
	p := &Plan{Kind: "violations", Cfg: snarkCfg(r)}
	p.Cfg["pair"], p.Cfg["share"] = int64(r.n(2)), int64(r.n(2))
	p.Ops = genSpecOps(r, 1+r.n(5))
	for i := 2 + r.n(4); i > 0; i-- {
		p.Ops = append(p.Ops, Op{K: "break", N: []int64{int64(r.n(numBreaks)), int64(r.n(12))}})
		if r.p(15) {
			p.Ops = append(p.Ops, Op{K: "good"})
		}
	}
	return p
}

func scriptB02(i int, tier string) *Plan {
	if i == 0 {
		return &Plan{Kind: "projection", Cfg: map[string]int64{"field": 2, "logn": 11, "form": 0, "crs": 8, "pair": 1},
			Ops: []Op{{K: "approx", N: []int64{1}}, {K: "break", N: []int64{6, 0}}, {K: "break", N: []int64{12, 0}, Seed: 3}}}
	}
	if i == 1 {
		return &Plan{Kind: "projection", Cfg: map[string]int64{"field": 1, "logn": 11, "form": 1, "crs": 8},
			Ops: []Op{{K: "approx", N: []int64{2}, Seed: 1}, {K: "approx", N: []int64{1}, Seed: 2}, {K: "break", N: []int64{6, 0}, Seed: 1}, {K: "break", N: []int64{6, 1}, Seed: 2}, {K: "break", N: []int64{12, 1}, Seed: 3}}}
	}
	i--
	if i <= 3 {
		// Bounds that are a good part of the field.
		return &Plan{Kind: "matrix", Cfg: map[string]int64{"field": []int64{1, 1, 2}[i-1], "logn": 2, "form": 0, "crs": 8, "pair": 1},
			Ops: []Op{{K: "inf", N: []int64{1000 + int64(i), 0, 0}, Seed: uint64(i)}, {K: "arith", N: []int64{2, 2, 2, 0}}, {K: "break", N: []int64{6, 0}, Seed: 1}, {K: "break", N: []int64{6, 0}, Seed: 2}, {K: "break", N: []int64{0, 0}, Seed: 3}}}
	}
	i -= 3
	if i > len(matrixCircuits) {
		return nil
	}
	p := &Plan{Kind: "matrix", Cfg: map[string]int64{"field": int64(i % numFields), "logn": int64(3 + i%3), "form": int64(i / 2 % 2), "alias": int64(i / 3 % 2),
		"crs": 8, "share": int64(i / 5 % 2), "pair": int64(i % 2)}}
	p.Ops = append(p.Ops, matrixCircuits[i-1]...)
	for t := 0; t < 6; t++ {
		// The targets are the constraints in turn, and each is broken in two ways.
		p.Ops = append(p.Ops, Op{K: "break", N: []int64{pick(newRng(uint64(i*7+t)), []int64{0, 1, 2, 6, 6, 10, 4}), int64(t)}, Seed: uint64(i*100 + t)})
	}
	return p
}

func init() {
	register(&Prop{
		ID: "B02", Script: scriptB02, Gen: genB02, Exec: dispatchB02,
		Rule: "circuits as for B01 x assignments in which one or several values are changed and all later ones follow: one entry, cancelling rows, " +
			"cancelling constraints, bounds exceeded by one, swapped or scaled entries; counted when the reference model says that a constraint is violated",
		Real: snarkReal,
		Stub: []string{"entropy source", "processes"},
	})
}
