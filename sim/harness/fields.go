package main

import (
	"math/big"

	"github.com/sp301415/ringo-snark/buckler/internal/zp110"
	"github.com/sp301415/ringo-snark/buckler/internal/zp220"
	"github.com/sp301415/ringo-snark/buckler/internal/zp440"
	"github.com/sp301415/ringo-snark/buckler/internal/zp880"
	"github.com/sp301415/ringo-snark/jindo/simzp"
	"github.com/sp301415/ringo-snark/math/bignum"
)

const numFields = 5

var fieldNames = [numFields]string{"zp", "zp110", "zp220", "zp440", "zp880"}

type (
	f0 = *simzp.Uint
	f1 = *zp110.Uint
	f2 = *zp220.Uint
	f3 = *zp440.Uint
	f4 = *zp880.Uint
)

// modulus returns the modulus of a field.
func modulus[E bignum.Uint[E]]() *big.Int {
	var z E
	m := z.New().SetInt64(-1).BigInt(new(big.Int))
	return m.Add(m, big.NewInt(1))
}

func bigOf[E bignum.Uint[E]](x E) *big.Int { return x.BigInt(new(big.Int)) }

func elemOf[E bignum.Uint[E]](b *big.Int) E {
	var z E
	return z.New().SetBigInt(b)
}

func elemInt[E bignum.Uint[E]](n int64) E {
	var z E
	return z.New().SetInt64(n)
}

// randElem draws an element from the plan's data, not from the entropy source.
func randElem[E bignum.Uint[E]](r *Rng) E {
	m := modulus[E]()
	b := new(big.Int).SetBytes(r.bytes((m.BitLen() + 7 + 64) / 8))
	return elemOf[E](b.Mod(b, m))
}

// Patterns of vectors of elements.
const (
	patRandom = iota
	patZero
	patMinusOne
	patSparse
	patSmall
	patOnes
	patLastOnly
	numPats
)

func randVec[E bignum.Uint[E]](r *Rng, n int, pat int) []E {
	v := make([]E, n)
	for i := range v {
		v[i] = elemInt[E](0)
		switch pat {
		case patRandom:
			v[i].Set(randElem[E](r))
		case patMinusOne:
			v[i].SetInt64(-1)
		case patSparse:
			if r.n(8) == 0 {
				v[i].Set(randElem[E](r))
			}
		case patSmall:
			v[i].SetInt64(int64(r.n(7)) - 3)
		case patOnes:
			v[i].SetInt64(1)
		}
	}
	if pat == patLastOnly {
		v[n-1].Set(randElem[E](r))
	}
	return v
}

func copyVec[E bignum.Uint[E]](v []E) []E {
	w := make([]E, len(v))
	for i := range v {
		w[i] = v[i].New().Set(v[i])
	}
	return w
}

func eqVec[E bignum.Uint[E]](a, b []E) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

// horner evaluates a polynomial with math/big alone.
func horner[E bignum.Uint[E]](v []E, x E) *big.Int {
	m := modulus[E]()
	xb, c := bigOf(x), new(big.Int)
	y := new(big.Int)
	for i := len(v) - 1; i >= 0; i-- {
		y.Mul(y, xb)
		y.Add(y, v[i].BigInt(c))
		y.Mod(y, m)
	}
	return y
}

var wideCache [numFields]int64

// wideN is the least size for which commitments of a field have several columns.
func wideN(field int64) int64 {
	f := field % numFields
	if wideCache[f] == 0 {
		n := int64(64)
		for ; n < 8192; n *= 2 {
			cols := 0
			switch f {
			case 0:
				cols = getParams[f0](int(n), 1).Cols()
			case 1:
				cols = getParams[f1](int(n), 1).Cols()
			case 2:
				cols = getParams[f2](int(n), 1).Cols()
			case 3:
				cols = getParams[f3](int(n), 1).Cols()
			case 4:
				cols = getParams[f4](int(n), 1).Cols()
			}
			if cols > 1 {
				break
			}
		}
		wideCache[f] = n
	}
	return wideCache[f]
}
