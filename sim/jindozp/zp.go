// Package simzp gives the simulator the field of the commitment scheme's own tests.
package simzp

import (
	"math/big"

	"github.com/sp301415/ringo-snark/jindo/internal/zp"
)

type (
	Uint   = zp.Uint
	Vector = zp.Vector
)

const Bytes = zp.Bytes

func Modulus() *big.Int { return zp.Modulus() }
