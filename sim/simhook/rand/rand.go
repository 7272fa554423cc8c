// Package rand stands in for crypto/rand: a seeded stream that the simulator can make fail.
package rand

import (
	"crypto/rand"
	"io"
	"math/big"

	"github.com/sp301415/ringo-snark/simhook"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) { return simhook.ReadEntropy(b, true) }

// Reader is the simulated entropy source.
var Reader io.Reader = reader{}

// Read fills b.
func Read(b []byte) (int, error) {
	if simhook.Ent.Chunk > 0 || simhook.Ent.Empty > 0 {
		return io.ReadFull(Reader, b)
	}
	return simhook.ReadEntropy(b, false)
}

func Int(r io.Reader, max *big.Int) (*big.Int, error) { return rand.Int(r, max) }
func Prime(r io.Reader, bits int) (*big.Int, error)   { return rand.Prime(r, bits) }

func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	if _, err := Read(b); err != nil {
		panic(err)
	}
	for i := range b {
		b[i] = a[b[i]%32]
	}
	return string(b)
}
