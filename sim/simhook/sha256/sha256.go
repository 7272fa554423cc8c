// Package sha256 stands in for crypto/sha256: the same functions, with their outputs observed.
package sha256

import (
	"crypto/sha256"
	"hash"

	"github.com/sp301415/ringo-snark/simhook"
)

const (
	Size      = sha256.Size
	Size224   = sha256.Size224
	BlockSize = sha256.BlockSize
)

type observed struct {
	hash.Hash
	in []byte
}

func (o *observed) Write(p []byte) (int, error) {
	o.in = append(o.in, p...)
	return o.Hash.Write(p)
}

func (o *observed) Reset() {
	o.in = nil
	o.Hash.Reset()
}

func (o *observed) Sum(b []byte) []byte {
	out := o.Hash.Sum(nil)
	if simhook.Recording {
		simhook.Records = append(simhook.Records, simhook.HashRec{Alg: "sha256", In: append([]byte(nil), o.in...), Out: append([]byte(nil), out...)})
	}
	return append(b, out...)
}

func New() hash.Hash {
	if simhook.Recording {
		return &observed{Hash: sha256.New()}
	}
	return sha256.New()
}

func New224() hash.Hash             { return sha256.New224() }
func Sum224(d []byte) [Size224]byte { return sha256.Sum224(d) }

func Sum256(d []byte) [Size]byte {
	out := sha256.Sum256(d)
	if simhook.Recording {
		simhook.Records = append(simhook.Records, simhook.HashRec{Alg: "sha256", In: append([]byte(nil), d...), Out: append([]byte(nil), out[:]...)})
	}
	return out
}
