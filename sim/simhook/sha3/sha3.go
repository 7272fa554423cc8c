// Package sha3 stands in for crypto/sha3: the same functions, with their outputs observed.
package sha3

import (
	"crypto/sha3"

	"github.com/sp301415/ringo-snark/simhook"
)

type SHA3 = sha3.SHA3

func New224() *SHA3                      { return sha3.New224() }
func New256() *SHA3                      { return sha3.New256() }
func New384() *SHA3                      { return sha3.New384() }
func New512() *SHA3                      { return sha3.New512() }
func Sum224(d []byte) [28]byte           { return sha3.Sum224(d) }
func Sum256(d []byte) [32]byte           { return sha3.Sum256(d) }
func Sum384(d []byte) [48]byte           { return sha3.Sum384(d) }
func Sum512(d []byte) [64]byte           { return sha3.Sum512(d) }
func SumSHAKE128(d []byte, n int) []byte { return sum(NewSHAKE128(), d, n) }
func SumSHAKE256(d []byte, n int) []byte { return sum(NewSHAKE256(), d, n) }

func sum(s *SHAKE, d []byte, n int) []byte {
	out := make([]byte, n)
	s.Write(d)
	s.Read(out)
	return out
}

// SHAKE is an extendable-output function.
type SHAKE struct {
	alg string
	s   *sha3.SHAKE
	in  []byte
	obs bool
	out bool
}

func wrap(alg string, s *sha3.SHAKE) *SHAKE {
	return &SHAKE{alg: alg, s: s, obs: simhook.Recording || simhook.Rewrite != nil || simhook.Tweak != nil}
}

func NewSHAKE128() *SHAKE             { return wrap("shake128", sha3.NewSHAKE128()) }
func NewSHAKE256() *SHAKE             { return wrap("shake256", sha3.NewSHAKE256()) }
func NewCSHAKE128(N, S []byte) *SHAKE { return wrap("cshake128", sha3.NewCSHAKE128(N, S)) }
func NewCSHAKE256(N, S []byte) *SHAKE { return wrap("cshake256", sha3.NewCSHAKE256(N, S)) }

func (s *SHAKE) Write(p []byte) (int, error) {
	if !s.obs {
		return s.s.Write(p)
	}
	if s.out {
		return s.s.Write(p) // panics, as the real one does
	}
	s.in = append(s.in, p...)
	return len(p), nil
}

func (s *SHAKE) Read(p []byte) (int, error) {
	if !s.obs {
		return s.s.Read(p)
	}
	if !s.out {
		in := s.in
		if simhook.Rewrite != nil {
			in = simhook.Rewrite(s.alg, in)
		}
		s.s.Write(in)
		s.out = true
	}
	n, err := s.s.Read(p)
	if simhook.Tweak != nil {
		simhook.Tweak(s.alg, p[:n])
	}
	if simhook.Recording {
		simhook.Records = append(simhook.Records, simhook.HashRec{Alg: s.alg, In: s.in, Out: append([]byte(nil), p[:n]...)})
	}
	return n, err
}

func (s *SHAKE) Reset() {
	s.s.Reset()
	s.in = nil
	s.out = false
}

func (s *SHAKE) BlockSize() int { return s.s.BlockSize() }
