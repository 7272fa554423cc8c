package simhook

import "errors"

// ErrEntropy is what a failing entropy source returns.
var ErrEntropy = errors.New("simulated entropy failure")

// Entropy is the state of the simulated entropy source.
// It is a plain struct, written by the harness between executions only;
// while threads run, only norace code touches it.
type Entropy struct {
	rng  rng64
	word uint64
	left int
	// Reads counts the reads, and Bytes the bytes delivered.
	Reads, Bytes int64
	// FailAt is the read that fails (1 is the first one); 0 is never.
	FailAt int64
	// FailLen is how many reads fail from FailAt on; 0 is one.
	FailLen int64
	// Partial delivers some bytes before failing.
	Partial bool
	// Chunk bounds the bytes delivered by one Reader.Read; 0 is no bound.
	Chunk int
	// Empty is how many per cent of the reads deliver nothing, without an error.
	Empty uint64
	empty rng64
	// FixedFrom and FixedTo is the range of bytes of each read that is zeroed.
	FixedFrom, FixedTo int
	// FreeFrom and FreeTo, if not both 0, is the range of bytes, counted from when Bytes
	// was last set to 0, that are drawn; all others are zero.
	FreeFrom, FreeTo int64
	// FlipBit is the bit that is inverted, counted from 1 where Bytes was last set to 0.
	FlipBit                int64
	Fails, Shorts, Empties int64
}

// Ent is the entropy source.
var Ent Entropy

// SeedEntropy restarts the entropy source.
func SeedEntropy(seed uint64) { Ent = Entropy{rng: newRng(seed)} }

// ReadEntropy fills b, or fails.
//
//go:norace
func ReadEntropy(b []byte, short bool) (int, error) {
	if short && Ent.Empty > 0 && Ent.empty.next()%100 < Ent.Empty {
		Ent.Empties++
		return 0, nil
	}
	Ent.Reads++
	n := len(b)
	if short && Ent.Chunk > 0 && n > Ent.Chunk {
		n = Ent.Chunk
		Ent.Shorts++
	}
	fl := Ent.FailLen
	if fl == 0 {
		fl = 1
	}
	if Ent.FailAt > 0 && Ent.Reads >= Ent.FailAt && Ent.Reads < Ent.FailAt+fl {
		Ent.Fails++
		if !Ent.Partial {
			return 0, ErrEntropy
		}
		for i := 0; i < n/2; i++ {
			b[i] = byte(Ent.rng.next())
		}
		return n / 2, ErrEntropy
	}
	// The stream does not depend on the sizes of the reads.
	for i := 0; i < n; i++ {
		if Ent.left == 0 {
			Ent.word, Ent.left = Ent.rng.next(), 8
		}
		b[i] = byte(Ent.word)
		Ent.word >>= 8
		Ent.left--
	}
	for i := Ent.FixedFrom; i < Ent.FixedTo && i < n; i++ {
		b[i] = 0
	}
	if Ent.FreeFrom != 0 || Ent.FreeTo != 0 {
		for i := 0; i < n; i++ {
			if at := Ent.Bytes + int64(i); at < Ent.FreeFrom || at >= Ent.FreeTo {
				b[i] = 0
			}
		}
	}
	if at := (Ent.FlipBit-1)/8 - Ent.Bytes; Ent.FlipBit > 0 && at >= 0 && at < int64(n) {
		b[at] ^= 1 << ((Ent.FlipBit - 1) % 8)
	}
	Ent.Bytes += int64(n)
	return n, nil
}
