package main

import (
	crand "crypto/rand"
	"encoding/binary"
	mrand "math/rand"
	mrand2 "math/rand/v2"
)

// prng is a small, fully specified generator (splitmix64).
type prng struct{ s uint64 }

func (p *prng) next() uint64 {
	p.s += 0x9e3779b97f4a7c15
	return mix64(p.s)
}

func mix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func mixAll(xs ...uint64) uint64 {
	h := uint64(0x1234567887654321)
	for _, x := range xs {
		h = mix64(h ^ mix64(x+0x9e3779b97f4a7c15))
	}
	return h
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return mix64(h)
}

// libRand is the source of every random choice the library makes while a
// simulation runs: the overlaid math/rand and math/rand/v2 and crypto/rand all
// draw from it.
type libRand struct {
	prng
	draws uint64
	mode  int
}

func (l *libRand) draw() uint64 {
	l.draws++
	v := l.prng.next()
	const coins = 1 | 1<<32 // the bits two-way draws of math/rand and math/rand/v2 look at
	switch l.mode {
	case coinsZero:
		v &^= coins
	case coinsOne:
		v |= coins
	case coinsAlternate:
		v &^= coins
		if l.draws&1 == 0 {
			v |= coins
		}
	case floatsLow: // every float is below one half, indices are small
		v &^= 1<<52 | 1<<62
	case floatsHigh:
		v |= 1<<52 | 1<<62
	}
	return v
}

const (
	fair = iota
	coinsZero
	coinsOne
	coinsAlternate
	floatsLow
	floatsHigh
)

var lib = &libRand{}

type cryptoReader struct{}

func (cryptoReader) Read(b []byte) (int, error) {
	var w [8]byte
	for i := 0; i < len(b); i += 8 {
		binary.LittleEndian.PutUint64(w[:], lib.draw())
		copy(b[i:], w[:])
	}
	return len(b), nil
}

func installSeams() {
	mrand.SimSource = func() uint64 { return lib.draw() }
	mrand2.SimSource = func() uint64 { return lib.draw() }
	crand.Reader = cryptoReader{}
}

func seedLib(seed uint64, mode int) { lib.s = seed; lib.draws = 0; lib.mode = mode }
