package main

import (
	"math/bits"
)

// A 16-byte key is one block of the 128-bit hash, which is a bijection on it:
// the simulator can therefore make an item with any hash it likes, and reach
// registers, columns and thresholds ordinary streams reach only after 2^40 items.

func inv64(a uint64) uint64 { // inverse of an odd number modulo 2^64
	x := a
	for i := 0; i < 6; i++ {
		x *= 2 - a*x
	}
	return x
}

var (
	mmC1inv = inv64(0x87c37b91114253d5)
	mmC2inv = inv64(0x4cf5ad432745937f)
	mmF1inv = inv64(0xff51afd7ed558ccd)
	mmF2inv = inv64(0xc4ceb9fe1a85ec53)
	mm5inv  = inv64(5)
)

func unfmix(h uint64) uint64 {
	h ^= h >> 33
	h *= mmF2inv
	h ^= h >> 33
	h *= mmF1inv
	h ^= h >> 33
	return h
}

// keyWithHash returns the 16-byte key whose 128-bit hash under seed is (h1,h2).
func keyWithHash(h1, h2, seed uint64) []byte {
	h2 -= h1
	h1 -= h2
	h1, h2 = unfmix(h1), unfmix(h2)
	h2 -= h1
	h1 -= h2
	h1 ^= 16
	h2 ^= 16
	// the block step
	g1, g2 := seed, seed
	a1 := (h1 - 0x52dce729) * mm5inv
	a1 -= g2
	a1 = bits.RotateLeft64(a1, -27)
	k1 := a1 ^ g1
	k1 *= mmC2inv
	k1 = bits.RotateLeft64(k1, -31)
	k1 *= mmC1inv
	a2 := (h2 - 0x38495ab5) * mm5inv
	a2 -= h1
	a2 = bits.RotateLeft64(a2, -31)
	k2 := a2 ^ g2
	k2 *= mmC1inv
	k2 = bits.RotateLeft64(k2, -33)
	k2 *= mmC2inv
	return append(le64(k1), le64(k2)...)
}

// craftPlan says which hashes the crafted items of a run have.
type craftPlan struct {
	pat   int
	shift uint
	key   uint64
	pure  bool
	seed  uint64
}

func drawCraft(s *Sim) {
	s.craft.pat = s.Choose(4)
	s.craft.key = s.Word()
	s.craft.pure = s.Choose(2) == 0
	switch s.craft.pat {
	case 0, 1:
		s.craft.shift = uint(s.Choose(47))
	case 2:
		s.craft.shift = uint(6 + s.Choose(16))
		if s.big { // colliding keys take quadratic time
			s.craft.pat = 3
		}
	}
}

// hash is the 63-bit theta hash of a crafted item.
func (c *craftPlan) hash(id uint64) uint64 {
	x := mix64(id ^ c.key)
	if !c.pure && x%4 == 0 {
		return mix64(x) >> 1
	}
	switch c.pat {
	case 0: // close together, right above zero
		return (1 + id&0xffff) << c.shift
	case 1: // close together, right below the maximum
		return maxTheta - 1 - (id&0xffff)<<c.shift
	case 2: // agreeing in their low bits, where tables look first
		h := mix64(x) >> 1 &^ (1<<c.shift - 1)
		return max(h, 1<<c.shift)
	}
	switch x % 64 {
	case 1: // no hash at all; what only it touched is neither empty nor exact to an intersection
		if curSim.Prop == "D01" {
			return 0
		}
	case 2:
		return 1
	case 3:
		return maxTheta - 1
	case 5:
		if curSim.Prop == "D01" {
			return maxTheta
		}
	}
	return mix64(x) >> 1
}

func itemCraft(id uint64) []byte {
	c := &curSim.craft
	return keyWithHash(c.hash(id)<<1|id&1, mix64(id+c.key), c.seed)
}

func init() {
	for i := uint64(0); i < 8; i++ {
		a, b := mix64(i+1), mix64(i+99)
		x, y := refMurmur(keyWithHash(a, b, 9001+i), 9001+i)
		if x != a || y != b {
			panic("harness: hash inversion")
		}
	}
}
