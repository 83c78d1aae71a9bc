package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
)

// ---- reference MurmurHash3 x64 128, written from the published algorithm ----

func refMurmur(data []byte, seed uint64) (uint64, uint64) {
	const c1, c2 = 0x87c37b91114253d5, 0x4cf5ad432745937f
	h1, h2 := seed, seed
	n := len(data)
	p := data
	for len(p) >= 16 {
		k1 := binary.LittleEndian.Uint64(p)
		k2 := binary.LittleEndian.Uint64(p[8:])
		p = p[16:]
		k1 *= c1
		k1 = bits.RotateLeft64(k1, 31)
		k1 *= c2
		h1 ^= k1
		h1 = bits.RotateLeft64(h1, 27)
		h1 += h2
		h1 = h1*5 + 0x52dce729
		k2 *= c2
		k2 = bits.RotateLeft64(k2, 33)
		k2 *= c1
		h2 ^= k2
		h2 = bits.RotateLeft64(h2, 31)
		h2 += h1
		h2 = h2*5 + 0x38495ab5
	}
	var k1, k2 uint64
	for i := len(p) - 1; i >= 0; i-- {
		if i >= 8 {
			k2 |= uint64(p[i]) << (8 * (i - 8))
		} else {
			k1 |= uint64(p[i]) << (8 * i)
		}
	}
	k2 *= c2
	k2 = bits.RotateLeft64(k2, 33)
	k2 *= c1
	h2 ^= k2
	k1 *= c1
	k1 = bits.RotateLeft64(k1, 31)
	k1 *= c2
	h1 ^= k1
	h1 ^= uint64(n)
	h2 ^= uint64(n)
	h1 += h2
	h2 += h1
	f := func(h uint64) uint64 {
		h ^= h >> 33
		h *= 0xff51afd7ed558ccd
		h ^= h >> 33
		h *= 0xc4ceb9fe1a85ec53
		h ^= h >> 33
		return h
	}
	h1 = f(h1)
	h2 = f(h2)
	h1 += h2
	h2 += h1
	return h1, h2
}

func le64(v uint64) []byte {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], v)
	return b[:]
}

// drawSeed draws a hash seed whose 16-bit seed hash is usable.
func drawSeed(s *Sim) uint64 {
	v := 1 + uint64(s.Choose(1<<20))
	for {
		if h, _ := refMurmur(le64(v), 0); h&0xffff != 0 {
			return v
		}
		v++
	}
}

// ---- stream items ----

type valType int

const (
	vI64 valType = iota
	vU64
	vF64
	vStr
	vBytes
	vF32
	vI32
	vU32
	vI16
	vU16
	vI8
	vU8
	nValTypes
)

func (t valType) String() string {
	return [...]string{"int64", "uint64", "float64", "string", "bytes", "float32", "int32", "uint32", "int16", "uint16", "int8", "uint8", "crafted"}[t]
}

// Batch is one immutable slice of the simulated input stream.
type Batch struct {
	ID    int
	Typ   valType
	IDs   []uint64
	W     []int64 // weights, when the workload is weighted
	Mult  int64   // every item counts this often (0: once)
	descr string
	memo  map[string][]uint64
}

func (b *Batch) String() string { return fmt.Sprintf("batch#%d{%s}", b.ID, b.descr) }

// Hashes memoises a per-item hash computed by f.
func (b *Batch) Hashes(key string, f func(id uint64) uint64) []uint64 {
	if h, ok := b.memo[key]; ok {
		return h
	}
	h := make([]uint64, len(b.IDs))
	for i, id := range b.IDs {
		h[i] = f(id)
	}
	if b.memo == nil {
		b.memo = map[string][]uint64{}
	}
	b.memo[key] = h
	return h
}

func itemI64(id uint64) int64 { return int64(id) }

// itemF64 maps several ids to forms of one key: signed zeros, and any
// not-a-number, are one item each.
func itemF64(id uint64) float64 {
	if id%29 == 3 {
		return oddFloat(id / 29)
	}
	switch id % 13 {
	case 0:
		return float64(id)
	case 1:
		return -float64(id)
	case 2:
		return float64(id) * 1e-3
	case 3:
		return float64(id) / 7
	default:
		return float64(id) + 0.5
	}
}

func oddFloat(x uint64) float64 {
	payload := x*0x9e3779b97f4a7c15>>12 | 1
	switch x % 8 {
	case 0:
		return math.Copysign(0, -1)
	case 1:
		return 0
	case 2:
		return math.Float64frombits(0x7ff<<52 | payload)
	case 3:
		return math.Float64frombits(0xfff<<52 | payload)
	case 4:
		return math.Inf(1)
	case 5:
		return math.Inf(-1)
	case 6: // a subnormal
		return math.Float64frombits(payload>>3 | (x&8)<<60)
	default:
		return math.NaN()
	}
}

func itemF32(id uint64) float32 {
	if id%29 == 3 {
		return float32(oddFloat(id / 29))
	}
	return float32(id)
}

// keyBits is the 64-bit form under which every family hashes a float key.
func keyBits(f float64) uint64 {
	if f == 0 {
		return 0
	}
	if f != f {
		return 0x7ff8000000000000
	}
	return math.Float64bits(f)
}

func itemStr(id uint64) string { return fmt.Sprintf("k%x", id) }
func itemBytes(id uint64) []byte {
	b := le64(id)
	n := 1 + int(id%23)
	for len(b) < n {
		b = append(b, byte(len(b)))
	}
	return b
}

// stream hands out batches for one run.
type stream struct {
	s      *Sim
	nextID int
	fresh  uint64
	all    []*Batch
	base   uint64
}

func newStream(s *Sim) *stream {
	st := &stream{s: s}
	// item ids are offset per run so runs do not share hashes
	if s.Choose(2) == 1 {
		st.base = s.Word() & 0xffffffffff
	}
	return st
}

// Next draws a batch of up to maxN items; types lists the value types allowed.
// size draws the length of a batch.
func (st *stream) size(maxN int) int { return st.s.amount(maxN) }

func (s *Sim) amount(maxN int) int {
	if s.big && s.Choose(2) == 1 {
		return s.Range(maxN/8, maxN)
	}
	return s.Size(maxN)
}

func (st *stream) Next(maxN int, types []valType) *Batch {
	s := st.s
	b := &Batch{ID: st.nextID}
	st.nextID++
	b.Typ = types[s.Choose(len(types))]
	n := st.size(maxN)
	pat := s.Pick(6, 2, 2, 1, 1)
	if pat == 1 && st.fresh == 0 {
		pat = 0
	}
	switch pat {
	case 0: // new distinct items
		for i := 0; i < n; i++ {
			b.IDs = append(b.IDs, st.base+st.fresh+uint64(i))
		}
		st.fresh += uint64(n)
	case 1: // repeat a stretch already seen
		off := s.Choose(int(min(st.fresh, 1<<30)))
		for i := 0; i < n; i++ {
			b.IDs = append(b.IDs, st.base+(uint64(off)+uint64(i))%st.fresh)
		}
	case 2: // random items from a small universe
		u := uint64(1 + s.Size(4*maxN))
		p := prng{s.Word()}
		for i := 0; i < n; i++ {
			b.IDs = append(b.IDs, st.base+p.next()%u)
		}
	case 3: // one item over and over
		id := st.base + uint64(s.Choose(64))
		if n > 64 {
			n = 64
		}
		for i := 0; i < n; i++ {
			b.IDs = append(b.IDs, id)
		}
	case 4: // scattered 64-bit ids
		p := prng{s.Word()}
		for i := 0; i < n; i++ {
			b.IDs = append(b.IDs, p.next())
		}
	}
	b.descr = fmt.Sprintf("%s n=%d pattern=%s", b.Typ, n, [...]string{"fresh", "repeat", "universe", "same", "scattered"}[pat])
	st.all = append(st.all, b)
	return b
}

// Bag is the multiset of batches a replica reflects.
type Bag []*Batch

func (b Bag) Add(x *Batch) Bag { return append(b[:len(b):len(b)], x) }

// Union merges bags, each batch once (for duplicate-insensitive families).
func (b Bag) Union(o Bag) Bag {
	have := make(map[*Batch]struct{}, len(b))
	for _, x := range b {
		have[x] = struct{}{}
	}
	out := b[:len(b):len(b)]
	for _, x := range o {
		if _, ok := have[x]; !ok {
			have[x] = struct{}{}
			out = append(out, x)
		}
	}
	return out
}

// Concat merges bags as multisets.
func (b Bag) Concat(o Bag) Bag {
	out := make(Bag, 0, len(b)+len(o))
	return append(append(out, b...), o...)
}

func (b Bag) N() int {
	n := 0
	for _, x := range b {
		n += len(x.IDs) * int(x.mult())
	}
	return n
}

func (b *Batch) mult() int64 { return max(b.Mult, 1) }

// Doubled is the bag of a sketch merged with a copy of itself.
func (b Bag) Doubled() Bag {
	out := make(Bag, len(b))
	for i, x := range b {
		out[i] = &Batch{ID: x.ID, Typ: x.Typ, IDs: x.IDs, W: x.W, Mult: 2 * x.mult(), descr: x.descr, memo: x.memo}
	}
	return out
}
