package main

import (
	"bytes"
	crand "crypto/rand"
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"slices"

	"github.com/apache/datasketches-go/filters"
)

// ---- items of every type the filter takes, in one id space ----

type blForm struct {
	update func(f filters.BloomFilter) error
	query  func(f filters.BloomFilter) bool
	both   func(f filters.BloomFilter) bool
}

func blF64(id uint64) float64 {
	switch id / 7 % 17 {
	case 0:
		return 0
	case 1:
		return math.NaN()
	case 2:
		return math.Inf(1)
	case 3:
		return math.Inf(-1)
	}
	return float64(id) + 0.25
}

// alias returns another value the filter documents to be the same item.
func blAliasF64(v float64) float64 {
	switch {
	case v == 0:
		return math.Copysign(0, -1)
	case math.IsNaN(v):
		return math.Float64frombits(0xfff8000000000123)
	}
	return v
}

func blItem(id uint64, alias bool) blForm {
	switch id % 7 {
	case 0:
		if alias { // the same 64 bits, signed
			return blForm{func(f filters.BloomFilter) error { return f.UpdateInt64(int64(id)) }, func(f filters.BloomFilter) bool { return f.QueryInt64(int64(id)) }, func(f filters.BloomFilter) bool { return f.QueryAndUpdateInt64(int64(id)) }}
		}
		return blForm{func(f filters.BloomFilter) error { return f.UpdateUInt64(id) }, func(f filters.BloomFilter) bool { return f.QueryUInt64(id) }, func(f filters.BloomFilter) bool { return f.QueryAndUpdateUInt64(id) }}
	case 1:
		v := -int64(id)
		return blForm{func(f filters.BloomFilter) error { return f.UpdateInt64(v) }, func(f filters.BloomFilter) bool { return f.QueryInt64(v) }, func(f filters.BloomFilter) bool { return f.QueryAndUpdateInt64(v) }}
	case 2:
		v := itemStr(id)
		if alias { // the same bytes
			b := []byte(v)
			return blForm{func(f filters.BloomFilter) error { return f.UpdateSlice(b) }, func(f filters.BloomFilter) bool { return f.QuerySlice(b) }, func(f filters.BloomFilter) bool { return f.QueryAndUpdateSlice(b) }}
		}
		return blForm{func(f filters.BloomFilter) error { return f.UpdateString(v) }, func(f filters.BloomFilter) bool { return f.QueryString(v) }, func(f filters.BloomFilter) bool { return f.QueryAndUpdateString(v) }}
	case 3:
		v := append(itemBytes(id), make([]byte, id/7%40)...)
		return blForm{func(f filters.BloomFilter) error { return f.UpdateSlice(v) }, func(f filters.BloomFilter) bool { return f.QuerySlice(v) }, func(f filters.BloomFilter) bool { return f.QueryAndUpdateSlice(v) }}
	case 4:
		v := blF64(id)
		if alias {
			v = blAliasF64(v)
		}
		return blForm{func(f filters.BloomFilter) error { return f.UpdateFloat64(v) }, func(f filters.BloomFilter) bool { return f.QueryFloat64(v) }, func(f filters.BloomFilter) bool { return f.QueryAndUpdateFloat64(v) }}
	case 5:
		v := make([]int64, 1+id/7%5)
		for i := range v {
			v[i] = int64(id) - int64(i)
		}
		return blForm{func(f filters.BloomFilter) error { return f.UpdateInt64Array(v) }, func(f filters.BloomFilter) bool { return f.QueryInt64Array(v) }, func(f filters.BloomFilter) bool { return f.QueryAndUpdateInt64Array(v) }}
	}
	v := make([]float64, 1+id/7%5)
	for i := range v {
		v[i] = float64(id) / float64(i+1)
	}
	return blForm{func(f filters.BloomFilter) error { return f.UpdateFloat64Array(v) }, func(f filters.BloomFilter) bool { return f.QueryFloat64Array(v) }, func(f filters.BloomFilter) bool { return f.QueryAndUpdateFloat64Array(v) }}
}

// blank forms of items the filter documents to ignore
func blNothing(f filters.BloomFilter) error {
	for _, err := range []error{f.UpdateString(""), f.UpdateInt64Array(nil), f.UpdateFloat64Array([]float64{})} {
		if err != nil {
			return err
		}
	}
	if f.QueryString("") || f.QueryAndUpdateString("") || f.QueryInt64Array(nil) || f.QueryAndUpdateInt64Array([]int64{}) || f.QueryFloat64Array(nil) || f.QueryAndUpdateFloat64Array(nil) {
		return fmt.Errorf("an empty item is reported present")
	}
	return nil
}

func blDecode(b []byte) (filters.BloomFilter, error) {
	if len(b) >= 24 && b[3]&4 != 0 && binary.LittleEndian.Uint32(b[16:]) > 1<<22 {
		return nil, errConfiguredSize
	}
	return filters.NewBloomFilterFromSlice(b)
}

// blBits reads the bit array out of an image.
func blBits(b []byte, capacity uint64) ([]uint64, error) {
	v := make([]uint64, capacity/64)
	if len(b) == 24 && b[3]&4 != 0 {
		return v, nil
	}
	if uint64(len(b)) != 32+capacity/8 {
		return nil, fmt.Errorf("image of %d bytes for %d bits", len(b), capacity)
	}
	for i := range v {
		v[i] = binary.LittleEndian.Uint64(b[32+8*i:])
	}
	return v, nil
}

func popcount(v []uint64) uint64 {
	n := 0
	for _, x := range v {
		n += bits.OnesCount64(x)
	}
	return uint64(n)
}

type blCfg struct {
	nbits  uint64
	hashes uint16
	seed   uint64
	random bool // seed drawn through the library's own generator
}

type simRand struct{ s *Sim }

func (r simRand) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(r.s.Choose(256))
	}
	return len(p), nil
}

func drawBloom(s *Sim) *blCfg {
	c := &blCfg{hashes: uint16(1 + s.Choose(8)), seed: s.Word()}
	switch s.Choose(5) {
	case 0:
		c.seed = uint64(s.Choose(3))
	case 1: // the library's random source, under the simulator's control
		old := crand.Reader
		crand.Reader = simRand{s}
		seed, err := filters.GenerateRandomSeed()
		crand.Reader = old
		s.Must(err, "bloom-seed")
		c.seed, c.random = seed, true
	}
	switch s.Choose(4) {
	case 0:
		c.nbits = uint64(1 + s.Choose(200))
	case 1:
		c.nbits = uint64(1 + s.Choose(4000))
	case 2:
		c.nbits = 1 << (6 + s.Choose(8))
	case 3:
		c.nbits = uint64(1 + s.Choose(40000))
	}
	if s.big {
		c.nbits = 1<<16 + uint64(s.Choose(1<<24))
		return c
	}
	switch s.Choose(40) {
	case 0:
		c.hashes = math.MaxUint16
		c.nbits = min(c.nbits, 300)
	case 1, 2:
		c.hashes = uint16(20 + s.Choose(300))
	}
	return c
}

func (c *blCfg) make() filters.BloomFilter {
	f, err := filters.NewBloomFilterBySize(c.nbits, c.hashes, filters.WithSeed(c.seed))
	if err != nil {
		panic(err)
	}
	return f
}

func (c *blCfg) capacity() uint64 { return (c.nbits + 63) / 64 * 64 }
func (c *blCfg) maxItems() int {
	if c.hashes > 1000 {
		return 3
	}
	if c.nbits > 1<<16 {
		return 20000
	}
	return 200
}

func (c *blCfg) checkShape(s *Sim, f filters.BloomFilter, at string) []uint64 {
	s.Assert(f.Capacity() == c.capacity() && f.NumHashes() == c.hashes && f.Seed() == c.seed, "bloom-shape", "%s: %d bits, %d hashes, seed %d; want %d, %d, %d", at, f.Capacity(), f.NumHashes(), f.Seed(), c.capacity(), c.hashes, c.seed)
	used, empty := f.BitsUsed(), f.IsEmpty()
	b, err := f.ToCompactSlice()
	s.Must(err, "bloom-encode")
	v, err := blBits(b, f.Capacity())
	s.Must(err, "bloom-image")
	s.Assert(used == popcount(v), "bloom-bits-used", "%s: %d bits reported used, %d are set", at, used, popcount(v))
	s.Assert(empty == (popcount(v) == 0), "bloom-empty", "%s: IsEmpty %v with %d bits set", at, empty, popcount(v))
	return v
}

// blPut adds an item in one of the ways the filter offers.
func blPut(s *Sim, f filters.BloomFilter, id, how uint64) {
	it := blItem(id, how&1 != 0)
	if how&2 == 0 {
		s.Must(it.update(f), "bloom-update")
		return
	}
	prior := true
	if how&4 == 0 {
		prior = it.query(f)
	}
	got := it.both(f)
	if how&4 == 0 {
		s.Assert(got == prior, "bloom-query-and-update", "item %d: query-and-update says %v, the query before it %v", id, got, prior)
	}
}

// ---- cluster family ----

type blFam struct {
	*blCfg
	st *stream
}

func newBloomFam(s *Sim) Family { return &blFam{drawBloom(s), newStream(s)} }

func (f *blFam) Name() string     { return "bloom" }
func (f *blFam) Idempotent() bool { return true }
func (f *blFam) NextBatch(s *Sim) *Batch {
	return f.st.Next(f.maxItems(), []valType{vU64})
}
func (f *blFam) NewLeaf(s *Sim) Replica { return &blRep{f, f.make(), nil} }
func (f *blFam) NewAgg(s *Sim) Replica  { return &blRep{f, f.make(), nil} }
func (f *blFam) DecodeAny(enc string, b []byte) error {
	_, err := blDecode(b)
	return err
}

type blRep struct {
	f   *blFam
	sk  filters.BloomFilter
	bag Bag
}

func (r *blRep) Kind() string { return "bloom" }
func (r *blRep) Bag() Bag     { return r.bag }

func (r *blRep) Update(s *Sim, b *Batch) {
	p := prng{s.Word()}
	for _, id := range b.IDs {
		blPut(s, r.sk, id, p.next()>>20)
	}
	if p.next()%8 == 0 {
		s.Must(blNothing(r.sk), "bloom-empty-item")
	}
	r.bag = r.bag.Union(Bag{b})
}

func (r *blRep) Encode(s *Sim) *Image {
	b, err := r.sk.ToCompactSlice()
	s.Must(err, "bloom-encode")
	return &Image{Enc: "bloom", Bytes: b, M: r.bag}
}

func (r *blRep) decode(s *Sim, img *Image) *blRep {
	sk, err := blDecode(append([]byte(nil), img.Bytes...))
	s.Must(err, "bloom-decode")
	return &blRep{r.f, sk, img.M.(Bag)}
}

func (r *blRep) Absorb(s *Sim, img *Image) {
	src := r.decode(s, img)
	s.Assert(r.sk.IsCompatible(src.sk), "bloom-compatible", "filters of one configuration are reported incompatible")
	s.Must(r.sk.Union(src.sk), "bloom-union")
	if s.Choose(3) == 0 {
		src.Check(s, "source after union")
	}
	r.bag = r.bag.Union(src.bag)
}

func (r *blRep) Restore(s *Sim, img *Image) (Replica, bool) { return r.decode(s, img), true }

func (r *blRep) Check(s *Sim, at string) {
	f := r.f
	v := f.checkShape(s, r.sk, at)
	whole := f.make() // one filter fed all items
	for _, b := range r.bag {
		for _, id := range b.IDs {
			s.Must(blItem(id, false).update(whole), "bloom-update")
		}
	}
	w := f.checkShape(s, whole, "one filter of the whole stream")
	s.Assert(slices.Equal(v, w), "bloom-union-bits", "%s: %d bits set, one filter fed everything has %d", at, popcount(v), popcount(w))
	p := prng{s.Word()}
	for _, b := range r.bag {
		for _, id := range b.IDs {
			s.Assert(blItem(id, p.next()&1 != 0).query(r.sk), "bloom-forgot", "%s: item %d of batch %d is reported absent", at, id, b.ID)
		}
	}
	for i := 0; i < 10; i++ {
		id := p.next()
		a, b := blItem(id, false).query(r.sk), blItem(id, false).query(whole)
		s.Assert(a == b, "bloom-union-query", "%s: item %d: %v, one filter fed everything says %v", at, id, a, b)
	}
	s.State(54, f.nbits, uint64(f.hashes), popcount(v))
}

// ---- set algebra on several filters against explicit bit sets ----

func blAlgebraScenario(s *Sim) {
	c := drawBloom(s)
	type slot struct {
		f filters.BloomFilter
		m []uint64
	}
	n := 2 + s.Choose(3)
	fs := make([]*slot, n)
	for i := range fs {
		fs[i] = &slot{c.make(), make([]uint64, c.capacity()/64)}
	}
	memo := map[uint64][]uint64{}
	itemBits := func(id uint64) []uint64 {
		if m, ok := memo[id]; ok {
			return m
		}
		f := c.make()
		s.Must(blItem(id, false).update(f), "bloom-update")
		m := c.checkShape(s, f, "filter of one item")
		s.Assert(popcount(m) >= 1 && popcount(m) <= uint64(c.hashes), "bloom-item-bits", "one item sets %d bits with %d hashes", popcount(m), c.hashes)
		memo[id] = m
		return m
	}
	within := func(id uint64, m []uint64) bool {
		if popcount(m) == 0 {
			return false
		}
		for i, x := range itemBits(id) {
			if x&^m[i] != 0 {
				return false
			}
		}
		return true
	}
	universe := uint64(1 + s.Size(c.maxItems()))
	p := prng{s.Word()}
	for op := 3 + s.Size(60); op > 0; op-- {
		i := s.Choose(n)
		a, b := fs[i], fs[s.Choose(n)]
		s.ops++
		switch s.Pick(10, 5, 4, 3, 1, 3, 3) {
		case 0:
			for k := 1 + s.Size(min(40, c.maxItems())); k > 0; k-- {
				id := p.next() % universe
				want := within(id, a.m)
				it := blItem(id, p.next()&8 != 0)
				switch p.next() >> 20 % 3 {
				case 0:
					s.Must(it.update(a.f), "bloom-update")
				case 1: // no query in between: the count of bits is stale here
					s.Assert(it.both(a.f) == want, "bloom-query-and-update", "item %d: query-and-update says %v", id, !want)
				case 2:
					s.Assert(it.query(a.f) == want, "bloom-query", "item %d: query says %v, its bits say %v", id, !want, want)
					continue
				}
				for j, x := range itemBits(id) {
					a.m[j] |= x
				}
			}
			s.Step("update")
		case 1:
			s.Step("union")
			s.Must(a.f.Union(b.f), "bloom-union")
			for j := range a.m {
				a.m[j] |= b.m[j]
			}
		case 2:
			s.Step("intersect")
			s.Must(a.f.Intersect(b.f), "bloom-intersect")
			for j := range a.m {
				a.m[j] &= b.m[j]
			}
		case 3:
			s.Step("invert")
			s.Must(a.f.Invert(), "bloom-invert")
			for j := range a.m {
				a.m[j] = ^a.m[j]
			}
		case 4:
			s.Step("reset")
			s.Must(a.f.Reset(), "bloom-reset")
			clear(a.m)
		case 5:
			s.Step("restart")
			img, err := a.f.ToCompactSlice()
			s.Must(err, "bloom-encode")
			a.f, err = blDecode(img)
			s.Must(err, "bloom-decode")
			clear(img)
			s.Fault("crash-restart")
		case 6:
			s.Step("read")
			switch s.Choose(3) {
			case 0:
				s.Assert(a.f.BitsUsed() == popcount(a.m), "bloom-bits-used", "%d bits reported used, the model has %d", a.f.BitsUsed(), popcount(a.m))
			case 1:
				s.Assert(a.f.IsEmpty() == (popcount(a.m) == 0), "bloom-empty", "IsEmpty %v, the model has %d bits", a.f.IsEmpty(), popcount(a.m))
			case 2:
				for k := 0; k < 5; k++ {
					id := p.next() % universe
					got, want := blItem(id, k&1 == 0).query(a.f), within(id, a.m)
					s.Assert(got == want, "bloom-query", "item %d: query says %v, its bits say %v", id, got, want)
				}
			}
		}
		if s.Choose(4) == 0 {
			for j, x := range fs {
				v := c.checkShape(s, x.f, "filter")
				s.Assert(slices.Equal(v, x.m), "bloom-bits", "filter %d has %d bits set, the model has %d", j, popcount(v), popcount(x.m))
			}
		}
	}
	for j, x := range fs {
		v := c.checkShape(s, x.f, "filter at the end")
		s.Assert(slices.Equal(v, x.m), "bloom-bits", "filter %d has %d bits set, the model has %d", j, popcount(v), popcount(x.m))
		s.State(55, c.nbits, uint64(c.hashes), popcount(v))
	}
}

// blAccuracyScenario: a filter sized for n items has about the asked false-positive rate when it holds them.
func blAccuracyScenario(s *Sim) {
	fpp := []float64{0.3, 0.1, 0.05, 0.01, 0.001}[s.Choose(5)]
	n := uint64(200 + s.Size(4000))
	c := &blCfg{seed: s.Word()}
	s.Logf("bloom accuracy: %d items at %v", n, fpp)
	mk := func() filters.BloomFilter {
		f, err := filters.NewBloomFilterByAccuracy(n, fpp, filters.WithSeed(c.seed))
		s.Must(err, "bloom-new")
		return f
	}
	parts := make([]filters.BloomFilter, 1+s.Choose(4))
	for i := range parts {
		parts[i] = mk()
	}
	form := uint64(s.Choose(8)) // one item type, or all
	item := func(i uint64) uint64 {
		if form < 7 {
			i = i*7*17 + 7*5 + form // keep clear of the special doubles
		} else {
			i = i*17*7 + 7*5 + i%7
		}
		return i
	}
	p := prng{s.Word()}
	for i := uint64(0); i < n; i++ {
		s.Must(blItem(item(i), false).update(parts[p.next()%uint64(len(parts))]), "bloom-update")
	}
	for len(parts) > 1 {
		i := s.Choose(len(parts) - 1)
		s.Must(parts[i].Union(parts[i+1]), "bloom-union")
		parts = append(parts[:i+1], parts[i+2:]...)
		s.ops++
	}
	f := parts[0]
	for i := uint64(0); i < n; i++ {
		s.Assert(blItem(item(i), true).query(f), "bloom-forgot", "item %d is reported absent", item(i))
	}
	probes := 4000
	bad := 0
	for i := 0; i < probes; i++ {
		if blItem(item(1<<40+uint64(i)), false).query(f) {
			bad++
		}
	}
	exp := float64(probes) * fpp
	noteMax(s, "bloom false positives / promised", float64(bad)/exp)
	// with many hashes rounding the number of hashes up costs little; short filters and double hashing cost a bit
	s.Assert(float64(bad) <= 1.5*exp+6*math.Sqrt(exp)+6, "bloom-false-positives", "%d of %d items not in the filter are reported present, promised are %.1f (%d items, %d bits, %d hashes)", bad, probes, exp, n, f.Capacity(), f.NumHashes())
	// sizing helpers are consistent with what was built
	nb := filters.SuggestNumFilterBits(n, fpp)
	want := -float64(n) * math.Log(fpp) / (math.Ln2 * math.Ln2)
	s.Assert(float64(nb) >= want-1 && float64(nb) <= want+2, "bloom-suggest", "%d bits suggested for %d items at %v, the formula gives %v", nb, n, fpp, want)
	s.Assert(f.Capacity() == (nb+63)/64*64, "bloom-suggest", "%d bits built, %d suggested", f.Capacity(), nb)
	k := -math.Log2(fpp)
	for _, h := range []uint16{filters.SuggestNumHashes(fpp), filters.SuggestNumHashesFromSize(n, nb), f.NumHashes()} {
		s.Assert(float64(h) >= k-0.01 && float64(h) <= k+1.1, "bloom-suggest", "%d hashes suggested for %v, the formula gives %v", h, fpp, k)
	}
	// the share of bits set follows the number of items hashed
	fill := 1 - math.Exp(-float64(n)*float64(f.NumHashes())/float64(f.Capacity()))
	got := float64(f.BitsUsed()) / float64(f.Capacity())
	s.Assert(math.Abs(got-fill) <= 0.03+6/math.Sqrt(float64(f.Capacity())), "bloom-fill", "%.3f of the bits are set, %d items should set %.3f", got, n, fill)
	s.State(56, n, f.Capacity(), uint64(bad))
}

// ---- objects for the cross-cutting scenarios ----

func newBloomObj(s *Sim) *Obj {
	c := drawBloom(s)
	return c.obj(c.make())
}

func (c *blCfg) feed(s *Sim) *Mut {
	most := min(60, c.maxItems())
	if s.big {
		most = 4000
	}
	b := newStream(s).Next(most, []valType{vU64})
	how := s.Word()
	return &Mut{Name: fmt.Sprintf("update %v", b), Do: func(o *Obj) error {
		p := prng{how}
		f := o.Live.(filters.BloomFilter)
		for _, id := range b.IDs {
			w := p.next() >> 20
			it := blItem(id, w&1 != 0)
			if w&2 == 0 {
				if err := it.update(f); err != nil {
					return err
				}
			} else {
				it.both(f)
			}
		}
		return nil
	}}
}

func (c *blCfg) obj(f filters.BloomFilter) *Obj {
	live := func(o *Obj) filters.BloomFilter { return o.Live.(filters.BloomFilter) }
	o := &Obj{Live: f, Kind: "bloom", Limit: &limit{bytes: 1, image: func(o *Obj) (int, int) {
		b, err := live(o).ToCompactSlice()
		if err != nil {
			panic(violation{"encode-error:bloom", err.Error()})
		}
		return len(b), 32 + int((c.nbits+63)/64*8)
	}}}
	o.Print = func(o *Obj, p *printer) {
		k := live(o)
		p.add("shape", k.Capacity(), k.NumHashes(), k.Seed(), k.BitsUsed(), k.IsEmpty())
		for id := uint64(0); id < 30; id++ {
			p.add("item", id, blItem(id, false).query(k))
		}
		b, err := k.ToCompactSlice()
		p.add("image", err, b)
	}
	o.Gen = func(s *Sim) *Mut {
		switch s.Choose(8) {
		case 0, 1:
			src := c.obj(c.make())
			for n := s.Choose(3); n > 0; n-- {
				s.Must(apply(s, src, c.feed(s), s.Word()), "bloom-update")
			}
			return &Mut{Name: "union", Srcs: []*Obj{src}, Do: func(o *Obj) error { return live(o).Union(live(src)) }}
		case 2:
			src := c.obj(c.make())
			for n := s.Choose(4); n > 0; n-- {
				s.Must(apply(s, src, c.feed(s), s.Word()), "bloom-update")
			}
			return &Mut{Name: "intersect", Srcs: []*Obj{src}, Do: func(o *Obj) error { return live(o).Intersect(live(src)) }}
		case 3:
			switch s.Choose(3) {
			case 0:
				return &Mut{Name: "invert", Do: func(o *Obj) error { return live(o).Invert() }}
			case 1:
				return &Mut{Name: "update of nothing", Do: func(o *Obj) error { return blNothing(live(o)) }}
			}
		}
		return c.feed(s)
	}
	o.Fresh = func() *Obj { return c.obj(c.make()) }
	o.Reset = func(o *Obj) {
		if err := live(o).Reset(); err != nil {
			panic(err)
		}
	}
	o.Codecs = []*Codec{{Name: "bloom", Wire: "bloom", Exact: true,
		Enc: func(o *Obj) ([]byte, error) { return live(o).ToCompactSlice() },
		Dec: func(b []byte) (*Obj, error) {
			n, err := blDecode(b)
			if err != nil {
				return nil, err
			}
			return c.obj(n), nil
		}}}
	o.Bad = func(s *Sim) []*Mut { return c.bad() }
	return o
}

func (c *blCfg) bad() []*Mut {
	live := func(o *Obj) filters.BloomFilter { return o.Live.(filters.BloomFilter) }
	mk := func(n uint64, h uint16) func(o *Obj) error {
		return func(o *Obj) error { _, err := filters.NewBloomFilterBySize(n, h); return err }
	}
	acc := func(n uint64, p float64) func(o *Obj) error {
		return func(o *Obj) error { _, err := filters.NewBloomFilterByAccuracy(n, p); return err }
	}
	other := func(n uint64, h uint16, seed uint64, inter bool) func(o *Obj) error {
		return func(o *Obj) error {
			f, err := filters.NewBloomFilterBySize(n, h, filters.WithSeed(seed))
			if err != nil {
				panic(err)
			}
			_ = f.UpdateInt64(7)
			if live(o).IsCompatible(f) {
				return nil
			}
			if inter {
				return live(o).Intersect(f)
			}
			return live(o).Union(f)
		}
	}
	full := c.make()
	_ = full.UpdateInt64(5)
	img, err := full.ToCompactSlice()
	if err != nil {
		panic(err)
	}
	ms := []*Mut{
		{Name: "new with 0 bits", Do: mk(0, 3)},
		{Name: "new with 0 hashes", Do: mk(64, 0)},
		{Name: "new with 2^40 bits", Do: mk(1<<40, 3)},
		{Name: "new for 0 items", Do: acc(0, 0.1)},
		{Name: "new for rate 0", Do: acc(10, 0)},
		{Name: "new for rate 1", Do: acc(10, 1)},
		{Name: "new for rate -1", Do: acc(10, -1)},
		{Name: "new for rate 1.5", Do: acc(10, 1.5)},
		{Name: "restore of nothing", Do: func(o *Obj) error { _, err := blDecode(nil); return err }},
	}
	for _, inter := range []bool{false, true} {
		op := map[bool]string{false: "union", true: "intersection"}[inter]
		ms = append(ms,
			&Mut{Name: op + " with another size", Do: other(c.nbits+64, c.hashes, c.seed, inter)},
			&Mut{Name: op + " with another number of hashes", Do: other(c.nbits, c.hashes%200+1, c.seed, inter)},
			&Mut{Name: op + " with another seed", Do: other(c.nbits, c.hashes, c.seed+1, inter)})
	}
	for i, v := range map[int]byte{0: 2, 1: 2, 2: 7} {
		x := append([]byte(nil), img...)
		x[i] = v
		ms = append(ms, &Mut{Name: fmt.Sprintf("restore with byte %d set to %d", i, v), Do: func(o *Obj) error { _, err := blDecode(x); return err }})
	}
	long := append(append([]byte(nil), img...), make([]byte, 8)...)
	ms = append(ms, &Mut{Name: "restore with 8 bytes more than the size says", Do: func(o *Obj) error { _, err := blDecode(long); return err }})
	slices.SortFunc(ms, func(a, b *Mut) int { return bytes.Compare([]byte(a.Name), []byte(b.Name)) })
	for _, f := range foreignImages() {
		f := f
		if f.fam == "bloom" {
			continue
		}
		ms = append(ms, &Mut{Name: "restore of a " + f.fam + " image", Do: func(o *Obj) error {
			_, err := blDecode(f.b)
			return err
		}})
	}
	for _, m := range ms {
		m.Name = "bloom " + m.Name
	}
	return ms
}

func init() {
	addKind("bloom", newBloomObj)
	register(&propDef{ID: "B01", Quick: 30000, Thorough: 1500000,
		Scenarios: []scenarioDef{{"bloom-big", 1, bigScenario(clusterScenario(newBloomFam))}, {"bloom-cluster", 120, clusterScenario(newBloomFam)}, {"bloom-algebra", 100, blAlgebraScenario}, {"bloom-accuracy", 20, blAccuracyScenario}},
		Rule:      "Simulated cluster of Bloom filters against one filter of the whole stream, and set algebra against explicit bit sets.",
		Real:      []string{"filters", "internal hashing"},
		Stub:      []string{"network, disk, process crashes, clock (simulated)", "crypto/rand (replaced by the simulator's choices)"}})
}
