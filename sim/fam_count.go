package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"slices"

	"github.com/apache/datasketches-go/count"
)

// ---- items: integers, strings and byte strings in one key space ----

func cmBytes(id uint64) []byte {
	switch id % 3 {
	case 0:
		return le64(id)
	case 1:
		return []byte(fmt.Sprintf("item-%d", id))
	}
	b := le64(id * 0x9e3779b97f4a7c15)
	return append(b, b[:id%9]...)[:1+id%16]
}

func cmUpdate(sk *count.CountMinSketch, id uint64, w int64) error {
	switch id % 3 {
	case 0:
		return sk.UpdateUint64(id, w)
	case 1:
		return sk.UpdateString(string(cmBytes(id)), w)
	}
	return sk.Update(cmBytes(id), w)
}

func cmEstimate(sk *count.CountMinSketch, id uint64) int64 {
	switch id % 3 {
	case 0:
		return sk.GetEstimateUint64(id)
	case 1:
		return sk.GetEstimateString(string(cmBytes(id)))
	}
	return sk.GetEstimate(cmBytes(id))
}

func cmBounds(sk *count.CountMinSketch, id uint64) (int64, int64) {
	if id%3 == 0 {
		return sk.GetLowerBoundUint64(id), sk.GetUpperBoundUint64(id)
	}
	return sk.GetLowerBound(cmBytes(id)), sk.GetUpperBound(cmBytes(id))
}

func cmImage(sk *count.CountMinSketch) ([]byte, error) {
	var w bytes.Buffer
	err := sk.Serialize(&w)
	return w.Bytes(), err
}

var errConfiguredSize = errors.New("an empty sketch this large is not built here")

func cmDecode(b []byte, seed int64) (*count.CountMinSketch, error) {
	if len(b) >= 16 && b[3]&1 == 1 {
		// an empty image stands for counters of the configured size
		nb, nh := int64(int32(binary.LittleEndian.Uint32(b[8:]))), int64(int8(b[12]))
		if nb*nh > 1<<22 && nb > 0 && nh > 0 && nb*nh < 1<<30 {
			return nil, errConfiguredSize
		}
	}
	var none *count.CountMinSketch
	return none.Deserialize(b, seed)
}

type cmCfg struct {
	hashes  int8
	buckets int32
	seed    int64
	max     int
	neg     bool // weights may be negative
}

func drawCM(s *Sim) *cmCfg {
	c := &cmCfg{hashes: int8(1 + s.Choose(6)), seed: int64(drawSeed(s))}
	if s.Choose(16) == 0 {
		c.hashes = 127
	}
	switch s.Choose(4) {
	case 0:
		c.buckets = int32(3 + s.Choose(5))
	case 1:
		c.buckets = int32(3 + s.Choose(60))
	case 2:
		c.buckets = 1 << (2 + s.Choose(7))
	case 3:
		c.buckets = int32(3 + s.Choose(1000))
	}
	if c.hashes > 6 {
		c.buckets = min(c.buckets, 40)
	}
	c.neg = s.Choose(5) == 0
	c.max = 400
	if s.big {
		c.buckets = int32(1000 + s.Choose(100000))
		c.hashes = int8(1 + s.Choose(9))
		c.max = 20000
	}
	return c
}

func (c *cmCfg) make() *count.CountMinSketch {
	sk, err := count.NewCountMinSketch(c.hashes, c.buckets, c.seed)
	if err != nil {
		panic(err)
	}
	return sk
}

func (c *cmCfg) batch(s *Sim, st *stream) *Batch {
	b := st.NextFreq(c.max)
	if c.neg {
		p := prng{s.Word()}
		for i := range b.W {
			if p.next()%3 == 0 {
				b.W[i] = -b.W[i]
			}
		}
	}
	return b
}

// ---- oracle and cluster family ----

type cmFam struct {
	*cmCfg
	st *stream
}

func newCMFam(s *Sim) Family { return &cmFam{drawCM(s), newStream(s)} }

func (f *cmFam) Name() string            { return "count-min" }
func (f *cmFam) Idempotent() bool        { return false }
func (f *cmFam) NextBatch(s *Sim) *Batch { return f.batch(s, f.st) }
func (f *cmFam) NewLeaf(s *Sim) Replica  { return &cmRep{f, f.make(), nil} }
func (f *cmFam) NewAgg(s *Sim) Replica   { return &cmRep{f, f.make(), nil} }
func (f *cmFam) DecodeAny(enc string, b []byte) error {
	_, err := cmDecode(b, f.seed)
	return err
}

func (f *cmFam) maxWeight() int64 { return 1 << 61 }

type cmRep struct {
	f   *cmFam
	sk  *count.CountMinSketch
	bag Bag
}

func (r *cmRep) Kind() string { return "count-min" }
func (r *cmRep) Bag() Bag     { return r.bag }

func (r *cmRep) Update(s *Sim, b *Batch) {
	for i, id := range b.IDs {
		s.Must(cmUpdate(r.sk, id, b.W[i]), "countmin-update")
	}
	r.bag = r.bag.Add(b)
}

func (r *cmRep) Encode(s *Sim) *Image {
	b, err := cmImage(r.sk)
	s.Must(err, "countmin-encode")
	return &Image{Enc: "count-min", Bytes: b, M: r.bag}
}

func (r *cmRep) decode(s *Sim, img *Image) *cmRep {
	b := append([]byte(nil), img.Bytes...)
	sk, err := cmDecode(b, r.f.seed)
	s.Must(err, "countmin-decode")
	return &cmRep{r.f, sk, img.M.(Bag)}
}

func (r *cmRep) Absorb(s *Sim, img *Image) {
	src := r.decode(s, img)
	s.Must(r.sk.Merge(src.sk), "countmin-merge")
	if s.Choose(3) == 0 {
		src.Check(s, "source after merge")
	}
	r.bag = r.bag.Concat(src.bag)
}

// double merges the sketch with a restored copy of itself.
func (r *cmRep) double(s *Sim, c Replica) {
	s.Must(r.sk.Merge(c.(*cmRep).sk), "countmin-merge")
	r.bag = r.bag.Doubled()
}

func (r *cmRep) Restore(s *Sim, img *Image) (Replica, bool) { return r.decode(s, img), true }

func (r *cmRep) Check(s *Sim, at string) {
	f, sk := r.f, r.sk
	s.Assert(sk.GetNumBuckets() == f.buckets && sk.GetNumHashes() == f.hashes && sk.GetSeed() == f.seed, "countmin-shape",
		"%s: shape %d,%d,%d want %d,%d,%d", at, sk.GetNumBuckets(), sk.GetNumHashes(), sk.GetSeed(), f.buckets, f.hashes, f.seed)
	rel := math.E / float64(f.buckets)
	s.Assert(math.Abs(sk.GetRelativeError()/rel-1) < 1e-9, "countmin-relative-error", "%s: relative error %v want %v", at, sk.GetRelativeError(), rel)
	truth := map[uint64]int64{}
	total := int64(0)
	whole := f.make() // one sketch fed the whole stream
	for _, b := range r.bag {
		for i, id := range b.IDs {
			w := b.W[i] * b.mult()
			truth[id] += w
			total += max(w, -w)
			s.Must(cmUpdate(whole, id, w), "countmin-update")
		}
	}
	s.Assert(sk.GetTotalWeight() == total, "countmin-weight", "%s: total weight %d want %d", at, sk.GetTotalWeight(), total)
	ids := make([]uint64, 0, len(truth)+5)
	for id := range truth {
		ids = append(ids, id)
	}
	slices.Sort(ids)
	for i := 0; i < 5; i++ {
		ids = append(ids, uint64(s.Choose(1<<20)))
	}
	slack := int64(sk.GetRelativeError() * float64(total))
	for _, id := range ids {
		est := cmEstimate(sk, id)
		want := cmEstimate(whole, id)
		s.Assert(est == want, "countmin-linear", "%s: item %d estimated %d, by one sketch of the whole stream %d", at, id, est, want)
		s.Assert(est == sk.GetEstimate(cmBytes(id)), "countmin-forms", "%s: item %d estimated %d, by its bytes %d", at, id, est, sk.GetEstimate(cmBytes(id)))
		lb, ub := cmBounds(sk, id)
		s.Assert(lb <= est && est <= ub, "countmin-bounds", "%s: item %d: bounds %d..%d around %d", at, id, lb, ub, est)
		if !f.neg {
			s.Assert(est >= truth[id], "countmin-underestimate", "%s: item %d of weight %d estimated %d", at, id, truth[id], est)
			s.Assert(ub >= est+slack-1-slack>>40 && ub <= est+slack+1+slack>>40, "countmin-upper-bound", "%s: item %d: upper bound %d, estimate %d, relative error x weight %d", at, id, ub, est, slack)
			s.Assert(est <= total, "countmin-overestimate", "%s: item %d estimated %d of %d", at, id, est, total)
		}
	}
	if s.Choose(2) == 0 {
		a, e1 := cmImage(sk)
		b, e2 := cmImage(whole)
		s.Assert(e1 == nil && e2 == nil && bytes.Equal(a, b), "countmin-image", "%s: image differs from the one of a sketch of the whole stream", at)
	}
	s.State(52, uint64(f.buckets), uint64(f.hashes), uint64(len(truth)))
}

// cmAccuracyScenario: the share of items whose error exceeds the advertised one.
func cmAccuracyScenario(s *Sim) {
	conf := []float64{0.7, 0.9, 0.95, 0.99}[s.Choose(4)]
	rel := []float64{0.3, 0.1, 0.05, 0.01}[s.Choose(4)]
	nb, err := count.SuggestNumBuckets(rel)
	s.Must(err, "countmin-suggest")
	nh, err := count.SuggestNumHashes(conf)
	s.Must(err, "countmin-suggest")
	s.Assert(math.E/float64(nb) <= rel && float64(nb) < math.E/rel+2, "countmin-suggest", "%d buckets suggested for relative error %v", nb, rel)
	s.Assert(1-math.Exp(-float64(nh)) >= conf && 1-math.Exp(-float64(nh-1)) < conf, "countmin-suggest", "%d hashes suggested for confidence %v", nh, conf)
	seed := int64(drawSeed(s))
	parts := 1 + s.Choose(4)
	var sks []*count.CountMinSketch
	for i := 0; i < parts; i++ {
		sk, err := count.NewCountMinSketch(nh, nb, seed)
		s.Must(err, "countmin-new")
		sks = append(sks, sk)
	}
	s.Assert(sks[0].GetRelativeError() <= rel, "countmin-suggest", "relative error %v for %v asked", sks[0].GetRelativeError(), rel)
	// a crowd of light items among heavy ones, as many as the worst case has
	p := prng{s.Word()}
	light := 2000 + s.Choose(4000)
	heavy := int(float64(nb)/math.E) * s.Choose(101) / 100
	hw := int64(1 + light/max(heavy, 1)*s.Choose(30))
	s.Logf("count-min accuracy: %d hashes, %d buckets, %d light, %d heavy of weight %d", nh, nb, light, heavy, hw)
	total := int64(0)
	for i := 0; i < heavy; i++ {
		s.Must(cmUpdate(sks[p.next()%uint64(parts)], uint64(1<<30+i), hw), "countmin-update")
		total += hw
	}
	for i := 0; i < light; i++ {
		s.Must(cmUpdate(sks[p.next()%uint64(parts)], uint64(i), 1), "countmin-update")
		total++
	}
	for len(sks) > 1 {
		i := s.Choose(len(sks) - 1)
		s.Must(sks[i].Merge(sks[i+1]), "countmin-merge")
		sks = append(sks[:i+1], sks[i+2:]...)
		s.ops++
	}
	bad := 0
	lim := sks[0].GetRelativeError() * float64(total)
	for i := 0; i < light; i++ {
		if float64(cmEstimate(sks[0], uint64(i))-1) > lim {
			bad++
		}
	}
	exp := float64(light) * math.Exp(-float64(nh))
	noteMax(s, "count-min share of large errors / promised", float64(bad)/exp)
	s.Assert(float64(bad) <= 1.6*exp+6*math.Sqrt(exp)+6, "countmin-confidence", "%d of %d items are off by more than the relative error, promised are %.1f (%d hashes, %d buckets, %d heavy)", bad, light, exp, nh, nb, heavy)
	s.State(53, uint64(nb), uint64(nh), uint64(bad))
}

// ---- objects for the cross-cutting scenarios ----

func newCMObj(s *Sim) *Obj {
	c := drawCM(s)
	if !s.big {
		c.max = 60
	}
	return c.obj(c.make())
}

func (c *cmCfg) feed(s *Sim) *Mut {
	b := c.batch(s, newStream(s))
	return &Mut{Name: fmt.Sprintf("update %v", b), Do: func(o *Obj) error {
		for i, id := range b.IDs {
			if err := cmUpdate(o.Live.(*count.CountMinSketch), id, b.W[i]); err != nil {
				return err
			}
		}
		return nil
	}}
}

func (c *cmCfg) obj(sk *count.CountMinSketch) *Obj {
	live := func(o *Obj) *count.CountMinSketch { return o.Live.(*count.CountMinSketch) }
	o := &Obj{Live: sk, Kind: "countmin", Limit: &limit{bytes: 1, image: func(o *Obj) (int, int) {
		b, err := cmImage(live(o))
		if err != nil {
			panic(violation{"encode-error:countmin", err.Error()})
		}
		return len(b), 24 + 8*int(live(o).GetNumBuckets())*int(live(o).GetNumHashes())
	}}}
	o.Print = func(o *Obj, p *printer) {
		k := live(o)
		p.add("shape", k.GetNumBuckets(), k.GetNumHashes(), k.GetSeed(), k.GetTotalWeight(), k.GetRelativeError())
		for id := uint64(0); id < 40; id++ {
			lb, ub := cmBounds(k, id)
			p.add("item", id, cmEstimate(k, id), lb, ub)
		}
		b, err := cmImage(k)
		p.add("image", err, b)
	}
	o.Gen = func(s *Sim) *Mut {
		if s.Choose(3) == 0 {
			src := c.obj(c.make())
			for n := s.Choose(3); n > 0; n-- {
				s.Must(apply(s, src, c.feed(s), s.Word()), "countmin-update")
			}
			return &Mut{Name: "merge", Srcs: []*Obj{src}, Do: func(o *Obj) error { return live(o).Merge(live(src)) }}
		}
		if s.Choose(8) == 0 {
			return &Mut{Name: "update of nothing", Do: func(o *Obj) error {
				if err := live(o).Update(nil, 5); err != nil {
					return err
				}
				return live(o).UpdateString("", 5)
			}}
		}
		return c.feed(s)
	}
	o.Fresh = func() *Obj { return c.obj(c.make()) }
	o.Codecs = []*Codec{{Name: "countmin", Wire: "count-min", Exact: true,
		Enc:   func(o *Obj) ([]byte, error) { return cmImage(live(o)) },
		EncTo: func(o *Obj, w io.Writer) error { return live(o).Serialize(w) },
		Dec: func(b []byte) (*Obj, error) {
			n, err := cmDecode(b, c.seed)
			if err != nil {
				return nil, err
			}
			return c.obj(n), nil
		}}}
	o.Bad = func(s *Sim) []*Mut { return c.bad() }
	return o
}

func (c *cmCfg) bad() []*Mut {
	live := func(o *Obj) *count.CountMinSketch { return o.Live.(*count.CountMinSketch) }
	mk := func(h int8, b int32) func(o *Obj) error {
		return func(o *Obj) error { _, err := count.NewCountMinSketch(h, b, c.seed); return err }
	}
	other := func(h int8, b int32, seed int64) func(o *Obj) error {
		return func(o *Obj) error {
			n, err := count.NewCountMinSketch(h, b, seed)
			if err != nil {
				panic(err)
			}
			if err := n.UpdateUint64(5, 3); err != nil {
				panic(err)
			}
			return live(o).Merge(n)
		}
	}
	seed2 := c.seed + 1
	for {
		if h, _ := refMurmur(le64(uint64(seed2)), 0); h&0xffff != 0 {
			break
		}
		seed2++
	}
	full := c.make()
	_ = full.UpdateUint64(5, 3)
	img, err := cmImage(full)
	if err != nil {
		panic(err)
	}
	ms := []*Mut{
		{Name: "new with 2 buckets", Do: mk(3, 2)},
		{Name: "new with -5 buckets", Do: mk(3, -5)},
		{Name: "new with 0 hashes", Do: mk(0, 10)},
		{Name: "new with -1 hashes", Do: mk(-1, 10)},
		{Name: "new with 2^30 counters", Do: mk(4, 1<<28)},
		{Name: "new with 2^32 counters", Do: mk(4, 1<<30)},
		{Name: "merge with itself", Do: func(o *Obj) error { return live(o).Merge(live(o)) }},
		{Name: "merge with another number of hashes", Do: other(c.hashes%100+1, c.buckets, c.seed)},
		{Name: "merge with another number of buckets", Do: other(c.hashes, c.buckets+1, c.seed)},
		{Name: "merge with another seed", Do: other(c.hashes, c.buckets, seed2)},
		{Name: "restore with another seed", Do: func(o *Obj) error { _, err := cmDecode(img, seed2); return err }},
		{Name: "restore of nothing", Do: func(o *Obj) error { _, err := cmDecode(nil, c.seed); return err }},
		{Name: "buckets for relative error 0", Do: func(o *Obj) error { _, err := count.SuggestNumBuckets(0); return err }},
		{Name: "hashes for confidence 1.1", Do: func(o *Obj) error { _, err := count.SuggestNumHashes(1.1); return err }},
		{Name: "hashes for confidence -0.1", Do: func(o *Obj) error { _, err := count.SuggestNumHashes(-0.1); return err }},
	}
	for i, v := range map[int]byte{0: 3, 1: 2, 2: 7} {
		x := append([]byte(nil), img...)
		x[i] = v
		ms = append(ms, &Mut{Name: fmt.Sprintf("restore with byte %d set to %d", i, v), Do: func(o *Obj) error { _, err := cmDecode(x, c.seed); return err }})
	}
	slices.SortFunc(ms, func(a, b *Mut) int { return bytes.Compare([]byte(a.Name), []byte(b.Name)) })
	for _, f := range foreignImages() {
		f := f
		if f.fam == "countmin" {
			continue
		}
		ms = append(ms, &Mut{Name: "restore of a " + f.fam + " image", Do: func(o *Obj) error {
			_, err := cmDecode(f.b, c.seed)
			return err
		}})
	}
	for _, m := range ms {
		m.Name = "count-min " + m.Name
	}
	return ms
}

func init() {
	addKind("countmin", newCMObj)
	register(&propDef{ID: "M01", Quick: 30000, Thorough: 1500000,
		Scenarios: []scenarioDef{{"countmin-big", 1, bigScenario(clusterScenario(newCMFam))}, {"countmin-cluster", 180, clusterScenario(newCMFam)}, {"countmin-growth", 20, growthScenario(newCMFam)}, {"countmin-accuracy", 20, cmAccuracyScenario}},
		Rule:      "Simulated cluster of count-min sketches against exact weights and against one sketch of the whole stream.",
		Real:      []string{"count", "internal hashing"},
		Stub:      []string{"network, disk, process crashes, clock (simulated)"}})
}
