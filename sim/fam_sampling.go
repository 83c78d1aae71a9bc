package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"

	"github.com/apache/datasketches-go/sampling"
)

// NextUnique draws a batch of occurrences never seen before in the run.
func (st *stream) NextUnique(maxN int) *Batch {
	n := st.size(maxN)
	b := &Batch{ID: st.nextID, descr: fmt.Sprintf("n=%d from %d", n, st.fresh)}
	st.nextID++
	for i := 0; i < n; i++ {
		b.IDs = append(b.IDs, st.fresh%qMax)
		st.fresh++
	}
	st.all = append(st.all, b)
	return b
}

// ---- weights: a function of the occurrence ----

type weighing struct {
	pat int
	key uint64
}

const nWeighings = 13

func drawWeighing(s *Sim) weighing { return weighing{s.Choose(nWeighings), s.Word()} }

func (w weighing) String() string {
	return [...]string{"1", "1/3", "1..10", "0.1..0.7", "powers of 2", "rare heavy", "exponential", "pareto", "ascending", "descending", "large thirds", "tiny", "equal and one heavy", "golden sampling", "golden inverse"}[w.pat]
}

func (w weighing) of(id uint64) float64 {
	if w.pat >= nWeighings {
		return goldenWeight(w.pat, id)
	}
	h := mix64(id ^ w.key)
	u := (float64(h>>11) + 0.5) / (1 << 53)
	switch w.pat {
	case 0:
		return 1
	case 1:
		return 1.0 / 3
	case 2:
		return float64(1 + id%10)
	case 3:
		return 0.1 * float64(1+id%7)
	case 4:
		return math.Ldexp(1, int(h%40))
	case 5:
		if h%50 == 0 {
			return 1e6
		}
		return 1
	case 6:
		return -math.Log(u)
	case 7:
		return 1 / math.Sqrt(u)
	case 8:
		return float64(id + 1)
	case 9:
		return 1e6 / float64(id+1)
	case 10:
		return 1e15 / 3
	case 11:
		return 1e-12 * float64(1+h%5)
	}
	if id == w.key%97 {
		return 1e9
	}
	return 2
}

// bagIDs tells how often each item was offered.
func bagIDs(bag Bag) map[int64]int64 {
	m := map[int64]int64{}
	for _, b := range bag {
		for _, v := range b.IDs {
			m[int64(v)] += b.mult()
		}
	}
	return m
}

func drawSampleK(s *Sim, lo int) int {
	if s.big && s.Choose(3) > 0 {
		return lo + 1<<s.Choose(14)
	}
	switch s.Choose(4) {
	case 0:
		return lo + s.Choose(4)
	case 1:
		return lo + s.Choose(30)
	case 2:
		return 1 << (1 + s.Choose(8))
	}
	return lo + s.Choose(300)
}

func drawRF(s *Sim) sampling.ResizeFactor {
	return []sampling.ResizeFactor{sampling.ResizeX8, sampling.ResizeX1, sampling.ResizeX2, sampling.ResizeX4}[s.Choose(4)]
}

// ======== reservoir ========

// resModel is what a reservoir aggregate must report.
type resModel struct {
	bag  Bag
	maxK int
	low  int  // smallest k an input that was sampling had; 0: none
	leaf bool // fixed k
}

func checkReservoir[C comparable](s *Sim, t *itemType[C], sk *sampling.ReservoirItemsSketch[C], m *resModel, at string) {
	n := m.bag.N()
	if sk == nil {
		s.Assert(n == 0, "reservoir-nil", "%s: no sample of %d items", at, n)
		return
	}
	s.Assert(sk.N() == int64(n), "reservoir-n", "%s: n %d want %d", at, sk.N(), n)
	if m.low == 0 {
		s.Assert(sk.K() == m.maxK, "reservoir-k", "%s: k %d want %d", at, sk.K(), m.maxK)
	} else {
		s.Assert(sk.K() >= m.low && sk.K() <= m.maxK, "reservoir-k", "%s: k %d, inputs allow %d..%d", at, sk.K(), m.low, m.maxK)
	}
	s.Assert(sk.NumSamples() == min(n, sk.K()), "reservoir-size", "%s: %d samples of %d items for k=%d", at, sk.NumSamples(), n, sk.K())
	got := sk.Samples()
	s.Assert(len(got) == sk.NumSamples(), "reservoir-size", "%s: NumSamples %d, Samples %d", at, sk.NumSamples(), len(got))
	ids := bagIDs(m.bag)
	seen := map[int64]int64{}
	for _, c := range got {
		v := t.inv(c)
		s.Assert(ids[v] > 0, "reservoir-stranger", "%s: sample %d was never offered", at, v)
		seen[v]++
		s.Assert(seen[v] <= ids[v], "reservoir-twice", "%s: sample %d is held %d times, offered %d times", at, v, seen[v], ids[v])
	}
	mod := int64(1 + s.Choose(5))
	match := 0
	for v, c := range seen {
		if v%mod == 0 {
			match += int(c)
		}
	}
	sum, err := sk.EstimateSubsetSum(func(c C) bool { return t.inv(c)%mod == 0 })
	s.Must(err, "reservoir-subset")
	if n == 0 {
		s.Assert(sum == sampling.SampleSubsetSummary{}, "reservoir-subset", "%s: subset sum of nothing: %+v", at, sum)
		return
	}
	want := float64(n) * float64(match) / float64(len(got))
	s.Assert(relClose(sum.Estimate, want, 1e-9), "reservoir-subset", "%s: subset estimate %v, %d of %d samples of %d items match", at, sum.Estimate, match, len(got), n)
	s.Assert(sum.TotalSketchWeight == float64(n), "reservoir-subset-total", "%s: total weight %v of %d items", at, sum.TotalSketchWeight, n)
	s.Assert(sum.LowerBound <= sum.Estimate*(1+1e-12) && sum.Estimate <= sum.UpperBound*(1+1e-12) && sum.LowerBound >= 0 && sum.UpperBound <= float64(n)*(1+1e-12),
		"reservoir-subset-bounds", "%s: subset sum %+v", at, sum)
	if n <= sk.K() {
		s.Assert(sum.LowerBound == sum.Estimate && sum.Estimate == sum.UpperBound, "reservoir-subset-exact", "%s: everything is held, subset sum %+v", at, sum)
	}
	s.State(60, uint64(sk.K()), uint64(n), uint64(m.maxK))
}

type resFam[C comparable] struct {
	t    *itemType[C]
	st   *stream
	k    int
	mixK bool
	maxK int
	max  int
	vo   *voFam[C] // set when unit weights let it serve in a varopt cluster
}

func newResFam(s *Sim) Family {
	switch s.Choose(3) {
	case 0:
		return mkResFam(s, typeInt64(false))
	case 1:
		return mkResFam(s, typeFloat64(false))
	}
	return mkResFam(s, typeString(false))
}

func mkResFam[C comparable](s *Sim, t *itemType[C]) Family {
	f := &resFam[C]{t: t, st: newStream(s), k: drawSampleK(s, 2), mixK: s.Bool(1, 2), maxK: drawSampleK(s, 2)}
	if s.Bool(1, 3) {
		f.maxK = f.k
	}
	f.max = min(6*f.k, 600)
	if s.big {
		f.max = 30000
	}
	f.st.fresh = uint64(s.Choose(2) * s.Choose(1<<20))
	return f
}

func (f *resFam[C]) Name() string            { return "reservoir-" + f.t.name }
func (f *resFam[C]) Idempotent() bool        { return false }
func (f *resFam[C]) NextBatch(s *Sim) *Batch { return f.st.NextUnique(f.max) }
func (f *resFam[C]) NewLeaf(s *Sim) Replica {
	k := f.k
	if f.mixK && s.Choose(2) == 1 {
		k = drawSampleK(s, 2)
	}
	sk, err := sampling.NewReservoirItemsSketch[C](k, sampling.WithReservoirItemsSketchResizeFactor(drawRF(s)))
	s.Must(err, "reservoir-new")
	return &resLeaf[C]{f, sk, &resModel{maxK: k, leaf: true}}
}
func (f *resFam[C]) NewAgg(s *Sim) Replica {
	k := f.maxK
	if f.mixK && s.Choose(3) == 1 {
		k = drawSampleK(s, 2)
	}
	u, err := sampling.NewReservoirItemsUnion[C](k)
	s.Must(err, "reservoir-union-new")
	return &resAgg[C]{f, u, &resModel{maxK: k}}
}

// resSize is the size an image claims: version 1 writes it in 16 bits, five of
// them an exponent and eleven the steps to the next power of two.
func resSize(b []byte) uint64 {
	if b[1] == 1 {
		enc := binary.LittleEndian.Uint16(b[4:])
		return (2048 + uint64(enc&2047)) << (enc >> 11) >> 11
	}
	return uint64(binary.LittleEndian.Uint32(b[4:]))
}

func resGuard(b []byte) error {
	if len(b) >= 8 && b[3]&4 != 0 && resSize(b) > 1<<22 {
		return errConfiguredSize // an empty reservoir may preallocate its configured size
	}
	return nil
}

func decodeRes[C comparable](t *itemType[C], b []byte) (*sampling.ReservoirItemsSketch[C], error) {
	if err := resGuard(b); err != nil {
		return nil, err
	}
	return sampling.NewReservoirItemsSketchFromSlice[C](b, t.serde)
}

func decodeResUnion[C comparable](t *itemType[C], b []byte) (*sampling.ReservoirItemsUnion[C], error) {
	if len(b) >= 16 {
		if err := resGuard(b[8:]); err != nil {
			return nil, err
		}
		if resSize(b) > 1<<22 {
			return nil, errConfiguredSize
		}
	}
	return sampling.NewReservoirItemsUnionFromSlice[C](b, t.serde)
}

func (f *resFam[C]) DecodeAny(enc string, b []byte) error {
	var err error
	if enc == "reservoir-union" {
		_, err = decodeResUnion(f.t, b)
	} else {
		_, err = decodeRes(f.t, b)
	}
	return err
}

// resImg is the model that travels with an image.
type resImg struct {
	m resModel
	k int
}

type resLeaf[C comparable] struct {
	f  *resFam[C]
	sk *sampling.ReservoirItemsSketch[C]
	m  *resModel
}

func (r *resLeaf[C]) Kind() string { return r.f.Name() }
func (r *resLeaf[C]) Bag() Bag     { return r.m.bag }
func (r *resLeaf[C]) Update(s *Sim, b *Batch) {
	for _, v := range b.IDs {
		s.Must(r.sk.Update(r.f.t.conv(int64(v))), "reservoir-update")
	}
	r.m.bag = r.m.bag.Add(b)
}
func (r *resLeaf[C]) Encode(s *Sim) *Image {
	b, err := r.sk.ToSlice(r.f.t.serde)
	s.Must(err, "reservoir-encode")
	return &Image{Enc: "reservoir", Bytes: b, Live: r.sk.Copy(), M: *r.m}
}
func (r *resLeaf[C]) Absorb(s *Sim, img *Image) { panic("harness: leaf absorbs") }
func (r *resLeaf[C]) Restore(s *Sim, img *Image) (Replica, bool) {
	if img.Enc == "varopt" {
		return (&voLeaf[C]{f: r.f.vo}).Restore(s, img)
	}
	sk, err := decodeRes(r.f.t, append([]byte(nil), img.Bytes...))
	s.Must(err, "reservoir-decode")
	m := img.M.(resModel)
	return &resLeaf[C]{r.f, sk, &m}, true
}
func (r *resLeaf[C]) Check(s *Sim, at string) { checkReservoir(s, r.f.t, r.sk, r.m, at) }

type resAgg[C comparable] struct {
	f *resFam[C]
	u *sampling.ReservoirItemsUnion[C]
	m *resModel
}

func (r *resAgg[C]) Kind() string { return r.f.Name() + "-union" }
func (r *resAgg[C]) Bag() Bag     { return r.m.bag }
func (r *resAgg[C]) Update(s *Sim, b *Batch) {
	for _, v := range b.IDs {
		s.Must(r.u.Update(r.f.t.conv(int64(v))), "reservoir-union-update")
	}
	r.m.bag = r.m.bag.Add(b)
}
func (r *resAgg[C]) Encode(s *Sim) *Image {
	if s.Choose(3) == 0 { // ship the result as a plain sample
		res, err := r.u.Result()
		s.Must(err, "reservoir-result")
		if res != nil {
			b, err := res.ToSlice(r.f.t.serde)
			s.Must(err, "reservoir-encode")
			return &Image{Enc: "reservoir", Bytes: b, Live: res, M: *r.m}
		}
	}
	b, err := r.u.ToSlice(r.f.t.serde)
	s.Must(err, "reservoir-union-encode")
	return &Image{Enc: "reservoir-union", Bytes: b, M: *r.m}
}

func (r *resAgg[C]) Absorb(s *Sim, img *Image) {
	buf := append([]byte(nil), img.Bytes...)
	var src *sampling.ReservoirItemsSketch[C]
	m := img.M.(resModel)
	if img.Enc == "reservoir-union" {
		u, err := decodeResUnion(r.f.t, buf)
		s.Must(err, "reservoir-union-decode")
		s.Assert(u.MaxK() == m.maxK, "reservoir-union-maxk", "max k %d restored as %d", m.maxK, u.MaxK())
		src, err = u.Result()
		s.Must(err, "reservoir-result")
	} else {
		var err error
		src, err = decodeRes(r.f.t, buf)
		s.Must(err, "reservoir-decode")
		if l, ok := img.Live.(*sampling.ReservoirItemsSketch[C]); ok && s.Choose(3) == 0 {
			src = l.Copy()
			s.Probe("live sample merged")
		}
	}
	checkReservoir(s, r.f.t, src, &m, "received sample")
	if src != nil && src.N() > int64(src.K()) {
		k := min(src.K(), r.m.maxK)
		if r.m.low == 0 || k < r.m.low {
			r.m.low = k
		}
	}
	if src != nil && s.Choose(4) == 0 {
		s.Must(r.u.UpdateFromRaw(src.N(), src.K(), src.Samples()), "reservoir-union-raw")
		s.Probe("merged from raw parts")
	} else {
		s.Must(r.u.UpdateSketch(src), "reservoir-union-merge")
	}
	if s.Choose(3) == 0 {
		checkReservoir(s, r.f.t, src, &m, "source after merge")
	}
	r.m.bag = r.m.bag.Concat(m.bag)
}

// double merges the union with a restored copy of itself.
func (r *resAgg[C]) double(s *Sim, c Replica) {
	src, err := c.(*resAgg[C]).u.Result()
	s.Must(err, "reservoir-result")
	n := r.m.bag.N()
	if n > (1<<48-1)/2 {
		s.Assert(r.u.UpdateSketch(src) != nil, "reservoir-n-limit", "a union of twice %d items was accepted", n)
		s.Probe("more items than a reservoir counts refused")
		return
	}
	if src != nil && src.N() > int64(src.K()) {
		k := min(src.K(), r.m.maxK)
		if r.m.low == 0 || k < r.m.low {
			r.m.low = k
		}
	}
	s.Must(r.u.UpdateSketch(src), "reservoir-union-merge")
	r.m.bag = r.m.bag.Doubled()
}

func (r *resAgg[C]) Restore(s *Sim, img *Image) (Replica, bool) {
	if img.Enc != "reservoir-union" {
		return nil, false
	}
	u, err := decodeResUnion(r.f.t, append([]byte(nil), img.Bytes...))
	s.Must(err, "reservoir-union-decode")
	m := img.M.(resModel)
	return &resAgg[C]{r.f, u, &m}, true
}

func (r *resAgg[C]) Check(s *Sim, at string) {
	s.Assert(r.u.MaxK() == r.m.maxK, "reservoir-union-maxk", "%s: max k %d want %d", at, r.u.MaxK(), r.m.maxK)
	res, err := r.u.Result()
	s.Must(err, "reservoir-result")
	checkReservoir(s, r.f.t, res, r.m, at)
}

// ---- uniformity: one history, many random choices ----

type samplePlan struct {
	sizes []int // items per leaf
	ks    []int
	maxK  []int // of the unions, one per tier
	via   []int // how each leaf's sample travels
	tree  []int
}

func drawPlan(s *Sim, lo int) *samplePlan {
	p := &samplePlan{}
	leaves := 1 + s.Choose(4)
	for i := 0; i < leaves; i++ {
		k := lo + s.Choose(6)
		if s.Choose(4) == 0 {
			k = lo + s.Choose(20)
		}
		n := s.Choose(4 * k)
		if s.Choose(3) == 0 {
			n = k + s.Choose(3) - 1
		}
		if s.Choose(6) == 0 {
			n = 10 * k
		}
		p.sizes = append(p.sizes, n)
		p.ks = append(p.ks, k)
		p.via = append(p.via, s.Choose(4))
		p.tree = append(p.tree, s.Choose(2))
	}
	for i := 0; i < 2; i++ {
		p.maxK = append(p.maxK, lo+s.Choose(12))
	}
	return p
}

func (p *samplePlan) n() int {
	n := 0
	for _, x := range p.sizes {
		n += x
	}
	return n
}

// subsetStat counts how often the bounds of subset sums miss the truth.
type subsetStat struct {
	name  string
	in    func(id int64) bool
	truth float64
	n     int
	lo    int // the truth below the lower bound
	hi    int
}

func drawSubsets(s *Sim, p *samplePlan, weight func(id uint64) float64) []*subsetStat {
	word := s.Word()
	share := []int{2, 4, 10}[s.Choose(3)]
	at, leaf := 0, s.Choose(len(p.sizes))
	for _, sz := range p.sizes[:leaf] {
		at += sz
	}
	end := at + p.sizes[leaf]
	out := []*subsetStat{
		{name: fmt.Sprintf("every %d-th item", share), in: func(id int64) bool { return mixAll(word, uint64(id))%uint64(share) == 0 }},
		{name: fmt.Sprintf("items of leaf %d", leaf), in: func(id int64) bool { return int(id) >= at && int(id) < end }},
	}
	for id := 0; id < p.n(); id++ {
		for _, x := range out {
			if x.in(int64(id)) {
				x.truth += weight(uint64(id))
			}
		}
	}
	return out
}

func (x *subsetStat) add(ss sampling.SampleSubsetSummary) {
	x.n++
	slack := 1e-9 * (1 + ss.TotalSketchWeight)
	if x.truth < ss.LowerBound-slack {
		x.lo++
	}
	if x.truth > ss.UpperBound+slack {
		x.hi++
	}
}

func reservoirUniformScenario(s *Sim) {
	p := drawPlan(s, 2)
	t := typeInt64(false)
	plain := len(p.sizes) == 1 && s.Choose(2) == 0
	n := p.n()
	if n == 0 {
		return
	}
	trials := min(max(400000/(n+10), 500), 20000)
	s.Logf("uniformity plan %+v, %d trials", *p, trials)
	s.Step("uniformity")
	count := make([]int, n)
	pairs := make([]int, n*n)
	usePairs := plain && n <= 14
	K := 0
	word := s.Word()
	subsets := drawSubsets(s, p, func(uint64) float64 { return 1 })
	for tr := 0; tr < trials; tr++ {
		seedLib(mixAll(word, uint64(tr)), fair)
		var res *sampling.ReservoirItemsSketch[int64]
		id := int64(0)
		var us []*sampling.ReservoirItemsUnion[int64]
		for i, sz := range p.sizes {
			sk, err := sampling.NewReservoirItemsSketch[int64](p.ks[i])
			s.Must(err, "reservoir-new")
			if !plain && len(us) == 0 {
				for _, mk := range p.maxK {
					u, err := sampling.NewReservoirItemsUnion[int64](mk)
					s.Must(err, "reservoir-union-new")
					us = append(us, u)
				}
			}
			if !plain && p.via[i] == 3 { // straight into a union
				for j := 0; j < sz; j++ {
					s.Must(us[p.tree[i]].Update(t.conv(id)), "reservoir-union-update")
					id++
				}
				continue
			}
			for j := 0; j < sz; j++ {
				s.Must(sk.Update(t.conv(id)), "reservoir-update")
				id++
			}
			if plain {
				res = sk
				break
			}
			switch p.via[i] {
			case 1:
				b, err := sk.ToSlice(t.serde)
				s.Must(err, "reservoir-encode")
				sk, err = sampling.NewReservoirItemsSketchFromSlice[int64](b, t.serde)
				s.Must(err, "reservoir-decode")
			case 2:
				s.Must(us[p.tree[i]].UpdateFromRaw(sk.N(), sk.K(), sk.Samples()), "reservoir-union-raw")
				continue
			}
			s.Must(us[p.tree[i]].UpdateSketch(sk), "reservoir-union-merge")
		}
		if !plain {
			r0, err := us[0].Result()
			s.Must(err, "reservoir-result")
			s.Must(us[1].UpdateSketch(r0), "reservoir-union-merge")
			res, err = us[1].Result()
			s.Must(err, "reservoir-result")
		}
		got := res.Samples()
		if tr == 0 {
			K = len(got)
		}
		s.Assert(len(got) == K && res.N() == int64(n), "reservoir-size", "trial %d: %d samples of %d, was %d of %d", tr, len(got), res.N(), K, n)
		for _, c := range got {
			count[t.inv(c)]++
		}
		for _, x := range subsets {
			ss, err := res.EstimateSubsetSum(func(c int64) bool { return x.in(t.inv(c)) })
			s.Must(err, "reservoir-subset")
			x.add(ss)
		}
		if usePairs {
			for _, a := range got {
				for _, b := range got {
					pairs[t.inv(a)*int64(n)+t.inv(b)]++
				}
			}
		}
	}
	s.ops += int64(trials)
	T := float64(trials)
	q := float64(K) / float64(n)
	lim := 6.5*math.Sqrt(T*q*(1-q)) + 4
	at := 0
	for i, sz := range p.sizes { // every item, and the average item of every leaf
		sum := 0
		for j := 0; j < sz; j++ {
			sum += count[at+j]
			s.Assert(math.Abs(float64(count[at+j])-T*q) <= lim, "reservoir-uniform", "plan %+v: item %d (number %d of leaf %d) is in %d of %d samples, %.1f expected", *p, at+j, j, i, count[at+j], trials, T*q)
		}
		at += sz
		// inclusions within a leaf vary no more than draws without replacement, up to the merge's roundings
		m := float64(sz)
		s.Assert(math.Abs(float64(sum)-T*q*m) <= 6.5*math.Sqrt(T*q*(1-q)*m*math.Min(m, float64(K)))+8, "reservoir-uniform-leaf", "plan %+v: items of leaf %d are in samples %d times, %.1f expected", *p, i, sum, T*q*m)
	}
	for _, x := range subsets {
		if dcDebug {
			fmt.Fprintf(dcLog(), "DC subset res k=%d n=%d frac=%.3f T=%d lo=%.4f hi=%.4f plan=%+v %s\n", K, n, x.truth/float64(n), x.n, float64(x.lo)/T, float64(x.hi)/T, *p, x.name)
		}
		s.Assert(!tooMany(x.lo, x.n, 0.04), "reservoir-subset-coverage", "plan %+v: the lower bound of the subset sum over %s (%g of the %d items' weight inside) exceeds the truth in %d of %d samples", *p, x.name, x.truth, n, x.lo, x.n)
		s.Assert(!tooMany(x.hi, x.n, 0.04), "reservoir-subset-coverage", "plan %+v: the upper bound of the subset sum over %s (%g of the %d items' weight inside) is below the truth in %d of %d samples", *p, x.name, x.truth, n, x.hi, x.n)
	}
	if usePairs && n > 1 {
		pq := q * float64(K-1) / float64(n-1)
		pl := 6.5*math.Sqrt(T*pq*(1-pq)) + 4
		for i := 0; i < n; i++ {
			for j := 0; j < i; j++ {
				s.Assert(math.Abs(float64(pairs[i*n+j])-T*pq) <= pl, "reservoir-pairs", "items %d and %d are together in %d of %d samples (k=%d n=%d), %.1f expected", i, j, pairs[i*n+j], trials, K, n, T*pq)
			}
		}
	}
	s.State(61, uint64(K), uint64(n), uint64(len(p.sizes)))
}

// ---- objects ----

type resCfg[C comparable] struct {
	t   *itemType[C]
	k   int
	rf  sampling.ResizeFactor
	max int
	ids *uint64
}

func newResObj(union bool) func(s *Sim) *Obj {
	return func(s *Sim) *Obj {
		switch s.Choose(3) {
		case 0:
			return mkResObj(s, typeInt64(false), union)
		case 1:
			return mkResObj(s, typeFloat64(false), union)
		}
		return mkResObj(s, typeString(false), union)
	}
}

func mkResObj[C comparable](s *Sim, t *itemType[C], union bool) *Obj {
	t.serde = yieldSerde[C]{s, t.serde}
	k := min(drawSampleK(s, 2), 100)
	if s.big {
		k = 2 + 1<<s.Choose(18)
	}
	c := &resCfg[C]{t: t, k: k, rf: drawRF(s), max: min(4*k, 150000), ids: new(uint64)}
	if union {
		return c.uobj(c.newUnion())
	}
	return c.obj(c.make())
}

func (c *resCfg[C]) make() *sampling.ReservoirItemsSketch[C] {
	sk, err := sampling.NewReservoirItemsSketch[C](c.k, sampling.WithReservoirItemsSketchResizeFactor(c.rf))
	if err != nil {
		panic(err)
	}
	return sk
}

func (c *resCfg[C]) newUnion() *sampling.ReservoirItemsUnion[C] {
	u, err := sampling.NewReservoirItemsUnion[C](c.k)
	if err != nil {
		panic(err)
	}
	return u
}

func (c *resCfg[C]) items(s *Sim) []C {
	n := s.amount(c.max)
	out := make([]C, n)
	for i := range out {
		out[i] = c.t.conv(int64(*c.ids))
		*c.ids++
	}
	return out
}

func (c *resCfg[C]) print(sk *sampling.ReservoirItemsSketch[C], p *printer) {
	if sk == nil {
		p.add("n", 0)
		return
	}
	p.add("n", sk.N())
	if sk.N() == 0 {
		return // an empty result has no contents; its k shows in the image
	}
	p.add("k", sk.K(), sk.NumSamples())
	p.add("samples", fmt.Sprintf("%q", fmt.Sprint(sk.Samples())))
	sum, err := sk.EstimateSubsetSum(func(x C) bool { return c.t.inv(x)%3 == 0 })
	p.add("subset", sum, err)
	b, err := sk.ToSlice(c.t.serde)
	p.add("image", err, maskRF(b, 0))
}

// maskRF clears the resize factor: a hint for growing storage, which a union takes
// from whichever input its sample started with.
func maskRF(b []byte, at int) []byte {
	b = append([]byte(nil), b...)
	if at < len(b) {
		b[at] &= 0x3f
	}
	return b
}

func (c *resCfg[C]) scribble(arr []C) *Obj {
	return &Obj{Kind: "reservoir-samples", Live: arr, Print: func(o *Obj, p *printer) { p.add("a", fmt.Sprintf("%q", fmt.Sprint(o.Live.([]C)))) },
		Reset: func(o *Obj) {
			a := o.Live.([]C)
			for i := range a {
				a[i] = c.t.conv(77)
			}
		}}
}

func (c *resCfg[C]) obj(sk *sampling.ReservoirItemsSketch[C]) *Obj {
	live := func(o *Obj) *sampling.ReservoirItemsSketch[C] { return o.Live.(*sampling.ReservoirItemsSketch[C]) }
	o := &Obj{Live: sk, Kind: "reservoir-sketch", Limit: &limit{what: "samples", bytes: 24, max: constMax(c.k),
		entries: func(o *Obj) int { return live(o).NumSamples() }}}
	o.Print = func(o *Obj, p *printer) {
		p.add("K", live(o).K())
		c.print(live(o), p)
		b, err := live(o).ToSlice(c.t.serde)
		p.add("image", err, b)
	}
	o.Gen = func(s *Sim) *Mut {
		items := c.items(s)
		return &Mut{Name: fmt.Sprintf("offer %d items", len(items)), Do: func(o *Obj) error {
			for _, v := range items {
				if err := live(o).Update(v); err != nil {
					return err
				}
			}
			return nil
		}}
	}
	o.Fresh = func() *Obj { return c.obj(c.make()) }
	o.Reset = func(o *Obj) { live(o).Reset() }
	o.Codecs = []*Codec{{Name: "reservoir", Wire: "reservoir", Typ: c.t.name, Exact: true,
		Enc: func(o *Obj) ([]byte, error) { return live(o).ToSlice(c.t.serde) },
		Dec: func(b []byte) (*Obj, error) {
			n, err := decodeRes(c.t, b)
			if err != nil {
				return nil, err
			}
			return c.obj(n), nil
		}}}
	o.Derive = func(s *Sim, o *Obj) []*Obj {
		return []*Obj{c.obj(live(o).Copy()), c.scribble(live(o).Samples())}
	}
	o.Bad = func(s *Sim) []*Mut {
		ms := []*Mut{}
		for _, k := range []int{1, 0, -1, math.MinInt64} {
			ms = append(ms, &Mut{Name: fmt.Sprintf("reservoir new with k=%d", k), Do: func(o *Obj) error {
				_, err := sampling.NewReservoirItemsSketch[C](k)
				return err
			}})
		}
		for _, f := range foreignImages() {
			if f.kind == "reservoir-sketch" {
				continue
			}
			ms = append(ms, &Mut{Name: "reservoir restore of a " + f.kind + " image", Do: func(o *Obj) error {
				_, err := decodeRes(c.t, f.b)
				return err
			}})
		}
		return ms
	}
	return o
}

func (c *resCfg[C]) uobj(u *sampling.ReservoirItemsUnion[C]) *Obj {
	live := func(o *Obj) *sampling.ReservoirItemsUnion[C] { return o.Live.(*sampling.ReservoirItemsUnion[C]) }
	o := &Obj{Live: u, Kind: "reservoir-union", Limit: &limit{what: "samples", bytes: 24, max: constMax(c.k), entries: func(o *Obj) int {
		r, err := live(o).Result()
		if err != nil || r == nil {
			return 0
		}
		return r.NumSamples()
	}}}
	o.Print = func(o *Obj, p *printer) {
		p.add("maxk", live(o).MaxK())
		r, err := live(o).Result()
		p.add("result", err)
		c.print(r, p)
		b, err := live(o).ToSlice(c.t.serde)
		p.add("image", err, maskRF(b, 8))
	}
	o.Gen = func(s *Sim) *Mut {
		switch s.Pick(2, 4, 2, 2) {
		case 1:
			c2 := *c
			if s.Choose(2) == 1 {
				c2.k = min(drawSampleK(s, 2), 100)
			}
			src := c2.obj(c2.make())
			for n := s.Choose(3); n > 0; n-- {
				s.Must(apply(s, src, src.Gen(s), s.Word()), "reservoir-update")
			}
			return &Mut{Name: "merge a sample", Srcs: []*Obj{src}, Do: func(o *Obj) error {
				return live(o).UpdateSketch(src.Live.(*sampling.ReservoirItemsSketch[C]))
			}}
		case 2:
			items := c.items(s)
			k := max(2, len(items)+s.Choose(3)*s.Choose(20))
			n := int64(len(items))
			if k == len(items) && k > 2 {
				n += int64(s.Choose(1000))
			}
			return &Mut{Name: fmt.Sprintf("merge %d raw items of %d with k=%d", len(items), n, k), Do: func(o *Obj) error {
				return live(o).UpdateFromRaw(n, k, append([]C(nil), items...))
			}}
		case 3:
			return &Mut{Name: "merge nothing", Do: func(o *Obj) error { return live(o).UpdateSketch(nil) }}
		}
		items := c.items(s)
		return &Mut{Name: fmt.Sprintf("offer %d items", len(items)), Do: func(o *Obj) error {
			for _, v := range items {
				if err := live(o).Update(v); err != nil {
					return err
				}
			}
			return nil
		}}
	}
	o.Fresh = func() *Obj { return c.uobj(c.newUnion()) }
	o.Reset = func(o *Obj) { live(o).Reset() }
	o.Codecs = []*Codec{{Name: "reservoir-union", Wire: "reservoir-union", Typ: c.t.name, Exact: true, Canon: func(b []byte) string { return string(maskRF(b, 8)) },
		Enc: func(o *Obj) ([]byte, error) { return live(o).ToSlice(c.t.serde) },
		Dec: func(b []byte) (*Obj, error) {
			n, err := decodeResUnion(c.t, b)
			if err != nil {
				return nil, err
			}
			return c.uobj(n), nil
		}}}
	o.Derive = func(s *Sim, o *Obj) []*Obj {
		r, err := live(o).Result()
		s.Must(err, "reservoir-result")
		if r == nil {
			return nil
		}
		return []*Obj{c.obj(r)}
	}
	o.Bad = func(s *Sim) []*Mut {
		raw := func(n int64, k, l int) *Mut {
			return &Mut{Name: fmt.Sprintf("reservoir union of %d raw items of %d with k=%d", l, n, k), Do: func(o *Obj) error {
				items := make([]C, l)
				for i := range items {
					items[i] = c.t.conv(int64(5000 + i))
				}
				return live(o).UpdateFromRaw(n, k, items)
			}}
		}
		ms := []*Mut{raw(-1, 5, 0), raw(-1, 5, 5), raw(3, 5, 5), raw(10, 3, 5), raw(10, 5, 3), raw(4, 5, 3), raw(1<<48, 5, 5), raw(math.MaxInt64, 5, 5), raw(1, 1, 1), raw(0, 0, 0), raw(5, -5, 0)}
		for _, k := range []int{2, 5} {
			m := raw(1<<48-1, k, k)
			full := m.Do
			m.Name += ", on top of others"
			m.Do = func(o *Obj) error {
				r, err := live(o).Result()
				if err == nil && (r == nil || r.N() == 0) {
					return fmt.Errorf("nothing held: no overflow")
				}
				return full(o)
			}
			ms = append(ms, m)
		}
		for _, k := range []int{1, 0, -1} {
			ms = append(ms, &Mut{Name: fmt.Sprintf("reservoir union new with k=%d", k), Do: func(o *Obj) error {
				_, err := sampling.NewReservoirItemsUnion[C](k)
				return err
			}})
		}
		for _, f := range foreignImages() {
			if f.kind == "reservoir-union" {
				continue
			}
			ms = append(ms, &Mut{Name: "reservoir union restore of a " + f.kind + " image", Do: func(o *Obj) error {
				_, err := decodeResUnion(c.t, f.b)
				return err
			}})
		}
		return ms
	}
	return o
}

// ======== varopt ========

type voModel struct {
	bag   Bag
	k     int  // configured size
	exact bool // every input exact, and never more than k items
	low   int  // smallest size of an input that was sampling; 0: none
	res   bool // a resolved union: may hold fewer than its configured size
}

func voImage[C comparable](sk *sampling.VarOptItemsSketch[C], t *itemType[C]) ([]byte, error) {
	var w bytes.Buffer
	enc := sampling.NewVarOptItemsSketchEncoder[C](&w, t.serde)
	err := enc.Encode(sk)
	return w.Bytes(), err
}

func voUnionImage[C comparable](u *sampling.VarOptItemsUnion[C], t *itemType[C]) ([]byte, error) {
	var w bytes.Buffer
	enc := sampling.NewVarOptItemsUnionEncoder[C](&w, t.serde)
	err := enc.Encode(u)
	return w.Bytes(), err
}

func voGuard(b []byte) error {
	if len(b) >= 8 && b[3]&4 != 0 && binary.LittleEndian.Uint32(b[4:]) > 1<<22 {
		return errConfiguredSize
	}
	return nil
}

func decodeVO[C comparable](t *itemType[C], b []byte) (*sampling.VarOptItemsSketch[C], error) {
	if err := voGuard(b); err != nil {
		return nil, err
	}
	return sampling.DecodeVarOptItemsSketch[C](b, t.serde)
}

func decodeVOUnion[C comparable](t *itemType[C], b []byte) (*sampling.VarOptItemsUnion[C], error) {
	if err := voGuard(b); err != nil {
		return nil, err
	}
	if len(b) >= 40 {
		if err := voGuard(b[32:]); err != nil {
			return nil, err
		}
	}
	return sampling.DecodeVarOptItemsUnion[C](b, t.serde)
}

type voSample struct {
	id  int64
	adj float64
}

func checkVarOpt[C comparable](s *Sim, t *itemType[C], w weighing, sk *sampling.VarOptItemsSketch[C], m *voModel, at string) {
	const eps = 1e-9
	n := m.bag.N()
	s.Assert(sk.N() == int64(n), "varopt-n", "%s: n %d want %d", at, sk.N(), n)
	s.Assert(sk.IsEmpty() == (n == 0), "varopt-empty", "%s: empty=%v with %d items", at, sk.IsEmpty(), n)
	num := sk.NumSamples()
	s.Assert(sk.K() <= m.k && sk.K() >= 1 && (m.res || sk.K() == m.k), "varopt-k", "%s: k %d, configured %d", at, sk.K(), m.k)
	s.Assert(num == sk.H()+sk.R() && num <= sk.K(), "varopt-size", "%s: %d samples, %d+%d in the regions, k=%d", at, num, sk.H(), sk.R(), sk.K())
	if !m.res {
		s.Assert(num == min(n, m.k), "varopt-size", "%s: %d samples of %d items for k=%d", at, num, n, m.k)
	} else {
		lo := min(n, m.k)
		if m.low > 0 {
			lo = min(lo, m.low-1) // resolving marks may cost one more when tau rounds above an equal weight
		}
		s.Assert(num >= lo, "varopt-union-size", "%s: %d samples of %d items, sizes of the inputs promise %d", at, num, n, lo)
	}
	if m.exact {
		s.Assert(sk.R() == 0 && num == n, "varopt-exact", "%s: %d+%d samples of %d items that all fit", at, sk.H(), sk.R(), n)
	}
	ids := bagIDs(m.bag)
	total := 0.0
	for _, b := range m.bag {
		for _, id := range b.IDs {
			total += w.of(id) * float64(b.mult())
		}
	}
	var all []voSample
	seen := map[int64]int64{}
	sum := 0.0
	for x := range sk.All() {
		v := t.inv(x.Item)
		s.Assert(ids[v] > 0, "varopt-stranger", "%s: sample %d was never offered", at, v)
		seen[v]++
		s.Assert(seen[v] <= ids[v], "varopt-twice", "%s: sample %d is held %d times, offered %d times", at, v, seen[v], ids[v])
		all = append(all, voSample{v, x.Weight})
		sum += x.Weight
	}
	s.Assert(len(all) == num, "varopt-size", "%s: NumSamples %d, %d listed", at, num, len(all))
	s.Assert(relClose(sum, total, eps), "varopt-total", "%s: adjusted weights sum to %v, offered were %v", at, sum, total)
	// an early end of the iteration is respected
	if num > 1 {
		stop, got := 1+s.Choose(num), 0
		for range sk.All() {
			if got++; got == stop {
				break
			}
		}
		s.Assert(got == stop, "varopt-iterate", "%s: stopped after %d of %d", at, got, stop)
	}
	if sk.R() > 0 {
		tau := all[sk.H()].adj
		for i, x := range all {
			own := w.of(uint64(x.id))
			if i < sk.H() {
				s.Assert(x.adj == own, "varopt-heavy-weight", "%s: heavy item %d of weight %v has %v", at, x.id, own, x.adj)
				s.Assert(own >= tau*(1-eps), "varopt-heavy", "%s: heavy item %d of weight %v below the threshold %v", at, x.id, own, tau)
			} else {
				s.Assert(x.adj == tau, "varopt-light-weight", "%s: sampled items weigh %v and %v", at, x.adj, tau)
				s.Assert(own <= tau*(1+eps), "varopt-light", "%s: item %d of weight %v sampled with threshold %v", at, x.id, own, tau)
			}
		}
		for id, c := range ids {
			if own := w.of(uint64(id)); own > tau*(1+eps) {
				s.Assert(seen[id] == c, "varopt-lost-heavy", "%s: item %d of weight %v is held %d times, offered %d times, threshold %v", at, id, own, seen[id], c, tau)
			}
		}
	} else {
		s.Assert(num == n, "varopt-exact", "%s: %d of %d items held and no threshold", at, num, n)
		for _, x := range all {
			s.Assert(x.adj == w.of(uint64(x.id)), "varopt-heavy-weight", "%s: item %d of weight %v has %v", at, x.id, w.of(uint64(x.id)), x.adj)
		}
	}
	mod := int64(1 + s.Choose(5))
	want := 0.0
	for _, x := range all {
		if x.id%mod == 0 {
			want += x.adj
		}
	}
	ss, err := sk.EstimateSubsetSum(func(c C) bool { return t.inv(c)%mod == 0 })
	s.Must(err, "varopt-subset")
	s.Assert(relClose(ss.Estimate, want, eps), "varopt-subset", "%s: subset estimate %v, the adjusted weights say %v", at, ss.Estimate, want)
	s.Assert(relClose(ss.TotalSketchWeight, total, eps), "varopt-subset-total", "%s: total weight %v, offered were %v", at, ss.TotalSketchWeight, total)
	s.Assert(ss.LowerBound <= ss.Estimate*(1+eps) && ss.Estimate <= ss.UpperBound*(1+eps) && ss.LowerBound >= 0 && ss.UpperBound <= total*(1+eps), "varopt-subset-bounds", "%s: subset sum %+v", at, ss)
	if sk.R() == 0 {
		s.Assert(ss.LowerBound == ss.Estimate && ss.UpperBound == ss.Estimate, "varopt-subset-exact", "%s: everything is held, subset sum %+v", at, ss)
	}
	b, err := voImage(sk, t)
	s.Must(err, "varopt-encode")
	s.Assert(sk.SerializedSizeBytes(t.serde) == len(b), "varopt-image-size", "%s: announced %d bytes, wrote %d", at, sk.SerializedSizeBytes(t.serde), len(b))
	s.State(62, uint64(sk.K()), uint64(sk.H()), uint64(sk.R()), uint64(n))
}

type voFam[C comparable] struct {
	t    *itemType[C]
	w    weighing
	st   *stream
	k    int
	mixK bool
	maxK int
	max  int
}

func newVOFam(s *Sim) Family {
	switch s.Choose(3) {
	case 0:
		return mkVOFam(s, typeInt64(false))
	case 1:
		return mkVOFam(s, typeFloat64(false))
	}
	return mkVOFam(s, typeString(false))
}

func mkVOFam[C comparable](s *Sim, t *itemType[C]) Family {
	f := &voFam[C]{t: t, w: drawWeighing(s), st: newStream(s), k: drawSampleK(s, 1), mixK: s.Bool(1, 2), maxK: drawSampleK(s, 1)}
	if s.Bool(1, 3) {
		f.maxK = f.k
	}
	f.max = min(6*f.k, 600)
	if s.big {
		f.max = 30000
	}
	return f
}

func (f *voFam[C]) Name() string            { return "varopt-" + f.t.name }
func (f *voFam[C]) Idempotent() bool        { return false }
func (f *voFam[C]) NextBatch(s *Sim) *Batch { return f.st.NextUnique(f.max) }
func (f *voFam[C]) NewLeaf(s *Sim) Replica {
	k := f.k
	if f.mixK && s.Choose(2) == 1 {
		k = drawSampleK(s, 1)
	}
	if f.w.pat == 0 && s.Choose(3) == 0 { // unit weights: a reservoir serves as well
		k = max(k, 2)
		sk, err := sampling.NewReservoirItemsSketch[C](k)
		s.Must(err, "reservoir-new")
		return &resLeaf[C]{&resFam[C]{t: f.t, vo: f}, sk, &resModel{maxK: k, leaf: true}}
	}
	sk, err := sampling.NewVarOptItemsSketch[C](uint(k), sampling.WithResizeFactor(drawRF(s)))
	s.Must(err, "varopt-new")
	return &voLeaf[C]{f, sk, &voModel{k: k, exact: true}}
}
func (f *voFam[C]) NewAgg(s *Sim) Replica {
	k := f.maxK
	if f.mixK && s.Choose(3) == 1 {
		k = drawSampleK(s, 1)
	}
	u, err := sampling.NewVarOptItemsUnion[C](uint(k))
	s.Must(err, "varopt-union-new")
	return &voAgg[C]{f, u, &voModel{k: k, exact: true, res: true}}
}

func (f *voFam[C]) DecodeAny(enc string, b []byte) error {
	var err error
	switch enc {
	case "reservoir":
		_, err = decodeRes(f.t, b)
	case "varopt-union":
		_, err = decodeVOUnion(f.t, b)
	default:
		_, err = decodeVO(f.t, b)
	}
	return err
}

type voLeaf[C comparable] struct {
	f  *voFam[C]
	sk *sampling.VarOptItemsSketch[C]
	m  *voModel
}

func (r *voLeaf[C]) Kind() string { return r.f.Name() }
func (r *voLeaf[C]) Bag() Bag     { return r.m.bag }
func (r *voLeaf[C]) Update(s *Sim, b *Batch) {
	for _, v := range b.IDs {
		s.Must(r.sk.Update(r.f.t.conv(int64(v)), r.f.w.of(v)), "varopt-update")
	}
	r.m.bag = r.m.bag.Add(b)
	r.m.exact = r.m.exact && r.m.bag.N() <= r.m.k
}
func (r *voLeaf[C]) Encode(s *Sim) *Image {
	b, err := voImage(r.sk, r.f.t)
	s.Must(err, "varopt-encode")
	return &Image{Enc: "varopt", Bytes: b, M: *r.m}
}
func (r *voLeaf[C]) Absorb(s *Sim, img *Image) { panic("harness: leaf absorbs") }
func (r *voLeaf[C]) Restore(s *Sim, img *Image) (Replica, bool) {
	if img.Enc == "reservoir" {
		return (&resLeaf[C]{f: &resFam[C]{t: r.f.t, vo: r.f}}).Restore(s, img)
	}
	sk, err := decodeVO(r.f.t, append([]byte(nil), img.Bytes...))
	s.Must(err, "varopt-decode")
	m := img.M.(voModel)
	return &voLeaf[C]{r.f, sk, &m}, true
}
func (r *voLeaf[C]) Check(s *Sim, at string) { checkVarOpt(s, r.f.t, r.f.w, r.sk, r.m, at) }

type voAgg[C comparable] struct {
	f *voFam[C]
	u *sampling.VarOptItemsUnion[C]
	m *voModel
}

func (r *voAgg[C]) Kind() string            { return r.f.Name() + "-union" }
func (r *voAgg[C]) Bag() Bag                { return r.m.bag }
func (r *voAgg[C]) Update(s *Sim, b *Batch) { panic("harness: aggregate updated") }
func (r *voAgg[C]) Encode(s *Sim) *Image {
	if s.Choose(2) == 0 {
		res, err := r.u.Result()
		s.Must(err, "varopt-result")
		b, err := voImage(res, r.f.t)
		s.Must(err, "varopt-encode")
		m := *r.m
		return &Image{Enc: "varopt", Bytes: b, Live: res, M: m}
	}
	b, err := voUnionImage(r.u, r.f.t)
	s.Must(err, "varopt-union-encode")
	return &Image{Enc: "varopt-union", Bytes: b, M: *r.m}
}

func (r *voAgg[C]) Absorb(s *Sim, img *Image) {
	buf := append([]byte(nil), img.Bytes...)
	low := func(k int) {
		r.m.exact = false
		if r.m.low == 0 || k < r.m.low {
			r.m.low = k
		}
	}
	if img.Enc == "reservoir" {
		m := img.M.(resModel)
		src, err := decodeRes(r.f.t, buf)
		s.Must(err, "reservoir-decode")
		s.Must(r.u.UpdateReservoirItemsSketch(src), "varopt-union-merge-reservoir")
		checkReservoir(s, r.f.t, src, &m, "source after merge")
		if src.N() > int64(src.K()) {
			low(src.K())
		}
		r.m.bag = r.m.bag.Concat(m.bag)
	} else {
		m := img.M.(voModel)
		var src *sampling.VarOptItemsSketch[C]
		if img.Enc == "varopt-union" {
			u, err := decodeVOUnion(r.f.t, buf)
			s.Must(err, "varopt-union-decode")
			src, err = u.Result()
			s.Must(err, "varopt-result")
		} else {
			var err error
			src, err = decodeVO(r.f.t, buf)
			s.Must(err, "varopt-decode")
			if l, ok := img.Live.(*sampling.VarOptItemsSketch[C]); ok && s.Choose(3) == 0 {
				src = l
			}
		}
		checkVarOpt(s, r.f.t, r.f.w, src, &m, "received sample")
		s.Must(r.u.Update(src), "varopt-union-merge")
		if s.Choose(3) == 0 {
			checkVarOpt(s, r.f.t, r.f.w, src, &m, "source after merge")
		}
		if src.R() > 0 {
			low(src.NumSamples())
		}
		r.m.bag = r.m.bag.Concat(m.bag)
	}
	r.m.exact = r.m.exact && r.m.bag.N() <= r.m.k
}

func (r *voAgg[C]) mergeOnly() {}

// double merges the union with a restored copy of itself.
func (r *voAgg[C]) double(s *Sim, c Replica) {
	src, err := c.(*voAgg[C]).u.Result()
	s.Must(err, "varopt-result")
	s.Must(r.u.Update(src), "varopt-union-merge")
	if src.R() > 0 {
		r.m.exact = false
		if r.m.low == 0 || src.NumSamples() < r.m.low {
			r.m.low = src.NumSamples()
		}
	}
	r.m.bag = r.m.bag.Doubled()
	r.m.exact = r.m.exact && r.m.bag.N() <= r.m.k
}

func (r *voAgg[C]) Restore(s *Sim, img *Image) (Replica, bool) {
	if img.Enc != "varopt-union" {
		return nil, false
	}
	u, err := decodeVOUnion(r.f.t, append([]byte(nil), img.Bytes...))
	s.Must(err, "varopt-union-decode")
	m := img.M.(voModel)
	return &voAgg[C]{r.f, u, &m}, true
}

func (r *voAgg[C]) Check(s *Sim, at string) {
	res, err := r.u.Result()
	s.Must(err, "varopt-result")
	checkVarOpt(s, r.f.t, r.f.w, res, r.m, at)
}

// ---- unbiasedness: one history, many random choices ----

func varoptBiasScenario(s *Sim) {
	p := drawPlan(s, 1)
	t := typeInt64(false)
	w := drawWeighing(s)
	for w.pat == 4 { // powers of two over 40 octaves: nothing but the heaviest is ever sampled
		w.pat = s.Choose(nWeighings)
	}
	plain := len(p.sizes) == 1 && s.Choose(2) == 0
	n := p.n()
	if n == 0 {
		return
	}
	trials := min(max(250000/(n+10), 400), 10000)
	s.Logf("unbiasedness plan %+v, weights %v, %d trials", *p, w, trials)
	s.Step("unbiasedness")
	sum := make([]float64, n)
	tauMax := 0.0
	word := s.Word()
	subsets := drawSubsets(s, p, w.of)
	H, R := 0, 0
	for tr := 0; tr < trials; tr++ {
		seedLib(mixAll(word, uint64(tr)), fair)
		var res *sampling.VarOptItemsSketch[int64]
		id := uint64(0)
		var us []*sampling.VarOptItemsUnion[int64]
		for _, mk := range p.maxK {
			u, err := sampling.NewVarOptItemsUnion[int64](uint(mk))
			s.Must(err, "varopt-union-new")
			us = append(us, u)
		}
		for i, sz := range p.sizes {
			u := us[p.tree[i]]
			if !plain && w.pat == 0 && p.via[i] == 2 {
				rs, err := sampling.NewReservoirItemsSketch[int64](max(2, p.ks[i]))
				s.Must(err, "reservoir-new")
				for j := 0; j < sz; j++ {
					s.Must(rs.Update(t.conv(int64(id))), "reservoir-update")
					id++
				}
				s.Must(u.UpdateReservoirItemsSketch(rs), "varopt-union-merge-reservoir")
				continue
			}
			sk, err := sampling.NewVarOptItemsSketch[int64](uint(p.ks[i]))
			s.Must(err, "varopt-new")
			for j := 0; j < sz; j++ {
				s.Must(sk.Update(t.conv(int64(id)), w.of(id)), "varopt-update")
				id++
			}
			if plain {
				res = sk
				break
			}
			if p.via[i] == 1 {
				b, err := voImage(sk, t)
				s.Must(err, "varopt-encode")
				sk, err = decodeVO(t, b)
				s.Must(err, "varopt-decode")
			}
			s.Must(u.Update(sk), "varopt-union-merge")
		}
		if !plain {
			r0, err := us[0].Result()
			s.Must(err, "varopt-result")
			s.Must(us[1].Update(r0), "varopt-union-merge")
			res, err = us[1].Result()
			s.Must(err, "varopt-result")
		}
		H, R = H+res.H(), R+res.R()
		for _, x := range subsets {
			ss, err := res.EstimateSubsetSum(func(c int64) bool { return x.in(t.inv(c)) })
			s.Must(err, "varopt-subset")
			x.add(ss)
		}
		h := 0
		for x := range res.All() {
			sum[t.inv(x.Item)] += x.Weight
			if h++; h > res.H() {
				tauMax = max(tauMax, x.Weight)
			}
		}
	}
	s.ops += int64(trials)
	T := float64(trials)
	for _, x := range subsets {
		if dcDebug {
			fmt.Fprintf(dcLog(), "DC subset vo plain=%v pat=%d h=%.1f r=%.1f n=%d frac=%.3f T=%d lo=%.4f hi=%.4f plan=%+v %s\n", plain, w.pat, float64(H)/T, float64(R)/T, n, x.truth/float64(n), x.n, float64(x.lo)/T, float64(x.hi)/T, *p, x.name)
		}
		s.Assert(!tooMany(x.lo, x.n, 0.04), "varopt-subset-coverage", "plan %+v: the lower bound of the subset sum over %s (%g of the %d items' weight inside) exceeds the truth in %d of %d samples", *p, x.name, x.truth, n, x.lo, x.n)
		s.Assert(!tooMany(x.hi, x.n, 0.04), "varopt-subset-coverage", "plan %+v: the upper bound of the subset sum over %s (%g of the %d items' weight inside) is below the truth in %d of %d samples", *p, x.name, x.truth, n, x.hi, x.n)
	}
	const z = 6.5
	at := 0
	for i, sz := range p.sizes {
		got, want := 0.0, 0.0
		for j := 0; j < sz; j++ {
			own := w.of(uint64(at + j))
			mean := sum[at+j] / T
			got += mean
			want += own
			lim := own * 1e-9
			if own < tauMax*(1+1e-9) {
				lim += z*math.Sqrt(own*tauMax/T) + z*z/3*tauMax/T
			}
			s.Assert(math.Abs(mean-own) <= lim, "varopt-bias", "plan %+v, weights %v: item %d (number %d of leaf %d) of weight %v averages %v over %d trials (threshold up to %v)", *p, w, at+j, j, i, own, mean, trials, tauMax)
		}
		at += sz
		s.Assert(math.Abs(got-want) <= z*math.Sqrt(want*tauMax/T)+z*z*tauMax/T+want*1e-9, "varopt-bias-leaf", "plan %+v, weights %v: items of leaf %d weigh %v, average %v over %d trials", *p, w, i, want, got, trials)
	}
	s.State(63, uint64(len(p.sizes)), uint64(n), uint64(w.pat))
}

// ---- objects ----

type voCfg[C comparable] struct {
	t   *itemType[C]
	w   weighing
	k   int
	rf  sampling.ResizeFactor
	max int
	ids *uint64
}

func newVOObj(union bool) func(s *Sim) *Obj {
	return func(s *Sim) *Obj {
		switch s.Choose(3) {
		case 0:
			return mkVOObj(s, typeInt64(false), union)
		case 1:
			return mkVOObj(s, typeFloat64(false), union)
		}
		return mkVOObj(s, typeString(false), union)
	}
}

func mkVOObj[C comparable](s *Sim, t *itemType[C], union bool) *Obj {
	t.serde = yieldSerde[C]{s, t.serde}
	k := min(drawSampleK(s, 1), 100)
	if s.big {
		k = 1 + 1<<s.Choose(18)
	}
	c := &voCfg[C]{t: t, w: drawWeighing(s), k: k, rf: drawRF(s), max: min(4*k, 150000), ids: new(uint64)}
	if union {
		return c.uobj(c.newUnion())
	}
	return c.obj(c.make())
}

func (c *voCfg[C]) make() *sampling.VarOptItemsSketch[C] {
	sk, err := sampling.NewVarOptItemsSketch[C](uint(c.k), sampling.WithResizeFactor(c.rf))
	if err != nil {
		panic(err)
	}
	return sk
}

func (c *voCfg[C]) newUnion() *sampling.VarOptItemsUnion[C] {
	u, err := sampling.NewVarOptItemsUnion[C](uint(c.k))
	if err != nil {
		panic(err)
	}
	return u
}

func (c *voCfg[C]) print(sk *sampling.VarOptItemsSketch[C], p *printer) {
	p.add("n", sk.N(), sk.K(), sk.NumSamples(), sk.H(), sk.R(), sk.IsEmpty(), sk.SerializedSizeBytes(c.t.serde))
	for x := range sk.All() {
		p.add("s", fmt.Sprintf("%q", fmt.Sprint(x.Item)), x.Weight)
	}
	sum, err := sk.EstimateSubsetSum(func(x C) bool { return c.t.inv(x)%3 == 0 })
	p.add("subset", sum, err)
	b, err := voImage(sk, c.t)
	p.add("image", err, b)
}

func (c *voCfg[C]) feed(s *Sim) *Mut {
	n := s.amount(c.max)
	first := *c.ids
	*c.ids += uint64(n)
	return &Mut{Name: fmt.Sprintf("offer %d items weighing %v", n, c.w), Do: func(o *Obj) error {
		for i := 0; i < n; i++ {
			id := first + uint64(i)
			if err := o.Live.(*sampling.VarOptItemsSketch[C]).Update(c.t.conv(int64(id)), c.w.of(id)); err != nil {
				return err
			}
		}
		return nil
	}}
}

func (c *voCfg[C]) obj(sk *sampling.VarOptItemsSketch[C]) *Obj {
	live := func(o *Obj) *sampling.VarOptItemsSketch[C] { return o.Live.(*sampling.VarOptItemsSketch[C]) }
	o := &Obj{Live: sk, Kind: "varopt-sketch", Limit: &limit{what: "samples", bytes: 40, max: constMax(c.k),
		entries: func(o *Obj) int { return live(o).NumSamples() }}}
	o.Print = func(o *Obj, p *printer) { c.print(live(o), p) }
	o.Gen = func(s *Sim) *Mut { return c.feed(s) }
	o.Fresh = func() *Obj { return c.obj(c.make()) }
	o.Reset = func(o *Obj) { live(o).Reset() }
	o.Codecs = []*Codec{{Name: "varopt", Wire: "varopt", Typ: c.t.name, Exact: true,
		Sizes: func(o *Obj) (int, int) { return live(o).SerializedSizeBytes(c.t.serde), -1 },
		Enc:   func(o *Obj) ([]byte, error) { return voImage(live(o), c.t) },
		EncTo: func(o *Obj, w io.Writer) error {
			enc := sampling.NewVarOptItemsSketchEncoder[C](w, c.t.serde)
			return enc.Encode(live(o))
		},
		Dec: func(b []byte) (*Obj, error) {
			n, err := decodeVO(c.t, b)
			if err != nil {
				return nil, err
			}
			return c.obj(n), nil
		}}}
	o.Bad = func(s *Sim) []*Mut {
		ms := []*Mut{}
		for _, k := range []uint{0, 1<<31 - 1, 1 << 40} {
			ms = append(ms, &Mut{Name: fmt.Sprintf("varopt new with k=%d", k), Do: func(o *Obj) error {
				_, err := sampling.NewVarOptItemsSketch[C](k)
				return err
			}})
		}
		for _, w := range []float64{0, math.Copysign(0, -1), -1, math.NaN(), math.Inf(1), math.Inf(-1), -1e-300} {
			ms = append(ms, &Mut{Name: fmt.Sprintf("varopt update with weight %v", w), Do: func(o *Obj) error { return live(o).Update(c.t.conv(5), w) }})
		}
		ms = append(ms, &Mut{Name: "varopt snapshot of nothing", Do: func(o *Obj) error { _, err := voImage(nil, c.t); return err }})
		for _, f := range foreignImages() {
			if f.kind == "varopt-sketch" {
				continue
			}
			ms = append(ms, &Mut{Name: "varopt restore of a " + f.kind + " image", Do: func(o *Obj) error {
				_, err := decodeVO(c.t, f.b)
				return err
			}})
		}
		return ms
	}
	return o
}

func (c *voCfg[C]) uobj(u *sampling.VarOptItemsUnion[C]) *Obj {
	live := func(o *Obj) *sampling.VarOptItemsUnion[C] { return o.Live.(*sampling.VarOptItemsUnion[C]) }
	result := func(o *Obj) (*sampling.VarOptItemsSketch[C], error) {
		// resolving draws random numbers: keep them off the history's
		l := *lib
		seedLib(99, 0)
		r, err := live(o).Result()
		*lib = l
		return r, err
	}
	o := &Obj{Live: u, Kind: "varopt-union", Limit: &limit{what: "samples", bytes: 40, max: constMax(c.k), entries: func(o *Obj) int {
		r, err := result(o)
		if err != nil {
			return 0
		}
		return r.NumSamples()
	}}}
	o.Print = func(o *Obj, p *printer) {
		r, err := result(o)
		p.add("result", err)
		if err == nil {
			c.print(r, p)
		}
		b, err := voUnionImage(live(o), c.t)
		p.add("image", err, b)
	}
	o.Gen = func(s *Sim) *Mut {
		c2 := *c
		if s.Choose(2) == 1 {
			c2.k = min(drawSampleK(s, 1), 100)
		}
		switch s.Pick(6, 1, 1) {
		case 1:
			return &Mut{Name: "merge nothing", Do: func(o *Obj) error {
				if err := live(o).Update(nil); err != nil {
					return err
				}
				return live(o).UpdateReservoirItemsSketch(nil)
			}}
		case 2:
			r := &resCfg[C]{t: c.t, k: max(2, c2.k), rf: c.rf, max: c.max, ids: c.ids}
			src := r.obj(r.make())
			for n := s.Choose(3); n > 0; n-- {
				s.Must(apply(s, src, src.Gen(s), s.Word()), "reservoir-update")
			}
			return &Mut{Name: "merge a reservoir", Srcs: []*Obj{src}, Do: func(o *Obj) error {
				return live(o).UpdateReservoirItemsSketch(src.Live.(*sampling.ReservoirItemsSketch[C]))
			}}
		}
		if s.Choose(4) == 0 {
			c2.w = drawWeighing(s)
		}
		src := c2.obj(c2.make())
		for n := s.Choose(3); n > 0; n-- {
			s.Must(apply(s, src, c2.feed(s), s.Word()), "varopt-update")
		}
		return &Mut{Name: "merge a sample", Srcs: []*Obj{src}, Do: func(o *Obj) error {
			return live(o).Update(src.Live.(*sampling.VarOptItemsSketch[C]))
		}}
	}
	o.Fresh = func() *Obj { return c.uobj(c.newUnion()) }
	o.Reset = func(o *Obj) { live(o).Reset() }
	o.Codecs = []*Codec{{Name: "varopt-union", Wire: "varopt-union", Typ: c.t.name, Exact: true,
		Enc: func(o *Obj) ([]byte, error) { return voUnionImage(live(o), c.t) },
		EncTo: func(o *Obj, w io.Writer) error {
			enc := sampling.NewVarOptItemsUnionEncoder[C](w, c.t.serde)
			return enc.Encode(live(o))
		},
		Dec: func(b []byte) (*Obj, error) {
			n, err := decodeVOUnion(c.t, b)
			if err != nil {
				return nil, err
			}
			return c.uobj(n), nil
		}}}
	o.Derive = func(s *Sim, o *Obj) []*Obj {
		r, err := result(o)
		s.Must(err, "varopt-result")
		return []*Obj{c.obj(r)}
	}
	o.Bad = func(s *Sim) []*Mut {
		ms := []*Mut{}
		for _, k := range []uint{0, 1<<31 - 1, 1 << 40} {
			ms = append(ms, &Mut{Name: fmt.Sprintf("varopt union new with k=%d", k), Do: func(o *Obj) error {
				_, err := sampling.NewVarOptItemsUnion[C](k)
				return err
			}})
		}
		for _, f := range foreignImages() {
			if f.kind == "varopt-union" {
				continue
			}
			ms = append(ms, &Mut{Name: "varopt union restore of a " + f.kind + " image", Do: func(o *Obj) error {
				_, err := decodeVOUnion(c.t, f.b)
				return err
			}})
		}
		return ms
	}
	return o
}

func init() {
	addKind("reservoir-sketch", newResObj(false))
	addKind("reservoir-union", newResObj(true))
	addKind("varopt-sketch", newVOObj(false))
	addKind("varopt-union", newVOObj(true))
	stub := []string{"network, disk, process crashes, clock (simulated)", "math/rand source (seeded)"}
	register(&propDef{ID: "S01", Quick: 30000, Thorough: 1500000,
		Scenarios: []scenarioDef{{"reservoir-big", 1, bigScenario(clusterScenario(newResFam))}, {"reservoir-cluster", 180, clusterScenario(newResFam)}, {"reservoir-growth", 20, growthScenario(newResFam)}, {"reservoir-uniform", 20, reservoirUniformScenario}},
		Rule:      "Simulated cluster of reservoir samples against the exact set of occurrences; repeated histories under independent random choices.",
		Real:      []string{"sampling (reservoir)", "common serializers"}, Stub: stub})
	register(&propDef{ID: "S02", Quick: 30000, Thorough: 1500000,
		Scenarios: []scenarioDef{{"varopt-big", 1, bigScenario(clusterScenario(newVOFam))}, {"varopt-cluster", 180, clusterScenario(newVOFam)}, {"varopt-growth", 20, growthScenario(newVOFam)}, {"varopt-bias", 20, varoptBiasScenario}},
		Rule:      "Simulated cluster of variance-optimal samples against exact weights; repeated histories under independent random choices.",
		Real:      []string{"sampling (varopt and reservoir)", "common serializers"}, Stub: stub})
}
