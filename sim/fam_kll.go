package main

import (
	"fmt"
	"math"
	"slices"

	"github.com/apache/datasketches-go/kll"
)

// ---- oracle ----

// kllView is what an oracle needs of one KLL sketch, in value order.
type kllView struct {
	n, k     int64
	retained []wItem // in comparator order, v is ord
}

func kllEps(k int, pmf bool) float64 {
	if pmf {
		return 2.446 / math.Pow(float64(k), 0.9433)
	}
	return 2.296 / math.Pow(float64(k), 0.9723)
}

// kllModel is what a KLL sketch must report.
type kllModel struct {
	bag    Bag
	k      int
	minK   int
	exact  bool // cannot have compacted yet
	biased bool
	copies int // merges with copies of itself
}

func checkKLL[C comparable](s *Sim, t *itemType[C], sk *kll.ItemsSketch[C], m *kllModel, at string) {
	vals := bagValues(m.bag, t.rev)
	n := vals.N()
	s.Assert(sk.GetN() == uint64(n), "kll-n", "%s: n %d want %d", at, sk.GetN(), n)
	s.Assert(sk.IsEmpty() == (n == 0), "kll-empty", "%s: empty=%v with %d items", at, sk.IsEmpty(), n)
	s.Assert(int(sk.GetK()) == m.k, "kll-k", "%s: k %d want %d", at, sk.GetK(), m.k)
	if n == 0 {
		_, err := sk.GetMinItem()
		_, err2 := sk.GetRank(t.conv(1), true)
		_, err3 := sk.GetQuantile(0.5, true)
		s.Assert(err != nil && err2 != nil && err3 != nil, "kll-empty-answers", "%s: an empty sketch answered min, rank or quantile", at)
		a, b := t.conv(1), t.conv(2)
		if t.rev {
			a, b = b, a
		}
		_, err = sk.GetMaxItem()
		_, err2 = sk.GetRanks([]C{a, b}, true)
		_, err3 = sk.GetQuantiles([]float64{0, 1}, true)
		_, err4 := sk.GetPMF([]C{a, b}, true)
		_, err5 := sk.GetCDF([]C{a, b}, true)
		_, err6 := sk.GetPartitionBoundaries(2, true)
		s.Assert(err != nil && err2 != nil && err3 != nil && err4 != nil && err5 != nil && err6 != nil, "kll-empty-answers", "%s: an empty sketch answered: max %v, ranks %v, quantiles %v, pmf %v, cdf %v, partitions %v", at, err, err2, err3, err4, err5, err6)
		s.Assert(sk.GetNumRetained() == 0, "kll-retained", "%s: empty sketch retains %d", at, sk.GetNumRetained())
		return
	}
	ord := func(c C) int64 { return t.ord(t.inv(c)) }
	mn, err := sk.GetMinItem()
	s.Must(err, "kll-min")
	mx, err := sk.GetMaxItem()
	s.Must(err, "kll-max")
	s.Assert(ord(mn) == vals.min() && ord(mx) == vals.max(), "kll-extremes", "%s: min,max %v,%v want %v,%v", at, ord(mn), ord(mx), vals.min(), vals.max())
	wantEps := kllEps(m.minK, false)
	s.Assert(relClose(sk.GetNormalizedRankError(false), wantEps, 1e-12), "kll-advertised-error", "%s: advertised rank error %v, for an effective k of %d it is %v", at, sk.GetNormalizedRankError(false), m.minK, wantEps)
	s.Assert(relClose(sk.GetNormalizedRankError(true), kllEps(m.minK, true), 1e-12), "kll-advertised-error", "%s: advertised pmf error %v", at, sk.GetNormalizedRankError(true))

	// retained items: two independent enumerations
	var raw, view []wItem
	for it := sk.GetIterator(); it.Next(); {
		raw = append(raw, wItem{ord(it.GetQuantile()), it.GetWeight()})
	}
	sv, err := sk.GetSortedView()
	s.Must(err, "kll-sorted-view")
	cum := int64(0)
	for it := sv.Iterator(); it.Next(); {
		w := it.GetWeight()
		view = append(view, wItem{ord(it.GetQuantile()), w})
		s.Assert(it.GetNaturalRank(false) == cum && it.GetNaturalRank(true) == cum+w, "kll-view-ranks", "%s: natural ranks %d,%d after weight %d", at, it.GetNaturalRank(false), it.GetNaturalRank(true), cum)
		s.Assert(it.GetNormalizedRank(true) == float64(cum+w)/float64(n), "kll-view-ranks", "%s: normalized rank", at)
		cum += w
	}
	s.Assert(sv.GetNumRetained() == len(view), "kll-view-size", "%s: sorted view says %d items, holds %d", at, sv.GetNumRetained(), len(view))
	s.Assert(int(sk.GetNumRetained()) == len(raw) && len(raw) == len(view), "kll-retained", "%s: retains %d, iterator %d, view %d", at, sk.GetNumRetained(), len(raw), len(view))
	s.Assert(cum == n, "kll-weights", "%s: weights of the %d retained items sum to %d, not %d", at, len(view), cum, n)
	for i := range view {
		s.Assert(i == 0 || view[i-1].v <= view[i].v, "kll-view-order", "%s: sorted view out of order at %d", at, i)
		w := view[i].w
		s.Assert(w > 0 && w&(w-1) == 0, "kll-weight-value", "%s: weight %d", at, w)
		s.Assert(vals.has(view[i].v), "kll-stranger", "%s: retained item %d was never offered", at, view[i].v)
	}
	canonW := func(x []wItem) {
		slices.SortFunc(x, func(a, b wItem) int {
			if a.v != b.v {
				return int(a.v - b.v)
			}
			return int(a.w - b.w)
		})
	}
	rs, vs := slices.Clone(raw), slices.Clone(view)
	canonW(rs)
	canonW(vs)
	s.Assert(slices.Equal(rs, vs), "kll-view-differs", "%s: sorted view and iterator disagree", at)
	s.Assert(len(raw) <= 3*m.k+8*64, "kll-size", "%s: retains %d items for k=%d", at, len(raw), m.k)
	if m.exact {
		s.Assert(!sk.IsEstimationMode(), "kll-exact", "%s: estimating with %d items for k=%d", at, n, m.k)
	}
	if !sk.IsEstimationMode() {
		s.Assert(int64(len(view)) == n, "kll-exact", "%s: exact sketch retains %d of %d", at, len(view), n)
	}
	// a rank error this many times the advertised 99%% error never happens by chance
	// (errors of copies add up instead of averaging out)
	tol := 2.5*wantEps*math.Sqrt(1+float64(m.copies)/2) + 1e-9
	if !sk.IsEstimationMode() {
		tol = 0
	}
	sp := splitValues(s, mapOrd(vals.v, t.rev), 10)
	if t.rev {
		slices.Reverse(sp)
	}
	items := make([]C, len(sp))
	for i, v := range sp {
		items[i] = t.conv(v)
	}
	incl := s.Choose(2) == 1
	ranks, err := sk.GetRanks(items, incl)
	s.Must(err, "kll-ranks")
	prev := 0.0
	for i, v := range sp {
		o := t.ord(v)
		want := float64(weightBelow(view, o, incl)) / float64(n)
		s.Assert(ranks[i] == want, "kll-rank", "%s: rank(%d,incl=%v)=%v, retained weight says %v", at, o, incl, ranks[i], want)
		r1, err := sk.GetRank(items[i], incl)
		s.Must(err, "kll-rank")
		s.Assert(r1 == ranks[i], "kll-rank", "%s: GetRank %v, GetRanks %v", at, r1, ranks[i])
		s.Assert(ranks[i] >= prev, "kll-rank-monotone", "%s: rank falls from %v to %v", at, prev, ranks[i])
		prev = ranks[i]
		if !m.biased {
			truth := float64(vals.below(o, incl)) / float64(n)
			s.Assert(math.Abs(ranks[i]-truth) <= tol, "kll-rank-error", "%s: rank of %d is %v, true rank %v, advertised error %v (k %d, n %d)", at, o, ranks[i], truth, wantEps, m.minK, n)
			if tol > 0 {
				noteMax(s, "kll rank error / advertised", math.Abs(ranks[i]-truth)/wantEps/math.Sqrt(1+float64(m.copies)/2))
			}
		}
	}
	cdf, err := sk.GetCDF(items, incl)
	s.Must(err, "kll-cdf")
	pmf, err := sk.GetPMF(items, incl)
	s.Must(err, "kll-pmf")
	s.Assert(len(cdf) == len(sp)+1 && len(pmf) == len(sp)+1 && cdf[len(sp)] == 1, "kll-cdf", "%s: cdf %v", at, cdf)
	sum := 0.0
	for i := range cdf {
		if i < len(sp) {
			s.Assert(cdf[i] == ranks[i], "kll-cdf", "%s: cdf %v at a point of rank %v", at, cdf[i], ranks[i])
		}
		sum += pmf[i]
		s.Assert(pmf[i] >= 0 && math.Abs(sum-cdf[i]) < 1e-9, "kll-pmf", "%s: pmf %v of cdf %v", at, pmf, cdf)
	}
	for q := 0; q < 6; q++ {
		r := drawRank(s, n)
		in := s.Choose(2) == 1
		c, err := sk.GetQuantile(r, in)
		s.Must(err, "kll-quantile")
		lo, hi := quantRange(view, n, r, in)
		s.Assert(ord(c) >= lo && ord(c) <= hi, "kll-quantile", "%s: quantile(%v,incl=%v)=%d, retained items say %d..%d", at, r, in, ord(c), lo, hi)
		cs, err := sk.GetQuantiles([]float64{r}, in)
		s.Must(err, "kll-quantile")
		s.Assert(cs[0] == c, "kll-quantile", "%s: GetQuantiles differs from GetQuantile", at)
	}
	if s.Choose(3) == 0 {
		parts := 1 + s.Choose(8)
		pb, err := sk.GetPartitionBoundaries(parts, incl)
		s.Must(err, "kll-partitions")
		bs := pb.GetBoundaries()
		s.Assert(len(bs) == parts+1 && bs[0] == mn && bs[parts] == mx, "kll-partitions", "%s: %d boundaries for %d partitions, ends %v..%v of %v..%v", at, len(bs), parts, ord(bs[0]), ord(bs[parts]), ord(mn), ord(mx))
		for i := 1; i <= parts; i++ {
			s.Assert(ord(bs[i-1]) <= ord(bs[i]), "kll-partitions", "%s: boundaries out of order", at)
			if i < parts && !m.biased {
				r := float64(i) / float64(parts)
				lo := float64(vals.below(ord(bs[i]), false)) / float64(n)
				hi := float64(vals.below(ord(bs[i]), true)) / float64(n)
				slack := tol + float64(maxW(view))/float64(n) + 1e-9
				s.Assert(lo <= r+slack && hi >= r-slack, "kll-partitions", "%s: boundary %d of %d covers ranks %v..%v", at, i, parts, lo, hi)
			}
		}
		after, err := sk.GetRanks(items, incl)
		s.Must(err, "kll-ranks")
		s.Assert(slices.Equal(after, ranks), "kll-query-changes-answers", "%s: ranks %v became %v after asking for partition boundaries", at, ranks, after)
	}
	lv := 0
	for w := maxW(view); w > 1; w >>= 1 {
		lv++
	}
	s.State(40, uint64(m.k), uint64(len(view)), uint64(lv))
}

func maxW(x []wItem) int64 {
	m := int64(0)
	for _, i := range x {
		m = max(m, i.w)
	}
	return m
}

func mapOrd(vals []int64, rev bool) []int64 {
	if !rev {
		return vals
	}
	out := make([]int64, len(vals))
	for i, v := range vals {
		out[len(vals)-1-i] = -v
	}
	return out
}

// drawRank draws a normalized rank, often an exact fraction or an end.
func drawRank(s *Sim, n int64) float64 {
	switch s.Pick(4, 3, 1, 1) {
	case 0:
		return float64(s.Choose(1<<20)) / (1 << 20)
	case 1:
		if n > 0 {
			return float64(s.Choose(int(min(n, 1<<30)))) / float64(n)
		}
		return 0
	case 2:
		return 0
	}
	return 1
}

// noteMax records, as a probe, how close a measured ratio came to its limit (in percent buckets).
func noteMax(s *Sim, name string, x float64) {
	b := int(x * 2)
	if b > 0 {
		s.Probe(fmt.Sprintf("%s > %.1f", name, float64(b)/2))
	}
}

// ---- cluster family ----

type kllFam[C comparable] struct {
	t    *itemType[C]
	k    int
	mixK bool
	m    uint8
	st   *stream
	maxN int
	bias bool
}

func newKLLFam(s *Sim) Family {
	rev := s.Bool(1, 4)
	switch s.Choose(4) {
	case 0:
		return mkKLLFam(s, pickType(s, rev, typeInt64, typeInt64Wide))
	case 1:
		return mkKLLFam(s, pickType(s, rev, typeFloat64, typeFloat64Wide))
	case 2:
		if s.Bool(1, 3) {
			return mkKLLFam(s, typeTied(rev))
		}
		return mkKLLFam(s, typeString(rev))
	}
	return mkKLLFam(s, pickType(s, rev, typeFloat32, typeFloat32Wide))
}

func drawKLLK(s *Sim) int {
	switch s.Pick(6, 6, 6, 4, 1) {
	case 4:
		return 32700 + s.Choose(32835)
	case 0:
		return 8 + s.Choose(8)
	case 1:
		return 16 + s.Choose(64)
	case 2:
		return 200
	}
	return 8 + s.Choose(1000)
}

func drawM(s *Sim) uint8 { return []uint8{8, 8, 8, 8, 2, 4, 6}[s.Choose(7)] }

func drawBias(s *Sim) bool {
	if s.Bool(1, 4) {
		lib.mode = 1 + s.Choose(5)
		s.Fault("adversarial-randomness")
		return true
	}
	return false
}

func mkKLLFam[C comparable](s *Sim, t *itemType[C]) Family {
	f := &kllFam[C]{t: t, k: drawKLLK(s), mixK: s.Bool(1, 2), m: drawM(s), st: newStream(s), bias: drawBias(s)}
	f.maxN = min(f.k*20, 4000)
	if s.big {
		f.maxN = 100000
	}
	return f
}

func (f *kllFam[C]) Name() string            { return "kll-" + f.t.name }
func (f *kllFam[C]) Idempotent() bool        { return false }
func (f *kllFam[C]) NextBatch(s *Sim) *Batch { return f.st.NextValues(f.maxN) }

type kllRep[C comparable] struct {
	f   *kllFam[C]
	sk  *kll.ItemsSketch[C]
	m   *kllModel
	agg bool
}

func (f *kllFam[C]) new(s *Sim, agg bool) Replica {
	k := f.k
	if f.mixK && s.Choose(2) == 1 {
		k = drawKLLK(s)
	}
	sk, err := kll.NewKllItemsSketch[C](uint16(k), f.m, f.t.less, f.t.serde)
	s.Must(err, "kll-new")
	return &kllRep[C]{f: f, sk: sk, m: &kllModel{k: k, minK: k, exact: true, biased: f.bias}, agg: agg}
}

func (f *kllFam[C]) NewLeaf(s *Sim) Replica { return f.new(s, false) }
func (f *kllFam[C]) NewAgg(s *Sim) Replica  { return f.new(s, true) }

func (r *kllRep[C]) Kind() string { return r.f.Name() }
func (r *kllRep[C]) Bag() Bag     { return r.m.bag }

func (r *kllRep[C]) Update(s *Sim, b *Batch) {
	if s.Choose(4) == 0 && !r.sk.IsEmpty() { // a query in between, so that cached views exist
		_, err := r.sk.GetRank(r.f.t.conv(5), true)
		s.Must(err, "kll-rank")
	}
	for _, v := range b.IDs {
		r.sk.Update(r.f.t.conv(int64(v)))
	}
	r.m.bag = r.m.bag.Add(b)
	r.m.exact = r.m.exact && r.m.bag.N() <= r.m.k
}

func (m *kllModel) clone() *kllModel { c := *m; return &c }

func (r *kllRep[C]) Encode(s *Sim) *Image {
	if len(r.m.bag) == 0 && s.Choose(2) == 0 {
		return nil
	}
	b, err := r.sk.ToSlice()
	s.Must(err, "kll-encode")
	sz, err := r.sk.GetSerializedSizeBytes()
	s.Must(err, "kll-encode")
	s.Assert(sz == len(b), "kll-serialized-size", "advertised %d bytes, wrote %d", sz, len(b))
	return &Image{Enc: "kll", Bytes: b, M: r.m.clone()}
}

func (f *kllFam[C]) decode(b []byte) (*kll.ItemsSketch[C], error) {
	return kll.NewKllItemsSketchFromSlice[C](b, f.t.less, f.t.serde)
}

func (f *kllFam[C]) DecodeAny(enc string, b []byte) error { _, err := f.decode(b); return err }

func (r *kllRep[C]) Restore(s *Sim, img *Image) (Replica, bool) {
	sk, err := r.f.decode(slices.Clone(img.Bytes))
	s.Must(err, "kll-decode")
	return &kllRep[C]{f: r.f, sk: sk, m: img.M.(*kllModel).clone(), agg: r.agg}, true
}

func (r *kllRep[C]) Absorb(s *Sim, img *Image) {
	im := img.M.(*kllModel)
	src, err := r.f.decode(slices.Clone(img.Bytes))
	s.Must(err, "kll-decode")
	if s.Choose(3) == 0 {
		checkKLL(s, r.f.t, src, im, "received sketch")
	}
	est := src.IsEstimationMode()
	r.sk.Merge(src)
	if s.Choose(3) == 0 {
		checkKLL(s, r.f.t, src, im, "source after merge")
	}
	if im.bag.N() == 0 {
		r.m.bag = r.m.bag.Concat(im.bag)
		return
	}
	r.m.bag = r.m.bag.Concat(im.bag)
	if est {
		r.m.minK = min(r.m.minK, im.minK)
	}
	r.m.exact = r.m.exact && im.exact && r.m.bag.N() <= r.m.k
	r.m.copies = max(r.m.copies, im.copies)
	s.ProbeIf(est && im.k < r.m.k, "kll merged a coarser sketch")
}

// double merges a copy of the sketch into it.
func (r *kllRep[C]) double(s *Sim, c Replica) {
	src := c.(*kllRep[C])
	est := src.sk.IsEstimationMode()
	r.sk.Merge(src.sk)
	r.m.bag = r.m.bag.Doubled()
	if est {
		r.m.minK = min(r.m.minK, src.m.minK)
	}
	r.m.copies++
	r.m.exact = r.m.exact && r.m.bag.N() <= r.m.k
}

func (r *kllRep[C]) Check(s *Sim, at string) { checkKLL(s, r.f.t, r.sk, r.m, r.Kind()+" "+at) }

// growthScenario: an aggregate of a small history is merged with copies of
// itself again and again, until its count fills the counters, with ordinary
// updates and merges in between.
func growthScenario(mk func(*Sim) Family) func(*Sim) { return func(s *Sim) { growth(s, mk(s)) } }

// bagWeight counts the items of a bag with their weights and multiplicities.
func bagWeight(bag Bag) int64 {
	n := int64(0)
	for _, b := range bag {
		if b.W == nil {
			n += int64(len(b.IDs)) * b.mult()
			continue
		}
		for _, w := range b.W {
			n += max(w, -w) * b.mult()
		}
	}
	return n
}

func growth(s *Sim, f Family) {
	limit := int64(1) << 51 // estimators that work in float64 count exactly up to 2^53
	if l, ok := f.(interface{ maxWeight() int64 }); ok {
		limit = l.maxWeight()
	}
	r := f.NewAgg(s)
	d := r.(interface{ double(*Sim, Replica) })
	grow := 1 + s.Choose(90)
	for i := 0; i < grow; i++ {
		switch s.Pick(12, 3, 2, 2) {
		case 0:
			if n := bagWeight(r.Bag()); n > 0 && n < limit {
				img := r.Encode(s)
				if c, ok := r.Restore(s, img); ok {
					d.double(s, c)
					s.Step("double")
				}
			}
		case 1:
			if _, no := r.(interface{ mergeOnly() }); no {
				continue
			}
			r.Update(s, f.NextBatch(s))
		case 2:
			o := f.NewLeaf(s)
			o.Update(s, f.NextBatch(s))
			if img := o.Encode(s); img != nil {
				r.Absorb(s, img)
			}
		case 3:
			img := r.Encode(s)
			if img == nil {
				continue
			}
			back, ok := r.Restore(s, img)
			if !ok {
				continue
			}
			r = back
			d = r.(interface{ double(*Sim, Replica) })
			s.Step("restart")
		}
		s.ops++
		if s.Choose(4) == 0 {
			r.Check(s, "growing")
		}
	}
	r.Check(s, "grown")
}

// ---- accuracy: the same stream under many coin sequences ----

// rankErrorScenario repeats one merge history under independent library randomness
// and looks at the distribution of rank errors.
func kllErrorScenario(s *Sim) {
	t := typeInt64(false)
	k := []int{16, 32, 64, 100, 200}[s.Choose(5)]
	n := k * (4 + s.Choose(60))
	parts := 1 + s.Choose(6)
	sorted := s.Choose(3)
	trials := 48
	vals := make([]int64, n)
	p := prng{s.Word()}
	for i := range vals {
		switch sorted {
		case 0:
			vals[i] = int64(i)
		case 1:
			vals[i] = int64(n - 1 - i)
		case 2:
			vals[i] = int64(i)
		}
	}
	if sorted == 2 {
		for i := n - 1; i > 0; i-- {
			j := int(p.next() % uint64(i+1))
			vals[i], vals[j] = vals[j], vals[i]
		}
	}
	s.Logf("kll error k=%d n=%d parts=%d order=%d", k, n, parts, sorted)
	eps := kllEps(k, false)
	over := 0
	qs := []float64{0.03, 0.1, 0.3, 0.5, 0.7, 0.9, 0.97}
	sum := make([]float64, len(qs))
	sq := make([]float64, len(qs))
	for tr := 0; tr < trials; tr++ {
		seedLib(mixAll(s.Word(), uint64(tr)), fair)
		var sks []*kll.ItemsSketch[int64]
		for i := 0; i < parts; i++ {
			sk, err := kll.NewKllItemsSketch[int64](uint16(k), 8, t.less, t.serde)
			s.Must(err, "kll-new")
			for _, v := range vals[i*n/parts : (i+1)*n/parts] {
				sk.Update(v)
			}
			sks = append(sks, sk)
		}
		for len(sks) > 1 { // a random merge tree
			i := s.Choose(len(sks) - 1)
			sks[i].Merge(sks[i+1])
			sks = append(sks[:i+1], sks[i+2:]...)
		}
		s.ops++
		worst := 0.0
		for i, q := range qs {
			x := int64(q * float64(n))
			r, err := sks[0].GetRank(x, false)
			s.Must(err, "kll-rank")
			e := r - float64(x)/float64(n)
			sum[i] += e
			sq[i] += e * e
			worst = math.Max(worst, math.Abs(e))
		}
		if worst > eps {
			over++
		}
	}
	s.checks++
	// the advertised error holds with 99% confidence for all points together
	s.Assert(over <= 8, "kll-error-rate", "k=%d n=%d parts=%d: %d of %d trials exceed the advertised rank error %v", k, n, parts, over, trials, eps)
	for i, q := range qs {
		mean := sum[i] / float64(trials)
		sd := math.Sqrt(sq[i]/float64(trials)) + 1e-12
		s.Assert(math.Abs(mean) <= 6.5*math.Max(sd, eps/8)/math.Sqrt(float64(trials)), "kll-rank-bias", "k=%d n=%d parts=%d: rank error at %v averages %v over %d trials (rms %v)", k, n, parts, q, mean, trials, sd)
	}
	s.State(41, uint64(k), uint64(n), uint64(parts))
}

// ---- objects for the cross-cutting scenarios ----

type kllCfg[C comparable] struct {
	t   *itemType[C]
	k   int
	m   uint8
	max int
}

func newKLLObj(s *Sim) *Obj {
	rev := s.Bool(1, 4)
	switch s.Choose(4) {
	case 0:
		return mkKLLObj(s, pickType(s, rev, typeInt64, typeInt64Wide))
	case 1:
		return mkKLLObj(s, pickType(s, rev, typeFloat64, typeFloat64Wide))
	case 2:
		return mkKLLObj(s, typeString(rev))
	}
	return mkKLLObj(s, pickType(s, rev, typeFloat32, typeFloat32Wide))
}

func mkKLLObj[C comparable](s *Sim, t *itemType[C]) *Obj {
	t.less = yieldLess(t.less)
	t.serde = yieldSerde[C]{s, t.serde}
	c := &kllCfg[C]{t: t, k: min(drawKLLK(s), 1000), m: drawM(s)}
	c.max = min(12*c.k, 2000)
	if s.big {
		c.k, c.max = drawKLLK(s), 150000
	}
	return c.Fresh()
}

func (c *kllCfg[C]) Fresh() *Obj {
	sk, err := kll.NewKllItemsSketch[C](uint16(c.k), c.m, c.t.less, c.t.serde)
	if err != nil {
		panic(err)
	}
	return c.obj(sk)
}

func (c *kllCfg[C]) print(sk *kll.ItemsSketch[C], p *printer) {
	p.add("n", sk.GetN(), sk.GetK(), sk.GetNumRetained(), sk.IsEstimationMode(), sk.IsEmpty(), sk.GetNormalizedRankError(false), sk.GetNormalizedRankError(true))
	mn, err := sk.GetMinItem()
	mx, err2 := sk.GetMaxItem()
	p.add("minmax", mn, err, mx, err2)
	b, err := sk.ToSlice()
	p.add("image", err, b)
	if sk.IsEmpty() {
		return
	}
	pts := []C{c.t.conv(0), c.t.conv(1000), c.t.conv(1 << 18), c.t.conv(1 << 21), c.t.conv(qMax - 1)}
	if c.t.rev {
		slices.Reverse(pts)
	}
	for _, incl := range []bool{true, false} {
		r, err := sk.GetRanks(pts, incl)
		p.add("ranks", r, err)
		q, err := sk.GetQuantiles([]float64{0, 0.01, 0.25, 0.5, 0.9, 1}, incl)
		p.add("quantiles", fmt.Sprintf("%q", fmt.Sprint(q)), err)
		cdf, err := sk.GetCDF(pts, incl)
		p.add("cdf", cdf, err)
		pmf, err := sk.GetPMF(pts, incl)
		p.add("pmf", pmf, err)
		pb, err := sk.GetPartitionBoundaries(3, incl)
		p.add("parts", err)
		if err == nil {
			p.add("parts", fmt.Sprintf("%q", fmt.Sprint(pb.GetBoundaries())))
		}
	}
	for it := sk.GetIterator(); it.Next(); {
		p.add("item", it.GetWeight(), fmt.Sprintf("%q", fmt.Sprint(it.GetQuantile())))
	}
	sv, err := sk.GetSortedView()
	p.add("view", err)
	if err == nil {
		c.printView(sv, p)
	}
}

func (c *kllCfg[C]) printView(sv *kll.ItemsSketchSortedView[C], p *printer) {
	for it := sv.Iterator(); it.Next(); {
		p.add("v", it.GetWeight(), fmt.Sprintf("%q", fmt.Sprint(it.GetQuantile())))
	}
}

func (c *kllCfg[C]) values(s *Sim) []C {
	st := newStream(s)
	b := st.NextValues(c.max)
	out := make([]C, len(b.IDs))
	for i, v := range b.IDs {
		out[i] = c.t.conv(int64(v))
	}
	return out
}

func (c *kllCfg[C]) source(s *Sim) *Obj {
	c2 := *c
	if s.Choose(2) == 1 {
		c2.k = min(drawKLLK(s), 1000)
	}
	o := c2.Fresh()
	n := s.Choose(4)
	for i := 0; i < n; i++ {
		s.Must(apply(s, o, c2.feed(s), s.Word()), "kll-update")
	}
	return o
}

func (c *kllCfg[C]) feed(s *Sim) *Mut {
	vals := c.values(s)
	return &Mut{Name: fmt.Sprintf("update %d items", len(vals)), Do: func(o *Obj) error {
		sk := o.Live.(*kll.ItemsSketch[C])
		for _, v := range vals {
			sk.Update(v)
		}
		return nil
	}}
}

func (c *kllCfg[C]) obj(sk *kll.ItemsSketch[C]) *Obj {
	o := &Obj{Live: sk, Kind: "kll-sketch", Limit: &limit{what: "items", bytes: 24,
		entries: func(o *Obj) int { return int(o.Live.(*kll.ItemsSketch[C]).GetNumRetained()) },
		max:     func(o *Obj) int { return kllMax(c.k, c.m, o.Live.(*kll.ItemsSketch[C]).GetN()) }}}
	o.Print = func(o *Obj, p *printer) { c.print(o.Live.(*kll.ItemsSketch[C]), p) }
	o.Gen = func(s *Sim) *Mut {
		switch s.Pick(6, 3, 1) {
		case 1:
			src := c.source(s)
			return &Mut{Name: "merge", Srcs: []*Obj{src}, Do: func(o *Obj) error {
				o.Live.(*kll.ItemsSketch[C]).Merge(src.Live.(*kll.ItemsSketch[C]))
				return nil
			}}
		case 2:
			n := 1 + s.Choose(30)
			return &Mut{Name: fmt.Sprintf("double %d times by merging a restored copy", n), Do: func(o *Obj) error {
				sk := o.Live.(*kll.ItemsSketch[C])
				for i := 0; i < n && sk.GetN() < 1<<61; i++ {
					b, err := sk.ToSlice()
					if err != nil {
						return err
					}
					cp, err := kll.NewKllItemsSketchFromSlice[C](b, c.t.less, c.t.serde)
					if err != nil {
						return err
					}
					sk.Merge(cp)
				}
				return nil
			}}
		}
		return c.feed(s)
	}
	o.Fresh = func() *Obj { return c.Fresh() }
	o.Reset = func(o *Obj) { o.Live.(*kll.ItemsSketch[C]).Reset() }
	o.Codecs = []*Codec{{Name: "kll", Wire: "kll", Typ: c.t.name, Exact: true,
		Sizes: func(o *Obj) (int, int) {
			n, err := o.Live.(*kll.ItemsSketch[C]).GetSerializedSizeBytes()
			if err != nil {
				return 0, -1
			}
			return n, -1
		},
		Enc: func(o *Obj) ([]byte, error) { return o.Live.(*kll.ItemsSketch[C]).ToSlice() },
		Dec: func(b []byte) (*Obj, error) {
			n, err := kll.NewKllItemsSketchFromSlice[C](b, c.t.less, c.t.serde)
			if err != nil {
				return nil, err
			}
			return c.obj(n), nil
		}}}
	o.Derive = func(s *Sim, o *Obj) []*Obj {
		sk := o.Live.(*kll.ItemsSketch[C])
		arr := sk.GetTotalItemsArray()
		out := []*Obj{{Kind: "kll-items", Live: arr, Print: func(o *Obj, p *printer) { p.add("a", fmt.Sprintf("%q", fmt.Sprint(o.Live.([]C)))) },
			Reset: func(o *Obj) {
				a := o.Live.([]C)
				for i := range a {
					a[i] = c.t.conv(77)
				}
			}}}
		if sk.IsEmpty() {
			return out
		}
		sv, err := sk.GetSortedView()
		s.Must(err, "kll-sorted-view")
		out = append(out, &Obj{Kind: "kll-view", Live: sv, Print: func(o *Obj, p *printer) { c.printView(o.Live.(*kll.ItemsSketchSortedView[C]), p) }})
		pb, err := sv.GetPartitionBoundaries(2+s.Choose(3), true)
		s.Must(err, "kll-partitions")
		out = append(out, &Obj{Kind: "kll-boundaries", Live: pb.GetBoundaries(), Print: func(o *Obj, p *printer) { p.add("b", fmt.Sprintf("%q", fmt.Sprint(o.Live.([]C)))) },
			Reset: func(o *Obj) {
				a := o.Live.([]C)
				for i := range a {
					a[i] = c.t.conv(77)
				}
			}})
		return out
	}
	o.Bad = func(s *Sim) []*Mut { return c.bad() }
	return o
}

func (c *kllCfg[C]) bad() []*Mut {
	ms := []*Mut{
		{Name: "kll new with k=7", Do: func(o *Obj) error { _, err := kll.NewKllItemsSketch[C](7, 8, c.t.less, c.t.serde); return err }},
		{Name: "kll new with m=5", Do: func(o *Obj) error { _, err := kll.NewKllItemsSketch[C](200, 5, c.t.less, c.t.serde); return err }},
		{Name: "kll new without comparator", Do: func(o *Obj) error { _, err := kll.NewKllItemsSketch[C](200, 8, nil, c.t.serde); return err }},
		{Name: "kll quantile below 0", Do: func(o *Obj) error { _, err := o.Live.(*kll.ItemsSketch[C]).GetQuantile(-0.01, true); return err }},
		{Name: "kll quantile above 1", Do: func(o *Obj) error { _, err := o.Live.(*kll.ItemsSketch[C]).GetQuantile(1.01, true); return err }},
		{Name: "kll quantiles above 1", Do: func(o *Obj) error {
			_, err := o.Live.(*kll.ItemsSketch[C]).GetQuantiles([]float64{0.5, 2}, false)
			return err
		}},
		{Name: "kll cdf with repeated split points", Do: func(o *Obj) error {
			_, err := o.Live.(*kll.ItemsSketch[C]).GetCDF([]C{c.t.conv(5), c.t.conv(5)}, true)
			return err
		}},
		{Name: "kll pmf with descending split points", Do: func(o *Obj) error {
			a, b := c.t.conv(9), c.t.conv(5)
			if c.t.rev {
				a, b = b, a
			}
			_, err := o.Live.(*kll.ItemsSketch[C]).GetPMF([]C{a, b}, true)
			return err
		}},
		{Name: "kll zero partitions", Do: func(o *Obj) error {
			_, err := o.Live.(*kll.ItemsSketch[C]).GetPartitionBoundaries(0, true)
			return err
		}},
		{Name: "kll restore without serde", Do: func(o *Obj) error {
			b, err := o.Live.(*kll.ItemsSketch[C]).ToSlice()
			if err != nil {
				return nil
			}
			_, err = kll.NewKllItemsSketchFromSlice[C](b, c.t.less, nil)
			return err
		}},
		{Name: "kll snapshot without serde", Do: func(o *Obj) error {
			sk, err := kll.NewKllItemsSketch[C](200, 8, c.t.less, nil)
			if err != nil {
				return nil
			}
			sk.Update(c.t.conv(1))
			_, err = sk.ToSlice()
			return err
		}},
	}
	for _, f := range foreignImages() {
		f := f
		if f.fam == "kll" {
			continue
		}
		ms = append(ms, &Mut{Name: "kll restore of a " + f.fam + " image", Do: func(o *Obj) error {
			_, err := kll.NewKllItemsSketchFromSlice[C](f.b, c.t.less, c.t.serde)
			return err
		}})
	}
	return ms
}

func init() {
	addKind("kll-sketch", newKLLObj)
	register(&propDef{ID: "Q01", Quick: 20000, Thorough: 1000000,
		Scenarios: []scenarioDef{{"kll-big", 1, bigScenario(clusterScenario(newKLLFam))}, {"kll-cluster", 180, clusterScenario(newKLLFam)}, {"kll-growth", 20, growthScenario(newKLLFam)}, {"kll-error", 20, kllErrorScenario}},
		Rule:      "Simulated cluster of KLL sketches against the exact stream; repeated histories under independent coin flips.",
		Real:      []string{"kll", "internal/quantiles", "common serializers"},
		Stub:      []string{"network, disk, process crashes, clock (simulated)", "math/rand source (seeded, sometimes adversarial)"},
	})
}
