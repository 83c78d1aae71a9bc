package main

import (
	"errors"
	"fmt"
	"math"
	"slices"

	"github.com/apache/datasketches-go/req"
)

// ---- oracle ----

type reqModel struct {
	bag    Bag
	k      int // of this sketch
	minK   int // smallest k its items went through
	hra    bool
	lone   bool // never merged: the schedule is that of one sketch
	biased bool
	copies int // merges with copies of itself
}

func (m *reqModel) clone() *reqModel { c := *m; return &c }

// runs with wide items spread the workload over all magnitudes
func reqConv(v int64) float32 {
	if curSim.wide {
		return wide32(v)
	}
	return float32(v) - 1<<20
}

func reqInv(c float32) int64 {
	if curSim.wide {
		return wide32Inv(c)
	}
	return int64(c) + 1<<20
}

// reqRSE is the relative standard error the library advertises, from the published constants.
func reqRSE(k int, rank float64, hra bool) float64 {
	x := rank
	if hra {
		x = 1 - rank
	}
	return math.Min(math.Sqrt(0.0512/3)/float64(k)*x, 0.084/float64(k))
}

func reqExact(k int, rank float64, hra bool, n int64) bool {
	t := float64(3*k) / float64(n)
	if n <= int64(3*k) {
		return true
	}
	if hra {
		return rank >= 1-t
	}
	return rank <= t
}

// reqAdjust is the view with the true minimum and maximum put back in.
func reqAdjust(view []wItem, mn, mx int64) []wItem {
	v := slices.Clone(view)
	if v[0].v != mn {
		v[0].w--
		v = append([]wItem{{mn, 1}}, v...)
	}
	if v[len(v)-1].v != mx {
		v[len(v)-1].w--
		v = append(v, wItem{mx, 1})
	}
	return v
}

func checkREQ(s *Sim, sk *req.Sketch, m *reqModel, at string) {
	vals := bagValues(m.bag, false)
	n := vals.N()
	s.Assert(sk.N() == n, "req-n", "%s: n %d want %d", at, sk.N(), n)
	s.Assert(sk.IsEmpty() == (n == 0), "req-empty", "%s: empty=%v with %d items", at, sk.IsEmpty(), n)
	s.Assert(sk.K() == m.k && sk.IsHighRankAccuracyMode() == m.hra, "req-config", "%s: k %d hra %v", at, sk.K(), sk.IsHighRankAccuracyMode())
	if n == 0 {
		_, err := sk.MinItem()
		_, err2 := sk.Rank(1)
		_, err3 := sk.Quantile(0.5)
		_, err4 := sk.SortedView()
		s.Assert(err != nil && err2 != nil && err3 != nil && err4 != nil, "req-empty-answers", "%s: an empty sketch answered", at)
		_, err = sk.MaxItem()
		_, err2 = sk.Quantiles([]float64{0, 0.5, 1})
		_, err3 = sk.Ranks([]float32{1, 2})
		_, err4 = sk.CDF([]float32{1, 2}, true)
		_, err5 := sk.PMF([]float32{1, 2})
		s.Assert(err != nil && err2 != nil && err3 != nil && err4 != nil && err5 != nil, "req-empty-answers", "%s: an empty sketch answered: max %v, quantiles %v, ranks %v, cdf %v, pmf %v", at, err, err2, err3, err4, err5)
		s.Assert(sk.NumRetained() == 0 && len(sk.All()) == 0, "req-retained", "%s: empty sketch retains %d", at, sk.NumRetained())
		return
	}
	mn, err := sk.MinItem()
	s.Must(err, "req-min")
	mx, err := sk.MaxItem()
	s.Must(err, "req-max")
	s.Assert(reqInv(mn) == vals.min() && reqInv(mx) == vals.max(), "req-extremes", "%s: min,max %v,%v want %v,%v", at, reqInv(mn), reqInv(mx), vals.min(), vals.max())
	var raw []wItem
	total := int64(0)
	for _, it := range sk.All() {
		v := reqInv(it.Quantile)
		raw = append(raw, wItem{v, it.Weight})
		total += it.Weight
		s.Assert(it.Weight > 0 && it.Weight&(it.Weight-1) == 0, "req-weight-value", "%s: weight %d", at, it.Weight)
		s.Assert(vals.has(v), "req-stranger", "%s: retained item %d was never offered", at, v)
	}
	s.Assert(total == n, "req-weights", "%s: weights of %d retained items sum to %d, not %d", at, len(raw), total, n)
	s.Assert(len(raw) == sk.NumRetained(), "req-retained", "%s: retains %d, lists %d", at, sk.NumRetained(), len(raw))
	slices.SortFunc(raw, func(a, b wItem) int {
		if a.v != b.v {
			return int(a.v - b.v)
		}
		return int(a.w - b.w)
	})
	view := reqAdjust(raw, vals.min(), vals.max())
	if !sk.IsEstimationMode() {
		s.Assert(int64(len(raw)) == n, "req-exact", "%s: exact sketch retains %d of %d", at, len(raw), n)
	}
	if m.lone && n < int64(6*m.k) {
		s.Assert(!sk.IsEstimationMode(), "req-exact", "%s: estimating with %d items for k=%d", at, n, m.k)
	}
	levels := int(math.Log2(float64(maxW(raw)))) + 1
	s.Assert(len(raw) <= 200*1024+64*m.k*levels, "req-size", "%s: retains %d items", at, len(raw))

	sv, err := sk.SortedView()
	s.Must(err, "req-sorted-view")
	qs, cw := sv.Quantiles(), sv.CumulativeWeights()
	s.Assert(len(qs) == len(view) && len(cw) == len(view) && sv.NumRetained() == len(view) && sv.N() == n, "req-view-size", "%s: sorted view of %d items holds %d", at, len(view), len(qs))
	cum := int64(0)
	it := sv.Iterator()
	for i := range view {
		cum += view[i].w
		s.Assert(reqInv(qs[i]) == view[i].v, "req-view", "%s: sorted view holds %d at %d, want %d", at, reqInv(qs[i]), i, view[i].v)
		if i+1 == len(view) || view[i+1].v != view[i].v {
			s.Assert(cw[i] == cum, "req-view", "%s: cumulative weight %d at %d, want %d", at, cw[i], i, cum)
		}
		s.Assert(it.Next(), "req-view", "%s: iterator ends at %d of %d", at, i, len(view))
		if s.big && i%64 != 0 {
			continue
		}
		below := int64(0)
		if i > 0 {
			below = cw[i-1]
		}
		q, e1 := it.Quantile()
		w, e2 := it.Weight()
		nr, e3 := it.NaturalRank()
		nx, e4 := it.NaturalRankWithCriterion(false)
		ni, e5 := it.NaturalRankWithCriterion(true)
		rr, e6 := it.NormalizedRank()
		rx, e7 := it.NormalizedRankWithCriterion(false)
		ri, e8 := it.NormalizedRankWithCriterion(true)
		s.Must(errors.Join(e1, e2, e3, e4, e5, e6, e7, e8), "req-view")
		s.Assert(it.N() == n && q == qs[i] && w == cw[i]-below && nr == cw[i] && ni == nr && nx == below, "req-view-iterator",
			"%s: the iterator of the view at %d of %d says %v of weight %d and ranks %d,%d,%d, the view %v and %d..%d", at, i, len(view), q, w, nr, ni, nx, qs[i], below, cw[i])
		s.Assert(rr == float64(nr)/float64(n) && ri == rr && rx == float64(nx)/float64(n), "req-view-iterator",
			"%s: normalized ranks %v,%v,%v for %d,%d of %d", at, rr, ri, rx, nr, nx, n)
	}
	s.Assert(!it.Next(), "req-view", "%s: iterator does not end", at)
	_, err = it.Quantile()
	s.Assert(err != nil, "req-view-iterator", "%s: the ended iterator still has a quantile", at)
	a, err := sv.MinItem()
	s.Must(err, "req-view")
	b, err := sv.MaxItem()
	s.Must(err, "req-view")
	s.Assert(a == mn && b == mx, "req-view", "%s: view min,max %v,%v", at, a, b)

	sp := splitValues(s, vals.v, 10)
	items := make([]float32, len(sp))
	for i, v := range sp {
		items[i] = reqConv(v)
	}
	incl := s.Choose(2) == 1
	var so []req.SearchCriteriaOptionFunc
	if !incl {
		so = append(so, req.WithExclusiveSearch())
	}
	ranks, err := sk.Ranks(items, so...)
	s.Must(err, "req-ranks")
	prev := 0.0
	for i, v := range sp {
		want := float64(weightBelow(view, v, incl)) / float64(n)
		s.Assert(ranks[i] == want, "req-rank", "%s: rank(%d,incl=%v)=%v, retained weight says %v", at, v, incl, ranks[i], want)
		r1, err := sk.Rank(items[i], so...)
		s.Must(err, "req-rank")
		s.Assert(r1 == ranks[i], "req-rank", "%s: Rank %v, Ranks %v", at, r1, ranks[i])
		s.Assert(ranks[i] >= prev, "req-rank-monotone", "%s: rank falls from %v to %v", at, prev, ranks[i])
		prev = ranks[i]
		checkREQError(s, m, vals, v, incl, ranks[i], sk.IsEstimationMode(), at)
	}
	// every retained end item too: that is where the accuracy is promised
	for j := 0; j < 3; j++ {
		v := vals.at(int64(s.Choose(int(min(n, int64(6*m.minK))))))
		if m.hra {
			v = vals.at(n - 1 - int64(s.Choose(int(min(n, int64(6*m.minK))))))
		}
		r, err := sk.Rank(reqConv(v), so...)
		s.Must(err, "req-rank")
		checkREQError(s, m, vals, v, incl, r, sk.IsEstimationMode(), at)
	}
	cdf, err := sk.CDF(items, incl)
	s.Must(err, "req-cdf")
	pmf, err := sk.PMF(items, so...)
	s.Must(err, "req-pmf")
	s.Assert(len(cdf) == len(sp)+1 && len(pmf) == len(sp)+1 && cdf[len(sp)] == 1, "req-cdf", "%s: cdf %v", at, cdf)
	sum := 0.0
	for i := range cdf {
		if i < len(sp) {
			s.Assert(cdf[i] == ranks[i], "req-cdf", "%s: cdf %v at a point of rank %v", at, cdf[i], ranks[i])
		}
		sum += pmf[i]
		s.Assert(pmf[i] >= 0 && math.Abs(sum-cdf[i]) < 1e-9, "req-pmf", "%s: pmf %v of cdf %v", at, pmf, cdf)
	}
	for q := 0; q < 5; q++ {
		r := drawRank(s, n)
		c, err := sk.Quantile(r, so...)
		s.Must(err, "req-quantile")
		lo, hi := quantRange(view, n, r, incl)
		s.Assert(reqInv(c) >= lo && reqInv(c) <= hi, "req-quantile", "%s: quantile(%v,incl=%v)=%d, retained items say %d..%d", at, r, incl, reqInv(c), lo, hi)
		cs, err := sk.Quantiles([]float64{r}, so...)
		s.Must(err, "req-quantile")
		s.Assert(cs[0] == c, "req-quantile", "%s: Quantiles differs from Quantile", at)
		// advertised bounds
		pl, pu := r, r
		ql, qu := c, c
		if !incl {
			ql, err = sk.Quantile(r)
			s.Must(err, "req-quantile")
			qu = ql
		}
		for sd := 1; sd <= 3; sd++ {
			o := req.WithNumStdDev(sd)
			lb, err := sk.RankLowerBound(r, o)
			s.Must(err, "req-bounds")
			ub, err := sk.RankUpperBound(r, o)
			s.Must(err, "req-bounds")
			s.Assert(0 <= lb && lb <= pl && pu <= ub && ub <= 1, "req-bounds", "%s: rank bounds %v..%v at %d deviations around %v (narrower: %v..%v)", at, lb, ub, sd, r, pl, pu)
			pl, pu = lb, ub
			e := reqRSE(m.k, r, m.hra)
			if !sk.IsEstimationMode() || reqExact(m.k, r, m.hra, n) {
				e = 0
			}
			s.Assert(math.Abs(lb-math.Max(0, r-float64(sd)*e)) < 1e-12 && math.Abs(ub-math.Min(1, r+float64(sd)*e)) < 1e-12, "req-bounds", "%s: rank bounds %v..%v at %d deviations, relative standard error %v at rank %v", at, lb, ub, sd, e, r)
			l, err := sk.QuantileLowerBound(r, o)
			s.Must(err, "req-quantile-bounds")
			u, err := sk.QuantileUpperBound(r, o)
			s.Must(err, "req-quantile-bounds")
			s.Assert(l <= ql && qu <= u, "req-quantile-bounds", "%s: quantile bounds %v..%v at %d deviations around %v..%v", at, l, u, sd, ql, qu)
			ql, qu = l, u
		}
	}
	s.State(42, uint64(m.k), uint64(len(raw)), uint64(levels))
}

// checkREQError compares one estimated rank with the truth.
func checkREQError(s *Sim, m *reqModel, vals mset, v int64, incl bool, est float64, estimating bool, at string) {
	n := vals.N()
	c := vals.below(v, incl)
	truth := float64(c) / float64(n)
	if !estimating {
		s.Assert(est == truth, "req-exact", "%s: exact sketch says rank %v, true rank %v", at, est, truth)
		return
	}
	// the accurate end is exact whatever the coins were
	if acc := int64(3 * m.minK); m.hra && n-c <= acc || !m.hra && c <= acc {
		// putting the minimum or maximum back shifts ranks at the other end only
		s.Assert(est == truth, "req-exact-end", "%s: rank of %d is %v, true rank %v, %d items from the accurate end (k %d)", at, v, est, truth, min(c, n-c), m.minK)
		s.Probe("req exact end checked")
		return
	}
	if m.biased {
		return
	}
	sd := reqRSE(m.minK, truth, m.hra)
	e := math.Abs(est - truth)
	noteMax(s, "req rank error / deviation", (e-2/float64(n))/sd)
	tol := 8.0
	if m.minK < 8 {
		// sections of 4 or 6 items cannot shrink as levels fill, so the published
		// constant is up to 2.5 times too small for long streams
		tol = 24
	}
	// errors of copies add up instead of averaging out
	tol *= math.Sqrt(1 + float64(m.copies)/2)
	s.Assert(e <= tol*sd+2/float64(n), "req-rank-error", "%s: rank of %d is %v, true rank %v, standard error %v (k %d, n %d)", at, v, est, truth, sd, m.minK, n)
}

// ---- cluster family: no serialization, so sketches are handed over in process ----

type reqFam struct {
	k    int
	mixK bool
	hra  bool
	st   *stream
	maxN int
	bias bool
}

func drawREQK(s *Sim) int {
	switch s.Pick(3, 3, 2, 1) {
	case 0:
		return 12
	case 1:
		return 4 + 2*s.Choose(6)
	case 2:
		return 4 + 2*s.Choose(60)
	}
	return 4 + 2*s.Choose(511)
}

func newREQFam(s *Sim) Family {
	s.wide = s.Bool(1, 3)
	f := &reqFam{k: drawREQK(s), mixK: s.Bool(1, 3), hra: s.Choose(2) == 0, st: newStream(s), bias: drawBias(s)}
	f.maxN = min(f.k*150, 6000)
	if s.big {
		f.maxN = 50000
	}
	return f
}

func (f *reqFam) Name() string            { return "req" }
func (f *reqFam) Idempotent() bool        { return false }
func (f *reqFam) NextBatch(s *Sim) *Batch { return f.st.NextValues(f.maxN) }

type reqRep struct {
	f  *reqFam
	sk *req.Sketch
	m  *reqModel
}

func (f *reqFam) new(s *Sim, k int) *reqRep {
	sk, err := req.NewSketch(req.WithK(k), req.WithHighRankAccuracyMode(f.hra))
	s.Must(err, "req-new")
	return &reqRep{f: f, sk: sk, m: &reqModel{k: k, minK: k, hra: f.hra, lone: true, biased: f.bias}}
}

func (f *reqFam) drawK(s *Sim) int {
	if f.mixK && s.Choose(2) == 1 {
		return drawREQK(s)
	}
	return f.k
}

func (f *reqFam) NewLeaf(s *Sim) Replica               { return f.new(s, f.drawK(s)) }
func (f *reqFam) NewAgg(s *Sim) Replica                { return f.new(s, f.drawK(s)) }
func (f *reqFam) DecodeAny(enc string, b []byte) error { return fmt.Errorf("no decoder") }

func (r *reqRep) Kind() string { return r.f.Name() }
func (r *reqRep) Bag() Bag     { return r.m.bag }

func (r *reqRep) Update(s *Sim, b *Batch) {
	if s.Choose(4) == 0 && !r.sk.IsEmpty() {
		_, err := r.sk.Rank(5)
		s.Must(err, "req-rank")
	}
	for i, v := range b.IDs {
		s.Must(r.sk.Update(reqConv(int64(v))), "req-update")
		if i%97 == 96 {
			s.Must(r.sk.Update(float32(math.NaN())), "req-update") // ignored
		}
	}
	r.m.bag = r.m.bag.Add(b)
}

func (r *reqRep) copy(s *Sim) *reqRep {
	c := r.f.new(s, r.m.k)
	s.Must(c.sk.Merge(r.sk), "req-merge")
	c.m = r.m.clone()
	c.m.lone = c.m.lone && c.m.bag.N() == 0
	return c
}

func (r *reqRep) Encode(s *Sim) *Image {
	return &Image{Enc: "req-live", Live: r.copy(s)}
}

func (r *reqRep) Restore(s *Sim, img *Image) (Replica, bool) {
	return img.Live.(*reqRep).copy(s), true
}

func (r *reqRep) Absorb(s *Sim, img *Image) {
	src := img.Live.(*reqRep)
	s.Must(r.sk.Merge(src.sk), "req-merge")
	if s.Choose(2) == 0 {
		checkREQ(s, src.sk, src.m, "source after merge")
	}
	if src.m.bag.N() > 0 {
		r.m.minK = min(r.m.minK, src.m.minK)
		r.m.lone = false
	}
	r.m.bag = r.m.bag.Concat(src.m.bag)
	r.m.copies = max(r.m.copies, src.m.copies)
}

func (r *reqRep) double(s *Sim, c Replica) {
	src := c.(*reqRep)
	s.Must(r.sk.Merge(src.sk), "req-merge")
	r.m.bag = r.m.bag.Doubled()
	r.m.minK = min(r.m.minK, src.m.minK)
	r.m.lone = false
	r.m.copies++
}

func (r *reqRep) Check(s *Sim, at string) { checkREQ(s, r.sk, r.m, r.Kind()+" "+at) }

// ---- accuracy over many coin sequences ----

func reqErrorScenario(s *Sim) {
	k := []int{4, 6, 12, 20, 32, 50}[s.Choose(6)]
	hra := s.Choose(2) == 0
	n := k * (10 + s.Choose(200))
	parts := 1 + s.Choose(5)
	trials := 400
	p := prng{s.Word()}
	vals := make([]int64, n)
	for i := range vals {
		vals[i] = int64(i)
	}
	order := s.Choose(3)
	switch order {
	case 1:
		slices.Reverse(vals)
	case 2:
		for i := n - 1; i > 0; i-- {
			j := int(p.next() % uint64(i+1))
			vals[i], vals[j] = vals[j], vals[i]
		}
	}
	s.Logf("req error k=%d hra=%v n=%d parts=%d order=%d", k, hra, n, parts, order)
	qs := []float64{0.01, 0.05, 0.2, 0.5, 0.8, 0.95, 0.99}
	sum := make([]float64, len(qs))
	sq := make([]float64, len(qs))
	for tr := 0; tr < trials; tr++ {
		seedLib(mixAll(s.Word(), uint64(tr)), fair)
		var sks []*req.Sketch
		for i := 0; i < parts; i++ {
			sk, err := req.NewSketch(req.WithK(k), req.WithHighRankAccuracyMode(hra))
			s.Must(err, "req-new")
			for _, v := range vals[i*n/parts : (i+1)*n/parts] {
				s.Must(sk.Update(float32(v)), "req-update")
			}
			sks = append(sks, sk)
		}
		for len(sks) > 1 {
			i := s.Choose(len(sks) - 1)
			s.Must(sks[i].Merge(sks[i+1]), "req-merge")
			sks = append(sks[:i+1], sks[i+2:]...)
		}
		s.ops++
		for i, q := range qs {
			x := int64(q * float64(n))
			r, err := sks[0].Rank(float32(x), req.WithExclusiveSearch())
			s.Must(err, "req-rank")
			e := r - float64(x)/float64(n)
			sum[i] += e
			sq[i] += e * e
		}
	}
	for i, q := range qs {
		sd := reqRSE(k, q, hra)
		rms := math.Sqrt(sq[i] / float64(trials))
		slack := 1.5 / float64(n)
		s.checks += 2
		noteMax(s, fmt.Sprintf("req rms error / advertised (k=%d)", k), math.Max(0, rms-slack)/sd)
		lim := 1.4 // 400 trials put the statistic within 4% of its mean, at most 1.15 on the paired coins
		if k < 8 {
			lim = 1.6
		}
		s.Assert(rms <= lim*sd+slack, "req-error-rate", "k=%d hra=%v n=%d parts=%d: rms rank error at %v over %d trials is %v, advertised %v", k, hra, n, parts, q, trials, rms, sd)
		s.Assert(math.Abs(sum[i]/float64(trials)) <= 6.5*math.Max(rms, sd/8)/math.Sqrt(float64(trials))+slack, "req-rank-bias", "k=%d hra=%v n=%d parts=%d: rank error at %v averages %v over %d trials (rms %v)", k, hra, n, parts, q, sum[i]/float64(trials), trials, rms)
	}
	s.State(43, uint64(k), uint64(n), uint64(parts))
}

// ---- objects for the cross-cutting scenarios ----

type reqCfg struct {
	k   int
	hra bool
	max int
}

func newREQObj(s *Sim) *Obj {
	c := &reqCfg{k: min(drawREQK(s), 200), hra: s.Choose(2) == 0}
	c.max = min(c.k*60, 3000)
	return c.Fresh()
}

func (c *reqCfg) Fresh() *Obj {
	sk, err := req.NewSketch(req.WithK(c.k), req.WithHighRankAccuracyMode(c.hra))
	if err != nil {
		panic(err)
	}
	return c.obj(sk)
}

func (c *reqCfg) print(sk *req.Sketch, p *printer) {
	p.add("n", sk.N(), sk.K(), sk.NumRetained(), sk.IsEstimationMode(), sk.IsEmpty(), sk.IsHighRankAccuracyMode())
	mn, err := sk.MinItem()
	mx, err2 := sk.MaxItem()
	p.add("minmax", mn, err, mx, err2)
	all := sk.All() // a multiset: queries may sort levels in place
	slices.SortFunc(all, func(a, b req.Item) int {
		if a.Quantile != b.Quantile {
			if a.Quantile < b.Quantile {
				return -1
			}
			return 1
		}
		return int(a.Weight - b.Weight)
	})
	p.add("items", all)
	if sk.IsEmpty() {
		return
	}
	pts := []float32{reqConv(0), reqConv(1000), reqConv(1 << 18), reqConv(1 << 21), reqConv(qMax - 1)}
	for i, o := range [][]req.SearchCriteriaOptionFunc{nil, {req.WithExclusiveSearch()}} {
		r, err := sk.Ranks(pts, o...)
		p.add("ranks", r, err)
		q, err := sk.Quantiles([]float64{0, 0.01, 0.25, 0.5, 0.9, 1}, o...)
		p.add("quantiles", q, err)
		cdf, err := sk.CDF(pts, i == 0)
		p.add("cdf", cdf, err)
		pmf, err := sk.PMF(pts, o...)
		p.add("pmf", pmf, err)
	}
	for _, r := range []float64{0, 0.3, 0.97, 1} {
		for sd := 1; sd <= 3; sd++ {
			o := req.WithNumStdDev(sd)
			a, err := sk.QuantileLowerBound(r, o)
			b, err2 := sk.QuantileUpperBound(r, o)
			p.add("bounds", a, err, b, err2)
		}
	}
	sv, err := sk.SortedView()
	p.add("view", err)
	if err == nil {
		p.add("view", sv.N(), sv.Quantiles(), sv.CumulativeWeights())
	}
}

func (c *reqCfg) feed(s *Sim) *Mut {
	b := newStream(s).NextValues(c.max)
	return &Mut{Name: fmt.Sprintf("update %v", b), Do: func(o *Obj) error {
		sk := o.Live.(*req.Sketch)
		for _, v := range b.IDs {
			if err := sk.Update(reqConv(int64(v))); err != nil {
				return err
			}
		}
		return nil
	}}
}

func (c *reqCfg) source(s *Sim) *Obj {
	c2 := *c
	if s.Choose(2) == 1 {
		c2.k = min(drawREQK(s), 200)
	}
	o := c2.Fresh()
	n := s.Choose(4)
	for i := 0; i < n; i++ {
		s.Must(apply(s, o, c2.feed(s), s.Word()), "req-update")
	}
	return o
}

func (c *reqCfg) obj(sk *req.Sketch) *Obj {
	o := &Obj{Live: sk, Kind: "req-sketch", Limit: &limit{what: "items", bytes: 16,
		entries: func(o *Obj) int { return o.Live.(*req.Sketch).NumRetained() },
		max:     func(o *Obj) int { return reqMax(c.k, int64(o.Live.(*req.Sketch).N())) }}}
	o.Print = func(o *Obj, p *printer) { c.print(o.Live.(*req.Sketch), p) }
	o.Gen = func(s *Sim) *Mut {
		if s.Pick(6, 3) == 1 {
			src := c.source(s)
			return &Mut{Name: "merge", Srcs: []*Obj{src}, Do: func(o *Obj) error { return o.Live.(*req.Sketch).Merge(src.Live.(*req.Sketch)) }}
		}
		return c.feed(s)
	}
	o.Fresh = func() *Obj { return c.Fresh() }
	o.Reset = func(o *Obj) { o.Live.(*req.Sketch).Reset() }
	o.Derive = func(s *Sim, o *Obj) []*Obj {
		sk := o.Live.(*req.Sketch)
		if sk.IsEmpty() {
			return nil
		}
		sv, err := sk.SortedView()
		s.Must(err, "req-sorted-view")
		var out []*Obj
		out = append(out, &Obj{Kind: "req-view", Live: sv, Print: func(o *Obj, p *printer) { p.add("v", sv.Quantiles(), sv.CumulativeWeights()) }})
		qs, cw, all := sv.Quantiles(), sv.CumulativeWeights(), sk.All()
		out = append(out, &Obj{Kind: "req-arrays", Live: 0, Print: func(o *Obj, p *printer) { p.add("a", qs, cw, all) }, Reset: func(o *Obj) {
			for i := range qs {
				qs[i] = -1
				cw[i] = 7
			}
			for i := range all {
				all[i] = req.Item{}
			}
		}})
		return out
	}
	o.Bad = func(s *Sim) []*Mut { return c.bad() }
	return o
}

func (c *reqCfg) bad() []*Mut {
	sk := func(o *Obj) *req.Sketch { return o.Live.(*req.Sketch) }
	other, _ := req.NewSketch(req.WithK(c.k), req.WithHighRankAccuracyMode(!c.hra))
	for i := 0; i < 300; i++ {
		_ = other.Update(float32(i))
	}
	nan := float32(math.NaN())
	return []*Mut{
		{Name: "req merge of the other accuracy mode", Do: func(o *Obj) error { return sk(o).Merge(other) }},
		{Name: "req new with odd k", Do: func(o *Obj) error { _, err := req.NewSketch(req.WithK(13)); return err }},
		{Name: "req new with k=2", Do: func(o *Obj) error { _, err := req.NewSketch(req.WithK(2)); return err }},
		{Name: "req new with k=1026", Do: func(o *Obj) error { _, err := req.NewSketch(req.WithK(1026)); return err }},
		{Name: "req quantile below 0", Do: func(o *Obj) error { _, err := sk(o).Quantile(-0.01); return err }},
		{Name: "req quantiles above 1", Do: func(o *Obj) error { _, err := sk(o).Quantiles([]float64{0.1, 1.5}); return err }},
		{Name: "req rank of NaN", Do: func(o *Obj) error { _, err := sk(o).Rank(nan); return err }},
		{Name: "req rank of infinity", Do: func(o *Obj) error { _, err := sk(o).Rank(float32(math.Inf(1))); return err }},
		{Name: "req cdf with NaN", Do: func(o *Obj) error { _, err := sk(o).CDF([]float32{1, nan}, true); return err }},
		{Name: "req pmf with repeated split points", Do: func(o *Obj) error { _, err := sk(o).PMF([]float32{1, 1}); return err }},
		{Name: "req cdf with descending split points", Do: func(o *Obj) error { _, err := sk(o).CDF([]float32{2, 1}, false); return err }},
	}
}

func init() {
	addKind("req-sketch", newREQObj)
	register(&propDef{ID: "Q02", Quick: 20000, Thorough: 1000000,
		Scenarios: []scenarioDef{{"req-big", 1, bigScenario(clusterScenario(newREQFam))}, {"req-cluster", 180, clusterScenario(newREQFam)}, {"req-growth", 20, growthScenario(newREQFam)}, {"req-error", 5, reqErrorScenario}},
		Rule:      "Simulated cluster of REQ sketches against the exact stream; repeated histories under independent coin flips.",
		Real:      []string{"req", "common/quantiles", "internal/quantiles"},
		Stub:      []string{"network, disk (sketches have no byte form: handed over in process), process crashes, clock (simulated)", "math/rand/v2 source (seeded, sometimes adversarial)"},
	})
}
