package main

import (
	"fmt"
	"math"
	"os"
	"slices"

	"github.com/apache/datasketches-go/cpc"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"
)

// One history, many streams: how far the estimates of distinct counts stray, and how
// often the bounds miss. Each trial feeds the same history with other items.

// dcObs is one look at one estimate.
type dcObs struct {
	est    float64
	floor  float64    // a sure minimum, which the estimate may miss
	lb, ub [4]float64 // by number of standard deviations
}

type dcStat struct {
	what         string
	truth        float64
	rse          float64 // advertised for this estimate
	n            int
	sum, sq, q4  float64
	above, below [4]int // truth above the upper, below the lower bound
}

func (d *dcStat) add(o dcObs) {
	e := (o.est - d.truth) / math.Max(d.truth, 1)
	d.n++
	d.sum += e
	d.sq += e * e
	d.q4 += e * e * e * e
	for i := 1; i <= 3; i++ {
		slack := 1e-9 * (1 + d.truth)
		if d.truth > o.ub[i]+slack {
			d.above[i]++
		}
		if d.truth < o.lb[i]-slack {
			d.below[i]++
		}
	}
}

// dcLimits is how much of its own imperfection a family is granted.
type dcLimits struct {
	bias float64 // systematic bias, in RSEs
	rms  float64 // spread over the advertised one
	tail [4]float64
	p    float64 // sampling probability
}

// scale is how far the observed spread is trusted to be no smaller than the true one.
func (l dcLimits) scale() float64 {
	if l.p < 1 {
		return 1
	}
	return 0.25
}

// tooMany says whether x of n misses cannot be chance when each has probability p.
func tooMany(x, n int, p float64) bool {
	q := float64(x) / float64(n)
	if q <= p {
		return false
	}
	kl := q * math.Log(q/p)
	if q < 1 {
		kl += (1 - q) * math.Log((1-q)/(1-p))
	}
	return kl*float64(n) > 30
}

func dcLog() *os.File {
	f, err := os.OpenFile(os.Getenv("SIM_DC_DEBUG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	return f
}

var dcDebug = os.Getenv("SIM_DC_DEBUG") != ""

func (d *dcStat) check(s *Sim, lim dcLimits, name string) {
	if d.n == 0 || d.truth*lim.p*float64(d.n) < 100 {
		return // nothing sampled in most of the streams
	}
	N := float64(d.n)
	mean := d.sum / N
	rms := math.Sqrt(d.sq / N)
	rse := math.Max(d.rse, 1e-9)
	if dcDebug {
		t := func(x int) float64 { return float64(x) / N }
		fmt.Fprintf(dcLog(), "DC %s %s truth=%v T=%d bias/rse=%.3f+-%.3f rms/rse=%.3f above=%.4f,%.4f,%.4f below=%.4f,%.4f,%.4f\n", name, d.what, d.truth, d.n, mean/rse, math.Min(rms/rse, 1)/math.Sqrt(N), rms/rse,
			t(d.above[1]), t(d.above[2]), t(d.above[3]), t(d.below[1]), t(d.below[2]), t(d.below[3]))
	}
	s.Assert(math.Abs(mean) <= lim.bias*rse+7*math.Max(rms, rse*lim.scale())/math.Sqrt(N), "distinct-bias", "%s %s: the estimate of %v is off by %v on average over %d streams, the advertised standard error is %v", name, d.what, d.truth, mean, d.n, rse)
	// the spread of the spread, from the data themselves: rare collisions make it large
	m2 := d.sq / N
	s.Assert(m2 <= rse*rse*lim.rms*lim.rms+7*math.Sqrt(max(0, d.q4/N-m2*m2)/N)+1e-18, "distinct-spread", "%s %s: the estimate of %v has standard error %v over %d streams, advertised %v", name, d.what, d.truth, rms, d.n, rse)
	for i := 1; i <= 3; i++ {
		s.Assert(!tooMany(d.above[i], d.n, lim.tail[i]), "distinct-upper-bound", "%s %s: the true count %v was above the upper bound of %d deviations in %d of %d streams", name, d.what, d.truth, i, d.above[i], d.n)
		s.Assert(!tooMany(d.below[i], d.n, lim.tail[i]), "distinct-lower-bound", "%s %s: the true count %v was below the lower bound of %d deviations in %d of %d streams", name, d.what, d.truth, i, d.below[i], d.n)
	}
	s.checks++
}

// dcPlan is a history: one stream looked at as it grows, then split over several
// sketches and merged.
type dcPlan struct {
	marks []int // counts at which a single sketch is looked at
	n     int
	parts int
	share int // items every part sees

	crashAt, ckpt int   // the single sketch's process dies here and restarts from the checkpoint there
	order         []int // in which the parts reach the union, some of them twice
	wire          bool  // as bytes
	typ           valType
	T             int
}

func drawDCPlan(s *Sim, lgK int, maxN int, budget int) *dcPlan {
	p := &dcPlan{parts: 1 + s.Choose(5)}
	p.typ = []valType{vU64, vI64, vStr}[s.Choose(3)]
	k := float64(int(1) << lgK)
	top := math.Min(float64(maxN), k*math.Exp2(-3+float64(s.Choose(100))*0.09))
	if s.Choose(4) == 0 {
		top = math.Min(top, k)
	}
	p.n = max(2, int(top))
	for i := 0; i < 6; i++ {
		m := 1 + s.Choose(p.n)
		if s.Choose(2) == 0 { // spread over magnitudes
			m = max(1, int(float64(p.n)*math.Exp2(-float64(s.Choose(80))/10)))
		}
		p.marks = append(p.marks, m)
	}
	p.marks = append(p.marks, p.n)
	slices.Sort(p.marks)
	p.marks = slices.Compact(p.marks)
	if s.Choose(2) == 0 {
		p.share = s.Choose(p.n)
	}
	if s.Choose(2) == 0 {
		p.crashAt = 1 + s.Choose(p.n)
		p.ckpt = p.crashAt - s.Choose(min(p.crashAt, 200))
	}
	for j := 0; j < p.parts; j++ {
		at := s.Choose(j + 1)
		p.order = slices.Insert(p.order, at, j)
	}
	if s.Choose(2) == 0 {
		p.order = append(p.order, p.order[s.Choose(p.parts)])
	}
	p.wire = s.Choose(2) == 0
	cost := p.n + p.share*(p.parts-1) + 200
	p.T = max(24, min(3000, budget/cost))
	return p
}

// part says which items part j sees: its slice of the rest, and the shared ones.
func (p *dcPlan) part(j int) (from, to int) {
	rest := p.n - p.share
	return p.share + j*rest/p.parts, p.share + (j+1)*rest/p.parts
}

// rest of an id space: trial t's i-th item
func dcItem(word uint64, t, i int) uint64 { return mixAll(word, uint64(t), uint64(i)) }

// faults notes what befalls each trial.
func (p *dcPlan) faults(s *Sim, crash bool) {
	if crash && p.crashAt > 0 {
		s.Fault("crash-restart")
		s.Fault("at-least-once-replay")
	}
	if len(p.order) > p.parts {
		s.Fault("duplicate")
	}
	if !slices.IsSorted(p.order) {
		s.Fault("reorder")
	}
}

// feed runs the single sketch through the history of one trial; save and load are its
// checkpoint (nil when it has none), look is called at each mark.
func (p *dcPlan) feed(update func(i int), save, load func(), look func(m int)) {
	m, crashed := 0, save == nil
	for i := 0; i < p.n; i++ {
		update(i)
		if save != nil && !crashed && i+1 == p.ckpt {
			save()
		}
		for m < len(p.marks) && i+1 == p.marks[m] {
			look(m)
			m++
		}
		if !crashed && i+1 == p.crashAt {
			crashed = true
			load()
			i = p.ckpt - 1
		}
	}
}

// partItems calls f for the items of part j.
func (p *dcPlan) partItems(j int, f func(i int)) {
	for i := 0; i < p.share; i++ {
		f(i)
	}
	from, to := p.part(j)
	for i := from; i < to; i++ {
		f(i)
	}
}

type dcEst interface {
	Estimate() float64
	LowerBound(uint8) (float64, error)
	UpperBound(uint8) (float64, error)
}

func dcLook(s *Sim, e dcEst) dcObs {
	o := dcObs{est: e.Estimate()}
	if _, ok := e.(hllEst); ok {
		o.floor = math.Inf(1) // the occupied registers; D04 knows how many
	}
	for i := uint8(1); i <= 3; i++ {
		var err error
		o.lb[i], err = e.LowerBound(i)
		s.Must(err, "distinct-lower-bound")
		o.ub[i], err = e.UpperBound(i)
		s.Must(err, "distinct-upper-bound")
		o.order(s, int(i))
	}
	return o
}

func (o *dcObs) order(s *Sim, i int) {
	tol := 1e-9 * (1 + math.Abs(o.est))
	if !(o.lb[i] <= math.Max(o.est, o.floor)+tol && o.est <= o.ub[i]+tol) {
		s.Fail("distinct-bounds-order", "%d deviations: %v <= %v <= %v", i, o.lb[i], o.est, o.ub[i])
	}
	if i > 1 && !(o.lb[i] <= o.lb[i-1]+tol && o.ub[i] >= o.ub[i-1]-tol) {
		s.Fail("distinct-bounds-nested", "%d deviations: [%v,%v], %d deviations: [%v,%v]", i, o.lb[i], o.ub[i], i-1, o.lb[i-1], o.ub[i-1])
	}
}

// ---- theta and tuple ----

var dcThetaLimits = dcLimits{bias: 0.01, rms: 1.03, tail: [4]float64{1, 0.2, 0.03, 0.0025}, p: 1}

// thetaRSE is the standard error of counting n items with nominal size k and sampling p.
func thetaRSE(k float64, p float64, n float64) float64 {
	v := (1 - p) / (p * n)
	if n*p > k*0.9 {
		v += 1 / (k - 1)
	}
	return math.Sqrt(v)
}

func dcStats(p *dcPlan, what string, rse func(n int) float64) []*dcStat {
	var out []*dcStat
	for _, m := range p.marks {
		out = append(out, &dcStat{what: what, truth: float64(m), rse: rse(m)})
	}
	return out
}

type dcThetaLike interface {
	dcEst
	NumRetained() uint32
	Theta() float64
	IsEstimationMode() bool
}

func dcTheta(s *Sim) {
	lgK := 5 + s.Pick(4, 4, 3, 2, 1)
	k := float64(int(1) << lgK)
	pl := drawDCPlan(s, lgK, 60<<lgK, 500000)
	p := float32(1)
	if s.Bool(1, 3) {
		p = float32(1+s.Choose(999)) / 1000
	}
	word := s.Word()
	uk := 5 + s.Choose(lgK-4+1)
	name := fmt.Sprintf("theta lgK=%d p=%v type=%s", lgK, p, pl.typ)
	s.Logf("%s union lgK=%d plan %+v", name, uk, *pl)
	s.Step("distinct theta")
	one := dcStats(pl, "one sketch", func(n int) float64 { return thetaRSE(k, float64(p), float64(n)) })
	trim := &dcStat{what: "trimmed", truth: float64(pl.n), rse: thetaRSE(k, float64(p), float64(pl.n))}
	un := &dcStat{what: fmt.Sprintf("union of %d parts with lgK=%d", pl.parts, uk), truth: float64(pl.n), rse: thetaRSE(math.Min(k, math.Exp2(float64(uk))), float64(p), float64(pl.n))}
	inter := &dcStat{what: "intersection", truth: float64(pl.share), rse: math.Inf(1)}
	diff := &dcStat{what: "difference", rse: math.Inf(1)}
	mk := func() *theta.QuickSelectUpdateSketch {
		sk, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(uint8(lgK)), theta.WithUpdateSketchP(p))
		s.Must(err, "theta-new")
		return sk
	}
	feed := func(sk *theta.QuickSelectUpdateSketch, id uint64) {
		err := thetaFeed(sk, pl.typ, id)
		if err != nil && err != theta.ErrDuplicateKey && err != theta.ErrHashExceedsTheta {
			s.Fail("theta-update-error", "%v", err)
		}
	}
	lim := dcThetaLimits
	lim.p = float64(p)
	pl.faults(s, false)
	for t := 0; t < pl.T; t++ {
		s.ops += int64(pl.n)
		sk := mk()
		pl.feed(func(i int) { feed(sk, dcItem(word, t, i)) }, nil, nil, func(m int) { one[m].add(dcLook(s, sk)) })
		sk.Trim()
		trim.add(dcLook(s, sk))
		u, err := theta.NewUnion(theta.WithUnionLgK(uint8(uk)))
		s.Must(err, "theta-new-union")
		var first, second theta.Sketch
		for _, j := range pl.order {
			sk := mk()
			pl.partItems(j, func(i int) { feed(sk, dcItem(word, t, i)) })
			var in theta.Sketch = sk
			if pl.wire {
				b, err := sk.Compact(j&1 == 0).MarshalBinary()
				s.Must(err, "theta-encode")
				in, err = theta.Decode(b, theta.DefaultSeed)
				s.Must(err, "theta-decode")
			}
			s.Must(u.Update(in), "theta-union-update")
			if j == 0 {
				first = in
			} else if j == 1 {
				second = in
			}
		}
		res, err := u.Result(t&1 == 0)
		s.Must(err, "theta-union-result")
		un.add(dcLook(s, res))
		if second != nil {
			x := theta.NewIntersection()
			s.Must(x.Update(first), "theta-intersect")
			s.Must(x.Update(second), "theta-intersect")
			r, err := x.Result(true)
			s.Must(err, "theta-intersect")
			inter.add(dcLook(s, r))
			f0, t0 := pl.part(0)
			d, err := theta.ANotB(first, second, theta.DefaultSeed, true)
			s.Must(err, "theta-anotb")
			diff.truth = float64(t0 - f0)
			diff.add(dcLook(s, d))
		}
	}
	for _, d := range append(one, trim, un, inter, diff) {
		if math.IsInf(d.rse, 1) {
			if d.n == 0 || d.truth < 1 {
				continue
			}
			d.rse = thetaRSE(k, float64(p), d.truth) + 1/math.Sqrt(k)*math.Sqrt(2*float64(pl.n)/d.truth)
		}
		d.check(s, lim, name)
	}
	s.State(90, uint64(lgK), uint64(pl.n), uint64(pl.parts))
}

func dcTuple(s *Sim) {
	lgK := 5 + s.Pick(4, 4, 3)
	k := float64(int(1) << lgK)
	pl := drawDCPlan(s, lgK, 40<<lgK, 250000)
	p := float32(1)
	if s.Bool(1, 3) {
		p = float32(1+s.Choose(999)) / 1000
	}
	word := s.Word()
	uk := 5 + s.Choose(lgK-4+1)
	name := fmt.Sprintf("tuple lgK=%d p=%v type=%s", lgK, p, pl.typ)
	s.Logf("%s union lgK=%d plan %+v", name, uk, *pl)
	s.Step("distinct tuple")
	one := dcStats(pl, "one sketch", func(n int) float64 { return thetaRSE(k, float64(p), float64(n)) })
	un := &dcStat{what: fmt.Sprintf("union of %d parts with lgK=%d", pl.parts, uk), truth: float64(pl.n), rse: thetaRSE(math.Min(k, math.Exp2(float64(uk))), float64(p), float64(pl.n))}
	feed := func(sk *tuple.ArrayOfNumbersUpdateSketch[int64], id uint64) {
		s.Must(tupErrOK(tupFeed[[]int64](sk, pl.typ, id, []int64{1})), "tuple-update")
	}
	mk := func() *tuple.ArrayOfNumbersUpdateSketch[int64] {
		sk, err := tuple.NewArrayOfNumbersUpdateSketch[int64](1, tuple.WithUpdateSketchLgK(uint8(lgK)), tuple.WithUpdateSketchP(p))
		s.Must(err, "tuple-new")
		return sk
	}
	lim := dcThetaLimits
	lim.p = float64(p)
	pl.faults(s, false)
	for t := 0; t < pl.T; t++ {
		s.ops += int64(pl.n)
		sk := mk()
		pl.feed(func(i int) { feed(sk, dcItem(word, t, i)) }, nil, nil, func(m int) { one[m].add(dcLook(s, sk)) })
		u, err := tuple.NewArrayOfNumbersSketchUnion[int64](&genPolicy[*tuple.ArrayOfNumbersSummary[int64]]{func(a, b *tuple.ArrayOfNumbersSummary[int64]) {}}, 1, tuple.WithUnionLgK(uint8(uk)))
		s.Must(err, "tuple-new-union")
		for _, j := range pl.order {
			sk := mk()
			pl.partItems(j, func(i int) { feed(sk, dcItem(word, t, i)) })
			s.Must(u.Update(sk), "tuple-union-update")
		}
		res, err := u.Result(t&1 == 0)
		s.Must(err, "tuple-union-result")
		un.add(dcLook(s, res))
	}
	for _, d := range append(one, un) {
		d.check(s, lim, name)
	}
	s.State(91, uint64(lgK), uint64(pl.n), uint64(pl.parts))
}

// ---- hll ----

type hllEst struct {
	s *Sim
	h hllAny
}

func (h hllEst) Estimate() float64 {
	e, err := h.h.GetEstimate()
	h.s.Must(err, "hll-estimate")
	return e
}
func (h hllEst) LowerBound(n uint8) (float64, error) { return h.h.GetLowerBound(int(n)) }
func (h hllEst) UpperBound(n uint8) (float64, error) { return h.h.GetUpperBound(int(n)) }

func dcHLLLimits(lgK int) dcLimits {
	if lgK <= 5 {
		return dcLimits{bias: 0.1, rms: 1.15, tail: [4]float64{1, 0.19, 0.045, 0.006}, p: 1}
	}
	return dcLimits{bias: 0.05, rms: 1.06, tail: [4]float64{1, 0.18, 0.035, 0.004}, p: 1}
}

func dcHLL(s *Sim) {
	lgK := 4 + s.Choose(9)
	k := math.Exp2(float64(lgK))
	pl := drawDCPlan(s, lgK, 200<<lgK, 600000)
	word := s.Word()
	uk := lgK
	if s.Choose(2) == 0 {
		uk = 4 + s.Choose(lgK-4+1)
	}
	typ := hll.TgtHllType(s.Choose(3))
	name := fmt.Sprintf("hll%d lgK=%d", 4+2*int(typ), lgK)
	s.Logf("%s union lgK=%d plan %+v", name, uk, *pl)
	s.Step("distinct hll")
	hip := func(n int) float64 { return 0.8326 / math.Sqrt(k) }
	one := dcStats(pl, "one sketch", hip)
	comp := dcStats(pl, "composite", func(n int) float64 { return 1.0390 / math.Sqrt(k) })
	un := &dcStat{what: fmt.Sprintf("union of %d parts with lgK=%d", pl.parts, uk), truth: float64(pl.n), rse: 1.0390 / math.Sqrt(math.Min(k, math.Exp2(float64(uk))))}
	mk := func() hll.HllSketch {
		sk, err := hll.NewHllSketch(lgK, typ)
		s.Must(err, "hll-new")
		return sk
	}
	feed := func(sk hll.HllSketch, id uint64) { s.Must(hllFeed(sk, pl.typ, id), "hll-update") }
	wire := func(sk hll.HllSketch, t int) []byte {
		var b []byte
		var err error
		if t&1 == 0 {
			b, err = sk.ToCompactSlice()
		} else {
			b, err = sk.ToUpdatableSlice()
		}
		s.Must(err, "hll-encode")
		return b
	}
	unwire := func(b []byte) hll.HllSketch {
		sk, err := hll.NewHllSketchFromSlice(b, true)
		s.Must(err, "hll-decode")
		return sk
	}
	pl.faults(s, true)
	for t := 0; t < pl.T; t++ {
		s.ops += int64(pl.n)
		sk := mk()
		var img []byte
		pl.feed(func(i int) { feed(sk, dcItem(word, t, i)) },
			func() { img = wire(sk, t) },
			func() { sk = unwire(img) },
			func(m int) {
				one[m].add(dcLook(s, hllEst{s, sk}))
				c, err := sk.GetCompositeEstimate()
				s.Must(err, "hll-composite")
				comp[m].add(dcObs{est: c, ub: [4]float64{0, c * 100, c * 100, c * 100}})
			})
		u, err := hll.NewUnion(uk)
		s.Must(err, "hll-new-union")
		for _, j := range pl.order {
			sk := mk()
			pl.partItems(j, func(i int) { feed(sk, dcItem(word, t, i)) })
			if pl.wire {
				sk = unwire(wire(sk, t+j))
			}
			s.Must(u.UpdateSketch(sk), "hll-union-update")
		}
		un.add(dcLook(s, hllEst{s, u}))
	}
	for _, d := range append(append(one, comp...), un) {
		d.check(s, dcHLLLimits(min(lgK, uk)), name)
	}
	s.State(92, uint64(lgK), uint64(pl.n), uint64(pl.parts))
}

// ---- cpc ----

type cpcEst struct{ k cpcAny }

func (c cpcEst) Estimate() float64                   { return c.k.GetEstimate() }
func (c cpcEst) LowerBound(n uint8) (float64, error) { return c.k.GetLowerBound(int(n)), nil }
func (c cpcEst) UpperBound(n uint8) (float64, error) { return c.k.GetUpperBound(int(n)), nil }

func dcCPCLimits(lgK int) dcLimits {
	if lgK <= 5 {
		return dcLimits{bias: 0.15, rms: 1.06, tail: [4]float64{1, 0.18, 0.035, 0.004}, p: 1}
	}
	return dcLimits{bias: 0.06, rms: 1.03, tail: [4]float64{1, 0.17, 0.03, 0.003}, p: 1}
}

func dcCPC(s *Sim) {
	lgK := 4 + s.Choose(8)
	k := math.Exp2(float64(lgK))
	pl := drawDCPlan(s, lgK, 100<<lgK, 400000)
	word := s.Word()
	uk := lgK
	if s.Choose(2) == 0 {
		uk = 4 + s.Choose(lgK-4+1)
	}
	name := fmt.Sprintf("cpc lgK=%d", lgK)
	s.Logf("%s union lgK=%d plan %+v", name, uk, *pl)
	s.Step("distinct cpc")
	one := dcStats(pl, "one sketch", func(n int) float64 { return 0.5887 / math.Sqrt(k) })
	un := &dcStat{what: fmt.Sprintf("union of %d parts with lgK=%d", pl.parts, uk), truth: float64(pl.n), rse: 0.6931 / math.Sqrt(math.Min(k, math.Exp2(float64(uk))))}
	mk := func() *cpc.CpcSketch {
		sk, err := cpc.NewCpcSketchWithDefault(lgK)
		s.Must(err, "cpc-new")
		return sk
	}
	feed := func(sk *cpc.CpcSketch, id uint64) { s.Must(cpcFeed(sk, pl.typ, id, 9001), "cpc-update") }
	wire := func(sk *cpc.CpcSketch) []byte {
		b, err := sk.ToCompactSlice()
		s.Must(err, "cpc-encode")
		return b
	}
	unwire := func(b []byte) *cpc.CpcSketch {
		sk, err := cpc.NewCpcSketchFromSliceWithDefault(b)
		s.Must(err, "cpc-decode")
		return sk
	}
	pl.faults(s, true)
	for t := 0; t < pl.T; t++ {
		s.ops += int64(pl.n)
		sk := mk()
		var img []byte
		pl.feed(func(i int) { feed(sk, dcItem(word, t, i)) },
			func() { img = wire(sk) },
			func() { sk = unwire(img) },
			func(m int) { one[m].add(dcLook(s, cpcEst{sk})) })
		u, err := cpc.NewCpcUnionSketchWithDefault(uk)
		s.Must(err, "cpc-new-union")
		for _, j := range pl.order {
			sk := mk()
			pl.partItems(j, func(i int) { feed(sk, dcItem(word, t, i)) })
			if pl.wire {
				sk = unwire(wire(sk))
			}
			s.Must(u.Update(sk), "cpc-union-update")
		}
		r, err := u.GetResult()
		s.Must(err, "cpc-result")
		un.add(dcLook(s, cpcEst{r}))
	}
	for _, d := range append(one, un) {
		d.check(s, dcCPCLimits(min(lgK, uk)), name)
	}
	s.State(93, uint64(lgK), uint64(pl.n), uint64(pl.parts))
}

func init() {
	register(&propDef{ID: "D06", Quick: 2000, Thorough: 60000,
		Scenarios: []scenarioDef{{"theta-error", 4, dcTheta}, {"tuple-error", 2, dcTuple}, {"hll-error", 6, dcHLL}, {"cpc-error", 5, dcCPC}, {"similarity-error", 3, dcSimilar}, {"large-error", 3, dcBig}},
		Rule:      "One history over many simulated streams: bias, spread and coverage of the estimates.",
		Real:      []string{"theta", "tuple", "hll", "cpc"},
		Stub:      []string{"the streams (simulated)"},
	})
}

// ---- similarity ----

// dcSimilar looks at the Jaccard index of two sets over many pairs of simulated streams:
// its estimate is unbiased and its bounds miss about as often as two deviations do.
func dcSimilar(s *Sim) {
	tup := s.Choose(3) == 0
	p := float32(1)
	if s.Bool(1, 3) {
		p = float32(100+s.Choose(900)) / 1000
	}
	lgA := 5 + s.Choose(4)
	lgB := lgA
	if s.Choose(3) == 0 {
		lgB = 5 + s.Choose(4)
	}
	k := math.Exp2(float64(min(lgA, lgB)))
	union := max(4, int(k*math.Exp2(-2+float64(s.Choose(80))*0.08)))
	share := s.Choose(union + 1)
	onlyA := s.Choose(union - share + 1)
	nA, nB := share+onlyA, union-onlyA
	if nA == 0 || nB == 0 {
		return
	}
	wire := s.Bool(1, 3)
	typ := []valType{vU64, vI64, vStr}[s.Choose(3)]
	T := min(2000, 600000/(nA+nB+200))
	word := s.Word()
	truth := float64(share) / float64(union)
	name := fmt.Sprintf("similarity tuple=%v lgK=%d,%d p=%v of %d and %d items, %d shared", tup, lgA, lgB, p, nA, nB, share)
	s.Logf("%s wire=%v type=%s T=%d", name, wire, typ, T)
	s.Step("similarity")
	if wire {
		s.Fault("wire-encoding")
	}
	var lo, hi, n, same int
	var sum, sq float64
	for t := 0; t < T; t++ {
		s.ops += int64(nA + nB)
		var l, e, u float64
		if tup {
			mk := func(lg, from, to int) tuple.Sketch[*tuple.ArrayOfNumbersSummary[int64]] {
				sk, err := tuple.NewArrayOfNumbersUpdateSketch[int64](1, tuple.WithUpdateSketchLgK(uint8(lg)), tuple.WithUpdateSketchP(p))
				s.Must(err, "tuple-new")
				for i := from; i < to; i++ {
					s.Must(tupErrOK(tupFeed[[]int64](sk, typ, dcItem(word, t, i), []int64{1})), "tuple-update")
				}
				return sk
			}
			j, err := tuple.Jaccard[*tuple.ArrayOfNumbersSummary[int64]](mk(lgA, 0, nA), mk(lgB, onlyA, onlyA+nB), &genPolicy[*tuple.ArrayOfNumbersSummary[int64]]{func(a, b *tuple.ArrayOfNumbersSummary[int64]) {}}, theta.DefaultSeed)
			s.Must(err, "tuple-jaccard")
			l, e, u = j.LowerBound, j.Estimate, j.UpperBound
		} else {
			mk := func(lg, from, to int) theta.Sketch {
				sk, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(uint8(lg)), theta.WithUpdateSketchP(p))
				s.Must(err, "theta-new")
				for i := from; i < to; i++ {
					if err := thetaFeed(sk, typ, dcItem(word, t, i)); err != nil && err != theta.ErrDuplicateKey && err != theta.ErrHashExceedsTheta {
						s.Fail("theta-update-error", "%v", err)
					}
				}
				if wire {
					b, err := sk.Compact(t&1 == 0).MarshalBinary()
					s.Must(err, "theta-encode")
					d, err := theta.Decode(b, theta.DefaultSeed)
					s.Must(err, "theta-decode")
					return d
				}
				return sk
			}
			a, b := mk(lgA, 0, nA), mk(lgB, onlyA, onlyA+nB)
			j, err := theta.Jaccard(a, b, theta.DefaultSeed)
			s.Must(err, "theta-jaccard")
			l, e, u = j.LowerBound, j.Estimate, j.UpperBound
			if t%16 == 0 {
				th := []float64{l, e, u, truth}[t/16%4]
				sim, err := theta.IsSimilar(a, b, th, theta.DefaultSeed)
				s.Must(err, "theta-similar")
				dis, err := theta.IsDissimilar(a, b, th, theta.DefaultSeed)
				s.Must(err, "theta-similar")
				s.Assert(sim == (l >= th) && dis == (u <= th), "distinct-similar", "%s: threshold %v and %+v: IsSimilar %v IsDissimilar %v", name, th, j, sim, dis)
			}
		}
		if l == 1 && truth < 1 {
			same++ // two sketches of the same sample are taken for the same set
			continue
		}
		n++
		sum += e - truth
		sq += (e - truth) * (e - truth)
		if truth < l-1e-9 {
			lo++
		}
		if truth > u+1e-9 {
			hi++
		}
	}
	if n == 0 {
		return
	}
	N := float64(n)
	if dcDebug {
		fmt.Fprintf(dcLog(), "DC similarity tup=%v lg=%d,%d p=%v j=%.3f union/k=%.2f share=%d T=%d same=%d bias=%.4f+-%.4f below=%.4f above=%.4f\n", tup, lgA, lgB, p, truth, float64(union)/k, share, n, same, sum/N, math.Sqrt(sq/N)/math.Sqrt(N), float64(lo)/N, float64(hi)/N)
	}
	if eff := math.Min(float64(union)*float64(p), k); same == 0 && eff >= 25 {
		sd := math.Max(math.Sqrt(sq/N), 0.5*math.Sqrt(truth*(1-truth)/eff))
		s.Assert(math.Abs(sum/N) <= 7*sd/math.Sqrt(N)+10/(N*eff), "distinct-similarity-bias", "%s: the similarity %v is estimated %v too high on average over %d pairs", name, truth, sum/N, n)
		s.Assert(!tooMany(lo, n, 0.03) && !tooMany(hi, n, 0.03), "distinct-similarity-bounds", "%s: the similarity %v was below its bounds in %d and above in %d of %d pairs", name, truth, lo, hi, n)
		s.checks++
	}
	s.State(94, uint64(lgA), uint64(lgB), uint64(union), uint64(share))
}
