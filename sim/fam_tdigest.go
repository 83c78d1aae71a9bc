package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"slices"
	"strings"

	"github.com/apache/datasketches-go/tdigest"
)

// ---- oracle ----

// tdMap maps workload values monotonically to finite numbers.
type tdMap struct {
	name string
	f    func(v int64) float64
	f32  bool // every image is a float32
}

var tdMaps = []tdMap{
	{"linear", func(v int64) float64 { return float64(v) - 1<<20 }, true},
	{"huge", func(v int64) float64 { return (float64(v) - 1<<22) * 1e280 }, false},
	{"subnormal", func(v int64) float64 { return math.Float64frombits(uint64(v) * 64) }, false},
	{"fourth power", func(v int64) float64 {
		x := float64(v) - 1<<20
		return x * math.Abs(x) * x * x
	}, false},
	{"negative", func(v int64) float64 { return float64(v) - 1<<24 }, true},
	{"fine", func(v int64) float64 { return 1 + float64(v)*math.Pow(2, -40) }, false},
}

type tdModel struct {
	bag     Bag
	k       int
	minK    int
	foreign bool // holds clusters the simulator built
	depth   int  // merges behind it
	copies  int  // merges with copies of itself
}

func (m *tdModel) clone() *tdModel { c := *m; return &c }

// tdSpan is how much of the rank scale one cluster may cover, relative to q(1-q).
func tdSpan(k, n float64) float64 { return (4*math.Log(n/(2*k)) + 24) / (2 * k) }

func tdExact(k int, n int64) bool { return float64(n)*tdSpan(float64(k), float64(n))/4 < 2 }

func checkTD(s *Sim, mp tdMap, d *tdigest.Double, m *tdModel, at string) {
	ivals := bagValues(m.bag, false)
	n := ivals.N()
	N := float64(n)
	s.Assert(d.TotalWeight() == uint64(n), "tdigest-weight", "%s: total weight %d want %d", at, d.TotalWeight(), n)
	s.Assert(d.IsEmpty() == (n == 0), "tdigest-empty", "%s: empty=%v with %d values", at, d.IsEmpty(), n)
	s.Assert(int(d.K()) == m.k, "tdigest-k", "%s: k %d want %d", at, d.K(), m.k)
	if n == 0 {
		_, e1 := d.MinValue()
		_, e2 := d.MaxValue()
		_, e3 := d.Rank(0)
		_, e4 := d.Quantile(0.5)
		_, e5 := d.CDF([]float64{1})
		s.Assert(e1 != nil && e2 != nil && e3 != nil && e4 != nil && e5 != nil, "tdigest-empty-answers", "%s: an empty digest answered", at)
		return
	}
	mn, err := d.MinValue()
	s.Must(err, "tdigest-min")
	mx, err := d.MaxValue()
	s.Must(err, "tdigest-max")
	wmn, wmx := mp.f(ivals.min()), mp.f(ivals.max())
	s.Assert(mn == wmn && mx == wmx, "tdigest-extremes", "%s: min,max %v,%v want %v,%v", at, mn, mx, wmn, wmx)
	for _, wb := range []bool{true, false} {
		sz := d.SerializedSizeBytes(wb)
		b, err := tdigest.EncodeDouble(d, wb)
		s.Must(err, "tdigest-encode")
		s.Assert(len(b) == sz, "tdigest-size", "%s: serialized size %d, image of %d bytes (buffer %v)", at, sz, len(b), wb)
		if s.Choose(2) == 0 {
			break // leave the buffer alone
		}
	}
	// ranks
	sp := splitValues(s, ivals.v, 12)
	pts := make([]float64, len(sp))
	for i, v := range sp {
		pts[i] = mp.f(v)
	}
	exact := !m.foreign && tdExact(m.minK, n)
	prev := 0.0
	var ranks []float64
	for i, v := range sp {
		r, err := d.Rank(pts[i])
		s.Must(err, "tdigest-rank")
		s.Assert(r >= 0 && r <= 1, "tdigest-rank-range", "%s: rank(%v)=%v", at, pts[i], r)
		s.Assert(r >= prev-1e-12, "tdigest-rank-monotone", "%s: rank falls from %v to %v at %v", at, prev, r, pts[i])
		prev = r
		ranks = append(ranks, r)
		checkTDRank(s, m, ivals, v, r, exact, at)
	}
	// the ends
	for _, v := range []int64{ivals.min(), ivals.max(), ivals.at(int64(s.Choose(int(min(n, 20))))), ivals.at(n - 1 - int64(s.Choose(int(min(n, 20)))))} {
		r, err := d.Rank(mp.f(v))
		s.Must(err, "tdigest-rank")
		checkTDRank(s, m, ivals, v, r, exact, at)
	}
	if ivals.min() > 0 {
		r, err := d.Rank(mp.f(ivals.min() - 1))
		s.Must(err, "tdigest-rank")
		s.Assert(r == 0, "tdigest-rank-ends", "%s: rank below the minimum is %v", at, r)
	}
	r, err := d.Rank(mp.f(ivals.max() + 1))
	s.Must(err, "tdigest-rank")
	s.Assert(r == 1, "tdigest-rank-ends", "%s: rank above the maximum is %v", at, r)
	// CDF and PMF
	cdf, err := d.CDF(pts)
	s.Must(err, "tdigest-cdf")
	pmf, err := d.PMF(pts)
	s.Must(err, "tdigest-pmf")
	s.Assert(len(cdf) == len(sp)+1 && len(pmf) == len(sp)+1 && cdf[len(sp)] == 1, "tdigest-cdf", "%s: cdf %v", at, cdf)
	sum := 0.0
	for i := range cdf {
		if i < len(sp) {
			s.Assert(cdf[i] == ranks[i], "tdigest-cdf", "%s: cdf %v at a point of rank %v", at, cdf[i], ranks[i])
		}
		sum += pmf[i]
		s.Assert(pmf[i] >= -1e-12 && math.Abs(sum-cdf[i]) < 1e-9, "tdigest-pmf", "%s: pmf %v of cdf %v", at, pmf, cdf)
	}
	// quantiles
	var qr []float64
	for q := 0; q < 8; q++ {
		qr = append(qr, drawRank(s, n))
	}
	qr = append(qr, 0, 1)
	slices.Sort(qr)
	tol := 1e-14*math.Max(math.Abs(mn), math.Abs(mx)) + 5e-323
	pq := mn
	for _, r := range qr {
		q, err := d.Quantile(r)
		s.Must(err, "tdigest-quantile")
		s.Assert(q >= mn-tol && q <= mx+tol, "tdigest-quantile-range", "%s: quantile(%v)=%v outside %v..%v", at, r, q, mn, mx)
		s.Assert(q >= pq-tol, "tdigest-quantile-monotone", "%s: quantile falls from %v to %v at %v", at, pq, q, r)
		pq = q
		if !m.foreign {
			s.Assert(r != 0 || q == mn, "tdigest-quantile-ends", "%s: quantile(0)=%v, minimum %v", at, q, mn)
			s.Assert(r != 1 || q == mx, "tdigest-quantile-ends", "%s: quantile(1)=%v, maximum %v", at, q, mx)
		}
		if m.foreign || q < mn || q > mx {
			continue
		}
		// the value must sit about where it was asked for
		lo := float64(countF(mp, ivals, q-tol, false)) / N
		hi := float64(countF(mp, ivals, q+tol, true)) / N
		e := math.Max(lo-r, r-hi)
		b := tdTolBetween(m, n, lo, hi, r)
		if exact {
			b = 1/N + 1e-9
		} else if !m.foreign {
			noteMax(s, "tdigest quantile error / cluster span", (e-1.5/N)/(b/tdSlack))
		}
		s.Assert(e <= b+1.5/N, "tdigest-quantile-error", "%s: quantile(%v)=%v, whose true rank is %v..%v (k %d, n %d)", at, r, q, lo, hi, m.minK, n)
	}
	s.State(44, uint64(m.k), uint64(n/16), uint64(m.depth))
}

// countF counts the values below x, or at most x.
func countF(mp tdMap, iv mset, x float64, incl bool) int64 {
	lo, hi := 0, len(iv.v)
	for lo < hi {
		mid := (lo + hi) / 2
		y := mp.f(iv.v[mid])
		if y < x || incl && y == x {
			lo = mid + 1
		} else {
			hi = mid
		}
	}
	return iv.before(lo)
}

const tdSlack = 4.0

// tdTol is the rank error allowed at rank q: a few cluster spans.
func tdTol(m *tdModel, n int64, q float64) float64 {
	N := float64(n)
	sp := tdSpan(float64(m.minK), N)
	return tdSlack * sp * q * (1 - q)
}

// tdTolBetween is the error allowed between true rank lo..hi and answer r.
func tdTolBetween(m *tdModel, n int64, lo, hi, r float64) float64 {
	b := max(tdTol(m, n, lo), tdTol(m, n, hi), tdTol(m, n, r))
	if m.copies > 0 {
		// the clusters of a very heavy value mix with their neighbours from
		// copy to copy, so it blurs by a cluster or so each time
		if min(lo, r) < 0.5 && max(hi, r) > 0.5 {
			b = max(b, tdTol(m, n, 0.5))
		}
		b *= 1 + float64(m.copies)
	}
	return b
}

func checkTDRank(s *Sim, m *tdModel, iv mset, v int64, r float64, exact bool, at string) {
	n := iv.N()
	N := float64(n)
	lo, hi := float64(iv.below(v, false))/N, float64(iv.below(v, true))/N
	if m.foreign {
		return
	}
	if v == iv.min() || v == iv.max() {
		s.Assert(r >= lo-1e-9 && r <= hi+1e-9, "tdigest-rank-extreme", "%s: rank of an extreme %d is %v, true %v..%v", at, v, r, lo, hi)
	}
	if exact {
		if hi > lo {
			s.Assert(math.Abs(r-(lo+hi)/2) < 1e-9, "tdigest-exact", "%s: rank of %d is %v, with every value held apart it is %v", at, v, r, (lo+hi)/2)
		} else if lo > 0 && lo < 1 {
			s.Assert(math.Abs(r-lo) <= 0.5/N+1e-9, "tdigest-exact", "%s: rank of %d is %v, with every value held apart about %v", at, v, r, lo)
		}
		return
	}
	e := math.Max(lo-r, r-hi)
	b := tdTolBetween(m, n, lo, hi, r)
	noteMax(s, "tdigest rank error / cluster span", (e-1.5/N)/(math.Max(b, 1e-300)/tdSlack))
	s.Assert(e <= b+1.5/N, "tdigest-rank-error", "%s: rank of %d is %v, true %v..%v (k %d, n %d)", at, v, r, lo, hi, m.minK, n)
}

// ---- cluster family ----

type tdFam struct {
	k    int
	mixK bool
	mp   tdMap
	st   *stream
	maxN int
}

func drawTDK(s *Sim) int {
	switch s.Pick(3, 2, 2, 1) {
	case 0:
		return 10 + s.Choose(20)
	case 1:
		return 100
	case 2:
		return 10 + s.Choose(300)
	}
	return []int{10, 29, 30, 31, 200, 1000, 65535}[s.Choose(7)]
}

func newTDFam(s *Sim) Family {
	f := &tdFam{k: drawTDK(s), mixK: s.Bool(1, 3), mp: tdMaps[s.Choose(len(tdMaps))], st: newStream(s)}
	f.maxN = min(f.k*60, 5000)
	if s.big {
		f.maxN = 50000
	}
	return f
}

func (f *tdFam) Name() string            { return "tdigest" }
func (f *tdFam) Idempotent() bool        { return false }
func (f *tdFam) NextBatch(s *Sim) *Batch { return f.st.NextValues(f.maxN) }

type tdRep struct {
	f *tdFam
	d *tdigest.Double
	m *tdModel
}

func (f *tdFam) new(s *Sim) Replica {
	k := f.k
	if f.mixK && s.Choose(2) == 1 {
		k = drawTDK(s)
	}
	d, err := tdigest.NewDouble(uint16(k))
	s.Must(err, "tdigest-new")
	return &tdRep{f: f, d: d, m: &tdModel{k: k, minK: k}}
}

func (f *tdFam) NewLeaf(s *Sim) Replica { return f.new(s) }
func (f *tdFam) NewAgg(s *Sim) Replica  { return f.new(s) }

func tdDecStream(r io.Reader) (*tdigest.Double, error) {
	dec := tdigest.NewDoubleDecoder()
	return dec.Decode(r)
}

func (f *tdFam) DecodeAny(enc string, b []byte) error {
	if enc == "tdigest-stream" {
		_, err := tdDecStream(bytes.NewReader(b))
		return err
	}
	_, err := tdigest.DecodeDouble(b)
	return err
}

func (r *tdRep) Kind() string { return "tdigest" }
func (r *tdRep) Bag() Bag     { return r.m.bag }

func (r *tdRep) Update(s *Sim, b *Batch) {
	at := s.Choose(64)
	for i, v := range b.IDs {
		s.Must(r.d.Update(r.f.mp.f(int64(v))), "tdigest-update")
		if i == at {
			for _, x := range []float64{math.NaN(), math.Inf(1), math.Inf(-1)} {
				s.Assert(r.d.Update(x) != nil, "tdigest-nan", "a %v was accepted", x)
			}
		}
	}
	r.m.bag = r.m.bag.Add(b)
}

func (r *tdRep) Encode(s *Sim) *Image {
	wb := s.Choose(2) == 0
	img := &Image{Enc: "tdigest", M: r.m.clone()}
	var err error
	if s.Choose(2) == 0 {
		img.Bytes, err = tdigest.EncodeDouble(r.d, wb)
	} else {
		img.Enc = "tdigest-stream"
		var w bytes.Buffer
		e := tdigest.NewDoubleEncoder(&w, wb)
		err = e.Encode(r.d)
		img.Bytes = w.Bytes()
	}
	s.Must(err, "tdigest-encode")
	return img
}

func (r *tdRep) decode(s *Sim, img *Image) *tdRep {
	var d *tdigest.Double
	var err error
	if s.Choose(2) == 0 {
		d, err = tdDecStream(chunked(s, append([]byte(nil), img.Bytes...)))
	} else {
		d, err = tdigest.DecodeDouble(append([]byte(nil), img.Bytes...))
	}
	s.Must(err, "tdigest-decode")
	return &tdRep{f: r.f, d: d, m: img.M.(*tdModel).clone()}
}

func (r *tdRep) Absorb(s *Sim, img *Image) {
	src := r.decode(s, img)
	tdMerge(s, r.d, src.d)
	if s.Choose(2) == 0 {
		checkTD(s, r.f.mp, src.d, src.m, "source after merge")
	}
	r.m.absorb(src.m)
}

func (m *tdModel) absorb(o *tdModel) {
	if o.bag.N() > 0 {
		m.minK = min(m.minK, o.minK)
		m.foreign = m.foreign || o.foreign
		m.depth = max(m.depth, o.depth+1)
		m.copies = max(m.copies, o.copies)
	}
	m.bag = m.bag.Concat(o.bag)
}

// tdMerge merges, knowing that an empty digest is refused.
func tdMerge(s *Sim, d, src *tdigest.Double) {
	before, dst := src.String(true), d.String(true)
	empty := src.IsEmpty()
	err := d.Merge(src)
	if empty {
		s.Assert(errors.Is(err, tdigest.ErrEmpty), "tdigest-merge-empty", "merging an empty digest: %v", err)
		s.same(dst, d.String(true), "tdigest-merge-empty", "merging an empty digest changed the receiver")
	} else {
		s.Must(err, "tdigest-merge")
	}
	s.same(before, src.String(true), "tdigest-merge-source", "merging changed the source")
}

func (r *tdRep) double(s *Sim, c Replica) {
	src := c.(*tdRep)
	tdMerge(s, r.d, src.d)
	r.m.depth++
	r.m.copies++
	r.m.bag = r.m.bag.Doubled()
}

func (r *tdRep) Restore(s *Sim, img *Image) (Replica, bool) { return r.decode(s, img), true }

func (r *tdRep) Check(s *Sim, at string) { checkTD(s, r.f.mp, r.d, r.m, "tdigest "+at) }

// ---- clusters built elsewhere ----

// tdForeign writes a digest of the given sorted values the way another
// implementation might: contiguous clusters of any size.
func tdForeign(s *Sim, mp tdMap, iv []int64, k int) (b []byte, kind string) {
	n := len(iv)
	type cl struct {
		mean float64
		w    int
	}
	var cs []cl
	nbuf := 0
	kind = []string{"native", "compact double", "compact float"}[s.Choose(3)]
	if kind == "compact float" && !mp.f32 {
		kind = "compact double"
	}
	var buf []float64
	if kind == "native" && s.Choose(2) == 0 {
		nbuf = s.Choose(min(n, 50) + 1)
		if s.Choose(8) == 0 {
			nbuf = n
		}
	}
	// buffered values are taken from anywhere
	in := make([]bool, n)
	for i := 0; i < nbuf; i++ {
		j := s.Choose(n)
		if !in[j] {
			in[j] = true
			buf = append(buf, mp.f(iv[j]))
		}
	}
	var rest []float64
	for i, v := range iv {
		if !in[i] {
			rest = append(rest, mp.f(v))
		}
	}
	big := 1 + s.Size(200)
	for i := 0; i < len(rest); {
		w := min(1+s.Choose(big), len(rest)-i)
		if len(cs) >= 300 {
			w = len(rest) - i
		}
		mean := rest[i]
		for j := 1; j < w; j++ {
			mean += (rest[i+j] - mean) / float64(j+1)
		}
		mean = math.Min(math.Max(mean, rest[i]), rest[i+w-1])
		if kind == "compact float" {
			mean = float64(float32(mean))
		}
		cs = append(cs, cl{mean, w})
		i += w
	}
	mn, mx := mp.f(iv[0]), mp.f(iv[n-1])
	var o bytes.Buffer
	switch kind {
	case "native":
		if n == 1 && s.Choose(2) == 0 {
			o.Write([]byte{1, 1, 20, byte(k), byte(k >> 8), 2 | byte(s.Choose(2))<<2, 0, 0})
			binary.Write(&o, binary.LittleEndian, mn)
			break
		}
		o.Write([]byte{2, 1, 20, byte(k), byte(k >> 8), byte(s.Choose(2)) << 2, 0, 0})
		binary.Write(&o, binary.LittleEndian, []uint32{uint32(len(cs)), uint32(len(buf))})
		binary.Write(&o, binary.LittleEndian, []float64{mn, mx})
		for _, c := range cs {
			binary.Write(&o, binary.LittleEndian, c.mean)
			binary.Write(&o, binary.LittleEndian, uint64(c.w))
		}
		binary.Write(&o, binary.LittleEndian, buf)
	case "compact double":
		o.Write([]byte{0, 0, 0, 1})
		binary.Write(&o, binary.BigEndian, []float64{mn, mx, float64(k)})
		binary.Write(&o, binary.BigEndian, uint32(len(cs)))
		for _, c := range cs {
			binary.Write(&o, binary.BigEndian, []float64{float64(c.w), c.mean})
		}
	case "compact float":
		o.Write([]byte{0, 0, 0, 2})
		binary.Write(&o, binary.BigEndian, []float64{mn, mx})
		binary.Write(&o, binary.BigEndian, float32(k))
		binary.Write(&o, binary.BigEndian, []uint16{uint16(2 * k), uint16(8 * k), uint16(len(cs))})
		for _, c := range cs {
			binary.Write(&o, binary.BigEndian, []float32{float32(c.w), float32(c.mean)})
		}
	}
	return o.Bytes(), fmt.Sprintf("%s of %d clusters and %d values", kind, len(cs), len(buf))
}

func tdForeignScenario(s *Sim) {
	f := newTDFam(s).(*tdFam)
	f.maxN = min(f.maxN, 1500)
	agg := f.new(s).(*tdRep)
	n := 1 + s.Choose(5)
	for i := 0; i < n; i++ {
		b := f.NextBatch(s)
		if s.Choose(4) == 0 || len(b.IDs) == 0 {
			agg.Update(s, b)
			continue
		}
		k := drawTDK(s)
		img, kind := tdForeign(s, f.mp, bagValues(Bag{}.Add(b), false).v, k)
		s.Fault("foreign-image")
		s.Logf("foreign %s", kind)
		m := &tdModel{bag: Bag{}.Add(b), k: k, minK: k, foreign: true}
		src := agg.decode(s, &Image{Enc: "tdigest", Bytes: img, M: m})
		if s.Choose(2) == 0 {
			src.Check(s, "foreign image ("+kind+")")
		}
		switch s.Choose(3) {
		case 0: // carry on with it
			old := agg
			agg = src
			tdMerge(s, agg.d, old.d)
			agg.m.absorb(old.m)
		case 1:
			img2 := src.Encode(s)
			src = agg.decode(s, img2)
			fallthrough
		case 2:
			tdMerge(s, agg.d, src.d)
			agg.m.absorb(src.m)
		}
		s.ops++
		agg.Check(s, "with foreign images")
	}
	agg.Check(s, "at the end")
}

// tdAccuracyScenario: evenly spread values, where clusters describe the stream
// well, split and merged in every way.
func tdAccuracyScenario(s *Sim) {
	k := []int{10, 20, 29, 30, 50, 100, 200}[s.Choose(7)]
	n := k * (5 + s.Size(200))
	parts := 1 + s.Choose(6)
	order := s.Choose(4)
	p := prng{s.Word()}
	vals := make([]int64, n)
	for i := range vals {
		vals[i] = int64(i)
	}
	switch order {
	case 1:
		slices.Reverse(vals)
	case 2:
		for i := n - 1; i > 0; i-- {
			j := int(p.next() % uint64(i+1))
			vals[i], vals[j] = vals[j], vals[i]
		}
	case 3: // dealt out
		var v []int64
		for i := 0; i < parts; i++ {
			for j := i; j < n; j += parts {
				v = append(v, int64(j))
			}
		}
		vals = v
	}
	s.Logf("tdigest accuracy k=%d n=%d parts=%d order=%d", k, n, parts, order)
	var ds []*tdigest.Double
	for i := 0; i < parts; i++ {
		d, err := tdigest.NewDouble(uint16(k))
		s.Must(err, "tdigest-new")
		for _, v := range vals[i*n/parts : (i+1)*n/parts] {
			s.Must(d.Update(float64(v)), "tdigest-update")
		}
		ds = append(ds, d)
		s.ops++
	}
	for len(ds) > 1 {
		i := s.Choose(len(ds) - 1)
		tdMerge(s, ds[i], ds[i+1])
		ds = append(ds[:i+1], ds[i+2:]...)
	}
	d := ds[0]
	N := float64(n)
	sp := tdSpan(float64(k), N)
	for i := 0; i < 60; i++ {
		c := s.Choose(n)
		switch s.Choose(3) {
		case 0:
			c = s.Choose(min(n, 50))
		case 1:
			c = n - 1 - s.Choose(min(n, 50))
		}
		q := (float64(c) + 0.5) / N
		r, err := d.Rank(float64(c))
		s.Must(err, "tdigest-rank")
		v, err := d.Quantile(q)
		s.Must(err, "tdigest-quantile")
		b := sp * q * (1 - q)
		noteMax(s, "tdigest even rank error / cluster span x8", 8*(math.Abs(r-q)-0.5/N)/b)
		noteMax(s, "tdigest even quantile error / cluster span x8", 8*(math.Abs((v+0.5)/N-q)-1/N)/b)
		s.Assert(math.Abs(r-q) <= tdEven*b+1/N, "tdigest-even-rank", "k=%d n=%d parts=%d order=%d: rank of item %d of %d is %v", k, n, parts, order, c, n, r)
		s.Assert(math.Abs((v+0.5)/N-q) <= tdEven*b+1.5/N, "tdigest-even-quantile", "k=%d n=%d parts=%d order=%d: quantile %v is item %v of %d", k, n, parts, order, q, v, n)
	}
	s.State(45, uint64(k), uint64(n), uint64(parts), uint64(order))
}

const tdEven = 0.6

// ---- objects for the cross-cutting scenarios ----

type tdCfg struct {
	k    int
	mp   tdMap
	max  int
	deep bool // printing queries the digest itself, which flushes its buffer
}

func newTDObj(s *Sim) *Obj {
	c := &tdCfg{k: min(drawTDK(s), 1000), mp: tdMaps[s.Choose(len(tdMaps))], deep: s.Choose(2) == 0}
	c.max = min(c.k*20, 2000)
	if s.big {
		c.k, c.max = drawTDK(s), 150000
	}
	return c.Fresh()
}

func (c *tdCfg) Fresh() *Obj {
	d, err := tdigest.NewDouble(uint16(c.k))
	if err != nil {
		panic(err)
	}
	return c.obj(d)
}

func (c *tdCfg) print(d *tdigest.Double, p *printer) {
	p.add("n", d.TotalWeight(), d.IsEmpty(), d.K())
	mn, err := d.MinValue()
	mx, err2 := d.MaxValue()
	p.add("minmax", mn, err, mx, err2)
	q := d
	if !c.deep {
		if d.TotalWeight() != 1 { // a single value is saved without saying where it was held
			p.add("s", d.String(true))
		}
		b, err := tdigest.EncodeDouble(d, true)
		p.add("image", err, b)
		if err != nil {
			return
		}
		q, err = tdigest.DecodeDouble(b)
		if err != nil {
			p.add("copy", err)
			return
		}
	}
	pts := []float64{c.mp.f(0), c.mp.f(1000), c.mp.f(1 << 18), c.mp.f(1 << 21), c.mp.f(qMax - 1)}
	for _, x := range pts {
		r, err := q.Rank(x)
		p.add("rank", r, err)
	}
	for _, x := range []float64{0, 0.001, 0.01, 0.25, 0.5, 0.9, 0.999, 1} {
		r, err := q.Quantile(x)
		p.add("quantile", r, err)
	}
	cdf, err := q.CDF(pts)
	p.add("cdf", cdf, err)
	pmf, err := q.PMF(pts)
	p.add("pmf", pmf, err)
	if c.deep {
		p.add("s", d.String(true), d.SerializedSizeBytes(true), d.SerializedSizeBytes(false))
	}
}

func (c *tdCfg) feed(s *Sim) *Mut {
	mx := c.max
	if s.Choose(4) == 0 {
		mx = 3
	}
	b := newStream(s).NextValues(mx)
	return &Mut{Name: fmt.Sprintf("update %v", b), Do: func(o *Obj) error {
		for _, v := range b.IDs {
			if err := o.Live.(*tdigest.Double).Update(c.mp.f(int64(v))); err != nil {
				return err
			}
		}
		return nil
	}}
}

func (c *tdCfg) obj(d *tdigest.Double) *Obj {
	td := func(o *Obj) *tdigest.Double { return o.Live.(*tdigest.Double) }
	o := &Obj{Live: d, Kind: "tdigest", QueriesCompact: true, Limit: &limit{bytes: 1, image: func(o *Obj) (int, int) {
		if b := td(o).SerializedSizeBytes(true); b > 32+(16+4*8)*tdCap(c.k) || !c.deep {
			return b, 32 + (16+4*8)*tdCap(c.k)
		}
		return td(o).SerializedSizeBytes(false), 32 + 16*tdCap(c.k) // without its buffer
	}}}
	o.Print = func(o *Obj, p *printer) { c.print(td(o), p) }
	o.Gen = func(s *Sim) *Mut {
		switch s.Pick(6, 3, 1) {
		case 1:
			c2 := *c
			if s.Choose(2) == 1 {
				c2.k = min(drawTDK(s), 1000)
			}
			src := c2.Fresh()
			for n := s.Choose(4); n > 0; n-- {
				s.Must(apply(s, src, c2.feed(s), s.Word()), "tdigest-update")
			}
			return &Mut{Name: "merge", Srcs: []*Obj{src}, Do: func(o *Obj) error {
				err := td(o).Merge(td(src))
				if errors.Is(err, tdigest.ErrEmpty) && td(src).IsEmpty() {
					return nil
				}
				return err
			}}
		case 2:
			r := float64(s.Choose(100)) / 99
			return &Mut{Name: "quantile", Do: func(o *Obj) error {
				if td(o).IsEmpty() {
					return nil
				}
				_, err := td(o).Quantile(r)
				return err
			}}
		}
		return c.feed(s)
	}
	o.Fresh = func() *Obj { return c.Fresh() }
	dec := func(b []byte) (*Obj, error) {
		n, err := tdigest.DecodeDouble(b)
		if err != nil {
			return nil, err
		}
		return c.obj(n), nil
	}
	decFrom := func(r io.Reader) (*Obj, error) {
		n, err := tdDecStream(r)
		if err != nil {
			return nil, err
		}
		return c.obj(n), nil
	}
	mk := func(name string, wb bool) *Codec {
		return &Codec{Name: name, Wire: "tdigest", Exact: true, Incremental: true, Dec: dec, DecFrom: decFrom,
			Sizes: func(o *Obj) (int, int) { return td(o).SerializedSizeBytes(wb), -1 },
			Enc:   func(o *Obj) ([]byte, error) { return tdigest.EncodeDouble(td(o), wb) },
			EncTo: func(o *Obj, w io.Writer) error {
				e := tdigest.NewDoubleEncoder(w, wb)
				return e.Encode(td(o))
			},
			Later: func(b []byte, o *Obj, p *printer) {
				if len(b) == 16 && !c.deep { // which way the next merge runs is not saved with a single buffered value
					mn, err := td(o).MinValue()
					mx, err2 := td(o).MaxValue()
					p.add("n", td(o).TotalWeight(), mn, err, mx, err2)
					return
				}
				c.print(td(o), p)
			},
		}
	}
	o.Codecs = []*Codec{mk("tdigest-buffer", true)}
	if c.deep {
		o.Codecs = []*Codec{mk("tdigest", false)}
	}
	o.Bad = func(s *Sim) []*Mut { return append(c.bad(), c.poisoned(s), c.poisoned(s)) }
	return o
}

// poisoned offers an image of another implementation or version in which one
// number is none: it must not get into a digest.
func (c *tdCfg) poisoned(s *Sim) *Mut {
	iv := make([]int64, 1+s.Size(40))
	for i := range iv {
		iv[i] = int64(s.Choose(1 << 12))
	}
	slices.Sort(iv)
	b, kind := tdForeign(s, c.mp, iv, c.k)
	inf := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}
	weights := []float64{math.NaN(), math.Inf(1), math.Inf(-1), 0, -1, 0.25, 1e300}
	compressions := []float64{math.NaN(), math.Inf(1), -1, 5, 70000, 1e300}
	type spot struct {
		at   int
		what string
		vals []float64
		raw  []uint64 // a value that is no floating-point number
	}
	var spots []spot
	bo, wide := binary.ByteOrder(binary.BigEndian), true
	switch {
	case b[0] == 0 && b[3] == 1:
		spots = []spot{{4, "minimum", inf, nil}, {12, "maximum", inf, nil}, {20, "compression", compressions, nil}}
		for i := 0; i < u32be(b[28:]); i++ {
			spots = append(spots, spot{32 + 16*i, "weight", weights, nil}, spot{40 + 16*i, "mean", inf, nil})
		}
	case b[0] == 0:
		n := int(binary.BigEndian.Uint16(b[28:]))
		if at := s.Choose(2 + 2*n); at < 2 || n == 0 {
			spots = []spot{{4 + 8*(at&1), []string{"minimum", "maximum"}[at&1], inf, nil}}
			break
		}
		wide = false
		compressions[5] = 1e30
		weights[6] = 1e30
		spots = []spot{{20, "compression", compressions, nil}}
		for i := 0; i < n; i++ {
			spots = append(spots, spot{30 + 8*i, "weight", weights, nil}, spot{34 + 8*i, "mean", inf, nil})
		}
	case b[5]&2 != 0:
		bo = binary.LittleEndian
		spots = []spot{{8, "single value", inf, nil}}
	default:
		bo = binary.LittleEndian
		spots = []spot{{16, "minimum", inf, nil}, {24, "maximum", inf, nil}}
		nc := u32(b[8:])
		for i := 0; i < nc; i++ {
			spots = append(spots, spot{32 + 16*i, "mean", inf, nil}, spot{40 + 16*i, "weight", nil, []uint64{0, 1 << 63, math.MaxUint64}})
		}
		for i := 0; i < u32(b[12:]); i++ {
			spots = append(spots, spot{32 + 16*nc + 8*i, "buffered value", inf, nil})
		}
	}
	at := s.Choose(len(spots))
	if s.Bool(1, 4) {
		at = min(at, 2) // the header's numbers
	}
	sp := spots[at]
	v := any(nil)
	switch {
	case sp.raw != nil:
		x := sp.raw[s.Choose(len(sp.raw))]
		v = x
		bo.PutUint64(b[sp.at:], x)
	default:
		x := sp.vals[s.Choose(len(sp.vals))]
		v = x
		if wide {
			bo.PutUint64(b[sp.at:], math.Float64bits(x))
		} else {
			bo.PutUint32(b[sp.at:], math.Float32bits(float32(x)))
		}
	}
	form, _, _ := strings.Cut(kind, " of ")
	stream := s.Choose(2) == 0
	return &Mut{Name: fmt.Sprintf("tdigest restore of a %s image with %v as a %s", form, v, sp.what), Do: func(o *Obj) error {
		if stream {
			_, err := tdDecStream(bytes.NewReader(b))
			return err
		}
		_, err := tdigest.DecodeDouble(b)
		return err
	}}
}

func u32be(b []byte) int { return int(binary.BigEndian.Uint32(b)) }

func (c *tdCfg) bad() []*Mut {
	td := func(o *Obj) *tdigest.Double { return o.Live.(*tdigest.Double) }
	empty, _ := tdigest.NewDouble(uint16(c.k))
	ms := []*Mut{
		{Name: "tdigest new with k=9", Do: func(o *Obj) error { _, err := tdigest.NewDouble(9); return err }},
		{Name: "tdigest update with NaN", Do: func(o *Obj) error { return td(o).Update(math.NaN()) }},
		{Name: "tdigest update with infinity", Do: func(o *Obj) error { return td(o).Update(math.Inf(1)) }},
		{Name: "tdigest update with -infinity", Do: func(o *Obj) error { return td(o).Update(math.Inf(-1)) }},
		{Name: "tdigest merge of an empty digest", Do: func(o *Obj) error { return td(o).Merge(empty) }},
		{Name: "tdigest rank of NaN", Do: func(o *Obj) error { _, err := td(o).Rank(math.NaN()); return err }},
		{Name: "tdigest quantile below 0", Do: func(o *Obj) error { _, err := td(o).Quantile(-0.01); return err }},
		{Name: "tdigest quantile above 1", Do: func(o *Obj) error { _, err := td(o).Quantile(1.01); return err }},
		{Name: "tdigest cdf with NaN", Do: func(o *Obj) error { _, err := td(o).CDF([]float64{1, math.NaN()}); return err }},
		{Name: "tdigest pmf with repeated split points", Do: func(o *Obj) error { _, err := td(o).PMF([]float64{1, 1}); return err }},
		{Name: "tdigest cdf with descending split points", Do: func(o *Obj) error { _, err := td(o).CDF([]float64{2, 1}); return err }},
	}
	for _, f := range foreignImages() {
		f := f
		if f.fam == "tdigest" {
			continue
		}
		ms = append(ms, &Mut{Name: "tdigest restore of a " + f.fam + " image", Do: func(o *Obj) error {
			_, err := tdigest.DecodeDouble(f.b)
			if err == nil {
				return nil
			}
			if _, err = tdDecStream(bytes.NewReader(f.b)); err == nil {
				return nil
			}
			return err
		}})
	}
	return ms
}

func init() {
	addKind("tdigest", newTDObj)
	register(&propDef{ID: "Q03", Quick: 20000, Thorough: 1000000,
		Scenarios: []scenarioDef{{"tdigest-big", 1, bigScenario(clusterScenario(newTDFam))}, {"tdigest-cluster", 120, clusterScenario(newTDFam)}, {"tdigest-growth", 20, growthScenario(newTDFam)}, {"tdigest-foreign", 60, tdForeignScenario}, {"tdigest-accuracy", 20, tdAccuracyScenario}},
		Rule:      "Simulated cluster of t-digests against the exact stream; digests written by other implementations among native ones.",
		Real:      []string{"tdigest", "internal/quantiles"},
		Stub:      []string{"network, disk, process crashes, clock (simulated)"},
	})
}
