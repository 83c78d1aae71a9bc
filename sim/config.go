package main

import (
	"math"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/count"
	"github.com/apache/datasketches-go/cpc"
	"github.com/apache/datasketches-go/filters"
	"github.com/apache/datasketches-go/frequencies"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/req"
	"github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/tdigest"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"
)

// configScenario joins nodes with arbitrary configurations to the cluster: one
// outside the documented range must be refused, one inside it must come up
// empty with exactly the configuration asked for and count its first items.
func configScenario(s *Sim) {
	for n := 1 + s.Choose(6); n > 0; n-- {
		configCheck(s)
	}
}

// around draws an integer near the ends of [lo,hi] or anywhere.
func around(s *Sim, lo, hi int) int {
	switch s.Choose(6) {
	case 0:
		return lo + s.Choose(3)
	case 1:
		return hi - s.Choose(3)
	case 2:
		return lo - 1 - s.Choose(3)
	case 3:
		return hi + 1 + s.Choose(3)
	case 4:
		return 0
	}
	return lo + s.Choose(hi-lo+1)
}

func drawP(s *Sim) (float32, bool) {
	v := []float32{1, 0.5, 0.001, 1e-30, 0, -0.5, float32(math.Copysign(0, -1)), 1.0000001, 2, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN())}
	p := v[s.Choose(len(v))]
	return p, p > 0 && p <= 1
}

func configCheck(s *Sim) {
	s.ops++
	s.checks++
	var what string
	var args []any
	ok := func(valid bool, err error) bool {
		h := uint64(0)
		for i := range len(what) {
			h = mix64(h ^ uint64(what[i]))
		}
		s.State(h, b2u(valid))
		s.Logf("%s%v: valid=%v err=%v", what, args, valid, err)
		s.Assert(valid || err != nil, "config-accepted:"+what, "%s accepted the configuration %v", what, args)
		s.Assert(!valid || err == nil, "config-refused:"+what, "%s refused the configuration %v: %v", what, args, err)
		return valid
	}
	is := func(name string, got, want any) {
		s.Assert(got == want, "config-kept:"+what, "%s%v reports %s = %v, want %v", what, args, name, got, want)
	}
	lgK := around(s, 5, 26)
	if lgK > 14 && lgK <= 26 && s.Bool(3, 4) {
		lgK = 5 + s.Choose(8)
	}
	rf := s.Choose(4)
	switch s.Choose(18) {
	case 0, 1:
		p, pv := drawP(s)
		valid := lgK >= 5 && lgK <= 26 && pv
		if lgK < 0 {
			return
		}
		args = []any{lgK, rf, p}
		switch s.Choose(2) {
		case 0:
			what = "theta.NewQuickSelectUpdateSketch"
			k, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(uint8(lgK)), theta.WithUpdateSketchResizeFactor(theta.ResizeFactor(rf)), theta.WithUpdateSketchP(p))
			if ok(valid, err) {
				is("lgK", int(k.LgK()), lgK)
				is("resize factor", int(k.ResizeFactor()), rf)
				is("empty", k.IsEmpty(), true)
				is("retained", k.NumRetained(), uint32(0))
				if p == 1 {
					_ = k.UpdateInt64(1)
					_ = k.UpdateInt64(2)
					_ = k.UpdateInt64(1)
					is("estimate", k.Estimate(), 2.0)
				}
			}
		case 1:
			what = "theta.NewUnion"
			u, err := theta.NewUnion(theta.WithUnionLgK(uint8(lgK)), theta.WithUnionResizeFactor(theta.ResizeFactor(rf)), theta.WithUnionSketchP(p))
			if ok(valid, err) {
				r, err := u.OrderedResult()
				s.Must(err, "theta-result")
				is("empty", r.IsEmpty(), true)
			}
		}
	case 2, 3:
		p, pv := drawP(s)
		valid := lgK >= 5 && lgK <= 26 && pv
		if lgK < 0 {
			return
		}
		args = []any{lgK, rf, p}
		uo := []tuple.UpdateSketchOptionFunc{tuple.WithUpdateSketchLgK(uint8(lgK)), tuple.WithUpdateSketchResizeFactor(theta.ResizeFactor(rf)), tuple.WithUpdateSketchP(p)}
		no := []tuple.UnionOptionFunc{tuple.WithUnionLgK(uint8(lgK)), tuple.WithUnionResizeFactor(theta.ResizeFactor(rf)), tuple.WithUnionSketchP(p)}
		switch s.Choose(4) {
		case 0:
			what = "tuple.NewUpdateSketch"
			k, err := tuple.NewUpdateSketch[*tuple.ArrayOfStringsSummary, []string](tuple.NewArrayOfStringsSummaryFunc, uo...)
			if ok(valid, err) {
				is("lgK", int(k.LgK()), lgK)
				is("resize factor", int(k.ResizeFactor()), rf)
				is("empty", k.IsEmpty(), true)
			}
		case 1:
			what = "tuple.NewArrayOfNumbersUpdateSketch"
			k, err := tuple.NewArrayOfNumbersUpdateSketch[float64](uint8(1+s.Choose(3)), uo...)
			if ok(valid, err) {
				is("lgK", int(k.LgK()), lgK)
				is("resize factor", int(k.ResizeFactor()), rf)
				is("empty", k.IsEmpty(), true)
			}
		case 2:
			what = "tuple.NewUnion"
			u, err := tuple.NewUnion[*tuple.ArrayOfStringsSummary](nil, no...)
			if ok(valid, err) {
				r, err := u.OrderedResult()
				s.Must(err, "tuple-result")
				is("empty", r.IsEmpty(), true)
			}
		case 3:
			what = "tuple.NewArrayOfNumbersSketchUnion"
			u, err := tuple.NewArrayOfNumbersSketchUnion[float32](nil, 2, no...)
			if ok(valid, err) {
				r, err := u.OrderedResult()
				s.Must(err, "tuple-result")
				is("empty", r.IsEmpty(), true)
			}
		}
	case 4:
		lgK = around(s, 4, 21)
		valid := lgK >= 4 && lgK <= 21
		typ := []hll.TgtHllType{hll.TgtHllTypeHll4, hll.TgtHllTypeHll6, hll.TgtHllTypeHll8}[s.Choose(3)]
		args = []any{lgK, typ}
		if s.Bool(1, 2) {
			what = "hll.NewHllSketch"
			k, err := hll.NewHllSketch(lgK, typ)
			if ok(valid, err) {
				is("lgK", k.GetLgConfigK(), lgK)
				is("type", k.GetTgtHllType(), typ)
				is("empty", k.IsEmpty(), true)
			}
			return
		}
		what = "hll.NewUnion"
		u, err := hll.NewUnion(lgK)
		if ok(valid, err) {
			is("lgMaxK", u.GetLgConfigK(), lgK)
			is("empty", u.IsEmpty(), true)
		}
	case 5:
		lgK = around(s, 4, 26)
		valid := lgK >= 4 && lgK <= 26
		args = []any{lgK}
		if s.Bool(1, 2) {
			what = "cpc.NewCpcSketch"
			k, err := cpc.NewCpcSketchWithDefault(lgK)
			if ok(valid, err) {
				is("lgK", k.GetLgK(), lgK)
				is("estimate", k.GetEstimate(), 0.0)
			}
			return
		}
		what = "cpc.NewCpcUnionSketch"
		u, err := cpc.NewCpcUnionSketchWithDefault(lgK)
		if ok(valid, err) {
			r, err := u.GetResult()
			s.Must(err, "cpc-union-result")
			is("lgK", r.GetLgK(), lgK)
		}
	case 6:
		k, m := around(s, 8, 65535), around(s, 2, 8)
		if k < 0 || k > 65535 || m < 0 {
			return
		}
		args = []any{k, m}
		what = "kll.NewKllItemsSketch"
		sk, err := kll.NewKllItemsSketch[float64](uint16(k), uint8(m), common.ItemSketchDoubleComparator(false), common.ItemSketchDoubleSerDe{})
		if ok(k >= 8 && m >= 2 && m <= 8 && m%2 == 0, err) {
			is("k", int(sk.GetK()), k)
			is("empty", sk.IsEmpty(), true)
		}
		if s.Bool(1, 4) {
			d, err := kll.NewKllItemsSketchWithDefault[int64](common.ItemSketchLongComparator(false), nil)
			s.Must(err, "kll-default")
			is("default k", int(d.GetK()), 200)
			_, err = kll.NewKllItemsSketchWithDefault[int64](nil, nil)
			s.Assert(err != nil, "config-accepted:kll-comparator", "no comparator accepted")
		}
	case 7:
		k := around(s, 4, 1024)
		args = []any{k}
		what = "req.NewSketch"
		sk, err := req.NewSketch(req.WithK(k), req.WithHighRankAccuracyMode(rf > 1))
		if ok(k >= 4 && k <= 1024 && k%2 == 0, err) {
			is("k", sk.K(), k)
			is("empty", sk.IsEmpty(), true)
			is("accurate end", sk.IsHighRankAccuracyMode(), rf > 1)
		}
	case 8:
		k := around(s, 10, 65535)
		if k < 0 || k > 65535 {
			return
		}
		args = []any{k}
		what = "tdigest.NewDouble"
		sk, err := tdigest.NewDouble(uint16(k))
		if ok(k >= 10, err) {
			is("k", int(sk.K()), k)
			is("empty", sk.IsEmpty(), true)
		}
	case 9:
		lgMax, lgCur := s.Choose(15), s.Choose(15)
		args = []any{lgMax, lgCur}
		valid := max(lgCur, 3) <= max(lgMax, 3)
		if s.Bool(1, 2) {
			what = "frequencies.NewLongsSketch"
			sk, err := frequencies.NewLongsSketch(lgMax, lgCur)
			if ok(valid, err) {
				is("capacity", sk.GetMaximumMapCapacity(), 3<<max(lgMax, 3)/4)
				is("empty", sk.IsEmpty(), true)
			}
			return
		}
		what = "frequencies.NewFrequencyItemsSketch"
		sk, err := frequencies.NewFrequencyItemsSketch[int64](lgMax, lgCur, common.ItemSketchLongHasher{}, common.ItemSketchLongSerDe{})
		if ok(valid, err) {
			is("capacity", sk.GetMaximumMapCapacity(), 3<<max(lgMax, 3)/4)
			is("empty", sk.IsEmpty(), true)
		}
	case 10:
		size := []int{0, -1, -8, 1, 2, 3, 4, 8, 12, 16, 24, 64, 100, 1024, 4096, 4095, math.MinInt}[s.Choose(17)]
		args = []any{size}
		valid := size > 0 && size&(size-1) == 0
		total := int64(s.Choose(1 << 30))
		switch s.Choose(3) {
		case 0:
			what = "frequencies.NewLongsSketchWithMaxMapSize"
			sk, err := frequencies.NewLongsSketchWithMaxMapSize(size)
			if ok(valid, err) {
				is("capacity", sk.GetMaximumMapCapacity(), 3*max(size, 8)/4)
			}
		case 1:
			what = "frequencies.NewFrequencyItemsSketchWithMaxMapSize"
			sk, err := frequencies.NewFrequencyItemsSketchWithMaxMapSize[string](size, common.ItemSketchStringHasher{}, common.ItemSketchStringSerDe{})
			if ok(valid, err) {
				is("capacity", sk.GetMaximumMapCapacity(), 3*max(size, 8)/4)
			}
		case 2:
			what = "frequencies.GetAprioriError"
			a, err := frequencies.GetAprioriErrorLongsSketch(size, total)
			b, err2 := frequencies.GetAprioriErrorFrequencyItemsSketch(size, total)
			e, err3 := frequencies.GetEpsilonFrequencyItemsSketch(size)
			e2, err4 := frequencies.GetEpsilonLongsSketch(size)
			ok(valid, err2)
			ok(valid, err3)
			ok(valid, err4)
			if ok(valid, err) {
				is("a priori error", a, 3.5/float64(size)*float64(total))
				is("a priori error of items", b, a)
				is("epsilon", e, 3.5/float64(size))
				is("epsilon of longs", e2, e)
			}
		}
	case 11:
		h := around(s, 1, 127)
		b := around(s, 3, 60)
		if s.Bool(1, 4) {
			b = []int{1 << 30, 1<<31 - 1, 1<<30/max(1, h) + s.Choose(2), 1 << 26}[s.Choose(4)]
		}
		if h < -128 || h > 127 || b < math.MinInt32 || b > math.MaxInt32 {
			return
		}
		if h > 0 && b > 1<<20 && int64(h)*int64(b) < 1<<30 {
			return // valid, but too large to make here
		}
		args = []any{h, b}
		what = "count.NewCountMinSketch"
		sk, err := count.NewCountMinSketch(int8(h), int32(b), int64(s.Choose(100)))
		if ok(h >= 1 && b >= 3 && int64(h)*int64(b) < 1<<30, err) {
			is("hashes", int(sk.GetNumHashes()), h)
			is("buckets", int(sk.GetNumBuckets()), b)
			is("total", sk.GetTotalWeight(), int64(0))
			is("relative error", math.Abs(sk.GetRelativeError()-math.E/float64(b)) < 1e-12, true)
		}
	case 12:
		e := []float64{0, -0.1, 1e-3, 0.5, 1, math.NaN(), -1, 0.999, 2, 3, 1e-12, 1e-300}[s.Choose(12)]
		args = []any{e}
		if s.Bool(1, 2) {
			what = "count.SuggestNumBuckets"
			n, err := count.SuggestNumBuckets(e)
			if e > 0 && err == nil {
				is("error of the suggested buckets", math.E/float64(n) <= e*1.0000001, true)
			}
			s.Assert(e >= 0 || err != nil, "config-accepted:"+what, "%v accepted: %d", e, n)
			return
		}
		what = "count.SuggestNumHashes"
		n, err := count.SuggestNumHashes(e)
		s.Assert(e >= 0 && e <= 1 || err != nil, "config-accepted:"+what, "%v accepted: %d", e, n)
		if e > 0 && e < 1 && err == nil {
			is("confidence of the suggested hashes", 1-math.Exp(-float64(n)) >= e-1e-12, true)
		}
		if e == 1 && err == nil {
			is("confidence of the suggested hashes", 1-math.Exp(-float64(n)) == 1, true)
		}
	case 13:
		bits := uint64(around(s, 1, 5000))
		hashes := around(s, 1, 20)
		if hashes < 0 {
			return
		}
		if s.Bool(1, 6) {
			bits = []uint64{math.MaxUint64, 1 << 40, 1 << 63, 1<<37 + 1}[s.Choose(4)]
		}
		args = []any{bits, hashes}
		what = "filters.NewBloomFilterBySize"
		f, err := filters.NewBloomFilterBySize(bits, uint16(hashes))
		if ok(bits >= 1 && bits < 1<<37 && hashes >= 1, err) {
			is("capacity", f.Capacity(), (bits+63)/64*64)
			is("hashes", int(f.NumHashes()), hashes)
			is("empty", f.IsEmpty(), true)
		}
	case 14:
		n := []uint64{0, 1, 2, 10, 1000, 50000}[s.Choose(6)]
		p := []float64{0, 1, -1, 0.01, 0.5, 0.999, 1e-9, math.NaN(), 2, math.Inf(1)}[s.Choose(10)]
		args = []any{n, p}
		what = "filters.NewBloomFilterByAccuracy"
		f, err := filters.NewBloomFilterByAccuracy(n, p)
		if ok(n > 0 && p > 0 && p < 1, err) {
			c := float64(f.Capacity())
			want := math.Ceil(-float64(n) * math.Log(p) / (math.Ln2 * math.Ln2))
			is("bits suffice", c >= want && c < want+64, true)
			is("empty", f.IsEmpty(), true)
		}
	case 15:
		k := around(s, 2, 3000)
		args = []any{k, rf}
		if s.Bool(1, 2) {
			what = "sampling.NewReservoirItemsSketch"
			sk, err := sampling.NewReservoirItemsSketch[int64](k, sampling.WithReservoirItemsSketchResizeFactor(samplingRF(rf)))
			if ok(k >= 2, err) {
				is("k", sk.K(), k)
				is("n", sk.N(), int64(0))
			}
			return
		}
		what = "sampling.NewReservoirItemsUnion"
		_, err := sampling.NewReservoirItemsUnion[int64](k)
		ok(k >= 2, err)
	case 16:
		k := uint(around(s, 1, 3000)) // a negative size is a huge one
		if s.Bool(1, 6) {
			k = []uint{1<<31 - 1, 1 << 31, 1 << 40, 1 << 63, math.MaxUint}[s.Choose(5)]
		}
		args = []any{k, rf}
		valid := k >= 1 && k <= 1<<31-2
		if s.Bool(1, 2) {
			what = "sampling.NewVarOptItemsSketch"
			sk, err := sampling.NewVarOptItemsSketch[string](k, sampling.WithResizeFactor(samplingRF(rf)))
			if ok(valid, err) {
				is("k", sk.K(), int(k))
				is("n", sk.N(), int64(0))
			}
			return
		}
		what = "sampling.NewVarOptItemsUnion"
		_, err := sampling.NewVarOptItemsUnion[string](k)
		ok(valid, err)
	case 17:
		// the documented defaults
		switch s.Choose(6) {
		case 0:
			what = "hll.NewHllSketchWithDefault"
			k, err := hll.NewHllSketchWithDefault()
			if ok(true, err) {
				is("lgK", k.GetLgConfigK(), 12)
				is("type", k.GetTgtHllType(), hll.TgtHllTypeHll4)
				is("empty", k.IsEmpty(), true)
			}
		case 1:
			what = "hll.NewUnionWithDefault"
			u, err := hll.NewUnionWithDefault()
			if ok(true, err) {
				is("lgK", u.GetLgConfigK(), 12)
				is("empty", u.IsEmpty(), true)
			}
		case 2:
			what = "filters.NewBloomFilterWithDefault"
			f, err := filters.NewBloomFilterWithDefault()
			if ok(true, err) {
				is("capacity for 10000 items at 1%", f.Capacity() >= 95851 && f.Capacity() < 95851+64, true)
				is("hashes", int(f.NumHashes()), 7)
				is("empty", f.IsEmpty(), true)
			}
		case 3:
			what = "theta defaults"
			k, err := theta.NewQuickSelectUpdateSketch()
			if ok(true, err) {
				is("lgK", int(k.LgK()), int(theta.DefaultLgK))
				is("theta", k.Theta64(), theta.MaxTheta)
				h, err := k.SeedHash()
				s.Must(err, "theta-seedhash")
				is("seed hash", h, refSeedHash(theta.DefaultSeed))
			}
		case 4:
			what = "req defaults"
			k, err := req.NewSketch()
			if ok(true, err) {
				is("k", k.K(), 12)
				is("accurate end", k.IsHighRankAccuracyMode(), true)
				is("empty", k.IsEmpty(), true)
			}
		case 5:
			what = "tuple defaults"
			k, err := tuple.NewArrayOfNumbersUpdateSketch[int64](1)
			if ok(true, err) {
				is("lgK", int(k.LgK()), int(theta.DefaultLgK))
				is("theta", k.Theta64(), theta.MaxTheta)
				is("empty", k.IsEmpty(), true)
			}
		}
	}
}

func samplingRF(i int) sampling.ResizeFactor {
	return []sampling.ResizeFactor{sampling.ResizeX1, sampling.ResizeX2, sampling.ResizeX4, sampling.ResizeX8}[i]
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
