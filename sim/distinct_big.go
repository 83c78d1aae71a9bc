package main

import (
	"fmt"
	"math"

	"github.com/apache/datasketches-go/cpc"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"
)

// dcBig is one history at a deployed size, where many trials would cost too much: the
// estimate must lie within 6.5 advertised deviations of the truth, and the bounds must
// be about as wide as the advertised error makes them.

type bigDC struct {
	name   string
	lgK    int
	update func(id uint64)
	look   func() dcObs
	crash  func() // through bytes
	rse    func(n float64) float64
}

func dcBig(s *Sim) {
	fam := s.Pick(4, 4, 3, 2)
	lo, hi := 10, [...]int{21, 20, 18, 16}[fam]
	lgK := hi - min(s.Choose(hi-lo+1), s.Choose(hi-lo+1))
	k := math.Exp2(float64(lgK))
	n := int(k * math.Exp2(-2+float64(s.Choose(80))*0.1))
	n = max(1, min(n, 1<<22))
	parts := 1 + s.Choose(4)
	wire := s.Bool(1, 2)
	word := s.Word()
	typ := []valType{vU64, vI64, vStr}[s.Pick(4, 3, 1)]
	lgU := lgK
	if s.Bool(1, 4) {
		lgU = max(lo, lgK-s.Choose(4))
	}
	marks := map[int]bool{n: true, max(1, n/2): true, max(1, n/7): true, 1 + s.Choose(n): true}
	crashAt := s.Choose(2 * n)
	name := fmt.Sprintf("%s lgK=%d", [...]string{"hll", "cpc", "theta", "tuple"}[fam], lgK)
	s.Step("distinct big")
	s.Logf("%s: %d %s items, union of %d parts at lgK=%d, wire=%v", name, n, typ, parts, lgU, wire)
	mk, merge := bigFamily(s, fam, lgK, lgU, typ)
	at := func(what string, o dcObs, rse float64, m int, width bool) {
		truth := float64(m)
		s.checks++
		if dcDebug {
			fmt.Fprintf(dcLog(), "BIG %s n/k=%.2f %s: err %.2f up %.3f %.3f %.3f down %.3f %.3f %.3f\n", name, truth/k, what, (o.est/truth-1)/rse,
				(o.ub[1]/o.est-1)/rse, (o.ub[2]/o.est-1)/rse/2, (o.ub[3]/o.est-1)/rse/3, (1-o.lb[1]/o.est)/rse, (1-o.lb[2]/o.est)/rse/2, (1-o.lb[3]/o.est)/rse/3)
		}
		s.Assert(math.Abs(o.est-truth) <= 6.5*rse*truth+1e-9*truth, "distinct-far", "%s, %s: estimate %v of %d items, the advertised standard error is %v", name, what, o.est, m, rse)
		s.Assert(truth <= o.ub[3]*(1+1e-9) || truth-o.est <= 2.2*(o.ub[3]-o.est), "distinct-upper-bound", "%s, %s: %d items, estimate %v, upper bound %v", name, what, m, o.est, o.ub[3])
		s.Assert(truth >= o.lb[3]*(1-1e-9) || o.est-truth <= 2.2*(o.est-o.lb[3]), "distinct-lower-bound", "%s, %s: %d items, estimate %v, lower bound %v", name, what, m, o.est, o.lb[3])
		for i := 1; i <= 3 && width && truth >= 4*k && rse > 0; i++ {
			up, down, w := o.ub[i]/o.est-1, 1-o.lb[i]/o.est, float64(i)*rse
			s.Assert(up >= 0.94*w && down >= 0.94*w/(1+w) && up <= 1.15*w/(1-w) && down <= 1.15*w, "distinct-bound-width", "%s, %s: %d items, bounds of %d deviations are %v above and %v below the estimate, the advertised standard error is %v", name, what, m, i, up, down, rse)
		}
	}
	one := mk()
	for i := 0; i < n; i++ {
		one.update(dcItem(word, 0, i))
		if i+1 == crashAt {
			one.crash()
			s.Fault("crash-restart")
		}
		if marks[i+1] {
			at("one sketch", one.look(), one.rse(float64(i+1)), i+1, true)
		}
	}
	s.ops += int64(n)
	share := s.Choose(n + 1)
	res, rse := merge(parts, func(j int, b bigDC) {
		for i := 0; i < share/2; i++ {
			b.update(dcItem(word, 0, i))
		}
		rest := n - share/2
		for i := share/2 + j*rest/parts; i < share/2+(j+1)*rest/parts; i++ {
			b.update(dcItem(word, 0, i))
		}
		if wire {
			b.crash()
		}
	})
	at(fmt.Sprintf("union of %d parts at lgK=%d", parts, lgU), res, rse, n, !(fam == 0 && parts == 1))
	s.State(97, uint64(fam), uint64(lgK), uint64(n))
}

// bigFamily returns a constructor of one sketch, and a function that merges parts fed by
// its caller and says what the error of the result is.
func bigFamily(s *Sim, fam, lgK, lgU int, typ valType) (func() bigDC, func(parts int, fill func(j int, b bigDC)) (dcObs, float64)) {
	k := math.Exp2(float64(lgK))
	uk := math.Exp2(float64(min(lgK, lgU)))
	switch fam {
	case 0:
		tgt := hll.TgtHllType(s.Choose(3))
		make1 := func() (bigDC, func() hll.HllSketch) {
			sk, err := hll.NewHllSketch(lgK, tgt)
			s.Must(err, "hll-new")
			return bigDC{lgK: lgK, update: func(id uint64) { s.Must(hllFeed(sk, typ, id), "hll-update") },
				look: func() dcObs { return dcLook(s, hllEst{s, sk}) },
				crash: func() {
					b, err := sk.ToCompactSlice()
					s.Must(err, "hll-encode")
					sk, err = hll.NewHllSketchFromSlice(b, true)
					s.Must(err, "hll-decode")
				},
				rse: func(float64) float64 { return 0.8326 / math.Sqrt(k) }}, func() hll.HllSketch { return sk }
		}
		return func() bigDC { b, _ := make1(); return b }, func(parts int, fill func(int, bigDC)) (dcObs, float64) {
			u, err := hll.NewUnion(lgU)
			s.Must(err, "hll-new-union")
			for j := 0; j < parts; j++ {
				b, get := make1()
				fill(j, b)
				s.Must(u.UpdateSketch(get()), "hll-union-update")
			}
			r, err := u.GetResult(tgt)
			s.Must(err, "hll-result")
			return dcLook(s, hllEst{s, r}), 1.0390 / math.Sqrt(uk)
		}
	case 1:
		make1 := func() (bigDC, func() *cpc.CpcSketch) {
			sk, err := cpc.NewCpcSketchWithDefault(lgK)
			s.Must(err, "cpc-new")
			return bigDC{lgK: lgK, update: func(id uint64) { s.Must(cpcFeed(sk, typ, id, 9001), "cpc-update") },
				look: func() dcObs { return dcLook(s, cpcEst{sk}) },
				crash: func() {
					b, err := sk.ToCompactSlice()
					s.Must(err, "cpc-encode")
					sk, err = cpc.NewCpcSketchFromSliceWithDefault(b)
					s.Must(err, "cpc-decode")
				},
				rse: func(float64) float64 { return 0.5887 / math.Sqrt(k) }}, func() *cpc.CpcSketch { return sk }
		}
		return func() bigDC { b, _ := make1(); return b }, func(parts int, fill func(int, bigDC)) (dcObs, float64) {
			u, err := cpc.NewCpcUnionSketchWithDefault(lgU)
			s.Must(err, "cpc-new-union")
			for j := 0; j < parts; j++ {
				b, get := make1()
				fill(j, b)
				s.Must(u.Update(get()), "cpc-union-update")
			}
			r, err := u.GetResult()
			s.Must(err, "cpc-result")
			return dcLook(s, cpcEst{r}), 0.6931 / math.Sqrt(uk)
		}
	case 2:
		make1 := func() (bigDC, func() theta.Sketch) {
			sk, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(uint8(lgK)))
			s.Must(err, "theta-new")
			var c theta.Sketch
			return bigDC{lgK: lgK, update: func(id uint64) {
				if err := thetaFeed(sk, typ, id); err != nil && err != theta.ErrDuplicateKey && err != theta.ErrHashExceedsTheta {
					s.Fail("theta-update-error", "%v", err)
				}
			},
				look: func() dcObs { return dcLook(s, sk) },
				crash: func() {
					b, err := sk.Compact(true).MarshalBinary()
					s.Must(err, "theta-encode")
					c, err = theta.Decode(b, theta.DefaultSeed)
					s.Must(err, "theta-decode")
				},
				rse: func(n float64) float64 { return sampleRSE(sk.Theta(), float64(sk.NumRetained())) }}, func() theta.Sketch {
				if c != nil {
					return c
				}
				return sk
			}
		}
		return func() bigDC { b, _ := make1(); return b }, func(parts int, fill func(int, bigDC)) (dcObs, float64) {
			u, err := theta.NewUnion(theta.WithUnionLgK(uint8(lgU)))
			s.Must(err, "theta-new-union")
			for j := 0; j < parts; j++ {
				b, get := make1()
				fill(j, b)
				s.Must(u.Update(get()), "theta-union-update")
			}
			r, err := u.Result(s.Bool(1, 2))
			s.Must(err, "theta-union-result")
			return dcLook(s, r), sampleRSE(r.Theta(), float64(r.NumRetained()))
		}
	}
	make1 := func() (bigDC, *tuple.ArrayOfNumbersUpdateSketch[int64]) {
		sk, err := tuple.NewArrayOfNumbersUpdateSketch[int64](1, tuple.WithUpdateSketchLgK(uint8(lgK)))
		s.Must(err, "tuple-new")
		return bigDC{lgK: lgK, update: func(id uint64) { s.Must(tupErrOK(tupFeed[[]int64](sk, typ, id, []int64{1})), "tuple-update") },
			look: func() dcObs { return dcLook(s, sk) }, crash: func() {},
			rse: func(n float64) float64 { return sampleRSE(sk.Theta(), float64(sk.NumRetained())) }}, sk
	}
	return func() bigDC { b, _ := make1(); return b }, func(parts int, fill func(int, bigDC)) (dcObs, float64) {
		u, err := tuple.NewArrayOfNumbersSketchUnion[int64](&genPolicy[*tuple.ArrayOfNumbersSummary[int64]]{func(a, b *tuple.ArrayOfNumbersSummary[int64]) {}}, 1, tuple.WithUnionLgK(uint8(lgU)))
		s.Must(err, "tuple-new-union")
		for j := 0; j < parts; j++ {
			b, sk := make1()
			fill(j, b)
			s.Must(u.Update(sk), "tuple-union-update")
		}
		r, err := u.Result(s.Bool(1, 2))
		s.Must(err, "tuple-union-result")
		return dcLook(s, r), sampleRSE(r.Theta(), float64(r.NumRetained()))
	}
}

// sampleRSE is the standard error of a count from a sample of the hash space.
func sampleRSE(theta, retained float64) float64 {
	if theta == 1 {
		return 0
	}
	return math.Sqrt((1 - theta) / retained)
}
