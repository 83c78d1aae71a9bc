package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/theta"
)

// Golden images: sketches written by the Java, C++ and Go implementations, in the
// repository's serialization_test_data. What went into each is known, so one can be
// treated as an ordinary image from another node: merged with sketches made here,
// carried on, passed through the gateway, and checked against the same oracles.

var goldenDir = func() string {
	if d := os.Getenv("SIM_GOLDEN_DIR"); d != "" {
		return d
	}
	return "/repo/serialization_test_data"
}()

var goldenCache struct {
	sync.Mutex
	files   map[string][]byte
	batches map[string]*Batch
	nextID  int
}

// golden reads an image written by one of the implementations.
func golden(s *Sim, name, lang string) ([]byte, bool) {
	g := &goldenCache
	g.Lock()
	defer g.Unlock()
	key := lang + "/" + name
	b, ok := g.files[key]
	if !ok {
		b, _ = os.ReadFile(filepath.Join(goldenDir, lang+"_generated_files", name+"_"+lang+".sk"))
		if g.files == nil {
			g.files = map[string][]byte{}
		}
		g.files[key] = b
	}
	if len(b) == 0 {
		return nil, false
	}
	s.Logf("golden %s by %s", name, lang)
	s.Fault("golden image by " + lang)
	return append([]byte(nil), b...), true
}

// goldenBatch is the stream behind a golden image.
func goldenBatch(key string, typ valType, mk func() []uint64) *Batch {
	g := &goldenCache
	g.Lock()
	defer g.Unlock()
	if b, ok := g.batches[key]; ok {
		return b
	}
	g.nextID--
	b := &Batch{ID: g.nextID, Typ: typ, IDs: mk(), descr: "golden " + key}
	for range b.IDs {
		b.W = append(b.W, 1)
	}
	if g.batches == nil {
		g.batches = map[string]*Batch{}
	}
	g.batches[key] = b
	return b
}

func goldenRange(typ valType, from, n int, off uint64) *Batch {
	return goldenBatch(fmt.Sprintf("range/%d/%d/%d/%d", typ, from, n, off), typ, func() []uint64 {
		ids := make([]uint64, n)
		for i := range ids {
			ids[i] = uint64(from+i) + off
		}
		return ids
	})
}

func bagOf(b *Batch) Bag {
	if len(b.IDs) == 0 {
		return nil
	}
	return Bag{b}
}

// drawGoldenN picks how much a golden image holds: rarely very much.
func drawGoldenN(s *Sim) int {
	return []int{0, 1, 10, 100, 1000, 10000, 100000, 1000000}[s.Pick(2, 4, 6, 8, 12, 6, 1, 0)]
}

func drawLang(s *Sim) string { return []string{"java", "cpp", "go"}[s.Choose(3)] }

// goldenMix lets golden images and native ones meet in one aggregate; pick draws a
// golden image (nil: none suits), or nil when this one must not be used again.
func goldenMix(s *Sim, fam Family, pick func() *Image) {
	ff := &foreignFam{fam, fam.Name()}
	agg := ff.NewAgg(s)
	n := 1 + s.Choose(6)
	s.Step("golden mix of %s, %d steps", fam.Name(), n)
	for i := 0; i < n; i++ {
		switch s.Pick(5, 3, 2) {
		case 0:
			if img := pick(); img != nil {
				if s.Choose(2) == 0 { // carried on by itself
					r := fam.NewLeaf(s)
					if strings.HasSuffix(img.Enc, "-union") {
						r = fam.NewAgg(s)
					}
					r, ok := r.Restore(s, img)
					if ok {
						r.Check(s, "golden image")
						if s.Choose(2) == 0 {
							r.Update(s, fam.NextBatch(s))
							r.Check(s, "golden image carried on")
							if im2 := r.Encode(s); im2 != nil {
								img = im2
							}
						}
					}
				}
				agg.Absorb(s, img)
			}
		case 1:
			l := ff.NewLeaf(s)
			l.Update(s, fam.NextBatch(s))
			if img := l.Encode(s); img != nil {
				agg.Absorb(s, img)
			}
		case 2:
			if img := agg.Encode(s); img != nil {
				agg = ff.NewAgg(s)
				agg.Absorb(s, img)
			}
		}
		agg.Check(s, "golden mix")
	}
}

// ---- theta ----

func goldenTheta(s *Sim) {
	f := newThetaFam(s).(*thetaFam)
	f.cfg.seed, f.cfg.leafP, f.cfg.unionP = theta.DefaultSeed, 1, 1
	f.cfg.lgK = uint8(8 + s.Choose(6))
	goldenMix(s, f, func() *Image {
		lang := drawLang(s)
		n := drawGoldenN(s)
		name := fmt.Sprintf("theta_n%d", n)
		enc := "theta-v3"
		p := float32(1)
		switch s.Pick(4, 4, 1, 2) {
		case 1:
			if n >= 10 {
				name, enc = fmt.Sprintf("theta_compressed_n%d", n), "theta-compressed"
			}
		case 2:
			name, n, p = "theta_non_empty_no_entries", 1, 0.01
		case 3:
			v := s.Choose(2) + 1
			n = 8192 * s.Choose(2)
			file := [...]string{"empty", "estimation"}[n/8192]
			b, err := os.ReadFile(filepath.Join(filepath.Dir(goldenDir), "theta", fmt.Sprintf("theta_compact_%s_from_java_v%d.sk", file, v)))
			if err != nil {
				return nil
			}
			s.Fault(fmt.Sprintf("golden theta image of version %d", v))
			return thetaGoldenImage(s, b, "theta-old", goldenRange(vI64, 0, n, 0), 1)
		}
		b, ok := golden(s, name, lang)
		if !ok {
			return nil
		}
		var bt *Batch
		if p < 1 {
			bt = goldenRange(vI64, 1, 1, 0)
		} else {
			bt = goldenRange(vI64, 0, n, 0)
		}
		return thetaGoldenImage(s, b, enc, bt, p)
	})
}

func thetaGoldenImage(s *Sim, b []byte, enc string, bt *Batch, p float32) *Image {
	sk, err := theta.Decode(append([]byte(nil), b...), theta.DefaultSeed)
	s.Must(err, "golden-theta")
	checkThetaSketch(s, sk, bagOf(bt), theta.DefaultSeed, "golden "+bt.descr)
	if p < 1 {
		s.Assert(sk.Theta64() <= startTheta(p), "golden-theta", "sampled sketch with theta %d", sk.Theta64())
	} else {
		th := uint64(maxTheta)
		if sk.NumRetained() >= 4096 {
			th = sk.Theta64()
		}
		s.Assert(sk.Theta64() == th, "golden-theta", "%d retained below theta %d", sk.NumRetained(), sk.Theta64())
	}
	if sk.IsOrdered() && enc == "theta-v3" && b[1] == 3 {
		o, err := sk.MarshalBinary()
		s.Must(err, "theta-encode")
		w := append([]byte(nil), b...)
		w[5] &^= 0x20 // the Java single item flag, implied by the rest
		o[5] &^= 0x20
		s.Assert(string(o) == string(w), "golden-theta-bytes", "image of %s comes out as %x… of %d bytes, was %x… of %d", bt.descr, o[:min(32, len(o))], len(o), b[:min(32, len(b))], len(b))
	}
	if enc == "theta-compressed" {
		s.Assert(sk.SerializedSizeBytes(true) == len(b), "golden-theta-bytes", "compressed image of %s would have %d bytes, has %d", bt.descr, sk.SerializedSizeBytes(true), len(b))
	}
	return &Image{Enc: enc, Bytes: b, M: &thetaM{bagOf(bt), sk.Theta64(), sk.IsEmpty(), int(sk.NumRetained())}}
}

// ---- hll ----

func goldenHLL(s *Sim) {
	f := newHLLFam(s).(*hllFam)
	f.lgK = 4 + s.Choose(10)
	goldenMix(s, f, func() *Image {
		n := drawGoldenN(s)
		b, ok := golden(s, fmt.Sprintf("hll%d_n%d", 4+2*s.Choose(3), n), drawLang(s))
		if !ok {
			return nil
		}
		bt := goldenRange(vU64, 0, n, 0)
		m := newHLLModel(12)
		for _, c := range hllCoupons(bt) {
			m.add(c)
		}
		return &Image{Enc: "hll", Bytes: b, M: &hllM{bag: bagOf(bt), m: m, exact: true}}
	})
}

// ---- cpc ----

func goldenCPC(s *Sim) {
	f := newCPCFam(s).(*cpcFam)
	f.seed = 9001
	f.lgK = 8 + s.Choose(5)
	goldenMix(s, f, func() *Image {
		n := []int{0, 100, 200, 2000, 20000}[s.Choose(5)]
		lang := drawLang(s)
		from := 0
		if lang == "cpp" {
			from = 1
		}
		bt := goldenRange(vU64, from, n, 0)
		name := fmt.Sprintf("cpc_n%d", n)
		if s.Bool(1, 8) {
			name, bt = "cpc_negative_one", goldenRange(vI64, -1, 1, 0)
		}
		b, ok := golden(s, name, lang)
		if !ok {
			return nil
		}
		m := newCPCModel(11)
		for _, c := range f.coupons(bt) {
			m.add(c)
		}
		img := &Image{Enc: "cpc", Bytes: b, M: &cpcM{bagOf(bt), m}}
		r, _ := f.NewLeaf(s).Restore(s, img)
		r.Check(s, "golden image")
		o, err := r.(*cpcRep).sk.ToCompactSlice()
		s.Must(err, "cpc-encode")
		s.Assert(string(o) == string(b), "golden-cpc-bytes", "image of %s differs when written again (%d and %d bytes)", name, len(b), len(o))
		return img
	})
}

// ---- kll ----

func goldenKLL(s *Sim) {
	switch s.Choose(4) {
	case 0:
		goldenKLLOf(s, typeInt64(false), "long", 1<<20, 1)
	case 1:
		goldenKLLOf(s, typeFloat64(false), "double", 1000000, 4)
	case 2:
		goldenKLLOf(s, typeFloat32(false), "float", 1<<20, 1)
	case 3:
		n := drawGoldenN(s)
		t := typeString(false)
		t.name = "string by value"
		w := len(strconv.Itoa(n))
		t.conv = func(v int64) string { return fmt.Sprintf("%*d", w, v) }
		t.inv = func(c string) int64 {
			v, err := strconv.ParseInt(strings.TrimLeft(c, " "), 10, 64)
			if err != nil {
				return -1
			}
			return v
		}
		t.less = func(a, b string) bool { // whatever their width, by value
			a, b = strings.TrimLeft(a, " "), strings.TrimLeft(b, " ")
			return len(a) < len(b) || len(a) == len(b) && a < b
		}
		goldenKLLN(s, t, "string", 0, 1, func() int { return n })
	}
}

func goldenKLLOf[C comparable](s *Sim, t *itemType[C], name string, off, mul int) {
	goldenKLLN(s, t, name, off, mul, func() int { return drawGoldenN(s) })
}

func goldenKLLN[C comparable](s *Sim, t *itemType[C], name string, off, mul int, dn func() int) {
	f := &kllFam[C]{t: t, k: 200, mixK: s.Bool(1, 2), m: 8, st: newStream(s), maxN: 2000}
	goldenMix(s, f, func() *Image {
		n := dn()
		b, ok := golden(s, fmt.Sprintf("kll_%s_n%d", name, n), drawLang(s))
		if !ok {
			return nil
		}
		bt := goldenBatch(fmt.Sprintf("kll/%s/%d", name, n), vI64, func() []uint64 {
			ids := make([]uint64, n)
			for i := range ids {
				ids[i] = uint64((i+1)*mul + off)
			}
			return ids
		})
		return &Image{Enc: "kll", Bytes: b, M: &kllModel{bag: bagOf(bt), k: 200, minK: 200, exact: n <= 200}}
	})
}

// ---- t-digest ----

func goldenTD(s *Sim) {
	f := newTDFam(s).(*tdFam)
	f.mp = tdMaps[0]
	goldenMix(s, f, func() *Image {
		n := drawGoldenN(s)
		name := [...]string{"tdigest_double", "tdigest_double_buf", "tdigest_float", "tdigest_float_buf"}[s.Choose(4)]
		b, ok := golden(s, fmt.Sprintf("%s_n%d", name, n), drawLang(s))
		if !ok {
			return nil
		}
		if strings.Contains(name, "float") {
			return nil // this library reads doubles only
		}
		return &Image{Enc: "tdigest", Bytes: b, M: &tdModel{bag: bagOf(goldenRange(vI64, 1, n, 1<<20)), k: 100, minK: 100}}
	})
}

// ---- frequencies ----

func goldenFreq(s *Sim) {
	f := mkFqFam(s, s.Choose(3) == 0).(*fqFam)
	name, off := "frequent_long", uint64(1000)
	f.t = fqLongType(false)
	if s.Choose(2) == 0 {
		k := &fqKeys[string]{name: "decimal strings", conv: func(v int64) string { return strconv.FormatInt(v, 10) },
			inv: func(c string) int64 {
				v, err := strconv.ParseInt(c, 10, 64)
				if err != nil {
					return -1
				}
				return v
			}, serde: typeString(false).serde, hasher: common.ItemSketchStringHasher{}}
		f.t = fqItemsType(k, false)
		name, off = "frequent_string", 0
	}
	f.lg = 3 + s.Choose(6)
	goldenMix(s, f, func() *Image {
		n := drawGoldenN(s)
		b, ok := golden(s, fmt.Sprintf("%s_n%d", name, n), drawLang(s))
		if !ok {
			return nil
		}
		return &Image{Enc: "frequencies", Bytes: b, M: &fqModel{bag: bagOf(goldenRange(vI64, 1, n, off)), lgMax: 6, minLg: 6}}
	})
}

// ---- reservoir ----

func goldenReservoir(s *Sim) {
	switch s.Choose(3) {
	case 0:
		goldenResOf(s, typeInt64(false), "long")
	case 1:
		goldenResOf(s, typeFloat64(false), "double")
	case 2:
		t := typeString(false)
		t.conv = func(v int64) string { return fmt.Sprintf("item%d", v) }
		t.inv = func(c string) int64 {
			v, err := strconv.ParseInt(strings.TrimPrefix(c, "item"), 10, 64)
			if err != nil {
				return -1
			}
			return v
		}
		goldenResOf(s, t, "string")
	}
}

func goldenResOf[C comparable](s *Sim, t *itemType[C], name string) {
	off := map[string]uint64{"long": 1 << 20, "double": 1000000, "string": 0}[name]
	mul := map[string]int{"long": 1, "double": 4, "string": 1}[name]
	f := &resFam[C]{t: t, st: newStream(s), k: 2 + s.Choose(200), mixK: s.Bool(1, 2), maxK: 2 + s.Choose(200), max: 300}
	f.st.fresh = 1 << 22 // clear of every golden item
	used := false
	goldenMix(s, f, func() *Image {
		if used {
			return nil // occurrences are unique
		}
		lang := []string{"java", "go"}[s.Choose(2)]
		union := s.Choose(2) == 1
		pre, kn := "reservoir_items_"+name, "k"
		if union {
			pre, kn = "reservoir_items_union_"+name, "maxk"
		}
		if lang == "java" && name == "long" && s.Choose(2) == 0 {
			pre = strings.Replace(pre, "items_union_long", "longs_union", 1)
			pre = strings.Replace(pre, "items_long", "longs", 1)
		}
		k, n := 128, 0
		file := ""
		switch s.Pick(1, 4, 4) {
		case 0:
			file = fmt.Sprintf("%s_empty_%s128", pre, kn)
		case 1:
			n = []int{1, 10, 32, 100, 128}[s.Choose(5)]
			file = fmt.Sprintf("%s_exact_n%d_%s128", pre, n, kn)
		case 2:
			n, k = 1000, 32<<s.Choose(3)
			file = fmt.Sprintf("%s_sampling_n1000_%s%d", pre, kn, k)
		}
		b, ok := golden(s, file, lang)
		if !ok {
			return nil
		}
		used = n > 0
		bt := goldenBatch(fmt.Sprintf("reservoir/%s/%d", name, n), vI64, func() []uint64 {
			ids := make([]uint64, n)
			for i := range ids {
				ids[i] = uint64(i*mul) + off
			}
			return ids
		})
		m := resModel{bag: bagOf(bt), maxK: k, leaf: true}
		enc := "reservoir"
		if union {
			enc, m.leaf = "reservoir-union", false
			if n > k {
				m.low = k
			}
			u, err := sampling.NewReservoirItemsUnionFromSlice[C](append([]byte(nil), b...), t.serde)
			s.Must(err, "golden-reservoir-union")
			(&resAgg[C]{f, u, &m}).Check(s, "golden union")
		} else {
			sk, err := decodeRes(t, append([]byte(nil), b...))
			s.Must(err, "golden-reservoir")
			checkReservoir(s, t, sk, &m, "golden sample")
		}
		return &Image{Enc: enc, Bytes: b, M: m}
	})
}

// ---- varopt ----

func goldenVarOpt(s *Sim) {
	switch s.Choose(3) {
	case 0:
		goldenVOOf(s, typeInt64(false), weighing{pat: 0}, func() (string, *Batch, voModel) {
			n := drawGoldenN(s)
			return fmt.Sprintf("varopt_sketch_long_n%d", n), goldenRange(vI64, 1, n, 1<<20), voModel{k: 32, exact: n <= 32}
		})
	case 1:
		goldenVOOf(s, typeInt64(false), weighing{pat: wSampling}, func() (string, *Batch, voModel) {
			return "varopt_sketch_long_sampling", goldenRange(vI64, -3, 2003, 1<<20), voModel{k: 1024}
		})
	case 2:
		t := typeString(false)
		t.conv = func(v int64) string { return strconv.FormatInt(v, 10) }
		t.inv = func(c string) int64 {
			v, err := strconv.ParseInt(c, 10, 64)
			if err != nil {
				return -1
			}
			return v
		}
		goldenVOOf(s, t, weighing{pat: wInverse}, func() (string, *Batch, voModel) {
			return "varopt_sketch_string_exact", goldenRange(vI64, 1, 200, 0), voModel{k: 1024, exact: true}
		})
	}
}

// weighings of the golden samples
const (
	wSampling = nWeighings + iota
	wInverse
)

func goldenWeight(pat int, id uint64) float64 {
	if pat == wInverse {
		return 1000 / float64(id)
	}
	switch id {
	case 1<<20 - 1:
		return 100000
	case 1<<20 - 2:
		return 110000
	case 1<<20 - 3:
		return 120000
	}
	return 1
}

func goldenVOOf[C comparable](s *Sim, t *itemType[C], w weighing, draw func() (string, *Batch, voModel)) {
	f := &voFam[C]{t: t, w: w, st: newStream(s), k: 1 + s.Choose(200), mixK: s.Bool(1, 2), maxK: 1 + s.Choose(1200), max: 300}
	f.st.fresh = 1 << 22
	used := false
	goldenMix(s, f, func() *Image {
		if used {
			return nil
		}
		name, bt, m := draw()
		b, ok := golden(s, name, drawLang(s))
		if !ok {
			return nil
		}
		used = len(bt.IDs) > 0
		m.bag = bagOf(bt)
		return &Image{Enc: "varopt", Bytes: b, M: m}
	})
}
