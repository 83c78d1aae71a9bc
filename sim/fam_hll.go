package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"slices"

	"github.com/apache/datasketches-go/hll"
)

const hllSeed = 9001

// vCraft items are 16-byte keys whose hash has an extreme register value.
const vCraft = nValTypes

func craftHLL(id uint64) []byte {
	h1 := mix64(id*2+1) &^ 3 // one slot in four, so that exceptions stay a minority as in real streams
	h2 := mix64(id*2+2) >> (id % 64)
	return keyWithHash(h1, h2, hllSeed)
}

func hllBytes(typ valType, id uint64) []byte {
	switch typ {
	case vStr:
		return []byte(itemStr(id))
	case vBytes:
		return itemBytes(id)
	case vCraft:
		return craftHLL(id)
	}
	return le64(id)
}

func hllCoupon(typ valType, id uint64) uint64 {
	a, b := refMurmur(hllBytes(typ, id), hllSeed)
	v := uint64(min(bits.LeadingZeros64(b), 62) + 1)
	return v<<26 | a&(1<<26-1)
}

func hllCoupons(b *Batch) []uint64 {
	return b.Hashes("hll", func(id uint64) uint64 { return hllCoupon(b.Typ, id) })
}

type hllFeeder interface {
	UpdateUInt64(uint64) error
	UpdateInt64(int64) error
	UpdateSlice([]byte) error
	UpdateString(string) error
}

func hllFeed(k hllFeeder, typ valType, id uint64) error {
	switch typ {
	case vI64:
		return k.UpdateInt64(int64(id))
	case vStr:
		return k.UpdateString(itemStr(id))
	case vBytes, vCraft:
		return k.UpdateSlice(hllBytes(typ, id))
	}
	return k.UpdateUInt64(id)
}

func drawHLLTypes(s *Sim) []valType {
	switch s.Pick(4, 2, 2, 2) {
	case 0:
		return []valType{vI64}
	case 1:
		return []valType{vStr}
	case 2:
		return []valType{vI64, vU64, vStr, vBytes}
	}
	return []valType{vI64, vCraft, vI64}
}

// ---- the simulator's own reader of HLL images ----

type hllImg struct {
	mode, typ, lgK int
	empty          bool
	ooo, rebuild   bool
	compact        bool
	coupons        []uint64 // sorted
	order          []uint64 // as stored
	regs           []byte
	curMin, num    int
	hip, k0, k1    float64
	auxN           int
}

func parseHLL(b []byte) (*hllImg, error) {
	if len(b) < 8 {
		return nil, fmt.Errorf("short image")
	}
	h := &hllImg{mode: int(b[7] & 3), typ: int(b[7] >> 2 & 3), lgK: int(b[3])}
	if b[1] != 1 || b[2] != 7 {
		return nil, fmt.Errorf("serVer %d family %d", b[1], b[2])
	}
	h.empty, h.compact, h.ooo, h.rebuild = b[5]&4 != 0, b[5]&8 != 0, b[5]&16 != 0, b[5]&32 != 0
	pre := []int{2, 3, 10}[h.mode%3]
	if int(b[0]&0x3f) != pre {
		return nil, fmt.Errorf("preamble ints %d in mode %d", b[0]&0x3f, h.mode)
	}
	start := pre * 4
	if h.mode < 2 {
		n := int(b[6])
		if h.mode == 1 {
			n = int(binary.LittleEndian.Uint32(b[8:]))
		}
		slots := n
		if !h.compact {
			slots = 1 << b[4]
		}
		if len(b) != start+4*slots {
			return nil, fmt.Errorf("mode %d: %d bytes for %d slots", h.mode, len(b), slots)
		}
		for i := 0; i < slots; i++ {
			if c := binary.LittleEndian.Uint32(b[start+4*i:]); c != 0 {
				h.order = append(h.order, uint64(c))
			}
		}
		if len(h.order) != n {
			return nil, fmt.Errorf("mode %d: %d coupons announced, %d found", h.mode, n, len(h.order))
		}
		h.coupons = slices.Clone(h.order)
		slices.Sort(h.coupons)
		for i := 1; i < n; i++ {
			if h.coupons[i] == h.coupons[i-1] {
				return nil, fmt.Errorf("coupon %#x twice", h.coupons[i])
			}
		}
		return h, nil
	}
	f := func(o int) float64 { return math.Float64frombits(binary.LittleEndian.Uint64(b[o:])) }
	h.hip, h.k0, h.k1 = f(8), f(16), f(24)
	h.curMin = int(b[6])
	h.num = int(binary.LittleEndian.Uint32(b[32:]))
	h.auxN = int(binary.LittleEndian.Uint32(b[36:]))
	k := 1 << h.lgK
	h.regs = make([]byte, k)
	d := b[40:]
	switch h.typ {
	case 2:
		if len(d) != k {
			return nil, fmt.Errorf("HLL8: %d register bytes", len(d))
		}
		for i := range h.regs {
			h.regs[i] = d[i]
		}
	case 1:
		if len(d) != k*3/4+1 {
			return nil, fmt.Errorf("HLL6: %d register bytes", len(d))
		}
		for i := range h.regs {
			p := i * 6
			h.regs[i] = byte((uint(d[p/8]) | uint(d[p/8+1])<<8) >> (p % 8) & 63)
		}
	case 0:
		if len(d) < k/2 {
			return nil, fmt.Errorf("HLL4: %d register bytes", len(d))
		}
		aux := map[int]byte{}
		slots := h.auxN
		rest := d[k/2:]
		if !h.compact {
			slots = len(rest) / 4
			if h.auxN > 0 && slots != 1<<b[4] {
				return nil, fmt.Errorf("HLL4: %d exception slots, header says 2^%d", slots, b[4])
			}
		}
		if len(rest) != slots*4 {
			return nil, fmt.Errorf("HLL4: %d exception bytes for %d slots", len(rest), slots)
		}
		for i := 0; i < slots; i++ {
			if c := binary.LittleEndian.Uint32(rest[4*i:]); c != 0 {
				aux[int(c)&(k-1)] = byte(c >> 26)
			}
		}
		if len(aux) != h.auxN {
			return nil, fmt.Errorf("HLL4: %d exceptions announced, %d found", h.auxN, len(aux))
		}
		for i := range h.regs {
			v := d[i/2] >> (4 * (i & 1)) & 15
			if v == 15 {
				a, ok := aux[i]
				if !ok {
					return nil, fmt.Errorf("HLL4: slot %d has no exception value", i)
				}
				h.regs[i] = a
				delete(aux, i)
			} else {
				h.regs[i] = v + byte(h.curMin)
			}
		}
		if len(aux) != 0 {
			return nil, fmt.Errorf("HLL4: %d stray exceptions", len(aux))
		}
	default:
		return nil, fmt.Errorf("type %d", h.typ)
	}
	return h, nil
}

func (h *hllImg) canon() string {
	if h.mode < 2 {
		return fmt.Sprintf("mode=%d typ=%d lgK=%d empty=%v ooo=%v compact=%v coupons=%x", h.mode, h.typ, h.lgK, h.empty, h.ooo, h.compact, h.coupons)
	}
	return fmt.Sprintf("mode=%d typ=%d lgK=%d empty=%v ooo=%v rebuild=%v compact=%v min=%d num=%d hip=%v k=%v,%v aux=%d regs=%x", h.mode, h.typ, h.lgK, h.empty, h.ooo, h.rebuild, h.compact, h.curMin, h.num, h.hip, h.k0, h.k1, h.auxN, h.regs)
}

func canonHLL(b []byte) string {
	h, err := parseHLL(b)
	if err != nil {
		return "unreadable: " + err.Error() + fmt.Sprintf(" %x", b)
	}
	if h.ooo {
		h.hip = 0 // not used any more
	}
	if h.typ != 0 && h.curMin > 0 {
		h.curMin, h.num = 0, 0 // no slot is zero; 8- and 6-bit arrays keep no other minimum
	}
	return h.canon()
}

// canonHLLNoHip also leaves out the running estimate, which depends on the order
// in which an unordered coupon set was turned into registers.
func canonHLLNoHip(b []byte) string {
	h, err := parseHLL(b)
	if err != nil {
		return "unreadable: " + err.Error() + fmt.Sprintf(" %x", b)
	}
	h.hip = 0
	if h.typ != 0 && h.curMin > 0 {
		h.curMin, h.num = 0, 0
	}
	return h.canon()
}

// writeHLL8 builds an HLL_8 image from registers, as the published layout has it.
func writeHLL8(lgK int, regs []byte, hip float64, ooo bool) []byte {
	b := make([]byte, 40+len(regs))
	b[0], b[1], b[2], b[3] = 10, 1, 7, byte(lgK)
	if ooo {
		b[5] = 16
	}
	b[7] = 2 | 2<<2
	k0, k1, zeros := refKxQ(regs)
	binary.LittleEndian.PutUint64(b[8:], math.Float64bits(hip))
	binary.LittleEndian.PutUint64(b[16:], math.Float64bits(k0))
	binary.LittleEndian.PutUint64(b[24:], math.Float64bits(k1))
	binary.LittleEndian.PutUint32(b[32:], uint32(zeros))
	copy(b[40:], regs)
	return b
}

func refKxQ(regs []byte) (k0, k1 float64, zeros int) {
	for _, v := range regs {
		if v < 32 {
			k0 += math.Ldexp(1, -int(v))
		} else {
			k1 += math.Ldexp(1, -int(v))
		}
		if v == 0 {
			zeros++
		}
	}
	return
}

// ---- reference model of one sketch ----

type hllModel struct {
	lgK     int
	mode    int
	list    []uint64
	set     map[uint64]struct{}
	regs    []byte
	lgArr   int
	hip     float64
	k0, k1  float64
	ooo     bool // HIP no longer meaningful
	deep    int
	touched bool
}

func newHLLModel(lgK int) *hllModel { return &hllModel{lgK: lgK, set: map[uint64]struct{}{}} }

func (m *hllModel) clone() *hllModel {
	c := *m
	c.list = slices.Clone(m.list)
	c.regs = slices.Clone(m.regs)
	c.set = make(map[uint64]struct{}, len(m.set))
	for k := range m.set {
		c.set[k] = struct{}{}
	}
	return &c
}

func (m *hllModel) add(c uint64) {
	m.touched = true
	if m.mode == 2 {
		m.reg(c)
		return
	}
	if _, ok := m.set[c]; ok {
		return
	}
	m.set[c] = struct{}{}
	m.list = append(m.list, c)
	if m.mode == 0 {
		if len(m.list) >= 8 {
			if m.lgK < 8 {
				m.toRegs()
			} else {
				m.mode, m.lgArr = 1, 5
			}
		}
		return
	}
	if 4*len(m.list) > 3<<m.lgArr {
		if m.lgArr == m.lgK-3 {
			m.toRegs()
		} else {
			m.lgArr++
		}
	}
}

func (m *hllModel) toRegs() {
	m.mode = 2
	m.regs = make([]byte, 1<<m.lgK)
	m.k0, m.k1 = float64(len(m.regs)), 0
	for _, c := range m.list {
		m.reg(c)
	}
	m.hip = couponEst(len(m.list))
	m.list, m.set = nil, map[uint64]struct{}{}
}

// couponEst: expected number of items behind n distinct 26-bit coupons with geometric values.
// Two random coupons coincide with probability 2^-26/3.
func couponEst(n int) float64 {
	x := float64(n)
	return x + x*(x-1)/(2*3*(1<<26))
}

func (m *hllModel) reg(c uint64) {
	i := c & uint64(len(m.regs)-1)
	v := byte(c >> 26)
	o := m.regs[i]
	if v <= o {
		return
	}
	m.hip += float64(len(m.regs)) / (m.k0 + m.k1)
	sub := func(v byte, sign float64) {
		if v < 32 {
			m.k0 += sign * math.Ldexp(1, -int(v))
		} else {
			m.k1 += sign * math.Ldexp(1, -int(v))
		}
	}
	sub(o, -1)
	sub(v, 1)
	m.regs[i] = v
}

func foldRegs(regs []byte, lgK int) []byte {
	out := make([]byte, 1<<lgK)
	for i, v := range regs {
		j := i & (len(out) - 1)
		out[j] = max(out[j], v)
	}
	return out
}

// checkHLLState compares a sketch or union with its reference through the simulator's own reader.
func checkHLLState(s *Sim, h hllAny, m *hllModel, at string) {
	for pass := 0; pass < 2; pass++ {
		var b []byte
		var err error
		if pass == 0 {
			b, err = h.ToCompactSlice()
		} else {
			b, err = h.ToUpdatableSlice()
		}
		s.Must(err, "hll-encode")
		if pass == 1 {
			s.Assert(len(b) == h.GetUpdatableSerializationBytes(), "hll-updatable-size", "%s: %d bytes, announced %d", at, len(b), h.GetUpdatableSerializationBytes())
		}
		p, err := parseHLL(b)
		if err != nil {
			s.Fail("hll-image", "%s: %v", at, err)
		}
		s.Assert(p.lgK == m.lgK && h.GetLgConfigK() == m.lgK, "hll-lgk", "%s: lgK %d/%d want %d", at, p.lgK, h.GetLgConfigK(), m.lgK)
		s.Assert(p.mode == m.mode && hllModeOf(h) == m.mode, "hll-mode", "%s: mode %d/%d want %d", at, p.mode, hllModeOf(h), m.mode)
		s.Assert(h.IsEmpty() == (m.mode < 2 && len(m.list) == 0) && p.empty == h.IsEmpty(), "hll-empty", "%s: empty=%v in image %v, model holds %d", at, h.IsEmpty(), p.empty, len(m.list))
		if m.mode < 2 {
			want := slices.Clone(m.list)
			slices.Sort(want)
			if !slices.Equal(p.coupons, want) {
				s.Fail("hll-coupons", "%s: %s", at, diffU64(p.coupons, want))
			}
			s.checks++
			continue
		}
		for i, v := range p.regs {
			if v != m.regs[i] {
				s.Fail("hll-registers", "%s: lgK %d type %d register %d is %d, want %d", at, m.lgK, p.typ, i, v, m.regs[i])
			}
		}
		s.checks++
		k0, k1, zeros := refKxQ(m.regs)
		s.Assert(!p.rebuild, "hll-rebuild-flag", "%s: image carries a pending rebuild", at)
		s.Assert(p.k0 == k0 && p.k1 == k1, "hll-kxq", "%s: KxQ %v+%v want %v+%v", at, p.k0, p.k1, k0, k1)
		if p.typ == 0 {
			mn := slices.Min(m.regs)
			n := 0
			for _, v := range m.regs {
				if v == mn {
					n++
				}
			}
			s.Assert(p.curMin == int(mn) && p.num == n, "hll4-curmin", "%s: curMin %d x%d want %d x%d", at, p.curMin, p.num, mn, n)
			s.ProbeIf(p.auxN > 0, "hll4 exceptions")
			s.ProbeIf(p.curMin > 0, "hll4 rebased")
		} else {
			if p.curMin == 0 {
				s.Assert(p.num == zeros, "hll-zeros", "%s: %d zeros want %d", at, p.num, zeros)
			} else {
				s.Assert(zeros == 0, "hll-zeros", "%s: curMin %d with %d zeros", at, p.curMin, zeros)
			}
		}
	}
}

type hllAny interface {
	hllFeeder
	Reset() error
	GetCompositeEstimate() (float64, error)
	GetEstimate() (float64, error)
	GetLowerBound(int) (float64, error)
	GetUpperBound(int) (float64, error)
	IsEmpty() bool
	GetLgConfigK() int
	GetTgtHllType() hll.TgtHllType
	GetUpdatableSerializationBytes() int
	ToCompactSlice() ([]byte, error)
	ToUpdatableSlice() ([]byte, error)
}

func hllModeOf(h hllAny) int {
	switch x := h.(type) {
	case hll.HllSketch:
		return int(x.GetCurMode())
	case hll.Union:
		return int(x.GetCurMode())
	}
	panic("hll type")
}

// checkHLLNumbers checks estimates and bounds. hip is NaN when no reference exists.
func checkHLLNumbers(s *Sim, h hllAny, m *hllModel, hip float64, at string) float64 {
	est, err := h.GetEstimate()
	s.Must(err, "hll-estimate")
	comp, err := h.GetCompositeEstimate()
	s.Must(err, "hll-estimate")
	if m.mode < 2 {
		w := couponEst(len(m.list))
		s.Assert(relClose(est, w, 1e-4), "hll-coupon-estimate", "%s: estimate %v for %d coupons", at, est, len(m.list))
		s.Assert(est == comp, "hll-coupon-estimate", "%s: estimate %v composite %v", at, est, comp)
	} else {
		// an image written by the simulator from the reference registers must give the same composite estimate
		ref, err := hll.NewHllSketchFromSlice(writeHLL8(m.lgK, m.regs, 0, true), true)
		s.Must(err, "hll-reference-image")
		rc, err := ref.GetCompositeEstimate()
		s.Must(err, "hll-estimate")
		s.Assert(relClose(comp, rc, 1e-9), "hll-composite-estimate", "%s: composite estimate %v, %v for the same registers", at, comp, rc)
		if m.ooo {
			s.Assert(est == comp, "hll-estimate-after-union", "%s: estimate %v, composite %v", at, est, comp)
			rl, _ := ref.GetLowerBound(2)
			ru, _ := ref.GetUpperBound(2)
			l, _ := h.GetLowerBound(2)
			u, _ := h.GetUpperBound(2)
			s.Assert(relClose(l, rl, 1e-9) && relClose(u, ru, 1e-9), "hll-bounds-after-union", "%s: bounds %v,%v want %v,%v", at, l, u, rl, ru)
		} else if !math.IsNaN(hip) {
			s.Assert(relClose(est, hip, 1e-4), "hll-hip-estimate", "%s: estimate %v want %v", at, est, hip)
		}
	}
	floor := float64(len(m.list))
	if m.mode == 2 {
		_, _, z := refKxQ(m.regs)
		floor = float64(len(m.regs) - z)
	}
	lo, hi := est, est
	for n := 1; n <= 3; n++ {
		l, err := h.GetLowerBound(n)
		s.Must(err, "hll-bound")
		u, err := h.GetUpperBound(n)
		s.Must(err, "hll-bound")
		tol := 1e-9 * (1 + est)
		// the number of occupied registers is a sure floor, even under an estimate below it
		s.Assert(l <= math.Max(est, floor)+tol && u >= est-tol, "hll-bounds", "%s: %d: [%v,%v] around %v", at, n, l, u, est)
		s.Assert(l <= math.Max(lo, floor)+tol && u >= hi-tol, "hll-bounds-nested", "%s: %d: [%v,%v] inside [%v,%v]", at, n, l, u, lo, hi)
		s.Assert(l >= floor-tol, "hll-lower-bound-floor", "%s: lower bound %v below %v occupied", at, l, floor)
		lo, hi = l, u
	}
	return est
}

// ---- cluster family ----

type hllFam struct {
	lgK   int
	types []valType
	st    *stream
	maxN  int
	mixK  bool
}

func newHLLFam(s *Sim) Family {
	f := &hllFam{lgK: 4 + s.Pick(3, 3, 3, 3, 4, 3, 2, 1, 1), mixK: s.Bool(1, 2), types: drawHLLTypes(s), st: newStream(s)}
	f.maxN = min(16<<f.lgK, 6000)
	if s.big {
		f.lgK = 12 + s.Choose(10)
		f.maxN = min(16<<f.lgK, 120000)
	}
	return f
}

func (f *hllFam) Name() string            { return "hll" }
func (f *hllFam) Idempotent() bool        { return true }
func (f *hllFam) NextBatch(s *Sim) *Batch { return f.st.Next(f.maxN, f.types) }
func (f *hllFam) drawK(s *Sim) int {
	if f.mixK {
		if s.big {
			return f.lgK - s.Choose(4)
		}
		return 4 + s.Choose(f.lgK-3+1)
	}
	return f.lgK
}

type hllRep struct {
	f     *hllFam
	sk    hll.HllSketch // leaf
	un    hll.Union     // aggregator
	m     *hllModel
	bag   Bag
	exact bool // model's HIP is known
	soleE float64
	nHll  int
}

func (r *hllRep) any() hllAny {
	if r.un != nil {
		return r.un
	}
	return r.sk
}
func (r *hllRep) Kind() string {
	if r.un != nil {
		return "hll.union"
	}
	return "hll.sketch"
}
func (r *hllRep) Bag() Bag { return r.bag }

func (f *hllFam) NewLeaf(s *Sim) Replica {
	if s.Bool(1, 5) {
		return f.NewAgg(s)
	}
	k := f.drawK(s)
	sk, err := hll.NewHllSketch(k, hll.TgtHllType(s.Choose(3)))
	s.Must(err, "hll-new")
	return &hllRep{f: f, sk: sk, m: newHLLModel(k), exact: true}
}

func (f *hllFam) NewAgg(s *Sim) Replica {
	k := f.drawK(s)
	u, err := hll.NewUnion(k)
	s.Must(err, "hll-new-union")
	return &hllRep{f: f, un: u, m: newHLLModel(k), exact: true}
}

func (r *hllRep) Update(s *Sim, b *Batch) {
	for i, id := range b.IDs {
		s.Must(hllFeed(r.any(), b.Typ, id), "hll-update")
		r.m.add(hllCoupons(b)[i])
	}
	r.bag = r.bag.Union(Bag{b})
}

type hllM struct {
	bag   Bag
	m     *hllModel
	exact bool
	est   float64
}

func (r *hllRep) Encode(s *Sim) *Image {
	est, err := r.any().GetEstimate()
	s.Must(err, "hll-estimate")
	im := &Image{Enc: "hll", M: &hllM{r.bag, r.m.clone(), r.exact, est}}
	sk := r.sk
	if r.un != nil {
		if s.Choose(3) == 0 {
			if s.Choose(2) == 0 {
				im.Bytes, err = r.un.ToCompactSlice()
			} else {
				im.Bytes, err = r.un.ToUpdatableSlice()
			}
			s.Must(err, "hll-encode")
			return im
		}
		sk, err = r.un.GetResult(hll.TgtHllType(s.Choose(3)))
		s.Must(err, "hll-result")
	} else if s.Choose(3) == 0 {
		sk, err = sk.CopyAs(hll.TgtHllType(s.Choose(3)))
		s.Must(err, "hll-copy")
	}
	checkHLLState(s, sk, r.m, "converted copy")
	e, err := sk.GetEstimate()
	s.Must(err, "hll-estimate")
	s.Assert(relClose(e, est, 1e-9), "hll-copy-estimate", "copy as another width estimates %v, original %v", e, est)
	if s.Choose(2) == 0 {
		im.Bytes, err = sk.ToCompactSlice()
	} else {
		im.Bytes, err = sk.ToUpdatableSlice()
	}
	s.Must(err, "hll-encode")
	if s.Bool(1, 6) {
		im.Live, err = sk.Copy()
		s.Must(err, "hll-copy")
	}
	return im
}

func (r *hllRep) open(s *Sim, img *Image) hll.HllSketch {
	if img.Live != nil {
		sk := img.Live.(hll.HllSketch)
		if r.un == nil { // resuming takes it over
			c, err := sk.Copy()
			s.Must(err, "hll-copy")
			return c
		}
		return sk
	}
	sk, err := hll.NewHllSketchFromSlice(slices.Clone(img.Bytes), s.Choose(2) == 0)
	s.Must(err, "hll-decode")
	return sk
}

func (r *hllRep) Restore(s *Sim, img *Image) (Replica, bool) {
	im := img.M.(*hllM)
	n := &hllRep{f: r.f, m: im.m.clone(), bag: im.bag, exact: im.exact}
	if r.un != nil {
		if img.Live != nil || s.Choose(2) == 0 {
			return nil, false
		}
		u, err := hll.NewUnionFromSlice(slices.Clone(img.Bytes))
		s.Must(err, "hll-union-decode")
		n.un = u
		return n, true
	}
	n.sk = r.open(s, img)
	return n, true
}

func (r *hllRep) Absorb(s *Sim, img *Image) {
	im := img.M.(*hllM)
	src := r.open(s, img)
	checkHLLState(s, src, im.m, "received sketch")
	s.Must(r.un.UpdateSketch(src), "hll-union-update")
	checkHLLState(s, src, im.m, "source after merge")
	r.bag = r.bag.Union(im.bag)
	m := r.m
	switch {
	case im.m.mode < 2:
		if m.mode == 2 && len(im.m.list) > 0 {
			r.exact = false // the merge order of coupons decides the running estimate
		}
		if m.mode < 2 && len(m.list)+len(im.m.list) > 0 {
			// promotion may happen in the middle of the merge, in table order
			was := m.mode
			for _, c := range im.m.list {
				m.add(c)
			}
			if m.mode != was && m.mode == 2 {
				r.exact = false
			}
			break
		}
		for _, c := range im.m.list {
			m.add(c)
		}
	case m.mode < 2 && len(m.list) == 0 && im.m.lgK <= m.lgK:
		// adopts the source
		r.m = im.m.clone()
		r.exact = im.exact
	default:
		k := min(m.lgK, im.m.lgK)
		n := &hllModel{lgK: k, mode: 2, set: map[uint64]struct{}{}, touched: true}
		n.regs = foldRegs(im.m.regs, k)
		n.ooo = im.m.ooo
		if m.mode == 2 {
			for i, v := range foldRegs(m.regs, k) {
				n.regs[i] = max(n.regs[i], v)
			}
			n.ooo = true
		} else {
			for _, c := range m.list {
				i := c & uint64(len(n.regs)-1)
				n.regs[i] = max(n.regs[i], byte(c>>26))
			}
		}
		n.k0, n.k1, _ = refKxQ(n.regs)
		r.exact = false
		r.m = n
	}
	s.ProbeIf(r.m.ooo, "hll union of register sketches")
	s.ProbeIf(im.m.mode == 2 && im.m.lgK > r.m.lgK, "hll union folded a larger source")
	s.ProbeIf(m.mode == 2 && m.lgK > r.m.lgK, "hll union folded itself")
}

func (r *hllRep) Check(s *Sim, at string) {
	at = r.Kind() + " " + at
	hip := math.NaN()
	if r.exact {
		hip = r.m.hip
	}
	if s.Choose(2) == 0 {
		checkHLLState(s, r.any(), r.m, at)
		checkHLLNumbers(s, r.any(), r.m, hip, at)
	} else {
		checkHLLNumbers(s, r.any(), r.m, hip, at)
		checkHLLState(s, r.any(), r.m, at)
	}
	// registers follow from the bag alone
	if r.m.mode == 2 && r.m.lgK <= 8 && s.Choose(4) == 0 {
		w := make([]byte, 1<<r.m.lgK)
		for _, b := range r.bag {
			for _, c := range hllCoupons(b) {
				i := c & uint64(len(w)-1)
				w[i] = max(w[i], byte(c>>26))
			}
		}
		if !slices.Equal(w, r.m.regs) {
			panic("harness: hll model disagrees with its bag")
		}
	}
	if r.un != nil {
		e, err := r.un.GetEstimate()
		s.Must(err, "hll-estimate")
		for t := 0; t < 3; t++ {
			res, err := r.un.GetResult(hll.TgtHllType(t))
			s.Must(err, "hll-result")
			e2, err := res.GetEstimate()
			s.Must(err, "hll-estimate")
			s.Assert(relClose(e, e2, 1e-9), "hll-result-estimate", "%s: union estimates %v, its result of width %d %v", at, e, t, e2)
			checkHLLState(s, res, r.m, at+" result")
		}
	}
	s.State(21, uint64(r.m.lgK), uint64(r.m.mode), uint64(len(r.m.list)), uint64(boolInt(r.m.ooo)))
}

func (f *hllFam) DecodeAny(enc string, b []byte) error {
	_, err := hll.NewHllSketchFromSlice(b, true)
	return err
}

// ---- objects for the cross-cutting scenarios ----

type hllState struct {
	h   hllAny
	lgK int // configured
}

func printHLL(o *Obj, p *printer) {
	h := o.Live.(*hllState).h
	est, err := h.GetEstimate()
	p.add("est", est, err)
	c, err := h.GetCompositeEstimate()
	p.add("composite", c, err)
	for n := 1; n <= 3; n++ {
		l, err := h.GetLowerBound(n)
		u, err2 := h.GetUpperBound(n)
		p.add("bounds", l, err, u, err2)
	}
	p.add("empty", h.IsEmpty(), h.GetLgConfigK(), int(h.GetTgtHllType()), hllModeOf(h), h.GetUpdatableSerializationBytes())
	b, err := h.ToCompactSlice()
	p.add("image", err, canonHLL(b))
}

type hllWorld struct {
	lgK   int
	types []valType
	max   int
}

func newHLLWorld(s *Sim) *hllWorld {
	if s.big {
		return &hllWorld{11 + s.Choose(8), drawHLLTypes(s), 150000}
	}
	return &hllWorld{4 + s.Pick(3, 2, 2, 2, 4, 2, 2), drawHLLTypes(s), 700}
}

func (w *hllWorld) items(s *Sim) (valType, []uint64) {
	typ := w.types[s.Choose(len(w.types))]
	n := s.amount(w.max)
	u := uint64(1 + s.Size(4*w.max))
	p := prng{s.Word()}
	ids := make([]uint64, n)
	for i := range ids {
		ids[i] = p.next() % u
	}
	return typ, ids
}

func (w *hllWorld) feed(s *Sim) *Mut {
	typ, ids := w.items(s)
	return &Mut{Name: fmt.Sprintf("update %d %s items", len(ids), typ), Do: func(o *Obj) error {
		h := o.Live.(*hllState).h
		for _, id := range ids {
			if err := hllFeed(h, typ, id); err != nil {
				return err
			}
		}
		return nil
	}}
}

func (w *hllWorld) codecs(union bool) []*Codec {
	pre := "hll"
	if union {
		pre = "hll-union"
	}
	mk := func(compact bool, name string) *Codec {
		return &Codec{Name: pre + "-" + name, Wire: "hll", Exact: true, Canon: canonHLL,
			Sizes: func(o *Obj) (int, int) {
				if n := o.Live.(*hllState).h.GetUpdatableSerializationBytes(); !compact {
					return n, -1
				}
				return -1, -1
			},
			Later: func(img []byte, o *Obj, p *printer) {
				if i, err := parseHLL(img); err != nil || i.mode != 1 {
					printHLL(o, p)
					return
				}
				h := o.Live.(*hllState).h
				c, err := h.GetCompositeEstimate()
				p.add("composite", c, err, h.IsEmpty(), h.GetLgConfigK(), int(h.GetTgtHllType()), hllModeOf(h))
				b, err := h.ToCompactSlice()
				p.add("image", err, canonHLLNoHip(b))
			},
			Enc: func(o *Obj) ([]byte, error) {
				if compact {
					return o.Live.(*hllState).h.ToCompactSlice()
				}
				return o.Live.(*hllState).h.ToUpdatableSlice()
			},
			Dec: func(b []byte) (*Obj, error) {
				if union {
					u, err := hll.NewUnionFromSlice(b)
					if err != nil {
						return nil, err
					}
					return w.obj(u, u.GetLgConfigK(), true), nil
				}
				k, err := hll.NewHllSketchFromSlice(b, true)
				if err != nil {
					return nil, err
				}
				return w.obj(k, k.GetLgConfigK(), false), nil
			}}
	}
	return []*Codec{mk(true, "compact"), mk(false, "updatable")}
}

func (w *hllWorld) obj(h hllAny, lgK int, union bool) *Obj {
	o := &Obj{Live: &hllState{h, lgK}, Print: printHLL}
	o.Limit = &limit{bytes: 4, image: func(o *Obj) (int, int) {
		b, err := o.Live.(*hllState).h.ToCompactSlice()
		if err != nil {
			panic(violation{"encode-error:hll", err.Error()})
		}
		return len(b), hllImageMax(o.Live.(*hllState).h, lgK, union)
	}}
	if union {
		o.Kind = "hll-union"
	} else {
		o.Kind = "hll-sketch"
	}
	o.Codecs = w.codecs(union)
	o.Reset = func(o *Obj) { _ = o.Live.(*hllState).h.Reset() }
	typ := h.GetTgtHllType()
	o.Fresh = func() *Obj {
		if union {
			u, err := hll.NewUnion(lgK)
			if err != nil {
				panic(err)
			}
			return w.obj(u, lgK, true)
		}
		k, err := hll.NewHllSketch(lgK, typ)
		if err != nil {
			panic(err)
		}
		return w.obj(k, lgK, false)
	}
	if union {
		o.Gen = func(s *Sim) *Mut {
			if s.Choose(4) == 0 {
				return w.feed(s)
			}
			src := w.source(s)
			return &Mut{Name: "merge " + src.Kind, Srcs: []*Obj{src}, Do: func(o *Obj) error {
				return o.Live.(*hllState).h.(hll.Union).UpdateSketch(src.Live.(*hllState).h.(hll.HllSketch))
			}}
		}
		o.Derive = func(s *Sim, o *Obj) []*Obj {
			r, err := o.Live.(*hllState).h.(hll.Union).GetResult(hll.TgtHllType(s.Choose(3)))
			s.Must(err, "hll-result")
			return []*Obj{w.obj(r, r.GetLgConfigK(), false)}
		}
	} else {
		o.Gen = func(s *Sim) *Mut { return w.feed(s) }
		o.Derive = func(s *Sim, o *Obj) []*Obj {
			k := o.Live.(*hllState).h.(hll.HllSketch)
			a, err := k.Copy()
			s.Must(err, "hll-copy")
			b, err := k.CopyAs(hll.TgtHllType(s.Choose(3)))
			s.Must(err, "hll-copy")
			return []*Obj{w.obj(a, a.GetLgConfigK(), false), w.obj(b, b.GetLgConfigK(), false)}
		}
	}
	o.Bad = func(s *Sim) []*Mut {
		ms := []*Mut{
			{Name: "hll lower bound of 0 deviations", Do: func(o *Obj) error { _, err := o.Live.(*hllState).h.GetLowerBound(0); return err }},
			{Name: "hll upper bound of 4 deviations", Do: func(o *Obj) error { _, err := o.Live.(*hllState).h.GetUpperBound(4); return err }},
			{Name: "hll new sketch of size 2^3", Do: func(o *Obj) error { _, err := hll.NewHllSketch(3, hll.TgtHllTypeHll8); return err }},
			{Name: "hll new sketch of size 2^22", Do: func(o *Obj) error { _, err := hll.NewHllSketch(22, hll.TgtHllTypeHll8); return err }},
			{Name: "hll new union of size 2^22", Do: func(o *Obj) error { _, err := hll.NewUnion(22); return err }},
		}
		for _, f := range foreignImages() {
			f := f
			if f.fam == "hll" {
				continue
			}
			ms = append(ms, &Mut{Name: "hll restore of a " + f.fam + " image", Do: func(o *Obj) error { _, err := hll.NewHllSketchFromSlice(f.b, true); return err }},
				&Mut{Name: "hll union restore of a " + f.fam + " image", Do: func(o *Obj) error { _, err := hll.NewUnionFromSlice(f.b); return err }})
		}
		return ms
	}
	return o
}

func (w *hllWorld) source(s *Sim) *Obj {
	k := w.lgK
	if s.Choose(2) == 1 {
		k = 4 + s.Choose(7)
	}
	sk, err := hll.NewHllSketch(k, hll.TgtHllType(s.Choose(3)))
	s.Must(err, "hll-new")
	o := w.obj(sk, k, false)
	n := s.Choose(4)
	for i := 0; i < n; i++ {
		s.Must(apply(s, o, w.feed(s), 0), "hll-update")
	}
	return o
}

func init() {
	addKind("hll-sketch", func(s *Sim) *Obj {
		w := newHLLWorld(s)
		sk, err := hll.NewHllSketch(w.lgK, hll.TgtHllType(s.Choose(3)))
		s.Must(err, "hll-new")
		return w.obj(sk, w.lgK, false)
	})
	addKind("hll-union", func(s *Sim) *Obj {
		w := newHLLWorld(s)
		u, err := hll.NewUnion(w.lgK)
		s.Must(err, "hll-new")
		return w.obj(u, w.lgK, true)
	})
	register(&propDef{ID: "D04", Quick: 30000, Thorough: 1000000,
		Scenarios: []scenarioDef{{"hll-big", 1, bigScenario(clusterScenario(newHLLFam))}, {"hll-cluster", 200, clusterScenario(newHLLFam)}},
		Rule:      "Simulated cluster of HLL sketches and unions.",
		Real:      []string{"hll"},
		Stub:      []string{"network, disk, process crashes, clock (simulated)"},
	})
}

// hllImageMax is the documented size of the registers after the preamble.
func hllImageMax(h hllAny, lgK int, union bool) int {
	n := 1 << lgK
	switch {
	case union:
	case h.GetTgtHllType() == hll.TgtHllType(0):
		n = n/2 + 4*n // every register an exception
	case h.GetTgtHllType() == hll.TgtHllType(1):
		n = 3*n/4 + 1
	}
	return 40 + max(n, 32)
}
