package main

import (
	"fmt"
	"math"
	"math/bits"
	"slices"

	"github.com/apache/datasketches-go/cpc"
)

// ---- reference ----

// cpcModel is a set of (row, column) coupons with the running estimate of an
// unmerged sketch.
type cpcModel struct {
	lgK    int
	rows   []uint64
	c      int
	hip    float64
	kxp    float64
	merged bool
}

func newCPCModel(lgK int) *cpcModel {
	return &cpcModel{lgK: lgK, rows: make([]uint64, 1<<lgK), kxp: float64(int(1) << lgK)}
}

func (m *cpcModel) clone() *cpcModel {
	c := *m
	c.rows = slices.Clone(m.rows)
	return &c
}

// cpcCoupon: 26 bits of row, then the column.
func cpcCoupon(typ valType, id, seed uint64) uint64 {
	a, b := refMurmur(cpcBytes(typ, id, seed), seed)
	return a&(1<<26-1)<<6 | uint64(min(bits.LeadingZeros64(b), 63))
}

func (m *cpcModel) add(c uint64) {
	row, col := c>>6&(uint64(len(m.rows))-1), c&63
	if m.rows[row]>>col&1 == 1 {
		return
	}
	m.rows[row] |= 1 << col
	m.c++
	m.hip += float64(len(m.rows)) / m.kxp
	m.kxp -= math.Ldexp(1, -int(col+1))
}

func foldRows(rows []uint64, lgK int) []uint64 {
	out := make([]uint64, 1<<lgK)
	for i, v := range rows {
		out[i&(len(out)-1)] |= v
	}
	return out
}

func countRows(rows []uint64) int {
	n := 0
	for _, v := range rows {
		n += bits.OnesCount64(v)
	}
	return n
}

// flavor and window offset as published: functions of the coupon count.
func cpcFlavor(lgK, c int) int {
	k := 1 << lgK
	switch {
	case c == 0:
		return 0
	case 32*c < 3*k:
		return 1
	case 2*c < k:
		return 2
	case 8*c < 27*k:
		return 3
	}
	return 4
}

// iconExact inverts the expected coupon count numerically.
func iconExact(lgK, c int) float64 {
	k := math.Ldexp(1, lgK)
	exp := func(n float64) float64 {
		t := 0.0
		for col := 1; col <= 63; col++ {
			t -= k * math.Expm1(n*math.Log1p(-math.Ldexp(1, -col)/k))
		}
		return t
	}
	lo, hi := 0.0, 1.0
	for exp(hi) < float64(c) {
		hi *= 2
		if hi > 1e30 {
			return math.Inf(1)
		}
	}
	for i := 0; i < 80; i++ {
		mid := (lo + hi) / 2
		if exp(mid) < float64(c) {
			lo = mid
		} else {
			hi = mid
		}
	}
	return (lo + hi) / 2
}

// ---- feeding ----

type cpcWorld struct {
	seed uint64
}

func cpcBytes(typ valType, id, seed uint64) []byte {
	switch typ {
	case vStr:
		return []byte(itemStr(id))
	case vBytes:
		return itemBytes(id)
	case vCraft:
		if curSim.craft.pat == craftFewRows { // every column of a few rows: tables keyed by row crowd into one run
			return keyWithHash(mix64(id%3+curSim.craft.key)&^3, 1<<63>>(mix64(id+curSim.craft.key)%64), seed)
		}
		h1 := mix64(id*2+1) &^ 3 // one row in four: no real stream fills every row to the last column
		h2 := mix64(id*2+2) >> (id % 64)
		return keyWithHash(h1, h2, seed)
	case vF64:
		return le64(keyBits(itemF64(id)))
	case vI32: // int32 slices
		b := append(append(le64(id&0x7fffffff7fffffff), le64(id*5&0x7fffffff7fffffff)...), le64(id>>3&0x7fffffff)...)
		return b[:4*(1+id%5)]
	case vU32: // int64 slices
		b := append(le64(id), append(le64(id*3), le64(id^77)...)...)
		return b[:8*(1+id%3)]
	}
	return le64(id)
}

func cpcFeed(k *cpc.CpcSketch, typ valType, id, seed uint64) error {
	switch typ {
	case vI64:
		return k.UpdateInt64(int64(id))
	case vU64:
		return k.UpdateUint64(id)
	case vF64:
		return k.UpdateFloat64(itemF64(id))
	case vStr:
		return k.UpdateString(itemStr(id))
	case vI32:
		b := cpcBytes(typ, id, seed)
		x := make([]int32, len(b)/4)
		for i := range x {
			x[i] = int32(uint32(b[4*i]) | uint32(b[4*i+1])<<8 | uint32(b[4*i+2])<<16 | uint32(b[4*i+3])<<24)
		}
		return k.UpdateInt32Slice(x)
	case vU32:
		b := cpcBytes(typ, id, seed)
		x := make([]int64, len(b)/8)
		for i := range x {
			for j := 7; j >= 0; j-- {
				x[i] = x[i]<<8 | int64(b[8*i+j])
			}
		}
		return k.UpdateInt64Slice(x)
	}
	return k.UpdateByteSlice(cpcBytes(typ, id, seed))
}

func drawCPCTypes(s *Sim) []valType {
	switch s.Pick(4, 2, 2, 2) {
	case 0:
		return []valType{vI64}
	case 1:
		return []valType{vStr}
	case 2:
		return []valType{vI64, vU64, vF64, vStr, vBytes, vI32, vU32}
	}
	if s.Bool(1, 4) {
		s.craft.pat, s.craft.key = craftFewRows, s.Word()
		if s.Bool(1, 2) {
			return []valType{vCraft}
		}
	}
	return []valType{vI64, vCraft, vI64}
}

// craftFewRows is the pattern of CPC coupons that fall on three rows only.
const craftFewRows = 9

// ---- checks ----

// cpcMatrix reads the coupons of a sketch through a fresh union.
func cpcMatrix(s *Sim, k *cpc.CpcSketch, seed uint64) []uint64 {
	u, err := cpc.NewCpcUnionSketch(k.GetLgK(), seed)
	s.Must(err, "cpc-new-union")
	s.Must(u.Update(k), "cpc-union-update")
	m, err := u.GetBitMatrix()
	s.Must(err, "cpc-bit-matrix")
	return m
}

func checkCPCMatrix(s *Sim, got, want []uint64, at string) {
	s.checks++
	if len(got) != len(want) {
		s.Fail("cpc-size", "%s: %d rows want %d", at, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			s.Fail("cpc-coupons", "%s: row %d of %d holds %064b want %064b (%d coupons)", at, i, len(want), got[i], want[i], countRows(want))
		}
	}
}

type cpcAny interface {
	GetEstimate() float64
	GetLowerBound(int) float64
	GetUpperBound(int) float64
	GetLgK() int
}

func checkCPCNumbers(s *Sim, k cpcAny, m *cpcModel, at string) {
	est := k.GetEstimate()
	s.Assert(k.GetLgK() == m.lgK, "cpc-lgk", "%s: lgK %d want %d", at, k.GetLgK(), m.lgK)
	if m.c == 0 {
		s.Assert(est == 0, "cpc-empty-estimate", "%s: empty sketch estimates %v", at, est)
		for n := 1; n <= 3; n++ {
			s.Assert(k.GetLowerBound(n) == 0 && k.GetUpperBound(n) == 0, "cpc-empty-bounds", "%s: empty sketch bounds %v,%v", at, k.GetLowerBound(n), k.GetUpperBound(n))
		}
		return
	}
	x0, lim := 0.588705011257737, 1.0
	if m.merged {
		x0, lim = 0.693147180559945, 1.2
		w := iconExact(m.lgK, m.c)
		if float64(m.c) < 12*float64(len(m.rows)) {
			s.Assert(relClose(est, w, 2e-3), "cpc-icon-estimate", "%s: %d coupons in 2^%d rows estimate %v want %v", at, m.c, m.lgK, est, w)
		}
		s.Assert(est >= float64(m.c)*(1-1e-12), "cpc-estimate-below-coupons", "%s: estimate %v below %d coupons", at, est, m.c)
	} else {
		s.Assert(relClose(est, m.hip, 1e-6), "cpc-hip-estimate", "%s: %d coupons estimate %v want %v", at, m.c, est, m.hip)
	}
	rk := math.Sqrt(float64(len(m.rows)))
	lo, hi := est, est
	for n := 1; n <= 3; n++ {
		l, u := k.GetLowerBound(n), k.GetUpperBound(n)
		s.Assert(l <= math.Max(est, float64(m.c))*(1+1e-12) && u >= est, "cpc-bounds", "%s: %d: [%v,%v] around %v", at, n, l, u, est)
		s.Assert(l <= math.Max(lo, float64(m.c))*(1+1e-12) && u >= hi, "cpc-bounds-nested", "%s: %d: [%v,%v] inside [%v,%v]", at, n, l, u, lo, hi)
		s.Assert(l >= float64(m.c), "cpc-lower-bound-floor", "%s: lower bound %v below %d coupons", at, l, m.c)
		// the advertised relative error behind each bound
		band := func(x float64) bool { return x > x0-0.012 && x < x0+lim/rk+0.012 }
		if l > float64(m.c) {
			x := (est/l - 1) * rk / float64(n)
			s.Assert(band(x), "cpc-lower-bound-width", "%s: lower bound %v at %d deviations from %v: error constant %v", at, l, n, est, x)
		}
		if xlo, xhi := (1-est/(u-1))*rk/float64(n), (1-est/u)*rk/float64(n); u > 1 {
			s.Assert(xhi > x0-0.012 && xlo < x0+lim/rk+0.012, "cpc-upper-bound-width", "%s: upper bound %v at %d deviations from %v: error constant %v..%v", at, u, n, est, xlo, xhi)
		}
		lo, hi = l, u
	}
}

func checkCPCSketch(s *Sim, k *cpc.CpcSketch, m *cpcModel, seed uint64, at string) {
	checkCPCMatrix(s, cpcMatrix(s, k, seed), m.rows, at)
	checkCPCNumbers(s, k, m, at)
}

// ---- cluster family ----

type cpcFam struct {
	lgK   int
	seed  uint64
	types []valType
	st    *stream
	maxN  int
	mixK  bool
}

func newCPCFam(s *Sim) Family {
	f := &cpcFam{lgK: 4 + s.Pick(4, 3, 3, 3, 3, 3, 2, 1), mixK: s.Bool(1, 2), types: drawCPCTypes(s), st: newStream(s), seed: 9001}
	if s.Choose(2) == 1 {
		f.seed = drawSeed(s)
	}
	f.maxN = 32 << f.lgK
	if s.Choose(3) == 0 {
		f.maxN = 1 << f.lgK
	}
	f.maxN = min(f.maxN, 8000)
	if s.big {
		f.lgK = []int{11, 12, 12, 13, 14, 16, 18, 20}[s.Choose(8)]
		f.maxN = min(8<<f.lgK, 120000)
	}
	return f
}

func (f *cpcFam) Name() string            { return "cpc" }
func (f *cpcFam) Idempotent() bool        { return true }
func (f *cpcFam) NextBatch(s *Sim) *Batch { return f.st.Next(f.maxN, f.types) }
func (f *cpcFam) drawK(s *Sim) int {
	if f.mixK {
		if s.big {
			return f.lgK - s.Choose(4)
		}
		return 4 + s.Choose(f.lgK-3+1)
	}
	return f.lgK
}

func (f *cpcFam) coupons(b *Batch) []uint64 {
	return b.Hashes("cpc", func(id uint64) uint64 { return cpcCoupon(b.Typ, id, f.seed) })
}

type cpcRep struct {
	f   *cpcFam
	sk  *cpc.CpcSketch
	un  *cpc.CpcUnion
	m   *cpcModel
	bag Bag
}

func (r *cpcRep) Kind() string {
	if r.un != nil {
		return "cpc.union"
	}
	return "cpc.sketch"
}
func (r *cpcRep) Bag() Bag { return r.bag }

func (f *cpcFam) NewLeaf(s *Sim) Replica {
	k := f.drawK(s)
	sk, err := cpc.NewCpcSketch(k, f.seed)
	s.Must(err, "cpc-new")
	return &cpcRep{f: f, sk: sk, m: newCPCModel(k)}
}

func (f *cpcFam) NewAgg(s *Sim) Replica {
	k := f.drawK(s)
	u, err := cpc.NewCpcUnionSketch(k, f.seed)
	s.Must(err, "cpc-new-union")
	m := newCPCModel(k)
	m.merged = true
	return &cpcRep{f: f, un: &u, m: m}
}

func (r *cpcRep) Update(s *Sim, b *Batch) {
	cs := r.f.coupons(b)
	for i, id := range b.IDs {
		s.Must(cpcFeed(r.sk, b.Typ, id, r.f.seed), "cpc-update")
		r.m.add(cs[i])
	}
	r.bag = r.bag.Union(Bag{b})
	s.ProbeIf(cpcFlavor(r.m.lgK, r.m.c) == 4, "cpc sliding window")
}

type cpcM struct {
	bag Bag
	m   *cpcModel
}

func (r *cpcRep) result(s *Sim) *cpc.CpcSketch {
	if r.un == nil {
		return r.sk
	}
	k, err := r.un.GetResult()
	s.Must(err, "cpc-result")
	return k
}

func (r *cpcRep) Encode(s *Sim) *Image {
	k := r.result(s)
	b, err := k.ToCompactSlice()
	s.Must(err, "cpc-encode")
	im := &Image{Enc: "cpc", Bytes: b, M: &cpcM{r.bag, r.m.clone()}}
	w, err := cpc.NewCpcWrapperFromBytes(slices.Clone(b))
	s.Must(err, "cpc-wrapper")
	checkCPCNumbers(s, w, r.m, "wrapped image")
	s.Assert(w.GetEstimate() == k.GetEstimate(), "cpc-wrapper-estimate", "wrapper estimates %v, sketch %v", w.GetEstimate(), k.GetEstimate())
	if s.Bool(1, 6) {
		im.Live, err = k.Copy()
		s.Must(err, "cpc-copy")
	}
	return im
}

func (r *cpcRep) open(s *Sim, img *Image) *cpc.CpcSketch {
	if img.Live != nil {
		k := img.Live.(*cpc.CpcSketch)
		if r.un == nil {
			c, err := k.Copy()
			s.Must(err, "cpc-copy")
			return c
		}
		return k
	}
	k, err := cpc.NewCpcSketchFromSlice(slices.Clone(img.Bytes), r.f.seed)
	s.Must(err, "cpc-decode")
	return k
}

func (r *cpcRep) Restore(s *Sim, img *Image) (Replica, bool) {
	if r.un != nil {
		return nil, false
	}
	im := img.M.(*cpcM)
	return &cpcRep{f: r.f, sk: r.open(s, img), m: im.m.clone(), bag: im.bag}, true
}

func (r *cpcRep) Absorb(s *Sim, img *Image) {
	im := img.M.(*cpcM)
	src := r.open(s, img)
	if s.Choose(3) == 0 {
		checkCPCSketch(s, src, im.m, r.f.seed, "received sketch")
	}
	s.Must(r.un.Update(src), "cpc-union-update")
	if s.Choose(3) == 0 {
		checkCPCSketch(s, src, im.m, r.f.seed, "source after merge")
	}
	r.bag = r.bag.Union(im.bag)
	if im.m.c == 0 {
		return
	}
	k := min(r.m.lgK, im.m.lgK)
	s.ProbeIf(k < r.m.lgK && r.m.c > 0, "cpc union folded itself")
	s.ProbeIf(k < im.m.lgK, "cpc union folded a larger source")
	rows := foldRows(im.m.rows, k)
	for i, v := range foldRows(r.m.rows, k) {
		rows[i] |= v
	}
	r.m = &cpcModel{lgK: k, rows: rows, c: countRows(rows), merged: true}
	s.State(31, uint64(cpcFlavor(r.m.lgK, r.m.c)), uint64(cpcFlavor(im.m.lgK, im.m.c)), uint64(k), uint64(im.m.lgK))
}

func (r *cpcRep) Check(s *Sim, at string) {
	at = r.Kind() + " " + at
	if r.un != nil {
		m, err := r.un.GetBitMatrix()
		s.Must(err, "cpc-bit-matrix")
		checkCPCMatrix(s, m, r.m.rows, at)
	}
	k := r.result(s)
	checkCPCSketch(s, k, r.m, r.f.seed, at+" result")
	if s.Choose(4) == 0 { // the rows follow from the bag alone
		w := make([]uint64, len(r.m.rows))
		for _, b := range r.bag {
			for _, c := range r.f.coupons(b) {
				w[c>>6&uint64(len(w)-1)] |= 1 << (c & 63)
			}
		}
		if r.un != nil || !r.m.merged {
			if !slices.Equal(w, r.m.rows) {
				panic("harness: cpc model disagrees with its bag")
			}
		}
	}
	s.State(30, uint64(r.m.lgK), uint64(r.m.c))
}

func (f *cpcFam) DecodeAny(enc string, b []byte) error {
	_, err := cpc.NewCpcSketchFromSlice(b, f.seed)
	return err
}

// ---- objects for the cross-cutting scenarios ----

type cpcCfg struct {
	lgK   int
	seed  uint64
	types []valType
	max   int
}

func newCPCCfg(s *Sim) *cpcCfg {
	c := &cpcCfg{lgK: 4 + s.Pick(4, 3, 2, 2, 2, 2), seed: 9001, types: drawCPCTypes(s)}
	if s.Choose(2) == 1 {
		c.seed = drawSeed(s)
	}
	c.max = min(3000, 8<<c.lgK)
	if s.big {
		c.lgK = 10 + s.Choose(9)
		c.max = min(150000, 12<<c.lgK)
	}
	return c
}

func printCPCView(k cpcAny, p *printer) {
	p.add("est", k.GetEstimate(), k.GetLgK())
	for n := 1; n <= 3; n++ {
		p.add("bounds", k.GetLowerBound(n), k.GetUpperBound(n))
	}
}

func (c *cpcCfg) feed(s *Sim) *Mut {
	if c.lgK <= 7 && s.Bool(1, 6) {
		return c.fill(s)
	}
	typ := c.types[s.Choose(len(c.types))]
	n := s.amount(c.max)
	u := uint64(1 + s.Size(4*c.max))
	p := prng{s.Word()}
	ids := make([]uint64, n)
	for i := range ids {
		ids[i] = p.next() % u
	}
	return &Mut{Name: fmt.Sprintf("update %d %s items", n, typ), Do: func(o *Obj) error {
		k := o.Live.(*cpc.CpcSketch)
		for _, id := range ids {
			if err := cpcFeed(k, typ, id, c.seed); err != nil {
				return err
			}
		}
		return nil
	}}
}

// fill feeds what a stream of about K·2^cols items leaves behind, without its
// length: nearly every cell of the leading columns.
func (c *cpcCfg) fill(s *Sim) *Mut {
	cols := 5 + s.Choose(25)
	holes := 1 + s.Size(64)
	p := prng{s.Word()}
	var cells []uint32
	for col := 0; col < cols; col++ {
		for row := 0; row < 1<<c.lgK; row++ {
			if p.next()%uint64(holes+1) != 0 {
				cells = append(cells, uint32(row<<6|col))
			}
		}
	}
	if s.Choose(2) == 1 {
		for i := len(cells) - 1; i > 0; i-- {
			j := p.next() % uint64(i+1)
			cells[i], cells[j] = cells[j], cells[i]
		}
	}
	return &Mut{Name: fmt.Sprintf("fill %d columns", cols), Do: func(o *Obj) error {
		k := o.Live.(*cpc.CpcSketch)
		for _, x := range cells {
			if err := k.UpdateByteSlice(keyWithHash(uint64(x>>6), 1<<63>>(x&63), c.seed)); err != nil {
				return err
			}
		}
		return nil
	}}
}

func (c *cpcCfg) sketch(k *cpc.CpcSketch) *Obj {
	o := &Obj{Live: k, Kind: "cpc-sketch", Limit: &limit{bytes: 4, image: func(o *Obj) (int, int) {
		k := o.Live.(*cpc.CpcSketch)
		return cpcImageLen(k), cpcImageMax(k.GetLgK())
	}}}
	o.Print = func(o *Obj, p *printer) {
		k := o.Live.(*cpc.CpcSketch)
		printCPCView(k, p)
		b, err := k.ToCompactSlice()
		p.add("image", err, b)
		u, err := cpc.NewCpcUnionSketch(k.GetLgK(), c.seed)
		if err == nil {
			err = u.Update(k)
		}
		m, err2 := u.GetBitMatrix()
		p.add("rows", err, err2, fmt.Sprintf("%x", m))
	}
	o.Gen = func(s *Sim) *Mut { return c.feed(s) }
	lgK := k.GetLgK()
	o.Fresh = func() *Obj {
		n, err := cpc.NewCpcSketch(lgK, c.seed)
		if err != nil {
			panic(err)
		}
		return c.sketch(n)
	}
	enc := func(o *Obj) ([]byte, error) { return o.Live.(*cpc.CpcSketch).ToCompactSlice() }
	o.Codecs = []*Codec{
		{Name: "cpc", Wire: "cpc", Exact: true, Enc: enc, Dec: func(b []byte) (*Obj, error) {
			n, err := cpc.NewCpcSketchFromSlice(b, c.seed)
			if err != nil {
				return nil, err
			}
			return c.sketch(n), nil
		}},
		{Name: "cpc-wrap", Wire: "cpc", Enc: enc,
			View: func(o *Obj, p *printer) { printCPCView(o.Live.(cpcAny), p) },
			Dec: func(b []byte) (*Obj, error) {
				w, err := cpc.NewCpcWrapperFromBytes(b)
				if err != nil {
					return nil, err
				}
				return &Obj{Kind: "cpc-wrapper", Live: w, ReadOnly: true, Print: func(o *Obj, p *printer) { printCPCView(o.Live.(cpcAny), p) }}, nil
			}},
		{Name: "cpc-text", Text: true, Wire: "cpc", Enc: enc,
			View: func(o *Obj, p *printer) {},
			Dec: func(b []byte) (*Obj, error) {
				if _, err := cpc.CpcSketchToString(b, true); err != nil {
					return nil, err
				}
				return &Obj{Kind: "cpc-text", Live: 0, ReadOnly: true, Print: func(o *Obj, p *printer) {}}, nil
			}},
	}
	o.Derive = func(s *Sim, o *Obj) []*Obj {
		n, err := o.Live.(*cpc.CpcSketch).Copy()
		s.Must(err, "cpc-copy")
		return []*Obj{c.sketch(n)}
	}
	o.Bad = func(s *Sim) []*Mut { return c.bad() }
	return o
}

func (c *cpcCfg) bad() []*Mut {
	other, err := cpc.NewCpcSketch(c.lgK, c.seed+7)
	if err != nil {
		panic(err)
	}
	_ = other.UpdateInt64(1)
	img, _ := other.ToCompactSlice()
	ms := []*Mut{
		{Name: "cpc new sketch of size 2^3", Do: func(o *Obj) error { _, err := cpc.NewCpcSketch(3, c.seed); return err }},
		{Name: "cpc new sketch of size 2^27", Do: func(o *Obj) error { _, err := cpc.NewCpcSketch(27, c.seed); return err }},
		{Name: "cpc new union of size 2^3", Do: func(o *Obj) error { _, err := cpc.NewCpcUnionSketch(3, c.seed); return err }},
		{Name: "cpc restore under another seed", Do: func(o *Obj) error { _, err := cpc.NewCpcSketchFromSlice(img, c.seed); return err }},
		{Name: "cpc union with a sketch of another seed", Do: func(o *Obj) error {
			if u, ok := o.Live.(*cpc.CpcUnion); ok {
				return u.Update(other)
			}
			u, err := cpc.NewCpcUnionSketch(c.lgK, c.seed+7)
			if err != nil {
				return nil
			}
			return u.Update(o.Live.(*cpc.CpcSketch))
		}},
	}
	for _, f := range foreignImages() {
		f := f
		if f.fam == "cpc" {
			continue
		}
		ms = append(ms, &Mut{Name: "cpc restore of a " + f.fam + " image", Do: func(o *Obj) error { _, err := cpc.NewCpcSketchFromSlice(f.b, c.seed); return err }},
			&Mut{Name: "cpc wrap of a " + f.fam + " image", Do: func(o *Obj) error { _, err := cpc.NewCpcWrapperFromBytes(f.b); return err }})
	}
	return ms
}

func (c *cpcCfg) source(s *Sim) *Obj {
	k := c.lgK
	if s.Choose(2) == 1 {
		k = 4 + s.Choose(7)
	}
	sk, err := cpc.NewCpcSketch(k, c.seed)
	s.Must(err, "cpc-new")
	o := c.sketch(sk)
	n := s.Choose(4)
	for i := 0; i < n; i++ {
		s.Must(apply(s, o, c.feed(s), 0), "cpc-update")
	}
	return o
}

func (c *cpcCfg) union(u *cpc.CpcUnion) *Obj {
	o := &Obj{Live: u, Kind: "cpc-union", Limit: &limit{bytes: 8, image: func(o *Obj) (int, int) {
		k, err := o.Live.(*cpc.CpcUnion).GetResult()
		if err != nil {
			panic(violation{"cpc-union-result", err.Error()})
		}
		return cpcImageLen(k), cpcImageMax(k.GetLgK())
	}}}
	o.Print = func(o *Obj, p *printer) {
		u := o.Live.(*cpc.CpcUnion)
		m, err := u.GetBitMatrix()
		p.add("rows", err, fmt.Sprintf("%x", m))
		k, err := u.GetResult()
		p.add("result", err)
		if err == nil {
			printCPCView(k, p)
			b, err := k.ToCompactSlice()
			p.add("image", err, b)
		}
	}
	o.Gen = func(s *Sim) *Mut {
		src := c.source(s)
		return &Mut{Name: "merge " + src.Kind, Srcs: []*Obj{src}, Do: func(o *Obj) error {
			return o.Live.(*cpc.CpcUnion).Update(src.Live.(*cpc.CpcSketch))
		}}
	}
	o.Fresh = func() *Obj {
		n, err := cpc.NewCpcUnionSketch(c.lgK, c.seed)
		if err != nil {
			panic(err)
		}
		return c.union(&n)
	}
	o.Derive = func(s *Sim, o *Obj) []*Obj {
		u := o.Live.(*cpc.CpcUnion)
		k, err := u.GetResult()
		s.Must(err, "cpc-result")
		m, err := u.GetBitMatrix()
		s.Must(err, "cpc-bit-matrix")
		mo := &Obj{Kind: "cpc-matrix", Live: m, Print: func(o *Obj, p *printer) { p.add("rows", fmt.Sprintf("%x", o.Live.([]uint64))) }}
		mo.Reset = func(o *Obj) {
			for i := range o.Live.([]uint64) {
				o.Live.([]uint64)[i] ^= 5
			}
		}
		return []*Obj{c.sketch(k), mo}
	}
	o.Bad = func(s *Sim) []*Mut { return c.bad() }
	return o
}

func init() {
	addKind("cpc-sketch", func(s *Sim) *Obj {
		c := newCPCCfg(s)
		k, err := cpc.NewCpcSketch(c.lgK, c.seed)
		s.Must(err, "cpc-new")
		return c.sketch(k)
	})
	addKind("cpc-union", func(s *Sim) *Obj {
		c := newCPCCfg(s)
		u, err := cpc.NewCpcUnionSketch(c.lgK, c.seed)
		s.Must(err, "cpc-new-union")
		return c.union(&u)
	})
	register(&propDef{ID: "D05", Quick: 20000, Thorough: 1000000,
		Scenarios: []scenarioDef{{"cpc-big", 1, bigScenario(clusterScenario(newCPCFam))}, {"cpc-cluster", 150, clusterScenario(newCPCFam)}},
		Rule:      "Simulated cluster of CPC sketches and unions.",
		Real:      []string{"cpc"},
		Stub:      []string{"network, disk, process crashes, clock (simulated)"},
	})
}
