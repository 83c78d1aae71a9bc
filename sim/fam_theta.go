package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"slices"
	"sort"

	"github.com/apache/datasketches-go/theta"
)

const maxTheta = uint64(math.MaxInt64)

// ---- item hashing as any theta or tuple node sees it ----

type kv interface {
	UpdateInt64(int64) error
	UpdateUint64(uint64) error
	UpdateFloat64(float64) error
	UpdateFloat32(float32) error
	UpdateString(string) error
	UpdateBytes([]byte) error
	UpdateInt32(int32) error
	UpdateUint32(uint32) error
	UpdateInt16(int16) error
	UpdateUint16(uint16) error
	UpdateInt8(int8) error
	UpdateUint8(uint8) error
}

func thetaFeed(k kv, typ valType, id uint64) error {
	switch typ {
	case vI64:
		return k.UpdateInt64(itemI64(id))
	case vU64:
		return k.UpdateUint64(id)
	case vF64:
		return k.UpdateFloat64(itemF64(id))
	case vF32:
		return k.UpdateFloat32(itemF32(id))
	case vStr:
		return k.UpdateString(itemStr(id))
	case vBytes:
		return k.UpdateBytes(itemBytes(id))
	case vCraft:
		return k.UpdateBytes(itemCraft(id))
	case vI32:
		return k.UpdateInt32(int32(id))
	case vU32:
		return k.UpdateUint32(uint32(id))
	case vI16:
		return k.UpdateInt16(int16(id))
	case vU16:
		return k.UpdateUint16(uint16(id))
	case vI8:
		return k.UpdateInt8(int8(id))
	case vU8:
		return k.UpdateUint8(uint8(id))
	}
	panic("type")
}

// narrow integer hashing is taken from a one-item sketch, so that only its
// consistency, not a particular function, is required.
func thetaSoloHash(typ valType, id, seed uint64) uint64 {
	sk, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(5), theta.WithUpdateSketchSeed(seed))
	if err != nil {
		panic(err)
	}
	_ = thetaFeed(sk, typ, id)
	for h := range sk.All() {
		return h
	}
	return 0
}

func thetaHash(typ valType, seed uint64) func(id uint64) uint64 {
	h := func(b []byte) uint64 { a, _ := refMurmur(b, seed); return a >> 1 }
	f64 := func(f float64) uint64 { return h(le64(keyBits(f))) }
	switch typ {
	case vI64, vU64:
		return func(id uint64) uint64 { return h(le64(id)) }
	case vF64:
		return func(id uint64) uint64 { return f64(itemF64(id)) }
	case vF32:
		return func(id uint64) uint64 { return f64(float64(itemF32(id))) }
	case vBytes:
		return func(id uint64) uint64 { return h(itemBytes(id)) }
	case vCraft:
		return func(id uint64) uint64 { return h(itemCraft(id)) }
	case vU32:
		return func(id uint64) uint64 { return h(le64(uint64(uint32(id)))) }
	}
	return func(id uint64) uint64 { return thetaSoloHash(typ, id, seed) }
}

func thetaHashes(b *Batch, seed uint64) []uint64 {
	return b.Hashes(fmt.Sprintf("theta%d", seed), thetaHash(b.Typ, seed))
}

// distinctHashes returns the sorted distinct hashes of a bag.
func distinctHashes(bag Bag, seed uint64) []uint64 {
	n := bag.N()
	m := make([]uint64, 0, n)
	for _, b := range bag {
		m = append(m, thetaHashes(b, seed)...)
	}
	slices.Sort(m)
	m = slices.Compact(m)
	if len(m) > 0 && m[0] == 0 {
		m = m[1:]
	}
	return m
}

func bagTouched(bag Bag) bool { return bag.N() > 0 }

// ---- family ----

type thetaCfg struct {
	lgK    uint8
	seed   uint64
	leafP  float32
	unionP float32
	types  []valType
	st     *stream
	maxN   int
	mixK   bool
}

type thetaFam struct{ cfg *thetaCfg }

func newThetaFam(s *Sim) Family {
	c := &thetaCfg{}
	c.lgK = uint8(5 + s.Pick(6, 4, 3, 2, 1, 1))
	c.mixK = s.Bool(1, 2)
	c.seed = theta.DefaultSeed
	if s.Bool(1, 4) {
		c.seed = drawSeed(s)
	}
	c.leafP, c.unionP = 1, 1
	if s.Bool(1, 4) {
		c.leafP = float32(1+s.Choose(99)) / 100
	}
	if s.Bool(1, 6) {
		c.unionP = float32(1+s.Choose(99)) / 100
	}
	c.types = drawTypes(s)
	s.craft.seed = c.seed
	c.st = newStream(s)
	c.maxN = 8 << c.lgK
	if c.maxN > 4000 && s.Bool(3, 4) {
		c.maxN = 4000
	}
	if s.big {
		c.lgK = []uint8{11, 12, 12, 12, 13, 14, 15, 16, 17, 20}[s.Choose(10)]
		c.maxN = min(3<<c.lgK, 120000)
	}
	s.Logf("theta cfg lgK=%d seed=%d leafP=%v unionP=%v types=%v mixK=%v", c.lgK, c.seed, c.leafP, c.unionP, c.types, c.mixK)
	return &thetaFam{c}
}

// drawTypes picks the value types the stream uses: usually one, sometimes all.
func drawTypes(s *Sim) []valType {
	switch s.Pick(8, 4, 4, 2, 2, 3, 1) {
	case 0:
		return []valType{vI64}
	case 5:
		drawCraft(s)
		return []valType{vCraft}
	case 6:
		drawCraft(s)
		return []valType{vCraft, vI64}
	case 1:
		return []valType{vStr}
	case 2:
		return []valType{vI64, vU64, vF64, vStr, vBytes}
	case 3:
		return []valType{vI8, vU8, vI16, vU16, vI32, vU32, vI64, vF32, vF64}
	}
	return []valType{valType(s.Choose(int(nValTypes)))}
}

func (f *thetaFam) Name() string            { return "theta" }
func (f *thetaFam) Idempotent() bool        { return true }
func (f *thetaFam) NextBatch(s *Sim) *Batch { return f.cfg.st.Next(f.cfg.maxN, f.cfg.types) }

func (f *thetaFam) drawK(s *Sim) uint8 {
	k := f.cfg.lgK
	if f.cfg.mixK && s.big {
		k -= uint8(s.Choose(3))
	} else if f.cfg.mixK {
		k = uint8(5 + s.Choose(int(f.cfg.lgK)-4+2))
	}
	return k
}

func (f *thetaFam) NewLeaf(s *Sim) Replica {
	k := f.drawK(s)
	rf := theta.ResizeFactor(s.Choose(4))
	sk, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(k), theta.WithUpdateSketchResizeFactor(rf), theta.WithUpdateSketchP(f.cfg.leafP), theta.WithUpdateSketchSeed(f.cfg.seed))
	s.Must(err, "theta-new")
	return &thetaLeaf{f: f, sk: sk, lgK: k, p: f.cfg.leafP}
}

func (f *thetaFam) NewAgg(s *Sim) Replica {
	k := f.drawK(s)
	rf := theta.ResizeFactor(s.Choose(4))
	u, err := theta.NewUnion(theta.WithUnionLgK(k), theta.WithUnionResizeFactor(rf), theta.WithUnionSketchP(f.cfg.unionP), theta.WithUnionSeed(f.cfg.seed))
	s.Must(err, "theta-new-union")
	return &thetaAgg{f: f, u: u, lgK: k, theta: startTheta(f.cfg.unionP)}
}

func startTheta(p float32) uint64 {
	if p < 1 {
		return uint64(float64(maxTheta) * float64(p))
	}
	return maxTheta
}

// thetaM is what the oracle knows about a theta image.
type thetaM struct {
	bag   Bag
	theta uint64
	empty bool
	n     int
}

type thetaLeaf struct {
	f   *thetaFam
	sk  *theta.QuickSelectUpdateSketch
	lgK uint8
	p   float32
	bag Bag
}

func (l *thetaLeaf) Kind() string { return "theta.update" }
func (l *thetaLeaf) Bag() Bag     { return l.bag }

func (l *thetaLeaf) Update(s *Sim, b *Batch) {
	for _, id := range b.IDs {
		err := thetaFeed(l.sk, b.Typ, id)
		if err != nil && err != theta.ErrDuplicateKey && err != theta.ErrHashExceedsTheta && err != theta.ErrZeroHashValue {
			s.Fail("theta-update-error", "%v", err)
		}
	}
	l.bag = l.bag.Union(Bag{b})
	if s.Bool(1, 12) {
		before := l.sk.NumRetained()
		l.sk.Trim()
		s.Logf("trim %d -> %d", before, l.sk.NumRetained())
		s.Assert(l.sk.NumRetained() == min(before, 1<<l.lgK), "theta-trim-count", "trim left %d of %d entries with nominal %d", l.sk.NumRetained(), before, 1<<l.lgK)
	}
}

// checkThetaSketch checks any theta sketch against a bag and the highest threshold it may have.
func checkThetaSketch(s *Sim, sk theta.Sketch, bag Bag, seed uint64, at string) (all []uint64) {
	all = distinctHashes(bag, seed)
	th := sk.Theta64()
	touched := bagTouched(bag)
	s.Assert(sk.IsEmpty() == !touched, "theta-empty-flag", "%s: IsEmpty=%v with %d updates", at, sk.IsEmpty(), bag.N())
	if sk.IsEmpty() {
		s.Assert(sk.NumRetained() == 0 && sk.Estimate() == 0, "theta-empty-content", "%s: empty sketch retains %d estimates %v", at, sk.NumRetained(), sk.Estimate())
		return
	}
	got := collectTheta(sk)
	s.Assert(len(got) == int(sk.NumRetained()), "theta-num-retained", "%s: iterates %d entries, reports %d", at, len(got), sk.NumRetained())
	if sk.IsOrdered() && len(got) > 1 {
		s.Assert(slices.IsSorted(got), "theta-not-ordered", "%s: claims to be ordered", at)
	}
	sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
	i := sort.Search(len(all), func(i int) bool { return all[i] >= th })
	want := all[:i]
	if !slices.Equal(got, want) {
		s.Fail("theta-retained-set", "%s: retains %d hashes, reference has %d below theta %d (of %d distinct); %s", at, len(got), len(want), th, len(all), diffU64(got, want))
	}
	s.checks++
	checkThetaEstimates(s, sk, at)
	return
}

func diffU64(got, want []uint64) string {
	w := map[uint64]bool{}
	for _, x := range want {
		w[x] = true
	}
	extra := 0
	for _, x := range got {
		if !w[x] {
			extra++
		}
		delete(w, x)
	}
	return fmt.Sprintf("%d extra or repeated, %d missing", extra, len(w))
}

func collectTheta(sk theta.Sketch) []uint64 {
	var got []uint64
	for h := range sk.All() {
		got = append(got, h)
	}
	return got
}

type boundSketch interface {
	Estimate() float64
	Theta() float64
	Theta64() uint64
	NumRetained() uint32
	IsEmpty() bool
	IsEstimationMode() bool
	LowerBound(uint8) (float64, error)
	UpperBound(uint8) (float64, error)
}

func checkThetaEstimates(s *Sim, sk boundSketch, at string) {
	th := sk.Theta64()
	frac := float64(th) / float64(maxTheta)
	s.Assert(relClose(sk.Theta(), frac, 1e-12), "theta-fraction", "%s: Theta()=%v want %v", at, sk.Theta(), frac)
	est := sk.Estimate()
	n := float64(sk.NumRetained())
	s.Assert(relClose(est, n/frac, 1e-9), "theta-estimate", "%s: estimate %v want %v", at, est, n/frac)
	em := th < maxTheta && !sk.IsEmpty()
	s.Assert(sk.IsEstimationMode() == em, "theta-estimation-mode", "%s: IsEstimationMode=%v theta=%d", at, sk.IsEstimationMode(), th)
	plb, pub := math.Inf(1), math.Inf(-1)
	for sd := uint8(1); sd <= 3; sd++ {
		lb, err := sk.LowerBound(sd)
		s.Must(err, "theta-lower-bound")
		ub, err := sk.UpperBound(sd)
		s.Must(err, "theta-upper-bound")
		if !em {
			s.Assert(lb == n && ub == n && est == n, "theta-exact-bounds", "%s: exact mode n=%v lb=%v est=%v ub=%v", at, n, lb, est, ub)
			continue
		}
		s.Assert(lb <= est*(1+1e-9) && est <= ub*(1+1e-9), "theta-bounds-order", "%s: sd=%d lb=%v est=%v ub=%v", at, sd, lb, est, ub)
		s.Assert(lb <= plb && ub >= pub, "theta-bounds-nesting", "%s: sd=%d lb=%v ub=%v previous lb=%v ub=%v", at, sd, lb, ub, plb, pub)
		s.Assert(lb >= n, "theta-lower-bound-floor", "%s: sd=%d lb=%v below retained %v", at, sd, lb, n)
		plb, pub = lb, ub
		// not absurdly wide or narrow: relative half-widths near sd/sqrt(n) for large n
		if n >= 100 && frac < 0.9 {
			rel := float64(sd) * math.Sqrt(1-frac) / math.Sqrt(n)
			s.Assert(ub <= est*(1+2*rel+8/n) && ub >= est*(1+0.5*rel) && lb >= est*(1-2*rel-8/n) && lb <= est*(1-0.4*rel), "theta-bounds-width", "%s: sd=%d n=%v theta=%v lb=%v est=%v ub=%v", at, sd, n, frac, lb, est, ub)
		}
	}
	if em {
		for _, sd := range []uint8{0, 4} {
			_, e1 := sk.LowerBound(sd)
			_, e2 := sk.UpperBound(sd)
			s.Assert(e1 != nil && e2 != nil, "theta-bounds-invalid-sd", "%s: %d standard deviations accepted", at, sd)
		}
	}
}

func relClose(a, b, tol float64) bool {
	if a == b {
		return true
	}
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	return math.Abs(a-b) <= tol*math.Max(math.Abs(a), math.Abs(b))
}

func (l *thetaLeaf) Check(s *Sim, at string) {
	at = "theta update sketch " + at
	all := checkThetaSketch(s, l.sk, l.bag, l.f.cfg.seed, at)
	if l.sk.IsEmpty() {
		s.Assert(l.sk.Theta64() == maxTheta, "theta-empty-theta", "%s: theta %d", at, l.sk.Theta64())
		return
	}
	th := l.sk.Theta64()
	st := startTheta(l.p)
	k := 1 << l.lgK
	n := int(l.sk.NumRetained())
	s.Assert(th <= st, "theta-above-start", "%s: theta %d above sampling threshold %d", at, th, st)
	if th < st {
		s.Probe("theta leaf estimating")
		s.Assert(n >= k, "theta-under-nominal", "%s: estimating with %d < nominal %d", at, n, k)
		_, ok := slices.BinarySearch(all, th)
		s.Assert(ok, "theta-not-a-hash", "%s: theta %d is not the hash of any item", at, th)
	}
	s.Assert(n < 2*k, "theta-over-capacity", "%s: retains %d with nominal %d", at, n, k)
	s.State(1, uint64(l.lgK), uint64(n*8/k), uint64(boolInt(th < st)))
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (l *thetaLeaf) m() *thetaM {
	return &thetaM{l.bag, l.sk.Theta64(), l.sk.IsEmpty(), int(l.sk.NumRetained())}
}

func (l *thetaLeaf) Encode(s *Sim) *Image {
	if s.Bool(1, 8) {
		return &Image{Enc: "theta-live", Live: l.sk, M: l.m(), Bytes: mustTheta(s, l.sk.Compact(false))}
	}
	ordered := s.Choose(2) == 0
	return encodeTheta(s, l.sk.Compact(ordered), l.m())
}

func mustTheta(s *Sim, c *theta.CompactSketch) []byte {
	b, err := c.MarshalBinary()
	s.Must(err, "theta-encode")
	return b
}

// encodeTheta serializes a compact sketch one of the ways the API offers.
func encodeTheta(s *Sim, c *theta.CompactSketch, m *thetaM) *Image {
	var b []byte
	enc := "theta-v3"
	switch s.Choose(3) {
	case 0:
		b = mustTheta(s, c)
	case 1:
		var buf bytes.Buffer
		e := theta.NewEncoder(&buf, true)
		s.Must(e.Encode(c), "theta-encode")
		b, enc = buf.Bytes(), "theta-compressed"
	case 2:
		var buf bytes.Buffer
		e := theta.NewEncoder(&buf, false)
		s.Must(e.Encode(c), "theta-encode")
		b = buf.Bytes()
	}
	s.Assert(len(b) == c.SerializedSizeBytes(enc == "theta-compressed"), "theta-serialized-size", "%s: wrote %d bytes, announced %d", enc, len(b), c.SerializedSizeBytes(enc == "theta-compressed"))
	return &Image{Enc: enc, Bytes: b, M: m}
}

// openTheta decodes an image one of the ways the API offers.
func openTheta(s *Sim, img *Image, seed uint64) theta.Sketch {
	if img.Enc == "theta-live" {
		if up, ok := img.Live.(theta.Sketch); ok && s.Choose(2) == 0 && up.Theta64() == img.M.(*thetaM).theta && int(up.NumRetained()) == img.M.(*thetaM).n && up.IsEmpty() == img.M.(*thetaM).empty {
			return up
		}
	}
	switch s.Choose(3) {
	case 0:
		c, err := theta.Decode(img.Bytes, seed)
		s.Must(err, "theta-decode")
		return c
	case 1:
		w, err := theta.WrapCompactSketch(img.Bytes, seed)
		s.Must(err, "theta-wrap")
		return w
	default:
		d := theta.NewDecoder(seed)
		c, err := d.Decode(chunked(s, img.Bytes))
		s.Must(err, "theta-decode-stream")
		return c
	}
}

// chunkReader fragments a byte stream.
type chunkReader struct {
	b   []byte
	max int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := min(len(p), c.max, len(c.b))
	copy(p, c.b[:n])
	c.b = c.b[n:]
	return n, nil
}

func chunked(s *Sim, b []byte) io.Reader {
	n := 1 + s.Size(64)
	s.Fault("short-read")
	return &chunkReader{b, n}
}

func (f *thetaFam) DecodeAny(enc string, b []byte) error {
	_, err := theta.Decode(b, f.cfg.seed)
	return err
}

func (l *thetaLeaf) Absorb(s *Sim, img *Image)                  { panic("harness: leaf absorb") }
func (l *thetaLeaf) Restore(s *Sim, img *Image) (Replica, bool) { return nil, false }

type thetaAgg struct {
	f     *thetaFam
	u     *theta.Union
	lgK   uint8
	theta uint64
	bag   Bag
}

func (a *thetaAgg) Kind() string                               { return "theta.union" }
func (a *thetaAgg) Bag() Bag                                   { return a.bag }
func (a *thetaAgg) Update(s *Sim, b *Batch)                    { panic("harness: union update") }
func (a *thetaAgg) Restore(s *Sim, img *Image) (Replica, bool) { return nil, false }

func (a *thetaAgg) Absorb(s *Sim, img *Image) {
	sk := openTheta(s, img, a.f.cfg.seed)
	m := img.M.(*thetaM)
	s.Assert(sk.IsEmpty() == m.empty && (m.empty || sk.Theta64() == m.theta) && int(sk.NumRetained()) == m.n, "theta-image-changed", "decoded %T empty=%v theta=%d n=%d, sent empty=%v theta=%d n=%d", sk, sk.IsEmpty(), sk.Theta64(), sk.NumRetained(), m.empty, m.theta, m.n)
	s.Must(a.u.Update(sk), "theta-union-update")
	if !m.empty {
		a.theta = min(a.theta, m.theta)
		a.bag = a.bag.Union(m.bag)
	} else {
		a.bag = a.bag.Union(m.bag) // only batches with no items
	}
}

// expect computes the reference content of a union result.
func (a *thetaAgg) expect() (uint64, []uint64, []uint64) {
	all := distinctHashes(a.bag, a.f.cfg.seed)
	i := sort.Search(len(all), func(i int) bool { return all[i] >= a.theta })
	k := 1 << a.lgK
	if i > k {
		return all[k], all[:k], all
	}
	return a.theta, all[:i], all
}

func (a *thetaAgg) Check(s *Sim, at string) {
	at = "theta union " + at
	res, err := anyResult(s, a.u)
	s.Must(err, "theta-union-result")
	checkThetaSketch(s, res, a.bag, a.f.cfg.seed, at)
	if res.IsEmpty() {
		return
	}
	th, ent, _ := a.expect()
	s.Assert(res.Theta64() == th, "theta-union-threshold", "%s: theta %d want %d (k=%d, retained %d, reference %d)", at, res.Theta64(), th, 1<<a.lgK, res.NumRetained(), len(ent))
	s.Assert(int(res.NumRetained()) == len(ent), "theta-union-count", "%s: retained %d want %d", at, res.NumRetained(), len(ent))
	s.ProbeIf(th < a.theta, "theta union trimmed")
	s.ProbeIf(th == a.theta && th < maxTheta, "theta union limited by input")
	s.ProbeIf(th == maxTheta, "theta union exact")
	s.State(2, uint64(a.lgK), uint64(len(ent)), uint64(boolInt(th < a.theta)))
}

func (a *thetaAgg) Encode(s *Sim) *Image {
	res, err := anyResult(s, a.u)
	s.Must(err, "theta-union-result")
	return encodeTheta(s, res, &thetaM{a.bag, res.Theta64(), res.IsEmpty(), int(res.NumRetained())})
}

func init() {
	register(&propDef{ID: "D01", Quick: 60000, Thorough: 2000000,
		Scenarios: []scenarioDef{{"theta-big", 1, bigScenario(clusterScenario(newThetaFam))}, {"theta-cluster", 300, clusterScenario(newThetaFam)}},
		Rule:      "Simulated cluster of theta sketches.",
		Real:      []string{"theta"},
		Stub:      []string{"network, disk, process crashes, clock (simulated)"},
	})
}
