package main

import (
	"bytes"
	"fmt"
	"io"
	"iter"
	"math"
	"slices"
	"sort"

	"github.com/apache/datasketches-go/theta"
)

// setM is the reference content of a theta-like sketch.
type setM struct {
	empty bool
	theta uint64
	keys  []uint64 // sorted
}

func (m *setM) String() string {
	return fmt.Sprintf("{empty=%v theta=%.4f n=%d}", m.empty, float64(m.theta)/float64(maxTheta), len(m.keys))
}

func below(keys []uint64, th uint64) []uint64 {
	return keys[:sort.Search(len(keys), func(i int) bool { return keys[i] >= th })]
}

func mergeSorted(a, b []uint64) []uint64 {
	out := make([]uint64, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		case a[i] > b[j]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	return append(out, b[j:]...)
}

func commonSorted(a, b []uint64) []uint64 {
	var out []uint64
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			i++
		case a[i] > b[j]:
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func minusSorted(a, b []uint64) []uint64 {
	var out []uint64
	j := 0
	for _, x := range a {
		for j < len(b) && b[j] < x {
			j++
		}
		if j < len(b) && b[j] == x {
			continue
		}
		out = append(out, x)
	}
	return out
}

// refUnion: everything below the smallest threshold, trimmed to k.
func refUnion(k int, start uint64, ms ...*setM) *setM {
	r := &setM{empty: true, theta: start}
	var all []uint64
	for _, m := range ms {
		if m.empty {
			continue
		}
		r.empty = false
		r.theta = min(r.theta, m.theta)
		all = mergeSorted(all, m.keys)
	}
	if r.empty {
		r.theta = maxTheta
		return r
	}
	all = below(all, r.theta)
	if len(all) > k {
		r.theta = all[k]
		all = all[:k]
	}
	r.keys = all
	return r
}

func refIntersect(acc, m *setM) *setM {
	if acc == nil {
		if m.empty {
			return &setM{empty: true, theta: maxTheta}
		}
		return &setM{theta: m.theta, keys: m.keys}
	}
	if acc.empty || m.empty {
		return &setM{empty: true, theta: maxTheta}
	}
	th := min(acc.theta, m.theta)
	r := &setM{theta: th, keys: below(commonSorted(acc.keys, m.keys), th)}
	if len(r.keys) == 0 && th == maxTheta {
		r.empty = true
	}
	return r
}

func refANotB(a, b *setM) *setM {
	if a.empty {
		return &setM{empty: true, theta: maxTheta}
	}
	if b.empty {
		return a
	}
	th := min(a.theta, b.theta)
	r := &setM{theta: th, keys: below(minusSorted(a.keys, b.keys), th)}
	if len(r.keys) == 0 && th == maxTheta {
		r.empty = true
	}
	return r
}

// checkSet compares any theta sketch with its reference.
func checkSet(s *Sim, sk theta.Sketch, m *setM, class, at string) {
	s.Assert(sk.IsEmpty() == m.empty, class+"-empty", "%s: IsEmpty=%v want %v %v", at, sk.IsEmpty(), m.empty, m)
	want := m.theta
	if m.empty {
		want = maxTheta
	}
	s.Assert(sk.Theta64() == want, class+"-theta", "%s: theta %d want %d (%v)", at, sk.Theta64(), want, m)
	s.Assert(int(sk.NumRetained()) == len(m.keys), class+"-count", "%s: retains %d want %d", at, sk.NumRetained(), len(m.keys))
	got := collectTheta(sk)
	if sk.IsOrdered() {
		s.Assert(slices.IsSorted(got), class+"-not-ordered", "%s: claims to be ordered", at)
	}
	slices.Sort(got)
	if !slices.Equal(got, m.keys) {
		s.Fail(class+"-set", "%s: iterates %d hashes want %d; %s", at, len(got), len(m.keys), diffU64(got, m.keys))
	}
	s.checks++
	checkThetaEstimates(s, sk, at)
}

type thetaOp struct {
	sk   theta.Sketch
	m    *setM
	id   int
	what string
}

// thetaSetScenario: nodes hold operands from different partitions, exchange them
// in any encoding and order, crash and restart, and evaluate set expressions.
func thetaSetScenario(s *Sim) {
	f := newThetaFam(s).(*thetaFam)
	seed := f.cfg.seed
	if f.cfg.maxN > 2000 && !s.big {
		f.cfg.maxN = 2000
	}
	var pool []*thetaOp
	nextID := 0
	add := func(sk theta.Sketch, m *setM, what string) *thetaOp {
		o := &thetaOp{sk, m, nextID, what}
		nextID++
		s.Logf("operand %d = %s %v ordered=%v", o.id, what, m, sk.IsOrdered())
		pool = append(pool, o)
		if len(pool) > 10 {
			pool = append(pool[:1:1], pool[2:]...)
		}
		return o
	}
	pick := func() *thetaOp { return pool[s.Choose(len(pool))] }
	leafOp := func() {
		l := f.NewLeaf(s).(*thetaLeaf)
		n := 1 + s.Choose(3)
		for i := 0; i < n; i++ {
			var b *Batch
			if len(f.cfg.st.all) > 0 && s.Choose(2) == 1 {
				b = f.cfg.st.all[s.Choose(len(f.cfg.st.all))]
			} else {
				b = f.NextBatch(s)
			}
			l.Update(s, b)
			s.ops++
		}
		l.Check(s, "operand")
		m := &setM{empty: l.sk.IsEmpty(), theta: l.sk.Theta64()}
		m.keys = below(distinctHashes(l.bag, seed), m.theta)
		if s.Choose(3) == 0 {
			add(l.sk, m, "update sketch")
		} else {
			add(l.sk.Compact(s.Choose(2) == 0), m, "compact sketch")
		}
	}
	reship := func(o *thetaOp) theta.Sketch {
		switch s.Choose(4) {
		case 0:
			return o.sk
		case 1:
			return theta.NewCompactSketch(o.sk, s.Choose(2) == 0)
		}
		c := theta.NewCompactSketch(o.sk, s.Choose(2) == 0)
		img := encodeTheta(s, c, &thetaM{})
		s.Fault("reship")
		sk := openTheta(s, img, seed)
		s.Logf("operand %d shipped as %s to %T", o.id, img.Enc, sk)
		return sk
	}
	leafOp()
	leafOp()
	// one long-lived intersection fed by messages over the whole run
	inter := theta.NewIntersection(theta.WithIntersectionSeed(seed))
	var interM *setM
	var fed []*thetaOp
	steps := 3 + s.Size(24)
	for i := 0; i < steps; i++ {
		s.Now += int64(1 + s.Choose(50))
		s.ops++
		switch s.Pick(4, 4, 4, 3, 3, 2, 2) {
		case 0:
			s.Step("leaf")
			leafOp()
		case 1:
			s.Step("intersection message")
			var o *thetaOp
			if len(fed) > 0 && s.Choose(4) == 0 {
				o = fed[s.Choose(len(fed))]
				s.Fault("duplicate")
			} else {
				o = pick()
			}
			s.Logf("intersect with operand %d", o.id)
			s.Must(inter.Update(reship(o)), "theta-intersection-update")
			interM = refIntersect(interM, o.m)
			fed = append(fed, o)
			s.Assert(inter.HasResult(), "theta-intersection-hasresult", "no result after an update")
			r, err := anyResult(s, inter)
			s.Must(err, "theta-intersection-result")
			checkSet(s, r, interM, "theta-intersection", fmt.Sprintf("intersection of %d", len(fed)))
			if s.Choose(4) == 0 {
				add(r, interM, "running intersection")
			}
		case 2:
			s.Step("a-not-b")
			a, b := pick(), pick()
			ordered := s.Choose(2) == 0
			s.Logf("operand %d \\ operand %d ordered=%v", a.id, b.id, ordered)
			r, err := theta.ANotB(reship(a), reship(b), seed, ordered)
			s.Must(err, "theta-anotb")
			m := refANotB(a.m, b.m)
			checkSet(s, r, m, "theta-anotb", fmt.Sprintf("%v \\ %v", a.m, b.m))
			if ordered {
				s.Assert(r.IsOrdered() || r.NumRetained() <= 1, "theta-anotb-unordered", "ordered result asked for")
			}
			if s.Choose(2) == 0 {
				add(r, m, fmt.Sprintf("%d\\%d", a.id, b.id))
			}
		case 3:
			s.Step("union")
			k := f.drawK(s)
			u, err := theta.NewUnion(theta.WithUnionLgK(k), theta.WithUnionSeed(seed), theta.WithUnionResizeFactor(theta.ResizeFactor(s.Choose(4))))
			s.Must(err, "theta-union-new")
			var ms []*setM
			for j, n := 0, 1+s.Choose(4); j < n; j++ {
				o := pick()
				s.Must(u.Update(reship(o)), "theta-union-update")
				ms = append(ms, o.m)
				if s.Choose(4) == 0 {
					s.Must(u.Update(reship(o)), "theta-union-update")
				}
			}
			r, err := anyResult(s, u)
			s.Must(err, "theta-union-result")
			m := refUnion(1<<k, maxTheta, ms...)
			checkSet(s, r, m, "theta-union", fmt.Sprintf("union of %v, k=%d", ms, 1<<k))
			add(r, m, "union")
		case 4:
			s.Step("jaccard")
			a, b := pick(), pick()
			if s.Choose(4) == 0 {
				b = a
			}
			checkJaccard(s, reship(a), reship(b), a.m, b.m, seed)
		case 5: // the node running the long-lived intersection crashes
			if interM == nil {
				continue
			}
			s.Fault("crash-restart")
			s.Step("restart")
			if s.Choose(3) == 0 && len(fed) > 0 {
				// nothing durable: every message is delivered again, in another order
				inter = theta.NewIntersection(theta.WithIntersectionSeed(seed))
				perm := append([]*thetaOp{}, fed...)
				for j := len(perm) - 1; j > 0; j-- {
					k := s.Choose(j + 1)
					perm[j], perm[k] = perm[k], perm[j]
				}
				var m *setM
				for _, o := range perm {
					s.Must(inter.Update(reship(o)), "theta-intersection-update")
					m = refIntersect(m, o.m)
				}
				r, err := inter.Result(true)
				s.Must(err, "theta-intersection-result")
				checkSet(s, r, m, "theta-intersection", fmt.Sprintf("%d inputs replayed in another order", len(perm)))
				// which inputs were disjoint first may decide between "empty" and "nothing sampled",
				// never what is retained
				s.Assert(slices.Equal(m.keys, interM.keys), "theta-intersection-order", "%d inputs replayed in another order retain %d hashes, before %d", len(perm), len(m.keys), len(interM.keys))
				interM = m
				continue
			}
			r, err := anyResult(s, inter)
			s.Must(err, "theta-intersection-result")
			img := encodeTheta(s, r, &thetaM{})
			inter = theta.NewIntersection(theta.WithIntersectionSeed(seed))
			s.Must(inter.Update(openTheta(s, img, seed)), "theta-intersection-restart")
			r, err = inter.Result(true)
			s.Must(err, "theta-intersection-result")
			checkSet(s, r, interM, "theta-intersection-restart", "intersection restored from its result")
		case 6: // operand itself is stored and reread
			o := pick()
			o.sk = reship(o)
			checkSet(s, o.sk, o.m, "theta-reship", fmt.Sprintf("operand %d (%s) stored and reread", o.id, o.what))
		}
		// operands never change
		if s.Choose(4) == 0 {
			for _, o := range pool {
				checkSet(s, o.sk, o.m, "theta-operand-changed", fmt.Sprintf("operand %d (%s)", o.id, o.what))
			}
		}
		if interM != nil {
			s.State(uint64(boolInt(interM.empty)), uint64(len(interM.keys)), uint64(boolInt(interM.theta < maxTheta)))
		}
		o := pool[len(pool)-1]
		s.State(uint64(boolInt(o.m.empty)), uint64(len(o.m.keys)), uint64(boolInt(o.m.theta < maxTheta)), 2)
		s.ProbeIf(!o.m.empty && len(o.m.keys) == 0, "degenerate operand")
	}
}

func checkJaccard(s *Sim, a, b theta.Sketch, ma, mb *setM, seed uint64) {
	at := fmt.Sprintf("jaccard of %v and %v", ma, mb)
	s.Logf("%s", at)
	j, err := theta.Jaccard(a, b, seed)
	s.Must(err, "theta-jaccard")
	ok := j.LowerBound >= 0 && j.LowerBound <= j.Estimate && j.Estimate <= j.UpperBound && j.UpperBound <= 1
	s.Assert(ok, "theta-jaccard-order", "%s: lb=%v est=%v ub=%v", at, j.LowerBound, j.Estimate, j.UpperBound)
	identical := ma.empty == mb.empty && (ma.empty || ma.theta == mb.theta && slices.Equal(ma.keys, mb.keys))
	eq, err := theta.IsExactlyEqual(a, b, seed)
	s.Must(err, "theta-exactly-equal")
	s.Assert(eq == identical, "theta-exactly-equal", "%s: IsExactlyEqual=%v want %v", at, eq, identical)
	all := func(v float64) bool { return j.LowerBound == v && j.Estimate == v && j.UpperBound == v }
	switch {
	case identical:
		s.Assert(all(1), "theta-jaccard-identical", "%s: %+v want 1", at, j)
	case ma.empty || mb.empty:
		s.Assert(all(0), "theta-jaccard-empty", "%s: %+v want 0", at, j)
	default:
		th := min(ma.theta, mb.theta)
		u := below(mergeSorted(ma.keys, mb.keys), th)
		c := below(commonSorted(ma.keys, mb.keys), th)
		if th == maxTheta {
			want := float64(len(c)) / float64(len(u))
			s.Assert(all(want), "theta-jaccard-exact", "%s: %+v want %v", at, j, want)
		} else if len(u) > 0 {
			want := float64(len(c)) / float64(len(u))
			s.Assert(relClose(j.Estimate, want, 1e-9), "theta-jaccard-estimate", "%s: %+v want %v", at, j, want)
			checkJaccardWidth(s, "theta", j.LowerBound, j.Estimate, j.UpperBound, want, len(u), th, at)
		}
	}
	for _, t := range []float64{0, 0.2, 0.5, 0.9, 1, j.LowerBound, j.UpperBound} {
		si, err := theta.IsSimilar(a, b, t, seed)
		s.Must(err, "theta-is-similar")
		di, err := theta.IsDissimilar(a, b, t, seed)
		s.Must(err, "theta-is-dissimilar")
		s.Assert(si == (j.LowerBound >= t) && di == (j.UpperBound <= t), "theta-similar", "%s: threshold %v similar=%v dissimilar=%v for %+v", at, t, si, di, j)
	}
	// symmetric
	j2, err := theta.Jaccard(b, a, seed)
	s.Must(err, "theta-jaccard")
	s.Assert(j == j2, "theta-jaccard-symmetric", "%s: %+v the other way round %+v", at, j, j2)
}

// ---- objects for the generic scenarios ----

func printTheta(p *printer, sk theta.Sketch) {
	p.add("empty", sk.IsEmpty())
	p.add("est", sk.Estimate(), sk.Theta(), sk.Theta64(), sk.NumRetained(), sk.IsEstimationMode(), sk.IsOrdered())
	h, err := sk.SeedHash()
	p.add("seedhash", h, err)
	for sd := uint8(1); sd <= 3; sd++ {
		lb, e1 := sk.LowerBound(sd)
		ub, e2 := sk.UpperBound(sd)
		p.add("bounds", sd, lb, e1, ub, e2)
	}
	p.add("entries", collectTheta(sk))
	p.add("first", stopAfter(sk.All(), int(sk.NumRetained())/2))
}

// stopAfter leaves an iteration early.
func stopAfter[T any](seq iter.Seq[T], n int) []T {
	var out []T
	for x := range seq {
		out = append(out, x)
		if len(out) >= min(n, 5) {
			break
		}
	}
	return out
}

// printThetaSet leaves out the iteration order and the order flag.
func printThetaSet(p *printer, sk theta.Sketch) {
	p.add("empty", sk.IsEmpty())
	p.add("est", sk.Estimate(), sk.Theta(), sk.Theta64(), sk.NumRetained(), sk.IsEstimationMode())
	h, err := sk.SeedHash()
	p.add("seedhash", h, err)
	for sd := uint8(1); sd <= 3; sd++ {
		lb, e1 := sk.LowerBound(sd)
		ub, e2 := sk.UpperBound(sd)
		p.add("bounds", sd, lb, e1, ub, e2)
	}
	e := collectTheta(sk)
	slices.Sort(e)
	p.add("entries", e)
}

type thetaObjCfg struct {
	seed  uint64
	types []valType
	st    *stream
	maxN  int
}

func newThetaObjCfg(s *Sim) *thetaObjCfg {
	c := &thetaObjCfg{seed: theta.DefaultSeed, types: drawTypes(s), st: newStream(s), maxN: 400}
	if s.Bool(1, 4) {
		c.seed = drawSeed(s)
	}
	s.craft.seed = c.seed
	if s.big {
		c.maxN = 130000
	}
	return c
}

// thetaSource makes a compact or update sketch to merge.
func (c *thetaObjCfg) source(s *Sim) *Obj {
	o := c.updateObj(s)
	for i, n := 0, s.Choose(3); i < n; i++ {
		m := o.Gen(s)
		_ = apply(s, o, m, s.Word())
	}
	if s.Choose(3) == 0 {
		return o
	}
	return c.compactObj(o.Live.(theta.Sketch), s.Choose(2) == 0, s.Choose(3))
}

// compactObj wraps a read-only sketch.
func (c *thetaObjCfg) compactObj(src theta.Sketch, ordered bool, form int) *Obj {
	var sk theta.Sketch = theta.NewCompactSketch(src, ordered)
	kind := "theta-compact"
	if form == 2 {
		b, err := sk.(*theta.CompactSketch).MarshalBinary()
		if err != nil {
			panic(violation{"theta-encode", err.Error()})
		}
		w, err := theta.WrapCompactSketch(b, c.seed)
		if err != nil {
			panic(violation{"theta-wrap", err.Error()})
		}
		sk, kind = w, "theta-wrapped"
	}
	return c.readonly(sk, kind)
}

func (c *thetaObjCfg) readonly(sk theta.Sketch, kind string) *Obj {
	o := &Obj{Kind: kind, Live: sk, ReadOnly: true}
	o.Print = func(o *Obj, p *printer) { printTheta(p, o.Live.(theta.Sketch)) }
	o.Fresh = func() *Obj { return c.readonly(theta.NewCompactSketch(sk, sk.IsOrdered()), kind) }
	o.Codecs = c.codecs()
	o.AltSeed = c.altSeed
	o.Derive = func(s *Sim, o *Obj) []*Obj {
		return []*Obj{c.compactObj(o.Live.(theta.Sketch), s.Choose(2) == 0, 0)}
	}
	return o
}

func (c *thetaObjCfg) codecs() []*Codec {
	compact := func(o *Obj) *theta.CompactSketch {
		if k, ok := o.Live.(*theta.CompactSketch); ok {
			return k
		}
		sk := o.Live.(theta.Sketch)
		return theta.NewCompactSketch(sk, sk.IsOrdered())
	}
	enc := func(compressed bool) func(o *Obj) ([]byte, error) {
		return func(o *Obj) ([]byte, error) {
			if !compressed {
				return compact(o).MarshalBinary()
			}
			var b bytes.Buffer
			e := theta.NewEncoder(&b, true)
			err := e.Encode(compact(o))
			return b.Bytes(), err
		}
	}
	encTo := func(compressed bool) func(o *Obj, w io.Writer) error {
		return func(o *Obj, w io.Writer) error {
			e := theta.NewEncoder(w, compressed)
			return e.Encode(compact(o))
		}
	}
	sizes := func(compressed bool) func(o *Obj) (int, int) {
		return func(o *Obj) (int, int) {
			k := compact(o)
			bound := -1
			if u, ok := o.Live.(*theta.QuickSelectUpdateSketch); ok {
				bound = int(k.MaxSerializedSizeBytes(u.LgK()))
			}
			return k.SerializedSizeBytes(compressed), bound
		}
	}
	dec := func(b []byte) (*Obj, error) {
		k, err := theta.Decode(b, c.seed)
		if err != nil {
			return nil, err
		}
		return c.readonly(k, "theta-compact"), nil
	}
	decFrom := func(r io.Reader) (*Obj, error) {
		d := theta.NewDecoder(c.seed)
		k, err := d.Decode(r)
		if err != nil {
			return nil, err
		}
		return c.readonly(k, "theta-compact"), nil
	}
	wrap := func(b []byte) (*Obj, error) {
		k, err := theta.WrapCompactSketch(b, c.seed)
		if err != nil {
			return nil, err
		}
		return c.readonly(k, "theta-wrapped"), nil
	}
	return []*Codec{
		{Name: "theta", Wire: "theta-v3", Sizes: sizes(false), Enc: enc(false), EncTo: encTo(false), Dec: dec, DecFrom: decFrom},
		{Name: "theta-compressed", Wire: "theta-v3", Sizes: sizes(true), Enc: enc(true), EncTo: encTo(true), Dec: dec, DecFrom: decFrom},
		{Name: "theta-wrap", Wire: "theta-v3", Enc: enc(false), Dec: wrap},
		{Name: "theta-compressed-wrap", Wire: "theta-v3", Enc: enc(true), Dec: wrap},
	}
}

func (c *thetaObjCfg) updateObj(s *Sim) *Obj {
	lgK := uint8(5 + s.Pick(5, 3, 2, 1))
	if s.big {
		lgK = uint8(10 + s.Choose(9))
	}
	rf := theta.ResizeFactor(s.Choose(4))
	p := float32(1)
	if s.Bool(1, 5) {
		p = float32(1+s.Choose(99)) / 100
	}
	o := &Obj{Kind: "theta-update", Limit: &limit{what: "hashes", bytes: 8, max: constMax(thetaMax(lgK)), entries: func(o *Obj) int { return int(o.Live.(interface{ NumRetained() uint32 }).NumRetained()) }}}
	var fresh func() *Obj
	mk := func() *theta.QuickSelectUpdateSketch {
		sk, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lgK), theta.WithUpdateSketchResizeFactor(rf), theta.WithUpdateSketchP(p), theta.WithUpdateSketchSeed(c.seed))
		if err != nil {
			panic(violation{"theta-new", err.Error()})
		}
		return sk
	}
	o.Print = func(o *Obj, p *printer) {
		printTheta(p, o.Live.(theta.Sketch))
		u := o.Live.(*theta.QuickSelectUpdateSketch)
		p.add("k", u.LgK(), u.ResizeFactor())
	}
	o.Gen = func(s *Sim) *Mut {
		if s.Choose(10) == 9 {
			return &Mut{Name: "trim", Do: func(o *Obj) error { o.Live.(*theta.QuickSelectUpdateSketch).Trim(); return nil }}
		}
		b := c.st.Next(c.maxN, c.types)
		return &Mut{Name: b.String(), Do: func(o *Obj) error {
			u := o.Live.(*theta.QuickSelectUpdateSketch)
			for _, id := range b.IDs {
				if err := thetaFeed(u, b.Typ, id); err != nil && err != theta.ErrDuplicateKey && err != theta.ErrHashExceedsTheta && err != theta.ErrZeroHashValue {
					return err
				}
			}
			return nil
		}}
	}
	o.Reset = func(o *Obj) { o.Live.(*theta.QuickSelectUpdateSketch).Reset() }
	o.Derive = func(s *Sim, o *Obj) []*Obj {
		sk := o.Live.(*theta.QuickSelectUpdateSketch)
		return []*Obj{c.readonly(sk.Compact(true), "theta-compact"), c.readonly(sk.Compact(false), "theta-compact"), c.compactObj(sk, s.Choose(2) == 0, s.Choose(3))}
	}
	o.Bad = func(s *Sim) []*Mut {
		return []*Mut{{Name: "empty theta key", Do: func(o *Obj) error {
			u := o.Live.(*theta.QuickSelectUpdateSketch)
			return u.UpdateString("")
		}}}
	}
	o.AltSeed = c.altSeed
	// snapshots of an update sketch are compact images of it
	ord := s.Choose(2) == 0
	viewOrd := func(o *Obj, p *printer) {
		sk := o.Live.(theta.Sketch)
		if u, ok := sk.(*theta.QuickSelectUpdateSketch); ok {
			sk = u.Compact(ord)
		}
		printTheta(p, sk)
	}
	for _, cd := range c.codecs() {
		cd := *cd
		enc, encTo := cd.Enc, cd.EncTo
		conv := func(o *Obj) *Obj {
			if u, ok := o.Live.(*theta.QuickSelectUpdateSketch); ok {
				return &Obj{Live: u.Compact(ord)}
			}
			return o
		}
		cd.Enc = func(o *Obj) ([]byte, error) { return enc(conv(o)) }
		if encTo != nil {
			cd.EncTo = func(o *Obj, w io.Writer) error { return encTo(conv(o), w) }
		}
		if sizes := cd.Sizes; sizes != nil {
			cd.Sizes = func(o *Obj) (int, int) {
				size, _ := sizes(conv(o))
				_, bound := sizes(o)
				return size, bound
			}
		}
		cd.View = viewOrd
		cd.Name = "update-" + cd.Name
		o.Codecs = append(o.Codecs, &cd)
	}
	fresh = func() *Obj {
		n := *o
		n.Live = mk()
		return &n
	}
	o.Fresh = fresh
	return fresh()
}

func (c *thetaObjCfg) unionObj(s *Sim) *Obj {
	lgK := uint8(5 + s.Pick(5, 3, 2, 1))
	if s.big {
		lgK = uint8(10 + s.Choose(9))
	}
	p := float32(1)
	if s.Bool(1, 5) {
		p = float32(1+s.Choose(99)) / 100
	}
	rf := theta.ResizeFactor(s.Choose(4))
	o := &Obj{Kind: "theta-union", Limit: &limit{what: "hashes", bytes: 16, max: constMax(1 << lgK), entries: func(o *Obj) int {
		r, err := o.Live.(*theta.Union).Result(false)
		s.Must(err, "theta-union-result")
		return int(r.NumRetained())
	}}}
	o.Print = func(o *Obj, p *printer) {
		r, err := o.Live.(*theta.Union).Result(true)
		if err != nil {
			p.add("error")
			return
		}
		printTheta(p, r)
		r, _ = o.Live.(*theta.Union).Result(false)
		printTheta(p, r)
	}
	o.Gen = func(s *Sim) *Mut {
		src := c.source(s)
		return &Mut{Name: "merge " + src.Kind, Srcs: []*Obj{src}, Do: func(o *Obj) error { return o.Live.(*theta.Union).Update(src.Live.(theta.Sketch)) }}
	}
	o.Reset = func(o *Obj) { o.Live.(*theta.Union).Reset() }
	o.Derive = func(s *Sim, o *Obj) []*Obj {
		r, err := anyResult(s, o.Live.(*theta.Union))
		s.Must(err, "theta-union-result")
		return []*Obj{c.readonly(r, "theta-compact")}
	}
	o.Bad = c.badSeed(func(o *Obj, sk theta.Sketch) error { return o.Live.(*theta.Union).Update(sk) }, "union")
	o.Fresh = func() *Obj {
		n := *o
		u, err := theta.NewUnion(theta.WithUnionLgK(lgK), theta.WithUnionResizeFactor(rf), theta.WithUnionSketchP(p), theta.WithUnionSeed(c.seed))
		if err != nil {
			panic(violation{"theta-new-union", err.Error()})
		}
		n.Live = u
		return &n
	}
	return o.Fresh()
}

// badSeed offers sketches hashed with another seed; they are never empty.
func (c *thetaObjCfg) badSeed(do func(o *Obj, sk theta.Sketch) error, what string) func(s *Sim) []*Mut {
	return func(s *Sim) []*Mut {
		src := c.altSeed(s)
		if src == nil {
			return nil
		}
		return []*Mut{{Name: "a theta sketch with another seed (" + what + ")", Srcs: []*Obj{src}, Do: func(o *Obj) error { return do(o, src.Live.(theta.Sketch)) }}}
	}
}

// altSeed makes a sketch hashed with another seed, or nil if it came out empty.
func (c *thetaObjCfg) altSeed(s *Sim) *Obj {
	c2 := *c
	for c2.seed == c.seed || sameSeedHash(c2.seed, c.seed) {
		c2.seed = drawSeed(s) + 1<<21
		for h, _ := refMurmur(le64(c2.seed), 0); h&0xffff == 0; h, _ = refMurmur(le64(c2.seed), 0) {
			c2.seed++
		}
	}
	src := c2.source(s)
	if src.Live.(theta.Sketch).IsEmpty() {
		return nil
	}
	return src
}

func sameSeedHash(a, b uint64) bool {
	x, _ := refMurmur(le64(a), 0)
	y, _ := refMurmur(le64(b), 0)
	return x&0xffff == y&0xffff
}

func (c *thetaObjCfg) interObj(s *Sim) *Obj {
	o := &Obj{Kind: "theta-intersection"}
	o.Print = func(o *Obj, p *printer) {
		i := o.Live.(*theta.Intersection)
		p.add("has", i.HasResult())
		r, err := i.Result(true)
		if err != nil {
			p.add("error")
			return
		}
		printTheta(p, r)
		r, _ = i.Result(false)
		printThetaSet(p, r)
	}
	base := c.updateObj(s)
	for i, n := 0, 1+s.Choose(2); i < n; i++ {
		_ = apply(s, base, base.Gen(s), 1)
	}
	o.Gen = func(s *Sim) *Mut {
		// the same base plus something else, so that intersections stay interesting
		var src *Obj
		if s.Choose(3) == 0 {
			src = c.source(s)
		} else {
			l := base.Live.(theta.Sketch)
			u, err := theta.NewUnion(theta.WithUnionLgK(9), theta.WithUnionSeed(c.seed))
			s.Must(err, "theta-new-union")
			s.Must(u.Update(l), "theta-union-update")
			s.Must(u.Update(c.source(s).Live.(theta.Sketch)), "theta-union-update")
			r, err := u.Result(false)
			s.Must(err, "theta-union-result")
			src = c.compactObj(r, s.Choose(2) == 0, s.Choose(3))
		}
		return &Mut{Name: "intersect " + src.Kind, Srcs: []*Obj{src}, Do: func(o *Obj) error { return o.Live.(*theta.Intersection).Update(src.Live.(theta.Sketch)) }}
	}
	o.Derive = func(s *Sim, o *Obj) []*Obj {
		r, err := anyResult(s, o.Live.(*theta.Intersection))
		if err != nil {
			return nil
		}
		return []*Obj{c.readonly(r, "theta-compact")}
	}
	bad := c.badSeed(func(o *Obj, sk theta.Sketch) error { return o.Live.(*theta.Intersection).Update(sk) }, "intersection")
	o.Bad = func(s *Sim) []*Mut {
		ms := bad(s)
		for _, m := range ms {
			do := m.Do
			m.Do = func(o *Obj) error {
				i := o.Live.(*theta.Intersection)
				if i.HasResult() {
					if r, _ := i.Result(false); r != nil && r.IsEmpty() {
						// an empty intersection ignores whatever comes
						return errInjected
					}
				}
				return do(o)
			}
		}
		return ms
	}
	o.Fresh = func() *Obj {
		n := *o
		n.Live = theta.NewIntersection(theta.WithIntersectionSeed(c.seed))
		return &n
	}
	return o.Fresh()
}

func init() {
	register(&propDef{ID: "D02", Quick: 60000, Thorough: 2000000,
		Scenarios: []scenarioDef{{"theta-sets-big", 1, bigScenario(thetaSetScenario)}, {"theta-sets", 300, thetaSetScenario}},
		Rule:      "Simulated nodes exchanging theta operands and evaluating set expressions against exact sorted sets.",
		Real:      []string{"theta", "internal/binomialbounds"},
		Stub:      []string{"network, process crashes, clock (simulated)"},
	})
	addKind("theta-update", func(s *Sim) *Obj { return newThetaObjCfg(s).updateObj(s) })
	addKind("theta-compact", func(s *Sim) *Obj {
		c := newThetaObjCfg(s)
		return c.compactObj(c.source(s).Live.(theta.Sketch), s.Choose(2) == 0, s.Choose(3))
	})
	addKind("theta-union", func(s *Sim) *Obj { return newThetaObjCfg(s).unionObj(s) })
	addKind("theta-intersection", func(s *Sim) *Obj { return newThetaObjCfg(s).interObj(s) })
}

// checkJaccardWidth: the interval is of the order of two standard deviations of
// the ratio seen among n sampled keys.
func checkJaccardWidth(s *Sim, name string, lb, est, ub, want float64, n int, th uint64, at string) {
	if n < 50 || want <= 0.05 || want >= 0.95 {
		return
	}
	f := float64(th) / float64(maxTheta)
	if f == 1 { // a threshold this close to 1 leaves no sampling error in a float64
		return
	}
	w := math.Sqrt(want*(1-want)/float64(n)) * (math.Sqrt(1-f) + 0.01*max(0, f-0.5))
	s.Assert(ub-est >= 0.8*w && ub-est <= 4*w+4/float64(n) && est-lb >= 0.8*w && est-lb <= 4*w+4/float64(n), name+"-jaccard-width", "%s: [%v,%v,%v] with %v sampled", at, lb, est, ub, n)
}
