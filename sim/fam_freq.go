package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/frequencies"
)

// ---- one face for both frequent-items sketches ----

type fqRow struct {
	id          int64
	est, lb, ub int64
}

type fqSketch interface {
	Update(id, w int64) error
	Est(id int64) (int64, error)
	LB(id int64) (int64, error)
	UB(id int64) (int64, error)
	Rows(thr int64, byDefault, nfn bool) ([]fqRow, error)
	N() int64
	MaxErr() int64
	Active() int
	Caps() (int, int)
	Empty() bool
	Encode() ([]byte, error)
	Size() int
	Text() (string, error)
	FromText(t string) (fqSketch, error)
	Decode(b []byte) (fqSketch, error)
	Merge(o fqSketch) error
	Reset() error
	Str() string
}

// fqKeys maps workload ids to the items of one sketch type.
type fqKeys[C comparable] struct {
	name   string
	conv   func(int64) C
	inv    func(C) int64
	serde  common.ItemSketchSerde[C]
	hasher common.ItemSketchHasher[C]
}

type fqLongs struct {
	k  *fqKeys[int64]
	sk *frequencies.LongsSketch
}

func (f fqLongs) inside() any { return f.sk }
func (f fqLongs) Update(id, w int64) error {
	if w == 1 {
		return f.sk.Update(f.k.conv(id))
	}
	return f.sk.UpdateMany(f.k.conv(id), w)
}
func (f fqLongs) Est(id int64) (int64, error) { return f.sk.GetEstimate(f.k.conv(id)) }
func (f fqLongs) LB(id int64) (int64, error)  { return f.sk.GetLowerBound(f.k.conv(id)) }
func (f fqLongs) UB(id int64) (int64, error)  { return f.sk.GetUpperBound(f.k.conv(id)) }
func (f fqLongs) N() int64                    { return f.sk.GetStreamLength() }
func (f fqLongs) MaxErr() int64               { return f.sk.GetMaximumError() }
func (f fqLongs) Active() int                 { return f.sk.GetNumActiveItems() }
func (f fqLongs) Caps() (int, int) {
	return f.sk.GetCurrentMapCapacity(), f.sk.GetMaximumMapCapacity()
}
func (f fqLongs) Empty() bool             { return f.sk.IsEmpty() }
func (f fqLongs) Encode() ([]byte, error) { return f.sk.ToSlice(), nil }
func (f fqLongs) Size() int               { return f.sk.GetStorageBytes() }
func (f fqLongs) Text() (string, error)   { return f.sk.ToString() }
func (f fqLongs) FromText(t string) (fqSketch, error) {
	sk, err := frequencies.NewLongsSketchFromString(t)
	if err != nil {
		return nil, err
	}
	return fqLongs{f.k, sk}, nil
}
func (f fqLongs) Decode(b []byte) (fqSketch, error) {
	sk, err := frequencies.NewLongsSketchFromSlice(b)
	if err != nil {
		return nil, err
	}
	return fqLongs{f.k, sk}, nil
}
func (f fqLongs) Merge(o fqSketch) error {
	r, err := f.sk.Merge(o.(fqLongs).sk)
	if err == nil && r != f.sk {
		return fmt.Errorf("merge returned another sketch")
	}
	return err
}
func (f fqLongs) Reset() error { f.sk.Reset(); return nil }
func (f fqLongs) Str() string  { return f.sk.String() }
func (f fqLongs) Rows(thr int64, byDefault, nfn bool) ([]fqRow, error) {
	e := frequencies.ErrorTypeEnum.NoFalsePositives
	if nfn {
		e = frequencies.ErrorTypeEnum.NoFalseNegatives
	}
	rows, err := f.sk.GetFrequentItemsWithThreshold(thr, e)
	if byDefault {
		rows, err = f.sk.GetFrequentItems(e)
	}
	var out []fqRow
	for _, r := range rows {
		out = append(out, fqRow{id: f.k.inv(r.GetItem()), est: r.GetEstimate(), lb: r.GetLowerBound(), ub: r.GetUpperBound()})
		_ = r.String()
	}
	return out, err
}

type fqItems[C comparable] struct {
	k  *fqKeys[C]
	sk *frequencies.ItemsSketch[C]
}

func (f fqItems[C]) inside() any { return f.sk }
func (f fqItems[C]) Update(id, w int64) error {
	if w == 1 {
		return f.sk.Update(f.k.conv(id))
	}
	return f.sk.UpdateMany(f.k.conv(id), w)
}
func (f fqItems[C]) Est(id int64) (int64, error) { return f.sk.GetEstimate(f.k.conv(id)) }
func (f fqItems[C]) LB(id int64) (int64, error)  { return f.sk.GetLowerBound(f.k.conv(id)) }
func (f fqItems[C]) UB(id int64) (int64, error)  { return f.sk.GetUpperBound(f.k.conv(id)) }
func (f fqItems[C]) N() int64                    { return f.sk.GetStreamLength() }
func (f fqItems[C]) MaxErr() int64               { return f.sk.GetMaximumError() }
func (f fqItems[C]) Active() int                 { return f.sk.GetNumActiveItems() }
func (f fqItems[C]) Caps() (int, int) {
	return f.sk.GetCurrentMapCapacity(), f.sk.GetMaximumMapCapacity()
}
func (f fqItems[C]) Empty() bool             { return f.sk.IsEmpty() }
func (f fqItems[C]) Encode() ([]byte, error) { return f.sk.ToSlice() }
func (f fqItems[C]) Size() int               { return -1 }
func (f fqItems[C]) Text() (string, error)   { return f.sk.ToString() }
func (f fqItems[C]) FromText(t string) (fqSketch, error) {
	return nil, fmt.Errorf("no text form to read")
}
func (f fqItems[C]) Decode(b []byte) (fqSketch, error) {
	sk, err := frequencies.NewFrequencyItemsSketchFromSlice[C](b, f.k.hasher, f.k.serde)
	if err != nil {
		return nil, err
	}
	return fqItems[C]{f.k, sk}, nil
}
func (f fqItems[C]) Merge(o fqSketch) error {
	r, err := f.sk.Merge(o.(fqItems[C]).sk)
	if err == nil && r != f.sk {
		return fmt.Errorf("merge returned another sketch")
	}
	return err
}
func (f fqItems[C]) Reset() error { return f.sk.Reset() }
func (f fqItems[C]) Str() string  { return f.sk.String() }
func (f fqItems[C]) Rows(thr int64, byDefault, nfn bool) ([]fqRow, error) {
	e := frequencies.ErrorTypeEnum.NoFalsePositives
	if nfn {
		e = frequencies.ErrorTypeEnum.NoFalseNegatives
	}
	rows, err := f.sk.GetFrequentItemsWithThreshold(thr, e)
	if byDefault {
		rows, err = f.sk.GetFrequentItems(e)
	}
	var out []fqRow
	for _, r := range rows {
		out = append(out, fqRow{id: f.k.inv(r.GetItem()), est: r.GetEstimate(), lb: r.GetLowerBound(), ub: r.GetUpperBound()})
		_ = r.String()
	}
	return out, err
}

// fqType is one item type with one hasher.
type fqType struct {
	name   string
	text   bool
	fixed  bool // items take eight bytes each in an image
	make   func(lgMax, lgCur int) (fqSketch, error)
	make2  func(maxMap int) (fqSketch, error)
	decode func(b []byte) (fqSketch, error)
	bad    func() []*Mut
}

// user-supplied hashers may be poor ones
type fqHash[C comparable] struct {
	mode int
	h    common.ItemSketchHasher[C]
}

func (h fqHash[C]) Hash(c C) uint64 {
	if curSim != nil {
		curSim.YieldPoint()
	}
	x := h.h.Hash(c)
	switch h.mode {
	case 1:
		return x & 3
	case 2:
		return ^uint64(0)
	case 3:
		return x | ^uint64(3)
	case 4:
		return 0
	}
	return x
}

func fqMix(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

var fqCollide []int64

// fqColliding returns the n-th integer whose hash ends in the last slots of a table.
func fqColliding(n int64) int64 {
	for x := int64(-1 << 40); len(fqCollide) < fqUniverse; x++ {
		if fqMix(uint64(x))&0xff >= 0xfc {
			fqCollide = append(fqCollide, x)
		}
	}
	return fqCollide[n]
}

const (
	fqUniverse    = 4096
	fqBigUniverse = 1 << 16
)

func fqLongType(collide bool) *fqType {
	k := &fqKeys[int64]{name: "longs", conv: func(v int64) int64 { return v - 1000 }, inv: func(v int64) int64 { return v + 1000 }}
	if collide {
		k.name = "longs, colliding"
		k.conv = fqColliding
		k.inv = func(v int64) int64 {
			fqColliding(0)
			i, ok := slices.BinarySearch(fqCollide, v)
			if !ok {
				return -1
			}
			return int64(i)
		}
	}
	t := &fqType{name: k.name, text: true, fixed: true}
	wrap := func(sk *frequencies.LongsSketch, err error) (fqSketch, error) {
		if err != nil {
			return nil, err
		}
		return fqLongs{k, sk}, nil
	}
	t.make = func(a, b int) (fqSketch, error) { return wrap(frequencies.NewLongsSketch(a, b)) }
	t.make2 = func(a int) (fqSketch, error) { return wrap(frequencies.NewLongsSketchWithMaxMapSize(a)) }
	t.decode = func(b []byte) (fqSketch, error) { return fqLongs{k: k}.Decode(b) }
	t.bad = func() []*Mut {
		return []*Mut{
			{Name: "text of another version", Do: func(o *Obj) error {
				_, err := frequencies.NewLongsSketchFromString("2,10,4,0,7,0,1,8,5,7,")
				return err
			}},
			{Name: "text of another family", Do: func(o *Obj) error {
				_, err := frequencies.NewLongsSketchFromString("1,7,4,0,7,0,1,8,5,7,")
				return err
			}},
			{Name: "text with a missing count", Do: func(o *Obj) error {
				_, err := frequencies.NewLongsSketchFromString("1,10,4,0,7,0,1,8,5,")
				return err
			}},
			{Name: "text with a negative count", Do: func(o *Obj) error {
				_, err := frequencies.NewLongsSketchFromString("1,10,4,0,7,0,1,8,5,-7,")
				return err
			}},
			{Name: "text that is not numbers", Do: func(o *Obj) error {
				_, err := frequencies.NewLongsSketchFromString("1,10,4,0,7,0,1,8,five,7,")
				return err
			}},
			{Name: "epsilon of 1000 slots", Do: func(o *Obj) error { _, err := frequencies.GetEpsilonLongsSketch(1000); return err }},
			{Name: "a priori error of 1000 slots", Do: func(o *Obj) error {
				_, err := frequencies.GetAprioriErrorLongsSketch(1000, 10)
				return err
			}},
		}
	}
	return t
}

func fqItemsType[C comparable](k *fqKeys[C], fixed bool) *fqType {
	t := &fqType{name: k.name, fixed: fixed}
	wrap := func(sk *frequencies.ItemsSketch[C], err error) (fqSketch, error) {
		if err != nil {
			return nil, err
		}
		return fqItems[C]{k, sk}, nil
	}
	t.make = func(a, b int) (fqSketch, error) {
		return wrap(frequencies.NewFrequencyItemsSketch[C](a, b, k.hasher, k.serde))
	}
	t.make2 = func(a int) (fqSketch, error) {
		return wrap(frequencies.NewFrequencyItemsSketchWithMaxMapSize[C](a, k.hasher, k.serde))
	}
	t.decode = func(b []byte) (fqSketch, error) { return fqItems[C]{k: k}.Decode(b) }
	t.bad = func() []*Mut {
		return []*Mut{
			{Name: "restore without serde", Do: func(o *Obj) error {
				_, err := frequencies.NewFrequencyItemsSketchFromSlice[C](make([]byte, 8), k.hasher, nil)
				return err
			}},
			{Name: "snapshot without serde", Do: func(o *Obj) error {
				sk, err := frequencies.NewFrequencyItemsSketch[C](4, 3, k.hasher, nil)
				if err != nil {
					panic(err)
				}
				_, err = sk.ToSlice()
				return err
			}},
			{Name: "epsilon of 1000 slots", Do: func(o *Obj) error { _, err := frequencies.GetEpsilonFrequencyItemsSketch(1000); return err }},
			{Name: "a priori error of 1000 slots", Do: func(o *Obj) error {
				_, err := frequencies.GetAprioriErrorFrequencyItemsSketch(1000, 10)
				return err
			}},
		}
	}
	return t
}

func fqWrapHash[C comparable](s *Sim, h common.ItemSketchHasher[C]) common.ItemSketchHasher[C] {
	if s.big { // a large table is purged by the median of a sample, which a constant hash would order
		return fqHash[C]{h: h}
	}
	return fqHash[C]{mode: s.Pick(6, 1, 1, 1, 1), h: h}
}

func drawFqType(s *Sim, longs, items int) *fqType {
	collide := longs
	if s.big {
		collide = 0
	}
	switch s.Pick(3*longs, collide, 3*items, 2*items, 3*items) {
	case 0:
		return fqLongType(false)
	case 1:
		return fqLongType(true)
	case 2:
		t := typeInt64(false)
		return fqItemsType(&fqKeys[int64]{"int64", t.conv, t.inv, yieldSerde[int64]{s, t.serde}, fqWrapHash[int64](s, common.ItemSketchLongHasher{})}, true)
	case 3:
		t := typeFloat64(false)
		return fqItemsType(&fqKeys[float64]{"float64", t.conv, t.inv, yieldSerde[float64]{s, t.serde}, fqWrapHash[float64](s, common.ItemSketchDoubleHasher{})}, true)
	}
	t := typeString(false)
	return fqItemsType(&fqKeys[string]{"string", t.conv, t.inv, yieldSerde[string]{s, t.serde}, fqWrapHash[string](s, common.ItemSketchStringHasher{})}, false)
}

// ---- workload ----

// NextFreq draws a batch of weighted items.
func (st *stream) NextFreq(maxN int) *Batch {
	s := st.s
	b := &Batch{ID: st.nextID}
	st.nextID++
	n := st.size(maxN)
	pat := s.Choose(6)
	wpat := s.Choose(6)
	p := prng{s.Word()}
	univ := uint64(1) << (1 + s.Choose(12))
	if s.big {
		univ <<= 4
	}
	big := int64(1 + s.Choose(1<<20))
	for i := 0; i < n; i++ {
		var v uint64
		switch pat {
		case 0:
			u := p.next() % 1024
			v = univ * u * u * u >> 30
		case 1:
			v = p.next() % univ
		case 2:
			v = st.fresh
			st.fresh++
		case 3: // a few heavy items in a crowd
			if p.next()%3 == 0 {
				v = 7 * (p.next() % 4)
			} else {
				v = st.fresh
				st.fresh++
			}
		case 4:
			v = p.next() % 5
		case 5:
			v = univ - 1
		}
		w := int64(1)
		switch wpat {
		case 1:
			w = int64(1 + p.next()%10)
		case 2:
			w = big
		case 3:
			w = 1 << (p.next() % 31)
		case 4:
			if p.next()%8 == 0 {
				w = 0
			}
		case 5:
			w = int64(n - i)
		}
		if s.big {
			v %= fqBigUniverse
		} else {
			v %= fqUniverse
		}
		b.IDs = append(b.IDs, v)
		b.W = append(b.W, w)
	}
	b.descr = fmt.Sprintf("n=%d pattern=%s weights=%s", n,
		[...]string{"skewed", "uniform", "distinct", "heavy hitters", "few", "one"}[pat],
		[...]string{"1", "1..10", "equal", "powers of 2", "0 or 1", "descending"}[wpat])
	st.all = append(st.all, b)
	return b
}

// ---- oracle ----

type fqModel struct {
	bag   Bag
	lgMax int // of this sketch
	minLg int // of every sketch that fed into it
}

func (m *fqModel) clone() *fqModel { c := *m; return &c }
func (m *fqModel) absorb(o *fqModel) {
	m.bag = m.bag.Concat(o.bag)
	if len(o.bag) > 0 {
		m.minLg = min(m.minLg, o.minLg)
	}
}

func fqTruth(b Bag) (map[int64]int64, []int64, int64) {
	t := map[int64]int64{}
	n := int64(0)
	for _, x := range b {
		for i, v := range x.IDs {
			if x.W[i] != 0 {
				t[int64(v)] += x.W[i] * x.mult()
				n += x.W[i] * x.mult()
			}
		}
	}
	ids := make([]int64, 0, len(t))
	for v := range t {
		ids = append(ids, v)
	}
	slices.Sort(ids)
	return t, ids, n
}

func checkFreq(s *Sim, sk fqSketch, m *fqModel, at string) {
	truth, ids, n := fqTruth(m.bag)
	s.Assert(sk.N() == n, "freq-weight", "%s: stream length %d want %d", at, sk.N(), n)
	s.Assert(sk.Empty() == (n == 0), "freq-empty", "%s: empty=%v with weight %d", at, sk.Empty(), n)
	cur, mx := sk.Caps()
	want := 3 << m.lgMax / 4
	s.Assert(mx == want && cur <= mx && sk.Active() <= cur, "freq-capacity", "%s: capacity %d of %d (want %d), %d active", at, cur, mx, want, sk.Active())
	off := sk.MaxErr()
	s.Assert(off >= 0, "freq-error-negative", "%s: maximum error %d", at, off)
	ap, err := frequencies.GetAprioriErrorLongsSketch(1<<m.minLg, n)
	s.Must(err, "freq-apriori")
	s.Assert(float64(off) <= ap, "freq-apriori", "%s: maximum error %d, a priori bound %v (2^%d slots, weight %d)", at, off, ap, m.minLg, n)
	if n > 0 {
		noteMax(s, "frequencies error / a priori bound x8", 8*float64(off)/ap)
	}
	if len(ids) <= 3<<m.minLg/4 {
		s.Assert(off == 0, "freq-exact", "%s: maximum error %d with %d distinct items in 2^%d slots", at, off, len(ids), m.minLg)
	}
	if sz := sk.Size(); sz >= 0 {
		b, err := sk.Encode()
		s.Must(err, "freq-encode")
		s.Assert(len(b) == sz, "freq-size", "%s: storage %d bytes, image %d", at, sz, len(b))
	}
	// every item, or many
	probe := ids
	all := true
	if len(ids) > 300 && s.Choose(4) != 0 {
		probe = nil
		all = false
		for i := 0; i < 150; i++ {
			probe = append(probe, ids[s.Choose(len(ids))])
		}
	}
	tracked := map[int64]int64{}
	sum := int64(0)
	ask := func(id int64) (int64, int64) {
		lb, err := sk.LB(id)
		s.Must(err, "freq-lb")
		ub, err := sk.UB(id)
		s.Must(err, "freq-ub")
		est, err := sk.Est(id)
		s.Must(err, "freq-est")
		t := truth[id]
		s.Assert(lb >= 0 && lb <= t, "freq-lower-bound", "%s: item %d of weight %d has lower bound %d", at, id, t, lb)
		s.Assert(ub >= t, "freq-upper-bound", "%s: item %d of weight %d has upper bound %d (maximum error %d)", at, id, t, ub, off)
		s.Assert(ub-lb == off, "freq-bound-distance", "%s: item %d has bounds %d..%d, maximum error %d", at, id, lb, ub, off)
		s.Assert(est >= lb && est <= ub, "freq-estimate", "%s: item %d estimated %d outside %d..%d", at, id, est, lb, ub)
		if lb > 0 {
			s.Assert(est == ub, "freq-estimate", "%s: tracked item %d estimated %d, upper bound %d", at, id, est, ub)
		}
		return lb, ub
	}
	for _, id := range probe {
		lb, _ := ask(id)
		if _, ok := tracked[id]; !ok {
			sum += lb
		}
		tracked[id] = lb
	}
	for i := 0; i < 5; i++ {
		id := int64(s.Choose(fqUniverse))
		if lb, _ := ask(id); truth[id] == 0 {
			s.Assert(lb == 0, "freq-unseen", "%s: item %d was never seen, lower bound %d", at, id, lb)
		}
	}
	if all {
		a := 0
		for _, lb := range tracked {
			if lb > 0 {
				a++
			}
		}
		s.Assert(a == sk.Active(), "freq-active", "%s: %d active items, %d with a count", at, sk.Active(), a)
		s.Assert(sum <= n, "freq-conserved", "%s: counts sum to %d of %d", at, sum, n)
	}
	s.State(50, uint64(m.lgMax), uint64(m.minLg), uint64(sk.Active()), uint64(min(off, 1000)))
}

// checkHeavy verifies both lists at one threshold.
func checkHeavy(s *Sim, sk fqSketch, m *fqModel, at string) {
	truth, ids, n := fqTruth(m.bag)
	off := sk.MaxErr()
	byDefault := s.Choose(4) == 0
	thr := int64(0)
	switch s.Choose(5) {
	case 0:
		thr = off + int64(s.Choose(3)) - 1
	case 1, 2:
		if len(ids) > 0 { // right at some item's weight or bound
			id := ids[s.Choose(len(ids))]
			lb, err := sk.LB(id)
			s.Must(err, "freq-lb")
			thr = []int64{truth[id], lb, lb + off}[s.Choose(3)] + int64(s.Choose(3)) - 1
		}
	case 3:
		thr = int64(float64(n) * float64(s.Choose(100)) / 300)
	case 4:
		thr = []int64{0, -5, 1, n, n + 1}[s.Choose(5)]
	}
	if byDefault {
		thr = off
	}
	eff := max(thr, off)
	for _, nfn := range []bool{false, true} {
		rows, err := sk.Rows(thr, byDefault, nfn)
		s.Must(err, "freq-rows")
		in := map[int64]bool{}
		for i, r := range rows {
			s.Assert(!in[r.id], "heavy-duplicate", "%s: item %d listed twice (nfn=%v thr=%d)", at, r.id, nfn, thr)
			in[r.id] = true
			s.Assert(i == 0 || rows[i-1].est >= r.est, "heavy-order", "%s: row %d has estimate %d after %d", at, i, r.est, rows[max(i, 1)-1].est)
			lb, err := sk.LB(r.id)
			s.Must(err, "freq-lb")
			ub, err := sk.UB(r.id)
			s.Must(err, "freq-ub")
			est, err := sk.Est(r.id)
			s.Must(err, "freq-est")
			s.Assert(r.lb == lb && r.ub == ub && r.est == est, "heavy-row", "%s: row of item %d says %d,%d,%d, the sketch %d,%d,%d", at, r.id, r.lb, r.est, r.ub, lb, est, ub)
			s.Assert(lb > 0, "heavy-untracked", "%s: item %d is listed without a count", at, r.id)
			if !nfn {
				s.Assert(truth[r.id] >= eff, "heavy-false-positive", "%s: item %d of weight %d listed at threshold %d (maximum error %d)", at, r.id, truth[r.id], thr, off)
				s.Assert(r.lb >= eff, "heavy-rule", "%s: item %d with lower bound %d listed at threshold %d (maximum error %d)", at, r.id, r.lb, thr, off)
			} else {
				s.Assert(r.ub >= eff, "heavy-rule", "%s: item %d with upper bound %d listed at threshold %d (maximum error %d)", at, r.id, r.ub, thr, off)
			}
		}
		for _, id := range ids {
			if in[id] {
				continue
			}
			t := truth[id]
			if nfn {
				s.Assert(t <= eff, "heavy-false-negative", "%s: item %d of weight %d missing at threshold %d (maximum error %d)", at, id, t, thr, off)
			}
			if t <= eff && !nfn {
				continue
			}
			lb, err := sk.LB(id)
			s.Must(err, "freq-lb")
			if lb == 0 {
				continue
			}
			if nfn {
				s.Assert(lb+off <= eff, "heavy-missing", "%s: item %d with upper bound %d missing at threshold %d (maximum error %d)", at, id, lb+off, thr, off)
			} else {
				s.Assert(lb <= eff, "heavy-missing", "%s: item %d with lower bound %d missing at threshold %d (maximum error %d)", at, id, lb, thr, off)
			}
		}
		s.State(51, uint64(m.lgMax), uint64(len(rows)), uint64(len(ids)))
	}
}

// ---- cluster family ----

type fqFam struct {
	lists bool
	t     *fqType
	lg    int
	mix   bool
	st    *stream
	maxN  int
}

func drawFqLg(s *Sim) int {
	if s.big && s.Choose(8) > 0 {
		return 11 + s.Choose(4)
	}
	return []int{3, 3, 3, 4, 5, 6, 8, 10}[s.Choose(8)]
}

func newFqFam(lists bool) func(s *Sim) Family {
	return func(s *Sim) Family { return mkFqFam(s, lists) }
}

func mkFqFam(s *Sim, lists bool) Family {
	f := &fqFam{lists: lists, t: drawFqType(s, 1, 1), lg: drawFqLg(s), mix: s.Bool(1, 3), st: newStream(s)}
	f.maxN = min(12<<f.lg, 1500)
	if s.big {
		f.maxN = min(12<<f.lg, 30000)
	}
	return f
}

func (f *fqFam) Name() string            { return "frequencies (" + f.t.name + ")" }
func (f *fqFam) Idempotent() bool        { return false }
func (f *fqFam) NextBatch(s *Sim) *Batch { return f.st.NextFreq(f.maxN) }

func (f *fqFam) maxWeight() int64 { return 1 << 61 }

type fqRep struct {
	f  *fqFam
	sk fqSketch
	m  *fqModel
}

func (f *fqFam) new(s *Sim) Replica {
	lg := f.lg
	if f.mix && s.Choose(2) == 1 {
		lg = drawFqLg(s)
	}
	var sk fqSketch
	var err error
	switch s.Choose(4) {
	case 0:
		sk, err = f.t.make(lg, 3+s.Choose(lg-2))
	case 1:
		if lg == 3 {
			sk, err = f.t.make2([]int{1, 2, 4, 8}[s.Choose(4)])
		} else {
			sk, err = f.t.make2(1 << lg)
		}
	default:
		sk, err = f.t.make(lg, 3)
	}
	s.Must(err, "freq-new")
	return &fqRep{f: f, sk: sk, m: &fqModel{lgMax: lg, minLg: lg}}
}

func (f *fqFam) NewLeaf(s *Sim) Replica { return f.new(s) }
func (f *fqFam) NewAgg(s *Sim) Replica  { return f.new(s) }
func (f *fqFam) DecodeAny(enc string, b []byte) error {
	_, err := f.t.decode(b)
	return err
}

func (r *fqRep) Kind() string { return "frequencies" }
func (r *fqRep) Bag() Bag     { return r.m.bag }

func (r *fqRep) Update(s *Sim, b *Batch) {
	at := s.Choose(64)
	for i, v := range b.IDs {
		s.Must(r.sk.Update(int64(v), b.W[i]), "freq-update")
		if i == at {
			s.Assert(r.sk.Update(int64(v), -1) != nil, "freq-negative", "a negative weight was accepted")
		}
	}
	r.m.bag = r.m.bag.Add(b)
}

func (r *fqRep) Encode(s *Sim) *Image {
	img := &Image{Enc: "frequencies", M: r.m.clone()}
	var err error
	if r.f.t.text && s.Choose(3) == 0 {
		img.Enc = "frequencies text"
		img.Live, err = r.sk.Text()
	} else {
		img.Bytes, err = r.sk.Encode()
	}
	s.Must(err, "freq-encode")
	return img
}

func (r *fqRep) decode(s *Sim, img *Image) *fqRep {
	var sk fqSketch
	var err error
	if img.Live != nil {
		sk, err = r.sk.FromText(img.Live.(string))
	} else {
		b := append([]byte(nil), img.Bytes...)
		sk, err = r.f.t.decode(b)
		for i := range b { // the sketch owns what it holds
			b[i] = 0xA5
		}
	}
	s.Must(err, "freq-decode")
	return &fqRep{f: r.f, sk: sk, m: img.M.(*fqModel).clone()}
}

func (r *fqRep) Absorb(s *Sim, img *Image) {
	src := r.decode(s, img)
	s.Must(r.sk.Merge(src.sk), "freq-merge")
	if s.Choose(2) == 0 {
		checkFreq(s, src.sk, src.m, "source after merge")
	}
	r.m.absorb(src.m)
}

// double merges the sketch with a restored copy of itself.
func (r *fqRep) double(s *Sim, c Replica) {
	s.Must(r.sk.Merge(c.(*fqRep).sk), "freq-merge")
	r.m.bag = r.m.bag.Doubled()
}

func (r *fqRep) Restore(s *Sim, img *Image) (Replica, bool) { return r.decode(s, img), true }

func (r *fqRep) Check(s *Sim, at string) {
	if r.f.lists {
		checkHeavy(s, r.sk, r.m, at)
		return
	}
	checkFreq(s, r.sk, r.m, at)
}

// ---- objects for the cross-cutting scenarios ----

type fqCfg struct {
	t         *fqType
	lg, lgCur int
	max       int
	longs     bool
	kind      string
}

func newFqObj(longs bool) func(s *Sim) *Obj {
	return func(s *Sim) *Obj {
		c := &fqCfg{longs: longs}
		if longs {
			c.kind = "freq-longs"
			c.t = fqLongType(s.Choose(4) == 3 && !s.big)
		} else {
			c.kind = "freq-items"
			c.t = drawFqType(s, 0, 1)
		}
		c.lg = drawFqLg(s)
		c.lgCur = 3
		if s.Choose(4) == 0 {
			c.lgCur = 3 + s.Choose(c.lg-2)
		}
		c.max = min(6<<c.lg, 1000)
		if s.big {
			c.max = min(6<<c.lg, 40000)
		}
		return c.Fresh()
	}
}

func (c *fqCfg) Fresh() *Obj {
	sk, err := c.t.make(c.lg, c.lgCur)
	if err != nil {
		panic(err)
	}
	return c.obj(sk)
}

func (c *fqCfg) print(sk fqSketch, p *printer) {
	cur, mx := sk.Caps()
	if c.lgCur > 3 {
		cur = 0 // an empty sketch is restored with the smallest table
	}
	p.add("n", sk.N(), sk.Empty(), sk.MaxErr(), sk.Active(), cur, mx, sk.Size())
	for id := int64(0); id < 24; id++ {
		lb, e1 := sk.LB(id)
		ub, e2 := sk.UB(id)
		est, e3 := sk.Est(id)
		p.add("item", id, lb, ub, est, e1, e2, e3)
	}
	for _, nfn := range []bool{false, true} {
		for _, thr := range []int64{0, sk.N() / 10} {
			rows, err := sk.Rows(thr, false, nfn)
			p.add("rows", nfn, thr, err)
			sort.Slice(rows, func(i, j int) bool {
				if rows[i].est != rows[j].est {
					return rows[i].est > rows[j].est
				}
				return rows[i].id < rows[j].id
			})
			for _, r := range rows {
				p.add("row", r.id, r.lb, r.est, r.ub)
			}
		}
	}
	_ = sk.Str()
}

func (c *fqCfg) source(s *Sim) *Obj {
	c2 := *c
	if s.Choose(2) == 1 {
		c2.lg = drawFqLg(s)
		c2.lgCur = 3
	}
	o := c2.Fresh()
	for n := s.Choose(4); n > 0; n-- {
		s.Must(apply(s, o, c2.feed(s), s.Word()), "freq-update")
	}
	return o
}

func (c *fqCfg) feed(s *Sim) *Mut {
	mx := c.max
	if s.Choose(3) == 0 {
		mx = 5
	}
	st := newStream(s)
	st.fresh = uint64(s.Choose(fqUniverse))
	b := st.NextFreq(mx)
	return &Mut{Name: fmt.Sprintf("update %v", b), Do: func(o *Obj) error {
		for i, v := range b.IDs {
			if err := o.Live.(fqSketch).Update(int64(v), b.W[i]); err != nil {
				return err
			}
		}
		return nil
	}}
}

// fqOffset reads the maximum error recorded in an image.
func fqOffset(b []byte, text bool) int64 {
	if text {
		t := strings.Split(string(b), ",")
		if len(t) < 6 {
			return 0
		}
		v, _ := strconv.ParseInt(t[5], 10, 64)
		return v
	}
	if len(b) < 32 {
		return 0
	}
	return int64(binary.LittleEndian.Uint64(b[24:]))
}

// canon sorts the entries of an image.
func (c *fqCfg) canon(b []byte) string {
	if len(b) >= 8 && c.lgCur > 3 {
		b = append([]byte(nil), b...)
		b[4] = 0 // an empty sketch does not keep its starting size
	}
	if len(b) < 32 {
		return string(b)
	}
	n := int(binary.LittleEndian.Uint32(b[8:]))
	if 32+8*n > len(b) {
		return string(b)
	}
	items := b[32+8*n:]
	var ents []string
	for i := 0; i < n; i++ {
		l := 8
		if !c.t.fixed {
			if len(items) < 4 {
				return string(b)
			}
			l = 4 + int(binary.LittleEndian.Uint32(items))
		}
		if l > len(items) {
			return string(b)
		}
		ents = append(ents, string(items[:l])+string(b[32+8*i:40+8*i]))
		items = items[l:]
	}
	slices.Sort(ents)
	return string(b[:32]) + strings.Join(ents, "") + string(items)
}

func (c *fqCfg) textCanon(b []byte) string {
	t := strings.Split(strings.TrimSuffix(string(b), ","), ",")
	if len(t) < 8 {
		return string(b)
	}
	var ents []string
	for i := 8; i+1 < len(t); i += 2 {
		ents = append(ents, t[i]+"="+t[i+1])
	}
	slices.Sort(ents)
	if c.lgCur > 3 {
		t[7] = ""
	}
	return strings.Join(t[:8], ",") + ";" + strings.Join(ents, ",")
}

func (c *fqCfg) obj(sk fqSketch) *Obj {
	live := func(o *Obj) fqSketch { return o.Live.(fqSketch) }
	o := &Obj{Live: sk, Kind: c.kind, Limit: &limit{what: "items", bytes: 24,
		entries: func(o *Obj) int { return live(o).Active() }, max: constMax(3 << max(c.lg, 3) / 4)}}
	o.Print = func(o *Obj, p *printer) { c.print(live(o), p) }
	o.Gen = func(s *Sim) *Mut {
		if s.Choose(3) == 0 {
			src := c.source(s)
			return &Mut{Name: "merge", Srcs: []*Obj{src}, Do: func(o *Obj) error { return live(o).Merge(live(src)) }}
		}
		return c.feed(s)
	}
	o.Fresh = func() *Obj { return c.Fresh() }
	if c.lgCur == 3 {
		o.Reset = func(o *Obj) {
			if err := live(o).Reset(); err != nil {
				panic(err)
			}
		}
	}
	later := func(text bool) func(b []byte, o *Obj, p *printer) {
		// which counter a purge takes for the median depends on the order of the
		// table, which a restore may change where entries wrap around its end
		return func(b []byte, o *Obj, p *printer) {
			if live(o).MaxErr() == fqOffset(b, text) {
				c.print(live(o), p)
				return
			}
			_, mx := live(o).Caps()
			p.add("n", live(o).N(), live(o).Empty(), mx)
		}
	}
	o.Codecs = []*Codec{{Name: c.kind, Wire: "frequencies", Typ: c.t.name, Exact: true, Canon: c.canon, Later: later(false),
		Enc: func(o *Obj) ([]byte, error) { return live(o).Encode() },
		Dec: func(b []byte) (*Obj, error) {
			n, err := c.t.decode(b)
			if err != nil {
				return nil, err
			}
			return c.obj(n), nil
		}}}
	if c.longs {
		o.Codecs = append(o.Codecs, &Codec{Name: c.kind + "-text", Exact: true, Text: true, Canon: c.textCanon, Later: later(true),
			Enc: func(o *Obj) ([]byte, error) {
				t, err := live(o).Text()
				return []byte(t), err
			},
			Dec: func(b []byte) (*Obj, error) {
				n, err := sk.FromText(string(b))
				if err != nil {
					return nil, err
				}
				return c.obj(n), nil
			}})
	}
	o.Bad = func(s *Sim) []*Mut { return c.bad() }
	return o
}

func (c *fqCfg) bad() []*Mut {
	ms := []*Mut{
		{Name: "update with a negative weight", Do: func(o *Obj) error { return o.Live.(fqSketch).Update(3, -1) }},
		{Name: "update with the smallest weight", Do: func(o *Obj) error { return o.Live.(fqSketch).Update(3, -1<<63) }},
		{Name: "new with 7 slots", Do: func(o *Obj) error { _, err := c.t.make2(7); return err }},
		{Name: "new with 0 slots", Do: func(o *Obj) error { _, err := c.t.make2(0); return err }},
		{Name: "new with -8 slots", Do: func(o *Obj) error { _, err := c.t.make2(-8); return err }},
		{Name: "new with a starting size above the maximum", Do: func(o *Obj) error { _, err := c.t.make(4, 5); return err }},
		{Name: "restore of nothing", Do: func(o *Obj) error { _, err := c.t.decode(nil); return err }},
	}
	ms = append(ms, c.t.bad()...)
	for _, f := range foreignImages() {
		f := f
		if f.fam == "freq" {
			continue
		}
		ms = append(ms, &Mut{Name: "restore of a " + f.fam + " image", Do: func(o *Obj) error {
			_, err := c.t.decode(bytes.Clone(f.b))
			return err
		}})
	}
	for _, m := range ms {
		m.Name = "frequencies " + m.Name
	}
	return ms
}

func init() {
	addKind("freq-longs", newFqObj(true))
	addKind("freq-items", newFqObj(false))
	stub := []string{"network, disk, process crashes, clock (simulated)"}
	register(&propDef{ID: "F01", Quick: 30000, Thorough: 1500000,
		Scenarios: []scenarioDef{{"frequencies-big", 1, bigScenario(clusterScenario(newFqFam(false)))}, {"frequencies-cluster", 180, clusterScenario(newFqFam(false))}, {"frequencies-growth", 20, growthScenario(newFqFam(false))}},
		Rule:      "Simulated cluster of frequent-items sketches against the exact weights.",
		Real:      []string{"frequencies", "common item serializers and hashers"}, Stub: stub})
	register(&propDef{ID: "F02", Quick: 30000, Thorough: 1500000,
		Scenarios: []scenarioDef{{"frequencies-lists-big", 1, bigScenario(clusterScenario(newFqFam(true)))}, {"frequencies-lists", 180, clusterScenario(newFqFam(true))}, {"frequencies-lists-growth", 20, growthScenario(newFqFam(true))}},
		Rule:      "Heavy-hitter lists read throughout the simulated cluster's history.",
		Real:      []string{"frequencies", "common item serializers and hashers"}, Stub: stub})
}
