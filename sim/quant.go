package main

import (
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"

	"github.com/apache/datasketches-go/common"
)

// ---- quantile workloads: items are small integers, mapped monotonically to any type ----

const qMax = 1 << 24

// NextValues draws a batch whose IDs are values in [0,qMax).
func (st *stream) NextValues(maxN int) *Batch {
	s := st.s
	b := &Batch{ID: st.nextID}
	st.nextID++
	n := st.size(maxN)
	pat := s.Choose(8)
	base := uint64(s.Choose(qMax / 2))
	p := prng{s.Word()}
	for i := 0; i < n; i++ {
		var v uint64
		switch pat {
		case 0: // ascending, carrying on where the last one stopped
			v = st.fresh
			st.fresh++
		case 1:
			v = base + uint64(n-i)
		case 2:
			v = p.next() % qMax
		case 3:
			v = base + p.next()%5
		case 4:
			v = base
		case 5: // spread over all magnitudes
			v = p.next() % (1 << (p.next() % 25))
		case 6: // zigzag
			v = base + uint64(i)
			if i&1 == 1 {
				v = qMax - 1 - v
			}
		case 7: // extremes
			v = []uint64{0, 1, qMax - 1, base, qMax - 2}[p.next()%5]
		}
		b.IDs = append(b.IDs, v%qMax)
	}
	b.descr = fmt.Sprintf("n=%d pattern=%s", n, [...]string{"ascending", "descending", "random", "few", "constant", "magnitudes", "zigzag", "extremes"}[pat])
	st.all = append(st.all, b)
	return b
}

// mset is a sorted multiset of values; c[i] counts those up to and including v[i].
type mset struct{ v, c []int64 }

// bagValues returns all values of a bag, in comparator order.
func bagValues(bag Bag, rev bool) mset {
	type vm struct{ v, m int64 }
	simple := true
	for _, b := range bag {
		simple = simple && b.Mult <= 1
	}
	sgn := int64(1)
	if rev {
		sgn = -1
	}
	out := mset{}
	if simple {
		for _, b := range bag {
			for _, v := range b.IDs {
				out.v = append(out.v, sgn*int64(v))
			}
		}
		slices.Sort(out.v)
		out.c = make([]int64, len(out.v))
		for i := range out.c {
			out.c[i] = int64(i) + 1
		}
		return out
	}
	var x []vm
	for _, b := range bag {
		for _, v := range b.IDs {
			x = append(x, vm{sgn * int64(v), b.mult()})
		}
	}
	slices.SortFunc(x, func(a, b vm) int { return int(a.v - b.v) })
	cum := int64(0)
	for _, e := range x {
		cum += e.m
		out.v = append(out.v, e.v)
		out.c = append(out.c, cum)
	}
	return out
}

func (m mset) N() int64 {
	if len(m.c) == 0 {
		return 0
	}
	return m.c[len(m.c)-1]
}

func (m mset) min() int64 { return m.v[0] }
func (m mset) max() int64 { return m.v[len(m.v)-1] }

// at is the i-th smallest value.
func (m mset) at(i int64) int64 {
	return m.v[sort.Search(len(m.c), func(j int) bool { return m.c[j] > i })]
}

// before counts the values of the first i entries.
func (m mset) before(i int) int64 {
	if i == 0 {
		return 0
	}
	return m.c[i-1]
}

// below counts the values below x, or at most x.
func (m mset) below(x int64, inclusive bool) int64 {
	if inclusive {
		return m.before(sort.Search(len(m.v), func(i int) bool { return m.v[i] > x }))
	}
	return m.before(sort.Search(len(m.v), func(i int) bool { return m.v[i] >= x }))
}

func (m mset) has(x int64) bool { _, ok := slices.BinarySearch(m.v, x); return ok }

// wItem is one retained item, in value order, with its weight.
type wItem struct {
	v int64
	w int64
}

func sortWItems(x []wItem) { sort.Slice(x, func(i, j int) bool { return x[i].v < x[j].v }) }

func weightBelow(x []wItem, v int64, inclusive bool) int64 {
	t := int64(0)
	for _, i := range x {
		if i.v < v || inclusive && i.v == v {
			t += i.w
		}
	}
	return t
}

// quantRange returns the smallest and largest acceptable answer to a quantile query
// on weighted items: the natural rank may be rounded by a hair either way.
func quantRange(x []wItem, n int64, rank float64, inclusive bool) (int64, int64) {
	at := func(nr float64) int64 {
		t := int64(0)
		for _, i := range x {
			t += i.w
			if inclusive && float64(t) >= math.Ceil(nr) || !inclusive && float64(t) > math.Floor(nr) {
				return i.v
			}
		}
		return x[len(x)-1].v
	}
	nr := rank * float64(n)
	h := 1e-6 + nr*1e-12
	return at(nr - h), at(nr + h)
}

// itemType maps workload values to one item type of the library.
type itemType[C comparable] struct {
	name  string
	rev   bool
	conv  func(v int64) C
	inv   func(c C) int64
	serde common.ItemSketchSerde[C]
	less  common.CompareFn[C]
}

// ord is the position of a value in the comparator's order.
func (t *itemType[C]) ord(v int64) int64 {
	if t.rev {
		return -v
	}
	return v
}

func qStr(v int64) string {
	if v == 0 {
		return ""
	}
	return fmt.Sprintf("%07x", v)
}

func qStrInv(s string) int64 {
	if s == "" {
		return 0
	}
	var v int64
	if _, err := fmt.Sscanf(s, "%x", &v); err != nil {
		return -1
	}
	return v
}

func typeInt64(rev bool) *itemType[int64] {
	return &itemType[int64]{name: "int64", rev: rev, conv: func(v int64) int64 { return v - 1<<20 }, inv: func(c int64) int64 { return c + 1<<20 },
		serde: common.ItemSketchLongSerDe{}, less: common.ItemSketchLongComparator(rev)}
}

// The wide types spread the workload over the whole range of the item type.

func typeInt64Wide(rev bool) *itemType[int64] {
	return &itemType[int64]{name: "int64 wide", rev: rev,
		conv: func(v int64) int64 {
			if v == qMax-1 {
				return math.MaxInt64
			}
			return (v - qMax/2) << 40
		},
		inv:   func(c int64) int64 { return c>>40 + qMax/2 },
		serde: common.ItemSketchLongSerDe{}, less: common.ItemSketchLongComparator(rev)}
}

func wide64(v int64) float64 {
	const f = 0x7FEFFFFFFFFFFFFF >> 23
	if u := v - qMax/2; u < 0 {
		return -math.Float64frombits(uint64(-u) * f)
	} else {
		return math.Float64frombits(uint64(u) * f)
	}
}

func wide64Inv(c float64) int64 {
	const f = 0x7FEFFFFFFFFFFFFF >> 23
	if c < 0 {
		return qMax/2 - int64(math.Float64bits(-c)/f)
	}
	return qMax/2 + int64(math.Float64bits(c)/f)
}

func wide32(v int64) float32 {
	if u := v - qMax/2; u < 0 {
		return -math.Float32frombits(uint32(-u) * 254)
	} else {
		return math.Float32frombits(uint32(u) * 254)
	}
}

func wide32Inv(c float32) int64 {
	if c < 0 {
		return qMax/2 - int64(math.Float32bits(-c)/254)
	}
	return qMax/2 + int64(math.Float32bits(c)/254)
}

func typeFloat64Wide(rev bool) *itemType[float64] {
	return &itemType[float64]{name: "float64 wide", rev: rev, conv: wide64, inv: wide64Inv,
		serde: common.ItemSketchDoubleSerDe{}, less: common.ItemSketchDoubleComparator(rev)}
}

func typeFloat32Wide(rev bool) *itemType[float32] {
	return &itemType[float32]{name: "float32 wide", rev: rev, conv: wide32, inv: wide32Inv,
		serde: common.ItemSketchFloatSerDe{}, less: common.ItemSketchFloatComparator(rev)}
}

// narrow or wide, as the run has it
func pickType[C comparable](s *Sim, rev bool, narrow, wide func(bool) *itemType[C]) *itemType[C] {
	if s.Bool(1, 3) {
		return wide(rev)
	}
	return narrow(rev)
}

func typeFloat64(rev bool) *itemType[float64] {
	return &itemType[float64]{name: "float64", rev: rev, conv: func(v int64) float64 { return (float64(v) - 1e6) / 4 }, inv: func(c float64) int64 { return int64(c*4 + 1e6) },
		serde: common.ItemSketchDoubleSerDe{}, less: func(a, b float64) bool { return rev && a > b || !rev && a < b }}
}

func typeFloat32(rev bool) *itemType[float32] {
	return &itemType[float32]{name: "float32", rev: rev, conv: func(v int64) float32 { return float32(v) - 1<<20 }, inv: func(c float32) int64 { return int64(c) + 1<<20 },
		serde: common.ItemSketchFloatSerDe{}, less: func(a, b float32) bool { return rev && a > b || !rev && a < b }}
}

func typeString(rev bool) *itemType[string] {
	return &itemType[string]{name: "string", rev: rev, conv: qStr, inv: qStrInv,
		serde: common.ItemSketchStringSerDe{}, less: common.ItemSketchStringComparator(rev)}
}

// typeTied is a string type whose comparator ties strings that are not the same:
// each value is spelled in several ways.
func typeTied(rev bool) *itemType[string] {
	n := uint64(0)
	val := func(c string) string { return strings.TrimLeft(c, " ") }
	return &itemType[string]{name: "string tied", rev: rev,
		conv: func(v int64) string {
			n++
			return strings.Repeat(" ", int(mix64(n)%3)) + qStr(v)
		},
		inv:   func(c string) int64 { return qStrInv(val(c)) },
		serde: common.ItemSketchStringSerDe{},
		less:  func(a, b string) bool { return rev && val(a) > val(b) || !rev && val(a) < val(b) },
	}
}

// yieldSerde suspends the task inside serializer callbacks.
type yieldSerde[C comparable] struct {
	s *Sim
	common.ItemSketchSerde[C]
}

func (y yieldSerde[C]) SizeOf(item C) int {
	curSim.YieldPoint()
	return y.ItemSketchSerde.SizeOf(item)
}

func (y yieldSerde[C]) SerializeOneToSlice(item C) []byte {
	curSim.YieldPoint()
	b := y.ItemSketchSerde.SerializeOneToSlice(item)
	curSim.YieldPoint()
	return b
}

func (y yieldSerde[C]) SerializeManyToSlice(items []C) []byte {
	curSim.YieldPoint()
	b := y.ItemSketchSerde.SerializeManyToSlice(items)
	curSim.YieldPoint()
	return b
}

func (y yieldSerde[C]) DeserializeManyFromSlice(mem []byte, off int, n int) ([]C, error) {
	curSim.YieldPoint()
	return y.ItemSketchSerde.DeserializeManyFromSlice(mem, off, n)
}

// yieldLess suspends the task inside comparator callbacks.
func yieldLess[C comparable](f common.CompareFn[C]) common.CompareFn[C] {
	return func(a, b C) bool {
		curSim.YieldPoint()
		return f(a, b)
	}
}

// splitValues draws distinct values around the data, ascending.
func splitValues(s *Sim, vals []int64, max int) []int64 {
	n := 1 + s.Choose(max)
	var out []int64
	for i := 0; i < n; i++ {
		switch s.Pick(5, 2, 1) {
		case 0:
			if len(vals) > 0 {
				out = append(out, vals[s.Choose(len(vals))]+int64(s.Choose(3))-1)
				continue
			}
			out = append(out, int64(s.Choose(qMax)))
		case 1:
			out = append(out, int64(s.Choose(qMax)))
		case 2:
			if len(vals) > 0 {
				out = append(out, []int64{vals[0] - 1, vals[0], vals[len(vals)-1], vals[len(vals)-1] + 1}[s.Choose(4)])
			}
		}
	}
	for i := range out {
		out[i] = max0(min(out[i], qMax-1))
	}
	slices.Sort(out)
	return slices.Compact(out)
}

func max0(x int64) int64 {
	if x < 0 {
		return 0
	}
	return x
}
