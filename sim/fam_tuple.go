package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"slices"
	"strings"

	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"
)

// ---- summaries ----

// chainSum is a summary whose value depends on the order of everything folded into it.
type chainSum struct{ v, n uint64 }

func (c *chainSum) Reset()               { *c = chainSum{} }
func (c *chainSum) Clone() tuple.Summary { d := *c; return &d }
func (c *chainSum) Update(v uint64)      { c.v = mix64(c.v*31 + v + 1); c.n++ }
func (c *chainSum) String() string       { return fmt.Sprintf("%d/%x", c.n, c.v) }
func (c *chainSum) merge(inc chainSum)   { c.v = mix64(c.v ^ mix64(inc.v+0x77)); c.n += inc.n }
func chainWrite(w io.Writer, c *chainSum) error {
	if err := binary.Write(w, binary.LittleEndian, c.v); err != nil {
		return err
	}
	return binary.Write(w, binary.LittleEndian, c.n)
}
func chainRead(r io.Reader) (*chainSum, error) {
	c := &chainSum{}
	if err := binary.Read(r, binary.LittleEndian, &c.v); err != nil {
		return nil, err
	}
	if err := binary.Read(r, binary.LittleEndian, &c.n); err != nil {
		return nil, err
	}
	return c, nil
}

// valSum is a chain held by value, for the functional flavours of the API.
type valSum struct{ v, n uint64 }

func (c valSum) Reset()               {}
func (c valSum) Clone() tuple.Summary { return c }
func (c valSum) Update(uint64)        {}
func valWrite(w io.Writer, c valSum) error {
	return chainWrite(w, &chainSum{c.v, c.n})
}
func valRead(r io.Reader) (valSum, error) {
	c, err := chainRead(r)
	if err != nil {
		return valSum{}, err
	}
	return valSum{c.v, c.n}, nil
}
func valMerge(a, b valSum) valSum {
	c := chainSum(a)
	c.merge(chainSum(b))
	return valSum(c)
}
func valUpdate(a valSum, v uint64) valSum {
	c := chainSum(a)
	c.Update(v)
	return valSum(c)
}

// ---- one world per summary type ----

type tupUnion[S tuple.Summary] interface {
	Update(sk tuple.Sketch[S]) error
	Result(ordered bool) (tuple.Sketch[S], error)
	Reset()
}
type tupInter[S tuple.Summary] interface {
	Update(sk tuple.Sketch[S]) error
	Result(ordered bool) (tuple.Sketch[S], error)
	HasResult() bool
}
type tupLeaf[S tuple.Summary] interface {
	tuple.Sketch[S]
	Feed(typ valType, id, val uint64) error
	CompactOf(ordered bool) (tuple.Sketch[S], error)
	Trim()
	Reset()
	LgK() uint8
	Filtered(pred func(string) bool) (tuple.Sketch[S], error)
}

// tupGateways sends images through gatewayTuple on their way (one run at a time
// sets it, per process).
var tupGateways bool

// tupWorld gives one summary type's constructors and its reference model, in
// which a summary is represented by a canonical string.
type tupWorld[S tuple.Summary] struct {
	name  string
	seed  uint64
	show  func(S) string
	upd   func(m string, val uint64) string // "" is a new summary
	merge func(m, inc string) string
	leaf  func(lgK uint8, rf theta.ResizeFactor, p float32) (tupLeaf[S], error)
	union func(lgK uint8, rf theta.ResizeFactor, p float32) (tupUnion[S], error)
	inter func() tupInter[S]
	anotb func(a, b tuple.Sketch[S], ordered bool) (tuple.Sketch[S], error)
	comp  func(sk tuple.Sketch[S], ordered bool) (tuple.Sketch[S], error)
	encTo func(w io.Writer, sk tuple.Sketch[S]) error // compact only
	dec   func(b []byte) (tuple.Sketch[S], error)
	decR  func(r io.Reader) (tuple.Sketch[S], error)
	// optional
	tanb    func(a tuple.Sketch[S], b theta.Sketch, ordered bool) (tuple.Sketch[S], error)
	filter  func(sk tuple.Sketch[S], pred func(string) bool) (tuple.Sketch[S], error)
	fromTh  func(sk theta.Sketch, ordered bool) (tuple.Sketch[S], string, error)
	jaccard func(a, b tuple.Sketch[S]) (tuple.JaccardSimilarityResult, bool, error)
	other   func() *tupWorld[S] // incompatible in shape
	width   int
}

type genLeaf[S tuple.UpdatableSummary[V], V any] struct {
	*tuple.UpdateSketch[S, V]
	conv func(val uint64) V
	show func(S) string
}

func (l *genLeaf[S, V]) CompactOf(o bool) (tuple.Sketch[S], error) {
	r, err := l.UpdateSketch.Compact(o)
	if err != nil {
		return nil, err
	}
	return r, nil
}
func (l *genLeaf[S, V]) Filtered(pred func(string) bool) (tuple.Sketch[S], error) {
	r, err := l.UpdateSketch.Filter(func(x S) bool { return pred(l.show(x)) })
	if err != nil {
		return nil, err
	}
	return r, nil
}

type keyedUpdates[V any] interface {
	UpdateInt64(int64, V) error
	UpdateUint64(uint64, V) error
	UpdateFloat64(float64, V) error
	UpdateFloat32(float32, V) error
	UpdateString(string, V) error
	UpdateBytes([]byte, V) error
	UpdateInt32(int32, V) error
	UpdateUint32(uint32, V) error
	UpdateInt16(int16, V) error
	UpdateUint16(uint16, V) error
	UpdateInt8(int8, V) error
	UpdateUint8(uint8, V) error
}

func tupFeed[V any](k keyedUpdates[V], typ valType, id uint64, v V) error {
	switch typ {
	case vI64:
		return k.UpdateInt64(itemI64(id), v)
	case vU64:
		return k.UpdateUint64(id, v)
	case vF64:
		return k.UpdateFloat64(itemF64(id), v)
	case vF32:
		return k.UpdateFloat32(itemF32(id), v)
	case vStr:
		return k.UpdateString(itemStr(id), v)
	case vBytes:
		return k.UpdateBytes(itemBytes(id), v)
	case vCraft:
		return k.UpdateBytes(itemCraft(id), v)
	case vI32:
		return k.UpdateInt32(int32(id), v)
	case vU32:
		return k.UpdateUint32(uint32(id), v)
	case vI16:
		return k.UpdateInt16(int16(id), v)
	case vU16:
		return k.UpdateUint16(uint16(id), v)
	case vI8:
		return k.UpdateInt8(int8(id), v)
	case vU8:
		return k.UpdateUint8(uint8(id), v)
	}
	panic("type")
}

func tupErrOK(err error) error {
	if err == nil || err == tuple.ErrHashExceedsTheta || err == tuple.ErrZeroHashValue {
		return nil
	}
	return err
}

func (l *genLeaf[S, V]) Feed(typ valType, id, val uint64) error {
	return tupErrOK(tupFeed[V](l.UpdateSketch, typ, id, l.conv(val)))
}

type genUnion[S tuple.Summary] struct{ u *tuple.Union[S] }

func (u genUnion[S]) Update(sk tuple.Sketch[S]) error { return u.u.Update(sk) }
func (u genUnion[S]) Reset()                          { u.u.Reset() }
func (u genUnion[S]) Result(o bool) (tuple.Sketch[S], error) {
	if o && curSim.ops%2 == 0 {
		r, err := u.u.OrderedResult()
		if err != nil {
			return nil, err
		}
		return r, nil
	}
	r, err := u.u.Result(o)
	if err != nil {
		return nil, err
	}
	return r, nil
}

type genInter[S tuple.Summary] struct{ u *tuple.Intersection[S] }

func (u genInter[S]) Update(sk tuple.Sketch[S]) error { return u.u.Update(sk) }
func (u genInter[S]) HasResult() bool                 { return u.u.HasResult() }
func (u genInter[S]) Result(o bool) (tuple.Sketch[S], error) {
	res := u.u.Result
	if o && curSim.ops%2 == 0 {
		res = func(bool) (*tuple.CompactSketch[S], error) { return u.u.OrderedResult() }
	}
	r, err := res(o)
	if err != nil {
		return nil, err
	}
	return r, nil
}

type aonLeaf[V tuple.Number] struct {
	*tuple.ArrayOfNumbersUpdateSketch[V]
	conv func(val uint64) []V
}

func (l *aonLeaf[V]) CompactOf(o bool) (tuple.Sketch[*tuple.ArrayOfNumbersSummary[V]], error) {
	r, err := l.ArrayOfNumbersUpdateSketch.Compact(o)
	if err != nil {
		return nil, err
	}
	return r, nil
}
func (l *aonLeaf[V]) Filtered(func(string) bool) (tuple.Sketch[*tuple.ArrayOfNumbersSummary[V]], error) {
	return nil, nil
}
func (l *aonLeaf[V]) Feed(typ valType, id, val uint64) error {
	return tupErrOK(tupFeed[[]V](l.ArrayOfNumbersUpdateSketch, typ, id, l.conv(val)))
}

type aonUnion[V tuple.Number] struct {
	u *tuple.ArrayOfNumbersSketchUnion[V]
}

func (u aonUnion[V]) Update(sk tuple.Sketch[*tuple.ArrayOfNumbersSummary[V]]) error {
	return u.u.Update(sk.(tuple.ArrayOfNumbersSketch[V]))
}
func (u aonUnion[V]) Reset() { u.u.Reset() }
func (u aonUnion[V]) Result(o bool) (tuple.Sketch[*tuple.ArrayOfNumbersSummary[V]], error) {
	res := u.u.Result
	if o && curSim.ops%2 == 0 {
		res = func(bool) (*tuple.ArrayOfNumbersCompactSketch[V], error) { return u.u.OrderedResult() }
	}
	r, err := res(o)
	if err != nil {
		return nil, err
	}
	return r, nil
}

type aonInter[V tuple.Number] struct {
	u *tuple.ArrayOfNumbersSketchIntersection[V]
}

func (u aonInter[V]) Update(sk tuple.Sketch[*tuple.ArrayOfNumbersSummary[V]]) error {
	return u.u.Update(sk.(tuple.ArrayOfNumbersSketch[V]))
}
func (u aonInter[V]) HasResult() bool { return u.u.HasResult() }
func (u aonInter[V]) Result(o bool) (tuple.Sketch[*tuple.ArrayOfNumbersSummary[V]], error) {
	res := u.u.Result
	if o && curSim.ops%2 == 0 {
		res = func(bool) (*tuple.ArrayOfNumbersCompactSketch[V], error) { return u.u.OrderedResult() }
	}
	r, err := res(o)
	if err != nil {
		return nil, err
	}
	return r, nil
}

type genPolicy[S tuple.Summary] struct{ f func(a, b S) }

func (p *genPolicy[S]) Apply(a, b S) {
	p.f(a, b)
	yieldHook()
}

// yieldHook is called from every callback the library makes into the harness.
var curSim *Sim

func yieldHook() {
	if curSim != nil {
		curSim.YieldPoint()
	}
}

// finishGen fills in what generic worlds share.
func finishGen[S tuple.UpdatableSummary[V], V any](w *tupWorld[S], newSum func() S, updF func(S, V) S, conv func(uint64) V, mergeIn func(a, b S), mergeF func(a, b S) S, write tuple.SummaryWriter[S], read tuple.SummaryReader[S]) {
	w.leaf = func(lgK uint8, rf theta.ResizeFactor, p float32) (tupLeaf[S], error) {
		opts := []tuple.UpdateSketchOptionFunc{tuple.WithUpdateSketchLgK(lgK), tuple.WithUpdateSketchResizeFactor(rf), tuple.WithUpdateSketchP(p), tuple.WithUpdateSketchSeed(w.seed)}
		var sk *tuple.UpdateSketch[S, V]
		var err error
		if updF != nil {
			sk, err = tuple.NewUpdateSketchWithSummaryUpdateFunc[S, V](newSum, updF, opts...)
		} else {
			sk, err = tuple.NewUpdateSketch[S, V](newSum, opts...)
		}
		return &genLeaf[S, V]{sk, conv, w.show}, err
	}
	pol := &genPolicy[S]{mergeIn}
	w.union = func(lgK uint8, rf theta.ResizeFactor, p float32) (tupUnion[S], error) {
		opts := []tuple.UnionOptionFunc{tuple.WithUnionLgK(lgK), tuple.WithUnionResizeFactor(rf), tuple.WithUnionSketchP(p), tuple.WithUnionSeed(w.seed)}
		if mergeF != nil {
			u, err := tuple.NewUnionWithSummaryMergeFunc[S](mergeF, opts...)
			return genUnion[S]{u}, err
		}
		u, err := tuple.NewUnion[S](pol, opts...)
		return genUnion[S]{u}, err
	}
	w.inter = func() tupInter[S] {
		if mergeF != nil {
			return genInter[S]{tuple.NewIntersectionWithSummaryMergeFunc[S](mergeF, tuple.WithIntersectionSeed(w.seed))}
		}
		return genInter[S]{tuple.NewIntersection[S](pol, tuple.WithIntersectionSeed(w.seed))}
	}
	conv2 := func(r *tuple.CompactSketch[S], err error) (tuple.Sketch[S], error) {
		if err != nil {
			return nil, err
		}
		return r, nil
	}
	w.anotb = func(a, b tuple.Sketch[S], o bool) (tuple.Sketch[S], error) {
		return conv2(tuple.ANotB[S](a, b, w.seed, o))
	}
	w.tanb = func(a tuple.Sketch[S], b theta.Sketch, o bool) (tuple.Sketch[S], error) {
		return conv2(tuple.TupleANotThetaB[S](a, b, w.seed, o))
	}
	w.comp = func(sk tuple.Sketch[S], o bool) (tuple.Sketch[S], error) {
		return conv2(tuple.NewCompactSketch[S](sk, o))
	}
	w.filter = func(sk tuple.Sketch[S], pred func(string) bool) (tuple.Sketch[S], error) {
		switch x := sk.(type) {
		case *tuple.CompactSketch[S]:
			return conv2(x.Filter(func(y S) bool { return pred(w.show(y)) }))
		case tupLeaf[S]:
			return x.Filtered(pred)
		}
		panic("filter")
	}
	w.fromTh = func(sk theta.Sketch, o bool) (tuple.Sketch[S], string, error) {
		sum := newSum()
		if updF != nil {
			sum = updF(sum, conv(12345))
		} else {
			sum.Update(conv(12345))
		}
		r, err := conv2(tuple.NewCompactSketchFromThetaSketch[S](sk, sum, o))
		return r, w.upd("", 12345), err
	}
	w.encTo = func(wr io.Writer, sk tuple.Sketch[S]) error {
		e := tuple.NewEncoder[S](wr, write)
		return e.Encode(sk.(*tuple.CompactSketch[S]))
	}
	w.dec = func(b []byte) (tuple.Sketch[S], error) { return conv2(tuple.Decode[S](b, w.seed, read)) }
	w.decR = func(r io.Reader) (tuple.Sketch[S], error) {
		d := tuple.NewDecoder[S](w.seed, read)
		return conv2(d.Decode(r))
	}
	if mergeF == nil {
		w.jaccard = func(a, b tuple.Sketch[S]) (tuple.JaccardSimilarityResult, bool, error) {
			j, err := tuple.Jaccard[S](a, b, pol, w.seed)
			if err != nil {
				return j, false, err
			}
			s := curSim
			for _, t := range []float64{0, 0.2, 0.5, 0.9, 1, j.LowerBound, j.UpperBound} {
				si, err := tuple.IsSimilar[S](a, b, pol, t, w.seed)
				s.Must(err, w.name+"-is-similar")
				di, err := tuple.IsDissimilar[S](a, b, pol, t, w.seed)
				s.Must(err, w.name+"-is-dissimilar")
				s.Assert(si == (j.LowerBound >= t) && di == (j.UpperBound <= t), w.name+"-similar", "threshold %v similar=%v dissimilar=%v for %+v", t, si, di, j)
			}
			j2, err := tuple.Jaccard[S](b, a, pol, w.seed)
			s.Must(err, w.name+"-jaccard")
			s.Assert(j == j2, w.name+"-jaccard-symmetric", "%+v the other way round %+v", j, j2)
			eq, err := tuple.IsExactlyEqual[S](a, b, pol, w.seed)
			return j, eq, err
		}
	}
}

func chainWorld(seed uint64) *tupWorld[*chainSum] {
	parse := func(m string) chainSum {
		var c chainSum
		if m != "" {
			fmt.Sscanf(m, "%d/%x", &c.n, &c.v)
		}
		return c
	}
	w := &tupWorld[*chainSum]{name: "tuple", seed: seed, show: func(c *chainSum) string { return c.String() }}
	w.upd = func(m string, v uint64) string { c := parse(m); c.Update(v); return c.String() }
	w.merge = func(m, inc string) string { c := parse(m); c.merge(parse(inc)); return c.String() }
	finishGen[*chainSum, uint64](w, func() *chainSum { return &chainSum{} }, nil, func(v uint64) uint64 { return v },
		func(a, b *chainSum) { a.merge(*b) }, nil, chainWrite, chainRead)
	return w
}

func valWorld(seed uint64) *tupWorld[valSum] {
	show := func(c valSum) string { x := chainSum(c); return x.String() }
	cw := chainWorld(seed)
	w := &tupWorld[valSum]{name: "tuple-func", seed: seed, show: show, upd: cw.upd, merge: cw.merge}
	finishGen[valSum, uint64](w, func() valSum { return valSum{} }, func(c valSum, v uint64) valSum { yieldHook(); return valUpdate(c, v) }, func(v uint64) uint64 { return v },
		nil, func(a, b valSum) valSum { yieldHook(); return valMerge(a, b) }, valWrite, valRead)
	return w
}

// arrays of strings are write-only in the API; their bytes show their content
func aosShow(write func(w io.Writer) error) string {
	var b bytes.Buffer
	if err := write(&b); err != nil {
		return "error: " + err.Error()
	}
	return strings.Join(aosParse(b.Bytes()), "\x00")
}

func aosParse(b []byte) []string {
	n := int(b[4])
	b = b[5:]
	out := []string{}
	for i := 0; i < n; i++ {
		l := binary.LittleEndian.Uint32(b)
		out = append(out, string(b[4:4+l]))
		b = b[4+l:]
	}
	return append(out, fmt.Sprint(n))
}

func aosVal(v uint64) []string {
	n := int(v % 4)
	if v%97 == 5 {
		n = 127
	}
	out := []string{}
	for i := 0; i < n; i++ {
		out = append(out, strings.Repeat(string(rune('a'+(v>>3)%20)), int((v>>8)%5))+fmt.Sprint(v%1000, i))
	}
	if v%11 == 3 {
		out = append(out[:0], "")
	}
	return out
}

func aosMergeLists(a, b []string) []string {
	if len(a)+len(b) <= 6 {
		return append(append([]string{}, a...), b...)
	}
	return append([]string{}, b...)
}

func aosModel(l []string) string {
	return strings.Join(append(append([]string{}, l...), fmt.Sprint(len(l))), "\x00")
}
func aosUnmodel(m string) []string {
	if m == "" {
		return []string{}
	}
	p := strings.Split(m, "\x00")
	return p[:len(p)-1]
}

func aosWorld(seed uint64) *tupWorld[*tuple.ArrayOfStringsSummary] {
	type S = *tuple.ArrayOfStringsSummary
	show := func(c S) string {
		return aosShow(func(w io.Writer) error { return tuple.ArrayOfStringsSummaryWriter(w, c) })
	}
	w := &tupWorld[S]{name: "tuple-strings", seed: seed, show: show}
	w.upd = func(m string, v uint64) string { return aosModel(aosVal(v)) }
	w.merge = func(m, inc string) string { return aosModel(aosMergeLists(aosUnmodel(m), aosUnmodel(inc))) }
	finishGen[S, []string](w, tuple.NewArrayOfStringsSummaryFunc, nil, aosVal,
		func(a, b S) { a.Update(aosMergeLists(aosUnmodel(show(a)), aosUnmodel(show(b)))) }, nil,
		tuple.ArrayOfStringsSummaryWriter, tuple.ArrayOfStringsSummaryReader)
	return w
}

func aosInlineWorld(seed uint64) *tupWorld[tuple.ArrayOfStringsInlineSummary] {
	type S = tuple.ArrayOfStringsInlineSummary
	show := func(c S) string {
		return aosShow(func(w io.Writer) error { return tuple.ArrayOfStringsInlineSummaryWriter(w, c) })
	}
	a := aosWorld(seed)
	w := &tupWorld[S]{name: "tuple-strings-inline", seed: seed, show: show, upd: a.upd, merge: a.merge}
	finishGen[S, []string](w, tuple.NewArrayOfStringsInlineSummary, tuple.ArrayOfStringsInlineSummaryUpdateFunc, aosVal,
		nil, func(a, b S) S {
			yieldHook()
			return tuple.ArrayOfStringsInlineSummaryUpdateFunc(a, aosMergeLists(aosUnmodel(show(a)), aosUnmodel(show(b))))
		}, tuple.ArrayOfStringsInlineSummaryWriter, tuple.ArrayOfStringsInlineSummaryReader)
	return w
}

func aonWorld[V tuple.Number](name string, seed uint64, width int, mergeKind int) *tupWorld[*tuple.ArrayOfNumbersSummary[V]] {
	type S = *tuple.ArrayOfNumbersSummary[V]
	vals := func(v uint64) []V {
		out := make([]V, width)
		for i := range out {
			out[i] = V(int64(mixAll(v, uint64(i))%2001) - 1000)
		}
		return out
	}
	show := func(x []V) string { return fmt.Sprint(x) }
	parse := func(m string) []V {
		out := make([]V, width)
		if m == "" {
			return out
		}
		f := strings.Fields(strings.Trim(m, "[]"))
		for i := range out {
			fmt.Sscan(f[i], &out[i])
		}
		return out
	}
	fold := func(a, b []V) { // into a
		for i := range a {
			switch mergeKind {
			case 0:
				a[i] += b[i]
			case 1:
				a[i] = max(a[i], b[i])
			case 2:
				a[i] = b[i] - a[i]
			}
		}
	}
	w := &tupWorld[S]{name: name, seed: seed, width: width, show: func(c S) string { return show(c.Values()) }}
	w.upd = func(m string, v uint64) string {
		a := parse(m)
		for i, x := range vals(v) {
			a[i] += x
		}
		return show(a)
	}
	w.merge = func(m, inc string) string { a := parse(m); fold(a, parse(inc)); return show(a) }
	pol := &genPolicy[S]{func(a, b S) { fold(a.Values(), b.Values()) }}
	w.leaf = func(lgK uint8, rf theta.ResizeFactor, p float32) (tupLeaf[S], error) {
		sk, err := tuple.NewArrayOfNumbersUpdateSketch[V](uint8(width), tuple.WithUpdateSketchLgK(lgK), tuple.WithUpdateSketchResizeFactor(rf), tuple.WithUpdateSketchP(p), tuple.WithUpdateSketchSeed(seed))
		return &aonLeaf[V]{sk, vals}, err
	}
	w.union = func(lgK uint8, rf theta.ResizeFactor, p float32) (tupUnion[S], error) {
		u, err := tuple.NewArrayOfNumbersSketchUnion[V](pol, uint8(width), tuple.WithUnionLgK(lgK), tuple.WithUnionResizeFactor(rf), tuple.WithUnionSketchP(p), tuple.WithUnionSeed(seed))
		return aonUnion[V]{u}, err
	}
	w.inter = func() tupInter[S] {
		return aonInter[V]{tuple.NewArrayOfNumbersSketchIntersection[V](pol, uint8(width), tuple.WithIntersectionSeed(seed))}
	}
	conv := func(r *tuple.ArrayOfNumbersCompactSketch[V], err error) (tuple.Sketch[S], error) {
		if err != nil {
			return nil, err
		}
		return r, nil
	}
	w.anotb = func(a, b tuple.Sketch[S], o bool) (tuple.Sketch[S], error) {
		return conv(tuple.ArrayOfNumbersSketchANotB[V](a.(tuple.ArrayOfNumbersSketch[V]), b.(tuple.ArrayOfNumbersSketch[V]), seed, o))
	}
	w.comp = func(sk tuple.Sketch[S], o bool) (tuple.Sketch[S], error) {
		return conv(tuple.NewArrayOfNumbersCompactSketch[V](sk.(tuple.ArrayOfNumbersSketch[V]), o))
	}
	w.encTo = func(wr io.Writer, sk tuple.Sketch[S]) error {
		e := tuple.NewArrayOfNumbersSketchEncoder[V](wr)
		return e.Encode(sk.(*tuple.ArrayOfNumbersCompactSketch[V]))
	}
	w.dec = func(b []byte) (tuple.Sketch[S], error) {
		return conv(tuple.DecodeArrayOfNumbersCompactSketch[V](b, seed))
	}
	w.decR = func(r io.Reader) (tuple.Sketch[S], error) {
		d := tuple.NewArrayOfNumbersSketchDecoderDecoder[V](seed)
		return conv(d.Decode(r))
	}
	w.other = func() *tupWorld[S] { return aonWorld[V](name, seed, width+1, mergeKind) }
	return w
}

// ---- D03 ----

// tupM is the reference content of a tuple sketch.
type tupM struct {
	setM
	sums map[uint64]string
}

func restrict(m *setM, sums ...map[uint64]string) *tupM {
	t := &tupM{*m, map[uint64]string{}}
	for _, k := range m.keys {
		for _, s := range sums {
			if v, ok := s[k]; ok {
				t.sums[k] = v
				break
			}
		}
	}
	return t
}

func checkTup[S tuple.Summary](s *Sim, w *tupWorld[S], sk tuple.Sketch[S], m *tupM, class, at string) {
	class = w.name + "-" + class
	s.Assert(sk.IsEmpty() == m.empty, class+"-empty", "%s: IsEmpty=%v want %v %v", at, sk.IsEmpty(), m.empty, &m.setM)
	want := m.theta
	if m.empty {
		want = maxTheta
	}
	s.Assert(sk.Theta64() == want, class+"-theta", "%s: theta %d want %d (%v)", at, sk.Theta64(), want, &m.setM)
	s.Assert(int(sk.NumRetained()) == len(m.keys), class+"-count", "%s: retains %d want %d", at, sk.NumRetained(), len(m.keys))
	var got []uint64
	for h, sum := range sk.All() {
		got = append(got, h)
		want, ok := m.sums[h]
		if !ok {
			s.Fail(class+"-extra-key", "%s: retains key %d which is not expected (theta %d)", at, h, sk.Theta64())
		}
		if g := w.show(sum); g != want {
			s.Fail(class+"-summary", "%s: summary of key %d is %q want %q", at, h, g, want)
		}
		s.checks++
	}
	if sk.IsOrdered() {
		s.Assert(slices.IsSorted(got), class+"-not-ordered", "%s: claims to be ordered", at)
	}
	slices.Sort(got)
	if !slices.Equal(got, m.keys) {
		s.Fail(class+"-set", "%s: iterates %d keys want %d; %s", at, len(got), len(m.keys), diffU64(got, m.keys))
	}
	checkThetaEstimates(s, sk, at)
}

type tupOperand[S tuple.Summary] struct {
	sk   tuple.Sketch[S]
	m    *tupM
	id   int
	what string
}

func tupEncode[S tuple.Summary](w *tupWorld[S], sk tuple.Sketch[S], ordered bool) ([]byte, error) {
	c := sk
	if _, ok := sk.(tupLeaf[S]); ok {
		var err error
		if c, err = w.comp(sk, ordered); err != nil {
			return nil, err
		}
	}
	var b bytes.Buffer
	err := w.encTo(&b, c)
	return b.Bytes(), err
}

func runTupleWorld[S tuple.Summary](s *Sim, w *tupWorld[S]) {
	types := drawTypes(s)
	s.craft.seed = w.seed
	st := newStream(s)
	lgK := uint8(5 + s.Pick(6, 4, 2))
	if s.big {
		lgK = []uint8{11, 12, 12, 13, 14}[s.Choose(5)]
	}
	maxN := 8 << lgK
	if s.big {
		maxN = min(3<<lgK, 20000)
	}
	if w.name == "tuple-strings" || w.name == "tuple-strings-inline" {
		maxN = 4 << lgK
	}
	p := float32(1)
	if s.Bool(1, 4) {
		p = float32(1+s.Choose(99)) / 100
	}
	drawK := func() uint8 {
		if s.big {
			return lgK - uint8(s.Choose(3))
		}
		return uint8(5 + s.Choose(int(lgK)-4))
	}
	drawRF := func() theta.ResizeFactor { return theta.ResizeFactor(s.Choose(4)) }
	var pool []*tupOperand[S]
	nextID := 0
	add := func(sk tuple.Sketch[S], m *tupM, what string) *tupOperand[S] {
		o := &tupOperand[S]{sk, m, nextID, what}
		nextID++
		s.Logf("operand %d = %s %v ordered=%v", o.id, what, &m.setM, sk.IsOrdered())
		pool = append(pool, o)
		if len(pool) > 8 {
			pool = append(pool[:1:1], pool[2:]...)
		}
		return o
	}
	pick := func() *tupOperand[S] { return pool[s.Choose(len(pool))] }

	newLeaf := func() {
		k := drawK()
		rf := drawRF()
		sk, err := w.leaf(k, rf, p)
		s.Must(err, w.name+"-new")
		sums := map[uint64]string{}
		touched := false
		n := 1 + s.Choose(4)
		for i := 0; i < n; i++ {
			var b *Batch
			if len(st.all) > 0 && s.Choose(2) == 1 {
				b = st.all[s.Choose(len(st.all))]
			} else {
				b = st.Next(maxN, types)
			}
			vs := s.Word()
			hs := thetaHashes(b, w.seed)
			for j, id := range b.IDs {
				v := mixAll(vs, uint64(j))
				s.Must(sk.Feed(b.Typ, id, v), w.name+"-update")
				touched = true
				if hs[j] != 0 {
					// keys beyond the threshold are never needed again: it only falls
					if hs[j] < sk.Theta64() {
						sums[hs[j]] = w.upd(sums[hs[j]], v)
					} else {
						delete(sums, hs[j])
					}
				}
			}
			s.ops++
			if s.Choose(10) == 9 {
				sk.Trim()
				s.Logf("trim")
				s.Assert(int(sk.NumRetained()) <= 1<<k, w.name+"-trim", "%d retained after trim to %d", sk.NumRetained(), 1<<k)
			}
			if s.Choose(12) == 11 {
				sk.Reset()
				sums = map[uint64]string{}
				touched = false
				s.Logf("reset")
			}
		}
		th := sk.Theta64()
		m := &tupM{setM{empty: !touched, theta: th}, map[uint64]string{}}
		for h, v := range sums {
			if h < th {
				m.keys = append(m.keys, h)
				m.sums[h] = v
			}
		}
		slices.Sort(m.keys)
		if !m.empty {
			start := startTheta(p)
			nn := len(m.keys)
			s.Assert(th <= start, w.name+"-above-start", "theta %d above sampling threshold %d", th, start)
			s.Assert(th == start || nn >= 1<<k, w.name+"-under-nominal", "estimating with %d < nominal %d", nn, 1<<k)
			s.Assert(nn < 2<<k, w.name+"-over-capacity", "retains %d with nominal %d", nn, 1<<k)
			s.ProbeIf(th < start, "tuple leaf estimating")
		}
		checkTup(s, w, sk, m, "update", "update sketch")
		o := add(sk, m, "update sketch")
		if s.Choose(3) > 0 {
			c, err := sk.CompactOf(s.Choose(2) == 0)
			s.Must(err, w.name+"-compact")
			o.sk = c
		}
	}
	reship := func(o *tupOperand[S]) tuple.Sketch[S] {
		switch s.Choose(4) {
		case 0:
			return o.sk
		case 1:
			c, err := w.comp(o.sk, s.Choose(2) == 0)
			s.Must(err, w.name+"-compact")
			return c
		}
		c, err := w.comp(o.sk, s.Choose(2) == 0)
		s.Must(err, w.name+"-compact")
		b, err := tupEncode(w, c, true)
		s.Must(err, w.name+"-encode")
		s.Fault("reship")
		wantOrdered := c.IsOrdered()
		if tupGateways {
			o, ord, err := gatewayTuple(s, w.name, w.width, b)
			s.Assert(err == nil, "layout-"+w.name, "an independent reader of the published layout cannot read an image written here: %v", err)
			s.Fault("gateway: " + w.name)
			b, wantOrdered = o, ord
		}
		var sk tuple.Sketch[S]
		if s.Choose(2) == 0 {
			sk, err = w.dec(b)
		} else {
			sk, err = w.decR(chunked(s, b))
		}
		s.Must(err, w.name+"-decode")
		s.Assert(sk.IsOrdered() == wantOrdered || sk.NumRetained() <= 1, w.name+"-order-flag", "order flag changed in flight")
		return sk
	}
	unionM := func(k uint8, start uint64, in []*tupM) *tupM {
		var ms []*setM
		sums := map[uint64]string{}
		for _, m := range in {
			ms = append(ms, &m.setM)
			for _, h := range m.keys {
				if old, ok := sums[h]; ok {
					sums[h] = w.merge(old, m.sums[h])
				} else {
					sums[h] = m.sums[h]
				}
			}
		}
		return restrict(refUnion(1<<k, start, ms...), sums)
	}
	interM := func(acc, m *tupM) *tupM {
		var a *setM
		if acc != nil {
			a = &acc.setM
		}
		r := refIntersect(a, &m.setM)
		if acc == nil {
			return restrict(r, m.sums)
		}
		sums := map[uint64]string{}
		for _, h := range r.keys {
			sums[h] = w.merge(acc.sums[h], m.sums[h])
		}
		return restrict(r, sums)
	}

	newLeaf()
	newLeaf()
	inter := w.inter()
	var im *tupM
	uk := drawK()
	up := float32(1)
	if s.Bool(1, 6) {
		up = float32(1+s.Choose(99)) / 100
	}
	un, err := w.union(uk, drawRF(), up)
	s.Must(err, w.name+"-union-new")
	var um []*tupM
	steps := 3 + s.Size(20)
	for i := 0; i < steps; i++ {
		s.Now += int64(1 + s.Choose(50))
		s.ops++
		switch s.Pick(4, 5, 4, 4, 2, 2, 2, 2, 2, 1) {
		case 0:
			s.Step("leaf")
			newLeaf()
		case 1:
			s.Step("union message")
			o := pick()
			s.Logf("union receives operand %d", o.id)
			s.Must(un.Update(reship(o)), w.name+"-union-update")
			um = append(um, o.m)
			r, err := anyResult(s, un)
			s.Must(err, w.name+"-union-result")
			m := unionM(uk, startTheta(up), um)
			checkTup(s, w, r, m, "union", fmt.Sprintf("union of %d", len(um)))
			s.ProbeIf(!m.empty && m.theta < maxTheta, "tuple union estimating")
			if s.Choose(3) == 0 {
				add(r, m, "union result")
			}
		case 2:
			s.Step("intersection message")
			o := pick()
			s.Logf("intersection receives operand %d", o.id)
			s.Must(inter.Update(reship(o)), w.name+"-intersection-update")
			im = interM(im, o.m)
			s.Assert(inter.HasResult(), w.name+"-intersection-hasresult", "no result after an update")
			r, err := anyResult(s, inter)
			s.Must(err, w.name+"-intersection-result")
			checkTup(s, w, r, im, "intersection", "intersection")
			if s.Choose(3) == 0 {
				add(r, im, "intersection result")
			}
		case 3:
			s.Step("a-not-b")
			a, b := pick(), pick()
			ord := s.Choose(2) == 0
			r, err := w.anotb(reship(a), reship(b), ord)
			s.Must(err, w.name+"-anotb")
			m := restrict(refANotB(&a.m.setM, &b.m.setM), a.m.sums)
			checkTup(s, w, r, m, "anotb", fmt.Sprintf("operand %d \\ operand %d", a.id, b.id))
			if ord {
				s.Assert(r.IsOrdered() || r.NumRetained() <= 1, w.name+"-anotb-unordered", "ordered result asked for")
			}
			if s.Choose(2) == 0 {
				add(r, m, "difference")
			}
		case 4:
			if w.tanb == nil {
				continue
			}
			s.Step("tuple-not-theta")
			f := &thetaFam{&thetaCfg{lgK: lgK, seed: w.seed, leafP: p, unionP: 1, types: types, st: st, maxN: maxN}}
			l := f.NewLeaf(s).(*thetaLeaf)
			b := st.Next(maxN, types)
			if len(st.all) > 0 && s.Choose(3) > 0 {
				b = st.all[s.Choose(len(st.all))]
			}
			l.Update(s, b)
			bm := &setM{empty: l.sk.IsEmpty(), theta: l.sk.Theta64()}
			bm.keys = below(distinctHashes(l.bag, w.seed), bm.theta)
			var bs theta.Sketch = l.sk
			if s.Choose(2) == 0 {
				bs = l.sk.Compact(s.Choose(2) == 0)
			}
			a := pick()
			r, err := w.tanb(reship(a), bs, s.Choose(2) == 0)
			s.Must(err, w.name+"-tanb")
			checkTup(s, w, r, restrict(refANotB(&a.m.setM, bm), a.m.sums), "tanb", fmt.Sprintf("operand %d \\ theta %v", a.id, bm))
			if s.Choose(2) == 0 {
				fr, sum, err := w.fromTh(bs, s.Choose(2) == 0)
				s.Must(err, w.name+"-from-theta")
				m := &tupM{*bm, map[uint64]string{}}
				for _, h := range m.keys {
					m.sums[h] = sum
				}
				checkTup(s, w, fr, m, "from-theta", "made from a theta sketch")
				add(fr, m, "from theta")
			}
		case 5:
			if w.filter == nil {
				continue
			}
			s.Step("filter")
			o := pick()
			salt := s.Word()
			mod := uint64(1 + s.Choose(4))
			pred := func(x string) bool { return (hashString(x)^salt)%mod == 0 }
			var src tuple.Sketch[S] = o.sk
			if s.Choose(2) == 0 {
				src = reship(o)
			}
			r, err := w.filter(src, pred)
			s.Must(err, w.name+"-filter")
			m := &setM{theta: o.m.theta}
			for _, h := range o.m.keys {
				if pred(o.m.sums[h]) {
					m.keys = append(m.keys, h)
				}
			}
			m.empty = len(m.keys) == 0 && (o.m.empty || o.m.theta == maxTheta)
			fm := restrict(m, o.m.sums)
			checkTup(s, w, r, fm, "filter", fmt.Sprintf("operand %d filtered", o.id))
			if s.Choose(2) == 0 {
				add(r, fm, "filtered")
			}
		case 6:
			s.Fault("crash-restart")
			s.Step("union restart")
			r, err := anyResult(s, un)
			s.Must(err, w.name+"-union-result")
			b, err := tupEncode(w, r, true)
			s.Must(err, w.name+"-encode")
			d, err := w.dec(b)
			s.Must(err, w.name+"-decode")
			m := unionM(uk, startTheta(up), um)
			un, err = w.union(uk, drawRF(), up)
			s.Must(err, w.name+"-union-new")
			s.Must(un.Update(d), w.name+"-union-update")
			um = []*tupM{m}
		case 7:
			if im == nil {
				continue
			}
			s.Fault("crash-restart")
			s.Step("intersection restart")
			r, err := anyResult(s, inter)
			s.Must(err, w.name+"-intersection-result")
			b, err := tupEncode(w, r, true)
			s.Must(err, w.name+"-encode")
			d, err := w.dec(b)
			s.Must(err, w.name+"-decode")
			inter = w.inter()
			s.Must(inter.Update(d), w.name+"-intersection-update")
		case 8:
			if w.jaccard == nil {
				continue
			}
			s.Step("jaccard")
			a, b := pick(), pick()
			j, eq, err := w.jaccard(reship(a), reship(b))
			s.Must(err, w.name+"-jaccard")
			checkTupJaccard(s, w.name, j, eq, &a.m.setM, &b.m.setM)
		case 9:
			s.Step("union reset")
			un.Reset()
			um = nil
		}
		if s.Choose(4) == 0 {
			for _, o := range pool {
				checkTup(s, w, o.sk, o.m, "operand-changed", fmt.Sprintf("operand %d (%s)", o.id, o.what))
			}
		}
		o := pool[len(pool)-1]
		s.State(hashString(w.name), uint64(boolInt(o.m.empty)), uint64(len(o.m.keys)), uint64(boolInt(o.m.theta < maxTheta)))
	}
}

func checkTupJaccard(s *Sim, name string, j tuple.JaccardSimilarityResult, eq bool, ma, mb *setM) {
	at := fmt.Sprintf("jaccard of %v and %v", ma, mb)
	s.Assert(j.LowerBound >= 0 && j.LowerBound <= j.Estimate && j.Estimate <= j.UpperBound && j.UpperBound <= 1, name+"-jaccard-order", "%s: %+v", at, j)
	identical := ma.empty == mb.empty && (ma.empty || ma.theta == mb.theta && slices.Equal(ma.keys, mb.keys))
	s.Assert(eq == identical, name+"-exactly-equal", "%s: IsExactlyEqual=%v want %v", at, eq, identical)
	all := func(v float64) bool { return j.LowerBound == v && j.Estimate == v && j.UpperBound == v }
	switch {
	case identical:
		s.Assert(all(1), name+"-jaccard-identical", "%s: %+v want 1", at, j)
	case ma.empty || mb.empty:
		s.Assert(all(0), name+"-jaccard-empty", "%s: %+v want 0", at, j)
	default:
		th := min(ma.theta, mb.theta)
		u := below(mergeSorted(ma.keys, mb.keys), th)
		c := below(commonSorted(ma.keys, mb.keys), th)
		want := float64(len(c)) / float64(len(u))
		if th == maxTheta {
			s.Assert(all(want), name+"-jaccard-exact", "%s: %+v want %v", at, j, want)
		} else if len(u) > 0 {
			s.Assert(relClose(j.Estimate, want, 1e-9), name+"-jaccard-estimate", "%s: %+v want %v", at, j, want)
			checkJaccardWidth(s, name, j.LowerBound, j.Estimate, j.UpperBound, want, len(u), th, at)
		}
	}
}

func tupleScenario(pick int) func(*Sim) {
	return func(s *Sim) {
		seed := uint64(theta.DefaultSeed)
		if s.Bool(1, 4) {
			seed = drawSeed(s)
		}
		width := func() int {
			if s.Choose(12) == 11 {
				return []int{255, 127, 64}[s.Choose(3)]
			}
			return 1 + s.Choose(5)
		}
		switch pick {
		case 0:
			runTupleWorld(s, chainWorld(seed))
		case 1:
			runTupleWorld(s, valWorld(seed))
		case 2:
			runTupleWorld(s, aosWorld(seed))
		case 3:
			runTupleWorld(s, aosInlineWorld(seed))
		case 4:
			runTupleWorld(s, aonWorld[float64]("aon-f64", seed, width(), s.Choose(3)))
		case 5:
			runTupleWorld(s, aonWorld[int64]("aon-i64", seed, width(), s.Choose(3)))
		case 6:
			runTupleWorld(s, aonWorld[int32]("aon-i32", seed, width(), s.Choose(3)))
		}
	}
}

// ---- objects for the generic scenarios ----

type tupObjCfg[S tuple.Summary] struct {
	w     *tupWorld[S]
	types []valType
	st    *stream
	maxN  int
}

func newTupObjCfg[S tuple.Summary](s *Sim, w *tupWorld[S]) *tupObjCfg[S] {
	c := &tupObjCfg[S]{w: w, types: drawTypes(s), st: newStream(s), maxN: 250}
	s.craft.seed = w.seed
	if s.big {
		c.maxN = 70000
	}
	return c
}

func printTup[S tuple.Summary](w *tupWorld[S], p *printer, sk tuple.Sketch[S]) {
	p.add("empty", sk.IsEmpty())
	p.add("est", sk.Estimate(), sk.Theta(), sk.Theta64(), sk.NumRetained(), sk.IsEstimationMode(), sk.IsOrdered())
	h, err := sk.SeedHash()
	p.add("seedhash", h, err)
	for sd := uint8(1); sd <= 3; sd++ {
		lb, e1 := sk.LowerBound(sd)
		ub, e2 := sk.UpperBound(sd)
		p.add("bounds", sd, lb, e1, ub, e2)
		lb, e1 = sk.LowerBoundFromSubset(sd, sk.NumRetained()/2)
		ub, e2 = sk.UpperBoundFromSubset(sd, sk.NumRetained()/2)
		p.add("subset", sd, lb, e1, ub, e2)
	}
	if a, ok := sk.(interface{ NumValuesInSummary() uint8 }); ok {
		p.add("width", a.NumValuesInSummary())
	}
	for h, sum := range sk.All() {
		p.add("entry", h, w.show(sum))
	}
	left := 0
	for h := range sk.All() {
		p.add("first", h)
		if left++; left > 2 {
			break
		}
	}
}

func (c *tupObjCfg[S]) readonly(sk tuple.Sketch[S]) *Obj {
	o := &Obj{Kind: c.w.name + "-compact", Live: sk, ReadOnly: true}
	o.Print = func(o *Obj, p *printer) { printTup(c.w, p, o.Live.(tuple.Sketch[S])) }
	o.Fresh = func() *Obj {
		k, err := c.w.comp(sk, sk.IsOrdered())
		if err != nil {
			panic(violation{"tuple-compact", err.Error()})
		}
		return c.readonly(k)
	}
	o.Scribble = func(o *Obj) {
		for _, sum := range o.Live.(tuple.Sketch[S]).All() {
			sum.Reset()
		}
	}
	enc := func(o *Obj) ([]byte, error) { return tupEncode(c.w, o.Live.(tuple.Sketch[S]), true) }
	o.AltSeed = c.altSeed
	o.Codecs = []*Codec{{Name: c.w.name, Enc: enc, Incremental: true,
		EncTo: func(o *Obj, w io.Writer) error { return c.w.encTo(w, o.Live.(tuple.Sketch[S])) },
		Dec: func(b []byte) (*Obj, error) {
			k, err := c.w.dec(b)
			if err != nil {
				return nil, err
			}
			return c.readonly(k), nil
		},
		DecFrom: func(r io.Reader) (*Obj, error) {
			k, err := c.w.decR(r)
			if err != nil {
				return nil, err
			}
			return c.readonly(k), nil
		}}}
	o.Derive = func(s *Sim, o *Obj) []*Obj { return c.derive(s, o.Live.(tuple.Sketch[S])) }
	return o
}

func (c *tupObjCfg[S]) derive(s *Sim, sk tuple.Sketch[S]) []*Obj {
	var out []*Obj
	if s.scripted() { // what is derived must follow from the script alone
		cc := *c
		cc.st = &stream{s: s, base: c.st.base}
		c = &cc
	}
	k, err := c.w.comp(sk, s.Choose(2) == 0)
	s.Must(err, "tuple-compact")
	out = append(out, c.readonly(k))
	if c.w.filter != nil {
		f, err := c.w.filter(sk, func(x string) bool { return hashString(x)&1 == 0 })
		s.Must(err, "tuple-filter")
		out = append(out, c.readonly(f))
	}
	u, err := c.w.union(6, theta.ResizeX8, 1)
	s.Must(err, "tuple-union")
	s.Must(u.Update(sk), "tuple-union")
	r, err := u.Result(false)
	s.Must(err, "tuple-union")
	out = append(out, c.readonly(r))
	other := c.source(s).Live.(tuple.Sketch[S])
	d, err := c.w.anotb(sk, other, s.Choose(2) == 0)
	s.Must(err, "tuple-anotb")
	out = append(out, c.readonly(d))
	if s.Choose(2) == 0 {
		// both operands ordered
		ko, err := c.w.comp(other, true)
		s.Must(err, "tuple-compact")
		if !k.IsOrdered() {
			k, err = c.w.comp(sk, true)
			s.Must(err, "tuple-compact")
			out = append(out, c.readonly(k))
		}
		d, err = c.w.anotb(k, ko, s.Choose(2) == 0)
		s.Must(err, "tuple-anotb")
		out = append(out, c.readonly(d))
	}
	if c.w.tanb != nil {
		ts, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(5), theta.WithUpdateSketchSeed(c.w.seed))
		s.Must(err, "theta-new")
		b := c.st.Next(60, c.types)
		for _, id := range b.IDs {
			_ = thetaFeed(ts, b.Typ, id)
		}
		var tk theta.Sketch = ts
		if s.Choose(2) == 0 {
			tk = ts.Compact(true)
		}
		d, err = c.w.tanb(out[s.Choose(len(out))].Live.(tuple.Sketch[S]), tk, s.Choose(2) == 0)
		s.Must(err, "tuple-tanb")
		out = append(out, c.readonly(d))
	}
	// a union that goes on folding into what it took from sk
	s.Must(u.Update(sk), "tuple-union")
	i := c.w.inter()
	s.Must(i.Update(sk), "tuple-intersection")
	ir, err := i.Result(false)
	s.Must(err, "tuple-intersection")
	out = append(out, c.readonly(ir))
	s.Must(i.Update(sk), "tuple-intersection")
	return out
}

func (c *tupObjCfg[S]) source(s *Sim) *Obj {
	o := c.updateObj(s)
	for i, n := 0, s.Choose(3); i < n; i++ {
		m := o.Gen(s)
		_ = apply(s, o, m, s.Word())
	}
	if s.Choose(3) == 0 {
		return o
	}
	k, err := c.w.comp(o.Live.(tuple.Sketch[S]), s.Choose(2) == 0)
	s.Must(err, "tuple-compact")
	return c.readonly(k)
}

func (c *tupObjCfg[S]) updateObj(s *Sim) *Obj {
	lgK := uint8(5 + s.Pick(5, 3, 1))
	if s.big {
		lgK = uint8(9 + s.Choose(9))
	}
	rf := theta.ResizeFactor(s.Choose(4))
	p := float32(1)
	if s.Bool(1, 5) {
		p = float32(1+s.Choose(99)) / 100
	}
	o := &Obj{Kind: c.w.name + "-update", Limit: &limit{what: "keys", bytes: 100, max: constMax(thetaMax(lgK)), entries: func(o *Obj) int { return int(o.Live.(interface{ NumRetained() uint32 }).NumRetained()) }}}
	o.Print = func(o *Obj, p *printer) { printTup(c.w, p, o.Live.(tuple.Sketch[S])) }
	o.Gen = func(s *Sim) *Mut {
		if s.Choose(10) == 9 {
			return &Mut{Name: "trim", Do: func(o *Obj) error { o.Live.(tupLeaf[S]).Trim(); return nil }}
		}
		b := c.st.Next(c.maxN, c.types)
		vs := s.Word()
		return &Mut{Name: b.String(), Do: func(o *Obj) error {
			l := o.Live.(tupLeaf[S])
			for j, id := range b.IDs {
				if err := l.Feed(b.Typ, id, mixAll(vs, uint64(j))); err != nil {
					return err
				}
			}
			return nil
		}}
	}
	o.Reset = func(o *Obj) { o.Live.(tupLeaf[S]).Reset() }
	o.Derive = func(s *Sim, o *Obj) []*Obj { return c.derive(s, o.Live.(tuple.Sketch[S])) }
	ord := s.Choose(2) == 0
	o.AltSeed = c.altSeed
	o.Codecs = []*Codec{{Name: "update-" + c.w.name, Incremental: true,
		Enc: func(o *Obj) ([]byte, error) { return tupEncode(c.w, o.Live.(tuple.Sketch[S]), ord) },
		EncTo: func(o *Obj, w io.Writer) error {
			k, err := c.w.comp(o.Live.(tuple.Sketch[S]), ord)
			if err != nil {
				return err
			}
			return c.w.encTo(w, k)
		},
		Dec: func(b []byte) (*Obj, error) {
			k, err := c.w.dec(b)
			if err != nil {
				return nil, err
			}
			return c.readonly(k), nil
		},
		DecFrom: func(r io.Reader) (*Obj, error) {
			k, err := c.w.decR(r)
			if err != nil {
				return nil, err
			}
			return c.readonly(k), nil
		},
		View: func(o *Obj, p *printer) {
			sk := o.Live.(tuple.Sketch[S])
			if _, ok := sk.(tupLeaf[S]); ok {
				sk, _ = c.w.comp(sk, ord)
			}
			printTup(c.w, p, sk)
		}}}
	if c.w.width > 0 {
		o.Bad = func(s *Sim) []*Mut {
			w2 := c.w.other()
			short := s.Choose(2) == 0
			id := uint64(s.Choose(64))
			return []*Mut{{Name: "values of the wrong width", Do: func(o *Obj) error { return feedWidth(o.Live, id, c.w.width, short, w2) }}}
		}
	}
	o.Fresh = func() *Obj {
		n := *o
		l, err := c.w.leaf(lgK, rf, p)
		if err != nil {
			panic(violation{"tuple-new", err.Error()})
		}
		n.Live = l
		return &n
	}
	return o.Fresh()
}

// feedWidth updates an array-of-numbers sketch with too few or too many values.
func feedWidth(live any, id uint64, width int, short bool, _ any) error {
	n := width + 1
	if short {
		n = width - 1
	}
	switch l := live.(type) {
	case *aonLeaf[float64]:
		return l.UpdateUint64(id, make([]float64, n))
	case *aonLeaf[int64]:
		return l.UpdateUint64(id, make([]int64, n))
	}
	return errInjected
}

func (c *tupObjCfg[S]) badSources(s *Sim) []*Obj {
	var out []*Obj
	if o := c.altSeed(s); o != nil {
		o.Kind = "seed"
		out = append(out, o)
	}
	if c.w.other != nil {
		c3 := *c
		c3.w = c.w.other()
		if o := c3.source(s); !o.Live.(tuple.Sketch[S]).IsEmpty() {
			o.Kind = "width"
			out = append(out, o)
		}
	}
	return out
}

func (c *tupObjCfg[S]) altSeed(s *Sim) *Obj {
	c2 := *c
	if c2.w = altSeedWorld(s, c.w); c2.w == nil {
		return nil
	}
	o := c2.source(s)
	if o.Live.(tuple.Sketch[S]).IsEmpty() {
		return nil
	}
	return o
}

func altSeedWorld[S tuple.Summary](s *Sim, w *tupWorld[S]) *tupWorld[S] {
	seed := w.seed
	for seed == w.seed || sameSeedHash(seed, w.seed) {
		seed = drawSeed(s)
	}
	return remake(w, seed)
}

func remake[S tuple.Summary](w *tupWorld[S], seed uint64) *tupWorld[S] {
	var r any
	switch any(w).(type) {
	case *tupWorld[*chainSum]:
		r = chainWorld(seed)
	case *tupWorld[valSum]:
		r = valWorld(seed)
	case *tupWorld[*tuple.ArrayOfStringsSummary]:
		r = aosWorld(seed)
	case *tupWorld[tuple.ArrayOfStringsInlineSummary]:
		r = aosInlineWorld(seed)
	case *tupWorld[*tuple.ArrayOfNumbersSummary[float64]]:
		r = aonWorld[float64](w.name, seed, w.width, 0)
	case *tupWorld[*tuple.ArrayOfNumbersSummary[int64]]:
		r = aonWorld[int64](w.name, seed, w.width, 0)
	default:
		return nil
	}
	return r.(*tupWorld[S])
}

func (c *tupObjCfg[S]) unionObj(s *Sim) *Obj {
	lgK := uint8(5 + s.Pick(5, 3, 1))
	rf := theta.ResizeFactor(s.Choose(4))
	p := float32(1)
	if s.Bool(1, 5) {
		p = float32(1+s.Choose(99)) / 100
	}
	o := &Obj{Kind: c.w.name + "-union", Limit: &limit{what: "keys", bytes: 200, max: constMax(1 << lgK), entries: func(o *Obj) int {
		r, err := o.Live.(tupUnion[S]).Result(false)
		s.Must(err, "tuple-union-result")
		return int(r.NumRetained())
	}}}
	o.Print = func(o *Obj, p *printer) {
		for _, ord := range []bool{true, false} {
			r, err := o.Live.(tupUnion[S]).Result(ord)
			if err != nil {
				p.add("error")
				continue
			}
			printTup(c.w, p, r)
		}
	}
	o.Gen = func(s *Sim) *Mut {
		src := c.source(s)
		return &Mut{Name: "merge " + src.Kind, Srcs: []*Obj{src}, Do: func(o *Obj) error { return o.Live.(tupUnion[S]).Update(src.Live.(tuple.Sketch[S])) }}
	}
	o.Reset = func(o *Obj) { o.Live.(tupUnion[S]).Reset() }
	o.Derive = func(s *Sim, o *Obj) []*Obj {
		r, err := anyResult(s, o.Live.(tupUnion[S]))
		s.Must(err, "tuple-union-result")
		return []*Obj{c.readonly(r)}
	}
	o.Bad = func(s *Sim) []*Mut {
		var out []*Mut
		for _, src := range c.badSources(s) {
			src := src
			out = append(out, &Mut{Name: "a " + c.w.name + " sketch with another " + src.Kind + " (union)", Srcs: []*Obj{src}, Do: func(o *Obj) error { return o.Live.(tupUnion[S]).Update(src.Live.(tuple.Sketch[S])) }})
		}
		return out
	}
	o.Fresh = func() *Obj {
		n := *o
		u, err := c.w.union(lgK, rf, p)
		if err != nil {
			panic(violation{"tuple-union-new", err.Error()})
		}
		n.Live = u
		return &n
	}
	return o.Fresh()
}

func (c *tupObjCfg[S]) interObj(s *Sim) *Obj {
	o := &Obj{Kind: c.w.name + "-intersection"}
	base := c.updateObj(s)
	for i, n := 0, 1+s.Choose(2); i < n; i++ {
		_ = apply(s, base, base.Gen(s), 1)
	}
	o.Print = func(o *Obj, p *printer) {
		i := o.Live.(tupInter[S])
		p.add("has", i.HasResult())
		if !i.HasResult() {
			return
		}
		r, err := i.Result(true)
		if err != nil {
			p.add("error")
			return
		}
		printTup(c.w, p, r)
	}
	o.Gen = func(s *Sim) *Mut {
		var src *Obj
		if s.Choose(3) == 0 {
			src = c.source(s)
		} else {
			u, err := c.w.union(9, theta.ResizeX8, 1)
			s.Must(err, "tuple-union-new")
			s.Must(u.Update(base.Live.(tuple.Sketch[S])), "tuple-union-update")
			s.Must(u.Update(c.source(s).Live.(tuple.Sketch[S])), "tuple-union-update")
			r, err := anyResult(s, u)
			s.Must(err, "tuple-union-result")
			src = c.readonly(r)
		}
		return &Mut{Name: "intersect " + src.Kind, Srcs: []*Obj{src}, Do: func(o *Obj) error { return o.Live.(tupInter[S]).Update(src.Live.(tuple.Sketch[S])) }}
	}
	o.Derive = func(s *Sim, o *Obj) []*Obj {
		i := o.Live.(tupInter[S])
		if !i.HasResult() {
			return nil
		}
		r, err := anyResult(s, i)
		s.Must(err, "tuple-intersection-result")
		return []*Obj{c.readonly(r)}
	}
	o.Bad = func(s *Sim) []*Mut {
		var out []*Mut
		for _, src := range c.badSources(s) {
			src := src
			out = append(out, &Mut{Name: "a " + c.w.name + " sketch with another " + src.Kind + " (intersection)", Srcs: []*Obj{src}, Do: func(o *Obj) error {
				i := o.Live.(tupInter[S])
				if i.HasResult() {
					if r, _ := i.Result(false); r != nil && r.IsEmpty() {
						return errInjected // an empty intersection ignores whatever comes
					}
				}
				return i.Update(src.Live.(tuple.Sketch[S]))
			}})
		}
		return out
	}
	o.Fresh = func() *Obj {
		n := *o
		n.Live = c.w.inter()
		return &n
	}
	return o.Fresh()
}

func addTupleKinds[S tuple.Summary](mk func(s *Sim, seed uint64) *tupWorld[S], name string) {
	cfg := func(s *Sim) *tupObjCfg[S] {
		seed := uint64(theta.DefaultSeed)
		if s.Bool(1, 4) {
			seed = drawSeed(s)
		}
		return newTupObjCfg(s, mk(s, seed))
	}
	addKind(name+"-update", func(s *Sim) *Obj { return cfg(s).updateObj(s) })
	addKind(name+"-compact", func(s *Sim) *Obj {
		c := cfg(s)
		o := c.source(s)
		k, err := c.w.comp(o.Live.(tuple.Sketch[S]), s.Choose(2) == 0)
		s.Must(err, "tuple-compact")
		return c.readonly(k)
	})
	addKind(name+"-union", func(s *Sim) *Obj { return cfg(s).unionObj(s) })
	addKind(name+"-intersection", func(s *Sim) *Obj { return cfg(s).interObj(s) })
}

func init() {
	var scs []scenarioDef
	for i, n := range []string{"chain", "chain-by-value", "strings", "strings-inline", "numbers-float64", "numbers-int64", "numbers-int32"} {
		wt := 2
		if i == 0 {
			wt = 3
		}
		if i == 6 {
			wt = 1
		}
		scs = append(scs, scenarioDef{"tuple-" + n, 100 * wt, tupleScenario(i)}, scenarioDef{"tuple-" + n + "-big", 1, bigScenario(tupleScenario(i))})
	}
	register(&propDef{ID: "D03", Quick: 40000, Thorough: 2000000, Scenarios: scs,
		Rule: "Simulated nodes exchanging tuple operands and evaluating set expressions against exact keyed folds.",
		Real: []string{"tuple", "theta", "internal/binomialbounds"},
		Stub: []string{"network, process crashes, clock (simulated); summary types and policies (harness and library)"},
	})
	addTupleKinds(func(s *Sim, seed uint64) *tupWorld[*chainSum] { return chainWorld(seed) }, "tuple")
	addTupleKinds(func(s *Sim, seed uint64) *tupWorld[valSum] { return valWorld(seed) }, "tuple-func")
	addTupleKinds(func(s *Sim, seed uint64) *tupWorld[*tuple.ArrayOfStringsSummary] { return aosWorld(seed) }, "tuple-strings")
	addTupleKinds(func(s *Sim, seed uint64) *tupWorld[tuple.ArrayOfStringsInlineSummary] { return aosInlineWorld(seed) }, "tuple-strings-inline")
	addTupleKinds(func(s *Sim, seed uint64) *tupWorld[*tuple.ArrayOfNumbersSummary[float64]] {
		return aonWorld[float64]("aon-f64", seed, 1+s.Choose(4), s.Choose(3))
	}, "aon-f64")
	addTupleKinds(func(s *Sim, seed uint64) *tupWorld[*tuple.ArrayOfNumbersSummary[int64]] {
		return aonWorld[int64]("aon-i64", seed, 1+s.Choose(4), s.Choose(3))
	}, "aon-i64")
}
