package main

import (
	"bytes"
	"cmp"
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"slices"
	"strings"
)

// A gateway is a node that runs neither this library nor an overlay of it: it
// reads an image by the published byte layout, written down here a second time,
// and writes the same contents again in a form the layout (or an earlier version
// of it) allows and that this library would not have chosen itself: other array
// orders, other storage widths, dirty caches, earlier serial versions.

type layoutError struct{ msg string }

func (e layoutError) Error() string { return e.msg }

func bad(f string, a ...any) { panic(layoutError{fmt.Sprintf(f, a...)}) }

func need(c bool, f string, a ...any) {
	if !c {
		bad(f, a...)
	}
}

// transcode re-emits an image; the second result names the form.
func transcode(s *Sim, enc, typ string, b []byte) (out []byte, form string, err error) {
	defer func() {
		if p := recover(); p != nil {
			if le, ok := p.(layoutError); ok {
				err = le
				return
			}
			if re, ok := p.(interface{ RuntimeError() }); ok {
				err = fmt.Errorf("image too short for its layout (%v)", re)
				return
			}
			panic(p)
		}
	}()
	switch enc {
	case "theta-live", "theta-v3", "theta-compressed":
		t := readTheta(b)
		out, form = t.write(s)
	case "hll":
		out, form = gatewayHLL(s, b)
	case "cpc":
		m := readCPC(b)
		out, form = m.write(), "cpc as is"
		need(bytes.Equal(out, b), "CPC image of %d bytes differs from the layout's of %d bytes with the same contents", len(b), len(out))
		if m.hip && s.Bool(1, 3) { // as the result of a union elsewhere
			m.hip = false
			out, form = m.write(), "cpc merged"
		}
	case "kll":
		out, form = gatewayKLL(s, typ, b)
	case "tdigest", "tdigest-stream":
		out, form = gatewayTD(s, b)
	case "frequencies":
		out, form = gatewayFreq(s, typ, b)
	case "count-min":
		out, form = gatewayCM(s, b)
	case "bloom":
		out, form = gatewayBloom(s, b)
	case "reservoir":
		out, form = gatewayRes(s, typ, b)
	case "reservoir-union":
		out, form = gatewayResUnion(s, typ, b)
	case "varopt":
		out, form = gatewayVO(s, typ, b)
	case "varopt-union":
		out, form = gatewayVOUnion(s, typ, b)
	default:
		panic("harness: no layout for " + enc)
	}
	return
}

func u16(b []byte) int    { return int(binary.LittleEndian.Uint16(b)) }
func u32(b []byte) int    { return int(binary.LittleEndian.Uint32(b)) }
func u64(b []byte) uint64 { return binary.LittleEndian.Uint64(b) }
func f64(b []byte) float64 {
	return math.Float64frombits(binary.LittleEndian.Uint64(b))
}
func p16(b []byte, v int) []byte    { return binary.LittleEndian.AppendUint16(b, uint16(v)) }
func p32(b []byte, v int) []byte    { return binary.LittleEndian.AppendUint32(b, uint32(v)) }
func p64(b []byte, v uint64) []byte { return binary.LittleEndian.AppendUint64(b, v) }
func pf64(b []byte, v float64) []byte {
	return binary.LittleEndian.AppendUint64(b, math.Float64bits(v))
}

func shuffle[T any](s *Sim, v []T) {
	for i := len(v) - 1; i > 0; i-- {
		j := s.Choose(i + 1)
		v[i], v[j] = v[j], v[i]
	}
}

// splitItems cuts a run of serialized items.
func splitItems(typ string, b []byte, n int) (items [][]byte, rest []byte) {
	for i := 0; i < n; i++ {
		w := 8
		switch {
		case strings.Contains(typ, "string"):
			w = 4 + u32(b)
		case strings.Contains(typ, "float32"):
			w = 4
		}
		need(w <= len(b), "item %d of %d needs %d bytes, %d are left", i, n, w, len(b))
		items = append(items, b[:w])
		b = b[w:]
	}
	return items, b
}

// compareItems compares two serialized items by their natural order.
func compareItems(typ string, a, b []byte) int {
	switch {
	case strings.Contains(typ, "string tied"): // whose comparator ignores leading spaces
		return bytes.Compare(bytes.TrimLeft(a[4:], " "), bytes.TrimLeft(b[4:], " "))
	case strings.Contains(typ, "string by value"):
		a, b = bytes.TrimLeft(a[4:], " "), bytes.TrimLeft(b[4:], " ")
		if len(a) != len(b) {
			return len(a) - len(b)
		}
		return bytes.Compare(a, b)
	case strings.Contains(typ, "string"):
		return bytes.Compare(a[4:], b[4:])
	case strings.Contains(typ, "float32"):
		return cmp.Compare(math.Float32frombits(uint32(u32(a))), math.Float32frombits(uint32(u32(b))))
	case strings.Contains(typ, "float64"):
		return cmp.Compare(math.Float64frombits(u64(a)), math.Float64frombits(u64(b)))
	}
	return cmp.Compare(int64(u64(a)), int64(u64(b)))
}

func joinItems(b []byte, items [][]byte) []byte {
	for _, it := range items {
		b = append(b, it...)
	}
	return b
}

// ---- theta ----

type thetaImg struct {
	empty, ordered bool
	theta          uint64
	entries        []uint64
	seedHash       int
}

func readTheta(b []byte) *thetaImg {
	need(b[2] == 3, "theta family id %d", b[2])
	t := &thetaImg{theta: maxTheta, seedHash: u16(b[6:]), empty: b[5]&4 != 0, ordered: b[5]&16 != 0}
	need(b[5]&1 == 0, "theta image flagged big-endian")
	need(b[5]&8 != 0 && b[5]&2 != 0, "theta compact image with flags %#x", b[5])
	pre := int(b[0])
	switch b[1] {
	case 3:
		need(pre >= 1 && pre <= 3, "theta v3 with %d preamble longs", pre)
		if t.empty {
			need(pre == 1 && len(b) == 8, "empty theta v3 image of %d bytes and %d preamble longs", len(b), pre)
			return t
		}
		n := 1
		d := b[8*pre:]
		if pre > 1 {
			n = u32(b[8:])
		}
		if pre > 2 {
			t.theta = u64(b[16:])
		}
		need(pre != 2 || t.theta == maxTheta, "exact with a threshold")
		need(len(d) == 8*n, "theta v3: %d entries in %d bytes", n, len(d))
		for i := 0; i < n; i++ {
			t.entries = append(t.entries, u64(d[8*i:]))
		}
	case 4:
		need(pre == 1 || pre == 2, "theta v4 with %d preamble longs", pre)
		need(!t.empty && t.ordered, "theta v4 flags %#x", b[5])
		bitsPer, nb := uint(b[3]), int(b[4])
		need(bitsPer >= 1 && bitsPer <= 63 && nb >= 1 && nb <= 4, "theta v4: %d bits per entry, count of %d bytes", bitsPer, nb)
		d := b[8:]
		if pre == 2 {
			t.theta = u64(d)
			d = d[8:]
		}
		n := 0
		for i := 0; i < nb; i++ {
			n |= int(d[i]) << (8 * i)
		}
		d = d[nb:]
		need(len(d) == (n*int(bitsPer)+7)/8, "theta v4: %d entries of %d bits in %d bytes", n, bitsPer, len(d))
		pos := uint(0)
		prev := uint64(0)
		for i := 0; i < n; i++ {
			v := uint64(0)
			for k := uint(0); k < bitsPer; k++ {
				v = v<<1 | uint64(d[pos/8]>>(7-pos%8)&1)
				pos++
			}
			prev += v
			t.entries = append(t.entries, prev)
		}
	default:
		bad("theta serial version %d", b[1])
	}
	need(t.theta > 0 && t.theta <= maxTheta, "theta %d", t.theta)
	for i, h := range t.entries {
		need(h > 0 && h < t.theta, "entry %d = %d beyond the threshold %d", i, h, t.theta)
		need(!t.ordered || i == 0 || h > t.entries[i-1], "ordered image, entry %d out of order", i)
	}
	return t
}

func (t *thetaImg) write(s *Sim) ([]byte, string) {
	ordered := slices.Clone(t.entries)
	slices.Sort(ordered)
	n := len(ordered)
	est := t.theta < maxTheta
	put := func(b []byte, v []uint64) []byte {
		for _, h := range v {
			b = p64(b, h)
		}
		return b
	}
	form := s.Pick(2, 2, 2, 3)
	if form == 3 && n == 0 || form == 1 && t.seedHash == 0 { // Java leaves the hash out of empty images of version 3
		form = 2
	}
	switch form {
	case 0: // version 1
		b := []byte{3, 1, 3, byte(s.Choose(27)), byte(s.Choose(27)), 2, 0, 0}
		b = p64(p32(p32(b, n), 0), t.theta)
		return put(b, ordered), "theta v1"
	case 1: // version 2
		pre := 3
		if !est {
			pre = 2
			if t.empty && s.Bool(1, 2) {
				pre = 1
			} else if !t.empty && s.Bool(1, 4) {
				pre = 3
			}
		}
		fl := byte(2 | 8 | 16)
		if t.empty {
			fl |= 4
		}
		b := p16([]byte{byte(pre), 2, 3, 0, 0, fl}, t.seedHash)
		if pre > 1 {
			b = p32(p32(b, n), int(math.Float32bits(1)))
		}
		if pre > 2 {
			b = p64(b, t.theta)
		}
		return put(b, ordered), "theta v2"
	case 2: // version 3
		fl := byte(2 | 8)
		ent := ordered
		if s.Bool(1, 2) || n <= 1 {
			fl |= 16
		} else {
			shuffle(s, ent)
		}
		pre := 2
		switch {
		case t.empty:
			fl |= 4
			pre = 1
		case est:
			pre = 3
		case n == 1:
			pre = 1
			if s.Bool(1, 2) {
				fl |= 32
			}
		}
		b := p16([]byte{byte(pre), 3, 3, byte(s.Choose(3) * 6), byte(s.Choose(3) * 6), fl}, t.seedHash)
		if pre > 1 {
			b = p32(p32(b, n), []int{0, int(math.Float32bits(1))}[s.Choose(2)])
		}
		if pre > 2 {
			b = p64(b, t.theta)
		}
		return put(b, ent), "theta v3"
	}
	// version 4
	all := uint64(0)
	prev := uint64(0)
	for _, h := range ordered {
		all |= h - prev
		prev = h
	}
	w := bits.Len64(all)
	w = min(63, w+s.Pick(6, 1, 1)) // not necessarily the tightest
	nb := (bits.Len(uint(n)) + 7) / 8
	nb = min(4, nb+s.Pick(6, 1))
	pre := 1
	if est {
		pre = 2
	}
	b := p16([]byte{byte(pre), 4, 3, byte(w), byte(nb), 2 | 8 | 16}, t.seedHash)
	if est {
		b = p64(b, t.theta)
	}
	for i := 0; i < nb; i++ {
		b = append(b, byte(n>>(8*i)))
	}
	var acc byte
	fill := 0
	prev = 0
	for _, h := range ordered {
		d := h - prev
		prev = h
		for k := w - 1; k >= 0; k-- {
			acc = acc<<1 | byte(d>>k&1)
			if fill++; fill == 8 {
				b = append(b, acc)
				acc, fill = 0, 0
			}
		}
	}
	if fill > 0 {
		b = append(b, acc<<(8-fill))
	}
	return b, "theta v4"
}

// ---- HLL ----

var lgAuxInts = []int{0, 2, 2, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9, 10, 11, 12, 13}

// hllTable places coupons as an open-addressed table of the layout does.
func hllTable(coupons []uint64, lg int, key func(c uint64) uint64) []uint64 {
	t := make([]uint64, 1<<lg)
	for _, c := range coupons {
		k := key(c)
		i := k & uint64(len(t)-1)
		stride := k>>lg | 1
		for t[i] != 0 {
			i = (i + stride) & uint64(len(t)-1)
		}
		t[i] = c
	}
	return t
}

func gatewayHLL(s *Sim, b []byte) ([]byte, string) {
	h, err := parseHLL(b)
	if err != nil {
		bad("%v", err)
	}
	compact := s.Bool(1, 2)
	typ := s.Choose(3)
	fl := byte(0)
	if h.empty {
		fl |= 4
	}
	if compact {
		fl |= 8
	}
	if h.ooo {
		fl |= 16
	}
	out := []byte{0, 1, 7, byte(h.lgK), 0, fl, 0, byte(h.mode | typ<<2)}
	key26 := func(c uint64) uint64 { return c & (1<<26 - 1) }
	putC := func(v []uint64) {
		for _, c := range v {
			out = p32(out, int(c))
		}
	}
	switch h.mode {
	case 0:
		need(len(h.order) <= 8 && h.empty == (len(h.order) == 0), "HLL list of %d, empty flag %v", len(h.order), h.empty)
		out[0], out[4], out[6] = 2, 3, byte(len(h.order))
		putC(h.order)
		if !compact {
			putC(make([]uint64, 8-len(h.order)))
		}
	case 1:
		lg := int(b[4])
		n := len(h.order)
		need(lg >= 5 && lg <= h.lgK && 4*n <= 3<<lg, "HLL set of %d coupons in 2^%d slots", n, lg)
		need(!h.empty, "HLL set flagged empty")
		out[0], out[4] = 3, byte(lg)
		out = p32(out, n)
		if compact {
			shuffle(s, h.order)
			putC(h.order)
			if s.Bool(1, 4) {
				out[4] = 0 // to be worked out from the count
			}
		} else {
			shuffle(s, h.order)
			putC(hllTable(h.order, lg, key26))
		}
	case 2:
		need(!h.empty, "HLL array flagged empty")
		k0, k1, _ := refKxQ(h.regs)
		if !h.rebuild {
			need(relClose(k0, h.k0, 1e-9) && math.Abs(k1-h.k1) <= 1e-12+1e-6*k1, "HLL array with sums %v,%v, its registers give %v,%v", h.k0, h.k1, k0, k1)
		}
		minV := slices.Min(h.regs)
		num := 0
		for _, v := range h.regs {
			if v == minV {
				num++
			}
		}
		if h.typ == 0 {
			need(h.curMin == int(minV) && h.num == num, "HLL4 array with minimum %d held %d times, its registers give %d, %d", h.curMin, h.num, minV, num)
		}
		cm := int(minV)
		if typ != 0 {
			cm = 0
			num = 0
			for _, v := range h.regs {
				if v == 0 {
					num++
				}
			}
		}
		out[0], out[6] = 10, byte(cm)
		out = pf64(pf64(pf64(out, h.hip), k0), k1)
		out = p32(out, num)
		var aux []uint64
		k := len(h.regs)
		if typ == 0 {
			for i, v := range h.regs {
				if int(v)-cm >= 15 {
					aux = append(aux, uint64(i)|uint64(v)<<26)
				}
			}
		}
		out = p32(out, len(aux))
		switch typ {
		case 2:
			out = append(out, h.regs...)
		case 1:
			d := make([]byte, k*3/4+1)
			for i, v := range h.regs {
				x := uint(v) << (i * 6 % 8)
				d[i*6/8] |= byte(x)
				d[i*6/8+1] |= byte(x >> 8)
			}
			out = append(out, d...)
		case 0:
			d := make([]byte, k/2)
			for i, v := range h.regs {
				d[i/2] |= byte(min(15, int(v)-cm)) << (4 * (i & 1))
			}
			out = append(out, d...)
			lg := lgAuxInts[h.lgK]
			for 4*len(aux) > 3<<lg {
				lg++
			}
			shuffle(s, aux)
			switch {
			case compact:
				out[4] = byte(lg)
				putC(aux)
			case len(aux) > 0:
				out[4] = byte(lg)
				putC(hllTable(aux, lg, func(c uint64) uint64 { return c & uint64(k-1) & (1<<26 - 1) }))
			default:
				// no exceptions: an updatable image still reserves their table
				out[4] = byte(lg)
				putC(make([]uint64, 1<<lg))
			}
		}
	}
	return out, fmt.Sprintf("hll mode %d width %d compact %v", h.mode, typ, compact)
}

// ---- KLL ----

func gatewayKLL(s *Sim, typ string, b []byte) ([]byte, string) {
	need(b[2] == 15, "KLL family %d", b[2])
	empty, sorted, single := b[3]&1 != 0, b[3]&2 != 0, b[3]&4 != 0
	need(b[3]&^7 == 0, "KLL flags %#x", b[3])
	need(u16(b[4:]) >= 8 && b[6] >= 2 && b[6] <= 8, "KLL k %d m %d", u16(b[4:]), b[6])
	switch {
	case empty:
		need(b[0] == 2 && b[1] == 1 && len(b) == 8, "empty KLL image: %d bytes, %d preamble ints, version %d", len(b), b[0], b[1])
		return slices.Clone(b), "kll empty"
	case single:
		need(b[0] == 2 && b[1] == 2, "single-item KLL image: %d preamble ints, version %d", b[0], b[1])
		_, rest := splitItems(typ, b[8:], 1)
		need(len(rest) == 0, "single-item KLL image with %d bytes to spare", len(rest))
		return slices.Clone(b), "kll single"
	}
	need(b[0] == 5 && b[1] == 1, "KLL image: %d preamble ints, version %d", b[0], b[1])
	n, minK, levels := u64(b[8:]), u16(b[16:]), int(b[18])
	need(minK <= u16(b[4:]), "KLL minK %d above k %d", minK, u16(b[4:]))
	need(levels >= 1 && levels <= 61, "KLL image of %d levels", levels)
	lv := make([]int, levels)
	for i := range lv {
		lv[i] = u32(b[20+4*i:])
		need(i == 0 || lv[i] >= lv[max(0, i-1)], "KLL level %d starts at %d, before the one below it", i, lv[i])
	}
	head := 20 + 4*levels
	mm, d := splitItems(typ, b[head:], 2)
	var items [][]byte
	for len(d) > 0 {
		var one [][]byte
		one, d = splitItems(typ, d, 1)
		items = append(items, one[0])
	}
	// the levels' sizes give the weights, which add up to n
	sum := uint64(0)
	l0 := 0
	for i := range lv {
		end := lv[0] + len(items)
		if i+1 < levels {
			end = lv[i+1]
		}
		if i == 0 {
			l0 = end - lv[0]
		}
		need(end >= lv[i] && end-lv[0] <= len(items), "KLL level %d from %d to %d with %d items", i, lv[i], end, len(items))
		sum += uint64(end-lv[i]) << i
	}
	need(sum == n, "KLL levels hold a weight of %d, n is %d", sum, n)
	out := slices.Clone(b[:head])
	form := "kll as is"
	if l0 > 0 && s.Bool(1, 3) {
		// an implementation that sorted level 0 in place says so
		dir := compareItems(typ, mm[0], mm[1])
		slices.SortFunc(items[:l0], func(a, b []byte) int {
			if dir > 0 {
				a, b = b, a
			}
			return compareItems(typ, a, b)
		})
		out[3] |= 2
		form = "kll level 0 sorted"
	} else if l0 > 1 && s.Bool(2, 3) {
		shuffle(s, items[:l0])
		out[3] &^= 2
		form = "kll level 0 shuffled"
		if sorted {
			form = "kll level 0 unsorted"
		}
	}
	out = joinItems(out, mm)
	return joinItems(out, items), form
}

// ---- t-digest ----

func gatewayTD(s *Sim, b []byte) ([]byte, string) {
	need(b[2] == 20 && b[1] == 1, "t-digest family %d version %d", b[2], b[1])
	need(b[5]&^7 == 0 && b[6] == 0 && b[7] == 0 && u16(b[3:]) >= 10, "t-digest header % x", b[:8])
	empty, single := b[5]&1 != 0, b[5]&2 != 0
	switch {
	case empty:
		need(b[0] == 1 && len(b) == 8, "empty t-digest image of %d bytes", len(b))
		return slices.Clone(b), "tdigest empty"
	case single:
		need(b[0] == 1 && len(b) == 16, "single-value t-digest image of %d bytes", len(b))
		return slices.Clone(b), "tdigest single"
	}
	need(b[0] == 2, "t-digest preamble longs %d", b[0])
	nc, nb := u32(b[8:]), u32(b[12:])
	need(len(b) == 32+16*nc+8*nb, "t-digest image of %d bytes with %d centroids and %d buffered", len(b), nc, nb)
	lo, hi := f64(b[16:]), f64(b[24:])
	need(lo <= hi, "t-digest range %v..%v", lo, hi)
	for i := 0; i < nc; i++ {
		need(u64(b[40+16*i:]) > 0, "t-digest centroid %d weighs nothing", i)
		m := f64(b[32+16*i:])
		need(m >= lo && m <= hi, "t-digest centroid %d at %v outside %v..%v", i, m, lo, hi)
		need(i == 0 || m >= f64(b[16+16*i:]), "t-digest centroid %d at %v before %v", i, m, f64(b[16+16*i:]))
	}
	out := slices.Clone(b)
	form := "tdigest as is"
	if nb > 1 {
		items, _ := splitItems("float64", slices.Clone(b[32+16*nc:]), nb)
		shuffle(s, items)
		out = joinItems(out[:32+16*nc], items)
		form = "tdigest buffer shuffled"
	}
	return out, form
}

// ---- frequent items ----

func gatewayFreq(s *Sim, typ string, b []byte) ([]byte, string) {
	need(b[2] == 10 && b[1] == 1, "frequency family %d version %d", b[2], b[1])
	lgMax, lgCur := int(b[3]), int(b[4])
	need(lgMax >= 3 && lgCur >= 3 && lgCur <= lgMax, "frequency map sizes 2^%d of 2^%d", lgCur, lgMax)
	if b[5]&5 != 0 {
		need(b[0] == 1 && len(b) == 8, "empty frequency image of %d bytes", len(b))
		out := slices.Clone(b)
		out[5] = []byte{1, 4, 5}[s.Choose(3)] // the flag moved in the course of time
		return out, "frequencies empty"
	}
	need(b[0] == 4, "frequency preamble longs %d", b[0])
	n := u32(b[8:])
	w, off := int64(u64(b[16:])), int64(u64(b[24:]))
	need(4*n <= 3<<lgCur, "frequency image of %d items in 2^%d slots", n, lgCur)
	type pair struct{ v, k []byte }
	var ps []pair
	keys, rest := splitItems(typ, b[32+8*n:], n)
	need(len(rest) == 0, "frequency image with %d bytes to spare", len(rest))
	sum := int64(0)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		c := int64(u64(b[32+8*i:]))
		need(c > 0, "frequency image with counter %d", c)
		need(!seen[string(keys[i])], "frequency image with key % x twice", keys[i])
		seen[string(keys[i])] = true
		sum += c
		ps = append(ps, pair{b[32+8*i : 40+8*i], keys[i]})
	}
	need(sum <= w && off >= 0, "frequency counters add up to %d of %d, offset %d", sum, w, off)
	out := slices.Clone(b[:32])
	form := "frequencies shuffled"
	shuffle(s, ps)
	if lgCur < lgMax && s.Bool(1, 3) {
		out[4] = byte(lgCur + 1 + s.Choose(lgMax-lgCur))
		form = "frequencies in a larger map"
	}
	for _, p := range ps {
		out = append(out, p.v...)
	}
	for _, p := range ps {
		out = append(out, p.k...)
	}
	return out, form
}

// ---- count-min ----

func gatewayCM(s *Sim, b []byte) ([]byte, string) {
	need(b[0] == 2 && b[1] == 1 && b[2] == 18 && b[3]&^1 == 0, "count-min header % x", b[:8])
	nb, nh := u32(b[8:]), int(b[12])
	need(nb >= 3 && nh >= 1 && b[15] == 0 && u32(b[4:]) == 0, "count-min of %d by %d, unused %d and %d", nb, nh, b[15], u32(b[4:]))
	if b[3]&1 != 0 {
		need(len(b) == 16, "empty count-min image of %d bytes", len(b))
		return slices.Clone(b), "count-min empty"
	}
	need(len(b) == 24+8*nb*nh, "count-min image of %d bytes for %d by %d", len(b), nb, nh)
	// every row of counters adds up to the same net weight
	var rows []int64
	for r := 0; r < nh; r++ {
		t := int64(0)
		for c := 0; c < nb; c++ {
			t += int64(u64(b[24+8*(r*nb+c):]))
		}
		rows = append(rows, t)
		need(t == rows[0], "count-min rows add up to %d and %d", rows[0], t)
	}
	return slices.Clone(b), "count-min as is"
}

// ---- bloom filter ----

func gatewayBloom(s *Sim, b []byte) ([]byte, string) {
	need(b[1] == 1 && b[2] == 21 && b[3]&^4 == 0, "bloom header % x", b[:8])
	need(u16(b[4:]) >= 1, "bloom with %d hashes", u16(b[4:]))
	longs := u32(b[16:])
	need(longs >= 1, "bloom of %d longs", longs)
	if b[3]&4 != 0 {
		need(b[0] == 3 && len(b) == 24, "empty bloom image of %d bytes", len(b))
		return slices.Clone(b), "bloom empty"
	}
	need(b[0] == 4 && len(b) == 32+8*longs, "bloom image of %d bytes for %d longs", len(b), longs)
	n := 0
	for i := 0; i < longs; i++ {
		n += bits.OnesCount64(u64(b[32+8*i:]))
	}
	need(u64(b[24:]) == uint64(n) || u64(b[24:]) == math.MaxUint64, "bloom image counts %d bits, %d are set", u64(b[24:]), n)
	out := slices.Clone(b)
	if s.Bool(1, 2) {
		binary.LittleEndian.PutUint64(out[24:], math.MaxUint64)
		return out, "bloom with an unknown count"
	}
	binary.LittleEndian.PutUint64(out[24:], uint64(n))
	return out, "bloom with its count"
}

// ---- reservoir ----

func resSizeV1(k int) (int, bool) {
	if k < 2 || k > 4096 {
		return 0, false // only sizes the 16-bit form expresses exactly
	}
	e := bits.Len(uint(k)) - 1
	return e<<11 | (k-1<<e)*(2048>>e), true
}

func gatewayRes(s *Sim, typ string, b []byte) ([]byte, string) {
	need(b[1] == 2 && b[2] == 11 && b[3]&^4 == 0, "reservoir header % x", b[:8])
	k := u32(b[4:])
	need(k >= 2, "reservoir of %d", k)
	out := slices.Clone(b[:8])
	form := "reservoir shuffled"
	if v, ok := resSizeV1(k); ok && s.Bool(1, 3) {
		out[1], out[4], out[5], out[6], out[7] = 1, byte(v), byte(v>>8), 0, 0
		form = "reservoir v1"
	}
	if b[3]&4 != 0 {
		need(b[0]&63 == 1 && len(b) == 8, "empty reservoir image of %d bytes", len(b))
		return out, form + " empty"
	}
	need(b[0]&63 == 2, "reservoir preamble longs %d", b[0]&63)
	n := u64(b[8:])
	need(n >= 1 && n < 1<<48, "reservoir of %d items", n)
	items, rest := splitItems(typ, b[16:], int(min(n, uint64(k))))
	need(len(rest) == 0, "reservoir image with %d bytes to spare", len(rest))
	shuffle(s, items)
	out = p64(out, n)
	return joinItems(out, items), form
}

func gatewayResUnion(s *Sim, typ string, b []byte) ([]byte, string) {
	need(b[0]&63 == 1 && b[1] == 2 && b[2] == 12 && b[3]&^4 == 0, "reservoir union header % x", b[:8])
	k := u32(b[4:])
	out := slices.Clone(b[:8])
	form := "union of "
	if v, ok := resSizeV1(k); ok && s.Bool(1, 3) {
		out[1], out[4], out[5], out[6], out[7] = 1, byte(v), byte(v>>8), 0, 0
		form = "v1 union of "
	}
	if b[3]&4 != 0 {
		need(len(b) == 8, "empty reservoir union image of %d bytes", len(b))
		return out, form + "nothing"
	}
	in, f := gatewayRes(s, typ, b[8:])
	return append(out, in...), form + f
}

// ---- varopt ----

func gatewayVO(s *Sim, typ string, b []byte) ([]byte, string) {
	need(b[1] == 2 && b[2] == 13 && b[3]&^(4|128) == 0, "varopt header % x", b[:8])
	gadget := b[3]&128 != 0
	k := u32(b[4:])
	if b[3]&4 != 0 {
		need(b[0]&63 == 1 && len(b) == 8, "empty varopt image of %d bytes", len(b))
		return slices.Clone(b), "varopt empty"
	}
	pre := int(b[0] & 63)
	n, h, r := u64(b[8:]), u32(b[16:]), u32(b[20:])
	head := 24
	if r > 0 {
		need(pre == 4, "sampling varopt with %d preamble longs", pre)
		need(h+r == k, "sampling varopt of %d+%d items, k %d", h, r, k)
		need(f64(b[24:]) > 0, "varopt light weight %v", f64(b[24:]))
		head = 32
	} else {
		need(pre == 3, "warm-up varopt with %d preamble longs", pre)
		need(uint64(h) == n && h <= k, "warm-up varopt of %d items, n %d, k %d", h, n, k)
	}
	d := b[head:]
	type heavy struct {
		w    float64
		mark bool
		it   []byte
	}
	hs := make([]heavy, h)
	for i := range hs {
		hs[i].w = f64(d[8*i:])
		need(hs[i].w > 0 && !math.IsInf(hs[i].w, 0), "varopt weight %v", hs[i].w)
		if r > 0 {
			tau := f64(b[24:]) / float64(r)
			need(hs[i].w >= tau*(1-1e-9), "varopt heavy item of %v, threshold %v", hs[i].w, tau)
		}
	}
	d = d[8*h:]
	if gadget {
		for i := range hs {
			hs[i].mark = d[i/8]>>(i%8)&1 != 0
		}
		d = d[(h+7)/8:]
	}
	items, rest := splitItems(typ, d, h+r)
	need(len(rest) == 0, "varopt image with %d bytes to spare", len(rest))
	for i := range hs {
		hs[i].it = items[i]
	}
	light := slices.Clone(items[h:])
	shuffle(s, light)
	shuffle(s, hs)
	if r > 0 { // a heap: ascending is one
		slices.SortStableFunc(hs, func(a, b heavy) int {
			switch {
			case a.w < b.w:
				return -1
			case a.w > b.w:
				return 1
			}
			return 0
		})
	}
	out := slices.Clone(b[:head])
	marks := make([]byte, (h+7)/8)
	for i, x := range hs {
		out = pf64(out, x.w)
		if x.mark {
			marks[i/8] |= 1 << (i % 8)
		}
	}
	if gadget {
		out = append(out, marks...)
	}
	for _, x := range hs {
		out = append(out, x.it...)
	}
	return joinItems(out, light), "varopt shuffled"
}

func gatewayVOUnion(s *Sim, typ string, b []byte) ([]byte, string) {
	need(b[1] == 2 && b[2] == 14 && b[3]&^4 == 0, "varopt union header % x", b[:8])
	if b[3]&4 != 0 {
		need(b[0] == 1 && len(b) == 8, "empty varopt union image of %d bytes", len(b))
		return slices.Clone(b), "varopt union empty"
	}
	need(b[0] == 4, "varopt union preamble longs %d", b[0])
	need(f64(b[16:]) >= 0, "varopt union tau numerator %v", f64(b[16:]))
	in, f := gatewayVO(s, typ, b[32:])
	return append(slices.Clone(b[:32]), in...), "union of " + f
}

// ---- tuple ----

// gatewayTuple re-emits a tuple image; the second result is whether it is ordered.
func gatewayTuple(s *Sim, name string, width int, b []byte) (out []byte, ordered bool, err error) {
	defer func() {
		if p := recover(); p != nil {
			if le, ok := p.(layoutError); ok {
				err = le
				return
			}
			if re, ok := p.(interface{ RuntimeError() }); ok {
				err = fmt.Errorf("image too short for its layout (%v)", re)
				return
			}
			panic(p)
		}
	}()
	need(b[2] == 9, "tuple family %d", b[2])
	type entry struct {
		h uint64
		v []byte
	}
	var es []entry
	aon := width > 0
	var n int
	th := maxTheta
	var empty bool
	if aon {
		need(b[0] == 1 && b[1] == 1 && b[3] == 3, "array of numbers header % x", b[:8])
		need(b[4]&^(4|8|16) == 0 && int(b[5]) == width, "array of numbers flags %#x, width %d want %d", b[4], b[5], width)
		empty, ordered = b[4]&4 != 0, b[4]&16 != 0
		th = u64(b[8:])
		if b[4]&8 == 0 {
			need(len(b) == 16, "array of numbers image without entries of %d bytes", len(b))
		} else {
			n = u32(b[16:])
			vw := width * 8
			if strings.Contains(name, "32") {
				vw = width * 4
			}
			need(n > 0 && len(b) == 24+n*(8+vw), "array of numbers image of %d bytes with %d entries of %d values", len(b), n, width)
			for i := 0; i < n; i++ {
				es = append(es, entry{u64(b[24+8*i:]), b[24+8*n+vw*i : 24+8*n+vw*(i+1)]})
			}
		}
	} else {
		need(b[1] == 3 && b[3] == 1 && b[4] == 0 && b[0] >= 1 && b[0] <= 3, "tuple header % x", b[:8])
		need(b[5]&(2|8) == 2|8 && b[5]&^(2|4|8|16) == 0, "tuple flags %#x", b[5])
		empty, ordered = b[5]&4 != 0, b[5]&16 != 0
		d := b[8*int(b[0]):]
		if empty {
			need(b[0] == 1, "empty tuple image with %d preamble longs", b[0])
		} else {
			n = 1
			if b[0] > 1 {
				n = u32(b[8:])
			}
			if b[0] > 2 {
				th = u64(b[16:])
			}
		}
		for i := 0; i < n; i++ {
			w := 16
			if strings.Contains(name, "strings") {
				w = u32(d[8:])
				need(w >= 5, "strings summary of %d bytes", w)
				x := d[8+5 : 8+w]
				for k := 0; k < int(d[8+4]); k++ {
					x = x[4+u32(x):]
				}
				need(len(x) == 0, "strings summary with %d bytes to spare", len(x))
			}
			es = append(es, entry{u64(d), d[8 : 8+w]})
			d = d[8+w:]
		}
		need(len(d) == 0, "tuple image with %d bytes to spare", len(d))
	}
	need(!empty || n == 0 && (aon || th == maxTheta), "empty tuple image with %d entries, threshold %d", n, th)
	for i, e := range es {
		need(e.h > 0 && e.h < th, "entry %d = %d beyond the threshold %d", i, e.h, th)
		need(!ordered || i == 0 || e.h > es[max(0, i-1)].h, "ordered image, entry %d out of order", i)
	}
	order := 0
	if n > 1 {
		order = s.Choose(3)
	}
	switch order {
	case 1:
		shuffle(s, es)
		ordered = false
	case 2:
		slices.SortFunc(es, func(a, b entry) int { return boolInt(a.h > b.h) - boolInt(a.h < b.h) })
		ordered = true
	}
	setFlag := func(at int) {
		out[at] &^= 16
		if ordered {
			out[at] |= 16
		}
	}
	if aon {
		out = slices.Clone(b[:min(len(b), 24)])
		setFlag(4)
		for _, e := range es {
			out = p64(out, e.h)
		}
		for _, e := range es {
			out = append(out, e.v...)
		}
		return out, ordered, nil
	}
	out = slices.Clone(b[:8*int(b[0])])
	if !empty && n == 1 && th == maxTheta && s.Bool(1, 3) { // the long form of a single entry
		out = append(p32(p32(slices.Clone(b[:8]), 1), 0))
		out[0] = 2
	}
	setFlag(5)
	if s.Bool(1, 3) {
		out[1], out[3] = 1, 5 // as early versions wrote it
	}
	for _, e := range es {
		out = append(p64(out, e.h), e.v...)
	}
	return out, ordered, nil
}

// ---- the family wrapper ----

type foreignFam struct {
	Family
	typ string
}

func viaGateway(mk func(s *Sim) Family) func(s *Sim) Family {
	return func(s *Sim) Family {
		f := mk(s)
		return &foreignFam{f, f.Name()}
	}
}

func (f *foreignFam) NewLeaf(s *Sim) Replica { return &foreignRep{f.Family.NewLeaf(s), f} }
func (f *foreignFam) NewAgg(s *Sim) Replica  { return &foreignRep{f.Family.NewAgg(s), f} }

type foreignRep struct {
	Replica
	f *foreignFam
}

// pass sends an image through a gateway on its way.
func (r *foreignRep) pass(s *Sim, img *Image) *Image {
	if img.Bytes == nil || img.Enc == "frequencies text" || img.Enc == "theta-old" || s.Bool(1, 4) {
		return img
	}
	b, form, err := transcode(s, img.Enc, r.f.typ, img.Bytes)
	s.Assert(err == nil, "layout-"+img.Enc, "an independent reader of the published layout cannot read an image written here: %v", err)
	s.Fault("gateway: " + form)
	s.Logf("gateway: %s, %d -> %d bytes", form, len(img.Bytes), len(b))
	c := *img
	c.Bytes, c.Live = b, nil
	if form == "cpc merged" {
		x := *img.M.(*cpcM)
		x.m = x.m.clone()
		x.m.merged = true
		c.M = &x
	}
	if c.Enc == "theta-live" {
		c.Enc = "theta-v3"
	}
	return &c
}

func (r *foreignRep) Encode(s *Sim) *Image {
	img := r.Replica.Encode(s)
	if img != nil && img.Bytes != nil && img.Enc != "frequencies text" {
		// what is written follows the layout
		_, _, err := transcode(newSim("layout", "", "", 0, 1), img.Enc, r.f.typ, img.Bytes)
		s.Assert(err == nil, "layout-"+img.Enc, "an independent reader of the published layout cannot read an image written here: %v", err)
		if m, ok := img.M.(*cpcM); ok {
			s.Assert(slices.Equal(readCPC(img.Bytes).rows, m.m.rows), "layout-contents-cpc", "an independent reader of the published layout recovers other coupons than were written")
		}
	}
	return img
}

func (r *foreignRep) Absorb(s *Sim, img *Image) { r.Replica.Absorb(s, r.pass(s, img)) }

func (r *foreignRep) Restore(s *Sim, img *Image) (Replica, bool) {
	n, ok := r.Replica.Restore(s, r.pass(s, img))
	if n == nil {
		return nil, ok
	}
	return &foreignRep{n, r.f}, ok
}

func init() {
	sc := []scenarioDef{
		{"theta-gateway", 6, clusterScenario(viaGateway(newThetaFam))},
		{"theta-layout", 3, thetaLayoutScenario},
		{"hll-gateway", 6, clusterScenario(viaGateway(newHLLFam))},
		{"kll-gateway", 3, clusterScenario(viaGateway(newKLLFam))},
		{"tdigest-gateway", 2, clusterScenario(viaGateway(newTDFam))},
		{"frequencies-gateway", 3, clusterScenario(viaGateway(newFqFam(false)))},
		{"count-min-gateway", 1, clusterScenario(viaGateway(newCMFam))},
		{"bloom-gateway", 2, clusterScenario(viaGateway(newBloomFam))},
		{"reservoir-gateway", 3, clusterScenario(viaGateway(newResFam))},
		{"varopt-gateway", 3, clusterScenario(viaGateway(newVOFam))},
		{"cpc-layout", 2, cpcLayoutScenario},
		{"cpc-gateway", 4, clusterScenario(viaGateway(newCPCFam))},
		{"tuple-gateway", 4, func(s *Sim) {
			tupGateways = true
			defer func() { tupGateways = false }()
			tupleScenario(s.Choose(7))(s)
		}},
	}
	sc = append(sc,
		scenarioDef{"theta-golden", 2, goldenTheta},
		scenarioDef{"hll-golden", 2, goldenHLL},
		scenarioDef{"cpc-golden", 1, goldenCPC},
		scenarioDef{"kll-golden", 1, goldenKLL},
		scenarioDef{"tdigest-golden", 1, goldenTD},
		scenarioDef{"frequencies-golden", 1, goldenFreq},
		scenarioDef{"reservoir-golden", 1, goldenReservoir},
		scenarioDef{"varopt-golden", 1, goldenVarOpt},
	)
	register(&propDef{ID: "X07", Quick: 30000, Thorough: 1500000, Scenarios: sc,
		Rule: "Images pass through an independent reader and writer of the published layout between writer and reader, in every form the layout and its earlier versions allow.",
		Real: []string{"theta", "hll", "kll", "tdigest", "frequencies", "count", "filters", "sampling", "tuple", "cpc"}, Stub: []string{"network", "disk", "math/rand", "crypto/rand", "foreign implementations"}})
}
