package main

// An independent reader and writer of the published compressed CPC layout.
// The Huffman codes of the layout are canonical, so their lengths define them;
// the sixteen column permutations move a few columns to the end.

import (
	"encoding/binary"
	"math"
	"math/bits"
	"slices"
	"sync"

	"github.com/apache/datasketches-go/cpc"
)

// code lengths, one hexadecimal digit per symbol
const cpcUnaryLen = "12345788aabcccccccccccccccccccccccccccccccccccccccccccccccccccccc"

var cpcByteLen = [22]string{
	"95739572a684a583b7a5b795c8a6c8a6c8b6c8a6c9c7c9b7cac8cac8cbc9cbc9c9c7c9b7cac8cac8cbc9cbc9cccacccacccacccacccbcccbcccccccccccccccccac8cac8cbc9cbc9cccacccacccbcccbcccbcccbcccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc",
	"a5839572b694a683c7a5b795c8b6c8a5c8b6c8a6c9c7c9b6cac8cac8cbc9cbc9c9c7c9b7cac8cac8cbc9cbc9cccacccacccacccacccbcccbcccccccccccccccccac8cac8cbc9cbc9cccacccacccbcccbcccbcccbcccccccbcccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc",
	"a583a582b694b683c7a5c7a5c8b6c8a5c8b6c8b6c9c7c9c6cac8cac8cbc9cbc8c9c7c9c7cac8cac7cbc9cbc9cccacccacccacccacccbcccbcccccccccccccccccac8cac8cbc9cbc8cccacccacccbcccbcccbcccbcccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc",
	"b693a582c694b693c8b5c7a4c8b6c8b5c9c6c8b6c9c7c9c6cbc8cac8cbc9cbc8cac7c9c7cbc8cac7ccc9cbc9cccaccc9cccacccacccbcccbcccccccccccccccccbc8cac8ccc9cbc9cccacccacccbcccbcccbcccbcccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc",
	"b693b582c7a4b693c8b5c7a4c8b6c8b5c9c6c8b6cac7c9c6cbc8cac7cbc9cbc8cac7c9c7cbc8cac7ccc9cbc8cccaccc9cccacccacccbcccacccccccbcccccccccbc8cac8ccc9cbc8cccaccc9cccbcccacccbcccbcccccccbcccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc",
	"c693b582c7a4c693c8b5c7a4c8c6c8b5c9c6c8b6cac7c9c6cbc8cac7ccc9cbc8cac7c9c7cbc8cac7ccc9cbc8cccaccc9cccaccc9cccbcccacccccccbcccccccccbc8cac8ccc9cbc8cccaccc9cccbcccacccbcccbcccccccbcccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc",
	"63627463857496859685a796b8a7b9a8a797b8a7c9b8cab9cac9cbcacccbcccbb8a8c9b8cac9cbcacbcacccbcccccccccccbccccccccccccccccccccccccccccc9b8cac9cbcacccbcccbcccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc",
	"73627463857496859685a796b8a7c9b8a796b8a7c9b8cac9cac9cbcacccbcccbb8a7c9b8cac9cbcacbcacccbcccccccccccbcccccccccccccccccccccccccccccab9cac9cbcacccbcccbcccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc",
	"7462746385749584a685a796b8a7b8a7b796b8a7c9b8c9b8cac9cac9cccbcccbc8a7c9b8cac9cac9cbcacbcacccccccccccbcccbccccccccccccccccccccccccc9c8cac9cbcacbcacccbcccbcccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc",
	"7462746395749684a685a795b8a7c8a7b796b8a7c9b8c9b8cac9cac9cccacccbc8b7c9b8cac9cac9cbcacbcacccbcccccccbcccbccccccccccccccccccccccccc9c8cac8cbcacbcacccbcccbcccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc",
	"7462846395749684a695a795b8a7c8a7b8a6b8a6c9b8c9b8cac9cac9cbcacccac9b7c9b7cac9cac9cbcacbcacccbcccbcccbcccbccccccccccccccccccccccccc9c8cac8cbcacbcacccbcccbcccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc",
	"8462846395849684a695a795b8a6c8a7b8a6b8a6c9b8c9b8cac9cac9cbcacccac9b7c9b7cac9cac9cbcacbcacccbcccbcccbcccbcccccccccccccccccccccccccac8cac8cbc9cbcacccbcccbcccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc",
	"8462847395849684a795b795c8a6c8a6c8a6c8a6c9b7c9b7cac9cac9cbcacbcac9b7c9b7cac8cac9cbcacbcacccbcccbcccbcccbcccccccccccccccccccccccccac8cac8cbcacbcacccbcccbcccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc",
	"84738472a684a584b795b795c8a6c8a6c8a6c8a6c9b7c9b7cac8cac8cbcacbcac9b7c9b7cac8cac8cbc9cbc9cccbcccbcccbcccbcccccccccccccccccccccccccac8cac8cbc9cbc9cccbcccacccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc",
	"94739472a684a584b795b795c8a6c8a6c8a6c8a6c9b7c9b7cac8cac8cbcacbc9c9b7c9b7cac8cac8cbc9cbc9cccbcccacccacccacccccccbcccccccccccccccccac8cac8cbc9cbc9cccacccacccccccbcccbcccbcccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc",
	"94739472a684a584b795b795c8b6c8a6c8b6c8a6c9c7c9b7cac8cac8cbc9cbc9c9c7c9b7cac8cac8cbc9cbc9cccacccacccacccacccccccbcccccccccccccccccac8cac8cbc9cbc9cccacccacccccccbcccbcccbcccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc",
	"12455689689aabcc78abbccccccccccc8abccccccccccccccccccccccccccccc9accccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccabcccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc",
	"22344566567789aa67889abbabcccccc789aabccbccccccccccccccccccccccc89abbccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc9abbcccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc",
	"2243546665778899778899aaaabbcccc8799aabbbbcccccccccccccccccccccc99aabbcccccccccccccccccccccccccccccccccccccccccccccccccccccccccca9bbcccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc",
	"324354546566878776779898a9aacbcb8798a9a9babbcccccbcccccccccccccc98a9babbcbcccccccccccccccccccccccccccccccccccccccccccccccccccccca9bacbcbcccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc",
	"424354546565868676869797a8a8baba9797a8a8b9bacbcbcbcbcccccccccccca8a8b9b9cbcbccccccccccccccccccccccccccccccccccccccccccccccccccccb9b9cacacccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc",
	"535264537575868586869796a8a8b9b99797a8a7b9b9cacacacacbcbcccccccca8a8b9b9cacacbcbcbcbccccccccccccccccccccccccccccccccccccccccccccb9b9cacacbcbcccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccccc",
}

// the columns each phase encodes last
var cpcLast = [16][]int{
	{34, 14, 4},
	{35, 15, 4},
	{37, 16, 5},
	{39, 17, 5},
	{41, 18, 6},
	{43, 19, 6},
	{45, 20, 7, 0},
	{47, 21, 7, 0},
	{50, 22, 8, 0},
	{52, 23, 9, 1},
	{25, 9, 1},
	{26, 10, 1},
	{27, 11, 2},
	{29, 11, 2},
	{30, 12, 3},
	{32, 13, 3},
}

type cpcCode struct {
	code []uint32 // first bit lowest
	n    []int
	sym  map[uint32]int // length<<16 | code
}

func canonicalCode(lens string) *cpcCode {
	c := &cpcCode{code: make([]uint32, len(lens)), n: make([]int, len(lens)), sym: map[uint32]int{}}
	next, last := uint32(0), 0
	for l := 1; l <= 12; l++ {
		for i := range lens {
			h := int(lens[i] - '0')
			if lens[i] >= 'a' {
				h = int(lens[i]-'a') + 10
			}
			if h != l {
				continue
			}
			next <<= l - last
			last = l
			v := bits.Reverse32(next) >> (32 - l)
			c.code[i], c.n[i] = v, l
			c.sym[uint32(l)<<16|v] = i
			next++
		}
	}
	return c
}

var cpcCodes = sync.OnceValue(func() (t [23]*cpcCode) {
	for i, l := range cpcByteLen {
		t[i] = canonicalCode(l)
	}
	t[22] = canonicalCode(cpcUnaryLen)
	return
})

// cpcPerm maps a column relative to the end of the window to the column encoded.
func cpcPerm(phase int) []int {
	var p []int
	for c := 0; c < 56; c++ {
		if !slices.Contains(cpcLast[phase], c) {
			p = append(p, c)
		}
	}
	return append(p, cpcLast[phase]...)
}

func cpcPhase(lgK, c int) int {
	k := 1 << lgK
	switch {
	case 1000*c >= 2375*k:
		return c >> (lgK - 4) & 15
	case 4*c < 3*k:
		return 16
	case 10*c < 11*k:
		return 17
	case 100*c < 132*k:
		return 18
	case 3*c < 5*k:
		return 19
	case 1000*c < 1965*k:
		return 20
	case 1000*c < 2275*k:
		return 21
	}
	return 6
}

func cpcOffset(lgK, c int) int {
	if t := 8*c - 19<<lgK; t >= 0 {
		return t >> (lgK + 3)
	}
	return 0
}

func cpcBaseBits(k, n int) int {
	if q := k / n; q > 0 {
		return bits.Len(uint(q)) - 1
	}
	return 0
}

type bitReader struct {
	b   []byte
	pos int
}

func (r *bitReader) bit() uint32 {
	need(r.pos < 8*len(r.b), "CPC stream ends early")
	v := r.b[r.pos>>3] >> (r.pos & 7) & 1
	r.pos++
	return uint32(v)
}

func (r *bitReader) bits(n int) (v int) {
	for i := 0; i < n; i++ {
		v |= int(r.bit()) << i
	}
	return
}

func (r *bitReader) sym(c *cpcCode) int {
	v := uint32(0)
	for l := uint32(1); l <= 12; l++ {
		v |= r.bit() << (l - 1)
		if s, ok := c.sym[l<<16|v]; ok {
			return s
		}
	}
	bad("CPC stream holds an unknown code")
	return 0
}

// end checks that only padding is left: pad zero bits, then up to a whole word.
func (r *bitReader) end(pad int) {
	need(len(r.b) == (r.pos+pad+31)/32*4, "CPC stream of %d bytes for %d bits and %d of padding", len(r.b), r.pos, pad)
	for r.pos < 8*len(r.b) {
		need(r.bit() == 0, "CPC stream padded with ones")
	}
}

type bitWriter struct {
	b   []byte
	pos int
}

func (w *bitWriter) put(v uint64, n int) {
	for i := 0; i < n; i++ {
		if w.pos&7 == 0 {
			w.b = append(w.b, 0)
		}
		w.b[w.pos>>3] |= byte(v>>i&1) << (w.pos & 7)
		w.pos++
	}
}

func (w *bitWriter) end(pad int) []byte {
	w.put(0, pad)
	for len(w.b)%4 != 0 {
		w.b = append(w.b, 0)
	}
	return w.b
}

type cpcImg struct {
	lgK, seedHash, fiCol int
	hip                  bool
	kxp, accum           float64
	c                    int
	rows                 []uint64
}

func readCPC(b []byte) *cpcImg {
	need(b[2] == 16 && b[1] == 1, "CPC family %d serial version %d", b[2], b[1])
	need(b[3] >= 4 && b[3] <= 26, "CPC lgK %d", b[3])
	need(b[5]&^30 == 0 && b[5]&2 != 0, "CPC flags %#x", b[5])
	m := &cpcImg{lgK: int(b[3]), seedHash: u16(b[6:]), fiCol: int(b[4]), hip: b[5]&4 != 0}
	sv, win := b[5]&8 != 0, b[5]&16 != 0
	k := 1 << m.lgK
	m.rows = make([]uint64, k)
	m.kxp = float64(k)
	pos := 8
	next32 := func() int { pos += 4; return u32(b[pos-4:]) }
	if !sv && !win {
		need(b[0] == 2 && len(b) == 8 && m.fiCol == 0, "empty CPC image of %d bytes, %d preamble ints, column %d", len(b), b[0], m.fiCol)
		return m
	}
	m.c = next32()
	nsv := 0
	if sv {
		nsv = m.c
		if win {
			nsv = next32()
		}
	}
	doubles := func() {
		if m.hip {
			m.kxp, m.accum = f64(b[pos:]), f64(b[pos+8:])
			pos += 16
		}
	}
	svLen, wLen := 0, 0
	if sv && win {
		doubles()
	}
	if sv {
		svLen = next32()
	}
	if win {
		wLen = next32()
	}
	if !(sv && win) {
		doubles()
	}
	need(pos == 4*int(b[0]), "CPC image with %d preamble ints, flags %#x", b[0], b[5])
	need(len(b) == pos+4*(svLen+wLen), "CPC image of %d bytes with streams of %d and %d words", len(b), wLen, svLen)
	w := b[pos : pos+4*wLen]
	v := b[pos+4*wLen:]
	flavor := cpcFlavor(m.lgK, m.c)
	need(flavor > 0 && win == (flavor > 2) && (sv || win), "CPC flags %#x with %d coupons at lgK %d", b[5], m.c, m.lgK)
	off := 0
	if flavor == 4 {
		off = cpcOffset(m.lgK, m.c)
		for i := range m.rows {
			m.rows[i] = 1<<off - 1
		}
	}
	if win {
		r := &bitReader{b: w}
		code := cpcCodes()[cpcPhase(m.lgK, m.c)]
		for i := range m.rows {
			m.rows[i] |= uint64(r.sym(code)) << off
		}
		r.end(11)
	}
	if sv {
		r := &bitReader{b: v}
		base := cpcBaseBits(k, nsv)
		var perm []int
		if flavor == 4 {
			perm = cpcPerm(cpcPhase(m.lgK, m.c))
		}
		row, col := 0, 0
		for i := 0; i < nsv; i++ {
			x := r.sym(cpcCodes()[22])
			y := 0
			for r.bit() == 0 {
				y++
			}
			y = y<<base | r.bits(base)
			if y > 0 {
				col = 0
			}
			row += y
			col += x
			need(row < k && col < 64, "CPC pair %d,%d out of range", row, col)
			at := col
			switch flavor {
			case 3:
				at += 8
			case 4:
				at = (slices.Index(perm, col) + off + 8) & 63
				need(col < 56, "CPC surprise in column %d", col)
			}
			need(at < 64, "CPC surprise in column %d", at)
			m.rows[row] ^= 1 << at
			col++
		}
		r.end(max(0, 10-base))
	}
	need(countRows(m.rows) == m.c, "CPC image says %d coupons and holds %d", m.c, countRows(m.rows))
	for i, x := range m.rows {
		need(x&(1<<m.fiCol-1) == 1<<m.fiCol-1, "CPC row %d lacks a column before %d", i, m.fiCol)
	}
	return m
}

func (m *cpcImg) write() []byte {
	k := 1 << m.lgK
	hdr := []byte{0, 1, 16, byte(m.lgK), byte(m.fiCol), 2}
	if m.hip {
		hdr[5] |= 4
	}
	flavor := cpcFlavor(m.lgK, m.c)
	off, win := 0, flavor > 2
	if flavor == 4 {
		off = cpcOffset(m.lgK, m.c)
	}
	var w, v []byte
	if win {
		code := cpcCodes()[cpcPhase(m.lgK, m.c)]
		bw := &bitWriter{}
		for _, x := range m.rows {
			s := x >> off & 255
			bw.put(uint64(code.code[s]), code.n[s])
		}
		w = bw.end(11)
		hdr[5] |= 16
	}
	type pair struct{ r, c int }
	var ps []pair
	var perm []int
	if flavor == 4 {
		perm = cpcPerm(cpcPhase(m.lgK, m.c))
	}
	for i, x := range m.rows {
		switch flavor {
		case 3:
			x = x >> 8
		case 4:
			x = bits.RotateLeft64((x^(1<<off-1))&^(255<<off), -(off + 8))
		}
		n := len(ps)
		for ; x != 0; x &= x - 1 {
			c := bits.TrailingZeros64(x)
			if flavor == 4 {
				c = perm[c]
			}
			ps = append(ps, pair{i, c})
		}
		slices.SortFunc(ps[n:], func(a, b pair) int { return a.c - b.c })
	}
	if len(ps) > 0 {
		base := cpcBaseBits(k, len(ps))
		bw := &bitWriter{}
		row, col := 0, 0
		for _, p := range ps {
			y := p.r - row
			if y > 0 {
				col = 0
			}
			u := cpcCodes()[22]
			bw.put(uint64(u.code[p.c-col]), u.n[p.c-col])
			for i := 0; i < y>>base; i++ {
				bw.put(0, 1)
			}
			bw.put(1, 1)
			bw.put(uint64(y), base)
			row, col = p.r, p.c+1
		}
		v = bw.end(max(0, 10-base))
		hdr[5] |= 8
	}
	out := p16(hdr, m.seedHash)
	doubles := func() {
		if m.hip {
			out = binary.LittleEndian.AppendUint64(out, math.Float64bits(m.kxp))
			out = binary.LittleEndian.AppendUint64(out, math.Float64bits(m.accum))
		}
	}
	if m.c > 0 {
		out = p32(out, m.c)
		both := len(w) > 0 && len(v) > 0
		if both {
			out = p32(out, len(ps))
			doubles()
		}
		if len(v) > 0 {
			out = p32(out, len(v)/4)
		}
		if len(w) > 0 {
			out = p32(out, len(w)/4)
		}
		if !both {
			doubles()
		}
	}
	out[0] = byte(len(out) / 4)
	return append(append(out, w...), v...)
}

// cpcLayoutScenario snapshots one growing sketch at nearly every coupon count.
func cpcLayoutScenario(s *Sim) {
	f := newCPCFam(s).(*cpcFam)
	f.lgK = 4 + s.Choose(7)
	k := 1 << f.lgK
	sk, err := cpc.NewCpcSketch(f.lgK, f.seed)
	s.Must(err, "cpc-new")
	m := newCPCModel(f.lgK)
	typ := []valType{vU64, vU64, vF64, vStr, vBytes, vCraft}[s.Choose(6)]
	if f.lgK < 6 && typ == vCraft {
		typ = vU64
	}
	// from somewhere on, every coupon
	start := 0
	switch s.Choose(3) {
	case 1:
		start = s.Choose(3 * k)
	case 2:
		start = s.Choose(12 * k)
	}
	left := 60 + s.Size(40)*s.Size(40)
	s.Logf("cpc layout lgK=%d type=%v from %d coupons on, %d images", f.lgK, typ, start, left)
	id := s.Word() >> 20
	for tries := 0; left > 0 && tries < 1<<18; tries++ {
		id++
		before := m.c
		m.add(f.coupons(&Batch{IDs: []uint64{id}, Typ: typ})[0])
		s.Must(cpcFeed(sk, typ, id, f.seed), "cpc-update")
		s.ops++
		if m.c == before || m.c < start {
			continue
		}
		left--
		b, err := sk.ToCompactSlice()
		s.Must(err, "cpc-encode")
		s.checks++
		_, _, err = transcode(s, "cpc", "", b)
		s.Assert(err == nil, "layout-cpc", "an independent reader of the published layout cannot read an image written here (lgK %d, %d coupons): %v", f.lgK, m.c, err)
		w := readCPC(b)
		s.Assert(slices.Equal(w.rows, m.rows), "layout-contents-cpc", "an independent reader of the published layout recovers other coupons than were written (lgK %d, %d coupons)", f.lgK, m.c)
		s.Assert(w.hip && relClose(w.kxp, m.kxp, 1e-6) && relClose(w.accum, m.hip, 1e-6), "layout-numbers-cpc", "image of %d coupons: kxp %v want %v, hip %v want %v", m.c, w.kxp, m.kxp, w.accum, m.hip)
		if left%4 == 0 {
			w.hip = s.Choose(2) == 0
			img := w.write()
			d, err := cpc.NewCpcSketchFromSlice(img, f.seed)
			s.Must(err, "cpc-decode")
			x := m.clone()
			x.merged = !w.hip
			checkCPCSketch(s, d, x, f.seed, "image written elsewhere")
		}
	}
	s.State(uint64(f.lgK)<<32 | uint64(m.c))
}
