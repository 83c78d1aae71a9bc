package main

import (
	"bytes"
	"encoding/binary"
	"math/bits"
	"slices"

	"github.com/apache/datasketches-go/theta"
)

// thetaLayoutScenario drives the compressed and plain layouts of compact theta
// sketches at every entry width: a foreign node sends hashes whose differences
// need exactly the chosen number of bits, this node reads the image in all of
// its ways, writes it again in all of its ways, and an independent reader of
// the layout must find the same hashes and threshold.
func thetaLayoutScenario(s *Sim) {
	seed := uint64(9001)
	if s.Bool(1, 4) {
		seed = uint64(1 + s.Choose(1000))
	}
	w := 1 + s.Choose(63)
	n := 1 + s.Choose(40)
	if s.Bool(1, 6) {
		n = 1 + s.Choose(600)
	}
	// one difference of exactly w bits, the others as long as the sum allows
	room := maxTheta - 1
	pos := s.Choose(n)
	ds := make([]uint64, n)
	g := prng{s.Word()}
	ds[pos] = 1<<(w-1) | g.next()&(1<<(w-1)-1)
	if ds[pos] > room-uint64(n) {
		ds[pos] = room - uint64(n)
	}
	room -= ds[pos] + uint64(n) // every other difference is at least 1
	mode := s.Choose(3)
	for i := range ds {
		if i == pos {
			continue
		}
		var d uint64
		switch mode {
		case 0:
			d = g.next() & (1<<w - 1)
		case 1:
			d = 1<<(g.next()%uint64(w)) - 1
		case 2:
			d = g.next() & (1<<w - 1) >> (g.next() % uint64(w))
		}
		d = max(1, d)
		if d-1 > room {
			d = 1 + room/2
		}
		room -= d - 1
		ds[i] = d
	}
	img := &thetaImg{theta: maxTheta, ordered: true, seedHash: int(refSeedHash(seed))}
	h := uint64(0)
	for _, d := range ds {
		h += d
		img.entries = append(img.entries, h)
	}
	if s.Bool(1, 2) { // a threshold above the last hash
		img.theta = h + 1 + g.next()%(maxTheta-h)
	}
	s.State(0x77, uint64(w), uint64(min(n, 9)), uint64(bits.Len64(maxTheta-img.theta)))
	s.Logf("%d hashes whose differences take %d bits, threshold %d", n, w, img.theta)

	same := func(what string, got []uint64, th uint64, sorted bool) {
		s.checks++
		if !sorted {
			got = slices.Clone(got)
			slices.Sort(got)
		}
		s.Assert(th == img.theta && slices.Equal(got, img.entries), "layout-contents-theta", "%s: %d hashes of %d bits, threshold %d; want %d hashes of difference width %d, threshold %d", what, len(got), w, th, n, w, img.theta)
	}
	all := func(x theta.Sketch) (v []uint64) {
		for e := range x.All() {
			v = append(v, e)
		}
		s.Assert(int(x.NumRetained()) == len(v), "layout-count-theta", "NumRetained %d, iterated %d", x.NumRetained(), len(v))
		return v
	}
	wire := func(what string, b []byte) {
		var t *thetaImg
		err := func() (err error) {
			defer func() {
				if r := recover(); r != nil {
					if e, ok := r.(layoutError); ok {
						err = e
						return
					}
					panic(r)
				}
			}()
			t = readTheta(b)
			return nil
		}()
		s.Assert(err == nil, "layout-theta", "an independent reader cannot read %s: %v", what, err)
		s.Assert(t.seedHash == img.seedHash && !t.empty, "layout-header-theta", "%s: seed hash %x want %x, empty %v", what, t.seedHash, img.seedHash, t.empty)
		same(what+" read independently", t.entries, t.theta, t.ordered)
	}
	for round := 0; round < 2; round++ {
		b, form := img.write(s)
		var c *theta.CompactSketch
		var err error
		switch s.Choose(3) {
		case 0:
			c, err = theta.Decode(b, seed)
		case 1:
			d := theta.NewDecoder(seed)
			c, err = d.Decode(bytes.NewReader(b))
		case 2:
			x, e := theta.WrapCompactSketch(b, seed)
			s.Must(e, "theta-wrap")
			same("wrapped "+form, all(x), x.Theta64(), true && x.IsOrdered())
			k := 0
			for range x.All() { // a reader that stops early
				if k++; k > n/2 {
					break
				}
			}
			c, err = theta.NewCompactSketch(x, s.Bool(1, 2)), nil
		}
		s.Must(err, "theta-decode")
		s.ops++
		same("decoded "+form, all(c), c.Theta64(), c.IsOrdered())
		for _, compressed := range []bool{true, false} {
			var out bytes.Buffer
			e := theta.NewEncoder(&out, compressed)
			s.Must(e.Encode(c), "theta-encode")
			wire(form+" written again", out.Bytes())
			if compressed && n > 1 && c.IsOrdered() {
				x, err := theta.WrapCompactSketch(out.Bytes(), seed)
				s.Must(err, "theta-wrap")
				same("wrapped compressed", all(x), x.Theta64(), true)
				d, err := theta.Decode(out.Bytes(), seed)
				s.Must(err, "theta-decode")
				same("decoded compressed", all(d), d.Theta64(), true)
			}
		}
		pb, err := c.MarshalBinary()
		s.Must(err, "theta-encode")
		wire(form+" written plain", pb)
	}
}

// refSeedHash is the published fingerprint of a hash seed.
func refSeedHash(seed uint64) uint16 {
	h, _ := refMurmur(binary.LittleEndian.AppendUint64(nil, seed), 0)
	return uint16(h)
}

// anyResult asks a union or an intersection for its result in one of the forms offered.
func anyResult[R any](s *Sim, x interface{ Result(bool) (R, error) }) (R, error) {
	switch s.Choose(3) {
	case 0:
		return x.Result(true)
	case 1:
		return x.Result(false)
	}
	if o, ok := x.(interface{ OrderedResult() (R, error) }); ok {
		return o.OrderedResult()
	}
	return x.Result(true)
}
