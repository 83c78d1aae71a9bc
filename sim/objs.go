package main

import (
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"
)

// printer collects every public answer of an object, one line each.
type printer struct {
	b strings.Builder
}

func (p *printer) add(name string, vs ...any) {
	p.b.WriteString(name)
	for _, v := range vs {
		p.b.WriteByte(' ')
		switch x := v.(type) {
		case float64:
			if math.IsNaN(x) {
				p.b.WriteString("NaN")
			} else {
				fmt.Fprintf(&p.b, "%v", x)
			}
		case error:
			if x == nil {
				p.b.WriteString("nil")
			} else {
				p.b.WriteString("err")
			}
		case nil:
			p.b.WriteString("nil")
		case []byte:
			fmt.Fprintf(&p.b, "%x", x)
		default:
			fmt.Fprintf(&p.b, "%v", x)
		}
	}
	p.b.WriteByte('\n')
}

// Codec is one way of writing an object out and reading it back.
type Codec struct {
	Name string
	Enc  func(o *Obj) ([]byte, error)
	// Wire names the published layout of the images, and Typ the type of their
	// items, for the writer of other nodes' forms of them (transcode).
	Wire, Typ string
	// EncTo streams; Dec reads a byte slice; DecFrom reads a stream.
	EncTo   func(o *Obj, w io.Writer) error
	Dec     func(b []byte) (*Obj, error)
	DecFrom func(r io.Reader) (*Obj, error)
	// Incremental: DecFrom stops right after its image.
	Incremental bool
	// Text forms end where they are cut: a number can lose digits unnoticed.
	Text bool
	// Exact: the decoded object reacts to later operations as the saved one.
	Exact bool
	// Later, when set, prints what a restored object and its original must still
	// agree on after further operations, given the image in between.
	Later func(b []byte, o *Obj, p *printer)
	// View prints what the image preserves, when that is less than Print shows.
	View func(o *Obj, p *printer)
	// Sizes returns the size announced for the image of o and a bound on it,
	// negative when the library announces none.
	Sizes func(o *Obj) (size, bound int)
	// Canon maps an image to a form that does not depend on internal layout.
	Canon func(b []byte) string
}

// Mut is a mutation that can be applied to any object of the kind and
// configuration it was drawn for.
type Mut struct {
	Name string
	Do   func(o *Obj) error
	Srcs []*Obj // objects read by it
}

// Obj is one live object of the library with everything the generic scenarios need.
type Obj struct {
	Kind   string
	Live   any
	Print  func(o *Obj, p *printer)
	Gen    func(s *Sim) *Mut
	Fresh  func() *Obj
	Reset  func(o *Obj)
	Codecs []*Codec
	// Scribble changes the object in place through what it hands out (the
	// summaries of a tuple sketch belong to whoever holds the sketch).
	Scribble func(o *Obj)
	// Derive returns objects obtained from o that must not share state with it.
	Derive func(s *Sim, o *Obj) []*Obj
	// Bad returns operations that must be refused.
	Bad func(s *Sim) []*Mut
	// AltSeed makes a non-empty object of this family under another hash seed, or nil.
	AltSeed func(s *Sim) *Obj
	// QueriesCompact: queries may reorganise internal state in ways later answers can show.
	QueriesCompact bool
	// Limit is what the configuration entitles the object to hold.
	Limit *limit
	// ReadOnly objects have no mutations.
	ReadOnly bool
}

func (o *Obj) print() string {
	var p printer
	o.Print(o, &p)
	if s := curSim; s != nil && !s.big && s.ops%3 == 0 {
		render(s, o.Live)
	}
	return p.b.String()
}

// rendered objects stand for the library object inside them.
type rendered interface{ inside() any }

// render asks an object for its description in words: it must have one, the
// same every time (that asking changes nothing is for the callers of print to see).
func render(s *Sim, x any) {
	if r, ok := x.(rendered); ok {
		x = r.inside()
	}
	twice := func(f func() string) {
		a := f()
		s.checks++
		s.Assert(a != "" && a == f(), "description", "a %T describes itself as %q, then as %q", x, a, f())
	}
	if d, ok := x.(interface{ String() string }); ok {
		twice(d.String)
	}
	if d, ok := x.(interface{ String(bool) string }); ok {
		twice(func() string { return d.String(false) })
		twice(func() string { return d.String(true) })
	}
	if d, ok := x.(interface{ CompactorDetailString(bool) string }); ok {
		twice(func() string { return d.CompactorDetailString(false) })
		twice(func() string { return d.CompactorDetailString(true) })
	}
}

func (o *Obj) view(c *Codec) string {
	if c.View == nil {
		return o.print()
	}
	var p printer
	c.View(o, &p)
	return p.b.String()
}

func (o *Obj) later(c *Codec, b []byte) string {
	if c.Later == nil {
		return o.print()
	}
	var p printer
	c.Later(b, o, &p)
	return p.b.String()
}

func canon(c *Codec, b []byte) string {
	if c.Canon != nil {
		return c.Canon(b)
	}
	return string(b)
}

// Kind names a constructor of objects in a random configuration.
type Kind struct {
	Name string
	New  func(s *Sim) *Obj
}

var kinds []*Kind

func addKind(name string, f func(s *Sim) *Obj) {
	kinds = append(kinds, &Kind{name, func(s *Sim) *Obj {
		o := f(s)
		if o.Kind == "" {
			o.Kind = name
		}
		return o
	}})
}

// pickKind draws a kind satisfying ok.
func pickKind(s *Sim, ok func(k *Kind) bool) *Kind {
	var c []*Kind
	for _, k := range kinds {
		if ok == nil || ok(k) {
			c = append(c, k)
		}
	}
	return c[s.Choose(len(c))]
}

// diffText shows the first lines where two prints differ.
func diffText(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	var out []string
	for i := 0; i < len(x) || i < len(y); i++ {
		l, r := "<none>", "<none>"
		if i < len(x) {
			l = x[i]
		}
		if i < len(y) {
			r = y[i]
		}
		if l != r {
			if len(l) > 300 {
				l = l[:300]
			}
			if len(r) > 300 {
				r = r[:300]
			}
			out = append(out, fmt.Sprintf("before: %s\nafter:  %s", l, r))
			if len(out) >= 3 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

func (s *Sim) same(a, b, class, f string, args ...any) {
	s.checks++
	if a != b {
		panic(violation{class, fmt.Sprintf(f, args...) + "\n" + diffText(a, b)})
	}
}

// apply performs a mutation under its own library random seed, so that twins see
// the same random choices.
func apply(s *Sim, o *Obj, m *Mut, seed uint64) error {
	seedLib(seed, 0)
	s.ops++
	s.mix(hashString(m.Name))
	return m.Do(o)
}

// history draws a number of operations; deployed sizes get fewer, larger ones.
func (s *Sim) history(max int) int {
	if s.big {
		return 1 + s.Choose(min(max, 4))
	}
	return s.Size(max)
}

// grow applies a random history.
func grow(s *Sim, o *Obj, max int) {
	if o.Gen == nil {
		return
	}
	n := s.history(max)
	for i := 0; i < n; i++ {
		m := o.Gen(s)
		s.Logf("%s: %s", o.Kind, m.Name)
		s.Must(apply(s, o, m, s.Word()), "op-error:"+o.Kind)
	}
}

// growTwins applies one history to several objects in lockstep.
func growTwins(s *Sim, max int, objs ...*Obj) {
	if objs[0].Gen == nil {
		return
	}
	n := s.history(max)
	for i := 0; i < n; i++ {
		step1(s, "", objs...)
	}
}

func step1(s *Sim, note string, objs ...*Obj) {
	m := objs[0].Gen(s)
	seed := s.Word()
	s.Logf("%s: %s%s", objs[0].Kind, m.Name, note)
	for i, o := range objs {
		err := apply(s, o, m, seed)
		if err != nil {
			s.Fail("op-error:"+o.Kind, "%s on twin %d: %v", m.Name, i, err)
		}
	}
}

// ---- X01: snapshot, crash, restore, carry on ----

func restartScenario(k *Kind) func(*Sim) {
	return func(s *Sim) {
		o := k.New(s)
		s.Step("new " + o.Kind)
		grow(s, o, 24)
		rounds := 1 + s.Choose(4)
		if s.big {
			rounds = 1 + rounds/4
		}
		for r := 0; r < rounds; r++ {
			if len(o.Codecs) == 0 {
				s.Fail("harness", "kind %s has no codec", o.Kind)
			}
			c := o.Codecs[s.Choose(len(o.Codecs))]
			before := o.print()
			b, err := c.Enc(o)
			s.Must(err, "encode-error:"+c.Name)
			s.same(before, o.print(), "encode-changes-object:"+c.Name, "serializing a %s changed its answers", o.Kind)
			if c.Sizes != nil {
				size, bound := c.Sizes(o)
				s.Assert(size < 0 || size == len(b), "announced-size:"+c.Name, "the image of a %s has %d bytes, announced were %d", o.Kind, len(b), size)
				s.Assert(bound < 0 || len(b) <= bound, "announced-bound:"+c.Name, "the image of a %s has %d bytes, announced were at most %d", o.Kind, len(b), bound)
			}
			if c.EncTo != nil && s.Choose(2) == 1 {
				var bw bufWriter
				s.Must(c.EncTo(o, &bw), "encode-error:"+c.Name)
				s.same(string(b), string(bw.b), "stream-bytes:"+c.Name, "streamed bytes differ from in-memory bytes")
			}
			var rr *Obj
			if c.DecFrom != nil && s.Choose(2) == 1 {
				rr, err = c.DecFrom(chunked(s, append([]byte(nil), b...)))
			} else {
				// the restoring process gets its own buffer, which is scribbled over afterwards
				buf := append([]byte(nil), b...)
				rr, err = c.Dec(buf)
				if err == nil && !borrows(c) {
					for i := range buf {
						buf[i] = 0xa5
					}
				}
			}
			s.Must(err, "decode-error:"+c.Name)
			s.Fault("crash-restart")
			s.Step("restart")
			s.Logf("restored from %s (%d bytes)", c.Name, len(b))
			s.same(o.view(c), rr.view(c), "restore-differs:"+c.Name, "a %s restored from a %s image answers differently", o.Kind, c.Name)
			if enc2 := findCodec(rr, c.Name); enc2 != nil {
				b2, err := enc2.Enc(rr)
				s.Must(err, "reencode-error:"+c.Name)
				if canon(c, b) != canon(c, b2) {
					s.Fail("reencode-differs:"+c.Name, "image of the restored %s differs: %d bytes, was %d; first difference at %d", o.Kind, len(b2), len(b), firstDiff(b, b2))
				}
				s.checks++
			}
			s.State(hashString(c.Name), uint64(len(b)))
			if !c.Exact || o.Gen == nil {
				continue
			}
			n := s.Size(12)
			if s.big {
				n = min(n, 2)
			}
			for i := 0; i < n; i++ {
				step1(s, " (original and restored)", o, rr)
				if s.Choose(3) == 0 {
					s.same(o.later(c, b), rr.later(c, b), "restored-diverges:"+c.Name, "after %d more operations the restored %s answers differently", i+1, o.Kind)
				}
			}
			s.same(o.later(c, b), rr.later(c, b), "restored-diverges:"+c.Name, "after %d more operations the restored %s answers differently", n, o.Kind)
			if s.Choose(2) == 1 {
				o = rr
			}
		}
	}
}

func borrows(c *Codec) bool { return strings.HasSuffix(c.Name, "-wrap") }

func findCodec(o *Obj, name string) *Codec {
	for _, c := range o.Codecs {
		if c.Name == name {
			return c
		}
	}
	return nil
}

func firstDiff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}

type bufWriter struct{ b []byte }

func (w *bufWriter) Write(p []byte) (int, error) { w.b = append(w.b, p...); return len(p), nil }

// ---- X02: torn and corrupt images ----

const allocSlack = 256 << 20

func decodeGuard(s *Sim, c *Codec, b []byte, stream bool, what string) (o *Obj, err error) {
	var before uint64
	if s.measureAlloc {
		before = allocNow()
	}
	v := try(func() {
		if stream {
			o, err = c.DecFrom(&chunkReader{b, 1 + len(b)})
		} else {
			o, err = c.Dec(b)
		}
	})
	if v != nil {
		v.Class += ":" + c.Name
		v.Detail = fmt.Sprintf("decoding %s of a %s image (%d bytes) panicked: %s", what, c.Name, len(b), v.Detail)
		panic(*v)
	}
	if s.measureAlloc {
		if d := allocNow() - before; d > allocSlack+64*uint64(len(b)) {
			s.Fail("decode-allocates:"+c.Name, "decoding %s of a %s image (%d bytes) allocated %d bytes", what, c.Name, len(b), d)
		}
	}
	s.checks++
	return
}

func tornScenario(k *Kind) func(*Sim) {
	return func(s *Sim) {
		s.measureAlloc = true
		o := k.New(s)
		grow(s, o, 16)
		c := o.Codecs[s.Choose(len(o.Codecs))]
		b, err := c.Enc(o)
		s.Must(err, "encode-error:"+c.Name)
		s.State(hashString(c.Name), uint64(len(b)))
		streams := []bool{false}
		if c.DecFrom != nil {
			streams = append(streams, true)
		}
		stream := streams[s.Choose(len(streams))]
		if s.Choose(2) == 0 && !c.Text {
			// torn write: the image stops somewhere
			n := 1
			var cuts []int
			if len(b) <= 400 && s.Choose(3) == 0 {
				for i := 0; i < len(b); i++ {
					cuts = append(cuts, i)
				}
			} else {
				n = 1 + s.Choose(24)
				for i := 0; i < n && len(b) > 0; i++ {
					switch s.Choose(3) {
					case 0:
						cuts = append(cuts, s.Choose(len(b)))
					case 1:
						cuts = append(cuts, s.Choose(min(len(b), 64)))
					case 2:
						cuts = append(cuts, len(b)-1-s.Choose(min(len(b), 32)))
					}
				}
			}
			for _, cut := range cuts {
				s.Fault("torn-image")
				s.ops++
				s.mix(uint64(cut))
				s.Logf("torn at %d of %d (%s stream=%v)", cut, len(b), c.Name, stream)
				buf := append(make([]byte, 0, cut), b[:cut]...)
				_, err := decodeGuard(s, c, buf, stream, fmt.Sprintf("the first %d of %d bytes", cut, len(b)))
				if err == nil {
					s.Fail("torn-image-accepted:"+c.Name, "the first %d of %d bytes of a %s image decoded without error", cut, len(b), c.Name)
				}
			}
			return
		}
		b = foreignForm(s, c, b)
		n := 1 + s.Choose(24)
		for i := 0; i < n; i++ {
			x, what := corrupt(s, b)
			s.ops++
			s.Logf("%s (%s stream=%v)", what, c.Name, stream)
			d, err := decodeGuard(s, c, x, stream, "an image with "+what)
			if err != nil {
				s.Probe("corrupt image rejected")
			} else {
				s.Probe("corrupt image accepted")
				if c.Wire == "bloom" { // other images may lie without anybody noticing: they carry no redundancy or checksum
					wellFormed(s, c, d, what)
				}
			}
		}
	}
}

// foreignForm is the image as another implementation or version might write it.
func foreignForm(s *Sim, c *Codec, b []byte) []byte {
	if c.Wire == "" || s.Bool(1, 2) {
		return b
	}
	x, form, err := transcode(s, c.Wire, c.Typ, b)
	s.Assert(err == nil, "layout-"+c.Wire, "an independent reader of the published layout cannot read an image written here: %v", err)
	s.Fault("gateway: " + form)
	s.Logf("as %s, %d bytes", form, len(x))
	return x
}

// corrupt damages an image the way storage does.
func corrupt(s *Sim, b []byte) ([]byte, string) {
	x := append([]byte(nil), b...)
	hdr := func() int {
		if len(x) == 0 {
			return 0
		}
		if s.Choose(3) > 0 {
			return s.Choose(min(len(x), 40))
		}
		return s.Choose(len(x))
	}
	switch s.Pick(6, 4, 4, 2, 2, 1, 2) {
	case 0:
		if len(x) > 0 {
			p, bit := hdr(), s.Choose(8)
			x[p] ^= 1 << bit
			s.Fault("bit-flip")
			return x, fmt.Sprintf("bit %d of byte %d flipped", bit, p)
		}
	case 1:
		if len(x) > 0 {
			p := hdr()
			v := byte(s.Choose(256))
			if s.Choose(2) == 0 {
				v = []byte{0, 0xff, 0x7f, 0x80, 1}[s.Choose(5)]
			}
			x[p] = v
			s.Fault("byte-overwrite")
			return x, fmt.Sprintf("byte %d set to %#x", p, v)
		}
	case 2: // a 4 or 8 byte field of the header becomes extreme
		w := 4 << s.Choose(2)
		if len(x) >= w {
			p := s.Choose(min(len(x), 48)/w+1) * w
			if p+w > len(x) {
				p = len(x) - w
			}
			mode := s.Choose(8)
			special := []uint64{math.Float64bits(math.NaN()), math.Float64bits(math.Inf(1)), math.Float64bits(math.Inf(-1)), math.Float64bits(-1), math.Float64bits(0.5), math.Float64bits(1e300)}[s.Choose(6)]
			if w == 4 {
				special = uint64(math.Float32bits(float32(math.Float64frombits(special))))
			}
			for i := 0; i < w; i++ {
				switch mode {
				case 5: // a number no field should hold
					x[p+i] = byte(special >> (8 * i))
				case 6: // the same, most significant byte first
					x[p+w-1-i] = byte(special >> (8 * i))
				case 7: // a small count
					x[p+i] = 0
					if i == 0 {
						x[p+i] = byte(special>>(8*w-8)) & 31
					}
				case 0:
					x[p+i] = 0xff
				case 1:
					x[p+i] = 0
				case 2:
					x[p+i] = 0xff
					if i == w-1 {
						x[p+i] = 0x7f
					}
				case 3:
					x[p+i] = 0
					if i == w-1 {
						x[p+i] = 0x80
					}
				case 4:
					x[p+i] = byte(s.Choose(256))
				}
			}
			s.Fault("field-overwrite")
			return x, fmt.Sprintf("bytes %d..%d overwritten (mode %d)", p, p+w-1, mode)
		}
	case 3: // lost block
		if len(x) > 0 {
			p := s.Choose(len(x))
			n := 1 + s.Size(min(512, len(x)-1))
			for i := p; i < p+n && i < len(x); i++ {
				x[i] = 0
			}
			s.Fault("lost-block")
			return x, fmt.Sprintf("%d bytes from %d lost", n, p)
		}
	case 4: // tail of another image
		if len(x) > 1 {
			p := s.Choose(len(x))
			for i := p; i < len(x); i++ {
				x[i] = byte(s.Choose(256))
				if i > p+64 {
					break
				}
			}
			s.Fault("garbage-tail")
			return x, fmt.Sprintf("garbage from byte %d", p)
		}
	case 5: // nothing but garbage
		n := s.Size(200)
		x = make([]byte, n)
		for i := range x {
			x[i] = byte(s.Choose(256))
		}
		s.Fault("garbage-image")
		return x, fmt.Sprintf("%d bytes of garbage", n)
	case 6: // header survives, body does not
		n := min(len(x), 1+s.Choose(32))
		x = x[:n]
		if n > 0 {
			x[s.Choose(n)] ^= 1 << s.Choose(8)
		}
		s.Fault("torn-and-flipped")
		return x, fmt.Sprintf("only its first %d bytes and one flipped bit", n)
	}
	return x, "no damage"
}

// ---- X03: slow and failing streams ----

type faultyWriter struct {
	b      []byte
	failAt int // the write that crosses this offset fails after accepting part of it
	hit    bool
}

var errInjected = fmt.Errorf("injected I/O fault")

func (w *faultyWriter) Write(p []byte) (int, error) {
	if w.hit {
		return 0, errInjected
	}
	if w.failAt >= 0 && len(w.b)+len(p) > w.failAt {
		n := w.failAt - len(w.b)
		w.b = append(w.b, p[:n]...)
		w.hit = true
		return n, errInjected
	}
	w.b = append(w.b, p...)
	return len(p), nil
}

// faultyReader fragments its input, and fails or ends at a chosen byte.
type faultyReader struct {
	s      *Sim
	b      []byte
	pos    int
	failAt int // -1: only EOF at the end
	err    error
	max    int
	withN  bool // returns the error together with the last bytes
	zeros  bool
	hit    bool
	zn     int
}

func (r *faultyReader) Read(p []byte) (int, error) {
	end := len(r.b)
	e := io.EOF
	if r.failAt >= 0 && r.failAt <= end {
		end = r.failAt
		e = r.err
	}
	if r.pos >= end {
		r.hit = true
		return 0, e
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.zeros {
		r.zn++
		if r.zn%3 == 1 {
			return 0, nil
		}
	}
	n := min(len(p), r.max, end-r.pos)
	copy(p, r.b[r.pos:r.pos+n])
	r.pos += n
	if r.withN && r.pos == end {
		r.hit = true
		return n, e
	}
	return n, nil
}

func streamScenario(k *Kind) func(*Sim) {
	return func(s *Sim) {
		o := k.New(s)
		grow(s, o, 12)
		var cs []*Codec
		for _, c := range o.Codecs {
			if c.EncTo != nil || c.DecFrom != nil {
				cs = append(cs, c)
			}
		}
		if len(cs) == 0 {
			panic(abortRun{"no stream codec"})
		}
		c := cs[s.Choose(len(cs))]
		b, err := c.Enc(o)
		s.Must(err, "encode-error:"+c.Name)
		want := o.view(c)
		s.State(hashString(c.Name), uint64(len(b)))
		positions := func() []int {
			var out []int
			if len(b) <= 300 && s.Choose(4) == 0 {
				for i := 0; i < len(b); i++ {
					out = append(out, i)
				}
				return out
			}
			n := 1 + s.Choose(16)
			for i := 0; i < n && len(b) > 0; i++ {
				if s.Choose(2) == 0 {
					out = append(out, s.Choose(len(b)))
				} else if s.Choose(2) == 0 {
					out = append(out, s.Choose(min(len(b), 48)))
				} else {
					out = append(out, len(b)-1-s.Choose(min(len(b), 48)))
				}
			}
			return out
		}
		if c.EncTo != nil {
			w := &faultyWriter{failAt: -1}
			s.Must(c.EncTo(o, w), "encode-error:"+c.Name)
			s.same(string(b), string(w.b), "stream-bytes:"+c.Name, "streamed bytes differ from in-memory bytes")
			if s.Choose(2) == 0 {
				for _, at := range positions() {
					w := &faultyWriter{failAt: at}
					err := c.EncTo(o, w)
					s.Fault("write-error")
					s.ops++
					s.Logf("%s: writer fails at byte %d of %d", c.Name, at, len(b))
					s.Assert(err != nil, "write-error-lost:"+c.Name, "the writer failed at byte %d of %d and the encoder reported success", at, len(b))
					s.Assert(strings.HasPrefix(string(b), string(w.b)), "write-prefix:"+c.Name, "bytes written before the fault are not a prefix of the image")
				}
				s.same(want, o.view(c), "encode-changes-object:"+c.Name, "failed writes changed the object")
			}
		}
		if c.DecFrom == nil {
			return
		}
		mkReader := func(buf []byte) *faultyReader {
			return &faultyReader{s: s, b: buf, failAt: -1, max: 1 + s.Size(1<<s.Choose(9)), withN: s.Choose(2) == 1, zeros: s.Choose(4) == 3}
		}
		// fragmented
		r := mkReader(append([]byte(nil), b...))
		s.Fault("fragmented-read")
		s.ops++
		d, err := c.DecFrom(r)
		s.Must(err, "fragmented-decode-error:"+c.Name)
		s.same(want, d.view(c), "fragmented-decode-differs:"+c.Name, "decoded from fragments of at most %d bytes", r.max)
		// one image after another in the same stream
		if c.Incremental {
			o2 := o
			if o.Gen != nil {
				m := o.Gen(s)
				s.Must(apply(s, o, m, s.Word()), "op-error:"+o.Kind)
			}
			b2, err := c.Enc(o2)
			s.Must(err, "encode-error:"+c.Name)
			r := mkReader(append(append(append([]byte(nil), b...), b2...), 0xEE, 0xEE, 0xEE))
			r.withN = false
			s.Fault("back-to-back-images")
			d1, err := c.DecFrom(r)
			s.Must(err, "back-to-back-error:"+c.Name)
			s.Assert(r.pos == len(b), "over-read:"+c.Name, "decoder consumed %d bytes of an image of %d", r.pos, len(b))
			d2, err := c.DecFrom(r)
			s.Must(err, "back-to-back-error:"+c.Name)
			s.Assert(r.pos == len(b)+len(b2), "over-read:"+c.Name, "decoder consumed %d bytes of an image of %d", r.pos-len(b), len(b2))
			s.same(want, d1.view(c), "back-to-back-differs:"+c.Name, "first of two images")
			s.same(o2.view(c), d2.view(c), "back-to-back-differs:"+c.Name, "second of two images")
		}
		// a damaged image is judged alike in memory and from a stream
		f := b
		if c.Dec != nil {
			f = foreignForm(s, c, b)
		}
		for n := s.Choose(6); n > 0 && c.Dec != nil && !c.Text; n-- {
			x, what := corrupt(s, f)
			s.ops++
			s.Logf("%s (%s, both decoders)", what, c.Name)
			if _, err := decodeGuard(s, c, append([]byte(nil), x...), false, "an image with "+what); true {
				_, err2 := decodeGuard(s, c, append([]byte(nil), x...), true, "an image with "+what)
				s.Assert((err == nil) == (err2 == nil), "decoders-disagree:"+c.Name, "of an image with %s, the in-memory decoder says %v and the stream decoder %v", what, err, err2)
			}
		}
		b = append([]byte(nil), b...)
		for _, at := range positions() {
			r := mkReader(b)
			r.failAt = at
			r.err = errInjected
			if s.Choose(2) == 1 {
				r.err = io.EOF
				s.Fault("early-eof")
			} else {
				s.Fault("read-error")
			}
			s.ops++
			s.Logf("%s: reader ends at byte %d of %d with %v", c.Name, at, len(b), r.err)
			var err error
			if v := try(func() { _, err = c.DecFrom(r) }); v != nil {
				v.Class += ":" + c.Name
				panic(*v)
			}
			s.Assert(err != nil, "read-error-lost:"+c.Name, "the reader ended at byte %d of %d (%v) and the decoder reported success", at, len(b), r.err)
		}
	}
}

// ---- X04: no interference ----

func isolationScenario(k *Kind) func(*Sim) {
	return func(s *Sim) {
		o := k.New(s)
		var twin *Obj
		if !o.QueriesCompact {
			twin = o.Fresh()
		}
		type held struct {
			o    *Obj
			text string
			what string
		}
		var hs []held
		steps := 2 + s.Size(20)
		check := func(after string) {
			for _, h := range hs {
				s.same(h.text, h.o.print(), "interference:"+o.Kind, "%s answers differently after %s", h.what, after)
			}
		}
		for i := 0; i < steps; i++ {
			switch s.Pick(6, 3, 2, 1, 2) {
			case 4:
				bufferIsolation(s, o)
				check("decoding a snapshot")
			case 0:
				if o.Gen == nil {
					continue
				}
				m := o.Gen(s)
				seed := s.Word()
				s.Logf("%s: %s", o.Kind, m.Name)
				for j, src := range m.Srcs {
					hs = append(hs, held{src, src.print(), fmt.Sprintf("input %d (%s) of %s", j, src.Kind, m.Name)})
				}
				s.Must(apply(s, o, m, seed), "op-error:"+o.Kind)
				if twin != nil {
					s.Must(apply(s, twin, m, seed), "op-error:"+o.Kind)
				}
				check(m.Name)
				// the other direction: the input goes on, the target must not notice
				if len(m.Srcs) > 0 && s.Choose(2) == 0 {
					src := m.Srcs[s.Choose(len(m.Srcs))]
					if src.Gen != nil || src.Reset != nil || src.Scribble != nil {
						before := o.print()
						kept := hs[:0]
						for _, h := range hs {
							if h.o != src {
								kept = append(kept, h)
							}
						}
						hs = kept
						what := mutateAny(s, src)
						s.same(before, o.print(), "interference:"+o.Kind, "a %s changed when an input merged earlier was later changed (%s)", o.Kind, what)
					}
				}
			case 1:
				if o.Derive == nil {
					continue
				}
				ds := o.Derive(s, o)
				first := len(hs)
				for j, d := range ds {
					s.Logf("derive %s", d.Kind)
					hs = append(hs, held{d, d.print(), fmt.Sprintf("derived object %d (%s)", j, d.Kind)})
				}
				for j, d := range ds {
					if s.Choose(3) == 0 && (d.Gen != nil || d.Reset != nil || d.Scribble != nil) {
						before := o.print()
						what := mutateAny(s, d)
						s.same(before, o.print(), "interference:"+o.Kind, "a %s changed when %s derived from it was changed (%s)", o.Kind, d.Kind, what)
						hs[first+j].text = d.print()
						check("changing derived object " + strconv.Itoa(j))
					}
				}
				check("deriving")
			case 2:
				a := o.print()
				s.same(a, o.print(), "query-changes-answers:"+o.Kind, "asking twice")
				for _, c := range o.Codecs {
					if _, err := c.Enc(o); err != nil {
						s.Fail("encode-error:"+c.Name, "%v", err)
					}
				}
				s.same(a, o.print(), "encode-changes-object:"+o.Kind, "serializing")
				check("queries and snapshots")
			case 3:
				if o.Reset == nil || !s.Bool(1, 2) {
					continue
				}
				s.Logf("reset")
				o.Reset(o)
				if twin != nil {
					twin.Reset(twin)
				}
				check("reset")
			}
			if len(hs) > 12 {
				hs = hs[len(hs)-12:]
			}
		}
		if twin != nil {
			s.same(twin.print(), o.print(), "queries-change-later-answers:"+o.Kind, "an object that was queried, snapshotted and derived from differs from its twin that was not")
		}
		s.State(hashString(o.Kind), uint64(steps))
	}
}

// bufferIsolation: an object restored from a caller's buffer neither follows
// later changes of the buffer nor writes to it.
func bufferIsolation(s *Sim, o *Obj) {
	if len(o.Codecs) == 0 {
		return
	}
	c := o.Codecs[s.Choose(len(o.Codecs))]
	b, err := c.Enc(o)
	s.Must(err, "encode-error:"+c.Name)
	buf := append([]byte(nil), b...)
	d, err := c.Dec(buf)
	s.Must(err, "decode-error:"+c.Name)
	s.Logf("decode %s from a shared buffer", c.Name)
	text := d.view(c)
	s.Assert(string(buf) == string(b), "decode-writes-buffer:"+c.Name, "decoding changed the caller's buffer")
	if d.Gen != nil && s.Choose(2) == 0 {
		mutateAny(s, d)
		s.Assert(string(buf) == string(b), "decode-keeps-buffer:"+c.Name, "updating a decoded %s wrote to the buffer it was decoded from", d.Kind)
		return
	}
	if borrows(c) {
		return
	}
	for i := range buf {
		buf[i] ^= 0x5a
	}
	s.Fault("buffer-reuse")
	s.same(text, d.view(c), "decode-keeps-buffer:"+c.Name, "a decoded %s changed when the buffer it came from was reused", d.Kind)
}

type foreignImage struct {
	fam, kind string
	b         []byte
}

var foreignCache []foreignImage

// foreignImages returns one image of every serializable kind.
func foreignImages() []foreignImage {
	if foreignCache != nil {
		return foreignCache
	}
	l, cs := *lib, curSim
	defer func() { *lib = l; curSim = cs }()
	for _, k := range kinds {
		s := newSim("", "", "quick", 0, 7)
		o := k.New(s)
		if len(o.Codecs) == 0 {
			continue
		}
		for i := 0; i < 3 && o.Gen != nil; i++ {
			seedLib(uint64(i), 0)
			_ = o.Gen(s).Do(o)
		}
		b, err := o.Codecs[0].Enc(o)
		if err != nil {
			continue
		}
		fam := k.Name
		if i := strings.IndexByte(fam, '-'); i > 0 {
			fam = fam[:i]
		}
		if fam == "aon" {
			fam = "tuple"
		}
		foreignCache = append(foreignCache, foreignImage{fam, k.Name, b})
	}
	return foreignCache
}

func mutateAny(s *Sim, o *Obj) string {
	s.Step("mutate other")
	if o.Scribble != nil && (o.Gen == nil || s.Choose(3) == 0) {
		o.Scribble(o)
		s.Logf("then the contents handed out by its source or result %s are overwritten", o.Kind)
		return "overwritten contents"
	}
	if o.Reset != nil && (o.Gen == nil || s.Choose(4) == 0) {
		o.Reset(o)
		return "reset"
	}
	n := 1 + s.Choose(3)
	what := ""
	for i := 0; i < n; i++ {
		m := o.Gen(s)
		what = m.Name
		s.Must(apply(s, o, m, s.Word()), "op-error:"+o.Kind)
	}
	s.Logf("then its source or result %s: %s", o.Kind, what)
	return what
}

// interleaveScenario: tasks on separate objects, switched inside callbacks and
// I/O, must each end up exactly where they would alone.
func interleaveScenario(pick func(s *Sim) *Kind) func(*Sim) {
	return interleaveTasks(pick, false)
}

func interleaveTasks(pick func(s *Sim) *Kind, preempt bool) func(*Sim) {
	return func(s *Sim) {
		n := 2 + s.Choose(2)
		// code shared by two tasks matters most when they do the same things
		var one *Kind
		if s.Choose(4) != 0 {
			one = pick(s)
		}
		type script struct {
			o, solo *Obj
			ms      []*Mut // nil: another operation, told by its seed
			seeds   []uint64
			codec   []int
			out     []string
		}
		var scs []*script
		for i := 0; i < n; i++ {
			k := one
			if k == nil {
				k = pick(s)
			}
			o := k.New(s)
			sc := &script{o: o, solo: o.Fresh()}
			m := 1 + s.Choose(6)
			for j := 0; j < m; j++ {
				if o.Gen != nil && s.Choose(4) != 3 {
					sc.ms = append(sc.ms, o.Gen(s))
				} else {
					sc.ms = append(sc.ms, nil)
				}
				sc.seeds = append(sc.seeds, s.Word())
				c := -1
				if len(o.Codecs) > 0 && s.Choose(2) == 1 {
					c = s.Choose(len(o.Codecs))
				}
				sc.codec = append(sc.codec, c)
			}
			if i > 0 && one != nil && s.Choose(2) == 1 {
				// the same operations as the first task
				sc.o, sc.solo = scs[0].o.Fresh(), scs[0].o.Fresh()
				sc.seeds, sc.codec = scs[0].seeds, scs[0].codec
				sc.ms = nil
				for _, m := range scs[0].ms {
					if m != nil && len(m.Srcs) > 0 {
						m = nil // operands are not shared
					}
					sc.ms = append(sc.ms, m)
				}
			}
			scs = append(scs, sc)
		}
		run := func(o *Obj, sc *script, yield func()) []string {
			var out []string
			for i, m := range sc.ms {
				yield()
				seedLib(sc.seeds[i], 0)
				s.ops++
				switch {
				case m != nil:
					if err := m.Do(o); err != nil {
						s.Fail("op-error:"+o.Kind, "%s: %v", m.Name, err)
					}
				case o.Reset != nil && sc.seeds[i]%5 == 0:
					o.Reset(o)
				case o.Derive != nil:
					s.setScript(&prng{sc.seeds[i]})
					ds := o.Derive(s, o)
					s.setScript(nil)
					for _, d := range ds {
						yield()
						out = append(out, d.print())
					}
				}
				yield()
				if c := sc.codec[i]; c >= 0 {
					cd := o.Codecs[c]
					b, err := cd.Enc(o)
					if err != nil {
						s.Fail("encode-error:"+cd.Name, "%v", err)
					}
					if cd.EncTo != nil {
						yw := &yieldWriter{s: s}
						if err := cd.EncTo(o, yw); err != nil {
							s.Fail("encode-error:"+cd.Name, "%v", err)
						}
						if string(yw.b) != string(b) {
							s.Fail("interleaved-bytes:"+cd.Name, "streamed bytes differ from in-memory bytes")
						}
					}
					out = append(out, canon(cd, b))
					var d *Obj
					if cd.DecFrom != nil {
						d, err = cd.DecFrom(&yieldReader{s: s, b: b})
					} else {
						d, err = cd.Dec(b)
					}
					if err != nil {
						s.Fail("decode-error:"+cd.Name, "%v", err)
					}
					out = append(out, d.view(cd))
				}
				out = append(out, o.print())
			}
			return out
		}
		want := make([][]string, n)
		visits := make([]*siteVisits, n)
		for i, sc := range scs {
			s.visits = &siteVisits{}
			want[i] = run(sc.solo, sc, func() {})
			visits[i], s.visits = s.visits, nil
		}
		// in half of the preempting runs only the cuts switch tasks, so that the
		// others get all the way through while one is suspended
		between := func(t *Task) func() { return t.Yield }
		if preempt && s.Choose(2) == 0 {
			between = func(*Task) func() { return func() {} }
		}
		for i, sc := range scs {
			sc := sc
			t := s.Go(fmt.Sprintf("task%d:%s", i, sc.o.Kind), func(t *Task) {
				sc.out = run(sc.o, sc, between(t))
			})
			t.every = []int{1, 2, 5, 17, 101}[s.Choose(5)]
			if preempt {
				if s.Choose(2) == 0 {
					t.every = 0
				}
				for j := s.Choose(7); j > 0 && len(visits[i].seen) > 0; j-- {
					t.cuts = append(t.cuts, s.drawCut(visits[i]))
				}
			}
		}
		s.RunTasks()
		if s.preempts > 0 {
			s.faults["preemption"] += s.preempts
		}
		for i, sc := range scs {
			s.Assert(len(sc.out) == len(want[i]), "interleaving-changes-results:"+sc.o.Kind, "task %d produced %d results, alone %d", i, len(sc.out), len(want[i]))
			for j := range sc.out {
				s.same(want[i][j], sc.out[j], "interleaving-changes-results:"+sc.o.Kind, "task %d (%s) result %d differs from running alone", i, sc.o.Kind, j)
			}
		}
		s.State(hashString("interleave"), s.sig)
	}
}

type yieldWriter struct {
	s *Sim
	b []byte
}

func (w *yieldWriter) Write(p []byte) (int, error) {
	h := len(p) / 2
	w.b = append(w.b, p[:h]...)
	w.s.YieldPoint()
	w.b = append(w.b, p[h:]...)
	return len(p), nil
}

type yieldReader struct {
	s *Sim
	b []byte
}

func (r *yieldReader) Read(p []byte) (int, error) {
	r.s.YieldPoint()
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), 1+len(p)/2)], r.b)
	r.b = r.b[n:]
	return n, nil
}

// ---- X05: reset ----

func resetScenario(k *Kind) func(*Sim) {
	return func(s *Sim) {
		o := k.New(s)
		if o.Reset == nil {
			panic(abortRun{"no reset"})
		}
		rounds := 1 + s.Choose(3)
		for r := 0; r < rounds; r++ {
			grow(s, o, 20)
			if r == 0 && s.Choose(2) == 1 && len(o.Codecs) > 0 {
				// the object was itself restored from a snapshot
				c := o.Codecs[s.Choose(len(o.Codecs))]
				if c.Exact {
					b, err := c.Enc(o)
					s.Must(err, "encode-error:"+c.Name)
					d, err := c.Dec(b)
					s.Must(err, "decode-error:"+c.Name)
					if d.Gen != nil && d.Reset != nil {
						o = d
						s.Probe("reset of a restored object")
					}
				}
			}
			type held struct {
				o    *Obj
				text string
			}
			var hs []held
			if o.Derive != nil && s.Choose(2) == 1 {
				for _, d := range o.Derive(s, o) {
					hs = append(hs, held{d, d.print()})
				}
			}
			s.Step("reset")
			s.Logf("reset")
			o.Reset(o)
			s.ops++
			f := o.Fresh()
			s.same(f.print(), o.print(), "reset-differs:"+o.Kind, "right after reset a %s does not answer as a new one", o.Kind)
			s.sameImages(f, o, "reset-image-differs")
			n := s.history(16)
			for i := 0; i < n; i++ {
				step1(s, " (reset and new)", f, o)
				if s.Choose(3) == 0 {
					s.same(f.print(), o.print(), "reset-diverges:"+o.Kind, "%d operations after reset a %s does not answer as a new one", i+1, o.Kind)
				}
			}
			s.same(f.print(), o.print(), "reset-diverges:"+o.Kind, "%d operations after reset a %s does not answer as a new one", n, o.Kind)
			s.sameImages(f, o, "reset-image-diverges")
			for _, h := range hs {
				s.same(h.text, h.o.print(), "reset-reaches-derived:"+o.Kind, "%s derived before the reset changed", h.o.Kind)
			}
			s.State(hashString(o.Kind), uint64(n), uint64(r))
		}
	}
}

func (s *Sim) sameImages(f, o *Obj, class string) {
	for _, c := range f.Codecs {
		a, err := c.Enc(f)
		s.Must(err, "encode-error:"+c.Name)
		c2 := findCodec(o, c.Name)
		if c2 == nil {
			continue
		}
		b, err := c2.Enc(o)
		s.Must(err, "encode-error:"+c.Name)
		s.checks++
		if canon(c, a) != canon(c, b) {
			s.Fail(class+":"+c.Name, "%s image of the reset object (%d bytes) differs from a new one's (%d bytes) at byte %d", c.Name, len(b), len(a), firstDiff(a, b))
		}
	}
}

// ---- X06: refused operations ----

func rejectScenario(k *Kind) func(*Sim) {
	return func(s *Sim) {
		o := k.New(s)
		twin := o.Fresh()
		growTwins(s, 16, o, twin)
		n := 1 + s.Choose(4)
		for i := 0; i < n; i++ {
			bad := o.Bad(s)
			if len(bad) == 0 {
				continue
			}
			m := bad[s.Choose(len(bad))]
			s.Step("incompatible message")
			s.Logf("%s: %s (must be refused)", o.Kind, m.Name)
			s.Fault("incompatible-message")
			s.ops++
			before := o.print()
			var src []string
			for _, x := range m.Srcs {
				src = append(src, x.print())
			}
			var err error
			if v := try(func() { err = apply(s, o, m, s.Word()) }); v != nil {
				v.Class += ":" + m.Name
				v.Detail = "refusing " + m.Name + " panicked: " + v.Detail
				panic(*v)
			}
			s.Assert(err != nil, "incompatible-accepted:"+m.Name, "a %s accepted %s", o.Kind, m.Name)
			s.same(before, o.print(), "refused-changes-receiver:"+m.Name, "a refused operation changed the %s", o.Kind)
			for j, x := range m.Srcs {
				s.same(src[j], x.print(), "refused-changes-input:"+m.Name, "a refused operation changed its input")
			}
			growTwins(s, 6, o, twin)
			if !o.QueriesCompact {
				s.same(twin.print(), o.print(), "refused-changes-future:"+m.Name, "after a refused operation and later work the %s differs from its twin", o.Kind)
			}
			s.State(hashString(m.Name))
		}
	}
}

// wellFormed: what was accepted is a sketch, so what it writes is an image.
func wellFormed(s *Sim, c *Codec, d *Obj, what string) {
	var b []byte
	var err error
	if v := try(func() { b, err = c.Enc(d) }); v != nil {
		s.Fail("accepted-malformed:"+c.Name, "an image with %s was accepted, and encoding what it gave panicked: %s", what, v.Detail)
	}
	if err != nil {
		return
	}
	_, _, err = transcode(newSim("layout", "", "", 0, 1), c.Wire, c.Typ, b)
	s.Assert(err == nil, "accepted-malformed:"+c.Name, "an image with %s was accepted, and what it gave writes an image an independent reader refuses: %v", what, err)
}
