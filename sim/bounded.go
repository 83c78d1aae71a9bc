package main

import (
	"fmt"
	"math"
	"math/bits"
	"reflect"

	"github.com/apache/datasketches-go/cpc"
	"github.com/apache/datasketches-go/tdigest"
)

// ---- X08: sketches stay small ----

// limit is what the configuration of an object entitles it to hold.
type limit struct {
	what    string
	entries func(o *Obj) int            // held now
	max     func(o *Obj) int            // entitled to
	bytes   int                         // of one entry in memory, generously
	image   func(o *Obj) (int, int)     // bytes of an image and its bound, or nil
	fixed   func(o *Obj) (int, int)     // bytes that must be exact, or nil
	extra   func(o *Obj) map[string]int // more numbers, by name, none above max
}

// constMax is a limit that does not depend on the history.
func constMax(n int) func(*Obj) int { return func(*Obj) int { return n } }

// thetaMax is the number of hashes an update sketch may hold between rebuilds.
func thetaMax(lgK uint8) int { return (15 << (lgK + 1)) / 16 }

// kllMax is the sum of the nominal level capacities for n items.
func kllMax(k int, m uint8, n uint64) int {
	levels, sum := bits.Len64(max(n, 1)), 0
	for d := 0; d < levels; d++ {
		sum += max(int(m), int(math.Ceil(float64(k)*math.Pow(2.0/3, float64(d)))))
	}
	return sum
}

// reqMax bounds the nominal capacity of a REQ sketch of n items: the number of
// sections of a level doubles with its compactions, and their size shrinks.
func reqMax(k int, n int64) int {
	sum := 0
	for l := 0; ; l++ {
		through := float64(n) / math.Pow(2, float64(l))
		sections, size := 3.0, float64(k)
		for through/(sections*size) > math.Pow(2, sections-1)/4 && size > 4 {
			sections *= 2
			size = math.Max(4, size/math.Sqrt2)
		}
		sum += int(2 * sections * (size + 1))
		if through < float64(k) {
			return sum + 8*k
		}
	}
}

// deepSize adds up the memory reachable from a value.
func deepSize(x any) int {
	seen := map[uintptr]bool{}
	n := 0
	harness := reflect.TypeOf(Obj{}).PkgPath()
	var walk func(v reflect.Value, root bool)
	walk = func(v reflect.Value, root bool) {
		t := v.Type()
		own := t.PkgPath() == harness
		if t.Kind() == reflect.Pointer {
			own = t.Elem().PkgPath() == harness
		}
		if own && !root || t == reflect.TypeOf((*Sim)(nil)) {
			return
		}
		root = root && (own || t.Kind() == reflect.Interface)
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			n += int(t.Elem().Size())
			walk(v.Elem(), root)
		case reflect.Interface:
			if !v.IsNil() {
				e := v.Elem()
				if e.Kind() != reflect.Pointer {
					n += int(e.Type().Size())
				}
				walk(e, root)
			}
		case reflect.Slice:
			if v.IsNil() || v.Cap() == 0 || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			n += v.Cap() * int(t.Elem().Size())
			if holdsMemory(t.Elem()) {
				v = v.Slice(0, v.Cap())
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i), false)
				}
			}
		case reflect.Array:
			if holdsMemory(t.Elem()) {
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i), false)
				}
			}
		case reflect.String:
			n += v.Len()
		case reflect.Map:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			n += 2 * v.Len() * int(t.Key().Size()+t.Elem().Size()+8)
			if holdsMemory(t.Key()) || holdsMemory(t.Elem()) {
				for it := v.MapRange(); it.Next(); {
					walk(it.Key(), false)
					walk(it.Value(), false)
				}
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if holdsMemory(t.Field(i).Type) {
					walk(v.Field(i), root)
				}
			}
		}
	}
	walk(reflect.ValueOf(x), true)
	return n
}

// holdsMemory tells whether values of a type can refer to more memory.
func holdsMemory(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer, reflect.Interface, reflect.Slice, reflect.String, reflect.Map:
		return true
	case reflect.Array:
		return holdsMemory(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if holdsMemory(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

func checkLimit(s *Sim, o *Obj, deep bool, at string) {
	l := o.Limit
	if l == nil {
		return
	}
	most := 0
	if l.entries != nil {
		n := l.entries(o)
		most = l.max(o)
		s.Assert(n <= most, "oversized:"+o.Kind, "%s: a %s holds %d %s, entitled to %d", at, o.Kind, n, l.what, most)
		if most > 0 {
			noteMax(s, "fill of "+o.Kind, 5*float64(n)/float64(most))
		}
		s.State(hashString(o.Kind), uint64(most), uint64(8*n/max(most, 1)))
	}
	if l.image != nil {
		n, mx := l.image(o)
		s.Assert(n <= mx, "oversized-image:"+o.Kind, "%s: the image of a %s has %d bytes, more than %d", at, o.Kind, n, mx)
		noteMax(s, "image of "+o.Kind, float64(n)/float64(max(mx, 1)))
		s.State(hashString(o.Kind), uint64(mx), uint64(8*n/max(mx, 1)))
		if most == 0 {
			most = mx
		}
	}
	if deep {
		n, mx := deepSize(o.Live), 12<<10+5*most*max(l.bytes, 1)
		s.Assert(n <= mx, "oversized-memory:"+o.Kind, "%s: a %s occupies %d bytes of memory, more than %d", at, o.Kind, n, mx)
		noteMax(s, "memory of "+o.Kind, 5*float64(n)/float64(mx))
	}
}

// boundedScenario: a long history of updates, merges, repetitions, snapshots,
// restarts and resets; the object never holds more than it is entitled to.
func boundedScenario(k *Kind) func(*Sim) {
	return func(s *Sim) {
		o := k.New(s)
		n := 4 + s.history(60)
		for i := 0; i < n; i++ {
			at := ""
			switch s.Pick(16, 4, 3, 1) {
			case 0, 1:
				m := o.Gen(s)
				times := 1
				if s.Choose(8) == 0 && !s.big {
					times = 2 + s.Choose(12)
					s.Fault("duplicate-delivery")
				}
				s.Logf("%s: %s x%d", o.Kind, m.Name, times)
				for ; times > 0; times-- {
					s.Must(apply(s, o, m, s.Word()), "op-error:"+o.Kind)
				}
				at = "after " + m.Name
			case 2:
				if len(o.Codecs) == 0 {
					continue
				}
				c := o.Codecs[s.Choose(len(o.Codecs))]
				if c.Text || c.Dec == nil {
					continue
				}
				b, err := c.Enc(o)
				s.Must(err, "encode-error:"+c.Name)
				r, err := c.Dec(append([]byte(nil), b...))
				s.Must(err, "decode-error:"+c.Name)
				if r.Limit == nil || r.Gen == nil {
					continue
				}
				s.Fault("crash-restart")
				s.Logf("restored from %s", c.Name)
				o = r
				at = "after a restart"
			case 3:
				if o.Reset == nil {
					continue
				}
				s.Logf("reset")
				o.Reset(o)
				at = "after a reset"
			}
			if i%4 == 0 {
				_ = o.print() // queries may build views that are kept
			}
			checkLimit(s, o, i%8 == 7 || i == n-1, at)
		}
	}
}

// tdOversized: a digest restored from a node with a longer buffer or more
// centroids gets down to its own size within one buffer of updates.
func tdOversized(s *Sim) {
	c := &tdCfg{k: min(drawTDK(s), 60), mp: tdMaps[s.Choose(len(tdMaps))], deep: true}
	c.max = 400
	iv := make([]int64, 1+s.Size(1500))
	for i := range iv {
		iv[i] = int64(i)
	}
	b, kind := tdForeign(s, c.mp, iv, c.k)
	d, err := tdigest.DecodeDouble(b)
	s.Must(err, "foreign-image")
	s.Fault("foreign-image")
	s.Logf("restored from a %s", kind)
	o := c.obj(d)
	left := 5*tdCap(c.k) + 1
	for i := 0; i < 40; i++ {
		m := newStream(s).NextValues(c.max)
		for _, v := range m.IDs {
			s.Must(d.Update(c.mp.f(int64(v))), "tdigest-update")
		}
		s.ops++
		left -= len(m.IDs)
		if left <= 0 {
			checkLimit(s, o, true, "one buffer after a foreign image")
		}
	}
}

func tdCap(k int) int {
	if k < 30 {
		return 2*k + 30
	}
	return 2*k + 10
}

// cpcImageMax bounds the compressed image of any coupon matrix of 2^lgK rows,
// those of streams made up to fill whole columns included.
func cpcImageMax(lgK int) int { return 128 + 16<<lgK }

func cpcImageLen(k *cpc.CpcSketch) int {
	b, err := k.ToCompactSlice()
	if err != nil {
		panic(violation{"encode-error:cpc", fmt.Sprint(err)})
	}
	return len(b)
}

func registerX08(real, stub []string) {
	d := withBig(kindScenarios(boundedScenario, func(k *Kind) bool { o := sample(k); return o.Limit != nil && o.Gen != nil }), 100)
	d = append(d, scenarioDef{"tdigest-oversized", 60, tdOversized})
	register(&propDef{ID: "X08", Quick: 50000, Thorough: 2000000, Scenarios: d, Real: real, Stub: stub,
		Rule: "Long histories with duplicated deliveries, restarts and resets; sizes read after every step."})
}
