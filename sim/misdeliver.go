package main

// X06, restores: an image that reaches a node of another family, or of the
// same family under another hash seed, has to be refused by every decoder.

import "bytes"

// wireFamily names what a decoder can tell apart from the published layout.
func wireFamily(kind string) string {
	for _, p := range []string{"theta", "hll", "cpc", "kll", "tdigest", "freq", "aon", "tuple", "bloom", "countmin"} {
		if len(kind) >= len(p) && kind[:len(p)] == p {
			return p
		}
	}
	return kind // the sketches and unions of the sampling family differ
}

// refuses runs one decoder on an image it must not accept.
func refuses(s *Sim, o *Obj, cd *Codec, b []byte, what string) {
	keep := bytes.Clone(b)
	use := b
	stream := cd.DecFrom != nil && (cd.Dec == nil || s.Choose(2) == 0)
	s.Logf("%s %s decodes %s (must be refused)", o.Kind, cd.Name, what)
	s.Fault("misdelivered-image")
	s.ops++
	seedLib(s.Word(), 0)
	var err error
	if v := try(func() {
		if stream {
			_, err = cd.DecFrom(bytes.NewReader(use))
		} else {
			_, err = cd.Dec(use)
		}
	}); v != nil {
		v.Class += ":" + cd.Name + ":misdelivered"
		v.Detail = "refusing " + what + " panicked: " + v.Detail
		panic(*v)
	}
	s.Assert(err != nil, "misdelivered-accepted:"+cd.Name, "%s %s decoded %s", o.Kind, cd.Name, what)
	s.Assert(bytes.Equal(keep, b), "misdelivered-changes-image:"+cd.Name, "refusing an image changed its bytes")
}

func misdeliverScenario(k *Kind) func(*Sim) {
	return func(s *Sim) {
		o := k.New(s)
		grow(s, o, 4)
		twin := o.print()
		for i, n := 0, 1+s.Choose(4); i < n; i++ {
			cd := o.Codecs[s.Choose(len(o.Codecs))]
			if cd.Text || cd.Dec == nil && cd.DecFrom == nil {
				continue
			}
			s.Step("misdelivery")
			if o.AltSeed != nil && s.Choose(2) == 0 {
				src := o.AltSeed(s)
				if src == nil || len(src.Codecs) == 0 {
					continue
				}
				sc := src.Codecs[s.Choose(len(src.Codecs))]
				b, err := sc.Enc(src)
				s.Must(err, "encode-error:"+src.Kind)
				what := "an image under another seed (" + sc.Name + ")"
				if wireFamily(k.Name) == "theta" && s.Choose(2) == 0 {
					img, form := readTheta(b).write(s)
					if form != "theta v1" { // the first version names no seed
						b, what = img, "an image under another seed ("+form+")"
					}
				}
				refuses(s, o, cd, b, what)
				s.State(hashString(what + cd.Name))
				continue
			}
			k2 := pickKind(s, func(k2 *Kind) bool {
				return wireFamily(k2.Name) != wireFamily(k.Name)
			})
			x := k2.New(s)
			if len(x.Codecs) == 0 {
				continue
			}
			grow(s, x, 6)
			sc := x.Codecs[s.Choose(len(x.Codecs))]
			if sc.Text || sc.Enc == nil {
				continue
			}
			b, err := sc.Enc(x)
			s.Must(err, "encode-error:"+x.Kind)
			refuses(s, o, cd, b, "a "+x.Kind+" image ("+sc.Name+")")
			s.State(hashString(sc.Name + ">" + cd.Name))
		}
		if !o.QueriesCompact {
			s.same(twin, o.print(), "misdelivered-changes-receiver", "refusing images changed the %s", o.Kind)
		}
	}
}
