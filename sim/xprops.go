package main

// The properties that range over every family.

func kindScenarios(f func(k *Kind) func(*Sim), ok func(k *Kind) bool) []scenarioDef {
	var out []scenarioDef
	for _, k := range kinds {
		if ok == nil || ok(k) {
			out = append(out, scenarioDef{k.Name, 1, f(k)})
		}
	}
	return out
}

// withBig adds the scenarios again with objects of the sizes deployments use.
func withBig(d []scenarioDef, weight int) []scenarioDef {
	out := d
	for i := range d {
		out[i].Weight *= weight
	}
	for _, x := range d {
		out = append(out, scenarioDef{"big-" + x.Name, 1, bigScenario(x.Run)})
	}
	return out
}

// sample builds one object of a kind, to see what it offers.
func sample(k *Kind) *Obj {
	s := newSim("", "", "quick", 0, 1)
	s.replaying = true
	return k.New(s)
}

func registerX() {
	withCodec := func(k *Kind) bool { return len(sample(k).Codecs) > 0 }
	withStream := func(k *Kind) bool {
		for _, c := range sample(k).Codecs {
			if c.EncTo != nil || c.DecFrom != nil {
				return true
			}
		}
		return false
	}
	stub := []string{"disk, crashes, clock (simulated)", "math/rand, math/rand/v2, crypto/rand sources (seeded)"}
	real := []string{"every sketch family of the library"}
	register(&propDef{ID: "X01", Quick: 40000, Thorough: 2000000, Scenarios: withBig(kindScenarios(restartScenario, withCodec), 20), Real: real, Stub: stub,
		Rule: "Snapshot, crash, restore, and continue in lockstep with the original."})
	register(&propDef{ID: "X02", Quick: 30000, Thorough: 2000000, Scenarios: withBig(kindScenarios(tornScenario, withCodec), 100), Real: real, Stub: stub,
		Rule: "Torn and corrupted snapshots fed to every decoder."})
	register(&propDef{ID: "X03", Quick: 30000, Thorough: 2000000, Scenarios: withBig(kindScenarios(streamScenario, withStream), 40), Real: real, Stub: stub,
		Rule: "Fragmenting, failing and early-ending readers and writers under every streaming codec."})
	iso := kindScenarios(isolationScenario, nil)
	iso = append(iso, scenarioDef{"interleave", len(iso) / 2, interleaveScenario(func(s *Sim) *Kind { return pickKind(s, nil) })})
	if instrumented {
		iso = append(iso, scenarioDef{"preempt", 2 * len(iso), preemptScenario(func(s *Sim) *Kind { return pickKind(s, nil) })})
	}
	register(&propDef{ID: "X04", Quick: 80000, Thorough: 2000000, Scenarios: iso, Real: real, Stub: stub,
		Rule: "Derive-then-mutate sequences and interleaved tasks compared with undisturbed twins."})
	register(&propDef{ID: "X05", Quick: 40000, Thorough: 2000000, Scenarios: withBig(kindScenarios(resetScenario, func(k *Kind) bool { return sample(k).Reset != nil }), 200), Real: real, Stub: stub,
		Rule: "Reset at arbitrary points, then lockstep with a newly constructed object."})
	rej := kindScenarios(rejectScenario, func(k *Kind) bool { return sample(k).Bad != nil })
	for i := range rej {
		rej[i].Weight = 2
	}
	for _, d := range kindScenarios(misdeliverScenario, withCodec) {
		d.Name = "misdelivery-" + d.Name
		rej = append(rej, d)
	}
	rej = append(rej, scenarioDef{"configuration", 3, configScenario})
	register(&propDef{ID: "X06", Quick: 60000, Thorough: 3000000, Scenarios: rej, Real: real, Stub: stub,
		Rule: "Incompatible messages at arbitrary points, compared with a twin that never saw them."})
	registerX08(real, stub)
}
