package main

import (
	"fmt"
)

// Image is a sketch in flight or at rest: its bytes, and (out of band, for the
// oracle only) the model of what it holds.
type Image struct {
	Enc   string
	Bytes []byte
	Live  any // the live object itself, when handed over in process
	M     any
}

// Replica is one live sketch together with its reference model.
type Replica interface {
	Kind() string
	Update(s *Sim, b *Batch)
	Encode(s *Sim) *Image
	Absorb(s *Sim, img *Image)
	Restore(s *Sim, img *Image) (Replica, bool)
	Check(s *Sim, at string)
	Bag() Bag
}

// Family builds replicas of one kind of sketch for one run; its configuration
// (sizes, seeds, item types) is drawn when it is created.
type Family interface {
	Name() string
	Idempotent() bool
	NewLeaf(s *Sim) Replica
	NewAgg(s *Sim) Replica
	NextBatch(s *Sim) *Batch
	// DecodeAny decodes an image of the given encoding and discards the result.
	DecodeAny(enc string, b []byte) error
}

type diskSlot struct {
	img     []*Image
	applied int
	seen    map[int]bool
	torn    int // -1: whole
	corrupt bool
}

type cnode struct {
	name   string
	up     bool
	leaf   bool
	rep    Replica
	carry  []*Image
	log    []*Batch
	appl   int
	slots  []*diskSlot // newest last
	outbox []*cmsg     // durable, until acknowledged
	seen   map[int]bool
	parent *cnode
	stall  int64
}

type cmsg struct {
	id    int
	from  *cnode
	to    *cnode
	imgs  []*Image
	acked bool
	sent  int
}

type cluster struct {
	s      *Sim
	fam    Family
	nodes  []*cnode
	leaves []*cnode
	mids   []*cnode
	root   *cnode
	msgID  int
	faults clusterFaults
	cutoff map[[2]*cnode]int64 // partitions: until when
}

type clusterFaults struct {
	drop, dup, reorder, crash, torn, partition, lostWrite, stall bool
}

func (c *cluster) newRep(n *cnode) Replica {
	if n.leaf {
		return c.fam.NewLeaf(c.s)
	}
	return c.fam.NewAgg(c.s)
}

// clusterScenario: producers ingest partitions of a stream, checkpoint to a
// faulty disk, ship their sketches over a faulty network into a tree of
// aggregators, crash and restart; once faults stop everything is delivered and
// the root must hold exactly the whole stream.
// bigScenario is the same cluster with sketches of the sizes deployments use.
func bigScenario(f func(*Sim)) func(*Sim) {
	return func(s *Sim) {
		s.big = true
		f(s)
	}
}

func clusterScenario(mk func(s *Sim) Family) func(*Sim) {
	return func(s *Sim) {
		fam := mk(s)
		c := &cluster{s: s, fam: fam, cutoff: map[[2]*cnode]int64{}}
		nl := 1 + s.Choose(4)
		nm := s.Pick(3, 2, 2)
		// swarm: a random subset of fault kinds per run
		fm := s.Choose(256)
		c.faults = clusterFaults{drop: fm&1 != 0, dup: fm&2 != 0, reorder: fm&4 != 0, crash: fm&8 != 0, torn: fm&16 != 0, partition: fm&32 != 0, lostWrite: fm&64 != 0, stall: fm&128 != 0}
		c.root = &cnode{name: "root", up: true, seen: map[int]bool{}}
		c.root.rep = c.newRep(c.root)
		for i := 0; i < nm; i++ {
			m := &cnode{name: fmt.Sprintf("mid%d", i), up: true, seen: map[int]bool{}, parent: c.root}
			m.rep = c.newRep(m)
			c.mids = append(c.mids, m)
		}
		for i := 0; i < nl; i++ {
			l := &cnode{name: fmt.Sprintf("leaf%d", i), up: true, leaf: true, seen: map[int]bool{}}
			l.rep = c.newRep(l)
			if nm > 0 {
				l.parent = c.mids[s.Choose(nm)]
			} else {
				l.parent = c.root
			}
			c.leaves = append(c.leaves, l)
		}
		c.nodes = append(append(append(c.nodes, c.leaves...), c.mids...), c.root)
		s.Step("cluster %s: %d leaves, %d mids", fam.Name(), nl, nm)
		steps := 3 + s.Size(40)
		if s.big {
			steps = 3 + s.Size(15)
		}
		for i := 0; i < steps; i++ {
			c.step()
			s.Now += int64(1 + s.Choose(200))
			c.due()
		}
		c.finish()
	}
}

func (c *cluster) due() {
	s := c.s
	for len(s.events) > 0 && s.events[0].at <= s.Now {
		s.RunEvents(1)
	}
}

func (c *cluster) step() {
	s := c.s
	switch s.Pick(10, 6, 3, 3, 2, 1, 3) {
	case 0: // ingest
		n := c.leaves[s.Choose(len(c.leaves))]
		b := c.fam.NextBatch(s)
		n.log = append(n.log, b)
		c.catchUp(n, 1)
	case 1: // ship
		n := c.nodes[s.Choose(len(c.nodes)-1)]
		c.ship(n)
	case 2: // checkpoint
		n := c.nodes[s.Choose(len(c.nodes))]
		c.checkpoint(n)
	case 3: // crash or restart
		n := c.nodes[s.Choose(len(c.nodes))]
		if !n.up {
			c.restart(n)
		} else if c.faults.crash {
			c.crash(n)
		}
	case 4: // retransmit whatever is unacknowledged
		n := c.nodes[s.Choose(len(c.nodes)-1)]
		if n.up && len(n.outbox) > 0 {
			m := n.outbox[s.Choose(len(n.outbox))]
			c.transmit(m)
		}
	case 5: // partition
		if c.faults.partition {
			n := c.nodes[s.Choose(len(c.nodes)-1)]
			c.cutoff[[2]*cnode{n, n.parent}] = s.Now + int64(1+s.Choose(5000))
			s.Fault("partition")
			s.Logf("partition %s | %s", n.name, n.parent.name)
		}
	case 6: // read
		n := c.nodes[s.Choose(len(c.nodes))]
		if n.up {
			s.Step("check")
			n.rep.Check(s, "read at "+n.name)
		}
	}
}

// catchUp applies input-log records the node has not applied yet.
func (c *cluster) catchUp(n *cnode, max int) {
	if !n.up {
		return
	}
	for n.appl < len(n.log) && max > 0 {
		b := n.log[n.appl]
		c.s.Step("ingest")
		c.s.Logf("%s ingests %v", n.name, b)
		n.rep.Update(c.s, b)
		c.s.ops++
		n.appl++
		max--
	}
	if c.s.Bool(1, 4) {
		n.rep.Check(c.s, "after ingest at "+n.name)
	}
}

func (c *cluster) images(n *cnode) []*Image {
	imgs := append([]*Image{}, n.carry...)
	img := n.rep.Encode(c.s)
	if img != nil {
		imgs = append(imgs, img)
	}
	return imgs
}

func (c *cluster) ship(n *cnode) {
	s := c.s
	if !n.up || n.parent == nil {
		return
	}
	c.msgID++
	m := &cmsg{id: c.msgID, from: n, to: n.parent, imgs: c.images(n)}
	s.ops++
	encs := ""
	for _, im := range m.imgs {
		encs += fmt.Sprintf(" %s[%d]", im.Enc, len(im.Bytes))
	}
	s.Step("ship")
	s.Logf("%s ships msg%d to %s:%s", n.name, m.id, m.to.name, encs)
	n.outbox = append(n.outbox, m)
	if !c.fam.Idempotent() {
		// shipping is a durable hand-off: the node starts a new epoch
		n.rep = c.newRep(n)
		n.carry = nil
		n.slots = append(n.slots, &diskSlot{applied: n.appl, seen: copySeen(n.seen), torn: -1})
		if !n.leaf {
			c.ackFromDisk(n)
		}
	}
	c.transmit(m)
}

func (c *cluster) transmit(m *cmsg) {
	s := c.s
	m.sent++
	if !s.quiet {
		if t, ok := c.cutoff[[2]*cnode{m.from, m.to}]; ok && t > s.Now {
			s.Fault("partition-drop")
			return
		}
		if c.faults.drop && s.Bool(1, 4) {
			s.Fault("drop")
			s.Logf("msg%d lost", m.id)
			return
		}
	}
	delay := int64(1 + s.Choose(50))
	if c.faults.reorder && !s.quiet {
		delay = int64(1 + s.Choose(2000))
		s.Fault("delay")
	}
	s.After(delay, func() { c.deliver(m) })
	if c.faults.dup && !s.quiet && s.Bool(1, 3) {
		s.Fault("duplicate")
		s.After(delay+int64(1+s.Choose(2000)), func() { c.deliver(m) })
	}
}

func (c *cluster) deliver(m *cmsg) {
	s := c.s
	n := m.to
	if !n.up {
		s.Fault("deliver-to-down")
		return
	}
	if n.seen[m.id] && !c.fam.Idempotent() {
		s.Probe("duplicate suppressed")
		return
	}
	if n.seen[m.id] {
		s.Probe("duplicate merged")
	}
	s.Step("deliver")
	s.Logf("%s receives msg%d from %s", n.name, m.id, m.from.name)
	for _, img := range m.imgs {
		n.rep.Absorb(s, img)
		s.ops++
	}
	n.seen[m.id] = true
	if s.Bool(1, 2) {
		n.rep.Check(s, "after merge at "+n.name)
	}
}

func copySeen(m map[int]bool) map[int]bool {
	o := make(map[int]bool, len(m))
	for k := range m {
		o[k] = true
	}
	return o
}

// ackFromDisk acknowledges messages whose effect is durable at n.
func (c *cluster) ackFromDisk(n *cnode) {
	if len(n.slots) == 0 {
		return
	}
	d := n.slots[len(n.slots)-1]
	if d.torn >= 0 || d.corrupt {
		return
	}
	for _, o := range c.nodes {
		if o.parent != n {
			continue
		}
		keep := o.outbox[:0]
		for _, m := range o.outbox {
			if d.seen[m.id] && !(c.faults.drop && !c.s.quiet && c.s.Bool(1, 4)) {
				m.acked = true
				continue
			}
			keep = append(keep, m)
		}
		o.outbox = keep
	}
}

func (c *cluster) checkpoint(n *cnode) {
	s := c.s
	if !n.up {
		return
	}
	d := &diskSlot{img: c.images(n), applied: n.appl, seen: copySeen(n.seen), torn: -1}
	s.ops++
	s.Step("checkpoint")
	if c.faults.lostWrite && !s.quiet && s.Bool(1, 5) {
		s.Fault("lost-write")
		s.Logf("%s checkpoint lost", n.name)
		return
	}
	if c.faults.torn && !s.quiet && s.Bool(1, 4) && len(d.img) > 0 {
		last := d.img[len(d.img)-1]
		if len(last.Bytes) > 0 {
			d.torn = s.Choose(len(last.Bytes))
			s.Fault("torn-write")
		}
	}
	s.Logf("%s checkpoints %d images (torn=%d)", n.name, len(d.img), d.torn)
	n.slots = append(n.slots, d)
	for len(n.slots) > 3 {
		// recycle the oldest slot, unless it is the only whole one
		whole := false
		for _, x := range n.slots[1:] {
			whole = whole || x.torn < 0
		}
		if !whole {
			break
		}
		n.slots = n.slots[1:]
	}
	c.ackFromDisk(n)
	if s.Bool(1, 3) {
		n.rep.Check(s, "after checkpoint at "+n.name)
	}
}

func (c *cluster) crash(n *cnode) {
	s := c.s
	s.Fault("crash")
	s.Step("crash")
	s.Logf("%s crashes", n.name)
	n.up = false
	n.rep, n.carry, n.seen = nil, nil, nil
}

func (c *cluster) restart(n *cnode) {
	s := c.s
	s.Step("restart")
	n.up = true
	n.rep = c.newRep(n)
	n.carry = nil
	n.seen = map[int]bool{}
	n.appl = 0
	for len(n.slots) > 0 {
		d := n.slots[len(n.slots)-1]
		if d.torn >= 0 {
			// the newest slot was cut short by the crash: it must not decode
			im := d.img[len(d.img)-1]
			cut := append([]byte(nil), im.Bytes[:d.torn]...)
			err := c.fam.DecodeAny(im.Enc, cut)
			s.Assert(err != nil, "torn-image-accepted:"+im.Enc, "%d of %d bytes of a %s image decoded without error", d.torn, len(im.Bytes), im.Enc)
			s.Probe("torn slot rejected")
			n.slots = n.slots[:len(n.slots)-1]
			continue
		}
		n.appl = d.applied
		n.seen = copySeen(d.seen)
		for _, im := range d.img {
			if n.leaf {
				if r, ok := n.rep.Restore(s, im); ok && len(d.img) == 1 {
					n.rep = r
					s.Probe("leaf resumed from snapshot")
				} else {
					n.carry = append(n.carry, im)
					s.Probe("leaf carries snapshot")
				}
			} else {
				if r, ok := n.rep.Restore(s, im); ok {
					n.rep = r
				} else {
					n.rep.Absorb(s, im)
				}
			}
			s.ops++
		}
		break
	}
	s.Logf("%s restarts at log offset %d with %d messages applied", n.name, n.appl, len(n.seen))
	n.rep.Check(s, "after restart at "+n.name)
	if c.fam.Idempotent() && n.leaf && n.appl > 0 && s.Bool(1, 3) {
		k := s.Choose(n.appl)
		s.Fault("at-least-once-replay")
		n.appl = k // re-ingest a suffix that is already reflected
	}
}

func (c *cluster) finish() {
	s := c.s
	s.quiet = true
	s.Step("faults stop")
	for _, n := range c.nodes {
		if !n.up {
			c.restart(n)
		}
	}
	s.RunEvents(100000)
	bound := 0
	for _, tier := range [][]*cnode{c.leaves, c.mids} {
		for _, n := range tier {
			c.catchUp(n, len(n.log))
			n.rep.Check(s, "final at "+n.name)
			c.ship(n)
			for _, m := range n.outbox {
				if c.fam.Idempotent() && m != n.outbox[len(n.outbox)-1] {
					continue // an older state of the same node is subsumed
				}
				c.transmit(m)
			}
		}
		bound += s.RunEvents(100000)
	}
	// everything ever ingested is now at the root, once
	want := Bag{}
	for _, n := range c.leaves {
		want = want.Concat(n.log)
	}
	got := c.root.rep.Bag()
	if c.fam.Idempotent() {
		got = Bag{}.Union(got)
	}
	if len(got) != len(want) {
		panic(fmt.Sprintf("harness: root reflects %d batches of %d", len(got), len(want)))
	}
	s.State(hashString(c.root.rep.Kind()), uint64(len(want)), uint64(bound))
	c.root.rep.Check(s, "final at root")
}
