package main

import (
	"encoding/binary"
	"fmt"
	"math/rand/v2"

	"verif/harness/ref"
	"verif/harness/scn"
)

// sim builds a scenario step by step, following it on the reference model
// so that attack blocks can be aimed at the chaining value they meet.
type sim struct {
	r     *rand.Rand
	t     *ref.Tables
	s     scn.Scn
	env   *ref.Env
	objs  map[int]*sobj
	slots map[int]*sobj
	used  map[int]bool // DVs whose difference is fixed
	ctl   [][]seg      // messages to hash again, afresh
	nctl  int
	hits  int
}

type seg struct{ s, f, t int }

type sobj struct {
	o     ref.Obj
	msg   []seg // nil with opaque: restored from a made-up state
	opq   bool
	plan  []byte // the block under way, first len(o.X) bytes written
	planK int    // DV it qualifies for, or -1
	cur   int    // stream that its next bytes go to
}

func newSim(r *rand.Rand, t *ref.Tables, id string) *sim {
	return &sim{r: r, t: t, s: scn.Scn{ID: id}, env: t.Env(nil),
		objs: map[int]*sobj{}, slots: map[int]*sobj{}, used: map[int]bool{}}
}

// ro is now and then the place of an argument in read-only memory.
func (m *sim) ro() int { return max(0, m.r.IntN(12)-9) }

func (m *sim) add(op scn.Op) {
	if op.Op == "oneshot" {
		op.Ro = m.ro()
	}
	m.s.Ops = append(m.s.Ops, op)
}

func (m *sim) newObj(o int) {
	m.objs[o] = &sobj{o: ref.New(), cur: -1}
	m.add(scn.Op{Op: "new", O: o})
}

// pickDv chooses a DV whose difference is still free, or -1.
func (m *sim) pickDv() int {
	for i := 0; i < 40; i++ {
		if k := m.r.IntN(32); !m.used[k] {
			return k
		}
	}
	for k := 0; k < 32; k++ {
		if !m.used[k] {
			return k
		}
	}
	return -1
}

func randBlock(r *rand.Rand) []byte {
	b := make([]byte, 64)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return b
}

// qualify makes a block with the given leading bytes that meets the
// conditions of DV k (and of the others in also).
func (m *sim) qualify(k int, head []byte, also ...int) ([]byte, bool) {
	b := make([]byte, 64)
	copy(b, head)
	return m.solve(b, len(head), 64, k, also...)
}

// solve varies bytes from..to of b.
func (m *sim) solve(b []byte, from, to, k int, also ...int) ([]byte, bool) {
	var fm [64]byte
	for i := from; i < to; i++ {
		fm[i] = 0xff
	}
	conds := m.t.CondsOf(k, -1)
	for _, a := range also {
		conds = append(conds, m.t.CondsOf(a, -1)...)
	}
	w, ok := ref.Solve(m.r, ref.Words(b), ref.Words(fm[:]), conds)
	return ref.BytesOf(w), ok
}

// odd makes an attack block for DV k with few free bits: constant words,
// text, zeros at an end.
func (m *sim) odd(k int) []byte {
	vals := []uint32{0, 0, 0xffffffff, 0x80000000, 1, 0x20202020, 0x80808080, m.r.Uint32()}
	for {
		var base, free [16]uint32
		for i := range free {
			free[i] = 0xffffffff
		}
		a := 1 + m.r.IntN(8)
		v := vals[m.r.IntN(len(vals))]
		switch m.r.IntN(5) {
		case 0:
			for _, i := range m.r.Perm(16)[:a] {
				base[i], free[i] = vals[m.r.IntN(len(vals))], 0
			}
		case 1:
			for i := range free {
				free[i] = 0x7f7f7f7f
			}
		case 2:
			for i := 0; i < a; i++ {
				base[i], free[i] = v, 0
			}
		case 3:
			for i := 16 - a; i < 16; i++ {
				base[i], free[i] = v, 0
			}
		default: // all words but some
			for i := range free {
				base[i] = v
				if i < 5 || i > 10 {
					free[i] = 0
				}
			}
		}
		if w, ok := ref.Solve(m.r, base, free, m.t.CondsOf(k, -1)); ok {
			return ref.BytesOf(w)
		}
	}
}

// crowded makes a block that meets the conditions of DV k and of as many
// others as possible.
func (m *sim) crowded(k int) []byte {
	blk, _ := m.qualify(k, nil)
	var all []int
	for _, a := range m.r.Perm(32) {
		x := append(append([]int{}, all...), a)
		if b, ok := m.qualify(k, nil, x...); ok {
			blk, all = b, x
		}
	}
	return blk
}

// arm fixes the difference of DV k so that blk, met with chaining value h,
// is an attack block (or misses by miss).
func (m *sim) arm(k int, h ref.State, blk []byte, miss ref.State) {
	w := ref.Expand(blk)
	dm := m.t.Dm(m.r, k, h, &w, miss)
	d := m.t.Dvs[k]
	m.s.Dvs = append(m.s.Dvs, scn.DvOv{K: k + 1, T: d.Type, DK: d.K, DB: d.B, Dm: dm})
	m.env.Ovr[k+1] = &dm
	m.used[k] = true
	if miss == (ref.State{}) {
		m.hits++
	}
}

// armMore does the same for others whose conditions blk meets: an attack
// block in more than one way, or almost.
func (m *sim) armMore(h ref.State, blk []byte) {
	w := ref.Expand(blk)
	mask := m.t.Mask(&w)
	n := 1 + m.r.IntN(3)
	for _, k := range m.r.Perm(32) {
		if n > 0 && !m.used[k] && mask>>m.t.Dvs[k].Bit&1 != 0 {
			var miss ref.State
			if m.r.IntN(3) == 0 {
				miss[m.r.IntN(5)] = 1 << m.r.IntN(32)
			}
			m.arm(k, h, blk, miss)
			n--
		}
	}
}

// next gives the next n bytes of object b's message from its planned
// blocks; hit tells for the i-th completed block whether to make it an
// attack block.
func (m *sim) next(b *sobj, n int, hit func(i int) bool) []byte {
	var out []byte
	o := b.o
	done := 0
	for n > 0 {
		x := len(o.X)
		if x == 0 || b.plan == nil {
			b.plan, b.planK = nil, -1
			if k := m.pickDv(); k >= 0 {
				if blk, ok := m.qualify(k, o.X); ok {
					b.plan, b.planK = blk, k
				}
			}
			if b.plan == nil {
				b.plan = append(append([]byte{}, o.X...), randBlock(m.r)[:64-x]...)
			}
		}
		c := min(n, 64-x)
		p := b.plan[x : x+c]
		if x+c == 64 {
			if hit != nil && hit(done) {
				k := b.planK
				if k >= 0 && m.used[k] {
					k = -1
				}
				if k >= 0 {
					m.arm(k, o.H, b.plan, ref.State{})
				}
			}
			done++
		}
		o.Write(m.env, p)
		out = append(out, p...)
		n -= c
		if x+c == 64 {
			b.plan = nil
		}
	}
	return out
}

// write emits a Write of p on object o.
func (m *sim) write(o int, p []byte) {
	b := m.objs[o]
	if b.cur < 0 {
		b.cur = len(m.s.Streams)
		m.s.Streams = append(m.s.Streams, scn.Stream{Kind: "lit"})
	}
	st := &m.s.Streams[b.cur]
	f := len(st.Lit)
	st.Lit = append(st.Lit, p...)
	m.writeSeg(o, b.cur, f, f+len(p))
}

// writeSeg emits a Write of a part of a stream.
func (m *sim) writeSeg(o, s, f, t int) {
	b := m.objs[o]
	b.o.Write(m.env, m.s.Streams[s].Bytes()[f:t])
	b.msg = addSeg(b.msg, seg{s, f, t})
	cap := 0
	if f == t && m.r.IntN(2) == 0 {
		cap = 1
	}
	m.add(scn.Op{Op: "write", O: o, S: s, F: f, T: t, Cap: cap, Ro: m.ro()})
}

func addSeg(msg []seg, g seg) []seg {
	if g.f == g.t {
		return msg
	}
	out := append([]seg{}, msg...)
	if n := len(out); n > 0 && out[n-1].s == g.s && out[n-1].t == g.f {
		out[n-1].t = g.t
		return out
	}
	return append(out, g)
}

func (m *sim) observe(o int, kind string) {
	b := m.objs[o]
	switch m.r.IntN(8) {
	case 0:
		m.add(scn.Op{Op: "sum", O: o})
	case 1:
		m.add(scn.Op{Op: "crsum", O: o})
	}
	op := scn.Op{Op: kind, O: o}
	switch m.r.IntN(4) {
	case 0:
		op.In = m.prefix()
		op.Cap = []int{0, 1, 19, 20, 21, m.r.IntN(80), m.r.IntN(80), m.r.IntN(5000)}[m.r.IntN(8)]
	case 1:
		op.In = m.prefix()
		op.Ro = m.ro()
	}
	m.add(op)
	if !b.opq {
		m.ctl = append(m.ctl, append([]seg{}, b.msg...))
	}
}

// prefix is something to append a digest to.
func (m *sim) prefix() []byte {
	n := []int{0, m.r.IntN(9), m.r.IntN(9), 20, 43 + m.r.IntN(40), 64, 200}[m.r.IntN(7)]
	switch m.r.IntN(400) {
	case 0:
		n = 66000 + m.r.IntN(100)
	case 1, 2, 3, 4, 5, 6, 7, 8, 9, 10:
		n = 250 + m.r.IntN(250<<m.r.IntN(6))
	}
	return (&scn.Stream{Kind: "rand", Seed: m.r.Uint64(), Len: n}).Bytes()
}

func (m *sim) reset(o int) {
	m.objs[o] = &sobj{o: ref.New(), cur: -1}
	m.add(scn.Op{Op: "reset", O: o})
}

func (m *sim) marshal(o, slot int) {
	b := *m.objs[o]
	b.msg = append([]seg{}, b.msg...)
	m.slots[slot] = &b
	m.add(scn.Op{Op: "marshal", O: o, Slot: slot, Cap: m.r.IntN(2)})
}

func (m *sim) restore(o, slot int) {
	c := *m.slots[slot]
	c.o.X = append([]byte{}, c.o.X...)
	c.msg = append([]seg{}, c.msg...)
	c.cur = -1
	m.objs[o] = &c
	m.add(scn.Op{Op: "unmarshal", O: o, Slot: slot, Exp: "ok", Ro: m.ro()})
}

// restoreRaw restores a made-up state.
func (m *sim) restoreRaw(o int, b []byte) {
	op := scn.Op{Op: "unmarshal", O: o, B: b, Exp: "bad", Cap: m.r.IntN(2), Ro: m.ro()}
	c := *m.objs[o]
	if c.o.Unmarshal(b) {
		op.Exp = "ok"
		c.msg, c.opq, c.cur, c.plan = nil, true, -1, nil
		m.objs[o] = &c
	}
	m.add(op)
}

// goodState makes a state, often the object's own.
func (m *sim) goodState(o int) []byte {
	good := m.objs[o].o.Marshal()
	switch m.r.IntN(6) {
	case 0: // with the other verdict
		good[5] ^= 3
	case 1:
		return craft(m.r, m.r.IntN(200))
	case 2: // another place in another message
		n := m.r.IntN(200)
		x := ref.New()
		x.Write(m.env, (&scn.Stream{Kind: "rand", Seed: m.r.Uint64(), Len: n}).Bytes())
		x.Col = m.r.IntN(2) == 0
		return x.Marshal()
	}
	return good
}

// badState makes something that is not a marshaled state.
func (m *sim) badState(o int) []byte {
	good := m.goodState(o)
	switch m.r.IntN(9) {
	case 0:
		return good[:m.r.IntN(len(good))]
	case 1:
		return append(good, randBlock(m.r)[:1+m.r.IntN(30)]...)
	case 2:
		good[m.r.IntN(6)] ^= 1 << m.r.IntN(8)
		if ref.IsState(good) {
			good[5] = 0
		}
		return good
	case 3:
		return nil
	case 4:
		return []byte(good[:6])
	case 5:
		copy(good, "sha\x01sh")
		return good
	case 6:
		good[5] = []byte{0, 3, 4, 0x81, 0xff}[m.r.IntN(5)]
		return good
	case 7: // the standard library's format
		return append([]byte("sha\x01"), good[6:]...)
	}
	return good[:len(good)-1]
}

// probe looks at an object, continues its message and looks again.
func (m *sim) probe(o int) {
	m.observe(o, "crsum")
	if m.r.IntN(4) == 0 {
		m.add(scn.Op{Op: "consts", O: o})
	}
	b := m.objs[o]
	m.write(o, m.next(b, 64+m.r.IntN(70), func(int) bool { return m.r.IntN(4) == 0 }))
	m.observe(o, "crsum")
}

// padHit extends o's message by n whole blocks and fill bytes such that the
// first block that padding completes is an attack block.
func (m *sim) padHit(o, n, fill int) bool { return m.padNear(o, n, fill, ref.State{}) }

// padNear does the same and misses by miss.
func (m *sim) padNear(o, n, fill int, miss ref.State) bool {
	b := m.objs[o]
	if n > 0 {
		p := m.next(b, 64*n-len(b.o.X), nil)
		m.write(o, p)
	}
	if len(b.o.X) > 0 {
		return false
	}
	total := b.o.Len + uint64(fill)
	pad := ref.Pad(total)
	blk := make([]byte, 64)
	copy(blk[fill:], pad)
	for try := 0; try < 60; try++ {
		k := m.r.IntN(32)
		if m.used[k] {
			continue
		}
		x, ok := m.solve(blk, 0, fill, k)
		if !ok {
			continue
		}
		m.arm(k, b.o.H, x, miss)
		b.plan = nil
		m.write(o, x[:fill])
		return true
	}
	return false
}

// control appends fresh computations of the messages looked at.
func (m *sim) control() {
	seen := map[string]bool{}
	for _, c := range m.ctl {
		key := fmt.Sprint(c)
		if seen[key] || len(seen) > 6 {
			continue
		}
		seen[key] = true
		o := 90 + len(seen)
		m.s.Post = append(m.s.Post, scn.Op{Op: "new", O: o})
		for _, g := range c {
			m.s.Post = append(m.s.Post, scn.Op{Op: "write", O: o, S: g.s, F: g.f, T: g.t})
		}
		m.s.Post = append(m.s.Post, scn.Op{Op: "crsum", O: o})
	}
	m.s.Post = append(m.s.Post, scn.Op{Op: "recheck"})
}

func (m *sim) done() scn.Scn {
	m.control()
	return m.s
}

func be64(n uint64) []byte { return binary.BigEndian.AppendUint64(nil, n) }
