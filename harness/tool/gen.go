package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"

	"verif/harness/ref"
	"verif/harness/scn"
)

type gen struct {
	t        *ref.Tables
	seed     uint64
	backends []string
	n        int     // how many scenarios of a family, roughly
	hist     [][]hop // histories from TLC
	repo     string
	emit     func(scn.Scn)
	seq      int
}

// hop is a step of a history printed by Gen.tla.
type hop struct {
	Op          string
	O, N, Fill  int
	First, Last int
}

func (g *gen) rng(parts ...any) *rand.Rand {
	h := g.seed*0x9e3779b97f4a7c15 + 1
	for _, c := range fmt.Sprint(parts...) {
		h = (h ^ uint64(c)) * 0x100000001b3
	}
	return rand.New(rand.NewPCG(g.seed, h))
}

func (g *gen) out(m *sim) {
	if len(m.s.Ops) > 0 {
		g.outScn(m.done())
	}
}

// outScn emits a scenario once for every backend.
func (g *gen) outScn(s scn.Scn) {
	s.Grp = s.ID
	for _, b := range g.backends {
		c := s
		c.ID, c.Backend = s.ID+"/"+b, b
		g.emit(c)
	}
}

func (g *gen) each(fam string, n int, f func(m *sim, i int)) {
	for i := 0; i < n; i++ {
		m := newSim(g.rng(fam, i), g.t, fmt.Sprintf("%s-%d", fam, i))
		f(m, i)
		g.out(m)
	}
}

// chunks cuts [0,n) into pieces in one of several styles.
func chunks(r *rand.Rand, n, style int) []int {
	var cut []int
	switch style {
	case 0: // all at once
	case 1: // two pieces anywhere
		if n > 0 {
			cut = append(cut, r.IntN(n+1))
		}
	case 2: // around block boundaries
		for p := 64; p-1 <= n; p += 64 {
			if q := p + r.IntN(3) - 1; q <= n {
				cut = append(cut, q)
			}
		}
	case 3: // many small ones
		for p := 0; p < n; p += 1 + r.IntN(40) {
			cut = append(cut, p)
		}
	case 4: // byte by byte, at first
		for p := 1; p < n && p < 70; p++ {
			cut = append(cut, p)
		}
	case 5: // large after a little
		if n > 1 {
			cut = append(cut, 1+r.IntN(min(n-1, 63)))
		}
	case 6: // with empty writes
		p := 0
		for p < n {
			cut = append(cut, p, p)
			p += 1 + r.IntN(100)
		}
	case 7: // a few random ones
		for i := 0; i < 3 && n > 0; i++ {
			cut = append(cut, r.IntN(n+1))
		}
		for i := range cut {
			for j := range cut {
				if i < j && cut[i] > cut[j] {
					cut[i], cut[j] = cut[j], cut[i]
				}
			}
		}
	}
	return append(cut, n)
}

func (m *sim) writeChunks(o, s, n, style int) {
	f := 0
	for _, t := range chunks(m.r, n, style) {
		m.writeSeg(o, s, f, t)
		f = t
	}
}

func contentKind(r *rand.Rand) string {
	return []string{"rand", "rand", "rand", "rand", "zero", "ff", "inc", "pad"}[r.IntN(8)]
}

// Plain messages: every length up to a few blocks, several contents and
// chunkings, by all three ways of hashing.
func (g *gen) plain() {
	g.each("plain", g.n, func(m *sim, i int) {
		n := i % 200
		if i >= 200 {
			n = m.r.IntN(700)
		}
		m.s.Streams = []scn.Stream{{Kind: contentKind(m.r), Seed: m.r.Uint64(), Len: n}}
		m.newObj(1)
		m.writeChunks(1, 0, n, m.r.IntN(8))
		m.observe(1, "crsum")
		m.observe(1, "sum")
		m.add(scn.Op{Op: "oneshot", S: 0, F: 0, T: n, Cap: 1})
	})
}

// Words chosen at the extremes, for arithmetic and byte order.
func (g *gen) extremes() {
	vals := []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x00ff00ff, 0x01020304, 0xfffffffe, 0x5A827999, 0x00000080}
	g.each("extreme", g.n, func(m *sim, i int) {
		var w [16]uint32
		for j := range w {
			switch m.r.IntN(3) {
			case 0:
				w[j] = vals[m.r.IntN(len(vals))]
			case 1:
				w[j] = 1 << m.r.IntN(32)
			default:
				w[j] = m.r.Uint32()
			}
		}
		m.newObj(1)
		m.write(1, ref.BytesOf(w))
		m.write(1, randBlock(m.r)[:m.r.IntN(64)])
		m.observe(1, "crsum")
	})
}

// Longer messages without attack blocks.
func (g *gen) large() {
	sizes := []int{1023, 4096, 4097, 8191, 16384, 32768 + 1, 65535, 65536, 65537, 131072, 1 << 20, 1<<20 + 63, 3 << 20, 10_000_000}
	g.each("large", g.n, func(m *sim, i int) {
		n := sizes[i%len(sizes)]
		if i >= len(sizes) { // of all magnitudes
			n = 500 + m.r.IntN(500<<m.r.IntN(12))
		}
		m.s.Streams = []scn.Stream{{Kind: "rand", Seed: m.r.Uint64(), Len: n}}
		for o := 1; o <= 3; o++ {
			m.add(scn.Op{Op: "new", O: o})
			var cs []int
			switch {
			case o == 1:
				cs = []int{n}
			case o == 2:
				cs = chunks(m.r, n, 5)
			default:
				for p := 0; p < n; {
					p += 1 + m.r.IntN(n/3+1)
					cs = append(cs, min(p, n))
				}
			}
			f := 0
			for _, t := range cs {
				m.add(scn.Op{Op: "write", O: o, S: 0, F: f, T: t})
				f = t
			}
			m.add(scn.Op{Op: "crsum", O: o})
		}
		m.add(scn.Op{Op: "oneshot", S: 0, F: 0, T: n})
	})
}

// Histories made by TLC.
func (g *gen) histories(tag string, keep int) {
	idx := make([]int, len(g.hist))
	for i := range idx {
		idx[i] = i
	}
	r := g.rng("hist", tag)
	r.Shuffle(len(idx), func(i, j int) { idx[i], idx[j] = idx[j], idx[i] })
	if keep < len(idx) {
		idx = idx[:keep]
	}
	for _, i := range idx {
		m := newSim(g.rng("hist", tag, i), g.t, fmt.Sprintf("hist%s-%d", tag, i))
		m.history(g.hist[i])
		g.out(m)
	}
}

func (m *sim) history(h []hop) {
	m.newObj(1)
	two := false
	for _, s := range h {
		two = two || s.O == 2
	}
	if two {
		m.newObj(2)
	}
	for _, s := range h {
		switch s.Op {
		case "write":
			b := m.objs[s.O]
			n := 64*s.N + s.Fill - len(b.o.X)
			if n < 0 {
				n = 0
			}
			last := s.N - 1
			m.write(s.O, m.next(b, n, func(i int) bool {
				return i == 0 && s.First == 1 || i == last && s.Last == 1
			}))
		case "padhit":
			n := s.N
			if len(m.objs[s.O].o.X) > 0 {
				n = 1
			}
			m.padHit(s.O, n, s.Fill)
			m.observe(s.O, "crsum")
		case "sum", "crsum":
			m.observe(s.O, s.Op)
		case "reset":
			m.reset(s.O)
		case "marshal":
			m.marshal(s.O, 1)
		case "restore":
			if m.slots[1] != nil {
				m.restore(s.O, 1)
			}
		case "badrestore":
			m.restoreRaw(s.O, m.badState(s.O))
		}
	}
	m.probe(1)
	if two {
		m.probe(2)
	}
}

// Longer random histories on up to three objects.
func (g *gen) random() {
	g.each("rnd", g.n, func(m *sim, i int) {
		no := 1 + m.r.IntN(3)
		for o := 1; o <= no; o++ {
			m.newObj(o)
		}
		steps := 4 + m.r.IntN(14)
		hitRate := m.r.IntN(4)
		noCkpt := m.r.IntN(3) == 0
		for s := 0; s < steps; s++ {
			o := 1 + m.r.IntN(no)
			b := m.objs[o]
			if m.r.IntN(40) == 0 {
				m.add(scn.Op{Op: "gc"})
			}
			c := m.r.IntN(16)
			if noCkpt && c >= 11 {
				c = m.r.IntN(11)
			}
			switch {
			case c < 6:
				n := []int{0, 1, 8, 55 - len(b.o.X), 56 - len(b.o.X), 63 - len(b.o.X), 64 - len(b.o.X), 64, 65, 127, 128, 129, m.r.IntN(300)}[m.r.IntN(13)]
				m.write(o, m.next(b, max(n, 0), func(int) bool { return m.r.IntN(8) < hitRate }))
			case c == 6:
				m.observe(o, "sum")
			case c < 9:
				m.observe(o, "crsum")
			case c == 9:
				m.reset(o)
			case c == 10:
				m.padHit(o, 1, 40+m.r.IntN(16))
				m.observe(o, "crsum")
			case c == 11 || c == 12:
				m.marshal(o, 1+m.r.IntN(2))
			case c == 13 || c == 14:
				if s := 1 + m.r.IntN(2); m.slots[s] != nil {
					m.restore(o, s)
				}
			default:
				m.restoreRaw(o, m.badState(o))
			}
		}
		for o := 1; o <= no; o++ {
			m.probe(o)
		}
	})
}

// One attack block per scenario: every DV, in different places of the
// message, written in different ways.
func (g *gen) hits() {
	g.each("hit", g.n, func(m *sim, i int) {
		k := i % 32
		before := m.r.IntN(4)
		after := m.r.IntN(3)
		tail := m.r.IntN(64)
		if i/32%4 == 0 {
			before = 0
		}
		o := ref.New()
		var msg []byte
		put := func(b []byte) { msg = append(msg, b...); o.Write(m.env, b) }
		for j := 0; j < before; j++ {
			put(randBlock(m.r))
		}
		var also []int
		if m.r.IntN(3) == 0 {
			also = append(also, m.r.IntN(32))
		}
		blk, ok := m.qualify(k, nil, also...)
		if !ok {
			blk, _ = m.qualify(k, nil)
		}
		switch i / 32 % 5 {
		case 1: // together with as many others as possible
			blk = m.crowded(k)
		case 3:
			blk = m.odd(k)
		}
		m.arm(k, o.H, blk, ref.State{})
		if m.r.IntN(3) == 0 {
			m.armMore(o.H, blk)
		}
		put(blk)
		if m.r.IntN(3) == 0 { // straight after it, another
			if k2 := m.pickDv(); k2 >= 0 {
				if b2, ok := m.qualify(k2, nil); ok {
					m.arm(k2, o.H, b2, ref.State{})
					put(b2)
				}
			}
		}
		for j := 0; j < after; j++ {
			put(randBlock(m.r))
		}
		put(randBlock(m.r)[:tail])
		m.newObj(1)
		m.s.Streams = []scn.Stream{{Kind: "lit", Lit: msg}}
		m.writeChunks(1, 0, len(msg), m.r.IntN(8))
		m.observe(1, "crsum")
		m.observe(1, "sum")
		m.add(scn.Op{Op: "oneshot", S: 0, F: 0, T: len(msg)})
	})
}

// Blocks that meet the conditions of a DV, and whose companion ends in
// almost, but not quite, the same chaining value.
func (g *gen) nearMiss() {
	g.each("near", g.n, func(m *sim, i int) {
		k := i % 32
		word := i / 32 % 5
		miss := m.miss(word)
		o := ref.New()
		var msg []byte
		put := func(b []byte) { msg = append(msg, b...); o.Write(m.env, b) }
		for j := m.r.IntN(3); j > 0; j-- {
			put(randBlock(m.r))
		}
		blk, _ := m.qualify(k, nil)
		switch m.r.IntN(6) {
		case 0:
			blk = m.crowded(k)
		case 1:
			blk = m.odd(k)
		}
		m.arm(k, o.H, blk, miss)
		put(blk)
		put(randBlock(m.r)[:m.r.IntN(64)])
		m.newObj(1)
		m.s.Streams = []scn.Stream{{Kind: "lit", Lit: msg}}
		m.writeChunks(1, 0, len(msg), m.r.IntN(8))
		m.observe(1, "crsum")
		m.add(scn.Op{Op: "oneshot", S: 0, F: 0, T: len(msg)})
	})
}

// miss is a small difference between chaining values.
func (m *sim) miss(word int) (d ref.State) {
	switch m.r.IntN(4) {
	case 0:
		d[word] = 0x80000000
	case 1:
		d[word] = 1
	case 2:
		d[word] = 1 << m.r.IntN(32)
	default: // the same word twice cancels in a sloppy comparison
		d[word] = 1 << m.r.IntN(32)
		d[(word+1+m.r.IntN(4))%5] = d[word]
	}
	return
}

// The same in a block that only padding completes, on objects with a past
// or without.
func (g *gen) padMiss() {
	g.each("padnear", g.n, func(m *sim, i int) {
		m.newObj(1)
		if m.r.IntN(4) == 0 {
			m.write(1, m.next(m.objs[1], m.r.IntN(100), func(int) bool { return m.r.IntN(2) == 0 }))
			m.observe(1, "crsum")
			m.reset(1)
		}
		if !m.padNear(1, m.r.IntN(3), 16+i%48, m.miss(i%5)) {
			return
		}
		m.observe(1, "crsum")
		m.observe(1, "crsum")
		if c := m.objs[1].cur; c >= 0 {
			m.add(scn.Op{Op: "oneshot", S: c, F: 0, T: len(m.s.Streams[c].Lit)})
		}
		m.write(1, randBlock(m.r)[:1+m.r.IntN(63)])
		m.observe(1, "crsum")
	})
}

// Many sums in one call, one after the other.
func (g *gen) shots() {
	g.each("shots", g.n, func(m *sim, i int) {
		m.newObj(1)
		m.newObj(2)
		m.write(1, m.next(m.objs[1], 64+m.r.IntN(200), func(int) bool { return m.r.IntN(2) == 0 }))
		m.write(2, m.next(m.objs[2], m.r.IntN(200), nil))
		m.newObj(3)
		m.padHit(3, m.r.IntN(2), 20+m.r.IntN(44))
		m.newObj(4)
		m.s.Streams = append(m.s.Streams, scn.Stream{Kind: "rand", Seed: m.r.Uint64(), Len: 300 + m.r.IntN(3000)})
		var real []int
		for _, f := range []string{"shattered-1.pdf", "sha-mbles-1.bin"} {
			if b, err := os.ReadFile(filepath.Join(g.repo, "test/testdata/files", f)); err == nil {
				real = append(real, len(m.s.Streams))
				m.s.Streams = append(m.s.Streams, scn.Stream{Kind: "lit", Lit: b[:min(len(b), 640)]})
			}
		}
		for o := 1; o <= 3; o++ {
			m.add(scn.Op{Op: "crsum", O: o})
		}
		m.add(scn.Op{Op: "crsum", O: 4}) // of the empty message
		for j := 6 + m.r.IntN(20); j > 0; j-- {
			s := m.r.IntN(len(m.s.Streams))
			if len(real) > 0 && m.r.IntN(6) == 0 {
				s = real[m.r.IntN(len(real))]
			}
			n := len(m.s.Streams[s].Bytes())
			op := scn.Op{Op: "oneshot", S: s, F: 0, T: n}
			switch m.r.IntN(6) {
			case 0: // nothing, from wherever
				op.F = m.r.IntN(n + 1)
				op.T = op.F
				op.Cap = m.r.IntN(2)
			case 1:
				op.T = m.r.IntN(n + 1)
			case 2:
				op.F = m.r.IntN(n + 1)
			}
			if m.r.IntN(5) == 0 {
				op.Rep = 1 + m.r.IntN(20)
			}
			m.add(op)
			if m.r.IntN(5) == 0 { // as many bytes of other streams, at once
				for k := 4; k > 0; k-- {
					s := m.r.IntN(len(m.s.Streams))
					if n, have := op.T-op.F, len(m.s.Streams[s].Bytes()); n <= have {
						f := m.r.IntN(have - n + 1)
						m.add(scn.Op{Op: "oneshot", S: s, F: f, T: f + n})
					}
				}
			}
			switch m.r.IntN(16) {
			case 0:
				m.add(scn.Op{Op: "crsum", O: 1 + m.r.IntN(4)})
			case 1:
				m.add(scn.Op{Op: "gc"})
			case 2: // the same by the other way
				m.add(scn.Op{Op: "rehash", S: op.S, F: op.F, T: op.T, Step: m.r.IntN(100)})
			}
		}
	})
}

// Threads that do little else than hash, again and again.
func (g *gen) hot() {
	g.each("hot", g.n, func(m *sim, i int) {
		for j := 0; j < 3; j++ {
			m.newObj(j + 1)
			m.write(j+1, m.next(m.objs[j+1], 64+m.r.IntN(200), func(int) bool { return i%2 == 0 && m.r.IntN(2) == 0 }))
			m.add(scn.Op{Op: "crsum", O: j + 1})
		}
		m.s.Streams = append(m.s.Streams, scn.Stream{Kind: "rand", Seed: m.r.Uint64(), Len: m.r.IntN(60)},
			scn.Stream{Kind: "rand", Seed: m.r.Uint64(), Len: 256})
		for _, f := range []string{"shattered-1.pdf", "sha-mbles-1.bin"} {
			if b, err := os.ReadFile(filepath.Join(g.repo, "test/testdata/files", f)); err == nil {
				m.s.Streams = append(m.s.Streams, scn.Stream{Kind: "lit", Lit: b[:min(len(b), 640)]})
			}
		}
		for j := 0; j < 8; j++ {
			var ops []scn.Op
			for _, s := range m.r.Perm(len(m.s.Streams)) {
				n := len(m.s.Streams[s].Bytes())
				op := scn.Op{Op: "oneshot", S: s, F: 0, T: n, Rep: 1500}
				if m.r.IntN(2) == 0 {
					op.Op, op.Step = "rehash", 1+m.r.IntN(200)
				}
				ops = append(ops, op)
				// and look at the same objects all the time
				x := scn.Op{Op: []string{"crsum", "sum", "marshal"}[m.r.IntN(3)], O: 1 + m.r.IntN(3), Rep: 1500}
				if x.Op == "marshal" {
					x.Slot = 10*j + s + 1
				}
				ops = append(ops, x)
			}
			m.s.Par = append(m.s.Par, ops)
		}
	})
}

// Messages whose blocks meet the conditions of as many DVs as possible,
// with the real table: all must come out clean.
func (g *gen) condOnly() {
	g.each("cond", g.n, func(m *sim, i int) {
		m.newObj(1)
		var msg []byte
		for j := 0; j < 3; j++ {
			k := (i + 11*j) % 32
			msg = append(msg, m.crowded(k)...)
		}
		m.write(1, msg)
		m.observe(1, "crsum")
	})
}

// Attack blocks that only padding completes.
func (g *gen) padHits() {
	g.each("padhit", g.n, func(m *sim, i int) {
		m.newObj(1)
		// With 56 or more bytes the padding takes a second block.
		if !m.padHit(1, m.r.IntN(3), 16+i%48) {
			return
		}
		m.observe(1, "crsum")
		m.observe(1, "sum")
		m.observe(1, "crsum")
		if len(m.s.Streams) == 1 {
			m.add(scn.Op{Op: "oneshot", S: 0, F: 0, T: len(m.s.Streams[0].Lit)})
		}
		if m.r.IntN(2) == 0 {
			m.marshal(1, 1)
			m.newObj(2)
			m.restore(2, 1)
			m.observe(2, "crsum")
			m.write(2, randBlock(m.r))
			m.observe(2, "crsum")
		}
		m.write(1, randBlock(m.r)[:1+m.r.IntN(63)])
		m.observe(1, "crsum")
		if m.r.IntN(2) == 0 {
			m.reset(1)
			m.observe(1, "crsum")
		}
	})
}

// Recorded attacks.
func (g *gen) attacks() {
	dir := filepath.Join(g.repo, "test/testdata/files")
	var files []string
	for _, f := range []string{"shattered-1.pdf", "shattered-2.pdf", "sha-mbles-1.bin", "sha-mbles-2.bin"} {
		if _, err := os.Stat(filepath.Join(dir, f)); err == nil {
			files = append(files, f)
		}
	}
	if len(files) == 0 {
		return
	}
	g.each("attack", g.n, func(m *sim, i int) {
		b, err := os.ReadFile(filepath.Join(dir, files[i%len(files)]))
		if err != nil {
			panic(err)
		}
		n := min(len(b), 640)
		if m.r.IntN(2) == 0 {
			n = 200 + m.r.IntN(n-200)
		}
		msg := append([]byte{}, b[:n]...)
		switch m.r.IntN(4) {
		case 0: // damaged
			msg[m.r.IntN(n)] ^= 1 << m.r.IntN(8)
		case 1:
			msg = append(msg, randBlock(m.r)...)
		}
		m.newObj(1)
		m.s.Streams = []scn.Stream{{Kind: "lit", Lit: msg}}
		f := 0
		for _, t := range chunks(m.r, len(msg), m.r.IntN(8)) {
			m.writeSeg(1, 0, f, t)
			f = t
			if m.r.IntN(6) == 0 {
				m.observe(1, "crsum")
			}
		}
		m.observe(1, "crsum")
		m.add(scn.Op{Op: "oneshot", S: 0, F: 0, T: len(msg)})
	})
}

// The two messages of a recorded attack have to end up with different
// digests; written as one scenario so that a reader sees both.
func (g *gen) pairs() {
	dir := filepath.Join(g.repo, "test/testdata/files")
	for _, p := range [][2]string{{"shattered-1.pdf", "shattered-2.pdf"}, {"sha-mbles-1.bin", "sha-mbles-2.bin"}} {
		m := newSim(g.rng("pair", p), g.t, "pair-"+p[0])
		for i, f := range p {
			d, err := os.ReadFile(filepath.Join(dir, f))
			if err != nil {
				return
			}
			d = d[:min(len(d), 640)]
			m.newObj(i + 1)
			m.write(i+1, d)
			m.observe(i+1, "crsum")
		}
		g.out(m)
	}
}

// Checkpoints at every length, restored on receivers with a past.
func (g *gen) checkpoints() {
	g.each("ckpt", g.n, func(m *sim, i int) {
		n := i % 200
		hit := m.r.IntN(3) == 0
		m.newObj(1)
		b := m.objs[1]
		m.write(1, m.next(b, n, func(int) bool { return hit && m.r.IntN(2) == 0 }))
		m.marshal(1, 1)
		if m.r.IntN(2) == 0 {
			m.observe(1, "crsum")
			m.marshal(1, 1)
		}
		m.newObj(2)
		switch m.r.IntN(5) {
		case 4: // that has hashed and summed another message of that length
			m.write(2, m.next(m.objs[2], n, func(int) bool { return m.r.IntN(4) == 0 }))
			m.observe(2, []string{"sum", "crsum"}[m.r.IntN(2)])
		case 0: // fresh
		case 1: // with a clean past
			m.write(2, randBlock(m.r)[:m.r.IntN(64)])
		case 2: // that has seen a collision
			m.write(2, m.next(m.objs[2], 64+m.r.IntN(64), func(int) bool { return true }))
		case 3: // that was restored before, and reset
			m.restore(2, 1)
			m.write(2, randBlock(m.r)[:m.r.IntN(64)])
			m.reset(2)
		}
		m.restore(2, 1)
		if m.r.IntN(2) == 0 {
			m.marshal(2, 2)
		}
		m.observe(2, []string{"sum", "crsum"}[m.r.IntN(2)])
		// Both go on, with the same bytes.
		p := m.next(m.objs[1], m.r.IntN(200), func(int) bool { return m.r.IntN(5) == 0 })
		m.write(1, p)
		g0 := m.s.Ops[len(m.s.Ops)-1]
		m.writeSeg(2, g0.S, g0.F, g0.T)
		m.observe(1, "crsum")
		m.observe(2, "crsum")
		m.marshal(1, 3)
		m.marshal(2, 4)
	})
}

// Things that are not checkpoints.
func (g *gen) malformed() {
	g.each("bad", g.n, func(m *sim, i int) {
		m.newObj(1)
		m.write(1, m.next(m.objs[1], m.r.IntN(140), func(int) bool { return m.r.IntN(3) == 0 }))
		good := m.goodState(1)
		var b []byte
		switch {
		case i < 98: // every truncation
			b = good[:i]
		case i < 98+64: // every wrong bit of the identifier
			j := i - 98
			b = append([]byte{}, good...)
			if j/8 < 6 {
				b[j/8] ^= 1 << (j % 8)
				if ref.IsState(b) {
					b[5] = 0xff
				}
			} else {
				b = append(b, make([]byte, 1+j-48)...)
			}
		case i < 98+64+8: // much too long
			b = append(append([]byte{}, good...), make([]byte, []int{64, 98, 100, 158, 256, 4096, 65536, 1 << 20}[i-98-64])...)
		default:
			b = m.badState(1)
		}
		m.observe(1, "crsum")
		m.restoreRaw(1, b)
		m.observe(1, "crsum")
		m.marshal(1, 1)
		m.write(1, m.next(m.objs[1], m.r.IntN(140), nil))
		m.observe(1, "crsum")
	})
}

// Well-formed states with arbitrary contents, and lengths of every
// magnitude.
func (g *gen) crafted() {
	g.each("craft", g.n, func(m *sim, i int) {
		m.newObj(1)
		if m.r.IntN(3) == 0 {
			m.write(1, randBlock(m.r)[:m.r.IntN(64)])
		}
		m.restoreRaw(1, craft(m.r, i))
		m.observe(1, "crsum")
		m.write(1, m.next(m.objs[1], []int{0, 1, 63, 64, 65, m.r.IntN(200)}[m.r.IntN(6)], func(int) bool { return m.r.IntN(6) == 0 }))
		m.observe(1, "crsum")
		m.marshal(1, 1)
		m.newObj(2)
		m.restoreRaw(2, m.objs[1].o.Marshal())
		m.observe(2, "crsum")
		if m.r.IntN(2) == 0 { // across the next boundary, perhaps
			m.write(2, m.next(m.objs[2], 64+m.r.IntN(100), func(int) bool { return m.r.IntN(6) == 0 }))
			m.observe(2, "crsum")
			m.marshal(2, 2)
		}
		if m.r.IntN(3) == 0 {
			m.padHit(1, 1, 40+m.r.IntN(16))
			m.observe(1, "crsum")
		}
	})
}

func craft(r *rand.Rand, i int) []byte {
	b := []byte("shacd\x01")
	if r.IntN(5) < 2 {
		b[5] = 2
	}
	for j := 0; j < 5; j++ {
		v := r.Uint32()
		if i/65%3 == 1 {
			v = []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, v}[r.IntN(6)]
		}
		b = append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	}
	x := randBlock(r)
	var n uint64
	pow := uint(i % 65)
	if pow == 64 {
		n = 0
	} else {
		n = 1 << pow
	}
	switch r.IntN(4) {
	case 3: // exactly
	case 0:
		n += r.Uint64N(260) - 130
	case 1:
		n += r.Uint64() & (n - 1)
	case 2:
		n -= 1 + r.Uint64N(64)
	}
	// Bytes behind the buffered ones may be anything.
	if r.IntN(2) == 0 {
		for j := n % 64; j < 64; j++ {
			x[j] = 0
		}
	}
	b = append(b, x...)
	return append(b, be64(n)...)
}

// Expanded messages around every single condition of every DV.
func (g *gen) masks() {
	r := g.rng("mask")
	for round := 0; round < g.n; round++ {
		for k := 0; k < 32; k++ {
			m := newSim(r, g.t, fmt.Sprintf("mask-%d-%d", round, k))
			add := func(w [16]uint32) { m.add(scn.Op{Op: "mask", W: ref.BytesOf(w)}) }
			all := [16]uint32{}
			for j := range all {
				all[j] = 0xffffffff
			}
			for flip := -1; flip < len(g.t.Conds[k]); flip++ {
				if w, ok := ref.Solve(r, [16]uint32{}, all, g.t.CondsOf(k, flip)); ok {
					add(w)
				}
			}
			// with another DV
			for j := 0; j < 4; j++ {
				c := append(g.t.CondsOf(k, -1), g.t.CondsOf(r.IntN(32), -1)...)
				if w, ok := ref.Solve(r, [16]uint32{}, all, c); ok {
					add(w)
				}
			}
			// one bit away
			if w, ok := ref.Solve(r, [16]uint32{}, all, g.t.CondsOf(k, -1)); ok {
				for j := 0; j < 4; j++ {
					v := w
					v[r.IntN(16)] ^= 1 << r.IntN(32)
					add(v)
				}
			}
			if k == 0 {
				add([16]uint32{})
				add(all)
			}
			var w [16]uint32
			for j := range w {
				w[j] = r.Uint32()
			}
			add(w)
			g.outScn(m.s)
		}
	}
}

func (g *gen) tables() {
	m := newSim(g.rng("dvs"), g.t, "dvs")
	m.add(scn.Op{Op: "dvs"})
	// hashing does not disturb the table
	m.newObj(1)
	m.write(1, m.next(m.objs[1], 300, nil))
	m.observe(1, "crsum")
	m.add(scn.Op{Op: "dvs"})
	g.outScn(m.s)
	// whatever it meets
	for i := 0; i < 8; i++ {
		m := newSim(g.rng("dvs", i), g.t, fmt.Sprintf("dvs-%d", i))
		m.newObj(1)
		for k := i; k < 32; k += 8 {
			m.write(1, m.crowded(k))
		}
		m.write(1, m.crowded(i)[:m.r.IntN(64)])
		m.observe(1, "crsum")
		m.marshal(1, 1)
		m.newObj(2)
		m.restore(2, 1)
		m.observe(2, "sum")
		m.add(scn.Op{Op: "dvs"})
		f := []string{"shattered-1.pdf", "sha-mbles-1.bin", "shattered-2.pdf", "sha-mbles-2.bin"}[i%4]
		if b, err := os.ReadFile(filepath.Join(g.repo, "test/testdata/files", f)); err == nil {
			m.newObj(3)
			m.write(3, b[:min(len(b), 640)])
			m.observe(3, "crsum")
			m.observe(3, "sum")
			c := m.objs[3].cur
			m.add(scn.Op{Op: "oneshot", S: c, F: 0, T: len(m.s.Streams[c].Lit)})
			m.add(scn.Op{Op: "dvs"})
			m.reset(3)
			m.write(3, b[:min(len(b), 300)])
			m.observe(3, "crsum")
		}
		var w [16]uint32
		for j := range w {
			w[j] = m.r.Uint32()
		}
		m.add(scn.Op{Op: "mask", W: ref.BytesOf(w)})
		m.add(scn.Op{Op: "gc"})
		m.add(scn.Op{Op: "dvs"})
		g.outScn(m.s)
	}
}

// One armed DV each, to see whether substituting the table has any effect.
func (g *gen) calibrate() {
	for k := 0; k < 32; k++ {
		m := newSim(g.rng("cal", k), g.t, fmt.Sprintf("cal-%d", k))
		m.newObj(1)
		for j := k % 5; j > 0; j-- {
			m.write(1, randBlock(m.r))
		}
		blk, _ := m.qualify(k, nil)
		m.arm(k, m.objs[1].o.H, blk, ref.State{})
		if k%3 == 0 {
			m.write(1, blk[:k])
			m.write(1, blk[k:])
		} else {
			m.write(1, blk)
		}
		m.add(scn.Op{Op: "crsum", O: 1})
		if len(m.s.Streams) == 1 {
			m.add(scn.Op{Op: "oneshot", S: 0, F: 0, T: len(m.s.Streams[0].Lit)})
		}
		g.outScn(m.s)
	}
}

// Every combination of buffered bytes and length of a write.
func (g *gen) splits() {
	g.each("split", g.n, func(m *sim, i int) {
		nx := i % 64
		m.newObj(1)
		hit := i%2 == 0
		m.write(1, m.next(m.objs[1], 128+m.r.IntN(128), func(j int) bool { return hit && (j+i/2)%2 == 0 }))
		m.add(scn.Op{Op: "crsum", O: 1})
		total := len(m.s.Streams[0].Lit)
		for n := 0; n <= 130 && nx+n <= total; n++ {
			// On new objects and, in turn, on one that is reset.
			o := 2
			if n%2 == 0 {
				o = 10 + n
			}
			if n == 1 || n%2 == 0 {
				m.add(scn.Op{Op: "new", O: o})
			} else {
				m.add(scn.Op{Op: "reset", O: o})
			}
			m.add(scn.Op{Op: "write", O: o, S: 0, F: 0, T: nx})
			m.add(scn.Op{Op: "write", O: o, S: 0, F: nx, T: nx + n})
			if m.r.IntN(8) == 0 {
				m.add(scn.Op{Op: "sum", O: o})
			}
			m.add(scn.Op{Op: "write", O: o, S: 0, F: nx + n, T: total})
			m.add(scn.Op{Op: "crsum", O: o})
		}
	})
}

// The same block met with several chaining values, with one of which it is
// an attack block: within a message, and by different objects.
func (g *gen) twice() {
	g.each("twice", g.n, func(m *sim, i int) {
		k := i % 32
		blk, _ := m.qualify(k, nil)
		m.newObj(1)
		m.newObj(2)
		// Before it becomes one...
		first := m.r.IntN(2) == 0
		if first {
			m.write(1, blk)
			if m.r.IntN(2) == 0 {
				m.observe(1, "crsum")
			}
		}
		for j := m.r.IntN(3); j > 0; j-- {
			m.write(1, randBlock(m.r))
		}
		if m.r.IntN(3) > 0 {
			m.write(1, blk) // with a successor that differs in the chaining value only
		}
		m.arm(k, m.objs[1].o.H, blk, ref.State{})
		m.write(1, blk)
		if m.r.IntN(2) == 0 {
			m.observe(1, "crsum")
		}
		// ...and after.
		m.write(1, blk)
		m.observe(1, "crsum")
		m.write(2, randBlock(m.r))
		m.write(2, blk)
		m.write(2, randBlock(m.r)[:m.r.IntN(64)])
		m.observe(2, "crsum")
		if c := m.objs[2].cur; c >= 0 {
			m.add(scn.Op{Op: "oneshot", S: c, F: 0, T: len(m.s.Streams[c].Lit)})
		}
		m.reset(1)
		m.write(1, randBlock(m.r))
		m.write(1, blk)
		m.observe(1, "crsum")
	})
}

// Attack blocks far into a message or a write.
func (g *gen) deep() {
	at := []int{5, 8, 15, 16, 17, 31, 32, 63, 64, 100, 127, 128, 255, 256, 300, 511, 512, 1023, 1024, 1300, 2048, 4096, 16384, 16400, 65537}
	g.each("deep", g.n, func(m *sim, i int) {
		n := at[i%len(at)]
		if i >= len(at) {
			n = 1 + m.r.IntN(16<<m.r.IntN(8))
		}
		m.s.Streams = []scn.Stream{{Kind: "rand", Seed: m.r.Uint64(), Len: 64 * n}}
		m.newObj(1)
		m.writeSeg(1, 0, 0, 64*n)
		k := m.r.IntN(32)
		blk, _ := m.qualify(k, nil)
		m.arm(k, m.objs[1].o.H, blk, ref.State{})
		// All in one piece.
		msg := append(append([]byte{}, m.s.Streams[0].Bytes()...), blk...)
		msg = append(msg, randBlock(m.r)[:m.r.IntN(64)]...)
		m.s.Streams[0] = scn.Stream{Kind: "lit", Lit: msg}
		m.s.Clean = []scn.Range{{S: 0, F: 0, T: 64 * n}}
		m.s.Ops, m.ctl = nil, nil
		m.newObj(1)
		style := m.r.IntN(8)
		if n > 2000 || m.r.IntN(2) == 0 {
			style = []int{0, 1, 5}[m.r.IntN(3)]
		}
		f := 0
		for _, t := range chunks(m.r, len(msg), style) {
			m.add(scn.Op{Op: "write", O: 1, S: 0, F: f, T: t})
			f = t
		}
		m.add(scn.Op{Op: "crsum", O: 1})
		m.add(scn.Op{Op: "oneshot", S: 0, F: 0, T: len(msg)})
	})
}

// Many attack blocks: a zero difference makes every block that meets the
// conditions one.
func (g *gen) many() {
	at := []int{3, 16, 128, 256, 257, 512}
	g.each("many", g.n, func(m *sim, i int) {
		n := at[i%len(at)]
		if i >= len(at) {
			n = 2 + m.r.IntN(60)
		}
		k := m.r.IntN(32)
		d := m.t.Dvs[k]
		var zero [80]uint32
		m.s.Dvs = []scn.DvOv{{K: k + 1, T: d.Type, DK: d.K, DB: d.B, Dm: zero}}
		m.env.Ovr[k+1] = &zero
		m.used[k] = true
		var msg []byte
		same := m.r.IntN(2) == 0
		blk, _ := m.qualify(k, nil)
		for j := 0; j < n; j++ {
			if !same {
				blk, _ = m.qualify(k, nil)
			}
			msg = append(msg, blk...)
		}
		m.newObj(1)
		m.s.Streams = []scn.Stream{{Kind: "lit", Lit: msg}}
		f := 0
		for _, t := range chunks(m.r, len(msg), []int{0, 1, 5, 7}[m.r.IntN(4)]) {
			m.writeSeg(1, 0, f, t)
			f = t
			if m.r.IntN(3) == 0 {
				m.add(scn.Op{Op: "crsum", O: 1})
			}
		}
		m.add(scn.Op{Op: "crsum", O: 1})
		m.marshal(1, 1)
		m.add(scn.Op{Op: "oneshot", S: 0, F: 0, T: len(msg)})
		m.write(1, randBlock(m.r)[:m.r.IntN(64)])
		m.add(scn.Op{Op: "crsum", O: 1})
		m.reset(1)
		m.write(1, randBlock(m.r))
		m.add(scn.Op{Op: "crsum", O: 1})
	})
}

// Attack blocks, and very much after them.
func (g *gen) tail() {
	sizes := []int{4096, 1<<20 + 64, 70000, 1 << 18, 33000, 3 << 20, 1 << 16, 1<<19 + 5, 10_000_000}
	g.each("tail", g.n, func(m *sim, i int) {
		n := sizes[i%len(sizes)]
		if i >= len(sizes) {
			n = 2000 + m.r.IntN(1000<<m.r.IntN(10))
		}
		m.s.Streams = []scn.Stream{{Kind: "rand", Seed: m.r.Uint64(), Len: n}}
		m.s.Clean = []scn.Range{{S: 0, F: 0, T: n}}
		m.newObj(1)
		b := m.objs[1]
		m.write(1, m.next(b, m.r.IntN(100), nil))
		m.write(1, m.next(b, 64+m.r.IntN(130), func(int) bool { return true }))
		if m.r.IntN(2) == 0 { // end of a block, so that all of the rest is in one piece
			m.write(1, m.next(b, (64-len(b.o.X))&63, nil))
		}
		if m.r.IntN(2) == 0 {
			m.observe(1, "crsum")
		}
		m.marshal(1, 1)
		pre := b.o
		pre.X = append([]byte{}, pre.X...)
		feed := func(o, style int) {
			if style == 9 { // in very many pieces
				m.objs[o].o.Write(m.env, m.s.Streams[0].Bytes())
				m.objs[o].msg = addSeg(m.objs[o].msg, seg{0, 0, n})
				m.add(scn.Op{Op: "write", O: o, S: 0, F: 0, T: n, Step: 1 + m.r.IntN(70)})
				return
			}
			f := 0
			for _, t := range chunks(m.r, n, style) {
				m.writeSeg(o, 0, f, t)
				f = t
			}
		}
		feed(1, []int{0, 0, 1, 5}[m.r.IntN(4)])
		b.cur, b.plan = -1, nil
		m.add(scn.Op{Op: "crsum", O: 1, Rep: []int{0, 0, 300, 66000}[m.r.IntN(4)]})
		m.marshal(1, 2)
		m.write(1, m.next(b, 64+m.r.IntN(100), func(int) bool { return m.r.IntN(2) == 0 }))
		m.observe(1, "crsum")
		if n < 1<<21 {
			m.newObj(2)
			m.restore(2, 1)
			feed(2, []int{0, 5, 9}[m.r.IntN(3)])
			m.add(scn.Op{Op: "crsum", O: 2})
			m.marshal(2, 3)
			m.reset(2)
			feed(2, 0)
			m.add(scn.Op{Op: "crsum", O: 2})
		}
		if n <= 1<<20+64 { // and in one call
			var msg []byte
			for _, s := range b.msg {
				if s.s == 0 {
					m.s.Clean = append(m.s.Clean, scn.Range{S: len(m.s.Streams), F: len(msg), T: len(msg) + n})
				}
				msg = append(msg, m.s.Streams[s.s].Bytes()[s.f:s.t]...)
			}
			m.s.Streams = append(m.s.Streams, scn.Stream{Kind: "lit", Lit: msg})
			m.newObj(3)
			m.add(scn.Op{Op: "write", O: 3, S: len(m.s.Streams) - 1, T: len(msg)})
			m.add(scn.Op{Op: "crsum", O: 3})
			m.add(scn.Op{Op: "oneshot", S: len(m.s.Streams) - 1, T: len(msg)})
		}
	})
}

// Very many small writes, and very many sums.
func (g *gen) drip() {
	g.each("drip", g.n, func(m *sim, i int) {
		n := []int{300, 66000, 5000, 33000}[i%4]
		step := 1 + i/4%3*31
		m.s.Streams = []scn.Stream{{Kind: "rand", Seed: m.r.Uint64(), Len: n}}
		m.newObj(1)
		f := m.r.IntN(70)
		m.writeSeg(1, 0, 0, f)
		m.add(scn.Op{Op: "crsum", O: 1, Rep: []int{300, 66000, 10, 1000}[(i+1)%4]})
		m.add(scn.Op{Op: "write", O: 1, S: 0, F: f, T: n, Step: step})
		m.add(scn.Op{Op: "sum", O: 1, Rep: 20})
		m.add(scn.Op{Op: "crsum", O: 1, Rep: 20})
		m.add(scn.Op{Op: "marshal", O: 1, Slot: 1})
		m.add(scn.Op{Op: "oneshot", S: 0, F: 0, T: n})
		m.newObj(2)
		m.writeSeg(2, 0, 0, n)
		m.add(scn.Op{Op: "crsum", O: 2})
		m.add(scn.Op{Op: "marshal", O: 2, Slot: 2, Rep: 300})
		// Resets, very many.
		k := min(n, 150)
		m.newObj(3)
		m.writeSeg(3, 0, 0, k)
		m.add(scn.Op{Op: "crsum", O: 3})
		m.add(scn.Op{Op: "rehash", S: 0, F: 0, T: k, Step: m.r.IntN(100), Rep: []int{70000, 300, 3000, 1000}[i%4]})
	})
}

// Many objects at a time.
func (g *gen) crowd() {
	g.each("crowd", g.n, func(m *sim, i int) {
		n := []int{40, 300, 130, 70}[i%4]
		for o := 1; o <= n; o++ {
			m.newObj(o)
		}
		for round := 0; round < 3; round++ {
			for _, o := range m.r.Perm(n) {
				o++
				m.write(o, m.next(m.objs[o], m.r.IntN(100), func(int) bool { return m.r.IntN(12) == 0 }))
				switch m.r.IntN(24) {
				case 0:
					m.add(scn.Op{Op: "sum", O: o})
				case 1:
					m.reset(o)
				case 2:
					m.marshal(o, o)
				case 3:
					if m.slots[o] != nil {
						m.restore(o, o)
					}
				}
			}
			if m.r.IntN(3) == 0 {
				m.add(scn.Op{Op: "gc"})
			}
		}
		for _, o := range m.r.Perm(n) {
			m.add(scn.Op{Op: "crsum", O: o + 1})
		}
		// One after the other, on one object.
		m.newObj(n + 1)
		for _, o := range m.r.Perm(n) {
			b := m.objs[o+1]
			m.reset(n + 1)
			for _, g := range b.msg {
				m.writeSeg(n+1, g.s, g.f, g.t)
			}
			m.add(scn.Op{Op: "crsum", O: n + 1})
		}
	})
}

// Attack blocks far into very long messages.
func (g *gen) bulkHits(mib []int) {
	for _, n := range mib {
		m := newSim(g.rng("bhit", n), g.t, fmt.Sprintf("bhit-%d", n))
		m.s.Streams = []scn.Stream{{Kind: "rand", Seed: m.r.Uint64()}}
		m.add(scn.Op{Op: "new", O: 1})
		m.add(scn.Op{Op: "bulk", O: 1, S: 0, F: m.r.IntN(2) * m.r.IntN(100), N: n, T: m.r.IntN(2) * m.r.IntN(100)})
		m.objs[1] = &sobj{o: bulkState(&m.s.Streams[0], &m.s.Ops[1]), cur: -1, opq: true}
		m.observe(1, "crsum")
		m.write(1, m.next(m.objs[1], 64+m.r.IntN(130), func(i int) bool { return i == 0 }))
		m.observe(1, "crsum")
		m.write(1, m.next(m.objs[1], 64+m.r.IntN(130), func(i int) bool { return m.r.IntN(2) == 0 }))
		m.observe(1, "crsum")
		m.marshal(1, 1)
		m.padHit(1, 1, 20+m.r.IntN(36))
		m.observe(1, "crsum")
		m.observe(1, "sum")
		m.newObj(2)
		m.restore(2, 1)
		m.observe(2, "crsum")
		m.reset(1)
		m.observe(1, "crsum")
		g.outScn(m.done())
	}
}

// The first use of the library in a process, by many threads at once.  No
// substituted table: that would be a use before.
func (g *gen) first() {
	m := newSim(g.rng("first"), g.t, "first")
	for _, f := range []string{"shattered-1.pdf", "sha-mbles-1.bin"} {
		if b, err := os.ReadFile(filepath.Join(g.repo, "test/testdata/files", f)); err == nil {
			m.s.Streams = append(m.s.Streams, scn.Stream{Kind: "lit", Lit: b[:min(len(b), 640)]})
		}
	}
	for i := 0; i < 4; i++ {
		m.s.Streams = append(m.s.Streams, scn.Stream{Kind: "rand", Seed: m.r.Uint64(), Len: 200 * i})
	}
	for j := 0; j < 8; j++ {
		var ops []scn.Op
		for rep := 0; rep < 4; rep++ {
			o, s := 10*j+rep, (j+rep)%len(m.s.Streams)
			n := len(m.s.Streams[s].Bytes())
			ops = append(ops, scn.Op{Op: "new", O: o}, scn.Op{Op: "write", O: o, S: s, F: 0, T: n / 2}, scn.Op{Op: "write", O: o, S: s, F: n / 2, T: n},
				scn.Op{Op: "crsum", O: o}, scn.Op{Op: "oneshot", S: s, F: 0, T: n},
				scn.Op{Op: "marshal", O: o, Slot: o}, scn.Op{Op: "sum", O: o})
		}
		m.s.Par = append(m.s.Par, ops)
	}
	g.outScn(m.s)
}

// Concurrent use of separate objects.
func (g *gen) concurrent() {
	g.each("par", g.n, func(m *sim, i int) {
		threads := 2 + m.r.IntN(7)
		type st struct{ s, n int }
		var sts []st
		// Messages, some with attack blocks, hashed once alone...
		for j := 0; j < threads; j++ {
			m.newObj(j + 1)
			n := m.r.IntN(400)
			m.write(j+1, m.next(m.objs[j+1], n, func(int) bool { return m.r.IntN(3) == 0 }))
			m.add(scn.Op{Op: "crsum", O: j + 1})
			if n > 0 {
				sts = append(sts, st{m.objs[j+1].cur, n})
			}
		}
		if len(sts) == 0 {
			return
		}
		masked := [][]byte{m.crowded(i % 32), m.crowded(m.r.IntN(32)), randBlock(m.r)}
		for _, w := range masked {
			m.add(scn.Op{Op: "mask", W: w})
		}
		// ...and then many times by all threads at once, while the first
		// objects are only looked at.
		for j := 0; j < threads; j++ {
			var ops []scn.Op
			o := 20 + 10*j
			for rep := 0; rep < 6; rep++ {
				t := sts[m.r.IntN(len(sts))]
				if rep == 0 || m.r.IntN(2) == 0 {
					o++
					ops = append(ops, scn.Op{Op: "new", O: o})
				} else {
					ops = append(ops, scn.Op{Op: "reset", O: o})
				}
				f := 0
				for _, c := range chunks(m.r, t.n, m.r.IntN(8)) {
					ops = append(ops, scn.Op{Op: "write", O: o, S: t.s, F: f, T: c, Ro: 3 * m.r.IntN(2)})
					f = c
				}
				ops = append(ops, scn.Op{Op: "crsum", O: o})
				switch m.r.IntN(6) {
				case 5:
					ops = append(ops, scn.Op{Op: "mask", W: masked[m.r.IntN(len(masked))], Rep: 20})
				case 4:
					ops = append(ops, scn.Op{Op: "marshal", O: 1 + m.r.IntN(threads), Slot: o})
				case 0:
					ops = append(ops, scn.Op{Op: "oneshot", S: t.s, F: 0, T: t.n, Ro: 3 * m.r.IntN(2)})
				case 1:
					ops = append(ops, scn.Op{Op: "crsum", O: 1 + m.r.IntN(threads)})
				case 2:
					ops = append(ops, scn.Op{Op: "marshal", O: o, Slot: o},
						scn.Op{Op: "new", O: o + 1}, scn.Op{Op: "unmarshal", O: o + 1, Slot: o, Exp: "ok"},
						scn.Op{Op: "crsum", O: o + 1})
					o++
					if m.r.IntN(12) == 0 {
						ops = append(ops, scn.Op{Op: "gc"})
					}
				case 3:
					ops = append(ops, scn.Op{Op: "sum", O: 1 + m.r.IntN(threads)})
				}
			}
			m.s.Par = append(m.s.Par, ops)
		}
	})
}

// Very long messages.
func (g *gen) bulk(mib []int) {
	for _, n := range mib {
		m := newSim(g.rng("bulk", n), g.t, fmt.Sprintf("bulk-%d", n))
		m.s.Streams = []scn.Stream{{Kind: "rand", Seed: m.r.Uint64()}, {Kind: "rand", Seed: m.r.Uint64(), Len: 200}}
		m.add(scn.Op{Op: "new", O: 1})
		m.add(scn.Op{Op: "bulk", O: 1, S: 0, F: m.r.IntN(2) * m.r.IntN(100), N: n, T: m.r.IntN(2) * m.r.IntN(100)})
		m.add(scn.Op{Op: "crsum", O: 1})
		m.add(scn.Op{Op: "write", O: 1, S: 1, F: 0, T: 77})
		m.add(scn.Op{Op: "crsum", O: 1})
		g.outScn(m.s)
	}
}

// One write of more than can be counted in 31 or 32 bits.
func (g *gen) single(mib []int) {
	for _, n := range mib {
		ends := []int{0, 1 + g.rng("single", n).IntN(63)}
		if n < 1024 {
			ends = append(ends, 55, 56)
		}
		for i, e := range ends {
			m := newSim(g.rng("single", n, i), g.t, fmt.Sprintf("single-%d-%d", n, e))
			m.s.Streams = []scn.Stream{{Kind: "zero", Len: 1}, {Kind: "rand", Seed: m.r.Uint64(), Len: 200}}
			f := m.r.IntN(130)
			if i == 0 {
				f = 64 * m.r.IntN(2)
			}
			op := scn.Op{Op: "bulk", O: 1, S: 0, F: f, N: n, T: 128 + (e-f)&63, Cap: 1}
			one := op
			one.Op, one.O = "bulkone", 0
			if n < 1024 || i == 0 {
				m.add(one)
			}
			if n < 1024 || i == 1 {
				m.add(scn.Op{Op: "new", O: 1})
				m.add(op)
				m.add(scn.Op{Op: "crsum", O: 1})
				m.add(scn.Op{Op: "write", O: 1, S: 1, F: 0, T: 77})
				m.add(scn.Op{Op: "crsum", O: 1})
			}
			op.O, op.Cap = 2, 0 // in many
			m.add(scn.Op{Op: "new", O: 2})
			m.add(op)
			m.add(scn.Op{Op: "crsum", O: 2})
			m.add(scn.Op{Op: "marshal", O: 2, Slot: 1})
			g.outScn(m.s)
		}
	}
}

// Attack blocks among blocks that resemble them.
func (g *gen) kin() {
	g.each("kin", g.n, func(m *sim, i int) {
		k := i % 32
		var miss ref.State
		if i/32%3 == 2 {
			miss = m.miss(m.r.IntN(5))
		}
		blk, _ := m.qualify(k, nil)
		m.newObj(1)
		m.newObj(2)
		rel := func() []byte { return resemble(m.r, blk, m.r.IntN(9)) }
		for j := m.r.IntN(3); j > 0; j-- {
			m.write(1, randBlock(m.r))
		}
		if m.r.IntN(3) == 0 { // seen by another object before
			m.write(2, rel())
			m.write(2, rel()[:1+m.r.IntN(63)])
			m.observe(2, "crsum")
		}
		for j := 1 + m.r.IntN(3); j > 0; j-- {
			m.write(1, rel())
			if m.r.IntN(6) == 0 {
				m.observe(1, "crsum")
			}
		}
		if m.r.IntN(5) == 0 {
			m.write(1, randBlock(m.r))
		}
		if m.r.IntN(4) == 0 { // with another as an attack block itself
			if k2 := m.pickDv(); k2 >= 0 && k2 != k {
				if b2, ok := m.qualify(k2, blk[:4*m.r.IntN(8)]); ok {
					m.arm(k2, m.objs[1].o.H, b2, ref.State{})
					m.write(1, b2)
				}
			}
		}
		m.arm(k, m.objs[1].o.H, blk, miss)
		h := m.objs[1].o.H
		if f := m.r.IntN(64); m.r.IntN(3) == 0 {
			m.write(1, blk[:f])
			m.observe(1, "crsum")
			m.write(1, blk[f:])
		} else {
			m.write(1, blk)
		}
		m.observe(1, "crsum")
		m.write(1, rel())
		m.write(1, rel()[:m.r.IntN(64)])
		m.observe(1, "crsum")
		if c := m.objs[1].cur; c >= 0 {
			m.add(scn.Op{Op: "oneshot", S: c, F: 0, T: len(m.s.Streams[c].Lit)})
		}
		// The same block met with chaining values that resemble the one it
		// is aimed at, and then with that one.
		x := ref.New()
		x.Len = 64
		for j := 0; j < 3; j++ {
			x.H = h
			if j < 2 {
				d := m.miss(m.r.IntN(5))
				for w := range d {
					x.H[w] ^= d[w]
				}
			}
			m.restoreRaw(2, x.Marshal())
			m.write(2, blk)
			m.observe(2, "crsum")
		}
	})
}

// resemble gives a block that has much in common with b.
func resemble(r *rand.Rand, b []byte, how int) []byte {
	w := ref.Words(b)
	i, j := r.IntN(16), r.IntN(16)
	d := r.Uint32()
	switch how {
	case 0: // the same beginning
		for x := 1 + r.IntN(15); x < 16; x++ {
			w[x] = r.Uint32()
		}
	case 1: // the same end
		for x := r.IntN(15); x >= 0; x-- {
			w[x] = r.Uint32()
		}
	case 2:
		w[i] = d
	case 3:
		w[i] ^= 1 << r.IntN(32)
	case 4: // the same words in another order
		w[i], w[j] = w[j], w[i]
	case 5: // the same parity
		w[i] ^= d
		w[j] ^= d
	case 6: // the same sum
		w[i] += d
		w[j] -= d
	case 7: // itself
	case 8: // few words in common
		for x := range w {
			if r.IntN(4) > 0 {
				w[x] = r.Uint32()
			}
		}
	}
	return ref.BytesOf(w)
}

func (g *gen) consts() {
	m := newSim(g.rng("consts"), g.t, "consts")
	m.add(scn.Op{Op: "consts"})
	g.outScn(m.s)
}

func loadHist(path string) (out [][]hop) {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		line := sc.Text()
		if !strings.HasPrefix(line, "\"[") {
			continue
		}
		var inner string
		if err := json.Unmarshal([]byte(line), &inner); err != nil {
			panic(err)
		}
		var h []hop
		if err := json.Unmarshal([]byte(inner), &h); err != nil {
			panic(err)
		}
		out = append(out, h)
	}
	return
}

// Sums between writes, in any number.
func (g *gen) sums() {
	g.each("sums", g.n, func(m *sim, i int) {
		m.newObj(1)
		m.newObj(2) // the same message, never looked at before the end
		total := m.r.IntN(300)
		if i%3 == 0 {
			total = i % 130
		}
		hit := m.r.IntN(2) == 0
		m.s.Streams = append(m.s.Streams, scn.Stream{Kind: "lit"})
		b := m.objs[1]
		b.cur = 0
		for total > 0 {
			n := min(total, []int{1, 8, 63, 64, 1 + m.r.IntN(130)}[m.r.IntN(5)])
			total -= n
			m.write(1, m.next(b, n, func(int) bool { return hit && m.r.IntN(2) == 0 }))
			for j := m.r.IntN(4); j > 0; j-- {
				m.observe(1, []string{"sum", "crsum"}[m.r.IntN(2)])
			}
			if m.r.IntN(6) == 0 {
				m.marshal(1, 1)
			}
		}
		if m.r.IntN(3) == 0 && m.padHit(1, 1, 30+m.r.IntN(34)) {
			m.observe(1, "crsum")
			m.observe(1, "sum")
		}
		m.observe(1, "crsum")
		m.observe(1, "crsum")
		m.writeSeg(2, 0, 0, len(m.s.Streams[0].Lit))
		m.observe(2, "crsum")
		m.marshal(1, 1)
		m.marshal(2, 2)
	})
}

// Objects with all kinds of pasts, reset, and then used.
func (g *gen) resets() {
	g.each("reset", g.n, func(m *sim, i int) {
		m.newObj(1)
		n := m.r.IntN(200)
		for rep := 1 + m.r.IntN(2); rep > 0; rep-- {
			switch m.r.IntN(8) {
			case 7: // another message of the same length
				m.write(1, m.next(m.objs[1], n, func(int) bool { return m.r.IntN(4) == 0 }))
				m.observe(1, []string{"sum", "crsum"}[m.r.IntN(2)])
				if m.r.IntN(3) == 0 {
					m.marshal(1, 1)
				}
			case 0: // part of a block
				m.write(1, m.next(m.objs[1], 1+m.r.IntN(63), nil))
			case 1: // a collision
				m.write(1, m.next(m.objs[1], 64+m.r.IntN(64), func(int) bool { return true }))
			case 2: // several, and sums
				m.write(1, m.next(m.objs[1], 64+m.r.IntN(200), func(int) bool { return m.r.IntN(2) == 0 }))
				m.observe(1, "crsum")
			case 3: // a collision in the padding
				m.padHit(1, 1, 30+m.r.IntN(34))
				m.observe(1, "crsum")
			case 4: // a restored state
				i := m.r.IntN(130)
				if m.r.IntN(4) == 0 {
					i = []int{64, 64, 0, 6}[m.r.IntN(4)] // lengths that are, or come close to, none
				}
				m.restoreRaw(1, craft(m.r, i))
				if m.r.IntN(3) == 0 {
					m.observe(1, "crsum")
				}
			case 5: // a failed restore
				m.write(1, m.next(m.objs[1], m.r.IntN(80), nil))
				m.restoreRaw(1, m.badState(1))
			case 6: // nothing
			}
			m.reset(1)
		}
		if m.r.IntN(3) == 0 {
			m.observe(1, "crsum")
		}
		if m.r.IntN(3) > 0 {
			m.marshal(1, 1)
		}
		m.write(1, m.next(m.objs[1], n, func(int) bool { return m.r.IntN(4) == 0 }))
		m.observe(1, []string{"sum", "crsum"}[m.r.IntN(2)])
		m.marshal(1, 2)
		// next to a new one
		m.newObj(2)
		m.marshal(2, 3)
		if b := m.objs[1]; b.cur >= 0 {
			m.writeSeg(2, b.cur, 0, len(m.s.Streams[b.cur].Lit))
		}
		m.observe(2, "crsum")
		m.marshal(2, 4)
	})
}
