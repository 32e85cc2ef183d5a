package ref

import (
	"math/bits"
	"math/rand/v2"
)

// vec is a linear combination of the 512 bits of a block, plus a constant in
// bit 512.
type vec [9]uint64

func (v *vec) xor(u *vec) {
	for i := range v {
		v[i] ^= u[i]
	}
}
func (v *vec) bit(i int) uint64 { return v[i>>6] >> (i & 63) & 1 }

var sym [80][32]vec // bit b of W[i]

func init() {
	for i := 0; i < 16; i++ {
		for b := 0; b < 32; b++ {
			n := 32*i + b // bit n: word i, bit b
			sym[i][b][n>>6] |= 1 << (n & 63)
		}
	}
	for i := 16; i < 80; i++ {
		for b := 0; b < 32; b++ {
			s := (b + 31) % 32
			v := sym[i-3][s]
			v.xor(&sym[i-8][s])
			v.xor(&sym[i-14][s])
			v.xor(&sym[i-16][s])
			sym[i][b] = v
		}
	}
}

// Cond demands that two bits of the expanded message xor to P.
type Cond struct{ I, BI, J, BJ, P int }

// Solve finds a block that agrees with base on the bits not in free (free[i]
// is a mask of word i) and meets the conditions, uniformly at random.
func Solve(r *rand.Rand, base [16]uint32, free [16]uint32, conds []Cond) ([16]uint32, bool) {
	// Randomise the free bits first; then solve for the corrections.
	for i := range base {
		base[i] = base[i]&^free[i] | r.Uint32()&free[i]
	}
	val := func(v *vec) uint64 {
		n := 0
		for i := 0; i < 16; i++ {
			n += bits.OnesCount32(uint32(v[i/2]>>(32*(i%2))) & base[i])
		}
		return uint64(n&1) ^ v.bit(512)
	}
	var rows []vec
	for _, c := range conds {
		v := sym[c.I][c.BI]
		v.xor(&sym[c.J][c.BJ])
		rhs := val(&v) ^ uint64(c.P)
		for i := 0; i < 16; i++ { // only free bits may change
			v[i/2] &^= uint64(^free[i]) << (32 * (i % 2))
		}
		v[8] = rhs
		rows = append(rows, v)
	}
	var piv []int
	n := 0
	for n < len(rows) {
		// Find any row from n with a nonzero part.
		p := -1
		for i := n; i < len(rows) && p < 0; i++ {
			for w := 0; w < 8; w++ {
				if rows[i][w] != 0 {
					rows[n], rows[i] = rows[i], rows[n]
					// A random set bit keeps the corrections spread out.
					x := rows[n][w]
					p = w*64 + bits.TrailingZeros64(x)
					break
				}
			}
		}
		if p < 0 {
			for i := n; i < len(rows); i++ {
				if rows[i][8] != 0 {
					return base, false
				}
			}
			break
		}
		for i := range rows {
			if i != n && rows[i].bit(p) == 1 {
				rows[i].xor(&rows[n])
			}
		}
		piv = append(piv, p)
		n++
	}
	for i, p := range piv {
		if rows[i][8] != 0 {
			base[p/32] ^= 1 << (p % 32)
		}
	}
	return base, true
}

// CondsOf turns the table's conditions of DV k into Conds; flip inverts one
// (-1: none).
func (t *Tables) CondsOf(k, flip int) []Cond {
	var out []Cond
	for n, c := range t.Conds[k] {
		p := c[4]
		if n == flip {
			p ^= 1
		}
		out = append(out, Cond{c[0], c[1], c[2], c[3], p})
	}
	return out
}

func Words(b []byte) (w [16]uint32) {
	e := Expand(b)
	copy(w[:], e[:16])
	return
}

func BytesOf(w [16]uint32) []byte {
	b := make([]byte, 0, 64)
	for _, x := range w {
		b = append(b, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	}
	return b
}

// Dm builds a message difference with which the block w, hashed from h, is
// recognised through DV k: a companion block that shares the state before
// the DV's test step and ends in the same chaining value.  miss, when not
// zero, makes the companion end in a different value.
func (t *Tables) Dm(r *rand.Rand, k int, h State, w *[80]uint32, miss State) (dm [80]uint32) {
	tt := int(t.Dvs[k].T)
	st := Run(h, 0, tt, w)
	h1 := Add(h, Run(st, tt, 80, w))
	for i := range h1 {
		h1[i] ^= miss[i]
	}
	var w2 [80]uint32
	for i := range w2 {
		w2[i] = r.Uint32()
	}
	if miss != (State{}) && r.IntN(4) == 0 {
		// No difference from the test step on: the companion ends in the
		// same state, but comes from another chaining value.
		copy(w2[tt:], w[tt:])
	}
	ihv := Sub(h1, Run(st, tt, 80, &w2))
	if miss != (State{}) && r.IntN(4) == 0 {
		// Or it comes from the same chaining value and ends elsewhere.
		ihv = h
	}
	// Back from the test step to step 5, then choose words 0..4 so that ihv
	// leads there.
	s5 := st
	for i := tt - 1; i >= 5; i-- {
		s5 = UnStep(i, s5, w2[i])
	}
	// s5 = (a5, a4, a3<<<30, a2<<<30, a1<<<30) where a_i is made by step i-1.
	a := [5]uint32{bits.RotateLeft32(s5[4], 2), bits.RotateLeft32(s5[3], 2), bits.RotateLeft32(s5[2], 2), s5[1], s5[0]}
	s := ihv
	for i := 0; i < 5; i++ {
		w2[i] = a[i] - Step(i, s, 0)[0]
		s = Step(i, s, w2[i])
	}
	if s != s5 {
		panic("gadget")
	}
	for i := range dm {
		dm[i] = w[i] ^ w2[i]
	}
	return dm
}
