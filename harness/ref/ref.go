// Package ref is a fast rendering of the specification (spec/Sha1.tla,
// Detect.tla, Digest.tla).  It selects which recorded executions deserve
// TLC's attention and lets the generator aim at particular cases; verdicts
// come from TLC.
package ref

import (
	"encoding/binary"
	"encoding/json"
	"math/bits"
	"os"

	"verif/harness/scn"
)

// Tables as written by MCTables.tla.
type Tables struct {
	Conds [][][5]int
	Dvs   []scn.Dv
}

func Load(path string) *Tables {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var raw struct {
		Conds [][][5]int `json:"conds"`
		Dvs   []struct {
			Type, K, B, T, Bit uint32
			Dm                 []uint32
		} `json:"dvs"`
	}
	if err := json.Unmarshal(b, &raw); err != nil {
		panic(err)
	}
	t := &Tables{Conds: raw.Conds}
	for _, d := range raw.Dvs {
		e := scn.Dv{Type: d.Type, K: d.K, B: d.B, T: d.T, Bit: d.Bit}
		for i := range e.Dm {
			e.Dm[i] = d.Dm[2*i]<<16 | d.Dm[2*i+1]
		}
		t.Dvs = append(t.Dvs, e)
	}
	return t
}

type State [5]uint32

var IV = State{0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}
var kk = [4]uint32{0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xCA62C1D6}

func f(i int, b, c, d uint32) uint32 {
	switch {
	case i < 20:
		return b&c | ^b&d
	case i < 40 || i >= 60:
		return b ^ c ^ d
	}
	return (b|c)&d | b&c
}

func Step(i int, s State, w uint32) State {
	return State{bits.RotateLeft32(s[0], 5) + f(i, s[1], s[2], s[3]) + s[4] + kk[i/20] + w,
		s[0], bits.RotateLeft32(s[1], 30), s[2], s[3]}
}

func UnStep(i int, s State, w uint32) State {
	b := bits.RotateLeft32(s[2], 2)
	return State{s[1], b, s[3], s[4],
		s[0] - (bits.RotateLeft32(s[1], 5) + f(i, b, s[3], s[4]) + kk[i/20] + w)}
}

func Add(a, b State) State {
	for i := range a {
		a[i] += b[i]
	}
	return a
}

func Sub(a, b State) State {
	for i := range a {
		a[i] -= b[i]
	}
	return a
}

func Expand(blk []byte) (w [80]uint32) {
	for i := 0; i < 16; i++ {
		w[i] = binary.BigEndian.Uint32(blk[4*i:])
	}
	for i := 16; i < 80; i++ {
		w[i] = bits.RotateLeft32(w[i-3]^w[i-8]^w[i-14]^w[i-16], 1)
	}
	return
}

func Run(s State, from, to int, w *[80]uint32) State {
	for i := from; i < to; i++ {
		s = Step(i, s, w[i])
	}
	return s
}

func UnRun(s State, from int, w *[80]uint32) State {
	for i := from - 1; i >= 0; i-- {
		s = UnStep(i, s, w[i])
	}
	return s
}

func Bit(w uint32, n int) int { return int(w>>n) & 1 }

func (t *Tables) Holds(k int, w *[80]uint32) bool {
	for _, c := range t.Conds[k] {
		if Bit(w[c[0]], c[1])^Bit(w[c[2]], c[3]) != c[4] {
			return false
		}
	}
	return true
}

func (t *Tables) Mask(w *[80]uint32) (m uint32) {
	for k := range t.Conds {
		if t.Holds(k, w) {
			m |= 1 << k
		}
	}
	return
}

// Env is the table of message differences in force.
type Env struct {
	T   *Tables
	Ovr map[int]*[80]uint32 // by 1-based number
}

func (t *Tables) Env(ov []scn.DvOv) *Env {
	e := &Env{t, map[int]*[80]uint32{}}
	for i := range ov {
		e.Ovr[ov[i].K] = &ov[i].Dm
	}
	return e
}

func (e *Env) Dm(k int) *[80]uint32 {
	if d := e.Ovr[k+1]; d != nil {
		return d
	}
	return &e.T.Dvs[k].Dm
}

func (e *Env) Hit(k int, h State, w *[80]uint32) bool {
	t := int(e.T.Dvs[k].T)
	st := Run(h, 0, t, w)
	h1 := Add(h, Run(st, t, 80, w))
	var w2 [80]uint32
	dm := e.Dm(k)
	for i := range w2 {
		w2[i] = w[i] ^ dm[i]
	}
	return Add(UnRun(st, t, &w2), Run(st, t, 80, &w2)) == h1
}

// Process is ProcessBlock of Detect.tla.
func (e *Env) Process(h State, blk []byte) (State, bool) {
	w := Expand(blk)
	h1 := Add(h, Run(h, 0, 80, &w))
	m := e.T.Mask(&w)
	for k := 0; m != 0 && k < 32; k++ {
		if m>>k&1 == 1 && e.Hit(k, h, &w) {
			h1 = Add(h1, Run(h1, 0, 80, &w))
			h1 = Add(h1, Run(h1, 0, 80, &w))
			return h1, true
		}
	}
	return h1, false
}

// Obj is the hash object of Digest.tla.
type Obj struct {
	H   State
	X   []byte
	Len uint64
	Col bool
}

func New() Obj { return Obj{H: IV} }

func (o *Obj) Write(e *Env, p []byte) {
	o.Len += uint64(len(p))
	x := o.X
	if len(x) > 0 {
		n := min(64-len(x), len(p))
		x = append(append([]byte{}, x...), p[:n]...)
		p = p[n:]
		if len(x) == 64 {
			o.block(e, x)
			x = nil
		}
	}
	for len(p) >= 64 {
		o.block(e, p[:64])
		p = p[64:]
	}
	if len(p) > 0 {
		x = append([]byte{}, p...)
	}
	o.X = x
}

func (o *Obj) block(e *Env, b []byte) {
	h, c := e.Process(o.H, b)
	o.H, o.Col = h, o.Col || c
}

// Pad gives the padding for a length.
func Pad(n uint64) []byte {
	z := 56 - int(n%64)
	if z <= 0 {
		z += 64
	}
	p := make([]byte, z+8)
	p[0] = 0x80
	binary.BigEndian.PutUint64(p[z:], n<<3)
	return p
}

func (o Obj) Sum(e *Env) (out []byte, col bool) {
	o.Write(e, Pad(o.Len))
	for _, w := range o.H {
		out = binary.BigEndian.AppendUint32(out, w)
	}
	return out, o.Col
}

func (o *Obj) Marshal() []byte {
	b := []byte("shacd\x01")
	if o.Col {
		b[5] = 2
	}
	for _, w := range o.H {
		b = binary.BigEndian.AppendUint32(b, w)
	}
	b = append(b, o.X...)
	b = append(b, make([]byte, 64-len(o.X))...)
	return binary.BigEndian.AppendUint64(b, o.Len)
}

func IsState(b []byte) bool {
	return len(b) == 98 && (string(b[:6]) == "shacd\x01" || string(b[:6]) == "shacd\x02")
}

func (o *Obj) Unmarshal(b []byte) bool {
	if !IsState(b) {
		return false
	}
	o.Col = b[5] == 2
	for i := range o.H {
		o.H[i] = binary.BigEndian.Uint32(b[6+4*i:])
	}
	o.Len = binary.BigEndian.Uint64(b[90:])
	o.X = append([]byte{}, b[26:26+o.Len%64]...)
	return true
}
