// Package scn holds the scenarios that are run against the real library and
// the observations that come back.
package scn

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"io"
	"os"
)

// Hex is a byte string written in hexadecimal in JSON.
type Hex []byte

func (h Hex) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(h)) }
func (h *Hex) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	d, err := hex.DecodeString(s)
	*h = d
	return err
}

// DvOv puts Dm in the place of the message difference of disturbance vector
// K (1..32, in the order of the specification), found by its identity.
type DvOv struct {
	K  int        `json:"k"`
	T  uint32     `json:"t"`
	DK uint32     `json:"dk"`
	DB uint32     `json:"db"`
	Dm [80]uint32 `json:"dm"`
}

// Stream is a source of message bytes: Lit, or Len bytes of a kind.
type Stream struct {
	Kind string `json:"kind"` // "rand", "zero", "ff", "lit"
	Seed uint64 `json:"seed,omitempty"`
	Len  int    `json:"len,omitempty"`
	Lit  Hex    `json:"lit,omitempty"`
}

// Bytes expands a stream.
func (s *Stream) Bytes() []byte {
	switch s.Kind {
	case "lit":
		return s.Lit
	case "zero", "ff", "inc", "pad":
		b := make([]byte, s.Len)
		for i := range b {
			switch s.Kind {
			case "ff":
				b[i] = 0xff
			case "inc":
				b[i] = byte(i)
			case "pad":
				b[i] = 0x80
			}
		}
		return b
	}
	b := make([]byte, s.Len)
	Fill(b, s.Seed)
	return b
}

// Fill is splitmix64.
func Fill(b []byte, seed uint64) {
	x := seed
	for i := 0; i < len(b); i += 8 {
		x += 0x9e3779b97f4a7c15
		z := x
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		z ^= z >> 31
		for j := 0; j < 8 && i+j < len(b); j++ {
			b[i+j] = byte(z >> (8 * j))
		}
	}
}

// Op is one public call.
type Op struct {
	Op   string `json:"op"`
	O    int    `json:"o,omitempty"`
	S    int    `json:"s,omitempty"` // stream and range of the argument
	F    int    `json:"f,omitempty"`
	T    int    `json:"t,omitempty"`
	In   Hex    `json:"in,omitempty"`   // argument of Sum
	Cap  int    `json:"cap,omitempty"`  // spare capacity behind it
	B    Hex    `json:"b,omitempty"`    // state to restore, or
	Slot int    `json:"slot,omitempty"` // the slot it is kept in (from 1)
	Ro   int    `json:"ro,omitempty"`   // argument in read-only memory, before (1) or behind (2) an unmapped page; 3: shared
	Exp  string `json:"exp,omitempty"`  // restore: "ok", "bad" or "any"
	N    int    `json:"n,omitempty"`    // bulk length in MiB
	Step int    `json:"step,omitempty"` // write, rehash: in pieces of so many bytes
	Rep  int    `json:"rep,omitempty"`  // sums, marshal: so many times more; the first different result counts
	W    Hex    `json:"w,omitempty"`    // mask: the block
}

// Range is a part of a stream.
type Range struct {
	S int `json:"s"`
	F int `json:"f"`
	T int `json:"t"`
}

// Scn is a scenario.
type Scn struct {
	ID      string   `json:"id"`
	Grp     string   `json:"grp,omitempty"` // results of a group must agree
	Backend string   `json:"backend"`       // "go" or "cgo"
	Dvs     []DvOv   `json:"dvs,omitempty"`
	Streams []Stream `json:"streams,omitempty"`
	Ops     []Op     `json:"ops"`
	Clean   []Range  `json:"clean,omitempty"` // parts of streams that contain no attack block
	Par     [][]Op   `json:"par,omitempty"`   // run after Ops, concurrently
	Post    []Op     `json:"post,omitempty"`
}

// Dv is one entry of the table of disturbance vectors.
type Dv struct {
	Type uint32     `json:"type"`
	K    uint32     `json:"k"`
	B    uint32     `json:"b"`
	T    uint32     `json:"t"`
	Bit  uint32     `json:"bit"`
	Dm   [80]uint32 `json:"dm"`
}

// Obs is what a call did.
type Obs struct {
	N     int    `json:"n,omitempty"`
	Err   bool   `json:"err,omitempty"`
	Out   Hex    `json:"out,omitempty"`
	Col   bool   `json:"col,omitempty"`
	B     Hex    `json:"b,omitempty"`
	Mod   string `json:"mod,omitempty"` // memory that should not have changed
	M     uint32 `json:"m,omitempty"`
	Size  int    `json:"size,omitempty"`
	Block int    `json:"block,omitempty"`
	Dvs   []Dv   `json:"dvs,omitempty"`
	Panic string `json:"panic,omitempty"`
	Skip  string `json:"skip,omitempty"` // not available in this build
}

// Res holds the observations of a scenario, flat over Ops, Par and Post.
type Res struct {
	ID  string `json:"id"`
	Cfg string `json:"cfg"`
	Obs []Obs  `json:"obs"`
}

// Flat lists the operations in the order of the observations.
func (s *Scn) Flat() []Op {
	ops := append([]Op{}, s.Ops...)
	for _, p := range s.Par {
		ops = append(ops, p...)
	}
	return append(ops, s.Post...)
}

// Each decodes every line of a file.
func Each[T any](path string, f func(*T) error) error {
	r, err := os.Open(path)
	if err != nil {
		return err
	}
	defer r.Close()
	d := json.NewDecoder(bufio.NewReaderSize(r, 1<<20))
	for {
		var v T
		if err := d.Decode(&v); err == io.EOF {
			return nil
		} else if err != nil {
			return err
		}
		if err := f(&v); err != nil {
			return err
		}
	}
}
