package main

import (
	"bytes"
	"crypto/sha1"
	"encoding"
	"encoding/binary"
	"encoding/hex"
	"fmt"

	"verif/harness/ref"
	"verif/harness/scn"
)

type ev = map[string]any

func ints(b []byte) []int {
	out := make([]int, len(b))
	for i, c := range b {
		out[i] = int(c)
	}
	return out
}

func halves(w []uint32) []uint32 {
	out := make([]uint32, 0, 2*len(w))
	for _, x := range w {
		out = append(out, x>>16, x&0xffff)
	}
	return out
}

// From this length on the specification takes the standard library's word
// for the chaining value.
const tooLong = 32 << 10

// stdAfter is the state after more of a message without attack blocks, by
// the standard library.
func stdAfter(o *ref.Obj, p []byte) ref.Obj {
	b := append([]byte("sha\x01"), o.Marshal()[6:]...)
	h := sha1.New()
	if err := h.(encoding.BinaryUnmarshaler).UnmarshalBinary(b); err != nil {
		panic(err)
	}
	h.Write(p)
	m, err := h.(encoding.BinaryMarshaler).MarshalBinary()
	if err != nil {
		panic(err)
	}
	n := ref.Obj{Len: o.Len + uint64(len(p)), Col: o.Col}
	for i := range n.H {
		n.H[i] = binary.BigEndian.Uint32(m[4+4*i:])
	}
	n.X = append([]byte{}, m[24:24+n.Len%64]...)
	return n
}

// clean is the part of a call's argument that is known to be clean.
func clean(s *scn.Scn, op *scn.Op) (f, t int) {
	if len(s.Dvs) == 0 {
		return op.F, op.T
	}
	f, t = op.F, op.F
	for _, c := range s.Clean {
		if c.S == op.S {
			if cf, ct := max(op.F, c.F), min(op.T, c.T); ct-cf > t-f {
				f, t = cf, ct
			}
		}
	}
	return
}

// long tells whether a call is not followed in all its blocks.
func long(s *scn.Scn, op *scn.Op) bool { f, t := clean(s, op); return t-f > tooLong }

// concreteTrace renders an execution as events of TraceDigest.tla.
func concreteTrace(tb *ref.Tables, s *scn.Scn, res *scn.Res, fc []string) []ev {
	dvs := []ev{}
	for i := range s.Dvs {
		dvs = append(dvs, ev{"k": s.Dvs[i].K, "dm": halves(s.Dvs[i].Dm[:])})
	}
	out := []ev{{"e": "Begin", "focus": fc, "dvs": dvs, "id": s.ID, "cfg": res.Cfg}}
	streams := make([][]byte, len(s.Streams))
	for i := range streams {
		streams[i] = s.Streams[i].Bytes()
	}
	fcs := focus{}
	for _, f := range fc {
		fcs[f] = true
	}
	ops := s.Flat()
	// The objects, as the specification has them.
	env := tb.Env(s.Dvs)
	objs := map[int]*ref.Obj{}
	for i := range ops {
		if i >= len(res.Obs) {
			break
		}
		op, o := &ops[i], &res.Obs[i]
		if o.Panic != "" {
			return append(out, ev{"e": "Panic", "call": op.Op, "msg": o.Panic})
		}
		if o.Skip != "" {
			continue
		}
		if fcs["mem"] && o.Mod != "" {
			return append(out, ev{"e": "MemoryChanged", "call": op.Op, "what": o.Mod})
		}
		skip := func(at *ref.Obj) ev {
			f, t := clean(s, op)
			b := streams[op.S]
			at.Write(env, b[op.F:f])
			y := *at
			y.X, y.Col = append([]byte{}, at.X...), false
			if y.Write(env, b[f:t]); y.Col {
				panic(s.ID + ": not clean")
			}
			x := stdAfter(at, b[f:t])
			m := x.Marshal()
			e := ev{"o": op.O, "p0": ints(b[op.F:f]), "from": halves(at.H[:]), "k": t - f, "h": halves(x.H[:]), "x": ints(x.X),
				"len": ints(m[90:]), "p": ints(b[t:op.T]), "n": o.N, "err": o.Err}
			x.Write(env, b[t:op.T])
			*at = x
			return e
		}
		if objs[op.O] == nil {
			x := ref.New()
			objs[op.O] = &x
		}
		switch op.Op {
		case "new", "reset":
			x := ref.New()
			objs[op.O] = &x
		case "bulk":
			x := bulkState(&s.Streams[op.S], op)
			objs[op.O] = &x
		case "unmarshal":
			objs[op.O].Unmarshal(o.B)
		case "write":
			if long(s, op) {
				e := skip(objs[op.O])
				e["e"] = "BulkWrite"
				out = append(out, e)
				continue
			}
			objs[op.O].Write(env, streams[op.S][op.F:op.T])
		case "oneshot", "rehash":
			if long(s, op) {
				x := ref.New()
				e := skip(&x)
				e["e"], e["out"], e["col"] = "BulkOneShot", ints(o.Out), o.Col
				out = append(out, e)
				continue
			}
		}
		switch op.Op {
		case "new":
			out = append(out, ev{"e": "New", "o": op.O})
		case "reset":
			out = append(out, ev{"e": "Reset", "o": op.O})
		case "write":
			out = append(out, ev{"e": "Write", "o": op.O, "p": ints(streams[op.S][op.F:op.T]), "n": o.N, "err": o.Err})
		case "bulk":
			x := bulkState(&s.Streams[op.S], op)
			m := x.Marshal()
			out = append(out, ev{"e": "Bulk", "o": op.O, "h": halves(x.H[:]), "x": ints(x.X), "len": ints(m[90:]), "n": o.N, "mib": op.N, "err": o.Err})
		case "bulkone":
			x := bulkState(&s.Streams[op.S], op)
			m := x.Marshal()
			out = append(out, ev{"e": "HugeOneShot", "h": halves(x.H[:]), "x": ints(x.X), "len": ints(m[90:]), "out": ints(o.Out), "col": o.Col})
		case "sum":
			out = append(out, ev{"e": "Sum", "o": op.O, "in": ints(op.In), "out": ints(o.Out)})
		case "crsum":
			out = append(out, ev{"e": "CRSum", "o": op.O, "in": ints(op.In), "out": ints(o.Out), "col": o.Col})
		case "oneshot", "rehash":
			out = append(out, ev{"e": "OneShot", "p": ints(streams[op.S][op.F:op.T]), "out": ints(o.Out), "col": o.Col})
		case "marshal":
			out = append(out, ev{"e": "Marshal", "o": op.O, "b": ints(o.B), "err": o.Err})
		case "unmarshal":
			out = append(out, ev{"e": "Unmarshal", "o": op.O, "b": ints(o.B), "err": o.Err})
		case "mask":
			w := make([]uint32, 16)
			for j := range w {
				w[j] = uint32(op.W[4*j])<<24 | uint32(op.W[4*j+1])<<16 | uint32(op.W[4*j+2])<<8 | uint32(op.W[4*j+3])
			}
			out = append(out, ev{"e": "Mask", "w": halves(w), "m": halves([]uint32{o.M})})
		case "dvs":
			t := []ev{}
			for j := range o.Dvs {
				d := &o.Dvs[j]
				t = append(t, ev{"type": d.Type, "k": d.K, "b": d.B, "t": d.T, "bit": d.Bit, "dm": halves(d.Dm[:])})
			}
			out = append(out, ev{"e": "Dvs", "t": t})
		case "consts":
			out = append(out, ev{"e": "Consts", "size": o.Size, "block": o.Block})
		}
	}
	return out
}

// idealTrace renders an execution as events of TraceIdeal.tla.
func idealTrace(grp string, s *scn.Scn, res *scn.Res, fc []string) []ev {
	out := []ev{{"e": "Begin", "focus": fc, "sc": grp, "id": s.ID, "cfg": res.Cfg}}
	ops := s.Flat()
	sum := func(e ev, in []byte, o *scn.Obs) {
		ok := len(o.Out) >= len(in) && string(o.Out[:len(in)]) == string(in)
		e["pre"] = ok
		e["d"] = ""
		if ok {
			e["d"] = hex.EncodeToString(o.Out[len(in):])
		}
		e["mod"] = o.Mod
		out = append(out, e)
	}
	for i := range ops {
		if i >= len(res.Obs) {
			break
		}
		op, o := &ops[i], &res.Obs[i]
		if o.Panic != "" {
			return append(out, ev{"e": "Panic", "call": op.Op, "msg": o.Panic})
		}
		if o.Skip != "" {
			continue
		}
		switch op.Op {
		case "new":
			out = append(out, ev{"e": "New", "o": op.O})
		case "reset":
			out = append(out, ev{"e": "Reset", "o": op.O})
		case "write":
			out = append(out, ev{"e": "Write", "o": op.O, "s": fmt.Sprint(op.S), "f": op.F, "t": op.T, "n": o.N, "err": o.Err, "mod": o.Mod})
		case "bulk":
			out = append(out, ev{"e": "Write", "o": op.O, "s": bulkKey(s, op), "f": 0, "t": op.N, "n": o.N, "err": o.Err, "mod": ""})
		case "bulkone":
			sum(ev{"e": "OneShot", "s": bulkKey(s, op), "f": 0, "t": op.N, "col": o.Col}, nil, o)
		case "sum":
			sum(ev{"e": "Sum", "o": op.O}, op.In, o)
		case "crsum":
			sum(ev{"e": "CRSum", "o": op.O, "col": o.Col}, op.In, o)
		case "oneshot", "rehash":
			sum(ev{"e": "OneShot", "s": fmt.Sprint(op.S), "f": op.F, "t": op.T, "col": o.Col}, nil, o)
		case "marshal":
			out = append(out, ev{"e": "Marshal", "o": op.O, "b": hex.EncodeToString(o.B), "err": o.Err, "mod": o.Mod})
		case "unmarshal":
			out = append(out, ev{"e": "Unmarshal", "o": op.O, "b": hex.EncodeToString(o.B), "err": o.Err, "exp": op.Exp, "canon": canonical(o.B), "mod": o.Mod})
		case "recheck":
			out = append(out, ev{"e": "Recheck", "mod": o.Mod})
		case "mask":
			out = append(out, ev{"e": "Mask", "w": hex.EncodeToString(op.W), "m": fmt.Sprint(o.M), "mod": o.Mod})
		case "consts":
			out = append(out, ev{"e": "Consts", "v": fmt.Sprint(o.Size, o.Block)})
		}
	}
	return out
}

// canonical tells whether a well-formed state has no bytes behind the
// buffered ones.
func canonical(b []byte) bool {
	var o ref.Obj
	return o.Unmarshal(b) && bytes.Equal(o.Marshal(), b)
}
