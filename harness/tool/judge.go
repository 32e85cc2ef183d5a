package main

import (
	"bytes"
	"crypto/sha1"
	"encoding"
	"encoding/binary"
	"fmt"
	"hash"
	"strings"

	"verif/harness/ref"
	"verif/harness/scn"
)

// A focus is the set of aspects that a property talks about.
type focus map[string]bool

func parseFocus(s string) focus {
	f := focus{}
	for _, x := range strings.Split(s, ",") {
		if x != "" {
			f[x] = true
		}
	}
	return f
}

// stats of what a judged set of executions exercised.
type stats struct {
	Calls   map[string]int `json:"calls"`
	Skipped int            `json:"skipped"`
	Compare int            `json:"comparisons"`
	Hits    int            `json:"sums_with_collision"`
}

// concrete mirrors TraceDigest.tla; it returns the first disagreement.
func concrete(t *ref.Tables, s *scn.Scn, res *scn.Res, fc focus, st *stats) string {
	env := t.Env(s.Dvs)
	objs := map[int]*ref.Obj{}
	streams := make([][]byte, len(s.Streams))
	data := func(op *scn.Op) []byte {
		if streams[op.S] == nil {
			streams[op.S] = s.Streams[op.S].Bytes()
		}
		return streams[op.S][op.F:op.T]
	}
	bad := ""
	fail := func(i int, f string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf("call %d: ", i+1) + fmt.Sprintf(f, a...)
		}
	}
	sum := func(i int, in []byte, o *scn.Obs, out []byte, col, hasCol bool) {
		if col {
			st.Hits++
		}
		t := "F"
		if col {
			t = "T"
		}
		if fc["out"] || fc["out"+t] {
			st.Compare++
			if want := append(append([]byte{}, in...), out...); !bytes.Equal(want, o.Out) {
				fail(i, "digest %x, want %x", []byte(o.Out), want)
			}
		}
		if hasCol && (fc["col"] || fc["col"+t]) {
			st.Compare++
			if o.Col != col {
				fail(i, "collision flag %v, want %v", o.Col, col)
			}
		}
	}
	ops := s.Flat()
	for i := range ops {
		op := &ops[i]
		if i >= len(res.Obs) {
			break
		}
		o := &res.Obs[i]
		st.Calls[op.Op]++
		if o.Panic != "" {
			fail(i, "%s panicked: %s", op.Op, o.Panic)
			break
		}
		if o.Skip != "" {
			st.Skipped++
			continue
		}
		if fc["mem"] && o.Mod != "" {
			fail(i, "%s changed %s", op.Op, o.Mod)
		}
		switch op.Op {
		case "new", "reset":
			x := ref.New()
			objs[op.O] = &x
		case "write":
			if fc["n"] {
				st.Compare++
				if o.N != op.T-op.F || o.Err {
					fail(i, "write of %d bytes returned %d, error %v", op.T-op.F, o.N, o.Err)
				}
			}
			objs[op.O].Write(env, data(op))
		case "bulk":
			if fc["n"] {
				st.Compare++
				if o.N != op.N || o.Err {
					fail(i, "long write returned another number of bytes, or error %v", o.Err)
				}
			}
			x := bulkState(&s.Streams[op.S], op)
			objs[op.O] = &x
		case "bulkone":
			x := bulkState(&s.Streams[op.S], op)
			out, col := x.Sum(env)
			sum(i, nil, o, out, col, true)
		case "sum", "crsum":
			out, col := objs[op.O].Sum(env)
			sum(i, op.In, o, out, col, op.Op == "crsum")
		case "oneshot", "rehash":
			x := ref.New()
			x.Write(env, data(op))
			out, col := x.Sum(env)
			sum(i, nil, o, out, col, true)
		case "marshal":
			if fc["blob"] {
				st.Compare++
				if want := objs[op.O].Marshal(); o.Err || !bytes.Equal(want, o.B) {
					fail(i, "checkpoint %x, want %x", []byte(o.B), want)
				}
			}
		case "unmarshal":
			ok := ref.IsState(o.B)
			if fc["err"] {
				st.Compare++
				if o.Err == ok {
					fail(i, "restore of a state that is valid: %v returned error %v", ok, o.Err)
				}
			}
			objs[op.O].Unmarshal(o.B)
		case "mask":
			w := ref.Expand(op.W)
			st.Compare++
			if want := t.Mask(&w); o.M != want {
				fail(i, "mask %08x, want %08x", o.M, want)
			}
		case "dvs":
			st.Compare++
			if d := diffDvs(t.Dvs, o.Dvs); d != "" {
				fail(i, "%s", d)
			}
		case "consts":
			st.Compare++
			if o.Size != 20 || o.Block != 64 {
				fail(i, "sizes %d, %d", o.Size, o.Block)
			}
		}
		if bad != "" {
			break
		}
	}
	return bad
}

func diffDvs(want, got []scn.Dv) string {
	for _, w := range want {
		found := false
		for _, x := range got {
			found = found || x == w
		}
		if !found {
			return fmt.Sprintf("disturbance vector %d(%d,%d) is missing or different", w.Type, w.K, w.B)
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d disturbance vectors, want %d", len(got), len(want))
	}
	return ""
}

var bulkCache = map[string]ref.Obj{}

// bulkState is the state after a bulk call, by the standard library's SHA-1.
func bulkState(st *scn.Stream, op *scn.Op) ref.Obj {
	key := fmt.Sprint(st.Kind, st.Seed, op.F, op.N, op.T)
	if o, ok := bulkCache[key]; ok {
		return o
	}
	buf := make([]byte, 1<<20)
	if st.Kind != "zero" {
		scn.Fill(buf, st.Seed)
	}
	var h hash.Hash = sha1.New()
	h.Write(buf[:op.F])
	for i := 0; i < op.N; i++ {
		h.Write(buf)
	}
	h.Write(buf[:op.T])
	b, err := h.(encoding.BinaryMarshaler).MarshalBinary()
	if err != nil {
		panic(err)
	}
	o := ref.Obj{Len: uint64(op.N)<<20 + uint64(op.F+op.T)}
	for i := range o.H {
		o.H[i] = binary.BigEndian.Uint32(b[4+4*i:])
	}
	o.X = append([]byte{}, b[24:24+o.Len%64]...)
	bulkCache[key] = o
	return o
}

// bulkKey names the message of a bulk call.
func bulkKey(s *scn.Scn, op *scn.Op) string {
	if s.Streams[op.S].Kind == "zero" {
		return fmt.Sprintf("zeros%d", op.N<<20+op.F+op.T)
	}
	return fmt.Sprintf("bulk%d+%d+%d+%d", op.S, op.F, op.N, op.T)
}

// ideal mirrors TraceIdeal.tla: results may be anything as long as they are
// a function of the message.
type ideal struct {
	dig   map[string]string
	col   map[string]bool
	blob  map[string]string
	orig  map[string][]string
	mask  map[string]uint32
	table map[string]string
}

func newIdeal() *ideal {
	return &ideal{map[string]string{}, map[string]bool{}, map[string]string{}, map[string][]string{}, map[string]uint32{}, map[string]string{}}
}

func key(m []string) string { return strings.Join(m, "|") }

func idealSeg(m []string, op *scn.Op) []string {
	if op.F == op.T {
		return m
	}
	out := append([]string{}, m...)
	if n := len(out); n > 0 {
		var s, f, t int
		if k, _ := fmt.Sscanf(out[n-1], "%d:%d-%d", &s, &f, &t); k == 3 && s == op.S && t == op.F {
			out[n-1] = fmt.Sprintf("%d:%d-%d", s, f, op.T)
			return out
		}
	}
	return append(out, fmt.Sprintf("%d:%d-%d", op.S, op.F, op.T))
}

func (d *ideal) judge(s *scn.Scn, res *scn.Res, fc focus, st *stats) string {
	objs := map[int][]string{}
	bad := ""
	fail := func(i int, f string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf("call %d: ", i+1) + fmt.Sprintf(f, a...)
		}
	}
	sum := func(i int, m []string, in []byte, o *scn.Obs, hasCol bool) {
		k := key(m)
		if !bytes.HasPrefix(o.Out, in) {
			if fc["mem"] {
				fail(i, "result does not start with the argument")
			}
			return
		}
		dg := string(o.Out[len(in):])
		if fc["out"] {
			st.Compare++
			if v, ok := d.dig[k]; ok && v != dg {
				fail(i, "digest %x, before %x", dg, v)
			}
			d.dig[k] = dg
		}
		if hasCol && fc["col"] {
			st.Compare++
			if v, ok := d.col[k]; ok && v != o.Col {
				fail(i, "collision flag %v, before %v", o.Col, v)
			}
			d.col[k] = o.Col
			if o.Col {
				st.Hits++
			}
		}
	}
	ops := s.Flat()
	for i := range ops {
		op := &ops[i]
		if i >= len(res.Obs) {
			break
		}
		o := &res.Obs[i]
		st.Calls[op.Op]++
		if o.Panic != "" {
			fail(i, "%s panicked: %s", op.Op, o.Panic)
			break
		}
		if o.Skip != "" {
			st.Skipped++
			continue
		}
		if fc["mem"] && o.Mod != "" {
			fail(i, "%s changed %s", op.Op, o.Mod)
		}
		switch op.Op {
		case "new", "reset":
			objs[op.O] = nil
		case "write":
			if fc["n"] && (o.N != op.T-op.F || o.Err) {
				fail(i, "write of %d bytes returned %d, error %v", op.T-op.F, o.N, o.Err)
			}
			objs[op.O] = idealSeg(objs[op.O], op)
		case "bulk":
			if fc["n"] && (o.N != op.N || o.Err) {
				fail(i, "long write returned another number of bytes, or error %v", o.Err)
			}
			objs[op.O] = []string{bulkKey(s, op)}
		case "bulkone":
			sum(i, []string{bulkKey(s, op)}, nil, o, true)
		case "sum", "crsum":
			sum(i, objs[op.O], op.In, o, op.Op == "crsum")
		case "oneshot", "rehash":
			sum(i, idealSeg(nil, op), nil, o, true)
		case "marshal":
			k := key(objs[op.O])
			if fc["blob"] {
				st.Compare++
				if v, ok := d.blob[k]; ok && v != string(o.B) || o.Err {
					fail(i, "checkpoint %x, before %x", []byte(o.B), v)
				}
				d.blob[k] = string(o.B)
			}
			if _, ok := d.orig[string(o.B)]; !ok {
				d.orig[string(o.B)] = append([]string{}, objs[op.O]...)
			}
		case "unmarshal":
			m, ok := d.orig[string(o.B)]
			if fc["err"] {
				st.Compare++
				if o.Err && op.Exp == "ok" || !o.Err && op.Exp == "bad" {
					fail(i, "restore of a %s state returned error %v", op.Exp, o.Err)
				}
			}
			if !o.Err {
				if !ok {
					m = []string{fmt.Sprintf("state %x", []byte(o.B))}
					if fc["blob"] && canonical(o.B) {
						d.blob[key(m)] = string(o.B)
					}
				}
				objs[op.O] = append([]string{}, m...)
			}
		case "mask":
			k := string(op.W)
			st.Compare++
			if v, ok := d.mask[k]; ok && v != o.M {
				fail(i, "mask %08x, before %08x", o.M, v)
			}
			d.mask[k] = o.M
		case "dvs":
			// table order is free; the concrete check looks at it
		case "consts":
			k, v := "consts", fmt.Sprint(o.Size, o.Block)
			if w, ok := d.table[k]; ok && v != w {
				fail(i, "sizes %s, before %s", v, w)
			}
			d.table[k] = v
		}
		if bad != "" {
			break
		}
	}
	return bad
}
