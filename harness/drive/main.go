// Command drive runs scenarios against the real library and writes down what
// every call returned.  It knows nothing about what should come out.
package main

import (
	"bufio"
	"bytes"
	"encoding"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash"
	"io"
	"maps"
	"math"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sync"
	"syscall"
	"testing/iotest"

	"github.com/pjbgf/sha1cd"
	"github.com/pjbgf/sha1cd/cgo"
	"github.com/pjbgf/sha1cd/ubc"

	"verif/harness/scn"
)

// Tables of the backends, as far as this build can reach them.
var (
	cTable    func() []scn.Dv
	cOverride func([]scn.DvOv) bool
)

// goEntries gives the entries of the Go table, whatever it is made of.
func goEntries() (out []reflect.Value) {
	v := reflect.ValueOf(ubc.SHA1_dvs())
	if v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	if v.Kind() != reflect.Slice && v.Kind() != reflect.Array {
		return nil
	}
	for i := 0; i < v.Len(); i++ {
		e := v.Index(i)
		if e.Kind() == reflect.Pointer {
			e = e.Elem()
		}
		if e.Kind() != reflect.Struct || field(e, "DvType") == 0 {
			break
		}
		out = append(out, e)
	}
	return out
}

func field(e reflect.Value, name string) uint32 {
	switch f := e.FieldByName(name); {
	case f.IsValid() && f.CanUint():
		return uint32(f.Uint())
	case f.IsValid() && f.CanInt():
		return uint32(f.Int())
	}
	return 0
}

func goTable() []scn.Dv {
	var out []scn.Dv
	for _, d := range goEntries() {
		e := scn.Dv{Type: field(d, "DvType"), K: field(d, "DvK"), B: field(d, "DvB"), T: field(d, "TestT"), Bit: field(d, "MaskB")}
		e.Bit += 32 * field(d, "MaskI") // there is one word only
		if dm := d.FieldByName("Dm"); dm.IsValid() && dm.Type() == reflect.TypeFor[[80]uint32]() {
			e.Dm = dm.Interface().([80]uint32)
		}
		out = append(out, e)
	}
	return out
}

func goOverride(ov []scn.DvOv) bool {
	for _, d := range goEntries() {
		dm := d.FieldByName("Dm")
		if !dm.IsValid() || !dm.CanSet() || dm.Type() != reflect.TypeFor[[80]uint32]() {
			return false
		}
		for _, o := range ov {
			if field(d, "DvType") == o.T && field(d, "DvK") == o.DK && field(d, "DvB") == o.DB {
				dm.Set(reflect.ValueOf(o.Dm))
			}
		}
	}
	return true
}

func override(backend string, ov []scn.DvOv) bool {
	if backend == "cgo" {
		if cOverride != nil {
			return cOverride(ov)
		}
		if !cgoReal {
			return goOverride(ov)
		}
		return false
	}
	return goOverride(ov)
}

// saved returns the present entries that ov would replace.
func saved(backend string, ov []scn.DvOv) []scn.DvOv {
	t := goTable()
	if backend == "cgo" && cTable != nil {
		t = cTable()
	}
	var out []scn.DvOv
	for _, o := range ov {
		for _, d := range t {
			if d.Type == o.T && d.K == o.DK && d.B == o.DB {
				out = append(out, scn.DvOv{K: o.K, T: o.T, DK: o.DK, DB: o.DB, Dm: d.Dm})
			}
		}
	}
	return out
}

func mask(backend string, w *[80]uint32) uint32 {
	f := any(ubc.CalculateDvMask)
	if backend == "cgo" {
		f = any(cgo.CalculateDvMask)
	}
	switch f := f.(type) {
	case func([80]uint32) uint32:
		return f(*w)
	case func(*[80]uint32) uint32:
		return f(w)
	}
	fmt.Fprintln(os.Stderr, "drive: no mask")
	os.Exit(2)
	return 0
}

type kept struct {
	what string
	buf  []byte // memory of the library's result
	copy []byte
}

type world struct {
	s       *scn.Scn
	streams [][]byte
	objs    map[int]hash.Hash
	slots   map[int][]byte
	kept    []kept
	arena   []byte
	turn    int
}

const canary = 0xC7

// arg gives a copy of b in the middle of a larger guarded buffer.
func arg(b []byte, spare int) (whole, mid []byte) { return place(nil, b, spare) }

// arg does the same, two times out of four where arguments have been before.
func (w *world) arg(b []byte, spare int) (whole, mid []byte) {
	w.turn++
	if w.turn%4 >= 2 && len(b) < 1<<14 {
		if w.arena == nil {
			w.arena = make([]byte, 1<<15)
		}
		return place(w.arena, b, spare)
	}
	return place(nil, b, spare)
}

// put writes, now and then by other ways that the io package would choose if
// the hasher offered them.
func (w *world) put(h hash.Hash, b []byte) (int, error) {
	switch w.turn % 5 {
	case 1:
		if s, ok := h.(io.StringWriter); ok {
			return s.WriteString(string(b))
		}
	case 3:
		if r, ok := h.(io.ReaderFrom); ok {
			var src io.Reader = bytes.NewReader(b)
			if w.turn%2 == 0 {
				src = iotest.DataErrReader(src)
			}
			n, err := r.ReadFrom(src)
			return int(n), err
		}
	}
	return h.Write(b)
}

func place(mem, b []byte, spare int) (whole, mid []byte) {
	// at any alignment
	off := 16 + 3*len(b)%16
	n := off + len(b) + spare + 16
	if mem == nil {
		mem = make([]byte, n)
	}
	whole = mem[off-16 : n]
	for i := range whole {
		whole[i] = canary
	}
	copy(whole[16:], b)
	return whole, whole[16 : 16+len(b) : 16+len(b)+spare]
}

// roArg gives b in memory that cannot be written, right before or right
// behind a page that cannot be read either.
func roArg(b []byte, how int) (mid []byte, free func()) {
	pg := os.Getpagesize()
	n := (len(b) + pg - 1) / pg * pg
	m, err := syscall.Mmap(-1, 0, n+2*pg, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		fmt.Fprintln(os.Stderr, "drive: mmap:", err)
		os.Exit(2)
	}
	from := pg
	if how == 1 {
		from = pg + n - len(b)
	}
	copy(m[from:], b)
	for _, e := range []error{syscall.Mprotect(m[:pg], syscall.PROT_NONE), syscall.Mprotect(m[pg:pg+n], syscall.PROT_READ),
		syscall.Mprotect(m[pg+n:], syscall.PROT_NONE)} {
		if e != nil {
			fmt.Fprintln(os.Stderr, "drive: mprotect:", e)
			os.Exit(2)
		}
	}
	return m[from : from+len(b) : from+len(b)], func() { syscall.Munmap(m) }
}

// zeros gives memory enough for a bulk call.
func zeros(op *scn.Op) []byte {
	if uint64(op.N+1)<<20 > math.MaxInt {
		return nil
	}
	m, err := syscall.Mmap(-1, 0, (op.N+1)<<20, syscall.PROT_READ, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		return nil
	}
	return m
}

func checkArg(whole, b []byte, skip int) string {
	for i, c := range whole {
		switch {
		case i >= 16 && i < 16+len(b):
			if c != b[i-16] {
				return fmt.Sprintf("argument byte %d", i-16)
			}
		case i >= 16+len(b) && i < 16+len(b)+skip:
		case c != canary:
			return fmt.Sprintf("memory at %d around an argument of %d bytes", i-16, len(b))
		}
	}
	return ""
}

func scribble(b []byte, x byte) {
	for i := range b {
		b[i] = b[i]*31 + x
	}
}

func (w *world) get(o int) hash.Hash {
	return w.objs[o]
}

func (w *world) set(o int, h hash.Hash) {
	w.objs[o] = h
}

func (w *world) keep(what string, buf []byte) {
	w.kept = append(w.kept, kept{what, buf, append([]byte{}, buf...)})
}

func (w *world) newHash() hash.Hash {
	if w.s.Backend == "cgo" {
		return cgo.New()
	}
	return sha1cd.New()
}

func (w *world) do(op *scn.Op) (o scn.Obs) {
	if op.Ro > 0 {
		defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	}
	defer func() {
		if r := recover(); r != nil {
			o = scn.Obs{Panic: fmt.Sprint(r)}
		}
	}()
	switch op.Op {
	case "new":
		w.set(op.O, w.newHash())
	case "write":
		p := w.streams[op.S][op.F:op.T]
		if op.Step > 0 {
			h := w.get(op.O)
			q := append([]byte{}, p...)
			for len(q) > 0 {
				k := min(op.Step, len(q))
				n, err := h.Write(q[:k])
				o.N += n
				o.Err = o.Err || err != nil
				scribble(q[:k], 7)
				q = q[k:]
			}
			break
		}
		if op.T-op.F > 1<<20 {
			// Too large to copy every time; still compared afterwards.
			q := append([]byte{}, p...)
			n, err := w.get(op.O).Write(q)
			o.N, o.Err = n, err != nil
			if !bytes.Equal(p, q) {
				o.Mod = "argument"
			}
			scribble(q, 7)
			break
		}
		if op.Ro > 0 && len(p) > 0 {
			if op.Ro < 3 {
				q, free := roArg(p, op.Ro)
				defer free()
				p = q
			}
			n, err := w.get(op.O).Write(p[:len(p):len(p)])
			o.N, o.Err = n, err != nil
			break
		}
		whole, mid := w.arg(p, (7*len(p)+5*op.F)%48)
		if op.T == op.F && op.Cap == 1 {
			mid = nil
		}
		n, err := w.put(w.get(op.O), mid)
		o.N, o.Err = n, err != nil
		o.Mod = checkArg(whole, p, 0)
		scribble(whole, 7)
	case "bulk": // F bytes, N MiB and T bytes of the repeated buffer
		h := w.get(op.O)
		o.N = op.N
		put := func(p []byte) {
			if n, err := h.Write(p); n != len(p) || err != nil {
				o.N, o.Err = -1, err != nil
			}
		}
		if op.Cap == 1 { // in one write, of zeros that take no memory
			m := zeros(op)
			if m == nil {
				o.Skip = "no memory"
				break
			}
			put(m[:op.F])
			put(m[:op.N<<20+op.T])
			syscall.Munmap(m)
			break
		}
		buf := make([]byte, 1<<20)
		if w.s.Streams[op.S].Kind != "zero" {
			scn.Fill(buf, w.s.Streams[op.S].Seed)
		}
		put(buf[:op.F])
		for i := 0; i < op.N; i++ {
			put(buf)
		}
		put(buf[:op.T])
	case "bulkone": // the same zeros in one call
		m := zeros(op)
		if m == nil {
			o.Skip = "no memory"
			break
		}
		p := m[:op.F+op.N<<20+op.T]
		if w.s.Backend == "cgo" {
			out, c := cgo.Sum(p)
			o.Out, o.Col = append(scn.Hex{}, out...), c
		} else {
			out, c := sha1cd.Sum(p)
			o.Out, o.Col = out[:], c
		}
		syscall.Munmap(m)
	case "sum", "crsum":
		h := w.get(op.O)
		whole, mid := arg(op.In, op.Cap)
		if len(op.In) == 0 && op.Cap == 0 {
			mid = nil
		}
		if op.Ro > 0 && len(op.In) > 0 && op.Cap == 0 {
			q, free := roArg(op.In, op.Ro)
			defer free()
			mid = q
		}
		var out []byte
		if op.Op == "sum" {
			out = h.Sum(mid)
		} else {
			out, o.Col = h.(sha1cd.CollisionResistantHash).CollisionResistantSum(mid)
		}
		o.Out = append(scn.Hex{}, out...)
		skip := 0
		if op.Cap >= 20 {
			skip = 20
		}
		o.Mod = checkArg(whole, op.In, skip)
		w.keep(op.Op, out)
		for i := 0; i < op.Rep; i++ {
			var x []byte
			c := o.Col
			if op.Op == "sum" {
				x = h.Sum(op.In[:len(op.In):len(op.In)])
			} else {
				x, c = h.(sha1cd.CollisionResistantHash).CollisionResistantSum(op.In[:len(op.In):len(op.In)])
			}
			if c != o.Col || !bytes.Equal(x, o.Out) {
				o.Out, o.Col = x, c
				break
			}
		}
	case "reset":
		w.get(op.O).Reset()
	case "marshal":
		m, ok := w.get(op.O).(encoding.BinaryMarshaler)
		if !ok {
			o.Skip = "no checkpoints"
			break
		}
		b, err := m.MarshalBinary()
		if a, ok := m.(encoding.BinaryAppender); ok && op.Slot%2 == 1 {
			b, err = a.AppendBinary([]byte("abc"))
			if len(b) < 3 || string(b[:3]) != "abc" {
				o.Mod = "argument"
			} else {
				b = b[3:]
			}
		}
		o.Err = err != nil
		o.B = append(scn.Hex{}, b...)
		for i := 0; i < op.Rep; i++ {
			x, err := m.MarshalBinary()
			if err != nil || !bytes.Equal(x, b) {
				o.Err = err != nil
				o.B = append(scn.Hex{}, x...)
				b = x
				break
			}
		}
		w.slots[op.Slot] = append([]byte{}, b...)
		if op.Cap == 1 {
			scribble(b, 3) // the caller may do what it likes with it
		} else {
			w.keep("checkpoint", b)
		}
	case "unmarshal":
		m, ok := w.get(op.O).(encoding.BinaryUnmarshaler)
		if !ok {
			o.Skip = "no checkpoints"
			break
		}
		b := []byte(op.B)
		if op.Slot > 0 {
			b = w.slots[op.Slot]
		}
		o.B = append(scn.Hex{}, b...)
		whole, mid := w.arg(b, 24*(op.O%2))
		if op.Cap == 1 && len(b) == 0 {
			mid = nil
		}
		if op.Ro > 0 && len(b) > 0 {
			q, free := roArg(b, op.Ro)
			defer free()
			mid = q
		}
		err := m.UnmarshalBinary(mid)
		o.Err = err != nil
		o.Mod = checkArg(whole, b, 0)
		scribble(whole, 5)
	case "oneshot":
		p := w.streams[op.S][op.F:op.T]
		whole, mid := w.arg(p, 7*len(p)%48)
		if op.T == op.F && op.Cap == 1 {
			mid = nil
		}
		if op.Ro > 0 && len(p) > 0 {
			mid = p[:len(p):len(p)]
			if op.Ro < 3 {
				q, free := roArg(p, op.Ro)
				defer free()
				mid = q
			}
		}
		if w.s.Backend == "cgo" {
			out, c := cgo.Sum(mid)
			o.Out, o.Col = append(scn.Hex{}, out...), c
			w.keep("oneshot", out)
		} else {
			out, c := sha1cd.Sum(mid)
			o.Out, o.Col = out[:], c
		}
		o.Mod = checkArg(whole, p, 0)
		scribble(whole, 9)
		p = p[:len(p):len(p)]
		for i := 0; i < op.Rep; i++ {
			var x []byte
			var c bool
			if w.s.Backend == "cgo" {
				x, c = cgo.Sum(p)
			} else {
				var a [sha1cd.Size]byte
				a, c = sha1cd.Sum(p)
				x = a[:]
			}
			if c != o.Col || !bytes.Equal(x, o.Out) {
				o.Out, o.Col = append(scn.Hex{}, x...), c
				break
			}
		}
	case "rehash": // like oneshot, with an object that is reset in between
		p := w.streams[op.S][op.F:op.T]
		h := w.newHash()
		for i := 0; i <= op.Rep; i++ {
			if i > 0 {
				h.Reset()
			}
			for f := 0; f < len(p); {
				t := len(p)
				if op.Step > 0 {
					t = min(t, f+op.Step)
				}
				h.Write(p[f:t:t])
				f = t
			}
			x, c := h.(sha1cd.CollisionResistantHash).CollisionResistantSum(nil)
			if i > 0 && c == o.Col && bytes.Equal(x, o.Out) {
				continue
			}
			o.Out, o.Col = append(scn.Hex{}, x...), c
			if i > 0 {
				break
			}
		}
	case "gc":
		runtime.GC()
	case "recheck":
		for _, k := range w.kept {
			if !bytes.Equal(k.buf, k.copy) {
				o.Mod = "result of an earlier " + k.what
			}
		}
	case "mask":
		var m [80]uint32
		for i := 0; i < 16; i++ {
			m[i] = uint32(op.W[4*i])<<24 | uint32(op.W[4*i+1])<<16 | uint32(op.W[4*i+2])<<8 | uint32(op.W[4*i+3])
		}
		for i := 16; i < 80; i++ {
			t := m[i-3] ^ m[i-8] ^ m[i-14] ^ m[i-16]
			m[i] = t<<1 | t>>31
		}
		m0 := m
		o.M = mask(w.s.Backend, &m)
		for i := 0; i < op.Rep && m == m0; i++ {
			if x := mask(w.s.Backend, &m); x != o.M {
				o.M = x
				break
			}
		}
		if m != m0 {
			o.Mod = "expanded message"
		}
	case "dvs":
		if w.s.Backend == "cgo" {
			if cTable == nil {
				o.Skip = "no table"
				break
			}
			o.Dvs = cTable()
		} else {
			o.Dvs = goTable()
		}
	case "consts":
		h := w.get(op.O)
		if op.O == 0 {
			h = w.newHash()
		}
		o.Size, o.Block = h.Size(), h.BlockSize()
	default:
		panic("unknown op " + op.Op)
	}
	return o
}

func run(s *scn.Scn, cfg string) scn.Res {
	w := &world{s: s, objs: map[int]hash.Hash{}, slots: map[int][]byte{}}
	for i := range s.Streams {
		w.streams = append(w.streams, s.Streams[i].Bytes())
	}
	res := scn.Res{ID: s.ID, Cfg: cfg}
	if len(s.Dvs) > 0 && scanTables != "" {
		if !scanned {
			// Once without, so that a table made on first use is there.
			for i := range s.Ops {
				w.do(&s.Ops[i])
			}
			w = &world{s: s, objs: map[int]hash.Hash{}, slots: map[int][]byte{}, streams: w.streams}
			scan()
		}
		substitute(s.Dvs, false)
		defer substitute(s.Dvs, true)
	} else if len(s.Dvs) > 0 {
		old := saved(s.Backend, s.Dvs)
		if !override(s.Backend, s.Dvs) {
			res.Obs = []scn.Obs{{Skip: "table out of reach"}}
			return res
		}
		defer override(s.Backend, old)
	}
	seq := func(w *world, ops []scn.Op, obs []scn.Obs) {
		for i := range ops {
			obs[i] = w.do(&ops[i])
			if obs[i].Panic != "" {
				return
			}
		}
	}
	obs := make([]scn.Obs, len(s.Flat()))
	n := len(s.Ops)
	seq(w, s.Ops, obs[:n])
	var wg sync.WaitGroup
	start := make(chan struct{})
	var local []*world
	for _, p := range s.Par {
		wg.Add(1)
		// Each thread has a world of its own, with the objects so far, so
		// that nothing here orders the threads among each other.
		c := &world{s: w.s, streams: w.streams, objs: maps.Clone(w.objs), slots: maps.Clone(w.slots)}
		local = append(local, c)
		go func(p []scn.Op, o []scn.Obs) {
			defer wg.Done()
			<-start
			seq(c, p, o)
		}(p, obs[n:n+len(p)])
		n += len(p)
	}
	close(start)
	wg.Wait()
	for _, c := range local {
		maps.Copy(w.objs, c.objs)
		maps.Copy(w.slots, c.slots)
		w.kept = append(w.kept, c.kept...)
	}
	seq(w, s.Post, obs[n:])
	res.Obs = obs
	for i := range obs {
		if obs[i].Skip == "no memory" {
			res.Obs = []scn.Obs{{Skip: "table out of reach"}}
			break
		}
	}
	return res
}

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) != 4 {
		fmt.Fprintln(os.Stderr, "usage: drive CFG SCENARIOS RESULTS   (SCENARIOS - : describe the build)")
		os.Exit(2)
	}
	_ = hex.EncodeToString
	if os.Args[2] == "-" {
		fmt.Println(describe())
		return
	}
	f, err := os.Create(os.Args[3])
	if err != nil {
		panic(err)
	}
	bw := bufio.NewWriterSize(f, 1<<16)
	enc := json.NewEncoder(bw)
	err = scn.Each(os.Args[2], func(s *scn.Scn) error {
		r := run(s, os.Args[1])
		if err := enc.Encode(&r); err != nil {
			return err
		}
		return bw.Flush()
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, "drive:", err)
		os.Exit(2)
	}
	if err := f.Close(); err != nil {
		os.Exit(2)
	}
}
