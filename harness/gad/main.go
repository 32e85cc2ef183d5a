// Command gad prints an armed attack block as Go source, for demonstrations.
package main

import (
	"encoding/hex"
	"flag"
	"fmt"
	"math/rand/v2"
	"strings"

	"verif/harness/ref"
	"verif/harness/scn"
)

func main() {
	tab := flag.String("tables", "/tmp/p/tables.json", "")
	k := flag.Int("k", 0, "dv 0..31")
	head := flag.String("head", "", "hex of whole blocks before")
	fill := flag.Int("fill", 64, "bytes of the block in the message; the rest is padding")
	seed := flag.Uint64("seed", 1, "")
	miss := flag.Int("miss", -1, "word of the chaining value that misses")
	miss2 := flag.Int("miss2", -1, "two words that miss in their top bit")
	also := flag.Int("also", -1, "another dv whose conditions hold")
	both := flag.Int("both", -1, "another dv of which the block is an attack block (with -also)")
	second := flag.Int("second", -1, "dv of a second attack block")
	kin := flag.Int("kin", -1, "bytes that the block before has in common with the attack block")
	crowd := flag.Bool("crowd", false, "meet the conditions of as many dvs as possible")
	zero := flag.Int("zero", 0, "bytes at the beginning of the block that are zero")
	flag.Parse()
	t := ref.Load(*tab)
	r := rand.New(rand.NewPCG(*seed, 7))
	env := t.Env(nil)
	o := ref.New()
	h, _ := hex.DecodeString(*head)
	o.Write(env, h)
	blk := make([]byte, 64)
	var fm [64]byte
	for i := *zero; i < *fill; i++ {
		fm[i] = 0xff
	}
	if *fill < 64 {
		copy(blk[*fill:], ref.Pad(uint64(len(h)+*fill)))
	}
	conds := t.CondsOf(*k, -1)
	if *also >= 0 {
		conds = append(conds, t.CondsOf(*also, -1)...)
	}
	ws, ok := ref.Solve(r, ref.Words(blk), ref.Words(fm[:]), conds)
	if *crowd {
		for _, a := range r.Perm(32) {
			c := append(append([]ref.Cond{}, conds...), t.CondsOf(a, -1)...)
			if x, ok := ref.Solve(r, ref.Words(blk), ref.Words(fm[:]), c); ok {
				ws, conds = x, c
			}
		}
	}
	if !ok {
		panic("no solution")
	}
	blk = ref.BytesOf(ws)
	if *kin >= 0 {
		h = append([]byte{}, blk...)
		for i := *kin; i < 64; i++ {
			h[i] = byte(r.Uint32())
		}
		o.Write(env, h)
	}
	w := ref.Expand(blk)
	var ms ref.State
	if *miss >= 0 {
		ms[*miss] = 1 << 13
	}
	if *miss2 >= 0 {
		ms[*miss2], ms[(*miss2+2)%5] = 1<<31, 1<<31
	}
	dm := t.Dm(r, *k, o.H, &w, ms)
	msg := append(h, blk[:*fill]...)
	ovs := []scn.DvOv{{K: *k + 1, T: t.Dvs[*k].Type, DK: t.Dvs[*k].K, DB: t.Dvs[*k].B, Dm: dm}}
	if *both >= 0 {
		d := t.Dvs[*both]
		ovs = append(ovs, scn.DvOv{K: *both + 1, T: d.Type, DK: d.K, DB: d.B, Dm: t.Dm(r, *both, o.H, &w, ref.State{})})
	}
	if *second >= 0 { // followed by another attack block
		o = ref.New()
		o.Write(t.Env(ovs), msg)
		ws, _ := ref.Solve(r, [16]uint32{}, ref.Words([]byte(strings.Repeat("\xff", 64))), t.CondsOf(*second, -1))
		w := ref.Expand(ref.BytesOf(ws))
		d := t.Dvs[*second]
		ovs = append(ovs, scn.DvOv{K: *second + 1, T: d.Type, DK: d.K, DB: d.B, Dm: t.Dm(r, *second, o.H, &w, ref.State{})})
		msg = append(msg, ref.BytesOf(ws)...)
		o.Write(t.Env(ovs), ref.BytesOf(ws))
	} else {
		o = ref.New()
		o.Write(t.Env(ovs), msg)
	}
	out, col := o.Sum(t.Env(ovs))
	fmt.Printf("const msgHex = %q\n", hex.EncodeToString(msg))
	fmt.Printf("const wantHex, wantCol = %q, %v\n", hex.EncodeToString(out), col)
	fmt.Printf("var dvs = []struct {\n\tt, k, b uint32\n\tdm [80]uint32\n}{")
	for _, d := range ovs {
		fmt.Printf("\n\t{%d, %d, %d, [80]uint32{", d.T, d.DK, d.DB)
		for i, x := range d.Dm {
			if i%8 == 0 {
				fmt.Print("\n\t\t")
			}
			fmt.Printf("%#x, ", x)
		}
		fmt.Print("\n\t}},")
	}
	fmt.Println("\n}")
}
