// Command tool makes scenarios and sorts their results.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"

	"verif/harness/ref"
	"verif/harness/scn"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: tool gen|judge|calibrated ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "gen":
		cmdGen(os.Args[2:])
	case "judge":
		cmdJudge(os.Args[2:])
	case "calibrated":
		cmdCalibrated(os.Args[2:])
	case "describe":
		cmdDescribe(os.Args[2:])
	default:
		os.Exit(2)
	}
}

func cmdGen(args []string) {
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	tables := fs.String("tables", "", "")
	hist := fs.String("hist", "", "comma list tag=file")
	seed := fs.Uint64("seed", 1, "")
	backends := fs.String("backends", "go,cgo", "")
	fams := fs.String("fams", "", "comma list family:n")
	out := fs.String("out", "", "")
	repo := fs.String("repo", "/repo", "")
	fs.Parse(args)
	f, err := os.Create(*out)
	if err != nil {
		panic(err)
	}
	bw := bufio.NewWriterSize(f, 1<<20)
	enc := json.NewEncoder(bw)
	counts := map[string]int{}
	fam := ""
	g := &gen{t: ref.Load(*tables), seed: *seed, backends: strings.Split(*backends, ","), repo: *repo}
	g.emit = func(s scn.Scn) {
		counts[fam]++
		if err := enc.Encode(&s); err != nil {
			panic(err)
		}
	}
	hists := map[string]string{}
	for _, h := range strings.Split(*hist, ",") {
		if a, b, ok := strings.Cut(h, "="); ok {
			hists[a] = b
		}
	}
	for _, x := range strings.Split(*fams, ",") {
		name, ns, _ := strings.Cut(x, ":")
		n, _ := strconv.Atoi(ns)
		fam, g.n = name, n
		switch name {
		case "plain":
			g.plain()
		case "extreme":
			g.extremes()
		case "large":
			g.large()
		case "random":
			g.random()
		case "hits":
			g.hits()
		case "sums":
			g.sums()
		case "resets":
			g.resets()
		case "near":
			g.nearMiss()
		case "padnear":
			g.padMiss()
		case "shots":
			g.shots()
		case "hot":
			g.hot()
		case "cond":
			g.condOnly()
		case "padhits":
			g.padHits()
		case "attacks":
			g.attacks()
		case "pairs":
			g.pairs()
		case "ckpt":
			g.checkpoints()
		case "bad":
			g.malformed()
		case "craft":
			g.crafted()
		case "masks":
			g.masks()
		case "dvs":
			g.tables()
		case "cal":
			g.calibrate()
		case "par":
			g.concurrent()
		case "consts":
			g.consts()
		case "split":
			g.splits()
		case "twice":
			g.twice()
		case "deep":
			g.deep()
		case "many":
			g.many()
		case "tail":
			g.tail()
		case "drip":
			g.drip()
		case "first":
			g.first()
		case "crowd":
			g.crowd()
		case "kin":
			g.kin()
		case "bulk", "single", "bhit":
			var mib []int
			for _, s := range strings.Split(ns, "+") {
				v, _ := strconv.Atoi(s)
				mib = append(mib, v)
			}
			switch name {
			case "single":
				g.single(mib)
			case "bhit":
				g.bulkHits(mib)
			default:
				g.bulk(mib)
			}
		case "hist1", "hist2":
			g.hist = loadHist(hists[name])
			g.histories(name[4:], n)
		default:
			panic("family " + name)
		}
	}
	if err := bw.Flush(); err != nil {
		panic(err)
	}
	f.Close()
	json.NewEncoder(os.Stdout).Encode(counts)
}

func loadScn(path string) (order []string, by map[string]*scn.Scn) {
	by = map[string]*scn.Scn{}
	if err := scn.Each(path, func(s *scn.Scn) error {
		by[s.ID] = s
		order = append(order, s.ID)
		return nil
	}); err != nil {
		panic(err)
	}
	return
}

// cmdCalibrated prints, for every results file, the backends for which
// substituting the table had an effect.
func cmdCalibrated(args []string) {
	_, by := loadScn(args[0])
	out := map[string]map[string]int{}
	for _, p := range args[1:] {
		m := map[string]int{}
		scn.Each(p, func(r *scn.Res) error {
			s := by[r.ID]
			for _, o := range r.Obs {
				if o.Col {
					m[s.Backend]++
				}
			}
			return nil
		})
		out[filepath.Base(p)] = m
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

type badEntry struct {
	ID   string `json:"id"`
	Cfg  string `json:"cfg"`
	Why  string `json:"why"`
	File string `json:"file"`
}

type summary struct {
	Executions int            `json:"executions"`
	Distinct   int            `json:"scenarios"`
	ByCfg      map[string]int `json:"by_config"`
	Stats      stats          `json:"stats"`
	False      []badEntry     `json:"false"`
	Bad        []badEntry     `json:"bad"`
	BadTotal   int            `json:"bad_total"`
	Shards     []shard        `json:"shards"`
	Samples    []any          `json:"samples"`
}

type shard struct {
	File   string `json:"file"`
	Events int    `json:"events"`
	Traces int    `json:"traces"`
}

func blocksOf(s *scn.Scn) int {
	n := 0
	for _, o := range s.Flat() {
		if (o.Op == "write" || o.Op == "oneshot" || o.Op == "rehash") && long(s, &o) {
			f, t := clean(s, &o)
			n += 5 + (o.T-o.F-(t-f))/64 // not followed block by block
			continue
		}
		switch o.Op {
		case "write":
			n += (o.T - o.F) / 64
		case "oneshot", "rehash":
			n += (o.T-o.F)/64 + 2
		case "sum", "crsum", "bulkone":
			n += 2
		case "mask":
			n++
		case "dvs":
			n += 20
		}
	}
	return n + 1
}

func cmdJudge(args []string) {
	fs := flag.NewFlagSet("judge", flag.ExitOnError)
	mode := fs.String("mode", "concrete", "concrete, ideal or cross")
	foc := fs.String("focus", "", "")
	tables := fs.String("tables", "", "")
	sc := fs.String("scn", "", "")
	ress := fs.String("res", "", "")
	dir := fs.String("dir", "", "")
	budget := fs.Int("budget", 3000, "blocks per shard")
	shards := fs.Int("shards", 4, "")
	seed := fs.Uint64("seed", 1, "")
	maxBad := fs.Int("maxbad", 4, "")
	dead := fs.String("dead", "", "builds and backends in which substituting the table has no effect")
	fs.Parse(args)
	t := ref.Load(*tables)
	order, by := loadScn(*sc)
	fc := parseFocus(*foc)
	fl := strings.Split(*foc, ",")
	sum := summary{ByCfg: map[string]int{}, Stats: stats{Calls: map[string]int{}}}
	type exec struct {
		s *scn.Scn
		r *scn.Res
	}
	var units [][]exec // what is judged together
	all := map[string][]exec{}
	for _, p := range strings.Split(*ress, ",") {
		if err := scn.Each(p, func(r *scn.Res) error {
			s := by[r.ID]
			if s == nil {
				return fmt.Errorf("unknown scenario %s", r.ID)
			}
			if len(r.Obs) == 1 && r.Obs[0].Skip == "table out of reach" {
				sum.Stats.Skipped++
				return nil
			}
			if len(s.Dvs) > 0 && slices.Contains(strings.Split(*dead, ","), r.Cfg+"/"+s.Backend) {
				sum.Stats.Skipped++
				return nil
			}
			sum.Executions++
			sum.ByCfg[r.Cfg+"/"+s.Backend]++
			if *mode == "cross" {
				all[s.Grp] = append(all[s.Grp], exec{s, r})
			} else {
				units = append(units, []exec{{s, r}})
			}
			return nil
		}); err != nil {
			fmt.Fprintln(os.Stderr, "judge:", err)
			os.Exit(2)
		}
	}
	if *mode == "cross" {
		seen := map[string]bool{}
		for _, id := range order {
			if g := by[id].Grp; !seen[g] && len(all[g]) > 0 {
				seen[g] = true
				units = append(units, all[g])
			}
		}
	}
	sum.Distinct = len(order)
	render := func(i int, u []exec) []ev {
		if *mode == "concrete" {
			return concreteTrace(t, u[0].s, u[0].r, fl)
		}
		var out []ev
		for _, e := range u {
			out = append(out, idealTrace(fmt.Sprint(i, "-", e.s.Grp), e.s, e.r, fl)...)
		}
		return out
	}
	write := func(name string, evs []ev) {
		f, err := os.Create(name)
		if err != nil {
			panic(err)
		}
		bw := bufio.NewWriterSize(f, 1<<20)
		enc := json.NewEncoder(bw)
		for _, e := range evs {
			enc.Encode(e)
		}
		bw.Flush()
		f.Close()
	}
	var good []int
	type badUnit struct {
		i, cost      int
		id, cfg, why string
	}
	var bads []badUnit
	for i, u := range units {
		why := ""
		e := u[0]
		if *mode == "concrete" {
			why = concrete(t, e.s, e.r, fc, &sum.Stats)
		} else {
			d := newIdeal()
			for _, x := range u {
				if w := d.judge(x.s, x.r, fc, &sum.Stats); w != "" && why == "" {
					why, e = w, x
				}
			}
		}
		if why == "" {
			good = append(good, i)
			continue
		}
		sum.BadTotal++
		cost := 0
		for _, x := range u {
			cost += blocksOf(x.s)
		}
		bads = append(bads, badUnit{i, cost, e.s.ID, e.r.Cfg, why})
	}
	// The cheapest go to TLC.
	sort.SliceStable(bads, func(a, b int) bool { return bads[a].cost < bads[b].cost })
	for n, b := range bads[:min(len(bads), *maxBad)] {
		u := units[b.i]
		if *mode == "concrete" && b.cost > 2000 {
			u = []exec{{}}
			u[0].s, u[0].r = narrow(units[b.i][0].s, units[b.i][0].r, b.why)
		}
		name := filepath.Join(*dir, fmt.Sprintf("bad-%d.ndjson", n))
		write(name, render(b.i, u))
		sum.Bad = append(sum.Bad, badEntry{b.id, b.cfg, b.why, name})
	}
	// A sample of the others, spread over the scenario families and builds.
	r := rand.New(rand.NewPCG(*seed, 99))
	r.Shuffle(len(good), func(i, j int) { good[i], good[j] = good[j], good[i] })
	rank := map[int]int{}
	seen := map[string]int{}
	for _, i := range good {
		e := units[i][0]
		f, _, _ := strings.Cut(e.s.ID, "-")
		k := f + e.s.Backend + e.r.Cfg
		rank[i] = seen[k]
		seen[k]++
	}
	sort.SliceStable(good, func(a, b int) bool { return rank[good[a]] < rank[good[b]] })
	load := make([]int, *shards)
	evs := make([][]ev, *shards)
	sh := make([]shard, *shards)
	for _, i := range good {
		cost := 0
		for _, e := range units[i] {
			if *mode == "concrete" {
				cost += blocksOf(e.s)
			} else {
				cost += len(e.s.Flat())
			}
		}
		b := 0
		for j := range load {
			if load[j] < load[b] {
				b = j
			}
		}
		if cost > *budget/3 || load[b]+cost > *budget {
			continue
		}
		load[b] += cost
		x := render(i, units[i])
		evs[b] = append(evs[b], x...)
		sh[b].Traces += len(units[i])
		if len(sum.Samples) < 2 && len(x) < 40 {
			sum.Samples = append(sum.Samples, map[string]any{"scenario": units[i][0].s.ID, "config": units[i][0].r.Cfg, "calls": brief(units[i][0].s, units[i][0].r)})
		}
	}
	for j := range evs {
		if len(evs[j]) > 0 {
			sh[j].File = filepath.Join(*dir, fmt.Sprintf("ok-%d.ndjson", j))
			sh[j].Events = len(evs[j])
			write(sh[j].File, evs[j])
			sum.Shards = append(sum.Shards, sh[j])
		}
	}
	// Negative controls: executions in which one result has been falsified.
	// TLC has to reject them.
	var none stats
	none.Calls = map[string]int{}
	for _, asp := range aspects(fc, *mode) {
		tries := 0
	search:
		for _, i := range good {
			u := units[i]
			cost := 0
			for _, e := range u {
				cost += blocksOf(e.s)
			}
			if cost > 300 {
				continue
			}
			if tries++; tries > 400 {
				break
			}
			last := u[len(u)-1]
			for k := len(last.r.Obs) - 1; k >= 0; k-- {
				ops := last.s.Flat()
				if k >= len(ops) {
					continue
				}
				fr, ok := falsify(&ops[k], last.r, k, asp)
				if !ok {
					continue
				}
				v := append(append([]exec{}, u[:len(u)-1]...), exec{last.s, fr})
				why := ""
				if *mode == "concrete" {
					why = concrete(t, v[0].s, v[0].r, fc, &none)
				} else {
					d := newIdeal()
					for _, x := range v {
						if w := d.judge(x.s, x.r, fc, &none); w != "" {
							why = w
						}
					}
				}
				if why == "" {
					continue
				}
				name := filepath.Join(*dir, "false-"+asp+".ndjson")
				write(name, render(i, v))
				sum.False = append(sum.False, badEntry{last.s.ID, last.r.Cfg, why, name})
				break search
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(&sum)
}

// aspects to falsify for a focus.
func aspects(fc focus, mode string) []string {
	var out []string
	has := func(p string) bool {
		for k := range fc {
			if strings.HasPrefix(k, p) {
				return true
			}
		}
		return false
	}
	for _, a := range []string{"out", "col", "blob", "err", "n", "mem"} {
		if has(a) {
			out = append(out, a)
		}
	}
	return append(out, "other")
}

// falsify changes one observation.
func falsify(op *scn.Op, r *scn.Res, k int, asp string) (*scn.Res, bool) {
	o := r.Obs[k]
	if o.Skip != "" || o.Panic != "" {
		return nil, false
	}
	sum := op.Op == "sum" || op.Op == "crsum" || op.Op == "oneshot" || op.Op == "rehash" || op.Op == "bulkone"
	switch {
	case asp == "out" && sum && len(o.Out) > 0:
		o.Out = append(scn.Hex{}, o.Out...)
		o.Out[len(o.Out)-1] ^= 1
	case asp == "col" && sum && op.Op != "sum":
		o.Col = !o.Col
	case asp == "blob" && op.Op == "marshal" && len(o.B) > 0:
		o.B = append(scn.Hex{}, o.B...)
		o.B[len(o.B)/2] ^= 0x10
	case asp == "err" && op.Op == "unmarshal":
		o.Err = !o.Err
	case asp == "n" && (op.Op == "write" || op.Op == "bulk"):
		o.N++
	case asp == "mem" && sum:
		o.Mod = "argument"
	case asp == "other" && op.Op == "mask":
		o.M ^= 1 << 7
	case asp == "other" && op.Op == "consts":
		o.Block++
	case asp == "other" && op.Op == "dvs" && len(o.Dvs) > 0:
		o.Dvs = append([]scn.Dv{}, o.Dvs...)
		o.Dvs[len(o.Dvs)/2].Dm[41] ^= 1
	default:
		return nil, false
	}
	c := *r
	c.Obs = append([]scn.Obs{}, r.Obs...)
	c.Obs[k] = o
	return &c, true
}

// narrow keeps of a long execution what led to the disagreement: the calls
// on the object concerned, up to it.
func narrow(s *scn.Scn, r *scn.Res, why string) (*scn.Scn, *scn.Res) {
	var at int
	if n, _ := fmt.Sscanf(why, "call %d:", &at); n != 1 {
		return s, r
	}
	ops := s.Flat()
	if at > len(ops) || at > len(r.Obs) {
		return s, r
	}
	last := ops[at-1]
	c := *s
	c.Ops, c.Par, c.Post = nil, nil, nil
	d := scn.Res{ID: r.ID, Cfg: r.Cfg}
	for i, o := range ops[:at] {
		// A sum is not needed to judge a later call.
		if i == at-1 || last.Op != "bulkone" && last.Op != "oneshot" && last.Op != "rehash" && o.O == last.O && o.Op != "sum" && o.Op != "crsum" && o.Op != "oneshot" && o.Op != "rehash" {
			c.Ops = append(c.Ops, o)
			d.Obs = append(d.Obs, r.Obs[i])
		}
	}
	return &c, &d
}

// brief renders an execution for a reader.
func brief(s *scn.Scn, r *scn.Res) []string {
	var out []string
	ops := s.Flat()
	for i, op := range ops {
		if i >= len(r.Obs) {
			break
		}
		o := r.Obs[i]
		t := op.Op
		switch op.Op {
		case "write":
			t = fmt.Sprintf("object %d: write %d bytes (stream %d, %d..%d) -> %d", op.O, op.T-op.F, op.S, op.F, op.T, o.N)
		case "sum", "crsum":
			t = fmt.Sprintf("object %d: %s -> %x, collision %v", op.O, op.Op, []byte(o.Out), o.Col)
		case "oneshot", "rehash":
			t = fmt.Sprintf("sum of %d bytes -> %x, collision %v", op.T-op.F, []byte(o.Out), o.Col)
		case "bulk":
			t = fmt.Sprintf("object %d: write %d bytes, %d MiB and %d bytes", op.O, op.F, op.N, op.T)
		case "bulkone":
			t = fmt.Sprintf("sum of %d MiB and %d bytes -> %x, collision %v", op.N, op.F+op.T, []byte(o.Out), o.Col)
		case "marshal":
			t = fmt.Sprintf("object %d: checkpoint -> %x", op.O, []byte(o.B))
		case "unmarshal":
			t = fmt.Sprintf("object %d: restore %x -> error %v", op.O, []byte(o.B), o.Err)
		case "mask":
			t = fmt.Sprintf("mask of block %x -> %08x", []byte(op.W), o.M)
		case "dvs":
			t = fmt.Sprintf("table -> %d entries", len(o.Dvs))
		case "new", "reset":
			t = fmt.Sprintf("object %d: %s", op.O, op.Op)
		}
		if o.Panic != "" {
			t += " PANIC " + o.Panic
		}
		if o.Skip != "" {
			t += " (not available)"
		}
		out = append(out, t)
	}
	return out
}

// cmdDescribe prints one execution: SCENARIOS RESULTS ID
func cmdDescribe(args []string) {
	_, by := loadScn(args[0])
	scn.Each(args[1], func(r *scn.Res) error {
		if r.ID == args[2] {
			for _, l := range brief(by[r.ID], r) {
				fmt.Println(l)
			}
		}
		return nil
	})
}
