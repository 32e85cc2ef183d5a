package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"unsafe"

	"verif/harness/scn"
)

// Where the table cannot be reached by its name (a private copy, a static
// array), its message differences are looked for in the memory of the
// process and substituted wherever they are found.  This is only tried where
// going by the name has no effect.

type ident struct{ t, k, b uint32 }

var (
	scanTables = os.Getenv("DRIVE_SCAN") // the specification's tables
	scanned    bool
	places     map[ident][]uintptr
	masked     map[ident]*[80]uint32 // the real differences, inverted so as not to be found themselves
)

//go:noinline
func loadMasked() {
	b, err := os.ReadFile(scanTables)
	if err != nil {
		fmt.Fprintln(os.Stderr, "drive:", err)
		os.Exit(2)
	}
	var raw struct {
		Dvs []struct {
			Type, K, B uint32
			Dm         []uint32 // halves
		} `json:"dvs"`
	}
	if err := json.Unmarshal(b, &raw); err != nil {
		fmt.Fprintln(os.Stderr, "drive:", err)
		os.Exit(2)
	}
	masked = map[ident]*[80]uint32{}
	for _, d := range raw.Dvs {
		var m [80]uint32
		for i := range m {
			m[i] = ^(d.Dm[2*i]<<16 | d.Dm[2*i+1])
		}
		masked[ident{d.Type, d.K, d.B}] = &m
	}
}

// regions of memory that may hold a table.
func regions() (out [][2]uintptr) {
	f, err := os.Open("/proc/self/maps")
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var from, to uintptr
		var perm, off, dev, ino, path string
		n, _ := fmt.Sscanf(sc.Text(), "%x-%x %s %s %s %s %s", &from, &to, &perm, &off, &dev, &ino, &path)
		if n < 6 || !strings.HasPrefix(perm, "r") || to-from > 256<<20 {
			continue
		}
		if path != "" && path != "[heap]" && !strings.Contains(path, "/drive-") {
			continue
		}
		out = append(out, [2]uintptr{from, to})
	}
	return out
}

//go:nocheckptr
func words(p uintptr) *[80]uint32 { return (*[80]uint32)(*(*unsafe.Pointer)(unsafe.Pointer(&p))) }

//go:nocheckptr
func find(r [2]uintptr, firsts map[uint64]ident) {
	defer func() { recover() }()
	for p := r[0]; p+320 <= r[1]; p += 4 {
		w := words(p)
		id, ok := firsts[uint64(w[0])<<32|uint64(w[1])]
		if !ok {
			continue
		}
		m := masked[id]
		same := true
		for i := range m {
			if w[i] != ^m[i] {
				same = false
				break
			}
		}
		if same {
			places[id] = append(places[id], p)
		}
	}
}

// scan looks for the differences, after the library has been used once.
// What the garbage collector frees has to be overwritten by then
// (GODEBUG=clobberfree=1), so that only what is in use is found.
func scan() {
	scanned = true
	places = map[ident][]uintptr{}
	loadMasked()
	runtime.GC()
	runtime.GC()
	firsts := map[uint64]ident{}
	for id, m := range masked {
		firsts[uint64(^m[0])<<32|uint64(^m[1])] = id
	}
	old := debug.SetGCPercent(-1)
	prev := debug.SetPanicOnFault(true)
	for _, r := range regions() {
		find(r, firsts)
	}
	debug.SetPanicOnFault(prev)
	debug.SetGCPercent(old)
	pg := uintptr(os.Getpagesize())
	for id, ps := range places {
		var keep []uintptr
		for _, p := range ps {
			from := p &^ (pg - 1)
			to := (p + 320 + pg - 1) &^ (pg - 1)
			_, _, e := syscall.Syscall(syscall.SYS_MPROTECT, from, to-from, syscall.PROT_READ|syscall.PROT_WRITE)
			if e == 0 {
				keep = append(keep, p)
			}
		}
		places[id] = keep
	}
}

// substitute puts differences in place; with undo, the real ones.
func substitute(ov []scn.DvOv, undo bool) {
	for _, o := range ov {
		id := ident{o.T, o.DK, o.DB}
		m := masked[id]
		for _, p := range places[id] {
			w := words(p)
			is := true
			for i := range w {
				want := ^m[i]
				if undo {
					want = o.Dm[i]
				}
				is = is && w[i] == want
			}
			if !is { // no longer what it was
				continue
			}
			for i := range w {
				if undo {
					w[i] = ^m[i]
				} else {
					w[i] = o.Dm[i]
				}
			}
		}
	}
}
