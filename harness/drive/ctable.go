//go:build cgo && !noctable

package main

// #cgo CFLAGS: -I/repo/cgo
// #include <stdint.h>
// #include <unistd.h>
// #include <sys/mman.h>
// #include "ubc_check.h"
// // By another name: whatever the qualifiers of the table.
// extern dv_info_t drive_dvs[] __asm__("sha1_dvs") __attribute__((weak));
// static int have(void) { return drive_dvs != 0; }
// static dv_info_t *at(int i) { return &drive_dvs[i]; }
// static int unlock(void)
// {
//	uintptr_t pg = sysconf(_SC_PAGESIZE), from = (uintptr_t)drive_dvs & ~(pg - 1);
//	uintptr_t to = ((uintptr_t)(drive_dvs + 33) + pg - 1) & ~(pg - 1);
//	return mprotect((void *)from, to - from, PROT_READ | PROT_WRITE);
// }
import "C"

import "verif/harness/scn"

const cgoReal = true

func init() {
	if C.have() == 0 {
		return
	}
	cTable = func() []scn.Dv {
		var out []scn.Dv
		for i := 0; i < 64; i++ {
			d := C.at(C.int(i))
			if d.dvType != 1 && d.dvType != 2 { // the end, with or without an entry for it
				break
			}
			e := scn.Dv{Type: uint32(d.dvType), K: uint32(d.dvK), B: uint32(d.dvB), T: uint32(d.testt), Bit: uint32(d.maskb)}
			for j := range e.Dm {
				e.Dm[j] = uint32(d.dm[j])
			}
			out = append(out, e)
		}
		return out
	}
	if C.unlock() != 0 {
		return
	}
	cOverride = func(ov []scn.DvOv) bool {
		for i := 0; i < 64; i++ {
			d := C.at(C.int(i))
			if d.dvType != 1 && d.dvType != 2 { // the end, with or without an entry for it
				break
			}
			for _, o := range ov {
				if uint32(d.dvType) == o.T && uint32(d.dvK) == o.DK && uint32(d.dvB) == o.DB {
					for j := range o.Dm {
						d.dm[j] = C.uint32_t(o.Dm[j])
					}
				}
			}
		}
		return true
	}
}
