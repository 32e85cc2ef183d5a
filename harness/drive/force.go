//go:build forcegeneric

package main

import _ "unsafe"

// The library's own switch to portable code, as its tests set it.
//
//go:linkname forceGeneric github.com/pjbgf/sha1cd.forceGeneric
var forceGeneric bool

func init() { forceGeneric = true }
