//go:build cgo && noctable

package main

const cgoReal = true
