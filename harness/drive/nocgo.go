//go:build !cgo

package main

const cgoReal = false
