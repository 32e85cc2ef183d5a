package main

import (
	"fmt"
	"runtime"
)

func describe() string {
	return fmt.Sprintf("%s/%s cgo=%v ctable=%v", runtime.GOOS, runtime.GOARCH, cgoReal, cTable != nil)
}
