//go:build verifconc

package main

import (
	"sync/atomic"
	"unsafe"
)

func install(h func(int, unsafe.Pointer) bool) bool {
	atomic.VerifHook = h
	return true
}
