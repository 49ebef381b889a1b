//go:build !verifconc

package main

import "unsafe"

func install(func(int, unsafe.Pointer) bool) bool { return false }
