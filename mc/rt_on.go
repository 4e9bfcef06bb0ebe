//go:build go1.22 && verifrt

package main

import (
	"runtime"
	"time"
)

// setOrder fixes where every iteration over a map begins and shifts the clock of the machine.
func setOrder(order int, clock time.Duration) {
	runtime.VerifSetMapOrder(uint32(order))
	time.VerifSetShift(int64(clock / time.Second))
}
