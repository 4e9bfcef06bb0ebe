//go:build go1.22 && !verifrt

package main

import "time"

// setOrder: without the instrumented runtime map iteration and the clock are what they are.
func setOrder(order int, clock time.Duration) {}
