//go:build race

package main

import "runtime"
import "unsafe"

var hbVar [8]byte

// hb orders what the simulated database does, as a real one would: the race
// detector shall not judge the harness's own state.
func hb() {
	runtime.RaceAcquire(unsafe.Pointer(&hbVar))
	runtime.RaceReleaseMerge(unsafe.Pointer(&hbVar))
}

var endVar [8]byte

// atEnd lets the end of the run see what was done before; it orders nothing else.
func atEnd() { runtime.RaceReleaseMerge(unsafe.Pointer(&endVar)) }

func ended() { runtime.RaceAcquire(unsafe.Pointer(&endVar)) }
