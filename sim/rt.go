package main

import (
	"context"
	"runtime"
)

func runtimeSimGID() uint32 { return runtime.SimGID() }

// goroutinesInRun is the number of live goroutines of the run, the caller included.
func goroutinesInRun() int { return runtime.SimGoroutines() }

func ctxBackground() context.Context { return context.Background() }
