package main

import (
	"net"
	"os"
	"time"

	"github.com/effective-security/xdb/pkg/flake"
	"github.com/effective-security/xlog"
	"github.com/olekukonko/tablewriter/pkg/twwidth"
)

var bubbleEpoch = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

// simBase is what the simulated wall clock reads when a run starts.
var simBase = time.Date(2026, 3, 1, 12, 0, 0, 0, time.UTC)

// wallNow is the simulated wall clock without skew.
func wallNow() time.Time { return simBase.Add(time.Since(bubbleEpoch)) }

// setupGlobals prepares a simulator process.
func setupGlobals() {
	xlog.SetFormatter(nil)
	xlog.SetGlobalLogLevel(xlog.CRITICAL)
	twwidth.SetCacheCapacity(0) // what one run printed must not change the steps of the next
}

// resetGlobals restores package-level seams between runs.
func resetGlobals() {
	flake.NowFunc = wallNow
	resetSeams()
}

func resetSeams() {
	net.SimDial = nil
	simNet = nil
	os.SimOpen, os.SimRead, os.SimWrite, os.SimClose = nil, nil, nil, nil
}

func simGID() uint32 { return runtimeSimGID() }
