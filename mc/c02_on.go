//go:build sched

package main

import (
	"runtime"

	"github.com/vorlif/spreak/verifsched"
)

const schedHook = true

func schedRun(fs []func(), prec, ats, tos []int, max int) (int, bool, bool) {
	return verifsched.Run(fs, prec, ats, tos, max)
}

func raceErrors() int { return runtime.RaceErrors() }
