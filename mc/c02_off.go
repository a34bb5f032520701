//go:build !sched

package main

const schedHook = false

func schedRun([]func(), []int, []int, []int, int) (int, bool, bool) { return 0, false, false }

func raceErrors() int { return 0 }
