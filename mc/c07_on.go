//go:build maphook

package main

import "runtime"

const mapHook = true

func setMapOrder(f func(n int) int) { runtime.VerifMapOrder(f) }
