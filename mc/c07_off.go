//go:build !maphook

package main

const mapHook = false

func setMapOrder(func(n int) int) {}
