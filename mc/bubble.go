package main

import (
	"flag"
	"fmt"
	"sync"
	"testing"
	"testing/synctest"
)

var bubbleInit sync.Once

// bubbles runs f for 0…n-1, each in a bubble of its own, in which the clock starts at 2000-01-01 00:00 UTC
// and advances only when everything sleeps. Up to eight bubbles run at the same time.
func (c *C) bubbles(n int, f func(w, i int)) {
	bubbleInit.Do(func() {
		testing.Init()
		_ = flag.CommandLine.Parse(nil)
	})
	workers := min(n, 8)
	if c.only != "" {
		workers = 1
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	next := 0
	var tests []testing.InternalTest
	for w := 0; w < workers; w++ {
		wg.Add(1)
		tests = append(tests, testing.InternalTest{Name: fmt.Sprint("bubble", w), F: func(t *testing.T) {
			t.Parallel()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= n || c.Expired() || c.Unknown() >= 40 {
					break
				}
				synctest.Test(t, func(*testing.T) { f(w, i) })
			}
			wg.Done()
			select {} // testing.Main would end the process
		}})
	}
	go testing.Main(func(_, _ string) (bool, error) { return true, nil }, tests, nil, nil)
	wg.Wait()
}
