// Package yield is what the instrumented copy of the code under test calls before every statement.
// A test case decides which of these points hold up the goroutine passing them, and for how long.
package yield

import (
	"sync/atomic"
	"time"
)

// Max is the largest number of yield points supported.
const Max = 1 << 14

var (
	delays [Max]int32 // microseconds; 0 = none
	budget [Max]int32 // how many more times the delay applies
	hits   [Max]int32
)

// Delay holds up goroutines at a yield point.
type Delay struct {
	Site int `json:"site"`
	Us   int `json:"us"`
	N    int `json:"n"` // how many passes are delayed
}

// Y is a yield point.
func Y(site int) {
	if site >= Max {
		return
	}
	d := atomic.LoadInt32(&delays[site])
	if d == 0 {
		return
	}
	if !take(site) {
		return
	}
	time.Sleep(time.Duration(d) * time.Microsecond)
}

// take must not create happens-before edges that would hide races from the race detector.
//
//go:norace
func take(site int) bool {
	if budget[site] <= 0 {
		return false
	}
	budget[site]--
	hits[site]++
	return true
}

//go:norace
func setBudget(site, n int) { budget[site] = int32(n); hits[site] = 0 }

//go:norace
func readHits(site int) int { return int(hits[site]) }

// Set installs the delays (replacing earlier ones).
func Set(ds []Delay) {
	Clear()
	for _, d := range ds {
		if d.Site < 0 || d.Site >= Max {
			continue
		}
		n := d.N
		if n <= 0 {
			n = 1
		}
		setBudget(d.Site, n)
		atomic.StoreInt32(&delays[d.Site], int32(d.Us))
		installed = append(installed, d.Site)
	}
}

var installed []int

// Clear removes all delays.
func Clear() {
	for _, s := range installed {
		atomic.StoreInt32(&delays[s], 0)
	}
	installed = installed[:0]
}

// Hits tells how often delays applied since Set.
func Hits(ds []Delay) int {
	n := 0
	for _, d := range ds {
		if d.Site >= 0 && d.Site < Max {
			n += readHits(d.Site)
		}
	}
	return n
}
