// Package jitter schedules natively run goroutines by random priorities that change at a few points, so that
// a schedule found by the engine, or another one with the same outcome, occurs.
package jitter

import (
	"bytes"
	"math/rand"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

var (
	mu      sync.Mutex
	on      bool
	rnd     *rand.Rand
	drop    = map[int]bool{}
	low     int
	prio    = map[int]int{}
	parked  = map[int]bool{} // waiting at a point
	stalled = map[int]bool{} // blocked elsewhere, or finished, as far as known
	beats   int64
)

// Init chooses the priorities and the points of a run. lits are the points inside of function literals.
func Init(seed int64, sites, lits int) {
	if seed == 0 || sites == 0 {
		return
	}
	on = true
	rnd = rand.New(rand.NewSource(seed))
	for k := rnd.Intn(3); k >= 0; k-- {
		if lits > 0 && rnd.Intn(3) > 0 {
			drop[1000000+rnd.Intn(lits)] = true
		} else {
			drop[rnd.Intn(sites)] = true
		}
	}
}

// Beat tells that the code makes progress.
func Beat() {
	atomic.AddInt64(&beats, 1)
}

func gid() int {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	id, _ := strconv.Atoi(string(f[1]))
	return id
}

// Point is called before each statement of the code that starts goroutines.
func Point(site int) {
	if !on {
		return
	}
	atomic.AddInt64(&beats, 1)
	g := gid()
	mu.Lock()
	if _, ok := prio[g]; !ok {
		prio[g] = rnd.Intn(1000) + 1
	}
	if drop[site] {
		low--
		prio[g] = low
	}
	delete(stalled, g)
	parked[g] = true
	last, since := atomic.LoadInt64(&beats), time.Now()
	for {
		run, wait := true, false
		for o, p := range prio {
			if o == g || p <= prio[g] || stalled[o] {
				continue
			}
			run = false
			if parked[o] {
				wait = true
			}
		}
		if run {
			break
		}
		mu.Unlock()
		time.Sleep(500 * time.Microsecond)
		mu.Lock()
		if b := atomic.LoadInt64(&beats); b != last {
			last, since = b, time.Now()
		} else if !wait && time.Since(since) > 40*time.Millisecond {
			// whoever goes first neither runs nor waits here
			for o, p := range prio {
				if o != g && p > prio[g] && !parked[o] {
					stalled[o] = true
				}
			}
		}
	}
	delete(parked, g)
	mu.Unlock()
}
