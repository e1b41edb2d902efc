package main

import (
	"math/rand"
	"runtime"
	"sync"
	"time"
)

var (
	nrngMu sync.Mutex
	nrng   = rand.New(rand.NewSource(1))
)

// nativeYield perturbs the schedule when the code runs on real goroutines.
func nativeYield() {
	nrngMu.Lock()
	k := nrng.Intn(8)
	nrngMu.Unlock()
	switch {
	case k < 3:
		runtime.Gosched()
	case k == 3:
		time.Sleep(time.Duration(1+k) * 10 * time.Microsecond)
	}
}
