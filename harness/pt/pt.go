// Package pt is the schedule perturbation called between the statements of instrumented code.
package pt

import (
	"math/rand/v2"
	"runtime"
	"sync/atomic"
	"time"
)

const maxSites = 4096

var (
	on      atomic.Bool
	noSleep atomic.Bool
	seed    atomic.Uint64
	hot     [4]atomic.Int64
	hits    [maxSites]atomic.Uint32
	yield   atomic.Uint64
	delay   atomic.Uint64
)

// Enable starts a perturbation epoch: hot are the sites which get long delays.
func Enable(s uint64, hotSites ...int) {
	seed.Store(s)
	for i := range hot {
		if i < len(hotSites) {
			hot[i].Store(int64(hotSites[i]) + 1)
		} else {
			hot[i].Store(0)
		}
	}
	on.Store(true)
}

// EnableYield is Enable without sleeping. In a bubble of virtual time a goroutine asleep with a lock held would stop the
// time for the ones waiting for the lock.
func EnableYield(s uint64) {
	noSleep.Store(true)
	Enable(s)
}

// Disable stops the perturbation.
func Disable() { on.Store(false); noSleep.Store(false) }

// Stats returns the number of distinct sites hit, the yields and the delays so far.
func Stats() (sites int, yields, delays uint64) {
	for i := range hits {
		if hits[i].Load() != 0 {
			sites++
		}
	}
	return sites, yield.Load(), delay.Load()
}

// HitSites returns the sites hit so far.
func HitSites() []int {
	var r []int
	for i := range hits {
		if hits[i].Load() != 0 {
			r = append(r, i)
		}
	}
	return r
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// P is called before every statement of the instrumented code.
func P(site int) {
	if !on.Load() {
		return
	}
	noSync() // what the perturbation does must not order the accesses of the code under test for the race detector
	defer sync()
	if hits[site%maxSites].Load() == 0 {
		hits[site%maxSites].Store(1)
	}
	r := mix(seed.Load() ^ rand.Uint64() ^ uint64(site)<<40)
	if noSleep.Load() {
		if r&0xf == 0 {
			yield.Add(1)
			for n := r >> 60; ; n-- {
				runtime.Gosched()
				if n == 0 {
					break
				}
			}
		}
		return
	}
	for i := range hot {
		if hot[i].Load() == int64(site)+1 {
			if r&3 != 0 {
				delay.Add(1)
				time.Sleep(time.Duration(50+(r>>8)%1500) * time.Microsecond)
			}
			return
		}
	}
	switch {
	case r&0x1f == 0:
		yield.Add(1)
		runtime.Gosched()
	case r&0x3ff == 1:
		delay.Add(1)
		time.Sleep(time.Duration((r>>16)%60) * time.Microsecond)
	}
}
