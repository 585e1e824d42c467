// Package verifsched delays the goroutines that pass its calls.
//
// It is not part of the program: the checks put it, and the calls, in place when
// they build. Without VERIF_SCHED in the environment, and unless Set is called,
// Y does nothing.
package verifsched

import (
	"expvar"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"
	"time"
)

// Nothing here may synchronise the goroutines that pass: it would hide races from
// the race detector. All of the state is read and written without locks, by
// functions that the race detector does not see, and is only statistical.
var (
	on    bool
	maxUs uint64 = 5000 // longest delay at a site in focus
	seed  uint64 = 1
	rng   uint64

	nsites    int
	syncSites []int

	hits   []uint32 // per site: passes
	focus  []bool   // per site: in focus
	delays uint64
	starts sync.Once
)

func setSites(n int, s []int) {
	nsites, syncSites = n, s
	hits, focus = make([]uint32, n), make([]bool, n)
	expvar.Publish("verifsched", ctl{})
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	rng = seed*0x9e3779b97f4a7c15 + 12345
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SCHED"), 10, 64); err == nil && v > 0 {
		ctl{}.Set(v)
	}
}

type ctl struct{}

// String reports what has been observed.
//
//go:norace
func (ctl) String() string {
	passed, sync := 0, 0
	for i := range hits {
		if hits[i] > 0 {
			passed++
		}
	}
	for _, i := range syncSites {
		if hits[i] > 0 {
			sync++
		}
	}
	return fmt.Sprintf(`{"sites":%d,"sites_passed":%d,"sync_sites":%d,"sync_sites_passed":%d,"delays":%d}`,
		nsites, passed, len(syncSites), sync, delays)
}

// Set turns the delays on, with the given maximum in microseconds, or off (0).
//
//go:norace
func (ctl) Set(us int64) {
	if us <= 0 {
		on = false
		return
	}
	maxUs = uint64(us)
	on = true
	starts.Do(func() { go refocus() })
}

var rare []int

// Rare brings k of the sites into focus that have been passed, but no more than
// max times, until it is called again.
//
//go:norace
func (ctl) Rare(k int, max uint32) {
	for _, i := range rare {
		focus[i] = false
	}
	rare = nil
	var c []int
	for i := range hits {
		if hits[i] > 0 && hits[i] <= max {
			c = append(c, i)
		}
	}
	for ; k > 0 && len(c) > 0; k-- {
		i := c[next()%uint64(len(c))]
		focus[i] = true
		rare = append(rare, i)
	}
}

// refocus keeps choosing the few sites that are slow.
//
//go:norace
func refocus() {
	r := rand.New(rand.NewSource(int64(seed)))
	for {
		var cur []int
		for k := 0; k < 4; k++ {
			i := r.Intn(nsites)
			if r.Intn(4) > 0 && len(syncSites) > 0 {
				i = syncSites[r.Intn(len(syncSites))]
			}
			// one that is never passed is of no use
			for try := 0; try < 20 && hits[i] == 0 && len(syncSites) > 0; try++ {
				i = syncSites[r.Intn(len(syncSites))]
			}
			focus[i] = true
			cur = append(cur, i)
		}
		time.Sleep(time.Duration(20+r.Intn(60)) * time.Millisecond)
		for _, i := range cur {
			focus[i] = false
		}
	}
}

// Y is passed before a statement.
//
//go:norace
func Y(site int) {
	if on {
		slow(site)
	}
}

//go:norace
func next() uint64 {
	x := rng
	x ^= x << 13
	x ^= x >> 7
	x ^= x << 17
	rng = x
	return x >> 11
}

//go:norace
func slow(site int) {
	hits[site]++
	if focus[site] && next()%2 == 0 {
		delays++
		time.Sleep(time.Duration(next()%(maxUs+1)) * time.Microsecond)
		return
	}
	switch next() % 400 {
	case 0:
		delays++
		time.Sleep(time.Duration(next()%200) * time.Microsecond)
	case 1, 2, 3:
		runtime.Gosched()
	}
}
