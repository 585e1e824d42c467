package main

import (
	"encoding/json"
	"expvar"
)

// Delays turns the delays that instr/ has put before the statements of the code
// under test on, each at most us microseconds long, or off (0). They make the
// goroutines that pass a few places, chosen anew every few dozen milliseconds,
// slow, so that others get in between.
func (t *T) Delays(us int64) {
	if v, ok := expvar.Get("verifsched").(interface{ Set(int64) }); ok {
		v.Set(us)
	}
}

// DelayRare makes k places slow that have been passed, but no more than max times.
func (t *T) DelayRare(k int, max uint32) {
	if v, ok := expvar.Get("verifsched").(interface{ Rare(int, uint32) }); ok {
		v.Rare(k, max)
	}
}

// schedInfo reports what the delays have met.
func (t *T) schedInfo() {
	v := expvar.Get("verifsched")
	if v == nil {
		return
	}
	var m map[string]interface{}
	if json.Unmarshal([]byte(v.String()), &m) == nil && m["delays"] != 0.0 {
		t.Info("injected_delays", m)
	}
}

// ParDelayed is Par, the later half of it with delays of up to us microseconds.
func (t *T) ParDelayed(n, workers int, us int64, f func(i int)) {
	t.Par(n/2, workers, f)
	t.Delays(us)
	defer t.Delays(0)
	t.Par(n-n/2, workers, func(i int) { f(n/2 + i) })
}
