package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hound-search/hound/config"
)

func init() {
	register(&Check{ID: "C14", Fn: c14,
		Rule:   "2-12 scripted repositories under a limit of 1-5, with random delays and failures inside the VCS commands, at startup (some repositories never start, and there are restarts with working copies that are cloned anew) and under simultaneous polling and push updates; at every entry of a VCS command the number in flight is compared with the limit, and a sampler adds the index builds seen half-done in the data directory at two successive scans (a sound lower bound on builds in progress); afterwards every repository must have been served its newest revision; non-trivial = distinct (repositories, limit, phase, occupancy)",
		Assume: []string{"builds are observed through the data directory: an index directory without manifest at two successive scans was being built in between"},
	})
}

type c14mon struct {
	t      *T
	lim    int32
	desc   string
	in     int32
	inRepo sync.Map
	max    int32
	phase  atomic.Value
	pulls  sync.Map // repository -> *int64, commands begun
}

func (c *c14mon) begun(repo string) int64 {
	v, _ := c.pulls.LoadOrStore(repo, new(int64))
	return atomic.LoadInt64(v.(*int64))
}

func (c *c14mon) enter(repo string) {
	v, _ := c.pulls.LoadOrStore(repo, new(int64))
	atomic.AddInt64(v.(*int64), 1)
	n := atomic.AddInt32(&c.in, 1)
	c.t.Eval(1)
	c.t.Count("commands", 1)
	c.t.Distinct(c.desc, c.phase.Load(), n)
	for {
		m := atomic.LoadInt32(&c.max)
		if n <= m || atomic.CompareAndSwapInt32(&c.max, m, n) {
			break
		}
	}
	if n > c.lim {
		c.t.Violate("over-limit", nil, "%s, %v: %d VCS commands in flight with a limit of %d", c.desc, c.phase.Load(), n, c.lim)
	}
	if _, dup := c.inRepo.LoadOrStore(repo, true); dup {
		c.t.Violate("twice", nil, "%s, %v: two VCS commands of %s in flight at once", c.desc, c.phase.Load(), repo)
	}
}

func (c *c14mon) leave(repo string) {
	c.inRepo.Delete(repo)
	atomic.AddInt32(&c.in, -1)
}

// building lists the repositories with a half-done index directory.
func c14building(db string, complete map[string]bool) map[string]bool {
	out := map[string]bool{}
	for _, d := range idxDirs(db) {
		if complete[d] {
			continue
		}
		if _, err := os.Stat(filepath.Join(db, d, "metadata.gob")); err == nil {
			complete[d] = true
			continue
		}
		es, err := os.ReadDir(filepath.Join(db, d, "raw"))
		if err != nil {
			continue
		}
		for _, e := range es {
			if strings.HasPrefix(e.Name(), "00-repo-") {
				out[d+"/"+e.Name()] = true
			}
		}
	}
	return out
}

func c14(t *T) {
	t.ParDelayed(t.N(10, 400), 4, 5000, func(i int) { c14run(t, i) })
	if t.Counter("builds_observed") == 0 || t.Counter("at_limit") == 0 {
		t.Inconclusive("no build was observed or the limit was never reached")
	}
}

func c14run(t *T, i int) {
	r := t.Rng("run", i)
	n, lim := 2+r.Intn(11), 1+r.Intn(5)
	mon := &c14mon{t: t, lim: int32(lim), desc: fmt.Sprintf("%d repositories, limit %d (run %d)", n, lim, i)}
	mon.phase.Store("startup")
	db := t.Dir("db")
	defer os.RemoveAll(db)
	files := []int{5, 40, 120}[r.Intn(3)]
	maxDelay := []int{0, 2000, 10000}[r.Intn(3)]
	repos := map[string]*config.Repo{}
	rem := map[string]*Remote{}
	push := map[string]bool{}
	var quiet, broken int32
	dead := map[string]bool{}
	for k := 0; k < n; k++ {
		k := k
		id := fmt.Sprintf("c14-%d-%d", i, k)
		m := newRemote(id, nil)
		m.Tree = func(rev int) Tree {
			tr := tokenTree(id, rev, 5, 0)
			tr["00-repo-"+id] = "x\n"
			for f := 0; f < files; f++ {
				tr[fmt.Sprintf("fill/%04d", f)] = fmt.Sprintf("file %d\n%s", f, strings.Repeat("some text here\n", 50))
			}
			return tr
		}
		nm := fmt.Sprintf("r%02d", k)
		gone := i%3 == 2 && r.Intn(3) == 0
		rr := t.Rng("delays", i, k)
		var rmu sync.Mutex
		m.Before = func(kind, dir string) error {
			mon.enter(id)
			rmu.Lock()
			d, f := 0, rr.Intn(6) == 0
			if maxDelay > 0 {
				d = rr.Intn(maxDelay)
			}
			rmu.Unlock()
			time.Sleep(time.Duration(d) * time.Microsecond)
			if gone && kind != "headrev" || kind == "pull" && atomic.LoadInt32(&broken) == 1 {
				mon.leave(id)
				return fmt.Errorf("injected")
			}
			if f && kind == "pull" && atomic.LoadInt32(&quiet) == 0 {
				mon.leave(id)
				return fmt.Errorf("injected")
			}
			return nil
		}
		m.After = func(string, string, int) error { mon.leave(id); return nil }
		m2 := m
		// headrev returns before After
		m.Before = func(inner func(string, string) error) func(string, string) error {
			return func(kind, dir string) error {
				if kind == "headrev" {
					return nil
				}
				return inner(kind, dir)
			}
		}(m.Before)
		defer m2.drop()
		push[nm] = r.Intn(3) > 0
		repos[nm], rem[nm] = fakeRepo(m, repoOpt{push: push[nm], poll: !push[nm] || r.Intn(2) == 0, ms: 1 + r.Intn(10)}), m
		if gone { // never starts
			dead[nm] = true
			delete(rem, nm)
			t.Count("failing_starts", 1)
		}
	}
	// sampler
	stop := make(chan bool)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		complete := map[string]bool{}
		prev := map[string]bool{}
		var before, now map[string]int64
		var ids []string
		for nm := range rem {
			ids = append(ids, rem[nm].ID)
		}
		snap := func() map[string]int64 {
			m := map[string]int64{}
			for _, id := range ids {
				m[id] = mon.begun(id)
			}
			return m
		}
		for {
			select {
			case <-stop:
				return
			default:
			}
			// commands in flight at one instant between the two scans
			var cmds []string
			mon.inRepo.Range(func(k, _ interface{}) bool { cmds = append(cmds, k.(string)); return true })
			inflight := int(atomic.LoadInt32(&mon.in))
			before, now = now, snap()
			cur := c14building(db, complete)
			end := snap()
			both := map[string]bool{}
			for d := range cur {
				// no command of the repository began since before the previous
				// scan, so what both scans saw is one and the same build
				id := strings.TrimPrefix(strings.SplitN(d, "/", 2)[1], "00-repo-")
				if prev[d] && !complete[strings.SplitN(d, "/", 2)[0]] && before != nil && before[id] == end[id] {
					both[id] = true
				}
			}
			prev = cur
			if len(both) > 0 {
				t.Count("builds_observed", 1)
			}
			if len(both)+inflight >= lim {
				t.Count("at_limit", 1)
			}
			t.Max("max_builds_at_once", int64(len(both)))
			if len(both)+inflight > lim {
				t.Violate("over-limit-build", nil, "%s, %v: %d index builds %v and %d VCS commands %v at once with a limit of %d", mon.desc, mon.phase.Load(), len(both), both, inflight, cmds, lim)
				return
			}
			time.Sleep(300 * time.Microsecond)
		}
	}()
	start := func() *Lab {
		lab, err := newLab(t, db, lim, repos)
		if err != nil || len(lab.Errs) != len(dead) || len(lab.Searchers) != len(rem) {
			t.Violate("startup", nil, "%s: startup failed: %v %v", mon.desc, err, lab)
			return nil
		}
		return lab
	}
	lab := start()
	if lab == nil {
		close(stop)
		return
	}
	if r.Intn(2) == 0 {
		// once more, with working copies that cannot be pulled and are cloned anew
		if !lab.Close() {
			t.Violate("stop", nil, "%s: searchers did not stop", mon.desc)
		}
		for _, m := range rem {
			if r.Intn(2) == 0 {
				m.Commit()
			}
		}
		mon.phase.Store("restart")
		atomic.StoreInt32(&broken, 1)
		lab = start()
		atomic.StoreInt32(&broken, 0)
		if lab == nil {
			close(stop)
			return
		}
		t.Count("restarts", 1)
	}
	mon.phase.Store("updates")
	// in some runs requests come all the time, so that one is always pending
	if i%3 == 1 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; ; k++ {
				select {
				case <-stop:
					return
				default:
				}
				for nm := range rem {
					if push[nm] {
						lab.Searchers[nm].Update()
					}
				}
				t.Count("request_rounds", 1)
				if k%64 == 63 {
					time.Sleep(200 * time.Microsecond)
				}
			}
		}()
	}
	for k := 0; k < t.N(2, 6); k++ {
		want := map[string]int{}
		for nm, m := range rem {
			want[nm] = m.Commit()
		}
		for nm := range rem {
			if push[nm] {
				lab.Searchers[nm].Update()
			}
		}
		time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
		atomic.StoreInt32(&quiet, 1) // no more failures: everyone must get there
		stamp := tick()
		_ = stamp
		for nm := range rem {
			if push[nm] {
				lab.Searchers[nm].Update()
			}
		}
		for nm, rev := range want {
			got, msg := 0, ""
			for tries := 0; tries < 60; tries++ {
				if got, msg = lab.waitRev(nm, rev, 500*time.Millisecond); msg == "" {
					break
				}
				// the request above may have been taken by a pull that failed
				if push[nm] {
					lab.Searchers[nm].Update()
				}
			}
			if msg != "" {
				t.Violate("starved", nil, "%s: %s never got its turn: revision %d of %d: %s", mon.desc, nm, got, rev, msg)
			}
		}
		atomic.StoreInt32(&quiet, 0)
	}
	close(stop)
	wg.Wait()
	t.Max("max_commands_at_once", int64(atomic.LoadInt32(&mon.max)))
	if !lab.Close() {
		t.Violate("stop", nil, "%s: searchers did not stop", mon.desc)
	}
	if i < 3 {
		t.Sample(map[string]interface{}{"run": mon.desc, "max_commands": atomic.LoadInt32(&mon.max)})
	}
}
