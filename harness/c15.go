package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/hound-search/hound/config"
)

func init() {
	register(&Check{ID: "C15", Fn: c15, Bins: []string{"houndd"},
		Rule:   "library: Stop (once, repeatedly, concurrently) at chosen moments: right after startup, idle, while a pull is held, while an update waits for an indexing token, with requests before and after, during builds and at random, in all poll/push settings; Wait must return, and pull events after Stop are judged on the logical clock. Real houndd with a scripted hg stand-in: SIGTERM during the first clone, idle, during a held pull, during rapid updates, repeated; exit status, time, events after the signal, the data directory left, and reuse by the next start are checked; non-trivial = distinct (moment, setting, outcome)",
		Assume: []string{"a hang is reported after a grace of 20 s; normal shutdowns take milliseconds"},
	})
}

const c15grace = 20 * time.Second

func c15(t *T) {
	t.ParDelayed(t.N(120, 3000), 6, 8000, func(i int) {
		switch i % 4 {
		case 0:
			c15idle(t, i)
		case 1:
			c15held(t, i)
		case 2:
			c15token(t, i)
		case 3:
			c15random(t, i)
		}
	})
	t.Par(t.N(28, 400), 6, func(i int) { c15server(t, i) })
	if t.Counter("stops") == 0 || t.Counter("server_stops") == 0 {
		t.Inconclusive("nothing was stopped")
	}
}

// waitAll waits for all searchers.
func c15wait(lab *Lab, d time.Duration) bool {
	done := make(chan bool)
	go func() {
		for _, s := range lab.Searchers {
			s.Wait()
		}
		close(done)
	}()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

func c15lab(t *T, tag string, i, n, lim int, opt func(k int) repoOpt, hook func(k int, m *Remote)) (*Lab, map[string]*Remote, string, func()) {
	repos := map[string]*config.Repo{}
	rem := map[string]*Remote{}
	for k := 0; k < n; k++ {
		id := fmt.Sprintf("c15-%s-%d-%d", tag, i, k)
		m := newRemote(id, nil)
		m.Tree = func(rev int) Tree { return tokenTree(id, rev, 6, 10) }
		if hook != nil {
			hook(k, m)
		}
		nm := fmt.Sprintf("r%d", k)
		repos[nm], rem[nm] = fakeRepo(m, opt(k)), m
	}
	db := t.Dir("db")
	lab, err := newLab(t, db, lim, repos)
	if err != nil || len(lab.Errs) > 0 {
		t.Violate("startup", nil, "startup failed: %v", err)
		return nil, nil, "", func() {}
	}
	return lab, rem, db, func() {
		for _, m := range rem {
			m.drop()
		}
		lab.client.CloseIdleConnections()
		lab.srv.Close()
		os.RemoveAll(db)
	}
}

// the data directory after a stop: one complete index per repository
func c15left(t *T, key, desc, db string, n int) {
	ds := idxDirs(db)
	for _, d := range ds {
		if _, err := os.Stat(filepath.Join(db, d, "metadata.gob")); err != nil {
			t.Violate("left:"+key, nil, "%s: incomplete index directory %s left by the shutdown", desc, d)
		}
	}
	if len(ds) != n {
		t.Violate("left:"+key, nil, "%s: %d index directories left for %d repositories: %v", desc, len(ds), n, ds)
	}
}

func c15idle(t *T, i int) {
	r := t.Rng("idle", i)
	set := (i / 4) % 4
	o := repoOpt{poll: set&1 == 1, push: set&2 == 2, ms: []int{2, 3600000}[r.Intn(2)]}
	lab, rem, db, done := c15lab(t, "idle", i, 3, 2, func(int) repoOpt { return o }, nil)
	if lab == nil {
		return
	}
	defer done()
	desc := fmt.Sprintf("idle stop %d (poll %v every %d ms, push %v)", i, o.poll, o.ms, o.push)
	t.Current("%s", desc)
	if r.Intn(2) == 0 {
		time.Sleep(time.Duration(r.Intn(4000)) * time.Microsecond)
	}
	n := 1 + r.Intn(3)
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, s := range lab.Searchers {
				s.Stop()
			}
		}()
	}
	stopped := make(chan bool)
	go func() { wg.Wait(); close(stopped) }()
	select {
	case <-stopped:
	case <-time.After(c15grace):
		t.Violate("hang-stop", nil, "%s: Stop itself did not return", desc)
		return
	}
	stamp := tick()
	// requests after the stop must not start anything on an idle searcher
	for k := 0; k < 3; k++ {
		for nm, m := range rem {
			m.Commit()
			lab.Searchers[nm].Update()
		}
	}
	t.Eval(1)
	t.Count("stops", 1)
	if !c15wait(lab, c15grace) {
		t.Violate("hang:idle", nil, "%s: Wait did not return within %v", desc, c15grace)
		return
	}
	time.Sleep(2 * time.Millisecond)
	if !o.poll || o.ms > 1000 {
		for nm, m := range rem {
			if p := m.PullsAfter(stamp); p > 0 {
				t.Violate("update-after-stop:idle", m.Events(), "%s: %d pulls of the idle %s began after Stop had returned", desc, p, nm)
			}
		}
	} else {
		for nm, m := range rem {
			if p := m.PullsAfter(stamp); p > 1 {
				t.Violate("update-after-stop:poll", m.Events(), "%s: %d pulls of %s began after Stop had returned", desc, p, nm)
			}
		}
	}
	t.Distinct("idle", set, o.ms, n)
	c15left(t, "idle", desc, db, 3)
	// still answering
	for nm := range rem {
		if _, msg := lab.Tokens(nm); msg != "" {
			t.Violate("search-after-stop", nil, "%s: search after the stop: %s", desc, msg)
		}
	}
}

// stop while a pull is held: it finishes, nothing new begins
func c15held(t *T, i int) {
	r := t.Rng("held", i)
	lab, rem, db, done := c15lab(t, "held", i, 1, 1, func(int) repoOpt {
		return repoOpt{push: true, poll: r.Intn(2) == 0, ms: 2}
	}, nil)
	if lab == nil {
		return
	}
	defer done()
	m := rem["r0"]
	gate, entered := make(chan struct{}), make(chan struct{}, 100)
	fails := r.Intn(3) == 0
	m.mu.Lock()
	m.Before = func(string, string) error {
		entered <- struct{}{}
		<-gate
		if fails {
			return errors.New("injected")
		}
		return nil
	}
	m.mu.Unlock()
	rev := m.Commit()
	lab.Searchers["r0"].Update()
	select {
	case <-entered:
	case <-time.After(c15grace):
		t.Violate("no-pull", nil, "held stop %d: the request led to no pull", i)
		close(gate)
		return
	}
	desc := fmt.Sprintf("stop during a pull %d (the pull then fails: %v)", i, fails)
	pending := r.Intn(2) == 0
	if pending {
		lab.Searchers["r0"].Update()
	}
	lab.Searchers["r0"].Stop()
	stamp := tick()
	if r.Intn(2) == 0 {
		lab.Searchers["r0"].Update()
	}
	if r.Intn(2) == 0 {
		lab.Searchers["r0"].Stop()
	}
	// the running update has not been cut off: Wait must not return yet
	if c15wait(lab, 5*time.Millisecond) {
		t.Violate("cut-off", nil, "%s: Wait returned although the update was still running", desc)
	}
	close(gate)
	t.Eval(1)
	t.Count("stops", 1)
	if !c15wait(lab, c15grace) {
		t.Violate("hang:held", m.Events(), "%s: Wait did not return within %v of the end of the pull", desc, c15grace)
		return
	}
	if p := m.PullsAfter(stamp); p > 0 {
		t.Violate("update-after-stop:held", m.Events(), "%s: %d pulls began after Stop (pending request: %v)", desc, p, pending)
	}
	want := rev
	if fails {
		want = 1
	}
	if got, msg := lab.Tokens("r0"); msg != "" || got != want {
		t.Violate("unfinished", nil, "%s: answers from %d after the shutdown, want %d: %s", desc, got, want, msg)
	}
	t.Distinct("held", fails, pending)
	c15left(t, "held", desc, db, 1)
}

// stop while updates wait for the only token
func c15token(t *T, i int) {
	r := t.Rng("token", i)
	n := 2 + r.Intn(3)
	lab, rem, db, done := c15lab(t, "token", i, n, 1, func(int) repoOpt { return repoOpt{push: true} }, nil)
	if lab == nil {
		return
	}
	defer done()
	a := rem["r0"]
	gate, entered := make(chan struct{}), make(chan struct{}, 100)
	a.mu.Lock()
	a.Before = func(string, string) error { entered <- struct{}{}; <-gate; return nil }
	a.mu.Unlock()
	a.Commit()
	lab.Searchers["r0"].Update()
	select {
	case <-entered:
	case <-time.After(c15grace):
		t.Violate("no-pull", nil, "token stop %d: the request led to no pull", i)
		close(gate)
		return
	}
	// the others are now made to wait for the token
	for nm, m := range rem {
		if nm != "r0" {
			m.Commit()
			lab.Searchers[nm].Update()
		}
	}
	time.Sleep(time.Duration(20+r.Intn(30)) * time.Millisecond)
	for _, s := range lab.Searchers {
		s.Stop()
	}
	stamp := tick()
	close(gate)
	t.Eval(1)
	t.Count("stops", 1)
	desc := fmt.Sprintf("stop of %d searchers while %d updates wait for the token (%d)", n, n-1, i)
	if !c15wait(lab, c15grace) {
		t.Violate("hang:token", nil, "%s: Wait did not return", desc)
		return
	}
	for nm, m := range rem {
		if p := m.PullsAfter(stamp); p > 0 {
			t.Violate("update-after-stop:token", m.Events(), "%s: %d pulls of %s began after Stop", desc, p, nm)
		}
	}
	t.Distinct("token", n)
	c15left(t, "token", desc, db, n)
}

// stop at random moments of busy searchers
func c15random(t *T, i int) {
	r := t.Rng("random", i)
	n := 1 + r.Intn(4)
	lab, rem, db, done := c15lab(t, "random", i, n, 1+r.Intn(2), func(k int) repoOpt {
		return repoOpt{push: r.Intn(2) == 0, poll: r.Intn(3) > 0, ms: 1 + r.Intn(3)}
	}, func(k int, m *Remote) {
		d := time.Duration(r.Intn(1500)) * time.Microsecond
		m.Before = func(string, string) error { time.Sleep(d); return nil }
	})
	if lab == nil {
		return
	}
	defer done()
	stop := make(chan bool)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			for nm, m := range rem {
				m.Commit()
				lab.Searchers[nm].Update()
			}
			time.Sleep(500 * time.Microsecond)
		}
	}()
	time.Sleep(time.Duration(r.Intn(15000)) * time.Microsecond)
	for _, s := range lab.Searchers {
		s.Stop()
	}
	stamp := tick()
	desc := fmt.Sprintf("stop of %d busy searchers (%d)", n, i)
	ok := c15wait(lab, c15grace)
	close(stop)
	wg.Wait()
	t.Eval(1)
	t.Count("stops", 1)
	if !ok {
		t.Violate("hang:random", nil, "%s: Wait did not return", desc)
		return
	}
	for nm, m := range rem {
		p := m.PullsAfter(stamp)
		t.Distinct("random", n, p)
		// one update may have passed its last look at the request already
		if p > 1 {
			t.Violate("update-after-stop:random", m.Events(), "%s: %d pulls of %s began after Stop", desc, p, nm)
		}
		if _, msg := lab.Tokens(nm); msg != "" {
			t.Violate("torn:random", nil, "%s: answers of %s after the shutdown: %s", desc, nm, msg)
		}
	}
	c15left(t, "random", desc, db, n)
}

// ---------------------------------------------------------------- real houndd

func c15server(t *T, i int) {
	r := t.Rng("server", i)
	top := t.Dir("srv")
	defer os.RemoveAll(top)
	db := filepath.Join(top, "data")
	hgbin := hgDir(t)
	defer os.RemoveAll(hgbin)
	env := []string{"PATH=" + hgbin + ":" + os.Getenv("PATH")}
	n := 1 + r.Intn(3)
	if r.Intn(2) == 0 {
		n = 4 + r.Intn(7)
	}
	repos := M{}
	ctl := map[string]*HgCtl{}
	mode := []string{"startup", "idle", "held", "busy", "repeat", "startup-failing", "pending"}[i%7]
	push := true
	for k := 0; k < n; k++ {
		c := newHgCtl(t)
		defer os.RemoveAll(c.Dir)
		c.Commit("v1", tokenTree("x", 1, 6, 5))
		nm := fmt.Sprintf("h%d", k)
		ctl[nm] = c
		repos[nm] = M{"url": c.Dir, "vcs": "hg", "ms-between-poll": []int{3, 3600000}[r.Intn(2)], "enable-push-updates": push, "enable-poll-updates": r.Intn(4) > 0}
	}
	if mode == "startup-failing" {
		repos["bad"] = M{"url": filepath.Join(top, "nothing"), "vcs": "hg"}
	}
	conf := writeConfig(top, M{"dbpath": "data", "repos": repos, "max-concurrent-indexers": 1 + r.Intn(2)})
	desc := fmt.Sprintf("SIGTERM %s (%d), %d repositories", mode, i, n)
	t.Current("%s", desc)
	anyCtl := ctl["h0"]
	if strings.HasPrefix(mode, "startup") {
		anyCtl.set("hold", true)
	}
	h := startHoundd(t, conf, env)
	defer h.cleanup()
	die := func(key, f string, a ...interface{}) {
		t.Violate("server-"+key, map[string]interface{}{"log": tail([]byte(h.Log()), 3000)}, "%s: %s\n%s", desc, fmt.Sprintf(f, a...), tail([]byte(h.Log()), 800))
		syscall.Kill(-h.Pid(), syscall.SIGKILL)
	}
	until := func(cond func() bool) bool {
		for end := time.Now().Add(c15grace); time.Now().Before(end); time.Sleep(time.Millisecond) {
			if cond() {
				return true
			}
			if h.exited() {
				return false
			}
		}
		return false
	}
	begun := func(c *HgCtl, kind string) int {
		n := 0
		for _, e := range c.Events() {
			if e.Kind == "begin-"+kind {
				n++
			}
		}
		return n
	}
	served := func(rev int) bool {
		for nm := range ctl {
			a, err := h.Search(nm, tokenQuery, nil)
			if err != nil || a.Results[nm] == nil {
				return false
			}
			ra := a.Results[nm]
			// the stand-in calls its revisions v1, v2, ...
			if ra.Revision != fmt.Sprintf("v%d", rev) {
				return false
			}
			if got, msg := checkTokens(ra.Matches, revName(rev)); msg != "" || got != rev {
				return false
			}
		}
		return true
	}
	rev := 1
	heldUntil := int64(0)
	if strings.HasPrefix(mode, "startup") {
		if !until(func() bool { return begun(anyCtl, "clone") > 0 }) {
			die("start", "the first clone never began")
			return
		}
		h.cmd.Process.Signal(syscall.SIGTERM)
		time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
		if h.exited() {
			die("early-exit", "exited while the startup was still running: %v", h.Err)
			return
		}
		anyCtl.set("hold", false)
	} else {
		if !h.waitReady(c15grace) || !until(func() bool { return served(1) }) {
			die("start", "server did not come up")
			return
		}
		switch mode {
		case "idle", "repeat":
			time.Sleep(time.Duration(r.Intn(10)) * time.Millisecond)
			h.cmd.Process.Signal(syscall.SIGTERM)
			for k := 0; mode == "repeat" && k < 5; k++ {
				time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
				h.cmd.Process.Signal(syscall.SIGTERM)
			}
		case "held", "pending":
			anyCtl.set("hold", true)
			before := begun(anyCtl, "pull")
			rev = 2
			for _, c := range ctl {
				c.Commit("v2", tokenTree("x", 2, 6, 5))
			}
			h.Push("h0")
			if !until(func() bool { return begun(anyCtl, "pull") > before }) {
				die("no-pull", "an accepted request led to no pull")
				return
			}
			if mode == "pending" {
				h.Push("*")
				h.Push("h0")
			}
			h.cmd.Process.Signal(syscall.SIGTERM)
			// long enough for the request to be taken note of, and now and then
			// as long as a real update may take
			d := time.Duration(300+r.Intn(100)) * time.Millisecond
			if i%70 == 2 {
				d = time.Duration(t.N(12, 65)) * time.Second
				t.Max("longest_update_at_shutdown_ms", d.Milliseconds())
			}
			time.Sleep(d)
			if h.exited() {
				die("cut-off", "exited while an update was running: %v", h.Err)
				return
			}
			heldUntil = time.Now().UnixNano()
			anyCtl.set("hold", false)
		case "busy":
			stop := time.Now().Add(time.Duration(r.Intn(60)) * time.Millisecond)
			for time.Now().Before(stop) {
				rev++
				for _, c := range ctl {
					c.Commit(fmt.Sprintf("v%d", rev), tokenTree("x", rev, 6, 5))
				}
				h.Push("*")
			}
			h.cmd.Process.Signal(syscall.SIGTERM)
		}
	}
	start := time.Now()
	sig := start.UnixNano()
	if ok, msg := h.waitExit(c15grace); !ok {
		die("exit", "%s", msg)
		return
	}
	t.Max("longest_shutdown_ms", time.Since(start).Milliseconds())
	t.Eval(1)
	t.Count("server_stops", 1)
	t.Distinct("server", mode, n)
	// at most the update already under way begins after the signal
	for nm, c := range ctl {
		late := 0
		for _, e := range c.Events() {
			if e.Kind == "begin-pull" && e.Begin > sig {
				late++
			}
		}
		if heldUntil > 0 {
			late = 0
			for _, e := range c.Events() {
				if e.Kind == "begin-pull" && e.Begin > heldUntil {
					late++
				}
			}
			if late > 0 {
				die("late", "%d pulls of %s began although the shutdown had been requested 300 ms before", late, nm)
			}
		}
		if late > 1 {
			die("late", "%d pulls of %s began after the signal", late, nm)
		}
	}
	c15left(t, "server-"+mode, desc, db, n)
	left := idxDirs(db)
	sort.Strings(left)
	// what is indexed now is known from the manifests; restart without new commits
	reuse := true
	for _, c := range ctl {
		head, _ := os.ReadFile(filepath.Join(c.Dir, "HEAD"))
		if !strings.HasPrefix(mode, "startup") && string(head) != "v1" {
			reuse = false // the shutdown may have come before this revision was indexed
		}
	}
	h2 := startHoundd(t, conf, env)
	if !h2.waitReady(c15grace) {
		t.Violate("server-restart", nil, "%s: the next start did not come up: %s", desc, tail([]byte(h2.Log()), 1000))
		h2.Kill()
		return
	}
	now := idxDirs(db)
	sort.Strings(now)
	if reuse && strings.Join(now, " ") != strings.Join(left, " ") {
		t.Violate("server-rebuild", nil, "%s: the next start rebuilt: index directories %v, then %v", desc, left, now)
	}
	if reuse {
		t.Count("reused", 1)
	}
	ok := false
	hh := h
	h = h2
	ok = until(func() bool { return served(rev) })
	h = hh
	if !ok {
		t.Violate("server-restart", nil, "%s: the next start does not serve revision v%d: %s", desc, rev, tail([]byte(h2.Log()), 1000))
		h2.Kill()
		return
	}
	// and a stop and start without changes reuses everything
	mid := idxDirs(db)
	if k, msg := h2.Term(c15grace); !k {
		t.Violate("server-exit", nil, "%s: second shutdown: %s", desc, msg)
		h2.Kill()
		return
	}
	h2.cleanup()
	h3 := startHoundd(t, conf, env)
	if !h3.waitReady(c15grace) {
		t.Violate("server-restart", nil, "%s: the third start did not come up", desc)
	} else if end := idxDirs(db); strings.Join(end, " ") != strings.Join(mid, " ") {
		t.Violate("server-rebuild", nil, "%s: the third start rebuilt: %v, then %v", desc, mid, end)
	} else {
		t.Count("reused", 1)
	}
	h3.Kill()
}
