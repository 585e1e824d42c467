package main

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/hound-search/hound/config"
)

func init() {
	register(&Check{ID: "C10", Fn: c10,
		Rule:   "histories over two repositories (one faulty, one healthy, one data directory): every fault kind is injected at the 1st..4th update (enumerated), then random fault sequences; after every step both repositories are searched completely and the excluded-files report read, the answer must be exactly the last revision that could be indexed; after recovery one request must bring the newest revision in, also when nothing was committed meanwhile; non-trivial = distinct (fault kind, step, what was served)",
		Level:  "fault_enumeration",
		Assume: []string{"disk-full is simulated by a process-wide file size limit of varied size (EFBIG on write) and by an unusable temporary directory"},
	})
}

// a fault: set up before an update and taken away afterwards
type fault struct {
	name string
	// on returns what the answers may show after the failed update:
	// "old" only the last good revision, "new" only the new one, "either"
	on     func(c *c10state, r *rand.Rand) string
	off    func(c *c10state)
	global bool // affects the whole process
}

type c10state struct {
	t    *T
	db   string
	m    *Remote
	lab  *Lab
	good int // revision being served
	undo []func()
	gate sync.Mutex
	gen  int
}

func (c *c10state) addUndo(f func()) {
	c.m.mu.Lock()
	c.undo = append(c.undo, f)
	c.m.mu.Unlock()
}

func (c *c10state) runUndo() {
	c.m.mu.Lock()
	u := c.undo
	c.undo = nil
	c.m.mu.Unlock()
	for k := len(u) - 1; k >= 0; k-- {
		u[k]()
	}
}

// hook sets what a pull runs into. What was set before is over when hook
// returns: a pull may be between reading its hook and calling it.
func (c *c10state) hook(before func(kind, dir string) error, after func(kind, dir string, rev int) error) {
	c.gate.Lock()
	defer c.gate.Unlock()
	c.gen++
	gen := c.gen
	if b := before; b != nil {
		before = func(kind, dir string) error {
			c.gate.Lock()
			defer c.gate.Unlock()
			if c.gen != gen {
				return nil
			}
			return b(kind, dir)
		}
	}
	if a := after; a != nil {
		after = func(kind, dir string, rev int) error {
			c.gate.Lock()
			defer c.gate.Unlock()
			if c.gen != gen {
				return nil
			}
			return a(kind, dir, rev)
		}
	}
	c.m.mu.Lock()
	c.m.Before, c.m.After = before, after
	c.m.mu.Unlock()
}

func (c *c10state) wd() string {
	ds, _ := filepath.Glob(filepath.Join(c.db, "vcs-*", "marker-faulty"))
	for _, d := range ds {
		return filepath.Dir(d)
	}
	return ""
}

var c10faults = []fault{
	{name: "pull-error", on: func(c *c10state, r *rand.Rand) string {
		c.hook(func(string, string) error { return errors.New("injected") }, nil)
		return "old"
	}},
	{name: "checkout-error", on: func(c *c10state, r *rand.Rand) string {
		c.hook(nil, func(string, string, int) error { return errors.New("injected after checkout") })
		return "old"
	}},
	{name: "empty-pull-error", on: func(c *c10state, r *rand.Rand) string {
		c.hook(func(k, dir string) error {
			es, _ := os.ReadDir(dir)
			for _, e := range es {
				os.RemoveAll(filepath.Join(dir, e.Name()))
			}
			return errors.New("injected, working copy emptied")
		}, nil)
		return "old"
	}},
	{name: "tree-vanished", on: func(c *c10state, r *rand.Rand) string {
		c.hook(nil, func(k, dir string, rev int) error { return os.RemoveAll(dir) })
		return "old"
	}},
	{name: "unreadable-file", on: func(c *c10state, r *rand.Rand) string {
		c.hook(nil, func(k, dir string, rev int) error {
			c.addUndo(func() { os.Chmod(filepath.Join(dir, "d0", "f000"), 0644) })
			return os.Chmod(filepath.Join(dir, "d0", "f000"), 0)
		})
		return "old"
	}},
	{name: "unreadable-dir", on: func(c *c10state, r *rand.Rand) string {
		c.hook(nil, func(k, dir string, rev int) error {
			c.addUndo(func() { os.Chmod(filepath.Join(dir, "d0"), 0755) })
			return os.Chmod(filepath.Join(dir, "d0"), 0)
		})
		return "old"
	}},
	{name: "dbpath-readonly", on: func(c *c10state, r *rand.Rand) string {
		os.Chmod(c.db, 0555)
		c.addUndo(func() { os.Chmod(c.db, 0755) })
		return "old"
	}},
	{name: "old-index-unremovable", on: func(c *c10state, r *rand.Rand) string {
		for _, d := range idxDirs(c.db) {
			d := filepath.Join(c.db, d)
			if _, err := os.Stat(filepath.Join(d, "raw", "marker-faulty")); err == nil {
				os.Chmod(d, 0555)
				os.Chmod(filepath.Join(d, "raw"), 0555)
				c.addUndo(func() { os.Chmod(d, 0755); os.Chmod(filepath.Join(d, "raw"), 0755) })
			}
		}
		return "new"
	}},
	{name: "old-index-raw-unremovable", on: func(c *c10state, r *rand.Rand) string {
		for _, d := range idxDirs(c.db) {
			d := filepath.Join(c.db, d, "raw")
			if _, err := os.Stat(filepath.Join(d, "marker-faulty")); err == nil {
				os.Chmod(d, 0555)
				c.addUndo(func() { os.Chmod(d, 0755) })
			}
		}
		return "new"
	}},
	{name: "old-index-gone", on: func(c *c10state, r *rand.Rand) string {
		// the manifest of the old index has disappeared already
		for _, d := range idxDirs(c.db) {
			d := filepath.Join(c.db, d)
			if _, err := os.Stat(filepath.Join(d, "raw", "marker-faulty")); err == nil {
				os.Remove(filepath.Join(d, "metadata.gob"))
			}
		}
		return "new"
	}},
	{name: "tmpdir-unusable", global: true, on: func(c *c10state, r *rand.Rand) string {
		old := os.Getenv("TMPDIR")
		os.Setenv("TMPDIR", filepath.Join(c.db, "no", "such"))
		c.addUndo(func() { os.Setenv("TMPDIR", old) })
		return "old"
	}},
	{name: "disk-full", global: true, on: func(c *c10state, r *rand.Rand) string {
		lim := uint64([]int{0, 1, 16, 64, 150, 300, 700, 1500, 4000, 9000, 40000, 200000}[r.Intn(12)])
		var cur syscall.Rlimit
		syscall.Getrlimit(syscall.RLIMIT_FSIZE, &cur)
		// after the working copy has been written
		c.hook(nil, func(string, string, int) error {
			return syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: lim, Max: cur.Max})
		})
		c.addUndo(func() { syscall.Setrlimit(syscall.RLIMIT_FSIZE, &cur) })
		return "either"
	}},
	{name: "none", on: func(c *c10state, r *rand.Rand) string { return "new" }},
}

func c10(t *T) {
	signal.Ignore(syscall.SIGXFSZ)
	// enumerated: every fault at each of the first updates
	i := 0
	steps := t.N(3, 5)
	for _, f := range c10faults {
		for s := 1; s <= steps && !t.Stop(); s++ {
			r := t.Rng("enum", f.name, s)
			var seq []fault
			for k := 1; k < s; k++ {
				seq = append(seq, c10faults[len(c10faults)-1])
			}
			seq = append(seq, f)
			if s%2 == 0 {
				seq = append(seq, f)
			}
			c10history(t, i, seq, r)
			i++
		}
	}
	for k := 0; k < t.N(14, 1500) && !t.Stop(); k++ {
		r := t.Rng("random", k)
		var seq []fault
		for n := 2 + r.Intn(6); n > 0; n-- {
			seq = append(seq, c10faults[r.Intn(len(c10faults))])
		}
		c10history(t, i, seq, r)
		i++
	}
	for k := 0; k < t.N(6, 60) && !t.Stop(); k++ {
		c10streak(t, k)
	}
	if t.Counter("failed_updates") == 0 {
		t.Inconclusive("no update failed")
	}
}

// c10streak: however often updates fail in a row, the answers stay and the
// first update after the fault is gone comes through, by polling alone too.
func c10streak(t *T, i int) {
	r := t.Rng("streak", i)
	db := t.Dir("db")
	defer os.RemoveAll(db)
	id := fmt.Sprintf("c10-streak-%d", i)
	m := newRemote(id, nil)
	m.Tree = func(rev int) Tree {
		tr := tokenTree(id, rev, 4, 0)
		tr["marker-faulty"] = "marker\n"
		return tr
	}
	defer m.drop()
	poll := i%2 == 0
	f := c10faults[[]int{0, 1, 4}[i/2%3]]
	lab, err := newLab(t, db, 1, map[string]*config.Repo{"bad": fakeRepo(m, repoOpt{push: !poll, poll: poll, ms: 1})})
	if err != nil || len(lab.Errs) > 0 {
		t.Violate("startup", nil, "startup failed: %v", err)
		return
	}
	c := &c10state{t: t, db: db, m: m, lab: lab, good: 1}
	desc := fmt.Sprintf("streak %d of %s, polling %v", i, f.name, poll)
	rev := m.Commit()
	f.on(c, r)
	stamp := tick()
	n, end := 40+r.Intn(100), time.Now().Add(30*time.Second)
	for m.PullsAfter(stamp) < n && time.Now().Before(end) {
		if !poll {
			lab.Searchers["bad"].Update()
		}
		time.Sleep(time.Millisecond)
	}
	tried := m.PullsAfter(stamp)
	t.Count("failures_in_a_row", tried)
	t.Eval(1)
	t.Distinct("streak", f.name, poll, tried >= n)
	if tried < n {
		t.Violate("streak:"+f.name, tailEvents(m.Events()), "%s: only %d attempts in 30 s", desc, tried)
		c.hook(nil, nil)
		lab.Close()
		return
	}
	if got, msg := lab.Tokens("bad"); msg != "" || got != 1 {
		t.Violate("streak:"+f.name, nil, "%s: answers from revision %d after %d failures: %s", desc, got, tried, msg)
	}
	c.hook(nil, nil)
	// an attempt may be under way while the fault goes
	for k := 0; k < 3; k++ {
		c.runUndo()
		stamp = tick()
		for end := time.Now().Add(20 * time.Second); m.PullsAfter(stamp) == 0 && time.Now().Before(end); {
			if !poll {
				lab.Searchers["bad"].Update()
			}
			time.Sleep(time.Millisecond)
		}
	}
	c.runUndo()
	if got, msg := lab.waitRev("bad", rev, 20*time.Second); msg != "" {
		t.Violate("streak:"+f.name, tailEvents(m.Events()), "%s: after %d failures and the end of the fault revision %d was not reached: %d %s", desc, tried, rev, got, msg)
	} else {
		t.Count("recoveries", 1)
	}
	if !lab.Close() {
		t.Violate("stop", nil, "%s: searchers did not stop", desc)
	}
}

func c10history(t *T, i int, seq []fault, r *rand.Rand) {
	db := t.Dir("db")
	defer func() {
		filepath.Walk(db, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.IsDir() {
				os.Chmod(p, 0755)
			}
			return nil
		})
		os.RemoveAll(db)
	}()
	mk := func(n string, marker string) *Remote {
		id := fmt.Sprintf("c10-%s-%d", n, i)
		m := newRemote(id, nil)
		m.Tree = func(rev int) Tree {
			tr := tokenTree(id, rev, 6, 20)
			tr[marker] = "marker\n"
			return tr
		}
		return m
	}
	bad, ok := mk("bad", "marker-faulty"), mk("ok", "marker-healthy")
	defer bad.drop()
	defer ok.drop()
	poll := r.Intn(4) == 0
	lab, err := newLab(t, db, 2, map[string]*config.Repo{
		"bad": fakeRepo(bad, repoOpt{push: true, poll: poll, ms: 20}),
		"ok":  fakeRepo(ok, repoOpt{push: true})})
	if err != nil || len(lab.Errs) > 0 {
		t.Violate("startup", nil, "startup failed: %v", err)
		return
	}
	c := &c10state{t: t, db: db, m: bad, lab: lab, good: 1}
	names := ""
	for _, f := range seq {
		names += f.name + " "
	}
	t.Current("history %d: %s", i, names)
	fail := func(step int, f fault, format string, args ...interface{}) {
		t.Violate("fault:"+f.name, map[string]interface{}{"history": names, "step": step, "poll": poll},
			"history [%s] (poll %v), step %d (%s): %s", names, poll, step, f.name, fmt.Sprintf(format, args...))
	}
	// what "ok" serves: every revision it was asked for
	okRev := 1
	check := func(step int, f fault, want func(int) bool, say string) bool {
		t.Eval(1)
		got, msg := lab.Tokens("bad")
		if msg != "" {
			fail(step, f, "search of the faulty repository: %s", msg)
			return false
		}
		if !want(got) {
			fail(step, f, "answers from revision %d, want %s", got, say)
			return false
		}
		x, msg := checkExcluded(lab.Searchers["bad"].GetExcludedFiles())
		if msg != "" || (x != 0 && !want(x)) {
			fail(step, f, "excluded-files report of revision %d: %s", x, msg)
			return false
		}
		a, err := lab.Search("*", tokenQuery, nil)
		if err != nil || a.Error != "" {
			fail(step, f, "search of all: %v %+v", err, a)
			return false
		}
		if g, msg := lab.Tokens("ok"); msg != "" || g < okRev {
			fail(step, f, "healthy repository: revision %d (want %d): %s", g, okRev, msg)
			return false
		}
		t.Distinct(f.name, step, got-c.good, poll)
		return true
	}
	for step, f := range seq {
		rev := bad.Commit()
		if r.Intn(3) == 0 {
			rev = bad.Commit()
		}
		verdict := f.on(c, r)
		stamp := tick()
		lab.Searchers["bad"].Update()
		// the healthy repository is updated meanwhile, unless the fault is global
		if !f.global && f.name != "dbpath-readonly" {
			okRev = ok.Commit()
			lab.Searchers["ok"].Update()
			if got, msg := lab.waitRev("ok", okRev, 20*time.Second); msg != "" {
				fail(step, f, "healthy repository did not reach %d: %d %s", okRev, got, msg)
				break
			}
		}
		// wait until the attempt is over: a pull that began after the stamp has
		// ended, and (twice, to get past the build) the searcher asked again
		old := c.good
		want := func(g int) bool { return g == old }
		say := fmt.Sprint(old)
		switch verdict {
		case "new":
			if got, msg := lab.waitRev("bad", rev, 20*time.Second); msg != "" {
				fail(step, f, "revision %d was not reached: %d %s", rev, got, msg)
				return
			}
			want = func(g int) bool { return g == rev }
			say = fmt.Sprint(rev)
		case "either":
			want = func(g int) bool { return g == old || g == rev }
			say = fmt.Sprintf("%d or %d", old, rev)
		}
		end := time.Now().Add(20 * time.Second)
		for n := 0; n < 2; n++ {
			for bad.PullsAfter(stamp) == 0 && f.name != "dbpath-readonly" {
				if time.Now().After(end) {
					fail(step, f, "the request was not followed by a pull")
					return
				}
				time.Sleep(200 * time.Microsecond)
			}
			for atomic.LoadInt32(&bad.inside) > 0 {
				time.Sleep(100 * time.Microsecond)
			}
			if !check(step, f, want, say) {
				break
			}
			stamp = tick()
			lab.Searchers["bad"].Update()
		}
		for bad.PullsAfter(stamp) == 0 && time.Now().Before(end) && f.name != "dbpath-readonly" {
			time.Sleep(200 * time.Microsecond)
		}
		if verdict == "old" {
			t.Count("failed_updates", 1)
		}
		t.Count("fault_"+f.name, 1)
		if !check(step, f, want, say) {
			break
		}
		// recovery: an attempt may be under way while the fault goes
		c.hook(nil, nil)
		c.runUndo()
		stamp = tick()
		if r.Intn(2) == 0 {
			rev = bad.Commit()
		}
		// the fault may still hit the attempt in flight, hence two requests
		lab.Searchers["bad"].Update()
		for bad.PullsAfter(stamp) == 0 {
			if time.Now().After(end) {
				fail(step, f, "no pull after recovery")
				return
			}
			time.Sleep(200 * time.Microsecond)
		}
		lab.Searchers["bad"].Update()
		if got, msg := lab.waitRev("bad", rev, 20*time.Second); msg != "" {
			fail(step, f, "after recovery revision %d was not reached: %d %s", rev, got, msg)
			break
		}
		c.good = rev
		if !check(step, f, func(g int) bool { return g == rev }, fmt.Sprint(rev)) {
			break
		}
		t.Count("recoveries", 1)
	}
	c.hook(nil, nil)
	c.runUndo()
	if !lab.Close() {
		t.Violate("stop", names, "searchers did not stop after %s", names)
	}
	if i < 3 {
		t.Sample(names)
	}
}
