package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	register(&Check{ID: "C11", Fn: c11, Bins: []string{"houndd"},
		Level:  "fault_enumeration",
		Rule:   "the real houndd (git and local repositories) under a seccomp tap that numbers every write, create, rename, link, mkdir, unlink and truncate in its data directory, by it and by git; phases: first start, update and swap while serving, restart onto changed contents, restart onto a changed configuration; it is killed before the n-th operation (alone, leaving git running, or with its children), for n over the whole phase, some with a second kill during recovery; the next start must come up by itself and answer every line of every repository, the revisions and the excluded-files report exactly as configured, and leave one index per repository and no half-done working copy; non-trivial = distinct (phase, operation, file class)",
		Assume: []string{"process-crash model: system calls completed before the kill are durable (no power loss)"},
	})
}

type c11env struct {
	t      *T
	top    string
	remote *GitRemote
	revs   [3]string
	src    string
	hg     *HgCtl
	hgbin  string
	trees  [3]Tree
	local  [3]Tree
	port   string
}

func c11tree(v int, tag string) Tree {
	tr := Tree{}
	for i := 0; i < 3+v; i++ {
		tr[fmt.Sprintf("d%d/f%d", i%2, i)] = fmt.Sprintf("line of %s v%d f%d\nsecond %d\n", tag, v, i, i*v)
	}
	tr[".dot"] = fmt.Sprintf("line in dot file of %s v%d\n", tag, v)
	tr["same"] = "line that never changes\n"
	if v > 1 {
		delete(tr, "d0/f0")
	}
	return tr
}

func newC11env(t *T) *c11env {
	e := &c11env{t: t, top: t.Dir("c11"), hg: newHgCtl(t)}
	e.remote = newGitRemote(t, "master")
	for v := 1; v <= 2; v++ {
		e.trees[v] = c11tree(v, "git")
		e.trees[v]["bin"] = "\xff\xfe"
		e.revs[v] = e.remote.Commit(e.trees[v])
		e.local[v] = c11tree(v, "local")
	}
	e.src = filepath.Join(e.top, "src")
	return e
}

func (e *c11env) close() {
	os.RemoveAll(e.top)
	os.RemoveAll(e.remote.Dir)
	os.RemoveAll(e.hg.Dir)
}

// setVersion makes v the current content of both repositories.
func (e *c11env) setVersion(v int) {
	os.WriteFile(filepath.Join(e.remote.Dir, ".git/refs/heads/master.new"), []byte(e.revs[v]+"\n"), 0644)
	os.Rename(filepath.Join(e.remote.Dir, ".git/refs/heads/master.new"), filepath.Join(e.remote.Dir, ".git/refs/heads/master"))
	os.RemoveAll(e.src)
	os.MkdirAll(e.src, 0755)
	writeTree(e.src, e.local[v])
}

type c11cfg struct{ dots, git2 bool }

func (e *c11env) config(c c11cfg) string {
	repos := M{
		"git":   M{"url": e.remote.URL(), "ms-between-poll": 10, "exclude-dot-files": c.dots},
		"local": M{"url": "file://" + e.src, "vcs": "local", "ms-between-poll": 10, "exclude-dot-files": c.dots, "vcs-config": M{"watch-changes": true}},
	}
	if c.git2 {
		repos["git2"] = M{"url": e.remote.URL(), "ms-between-poll": 3600000, "enable-poll-updates": false}
	}
	return writeConfig(e.top, M{"dbpath": "data", "repos": repos, "max-concurrent-indexers": 1})
}

func (e *c11env) db() string { return filepath.Join(e.top, "data") }

// verify starts the server normally and compares everything with version v.
func (e *c11env) verify(key, desc string, conf string, c c11cfg, v int) bool {
	t := e.t
	data := func() map[string]interface{} {
		return map[string]interface{}{"what": desc, "data": listTree(e.db())}
	}
	pre := listTree(e.db())
	h := startHoundd(t, conf, nil)
	defer h.Kill()
	if !h.waitReady(60 * time.Second) {
		t.Violate("start:"+key, map[string]interface{}{"what": desc, "left": pre}, "%s: the next start did not come up: %s", desc, tail([]byte(h.Log()), 1500))
		return false
	}
	want := map[string]Tree{"git": e.trees[v], "local": e.local[v]}
	if c.git2 {
		want["git2"] = e.trees[v]
	}
	// a working copy that could not be updated at once may need one poll: none
	// is granted, the first answers already have to be right
	a, err := h.Search("*", "^.*$", nil)
	if err != nil || a.Error != "" {
		t.Violate("search:"+key, data(), "%s: search failed: %v %+v", desc, err, a)
		return false
	}
	if len(a.Results) != len(want) {
		t.Violate("lost-repo:"+key, map[string]interface{}{"what": desc, "left": pre, "log": h.Log()}, "%s: %d of %d repositories answer; log: %s", desc, len(a.Results), len(want), tail([]byte(h.Log()), 1500))
		return false
	}
	for n, tr := range want {
		var exp []flat
		for _, f := range treeLines(tr) {
			if f.file == "bin" || (f.file == ".dot" && c.dots && n != "git2") {
				continue
			}
			exp = append(exp, f)
		}
		got := answerOf(a.Results[n])
		for i := range got {
			got[i].ctx = ""
		}
		sortFlat(got)
		sortFlat(exp)
		if d := flatDiff(got, exp); d != "" {
			t.Violate("answer:"+key, map[string]interface{}{"what": desc, "repo": n, "left": pre}, "%s: %s after the restart: %s", desc, n, d)
			return false
		}
		if n != "local" && a.Results[n].Revision != e.revs[v] {
			t.Violate("revision:"+key, data(), "%s: %s reports revision %s, want %s", desc, n, a.Results[n].Revision, e.revs[v])
			return false
		}
		code, b, err := getBody(h.client, h.Base+"/api/v1/excludes?repo="+n)
		wantEx := []string{}
		if n != "local" {
			wantEx = append(wantEx, "bin")
		}
		if c.dots && n != "git2" {
			wantEx = append(wantEx, ".dot")
		}
		ok := err == nil && code == 200 && strings.Count(string(b), `"Filename"`) == len(wantEx)
		for _, w := range wantEx {
			ok = ok && strings.Contains(string(b), `"`+w+`"`)
		}
		if !ok {
			t.Violate("excluded:"+key, data(), "%s: excluded files of %s: %d %q, want %v", desc, n, code, b, wantEx)
			return false
		}
	}
	// what the crash left is gone
	idx, _, _ := c13dirs(e.db())
	var odd []string
	es, _ := os.ReadDir(e.db())
	for _, x := range es {
		if !idxName.MatchString(x.Name()) && !vcsName.MatchString(x.Name()) {
			odd = append(odd, x.Name())
		}
	}
	if len(idx) != len(want) {
		// polling may have replaced an index in between: look again
		time.Sleep(50 * time.Millisecond)
		idx, _, _ = c13dirs(e.db())
	}
	if len(idx) != len(want) {
		t.Violate("leftover:"+key, data(), "%s: %d index directories %v for %d repositories after the restart; before it: %s", desc, len(idx), idx, len(want), pre)
		return false
	}
	_ = odd
	return true
}

func sortFlat(f []flat) {
	sort.SliceStable(f, func(i, j int) bool {
		if f[i].file != f[j].file {
			return f[i].file < f[j].file
		}
		return f[i].line < f[j].line
	})
}

func listTree(dir string) string {
	s := ""
	n := 0
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && n < 200 && !strings.Contains(p, "/.git/") {
			n++
			s += fmt.Sprintf("%s(%d) ", strings.TrimPrefix(p, dir), fi.Size())
		}
		return nil
	})
	return s
}

// class of a path for the statistics: indexes and working copies have random names
func c11class(op sysOp, db string) string {
	p := strings.TrimPrefix(op.Path, db)
	parts := strings.Split(p, "/")
	if len(parts) > 1 {
		switch {
		case strings.HasPrefix(parts[1], "idx-"):
			parts[1] = "IDX"
		case strings.Contains(parts[1], ".tmp-"):
			parts[1] = "VCSTMP"
		case strings.HasPrefix(parts[1], "vcs-"):
			parts[1] = "VCS"
		}
	}
	if len(parts) > 5 {
		parts = parts[:5]
	}
	for i, x := range parts {
		if len(x) > 20 {
			parts[i] = "X"
		}
	}
	return op.Name + " " + strings.Join(parts, "/")
}

// phase runs one server life under the tap; when armed the kill-th operation
// in the data directory (of class cls, if that is given) is replaced by the
// end of the process. It returns the
// number of operations seen and whether the kill happened.
func (e *c11env) phase(ph int, v0 int, conf string, kill int, cls string, group bool, seen map[string]int) (ops int, killed bool, at string) {
	t := e.t
	var cmu sync.Mutex
	count := map[string]int{}
	var armed, n, hit int32
	var where atomic.Value
	where.Store("")
	var h *Houndd
	started := make(chan bool)
	db := e.db()
	h = startTapped(t, conf, nil, func(op sysOp) int {
		<-started
		if !under(op.Path, db) || atomic.LoadInt32(&armed) == 0 {
			return 0
		}
		k := atomic.AddInt32(&n, 1)
		cl := c11class(op, db)
		cmu.Lock()
		count[cl]++
		if cls != "" {
			k = 0
			if cl == cls {
				k = int32(count[cl])
			}
		}
		if seen != nil {
			seen[cl]++
		}
		cmu.Unlock()
		t.Distinct(ph, cl)
		if kill > 0 && int(k) == kill && atomic.CompareAndSwapInt32(&hit, 0, 1) {
			where.Store(cl)
			if group {
				syscall.Kill(-h.Pid(), syscall.SIGKILL)
				return -1
			}
			syscall.Kill(h.Pid(), syscall.SIGKILL)
			// git, if it is the one that got here, goes on by itself
			if op.Pid != h.Pid() && !sameProcess(op.Pid, h.Pid()) {
				return 0
			}
			return -1
		}
		return 0
	})
	if ph != 2 {
		atomic.StoreInt32(&armed, 1)
	}
	close(started)
	ready := h.waitReady(60 * time.Second)
	if ready && ph == 2 {
		// both repositories change under the running server
		atomic.StoreInt32(&armed, 1)
		e.setVersion(2)
		end := time.Now().Add(30 * time.Second)
		for !h.exited() && time.Now().Before(end) {
			a, err := h.Search("*", "v2", nil)
			if err == nil && len(a.Results) == 2 {
				ids, _, _ := c13dirs(db)
				if len(ids) == 2 {
					break
				}
			}
			time.Sleep(3 * time.Millisecond)
		}
	}
	killed = atomic.LoadInt32(&hit) == 1
	if !killed {
		h.Term(30 * time.Second)
		if !h.exited() {
			syscall.Kill(-h.Pid(), syscall.SIGKILL)
		}
	}
	<-h.Done
	if killed && !group {
		// orphaned git commands still run under the tap
		select {
		case <-h.tapErr:
		case <-time.After(time.Duration(0)):
		}
	}
	h.cleanup()
	if !ready && !killed {
		t.Violate("baseline", nil, "phase %d did not come up: %s", ph, tail([]byte(h.Log()), 1000))
	}
	return int(atomic.LoadInt32(&n)), killed, where.Load().(string)
}

func sameProcess(tid, pid int) bool {
	_, err := os.Stat(fmt.Sprintf("/proc/%d/task/%d", pid, tid))
	return err == nil
}

// prepare brings the data directory into the state in which the phase starts
// and returns the configuration for it and for the verification.
func (e *c11env) prepare(ph int) (conf string, c c11cfg, ok bool) {
	os.RemoveAll(e.db())
	os.MkdirAll(e.db(), 0755)
	e.setVersion(1)
	if ph == 1 {
		return e.config(c11cfg{}), c11cfg{}, true
	}
	first := c11cfg{git2: ph == 4}
	conf = e.config(first)
	if ph == 2 {
		// the phase itself starts from version 1, with everything indexed
	}
	h := startHoundd(e.t, conf, nil)
	if !h.waitReady(60 * time.Second) {
		e.t.Violate("baseline", nil, "preparation did not come up: %s", tail([]byte(h.Log()), 1000))
		h.Kill()
		return "", c, false
	}
	h.Kill()
	switch ph {
	case 2:
		return conf, c11cfg{}, true
	case 3: // changed contents, same configuration
		e.setVersion(2)
		return conf, c11cfg{}, true
	default: // changed contents and configuration: options changed, git2 removed
		e.setVersion(2)
		c = c11cfg{dots: true}
		return e.config(c), c, true
	}
}

func c11(t *T) {
	envs := make(chan *c11env, 16)
	workers := 8
	for i := 0; i < workers; i++ {
		envs <- newC11env(t)
	}
	defer func() {
		for i := 0; i < workers; i++ {
			(<-envs).close()
		}
	}()
	type job struct {
		ph, n int
		cls   string
		group bool
		again int
	}
	var jobs []job
	var mu sync.Mutex
	// count the operations of each phase
	t.Par(4, 4, func(i int) {
		ph := i + 1
		e := <-envs
		defer func() { envs <- e }()
		conf, c, ok := e.prepare(ph)
		if !ok {
			return
		}
		seen := map[string]int{}
		n, _, _ := e.phase(ph, 1, conf, 0, "", true, seen)
		t.Info(fmt.Sprintf("operations_phase_%d", ph), n)
		v := 2
		if ph == 1 {
			v = 1
		}
		if !e.verify("clean", fmt.Sprintf("phase %d without a kill", ph), conf, c, v) {
			return
		}
		step := 1
		budget := t.N(30, 1<<30)
		for (n+step-1)/step > budget {
			step++
		}
		r := t.Rng("phase", ph)
		mu.Lock()
		for k := 1 + r.Intn(step); k <= n+2; k += step {
			jobs = append(jobs, job{ph, k, "", r.Intn(3) > 0, 0})
			if t.Thorough() {
				jobs = append(jobs, job{ph, k, "", false, 0}, job{ph, k, "", true, 1 + r.Intn(n)})
			}
		}
		// every kind of operation on an index once, the first and the last of each
		for _, c := range sortedKeys(seen) {
			if !strings.Contains(c, "/IDX") {
				continue
			}
			jobs = append(jobs, job{ph, 1 + r.Intn(seen[c]), c, r.Intn(2) == 0, 0})
			if seen[c] > 1 && t.Thorough() {
				jobs = append(jobs, job{ph, 1, c, false, 0}, job{ph, seen[c], c, false, 0})
			}
		}
		for k := 0; k < t.N(4, 200); k++ {
			jobs = append(jobs, job{ph, 1 + r.Intn(n), "", r.Intn(2) == 0, 1 + r.Intn(n)})
		}
		mu.Unlock()
	})
	rand.New(rand.NewSource(t.Seed)).Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
	t.Par(len(jobs), workers, func(i int) {
		j := jobs[i]
		e := <-envs
		defer func() { envs <- e }()
		conf, c, ok := e.prepare(j.ph)
		if !ok {
			return
		}
		_, killed, at := e.phase(j.ph, 1, conf, j.n, j.cls, j.group, nil)
		desc := fmt.Sprintf("phase %d, kill before operation %d (%s), children killed too: %v", j.ph, j.n, at, j.group)
		t.Current("%s", desc)
		if killed {
			t.Count("kills", 1)
			if j.cls != "" {
				t.Count("kills_by_kind", 1)
			}
			t.Count(fmt.Sprintf("kills_phase_%d", j.ph), 1)
		} else {
			t.Count("not_reached", 1)
		}
		v := 2
		if j.ph == 1 {
			v = 1
		}
		if j.ph == 2 {
			e.setVersion(2)
		}
		if j.again > 0 && killed {
			_, k2, at2 := e.phase(3, 1, conf, j.again, "", j.group, nil)
			desc += fmt.Sprintf(", then again before operation %d (%s) of the restart", j.again, at2)
			if k2 {
				t.Count("second_kills", 1)
			}
		}
		t.Eval(1)
		e.verify(fmt.Sprintf("%d:%s", j.ph, at), desc, conf, c, v)
	})
	if t.Counter("kills") == 0 {
		t.Inconclusive("no kill took place")
	}
}
