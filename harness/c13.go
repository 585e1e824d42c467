package main

import (
	"crypto/sha1"
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/vcs"
)

func init() {
	register(&Check{ID: "C13", Fn: c13, Bins: []string{"houndd"},
		Rule:   "census at quiescent points: (a) in one process, histories of successful and failing updates and of searches that succeed, are cut off, fail or are refused, on 1-3 scripted repositories: data directory, temporary directory, open files, mappings and goroutines counted after every batch; (b) the real server over restart histories (graceful, killed, reconfigured) on git, local and stand-in hg repositories, among foreign files, with the sources hashed before and after; (c) searches and builds through the index library alone; (d) operations of the version control drivers, whole and with any one of their commands failing (git; hg, svn and bzr stand-ins): open files and child processes left after each, without the garbage collector; non-trivial = distinct (history kind, step, census)",
		Assume: []string{"a count is taken as grown only if it exceeds the baseline at three successive censuses after forced garbage collection"},
	})
}

func hashTree(dir string) string {
	h := sha1.New()
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			fmt.Fprintf(h, "%s err\n", p)
			return nil
		}
		fmt.Fprintf(h, "%s %v %d\n", p, fi.Mode(), fi.ModTime().UnixNano())
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			h.Write(b)
		}
		if fi.Mode()&os.ModeSymlink != 0 {
			l, _ := os.Readlink(p)
			fmt.Fprint(h, l)
		}
		return nil
	})
	return fmt.Sprintf("%x", h.Sum(nil))
}

// entries a user may have put into the data directory
func c13foreign(db string) {
	for _, f := range []string{"notes.txt", "idx-notes/keep.txt", "idx-/keep", "idx-zzzzzzzz/x", "vcs-notes/x", "IDX-0011223344556677/x", "backup/idx-0011223344556677/x", "xidx-0011223344556677/x", "idx-0011223344556677.bak/x"} {
		p := filepath.Join(db, f)
		os.MkdirAll(filepath.Dir(p), 0755)
		os.WriteFile(p, []byte("mine"), 0644)
	}
	os.WriteFile(filepath.Join(db, "idx-00112233445566aa"), []byte("a file, not an index"), 0644)
}

var idxName = regexp.MustCompile(`^idx-[0-9a-f]{8,16}$`)
var vcsName = regexp.MustCompile(`^vcs-[0-9a-f]{40}$`)

// c13dirs lists the data directory: index directories, working copies, the rest.
func c13dirs(db string) (idx, vcs, other []string) {
	es, _ := os.ReadDir(db)
	for _, e := range es {
		switch n := e.Name(); {
		case idxName.MatchString(n) && e.IsDir():
			idx = append(idx, n)
		case vcsName.MatchString(n):
			vcs = append(vcs, n)
		default:
			other = append(other, n)
		}
	}
	return
}

func c13others(db string) string {
	_, _, o := c13dirs(db)
	s := ""
	for _, n := range o {
		s += n + ":" + hashTree(filepath.Join(db, n)) + "\n"
	}
	return s
}

func tmpEntries() (out []string) {
	es, _ := os.ReadDir(os.Getenv("TMPDIR"))
	for _, e := range es {
		out = append(out, e.Name())
	}
	return
}

func nfds() (n int, list string) {
	es, _ := os.ReadDir("/proc/self/fd")
	var ls []string
	for _, e := range es {
		l, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil {
			ls = append(ls, l)
		}
	}
	sort.Strings(ls)
	return len(ls), strings.Join(ls, "\n")
}

func c13(t *T) {
	c13library(t)
	c13spill(t)
	c13build(t)
	c13drivers(t)
	for i := 0; i < t.N(5, 60) && !t.Stop(); i++ {
		c13process(t, i)
	}
	t.Par(t.N(6, 120), 4, func(i int) { c13server(t, i) })
	if t.Counter("censuses") == 0 {
		t.Inconclusive("no census")
	}
}

// searches and builds through the library, including failing ones
func c13library(t *T) {
	r := t.Rng("library")
	src := t.Dir("src")
	tr := Tree{}
	for i := 0; i < 20; i++ {
		tr[fmt.Sprintf("f%d", i)] = genText(r, Style{Dense: true}, 40) + "needle in line\n"
	}
	writeTree(src, tr)
	os.WriteFile(filepath.Join(src, "bin"), []byte("\xff\xfe"), 0644)
	unread := filepath.Join(src, "unreadable")
	run1 := func(i int) {
		dst := filepath.Join(t.Scratch, fmt.Sprintf("lib-%d", i))
		kind := i % 6
		if kind == 3 {
			os.WriteFile(unread, []byte("x"), 0)
		}
		if kind == 4 {
			os.Setenv("TMPDIR", filepath.Join(t.Scratch, "no-such"))
		}
		ref, err := index.Build(&index.IndexOptions{}, dst, src, "u", "r")
		os.Setenv("TMPDIR", filepath.Join(t.Scratch, "tmp"))
		os.Chmod(unread, 0644)
		os.Remove(unread)
		if kind == 3 || kind == 4 {
			if err == nil && kind == 3 && os.Getuid() != 0 {
				t.Violate("lib-build", nil, "build of an unreadable tree succeeded")
			}
			os.RemoveAll(dst)
			if err != nil {
				t.Count("failed_builds", 1)
			}
			return
		}
		if err != nil {
			t.Violate("lib-build", nil, "build: %v", err)
			return
		}
		ix, err := ref.Open()
		if err != nil {
			t.Violate("lib-open", nil, "open: %v", err)
			return
		}
		for k := 0; k < 20; k++ {
			o := &index.SearchOptions{MaxResults: r.Intn(3), Limit: r.Intn(3), LinesOfContext: uint(r.Intn(3))}
			pat := []string{"needle", ".", "(", "nothing like it", `^$`, "a|b"}[r.Intn(6)]
			if r.Intn(6) == 0 {
				o.FileRegexp = "("
			}
			ix.Search(pat, o)
		}
		if kind == 1 {
			// a raw file is missing: searches fail
			os.Remove(filepath.Join(dst, "raw", "f3"))
			for k := 0; k < 20; k++ {
				if _, err := ix.Search("needle", &index.SearchOptions{}); err != nil {
					t.Count("failed_searches", 1)
				}
			}
		}
		if kind == 2 {
			os.WriteFile(filepath.Join(dst, "raw", "f3"), []byte("not gzip"), 0644)
			for k := 0; k < 20; k++ {
				ix.Search("needle", &index.SearchOptions{})
			}
		}
		if kind == 5 { // damaged in the middle, or cut off
			p := filepath.Join(dst, "raw", "f3")
			b, _ := os.ReadFile(p)
			if i/6%2 == 0 && len(b) > 40 {
				for k := len(b) / 2; k < len(b)/2+20; k++ {
					b[k] ^= 0x55
				}
			} else {
				b = b[:len(b)*2/3]
			}
			os.WriteFile(p, b, 0644)
			for k := 0; k < 20; k++ {
				if _, err := ix.Search("needle", &index.SearchOptions{LinesOfContext: uint(k % 3), IgnoreCase: k%2 == 0}); err != nil {
					t.Count("failed_searches", 1)
				}
			}
		}
		if err := ix.Destroy(); err != nil {
			t.Violate("lib-destroy", nil, "destroy: %v", err)
		}
		if _, err := os.Stat(dst); err == nil {
			t.Violate("lib-destroy", nil, "index directory still there after Destroy")
			os.RemoveAll(dst)
		}
	}
	// without the collector, which closes forgotten files
	held := map[int]int{}
	run := func(i int) {
		runtime.GC()
		time.Sleep(time.Millisecond)
		old := debug.SetGCPercent(-1)
		n0, _ := nfds()
		run1(i)
		n, list := nfds()
		debug.SetGCPercent(old)
		t.Distinct("unclosed", i%6, n-n0)
		if n > n0+1 {
			if held[i%6]++; held[i%6] == 2 {
				t.Violate("lib-unclosed", list, "builds and searches of kind %d left %d files open (until the garbage collector closes them): %s", i%6, n-n0, tail([]byte(list), 1500))
			}
		}
	}
	for i := 0; i < 6; i++ {
		run(i)
	}
	base, _ := nfds()
	over := 0
	for i := 6; i < 6+t.N(24, 300) && !t.Stop(); i++ {
		run(i)
		t.Eval(1)
		t.Count("censuses", 1)
		n, list := nfds()
		_, del := mapsUnder(os.Getpid(), t.Scratch)
		live, _ := mapsUnder(os.Getpid(), t.Scratch+"/lib-")
		t.Distinct("lib", i%6, n-base, live, del)
		if live+del > 0 {
			t.Violate("lib-maps", nil, "%d mappings of index files after everything was closed (run %d)", live+del, i)
			return
		}
		if n > base {
			over++
			if over == 3 {
				t.Violate("lib-fds", list, "open files grew from %d to %d over builds and searches of kind %d: %s", base, n, i%6, tail([]byte(list), 1500))
				return
			}
		} else {
			over = 0
		}
		if e := tmpEntries(); len(e) > 0 {
			t.Violate("lib-tmp", e, "temporary files left by build kind %d: %v", i%6, e)
			return
		}
	}
	os.RemoveAll(src)
}

// children lists the child processes of this process, dead ones included.
func children() (out []string) {
	fs, _ := filepath.Glob("/proc/self/task/*/children")
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, p := range strings.Fields(string(b)) {
			st, err := os.ReadFile("/proc/" + p + "/stat")
			if err == nil {
				s := string(st)
				if i := strings.LastIndex(s, ")"); i > 0 {
					s = s[strings.Index(s, "("):i+1] + s[i+1:min(len(s), i+3)]
				}
				out = append(out, s)
			}
		}
	}
	return
}

// c13drivers: what an operation of a driver leaves behind in this process, also if
// one of the commands it runs fails.
func c13drivers(t *T) {
	r := t.Rng("drivers")
	tools := toolsDir(t)
	os.WriteFile(filepath.Join(tools, "git"), []byte("#!/bin/sh\nfor a; do\n  if [ \"$a\" = \"$VH_GITFAIL\" ]; then\n    [ -n \"$VH_GITEAT\" ] && head -c 100 >/dev/null\n    exit 3\n  fi\ndone\nexec /usr/bin/git \"$@\"\n"), 0755)
	path := os.Getenv("PATH")
	os.Setenv("PATH", tools+":"+path)
	defer os.Setenv("PATH", path)
	defer os.Unsetenv("VH_GITFAIL")
	defer os.Unsetenv("VH_GITEAT")
	top := t.Dir("drivers")
	defer os.RemoveAll(top)
	g := newGitRemote(t, "master")
	defer os.RemoveAll(g.Dir)
	tr := Tree{".gitattributes": "*0 linguist-generated\n"}
	for i := 0; i < 1500; i++ { // more names than a pipe holds
		tr[fmt.Sprintf("directory-with-a-long-name-%d/file-with-a-rather-long-name-%06d", i%7, i)] = "x\n"
	}
	g.Commit(tr)
	dirs := map[string]string{}
	wds := map[string]*vcs.WorkDir{}
	urls := map[string]string{"git": g.URL(), "gitd": g.URL()}
	ctls := map[string]*VCtl{}
	for _, d := range []string{"git", "gitd", "hg", "svn", "bzr"} {
		cfg := []byte(nil)
		if d == "gitd" {
			cfg = []byte(`{"detect-ref":true}`)
		}
		wd, err := vcs.New(d[:min(3, len(d))], cfg)
		if err != nil {
			t.Violate("drivers-new", nil, "%s: %v", d, err)
			return
		}
		if urls[d] == "" {
			ctls[d] = &VCtl{filepath.Join(top, "remote-"+d)}
			os.MkdirAll(ctls[d].Dir, 0755)
			ctls[d].write("user", "")
			ctls[d].write("pass", "")
			ctls[d].Commit("1", Tree{"f": "1\n"})
			urls[d] = ctls[d].Dir
		}
		dirs[d], wds[d] = filepath.Join(top, "vcs-"+d), wd
		if _, err := wd.PullOrClone(dirs[d], urls[d]); err != nil {
			t.Violate("drivers-clone", nil, "%s: %v", d, err)
			return
		}
	}
	held := map[string]int{}
	for i := 0; i < t.N(60, 500) && !t.Stop(); i++ {
		d := pick(r, "git", "git", "gitd", "hg", "svn", "bzr")
		op := pick(r, "pull", "pull", "headrev", "auto", "auto", "reclone", "missing")
		fail := ""
		if d == "git" || d == "gitd" {
			fail = pick(r, "", "fetch", "reset", "rev-parse", "ls-files", "check-attr", "check-attr", "clone", "remote")
			os.Setenv("VH_GITFAIL", fail)
			os.Setenv("VH_GITEAT", pick(r, "", "y"))
			if fail == "" {
				os.Setenv("VH_GITFAIL", "no-such-command")
			}
		} else {
			fail = pick(r, "", "fail", "fail-silent", "fail-noise", "signal", "noise", "rev-fail")
			ctls[d].Reset(map[int]string{r.Intn(2): fail})
			if fail == "" {
				ctls[d].Reset(nil)
			}
		}
		runtime.GC()
		old := debug.SetGCPercent(-1)
		n0, _ := nfds()
		t.Current("C13 %s %s with failing %q", d, op, fail)
		done := make(chan error, 1)
		go func() {
			var err error
			switch op {
			case "pull":
				_, err = wds[d].Pull(dirs[d])
			case "headrev":
				_, err = wds[d].HeadRev(dirs[d])
			case "auto":
				wds[d].AutoGeneratedFiles(dirs[d])
			case "reclone":
				_, err = wds[d].Reclone(dirs[d], urls[d])
			case "missing":
				_, err = wds[d].Pull(dirs[d] + "-none")
			}
			done <- err
		}()
		what := fmt.Sprintf("%s of %s with failing command %q", op, d, fail)
		var err error
		select {
		case err = <-done:
		case <-time.After(60 * time.Second):
			t.Violate("drivers-hang", nil, "%s has not ended after a minute; child processes %v", what, children())
			debug.SetGCPercent(old)
			return
		}
		t.Eval(1)
		t.Count("driver_operations", 1)
		if err != nil {
			t.Count("driver_operations_failed", 1)
		}
		var ch []string
		for end := time.Now().Add(2 * time.Second); ; time.Sleep(time.Millisecond) {
			if ch = children(); len(ch) == 0 || time.Now().After(end) {
				break
			}
		}
		n, list := nfds()
		debug.SetGCPercent(old)
		t.Distinct("driver", d, op, fail, err != nil, n-n0, len(ch))
		if len(ch) > 0 {
			t.Violate("drivers-children", ch, "%s has left child processes: %v", what, ch)
			return
		}
		if n > n0 {
			if held[what]++; held[what] == 2 {
				t.Violate("drivers-fds", list, "%s has left %d files open (until the garbage collector closes them): %s", what, n-n0, tail([]byte(list), 1500))
				return
			}
		}
	}
}

// c13build: what a build, a search and a close or removal leave open, without
// help from the garbage collector.
func c13build(t *T) {
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	mappings := func() (n int) {
		b, _ := os.ReadFile("/proc/self/maps")
		for _, l := range strings.Split(string(b), "\n") {
			if strings.Contains(l, t.Scratch) {
				n++
			}
		}
		return
	}
	for i := 0; i < t.N(40, 600) && !t.Stop(); i++ {
		r := t.Rng("build", i)
		top := t.Dir("build")
		src := filepath.Join(top, "src")
		tr := Tree{}
		for k := 20 + r.Intn(60); k > 0; k-- {
			tr[genName(r)+fmt.Sprint(k)] = pick(r, genText(r, Style{}, 20), "\xff\xfe\x00", "", strings.Repeat("long ", 1000)+"\n")
		}
		if err := writeTreeErr(src, tr); err != nil {
			os.RemoveAll(top)
			continue
		}
		kind := pick(r, "whole", "whole", "unreadable", "no-destination", "search-fails", "full", "full")
		if kind == "full" {
			b := make([]byte, 1<<20)
			for k := range b {
				b[k] = "0123456789abcdef\n"[r.Intn(17)]
			}
			os.WriteFile(filepath.Join(src, pick(r, "0", "mm", "zz")), b, 0644)
		}
		dst := filepath.Join(top, "dst")
		switch kind {
		case "unreadable":
			// a name with which the copy cannot be made
			os.MkdirAll(filepath.Join(src, strings.Repeat("n/", 3), "zz"), 0755)
			os.Chmod(filepath.Join(src, strings.Repeat("n/", 3), "zz"), 0)
		case "no-destination":
			os.WriteFile(dst, []byte("x"), 0644)
		}
		before, blist := nfds()
		mapped, gos := mappings(), runtime.NumGoroutine()
		desc := fmt.Sprintf("build %d of %d files (%s)", i, len(tr), kind)
		for round := 0; round < 3; round++ {
			var lim syscall.Rlimit
			syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim)
			if kind == "full" { // no file can grow beyond 64 KiB
				signal.Ignore(syscall.SIGXFSZ)
				syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 1 << 16, Max: lim.Max})
			}
			ref, err := index.Build(&index.IndexOptions{}, dst, src, "u", "r")
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
			if (err != nil) != (kind == "unreadable" || kind == "no-destination" || kind == "full") {
				if kind != "unreadable" { // root reads everything
					t.Violate("build", nil, "%s: %v", desc, err)
				}
			}
			if err == nil {
				ix, err := ref.Open()
				if err != nil {
					t.Violate("build", nil, "%s: %v", desc, err)
					break
				}
				if kind == "search-fails" {
					os.RemoveAll(filepath.Join(dst, "raw"))
					ix.Search("\\w", &index.SearchOptions{})
				}
				ix.Search("(", &index.SearchOptions{})
				ix.Search("", &index.SearchOptions{Limit: 3})
				ix.Search("e", &index.SearchOptions{MaxResults: 2, Offset: 1, Limit: 2})
				if round%2 == 0 {
					ix.Close()
				} else {
					ix.Destroy()
				}
			}
			os.RemoveAll(dst)
			if kind == "no-destination" {
				os.WriteFile(dst, []byte("x"), 0644)
			}
		}
		t.Eval(1)
		t.Count("builds_watched", 3)
		t.Distinct("build", kind, len(tr))
		if n, l := nfds(); n > before {
			t.Violate("build-fds", nil, "%s: %d open files after three rounds of build, search and close, %d before:\n%s\nbefore\n%s", desc, n, before, l, blist)
		}
		if n := mappings(); n > mapped {
			t.Violate("build-maps", nil, "%s: %d mappings of files after three rounds of build, search and close, %d before", desc, n, mapped)
		}
		for k := 0; k < 100 && runtime.NumGoroutine() > gos; k++ {
			time.Sleep(time.Millisecond)
		}
		if n := runtime.NumGoroutine(); n > gos {
			t.Violate("build-goroutines", nil, "%s: %d goroutines afterwards, %d before", desc, n, gos)
		}
		os.Chmod(filepath.Join(src, strings.Repeat("n/", 3), "zz"), 0755)
		os.RemoveAll(top)
	}
}

// c13spill: builds so large that the writer sets postings aside in temporary
// files, completed and failing.
func c13spill(t *T) {
	r := t.Rng("spill")
	src := t.Dir("src")
	defer os.RemoveAll(src)
	const al = "abcdefghijklmnopqrstuvwxyz0123456789 \n.;"
	for i := 0; i < 460; i++ {
		b := make([]byte, 22600)
		for j := range b {
			b[j] = al[r.Intn(len(al))]
		}
		os.WriteFile(filepath.Join(src, fmt.Sprintf("f%04d", i)), b, 0644)
	}
	nfds()
	for k := 0; k < 2; k++ {
		if k == 1 {
			os.WriteFile(filepath.Join(src, "unreadable"), []byte("x"), 0)
		}
		base, _ := nfds()
		dst := filepath.Join(t.Scratch, fmt.Sprintf("spill-%d", k))
		// what is in the temporary directory while the build goes on
		stop, most := make(chan bool), make(chan int)
		go func() {
			n := 0
			for {
				select {
				case <-stop:
					most <- n
					return
				case <-time.After(5 * time.Millisecond):
					if e := tmpEntries(); len(e) > n {
						n = len(e)
					}
				}
			}
		}()
		_, err := index.Build(&index.IndexOptions{}, dst, src, "u", "r")
		close(stop)
		t.Max("temporary_files_at_once", int64(<-most))
		t.Eval(1)
		t.Count("censuses", 1)
		t.Distinct("spill", k, err != nil)
		if (err != nil) != (k == 1) {
			t.Violate("spill-build", nil, "build %d of a large tree: %v", k, err)
		}
		if e := tmpEntries(); len(e) > 0 {
			t.Violate("lib-tmp", e, "temporary files left by the build of a large tree (failed: %v): %v", k == 1, e)
		}
		if n, list := nfds(); n > base {
			t.Violate("lib-fds", list, "open files grew from %d to %d over the build of a large tree (failed: %v)", base, n, k == 1)
		}
		os.RemoveAll(dst)
	}
}

func c13process(t *T, i int) {
	r := t.Rng("process", i)
	db := t.Dir("db")
	defer os.RemoveAll(db)
	c13foreign(db)
	before := c13others(db)
	repos := map[string]*config.Repo{}
	rem := map[string]*Remote{}
	var names []string
	for k, n := 0, 1+r.Intn(3); k < n; k++ {
		id := fmt.Sprintf("c13-%d-%d", i, k)
		m := newRemote(id, nil)
		m.Tree = func(rev int) Tree { return tokenTree(id, rev, 8, 5) }
		defer m.drop()
		nm := fmt.Sprintf("p%d", k)
		repos[nm], rem[nm] = fakeRepo(m, repoOpt{push: true}), m
		names = append(names, nm)
	}
	lab, err := newLab(t, db, 2, repos)
	if err != nil || len(lab.Errs) > 0 {
		t.Violate("startup", nil, "startup failed: %v", err)
		return
	}
	defer lab.Close()
	var baseFd, baseGo int
	over := map[string]int{}
	census := func(step int, what string) bool {
		// quiescence: nothing in flight, idle connections closed
		lab.client.CloseIdleConnections()
		time.Sleep(2 * time.Millisecond)
		runtime.GC()
		idx, vcs, _ := c13dirs(db)
		fd, fdl := nfds()
		g := runtime.NumGoroutine()
		live, del := mapsUnder(os.Getpid(), db)
		tmp := tmpEntries()
		t.Count("censuses", 1)
		t.Eval(1)
		t.Distinct("process", len(names), what, fd-baseFd, g-baseGo)
		if len(idx) != len(names) || len(vcs) != len(names) {
			return false
		}
		if step == 0 {
			baseFd, baseGo = fd, g
		}
		bad := func(k string, cond bool, f string, a ...interface{}) {
			if !cond {
				over[k] = 0
				return
			}
			if over[k]++; over[k] == 3 {
				t.Violate("process-"+k, map[string]interface{}{"step": step, "what": what}, "history %d, step %d (%s): %s", i, step, what, fmt.Sprintf(f, a...))
			}
		}
		bad("fds", fd > baseFd+2, "open files grew from %d to %d: %s", baseFd, fd, tail([]byte(fdl), 1200))
		bad("goroutines", g > baseGo+4, "goroutines grew from %d to %d", baseGo, g)
		bad("maps", live != len(names) || del > 0, "%d live and %d deleted index mappings for %d repositories", live, del, len(names))
		bad("tmp", len(tmp) > 0, "temporary files: %v", tmp)
		if now := c13others(db); now != before {
			t.Violate("process-foreign", nil, "history %d, step %d (%s): foreign files changed:\nbefore:\n%s\nafter:\n%s", i, step, what, before, now)
		}
		return true
	}
	settle := func(step int, what string) bool {
		end := time.Now().Add(10 * time.Second)
		for !census(step, what) {
			if time.Now().After(end) {
				idx, vcs, o := c13dirs(db)
				t.Violate("process-dirs", nil, "history %d, step %d (%s): %d index directories %v and %d working copies %v for %d repositories (others %v)", i, step, what, len(idx), idx, len(vcs), vcs, len(names), o)
				return false
			}
			time.Sleep(time.Millisecond)
		}
		return true
	}
	// warm up
	for _, n := range names {
		lab.Tokens(n)
		lab.Search("*", tokenQuery, nil)
	}
	if !settle(0, "start") {
		return
	}
	var cur syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &cur)
	for step := 1; step <= t.N(14, 60) && !t.Stop(); step++ {
		n := names[r.Intn(len(names))]
		m := rem[n]
		rev := m.Commit()
		kind := r.Intn(6)
		what := []string{"update", "pull-error", "build-error", "tmpdir-error", "searches", "burst"}[kind]
		fail := func(before func(string, string) error, after func(string, string, int) error) {
			m.mu.Lock()
			m.Before, m.After = before, after
			m.mu.Unlock()
		}
		failed := func() {
			for k := 0; k < 3; k++ {
				stamp := tick()
				lab.Searchers[n].Update()
				for end := time.Now().Add(5 * time.Second); m.PullsAfter(stamp) == 0 && time.Now().Before(end); {
					time.Sleep(200 * time.Microsecond)
				}
			}
		}
		switch kind {
		case 0:
			lab.Push(n)
			lab.waitRev(n, rev, 10*time.Second)
		case 1:
			fail(func(string, string) error { return fmt.Errorf("injected") }, nil)
			failed()
		case 2:
			fail(nil, func(k, dir string, rev int) error { return os.Chmod(filepath.Join(dir, "d0/f000"), 0) })
			failed()
		case 3:
			old := os.Getenv("TMPDIR")
			os.Setenv("TMPDIR", filepath.Join(db, "none"))
			failed()
			lab.Searchers[n].Update()
			time.Sleep(3 * time.Millisecond)
			os.Setenv("TMPDIR", old)
		case 4:
			for k := 0; k < 30; k++ {
				c13search(lab, r)
			}
		case 5:
			for k := 0; k < 5; k++ {
				rev = m.Commit()
				lab.Push(n)
			}
			lab.waitRev(n, rev, 10*time.Second)
		}
		fail(nil, nil)
		// back to normal
		rev = m.Commit()
		lab.Push(n)
		stamp := tick()
		lab.Push(n)
		if got, msg := lab.waitRev(n, rev, 10*time.Second); msg != "" {
			t.Violate("process-progress", nil, "history %d, step %d (%s): revision %d not reached: %d %s", i, step, what, rev, got, msg)
			return
		}
		_ = stamp
		t.Count("step_"+what, 1)
		if !settle(step, what) {
			return
		}
	}
}

// requests of all kinds, also failing and oversized ones
func c13search(lab *Lab, r *rand.Rand) {
	q := []string{tokenQuery, "(", "filler", "", "[", "zzzz", "."}[r.Intn(7)]
	switch r.Intn(4) {
	case 0:
		lab.Search("*", q, map[string][]string{"limit": {"1"}})
	case 1:
		lab.Search("p0", q, map[string][]string{"rng": {"0:1"}, "files": {"("}})
	case 2:
		getBody(lab.client, lab.srv.URL+"/api/v1/excludes?repo=p0")
		getBody(lab.client, lab.srv.URL+"/api/v1/excludes?repo=nosuch")
	default:
		lab.Search("p0,p0,nosuch", q, nil)
	}
}

// restart histories of the real server
func c13server(t *T, i int) {
	r := t.Rng("server", i)
	top := t.Dir("server")
	defer os.RemoveAll(top)
	dbName := []string{"data", "da*ta", "[db]", "with space", "d?b"}[i%5]
	db, tmp, src := filepath.Join(top, dbName), filepath.Join(top, "tmp"), filepath.Join(top, "src")
	for _, d := range []string{db, tmp, src} {
		os.MkdirAll(d, 0755)
	}
	c13foreign(db)
	// what other programs, another hound among them, keep in the temporary directory
	others := Tree{"csearch-index123456789": "of another process\n", "csearch": "x\n", "hound": "y\n", "idx-0123456789abcdef/metadata.gob": "z\n", "vcs-0/x": "w\n"}
	foreignTmp := func() { writeTree(tmp, others) }
	foreignTmp()
	hashTmp := func() (h string) {
		for _, n := range others.names() {
			h += hashTree(filepath.Join(tmp, strings.Split(n, "/")[0]))
		}
		return
	}
	tmpHash := hashTmp()
	ownTmp := func() (n []string) {
		es, _ := os.ReadDir(tmp)
		for _, e := range es {
			known := false
			for o := range others {
				known = known || strings.Split(o, "/")[0] == e.Name()
			}
			if !known {
				n = append(n, e.Name())
			}
		}
		return
	}
	writeTree(src, Tree{"a.txt": "hello local\n", "sub/b.txt": "hello b\n", ".dot": "hello dot\n"})
	os.Symlink("sub", filepath.Join(src, "lnk"))
	mustGit(src, "init", "-q")
	g := newGitRemote(t, "master")
	defer os.RemoveAll(g.Dir)
	g.Commit(Tree{"g.txt": "hello git 0\n"})
	hg := newHgCtl(t)
	defer os.RemoveAll(hg.Dir)
	hg.Commit("h0", Tree{"h.txt": "hello hg 0\n"})
	before := c13others(db)
	all := M{
		"local": M{"url": "file://" + src, "vcs": "local", "vcs-config": M{"watch-changes": true}},
		"git":   M{"url": g.URL(), "ms-between-poll": 20, "enable-push-updates": true},
		"hg":    M{"url": hg.Dir, "vcs": "hg", "ms-between-poll": 20, "enable-push-updates": true},
		"gone":  M{"url": "file://" + top + "/nothing", "vcs": "git"},
	}
	hist := ""
	for step := 0; step < t.N(5, 10) && !t.Stop(); step++ {
		repos := M{}
		for n, c := range all {
			if r.Intn(4) > 0 {
				repos[n] = c
			}
		}
		// now and then the local directory is configured as a git repository
		if r.Intn(4) == 0 {
			repos["local"] = M{"url": "file://" + src, "vcs": "git"}
		}
		if r.Intn(3) == 0 && repos["git"] != nil {
			repos["git2"] = all["git"]
		}
		srcHash := hashTree(src)
		conf := writeConfig(top, M{"dbpath": dbName, "repos": repos, "max-concurrent-indexers": 1 + r.Intn(3)})
		h := startHoundd(t, conf, []string{"TMPDIR=" + tmp, "PATH=" + hgDir(t) + ":" + os.Getenv("PATH")})
		desc := fmt.Sprintf("server history %d (%s), step %d: repos %v after [%s]", i, dbName, step, keysOf(repos), hist)
		if !h.waitReady(60 * time.Second) {
			t.Violate("server-start", h.Log(), "%s: server did not come up: %s", desc, tail([]byte(h.Log()), 1500))
			h.Kill()
			return
		}
		served := 0
		var names []string
		_, body, _ := getBody(h.client, h.Base+"/api/v1/repos")
		for n := range repos {
			if strings.Contains(string(body), `"`+n+`":`) {
				served++
				names = append(names, n)
			}
		}
		if served == 0 && len(repos) > 0 && !(len(repos) == 1 && repos["gone"] != nil) {
			// possible only if nothing could start
			t.Count("nothing_served", 1)
		}
		baseFd := 0
		for k := 0; k < 3; k++ {
			if repos["git"] != nil {
				g.Commit(Tree{"g.txt": fmt.Sprintf("hello git %d %d\n", step, k)})
				h.Push("git")
			}
			if repos["hg"] != nil {
				hg.Commit(fmt.Sprintf("h%d.%d", step, k), Tree{"h.txt": fmt.Sprintf("hello hg %d %d\n", step, k)})
				h.Push("hg")
			}
			end := time.Now().Add(10 * time.Second)
			for {
				ok := true
				if a, err := h.Search("*", "hello", nil); err != nil || a.Error != "" {
					t.Violate("server-search", nil, "%s: %v %+v", desc, err, a)
				} else {
					for n, want := range map[string]string{"git": fmt.Sprintf("hello git %d %d", step, k), "hg": fmt.Sprintf("hello hg %d %d", step, k)} {
						if repos[n] == nil {
							continue
						}
						if a.Results[n] == nil || len(a.Results[n].Matches) != 1 || a.Results[n].Matches[0].Matches[0].Line != want {
							ok = false
						}
					}
				}
				idx, _, _ := c13dirs(db)
				ents := ownTmp()
				live, del := mapsUnder(h.Pid(), db)
				if ok && len(idx) == served && len(ents) == 0 && live == served && del == 0 {
					break
				}
				if time.Now().After(end) {
					t.Violate("server-dirs", nil, "%s, update %d: answers current: %v; %d index directories %v, %d+%d mappings for %d served repositories %v; temporary files %v", desc, k, ok, len(idx), idx, live, del, served, names, ents)
					h.Kill()
					return
				}
				time.Sleep(5 * time.Millisecond)
			}
			t.Eval(1)
			t.Count("censuses", 1)
			t.Count("server_censuses", 1)
		}
		_ = baseFd
		if now := c13others(db); now != before {
			t.Violate("server-foreign", nil, "%s: foreign files changed:\nbefore:\n%s\nafter:\n%s", desc, before, now)
		}
		if hashTmp() != tmpHash {
			es, _ := os.ReadDir(tmp)
			t.Violate("server-foreign-tmp", nil, "%s: files of others in the temporary directory changed: %v", desc, es)
		}
		if hashTree(src) != srcHash {
			t.Violate("server-source", nil, "%s: the local repository's own directory was changed", desc)
		}
		how := "term"
		if r.Intn(2) == 0 {
			how = "kill"
			if repos["git"] != nil && r.Intn(2) == 0 {
				// amid an update
				g.Commit(Tree{"g.txt": fmt.Sprintf("hello git %d last\n", step)})
				h.Push("git")
				time.Sleep(time.Duration(r.Intn(40)) * time.Millisecond)
			}
			h.Kill()
			if left := c13leftover(t, r, db); left != "" {
				how += "+" + left
			}
		} else {
			if ok, msg := h.Term(30 * time.Second); !ok {
				t.Violate("server-stop", nil, "%s: %s", desc, msg)
				h.Kill()
				return
			}
			h.cleanup()
			if e := ownTmp(); len(e) > 0 {
				t.Violate("server-tmp", nil, "%s: temporary files left after shutdown: %d", desc, len(e))
			}
		}
		for _, n := range ownTmp() {
			os.RemoveAll(filepath.Join(tmp, n))
		}
		hist += fmt.Sprintf("%v+%s ", keysOf(repos), how)
		t.Distinct("server", strings.Join(keysOf(repos), ","), how)
		t.Count("restarts", 1)
	}
	if i < 2 {
		t.Sample(hist)
	}
}

// c13leftover puts into the data directory what a crash at some point of an
// index build or of the removal of an index leaves behind.
func c13leftover(t *T, r *rand.Rand, db string) string {
	idx, _, _ := c13dirs(db)
	for _, n := range idx {
		// nothing but what this server wrote
		if !idxName.MatchString(n) {
			return ""
		}
	}
	dir := filepath.Join(db, fmt.Sprintf("idx-%016x", r.Uint64()))
	if _, err := os.Stat(dir); err == nil {
		return ""
	}
	kinds := []string{"empty", "rawonly", "nomanifest", "shortmanifest", "shorttri", "copy"}
	kind := kinds[r.Intn(len(kinds))]
	os.MkdirAll(dir, 0755)
	switch kind {
	case "empty":
	case "rawonly":
		os.MkdirAll(filepath.Join(dir, "raw/x"), 0755)
		os.WriteFile(filepath.Join(dir, "raw/x/f"), []byte("half"), 0644)
	default:
		if len(idx) == 0 {
			break
		}
		if err := copyTree(filepath.Join(db, idx[r.Intn(len(idx))]), dir); err != nil {
			panic(err)
		}
		switch kind {
		case "nomanifest":
			os.Remove(filepath.Join(dir, "metadata.gob"))
		case "shortmanifest":
			if fi, err := os.Stat(filepath.Join(dir, "metadata.gob")); err == nil && fi.Size() > 0 {
				os.Truncate(filepath.Join(dir, "metadata.gob"), r.Int63n(fi.Size()))
			}
		case "shorttri":
			if fi, err := os.Stat(filepath.Join(dir, "tri")); err == nil && fi.Size() > 0 {
				os.Truncate(filepath.Join(dir, "tri"), r.Int63n(fi.Size()))
			}
		}
	}
	t.Count("leftover_"+kind, 1)
	return kind
}

func copyTree(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0644)
	})
}

func keysOf(m M) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
