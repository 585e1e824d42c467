package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/vcs"
)

func init() {
	register(&Check{ID: "C22", Fn: c22,
		Rule:   "edit histories on generated directories (odd names incl. newlines, quotes and names shaped like hash lines; links to files, directories and nowhere, FIFOs, empty directories; edits of one byte at equal size and times, moved, swapped, shifted between files, added, removed, renamed, replaced by copies, links or directories; and edits that change nothing: touch, chmod, rewrite, empty directories), revisions taken through the driver from the directory itself, a link and a chain of links, by new and old driver instances; all pairs of states of a history must have equal revisions exactly if names and contents are equal; the directory is hashed with times and modes around every operation. Then whole servers on such directories: searches must follow the tree, and an index directory must survive edits that change nothing and restarts; non-trivial = distinct (edit kind, revision changed) and distinct server edits",
		Assume: []string{"for links and special files only the name decides; whether a changed link target changes the revision is left open"},
	})
}

func c22(t *T) {
	t.Par(t.N(400, 12000), 0, func(i int) { c22history(t, i) })
	t.Par(t.N(24, 400), 4, func(i int) { c22server(t, i) })
	if t.Counter("revisions") == 0 || t.Counter("server_edits") == 0 {
		t.Inconclusive("nothing was observed")
	}
}

var c22names = []string{"a", "b", "c.go", "d/a", "d/b", "d/e/f", "sp ace", "é", "new\nline", "\"q\"", "\"new\\nline\"", "x  y", "da39a3ee5e6b4b0d3255bfef95601890afd80709  a", "-", "z\xff\xfe", ".dot", ".git/config", "d.a", "d/a b", "A",
	"a~", "#a#", ".a.swp", "c.tmp", "c.bak", "c.go.orig", "node_modules/m", "d/Thumbs.db", ".DS_Store"}

// c22state reads a tree: strict has the names and the contents of regular
// files, loose everything that may matter.
func c22state(dir string) (strict, loose string) {
	var s, l []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case fi.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			s = append(s, fmt.Sprintf("%q=%q", rel, b))
			l = append(l, fmt.Sprintf("%q=%q", rel, b))
		case fi.Mode()&os.ModeSymlink != 0:
			x, _ := os.Readlink(p)
			var b []byte
			if st, err := os.Stat(p); err == nil && st.Mode().IsRegular() {
				b, _ = os.ReadFile(p)
			}
			s = append(s, fmt.Sprintf("%q", rel))
			l = append(l, fmt.Sprintf("%q->%q=%q", rel, x, b))
		default:
			s = append(s, fmt.Sprintf("%q", rel))
			l = append(l, fmt.Sprintf("%q:%v", rel, fi.Mode().Type()))
		}
		return nil
	})
	sort.Strings(s)
	sort.Strings(l)
	return strings.Join(s, " "), strings.Join(l, " ")
}

// c22stamp is everything about the directory that could be modified.
func c22stamp(dir string) string {
	var s []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			st := fi.Sys().(*syscall.Stat_t)
			s = append(s, fmt.Sprintf("%q %v %d %d %d %d", p, fi.Mode(), fi.Size(), st.Ino, st.Mtim.Nano(), st.Ctim.Nano()))
		}
		return nil
	})
	return strings.Join(s, "\n")
}

// c22edit performs one edit and names it.
func c22edit(r *rand.Rand, dir string, special bool) string {
	var files, dirs []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			files = append(files, p)
		} else if err == nil && fi.IsDir() {
			dirs = append(dirs, p)
		}
		return nil
	})
	pick := func() string { return files[r.Intn(len(files))] }
	put := func(p, c string) {
		tmp := filepath.Join(filepath.Dir(dir), "edit-tmp")
		os.WriteFile(tmp, []byte(c), 0644)
		os.Rename(tmp, p)
	}
	k := r.Intn(20)
	if len(files) == 0 {
		k = 0
	}
	if !special && k >= 15 && k <= 17 {
		k = r.Intn(15)
	}
	switch k {
	case 0, 1:
		p := filepath.Join(dir, c22names[r.Intn(len(c22names))])
		if os.MkdirAll(filepath.Dir(p), 0755) != nil {
			return "none"
		}
		if _, err := os.Lstat(p); err == nil {
			return "none"
		}
		if r.Intn(12) == 0 {
			put(p, strings.Repeat("a line of a large file\n", (1+r.Intn(4))<<16)+"end\n")
			return "add-large"
		}
		put(p, []string{"", "x\n", "token of " + filepath.Base(p) + "\n"}[r.Intn(3)])
		return "add"
	case 2: // one byte, same size, same times
		p := pick()
		b, _ := os.ReadFile(p)
		if len(b) == 0 {
			return "none"
		}
		fi, _ := os.Stat(p)
		b[r.Intn(len(b))] ^= 1
		os.WriteFile(p, b, 0644)
		os.Chtimes(p, fi.ModTime(), fi.ModTime())
		return "byte"
	case 3:
		p := pick()
		b, _ := os.ReadFile(p)
		put(p, string(b)+"more\n")
		return "append"
	case 4:
		os.Remove(pick())
		return "remove"
	case 5:
		p, q := pick(), filepath.Join(dir, c22names[r.Intn(len(c22names))])
		if os.MkdirAll(filepath.Dir(q), 0755) == nil {
			os.Rename(p, q)
		}
		return "rename"
	case 6: // swap
		p, q := pick(), pick()
		a, _ := os.ReadFile(p)
		b, _ := os.ReadFile(q)
		put(p, string(b))
		put(q, string(a))
		return "swap"
	case 7: // shift a byte from one to the next
		p, q := pick(), pick()
		a, _ := os.ReadFile(p)
		b, _ := os.ReadFile(q)
		if p == q || len(a) == 0 {
			return "none"
		}
		put(p, string(a[:len(a)-1]))
		put(q, string(a[len(a)-1:])+string(b))
		return "shift"
	case 8: // duplicate
		p := pick()
		a, _ := os.ReadFile(p)
		put(p+".copy", string(a))
		return "copy"
	case 9:
		p := pick()
		tm := time.Unix(int64(r.Intn(1<<30)), 0)
		os.Chtimes(p, tm, tm)
		return "touch"
	case 10:
		os.Chmod(pick(), []os.FileMode{0644, 0755, 0600, 0444}[r.Intn(4)])
		return "chmod"
	case 11:
		p := pick()
		a, _ := os.ReadFile(p)
		put(p, string(a))
		return "rewrite"
	case 12:
		os.MkdirAll(filepath.Join(dirs[r.Intn(len(dirs))], fmt.Sprintf("empty%d", r.Intn(3)), "deep"), 0755)
		return "mkdir"
	case 13: // remove empty directories
		for i := len(dirs) - 1; i > 0; i-- {
			os.Remove(dirs[i])
		}
		return "rmdir"
	case 14: // move a directory
		if len(dirs) > 1 {
			d := dirs[1+r.Intn(len(dirs)-1)]
			os.Rename(d, filepath.Join(dir, fmt.Sprintf("moved%d", r.Intn(5))))
		}
		return "move-dir"
	case 15:
		p := filepath.Join(dir, "link"+fmt.Sprint(r.Intn(3)))
		os.Remove(p)
		os.Symlink([]string{"a", "d", "nowhere", ".", "..", filepath.Join(filepath.Dir(dir), "outside")}[r.Intn(6)], p)
		return "link"
	case 16:
		p := filepath.Join(dir, "fifo")
		if os.Remove(p) != nil {
			syscall.Mkfifo(p, 0644)
		}
		return "fifo"
	case 17: // a file becomes a link to a file with the same content
		p := pick()
		a, _ := os.ReadFile(p)
		o := filepath.Join(filepath.Dir(dir), "outside")
		put(o, string(a))
		os.Remove(p)
		os.Symlink(o, p)
		return "file-to-link"
	case 18: // the same file through another inode
		p := pick()
		q := p + ".hard"
		if os.Link(p, q) == nil {
			os.Rename(q, p)
			os.Remove(q)
		}
		return "relink"
	default:
		put(pick(), "")
		return "truncate"
	}
}

func c22history(t *T, i int) {
	r := t.Rng("history", i)
	par := t.Dir("local")
	defer os.RemoveAll(par)
	dir := filepath.Join(par, "dir")
	os.MkdirAll(dir, 0755)
	os.WriteFile(filepath.Join(par, "outside"), []byte("outside\n"), 0644)
	src := dir
	switch i % 3 {
	case 1:
		src = filepath.Join(par, "ln")
		os.Symlink(dir, src)
	case 2:
		os.Symlink(dir, filepath.Join(par, "ln"))
		src = filepath.Join(par, "ln2")
		os.Symlink("ln", src)
	}
	for k := r.Intn(8); k > 0; k-- {
		c22edit(r, dir, i%2 == 0)
	}
	if i%8 == 5 {
		for k := 60 + r.Intn(400); k > 0; k-- {
			p := filepath.Join(dir, "many", fmt.Sprint(k%7), fmt.Sprint("n", k))
			os.MkdirAll(filepath.Dir(p), 0755)
			os.WriteFile(p, []byte(fmt.Sprintf("many %d\n", k)), 0644)
		}
		t.Count("larger_trees", 1)
	}
	db := filepath.Join(par, "db")
	os.MkdirAll(db, 0755)
	open := func(watch bool) *vcs.WorkDir {
		b, _ := json.Marshal(M{"watch-changes": watch, "ignored-files": []string{"b"}})
		if !watch && r.Intn(2) == 0 {
			b = nil
		}
		wd, err := vcs.New("local", b)
		if err != nil {
			t.Violate("new", nil, "vcs.New(local, %s): %v", b, err)
		}
		return wd
	}
	watch, still := open(true), open(false)
	wdir, sdir := filepath.Join(db, "vcs-00ff"), filepath.Join(db, "vcs-11aa")
	type state struct{ edit, strict, loose, rev string }
	var states []state
	stillRev := ""
	edit := "start"
	var hist []string
	for k := 0; k < 16 && !t.Stop(); k++ {
		if k > 0 {
			edit = c22edit(r, dir, i%2 == 0)
			hist = append(hist, edit)
		}
		if r.Intn(3) == 0 {
			watch, still = open(true), open(false)
		}
		if r.Intn(8) == 0 {
			os.Remove(wdir)
		}
		strict, loose := c22state(dir)
		stamp := c22stamp(dir)
		t.Current("C22 history %d step %d %s: %s", i, k, edit, loose)
		var rev string
		var err error
		_, lerr := os.Lstat(wdir)
		direct := r.Intn(3) == 0 && k > 0 && lerr == nil
		done := make(chan bool)
		go func() {
			defer close(done)
			if direct {
				rev, err = watch.HeadRev(wdir)
			} else {
				rev, err = watch.PullOrClone(wdir, "file://"+src)
			}
		}()
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			t.Violate("hang:"+edit, map[string]interface{}{"edits": hist, "tree": loose}, "history %d, after %q: the driver did not return within 30 s; tree %s", i, edit, clip(loose))
			return
		}
		t.Eval(1)
		data := map[string]interface{}{"edits": hist, "tree": loose}
		if err != nil || rev == "" {
			t.Violate("error:"+edit, data, "history %d, after %q: no revision: %v; tree %s", i, edit, err, clip(loose))
			return
		}
		t.Count("revisions", 1)
		if x := c22stamp(dir); x != stamp {
			t.Violate("modified", data, "history %d, after %q: the directory was modified: before\n%s\nafter\n%s", i, edit, stamp, x)
			return
		}
		if fi, err := os.Lstat(wdir); err != nil || fi.Mode()&os.ModeSymlink == 0 {
			t.Violate("not-a-link", data, "history %d: the working copy is not a link", i)
			return
		}
		for _, s := range states {
			if s.strict != strict && s.rev == rev {
				t.Violate("missed:"+edit, data, "history %d: after %q the revision %s is that of an earlier, different tree: %s, then %s", i, edit, rev, clip(s.strict), clip(strict))
				return
			}
			if s.loose == loose && s.rev != rev {
				t.Violate("spurious:"+edit, data, "history %d: after %q the tree is the same as before, but the revision went from %s to %s; tree %s", i, edit, s.rev, rev, clip(loose))
				return
			}
			t.Count("pairs_compared", 1)
		}
		if n := len(states); n > 0 {
			t.Distinct(edit, states[n-1].rev != rev, i%3)
			if states[n-1].rev != rev {
				t.Count("changes", 1)
			} else {
				t.Count("unchanged", 1)
			}
		}
		states = append(states, state{edit, strict, loose, rev})
		sr, err := still.PullOrClone(sdir, "file://"+src)
		if err != nil || sr == "" || (stillRev != "" && sr != stillRev) {
			t.Violate("still", data, "history %d, after %q: without watch-changes the revision is %q, %v; it was %q", i, edit, sr, err, stillRev)
			return
		}
		stillRev = sr
	}
	if i < 3 {
		t.Sample(map[string]interface{}{"edits": hist, "revisions": len(states)})
	}
}

// c22reference is what a search for everything must report for the directory.
func c22reference(dir string) Tree {
	tr := Tree{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			tr[rel] = string(b)
		}
		return nil
	})
	return tr
}

func c22server(t *T, i int) {
	r := t.Rng("server", i)
	par := t.Dir("local")
	defer os.RemoveAll(par)
	dir := filepath.Join(par, "dir")
	os.MkdirAll(dir, 0755)
	src := dir
	if i%2 == 1 {
		src = filepath.Join(par, "ln")
		os.Symlink(dir, src)
	}
	os.WriteFile(filepath.Join(dir, "a"), []byte("first\nx\n"), 0644)
	db := filepath.Join(par, "db")
	os.MkdirAll(db, 0755)
	mk := func(watch bool) *config.Repo {
		b, _ := json.Marshal(M{"watch-changes": watch})
		m := config.SecretMessage(b)
		u := "file://" + src
		if !watch {
			u = "file://" + src + "/." // another url, so another index
		}
		return &config.Repo{Url: u, Vcs: "local", VcsConfigMessage: &m, MsBetweenPolls: 3, EnablePollUpdates: boolp(true), EnablePushUpdates: boolp(true), UrlPattern: &config.UrlPattern{}}
	}
	repos := map[string]*config.Repo{"w": mk(true), "s": mk(false)}
	start := func() *Lab {
		lab, err := newLab(t, db, 2, repos)
		if err != nil || len(lab.Errs) > 0 {
			t.Violate("server-start", nil, "server %d: startup failed: %v %v", i, err, lab)
			return nil
		}
		return lab
	}
	lab := start()
	if lab == nil {
		return
	}
	first := c22reference(dir)
	answer := func(repo string, tr Tree) string {
		res, err := lab.Searchers[repo].Search("", &index.SearchOptions{})
		if err != nil {
			return err.Error()
		}
		want := map[string]map[int]string{}
		for n, c := range tr {
			for k, l := range splitLines(c) {
				if want[n] == nil {
					want[n] = map[int]string{}
				}
				want[n][k+1] = l
			}
		}
		return diffSearch(res, want)
	}
	refs := func(url string) (out []string) {
		for _, d := range idxDirs(db) {
			if ref, err := index.Read(filepath.Join(db, d)); err == nil && ref.Url == url {
				out = append(out, d)
			}
		}
		return
	}
	drv, err := vcs.New("local", []byte(`{"watch-changes": true}`))
	if err != nil {
		t.Violate("new", nil, "%v", err)
		return
	}
	var hist []string
	for k := 0; k < t.N(14, 30) && !t.Stop(); k++ {
		// settled: the index is that of the present revision
		settle := time.Now().Add(20 * time.Second)
		for {
			rev, err := drv.HeadRev(dir)
			ok := false
			for _, d := range refs(repos["w"].Url) {
				if ref, e := index.Read(filepath.Join(db, d)); e == nil && err == nil && ref.Rev == rev && len(refs(repos["w"].Url)) == 1 {
					ok = true
				}
			}
			if ok {
				break
			}
			if time.Now().After(settle) {
				t.Violate("server-behind", map[string]interface{}{"edits": hist}, "server %d: 20 s after the last edit the index is not that of revision %s (%v)", i, rev, err)
				return
			}
			time.Sleep(2 * time.Millisecond)
		}
		before, _ := c22state(dir)
		idx := refs(repos["w"].Url)
		edit := ""
		if k%2 == 0 {
			edit = c22edit(r, dir, true)
			// An edit that passes through another state and ends in the same one
			// (a link replaced by an equal one) may leave an index of the state
			// between under way while the one on disk is already that of the
			// present revision: a revision never seen before tells when it is done.
			if now, _ := c22state(dir); now == before {
				tmp := filepath.Join(par, "edit-tmp")
				os.WriteFile(tmp, []byte(fmt.Sprintf("edit %d\n", k)), 0644)
				os.Rename(tmp, filepath.Join(dir, "edits"))
			}
		} else { // an edit that changes nothing
			for {
				b0, l0 := c22state(dir)
				edit = c22edit(r, dir, false)
				b1, l1 := c22state(dir)
				if b0 == b1 && l0 == l1 {
					break
				}
				idx = nil
				before = ""
			}
		}
		hist = append(hist, edit)
		t.Current("C22 server %d edit %d %s", i, k, edit)
		after, _ := c22state(dir)
		data := map[string]interface{}{"edits": hist, "tree": after}
		if r.Intn(4) == 0 {
			if !lab.Close() {
				t.Violate("server-stop", data, "server %d did not stop", i)
				return
			}
			if lab = start(); lab == nil {
				return
			}
			hist = append(hist, "restart")
		}
		tr := c22reference(dir)
		for n, c := range tr { // not text: excluded
			if !utf8.ValidString(c) {
				delete(tr, n)
			}
		}
		end := time.Now().Add(20 * time.Second)
		msg := ""
		for time.Now().Before(end) {
			if msg = answer("w", tr); msg == "" {
				break
			}
			time.Sleep(2 * time.Millisecond)
		}
		t.Eval(1)
		if msg != "" {
			t.Violate("server-stale:"+edit, data, "server %d: 20 s after %q the answer still differs from the tree: %s", i, edit, msg)
			return
		}
		t.Count("server_edits", 1)
		t.Distinct("server", i, edit, before == after)
		if before == after && len(idx) > 0 && edit != "link" && edit != "file-to-link" && edit != "fifo" {
			// several polls later the index is still the same
			time.Sleep(25 * time.Millisecond)
			if now := refs(repos["w"].Url); strings.Join(now, " ") != strings.Join(idx, " ") {
				t.Violate("server-spurious:"+edit, data, "server %d: after %q, which changes nothing, the index went from %v to %v", i, edit, idx, now)
				return
			}
			t.Count("kept_indexes", 1)
		}
		if msg := answer("s", first); msg != "" {
			t.Violate("server-still", data, "server %d: without watch-changes the answer changed after %q: %s", i, edit, msg)
			return
		}
	}
	lab.Close()
}
