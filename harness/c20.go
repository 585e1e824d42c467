package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/hound-search/hound/vcs"
)

func init() {
	register(&Check{ID: "C20", Fn: c20,
		Rule:   "remote histories written with git fast-import (commits that add, change, delete, rename files, change modes, turn files into directories and links; forced and non-fast-forward updates, resets to older commits, branches and tags created, moved and deleted, the default branch changed, the remote's HEAD detached or unborn), followed by the git driver under every ref setting (none, branch, nested branch, light and annotated tag, detect-ref), cloned at different moments, with local disturbances (tracked files edited, deleted, chmodded, replaced by directories or links, staged changes, local commits, detached head, untracked files in the way) and with commits racing the pull; after every operation the returned revision, git's own HEAD and the whole working tree are compared with the remote's tip; non-trivial = distinct (setting, remote operation, disturbance) after which a pull succeeded",
		Assume: []string{"the installed git 2.43 writes and serves the remote; trees of the commits are known from the generator"},
	})
}

func c20(t *T) {
	t.Par(t.N(88, 3000), 0, func(i int) { c20history(t, i) })
	if t.Counter("pulls_checked") == 0 {
		t.Inconclusive("no pull was checked")
	}
}

type c20remote struct {
	b        *BareRepo
	r        *rand.Rand
	mu       sync.Mutex
	heads    map[string]string   // branch -> commit
	tags     map[string]string   // tag -> commit
	log      map[string][]string // branch -> all commits
	deflt    string
	detached string // the commit HEAD is at if there is no default branch
	hist     []string
}

func (m *c20remote) note(f string, a ...interface{}) { m.hist = append(m.hist, fmt.Sprintf(f, a...)) }

func (m *c20remote) setHead(br, sha string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if sha == "" {
		delete(m.heads, br)
	} else {
		m.heads[br] = sha
		m.log[br] = append(m.log[br], sha)
	}
}

func (m *c20remote) branches() []string {
	m.mu.Lock()
	defer m.mu.Unlock()
	return sortedKeys(m.heads)
}

func (m *c20remote) head(br string) string {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.heads[br]
}

func (m *c20remote) commit(br string) {
	cur := m.head(br)
	base := GTree{}
	if cur != "" {
		base, _ = m.b.Tree(cur)
	}
	m.setHead(br, m.b.Commit(br, cur, mutateTree(m.r, base)))
}

// step performs one operation on the remote and names it.
func (m *c20remote) step(names []string) string {
	r := m.r
	br := names[r.Intn(len(names))]
	cur := m.head(br)
	switch k := r.Intn(12); {
	case k <= 4 || cur == "":
		m.commit(br)
		m.note("commit on %s", br)
		return "commit"
	case k == 5: // unrelated history
		old, _ := m.b.Tree(cur)
		m.setHead(br, m.b.Commit(br, "", mutateTree(r, old)))
		m.note("forced new root on %s", br)
		return "new-root"
	case k == 6: // back to an older commit
		m.mu.Lock()
		sha := m.log[br][r.Intn(len(m.log[br]))]
		m.mu.Unlock()
		mustGit(m.b.Dir, "update-ref", "refs/heads/"+br, sha)
		m.setHead(br, sha)
		m.note("%s reset to %s", br, sha[:7])
		return "rewind"
	case k == 7: // sibling: drop the tip and commit something else
		m.mu.Lock()
		sha := m.log[br][r.Intn(len(m.log[br]))]
		m.mu.Unlock()
		old, _ := m.b.Tree(sha)
		m.setHead(br, m.b.Commit(br, sha, mutateTree(r, old)))
		m.note("forced sibling on %s", br)
		return "sibling"
	case k == 8:
		if len(m.branches()) > 1 && br != m.deflt {
			mustGit(m.b.Dir, "update-ref", "-d", "refs/heads/"+br)
			m.setHead(br, "")
			m.note("%s deleted", br)
			return "delete"
		}
		m.commit(br)
		m.note("commit on %s", br)
		return "commit"
	case k == 9 && r.Intn(3) == 0: // no default branch: HEAD names no branch, or one that is not there
		m.deflt, m.detached = "", ""
		if r.Intn(2) == 0 {
			mustGit(m.b.Dir, "symbolic-ref", "HEAD", "refs/heads/not/yet")
			m.note("HEAD is unborn")
			return "unborn"
		}
		old, _ := m.b.Tree(cur)
		sha := m.b.Commit("side", cur, mutateTree(r, old))
		mustGit(m.b.Dir, "update-ref", "--no-deref", "HEAD", sha)
		mustGit(m.b.Dir, "update-ref", "-d", "refs/heads/side")
		m.detached = sha
		m.note("HEAD is detached")
		return "detached"
	case k == 9:
		mustGit(m.b.Dir, "symbolic-ref", "HEAD", "refs/heads/"+br)
		m.deflt = br
		m.note("default branch is %s", br)
		return "default"
	case k == 10:
		tag := []string{"v1", "rel/2", "origin/master", "origin/dev"}[r.Intn(4)]
		if r.Intn(2) == 0 {
			mustGit(m.b.Dir, "tag", "-f", tag, cur)
		} else {
			mustGit(m.b.Dir, "tag", "-f", "-a", "-m", "x", tag, cur)
		}
		m.mu.Lock()
		m.tags[tag] = cur
		m.mu.Unlock()
		m.note("tag %s at %s", tag, cur[:7])
		return "tag"
	default: // a commit that changes nothing
		old, _ := m.b.Tree(cur)
		m.setHead(br, m.b.Commit(br, cur, old))
		m.note("empty commit on %s", br)
		return "empty"
	}
}

// disturb changes the working copy locally; it returns untracked names it made.
func c20disturb(r *rand.Rand, wd string, tr GTree, extra map[string]bool) string {
	var tracked []string
	for _, n := range tr.names() {
		if _, err := os.Lstat(filepath.Join(wd, n)); err == nil {
			tracked = append(tracked, n)
		}
	}
	pick := func() string {
		if len(tracked) == 0 {
			return ""
		}
		return tracked[r.Intn(len(tracked))]
	}
	n := pick()
	p := filepath.Join(wd, n)
	k := r.Intn(12)
	if n == "" {
		k = 9
	}
	switch k {
	case 0:
		os.Remove(p)
		os.WriteFile(p, []byte("changed locally\n"), 0644)
		return "edit"
	case 1: // same size, same times
		if fi, err := os.Lstat(p); err == nil && fi.Mode().IsRegular() && fi.Size() > 0 {
			b := []byte(strings.Repeat("z", int(fi.Size())))
			os.WriteFile(p, b, 0644)
			os.Chtimes(p, fi.ModTime(), fi.ModTime())
		}
		return "edit-same-size"
	case 2:
		os.Remove(p)
		return "delete"
	case 3:
		if fi, err := os.Lstat(p); err == nil && fi.Mode().IsRegular() {
			os.Chmod(p, fi.Mode().Perm()^0111)
		}
		return "chmod"
	case 4:
		os.Remove(p)
		os.MkdirAll(filepath.Join(p, "sub"), 0755)
		return "file-to-empty-dirs"
	case 5:
		os.Remove(p)
		os.Symlink("/nonexistent", p)
		return "file-to-link"
	case 6:
		os.Remove(p)
		os.WriteFile(p, []byte("staged\n"), 0644)
		gitCmd(wd, "add", "-f", "--", n)
		return "stage"
	case 7:
		gitCmd(wd, "rm", "-q", "-f", "--cached", "--", n)
		extra[n] = true // an untracked file now
		return "unstage"
	case 8:
		os.Remove(p)
		os.WriteFile(p, []byte("committed locally\n"), 0644)
		gitCmd(wd, "add", "-A", "-f")
		gitCmd(wd, "commit", "-q", "-m", "local")
		return "local-commit"
	case 9:
		q := fmt.Sprintf("untracked-%d", r.Intn(100))
		os.WriteFile(filepath.Join(wd, q), []byte("untracked\n"), 0644)
		extra[q] = true
		return "untracked"
	case 10: // in the way of files that may come
		q := gitNames[r.Intn(len(gitNames))]
		if _, err := os.Lstat(filepath.Join(wd, q)); err == nil {
			return "none"
		}
		if err := os.MkdirAll(filepath.Join(wd, filepath.Dir(q)), 0755); err != nil {
			return "none"
		}
		if os.WriteFile(filepath.Join(wd, q), []byte("in the way\n"), 0644) == nil {
			extra[q] = true
		}
		return "in-the-way"
	default:
		gitCmd(wd, "checkout", "-q", "--detach")
		return "detach"
	}
}

func c20history(t *T, i int) {
	r := t.Rng("history", i)
	names := []string{"master", "main", "rél.2+x@y", "dev", "feature/x"}
	deflt := names[r.Intn(3)]
	m := &c20remote{b: newBare(t, deflt), r: t.Rng("remote", i), heads: map[string]string{}, tags: map[string]string{}, log: map[string][]string{}, deflt: deflt}
	defer os.RemoveAll(m.b.Dir)
	m.commit(deflt)
	for k := r.Intn(4); k > 0; k-- {
		m.step(names)
	}
	type setting struct {
		cfg  map[string]interface{}
		name string
	}
	st := []setting{{nil, "none"}, {M{"detect-ref": true}, "detect"}, {M{"detect-ref": true}, "detect"}, {M{"ref": "main"}, "ref"}, {M{"ref": "dev", "detect-ref": true}, "ref+detect"},
		{M{"ref": "feature/x"}, "nested"}, {M{"ref": "v1"}, "tag"}, {M{"ref": "rel/2"}, "tag"}, {M{"ref": "master", "detect-ref": false}, "ref"}, {M{"detect-ref": false}, "none"}}[i%10]
	if st.name == "tag" {
		for k := 0; k < 60 && (m.tags["v1"] == "" || m.tags["rel/2"] == ""); k++ {
			m.step(names)
		}
	}
	var raw []byte
	if st.cfg != nil {
		raw, _ = json.Marshal(st.cfg)
	}
	wdv, err := vcs.New("git", raw)
	if err != nil {
		t.Violate("new", nil, "vcs.New(git, %s): %v", raw, err)
		return
	}
	url := "file://" + m.b.Dir
	if r.Intn(4) == 0 {
		url = m.b.Dir
	}
	par := t.Dir("db")
	defer os.RemoveAll(par)
	wd := filepath.Join(par, "vcs-x")
	// the ref that is to be followed now
	target := func() (string, string) {
		m.mu.Lock()
		defer m.mu.Unlock()
		ref, _ := st.cfg["ref"].(string)
		if ref == "" {
			if b, _ := st.cfg["detect-ref"].(bool); b {
				ref = m.deflt
			}
			if ref == "" {
				ref = "master"
			}
		}
		if s := m.tags[ref]; s != "" {
			return ref, s
		}
		return ref, m.heads[ref]
	}
	defaultTip := func() string {
		m.mu.Lock()
		defer m.mu.Unlock()
		if m.deflt == "" {
			return m.detached
		}
		return m.heads[m.deflt]
	}

	extra := map[string]bool{}
	var cur string // revision of the working copy
	op := "start"
	for k := 0; k < 12 && !t.Stop(); k++ {
		dist := ""
		if k > 0 {
			op = ""
			for j := r.Intn(3); j >= 0; j-- {
				op = m.step(names)
			}
			if r.Intn(2) == 0 && cur != "" {
				tr, _ := m.b.Tree(cur)
				for j := r.Intn(3); j >= 0; j-- {
					dist = c20disturb(r, wd, tr, extra)
					m.note("local: %s", dist)
				}
			}
			if r.Intn(10) == 0 { // cloned anew
				os.RemoveAll(wd)
				extra, cur, dist = map[string]bool{}, "", ""
				m.note("working copy removed")
			}
		}
		ref, tip := target()
		fresh := cur == ""
		dtip := defaultTip()
		// commits that race the operation
		tips := map[string]bool{tip: true}
		racing := r.Intn(4) == 0 && tip != "" && (st.name == "ref" || st.name == "nested" || st.name == "none") && m.head(ref) != ""
		var wg sync.WaitGroup
		if racing {
			n := 1 + r.Intn(3)
			wg.Add(1)
			pause := time.Duration(r.Intn(20)) * time.Millisecond
			go func() {
				defer wg.Done()
				for j := 0; j < n; j++ {
					time.Sleep(pause)
					m.commit(ref)
				}
			}()
		}
		t.Current("C20 history %d op %d: %s", i, k, strings.Join(m.hist, "; "))
		var rev string
		var err error
		again := r.Intn(3) == 0 && !fresh
		if again {
			rev, err = wdv.Pull(wd)
		} else {
			rev, err = wdv.PullOrClone(wd, url)
		}
		wg.Wait()
		if racing {
			for _, s := range m.log[ref] {
				tips[s] = true // any of them was a tip; old ones are excluded below
			}
			for _, s := range m.log[ref] {
				if s == tip {
					break
				}
				if s != tip {
					delete(tips, s)
				}
			}
			t.Count("racing_commits", 1)
		}
		t.Eval(1)
		data := map[string]interface{}{"setting": string(raw), "history": m.hist, "operation": k}
		desc := fmt.Sprintf("history %d (%s %s), step %d after %q, disturbed by %q", i, st.name, raw, k, op, dist)
		want := tip
		if fresh && tip == "" {
			// nothing to follow yet: a first clone stays with the default branch
			want = dtip
			tips = map[string]bool{dtip: true}
		}
		if err != nil {
			t.Count("operations_failed", 1)
			if want != "" {
				t.Violate("fails:"+op+":"+dist, data, "%s: %s exists at %s, but the operation fails: %v", desc, ref, want, err)
				return
			}
			if fresh {
				cur = ""
			}
			continue
		}
		if want == "" {
			t.Violate("no-ref", data, "%s: the remote has no %s, yet the pull succeeds with %s", desc, ref, rev)
			return
		}
		if !tips[rev] {
			t.Violate("rev:"+st.name+":"+op, data, "%s: revision %s, but %s is at %s", desc, rev, ref, want)
			return
		}
		head, _ := gitCmd(wd, "rev-parse", "HEAD")
		if head != rev {
			t.Violate("head", data, "%s: reported revision %s, but the working copy is at %s", desc, rev, head)
			return
		}
		tr, _ := m.b.Tree(rev)
		if d := diffWork(wd, tr, extra); d != "" {
			t.Violate("tree:"+op+":"+dist, data, "%s: %s", desc, d)
			return
		}
		if hr, err := wdv.HeadRev(wd); err != nil || hr != rev {
			t.Violate("headrev", data, "%s: HeadRev is %q, %v, want %s", desc, hr, err, rev)
			return
		}
		t.Count("pulls_checked", 1)
		t.Count("files_compared", len(tr))
		if fresh {
			t.Count("clones", 1)
		}
		if rev != cur {
			t.Count("revision_changes", 1)
		}
		t.Distinct(st.name, op, dist, fresh, racing)
		cur = rev
		if k == 5 {
			t.Sample(map[string]interface{}{"setting": string(raw), "history": append([]string{}, m.hist...), "revision": rev, "files": len(tr)})
		}
	}
}
