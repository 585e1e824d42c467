package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

func init() {
	register(&Check{ID: "C29", Fn: c29, Bins: []string{"houndd"},
		Rule:   "the real server started on generated mixes of good repositories (git, local, stand-in hg) and repositories failing in one of the enumerated ways, at any concurrency limit: listing, page, searches of each, update requests and log judged; then causes are removed or others introduced and the server restarted on the same data directory; non-trivial = distinct (kinds of failure, number of good ones, limit, restart)",
		Assume: []string{"a failed repository counts as reported if a log line other than the one that announces its start contains its name or URL"},
	})
}

// c29repo is a configured repository that can be broken and repaired.
type c29repo struct {
	name  string
	tree  Tree // what it serves when it works
	conf  M    // configuration when it works
	bad   func() M
	heal  func()
	kind  string
	push  func() // commits a new revision (updates tree)
	isBad bool
	// a repository that has been served once may start again from what is there
	served bool
}

var c29kinds = []string{"url", "vcs", "vcsconf", "missing", "empty", "unreadable", "hgfail", "nobinary", "file", "danglinglink", "emptyurl", "deep-unreadable", "scheme", "objects", "conftype"}

func c29tree(r *rand.Rand, name string) Tree {
	tr := Tree{"token.txt": "common line of " + name + "\n"}
	for k := r.Intn(6); k > 0; k-- {
		tr[fmt.Sprintf("d%d/f%d.txt", r.Intn(2), k)] = genText(r, Style{}, 20) + "common here\n"
	}
	return tr
}

func c29make(t *T, r *rand.Rand, top, name, kind string, path []string) (*c29repo, []func()) {
	x := &c29repo{name: name, kind: kind, tree: c29tree(r, name)}
	var clean []func()
	local := func() string {
		d := filepath.Join(top, "src-"+name)
		writeTree(d, x.tree)
		x.conf = M{"url": "file://" + d, "vcs": "local"}
		return d
	}
	git := func() *GitRemote {
		g := newGitRemote(t, "master")
		g.Commit(x.tree)
		x.conf = M{"url": g.URL(), "enable-push-updates": true, "enable-poll-updates": false}
		clean = append(clean, func() { os.RemoveAll(g.Dir) })
		x.push = func() { x.tree = c29tree(r, name+" anew"); g.Commit(x.tree) }
		return g
	}
	with := func(k string, v interface{}) M {
		m := M{}
		for a, b := range x.conf {
			m[a] = b
		}
		m[k] = v
		return m
	}
	x.heal = func() {}
	switch kind {
	case "good":
		switch r.Intn(3) {
		case 0:
			local()
		case 1:
			git()
		default:
			h := newHgCtl(t)
			h.Commit("r0", x.tree)
			clean = append(clean, func() { os.RemoveAll(h.Dir) })
			x.conf = M{"url": h.Dir, "vcs": "hg", "enable-push-updates": true, "enable-poll-updates": false}
			n := 0
			x.push = func() { n++; x.tree = c29tree(r, name+" anew"); h.Commit(fmt.Sprintf("r%d", n), x.tree) }
		}
	case "url":
		g := git()
		moved := g.Dir + ".away"
		x.bad = func() M { os.Rename(g.Dir, moved); return x.conf }
		x.heal = func() { os.Rename(moved, g.Dir) }
		clean = append(clean, func() { os.RemoveAll(moved) })
	case "vcs":
		git()
		x.bad = func() M { return with("vcs", "cvs") }
	case "vcsconf":
		git()
		x.bad = func() M {
			return with("vcs-config", []interface{}{M{"ref": 5}, M{"detect-ref": "maybe"}, "main", []int{1}}[r.Intn(4)])
		}
	case "conftype":
		local()
		x.bad = func() M { return with("vcs-config", M{"watch-changes": "always"}) }
	case "missing":
		d := local()
		moved := d + ".away"
		x.bad = func() M { os.Rename(d, moved); return x.conf }
		x.heal = func() { os.Rename(moved, d) }
	case "danglinglink":
		d := local()
		lnk := filepath.Join(top, "lnk-"+name)
		x.conf = M{"url": "file://" + lnk, "vcs": "local"}
		x.bad = func() M { os.Remove(lnk); os.Symlink(d+".nowhere", lnk); return x.conf }
		x.heal = func() { os.Remove(lnk); os.Symlink(d, lnk) }
		x.heal()
	case "file":
		d := local()
		moved := d + ".away"
		x.bad = func() M { os.Rename(d, moved); os.WriteFile(d, []byte("a file\n"), 0644); return x.conf }
		x.heal = func() {
			if _, err := os.Stat(moved); err == nil {
				os.Remove(d)
				os.Rename(moved, d)
			}
		}
	case "empty":
		g := newGitRemote(t, "master")
		clean = append(clean, func() { os.RemoveAll(g.Dir) })
		x.conf = M{"url": g.URL(), "enable-push-updates": true, "enable-poll-updates": false}
		done := false
		x.bad = func() M {
			if done {
				return with("vcs", "cvs")
			}
			return x.conf
		}
		x.heal = func() {
			if !done {
				g.Commit(x.tree)
				done = true
			}
		}
		x.push = func() { x.tree = c29tree(r, name+" anew"); g.Commit(x.tree) }
	case "unreadable", "deep-unreadable":
		d := local()
		p := filepath.Join(d, "token.txt")
		if kind == "deep-unreadable" {
			p = filepath.Join(d, "sub")
			os.MkdirAll(filepath.Join(p, "sub"), 0755)
			x.tree["sub/sub/x.txt"] = "common deep\n"
			writeTree(d, x.tree)
		}
		x.bad = func() M {
			os.Chmod(p, 0)
			// another content, lest an existing index be used
			x.tree["more.txt"] = fmt.Sprintf("common %d\n", r.Int())
			os.WriteFile(filepath.Join(d, "more.txt"), []byte(x.tree["more.txt"]), 0644)
			return x.conf
		}
		x.heal = func() { os.Chmod(p, 0755) }
		clean = append(clean, x.heal)
	case "hgfail":
		h := newHgCtl(t)
		h.Commit("r0", x.tree)
		clean = append(clean, func() { os.RemoveAll(h.Dir) })
		x.conf = M{"url": h.Dir, "vcs": "hg", "enable-push-updates": true, "enable-poll-updates": false}
		x.bad = func() M { h.set("fail", true); return x.conf }
		x.heal = func() { h.set("fail", false) }
	case "nobinary":
		git()
		x.bad = func() M { return with("vcs", []string{"svn", "bzr"}[r.Intn(2)]) }
	case "emptyurl":
		git()
		x.bad = func() M { return with("url", "") }
	case "scheme":
		git()
		x.bad = func() M { return with("url", "nosuch://"+name+"/x") }
	case "objects":
		g := git()
		var lost []string
		x.bad = func() M {
			filepath.Walk(filepath.Join(g.Dir, ".git/objects"), func(p string, fi os.FileInfo, err error) error {
				if err == nil && fi.Mode().IsRegular() && !strings.HasSuffix(p, ".away") {
					os.Rename(p, p+".away")
					lost = append(lost, p)
				}
				return nil
			})
			return x.conf
		}
		x.heal = func() {
			for _, p := range lost {
				os.Rename(p+".away", p)
			}
			lost = nil
		}
	}
	return x, clean
}

func c29(t *T) {
	t.Par(t.N(48, 600), 6, func(i int) { c29mix(t, i) })
	for _, k := range c29kinds {
		if t.Counter("failed_"+k) == 0 && !t.Stop() {
			t.Inconclusive("no repository failed by %s", k)
		}
	}
}

func c29mix(t *T, i int) {
	r := t.Rng("mix", i)
	top := t.Dir("partial")
	defer os.RemoveAll(top)
	var xs []*c29repo
	var bads []string
	for k := 0; k < 1+r.Intn(3); k++ {
		bads = append(bads, c29kinds[(i*2+k*7+r.Intn(2)*(i/8))%len(c29kinds)])
	}
	goods := r.Intn(4)
	for k := 0; k < goods+len(bads); k++ {
		kind := "good"
		if k < len(bads) {
			kind = bads[k]
		}
		x, clean := c29make(t, r, top, fmt.Sprintf("%s-%d", []string{"repo", "Re po", "x<y>"}[k%3], k), kind, nil)
		for _, f := range clean {
			defer f()
		}
		xs = append(xs, x)
	}
	hist := ""
	for step := 0; step < t.N(3, 5) && !t.Stop(); step++ {
		repos := M{}
		var good, failing []*c29repo
		desc := ""
		for _, x := range xs {
			x.heal()
			// a repository that has already been served may go on from its old
			// working copy or index; only the kinds that cannot are broken again
			again := !x.served || x.kind == "vcs" || x.kind == "vcsconf" || x.kind == "conftype" || x.kind == "nobinary" || x.kind == "scheme" || x.kind == "emptyurl"
			x.isBad = x.kind != "good" && again && (step == 0 || r.Intn(2) == 0)
			conf := x.conf
			if x.isBad {
				conf = x.bad()
				failing = append(failing, x)
			} else {
				good = append(good, x)
				x.served = true
			}
			repos[x.name] = conf
			desc += fmt.Sprintf(" %s(%s,%v)", x.name, x.kind, !x.isBad)
		}
		lim := 1 + r.Intn(4)
		conf := writeConfig(top, M{"dbpath": "db", "repos": repos, "max-concurrent-indexers": lim})
		hist += fmt.Sprintf("[%s]", desc)
		ctx := fmt.Sprintf("mix %d, start %d, limit %d:%s", i, step, lim, desc)
		t.Current("%s", ctx)
		h := startHoundd(t, conf, []string{"PATH=" + hgDir(t) + ":" + os.Getenv("PATH"), "GIT_TERMINAL_PROMPT=0"})
		ok := c29judge(t, r, h, ctx, hist, good, failing)
		if !h.exited() {
			if ok2, msg := h.Term(30 * time.Second); ok && !ok2 {
				t.Violate("stop", h.Log(), "%s: after SIGTERM: %s", ctx, msg)
			}
		}
		h.Kill()
		if !ok {
			return
		}
		var ks []string
		for _, x := range failing {
			ks = append(ks, x.kind)
			t.Count("failed_"+x.kind, 1)
		}
		if len(failing) < len(bads) {
			t.Count("repaired", len(bads)-len(failing))
		}
		t.Count("starts", 1)
		t.Distinct(strings.Join(ks, ","), len(good), lim, step)
		t.Eval(1)
	}
	if i < 3 {
		t.Sample(hist)
	}
}

var modelData = regexp.MustCompile(`var ModelData = ("(?:[^"\\]|\\.)*");`)

func c29judge(t *T, r *rand.Rand, h *Houndd, ctx, hist string, good, failing []*c29repo) bool {
	if !h.waitReady(60 * time.Second) {
		t.Violate("start", h.Log(), "%s: the server does not serve (exited: %v %v): %s", ctx, h.exited(), h.Err, tail([]byte(h.Log()), 1500))
		return false
	}
	var want []string
	for _, x := range good {
		want = append(want, x.name)
	}
	sort.Strings(want)
	// listing and page
	code, body, err := getBody(h.client, h.Base+"/api/v1/repos")
	var m map[string]interface{}
	if err != nil || code != 200 || json.Unmarshal(body, &m) != nil || strings.Join(keysOf(m), ",") != strings.Join(want, ",") {
		t.Violate("listing", h.Log(), "%s: listed: %d %s, want %v", ctx, code, head(body, 3000), want)
		return false
	}
	_, page, _ := getBody(h.client, h.Base+"/")
	var inPage string
	pm := M{}
	if g := modelData.FindSubmatch(page); g == nil || json.Unmarshal(g[1], &inPage) != nil || json.Unmarshal([]byte(inPage), &pm) != nil || strings.Join(keysOf(pm), ",") != strings.Join(want, ",") {
		t.Violate("page", nil, "%s: the page lists %s, want %v", ctx, head([]byte(inPage), 300), want)
		return false
	}
	search := func(when string) bool {
		a, err := h.Search("*", ".*", nil)
		if err != nil || a.Error != "" || strings.Join(keysOfAnswers(a), ",") != strings.Join(want, ",") {
			t.Violate("search-all", h.Log(), "%s, %s: search of all: %v %+v, want %v", ctx, when, err, a, want)
			return false
		}
		for _, x := range good {
			one, err := h.Search(x.name, ".*", nil)
			if err != nil || one.Error != "" || len(one.Results) != 1 || one.Results[x.name] == nil {
				t.Violate("search-one", h.Log(), "%s, %s: search of %s: %v %+v", ctx, when, x.name, err, one)
				return false
			}
			for _, ra := range []*repoAnswer{a.Results[x.name], one.Results[x.name]} {
				if d := linesDiff(ra, x.tree); d != "" {
					t.Violate("content", h.Log(), "%s, %s: answers of %s: %s", ctx, when, x.name, d)
					return false
				}
			}
			t.Count("good_compared", 1)
		}
		for _, x := range failing {
			one, err := h.Search(x.name, ".*", nil)
			if err != nil || len(one.Results) != 0 {
				t.Violate("search-failed", h.Log(), "%s, %s: search of %s, which did not start: %v %+v", ctx, when, x.name, err, one)
				return false
			}
		}
		return true
	}
	if !search("first") {
		return false
	}
	// log
	log := h.Log()
	for _, x := range failing {
		found := false
		for _, l := range strings.Split(log, "\n") {
			if strings.Contains(l, "Searcher started for") {
				continue
			}
			u, _ := x.conf["url"].(string)
			if strings.Contains(l, x.name) || u != "" && strings.Contains(l, u) {
				found = true
			}
		}
		if !found {
			t.Violate("log", log, "%s: the log does not tell that %s (%s) has failed: %s", ctx, x.name, x.kind, tail([]byte(log), 1200))
			return false
		}
	}
	if len(failing) == 0 && strings.Contains(log, "failed to index") {
		t.Violate("log-all", log, "%s: every repository started, but the log says otherwise: %s", ctx, tail([]byte(log), 800))
		return false
	}
	// the others go on being updated
	var pushed []*c29repo
	for _, x := range good {
		if x.push != nil && r.Intn(2) == 0 {
			x.push()
			if code, err := h.Push(x.name); err != nil || code != 200 {
				t.Violate("push", h.Log(), "%s: update request for %s: %d %v", ctx, x.name, code, err)
				return false
			}
			pushed = append(pushed, x)
		}
	}
	for _, x := range failing {
		if code, err := h.Push(x.name); err != nil || code == 200 {
			t.Violate("push-failed", h.Log(), "%s: update request for %s, which did not start: %d %v", ctx, x.name, code, err)
			return false
		}
	}
	end := time.Now().Add(15 * time.Second)
	for _, x := range pushed {
		for {
			a, err := h.Search(x.name, ".*", nil)
			if err == nil && a.Results[x.name] != nil && linesDiff(a.Results[x.name], x.tree) == "" {
				t.Count("updated", 1)
				break
			}
			if time.Now().After(end) {
				t.Violate("update", h.Log(), "%s: the update of %s is not served", ctx, x.name)
				return false
			}
			time.Sleep(3 * time.Millisecond)
		}
	}
	return len(pushed) == 0 || search("after updates")
}

// linesDiff compares an answer to a query that every line matches with a tree.
func linesDiff(a *repoAnswer, tr Tree) string {
	got := answerOf(a)
	for k := range got {
		got[k].ctx = ""
	}
	return flatDiff(got, treeLines(tr))
}
