package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/hound-search/hound/config"
)

func init() {
	register(&Check{ID: "C26", Fn: c26, Quick: 600,
		Rule:   "histories of servers with git repositories (written with git fast-import) and a watched local directory: commits that change files and attribute files (patterns, negations, nested files, macros, set, =true, =false, unset, unspecified), odd file names, option lists present, absent, changed with a restart, option lists on local repositories, same file names in all repositories; after startup, every update and every restart all files are searched for under several ranges, filters and limits, and searches that overlap the updates are judged as well; every mark is compared with the option list or with git check-attr for each file alone in a separate full checkout of the revision the answer names; non-trivial = distinct (source of marks, kind of change, marks before, marks after) with a mark to expect",
		Assume: []string{"git check-attr in a separate clean checkout of the revision is the reading of the attribute; set and =true count as set, other values than true, false are not generated"},
	})
}

func c26(t *T) {
	n := t.N(40, 1200)
	t.ParDelayed(n, 8, 200, func(i int) {
		if i%20 == 0 && i < n/2 {
			c26bulk(t, i)
		}
		c26history(t, i)
	})
	if t.Counter("marks_expected") == 0 || t.Counter("answers_during_updates") == 0 {
		t.Inconclusive("no file was expected to be marked, or no answer overlapped an update")
	}
}

var c26names = []string{"a", "b.txt", "gen.go", "dir/a", "dir/gen.go", "dir/sub/gen.go", "dir/sub/c.pb.go", "x.pb.go", "sp ace/x y.go",
	"é/ü.go", "-dash.go", "日本.go", "UP.GO", "nl\nname.go", "q\"uote.go", "x'y.go", "*glob.go", "[a].go", "b\\s.go", ":colon", "#hash.go", "!bang.go", "trail ", " lead.go", "vendor/v/one.go", "vendor/two.go", ".dot.go", "dir/.dot/x.go", "back\\slash", "true", "linguist-generated"}

// one attribute file
func c26attrs(r *rand.Rand, top bool) string {
	pats := []string{"*.go", "*.pb.go", "gen.go", "/gen.go", "vendor/**", "dir/*", "dir/**/gen.go", "**/a", "*", "a", "\"sp ace/*\"", "\"x y.go\"", "\"nl\\nname.go\"", "\"q\\\"uote.go\"", "-dash.go", "é/*", "\"\\303\\251/\\303\\274.go\"", "日本.go", "[ab]*", "\\[a].go", "\\#hash.go", "\\!bang.go", "trail*", "sub/", "sub/*", "c.pb.go", "vendor", "UP.*", "true", "linguist-generated", "b\\\\s.go", "back\\\\slash"}
	vals := []string{"linguist-generated", "linguist-generated=true", "linguist-generated=true", "-linguist-generated", "linguist-generated=false", "!linguist-generated", "text linguist-generated=true -diff", "gen", "-gen", "other", "linguist-generatedx=true", "linguist-vendored=true"}
	var b strings.Builder
	if top && r.Intn(3) > 0 {
		b.WriteString([]string{"[attr]gen linguist-generated=true -diff\n", "[attr]gen linguist-generated\n", "# comment\n"}[r.Intn(3)])
	}
	for k := r.Intn(5); k >= 0; k-- {
		if r.Intn(10) == 0 {
			b.WriteString("\n# linguist-generated=true\n")
		}
		b.WriteString(pats[r.Intn(len(pats))] + " " + vals[r.Intn(len(vals))])
		if k > 0 || r.Intn(4) > 0 {
			b.WriteString([]string{"\n", "\n", "\r\n"}[r.Intn(3)])
		}
	}
	return b.String()
}

func c26content(r *rand.Rand) string {
	return fmt.Sprintf("line %d\nmarkme %d\n", r.Intn(1000), r.Intn(1000))
}

func c26mutate(r *rand.Rand, tr GTree) (GTree, string) {
	o := tr.copy()
	clash := func(n string) bool {
		for k := range o {
			if strings.HasPrefix(k, n+"/") || strings.HasPrefix(n, k+"/") {
				return true
			}
		}
		return false
	}
	attrFiles := []string{".gitattributes", ".gitattributes", ".gitattributes", "dir/.gitattributes", "dir/sub/.gitattributes", "vendor/.gitattributes"}
	kind := ""
	for k := 1 + r.Intn(3); k > 0; k-- {
		ns := o.names()
		switch op := r.Intn(9); {
		case op <= 1:
			n := c26names[r.Intn(len(c26names))]
			if !clash(n) {
				o[n] = GEntry{"100644", c26content(r)}
				kind += "+file"
			}
		case op <= 4:
			n := attrFiles[r.Intn(len(attrFiles))]
			if !clash(n) {
				o[n] = GEntry{"100644", "# markme\n" + c26attrs(r, n == ".gitattributes")}
				kind += "+attr"
			}
		case op == 5:
			n := attrFiles[r.Intn(len(attrFiles))]
			if _, ok := o[n]; ok {
				delete(o, n)
				kind += "-attr"
			}
		case op == 6 && len(ns) > 6:
			n := ns[r.Intn(len(ns))]
			delete(o, n)
			kind += "-file"
		case op == 7 && len(ns) > 0: // rename
			n, m := ns[r.Intn(len(ns))], c26names[r.Intn(len(c26names))]
			if _, ok := o[m]; !ok && o[n].Mode == "100644" && !strings.Contains(n, ".gitattributes") {
				e := o[n]
				delete(o, n)
				if clash(m) {
					o[n] = e
				} else {
					o[m] = e
					kind += "ren"
				}
			}
		case op == 8 && len(ns) > 0:
			n := ns[r.Intn(len(ns))]
			if !strings.Contains(n, ".gitattributes") {
				o[n] = GEntry{[]string{"100644", "100755"}[r.Intn(2)], c26content(r)}
			}
		}
	}
	return o, kind
}

// c26ref reads the attribute of every file of a revision in a checkout of its
// own, asking for one file at a time.
func c26ref(t *T, b *BareRepo, sha string) map[string]bool {
	d := t.Dir("ref")
	defer os.RemoveAll(d)
	mustGit(d, "clone", "-q", "--no-checkout", b.Dir, "c")
	c := filepath.Join(d, "c")
	mustGit(c, "checkout", "-q", "--detach", sha)
	tr, _ := b.Tree(sha)
	out := map[string]bool{}
	for _, n := range tr.names() {
		cmd := exec.Command("git", "check-attr", "-z", "linguist-generated", "--", n)
		cmd.Dir = c
		o, err := cmd.Output()
		if err != nil {
			fatal("check-attr %q: %v", n, err)
		}
		f := bytes.Split(o, []byte{0})
		if len(f) < 3 || string(f[0]) != n {
			fatal("check-attr %q: %q", n, o)
		}
		v := string(f[2])
		out[n] = v == "set" || v == "true"
	}
	return out
}

type c26repo struct {
	name  string
	local bool
	dir   string // of a local one
	bare  *BareRepo
	opt   []string // option list, nil if absent
	mu    sync.Mutex
	refs  map[string]map[string]bool // revision -> expected marks
	tree  GTree
	head  string
	kind  string
}

// what an answer for the revision must say
func (p *c26repo) want(rev string) (map[string]bool, bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	m, ok := p.refs[rev]
	return m, ok
}

func c26history(t *T, i int) {
	r := t.Rng("hist", i)
	db := t.Dir("db")
	defer os.RemoveAll(db)
	var repos []*c26repo
	defer func() {
		for _, p := range repos {
			if p.bare != nil {
				os.RemoveAll(p.bare.Dir)
			}
			if p.dir != "" {
				os.RemoveAll(p.dir)
			}
		}
	}()
	pickOpt := func() []string {
		var o []string
		for k := 1 + r.Intn(4); k > 0; k-- {
			o = append(o, c26names[r.Intn(len(c26names))])
		}
		if r.Intn(3) == 0 {
			o = append(o, []string{"*.go", "dir", "dir/", "/a", "nowhere", "", "./a", "A"}[r.Intn(8)])
		}
		return o
	}
	base := GTree{}
	for _, n := range c26names {
		if r.Intn(3) > 0 {
			base[n] = GEntry{"100644", c26content(r)}
		}
	}
	addGit := func(name string, opt []string, ownTree bool) {
		p := &c26repo{name: name, bare: newBare(t, "master"), opt: opt, refs: map[string]map[string]bool{}}
		p.tree = base.copy()
		p.tree[".gitattributes"] = GEntry{"100644", "# markme\n" + c26attrs(r, true)}
		if ownTree {
			p.tree, _ = c26mutate(r, p.tree)
		}
		repos = append(repos, p)
	}
	addGit("plain", nil, false)
	if r.Intn(2) == 0 {
		addGit("opted", pickOpt(), true)
	}
	if r.Intn(2) == 0 {
		p := &c26repo{name: "local", local: true, dir: t.Dir("local"), refs: map[string]map[string]bool{}}
		if r.Intn(2) == 0 {
			p.opt = pickOpt()
		}
		p.tree = base.copy()
		p.tree[".gitattributes"] = GEntry{"100644", "# markme\n* linguist-generated=true\n"}
		repos = append(repos, p)
	}
	commit := func(p *c26repo) {
		if p.local {
			es, _ := os.ReadDir(p.dir)
			for _, e := range es {
				os.RemoveAll(filepath.Join(p.dir, e.Name()))
			}
			m := map[string]bool{}
			for _, n := range p.tree.names() {
				writeTree(p.dir, Tree{n: p.tree[n].Content})
				m[n] = false
			}
			p.mu.Lock()
			p.refs[""] = m
			p.mu.Unlock()
			return
		}
		sha := p.bare.Commit("master", p.head, p.tree)
		m := c26ref(t, p.bare, sha)
		p.mu.Lock()
		p.refs[sha], p.head = m, sha
		p.mu.Unlock()
	}
	for _, p := range repos {
		commit(p)
	}
	exclude := r.Intn(4) == 0
	var lab *Lab
	start := func() bool {
		rs := map[string]*config.Repo{}
		for _, p := range repos {
			vc := M{}
			u := ""
			rp := &config.Repo{MsBetweenPolls: 3600000, EnablePollUpdates: boolp(false), EnablePushUpdates: boolp(true), ExcludeDotFiles: exclude,
				UrlPattern: &config.UrlPattern{BaseUrl: "{url}", Anchor: ""}, AutoGeneratedFiles: p.opt}
			if p.local {
				rp.Vcs, u = "local", "file://"+p.dir
				vc["watch-changes"] = true
			} else {
				rp.Vcs, u = "git", "file://"+p.bare.Dir
			}
			b, _ := json.Marshal(vc)
			m := config.SecretMessage(b)
			rp.VcsConfigMessage, rp.Url = &m, u
			rs[p.name] = rp
		}
		var err error
		lab, err = newLab(t, db, 2, rs)
		if err != nil || len(lab.Errs) > 0 {
			t.Violate("start", nil, "history %d: start fails: %v %v", i, err, lab)
			return false
		}
		return true
	}
	desc := fmt.Sprintf("history %d", i)
	judge := func(p *c26repo, a *repoAnswer, whole bool, overlapping bool) bool {
		if a == nil {
			if whole {
				t.Violate("none", nil, "%s: %s answers nothing", desc, p.name)
				return false
			}
			return true
		}
		rev := a.Revision
		if p.local {
			rev = ""
		}
		want, ok := p.want(rev)
		if !ok {
			t.Violate("unknown-rev", nil, "%s: %s answers from the unknown revision %q", desc, p.name, a.Revision)
			return false
		}
		opted := map[string]bool{}
		for _, n := range p.opt {
			opted[n] = true
		}
		seen := map[string]bool{}
		for _, f := range a.Matches {
			n := f.Filename
			w, ok := want[n]
			if !ok {
				if overlapping && p.local {
					continue
				}
				t.Violate("unknown-file", nil, "%s: %s answers with the file %q, which is not in revision %s", desc, p.name, n, rev)
				return false
			}
			if p.opt != nil {
				w = opted[n]
			}
			if w {
				t.Count("marks_expected", 1)
			}
			seen[n] = true
			t.Count("marks_judged", 1)
			if f.AutoGenerated != w {
				src := "git check-attr"
				if p.opt != nil {
					src = fmt.Sprintf("the option %q", p.opt)
				} else if p.local {
					src = "a local repository without the option"
				}
				tr := GTree{}
				if p.bare != nil {
					tr, _ = p.bare.Tree(rev)
				}
				attrs := map[string]string{}
				for k, e := range tr {
					if strings.HasSuffix(k, ".gitattributes") {
						attrs[k] = e.Content
					}
				}
				t.Violate("mark:"+p.name, M{"history": desc, "attribute_files": attrs, "file": n, "revision": rev},
					"%s: %s at %q: %q marked auto-generated: %v, want %v by %s", desc, p.name, rev, n, f.AutoGenerated, w, src)
				return false
			}
		}
		if whole {
			hidden := func(n string) bool {
				if !exclude {
					return false
				}
				for _, c := range strings.Split(n, "/") {
					if strings.HasPrefix(c, ".") {
						return true
					}
				}
				return false
			}
			for n := range want {
				if !seen[n] && !hidden(n) {
					t.Violate("missing-file", nil, "%s: %s at %q: %q is not in the answer", desc, p.name, rev, n)
					return false
				}
			}
		}
		return true
	}
	all := url.Values{"rng": {":"}, "ctx": {"0"}}
	check := func(p *c26repo) bool {
		a, err := lab.Search(p.name, "markme", all)
		if err != nil {
			t.Violate("search", nil, "%s: %v", desc, err)
			return false
		}
		if !judge(p, a.Results[p.name], true, false) {
			return false
		}
		for _, x := range []url.Values{{"rng": {"1:3"}}, {"files": {`\.go$`}, "i": {"true"}}, {"rng": {":"}, "limit": {"5"}}, {"excludeFiles": {"vendor"}, "literal": {"true"}}} {
			a, err := lab.Search("*", "markme", x)
			if err != nil || a.Error != "" {
				t.Violate("search", nil, "%s: %v %v", desc, x, err)
				return false
			}
			if !judge(p, a.Results[p.name], false, false) {
				return false
			}
		}
		t.Eval(5)
		return true
	}
	sig := func(p *c26repo) string {
		w, _ := p.want(map[bool]string{true: "", false: p.head}[p.local])
		var on []string
		for n, v := range w {
			if v {
				on = append(on, n)
			}
		}
		sort.Strings(on)
		return strings.Join(on, ",")
	}
	if !start() {
		return
	}
	defer func() { lab.Close() }()
	for _, p := range repos {
		if !check(p) {
			return
		}
		t.Distinct(p.name, "start", sig(p), strings.Join(p.opt, ","))
	}
	steps := 4 + r.Intn(4)
	for s := 0; s < steps && !t.Stop(); s++ {
		p := repos[r.Intn(len(repos))]
		desc = fmt.Sprintf("history %d step %d", i, s)
		t.Current("%s %s", desc, p.name)
		restart := r.Intn(4) == 0
		before := sig(p)
		what := ""
		if r.Intn(6) > 0 || !restart {
			nt, kind := c26mutate(r, p.tree)
			if p.local {
				delete(nt, ".fakerev")
			}
			p.tree = nt
			what = kind
			if p.local && !restart {
				// the whole answer of a local directory is compared when it has settled
				commit(p)
			} else if !p.local || restart {
				if restart {
					if !lab.Close() {
						t.Violate("stop", nil, "%s: searchers do not stop", desc)
						return
					}
				}
				commit(p)
			}
		} else if restart {
			lab.Close()
		}
		if restart {
			what += "/restart"
			if r.Intn(2) == 0 {
				q := repos[r.Intn(len(repos))]
				switch {
				case q.opt != nil && r.Intn(2) == 0:
					q.opt = nil
				default:
					q.opt = pickOpt()
				}
				what += "/option"
			}
			if !start() {
				return
			}
		} else {
			// searches that overlap the update
			stop := make(chan struct{})
			var wg sync.WaitGroup
			bad := false
			for k := 0; k < 2; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						select {
						case <-stop:
							return
						default:
						}
						a, err := lab.Search("*", "markme", all)
						if err != nil {
							t.Violate("search-overlap", nil, "%s: %v", desc, err)
							bad = true
							return
						}
						for _, q := range repos {
							if q.local && q == p {
								continue
							}
							if !judge(q, a.Results[q.name], false, true) {
								bad = true
								return
							}
						}
						t.Count("answers_during_updates", 1)
					}
				}()
			}
			lab.Push(p.name)
			ok := c26settled(lab, p, exclude, 20*time.Second)
			close(stop)
			wg.Wait()
			if bad {
				return
			}
			if !ok {
				t.Violate("update", nil, "%s: %s does not answer from the new revision %s", desc, p.name, p.head)
				return
			}
			t.Count("updates", 1)
		}
		for _, q := range repos {
			if !check(q) {
				return
			}
		}
		if restart {
			t.Count("restarts", 1)
		}
		after := sig(p)
		if before != after {
			t.Count("changes_of_marks", 1)
		}
		t.Distinct(p.name, what, before, after, strings.Join(p.opt, ","))
	}
	t.Count("histories", 1)
	if i < 2 {
		t.Sample(M{"history": i, "repositories": len(repos), "marked_last": sig(repos[0]), "attributes_last": repos[0].tree[".gitattributes"].Content})
	}
}

// c26bulk: thousands of marked files, declared by an attribute whose reading
// is beyond doubt and by a long option list.
func c26bulk(t *T, i int) {
	r := t.Rng("bulk", i)
	n := 1100 + r.Intn(1200)
	deep := strings.Repeat("long/", r.Intn(12))
	tr := GTree{}
	var opt []string
	marked := map[string]bool{}
	for k := 0; k < n; k++ {
		f := fmt.Sprintf("%sd%d/file-%05d.%s", deep, k%17, k, []string{"one", "two", "three"}[r.Intn(3)])
		tr[f] = GEntry{"100644", "bulk\n"}
		if r.Intn(3) > 0 {
			opt = append(opt, f)
			marked[f] = true
		}
	}
	r.Shuffle(len(opt), func(a, b int) { opt[a], opt[b] = opt[b], opt[a] })
	b := newBare(t, "master")
	defer os.RemoveAll(b.Dir)
	exts := []string{"one", "two", "three"}
	on, turn := "", i
	commit := func(head string) string {
		turn++
		on = exts[turn%3]
		tr[".gitattributes"] = GEntry{"100644", "# " + on + "\n*." + on + " linguist-generated=true\n"}
		return b.Commit("master", head, tr)
	}
	head := commit("")
	db := t.Dir("db")
	defer os.RemoveAll(db)
	repo := func(opt []string) *config.Repo {
		m := config.SecretMessage("{}")
		return &config.Repo{Url: "file://" + b.Dir, Vcs: "git", VcsConfigMessage: &m, MsBetweenPolls: 3600000, EnablePollUpdates: boolp(false), EnablePushUpdates: boolp(true),
			UrlPattern: &config.UrlPattern{BaseUrl: "{url}", Anchor: ""}, AutoGeneratedFiles: opt}
	}
	var lab *Lab
	start := func() bool {
		var err error
		lab, err = newLab(t, db, 2, map[string]*config.Repo{"plain": repo(nil), "opted": repo(opt)})
		if err != nil || len(lab.Errs) > 0 {
			t.Violate("start", nil, "bulk %d: start fails: %v %v", i, err, lab)
			return false
		}
		return true
	}
	check := func(when string) bool {
		for _, name := range []string{"plain", "opted"} {
			end := time.Now().Add(20 * time.Second)
			a, err := lab.Search(name, "bulk", url.Values{"rng": {":"}, "ctx": {"0"}, "limit": {"100000"}})
			for err == nil && (a.Results[name] == nil || a.Results[name].Revision != head) && time.Now().Before(end) {
				time.Sleep(2 * time.Millisecond)
				a, err = lab.Search(name, "bulk", url.Values{"rng": {":"}, "ctx": {"0"}, "limit": {"100000"}})
			}
			if err != nil || a.Results[name] == nil || a.Results[name].Revision != head {
				t.Violate("update", nil, "bulk %d, %s: %s does not answer from the revision %s: %v", i, when, name, head, err)
				return false
			}
			seen := 0
			for _, f := range a.Results[name].Matches {
				if f.Filename == ".gitattributes" {
					continue
				}
				seen++
				w := marked[f.Filename]
				if name == "plain" {
					w = strings.HasSuffix(f.Filename, "."+on)
				}
				if w != f.AutoGenerated {
					t.Violate("mark:bulk-"+name, nil, "bulk %d, %s: of %d files of %s, %q is marked auto-generated: %v, want %v (files *.%s have the attribute, the option lists %d)", i, when, n, name, f.Filename, f.AutoGenerated, w, on, len(opt))
					return false
				}
			}
			if seen != n {
				t.Violate("missing-file", nil, "bulk %d, %s: %s answers with %d of %d files", i, when, name, seen, n)
				return false
			}
			t.Count("bulk_marks_judged", seen)
			t.Eval(1)
			t.Distinct("bulk", name, when, i)
		}
		return true
	}
	if !start() {
		return
	}
	defer func() { lab.Close() }()
	if !check("start") {
		return
	}
	head = commit(head)
	lab.Push("plain")
	lab.Push("opted")
	if !check("update") {
		return
	}
	if !lab.Close() {
		t.Violate("stop", nil, "bulk %d: searchers do not stop", i)
		return
	}
	if r.Intn(2) == 0 {
		head = commit(head)
	}
	if start() {
		check("restart")
	}
}

// c26settled waits until a repository answers from its newest content.
func c26settled(l *Lab, p *c26repo, exclude bool, d time.Duration) bool {
	end := time.Now().Add(d)
	for n := 0; time.Now().Before(end); n++ {
		a, err := l.Search(p.name, "markme", url.Values{"rng": {":"}, "ctx": {"1"}})
		if err == nil && a.Results[p.name] != nil {
			if !p.local && a.Results[p.name].Revision == p.head {
				return true
			}
			if p.local {
				got := GTree{}
				ok := true
				for _, f := range a.Results[p.name].Matches {
					got[f.Filename] = GEntry{}
					for _, m := range f.Matches {
						c := p.tree[f.Filename].Content
						if !strings.Contains(c, m.Line) {
							ok = false
						}
					}
				}
				for n := range p.tree {
					if _, has := got[n]; !has && !(exclude && strings.Contains("/"+n, "/.")) {
						ok = false
					}
				}
				for n := range got {
					if _, has := p.tree[n]; !has {
						ok = false
					}
				}
				if ok {
					return true
				}
			}
		}
		if n%50 == 49 {
			l.Push(p.name)
		}
		time.Sleep(2 * time.Millisecond)
	}
	return false
}
