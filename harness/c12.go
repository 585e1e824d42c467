package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/vcs"
)

func init() {
	register(&Check{ID: "C12", Fn: c12, Quick: 600,
		Rule:   "restart histories on one data directory: repositories of two scripted VCS types, of git and of local directories are added, removed, renamed, given another ref, VCS type, dot-file or auto-generated option, with several entries on one URL (equal or different refs and options); remotes advance and are rewound between and during runs; between runs foreign, copied and damaged index directories and files are put in the data directory, working copies are emptied or replaced by garbage, and the data directory may lie inside a git checkout of its own; after every start and update all repositories are compared with a model of their content, revision, marks and excluded files, intact indexes whose URL, revision and options agree must be the very directories in use, each repository must have one of its own, and no two may use one working copy; non-trivial = distinct (change made, entries sharing a URL, indexes reused, indexes built)",
		Assume: []string{"the revision name of a scripted remote determines its content, as that of a real one does", "index.Read reports what an index directory was built for (C05 decides that)"},
	})
}

func c12(t *T) {
	t.ParDelayed(t.N(200, 8000), 8, 100, func(i int) { c12history(t, i) })
	if t.Counter("indexes_reused") == 0 || t.Counter("starts_with_shared_url") == 0 || t.Counter("damaged_or_foreign") == 0 {
		t.Inconclusive("no index was reused, no URL shared, or nothing damaged")
	}
}

// ---------------------------------------------------------------- scripted VCS with refs

// c12remote is a remote with refs. Its content is decided by the revision.
type c12remote struct {
	url   string
	mu    sync.Mutex
	n     int
	refs  map[string]string // ref -> revision
	trees map[string]Tree
	auto  map[string][]string
	bare  *BareRepo
}

func (m *c12remote) get(ref string) (string, Tree) {
	m.mu.Lock()
	defer m.mu.Unlock()
	rev := m.refs[ref]
	return rev, m.trees[rev]
}

// the repository types that share a URL hold different revisions
type c12drv struct {
	meta string // name of the metadata file
	name string // the configured name, for the monitor
	ref  string
	ign  []string // names that are not indexed
}

var (
	c12mu      sync.Mutex
	c12remotes = map[string]*c12remote{} // meta + url
	c12used    = map[string]string{}     // working copy -> name, of the running server
	c12shared  []string
)

func init() {
	for _, x := range []string{"c12a", "c12b"} {
		meta := "." + x
		vcs.Register(func(c []byte) (vcs.Driver, error) {
			var d struct {
				Name, Ref string
				Ignored   []string `json:"ignored-files"`
			}
			if err := json.Unmarshal(c, &d); err != nil {
				return nil, err
			}
			return &c12drv{meta, d.Name, d.Ref, d.Ignored}, nil
		}, x)
	}
}

func (d *c12drv) use(dir string) {
	// clones are made next to the working copy
	if i := strings.Index(filepath.Base(dir), ".tmp-"); i >= 0 {
		dir = filepath.Join(filepath.Dir(dir), filepath.Base(dir)[:i])
	}
	c12mu.Lock()
	defer c12mu.Unlock()
	if o, ok := c12used[dir]; ok && o != d.name {
		c12shared = append(c12shared, fmt.Sprintf("%s is used by %s and %s", filepath.Base(dir), o, d.name))
	}
	c12used[dir] = d.name
}

func (d *c12drv) update(dir, url string) (string, error) {
	c12mu.Lock()
	m := c12remotes[d.meta+url]
	c12mu.Unlock()
	if m == nil {
		return "", errors.New("no such remote " + url)
	}
	rev, tr := m.get(d.ref)
	if rev == "" {
		return "", errors.New("no such ref " + d.ref)
	}
	b, _ := os.ReadFile(filepath.Join(dir, d.meta))
	if string(b) == rev+"\n"+url {
		return rev, nil
	}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		os.RemoveAll(filepath.Join(dir, e.Name()))
	}
	if err := writeTreeErr(dir, tr); err != nil {
		return "", err
	}
	return rev, os.WriteFile(filepath.Join(dir, d.meta), []byte(rev+"\n"+url), 0644)
}

func (d *c12drv) Clone(dir, url string) (string, error) {
	d.use(dir)
	if err := os.Mkdir(dir, 0755); err != nil {
		return "", err
	}
	return d.update(dir, url)
}

func (d *c12drv) Pull(dir string) (string, error) {
	d.use(dir)
	b, err := os.ReadFile(filepath.Join(dir, d.meta))
	if err != nil {
		return "", err
	}
	f := strings.SplitN(string(b), "\n", 2)
	if len(f) != 2 {
		return "", errors.New("damaged")
	}
	return d.update(dir, f[1])
}

func (d *c12drv) HeadRev(dir string) (string, error) {
	b, err := os.ReadFile(filepath.Join(dir, d.meta))
	if err != nil {
		return "", err
	}
	return strings.SplitN(string(b), "\n", 2)[0], nil
}

func (d *c12drv) SpecialFiles() []string {
	return append([]string{d.meta}, d.ign...)
}

func (d *c12drv) AutoGeneratedFiles(dir string) []string {
	b, _ := os.ReadFile(filepath.Join(dir, "AUTO"))
	return strings.Fields(string(b))
}

// ---------------------------------------------------------------- model

type c12entry struct {
	vcs, url, ref string
	dots          bool
	auto          []string
	ign           []string
}

func (e *c12entry) key() string {
	return fmt.Sprintf("%s %s %s %v %q ignoring %q", e.vcs, e.url, e.ref, e.dots, e.auto, e.ignores())
}

// ignores are the names the configuration says are not indexed.
func (e *c12entry) ignores() []string {
	if e.vcs == "git" {
		return nil
	}
	return e.ign
}

func (e *c12entry) ignored(n string) bool {
	for _, c := range strings.Split(n, "/") {
		for _, x := range e.ignores() {
			if c == x {
				return true
			}
		}
	}
	return false
}

type c12world struct {
	t        *T
	i        int
	r        *rand.Rand
	db       string
	root     string
	remotes  map[string]*c12remote // vcs + " " + url
	entries  map[string]*c12entry
	lab      *Lab
	hist     []string
	foreign  map[string]string // files that are not the server's
	surround string            // git checkout around the data directory, with its expected state
	surrHead string
}

func (w *c12world) note(f string, a ...interface{}) {
	w.hist = append(w.hist, strings.ReplaceAll(fmt.Sprintf(f, a...), "file://"+w.root, ""))
}

func (w *c12world) bad(key, f string, a ...interface{}) bool {
	w.t.Violate(key, M{"history": w.hist, "index": w.i}, "history %d: %s\nafter: %s", w.i, fmt.Sprintf(f, a...), strings.Join(w.hist, "; "))
	return false
}

var c12refs = []string{"master", "dev"}

func (w *c12world) tree(m *c12remote, label string) Tree {
	tr := Tree{}
	for k := 1 + w.r.Intn(4); k >= 0; k-- {
		n := []string{"a", "b", ".dot", "d/x", "d/.y", ".dd/z", "gen", "d/gen"}[w.r.Intn(8)]
		tr[n] = fmt.Sprintf("tok %s %s\n", label, n)
	}
	if w.r.Intn(2) == 0 {
		tr["bin"] = "\xff\x00" + label
	}
	if w.r.Intn(3) == 0 {
		tr["AUTO"] = "gen b\n"
	}
	tr["id"] = "tok " + label + " id\n"
	return tr
}

// commit moves a ref of a remote
func (w *c12world) commit(k, ref string) {
	m := w.remotes[k]
	kind := strings.Fields(k)[0]
	m.mu.Lock()
	defer m.mu.Unlock()
	if kind != "local" && len(m.trees) > 2 && w.r.Intn(5) == 0 { // back to a revision that was there before
		var revs []string
		for r := range m.trees {
			revs = append(revs, r)
		}
		sort.Strings(revs)
		rev := revs[w.r.Intn(len(revs))]
		m.refs[ref] = rev
		if m.bare != nil {
			mustGit(m.bare.Dir, "update-ref", "refs/heads/"+ref, rev)
		}
		w.note("%s %s back at %.12s", k, ref, rev)
		return
	}
	m.n++
	label := fmt.Sprintf("%s %s %d.%d", k, ref, w.i, m.n)
	label = strings.ReplaceAll(label, "file://"+w.root, "")
	tr := w.tree(m, label)
	rev := fmt.Sprintf("%s-%s-%d", kind, ref, m.n)
	switch kind {
	case "git":
		g := GTree{}
		for n, c := range tr {
			g[n] = GEntry{"100644", c}
		}
		if a, ok := tr["AUTO"]; ok {
			s := ""
			for _, n := range strings.Fields(a) {
				s += "/" + n + " linguist-generated=true\n"
			}
			g[".gitattributes"], tr[".gitattributes"] = GEntry{"100644", s}, s
		}
		rev = m.bare.Commit(ref, "", g)
	case "local":
		rev = "n/a"
	}
	if kind == "local" {
		d := strings.TrimPrefix(m.url, "file://")
		es, _ := os.ReadDir(d)
		for _, e := range es {
			os.RemoveAll(filepath.Join(d, e.Name()))
		}
		writeTree(d, tr)
	}
	m.refs[ref], m.trees[rev] = rev, tr
	w.note("%s %s at %.12s", k, ref, rev)
}

func (w *c12world) mode(rp *config.Repo, name string, e *c12entry) {
	b, _ := json.Marshal(M{"name": name, "ref": e.ref, "ignored-files": append([]string{}, e.ignores()...)})
	if e.vcs == "local" {
		b, _ = json.Marshal(M{"ignored-files": append([]string{}, e.ign...)})
	}
	m := config.SecretMessage(b)
	rp.VcsConfigMessage = &m
}

func (w *c12world) config() map[string]*config.Repo {
	out := map[string]*config.Repo{}
	for n, e := range w.entries {
		rp := &config.Repo{Url: e.url, Vcs: e.vcs, MsBetweenPolls: 3600000, EnablePollUpdates: boolp(false), EnablePushUpdates: boolp(true),
			ExcludeDotFiles: e.dots, AutoGeneratedFiles: append([]string{}, e.auto...), UrlPattern: &config.UrlPattern{BaseUrl: "{url}"}}
		w.mode(rp, n, e)
		out[n] = rp
	}
	return out
}

// what is expected of an entry: revision, content, marks, excluded files
func (w *c12world) expect(e *c12entry) (rev string, tr Tree) {
	return w.remotes[e.vcs+" "+e.url].get(e.ref)
}

func c12hidden(n string) bool {
	for _, c := range strings.Split(n, "/") {
		if strings.HasPrefix(c, ".") {
			return true
		}
	}
	return false
}

func (w *c12world) marks(e *c12entry, tr Tree) map[string]bool {
	out := map[string]bool{}
	l := e.auto
	if len(l) == 0 && e.vcs != "local" {
		l = strings.Fields(tr["AUTO"])
	}
	for _, n := range l {
		out[n] = true
	}
	return out
}

// key of an index directory, as the monitor reads it
func (w *c12world) wantKey(e *c12entry) string {
	rev, tr := w.expect(e)
	if e.vcs == "local" {
		rev = "n/a"
	}
	l := e.auto
	if len(l) == 0 && e.vcs != "local" {
		l = strings.Fields(tr["AUTO"])
		if e.vcs == "git" { // in the order of the files
			var o []string
			for _, n := range l {
				if _, ok := tr[n]; ok {
					o = append(o, n)
				}
			}
			sort.Strings(o)
			l = o
		}
	}
	return fmt.Sprintf("%s|%s|%v|%q|%q", e.url, rev, e.dots, append([]string{}, l...), append([]string{}, e.ignores()...))
}

// the intact index directories: key -> directories
func (w *c12world) dirs() map[string][]string {
	out := map[string][]string{}
	for _, n := range idxDirs(w.db) {
		d := filepath.Join(w.db, n)
		if w.foreign[filepath.Join(d, "keep")] != "" {
			continue
		}
		if fi, err := os.Lstat(d); err != nil || !fi.IsDir() {
			continue
		}
		ref, err := index.Read(d)
		if err != nil {
			continue
		}
		ix, err := ref.Open()
		if err != nil {
			continue
		}
		ix.Close()
		rev := ref.Rev
		if strings.HasPrefix(ref.Url, "file://"+w.root) && !strings.HasPrefix(rev, "c12a-") && !strings.HasPrefix(rev, "c12b-") && rev != "another" {
			rev = "n/a" // a local directory that is not watched
		}
		ign := []string{}
		for _, x := range ref.SpecialFiles {
			if x != ".git" && !strings.HasPrefix(x, ".c12") {
				ign = append(ign, x)
			}
		}
		k := fmt.Sprintf("%s|%s|%v|%q|%q", ref.Url, rev, ref.ExcludeDotFiles, append([]string{}, ref.AutoGeneratedFiles...), ign)
		out[k] = append(out[k], n)
	}
	return out
}

func (w *c12world) judge(name string) bool {
	e := w.entries[name]
	rev, tr := w.expect(e)
	a, err := w.lab.Search(name, "tok", url.Values{"rng": {":"}})
	if err != nil || a.Error != "" {
		return w.bad("search", "searching %s (%s): %v %v", name, e.key(), err, a)
	}
	ra := a.Results[name]
	if ra == nil {
		return w.bad("none", "%s (%s) answers nothing", name, e.key())
	}
	if ra.Revision != rev && e.vcs != "local" {
		return w.bad("rev", "%s (%s) answers from %q, want %q", name, e.key(), ra.Revision, rev)
	}
	marks := w.marks(e, tr)
	var want, got []string
	for n, c := range tr {
		if e.ignored(n) || e.dots && c12hidden(n) || !strings.Contains(c, "tok") || strings.Contains(c, "\xff") {
			continue
		}
		want = append(want, fmt.Sprintf("%s: %s auto=%v", n, strings.TrimSpace(c), marks[n]))
	}
	for _, f := range ra.Matches {
		for _, m := range f.Matches {
			got = append(got, fmt.Sprintf("%s: %s auto=%v", f.Filename, m.Line, f.AutoGenerated))
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return w.bad("content", "%s (%s) answers from %q:\n%s\nwant\n%s", name, e.key(), rev, strings.Join(got, "\n"), strings.Join(want, "\n"))
	}
	var ex []index.ExcludedFile
	if err := json.Unmarshal([]byte(w.lab.Searchers[name].GetExcludedFiles()), &ex); err != nil {
		return w.bad("excluded", "excluded files of %s: %v", name, err)
	}
	got, want = nil, nil
	for _, x := range ex {
		got = append(got, x.Filename)
	}
	for n, c := range tr {
		if e.ignored(n) {
			continue
		}
		if strings.HasPrefix(c, "\xff") {
			want = append(want, n)
		}
		if e.dots && c12hidden(n) {
			want = append(want, n)
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	// hidden directories are skipped as a whole
	var g2, w2 []string
	for _, n := range got {
		if !c12hidden(n) {
			g2 = append(g2, n)
		}
	}
	for _, n := range want {
		if !c12hidden(n) {
			w2 = append(w2, n)
		}
	}
	if fmt.Sprint(g2) != fmt.Sprint(w2) {
		return w.bad("excluded", "%s (%s) reports the excluded files %q, want %q", name, e.key(), g2, w2)
	}
	w.t.Eval(1)
	return true
}

func (w *c12world) judgeAll() bool {
	for _, n := range sortedKeys(w.entries) {
		if !w.judge(n) {
			return false
		}
	}
	return true
}

func (w *c12world) start() bool {
	before := w.dirs()
	groups := map[string]int{}
	urls := map[string]int{}
	shared := 0
	for _, e := range w.entries {
		groups[w.wantKey(e)]++
		urls[e.url]++
		if urls[e.url] == 2 {
			shared++
		}
	}
	c12mu.Lock()
	for d := range c12used {
		if strings.HasPrefix(d, w.db+"/") {
			delete(c12used, d)
		}
	}
	c12mu.Unlock()
	w.t.Current("history %d: %s", w.i, strings.Join(w.hist, "; "))
	var err error
	w.lab, err = newLab(w.t, w.db, 1+w.r.Intn(4), w.config())
	if err != nil {
		return w.bad("start", "the server does not start: %v", err)
	}
	if len(w.lab.Errs) > 0 {
		return w.bad("start-repo", "repositories that do not start: %v", w.lab.Errs)
	}
	c12mu.Lock()
	for _, s := range c12shared {
		if strings.Contains(s, " ") {
			c12mu.Unlock()
			return w.bad("shared-workdir", "two repositories use one working copy: %s", s)
		}
	}
	c12mu.Unlock()
	after := w.dirs()
	reused, built, total := 0, 0, 0
	for k, want := range groups {
		b, a := before[k], after[k]
		total += len(a)
		keep := len(b)
		if keep > want {
			keep = want
		}
		if strings.Contains(k, "|n/a|") {
			keep = 0 // the revision may depend on the place of the working copy
		}
		n := 0
		for _, d := range a {
			for _, x := range b {
				if x == d {
					n++
				}
			}
		}
		reused += n
		built += len(a) - n
		if n < keep {
			return w.bad("not-reused", "of %d intact indexes for %s only %d are in use, %d repositories want one (before %v, after %v)", len(b), k, n, want, b, a)
		}
		if len(a) != want {
			return w.bad("shared-index", "%d repositories want an index for %s, there are %d", want, k, len(a))
		}
	}
	var all []string
	for _, n := range idxDirs(w.db) {
		if fi, err := os.Lstat(filepath.Join(w.db, n)); err == nil && fi.IsDir() && w.foreign[filepath.Join(w.db, n, "keep")] == "" {
			all = append(all, n)
		}
	}
	if total != len(w.entries) || len(all) != total {
		return w.bad("stray", "%d repositories with %d indexes, but the index directories %v", len(w.entries), total, all)
	}
	for f, c := range w.foreign {
		if b, err := os.ReadFile(f); err != nil || string(b) != c {
			return w.bad("foreign", "%s, which is not the server's, is gone or changed: %q %v", strings.TrimPrefix(f, w.root), b, err)
		}
	}
	w.t.Count("starts", 1)
	w.t.Count("indexes_reused", reused)
	w.t.Count("indexes_built", built)
	if shared > 0 {
		w.t.Count("starts_with_shared_url", 1)
	}
	last := w.hist
	if len(last) > 3 {
		last = last[len(last)-3:]
	}
	var verbs []string
	for _, l := range last {
		verbs = append(verbs, strings.Fields(l)[0])
	}
	w.t.Distinct(verbs, shared, reused, built)
	return w.judgeAll()
}

// checkSurround decides whether the git checkout around the data directory is
// as it was.
func (w *c12world) checkSurround() bool {
	if w.surround == "" {
		return true
	}
	h, _ := gitCmd(w.surround, "rev-parse", "HEAD", "refs/heads/master")
	b, _ := os.ReadFile(filepath.Join(w.surround, "mine"))
	s, _ := gitCmd(w.surround, "status", "--porcelain", "--untracked-files=no")
	if h != w.surrHead || string(b) != "edited\n" || !strings.Contains(s, "mine") {
		return w.bad("surrounding", "the git checkout around the data directory was changed: HEAD %q (was %q), mine %q, status %q", h, w.surrHead, b, s)
	}
	w.t.Count("surrounding_checked", 1)
	return true
}

// damage puts things in the data directory between runs.
func (w *c12world) damage() {
	r := w.r
	var ds []string
	for _, n := range idxDirs(w.db) {
		if fi, err := os.Lstat(filepath.Join(w.db, n)); err == nil && fi.IsDir() && w.foreign[filepath.Join(w.db, n, "keep")] == "" {
			ds = append(ds, n)
		}
	}
	pick := func() string {
		if len(ds) == 0 {
			return ""
		}
		return filepath.Join(w.db, ds[r.Intn(len(ds))])
	}
	hex := fmt.Sprintf("%016x", r.Int63())
	var wds []string
	es, _ := os.ReadDir(w.db)
	for _, e := range es {
		if e.IsDir() && strings.HasPrefix(e.Name(), "vcs-") {
			wds = append(wds, filepath.Join(w.db, e.Name()))
		}
	}
	what := ""
	switch k := r.Intn(12); {
	case k == 0 && pick() != "":
		d := pick()
		os.Remove(filepath.Join(d, "metadata.gob"))
		what = "lost manifest"
	case k == 1 && pick() != "":
		os.WriteFile(filepath.Join(pick(), "metadata.gob"), []byte("garbage"), 0644)
		what = "garbage manifest"
	case k == 2 && pick() != "":
		p := filepath.Join(pick(), "tri")
		if fi, err := os.Stat(p); err == nil {
			os.Truncate(p, fi.Size()/2)
		}
		what = "truncated trigrams"
	case k == 3 && pick() != "":
		os.Remove(filepath.Join(pick(), "tri"))
		what = "lost trigrams"
	case k == 4:
		os.MkdirAll(filepath.Join(w.db, "idx-"+hex, "raw"), 0755)
		what = "empty index"
	case k == 5:
		p := filepath.Join(w.db, "idx-"+hex)
		switch r.Intn(3) {
		case 0:
			os.WriteFile(p, []byte("x"), 0644)
			w.foreign[p] = "x"
		case 1: // a link to a directory elsewhere, that holds an index
			d := filepath.Join(w.root, "elsewhere-"+hex)
			if pick() != "" {
				copyDir(pick(), d)
			}
			writeTree(d, Tree{"keep": "mine"})
			os.Symlink(d, p)
			w.foreign[filepath.Join(d, "keep")] = "mine"
		case 2: // a directory with a name that is not an index
			p = filepath.Join(w.db, []string{"idx-notes", "idx-" + hex + ".old", "my-idx-" + hex, "Idx-" + hex, "index", "backup"}[r.Intn(6)])
			if pick() != "" {
				copyDir(pick(), p)
			}
			writeTree(p, Tree{"keep": "mine"})
			w.foreign[filepath.Join(p, "keep")] = "mine"
		}
		what = "foreign " + filepath.Base(p)
	case k == 6 && pick() != "": // a second index for the same
		copyDir(pick(), filepath.Join(w.db, "idx-"+hex))
		what = "copied index"
	case k == 7: // the index of another tree for the same URL and another revision
		var e *c12entry
		for _, n := range sortedKeys(w.entries) {
			e = w.entries[n]
		}
		if e != nil {
			src := w.t.Dir("other")
			writeTree(src, Tree{"a": "tok other\n"})
			index.Build(&index.IndexOptions{ExcludeDotFiles: e.dots, SpecialFiles: append([]string{".c12a"}, e.ignores()...), AutoGeneratedFiles: e.auto}, filepath.Join(w.db, "idx-"+hex), src, e.url, "another")
			os.RemoveAll(src)
		}
		what = "index of another revision"
	case k == 8: // the index of another URL at the same revision
		var e *c12entry
		for _, n := range sortedKeys(w.entries) {
			e = w.entries[n]
		}
		if e != nil {
			rev, _ := w.expect(e)
			src := w.t.Dir("other")
			writeTree(src, Tree{"a": "tok other\n"})
			index.Build(&index.IndexOptions{ExcludeDotFiles: e.dots, SpecialFiles: append([]string{".c12a"}, e.ignores()...), AutoGeneratedFiles: e.auto}, filepath.Join(w.db, "idx-"+hex), src, e.url+"x", rev)
			os.RemoveAll(src)
		}
		what = "index of another URL"
	case k == 9 && len(wds) > 0:
		d := wds[r.Intn(len(wds))]
		es, _ := os.ReadDir(d)
		for _, e := range es {
			os.RemoveAll(filepath.Join(d, e.Name()))
		}
		what = "emptied working copy"
	case k == 10 && len(wds) > 0:
		d := wds[r.Intn(len(wds))]
		os.RemoveAll(d)
		writeTree(d, Tree{"garbage": "tok garbage\n", ".c12a": "x", ".c12b": "y"})
		what = "garbage working copy"
	case k == 11 && len(wds) > 0:
		os.RemoveAll(wds[r.Intn(len(wds))])
		what = "lost working copy"
	default:
		return
	}
	w.note("%s", what)
	w.t.Count("damaged_or_foreign", 1)
}

func copyDir(src, dst string) {
	filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0755)
		}
		b, err := os.ReadFile(p)
		if err == nil {
			os.WriteFile(filepath.Join(dst, rel), b, 0644)
		}
		return nil
	})
}

func c12history(t *T, i int) {
	r := t.Rng("hist", i)
	w := &c12world{t: t, i: i, r: r, root: t.Dir("c12"), remotes: map[string]*c12remote{}, entries: map[string]*c12entry{}, foreign: map[string]string{}}
	defer os.RemoveAll(w.root)
	w.db = filepath.Join(w.root, "db")
	withGit := i%5 == 0
	if withGit && r.Intn(2) == 0 {
		w.surround = filepath.Join(w.root, "checkout")
		os.Mkdir(w.surround, 0755)
		mustGit(w.surround, "init", "-q", "-b", "master")
		writeTree(w.surround, Tree{"mine": "committed\n", "a": "tok surrounding\n"})
		mustGit(w.surround, "add", "-A")
		mustGit(w.surround, "commit", "-q", "-m", "x")
		w.surrHead = mustGit(w.surround, "rev-parse", "HEAD", "refs/heads/master")
		// another remote the checkout would be reset to
		o := newBare(t, "master")
		o.Commit("master", "", GTree{"mine": {"100644", "remote\n"}})
		o.Commit("dev", "", GTree{"mine": {"100644", "remote\n"}})
		mustGit(w.surround, "remote", "add", "origin", o.Dir)
		defer os.RemoveAll(o.Dir)
		writeTree(w.surround, Tree{"mine": "edited\n"})
		w.db = filepath.Join(w.surround, "data", "db")
		w.note("data directory inside a git checkout")
	}
	if err := os.MkdirAll(w.db, 0755); err != nil {
		fatal("%v", err)
	}
	// URLs that are almost the same name different repositories
	urls := [][]string{{"u1", "u2"}, {"u", "u.git"}, {"u", "U"}, {"u", "u/"}, {"u", "u/u"}, {"u", "u "}, {"u", "u#x"}, {"u", "u?x"}, {"u1", "u2"}}[r.Intn(9)]
	urls = append([]string{}, urls...)
	noLocal := urls[1] == "u/" || urls[1] == "u/u" // the same directory, or one in the other
	for k := range urls {
		os.MkdirAll(filepath.Join(w.root, urls[k]), 0755)
		urls[k] = "file://" + w.root + "/" + urls[k]
		kinds := []string{"c12a", "c12b", "local"}
		if noLocal {
			kinds = kinds[:2]
		}
		for _, kd := range kinds {
			m := &c12remote{url: urls[k], refs: map[string]string{}, trees: map[string]Tree{}}
			w.remotes[kd+" "+urls[k]] = m
			if kd != "local" {
				c12mu.Lock()
				c12remotes["."+kd+urls[k]] = m
				c12mu.Unlock()
				defer func(key string) {
					c12mu.Lock()
					delete(c12remotes, key)
					c12mu.Unlock()
				}("." + kd + urls[k])
			}
		}
	}
	if withGit {
		b := newBare(t, "master")
		defer os.RemoveAll(b.Dir)
		urls = append(urls, "file://"+b.Dir)
		w.remotes["git file://"+b.Dir] = &c12remote{url: "file://" + b.Dir, refs: map[string]string{}, trees: map[string]Tree{}, bare: b}
	}
	for k := range w.remotes {
		for _, ref := range c12refs {
			if strings.HasPrefix(k, "local ") && ref != "master" {
				continue
			}
			w.commit(k, ref)
		}
	}
	w.hist = w.hist[:0]
	if w.surround != "" {
		w.note("data directory inside a git checkout")
	}
	autos := [][]string{nil, nil, {"a"}, {"a", "d/x"}, {"n1", "n2", "n3", "n4", "n5", "n6", "a"}, {"n1", "n2", "n3", "n4", "n5", "n6", "d/x"}, {"n1", "n2", "n3", "n4", "n5", "n6", "a", "b"}}
	igns := [][]string{nil, nil, {"b"}, {"d"}, {"x", "bin"}, {"b", "bin"}}
	newEntry := func() *c12entry {
		e := &c12entry{ign: igns[r.Intn(len(igns))], url: urls[r.Intn(len(urls))], ref: c12refs[r.Intn(2)], dots: r.Intn(3) == 0, auto: autos[r.Intn(len(autos))]}
		if withGit && r.Intn(2) == 0 {
			e.url = urls[len(urls)-1]
		}
		switch {
		case withGit && e.url == urls[len(urls)-1]:
			e.vcs = "git"
		case r.Intn(6) == 0 && !noLocal:
			e.vcs, e.ref = "local", "master"
		default:
			e.vcs = []string{"c12a", "c12a", "c12b"}[r.Intn(3)]
		}
		return e
	}
	names := []string{"N0", "N1", "N2", "N3", "n/4"}
	for k := 1 + r.Intn(4); k > 0; k-- {
		n := names[r.Intn(len(names))]
		w.entries[n] = newEntry()
	}
	for _, n := range sortedKeys(w.entries) {
		w.note("%s is %s", n, w.entries[n].key())
	}
	// a local directory without watching is indexed once for all: its content
	// stays as it was when no index of it may be left over
	commitAny := func(running bool) {
		var ks []string
		for k := range w.remotes {
			if !strings.HasPrefix(k, "local ") {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		w.commit(ks[r.Intn(len(ks))], c12refs[r.Intn(2)])
	}
	steps := 4 + r.Intn(4)
	for s := 0; s < steps && !t.Stop(); s++ {
		if !w.start() {
			if w.lab != nil {
				w.lab.Close()
			}
			return
		}
		// updates while it runs
		for k := r.Intn(3); k > 0; k-- {
			commitAny(true)
			for _, n := range sortedKeys(w.entries) {
				w.lab.Push(n)
			}
			end := time.Now().Add(30 * time.Second)
			for {
				ok := true
				for _, n := range sortedKeys(w.entries) {
					e := w.entries[n]
					rev, _ := w.expect(e)
					res, err := w.lab.Searchers[n].Search("tok", &index.SearchOptions{})
					if err != nil || res.Revision != rev && e.vcs != "local" {
						ok = false
					}
				}
				if ok {
					break
				}
				if time.Now().After(end) {
					w.bad("update", "not all repositories answer from their new revision")
					w.lab.Close()
					return
				}
				time.Sleep(time.Millisecond)
			}
			w.note("update")
			t.Count("updates", 1)
			if !w.judgeAll() {
				w.lab.Close()
				return
			}
		}
		if !w.lab.Close() {
			w.bad("stop", "the searchers do not stop")
			return
		}
		w.note("restart")
		if !w.checkSurround() {
			return
		}
		for k := r.Intn(3); k > 0; k-- {
			commitAny(false)
		}
		if r.Intn(2) == 0 {
			for k := 1 + r.Intn(2); k > 0; k-- {
				w.damage()
			}
		}
		for k := r.Intn(3); k > 0; k-- {
			ns := sortedKeys(w.entries)
			n := names[r.Intn(len(names))]
			switch op := r.Intn(8); {
			case op == 0 && len(ns) > 1:
				n = ns[r.Intn(len(ns))]
				delete(w.entries, n)
				w.note("%s removed", n)
			case op == 1 && len(ns) > 0: // renamed, possibly onto another
				o := ns[r.Intn(len(ns))]
				e := w.entries[o]
				delete(w.entries, o)
				w.entries[n] = e
				w.note("%s renamed %s", o, n)
			case op == 2 && len(ns) > 1: // swapped
				a, b := ns[r.Intn(len(ns))], ns[r.Intn(len(ns))]
				w.entries[a], w.entries[b] = w.entries[b], w.entries[a]
				w.note("%s and %s swapped", a, b)
			case op == 3 && len(ns) > 0: // a twin
				e := *w.entries[ns[r.Intn(len(ns))]]
				switch r.Intn(5) {
				case 4:
					e.ign = igns[r.Intn(len(igns))]
				case 0:
					if e.vcs != "local" {
						e.ref = c12refs[r.Intn(2)]
					}
				case 1:
					e.dots = !e.dots
				case 2:
					e.auto = autos[r.Intn(len(autos))]
				}
				w.entries[n] = &e
				w.note("%s is the twin %s", n, e.key())
			case op <= 6 && len(ns) > 0: // one option
				n = ns[r.Intn(len(ns))]
				e := *w.entries[n]
				switch r.Intn(5) {
				case 4:
					e.ign = igns[r.Intn(len(igns))]
				case 0:
					if e.vcs != "local" {
						e.ref = c12refs[r.Intn(2)]
					}
				case 1:
					e.dots = !e.dots
				case 2:
					e.auto = autos[r.Intn(len(autos))]
				case 3:
					if e.vcs == "c12a" {
						e.vcs = "c12b"
					} else if e.vcs == "c12b" {
						e.vcs = "c12a"
					}
				}
				w.entries[n] = &e
				w.note("%s becomes %s", n, e.key())
			default:
				w.entries[n] = newEntry()
				w.note("%s added as %s", n, w.entries[n].key())
			}
		}
	}
	t.Count("histories", 1)
	if i < 2 {
		t.Sample(w.hist)
	}
}
