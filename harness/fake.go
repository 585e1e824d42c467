package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hound-search/hound/api"
	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/vcs"
)

// ---------------------------------------------------------------- clock

// tick is the logical clock that orders all recorded events: if a happened
// before b then tick(a) < tick(b).
var clock int64

func tick() int64 { return atomic.AddInt64(&clock, 1) }

// ---------------------------------------------------------------- scripted VCS

// Event of a scripted repository.
type vcsEvent struct {
	Kind       string // clone, pull, headrev, auto
	Begin, End int64
	Rev        int
	Err        string
}

// Remote is a scripted repository: its revisions are numbers, and what its
// commands do is decided by the hooks.
type Remote struct {
	ID   string
	Tree func(rev int) Tree // content of a revision

	mu      sync.Mutex
	rev     int
	events  []vcsEvent
	inside  int32
	Before  func(kind, dir string) error          // runs when a command begins, may block
	After   func(kind, dir string, rev int) error // runs after the tree has been written
	Special []string
	Auto    func(dir string) []string
}

var (
	remotesMu sync.Mutex
	remotes   = map[string]*Remote{}
)

func newRemote(id string, tree func(rev int) Tree) *Remote {
	r := &Remote{ID: id, Tree: tree, rev: 1}
	remotesMu.Lock()
	remotes[id] = r
	remotesMu.Unlock()
	return r
}

func (r *Remote) drop() {
	remotesMu.Lock()
	delete(remotes, r.ID)
	remotesMu.Unlock()
}

// Commit advances the remote and returns the new revision.
func (r *Remote) Commit() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.rev++
	return r.rev
}

func (r *Remote) Head() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.rev
}

func (r *Remote) Events() []vcsEvent {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]vcsEvent{}, r.events...)
}

// pulls that began after the given stamp
func (r *Remote) PullsAfter(stamp int64) (n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, e := range r.events {
		if (e.Kind == "pull" || e.Kind == "clone") && e.Begin > stamp {
			n++
		}
	}
	return
}

// as with commit ids, the names follow no order; they differ late
func revName(rev int) string { return fmt.Sprintf("0a00000000000%08x", uint32(rev)*2654435761) }

type fakeDriver struct{ r *Remote }

func init() {
	vcs.Register(func(c []byte) (vcs.Driver, error) {
		var d struct {
			ID  string `json:"id"`
			Bad bool   `json:"bad"`
		}
		if err := json.Unmarshal(c, &d); err != nil {
			return nil, err
		}
		if d.Bad {
			return nil, errors.New("bad config")
		}
		remotesMu.Lock()
		defer remotesMu.Unlock()
		r := remotes[d.ID]
		if r == nil {
			return nil, errors.New("no such remote " + d.ID)
		}
		return &fakeDriver{r}, nil
	}, "fake")
}

func (f *fakeDriver) run(kind, dir string) (string, error) {
	r := f.r
	atomic.AddInt32(&r.inside, 1)
	defer atomic.AddInt32(&r.inside, -1)
	r.mu.Lock()
	i := len(r.events)
	begin := tick()
	r.events = append(r.events, vcsEvent{Kind: kind, Begin: begin})
	before, after := r.Before, r.After
	r.mu.Unlock()
	done := func(rev int, err error) (string, error) {
		r.mu.Lock()
		defer r.mu.Unlock()
		// a workload may have dropped the events it has seen
		e := &vcsEvent{}
		if i < len(r.events) && r.events[i].Begin == begin {
			e = &r.events[i]
		}
		e.End, e.Rev = tick(), rev
		if err != nil {
			e.Err = err.Error()
			return "", err
		}
		return revName(rev), nil
	}
	if before != nil {
		if err := before(kind, dir); err != nil {
			return done(0, err)
		}
	}
	rev := r.Head()
	if kind == "headrev" {
		b, err := os.ReadFile(filepath.Join(dir, ".fakerev"))
		if err != nil {
			return done(0, err)
		}
		return string(b), nil
	}
	if err := os.MkdirAll(dir, 0755); err != nil {
		return done(0, err)
	}
	cur, _ := os.ReadFile(filepath.Join(dir, ".fakerev"))
	if string(cur) != revName(rev) {
		es, _ := os.ReadDir(dir)
		for _, e := range es {
			os.RemoveAll(filepath.Join(dir, e.Name()))
		}
		if err := writeTreeErr(dir, r.Tree(rev)); err != nil {
			return done(0, err)
		}
		if err := os.WriteFile(filepath.Join(dir, ".fakerev"), []byte(revName(rev)), 0644); err != nil {
			return done(0, err)
		}
	}
	if after != nil {
		if err := after(kind, dir, rev); err != nil {
			return done(rev, err)
		}
	}
	return done(rev, nil)
}

func (f *fakeDriver) Clone(dir, url string) (string, error) { return f.run("clone", dir) }
func (f *fakeDriver) Pull(dir string) (string, error)       { return f.run("pull", dir) }
func (f *fakeDriver) HeadRev(dir string) (string, error)    { return f.run("headrev", dir) }
func (f *fakeDriver) SpecialFiles() []string                { return append([]string{".fakerev"}, f.r.Special...) }
func (f *fakeDriver) AutoGeneratedFiles(dir string) []string {
	if f.r.Auto != nil {
		return f.r.Auto(dir)
	}
	return nil
}

func writeTreeErr(dir string, tr Tree) error {
	for n, c := range tr {
		p := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(c), 0644); err != nil {
			return err
		}
	}
	return nil
}

// ---------------------------------------------------------------- token trees

const tokenQuery = `tok rev=[0-9]+ file=[0-9]+ of=[0-9]+`

// tokenTree is the content of a revision made to be recognised: K files that
// each carry "tok rev=R file=I of=K" once, and E files that are excluded.
func tokenTree(id string, rev, maxFiles, pad int) Tree {
	tr := Tree{}
	k := 1 + (rev*7+len(id))%maxFiles
	e := rev % 4
	filler := strings.Repeat("filler line with some words in it\n", pad)
	for i := 0; i < k; i++ {
		tr[fmt.Sprintf("d%d/f%03d", i%3, i)] = fmt.Sprintf("%stok rev=%d file=%d of=%d\nrepo %s\n%s", filler, rev, i, k, id, filler)
	}
	for i := 0; i < e; i++ {
		tr[fmt.Sprintf("bin-%d-%d-of-%d", rev, i, e)] = "\xff\xfe\x00" + strings.Repeat("\x80", i)
	}
	return tr
}

// checkTokens decides whether a search answer for tokenQuery is exactly one
// revision; it returns that revision.
func checkTokens(ms []*index.FileMatch, revision string) (int, string) {
	rev, of := -1, -1
	seen := map[int]bool{}
	for _, f := range ms {
		if len(f.Matches) != 1 {
			return 0, fmt.Sprintf("%d matches in %s, want 1", len(f.Matches), f.Filename)
		}
		var r, i, k int
		if _, err := fmt.Sscanf(f.Matches[0].Line, "tok rev=%d file=%d of=%d", &r, &i, &k); err != nil {
			return 0, fmt.Sprintf("line %q in %s", f.Matches[0].Line, f.Filename)
		}
		if rev >= 0 && (r != rev || k != of) {
			return 0, fmt.Sprintf("matches of revisions %d and %d in one answer", rev, r)
		}
		rev, of = r, k
		if seen[i] {
			return 0, fmt.Sprintf("file %d reported twice", i)
		}
		seen[i] = true
		if f.Filename != fmt.Sprintf("d%d/f%03d", i%3, i) {
			return 0, fmt.Sprintf("token of file %d under the name %s", i, f.Filename)
		}
	}
	if rev < 0 {
		return 0, fmt.Sprintf("no match at all (revision %q)", revision)
	}
	if len(seen) != of {
		return 0, fmt.Sprintf("%d of %d files of revision %d", len(seen), of, rev)
	}
	if revision != revName(rev) {
		return 0, fmt.Sprintf("content of revision %d reported as %q", rev, revision)
	}
	return rev, ""
}

// checkExcluded decides whether an excluded-files report is exactly one
// revision; (0, "") means an empty report, which belongs to revisions = 0 mod 4.
func checkExcluded(s string) (int, string) {
	var fs []index.ExcludedFile
	if err := json.Unmarshal([]byte(s), &fs); err != nil {
		return 0, fmt.Sprintf("excluded-files report %q: %v", head([]byte(s), 200), err)
	}
	rev, of := -1, 0
	for _, f := range fs {
		var r, i, e int
		if _, err := fmt.Sscanf(f.Filename, "bin-%d-%d-of-%d", &r, &i, &e); err != nil {
			return 0, fmt.Sprintf("unexpected entry %+v", f)
		}
		if rev >= 0 && r != rev {
			return 0, fmt.Sprintf("entries of revisions %d and %d in one report", rev, r)
		}
		rev, of = r, e
	}
	if rev < 0 {
		return 0, ""
	}
	if of != len(fs) {
		return 0, fmt.Sprintf("%d of %d entries of revision %d", len(fs), of, rev)
	}
	return rev, ""
}

// ---------------------------------------------------------------- server in process

type Lab struct {
	t         *T
	cfg       *config.Config
	Searchers map[string]*searcher.Searcher
	Errs      map[string]error
	srv       *httptest.Server
	client    *http.Client
}

func boolp(b bool) *bool { return &b }

type repoOpt struct {
	poll, push bool
	ms         int
	url        string
	cfg        func(*config.Repo)
}

func fakeRepo(r *Remote, o repoOpt) *config.Repo {
	b, _ := json.Marshal(map[string]string{"id": r.ID})
	m := config.SecretMessage(b)
	if o.ms == 0 {
		o.ms = 3
	}
	if o.url == "" {
		o.url = "fake://" + r.ID
	}
	rp := &config.Repo{Url: o.url, Vcs: "fake", VcsConfigMessage: &m, MsBetweenPolls: o.ms,
		EnablePollUpdates: boolp(o.poll), EnablePushUpdates: boolp(o.push),
		UrlPattern: &config.UrlPattern{BaseUrl: "{url}", Anchor: ""}}
	if o.cfg != nil {
		o.cfg(rp)
	}
	return rp
}

// newLab starts the searchers and an HTTP server with the real API handlers.
func newLab(t *T, dbpath string, lim int, repos map[string]*config.Repo) (*Lab, error) {
	cfg := &config.Config{DbPath: dbpath, Title: "T", Repos: repos, MaxConcurrentIndexers: lim,
		HealthCheckURI: "/healthz", ResultLimit: 100000}
	ss, errs, err := searcher.MakeAll(cfg)
	if err != nil {
		return nil, err
	}
	m := http.NewServeMux()
	api.Setup(m, ss, cfg.ResultLimit)
	tr := &http.Transport{MaxIdleConnsPerHost: 64, MaxConnsPerHost: 0}
	return &Lab{t: t, cfg: cfg, Searchers: ss, Errs: errs, srv: httptest.NewServer(m), client: &http.Client{Transport: tr, Timeout: 60 * time.Second}}, nil
}

// Close stops the searchers and reports whether all of them ended in time.
func (l *Lab) Close() bool {
	for _, s := range l.Searchers {
		s.Stop()
	}
	done := make(chan bool)
	go func() {
		for _, s := range l.Searchers {
			s.Wait()
		}
		close(done)
	}()
	ok := true
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		ok = false
	}
	l.client.CloseIdleConnections()
	l.srv.Close()
	return ok
}

type repoAnswer struct {
	Matches        []*index.FileMatch
	FilesWithMatch int
	Revision       string
}

type searchAnswer struct {
	Results map[string]*repoAnswer
	Error   string
	Stats   *struct{ FilesOpened, Duration int }
}

func getBody(c *http.Client, u string) (int, []byte, error) {
	resp, err := c.Get(u)
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, b, err
}

func httpSearch(c *http.Client, base, repos, q string, extra url.Values) (*searchAnswer, int, error) {
	v := url.Values{"repos": {repos}, "q": {q}}
	for k, x := range extra {
		v[k] = x
	}
	code, b, err := getBody(c, base+"/api/v1/search?"+v.Encode())
	if err != nil {
		return nil, code, err
	}
	var a searchAnswer
	if err := json.Unmarshal(b, &a); err != nil {
		return nil, code, fmt.Errorf("status %d, body %q: %v", code, head(b, 200), err)
	}
	return &a, code, nil
}

func (l *Lab) Search(repos, q string, extra url.Values) (*searchAnswer, error) {
	a, code, err := httpSearch(l.client, l.srv.URL, repos, q, extra)
	if err == nil && code != 200 {
		err = fmt.Errorf("status %d", code)
	}
	return a, err
}

// Push posts an update request; it reports whether it was answered ok.
func (l *Lab) Push(repos string) (bool, error) {
	resp, err := l.client.PostForm(l.srv.URL+"/api/v1/update", url.Values{"repos": {repos}})
	if err != nil {
		return false, err
	}
	defer resp.Body.Close()
	io.Copy(io.Discard, resp.Body)
	return resp.StatusCode == 200, nil
}

func (l *Lab) Webhook(full string) (bool, error) {
	b, _ := json.Marshal(map[string]interface{}{"repository": map[string]string{"name": "x", "full_name": full}})
	resp, err := l.client.Post(l.srv.URL+"/api/v1/github-webhook", "application/json", strings.NewReader(string(b)))
	if err != nil {
		return false, err
	}
	defer resp.Body.Close()
	io.Copy(io.Discard, resp.Body)
	return resp.StatusCode == 200, nil
}

// Tokens asks for the token query through the library and decides the revision.
func (l *Lab) Tokens(repo string) (int, string) {
	res, err := l.Searchers[repo].Search(tokenQuery, &index.SearchOptions{})
	if err != nil {
		return 0, "error: " + err.Error()
	}
	return checkTokens(res.Matches, res.Revision)
}

// waitRev waits until the repository answers from at least rev.
func (l *Lab) waitRev(repo string, rev int, grace time.Duration) (int, string) {
	end := time.Now().Add(grace)
	for {
		got, msg := l.Tokens(repo)
		if msg != "" || got >= rev {
			return got, msg
		}
		if time.Now().After(end) {
			return got, fmt.Sprintf("still at revision %d, want %d, after %v", got, rev, grace)
		}
		time.Sleep(500 * time.Microsecond)
	}
}

func idxDirs(db string) (out []string) {
	es, _ := os.ReadDir(db)
	for _, e := range es {
		if strings.HasPrefix(e.Name(), "idx-") {
			out = append(out, e.Name())
		}
	}
	return
}
