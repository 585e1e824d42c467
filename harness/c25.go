package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/web"
)

func init() {
	register(&Check{ID: "C25", Fn: c25, Bins: []string{"houndd"}, RaceBins: true,
		Rule:   "harness and houndd built with -race (which also turns on checkptr). Rounds of the whole server in one process: web.Start, probes during start-up, searcher.MakeAll over scripted repositories (some failing), ServeWithIndex, then searches (plain, filtered, paged, erroneous), excluded-files, repository, page and asset requests, pushes, webhooks, polling updates (some failing), Stop from several goroutines, searches after Stop; library callers without any synchronisation of their own run beside the HTTP clients, because socket I/O itself orders goroutines for the detector. Then the real houndd with git, local and hg repositories under load and SIGTERM. Every report whose stacks touch the repository's code is a violation; a fault kills the process and is one too; non-trivial = distinct (round, operation) run while an index was being replaced",
		Assume: []string{"the race detector sees only races on executed paths, within its history window"},
	})
}

func c25(t *T) {
	for i := 0; i < t.N(3, 60) && !t.Stop(); i++ {
		c25round(t, i)
	}
	for i := 0; i < t.N(1, 12) && !t.Stop(); i++ {
		c25real(t, i)
	}
	if t.Counter("swaps") < 5 || t.Counter("library_calls") == 0 || t.Counter("http_requests") == 0 {
		t.Inconclusive("the workload did not run")
	}
}

func c25round(t *T, i int) {
	t.Delays([]int64{0, 2000, 8000}[i%3])
	defer t.Delays(0)
	r := t.Rng("round", i)
	n := 3 + r.Intn(3)
	repos := map[string]*config.Repo{}
	rem := map[string]*Remote{}
	var names []string
	for k := 0; k < n; k++ {
		id := fmt.Sprintf("c25-%d-%d", i, k)
		m := newRemote(id, nil)
		m.Tree = func(rev int) Tree { return tokenTree(id, rev, 9, 20) }
		defer m.drop()
		var cnt int32
		m.Auto = func(string) []string { return []string{"d0/f000", fmt.Sprint(atomic.AddInt32(&cnt, 1))} }
		m.Before = func(kind, dir string) error {
			c := atomic.AddInt32(&cnt, 1)
			if kind == "pull" && c%7 == 0 {
				return fmt.Errorf("injected")
			}
			return nil
		}
		nm := fmt.Sprintf("repo%d", k)
		ms := 4
		if k%2 == 0 {
			ms = 1000
		}
		repos[nm] = fakeRepo(m, repoOpt{poll: k != 0, push: k != 1, ms: ms})
		rem[nm] = m
		names = append(names, nm)
	}
	bad := newRemote(fmt.Sprintf("c25-%d-bad", i), func(int) Tree { return Tree{} })
	bad.Before = func(string, string) error { return fmt.Errorf("injected") }
	defer bad.drop()
	repos["bad"] = fakeRepo(bad, repoOpt{poll: true, push: true})
	db := t.Dir("db")
	defer os.RemoveAll(db)
	cfg := &config.Config{DbPath: db, Title: "T", Repos: repos, MaxConcurrentIndexers: 2, HealthCheckURI: "/healthz", ResultLimit: 5000}
	addr := freePort()
	ws := web.Start(cfg, addr, false)
	base := "http://" + addr
	client := &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 32}}
	defer client.CloseIdleConnections()

	var stop, requests, calls int32
	var wg sync.WaitGroup
	get := func(u string) (int, []byte) {
		code, b, err := getBody(client, base+u)
		if err != nil {
			return 0, nil
		}
		return code, b
	}
	probe := func(k int) {
		defer wg.Done()
		r := rand.New(rand.NewSource(int64(i*100 + k)))
		m := 0
		for atomic.LoadInt32(&stop) == 0 {
			nm := names[r.Intn(len(names))]
			switch r.Intn(14) {
			case 0, 1, 2:
				get("/api/v1/search?" + url.Values{"repos": {[]string{"*", nm, nm + ",nope"}[r.Intn(3)]}, "q": {tokenQuery}, "ctx": {"3"}, "stats": {"1"}, "files": {[]string{"", "^d", "("}[r.Intn(3)]}}.Encode())
			case 3:
				get("/api/v1/search?repos=*&q=(")
			case 4, 5:
				get("/api/v1/excludes?repo=" + []string{nm, "nope"}[r.Intn(2)])
			case 6:
				get("/api/v1/repos")
			case 7:
				get([]string{"/", "/excluded_files.html", "/open_search.xml", "/css/hound.css", "/js/hound.js", "/none"}[r.Intn(6)])
			case 8:
				get("/healthz")
			case 9, 10:
				resp, err := client.PostForm(base+"/api/v1/update", url.Values{"repos": {[]string{"*", nm}[r.Intn(2)]}})
				if err == nil {
					io.Copy(io.Discard, resp.Body)
					resp.Body.Close()
				}
			case 11:
				resp, err := client.Post(base+"/api/v1/github-webhook", "application/json", strings.NewReader(`{"repository":{"full_name":"`+nm+`"}}`))
				if err == nil {
					io.Copy(io.Discard, resp.Body)
					resp.Body.Close()
				}
			case 12:
				rem[nm].Commit()
			case 13:
				time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
			}
			m++
		}
		atomic.AddInt32(&requests, int32(m))
	}
	for k := 0; k < 5; k++ {
		wg.Add(1)
		go probe(k)
	}
	ss, errs, err := searcher.MakeAll(cfg)
	if err != nil || len(errs) != 1 {
		t.Violate("startup", nil, "startup: %v, %v", err, errs)
		atomic.StoreInt32(&stop, 1)
		wg.Wait()
		return
	}
	delete(cfg.Repos, "bad") // as houndd does
	go ws.ServeWithIndex(ss)

	var libStop [6]int32
	var lwg sync.WaitGroup
	for k := range libStop {
		lwg.Add(1)
		go func(k int) {
			defer lwg.Done()
			// nothing in this loop synchronises with anything but the code under test
			r := rand.New(rand.NewSource(int64(i*1000 + k)))
			m := 0
			end := time.Now().Add(time.Duration(t.N(2200, 5000)) * time.Millisecond)
			for time.Now().Before(end) {
				s := ss[names[r.Intn(len(names))]]
				m++
				switch r.Intn(8) {
				case 0, 1, 2, 3:
					s.Search(tokenQuery, &index.SearchOptions{LinesOfContext: 2, MaxResults: r.Intn(3)})
				case 4:
					s.Search("filler", &index.SearchOptions{LinesOfContext: 1, Limit: 2, FileRegexp: "d[01]", IgnoreCase: true})
				case 5:
					s.Search("(", &index.SearchOptions{})
				case 6:
					s.GetExcludedFiles()
				case 7:
					s.Update()
				}
				if m%16 == 0 {
					time.Sleep(time.Millisecond)
				}
			}
			atomic.AddInt32(&calls, int32(m))
		}(k)
	}
	lwg.Wait()
	// stop from several places while requests go on
	var swg sync.WaitGroup
	for k := 0; k < 3; k++ {
		swg.Add(1)
		go func() {
			defer swg.Done()
			for _, s := range ss {
				s.Stop()
			}
			for _, s := range ss {
				s.Wait()
			}
		}()
	}
	done := make(chan bool)
	go func() { swg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Violate("stop", nil, "round %d: the searchers did not stop", i)
	}
	for _, nm := range names {
		if _, err := ss[nm].Search(tokenQuery, &index.SearchOptions{}); err != nil {
			t.Violate("after-stop", nil, "round %d: search after stop: %v", i, err)
		}
		ss[nm].Update()
	}
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	// restarts on the same data: many indexes claimed at once, stopped at once
	delete(cfg.Repos, "bad")
	for k := 0; k < 6; k++ {
		nm := fmt.Sprintf("extra%d", k)
		m := newRemote(fmt.Sprintf("c25-%d-x%d", i, k), func(rev int) Tree { return tokenTree("x", rev, 2, 1) })
		defer m.drop()
		cfg.Repos[nm] = fakeRepo(m, repoOpt{poll: true, push: true, ms: 1})
	}
	for _, m := range rem {
		m.mu.Lock()
		m.Before, m.Auto = nil, nil
		m.mu.Unlock()
	}
	cfg.MaxConcurrentIndexers = 8
	for k := 0; k < t.N(4, 8); k++ {
		again, errs, err := searcher.MakeAll(cfg)
		if err != nil || len(errs) > 0 {
			t.Violate("restart", nil, "restart: %v, %v", err, errs)
			return
		}
		t.Count("restarts", 1)
		for _, s := range again {
			stormOf(8, s.Stop)
		}
		for _, s := range again {
			s.Wait()
		}
	}
	for _, nm := range names {
		revs := map[int]bool{}
		for _, e := range rem[nm].Events() {
			if e.Rev > 0 {
				revs[e.Rev] = true
			}
			t.Distinct(i, nm, e.Kind, e.Rev, e.Err)
		}
		t.Count("swaps", len(revs)-1)
	}
	t.Eval(int(calls + requests))
	t.Count("library_calls", int(calls))
	t.Count("http_requests", int(requests))
	t.Count("rounds", 1)
	t.Sample(map[string]interface{}{"round": i, "repositories": n, "library_calls": calls, "http_requests": requests})
}

// stormOf calls f from n goroutines at the same moment.
func stormOf(n int, f func()) {
	var ready int32
	var wg sync.WaitGroup
	for j := 0; j < n; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			atomic.AddInt32(&ready, 1)
			for atomic.LoadInt32(&ready) < int32(n) {
			}
			f()
		}()
	}
	wg.Wait()
}

// c25real runs the real binary under load.
func c25real(t *T, i int) {
	r := t.Rng("real", i)
	dir := t.Dir("real")
	defer os.RemoveAll(dir)
	g := newGitRemote(t, "master")
	g.Commit(tokenTree("g", 1, 6, 5))
	local := filepath.Join(dir, "local")
	os.MkdirAll(local, 0755)
	writeTree(local, tokenTree("l", 1, 6, 5))
	hg := newHgCtl(t)
	hg.Commit("v1", tokenTree("h", 1, 6, 5))
	mk := func(vcs, url string, vc M) M {
		m := M{"url": url, "vcs": vcs, "ms-between-poll": 15, "enable-push-updates": true}
		if vc != nil {
			m["vcs-config"] = vc
		}
		return m
	}
	conf := writeConfig(dir, M{"dbpath": "db", "max-concurrent-indexers": 2, "repos": M{
		"g": mk("git", g.URL(), nil), "g2": mk("git", g.URL(), M{"detect-ref": true}),
		"l": mk("local", "file://"+local, M{"watch-changes": true}),
		"h": mk("hg", hg.Dir, nil), "broken": mk("git", "file:///nonexistent", nil), "unknown": mk("nope", "x", nil)}})
	h := startHoundd(t, conf, []string{fmt.Sprintf("VERIF_SCHED=%d", (i+1)%3*1500), "PATH=" + hgDir(t) + ":" + os.Getenv("PATH")})
	var stop int32
	var wg sync.WaitGroup
	var reqs int32
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			r := t.Rng("client", i, k)
			for atomic.LoadInt32(&stop) == 0 {
				switch r.Intn(6) {
				case 0, 1, 2:
					h.Search("*", tokenQuery, nil)
				case 3:
					getBody(h.client, h.Base+"/api/v1/excludes?repo="+[]string{"g", "l", "h", "x"}[r.Intn(4)])
				case 4:
					getBody(h.client, h.Base+[]string{"/", "/healthz", "/api/v1/repos"}[r.Intn(3)])
				case 5:
					h.Push("*")
				}
				atomic.AddInt32(&reqs, 1)
			}
		}(k)
	}
	fail := func(key, msg string) {
		t.Violate(key, nil, "houndd round %d: %s\n%s", i, msg, tail([]byte(h.Log()), 2500))
	}
	if !h.waitReady(60 * time.Second) {
		fail("real-start", "did not come up")
	} else {
		for k := 2; k < t.N(10, 40); k++ {
			g.Commit(tokenTree("g", k, 6, 5))
			hg.Commit(fmt.Sprintf("v%d", k), tokenTree("h", k, 6, 5))
			writeTree(local, tokenTree("l", k, 6, 5))
			time.Sleep(time.Duration(40+r.Intn(60)) * time.Millisecond)
			if h.exited() {
				break
			}
		}
		if h.exited() {
			fail("real-crash", fmt.Sprintf("died: %v", h.Err))
		} else if ok, msg := h.Term(60 * time.Second); !ok {
			fail("real-exit", msg)
		}
	}
	atomic.StoreInt32(&stop, 1)
	if !h.exited() {
		h.Kill()
	}
	wg.Wait()
	n := bytes.Count([]byte(h.Log()), []byte("Rebuilding"))
	t.Count("real_updates", n)
	t.Count("real_requests", int(reqs))
	t.Eval(int(reqs))
	h.cleanup()
}
