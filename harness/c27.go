package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/web"
)

func init() {
	register(&Check{ID: "C27", Fn: c27, Bins: []string{"houndd"},
		Rule:   "recorded probes (health check, searches, listings, pages, updates, malformed and unknown requests) from several clients, each with its begin and end time, checked offline against the release events of the startup: (a) the real server, its start held per repository by a stand-in hg, repositories succeeding and failing in generated orders, health-check URIs that coincide with API paths; (b) the server's own type in-process, hundreds of transitions under hammering clients with delays injected; non-trivial = distinct (URI, repositories, failures, order, overlap of requests with the transition)",
		Assume: []string{"between the release of the last repository and the first served request the server may answer either way; it must be ready within 60 s"},
	})
}

type c27probe struct {
	Kind       string
	Begin, End time.Time
	Code       int
	Err        string
	Body       []byte
}

type c27log struct {
	mu sync.Mutex
	ps []c27probe
}

var c27kinds = []string{"health", "health-query", "health-post", "health-head", "search", "repos", "page", "excludes", "update", "opensearch", "unknown", "bad", "asset", "near-health",
	"health-options", "search-options", "repos-delete", "page-head"}

// c27ask performs one probe.
func c27ask(c *http.Client, base, uri, kind string) c27probe {
	p := c27probe{Kind: kind, Begin: time.Now()}
	u, method := base, "GET"
	switch kind {
	case "health":
		u += uri
	case "health-query":
		u += uri + "?full=1&x"
	case "health-post":
		u += uri
		method = "POST"
	case "health-head":
		u += uri
		method = "HEAD"
	case "health-options":
		u += uri
		method = "OPTIONS"
	case "search-options":
		u += "/api/v1/search?repos=*&q=common"
		method = "OPTIONS"
	case "repos-delete":
		u += "/api/v1/repos"
		method = "DELETE"
	case "page-head":
		u += "/"
		method = "HEAD"
	case "search":
		u += "/api/v1/search?repos=*&q=" + url.QueryEscape("common")
	case "repos":
		u += "/api/v1/repos"
	case "page":
		u += "/"
	case "excludes":
		u += "/api/v1/excludes?repo=a"
	case "update":
		u += "/api/v1/update"
		method = "POST"
	case "opensearch":
		u += "/open_search.xml"
	case "unknown":
		u += "/no/such"
	case "bad":
		u += "/api/v1/search?q=(&repos=*&rng=zz"
	case "asset":
		u += "/js/signal.js"
	case "near-health":
		u += strings.TrimSuffix(uri, "/") + "/more"
	}
	var body io.Reader
	if method == "POST" {
		body = strings.NewReader("repos=nosuch")
	}
	req, err := http.NewRequest(method, u, body)
	if err != nil {
		p.Err = err.Error()
		return p
	}
	req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	resp, err := c.Do(req)
	if err == nil {
		p.Body, err = io.ReadAll(resp.Body)
		resp.Body.Close()
		p.Code = resp.StatusCode
	}
	p.End = time.Now()
	if err != nil {
		p.Err = err.Error()
	}
	return p
}

// isHealth: the probe is one of the health check, given its URI
func c27health(kind, uri string) bool {
	switch kind {
	case "health", "health-query", "health-post", "health-head", "health-options":
		return true
	case "search", "bad", "search-options":
		return uri == "/api/v1/search"
	case "repos", "repos-delete":
		return uri == "/api/v1/repos"
	case "page", "page-head":
		return uri == "/"
	case "update":
		return uri == "/api/v1/update"
	}
	return false
}

// c27clients runs probing clients until stop is closed.
func c27clients(t *T, base, uri string, n int, seed int, stop chan bool) (*c27log, *sync.WaitGroup) {
	l := &c27log{}
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		k := k
		wg.Add(1)
		r := t.Rng("client", seed, k)
		go func() {
			defer wg.Done()
			tr := &http.Transport{MaxIdleConnsPerHost: 2, DisableKeepAlives: k%3 == 2}
			c := &http.Client{Transport: tr, Timeout: 60 * time.Second}
			defer tr.CloseIdleConnections()
			for {
				select {
				case <-stop:
					return
				default:
				}
				kind := c27kinds[r.Intn(len(c27kinds))]
				if r.Intn(3) == 0 {
					kind = []string{"health", "search"}[r.Intn(2)]
				}
				p := c27ask(c, base, uri, kind)
				l.mu.Lock()
				l.ps = append(l.ps, p)
				l.mu.Unlock()
				if r.Intn(4) == 0 {
					time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
				}
			}
		}()
	}
	return l, &wg
}

// c27judge checks a history. held: before this time not every repository can
// have been indexed; must: after this time requests are served (zero: unknown).
func c27judge(t *T, ctx, uri string, ps []c27probe, held time.Time, want []string) bool {
	sort.Slice(ps, func(i, j int) bool { return ps[i].Begin.Before(ps[j].Begin) })
	var listening, firstServed time.Time // ends of the first answer, the first served one
	for _, p := range ps {
		if p.Err == "" && (listening.IsZero() || p.End.Before(listening)) {
			listening = p.End
		}
		if p.Err == "" && !c27health(p.Kind, uri) && p.Code != 503 && (firstServed.IsZero() || p.End.Before(firstServed)) {
			firstServed = p.End
		}
	}
	overlap, before, after := 0, 0, 0
	for _, p := range ps {
		d := fmt.Sprintf("%s: %s probe: status %d %s", ctx, p.Kind, p.Code, p.Err)
		if p.Err != "" {
			if !listening.IsZero() && p.Begin.After(listening) {
				t.Violate("no-answer", nil, "%s (%.1f ms after the first answer)", d, ms(p.Begin.Sub(listening)))
				return false
			}
			continue
		}
		if c27health(p.Kind, uri) {
			if p.Code != 200 {
				t.Violate("health", nil, "%s, body %q", d, head(p.Body, 60))
				return false
			}
			t.Count("health_answers", 1)
			continue
		}
		switch {
		case p.Code == 503:
			before++
			if !firstServed.IsZero() && p.Begin.After(firstServed) {
				t.Violate("unready-again", nil, "%s, begun %.2f ms after another request had been served", d, ms(p.Begin.Sub(firstServed)))
				return false
			}
			if p.End.After(firstServed) && !firstServed.IsZero() {
				overlap++
			}
		default:
			after++
			if p.End.Before(held) {
				t.Violate("early", nil, "%s, served %.1f ms before the last repository could be indexed, body %q", d, ms(held.Sub(p.End)), head(p.Body, 200))
				return false
			}
			if p.Kind == "search" {
				var a searchAnswer
				if err := json.Unmarshal(p.Body, &a); err != nil || p.Code != 200 || a.Error != "" {
					t.Violate("first-search", nil, "%s, body %q", d, head(p.Body, 200))
					return false
				}
				if got := keysOfAnswers(&a); strings.Join(got, ",") != strings.Join(want, ",") {
					t.Violate("first-search", nil, "%s: answers from %v, want %v", d, got, want)
					return false
				}
				t.Count("searches_checked", 1)
			}
			if p.Kind == "repos" {
				var m map[string]interface{}
				if err := json.Unmarshal(p.Body, &m); err != nil || p.Code != 200 || strings.Join(keysOf(m), ",") != strings.Join(want, ",") {
					t.Violate("first-repos", nil, "%s: %q, want %v", d, head(p.Body, 200), want)
					return false
				}
				t.Count("listings_checked", 1)
			}
			if (p.Kind == "page" || p.Kind == "asset" || p.Kind == "opensearch") && p.Code != 200 {
				t.Violate("first-page", nil, "%s, body %q", d, head(p.Body, 100))
				return false
			}
		}
	}
	t.Count("probes", len(ps))
	t.Count("refused", before)
	t.Count("served", after)
	t.Count("overlapping", overlap)
	t.Distinct(uri, len(want), before > 0, after > 0, overlap)
	t.Eval(1)
	if firstServed.IsZero() {
		t.Violate("never-ready", nil, "%s: no request was ever served", ctx)
		return false
	}
	return true
}

func ms(d time.Duration) float64 { return float64(d.Microseconds()) / 1000 }

var c27uris = []string{"", "/healthz", "/", "/api/v1/search", "/status/ok", "/healthz/", "/api/v1/repos", "/héalth", "/js/hound.js", "/api/v1/update", "/a b"}

func c27(t *T) {
	t.Par(t.N(12, 150), 3, func(i int) { c27server(t, i) })
	c27process(t)
	if !t.Stop() && (t.Counter("searches_checked") == 0 || t.Counter("failed_repos") == 0) {
		t.Inconclusive("no served search or failing repository was seen")
	}
}

func c27server(t *T, i int) {
	r := t.Rng("server", i)
	top := t.Dir("ready")
	defer os.RemoveAll(top)
	names := []string{"a", "b", "c", "d", "e"}[:1+r.Intn(5)]
	repos := M{}
	ctl := map[string]*HgCtl{}
	var want []string
	for _, n := range names {
		h := newHgCtl(t)
		defer os.RemoveAll(h.Dir)
		tr := Tree{"f.txt": "common line of " + n + "\n"}
		if r.Intn(3) == 0 {
			for k := 0; k < 300; k++ {
				tr[fmt.Sprintf("g%d", k)] = genText(r, Style{}, 60)
			}
		}
		h.Commit("r0", tr)
		h.set("hold", true)
		if r.Intn(4) == 0 {
			h.set("fail", true)
			t.Count("failed_repos", 1)
		} else {
			want = append(want, n)
		}
		ctl[n] = h
		repos[n] = M{"url": h.Dir, "vcs": "hg"}
	}
	uri := c27uris[i%len(c27uris)]
	cfg := M{"dbpath": "db", "repos": repos, "max-concurrent-indexers": len(names)}
	if uri != "" {
		cfg["health-check-uri"] = uri
	} else {
		uri = "/healthz"
	}
	env := []string{"PATH=" + hgDir(t) + ":" + os.Getenv("PATH")}
	if i%2 == 1 {
		env = append(env, "VERIF_SCHED=20000")
	}
	h := startHoundd(t, writeConfig(top, cfg), env)
	defer h.Kill()
	ctx := fmt.Sprintf("server %d (health check %q, repositories %v, of which %v start)", i, uri, names, want)
	// the path as it goes over the wire
	wire := (&url.URL{Path: uri}).EscapedPath()
	stop := make(chan bool)
	log, wg := c27clients(t, h.Base, wire, 5, i, stop)
	// release the repositories in some order
	var held time.Time
	for k, n := range r.Perm(len(names)) {
		time.Sleep(time.Duration(5+r.Intn(60)) * time.Millisecond)
		if k == 0 {
			// the health check answers while every repository is held
			end := time.Now().Add(30 * time.Second)
			for {
				if p := c27ask(h.client, h.Base, wire, "health"); p.Code == 200 {
					break
				} else if time.Now().After(end) || h.exited() {
					t.Violate("health-late", h.Log(), "%s: the health check is not answered during the start: %d %s", ctx, p.Code, p.Err)
					close(stop)
					wg.Wait()
					return
				}
				time.Sleep(2 * time.Millisecond)
			}
		}
		held = time.Now()
		ctl[names[n]].set("hold", false)
	}
	ready := false
	kind := "opensearch"
	for end := time.Now().Add(60 * time.Second); time.Now().Before(end) && !h.exited(); time.Sleep(3 * time.Millisecond) {
		if p := c27ask(h.client, h.Base, wire, kind); p.Err == "" && p.Code != 503 {
			ready = true
			break
		}
	}
	time.Sleep(50 * time.Millisecond)
	close(stop)
	wg.Wait()
	if !ready {
		t.Violate("never-ready", h.Log(), "%s: not ready within 60 s of the release of the last repository: %s", ctx, tail([]byte(h.Log()), 800))
		return
	}
	log.mu.Lock()
	ps := log.ps
	log.mu.Unlock()
	sort.Strings(want)
	c27judge(t, ctx, uri, ps, held, want)
	t.Count("server_starts", 1)
	if i < 3 {
		t.Sample(map[string]interface{}{"ctx": ctx, "probes": len(ps)})
	}
}

// c27process: many transitions of the server type, with delays in it
func c27process(t *T) {
	top := t.Dir("proc")
	repos := map[string]*config.Repo{}
	var want []string
	for k := 0; k < 3; k++ {
		d := filepath.Join(top, fmt.Sprintf("src%d", k))
		writeTree(d, Tree{"f.txt": "common line\n"})
		n := string(rune('a' + k))
		repos[n] = &config.Repo{Url: "file://" + d, Vcs: "local", UrlPattern: &config.UrlPattern{}, MsBetweenPolls: 1 << 30}
		want = append(want, n)
	}
	os.MkdirAll(filepath.Join(top, "db"), 0755)
	lab, err := newLab(t, filepath.Join(top, "db"), 2, repos)
	if err != nil || len(lab.Errs) > 0 {
		t.Inconclusive("%v", err)
		return
	}
	defer lab.Close()
	t.Delays(8000)
	defer t.Delays(0)
	t.Par(t.N(150, 2500), 3, func(i int) {
		r := t.Rng("proc", i)
		uri := c27uris[1+i%(len(c27uris)-1)]
		cfg := &config.Config{DbPath: filepath.Join(top, "db"), Title: "T", Repos: repos, MaxConcurrentIndexers: 1, HealthCheckURI: uri, ResultLimit: 1000}
		addr := freePort()
		s := web.Start(cfg, addr, false)
		stop := make(chan bool)
		// what is done about once in a transition is made slow
		t.DelayRare(3, uint32(2*i+10))
		log, wg := c27clients(t, "http://"+addr, (&url.URL{Path: uri}).EscapedPath(), 6, 1000+i, stop)
		time.Sleep(time.Duration(r.Intn(12000)) * time.Microsecond)
		held := time.Now()
		failed := make(chan error, 1)
		go func() { failed <- s.ServeWithIndex(lab.Searchers) }()
		end := time.Now().Add(30 * time.Second)
		c := &http.Client{Timeout: 30 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
		for time.Now().Before(end) && len(failed) == 0 {
			if p := c27ask(c, "http://"+addr, uri, "opensearch"); p.Err == "" && p.Code != 503 {
				break
			}
			time.Sleep(time.Millisecond)
		}
		time.Sleep(time.Duration(5+r.Intn(20)) * time.Millisecond)
		close(stop)
		wg.Wait()
		select {
		case err := <-failed:
			// the port may have been taken by another process
			t.Count("not_listening", 1)
			_ = err
			return
		default:
		}
		ctx := fmt.Sprintf("in-process transition %d (health check %q)", i, uri)
		if c27judge(t, ctx, uri, log.ps, held, want) {
			t.Count("transitions", 1)
		}
	})
}
