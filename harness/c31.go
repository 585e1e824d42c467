package main

import (
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"sync"
	"time"

	"github.com/hound-search/hound/api"
	cindex "github.com/hound-search/hound/codesearch/index"
	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
)

func init() {
	register(&Check{ID: "C31", Fn: c31,
		Rule:   "the heap is sampled every few milliseconds while the real code (a) searches generated texts and file names with patterns that have a state of their own for nearly every position, texts of many times the bound with and without matches outside the requested range, (b) builds indexes of trees and posting sets many times larger than the bound; live memory after a collection is compared between early and late points of (c) thousands of distinct requests to the real API handlers, refused ones and ones of clients that go away included, (d) rounds of update and re-index; non-trivial = distinct (pattern, options) searched with a sampled peak, distinct checkpoints",
		Assume: []string{"memory means the Go heap; the mapped index files are the page cache's"},
	})
}

// heap tells the bytes of heap objects (live and not yet swept).
func heap() int64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return int64(s[0].Value.Uint64())
}

// marked tells the bytes that the last collection found to be live.
func marked() int64 {
	s := []metrics.Sample{{Name: "/gc/heap/live:bytes"}}
	metrics.Read(s)
	return int64(s[0].Value.Uint64())
}

// live tells the bytes of live heap objects.
func live() int64 {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	debug.FreeOSMemory()
	return heap()
}

// peak runs f and tells by how much the heap exceeded its size before at most.
// If the excess reaches limit it calls over, once, while f goes on.
func peak(limit int64, over func(int64), f func()) (max int64, samples int) {
	base := live()
	// garbage is collected in time, so that only what is held counts
	defer debug.SetMemoryLimit(debug.SetMemoryLimit(base + limit*3/4))
	stop, done := make(chan bool), make(chan bool)
	go func() {
		defer close(done)
		told := false
		for {
			h := heap() - base
			// garbage does not count, and may pile up where the collector gets little time
			for k := 0; k < 3 && h > limit; k++ {
				runtime.GC()
				h = min(h, marked()-base)
			}
			if h > max {
				max = h
			}
			samples++
			if max > limit && !told {
				told = true
				over(max)
			}
			select {
			case <-stop:
				return
			case <-time.After(3 * time.Millisecond):
			}
		}
	}()
	f()
	close(stop)
	<-done
	return
}

const mb = 1 << 20

func c31(t *T) {
	var t0 time.Time
	// peaks are measured with a collector that keeps close to what is live
	debug.SetGCPercent(60)
	t0 = time.Now()
	c31search(t)
	t.Info("s_search", time.Since(t0).Seconds())
	debug.SetGCPercent(400)
	t0 = time.Now()
	c31requests(t)
	t.Info("s_requests", time.Since(t0).Seconds())
	t0 = time.Now()
	c31updates(t)
	c31pending(t)
	t.Info("s_updates", time.Since(t0).Seconds())
	debug.SetGCPercent(20)
	t0 = time.Now()
	c31build(t)
	t.Info("s_build", time.Since(t0).Seconds())
	t0 = time.Now()
	c31spill(t)
	t.Info("s_spill", time.Since(t0).Seconds())
	for _, c := range []string{"searches", "peak_samples", "requests", "updates", "pending_requests", "trees", "spilled_entries"} {
		if t.Counter(c) == 0 && !t.Stop() {
			t.Inconclusive("no %s", c)
		}
	}
}

// the letters of a text, some of them frequent
const c31letters = "etaoin shrdlu cmfwypvbgkjqxz"

func c31prose(r *rand.Rand, n, line int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = c31letters[int(float64(len(c31letters))*r.Float64()*r.Float64())]
		if r.Intn(line) == 0 {
			b[i] = '\n'
		}
	}
	return string(b)
}

// patterns with very many states
func c31pattern(r *rand.Rand) string {
	k := 16 + r.Intn(16)
	any := []string{"[a-z _]", "[\\x00-\\x7f]", "[^A-Z]", "."}[r.Intn(4)]
	if len(any) == 1 || any[1] == '^' {
		k = 14 + r.Intn(4) // many instructions each
	}
	x := []string{"e", "[aeiou]", "(t|a)", "a?e", "[e-t]", "(?i:E)", "\\bt"}[r.Intn(7)]
	y := []string{"Q", "[0-9]", "Z$", "\\x00", "ZZ|e[a-z _]{20}Y"}[r.Intn(5)]
	switch r.Intn(4) {
	case 0:
		return fmt.Sprintf("%s%s{%d,%d}%s", x, any, k, k+1+r.Intn(4), y)
	case 1:
		return fmt.Sprintf("^.*%s%s{%d}%s", x, any, k, y)
	case 2:
		return fmt.Sprintf("(%s%s{%d}|o%s{%d})%s", x, any, k, any, k+3, y)
	}
	return fmt.Sprintf("%s%s{%d}%s", x, any, k, y)
}

func c31search(t *T) {
	r := t.Rng("search")
	run := func(what string, idx *index.Index, pat string, opt index.SearchOptions, limit int64) bool {
		t.Current("%s: %q %+v", what, pat, opt)
		var res *index.SearchResponse
		var err error
		t0 := time.Now()
		max, n := peak(limit, func(m int64) {
			t.Violate("search-peak", pat, "%s: the search for %q (%+v) takes more than %d MB (limit %d MB)", what, pat, opt, m/mb, limit/mb)
			t.flush()
		}, func() { res, err = idx.Search(pat, &opt) })
		if err != nil {
			t.Violate("search-error", pat, "%s: %q: %v", what, pat, err)
			return false
		}
		t.Count("searches", 1)
		t.Count("peak_samples", n)
		t.Max("search_peak_kb", max/1024)
		t.Eval(1)
		t.Distinct(what, pat, fmt.Sprintf("%+v", opt))
		t.Sample(M{"search": what, "pattern": pat, "peak_kb": max / 1024, "ms": time.Since(t0).Milliseconds(), "files_opened": res.FilesOpened, "files_found": res.FilesWithMatch})
		return max <= limit
	}
	// a small text whose every position is a state of its own
	tr := Tree{}
	for i := 0; i < 40; i++ {
		tr[fmt.Sprintf("f%02d", i)] = c31prose(r, t.N(1500, 12000), []int{40, 400, 1 << 30}[i%3])
	}
	idx, _, err := buildIndex(t, tr, &index.IndexOptions{})
	if err != nil {
		t.Violate("build", nil, "%v", err)
		return
	}
	tr = nil
	for i := 0; i < t.N(6, 30) && !t.Stop(); i++ {
		if !run(fmt.Sprintf("%d positions", 40*t.N(1500, 12000)), idx, c31pattern(r), index.SearchOptions{IgnoreCase: r.Intn(3) == 0, MaxResults: 1000}, 40*mb) {
			break
		}
	}
	idx.Close()
	// names in place of texts
	tr = Tree{}
	for i := 0; i < 1000; i++ {
		n := strings.Map(func(c rune) rune {
			if c == '\n' || c == ' ' {
				return '_'
			}
			return c
		}, c31prose(r, 50+r.Intn(50), 50))
		tr[fmt.Sprintf("%s%d", n, i)] = "same text\n"
	}
	if idx, _, err = buildIndex(t, tr, &index.IndexOptions{}); err != nil {
		t.Violate("build", nil, "%v", err)
		return
	}
	tr = nil
	for i := 0; i < t.N(4, 12) && !t.Stop(); i++ {
		o := index.SearchOptions{MaxResults: 10}
		if i%2 == 0 {
			o.FileRegexp = c31pattern(r)
		} else {
			o.ExcludeFileRegexp = c31pattern(r)
		}
		if !run("1000 names", idx, "same", o, 40*mb) {
			break
		}
	}
	idx.Close()
	// much text
	tr = Tree{}
	block := c31prose(r, 100000, 60)
	for i := 0; i < t.N(600, 6000); i++ {
		tr[fmt.Sprintf("d%d/f%d", i%10, i)] = block + fmt.Sprintf("number %d\n", i)
	}
	if idx, _, err = buildIndex(t, tr, &index.IndexOptions{}); err != nil {
		t.Violate("build", nil, "%v", err)
		return
	}
	defer idx.Close()
	many := len(tr)
	tr = nil // what is live decides when the collector runs
	for _, c := range []struct {
		p string
		o index.SearchOptions
	}{
		{"e[0-9]?Q", index.SearchOptions{}},
		{"e", index.SearchOptions{Limit: 1}},
		{"e", index.SearchOptions{Limit: 1, LinesOfContext: 20, Offset: 700}},
		{"e", index.SearchOptions{MaxResults: 5}},
		{"NUMBER 77$", index.SearchOptions{IgnoreCase: true}},
		{"number", index.SearchOptions{FileRegexp: "Q"}},
		{"number \\d+$", index.SearchOptions{Limit: 100, Offset: 3}},
	} {
		if t.Stop() || !run(fmt.Sprintf("%d files of 100 kB", many), idx, c.p, c.o, 40*mb) {
			return
		}
	}
}

// a client that goes away while the answer is written
type goneWriter struct {
	h    http.Header
	left int
}

func (g *goneWriter) Header() http.Header { return g.h }
func (g *goneWriter) WriteHeader(int)     {}
func (g *goneWriter) Write(p []byte) (int, error) {
	if g.left -= len(p); g.left < 0 {
		return 0, fmt.Errorf("gone")
	}
	return len(p), nil
}

// c31requests: thousands of different requests leave nothing behind
func c31requests(t *T) {
	r := t.Rng("requests")
	top := t.Dir("req")
	repos := map[string]*config.Repo{}
	for k := 0; k < 24; k++ {
		dir := filepath.Join(top, fmt.Sprint("src", k))
		tr := Tree{"bin": "\xff\xfe"}
		for i := 0; i < 12-min(k, 9); i++ {
			tr[fmt.Sprintf("d%d/file%d.txt", i%3, i)] = c31prose(r, 3000, 40)
		}
		writeTree(dir, tr)
		p := config.UrlPattern{BaseUrl: "{url}"}
		repos[fmt.Sprint("r", k)] = &config.Repo{Url: "file://" + dir, Vcs: "local", UrlPattern: &p, MsBetweenPolls: 1 << 30, EnablePushUpdates: boolp(k == 0)}
	}
	lab, err := newLab(t, t.Dir("db"), 2, repos)
	if err != nil || len(lab.Errs) > 0 {
		t.Violate("start", nil, "%v %v", err, lab)
		return
	}
	defer lab.Close()
	m := http.NewServeMux()
	api.Setup(m, lab.Searchers, 1000)
	one := func(r *rand.Rand, i int) {
		v := url.Values{"q": {c31prose(r, 3+r.Intn(5), 1<<30) + []string{"", ".*", "[a-c]+x?", fmt.Sprint("|", i)}[r.Intn(4)]}}
		if r.Intn(8) == 0 {
			v.Set("q", "("+v.Get("q"))
		}
		v.Set("repos", []string{"*", "r0", "r1", "nowhere", fmt.Sprint("r", i)}[r.Intn(5)])
		if r.Intn(3) == 0 {
			v.Set("files", fmt.Sprintf("[a-z%d]*%d|e", i%10, r.Intn(12)))
		}
		if r.Intn(4) == 0 {
			v.Set("excludeFiles", fmt.Sprintf("d%d/file%d", r.Intn(3), i))
		}
		v.Set("rng", fmt.Sprintf("%d:%d", r.Intn(4), 1+r.Intn(20)))
		v.Set("ctx", fmt.Sprint(r.Intn(5)))
		v.Set("stats", "1")
		if r.Intn(2) == 0 {
			v.Set("i", "1")
		}
		method, path := "GET", "/api/v1/search?"+v.Encode()
		var body string
		switch r.Intn(20) {
		case 0:
			path = "/api/v1/repos"
		case 1:
			path = "/api/v1/excludes?repo=" + fmt.Sprint("r", r.Intn(3))
		case 2:
			method, path = "POST", fmt.Sprintf("/api/v1/update?repos=%s", []string{"r0", "r1", "*", fmt.Sprint("x", i)}[r.Intn(4)])
		case 3:
			method, path = "POST", "/api/v1/github-webhook"
			body = fmt.Sprintf(`{"repository":{"full_name":"r%d","x":%q}}`, r.Intn(3), strings.Repeat("x", r.Intn(2000)))
		}
		q := httptest.NewRequest(method, path, strings.NewReader(body))
		if r.Intn(10) == 0 {
			func() {
				// net/http does the same
				defer func() { recover() }()
				m.ServeHTTP(&goneWriter{h: http.Header{}, left: r.Intn(3000)}, q)
			}()
			t.Count("gone_clients", 1)
		} else {
			m.ServeHTTP(httptest.NewRecorder(), q)
		}
		t.Count("requests", 1)
	}
	round := func(tag string, n int) {
		const w = 6
		var wg sync.WaitGroup
		for k := 0; k < w; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				r := t.Rng("requests", tag, k)
				for i := k; i < n; i += w {
					one(r, i)
					t.beat()
				}
			}(k)
		}
		wg.Wait()
	}
	n := t.N(3000, 20000)
	c31growth(t, "requests", n, 40, 150<<10, func(k int) { round(fmt.Sprint(k), n) })
}

// mapped tells the number of mapped and open files.
func mapped() (n int) {
	b, _ := os.ReadFile("/proc/self/maps")
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, " /") {
			n++
		}
	}
	es, _ := os.ReadDir("/proc/self/fd")
	return n + len(es)
}

// c31growth performs five rounds of n steps and compares the live memory after
// the second with that after the last two.
func c31growth(t *T, what string, n int, perStep, slack int64, round func(k int)) {
	var at []int64
	var gs, ms []int
	for k := 0; k < 5 && !t.Stop(); k++ {
		t.Current("%s, round %d", what, k)
		round(k)
		time.Sleep(50 * time.Millisecond)
		at = append(at, live())
		gs = append(gs, runtime.NumGoroutine())
		ms = append(ms, mapped())
		t.Eval(1)
		t.Distinct(what, k)
	}
	if len(at) < 5 {
		return
	}
	grown := at[4] - at[1]
	if g := at[3] - at[1]; g < grown {
		grown = g
	}
	var kb []int64
	for _, a := range at {
		kb = append(kb, a/1024)
	}
	t.Info("live_kb_after_"+what, kb)
	t.Info("goroutines_after_"+what, gs)
	if limit := slack + int64(2*n)*perStep; grown > limit {
		t.Violate("growth:"+what, kb, "live memory after each round of %d %s: %v kB: it grows by more than %d bytes each", n, what, kb, perStep)
	}
	t.Info("files_held_after_"+what, ms)
	if ms[4]-ms[1] > n/2+6 && ms[3]-ms[1] > n/4+6 {
		t.Violate("files:"+what, ms, "mapped and open files after each round of %d %s: %v", n, what, ms)
	}
	if gs[4]-gs[1] > n/2 || gs[3]-gs[1] > n/2 && gs[4]-gs[1] > 20 {
		t.Violate("goroutines:"+what, gs, "goroutines after each round of %d %s: %v", n, what, gs)
	}
}

// c31updates: rounds of re-indexing leave nothing behind
func c31updates(t *T) {
	rem := newRemote("c31", func(rev int) Tree {
		tr := tokenTree("c31", rev, 9, 3)
		for i := 0; i < 40; i++ {
			tr[fmt.Sprintf("x%d/rev%d-file%d", i%4, rev, i)] = c31prose(rand.New(rand.NewSource(int64(rev*100+i))), 2000, 40)
		}
		return tr
	})
	defer rem.drop()
	lab, err := newLab(t, t.Dir("db"), 1, map[string]*config.Repo{"r": fakeRepo(rem, repoOpt{push: true})})
	if err != nil || len(lab.Errs) > 0 {
		t.Violate("start", nil, "%v %v", err, lab)
		return
	}
	defer lab.Close()
	n := t.N(12, 80)
	c31growth(t, "updates", n, 4<<10, 100<<10, func(k int) {
		for i := 0; i < n; i++ {
			if i%4 == 3 {
				// fails
				rem.mu.Lock()
				rem.After = func(kind, dir string, rev int) error { return fmt.Errorf("no") }
				rem.mu.Unlock()
				stamp := tick()
				lab.Searchers["r"].Update()
				for w := 0; rem.PullsAfter(stamp) == 0 && w < 2000; w++ {
					time.Sleep(5 * time.Millisecond)
				}
				rem.mu.Lock()
				rem.After = nil
				rem.mu.Unlock()
			}
			rev := rem.Commit()
			for w := 0; ; w++ {
				lab.Searchers["r"].Update()
				a, err := lab.Searchers["r"].Search(tokenQuery, &index.SearchOptions{})
				if err == nil && a.Revision == revName(rev) {
					break
				}
				if w > 4000 {
					t.Inconclusive("update %d is not done", rev)
					return
				}
				time.Sleep(5 * time.Millisecond)
			}
			rem.mu.Lock()
			rem.events = nil
			rem.mu.Unlock()
			t.Count("updates", 1)
		}
	})
}

// c31pending: requests for updates while one is under way, in front of a remote that
// does not answer, are coalesced and not kept each.
func c31pending(t *T) {
	rem := newRemote("c31p", func(rev int) Tree { return tokenTree("c31p", rev, 3, 0) })
	defer rem.drop()
	other := newRemote("c31q", func(rev int) Tree { return tokenTree("c31q", rev, 3, 0) })
	defer other.drop()
	lab, err := newLab(t, t.Dir("db"), 1, map[string]*config.Repo{"r": fakeRepo(rem, repoOpt{push: true, poll: true, ms: 1}), "org/r": fakeRepo(other, repoOpt{push: true})})
	if err != nil || len(lab.Errs) > 0 {
		t.Violate("start", nil, "%v %v", err, lab)
		return
	}
	held, release := make(chan bool), make(chan bool)
	var once sync.Once
	rem.mu.Lock()
	rem.Before = func(kind, dir string) error {
		if kind == "pull" {
			once.Do(func() { close(held) })
			<-release
		}
		return nil
	}
	rem.mu.Unlock()
	<-held
	m := http.NewServeMux()
	api.Setup(m, lab.Searchers, 1000)
	n := t.N(1500, 6000)
	c31growth(t, "pending-requests", n, 20, 100<<10, func(k int) {
		for i := 0; i < n; i++ {
			w := httptest.NewRecorder()
			if i%3 == 0 {
				m.ServeHTTP(w, httptest.NewRequest("POST", "/api/v1/github-webhook", strings.NewReader(`{"repository":{"full_name":"org/r"}}`)))
			} else {
				m.ServeHTTP(w, httptest.NewRequest("POST", "/api/v1/update?repos="+[]string{"r", "*"}[i%2], nil))
			}
			if w.Code != 200 {
				t.Violate("refused", w.Body.String(), "an update request while one is under way is answered %d", w.Code)
				return
			}
			t.Count("pending_requests", 1)
		}
		t.beat()
	})
	close(release)
	if !lab.Close() {
		t.Violate("stop", nil, "the searchers did not stop after the held update")
	}
}

// c31build: a tree much larger than the memory it may take
func c31build(t *T) {
	r := t.Rng("build")
	block := c31prose(r, 300000, 60)
	for k, n := range []int{1, t.N(800, 2500)} {
		dir := t.Dir("tree")
		tr := Tree{}
		for i := 0; i < n; i++ {
			tr[fmt.Sprintf("d%d/f%d", i%7, i)] = block
			if i%10 == 0 {
				tr[fmt.Sprintf("d%d/bin%d", i%7, i)] = "\xff" + block
			}
		}
		writeTree(dir, tr)
		tr = nil
		dst := filepath.Join(t.Dir("out"), "idx")
		// the set of trigrams, the buffer of posting entries and what is needed to
		// sort it, and what the collector leaves for later
		limit := int64(64+64+64) * mb * 3 / 2
		var err error
		var ref *index.IndexRef
		max, samples := peak(limit, func(m int64) {
			t.Violate("build-peak", n, "indexing %d files of 300 kB takes more than %d MB", n, m/mb)
			t.flush()
		}, func() { ref, err = index.Build(&index.IndexOptions{}, dst, dir, "u", "r") })
		if err != nil {
			t.Violate("build", nil, "%v", err)
			return
		}
		ref.Remove()
		t.Count("trees", 1)
		t.Count("peak_samples", samples)
		t.Max(fmt.Sprintf("build%d_peak_mb", k), max/mb)
		t.Eval(1)
		t.Distinct("build", n)
	}
}

// c31spill: more posting entries than may be held
func c31spill(t *T) {
	r := t.Rng("spill")
	const al = "abcdefghijklmnopqrstuvwxyz0123456789 \n.;"
	limit := int64(64+64+64) * mb * 3 / 2
	total := 0
	max, n := peak(limit, func(m int64) {
		t.Violate("spill-peak", nil, "writing an index of %d entries takes more than %d MB", total, m/mb)
		t.flush()
	}, func() {
		w := cindex.Create(filepath.Join(t.Dir("ci"), "tri"))
		b := make([]byte, 22500)
		for i := 0; total < t.N(50, 120)*1000*1000; i++ {
			for j := range b {
				b[j] = al[r.Intn(len(al))]
			}
			if why := w.Add(fmt.Sprintf("s/%d", i), strings.NewReader(string(b))); why != "" {
				t.Violate("accept", nil, "file %d refused: %s", i, why)
				break
			}
			total += 18900 // nearly all of the trigrams of such a file are distinct
			t.beat()
		}
		w.Flush()
		w.Close()
	})
	t.Count("spilled_entries", total)
	t.Count("peak_samples", n)
	t.Max("spill_peak_mb", max/mb)
	t.Eval(1)
	t.Distinct("spill")
}
