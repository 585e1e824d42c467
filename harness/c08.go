package main

import (
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
)

func init() {
	register(&Check{ID: "C08", Fn: c08,
		Rule:   "rounds (most with delays injected between the statements of the code under test) of 1-3 scripted repositories whose revisions carry tokens, updated by polling (1-5 ms) and pushes while 4-12 readers search (library and HTTP, single and all repositories, with and without context/limits) and read the excluded-files report; each response gets begin/end stamps of one logical clock; a response must be exactly one revision, and no response that begins after another ended may be older; non-trivial = distinct (repository, revision, revision seen before it by the same reader) and responses that overlap a swap",
		Assume: []string{"interleavings are sampled by the Go scheduler under load; the logical clock gives a sound real-time order"},
	})
}

type readEvent struct {
	begin, end int64
	rev        int
	what       string
}

func c08(t *T) {
	rounds := t.N(9, 300)
	for i := 0; i < rounds && !t.Stop(); i++ {
		c08round(t, i)
	}
	if t.Counter("swaps_seen") == 0 || t.Counter("overlapping_responses") == 0 {
		t.Inconclusive("no response overlapped a swap")
	}
}

func c08round(t *T, round int) {
	r := t.Rng("round", round)
	db := t.Dir("db")
	defer os.RemoveAll(db)
	nrepo := 1 + r.Intn(3)
	pad := []int{0, 20, 400, 3000}[r.Intn(4)]
	maxFiles := []int{3, 20, 60}[r.Intn(3)]
	// a round of quick swaps, with half of the readers at the report
	reports := round%3 == 1
	if reports {
		nrepo, pad, maxFiles = 1, 0, 3
	}
	repos := map[string]*config.Repo{}
	rem := map[string]*Remote{}
	var names []string
	for i := 0; i < nrepo; i++ {
		id := fmt.Sprintf("c08-%d-%d", round, i)
		m := newRemote(id, nil)
		m.Tree = func(rev int) Tree { return tokenTree(id, rev, maxFiles, pad) }
		defer m.drop()
		n := fmt.Sprintf("repo%d", i)
		repos[n] = fakeRepo(m, repoOpt{poll: r.Intn(4) > 0, push: true, ms: 1 + r.Intn(5)})
		rem[n] = m
		names = append(names, n)
	}
	lab, err := newLab(t, db, 1+r.Intn(3), repos)
	if err != nil || len(lab.Errs) > 0 {
		t.Violate("startup", nil, "startup failed: %v %v", err, lab)
		return
	}
	var mu sync.Mutex
	hist := map[string][]readEvent{}
	excl := map[string][]readEvent{}
	var stop int32
	var wg sync.WaitGroup
	delays := []int64{0, 3000, 40000}[round%3]
	t.Delays(delays)
	defer t.Delays(0)
	desc := fmt.Sprintf("round %d: %d repos, pad %d, up to %d files, delays up to %d us", round, nrepo, pad, maxFiles, delays)
	t.Current("%s", desc)

	reader := func(k int) {
		defer wg.Done()
		r := t.Rng("reader", round, k)
		last := map[string]int{}
		note := func(m map[string][]readEvent, n string, b, e int64, rev int, what string) {
			mu.Lock()
			m[n] = append(m[n], readEvent{b, e, rev, what})
			mu.Unlock()
			t.Eval(1)
			if rev != last[n] {
				t.Distinct(round, n, last[n], rev)
				last[n] = rev
			}
		}
		bad := func(what, n, msg string) {
			t.Violate("torn:"+what, map[string]interface{}{"round": desc, "repo": n}, "%s on %s (%s): %s", what, n, desc, msg)
			atomic.StoreInt32(&stop, 1)
		}
		for atomic.LoadInt32(&stop) == 0 {
			n := names[r.Intn(len(names))]
			c := r.Intn(10)
			if reports && k%2 == 0 {
				c = 9
			}
			switch {
			case c < 4:
				b := tick()
				res, err := lab.Searchers[n].Search(tokenQuery, c08opts(r))
				e := tick()
				if err != nil {
					bad("search", n, "error: "+err.Error())
					return
				}
				rev, msg := checkTokens(res.Matches, res.Revision)
				if msg != "" {
					bad("search", n, msg)
					return
				}
				note(hist, n, b, e, rev, "search")
			case c < 7:
				sel := n
				if r.Intn(2) == 0 {
					sel = "*"
				}
				b := tick()
				a, err := lab.Search(sel, tokenQuery, url.Values{"ctx": {fmt.Sprint(r.Intn(4))}})
				e := tick()
				if err != nil || a.Error != "" {
					bad("http search", sel, fmt.Sprintf("error: %v %+v", err, a))
					return
				}
				for _, rn := range names {
					if sel != "*" && sel != rn {
						continue
					}
					ra := a.Results[rn]
					if ra == nil {
						bad("http search", rn, "repository missing from the answer")
						return
					}
					rev, msg := checkTokens(ra.Matches, ra.Revision)
					if msg != "" {
						bad("http search", rn, msg)
						return
					}
					note(hist, rn, b, e, rev, "http search")
				}
			case c < 8:
				// a page of one file: all that can be checked is its revision
				b := tick()
				res, err := lab.Searchers[n].Search(tokenQuery, &index.SearchOptions{Limit: 1})
				e := tick()
				if err != nil || len(res.Matches) != 1 {
					bad("page", n, fmt.Sprintf("error: %v %+v", err, res))
					return
				}
				var rv, fi, of int
				fmt.Sscanf(res.Matches[0].Matches[0].Line, "tok rev=%d file=%d of=%d", &rv, &fi, &of)
				if res.FilesWithMatch != of || res.Revision != revName(rv) {
					bad("page", n, fmt.Sprintf("file of revision %d with %d files; reported %d files, revision %s", rv, of, res.FilesWithMatch, res.Revision))
					return
				}
				note(hist, n, b, e, rv, "page")
			default:
				b := tick()
				var s string
				if r.Intn(2) == 0 {
					s = lab.Searchers[n].GetExcludedFiles()
				} else {
					code, body, err := getBody(lab.client, lab.srv.URL+"/api/v1/excludes?repo="+n)
					if err != nil || code != 200 {
						bad("excludes", n, fmt.Sprintf("%d %v", code, err))
						return
					}
					s = string(body)
				}
				e := tick()
				rev, msg := checkExcluded(s)
				if msg != "" {
					bad("excludes", n, msg)
					return
				}
				if rev > 0 {
					note(hist, n, b, e, rev, "excludes")
				} else {
					note(excl, n, b, e, 0, "empty excludes")
				}
			}
		}
	}
	nread := 4 + r.Intn(9)
	for k := 0; k < nread; k++ {
		wg.Add(1)
		go reader(k)
	}
	commits := t.N(20, 120)
	if reports {
		commits *= 4
	}
	for i := 0; i < commits && atomic.LoadInt32(&stop) == 0; i++ {
		n := names[r.Intn(len(names))]
		rev := rem[n].Commit()
		lab.Push(n)
		if r.Intn(3) > 0 {
			if got, msg := lab.waitRev(n, rev, 60*time.Second); msg != "" {
				t.Violate("progress", desc, "%s %s: revision %d: %s", desc, n, got, msg)
				break
			}
		}
	}
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	if !lab.Close() {
		t.Violate("stop", desc, "searchers did not stop")
	}
	for n, evs := range hist {
		c08order(t, n, desc, evs)
		revs := map[int]bool{}
		for _, e := range evs {
			revs[e.rev] = true
		}
		t.Count("swaps_seen", len(revs)-1)
		// responses that overlap another that already saw a newer revision
		t.Count("overlapping_responses", overlaps(evs))
		t.Count("responses", len(evs))
	}
	for _, evs := range excl {
		t.Count("empty_reports", len(evs))
	}
	if round < 2 {
		t.Sample(map[string]interface{}{"round": desc, "readers": nread, "responses": len(hist["repo0"])})
	}
}

func c08opts(r *rand.Rand) *index.SearchOptions {
	o := &index.SearchOptions{LinesOfContext: uint(r.Intn(3))}
	if r.Intn(3) == 0 {
		o.FileRegexp = "^d"
	}
	if r.Intn(3) == 0 {
		o.IgnoreCase = true
	}
	return o
}

// c08order checks that the register never goes back in real-time order.
func c08order(t *T, n, desc string, evs []readEvent) {
	byBegin := append([]readEvent{}, evs...)
	byEnd := append([]readEvent{}, evs...)
	sort.Slice(byBegin, func(i, j int) bool { return byBegin[i].begin < byBegin[j].begin })
	sort.Slice(byEnd, func(i, j int) bool { return byEnd[i].end < byEnd[j].end })
	max, j := readEvent{}, 0
	for _, e := range byBegin {
		for j < len(byEnd) && byEnd[j].end < e.begin {
			if byEnd[j].rev > max.rev {
				max = byEnd[j]
			}
			j++
		}
		if e.rev < max.rev {
			t.Violate("went-back:"+e.what, map[string]interface{}{"round": desc, "earlier": fmt.Sprintf("%+v", max), "later": fmt.Sprintf("%+v", e)},
				"%s on %s: a response of revision %d (%s, events %d-%d) follows one of revision %d (%s, events %d-%d)", desc, n, e.rev, e.what, e.begin, e.end, max.rev, max.what, max.begin, max.end)
			return
		}
	}
}

func overlaps(evs []readEvent) (n int) {
	// an event overlaps a swap if another with a different revision overlaps it
	s := append([]readEvent{}, evs...)
	sort.Slice(s, func(i, j int) bool { return s[i].begin < s[j].begin })
	for i, e := range s {
		for j := i + 1; j < len(s) && s[j].begin < e.end; j++ {
			if s[j].rev != e.rev {
				n++
				break
			}
		}
	}
	return
}
