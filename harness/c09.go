package main

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/searcher"
)

func init() {
	register(&Check{ID: "C09", Fn: c09,
		Rule:   "histories of commits and update requests (library, POST /api/v1/update single/list/'*', GitHub webhook) against scripted repositories in all four poll/push settings; requests are placed right after startup, while a pull is held, right after its release, during builds, in bursts and from several goroutines, with one or two tokens shared by 1-3 repositories; every accepted request must be followed by a successful pull that began after it and by its revision in the answers; refused requests and poll-off repositories must cause no pull; non-trivial = distinct (setting, placement, coalescing outcome)",
		Assume: []string{"bounded progress: a request counts as lost when the poller has stayed idle for 10 s with it unserved"},
	})
}

func c09(t *T) {
	t.ParDelayed(t.N(70, 3000), 6, 8000, func(i int) {
		if i%70 == 9 {
			c09idle(t, i)
		}
		if i%70 == 14 {
			c09many(t, i)
		}
		switch i % 5 {
		case 0:
			c09startup(t, i)
		case 1:
			c09held(t, i)
		case 2:
			c09burst(t, i)
		case 3:
			c09settings(t, i)
		case 4:
			c09shared(t, i)
		}
	})
	if t.Counter("accepted") == 0 || t.Counter("during_pull") == 0 {
		t.Inconclusive("no request was accepted or none fell into a pull")
	}
}

const c09grace = 10 * time.Second

// served waits until a successful pull that began after stamp has been seen
// and the answers have reached rev.
func c09served(t *T, lab *Lab, m *Remote, name string, stamp int64, rev int, key, desc string) bool {
	end := time.Now().Add(c09grace)
	for m.PullsAfter(stamp) == 0 {
		if time.Now().After(end) {
			t.Violate("lost:"+key, map[string]interface{}{"history": desc, "events": m.Events()},
				"%s: the accepted request at %d was not followed by a pull within %v (events %+v)", desc, stamp, c09grace, tailEvents(m.Events()))
			return false
		}
		time.Sleep(200 * time.Microsecond)
	}
	if got, msg := lab.waitRev(name, rev, c09grace); msg != "" {
		t.Violate("not-served:"+key, map[string]interface{}{"history": desc, "events": m.Events()},
			"%s: revision %d was not reached after the accepted request: answers from %d: %s", desc, rev, got, msg)
		return false
	}
	return true
}

func tailEvents(e []vcsEvent) []vcsEvent {
	if len(e) > 8 {
		e = e[len(e)-8:]
	}
	return e
}

// request sends an accepted-or-refused update request one of several ways.
func c09request(lab *Lab, kind int, name string) (string, bool, error) {
	switch kind % 5 {
	case 0:
		return "library", lab.Searchers[name].Update(), nil
	case 1:
		ok, err := lab.Push(name)
		return "update", ok, err
	case 2:
		ok, err := lab.Push("nosuch," + name)
		if err == nil && !ok {
			// an unknown name may refuse the whole request
			ok, err = lab.Push(name)
		}
		return "update-list", ok, err
	case 3:
		ok, err := lab.Webhook(name)
		return "webhook", ok, err
	}
	ok, err := lab.Push("*")
	return "update-all", ok, err
}

func c09one(t *T, tag string, i int, o repoOpt, lim int) (*Lab, *Remote, func()) {
	id := fmt.Sprintf("c09-%s-%d", tag, i)
	m := newRemote(id, nil)
	m.Tree = func(rev int) Tree { return tokenTree(id, rev, 4, 0) }
	db := t.Dir("db")
	lab, err := newLab(t, db, lim, map[string]*config.Repo{"r": fakeRepo(m, o)})
	if err != nil || len(lab.Errs) > 0 {
		t.Violate("startup", nil, "startup failed: %v", err)
		return nil, nil, nil
	}
	return lab, m, func() {
		if !lab.Close() {
			t.Violate("stop", nil, "%s: searcher did not stop", id)
		}
		m.drop()
		os.RemoveAll(db)
	}
}

// a request right after startup, with the smallest possible delays
func c09startup(t *T, i int) {
	r := t.Rng("startup", i)
	for k := 0; k < 4; k++ {
		lab, m, done := c09one(t, "startup", i*10+k, repoOpt{push: true}, 1)
		if lab == nil {
			return
		}
		if r.Intn(3) > 0 {
			time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
		}
		rev := m.Commit()
		stamp := tick()
		how, ok, err := c09request(lab, r.Intn(5), "r")
		if err != nil || !ok {
			t.Violate("refused:startup", nil, "request right after startup refused: %v %v", ok, err)
		} else {
			t.Count("accepted", 1)
			t.Eval(1)
			t.Distinct("startup", how)
			c09served(t, lab, m, "r", stamp, rev, "startup", fmt.Sprintf("startup %d/%d via %s", i, k, how))
		}
		done()
	}
	// through the constructor for a single searcher
	id := fmt.Sprintf("c09-new-%d", i)
	m := newRemote(id, nil)
	defer m.drop()
	m.Tree = func(rev int) Tree { return tokenTree(id, rev, 4, 0) }
	db := t.Dir("db")
	defer os.RemoveAll(db)
	s, err := searcher.New(db, "r", fakeRepo(m, repoOpt{push: true}))
	if err != nil {
		t.Violate("new", nil, "searcher.New: %v", err)
		return
	}
	lab := &Lab{t: t, Searchers: map[string]*searcher.Searcher{"r": s}}
	rev := m.Commit()
	stamp := tick()
	if s.Update() {
		t.Eval(1)
		c09served(t, lab, m, "r", stamp, rev, "startup-new", "searcher.New, then Update")
	}
	s.Stop()
	s.Wait()
}

// requests while a pull is held, and around its release
func c09held(t *T, i int) {
	r := t.Rng("held", i)
	lab, m, done := c09one(t, "held", i, repoOpt{push: true, poll: r.Intn(2) == 0, ms: 1 + r.Intn(20)}, 1)
	if lab == nil {
		return
	}
	defer done()
	for k := 0; k < 6; k++ {
		gate := make(chan struct{})
		entered := make(chan struct{}, 100)
		afterWrite := r.Intn(2) == 0 // hold before or after the content is fetched
		hold := func() {
			select {
			case entered <- struct{}{}:
			default:
			}
			<-gate
		}
		m.mu.Lock()
		if afterWrite {
			m.After = func(string, string, int) error { hold(); return nil }
		} else {
			m.Before = func(string, string) error { hold(); return nil }
		}
		m.mu.Unlock()
		m.Commit()
		lab.Searchers["r"].Update()
		select {
		case <-entered:
		case <-time.After(c09grace):
			t.Violate("lost:held-first", m.Events(), "held %d/%d: the first request led to no pull", i, k)
			close(gate)
			return
		}
		// the pull is inside; now more commits and requests
		n := 1 + r.Intn(5)
		var stamp int64
		var rev int
		var how string
		for j := 0; j < n; j++ {
			rev = m.Commit()
			stamp = tick()
			h, ok, err := c09request(lab, r.Intn(5), "r")
			if err != nil || !ok {
				t.Violate("refused:held", nil, "request during a pull refused: %v %v", ok, err)
				close(gate)
				return
			}
			how = h
			t.Count("accepted", 1)
			t.Count("during_pull", 1)
			t.Eval(1)
		}
		m.mu.Lock()
		m.Before, m.After = nil, nil
		m.mu.Unlock()
		close(gate)
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
			rev = m.Commit()
			stamp = tick()
			if !lab.Searchers["r"].Update() {
				t.Violate("refused:release", nil, "request after a pull refused")
			}
			t.Count("accepted", 1)
			t.Eval(1)
		}
		t.Distinct("held", afterWrite, n, how)
		if !c09served(t, lab, m, "r", stamp, rev, "held", fmt.Sprintf("held %d/%d: %d requests during a pull (after fetch: %v), last via %s", i, k, n, afterWrite, how)) {
			return
		}
	}
}

// many requesters, random timing: each checks its own request
func c09burst(t *T, i int) {
	r := t.Rng("burst", i)
	o := repoOpt{push: true}
	lab, m, done := c09one(t, "burst", i, o, 1)
	if lab == nil {
		return
	}
	defer done()
	delay := time.Duration(r.Intn(3)) * time.Millisecond
	m.mu.Lock()
	m.Before = func(string, string) error { time.Sleep(delay); return nil }
	m.mu.Unlock()
	var wg sync.WaitGroup
	for g := 0; g < 3; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			r := t.Rng("burst", i, g)
			for k := 0; k < 12 && !t.Stop(); k++ {
				rev := m.Commit()
				stamp := tick()
				how, ok, err := c09request(lab, r.Intn(5), "r")
				if err != nil || !ok {
					t.Violate("refused:burst", nil, "request refused: %v %v", ok, err)
					return
				}
				t.Count("accepted", 1)
				t.Eval(1)
				t.Distinct("burst", how, m.PullsAfter(stamp))
				if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(4000)) * time.Microsecond)
					continue
				}
				if !c09served(t, lab, m, "r", stamp, rev, "burst", fmt.Sprintf("burst %d/%d/%d via %s", i, g, k, how)) {
					return
				}
			}
		}(g)
	}
	wg.Wait()
	rev := m.Head()
	stamp := tick()
	lab.Searchers["r"].Update()
	c09served(t, lab, m, "r", stamp, rev, "burst-end", fmt.Sprintf("burst %d, final request", i))
}

// all poll/push settings: who is pulled, who refuses
func c09settings(t *T, i int) {
	r := t.Rng("settings", i)
	repos := map[string]*config.Repo{}
	rem := map[string]*Remote{}
	for k := 0; k < 4; k++ {
		id := fmt.Sprintf("c09-set-%d-%d", i, k)
		m := newRemote(id, nil)
		m.Tree = func(rev int) Tree { return tokenTree(id, rev, 4, 0) }
		defer m.drop()
		n := fmt.Sprintf("poll%d-push%d", k&1, k>>1)
		o := repoOpt{poll: k&1 == 1, push: k>>1 == 1, ms: 1 + r.Intn(10)}
		rp := fakeRepo(m, o)
		if k == 1 && r.Intn(2) == 0 { // defaults: polling on, push off
			rp.EnablePollUpdates, rp.EnablePushUpdates = nil, nil
		}
		repos[n], rem[n] = rp, m
	}
	db := t.Dir("db")
	defer os.RemoveAll(db)
	lab, err := newLab(t, db, 1+r.Intn(4), repos)
	if err != nil || len(lab.Errs) > 0 {
		t.Violate("startup", nil, "startup failed: %v", err)
		return
	}
	started := tick()
	desc := fmt.Sprintf("settings %d", i)
	sent := map[string]int{}
	for k := 0; k < 8; k++ {
		for n, m := range rem {
			rev := m.Commit()
			stamp := tick()
			push := n[len(n)-1] == '1'
			poll := n[4] == '1'
			if r.Intn(4) > 0 {
				how, ok, err := c09request(lab, []int{0, 1, 3}[r.Intn(3)], n)
				if err != nil {
					t.Violate("request", nil, "%s %s: %v", desc, n, err)
					continue
				}
				t.Eval(1)
				t.Distinct("settings", n, how, ok)
				if ok != push {
					t.Violate("push-setting", nil, "%s: request via %s to %s answered ok=%v", desc, how, n, ok)
					continue
				}
				if ok {
					sent[n]++
					t.Count("accepted", 1)
					c09served(t, lab, m, n, stamp, rev, "settings", desc+" "+n+" via "+how)
				} else {
					t.Count("refused", 1)
				}
			}
			if poll {
				if got, msg := lab.waitRev(n, rev, c09grace); msg != "" {
					t.Violate("poll", m.Events(), "%s %s: polling did not bring revision %d, answers from %d: %s", desc, n, rev, got, msg)
				}
				t.Count("polled", 1)
				t.Eval(1)
			}
		}
	}
	// a request for all repositories is refused if any has push disabled
	if ok, err := lab.Push("*"); err != nil || ok {
		t.Violate("push-setting", nil, "%s: update of all repositories, some with push disabled, answered ok=%v %v", desc, ok, err)
	}
	time.Sleep(5 * time.Millisecond)
	for n, m := range rem {
		if n[4] == '1' {
			continue
		}
		if p := m.PullsAfter(started); p > sent[n]+boolInt(n[len(n)-1] == '1') {
			t.Violate("unasked", m.Events(), "%s: %s was pulled %d times for %d accepted requests", desc, n, p, sent[n])
		}
	}
	if !lab.Close() {
		t.Violate("stop", nil, "%s: searchers did not stop", desc)
	}
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// one request for very many repositories
func c09many(t *T, i int) {
	r := t.Rng("many", i)
	repos := map[string]*config.Repo{}
	rem := map[string]*Remote{}
	n := 90 + r.Intn(60)
	var names []string
	for k := 0; k < n; k++ {
		id := fmt.Sprintf("c09-many-%d-%d", i, k)
		m := newRemote(id, nil)
		m.Tree = func(rev int) Tree { return tokenTree(id, rev, 1, 0) }
		defer m.drop()
		name := fmt.Sprintf("m%d", k)
		names = append(names, name)
		repos[name], rem[name] = fakeRepo(m, repoOpt{push: true}), m
	}
	db := t.Dir("db")
	defer os.RemoveAll(db)
	lab, err := newLab(t, db, 8, repos)
	if err != nil || len(lab.Errs) > 0 {
		t.Violate("startup", nil, "startup failed: %v", err)
		return
	}
	for k := 0; k < 3 && !t.Stop(); k++ {
		sel := append([]string{}, names...)
		r.Shuffle(n, func(a, b int) { sel[a], sel[b] = sel[b], sel[a] })
		if k == 2 {
			sel = sel[:n/2]
		}
		want := map[string]int{}
		for _, x := range sel {
			want[x] = rem[x].Commit()
		}
		list := strings.Join(sel, ",")
		if k == 0 {
			list = "*"
		}
		stamp := tick()
		if ok, err := lab.Push(list); err != nil || !ok {
			t.Violate("refused:many", nil, "many %d: update of %d repositories answered ok=%v %v", i, len(sel), ok, err)
			break
		}
		t.Eval(len(sel))
		t.Count("accepted", len(sel))
		t.Distinct("many", k, len(sel))
		for _, x := range sel {
			if !c09served(t, lab, rem[x], x, stamp, want[x], "many", fmt.Sprintf("many %d, request %d for %d repositories, %s", i, k, len(sel), x)) {
				break
			}
		}
	}
	if !lab.Close() {
		t.Violate("stop", nil, "many %d: searchers did not stop", i)
	}
}

// polling goes on at the configured interval while nothing changes
func c09idle(t *T, i int) {
	repos := map[string]*config.Repo{}
	rem := map[string]*Remote{}
	for n, ms := range map[string]int{"often": 2, "hourly": 3600000} {
		id := fmt.Sprintf("c09-idle-%d-%s", i, n)
		m := newRemote(id, nil)
		m.Tree = func(rev int) Tree { return tokenTree(id, rev, 4, 0) }
		defer m.drop()
		repos[n], rem[n] = fakeRepo(m, repoOpt{poll: true, push: true, ms: ms}), m
	}
	db := t.Dir("db")
	defer os.RemoveAll(db)
	lab, err := newLab(t, db, 2, repos)
	if err != nil || len(lab.Errs) > 0 {
		t.Violate("startup", nil, "startup failed: %v", err)
		return
	}
	desc := fmt.Sprintf("idle %d", i)
	started := tick()
	// a clock of the same kind, which sleeps as long as the poller
	beats := 0
	for end := time.Now().Add(4 * time.Second); time.Now().Before(end); beats++ {
		time.Sleep(2 * time.Millisecond)
	}
	n := rem["often"].PullsAfter(started)
	t.Eval(1)
	t.Count("idle_polls", n)
	t.Distinct("idle", n > 0)
	if n < beats/20 {
		t.Violate("poll-interval", nil, "%s: a repository polled every 2 ms was pulled %d times in a time in which a clock of 2 ms ticked %d times", desc, n, beats)
	}
	if n := rem["hourly"].PullsAfter(started); n > 0 {
		t.Violate("poll-interval", nil, "%s: a repository polled every hour was pulled %d times in the first seconds", desc, n)
	}
	for n, m := range rem {
		rev := m.Commit()
		if n == "often" {
			if got, msg := lab.waitRev(n, rev, c09grace); msg != "" {
				t.Violate("poll", tailEvents(m.Events()), "%s %s: polling did not bring revision %d, answers from %d: %s", desc, n, rev, got, msg)
			}
			continue
		}
		stamp := tick()
		if how, ok, err := c09request(lab, 1, n); err != nil || !ok {
			t.Violate("refused:idle", nil, "%s: request refused: %v %v", desc, ok, err)
		} else {
			c09served(t, lab, m, n, stamp, rev, "idle", desc+" via "+how)
		}
	}
	if !lab.Close() {
		t.Violate("stop", nil, "%s: searchers did not stop", desc)
	}
}

// several repositories contend for the indexing tokens
func c09shared(t *T, i int) {
	r := t.Rng("shared", i)
	repos := map[string]*config.Repo{}
	rem := map[string]*Remote{}
	var names []string
	for k, n := 0, 2+r.Intn(2); k < n; k++ {
		id := fmt.Sprintf("c09-sh-%d-%d", i, k)
		m := newRemote(id, nil)
		m.Tree = func(rev int) Tree { return tokenTree(id, rev, 4, 0) }
		d := time.Duration(r.Intn(3000)) * time.Microsecond
		m.Before = func(string, string) error { time.Sleep(d); return nil }
		defer m.drop()
		nm := fmt.Sprintf("s%d", k)
		repos[nm], rem[nm] = fakeRepo(m, repoOpt{push: true, poll: r.Intn(3) == 0, ms: 1 + r.Intn(5)}), m
		names = append(names, nm)
	}
	db := t.Dir("db")
	defer os.RemoveAll(db)
	lab, err := newLab(t, db, 1, repos)
	if err != nil || len(lab.Errs) > 0 {
		t.Violate("startup", nil, "startup failed: %v", err)
		return
	}
	type req struct {
		n     string
		stamp int64
		rev   int
		how   string
	}
	for k := 0; k < 5 && !t.Stop(); k++ {
		var reqs []req
		for j := 0; j < 1+r.Intn(6); j++ {
			n := names[r.Intn(len(names))]
			q := req{n: n, rev: rem[n].Commit()}
			q.stamp = tick()
			how, ok, err := c09request(lab, r.Intn(5), n)
			if err != nil || !ok {
				t.Violate("refused:shared", nil, "request refused: %v %v", ok, err)
				return
			}
			q.how = how
			t.Count("accepted", 1)
			t.Eval(1)
			reqs = append(reqs, q)
			if r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
			}
		}
		for _, q := range reqs {
			t.Distinct("shared", len(names), q.how, rem[q.n].PullsAfter(q.stamp))
			if !c09served(t, lab, rem[q.n], q.n, q.stamp, q.rev, "shared", fmt.Sprintf("shared %d/%d %s via %s", i, k, q.n, q.how)) {
				return
			}
		}
	}
	if !lab.Close() {
		t.Violate("stop", nil, "shared %d: searchers did not stop", i)
	}
}
