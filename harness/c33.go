package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/hound-search/hound/config"
)

func init() {
	register(&Check{ID: "C33", Fn: c33, Quick: 600,
		Rule:   "servers with 1-4 repositories of a scripted VCS (polling every few ms, on request, or both) and, on some, a git remote, go through histories of new revisions, rewinds, bursts of revisions, long idle polling, bursts of update requests by API and webhook while an update is held, failing pulls, restarts, tags and commits on other branches; inotify on the data directory counts the index directories that are made, which must be one per repository plus one per pull that brought another revision than the one before; the directories in use must stay the same ones while nothing new comes; requests made while an update is held may cause one more pull; repositories that are only polled, with slow and failing pulls, may not be polled more often than their interval says; non-trivial = distinct (steps, pulls, index directories made)",
		Assume: []string{"an index is built into a directory of its own in the data directory (C13 decides that)"},
	})
}

// makes counts the directories made in one directory, working copies excepted.
type makes struct {
	fd int
	n  int64
	wg sync.WaitGroup
	mu sync.Mutex
	ns []string
}

func watchMakes(dir string) (*makes, error) {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		return nil, err
	}
	if _, err := syscall.InotifyAddWatch(fd, dir, syscall.IN_CREATE|syscall.IN_ONLYDIR); err != nil {
		syscall.Close(fd)
		return nil, err
	}
	return &makes{fd: fd}, nil
}

// count reads the pending events and returns the number of directories made so far.
func (m *makes) count() (int, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	buf, ok := make([]byte, 1<<16), true
	for {
		n, err := syscall.Read(m.fd, buf)
		if n <= 0 || err != nil {
			return int(m.n), ok
		}
		for b := buf[:n]; len(b) >= syscall.SizeofInotifyEvent; {
			e := (*syscall.InotifyEvent)(unsafe.Pointer(&b[0]))
			name := strings.TrimRight(string(b[syscall.SizeofInotifyEvent:syscall.SizeofInotifyEvent+int(e.Len)]), "\x00")
			if e.Mask&syscall.IN_Q_OVERFLOW != 0 {
				ok = false
			} else if e.Mask&syscall.IN_ISDIR != 0 && !strings.HasPrefix(name, "vcs-") {
				m.n++
				m.ns = append(m.ns, name)
			}
			b = b[syscall.SizeofInotifyEvent+int(e.Len):]
		}
	}
}

// changes is the number of successful pulls that brought another revision than
// the one before.
func changes(ev []vcsEvent) (n, pulls int, under bool) {
	last := 0
	for _, e := range ev {
		if e.Kind != "pull" && e.Kind != "clone" {
			continue
		}
		pulls++
		if e.End == 0 {
			under = true
			continue
		}
		if e.Err == "" && e.Rev != last {
			n++
			last = e.Rev
		}
	}
	return
}

func c33(t *T) {
	t.Par(t.N(60, 2500), 6, func(i int) { c33history(t, i) })
	t.Par(t.N(12, 200), 6, func(i int) { c33pace(t, i) })
	for _, c := range []string{"idle_pulls", "requests_while_held", "rewinds", "restarts", "failed_pulls", "git_other_refs", "polls_in_time"} {
		if t.Counter(c) == 0 && !t.Stop() {
			t.Inconclusive("no %s", c)
		}
	}
}

// c33pace: a repository that is only polled is not polled more often than its
// interval says, however long a pull or a build takes and whether it fails or not.
func c33pace(t *T, i int) {
	r := t.Rng("pace", i)
	db := t.Dir("db")
	defer os.RemoveAll(db)
	repos := map[string]*config.Repo{}
	type polled struct {
		*Remote
		ms    int
		mu    sync.Mutex
		began []time.Time
	}
	var ps []*polled
	for k := 1 + r.Intn(4); k > 0; k-- {
		id := fmt.Sprintf("c33-pace-%d-%d", i, k)
		p := &polled{Remote: newRemote(id, func(rev int) Tree { return tokenTree(id, rev, 3, 0) }), ms: 20 + r.Intn(100)}
		defer p.drop()
		slow, fails := r.Intn(3)*p.ms*2/3, r.Intn(3)
		p.Before = func(kind, dir string) error {
			if kind == "pull" {
				p.mu.Lock()
				p.began = append(p.began, time.Now())
				n := len(p.began)
				p.mu.Unlock()
				time.Sleep(time.Duration(slow) * time.Millisecond)
				if fails > 0 && n%(fails+1) == 0 {
					return errors.New("injected")
				}
			}
			return nil
		}
		repos[id] = fakeRepo(p.Remote, repoOpt{poll: true, ms: p.ms})
		ps = append(ps, p)
	}
	l, err := newLab(t, db, 1+r.Intn(3), repos)
	if err != nil || len(l.Errs) > 0 {
		t.Violate("start", nil, "pace %d: %v", i, err)
		return
	}
	for k := 0; k < 15; k++ {
		time.Sleep(60 * time.Millisecond)
		ps[r.Intn(len(ps))].Commit()
	}
	l.Close()
	for _, p := range ps {
		p.mu.Lock()
		for k := 1; k < len(p.began); k++ {
			t.Eval(1)
			t.Count("polls_in_time", 1)
			if d := p.began[k].Sub(p.began[k-1]); d < time.Duration(p.ms)*time.Millisecond-time.Millisecond {
				t.Violate("pace", M{"repo": p.ID, "ms": p.ms}, "pace %d: %s is to be polled every %d ms, but a pull began %v after the one before (%d pulls in all)", i, p.ID, p.ms, d, len(p.began))
				p.mu.Unlock()
				return
			}
		}
		t.Distinct("pace", p.ms, len(p.began))
		p.mu.Unlock()
	}
}

func c33history(t *T, i int) {
	r := t.Rng("history", i)
	db := t.Dir("db")
	defer os.RemoveAll(db)
	m, err := watchMakes(db)
	if err != nil {
		t.Inconclusive("inotify: %v", err)
		return
	}
	defer syscall.Close(m.fd)
	var hist []string
	bad := func(key, f string, a ...interface{}) {
		t.Violate(key, M{"history": hist}, "history %d: %s\nafter: %s", i, fmt.Sprintf(f, a...), strings.Join(hist, "; "))
	}

	type fr struct {
		*Remote
		fail int32
		hold chan empty33
		in   chan empty33
		mu   sync.Mutex
		poll bool
	}
	repos := map[string]*config.Repo{}
	rs := map[string]*fr{}
	var names []string
	for k := 1 + r.Intn(4); k > 0; k-- {
		n := fmt.Sprintf("r%d", k)
		id := fmt.Sprintf("c33-%d-%s", i, n)
		f := &fr{Remote: newRemote(id, func(rev int) Tree { return tokenTree(id, rev, 3, 0) })}
		defer f.drop()
		f.Before = func(kind, dir string) error {
			f.mu.Lock()
			h, in := f.hold, f.in
			f.mu.Unlock()
			if h != nil && kind == "pull" {
				select {
				case in <- empty33{}:
				default:
				}
				<-h
			}
			return nil
		}
		f.After = func(kind, dir string, rev int) error {
			if kind == "pull" && atomic.AddInt32(&f.fail, -1) >= 0 {
				t.Count("failed_pulls", 1)
				return errors.New("injected")
			}
			return nil
		}
		f.poll = r.Intn(2) == 0
		repos[n] = fakeRepo(f.Remote, repoOpt{poll: f.poll, push: !f.poll || r.Intn(2) == 0, ms: 2 + r.Intn(4)})
		rs[n], names = f, append(names, n)
	}
	var git *GitRemote
	gitBuilds := 0
	if i%4 == 0 {
		git = newGitRemote(t, "master")
		defer os.RemoveAll(git.Dir)
		git.Commit(Tree{"a": "git 0\n"})
		gitBuilds = 1
		repos["git"] = &config.Repo{Url: git.URL(), Vcs: "git", MsBetweenPolls: 10, EnablePollUpdates: boolp(true), EnablePushUpdates: boolp(true), UrlPattern: &config.UrlPattern{BaseUrl: "{url}"}}
	}
	l, err := newLab(t, db, 1+r.Intn(3), repos)
	if err != nil || len(l.Errs) > 0 {
		bad("start", "%v %v", err, l)
		return
	}
	defer func() { l.Close() }()

	// settle waits until every repository answers from its head and no update is under way
	settle := func() bool {
		end := time.Now().Add(60 * time.Second)
		for _, n := range names {
			f := rs[n]
			for {
				got, msg := l.Tokens(n)
				if msg != "" {
					bad("answer", "%s: %s", n, msg)
					return false
				}
				if got == f.Head() && atomic.LoadInt32(&f.inside) == 0 {
					break
				}
				if time.Now().After(end) {
					bad("stuck", "%s answers from revision %d, want %d", n, got, f.Head())
					return false
				}
				if !f.poll { // a failed pull is repeated only on request
					l.Push(n)
				}
				time.Sleep(2 * time.Millisecond)
			}
		}
		return true
	}
	// judge compares the index directories made with the pulls that brought news.
	judge := func() bool {
		made, ok := m.count() // before the pulls are looked at: those only grow
		if !ok {
			t.Inconclusive("the event queue overflowed")
			return false
		}
		want, pulls := gitBuilds, 0
		for _, f := range rs {
			c, p, _ := changes(f.Events())
			want, pulls = want+c, pulls+p
		}
		t.Eval(1)
		if made > want {
			bad("needless", "%d index directories were made (%v), but %d pulls brought %d new revisions (git: %d)", made, m.ns, pulls, want, gitBuilds)
			return false
		}
		t.Distinct(len(hist), pulls, made)
		return true
	}
	if !settle() || !judge() {
		return
	}
	for step := 0; step < 14 && !t.Stop(); step++ {
		n := names[r.Intn(len(names))]
		f := rs[n]
		switch k := r.Intn(9); {
		case k == 0: // new revisions
			for b := 1 + r.Intn(4); b > 0; b-- {
				f.Commit()
				if !f.poll {
					l.Push(n)
				}
			}
			hist = append(hist, fmt.Sprintf("%s at %d", n, f.Head()))
		case k == 1: // back to an earlier one
			f.Remote.mu.Lock()
			if f.rev > 1 {
				f.rev = 1 + r.Intn(f.rev)
				t.Count("rewinds", 1)
			}
			f.Remote.mu.Unlock()
			hist = append(hist, fmt.Sprintf("%s back at %d", n, f.Head()))
		case k == 2: // failing pulls
			atomic.StoreInt32(&f.fail, int32(1+r.Intn(3)))
			if r.Intn(2) == 0 {
				f.Commit()
			}
			hist = append(hist, fmt.Sprintf("%s fails, at %d", n, f.Head()))
		case k == 3 && !f.poll: // requests while an update is held
			h, in := make(chan empty33), make(chan empty33, 1)
			f.mu.Lock()
			f.hold, f.in = h, in
			f.mu.Unlock()
			l.Push(n)
			select {
			case <-in:
			case <-time.After(30 * time.Second):
				close(h)
				bad("stuck", "a request for %s causes no pull", n)
				return
			}
			// there may be one request waiting from before; it counts as these
			b := 2 + r.Intn(30)
			for j := 0; j < b; j++ {
				if ok, err := l.Push(n); !ok {
					close(h)
					bad("refused", "a request for %s during an update: %v", n, err)
					return
				}
			}
			stamp := tick()
			f.mu.Lock()
			f.hold = nil
			f.mu.Unlock()
			close(h)
			time.Sleep(time.Duration(10+r.Intn(20)) * time.Millisecond)
			if got := f.PullsAfter(stamp); got > 1 {
				bad("pulls", "%d requests for %s during one update caused %d more pulls", b, n, got)
				return
			}
			t.Count("requests_while_held", b)
			hist = append(hist, fmt.Sprintf("%d requests for %s during an update", b, n))
		case k == 4 || k == 5: // nothing new comes, however often it is looked for
			if !settle() {
				return
			}
			before := c33dirs(db)
			made, _ := m.count()
			from := tick()
			for j := 0; j < 12; j++ {
				for _, x := range names {
					if repos[x].PushUpdatesEnabled() {
						l.Push(x)
					}
				}
				time.Sleep(time.Duration(1+r.Intn(4)) * time.Millisecond)
			}
			for _, x := range names {
				t.Count("idle_pulls", rs[x].PullsAfter(from))
			}
			if !settle() {
				return
			}
			after := c33dirs(db)
			now, _ := m.count()
			if now != made || before != after {
				bad("idle", "nothing new has come, yet %d index directories were made; in use before: %s, after: %s", now-made, before, after)
				return
			}
			hist = append(hist, "idle")
		case k == 6 && git != nil:
			if r.Intn(2) == 0 {
				rev := git.Commit(Tree{"a": fmt.Sprintf("git %d\n", step)})
				gitBuilds++
				end := time.Now().Add(60 * time.Second)
				for {
					a, err := l.Search("git", "git", nil)
					if err == nil && a.Results["git"] != nil && a.Results["git"].Revision == rev {
						break
					}
					if time.Now().After(end) {
						bad("stuck", "git does not arrive at %s: %v", rev, err)
						return
					}
					time.Sleep(3 * time.Millisecond)
				}
				hist = append(hist, "git commit")
				break
			}
			// what the followed branch does not show
			mustGit(git.Dir, "checkout", "-q", "-B", "other")
			git.Commit(Tree{"a": fmt.Sprintf("other %d\n", step)})
			mustGit(git.Dir, "tag", "-f", fmt.Sprintf("t%d", step))
			mustGit(git.Dir, "checkout", "-q", "-f", "master")
			t.Count("git_other_refs", 1)
			for j := 0; j < 3; j++ {
				l.Push("git")
				time.Sleep(15 * time.Millisecond)
			}
			hist = append(hist, "git commit and tag elsewhere")
		case k == 7 && r.Intn(2) == 0:
			if !settle() {
				return
			}
			if !l.Close() {
				bad("close", "the searchers do not stop")
				return
			}
			if r.Intn(2) == 0 {
				f.Commit()
			}
			if l, err = newLab(t, db, 1+r.Intn(3), repos); err != nil || len(l.Errs) > 0 {
				bad("start", "%v %v", err, l)
				return
			}
			t.Count("restarts", 1)
			hist = append(hist, "restart")
		default:
			l.Push(n)
			l.Webhook(n)
			hist = append(hist, "requests for "+n)
		}
		if !settle() || !judge() {
			return
		}
	}
	made, _ := m.count()
	t.Count("indexes_built", made)
}

type empty33 struct{}

// c33dirs lists the index directories with their identities.
func c33dirs(db string) string {
	var out []string
	for _, n := range idxDirs(db) {
		var st syscall.Stat_t
		if syscall.Stat(filepath.Join(db, n), &st) == nil {
			out = append(out, fmt.Sprintf("%s(%d)", n, st.Ino))
		}
	}
	return strings.Join(out, " ")
}
