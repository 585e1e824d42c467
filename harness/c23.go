package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
)

func init() {
	register(&Check{ID: "C23", Fn: c23, Bins: []string{"hound"},
		Rule:   "the real hound binary is run against (a) a server that answers with results computed from generated files (any set of matching lines, context up to 20, one-sided, clipped at the previous match as the server does or overlapping it, adjacent and touching blocks, empty lines, line numbers of 1-7 digits, up to 4 repositories with any display name and url), (b) the real API handlers over generated repositories, and (c) servers that fail in every way (Error answers, statuses, broken, cut or empty bodies, closed connections, no server); its output - to a pipe and, with colours, to a terminal - is parsed and compared line by line with the files, the request it sent with the arguments given; non-trivial = distinct (block structure, options, outcome)",
		Assume: []string{"-like-grep only prints that it is not implemented and is not judged", "whether two blocks that touch without overlapping are shown as one is left open"},
	})
}

func c23(t *T) {
	t.Par(t.N(350, 12000), 0, func(i int) { c23synth(t, i) })
	t.Par(t.N(10, 200), 4, func(i int) { c23real(t, i) })
	t.Par(t.N(150, 1500), 0, func(i int) { c23fail(t, i) })
	for _, k := range []string{"lines_compared", "merged_blocks", "separate_blocks", "errors_reported", "requests_compared", "real_answers"} {
		if t.Counter(k) == 0 {
			t.Inconclusive("nothing observed for %s", k)
		}
	}
}

// houndArgs are the arguments of one run.
type houndArgs struct {
	pat, repos, files string
	ctx               int
	icase, stats      bool
	set               map[string]bool // options given at all
}

func c23args(r *rand.Rand) houndArgs {
	a := houndArgs{repos: "*", ctx: 2, set: map[string]bool{}}
	a.pat = pick(r, "foo", "a.*b", "", "x y", "&q=1", "é+", `\bfoo\b`, "100%", "a#b", "^$", "(a|b)", "日本", "\"quoted\"", "-v", "$HOME", "a\\.b", "[[:alpha:]]+", "%41", "\t", "foo;bar", "<b>")
	if r.Intn(2) == 0 {
		a.repos, a.set["repos"] = pick(r, "r1,r2", "org/x", "é", "*", "", "a b,c&d"), true
	}
	if r.Intn(2) == 0 {
		a.files, a.set["files"] = pick(r, `\.go$`, "", "a&b=c", "é", "x+y", "-x", " "), true
	}
	if r.Intn(3) > 0 {
		a.ctx, a.set["ctx"] = pickInt(r, 0, 1, 2, 3, 5, 20, 25), true
	}
	if r.Intn(2) == 0 {
		a.icase, a.set["icase"] = r.Intn(3) > 0, true
	}
	if r.Intn(3) == 0 {
		a.stats, a.set["stats"] = true, true
	}
	return a
}

func pickInt(r *rand.Rand, xs ...int) int { return xs[r.Intn(len(xs))] }

func (a houndArgs) argv(host string) []string {
	v := []string{"-host=" + host}
	if a.set["repos"] {
		v = append(v, "-repos", a.repos)
	}
	if a.set["files"] {
		v = append(v, "-files="+a.files)
	}
	if a.set["ctx"] {
		v = append(v, "-context", fmt.Sprint(a.ctx))
	}
	if a.set["icase"] {
		v = append(v, fmt.Sprintf("-ignore-case=%v", a.icase))
	}
	if a.set["stats"] {
		v = append(v, "-show-stats")
	}
	return append(v, "--", a.pat)
}

type houndOut struct {
	out, err string
	code     int
	late     bool
}

func runHound(t *T, argv []string, tty bool) (o houndOut, ok bool) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, filepath.Join(t.Bin, "hound"), argv...)
	c.Dir = t.Scratch
	var so, se bytes.Buffer
	c.Stderr = &se
	var m *os.File
	rd := make(chan bool)
	if tty {
		var s *os.File
		var err error
		if m, s, err = openPty(); err != nil {
			t.Count("no_terminal", 1)
			return o, false
		}
		defer m.Close()
		c.Stdout = s
		if err := c.Start(); err != nil {
			fatal("%v", err)
		}
		s.Close()
		go func() { io.Copy(&so, m); close(rd) }()
	} else {
		c.Stdout = &so
		if err := c.Start(); err != nil {
			fatal("%v", err)
		}
		close(rd)
	}
	c.Wait()
	<-rd
	o.code = c.ProcessState.ExitCode()
	o.late = ctx.Err() != nil
	o.out, o.err = so.String(), se.String()
	if tty {
		o.out = ansiSeq.ReplaceAllString(o.out, "")
	}
	return o, true
}

var ansiSeq = regexp.MustCompile("\x1b\\[[0-9;]*m")

// openPty opens a terminal that passes everything through.
func openPty() (*os.File, *os.File, error) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	var n, unlock int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x40045431, uintptr(unsafe.Pointer(&unlock))); e != 0 {
		m.Close()
		return nil, nil, e
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x80045430, uintptr(unsafe.Pointer(&n))); e != 0 {
		m.Close()
		return nil, nil, e
	}
	s, err := os.OpenFile("/dev/pts/"+strconv.Itoa(int(n)), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		m.Close()
		return nil, nil, err
	}
	var tio syscall.Termios
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, s.Fd(), syscall.TCGETS, uintptr(unsafe.Pointer(&tio))); e == 0 {
		tio.Oflag &^= syscall.OPOST
		tio.Lflag &^= syscall.ECHO | syscall.ICANON
		syscall.Syscall(syscall.SYS_IOCTL, s.Fd(), syscall.TCSETS, uintptr(unsafe.Pointer(&tio)))
	}
	return m, s, nil
}

// --- what must be printed for an answer

type printed struct {
	n     int
	match bool
	text  string
}

var lineRe = regexp.MustCompile(`(?s)^\s*([0-9]+)([:-])(.*)$`)

// checkPrinted compares the output with the answer. files maps file names
// (unique over all repositories) to the repository.
func checkPrinted(t *T, out string, ctx int, ans map[string]*index.SearchResponse) string {
	type want struct {
		repo  string
		lines map[int]printed
		max   int
	}
	wants := map[string]*want{}
	for repo, res := range ans {
		for _, f := range res.Matches {
			w := &want{repo: repo, lines: map[int]printed{}}
			add := func(n int, s string, m bool) {
				if old, ok := w.lines[n]; ok {
					m = m || old.match
				}
				w.lines[n] = printed{n, m, s}
				if n > w.max {
					w.max = n
				}
			}
			for _, m := range f.Matches {
				for k, s := range m.Before {
					add(m.LineNumber-len(m.Before)+k, s, false)
				}
				add(m.LineNumber, m.Line, true)
				for k, s := range m.After {
					add(m.LineNumber+1+k, s, false)
				}
			}
			wants[f.Filename] = w
		}
	}
	ls := strings.Split(out, "\n")
	if len(ls) > 0 && ls[len(ls)-1] == "" {
		ls = ls[:len(ls)-1]
	}
	var cur *want
	curName, last, sep := "", 0, false
	header := map[string]string{} // printed above the first file of a repository
	pending := ""
	done := map[string]bool{}
	seen := map[int]bool{}
	finish := func() string {
		if cur == nil {
			return ""
		}
		for n, p := range cur.lines {
			if !seen[n] {
				return fmt.Sprintf("line %d (%q, match: %v) of %s is not printed", n, p.text, p.match, curName)
			}
		}
		done[curName] = true
		return ""
	}
	for i := 0; i < len(ls); i++ {
		l := ls[i]
		if w := wants[l]; w != nil {
			if why := finish(); why != "" {
				return why
			}
			if done[l] {
				return fmt.Sprintf("file %s is printed twice", l)
			}
			if pending != "" {
				header[w.repo] = pending
				pending = ""
			}
			cur, curName, last, sep, seen = w, l, 0, false, map[int]bool{}
			continue
		}
		if l == "--" {
			sep = true
			continue
		}
		if l == "" {
			continue
		}
		if m := lineRe.FindStringSubmatch(l); m != nil && cur != nil {
			n, _ := strconv.Atoi(m[1])
			p, ok := cur.lines[n]
			if !ok {
				return fmt.Sprintf("%q is printed for %s, whose answer has no line %d", l, curName, n)
			}
			if seen[n] {
				return fmt.Sprintf("line %d of %s is printed twice", n, curName)
			}
			seen[n] = true
			if n <= last {
				return fmt.Sprintf("line %d of %s is printed after line %d", n, curName, last)
			}
			if (m[2] == ":") != p.match {
				return fmt.Sprintf("line %d of %s is marked %q, is it a match: %v", n, curName, m[2], p.match)
			}
			if !strings.HasSuffix(m[3], p.text) || strings.Trim(strings.TrimSuffix(m[3], p.text), " ") != "" {
				return fmt.Sprintf("line %d of %s is printed as %q, it is %q", n, curName, m[3], p.text)
			}
			if last > 0 && ctx > 0 {
				if n > last+1 && !sep {
					return fmt.Sprintf("nothing separates line %d of %s from line %d", n, curName, last)
				}
				if n > last+1 {
					t.Count("separate_blocks", 1)
				}
				if n == last+1 && sep {
					t.Count("touching_blocks", 1)
					// a separator is only right if no match has both in its context
					for _, f := range ans[cur.repo].Matches {
						if f.Filename != curName {
							continue
						}
						for _, m := range f.Matches {
							if m.LineNumber-len(m.Before) <= last && n <= m.LineNumber+len(m.After) {
								return fmt.Sprintf("lines %d and %d of %s belong together, but are printed as separate blocks", last, n, curName)
							}
						}
					}
				}
			}
			last, sep = n, false
			t.Count("lines_compared", 1)
			continue
		}
		if why := finish(); why != "" {
			return why
		}
		cur = nil
		if pending != "" {
			return fmt.Sprintf("unexpected output %q", l)
		}
		pending = l
	}
	if why := finish(); why != "" {
		return why
	}
	for n := range wants {
		if !done[n] {
			return fmt.Sprintf("file %s is not printed", n)
		}
	}
	return ""
}

// --- generated answers

type c23file struct {
	lines []string
	m     map[int]bool // 1-based
}

func c23lines(r *rand.Rand, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, pick(r, "", "foo", "  indented foo", "12: not a number", "--", "a b", "\tTab", "é日本", "trailing  ", "x-y", "5-", "{", "}", fmt.Sprintf("line %d", i), "100% %s %d", "<b>&amp;"))
	}
	return out
}

// answerFor builds the matches of a file. clip: the context before a match
// does not reach back over the previous match, as the server does it.
func (f *c23file) answer(first, before, after int, clip bool) []*index.Match {
	var out []*index.Match
	prev := 0
	for n := 1; n <= len(f.lines); n++ {
		if !f.m[n] {
			continue
		}
		m := &index.Match{Line: f.lines[n-1], LineNumber: first + n - 1, Before: []string{}, After: []string{}}
		lo := n - before
		if lo < 1 {
			lo = 1
		}
		if clip && lo <= prev {
			lo = prev + 1
		}
		for k := lo; k < n; k++ {
			m.Before = append(m.Before, f.lines[k-1])
		}
		for k := n + 1; k <= n+after && k <= len(f.lines); k++ {
			m.After = append(m.After, f.lines[k-1])
		}
		out = append(out, m)
		prev = n
	}
	return out
}

type c23server struct {
	mu    sync.Mutex
	reqs  []*http.Request
	hand  func(w http.ResponseWriter, r *http.Request)
	srv   *httptest.Server
	query url.Values
}

func newC23server(h func(w http.ResponseWriter, r *http.Request)) *c23server {
	s := &c23server{hand: h}
	s.srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		s.mu.Lock()
		s.reqs = append(s.reqs, r)
		if r.URL.Path == "/api/v1/search" {
			r.ParseForm()
			s.query = r.Form
		}
		s.mu.Unlock()
		s.hand(w, r)
	}))
	s.srv.Config.SetKeepAlivesEnabled(false)
	return s
}

func (s *c23server) host() string { return s.srv.Listener.Addr().String() }

// sent compares the request with the arguments.
func (s *c23server) sent(t *T, a houndArgs) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := 0
	for _, r := range s.reqs {
		switch r.URL.Path {
		case "/api/v1/search":
			n++
		case "/api/v1/repos":
		default:
			return "unexpected request for " + r.URL.Path
		}
	}
	if n != 1 {
		return fmt.Sprintf("%d search requests", n)
	}
	for k, v := range map[string]string{"q": a.pat, "repos": a.repos, "files": a.files, "ctx": fmt.Sprint(a.ctx)} {
		if got := s.query[k]; len(got) != 1 || got[0] != v {
			if v == "" && len(got) == 0 {
				continue
			}
			return fmt.Sprintf("parameter %s is %q, the user asked for %q", k, got, v)
		}
	}
	if refBool(s.query.Get("i")) != a.icase {
		return fmt.Sprintf("parameter i is %q, the user asked for ignore-case=%v", s.query.Get("i"), a.icase)
	}
	if l := s.query.Get("literal"); refBool(l) {
		return "the search is literal"
	}
	for _, k := range []string{"rng", "limit", "excludeFiles"} {
		if s.query.Get(k) != "" {
			return fmt.Sprintf("parameter %s is %q, which the user did not ask for", k, s.query.Get(k))
		}
	}
	t.Count("requests_compared", 1)
	return ""
}

func c23synth(t *T, i int) {
	r := t.Rng("synth", i)
	a := c23args(r)
	ans := map[string]*index.SearchResponse{}
	rep := map[string]*config.Repo{}
	sig := ""
	for k, nr := 0, r.Intn(5); k < nr; k++ {
		id := pick(r, "R%d", "org/R%d", "é R%d")
		id = fmt.Sprintf(id, k)
		res := &index.SearchResponse{Revision: "rev", Matches: []*index.FileMatch{}}
		for j, nf := 0, 1+r.Intn(4); j < nf; j++ {
			nl := 1 + r.Intn(40)
			if i%40 == 7 { // answers of megabytes
				nl = 2000 + r.Intn(6000)
			}
			f := &c23file{lines: c23lines(r, nl), m: map[int]bool{}}
			if nl > 40 {
				t.Count("large_answers", 1)
				for q := range f.lines {
					if r.Intn(3) == 0 {
						f.lines[q] += strings.Repeat(" x=1;", 1+r.Intn(200))
					}
				}
			}
			p := pickInt(r, 1, 2, 3, 6, 12)
			for n := 1; n <= len(f.lines); n++ {
				if r.Intn(p) == 0 {
					f.m[n] = true
				}
			}
			if len(f.m) == 0 {
				f.m[1+r.Intn(len(f.lines))] = true
			}
			before, after := a.ctx, a.ctx
			if r.Intn(4) == 0 {
				before, after = r.Intn(5), r.Intn(5)
			}
			first := 1
			if r.Intn(4) == 0 {
				first = pickInt(r, 5, 95, 990, 9995, 99990, 999980, 5000000)
			}
			ms := f.answer(first, before, after, r.Intn(3) > 0)
			for q, m := range ms {
				if q > 200 {
					break
				}
				if q > 0 && m.LineNumber-len(m.Before) <= ms[q-1].LineNumber+len(ms[q-1].After) {
					t.Count("merged_blocks", 1)
				}
				sig += fmt.Sprintf("%d.%d.%d ", m.LineNumber, len(m.Before), len(m.After))
			}
			res.Matches = append(res.Matches, &index.FileMatch{Filename: fmt.Sprintf("d/F%d_%d.go", k, j), Matches: ms})
		}
		res.FilesWithMatch = len(res.Matches)
		ans[id] = res
		if r.Intn(8) > 0 {
			rep[id] = &config.Repo{Url: pick(r, "https://github.com/org/name.git", "/repo", "", "x", "/", "//", "git@host:a/b.git", "https://h/x/", "/.git", ".git", "a/b", "file:///a"), DisplayName: pick(r, "", "", "Name", "é x")}
		}
		sig += "|"
	}
	s := newC23server(func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/api/v1/repos" {
			json.NewEncoder(w).Encode(rep)
			return
		}
		m := M{"Results": ans}
		if refBool(r.FormValue("stats")) {
			m["Stats"] = M{"FilesOpened": 3, "Duration": 1}
		}
		json.NewEncoder(w).Encode(m)
	})
	defer s.srv.Close()
	tty := i%4 == 0
	o, ok := runHound(t, a.argv(s.host()), tty)
	if !ok {
		return
	}
	if tty {
		t.Count("on_a_terminal", 1)
	}
	t.Eval(1)
	t.Distinct(sig, a.ctx, a.icase, tty)
	data := map[string]interface{}{"arguments": a.argv("H"), "terminal": tty, "repos": rep, "answer": ans, "output": head([]byte(o.out), 3000), "stderr": head([]byte(o.err), 1000)}
	if o.late || o.code != 0 {
		t.Violate("exit", data, "hound %q: exit status %d (too late: %v), stderr %s", a.argv("H"), o.code, o.late, head([]byte(o.err), 600))
		return
	}
	if why := s.sent(t, a); why != "" {
		t.Violate("request", data, "hound %q: %s", a.argv("H"), why)
	}
	if why := checkPrinted(t, o.out, a.ctx, ans); why != "" {
		t.Violate("output", data, "hound %q: %s", a.argv("H"), why)
	}
	// the name of a repository
	for id, rp := range rep {
		want := rp.DisplayName
		if want == "" && rp.Url == "https://github.com/org/name.git" {
			want = "org/name"
		}
		if want != "" && !strings.Contains("\n"+o.out, "\n"+want+"\n") {
			t.Violate("repo-name", data, "repository %s (%s, display name %q) is not shown as %q", id, rp.Url, rp.DisplayName, want)
		}
	}
	if len(t.res.Samples) < 3 {
		t.Sample(map[string]interface{}{"arguments": a.argv("H"), "blocks": clip(sig), "output_bytes": len(o.out)})
	}
}

// c23real: the client on answers of the real handlers.
func c23real(t *T, i int) {
	r := t.Rng("real", i)
	repos := map[string]*config.Repo{}
	trees := map[string]Tree{}
	for k := 0; k < 3; k++ {
		tr := Tree{}
		for j := 0; j < 1+r.Intn(5); j++ {
			tr[fmt.Sprintf("d%d/F%d_%d", j%2, k, j)] = genText(r, Style{Unicode: true}, 40)
		}
		id := fmt.Sprintf("R%d", k)
		trees[id] = tr
		rem := newRemote(fmt.Sprintf("c23-%d-%d", i, k), func(int) Tree { return tr })
		defer rem.drop()
		repos[id] = fakeRepo(rem, repoOpt{ms: 3600000})
	}
	db := t.Dir("db")
	defer os.RemoveAll(db)
	lab, err := newLab(t, db, 3, repos)
	if err != nil || len(lab.Errs) > 0 {
		t.Violate("startup", nil, "startup failed: %v", err)
		return
	}
	defer lab.Close()
	host := strings.TrimPrefix(lab.srv.URL, "http://")
	for k := 0; k < 12 && !t.Stop(); k++ {
		a := houndArgs{pat: pick(r, "foo", "b", "a", "(", "x|y", "func", "^", "[ab]b", "nomatchatall", "[z-a]", "\\bif\\b"), repos: pick(r, "*", "R0", "R1,R2", "nope", "R0,nope"), files: pick(r, "", "d0", "F1", "("), ctx: r.Intn(6), icase: r.Intn(2) == 0,
			set: map[string]bool{"repos": true, "files": true, "ctx": true, "icase": true}}
		o, ok := runHound(t, a.argv(host), false)
		if !ok {
			continue
		}
		t.Eval(1)
		_, patErr := regexp.Compile(a.pat)
		_, fileErr := regexp.Compile(a.files)
		// without any repository nothing is searched
		bad := patErr != nil || (fileErr != nil && a.repos != "nope")
		data := map[string]interface{}{"arguments": a.argv("H"), "output": head([]byte(o.out), 2000), "stderr": head([]byte(o.err), 500)}
		if bad {
			if o.code == 0 || strings.TrimSpace(o.err) == "" {
				t.Violate("error-silent", data, "hound %q: the pattern or filter is bad, but the exit status is %d and stderr %q", a.argv("H"), o.code, head([]byte(o.err), 200))
			}
			t.Count("errors_reported", 1)
			t.Distinct("real-bad", a.pat, a.files)
			continue
		}
		if o.code != 0 {
			t.Violate("exit", data, "hound %q: exit status %d, stderr %s", a.argv("H"), o.code, head([]byte(o.err), 600))
			continue
		}
		ans := map[string]*index.SearchResponse{}
		for id, tr := range trees {
			if a.repos != "*" && !strings.Contains(a.repos, id) {
				continue
			}
			want, err := expected(tr, query{pat: a.pat, icase: a.icase, files: a.files, ctx: uint(a.ctx)})
			if err != nil {
				continue
			}
			if fm := toMatches(tr, want, a.ctx); len(fm) > 0 {
				ans[id] = &index.SearchResponse{Matches: fm}
			}
		}
		if why := checkPrinted(t, o.out, a.ctx, ans); why != "" {
			t.Violate("output", data, "hound %q: %s", a.argv("H"), why)
		}
		t.Count("real_answers", 1)
		t.Distinct("real", a.pat, a.repos, a.files, a.ctx, i)
	}
}

// toMatches turns the reference result into matches with the context taken
// from the files.
func toMatches(tr Tree, want map[string]map[int]string, ctx int) (out []*index.FileMatch) {
	for _, n := range sortedKeys(want) {
		f := &c23file{lines: splitLines(tr[n]), m: map[int]bool{}}
		for k := range want[n] {
			f.m[k] = true
		}
		if ms := f.answer(1, ctx, ctx, true); len(ms) > 0 {
			out = append(out, &index.FileMatch{Filename: n, Matches: ms})
		}
	}
	return
}

func c23fail(t *T, i int) {
	r := t.Rng("fail", i)
	a := c23args(r)
	good := `{"Results":{"R0":{"Matches":[{"Filename":"F","Matches":[{"Line":"foo","LineNumber":3,"Before":[],"After":[]}],"AutoGenerated":false}],"FilesWithMatch":1,"Revision":"x"}}}`
	kind := i % 15
	what := ""
	raw := ""
	status, body, repBody, repStatus := 200, good, `{"R0":{"url":"u"}}`, 200
	switch kind {
	case 0:
		what, body = "Error answer", `{"Error":"something is wrong"}`
	case 1:
		what, body = "Error answer", `{"Error":"error parsing regexp: missing closing ): `+"`"+`(`+"`"+`"}`+"\n"
	case 2:
		what, status, body = "status 500", 500, good
	case 3:
		what, status, body = "status 503", 503, "Hound is not ready.\n"
	case 4:
		what, status, body = "status of an error", pickInt(r, 400, 401, 403, 404, 429, 502), pick(r, `{"Error":"no"}`, `{"message":"no"}`, `{}`, `null`, good)
	case 5:
		what, body = "HTML", "<html></html>"
	case 6:
		what, body = "cut answer", good[:1+r.Intn(len(good)-2)]
	case 7:
		what, body = "empty answer", ""
	case 8:
		what, raw = "cut body", "HTTP/1.1 200 OK\r\nContent-Length: "+fmt.Sprint(len(good))+"\r\n\r\n"+good[:r.Intn(len(good)-1)]
	case 9:
		what, raw = "closed connection", ""
	case 10:
		what = "no server"
	case 11:
		what = "bad pattern"
		a.pat = pick(r, "(", "[z-a]", "a**", "\\", "(?z)", "x{2000}", "*")
		body = `{"Error":"bad"}`
	case 12:
		what, repBody = "broken repository list", pick(r, "<html>", "{", "", `{"R0":5}`)
	case 13:
		what, body = "wrong type", pick(r, `[]`, `"ok"`, `5`, `{"Results":[]}`, `{"Results":{"R0":{"Matches":{}}}}`)
	case 14:
		what = "output cannot be written"
	}
	_ = repStatus
	var host string
	if what == "no server" {
		host = freePort()
	} else if raw != "" || what == "closed connection" {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			fatal("%v", err)
		}
		defer l.Close()
		host = l.Addr().String()
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go func() {
					b := make([]byte, 4096)
					n, _ := c.Read(b)
					if strings.Contains(string(b[:n]), "/api/v1/repos") {
						fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n%s", len(repBody), repBody)
					} else {
						io.WriteString(c, raw)
					}
					c.Close()
				}()
			}
		}()
	} else {
		s := newC23server(func(w http.ResponseWriter, r *http.Request) {
			if r.URL.Path == "/api/v1/repos" {
				io.WriteString(w, repBody)
				return
			}
			w.WriteHeader(status)
			io.WriteString(w, body)
		})
		defer s.srv.Close()
		host = s.host()
	}
	argv := a.argv(host)
	var o houndOut
	if what == "output cannot be written" {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			return
		}
		defer f.Close()
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		c := exec.CommandContext(ctx, filepath.Join(t.Bin, "hound"), argv...)
		var se bytes.Buffer
		c.Stdout, c.Stderr, c.Dir = f, &se, t.Scratch
		c.Run()
		o = houndOut{code: c.ProcessState.ExitCode(), err: se.String(), late: ctx.Err() != nil}
	} else {
		var ok bool
		if o, ok = runHound(t, argv, false); !ok {
			return
		}
	}
	t.Eval(1)
	t.Distinct("fail", what, body, status)
	if o.late || o.code == 0 || strings.TrimSpace(o.err) == "" {
		t.Violate("silent:"+what, map[string]interface{}{"arguments": a.argv("H"), "what": what, "answer": body, "output": o.out, "stderr": o.err}, "%s (%q): hound exits with status %d (too late: %v), prints %q and on stderr %q", what, clip(body), o.code, o.late, clip(o.out), clip(o.err))
		return
	}
	if what == "Error answer" && kind == 0 && !strings.Contains(o.err, "something is wrong") {
		t.Violate("message", nil, "the message of the server is not shown: %q", clip(o.err))
	}
	t.Count("errors_reported", 1)
}
