package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/hound-search/hound/config"
)

func init() {
	register(&Check{ID: "C24", Fn: c24,
		Rule:   "the shipped UI scripts (bundled by esbuild, run in node contexts with the bundled React over a stand-in for the document) against the real API over HTTP: generated trees with markup, entities, non-ASCII text and odd file names, generated patterns, page loads, searches, paging incl. repositories of thousands of matching files, answers delivered in any order, the screen while one is outstanding, failing requests, going back, repeating the search that the form shows, addresses written by hand, folding, repositories on code hosts with http, ssh, port and wiki URLs, the excluded-files page; what is on the screen is compared with the server's own full answer, the marks with Go's matches of the pattern on the line, the links with the URL pattern; non-trivial = distinct (pattern, flags, files shown, lines, marks, pages loaded)",
		Assume: []string{"the marks are compared for patterns JavaScript and RE2 read alike; for others the lines must be shown all the same", "the browser's document is replaced by a small stand-in that keeps the elements, their attributes and text (js/dom.js)", "reqwest and merge-anything are not installed here and are replaced by stand-ins"},
	})
}

// ---------------------------------------------------------------- the UI process

type uiLine struct {
	Num, Href, Text, Bad string
	Marks                [][2]int
}
type uiFile struct {
	Name, Href  string
	Badge, Open bool
	Blocks      [][]uiLine
}
type uiRepo struct {
	Name  string
	Open  bool
	Files []uiFile
	More  *string
}
type uiForm struct {
	Q, Files, Exclude string
	I, Literal        bool
	Repos             []string
}
type uiScreen struct {
	Ready   bool
	Driver  string
	Errors  []string
	Pending int
	Held    int
	Message *string
	Repos   []uiRepo
	History []string
	Form    *uiForm
	Rows    []struct{ Name, Href, Reason string }
	Buttons []string
}

type uiProc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  chan string
	dead bool
	log  []string
	// how long the page may take
	patience time.Duration
}

func startUI(t *T, base string) *uiProc {
	cmd := exec.Command("node", "--max-old-space-size=2048", filepath.Join(verifDir(), "js/ui.js"), base, "/repo/ui/assets/js")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		t.Inconclusive("node: %v", err)
		return nil
	}
	u := &uiProc{cmd: cmd, in: in, out: make(chan string, 16)}
	go func() {
		r := bufio.NewReaderSize(out, 1<<20)
		for {
			s, err := r.ReadString('\n')
			if s != "" {
				u.out <- s
			}
			if err != nil {
				close(u.out)
				return
			}
		}
	}()
	if s, msg := u.read(60 * time.Second); msg != "" || !s.Ready {
		u.Close()
		t.Inconclusive("the UI scripts could not be bundled: %s", msg)
		return nil
	}
	return u
}

func (u *uiProc) Close() {
	u.in.Close()
	u.cmd.Process.Kill()
	u.cmd.Wait()
}

func (u *uiProc) read(d time.Duration) (*uiScreen, string) {
	select {
	case s, ok := <-u.out:
		if !ok {
			u.dead = true
			return nil, "the UI process ended"
		}
		var sc uiScreen
		if err := json.Unmarshal([]byte(s), &sc); err != nil {
			return nil, err.Error()
		}
		if sc.Driver != "" {
			return nil, "driver: " + sc.Driver
		}
		return &sc, ""
	case <-time.After(d):
		u.dead = true
		return nil, "no reaction (the page hangs)"
	}
}

// Do performs one action of the user and reads the screen afterwards.
func (u *uiProc) Do(c M) (*uiScreen, string) {
	b, _ := json.Marshal(c)
	u.log = append(u.log, string(b))
	if len(u.log) > 12 {
		u.log = u.log[1:]
	}
	if _, err := u.in.Write(append(b, '\n')); err != nil {
		u.dead = true
		return nil, "the UI process ended"
	}
	if u.patience == 0 {
		u.patience = 40 * time.Second
	}
	return u.read(u.patience)
}

// ---------------------------------------------------------------- generated material

var c24words = []string{"foo", "bar", "Foo", "FOO", "ab", "aab", "aaa", "b", "<b>", "</em>", "<em>", "&amp;", "&lt;", "&", "<script>alert(1)</script>", "\"q\"", "it's", "$&", "$1", "x.y", "a-b", "{path}", "😀", "😀😀", "é", "É", "日本", "Ω", "ω", "(", ")", "[", "\\", "#", "%41", "\u00a0", "<!--", "&#60;", "=", "x<y>z", "a,b", "42", "7", "a|b", "x/y"}

func c24line(r *rand.Rand) string {
	var b strings.Builder
	for n := r.Intn(9); n >= 0; n-- {
		b.WriteString(c24words[r.Intn(len(c24words))])
		switch r.Intn(6) {
		case 0, 1, 2:
			b.WriteByte(' ')
		case 3:
			b.WriteByte('\t')
		}
	}
	if r.Intn(6) == 0 {
		b.WriteString("foo bar  42 x.y")
	}
	if r.Intn(25) == 0 {
		b.WriteString("\u2028foo")
	}
	if r.Intn(25) == 0 {
		b.WriteString("\r")
	}
	return b.String()
}

func c24text(r *rand.Rand) string {
	var b strings.Builder
	n := 1 + r.Intn(25)
	for i := 0; i < n; i++ {
		if r.Intn(5) > 0 {
			b.WriteString(c24line(r))
		}
		b.WriteByte('\n')
	}
	s := b.String()
	if r.Intn(4) == 0 {
		s = strings.TrimSuffix(s, "\n")
	}
	return s
}

var c24names = []string{"a b.txt", "c#d.go", "e?f=1&g", "%41.txt", "$&.js", "$1/$$.c", "{rev}.txt", "{anchor}{line}.txt", "{filename}", "é/日本.txt", "x+y.txt", "<b>.html", "q\"uote'.txt", "semi;colon", "deep/er/dir/file.txt", "back\\slash.txt", "sp ace/two  spaces", "at@x", "10%", "a&amp;b", "README.md", "no:colon", "tilde~", "{path}/x", "a.md.txt", "x.md/y.md", "two  spaces and more"}

func c24tree(r *rand.Rand, min, max int) Tree {
	tr := Tree{}
	for i, n := 0, min+r.Intn(max-min); i < n; i++ {
		name := fmt.Sprintf("d%d/f%02d.txt", r.Intn(3), i)
		if r.Intn(3) == 0 {
			name = c24names[r.Intn(len(c24names))]
		}
		tr[name] = c24text(r)
	}
	return tr
}

// a pattern that JavaScript and RE2 read alike
type jsGen struct{ r *rand.Rand }

func (g jsGen) atom(d int) (p string, nullable bool) {
	r := g.r
	switch k := r.Intn(14); {
	case k < 6:
		return regexp.QuoteMeta(c24words[r.Intn(len(c24words))]), false
	case k == 6:
		return ".", false
	case k == 7:
		return []string{"[a-c]", "[^a]", "[0-9]", "[fo]", "[^<&]", "[é日]", "[^ ]", "[&<>]", "[😀é]"}[r.Intn(9)], false
	case k == 8:
		return []string{"\\d", "\\w", "\\D", "\\W", "\\t"}[r.Intn(5)], false
	case k == 9:
		return []string{"\\b", "^", "$", "\\B"}[r.Intn(4)], true
	case d > 0:
		p, n := g.alt(d - 1)
		if r.Intn(2) == 0 {
			return "(" + p + ")", n
		}
		return "(?:" + p + ")", n
	}
	return []string{"a", "b", "o", "f", " "}[r.Intn(5)], false
}

func (g jsGen) cat(d int) (string, bool) {
	var b strings.Builder
	null := true
	for n := 1 + g.r.Intn(3); n > 0; n-- {
		p, nl := g.atom(d)
		if !nl && g.r.Intn(3) == 0 {
			q := []string{"*", "+", "?", "*?", "+?", "{2}", "{1,2}", "{1,}?"}[g.r.Intn(8)]
			// JavaScript takes exponential time for (a*)* and (a|aa)*
			// (a known finding, see c24backtracking)
			if p[0] == '(' && strings.ContainsAny(p[1:], "*+{|?") && !strings.HasPrefix(q, "{1,2") {
				q = []string{"?", "{2}", "{1,2}"}[g.r.Intn(3)]
			}
			if len([]rune(p)) > 1 && p[0] != '\\' && p[0] != '[' && p[0] != '(' {
				p = "(?:" + p + ")"
			}
			if strings.HasPrefix(p, "\\") && len(p) > 2 {
				p = "(?:" + p + ")"
			}
			p += q
			nl = q == "*" || q == "?" || q == "*?"
		}
		b.WriteString(p)
		null = null && nl
	}
	return b.String(), null
}

func (g jsGen) alt(d int) (string, bool) {
	p, n := g.cat(d)
	for g.r.Intn(4) == 0 {
		q, m := g.cat(d)
		p, n = p+"|"+q, n || m
	}
	return p, n
}

// patterns that JavaScript does not understand, or not in the same way
var c24foreign = []string{"(?i)foo", "\\pL+", "\\p{Greek}", "(?s)a.b", "\\Qa-b\\E", "(?P<n>foo)", "[[:alpha:]]+", "\\Aa", "foo\\z", "\\x{1F600}", "(?U)a+", "\\C", "a{,2}", "x{", "]", "}", "\\-", "\\#", "(?i:f)oo", "(?-i)foo", "\\a|foo", "[]a]", "foo(?:)", "\\_?o"}

// ---------------------------------------------------------------- oracles

// hrefParts reads a URL as a browser does: path, query and fragment, each with
// its percent escapes undone.
func hrefParts(h string) string {
	h = regexp.MustCompile(`^(https?:)?/{2,}`).ReplaceAllString(h, "$1//")
	dec := func(s string, q bool) string {
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			if s[i] == '%' && i+2 < len(s) {
				var x int
				if n, _ := fmt.Sscanf(s[i+1:i+3], "%02x", &x); n == 1 {
					b.WriteByte(byte(x))
					i += 2
					continue
				}
			}
			if q && s[i] == '+' {
				b.WriteByte(' ')
				continue
			}
			b.WriteByte(s[i])
		}
		return b.String()
	}
	frag, query := "-", "-"
	if i := strings.IndexByte(h, '#'); i >= 0 {
		h, frag = h[:i], dec(h[i+1:], false)
	}
	if i := strings.IndexByte(h, '?'); i >= 0 {
		var ps []string
		for _, p := range strings.Split(h[i+1:], "&") {
			k, v := p, "-"
			if j := strings.IndexByte(p, '='); j >= 0 {
				k, v = p[:j], p[j+1:]
			}
			ps = append(ps, fmt.Sprintf("%q=%q", dec(k, true), dec(v, true)))
		}
		h, query = h[:i], strings.Join(ps, ";")
	}
	return fmt.Sprintf("path %q query %s fragment %q", dec(h, false), query, frag)
}

// wantHref builds the link of the URL pattern with every value escaped.
func wantHref(repo *config.Repo, path string, line int, rev string) string {
	host := c24host(repo.Url)
	if host.wiki {
		// pages of a wiki have no suffix and no lines
		path, line = strings.TrimSuffix(path, ".md"), 0
	}
	esc := func(s string) string {
		var b strings.Builder
		for _, c := range []byte(s) {
			fmt.Fprintf(&b, "%%%02X", c)
		}
		return b.String()
	}
	vars := func(tpl string, v map[string]string) string {
		return regexp.MustCompile(`\{[a-z]+\}`).ReplaceAllStringFunc(tpl, func(m string) string {
			if x, ok := v[m[1:len(m)-1]]; ok {
				return x
			}
			return m
		})
	}
	anchor := ""
	if line > 0 {
		anchor = vars(repo.UrlPattern.Anchor, map[string]string{"line": fmt.Sprint(line), "filename": esc(path[strings.LastIndex(path, "/")+1:])})
	}
	return hrefParts(vars(repo.UrlPattern.BaseUrl, map[string]string{"url": host.url, "path": esc(path), "rev": esc(rev), "anchor": anchor,
		"hostname": host.hostname, "port": host.port, "project": host.project, "repo": host.repo}))
}

// where the web pages of a repository are, read from its URL
type c24web struct {
	url, hostname, port, project, repo string
	wiki                               bool
}

func c24host(u string) (w c24web) {
	u = strings.TrimSuffix(u, ".git")
	if strings.HasSuffix(u, ".wiki") {
		u, w.wiki = strings.TrimSuffix(u, ".wiki")+"/wiki", true
	}
	at := strings.Index(u, "git@")
	if at < 0 {
		at = strings.Index(u, "hg@")
	}
	if at < 0 || !(at == 0 || strings.HasSuffix(u[:at], "://")) {
		w.url = u
		return
	}
	rest := u[strings.IndexByte(u, '@')+1:]
	end := strings.IndexAny(rest, ":/")
	w.hostname, rest = "//"+rest[:end], rest[end:]
	if m := regexp.MustCompile(`^:[0-9]+`).FindString(rest); m != "" {
		w.port, rest = m, rest[len(m):]
	}
	rest = rest[1:]
	slash := strings.LastIndexByte(rest, '/')
	w.project, w.repo = rest[:slash], rest[slash+1:]
	w.url = w.hostname + w.port + "/" + w.project + "/" + w.repo
	return
}

// URLs of repositories on code hosts; %d keeps them apart
var c24urls = []string{
	"git@github.example:user%[1]d/Foo%[1]d.git",
	"ssh://git@github.example/user/Foo%d.git",
	"ssh://hg@bitbucket.example/user%d/Foo",
	"ssh://git@bb.example:7999/ATL%d/jira.git",
	"git@bb.example:7999:org%[1]d/project%[1]d.git",
	"git@lab.example:group%[1]d/sub/Foo%[1]d.bar.git",
	"git@github.example:user%[1]d/Foo%[1]d.wiki.git",
	"https://github.example/user%d/Foo.wiki.git",
	"https://user@github.example:8443/a/user%[1]d/Foo%[1]d.git",
	"http://github.example/%d/Foo.github",
	"https://github.example/wiki/my%d.git.git",
}

type c24file struct {
	name  string
	lines []string // "number mark text"
	nums  []int
	match []bool
	text  []string
	auto  bool
}

// the lines of a file's matches, each once, in order
func c24lines(a *repoAnswer) (out []c24file) {
	for _, fm := range a.Matches {
		text, mark := map[int]string{}, map[int]bool{}
		for _, m := range fm.Matches {
			for k, l := range m.Before {
				text[m.LineNumber-len(m.Before)+k] = l
			}
			text[m.LineNumber] = m.Line
			mark[m.LineNumber] = true
			for k, l := range m.After {
				text[m.LineNumber+1+k] = l
			}
		}
		f := c24file{name: fm.Filename, auto: fm.AutoGenerated}
		for n := range text {
			f.nums = append(f.nums, n)
		}
		sort.Ints(f.nums)
		for _, n := range f.nums {
			f.text = append(f.text, text[n])
			f.match = append(f.match, mark[n])
		}
		out = append(out, f)
	}
	return
}

type c24query struct {
	q       string
	i, lit  bool
	files   string
	exclude string
	repos   []string
	foreign bool
}

func (q c24query) params() M {
	return M{"q": q.q, "files": q.files, "excludeFiles": q.exclude, "i": q.i, "literal": q.lit, "repos": append([]string{}, q.repos...)}
}

func (q c24query) api() url.Values {
	v := url.Values{"files": {q.files}, "excludeFiles": {q.exclude}}
	if q.i {
		v.Set("i", "fosho")
	}
	if q.lit {
		v.Set("literal", "fosho")
	}
	return v
}

// address is one of the addresses that open the search
func (q c24query) address(r *rand.Rand) string {
	enc := func(s string) string {
		s = url.QueryEscape(s)
		if r.Intn(2) == 0 {
			s = strings.ReplaceAll(s, "+", "%20")
		}
		return s
	}
	yes := func() string { return []string{"fosho", "true", "1", "1", "True", "FOSHO"}[r.Intn(6)] }
	no := func() string { return []string{"nope", "false", "0", "no", ""}[r.Intn(5)] }
	var ps []string
	add := func(k, v string, need bool) {
		if need || r.Intn(2) == 0 {
			ps = append(ps, k+"="+v)
		}
	}
	add("q", enc(q.q), true)
	flag := func(k string, on bool) {
		if on {
			add(k, yes(), true)
		} else {
			add(k, no(), false)
		}
	}
	flag("i", q.i)
	flag("literal", q.lit)
	add("files", enc(q.files), q.files != "")
	add("excludeFiles", enc(q.exclude), q.exclude != "")
	switch {
	case len(q.repos) > 0 && r.Intn(2) == 0:
		var rs []string
		for _, n := range q.repos {
			rs = append(rs, enc(n))
			if r.Intn(3) == 0 {
				rs = append(rs, enc(n))
			}
		}
		add("repos", strings.Join(rs, ","), true)
	case len(q.repos) > 0:
		add("repos", enc(strings.Join(q.repos, ",")), true)
	default:
		add("repos", []string{"", "*", "%2A"}[r.Intn(3)], false)
	}
	add("source", "bookmark", false)
	r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	return "?" + strings.Join(ps, "&")
}

func (q c24query) regexp() *regexp.Regexp {
	p := strings.TrimSpace(q.q)
	if q.lit {
		p = regexp.QuoteMeta(p)
	}
	if q.i {
		p = "(?i)" + p
	}
	return regexp.MustCompile("(?m)" + p)
}

type c24bench struct {
	t    *T
	r    *rand.Rand
	lab  *Lab
	u    *uiProc
	ctx  string
	page int // files per answer the UI asks for at first
	last *c24query
	// searches that find much
	broad bool
}

func (b *c24bench) fail(key string, format string, args ...interface{}) {
	b.t.Violate(key, b.u.log, "%s: %s", b.ctx, fmt.Sprintf(format, args...))
}

func (b *c24bench) repoName(name string) string {
	c := b.lab.cfg.Repos[name]
	if c.DisplayName != "" {
		return c.DisplayName
	}
	u := c.Url
	ps := strings.Split(u, "/")
	if len(ps) == 1 {
		return name
	}
	last := strings.TrimSuffix(ps[len(ps)-1], ".git")
	if len(ps) == 2 {
		return last
	}
	return ps[len(ps)-2] + " / " + last
}

// judgeForm compares the search form with the search that is on the screen, and
// starts it again as it stands.
func (b *c24bench) judgeForm(q c24query, s *uiScreen) bool {
	f := s.Form
	if f == nil {
		b.fail("form", "query %+v: the form is not there", q)
		return false
	}
	want := append([]string{}, q.repos...)
	got := append([]string{}, f.Repos...)
	sort.Strings(want)
	sort.Strings(got)
	// all is none
	if len(got) == len(b.lab.cfg.Repos) {
		got = nil
	}
	if f.Q != strings.TrimSpace(q.q) || f.Files != q.files || f.Exclude != q.exclude || f.I != q.i || f.Literal != q.lit || strings.Join(got, ",") != strings.Join(want, ",") {
		b.fail("form", "query %+v: the form shows %+v", q, *f)
		return false
	}
	b.t.Count("forms_compared", 1)
	if b.r.Intn(2) == 0 {
		s, msg := b.u.Do(M{"op": []string{"search", "key"}[b.r.Intn(2)], "params": M{}})
		if msg != "" {
			b.fail("hang", "query %+v, again: %s", q, msg)
			return false
		}
		saved := b.ctx
		b.ctx += " (and started again from the form)"
		if !b.judge(q, s, first20) {
			return false
		}
		b.ctx = saved
		b.t.Count("form_searches", 1)
	}
	return true
}

// judge compares the screen with the server's full answers; shown gives the
// number of files that must be there per repository.
func (b *c24bench) judge(q c24query, s *uiScreen, shown func(total int) int) bool {
	t := b.t
	if len(s.Errors) > 0 {
		b.fail("script-error", "query %+v: the script failed: %s", q, strings.Join(s.Errors, " / "))
		return false
	}
	if s.Pending > 0 {
		b.fail("pending", "query %+v: %d requests unanswered", q, s.Pending)
		return false
	}
	repos := "*"
	if len(q.repos) > 0 {
		repos = strings.Join(q.repos, ",")
	}
	a, err := b.lab.Search(repos, strings.TrimSpace(q.q), q.api())
	if err != nil {
		b.fail("api", "query %+v: %v", q, err)
		return false
	}
	if a.Error != "" {
		if s.Message == nil || !strings.Contains(*s.Message, a.Error) {
			b.fail("error-shown", "query %+v: the server's error %q is not shown: %v", q, a.Error, s.Message)
			return false
		}
		t.Count("errors_shown", 1)
		return true
	}
	names := keysOfAnswers(a)
	if len(names) == 0 {
		if len(s.Repos) != 0 || s.Message == nil || !strings.Contains(*s.Message, "0 results") {
			b.fail("no-result", "query %+v: nothing matches, shown: %s", q, showScreen(s))
			return false
		}
		t.Count("no_results", 1)
		return true
	}
	if s.Message != nil {
		b.fail("message", "query %+v: %d repositories match, shown: %q", q, len(names), *s.Message)
		return false
	}
	if len(s.Repos) != len(names) {
		b.fail("repos", "query %+v: %d repositories shown, want %v", q, len(s.Repos), names)
		return false
	}
	seen := map[string]bool{}
	marks, lines, files := 0, 0, 0
	for _, sr := range s.Repos {
		name := ""
		for _, n := range names {
			if b.repoName(n) == sr.Name && !seen[n] {
				name = n
				break
			}
		}
		// several may have the name; they are told apart by their files
		for _, n := range names {
			if n != name && b.repoName(n) == sr.Name {
				b.t.Inconclusive("two repositories are shown as %q", sr.Name)
				return false
			}
		}
		if name == "" {
			b.fail("repo-name", "query %+v: repository %q shown, want one of %v", q, sr.Name, names)
			return false
		}
		seen[name] = true
		want := c24lines(a.Results[name])
		n := shown(len(want))
		if len(sr.Files) != n {
			b.fail("files", "query %+v, repository %s: %d files shown, want %d of %d; shown: %s", q, name, len(sr.Files), n, len(want), showScreen(s))
			return false
		}
		if (sr.More != nil) != (n < len(want)) {
			b.fail("more", "query %+v, repository %s: %d of %d files shown, button to load the rest: %v", q, name, n, len(want), sr.More != nil)
			return false
		}
		if sr.More != nil && !(strings.Contains(*sr.More, fmt.Sprint(len(want))) && strings.Contains(*sr.More, sr.Name)) {
			b.fail("more-label", "query %+v, repository %s: %d files, button %q", q, name, len(want), *sr.More)
			return false
		}
		repo := b.lab.cfg.Repos[name]
		rev := a.Results[name].Revision
		for k, sf := range sr.Files {
			w := want[k]
			if sf.Name != w.name || sf.Badge != w.auto || sf.Open == w.auto {
				b.fail("file", "query %+v, repository %s, file %d: shown %q (badge %v, open %v), want %q (auto-generated %v)", q, name, k, sf.Name, sf.Badge, sf.Open, w.name, w.auto)
				return false
			}
			if got, wt := hrefParts(sf.Href), wantHref(repo, w.name, 0, rev); got != wt {
				b.fail("link", "query %+v: link of %q is %q (%s), want %s", q, w.name, sf.Href, got, wt)
				return false
			}
			var flat []uiLine
			for _, bl := range sf.Blocks {
				flat = append(flat, bl...)
			}
			if len(flat) != len(w.nums) {
				b.fail("lines", "query %+v, file %q: lines shown %v, want %v", q, w.name, nums(flat), w.nums)
				return false
			}
			for j, l := range flat {
				if l.Num != fmt.Sprint(w.nums[j]) {
					b.fail("lines", "query %+v, file %q: lines shown %v, want %v", q, w.name, nums(flat), w.nums)
					return false
				}
				if l.Bad != "" || l.Text != w.text[j] {
					b.fail("line-text", "query %+v, file %q, line %s: shown as %q (%s), is %q", q, w.name, l.Num, l.Text, l.Bad, w.text[j])
					return false
				}
				if got, wt := hrefParts(l.Href), wantHref(repo, w.name, w.nums[j], rev); got != wt {
					b.fail("link", "query %+v: link of %q, line %s is %q (%s), want %s", q, w.name, l.Num, l.Href, got, wt)
					return false
				}
				if !w.match[j] && len(l.Marks) > 0 {
					b.fail("marks", "query %+v, file %q, line %s: a context line %q is marked: %v", q, w.name, l.Num, l.Text, l.Marks)
					return false
				}
				if w.match[j] && !q.foreign && !strings.Contains(l.Text, "\ufffd") {
					if wm := wantMarks(q.regexp(), l.Text); !(len(wm) == 0 && len(l.Marks) == 0) && !reflect.DeepEqual(wm, l.Marks) {
						b.fail("marks", "query %+v, file %q, line %s %q: marked %v, matches %v", q, w.name, l.Num, l.Text, l.Marks, wm)
						return false
					}
					marks += len(l.Marks)
				}
				lines++
			}
			files++
		}
	}
	t.Count("lines_compared", lines)
	t.Count("marks_compared", marks)
	t.Count("files_compared", files)
	if q.foreign {
		t.Count("foreign_patterns", 1)
	}
	if files > 0 {
		t.Distinct(q.q, q.i, q.lit, files, lines, marks)
	}
	t.Eval(1)
	return true
}

func keysOfAnswers(a *searchAnswer) (names []string) {
	for n := range a.Results {
		names = append(names, n)
	}
	sort.Strings(names)
	return
}

func nums(ls []uiLine) (out []string) {
	for _, l := range ls {
		out = append(out, l.Num)
	}
	return
}

func showScreen(s *uiScreen) string {
	b, _ := json.Marshal(s)
	return string(head(b, 3000))
}

// wantMarks gives the non-empty matches on a line, in characters.
func wantMarks(re *regexp.Regexp, line string) (out [][2]int) {
	for _, m := range re.FindAllStringIndex(line, -1) {
		if m[0] < m[1] {
			out = append(out, [2]int{utf8.RuneCountInString(line[:m[0]]), utf8.RuneCountInString(line[:m[1]])})
		}
	}
	return
}

var c24patterns = []config.UrlPattern{
	{BaseUrl: "{url}/blob/{rev}/{path}{anchor}", Anchor: "#L{line}"},
	{BaseUrl: "{url}?path={path}&at={rev}{anchor}", Anchor: "#{filename}-{line}"},
	{BaseUrl: "https://code.example/{rev}/x/{rev}/{path}{anchor}", Anchor: "?l={line}&m={line}"},
	{BaseUrl: "{url}/src/{path}?at={rev}{anchor}", Anchor: "#lines-{line}"},
	{BaseUrl: "https://h/{path}?again={path}{anchor}", Anchor: "#{line}"},
	{BaseUrl: "https:{hostname}{port}/projects/{project}/repos/{repo}/browse/{path}?at={rev}{anchor}", Anchor: "#{line}"},
}

func newC24bench(t *T, tag string, i, min, max int) *c24bench {
	r := t.Rng(tag, i)
	top := t.Dir("ui")
	repos := map[string]*config.Repo{}
	names := []string{"r0", "c++", "a&b=c"}
	if r.Intn(4) == 0 {
		names = []string{"r0", "constructor", "toString"}
	}
	for k, n := range names[:1+r.Intn(3)] {
		dir := filepath.Join(top, fmt.Sprintf("src%d", k), []string{"proj", "pr.git", "x"}[r.Intn(3)])
		writeTree(dir, c24tree(r, min, max))
		p := c24patterns[r.Intn(len(c24patterns))]
		c := &config.Repo{Url: "file://" + dir, Vcs: "local", UrlPattern: &p, MsBetweenPolls: 1 << 30, ExcludeDotFiles: true}
		if r.Intn(3) == 0 {
			c.DisplayName = "Disp <" + n + "> & co"
		}
		if r.Intn(3) == 0 {
			c.AutoGeneratedFiles = []string{"d1/*", "a b.txt"}
		}
		repos[n] = c
	}
	return c24setup(t, r, top, repos, fmt.Sprintf("%s %d", tag, i))
}

func c24setup(t *T, r *rand.Rand, top string, repos map[string]*config.Repo, ctx string) *c24bench {
	db := filepath.Join(top, "db")
	os.MkdirAll(db, 0755)
	lab, err := newLab(t, db, 2, repos)
	if err != nil || len(lab.Errs) > 0 {
		t.Violate("start", nil, "%s: %v %v", ctx, err, lab)
		return nil
	}
	// the url shown to the UI names a host
	var names []string
	for n := range repos {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		c := repos[n]
		repos[n].Url = strings.Replace(c.Url, "file://"+top, "https://git.example", 1)
		if r.Intn(2) == 0 {
			repos[n].Url = fmt.Sprintf(c24urls[r.Intn(len(c24urls))], len(n))
			t.Count("code_hosts", 1)
		}
	}
	u := startUI(t, lab.srv.URL)
	if u == nil {
		lab.Close()
		return nil
	}
	return &c24bench{t: t, r: r, lab: lab, u: u, ctx: ctx, page: 20}
}

func (b *c24bench) Close() {
	b.u.Close()
	b.lab.Close()
}

func (b *c24bench) load(search string) (*uiScreen, string) {
	c := M{"op": "load", "search": search}
	if b.r.Intn(2) == 0 {
		_, body, _ := getBody(b.lab.client, b.lab.srv.URL+"/api/v1/repos")
		c["model"] = string(body)
	}
	return b.u.Do(c)
}

func (b *c24bench) repoNames() (names []string) {
	for n := range b.lab.cfg.Repos {
		names = append(names, n)
	}
	sort.Strings(names)
	return
}

func (b *c24bench) query() c24query {
	r := b.r
	if b.last != nil && r.Intn(4) == 0 {
		b.t.Count("repeated_searches", 1)
		q := *b.last
		b.last = &q
		// the same pattern with another option
		switch r.Intn(6) {
		case 0:
			if !strings.Contains(q.q, "\\W") && !strings.Contains(q.q, "\\w") {
				q.i = !q.i
			}
		case 1:
			q.files = []string{"", "d0/", "d[12]/"}[r.Intn(3)]
		case 2:
			q.exclude = []string{"", "d0/", "d[12]/"}[r.Intn(3)]
		case 3:
			q.repos = nil
			if names := b.repoNames(); len(names) > 1 {
				q.repos = []string{names[r.Intn(len(names))]}
			}
		case 4:
			q.lit, q.foreign = true, false
			if strings.TrimSpace(q.q) == "" {
				q.lit = b.last.lit
			}
		}
		return q
	}
	g := jsGen{r}
	q := c24query{i: r.Intn(2) == 0}
	defer func() { b.last = &q }()
	for {
		switch r.Intn(8) {
		case 0:
			q.q, q.lit = c24words[r.Intn(len(c24words))], true
			if r.Intn(4) == 0 {
				q.q = []string{"x.y", "foo bar  42 x.y", "bar  42 x.y", "r  4", "<b>", "a|b", "o b"}[r.Intn(7)]
			} else if r.Intn(2) == 0 {
				q.q += []string{" ", "", "-", "  "}[r.Intn(4)] + c24words[r.Intn(len(c24words))]
			}
		case 1:
			q.q, q.foreign, q.lit = c24foreign[r.Intn(len(c24foreign))], true, false
		case 2:
			q.q, q.foreign, q.lit = []string{"a*", "x*", "", "^", "$", "\\b", "(|a)", "a*|b", "^a|b", "^|foo", "()", "a??", "b?$"}[r.Intn(13)], false, false
		case 3:
			q.q, q.foreign, q.lit = []string{"(", "[a", "*a", "a{2,1}", "\\8"}[r.Intn(5)], true, false
		case 4, 5:
			if b.broad || r.Intn(3) == 0 {
				q.q, q.foreign, q.lit = []string{"foo", "o", "[a-c]+", "x.y", "b|o", "."}[r.Intn(6)], false, r.Intn(3) == 0
				break
			}
			fallthrough
		default:
			for {
				q.q, _ = g.alt(2)
				// polynomial time is enough, too
				if len(regexp.MustCompile(`[*+]|\{1,\}`).FindAllString(q.q, -1)) < 5 {
					break
				}
			}
			q.foreign, q.lit = false, false
		}
		// a case-insensitive \W or [^…] differs between the dialects
		if q.i && (strings.Contains(q.q, "\\W") || strings.Contains(q.q, "\\w")) {
			continue
		}
		if strings.TrimSpace(q.q) != q.q {
			continue
		}
		break
	}
	if r.Intn(6) == 0 {
		q.files = []string{"d0/", "\\.txt$", "README", "d0/|a&b=c", "+", "%41|d0|1+", "two  spaces and|d1"}[r.Intn(7)]
	}
	if r.Intn(6) == 0 {
		q.exclude = []string{"d0/", "\\.txt$", "README", "d1/|[&=]", "(", "a%62|d[12]/|2+"}[r.Intn(6)]
	}
	names := b.repoNames()
	if r.Intn(3) == 0 && len(names) > 1 {
		p := r.Perm(len(names))
		for n := 1 + r.Intn(2); n > 0 && len(q.repos) < len(names)-1; n-- {
			q.repos = append(q.repos, names[p[len(q.repos)]])
		}
	}
	return q
}

func first20(total int) int {
	if total > 20 {
		return 20
	}
	return total
}

func c24(t *T) {
	t.Par(t.N(24, 400), 6, func(i int) { c24browse(t, i) })
	t.Par(t.N(6, 60), 6, func(i int) { c24order(t, i) })
	t.Par(t.N(4, 40), 4, func(i int) { c24excluded(t, i) })
	c24excludedRev(t)
	c24backtracking(t)
	for i := 0; i < t.N(1, 6) && !t.Stop(); i++ {
		c24many(t, i)
	}
	for _, c := range []string{"marks_compared", "foreign_patterns", "load_more", "reordered", "excluded_rows", "many_files", "reloaded", "went_back", "failed_requests", "addresses", "folded", "code_hosts", "forms_compared", "form_searches"} {
		if t.Counter(c) == 0 && !t.Stop() {
			t.Inconclusive("no %s", c)
		}
	}
}

// c24browse: one page, a sequence of searches, each paged through and reloaded.
func c24browse(t *T, i int) {
	b := newC24bench(t, "browse", i, 1, []int{31, 31, 60}[i%3])
	if b == nil {
		return
	}
	defer b.Close()
	if _, msg := b.load(""); msg != "" {
		b.fail("load", "%s", msg)
		return
	}
	type visited struct {
		q    c24query
		addr string
	}
	var past []visited
	for k := 0; k < t.N(14, 25) && !t.Stop(); k++ {
		q := b.query()
		t.Current("%s: query %+v", b.ctx, q)
		s, msg := b.u.Do(M{"op": []string{"search", "key"}[b.r.Intn(2)], "params": q.params()})
		if msg != "" {
			b.fail("hang", "query %+v: %s", q, msg)
			return
		}
		if q.q == "" {
			// the page answers an empty query itself
			if len(s.Errors) > 0 || len(s.Repos) > 0 || s.Pending > 0 {
				b.fail("empty-query", "an empty query: %s", showScreen(s))
				return
			}
			t.Count("empty_queries", 1)
			continue
		}
		if !b.judge(q, s, first20) {
			return
		}
		hist := s.History
		// what the user types meanwhile does not change what is shown
		more := -1
		for j, sr := range s.Repos {
			if sr.More != nil {
				more = j
			}
		}
		if more >= 0 {
			if b.r.Intn(2) == 0 {
				b.u.Do(M{"op": "type", "params": M{"q": "zz", "i": !q.i}})
			}
			s, msg = b.u.Do(M{"op": "more", "index": 0, "times": 1 + b.r.Intn(2)})
			if msg != "" {
				b.fail("hang", "query %+v, load more: %s", q, msg)
				return
			}
			if !b.judgeAfterMore(q, s) {
				return
			}
			t.Count("load_more", 1)
		}
		// a click folds everything and another unfolds it
		if b.r.Intn(6) == 0 && s.Message == nil {
			for _, label := range []string{"Collapse all", "Expand all"} {
				s, msg = b.u.Do(M{"op": "toggle", "label": label})
				if msg != "" {
					b.fail("hang", "query %+v, %s: %s", q, label, msg)
					return
				}
				for _, sr := range s.Repos {
					for _, sf := range sr.Files {
						if want := label == "Expand all"; sr.Open != want || sf.Open != want {
							b.fail("fold", "query %+v, after %q: repository open %v, file %s open %v", q, label, sr.Open, sf.Name, sf.Open)
							return
						}
					}
				}
				t.Count("folded", 1)
			}
		}
		// back to an earlier search and to this one again
		if len(hist) > 0 {
			if e := (visited{q, hist[len(hist)-1]}); e.addr != "" {
				past = append(past, e)
			}
		}
		if len(past) > 1 && b.r.Intn(4) == 0 {
			for _, e := range []visited{past[b.r.Intn(len(past))], past[len(past)-1]} {
				s, msg = b.u.Do(M{"op": "back", "search": e.addr[strings.IndexByte(e.addr, '?'):]})
				if msg != "" {
					b.fail("hang", "back to %s: %s", e.addr, msg)
					return
				}
				b.ctx += " (back to " + e.addr + ")"
				if !b.judge(e.q, s, first20) || !b.judgeForm(e.q, s) {
					return
				}
				b.ctx = strings.SplitN(b.ctx, " (", 2)[0]
				t.Count("went_back", 1)
			}
		}
		// the server fails once, and is back
		if b.r.Intn(6) == 0 {
			b.u.Do(M{"op": "fail", "times": 1})
			s, msg = b.u.Do(M{"op": "search", "params": q.params()})
			if msg != "" || len(s.Errors) > 0 || s.Pending > 0 {
				b.fail("failure", "query %+v, the server fails: %s %v", q, msg, s)
				return
			}
			if s.Message == nil || len(s.Repos) > 0 || strings.Contains(*s.Message, "0 results") || strings.Contains(*s.Message, "Searching") {
				b.fail("failure", "query %+v: the server failed, shown: %s", q, showScreen(s))
				return
			}
			s, msg = b.u.Do(M{"op": "search", "params": q.params()})
			if msg != "" {
				b.fail("hang", "query %+v after a failure: %s", q, msg)
				return
			}
			b.ctx += " (after a failed request)"
			if !b.judge(q, s, first20) {
				return
			}
			b.ctx = strings.SplitN(b.ctx, " (", 2)[0]
			t.Count("failed_requests", 1)
		}
		// an address written by hand or by another program
		if b.r.Intn(3) == 0 {
			addr := q.address(b.r)
			s, msg := b.load(addr)
			if msg != "" {
				b.fail("hang", "query %+v, load of %s: %s", q, addr, msg)
				return
			}
			b.ctx += " (loaded " + addr + ")"
			if !b.judge(q, s, first20) || !b.judgeForm(q, s) {
				return
			}
			b.ctx = strings.SplitN(b.ctx, " (", 2)[0]
			t.Count("addresses", 1)
			past = []visited{{q, addr}}
			for _, sr := range s.Repos {
				if sr.More == nil {
					continue
				}
				if s, msg = b.u.Do(M{"op": "more", "index": 0}); msg != "" {
					b.fail("hang", "query %+v, load more after %s: %s", q, addr, msg)
					return
				}
				if !b.judgeAfterMore(q, s) {
					return
				}
				break
			}
			continue
		}
		// the address of the result shows the same again
		if len(hist) > 0 && b.r.Intn(3) == 0 {
			h := hist[len(hist)-1]
			s, msg := b.load(h[strings.IndexByte(h, '?'):])
			if msg != "" {
				b.fail("hang", "query %+v, reload of %s: %s", q, h, msg)
				return
			}
			b.ctx += " (reloaded " + h + ")"
			if !b.judge(q, s, first20) || !b.judgeForm(q, s) {
				return
			}
			b.ctx = strings.SplitN(b.ctx, " (", 2)[0]
			past = nil
			t.Count("reloaded", 1)
		}
	}
}

// one repository (the first with a button) shows all its files, the others 20
func (b *c24bench) judgeAfterMore(q c24query, s *uiScreen) bool {
	full := 0
	return b.judge(q, s, func(total int) int {
		if total > 20 {
			full++
			if full == 1 {
				return total
			}
			return 20
		}
		return total
	})
}

// judgeWaiting: while a search is under way nothing of an earlier one is shown.
func (b *c24bench) judgeWaiting(q c24query, s *uiScreen, before string) bool {
	b.t.Count("screens_while_waiting", 1)
	if len(s.Repos) > 0 || s.Message != nil && (strings.Contains(*s.Message, "ERROR") || strings.Contains(*s.Message, "0 results")) {
		b.fail("waiting:"+before, "query %+v is under way (before it: %s), shown: %s", q, before, showScreen(s))
		return false
	}
	return true
}

// c24order: answers that arrive in another order than they were asked for
func c24order(t *T, i int) {
	b := newC24bench(t, "order", i, 20, 60)
	if b == nil {
		return
	}
	b.broad = true
	defer b.Close()
	if _, msg := b.load(""); msg != "" {
		b.fail("load", "%s", msg)
		return
	}
	for k := 0; k < t.N(8, 12) && !t.Stop(); k++ {
		n := 2 + b.r.Intn(3)
		var q c24query
		// what was on the screen before: the results, nothing found, or an error
		before := []string{"results", "nothing", "bad pattern", "failure"}[b.r.Intn(4)]
		switch before {
		case "nothing":
			b.u.Do(M{"op": "search", "params": c24query{q: "no such text anywhere"}.params()})
		case "bad pattern":
			b.u.Do(M{"op": "search", "params": c24query{q: "(foo"}.params()})
		case "failure":
			b.u.Do(M{"op": "fail", "times": 1})
			b.u.Do(M{"op": "search", "params": c24query{q: "foo"}.params()})
		}
		b.u.Do(M{"op": "hold"})
		for j := 0; j < n; j++ {
			for {
				q = b.query()
				if q.q != "" {
					break
				}
			}
			if j < n-1 && b.r.Intn(3) == 0 {
				b.u.Do(M{"op": "fail", "times": 1})
				t.Count("late_failures", 1)
			}
			s, msg := b.u.Do(M{"op": "search", "params": q.params(), "wait": false})
			if msg != "" {
				b.fail("hang", "query %+v: %s", q, msg)
				return
			}
			if !b.judgeWaiting(q, s, before) {
				return
			}
		}
		order := b.r.Perm(n)
		s, msg := b.u.Do(M{"op": "release", "order": order})
		if msg != "" {
			b.fail("hang", "answers in the order %v: %s", order, msg)
			return
		}
		saved := b.ctx
		b.ctx += fmt.Sprintf(" (last of %d searches, answers delivered in the order %v)", n, order)
		if !b.judge(q, s, first20) {
			return
		}
		b.ctx = saved
		t.Count("reordered", 1)
		has, buttons := false, 0
		for _, sr := range s.Repos {
			if sr.More != nil {
				has = true
				buttons++
			}
		}
		// all buttons at once
		if has && b.r.Intn(4) == 0 {
			b.u.Do(M{"op": "hold"})
			for j := 0; j < buttons; j++ {
				b.u.Do(M{"op": "more", "index": j, "wait": false})
			}
			s, msg := b.u.Do(M{"op": "release", "order": b.r.Perm(buttons)})
			if msg != "" {
				b.fail("hang", "query %+v, load more: %s", q, msg)
				return
			}
			b.ctx += fmt.Sprintf(" (%d buttons pressed at once)", buttons)
			if !b.judge(q, s, func(total int) int { return total }) {
				return
			}
			b.ctx = saved
			t.Max("buttons_at_once", int64(buttons))
			continue
		}
		// more files of this search arrive after the next search
		if has {
			b.u.Do(M{"op": "hold"})
			for j := 0; j < buttons; j++ {
				if j > 0 && b.r.Intn(2) == 0 {
					continue
				}
				if b.r.Intn(3) == 0 {
					b.u.Do(M{"op": "fail", "times": 1})
				}
				b.u.Do(M{"op": "more", "index": j, "times": 1 + b.r.Intn(2), "wait": false})
				b.u.Do(M{"op": "fail", "times": 0})
			}
			q2 := b.query()
			if q2.q == "" {
				q2 = c24query{q: "foo"}
			}
			s, msg := b.u.Do(M{"op": "search", "params": q2.params(), "wait": false})
			if msg == "" {
				// usually the answer to the search comes first
				order := []int{7, 6, 5, 4, 3, 2, 1, 0}
				if b.r.Intn(3) == 0 {
					order = b.r.Perm(8)
				}
				s, msg = b.u.Do(M{"op": "release", "order": order})
			}
			if msg != "" {
				b.fail("hang", "search during loading: %s", msg)
				return
			}
			b.ctx += fmt.Sprintf(" (searched while more files of %+v were loading)", q)
			if !b.judge(q2, s, first20) {
				return
			}
			b.ctx = saved
			t.Count("more_overtaken", 1)
		}
	}
}

// c24excluded: the page of excluded files
func c24excluded(t *T, i int) {
	r := t.Rng("excluded", i)
	top := t.Dir("ui")
	repos := map[string]*config.Repo{}
	for k, n := range []string{"r0", "none", "c++"} {
		dir := filepath.Join(top, fmt.Sprintf("src%d", k), "proj")
		tr := Tree{"keep.txt": "text\n"}
		if n != "none" {
			for j := 0; j < 1+r.Intn(12); j++ {
				name := fmt.Sprintf("bin%d", j)
				if r.Intn(2) == 0 {
					name = c24names[r.Intn(len(c24names))]
				}
				tr[name] = "\xff\xfe\x00binary"
			}
			tr[".hidden <i>"] = "x"
		}
		writeTree(dir, tr)
		p := c24patterns[r.Intn(len(c24patterns))]
		// {rev} is left to the last, listed case
		p.BaseUrl = regexp.MustCompile(`\{rev\}`).ReplaceAllString(p.BaseUrl, "tip")
		repos[n] = &config.Repo{Url: "file://" + dir, Vcs: "local", UrlPattern: &p, MsBetweenPolls: 1 << 30, ExcludeDotFiles: true}
	}
	b := c24setup(t, r, top, repos, fmt.Sprintf("excluded %d", i))
	if b == nil {
		return
	}
	defer b.Close()
	s, msg := b.u.Do(M{"op": "load", "page": "excluded_files"})
	if msg != "" || len(s.Errors) > 0 {
		b.fail("excluded-load", "%s %+v", msg, s)
		return
	}
	sort.Strings(s.Buttons)
	if want := []string{"c++", "none", "r0"}; !reflect.DeepEqual(s.Buttons, want) {
		b.fail("excluded-repos", "repositories offered: %v, want %v", s.Buttons, want)
		return
	}
	judge := func(n, how string) bool {
		if len(s.Errors) > 0 || s.Pending > 0 {
			b.fail("excluded-error", "%s of %s: %+v", how, n, s.Errors)
			return false
		}
		_, body, _ := getBody(b.lab.client, b.lab.srv.URL+"/api/v1/excludes?"+url.Values{"repo": {n}}.Encode())
		var want []struct{ Filename, Reason string }
		if err := json.Unmarshal(body, &want); err != nil {
			b.fail("excluded-api", "%s: %v", n, err)
			return false
		}
		if len(s.Rows) != len(want) || s.Message != nil {
			b.fail("excluded-rows", "%s of %s: %d rows shown, want %d (%v)", how, n, len(s.Rows), len(want), s.Message)
			return false
		}
		for k, w := range want {
			g := s.Rows[k]
			if g.Name != w.Filename || g.Reason != w.Reason {
				b.fail("excluded-rows", "%s of %s: row %d shown as %q %q, want %q %q", how, n, k, g.Name, g.Reason, w.Filename, w.Reason)
				return false
			}
			repo := b.lab.cfg.Repos[n]
			if got, wt := hrefParts(g.Href), wantHref(repo, w.Filename, 0, ""); got != wt {
				b.fail("excluded-link", "%s of %s: link of %q is %q (%s), want %s", how, n, w.Filename, g.Href, got, wt)
				return false
			}
			t.Count("excluded_rows", 1)
		}
		t.Eval(1)
		t.Distinct("excluded", n, len(want))
		return true
	}
	for k := 0; k < 6; k++ {
		n := []string{"r0", "none", "c++"}[r.Intn(3)]
		if s, msg = b.u.Do(M{"op": "exclude", "repo": n}); msg != "" {
			b.fail("hang", "excluded files of %s: %s", n, msg)
			return
		}
		if !judge(n, "excluded files") {
			return
		}
		// two clicks, answers in the other order
		m := []string{"r0", "none", "c++"}[r.Intn(3)]
		b.u.Do(M{"op": "hold"})
		b.u.Do(M{"op": "exclude", "repo": n, "wait": false})
		b.u.Do(M{"op": "exclude", "repo": m, "wait": false})
		if s, msg = b.u.Do(M{"op": "release", "order": []int{1, 0}}); msg != "" {
			b.fail("hang", "excluded files of %s: %s", m, msg)
			return
		}
		if !judge(m, "excluded files (after a click on "+n+" that was answered later)") {
			return
		}
	}
}

// c24excludedRev: links of the excluded files when the URL pattern names the revision
func c24excludedRev(t *T) {
	top := t.Dir("ui")
	dir := filepath.Join(top, "src", "proj")
	writeTree(dir, Tree{"keep.txt": "text\n", "bin": "\xff\xfe"})
	p := c24patterns[0]
	b := c24setup(t, t.Rng("rev"), top, map[string]*config.Repo{"r": {Url: "file://" + dir, Vcs: "local", UrlPattern: &p, MsBetweenPolls: 1 << 30}}, "excluded, {rev} in the pattern")
	if b == nil {
		return
	}
	defer b.Close()
	b.u.Do(M{"op": "load", "page": "excluded_files"})
	s, msg := b.u.Do(M{"op": "exclude", "repo": "r"})
	if msg != "" || len(s.Rows) != 1 {
		b.fail("excluded-rev-rows", "%s %s", msg, showScreen(s))
		return
	}
	a, err := b.lab.Search("r", "text", nil)
	if err != nil || a.Results["r"] == nil {
		b.fail("api", "%v", err)
		return
	}
	repo := b.lab.cfg.Repos["r"]
	got := hrefParts(s.Rows[0].Href)
	switch got {
	case wantHref(repo, "bin", 0, a.Results["r"].Revision), wantHref(repo, "bin", 0, "HEAD"):
	case wantHref(repo, "bin", 0, "undefined"):
		b.fail("excluded-link-rev:undefined", "the link of an excluded file names the revision \"undefined\": %q", s.Rows[0].Href)
	default:
		b.fail("excluded-link", "the link of an excluded file is %q", s.Rows[0].Href)
	}
	t.Eval(1)
}

// c24many: more matching files than one request may load
func c24many(t *T, i int) {
	r := t.Rng("many", i)
	top := t.Dir("ui")
	dir := filepath.Join(top, "src", "proj")
	tr := Tree{}
	n := []int{4500, 2020, 2021, 6100, 4019, 2500}[i%6]
	for k := 0; k < n; k++ {
		tr[fmt.Sprintf("d%02d/f%05d", k%37, k)] = fmt.Sprintf("needle %d\n", k)
	}
	writeTree(dir, tr)
	p := c24patterns[0]
	b := c24setup(t, r, top, map[string]*config.Repo{"r": {Url: "file://" + dir, Vcs: "local", UrlPattern: &p, MsBetweenPolls: 1 << 30}}, fmt.Sprintf("many %d (%d files)", i, n))
	if b == nil {
		return
	}
	defer b.Close()
	q := c24query{q: "needle \\d+"}
	s, msg := b.load("?q=needle%20%5Cd%2B")
	for clicks := 0; ; clicks++ {
		if msg != "" || len(s.Repos) != 1 {
			b.fail("hang", "%d clicks: %s %v", clicks, msg, s)
			return
		}
		if s.Repos[0].More == nil {
			break
		}
		before := len(s.Repos[0].Files)
		if s, msg = b.u.Do(M{"op": "more", "index": 0}); msg == "" && len(s.Repos) == 1 && len(s.Repos[0].Files) <= before {
			b.fail("paging", "the button %q loads nothing more after %d of %d files", strOf(s.Repos[0].More), before, n)
			return
		}
	}
	if !b.judge(q, s, func(total int) int { return total }) {
		return
	}
	t.Max("many_files", int64(len(s.Repos[0].Files)))
}

func strOf(p *string) string {
	if p == nil {
		return "<none>"
	}
	return *p
}

// c24backtracking: a pattern RE2 matches in linear time
func c24backtracking(t *T) {
	top := t.Dir("ui")
	dir := filepath.Join(top, "src", "proj")
	writeTree(dir, Tree{"a": "c " + strings.Repeat("a", 60) + "\n"})
	p := c24patterns[0]
	b := c24setup(t, t.Rng("backtracking"), top, map[string]*config.Repo{"r": {Url: "file://" + dir, Vcs: "local", UrlPattern: &p, MsBetweenPolls: 1 << 30}}, "backtracking")
	if b == nil {
		return
	}
	defer b.Close()
	if _, msg := b.load(""); msg != "" {
		b.fail("load", "%s", msg)
		return
	}
	b.u.patience = 8 * time.Second
	q := c24query{q: "c|(a+)*b"}
	s, msg := b.u.Do(M{"op": "search", "params": q.params()})
	if msg != "" {
		b.fail("hang:"+q.q, "query %+v: %s", q, msg)
		return
	}
	b.judge(q, s, first20)
}
