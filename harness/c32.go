package main

import (
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
)

func init() {
	register(&Check{ID: "C32", Fn: c32,
		Rule:   "corpora of 20-120 files made of words, near-misses of them (one letter changed, letters in another case, the trigrams of a word spread over a file, words cut short) and noise; patterns made of known required words (literals, alternatives, repetitions, words joined by gaps, anchors, ignoring case, literal searches), with name filters and match limits, on indexes and over HTTP on servers with several repositories; inotify on the stored copies tells which files each search opened; that must be no file that a filter rejects or that lacks a trigram the pattern requires, none after the match limit is reached, none twice, and for the repositories of the answer as many as it says; non-trivial = distinct (pattern, files opened) with a file left out",
		Assume: []string{"inotify reports every opening of a file (a kernel guarantee unless its queue overflows, which is detected)"},
	})
}

// opens watches a directory tree for files that are opened.
type opens struct {
	fd   int
	dirs map[int32]string
}

func watchOpens(root string) (*opens, error) {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		return nil, err
	}
	o := &opens{fd, map[int32]string{}}
	err = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || !fi.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		wd, err := syscall.InotifyAddWatch(fd, p, syscall.IN_OPEN)
		o.dirs[int32(wd)] = rel
		return err
	})
	if err != nil {
		syscall.Close(fd)
		return nil, err
	}
	o.take()
	return o, nil
}

func (o *opens) Close() { syscall.Close(o.fd) }

// take returns the files opened since the last call, in order.
func (o *opens) take() (out []string, ok bool) {
	ok = true
	buf := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(o.fd, buf)
		if n <= 0 || err != nil {
			return
		}
		for b := buf[:n]; len(b) >= syscall.SizeofInotifyEvent; {
			e := (*syscall.InotifyEvent)(unsafe.Pointer(&b[0]))
			name := strings.TrimRight(string(b[syscall.SizeofInotifyEvent:syscall.SizeofInotifyEvent+int(e.Len)]), "\x00")
			if e.Mask&syscall.IN_Q_OVERFLOW != 0 {
				ok = false
			} else if e.Mask&syscall.IN_ISDIR == 0 && name != "" {
				out = append(out, filepath.Join(o.dirs[e.Wd], name))
			}
			b = b[syscall.SizeofInotifyEvent+int(e.Len):]
		}
	}
}

// ---------------------------------------------------------------- patterns with known requirements

// c32need says what a pattern requires of a file.
type c32need struct {
	all  []*c32need
	any  []*c32need
	word string
	fold bool
}

func (n *c32need) met(text, lower string) bool {
	if n == nil {
		return true
	}
	for _, x := range n.all {
		if !x.met(text, lower) {
			return false
		}
	}
	if len(n.any) > 0 {
		ok := false
		for _, x := range n.any {
			ok = ok || x.met(text, lower)
		}
		if !ok {
			return false
		}
	}
	w, in := n.word, text
	if n.fold {
		w, in = strings.ToLower(w), lower
	}
	for i := 0; i+3 <= len(w); i++ {
		if !strings.Contains(in, w[i:i+3]) {
			return false
		}
	}
	return true
}

// no k and no s, which have non-ASCII variants
var c32words = []string{"handler", "filename", "return", "matcher", "buffer", "openFile", "github.com/x", "TODO(me)", "err != nil", "été", "日本語", "ABCDEF", "abcabd", "aaaa", "0x1f2e", "defer", "func", "go:build", "ab\tcd", "{{end}}", "int", "a.b.c.d", "index/grep.go", "yield", "quota", "number", "window", "value", "public", "package"}

type c32gen struct {
	r    *rand.Rand
	fold bool
	used []string
}

func (g *c32gen) word() (string, *c32need) {
	w := c32words[g.r.Intn(len(c32words))]
	for g.fold && (w != strings.ToLower(w) || strings.ContainsAny(w, "kKsS") || !ascii(w)) {
		w = c32words[g.r.Intn(len(c32words))]
	}
	g.used = append(g.used, w)
	p := regexp.QuoteMeta(w)
	if g.fold {
		b := []byte(w)
		for i := range b {
			if 'a' <= b[i] && b[i] <= 'z' && g.r.Intn(3) == 0 {
				b[i] -= 32
			}
		}
		p = regexp.QuoteMeta(string(b))
	}
	return p, &c32need{word: w, fold: g.fold}
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func (g *c32gen) pat(d int) (string, *c32need) {
	if d <= 0 {
		return g.word()
	}
	switch g.r.Intn(9) {
	case 8: // a word with a few variants
		if g.fold {
			return g.word()
		}
		w := c32words[g.r.Intn(len(c32words))]
		for !ascii(w) || len(w) < 4 {
			w = c32words[g.r.Intn(len(c32words))]
		}
		i := g.r.Intn(len(w))
		rest := i + 1
		if g.r.Intn(3) == 0 && rest < len(w) {
			rest++
		}
		vs := []string{w[i:rest], pick(g.r, "q", "zz", "0", "Xy", "eh")}
		if g.r.Intn(2) == 0 {
			vs = append(vs, pick(g.r, "j", "vv", "7"))
		}
		cls := ""
		if g.r.Intn(3) == 0 { // a range of letters
			c := byte('a' + g.r.Intn(22))
			cls, vs = fmt.Sprintf("[%c-%c]", c, c+3), nil
			for k := byte(0); k < 4; k++ {
				vs = append(vs, string(rune(c+k)))
			}
		}
		need := &c32need{}
		var ps []string
		mixed := false
		var full []string
		for _, v := range vs {
			mixed = mixed || len(v) != len(vs[0])
			full = append(full, w[:i]+v+w[rest:])
			g.used = append(g.used, w[:i]+v+w[rest:])
			ps = append(ps, regexp.QuoteMeta(v))
		}
		// surely required are the text on either side, and at each place
		// the trigram that one of the variants has there (not all of the
		// same variant), if they are of one length
		need.all = append(need.all, &c32need{word: w[:i]}, &c32need{word: w[rest:]})
		for k := 0; !mixed && k+3 <= len(full[0]); k++ {
			at := &c32need{}
			for _, f := range full {
				at.any = append(at.any, &c32need{word: f[k : k+3]})
			}
			need.all = append(need.all, at)
		}
		if cls != "" {
			return regexp.QuoteMeta(w[:i]) + cls + regexp.QuoteMeta(w[rest:]), need
		}
		return regexp.QuoteMeta(w[:i]) + "(?:" + strings.Join(ps, "|") + ")" + regexp.QuoteMeta(w[rest:]), need
	case 0, 1: // parts with something between
		p, n := g.pat(d - 1)
		need := &c32need{all: []*c32need{n}}
		for k := 1 + g.r.Intn(2); k > 0; k-- {
			q, m := g.pat(d - 1)
			p += pick(g.r, ".*", ".+", `\d+`, "[a-z]*", `\s`, ".", "(x|y)?", ".{0,9}", `\b`, `[^;]*?`, "", "(?:)") + q
			need.all = append(need.all, m)
		}
		return p, need
	case 2: // alternatives that begin with different letters
		need := &c32need{}
		var ps []string
		first := map[byte]bool{}
		for k := 2 + g.r.Intn(6); k > 0; k-- {
			q, m := g.word()
			c := m.word[0] | 0x20
			if first[c] {
				continue
			}
			first[c] = true
			ps, need.any = append(ps, q), append(need.any, m)
		}
		return "(" + strings.Join(ps, "|") + ")", need
	case 3:
		p, n := g.pat(d - 1)
		return "(?:" + p + ")" + pick(g.r, "+", "+?", "{1,2}", "{2}", "{1}"), n
	case 4: // something optional beside it
		p, n := g.pat(d - 1)
		q, _ := g.word()
		return p + "(?:" + q + ")" + pick(g.r, "?", "*", "{0,2}"), n
	case 5:
		p, n := g.pat(d - 1)
		return "(" + p + ")", n
	case 6:
		p, n := g.pat(d - 1)
		return pick(g.r, "^", "^.*", `\b`, "", "[a-z ]*", `\W?`) + "(?:" + p + ")" + pick(g.r, "$", ".*$", `\b`, "", "[^a]*", `\d?`), n
	}
	return g.word()
}

// ---------------------------------------------------------------- corpora

func c32tree(r *rand.Rand, words []string, n int) Tree {
	tr := Tree{}
	near := func(w string) string {
		rs := []rune(w)
		i := r.Intn(len(rs))
		switch r.Intn(7) {
		case 0: // one letter changed
			rs[i] = rune("qzXj_9é"[r.Intn(7)])
			if rs[i] > 127 {
				rs[i] = 'z'
			}
		case 1:
			return strings.ToUpper(w)
		case 2: // cut short
			return string(rs[:len(rs)-1]) + " " + string(rs[1:])
		case 3: // the trigrams, not the word
			s := ""
			for j := 0; j+3 <= len(w); j++ {
				s += w[j:j+3] + " "
			}
			return strings.ToValidUTF8(s, "")
		case 4: // all but one trigram
			s := ""
			skip := r.Intn(len(w))
			for j := 0; j+3 <= len(w); j++ {
				if j != skip {
					s += w[j:j+3] + "\n"
				}
			}
			return strings.ToValidUTF8(s, "")
		case 5:
			return string(rs[:i]) + "\n" + string(rs[i:])
		case 6: // reversed
			for a, b := 0, len(rs)-1; a < b; a, b = a+1, b-1 {
				rs[a], rs[b] = rs[b], rs[a]
			}
		}
		return string(rs)
	}
	for i := 0; i < n; i++ {
		s := ""
		for k := r.Intn(7); k >= 0; k-- {
			w := c32words[r.Intn(len(c32words))]
			if len(words) > 0 && r.Intn(2) == 0 {
				w = words[r.Intn(len(words))]
			}
			switch r.Intn(5) {
			case 0, 1:
				w = near(w)
			case 2:
				w += w
			}
			s += w + pick(r, " ", "\n", "", " 12 ", ";\n", "x")
		}
		tr[pick(r, "", "d1/", "d2/", "d2/e/")+fmt.Sprintf("f%02d%s", i, pick(r, "", ".go", ".txt"))] = s
	}
	return tr
}

type c32query struct {
	pat            string
	icase, lit     bool
	files, exclude string
	max            int
	need           *c32need
}

func (q c32query) String() string {
	return fmt.Sprintf("%q icase=%v literal=%v files=%q exclude=%q max=%d", q.pat, q.icase, q.lit, q.files, q.exclude, q.max)
}

func c32queries(r *rand.Rand, n int) (qs []c32query, words []string) {
	for len(qs) < n {
		g := &c32gen{r: r, fold: r.Intn(3) == 0}
		var q c32query
		q.icase = g.fold
		if r.Intn(4) == 0 {
			p, need := g.word()
			q.pat, q.need = p, need
			if un, ok := unquote(p); ok && r.Intn(2) == 0 {
				q.pat, q.lit = un, true
			}
		} else {
			q.pat, q.need = g.pat(1 + r.Intn(3))
		}
		if _, err := regexp.Compile(q.pat); err != nil && !q.lit || len(q.pat) > 300 {
			continue
		}
		if r.Intn(3) == 0 {
			q.files = pick(r, "d1", `\.go$`, "d[12]", "f.[0-4]", "^f", "e/")
		}
		if r.Intn(4) == 0 {
			q.exclude = pick(r, "d1", `\.go$`, "e/", "f.[0-4]")
		}
		if r.Intn(3) == 0 {
			q.max = 1 + r.Intn(6)
		}
		qs = append(qs, q)
		words = append(words, g.used...)
	}
	return
}

func unquote(p string) (string, bool) {
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		if p[i] == '\\' {
			i++
		}
		b.WriteByte(p[i])
	}
	return b.String(), true
}

// allowed: the files that the filters pass and that have what the pattern requires
func (q c32query) allowed(tr Tree) map[string]bool {
	out := map[string]bool{}
	for n, s := range tr {
		if q.files != "" && !regexp.MustCompile(q.files).MatchString(n) {
			continue
		}
		if q.exclude != "" && regexp.MustCompile(q.exclude).MatchString(n) {
			continue
		}
		if q.need.met(s, strings.ToLower(s)) {
			out[n] = true
		}
	}
	return out
}

// judge compares the files that were opened with those that may be.
func c32judge(t *T, q c32query, tr Tree, opened []string, matches []*index.FileMatch, where string) bool {
	ok := q.allowed(tr)
	seen := map[string]bool{}
	data := M{"query": q.String(), "opened": opened, "where": where}
	for _, n := range opened {
		if seen[n] {
			t.Violate("twice", data, "%s: %s: %s was opened twice", where, q, n)
			return false
		}
		seen[n] = true
		if !ok[n] {
			t.Violate("needless", data, "%s: %s: %s was opened, which the filters reject or which lacks a trigram that every match needs: %q", where, q, n, head([]byte(tr[n]), 300))
			return false
		}
	}
	total := 0
	for _, f := range matches {
		total += len(f.Matches)
		if !seen[f.Filename] {
			t.Violate("unseen", data, "%s: %s: %s matches, but was never opened", where, q, f.Filename)
			return false
		}
	}
	if q.max > 0 && total >= q.max {
		t.Count("limit_reached", 1)
		last := matches[len(matches)-1].Filename
		if opened[len(opened)-1] != last {
			t.Violate("after-limit", data, "%s: %s: the limit was reached in %s, yet opened were %q", where, q, last, opened)
			return false
		}
	}
	t.Count("files_opened", len(opened))
	t.Count("files_not_opened", len(tr)-len(opened))
	t.Count("files_of_matches", len(matches))
	if len(opened) < len(tr) {
		sort.Strings(opened)
		t.Distinct(q.pat, q.icase, strings.Join(opened, " "))
	}
	return true
}

func c32(t *T) {
	t.Par(t.N(150, 8000), 6, func(i int) {
		r := t.Rng("corpus", i)
		qs, words := c32queries(r, 12)
		tr := c32tree(r, words, 20+r.Intn(100))
		ix, dst, err := buildIndex(t, tr, &index.IndexOptions{})
		defer os.RemoveAll(dst)
		if err != nil {
			t.Violate("build", nil, "build: %v", err)
			return
		}
		defer ix.Close()
		o, err := watchOpens(filepath.Join(dst, "raw"))
		if err != nil {
			t.Inconclusive("inotify: %v", err)
			return
		}
		defer o.Close()
		for _, q := range qs {
			t.Eval(1)
			opt := &index.SearchOptions{IgnoreCase: q.icase, LiteralSearch: q.lit, FileRegexp: q.files, ExcludeFileRegexp: q.exclude, MaxResults: q.max}
			res, err := ix.Search(q.pat, opt)
			if err != nil {
				t.Violate("error", q.String(), "%s: %v", q, err)
				return
			}
			opened, whole := o.take()
			if !whole {
				t.Inconclusive("the event queue overflowed")
				return
			}
			if res.FilesOpened != len(opened) {
				t.Violate("count", M{"query": q.String(), "opened": opened}, "%s: FilesOpened is %d, opened were %d: %q", q, res.FilesOpened, len(opened), opened)
				return
			}
			if !c32judge(t, q, tr, opened, res.Matches, fmt.Sprintf("corpus %d", i)) {
				return
			}
		}
	})
	for i := 0; i < t.N(6, 150) && !t.Stop(); i++ {
		c32server(t, i)
	}
	if t.Counter("files_not_opened") < t.Counter("files_opened") || t.Counter("limit_reached") == 0 || t.Counter("served") == 0 {
		t.Inconclusive("hardly a file was left out, or no limit reached")
	}
}

// c32server: the same over HTTP, with the count of all repositories together
func c32server(t *T, i int) {
	r := t.Rng("server", i)
	qs, words := c32queries(r, 25)
	db := t.Dir("db")
	defer os.RemoveAll(db)
	repos, trees := map[string]*config.Repo{}, map[string]Tree{}
	for k := 2 + r.Intn(3); k > 0; k-- {
		n := fmt.Sprintf("r%d", k)
		tr := c32tree(r, words, 10+r.Intn(40))
		trees[n] = tr
		rm := newRemote(fmt.Sprintf("c32-%d-%s", i, n), func(int) Tree { return tr })
		defer rm.drop()
		repos[n] = fakeRepo(rm, repoOpt{})
	}
	l, err := newLab(t, db, 2, repos)
	if err != nil {
		t.Violate("start", nil, "%v", err)
		return
	}
	defer l.Close()
	watch := map[string]*opens{}
	for n := range repos {
		a, err := l.Search(n, "", nil)
		if err != nil || a.Results[n] == nil {
			t.Violate("start", nil, "server %d: %v %v", i, err, a)
			return
		}
	}
	for _, d := range idxDirs(db) {
		ref, err := index.Read(filepath.Join(db, d))
		if err != nil {
			t.Inconclusive("%v", err)
			return
		}
		o, err := watchOpens(filepath.Join(db, d, "raw"))
		if err != nil {
			t.Inconclusive("inotify: %v", err)
			return
		}
		defer o.Close()
		watch[strings.TrimPrefix(ref.Url, fmt.Sprintf("fake://c32-%d-", i))] = o
	}
	if len(watch) != len(repos) {
		t.Inconclusive("%d indexes of %d repositories", len(watch), len(repos))
		return
	}
	names := []string{}
	for n := range repos {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, q := range qs {
		t.Eval(1)
		sel := "*"
		var in []string
		if r.Intn(2) == 0 {
			for _, n := range names {
				if r.Intn(2) == 0 {
					in = append(in, n)
				}
			}
		}
		if len(in) == 0 {
			in = names
		} else {
			sel = strings.Join(in, ",")
		}
		v := url.Values{"stats": {"fosho"}, "files": {q.files}, "excludeFiles": {q.exclude}, "rng": {":"}, "ctx": {"0"}}
		if q.icase {
			v.Set("i", "fosho")
		}
		if q.lit {
			v.Set("literal", "fosho")
		}
		if q.max > 0 {
			v.Set("limit", fmt.Sprint(q.max))
		}
		a, err := l.Search(sel, q.pat, v)
		if err != nil || a.Error != "" || a.Stats == nil {
			t.Violate("error", q.String(), "%s: %v %+v", q, err, a)
			return
		}
		sum := 0
		for n, o := range watch {
			opened, whole := o.take()
			if !whole {
				t.Inconclusive("the event queue overflowed")
				return
			}
			asked := false
			for _, x := range in {
				asked = asked || x == n
			}
			if !asked && len(opened) > 0 {
				t.Violate("other", q.String(), "server %d: a search of %s opened %q of %s", i, sel, opened, n)
				return
			}
			if !asked {
				continue
			}
			var ms []*index.FileMatch
			if a.Results[n] != nil {
				ms = a.Results[n].Matches
				sum += len(opened)
			}
			if !c32judge(t, q, trees[n], opened, ms, fmt.Sprintf("server %d, %s of %s", i, n, sel)) {
				return
			}
		}
		if sum != a.Stats.FilesOpened {
			t.Violate("count", q.String(), "server %d: %s over %s: Stats.FilesOpened is %d, opened were %d", i, q, sel, a.Stats.FilesOpened, sum)
			return
		}
		t.Count("served", 1)
	}
}
