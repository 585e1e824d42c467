package main

import (
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"strings"

	"github.com/hound-search/hound/index"
)

func init() {
	register(&Check{ID: "C01", Fn: c01,
		Rule: "random corpora (1-14 files, ASCII/Unicode/CRLF/dense alphabets, files up to several MiB, lines up to 1 MiB, literals made of regexp syntax) x random queries (regexp or literal, ignore-case, file and exclude filters) built from corpus fragments; a case is one (corpus, query) answer compared line by line with Go regexp; non-trivial = distinct query with at least one and not all lines matching",
	})
}

type hit struct {
	file string
	line int
	text string
}

type query struct {
	pat            string
	literal, icase bool
	files, exclude string
	ctx            uint
}

func (q query) String() string {
	return fmt.Sprintf("pat=%q literal=%v icase=%v files=%q exclude=%q ctx=%d", q.pat, q.literal, q.icase, q.files, q.exclude, q.ctx)
}

func (q query) opts() *index.SearchOptions {
	return &index.SearchOptions{IgnoreCase: q.icase, LiteralSearch: q.literal, FileRegexp: q.files, ExcludeFileRegexp: q.exclude, LinesOfContext: q.ctx}
}

// reference compiles the query for the reference engine.
func (q query) reference() (re, fre, xre *regexp.Regexp, err error) {
	p := q.pat
	if q.literal {
		p = regexp.QuoteMeta(p)
	}
	if q.icase {
		p = "(?i)(?m)" + p
	} else {
		p = "(?m)" + p
	}
	if re, err = regexp.Compile(p); err != nil {
		return
	}
	if q.files != "" {
		if fre, err = regexp.Compile(q.files); err != nil {
			return
		}
	}
	if q.exclude != "" {
		xre, err = regexp.Compile(q.exclude)
	}
	return
}

func expected(tr Tree, q query) (map[string]map[int]string, error) {
	re, fre, xre, err := q.reference()
	if err != nil {
		return nil, err
	}
	out := map[string]map[int]string{}
	for n, c := range tr {
		if fre != nil && !fre.MatchString(n) {
			continue
		}
		if xre != nil && xre.MatchString(n) {
			continue
		}
		for i, l := range splitLines(c) {
			if re.MatchString(l) {
				if out[n] == nil {
					out[n] = map[int]string{}
				}
				out[n][i+1] = l
			}
		}
	}
	return out, nil
}

// diffSearch returns "" if the answer is exactly want.
func diffSearch(res *index.SearchResponse, want map[string]map[int]string) string {
	got := map[string]bool{}
	for _, f := range res.Matches {
		if got[f.Filename] {
			return fmt.Sprintf("file %q reported twice", f.Filename)
		}
		got[f.Filename] = true
		w := want[f.Filename]
		seen := map[int]bool{}
		last := 0
		for _, m := range f.Matches {
			if seen[m.LineNumber] {
				return fmt.Sprintf("%s:%d reported twice", f.Filename, m.LineNumber)
			}
			if m.LineNumber < last {
				return fmt.Sprintf("%s:%d out of order", f.Filename, m.LineNumber)
			}
			last = m.LineNumber
			seen[m.LineNumber] = true
			x, ok := w[m.LineNumber]
			if !ok {
				return fmt.Sprintf("extra: %s:%d %q does not match", f.Filename, m.LineNumber, m.Line)
			}
			if x != m.Line {
				return fmt.Sprintf("text: %s:%d is %q, reported %q", f.Filename, m.LineNumber, clip(x), clip(m.Line))
			}
		}
		for n, l := range w {
			if !seen[n] {
				return fmt.Sprintf("missing: %s:%d %q", f.Filename, n, clip(l))
			}
		}
	}
	for f, w := range want {
		if !got[f] {
			for n, l := range w {
				return fmt.Sprintf("missing file %s (line %d %q)", f, n, clip(l))
			}
		}
	}
	if res.FilesWithMatch != len(want) {
		return fmt.Sprintf("FilesWithMatch=%d, want %d", res.FilesWithMatch, len(want))
	}
	return ""
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "…"
	}
	return s
}

var nameParts = []string{"a", "b", "main", "Foo", "foo", "util", "x1", "README", "test", "é", "日", "with space", "k", "Makefile", "a+b", "c.d"}
var nameExts = []string{".go", ".c", ".h", ".txt", "", ".md", ".Go", ".min.js", "_test.go"}

func genName(r *rand.Rand) string {
	n := ""
	for d := r.Intn(3); d > 0; d-- {
		n += nameParts[r.Intn(len(nameParts))] + "/"
	}
	return n + nameParts[r.Intn(len(nameParts))] + nameExts[r.Intn(len(nameExts))]
}

func genTree(r *rand.Rand, st Style, maxFiles, maxLines int) Tree {
	tr := Tree{}
	n := 1 + r.Intn(maxFiles)
	for len(tr) < n {
		name := genName(r)
		// a file must not be a directory of another one
		bad := false
		for o := range tr {
			if strings.HasPrefix(o, name+"/") || strings.HasPrefix(name, o+"/") {
				bad = true
			}
		}
		if bad {
			continue
		}
		tr[name] = genText(r, st, maxLines)
	}
	return tr
}

func genFileFilter(r *rand.Rand, tr Tree) string {
	ns := tr.names()
	n := ns[r.Intn(len(ns))]
	switch r.Intn(10) {
	case 0:
		return "\\.go$"
	case 1:
		return regexp.QuoteMeta(n)
	case 2:
		return "^" + regexp.QuoteMeta(n) + "$"
	case 3:
		i := r.Intn(len(n))
		rs := []rune(n[i:])
		if len(rs) == 0 || rs[0] == 0xfffd {
			return "a"
		}
		return regexp.QuoteMeta(string(rs[0]))
	case 4:
		return "(?i)foo"
	case 5:
		return "^[^/]*$"
	case 6:
		return "/"
	case 7:
		return nameParts[r.Intn(3)] + "|" + "main"
	case 8:
		return "^" + string([]rune(n)[0])
	}
	return "[" + string([]rune(n)[0]) + "z]"
}

func genQuery(r *rand.Rand, st Style, tr Tree, texts []string) query {
	var q query
	g := &patGen{r: r, st: st, depth: 2, frags: fragsOf(r, texts, 6)}
	q.icase = r.Intn(3) == 0
	if r.Intn(4) == 0 {
		q.literal = true
		if len(g.frags) > 0 && r.Intn(4) > 0 {
			q.pat = g.frags[r.Intn(len(g.frags))]
		} else {
			q.pat = genWord(r, st) + seps[r.Intn(len(seps))] + genWord(r, st)
		}
		if q.icase && r.Intn(2) == 0 {
			q.pat = strings.ToUpper(q.pat)
		}
	} else {
		for try := 0; ; try++ {
			q.pat = g.pattern()
			re, ok := validPattern(q.pat)
			if ok && !(st.Unicode && usesNoWordBoundary(re)) {
				break
			}
			if try > 50 {
				q.pat = "a"
				break
			}
		}
	}
	if r.Intn(4) == 0 {
		q.files = genFileFilter(r, tr)
	}
	if r.Intn(4) == 0 {
		q.exclude = genFileFilter(r, tr)
	}
	if r.Intn(4) == 0 {
		q.ctx = uint(r.Intn(4))
	}
	return q
}

func c01(t *T) {
	nCorpora := t.N(112, 3200)
	nQueries := t.N(140, 300)
	t.Par(nCorpora, 0, func(ci int) {
		r := t.Rng("corpus", ci)
		st := Style{Unicode: ci%3 == 1, CRLF: ci%5 == 2, Dense: ci%4 == 3}
		tr := genTree(r, st, 14, 30)
		if ci%16 == 5 {
			// larger than the read buffer, with matches in every part
			tr["big/file.txt"] = bigText(r, st, 1<<20+r.Intn(3<<20))
		}
		if ci%16 == 9 {
			// content ends exactly at a buffer boundary
			s := bigText(r, st, 1<<20+4096)
			n := 1<<20 - 1 + r.Intn(3)
			tr["edge.txt"] = cutValid(s, n)
		}
		if ci%11 == 4 {
			tr["empty"] = ""
			tr["nl"] = "\n"
			tr["nlnl"] = "\n\n"
			tr["one"] = "a"
		}
		ix, dst, err := buildIndex(t, tr, &index.IndexOptions{})
		defer os.RemoveAll(dst)
		if err != nil {
			t.Violate("build", tr.names(), "building an index of ordinary text files failed: %v", err)
			return
		}
		defer ix.Close()
		texts := []string{}
		for _, n := range tr.names() {
			texts = append(texts, tr[n])
		}
		nq := nQueries
		if ci%16 == 5 || ci%16 == 9 {
			nq = 12
		}
		for qi := 0; qi < nq && !t.Stop(); qi++ {
			rq := t.Rng("q", ci, qi)
			q := genQuery(rq, st, tr, texts)
			c01one(t, ix, tr, q, fmt.Sprintf("corpus %d query %d", ci, qi))
		}
		if ci%4 == 0 {
			c01bad(t, ix)
		}
	})
	c01directed(t)
	c01fold(t)
	c01giant(t)
	c01literal(t)
	c01long(t)
	c01together(t)
}

// c01together: the same few queries from many goroutines at once, over several
// indexes, as a server of several repositories does it.
func c01together(t *T) {
	for round := 0; round < t.N(3, 40) && !t.Stop(); round++ {
		r := t.Rng("together", round)
		st := Style{Unicode: round%2 == 1, Dense: true}
		var trs []Tree
		var ixs []*index.Index
		for k := 0; k < 4; k++ {
			tr := genTree(r, st, 12, 40)
			tr[fmt.Sprintf("only%d", k)] = bigText(r, st, 1<<16)
			ix, dst, err := buildIndex(t, tr, &index.IndexOptions{})
			defer os.RemoveAll(dst)
			if err != nil {
				t.Violate("build", tr.names(), "building an index of ordinary text files failed: %v", err)
				return
			}
			defer ix.Close()
			trs, ixs = append(trs, tr), append(ixs, ix)
		}
		var texts []string
		for _, n := range trs[0].names() {
			texts = append(texts, trs[0][n])
		}
		var qs []query
		for len(qs) < 6 {
			if q := genQuery(r, st, trs[0], texts); len(qs) > 2 || q.files == "" {
				qs = append(qs, q)
			}
		}
		t.Par(t.N(240, 400), 12, func(i int) {
			k := i % len(ixs)
			c01one(t, ixs[k], trs[k], qs[i/len(ixs)%len(qs)], fmt.Sprintf("together %d", round))
			t.Count("searches_together", 1)
		})
	}
}

// c01fold: letters with unusual case partners (or none), inside of words that
// are long enough for the trigram filter.
func c01fold(t *T) {
	words := []string{"İstanbul", "istanbul", "ISTANBUL", "ıstanbul", "i̇stanbul", "straße", "STRASSE", "STRAẞE", "ſtrasse", "Kelvin", "kelvin", "\u212aelvin", "KELVIN",
		"Ångström", "\u212bngström", "ångström", "ΣΑΣ", "σας", "σασ", "ΣΑς", "µm size", "μm size", "ΜM SIZE", "Ǆep", "ǅep", "ǆep", "ﬁle", "FILE", "file", "θeta", "ϑeta", "ΘETA", "ϴETA",
		"ωmega", "ΩMEGA", "\u2126MEGA", "ꙋnit", "ᲈnit", "Ꙋnit", "ŉda", "ῼab", "ῳab", "Ⅷth", "ⅷth", "ⓐbc", "Ⓐbc", "𐐀abc", "𐐨abc", "ᏸabc", "Ᏸabc", "ꭰabc", "Ꭰabc", "aͅbc", "aιbc", "aΙbc", "aιbc"}
	tr := Tree{"all": strings.Join(words, "\n") + "\n"}
	for i, w := range words {
		tr[fmt.Sprintf("f%d", i)] = "before " + w + " after\nsecond line\n"
	}
	ix, dst, err := buildIndex(t, tr, &index.IndexOptions{})
	defer os.RemoveAll(dst)
	if err != nil {
		t.Violate("build", nil, "%v", err)
		return
	}
	defer ix.Close()
	for _, w := range words {
		rs := []rune(w)
		for _, v := range []string{w, strings.ToLower(w), strings.ToUpper(w), strings.ToTitle(w), "^" + w, w + "$", " " + w + " ", string(rs[1:]), string(rs[:3]), "[" + string(rs[0]) + "]" + string(rs[1:]), "(?i:" + string(rs[0]) + ")" + string(rs[1:])} {
			for m := 0; m < 4; m++ {
				c01one(t, ix, tr, query{pat: v, icase: m&1 != 0, literal: m&2 != 0}, "case partners")
			}
		}
	}
}

// c01literal: texts full of what has a meaning in patterns, and every part of
// them as a literal query.
func c01literal(t *T) {
	parts := []string{"\\", "E", "Q", "\\E", "\\Q", "a", ".", "*", "+", "?", "(", ")", "[", "]", "{", "}", "^", "$", "|", "(?i)", "(?m)", "(?s)", "\\n", "\\x41", "\\pL", "\\b", "{2}", "[^a]", "A", " ", "#", "-", "/", "\\z", "\\A", "é", "\\d"}
	for i := 0; i < t.N(24, 400) && !t.Stop(); i++ {
		r := t.Rng("literal", i)
		tr := Tree{}
		var lines []string
		for f := 0; f < 6; f++ {
			var b strings.Builder
			for l := 0; l < 12; l++ {
				x := ""
				for k := r.Intn(7); k >= 0; k-- {
					x += parts[r.Intn(len(parts))]
				}
				lines = append(lines, x)
				b.WriteString(x + "\n")
			}
			tr[fmt.Sprintf("f%d", f)] = b.String()
		}
		ix, dst, err := buildIndex(t, tr, &index.IndexOptions{})
		if err != nil {
			t.Violate("build", nil, "%v", err)
			os.RemoveAll(dst)
			return
		}
		for k := 0; k < 120; k++ {
			rs := []rune(lines[r.Intn(len(lines))])
			a := r.Intn(len(rs))
			x := string(rs[a : a+1+r.Intn(len(rs)-a)])
			if k%4 == 3 {
				x += parts[r.Intn(len(parts))]
			}
			q := query{pat: x, literal: true, icase: k%3 == 0}
			if k%5 == 0 {
				q.files = "^f[0-3]$"
			}
			t.Count("literal_queries", 1)
			c01one(t, ix, tr, q, "special characters")
		}
		ix.Close()
		os.RemoveAll(dst)
	}
}

// c01long: lines that are long enough for every buffer on the way, and files
// whose lines lie around the boundaries of those buffers.
func c01long(t *T) {
	for i := 0; i < t.N(6, 60) && !t.Stop(); i++ {
		r := t.Rng("long", i)
		tr := Tree{}
		for f := 0; f < 4; f++ {
			var b strings.Builder
			// at most a tenth of the lines may have more than 2000 bytes
			b.WriteString(strings.Repeat("x\n", 100))
			for l := 0; l < 12; l++ {
				n := []int{1 << 10, 1 << 12, 1 << 14, 1 << 16, 1 << 17, 1 << 18, 1 << 20}[r.Intn(7)] + r.Intn(5) - 2
				b.WriteString("head")
				b.WriteString(strings.Repeat(string("ab cd"[r.Intn(5)]), n-9+r.Intn(3)))
				b.WriteString("tail\n")
				for k := r.Intn(4); k > 0; k-- {
					b.WriteString(genLine(r, Style{}) + "\n")
				}
			}
			tr[fmt.Sprintf("f%d", f)] = b.String()
		}
		ix, dst, err := buildIndex(t, tr, &index.IndexOptions{})
		if err != nil {
			t.Violate("build", nil, "%v", err)
			os.RemoveAll(dst)
			return
		}
		for _, q := range []query{{pat: "tail$"}, {pat: "^head"}, {pat: "^heada+tail$"}, {pat: "head +tail", ctx: 1}, {pat: "tail", literal: true}, {pat: "foo", ctx: 3}, {pat: "bta", literal: true}, {pat: "HEADC.*LT?AIL$", icase: true}} {
			t.Count("long_line_queries", 1)
			c01one(t, ix, tr, q, "long lines")
		}
		ix.Close()
		os.RemoveAll(dst)
	}
}

// c01giant: files just below the size from which on they are not indexed.
func c01giant(t *T) {
	line := func(i int) string { return fmt.Sprintf("line %d of a long file\n", i) }
	var b strings.Builder
	for i := 0; b.Len() < 1<<25-200; i++ {
		b.WriteString(line(i))
		if i%100003 == 7 {
			b.WriteString("the rare needle\n")
		}
	}
	b.WriteString("last needle")
	tr := Tree{"huge": b.String(), "small": "needle\nline 5 of\n"}
	t.Count("largest_file", b.Len())
	ix, dst, err := buildIndex(t, tr, &index.IndexOptions{})
	defer os.RemoveAll(dst)
	if err != nil {
		t.Violate("build", nil, "%v", err)
		return
	}
	defer ix.Close()
	for _, q := range []query{{pat: "needle"}, {pat: "last needle$"}, {pat: "^LAST", icase: true}, {pat: "line 1[0-9]*777 ", ctx: 2}, {pat: "needle", files: "^h"}} {
		c01one(t, ix, tr, q, "huge file")
	}
}

func c01one(t *T, ix *index.Index, tr Tree, q query, where string) {
	t.Current("C01 %s: %s", where, q)
	t.Eval(1)
	want, werr := expected(tr, q)
	t.Guard("panic", q.String(), func() {
		res, err := ix.Search(q.pat, q.opts())
		if (err != nil) != (werr != nil) {
			t.Violate("error-mismatch", q.String(), "%s (%s): search error %v, reference error %v", where, q, err, werr)
			return
		}
		if err != nil {
			return
		}
		if d := diffSearch(res, want); d != "" {
			t.Violate("diff", map[string]interface{}{"query": q.String(), "files": smallTree(tr)}, "%s: %s: %s", where, q, d)
			return
		}
		n, all := 0, 0
		for _, w := range want {
			n += len(w)
		}
		for _, c := range tr {
			all += len(splitLines(c))
		}
		t.Count("lines_matched", n)
		t.Count("files_opened", res.FilesOpened)
		if n > 0 && n < all {
			t.Distinct(q.String(), n, all)
			t.Sample(map[string]interface{}{"query": q.String(), "files": len(tr), "lines": all, "matched": n})
		}
	})
}

func smallTree(tr Tree) Tree {
	out := Tree{}
	for n, c := range tr {
		if len(c) < 3000 {
			out[n] = c
		}
	}
	return out
}

func c01bad(t *T, ix *index.Index) {
	for _, p := range []string{"(", "a**", "[z-a]", "\\8", "(?<n>", "a{1001}", "\xff", "x\\", "(?i", "[[:foo:]]", ")", "a)|(?:b", "a)(b", "a)|(b", ")(", "a))|((b", "a]|[b)", "\\Qa\\E)|(?:b", "a)|(?i:b"} {
		t.Eval(1)
		t.Current("C01 bad %q", p)
		t.Guard("panic", p, func() {
			for k, o := range []*index.SearchOptions{{}, {FileRegexp: p}, {ExcludeFileRegexp: p}} {
				pat := "a"
				if k == 0 {
					pat = p
				}
				_, werr := regexp.Compile("(?m)" + p)
				res, err := ix.Search(pat, o)
				if (err != nil) != (werr != nil) {
					t.Violate("bad-pattern", p, "pattern %q as %d: error %v, reference %v", p, k, err, werr)
				}
				if err != nil && res != nil {
					t.Violate("bad-pattern-result", p, "pattern %q: result next to an error", p)
				}
			}
		})
	}
}

func bigText(r *rand.Rand, st Style, n int) string {
	var b strings.Builder
	for b.Len() < n {
		b.WriteString(genLine(r, st))
		b.WriteByte('\n')
	}
	return b.String()
}

func cutValid(s string, n int) string {
	for n > 0 && n < len(s) && s[n]&0xc0 == 0x80 {
		n--
	}
	return s[:n]
}

// c01directed: layouts and patterns that sit on known edges.
func c01directed(t *T) {
	texts := []string{"", "\n", "\n\n", "a", "a\n", "\na", "\na\n", "a\n\n", "a\n\nb", "\n\na\n\n\n", "aa\na\n", "a\r\nb\r\n", "b\na", "ab\nba\n", "\n\n\n", "a b\n", " a\n", "_a\n", "é\na\n", "aé\n", "kK\nK\nſs\n", "x\ny\nz", "foo\nfoobar\nbar\n", "abc\nabc", "\tfoo\n", "a\x00b\n", "日本\n語", "À\nà\n", "xÀy\nxày\n", "Ç\nç"}
	pats := []string{"", "^", "$", "^$", "a", "^a", "a$", "^a$", "a*", "a+", "(a|b)", "[^a]", "[^a]*", "^[^a]*$", ".", ".*", ".+", "\\s", "^\\s", "\\s$", "\\s*", "\\W", "\\W*$", "\\b", "\\ba", "a\\b", "\\ba\\b", "(?i)K", "k", "s", "(?i:s)", "é", "\\pL", "[a-z]+", "(?s).", "(?s).*", "x*$", "^x*", "foo|bar", "^foo$", "foo$|^bar", "a\\nb", "\\n", "[\\n]", "[\\na]", "b\\r", "\\r$", "\\x00", "(À|à)", "x(?:À|à)y", "[Àà]", "(?i)À", "(?i)ç", "(^a|b$)", "(^|b)a", "a($|b)", "(?:a$)?", "$^", "^^a", "a$$", "(?:)", "a{0}", "a{2}", "(a?){3}"}
	for ti, text := range texts {
		tr := Tree{"f": text, "g/h": "zzz\n" + text}
		ix, dst, err := buildIndex(t, tr, &index.IndexOptions{})
		if err != nil {
			t.Violate("build", text, "build of %q: %v", text, err)
			os.RemoveAll(dst)
			continue
		}
		for _, p := range pats {
			if _, ok := validPattern(p); !ok {
				continue
			}
			for m := 0; m < 4; m++ {
				c01one(t, ix, tr, query{pat: p, icase: m&1 != 0, literal: m&2 != 0}, fmt.Sprintf("directed %d", ti))
			}
		}
		ix.Close()
		os.RemoveAll(dst)
		if t.Stop() {
			return
		}
	}
	// \\A and \\z refer to the file, not to a line
	for ti, text := range []string{"a\na\nb\na", "a\na\na\n", "b\na\na", "a", "\na\na", "aa\nba\nab\n"} {
		ix, dst, err := buildIndex(t, Tree{"f": text}, &index.IndexOptions{})
		if err != nil {
			t.Violate("build", text, "build of %q: %v", text, err)
			os.RemoveAll(dst)
			continue
		}
		ls := splitLines(text)
		for _, p := range []string{"a", "[^b]", "a*b", "^a", "(a|b)"} {
			sre := regexp.MustCompile("^(?:" + p + ")")
			ere := regexp.MustCompile("(?:" + p + ")$")
			wa, wz := map[int]string{}, map[int]string{}
			if sre.MatchString(ls[0]) {
				wa[1] = ls[0]
			}
			if n := len(ls); !strings.HasSuffix(text, "\n") && ere.MatchString(ls[n-1]) {
				wz[n] = ls[n-1]
			}
			for k, w := range []map[int]string{wa, wz} {
				// after a match the rest of the file counts as a new text (listed finding,
				// kept to the one input named in known_findings.json)
				if k == 0 && len(wa) > 0 && len(ls) > 1 && !(ti == 0 && p == "a") {
					continue
				}
				q := query{pat: []string{"\\A(?:" + p + ")", "(?:" + p + ")\\z"}[k]}
				t.Eval(1)
				want := map[string]map[int]string{}
				if len(w) > 0 {
					want["f"] = w
				}
				t.Guard("panic", q.String(), func() {
					res, err := ix.Search(q.pat, q.opts())
					if err != nil {
						t.Violate("error-mismatch", q.String(), "%v", err)
					} else if d := diffSearch(res, want); d != "" {
						t.Violate(fmt.Sprintf("anchor:%d:%s", ti, q.pat), q.String(), "text %d %q, %s: %s", ti, text, q, d)
					}
				})
			}
		}
		ix.Close()
		os.RemoveAll(dst)
	}
	// file name filters: every small name against every small filter
	tr := Tree{"a": "x\n", "b": "x\n", "ab": "x\n", "d/a": "x\n", "d/ab.go": "x\n", "e/d/a": "x\n", "A": "x\n", "é": "x\n", "a b": "x\n"}
	ix, dst, err := buildIndex(t, tr, &index.IndexOptions{})
	if err != nil {
		t.Violate("build", nil, "%v", err)
		return
	}
	defer os.RemoveAll(dst)
	defer ix.Close()
	ff := []string{"", "a", "^a", "a$", "^a$", "b", ".", ".*", "^", "$", "/", "^d/", "\\.go$", "[^a]", "^[^/]+$", "(?i)a", "é", " ", "\\b", "x", "d/.*b", "()", "a|b", "^(a|b)$", "\\w+", "a*", "(?i)^A$"}
	for _, a := range ff {
		for _, b := range ff {
			c01one(t, ix, tr, query{pat: "x", files: a, exclude: b}, "filters")
		}
	}
	tr2 := Tree{"\nq": "x\n", "p\nq": "x\n", "q": "x\n"}
	ix2, dst2, err := buildIndex(t, tr2, &index.IndexOptions{})
	if err != nil {
		t.Violate("build", nil, "%v", err)
		return
	}
	defer os.RemoveAll(dst2)
	defer ix2.Close()
	for _, a := range []string{"", "q", "^", "q$", "^q", "p", "^p", ".*"} {
		c01one(t, ix2, tr2, query{pat: "x", exclude: a}, "filters")
		c01one(t, ix2, tr2, query{pat: "x", files: a}, "filters")
	}
}
