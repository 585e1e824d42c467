package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"

	cindex "github.com/hound-search/hound/codesearch/index"
	cregexp "github.com/hound-search/hound/codesearch/regexp"
)

func init() {
	register(&Check{ID: "C02", Fn: c02,
		Rule: "random expressions x texts generated to match them (confirmed by Go regexp): the text's trigrams must satisfy the derived query; random AND/OR trees evaluated on random indexes against set algebra; non-trivial = distinct (expression, text) where the query is not match-all, plus distinct trees with a proper subset answer",
	})
}

// satisfied evaluates a trigram query on the trigrams of one text.
func satisfied(q *cindex.Query, has func(string) bool) bool {
	switch q.Op {
	case cindex.QAll:
		return true
	case cindex.QNone:
		return false
	case cindex.QAnd:
		for _, t := range q.Trigram {
			if !has(t) {
				return false
			}
		}
		for _, s := range q.Sub {
			if !satisfied(s, has) {
				return false
			}
		}
		return true
	case cindex.QOr:
		for _, t := range q.Trigram {
			if has(t) {
				return true
			}
		}
		for _, s := range q.Sub {
			if satisfied(s, has) {
				return true
			}
		}
		return false
	}
	panic("unknown op")
}

func hasTrigram(text string) func(string) bool {
	return func(t string) bool { return strings.Contains(text, t) }
}

func c02(t *T) {
	c02sound(t)
	c02posting(t)
}

// patterns that stress the set algebra: many short alternatives with shared
// prefixes and suffixes, nested, optional, folded, classes.
func denseSetPattern(r *rand.Rand, d int) string {
	short := func() string {
		n := 1 + r.Intn(4)
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcdk"[r.Intn(5)]
		}
		return string(b)
	}
	piece := func() string {
		switch r.Intn(9) {
		case 0:
			return "[abc]"
		case 1:
			return "[a-e]"
		case 2:
			return "(?i:" + short() + ")"
		case 3:
			return short() + "?"
		case 4:
			return "(" + short() + ")?"
		case 5:
			return "(" + short() + ")+"
		case 6:
			return ".*"
		case 7:
			return "[k-m]?"
		}
		return short()
	}
	if d == 0 {
		return piece()
	}
	n := 2 + r.Intn(4)
	ps := make([]string, n)
	for i := range ps {
		k := 1 + r.Intn(3)
		for j := 0; j < k; j++ {
			if r.Intn(3) == 0 {
				ps[i] += denseSetPattern(r, d-1)
			} else {
				ps[i] += piece()
			}
		}
	}
	s := "(?:" + strings.Join(ps, "|") + ")"
	switch r.Intn(6) {
	case 0:
		s += "?"
	case 1:
		s += "+"
	case 2:
		s += "*"
	}
	return s
}

func c02sound(t *T) {
	n := t.N(24000, 600000)
	per := 12
	t.Par(n, 0, func(i int) {
		r := t.Rng("sound", i)
		st := Style{Unicode: i%3 == 1, Dense: i%4 == 2}
		var pat string
		if i%5 < 2 {
			pat = denseSetPattern(r, 1+r.Intn(2))
			for k := r.Intn(3); k > 0; k-- {
				pat += denseSetPattern(r, r.Intn(2))
			}
		} else {
			g := &patGen{r: r, st: st, depth: 1 + r.Intn(3)}
			pat = g.pattern()
		}
		c02pat(t, r, pat, per, r.Intn(4) == 0)
		if i < len(c02directed) {
			c02pat(t, r, c02directed[i], 200, false)
			c02pat(t, r, c02directed[i], 200, true)
		}
	})
}

var c02directed = []string{
	"abc|abd|xyz", "(abc|abcd)(e|f)?", "a(b|c|d)e", "(a|b|c|d|e|f|g|h)(a|b|c|d|e|f|g|h)x", "(ab|cd|ef|gh|ij|kl|mn|op)(q|r|s)",
	"abc*", "abc+", "ab?c", "(abc)*def", "(abc)+def", "(abc)?def", "a.*b.*c", "abc.*def", "(abc.*|def.*)ghi", "abc(def|.*)ghi",
	"(?i)kiss", "(?i)sks", "ſ", "(?i)ſab", "(?i)abK", "[kK]ab", "[^a]bc", "\\bfoo\\b", "^foo$", "foo$|^bar", "(foo|)bar", "(|foo)bar",
	"(a|ab|abc|abcd)(e|f|g)", "(foo|bar|baz)(qux|quux)(corge|)", "x{3}", "(ab){2,3}", "(abc){0}", "(abc){0,1}d", "[a-z]bc", "[a-c][a-c][a-c]", "[a-c][a-c][a-c][a-c]",
	"日本語", "日.語", "[日月]本語", "(日|月)(本|日)", "é+à", "(?i)éàü", "a(?:)b(?:)c", "(?:(?:a)b)c", "abcd|abce|abcf|abcg|abch|abci|abcj|abck", "(a|b)(c|d)(e|f)(g|h)(i|j)",
	"aabb|aacc|bbaa|ccaa", "a+b+c+", "(a+b)+c", "(?:ab|ba)+c", "foo(?:a|b|)bar", "(foo.bar|baz)x", "abc\\n?def", "[\\n]?abc", "", "a", "ab", "(aa|bb|cc)?(aa|bb)", "hello(world)?(hello)?",
	"(abca|bcab|cabc)(abc|bca|cab)", "(x|)(y|)(z|)abc", "(xyz|)(abc|)", "abc(x|y*)def", "(a.c|abc)d", "(abcabc|abc)", "(abc|abc)", "(abcd|bcd|cd|d)", "(d|cd|bcd|abcd)e", "\\Qa.b\\Ec", "a\\.b\\.c", "\\w+abc", "abc\\w*", "\\d{3}-\\d{4}",
}

func c02pat(t *T, r *rand.Rand, pat string, per int, icase bool) {
	sre, ok := validPattern(pat)
	if !ok {
		return
	}
	full := "(?m)" + pat
	if icase {
		full = "(?i)(?m)" + pat
		if sre, ok = validPattern("(?i:" + pat + ")"); !ok {
			return
		}
	}
	t.Current("C02 %q", full)
	t.Guard("panic", full, func() {
		cre, err := cregexp.Compile(full)
		if err != nil {
			return
		}
		ref, err := regexp.Compile(full)
		if err != nil {
			return
		}
		q := cindex.RegexpQuery(cre.Syntax)
		t.Count("patterns", 1)
		if q.Op == cindex.QAll {
			t.Count("match_all_queries", 1)
		}
		for k := 0; k < per; k++ {
			s, ok := sampleMatch(r, sre, 0)
			if !ok || strings.Contains(s, "\n") {
				continue
			}
			text := s
			switch r.Intn(6) {
			case 0:
				text = genWord(r, Style{Unicode: true}) + s
			case 1:
				text = s + genWord(r, Style{})
			case 2:
				text = " " + s + " "
			}
			if !ref.MatchString(text) {
				t.Count("samples_not_matching", 1)
				continue
			}
			t.Eval(1)
			if !satisfied(q, hasTrigram(text)) {
				t.Violate("hidden:"+full, map[string]string{"pattern": full, "text": text, "query": q.String()},
					"pattern %q matches %q, but its trigram query %s rejects the text", full, text, q)
				return
			}
			if q.Op != cindex.QAll {
				t.Distinct(full, text)
				if k == 0 && len(full) < 60 {
					t.Sample(map[string]string{"pattern": full, "text": text, "query": clip(q.String())})
				}
			}
		}
	})
}

// ---------------------------------------------------------------- posting queries

func mkCIndex(t *T, texts []string, paths []string, names []string) (*cindex.Index, string) {
	f := filepath.Join(t.Dir("ci"), "tri")
	w := cindex.Create(f)
	if paths != nil {
		w.AddPaths(paths)
	}
	for i, x := range texts {
		n := fmt.Sprintf("f%05d", i)
		if names != nil {
			n = names[i]
		}
		if reason := w.Add(n, strings.NewReader(x)); reason != "" {
			t.Violate("rejected", x, "plain text %q rejected: %s", clip(x), reason)
		}
	}
	w.Flush()
	w.Close()
	return cindex.Open(f), f
}

func randTrigrams(r *rand.Rand, n int) []string {
	m := map[string]bool{}
	for i := 0; i < n; i++ {
		b := make([]byte, 3)
		for j := range b {
			b[j] = "abcd"[r.Intn(4)]
		}
		if r.Intn(12) == 0 {
			b[r.Intn(3)] = "\xffz\x00"[r.Intn(3)]
		}
		m[string(b)] = true
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func randQuery(r *rand.Rand, d int) *cindex.Query {
	if d == 0 || r.Intn(3) == 0 {
		return &cindex.Query{Op: []cindex.QueryOp{cindex.QAnd, cindex.QOr}[r.Intn(2)], Trigram: randTrigrams(r, 1+r.Intn(4))}
	}
	if r.Intn(14) == 0 {
		return &cindex.Query{Op: []cindex.QueryOp{cindex.QAll, cindex.QNone}[r.Intn(2)]}
	}
	q := &cindex.Query{Op: []cindex.QueryOp{cindex.QAnd, cindex.QOr}[r.Intn(2)]}
	if r.Intn(2) == 0 {
		q.Trigram = randTrigrams(r, 1+r.Intn(3))
	}
	for i := 0; i < 1+r.Intn(3); i++ {
		q.Sub = append(q.Sub, randQuery(r, d-1))
	}
	return q
}

func c02posting(t *T) {
	nIdx, per := t.N(16, 300), t.N(1200, 4000)
	t.Par(nIdx, 0, func(i int) {
		r := t.Rng("posting", i)
		n := []int{0, 1, 2, 5, 40, 130, 300, 700}[i%8]
		texts := make([]string, n)
		for k := range texts {
			b := make([]byte, r.Intn(24))
			for j := range b {
				b[j] = "abcd"[r.Intn(4)]
			}
			texts[k] = string(b)
			if r.Intn(10) == 0 {
				texts[k] += "\x00az"
			}
		}
		ix, f := mkCIndex(t, texts, nil, nil)
		defer os.RemoveAll(filepath.Dir(f))
		defer ix.Close()
		for k := 0; k < per && !t.Stop(); k++ {
			q := randQuery(r, 3)
			t.Eval(1)
			t.Current("C02 posting %s", q)
			t.Guard("panic", q.String(), func() {
				got := ix.PostingQuery(q)
				var want []uint32
				for id, x := range texts {
					if satisfied(q, hasTrigram(x)) {
						want = append(want, uint32(id))
					}
				}
				if len(got) != len(want) || len(want) > 0 && !reflect.DeepEqual(got, want) {
					t.Violate("posting", map[string]interface{}{"query": q.String(), "texts": texts},
						"query %s on %d files: got %v, want %v", q, n, got, want)
				}
				if len(want) > 0 && len(want) < n {
					t.Distinct("p", q.String(), i)
				}
			})
		}
	})
}
