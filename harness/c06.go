package main

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"regexp"
	"strings"

	"github.com/hound-search/hound/index"
)

func init() {
	register(&Check{ID: "C06", Fn: c06,
		Rule: "texts of 0-40 lines (runs of empty lines, leading empty lines, CRLF, missing final newline, and texts beyond the read buffer) x patterns of every match density x context 0..22; every reported match's Before and After compared with the file's own lines; non-trivial = distinct (text, pattern, context) with at least one match that has a context line",
	})
}

// refContext computes Before/After for the matched lines (0-based) of a file.
func refContext(lines []string, matched []int, n int) (before, after [][]string) {
	prev := -1
	for _, m := range matched {
		lo := m - n
		if lo <= prev {
			lo = prev + 1
		}
		hi := m + n
		if hi > len(lines)-1 {
			hi = len(lines) - 1
		}
		before = append(before, append([]string{}, lines[lo:m]...))
		after = append(after, append([]string{}, lines[m+1:hi+1]...))
		prev = m
	}
	return
}

func sameLines(a, b []string) bool {
	if len(a) == 0 && len(b) == 0 {
		return true
	}
	return reflect.DeepEqual(a, b)
}

func c06text(r *rand.Rand, big bool) string {
	if r.Intn(12) == 0 { // lines far longer than usual: kilobytes of context on either side
		var b strings.Builder
		size := []int{300, 900, 1900, 1900}[r.Intn(4)] // a file with longer lines is not indexed
		k := 4 + r.Intn(30)
		huge := -1
		if k > 12 && r.Intn(2) == 0 { // one in ten may be longer
			huge = r.Intn(k)
		}
		for i := k; i >= 0; i-- {
			fmt.Fprintf(&b, "%d", i)
			if i == huge {
				b.WriteString(strings.Repeat("huge ", 2000+r.Intn(400000)))
			}
			if r.Intn(4) > 0 {
				b.WriteString(strings.Repeat([]string{"w ", "é", "=-", "\tq"}[r.Intn(4)], (size-r.Intn(size)*r.Intn(2))/2))
			}
			if r.Intn(6) == 0 {
				b.WriteString("needle a")
			}
			if i > 0 || r.Intn(2) == 0 {
				b.WriteByte('\n')
			}
		}
		return b.String()
	}
	if big {
		var b strings.Builder
		n := 1<<20 + r.Intn(1<<20)
		for b.Len() < n {
			if r.Intn(3) == 0 {
				b.WriteByte('\n')
			} else {
				fmt.Fprintf(&b, "%s %d\n", strings.Repeat("lorem ", r.Intn(12)), b.Len())
			}
			if r.Intn(300) == 0 {
				b.WriteString("needle\n")
			}
		}
		return b.String()
	}
	words := []string{"", "", "a", "b", "ab", "needle", " ", "\t", "x y", "\r", "é", "aa", "needle needle"}
	var b strings.Builder
	n := r.Intn(40)
	if r.Intn(3) == 0 {
		n = r.Intn(6)
	}
	for i := 0; i < n; i++ {
		if i > 0 && r.Intn(12) == 0 {
			for k := r.Intn(6); k > 0; k-- {
				b.WriteByte('\n')
			}
		}
		b.WriteString(words[r.Intn(len(words))])
		if r.Intn(9) == 0 {
			b.WriteByte('\r')
		}
		if i < n-1 || r.Intn(3) > 0 {
			b.WriteByte('\n')
		}
	}
	return b.String()
}

func c06(t *T) {
	pats := []string{"a", "b", "needle", "^$", "^", "", "x|^a$", "[^a]", "\\s", "é", "^b", "a$", ".", "^.$", "^\\r?$"}
	t.Par(t.N(400, 12000), 0, func(ci int) {
		r := t.Rng("text", ci)
		tr := Tree{}
		for i := 0; i < 6; i++ {
			tr[fmt.Sprintf("f%d", i)] = c06text(r, ci%40 == 7 && i == 3)
		}
		ix, dst, err := buildIndex(t, tr, &index.IndexOptions{})
		defer os.RemoveAll(dst)
		if err != nil {
			t.Violate("build", nil, "build: %v", err)
			return
		}
		defer ix.Close()
		for k := 0; k < 24; k++ {
			pat := pats[r.Intn(len(pats))]
			ctx := []int{0, 1, 1, 2, 2, 3, 4, 5, 7, 10, 20, 22}[r.Intn(12)]
			if ci%40 == 7 || k > 18 {
				pat = []string{"needle", "^[0-9]+needle", "^2.*a$"}[k%3]
				if k%4 > 0 {
					ctx = 20
				}
			}
			t.Eval(1)
			t.Current("C06 text %d pat %q ctx %d", ci, pat, ctx)
			opt := &index.SearchOptions{LinesOfContext: uint(ctx)}
			if k%5 == 4 {
				opt.MaxResults = 1 + r.Intn(5)
			}
			var res *index.SearchResponse
			if !t.Guard("panic", pat, func() { res, err = ix.Search(pat, opt) }) {
				return
			}
			if err != nil {
				t.Violate("error", pat, "search %q: %v", pat, err)
				return
			}
			re := regexp.MustCompile("(?m)" + pat)
			for _, f := range res.Matches {
				lines := splitLines(tr[f.Filename])
				var matched []int
				for i, l := range lines {
					if re.MatchString(l) {
						matched = append(matched, i)
					}
				}
				bef, aft := refContext(lines, matched, ctx)
				if len(f.Matches) > len(matched) {
					t.Violate("extra", nil, "%q ctx %d on %q: %d matches, want %d", pat, ctx, clip(tr[f.Filename]), len(f.Matches), len(matched))
					return
				}
				nctx := 0
				for i, m := range f.Matches {
					if m.LineNumber != matched[i]+1 || m.Line != lines[matched[i]] {
						t.Violate("line", nil, "%q ctx %d on %q: match %d is line %d %q, want line %d %q", pat, ctx, clip(tr[f.Filename]), i, m.LineNumber, m.Line, matched[i]+1, lines[matched[i]])
						return
					}
					if !sameLines(m.Before, bef[i]) {
						t.Violate("before", map[string]interface{}{"text": clip(tr[f.Filename]), "pat": pat, "ctx": ctx},
							"pattern %q, context %d, file %q: Before of line %d is %q, want %q", pat, ctx, clip(tr[f.Filename]), m.LineNumber, m.Before, bef[i])
						return
					}
					if !sameLines(m.After, aft[i]) {
						t.Violate("after", map[string]interface{}{"text": clip(tr[f.Filename]), "pat": pat, "ctx": ctx},
							"pattern %q, context %d, file %q: After of line %d is %q, want %q", pat, ctx, clip(tr[f.Filename]), m.LineNumber, m.After, aft[i])
						return
					}
					nctx += len(bef[i]) + len(aft[i])
				}
				t.Count("matches", len(f.Matches))
				for i := range bef {
					if i < len(f.Matches) {
						n := 0
						for _, l := range bef[i] {
							n += len(l)
						}
						if n > 16<<10 {
							t.Count("contexts_beyond_16k", 1)
						}
					}
				}
				t.Count("context_lines", nctx)
				if nctx > 0 {
					t.Distinct(tr[f.Filename], pat, ctx)
				}
			}
			if len(res.Matches) > 0 && ctx > 0 {
				t.Sample(map[string]interface{}{"pattern": pat, "context": ctx, "files_matched": len(res.Matches)})
			}
		}
	})
}
