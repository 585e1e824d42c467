package main

import (
	"fmt"
	"math"
	"os"
	"strings"

	"github.com/hound-search/hound/index"
)

func init() {
	register(&Check{ID: "C07", Fn: c07,
		Rule: "random corpora of 0-60 files (match densities from none to every line) x queries; for each, the unlimited answer R is taken (and checked against the reference) and then every offset:limit window, whole page walks and match limits (single and combined with a range, negative, zero, huge) are compared with the window cut from R; non-trivial = distinct (query, offset, limit, match limit) that cuts something off",
	})
}

type flat struct {
	file string
	line int
	text string
	ctx  string
}

func flatten(ms []*index.FileMatch) (out []flat) {
	for _, f := range ms {
		for _, m := range f.Matches {
			out = append(out, flat{f.Filename, m.LineNumber, m.Line, fmt.Sprintf("%q %q %v", m.Before, m.After, f.AutoGenerated)})
		}
	}
	return
}

func flatDiff(got, want []flat) string {
	for i := range got {
		if i >= len(want) {
			return fmt.Sprintf("%d matches, want %d; first extra is %+v", len(got), len(want), got[i])
		}
		if got[i] != want[i] {
			return fmt.Sprintf("match %d is %+v, want %+v", i, got[i], want[i])
		}
	}
	if len(got) < len(want) {
		return fmt.Sprintf("%d matches, want %d; first missing is %+v", len(got), len(want), want[len(got)])
	}
	return ""
}

// window cuts files [off,off+limit) (limit <= 0: all) and then the first max
// matches (max <= 0: all) out of the full result.
func window(full []*index.FileMatch, off, limit, max int) []flat {
	if off < 0 {
		off = 0
	}
	if off > len(full) {
		off = len(full)
	}
	fs := full[off:]
	if limit > 0 && limit < len(fs) {
		fs = fs[:limit]
	}
	fl := flatten(fs)
	if max > 0 && max < len(fl) {
		fl = fl[:max]
	}
	return fl
}

func c07(t *T) {
	t.Par(t.N(80, 4000), 0, func(ci int) {
		r := t.Rng("corpus", ci)
		st := Style{Dense: true}
		tr := Tree{}
		nfiles, few := r.Intn(60), 4
		if ci%40 == 3 { // results beyond a thousand files
			nfiles, few = 1100+r.Intn(1400), 400
			st.Dense = false
		}
		for i := 0; i < nfiles; i++ {
			body := genText(r, st, 12)
			if r.Intn(3) == 0 {
				body = "zz\n" + body + "zz\n" + strings.Repeat("zz q\n", r.Intn(4))
			}
			tr[fmt.Sprintf("d%d/f%02d", i%5, i)] = body
		}
		if len(tr) == 0 {
			tr["only"] = "zz\n"
		}
		auto := []string{}
		for _, n := range tr.names() {
			if r.Intn(4) == 0 {
				auto = append(auto, n)
			}
		}
		ix, dst, err := buildIndex(t, tr, &index.IndexOptions{AutoGeneratedFiles: auto})
		defer os.RemoveAll(dst)
		if err != nil {
			t.Violate("build", nil, "build: %v", err)
			return
		}
		defer ix.Close()
		for qi := 0; qi < 5; qi++ {
			q := query{pat: []string{"zz", "a", "", "zz q", "nomatchatall", "[ab]b", "^b"}[r.Intn(7)], ctx: uint(r.Intn(3))}
			if few > 4 && qi < 2 {
				q.pat = []string{"", "^"}[qi]
			} else if r.Intn(3) == 0 {
				q.files = []string{"d1", "d[02]", "5$", "f3"}[r.Intn(4)]
			}
			if r.Intn(4) == 0 && q.pat != "^" {
				q.exclude = []string{"d1", "^d[02]", "5$", "f3"}[r.Intn(4)]
			}
			full, err := ix.Search(q.pat, q.opts())
			if err != nil {
				t.Violate("error", q.String(), "%v", err)
				return
			}
			want, _ := expected(tr, q)
			if d := diffSearch(full, want); d != "" {
				t.Violate("full", q.String(), "unlimited: %s: %s", q, d)
				return
			}
			nf, nm := len(full.Matches), len(flatten(full.Matches))
			one := func(off, limit, max int) *index.SearchResponse {
				o := q.opts()
				o.Offset, o.Limit, o.MaxResults = off, limit, max
				t.Eval(1)
				t.Current("C07 corpus %d %s offset %d limit %d max %d", ci, q, off, limit, max)
				var res *index.SearchResponse
				if !t.Guard("panic", q.String(), func() { res, err = ix.Search(q.pat, o) }) {
					return nil
				}
				data := map[string]interface{}{"query": q.String(), "offset": off, "limit": limit, "max": max, "files": nf, "matches": nm}
				if err != nil {
					t.Violate("error", data, "%s offset %d limit %d max %d: %v", q, off, limit, max, err)
					return nil
				}
				w := window(full.Matches, off, limit, max)
				if d := flatDiff(flatten(res.Matches), w); d != "" {
					t.Violate("window", data, "%s offset %d limit %d max %d (of %d files, %d matches): %s", q, off, limit, max, nf, nm, d)
					return nil
				}
				seen := map[string]bool{}
				for _, f := range res.Matches {
					if len(f.Matches) == 0 || seen[f.Filename] {
						t.Violate("empty-or-repeated-file", data, "%s offset %d limit %d max %d: file %q empty or repeated", q, off, limit, max, f.Filename)
						return nil
					}
					seen[f.Filename] = true
				}
				if max <= 0 && res.FilesWithMatch != nf {
					t.Violate("files-with-match", data, "%s offset %d limit %d: FilesWithMatch %d, want %d", q, off, limit, res.FilesWithMatch, nf)
					return nil
				}
				if res.Revision != full.Revision {
					t.Violate("revision", data, "revision %q, want %q", res.Revision, full.Revision)
				}
				if len(w) < nm && len(w) > 0 {
					t.Distinct(q.String(), ci, off, limit, max)
				}
				return res
			}
			// every window for small results, a sample for large ones
			for off := 0; off <= nf+1 && !t.Stop(); off++ {
				if nf > 12 && r.Intn(few) > 0 {
					continue
				}
				for _, limit := range []int{0, 1, 2, 3, 7, nf - off, nf - off + 1, nf, math.MaxInt64, -1} {
					one(off, limit, 0)
				}
			}
			for _, off := range []int{nf + 100, 1 << 40, math.MaxInt64} {
				one(off, 0, 0)
				one(off, 1, 1)
				one(off, math.MaxInt64, math.MaxInt64)
			}
			for _, max := range []int{-1, 0, 1, 2, 3, 4, 5, nm - 1, nm, nm + 1, 1 << 40, math.MaxInt64, math.MinInt64} {
				one(0, 0, max)
				one(r.Intn(nf+2), r.Intn(nf+2), max)
				one(r.Intn(nf+2), r.Intn(4), max)
			}
			// walk the pages as the UI does
			steps := []int{1, 3, 5, 10}
			if nf > 200 {
				steps = []int{300, 999, 1001, nf - 1}
				t.Count("large_results", 1)
				for _, limit := range []int{1000, 1001, 1023, nf - 1, nf, nf + 1} {
					one(0, limit, 0)
					one(r.Intn(nf), limit, 0)
				}
			}
			for _, step := range steps {
				var got []flat
				for off, n := 0, 0; ; n++ {
					res := one(off, step, 0)
					if res == nil {
						return
					}
					got = append(got, flatten(res.Matches)...)
					off += len(res.Matches)
					if len(res.Matches) == 0 || off >= res.FilesWithMatch || n > nf+2 {
						break
					}
				}
				if d := flatDiff(got, flatten(full.Matches)); d != "" {
					t.Violate("pages", q.String(), "%s: pages of %d files do not concatenate to the full result: %s", q, step, d)
					return
				}
				t.Count("page_walks", 1)
			}
			if nf > 1 {
				t.Sample(map[string]interface{}{"query": q.String(), "files": nf, "matches": nm})
			}
		}
	})
}
