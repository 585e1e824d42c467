package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
)

func init() {
	register(&Check{ID: "C17", Fn: c17,
		Rule: "servers with 2-12 repositories (every seventh 33-264) of overlapping content (some empty of matches), real handlers over TCP; for random queries, filters, ranges and limits the answer of every single repository is taken (its matches checked against the line-by-line reference when unlimited) and every selection (subsets, shuffled, with repeated, unknown and empty names, '*', blanks around '*', all subsets of small servers) must be the union; from several clients at once; then the files of some repositories are damaged so that their search fails, and a selection must fail exactly if one of its members does; non-trivial = distinct (query, selection) whose union has at least two members",
	})
}

func c17(t *T) {
	t.ParDelayed(t.N(14, 400), 4, 1000, func(i int) { c17server(t, i) })
	if t.Counter("unions") == 0 || t.Counter("failed_selections") == 0 {
		t.Inconclusive("no multi-repository answer was observed")
	}
}

type c17query struct {
	q     query
	extra url.Values
	plain bool // no range and no match limit
}

func c17gen(r *rand.Rand, texts []string) c17query {
	q := query{pat: []string{"foo", "bar", "a", "", "kiss", "nomatchatall", "^b", "[ab]b", "x|y", "func"}[r.Intn(10)], ctx: uint(r.Intn(4))}
	if r.Intn(4) == 0 && len(texts) > 0 {
		if f := fragsOf(r, texts, 1); len(f) == 1 && f[0] != "" {
			q.pat, q.literal = f[0], true
		}
	}
	v := url.Values{}
	q.icase = r.Intn(2) == 0
	if r.Intn(3) == 0 {
		q.files = []string{"d1", "d[02]", "5$", "f"}[r.Intn(4)]
	}
	if r.Intn(4) == 0 {
		q.exclude = []string{"d1", "^d[02]", "5$", "only"}[r.Intn(4)]
	}
	c := c17query{q: q, extra: v, plain: true}
	v.Set("ctx", fmt.Sprint(q.ctx))
	v.Set("i", fmt.Sprint(q.icase))
	if q.literal {
		v.Set("literal", "true")
	}
	v.Set("files", q.files)
	v.Set("excludeFiles", q.exclude)
	if r.Intn(3) == 0 {
		v.Set("rng", fmt.Sprintf("%d:%d", r.Intn(4), r.Intn(5)))
		c.plain = false
	}
	if r.Intn(4) == 0 {
		v.Set("limit", fmt.Sprint(1+r.Intn(20)))
		c.plain = false
	}
	if r.Intn(3) == 0 {
		v.Set("stats", "fosho")
	}
	return c
}

func canon(a *repoAnswer) string {
	b, _ := json.Marshal(a)
	return string(b)
}

func c17server(t *T, i int) {
	r := t.Rng("server", i)
	n := 2 + r.Intn(11)
	if i%3 == 0 {
		n = 2 + r.Intn(4)
	}
	large := i%7 == 4
	if large {
		n = []int{33, 65, 101, 130, 257}[r.Intn(5)] + r.Intn(8)
	}
	repos := map[string]*config.Repo{}
	trees := map[string]Tree{}
	urls := map[string]string{}
	var names, texts []string
	st := Style{Unicode: r.Intn(2) == 0}
	for k := 0; k < n; k++ {
		nm := []string{"r%d", "org/r%d", "a b %d", "é%d", "R%d.x"}[r.Intn(5)]
		nm = fmt.Sprintf(nm, k)
		tr := Tree{}
		for j, m := 0, r.Intn(map[bool]int{false: 8, true: 3}[large]); j < m; j++ {
			s := genText(r, st, 14)
			if r.Intn(3) > 0 {
				s += "foo " + nm + "\nb\n"
			}
			tr[fmt.Sprintf("d%d/f%d", j%3, j)] = s
			texts = append(texts, s)
		}
		tr["only"] = "the only one of " + nm + "\n"
		trees[nm] = tr
		rem := newRemote(fmt.Sprintf("c17-%d-%d", i, k), func(int) Tree { return tr })
		defer rem.drop()
		repos[nm] = fakeRepo(rem, repoOpt{ms: 3600000})
		urls[nm] = repos[nm].Url
		names = append(names, nm)
	}
	db := t.Dir("db")
	defer os.RemoveAll(db)
	lab, err := newLab(t, db, 4, repos)
	if err != nil || len(lab.Errs) > 0 {
		t.Violate("startup", nil, "startup failed: %v", err)
		return
	}
	defer lab.Close()

	selection := func(r *rand.Rand) (string, []string) {
		if r.Intn(6) == 0 {
			return []string{"*", " *", "* ", "\t*\n"}[r.Intn(4)], names
		}
		var sel, out []string
		m := r.Intn(n + 3)
		if large && r.Intn(2) == 0 {
			m = r.Intn(n/4 + 1)
		}
		for j := 0; j < m; j++ {
			nm := names[r.Intn(n)]
			sel = append(sel, nm)
			if j > 0 && r.Intn(3) > 0 { // mostly distinct
				for _, x := range sel[:len(sel)-1] {
					if x == nm {
						sel = sel[:len(sel)-1]
						break
					}
				}
			}
		}
		seen := map[string]bool{}
		for _, s := range sel {
			if !seen[s] {
				out = append(out, s)
			}
			seen[s] = true
		}
		for j := r.Intn(3); j > 0; j-- {
			k := r.Intn(len(sel) + 1)
			sel = append(sel[:k:k], append([]string{[]string{"nope", "", "r", "R0", "**", "é"}[r.Intn(6)]}, sel[k:]...)...)
		}
		s := strings.Join(sel, ",")
		if strings.TrimSpace(s) != s {
			s = strings.TrimSpace(s)
		}
		return s, out
	}

	round := func(phase string, qi int, damaged map[string]bool) {
		r := t.Rng("query", i, phase, qi)
		c := c17gen(r, texts)
		single := map[string]*repoAnswer{}
		fails := map[string]string{}
		for _, nm := range names {
			a, err := lab.Search(nm, c.q.pat, c.extra)
			if err != nil {
				t.Violate("request", c.q.String(), "%s on %s: %v", c.q, nm, err)
				return
			}
			if a.Error != "" {
				fails[nm] = a.Error
				if !damaged[nm] {
					t.Violate("error", c.q.String(), "%s on %s: %s", c.q, nm, a.Error)
					return
				}
				continue
			}
			for k := range a.Results {
				if k != nm {
					t.Violate("foreign", c.q.String(), "%s on %s: the answer has results for %s", c.q, nm, k)
					return
				}
			}
			single[nm] = a.Results[nm]
			if a.Results[nm] != nil && len(a.Results[nm].Matches) == 0 {
				t.Violate("empty-result", c.q.String(), "%s on %s: a result without matches", c.q, nm)
				return
			}
			if c.plain && !damaged[nm] {
				want, err := expected(trees[nm], c.q)
				got := &index.SearchResponse{}
				if single[nm] != nil {
					got.Matches, got.FilesWithMatch = single[nm].Matches, single[nm].FilesWithMatch
				}
				if err == nil {
					if d := diffSearch(got, want); d != "" {
						t.Violate("single", c.q.String(), "%s on %s: %s", c.q, nm, d)
						return
					}
					t.Count("singles_checked_against_reference", 1)
				}
			}
		}
		check := func(sel string, members []string) {
			t.Eval(1)
			t.Current("C17 server %d %s selection %q", i, c.q, sel)
			a, err := lab.Search(sel, c.q.pat, c.extra)
			data := map[string]interface{}{"query": c.q.String(), "options": c.extra.Encode(), "selection": sel, "repositories": names}
			if err != nil {
				t.Violate("request", data, "%s on %q: %v", c.q, sel, err)
				return
			}
			var errs []string
			for _, m := range members {
				if e := fails[m]; e != "" {
					errs = append(errs, e)
				}
			}
			if len(errs) > 0 {
				t.Count("failed_selections", 1)
				ok := false
				for _, e := range errs {
					ok = ok || a.Error == e
				}
				if !ok || len(a.Results) > 0 {
					t.Violate("partial", data, "%s on %q: searches fail with %q, but the answer has error %q and %d results", c.q, sel, errs, a.Error, len(a.Results))
				}
				return
			}
			if a.Error != "" {
				t.Violate("error", data, "%s on %q: %s, but no single search fails", c.q, sel, a.Error)
				return
			}
			want := map[string]*repoAnswer{}
			for _, m := range members {
				if single[m] != nil {
					want[m] = single[m]
				}
			}
			for _, k := range sortedKeys(a.Results) {
				if want[k] == nil {
					t.Violate("extra", data, "%s on %q: results for %s, which alone has none or is not selected", c.q, sel, k)
					return
				}
				if canon(a.Results[k]) != canon(want[k]) {
					t.Violate("differs", data, "%s on %q: result of %s is %s, alone it is %s", c.q, sel, k, clip(canon(a.Results[k])), clip(canon(want[k])))
					return
				}
			}
			for _, k := range sortedKeys(want) {
				if a.Results[k] == nil {
					t.Violate("missing", data, "%s on %q: no results for %s, which alone has %d files", c.q, sel, k, len(want[k].Matches))
					return
				}
			}
			if a.Results == nil {
				t.Violate("null", data, "%s on %q: Results is null", c.q, sel)
				return
			}
			t.Count("unions", 1)
			if len(want) > 1 {
				t.Distinct(i, phase, qi, sel)
				t.Max("largest_union", int64(len(want)))
				if len(t.res.Samples) < 3 {
					t.Sample(map[string]interface{}{"query": c.q.String(), "selection": sel, "members_with_results": len(want)})
				}
			}
		}
		if n <= 4 {
			for m := 0; m < 1<<n; m++ {
				var sel []string
				for k := range names {
					if m&(1<<k) != 0 {
						sel = append(sel, names[k])
					}
				}
				check(strings.Join(sel, ","), sel)
			}
		}
		var wg sync.WaitGroup
		for w := 0; w < 4; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				r := t.Rng("sel", i, phase, qi, w)
				for k := 0; k < 8 && !t.Stop(); k++ {
					check(selection(r))
				}
			}(w)
		}
		wg.Wait()
	}
	if large {
		t.Count("large_servers", 1)
	}
	rounds := 8
	if large {
		rounds = 4
	}
	for qi := 0; qi < rounds && !t.Stop(); qi++ {
		round("intact", qi, nil)
	}
	// now some searches fail: the stored files of some repositories disappear
	damaged := map[string]bool{}
	for _, nm := range names {
		if len(damaged) == 0 || r.Intn(3) == 0 && !large {
			damaged[nm] = true
		}
	}
	if len(damaged) == n {
		delete(damaged, names[r.Intn(n)])
	}
	for _, d := range idxDirs(db) {
		ref, err := index.Read(filepath.Join(db, d))
		if err != nil {
			t.Violate("manifest", nil, "%v", err)
			return
		}
		for nm := range damaged {
			if urls[nm] == ref.Url {
				os.RemoveAll(filepath.Join(db, d, "raw"))
			}
		}
	}
	for qi := 0; qi < 4 && !t.Stop(); qi++ {
		round("damaged", qi, damaged)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
