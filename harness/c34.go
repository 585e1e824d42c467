package main

import (
	"bytes"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"regexp/syntax"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/hound-search/hound/api"
	cindex "github.com/hound-search/hound/codesearch/index"
	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/vcs"
)

func init() {
	register(&Check{ID: "C34", Fn: c34, Quick: 800,
		Rule:   "each operation (searches of hostile patterns over lines of every shape, with context, over many files, with many auto-generated names, pages; builds of wide, deep, large and excluded trees; opening; posting queries, builds and merges of trigram indexes of many files; hashing of local trees; configurations and servers of many repositories) is run on an input of size n and one of 16 n; processor time, bytes allocated, and bytes read and written are taken for each; none may grow by more than 64 times (16 is proportional, 256 quadratic), a small floor disregarded; non-trivial = distinct operations measured",
		Assume: []string{"processor time is that of the process; the larger input counts with its least, the smaller with its greatest time of three, so that load does not matter"},
	})
}

type work struct{ cpu, alloc, io int64 }

func workNow() work {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	w := work{cpu: ru.Utime.Nano() + ru.Stime.Nano(), alloc: int64(ms.TotalAlloc)}
	b, _ := os.ReadFile("/proc/self/io")
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "rchar: ") || strings.HasPrefix(l, "wchar: ") {
			n, _ := strconv.ParseInt(l[7:], 10, 64)
			w.io += n
		}
	}
	return w
}

func c34measure(f func()) work {
	runtime.GC()
	a := workNow()
	f()
	b := workNow()
	return work{b.cpu - a.cpu, b.alloc - a.alloc, b.io - a.io}
}

// a case makes an input of the given size and returns what is to be measured
// and what takes the input away
type c34case struct {
	name string
	n    int
	mk   func(t *T, n int) (run, drop func())
}

const c34grow, c34limit = 16, 64

func c34(t *T) {
	var cases []c34case
	shared := map[string]*index.Index{} // of the texts
	posting := map[int]*cindex.Index{}
	defer func() {
		for _, ix := range posting {
			ix.Close()
		}
		for _, ix := range shared {
			ix.Close()
		}
	}()
	texts := map[string]func(n int) string{
		"short lines": func(n int) string { return strings.Repeat("aab xy foo bar\n", n/15) },
		"one line":    func(n int) string { return strings.Repeat("aab xy foo bar ", n/15) + "z\n" },
		"one letter":  func(n int) string { return strings.Repeat("a", n) + "\nend z\n" },
		"blank lines": func(n int) string { return strings.Repeat("\n", n) + "a z\n" },
		"long lines":  func(n int) string { return strings.Repeat(strings.Repeat("aab xy ", 3000)+"z\n", n/21000+1) },
		"growing lines": func(n int) string {
			var b strings.Builder
			for k := 1; b.Len() < n; k *= 2 {
				b.WriteString(strings.Repeat("a", k) + "\n")
			}
			return b.String()
		},
		"crlf":             func(n int) string { return strings.Repeat("aab\r\n\r\n", n/7) },
		"non-ASCII":        func(n int) string { return strings.Repeat("äöü 日本語 foo\n", n/22) },
		"match at the end": func(n int) string { return strings.Repeat("aaaa bbbb\n", n/10) + "y z\n" },
	}
	names := []string{"short lines", "one line", "one letter", "blank lines", "long lines", "growing lines", "crlf", "non-ASCII", "match at the end"}
	pats := []string{"a", "z", ".*z", "a.*b.*z", "(a|aa)*z", "(a+a+)+y", "a.{30}z", "^", "$", `\bfoo\b`, "[^q]*q", "a[^z]*z", ".*", `a\s+z`, `(?i)AAB XY`, "", `(?s)a.*z`, `\n`, `(^.*$\n?)*z`}
	for _, tn := range names {
		for k, p := range pats {
			tn, p := tn, p
			ctx := []int{0, 2, 20}[(k+len(tn))%3]
			cases = append(cases, c34case{fmt.Sprintf("search %q, %d lines of context, text: %s", p, ctx, tn), 60000, func(t *T, n int) (func(), func()) {
				ix := shared[fmt.Sprint(tn, n)]
				if ix == nil {
					var err error
					ix, _, err = buildIndex(t, Tree{"f": texts[tn](n)}, &index.IndexOptions{})
					if err != nil {
						t.Violate("build", nil, "%s: %v", tn, err)
						return nil, nil
					}
					shared[fmt.Sprint(tn, n)] = ix
				}
				return func() { ix.Search(p, &index.SearchOptions{LinesOfContext: uint(ctx)}) }, func() {}
			}})
		}
	}
	for _, tn := range []string{"short lines", "one line", "one letter"} {
		for _, p := range []string{"[q-t]o.*Q", "nothing such"} {
			tn, p := tn, p
			cases = append(cases, c34case{fmt.Sprintf("search %q in a large file: %s", p, tn), 1000000, func(t *T, n int) (func(), func()) {
				ix, dst, err := buildIndex(t, Tree{"f": texts[tn](n) + "nothing sucu uch\n"}, &index.IndexOptions{})
				if err != nil {
					t.Violate("build", nil, "%s: %v", tn, err)
					return nil, nil
				}
				return func() { ix.Search(p, &index.SearchOptions{}) }, func() { ix.Close(); os.RemoveAll(dst) }
			}})
		}
	}
	many := func(n int, text string) Tree {
		tr := Tree{}
		for i := 0; i < n; i++ {
			tr[fmt.Sprintf("d%d/e%d/some/file%06d.go", i%7, i%31, i)] = text
		}
		return tr
	}
	for _, o := range []struct {
		name string
		pat  string
		auto bool
		opt  index.SearchOptions
	}{
		{"many files", "match", false, index.SearchOptions{}},
		{"many files, one page at the end", "match", false, index.SearchOptions{Offset: 500, Limit: 5}},
		{"many files, filters", "match", false, index.SearchOptions{FileRegexp: "file.*[05]", ExcludeFileRegexp: "(e|f|i)*x$"}},
		{"many files, limit", "match", false, index.SearchOptions{MaxResults: 20}},
		{"many files, nothing found", "matx", false, index.SearchOptions{}},
		{"many files, all auto-generated", "match", true, index.SearchOptions{}},
	} {
		o := o
		cases = append(cases, c34case{"search of " + o.name, 120, func(t *T, n int) (func(), func()) {
			tr := many(n, "this is a match\n")
			io := &index.IndexOptions{}
			if o.auto {
				for f := range tr {
					io.AutoGeneratedFiles = append(io.AutoGeneratedFiles, f)
				}
			}
			ix, dst, err := buildIndex(t, tr, io)
			if err != nil {
				t.Violate("build", nil, "%s: %v", o.name, err)
				return nil, nil
			}
			opt := o.opt
			return func() { ix.Search(o.pat, &opt) }, func() { ix.Close(); os.RemoveAll(dst) }
		}})
	}
	trees := []struct {
		name string
		n    int
		tree func(n int) Tree
		opt  func(tr Tree) *index.IndexOptions
	}{
		{"many files", 120, func(n int) Tree { return many(n, "text\n") }, nil},
		{"files in one directory", 120, func(n int) Tree {
			tr := Tree{}
			for i := 0; i < n; i++ {
				tr[fmt.Sprintf("f%06d", i)] = "x\n"
			}
			return tr
		}, nil},
		{"excluded files", 120, func(n int) Tree { return many(n, "\x00\xff\xfe") }, nil},
		{"names with dots", 120, func(n int) Tree {
			tr := Tree{}
			for i := 0; i < n; i++ {
				tr[fmt.Sprintf(".d%d/f", i)] = "x\n"
			}
			return tr
		}, func(Tree) *index.IndexOptions { return &index.IndexOptions{ExcludeDotFiles: true} }},
		{"one large file", 60000, func(n int) Tree { return Tree{"f": strings.Repeat("some text here\n", n/15)} }, nil},
		{"one long line", 60000, func(n int) Tree { return Tree{"f": strings.Repeat("x", n) + "\n"} }, nil},
		{"distinct trigrams", 60000, func(n int) Tree {
			var b bytes.Buffer
			x := uint32(1)
			for b.Len() < n {
				x = x*1664525 + 1013904223
				fmt.Fprintf(&b, "%c%c%c\n", 'a'+x>>28, 'a'+x>>24&15, 'a'+x>>20&15)
			}
			return Tree{"f": b.String()}
		}, nil},
		{"auto-generated files", 120, func(n int) Tree { return many(n, "text\n") }, func(tr Tree) *index.IndexOptions {
			o := &index.IndexOptions{}
			for f := range tr {
				o.AutoGeneratedFiles = append(o.AutoGeneratedFiles, f)
			}
			return o
		}},
	}
	for _, x := range trees {
		x := x
		prep := func(t *T, n int) (src, dst string, o *index.IndexOptions) {
			tr := x.tree(n)
			src, dst = t.Dir("src"), t.Dir("dst")
			writeTree(src, tr)
			o = &index.IndexOptions{}
			if x.opt != nil {
				o = x.opt(tr)
			}
			return
		}
		cases = append(cases, c34case{"build of " + x.name, x.n, func(t *T, n int) (func(), func()) {
			src, dst, o := prep(t, n)
			return func() {
				os.RemoveAll(dst)
				if _, err := index.Build(o, dst, src, "u", "r"); err != nil {
					t.Violate("build", nil, "%s: %v", x.name, err)
				}
			}, func() { os.RemoveAll(src); os.RemoveAll(dst) }
		}}, c34case{"opening and removing of " + x.name, x.n, func(t *T, n int) (func(), func()) {
			src, dst, o := prep(t, n)
			os.RemoveAll(dst)
			if _, err := index.Build(o, dst, src, "u", "r"); err != nil {
				t.Violate("build", nil, "%s: %v", x.name, err)
				return nil, nil
			}
			return func() {
				ix, err := index.Open(dst)
				if err != nil {
					t.Violate("open", nil, "%s: %v", x.name, err)
					return
				}
				ix.Close()
			}, func() { os.RemoveAll(src); os.RemoveAll(dst) }
		}}, c34case{"revision of a local tree: " + x.name, x.n, func(t *T, n int) (func(), func()) {
			src, dst, _ := prep(t, n)
			os.RemoveAll(dst)
			wd, err := vcs.New("local", []byte(`{"watch-changes":true}`))
			if err != nil {
				t.Violate("local", nil, "%v", err)
				return nil, nil
			}
			return func() {
				if _, err := wd.HeadRev(src); err != nil {
					t.Violate("local", nil, "%s: %v", x.name, err)
				}
			}, func() { os.RemoveAll(src) }
		}})
	}
	// the trigram index itself, of many tiny files
	tri := func(d, prefix string, n int) string {
		f := filepath.Join(d, "tri-"+strings.Trim(prefix, "/"))
		var fs []cfile
		for i := 0; i < n; i++ {
			text := "abcdef\n"
			if i%3 == 0 {
				text += "ghijkl\n"
			}
			if i%5 == 0 {
				text += fmt.Sprintf("m%dn\n", i%1000)
			}
			fs = append(fs, cfile{fmt.Sprintf("%sd%d/f%06d", prefix, i/300, i), text})
		}
		buildC(f, []string{prefix}, fs)
		return f
	}
	for _, q := range []string{"abcdef", "abcdef.*ghijkl", "abcd|ghij", "(abc|ghi).*(def|jkl)", "m[0-9]{3}n|m7n|ghij", "", "nothing"} {
		q := q
		cases = append(cases, c34case{fmt.Sprintf("posting query of %q", q), 6000, func(t *T, n int) (func(), func()) {
			ix := posting[n]
			if ix == nil {
				d := t.Dir("tri")
				ix = cindex.Open(tri(d, "/a/", n))
				posting[n] = ix
			}
			re, err := syntax.Parse("(?m)"+q, syntax.Perl)
			if err != nil {
				t.Violate("parse", nil, "%v", err)
				return nil, nil
			}
			return func() {
				for k := 0; k < 5; k++ {
					for _, f := range ix.PostingQuery(cindex.RegexpQuery(re)) {
						ix.Name(f)
					}
				}
			}, func() {}
		}})
	}
	cases = append(cases, c34case{"build of a trigram index", 6000, func(t *T, n int) (func(), func()) {
		d := t.Dir("tri")
		return func() { tri(d, "/a/", n) }, func() { os.RemoveAll(d) }
	}}, c34case{"merge of trigram indexes", 6000, func(t *T, n int) (func(), func()) {
		d := t.Dir("tri")
		a, b := tri(d, "/a/", n), tri(d, "/b/", n)
		return func() { cindex.Merge(filepath.Join(d, "merged"), a, b) }, func() { os.RemoveAll(d) }
	}}, c34case{"opening of a trigram index", 6000, func(t *T, n int) (func(), func()) {
		d := t.Dir("tri")
		a := tri(d, "/a/", n)
		return func() {
			for k := 0; k < 20; k++ {
				cindex.Open(a).Close()
			}
		}, func() { os.RemoveAll(d) }
	}})
	cases = append(cases, c34case{"configuration of many repositories", 120, func(t *T, n int) (func(), func()) {
		d := t.Dir("cfg")
		var b strings.Builder
		b.WriteString(`{"dbpath":"db","vcs-config":{"git":{"detect-ref":true}},"repos":{`)
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(",")
			}
			fmt.Fprintf(&b, `"r%d":{"url":"https://example.com/r%d.git","vcs-config":{"ref":"b%d"}}`, i, i, i)
		}
		b.WriteString("}}")
		p := filepath.Join(d, "config.json")
		os.WriteFile(p, []byte(b.String()), 0644)
		return func() {
			var c config.Config
			if err := c.LoadFromFile(p); err != nil {
				t.Violate("config", nil, "%v", err)
			}
			c.ToJsonString()
		}, func() { os.RemoveAll(d) }
	}})
	for _, q := range []string{"/api/v1/search?repos=*&q=token", "/api/v1/search?repos=LIST&q=token&i=nope&rng=:20&ctx=2", "/api/v1/search?repos=*&q=(", "/api/v1/search?repos=*&q=zzzz&stats=1", "/api/v1/repos", "/api/v1/update?repos=LIST"} {
		q := q
		cases = append(cases, c34case{"request " + q + " to many repositories", 12, func(t *T, n int) (func(), func()) {
			db := t.Dir("db")
			repos, list := map[string]*config.Repo{}, []string{}
			var rem []*Remote
			for i := 0; i < n; i++ {
				name := fmt.Sprintf("r%03d", i)
				m := newRemote(fmt.Sprintf("c34-%s-%d", name, time.Now().UnixNano()), nil)
				id := m.ID
				m.Tree = func(rev int) Tree { return tokenTree(id, rev, 3, 0) }
				repos[name] = fakeRepo(m, repoOpt{push: true})
				rem = append(rem, m)
				list = append(list, name)
			}
			lab, err := newLab(t, db, 8, repos)
			if err != nil || len(lab.Errs) > 0 {
				t.Violate("startup", nil, "startup failed: %v", err)
				return nil, nil
			}
			mux := http.NewServeMux()
			api.Setup(mux, lab.Searchers, 5000)
			url := strings.Replace(q, "LIST", strings.Join(list, ","), 1)
			return func() {
					for k := 0; k < 20; k++ {
						w := httptest.NewRecorder()
						mux.ServeHTTP(w, httptest.NewRequest("GET", url, nil))
					}
				}, func() {
					lab.Close()
					for _, m := range rem {
						m.drop()
					}
					os.RemoveAll(db)
				}
		}})
	}
	var worst [3]float64
	for k := range cases {
		c := cases[(k*37+int(t.Seed))%len(cases)]
		if t.Stop() {
			break
		}
		t.Current("%s", c.name)
		if c.n < 1000000 { // large files are not indexed
			c.n *= t.N(1, 4)
		}
		small, drop := c.mk(t, c.n)
		if small == nil {
			return
		}
		var lo work
		for i := 0; i < 3; i++ {
			w := c34measure(small)
			if i > 0 {
				lo = work{maxi(lo.cpu, w.cpu), maxi(lo.alloc, w.alloc), maxi(lo.io, w.io)}
			}
		}
		drop()
		big, drop := c.mk(t, c.n*c34grow)
		if big == nil {
			return
		}
		floor := work{int64(4 * time.Millisecond), 1 << 20, 1 << 16}
		lo = work{maxi(lo.cpu, floor.cpu), maxi(lo.alloc, floor.alloc), maxi(lo.io, floor.io)}
		hi := c34measure(big)
		over := func() string {
			for _, m := range []struct {
				what   string
				lo, hi int64
			}{{"nanoseconds of processor time", lo.cpu, hi.cpu}, {"bytes allocated", lo.alloc, hi.alloc}, {"bytes read and written", lo.io, hi.io}} {
				if m.hi > c34limit*m.lo {
					return fmt.Sprintf("size %d: %d %s; size %d: %d (%d times)", c.n, m.lo, m.what, c.n*c34grow, m.hi, m.hi/m.lo)
				}
			}
			return ""
		}
		began := time.Now()
		for i := 0; i < 3 && over() != "" && (i == 0 || time.Since(began) < time.Minute); i++ {
			w := c34measure(big)
			hi = work{mini(hi.cpu, w.cpu), mini(hi.alloc, w.alloc), mini(hi.io, w.io)}
		}
		drop()
		t.Eval(1)
		t.Distinct(c.name)
		rs := [3]float64{float64(hi.cpu) / float64(lo.cpu), float64(hi.alloc) / float64(lo.alloc), float64(hi.io) / float64(lo.io)}
		for i := range rs {
			if rs[i] > worst[i] {
				worst[i] = rs[i]
			}
		}
		if msg := over(); msg != "" {
			t.Violate("growth:"+c.name, nil, "%s: %s", c.name, msg)
			return // more of them take long
		}
		t.Count("measurements", 5)
	}
	t.Info("greatest_growth_of_16", map[string]float64{"processor_time": worst[0], "allocated": worst[1], "read_and_written": worst[2]})
}

func maxi(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func mini(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
