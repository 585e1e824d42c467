package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	cindex "github.com/hound-search/hound/codesearch/index"
)

func init() {
	register(&Check{ID: "C28", Fn: c28,
		Rule: "pairs of indexes with random path lists (disjoint, nested, equal, neighbouring and non-ASCII prefixes) and files under and beside them, merged by the real code (also chained merges and merges with an empty index); names, path list and every posting list of the result compared with a set model; non-trivial = distinct pair in which the second index shadows some but not all files of the first",
	})
}

type cfile struct{ name, content string }

func buildC(f string, paths []string, files []cfile) {
	w := cindex.Create(f)
	w.AddPaths(paths)
	for _, x := range files {
		w.Add(x.name, strings.NewReader(x.content))
	}
	w.Flush()
	w.Close()
}

func covered(name string, paths []string) bool {
	for _, p := range paths {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func c28model(f1, f2 []cfile, paths2 []string) []cfile {
	var out []cfile
	for _, f := range f1 {
		if !covered(f.name, paths2) {
			out = append(out, f)
		}
	}
	out = append(out, f2...)
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func c28paths(r *rand.Rand, n int) []string {
	base := []string{"/a", "/a/", "/a/b", "/ab", "/b", "/b/x", "/c", "/é", "/ê", "/z", "/a/b/c", "/日", "/月", "/q\x7f", "/0", "/~"}
	set := map[string]bool{}
	for len(set) < n {
		set[base[r.Intn(len(base))]] = true
	}
	var out []string
	for p := range set {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

func c28files(r *rand.Rand, paths []string, under bool, n int, tag string) []cfile {
	tails := []string{"", "/f", "/g", "x", "/é", "0", "/a/b", "\x7f", "é", "/zz", "!"}
	all := []string{"/a", "/ab", "/b", "/c", "/d", "/é", "/ê", "/ë", "/z", "/日", "/月", "/", "/q", "/q\u0080", "/~", "zz", "/a/b"}
	set := map[string]bool{}
	for k := 0; k < n; k++ {
		var nm string
		if under {
			if len(paths) == 0 {
				break
			}
			nm = paths[r.Intn(len(paths))] + tails[r.Intn(len(tails))]
		} else {
			nm = all[r.Intn(len(all))] + tails[r.Intn(len(tails))]
		}
		set[nm] = true
	}
	var out []cfile
	for nm := range set {
		out = append(out, cfile{name: nm})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	for i := range out {
		out[i].content = genText(r, Style{Dense: true}, 4) + tag
		if r.Intn(5) == 0 {
			out[i].content = ""
		}
	}
	return out
}

func c28check(t *T, key, f string, files []cfile, r *rand.Rand) bool {
	m := newPostModel()
	for _, x := range files {
		m.add(x.name, x.content)
	}
	ix := cindex.Open(f)
	defer ix.Close()
	return m.check(t, key, ix, r, 0)
}

// mergedPaths: the sorted union without a path that an earlier kept one prefixes.
func mergedPaths(a, b []string) []string {
	all := append(append([]string{}, a...), b...)
	sort.Strings(all)
	var out []string
	for _, p := range all {
		if len(out) > 0 && strings.HasPrefix(p, out[len(out)-1]) {
			continue
		}
		out = append(out, p)
	}
	return out
}

func c28(t *T) {
	t.Par(t.N(160, 5000), 4, func(ci int) {
		r := t.Rng("merge", ci)
		d := t.Dir("m")
		defer os.RemoveAll(d)
		f1, f2, f3 := filepath.Join(d, "1"), filepath.Join(d, "2"), filepath.Join(d, "3")
		p1 := c28paths(r, r.Intn(4))
		files1 := c28files(r, p1, r.Intn(2) == 0, r.Intn(30), "one\n")
		buildC(f1, p1, files1)
		for step := 0; step < 1+ci%3; step++ {
			p2 := c28paths(r, r.Intn(5))
			n2 := r.Intn(20)
			if r.Intn(5) == 0 {
				n2 = 0
			}
			files2 := c28files(r, p2, true, n2, fmt.Sprintf("two%d\n", step))
			buildC(f2, p2, files2)
			key := fmt.Sprintf("merge %d.%d (paths %q into %q)", ci, step, p2, p1)
			t.Current("C28 %s", key)
			if !t.Guard("panic", map[string]interface{}{"paths1": p1, "paths2": p2, "files1": cnames(files1), "files2": cnames(files2)}, func() { cindex.Merge(f3, f1, f2) }) {
				return
			}
			want := c28model(files1, files2, p2)
			if !c28check(t, "merge", f3, want, r) {
				t.Violate("merge-case", map[string]interface{}{"paths1": p1, "paths2": p2, "files1": cnames(files1), "files2": cnames(files2)}, "%s", key)
				return
			}
			ix := cindex.Open(f3)
			if got, w := ix.Paths(), mergedPaths(p1, p2); fmt.Sprint(got) != fmt.Sprint(w) {
				t.Violate("paths", nil, "%s: merged paths %q, want %q", key, got, w)
			}
			ix.Close()
			shadowed := len(files1) + len(files2) - len(want)
			t.Count("shadowed_files", shadowed)
			t.Count("merges", 1)
			if shadowed > 0 && len(files2) < len(want) {
				t.Distinct(key, cnames(files1), cnames(files2))
				t.Sample(map[string]interface{}{"paths1": p1, "paths2": p2, "kept": len(want) - len(files2), "shadowed": shadowed})
			}
			// chain: the merged index is the first one of the next merge
			os.Rename(f3, f1)
			files1, p1 = want, mergedPaths(p1, p2)
		}
	})
}

func cnames(fs []cfile) (out []string) {
	for _, f := range fs {
		out = append(out, f.name)
	}
	return
}
