package main

import (
	"fmt"
	"math/bits"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	cindex "github.com/hound-search/hound/codesearch/index"
	"github.com/hound-search/hound/index"
)

func init() {
	register(&Check{ID: "C05", Fn: c05,
		Rule: "sequences of files added through the real writer (accepted and rejected ones mixed; tiny, large, >2^21 files for every posting delta width, and enough distinct trigrams to spill the 8M-entry buffer one to several times), flushed, then opened several times (concurrent readers): every name, every trigram's posting list and the set of all ids compared with a reference map; plus whole hound indexes reopened from their manifest; non-trivial = distinct (file sequence, trigram) with a posting list checked",
	})
}

// postModel is the reference: trigram -> ascending file ids.
type postModel struct {
	names []string
	post  map[uint32][]uint32
}

func newPostModel() *postModel { return &postModel{post: map[uint32][]uint32{}} }

func trigramsOf(s string, seen map[uint32]bool) {
	for i := 0; i+3 <= len(s); i++ {
		seen[uint32(s[i])<<16|uint32(s[i+1])<<8|uint32(s[i+2])] = true
	}
}

func (m *postModel) add(name, content string) {
	id := uint32(len(m.names))
	m.names = append(m.names, name)
	seen := map[uint32]bool{}
	trigramsOf(content, seen)
	for t := range seen {
		m.post[t] = append(m.post[t], id)
	}
}

func eqIds(a, b []uint32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func clipIds(a []uint32) string {
	if len(a) > 12 {
		return fmt.Sprintf("%v… (%d)", a[:12], len(a))
	}
	return fmt.Sprint(a)
}

// check compares an opened index with the model.
func (m *postModel) check(t *T, key string, ix *cindex.Index, r *rand.Rand, sample int) bool {
	all := ix.PostingQuery(&cindex.Query{Op: cindex.QAll})
	if len(all) != len(m.names) {
		t.Violate(key+":count", nil, "%s: %d files in the index, %d were added", key, len(all), len(m.names))
		return false
	}
	for i, id := range all {
		if int(id) != i {
			t.Violate(key+":ids", nil, "%s: id %d at position %d", key, id, i)
			return false
		}
	}
	step := 1
	if len(m.names) > 200000 {
		step = 37
	}
	for i := 0; i < len(m.names); i += step {
		if n := ix.Name(uint32(i)); n != m.names[i] {
			t.Violate(key+":name", nil, "%s: id %d is named %q, want %q", key, i, n, m.names[i])
			return false
		}
	}
	if n := len(m.names); n > 0 && ix.Name(uint32(n-1)) != m.names[n-1] {
		t.Violate(key+":name", nil, "%s: last id is named %q, want %q", key, ix.Name(uint32(n-1)), m.names[n-1])
		return false
	}
	tris := make([]uint32, 0, len(m.post))
	for tri := range m.post {
		tris = append(tris, tri)
	}
	sort.Slice(tris, func(i, j int) bool { return tris[i] < tris[j] })
	if sample > 0 && len(tris) > sample {
		r.Shuffle(len(tris), func(i, j int) { tris[i], tris[j] = tris[j], tris[i] })
		tris = tris[:sample]
	}
	for _, tri := range tris {
		t.Eval(1)
		if got := ix.PostingList(tri); !eqIds(got, m.post[tri]) {
			t.Violate(key+":posting", nil, "%s: posting list of %06x is %s, want %s", key, tri, clipIds(got), clipIds(m.post[tri]))
			return false
		}
	}
	t.Count("posting_lists_checked", len(tris))
	// trigrams that occur in no file
	for k := 0; k < 60; k++ {
		tri := uint32(r.Intn(1 << 24))
		if k < 20 && len(tris) > 0 {
			tri = (tris[r.Intn(len(tris))] + uint32(r.Intn(3)) - 1) & 0xffffff
		}
		if k == 20 {
			tri = 0
		}
		if k == 21 {
			tri = 0xffffff
		}
		t.Eval(1)
		if got := ix.PostingList(tri); !eqIds(got, m.post[tri]) {
			t.Violate(key+":absent", nil, "%s: posting list of %06x is %s, want %s", key, tri, clipIds(got), clipIds(m.post[tri]))
			return false
		}
	}
	return true
}

func c05(t *T) {
	c05random(t)
	c05many(t)
	c05spill(t)
	c05hound(t)
}

func c05content(r *rand.Rand) (string, bool) {
	switch r.Intn(12) {
	case 0:
		return "", true
	case 1:
		return "a", true
	case 2:
		return "ab", true
	case 3:
		return "abc"[:r.Intn(4)], true
	case 4: // rejected: invalid utf-8
		return genText(r, Style{}, 5) + "a\xff\xfeb", false
	case 5: // rejected: long lines
		return strings.Repeat("x", 2500+r.Intn(100)) + "\nq\n", false
	case 6:
		return strings.Repeat("ab", r.Intn(20000)), true
	case 7: // sizes around the read buffer
		n := 16384*(1+r.Intn(2)) + r.Intn(5) - 2
		var b strings.Builder
		for b.Len() < n {
			b.WriteString(fmt.Sprintf("%x\n", r.Intn(1<<16)))
		}
		return b.String()[:n], true
	case 8:
		return genText(r, Style{Unicode: true}, 40), true
	}
	return genText(r, Style{Dense: r.Intn(2) == 0}, 30), true
}

func c05random(t *T) {
	t.Par(t.N(120, 4000), 4, func(ci int) {
		r := t.Rng("random", ci)
		f := filepath.Join(t.Dir("ci"), "tri")
		defer os.RemoveAll(filepath.Dir(f))
		m := newPostModel()
		w := cindex.Create(f)
		paths := []string{}
		for i := r.Intn(4); i > 0; i-- {
			paths = append(paths, fmt.Sprintf("p%d/é", i))
		}
		w.AddPaths(paths)
		n := r.Intn(60)
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("%d/%s", i, genName(r))
			if r.Intn(30) == 0 {
				name = strings.Repeat("d/", r.Intn(2000)) + "x"
			}
			c, ok := c05content(r)
			t.Current("C05 random %d file %d %q (%d bytes)", ci, i, name, len(c))
			var rd = readerFor(r, c)
			reason := w.Add(name, rd)
			if (reason == "") != ok {
				t.Violate("accept", c, "file %q of %d bytes: reason %q, expected accepted=%v", name, len(c), reason, ok)
				return
			}
			if ok {
				m.add(name, c)
			}
		}
		w.Flush()
		w.Close()
		var wg sync.WaitGroup
		for k := 0; k < 3; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				ix := cindex.Open(f)
				defer ix.Close()
				if got := ix.Paths(); !(len(got) == 0 && len(paths) == 0) && !reflect.DeepEqual(got, paths) {
					t.Violate("paths", nil, "paths %q, want %q", got, paths)
				}
				m.check(t, fmt.Sprintf("random %d open %d", ci, k), ix, t.Rng("chk", ci, k), 0)
			}(k)
		}
		wg.Wait()
		t.Distinct("random", ci, len(m.names), len(m.post))
		t.Count("files_added", len(m.names))
		if ci < 3 {
			t.Sample(map[string]interface{}{"kind": "random", "files": len(m.names), "trigrams": len(m.post)})
		}
	})
}

// readerFor hands out the content in whole or in odd pieces.
func readerFor(r *rand.Rand, c string) *pieceReader {
	p := &pieceReader{s: c}
	if r.Intn(2) == 0 {
		p.max = 1 + r.Intn(700)
	}
	return p
}

type pieceReader struct {
	s   string
	max int
}

func (p *pieceReader) Read(b []byte) (int, error) {
	if len(p.s) == 0 {
		return 0, errEOF
	}
	n := len(p.s)
	if p.max > 0 && n > p.max {
		n = p.max
	}
	n = copy(b, p.s[:n])
	p.s = p.s[n:]
	return n, nil
}

// c05many: more files than fit a three-byte posting delta.
func c05many(t *T) {
	f := filepath.Join(t.Dir("ci"), "tri")
	defer os.RemoveAll(filepath.Dir(f))
	m := newPostModel()
	w := cindex.Create(f)
	n := 1<<21 + 90
	marks := map[int]string{0: "QQQ", 1: "WWW", n - 1: "QQQ", n - 2: "TTT"}
	// Distances on both sides of every change in the length of their encoding,
	// from one file to the next and from the start to the first file.
	for _, b := range []int{1 << 7, 1 << 14, 1 << 21} {
		for d := b - 2; d <= b+2 && d+80 < n; d++ {
			tri := string([]byte{byte('A' + bits.Len(uint(b))), byte('a' + d - b + 2), 'z'})
			marks[d-1] += tri + "\n"
			first := 10 + 10*(d-b+2)
			tri = "-" + tri[:2]
			marks[first] += tri + "\n"
			marks[first+d] += tri + "\n"
		}
	}
	for i := 0; i < n; i++ {
		c := "xy\n"
		if s := marks[i]; s != "" {
			c = s + "\n"
		}
		name := strings.Repeat("n", i%17) + fmt.Sprint(i)
		if w.Add(name, strings.NewReader(c)) != "" {
			t.Violate("accept", c, "tiny file refused")
			return
		}
		id := uint32(i)
		m.names = append(m.names, name)
		seen := map[uint32]bool{}
		trigramsOf(c, seen)
		for tri := range seen {
			m.post[tri] = append(m.post[tri], id)
		}
	}
	w.Flush()
	w.Close()
	ix := cindex.Open(f)
	defer ix.Close()
	if m.check(t, "many", ix, t.Rng("many"), 0) {
		t.Distinct("many", n)
		t.Count("files_added", n)
		t.Sample(map[string]interface{}{"kind": "many", "files": n})
	}
}

// c05spill: enough entries that the in-memory buffer is spilled.
func c05spill(t *T) {
	const npost = 64 << 20 / 8
	for k := 0; k < t.N(1, 4); k++ {
		target := []int{5*npost + 1, 2*npost + 300000, npost, 19*npost + 7}[k]
		r := t.Rng("spill", k)
		f := filepath.Join(t.Dir("ci"), "tri")
		w := cindex.Create(f)
		const al = "abcdefghijklmnopqrstuvwxyz0123456789 \n.;"
		var post [len(al) * len(al) * len(al)][]uint32
		idx := func(c byte) int { return strings.IndexByte(al, c) }
		var names []string
		total := 0
		for i := 0; total < target; i++ {
			n := 22300 + r.Intn(400)
			if target-total < 21000 {
				n = target - total + 2
			}
			b := make([]byte, n)
			for j := range b {
				b[j] = al[r.Intn(len(al))]
			}
			name := fmt.Sprintf("s/%d", i)
			if w.Add(name, strings.NewReader(string(b))) != "" {
				t.Violate("accept", nil, "spill: file %d refused", i)
				return
			}
			names = append(names, name)
			x, y := idx(b[0]), idx(b[1])
			for j := 2; j < n; j++ {
				z := idx(b[j])
				p := &post[(x*len(al)+y)*len(al)+z]
				if l := len(*p); l == 0 || (*p)[l-1] != uint32(i) {
					*p = append(*p, uint32(i))
					total++
				}
				x, y = y, z
			}
		}
		tmp, _ := filepath.Glob(filepath.Join(os.TempDir(), "csearch-index*"))
		w.Flush()
		w.Close()
		t.Max("spill_files", int64(len(tmp)))
		t.Max("post_entries", int64(total))
		m := newPostModel()
		m.names = names
		for i, l := range post {
			if len(l) > 0 {
				x, y, z := al[i/len(al)/len(al)], al[i/len(al)%len(al)], al[i%len(al)]
				m.post[uint32(x)<<16|uint32(y)<<8|uint32(z)] = l
			}
		}
		ix := cindex.Open(f)
		if m.check(t, fmt.Sprintf("spill%d", k), ix, r, 0) {
			t.Distinct("spill", k)
			t.Sample(map[string]interface{}{"kind": "spill", "entries": total, "spill_files": len(tmp), "files": len(names)})
		}
		ix.Close()
		os.RemoveAll(filepath.Dir(f))
	}
}

// c05hound: a built hound index opened again answers the same.
func c05hound(t *T) {
	t.Par(t.N(24, 600), 4, func(ci int) {
		r := t.Rng("hound", ci)
		tr := genTree(r, Style{Unicode: ci%2 == 0}, 12, 20)
		var auto []string
		for _, n := range tr.names() {
			if r.Intn(3) == 0 {
				auto = append(auto, n)
			}
		}
		url, rev := fmt.Sprintf("https://h/%d?é\"", ci), fmt.Sprintf("r%x", r.Int63())
		src, dst := t.Dir("src"), t.Dir("dst")
		os.Remove(dst)
		writeTree(src, tr)
		defer os.RemoveAll(src)
		defer os.RemoveAll(dst)
		ref, err := index.Build(&index.IndexOptions{AutoGeneratedFiles: auto}, dst, src, url, rev)
		if err != nil {
			t.Violate("build", nil, "%v", err)
			return
		}
		a, err := ref.Open()
		if err != nil {
			t.Violate("open", nil, "%v", err)
			return
		}
		defer a.Close()
		type ans struct{ s string }
		texts := []string{}
		for _, n := range tr.names() {
			texts = append(texts, tr[n])
		}
		var qs []query
		var first []string
		for i := 0; i < 12; i++ {
			q := genQuery(r, Style{}, tr, texts)
			res, err := a.Search(q.pat, q.opts())
			if err != nil {
				continue
			}
			qs = append(qs, q)
			first = append(first, fmt.Sprint(flatten(res.Matches), res.FilesWithMatch, res.Revision))
			if res.Revision != rev {
				t.Violate("revision", nil, "built index reports revision %q, want %q", res.Revision, rev)
			}
		}
		for k := 0; k < 3; k++ {
			b, err := index.Open(dst)
			if err != nil {
				t.Violate("reopen", nil, "%v", err)
				return
			}
			if b.Ref.Url != url || b.Ref.Rev != rev || b.GetDir() != dst || !b.Ref.Time.Equal(ref.Time) || time.Since(b.Ref.Time) > time.Hour ||
				fmt.Sprint(b.Ref.AutoGeneratedFiles) != fmt.Sprint(auto) {
				t.Violate("manifest", nil, "manifest reads back as %+v, built with url %q rev %q auto %q", b.Ref, url, rev, auto)
			}
			for i, q := range qs {
				t.Eval(1)
				res, err := b.Search(q.pat, q.opts())
				if err != nil {
					t.Violate("reopen", q.String(), "%v", err)
					continue
				}
				if s := fmt.Sprint(flatten(res.Matches), res.FilesWithMatch, res.Revision); s != first[i] {
					t.Violate("reopen", q.String(), "reopened index answers %s differently: %s, was %s", q, clip(s), clip(first[i]))
				}
			}
			if k == 1 {
				b.Close()
			} else {
				defer b.Close()
			}
		}
		t.Distinct("hound", ci)
	})
}
