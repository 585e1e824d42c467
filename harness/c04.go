package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"unicode/utf8"

	"github.com/hound-search/hound/index"
)

func init() {
	register(&Check{ID: "C04", Fn: c04,
		Rule:   "random and directed working trees (nested, dot names, special names at any depth, symlinks of every kind, FIFOs, sockets, binary and partly binary files, every length, line-length and trigram limit from both sides, unreadable entries) built by the real code under random options, every entry then classified from the answers of the index and its report; plus an enumeration of every failing read, open, write, mkdir and close of a build (injected with strace): the build must fail or the index be complete; non-trivial = distinct tree or distinct injected fault that the build met",
		Assume: []string{"the searchable content of an empty file cannot be observed through a search; only its absence from the excluded-files report is checked"},
	})
	helpers["c04build"] = c04helper
}

// entry kinds of a generated tree
type ent struct {
	path    string
	kind    string // file, dir, symlink, fifo, sock
	content string
}

// c04at: n bytes of text in short lines.
func c04at(n int) string {
	return strings.Repeat("plain line\n", n/11+1)[:n]
}

func c04content(r *rand.Rand) string {
	switch r.Intn(14) {
	case 0:
		return ""
	case 1:
		return "\xff\xfe\x00binary"
	case 2: // binary tail after the peek window
		return strings.Repeat("plain text\n", 300) + "tail \xc3\x28 \xff end\n"
	case 3: // a rune across the 2048 byte peek boundary
		return c04at(2048-r.Intn(5)) + pick(r, "é", "日本語", "😀", "\xf0\x9f\x98", "\u0000") + "\n"
	case 4:
		return strings.Repeat("x", 2100) + "\nshort\n"
	case 5: // exactly the long-line limits
		return strings.Repeat(strings.Repeat("y", 1998+r.Intn(3))+"\n", 1+r.Intn(2)) + strings.Repeat("z\n", r.Intn(20))
	case 6:
		return "no newline at all " + strings.Repeat("w", r.Intn(4000))
	case 7:
		return "a\x00b\n"
	case 8:
		return genText(r, Style{Unicode: true, CRLF: true}, 30)
	case 9:
		return "\xef\xbb\xbfbom\n"
	case 10: // latin-1
		return "caf\xe9 au lait\n"
	}
	return genText(r, Style{}, 20)
}

func c04tree(r *rand.Rand) []ent {
	var out []ent
	seen := map[string]string{}
	names := []string{"a", "b", "A", "B", "makefile", "C.TXT", "É", ".hidden", ".git", ".github", ".gitignore", ".well-known", "Makefile", "x.min.js", "a~", "vendor", "LICENSE", "x.git", "b.special", "special.b", "aa", "node_modules", "c.txt", "d", "é", "sp ace", "x\ny", ".a.b", "..c", "special", "Z", "q\"uote", "raw", "tri", "metadata.gob", "excluded_files.json"}
	n := 1 + r.Intn(40)
	dirs := []string{""}
	for i := 0; i < n; i++ {
		d := dirs[r.Intn(len(dirs))]
		p := filepath.Join(d, names[r.Intn(len(names))])
		if r.Intn(3) == 0 {
			p += fmt.Sprint(r.Intn(4))
		}
		if seen[p] != "" {
			continue
		}
		e := ent{path: p, kind: "file"}
		switch r.Intn(12) {
		case 0, 1, 2:
			e.kind = "dir"
			dirs = append(dirs, p)
		case 3:
			e.kind = []string{"symlink", "symlink", "fifo", "sock"}[r.Intn(4)]
			if e.kind == "symlink" {
				e.content = []string{"nowhere", ".", "..", "/etc/passwd", "a", "/"}[r.Intn(6)]
			}
		default:
			e.content = c04content(r)
			if r.Intn(6) == 0 {
				for _, o := range out {
					if o.kind == "file" {
						e.content = o.content
					}
				}
			}
		}
		seen[p] = e.kind
		out = append(out, e)
	}
	return out
}

// c04write makes the tree; some of the files with the same content are one
// file with several names.
func c04write(dir string, es []ent) {
	first := map[string]string{}
	for _, e := range es {
		p := filepath.Join(dir, e.path)
		var err error
		switch e.kind {
		case "dir":
			err = os.MkdirAll(p, 0755)
		case "file":
			if o := first[e.content]; o != "" && len(e.path)%3 > 0 && os.Link(o, p) == nil {
				break
			}
			first[e.content] = p
			err = os.WriteFile(p, []byte(e.content), 0644)
		case "symlink":
			err = os.Symlink(e.content, p)
		case "fifo":
			err = syscall.Mkfifo(p, 0644)
		case "sock":
			err = syscall.Mknod(p, syscall.S_IFSOCK|0644, 0)
		}
		if err != nil {
			fatal("c04write %q: %v", p, err)
		}
	}
}

// skipped: by configuration not even accounted for.
func c04skipped(path string, isDir bool, opt *index.IndexOptions) bool {
	comps := strings.Split(path, "/")
	for i, c := range comps {
		for _, s := range opt.SpecialFiles {
			if c == s {
				return true
			}
		}
		if opt.ExcludeDotFiles && c[0] == '.' && (i < len(comps)-1 || isDir) {
			return true
		}
	}
	return false
}

const (
	limLen      = 1 << 25
	limLine     = 2000
	limTrigrams = 20000
)

// mustIndex: none of the documented reasons applies to the content.
func c04mustIndex(c string) bool {
	if !utf8.ValidString(c) || len(c) > limLen {
		return false
	}
	lines, long := 0, 0
	n := 0
	for i := 0; i < len(c); i++ {
		n++
		if c[i] == '\n' {
			lines++
			if n > limLine {
				long++
			}
			n = 0
		}
	}
	if lines > 0 && float64(long)/float64(lines) > 0.1 {
		return false
	}
	if len(c) > limTrigrams {
		set := map[string]bool{}
		for i := 0; i+3 <= len(c); i++ {
			set[c[i:i+3]] = true
		}
		if len(set) > limTrigrams && float64(len(set))/float64(len(c)) > 0.0999 {
			return false
		}
	}
	return true
}

// c04reason: is the given reason true of this entry?
func c04reason(e ent, reason string, opt *index.IndexOptions) bool {
	base := filepath.Base(e.path)
	switch {
	case reason == "":
		return false
	case opt.ExcludeDotFiles && base[0] == '.':
		return true
	case e.kind != "file":
		return true
	}
	return !c04mustIndex(e.content)
}

// c04verify classifies every entry of the tree.
func c04verify(t *T, key string, dst string, es []ent, opt *index.IndexOptions) bool {
	data := map[string]interface{}{"case": key, "options": opt}
	bad := func(k, f string, a ...interface{}) bool {
		var ps []string
		for _, e := range es {
			ps = append(ps, e.kind+" "+e.path)
		}
		data["entries"] = ps
		t.Violate(k, data, key+": "+f, a...)
		return false
	}
	ix, err := index.Open(dst)
	if err != nil {
		return bad("open", "index does not open: %v", err)
	}
	defer ix.Close()
	res, err := ix.Search("", &index.SearchOptions{})
	if err != nil {
		return bad("search", "search failed: %v", err)
	}
	got := map[string][]string{}
	for _, f := range res.Matches {
		if _, dup := got[f.Filename]; dup {
			return bad("dup", "file %q is indexed twice", f.Filename)
		}
		var ls []string
		for i, m := range f.Matches {
			if m.LineNumber != i+1 {
				return bad("lines", "file %q: line %d follows line %d", f.Filename, m.LineNumber, i)
			}
			ls = append(ls, m.Line)
		}
		got[f.Filename] = ls
	}
	var exl []index.ExcludedFile
	b, err := os.ReadFile(filepath.Join(dst, "excluded_files.json"))
	if err == nil {
		err = json.Unmarshal(b, &exl)
	}
	if err != nil {
		return bad("report", "excluded-files report unreadable: %v", err)
	}
	exc := map[string]string{}
	for _, x := range exl {
		if _, dup := exc[x.Filename]; dup {
			return bad("dup-report", "%q is listed twice", x.Filename)
		}
		exc[x.Filename] = x.Reason
	}
	for _, e := range es {
		reason, isExc := exc[e.path]
		lines, isIdx := got[e.path]
		delete(exc, e.path)
		delete(got, e.path)
		if c04skipped(e.path, e.kind == "dir", opt) {
			t.Count("class_skipped", 1)
			if isExc || isIdx {
				return bad("skipped-present", "%s %q is skipped by configuration but indexed=%v listed=%v", e.kind, e.path, isIdx, isExc)
			}
			continue
		}
		if e.kind == "dir" {
			if isExc || isIdx {
				return bad("dir", "directory %q indexed=%v listed=%v", e.path, isIdx, isExc)
			}
			continue
		}
		if isExc && isIdx {
			return bad("both", "%s %q is both indexed and listed as excluded (%s)", e.kind, e.path, reason)
		}
		if isExc {
			t.Count("class_excluded", 1)
			t.Count("reason "+strings.SplitN(reason, ",", 2)[0][:min(len(reason), 14)], 1)
			if !c04reason(e, reason, opt) {
				return bad("reason", "%s %q (%d bytes) is excluded as %q, which does not apply", e.kind, e.path, len(e.content), reason)
			}
			continue
		}
		if e.kind != "file" || opt.ExcludeDotFiles && filepath.Base(e.path)[0] == '.' {
			return bad("unaccounted", "%s %q is neither skipped nor listed (indexed=%v)", e.kind, e.path, isIdx)
		}
		want := splitLines(e.content)
		if len(want) == 0 {
			t.Count("class_empty", 1)
			continue
		}
		if !isIdx {
			return bad("lost", "file %q (%d bytes) is neither searchable nor listed as excluded", e.path, len(e.content))
		}
		t.Count("class_indexed", 1)
		if !sameLines(lines, want) {
			return bad("content", "file %q: %d lines searchable, it has %d (or they differ)", e.path, len(lines), len(want))
		}
	}
	for p := range got {
		return bad("ghost", "%q is searchable but not in the tree", p)
	}
	for p := range exc {
		return bad("ghost-report", "%q is listed but not in the tree", p)
	}
	return true
}

func c04(t *T) {
	c04faults(t)
	c04limits(t)
	c04unreadable(t)
	for i := 0; i < 2; i++ {
		c04large(t, i)
	}
	t.Par(t.N(260, 8000), 8, func(ci int) {
		r := t.Rng("tree", ci)
		es := c04tree(r)
		opt := &index.IndexOptions{ExcludeDotFiles: r.Intn(2) == 0}
		if r.Intn(2) == 0 {
			opt.SpecialFiles = [][]string{{".git"}, {"special", "node_modules"}, {"a", "é"}, {"c.txt", ".hidden"}}[r.Intn(4)]
			// names that only contain those that are left out
			have := map[string]bool{}
			for _, e := range es {
				have[e.path] = true
			}
			for _, s := range opt.SpecialFiles {
				for _, n := range []string{"lib" + s, s + "x", strings.ToUpper(s)} {
					if !have[n] && n != s && r.Intn(2) == 0 {
						es = append(es, ent{path: n, kind: "dir"}, ent{path: n + "/in", kind: "file", content: "in " + n + "\n"})
						have[n] = true
					}
				}
			}
		}
		top := t.Dir("src")
		defer os.RemoveAll(top)
		src := filepath.Join(top, []string{"w", ".dot", "special", ".git"}[r.Intn(4)])
		os.Mkdir(src, 0755)
		c04write(src, es)
		root := src
		switch r.Intn(4) {
		case 0: // through a link, a chain of links, a relative link
			root = filepath.Join(top, "l")
			os.Symlink(src, root)
		case 1:
			os.Symlink(filepath.Base(src), filepath.Join(top, "l1"))
			root = filepath.Join(top, "l")
			os.Symlink("l1", root)
		}
		dst := t.Dir("dst")
		os.Remove(dst)
		defer os.RemoveAll(dst)
		t.Current("C04 tree %d: %d entries, options %+v, root %s", ci, len(es), opt, filepath.Base(src))
		t.Eval(1)
		t.Guard("panic", nil, func() {
			if _, err := index.Build(opt, dst, root, "u", "r"); err != nil {
				t.Violate("build", nil, "tree %d: build of a readable tree failed: %v", ci, err)
				return
			}
			if c04verify(t, fmt.Sprintf("tree %d", ci), dst, es, opt) {
				t.Distinct("tree", ci)
				if len(es) > 10 {
					t.Sample(map[string]interface{}{"entries": len(es), "options": opt})
				}
			}
		})
	})
}

// c04large: many entries of every class, in wide and in deep directories, with
// names as long as they can be.
func c04large(t *T, i int) {
	r := t.Rng("large", i)
	opt := &index.IndexOptions{ExcludeDotFiles: i == 0, SpecialFiles: []string{"special"}}
	var es []ent
	seen := map[string]bool{}
	dir := func(p string) {
		if p != "" && !seen[p] {
			seen[p] = true
			es = append(es, ent{p, "dir", ""})
		}
	}
	deep := ""
	for k := 0; k < 90; k++ {
		if k >= 45 {
			// the longest paths there can be
			deep = filepath.Join(deep, strings.Repeat("p", 55))
			dir(deep)
			continue
		}
		deep = filepath.Join(deep, []string{"d", "ee", strings.Repeat("n", 60), "é"}[k%4])
		dir(deep)
	}
	dirs := []string{"wide", deep, "mixed"}
	dir("wide")
	dir("mixed")
	for k := 0; k < 120; k++ {
		d := fmt.Sprintf("m%d", k)
		dir(d)
		dirs = append(dirs, d)
	}
	for k, n := 0, t.N(6000, 80000); k < n; k++ {
		d := "wide"
		if k%2 == 0 {
			d = dirs[r.Intn(len(dirs))]
		}
		e := ent{filepath.Join(d, fmt.Sprintf("f%d", k)), "file", fmt.Sprintf("file %d\nsecond\n", k)}
		switch r.Intn(8) {
		case 0:
			e.content = "\xff\xfe\x00"
		case 1:
			e.path = filepath.Join(d, fmt.Sprintf(".f%d", k))
		case 2:
			e.kind, e.content = "symlink", "nowhere"
		case 3:
			e.path = filepath.Join(d, fmt.Sprintf("%d", k)+strings.Repeat("l", 200))
		case 4:
			e.content = ""
		}
		es = append(es, e)
	}
	src, dst := t.Dir("src"), t.Dir("dst")
	os.Remove(dst)
	defer os.RemoveAll(src)
	defer os.RemoveAll(dst)
	c04write(src, es)
	t.Eval(len(es))
	t.Max("entries_of_a_tree", int64(len(es)))
	t.Guard("panic:large", nil, func() {
		if _, err := index.Build(opt, dst, src, "u", "r"); err != nil {
			t.Violate("build", nil, "large tree: %v", err)
			return
		}
		if c04verify(t, "large tree", dst, es, opt) {
			t.Distinct("large", i)
		}
	})
}

// c04limits: both sides of every documented limit.
func c04limits(t *T) {
	line := func(n int) string { return strings.Repeat("m", n-1) + "\n" }
	uniq := func(n int) string { // about n distinct trigrams
		var b strings.Builder
		for i := 0; b.Len() < n; i++ {
			b.WriteString(fmt.Sprintf("%c%c%c", 33+i%90, 33+(i/90)%90, 33+(i/8100)%90))
			if i%20 == 19 {
				b.WriteByte('\n')
			}
		}
		return b.String()
	}
	var es []ent
	add := func(n, c string) { es = append(es, ent{n, "file", c}) }
	add("len-max", strings.Repeat("0123456789abcde\n", limLen/16))
	add("len-over", strings.Repeat("0123456789abcde\n", limLen/16)+"x")
	add("line-2000", line(2000)+line(1999))
	add("line-2001", line(2001))
	add("line-1of10", line(2500)+strings.Repeat("a\n", 9))
	add("line-1of9", line(2500)+strings.Repeat("a\n", 8))
	add("line-1of11", line(2500)+strings.Repeat("a\n", 10))
	add("line-nonl", strings.Repeat("p", 5000))
	add("tri-low", uniq(15000))
	add("tri-high", uniq(80000))
	add("tri-ratio", uniq(60000)+strings.Repeat("abcdefg\n", 120000))
	for i := 2040; i < 2056; i++ {
		for k, c := range []string{"é", "日", "😀", "\u0080", "\uffff", "\U00010000", "\U0010ffff", "\x00"} {
			add(fmt.Sprintf("peek%d-%d", i, k), c04at(i)+c+"\n")
			add(fmt.Sprintf("end%d-%d", i, k), c04at(i)+c)
			if n := len(c); n > 1 {
				add(fmt.Sprintf("cut%d-%d", i, k), c04at(i)+c[:n-1])
				add(fmt.Sprintf("bad%d-%d", i, k), c04at(i)+c[:n-1]+"\nmore\n")
			}
		}
		add(fmt.Sprintf("long%d", i), strings.Repeat("k", i-1)+"\n日本\n")
	}
	add("nul", strings.Repeat("\x00", 100))
	add("f8", "ok \xf8\x88\x80\x80\x80\n")
	add("surrogate", "x \xed\xa0\x80 y\n")
	add("late", strings.Repeat("good line\n", 1000)+"\xff")
	add("4byte", strings.Repeat("😀", 600)+"\n")
	for i := 510; i < 515; i++ {
		add(fmt.Sprintf("emoji%d", i), "ab"[:i%3]+strings.Repeat("😀", i)+"\nz\n")
	}
	src, dst := t.Dir("src"), t.Dir("dst")
	os.Remove(dst)
	defer os.RemoveAll(src)
	defer os.RemoveAll(dst)
	c04write(src, es)
	t.Eval(len(es))
	opt := &index.IndexOptions{}
	if _, err := index.Build(opt, dst, src, "u", "r"); err != nil {
		t.Violate("build", nil, "limits: %v", err)
		return
	}
	if c04verify(t, "limits", dst, es, opt) {
		t.Distinct("limits")
	}
}

// c04unreadable: entries the build cannot read, and a missing tree.
func c04unreadable(t *T) {
	if os.Getuid() == 0 {
		return
	}
	for i, k := range []string{"file", "file2", "dir", "dirx", "root", "missing", "dangling", "dotfile", "isfile"} {
		src, dst := t.Dir("src"), t.Dir("dst")
		os.Remove(dst)
		es := []ent{{"a", "file", "hello\n"}, {"d", "dir", ""}, {"d/b", "file", "world\n"}, {"z", "file", "end\n"}, {".dot", "file", "dot\n"}}
		c04write(src, es)
		opt := &index.IndexOptions{}
		fail := true
		root := src
		switch k {
		case "file":
			os.Chmod(filepath.Join(src, "a"), 0)
		case "file2":
			os.Chmod(filepath.Join(src, "d/b"), 0)
		case "dir":
			os.Chmod(filepath.Join(src, "d"), 0)
		case "dirx": // can be listed, not entered
			os.Chmod(filepath.Join(src, "d"), 0444)
		case "root":
			os.Chmod(src, 0)
		case "missing":
			root = filepath.Join(src, "nope")
		case "dangling":
			root = filepath.Join(src, "dang")
			os.Symlink("nope", root)
		case "dotfile": // need not be read
			os.Chmod(filepath.Join(src, ".dot"), 0)
			opt.ExcludeDotFiles = true
			fail = false
		case "isfile":
			root = filepath.Join(src, "a")
		}
		t.Eval(1)
		t.Current("C04 unreadable %s", k)
		t.Guard("panic:"+k, k, func() {
			_, err := index.Build(opt, dst, root, "u", "r")
			if fail && err == nil {
				t.Violate("unreadable:"+k, k, "a tree with an unreadable entry (%s) was indexed without an error", k)
			}
			if !fail && err != nil {
				t.Violate("unreadable:"+k, k, "%s: %v", k, err)
			}
			if !fail && err == nil {
				c04verify(t, k, dst, es, opt)
			}
		})
		t.Distinct("unreadable", i)
		for _, p := range []string{src, filepath.Join(src, "d")} {
			os.Chmod(p, 0755)
		}
		os.RemoveAll(src)
		os.RemoveAll(dst)
	}
}

// ---- fault enumeration

func c04helper(args []string) int {
	var opt index.IndexOptions
	_, err := index.Build(&opt, args[1], args[0], "u", "r")
	if err != nil {
		fmt.Println("ERR", err)
		return 1
	}
	fmt.Println("OK")
	return 0
}

// straceRun runs a command under strace with one injected fault; met tells
// whether the fault was injected.
func straceRun(t *T, trace, inject string, paths []string, env []string, argv ...string) (out string, met int, log string, err error) {
	lf := filepath.Join(t.Dir("st"), "log")
	defer os.RemoveAll(filepath.Dir(lf))
	a := []string{"-f", "-qq", "-o", lf, "-e", "trace=" + trace, "-e", "signal=none"}
	if inject != "" {
		a = append(a, "-e", "inject="+inject)
	}
	for _, p := range paths {
		a = append(a, "-P", p)
	}
	c := exec.Command("strace", append(a, argv...)...)
	c.Env = append(os.Environ(), env...)
	b, err := c.CombinedOutput()
	lb, _ := os.ReadFile(lf)
	return string(b), strings.Count(string(lb), "(INJECTED)"), string(lb), err
}

func c04faults(t *T) {
	self, _ := os.Executable()
	src := t.Dir("fsrc")
	defer os.RemoveAll(src)
	r := t.Rng("faults")
	es := []ent{{"a.txt", "file", genText(r, Style{}, 30)}, {"d", "dir", ""}, {"d/big.txt", "file", bigText(r, Style{}, 90000)}, {"d/e", "dir", ""},
		{"d/e/c.txt", "file", "alpha\nbeta\n"}, {"bin", "file", "\xff\xff"}, {"z.txt", "file", genText(r, Style{}, 10)}}
	c04write(src, es)
	files := []string{}
	for _, e := range es {
		files = append(files, filepath.Join(src, e.path))
	}
	sort.Strings(files)
	type fault struct {
		sys, errno string
		path       string // relative to src or dst
		inDst      bool
		when       int
	}
	var fs []fault
	for _, e := range es {
		for w := 1; w <= 8; w++ {
			for _, s := range []string{"read", "openat", "newfstatat", "getdents64"} {
				if (s == "read") == (e.kind == "dir") || w > 2 && s != "read" || s == "getdents64" && e.kind != "dir" {
					continue
				}
				fs = append(fs, fault{s, "EIO", e.path, false, w})
			}
		}
	}
	for _, s := range []string{"getdents64", "openat", "newfstatat"} {
		fs = append(fs, fault{s, "EIO", ".", false, 1}, fault{s, "EIO", ".", false, 2})
	}
	for _, p := range []string{"raw/a.txt", "raw/d/big.txt", "raw/d/e/c.txt", "raw/z.txt", "tri", "excluded_files.json", "metadata.gob", "raw", "raw/d", "raw/d/e"} {
		for w := 1; w <= 4; w++ {
			fs = append(fs, fault{"write", "ENOSPC", p, true, w})
			if w <= 2 {
				fs = append(fs, fault{"openat", "ENOSPC", p, true, w}, fault{"close", "EIO", p, true, w}, fault{"mkdirat", "ENOSPC", p, true, w})
			}
		}
	}
	// temporary files have unpredictable names: count through all writes
	for w := 1; w <= t.N(14, 40); w++ {
		fs = append(fs, fault{"write", "ENOSPC", "", true, w})
	}
	for w := 1; w <= t.N(12, 60); w++ {
		fs = append(fs, fault{"openat", "EMFILE", "", true, w})
	}
	probe, _, _, perr := straceRun(t, "write", "", nil, nil, self, "c04build", src, filepath.Join(t.Dir("p"), "dst"))
	if perr != nil || !strings.Contains(probe, "OK") {
		t.Inconclusive("strace cannot be used here: %v %s", perr, probe)
		return
	}
	t.Par(len(fs), 8, func(i int) {
		f := fs[i]
		top := t.Dir("fdst")
		defer os.RemoveAll(top)
		dst := filepath.Join(top, "idx")
		var ps []string
		if f.path != "" {
			if f.inDst {
				ps = []string{filepath.Join(dst, f.path)}
			} else {
				ps = []string{filepath.Join(src, f.path)}
			}
		}
		tmp := filepath.Join(top, "tmp")
		os.Mkdir(tmp, 0755)
		key := fmt.Sprintf("%s:%s:%s:%d", f.sys, f.errno, f.path, f.when)
		t.Current("C04 fault %s", key)
		out, met, _, err := straceRun(t, f.sys, fmt.Sprintf("%s:error=%s:when=%d", f.sys, f.errno, f.when), ps, []string{"TMPDIR=" + tmp, "GOMAXPROCS=2"}, self, "c04build", src, dst)
		t.Eval(1)
		if met == 0 {
			if err != nil || !strings.Contains(out, "OK") {
				t.Violate("fault-none:"+key, nil, "build without a fault failed: %v %s", err, out)
			}
			return
		}
		t.Count("faults_met", 1)
		t.Distinct("fault", key)
		if err == nil && strings.Contains(out, "OK") {
			t.Count("faults_survived", 1)
			if f.sys == "write" && f.path == "" && met > 0 && strings.Contains(out, "OK") {
				// may have hit a log line
			}
			c04verify(t, "fault "+key, dst, es, &index.IndexOptions{})
		} else {
			t.Count("faults_failed_build", 1)
		}
	})
	_ = io.EOF
}
