package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// GEntry is a file of a commit: content (or link target) and mode.
type GEntry struct {
	Mode    string // 100644, 100755, 120000
	Content string
}

// GTree is the tree of a commit.
type GTree map[string]GEntry

func (g GTree) copy() GTree {
	o := GTree{}
	for k, v := range g {
		o[k] = v
	}
	return o
}

func (g GTree) names() []string { return sortedKeys(g) }

// BareRepo is a bare repository written with git fast-import; it remembers the
// tree of every commit.
type BareRepo struct {
	Dir string
	mu  sync.Mutex
	n   int
	// commit -> tree
	Trees map[string]GTree
}

func newBare(t *T, head string) *BareRepo {
	b := &BareRepo{Dir: t.Dir("bare"), Trees: map[string]GTree{}}
	mustGit(b.Dir, "init", "-q", "--bare", "-b", head)
	mustGit(b.Dir, "config", "uploadpack.allowAnySHA1InWant", "true")
	return b
}

func cquote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c == '\n':
			b.WriteString("\\n")
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// Commit writes a commit with the given tree on a branch; parent "" makes it a
// root commit, whatever the branch held before.
func (b *BareRepo) Commit(branch, parent string, tr GTree) string {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.n++
	var s bytes.Buffer
	fmt.Fprintf(&s, "commit refs/heads/%s\nmark :1\ncommitter v <v@example.com> %d +0000\ndata 2\nc\n", branch, 1600000000+b.n)
	if parent != "" {
		fmt.Fprintf(&s, "from %s\n", parent)
	}
	s.WriteString("deleteall\n")
	for _, n := range tr.names() {
		e := tr[n]
		fmt.Fprintf(&s, "M %s inline %s\ndata %d\n%s\n", e.Mode, cquote(n), len(e.Content), e.Content)
	}
	s.WriteString("\nget-mark :1\n")
	if parent == "" {
		gitCmd(b.Dir, "update-ref", "-d", "refs/heads/"+branch)
	}
	c := exec.Command("git", "fast-import", "--quiet", "--force", "--cat-blob-fd=1")
	c.Dir = b.Dir
	c.Stdin = &s
	out, err := c.Output()
	if err != nil {
		fatal("fast-import: %v", err)
	}
	sha := strings.TrimSpace(string(out))
	if len(sha) != 40 {
		fatal("fast-import: %q", out)
	}
	b.Trees[sha] = tr.copy()
	return sha
}

func (b *BareRepo) Tree(sha string) (GTree, bool) {
	b.mu.Lock()
	defer b.mu.Unlock()
	tr, ok := b.Trees[sha]
	return tr, ok
}

// diffWork compares a working copy with a tree; extra are untracked names that
// may be there as well.
func diffWork(dir string, want GTree, extra map[string]bool) string {
	got := map[string]GEntry{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if fi.IsDir() {
			if rel == ".git" {
				return filepath.SkipDir
			}
			return nil
		}
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			got[rel] = GEntry{"120000", l}
		case fi.Mode()&0100 != 0:
			b, _ := os.ReadFile(p)
			got[rel] = GEntry{"100755", string(b)}
		default:
			b, _ := os.ReadFile(p)
			got[rel] = GEntry{"100644", string(b)}
		}
		return nil
	})
	var ks []string
	for k := range got {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		w, ok := want[k]
		if !ok && extra[k] {
			continue
		}
		if !ok {
			return fmt.Sprintf("%q is in the working copy, but not in the revision", k)
		}
		if w != got[k] {
			return fmt.Sprintf("%q is %s %q, in the revision %s %q", k, got[k].Mode, clip(got[k].Content), w.Mode, clip(w.Content))
		}
	}
	for _, k := range want.names() {
		if _, ok := got[k]; !ok {
			return fmt.Sprintf("%q of the revision is not in the working copy", k)
		}
	}
	return ""
}

var gitNames = []string{"a", "b.txt", "dir/a", "dir/b", "dir/sub/c", "sp ace/x y", "é/ü.txt", "-dash", "日本.go", "a.b/c.d", "UP", "up2", ".hidden", ".gitignore", "dir/.gitignore", "nl\nname", "q\"uote", "tab\tx", "x'y", "$HOME", "*glob", "trail ", "HEAD", "master", "origin/master"}

// mutateTree makes the next revision of a tree: added, changed, deleted,
// renamed files, mode changes, files turned directories.
func mutateTree(r *rand.Rand, tr GTree) GTree {
	o := tr.copy()
	content := func() string {
		switch r.Intn(6) {
		case 0:
			return ""
		case 1:
			return "same\n"
		case 2:
			return "\x00\xff bin " + fmt.Sprint(r.Intn(1000))
		}
		return fmt.Sprintf("content %d\r\nline\n", r.Intn(100000))
	}
	clash := func(n string) bool {
		for k := range o {
			if strings.HasPrefix(k, n+"/") || strings.HasPrefix(n, k+"/") {
				return true
			}
		}
		return false
	}
	for k := 1 + r.Intn(4); k > 0; k-- {
		ns := o.names()
		pick := func() string { return ns[r.Intn(len(ns))] }
		switch op := r.Intn(9); {
		case op <= 2 || len(ns) == 0:
			n := gitNames[r.Intn(len(gitNames))]
			if !clash(n) {
				c := content()
				if strings.HasSuffix(n, ".gitignore") {
					c = []string{"*\n", "a\nb.txt\n", "dir/\n", "!a\n*.go\n"}[r.Intn(4)]
				}
				o[n] = GEntry{"100644", c}
			}
		case op == 3:
			n := pick()
			o[n] = GEntry{o[n].Mode, content()}
			if o[n].Mode == "120000" {
				o[n] = GEntry{"120000", "a"}
			}
		case op == 4:
			delete(o, pick())
		case op == 5: // rename
			n, m := pick(), gitNames[r.Intn(len(gitNames))]
			e := o[n]
			delete(o, n)
			if !clash(m) {
				o[m] = e
			}
		case op == 6: // mode
			n := pick()
			if o[n].Mode == "100644" {
				o[n] = GEntry{"100755", o[n].Content}
			} else if o[n].Mode == "100755" {
				o[n] = GEntry{"100644", o[n].Content}
			}
		case op == 7: // link
			n := pick()
			if o[n].Mode == "120000" {
				o[n] = GEntry{"100644", content()}
			} else {
				o[n] = GEntry{"120000", []string{"a", "dir", "nowhere", "../.."}[r.Intn(4)]}
			}
		case op == 8: // file <-> directory
			n := pick()
			e := o[n]
			if e.Mode == "120000" {
				break
			}
			delete(o, n)
			if i := strings.LastIndex(n, "/"); i > 0 && r.Intn(2) == 0 && !clash(n[:i]) {
				o[n[:i]] = e
			} else if !clash(n) {
				o[n+"/inner"] = e
			}
		}
	}
	return o
}
