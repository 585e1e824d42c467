package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// The stand-in for hg (a copy of this binary under the name "hg", put on
// PATH). The URL is a control directory:
//
//	HEAD      current revision name
//	tree-REV  its content
//	hold      while present, clone and pull wait
//	fail      while present, clone and pull fail
//	events    one line per command: kind begin-nanos end-nanos rev
type HgCtl struct{ Dir string }

func newHgCtl(t *T) *HgCtl { return &HgCtl{t.Dir("hgctl")} }

func (c *HgCtl) set(name string, on bool) {
	p := filepath.Join(c.Dir, name)
	if on {
		os.WriteFile(p, nil, 0644)
	} else {
		os.Remove(p)
	}
}

func (c *HgCtl) Commit(rev string, tr Tree) {
	d := filepath.Join(c.Dir, "tree-"+rev)
	os.MkdirAll(d, 0755)
	writeTree(d, tr)
	tmp := filepath.Join(c.Dir, "HEAD.tmp")
	os.WriteFile(tmp, []byte(rev), 0644)
	os.Rename(tmp, filepath.Join(c.Dir, "HEAD"))
}

type hgEvent struct {
	Kind       string
	Begin, End int64
	Rev        string
}

// Events returns the finished commands; begun ones have no End yet.
func (c *HgCtl) Events() (out []hgEvent) {
	b, _ := os.ReadFile(filepath.Join(c.Dir, "events"))
	for _, l := range strings.Split(string(b), "\n") {
		var e hgEvent
		if n, _ := fmt.Sscanf(l, "%s %d %d %s", &e.Kind, &e.Begin, &e.End, &e.Rev); n >= 2 {
			out = append(out, e)
		}
	}
	return
}

// hgDir makes a directory with the stand-in to put on PATH.
func hgDir(t *T) string {
	d := t.Dir("hgbin")
	os.Symlink(filepath.Join(t.Bin, "vh"), filepath.Join(d, "hg"))
	return d
}

func hgStub(args []string) int {
	now := func() int64 { return time.Now().UnixNano() }
	if len(args) == 0 {
		return 1
	}
	var ctl, wd string
	switch args[0] {
	case "clone":
		ctl, wd = args[1], args[2]
	default:
		wd = "."
		b, err := os.ReadFile(".hg/src")
		if err != nil {
			fmt.Fprintln(os.Stderr, "abort: no repository found")
			return 255
		}
		ctl = string(b)
	}
	if args[0] == "log" {
		b, err := os.ReadFile(".hg/rev")
		if err != nil {
			return 255
		}
		os.Stdout.Write(b)
		return 0
	}
	begin := now()
	ev := func(s string) {
		f, err := os.OpenFile(filepath.Join(ctl, "events"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
		if err == nil {
			f.WriteString(s + "\n")
			f.Close()
		}
	}
	ev(fmt.Sprintf("begin-%s %d 0 -", args[0], begin))
	has := func(n string) bool { _, err := os.Stat(filepath.Join(ctl, n)); return err == nil }
	for has("hold") {
		time.Sleep(2 * time.Millisecond)
	}
	if has("fail") {
		ev(fmt.Sprintf("%s %d %d failed", args[0], begin, now()))
		return 1
	}
	rev, err := os.ReadFile(filepath.Join(ctl, "HEAD"))
	if err != nil {
		return 1
	}
	if args[0] == "clone" {
		if err := os.MkdirAll(filepath.Join(wd, ".hg"), 0755); err != nil {
			return 1
		}
		os.WriteFile(filepath.Join(wd, ".hg/src"), []byte(ctl), 0644)
	}
	cur, _ := os.ReadFile(filepath.Join(wd, ".hg/rev"))
	if string(cur) != string(rev) {
		es, _ := os.ReadDir(wd)
		for _, e := range es {
			if e.Name() != ".hg" {
				os.RemoveAll(filepath.Join(wd, e.Name()))
			}
		}
		src := filepath.Join(ctl, "tree-"+string(rev))
		filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() {
				return err
			}
			rel, _ := filepath.Rel(src, p)
			b, _ := os.ReadFile(p)
			q := filepath.Join(wd, rel)
			os.MkdirAll(filepath.Dir(q), 0755)
			return os.WriteFile(q, b, 0644)
		})
		os.WriteFile(filepath.Join(wd, ".hg/rev"), rev, 0644)
	}
	ev(fmt.Sprintf("%s %d %d %s", args[0], begin, now(), rev))
	return 0
}
