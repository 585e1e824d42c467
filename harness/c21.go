package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/vcs"
)

func init() {
	register(&Check{ID: "C21", Fn: c21,
		Rule:   "the real drivers run stand-ins for hg, svn, svnversion and bzr that keep to the tools' command grammar, need the right directory, URL and credentials to succeed, and record every call; sequences of clone, pull, head revision, pull-or-clone and reclone with new remote revisions in between, every call scripted to succeed, pad its output, print much on both streams, fail before or after its work, with or without output, print a revision and fail, or be killed; also with the tools missing and with directories missing; the result is judged from the recorded calls, the content from the remote; non-trivial = distinct (driver, operation, exits of its calls)",
		Assume: []string{"the stand-ins behave like the tools as far as their grammar, exit status and output are concerned (the tools are not installed here)"},
	})
}

var c21drivers = []string{"hg", "mercurial", "svn", "subversion", "bzr"}

func c21tool(drv string) string {
	return map[string]string{"mercurial": "hg", "subversion": "svn"}[drv] + map[bool]string{true: drv}[len(drv) <= 3]
}

func c21(t *T) {
	d := toolsDir(t)
	path := os.Getenv("PATH")
	os.Setenv("PATH", d+":"+path)
	t.Par(t.N(300, 10000), 0, func(i int) { c21case(t, i) })
	for i, drv := range c21drivers {
		c21meta(t, drv, i)
	}
	// no tool to start
	os.Setenv("PATH", t.Dir("empty"))
	for i := 0; i < t.N(10, 100); i++ {
		c21missing(t, i)
	}
	os.Setenv("PATH", path)
	for _, k := range []string{"clones_ok", "clones_failed", "pulls_ok", "pulls_failed", "headrevs_ok", "headrevs_failed", "not_started"} {
		if t.Counter(k) == 0 {
			t.Inconclusive("nothing observed for %s", k)
		}
	}
}

func c21name(r *rand.Rand) string {
	return pick(r, "wd", "vcs-0123456789abcdef", "with space", "é", "a'b\"c", "x;y", "$HOME", "a.b")
}

func c21case(t *T, i int) {
	r := t.Rng("case", i)
	drv := c21drivers[r.Intn(len(c21drivers))]
	top := t.Dir("c21")
	defer os.RemoveAll(top)
	ctl := &VCtl{filepath.Join(top, pick(r, "remote", "re mote", "ré", "a&b"))}
	os.MkdirAll(ctl.Dir, 0755)
	par := filepath.Join(top, pick(r, "db", "d b"))
	os.MkdirAll(par, 0755)
	var cfg []byte
	if c21tool(drv) == "svn" {
		u := pick(r, "", "user", "a b", "ü", "x\"y", "--password", "-u")
		p := pick(r, "", "pass", "p w", "ß'", "$x", "--username")
		cfg, _ = json.Marshal(map[string]string{"username": u, "password": p})
		if u == "" && p == "" {
			cfg = nil
		}
		ctl.write("user", u)
		ctl.write("pass", p)
	} else if r.Intn(2) == 0 {
		cfg = []byte(`{"username":"u","x":1}`)
	}
	wd, err := vcs.New(drv, cfg)
	if err != nil {
		t.Violate("new", drv, "vcs.New(%q): %v", drv, err)
		return
	}
	rev := 0
	commit := func() string {
		rev++
		n := fmt.Sprintf("rev%dx%d", rev, i)
		switch c21tool(drv) {
		case "svn": // as svnversion prints: mixed, modified, switched, partial, exported
			n = fmt.Sprintf(pick(r, "%d", "%dM", "%d:%[1]d8S", "4:%dMS", "%dP", "exported %d", "%d:9%[1]dMSP"), 100*i+rev)
		case "hg":
			n = fmt.Sprintf("%040x", 1+uint64(100*i+rev)*2654435761)
		case "bzr":
			n = pick(r, "", "1.2.", "0.") + fmt.Sprint(100*i+rev)
		}
		ctl.Commit(n, Tree{"f": fmt.Sprintf("content of %s\n", n), fmt.Sprintf("d/g%d", rev%3): "g\n"})
		return n
	}
	head := commit()
	dir := filepath.Join(par, c21name(r))
	judge := func(op string, script map[int]string, run func() (string, error)) bool {
		t.Eval(1)
		ctl.Reset(script)
		t.Current("C21 case %d %s %s %v", i, drv, op, script)
		before, _ := os.ReadFile(filepath.Join(dir, "f"))
		got, err := run()
		calls := ctl.Calls()
		sig, failed, lastRev, lastWork := "", false, -1, -1
		for k, c := range calls {
			sig += fmt.Sprintf(" %s:%s:%d", c.Tool, c.What, c.Exit)
			failed = failed || c.Exit != 0
			if b := script[k]; c.Exit != 0 && (b == "" || b == "noise" || b == "space") {
				// nothing was to go wrong here: the command itself was wrong
				prev := k > 0 && calls[k-1].Exit != 0
				if !prev {
					t.Violate(op+"-refused", map[string]interface{}{"driver": drv, "operation": op, "script": script, "calls": calls}, "%s %s: the tool refused %s %q in %s (exit status %d)", drv, op, c.Tool, c.Args, c.Cwd, c.Exit)
				}
			}
			if c.What == "rev" {
				lastRev = k
			} else {
				lastWork = k
			}
		}
		data := map[string]interface{}{"driver": drv, "operation": op, "script": script, "calls": calls, "result": got, "error": fmt.Sprint(err)}
		t.Distinct(drv, op, sig)
		name := map[string]string{"clone": "clones", "pullorclone": "clones", "reclone": "clones", "pull": "pulls", "headrev": "headrevs"}[op]
		if failed {
			t.Count(name+"_failed", 1)
			if err == nil {
				t.Violate(op+"-unnoticed", data, "%s %s succeeded with revision %q although a command failed:%s", drv, op, got, sig)
			}
			return false
		}
		if err != nil {
			t.Violate(op+"-error", data, "%s %s failed with %v although every command succeeded:%s", drv, op, err, sig)
			return false
		}
		t.Count(name+"_ok", 1)
		if len(calls) == 0 || lastRev < 0 {
			t.Violate(op+"-no-revision", data, "%s %s returned %q without asking the tool for the revision:%s", drv, op, got, sig)
			return false
		}
		if want := strings.TrimSpace(calls[lastRev].Out); got != want || lastRev < lastWork {
			t.Violate(op+"-revision", data, "%s %s returned %q, the tool reported %q:%s", drv, op, got, want, sig)
			return false
		}
		cont, _ := os.ReadFile(filepath.Join(dir, "f"))
		if string(cont) != fmt.Sprintf("content of %s\n", got) {
			t.Violate(op+"-content", data, "%s %s returned %q, but the working copy has %q", drv, op, got, cont)
		}
		if op != "headrev" && got != head {
			t.Violate(op+"-old", data, "%s %s returned %q, the repository is at %q", drv, op, got, head)
		}
		if op == "headrev" && string(cont) != string(before) {
			t.Violate(op+"-changes", data, "%s %s changed the working copy", drv, op)
		}
		for _, c := range calls {
			if c.What == "other" || c.What == "" {
				t.Violate(op+"-command", data, "%s %s ran %v", drv, op, c.Args)
			}
		}
		if len(t.res.Samples) < 4 {
			t.Sample(map[string]interface{}{"driver": drv, "operation": op, "calls": sig, "result": got})
		}
		return true
	}
	script := func(p int) map[int]string {
		m := map[int]string{}
		for k := 0; k < 4; k++ {
			if r.Intn(p) == 0 {
				m[k] = pick(r, "fail", "fail-silent", "noise", "noise", "fail-noise", "fail-late", "signal", "rev-fail", "half", "space", "space")
			}
		}
		return m
	}
	// until a clone succeeds
	for k := 0; ; k++ {
		if k > 8 || t.Stop() {
			return
		}
		p := 3
		if k > 3 {
			p = 1000
		}
		switch r.Intn(3) {
		case 0:
			os.RemoveAll(dir)
			if judge("clone", script(p), func() (string, error) { return wd.Clone(dir, ctl.Dir) }) {
				goto cloned
			}
			os.RemoveAll(dir)
		case 1:
			if judge("pullorclone", script(p), func() (string, error) { return wd.PullOrClone(dir, ctl.Dir) }) {
				goto cloned
			}
			// a clone that failed halfway must not be taken for a working copy
			if _, err := os.Stat(filepath.Join(dir, "f")); err != nil {
				if _, err := os.Stat(dir); err == nil {
					t.Violate("half-clone", nil, "%s: a clone that failed left %s behind", drv, dir)
					os.RemoveAll(dir)
				}
			} else {
				os.RemoveAll(dir)
			}
		case 2:
			if judge("reclone", script(p), func() (string, error) { return wd.Reclone(dir, ctl.Dir) }) {
				goto cloned
			}
			os.RemoveAll(dir)
		}
		if es, _ := os.ReadDir(par); len(es) > 0 {
			var ns []string
			for _, e := range es {
				ns = append(ns, e.Name())
			}
			t.Violate("leftovers", ns, "%s: failed clones left %q behind", drv, ns)
			return
		}
		if r.Intn(2) == 0 {
			head = commit()
		}
	}
cloned:
	for k, n := 0, 4+r.Intn(6); k < n && !t.Stop(); k++ {
		if r.Intn(3) > 0 {
			head = commit()
		}
		switch r.Intn(4) {
		case 0:
			judge("headrev", script(4), func() (string, error) { return wd.HeadRev(dir) })
		case 1:
			op := "pull"
			judge(op, script(4), func() (string, error) { return wd.PullOrClone(dir, ctl.Dir) })
		default:
			judge("pull", script(4), func() (string, error) { return wd.Pull(dir) })
		}
		if r.Intn(9) == 0 { // an existing one is replaced only if the clone succeeds
			before := treeOnDisk(dir)
			ok := judge("reclone", script(3), func() (string, error) { return wd.Reclone(dir, ctl.Dir) })
			if !ok {
				calls := ctl.Calls()
				if len(calls) > 0 && calls[0].Exit != 0 {
					if after := treeOnDisk(dir); after != before {
						t.Violate("reclone-lost", calls, "%s: a failed reclone changed the working copy:\n%s\n%s", drv, before, after)
					}
				}
			}
			if _, err := os.Stat(dir); err != nil {
				t.Violate("reclone-gone", nil, "%s: the working copy is gone after a reclone", drv)
				return
			}
		}
	}
	// a directory that is not there
	ctl.Reset(nil)
	gone := filepath.Join(par, "gone")
	if got, err := wd.Pull(gone); err == nil {
		t.Violate("pull-nowhere", drv, "%s: pull in a directory that does not exist returned %q", drv, got)
	}
	if got, err := wd.HeadRev(gone); err == nil {
		t.Violate("headrev-nowhere", drv, "%s: head revision of a directory that does not exist is %q", drv, got)
	}
	if got, err := wd.Clone(filepath.Join(par, "no", "par"), ctl.Dir); err == nil {
		t.Violate("clone-nowhere", drv, "%s: clone into a directory that does not exist returned %q", drv, got)
	}
	bare := filepath.Join(par, "bare")
	os.MkdirAll(bare, 0755)
	if got, err := wd.Pull(bare); err == nil {
		t.Violate("pull-bare", drv, "%s: pull in a directory that is no working copy returned %q", drv, got)
	}
	// a repository that is not there
	if got, err := wd.Clone(filepath.Join(par, "n"), filepath.Join(top, "nowhere")); err == nil {
		t.Violate("clone-none", drv, "%s: cloning a repository that does not exist returned %q", drv, got)
	}
}

// treeOnDisk is a canonical text of a directory.
func treeOnDisk(dir string) string {
	var b strings.Builder
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		fmt.Fprintf(&b, "%s %v", rel, fi.Mode())
		if fi.Mode().IsRegular() {
			c, _ := os.ReadFile(p)
			fmt.Fprintf(&b, " %q", c)
		}
		b.WriteString("\n")
		return nil
	})
	return b.String()
}

// c21meta: the metadata directory is never indexed.
func c21meta(t *T, drv string, i int) {
	top := t.Dir("meta")
	defer os.RemoveAll(top)
	ctl := &VCtl{filepath.Join(top, "remote")}
	os.MkdirAll(ctl.Dir, 0755)
	ctl.write("user", "")
	ctl.write("pass", "")
	ctl.Commit("r1", Tree{"f": "content\n", ".hgx": "content\n", "d/svn": "content\n", "bzr/x": "content\n", ".x/.y": "content\n"})
	wd, err := vcs.New(drv, nil)
	if err != nil {
		t.Violate("new", drv, "vcs.New(%q): %v", drv, err)
		return
	}
	dir := filepath.Join(top, "wd")
	rev, err := wd.Clone(dir, ctl.Dir)
	if err != nil {
		t.Violate("meta-clone", drv, "%s: %v", drv, err)
		return
	}
	meta := "." + c21tool(drv)
	// as svn did it: in every directory
	os.MkdirAll(filepath.Join(dir, "d", meta), 0755)
	os.WriteFile(filepath.Join(dir, "d", meta, "entries"), []byte("metadata canary\n"), 0644)
	t.Eval(1)
	opt := &index.IndexOptions{SpecialFiles: wd.SpecialFiles(), AutoGeneratedFiles: wd.AutoGeneratedFiles(dir)}
	ref, err := index.Build(opt, filepath.Join(top, "idx"), dir, ctl.Dir, rev)
	if err != nil {
		t.Violate("meta-build", drv, "%s: %v", drv, err)
		return
	}
	idx, err := ref.Open()
	if err != nil {
		t.Violate("meta-build", drv, "%s: %v", drv, err)
		return
	}
	defer idx.Destroy()
	res, err := idx.Search(".", &index.SearchOptions{})
	if err != nil {
		t.Violate("meta-search", drv, "%s: %v", drv, err)
		return
	}
	n := 0
	for _, f := range res.Matches {
		for _, p := range strings.Split(f.Filename, "/") {
			if p == meta {
				t.Violate("metadata", f.Filename, "%s: the metadata file %s is searchable", drv, f.Filename)
			}
		}
		if f.AutoGenerated {
			t.Violate("auto", f.Filename, "%s: %s is marked auto-generated", drv, f.Filename)
		}
		n++
	}
	if n != 5 {
		t.Violate("meta-files", drv, "%s: %d files are searchable, want 5", drv, n)
	}
	ex, _ := os.ReadFile(filepath.Join(top, "idx", "excluded_files.json"))
	if strings.Contains(string(ex), meta+"/") {
		t.Violate("metadata", string(ex), "%s: metadata files are listed as excluded: %s", drv, clip(string(ex)))
	}
	t.Distinct("meta", drv)
}

func c21missing(t *T, i int) {
	r := t.Rng("missing", i)
	drv := c21drivers[i%len(c21drivers)]
	top := t.Dir("miss")
	defer os.RemoveAll(top)
	meta := "." + c21tool(drv)
	dir := filepath.Join(top, "wd")
	os.MkdirAll(filepath.Join(dir, meta), 0755)
	os.WriteFile(filepath.Join(dir, meta, "rev"), []byte("r1"), 0644)
	wd, err := vcs.New(drv, nil)
	if err != nil {
		t.Violate("new", drv, "vcs.New(%q): %v", drv, err)
		return
	}
	for _, op := range r.Perm(4) {
		t.Eval(1)
		var got string
		var err error
		switch op {
		case 0:
			got, err = wd.HeadRev(dir)
		case 1:
			got, err = wd.Pull(dir)
		case 2:
			got, err = wd.Clone(filepath.Join(top, "new"), "url")
		case 3:
			got, err = wd.PullOrClone(filepath.Join(top, "new2"), "url")
		}
		if err == nil {
			t.Violate("not-started", drv, "%s operation %d returned %q although the tool cannot be started", drv, op, got)
		}
		t.Count("not_started", 1)
		t.Distinct("missing", drv, op)
	}
	if es, _ := os.ReadDir(top); len(es) != 1 {
		t.Violate("not-started-left", drv, "%s left %d entries behind", drv, len(es))
	}
}
