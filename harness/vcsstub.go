package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// Stand-ins for hg, svn, svnversion and bzr that keep to the command grammar of
// the tools, record every call and do as their control directory says. The
// URL of a repository is its control directory, which holds
//
//	HEAD       current revision name
//	tree-REV   content of a revision
//	user, pass credentials the svn server asks for (optional)
//	script     lines "N BEHAVIOUR" for the Nth call (optional)
//	calls      what was called, one JSON object per line
type vcsCall struct {
	Tool string
	Args []string
	Cwd  string
	Exit int
	Out  string // revision reported, as printed
	What string // clone, pull, update, rev, other
}

var vcsTools = map[string]bool{"svn": true, "svnversion": true, "bzr": true, "xhg": true}

type VCtl struct{ Dir string }

func (c *VCtl) write(name, s string) {
	if err := os.WriteFile(filepath.Join(c.Dir, name), []byte(s), 0644); err != nil {
		fatal("%v", err)
	}
}

func (c *VCtl) Commit(rev string, tr Tree) {
	d := filepath.Join(c.Dir, "tree-"+rev)
	os.MkdirAll(d, 0755)
	writeTree(d, tr)
	c.write("HEAD.tmp", rev)
	os.Rename(filepath.Join(c.Dir, "HEAD.tmp"), filepath.Join(c.Dir, "HEAD"))
}

func (c *VCtl) Calls() (out []vcsCall) {
	b, _ := os.ReadFile(filepath.Join(c.Dir, "calls"))
	for _, l := range bytes.Split(b, []byte("\n")) {
		var v vcsCall
		if json.Unmarshal(l, &v) == nil && v.Tool != "" {
			out = append(out, v)
		}
	}
	return
}

// Reset forgets the calls and sets the script; keys are the number of the call.
func (c *VCtl) Reset(script map[int]string) {
	os.Remove(filepath.Join(c.Dir, "calls"))
	s := ""
	for k, b := range script {
		s += fmt.Sprintf("%d %s\n", k, b)
	}
	c.write("script", s)
}

// toolsDir makes a directory to be put on PATH; hg is the stand-in too.
func toolsDir(t *T) string {
	d := t.Dir("tools")
	for n := range vcsTools {
		os.Symlink(filepath.Join(t.Bin, "vh"), filepath.Join(d, strings.TrimPrefix(n, "x")))
	}
	// hg is started through a name of its own, the other stand-in is called hg
	os.Remove(filepath.Join(d, "hg"))
	os.WriteFile(filepath.Join(d, "hg"), []byte("#!/bin/sh\nd=$(dirname \"$0\")\nexec \"$d/xhg\" \"$@\"\n"), 0755)
	os.Symlink(filepath.Join(t.Bin, "vh"), filepath.Join(d, "xhg"))
	return d
}

func vcsStub(tool string, args []string) int {
	tool = strings.TrimPrefix(tool, "x")
	meta := "." + tool
	if tool == "svnversion" {
		meta = ".svn"
	}
	fail := func(code int, f string, a ...interface{}) int {
		fmt.Fprintf(os.Stderr, tool+": "+f+"\n", a...)
		return code
	}
	cwd, _ := os.Getwd()
	// options and operands
	withValue := map[string]bool{"--username": true, "--password": true, "--template": true, "-r": true, "--rev": true, "--revision": true, "-T": true, "--config": true, "-R": true, "--cwd": true, "--config-dir": true, "-d": true, "--directory": true}
	opt := map[string]string{}
	var pos []string
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case a == "--":
			pos = append(pos, args[i+1:]...)
			i = len(args)
		case withValue[a]:
			if i+1 >= len(args) {
				return fail(2, "option %s requires a value", a)
			}
			i++
			opt[a] = args[i]
		case strings.HasPrefix(a, "--") && strings.Contains(a, "="):
			kv := strings.SplitN(a, "=", 2)
			opt[kv[0]] = kv[1]
		case len(a) > 1 && a[0] == '-':
			opt[a] = "yes"
		default:
			pos = append(pos, a)
		}
	}
	if d := opt["--cwd"] + opt["-R"] + opt["-d"] + opt["--directory"]; d != "" {
		if os.Chdir(d) != nil {
			return fail(255, "no directory %s", d)
		}
	}
	verb := ""
	if tool == "svnversion" {
		verb = "svnversion"
	} else if len(pos) > 0 {
		verb, pos = pos[0], pos[1:]
	}
	what := map[string]string{
		"hg clone": "clone", "svn checkout": "clone", "svn co": "clone", "bzr branch": "clone", "bzr clone": "clone", "bzr checkout": "clone",
		"hg pull": "pull", "svn update": "pull", "svn up": "pull", "bzr pull": "pull", "hg update": "update", "hg up": "update", "hg checkout": "update",
		"hg log": "rev", "hg id": "rev", "hg identify": "rev", "hg parents": "rev", "svnversion svnversion": "rev", "svn info": "rev", "bzr revno": "rev",
	}[tool+" "+verb]
	wd, ctl := ".", ""
	if what == "clone" {
		if len(pos) == 0 {
			return fail(255, "no source")
		}
		ctl = pos[0]
		wd = filepath.Base(ctl)
		if len(pos) > 1 {
			wd = pos[1]
		}
	} else {
		if tool == "svn" && what == "pull" && len(pos) > 0 {
			wd = pos[0]
		}
		if tool == "svnversion" && len(pos) > 0 {
			wd = pos[0]
		}
		// like the tools themselves: look upwards
		abs, _ := filepath.Abs(wd)
		for d := abs; ; d = filepath.Dir(d) {
			if b, err := os.ReadFile(filepath.Join(d, meta, "src")); err == nil {
				ctl, wd = string(b), d
				break
			}
			if d == "/" {
				return fail(255, "no working copy in %s", abs)
			}
		}
	}
	has := func(n string) (string, bool) {
		b, err := os.ReadFile(filepath.Join(ctl, n))
		return string(b), err == nil
	}
	call := vcsCall{Tool: tool, Args: args, Cwd: cwd, What: what}
	n := 0
	record := func(exit int) int {
		call.Exit = exit
		f, err := os.OpenFile(filepath.Join(ctl, "calls"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0666)
		if err == nil {
			b, _ := json.Marshal(call)
			f.Write(append(b, '\n'))
			f.Close()
		}
		return exit
	}
	if b, ok := has("calls"); ok {
		n = strings.Count(b, "\n")
	}
	for _, h := range []string{"hold"} {
		for {
			if _, ok := has(h); !ok || what == "rev" {
				break
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	behave := ""
	if s, ok := has("script"); ok {
		for _, l := range strings.Split(s, "\n") {
			var k int
			var b string
			if c, _ := fmt.Sscanf(l, "%d %s", &k, &b); c == 2 && k == n {
				behave = b
			}
		}
	}
	if _, ok := has("fail"); ok && what != "rev" {
		behave = "fail"
	}
	noise := strings.Repeat("some noise about nothing in particular\n", 6000)
	switch behave {
	case "fail":
		fail(1, "abort: told to")
		return record(1)
	case "fail-silent":
		return record(255)
	case "noise":
		os.Stdout.WriteString(map[bool]string{true: "", false: noise}[what == "rev"])
		os.Stderr.WriteString(noise)
	case "fail-noise":
		os.Stdout.WriteString(noise)
		os.Stderr.WriteString(noise)
		return record(3)
	case "fail-late": // does its work, then fails
		defer os.Exit(record(1))
	case "signal":
		record(-9)
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
		select {}
	case "rev-fail": // prints a revision, then fails
		if what == "rev" {
			os.Stdout.WriteString("bogus-revision\n")
		}
		return record(4)
	case "half": // leaves half a working copy
		if what == "clone" {
			os.MkdirAll(filepath.Join(wd, "half"), 0755)
		}
		return record(1)
	}
	if tool == "svn" && (what == "clone" || what == "pull") {
		u, _ := has("user")
		p, _ := has("pass")
		if opt["--username"] != u || opt["--password"] != p {
			fail(1, "E170001: Authorization failed")
			return record(1)
		}
	}
	remote, ok := has("HEAD")
	if !ok {
		fail(1, "E170013: no repository at %s", ctl)
		return record(1)
	}
	checkout := func(rev string) error {
		es, _ := os.ReadDir(wd)
		for _, e := range es {
			if e.Name() != meta {
				os.RemoveAll(filepath.Join(wd, e.Name()))
			}
		}
		src := filepath.Join(ctl, "tree-"+rev)
		err := filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() {
				return err
			}
			rel, _ := filepath.Rel(src, p)
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			q := filepath.Join(wd, rel)
			os.MkdirAll(filepath.Dir(q), 0755)
			return os.WriteFile(q, b, 0644)
		})
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(wd, meta, "rev"), []byte(rev), 0644)
	}
	var err error
	switch what {
	case "clone":
		if es, e := os.ReadDir(wd); e == nil && len(es) > 0 && tool != "svn" {
			fail(255, "destination '%s' is not empty", wd)
			return record(255)
		}
		if err = os.MkdirAll(filepath.Join(wd, meta), 0755); err == nil {
			os.WriteFile(filepath.Join(wd, meta, "src"), []byte(ctl), 0644)
			os.WriteFile(filepath.Join(wd, meta, "store"), []byte("metadata canary\n"), 0644)
			os.WriteFile(filepath.Join(wd, meta, "tip"), []byte(remote), 0644)
			err = checkout(remote)
		}
	case "pull":
		os.WriteFile(filepath.Join(wd, meta, "tip"), []byte(remote), 0644)
		if tool != "hg" || opt["-u"] != "" || opt["--update"] != "" {
			err = checkout(remote)
		}
	case "update":
		b, _ := os.ReadFile(filepath.Join(wd, meta, "tip"))
		err = checkout(string(b))
	case "rev":
		b, e := os.ReadFile(filepath.Join(wd, meta, "rev"))
		err = e
		tip, _ := os.ReadFile(filepath.Join(wd, meta, "tip"))
		if r := opt["-r"] + opt["--rev"]; tool == "hg" && r != "." && !(r == "" && verb != "log") {
			b = tip // the newest known, which is not what is checked out
		}
		call.Out = string(b)
		if tool == "hg" && verb == "log" && opt["--template"]+opt["-T"] != "{node}" && opt["--template"]+opt["-T"] != "{node}\n" {
			call.Out = fmt.Sprintf("changeset: %s\nuser: x\n", b)
		}
		if behave == "space" {
			call.Out = " \t\n" + call.Out + "\r\n \n"
		} else if tool != "hg" {
			call.Out += "\n"
		}
		if tool == "svn" {
			call.Out = fmt.Sprintf("Path: .\nRevision: %s\n", b)
		}
		os.Stdout.WriteString(call.Out)
	default:
		fail(255, "unknown command %q", verb)
		return record(255)
	}
	if err != nil {
		fail(255, "%v", err)
		return record(255)
	}
	if behave == "fail-late" {
		return 1
	}
	return record(0)
}
