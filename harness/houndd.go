package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- real houndd

type Houndd struct {
	t      *T
	cmd    *exec.Cmd
	Base   string
	Addr   string
	out    *os.File
	Done   chan struct{}
	Err    error
	client *http.Client
	tapErr chan error
}

// nextPort is the port tried next, of those below the range from which the system
// takes ports for outgoing connections: what is free now is still free a moment
// later, when the server listens.
var nextPort = int64(os.Getpid())*97 + time.Now().UnixNano()%20000

func freePort() string {
	for i := 0; i < 20000; i++ {
		addr := fmt.Sprintf("127.0.0.1:%d", 10000+atomic.AddInt64(&nextPort, 1)%20000)
		if l, err := net.Listen("tcp", addr); err == nil {
			l.Close()
			return addr
		}
	}
	fatal("no free port")
	return ""
}

type M = map[string]interface{}

// writeConfig writes a houndd configuration file.
func writeConfig(dir string, cfg M) string {
	p := filepath.Join(dir, "config.json")
	b, _ := json.Marshal(cfg)
	if err := os.WriteFile(p, b, 0644); err != nil {
		fatal("%v", err)
	}
	return p
}

// startHoundd starts the real server; extra is put before the command (for
// instance a tracer). It returns at once.
func startHoundd(t *T, conf string, env []string, pre ...string) *Houndd {
	return startHoundd2(t, conf, env, nil, pre...)
}

// startTapped starts the server under a tap.
func startTapped(t *T, conf string, env []string, decide tapDecide) *Houndd {
	sp, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		fatal("socketpair: %v", err)
	}
	theirs := os.NewFile(uintptr(sp[1]), "tap")
	h := startHoundd2(t, conf, env, []*os.File{theirs}, filepath.Join(t.Bin, "vh"), "tap")
	theirs.Close()
	h.tapErr = make(chan error, 1)
	go func() { h.tapErr <- tapServe(sp[0], decide) }()
	return h
}

func startHoundd2(t *T, conf string, env []string, extra []*os.File, pre ...string) *Houndd {
	addr := freePort()
	h := &Houndd{t: t, Addr: addr, Base: "http://" + addr, Done: make(chan struct{})}
	argv := append(append([]string{}, pre...), filepath.Join(t.Bin, "houndd"), "-conf", conf, "-addr", addr)
	h.cmd = exec.Command(argv[0], argv[1:]...)
	h.cmd.Dir = filepath.Dir(conf)
	h.cmd.Env = append(os.Environ(), env...)
	f, err := os.CreateTemp(t.Scratch, "houndd-*.log")
	if err != nil {
		fatal("%v", err)
	}
	h.out = f
	h.cmd.Stdout, h.cmd.Stderr = f, f
	h.cmd.ExtraFiles = extra
	h.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := h.cmd.Start(); err != nil {
		fatal("starting houndd: %v", err)
	}
	h.client = &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 16}}
	go func() {
		h.Err = h.cmd.Wait()
		close(h.Done)
	}()
	return h
}

func (h *Houndd) Pid() int { return h.cmd.Process.Pid }

func (h *Houndd) exited() bool {
	select {
	case <-h.Done:
		return true
	default:
		return false
	}
}

func (h *Houndd) Log() string {
	b, _ := os.ReadFile(h.out.Name())
	return string(b)
}

// waitReady waits until searches are served; false if it exited or took too long.
func (h *Houndd) waitReady(d time.Duration) bool {
	end := time.Now().Add(d)
	for time.Now().Before(end) {
		if h.exited() {
			return false
		}
		code, _, err := getBody(h.client, h.Base+"/api/v1/repos")
		if err == nil && code == 200 {
			return true
		}
		time.Sleep(2 * time.Millisecond)
	}
	return false
}

func (h *Houndd) Search(repos, q string, extra url.Values) (*searchAnswer, error) {
	a, code, err := httpSearch(h.client, h.Base, repos, q, extra)
	if err == nil && code != 200 {
		err = fmt.Errorf("status %d", code)
	}
	return a, err
}

func (h *Houndd) Push(repos string) (int, error) {
	resp, err := h.client.PostForm(h.Base+"/api/v1/update", url.Values{"repos": {repos}})
	if err != nil {
		return 0, err
	}
	defer resp.Body.Close()
	io.Copy(io.Discard, resp.Body)
	return resp.StatusCode, nil
}

// Term sends SIGTERM and waits; ok means it exited with status 0 in time.
func (h *Houndd) Term(d time.Duration) (ok bool, msg string) {
	h.cmd.Process.Signal(syscall.SIGTERM)
	return h.waitExit(d)
}

func (h *Houndd) waitExit(d time.Duration) (bool, string) {
	select {
	case <-h.Done:
		if h.Err != nil {
			return false, "exit: " + h.Err.Error()
		}
		return true, ""
	case <-time.After(d):
		return false, "still running after " + d.String()
	}
}

// Kill ends the server and everything it started.
func (h *Houndd) Kill() {
	syscall.Kill(-h.cmd.Process.Pid, syscall.SIGKILL)
	<-h.Done
	h.cleanup()
}

func (h *Houndd) cleanup() {
	if h.client != nil {
		h.client.CloseIdleConnections()
	}
	h.out.Close()
	os.Remove(h.out.Name())
}

func (h *Houndd) fds() int {
	es, _ := os.ReadDir("/proc/" + strconv.Itoa(h.Pid()) + "/fd")
	return len(es)
}

// mappings of files in dir
func mapsUnder(pid int, dir string) (live, deleted int) {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/maps", pid))
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, dir); i >= 0 {
			if strings.HasSuffix(l, "(deleted)") {
				deleted++
			} else {
				live++
			}
		}
	}
	return
}

// ---------------------------------------------------------------- git remotes

func gitCmd(dir string, args ...string) (string, error) {
	c := exec.Command("git", args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "GIT_AUTHOR_DATE=2020-01-01T00:00:00Z", "GIT_COMMITTER_DATE=2020-01-01T00:00:00Z")
	b, err := c.CombinedOutput()
	return strings.TrimSpace(string(b)), err
}

func mustGit(dir string, args ...string) string {
	s, err := gitCmd(dir, args...)
	if err != nil {
		fatal("git %v: %v\n%s", args, err, s)
	}
	return s
}

// GitRemote is a repository to be followed, with a working tree to commit from.
type GitRemote struct {
	Dir string
	n   int
}

func newGitRemote(t *T, branch string) *GitRemote {
	g := &GitRemote{Dir: t.Dir("remote")}
	mustGit(g.Dir, "init", "-q", "-b", branch)
	return g
}

func (g *GitRemote) URL() string { return "file://" + g.Dir }

// Commit replaces the content of the current branch and returns the revision.
func (g *GitRemote) Commit(tr Tree) string {
	es, _ := os.ReadDir(g.Dir)
	for _, e := range es {
		if e.Name() != ".git" {
			os.RemoveAll(filepath.Join(g.Dir, e.Name()))
		}
	}
	writeTree(g.Dir, tr)
	g.n++
	mustGit(g.Dir, "add", "-A", "-f")
	mustGit(g.Dir, "commit", "-q", "--allow-empty", "-m", fmt.Sprint(g.n))
	return mustGit(g.Dir, "rev-parse", "HEAD")
}

// ---------------------------------------------------------------- answers

// answerDigest is a canonical text of all lines of all given repositories.
func answerOf(a *repoAnswer) []flat {
	if a == nil {
		return nil
	}
	return flatten(a.Matches)
}

// allLines is what a search for ".*"-like queries must report for a tree:
// every line of every text file.
func treeLines(tr Tree) []flat {
	var out []flat
	for _, n := range tr.names() {
		ls := splitLines(tr[n])
		for i, l := range ls {
			out = append(out, flat{n, i + 1, l, ""})
		}
	}
	return out
}
