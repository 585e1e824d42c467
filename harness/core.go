// Package main is the monitoring harness: one binary, one sub-command per
// property. "vh run ID TIER" is the supervisor (root), which starts
// "vh worker ID" as an unprivileged user inside a scratch directory, so that
// nothing the code under test deletes, overwrites or kills can reach the
// sandbox, and so that a crash of the code under test is itself observed.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- registry

type Check struct {
	ID    string
	Fn    func(t *T)
	Rule  string // how cases are made and what makes one non-trivial
	Level string
	// binaries of /repo the worker needs: "houndd", "hound"
	Bins []string
	// build the binaries above with the race detector
	RaceBins bool
	Assume   []string
	// run as root although the default is the unprivileged user
	Root bool
	// watchdog in seconds (quick / thorough)
	Quick, Thorough int
}

var checks = map[string]*Check{}

func register(c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	if c.Quick == 0 {
		c.Quick = 600
	}
	if c.Thorough == 0 {
		c.Thorough = 7200
	}
	checks[c.ID] = c
}

// ---------------------------------------------------------------- worker state

type Violation struct {
	Key    string      `json:"key"`
	Detail string      `json:"detail"`
	Data   interface{} `json:"data,omitempty"`
}

type Result struct {
	Done         bool                   `json:"done"`
	Inconclusive string                 `json:"inconclusive,omitempty"`
	Evaluations  int64                  `json:"evaluations"`
	Distinct     int                    `json:"distinct"`
	Counters     map[string]int64       `json:"counters"`
	Info         map[string]interface{} `json:"info"`
	Samples      []interface{}          `json:"samples"`
	Violations   []Violation            `json:"violations"`
	Findings     []Violation            `json:"findings"`
	Current      string                 `json:"current"`
}

type T struct {
	ID      string
	Tier    string
	Seed    int64
	Scratch string // private scratch directory of this run
	Bin     string // directory with the built binaries
	chk     *Check

	mu       sync.Mutex
	res      Result
	seen     map[uint64]bool
	resFile  string
	vcount   int32
	known    map[string]bool
	current  sync.Map
	beats    int64 // anything noted; a worker without a beat for long hangs
	caseOnly string
}

func (t *T) Thorough() bool { return t.Tier == "thorough" }

// N picks the case count for the tier.
func (t *T) N(quick, thorough int) int {
	if t.Thorough() {
		return thorough
	}
	return quick
}

// Rng gives an independent deterministic generator per case.
func (t *T) Rng(parts ...interface{}) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprint(h, t.Seed, "|", t.ID)
	for _, p := range parts {
		fmt.Fprint(h, "|", p)
	}
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

func (t *T) beat() { atomic.AddInt64(&t.beats, 1) }

func (t *T) Eval(n int) { t.beat(); atomic.AddInt64(&t.res.Evaluations, int64(n)) }

// hangGrace is far above what any single case takes (seconds at most).
const hangGrace = 200 * time.Second

// watch reports a worker in which nothing has been noted for hangGrace.
func (t *T) watch() {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(time.Second)
		if n := atomic.LoadInt64(&t.beats); n != last {
			last, since = n, time.Now()
			continue
		}
		if time.Since(since) < hangGrace {
			continue
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		var gs []string
		for _, g := range strings.Split(string(buf), "\n\n") {
			if strings.Contains(g, "hound-search/hound/") && !strings.Contains(g, "[chan receive") && !strings.Contains(g, "[select") {
				gs = append(gs, g)
			}
		}
		os.Stderr.Write(buf)
		t.Violate("hang", nil, "nothing has happened for %v: the code under test hangs\n%s", hangGrace, head([]byte(strings.Join(gs, "\n\n")), 3000))
		t.flush()
		os.Exit(96)
	}
}

// Distinct records a non-trivial case by its identity.
func (t *T) Distinct(parts ...interface{}) {
	t.beat()
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprint(h, "|", p)
	}
	t.mu.Lock()
	t.seen[h.Sum64()] = true
	t.mu.Unlock()
}

func (t *T) Count(name string, n int) {
	t.beat()
	t.mu.Lock()
	t.res.Counters[name] += int64(n)
	t.mu.Unlock()
}

func (t *T) Counter(name string) int64 {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.res.Counters[name]
}

func (t *T) Max(name string, n int64) {
	t.mu.Lock()
	if n > t.res.Counters[name] {
		t.res.Counters[name] = n
	}
	t.mu.Unlock()
}

func (t *T) Info(name string, v interface{}) {
	t.mu.Lock()
	t.res.Info[name] = v
	t.mu.Unlock()
}

func (t *T) Sample(v interface{}) {
	t.mu.Lock()
	if len(t.res.Samples) < 6 {
		t.res.Samples = append(t.res.Samples, v)
	}
	t.mu.Unlock()
}

// Violate records a violation. key identifies the specific failing input,
// call site or history (used to recognise listed findings).
func (t *T) Violate(key string, data interface{}, format string, args ...interface{}) {
	v := Violation{Key: key, Detail: fmt.Sprintf(format, args...), Data: data}
	if len(v.Detail) > 4000 {
		v.Detail = v.Detail[:4000] + "…"
	}
	t.mu.Lock()
	if t.known[key] {
		for _, f := range t.res.Findings {
			if f.Key == key {
				t.mu.Unlock()
				return
			}
		}
		t.res.Findings = append(t.res.Findings, v)
	} else if len(t.res.Violations) < 20 {
		t.res.Violations = append(t.res.Violations, v)
		atomic.AddInt32(&t.vcount, 1)
	}
	t.mu.Unlock()
	t.flush()
}

// Stop tells generators to end early: enough violations were seen.
func (t *T) Stop() bool { return atomic.LoadInt32(&t.vcount) >= 3 }

func (t *T) Inconclusive(format string, args ...interface{}) {
	t.mu.Lock()
	if t.res.Inconclusive == "" {
		t.res.Inconclusive = fmt.Sprintf(format, args...)
	}
	t.mu.Unlock()
}

// Current notes what is being run, to identify the input if the code under
// test crashes the process. It is cheap: the note is kept in a mapped file.
func (t *T) Current(format string, args ...interface{}) {
	t.beat()
	s := fmt.Sprintf(format, args...)
	if len(s) > 3000 {
		s = s[:3000]
	}
	t.current.Store(goid(), s)
	curFile.note(s)
}

type curNote struct {
	mu  sync.Mutex
	f   *os.File
	buf []string
	i   int
}

var curFile = &curNote{buf: make([]string, 16)}

func (c *curNote) note(s string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.f == nil {
		return
	}
	c.buf[c.i%16] = s
	c.i++
	line := fmt.Sprintf("%06d %s\n", c.i, strconv.Quote(s))
	if len(line) < 4096 {
		line += strings.Repeat(" ", 4096-len(line)-1) + "\n"
	} else {
		line = line[:4095] + "\n"
	}
	c.f.WriteAt([]byte(line), int64(c.i%16)*4096)
}

func goid() string {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	if len(f) > 1 {
		return f[1]
	}
	return "?"
}

func (t *T) flush() {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.res.Distinct = len(t.seen)
	b, err := json.Marshal(&t.res)
	if err != nil {
		b, _ = json.Marshal(&Result{Violations: []Violation{{Key: "marshal", Detail: err.Error()}}})
	}
	tmp := t.resFile + ".tmp"
	if os.WriteFile(tmp, b, 0644) == nil {
		os.Rename(tmp, t.resFile)
	}
}

// Dir makes a fresh directory in the scratch area.
func (t *T) Dir(name string) string {
	d, err := os.MkdirTemp(t.Scratch, name+"-")
	if err != nil {
		fatal("mkdtemp: %v", err)
	}
	return d
}

// Par runs fn(0..n-1) on w workers, stopping early once violations pile up.
func (t *T) Par(n, w int, fn func(i int)) {
	if w <= 0 {
		w = runtime.NumCPU()
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || t.Stop() {
					return
				}
				fn(i)
			}
		}()
	}
	wg.Wait()
}

// harness failure, not a verdict
func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS: "+format+"\n", args...)
	os.Exit(97)
}

// Guard runs f and reports a panic of the code under test as a violation.
func (t *T) Guard(key string, data interface{}, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			t.Violate(key, data, "panic: %v\n%s", r, debug.Stack())
			ok = false
		}
	}()
	f()
	return true
}

// ---------------------------------------------------------------- worker

type limitedLog struct {
	mu sync.Mutex
	f  *os.File
	n  int64
}

func (l *limitedLog) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.n > 8<<20 {
		l.f.Seek(0, io.SeekStart)
		l.f.Truncate(0)
		l.n = 0
	}
	l.n += int64(len(p))
	return l.f.Write(p)
}

func worker(id string) {
	chk := checks[id]
	if chk == nil {
		fatal("unknown check %s", id)
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	t := &T{ID: id, Tier: os.Getenv("VERIF_TIER"), Seed: seed, Scratch: os.Getenv("VH_SCRATCH"),
		Bin: os.Getenv("VH_BIN"), chk: chk, seen: map[uint64]bool{}, resFile: os.Getenv("VH_RESULT"), known: map[string]bool{}}
	t.res.Counters = map[string]int64{}
	t.res.Info = map[string]interface{}{}
	for _, k := range strings.Split(os.Getenv("VH_KNOWN"), "\x1f") {
		if k != "" {
			t.known[k] = true
		}
	}
	if lf, err := os.Create(filepath.Join(os.Getenv("VH_LOGDIR"), "hound.log")); err == nil {
		log.SetOutput(&limitedLog{f: lf})
	}
	if f, err := os.Create(filepath.Join(os.Getenv("VH_LOGDIR"), "current")); err == nil {
		curFile.f = f
	}
	debug.SetMemoryLimit(20 << 30)
	if p := os.Getenv("VH_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	go t.watch()
	chk.Fn(t)
	t.schedInfo()
	t.mu.Lock()
	t.res.Done = true
	t.mu.Unlock()
	t.flush()
	pprof.StopCPUProfile()
	os.Exit(0)
}

// ---------------------------------------------------------------- supervisor

type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Key      string `json:"key,omitempty"`
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func verifDir() string {
	if v := os.Getenv("VH_VERIF"); v != "" {
		return v
	}
	return "/verif"
}

func loadFindings() []Finding {
	var f struct{ Findings []Finding }
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fatal("known_findings.json: %v", err)
	}
	return f.Findings
}

func goBuild(out, pkg string, race bool) {
	args := []string{"build"}
	if race {
		args = append(args, "-race")
	}
	if ov := os.Getenv("VH_OVERLAY"); ov != "" {
		args = append(args, "-overlay", ov)
	}
	args = append(args, "-o", out, pkg)
	c := exec.Command("go", args...)
	c.Dir = "/repo"
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off")
	if b, err := c.CombinedOutput(); err != nil {
		fatal("building %s: %v\n%s", pkg, err, b)
	}
}

func chownR(dir string, uid int) {
	filepath.Walk(dir, func(p string, _ os.FileInfo, err error) error {
		if err == nil {
			os.Lchown(p, uid, uid)
		}
		return nil
	})
}

var errEOF = io.EOF

const nobody = 65534

func supervise(id, tier string) int {
	chk := checks[id]
	if chk == nil {
		fatal("unknown check %s", id)
	}
	start := time.Now()
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	top, err := os.MkdirTemp("/tmp", "vh-"+id+"-")
	if err != nil {
		fatal("%v", err)
	}
	defer func() {
		filepath.Walk(top, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.IsDir() {
				os.Chmod(p, 0755)
			}
			return nil
		})
		os.RemoveAll(top)
	}()
	os.Chmod(top, 0755)
	scratch, logs, bin := filepath.Join(top, "s"), filepath.Join(top, "log"), filepath.Join(top, "bin")
	for _, d := range []string{scratch, logs, bin, filepath.Join(scratch, "tmp"), filepath.Join(scratch, "home")} {
		os.MkdirAll(d, 0755)
	}
	for _, b := range chk.Bins {
		goBuild(filepath.Join(bin, b), "./cmds/"+b, chk.RaceBins)
	}
	self, _ := os.Executable()
	exe := filepath.Join(bin, "vh")
	if err := copyFileTo(self, exe, 0755); err != nil {
		fatal("%v", err)
	}
	os.WriteFile(filepath.Join(scratch, "home", ".gitconfig"),
		[]byte("[user]\n\tname = v\n\temail = v@example.com\n[init]\n\tdefaultBranch = master\n[safe]\n\tdirectory = *\n[protocol \"file\"]\n\tallow = always\n[gc]\n\tauto = 0\n[advice]\n\tdetachedHead = false\n"), 0644)

	findings := loadFindings()
	var known []string
	for _, f := range findings {
		if f.Property == id && f.Status == "known" {
			known = append(known, f.Key)
		}
	}

	resFile := filepath.Join(logs, "result.json")
	outF, _ := os.Create(filepath.Join(logs, "out"))
	cmd := exec.Command(exe, "worker", id)
	cmd.Dir = scratch
	cmd.Stdout, cmd.Stderr = outF, outF
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "HOME=") || strings.HasPrefix(e, "TMPDIR=") || strings.HasPrefix(e, "GIT_") {
			continue
		}
		env = append(env, e)
	}
	cmd.Env = append(env,
		"HOME="+filepath.Join(scratch, "home"), "TMPDIR="+filepath.Join(scratch, "tmp"),
		"GIT_CONFIG_NOSYSTEM=1", "LC_ALL=C.UTF-8", "GIT_TERMINAL_PROMPT=0",
		"VH_SCRATCH="+scratch, "VH_BIN="+bin, "VH_RESULT="+resFile, "VH_LOGDIR="+logs,
		"VH_KNOWN="+strings.Join(known, "\x1f"), "VERIF_TIER="+tier, fmt.Sprintf("VERIF_SEED=%d", seed),
		"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(logs, "race"), "GOTRACEBACK=all")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	asRoot := chk.Root || os.Getuid() != 0
	if !asRoot {
		chownR(top, nobody)
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
	}
	if err := cmd.Start(); err != nil {
		fatal("starting worker: %v", err)
	}
	limit := chk.Quick
	if tier == "thorough" {
		limit = chk.Thorough
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var werr error
	timedOut := false
	select {
	case werr = <-done:
	case <-time.After(time.Duration(limit) * time.Second):
		timedOut = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
		time.Sleep(2 * time.Second)
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		werr = <-done
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // stray children

	var res Result
	b, rerr := os.ReadFile(resFile)
	if rerr == nil {
		json.Unmarshal(b, &res)
	}
	if res.Counters == nil {
		res.Counters = map[string]int64{}
	}
	outB, _ := os.ReadFile(filepath.Join(logs, "out"))

	// race detector reports
	races := collectRaces(logs)
	res.Counters["race_reports"] = int64(len(races))
	for _, r := range races {
		v := Violation{Key: "race:" + r.key, Detail: r.text}
		isKnown := false
		for _, k := range known {
			isKnown = isKnown || k == v.Key
		}
		if isKnown {
			res.Findings = append(res.Findings, v)
		} else {
			res.Violations = append(res.Violations, v)
		}
	}

	code := 0
	inconclusive := res.Inconclusive
	if !res.Done && !timedOut {
		ec := cmd.ProcessState.ExitCode()
		if ec == 96 {
			// the hang is among the violations already
		} else if ec == 97 {
			fmt.Fprintf(os.Stderr, "%s\n", tail(outB, 4000))
			inconclusive = "harness failure (see output)"
		} else {
			cur, _ := os.ReadFile(filepath.Join(logs, "current"))
			hl, _ := os.ReadFile(filepath.Join(logs, "hound.log"))
			res.Violations = append(res.Violations, Violation{
				Key:    "crash",
				Detail: fmt.Sprintf("the process running the code under test died: %v\n--- output\n%s\n--- log\n%s\n--- recent cases\n%s", werr, head(outB, 6000), tail(hl, 1500), squeeze(cur)),
			})
		}
	}
	if timedOut && len(res.Violations) == 0 {
		fmt.Fprintf(os.Stderr, "%s\n", head(outB, 20000))
		cur, _ := os.ReadFile(filepath.Join(logs, "current"))
		fmt.Fprintf(os.Stderr, "--- recent cases\n%s\n", squeeze(cur))
		inconclusive = fmt.Sprintf("watchdog: no verdict after %d s", limit)
	}

	// evidence
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	cov := map[string]interface{}{
		"evaluations":         res.Evaluations,
		"distinct_nontrivial": res.Distinct,
		"rule":                chk.Rule,
		"samples":             res.Samples,
		"observed":            res.Counters,
	}
	for k, v := range res.Info {
		cov[k] = v
	}
	if res.Samples == nil {
		cov["samples"] = []interface{}{}
	}
	if len(res.Findings) > 0 {
		var ks []string
		for _, f := range res.Findings {
			ks = append(ks, f.Key)
		}
		cov["known_findings_seen"] = ks
	}
	if inconclusive != "" {
		cov["inconclusive"] = inconclusive
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": chk.Level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(res.Violations),
	}
	if len(chk.Assume) > 0 {
		ev["assumptions"] = chk.Assume
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	evf := filepath.Join(verifDir(), "evidence", id+".json")
	os.WriteFile(evf, append(eb, '\n'), 0644)

	for _, f := range findings {
		if f.Property != id || f.Status != "known" {
			continue
		}
		for _, g := range res.Findings {
			if g.Key == f.Key {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
			}
		}
	}
	replay := filepath.Join(verifDir(), "evidence", id+".replay.json")
	os.Remove(replay)
	if len(res.Violations) > 0 {
		rb, _ := json.MarshalIndent(map[string]interface{}{
			"property": id, "tier": tier, "seed": seed,
			"rerun":      fmt.Sprintf("VERIF_SEED=%d ./run.sh %s %s", seed, id, tier),
			"violations": res.Violations, "output_tail": tail(outB, 3000)}, "", " ")
		os.WriteFile(replay, append(rb, '\n'), 0644)
		for i, v := range res.Violations {
			if i < 3 {
				fmt.Printf("--- %s: %s\n", v.Key, head([]byte(v.Detail), 1500))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		code = 1
	} else if inconclusive != "" {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", id, inconclusive)
		code = 3
	} else {
		fmt.Printf("HELD property=%s evaluations=%d distinct=%d wall=%.1fs\n", id, res.Evaluations, res.Distinct, time.Since(start).Seconds())
	}
	if os.Getenv("VH_VERBOSE") == "2" {
		hl, _ := os.ReadFile(filepath.Join(logs, "hound.log"))
		fmt.Printf("--- log\n%s\n", tail(hl, 6000))
	}
	if os.Getenv("VH_VERBOSE") != "" {
		ks := []string{}
		for k := range res.Counters {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  %-40s %d\n", k, res.Counters[k])
		}
		var ls []string
		for _, l := range strings.Split(string(outB), "\n") {
			if !strings.HasPrefix(l, "HeapI") {
				ls = append(ls, l)
			}
		}
		fmt.Printf("--- output\n%s\n", tail([]byte(strings.Join(ls, "\n")), 3000))
	}
	return code
}

type raceReport struct{ key, text string }

// collectRaces splits the race logs into reports, keyed by the pair of
// innermost repository functions involved (line numbers stripped).
func collectRaces(dir string) []raceReport {
	var out []raceReport
	seen := map[string]bool{}
	fs, _ := filepath.Glob(filepath.Join(dir, "race*"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "DATA RACE") && !strings.Contains(blk, "checkptr") {
				continue
			}
			if !strings.Contains(blk, "github.com/hound-search/hound") {
				// a race wholly inside the harness would be its own fault
				if strings.Contains(blk, "verif/harness") || strings.Contains(blk, "main.") {
					fmt.Fprintf(os.Stderr, "HARNESS RACE:\n%s\n", blk)
				}
				continue
			}
			var fns []string
			inStack, got := false, false
			for _, l := range strings.Split(blk, "\n") {
				tl := strings.TrimSpace(l)
				if strings.HasPrefix(tl, "Read at") || strings.HasPrefix(tl, "Write at") || strings.HasPrefix(tl, "Previous") || strings.HasPrefix(tl, "Atomic") {
					inStack, got = true, false
					continue
				}
				if strings.HasPrefix(tl, "Goroutine") {
					inStack = false
				}
				if inStack && !got && strings.HasPrefix(tl, "github.com/hound-search/hound") {
					fns = append(fns, strings.TrimPrefix(strings.SplitN(tl, "(0x", 2)[0], "github.com/hound-search/hound/"))
					got = true
				}
			}
			sort.Strings(fns)
			k := strings.Join(fns, "~")
			if !seen[k] {
				seen[k] = true
				out = append(out, raceReport{k, head([]byte(blk), 3500)})
			}
		}
	}
	return out
}

func squeeze(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.Trim(l, " \x00")
		if l != "" {
			out = append(out, l)
		}
	}
	sort.Strings(out)
	if len(out) > 9 {
		out = out[len(out)-9:]
	}
	return strings.Join(out, "\n")
}

func head(b []byte, n int) string {
	if len(b) > n {
		return string(b[:n]) + "…"
	}
	return string(b)
}

func tail(b []byte, n int) string {
	if len(b) > n {
		return "…" + string(b[len(b)-n:])
	}
	return string(b)
}

func copyFileTo(src, dst string, mode os.FileMode) error {
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	return os.WriteFile(dst, b, mode)
}

func main() {
	if n := filepath.Base(os.Args[0]); vcsTools[n] {
		os.Exit(vcsStub(n, os.Args[1:]))
	}
	if filepath.Base(os.Args[0]) == "hg" {
		os.Exit(hgStub(os.Args[1:]))
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vh run|worker ID [TIER]")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2])
	case "run":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(supervise(os.Args[2], tier))
	default:
		if f := helpers[os.Args[1]]; f != nil {
			os.Exit(f(os.Args[2:]))
		}
		fatal("unknown command %s", os.Args[1])
	}
}

// helper sub-commands (taps, stand-ins, ...)
var helpers = map[string]func(args []string) int{}
