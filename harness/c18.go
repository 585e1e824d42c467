package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"html"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/ui"
)

func init() {
	register(&Check{ID: "C18", Fn: c18, Bins: []string{"houndd"},
		Rule:   "the real server is started with canary secrets at every place of vcs-config (global and per repository, in used and unknown keys, nested, in lists, in keys, as the whole value, large numbers, with markup and non-ASCII characters; git, local, and stand-in svn, hg and bzr repositories whose tools really use them; spellings of the option key that JSON decoding accepts), some repositories failing to start or to update; all API requests, pages, assets, malformed requests, searches for everything and for parts of the secrets, before readiness, during failing updates and afterwards; every byte of every response (headers included) is scanned for each secret, verbatim, escaped (JSON, URL, HTML), hexadecimal, base64 at each alignment, as a list of numbers, and reversed; also the development-mode pages in process; non-trivial = distinct (configuration shape, request, status)",
		Assume: []string{"secrets are never part of a request and not part of the indexed files, where they would rightly come back"},
	})
}

func c18(t *T) {
	tools := toolsDir(t)
	t.Par(t.N(16, 200), 4, func(i int) { c18case(t, i, tools) })
	t.Par(t.N(60, 3000), 0, func(i int) { c18pages(t, i) })
	if t.Counter("responses") == 0 || t.Counter("secrets") == 0 || t.Counter("svn_with_credentials") == 0 {
		t.Inconclusive("no response was scanned")
	}
}

// a secret and the texts that would give it away
type canary struct {
	raw   string
	forms [][]byte
}

func newCanary(raw string) canary {
	c := canary{raw: raw}
	seen := map[string]bool{}
	add := func(s string) {
		if len(s) >= 8 && !seen[s] {
			seen[s] = true
			c.forms = append(c.forms, []byte(s))
		}
	}
	add(raw)
	b, _ := json.Marshal(raw)
	add(strings.Trim(string(b), `"`))
	add(strings.Trim(string(jsonOf(raw)), `"`))
	add(url.QueryEscape(raw))
	add(url.PathEscape(raw))
	add(html.EscapeString(raw))
	add(hex.EncodeToString([]byte(raw)))
	add(strings.ToUpper(hex.EncodeToString([]byte(raw))))
	q := fmt.Sprintf("%q", raw)
	add(q[1 : len(q)-1])
	var nums []string
	for _, x := range []byte(raw) {
		nums = append(nums, fmt.Sprint(x))
	}
	add(strings.Join(nums, ","))
	add(strings.Join(nums, " "))
	rs := []rune(raw)
	for i, j := 0, len(rs)-1; i < j; i, j = i+1, j-1 {
		rs[i], rs[j] = rs[j], rs[i]
	}
	add(string(rs))
	for _, enc := range []*base64.Encoding{base64.RawStdEncoding, base64.RawURLEncoding} {
		for _, src := range []string{raw, strings.Trim(string(b), `"`)} {
			for off := 0; off < 3; off++ {
				s := enc.EncodeToString(append(make([]byte, off), src...))
				// leave out what depends on the bytes around it
				lo, hi := []int{0, 2, 3}[off], len(s)
				if r := (off + len(src)) % 3; r != 0 {
					hi--
				}
				add(s[lo:hi])
			}
		}
	}
	// half of it is too much as well
	if len(raw) >= 20 && raw == strings.ToValidUTF8(raw, "") && isASCII(raw) {
		add(raw[:len(raw)/2])
		add(raw[len(raw)/2:])
	}
	return c
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

type c18gen struct {
	r    *rand.Rand
	i, n int
	cs   []canary
}

func (g *c18gen) secret() string {
	g.n++
	core := make([]byte, 10)
	for i := range core {
		core[i] = "abcdefghjkmnpqrstuvwxyz"[g.r.Intn(23)]
	}
	s := fmt.Sprintf("zQ%dx%dK%s", g.i, g.n, core)
	s = []string{s, s, s + "<&>'\"end", s + "é日本", s[:8] + "\\" + s[8:], s + "</script>"}[g.r.Intn(6)]
	g.cs = append(g.cs, newCanary(s))
	return s
}

func (g *c18gen) number() json.Number {
	s := "7"
	for len(s) < 17 {
		s += string(rune('1' + g.r.Intn(9)))
	}
	g.cs = append(g.cs, newCanary(s))
	return json.Number(s)
}

// anything: a value that carries secrets.
func (g *c18gen) anything(depth int) interface{} {
	switch n := g.r.Intn(6); {
	case n == 0 && depth < 3:
		return M{g.secret(): g.anything(depth + 1), "password": g.secret()}
	case n == 1 && depth < 3:
		return []interface{}{g.secret(), g.anything(depth + 1), nil}
	case n == 2:
		return g.number()
	}
	return g.secret()
}

func (g *c18gen) object() M {
	m := M{"token": g.anything(0), "x-" + g.secret(): g.anything(0)}
	if g.r.Intn(2) == 0 {
		m["Authorization"] = "Bearer " + g.secret()
	}
	// keys that some drivers know
	for _, k := range []string{"ref", "username", "password", "url", "user", "key", "title", "display-name", "health-check-uri", "dbpath", "vcs", "vcs-config", "base-url", "anchor", "Title", "name", "description", "repos", "error", "Error"} {
		if g.r.Intn(4) == 0 {
			m[k] = g.secret()
		}
	}
	return m
}

// leaks tells which secret a text gives away.
func (g *c18gen) leaks(b []byte) string {
	for _, c := range g.cs {
		for _, f := range c.forms {
			if i := bytes.Index(b, f); i >= 0 {
				lo, hi := i-60, i+len(f)+60
				if lo < 0 {
					lo = 0
				}
				if hi > len(b) {
					hi = len(b)
				}
				return fmt.Sprintf("secret %q as %q in …%q…", c.raw, f, b[lo:hi])
			}
		}
	}
	return ""
}

func c18case(t *T, i int, tools string) {
	r := t.Rng("case", i)
	g := &c18gen{r: r, i: i}
	top := t.Dir("c18")
	defer os.RemoveAll(top)
	repos, glob := M{}, M{}
	vkey := func() string { return pick(r, "vcs-config", "vcs-config", "vcs-config", "VCS-Config", "Vcs-config") }
	own := func(m M, typ string, must M) {
		o := M{}
		if r.Intn(4) > 0 {
			o = g.object()
		}
		for k, v := range must {
			delete(o, k)
			if gm, ok := glob[typ].(M); ok && r.Intn(2) == 0 && gm[k] == nil {
				gm[k] = v // through the global one instead
				continue
			}
			if gm, ok := glob[typ].(M); ok && gm[k] == v {
				continue
			}
			o[k] = v
		}
		if len(o) > 0 {
			m[vkey()] = o
		}
	}
	for _, ty := range []string{"git", "local", "svn", "hg", "bzr"} {
		if r.Intn(3) > 0 {
			glob[ty] = g.object()
		}
	}
	// git
	gr := newGitRemote(t, "master")
	gr.Commit(Tree{"a": "alpha beta\n", "b/c": "gamma foo\n", "bin": "\x00\xff"})
	defer os.RemoveAll(gr.Dir)
	m := M{"url": gr.URL(), "enable-push-updates": true, "ms-between-poll": 40}
	own(m, "git", M{"ref": "master"})
	repos["git"] = m
	// local
	ld := filepath.Join(top, "local")
	writeTree(ld, Tree{"l": "local foo\n"})
	m = M{"url": "file://" + ld, "vcs": "local", "enable-push-updates": true}
	own(m, "local", M{"watch-changes": true})
	repos["local"] = m
	// svn, with credentials that are really needed
	ctls := map[string]*VCtl{}
	for _, ty := range []string{"svn", "bzr", "hg"} {
		c := &VCtl{filepath.Join(top, ty)}
		os.MkdirAll(c.Dir, 0755)
		c.Commit("r1", Tree{"s": ty + " foo\n"})
		ctls[ty] = c
		m = M{"url": c.Dir, "vcs": ty, "enable-push-updates": true, "ms-between-poll": 40}
		must := M{}
		if ty == "svn" {
			u, p := g.secret(), g.secret()
			c.write("user", u)
			c.write("pass", p)
			must = M{"username": u, "password": p}
		}
		own(m, ty, must)
		repos[ty] = m
	}
	if r.Intn(2) == 0 && glob["hg"] == nil { // a driver that does not read it accepts any value
		m := M{"url": ctls["hg"].Dir + "/", "vcs": "mercurial"}
		m["vcs-config"] = g.anything(0)
		repos["hg2"] = m
	}
	// repositories that cannot start
	repos["bad-ref"] = M{"url": "file://" + top + "/nowhere", "vcs-config": M{"ref": g.secret(), "k": g.anything(0)}}
	repos["bad-vcs"] = M{"url": "x", "vcs": "nope", "vcs-config": g.object()}
	repos["bad-config"] = M{"url": gr.URL(), "vcs-config": M{"ref": M{g.secret(): g.secret()}}}
	repos["bad-svn"] = M{"url": ctls["svn"].Dir, "vcs": "svn", "vcs-config": M{"username": g.secret(), "password": g.secret()}}
	conf := M{"dbpath": "data", "max-concurrent-indexers": 3, "repos": repos, "title": "T"}
	conf[pick(r, "vcs-config", "vcs-config", "VCS-CONFIG")] = glob
	path := writeConfig(top, conf)
	t.Count("secrets", len(g.cs))
	ctls["hg"].write("hold", "") // to see it before it is ready
	h := startHoundd(t, path, []string{"PATH=" + tools + ":" + os.Getenv("PATH")})
	defer h.Kill()

	phase := "starting"
	do := func(method, u, ctype string, body string) {
		t.Eval(1)
		req, err := http.NewRequest(method, h.Base+u, strings.NewReader(body))
		if err != nil {
			return
		}
		if ctype != "" {
			req.Header.Set("Content-Type", ctype)
		}
		resp, err := h.client.Transport.RoundTrip(req)
		if err != nil {
			return // whether it is answered is the business of other checks
		}
		var all bytes.Buffer
		resp.Header.Write(&all)
		io.Copy(&all, resp.Body)
		resp.Body.Close()
		t.Count("responses", 1)
		t.Count(fmt.Sprintf("status_%d", resp.StatusCode), 1)
		t.Count("bytes_scanned", all.Len())
		t.Distinct(i, phase, method, u, resp.StatusCode)
		if l := g.leaks(all.Bytes()); l != "" {
			t.Violate("leak", map[string]interface{}{"request": method + " " + u, "phase": phase, "configuration": conf}, "%s %s while %s (status %d) gives away %s", method, u, phase, resp.StatusCode, l)
		}
	}
	names := sortedKeys(repos)
	sweep := func() {
		for _, u := range []string{"/", "/api/v1/repos", "/excluded_files.html", "/open_search.xml", "/healthz", "/favicon.ico", "/js/hound.js", "/nope", "/config.json", "/../config.json", "/data/", "/debug/vars", "/debug/pprof/", "/debug/pprof/cmdline", "/api/v1/config"} {
			do("GET", u, "", "")
		}
		for _, q := range []string{"", ".", "foo", "(", "zQ", "[z]Q[0-9]+x", "(?i)password", "token", "Bearer", "config", "username", "[[", "x{3000}"} {
			do("GET", "/api/v1/search?stats=1&repos=*&ctx=20&q="+url.QueryEscape(q), "", "")
		}
		do("GET", "/api/v1/search?repos=*&q=.&files=(", "", "")
		for _, n := range append(names, "nope") {
			do("GET", "/api/v1/excludes?repo="+n, "", "")
			do("GET", "/api/v1/search?q=.&repos="+n, "", "")
			do("POST", "/api/v1/update?repos="+n, "", "")
			do("POST", "/api/v1/github-webhook", "application/json", `{"repository":{"full_name":"`+n+`"}}`)
		}
		do("POST", "/api/v1/update", "application/x-www-form-urlencoded", "repos=*")
		do("GET", "/api/v1/update", "", "")
		do("POST", "/api/v1/github-webhook", "application/json", `{"repository":`)
		do("POST", "/api/v1/repos", "multipart/form-data; boundary=x", "--x\r\n")
		do("OPTIONS", "/api/v1/search", "", "")
		do("HEAD", "/", "", "")
	}
	end := time.Now().Add(20 * time.Second)
	for time.Now().Before(end) && !h.exited() {
		if code, _, err := getBody(h.client, h.Base+"/healthz"); err == nil && code == 200 {
			break
		}
		time.Sleep(2 * time.Millisecond)
	}
	sweep()
	os.Remove(filepath.Join(ctls["hg"].Dir, "hold"))
	if !h.waitReady(60 * time.Second) {
		t.Violate("startup", conf, "the server did not get ready: %s", clip(h.Log()))
		return
	}
	for _, n := range []string{"git", "local", "svn", "hg", "bzr"} {
		a, err := h.Search(n, "foo", nil)
		if err != nil || a.Results[n] == nil {
			t.Violate("not-served", conf, "repository %s is not served: %v; log %s", n, err, tail([]byte(h.Log()), 1500))
			return
		}
	}
	for _, c := range ctls["svn"].Calls() {
		if c.What == "clone" && c.Exit == 0 {
			t.Count("svn_with_credentials", 1)
		}
	}
	phase = "serving"
	sweep()
	phase = "failing to update"
	for _, c := range ctls {
		c.write("fail", "")
	}
	ctls["svn"].write("pass", "changed")
	os.Rename(gr.Dir, gr.Dir+".away")
	sweep()
	time.Sleep(60 * time.Millisecond)
	sweep()
	os.Rename(gr.Dir+".away", gr.Dir)
	if len(t.res.Samples) < 2 {
		t.Sample(map[string]interface{}{"secrets": len(g.cs), "repositories": names})
	}
}

// c18pages: the pages of both modes, for generated configurations.
func c18pages(t *T, i int) {
	r := t.Rng("pages", i)
	g := &c18gen{r: r, i: i}
	raw := M{"repos": M{}, "vcs-config": M{"git": g.object(), "svn": g.object()}}
	for k := 0; k < 1+r.Intn(4); k++ {
		m := M{"url": fmt.Sprintf("https://h/%d", k), "vcs": pick(r, "git", "svn", "hg", "local")}
		if r.Intn(3) > 0 {
			m["vcs-config"] = g.object()
		}
		raw["repos"].(M)[fmt.Sprintf("r%d", k)] = m
	}
	dir := t.Dir("pages")
	defer os.RemoveAll(dir)
	var cfg config.Config
	if err := cfg.LoadFromFile(writeConfig(dir, raw)); err != nil {
		t.Violate("load", raw, "loading: %v", err)
		return
	}
	t.Count("secrets", len(g.cs))
	look := func(what string, b []byte) {
		t.Eval(1)
		t.Count("bytes_scanned", len(b))
		if l := g.leaks(b); l != "" {
			t.Violate("leak", map[string]interface{}{"where": what, "configuration": raw}, "%s gives away %s", what, l)
		}
	}
	for _, dev := range []bool{false, true} {
		h, err := ui.Content(dev, &cfg)
		if err != nil {
			t.Violate("content", nil, "ui.Content(%v): %v", dev, err)
			return
		}
		for _, p := range []string{"/", "/excluded_files.html", "/open_search.xml"} {
			rec := newRecorder()
			req, _ := http.NewRequest("GET", "http://h"+p, nil)
			if !t.Guard("panic", p, func() { h.ServeHTTP(rec, req) }) {
				return
			}
			look(fmt.Sprintf("page %s (development mode: %v)", p, dev), rec.buf.Bytes())
			t.Distinct("page", dev, p, len(g.cs))
		}
	}
	// every way the configuration is turned into text for clients
	s, err := cfg.ToJsonString()
	if err != nil {
		t.Violate("json", raw, "ToJsonString: %v", err)
	}
	look("Config.ToJsonString", []byte(s))
	for _, v := range []interface{}{&cfg, cfg, cfg.Repos} {
		b, _ := json.Marshal(v)
		look(fmt.Sprintf("%T as JSON", v), b)
	}
	for _, rp := range cfg.Repos {
		b, _ := json.Marshal(rp)
		look("Repo as JSON", b)
		b, _ = json.Marshal(*rp)
		look("Repo value as JSON", b)
	}
}

type recorder struct {
	mu  sync.Mutex
	h   http.Header
	buf bytes.Buffer
	st  int
}

func newRecorder() *recorder                    { return &recorder{h: http.Header{}} }
func (r *recorder) Header() http.Header         { return r.h }
func (r *recorder) WriteHeader(c int)           { r.st = c }
func (r *recorder) Write(b []byte) (int, error) { return r.buf.Write(b) }
