package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/ui"
	"github.com/hound-search/hound/web"
)

func init() {
	register(&Check{ID: "C30", Fn: c30,
		Rule:   "the real web server over raw TCP: pages rendered for generated titles, repository names, URLs, display names and Host headers are read by an HTML tokenizer (raw text of scripts, RCDATA of titles) and an XML parser, their token structure compared with that of a harmless configuration and the embedded texts with the configured ones, the data script being evaluated by node; every bundled asset fetched whole, in ranges and by HEAD and compared with ui/assets; unknown, encoded, traversing and mangled paths; all also concurrently with different hosts, and with clients that take their answers slowly; non-trivial = distinct (page, hostile field) and distinct (path form, outcome)",
		Assume: []string{"the HTML tokenizer here follows the HTML standard for the constructs in these pages"},
	})
}

// ---------------------------------------------------------------- HTML reading

type htok struct {
	Kind string // start, end, text, doctype, comment
	Name string
	Attr map[string]string
	Text string
}

var htmlEntities = map[string]string{"amp": "&", "lt": "<", "gt": ">", "quot": "\"", "apos": "'", "nbsp": "\u00a0"}

func htmlDecode(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '&' {
			b.WriteByte(s[i])
			continue
		}
		j := strings.IndexByte(s[i:], ';')
		if j < 2 || j > 12 {
			b.WriteByte('&')
			continue
		}
		n := s[i+1 : i+j]
		var c rune
		if v, ok := htmlEntities[n]; ok {
			b.WriteString(v)
		} else if k, _ := fmt.Sscanf(n, "#x%x", &c); k == 1 {
			b.WriteRune(c)
		} else if k, _ := fmt.Sscanf(n, "#X%x", &c); k == 1 {
			b.WriteRune(c)
		} else if k, _ := fmt.Sscanf(n, "#%d", &c); k == 1 {
			b.WriteRune(c)
		} else {
			b.WriteByte('&')
			continue
		}
		i += j
	}
	return b.String()
}

// htmlTokens reads a page. It errs on constructs these pages have no use for.
func htmlTokens(s string) (out []htok, err string) {
	text := func(x string) {
		if x != "" {
			out = append(out, htok{Kind: "text", Text: htmlDecode(x)})
		}
	}
	isName := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-'
	}
	for s != "" {
		i := strings.IndexByte(s, '<')
		if i < 0 {
			text(s)
			return
		}
		text(s[:i])
		s = s[i:]
		switch {
		case strings.HasPrefix(s, "<!--"):
			j := strings.Index(s[4:], "-->")
			if j < 0 {
				return out, "unended comment"
			}
			out = append(out, htok{Kind: "comment", Text: s[4 : 4+j]})
			s = s[4+j+3:]
		case strings.HasPrefix(s, "<!"):
			j := strings.IndexByte(s, '>')
			if j < 0 {
				return out, "unended declaration"
			}
			out = append(out, htok{Kind: "doctype", Text: s[2:j]})
			s = s[j+1:]
		case len(s) > 2 && s[1] == '/' && isName(s[2]):
			j := strings.IndexByte(s, '>')
			if j < 0 {
				return out, "unended end tag"
			}
			out = append(out, htok{Kind: "end", Name: strings.ToLower(strings.TrimSpace(s[2:j]))})
			s = s[j+1:]
		case len(s) > 1 && isName(s[1]):
			k := 1
			for k < len(s) && isName(s[k]) {
				k++
			}
			tk := htok{Kind: "start", Name: strings.ToLower(s[1:k]), Attr: map[string]string{}}
			for {
				for k < len(s) && strings.IndexByte(" \t\n\r\f/", s[k]) >= 0 {
					k++
				}
				if k >= len(s) {
					return out, "unended tag " + tk.Name
				}
				if s[k] == '>' {
					k++
					break
				}
				a := k
				for k < len(s) && strings.IndexByte(" \t\n\r\f/>=", s[k]) < 0 {
					k++
				}
				name, val := strings.ToLower(s[a:k]), ""
				if k < len(s) && s[k] == '=' {
					k++
					if k < len(s) && (s[k] == '"' || s[k] == '\'') {
						j := strings.IndexByte(s[k+1:], s[k])
						if j < 0 {
							return out, "unended attribute " + name
						}
						val = s[k+1 : k+1+j]
						k += j + 2
					} else {
						a = k
						for k < len(s) && strings.IndexByte(" \t\n\r\f>", s[k]) < 0 {
							k++
						}
						val = s[a:k]
					}
				}
				tk.Attr[name] = htmlDecode(val)
			}
			s = s[k:]
			out = append(out, tk)
			if tk.Name == "script" || tk.Name == "style" || tk.Name == "title" || tk.Name == "textarea" {
				// raw text up to the end tag
				low := strings.ToLower(s)
				j := strings.Index(low, "</"+tk.Name)
				if j < 0 {
					return out, "unended " + tk.Name
				}
				raw := s[:j]
				if tk.Name == "title" || tk.Name == "textarea" {
					raw = htmlDecode(raw)
				} else if c := strings.Index(strings.ToLower(raw), "<!--"); c >= 0 && strings.Contains(low[c:], "<script") {
					return out, "a comment with a script in a script"
				}
				out = append(out, htok{Kind: "text", Name: tk.Name, Text: raw})
				s = s[j:]
			}
		default:
			// a bare <
			text("<")
			s = s[1:]
		}
	}
	return
}

// shape is the structure of a page: its tags and attribute names
func htmlShape(ts []htok) string {
	var b strings.Builder
	for _, t := range ts {
		switch t.Kind {
		case "start":
			var as []string
			for a := range t.Attr {
				as = append(as, a)
			}
			sort.Strings(as)
			fmt.Fprintf(&b, "<%s %v>", t.Name, as)
		case "end":
			fmt.Fprintf(&b, "</%s>", t.Name)
		case "text":
			if strings.Trim(t.Text, " \t\r\n\f") != "" {
				b.WriteString("#")
			}
		default:
			fmt.Fprintf(&b, "<!%s %s>", t.Kind, t.Text)
		}
	}
	return b.String()
}

// ---------------------------------------------------------------- raw HTTP

type rawAnswer struct {
	Code int
	Head http.Header
	Body []byte
}

// rawGet sends a request exactly as given.
func rawGet(addr, method, target, host string, head map[string]string) (*rawAnswer, error) {
	c, err := net.DialTimeout("tcp", addr, 10*time.Second)
	if err != nil {
		return nil, err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(60 * time.Second))
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n", method, target, host)
	for k, v := range head {
		fmt.Fprintf(&b, "%s: %s\r\n", k, v)
	}
	b.WriteString("\r\n")
	if _, err := io.WriteString(c, b.String()); err != nil {
		return nil, err
	}
	resp, err := http.ReadResponse(bufio.NewReader(c), &http.Request{Method: method})
	if err != nil {
		return nil, err
	}
	defer resp.Body.Close()
	body, err := io.ReadAll(resp.Body)
	return &rawAnswer{resp.StatusCode, resp.Header, body}, err
}

// ---------------------------------------------------------------- generation

var c30texts = []string{"Hound", "a & b", "</title><script>alert(1)</script>", "</script><script>x", "<!--<script>", "-->", "\"quoted\"", "it's", "`tick`${x}", "\\", "\\\"", "line\u2028sep\u2029", "é 日本 😀", "&lt;b&gt;", "&#39;", "{{.Title}}", "<%= x %>", "a\tb", "+ADw-script+AD4-", "]]>", "'};alert(1);//", "\\u003c/script>", "%3Cscript%3E", "javascript:alert(1)", "\" onmouseover=\"x", "x\ny", "<", ">", "&", "\u00a0", "\ufeff", "__proto__", "constructor"}

func c30text(r *rand.Rand) string {
	s := ""
	for n := 1 + r.Intn(3); n > 0; n-- {
		s += c30texts[r.Intn(len(c30texts))]
	}
	return s
}

var c30hosts = []string{"localhost", "localhost:6080", "hound.example", "a&b", "a&amp;b", "it's", "a;b=c", "x'y&z", "[::1]:6080", "a(b)c", "~x_y", "a,b", "$1", "a!b", "*", "%41", "a%22b", "%3Cscript%3E", "a+b", "h:1&q=2", "&#60;", "{x}", "HOST.Example:80"}

func c30config(r *rand.Rand) *config.Config {
	cfg := &config.Config{DbPath: "db", Title: c30text(r), MaxConcurrentIndexers: 1, HealthCheckURI: "/healthz", ResultLimit: 5000, Repos: map[string]*config.Repo{}}
	for k := r.Intn(4); k > 0; k-- {
		c := &config.Repo{Url: "https://git/" + c30text(r), Vcs: "git", UrlPattern: &config.UrlPattern{BaseUrl: "{url}/" + c30text(r), Anchor: c30text(r)}}
		if r.Intn(2) == 0 {
			c.DisplayName = c30text(r)
		}
		if r.Intn(3) == 0 {
			c.AutoGeneratedFiles = []string{c30text(r)}
		}
		cfg.Repos[c30text(r)] = c
	}
	return cfg
}

// c30serve starts the web server for a configuration.
func c30serve(t *T, cfg *config.Config) (addr string) {
	for try := 0; try < 5; try++ {
		addr = freePort()
		s := web.Start(cfg, addr, false)
		failed := make(chan error, 1)
		go func() { failed <- s.ServeWithIndex(map[string]*searcher.Searcher{}) }()
		for end := time.Now().Add(20 * time.Second); time.Now().Before(end) && len(failed) == 0; time.Sleep(time.Millisecond) {
			if a, err := rawGet(addr, "GET", "/js/common.js", "h", nil); err == nil && a.Code != 503 {
				return addr
			}
		}
	}
	return ""
}

type c30script struct {
	Ctx    string
	Script string
	cfg    *config.Config
}

type c30state struct {
	t       *T
	assets  map[string][]byte
	dirs    map[string]bool
	mu      sync.Mutex
	scripts []c30script
	shapes  map[string]string
}

func c30(t *T) {
	st := &c30state{t: t, assets: map[string][]byte{}, dirs: map[string]bool{}, shapes: map[string]string{}}
	root := "/repo/ui/assets"
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(root, p)
		if err == nil && fi.IsDir() && rel != "." {
			st.dirs[rel] = true
		}
		if err == nil && fi.Mode().IsRegular() && !strings.HasPrefix(fi.Name(), ".") && !strings.HasPrefix(fi.Name(), "_") {
			b, _ := os.ReadFile(p)
			st.assets[filepath.ToSlash(rel)] = b
		}
		return nil
	})
	if len(st.assets) == 0 {
		t.Inconclusive("no assets")
		return
	}
	plain := &config.Config{DbPath: "db", Title: "Title", MaxConcurrentIndexers: 1, HealthCheckURI: "/healthz", Repos: map[string]*config.Repo{"r": {Url: "u", Vcs: "git", UrlPattern: &config.UrlPattern{}}}}
	addr := c30serve(t, plain)
	if addr == "" {
		t.Violate("serve", nil, "the web server does not start")
		return
	}
	for _, p := range []string{"/", "/excluded_files.html"} {
		a, err := rawGet(addr, "GET", p, "localhost", nil)
		if err != nil || a.Code != 200 {
			t.Violate("page", nil, "%s: %v %+v", p, err, a)
			return
		}
		ts, msg := htmlTokens(string(a.Body))
		if msg != "" {
			t.Violate("page-html", nil, "%s: %s", p, msg)
			return
		}
		st.shapes[p] = htmlShape(ts)
	}
	st.judgeAssets(addr)
	for i := 0; i < t.N(200, 3000) && !t.Stop(); i++ {
		r := t.Rng("config", i)
		cfg := c30config(r)
		addr := c30serve(t, cfg)
		if addr == "" {
			t.Violate("serve", nil, "the web server does not start with title %q and repositories %q", cfg.Title, repoNames(cfg))
			return
		}
		var wg sync.WaitGroup
		for k := 0; k < 4; k++ {
			host := c30hosts[(i*4+k)%len(c30hosts)]
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, p := range []string{"/", "/excluded_files.html", "/open_search.xml"} {
					st.judgePage(addr, cfg, p, host, false)
				}
			}()
		}
		wg.Wait()
	}
	st.paths(addr)
	st.dev()
	st.slowClients()
	st.evaluate()
	for _, c := range []string{"pages", "open_search", "asset_bytes", "ranges", "missing_paths", "scripts_evaluated", "slow_answers"} {
		if t.Counter(c) == 0 && !t.Stop() {
			t.Inconclusive("no %s", c)
		}
	}
}

func repoNames(cfg *config.Config) (ns []string) {
	for n := range cfg.Repos {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return
}

// judgePage reads one rendered page.
func (st *c30state) judgePage(addr string, cfg *config.Config, p, host string, dev bool) {
	t := st.t
	ctx := fmt.Sprintf("%s, title %q, host %q, repositories %q", p, cfg.Title, host, repoNames(cfg))
	a, err := rawGet(addr, "GET", p, host, nil)
	if err != nil {
		t.Violate("page-answer", nil, "%s: %v", ctx, err)
		return
	}
	if a.Code == 400 {
		// the HTTP library refuses this host
		t.Count("hosts_refused", 1)
		return
	}
	if a.Code != 200 {
		t.Violate("page-answer", nil, "%s: status %d %q", ctx, a.Code, head(a.Body, 200))
		return
	}
	t.Eval(1)
	if p == "/open_search.xml" {
		var doc struct {
			XMLName     xml.Name
			ShortName   string
			Description string
			Url         []struct {
				Type     string `xml:"type,attr"`
				Method   string `xml:"method,attr"`
				Template string `xml:"template,attr"`
			}
		}
		d := xml.NewDecoder(bytes.NewReader(a.Body))
		d.Strict = true
		if err := d.Decode(&doc); err != nil {
			t.Violate("open-search-xml", string(a.Body), "%s: not well-formed: %v", ctx, err)
			return
		}
		if why := xmlOutside(a.Body); why != "" {
			t.Violate("open-search-xml", string(a.Body), "%s: not well-formed: %s", ctx, why)
			return
		}
		if want := "http://" + host + "/?q={searchTerms}"; len(doc.Url) != 1 || doc.Url[0].Template != want || doc.XMLName.Local != "OpenSearchDescription" {
			t.Violate("open-search", string(a.Body), "%s: template %+v, want %q", ctx, doc.Url, want)
			return
		}
		t.Count("open_search", 1)
		t.Distinct(p, host)
		return
	}
	ts, msg := htmlTokens(string(a.Body))
	if msg != "" {
		t.Violate("page-html", string(a.Body), "%s: %s", ctx, msg)
		return
	}
	shape := htmlShape(ts)
	if dev {
		st.mu.Lock()
		if st.shapes["dev"+p] == "" {
			st.shapes["dev"+p] = shape
		}
		st.mu.Unlock()
	}
	key := p
	if dev {
		key = "dev" + p
	}
	if shape != st.shapes[key] {
		t.Violate("page-structure", string(a.Body), "%s: structure %s, want %s", ctx, shape, st.shapes[key])
		return
	}
	if ct := a.Head.Get("Content-Type"); !strings.HasPrefix(ct, "text/html") || !strings.Contains(strings.ToLower(ct), "utf-8") {
		t.Violate("page-type", nil, "%s: content type %q", ctx, ct)
		return
	}
	var scripts []string
	for k, tk := range ts {
		if tk.Kind == "text" && tk.Name == "title" && p == "/" && tk.Text != cfg.Title {
			t.Violate("page-title", nil, "%s: the title reads %q", ctx, tk.Text)
		}
		if tk.Kind == "start" && tk.Name == "link" && tk.Attr["rel"] == "search" {
			if tk.Attr["title"] != cfg.Title {
				t.Violate("page-link-title", nil, "%s: the search link's title reads %q", ctx, tk.Attr["title"])
			}
			want := "//" + host + "/open_search.xml"
			got := tk.Attr["href"]
			if un, err := url.PathUnescape(got); got != want && !(err == nil && un == want) {
				if wu, err2 := url.PathUnescape(want); err2 != nil || un != wu {
					t.Violate("page-link", nil, "%s: the search link leads to %q, want %q", ctx, got, want)
				}
			}
		}
		if tk.Kind == "text" && tk.Name == "script" {
			scripts = append(scripts, tk.Text)
			_ = k
		}
	}
	// the page's own scripts are there unchanged
	for _, s := range map[string][]string{"/": {"js/hound.js"}, "/excluded_files.html": {"js/excluded_files.js"}}[p] {
		found := dev
		for _, x := range scripts {
			found = found || x == string(st.assets[s])
		}
		if !found {
			t.Violate("page-source", nil, "%s: the script %s is not in the page as it is in the bundle", ctx, s)
		}
	}
	if p == "/" {
		if len(scripts) == 0 || strings.TrimSpace(scripts[0]) == "" {
			t.Violate("page-data", nil, "%s: no data script", ctx)
			return
		}
		st.mu.Lock()
		st.scripts = append(st.scripts, c30script{ctx, scripts[0], cfg})
		st.mu.Unlock()
	}
	t.Count("pages", 1)
	t.Distinct(p, cfg.Title, host)
}

// evaluate runs the data scripts of all pages in node and compares what they
// define with the configurations.
func (st *c30state) evaluate() {
	t := st.t
	in := filepath.Join(t.Scratch, "scripts.json")
	b, _ := json.Marshal(st.scripts)
	os.WriteFile(in, b, 0644)
	prog := `const vm=require('vm'),fs=require('fs');
const base=new Set(vm.runInContext('Object.getOwnPropertyNames(this)',vm.createContext({})));
const out=JSON.parse(fs.readFileSync(process.argv[1],'utf8')).map(s=>{
 try { const c=vm.createContext({}); vm.runInContext(s.Script,c,{timeout:5000});
  const keys=vm.runInContext('Object.getOwnPropertyNames(this)',c).filter(k=>!base.has(k));
  return {type: vm.runInContext('typeof ModelData',c), data: String(vm.runInContext('ModelData',c)), keys}; }
 catch(e) { return {error:String(e)}; }});
process.stdout.write(JSON.stringify(out));`
	o, err := exec.Command("node", "-e", prog, in).Output()
	var res []struct {
		Type, Error string
		Data        string
		Keys        []string
	}
	if err != nil || json.Unmarshal(o, &res) != nil || len(res) != len(st.scripts) {
		t.Inconclusive("node: %v", err)
		return
	}
	for k, s := range st.scripts {
		x := res[k]
		if x.Error != "" || x.Type != "string" || strings.Join(x.Keys, ",") != "ModelData" {
			t.Violate("page-data", s.Script, "%s: the data script gives %s %s %v", s.Ctx, x.Type, x.Error, x.Keys)
			return
		}
		var got map[string]*config.Repo
		if err := json.Unmarshal([]byte(x.Data), &got); err != nil {
			t.Violate("page-data", s.Script, "%s: the data is no JSON: %v", s.Ctx, err)
			return
		}
		same := len(got) == len(s.cfg.Repos)
		for n, c := range s.cfg.Repos {
			g := got[n]
			same = same && g != nil && g.Url == c.Url && g.DisplayName == c.DisplayName && g.Vcs == c.Vcs && reflect.DeepEqual(g.UrlPattern, c.UrlPattern) && reflect.DeepEqual(g.AutoGeneratedFiles, c.AutoGeneratedFiles)
		}
		if !same {
			t.Violate("page-data", s.Script, "%s: the data reads %s", s.Ctx, x.Data)
			return
		}
		t.Count("scripts_evaluated", 1)
	}
}

func (st *c30state) judgeAssets(addr string) {
	t := st.t
	r := t.Rng("assets")
	var names []string
	for n := range st.assets {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		want := st.assets[n]
		enc := (&url.URL{Path: "/" + n}).EscapedPath()
		a, err := rawGet(addr, "GET", enc, "h", nil)
		if err != nil || a.Code != 200 || !bytes.Equal(a.Body, want) {
			t.Violate("asset", nil, "asset %s: %v, status %d, %d bytes, want %d", n, err, a.Code, len(a.Body), len(want))
			return
		}
		for ext, ct := range map[string]string{".css": "text/css", ".js": "javascript"} {
			if strings.HasSuffix(n, ext) && !strings.Contains(a.Head.Get("Content-Type"), ct) {
				t.Violate("asset-type", nil, "asset %s: content type %q", n, a.Head.Get("Content-Type"))
				return
			}
		}
		t.Count("asset_bytes", len(want))
		t.Distinct("asset", n)
		if h, err := rawGet(addr, "HEAD", enc, "h", nil); err != nil || h.Code != 200 || h.Head.Get("Content-Length") != fmt.Sprint(len(want)) {
			t.Violate("asset-head", nil, "HEAD of asset %s: %v %+v, want %d bytes", n, err, h, len(want))
			return
		}
		if len(want) < 3 {
			continue
		}
		for k := 0; k < t.N(6, 40); k++ {
			lo := r.Intn(len(want))
			hi := lo + r.Intn(len(want)-lo)
			var rng string
			var part []byte
			switch k % 4 {
			case 0:
				rng, part = fmt.Sprintf("bytes=%d-%d", lo, hi), want[lo:hi+1]
			case 1:
				rng, part = fmt.Sprintf("bytes=%d-", lo), want[lo:]
			case 2:
				rng, part = fmt.Sprintf("bytes=-%d", len(want)-lo), want[lo:]
			case 3:
				rng = fmt.Sprintf("bytes=%d-%d", len(want)+r.Intn(50), len(want)+100)
			}
			a, err := rawGet(addr, "GET", enc, "h", map[string]string{"Range": rng})
			if err != nil {
				t.Violate("range", nil, "asset %s, %s: %v", n, rng, err)
				return
			}
			if part == nil {
				if a.Code != 416 {
					t.Violate("range", nil, "asset %s of %d bytes, %s: status %d", n, len(want), rng, a.Code)
					return
				}
				continue
			}
			if a.Code != 206 || !bytes.Equal(a.Body, part) {
				t.Violate("range", nil, "asset %s, %s: status %d, %d bytes, want %d", n, rng, a.Code, len(a.Body), len(part))
				return
			}
			t.Count("ranges", 1)
		}
		t.Eval(1)
	}
	t.Info("assets", len(names))
}

var c30paths = []string{"/..", "/../bindata.go", "/../../go.mod", "/js/../../bindata.go", "/%2e%2e/bindata.go", "/..%2fbindata.go", "/js/%2e%2e/%2e%2e/bindata.go", "/....//bindata.go", "/..%5cbindata.go", "//etc/passwd", "/%2fetc/passwd", "/etc/passwd", "/js", "/js/", "/css", "/css/octicons/", "/.build/ui/js/hound.js", "/ui/js/hound.js", "/js/hound.js/", "/js/hound.js%00", "/%00", "/js%2fhound.js", "/JS/hound.js", "/js/hound.js.map", "/favicon.ico", "/index.html", "/index.tpl.html/x", "/api", "/api/v1", "/api/v2/search", "/js//hound.js", "/./js/hound.js", "/js/./hound.js", "/js/x/../hound.js", "/%6as/hound.js", "/js/hound.js?x=../..", "/~root", "/C:/", "/.git/config", "/.env", "/config.json", "/db", "/data/", "/%ff%fe", "/js/hound%2ejs", "/;/js/hound.js", "/js;x/hound.js", "/js/hound.js%20", "/%E2%80%AE", "/open_search.xml/", "/excluded_files.html/x", "/open_search.xml/../open_search.tpl.xml"}

func (st *c30state) paths(addr string) {
	t := st.t
	r := t.Rng("paths")
	var names []string
	for n := range st.assets {
		names = append(names, n)
	}
	sort.Strings(names)
	targets := append([]string{}, c30paths...)
	for k := 0; k < t.N(300, 8000); k++ {
		n := "/" + names[r.Intn(len(names))]
		for m := 1 + r.Intn(2); m > 0; m-- {
			at := r.Intn(len(n)) + 1
			ins := []string{"/", "..", "/../", "./", "%2e", "%2f", "%00", "x", "\\", "%5c", "%", " ", "//", "?", "#", ".", "%2e%2e%2f", "é", "A", "/..%2f..%2f..%2fetc%2fpasswd"}[r.Intn(20)]
			switch r.Intn(3) {
			case 0:
				n = n[:at] + ins + n[at:]
			case 1:
				n = n[:at]
			case 2:
				n = n[:at] + strings.ToUpper(n[at:])
			}
		}
		targets = append(targets, n)
	}
	t.Par(len(targets), 6, func(i int) {
		target := targets[i]
		if strings.ContainsAny(target, " ") {
			return
		}
		a, err := rawGet(addr, "GET", target, "h", nil)
		if err != nil {
			t.Violate("path-answer", nil, "GET %q: %v", target, err)
			return
		}
		st.judgePath(target, a)
	})
}

func (st *c30state) judgePath(target string, a *rawAnswer) {
	t := st.t
	u, err := url.ParseRequestURI(target)
	if err != nil {
		if a.Code != 400 {
			t.Violate("path", nil, "GET %q: status %d for a malformed target (%v)", target, a.Code, err)
		}
		t.Count("malformed_paths", 1)
		return
	}
	p := u.Path
	outcome := fmt.Sprint(a.Code)
	clean := path.Clean(p)
	if strings.HasSuffix(p, "/") && clean != "/" {
		clean += "/"
	}
	switch {
	case a.Code == 301 || a.Code == 307 || a.Code == 308:
		if clean == p && u.EscapedPath() == clean {
			t.Violate("path-redirect", nil, "GET %q: redirected to %q", target, a.Head.Get("Location"))
		}
		if loc, err := url.Parse(a.Head.Get("Location")); err != nil || loc.Host != "" || strings.Contains(loc.Path, "..") && !strings.Contains(clean, "..") {
			t.Violate("path-redirect", nil, "GET %q: redirected to %q", target, a.Head.Get("Location"))
		}
	case p == "/" || p == "/open_search.xml" || p == "/excluded_files.html":
		if a.Code != 200 {
			t.Violate("path", nil, "GET %q: status %d", target, a.Code)
		}
	case a.Code == 200:
		if want, ok := st.assets[strings.TrimPrefix(p, "/")]; !ok || !bytes.Equal(want, a.Body) {
			t.Violate("path", nil, "GET %q: answered with %d bytes that are not the asset of that name: %q", target, len(a.Body), head(a.Body, 120))
		}
	default:
		if _, ok := st.assets[strings.TrimPrefix(p, "/")]; ok && clean == p {
			t.Violate("path", nil, "GET %q: status %d for an asset", target, a.Code)
		}
		if a.Code != 404 && !strings.HasPrefix(p, "/api/") {
			t.Violate("path", nil, "GET %q: status %d, want 404", target, a.Code)
		}
		t.Count("missing_paths", 1)
	}
	t.Distinct("path", target, outcome)
	t.Eval(1)
}

// slowWriter takes what it is given the way a slow connection does: bit by bit
// while other requests are served.
type slowWriter struct {
	h    http.Header
	code int
	body []byte
	step int
}

func (w *slowWriter) Header() http.Header { return w.h }
func (w *slowWriter) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}
func (w *slowWriter) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	n := len(b)
	for len(b) > 0 {
		k := w.step
		if k > len(b) {
			k = len(b)
		}
		if w.step > 0 && k < len(b) {
			time.Sleep(200 * time.Microsecond)
		} else if w.step > 0 {
			runtime.Gosched()
		} else {
			k = len(b)
		}
		w.body = append(w.body, b[:k]...)
		b = b[k:]
	}
	return n, nil
}

// slowClients: what a request is answered does not depend on the requests that
// are answered at the same time, however slowly the answers are taken.
func (st *c30state) slowClients() {
	t := st.t
	for _, dev := range []bool{false, true} {
		for i := 0; i < t.N(4, 40) && !t.Stop(); i++ {
			r := t.Rng("slow", dev, i)
			cfg := c30config(r)
			h, err := ui.Content(dev, cfg)
			if err != nil {
				t.Violate("dev", nil, "%v", err)
				return
			}
			get := func(target, host string, step int) *slowWriter {
				rq, _ := http.NewRequest("GET", "http://h"+target, nil)
				rq.Host, rq.RequestURI, rq.RemoteAddr = host, target, "127.0.0.1:1"
				w := &slowWriter{h: http.Header{}, step: step}
				t.Guard("slow-client-panic", target, func() { h.ServeHTTP(w, rq) })
				return w
			}
			type one struct{ target, host string }
			var all []one
			for _, hn := range []string{"localhost", "other.example:80", "a-much-longer-host-name.in-some.example:6080"} {
				for _, p := range []string{"/", "/excluded_files.html", "/open_search.xml", "/css/hound.css", "/js/common.js", "/none"} {
					all = append(all, one{p, hn})
				}
			}
			want := map[one]*slowWriter{}
			for _, o := range all {
				want[o] = get(o.target, o.host, 0)
			}
			t.Par(t.N(300, 1500), 48, func(k int) {
				o := all[(k*7+k/len(all))%len(all)]
				w := get(o.target, o.host, 512<<(k%8))
				t.Eval(1)
				t.Count("slow_answers", 1)
				if x := want[o]; w.code != x.code || !bytes.Equal(w.body, x.body) {
					t.Violate("slow-client", o, "dev %v, %s for host %s: %d with %d bytes while other requests are answered, but %d with %d bytes alone (%s)", dev, o.target, o.host, w.code, len(w.body), x.code, len(x.body), firstDiff(w.body, x.body))
				}
			})
		}
	}
}

func firstDiff(a, b []byte) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("from byte %d on %q instead of %q", i, head(a[i:], 60), head(b[i:], 60))
		}
	}
	return "one ends early"
}

// dev: the pages and assets of the development mode
func (st *c30state) dev() {
	t := st.t
	for i := 0; i < t.N(6, 60) && !t.Stop(); i++ {
		r := t.Rng("dev", i)
		cfg := c30config(r)
		if i == 0 {
			cfg.Title = "plain"
		}
		h, err := ui.Content(true, cfg)
		if err != nil {
			t.Violate("dev", nil, "%v", err)
			return
		}
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return
		}
		srv := &http.Server{Handler: h}
		go srv.Serve(l)
		for k := 0; k < 3; k++ {
			host := "localhost"
			if i > 0 {
				host = c30hosts[(i*3+k)%len(c30hosts)]
			}
			for _, p := range []string{"/", "/excluded_files.html", "/open_search.xml"} {
				st.judgePage(l.Addr().String(), cfg, p, host, true)
			}
		}
		for n, want := range st.assets {
			if r.Intn(8) == 0 {
				a, err := rawGet(l.Addr().String(), "GET", (&url.URL{Path: "/" + n}).EscapedPath(), "h", nil)
				if err != nil || a.Code != 200 || !bytes.Equal(a.Body, want) {
					t.Violate("dev-asset", nil, "development mode, asset %s: %v %d", n, err, a.Code)
				}
			}
		}
		srv.Close()
		t.Count("dev_servers", 1)
	}
}

// xmlOutside checks what Go's decoder leaves open: nothing but white space,
// comments and processing instructions surrounds the one root element, and a
// declaration stands at the very start.
func xmlOutside(b []byte) string {
	d := xml.NewDecoder(bytes.NewReader(b))
	depth, roots := 0, 0
	for {
		at := d.InputOffset()
		tk, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return err.Error()
		}
		switch x := tk.(type) {
		case xml.StartElement:
			if depth == 0 {
				roots++
			}
			depth++
		case xml.EndElement:
			depth--
		case xml.CharData:
			if depth == 0 && len(bytes.TrimSpace(x)) > 0 {
				return fmt.Sprintf("text %q outside of the root element", clip(string(x)))
			}
		case xml.ProcInst:
			if x.Target == "xml" && at != 0 {
				return "a declaration that is not at the start"
			}
		}
	}
	if roots != 1 {
		return fmt.Sprintf("%d root elements", roots)
	}
	return ""
}
