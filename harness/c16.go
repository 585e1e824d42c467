package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"mime/multipart"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/hound-search/hound/api"
	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
)

func init() {
	register(&Check{ID: "C16", Fn: c16,
		Rule:   "the real API handlers behind a real TCP server are sent generated requests over raw connections (kept alive and pipelined): every endpoint and near-miss path, every method, parameters in the URL, in urlencoded and multipart bodies, absent, repeated, malformed (broken percent escapes, semicolons, signs, blanks, hexadecimal, beyond any integer), patterns that do not parse, nest deeply or are huge, webhook bodies that are broken, truncated, of other types or very large, clients that go away in the middle; every answer must be complete, of the documented status and shape, and equal to what the searcher itself returns for the parameters as documented; fixed probe requests must be answered the same throughout; non-trivial = distinct (endpoint, method, parameter classes, status)",
		Assume: []string{"a negative or signed number may be taken as malformed or as out of range, and a repeated parameter as any of its values: the documentation does not say"},
	})
}

func c16(t *T) {
	t.Par(t.N(6, 120), 3, func(i int) { c16server(t, i) })
	c16big(t)
	for _, k := range []string{"search_compared", "status_404", "status_403", "status_405", "status_400", "search_errors", "ctx_clamped", "excludes_compared"} {
		if t.Counter(k) == 0 {
			t.Inconclusive("nothing observed for %s", k)
		}
	}
}

type c16lab struct {
	t     *T
	ss    map[string]*searcher.Searcher
	names []string
	push  map[string]bool
	addr  string
	def   int // configured result limit
	logs  *lockedBuf
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

// one request and what it must be answered with
type c16req struct {
	method, path string // path without the query
	rawq         string
	hdr          [][2]string
	body         []byte
	chunked      bool
	cls          string // what is special about it
	// values in effect; several when any of them may be taken
	par   map[string][]string
	loose bool // only well-formedness is decided
	judge func(code int, h http.Header, body []byte) string
}

func (q *c16req) String() string {
	s := q.method + " " + q.path
	if q.rawq != "" {
		s += "?" + q.rawq
	}
	if len(q.body) > 0 {
		s += fmt.Sprintf(" body %q", head(q.body, 200))
	}
	return clip(s)
}

func (q *c16req) wire() []byte {
	var b bytes.Buffer
	target := q.path
	if q.rawq != "" {
		target += "?" + q.rawq
	}
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: hound.example\r\n", q.method, target)
	for _, h := range q.hdr {
		fmt.Fprintf(&b, "%s: %s\r\n", h[0], h[1])
	}
	if q.chunked {
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		for d := q.body; len(d) > 0; {
			n := len(d)
			if n > 700 {
				n = 700
			}
			fmt.Fprintf(&b, "%x\r\n%s\r\n", n, d[:n])
			d = d[n:]
		}
		b.WriteString("0\r\n\r\n")
	} else {
		if len(q.body) > 0 || q.method == "POST" || q.method == "PUT" {
			fmt.Fprintf(&b, "Content-Length: %d\r\n", len(q.body))
		}
		b.WriteString("\r\n")
		b.Write(q.body)
	}
	return b.Bytes()
}

// --- strict shapes

type c16match struct {
	Line       *string
	LineNumber *int
	Before     *[]string
	After      *[]string
}
type c16file struct {
	Filename      *string
	Matches       *[]c16match
	AutoGenerated *bool
}
type c16result struct {
	Matches        *[]c16file
	FilesWithMatch *int
	Revision       *string
}
type c16answer struct {
	Results *map[string]*c16result
	Stats   *struct{ FilesOpened, Duration *int }
}

func strictJSON(b []byte, v interface{}) error {
	d := json.NewDecoder(bytes.NewReader(b))
	d.DisallowUnknownFields()
	if err := d.Decode(v); err != nil {
		return err
	}
	if _, err := d.Token(); err != io.EOF {
		return fmt.Errorf("something follows the JSON value")
	}
	return nil
}

func errorObject(b []byte) (string, error) {
	var e struct{ Error *string }
	if err := strictJSON(b, &e); err != nil {
		return "", err
	}
	if e.Error == nil || *e.Error == "" {
		return "", fmt.Errorf("no Error")
	}
	return *e.Error, nil
}

func wantError(want ...int) func(int, http.Header, []byte) string {
	return func(code int, h http.Header, b []byte) string {
		ok := false
		for _, w := range want {
			ok = ok || w == code
		}
		if !ok {
			return fmt.Sprintf("status %d, want %v", code, want)
		}
		if b == nil { // HEAD
			return ""
		}
		if _, err := errorObject(b); err != nil {
			return fmt.Sprintf("status %d with body %q, not an Error object: %v", code, head(b, 200), err)
		}
		return ""
	}
}

func wantOK(code int, h http.Header, b []byte) string {
	var s string
	if code != 200 {
		return fmt.Sprintf("status %d, want 200 (body %q)", code, head(b, 200))
	}
	if err := strictJSON(b, &s); err != nil || s != "ok" {
		return fmt.Sprintf("body %q, want \"ok\"", head(b, 200))
	}
	return ""
}

// --- reference for the parameters

func refBool(v string) bool {
	v = strings.ToLower(v)
	return v == "true" || v == "1" || v == "fosho"
}

func digitsOnly(v string) bool {
	if v == "" {
		return false
	}
	for _, c := range []byte(v) {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

// value of a run of digits, cut at max
func digitsValue(v string, max int) int {
	n := 0
	for _, c := range []byte(v) {
		n = n*10 + int(c-'0')
		if n > max {
			return max
		}
	}
	return n
}

func signed(v string) bool {
	return len(v) > 1 && (v[0] == '-' || v[0] == '+') && digitsOnly(v[1:])
}

func refCtx(v string) []uint {
	switch {
	case digitsOnly(v):
		return []uint{uint(digitsValue(v, 20))}
	case signed(v) && v[0] == '+':
		return []uint{2, uint(digitsValue(v[1:], 20))}
	case signed(v):
		return []uint{2, 0}
	}
	return []uint{2}
}

func refLimit(v string, def int) []int {
	switch {
	case digitsOnly(v):
		return []int{digitsValue(v, 100000)}
	case signed(v) && v[0] == '+':
		return []int{def, digitsValue(v[1:], 100000)}
	case signed(v):
		return []int{0, def}
	}
	return []int{def}
}

func refRng(v string) (out [][2]int) {
	const huge = 1 << 50
	p := strings.SplitN(v, ":", 2)
	if len(p) < 2 {
		return [][2]int{{0, 0}}
	}
	part := func(s string) []int {
		switch {
		case digitsOnly(s):
			return []int{digitsValue(s, huge)}
		case signed(s) && s[0] == '+':
			return []int{0, digitsValue(s[1:], huge)}
		}
		return []int{0}
	}
	for _, a := range part(p[0]) {
		for _, b := range part(p[1]) {
			out = append(out, [2]int{a, b})
		}
	}
	return
}

func pick(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

var c16num = []string{"", "0", "1", "2", "3", "19", "20", "21", "22", "100", "99999", "100000", "100001", "4294967296", "9007199254740993", "18014398509481983", "18014398509481984", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "007", "-1", "-2", "+3", "-99999999999999999999", "x", "3x", " 3", "3 ", "0x3", "3.0", "3e1", "1_0", "٣", "NaN", "true", "\x00", "--3", "3,4"}

var c16pats = []string{"foo", "b", "", "(", "a(b", "[z-a]", "x{5000}", "(?z)", "*a", "\\", "a**", "(?i)FOO", "a|b|", "\\C", "[[:foo:]]", "\\8", "^$", "\\bfoo\\b", "(((((x)))))", ".*", "\\p{Nope}", "\\p{Greek}", "a\x00b", "\xff\xfe", "é", "%", "a\nb", "(?P<n>a)(?P<n>b)"}

func (l *c16lab) gen(r *rand.Rand) *c16req {
	switch r.Intn(12) {
	case 0, 1, 2, 3, 4, 5:
		return l.genSearch(r)
	case 6:
		q := &c16req{method: pick(r, "GET", "GET", "HEAD", "POST"), path: "/api/v1/excludes", cls: "excludes"}
		nm := l.someName(r)
		l.params(r, q, [][2]string{{"repo", nm}})
		q.judge = func(code int, h http.Header, b []byte) string {
			sawUnknown := false
			for _, nm := range q.par["repo"] {
				s := l.ss[nm]
				if s == nil {
					sawUnknown = true
					continue
				}
				if code == 200 && (b == nil || string(b) == s.GetExcludedFiles()) {
					var fs []struct{ Filename, Reason *string }
					if b != nil && strictJSON(b, &fs) != nil {
						return fmt.Sprintf("body %q is not a list of excluded files", head(b, 200))
					}
					l.t.Count("excludes_compared", 1)
					return ""
				}
			}
			if sawUnknown {
				return wantError(404)(code, h, b)
			}
			return fmt.Sprintf("status %d, body %q for a repository that exists", code, head(b, 200))
		}
		return q
	case 7:
		q := &c16req{method: pick(r, "GET", "GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "X"), path: "/api/v1/repos", cls: "repos"}
		if r.Intn(2) == 0 {
			q.rawq = pick(r, "a=b", "%zz", ";;", "&&&&", "=", "repos=*")
		}
		q.judge = func(code int, h http.Header, b []byte) string {
			if code != 200 {
				return fmt.Sprintf("status %d, want 200", code)
			}
			if b == nil {
				return ""
			}
			var m map[string]map[string]interface{}
			if err := strictJSON(b, &m); err != nil {
				return fmt.Sprintf("body %q: %v", head(b, 200), err)
			}
			if len(m) != len(l.ss) {
				return fmt.Sprintf("%d repositories listed, want %d", len(m), len(l.ss))
			}
			for nm, s := range l.ss {
				e := m[nm]
				if e == nil || e["url"] != s.Repo.Url || e["vcs"] != s.Repo.Vcs {
					return fmt.Sprintf("entry of %q is %v", nm, e)
				}
			}
			return ""
		}
		return q
	case 8, 9:
		q := &c16req{method: pick(r, "POST", "POST", "POST", "POST", "GET", "HEAD", "PUT", "DELETE", "PATCH", "post", "OPTIONS"), path: "/api/v1/update", cls: "update"}
		v := ""
		switch r.Intn(8) {
		case 0:
			v = pick(r, "*", " * ", "\t*")
		case 1:
			v = ""
		default:
			var ns []string
			for k := 1 + r.Intn(3); k > 0; k-- {
				ns = append(ns, l.someName(r))
			}
			v = strings.Join(ns, ",")
		}
		l.params(r, q, [][2]string{{"repos", v}})
		q.judge = func(code int, h http.Header, b []byte) string {
			if q.method != "POST" {
				return wantError(405)(code, h, b)
			}
			var why string
			for _, v := range q.par["repos"] {
				names := strings.Split(v, ",")
				if strings.TrimSpace(v) == "*" {
					names = l.names
				}
				var bad []int
				for _, nm := range names {
					if nm == "" {
						continue
					}
					if l.ss[nm] == nil {
						bad = append(bad, 404)
					} else if !l.push[nm] {
						bad = append(bad, 403)
					}
				}
				if len(bad) == 0 {
					why = wantOK(code, h, b)
				} else {
					why = wantError(bad...)(code, h, b)
				}
				if why == "" {
					return ""
				}
			}
			return why
		}
		return q
	case 10:
		return l.genHook(r)
	default:
		q := &c16req{method: pick(r, "GET", "POST", "HEAD", "DELETE"), loose: true, cls: "path"}
		q.path = pick(r, "/api/v1/", "/api/v1/search/", "/api/v1/Search", "//api/v1/search", "/api/v1/../v1/search", "/api/v1/%73earch", "/api/v2/search", "/api", "/", "/api/v1/search%00", "/api/v1/repos/x", "*", "http://other/api/v1/repos", "/api/v1/excludes/../search")
		if q.path == "*" {
			q.method = "OPTIONS"
		}
		q.rawq = pick(r, "", "q=foo&repos=*", "%", "q=%zz")
		if q.path == "*" {
			q.rawq = ""
		}
		return q
	}
}

func (l *c16lab) someName(r *rand.Rand) string {
	if r.Intn(4) == 0 {
		return pick(r, "nope", "", "*x", " r0", "r0 ", "R0", "../r0", "r0\x00", "\xff", "<script>", strings.Repeat("n", 3000), "%2e")
	}
	return l.names[r.Intn(len(l.names))]
}

// params puts the parameters into the request, in one of the places they may
// be in, and notes which values are in effect.
func (l *c16lab) params(r *rand.Rand, q *c16req, kv [][2]string) {
	q.par = map[string][]string{}
	var pairs []string
	for _, p := range kv {
		k, v := p[0], p[1]
		enc := url.QueryEscape(v)
		if r.Intn(6) == 0 { // everything escaped
			var b strings.Builder
			for _, c := range []byte(v) {
				fmt.Fprintf(&b, "%%%02x", c)
			}
			enc = b.String()
		}
		q.par[k] = append(q.par[k], v)
		pairs = append(pairs, url.QueryEscape(k)+"="+enc)
	}
	switch r.Intn(14) {
	case 0: // a parameter that cannot be decoded is not there
		pairs = append(pairs, pick(r, "%zz=1", "zz=%", "a;b=1", "=", "", "&", "%%%", "x=%u0041"))
		q.cls += "+junk"
	case 1:
		if len(kv) > 0 {
			i := r.Intn(len(kv))
			v := pick(r, "1", "r0", "", "20", "foo")
			q.par[kv[i][0]] = append(q.par[kv[i][0]], v)
			pairs = append(pairs, url.QueryEscape(kv[i][0])+"="+url.QueryEscape(v))
			q.cls += "+dup"
		}
	case 2:
		if len(kv) > 0 { // the value of one is broken
			i := r.Intn(len(kv))
			pairs[i] = url.QueryEscape(kv[i][0]) + "=" + pick(r, "%", "%z", "%fg", "a;b")
			q.par[kv[i][0]] = []string{""}
			q.cls += "+broken"
		}
	}
	r.Shuffle(len(pairs), func(i, j int) {
		// the order of repeated parameters does not matter: any may be taken
		pairs[i], pairs[j] = pairs[j], pairs[i]
	})
	enc := strings.Join(pairs, "&")
	bodyOK := q.method == "POST" || q.method == "PUT" || q.method == "PATCH"
	switch {
	case bodyOK && r.Intn(3) == 0:
		q.body = []byte(enc)
		q.hdr = append(q.hdr, [2]string{"Content-Type", pick(r, "application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8")})
		q.chunked = r.Intn(3) == 0
		q.cls += "+form"
	case q.method == "POST" && r.Intn(3) == 0 && !strings.Contains(q.cls, "+"):
		var b bytes.Buffer
		w := multipart.NewWriter(&b)
		for _, p := range kv {
			w.WriteField(p[0], p[1])
		}
		w.Close()
		q.body = b.Bytes()
		q.hdr = append(q.hdr, [2]string{"Content-Type", w.FormDataContentType()})
		q.cls += "+multipart"
		for _, p := range kv { // a line feed or an invalid header text may not survive
			if strings.ContainsAny(p[0]+p[1], "\r\n") {
				q.par[p[0]] = append(q.par[p[0]], strings.ReplaceAll(p[1], "\r\n", "\n"))
			}
		}
		if r.Intn(3) == 0 { // cut short, or the boundary does not occur
			q.loose = true
			if r.Intn(2) == 0 {
				q.body = q.body[:r.Intn(len(q.body))]
			} else {
				q.hdr = [][2]string{{"Content-Type", pick(r, "multipart/form-data", "multipart/form-data; boundary=nope", "multipart/form-data; boundary=", "multipart/mixed; boundary=x")}}
			}
			q.cls += "+broken"
		}
	default:
		q.rawq = enc
		if bodyOK && r.Intn(3) == 0 {
			q.hdr = append(q.hdr, [2]string{"Content-Type", pick(r, "", "text/plain", "application/json", "nonsense;;=", "application/octet-stream")})
			q.body = []byte(strings.Repeat("junk&", r.Intn(200)))
			q.cls += "+otherbody"
		}
	}
}

func (l *c16lab) genSearch(r *rand.Rand) *c16req {
	q := &c16req{method: pick(r, "GET", "GET", "GET", "GET", "POST", "POST", "HEAD", "PUT"), path: "/api/v1/search", cls: "search"}
	var kv [][2]string
	add := func(k string, p int, v string) {
		if r.Intn(p) == 0 {
			kv = append(kv, [2]string{k, v})
		}
	}
	add("stats", 2, pick(r, "1", "true", "fosho", "FoSho", "TRUE", "0", "", "yes", "2"))
	pat := c16pats[r.Intn(len(c16pats))]
	switch r.Intn(100) {
	case 0:
		pat = strings.Repeat("(", 100+r.Intn(3000))
	case 1:
		pat = strings.Repeat("(", 1500) + "a" + strings.Repeat(")", 1500)
	case 2:
		pat = strings.Repeat("ab", 2000+r.Intn(3000))
	case 3:
		pat = "(a{1000}){1000}"
	case 4:
		pat = strings.Repeat("(a|b|c)?", 60)
	}
	add("q", 1+r.Intn(8)/7, pat)
	var ns []string
	for k := 1 + r.Intn(3); k > 0; k-- {
		ns = append(ns, l.someName(r))
	}
	sel := strings.Join(ns, ",")
	if r.Intn(3) == 0 {
		sel = pick(r, "*", " *", "**", ",", "*,r0", ",,,", "")
	}
	add("repos", 1, sel)
	add("ctx", 2, c16num[r.Intn(len(c16num))])
	add("limit", 2, c16num[r.Intn(len(c16num))])
	a, b := c16num[r.Intn(len(c16num))], c16num[r.Intn(len(c16num))]
	if r.Intn(2) == 0 {
		a, b = fmt.Sprint(r.Intn(4)), fmt.Sprint(r.Intn(5))
	}
	add("rng", 2, pick(r, a+":"+b, a+":"+b, a+":"+b, a+":"+b, a, ":", a+":"+b+":1", "::", a+"-"+b))
	add("files", 4, pick(r, "", "d1", "f", "(", "[", ".*", "\xff", "x{2000}", "nope"))
	add("excludeFiles", 4, pick(r, "", "d1", "(", "5$", "[", "nope"))
	add("i", 3, pick(r, "1", "true", "fosho", "0", "nope", "TRUE"))
	add("literal", 4, pick(r, "1", "true", "fosho", "0", "", "on"))
	add(pick(r, "Q", "callback", "ctx[]", "__proto__", "limit "), 8, "5")
	l.params(r, q, kv)
	q.judge = func(code int, h http.Header, b []byte) string { return l.judgeSearch(q, code, b) }
	return q
}

// combos calls f with every assignment of the values in effect.
func combos(par map[string][]string, f func(get func(string) string) bool) bool {
	keys := sortedKeys(par)
	cur := map[string]string{}
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(keys) {
			return f(func(k string) string { return cur[k] })
		}
		vs := par[keys[i]]
		for _, v := range vs {
			cur[keys[i]] = v
			if rec(i + 1) {
				return true
			}
		}
		return false
	}
	return rec(0)
}

func (l *c16lab) judgeSearch(q *c16req, code int, b []byte) string {
	if code != 200 {
		return fmt.Sprintf("status %d, want 200 (body %q)", code, head(b, 200))
	}
	if b == nil {
		return ""
	}
	var ans c16answer
	gotErr, eerr := errorObject(b)
	if eerr != nil {
		if err := strictJSON(b, &ans); err != nil {
			return fmt.Sprintf("body %q is not a search answer: %v", head(b, 300), err)
		}
		if ans.Results == nil || *ans.Results == nil {
			return fmt.Sprintf("no Results in %q", head(b, 300))
		}
		for nm, res := range *ans.Results {
			if res == nil || res.Matches == nil || res.FilesWithMatch == nil || res.Revision == nil {
				return fmt.Sprintf("result of %q lacks a member: %q", nm, head(b, 300))
			}
			for _, f := range *res.Matches {
				if f.Filename == nil || f.Matches == nil || f.AutoGenerated == nil {
					return fmt.Sprintf("a file of %q lacks a member: %q", nm, head(b, 300))
				}
				for _, m := range *f.Matches {
					if m.Line == nil || m.LineNumber == nil || m.Before == nil || m.After == nil {
						return fmt.Sprintf("a match of %q lacks a member (context must be a list): %q", nm, head(b, 300))
					}
				}
			}
		}
	}
	if q.loose {
		return ""
	}
	why := ""
	combos(q.par, func(get func(string) string) bool {
		why = ""
		// the selection
		sel := map[string]bool{}
		if strings.TrimSpace(get("repos")) == "*" {
			for _, n := range l.names {
				sel[n] = true
			}
		} else {
			// blanks around the whole value carry no meaning
			for _, n := range strings.Split(strings.TrimSpace(get("repos")), ",") {
				if l.ss[n] != nil {
					sel[n] = true
				}
			}
		}
		for _, ctx := range refCtx(get("ctx")) {
			for _, lim := range refLimit(get("limit"), l.def) {
				for _, rng := range refRng(get("rng")) {
					opt := index.SearchOptions{IgnoreCase: refBool(get("i")), LiteralSearch: refBool(get("literal")), LinesOfContext: ctx,
						FileRegexp: get("files"), ExcludeFileRegexp: get("excludeFiles"), Offset: rng[0], Limit: rng[1], MaxResults: lim}
					why = l.compare(get("q"), opt, sel, refBool(get("stats")), gotErr, &ans)
					if why == "" {
						return true
					}
				}
			}
		}
		return false
	})
	return why
}

func (l *c16lab) compare(pat string, opt index.SearchOptions, sel map[string]bool, stats bool, gotErr string, ans *c16answer) string {
	t := l.t
	want := map[string]*index.SearchResponse{}
	var errs []string
	for nm := range sel {
		o := opt
		res, err := l.ss[nm].Search(pat, &o)
		if err != nil {
			errs = append(errs, err.Error())
			continue
		}
		if len(res.Matches) > 0 {
			want[nm] = res
		}
	}
	if len(errs) > 0 {
		if gotErr == "" {
			return fmt.Sprintf("the search fails with %q, but the answer is not an Error", errs[0])
		}
		t.Count("search_errors", 1)
		return ""
	}
	if gotErr != "" {
		return fmt.Sprintf("Error %q, but the search succeeds", clip(gotErr))
	}
	if stats != (ans.Stats != nil) {
		return fmt.Sprintf("stats asked for: %v, given: %v", stats, ans.Stats != nil)
	}
	if stats && (ans.Stats.FilesOpened == nil || ans.Stats.Duration == nil || *ans.Stats.Duration < 0) {
		return "incomplete Stats"
	}
	gb, _ := json.Marshal(ans.Results)
	wb, _ := json.Marshal(want)
	var g, w interface{}
	json.Unmarshal(gb, &g)
	json.Unmarshal(wb, &w)
	gb, _ = json.Marshal(g)
	wb, _ = json.Marshal(w)
	if !bytes.Equal(gb, wb) {
		return fmt.Sprintf("results are %s, want %s (for %q, options %+v)", clip(string(gb)), clip(string(wb)), clip(pat), opt)
	}
	t.Count("search_compared", 1)
	if opt.LinesOfContext == 20 {
		t.Count("ctx_clamped", 1)
	}
	return ""
}

func (l *c16lab) genHook(r *rand.Rand) *c16req {
	q := &c16req{method: pick(r, "POST", "POST", "POST", "POST", "POST", "GET", "HEAD", "PUT", "DELETE"), path: "/api/v1/github-webhook", cls: "webhook"}
	nm := l.someName(r)
	enc, _ := json.Marshal(nm)
	good := func() {
		json.Unmarshal(enc, &nm) // invalid UTF-8 does not survive JSON
		q.judge = func(code int, h http.Header, b []byte) string {
			switch {
			case q.method != "POST":
				return wantError(405)(code, h, b)
			case l.ss[nm] == nil:
				return wantError(404)(code, h, b)
			case !l.push[nm]:
				return wantError(403)(code, h, b)
			}
			return wantOK(code, h, b)
		}
	}
	bad := func(codes ...int) {
		q.judge = func(code int, h http.Header, b []byte) string {
			if q.method != "POST" {
				return wantError(405)(code, h, b)
			}
			return wantError(codes...)(code, h, b)
		}
	}
	// the other names in a webhook mean nothing here, whatever is called so
	other := func() string {
		b, _ := json.Marshal(pick(r, "x", l.someName(r), l.someName(r), sortedKeys(l.ss)[r.Intn(len(l.ss))]))
		return string(b)
	}
	full := `{"ref":` + other() + `,"name":` + other() + `,"repository":{"id":1,"name":` + other() + `,"html_url":` + other() + `,"full_name":` + string(enc) + `,"owner":{"login":"o"}},"pusher":null}`
	switch r.Intn(10) {
	case 0, 1, 2, 3:
		q.body = []byte(full)
		good()
	case 4:
		q.body = []byte(`{"repository":{"full_name":` + string(enc) + `},"pad":"` + strings.Repeat("p", 1<<20) + `"}`)
		q.cls += "+big"
		good()
	case 5:
		q.body = []byte(full[:r.Intn(len(full)-1)])
		q.cls += "+cut"
		bad(400)
	case 6:
		q.body = []byte(pick(r, "", "nonsense", "{", "{]", "[1,", "\xff\xfe", "payload=%7B%7D", "\x00", "{'a':1}", "nul"))
		q.cls += "+syntax"
		bad(400)
	case 7:
		q.body = []byte(pick(r, "[]", "5", `"x"`, "true", `{"repository":5}`, `{"repository":"x"}`, `{"repository":[]}`, `{"repository":{"full_name":5}}`, `{"repository":{"full_name":{}}}`))
		q.cls += "+type"
		bad(400)
	case 8:
		q.body = []byte(pick(r, "null", "{}", `{"repository":null}`, `{"repository":{}}`, `{"repository":{"full_name":null}}`, `{"repository":{"full_name":""}}`,
			`{"repository":{"name":`+other()+`}}`, `{"full_name":`+other()+`}`, `{"repository":{"name":`+other()+`,"full_name":""}}`, `{"repository":{"owner":{"full_name":`+other()+`}}}`))
		q.cls += "+empty"
		bad(400, 404)
	default:
		q.body = []byte(strings.Repeat(`{"repository":`, 1000+r.Intn(30000)))
		q.cls += "+deep"
		bad(400)
	}
	q.chunked = r.Intn(3) == 0 && len(q.body) > 0
	if r.Intn(3) == 0 {
		q.hdr = append(q.hdr, [2]string{"Content-Type", pick(r, "application/json", "application/x-www-form-urlencoded", "text/plain", "multipart/form-data; boundary=x", "")})
	}
	if r.Intn(8) == 0 {
		q.rawq = pick(r, "a=b", "%zz", "x;y")
	}
	return q
}

func c16server(t *T, i int) {
	r := t.Rng("server", i)
	l := &c16lab{t: t, push: map[string]bool{}, def: []int{5000, 3, 10}[i%3], logs: &lockedBuf{}}
	repos := map[string]*config.Repo{}
	for k := 0; k < 4; k++ {
		nm := []string{"r0", "org/repo", "é x", "r3"}[k]
		tr := Tree{}
		for j := 0; j < 3+r.Intn(5); j++ {
			tr[fmt.Sprintf("d%d/f%d", j%3, j)] = genText(r, Style{Unicode: true}, 25) + strings.Repeat("foo b\nx\n", 1+r.Intn(12))
		}
		tr["bin"] = "\xff\x00"
		rem := newRemote(fmt.Sprintf("c16-%d-%d", i, k), func(int) Tree { return tr })
		defer rem.drop()
		push := k%2 == 0 || k == 1
		repos[nm] = fakeRepo(rem, repoOpt{ms: 3600000, push: push})
		l.push[nm] = push
		l.names = append(l.names, nm)
	}
	db := t.Dir("db")
	defer os.RemoveAll(db)
	ss, errs, err := searcher.MakeAll(&config.Config{DbPath: db, Title: "T", Repos: repos, MaxConcurrentIndexers: 2, HealthCheckURI: "/healthz", ResultLimit: l.def})
	if err != nil || len(errs) > 0 {
		t.Violate("startup", nil, "startup failed: %v %v", err, errs)
		return
	}
	defer func() {
		for _, s := range ss {
			s.Stop()
		}
		for _, s := range ss {
			s.Wait()
		}
	}()
	l.ss = ss
	m := http.NewServeMux()
	api.Setup(m, ss, l.def)
	srv := httptest.NewUnstartedServer(m)
	srv.Config.ErrorLog = log.New(l.logs, "", 0)
	srv.Start()
	defer srv.Close()
	l.addr = srv.Listener.Addr().String()

	// probes whose answers must stay the same
	probe := func() string {
		out := ""
		for _, u := range []string{"/api/v1/repos", "/api/v1/search?repos=*&q=foo", "/api/v1/search?repos=r0&q=b&rng=1:2&ctx=1", "/api/v1/excludes?repo=r3", "/api/v1/search?repos=*&q=("} {
			code, b, err := getBody(http.DefaultClient, srv.URL+u)
			out += fmt.Sprintf("%s -> %d %v %s\n", u, code, err, b)
		}
		return out
	}
	first := probe()
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			l.client(t.Rng("client", i, w), t.N(300, 1500), fmt.Sprintf("%d.%d", i, w))
		}(w)
	}
	wg.Wait()
	if p := probe(); p != first {
		t.Violate("later-answer", map[string]string{"before": first, "after": p}, "the answers to fixed requests changed:\n%s\nnow\n%s", clip(first), clip(p))
	}
	if s := l.logs.String(); strings.Contains(s, "panic serving") && !strings.Contains(s, "Failed to encode JSON") {
		t.Violate("panic", nil, "a handler panicked: %s", head([]byte(s), 1500))
	}
}

// client sends requests over raw connections, several at a time.
func (l *c16lab) client(r *rand.Rand, n int, who string) {
	t := l.t
	for k := 0; k < n && !t.Stop(); {
		c, err := net.Dial("tcp", l.addr)
		if err != nil {
			t.Violate("connect", nil, "connecting: %v", err)
			return
		}
		br := bufio.NewReaderSize(c, 1<<16)
		for more := true; more && k < n && !t.Stop(); {
			if r.Intn(25) == 0 { // a client that goes away
				b := l.gen(r).wire()
				c.Write(b[:r.Intn(len(b))])
				if r.Intn(2) == 0 {
					c.(*net.TCPConn).SetLinger(0)
				}
				t.Count("clients_gone", 1)
				break
			}
			var batch []*c16req
			var wire []byte
			for j := 1 + r.Intn(4); j > 0; j-- {
				q := l.gen(r)
				batch = append(batch, q)
				wire = append(wire, q.wire()...)
				if q.loose { // the server may close after it
					break
				}
			}
			k += len(batch)
			t.Current("C16 client %s: %v", who, batch)
			c.SetDeadline(time.Now().Add(60 * time.Second))
			go c.Write(wire)
			for _, q := range batch {
				t.Eval(1)
				resp, err := http.ReadResponse(br, &http.Request{Method: strings.ToUpper(q.method)})
				if err != nil {
					t.Violate("dropped", q.String(), "%s: the connection ended without an answer: %v; server log %s", q, err, clip(l.logs.String()))
					more = false
					break
				}
				body, err := io.ReadAll(resp.Body)
				resp.Body.Close()
				if err != nil {
					t.Violate("incomplete", q.String(), "%s: the answer is incomplete: %v", q, err)
					more = false
					break
				}
				if q.method == "HEAD" {
					body = nil
				} else if body == nil {
					body = []byte{}
				}
				t.Count(fmt.Sprintf("status_%d", resp.StatusCode), 1)
				why := ""
				if resp.StatusCode >= 500 {
					why = fmt.Sprintf("status %d: %q", resp.StatusCode, head(body, 200))
				} else if strings.HasPrefix(q.path, "/api/v1/") && q.cls != "path" {
					if ct := resp.Header.Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
						why = fmt.Sprintf("content type %q (status %d, body %q)", ct, resp.StatusCode, head(body, 200))
					}
				}
				if why == "" && q.judge != nil {
					if q.loose && body != nil && !strings.HasPrefix(q.cls, "search") {
						var v interface{}
						if err := strictJSON(body, &v); err != nil {
							why = fmt.Sprintf("body %q: %v", head(body, 200), err)
						}
					} else {
						why = q.judge(resp.StatusCode, resp.Header, body)
					}
				}
				if why != "" {
					t.Violate("answer:"+q.cls, map[string]string{"request": string(head(q.wire(), 2000)), "answer": head(body, 1000)}, "%s: %s", q, why)
				}
				t.Distinct(q.cls, q.method, resp.StatusCode, len(q.par), r.Intn(1))
				if resp.Close {
					more = false
					break
				}
			}
			if r.Intn(6) == 0 {
				more = false
			}
		}
		c.Close()
	}
}

// c16big: more matches than the greatest limit.
func c16big(t *T) {
	const lines = 100200
	var b strings.Builder
	for k := 0; k < lines; k++ {
		b.WriteString("m\n")
	}
	tr := Tree{"a": b.String()[:2*60000], "b": b.String()[2*60000:]}
	rem := newRemote("c16-big", func(int) Tree { return tr })
	defer rem.drop()
	db := t.Dir("db")
	defer os.RemoveAll(db)
	lab, err := newLab(t, db, 1, map[string]*config.Repo{"big": fakeRepo(rem, repoOpt{ms: 3600000})})
	if err != nil || len(lab.Errs) > 0 {
		t.Violate("startup", nil, "startup failed: %v", err)
		return
	}
	defer lab.Close()
	for _, c := range []struct {
		lim  string
		want int
	}{{"99999", 99999}, {"100000", 100000}, {"100001", 100000}, {"100100", 100000}, {"99999999999999999999", 100000}, {"7", 7}, {"", 100000}, {"x", 100000}} {
		t.Eval(1)
		v := url.Values{"ctx": {"0"}}
		if c.lim != "" {
			v.Set("limit", c.lim)
		}
		a, err := lab.Search("big", "m", v)
		if err != nil || a.Error != "" || a.Results["big"] == nil {
			t.Violate("big", c.lim, "limit=%s: %v", c.lim, err)
			return
		}
		n := len(flatten(a.Results["big"].Matches))
		t.Max("most_matches_in_one_answer", int64(n))
		if n != c.want {
			t.Violate("limit-clamp", c.lim, "limit=%q yields %d matches of %d, want %d", c.lim, n, lines, c.want)
		}
		t.Distinct("big", c.lim)
	}
}
