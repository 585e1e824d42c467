package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/vcs"
)

func init() {
	register(&Check{ID: "C19", Fn: c19,
		Rule:   "generated configuration files (every option present or absent at every level; any keys and JSON values, incl. null, nested, large and fractional numbers and non-ASCII strings, in global and repository vcs-config for any mix of types; several repositories per type; absolute, relative and absent dbpath, configuration files named by absolute and relative paths), loaded by the real loader and by a reference that reads the raw JSON; every option of every repository, the merged vcs-config value by value, and what the drivers make of it are compared; several files are loaded at the same time; non-trivial = distinct (levels at which a key is present, type) and distinct option subsets",
		Assume: []string{"an option that is present with its zero value (0, \"\") is not generated where the loader cannot tell it from an absent one"},
	})
}

func c19(t *T) {
	wd, _ := os.Getwd()
	t.Par(t.N(3000, 200000), 0, func(i int) { c19one(t, i, wd) })
	if t.Counter("values_compared") == 0 {
		t.Inconclusive("nothing was loaded")
	}
}

var c19keys = []string{"ref", "detect-ref", "username", "password", "watch-changes", "ignored-files", "x", "é", "Ref", "a b", ""}

func c19value(r *rand.Rand, key string) interface{} {
	switch key {
	case "ref", "username", "password":
		return []string{"", "main", "dev<&>", "p\"w\\", "日本", "\u2028"}[r.Intn(6)]
	case "detect-ref", "watch-changes":
		return r.Intn(2) == 0
	case "ignored-files":
		return []interface{}{"a", fmt.Sprint(r.Intn(9))}[:r.Intn(3)]
	case "Ref": // encoding/json matches keys without regard to case
		return "Main"
	}
	switch r.Intn(9) {
	case 0:
		return nil
	case 1:
		return json.Number(fmt.Sprint(r.Int63()))
	case 2:
		return json.Number("0.1")
	case 3:
		return json.Number("12345678901234567890123")
	case 4:
		return map[string]interface{}{"k": json.Number("1"), "l": []interface{}{nil, true}}
	case 5:
		return "s" + fmt.Sprint(r.Intn(100))
	case 6:
		return false
	case 7:
		return []interface{}{}
	default:
		return json.Number("1e400")
	}
}

func c19map(r *rand.Rand) M {
	m := M{}
	for _, k := range c19keys {
		if r.Intn(3) == 0 {
			if (k == "Ref" && m["ref"] != nil) || r.Intn(8) == 0 && k == "ref" {
				continue
			}
			m[k] = c19value(r, k)
		}
	}
	return m
}

func jsonOf(v interface{}) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.Encode(v)
	return bytes.TrimSpace(b.Bytes())
}

// rawValue decodes without loss.
func rawValue(b []byte) (v interface{}, err error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	err = d.Decode(&v)
	return
}

func c19one(t *T, i int, wd string) {
	r := t.Rng("case", i)
	types := []string{"", "git", "hg", "svn", "local", "bzr", "mercurial", "subversion"}
	raw := M{}
	maybe := func(m M, k string, v interface{}) bool {
		if r.Intn(2) == 0 {
			m[k] = v
			return true
		}
		return false
	}
	maybe(raw, "max-concurrent-indexers", 1+r.Intn(40))
	maybe(raw, "title", []string{"My <Hound>", "é", "t", "  ", " t ", "$HOME ${x} $$", "%s %d", "{{.}}", "\\n"}[r.Intn(9)])
	maybe(raw, "health-check-uri", "/"+fmt.Sprint(r.Intn(9)))
	maybe(raw, "result-limit", 1+r.Intn(10000))
	dbp := []string{"data", "../up/x", "a/../b", ".", "/abs/dir", "sp ace/é", "./x//y", "$HOME/db", "${PATH}", "~", "~/db", "%d", "a$b/$$", "a:b", "file:c", "-x", "#x", "*", "{dir}", strings.Repeat("long", 60)}[r.Intn(20)]
	maybe(raw, "dbpath", dbp)
	glob := M{}
	for _, ty := range types[1:] {
		if r.Intn(3) == 0 {
			glob[ty] = c19map(r)
		} else if r.Intn(12) == 0 {
			glob[ty] = nil
		}
	}
	if len(glob) > 0 || r.Intn(3) == 0 {
		raw["vcs-config"] = glob
	}
	repos := M{}
	for k, n := 0, r.Intn(7); k < n; k++ {
		rp := M{"url": []string{"https://h/0", "https://h/1", "git@h:x/y.git", "file:///a b/$c", "HTTPS://H/X/", "h/%20?a=1#b", "../rel", "~x", "$URL", " s "}[r.Intn(10)]}
		maybe(rp, "display-name", []string{"name", "", " x ", "$x", "a/b"}[r.Intn(5)])
		maybe(rp, "ms-between-poll", 1+r.Intn(100000))
		if ty := types[r.Intn(len(types))]; ty != "" {
			rp["vcs"] = ty
		}
		if r.Intn(3) > 0 {
			rp["vcs-config"] = c19map(r)
		} else if r.Intn(6) == 0 {
			rp["vcs-config"] = nil
		}
		if r.Intn(2) == 0 {
			up := M{}
			maybe(up, "base-url", []string{"{url}/x/{rev}", "$x/{path}{anchor}", "{url}"}[r.Intn(3)])
			maybe(up, "anchor", []string{"#{line}", "#$x{filename}"}[r.Intn(2)])
			rp["url-pattern"] = up
		}
		maybe(rp, "exclude-dot-files", r.Intn(2) == 0)
		maybe(rp, "enable-poll-updates", r.Intn(2) == 0)
		maybe(rp, "enable-push-updates", r.Intn(2) == 0)
		maybe(rp, "auto-generated-files", []string{"a", "b/c"}[:r.Intn(3)])
		repos[fmt.Sprintf("r%d", k)] = rp
	}
	raw["repos"] = repos
	text := jsonOf(raw)
	if r.Intn(3) == 0 {
		var b bytes.Buffer
		json.Indent(&b, text, "", "\t")
		text = b.Bytes()
	}
	dir := t.Dir("c")
	defer os.RemoveAll(dir)
	sub := filepath.Join(dir, []string{"", "conf", "é x"}[r.Intn(3)])
	os.MkdirAll(sub, 0755)
	file := filepath.Join(sub, "config.json")
	os.WriteFile(file, text, 0644)
	name := file
	if r.Intn(2) == 0 {
		name, _ = filepath.Rel(wd, file)
	}
	data := map[string]interface{}{"config": string(text)}
	t.Current("C19 %s", text)
	t.Eval(1)
	var cfg config.Config
	var err error
	if !t.Guard("panic", data, func() { err = cfg.LoadFromFile(name) }) {
		return
	}
	if err != nil {
		t.Violate("error", data, "loading %s: %v", clip(string(text)), err)
		return
	}
	bad := func(what string, got, want interface{}) {
		t.Violate("option:"+what, data, "%s is %#v, want %#v; configuration %s", what, got, want, text)
	}
	eq := func(what string, got, want interface{}) {
		t.Count("values_compared", 1)
		if !reflect.DeepEqual(got, want) {
			bad(what, got, want)
		}
	}
	get := func(m M, k string, def interface{}) interface{} {
		if v, ok := m[k]; ok {
			return v
		}
		return def
	}
	eq("max-concurrent-indexers", cfg.MaxConcurrentIndexers, get(raw, "max-concurrent-indexers", 2))
	eq("title", cfg.Title, get(raw, "title", "Hound"))
	eq("health-check-uri", cfg.HealthCheckURI, get(raw, "health-check-uri", "/healthz"))
	eq("result-limit", cfg.ResultLimit, get(raw, "result-limit", 5000))
	wantDb := get(raw, "dbpath", "").(string)
	if !strings.HasPrefix(wantDb, "/") {
		wantDb = filepath.Join(sub, wantDb)
	}
	eq("dbpath", filepath.Clean(cfg.DbPath), filepath.Clean(wantDb))
	if !filepath.IsAbs(cfg.DbPath) {
		bad("dbpath", cfg.DbPath, wantDb)
	}
	if len(cfg.Repos) != len(repos) {
		bad("repos", len(cfg.Repos), len(repos))
		return
	}
	t.Distinct("options", fmt.Sprint(sortedKeys(raw)), len(repos))
	for _, rn := range sortedKeys(repos) {
		rp := repos[rn].(M)
		got := cfg.Repos[rn]
		if got == nil {
			bad("repo "+rn, nil, rp)
			return
		}
		eq("url", got.Url, rp["url"])
		eq("display-name", got.DisplayName, get(rp, "display-name", ""))
		eq("ms-between-poll", got.MsBetweenPolls, get(rp, "ms-between-poll", 30000))
		ty := get(rp, "vcs", "git").(string)
		eq("vcs", got.Vcs, ty)
		eq("exclude-dot-files", got.ExcludeDotFiles, get(rp, "exclude-dot-files", false))
		eq("enable-poll-updates", got.PollUpdatesEnabled(), get(rp, "enable-poll-updates", true))
		eq("enable-push-updates", got.PushUpdatesEnabled(), get(rp, "enable-push-updates", false))
		auto, _ := get(rp, "auto-generated-files", []string(nil)).([]string)
		eq("auto-generated-files", fmt.Sprint(got.AutoGeneratedFiles), fmt.Sprint(auto))
		up, _ := rp["url-pattern"].(M)
		if got.UrlPattern == nil {
			bad("url-pattern", nil, up)
			return
		}
		eq("base-url", got.UrlPattern.BaseUrl, get(up, "base-url", "{url}/blob/{rev}/{path}{anchor}"))
		eq("anchor", got.UrlPattern.Anchor, get(up, "anchor", "#L{line}"))

		// vcs-config
		own, hasOwn := rp["vcs-config"].(M)
		gl, hasGl := glob[ty].(M)
		want := M{}
		for k, v := range gl {
			want[k] = v
		}
		for k, v := range own {
			want[k] = v
		}
		b := got.VcsConfig()
		if !hasOwn && !hasGl {
			if len(b) > 0 && string(b) != "{}" && string(b) != "null" {
				bad("vcs-config of "+rn, string(b), "nothing")
			}
			continue
		}
		gv, err := rawValue(b)
		wv, _ := rawValue(jsonOf(want))
		t.Count("vcs_configs_compared", 1)
		if err != nil || !reflect.DeepEqual(gv, wv) {
			bad("vcs-config of "+rn+" ("+ty+")", string(b), string(jsonOf(want)))
			return
		}
		for _, k := range c19keys {
			_, o := own[k]
			_, g := gl[k]
			t.Distinct("key", k, o, g, ty, len(repos))
		}
		// what the driver makes of it
		w, err := vcs.New(ty, b)
		if err != nil {
			bad("driver of "+rn, err, string(b))
			return
		}
		if g, ok := w.Driver.(*vcs.GitDriver); ok && want["Ref"] == nil {
			eq("git ref", g.Ref, get(want, "ref", ""))
			eq("git detect-ref", g.DetectRef, get(want, "detect-ref", false))
			t.Count("drivers_compared", 1)
		}
		if s, ok := w.Driver.(*vcs.SVNDriver); ok {
			eq("svn username", s.Username, get(want, "username", ""))
			eq("svn password", s.Password, get(want, "password", ""))
			t.Count("drivers_compared", 1)
		}
	}
	if i < 4 {
		t.Sample(string(text))
	}
}
