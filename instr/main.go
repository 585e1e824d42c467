// instr writes copies of the Go files of some packages of /repo in which every
// statement is preceded by a call of verifsched.Y, and an overlay file for "go
// build -overlay" that puts them, and the package verifsched, in place of the
// originals. The statements themselves and their line numbers stay as they are.
//
// usage: instr REPO OUTDIR SCHEDFILE
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var dirs = []string{"searcher", "web", "api", "index", "vcs", "cmds/houndd"}

// names of calls that other goroutines notice
var syncName = map[string]bool{
	"Lock": true, "Unlock": true, "RLock": true, "RUnlock": true, "Acquire": true, "Release": true,
	"Wait": true, "Done": true, "Do": true, "close": true, "Stop": true, "Update": true, "Load": true, "Store": true,
	"Swap": true, "CompareAndSwap": true, "Add": true, "begin": true, "Begin": true, "Close": true, "Destroy": true,
	"Remove": true, "RemoveAll": true, "Rename": true, "Open": true, "Search": true, "Build": true,
}

// isSync: the statement itself (not what is nested in it) has to do with others.
func isSync(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt:
		return true
	}
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return n == ast.Node(s)
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.CallExpr:
			switch f := x.Fun.(type) {
			case *ast.SelectorExpr:
				found = found || syncName[f.Sel.Name]
			case *ast.Ident:
				found = found || syncName[f.Name]
			}
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if _, ok := l.(*ast.SelectorExpr); ok {
					found = true
				}
			}
		}
		return true
	})
	return found
}

func main() {
	repo, out, sched := os.Args[1], os.Args[2], os.Args[3]
	replace := map[string]string{filepath.Join(repo, "verifsched", "sched.go"): sched}
	site := 0
	var syncSites []int
	for _, d := range dirs {
		files, _ := filepath.Glob(filepath.Join(repo, d, "*.go"))
		sort.Strings(files)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				fail(err)
			}
			fset := token.NewFileSet()
			file, err := parser.ParseFile(fset, f, src, parser.SkipObjectResolution)
			if err != nil {
				fail(err)
			}
			type edit struct {
				at   int
				text string
			}
			var edits []edit
			add := func(p token.Pos, text string) { edits = append(edits, edit{fset.Position(p).Offset, text}) }
			list := func(ss []ast.Stmt) {
				prev := false // the statement before has to do with others
				for _, s := range ss {
					switch l := s.(type) {
					case *ast.LabeledStmt:
						_ = l
						continue
					case *ast.EmptyStmt:
						continue
					}
					is := isSync(s)
					add(s.Pos(), fmt.Sprintf("verifsched.Y(%d); ", site))
					if is || prev {
						syncSites = append(syncSites, site)
					}
					site++
					prev = is
				}
				if prev {
					last := ss[len(ss)-1]
					if e, ok := last.(*ast.ExprStmt); ok {
						if c, ok := e.X.(*ast.CallExpr); ok {
							if i, ok := c.Fun.(*ast.Ident); ok && i.Name == "panic" {
								return // must stay the last statement
							}
						}
					}
					switch last.(type) {
					case *ast.ExprStmt, *ast.SendStmt, *ast.AssignStmt:
						add(last.End(), fmt.Sprintf("; verifsched.Y(%d)", site))
						syncSites = append(syncSites, site)
						site++
					}
				}
			}
			ast.Inspect(file, nested(list))
			if len(edits) == 0 {
				continue
			}
			add(file.Name.End(), `; import verifsched "github.com/hound-search/hound/verifsched"`)
			sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
			var b bytes.Buffer
			last := 0
			for _, e := range edits {
				b.Write(src[last:e.at])
				b.WriteString(e.text)
				last = e.at
			}
			b.Write(src[last:])
			to := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(f, repo+"/"), "/", "__"))
			if err := os.WriteFile(to, b.Bytes(), 0644); err != nil {
				fail(err)
			}
			if _, err := parser.ParseFile(token.NewFileSet(), to, nil, 0); err != nil {
				fail(err)
			}
			replace[f] = to
		}
	}
	var gen bytes.Buffer
	fmt.Fprintf(&gen, "package verifsched\n\nfunc init() { setSites(%d, []int{", site)
	for i, s := range syncSites {
		if i > 0 {
			gen.WriteString(", ")
		}
		fmt.Fprint(&gen, s)
	}
	gen.WriteString("}) }\n")
	to := filepath.Join(out, "sites.go")
	if err := os.WriteFile(to, gen.Bytes(), 0644); err != nil {
		fail(err)
	}
	replace[filepath.Join(repo, "verifsched", "sites.go")] = to
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644); err != nil {
		fail(err)
	}
}

// nested handles what lies below a statement of a clause.
func nested(list func([]ast.Stmt)) func(ast.Node) bool {
	var f func(n ast.Node) bool
	f = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.SwitchStmt:
			clauses(x.Body, list, f)
			return false
		case *ast.TypeSwitchStmt:
			clauses(x.Body, list, f)
			return false
		case *ast.SelectStmt:
			clauses(x.Body, list, f)
			return false
		}
		return true
	}
	return f
}

func clauses(body *ast.BlockStmt, list func([]ast.Stmt), f func(ast.Node) bool) {
	for _, c := range body.List {
		var ss []ast.Stmt
		switch y := c.(type) {
		case *ast.CaseClause:
			ss = y.Body
		case *ast.CommClause:
			ss = y.Body
		}
		list(ss)
		for _, s := range ss {
			ast.Inspect(s, f)
		}
	}
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(1)
}
