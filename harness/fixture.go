package main

import (
	"os"
	"path/filepath"
	"sort"

	"github.com/hound-search/hound/index"
)

// Tree is a working tree in memory: relative path -> content.
type Tree map[string]string

func (tr Tree) names() []string {
	var ns []string
	for n := range tr {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

func writeTree(dir string, tr Tree) {
	for n, c := range tr {
		p := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			fatal("%v", err)
		}
		if err := os.WriteFile(p, []byte(c), 0644); err != nil {
			fatal("%v", err)
		}
	}
}

func buildIndex(t *T, tr Tree, opt *index.IndexOptions) (*index.Index, string, error) {
	src, dst := t.Dir("src"), t.Dir("dst")
	writeTree(src, tr)
	os.Remove(dst)
	ref, err := index.Build(opt, dst, src, "url", "rev")
	os.RemoveAll(src)
	if err != nil {
		return nil, dst, err
	}
	ix, err := ref.Open()
	return ix, dst, err
}
