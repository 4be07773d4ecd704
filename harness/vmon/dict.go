package main

// Dictionary: literals of the code under test, read from the working tree at
// run time. A literal that the committed baseline does not know gets extra
// weight, so that behaviour conditioned on a new constant is exercised.

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

type dict struct {
	strs, novel     []string
	ints, novelInts []int
}

type dictFile struct {
	Strs []string `json:"strs"`
	Ints []int    `json:"ints"`
}

var dictOnce sync.Once
var theDict dict

func harvest(root string) (strs map[string]bool, ints map[int]bool) {
	strs, ints = map[string]bool{}, map[int]bool{}
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if n := d.Name(); n == ".git" || n == "testdata" || n == "examples" || n == "tester" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BasicLit:
				switch x.Kind {
				case token.STRING:
					if s, err := strconv.Unquote(x.Value); err == nil && s != "" && len(s) < 60 {
						strs[s] = true
					}
				case token.CHAR:
					if s, err := strconv.Unquote(x.Value); err == nil {
						strs[s] = true
					}
				case token.INT:
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						ints[int(v)] = true
						if v >= 0x80 && v <= utf8.MaxRune {
							strs[string(rune(v))] = true
						}
					}
				}
			}
			return true
		})
		return nil
	})
	return
}

func loadDict() *dict {
	dictOnce.Do(func() {
		s, n := harvest(repoDir())
		var base dictFile
		if b, err := os.ReadFile(filepath.Join(verifRoot(), "dict_base.json")); err == nil {
			json.Unmarshal(b, &base)
		}
		bs, bn := map[string]bool{}, map[int]bool{}
		for _, x := range base.Strs {
			bs[x] = true
		}
		for _, x := range base.Ints {
			bn[x] = true
		}
		for x := range s {
			theDict.strs = append(theDict.strs, x)
			if !bs[x] {
				theDict.novel = append(theDict.novel, x)
			}
		}
		for x := range n {
			theDict.ints = append(theDict.ints, x)
			if !bn[x] {
				theDict.novelInts = append(theDict.novelInts, x)
			}
		}
		sort.Strings(theDict.strs)
		sort.Strings(theDict.novel)
		sort.Ints(theDict.ints)
		sort.Ints(theDict.novelInts)
	})
	return &theDict
}

func dumpDict() {
	s, n := harvest(repoDir())
	var f dictFile
	for x := range s {
		f.Strs = append(f.Strs, x)
	}
	for x := range n {
		f.Ints = append(f.Ints, x)
	}
	sort.Strings(f.Strs)
	sort.Ints(f.Ints)
	b, _ := json.MarshalIndent(f, "", "")
	os.Stdout.Write(b)
}
