package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// The dictionary holds the literals of the code under test. Hard-coded special
// cases can hide behind any of them, so the generators mix them in; no verdict
// depends on them.
type dictionary struct {
	strs  []string
	ints  []int
	bytes []byte
	sizes []int // small enough to be lengths or counts
	names []string
}

var dict = &dictionary{}

func repoDir() string {
	if d := os.Getenv("VMON_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadDict() {
	strs := map[string]bool{}
	ints := map[int]bool{}
	bs := map[byte]bool{}
	filepath.Walk(repoDir(), func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() && strings.HasPrefix(fi.Name(), ".") && path != repoDir() {
			if fi != nil && fi.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		if fi.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			l, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch l.Kind {
			case token.STRING:
				if s, err := strconv.Unquote(l.Value); err == nil && len(s) > 0 && len(s) <= 64 {
					strs[s] = true
				}
			case token.CHAR:
				if r, _, _, err := strconv.UnquoteChar(l.Value[1:len(l.Value)-1], '\''); err == nil && r < 256 {
					bs[byte(r)] = true
				}
			case token.INT:
				if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
					for d := -1; d <= 1; d++ {
						ints[int(v)+d] = true
					}
				}
			}
			return true
		})
		return nil
	})
	for s := range strs {
		dict.strs = append(dict.strs, s)
	}
	sort.Strings(dict.strs)
	for v := range ints {
		dict.ints = append(dict.ints, v)
		if v >= 0 && v <= 1<<18 {
			dict.sizes = append(dict.sizes, v)
		}
	}
	sort.Ints(dict.ints)
	sort.Ints(dict.sizes)
	for b := range bs {
		dict.bytes = append(dict.bytes, b)
	}
	sort.Slice(dict.bytes, func(i, j int) bool { return dict.bytes[i] < dict.bytes[j] })
	for _, s := range dict.strs {
		if isToken(s) {
			dict.names = append(dict.names, s)
		}
	}
	if len(dict.names) == 0 {
		dict.names = []string{"a"}
	}
	if len(dict.strs) == 0 {
		dict.strs = []string{"a"}
	}
	if len(dict.sizes) == 0 {
		dict.sizes = []int{1}
	}
	if len(dict.ints) == 0 {
		dict.ints = []int{1}
	}
	if len(dict.bytes) == 0 {
		dict.bytes = []byte{'a'}
	}
}

func isToken(s string) bool {
	if s == "" || len(s) > 40 {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_') {
			return false
		}
	}
	return true
}

// bigN returns a count in [2, max] near a power of two, a round number or a
// number the code under test mentions.
func bigN(r *Rand, max int) int {
	for k := 0; k < 20; k++ {
		var n int
		switch r.N(4) {
		case 0:
			n = 1 << uint(r.Range(4, 20))
		case 1:
			n = r.PickInt(10, 20, 50, 100, 200, 500, 1000, 2000, 5000, 10000)
		case 2:
			n = pick(r, dict.sizes)
		default:
			n = r.Range(2, max)
		}
		n += r.Range(-1, 2)
		if n >= 2 && n <= max {
			return n
		}
	}
	return max
}
