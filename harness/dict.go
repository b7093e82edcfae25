package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

// The constants of the code under test serve as a dictionary: words that it compares names or values with are
// drawn as names and values now and then.

type dictionary struct {
	names []string // words that can be written as a name and have no meaning in the language
	texts []string // short strings
	ints  []int64
}

var dict = sync.OnceValue(func() *dictionary {
	d := &dictionary{}
	root := os.Getenv("VERIF_REPO")
	if root == "" {
		root = "/repo"
	}
	names, texts, ints := map[string]bool{}, map[string]bool{}, map[int64]bool{}
	filepath.WalkDir(filepath.Join(root, "soql"), func(p string, e fs.DirEntry, err error) error {
		if err != nil || e.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				x.Tag = nil
			case *ast.BasicLit:
				switch x.Kind {
				case token.STRING, token.CHAR:
					s, err := strconv.Unquote(x.Value)
					if err != nil || s == "" || len(s) > 24 || !utf8.ValidString(s) {
						break
					}
					texts[s] = true
					if isPlainName(s) && !fixedName(lc(s)) && !mustQuote[lc(s)] {
						names[s] = true
					}
				case token.INT:
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil && v > 2 {
						ints[v] = true
					}
				}
			}
			return true
		})
		return nil
	})
	for s := range names {
		d.names = append(d.names, s)
	}
	for s := range texts {
		d.texts = append(d.texts, s)
	}
	for v := range ints {
		d.ints = append(d.ints, v)
	}
	if len(d.names) == 0 {
		d.names = []string{"Name"}
	}
	if len(d.texts) == 0 {
		d.texts = []string{"text"}
	}
	if len(d.ints) == 0 {
		d.ints = []int64{100}
	}
	sort.Strings(d.names)
	sort.Strings(d.texts)
	sort.Slice(d.ints, func(i, j int) bool { return d.ints[i] < d.ints[j] })
	return d
})

// likeWord draws a name that is, or begins or ends with, a word of the language or of the code.
func (g *G) likeWord() string {
NEXT:
	for i := 0; i < 10; i++ {
		w := ""
		switch g.u(4) {
		case 0:
			w = pick(g, dict().names)
			if g.p(60) {
				break
			}
			fallthrough
		case 1:
			if w == "" {
				w = pick(g, dict().names)
			}
			w = pick(g, []string{w + "2", w + "_", "x" + w, w + "$", "My" + w})
		case 2:
			w = g.anyCase(pick(g, dateLiterals0))
			w = pick(g, []string{w + "$", w + "x", w + "_", w + "1", "$" + w, "_" + w})
		default:
			w = pick(g, kwLike)
			w = pick(g, []string{w + "x", w + "_", w + "1", "x" + w, "_" + w, w + "$", w + "$1", "$" + w, w + pick(g, kwLike), w + "__c"})
		}
		for _, a := range itemAliasPool {
			if lc(a) == lc(w) {
				continue NEXT
			}
		}
		if isPlainName(w) && !fixedName(lc(w)) && !mustQuote[lc(w)] {
			return w
		}
	}
	return "wordx"
}
