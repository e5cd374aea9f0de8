package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const modPath = "github.com/yields/ant"

// instrMode says what the instrumented copy of the code contains.
type instrMode struct {
	Yields bool // yield points between statements
	Sync   bool // sync -> vsync
	OS     bool // os -> vos, in antcache
}

func (m instrMode) String() string {
	if m == (instrMode{}) {
		return "none"
	}
	var s []string
	if m.Yields {
		s = append(s, "yields")
	}
	if m.Sync {
		s = append(s, "sync")
	}
	if m.OS {
		s = append(s, "os")
	}
	return strings.Join(s, "+")
}

// repoSources lists the non-test Go files of the module's packages.
func repoSources(repo string) (map[string][]string, error) {
	ret := map[string][]string{}
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		name := fi.Name()
		if fi.IsDir() {
			if p != repo && (strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata" || name == "zverif" || name == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(name, ".go") && !strings.HasSuffix(name, "_test.go") {
			dir := filepath.Dir(p)
			ret[dir] = append(ret[dir], p)
		}
		return nil
	})
	return ret, err
}

type insertion struct {
	off int
	del int
	s   string
}

// instrumentFile returns the instrumented source.
func instrumentFile(path string, src []byte, m instrMode, isCache bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	// positions must ignore //line directives.
	off = func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	var ins []insertion

	for _, im := range f.Imports {
		repl := ""
		name := ""
		switch im.Path.Value {
		case `"sync"`:
			if m.Sync {
				repl, name = modPath+"/zverif/vsync", "sync"
			}
		case `"os"`:
			if m.OS && isCache {
				repl, name = modPath+"/zverif/vos", "os"
			}
		case `"io/ioutil"`:
			if m.OS && isCache {
				repl, name = modPath+"/zverif/vos/vioutil", "ioutil"
			}
		}
		if repl == "" {
			continue
		}
		if im.Name != nil {
			name = ""
			if im.Name.Name == "_" {
				continue
			}
		}
		s := fmt.Sprintf("%q", repl)
		if name != "" {
			s = name + " " + s
		}
		ins = append(ins, insertion{off(im.Path.Pos()), len(im.Path.Value), s})
	}

	if m.Yields {
		const call = "zsched__.P(); "
		used := false
		add := func(p token.Pos) {
			ins = append(ins, insertion{off(p), 0, call})
			used = true
		}
		list := func(stmts []ast.Stmt) {
			for _, s := range stmts {
				switch s.(type) {
				case *ast.EmptyStmt, *ast.LabeledStmt:
					continue
				}
				add(s.Pos())
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				// A block of a switch or select holds clauses, not statements.
				for _, s := range n.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(n.List)
			case *ast.ForStmt:
				if len(n.Body.List) == 0 {
					add(n.Body.Lbrace + 1)
				}
			case *ast.RangeStmt:
				if len(n.Body.List) == 0 {
					add(n.Body.Lbrace + 1)
				}
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			}
			return true
		})
		if used {
			ins = append(ins, insertion{off(f.Name.End()), 0, fmt.Sprintf("; import zsched__ %q", modPath+"/zverif/zsched")})
		}
	}

	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var b strings.Builder
	pos := 0
	for _, x := range ins {
		b.Write(src[pos:x.off])
		b.WriteString(x.s)
		pos = x.off + x.del
	}
	b.Write(src[pos:])
	return []byte(b.String()), nil
}

// shared says which test file of another package a package is compiled with.
var shared = map[string]string{"race": "cdp/browser_test.go"}

// writeOverlay instruments the code and writes overlay.json into work.
func writeOverlay(work, repo, verif string, m instrMode) (string, error) {
	replace := map[string]string{}
	pkgs, err := repoSources(repo)
	if err != nil {
		return "", err
	}
	instDir := filepath.Join(work, "inst")
	os.RemoveAll(instDir)
	n := 0
	if m != (instrMode{}) {
		for dir, files := range pkgs {
			for _, p := range files {
				src, err := os.ReadFile(p)
				if err != nil {
					return "", err
				}
				isCache := filepath.Base(dir) == "antcache"
				out, err := instrumentFile(p, src, m, isCache)
				if err != nil {
					return "", err
				}
				n++
				dst := filepath.Join(instDir, fmt.Sprintf("%d_%s", n, filepath.Base(p)))
				if err := os.MkdirAll(instDir, 0o755); err != nil {
					return "", err
				}
				if err := os.WriteFile(dst, out, 0o644); err != nil {
					return "", err
				}
				replace[p] = dst
			}
		}
	}
	h := filepath.Join(verif, "h")
	err = filepath.Walk(h, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, err := filepath.Rel(h, p)
		if err != nil {
			return err
		}
		replace[filepath.Join(repo, "zverif", rel)] = p
		// Test files that another package uses, too.
		for pkg, from := range shared {
			if filepath.ToSlash(rel) == from {
				src, err := os.ReadFile(p)
				if err != nil {
					return err
				}
				dst := filepath.Join(work, pkg+"_"+filepath.Base(rel))
				src = []byte(strings.Replace(string(src), "package "+filepath.Base(filepath.Dir(p)), "package "+pkg, 1))
				if err := os.WriteFile(dst, src, 0o644); err != nil {
					return err
				}
				replace[filepath.Join(repo, "zverif", pkg, "shared_"+filepath.Base(rel))] = dst
			}
		}
		return nil
	})
	if err != nil {
		return "", err
	}
	buf, err := json.Marshal(map[string]any{"Replace": replace})
	if err != nil {
		return "", err
	}
	path := filepath.Join(work, "overlay.json")
	return path, os.WriteFile(path, buf, 0o644)
}
