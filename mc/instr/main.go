// instr makes an overlay of a source tree in which a scheduling point precedes every
// statement that refers to a package-level variable or synchronizes (locks, atomics,
// channels): these are the places where threads that have data of their own can meet.
//
// usage: instr TREE OUTDIR (writes OUTDIR/overlay.json and OUTDIR/sites.txt)
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func fail(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(1)
}

// calls that synchronize or reach what is shared, by name
var syncNames = map[string]bool{"Lock": true, "Unlock": true, "RLock": true, "RUnlock": true, "TryLock": true, "Load": true, "Store": true,
	"Swap": true, "CompareAndSwap": true, "LoadOrStore": true, "LoadAndDelete": true, "Do": true, "Get": true, "Put": true, "Wait": true,
	"Add": true, "Done": true, "Signal": true, "Broadcast": true, "Delete": true, "Range": true}

func main() {
	tree, out := os.Args[1], os.Args[2]
	os.MkdirAll(out, 0o755)
	mod, err := os.ReadFile(filepath.Join(tree, "go.mod"))
	if err != nil {
		fail(err)
	}
	module := strings.Fields(string(mod))[1]
	dirs := map[string][]string{}
	filepath.Walk(tree, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if i.IsDir() && (strings.HasPrefix(i.Name(), ".") && p != tree || i.Name() == "vendor" || i.Name() == "testdata" || i.Name() == "tests") {
			return filepath.SkipDir
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			dirs[filepath.Dir(p)] = append(dirs[filepath.Dir(p)], p)
		}
		return nil
	})
	fset := token.NewFileSet()
	files := map[string]*ast.File{}
	vars := map[string]map[string]bool{} // import path -> package-level variables
	path := func(dir string) string {
		r, _ := filepath.Rel(tree, dir)
		if r == "." {
			return module
		}
		return module + "/" + filepath.ToSlash(r)
	}
	for d, fs := range dirs {
		v := map[string]bool{}
		vars[path(d)] = v
		for _, f := range fs {
			a, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
			if err != nil {
				fail(err)
			}
			files[f] = a
			for _, dc := range a.Decls {
				if g, ok := dc.(*ast.GenDecl); ok && g.Tok == token.VAR {
					for _, s := range g.Specs {
						for _, n := range s.(*ast.ValueSpec).Names {
							v[n.Name] = true
						}
					}
				}
			}
		}
	}
	var names []string
	for f := range files {
		names = append(names, f)
	}
	sort.Strings(names)
	replace := map[string]string{}
	var sites []string
	for _, f := range names {
		a := files[f]
		dir := path(filepath.Dir(f))
		if dir == module+"/logger" { // calls of the logger are points already
			continue
		}
		imports := map[string]string{}
		for _, i := range a.Imports {
			p, _ := strconv.Unquote(i.Path.Value)
			n := p[strings.LastIndex(p, "/")+1:]
			if i.Name != nil {
				n = i.Name.Name
			}
			imports[n] = p
		}
		topLevel := map[*ast.Object]bool{}
		for _, o := range a.Scope.Objects {
			topLevel[o] = true
		}
		shared := func(n ast.Node) bool {
			found := false
			ast.Inspect(n, func(x ast.Node) bool {
				if found || x == nil {
					return false
				}
				switch y := x.(type) {
				case *ast.BlockStmt, *ast.FuncLit: // looked at by itself
					return false
				case *ast.SelectorExpr:
					if id, ok := y.X.(*ast.Ident); ok && id.Obj == nil {
						if p, ok := imports[id.Name]; ok {
							if vars[p][y.Sel.Name] {
								found = true
							}
							return false
						}
					}
					ast.Inspect(y.X, func(z ast.Node) bool {
						if id, ok := z.(*ast.Ident); ok && vars[dir][id.Name] && (id.Obj == nil || topLevel[id.Obj]) {
							found = true
						}
						return !found
					})
					return true
				case *ast.CallExpr:
					if s, ok := y.Fun.(*ast.SelectorExpr); ok && syncNames[s.Sel.Name] {
						found = true
					}
				case *ast.UnaryExpr:
					if y.Op == token.ARROW {
						found = true
					}
				case *ast.SendStmt, *ast.SelectStmt:
					found = true
				case *ast.KeyValueExpr:
					if shareIn(y.Value, vars[dir], topLevel) {
						found = true
					}
				case *ast.Ident:
					if vars[dir][y.Name] && (y.Obj == nil || topLevel[y.Obj]) {
						found = true
					}
				}
				return !found
			})
			return found
		}
		type ins struct {
			off  int
			text string
		}
		var inss []ins
		point := func(p token.Pos) {
			pos := fset.Position(p)
			rel, _ := filepath.Rel(tree, pos.Filename)
			inss = append(inss, ins{pos.Offset, fmt.Sprintf("verifpt.P(%d); ", len(sites))})
			sites = append(sites, fmt.Sprintf("%s:%d", rel, pos.Line))
		}
		list := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.EmptyStmt, *ast.BlockStmt:
					continue
				}
				if shared(s) {
					point(s.Pos())
				}
			}
		}
		for _, d := range a.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil || fn.Name.Name == "init" {
				continue
			}
			ast.Inspect(fn.Body, func(x ast.Node) bool {
				switch y := x.(type) {
				case *ast.BlockStmt:
					list(y.List)
				case *ast.CaseClause:
					list(y.Body)
				case *ast.CommClause:
					list(y.Body)
				}
				return true
			})
		}
		if len(inss) == 0 {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			fail(err)
		}
		end := fset.Position(a.Name.End()).Offset
		inss = append(inss, ins{end, `; import verifpt "verif/mc/pt"`})
		sort.SliceStable(inss, func(i, j int) bool { return inss[i].off > inss[j].off })
		for _, i := range inss {
			src = append(src[:i.off:i.off], append([]byte(i.text), src[i.off:]...)...)
		}
		o := filepath.Join(out, fmt.Sprintf("%03d_%s", len(replace), filepath.Base(f)))
		if err := os.WriteFile(o, src, 0o644); err != nil {
			fail(err)
		}
		replace[f] = o
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fail(err)
	}
	os.WriteFile(filepath.Join(out, "sites.txt"), []byte(strings.Join(sites, "\n")+"\n"), 0o644)
}

func shareIn(n ast.Node, vars map[string]bool, top map[*ast.Object]bool) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		if id, ok := x.(*ast.Ident); ok && vars[id.Name] && (id.Obj == nil || top[id.Obj]) {
			found = true
		}
		return !found
	})
	return found
}
