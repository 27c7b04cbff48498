// instr writes an overlay of the library's packages for the schedule and
// collection-point explorations: a call of the shim before every statement,
// the shim's sync types in place of the standard ones, and a registration of
// every package-level variable so that library state can be put back between
// executions. The rewriting is purely syntactic and knows nothing about what
// the code does, so it applies to any version of it.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const shimPath = "github.com/cloudwego/prutal/verifshim"

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	shim := flag.String("shim", "", "directory with the shim's sources")
	pkgs := flag.String("pkgs", "", "packages to instrument (default: all internal ones but the leaf packages hack, protowire and testutils)")
	locks := flag.String("locks", "", "further packages, of which only the locks become scheduling points")
	flag.Parse()
	if *pkgs == "" {
		*pkgs = discover(*repo)
	}
	rep := map[string]string{}
	if err := os.MkdirAll(*out, 0755); err != nil {
		panic(err)
	}
	src, err := os.ReadFile(filepath.Join(*shim, "shim.go.txt"))
	if err != nil {
		panic(err)
	}
	sp := filepath.Join(*out, "shim.go")
	must(os.WriteFile(sp, src, 0644))
	rep[filepath.Join(*repo, "verifshim", "shim.go")] = sp
	n := 0
	all := strings.Split(*pkgs, ",")
	lockOnly := map[string]bool{}
	if *locks != "" {
		for _, p := range strings.Split(*locks, ",") {
			lockOnly[p] = true
			all = append(all, p)
		}
	}
	fset := token.NewFileSet()
	parsed := map[string]*ast.File{}
	mutable := map[string]map[string]bool{} // by directory
	global := map[string]bool{}             // pkgname.Var
	for _, p := range all {
		dir := filepath.Join(*repo, p)
		bp, err := build.ImportDir(dir, 0)
		must(err)
		var files []*ast.File
		vars := map[string]bool{}
		for _, f := range bp.GoFiles {
			path := filepath.Join(dir, f)
			file, err := parser.ParseFile(fset, path, nil, parser.ParseComments)
			must(err)
			parsed[path] = file
			files = append(files, file)
			for _, d := range file.Decls {
				if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
					for _, s := range g.Specs {
						for _, id := range s.(*ast.ValueSpec).Names {
							vars[id.Name] = true
						}
					}
				}
			}
		}
		mutable[dir] = mutated(files, vars)
		for v := range mutable[dir] {
			global[bp.Name+"."+v] = true
		}
	}
	for _, p := range all {
		dir := filepath.Join(*repo, p)
		bp, err := build.ImportDir(dir, 0)
		must(err)
		var vars []string
		name := bp.Name
		mut := map[string]bool{}
		for v := range global {
			mut[v] = true
		}
		for v := range mutable[dir] {
			mut[v] = true
		}
		for _, f := range bp.GoFiles {
			path := filepath.Join(dir, f)
			file := parsed[path]
			for _, d := range file.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok || g.Tok != token.VAR {
					continue
				}
				for _, s := range g.Specs {
					for _, id := range s.(*ast.ValueSpec).Names {
						if id.Name != "_" {
							vars = append(vars, id.Name)
						}
					}
				}
			}
			b := rewrite(fset, file, path, mut, lockOnly[p])
			n++
			o := filepath.Join(*out, fmt.Sprintf("f%d_%s", n, f))
			must(os.WriteFile(o, b, 0644))
			rep[path] = o
		}
		if len(vars) == 0 {
			continue
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "package %s\n\nimport verifshim %q\n\nfunc init() {\n", name, shimPath)
		for _, v := range vars {
			fmt.Fprintf(&b, "\tverifshim.RegisterVar(%q, &%s)\n", p+"."+v, v)
		}
		b.WriteString("}\n")
		n++
		o := filepath.Join(*out, fmt.Sprintf("f%d_zz_verif.go", n))
		must(os.WriteFile(o, b.Bytes(), 0644))
		rep[filepath.Join(dir, "zz_verif_vars.go")] = o
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0644))
}

func discover(repo string) string {
	var out []string
	out = append(out, ".")
	must(filepath.WalkDir(filepath.Join(repo, "internal"), func(p string, d os.DirEntry, err error) error {
		if err != nil || !d.IsDir() {
			return err
		}
		switch d.Name() {
		case "testutils", "hack", "protowire", "testdata":
			return filepath.SkipDir
		}
		if bp, err := build.ImportDir(p, 0); err == nil && len(bp.GoFiles) > 0 && bp.Name != "main" {
			r, _ := filepath.Rel(repo, p)
			out = append(out, r)
		}
		return nil
	}))
	return strings.Join(out, ",")
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// rewrite inserts calls textually, keeping everything else (comments,
// directives, line numbers) as it is.
//
// Statements which may touch state shared between calls without going through
// the shim (atomics, package-level variables that are not constant tables) get
// a synchronisation point, all others an ordinary point.
func rewrite(fset *token.FileSet, file *ast.File, path string, mutable map[string]bool, locks bool) []byte {
	src, err := os.ReadFile(path)
	must(err)
	type ins struct {
		off, del int
		s        string
	}
	var ed []ins
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	for _, im := range file.Imports {
		v, _ := strconv.Unquote(im.Path.Value)
		if v == "sync" {
			name := ""
			if im.Name == nil {
				name = "sync "
			}
			ed = append(ed, ins{off(im.Path.Pos()), len(im.Path.Value), name + strconv.Quote(shimPath)})
		}
	}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			call := "verifY.Y();"
			if shared(s, mutable) {
				call = "verifY.S();"
			}
			ed = append(ed, ins{off(s.Pos()), 0, call})
		}
	}
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(x ast.Node) bool {
			switch t := x.(type) {
			case *ast.BlockStmt:
				stmts(t.List)
			case *ast.CaseClause:
				stmts(t.Body)
			case *ast.CommClause:
				stmts(t.Body)
			case *ast.SwitchStmt: // a switch body holds only clauses
				inspectSwitch(t.Init, t.Tag, t.Body, walk)
				return false
			case *ast.TypeSwitchStmt:
				inspectSwitch(t.Init, t.Assign, t.Body, walk)
				return false
			case *ast.SelectStmt:
				for _, c := range t.Body.List {
					walk(c)
				}
				return false
			}
			return true
		})
	}
	any := false
	for _, d := range file.Decls {
		f, ok := d.(*ast.FuncDecl)
		if !ok || f.Body == nil || locks {
			continue
		}
		if f.Recv == nil && f.Name.Name == "init" {
			continue
		}
		skip := false
		if f.Doc != nil {
			for _, c := range f.Doc.List {
				if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:nocheckptr") {
					skip = true
				}
			}
		}
		if skip {
			continue
		}
		n := len(ed)
		walk(f.Body)
		any = any || len(ed) > n
	}
	if any {
		ed = append(ed, ins{off(file.Name.End()), 0, "; import verifY " + strconv.Quote(shimPath)})
	}
	// apply from the end
	for i := 1; i < len(ed); i++ {
		for j := i; j > 0 && ed[j].off < ed[j-1].off; j-- {
			ed[j], ed[j-1] = ed[j-1], ed[j]
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "//line %s:1\n", path)
	last := 0
	for _, e := range ed {
		b.Write(src[last:e.off])
		b.WriteString(e.s)
		last = e.off + e.del
	}
	b.Write(src[last:])
	return b.Bytes()
}

// own visits the parts of a statement that are not statements themselves.
func own(s ast.Stmt, f func(ast.Node)) {
	ast.Inspect(s, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.BlockStmt: // its statements have their own points
			return false
		case *ast.CaseClause:
			for _, e := range t.List {
				ast.Inspect(e, func(n ast.Node) bool {
					if n != nil {
						f(n)
					}
					return true
				})
			}
			return false
		case *ast.CommClause:
			return false
		case nil:
			return true
		}
		f(n)
		return true
	})
}

var atomicOps = map[string]bool{"Load": true, "Store": true, "Swap": true, "CompareAndSwap": true, "LoadOrStore": true, "LoadAndDelete": true,
	"Lock": true, "Unlock": true, "RLock": true, "RUnlock": true, "TryLock": true, "Do": true, "Range": true, "Delete": true, "Wait": true, "Signal": true, "Broadcast": true}

func shared(s ast.Stmt, mutable map[string]bool) bool {
	found := false
	own(s, func(n ast.Node) {
		switch t := n.(type) {
		case *ast.SelectorExpr:
			if id, ok := t.X.(*ast.Ident); ok && (id.Name == "atomic" || mutable[id.Name+"."+t.Sel.Name]) {
				found = true
			}
			if atomicOps[t.Sel.Name] {
				found = true
			}
		case *ast.Ident:
			if mutable[t.Name] {
				found = true
			}
		case *ast.SendStmt, *ast.SelectStmt, *ast.GoStmt:
			found = true
		case *ast.UnaryExpr:
			if t.Op == token.ARROW {
				found = true
			}
		}
	})
	return found
}

// root gives the variable an addressable expression belongs to.
func root(e ast.Expr) string {
	for {
		switch t := e.(type) {
		case *ast.Ident:
			return t.Name
		case *ast.SelectorExpr:
			e = t.X
		case *ast.IndexExpr:
			e = t.X
		case *ast.StarExpr:
			e = t.X
		case *ast.ParenExpr:
			e = t.X
		case *ast.SliceExpr:
			e = t.X
		default:
			return ""
		}
	}
}

// mutated finds the package-level variables that something other than an
// initialiser may change.
func mutated(files []*ast.File, vars map[string]bool) map[string]bool {
	out := map[string]bool{}
	hit := func(e ast.Expr) {
		if r := root(e); vars[r] {
			out[r] = true
		}
	}
	for _, file := range files {
		for _, d := range file.Decls {
			f, ok := d.(*ast.FuncDecl)
			if !ok || f.Body == nil || f.Recv == nil && f.Name.Name == "init" {
				continue
			}
			ast.Inspect(f.Body, func(n ast.Node) bool {
				switch t := n.(type) {
				case *ast.AssignStmt:
					for _, e := range t.Lhs {
						hit(e)
					}
				case *ast.IncDecStmt:
					hit(t.X)
				case *ast.UnaryExpr:
					if t.Op == token.AND {
						hit(t.X)
					}
				case *ast.CallExpr:
					if s, ok := t.Fun.(*ast.SelectorExpr); ok {
						hit(s.X)
					}
					if id, ok := t.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear" || id.Name == "copy") && len(t.Args) > 0 {
						hit(t.Args[0])
					}
				}
				return true
			})
		}
	}
	return out
}

func inspectSwitch(init ast.Stmt, tag ast.Node, body *ast.BlockStmt, walk func(ast.Node)) {
	if init != nil {
		walk(init)
	}
	switch t := tag.(type) {
	case nil:
	case ast.Expr:
		if t != nil {
			walk(t)
		}
	case ast.Stmt:
		if t != nil {
			walk(t)
		}
	}
	for _, c := range body.List {
		walk(c)
	}
}
