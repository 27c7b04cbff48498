package gen

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
)

var exports map[string]string // import path -> export data, see run.sh
var stdImp types.Importer
var fset0 = token.NewFileSet()

func loadExports() {
	exports = map[string]string{}
	f, err := os.Open(filepath.Join(tmpDir(), "exports"))
	if err != nil {
		panic(err)
	}
	defer f.Close()
	for sc := bufio.NewScanner(f); sc.Scan(); {
		if p, e, ok := strings.Cut(sc.Text(), " "); ok && e != "" {
			exports[p] = e
		}
	}
	stdImp = importer.ForCompiler(fset0, "gc", func(p string) (io.ReadCloser, error) {
		e, ok := exports[p]
		if !ok {
			return nil, fmt.Errorf("no package %q", p)
		}
		return os.Open(e)
	})
}

type worldImp struct {
	files map[string]map[string]string // dir -> file -> source
	done  map[string]*types.Package
	errs  []string
}

func (w *worldImp) Import(p string) (*types.Package, error) {
	if w.files[p] != nil {
		if pk := w.done[p]; pk != nil {
			return pk, nil
		}
		return w.check(p)
	}
	return stdImp.Import(p)
}

func (w *worldImp) check(p string) (*types.Package, error) {
	fset := token.NewFileSet()
	var fs []*ast.File
	for _, n := range keys(w.files[p]) {
		f, err := parser.ParseFile(fset, p+"/"+n, w.files[p][n], parser.SkipObjectResolution)
		if err != nil {
			w.errs = append(w.errs, err.Error())
			return nil, err
		}
		fs = append(fs, f)
	}
	cfg := types.Config{Importer: w, Error: func(err error) { w.errs = append(w.errs, err.Error()) }}
	pk, err := cfg.Check(p, fset, fs, nil)
	w.done[p] = pk
	return pk, err
}

// compileErrors type-checks generated files (path below the output directory
// -> source) as the packages their directories stand for.
func compileErrors(files map[string]string) []string {
	if exports == nil {
		loadExports()
	}
	w := &worldImp{files: map[string]map[string]string{}, done: map[string]*types.Package{}}
	for n, s := range files {
		d := path.Dir(n)
		if w.files[d] == nil {
			w.files[d] = map[string]string{}
		}
		w.files[d][path.Base(n)] = s
	}
	for _, d := range keys(w.files) {
		if w.done[d] == nil {
			w.check(d)
		}
	}
	sort.Strings(w.errs)
	return w.errs
}
