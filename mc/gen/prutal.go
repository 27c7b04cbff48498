package gen

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
)

// Result is what prutalgen makes of a world.
type Result struct {
	OK     bool
	Fatal  string // the message given to Logger.Fatalf
	Fatals int    // calls, if they do not end the run
	Logged []string
	Panic  string
	Err    string            // error returned by Gen
	Files  map[string]string // generated, by path below the output directory
	Protos []*prutalgen.Proto
}

type fatal struct{ msg string }

type logger struct {
	r    *Result
	soft bool
}

func (l logger) Fatalf(f string, a ...any) {
	l.r.Fatal = fmt.Sprintf(f, a...)
	if l.soft {
		l.r.Fatals++
		return
	}
	panic(fatal{l.r.Fatal})
}
func (l logger) Printf(f string, a ...any) { l.r.Logged = append(l.r.Logged, fmt.Sprintf(f, a...)) }

type GenOpts struct {
	Getter   bool
	All      bool // generate every file of the world, not just the root
	Kitex    bool
	LoadOnly bool
	Soft     bool // go on after Fatalf (the caller repeats what looks wrong without)
	M        map[string]string
}

var workDir string

func scratch() string {
	if workDir == "" {
		d, err := os.MkdirTemp(tmpDir(), "w")
		if err != nil {
			panic(err)
		}
		workDir = d
	}
	return workDir
}

var written = map[string]string{}

// Prutal runs prutalgen on a world, the way its main function does.
func Prutal(w World, o GenOpts) *Result {
	src := filepath.Join(scratch(), "src")
	for n := range written {
		if _, ok := w.Files[n]; !ok {
			os.Remove(filepath.Join(src, n))
			delete(written, n)
		}
	}
	for n, s := range w.Files {
		fn := filepath.Join(src, n)
		if old, ok := written[n]; !ok {
			os.MkdirAll(filepath.Dir(fn), 0755)
		} else if old == s {
			continue
		}
		written[n] = s
		if err := os.WriteFile(fn, []byte(s), 0644); err != nil {
			panic(err)
		}
	}
	r := &Result{Files: map[string]string{}}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(fatal); ok {
					return
				}
				r.Panic = fmt.Sprintf("%v\n%s", e, trim(string(debug.Stack())))
			}
		}()
		x := prutalgen.NewLoader([]string{src}, o.M)
		x.SetLogger(logger{r, o.Soft})
		r.Protos = x.LoadProto(w.Root)
		if o.LoadOnly {
			r.OK = true
			return
		}
		g := prutalgen.NewGoCodeGen()
		g.Getter = o.Getter
		if o.Kitex {
			g.Marshaler = prutalgen.MarshalerKitexProtobuf
		}
		n := 1
		if o.All {
			n = len(r.Protos)
		}
		out := filepath.Join(scratch(), "out")
		for _, p := range r.Protos[:n] {
			if strings.HasPrefix(p.ProtoFile, "google/protobuf/") {
				continue
			}
			fn := g.SourcePath(p, prutalgen.GenByImport, out, ".pb.go")
			if err := g.Gen(p, prutalgen.GenByImport, out); err != nil {
				r.Err = err.Error()
				return
			}
			b, err := os.ReadFile(fn)
			if err != nil {
				r.Err = err.Error()
				return
			}
			os.Remove(fn)
			rel, _ := filepath.Rel(out, fn)
			r.Files[rel] = string(b)
		}
		r.OK = true
	}()
	return r
}

func trim(s string) string {
	if i := strings.Index(s, "/prutalgen/"); i >= 0 && i > 200 {
		s = s[i-200:]
	}
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}
