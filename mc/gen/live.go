package gen

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"strings"
)

// EmitLive generates the worlds of the run-time spaces (package live) with
// both generators into dir and writes the overlay that adds them to mc.
// Worlds for which that fails are registered as broken: the checks report them.

const liveRoot = "verif/mc/live/gen/"

func liveOther() *File {
	f := otherFile()
	f.Name, f.Pkg, f.GoPkg = "live/other.proto", "other", liveRoot+"o/oth"
	return f
}

func liveFile(syntax string, k int, ff []Opt) *File {
	f := baseFile(syntax)
	f.Name, f.Pkg, f.GoPkg, f.Opts = fmt.Sprintf("live/w%d.proto", k), fmt.Sprintf("live.w%d", k), fmt.Sprintf("%so/w%d", liveRoot, k), ff
	f.Msgs = f.Msgs[1:] // N
	f.Msgs[0].Fields = []Field{fieldOf(map[bool]string{true: "", false: "optional"}[syntax == "proto3" || syntax == "2023"], "int32", "n", 1, nil)}
	f.Imports = []Import{{Path: "live/other.proto"}, {Path: "google/protobuf/timestamp.proto"}}
	alias := []Opt{{"allow_alias", "true"}}
	f.Enums = append(f.Enums, &Enum{Name: "E1", Opts: alias, Vals: []EnumVal{{"F", "0", ""}, {"G", "-1", ""}, {"H", "0", ""}, {"I", "2147483647", ""}, {"J", "-2147483648", ""}}})
	e2 := &Enum{Name: "E2", Opts: alias, Vals: []EnumVal{{"K", "3", ""}, {"L", "0", ""}, {"MM", "3", ""}}}
	if syntax == "2023" {
		e2.Opts = append(e2.Opts, Opt{"features.enum_type", "CLOSED"})
	}
	if syntax == "proto3" {
		e2.Vals[0].Num, e2.Vals[1].Num = "0", "5"
		e2.Vals[2].Num = "5"
	}
	f.Enums = append(f.Enums, e2)
	return f
}

var liveTypes = append(append([]string{}, allTypes...), "E1", "E2")

type liveWorld struct {
	*Schema
	mode string // see live.World
}

// directed puts the directives of the mode into the text of the world's file.
func (w liveWorld) directed(text string) string {
	switch w.mode {
	case "unknown":
		return "//prutalgen:unknown_fields\n" + text
	case "values":
		return regexp.MustCompile(`(?m)^( *)message `).ReplaceAllString(text, "$1//prutalgen:no_pointer\n${1}message ")
	}
	return text
}

func liveWorlds(tier string) (out []liveWorld) {
	modes := map[*File]string{}
	addMode := func(syntax string, ff []Opt, mode string) *File {
		f := liveFile(syntax, len(out), ff)
		modes[f] = mode
		out = append(out, liveWorld{&Schema{Files: []*File{f, liveOther()}}, mode})
		return f
	}
	tryMsg := func(f *File, m *Msg, clash bool) {
		m.Name = fmt.Sprintf("M%d", len(f.Msgs)-1)
		for i := range m.Fields {
			if m.Fields[i].Type == "M" {
				m.Fields[i].Type = m.Name
			}
		}
		g := *f
		g.Msgs = []*Msg{f.Msgs[0], m}
		v := (&Schema{Files: []*File{&g, liveOther()}}).Verdict()
		if !v.OK {
			return
		}
		if clash { // leave out what even the official generator's code does not avoid
			off, err := Official(v.Set, g.Name, true)
			if err != nil || len(compileErrors(off)) > 0 {
				return
			}
		}
		f.Msgs = append(f.Msgs, m)
	}
	try := func(f *File, fields ...Field) {
		for _, x := range fields {
			if modes[f] == "values" && x.Type == "M" && x.Key == "" && x.Label != "repeated" && x.Oneof == "" {
				return // a struct cannot contain itself
			}
			if modes[f] == "values" && x.Type == "E2" && x.Key == "" && x.Label != "repeated" && x.Oneof == "" {
				return // its first value is not 0, so unset cannot be told from 0
			}
		}
		tryMsg(f, &Msg{Fields: fields}, false)
	}
	for _, sy := range syntaxes {
		type variant struct {
			ff   []Opt
			mode string
		}
		vs, fo := []variant{{}}, fieldOpts[:3]
		if sy == "2023" {
			vs, fo = nil, fieldFeat[:6]
			for _, x := range fileFeat {
				vs = append(vs, variant{x, ""})
			}
		}
		vs = append(vs, variant{nil, "values"}, variant{nil, "unknown"})
		for fi, v := range vs {
			f := addMode(sy, v.ff, v.mode)
			for oi, o := range fo {
				for _, l := range labels {
					if strings.HasPrefix(l, "map:") && (fi > 0 && v.mode == "" || oi > 0) {
						continue
					}
					if oi > 0 && sy != "2023" && l != "repeated" {
						continue
					}
					for ti, t := range liveTypes {
						try(f, fieldOf(l, t, "f", numbers[(ti+oi)%len(numbers)], o))
					}
				}
			}
			// a oneof with all types, and oneofs beside it
			var all []Field
			for ti, t := range liveTypes {
				all = append(all, fieldOf("oneof", t, fmt.Sprintf("f%d", ti), ti+1, nil))
			}
			try(f, all...)
		}
	}
	// the types the official library ships
	for _, sy := range syntaxes {
		f := addMode(sy, nil, "")
		f.Imports = nil
		seen := map[string]bool{}
		for _, w := range wellKnowns {
			if !seen[w.file] {
				seen[w.file] = true
				f.Imports = append(f.Imports, Import{Path: w.file})
			}
		}
		for _, l := range []string{"", "optional", "repeated", "oneof", "map:string"} {
			for _, w := range wellKnowns {
				try(f, fieldOf(l, w.name, "f", 1, nil))
			}
		}
	}
	// JSON names that look like other parts of the struct tag they are put in
	for _, sy := range syntaxes {
		f := addMode(sy, nil, "")
		for _, j := range []string{"a,7", "7,a", "a,fixed32", "a,varint", "a,zigzag64", "a,rep", "a,req", "a,packed", "a,group,x", "a,bytes", "packed", "9", " 9 ", "a, 9", "a,def=1", "a\\\"7"} {
			for _, l := range []string{"", "optional", "repeated", "oneof", "map:string"} {
				for k, t := range []string{"int32", "sint64", "fixed32", "string", "M"} {
					try(f, fieldOf(l, t, "f", k+1, []Opt{{"json_name", `"` + j + `"`}}))
				}
			}
		}
	}
	// members whose Go names, or those of the types they need, clash
	names := []string{"a", "A", "get_a", "a_"}
	for _, sy := range []string{"proto2", "proto3"} {
		f := addMode(sy, nil, "")
		r := []int{len(memberKinds), len(memberKinds), len(names), len(names)}
		for i := int64(0); i < product(r...); i++ {
			d := digits(i, r...)
			if sy == "proto2" && d[0] > d[1] {
				continue
			}
			m := &Msg{Name: "M"}
			addMember(m, memberKinds[d[0]], names[d[2]], 0)
			addMember(m, memberKinds[d[1]], names[d[3]], 1)
			if len(m.Fields) > 0 {
				tryMsg(f, m, true)
			}
		}
	}
	seq := srcSequences()
	byS := map[string]*File{}
	for i := int64(0); i < seq.n; i++ {
		if i%2 == 1 && tier == "quick" {
			continue // other field numbers
		}
		src := seq.make(i).Files[0]
		for _, mode := range []string{"", "values", "unknown"} {
			f := byS[src.Syntax+mode]
			if f == nil || len(f.Msgs) > 500 {
				f = addMode(src.Syntax, nil, mode)
				byS[src.Syntax+mode] = f
			}
			f0 := src.Msgs[0].Fields
			if mode == "" || tier != "quick" || f0[0].Type == "int32" || f0[0].Oneof != "" || f0[0].Key != "" {
				try(f, append([]Field{}, f0...)...)
			}
		}
	}
	return
}

func toP(s string) string { return strings.ReplaceAll(s, liveRoot+"o/", liveRoot+"p/") }

// EmitLive writes to dir; the overlay is dir/overlay.json.
func EmitLive(dir, mcDir, tier string) error {
	repl := map[string]string{}
	put := func(rel, text string) error {
		fn := filepath.Join(dir, rel)
		os.MkdirAll(filepath.Dir(fn), 0755)
		repl[filepath.Join(mcDir, rel)] = fn
		return os.WriteFile(fn, []byte(text), 0644)
	}
	var reg bytes.Buffer
	var imports bytes.Buffer
	seen := map[string]bool{}
	broken := func(name, what string) {
		fmt.Fprintf(&reg, "\tBroken = append(Broken, [2]string{%q, %q})\n", name, what)
	}
	for _, s := range liveWorlds(tier) {
		v := s.Verdict()
		if !v.OK {
			return fmt.Errorf("world %s: %s", s.Files[0].Name, v.Text)
		}
		name := strings.TrimSuffix(path.Base(s.Files[0].Name), ".proto")
		off, err := Official(v.Set, s.Files[0].Name, true)
		if err != nil {
			return err
		}
		w := s.World(false)
		for n, t := range w.Files {
			if t = toP(t); n == w.Root {
				t = s.directed(t)
			}
			w.Files[n] = t
		}
		r := Prutal(w, GenOpts{Getter: true, All: true, Kitex: true})
		if !r.OK || r.Panic != "" {
			broken(name, r.Fatal+r.Err+r.Panic)
			continue
		}
		if e := compileErrors(r.Files); len(e) > 0 {
			broken(name, strings.Join(e, "; "))
			continue
		}
		for n, t := range off {
			if !seen[n] {
				seen[n] = true
				if err := put(strings.TrimPrefix(n, "verif/mc/"), t); err != nil {
					return err
				}
			}
		}
		for n, t := range r.Files {
			if !seen[n] {
				seen[n] = true
				if err := put(strings.TrimPrefix(n, "verif/mc/"), t); err != nil {
					return err
				}
			}
		}
		fmt.Fprintf(&imports, "\to%s \"%so/%s\"\n\tp%s \"%sp/%s\"\n", name, liveRoot, name, name, liveRoot, name)
		fmt.Fprintf(&reg, "\tWorlds = append(Worlds, &World{Name: %q, Mode: %q, Text: %q,\n\t\tMsgs: []Msg{\n", name, s.mode, w.Files[w.Root])
		for _, m := range s.Files[0].Msgs {
			fmt.Fprintf(&reg, "\t\t\t{%q, func() proto.Message { return new(o%s.%s) }, func() any { return new(p%s.%s) }},\n", m.Name, name, m.Name, name, m.Name)
		}
		fmt.Fprintf(&reg, "\t\t},\n\t\tEnums: []Enum{\n")
		es := []string{"N_NE"}
		for _, e := range s.Files[0].Enums {
			es = append(es, e.Name)
		}
		for _, e := range es {
			fmt.Fprintf(&reg, "\t\t\t{%q, o%s.%s(0), p%s.%s(0), [2]map[int32]string{o%s.%s_name, p%s.%s_name}, [2]map[string]int32{o%s.%s_value, p%s.%s_value}},\n", e, name, e, name, e, name, e, name, e, name, e, name, e)
		}
		fmt.Fprintf(&reg, "\t\t},\n\t})\n")
	}
	src := "package live\n\nimport (\n\t\"google.golang.org/protobuf/proto\"\n" + imports.String() + ")\n\nvar _ proto.Message\n\nfunc init() {\n" + reg.String() + "}\n"
	if err := put("live/zz_registry.go", src); err != nil {
		return err
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	return os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0644)
}
