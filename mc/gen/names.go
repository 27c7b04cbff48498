package gen

import (
	"fmt"
	"path/filepath"
	"strings"

	"verif/mc/core"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
	"google.golang.org/protobuf/types/descriptorpb"
)

// ---- name resolution: every small world of declarations, every reference

// the places a declaration can be in: file, path below the file's package
var declPlaces = []struct {
	file int
	path string
}{{0, "M.K.A"}, {0, "M.A"}, {0, "M.A.B"}, {0, "M.p"}, {0, "A"}, {0, "A.B"}, {0, "B"}, {0, "q"}, {1, "A"}, {1, "A.B"}, {1, "B"}, {1, "M.A"}, {2, "A"}, {2, "B"}, {2, "q.A"}, {1, "pxA"}}

var refWorldPkgs = []string{"", "p", "p.q", "q"}

// file 0 is the root, file 1 its import, file 2 reached in some way
var importGraphs = []string{"import", "public", "both", "public chain", "unused"}

type refSpace struct {
	sets [][]int // declared places
	refs []string
	pkgs [][3]string
}

func newRefSpace(maxDecls, maxParts int, pkgs []string) *refSpace {
	s := &refSpace{}
	var rec func(from int, cur []int)
	rec = func(from int, cur []int) {
		ok := true // a nested place needs its parent (or a wrapper is made)
		for _, a := range cur {
			p := declPlaces[a]
			if i := strings.LastIndexByte(p.path, '.'); i >= 0 && !strings.HasPrefix(p.path, "M.") && !strings.HasPrefix(p.path, "q.") || strings.HasPrefix(p.path, "M.A.") {
				parent, found := p.path[:i], false
				for _, b := range cur {
					found = found || declPlaces[b].file == p.file && declPlaces[b].path == parent
				}
				ok = ok && found
			}
		}
		if ok {
			s.sets = append(s.sets, append([]int(nil), cur...))
		}
		if len(cur) == maxDecls {
			return
		}
		for i := from; i < len(declPlaces); i++ {
			rec(i+1, append(cur, i))
		}
	}
	rec(0, nil)
	parts := []string{"A", "B", "M", "p", "q"}
	level := []string{""}
	for n := 1; n <= maxParts; n++ {
		var next []string
		for _, l := range level {
			for _, p := range parts {
				r := p
				if l != "" {
					r = l + "." + p
				}
				next = append(next, r)
			}
		}
		s.refs = append(s.refs, next...)
		level = next
	}
	// names that begin like a package or message, but are others
	s.refs = append(s.refs, "pxA", "pxA.B", "p.pxA", "p.qxA", "MxA", "M.KxA", "Mx.A", "px.A")
	for _, r := range append([]string(nil), s.refs...) {
		s.refs = append(s.refs, "."+r)
	}
	for _, a := range pkgs {
		for _, b := range pkgs {
			for _, c := range pkgs {
				s.pkgs = append(s.pkgs, [3]string{a, b, c})
			}
		}
	}
	return s
}

type declNode struct {
	name string
	enum bool
	real bool
	kids []*declNode
}

func (n *declNode) child(name string) *declNode {
	for _, k := range n.kids {
		if k.name == name {
			return k
		}
	}
	k := &declNode{name: name}
	n.kids = append(n.kids, k)
	return k
}

func (n *declNode) print(b *strings.Builder, full, hook, body string) {
	if n.enum && len(n.kids) == 0 && n.real {
		fmt.Fprintf(b, "enum %s { V_%s = 0; }\n", n.name, strings.ReplaceAll(full, ".", "_"))
		return
	}
	fmt.Fprintf(b, "message %s {\n", n.name)
	if full == hook {
		b.WriteString(body)
	}
	for _, k := range n.kids {
		k.print(b, full+"."+k.name, hook, body)
	}
	b.WriteString("}\n")
}

// world prints one; body goes into message M.K of the root, rpc into its service.
func (s *refSpace) world(set []int, pk [3]string, graph string, enums, svc bool, body, rpc string) World {
	w := World{Files: map[string]string{}, Root: "r.proto"}
	for f := 0; f < 3; f++ {
		root := &declNode{}
		if f == 0 {
			root.child("M").child("K")
		}
		for _, i := range set {
			if p := declPlaces[i]; p.file == f {
				n := root
				for _, c := range strings.Split(p.path, ".") {
					n = n.child(c)
				}
				n.real, n.enum = true, enums
			}
		}
		var b strings.Builder
		b.WriteString("syntax = \"proto3\";\n")
		if pk[f] != "" {
			fmt.Fprintf(&b, "package %s;\n", pk[f])
		}
		fmt.Fprintf(&b, "option go_package = \"x.y/f%d\";\n", f)
		switch {
		case f == 0:
			b.WriteString("import \"d1.proto\";\n")
			if graph == "both" {
				b.WriteString("import \"d2.proto\";\n")
			}
		case f == 1:
			switch graph {
			case "import", "both":
				b.WriteString("import \"d2.proto\";\n")
			case "public":
				b.WriteString("import public \"d2.proto\";\n")
			case "public chain":
				b.WriteString("import public \"mid.proto\";\n")
				w.Files["mid.proto"] = "syntax = \"proto3\";\npackage mid;\noption go_package = \"x.y/mid\";\nimport public \"d2.proto\";\n"
			}
		}
		for _, k := range root.kids {
			k.print(&b, k.name, "M.K", body)
		}
		if f == 0 && rpc != "" {
			b.WriteString(rpc)
		}
		if f == 1 && svc {
			b.WriteString("service p { }\n")
		}
		name := "r.proto"
		if f > 0 {
			name = fmt.Sprintf("d%d.proto", f)
		}
		w.Files[name] = b.String()
	}
	return w
}

func descKind(v *Verdict, full string) string {
	for _, f := range v.Set.File {
		pre := "."
		if f.GetPackage() != "" {
			pre = "." + f.GetPackage() + "."
		}
		if !strings.HasPrefix(full, pre) {
			continue
		}
		rest := strings.Split(full[len(pre):], ".")
		if findDesc(f.MessageType, f.EnumType, rest) {
			return f.GetName()
		}
	}
	return "?"
}

func findDesc(ms []*descriptorpb.DescriptorProto, es []*descriptorpb.EnumDescriptorProto, path []string) bool {
	for _, m := range ms {
		if m.GetName() == path[0] {
			return len(path) == 1 || findDesc(m.NestedType, m.EnumType, path[1:])
		}
	}
	if len(path) == 1 {
		for _, e := range es {
			if e.GetName() == path[0] {
				return true
			}
		}
	}
	return false
}

// typeName says what prutalgen resolved a type to.
func typeName(t *prutalgen.Type) (full, file, goName string) {
	switch {
	case t.IsMessage():
		m := t.Message()
		return "." + m.FullName(), filepath.Base(m.Proto.ProtoFile), m.GoName
	case t.IsEnum():
		e := t.Enum()
		return "." + e.FullName(), filepath.Base(e.Proto.ProtoFile), e.GoName
	}
	return "", "", ""
}

func (s *refSpace) space(name string) *core.Space {
	flav := 4 // messages/enums at the leaves; a service named p in file 1
	r := []int{len(s.sets), len(s.pkgs), len(importGraphs), flav}
	describe := func(i int64) string {
		d := digits(i, r...)
		return s.world(s.sets[d[0]], s.pkgs[d[1]], importGraphs[d[2]], d[3]&1 > 0, d[3]&2 > 0, "<fields>", "<rpcs>").String()
	}
	return &core.Space{Name: name, N: product(r...), Block: 16, Describe: describe, Run: func(i int64, c *core.Ctx) {
		d := digits(i, r...)
		mk := func(body, rpc string) World {
			return s.world(s.sets[d[0]], s.pkgs[d[1]], importGraphs[d[2]], d[3]&1 > 0, d[3]&2 > 0, body, rpc)
		}
		if !Protoc(mk("", "")).OK {
			c.Count("worlds-refused-by-protoc", 1)
			return
		}
		want := map[string]string{} // reference -> full name
		var good, bad []string
		check := func(ref string, f func(ref string) World, td func(fd *descriptorpb.FileDescriptorProto) string, pos string) {
			v := Protoc(f(ref))
			c.Count("references", 1)
			key := pos + ref
			if v.OK {
				want[key] = td(v.Set.File[len(v.Set.File)-1])
				good = append(good, key)
				return
			}
			if strings.Contains(v.Text, "is not a message type") && pos == "r:" {
				c.Count("not-a-message", 1) // protoc finds something, which is not a type
				return
			}
			bad = append(bad, key)
		}
		single := func(key string, f func(ref string) World, get func(p *prutalgen.Proto) *prutalgen.Type) {
			w := f(key[2:])
			res := Prutal(w, GenOpts{LoadOnly: true})
			if res.Panic != "" {
				c.Fail("panic", "panics: %s\n%s", res.Panic, w)
			} else if res.OK {
				full, file, _ := typeName(get(res.Protos[0]))
				c.Fail("resolved:"+key[:2], "reference %q: protoc refuses, prutalgen resolves it to %s of %s\n%s", key[2:], full, file, w)
			}
		}
		fieldWorld := func(ref string) World { return mk("  "+ref+" f = 1;\n", "") }
		rpcWorld := func(ref string) World { return mk("", "service S { rpc Do("+ref+") returns ("+ref+"); }\n") }
		for _, ref := range s.refs {
			check(ref, fieldWorld,
				func(fd *descriptorpb.FileDescriptorProto) string { return kDesc(fd).Field[0].GetTypeName() }, "f:")
			if d[3]&1 == 0 {
				check(ref, rpcWorld,
					func(fd *descriptorpb.FileDescriptorProto) string { return fd.Service[0].Method[0].GetInputType() }, "r:")
			}
		}
		// the refused ones in one go, going on after errors; each alone if that shows anything odd
		w, n := batch(mk, bad)
		res := Prutal(w, GenOpts{LoadOnly: true, Soft: true})
		c.Trans(len(bad))
		odd := res.Panic != "" || res.Fatals != n || len(res.Protos) == 0
		if !odd {
			for _, f := range kMessage(res.Protos[0]).Fields {
				odd = odd || f.Type.IsMessage() || f.Type.IsEnum()
			}
			for _, m := range res.Protos[0].Services[0].Methods {
				for _, t := range []*prutalgen.Type{m.Request, m.Return} {
					odd = odd || t.IsMessage() || t.IsEnum()
				}
			}
		}
		if odd {
			c.Count("refused-one-by-one", 1)
			for _, key := range bad {
				if key[0] == 'f' {
					single(key, fieldWorld, func(p *prutalgen.Proto) *prutalgen.Type { return kMessage(p).Fields[0].Type })
				} else {
					single(key, rpcWorld, func(p *prutalgen.Proto) *prutalgen.Type { return p.Services[0].Methods[0].Request })
				}
			}
		}
		// the accepted ones in one go
		w, _ = batch(mk, good)
		v := Protoc(w)
		if !v.OK {
			panic("batch refused: " + v.Text + w.String())
		}
		res = Prutal(w, GenOpts{LoadOnly: true})
		c.Trans(len(good))
		c.Trace(1)
		if !res.OK {
			c.Fail("refused:"+errClass(res.Fatal), "protoc resolves every reference, prutalgen says %s %s\n%s", res.Fatal, res.Panic, w)
			return
		}
		fi, mi := 0, 0
		for _, key := range good {
			var ts []*prutalgen.Type
			if key[0] == 'f' {
				ts = []*prutalgen.Type{kMessage(res.Protos[0]).Fields[fi].Type}
				fi++
			} else {
				m := res.Protos[0].Services[0].Methods[mi]
				ts = []*prutalgen.Type{m.Request, m.Return}
				mi++
			}
			for _, t := range ts {
				full, file, goName := typeName(t)
				wfile := descKind(v, want[key])
				c.StateStr(key + want[key] + wfile)
				if full != want[key] || file != wfile {
					c.Fail("wrong:"+key[:2], "reference %q resolves to %s of %s; protoc says %s of %s\n%s", key[2:], full, file, want[key], wfile, w)
					continue
				}
				pkg := map[string]string{"r.proto": "f0", "d1.proto": "f1", "d2.proto": "f2"}[file]
				if file == "r.proto" {
					if t.IsExternalType() || t.GoName() != goName || t.GoImport() != "x.y/f0" {
						c.Fail("external", "type %s of the file itself is external %v, Go name %s, import %s\n%s", full, t.IsExternalType(), t.GoName(), t.GoImport(), w)
					}
				} else if !t.IsExternalType() || t.GoName() != pkg+"."+goName || t.GoImport() != "x.y/"+pkg {
					c.Fail("external", "type %s of %s: external %v, Go name %s, import %s\n%s", full, file, t.IsExternalType(), t.GoName(), t.GoImport(), w)
				}
			}
		}
	}}
}

// batch is the world with all the references, and the number of them.
func batch(mk func(body, rpc string) World, keys []string) (World, int) {
	var body, rpc strings.Builder
	n := 0
	for k, key := range keys {
		if key[0] == 'f' {
			fmt.Fprintf(&body, "  %s f%d = %d;\n", key[2:], k, k+1)
			n++
		} else {
			fmt.Fprintf(&rpc, "  rpc D%d(%s) returns (%s);\n", k, key[2:], key[2:])
			n += 2
		}
	}
	return mk(body.String(), "service S {\n"+rpc.String()+"}\n"), n
}

func kMessage(p *prutalgen.Proto) *prutalgen.Message {
	for _, m := range p.Messages {
		if m.Name == "M" {
			for _, k := range m.Messages {
				if k.Name == "K" {
					return k
				}
			}
		}
	}
	panic("no M.K")
}

func kDesc(fd *descriptorpb.FileDescriptorProto) *descriptorpb.DescriptorProto {
	for _, m := range fd.MessageType {
		if m.GetName() == "M" {
			for _, k := range m.NestedType {
				if k.GetName() == "K" {
					return k
				}
			}
		}
	}
	panic("no M.K")
}
