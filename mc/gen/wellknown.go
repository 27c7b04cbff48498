package gen

import (
	"sort"
	"strings"

	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	_ "google.golang.org/protobuf/types/descriptorpb"
	_ "google.golang.org/protobuf/types/known/anypb"
	_ "google.golang.org/protobuf/types/known/apipb"
	_ "google.golang.org/protobuf/types/known/durationpb"
	_ "google.golang.org/protobuf/types/known/emptypb"
	_ "google.golang.org/protobuf/types/known/fieldmaskpb"
	_ "google.golang.org/protobuf/types/known/sourcecontextpb"
	_ "google.golang.org/protobuf/types/known/structpb"
	_ "google.golang.org/protobuf/types/known/timestamppb"
	_ "google.golang.org/protobuf/types/known/typepb"
	_ "google.golang.org/protobuf/types/known/wrapperspb"
)

type wellKnown struct{ name, file string }

// the types the official library ships, with the files they are in
var wellKnowns = func() (out []wellKnown) {
	protoregistry.GlobalFiles.RangeFilesByPackage("google.protobuf", func(fd protoreflect.FileDescriptor) bool {
		p := fd.Path()
		if !strings.HasPrefix(p, "google/protobuf/") || strings.HasSuffix(p, "features.proto") {
			return true
		}
		enums := func(l protoreflect.EnumDescriptors) {
			for i := 0; i < l.Len(); i++ {
				out = append(out, wellKnown{string(l.Get(i).FullName()), p})
			}
		}
		var msgs func(l protoreflect.MessageDescriptors)
		msgs = func(l protoreflect.MessageDescriptors) {
			for i := 0; i < l.Len(); i++ {
				if m := l.Get(i); !m.IsMapEntry() {
					out = append(out, wellKnown{string(m.FullName()), p})
					enums(m.Enums())
					msgs(m.Messages())
				}
			}
		}
		enums(fd.Enums())
		msgs(fd.Messages())
		return true
	})
	sort.Slice(out, func(i, k int) bool { return out[i].name < out[k].name })
	return
}()

// a field of every well-known type, its file imported directly, through
// another file, or along with all others
func srcWellKnown() schemaSpace {
	ls := []string{"", "optional", "repeated", "oneof", "map:string", "map:int32"}
	forms := []string{"google.protobuf.", ".google.protobuf.", "protobuf."} // the last from package google.x
	ways := [][2]int{{0, 0}, {0, 1}, {0, 2}, {1, 0}, {2, 2}}
	r := []int{len(syntaxes), len(ways), len(ls), len(wellKnowns)}
	return schemaSpace{name: "well-known", n: product(r...), make: func(i int64) *Schema {
		d := digits(i, r...)
		f := baseFile(syntaxes[d[0]])
		way := ways[d[1]]
		if way[1] == 2 {
			f.Pkg = "google.x"
		}
		wk := wellKnowns[d[3]]
		f.Msgs[0].Fields = []Field{fieldOf(ls[d[2]], strings.Replace(wk.name, "google.protobuf.", forms[way[1]], 1), "f", 1, nil)}
		s := &Schema{Files: []*File{f}}
		switch way[0] {
		case 0:
			f.Imports = []Import{{Path: wk.file}}
		case 1:
			o := otherFile()
			o.Imports = []Import{{Path: wk.file, Public: true}}
			f.Imports = []Import{{Path: "other.proto"}}
			s.Files = append(s.Files, o)
		case 2:
			seen := map[string]bool{}
			for _, w := range wellKnowns {
				if !seen[w.file] {
					seen[w.file] = true
					f.Imports = append(f.Imports, Import{Path: w.file})
				}
			}
		}
		return s
	}}
}
