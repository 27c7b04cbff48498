package gen

import "verif/mc/core"

func fieldSources() []schemaSpace {
	out := []schemaSpace{}
	for _, s := range syntaxes {
		out = append(out, srcFields(s))
	}
	return append(out, srcNumbers(), srcSequences(), srcWellKnown())
}

func structSources() []schemaSpace {
	return []schemaSpace{srcTrees(), srcImports(), srcComments()}
}

const ruleSchema = "A case is one world of proto files. prutalgen (library entry points of its main function) and protoc's front end plus the official protoc-gen-go, both linked into the checker, run on it; "

var trust = []string{"libprotoc 3.21 and google.golang.org/protobuf v1.36.11 (compiler/protogen, protoc-gen-go) give the intended meaning", "constructs the documentation lists as unsupported (default values, groups, extensions, edition 2024, delimited fields, message sets) are outside the enumerated grammar"}

// All is the list of generator properties.
var All = []*core.Prop{
	{ID: "G01", Level: "model_checking", Rule: ruleSchema + "the generated file is type-checked against the real dependencies, and its declarations must contain every message, enum, value, field and oneof of protoc's descriptor. A case is non-trivial when protoc accepts the world.",
		Bounds: "every field type x label x option x syntax/edition at three nesting levels, every ordered pair of field shapes, all message/enum/oneof nesting trees of the bounded grammar, import graphs of up to three files with clashing package names, comments at every position", Assume: trust,
		Spaces: func(tier string) (out []*core.Space) {
			for _, s := range append(structSources(), fieldSources()...) {
				out = append(out, s.space("ac"))
			}
			return
		}},
	{ID: "G02", Level: "model_checking", Rule: ruleSchema + "Go type and struct tag of every generated field are compared with the official generator's (name, number, wire type, cardinality, packedness, map and oneof tags; pointer or value). A case is non-trivial when protoc accepts the world.",
		Bounds: "every scalar, enum, message, map type x label x packed option x oneof x proto2, proto3, edition 2023 with every combination of file and field features, at three nesting levels; every boundary field number", Assume: trust,
		Spaces: func(tier string) (out []*core.Space) {
			for _, s := range fieldSources() {
				out = append(out, s.space("t"))
			}
			return
		}},
	{ID: "G05", Level: "model_checking", Rule: "A case is one world: a set of definitions of up to three names at every scope (package prefixes, outer, inner message, imports, public imports) with all references of the bounded form in it. Every reference prutalgen accepts must denote the type protoc gives it and every reference protoc refuses must be refused.",
		Bounds: "all definition sets over two names and up to four packages; references of up to 2 (3) components, relative and absolute, from every scope", Assume: trust[:1],
		Spaces: func(tier string) []*core.Space {
			if tier == "quick" {
				return []*core.Space{newRefSpace(2, 2, refWorldPkgs[:3]).space("references")}
			}
			return []*core.Space{newRefSpace(3, 2, refWorldPkgs).space("references"), newRefSpace(2, 3, refWorldPkgs).space("long references")}
		}},
	{ID: "G06", Level: "model_checking", Rule: ruleSchema + "the names of all generated types, fields, constants, variables and methods common to both generators are compared, and the code must compile. A case is non-trivial when protoc accepts the world.",
		Bounds: "every identifier of up to 3 (4) characters over one representative per character class plus reserved words, in every role; every pair and triple of names from the clash alphabet in every pair of roles; all nesting trees", Assume: trust,
		Spaces: func(tier string) (out []*core.Space) {
			n := 3
			if tier == "thorough" {
				n = 4
			}
			for _, s := range []schemaSpace{srcNames(n), srcClashes(), srcClash3(), srcTrees(), srcImports()} {
				out = append(out, s.space("ngc"))
			}
			return
		}},
	{ID: "G04", Level: "model_checking", Rule: "A case is one file; prutalgen's verdict is compared with protoc's, whose complaint names the broken rule. Files protoc accepts must be accepted; files it refuses for one of the listed rules must be refused. Complaints about other rules are counted and left out.",
		Bounds: "every pair of 20 boundary field numbers x 24 reserved statements x 4 positions x 2 syntaxes; every pair of 17 enum numbers x aliases x 15 reserved statements x positions; every pair of declarations in 12 roles with equal and different names", Assume: trust[:1],
		Spaces: func(tier string) (out []*core.Space) {
			return []*core.Space{numberSpace(), enumSpace(), negSpace(), dupSpace()}
		}},
	{ID: "G07", Level: "model_checking", Rule: "A case is one world of proto files. Each file generated by a run of its own is the reference; the files are generated again in every order by one run, with every order of import statements, and with every enumerated choice of map iteration orders (the check is built with a runtime whose map iterations start where it says). A case is non-trivial when each file alone is accepted.",
		Bounds: "four files in a diamond with every choice of three (six) Go packages each, public or not, proto2 and proto3; all 24 orders and all repetitions; all permutations of import statements; all histories of three (four) loads with one loader over 22 files, 14 of which fail in different places; every starting point of every map iteration in prutalgen (thorough: of every pair), the same one everywhere", Assume: []string{"the order of a map of up to 8 entries is a rotation of the insertion order, as in this Go version; larger maps are covered for eight starting points"},
		Spaces: func(tier string) []*core.Space {
			if tier == "quick" {
				return []*core.Space{orderSpace(3), importSpace(3), mapSpace(3, 1), historySpace(3)}
			}
			return []*core.Space{orderSpace(6), importSpace(6), mapSpace(4, 2), historySpace(4)}
		}},
	{ID: "G11", Level: "model_checking", Rule: "A case is one command line and one directory of proto files; the real prutalgen command runs there, and the exit status and all files afterwards are compared with a reference model of the options. A case is non-trivial when the command succeeds.",
		Bounds: "all combinations of 9 include lists x 16 argument lists x 6 output directories x 5 path options; of 9 x 5 go_package forms x 8 M options x 3 x 3 x 2; of argument lists, outputs, M options, getters and left-over files; 18 odd file names, include and output paths (thorough: include x argument x output x path x package x M together)", Assume: []string{"with paths=source_relative the output is next to the proto file, whatever go_out says, as in the tests"},
		Spaces: cliSpaces},
	{ID: "G12", Level: "model_checking", Rule: "A case is one file with directives and options; the code generated from it is compiled and compared with the code generated without them, changed as a model of the directives says. Every case is non-trivial.",
		Bounds: "every directive in 13 forms of comments before and 4 behind each of 25 declarations x 3 syntaxes; every gogoproto option with every directive or option; every pair of directives (thorough: with options, in all syntaxes)", Assume: []string{"the code generated without directives is decided by G01, G02 and G06"},
		Spaces: dirSpaces},
	{ID: "G13", Level: "model_checking", Rule: "A case is one world of proto files; prutalgen loads it and everything its exported model says of files, imports, messages, fields, oneofs, enums, values, services, methods, types, options and reserved numbers is compared, fact by fact, with what protogen says. A case is non-trivial when both accept it.",
		Bounds: "the worlds of G02, the names, clashes, nesting and imports of G06; all pairs of 14 message references x 4 stream forms x 6 bodies x 4 syntaxes in methods; every identifier of up to 3 (4) characters as service and method; every pair of 57 options in all places; every pair of 11 x 17 reserved statements", Assume: trust,
		Spaces: apiSpaces},
	{ID: "G14", Level: "model_checking", Rule: "A case is one sequence of calls of a CodeWriter, compared with a reference model after each call; or one world of proto files, whose declarations generated one by one, by writers that are fresh or have been used, and whose files written by Gen, are compared with what ProtoGen gives; or one world of which every choice of files is built in, compared with the same files loaded from disk. A case is non-trivial when the world is accepted.",
		Bounds: "all sequences of 4 (5) calls over 25 calls of the writer; the worlds of the field, nesting, import and comment spaces of G01 (quick: every 1st to 11th) with and without getters and marshalers; every subset of files built in for the worlds of the import and nesting spaces (quick: every 17th and 5th)", Assume: []string{"the code ProtoGen gives for a file is decided by G01, G02, G06, G10 and G12"},
		Spaces: pieceSpaces},
	{ID: "G08", Level: "model_checking", Rule: "A case is one literal put where a literal may be; the value prutalgen loads is compared with the value in protoc's descriptor, and literals protoc refuses must be refused. A case is non-trivial when protoc accepts it.",
		Bounds: "every text of up to 4 (5) symbols over 17 after either opening quote; every escape of every byte and a list of Unicode escapes alone, doubled and adjacent; every number text of up to 4 (5) symbols over 13 in 6 positions", Assume: []string{"libprotoc 3.21 gives the intended meaning", "octal escapes above \\377 have no defined value"},
		Spaces: func(tier string) (out []*core.Space) {
			n := 4
			if tier == "thorough" {
				n = 5
			}
			return []*core.Space{stringSpace(n), escapeSpace(), literalNumberSpace(n)}
		}},
	{ID: "G09", Level: "model_checking", Rule: "A case is one text; prutalgen must not panic or hang, must load what protoc accepts with the same content, and must refuse what protoc's parser refuses apart from the listed tolerated forms. A case is non-trivial when protoc accepts it.",
		Bounds: "every replacement, insertion, deletion (53 tokens) and swap of one token of six files covering the grammar (thorough: every replacement of two neighbouring tokens); every token sequence of up to 4-6 (5-7) tokens in 11 contexts over 9-14 tokens each; every text of up to 3 (5) characters over 14 in 5 places between tokens", Assume: []string{"libprotoc 3.21 gives the intended meaning"},
		Spaces: func(tier string) (out []*core.Space) {
			if tier == "quick" {
				return []*core.Space{tokenSpace(), bodySpace(1), charSpace(3)}
			}
			return []*core.Space{tokenSpace(), bodySpace(0), charSpace(5), pairSpace()}
		}},
}

// Find returns the property with the id.
func Find(id string) *core.Prop {
	for _, p := range All {
		if p.ID == id {
			return p
		}
	}
	return nil
}
