#!/usr/bin/env python3
"""Authoring helper: writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, tech=None, note=None, claim=True):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, tech=tech, note=note, claim=claim))

ENC = ["internal/prutal/encoder.go", "internal/wire/encoder.go", "internal/wire/encoder_list.go", "internal/wire/encoder_packed.go", "internal/wire/encoder_map.go"]
DEC = ["internal/prutal/decoder.go", "internal/prutal/mapentry.go", "internal/prutal/span.go", "internal/wire/decoder_map.go", "internal/wire/decoder_packed.go", "internal/protowire/wire.go"]
SIZ = ["internal/prutal/sizer.go", "internal/wire/size.go", "internal/wire/size_map.go"]
DSC = ["internal/desc/desc.go", "internal/desc/type.go", "internal/desc/tag.go", "internal/desc/funcs.go", "internal/desc/utils.go", "internal/desc/map.go"]
GEN = ["prutalgen/pkg/prutalgen/prutalgen.go", "prutalgen/pkg/prutalgen/code.go", "prutalgen/pkg/prutalgen/field.go", "prutalgen/pkg/prutalgen/message.go", "prutalgen/pkg/prutalgen/enum.go", "prutalgen/pkg/prutalgen/type.go", "prutalgen/pkg/prutalgen/proto.go"]

prop("C01", "Marshal then Unmarshal gives back the same message",
 "For every value of a supported message type, unmarshalling the bytes produced by Marshal into a fresh message succeeds and yields an equal message: every scalar bit for bit, the presence of every field with explicit presence (pointers, oneof members set to zero, submessages, elements), the order of lists, every map entry and the preserved unknown fields. Marshal does not modify its argument.",
 ["inputs"], "every supported field type (each scalar kind x singular/optional/oneof/repeated/packed/map key/map value, messages by pointer and by value, unknown-field storage in both forms), each field number class, each value of that type",
 "The tests round-trip a few dozen hand-picked messages; the type x field-number x value space has thousands of specialised code paths (about 90 generated map coders alone).",
 ENC + DEC + DSC, [("per-type append/decode function selection", "internal/desc/funcs.go"), ("zero skipping and presence by pointers", "internal/prutal/encoder.go"), ("DecodeStruct", "internal/prutal/decoder.go")],
 ["Marshal", "Unmarshal"])
prop("C02", "Marshal output is the Protocol Buffers wire encoding other runtimes read",
 "For every value of a supported message type, Marshal emits exactly the records the Protocol Buffers encoding specification prescribes for it: right tag, wire type and minimal payload per field, fields in field-number order, packed where declared, zero values of implicit-presence fields omitted and set explicit-presence fields kept. The official Go implementation decodes these bytes to the same message, and encodes the message to the same records (up to map order).",
 ["inputs"], "every supported field type and value, as for C01",
 "Tests compare with the official library for a few fixed messages; round-trip tests cannot see an encoder and a decoder that are wrong in the same way.",
 ENC + DSC, [("wire.Append* encoders and tags computed from struct tags", "internal/wire/encoder.go"), ("LenReserve/LenPack back-patching of length prefixes", "internal/wire/encoder.go")],
 ["Marshal"])
prop("C03", "Unmarshal gives every well-formed input its specified meaning",
 "For every well-formed byte string, Unmarshal succeeds and produces the message the encoding specification assigns to it: fields in any order, the last value of a singular field winning, split submessages merged, repeated fields accepted packed, unpacked and mixed, map entries with missing, duplicated, reordered or unknown parts, non-minimal varints, over-wide integers truncated, any non-zero varint being true. The result is the same as that of a reference decoder on the same bytes.",
 ["inputs"], "every byte string that is well formed for the message type",
 "Tests decode what encoders normally write; other valid spellings of a message (order, splitting, packing, varint padding, partial map entries) form an unbounded input space.",
 DEC + DSC, [("DecodeStruct field loop", "internal/prutal/decoder.go"), ("packed and map entry decoders", "internal/wire/decoder_packed.go"), ("map entry normalisation", "internal/prutal/mapentry.go")],
 ["Unmarshal"])
prop("C04", "Unmarshal rejects malformed input with an error and never crashes",
 "For every byte string that is not a well-formed encoding for the message type (truncated anywhere, over-long or overflowing varint, length beyond the data, invalid field number or wire type, unbalanced group, known field with the wrong wire type), Unmarshal returns a non-nil error. For no input does it panic, read outside the input, corrupt memory, hang, or allocate much more than the input justifies.",
 ["inputs"], "every byte string up to the stated lengths over structured alphabets, every truncation and every byte-level edit of every seed encoding",
 "A parser reached with unsafe memory access must be right on all inputs; tests check a handful of malformed ones.",
 DEC, [("negative-length checks after every Consume call", "internal/prutal/decoder.go"), ("protowire parsing", "internal/protowire/wire.go")],
 ["Unmarshal"])
prop("C05", "Size always equals the length of the encoding",
 "For every message, Size returns exactly the number of bytes Marshal produces for it, and it fails exactly when Marshal fails. It does not modify the message.",
 ["inputs"], "every supported field type and value, including unset, nil and over-deep messages",
 "The sizer is a second implementation of the encoder with its own fast paths per key and value type; tests compare the two on some messages only.",
 SIZ + ENC, [("SizeStruct mirrors AppendStruct", "internal/prutal/sizer.go"), ("generated map size functions", "internal/wire/size_map.go")],
 ["Size", "Marshal"])
prop("C06", "MarshalAppend only appends, whatever buffer it is given",
 "For every message and every destination slice (nil, empty, any length and any spare capacity), MarshalAppend returns the original contents unchanged followed by exactly the bytes Marshal would produce. It never writes to the first len bytes nor beyond the capacity of the destination, and the message does not share memory with the result.",
 ["inputs"], "every supported value x every prefix length and spare capacity around the points where the encoder grows or back-patches the buffer",
 "Growth and back-patching of length prefixes depend on the remaining capacity at every append; tests use one or two buffers.",
 ENC, [("LenReserve/LenPack move the payload to make room for the length", "internal/wire/encoder.go")],
 ["MarshalAppend"])
prop("C07", "Unknown fields are kept byte for byte at the level they arrived",
 "When a message type has unknown-field storage, every record of the input whose field number the type does not declare is stored in arrival order, byte for byte, in the message (at whatever nesting level) that received it, and is written back verbatim by Marshal. A type without such storage ignores exactly those records and decodes everything else as usual.",
 ["inputs", "histories"], "every interleaving of known and unknown records of every wire type including nested groups, at each nesting level (submessage, list element, map value, oneof), for each storage form; every older/newer pair of schema versions",
 "Tests use one unknown record in one place; losing data needs particular interleavings and levels.",
 DEC + ENC, [("appendToUnknownFields / resetUnknownFields", "internal/prutal/decoder.go"), ("appendUnknownFields", "internal/prutal/encoder.go")],
 ["Unmarshal", "Marshal"])
prop("C08", "Decoded messages own their memory",
 "A decoded message never changes or becomes invalid because of anything that happens later: overwriting or reusing the input buffer, decoding other messages, encoding, appending to or overwriting strings, byte slices and lists of other decoded messages, or garbage collection. No two fields, elements or messages share writable memory, and a decoded value never refers to the input slice.",
 ["histories", "inputs"], "every sequence of decode, mutate, drop and collect operations up to the bound, with payload sizes at every boundary of the decoder's block allocator",
 "Aliasing and premature collection show only in particular histories and allocation offsets; tests compare values right after one decode.",
 ["internal/prutal/span.go", "internal/prutal/decoder.go", "internal/desc/type.go", "internal/hack/hack.go"], [("span bump allocator shared by messages through a pool", "internal/prutal/span.go"), ("Malloc chooses typed or untyped memory", "internal/prutal/decoder.go"), ("temporary map key/value variables", "internal/desc/type.go")],
 ["Unmarshal"])
prop("C09", "One nesting limit for every kind of nesting, enforced by all calls",
 "A message that nests up to 1000 levels, counting the message itself, encodes, sizes and decodes; one that nests deeper is refused by Marshal, Size and Unmarshal with an error. The limit counts the same way for every path of nesting edges (pointer, by-value, list, map value, oneof) and cyclic messages end in an error instead of exhausting the stack.",
 ["inputs"], "every combination of nesting edge kinds at depths around the limit",
 "Depth is accounted separately in each of the encoder, sizer and decoder paths; tests use one kind of nesting.",
 ["internal/prutal/encoder.go", "internal/prutal/sizer.go", "internal/prutal/decoder.go"], [("maxdepth parameter decremented per message", "internal/prutal/decoder.go")],
 ["Marshal", "Size", "Unmarshal"])
prop("C10", "Unsupported Go types are refused with an error, supported ones accepted",
 "For every Go struct type with protobuf tags, Marshal, Size and Unmarshal either all accept it and handle every field according to its tag, or all return an error; a type whose field types, tags or field numbers are inconsistent or unsupported is never silently misread, never panics and never corrupts memory. The verdict for a type is the same on every call and does not depend on which other types were used before.",
 ["programs", "histories"], "every combination of field Go type, tag wire type, repeated/packed/oneof flags and field number; every order in which related good and bad types are first used",
 "Types are user programs; tests cover a dozen errors, each in a fresh state.",
 DSC, [("checkTypeMatch", "internal/desc/desc.go"), ("struct tag parser", "internal/desc/tag.go"), ("descriptor caches", "internal/desc/type.go")],
 ["Marshal", "Size", "Unmarshal"])
prop("C11", "Concurrent use gives each caller the result of running alone",
 "When several goroutines marshal, size and unmarshal messages at the same time, including the first use of types that refer to each other, every call returns what it would have returned alone, and no data race occurs, for every interleaving of their steps.",
 ["schedules"], "all interleavings up to a preemption bound of two to three concurrent calls over fresh, related and cyclic types",
 "Tests run on whatever schedule the machine happens to produce; type registration, publication of descriptors and the object pools only break in particular interleavings.",
 ["internal/desc/desc.go", "internal/desc/map.go", "internal/desc/type.go", "internal/prutal/encoder.go", "internal/prutal/decoder.go"], [("lock-free descriptor cache with parse mutex", "internal/desc/map.go"), ("sync.Pool of encoders, decoders and map temporaries", "internal/prutal/decoder.go")],
 ["Marshal", "Size", "Unmarshal"])
prop("C12", "Unmarshal into a message that already has contents merges the input",
 "Unmarshalling into a message that already has known fields set gives the same known fields as unmarshalling the concatenation of an encoding of the old contents and the new input into a fresh message: absent fields are kept, singular scalars replaced, submessages merged, list elements appended, map entries added or replaced, the oneof switched. No element or entry of the result contains left-over data from memory that was used before.",
 ["histories"], "every pair and triple of inputs from the alphabet decoded in sequence into the same message, including after lists were cut to zero length with their capacity kept",
 "Tests decode into fresh messages.",
 DEC, [("slices are extended in place, maps reused, submessages merged", "internal/prutal/decoder.go")],
 ["Unmarshal"])
prop("C13", "Every call depends only on its arguments, also after failures",
 "The result of each Marshal, MarshalAppend, Size or Unmarshal call depends only on its arguments: no earlier call, whether it succeeded, failed or was given malformed, over-deep or unsupported input, influences it. After a failed call the library is as usable as before.",
 ["histories"], "every sequence of calls up to the bound drawn from succeeding and failing calls of every kind",
 "State is recycled through pools and caches, so corruption by a failing call surfaces in a later unrelated call; tests exercise calls in isolation.",
 ["internal/prutal/prutal.go", "internal/prutal/encoder.go", "internal/prutal/decoder.go", "internal/desc/type.go"], [("encoder/decoder pools, map temporaries, type caches", "internal/prutal/prutal.go")],
 ["Marshal", "Size", "Unmarshal"])
prop("C14", "The gRPC codec transports messages exactly as Marshal and Unmarshal",
 "The gRPC codec names itself proto, and for every message its Marshal and Unmarshal behave exactly as the library's Marshal and Unmarshal: same bytes, same decoded message, same errors.",
 ["inputs", "histories"], "every value of the alphabets and every malformed input, through the codec and through the library",
 "The codec has its own tests for one message.",
 ["pkg/grpccodec/grpccodec.go"], [("codec forwarding", "pkg/grpccodec")],
 ["grpccodec.PrutalCodec Marshal, Unmarshal, Name"])

prop("C15", "Code of the official Protocol Buffer Go generator works unchanged",
 "For every message type that the official protoc-gen-go generates (with its open structs) from files using supported features, Marshal, MarshalAppend, Size and Unmarshal work on the type as generated: oneof wrappers are found, unknown fields are kept in the type's own storage and written back, the bytes are read by the official library as an equal message, and the official library's bytes are decoded to a message the official library deems equal. The message stays usable by the official library before and after.",
 ["inputs", "programs"], "every message type of the bounded file grammar as compiled by protoc-gen-go, every value of the alphabets, with and without unknown records",
 "The tests use one or two generated files; the descriptor is found by reflection through private types of another module, and the fields of protoimpl sit between the user's.",
 DSC + ENC + DEC, [("oneof wrappers by reflection", "internal/desc/utils.go"), ("unknownFields of protoimpl", "internal/desc/desc.go")],
 ["Marshal", "MarshalAppend", "Size", "Unmarshal"])

prop("C16", "A call allocates memory in proportion to the data it handles",
 "The memory a call allocates is bounded by a fixed multiple of the data it handles, for every input and message: Size allocates nothing (README), MarshalAppend allocates nothing if the buffer has enough room, Marshal allocates a small multiple of its output, and Unmarshal a small multiple of its input and of the elements the input has - nothing for lengths that are only claimed, and no more for malformed inputs. Giving a record n times, with the same or other contents, or nesting messages n deep, in any kind of container, costs about n times as much, not n times n.",
 ["inputs"], "every sequence of ways to write records of every field shape, repeated; every pair of nesting edges, repeated; at two lengths",
 "Tests look at results, and benchmarks at a few sizes of a few messages; what a short input can make a server allocate depends on combinations of records and containers.",
 DEC + ENC, [("growth of lists", "internal/prutal/decoder.go"), ("span allocator", "internal/prutal/span.go"), ("map entries", "internal/prutal/mapentry.go"), ("packed lists", "internal/wire/decoder_packed.go")],
 ["Marshal", "MarshalAppend", "Size", "Unmarshal"])

prop("C17", "The work of a call grows in proportion to the data it handles",
 "The number of steps a call takes is bounded by a fixed multiple of the size of the input or message, also for malformed inputs: no step count depends on lengths or numbers that are only claimed, giving a record n times or nesting messages n deep costs about n times as much, not n times n, and Size and Marshal visit each part of a message a fixed number of times.",
 ["inputs"], "every sequence of ways to write records of every field shape, repeated; every pair of nesting edges, repeated; at two lengths",
 "Tests look at results, and benchmarks at a few sizes of a few messages; how the work grows depends on combinations of records and containers.",
 DEC + ENC, [("skipping and keeping unknown fields", "internal/prutal/decoder.go"), ("sizes of nested messages", "internal/prutal/sizer.go"), ("length prefixes", "internal/wire/encoder.go")],
 ["Marshal", "MarshalAppend", "Size", "Unmarshal"])

prop("G01", "Valid proto files are accepted and the generated Go compiles",
 "For every proto file that protoc accepts and that uses only features documented as supported, prutalgen succeeds and generates Go code that compiles, with every message, enum, enum value, field, oneof and nested type of the file present.",
 ["programs"], "every schema of the bounded grammar: each construct at each position, and every ordered pair of constructs",
 "Tests compile a few example files; the generator has separate branches per construct and nesting position.",
 GEN, [("ANTLR parser and listener", "prutalgen/internal/parser/protobuf_listener.go"), ("code generation", "prutalgen/pkg/prutalgen/code.go")],
 ["prutalgen command"])
prop("G02", "Generated fields carry exactly the type, number and encoding declared",
 "For every field of every accepted schema, the generated struct field has the Go type, name, field number, wire type, cardinality, packedness, map key/value types, oneof membership and presence the protobuf specification gives it for the file's syntax or edition and its options.",
 ["programs"], "every field type x label x option x syntax/edition combination, at every nesting level",
 "Encoding facts are written into struct tags; a wrong tag compiles and fails only against another implementation. Tests check a few tags.",
 GEN + ["prutalgen/pkg/prutalgen/consts.go", "prutalgen/pkg/prutalgen/option.go"], [("struct tag generation", "prutalgen/pkg/prutalgen/field.go"), ("packed defaults per syntax, edition and option", "prutalgen/pkg/prutalgen/field.go")],
 ["generated code"])
prop("G03", "Generated code interoperates with the official runtime on the wire",
 "For every accepted schema and every message of it, encoding with the prutalgen-generated Go type and decoding with the official runtime for the same schema, and vice versa, yields the same message.",
 ["programs", "inputs"], "every schema of the bounded grammar x boundary values of each field",
 "Needs the combination generator x library x schema x value; tests have a fixed example.",
 GEN + ENC + DEC, [("generated struct tags consumed by the runtime", "prutalgen/pkg/prutalgen/code.go")],
 ["generated code", "Marshal", "Unmarshal"])
prop("G04", "Invalid schemas are rejected",
 "For every proto file that violates a rule about numbers or names (field number zero, negative, above the maximum, in the range reserved for the implementation, used twice, or reserved; enum number used twice without allow_alias or reserved; integer out of range; name used twice in a scope, or reserved), prutalgen reports an error and generates nothing. Files that do not violate a rule are accepted.",
 ["programs"], "every single-rule violation injected into every position of the bounded grammar, with every boundary number",
 "Each check is a negative space; tests have one example per error.",
 ["prutalgen/pkg/prutalgen/message.go", "prutalgen/pkg/prutalgen/reserved.go", "prutalgen/pkg/prutalgen/enum.go", "prutalgen/pkg/prutalgen/field.go", "prutalgen/pkg/prutalgen/prutalgen.go"], [("verify passes", "prutalgen/pkg/prutalgen/message.go"), ("reserved ranges", "prutalgen/pkg/prutalgen/reserved.go")],
 ["prutalgen command"])
prop("G05", "Type names resolve to the same type as protoc resolves them",
 "Every type reference (relative, partially qualified or fully qualified, across nested scopes, packages, imports and public imports) resolves to the same message or enum protoc resolves it to.",
 ["programs", "configurations"], "every combination of reference form, referring scope and set of visible definitions with clashing names, over one to three files",
 "Scoping is about shadowing between several candidates; tests have one candidate.",
 ["prutalgen/pkg/prutalgen/type.go", "prutalgen/pkg/prutalgen/proto.go", "prutalgen/pkg/prutalgen/message.go"], [("scope search", "prutalgen/pkg/prutalgen/type.go")],
 ["generated code"])
prop("G06", "Generated Go identifiers equal those of the official generator",
 "The Go names of generated messages, enums, enum values, oneof wrappers, fields, and accessors are those the official generator gives, for every combination of proto names, so that code written against one compiles against the other and names never collide.",
 ["programs"], "every identifier over the alphabet of letter case, digit and underscore classes up to the bound, at every position, and every pair of names that could collide",
 "Camel-casing rules depend on character context; tests check some names.",
 ["prutalgen/pkg/prutalgen/utils.go", "prutalgen/pkg/prutalgen/message.go", "prutalgen/pkg/prutalgen/enum.go", "prutalgen/pkg/prutalgen/oneof.go", "prutalgen/internal/protobuf/strs/strings.go"], [("GoCamelCase", "prutalgen/internal/protobuf/strs/strings.go")],
 ["generated code"])
prop("G07", "Generation is deterministic and independent of file order",
 "Running prutalgen on the same files gives byte-identical output every time, whatever order the files are given or imported in and whatever else is generated in the same run.",
 ["configurations", "histories"], "every permutation of input files and imports of the schema sets, repeated runs",
 "Map iteration and shared state show only across runs and orders.",
 GEN, [("sorted output", "prutalgen/pkg/prutalgen/code.go")],
 ["prutalgen command"])
prop("G08", "String and integer literals are read as the language defines",
 "Every integer literal (decimal, octal, hexadecimal, negative, at the type limits) and every string literal (both quotes, every escape form, adjacent literals) in a proto file denotes the value the protobuf language defines, and malformed or out-of-range literals are rejected.",
 ["inputs"], "all literals over the alphabet up to the bounded length",
 "Escapes and bases combine freely; tests have few.",
 ["prutalgen/internal/protobuf/text/decode_string.go", "prutalgen/internal/protobuf/text/decode_number.go", "prutalgen/pkg/prutalgen/utils.go", "prutalgen/pkg/prutalgen/field.go", "prutalgen/pkg/prutalgen/enum.go"], [("literal unquoting", "prutalgen/internal/protobuf/text/decode_string.go")],
 ["generated code"])
prop("G09", "Any input text is read as protoc reads it, or refused with an error",
 "For every input text prutalgen ends with a loaded file or a reported error; it never panics and never hangs. A text protoc accepts (with a go_package option) is accepted and read as the same syntax, package, imports, messages, fields, oneofs, enums, services and options. A text protoc cannot parse is refused, except where prutalgen is more tolerant on purpose: a missing label in proto2 (taken as optional), keywords as names of enum values, empty statements in a oneof, an allow_alias without aliases, a json_name that is not a string, edition in place of syntax, a plus sign before a number, a comment start inside a comment, and the contents of extend blocks, which are not generated.",
 ["inputs"], "every token sequence up to the bounded length in every context, every single-token deletion, insertion, replacement and swap in seed files covering the grammar, every short character sequence between tokens",
 "A parser input space; tests have a few bad files.",
 ["prutalgen/internal/parser/protobuf_listener.go", "prutalgen/pkg/prutalgen/prutalgen.go"], [("listener callbacks on partial parse trees", "prutalgen/pkg/prutalgen/prutalgen.go")],
 ["prutalgen command"])
prop("G10", "Generated accessors behave like the official ones on every state",
 "In every reachable state of a generated message, including a nil receiver, each getter returns what the official generated getter returns, Reset leaves a message equal to a new one, and enum String, name and value maps agree with the schema.",
 ["programs", "histories"], "every field shape x unset, zero and set, nil receiver; every enum value and number, with aliases",
 "Tests call a few getters.",
 ["prutalgen/pkg/prutalgen/code.go", "prutalgen/pkg/prutalgen/enum.go", "prutalgen/pkg/prutalgen/field.go"], [("getter generation", "prutalgen/pkg/prutalgen/code.go")],
 ["generated code"])
prop("G11", "Output goes where the options say, and nowhere else",
 "For every combination of output options, include paths and go_package forms, prutalgen writes each generated file exactly at the path the documented rules give, with the package clause and imports of the declared go_package, and writes nothing else.",
 ["configurations"], "every combination of path mode, output directory, include path, mapping option and go_package form",
 "Tests run one configuration.",
 ["prutalgen/main.go", "prutalgen/pkg/prutalgen/prutalgen.go", "prutalgen/pkg/utils/args/go_opts.go", "prutalgen/pkg/utils/args/args.go"], [("path computation", "prutalgen/pkg/prutalgen/prutalgen.go")],
 ["prutalgen command", "file system"])
prop("G12", "Directives and gogoproto options change exactly what they name",
 "In every place a //prutalgen: directive (no_pointer, no_enum_prefix, no_enum_mapping, unknown_fields, no_unknown_fields) or a gogoproto option (nullable, goproto_enum_prefix, goproto_unrecognized and their file-wide forms) may be written, the generated code differs from the code generated without it exactly in what it names, for exactly the declarations it covers: a field that becomes a value instead of a pointer (or loses its pointer), enum constants without their type's name, enums without String and name tables, messages with or without storage for unknown fields. An inner setting overrides an outer one. Text that is no such directive changes nothing.",
 ["programs"], "every place x directive x spelling, every option x value, pairs of them, each syntax",
 "Tests use each directive in one or two places; the interplay of file, message, field and option settings is a product space.",
 ["prutalgen/pkg/prutalgen/directive.go", "prutalgen/pkg/prutalgen/field.go", "prutalgen/pkg/prutalgen/enum.go", "prutalgen/pkg/prutalgen/message.go", "prutalgen/pkg/prutalgen/comment.go", "prutalgen/pkg/prutalgen/code.go"], [("directive parsing", "prutalgen/pkg/prutalgen/directive.go"), ("comments taken from the token stream", "prutalgen/pkg/prutalgen/comment.go")],
 ["prutalgen command"])

prop("G13", "The library API describes loaded files as protoc does",
 "For every set of proto files that prutalgen and protoc both accept, LoadProto returns every file of the import closure once, the root first, and the exported model of each says what protoc's descriptors and the official generator say: package and import path, syntax and edition, imports and their publicness; full and Go names of messages, enums, values, fields, oneofs and their wrapper types, services and methods; numbers, cardinality, maps, packedness, pointer representation; the types of fields, map keys, requests and returns (kind, full name, Go name, import path, whether external); client and server streaming; the built-in options; and which numbers are reserved.",
 ["programs"], "every world of the field, name, nesting and import grammars, and of the grammars of services, options and reserved ranges",
 "Kitex and other generators are built on this model; the tests look at a few attributes of one or two files each.",
 GEN + ["prutalgen/pkg/prutalgen/service.go", "prutalgen/pkg/prutalgen/option.go", "prutalgen/pkg/prutalgen/oneof.go", "prutalgen/pkg/prutalgen/reserved.go"], [("resolve of services and methods", "prutalgen/pkg/prutalgen/service.go"), ("Type accessors", "prutalgen/pkg/prutalgen/type.go"), ("options by position", "prutalgen/pkg/prutalgen/option.go")],
 ["prutalgen.Loader LoadProto and the exported types it returns"])

prop("G14", "The parts of the generator library compose",
 "Programs build their own generators from the library's parts, and the parts must give what the whole gives. A CodeWriter holds, after any sequence of calls, its header, the package clause, an import for exactly the packages named since the last Reset (each once, under the alias it was last named with, none where that is the base name of the path; grouped by weight, sorted) and everything written since, unchanged and in order; Bytes may be called at any time, any number of times, and earlier results stay as they were. The generators of single enums and messages only add to the writer, and together give the declarations and imports that generating the file gives; writing the files gives that text, formatted if asked for, marked as generated. Files registered as built in give the same result as the same files read from the disk.",
 ["histories", "programs"], "every sequence of writer calls up to the bound; every file of the grammars, generated in parts and as a whole, with every subset of its files built in",
 "Tests write one file through one writer; histories of calls and splits of a file into parts are product spaces.",
 GEN + ["prutalgen/pkg/prutalgen/codewriter.go", "prutalgen/pkg/prutalgen/embed.go"], [("CodeWriter", "prutalgen/pkg/prutalgen/codewriter.go"), ("generators of single declarations", "prutalgen/pkg/prutalgen/code.go"), ("built-in files", "prutalgen/pkg/prutalgen/embed.go")],
 ["prutalgen.CodeWriter, CodeGenerator, RegisterEmbeddedProto"])

prop("G15", "Concurrent users of the generator library do not affect each other",
 "Goroutines that each use a loader of their own, and goroutines that generate code from or read the exported model of the same loaded files, get exactly what each would get alone - the same model, the same code, the same log and the same refusal - under every interleaving, from the first use of the parser on, without data races and without waiting for each other for ever; and afterwards the library works as before, also when some of them were refused.",
 ["schedules"], "every interleaving up to the preemption bound of two or three concurrent loads, refusals, generations and readings",
 "The tests use the generator from one goroutine.",
 GEN + ["prutalgen/internal/antlr/mutex.go", "prutalgen/internal/protobuf/text/decode_string.go"], [("Loader state", "prutalgen/pkg/prutalgen/prutalgen.go"), ("code generation from a loaded model", "prutalgen/pkg/prutalgen/code.go"), ("shared tables of the parser", "prutalgen/internal/parser/protobuf_parser.go")],
 ["prutalgen.NewLoader, LoadProto, GoCodeGen"])

TECH = json.load(open(os.path.join(V, "tools", "claims.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"] or [], hook_needed=None))) + "\n")
checks, na = [], []
for p in P:
    c = TECH.get(p["id"])
    if c is None:
        na.append(dict(property=p["id"], reason="no check is registered for it yet"))
    elif "na" in c:
        na.append(dict(property=p["id"], reason=c["na"]))
    else:
        checks.append(dict(property=p["id"], quick_cmd="bash run.sh %s quick" % p["id"], thorough_cmd="bash run.sh %s thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"], technique=c["technique"], level="model_checking", level_note=c["note"]))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not claimed")
