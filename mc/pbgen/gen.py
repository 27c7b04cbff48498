# authoring-time only: writes p2.proto p3.proto ed.proto (see gen.sh)
S="int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 float double bool string bytes E".split()
K="int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bool string".split()
def enum(p2): return "enum E { Z = 0; A = 1; NEG = -1; BIG = 2147483647; }\n"
def p3(pkg, gopkg):
    o=f'syntax = "proto3";\npackage {pkg};\noption go_package = "{gopkg}";\n'+enum(0)
    o+="message Leaf { int32 a = 1; string b = 2; repeated uint64 c = 3; }\n"
    n=1
    o+="message All {\n"
    for t in S: o+=f"  {t} i_{t.lower()} = {n};\n"; n+=1
    for t in S: o+=f"  optional {t} o_{t.lower()} = {n};\n"; n+=1
    for t in S: o+=f"  repeated {t} r_{t.lower()} = {n};\n"; n+=1
    for t in S:
        if t not in("string","bytes"): o+=f"  repeated {t} u_{t.lower()} = {n} [packed = false];\n"; n+=1
    o+=f"  Leaf m = {n};\n"; n+=1
    o+=f"  repeated Leaf rm = {n};\n"; n+=1
    o+=f"  All self = {n};\n"; n+=1
    o+=f"  repeated All kids = {n};\n"; n+=1
    o+=f"  map<string, All> named = {n};\n"; n+=1
    o+=f"  map<int32, All> byid = {n};\n"; n+=1
    n=900
    o+="  oneof u {\n"
    for t in S: o+=f"    {t} x_{t.lower()} = {n};\n"; n+=1
    o+=f"    Leaf x_m = {n};\n"; n+=1
    o+=f"    All x_self = {n};\n  }}\n"; n+=1
    n=1100
    o+=f"  oneof v {{ string v_s = {n}; Leaf v_m = {n+1}; bool v_b = {n+2}; }}\n"
    o+="}\n"
    n=1
    o+="message Maps {\n"
    for k in K:
        for v in S+["Leaf"]:
            o+=f"  map<{k}, {v}> m_{k}_{v.lower()} = {n};\n"; n+=1
    o+="}\n"
    o+="message Tree { Tree l = 1; repeated Tree r = 2; map<int32, Tree> m32 = 3; map<uint64, Tree> m64 = 4; map<string, Tree> ms = 5; map<bool, Tree> mb = 6; oneof o { Tree x = 7; int32 leaf = 8; } int32 v = 9; }\n"
    return o
def p2(pkg,gopkg):
    o=f'syntax = "proto2";\npackage {pkg};\noption go_package = "{gopkg}";\n'+enum(1)
    o+="message Leaf { optional int32 a = 1; optional string b = 2; repeated uint64 c = 3; }\n"
    o+="message All {\n"
    n=1
    for t in S: o+=f"  optional {t} o_{t.lower()} = {n};\n"; n+=1
    for t in S: o+=f"  repeated {t} r_{t.lower()} = {n};\n"; n+=1
    for t in S:
        if t not in("string","bytes"): o+=f"  repeated {t} k_{t.lower()} = {n} [packed = true];\n"; n+=1
    o+=f"  optional Leaf m = {n};\n"; n+=1
    o+=f"  repeated Leaf rm = {n};\n"; n+=1
    o+=f"  map<string, All> named = {n};\n"; n+=1
    o+=f"  map<sint32, string> mss = {n};\n"; n+=1
    o+=f"  map<fixed64, E> mfe = {n};\n"; n+=1
    n=2000
    o+="  oneof u {\n"
    for t in S: o+=f"    {t} x_{t.lower()} = {n};\n"; n+=1
    o+=f"    Leaf x_m = {n};\n  }}\n"
    o+="}\n"
    o+="message Req {\n"
    n=1
    for t in S: o+=f"  required {t} q_{t.lower()} = {n};\n"; n+=1
    o+="}\n"
    return o
def ed(pkg,gopkg):
    o=f'edition = "2023";\npackage {pkg};\noption go_package = "{gopkg}";\noption features.utf8_validation = NONE;\n'+enum(1)
    o+="message Leaf { int32 a = 1; string b = 2 [features.field_presence = IMPLICIT]; repeated uint64 c = 3 [features.repeated_field_encoding = EXPANDED]; }\n"
    o+="message All {\n"
    n=1
    for t in S: o+=f"  {t} e_{t.lower()} = {n};\n"; n+=1
    for t in S: o+=f"  {t} i_{t.lower()} = {n} [features.field_presence = IMPLICIT];\n"; n+=1
    for t in S: o+=f"  repeated {t} r_{t.lower()} = {n};\n"; n+=1
    for t in S:
        if t not in("string","bytes"): o+=f"  repeated {t} u_{t.lower()} = {n} [features.repeated_field_encoding = EXPANDED];\n"; n+=1
    o+=f"  Leaf m = {n};\n"; n+=1
    o+=f"  oneof o {{ Leaf om = {n}; bytes ob = {n+1}; double od = {n+2}; }}\n"
    o+="}\n"
    return o
open("p3.proto","w").write(p3("mcp3","verif/mc/pbgen/p3"))
open("p2.proto","w").write(p2("mcp2","verif/mc/pbgen/p2"))

open("pg3.proto","w").write(p3("mcpg3","verif/mc/pbgen/pg3").replace("i_",f"i_"))
open("pg2.proto","w").write(p2("mcpg2","verif/mc/pbgen/pg2"))
