package gen

import (
	"fmt"
	"regexp"
	"strings"

	"verif/mc/core"
)

// ---- files that break a rule, and files that just do not

// rules are the classes of protoc's complaints prutalgen has to share.
var rules = []struct {
	name string
	re   *regexp.Regexp
}{
	{"number-used-twice", regexp.MustCompile(`has already been used in`)},
	{"reserved-number", regexp.MustCompile(`uses reserved number`)},
	{"reserved-name", regexp.MustCompile(`is reserved\.`)},
	{"number-not-positive", regexp.MustCompile(`must be positive integers`)},
	{"number-too-big", regexp.MustCompile(`cannot be greater than`)},
	{"implementation-number", regexp.MustCompile(`reserved for the protocol buffer library implementation`)},
	{"enum-number-used-twice", regexp.MustCompile(`uses the same enum value as`)},
	{"enum-reserved-number", regexp.MustCompile(`uses reserved number`)},
	{"name-used-twice", regexp.MustCompile(`is already defined in`)},
	{"integer-out-of-range", regexp.MustCompile(`[Ii]nteger out of range`)},
	{"reserved-range", regexp.MustCompile(`Reserved numbers must be positive`)},
	{"unresolved", regexp.MustCompile(`is not defined|seems to be defined in`)},
}

func ruleOf(v *Verdict) string {
	for _, r := range rules {
		if r.re.MatchString(v.Text) {
			return r.name
		}
	}
	return ""
}

// ruleSpace compares the verdicts on text(i).
func ruleSpace(name string, n int64, text func(i int64) World) *core.Space {
	return &core.Space{Name: name, N: n, Block: 64,
		Describe: func(i int64) string { return strings.ReplaceAll(text(i).String(), "\n", " ") },
		Run: func(i int64, c *core.Ctx) {
			w := text(i)
			v := Protoc(w)
			r := Prutal(w, GenOpts{LoadOnly: true})
			c.Trans(1)
			c.Trace(1)
			if r.Panic != "" {
				c.Fail("panic", "prutalgen panics: %s\n%s", r.Panic, w)
				return
			}
			if v.OK {
				c.Count("valid", 1)
				if !r.OK {
					c.Fail("refused:"+errClass(r.Fatal), "protoc accepts, prutalgen refuses: %s\n%s", r.Fatal, w)
				}
				return
			}
			rule := ruleOf(v)
			if rule == "" && strings.Contains(v.Text, "which has no effect") {
				// what protoc says about the numbers it says without the option
				rule = ruleOf(Protoc(one("a.proto", strings.ReplaceAll(w.Files["a.proto"], "option allow_alias = false;", ""))))
			}
			c.StateStr(rule)
			if rule == "" {
				c.Count("other-complaints", 1)
				return
			}
			c.Count("breaks-"+rule, 1)
			if r.OK {
				c.Fail("accepted:"+rule, "protoc refuses (%s), prutalgen accepts\n%s", strings.TrimSpace(v.Text), w)
			}
		}}
}

var fieldNums = []string{"0", "1", "2", "3", "5", "15", "0x10", "017", "18999", "19000", "19999", "20000", "536870911", "536870912", "0x1fffffff", "2147483647", "2147483648", "99999999999999999999", "00", "0x0"}

var reserves = []string{"", "1", "1 to 3", "2 to max", "5, 7 to 9", "0", "0 to 2", "7 to 6", "0x1 to 0xA", "017", "010 to 0x10", "536870911", "18999 to 20000", "19000 to 19999", "3 to 3", "16", "1, 2, 3, 5 to 15", "536870911 to max",
	`"a"`, `"b", "c"`, `'b'`, `"a_b", "a"`}

func numberSpace() *core.Space {
	r := []int{2, len(fieldNums), len(fieldNums), len(reserves), 4}
	return ruleSpace("field-numbers", product(r...), func(i int64) World {
		d := digits(i, r...)
		l := []string{"optional ", ""}[d[0]]
		var b strings.Builder
		fmt.Fprintf(&b, "syntax = \"proto%d\";\noption go_package = \"x.y/p\";\nmessage M {\n", 2+d[0])
		res := ""
		if reserves[d[3]] != "" {
			res = "  reserved " + reserves[d[3]] + ";\n"
		}
		n1, n2 := fieldNums[d[1]], fieldNums[d[2]]
		switch d[4] {
		case 0:
			fmt.Fprintf(&b, "%s  %sint32 a = %s;\n  repeated M b = %s;\n", res, l, n1, n2)
		case 1: // behind the fields, in a oneof
			fmt.Fprintf(&b, "  oneof o {\n    int32 a = %s;\n    string b = %s;\n  }\n%s", n1, n2, res)
		case 2:
			fmt.Fprintf(&b, "  map<int32, M> a = %s;\n%s  oneof o { M b = %s; }\n", n1, res, n2)
		case 3: // nested; the outer one may use the number
			fmt.Fprintf(&b, "  message N {\n    %sbytes a = %s;\n  %s  }\n  %sN b = %s;\n", l, n1, res, l, n2)
		}
		b.WriteString("}\n")
		return one("a.proto", b.String())
	})
}

var enumNums = []string{"0", "1", "-1", "2", "5", "-5", "0x5", "-0x5", "05", "2147483647", "-2147483648", "2147483648", "-2147483649", "0x7fffffff", "-0x80000000", "19000", "536870912"}

var enumReserves = []string{"", "1", "0x1 to 0x5", "2 to max", "0", "2147483647", "19000 to 19001", "1 to 1, 5", "3 to 05",
	`"A"`, `"B", "C"`, `'B'`}

// the grammar of prutalgen has no negative reserved numbers: one finding, see known_findings.jsonl
var negReserves = []string{"-1", "-5 to -1", "-0x5 to 05", "-2147483648 to -2", "-5, 2", "-1 to max"}

func negSpace() *core.Space {
	r := []int{2, len(negReserves)}
	return &core.Space{Name: "negative-reserved", N: product(r...), Describe: func(i int64) string { return negReserves[digits(i, r...)[1]] },
		Run: func(i int64, c *core.Ctx) {
			d := digits(i, r...)
			w := one("a.proto", fmt.Sprintf("syntax = \"proto%d\";\noption go_package = \"x.y/p\";\nenum E {\n  A = 0;\n  reserved %s;\n  B = -6;\n}\n", 2+d[0], negReserves[d[1]]))
			c.Trans(1)
			c.Trace(1)
			v, r := Protoc(w), Prutal(w, GenOpts{LoadOnly: true})
			if r.Panic != "" || v.OK == r.OK {
				if r.Panic != "" {
					c.Fail("panic", "prutalgen panics: %s\n%s", r.Panic, w)
				}
				return
			}
			if v.OK {
				c.Fail("negative-enum-range", "protoc accepts, prutalgen refuses: %s\n%s", r.Fatal, w)
				return
			}
			c.Fail("accepted:negative", "protoc refuses (%s), prutalgen accepts\n%s", strings.TrimSpace(v.Text), w)
		}}
}

func enumSpace() *core.Space {
	alias := []string{"", "option allow_alias = true;", "option allow_alias = false;"}
	r := []int{2, 2, len(alias), len(enumNums), len(enumNums), len(enumReserves), 2}
	return ruleSpace("enum-numbers", product(r...), func(i int64) World {
		d := digits(i, r...)
		var b strings.Builder
		fmt.Fprintf(&b, "syntax = \"proto%d\";\noption go_package = \"x.y/p\";\n", 2+d[0])
		if d[1] > 0 {
			b.WriteString("message M {\n")
		}
		b.WriteString("enum E {\n" + alias[d[2]])
		res := ""
		if enumReserves[d[5]] != "" {
			res = "  reserved " + enumReserves[d[5]] + ";\n"
		}
		if d[6] == 0 {
			b.WriteString(res)
		}
		if d[0] == 1 {
			b.WriteString("  ZERO = 0;\n")
		}
		fmt.Fprintf(&b, "  A = %s;\n  B = %s;\n", enumNums[d[3]], enumNums[d[4]])
		if d[6] == 1 {
			b.WriteString(res)
		}
		b.WriteString("}\n")
		if d[1] > 0 {
			b.WriteString("}\n")
		}
		return one("a.proto", b.String())
	})
}

// every pair of names in every pair of roles of one message or file
func dupSpace() *core.Space {
	roles := []string{"field", "oneof", "oneof field", "map", "nested", "enum", "value", "top message", "top enum", "top value", "service", "rpc"}
	names := []string{"a", "b"}
	r := []int{2, len(roles), len(roles), len(names), len(names)}
	return ruleSpace("names", product(r...), func(i int64) World {
		d := digits(i, r...)
		var in, top strings.Builder
		for k := 0; k < 2; k++ {
			n := names[d[3+k]]
			num := 10*k + 1
			switch roles[d[1+k]] {
			case "field":
				fmt.Fprintf(&in, "  repeated int32 %s = %d;\n", n, num)
			case "oneof":
				fmt.Fprintf(&in, "  oneof %s { int32 i%d = %d; }\n", n, k, num)
			case "oneof field":
				fmt.Fprintf(&in, "  oneof o%d { int32 %s = %d; }\n", k, n, num)
			case "map":
				fmt.Fprintf(&in, "  map<int32, int32> %s = %d;\n", n, num)
			case "nested":
				fmt.Fprintf(&in, "  message %s { }\n", n)
			case "enum":
				fmt.Fprintf(&in, "  enum %s { V%d = 0; }\n", n, k)
			case "value":
				fmt.Fprintf(&in, "  enum E%d { %s = 0; }\n", k, n)
			case "top message":
				fmt.Fprintf(&top, "message %s { }\n", n)
			case "top enum":
				fmt.Fprintf(&top, "enum %s { V%d = 0; }\n", n, k)
			case "top value":
				fmt.Fprintf(&top, "enum E%d { %s = 0; }\n", k, n)
			case "service":
				fmt.Fprintf(&top, "service %s { }\n", n)
			case "rpc":
				fmt.Fprintf(&top, "service S%d { rpc %s(M) returns (M); rpc %sx(M) returns (M); }\n", k, n, n)
			}
		}
		return one("a.proto", fmt.Sprintf("syntax = \"proto%d\";\noption go_package = \"x.y/p\";\nmessage M {\n%s}\n%s", 2+d[0], in.String(), top.String()))
	})
}
