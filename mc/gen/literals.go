package gen

import (
	"fmt"
	"regexp"
	"strings"

	"verif/mc/core"
)

// ---- every short literal

// strings of up to max symbols, shortest first
type wordSpace struct {
	syms []string
	max  int
}

func (s wordSpace) count() int64 {
	n, p := int64(0), int64(1)
	for l := 0; l <= s.max; l++ {
		n += p
		p *= int64(len(s.syms))
	}
	return n
}

func (s wordSpace) word(i int64) []string {
	a, p := int64(len(s.syms)), int64(1)
	l := 0
	for ; i >= p; l++ {
		i -= p
		p *= a
	}
	out := make([]string, l)
	for k := l - 1; k >= 0; k-- {
		out[k] = s.syms[i%a]
		i /= a
	}
	return out
}

// escapes prutalgen's grammar does not have: see known_findings.jsonl
var oddEscape = regexp.MustCompile(`\\([xX]([^0-9a-fA-F]|[0-9a-fA-F][^0-9a-fA-F])|[0-7][^0-7]|[0-7][0-7][^0-7]|[uU?])`)

var bigOctal = regexp.MustCompile(`\\[4-7][0-7][0-7]`)

func stringCase(c *core.Ctx, lit string) {
	w := one("a.proto", "syntax = \"proto3\";\noption go_package = \"x.y/p\";\noption java_package = "+lit+";\nmessage M { }\n")
	v := Protoc(w)
	r := Prutal(w, GenOpts{LoadOnly: true})
	c.Trans(1)
	if r.Panic != "" {
		c.Fail("panic", "prutalgen panics: %s\n%s", r.Panic, w)
		return
	}
	switch {
	case bigOctal.MatchString(strings.ReplaceAll(lit, `\\`, "__")):
		c.Count("undefined-octal", 1) // more than a byte
	case v.OK && !r.OK:
		key := "string-refused"
		if oddEscape.MatchString(strings.ReplaceAll(lit, `\\`, "__")) {
			key = "escape-form-refused"
		}
		c.Fail(key, "protoc accepts, prutalgen refuses: %s\n%q", r.Fatal, lit)
	case v.OK:
		c.Count("valid", 1)
		c.Trace(1)
		want := v.Set.File[len(v.Set.File)-1].GetOptions().GetJavaPackage()
		got, _ := r.Protos[0].Options.Get("java_package")
		c.StateStr(want)
		if got != want {
			c.Fail("string-value", "%s is %q for protoc and %q for prutalgen", lit, want, got)
		}
		if len(r.Protos[0].Messages) != 1 || len(v.Set.File[0].MessageType) != 1 {
			c.Fail("string-extent", "the string swallowed the file\n%s", w)
		}
	default:
		c.Count("invalid", 1)
		if r.OK {
			c.Fail("string-accepted", "protoc refuses (%s), prutalgen accepts\n%s", strings.TrimSpace(v.Text), w)
		}
	}
}

func stringSpace(max int) *core.Space {
	ws := wordSpace{[]string{`"`, `'`, `\`, "a", "n", "x", "0", "7", "8", "F", "u", " ", "\n", "é", "*/", "//", ";"}, max}
	n := ws.count()
	lit := func(i int64) string { return []string{`"`, `'`}[i/n] + strings.Join(ws.word(i%n), "") }
	return &core.Space{Name: "strings", N: 2 * n, Block: 256, Describe: lit, Run: func(i int64, c *core.Ctx) { stringCase(c, lit(i)) }}
}

// every escape in the two quotes, alone, doubled, and before each other
func escapeSpace() *core.Space {
	var e []string
	for b := 1; b < 256; b++ {
		if b != '\n' && b < 0x80 {
			e = append(e, `\`+string(rune(b)))
		}
		e = append(e, fmt.Sprintf(`\x%02x`, b), fmt.Sprintf(`\X%02X`, b), fmt.Sprintf(`\%03o`, b))
	}
	e = append(e, `\000`, `\x00`, `\u0041`, `\u00e9`, `\u20AC`, `\ud83d\ude00`, `\ud83d`, `\U0001F600`, `\U0010FFFF`, `\U00110000`, `\u004`, `\U0000004`, `\u{41}`, "\x01", "\x7f", "é", "€", "😀", "\t", "\r", "\v", "\f", "")
	r := []int{2, 3, len(e), 4}
	lit := func(i int64) string {
		d := digits(i, r...)
		q := []string{`"`, `'`}[d[0]]
		s := e[d[2]]
		switch d[1] {
		case 1:
			s += s
		case 2:
			s = "a" + s + q + " " + []string{`'`, `"`}[d[0]] + s + []string{`'`, `"`}[d[0]] + "\n" + q + "b"
		}
		return q + []string{"", "0", "F", "\\\\"}[d[3]] + s + []string{"", "0", "F", "\\\\"}[d[3]] + q
	}
	return &core.Space{Name: "escapes", N: product(r...), Block: 256, Describe: lit, Run: func(i int64, c *core.Ctx) { stringCase(c, lit(i)) }}
}

// every short number in every place that takes one
var numberPlaces = []string{"field", "enum", "reserved", "reserved range", "enum reserved", "extensions"}

func literalNumberSpace(max int) *core.Space {
	ws := wordSpace{[]string{"0", "1", "7", "8", "x", "X", "a", "F", "-", "+", ".", "e", " "}, max}
	n := ws.count()
	text := func(i int64) string {
		lit := strings.Join(ws.word(i%n), "")
		m := ""
		switch numberPlaces[i/n] {
		case "field":
			m = "message M { optional int32 f = " + lit + "; }"
		case "enum":
			m = "enum E { A = " + lit + "; }"
		case "reserved":
			m = "message M { reserved " + lit + "; optional int32 a = 1; optional int32 b = 7; optional int32 c = 15; }"
		case "reserved range":
			m = "message M { reserved " + lit + " to 16 ; optional int32 a = 1; optional int32 b = 7; optional int32 c = 15; }"
		case "enum reserved":
			m = "enum E { A = 1; B = 7; C = 15; reserved 0 to " + lit + "; }"
		case "extensions":
			m = "message M { extensions " + lit + "; }"
		}
		return "syntax = \"proto2\";\noption go_package = \"x.y/p\";\n" + m + "\n"
	}
	return &core.Space{Name: "numbers", N: n * int64(len(numberPlaces)), Block: 256, Describe: text, Run: func(i int64, c *core.Ctx) {
		w := one("a.proto", text(i))
		v := Protoc(w)
		r := Prutal(w, GenOpts{LoadOnly: true})
		c.Trans(1)
		place := numberPlaces[i/n]
		switch {
		case strings.Contains(v.Text, "Reserved range end number must be greater"):
			c.Count("empty-range", 1) // prutalgen takes it for an empty range
		case r.Panic != "":
			c.Fail("panic", "prutalgen panics: %s\n%s", r.Panic, w)
		case v.OK && !r.OK:
			key := "number-refused:" + place
			if place == "enum reserved" && strings.Contains(strings.Join(ws.word(i%n), ""), "-") {
				key = "negative-enum-range"
			}
			c.Fail(key, "protoc accepts, prutalgen refuses: %s\n%s", r.Fatal, w)
		case v.OK:
			c.Count("valid", 1)
			c.Trace(1)
			got, want := loadedText(r.Protos[0]), descText(v.Set.File[len(v.Set.File)-1])
			c.StateStr(want)
			if got != want {
				c.Fail("number-value:"+place, "loaded as\n%s\nprotoc reads\n%s\n%s", got, want, w)
			}
		case place == "extensions" && !v.Syntax:
			c.Count("extension ranges are not checked", 1)
		default:
			c.Count("invalid", 1)
			if r.OK {
				c.Fail("number-accepted:"+place, "protoc refuses (%s), prutalgen accepts\n%s", strings.TrimSpace(v.Text), w)
			}
		}
	}}
}
