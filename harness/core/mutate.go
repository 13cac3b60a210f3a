package core

import (
	"math/rand"
	"strings"
)

var dict = []string{"{", "}", "(", ")", "[", "]", ":", ",", "!", "=", "@", "$", "...", "..", ".", "\"", "\"\"\"", "\\", "\\u", "\\u00", "\\ud83d", "#", "\n", "\r", "\t", " ", "-", "+", "0", "1e", "1e999", "0x1", "-", "--1", "true", "false", "null", "on", "query", "mutation", "subscription", "fragment", "__typename", "__schema", "__type(name:\"a\")", "@skip(if:true)", "@include(if:false)", "@include(if:$", "{a{b{c{", "}}}", "\x00", "\xff", "\xef\xbb\xbf", "é", "😀", "e", "v", "a", "b", "|", "&", "%", "~", "`", "$a:Int", "=1", "[[[", "]]]", "[Int!]!", "18446744073709551616", "99999999999999999999999999999", "-9223372036854775809", "1.5", ".5", "5.", "1_0", "aVeryLongNameThatGoesOnAndOnAndOnAndOnAndOnAndOnAndOnAndOn"}

// Mutate damages a text
func Mutate(r *rand.Rand, s string) string {
	b := []byte(s)
	for n := 1 + r.Intn(4); n > 0; n-- {
		at := 0
		if len(b) > 0 {
			at = r.Intn(len(b))
		}
		switch r.Intn(10) {
		case 0: // truncate
			b = b[:at]
		case 1: // flip
			if len(b) > 0 {
				b[at] ^= 1 << r.Intn(8)
			}
		case 2: // random byte
			if len(b) > 0 {
				b[at] = byte(r.Intn(256))
			}
		case 3: // delete
			if len(b) > 0 {
				end := at + 1 + r.Intn(8)
				if end > len(b) {
					end = len(b)
				}
				b = append(b[:at:at], b[end:]...)
			}
		case 4, 5, 6: // insert a token
			t := dict[r.Intn(len(dict))]
			b = append(b[:at:at], append([]byte(t), b[at:]...)...)
		case 7: // duplicate
			if len(b) > 0 {
				end := at + 1 + r.Intn(40)
				if end > len(b) {
					end = len(b)
				}
				b = append(b[:end:end], append([]byte{}, b[at:]...)...)
			}
		case 8: // move
			if len(b) > 4 {
				end := at + 1 + r.Intn(20)
				if end > len(b) {
					end = len(b)
				}
				p := append([]byte{}, b[at:end]...)
				b = append(b[:at:at], b[end:]...)
				to := 0
				if len(b) > 0 {
					to = r.Intn(len(b))
				}
				b = append(b[:to:to], append(p, b[to:]...)...)
			}
		case 9: // change a punctuator
			const p = "{}()[]:,!=@$.\"#"
			for i := 0; i < 30 && len(b) > 0; i++ {
				k := r.Intn(len(b))
				if strings.IndexByte(p, b[k]) >= 0 {
					b[k] = p[r.Intn(len(p))]
					break
				}
			}
		}
		if len(b) > 200000 {
			b = b[:200000]
		}
	}
	return string(b)
}

// Tokens makes a document of random tokens
func Tokens(r *rand.Rand) string {
	var b strings.Builder
	if r.Intn(2) == 0 {
		b.WriteString("{")
	}
	for n := r.Intn(40); n > 0; n-- {
		b.WriteString(dict[r.Intn(len(dict))])
		if r.Intn(2) == 0 {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

// Nested makes a deeply nested document
func Nested(r *rand.Rand, n int) string {
	rep := func(s string) string { return strings.Repeat(s, n) }
	switch r.Intn(14) {
	case 0:
		return rep("{a")
	case 1:
		return rep("{a") + rep("}")
	case 2:
		return "{a(x:" + rep("[") + rep("]") + ")}"
	case 3:
		return "{a(x:" + rep("{x:") + "1" + rep("}") + ")}"
	case 4:
		return "{" + rep("...on Q{") + "a" + rep("}") + "}"
	case 5:
		return "query($a:" + rep("[") + "Int" + rep("]") + "){a}"
	case 6:
		return "{" + rep("a ") + "}"
	case 7:
		return "{a" + rep("@skip(if:true)") + "}"
	case 8:
		return "{a(" + rep("x:1 ") + ")}"
	case 9:
		return rep("fragment F on Q{...F}") + "{...F}"
	case 10:
		return "query(" + rep("$a:Int ") + "){a}"
	case 11:
		return "{" + rep("a") + "}"
	case 12:
		return "{a(x:\"" + rep("\\u00e9x") + "\")}"
	default:
		return rep("query a{a}")
	}
}

// BadJSON makes text for variables and bodies, valid or not
func BadJSON(r *rand.Rand, base string) string {
	switch r.Intn(6) {
	case 0:
		return Mutate(r, base)
	case 1:
		n := 1 + r.Intn(2000)
		return strings.Repeat("[", n) + strings.Repeat("]", r.Intn(n+1))
	case 2:
		n := 1 + r.Intn(2000)
		return strings.Repeat(`{"a":`, n) + "1" + strings.Repeat("}", r.Intn(n+1))
	case 3:
		l := []string{"", " ", "null", "true", "1", "\"a\"", "[]", "{}", "{\"a\"}", "{\"a\":}", "[1,]", "nul", "\"", "\\", "{\"a\":1}x", "\x00", "\xff\xfe", "1e999", "-", "{\"a\":\"\\ud800\"}", "{\"a\":\"\\u12\"}", "{\"a\":1,\"a\":2}", "[[[[", "{{{{", "{\"query\":\"{a}\"", "{\"a\":Infinity}", "{\"a\":NaN}"}
		return l[r.Intn(len(l))]
	case 4:
		n := r.Intn(60)
		b := make([]byte, n)
		r.Read(b)
		return string(b)
	}
	return base
}
