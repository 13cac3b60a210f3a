// Package q holds the query side of the harness: documents, their printed
// form, and an order and duplicate preserving JSON decoder.
package q

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"
	"unicode/utf8"
)

// J is a JSON value. Objects keep the order of their keys and duplicates.
type J struct {
	K    byte // n b d(number) s o a, and in expectations also: i(int) f(float32) F(float64) t(time) I(id) *(anything)
	B    bool
	S    string // string, number text, or expected time in unix ms
	A    []*J   // array items or object values
	Keys []string
	N    float64
}

func Null() *J { return &J{K: 'n'} }

type jp struct {
	s   string
	i   int
	dep int
}

// ParseJSON decodes exactly one JSON document
func ParseJSON(s string) (*J, error) {
	if !utf8.ValidString(s) {
		return nil, errors.New("response is not valid UTF-8")
	}
	p := &jp{s: s}
	v, err := p.value()
	if err != nil {
		return nil, fmt.Errorf("%w at byte %d of %d", err, p.i, len(s))
	}
	p.ws()
	if p.i != len(s) {
		return nil, fmt.Errorf("trailing data at byte %d of %d", p.i, len(s))
	}
	return v, nil
}

func (p *jp) ws() {
	for p.i < len(p.s) {
		switch p.s[p.i] {
		case ' ', '\t', '\n', '\r':
			p.i++
		default:
			return
		}
	}
}

func (p *jp) value() (*J, error) {
	p.dep++
	defer func() { p.dep-- }()
	if p.dep > 20000 {
		return nil, errors.New("nested too deep")
	}
	p.ws()
	if p.i >= len(p.s) {
		return nil, errors.New("unexpected end")
	}
	c := p.s[p.i]
	switch {
	case c == '{':
		p.i++
		r := &J{K: 'o'}
		p.ws()
		if p.i < len(p.s) && p.s[p.i] == '}' {
			p.i++
			return r, nil
		}
		for {
			p.ws()
			if p.i >= len(p.s) || p.s[p.i] != '"' {
				return nil, errors.New("expected object key")
			}
			k, err := p.str()
			if err != nil {
				return nil, err
			}
			p.ws()
			if p.i >= len(p.s) || p.s[p.i] != ':' {
				return nil, errors.New("expected ':'")
			}
			p.i++
			v, err := p.value()
			if err != nil {
				return nil, err
			}
			r.Keys = append(r.Keys, k)
			r.A = append(r.A, v)
			p.ws()
			if p.i >= len(p.s) {
				return nil, errors.New("unexpected end")
			}
			p.i++
			switch p.s[p.i-1] {
			case ',':
			case '}':
				return r, nil
			default:
				p.i--
				return nil, errors.New("expected ',' or '}'")
			}
		}
	case c == '[':
		p.i++
		r := &J{K: 'a'}
		p.ws()
		if p.i < len(p.s) && p.s[p.i] == ']' {
			p.i++
			return r, nil
		}
		for {
			v, err := p.value()
			if err != nil {
				return nil, err
			}
			r.A = append(r.A, v)
			p.ws()
			if p.i >= len(p.s) {
				return nil, errors.New("unexpected end")
			}
			p.i++
			switch p.s[p.i-1] {
			case ',':
			case ']':
				return r, nil
			default:
				p.i--
				return nil, errors.New("expected ',' or ']'")
			}
		}
	case c == '"':
		s, err := p.str()
		if err != nil {
			return nil, err
		}
		return &J{K: 's', S: s}, nil
	case c == '-' || c >= '0' && c <= '9':
		return p.num()
	}
	for _, w := range []string{"true", "false", "null"} {
		if strings.HasPrefix(p.s[p.i:], w) {
			p.i += len(w)
			if w == "null" {
				return Null(), nil
			}
			return &J{K: 'b', B: w == "true"}, nil
		}
	}
	return nil, fmt.Errorf("unexpected %q", c)
}

func (p *jp) num() (*J, error) {
	st := p.i
	digits := func() int {
		n := 0
		for p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9' {
			p.i++
			n++
		}
		return n
	}
	if p.s[p.i] == '-' {
		p.i++
	}
	z := p.i
	if digits() == 0 {
		return nil, errors.New("bad number")
	}
	if p.s[z] == '0' && p.i-z > 1 {
		return nil, errors.New("number with leading zero")
	}
	if p.i < len(p.s) && p.s[p.i] == '.' {
		p.i++
		if digits() == 0 {
			return nil, errors.New("bad fraction")
		}
	}
	if p.i < len(p.s) && (p.s[p.i] == 'e' || p.s[p.i] == 'E') {
		p.i++
		if p.i < len(p.s) && (p.s[p.i] == '+' || p.s[p.i] == '-') {
			p.i++
		}
		if digits() == 0 {
			return nil, errors.New("bad exponent")
		}
	}
	return &J{K: 'd', S: p.s[st:p.i]}, nil
}

func (p *jp) hex4() (rune, bool) {
	if p.i+4 > len(p.s) {
		return 0, false
	}
	v, err := strconv.ParseUint(p.s[p.i:p.i+4], 16, 32)
	if err != nil {
		return 0, false
	}
	p.i += 4
	return rune(v), true
}

func (p *jp) str() (string, error) {
	p.i++
	var b strings.Builder
	for {
		if p.i >= len(p.s) {
			return "", errors.New("unterminated string")
		}
		c := p.s[p.i]
		p.i++
		switch {
		case c == '"':
			return b.String(), nil
		case c < 0x20:
			return "", fmt.Errorf("control character %#x in string", c)
		case c == '\\':
			if p.i >= len(p.s) {
				return "", errors.New("unterminated string")
			}
			e := p.s[p.i]
			p.i++
			switch e {
			case '"', '\\', '/':
				b.WriteByte(e)
			case 'b':
				b.WriteByte('\b')
			case 'f':
				b.WriteByte('\f')
			case 'n':
				b.WriteByte('\n')
			case 'r':
				b.WriteByte('\r')
			case 't':
				b.WriteByte('\t')
			case 'u':
				r, ok := p.hex4()
				if !ok {
					return "", errors.New("bad unicode escape")
				}
				if utf16.IsSurrogate(r) {
					if strings.HasPrefix(p.s[p.i:], `\u`) {
						save := p.i
						p.i += 2
						r2, ok := p.hex4()
						if ok {
							if d := utf16.DecodeRune(r, r2); d != utf8.RuneError {
								b.WriteRune(d)
								continue
							}
						}
						p.i = save
					}
					r = utf8.RuneError
				}
				b.WriteRune(r)
			default:
				return "", fmt.Errorf("bad escape \\%c", e)
			}
		default:
			b.WriteByte(c)
		}
	}
}

// Get returns the first value of key
func (j *J) Get(key string) *J {
	if j == nil || j.K != 'o' {
		return nil
	}
	for i, k := range j.Keys {
		if k == key {
			return j.A[i]
		}
	}
	return nil
}

// Set appends a key
func (j *J) Set(key string, v *J) {
	j.Keys = append(j.Keys, key)
	j.A = append(j.A, v)
}

// DupKey returns the path of a key that is present twice in one object
func (j *J) DupKey() string {
	switch j.K {
	case 'o':
		seen := map[string]bool{}
		for i, k := range j.Keys {
			if seen[k] {
				return k
			}
			seen[k] = true
			if d := j.A[i].DupKey(); d != "" {
				return k + "." + d
			}
		}
	case 'a':
		for i, v := range j.A {
			if d := v.DupKey(); d != "" {
				return strconv.Itoa(i) + "." + d
			}
		}
	}
	return ""
}

// Text renders j
func (j *J) Text() string {
	var b strings.Builder
	j.text(&b)
	return b.String()
}

func quote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r < 0x20:
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// Quote renders s as a JSON string
func Quote(s string) string { return quote(s) }

func (j *J) text(b *strings.Builder) {
	switch j.K {
	case 'n':
		b.WriteString("null")
	case 'b':
		b.WriteString(strconv.FormatBool(j.B))
	case 'd', 'i':
		b.WriteString(j.S)
	case 'f':
		b.WriteString(strconv.FormatFloat(j.N, 'g', -1, 32))
	case 'F':
		b.WriteString(strconv.FormatFloat(j.N, 'g', -1, 64))
	case 't':
		b.WriteString("time(" + j.S + ")")
	case '*':
		b.WriteString("*")
	case 's', 'I':
		b.WriteString(quote(j.S))
	case 'a':
		b.WriteByte('[')
		for i, v := range j.A {
			if i > 0 {
				b.WriteByte(',')
			}
			v.text(b)
		}
		b.WriteByte(']')
	case 'o':
		b.WriteByte('{')
		for i, v := range j.A {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(quote(j.Keys[i]))
			b.WriteByte(':')
			v.text(b)
		}
		b.WriteByte('}')
	}
}

// Sanitize maps s to what survives replacement of invalid UTF-8; runs of
// replacement characters are collapsed.
func Sanitize(s string) string {
	var b strings.Builder
	last := false
	for _, r := range s {
		if r == utf8.RuneError {
			if last {
				continue
			}
			last = true
		} else {
			last = false
		}
		b.WriteRune(r)
	}
	return b.String()
}

const timeLayout = "2006-01-02T15:04:05.000Z"

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// Diff compares an expectation with a response; it returns "" if they agree
func Diff(exp, act *J) string { return diff("$", exp, act) }

func diff(path string, exp, act *J) string {
	bad := func() string {
		return fmt.Sprintf("%s: expected %s, got %s", path, clip(exp.Text()), clip(act.Text()))
	}
	if act == nil {
		return path + ": missing"
	}
	switch exp.K {
	case '*':
		return ""
	case 'n':
		if act.K != 'n' {
			return bad()
		}
	case 'b':
		if act.K != 'b' || act.B != exp.B {
			return bad()
		}
	case 's', 'I':
		if act.K != 's' || !SameText(exp.S, act.S) {
			return bad()
		}
	case 'i':
		if act.K != 'd' {
			return bad()
		}
		if act.S != exp.S {
			a, ok1 := new(big.Int).SetString(act.S, 10)
			e, ok2 := new(big.Int).SetString(exp.S, 10)
			if !ok1 || !ok2 || a.Cmp(e) != 0 {
				return bad()
			}
		}
	case 'd':
		if act.K != 'd' || act.S != exp.S {
			return bad()
		}
	case 'f':
		if act.K != 'd' {
			return bad()
		}
		v, err := strconv.ParseFloat(act.S, 32)
		if err != nil || math.Float32bits(float32(v)) != math.Float32bits(float32(exp.N)) {
			return bad()
		}
	case 'F':
		if act.K != 'd' {
			return bad()
		}
		v, err := strconv.ParseFloat(act.S, 64)
		if err != nil || math.Float64bits(v) != math.Float64bits(exp.N) {
			return bad()
		}
	case 't':
		if act.K != 's' {
			return bad()
		}
		t, err := time.Parse(time.RFC3339Nano, act.S)
		if err != nil || strconv.FormatInt(t.UnixMilli(), 10) != exp.S || !strings.HasSuffix(act.S, "Z") {
			return bad()
		}
	case 'a':
		if act.K != 'a' {
			return bad()
		}
		for i := range exp.A {
			if i >= len(act.A) {
				break
			}
			if d := diff(path+"["+strconv.Itoa(i)+"]", exp.A[i], act.A[i]); d != "" {
				return d
			}
		}
		if len(act.A) != len(exp.A) {
			return fmt.Sprintf("%s: expected %d items, got %d: %s", path, len(exp.A), len(act.A), clip(act.Text()))
		}
	case 'o':
		if act.K != 'o' {
			return bad()
		}
		for i := range exp.A {
			if i >= len(act.A) {
				break
			}
			if exp.Keys[i] != act.Keys[i] {
				return fmt.Sprintf("%s: expected key %q at position %d, got %q (expected keys %v, got %v)", path, exp.Keys[i], i, act.Keys[i], exp.Keys, act.Keys)
			}
			if d := diff(path+"."+exp.Keys[i], exp.A[i], act.A[i]); d != "" {
				return d
			}
		}
		if len(act.A) != len(exp.A) {
			return fmt.Sprintf("%s: expected keys %v, got %v", path, exp.Keys, act.Keys)
		}
	default:
		panic("bad expectation")
	}
	return ""
}

// SameText tells if act is exp, which is exact when exp has a JSON form
func SameText(exp, act string) bool {
	if utf8.ValidString(exp) {
		return exp == act
	}
	return Sanitize(exp) == Sanitize(act)
}
