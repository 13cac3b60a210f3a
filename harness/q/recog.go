package q

import "strings"

// Tok is a token of a document
type Tok struct {
	K          byte // n name, 1 number, " string, . three dots, else the punctuator itself; 0 end; ? illegal
	Start, End int
	Text       string
	Block      bool
	Escape     bool // a string with a backslash
}

// Lex splits a document into tokens, up to the first illegal one
func Lex(s string) []Tok {
	var l []Tok
	i := 0
	for {
		for i < len(s) {
			c := s[i]
			if c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == ',' || c == 0 {
				i++
			} else if c == '#' {
				for i < len(s) && s[i] != '\n' && s[i] != '\r' {
					i++
				}
			} else {
				break
			}
		}
		if i >= len(s) {
			return append(l, Tok{K: 0, Start: len(s), End: len(s)})
		}
		t := Tok{K: s[i], Start: i}
		c := s[i]
		bad := false
		switch {
		case isName(c) && !(c >= '0' && c <= '9'):
			t.K = 'n'
			for i < len(s) && isName(s[i]) {
				i++
			}
		case c == '.' && strings.HasPrefix(s[i:], "..."):
			i += 3
		case c == '-' || c == '+' || c == '.' || c >= '0' && c <= '9':
			t.K = '1'
			for i < len(s) && (s[i] == '-' || s[i] == '+' || s[i] == '.' || s[i] == '_' || s[i] == 'e' || s[i] == 'E' || s[i] >= '0' && s[i] <= '9') {
				i++
			}
		case strings.HasPrefix(s[i:], `"""`):
			t.K, t.Block = '"', true
			i += 3
			for i < len(s) && !strings.HasPrefix(s[i:], `"""`) {
				if s[i] == '\\' {
					t.Escape = true
				}
				i++
			}
			if i >= len(s) {
				bad = true
			} else {
				i += 3
			}
		case c == '"':
			i++
			for {
				if i >= len(s) || s[i] == '\n' || s[i] == '\r' {
					bad = true
					break
				}
				if s[i] == '"' {
					i++
					break
				}
				if s[i] == '\\' {
					t.Escape = true
					i++
					if i >= len(s) || s[i] == '\n' || s[i] == '\r' {
						bad = true
						break
					}
				}
				i++
			}
		case strings.IndexByte("{}()[]:!=@$", c) >= 0:
			i++
		default:
			bad = true
			i++
		}
		if i > len(s) {
			i = len(s)
		}
		t.End = i
		t.Text = s[t.Start:i]
		if bad {
			t.K = '?'
			return append(l, t)
		}
		l = append(l, t)
	}
}

type recog struct {
	l   []Tok
	i   int
	bad int // index of the token that cannot be, -1
}

type recogStop struct{}

func (p *recog) k() byte { return p.l[p.i].K }
func (p *recog) fail() {
	p.bad = p.i
	panic(recogStop{})
}
func (p *recog) next() { p.i++ }
func (p *recog) want(k byte) {
	if p.k() != k {
		p.fail()
	}
	p.i++
}
func (p *recog) opt(k byte) bool {
	if p.k() == k {
		p.i++
		return true
	}
	return false
}

func (p *recog) value(d int) {
	switch p.k() {
	case 'n', '1', '"':
		p.next()
	case '$':
		p.next()
		p.want('n')
	case '[':
		p.next()
		for !p.opt(']') {
			p.value(d + 1)
		}
	case '{':
		p.next()
		p.args('}')
	default:
		p.fail()
	}
}

func (p *recog) args(end byte) {
	for !p.opt(end) {
		p.want('n')
		p.want(':')
		p.value(0)
	}
}

func (p *recog) dirs() {
	for p.opt('@') {
		p.want('n')
		if p.opt('(') {
			p.args(')')
		}
	}
}

func (p *recog) typ() {
	if p.opt('[') {
		p.typ()
		p.want(']')
	} else {
		p.want('n')
	}
	p.opt('!')
}

func (p *recog) sels() {
	for !p.opt('}') {
		switch p.k() {
		case 'n':
			p.next()
			if p.opt(':') {
				p.want('n')
			}
			p.dirs()
			if p.opt('(') {
				p.args(')')
				p.dirs()
			}
			if p.opt('{') {
				p.sels()
			}
		case '.':
			p.next()
			if p.k() == 'n' && p.l[p.i].Text != "on" {
				p.next()
				p.dirs()
				break
			}
			if p.k() == 'n' {
				p.next()
				p.want('n')
			}
			p.dirs()
			p.want('{')
			p.sels()
		default:
			p.fail()
		}
	}
}

func (p *recog) doc() {
	for p.k() != 0 {
		if p.opt('{') {
			p.sels()
			continue
		}
		if p.k() != 'n' {
			p.fail()
		}
		s := p.l[p.i].Text
		rest, frag, ok := "", false, false
		for _, w := range []string{"query", "mutation", "subscription", "fragment"} {
			if strings.HasPrefix(s, w) {
				rest, frag, ok = s[len(w):], w == "fragment", true
			}
		}
		if !ok {
			p.fail()
		}
		p.next()
		if frag {
			if rest == "" {
				p.want('n')
			}
			if p.k() != 'n' || !strings.HasPrefix(p.l[p.i].Text, "on") {
				p.fail()
			}
			rest = p.l[p.i].Text[2:]
			p.next()
			if rest == "" {
				p.want('n')
			}
			p.dirs()
		} else {
			if rest == "" {
				p.opt('n')
			}
			if p.opt('(') {
				for !p.opt(')') {
					p.want('$')
					p.want('n')
					p.want(':')
					p.typ()
					if p.opt('=') {
						p.value(0)
					}
					p.dirs()
				}
			}
			p.dirs()
		}
		p.want('{')
		p.sels()
	}
}

// Malformed tells whether s is no document, whatever leniency a reader
// permits itself: superfluous commas, missing white space, directives
// everywhere, empty sets, numbers of any form. at is the first token that
// cannot be. Documents it cannot judge count as well-formed.
func Malformed(s string) (bool, Tok) {
	p := &recog{l: Lex(s), bad: -1}
	for _, t := range p.l {
		if t.Block && t.Escape {
			return false, Tok{}
		}
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(recogStop); !ok {
					panic(x)
				}
			}
		}()
		p.doc()
	}()
	if p.bad < 0 {
		return false, Tok{}
	}
	return true, p.l[p.bad]
}
