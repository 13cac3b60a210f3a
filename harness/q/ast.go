package q

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"unicode/utf8"
)

// ValKind is the kind of a value literal
type ValKind byte

// Kinds of values
const (
	VInt ValKind = iota
	VFloat
	VString
	VBlock
	VBool
	VNull
	VEnum
	VList
	VObj
	VVar
	VRaw // Raw as it stands, in documents and in JSON
)

// Val is a value in a document
type Val struct {
	K    ValKind
	Raw  string // int, float, enum name, variable name, "true"/"false"
	Str  string // string content
	List []*Val
	Obj  []Arg
}

// Arg is a named value
type Arg struct {
	Name string
	Val  *Val
}

// TypeRef is a type in a variable definition
type TypeRef struct {
	Name    string
	Elem    *TypeRef
	NonNull bool
}

func (t *TypeRef) String() string {
	r := t.Name
	if t.Elem != nil {
		r = "[" + t.Elem.String() + "]"
	}
	if t.NonNull {
		r += "!"
	}
	return r
}

// VarDef is a variable definition
type VarDef struct {
	Name    string
	Type    *TypeRef
	Default *Val
}

// Dir is a use of a directive
type Dir struct {
	Name string
	Args []Arg
	// expectations
	Skip bool
	In   []reflect.Value
	Fn   string
}

// SelKind is the kind of a selection
type SelKind byte

// Kinds of selections
const (
	SField SelKind = iota
	SSpread
	SInline
)

// Sel is a selection
type Sel struct {
	K     SelKind
	Alias string
	Name  string // field or fragment name
	On    string // type condition of an inline fragment
	Args  []Arg
	Dirs  []Dir
	Sub   []*Sel
	// expectations
	In []reflect.Value // what each struct parameter of the function receives
}

// Key is the response key
func (s *Sel) Key() string {
	if s.Alias != "" {
		return s.Alias
	}
	return s.Name
}

// Op is an operation
type Op struct {
	Kind      string // query, mutation, subscription
	Name      string
	Vars      []VarDef
	Sel       []*Sel
	Shorthand bool
}

// Frag is a fragment definition
type Frag struct {
	Name string
	On   string
	Sel  []*Sel
}

// Doc is a document; Defs holds *Op and *Frag
type Doc struct {
	Defs []interface{}
}

// Ops lists the operations
func (d *Doc) Ops() []*Op {
	var r []*Op
	for _, x := range d.Defs {
		if o, ok := x.(*Op); ok {
			r = append(r, o)
		}
	}
	return r
}

// Frag finds a fragment
func (d *Doc) Frag(name string) *Frag {
	for _, x := range d.Defs {
		if f, ok := x.(*Frag); ok && f.Name == name {
			return f
		}
	}
	return nil
}

// Layout says how documents are printed
type Layout struct {
	R        *rand.Rand
	Level    int // 0 compact, 1 random white space, 2 also commas and comments
	NoCommas bool
}

type printer struct {
	l       Layout
	b       strings.Builder
	pending int // 0 glue 1 space needed 2 item separator
	last    byte
}

func isName(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

var wsChoices = []string{" ", "  ", "\n", "\t", "\n  ", "\r\n", "\r", " \n\t "}
var comments = []string{"#\n", "# a comment\n", "#{}()[]\"...@$:!=|&\n", "# query x { y }\n", "#\"\"\"\n", "#\r", "# ends } a { line\r", "# both \" \r\n", "# caf\u00e9 \u2028 \U0001f600 }\n", "# one # two\n#three\r\n"}

func (p *printer) gap(need bool, item bool, next byte) {
	if p.b.Len() == 0 {
		need, item = false, false
	}
	switch p.l.Level {
	case 0:
		if need || item {
			p.b.WriteByte(' ')
		}
		return
	}
	r := p.l.R
	out := ""
	n := r.Intn(3)
	if need || item {
		n = 1 + r.Intn(2)
	}
	for i := 0; i < n; i++ {
		if p.l.Level >= 2 && r.Intn(12) == 0 {
			out += comments[r.Intn(len(comments))]
		} else {
			out += wsChoices[r.Intn(len(wsChoices))]
		}
	}
	if item && p.l.Level >= 2 && !p.l.NoCommas && r.Intn(3) == 0 {
		at := r.Intn(3)
		switch at {
		case 0:
			out = "," + out
		case 1:
			out = out + ","
		default:
			out = ","
		}
	}
	p.b.WriteString(out)
}

// tok writes a token
func (p *printer) tok(s string, item bool) {
	need := p.last != 0 && isName(p.last) && isName(s[0])
	if p.last != 0 && isName(p.last) && (s[0] == '-' || s[0] == '.') {
		need = true
	}
	if p.last == '.' && isName(s[0]) {
		need = false
	}
	p.gap(need, item, s[0])
	p.b.WriteString(s)
	p.last = s[len(s)-1]
}

// raw writes a token that has to follow directly
func (p *printer) raw(s string) {
	p.b.WriteString(s)
	p.last = s[len(s)-1]
}

func (p *printer) str(v *Val) string {
	if v.K == VBlock {
		return `"""` + v.Str + `"""`
	}
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(v.Str); {
		r, n := utf8.DecodeRuneInString(v.Str[i:])
		if r == utf8.RuneError && n <= 1 {
			b.WriteByte(v.Str[i])
			i++
			continue
		}
		esc := p.l.Level > 0 && p.l.R.Intn(6) == 0
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\r':
			b.WriteString(`\r`)
		case r == '\t' && !esc:
			b.WriteString(`\t`)
		case r == '\b':
			b.WriteString(`\b`)
		case r == '\f':
			b.WriteString(`\f`)
		case r == '/' && esc:
			b.WriteString(`\/`)
		case r < 0x20 || r == 0x7f:
			fmt.Fprintf(&b, `\u%04x`, r)
		case r > 0xffff && esc:
			r -= 0x10000
			fmt.Fprintf(&b, `\u%04x\u%04X`, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
		case esc:
			fmt.Fprintf(&b, `\u%04X`, r)
		default:
			b.WriteRune(r)
		}
		i += n
	}
	b.WriteByte('"')
	return b.String()
}

func (p *printer) val(v *Val, item bool) {
	switch v.K {
	case VInt, VFloat, VBool, VEnum, VRaw:
		p.tok(v.Raw, item)
	case VNull:
		p.tok("null", item)
	case VString, VBlock:
		p.tok(p.str(v), item)
	case VVar:
		p.tok("$", item)
		p.raw(v.Raw)
	case VList:
		p.tok("[", item)
		for i, x := range v.List {
			p.val(x, i > 0)
		}
		p.tok("]", false)
	case VObj:
		p.tok("{", item)
		for i, x := range v.Obj {
			p.tok(x.Name, i > 0)
			p.tok(":", false)
			p.val(x.Val, false)
		}
		p.tok("}", false)
	}
}

func (p *printer) args(args []Arg) {
	if len(args) == 0 {
		return
	}
	p.tok("(", false)
	for i, x := range args {
		p.tok(x.Name, i > 0)
		p.tok(":", false)
		p.val(x.Val, false)
	}
	p.tok(")", false)
}

func (p *printer) dirs(ds []Dir) {
	for _, d := range ds {
		p.tok("@", false)
		p.raw(d.Name)
		if len(d.Args) > 0 {
			// a space between name and arguments is not supported everywhere
			p.raw("(")
			for i, x := range d.Args {
				p.tok(x.Name, i > 0)
				p.tok(":", false)
				p.val(x.Val, false)
			}
			p.tok(")", false)
		}
	}
}

func (p *printer) sel(ss []*Sel) {
	p.tok("{", false)
	for i, s := range ss {
		switch s.K {
		case SField:
			if s.Alias != "" {
				p.tok(s.Alias, i > 0)
				p.tok(":", false)
				p.tok(s.Name, false)
			} else {
				p.tok(s.Name, i > 0)
			}
			p.args(s.Args)
			p.dirs(s.Dirs)
			if s.Sub != nil {
				p.sel(s.Sub)
			}
		case SSpread:
			p.tok("...", i > 0)
			p.tok(s.Name, false)
			p.dirs(s.Dirs)
		case SInline:
			p.tok("...", i > 0)
			p.tok("on", false)
			p.tok(s.On, false)
			p.dirs(s.Dirs)
			p.sel(s.Sub)
		}
	}
	p.tok("}", false)
}

func (p *printer) typ(t *TypeRef, first bool) {
	if t.Elem != nil {
		p.tok("[", false)
		p.typ(t.Elem, false)
		p.tok("]", false)
	} else {
		p.tok(t.Name, false)
	}
	if t.NonNull {
		p.raw("!")
	}
}

// Print renders a document
func (d *Doc) Print(l Layout) string {
	p := &printer{l: l}
	for i, x := range d.Defs {
		switch t := x.(type) {
		case *Op:
			if t.Shorthand {
				p.sepDef(i)
				p.sel(t.Sel)
				continue
			}
			p.sepDef(i)
			p.tok(t.Kind, false)
			if t.Name != "" {
				p.tok(t.Name, false)
			}
			if len(t.Vars) > 0 {
				p.tok("(", false)
				for j, v := range t.Vars {
					p.tok("$", j > 0)
					p.raw(v.Name)
					p.tok(":", false)
					p.typ(v.Type, true)
					if v.Default != nil {
						p.tok("=", false)
						p.val(v.Default, false)
					}
				}
				p.tok(")", false)
			}
			p.sel(t.Sel)
		case *Frag:
			p.sepDef(i)
			p.tok("fragment", false)
			p.tok(t.Name, false)
			p.tok("on", false)
			p.tok(t.On, false)
			p.sel(t.Sel)
		}
	}
	if l.Level > 0 {
		p.gap(false, false, 0)
	}
	if l.Level > 1 && l.R.Intn(6) == 0 {
		p.b.WriteString([]string{"#", "# the end", "#}", " #{a", "\n\t#x\t"}[l.R.Intn(5)])
	}
	return p.b.String()
}

func (p *printer) sepDef(i int) {
	if i > 0 {
		if p.l.Level == 0 {
			p.b.WriteByte(' ')
		} else {
			p.b.WriteString("\n")
		}
		p.last = 0
	}
}
