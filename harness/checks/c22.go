package checks

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/rand"
	"strconv"
	"strings"

	"github.com/mjarkk/yarql/bytecode"
	"vh/core"
	"vh/q"
	"vh/run"
)

func init() {
	add(&run.Check{
		ID:     "C22",
		Rule:   "Random documents that owe nothing to a schema (up to dozens of operations and fragments, names of 1 to 254 characters, keywords as names, directives everywhere, every kind of value nested at random, hostile string contents) and documents on random schemas, each printed in several layouts (compact, random white space and line ends, commas and comments). One parser, which keeps its buffers and cache, parses all of them; an independent decoder reads its output back into a document, checking every length and count on the way, and the result has to be the document that was printed, in every layout: operations, kinds, variables with types and defaults, fields with alias, name, arguments, directives and sub selections, spreads, inline fragments, fragments with their locations, values with their content, the target chosen. Documents on schemas are also executed in two layouts with the same response. Non-trivial: distinct printed text.",
		Assume: []string{"block strings are single lines without escapes", "no directives on definitions", "at most one comma between items"},
		Quick:  2500, Thorough: 200000, CPU: 60,
		Run: c22,
	})
}

// dec22 reads the parser's output
type dec22 struct {
	b []byte
	p int
}

type bad22 string

func (d *dec22) fail(f string, a ...interface{}) {
	panic(bad22(fmt.Sprintf("at byte %d: ", d.p) + fmt.Sprintf(f, a...)))
}

func (d *dec22) peek() byte {
	if d.p+1 >= len(d.b) {
		d.fail("the output ends within a construct")
	}
	if d.b[d.p] != 0 {
		d.fail("no instruction starts here but byte %d", d.b[d.p])
	}
	return d.b[d.p+1]
}

func (d *dec22) inst(want byte) {
	if c := d.peek(); c != want {
		d.fail("instruction %q instead of %q", c, want)
	}
	d.p += 2
}

func (d *dec22) byte() byte {
	if d.p >= len(d.b) {
		d.fail("the output ends")
	}
	d.p++
	return d.b[d.p-1]
}

func (d *dec22) flag() bool {
	switch d.byte() {
	case 't':
		return true
	case 'f':
		return false
	}
	d.p--
	d.fail("flag %q", d.b[d.p])
	return false
}

func (d *dec22) u32() int {
	d.bytes(4)
	return int(binary.LittleEndian.Uint32(d.b[d.p-4:]))
}

func (d *dec22) bytes(n int) string {
	if n < 0 || d.p+n > len(d.b) {
		d.fail("%d bytes do not follow", n)
	}
	d.p += n
	return string(d.b[d.p-n : d.p])
}

// name reads up to the next zero byte
func (d *dec22) name() string {
	s := d.p
	for d.p < len(d.b) && d.b[d.p] != 0 {
		d.p++
	}
	if d.p == len(d.b) {
		d.fail("a name is not ended")
	}
	return string(d.b[s:d.p])
}

func (d *dec22) value() *q.Val {
	d.inst('v')
	kind := d.byte()
	n := d.u32()
	start := d.p
	v := &q.Val{}
	switch kind {
	case '$':
		v.K, v.Raw = q.VVar, d.bytes(n)
	case 'i':
		v.K, v.Raw = q.VInt, d.bytes(n)
	case 'f':
		v.K, v.Raw = q.VFloat, d.bytes(n)
	case 's':
		v.K, v.Str = q.VString, d.bytes(n)
	case 'b':
		v.K = q.VBool
		switch d.bytes(n) {
		case "1":
			v.Raw = "true"
		case "0":
			v.Raw = "false"
		default:
			d.fail("a boolean is neither 0 nor 1")
		}
	case 'n':
		v.K = q.VNull
		d.bytes(n)
		if n != 0 {
			d.fail("null has content")
		}
	case 'e':
		v.K, v.Raw = q.VEnum, d.bytes(n)
	case 'l':
		v.K = q.VList
		for d.peek() != 'e' {
			v.List = append(v.List, d.value())
		}
		d.p += 2
	case 'o':
		v.K = q.VObj
		for d.peek() != 'e' {
			d.inst('u')
			k := d.name()
			v.Obj = append(v.Obj, q.Arg{Name: k, Val: d.value()})
		}
		d.p += 2
	default:
		d.fail("value kind %q", kind)
	}
	if d.p-start != n {
		d.fail("a value of kind %q is %d bytes long, its length says %d", kind, d.p-start, n)
	}
	return v
}

func (d *dec22) args() []q.Arg {
	v := d.value()
	if v.K != q.VObj {
		d.fail("arguments are no object")
	}
	return v.Obj
}

func (d *dec22) dirs(n int) (r []q.Dir) {
	for ; n > 0; n-- {
		d.inst('d')
		has := d.flag()
		x := q.Dir{Name: d.name()}
		if has {
			x.Args = d.args()
		}
		r = append(r, x)
	}
	return r
}

func (d *dec22) sels() []*q.Sel {
	var r []*q.Sel
	for {
		switch d.peek() {
		case 'e':
			d.p += 2
			return r
		case 'f':
			d.p += 2
			nd := int(d.byte())
			size := d.u32()
			hash := uint32(d.u32())
			start := d.p
			s := &q.Sel{K: q.SField}
			first := d.bytes(int(d.byte()))
			if second := d.bytes(int(d.byte())); second != "" {
				s.Alias, s.Name = first, second
			} else {
				s.Name = first
			}
			h := fnv.New32()
			h.Write([]byte(s.Name))
			if h.Sum32() != hash {
				d.fail("field %s has the hash of another name", s.Name)
			}
			s.Dirs = d.dirs(nd)
			if d.peek() == 'v' {
				s.Args = d.args()
			}
			if d.peek() != 'e' {
				s.Sub = d.sels2()
			}
			d.inst('e')
			if d.p-start != size {
				d.fail("field %s is %d bytes long, its length says %d", s.Name, d.p-start, size)
			}
			r = append(r, s)
		case 's':
			d.p += 2
			inline := d.flag()
			nd := int(d.byte())
			size := d.u32()
			start := d.p
			s := &q.Sel{K: q.SSpread}
			n := d.name2(start + size)
			s.Dirs = d.dirs(nd)
			if inline {
				s.K, s.On = q.SInline, n
				s.Sub = d.sels()
			} else {
				s.Name = n
			}
			if d.p-start != size {
				d.fail("spread of %s is %d bytes long, its length says %d", n, d.p-start, size)
			}
			r = append(r, s)
		default:
			d.fail("instruction %q in a selection", d.peek())
		}
	}
}

// name2 reads a name that ends at a zero byte or at the end of its construct
func (d *dec22) name2(end int) string {
	s := d.p
	for d.p < len(d.b) && d.p < end && d.b[d.p] != 0 {
		d.p++
	}
	return string(d.b[s:d.p])
}

// sels2 reads selections up to, without, the end of the field
func (d *dec22) sels2() []*q.Sel {
	r := d.sels()
	d.p -= 2
	return r
}

func (d *dec22) typ() *q.TypeRef {
	switch c := d.byte(); c {
	case 'l', 'L':
		return &q.TypeRef{Elem: d.typ(), NonNull: c == 'L'}
	case 'n', 'N':
		return &q.TypeRef{Name: d.name(), NonNull: c == 'N'}
	}
	d.p--
	d.fail("type kind %q", d.b[d.p])
	return nil
}

// doc reads everything; at has the position of every definition
func (d *dec22) doc() (doc *q.Doc, at []int) {
	doc = &q.Doc{}
	for d.p < len(d.b) {
		at = append(at, d.p)
		switch d.peek() {
		case 'o':
			d.p += 2
			o := &q.Op{}
			switch k := d.byte(); k {
			case 'q':
				o.Kind = "query"
			case 'm':
				o.Kind = "mutation"
			case 's':
				o.Kind = "subscription"
			default:
				d.fail("operation kind %q", k)
			}
			has := d.flag()
			nd := int(d.byte())
			o.Name = d.name()
			if has {
				if d.byte() != 0 {
					d.fail("no variables follow")
				}
				size := d.u32()
				start := d.p
				d.inst('A')
				for d.peek() != 'e' {
					argStart := d.p + 1
					d.inst('a')
					argSize := d.u32()
					v := q.VarDef{Name: d.name()}
					d.byte()
					v.Type = d.typ()
					if d.byte() != 0 {
						d.fail("a type is not ended")
					}
					if d.flag() {
						v.Default = d.value()
					}
					if d.p-argStart != argSize {
						d.fail("variable %s is %d bytes long, its length says %d", v.Name, d.p-argStart, argSize)
					}
					o.Vars = append(o.Vars, v)
				}
				d.p += 2
				if d.p-start != size {
					d.fail("variables are %d bytes long, their length says %d", d.p-start, size)
				}
			}
			if nd != 0 {
				d.fail("directives that were not written")
			}
			o.Sel = d.sels()
			doc.Defs = append(doc.Defs, o)
		case 'F':
			d.p += 2
			f := &q.Frag{Name: d.name()}
			d.byte()
			f.On = d.name()
			f.Sel = d.sels()
			doc.Defs = append(doc.Defs, f)
		default:
			d.fail("instruction %q at the top", d.peek())
		}
	}
	return doc, at
}

// canon writes a document down such that equal meanings give equal texts
func canon(doc *q.Doc) string {
	var b strings.Builder
	var val func(v *q.Val)
	args := func(l []q.Arg) {
		for _, a := range l {
			fmt.Fprintf(&b, "%s:", a.Name)
			val(a.Val)
			b.WriteByte(' ')
		}
	}
	val = func(v *q.Val) {
		switch v.K {
		case q.VInt, q.VFloat:
			b.WriteString(string("if"[int(v.K-q.VInt)]) + "#" + strings.NewReplacer("e", "E", "+", "").Replace(v.Raw))
		case q.VString, q.VBlock:
			b.WriteString(strconv.QuoteToASCII(v.Str))
		case q.VBool:
			b.WriteString("!" + v.Raw)
		case q.VEnum:
			b.WriteString(v.Raw)
		case q.VNull:
			b.WriteString("null")
		case q.VVar:
			b.WriteString("$" + v.Raw)
		case q.VList:
			b.WriteByte('[')
			for _, x := range v.List {
				val(x)
				b.WriteByte(' ')
			}
			b.WriteByte(']')
		case q.VObj:
			b.WriteByte('{')
			args(v.Obj)
			b.WriteByte('}')
		}
	}
	dirs := func(l []q.Dir) {
		for _, d := range l {
			b.WriteString("@" + d.Name + "(")
			args(d.Args)
			b.WriteString(")")
		}
	}
	var sels func(l []*q.Sel)
	sels = func(l []*q.Sel) {
		b.WriteString("{ ")
		for _, s := range l {
			switch s.K {
			case q.SField:
				fmt.Fprintf(&b, "%s:%s(", s.Alias, s.Name)
				args(s.Args)
				b.WriteString(")")
			case q.SSpread:
				b.WriteString("..." + s.Name)
			case q.SInline:
				b.WriteString("...on " + s.On)
			}
			dirs(s.Dirs)
			if len(s.Sub) > 0 {
				sels(s.Sub)
			}
			b.WriteByte(' ')
		}
		b.WriteString("}")
	}
	for _, x := range doc.Defs {
		switch t := x.(type) {
		case *q.Op:
			fmt.Fprintf(&b, "%s %s(", t.Kind, t.Name)
			for _, v := range t.Vars {
				fmt.Fprintf(&b, "$%s:%s", v.Name, v.Type)
				if v.Default != nil {
					b.WriteByte('=')
					val(v.Default)
				}
				b.WriteByte(' ')
			}
			b.WriteString(")")
			sels(t.Sel)
		case *q.Frag:
			fmt.Fprintf(&b, "fragment %s on %s", t.Name, t.On)
			sels(t.Sel)
		}
		b.WriteByte('\n')
	}
	return b.String()
}

// gen22 makes documents without a schema
type gen22 struct {
	r      *rand.Rand
	names  []string
	budget int
}

const nameChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"

func (g *gen22) name() string {
	r := g.r
	switch {
	case len(g.names) > 0 && chance(r, 2):
		return g.names[r.Intn(len(g.names))]
	case chance(r, 6):
		return pick(r, "query", "mutation", "subscription", "fragment", "on", "true", "false", "null", "onX", "on_", "o", "n", "trueX", "nullable", "e", "f", "s", "F", "v", "t", "_", "__typename", "input", "type", "a", "A", "E", "queryA")
	}
	n := 1 + r.Intn(8)
	if chance(r, 40) {
		n = pick(r, 127, 128, 200, 253, 254)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = nameChars[r.Intn(len(nameChars))]
	}
	b[0] = nameChars[r.Intn(53)]
	s := string(b)
	g.names = append(g.names, s)
	return s
}

// fragName is not the keyword of inline fragments
func (g *gen22) fragName() string {
	for {
		if n := g.name(); n != "on" {
			return n
		}
	}
}

func (g *gen22) enum() string {
	for {
		n := g.name()
		if n != "true" && n != "false" && n != "null" {
			return n
		}
	}
}

func (g *gen22) digits(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + g.r.Intn(10))
	}
	if b[0] == '0' {
		b[0] = '7'
	}
	return string(b)
}

func (g *gen22) val(depth int, vars bool) *q.Val {
	r := g.r
	g.budget--
	n := 9
	if depth <= 0 || g.budget <= 0 {
		n = 7
	}
	switch r.Intn(n) {
	case 0:
		s := pick(r, "0", g.digits(1+r.Intn(25)), g.digits(1+r.Intn(3)))
		if chance(r, 3) {
			s = "-" + s
		}
		return &q.Val{K: q.VInt, Raw: s}
	case 1:
		s := pick(r, "0", g.digits(1+r.Intn(4)), g.digits(20))
		frac := chance(r, 2)
		if frac {
			s += "." + pick(r, "0", "00", g.digits(1+r.Intn(20)), "0"+g.digits(2))
		}
		if !frac || chance(r, 2) {
			s += pick(r, "e", "E") + pick(r, "", "-", "+") + g.digits(1+r.Intn(3))
		}
		if chance(r, 3) {
			s = "-" + s
		}
		return &q.Val{K: q.VFloat, Raw: s}
	case 2:
		s := core.RandString(r)
		if chance(r, 3) {
			// what looks like instructions and ends
			s += pick(r, "\x01e", "e", "0e", "}", "{", "#", "\"\"\"", "\\", "\\u0041", "fe", "]", ")", "...", "query")
		}
		if chance(r, 100) {
			s += strings.Repeat("x", pick(r, 255, 256, 65535, 65536, 70000))
		}
		return &q.Val{K: q.VString, Str: s}
	case 3:
		return &q.Val{K: q.VBool, Raw: pick(r, "true", "false")}
	case 4:
		return &q.Val{K: q.VNull}
	case 5:
		return &q.Val{K: q.VEnum, Raw: g.enum()}
	case 6:
		if !vars {
			return &q.Val{K: q.VBlock, Str: pick(r, "a", "a b", "x#y {z}", "say \"hi\" to", "", "a\nb", "a \"\"\n\n\"b\" {\n#c\nd", "1\n2\n3")}
		}
		return &q.Val{K: q.VVar, Raw: g.name()}
	case 7:
		v := &q.Val{K: q.VList}
		for i := r.Intn(5); i > 0; i-- {
			v.List = append(v.List, g.val(depth-1, vars))
		}
		return v
	}
	return &q.Val{K: q.VObj, Obj: g.args(r.Intn(5), depth-1, vars)}
}

func (g *gen22) args(n, depth int, vars bool) (l []q.Arg) {
	for ; n > 0; n-- {
		l = append(l, q.Arg{Name: g.name(), Val: g.val(depth, vars)})
	}
	return l
}

func (g *gen22) dirs() (l []q.Dir) {
	r := g.r
	if !chance(r, 4) {
		return nil
	}
	n := 1 + r.Intn(3)
	if chance(r, 60) {
		n = pick(r, 100, 254, 255)
	}
	for ; n > 0; n-- {
		d := q.Dir{Name: g.name()}
		if chance(r, 2) && g.budget > 0 {
			d.Args = g.args(1+r.Intn(3), 2, true)
		}
		l = append(l, d)
	}
	return l
}

func (g *gen22) sels(depth int) (l []*q.Sel) {
	r := g.r
	for n := 1 + r.Intn(5); n > 0; n-- {
		g.budget--
		sub := depth > 0 && g.budget > 0
		switch k := r.Intn(8); {
		case k == 0:
			l = append(l, &q.Sel{K: q.SSpread, Name: g.fragName(), Dirs: g.dirs()})
		case k == 1 && sub:
			l = append(l, &q.Sel{K: q.SInline, On: g.name(), Dirs: g.dirs(), Sub: g.sels(depth - 1)})
		default:
			s := &q.Sel{K: q.SField, Name: g.name(), Dirs: g.dirs()}
			if chance(r, 3) {
				s.Alias = g.name()
			}
			if chance(r, 3) {
				s.Args = g.args(1+r.Intn(4), 3, true)
			}
			if sub && chance(r, 2) {
				s.Sub = g.sels(depth - 1)
			}
			l = append(l, s)
		}
	}
	return l
}

func (g *gen22) typ(d int) *q.TypeRef {
	t := &q.TypeRef{NonNull: chance(g.r, 3)}
	if d > 0 && chance(g.r, 3) {
		t.Elem = g.typ(d - 1)
	} else {
		t.Name = g.name()
	}
	return t
}

func (g *gen22) doc() *q.Doc {
	r := g.r
	d := &q.Doc{}
	n := 1 + r.Intn(3)
	if chance(r, 10) {
		n = 5 + r.Intn(40)
	}
	for ; n > 0; n-- {
		if chance(r, 3) {
			d.Defs = append(d.Defs, &q.Frag{Name: g.fragName(), On: g.name(), Sel: g.sels(4)})
			continue
		}
		o := &q.Op{Kind: "query", Sel: g.sels(r.Intn(8))}
		switch {
		case chance(r, 4):
			o.Shorthand = true
		default:
			o.Kind = pick(r, "query", "query", "mutation", "subscription")
			if chance(r, 4) {
				break
			}
			o.Name = g.name()
		}
		if !o.Shorthand && chance(r, 2) {
			for i := 1 + r.Intn(4); i > 0; i-- {
				v := q.VarDef{Name: g.name(), Type: g.typ(3)}
				if chance(r, 2) {
					v.Default = g.val(3, false)
				}
				o.Vars = append(o.Vars, v)
			}
		}
		d.Defs = append(d.Defs, o)
	}
	return d
}

// firstDiff shows where two texts part
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	s := i - 60
	if s < 0 {
		s = 0
	}
	cut := func(x string) string {
		if len(x) < s {
			return ""
		}
		x = x[s:]
		if len(x) > 160 {
			x = x[:160]
		}
		return x
	}
	return fmt.Sprintf("written: %s\n   read: %s", cut(a), cut(b))
}

// parsed22 has one text parsed and judges the output
func parsed22(p *bytecode.ParserCtx, doc *q.Doc, text, target string) (bad string) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case bad22:
			bad = "the output cannot be read: " + string(x)
		default:
			bad = fmt.Sprintf("panic: %v", x)
		}
	}()
	var tp *string
	if target != "" {
		tp = &target
	}
	p.Query = append(p.Query[:0], text...)
	p.ParseQueryToBytecode(tp)
	if len(p.Errors) > 0 {
		return fmt.Sprintf("a well-formed document is rejected: %v", p.Errors)
	}
	d := &dec22{b: p.Res}
	got, at := d.doc()
	exp, act := canon(doc), canon(got)
	if exp != act {
		return "the parser read another document than was written\n" + firstDiff(exp, act)
	}
	want := -1
	var frags []int
	for i, x := range doc.Defs {
		switch o := x.(type) {
		case *q.Op:
			if target == "" || o.Name == target {
				want = at[i]
			}
		case *q.Frag:
			frags = append(frags, at[i]+1)
		}
	}
	if p.TargetIdx != want {
		return fmt.Sprintf("the target is at %d instead of %d (operation name %q)", p.TargetIdx, want, target)
	}
	if fmt.Sprint(p.FragmentLocations) != fmt.Sprint(frags) && len(p.FragmentLocations)+len(frags) > 0 {
		return fmt.Sprintf("fragments are located at %v instead of %v", p.FragmentLocations, frags)
	}
	return ""
}

func c22(t *run.T) {
	r := t.R
	p := bytecode.NewParserCtx()
	if chance(r, 2) {
		p.CacheableQueryMinLen = r.Intn(600)
	}
	var c *core.Case
	var g *core.Gen
	if chance(r, 4) {
		if c = newCase(t, core.CaseOpt{}); c == nil {
			return
		}
		g = core.NewGen(c, r, core.DefaultOpt())
	}
	type old struct {
		doc          *q.Doc
		text, target string
	}
	var olds []old
	for i := 0; i < 10; i++ {
		if len(olds) > 0 && chance(r, 4) {
			// again, with other documents in between
			o := olds[r.Intn(len(olds))]
			t.Eval(1)
			t.Count("documents parsed again", 1)
			if bad := parsed22(p, o.doc, o.text, o.target); bad != "" {
				t.Fail(bad, fmt.Sprintf("parsed before without complaint\ndocument: %q\noperation name: %q", o.text, o.target))
				return
			}
			continue
		}
		var doc *q.Doc
		var rq *core.Request
		if c != nil {
			rq = g.Request()
			doc = rq.Doc
		} else {
			doc = (&gen22{r: r, budget: pick(r, 10, 60, 300, 1500)}).doc()
		}
		target := ""
		if ops := doc.Ops(); len(ops) > 0 && chance(r, 2) {
			target = ops[r.Intn(len(ops))].Name
		}
		texts := []string{}
		for l := 0; l < 3; l++ {
			texts = append(texts, doc.Print(q.Layout{R: r, Level: l}))
		}
		for l, text := range texts {
			t.Eval(1)
			t.NonTrivial(text, target)
			t.Max("document bytes", len(text))
			t.Count(fmt.Sprintf("documents parsed, layout %d", l), 1)
			if bad := parsed22(p, doc, text, target); bad != "" {
				t.Fail(bad, fmt.Sprintf("layout %d\ndocument: %q\noperation name: %q\nas compact: %q", l, text, target, texts[0]))
				return
			}
			olds = append(olds, old{doc, text, target})
		}
		t.Count("definitions", len(doc.Defs))
		if t.WantSample() && len(texts[2]) < 400 {
			t.Sample("%q", texts[2])
		}
		if rq != nil {
			a := c.Run(c.S, texts[0], rq.Options())
			b := c.Run(c.S, texts[2], rq.Options())
			t.Eval(2)
			t.Count("documents executed in two layouts", 1)
			if a.Raw != b.Raw {
				t.Fail("the layout of a document changes its response", fmt.Sprintf("document 1: %q\nresponse 1: %s\ndocument 2: %q\nresponse 2: %s", texts[0], a.Raw, texts[2], b.Raw))
				return
			}
		}
	}
}
