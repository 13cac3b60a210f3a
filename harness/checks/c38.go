package checks

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"mime/multipart"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/mjarkk/yarql"
	"vh/q"
	"vh/run"
)

func init() {
	yarql.Implements((*I38)(nil), T38{})
	add(&run.Check{
		ID:     "C38",
		Rule:   "A case is a kind of request that can be made as long as one likes: thousands of selections of one to three kinds (fields, aliases, arguments of all kinds, variables each of its own or all the same, fragments each of their own, chained, nested or all the same, conditions that do and do not match, directives, errors of resolvers, unknown types, introspection, files, lists of the data), in an operation among many, under nested selections, in lists, or as items of an HTTP batch, or one long value, comment, list, object, string, type or syntax error. It is served with 1/64, 1/16, 1/4 and all of its length, on fresh schemas and copies. The CPU time of each is the least of up to four tries. The time is out of proportion if the last is above 0.5 microseconds for each byte of request and response and more than nine times that of the quarter of its length. The responses are checked too. Non-trivial: distinct mix of kinds and place.",
		Assume: []string{"each fragment is spread once or all spreads of it count as written out; more than 255 directives on one field and selections deeper than the limit are refused"},
		Quick:  260, Thorough: 5000, Shards: 4, CPU: 300,
		Run: c38,
	})
}

// I38 is an interface
type I38 interface{ ResolveLabel() string }

// T38 is its implementation
type T38 struct{ X int }

// ResolveLabel is a resolver
func (t T38) ResolveLabel() string { return "l" }

type e38 uint8

type in38 struct {
	X *in38
	L []in38
	I []int
	S *string
}

// O38 is an object
type O38 struct {
	O *O38
	N int
	S string
	I I38
}

// Q38 is the root
type Q38 struct {
	A  int
	S  string
	O  *O38
	E  e38
	I  I38
	L  []int
	Os []O38
	Is []I38
}

// ResolveF takes arguments
func (Q38) ResolveF(a struct {
	I *int
	S *string
	B *bool
	F *float64
	E *e38
	L []int
	O *in38
	U *multipart.FileHeader
}) int {
	n := len(a.L)
	if a.I != nil {
		n += *a.I
	}
	if a.S != nil {
		n += len(*a.S)
	}
	for o := a.O; o != nil; o = o.X {
		n += len(o.L) + len(o.I)
	}
	return n
}

// ResolveErr fails
func (Q38) ResolveErr() (int, error) { return 0, errors.New("it fails") }

// ResolvePath reads the path
func (Q38) ResolvePath(c *yarql.Ctx) int {
	c.SetValue("n", len(c.GetPath()))
	return c.GetValue("n").(int)
}

// M38 is the other root
type M38 struct{ A int }

func schema38(n int) (*yarql.Schema, error) {
	s := yarql.NewSchema()
	if _, err := s.RegisterEnum(map[string]e38{"ONE": 1, "TWO": 2}); err != nil {
		return nil, err
	}
	err := s.RegisterDirective(yarql.Directive{Name: "mark", Where: []yarql.DirectiveLocation{yarql.DirectiveLocationField, yarql.DirectiveLocationFragment, yarql.DirectiveLocationFragmentInline}, Method: func(a struct{ S *string }) yarql.DirectiveModifier {
		return yarql.DirectiveModifier{}
	}})
	if err != nil {
		return nil, err
	}
	o := &O38{N: 1, S: "s", I: T38{1}}
	o.O = o
	root := Q38{A: 1, S: "x", O: o, E: 2, I: T38{2}}
	for i := 0; i < n; i++ {
		root.L = append(root.L, i)
		root.Os = append(root.Os, *o)
		root.Is = append(root.Is, T38{i})
	}
	return s, s.Parse(root, M38{1}, nil)
}

// part38 is what an item adds to a document
type part38 struct{ sel, frag, def, vars string }

var items38 = []struct {
	name string
	make func(i int, s string) part38 // s is the number of the item and its kind
}{
	{"alias", func(i int, s string) part38 { return part38{sel: "a" + s + ":a"} }},
	{"name", func(i int, s string) part38 { return part38{sel: "a"} }},
	{"object", func(i int, s string) part38 { return part38{sel: "o" + s + ":o{n s}"} }},
	{"nested object", func(i int, s string) part38 { return part38{sel: "o" + s + ":o{o{o{o{n}}}}"} }},
	{"typename", func(i int, s string) part38 { return part38{sel: "t" + s + ":__typename"} }},
	{"enum", func(i int, s string) part38 { return part38{sel: "e" + s + ":e"} }},
	{"interface", func(i int, s string) part38 { return part38{sel: "i" + s + ":i{label ...on T38{x}}"} }},
	{"argument", func(i int, s string) part38 { return part38{sel: "f" + s + ":f(i:" + s + ")"} }},
	{"many arguments", func(i int, s string) part38 { return part38{sel: "f" + s + `:f(i:1,s:"x",b:true,f:1.5,e:ONE,l:[1 2])`} }},
	{"object argument", func(i int, s string) part38 { return part38{sel: "f" + s + `:f(o:{l:[{i:[1]}] x:{s:"x"}})`} }},
	{"own variable with default", func(i int, s string) part38 {
		return part38{sel: "f" + s + ":f(i:$v" + s + ")", def: "$v" + s + ":Int=1 "}
	}},
	{"own variable", func(i int, s string) part38 {
		return part38{sel: "f" + s + ":f(i:$v" + s + ")", def: "$v" + s + ":Int ", vars: `"v` + s + `":1`}
	}},
	{"own variable in a list", func(i int, s string) part38 {
		return part38{sel: "f" + s + ":f(l:$v" + s + ")", def: "$v" + s + ":[Int] ", vars: `"v` + s + `":[1,2]`}
	}},
	{"same variable", func(i int, s string) part38 {
		p := part38{sel: "f" + s + ":f(i:$same)"}
		if i == 0 {
			p.def, p.vars = "$same:Int ", `"same":1`
		}
		return p
	}},
	{"unused variable", func(i int, s string) part38 {
		return part38{sel: "a", def: "$u" + s + ":Int=1 ", vars: `"u` + s + `":1`}
	}},
	{"undeclared variable", func(i int, s string) part38 { return part38{sel: "a", vars: `"w` + s + `":{"x":[1]}`} }},
	{"own fragment", func(i int, s string) part38 {
		return part38{sel: "...F" + s, frag: "fragment F" + s + " on Q38{a" + s + ":a}"}
	}},
	{"own fragment before", func(i int, s string) part38 {
		return part38{sel: "...F" + s, frag: "fragment F" + s + " on Q38{...G" + s + "}fragment G" + s + " on Q38{a}"}
	}},
	{"own fragment of a fragment", func(i int, s string) part38 {
		return part38{sel: "o{...F" + s + "}", frag: "fragment F" + s + " on O38{n o{...G" + s + "}}fragment G" + s + " on O38{s}"}
	}},
	{"same fragment", func(i int, s string) part38 {
		p := part38{sel: "...Same"}
		if i == 0 {
			p.frag = "fragment Same on Q38{a}"
		}
		return p
	}},
	{"unused fragment", func(i int, s string) part38 { return part38{sel: "a", frag: "fragment U" + s + " on Q38{a b}"} }},
	{"fragment that does not match", func(i int, s string) part38 {
		return part38{sel: "a ...N" + s, frag: "fragment N" + s + " on M38{a b{c}}"}
	}},
	{"inline fragment", func(i int, s string) part38 { return part38{sel: "...on Q38{a" + s + ":a}"} }},
	{"inline fragment that does not match", func(i int, s string) part38 { return part38{sel: "a ...on M38{a{b{c}}}"} }},
	{"skip", func(i int, s string) part38 { return part38{sel: "a o@skip(if:true){o{o{n}}}"} }},
	{"include", func(i int, s string) part38 { return part38{sel: "a" + s + ":a@include(if:true)"} }},
	{"directives", func(i int, s string) part38 {
		return part38{sel: "a" + s + `:a@mark(s:"x")@mark@mark@include(if:true)`}
	}},
	{"directive on a fragment", func(i int, s string) part38 { return part38{sel: "...on Q38@mark{a" + s + ":a}"} }},
	{"resolver error", func(i int, s string) part38 { return part38{sel: "e" + s + ":err"} }},
	{"path", func(i int, s string) part38 { return part38{sel: "p" + s + ":path"} }},
	{"file", func(i int, s string) part38 { return part38{sel: "f" + s + `:f(u:"k` + s + `")`} }},
	{"type", func(i int, s string) part38 { return part38{sel: "t" + s + `:__type(name:"O38"){name}`} }},
	{"unknown type", func(i int, s string) part38 { return part38{sel: "t" + s + `:__type(name:"X` + s + `"){name}`} }},
	{"type of a field", func(i int, s string) part38 { return part38{sel: "t" + s + `:__type(name:"Q38"){fields{name}}`} }},
	{"schema", func(i int, s string) part38 { return part38{sel: "t" + s + ":__schema{queryType{name}}"} }},
	{"comment", func(i int, s string) part38 { return part38{sel: "#c " + s + "\r\na"} }},
	{"white space", func(i int, s string) part38 { return part38{sel: " \t\n,a\r\n "} }},
	{"string", func(i int, s string) part38 { return part38{sel: `f(s:"\u00e9\n\"` + s + `")`} }},
	{"block string", func(i int, s string) part38 { return part38{sel: `f(s:"""` + "\n  x\n   y " + s + "\n" + `""")`} }},
	{"long name", func(i int, s string) part38 { return part38{sel: strings.Repeat("n", 200) + s + ":a"} }},
	{"lists", func(i int, s string) part38 { return part38{sel: "L" + s + ":l I" + s + ":is{label}"} }},
}

// whole38 are documents that are one long thing
var whole38 = []struct {
	name string
	make func(n int) string
}{
	{"list literal", func(n int) string { return "{f(l:[" + strings.Repeat("1 ", n) + "])}" }},
	{"list of objects", func(n int) string { return "{f(o:{l:[" + strings.Repeat("{i:[1]}", n) + "]})}" }},
	{"nested object", func(n int) string {
		return "{f(o:" + strings.Repeat("{x:", n/4) + "null" + strings.Repeat("}", n/4) + ")}"
	}},
	{"nested list", func(n int) string { return "{f(l:" + strings.Repeat("[", n/4) + strings.Repeat("]", n/4) + ")}" }},
	{"skipped nested list", func(n int) string {
		return "{a f(l:" + strings.Repeat("[", n/4) + strings.Repeat("]", n/4) + ")@skip(if:true)}"
	}},
	{"long string", func(n int) string { return `{f(s:"` + strings.Repeat("x\\u00e9", n) + `")}` }},
	{"long block string", func(n int) string { return `{f(s:"""` + strings.Repeat("x\n  y\"\" ", n) + `""")}` }},
	{"long comment", func(n int) string { return "{a#" + strings.Repeat("xyz", n) + "\n}" }},
	{"white space", func(n int) string { return "{a" + strings.Repeat(" \n\r\n\t", n) + "}" }},
	{"error at the end", func(n int) string { return "{a" + strings.Repeat(" \n\r\n\t", n) + "$" }},
	{"string without end", func(n int) string { return `{f(s:"` + strings.Repeat("x", n*4) }},
	{"selections without end", func(n int) string { return strings.Repeat("{a", n) }},
	{"too many brackets", func(n int) string { return "{a}" + strings.Repeat("}", n) }},
	{"long number", func(n int) string { return "{f(i:" + strings.Repeat("1", n) + ")}" }},
	{"long float", func(n int) string { return "{f(f:1." + strings.Repeat("1", n) + ")}" }},
	{"name too long", func(n int) string { return "{" + strings.Repeat("a", n*4) + "}" }},
	{"fragment chain", func(n int) string {
		var b strings.Builder
		b.WriteString("{...F0}")
		for i := 0; i < n/4; i++ {
			fmt.Fprintf(&b, "fragment F%d on Q38{a%d:a ...F%d}", i, i, i+1)
		}
		fmt.Fprintf(&b, "fragment F%d on Q38{a}", n/4)
		return b.String()
	}},
	{"nested inline fragments", func(n int) string {
		return "{" + strings.Repeat("...on Q38{", n/4) + "a" + strings.Repeat("}", n/4) + "}"
	}},
	{"nested inline fragments that do not match", func(n int) string {
		return "{a " + strings.Repeat("...on M38{", n/4) + "a" + strings.Repeat("}", n/4) + "}"
	}},
	{"directives on one field", func(n int) string { return "{a" + strings.Repeat("@mark", n) + "}" }},
	{"deep selection", func(n int) string { return "{o" + strings.Repeat("{o", n/4) + "{n}" + strings.Repeat("}", n/4+1) }},
	{"deep skipped selection", func(n int) string {
		return "{a o@skip(if:true)" + strings.Repeat("{o", n/4) + "{n}" + strings.Repeat("}", n/4+1)
	}},
	{"deep variable type", func(n int) string {
		return "query($v:" + strings.Repeat("[", n/4) + "Int" + strings.Repeat("]", n/4) + "){a}"
	}},
	{"unknown arguments", func(n int) string { return "{f(" + strings.Repeat("i:1 ", n) + ")}" }},
	{"long lists", func(n int) string { return "{l os{n i{label}} is{label}}" }},
	{"lists with fragments", func(n int) string {
		return "{os{...F ...on O38{s}} is{...on T38{x} ...on Q38{a}}}fragment F on O38{n o{...G}}fragment G on O38{s}"
	}},
}

func cpu38() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

type case38 struct {
	text, vars, op string
	http           string
	http200        int
}

func c38(t *run.T) {
	r := t.R
	full := 48000
	type spec struct {
		name string
		make func(n int) case38
		list bool // the data is as long as the request
	}
	var sp spec
	if t.Case < len(items38)*2+len(whole38) && t.Case%3 == 0 || t.Case%4 == 0 {
		w := whole38[t.Case/3%len(whole38)]
		if t.Case%4 == 0 {
			w = pick(r, whole38...)
		}
		sp = spec{name: w.name, list: strings.Contains(w.name, "lists"), make: func(n int) case38 { return case38{text: w.make(n)} }}
	} else {
		k := 1 + r.Intn(3)
		kinds := r.Perm(len(items38))[:k]
		if t.Case < 2*len(items38) {
			kinds = []int{t.Case / 2 % len(items38)}
		}
		place := pick(r, "root", "root", "root", "root", "inline fragments", "fragment", "operations before", "operations after", "operations of its own", "batch", "reversed")
		var names []string
		for _, x := range kinds {
			names = append(names, items38[x].name)
			if items38[x].name == "long name" || items38[x].name == "schema" || items38[x].name == "lists" {
				full = 12000
			}
		}
		seed := r.Int63()
		sp = spec{name: strings.Join(names, "+") + " in " + place, make: func(n int) case38 { return doc38(kinds, place, n, rand.New(rand.NewSource(seed))) }}
	}
	opts := yarql.ResolveOptions{GetFormFile: func(k string) (*multipart.FileHeader, error) { return &multipart.FileHeader{}, nil }}
	if chance(r, 5) {
		opts.Tracing = true
	}
	if chance(r, 3) {
		c, cancel := context.WithCancel(context.Background())
		defer cancel()
		opts.Context = c
	}
	useCopy, cached := chance(r, 4), chance(r, 3)
	var times []time.Duration
	var bytes []int
	for step, div := range []int{64, 16, 4, 1} {
		n := full / div
		c := sp.make(n)
		elems := 2
		if sp.list {
			elems = n
		}
		tries := 2
		if step == 3 {
			tries = 4
		}
		var best time.Duration
		size := 0
		for try := 0; try < tries; try++ {
			s, err := schema38(elems)
			if err != nil {
				t.Fail("a valid schema is refused", err.Error())
				return
			}
			if useCopy {
				s = s.Copy()
			}
			if !cached {
				big := 1 << 30
				s.SetCacheRules(&big)
			}
			o := opts
			o.OperatorTarget, o.Variables = c.op, c.vars
			query := []byte(c.text)
			runtime.GC()
			start := cpu38()
			var res []byte
			if c.http != "" {
				res, _ = s.HandleRequest("POST", func(string) string { return "" }, nil, func() []byte { return []byte(c.http) }, "application/json", nil)
			} else {
				s.Resolve(query, o)
				res = s.Result
			}
			d := cpu38() - start
			size = len(c.text) + len(c.vars) + len(c.http) + len(res)
			if try == 0 {
				best = d
				if _, err := q.ParseJSON(string(res)); err != nil {
					t.Fail("a long request gives no valid JSON", fmt.Sprintf("%s, %d: %v\n%s", sp.name, n, err, clip(string(res), 500)))
					return
				}
				t.Eval(1)
				t.Count("bytes served", size)
			}
			if d < best {
				best = d
			}
			if best < time.Duration(size)*100 || best > 20*time.Second {
				break
			}
		}
		times, bytes = append(times, best), append(bytes, size)
		t.Max("picoseconds per byte", int(best.Nanoseconds()*1000/int64(size+20000)))
		if best > time.Duration(size)*500+50*time.Millisecond && step > 0 && best > 9*times[step-1]*time.Duration(max38(1, bytes[step]/(4*max38(1, bytes[step-1])))) {
			t.Fail("the time is out of proportion to the length of the request", fmt.Sprintf("%s: %v of CPU time for %v bytes of request and response", sp.name, times, bytes))
			return
		}
	}
	t.NonTrivial(fmt.Sprint(sp.name, useCopy, cached, opts.Tracing))
	if t.WantSample() {
		t.Sample("%s: %v of CPU time for %v bytes of request and response", sp.name, times, bytes)
	}
	t.Count("kinds of requests measured", 1)
}

func max38(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// doc38 makes a document of n items
func doc38(kinds []int, place string, n int, r *rand.Rand) case38 {
	var sel, frag, def, vars, before, after, own strings.Builder
	var sels []string
	for i := 0; i < n; i++ {
		k := kinds[i%len(kinds)]
		p := items38[k].make(i/len(kinds), strconv.Itoa(i/len(kinds)))
		if len(kinds) > 1 { // names of different kinds must not collide
			p = items38[k].make(i/len(kinds), strconv.Itoa(i))
		}
		sels = append(sels, p.sel)
		frag.WriteString(p.frag)
		def.WriteString(p.def)
		if p.vars != "" {
			if vars.Len() > 0 {
				vars.WriteByte(',')
			}
			vars.WriteString(p.vars)
		}
		switch place {
		case "operations before":
			fmt.Fprintf(&before, "query B%d{a}", i)
		case "operations after":
			fmt.Fprintf(&after, "query C%d($x:Int=1){f(i:$x)}", i)
		case "operations of its own":
			if p.def == "" && p.frag == "" {
				fmt.Fprintf(&own, "query D%d{%s}", i, p.sel)
			}
		}
	}
	if place == "reversed" {
		for i := 0; i < n/2; i++ {
			sels[i], sels[n-1-i] = sels[n-1-i], sels[i]
		}
	}
	for _, x := range sels {
		switch place {
		case "inline fragments":
			sel.WriteString("...on Q38{" + x + "\n}")
		default:
			sel.WriteString(x + "\n")
		}
	}
	body := sel.String()
	d := def.String()
	if d != "" {
		d = "(" + d + ")"
	}
	var c case38
	if vars.Len() > 0 {
		c.vars = "{" + vars.String() + "}"
	}
	switch place {
	case "batch":
		if d == "" && frag.Len() == 0 {
			var b strings.Builder
			b.WriteByte('[')
			for i, x := range sels {
				if i > 0 {
					b.WriteByte(',')
				}
				b.WriteString(`{"query":` + strconv.Quote("{"+x+"\n}") + `}`)
			}
			b.WriteByte(']')
			c.http = b.String()
			if c.vars == "" && !strings.Contains(c.http, `\u00`) && !strings.Contains(c.http, `\x`) {
				return c
			}
			c.http = ""
		}
	case "fragment":
		body = "...Whole"
		frag.WriteString("fragment Whole on Q38{" + sel.String() + "}")
	}
	c.text = before.String() + own.String() + "query Main" + d + "{" + body + "}" + frag.String() + after.String()
	c.op = "Main"
	return c
}
