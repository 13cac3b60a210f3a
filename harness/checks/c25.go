package checks

import (
	"fmt"
	"mime/multipart"
	"reflect"
	"strings"
	"time"
	"unsafe"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/q"
	"vh/run"
	"vh/uni"
)

func init() {
	yarql.Implements((*I25)(nil), G25{})
	yarql.Implements((*I25)(nil), H25{})
	yarql.Implements((*I25bad)(nil), J25{})
	add(&run.Check{
		ID:     "C25",
		Rule:   "A case is a random tree of Go types (structs, functions with arguments, pointers, lists, arrays, enums, interfaces, named and anonymous types) into which up to two faults are put at random depth and position, of about 90 kinds: kinds that cannot be served in outputs and inputs, wrong function signatures of fields and methods, bad tags, ID on other types, type names used twice, interfaces without implementations or with unusable ones, wrong roots; or faults at places that are not exposed, where they have to do no harm. Parse must not panic, must return an error exactly when a fault is exposed, and a schema it refused must answer no request, also when Parse is called again, and must leave nothing behind for a later usable Parse. Accepted schemas are introspected and a query over all fields made from that introspection is resolved (plus a random part of it). Some cases register enums and directives with and without faults instead. Non-trivial: distinct combination of fault and position.",
		Assume: []string{"an ID tag on lists, enums and times is unspecified", "Implements panics on misuse, as documented by its messages", "two anonymous root types are refused"},
		Quick:  12000, Thorough: 240000,
		Run: c25,
	})
}

// I25 is usable
type I25 interface{ ResolveName() string }

// G25 implements I25
type G25 struct{ A int }

// ResolveName implements I25
func (G25) ResolveName() string { return "g" }

// H25 implements I25
type H25 struct {
	Next *H25
	All  []I25
	skip map[string]chan int
	Ign  map[int]int `gq:"-"`
}

// ResolveName implements I25
func (H25) ResolveName() string { return "h" }

// Other is not exposed
func (H25) Other(a map[string]int, b ...chan int) (chan int, map[int]int) { return nil, nil }

// ResolvePtr is not exposed
func (*H25) ResolvePtr(a map[string]int) chan int { return nil }

// Resolve is not exposed
func (H25) Resolve() chan int { return nil }

// Resolvelow is not exposed
func (H25) Resolvelow() chan int { return nil }

// I25none has no implementations
type I25none interface{ ResolveName() string }

// I25bad has an unusable implementation
type I25bad interface{ ResolveBad() string }

// J25 cannot be used
type J25 struct{ M map[string]int }

// ResolveBad implements I25bad
func (J25) ResolveBad() string { return "" }

// Func25 is a named function type
type Func25 func() string

type (
	b25a struct{}
	b25b struct{}
	b25c struct{}
	b25d struct{}
	b25e struct{}
	b25f struct{}
	b25g struct{}
	b25h struct{}
	b25i struct{}
	b25j struct{}
	b25k struct{}
	b25l struct{}
	b25m struct{}
	b25n struct{}
	b25o struct{}
	b25p struct{}
	b25q struct{}
	b25r struct{}
	b25s struct{}
	b25t struct{}
)

func (b25a) ResolveX()                                    {}
func (b25b) ResolveX() (string, int)                      { return "", 0 }
func (b25c) ResolveX() error                              { return nil }
func (b25d) ResolveX() (string, error, error)             { return "", nil, nil }
func (b25e) ResolveX(a ...struct{ A int }) string         { return "" }
func (b25f) ResolveX(a int) string                        { return "" }
func (b25g) ResolveX(a *struct{ A int }) string           { return "" }
func (b25h) ResolveX(c yarql.Ctx) string                  { return "" }
func (b25i) ResolveX() map[string]int                     { return nil }
func (b25j) ResolveX() func() string                      { return nil }
func (b25k) ResolveX() (chan int, error)                  { return nil, nil }
func (b25l) ResolveX(a struct{ M map[string]int }) string { return "" }
func (b25m) ResolveX() interface{}                        { return nil }
func (b25n) ResolveX() yarql.AttrIsID                     { return 0 }
func (b25o) ResolveX() (bool, yarql.AttrIsID)             { return false, 0 }
func (b25p) ResolveX() (G25, yarql.AttrIsID, error)       { return G25{}, 0, nil }
func (b25q) ResolveX(a struct {
	A int `gq:"a b"`
}) string {
	return ""
}
func (b25r) ResolveX(c *yarql.Ctx, a struct{ A struct{ B []func() } }) string { return "" }
func (b25s) ResolveX(c **yarql.Ctx) string                                    { return "" }
func (b25t) ResolveX(a struct{ A int }, b []struct{ B int }) (int, error)     { return 0, nil }

var badStatic25 = []reflect.Type{
	reflect.TypeOf(b25a{}), reflect.TypeOf(b25b{}), reflect.TypeOf(b25c{}), reflect.TypeOf(b25d{}), reflect.TypeOf(b25e{}), reflect.TypeOf(b25f{}),
	reflect.TypeOf(b25g{}), reflect.TypeOf(b25h{}), reflect.TypeOf(b25i{}), reflect.TypeOf(b25j{}), reflect.TypeOf(b25k{}), reflect.TypeOf(b25l{}),
	reflect.TypeOf(b25m{}), reflect.TypeOf(b25n{}), reflect.TypeOf(b25o{}), reflect.TypeOf(b25p{}), reflect.TypeOf(b25q{}), reflect.TypeOf(b25r{}),
	reflect.TypeOf(b25s{}), reflect.TypeOf(b25t{}),
}

var badLeaf25 = []reflect.Type{
	reflect.TypeOf(map[string]int{}), reflect.TypeOf(map[string]struct{ A int }{}), reflect.TypeOf(make(chan int)), reflect.TypeOf(make(<-chan string)),
	reflect.TypeOf(complex64(0)), reflect.TypeOf(complex128(0)), reflect.TypeOf(uintptr(0)), reflect.TypeOf(unsafe.Pointer(nil)),
	reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf((*interface{ ResolveName() string })(nil)).Elem(),
	reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((*fmt.Stringer)(nil)).Elem(), reflect.TypeOf((*I25none)(nil)).Elem(),
}

var badOut25 = []reflect.Type{
	reflect.TypeOf((*I25bad)(nil)).Elem(), reflect.TypeOf(J25{}),
}

var badIn25 = []reflect.Type{
	reflect.TypeOf(func() {}), reflect.TypeOf(Func25(nil)), reflect.TypeOf((*I25)(nil)).Elem(), reflect.TypeOf(multipart.Form{}),
}

// types with equal names
func clash25() (a, b, e reflect.Type, ev interface{}) {
	func() {
		type Clash struct{ A int }
		a = reflect.TypeOf(Clash{})
	}()
	func() {
		type Clash struct{ A int }
		b = reflect.TypeOf(Clash{})
	}()
	func() {
		type Clash uint8
		e = reflect.TypeOf(Clash(0))
		ev = map[string]Clash{"CA": 0, "CB": 1}
	}()
	return
}

var clashA, clashB, clashE, clashEV = clash25()

// g25 makes type trees
type g25 struct {
	t      *run.T
	faults int      // still to be put in
	put    []string // what was put in
	idx    int
	out    map[reflect.Type]bool // clash types in use
	in     map[reflect.Type]bool
	n      int
}

func (g *g25) fault(p int) bool {
	if g.faults > 0 && chance(g.t.R, p) {
		g.faults--
		return true
	}
	return false
}

func (g *g25) note(what string, t interface{}) {
	g.put = append(g.put, fmt.Sprintf("%s %v", what, t))
}

func (g *g25) leaf(in bool) reflect.Type {
	r := g.t.R
	switch r.Intn(12) {
	case 0:
		return reflect.TypeOf(time.Time{})
	case 1:
		if in {
			return reflect.TypeOf(&multipart.FileHeader{})
		}
		return reflect.TypeOf((*I25)(nil)).Elem()
	case 2:
		return reflect.TypeOf(uni.EColor(0))
	case 3:
		if !in {
			return pick(r, reflect.TypeOf(G25{}), reflect.TypeOf(H25{}))
		}
		return reflect.TypeOf(in25{})
	case 4:
		c := pick(r, clashA, clashB, clashE)
		if in {
			g.in[c] = true
		} else {
			g.out[c] = true
		}
		return c
	}
	return pick(r, reflect.TypeOf(""), reflect.TypeOf(true), reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
		reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)))
}

// in25 is a recursive input
type in25 struct {
	A    int
	Next *in25
	L    []in25
	M    map[string]int `gq:"-"`
	m    chan int
}

// outT makes an output type
func (g *g25) outT(depth int) reflect.Type {
	r := g.t.R
	if g.fault(5 + depth*3) {
		t := pick(r, pick(r, badLeaf25...), pick(r, badStatic25...), pick(r, badOut25...))
		if chance(r, 6) {
			// functions are fields only
			t = pick(r, reflect.PtrTo(reflect.TypeOf(func() string { return "" })), reflect.TypeOf([]func() string{}), reflect.TypeOf([2]Func25{}))
		}
		g.note("output", t)
		return t
	}
	if depth > 0 {
		switch r.Intn(7) {
		case 0:
			return reflect.PtrTo(g.outT(depth - 1))
		case 1:
			return reflect.SliceOf(g.outT(depth - 1))
		case 2:
			return reflect.ArrayOf(r.Intn(4), g.outT(depth-1))
		case 3, 4:
			return g.structT(depth-1, false, r.Intn(4))
		}
	}
	return g.leaf(false)
}

func (g *g25) inT(depth int) reflect.Type {
	r := g.t.R
	if g.fault(4 + depth*3) {
		t := pick(r, pick(r, badLeaf25...), pick(r, badIn25...))
		g.note("input", t)
		return t
	}
	if depth > 0 {
		switch r.Intn(7) {
		case 0:
			return reflect.PtrTo(g.inT(depth - 1))
		case 1:
			return reflect.SliceOf(g.inT(depth - 1))
		case 2:
			return reflect.PtrTo(reflect.SliceOf(g.inT(depth - 1)))
		case 3, 4:
			return g.structT(depth-1, true, r.Intn(4))
		}
	}
	return g.leaf(true)
}

// hiddenT is a type that may not be served but is put where it is not exposed
func (g *g25) hiddenT() reflect.Type {
	r := g.t.R
	switch r.Intn(3) {
	case 0:
		return pick(r, reflect.TypeOf(map[string]int{}), reflect.TypeOf(make(chan int)), reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf((*error)(nil)).Elem())
	case 1:
		return reflect.SliceOf(pick(r, badStatic25...))
	}
	return pick(r, reflect.TypeOf(func(int, ...string) {}), reflect.TypeOf(J25{}), reflect.TypeOf([]func(){}), reflect.TypeOf(struct{ A map[int]int }{}))
}

func (g *g25) structT(depth int, in bool, n int) reflect.Type {
	r := g.t.R
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		g.n++
		f := reflect.StructField{Name: "F" + string(rune('a'+g.n%26)) + itoa(g.n)}
		if chance(r, 6) {
			// not exposed
			f.Type = g.hiddenT()
			switch r.Intn(3) {
			case 0:
				f.Tag = reflect.StructTag(`gq:"` + pick(r, "-", " - ", "-,id", "-,what") + `"`)
			case 1:
				f.Name, f.PkgPath = "f"+f.Name[1:], "vh/checks"
				if chance(r, 3) {
					f.Type = pick(r, reflect.TypeOf(complex64(0)), reflect.TypeOf([]complex128{}), reflect.TypeOf(uintptr(0)), reflect.TypeOf(new(unsafe.Pointer)))
				}
			default:
				f.Name, f.Type, f.Anonymous = "Emb25", reflect.TypeOf(Emb25{}), true
				for _, x := range fs {
					if x.Anonymous {
						f.Name = ""
					}
				}
				if f.Name == "" {
					continue
				}
			}
			fs = append(fs, f)
			continue
		}
		if g.fault(8) {
			bad := pick(r, "9a", "a b", "a-b", "é", "a.b", "a!", "na\u00efve", "a,what", ",what", ",id,what", ",", ",,id", "$a", "a(b)", "x{", "0")
			f.Tag = reflect.StructTag(`gq:"` + bad + `"`)
			f.Type = g.leafPlain()
			g.note("tag", bad)
			fs = append(fs, f)
			continue
		}
		if g.fault(8) {
			f.Tag = `gq:",id"`
			ts := []reflect.Type{reflect.TypeOf(true), reflect.TypeOf(float32(0)), reflect.TypeOf(1.5)}
			if !in {
				ts = append(ts, reflect.TypeOf(G25{}), reflect.TypeOf((*I25)(nil)).Elem(), reflect.TypeOf(struct{ A int }{}), reflect.TypeOf(func() bool { return true }), reflect.TypeOf(func() (*float64, error) { return nil, nil }))
			}
			f.Type = pick(r, ts...)
			if f.Type.Kind() != reflect.Func && chance(r, 3) {
				f.Type = reflect.PtrTo(f.Type)
			}
			g.note("ID", f.Type)
			fs = append(fs, f)
			continue
		}
		switch {
		case in:
			f.Type = g.inT(depth)
		case chance(r, 3):
			f.Type = g.funcT(depth)
		default:
			f.Type = g.outT(depth)
		}
		if chance(r, 5) {
			f.Tag = reflect.StructTag(`gq:"ren` + itoa(g.n) + `"`)
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

// Emb25 is embedded
type Emb25 struct {
	M map[string]chan int
	N int
}

func (g *g25) leafPlain() reflect.Type {
	return pick(g.t.R, reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf([]string{}), reflect.TypeOf(&struct{ A int }{}))
}

func (g *g25) funcT(depth int) reflect.Type {
	r := g.t.R
	str := reflect.TypeOf("")
	errT := reflect.TypeOf((*error)(nil)).Elem()
	id := reflect.TypeOf(yarql.AttrIsID(0))
	var ins []reflect.Type
	for i := r.Intn(3); i > 0; i-- {
		if chance(r, 3) {
			ins = append(ins, reflect.TypeOf(&yarql.Ctx{}))
			continue
		}
		ins = append(ins, g.structT(depth, true, 1+r.Intn(3)))
	}
	if g.fault(5) {
		bad := pick(r, reflect.TypeOf(0), str, reflect.TypeOf(&struct{ A int }{}), reflect.TypeOf([]struct{ A int }{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf(yarql.Ctx{}),
			reflect.TypeOf(func() {}), reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf(new(*yarql.Ctx)), reflect.TypeOf(make(chan int)), reflect.TypeOf([1]struct{ A int }{}))
		at := r.Intn(len(ins) + 1)
		ins = append(ins[:at:at], append([]reflect.Type{bad}, ins[at:]...)...)
		g.note("argument", bad)
	}
	if g.fault(9) {
		ins = append(ins, reflect.SliceOf(reflect.StructOf([]reflect.StructField{{Name: "A", Type: str}})))
		g.note("variadic", ins)
		return reflect.FuncOf(ins, []reflect.Type{str}, true)
	}
	if g.fault(5) {
		outs := pick(r, []reflect.Type{}, []reflect.Type{errT}, []reflect.Type{id}, []reflect.Type{errT, id}, []reflect.Type{str, str}, []reflect.Type{str, reflect.TypeOf(0), errT},
			[]reflect.Type{str, errT, errT}, []reflect.Type{errT, str, errT}, []reflect.Type{reflect.TypeOf(true), id}, []reflect.Type{reflect.TypeOf(1.5), errT, id}, []reflect.Type{reflect.TypeOf(G25{}), id})
		g.note("results", outs)
		return reflect.FuncOf(ins, outs, false)
	}
	if chance(r, 8) {
		return reflect.FuncOf(ins, []reflect.Type{pick(r, str, reflect.TypeOf(uint16(0)), reflect.TypeOf(new(int))), id}, false)
	}
	outs := []reflect.Type{g.outT(depth)}
	if chance(r, 3) {
		outs = append(outs, errT)
	}
	if chance(r, 8) {
		outs = append([]reflect.Type{errT}, outs[0])
	}
	return reflect.FuncOf(ins, outs, false)
}

// clashes tells if types of equal names are in use
func (g *g25) clashes() bool {
	o, i := g.out, g.in
	if o[clashA] && o[clashB] || i[clashA] && i[clashB] {
		return true
	}
	if o[clashE] || i[clashE] {
		return o[clashA] || o[clashB] || i[clashA] || i[clashB]
	}
	return false
}

func c25(t *run.T) {
	r := t.R
	switch {
	case chance(r, 8):
		c25enum(t)
		return
	case chance(r, 8):
		c25directive(t)
		return
	case chance(r, 12):
		c25root(t)
		return
	}
	g := &g25{t: t, out: map[reflect.Type]bool{}, in: map[reflect.Type]bool{}}
	if !chance(r, 3) {
		g.faults = 1 + r.Intn(2)
	}
	var q1 reflect.Type
	var m1 interface{} = uni.M1{}
	q1 = g.structT(1+r.Intn(4), false, 1+r.Intn(6))
	qv := interface{}(reflect.New(q1).Elem().Interface())
	swap := chance(r, 4)
	if swap {
		qv, m1 = m1, qv
	}
	newSchema := func() *yarql.Schema {
		s := yarql.NewSchema()
		for _, e := range []interface{}{uni.EnumMaps[0], clashEV} {
			if _, err := s.RegisterEnum(e); err != nil {
				t.Fail("a valid enum is refused", fmt.Sprint(err))
			}
		}
		return s
	}
	s := newSchema()
	err, pan := parse25(s, qv, m1)
	t.Eval(1)
	detail := fmt.Sprintf("query root %T\nmutation root %T\nfaults: %q\nerror: %v", qv, m1, g.put, err)
	if pan != "" {
		t.Fail("Parse panics: "+first25(pan), detail+"\n"+pan)
		return
	}
	bad := len(g.put) > 0 || g.clashes()
	if len(g.put) == 0 && g.clashes() {
		g.put = append(g.put, "equal type names")
	}
	t.NonTrivial(run.HashOf(g.put, swap, len(fmt.Sprint(q1))/200))
	if bad {
		for _, p := range g.put {
			t.Count("exposed fault: "+strings.SplitN(p, " ", 2)[0], 1)
		}
		if err == nil {
			t.Fail("an unusable schema is accepted: "+strings.Join(g.put, ", "), detail)
			return
		}
		t.Count("schemas refused", 1)
		c25refused(t, s, newSchema, qv, m1, detail)
		return
	}
	if err != nil {
		t.Fail("a usable schema is refused: "+err.Error(), detail)
		return
	}
	t.Count("schemas accepted", 1)
	c25accepted(t, s, detail)
	if t.WantSample() {
		t.Sample("%T accepted", qv)
	}
}

func first25(s string) string { return strings.SplitN(s, "\n", 2)[0] }

func parse25(s *yarql.Schema, a, b interface{}) (err error, pan string) {
	defer func() {
		if p := recover(); p != nil {
			pan = fmt.Sprint(p)
		}
	}()
	return s.Parse(a, b, nil), ""
}

// c25refused checks what a schema does that was refused
func c25refused(t *run.T, s *yarql.Schema, newSchema func() *yarql.Schema, a, b interface{}, detail string) {
	r := t.R
	c := &core.Case{R: r, W: &uni.World{}}
	resolve := func(when string) {
		var errs []error
		pan := ""
		func() {
			defer func() {
				if p := recover(); p != nil {
					pan = fmt.Sprint(p)
				}
			}()
			errs = s.Resolve([]byte("{__typename}"), optsT{})
		}()
		switch {
		case pan != "":
			t.Fail("a refused schema panics when used"+when+": "+pan, detail)
		case len(errs) == 0:
			t.Fail("a refused schema answers requests"+when, detail+"\n"+string(s.Result))
		}
	}
	if chance(r, 4) {
		resolve("")
	}
	if chance(r, 2) {
		err, pan := parse25(s, a, b)
		t.Count("refused schemas parsed again", 1)
		if pan != "" {
			t.Fail("Parse panics when called again: "+pan, detail)
			return
		}
		if err == nil {
			t.Fail("Parse accepts the unusable schema when called again", detail)
			return
		}
		if chance(r, 4) {
			resolve(" after a second Parse")
		}
	}
	if chance(r, 2) {
		// a usable schema after it
		ok := struct {
			G G25
			H *H25
			I I25
			F func(in25) struct{ A int }
			C uni.EColor
		}{}
		err, pan := parse25(s, ok, uni.M1{})
		t.Count("usable Parse after a refused one", 1)
		if err != nil || pan != "" {
			t.Fail("a usable schema is refused after an unusable one", fmt.Sprintf("%s\n%v %s", detail, err, pan))
			return
		}
		f := newSchema()
		if err, pan := parse25(f, ok, uni.M1{}); err != nil || pan != "" {
			t.Fail("a usable schema is refused", fmt.Sprintf("%v %s", err, pan))
			return
		}
		x, y := c.Run(s, introspect25, optsT{}), c.Run(f, introspect25, optsT{})
		if x.Bad != "" || x.Raw != y.Raw {
			t.Fail("a refused schema leaves its types behind", fmt.Sprintf("%s\nafter: %s %s\nalone: %s", detail, x.Bad, x.Raw, y.Raw))
		}
	}
}

const typeRef25 = "kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name}}}}}}}}}}}}"
const introspect25 = "{__schema{queryType{name} mutationType{name} directives{name args{name type{" + typeRef25 + "}}} types{kind name description fields(includeDeprecated:true){name args{name type{" + typeRef25 + "}} type{" + typeRef25 + "}} inputFields{name type{" + typeRef25 + "}} enumValues(includeDeprecated:true){name} interfaces{name} possibleTypes{name}}}}"

// c25accepted introspects a schema and asks for all it has
func c25accepted(t *run.T, s *yarql.Schema, detail string) {
	r := t.R
	c := &core.Case{R: r, W: &uni.World{}}
	if chance(r, 5) {
		s = s.Copy()
	}
	res := c.Run(s, introspect25, optsT{})
	if res.Bad != "" || len(res.GoErr) > 0 {
		t.Fail("an accepted schema cannot be introspected: "+res.Bad, fmt.Sprintf("%s\n%s %q", detail, res.Raw, res.GoErr))
		return
	}
	w := &walk25{t: t, types: map[string]*q.J{}}
	sc := res.Data.Get("__schema")
	for _, x := range sc.Get("types").A {
		w.types[x.Get("name").S] = x
	}
	for pass := 0; pass < 2; pass++ {
		for _, root := range []string{"queryType", "mutationType"} {
			w.part = pass == 1
			w.bytes = 0
			sel := w.sel(sc.Get(root).Get("name").S, 3+r.Intn(3))
			kind := "query"
			if root == "mutationType" {
				kind = "mutation"
			}
			text := kind + sel
			o := optsT{GetFormFile: func(string) (*multipart.FileHeader, error) { return &multipart.FileHeader{Filename: "x"}, nil }}
			res := c.Run(s, text, o)
			t.Eval(1)
			t.Count("fields asked for", w.fields)
			w.fields = 0
			if res.Bad != "" {
				t.Fail("a query over the fields introspection lists: "+first25(res.Bad), fmt.Sprintf("%s\n%s\n%s", detail, text, res.Raw))
				return
			}
			if len(res.GoErr) > 0 {
				// the functions of this schema are nil and there are no failing resolvers
				t.Fail("a query made from introspection is refused: "+res.GoErr[0], fmt.Sprintf("%s\n%s\n%s %q", detail, text, res.Raw, res.GoErr))
				return
			}
		}
	}
}

type walk25 struct {
	t      *run.T
	types  map[string]*q.J
	part   bool
	fields int
	bytes  int
}

func base25(j *q.J) (kind, name string) {
	for j.Get("ofType") != nil && j.Get("ofType").K == 'o' {
		j = j.Get("ofType")
	}
	return j.Get("kind").S, j.Get("name").S
}

func (w *walk25) sel(name string, depth int) string {
	r := w.t.R
	var b strings.Builder
	b.WriteString("{__typename")
	ty := w.types[name]
	if ty != nil && ty.Get("fields") != nil {
		for _, f := range ty.Get("fields").A {
			n := f.Get("name").S
			if strings.HasPrefix(n, "__") || w.part && chance(r, 2) {
				continue
			}
			k, tn := base25(f.Get("type"))
			sub := ""
			if k == "OBJECT" || k == "INTERFACE" {
				if depth == 0 || w.bytes > 20000 {
					continue
				}
				sub = w.sel(tn, depth-1)
			}
			w.fields++
			b.WriteString(" " + n)
			if args := f.Get("args").A; len(args) > 0 {
				var l []string
				for _, a := range args {
					if a.Get("type").Get("kind").S != "NON_NULL" && chance(r, 2) {
						continue
					}
					l = append(l, a.Get("name").S+":"+w.val(a.Get("type"), 3))
				}
				if len(l) > 0 {
					b.WriteString("(" + strings.Join(l, " ") + ")")
				}
			}
			b.WriteString(sub)
		}
	}
	b.WriteString("}")
	w.bytes += b.Len()
	return b.String()
}

func (w *walk25) val(ty *q.J, depth int) string {
	r := w.t.R
	switch ty.Get("kind").S {
	case "NON_NULL":
		return w.val(ty.Get("ofType"), depth)
	case "LIST":
		if depth == 0 || chance(r, 3) {
			return pick(r, "[]", "null")
		}
		return "[" + w.val(ty.Get("ofType"), depth-1) + "]"
	case "ENUM":
		return w.types[ty.Get("name").S].Get("enumValues").A[0].Get("name").S
	case "INPUT_OBJECT":
		var l []string
		for _, f := range w.types[ty.Get("name").S].Get("inputFields").A {
			if f.Get("type").Get("kind").S != "NON_NULL" && (depth <= 0 || chance(r, 2)) {
				continue
			}
			if depth < -6 {
				continue // required objects in required objects
			}
			l = append(l, f.Get("name").S+":"+w.val(f.Get("type"), depth-1))
		}
		return "{" + strings.Join(l, ",") + "}"
	}
	switch ty.Get("name").S {
	case "Boolean":
		return "true"
	case "Int":
		return "1"
	case "Float":
		return "1.5"
	case "ID":
		return `"1"`
	case "Time":
		return `"2021-02-03T04:05:06.000Z"`
	}
	return `"x"`
}

// c25root tries wrong roots
func c25root(t *run.T) {
	r := t.R
	type Named struct{ A int }
	bad := pick[interface{}](r, nil, 1, "x", true, 1.5, []int{}, []Named{}, &Named{}, map[string]int{}, func() {}, make(chan int), [1]Named{}, new(int), (*Named)(nil), (*I25)(nil), complex(1, 2), uni.EColor(1), time.Time{}, fmt.Errorf("x"), uintptr(1))
	good := interface{}(Named{1})
	a, b := bad, good
	switch r.Intn(3) {
	case 0:
		a, b = good, bad
	case 1:
		if chance(r, 3) {
			a, b = good, good
		}
	}
	s := yarql.NewSchema()
	err, pan := parse25(s, a, b)
	t.Eval(1)
	t.Count("wrong roots", 1)
	t.NonTrivial(run.HashOf("root", fmt.Sprintf("%T %T", a, b)))
	detail := fmt.Sprintf("Parse(%T, %T)", a, b)
	if pan != "" {
		t.Fail("Parse panics on "+detail+": "+pan, detail)
	} else if err == nil {
		t.Fail("Parse accepts "+detail, detail)
	} else {
		c25refused(t, s, func() *yarql.Schema {
			s := yarql.NewSchema()
			return s
		}, a, b, detail)
	}
}

type (
	en25a int
	en25b string
	en25c uint16
	en25f float64
	en25t bool
	en25s struct{ A int }
)

// c25enum registers enums
func c25enum(t *run.T) {
	r := t.R
	type bad struct {
		what string
		v    interface{}
		none bool // no error, but nothing added either
	}
	var nilMap map[string]en25a
	cases := []bad{
		{"nil", nil, false}, {"no map", 5, false}, {"slice", []en25a{1}, false}, {"nil map", nilMap, false},
		{"int keys", map[int]en25a{1: 1}, false}, {"struct values", map[string]en25s{"A": {}}, false}, {"float values", map[string]en25f{"A": 1}, false},
		{"bool values", map[string]en25t{"A": true}, false}, {"builtin values", map[string]int{"A": 1}, false}, {"builtin string values", map[string]string{"A": "a"}, false},
		{"pointer values", map[string]*en25a{"A": nil}, false}, {"interface values", map[string]interface{}{"A": 1}, false}, {"func", func() {}, false},
		{"struct", en25s{}, false}, {"pointer to map", &map[string]en25a{"A": 1}, false}, {"map of maps", map[string]map[string]en25a{"A": nil}, false},
		{"byte slice keys", map[[1]byte]en25a{{1}: 1}, false},
		{"empty map", map[string]en25a{}, true},
	}
	for _, k := range []string{"", " ", "a b", "9", "9a", "a-b", "é", "aé", "a.b", "A!", "$A", "A\n", "a,b", "{", "true", "false", "null"} {
		cases = append(cases, bad{fmt.Sprintf("key %q", k), map[string]en25a{k: 1, "OK": 2}, false})
		cases = append(cases, bad{fmt.Sprintf("key %q", k), map[string]en25b{k: "x"}, false})
	}
	s := yarql.NewSchema()
	reg := func(v interface{}) (added bool, err error, pan string) {
		defer func() {
			if p := recover(); p != nil {
				pan = fmt.Sprint(p)
			}
		}()
		added, err = s.RegisterEnum(v)
		return
	}
	good := []interface{}{map[string]en25a{"A": 1, "B": 2}, map[string]en25b{"x": "y"}, map[string]en25c{"C": 1}}
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		added, err, pan := reg(good[i])
		if !added || err != nil || pan != "" {
			t.Fail("a usable enum is refused", fmt.Sprintf("%#v %v %s", good[i], err, pan))
			return
		}
	}
	for i := 0; i < 4; i++ {
		b := cases[r.Intn(len(cases))]
		if chance(r, 5) {
			b = bad{"registered already", good[r.Intn(n)], false}
		}
		added, err, pan := reg(b.v)
		t.Eval(1)
		t.Count("unusable enums", 1)
		t.NonTrivial(run.HashOf("enum", b.what, fmt.Sprintf("%T", b.v)))
		detail := fmt.Sprintf("RegisterEnum(%#v) = %v, %v %s", b.v, added, err, pan)
		if pan != "" {
			t.Fail("RegisterEnum panics: "+b.what, detail)
		} else if added || err == nil && !b.none {
			t.Fail("an unusable enum is accepted: "+b.what, detail)
		}
	}
	root := struct {
		A func(struct{ A en25a }) en25a
		B func(struct{ A *en25b }) []en25b
		C en25c
	}{}
	if err, pan := parse25(s, root, uni.M1{}); err != nil || pan != "" {
		t.Fail("a usable schema is refused after refused enums", fmt.Sprintf("%v %s", err, pan))
		return
	}
	c := &core.Case{R: r, W: &uni.World{}}
	res := c.Run(s, `{a:__type(name:"en25a"){enumValues{name}} b:__type(name:"en25b"){enumValues{name}} c:__type(name:"en25c"){enumValues{name}}}`, optsT{})
	want := []string{"A,B", "x", "C"}
	for i, k := range []string{"a", "b", "c"} {
		got := "none"
		if j := res.Data.Get(k); j != nil && j.K == 'o' {
			var l []string
			for _, e := range j.Get("enumValues").A {
				l = append(l, e.Get("name").S)
			}
			got = strings.Join(l, ",")
		}
		w := want[i]
		if i >= n {
			w = "none"
		}
		if got != w {
			t.Fail("refused enums change the registered ones", fmt.Sprintf("%s: %s instead of %s\n%s", k, got, w, res.Raw))
		}
	}
	if added, err, pan := reg(map[string]en25c{"LATE": 1}); added || err == nil || pan != "" {
		t.Fail("an enum can be registered after Parse", fmt.Sprint(added, err, pan))
	}
	c25accepted(t, s, "enums")
}

// c25directive registers directives
func c25directive(t *run.T) {
	r := t.R
	all := []yarql.DirectiveLocation{yarql.DirectiveLocationField, yarql.DirectiveLocationFragment, yarql.DirectiveLocationFragmentInline}
	ok := func(struct{ A int }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }
	type D = yarql.Directive
	var nilF func() yarql.DirectiveModifier
	type bad struct {
		what  string
		d     D
		parse bool // found by Parse at the latest
	}
	f := all[:1]
	cases := []bad{
		{"no name", D{Where: f, Method: ok}, false}, {"name with space", D{Name: "a b", Where: f, Method: ok}, false}, {"name with dash", D{Name: "a-b", Where: f, Method: ok}, false},
		{"name é", D{Name: "é", Where: f, Method: ok}, false}, {"name with @", D{Name: "@a", Where: f, Method: ok}, false}, {"no locations", D{Name: "x", Method: ok}, false},
		{"no method", D{Name: "x", Where: f}, false}, {"nil method", D{Name: "x", Where: f, Method: nilF}, false}, {"method no function", D{Name: "x", Where: f, Method: 5}, false},
		{"no result", D{Name: "x", Where: f, Method: func() {}}, false}, {"two results", D{Name: "x", Where: f, Method: func() (a yarql.DirectiveModifier, e error) { return }}, false},
		{"other result", D{Name: "x", Where: f, Method: func() bool { return true }}, false}, {"pointer result", D{Name: "x", Where: f, Method: func() *yarql.DirectiveModifier { return nil }}, false},
		{"variadic", D{Name: "x", Where: f, Method: func(a ...struct{ A int }) (m yarql.DirectiveModifier) { return }}, true},
		{"int argument", D{Name: "x", Where: f, Method: func(a int) (m yarql.DirectiveModifier) { return }}, true},
		{"pointer argument", D{Name: "x", Where: f, Method: func(a *struct{ A int }) (m yarql.DirectiveModifier) { return }}, true},
		{"map in argument", D{Name: "x", Where: f, Method: func(a struct{ A map[string]int }) (m yarql.DirectiveModifier) { return }}, true},
		{"chan deep in argument", D{Name: "x", Where: all[1:2], Method: func(a struct{ A []struct{ B *chan int } }) (m yarql.DirectiveModifier) { return }}, true},
		{"bad tag in argument", D{Name: "x", Where: all[2:], Method: func(a struct {
			A int `gq:"a b"`
		}) (m yarql.DirectiveModifier) {
			return
		}}, true},
		{"Ctx by value", D{Name: "x", Where: f, Method: func(a yarql.Ctx) (m yarql.DirectiveModifier) { return }}, true},
	}
	for _, n := range []string{"skip", "include", "mine"} {
		for i := range all {
			cases = append(cases, bad{"name " + n + " taken", D{Name: n, Where: all[i : i+1], Method: ok}, false})
		}
		cases = append(cases, bad{"name " + n + " taken", D{Name: n, Where: all, Method: ok}, false})
	}
	// taken at one of several locations only
	cases = append(cases, bad{"name part taken at the second location", D{Name: "part", Where: []yarql.DirectiveLocation{all[1], all[0]}, Method: ok}, false},
		bad{"name part taken at the third location", D{Name: "part", Where: []yarql.DirectiveLocation{all[2], all[1], all[0]}, Method: ok}, false})
	s := yarql.NewSchema()
	reg := func(d D) (err error, pan string) {
		defer func() {
			if p := recover(); p != nil {
				pan = fmt.Sprint(p)
			}
		}()
		return s.RegisterDirective(d), ""
	}
	for _, d := range []D{{Name: "mine", Where: all, Method: ok}, {Name: "part", Where: all[:1], Method: ok}, {Name: "free", Where: all[1:], Method: func() (m yarql.DirectiveModifier) { return }}} {
		if err, pan := reg(d); err != nil || pan != "" {
			t.Fail("a usable directive is refused", fmt.Sprintf("%v %v %s", d.Name, err, pan))
			return
		}
	}
	late := false
	what := ""
	for i := r.Intn(4); i >= 0; i-- {
		b := cases[r.Intn(len(cases))]
		if late && b.d.Name == "x" {
			continue
		}
		err, pan := reg(b.d)
		t.Eval(1)
		t.Count("unusable directives", 1)
		t.NonTrivial(run.HashOf("directive", b.what))
		detail := fmt.Sprintf("%s: %v %s", b.what, err, pan)
		if pan != "" {
			t.Fail("RegisterDirective panics: "+b.what, detail)
			return
		}
		if err == nil {
			if !b.parse {
				t.Fail("an unusable directive is accepted: "+b.what, detail)
				return
			}
			late, what = true, b.what
		}
	}
	root := struct{ G G25 }{}
	err, pan := parse25(s, root, uni.M1{})
	if pan != "" {
		t.Fail("Parse panics on an unusable directive: "+what, pan)
		return
	}
	if late {
		if err == nil {
			t.Fail("an unusable directive is accepted: "+what, what)
			return
		}
		c25directiveAgain(t, s, root, what)
		return
	}
	if err != nil {
		t.Fail("a usable schema is refused after refused directives", err.Error())
		return
	}
	c := &core.Case{R: r, W: &uni.World{}}
	// the refused ones are not there, the others are where they were put
	for _, x := range []struct {
		d  string
		at [3]bool
	}{{"mine(a:1)", [3]bool{true, true, true}}, {"part(a:1)", [3]bool{true, false, false}}, {"free", [3]bool{false, true, true}}, {"x", [3]bool{}}, {"skip(if:false)", [3]bool{true, true, true}}} {
		for i, text := range []string{"{g@" + x.d + "{a}}", "{g{...F@" + x.d + "}} fragment F on G25{a}", "{g{...on G25@" + x.d + "{a}}}"} {
			res := c.Run(s, text, optsT{})
			t.Eval(1)
			if res.Bad != "" || (len(res.GoErr) == 0) != x.at[i] {
				t.Fail(fmt.Sprintf("after refused directives @%s is known: %v, expected: %v", x.d, len(res.GoErr) == 0, x.at[i]), fmt.Sprintf("%s\n%s %q", text, res.Raw, res.GoErr))
			}
		}
	}
	if err, pan := reg(D{Name: "late", Where: all, Method: ok}); err == nil || pan != "" {
		t.Fail("a directive can be registered after Parse", pan)
	}
	c25accepted(t, s, "directives")
}

func c25directiveAgain(t *run.T, s *yarql.Schema, root interface{}, what string) {
	for i := 0; i < 2; i++ {
		if err, pan := parse25(s, root, uni.M1{}); err == nil || pan != "" {
			t.Fail("Parse accepts the unusable directive when called again: "+what, pan)
		}
	}
}
