package checks

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"unsafe"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/q"
	"vh/run"
	"vh/uni"
)

func init() {
	yarql.Implements((*N24)(nil), S24a{})
	yarql.Implements((*N24)(nil), S24b{})
	add(&run.Check{
		ID:     "C24",
		Rule:   "A case is a schema of random struct types: every field is exported or not, plain, renamed, ID, ignored (several spellings of the tag), embedded, with a json tag, of a scalar, pointer, list, object or function type; some objects are static types with exported, unexported, promoted, pointer-receiver and oddly named methods or an interface of them. Each field and each method result holds a marker of its own. Every name anybody could guess for every member (Go name, other casings, with and without Resolve, tags, json tags, promoted names, random) is asked for on every object, with and without a selection: documented names have to give their marker, all others an error and no marker anywhere. Introspection has to list exactly the documented names. The same goes for arguments: every guessable name is given to functions and in input objects, inline and by variable, and what arrives is compared field by field. Non-trivial: distinct sets of members.",
		Assume: []string{"equal names for two members of one object are not used", "through an interface the fields of the object it holds may be asked for too", "the Resolve prefix is kept in the names of struct fields that hold functions"},
		Quick:  6000, Thorough: 120000,
		Run: c24,
	})
}

// Emb24 is embedded
type Emb24 struct {
	EmbInner string
	Hid      string `gq:"-"`
}

// EmbM24 is embedded and has a method
type EmbM24 struct{ EmbMInner string }

// ResolvePromoted is promoted
func (EmbM24) ResolvePromoted() string { return mark24("promoted") }

// Unpromoted is promoted but no field
func (EmbM24) Unpromoted() string { return mark24("unpromoted") }

type emb24 struct{ EmbLow string }

// embedded types that are no structs
type (
	EmbS24 string
	EmbI24 int64
	EmbL24 []string
)

// N24 is an interface
type N24 interface {
	ResolveCommon() string
	Common2() string
	Resolvecommon3() string
}

// S24a has every kind of member
type S24a struct {
	Emb24
	Title string
	EmbM24
	emb24
	EmbS24
	EmbI24
	URLs         string
	ID           string `gq:"ident , id"`
	Ign          string `gq:"-"`
	Ign2         string `gq:" - ,id"`
	JSON         string `json:"jsonName"`
	X            string
	low          []struct{ A string }
	lowF         func() string
	Last         string `gq:"  lastOne"`
	ResolveField string
}

// ResolveFoo is a field
func (S24a) ResolveFoo() string { return mark24("foo") }

// ResolveURL is a field
func (S24a) ResolveURL() string { return mark24("url") }

// ResolveResolveTwice is a field
func (S24a) ResolveResolveTwice() string { return mark24("twice") }

// ResolveY is a field
func (s *S24a) ResolvePtr() string { return mark24("ptr") }

// Resolveyes is none
func (S24a) Resolveyes() string { return mark24("ryes") }

// Resolvelow is none
func (S24a) Resolvelow() string { return mark24("rlow") }

// Resolve is none
func (S24a) Resolve() string { return mark24("resolve") }

// Foo2 is none
func (S24a) Foo2() string { return mark24("foo2") }

// GetResolveFoo3 is none
func (S24a) GetResolveFoo3() string { return mark24("foo3") }

// RESOLVEFoo4 is none
func (S24a) RESOLVEFoo4() string { return mark24("foo4") }

// ResolvCommon is none
func (S24a) ResolvCommon() string { return mark24("resolv") }

func (S24a) resolveFoo5() string { return mark24("foo5") }

// ResolveCommon implements N24
func (S24a) ResolveCommon() string { return mark24("common") }

// Common2 implements N24
func (S24a) Common2() string { return mark24("common2") }

// Resolvecommon3 implements N24
func (S24a) Resolvecommon3() string { return mark24("common3") }

// S24b implements N24
type S24b struct {
	B    string
	back func() string
}

// ResolveCommon implements N24
func (S24b) ResolveCommon() string { return mark24("common") }

// Common2 implements N24
func (S24b) Common2() string { return mark24("common2") }

// Resolvecommon3 implements N24
func (S24b) Resolvecommon3() string { return mark24("common3") }

func mark24(s string) string { return "<<" + s + ">>" }

var exp24a = map[string]string{
	"title": "Title", "URLs": "URLs", "ident": "ID", "JSON": "JSON", "x": "X", "lastOne": "Last", "resolveField": "ResolveField",
	"foo": mark24("foo"), "URL": mark24("url"), "resolveTwice": mark24("twice"), "common": mark24("common"), "promoted": mark24("promoted"),
}

var guess24a = []string{"Title", "TITLE", "urls", "uRLs", "ID", "id", "iD", "Ident", "ident ", "ign", "Ign", "IGN", "ign2", "Ign2", "json", "jSON", "jsonName", "X",
	"low", "Low", "lowF", "LowF", "last", "Last", "lastone", "field", "Field", "ResolveField", "emb24", "Emb24", "EmbInner", "embInner", "hid", "Hid", "embM24", "EmbM24", "EmbMInner", "embMInner", "embLow", "EmbLow", "embS24", "EmbS24", "embI24", "EmbI24",
	"Foo", "FOO", "resolveFoo", "ResolveFoo", "url", "uRL", "resolveURL", "ResolveURL", "ResolveTwice", "twice", "Twice", "resolveResolveTwice", "ptr", "Ptr", "resolvePtr", "ResolvePtr",
	"Resolvelow", "resolvelow", "yes", "Yes", "resolveyes", "Resolveyes", "resolve", "Resolve", "foo2", "Foo2", "getResolveFoo3", "GetResolveFoo3", "foo3", "Foo3", "foo4", "RESOLVEFoo4", "rESOLVEFoo4", "Foo4", "resolvCommon", "ResolvCommon", "foo5", "Foo5", "resolveFoo5",
	"Common", "common2", "Common2", "common3", "Common3", "resolvecommon3", "Resolvecommon3", "unpromoted", "Unpromoted", "Promoted", "promotedx", "_", "__x", "__type", "__schema"}

// m24 is a field of a random struct
type m24 struct {
	go_     string
	ql      string // "" = not exposed
	plainUn bool   // unexported and plain: a known finding
	t       reflect.Type
	marks   []string // markers in its value
	obj     *o24     // for objects
	guesses []string
	idx     int
	id      bool
}

// o24 is a random struct type
type o24 struct {
	t    reflect.Type
	ms   []*m24
	name string // static types
}

func (o *o24) exposed() map[string]*m24 {
	r := map[string]*m24{}
	for _, m := range o.ms {
		if m.ql != "" {
			r[m.ql] = m
		}
	}
	return r
}

var words24 = []string{"Alpha", "Beta", "URL", "ID", "Id", "Key", "X", "Y", "AName", "FOO", "Foo", "Foo_bar", "F1", "F_x", "ResolveIt", "Resolve", "Items", "Self", "Type", "Name", "On", "Query", "Null", "True", "HTTPServer", "Xml", "A1b", "Ab", "AB", "TypeName", "Len", "Get", "Deep", "Value9", "LongerNameOfAField"}

func case24(s string) []string {
	l := []string{s, strings.ToLower(s), strings.ToUpper(s), strings.ToUpper(s[:1]) + s[1:], strings.ToLower(s[:1]) + s[1:]}
	return l
}

func guesses24(words ...string) []string {
	var l []string
	for _, w := range words {
		w = strings.TrimSpace(w)
		if w == "" || w == "-" {
			continue
		}
		l = append(l, case24(w)...)
		if strings.HasPrefix(strings.ToLower(w), "resolve") && len(w) > 7 {
			l = append(l, case24(w[7:])...)
		} else {
			l = append(l, "resolve"+w, "Resolve"+w)
		}
	}
	return l
}

type g24 struct {
	r    *rand.Rand
	n    int
	arg  bool
	pool []string
}

func (g *g24) mark() string {
	g.n++
	return fmt.Sprintf("<<m%d>>", g.n)
}

// typ makes a type
func (g *g24) typ(depth int) (reflect.Type, *o24) {
	r := g.r
	if depth > 0 && chance(r, 4) {
		o := g.object(depth-1, 1+r.Intn(6))
		switch r.Intn(4) {
		case 0:
			return reflect.PtrTo(o.t), o
		case 1:
			return reflect.SliceOf(o.t), o
		}
		return o.t, o
	}
	if depth > 0 && !g.arg && chance(r, 6) {
		o := static24()
		if chance(r, 3) {
			return reflect.TypeOf((*N24)(nil)).Elem(), iface24()
		}
		if chance(r, 2) {
			return reflect.SliceOf(o.t), o
		}
		return o.t, o
	}
	ts := []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf(int64(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(int(0)), reflect.TypeOf(float64(0))}
	t := ts[r.Intn(len(ts))]
	switch r.Intn(6) {
	case 0:
		t = reflect.PtrTo(t)
	case 1:
		t = reflect.SliceOf(t)
	}
	if !g.arg && chance(r, 6) {
		return reflect.FuncOf(nil, []reflect.Type{t}, false), nil
	}
	return t, nil
}

var pkg24 = "vh/checks"

func (g *g24) object(depth, n int) *o24 {
	r := g.r
	o := &o24{}
	var fs []reflect.StructField
	used := map[string]bool{}
	ql := map[string]bool{}
	for len(fs) < n {
		w := words24[r.Intn(len(words24))]
		if chance(r, 3) {
			w += words24[r.Intn(len(words24))]
		}
		if chance(r, 12) && !used["Emb24"] {
			// embedded structs
			t := pick(r, reflect.TypeOf(Emb24{}), reflect.TypeOf(EmbS24("")), reflect.TypeOf(EmbI24(0)), reflect.TypeOf(EmbL24(nil)), reflect.TypeOf(EmbS24("")))
			used["Emb24"] = true
			m := &m24{go_: t.Name(), t: t, idx: len(fs), guesses: guesses24(t.Name(), "EmbInner", "Hid", "Emb")}
			sf := reflect.StructField{Name: t.Name(), Type: t, Anonymous: true}
			if chance(r, 3) {
				sf.Tag = `gq:"embedded"`
				m.guesses = append(m.guesses, "embedded")
			}
			o.ms = append(o.ms, m)
			fs = append(fs, sf)
			continue
		}
		unexported := chance(r, 4)
		sf := reflect.StructField{}
		if unexported {
			w = strings.ToLower(w[:1]) + w[1:]
			sf.PkgPath = pkg24
		}
		if used[w] {
			continue
		}
		t, sub := g.typ(depth)
		m := &m24{go_: w, t: t, obj: sub, idx: len(fs)}
		sf.Name, sf.Type = w, t
		name := core.QLName(w)
		words := []string{w}
		ignored := false
		idOK := sub == nil && (t.Kind() == reflect.String || t.Kind() == reflect.Int64 || t.Kind() == reflect.Uint32 || t.Kind() == reflect.Int)
		switch r.Intn(9) {
		case 0:
			tag := pick(r, "-", "-", " - ", "-,id", "- ,ID", " -")
			sf.Tag = reflect.StructTag(`gq:"` + tag + `"`)
			if chance(r, 3) {
				sf.Tag = reflect.StructTag(`json:"pub` + itoa(len(fs)) + `" gq:"` + tag + `"`)
				words = append(words, "pub"+itoa(len(fs)))
			}
			ignored = true
		case 1, 2:
			tn := pick(r, "renamed", "Re_named", "URL", "x", "X", "alpha", "Beta", "re2", "ALL_CAPS", "name", "resolveIt", "hidden", "a_b__c")
			if chance(r, 2) {
				tn += itoa(r.Intn(9))
			}
			name = tn
			words = append(words, tn)
			if idOK && chance(r, 3) {
				tn += pick(r, ",id", ",ID", " , id ", ",Id")
				m.id = true
			}
			sf.Tag = reflect.StructTag(`gq:"` + pick(r, "", " ", "") + tn + `"`)
		case 3:
			if idOK {
				sf.Tag = reflect.StructTag(`gq:"` + pick(r, ",id", " ,ID", ", id") + `"`)
				words = append(words, "id")
				m.id = true
			}
		case 4:
			sf.Tag = reflect.StructTag(`json:"js` + itoa(len(fs)) + `,omitempty" graphql:"gr` + itoa(len(fs)) + `"`)
			words = append(words, "js"+itoa(len(fs)), "gr"+itoa(len(fs)))
		case 5:
			sf.Tag = `gq:""`
		}
		m.guesses = guesses24(words...)
		switch {
		case ignored:
		case unexported:
			if isPlain24(t) && !g.arg {
				m.plainUn = true
			}
		default:
			if ql[name] {
				continue
			}
			m.ql = name
		}
		if m.plainUn {
			// it may turn up under its documented name: do not let it hide another
			if ql[name] {
				continue
			}
			m.go_ = name
			if sf.Tag.Get("gq") == "" {
				m.go_ = core.QLName(w)
			}
		}
		ql[name] = true
		used[w] = true
		o.ms = append(o.ms, m)
		fs = append(fs, sf)
	}
	o.t = reflect.StructOf(fs)
	return o
}

func isPlain24(t reflect.Type) bool {
	for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice || t.Kind() == reflect.Array {
		t = t.Elem()
	}
	switch t.Kind() {
	case reflect.Struct, reflect.Interface, reflect.Func, reflect.Map, reflect.Chan:
		return false
	}
	return true
}

func static24() *o24 {
	o := &o24{t: reflect.TypeOf(S24a{}), name: "S24a"}
	for n := range exp24a {
		o.ms = append(o.ms, &m24{ql: n, go_: n, t: reflect.TypeOf(""), marks: []string{marker24a(n)}})
	}
	o.ms = append(o.ms, &m24{guesses: guess24a})
	return o
}

func marker24a(n string) string {
	if strings.HasPrefix(exp24a[n], "<<") {
		return exp24a[n]
	}
	return mark24("a" + exp24a[n])
}

func iface24() *o24 {
	o := &o24{t: reflect.TypeOf((*N24)(nil)).Elem(), name: "N24"}
	o.ms = append(o.ms, &m24{ql: "common", go_: "common", t: reflect.TypeOf(""), marks: []string{mark24("common")}})
	g := []string{"Common", "common2", "Common2", "common3", "Common3", "resolvecommon3", "Resolvecommon3", "resolveCommon", "ResolveCommon", "ign", "low", "foo2", "back", "Back", "b2"}
	o.ms = append(o.ms, &m24{guesses: g})
	return o
}

func val24a() S24a {
	m := func(s string) string { return mark24("a" + s) }
	s := S24a{Title: m("Title"), URLs: m("URLs"), ID: m("ID"), Ign: m("Ign"), Ign2: m("Ign2"), JSON: m("JSON"), X: m("X"), Last: m("Last"), ResolveField: m("ResolveField")}
	s.EmbInner, s.Hid, s.EmbMInner, s.EmbLow = m("EmbInner"), m("Hid"), m("EmbMInner"), m("EmbLow")
	s.EmbS24, s.EmbI24 = EmbS24(m("EmbS24")), 700000001
	s.low = []struct{ A string }{{m("low")}}
	s.lowF = func() string { return m("lowF") }
	return s
}

// fill puts markers into v and returns them
func (g *g24) fill(v reflect.Value, sub *o24) []string {
	t := v.Type()
	switch t.Kind() {
	case reflect.String:
		m := g.mark()
		v.SetString(m)
		return []string{m}
	case reflect.Int, reflect.Int64:
		g.n++
		v.SetInt(700000000 + int64(g.n))
		return []string{fmt.Sprint(v.Int())}
	case reflect.Uint32:
		g.n++
		v.SetUint(700000000 + uint64(g.n))
		return []string{fmt.Sprint(v.Uint())}
	case reflect.Float64:
		g.n++
		v.SetFloat(float64(700000000 + g.n))
		return []string{fmt.Sprint(700000000 + g.n)}
	case reflect.Ptr:
		v.Set(reflect.New(t.Elem()))
		return g.fill(v.Elem(), sub)
	case reflect.Slice:
		s := reflect.MakeSlice(t, 1, 1)
		l := g.fill(s.Index(0), sub)
		v.Set(s)
		return l
	case reflect.Func:
		x := reflect.New(t.Out(0)).Elem()
		l := g.fill(x, sub)
		v.Set(reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value { return []reflect.Value{x} }))
		return l
	case reflect.Interface:
		if chance(g.r, 2) {
			v.Set(reflect.ValueOf(S24b{B: mark24("b"), back: func() string { return mark24("back") }}))
		} else {
			v.Set(reflect.ValueOf(val24a()))
		}
		return nil
	case reflect.Struct:
		if t == reflect.TypeOf(S24a{}) {
			v.Set(reflect.ValueOf(val24a()))
			return nil
		}
		if t == reflect.TypeOf(Emb24{}) {
			e := Emb24{g.mark(), g.mark()}
			v.Set(reflect.ValueOf(e))
			return []string{e.EmbInner, e.Hid}
		}
		var all []string
		for _, m := range sub.ms {
			l := g.fill(open24(v.Field(m.idx)), m.obj)
			m.marks = append(m.marks, l...)
			all = append(all, l...)
		}
		return all
	}
	return nil
}

// open24 makes an unexported field writable
func open24(v reflect.Value) reflect.Value {
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

var static24t = []reflect.Type{reflect.TypeOf(S24a{}), reflect.TypeOf((*N24)(nil)).Elem()}

func hasMark(raw string) bool {
	return strings.Contains(raw, "<<") || strings.Contains(raw, "\\u003c") || strings.Contains(raw, "7000")
}

func c24(t *run.T) {
	r := t.R
	if chance(r, 3) {
		c24args(t)
		return
	}
	g := &g24{r: r}
	o := g.object(3, 3+r.Intn(10))
	v := reflect.New(o.t).Elem()
	g.fill(v, o)
	s := yarql.NewSchema()
	if err := s.Parse(v.Interface(), uni.M0{}, nil); err != nil {
		t.Fail("a valid schema is refused: "+err.Error(), fmt.Sprint(o.t))
		return
	}
	if chance(r, 4) {
		s = s.Copy()
	}
	t.NonTrivial(run.HashOf(o.t))
	t.Max("fields of an object", len(o.ms))
	c := &core.Case{R: r, W: &uni.World{}}
	c24object(t, c, s, o, nil, "")
	if t.WantSample() {
		t.Sample("%v", o.t)
	}
}

// wrap24 makes a query for sel at path
func wrap24(path []string, sel string) string {
	s := "{" + sel + "}"
	for i := len(path) - 1; i >= 0; i-- {
		s = "{" + path[i] + s + "}"
	}
	return s
}

func c24object(t *run.T, c *core.Case, s *yarql.Schema, o *o24, path []string, where string) {
	r := t.R
	ex := o.exposed()
	// what is exposed can be read
	for n, m := range ex {
		if m.obj != nil {
			c24object(t, c, s, m.obj, append(path[:len(path):len(path)], n), where+"."+n)
			continue
		}
		res := c.Run(s, wrap24(path, pick(r, n, "a:"+n, n+" a:__typename")), optsT{})
		t.Eval(1)
		t.Count("exposed fields read", 1)
		if res.Bad != "" || len(res.GoErr) != 0 {
			t.Fail(fmt.Sprintf("the field %s of %s cannot be read", n, where), fmt.Sprintf("%v\n%s %q %s", o.t, res.Raw, res.GoErr, res.Bad))
			continue
		}
		for _, mk := range m.marks {
			if !strings.Contains(unesc24(res.Raw), mk) {
				t.Fail(fmt.Sprintf("the field %s of %s does not give the value of its Go field or method", n, where), fmt.Sprintf("%v\nexpected %s in %s", o.t, mk, res.Raw))
			}
		}
	}
	// everything else cannot
	known := map[string]bool{}
	for _, m := range o.ms {
		if m.plainUn {
			known[m.go_] = true
		}
	}
	tried := map[string]bool{}
	for _, m := range o.ms {
		l := m.guesses
		if m.ql != "" {
			l = append(l, guesses24(m.ql)...)
		}
		l = append(l, core.FieldNames[r.Intn(len(core.FieldNames))])
		if m.ql != "" && chance(r, 30) {
			// names that share the hash by which the library looks fields up
			twins := twins24(m.ql, 3)
			l = append(l, twins...)
			t.Count("names with the hash of a field", len(twins))
		}
		for _, n := range l {
			if !validName24(n) || tried[n] || ex[n] != nil || strings.HasPrefix(n, "__") && (len(path) == 0 || n == "__typename") {
				continue
			}
			if _, impl := exp24a[n]; o.name == "N24" && (impl || n == "b") {
				continue // a field of the object the interface holds
			}
			tried[n] = true
			c24probe(t, c, s, o, path, n, known[n], where)
		}
	}
	// introspection lists exactly the exposed fields
	res := c.Run(s, wrap24(path, "__typename"), optsT{})
	if res.Bad != "" || len(res.GoErr) != 0 {
		t.Fail("__typename cannot be read", fmt.Sprint(res.Raw, res.GoErr))
		return
	}
	j := res.Data
	for _, p := range path {
		j = j.Get(p)
		if j != nil && j.K == 'a' {
			j = j.A[0]
		}
	}
	tn := o.name
	if tn == "" || tn == "S24a" {
		tn = j.Get("__typename").S
	}
	res = c.Run(s, fmt.Sprintf(`{__type(name:%q){name fields(includeDeprecated:true){name}}}`, tn), optsT{})
	if res.Bad != "" || len(res.GoErr) != 0 || res.Data.Get("__type") == nil || res.Data.Get("__type").Get("fields") == nil {
		t.Fail("the type "+tn+" is not listed by introspection", fmt.Sprint(res.Raw, res.GoErr))
		return
	}
	listed := map[string]bool{}
	for _, f := range res.Data.Get("__type").Get("fields").A {
		n := f.Get("name").S
		if listed[n] {
			t.Fail(fmt.Sprintf("introspection lists %s twice for %s", n, where), res.Raw)
		}
		listed[n] = true
		if ex[n] == nil {
			if known[n] {
				t.Known("C24-unexported-plain", "a schema exposes unexported struct fields of plain types")
				continue
			}
			if strings.HasPrefix(n, "__") && len(path) == 0 {
				continue
			}
			t.Fail(fmt.Sprintf("introspection lists %s, which is no field of %s", n, where), fmt.Sprintf("%v\n%s", o.t, res.Raw))
		}
	}
	for n := range ex {
		if !listed[n] {
			t.Fail(fmt.Sprintf("introspection does not list the field %s of %s", n, where), fmt.Sprintf("%v\n%s", o.t, res.Raw))
		}
	}
	t.Count("objects compared with introspection", 1)
}

func unesc24(s string) string {
	return strings.NewReplacer("\\u003c", "<", "\\u003e", ">", "\\u003C", "<", "\\u003E", ">").Replace(s)
}

var twinTable24 = sync.OnceValue(func() map[uint32]string {
	m := map[uint32]string{}
	for i := 0; i < 53*63*63; i++ {
		n := string([]byte{chars24[i%53], chars24[i/53%63], chars24[i/53/63]})
		h := fnv.New32()
		h.Write([]byte(n))
		m[h.Sum32()] = n
	}
	return m
})

const chars24 = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"

// twins24 finds other names with the FNV-1 hash of n: it walks the hash back
// over all endings and looks for a beginning that leads there
func twins24(n string, max int) (l []string) {
	const prime = 16777619
	inv := uint32(1)
	for i := 0; i < 5; i++ {
		inv *= 2 - prime*inv
	}
	h := fnv.New32()
	h.Write([]byte(n))
	end := h.Sum32()
	m := twinTable24()
	for i := 0; i < 63*63*63 && len(l) < max; i++ {
		a, b, c := chars24[i%63], chars24[i/63%63], chars24[i/63/63]
		x := (end ^ uint32(c)) * inv
		x = (x ^ uint32(b)) * inv
		x = (x ^ uint32(a)) * inv
		if p, ok := m[x]; ok && p+string([]byte{a, b, c}) != n {
			l = append(l, p+string([]byte{a, b, c}))
		}
	}
	return l
}

func validName24(n string) bool {
	for i, c := range n {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return n != ""
}

func c24probe(t *run.T, c *core.Case, s *yarql.Schema, o *o24, path []string, n string, known bool, where string) {
	r := t.R
	forms := []string{n, n + "{__typename}"}
	if chance(r, 3) {
		forms = append(forms, pick(r, "x:"+n, n+"(a:1)", n+"@include(if:true)", "...on "+"__x"+"{a} "+n, n+"{"+n+"}"))
	}
	for _, f := range forms {
		text := wrap24(path, f)
		res := c.Run(s, text, optsT{})
		t.Eval(1)
		t.Count("unexposed names asked for", 1)
		if known && res.Bad == "" && len(res.GoErr) == 0 {
			t.Known("C24-unexported-plain", "a schema exposes unexported struct fields of plain types")
			continue
		}
		if known && len(res.GoErr) > 0 && hasMark(res.Raw) {
			continue
		}
		what := ""
		switch {
		case res.Bad != "":
			what = res.Bad
		case len(res.GoErr) == 0:
			what = "no error is reported"
		case hasMark(res.Raw):
			what = "the response holds a value"
		}
		if what != "" {
			t.Fail(fmt.Sprintf("%s, which is no field of %s, was asked for: %s", n, where, what), fmt.Sprintf("%v\n%s\n%s %q", o.t, text, res.Raw, res.GoErr))
		}
	}
}

// c24args does the same for arguments
func c24args(t *run.T) {
	r := t.R
	g := &g24{r: r, arg: true}
	n := 1 + r.Intn(3)
	var fs []reflect.StructField
	type fn struct {
		o   *o24
		got []reflect.Value
	}
	fns := make([]*fn, n)
	for i := range fns {
		fns[i] = &fn{o: g.object(2, 2+r.Intn(7))}
		fs = append(fs, reflect.StructField{Name: "F" + string(rune('a'+i)), Type: reflect.FuncOf([]reflect.Type{fns[i].o.t}, []reflect.Type{reflect.TypeOf("")}, false)})
	}
	st := reflect.StructOf(fs)
	v := reflect.New(st).Elem()
	for i := range fns {
		f := fns[i]
		v.Field(i).Set(reflect.MakeFunc(st.Field(i).Type, func(in []reflect.Value) []reflect.Value {
			f.got = append(f.got, in[0])
			return []reflect.Value{reflect.ValueOf("ok")}
		}))
	}
	s := yarql.NewSchema()
	if err := s.Parse(v.Interface(), uni.M0{}, nil); err != nil {
		t.Fail("a valid schema is refused: "+err.Error(), fmt.Sprint(st))
		return
	}
	if chance(r, 4) {
		s = s.Copy()
	}
	t.NonTrivial(run.HashOf(st))
	c := &core.Case{R: r, W: &uni.World{}}
	// what introspection says
	res := c.Run(s, "{__schema{queryType{fields{name args{name type{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name}}}}}}}} types{name kind inputFields{name type{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name}}}}}}}}}", optsT{})
	if res.Bad != "" || len(res.GoErr) > 0 {
		t.Fail("introspection fails", fmt.Sprint(res.Raw, res.GoErr))
		return
	}
	sc := res.Data.Get("__schema")
	types := map[string]*q.J{}
	for _, x := range sc.Get("types").A {
		types[x.Get("name").S] = x.Get("inputFields")
	}
	base := func(j *q.J) (kind, name string) {
		for j.Get("ofType") != nil && j.Get("ofType").K == 'o' {
			j = j.Get("ofType")
		}
		return j.Get("kind").S, j.Get("name").S
	}
	names := map[*o24]string{}
	var walk func(o *o24, l *q.J, where string) bool
	walk = func(o *o24, l *q.J, where string) bool {
		ex := o.exposed()
		if l == nil || l.K != 'a' {
			t.Fail("introspection does not list the input "+where, res.Raw)
			return false
		}
		seen := map[string]bool{}
		for _, a := range l.A {
			n := a.Get("name").S
			m := ex[n]
			if m == nil || seen[n] {
				t.Fail(fmt.Sprintf("introspection lists %s for the input %s, which is not exposed or listed already", n, where), fmt.Sprintf("%v\n%s", o.t, res.Raw))
				return false
			}
			seen[n] = true
			if m.obj != nil {
				k, tn := base(a.Get("type"))
				if k != "INPUT_OBJECT" {
					t.Fail("the input "+where+"."+n+" is no input object", fmt.Sprintf("%v\n%s", o.t, res.Raw))
					return false
				}
				names[m.obj] = tn
				if !walk(m.obj, types[tn], where+"."+n) {
					return false
				}
			}
		}
		for n := range ex {
			if !seen[n] {
				t.Fail(fmt.Sprintf("introspection does not list %s for the input %s", n, where), fmt.Sprintf("%v\n%s", o.t, res.Raw))
				return false
			}
		}
		return true
	}
	t.Count("inputs compared with introspection", 1)
	for i, f := range fns {
		fname := core.QLName("F" + string(rune('a'+i)))
		var args *q.J
		for _, x := range sc.Get("queryType").Get("fields").A {
			if x.Get("name").S == fname {
				args = x.Get("args")
			}
		}
		if !walk(f.o, args, fname) {
			return
		}
		for k := 0; k < 2; k++ {
			// all exposed arguments
			g2 := &g24{r: r, arg: true}
			text, want := g2.lit(f.o, nil, "")
			c24call(t, c, s, f.o, fname, &f.got, optsT{}, "{"+fname+args24(text)+"}", want, "")
		}
		c24argProbes(t, c, s, f.o, f.o, fname, &f.got, names, nil)
	}
}

func args24(obj string) string {
	in := strings.TrimSuffix(strings.TrimPrefix(obj, "{"), "}")
	if strings.TrimSpace(in) == "" {
		return ""
	}
	return "(" + in + ")"
}

// lit writes an object with all its exposed fields and the Go value it stands
// for; at the object whose path is at, extra is put in
func (g *g24) lit(o *o24, at *o24, extra string) (string, reflect.Value) {
	v := reflect.New(o.t).Elem()
	var parts []string
	for _, m := range o.ms {
		if m.ql == "" {
			continue
		}
		l := g.litOf(open24(v.Field(m.idx)), m.obj, at, extra)
		if m.id && l[0] != '"' {
			l = `"` + l + `"`
		}
		parts = append(parts, m.ql+":"+l)
	}
	g.r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	if o == at {
		i := g.r.Intn(len(parts) + 1)
		parts = append(parts[:i:i], append([]string{extra}, parts[i:]...)...)
	}
	return "{" + strings.Join(parts, ",") + "}", v
}

func (g *g24) litOf(v reflect.Value, sub, at *o24, extra string) string {
	switch v.Kind() {
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		return g.litOf(v.Elem(), sub, at, extra)
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 1, 1))
		return "[" + g.litOf(v.Index(0), sub, at, extra) + "]"
	case reflect.Struct:
		if sub == nil {
			return `{embInner:"<<e>>"}`
		}
		s, x := g.lit(sub, at, extra)
		v.Set(x)
		return s
	case reflect.String:
		l := g.fill(v, nil)
		return `"` + l[0] + `"`
	}
	return g.fill(v, nil)[0]
}

// c24call runs a query and checks that f got want, or if why is set that it was not called
func c24call(t *run.T, c *core.Case, s *yarql.Schema, o *o24, fname string, got *[]reflect.Value, opt optsT, text string, want reflect.Value, why string) {
	*got = nil
	res := c.Run(s, text, opt)
	t.Eval(1)
	detail := fmt.Sprintf("%v\n%s\nvariables: %s\n%s %q", o.t, text, opt.Variables, res.Raw, res.GoErr)
	if res.Bad != "" {
		t.Fail(res.Bad, detail)
		return
	}
	if why != "" {
		t.Count("unexposed arguments given", 1)
		if len(res.GoErr) == 0 {
			t.Fail(why+" was given and no error is reported", detail)
		} else if len(*got) > 0 {
			t.Fail(why+" was given and the resolver was called", detail)
		}
		return
	}
	if len(res.GoErr) > 0 || len(*got) != 1 {
		t.Fail("the documented argument names are refused", detail)
		return
	}
	t.Count("argument structs compared", 1)
	if d := diff24((*got)[0], want); d != "" {
		t.Fail("an argument struct does not hold what the query gives: "+d, detail)
	}
}

func diff24(a, b reflect.Value) string {
	x, y := reflect.New(a.Type()).Elem(), reflect.New(b.Type()).Elem()
	x.Set(a)
	y.Set(b)
	if !reflect.DeepEqual(x.Interface(), y.Interface()) {
		return fmt.Sprintf("%+v instead of %+v", x.Interface(), y.Interface())
	}
	return ""
}

// c24argProbes gives every other name to the input object at of root
func c24argProbes(t *run.T, c *core.Case, s *yarql.Schema, root, at *o24, fname string, got *[]reflect.Value, names map[*o24]string, up []string) {
	r := t.R
	ex := at.exposed()
	tried := map[string]bool{}
	for _, m := range at.ms {
		l := m.guesses
		if m.ql != "" {
			l = append(l, guesses24(m.ql)...)
		}
		for _, n := range l {
			if !validName24(n) || tried[n] || ex[n] != nil {
				continue
			}
			tried[n] = true
			g := &g24{r: r, arg: true}
			val := g.litOf(reflect.New(m.t).Elem(), m.obj, nil, "")
			if chance(r, 4) {
				val = "null"
			}
			text, _ := g.lit(root, at, n+":"+val)
			why := fmt.Sprintf("%s, which is no argument of %s%s,", n, fname, strings.Join(up, "."))
			c24call(t, c, s, root, fname, got, optsT{}, "{"+fname+args24(text)+"}", reflect.Value{}, why)
		}
	}
	for _, m := range ex {
		if m.obj == nil {
			continue
		}
		c24argProbes(t, c, s, root, m.obj, fname, got, names, append(up[:len(up):len(up)], "."+m.ql))
		if at != root {
			continue
		}
		// the whole object by variable
		g := &g24{r: r, arg: true}
		v := reflect.New(m.t).Elem()
		json := jsonKeys24(g.litOf(v, m.obj, nil, ""))
		ty := m.t
		ref := names[m.obj]
		if ref == "" {
			continue
		}
		q1, q2 := "", ""
		if ty.Kind() == reflect.Slice {
			q1, q2 = "[", "]"
		}
		text := fmt.Sprintf("query($v:%s%s%s){%s(%s:$v)}", q1, ref, q2, fname, m.ql)
		want := reflect.New(root.t).Elem()
		want.Field(m.idx).Set(v)
		c24call(t, c, s, root, fname, got, optsT{Variables: `{"v":` + json + `}`}, text, want, "")
		sub := m.obj
		subEx := sub.exposed()
		for _, x := range sub.ms {
			for _, n := range x.guesses {
				if !validName24(n) || subEx[n] != nil || chance(r, 2) {
					continue
				}
				val := g.litOf(reflect.New(x.t).Elem(), x.obj, nil, "")
				json := jsonKeys24(g.litOf(reflect.New(m.t).Elem(), m.obj, m.obj, n+":"+val))
				*got = nil
				res := c.Run(s, text, optsT{Variables: `{"v":` + json + `}`})
				t.Eval(1)
				t.Count("unexposed names given by variable", 1)
				why := fmt.Sprintf("%s, which is no field of %s.%s, was given by variable", n, fname, m.ql)
				detail := fmt.Sprintf("%v\n%s\nvariables: %s\n%s %q", root.t, text, json, res.Raw, res.GoErr)
				if res.Bad != "" {
					t.Fail(res.Bad, detail)
				} else if len(res.GoErr) == 0 && len(*got) == 0 {
					t.Fail(why+" and the request gave neither a call nor an error", detail)
				} else if len(*got) > 0 {
					if hid := hidden24((*got)[0], root); hid != "" {
						t.Fail(why+" and reached the Go field "+hid, detail)
					} else if len(res.GoErr) == 0 {
						t.Fail(why+" and no error is reported", detail)
					}
				}
			}
		}
	}
}

// hidden24 finds a set field that is not exposed
func hidden24(v reflect.Value, o *o24) string {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return ""
		}
		return hidden24(v.Elem(), o)
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if s := hidden24(v.Index(i), o); s != "" {
				return s
			}
		}
		return ""
	case reflect.Struct:
		for _, m := range o.ms {
			f := v.Field(m.idx)
			if m.ql == "" {
				if !f.IsZero() {
					return v.Type().Field(m.idx).Name
				}
			} else if m.obj != nil {
				if s := hidden24(f, m.obj); s != "" {
					return s
				}
			}
		}
	}
	return ""
}

// jsonKeys24 makes JSON of a literal made by lit
func jsonKeys24(lit string) string {
	var b strings.Builder
	str := false
	for i := 0; i < len(lit); i++ {
		ch := lit[i]
		if ch == '"' {
			str = !str
		}
		if !str && (ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch == '_') {
			j := i
			for j < len(lit) && lit[j] != ':' && lit[j] != ',' && lit[j] != '}' && lit[j] != ']' {
				j++
			}
			w := lit[i:j]
			if j < len(lit) && lit[j] == ':' {
				w = `"` + w + `"`
			}
			b.WriteString(w)
			i = j - 1
			continue
		}
		b.WriteByte(ch)
	}
	return b.String()
}
