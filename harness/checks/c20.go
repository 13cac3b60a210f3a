package checks

import (
	"fmt"
	"math/rand"
	"mime/multipart"
	"reflect"
	"sort"
	"strings"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/q"
	"vh/run"
	"vh/uni"
)

func init() {
	add(&run.Check{
		ID:     "C20",
		Rule:   "Random schemas (anonymous and named objects, functions and methods with random arguments, interfaces, enums, random directives). (1) The complete introspection result is compared, as sets, with the description derived from the Go types by the reference model: types, kinds, fields, arguments, wrappers, enum values, interfaces, possible types, directives with locations and arguments; names of anonymous types have to be one to one with the Go types. (2) Random selections on __schema and __type (any nesting, aliases, fragments, variables), on the schema and on copies, interleaved with other requests, have to be projections of that result. (3) Queries are built from the introspection result alone: every field with arguments as literals or variables of the described types has to resolve without error, and the response has to be of the described types, non-null included. (4) Fields, arguments, enum values, directives and directive locations that are not listed have to be rejected. Non-trivial: distinct described type, selection or query.",
		Assume: []string{"enum values outside the registered set are null also where the type is described as non-null", "fields of implementations may also be asked for on the interface"},
		Quick:  2500, Thorough: 60000, CPU: 90,
		Run: c20,
	})
}

func ofTypes(n int) string {
	if n == 0 {
		return "kind name"
	}
	return "kind name ofType{" + ofTypes(n-1) + "}"
}

var introspect20 = `{__schema{queryType{name}mutationType{name}subscriptionType{name}types{kind name description specifiedByURL fields(includeDeprecated:true){name description isDeprecated deprecationReason args{...A}type{...T}}interfaces{kind name ofType{name}}possibleTypes{kind name ofType{name}}enumValues(includeDeprecated:true){name description isDeprecated deprecationReason}inputFields{...A}ofType{name}}directives{name description locations args{...A}}}}
fragment A on __InputValue{name description defaultValue type{...T}}
fragment T on __Type{` + ofTypes(16) + `}`

// graph20 is a schema as introspection describes it
type graph20 struct {
	query, mutation string
	types           map[string]*q.J
	list            []*q.J
	dirs            []*q.J
	schema          *q.J
}

func str(j *q.J) string {
	if j == nil || j.K != 's' {
		return ""
	}
	return j.S
}

func readGraph(data *q.J) (*graph20, string) {
	s := data.Get("__schema")
	if s == nil {
		return nil, "no __schema"
	}
	g := &graph20{schema: s, query: str(s.Get("queryType").Get("name")), mutation: str(s.Get("mutationType").Get("name")), types: map[string]*q.J{}}
	for _, t := range s.Get("types").A {
		n := str(t.Get("name"))
		if n == "" || g.types[n] != nil {
			return nil, "a type is listed twice or has no name: " + n
		}
		g.types[n] = t
		g.list = append(g.list, t)
	}
	g.dirs = s.Get("directives").A
	return g, ""
}

// refText writes a described type
func refText(t *q.J) string {
	switch str(t.Get("kind")) {
	case "NON_NULL":
		return refText(t.Get("ofType")) + "!"
	case "LIST":
		return "[" + refText(t.Get("ofType")) + "]"
	}
	return str(t.Get("name"))
}

// refOK tells if a type reference is well formed and agrees with the list
func (g *graph20) refOK(t *q.J, wrapped bool) string {
	switch k := str(t.Get("kind")); k {
	case "NON_NULL":
		if wrapped {
			return "NON_NULL of NON_NULL"
		}
		fallthrough
	case "LIST":
		if t.Get("name").K != 'n' || t.Get("ofType").K != 'o' {
			return k + " with a name or without ofType"
		}
		return g.refOK(t.Get("ofType"), k == "NON_NULL")
	default:
		n := str(t.Get("name"))
		e := g.types[n]
		if e == nil {
			return "reference to a type that is not listed: " + t.Text()
		}
		if str(e.Get("kind")) != k || t.Get("ofType").K != 'n' {
			return "reference " + t.Text() + " does not agree with " + e.Text()
		}
	}
	return ""
}

// describe20 is the description of the Go types
type describe20 struct {
	c     *core.Case
	g     *graph20
	anon  map[string]reflect.Type // names of anonymous types
	names map[reflect.Type]string
	seen  map[string]bool
	queue []func() string
}

func (d *describe20) anonymous(t reflect.Type, name string, input bool) string {
	prefix := "__UnknownType"
	if input {
		prefix = "__UnknownInput"
	}
	if !strings.HasPrefix(name, prefix) {
		return fmt.Sprintf("the anonymous type %s is called %s", t, name)
	}
	// anonymous types are described once per use
	if o, ok := d.anon[name]; ok && o != t {
		return fmt.Sprintf("%s is both %s and %s", name, o, t)
	}
	d.anon[name] = t
	return ""
}

func nn(s string, nonNull bool) string {
	if nonNull {
		return s + "!"
	}
	return s
}

// out compares the reference j with the output type t
func (d *describe20) out(j *q.J, t reflect.Type, isID, nullable bool) string {
	k := str(j.Get("kind"))
	if m := d.nonNullOut(t); m && !nullable {
		if k != "NON_NULL" {
			return fmt.Sprintf("%s is described as nullable", t)
		}
		j = j.Get("ofType")
		k = str(j.Get("kind"))
	} else if k == "NON_NULL" {
		return fmt.Sprintf("%s is described as non-null", t)
	}
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	name := str(j.Get("name"))
	want := func(kind, n string) string {
		if k != kind || name != n {
			return fmt.Sprintf("%s is described as %s %s", t, k, name)
		}
		return ""
	}
	e := d.c.M.Enums[t]
	switch {
	case t.String() == "time.Time":
		return want("SCALAR", "Time")
	case e != nil:
		return want("ENUM", t.Name())
	case t.Kind() == reflect.Slice || t.Kind() == reflect.Array:
		if k != "LIST" {
			return fmt.Sprintf("%s is described as %s %s", t, k, name)
		}
		return d.out(j.Get("ofType"), t.Elem(), false, false)
	case t.Kind() == reflect.Struct || t.Kind() == reflect.Interface:
		kind := "OBJECT"
		if t.Kind() == reflect.Interface {
			kind = "INTERFACE"
		}
		return d.object(t, kind, k, name)
	case isID:
		return want("SCALAR", "ID")
	}
	switch t.Kind() {
	case reflect.Bool:
		return want("SCALAR", "Boolean")
	case reflect.String:
		return want("SCALAR", "String")
	case reflect.Float32, reflect.Float64:
		return want("SCALAR", "Float")
	}
	return want("SCALAR", "Int")
}

func (d *describe20) nonNullOut(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Interface:
		return false
	}
	return true
}

func (d *describe20) object(t reflect.Type, kind, k, name string) string {
	o := d.c.M.Obj(t)
	if k != kind {
		return fmt.Sprintf("%s is described as %s %s", t, k, name)
	}
	if o.Name == "" {
		if bad := d.anonymous(t, name, false); bad != "" {
			return bad
		}
	} else if o.Name != name {
		return fmt.Sprintf("%s is called %s", t, name)
	}
	if d.seen[name] {
		return ""
	}
	d.seen[name] = true
	d.queue = append(d.queue, func() string { return d.contents(o, kind, name) })
	return ""
}

func namesOf(l *q.J) string {
	var s []string
	for _, x := range l.A {
		s = append(s, str(x.Get("name")))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func (d *describe20) contents(o *core.Obj, kind, name string) string {
	e := d.g.types[name]
	if e == nil {
		return "the type " + name + " is not listed"
	}
	fail := func(format string, a ...interface{}) string { return name + ": " + fmt.Sprintf(format, a...) }
	if e.Get("inputFields").K != 'n' || e.Get("enumValues").K != 'n' || e.Get("ofType").K != 'n' {
		return fail("has input fields, enum values or an ofType")
	}
	var ifs, impl []string
	for _, x := range o.Ifaces {
		ifs = append(ifs, x.Name)
	}
	for _, x := range o.Impl {
		impl = append(impl, x.Name)
	}
	sort.Strings(ifs)
	sort.Strings(impl)
	if kind == "OBJECT" {
		if got := namesOf(e.Get("interfaces")); e.Get("interfaces").K != 'a' || got != strings.Join(ifs, " ") {
			return fail("interfaces %s instead of %s", got, ifs)
		}
		if len(e.Get("possibleTypes").A) > 0 {
			return fail("an object has possible types")
		}
	} else if got := namesOf(e.Get("possibleTypes")); got != strings.Join(impl, " ") {
		return fail("possible types %s instead of %s", got, impl)
	}
	for _, l := range []string{"interfaces", "possibleTypes"} {
		for _, x := range e.Get(l).A {
			if bad := d.g.refOK(x, false); bad != "" {
				return fail("%s: %s", l, bad)
			}
		}
	}
	for _, x := range append(append([]*core.Obj{}, o.Ifaces...), o.Impl...) {
		k := "OBJECT"
		if x.IsIface {
			k = "INTERFACE"
		}
		if bad := d.object(x.T, k, k, x.Name); bad != "" {
			return bad
		}
	}
	var want []string
	for _, f := range o.Fields {
		want = append(want, f.Name)
	}
	sort.Strings(want)
	if got := namesOf(e.Get("fields")); got != strings.Join(want, " ") {
		return fail("fields %s instead of %s", got, want)
	}
	for _, fj := range e.Get("fields").A {
		f := o.ByName[str(fj.Get("name"))]
		if bad := d.g.refOK(fj.Get("type"), false); bad != "" {
			return fail("%s: %s", f.Name, bad)
		}
		if bad := d.out(fj.Get("type"), f.Out, f.IsID, f.K == core.FFunc); bad != "" {
			return fail("%s: %s", f.Name, bad)
		}
		if fj.Get("isDeprecated").Text() != "false" {
			return fail("%s is deprecated", f.Name)
		}
		var args []*core.ArgDef
		if f.Func != nil {
			args = f.Func.Args
		}
		if bad := d.inputs(fj.Get("args"), args); bad != "" {
			return fail("%s: %s", f.Name, bad)
		}
	}
	return ""
}

func (d *describe20) inputs(j *q.J, args []*core.ArgDef) string {
	var want []string
	by := map[string]*core.ArgDef{}
	for _, a := range args {
		want = append(want, a.Name)
		by[a.Name] = a
	}
	sort.Strings(want)
	if j.K != 'a' || namesOf(j) != strings.Join(want, " ") {
		return fmt.Sprintf("arguments or input fields %s instead of %s", namesOf(j), want)
	}
	for _, aj := range j.A {
		a := by[str(aj.Get("name"))]
		if bad := d.g.refOK(aj.Get("type"), false); bad != "" {
			return a.Name + ": " + bad
		}
		if aj.Get("defaultValue").K != 'n' {
			return a.Name + " has a default value"
		}
		if bad := d.in(aj.Get("type"), a.T, a.IsID); bad != "" {
			return a.Name + ": " + bad
		}
	}
	return ""
}

func (d *describe20) in(j *q.J, t reflect.Type, isID bool) string {
	k := str(j.Get("kind"))
	nullable := t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice
	if nullable == (k == "NON_NULL") {
		return fmt.Sprintf("%s is described as nullable: %v", t, k != "NON_NULL")
	}
	if !nullable {
		j = j.Get("ofType")
		k = str(j.Get("kind"))
	}
	isFile := false
	for t.Kind() == reflect.Ptr {
		if t == reflect.TypeOf(&multipart.FileHeader{}) {
			isFile = true
			break
		}
		t = t.Elem()
	}
	name := str(j.Get("name"))
	want := func(kind, n string) string {
		if k != kind || name != n {
			return fmt.Sprintf("%s is described as %s %s", t, k, name)
		}
		return ""
	}
	switch {
	case isFile:
		return want("SCALAR", "File")
	case t.String() == "time.Time":
		return want("SCALAR", "Time")
	case d.c.M.Enums[t] != nil:
		return want("ENUM", t.Name())
	case t.Kind() == reflect.Slice:
		if k != "LIST" {
			return fmt.Sprintf("%s is described as %s %s", t, k, name)
		}
		return d.in(j.Get("ofType"), t.Elem(), false)
	case t.Kind() == reflect.Struct:
		if k != "INPUT_OBJECT" {
			return fmt.Sprintf("%s is described as %s %s", t, k, name)
		}
		if t.Name() == "" {
			if bad := d.anonymous(t, name, true); bad != "" {
				return bad
			}
		} else if t.Name() != name {
			return fmt.Sprintf("%s is called %s", t, name)
		}
		if d.seen[name] {
			return ""
		}
		d.seen[name] = true
		d.queue = append(d.queue, func() string {
			e := d.g.types[name]
			if e.Get("fields").K != 'n' || e.Get("enumValues").K != 'n' {
				return name + " has output fields or enum values"
			}
			if bad := d.inputs(e.Get("inputFields"), core.InputFields(t)); bad != "" {
				return name + ": " + bad
			}
			return ""
		})
		return ""
	case isID:
		return want("SCALAR", "ID")
	}
	switch t.Kind() {
	case reflect.Bool:
		return want("SCALAR", "Boolean")
	case reflect.String:
		return want("SCALAR", "String")
	case reflect.Float32, reflect.Float64:
		return want("SCALAR", "Float")
	}
	return want("SCALAR", "Int")
}

var builtin20 = []string{"Boolean", "Int", "Float", "String", "ID", "File", "Time"}

func (d *describe20) all() string {
	c := d.c
	if bad := d.object(c.QT, "OBJECT", "OBJECT", d.g.query); bad != "" {
		return bad
	}
	if bad := d.object(c.MT, "OBJECT", "OBJECT", d.g.mutation); bad != "" {
		return bad
	}
	for i := 0; i < len(d.queue); i++ {
		if bad := d.queue[i](); bad != "" {
			return bad
		}
	}
	for _, n := range builtin20 {
		if t := d.g.types[n]; t == nil || str(t.Get("kind")) != "SCALAR" || t.Get("fields").K != 'n' {
			return "the scalar " + n + " is not listed as such"
		}
		d.seen[n] = true
	}
	for t, e := range c.M.Enums {
		j := d.g.types[t.Name()]
		if j == nil || str(j.Get("kind")) != "ENUM" {
			return "the enum " + t.Name() + " is not listed"
		}
		if got := namesOf(j.Get("enumValues")); got != strings.Join(e.Keys, " ") {
			return fmt.Sprintf("the enum %s has the values %s instead of %s", t.Name(), got, e.Keys)
		}
		if j.Get("fields").K != 'n' || j.Get("inputFields").K != 'n' {
			return "the enum " + t.Name() + " has fields"
		}
		d.seen[t.Name()] = true
	}
	// directives
	have := map[string][]*q.J{}
	for _, j := range d.g.dirs {
		have[str(j.Get("name"))] = append(have[str(j.Get("name"))], j)
	}
	std := reflect.TypeOf(struct{ If bool }{})
	every := map[q.SelKind]bool{q.SField: true, q.SSpread: true, q.SInline: true}
	defs := append([]*core.DirDef{{Name: "skip", ArgTs: []reflect.Type{std}, Where: every}, {Name: "include", ArgTs: []reflect.Type{std}, Where: every}}, c.Dirs...)
	for _, def := range defs {
		l := have[def.Name]
		if len(l) != 1 {
			return fmt.Sprintf("the directive %s is listed %d times", def.Name, len(l))
		}
		delete(have, def.Name)
		var locs, want []string
		for _, x := range l[0].Get("locations").A {
			locs = append(locs, str(x))
		}
		for k, n := range map[q.SelKind]string{q.SField: "FIELD", q.SSpread: "FRAGMENT_SPREAD", q.SInline: "INLINE_FRAGMENT"} {
			if def.Where[k] {
				want = append(want, n)
			}
		}
		sort.Strings(locs)
		sort.Strings(want)
		if fmt.Sprint(locs) != fmt.Sprint(want) {
			return fmt.Sprintf("the directive %s has the locations %s instead of %s", def.Name, locs, want)
		}
		ts := def.ArgTs
		if def.ArgT != nil {
			ts = []reflect.Type{def.ArgT}
		}
		var args []*core.ArgDef
		for _, t := range ts {
			args = append(args, core.InputFields(t)...)
		}
		if bad := d.inputs(l[0].Get("args"), args); bad != "" {
			return "the directive " + def.Name + ": " + bad
		}
		if def.Desc != "" && str(l[0].Get("description")) != def.Desc {
			return "the directive " + def.Name + " is described as " + l[0].Get("description").Text()
		}
	}
	for n := range have {
		return "the directive " + n + " is listed"
	}
	for i := 0; i < len(d.queue); i++ {
		if bad := d.queue[i](); bad != "" {
			return bad
		}
	}
	for n := range d.g.types {
		if !d.seen[n] && !own20[n] {
			return "the type " + n + " is listed but cannot be reached"
		}
	}
	return ""
}

var own20 = map[string]bool{"__Schema": true, "__Type": true, "__Field": true, "__EnumValue": true, "__InputValue": true, "__Directive": true, "__TypeKind": true, "__DirectiveLocation": true}

// isel is a selection on introspection types
type isel struct {
	key, name, args string
	sub             []*isel
	frag            string // inline fragment on this type
}

var on20 = map[string]map[string]string{
	"__Schema":     {"types": "__Type", "queryType": "__Type", "mutationType": "__Type", "subscriptionType": "__Type", "directives": "__Directive"},
	"__Type":       {"kind": "", "name": "", "description": "", "specifiedByURL": "", "fields": "__Field", "interfaces": "__Type", "possibleTypes": "__Type", "enumValues": "__EnumValue", "inputFields": "__InputValue", "ofType": "__Type"},
	"__Field":      {"name": "", "description": "", "args": "__InputValue", "type": "__Type", "isDeprecated": "", "deprecationReason": ""},
	"__EnumValue":  {"name": "", "description": "", "isDeprecated": "", "deprecationReason": ""},
	"__InputValue": {"name": "", "description": "", "type": "__Type", "defaultValue": ""},
	"__Directive":  {"name": "", "description": "", "locations": "", "args": "__InputValue"},
}

func genISel(r *rand.Rand, on string, depth int, n *int) []*isel {
	var names []string
	for k := range on20[on] {
		names = append(names, k)
	}
	sort.Strings(names)
	names = append(names, "__typename")
	var l []*isel
	p := 2 + r.Intn(3)
	for _, i := range r.Perm(len(names)) {
		f := names[i]
		to := on20[on][f]
		if len(l) > 0 && r.Intn(p) != 0 {
			continue
		}
		if to != "" && (depth <= 0 || *n <= 0) {
			if len(l) == 0 {
				f, to = "__typename", ""
			} else {
				continue
			}
		}
		s := &isel{key: f, name: f}
		*n--
		if chance(r, 4) {
			s.key = "k" + itoa(len(l)) + f
		}
		if (f == "fields" || f == "enumValues") && chance(r, 2) {
			s.args = pick(r, "(includeDeprecated:true)", "(includeDeprecated:false)", "(includeDeprecated:$d)")
		}
		if to != "" {
			s.sub = genISel(r, to, depth-1, n)
		}
		l = append(l, s)
	}
	if chance(r, 6) {
		l = []*isel{{frag: on, sub: l}}
	}
	return l
}

func printISel(l []*isel) string {
	var b strings.Builder
	for _, s := range l {
		switch {
		case s.frag != "":
			b.WriteString("...on " + s.frag + "{" + printISel(s.sub) + "}")
			continue
		case s.key != s.name:
			b.WriteString(s.key + ":")
		}
		b.WriteString(s.name + s.args)
		if s.sub != nil {
			b.WriteString("{" + printISel(s.sub) + "}")
		}
		b.WriteString(" ")
	}
	return b.String()
}

// project evaluates a selection on a described thing
func (g *graph20) project(l []*isel, on string, j *q.J) *q.J {
	if j == nil || j.K == 'n' {
		return q.Null()
	}
	if j.K == 'a' {
		r := &q.J{K: 'a'}
		for _, x := range j.A {
			r.A = append(r.A, g.project(l, on, x))
		}
		return r
	}
	if on == "__Type" {
		if e := g.types[str(j.Get("name"))]; e != nil {
			j = e
		}
	}
	r := &q.J{K: 'o'}
	for _, s := range l {
		if s.frag != "" {
			for i, k := range g.project(s.sub, on, j).Keys {
				r.Set(k, g.project(s.sub, on, j).A[i])
			}
			continue
		}
		v := j.Get(s.name)
		if s.name == "__typename" {
			r.Set(s.key, &q.J{K: 's', S: on})
			continue
		}
		if s.sub != nil {
			v = g.project(s.sub, on20[on][s.name], v)
		}
		if v == nil {
			v = q.Null() // wrappers have nothing but kind and ofType
		}
		r.Set(s.key, v)
	}
	return r
}

// bsel is a selection built from the described schema
type bsel struct {
	key, name, args string
	t               *q.J
	sub             []*bsel
	on              string // of a fragment
}

type builder20 struct {
	g       *graph20
	r       *rand.Rand
	n       int
	budget  int
	vars    []string
	values  []string
	useVars bool
	args    int
}

func (b *builder20) sel(typ string, depth int) []*bsel {
	e := b.g.types[typ]
	l := []*bsel{{key: "t" + itoa(b.n), name: "__typename"}}
	b.n++
	fs := e.Get("fields").A
	take := 1 + b.r.Intn(6)
	for _, i := range b.r.Perm(len(fs)) {
		f := fs[i]
		if take--; take < 0 || b.budget <= 0 {
			break
		}
		base := f.Get("type")
		for base.Get("ofType").K == 'o' {
			base = base.Get("ofType")
		}
		k := str(base.Get("kind"))
		leaf := k != "OBJECT" && k != "INTERFACE"
		if !leaf && depth <= 0 {
			continue
		}
		b.budget--
		b.n++
		s := &bsel{key: "f" + itoa(b.n), name: str(f.Get("name")), t: f.Get("type")}
		s.args = b.arguments(f.Get("args"))
		if !leaf {
			s.sub = b.sel(str(base.Get("name")), depth-1)
		}
		l = append(l, s)
	}
	if str(e.Get("kind")) == "INTERFACE" {
		for _, p := range e.Get("possibleTypes").A {
			n := str(p.Get("name"))
			if b.r.Intn(3) != 0 {
				l = append(l, &bsel{on: n, sub: b.sel(n, depth-1)})
			}
		}
	}
	return l
}

func (b *builder20) arguments(j *q.J) string {
	var l []string
	for _, i := range b.r.Perm(len(j.A)) {
		a := j.A[i]
		if chance(b.r, 4) {
			continue
		}
		b.args++
		t := a.Get("type")
		if b.useVars && chance(b.r, 2) {
			n := "v" + itoa(len(b.vars))
			v := b.literal(t, 3, true)
			b.vars = append(b.vars, "$"+n+":"+refText(t))
			b.values = append(b.values, q.Quote(n)+":"+v)
			l = append(l, str(a.Get("name"))+":$"+n)
			continue
		}
		l = append(l, str(a.Get("name"))+":"+b.literal(t, 3, false))
	}
	if len(l) == 0 {
		return ""
	}
	return "(" + strings.Join(l, pick(b.r, ",", " ", "\n")) + ")"
}

// literal makes a value of a described type, as a literal or as JSON
func (b *builder20) literal(t *q.J, depth int, json bool) string {
	k := str(t.Get("kind"))
	r := b.r
	if k == "NON_NULL" {
		t = t.Get("ofType")
		k = str(t.Get("kind"))
	} else if chance(r, 5) || depth < 0 {
		return "null"
	}
	switch k {
	case "LIST":
		var l []string
		for i := r.Intn(3); i > 0 && depth > 0; i-- {
			l = append(l, b.literal(t.Get("ofType"), depth-1, json))
		}
		return "[" + strings.Join(l, ",") + "]"
	case "ENUM":
		e := b.g.types[str(t.Get("name"))].Get("enumValues").A
		n := str(e[r.Intn(len(e))].Get("name"))
		if json {
			return q.Quote(n)
		}
		return n
	case "INPUT_OBJECT":
		var l []string
		for _, f := range b.g.types[str(t.Get("name"))].Get("inputFields").A {
			if depth <= 0 && str(f.Get("type").Get("kind")) != "NON_NULL" || depth < -2 || chance(r, 3) {
				continue
			}
			n := str(f.Get("name"))
			if json {
				n = q.Quote(n)
			}
			l = append(l, n+":"+b.literal(f.Get("type"), depth-1, json))
		}
		return "{" + strings.Join(l, ",") + "}"
	}
	switch str(t.Get("name")) {
	case "Int":
		return itoa(r.Intn(128))
	case "Float":
		return pick(r, "0.5", "1e3", "-2.25", "3")
	case "Boolean":
		return pick(r, "true", "false")
	case "String":
		return pick(r, `""`, `"a"`, `"some text"`)
	case "ID":
		return q.Quote(itoa(r.Intn(128)))
	case "Time":
		return `"2020-01-02T03:04:05.678Z"`
	case "File":
		return `"file"`
	}
	return "null"
}

func printB(l []*bsel) string {
	var b strings.Builder
	for _, s := range l {
		if s.on != "" {
			b.WriteString("...on " + s.on + "{" + printB(s.sub) + "} ")
			continue
		}
		b.WriteString(s.key + ":" + s.name + s.args)
		if s.sub != nil {
			b.WriteString("{" + printB(s.sub) + "}")
		}
		b.WriteString(" ")
	}
	return b.String()
}

// typed checks a response against the described types
func (g *graph20) typed(t *run.T, v *q.J, ref *q.J, s *bsel, path string) string {
	k := str(ref.Get("kind"))
	if k == "NON_NULL" {
		ref = ref.Get("ofType")
		k = str(ref.Get("kind"))
		if v.K == 'n' && k != "ENUM" {
			return path + " is null but described as non-null"
		}
		t.Count("non-null values", 1)
	}
	if v.K == 'n' {
		return ""
	}
	bad := func() string { return path + ": " + v.Text() + " is no " + refText(ref) }
	t.Count("values of described type "+k, 1)
	switch k {
	case "LIST":
		if v.K != 'a' {
			return bad()
		}
		for i, x := range v.A {
			if b := g.typed(t, x, ref.Get("ofType"), s, path+"/"+itoa(i)); b != "" {
				return b
			}
		}
		return ""
	case "ENUM":
		if v.K == 's' {
			for _, e := range g.types[str(ref.Get("name"))].Get("enumValues").A {
				if str(e.Get("name")) == v.S {
					return ""
				}
			}
		}
		return bad()
	case "OBJECT", "INTERFACE":
		if v.K != 'o' {
			return bad()
		}
		return g.typedSet(t, v, str(ref.Get("name")), s.sub, path)
	}
	ok := false
	switch str(ref.Get("name")) {
	case "Int":
		ok = v.K == 'd' && !strings.ContainsAny(v.S, ".eE")
	case "Float":
		ok = v.K == 'd'
	case "Boolean":
		ok = v.K == 'b'
	case "String", "ID", "Time":
		ok = v.K == 's'
	}
	if !ok {
		return bad()
	}
	return ""
}

func (g *graph20) typedSet(t *run.T, v *q.J, typ string, l []*bsel, path string) string {
	name := str(v.Get(l[0].key))
	want := map[string]bool{typ: true}
	if str(g.types[typ].Get("kind")) == "INTERFACE" {
		want = map[string]bool{}
		for _, p := range g.types[typ].Get("possibleTypes").A {
			want[str(p.Get("name"))] = true
		}
	}
	if !want[name] {
		return path + ": __typename " + name + " for the type " + typ
	}
	n := 0
	var walk func(l []*bsel) string
	walk = func(l []*bsel) string {
		for _, s := range l {
			if s.on != "" {
				if s.on == name {
					if b := walk(s.sub); b != "" {
						return b
					}
				}
				continue
			}
			x := v.Get(s.key)
			if x == nil {
				return path + ": " + s.name + " is missing"
			}
			n++
			if s.t == nil {
				if x.K != 's' || x.S != name {
					return path + ": __typename is " + x.Text() + " and " + name
				}
				continue
			}
			if b := g.typed(t, x, s.t, s, path+"/"+s.name); b != "" {
				return b
			}
		}
		return ""
	}
	if b := walk(l); b != "" {
		return b
	}
	if n != len(v.Keys) {
		return path + ": there are keys nobody asked for: " + v.Text()
	}
	return ""
}

func c20(t *run.T) {
	r := t.R
	c := newCase(t, core.CaseOpt{Budget: 120})
	if c == nil {
		return
	}
	if chance(r, 2) {
		c.Dirs = append(c.Dirs, core.RandomDirs(r, []string{"skips", "d1", "_x", "Check", "on"}[:r.Intn(6)])...)
	}
	schemas := []*yarql.Schema{}
	for i := 0; i < 2; i++ {
		s, err := c.NewSchema()
		if err != nil {
			t.Fail("a valid schema is refused", err.Error())
			return
		}
		schemas = append(schemas, s)
	}
	if chance(r, 2) {
		n := r.Intn(300)
		schemas[0].SetCacheRules(&n)
	}
	opts := (&core.Request{}).Options()
	gq := core.NewGen(c, r, core.DefaultOpt())
	for i := r.Intn(3); i > 0; i-- {
		rq := gq.Request()
		c.Run(schemas[0], rq.Text, rq.Options())
	}
	res := c.Run(schemas[0], introspect20, opts)
	if res.Bad != "" || len(res.Errs) > 0 {
		t.Fail("the introspection query fails", res.Bad+"\n"+res.Raw)
		return
	}
	g, bad := readGraph(res.Data)
	if bad == "" {
		d := &describe20{c: c, g: g, anon: map[string]reflect.Type{}, seen: map[string]bool{}}
		bad = d.all()
	}
	if bad != "" {
		t.Fail("introspection: "+bad, c.QT.String()+"\n"+c.MT.String()+"\n"+res.Raw)
		return
	}
	t.Eval(len(g.types))
	t.Count("types described", len(g.types))
	for n, x := range g.types {
		if !own20[n] {
			t.Distinct("descriptions", run.HashOf(x.Text()))
			t.Count("fields described", len(x.Get("fields").A))
			t.Count("input fields described", len(x.Get("inputFields").A))
		}
	}
	for i := 0; i < 12 && !t.Failed(); i++ {
		k := r.Intn(len(schemas))
		s := schemas[k]
		if chance(r, 10) {
			schemas = append(schemas, s.Copy())
		}
		switch r.Intn(5) {
		case 0:
			if len(schemas) > 3 {
				continue
			}
			rq := gq.Request()
			c.Run(s, rq.Text, rq.Options())
		case 1, 2:
			c20select(t, c, s, g, res.Raw)
		case 3:
			c20query(t, c, s, g)
		default:
			c20missing(t, c, s, g)
		}
	}
}

// c20select asks for a part of the description
func c20select(t *run.T, c *core.Case, s *yarql.Schema, g *graph20, raw string) {
	r := t.R
	n := 30
	var text, vars string
	var want *q.J
	o := optsT{}
	if chance(r, 2) {
		l := genISel(r, "__Schema", 1+r.Intn(5), &n)
		text = "query($d:Boolean=true){__schema{" + printISel(l) + "}}"
		want = &q.J{K: 'o'}
		want.Set("__schema", g.project(l, "__Schema", g.schema))
	} else {
		name := str(g.list[r.Intn(len(g.list))].Get("name"))
		if chance(r, 3) {
			name = pick(r, g.query, g.mutation)
		}
		if chance(r, 8) {
			name = pick(r, "", "nope", "__type", strings.ToLower(name), name+"!", "["+name+"]", name+" ", "uni."+name, "W", "World", "Ctx", "AttrIsID")
		}
		l := genISel(r, "__Type", 1+r.Intn(6), &n)
		arg := q.Quote(name)
		if chance(r, 2) {
			vars = `{"n":` + arg + `}`
			arg = "$n"
		}
		text = "query($n:String=\"\" $d:Boolean=false){__type(name:" + arg + "){" + printISel(l) + "}}"
		want = &q.J{K: 'o'}
		e := g.types[name]
		want.Set("__type", g.project(l, "__Type", e))
	}
	o.Variables = vars
	res := c.Run(s, text, o)
	t.Eval(1)
	t.Count("random introspection selections", 1)
	t.NonTrivial(text, want.Text())
	if res.Bad != "" || len(res.Errs) > 0 {
		t.Fail("introspection fails", text+"\n"+vars+"\n"+res.Raw+res.Bad)
		return
	}
	if d := q.Diff(want, res.Data); d != "" {
		t.Fail("introspection gives another description than before: "+d, text+"\n"+vars+"\n"+res.Raw+"\nfull:\n"+raw)
	}
}

// c20query executes what is described
func c20query(t *run.T, c *core.Case, s *yarql.Schema, g *graph20) {
	r := t.R
	b := &builder20{g: g, r: r, budget: 25, useVars: chance(r, 2)}
	kind, root := "query", g.query
	if chance(r, 3) {
		kind, root = "mutation", g.mutation
	}
	l := b.sel(root, 1+r.Intn(4))
	if kind == "query" && chance(r, 5) {
		// introspection describes itself as well
		st := &q.J{K: 'o'}
		st.Set("kind", &q.J{K: 's', S: "OBJECT"})
		st.Set("name", &q.J{K: 's', S: "__Schema"})
		st.Set("ofType", q.Null())
		n := b.n
		b.n++
		l = append(l, &bsel{key: "schema" + itoa(n), name: "__schema", t: st, sub: b.sel("__Schema", 2)})
	}
	body := printB(l)
	text := kind
	if len(b.vars) > 0 {
		text += "(" + strings.Join(b.vars, ",") + ")"
	}
	text += "{" + body + "}"
	o := optsT{Variables: "{" + strings.Join(b.values, ",") + "}", GetFormFile: func(string) (*multipart.FileHeader, error) { return &multipart.FileHeader{}, nil }}
	c.W.FailMod = 0
	res := c.Run(s, text, o)
	t.Eval(1)
	t.Count("queries built from introspection", 1)
	t.Count("arguments given by described type", b.args)
	t.NonTrivial(text, o.Variables)
	if res.Bad != "" || len(res.Errs) > 0 {
		t.Fail("a query for what introspection describes fails", text+"\n"+o.Variables+"\n"+res.Bad+res.Raw)
		return
	}
	if bad := g.typedSet(t, res.Data, root, l, ""); bad != "" {
		t.Fail("a response does not have the described types: "+bad, text+"\n"+o.Variables+"\n"+res.Raw)
		return
	}
	if t.WantSample() {
		t.Sample("%s -> %s", text, res.Raw)
	}
}

// c20missing asks for what is not described
func c20missing(t *run.T, c *core.Case, s *yarql.Schema, g *graph20) {
	r := t.R
	kind, typ := "query", g.query
	if chance(r, 2) {
		kind, typ = "mutation", g.mutation
	}
	pre, post := kind+"{", "}"
	var path []string
	if chance(r, 8) && kind == "query" {
		pre, post, typ = pre+"x:__schema{", "}}", "__Schema"
		path = append(path, "x")
	}
	for d := r.Intn(4); d > 0; d-- {
		// down to another object
		fs := g.types[typ].Get("fields").A
		for _, i := range r.Perm(len(fs)) {
			base := fs[i].Get("type")
			for base.Get("ofType").K == 'o' {
				base = base.Get("ofType")
			}
			if str(base.Get("kind")) == "OBJECT" {
				typ = str(base.Get("name"))
				pre += "x:" + str(fs[i].Get("name")) + "{"
				post += "}"
				path = append(path, "x")
				break
			}
		}
	}
	c.W.FailMod = 0
	res := c.Run(s, pre+"reached:__typename"+post, optsT{})
	t.Eval(1)
	if res.Bad != "" || len(res.Errs) > 0 {
		t.Fail("a query for what introspection describes fails", pre+"reached:__typename"+post+res.Bad+res.Raw)
		return
	}
	if !strings.Contains(res.Raw, `"reached":"`) {
		return
	}
	listed := map[string]bool{"__typename": true, "__schema": typ == g.query, "__type": typ == g.query}
	fs := g.types[typ].Get("fields").A
	for _, f := range fs {
		listed[str(f.Get("name"))] = true
	}
	what, sel := "", ""
	k := r.Intn(5)
	if len(fs) == 0 {
		k = 0
	}
	switch k {
	case 0, 1:
		var pool []string
		for _, n := range core.FieldNames {
			pool = append(pool, n, core.QLName(n), strings.ToLower(n), "n_"+n, "resolve"+n, "Resolve"+n)
		}
		for _, x := range g.list {
			for _, f := range x.Get("fields").A {
				n := str(f.Get("name"))
				pool = append(pool, n, strings.ToUpper(n[:1])+n[1:], n+"_", strings.ToUpper(n), n[:len(n)-1]+"x")
			}
		}
		pool = append(pool, "w", "uid", "W", "Uid", "_", "__Type", "__type", "__schema", "hFoo", "priv", "Hide", "hide")
		for i := 0; i < 20; i++ {
			n := pool[r.Intn(len(pool))]
			if !listed[n] && n != "" && !(n[0] >= '0' && n[0] <= '9') {
				what = "the field " + n
				sel = pick(r, "", "a:") + n + pick(r, "", "", "{__typename}", "(a:1)")
				break
			}
		}
	case 2: // argument
		f := fs[r.Intn(len(fs))]
		have := map[string]bool{}
		for _, a := range f.Get("args").A {
			have[str(a.Get("name"))] = true
		}
		n := core.FieldNames[r.Intn(len(core.FieldNames))]
		n = pick(r, n, core.QLName(n), "re_"+n, "n_"+n, "hide", "ctx", "a0", "name", "w")
		if have[n] {
			return
		}
		what = "the argument " + n
		sel = str(f.Get("name")) + "(" + n + ":" + pick(r, "1", "null", `"a"`, "{}", "[]", "true") + ")"
		base := f.Get("type")
		for base.Get("ofType").K == 'o' {
			base = base.Get("ofType")
		}
		if k := str(base.Get("kind")); k == "OBJECT" || k == "INTERFACE" {
			sel += "{__typename}"
		}
		// the argument of a function that is nil is not looked at
		probe := strings.Replace(sel, sel[len(str(f.Get("name"))):strings.LastIndex(sel, ")")+1], "", 1)
		res = c.Run(s, pre+"probe:"+probe+post, optsT{})
		if len(res.Errs) > 0 || !strings.Contains(res.Raw, `"probe":`) || strings.Contains(res.Raw, `"probe":null`) {
			return
		}
	case 3: // directive
		have := map[string]bool{}
		for _, d := range g.dirs {
			have[str(d.Get("name"))] = true
		}
		n := pick(r, "nope", "Skip", "skip_", "inc", "deprecated", "specifiedBy", "chec", "checks", "E", "ma", "_")
		if have[n] {
			return
		}
		what = "the directive " + n
		sel = pick(r, "__typename", "...on "+typ) + "@" + n + pick(r, "", "(if:true)", "(a:1)")
		if strings.HasPrefix(sel, "...") {
			sel += "{__typename}"
		}
	case 4: // location of a directive
		d := g.dirs[r.Intn(len(g.dirs))]
		locs := d.Get("locations").Text()
		n := str(d.Get("name"))
		args := ""
		if n == "skip" || n == "include" {
			args = "(if:true)"
		}
		switch {
		case !strings.Contains(locs, `"FIELD"`):
			sel = "__typename@" + n + args
		case !strings.Contains(locs, `"INLINE_FRAGMENT"`):
			sel = "...on " + typ + "@" + n + args + "{__typename}"
		case !strings.Contains(locs, `"FRAGMENT_SPREAD"`):
			sel = "...F@" + n + args
			post += " fragment F on " + typ + "{__typename}"
		default:
			return
		}
		what = "the directive " + n + " in another place"
	}
	if sel == "" {
		return
	}
	text := pre + pick(r, "", "reached:__typename ") + sel + post
	res = c.Run(s, text, optsT{})
	t.Eval(1)
	t.Count("requests for what is not described: "+strings.Fields(what)[1], 1)
	t.NonTrivial(text)
	if res.Bad != "" || len(res.Errs) == 0 {
		t.Fail(what+" of "+typ+" is not listed but accepted", text+"\n"+res.Bad+res.Raw)
	}
}

var _ = uni.EnumMaps
