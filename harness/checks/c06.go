package checks

import (
	"math/rand"
	"reflect"
	"strings"
	"time"

	"mime/multipart"
	"vh/core"
	"vh/q"
	"vh/run"
)

func init() {
	add(&run.Check{
		ID:     "C06",
		Rule:   "A case is a schema of functions with random argument types. In a well-formed operation one value, at any depth of the arguments of one field or directive, is replaced by one its Go type cannot hold (out of range, too precise, wrong kind, malformed, unknown key, undefined argument or field), written inline, as the default of a variable or in the variables; or a value that fits comes through a variable declared with another type (another name, more or fewer list levels). The function must not be called, an error must name the field, fields before it stay correct. As control, boundary values that do fit have to arrive exactly. Non-trivial: distinct unfit value and position.",
		Assume: []string{"accepted leniencies are not judged: an integer for a boolean, a string, or a variable declared String, for an enum, ID, time or file, a variable of any named type for a boolean, a number for a text ID or for an ID in variables, a value on a list without brackets is refused"},
		Quick:  14000, Thorough: 300000,
		Run: c06,
	})
}

var (
	tTime = reflect.TypeOf(time.Time{})
	tFile = reflect.TypeOf(&multipart.FileHeader{})
)

// spot is a place in a value where something can be put
type spot struct {
	at   **q.Val
	t    reflect.Type
	isID bool
	in   bool // inside of a list or object
}

func spots(m *core.Model, at **q.Val, t reflect.Type, isID bool, in bool) []spot {
	for t.Kind() == reflect.Ptr && t != tFile {
		t = t.Elem()
	}
	l := []spot{{at, t, isID, in}}
	v := *at
	switch v.K {
	case q.VList:
		for i := range v.List {
			l = append(l, spots(m, &v.List[i], t.Elem(), false, true)...)
		}
	case q.VObj:
		by := map[string]*core.ArgDef{}
		for _, f := range core.InputFields(t) {
			by[f.Name] = f
		}
		for i := range v.Obj {
			if f := by[v.Obj[i].Name]; f != nil {
				l = append(l, spots(m, &v.Obj[i].Val, f.T, f.IsID, true)...)
			}
		}
	}
	return l
}

func raw(s string) *q.Val { return &q.Val{K: q.VRaw, Raw: s} }

// unfit returns a value t cannot hold: as a literal, or as JSON
func unfit(r *rand.Rand, m *core.Model, t reflect.Type, isID, json bool) (*q.Val, string) {
	str := func(s string) *q.Val { return raw(q.Quote(s)) }
	type c struct {
		v    *q.Val
		what string
	}
	var l []c
	p := func(what string, vs ...string) {
		l = append(l, c{raw(vs[r.Intn(len(vs))]), what})
	}
	ps := func(what string, vs ...string) {
		l = append(l, c{str(vs[r.Intn(len(vs))]), what})
	}
	name := func(what string, vs ...string) {
		if !json { // JSON has no bare names
			p(what, vs...)
		}
	}
	enum := m.Enums[t]
	switch {
	case t == tFile:
		p("number for a file", "1", "-1", "1.5")
		p("boolean for a file", "true", "false")
		p("list for a file", "[]", `["x"]`)
		p("object for a file", "{}")
		name("name for a file", "RED", "file0")
		return choose(r, l)
	case t == tTime:
		ps("malformed time", "", "x", "2020", "2020-01-01", "2020-13-01T00:00:00.000Z", "2020-02-30T00:00:00.000Z", "2020-01-01T24:00:00.000Z", "2020-01-01T00:60:00.000Z", "2020-01-01 00:00:00.000Z", "2020-01-01T00:00:00.000Zx", "x2020-01-01T00:00:00.000Z", "2020-01-01T00:00:00.000+01:00", "20-01-01T00:00:00.000Z", "2021-02-29T00:00:00.000Z", "12020-01-01T00:00:00.000Z", "0", "now", "null")
		p("number for a time", "0", "1577836800", "1.5", "-1")
		p("boolean for a time", "true")
		p("list for a time", "[]", `["2020-01-01T00:00:00.000Z"]`)
		p("object for a time", "{}", `{x:1}`)
		name("name for a time", "RED", "now")
	case enum != nil:
		var bad []string
		for _, k := range []string{"RED_", "red", "Red", "R", "REDX", "NOPE", "SMALL1", "small", "A1", "b", "C", "FOO_", "foo", "onn", "ON", "ZEROO", "_", "Red_", "Red_22", "EMPT"} {
			if _, ok := enum.Vals[k]; !ok {
				bad = append(bad, k)
			}
		}
		for _, k := range enum.Keys {
			for _, x := range []string{k + "X", strings.ToLower(k), k[:len(k)-1], "_" + k} {
				if _, ok := enum.Vals[x]; !ok && x != "" && x != "null" && x != "true" && x != "false" {
					bad = append(bad, x)
				}
			}
		}
		name("unknown key", bad...)
		ps("unknown key as text", append(bad, "", "1", "0")...)
		p("number for an enum", "0", "1", "-7", "1.5")
		p("boolean for an enum", "true", "false")
		p("list for an enum", "[]", "[RED]")
		p("object for an enum", "{}")
	case isID && t.Kind() == reflect.String:
		p("boolean for an ID", "true")
		p("list for an ID", "[]", `["1"]`)
		p("object for an ID", "{}")
		p("float for an ID", "1.5")
		name("name for an ID", "RED")
	default:
		bits := 0
		signed, unsigned := false, false
		switch t.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			signed, bits = true, t.Bits()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			unsigned, bits = true, t.Bits()
		}
		switch {
		case signed || unsigned:
			out := outOfRange(bits, signed)
			if isID {
				ps("ID out of range", out...)
				ps("malformed ID", "", "a", "1a", "1.5", " 1", "1 ", "0x1", "1_0", "--1", "1e3", "null", "9999999999999999999999999", "１")
				if !json {
					p("integer out of range for an ID", out...)
				}
				p("boolean for an ID", "true")
				p("list for an ID", "[]", `["1"]`)
				p("object for an ID", "{}")
				p("float for an ID", "1.5")
			} else {
				p("integer out of range", out...)
				p("integer out of range", out...)
				p("integer out of range", out...)
				p("fraction for an integer", "1.5", "0.1", "-1.5", "1.0000001", "2.5e-3")
				p("float for an integer", "1.0", "1e2", "1E1", "-0.0")
				ps("text for an integer", "1", "", "a", "0")
				p("boolean for an integer", "true", "false")
				p("list for an integer", "[]", "[1]")
				p("object for an integer", "{}", "{x:1}")
				name("name for an integer", "RED", "A", "on")
			}
		case t.Kind() == reflect.Float32 || t.Kind() == reflect.Float64:
			over := []string{"1e999", "-1e999", "1E400", "1.8e308", "-2e308", "1" + strings.Repeat("0", 400), "123456789e999999999"}
			if t.Kind() == reflect.Float32 {
				over = append(over, "1e39", "-1e39", "3.5e38", "4"+strings.Repeat("0", 38), "-3.41e38")
			}
			p("float out of range", over...)
			p("float out of range", over...)
			ps("text for a float", "1.5", "", "NaN", "Inf", "1")
			p("boolean for a float", "true")
			p("list for a float", "[]", "[1.5]")
			p("object for a float", "{}")
			name("name for a float", "NaN", "Infinity", "RED")
		case t.Kind() == reflect.Bool:
			ps("text for a boolean", "true", "", "false", "1")
			p("float for a boolean", "1.5")
			p("list for a boolean", "[]", "[true]")
			p("object for a boolean", "{}")
			name("name for a boolean", "RED", "True", "TRUE", "yes")
			if json { // 1.5 in variables is not judged, the number kinds are lenient
				l = append(l[:1:1], l[2:]...)
			}
		case t.Kind() == reflect.String:
			p("number for text", "1", "-1", "1.5", "0")
			p("boolean for text", "true", "false")
			p("list for text", "[]", `["a"]`)
			p("object for text", "{}")
			name("name for text", "RED", "hello")
		case t.Kind() == reflect.Slice:
			p("number for a list", "1", "-1.5")
			ps("text for a list", "", "a", "[]")
			p("boolean for a list", "true")
			p("object for a list", "{}", "{x:1}")
			name("name for a list", "RED")
		case t.Kind() == reflect.Struct:
			p("number for an object", "1", "1.5")
			ps("text for an object", "", "a", "{}")
			p("boolean for an object", "false")
			p("list for an object", "[]", "[{}]")
			name("name for an object", "RED")
			p("undefined input field", "{noSuchField:1}", "{W:1}", "{__typename:1}", "{hide:1}", "{priv:1}", "{noSuchField:{}}", "{noSuchField:[]}", `{noSuchField:""}`, "{noSuchField:null}")
		}
	}
	return choose(r, l)
}

func choose(r *rand.Rand, l interface{}) (*q.Val, string) {
	v := reflect.ValueOf(l)
	x := v.Index(r.Intn(v.Len()))
	p := x.Field(0)
	return (*q.Val)(p.UnsafePointer()), x.Field(1).String()
}

func outOfRange(bits int, signed bool) []string {
	type k struct {
		b int
		s bool
	}
	far := []string{"99999999999999999999", "-99999999999999999999", "18446744073709551616", "340282366920938463463374607431768211456", "-18446744073709551617"}
	return append(map[k][]string{
		{8, true}:   {"128", "-129", "255", "256", "-256", "384", "32768", "4294967296", "4294967297", "18446744073709551615"},
		{16, true}:  {"32768", "-32769", "65535", "65536", "65537", "-65536", "4294967297", "18446744073709551615"},
		{32, true}:  {"2147483648", "-2147483649", "4294967295", "4294967296", "4294967297", "9223372036854775807", "18446744073709551615"},
		{64, true}:  {"9223372036854775808", "-9223372036854775809", "18446744073709551615"},
		{8, false}:  {"256", "-1", "257", "511", "512", "-255", "-256", "65536", "4294967296", "18446744073709551615"},
		{16, false}: {"65536", "-1", "65537", "-65535", "4294967296", "18446744073709551615"},
		{32, false}: {"4294967296", "-1", "4294967297", "-4294967295", "18446744073709551615"},
		{64, false}: {"-1", "-9223372036854775808", "18446744073709551616", "18446744073709551617"},
	}[k{bits, signed}], far...)
}

func c06(t *run.T) {
	r := t.R
	c := argCase(t, 1+r.Intn(3), 1+r.Intn(5), false)
	if c == nil {
		return
	}
	opt := core.DefaultOpt()
	opt.VarP = 15
	opt.FieldP = 90
	opt.Frags = false
	g := core.NewGen(c, r, opt)
	// control: what fits arrives
	conform(t, c, c.S, g.Request(), core.PLog|core.PErrs)
	if t.Failed() {
		return
	}
	fl := funcFields(c, c.QObj)
	if len(fl) == 0 {
		return
	}
	for i := 0; i < 12; i++ {
		f := fl[r.Intn(len(fl))]
		if f.K == core.FFunc && c.QV.Field(f.Index).IsNil() {
			continue
		}
		c06one(t, c, g, f)
		if t.Failed() {
			return
		}
	}
}

func c06one(t *run.T, c *core.Case, g *core.Gen, f *core.Field) {
	r := t.R
	g.Begin()
	g.Opt.Vars = false
	defer func() { g.Opt.Vars = true }()
	s := &q.Sel{K: q.SField, Name: f.Name, Alias: pick(r, "", "x")}
	g.Args(f.Func, s)
	mode := r.Intn(4) // inline, default, supplied, declared
	args, defs := &s.Args, f.Func.Args
	inDir := false
	if chance(r, 6) {
		inDir = true
		d := c.Dirs[r.Intn(2)] // those with arguments
		dd := q.Dir{Name: d.Name}
		for _, a := range core.InputFields(d.ArgT) {
			defs = nil
			_ = a
		}
		for _, a := range core.InputFields(d.ArgT) {
			defs = append(defs, a)
			if chance(r, 2) {
				_, l, _ := g.Value(a.T, a.IsID, false, 1)
				dd.Args = append(dd.Args, q.Arg{Name: a.Name, Val: l})
			}
		}
		s.Dirs = []q.Dir{dd}
		args = &s.Dirs[0].Args
	}
	def := defs[r.Intn(len(defs))]
	var at *q.Val
	idx := -1
	for i := range *args {
		if (*args)[i].Name == def.Name {
			idx = i
		}
	}
	if idx < 0 {
		_, l, _ := g.Value(def.T, def.IsID, false, 1)
		*args = append(*args, q.Arg{Name: def.Name, Val: l})
		idx = len(*args) - 1
	}
	at = (*args)[idx].Val
	sp := spots(c.M, &at, def.T, def.IsID, false)
	x := sp[r.Intn(len(sp))]
	if chance(r, 2) { // prefer deep ones
		x = sp[len(sp)-1]
	}
	var what string
	undefArg := mode == 0 && chance(r, 12)
	var other *q.VarDef
	otherVars := ""
	if mode == 3 {
		if other, what, otherVars = wrongDecl(r, c.M, *x.at, x); other == nil {
			return
		}
		*x.at = &q.Val{K: q.VVar, Raw: other.Name}
	} else if undefArg {
		what = "undefined argument"
		n := pick(r, "noSuchArgument", "_", "W", def.Name+"x", strings.ToUpper(def.Name)+"_", "Arg")
		ok := true
		for _, a := range defs {
			if a.Name == n {
				ok = false
			}
		}
		if !ok {
			return
		}
		*args = append(*args, q.Arg{Name: n, Val: raw(pick(r, "1", "null", "true", `"x"`, "{}", "[]", "RED", "1.5"))})
	} else {
		var v *q.Val
		v, what = unfit(r, c.M, x.t, x.isID, mode == 2)
		// an object's other fields may stay
		if what == "undefined input field" && (*x.at).K == q.VObj {
			name := strings.Trim(strings.SplitN(v.Raw, ":", 2)[0], "{")
			known := false
			for _, a := range core.InputFields(x.t) {
				if a.Name == name {
					known = true
				}
			}
			if known {
				return
			}
			if chance(r, 2) {
				o := *(*x.at)
				o.Obj = append(append([]q.Arg{}, o.Obj...), q.Arg{Name: name, Val: raw(pick(r, "1", "null", `"x"`))})
				r.Shuffle(len(o.Obj), func(i, j int) { o.Obj[i], o.Obj[j] = o.Obj[j], o.Obj[i] })
				v = &o
			}
		}
		if what == "undefined input field" && v.K == q.VRaw {
			name := strings.Trim(strings.SplitN(v.Raw, ":", 2)[0], "{")
			for _, a := range core.InputFields(x.t) {
				if a.Name == name {
					return
				}
			}
		}
		*x.at = v
	}
	(*args)[idx].Val = at
	op := &q.Op{Kind: "query", Sel: []*q.Sel{s}}
	before := &q.Sel{K: q.SField, Name: "plain", Alias: "first"}
	if chance(r, 2) {
		op.Sel = []*q.Sel{before, s}
	}
	rq := g.Finish(op)
	where := "inline"
	if mode == 3 {
		where = "variable"
		op.Shorthand = false
		op.Vars = []q.VarDef{*other}
		if otherVars != "" {
			rq.Vars = otherVars
		}
		rq.Text = rq.Doc.Print(q.Layout{R: r, Level: r.Intn(3)})
	} else if mode > 0 {
		ref := c.M.TypeRefOf(def.T, def.IsID)
		if ref == nil {
			return
		}
		vd := q.VarDef{Name: pick(r, "v", "input", "e"), Type: ref}
		if mode == 1 {
			where = "default"
			vd.Default = at
			if rq.Vars == "" && chance(r, 2) {
				rq.Vars = "{}"
			}
		} else {
			where = "variables"
			js := jsonText(core.JSONOf(at, def.T, def.IsID, c.M))
			rq.Vars = "{" + q.Quote(vd.Name) + ":" + js + "}"
			if chance(r, 3) && at.K == q.VRaw {
				// a default that would fit is no excuse
				_, l, _ := g.Value(def.T, def.IsID, false, 1)
				vd.Default = l
			}
		}
		(*args)[idx].Val = &q.Val{K: q.VVar, Raw: vd.Name}
		op.Shorthand = false
		op.Vars = []q.VarDef{vd}
		rq.Text = rq.Doc.Print(q.Layout{R: r, Level: r.Intn(3)})
	}
	resp := c.Run(c.S, rq.Text, rq.Options())
	t.Eval(1)
	t.Count(where+": "+what, 1)
	if inDir {
		t.Count("unfit values in directives", 1)
	}
	if x.in {
		t.Count("unfit values inside of lists and objects", 1)
	}
	t.NonTrivial(what, where, rq.Text, rq.Vars)
	detail := what + " (" + where + ") for " + x.t.String() + "\n" + describe(rq, resp)
	if t.WantSample() {
		t.Sample("%s", detail)
	}
	if resp.Bad != "" {
		t.Fail(resp.Bad, detail)
		return
	}
	for _, l := range resp.Log {
		t.Fail(what+" ("+where+") is accepted: "+l.String(), detail)
		return
	}
	if len(resp.Errs) == 0 {
		t.Fail(what+" ("+where+") gives no error", detail)
		return
	}
	if resp.Errs[0].Path != "["+q.Quote(s.Key())+"]" {
		t.Fail("the error about "+what+" ("+where+") does not name the field", detail)
		return
	}
	if d := resp.Data.Get(s.Key()); d != nil && d.K != 'n' {
		t.Fail("a field is resolved with "+what, detail)
		return
	}
	if len(op.Sel) == 2 && (resp.Data.Get("first") == nil || resp.Data.Get("first").K != 'd') {
		t.Fail("the field before one with "+what+" is missing", detail)
	}
}

// wrongDecl declares a variable whose value fits the spot and whose type does
// not
func wrongDecl(r *rand.Rand, m *core.Model, val *q.Val, x spot) (*q.VarDef, string, string) {
	ref := m.TypeRefOf(x.t, x.isID)
	if ref == nil {
		return nil, "", ""
	}
	base := ref
	deep := 0
	for base.Elem != nil {
		base = base.Elem
		deep++
	}
	names := []string{"Int", "Float", "String", "Boolean", "ID", "Time", "File", "Nope", "int", "I", "Int1", "Strin"}
	for t := range m.Enums {
		names = append(names, t.Name())
	}
	sortStrings(names)
	what := ""
	d := deep
	name := base.Name
	switch k := r.Intn(4); {
	case k == 0 && deep > 0:
		d = r.Intn(deep)
		what = "list of fewer levels for a list"
	case k == 1:
		d = deep + 1 + r.Intn(2)
		what = "list of too many levels"
	default:
		for name == base.Name {
			name = pick(r, names...)
		}
		what = "variable of another type"
	}
	switch name {
	case base.Name:
	case "String":
		// text is taken for these
		b := x.t
		for b.Kind() == reflect.Slice || b.Kind() == reflect.Ptr && b != tFile {
			b = b.Elem()
		}
		if d == deep && (b == tFile || b == tTime || m.Enums[b] != nil || base.Name == "ID") {
			return nil, "", ""
		}
	}
	if d == deep && base.Name == "Boolean" {
		return nil, "", "" // their type is not looked at
	}
	t := &q.TypeRef{Name: name, NonNull: chance(r, 4)}
	for i := 0; i < d; i++ {
		t = &q.TypeRef{Elem: t, NonNull: chance(r, 4)}
	}
	vd := &q.VarDef{Name: pick(r, "v", "input", "e"), Type: t}
	if chance(r, 2) {
		vd.Default = val
		return vd, what, ""
	}
	return vd, what, "{" + q.Quote(vd.Name) + ":" + core.JSONOf(val, x.t, x.isID, m) + "}"
}

// jsonText quotes the bare keys of raw literals
func jsonText(s string) string {
	for _, k := range []string{"noSuchField", "W", "__typename", "hide", "priv", "x"} {
		s = strings.ReplaceAll(s, "{"+k+":", `{"`+k+`":`)
	}
	return strings.ReplaceAll(s, "[RED]", `["RED"]`)
}
