package core

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"mime/multipart"
	"reflect"
	"strconv"
	"strings"
	"time"

	"vh/q"
	"vh/uni"
)

// GenOpt tunes the request generator
type GenOpt struct {
	Vars, Frags, Dirs, CustomDirs, Files, MultiOps bool
	MaxDepth                                       int
	Budget                                         int
	NoArgs                                         bool
	FieldP                                         int // percentage of fields selected
	OnlyQuery                                      bool
	OnlyMutation                                   bool
	VarP                                           int // percentage of values given by variables
	DirP                                           int // percentage of selections with directives
	MaxFrags, MaxVars                              int // named fragments and variables of a document
	FragN                                          int // up to FragN-1 fragments per selection set
}

// DefaultOpt enables everything
func DefaultOpt() GenOpt {
	return GenOpt{Vars: true, Frags: true, Dirs: true, CustomDirs: true, Files: true, MultiOps: true, MaxDepth: 7, Budget: 120, FieldP: 60, VarP: 20, DirP: 17, FragN: 3, MaxFrags: 8, MaxVars: 30}
}

// Files is the form of a request
type Files struct {
	ByKey map[string]*multipart.FileHeader
	Log   []string
}

// Get is the lookup function handed to the library
func (f *Files) Get(key string) (*multipart.FileHeader, error) {
	f.Log = append(f.Log, key)
	if h, ok := f.ByKey[key]; ok {
		return h, nil
	}
	return nil, fmt.Errorf("no file %q", key)
}

// Request is a request with its expectations
type Request struct {
	Doc    *q.Doc
	Text   string
	OpName string
	Vars   string
	Target *q.Op
	Files  *Files
	Stats  map[string]int
	Lits   map[string]*q.Val // what the variables stand for
}

type gvar struct {
	name   string
	t      reflect.Type
	isID   bool
	val    reflect.Value
	def    q.VarDef
	json   *string // supplied value
	lit    *q.Val  // the effective value
	isNull bool
}

type gfrag struct {
	f       *q.Frag
	obj     *Obj
	closure map[string]bool
}

type scope struct {
	keys  map[string]bool
	frags map[string]bool
}

// Gen makes requests
type Gen struct {
	R        *rand.Rand
	M        *Model
	Opt      GenOpt
	C        *Case
	vars     []*gvar
	frags    []*gfrag
	n        int
	budget   int
	files    *Files
	stats    map[string]int
	building map[string]bool
}

var aliasPool = []string{"a", "b", "e", "v", "f", "aa", "alias", "x1", "_u", "__a", "null", "true", "query", "on", "fragment", "data", "errors", "path", "A", "aAaA", "the_quick_brown_fox_jumps_over_the_lazy_dog_1234567890"}
var fragPool = []string{"F", "Fr", "Fra", "Frag", "F1", "F11", "F2", "e", "v", "FragA", "_F", "fragment", "query", "frag_with_a_rather_long_name_to_read_over"}
var varPool = []string{"a", "ab", "abc", "v", "e", "x", "x1", "input", "A", "_", "null", "longVariableName_1", "n", "L"}
var opPool = []string{"Q", "Qu", "Que", "q", "a", "ab", "op", "op1", "op2", "Op", "e", "v", "query", "mutation", "Query_With_A_Long_Name"}

func (g *Gen) st(k string) { g.stats[k]++ }

// TypeRefOf returns the type a variable for t has, nil if it cannot be named
func (m *Model) TypeRefOf(t reflect.Type, isID bool) *q.TypeRef {
	for t.Kind() == reflect.Ptr && t != fileType {
		t = t.Elem()
	}
	switch {
	case t == fileType:
		return &q.TypeRef{Name: "File"}
	case t == timeType:
		return &q.TypeRef{Name: "Time"}
	case m.Enums[t] != nil:
		return &q.TypeRef{Name: t.Name()}
	case isID:
		return &q.TypeRef{Name: "ID"}
	}
	switch t.Kind() {
	case reflect.Bool:
		return &q.TypeRef{Name: "Boolean"}
	case reflect.String:
		return &q.TypeRef{Name: "String"}
	case reflect.Float32, reflect.Float64:
		return &q.TypeRef{Name: "Float"}
	case reflect.Slice:
		e := m.TypeRefOf(t.Elem(), false)
		if e == nil {
			return nil
		}
		return &q.TypeRef{Elem: e}
	case reflect.Struct:
		if t.Name() == "" {
			return nil
		}
		if n, ok := m.Rename[t]; ok {
			return &q.TypeRef{Name: n}
		}
		return &q.TypeRef{Name: t.Name()}
	default:
		return &q.TypeRef{Name: "Int"}
	}
}

func copyRef(t *q.TypeRef) *q.TypeRef {
	if t == nil {
		return nil
	}
	c := *t
	c.Elem = copyRef(t.Elem)
	return &c
}

// simpleBlock tells if every reading of block strings gives s back: it has no
// escapes and no indentation, and starts and ends with something visible
func simpleBlock(s string) bool {
	if s == "" || strings.TrimSpace(s) != s || strings.Contains(s, `"""`) || s[0] == '"' || s[len(s)-1] == '"' {
		return false
	}
	for i, c := range s {
		if c == '\n' && i+1 < len(s) && (s[i+1] == ' ' || s[i+1] == '\t') {
			return false
		}
		if c == '\\' || c < 0x20 && c != '\n' || c == 0x7f || c == 0xfeff {
			return false
		}
	}
	return true
}

func randBlock(r *rand.Rand) string {
	l := []string{"line", "a", "", "say \"hi\" \"\"", "# no comment", "x }", "{ ", "é  ", "$v", "@d(a: 1)", "", "\"\" quoted"}
	s := "first"
	for i := r.Intn(5); i >= 0; i-- {
		s += "\n" + l[r.Intn(len(l))]
	}
	return s + "\nend"
}

// FormatFloat writes a float literal
func FormatFloat(r *rand.Rand, f float64, bits int) *q.Val {
	if f == math.Trunc(f) && (math.Abs(f) < 1e17 || r.Intn(2) == 0) && r.Intn(3) == 0 && !(f == 0 && math.Signbit(f)) {
		return &q.Val{K: q.VInt, Raw: strconv.FormatFloat(f, 'f', -1, bits)}
	}
	s := strconv.FormatFloat(f, []byte{'e', 'g', 'f', 'E'}[r.Intn(4)], -1, bits)
	if !strings.ContainsAny(s, ".eE") {
		s += ".0"
	}
	return &q.Val{K: q.VFloat, Raw: s}
}

// value makes a value of type t: the Go value and the literal that denotes it.
// isNull tells that the literal is null or denotes it.
func (g *Gen) value(t reflect.Type, isID, vars bool, depth int) (v reflect.Value, lit *q.Val, isNull bool) {
	v = reflect.New(t).Elem()
	r := g.R
	if vars && g.Opt.Vars && r.Intn(100) < g.Opt.VarP {
		if gv := g.variable(t, isID); gv != nil {
			g.st("variable use")
			v.Set(gv.val)
			return v, &q.Val{K: q.VVar, Raw: gv.name}, gv.isNull
		}
	}
	if r.Intn(14) == 0 {
		g.st("null literal")
		return v, &q.Val{K: q.VNull}, true
	}
	if t == fileType {
		k := g.file()
		v.Set(reflect.ValueOf(g.files.ByKey[k]))
		return v, &q.Val{K: q.VString, Str: k}, false
	}
	if t == timeType {
		tm := RandTime(r).UTC()
		if tm.Year() < 1 || tm.Year() > 9999 {
			tm = time.Unix(0, 0).UTC()
		}
		tm = tm.Truncate(time.Millisecond)
		v.Set(reflect.ValueOf(tm))
		return v, &q.Val{K: q.VString, Str: tm.Format("2006-01-02T15:04:05.000Z")}, false
	}
	if e := g.M.Enums[t]; e != nil {
		k := e.Keys[r.Intn(len(e.Keys))]
		v.Set(e.Vals[k])
		return v, &q.Val{K: q.VEnum, Raw: k}, false
	}
	switch t.Kind() {
	case reflect.Bool:
		b := r.Intn(2) == 0
		v.SetBool(b)
		return v, &q.Val{K: q.VBool, Raw: strconv.FormatBool(b)}, false
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n := RandInt(r, t.Bits())
		v.SetInt(n)
		s := strconv.FormatInt(n, 10)
		if isID && r.Intn(2) == 0 {
			return v, &q.Val{K: q.VString, Str: s}, false
		}
		return v, &q.Val{K: q.VInt, Raw: s}, false
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n := RandUint(r, t.Bits())
		v.SetUint(n)
		s := strconv.FormatUint(n, 10)
		if isID && r.Intn(2) == 0 {
			return v, &q.Val{K: q.VString, Str: s}, false
		}
		return v, &q.Val{K: q.VInt, Raw: s}, false
	case reflect.Float32, reflect.Float64:
		f := RandFloat(r, t.Bits())
		v.SetFloat(f)
		return v, FormatFloat(r, f, t.Bits()), false
	case reflect.String:
		s := RandString(r)
		if r.Intn(12) == 0 {
			s = randBlock(r)
		}
		v.SetString(s)
		k := q.VString
		if r.Intn(3) == 0 && simpleBlock(s) && !isID {
			k = q.VBlock
			g.st("block string")
		}
		return v, &q.Val{K: k, Str: s}, false
	case reflect.Ptr:
		ev, el, null := g.value(t.Elem(), isID, false, depth)
		if null {
			return v, el, true
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(ev)
		v.Set(p)
		return v, el, false
	case reflect.Slice:
		n := r.Intn(4)
		if depth > 3 {
			n = r.Intn(2)
		}
		if depth > 7 {
			n = 0
		}
		if depth <= 3 && r.Intn(40) == 0 {
			n = longLen(r, t.Elem())
		}
		v.Set(reflect.MakeSlice(t, n, n))
		lit = &q.Val{K: q.VList}
		for i := 0; i < n; i++ {
			ev, el, _ := g.value(t.Elem(), false, vars, depth+1)
			v.Index(i).Set(ev)
			lit.List = append(lit.List, el)
		}
		g.st("list literal")
		return v, lit, false
	case reflect.Struct:
		lit = &q.Val{K: q.VObj}
		if depth <= 6 {
			lit.Obj = g.object(v, t, vars, depth+1)
		}
		g.st("object literal")
		return v, lit, false
	}
	panic("unsupported input " + t.String())
}

func (g *Gen) object(v reflect.Value, t reflect.Type, vars bool, depth int) []q.Arg {
	fs := InputFields(t)
	g.R.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	p := 75
	if depth > 1 {
		p = 50
	}
	if depth > 3 {
		p = 15
	}
	var args []q.Arg
	for _, f := range fs {
		if g.R.Intn(100) >= p {
			continue
		}
		fv, fl, _ := g.value(f.T, f.IsID, vars, depth+1)
		v.Field(f.Index).Set(fv)
		args = append(args, q.Arg{Name: f.Name, Val: fl})
	}
	return args
}

func (g *Gen) file() string {
	if len(g.files.ByKey) > 0 && g.R.Intn(3) == 0 {
		// map order is random, so choose by name
		k := "file" + strconv.Itoa(g.R.Intn(len(g.files.ByKey)))
		if _, ok := g.files.ByKey[k]; ok {
			return k
		}
	}
	k := "file" + strconv.Itoa(len(g.files.ByKey))
	g.files.ByKey[k] = &multipart.FileHeader{Filename: k + ".txt"}
	return k
}

// JSONOf renders a literal as JSON, for the request's variables
func JSONOf(l *q.Val, t reflect.Type, isID bool, m *Model) string {
	for t.Kind() == reflect.Ptr && t != fileType {
		t = t.Elem()
	}
	switch l.K {
	case q.VRaw:
		return l.Raw
	case q.VNull:
		return "null"
	case q.VString, q.VBlock:
		return q.Quote(l.Str)
	case q.VEnum:
		return q.Quote(l.Raw)
	case q.VInt, q.VFloat:
		if isID {
			return q.Quote(l.Raw)
		}
		return l.Raw
	case q.VBool:
		return l.Raw
	case q.VList:
		var p []string
		for _, x := range l.List {
			p = append(p, JSONOf(x, t.Elem(), false, m))
		}
		return "[" + strings.Join(p, ",") + "]"
	case q.VObj:
		var p []string
		by := map[string]*ArgDef{}
		for _, f := range InputFields(t) {
			by[f.Name] = f
		}
		for _, x := range l.Obj {
			f := by[x.Name]
			if f == nil { // an undefined field of an unfit value
				f = &ArgDef{T: reflect.TypeOf(0)}
			}
			p = append(p, q.Quote(x.Name)+":"+JSONOf(x.Val, f.T, f.IsID, m))
		}
		return "{" + strings.Join(p, ", ") + "}"
	}
	panic("JSONOf")
}

// Value makes a value of type t
func (g *Gen) Value(t reflect.Type, isID, vars bool, depth int) (reflect.Value, *q.Val, bool) {
	return g.value(t, isID, vars, depth)
}

// Begin starts a hand-made request
func (g *Gen) Begin() {
	g.vars, g.frags, g.n = nil, nil, 0
	g.stats = map[string]int{}
	g.building = map[string]bool{}
	g.budget = g.Opt.Budget
	g.files = &Files{ByKey: map[string]*multipart.FileHeader{}}
}

// VarNames lists the variables declared so far
func (g *Gen) VarNames() []string {
	var l []string
	for _, v := range g.vars {
		l = append(l, v.name)
	}
	return l
}

// Unset takes value and default from a variable
func (g *Gen) Unset(name string) {
	for _, v := range g.vars {
		if v.name == name {
			v.json, v.def.Default = nil, nil
		}
	}
}

// Drop removes the declaration of a variable, its value stays supplied
func (g *Gen) Drop(name string) {
	for i, v := range g.vars {
		if v.name == name {
			g.vars = append(g.vars[:i:i], g.vars[i+1:]...)
			return
		}
	}
}

// Args fills in the arguments of s
func (g *Gen) Args(f *Func, s *q.Sel) { g.args(f, s) }

// Selection makes a selection set on o
func (g *Gen) Selection(o *Obj, depth int) []*q.Sel {
	return g.selection(o, depth, &scope{map[string]bool{}, map[string]bool{}})
}

// Finish turns operations into a request
func (g *Gen) Finish(ops ...*q.Op) *Request { return g.finish(ops) }

// variable returns a variable for a value of type t
func (g *Gen) variable(t reflect.Type, isID bool) *gvar {
	ref := g.M.TypeRefOf(t, isID)
	if ref == nil {
		return nil
	}
	if g.R.Intn(3) == 0 {
		for _, x := range g.vars {
			if x.t == t && x.isID == isID {
				g.st("variable reuse")
				return x
			}
		}
	}
	if len(g.vars) > g.Opt.MaxVars {
		return nil
	}
	gv := &gvar{t: t, isID: isID}
	gv.name = g.fresh(varPool, func(n string) bool {
		for _, x := range g.vars {
			if x.name == n {
				return true
			}
		}
		return false
	})
	val, lit, null := g.value(t, isID, false, 2)
	gv.def = q.VarDef{Name: gv.name, Type: copyRef(ref)}
	gv.lit = lit
	switch g.R.Intn(4) {
	case 0: // default only
		gv.def.Default = lit
		gv.val, gv.isNull = val, null
		g.st("variable from default")
	case 1: // both, the supplied one wins
		gv.def.Default = lit
		v2, l2, n2 := g.value(t, isID, false, 2)
		s := JSONOf(l2, t, isID, g.M)
		gv.json = &s
		gv.val, gv.isNull = v2, n2
		gv.lit = l2
		g.st("variable supplied over default")
	default:
		s := JSONOf(lit, t, isID, g.M)
		gv.json = &s
		gv.val, gv.isNull = val, null
		g.st("variable supplied")
	}
	if !gv.isNull && !(gv.def.Default != nil && gv.def.Default.K == q.VNull) && g.R.Intn(3) == 0 {
		gv.def.Type.NonNull = true
	}
	g.vars = append(g.vars, gv)
	return gv
}

func (g *Gen) fresh(pool []string, used func(string) bool) string {
	for i := 0; i < 4; i++ {
		n := pool[g.R.Intn(len(pool))]
		if g.R.Intn(40) == 0 {
			l := []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 253, 254}[g.R.Intn(15)]
			if l > len(n) {
				n += strings.Repeat([]string{"x", "_", "0", "Y"}[g.R.Intn(4)], l-len(n))
			}
		}
		if !used(n) {
			return n
		}
	}
	for {
		g.n++
		n := pool[g.R.Intn(len(pool))] + strconv.Itoa(g.n)
		if !used(n) {
			return n
		}
	}
}

// BoolVar returns a Boolean variable with the given value
func (g *Gen) boolVar(b bool) *q.Val {
	gv := &gvar{t: reflect.TypeOf(true)}
	for _, x := range g.vars {
		if x.t == gv.t && !x.isID && !x.isNull && x.val.Bool() == b && g.R.Intn(2) == 0 {
			return &q.Val{K: q.VVar, Raw: x.name}
		}
	}
	gv.name = g.fresh(varPool, func(n string) bool {
		for _, x := range g.vars {
			if x.name == n {
				return true
			}
		}
		return false
	})
	gv.val = reflect.ValueOf(b)
	gv.lit = &q.Val{K: q.VBool, Raw: strconv.FormatBool(b)}
	gv.def = q.VarDef{Name: gv.name, Type: &q.TypeRef{Name: "Boolean", NonNull: g.R.Intn(2) == 0}}
	s := strconv.FormatBool(b)
	if g.R.Intn(3) == 0 {
		gv.def.Default = &q.Val{K: q.VBool, Raw: s}
	} else {
		gv.json = &s
		if g.R.Intn(3) == 0 {
			gv.def.Default = &q.Val{K: q.VBool, Raw: strconv.FormatBool(!b)}
		}
	}
	g.vars = append(g.vars, gv)
	return &q.Val{K: q.VVar, Raw: gv.name}
}

// dirs makes directives for a selection; it returns whether it is left out
func (g *Gen) dirs(k q.SelKind) []q.Dir {
	if !g.Opt.Dirs || g.R.Intn(100) >= g.Opt.DirP {
		return nil
	}
	var ds []q.Dir
	skipped := false
	n := 1 + g.R.Intn(2)
	if g.R.Intn(6) == 0 {
		n += g.R.Intn(4)
	}
	for ; n > 0; n-- {
		if g.Opt.CustomDirs && !skipped && g.R.Intn(2) == 0 {
			d := g.customDir(k)
			if d != nil {
				ds = append(ds, *d)
				skipped = skipped || d.Skip
				continue
			}
		}
		name := "skip"
		b := g.R.Intn(3) == 0
		d := q.Dir{Name: name, Skip: b}
		if g.R.Intn(2) == 0 {
			d.Name = "include"
			b = !b
		}
		v := &q.Val{K: q.VBool, Raw: strconv.FormatBool(b)}
		if g.Opt.Vars && g.R.Intn(3) == 0 {
			v = g.boolVar(b)
		}
		d.Args = []q.Arg{{Name: "if", Val: v}}
		ds = append(ds, d)
		skipped = skipped || d.Skip
		g.st("directive " + d.Name)
	}
	if skipped {
		g.st("skipped selection")
	}
	return ds
}

func (g *Gen) customDir(k q.SelKind) *q.Dir {
	var may []*DirDef
	for _, d := range g.C.Dirs {
		if d.Where[k] {
			may = append(may, d)
		}
	}
	if len(may) == 0 {
		return nil
	}
	d := may[g.R.Intn(len(may))]
	r := &q.Dir{Name: d.Name, Fn: d.Fn}
	if d.Judge != nil {
		for _, t := range d.ArgTs {
			v := reflect.New(t).Elem()
			r.Args = append(r.Args, g.object(v, t, true, 1)...)
			r.In = append(r.In, v)
		}
		g.R.Shuffle(len(r.Args), func(i, j int) { r.Args[i], r.Args[j] = r.Args[j], r.Args[i] })
		r.Skip = d.Judge(r.In)
	} else if d.ArgT != nil {
		v := reflect.New(d.ArgT).Elem()
		r.Args = g.object(v, d.ArgT, true, 1)
		r.In = []reflect.Value{v}
		r.Skip = d.Skips(v)
	} else {
		r.Skip = d.Skips(reflect.Value{})
	}
	g.st("directive " + d.Name)
	return r
}

func (g *Gen) key(sc *scope, s *q.Sel) {
	if g.R.Intn(4) == 0 {
		s.Alias = aliasPool[g.R.Intn(len(aliasPool))]
	}
	if sc.keys[s.Key()] {
		s.Alias = g.fresh(aliasPool, func(n string) bool { return sc.keys[n] })
	}
	sc.keys[s.Key()] = true
}

// Args makes arguments for a function and what its parameters receive
func (g *Gen) args(f *Func, s *q.Sel) {
	for i := 0; i < f.NIn; i++ {
		if f.IsCtx[i] {
			s.In = append(s.In, reflect.Value{})
		} else {
			s.In = append(s.In, reflect.New(f.T.In(i+f.Off)).Elem())
		}
	}
	if g.Opt.NoArgs {
		return
	}
	as := append([]*ArgDef{}, f.Args...)
	g.R.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	for _, a := range as {
		if g.R.Intn(4) == 0 {
			continue
		}
		v, l, _ := g.value(a.T, a.IsID, true, 1)
		s.In[a.Param].Field(a.Index).Set(v)
		s.Args = append(s.Args, q.Arg{Name: a.Name, Val: l})
		g.st("argument")
	}
}

// selection makes a selection set on o
func (g *Gen) selection(o *Obj, depth int, sc *scope) []*q.Sel {
	var ss []*q.Sel
	idx := g.R.Perm(len(o.Fields))
	for _, i := range idx {
		f := o.Fields[i]
		if g.budget <= 0 || g.R.Intn(100) >= g.Opt.FieldP {
			continue
		}
		n := 1
		if g.R.Intn(8) == 0 {
			n = 2
		}
		for ; n > 0; n-- {
			leaf := g.M.Leaf(f.Out)
			if leaf != nil && depth >= g.Opt.MaxDepth {
				continue
			}
			g.budget--
			s := &q.Sel{K: q.SField, Name: f.Name}
			g.key(sc, s)
			s.Dirs = g.dirs(q.SField)
			if f.Func != nil {
				g.args(f.Func, s)
			}
			if leaf != nil {
				s.Sub = g.selection(leaf, depth+1, &scope{map[string]bool{}, map[string]bool{}})
			}
			ss = append(ss, s)
		}
	}
	if g.R.Intn(4) == 0 {
		s := &q.Sel{K: q.SField, Name: "__typename"}
		g.key(sc, s)
		s.Dirs = g.dirs(q.SField)
		ss = append(ss, s)
	}
	if g.Opt.Frags && depth < g.Opt.MaxDepth {
		for n := g.R.Intn(g.Opt.FragN); n > 0 && g.budget > 0; n-- {
			if s := g.fragment(o, depth, sc); s != nil {
				ss = append(ss, s)
			}
		}
	}
	g.R.Shuffle(len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i] })
	if len(ss) == 0 {
		s := &q.Sel{K: q.SField, Name: "__typename"}
		g.key(sc, s)
		ss = append(ss, s)
	}
	return ss
}

// cond chooses a type condition for a fragment within o
func (g *Gen) cond(o *Obj) (*Obj, string) {
	var objs []*Obj
	var names []string
	add := func(x *Obj, n string) { objs = append(objs, x); names = append(names, n) }
	if o.Name != "" {
		add(o, o.Name)
		add(o, o.Name)
	}
	if o == g.C.QObj && g.C.QName != "" {
		add(o, g.C.QName)
	}
	if o == g.C.MObj && g.C.MName != "" {
		add(o, g.C.MName)
	}
	for _, i := range o.Ifaces {
		add(i, i.Name)
	}
	for _, i := range o.Impl {
		add(i, i.Name)
		for _, j := range i.Ifaces {
			if g.R.Intn(3) == 0 {
				add(j, j.Name)
			}
		}
	}
	// one that does not match
	if g.R.Intn(4) == 0 || len(objs) == 0 {
		x := g.M.Obj(uni.Structs[g.R.Intn(len(uni.Structs))])
		add(x, x.Name)
	}
	i := g.R.Intn(len(objs))
	return objs[i], names[i]
}

func (g *Gen) fragment(o *Obj, depth int, sc *scope) *q.Sel {
	x, name := g.cond(o)
	if g.R.Intn(2) == 0 {
		s := &q.Sel{K: q.SInline, On: name, Dirs: g.dirs(q.SInline)}
		g.st("inline fragment")
		s.Sub = g.selection(x, depth+1, sc)
		return s
	}
	// named
	if g.R.Intn(3) == 0 {
	next:
		for _, f := range g.frags {
			if f.f.On != name || sc.frags[f.f.Name] || g.building[f.f.Name] {
				continue
			}
			for c := range f.closure {
				if sc.frags[c] || g.building[c] {
					continue next
				}
			}
			if len(f.f.Sel) == 0 {
				continue
			}
			clash := false
			for k := range g.keysOf(f.f.Sel) {
				if sc.keys[k] {
					clash = true
				}
			}
			if clash {
				continue
			}
			for k := range g.keysOf(f.f.Sel) {
				sc.keys[k] = true
			}
			sc.frags[f.f.Name] = true
			for c := range f.closure {
				sc.frags[c] = true
			}
			g.st("fragment reuse")
			return &q.Sel{K: q.SSpread, Name: f.f.Name, Dirs: g.dirs(q.SSpread)}
		}
	}
	if len(g.frags) > g.Opt.MaxFrags {
		return nil
	}
	fr := &gfrag{f: &q.Frag{On: name}, obj: x, closure: map[string]bool{}}
	fr.f.Name = g.fresh(fragPool, func(n string) bool {
		for _, y := range g.frags {
			if y.f.Name == n {
				return true
			}
		}
		return n == "on"
	})
	g.frags = append(g.frags, fr)
	g.building[fr.f.Name] = true
	before := map[string]bool{}
	for k := range sc.frags {
		before[k] = true
	}
	fr.f.Sel = g.selection(x, depth+1, sc)
	delete(g.building, fr.f.Name)
	for k := range sc.frags {
		if !before[k] {
			fr.closure[k] = true
		}
	}
	sc.frags[fr.f.Name] = true
	g.st("fragment spread")
	return &q.Sel{K: q.SSpread, Name: fr.f.Name, Dirs: g.dirs(q.SSpread)}
}

// keysOf lists the response keys a selection contributes to its own level
func (g *Gen) keysOf(ss []*q.Sel) map[string]bool {
	r := map[string]bool{}
	var walk func(ss []*q.Sel)
	walk = func(ss []*q.Sel) {
		for _, s := range ss {
			switch s.K {
			case q.SField:
				r[s.Key()] = true
			case q.SInline:
				walk(s.Sub)
			case q.SSpread:
				for _, f := range g.frags {
					if f.f.Name == s.Name {
						walk(f.f.Sel)
					}
				}
			}
		}
	}
	walk(ss)
	return r
}

// NewGen returns a generator for c
func NewGen(c *Case, r *rand.Rand, opt GenOpt) *Gen {
	return &Gen{R: r, M: c.M, Opt: opt, C: c}
}

// Request makes a request
func (g *Gen) Request() *Request {
	g.Begin()
	var ops []*q.Op
	nops := 1
	if g.Opt.MultiOps && g.R.Intn(4) == 0 {
		nops = 2 + g.R.Intn(2)
	}
	for i := 0; i < nops; i++ {
		g.budget = g.Opt.Budget / nops
		op := &q.Op{Kind: "query"}
		root := g.C.QObj
		if !g.Opt.OnlyQuery && (g.Opt.OnlyMutation || g.R.Intn(3) == 0) {
			op.Kind = "mutation"
			root = g.C.MObj
		}
		if nops > 1 || g.R.Intn(2) == 0 {
			op.Name = g.fresh(opPool, func(n string) bool {
				for _, o := range ops {
					if o.Name == n {
						return true
					}
				}
				return false
			})
		}
		op.Sel = g.selection(root, 0, &scope{map[string]bool{}, map[string]bool{}})
		ops = append(ops, op)
	}
	return g.finish(ops)
}

// Finish turns operations into a request
func (g *Gen) finish(ops []*q.Op) *Request {
	rq := &Request{Doc: &q.Doc{}, Files: g.files, Stats: g.stats, Lits: map[string]*q.Val{}}
	var defs []q.VarDef
	sup := []string{}
	for _, v := range g.vars {
		rq.Lits[v.name] = v.lit
		defs = append(defs, v.def)
		if v.json != nil {
			sup = append(sup, q.Quote(v.name)+":"+*v.json)
		}
	}
	for _, o := range ops {
		o.Vars = append([]q.VarDef{}, defs...)
		g.R.Shuffle(len(o.Vars), func(i, j int) { o.Vars[i], o.Vars[j] = o.Vars[j], o.Vars[i] })
		rq.Doc.Defs = append(rq.Doc.Defs, o)
	}
	for _, f := range g.frags {
		rq.Doc.Defs = append(rq.Doc.Defs, f.f)
	}
	if len(g.frags) > 0 && g.R.Intn(8) == 0 {
		// unused fragments
		used := map[string]bool{}
		for _, f := range g.frags {
			used[f.f.Name] = true
		}
		for n := 1 + g.R.Intn(30); n > 0; n-- {
			name := fragPool[g.R.Intn(len(fragPool))] + []string{"", "", "_", "1", "x"}[g.R.Intn(5)]
			if !used[name] {
				used[name] = true
				rq.Doc.Defs = append(rq.Doc.Defs, &q.Frag{Name: name, On: g.frags[0].f.On, Sel: []*q.Sel{{K: q.SField, Name: "unused"}}})
			}
		}
	}
	g.R.Shuffle(len(rq.Doc.Defs), func(i, j int) {
		rq.Doc.Defs[i], rq.Doc.Defs[j] = rq.Doc.Defs[j], rq.Doc.Defs[i]
	})
	all := rq.Doc.Ops()
	rq.Target = all[len(all)-1]
	if len(all) > 1 || g.R.Intn(3) == 0 {
		t := all[g.R.Intn(len(all))]
		if t.Name != "" && g.R.Intn(3) != 0 {
			rq.Target = t
			rq.OpName = t.Name
		}
	}
	if len(all) == 1 && all[0].Kind == "query" && all[0].Name == "" && len(all[0].Vars) == 0 && g.R.Intn(2) == 0 {
		all[0].Shorthand = true
	}
	g.R.Shuffle(len(sup), func(i, j int) { sup[i], sup[j] = sup[j], sup[i] })
	if g.R.Intn(6) == 0 {
		sup = append(sup, `"unusedVariable":{"x":[1,null]}`)
	}
	if len(sup) > 0 || g.R.Intn(4) == 0 {
		rq.Vars = "{" + strings.Join(sup, ",") + "}"
	}
	if rq.Vars != "" && !json.Valid([]byte(rq.Vars)) {
		panic("generator made invalid variables: " + rq.Vars)
	}
	rq.Text = rq.Doc.Print(q.Layout{R: g.R, Level: g.R.Intn(3)})
	return rq
}
