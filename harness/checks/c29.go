package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"mime/multipart"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/q"
	"vh/run"
	"vh/uni"
)

type file29 = *multipart.FileHeader

// In29 is an input object with files
type In29 struct {
	Name  string
	File  file29
	Again file29 `gq:"second"`
	Files []file29
	Deep  [][]file29
	Ptr   *file29
	In    *In29
	List  []In29
	Skip  file29 `gq:"-"`
}

func init() {
	add(&run.Check{
		ID:     "C29",
		Rule:   "Functions, methods and directives take files as arguments, in lists, lists of lists, pointers and recursive input objects. Random requests give keys (any characters, escapes, empty, long, shared) as literals, variables (used by none, one or many arguments), variable defaults, next to skipped fields, fragments that do not apply and other operations. The form is a table of outcomes (a file, no file and no error, an error, a file with an error); lookups are logged and their keys kept. The log has to be one lookup for every argument resolved, and each resolver has to get the very pointer of its key. Failing lookups, missing lookup functions and values that are no strings have to give an error without a call of that resolver. Requests go through Resolve, GET, POST and multipart batches; kept keys are compared again after further requests. Non-trivial: distinct request with at least one lookup.",
		Assume: []string{"a lookup that gives neither a file nor an error stands for nil", "the order of lookups is not specified"},
		Quick:  6000, Thorough: 150000,
		Run: c29,
	})
}

// A29 are arguments
type A29 struct {
	N    int
	File file29
}

// Root29 is the query
type Root29 struct {
	One  func(a struct{ File file29 }) string
	Two  func(a struct{ A, B file29 }, ctx *yarql.Ctx) (string, error)
	List func(a struct{ Files []file29 }) string
	Deep func(a struct {
		Deep [][]file29
		Ptr  **multipart.FileHeader
	}) string
	Obj  func(a struct{ In In29 }) string
	Objs func(a struct {
		Ins []*In29
		F   file29
		S   string
	}) string
	Split func(a struct{ A file29 }, b struct{ B []file29 }) string
	Pptr  func(a struct{ P ***multipart.FileHeader }) string
	Sub   Sub29
	Subs  []Sub29
	Plain int
}

// Sub29 has a method
type Sub29 struct {
	I int
	s *sys29
}

// ResolveUp is a resolver
func (u Sub29) ResolveUp(a A29) (string, error) {
	return u.s.call("up", []reflect.Value{reflect.ValueOf(a)}), nil
}

type outcome29 struct {
	f   file29
	err error
}

type sys29 struct {
	r     *rand.Rand
	form  map[string]outcome29
	keys  []string
	names map[file29]string

	want  []string // lookups
	calls []string
	log   []string // lookups made
	kept  []string
	args  []reflect.Value

	vars  []var29
	allow bool
	subs  int
	bad   string
	noFn  bool
}

type var29 struct {
	t    reflect.Type
	decl string
	js   string
	v    reflect.Value
	keys []string
}

func (s *sys29) show(v reflect.Value) string {
	if f, ok := v.Interface().(file29); ok {
		if f == nil {
			return "nil"
		}
		n, ok := s.names[f]
		if !ok {
			return "an unknown file"
		}
		return n
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + s.show(v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			return "nil"
		}
		var l []string
		for i := 0; i < v.Len(); i++ {
			l = append(l, s.show(v.Index(i)))
		}
		return "[" + strings.Join(l, " ") + "]"
	case reflect.Struct:
		var l []string
		for i := 0; i < v.NumField(); i++ {
			l = append(l, s.show(v.Field(i)))
		}
		return "{" + strings.Join(l, " ") + "}"
	}
	return fmt.Sprintf("%#v", v.Interface())
}

func (s *sys29) call(name string, in []reflect.Value) string {
	l := name
	for _, v := range in {
		if _, ok := v.Interface().(*yarql.Ctx); ok {
			continue
		}
		l += s.show(v)
	}
	s.calls = append(s.calls, l)
	return l
}

func (s *sys29) get(key string) (*multipart.FileHeader, error) {
	s.log = append(s.log, string([]byte(key)))
	s.kept = append(s.kept, key)
	o, ok := s.form[key]
	if !ok {
		return nil, errors.New("no such file")
	}
	return o.f, o.err
}

func (s *sys29) newForm() {
	r := s.r
	s.form = map[string]outcome29{}
	s.keys = nil
	s.names = map[file29]string{}
	for i := 0; i < 2+r.Intn(6); i++ {
		k := pick(r, "file"+itoa(i), "a", "", "FILE0", "file0 ", "é\u2028", "quote\"back\\slash", "new\nline", strings.Repeat("k", 1+r.Intn(500)), "null", "0", "\U0001F600", "file", "variables", "x.y[0]", "${a}", "<script>")
		if _, ok := s.form[k]; ok {
			continue
		}
		f := &multipart.FileHeader{Filename: "f" + itoa(i)}
		s.names[f] = "file " + strconv.Quote(k)
		s.form[k] = outcome29{f: f}
		s.keys = append(s.keys, k)
	}
	if chance(r, 3) {
		s.form["absent"] = outcome29{}
		s.keys = append(s.keys, "absent")
	}
	if chance(r, 4) && len(s.keys) > 1 {
		// the same file for two keys
		f := s.form[s.keys[0]].f
		s.form["same"] = outcome29{f: f}
		s.keys = append(s.keys, "same")
	}
	for i := 0; i < 3; i++ {
		f := &multipart.FileHeader{Filename: "bad"}
		s.names[f] = "a file that comes with an error"
		s.form["err"+itoa(i)] = outcome29{err: errors.New("failed " + itoa(i))}
		s.form["both"+itoa(i)] = outcome29{f, errors.New("both \"" + itoa(i))}
	}
}

func litString(r *rand.Rand, s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c == '\n':
			b.WriteString("\\n")
		case c < 0x10000 && chance(r, 12):
			fmt.Fprintf(&b, "\\u%04x", c)
		default:
			b.WriteRune(c)
		}
	}
	return b.String() + `"`
}

func (s *sys29) ref(t reflect.Type) string {
	if t == reflect.TypeOf(file29(nil)) {
		return pick(s.r, "File", "File", "String")
	}
	switch t.Kind() {
	case reflect.Ptr:
		return s.ref(t.Elem())
	case reflect.Slice:
		return "[" + s.ref(t.Elem()) + "]"
	case reflect.String:
		return "String"
	case reflect.Int:
		return "Int"
	}
	return t.Name()
}

// gen makes a value of t
func (s *sys29) gen(t reflect.Type, deep int, lit bool) (string, string, reflect.Value) {
	r := s.r
	if lit && chance(r, 4) {
		for i := range s.vars {
			if s.vars[i].t == t && chance(r, 2) {
				s.want = append(s.want, s.vars[i].keys...)
				return "$v" + itoa(i), "", s.vars[i].v
			}
		}
		if len(s.vars) < 8 {
			return s.newVar(t, deep)
		}
	}
	v := reflect.New(t).Elem()
	if t == reflect.TypeOf(file29(nil)) {
		if chance(r, 6) {
			return "null", "null", v
		}
		if s.allow && s.bad == "" && chance(r, 4) {
			k := pick(r, "err0", "err1", "err2", "both0", "both1", "both2", "unknown", "File", "file 0")
			if _, ok := s.form[k]; !ok || strings.HasPrefix(k, "err") || strings.HasPrefix(k, "both") {
				if chance(r, 2) {
					s.bad = "failing lookup"
					s.want = append(s.want, k)
					return litString(r, k), q.Quote(k), v
				}
			}
			s.bad = "no string"
			l := pick(r, "0", "1", "true", "false", "1.5", "[]", "{}")
			j := l
			switch r.Intn(4) {
			case 0:
				if lit {
					l, j = "file0", "[1]"
				}
			case 1:
				k := pick(r, s.keys...)
				l, j = "["+litString(r, k)+"]", "["+q.Quote(k)+"]"
			case 2:
				k := pick(r, s.keys...)
				l, j = "{name:"+litString(r, k)+"}", `{"name":`+q.Quote(k)+"}"
			}
			return l, j, v
		}
		k := pick(r, s.keys...)
		s.want = append(s.want, k)
		v.Set(reflect.ValueOf(s.form[k].f))
		return litString(r, k), q.Quote(k), v
	}
	switch t.Kind() {
	case reflect.Ptr:
		if deep <= 0 || chance(r, 6) {
			return "null", "null", v
		}
		l, j, in := s.gen(t.Elem(), deep-1, false)
		if l == "null" {
			return l, j, v
		}
		v.Set(reflect.New(t.Elem()))
		v.Elem().Set(in)
		return l, j, v
	case reflect.Slice:
		if deep <= 0 || chance(r, 6) {
			return "null", "null", v
		}
		n := r.Intn(4)
		if chance(r, 200) {
			n = 30 + r.Intn(300)
			deep = min(deep, 2)
		}
		v.Set(reflect.MakeSlice(t, 0, n))
		var ls, js []string
		for i := 0; i < n; i++ {
			l, j, in := s.gen(t.Elem(), deep-1, lit)
			ls, js = append(ls, l), append(js, j)
			v.Set(reflect.Append(v, in))
		}
		return "[" + strings.Join(ls, pick(r, ",", " ")) + "]", "[" + strings.Join(js, ",") + "]", v
	case reflect.Struct:
		var ls, js []string
		for _, i := range r.Perm(t.NumField()) {
			f := t.Field(i)
			if f.Tag.Get("gq") == "-" || !chance(r, 2) || deep <= 0 {
				continue
			}
			name := strings.ToLower(f.Name[:1]) + f.Name[1:]
			if n := f.Tag.Get("gq"); n != "" {
				name = n
			}
			l, j, in := s.gen(f.Type, deep-1, lit)
			ls, js = append(ls, name+":"+l), append(js, strconv.Quote(name)+":"+j)
			v.Field(i).Set(in)
		}
		return "{" + strings.Join(ls, pick(r, ",", " ")) + "}", "{" + strings.Join(js, ",") + "}", v
	case reflect.String:
		x := pick(r, "", "file0", "name")
		v.SetString(x)
		return litString(r, x), q.Quote(x), v
	case reflect.Int:
		v.SetInt(7)
		return "7", "7", v
	}
	panic(t.String())
}

func (s *sys29) newVar(t reflect.Type, deep int) (string, string, reflect.Value) {
	r := s.r
	i := len(s.vars)
	s.vars = append(s.vars, var29{})
	was := len(s.want)
	l, j, v := s.gen(t, deep, false)
	x := var29{t: t, v: v, keys: append([]string{}, s.want[was:]...)}
	x.decl = "$v" + itoa(i) + ":" + s.ref(t)
	switch {
	case chance(r, 3) && s.bad != "no string":
		x.decl += "=" + l
	default:
		x.js = j
		if j != "null" && chance(r, 4) {
			x.decl += "!"
		}
		if chance(r, 4) && s.bad == "" {
			// a default that is not used
			n, b, a := len(s.want), s.bad, s.allow
			s.allow = false
			l, _, _ := s.gen(t, 2, false)
			s.want, s.bad, s.allow = s.want[:n], b, a
			x.decl += "=" + l
		}
	}
	if s.bad != "" {
		// not to be used again
		x.t = nil
	}
	s.vars[i] = x
	return "$v" + itoa(i), "", v
}

func c29(t *run.T) {
	r := t.R
	s := &sys29{r: r}
	root := Root29{Sub: Sub29{1, s}, Subs: []Sub29{{2, s}, {3, s}}[:r.Intn(3)]}
	s.subs = len(root.Subs)
	rv := reflect.ValueOf(&root).Elem()
	var names []string
	for i := 0; i < rv.NumField(); i++ {
		f := rv.Field(i)
		if f.Kind() != reflect.Func {
			continue
		}
		n := strings.ToLower(rv.Type().Field(i).Name)
		names = append(names, n)
		f.Set(reflect.MakeFunc(f.Type(), func(in []reflect.Value) []reflect.Value {
			res := []reflect.Value{reflect.ValueOf(s.call(n, in))}
			if f.Type().NumOut() > 1 {
				res = append(res, reflect.Zero(f.Type().Out(1)))
			}
			return res
		}))
	}
	sc := yarql.NewSchema()
	if err := sc.RegisterDirective(yarql.Directive{Name: "up", Where: []yarql.DirectiveLocation{yarql.DirectiveLocationField, yarql.DirectiveLocationFragmentInline}, Method: func(a A29) yarql.DirectiveModifier {
		s.call("@up", []reflect.Value{reflect.ValueOf(a)})
		return yarql.DirectiveModifier{}
	}}); err != nil {
		t.Fail(err.Error(), "")
		return
	}
	if err := sc.Parse(root, uni.M1{}, nil); err != nil {
		t.Fail("a valid schema is refused: "+err.Error(), err.Error())
		return
	}
	c := &core.Case{R: r, W: &uni.World{}}
	var kept []string
	for k := 0; k < 6; k++ {
		s.newForm()
		n := 1
		if chance(r, 5) {
			n = 1 + r.Intn(3)
		}
		s.log, s.kept, s.calls = nil, nil, nil
		s.bad = ""
		s.noFn = chance(r, 15)
		s.allow = chance(r, 3)
		var texts, varTexts, ops []string
		var wantData []map[string]string
		var wantCalls, wantLook []string
		var mayLook []string
		for b := 0; b < n; b++ {
			s.vars, s.want = nil, nil
			text, op, data, calls := s.query(names)
			wantCalls = append(wantCalls, calls...)
			wantLook = append(wantLook, s.want...)
			mayLook = append(mayLook, s.want...)
			var vs []string
			for i, v := range s.vars {
				if v.js != "" {
					vs = append(vs, fmt.Sprintf(`"v%d":%s`, i, v.js))
				}
			}
			if chance(r, 6) {
				vs = append(vs, `"other":"file0"`)
			}
			texts = append(texts, text)
			ops = append(ops, op)
			varTexts = append(varTexts, "{"+strings.Join(vs, ",")+"}")
			wantData = append(wantData, data)
		}
		fn := s.get
		if s.noFn {
			fn = nil
			if len(wantLook) > 0 && s.bad == "" {
				s.bad = "no lookup function"
			}
		}
		raw, errs, via := s.send(sc, c, n, texts, varTexts, ops, fn)
		t.Eval(n)
		t.Count("sent as "+via, 1)
		t.Count("lookups", len(s.log))
		if len(s.log) > 0 {
			t.NonTrivial(texts, varTexts)
		}
		detail := fmt.Sprintf("query: %q\nvariables: %q\noperation: %q\nvia: %s\nlookups wanted: %q\nlookups: %q\ncalls wanted: %q\ncalls: %q\nresponse: %s\nerrors: %q\nwrong: %s\nlookup function: %v", texts, varTexts, ops, via, wantLook, s.log, wantCalls, s.calls, raw, errs, s.bad, !s.noFn)
		for i, k := range s.kept {
			if k != s.log[i] {
				t.Failf(detail, "the key of a lookup changes afterwards: %q, was %q", k, s.log[i])
			}
		}
		if s.bad != "" {
			t.Count("refused: "+s.bad, 1)
			if len(errs) == 0 {
				t.Fail("no error: "+s.bad, detail)
			}
			if extra := minus29(s.log, mayLook); len(extra) > 0 {
				t.Failf(detail, "lookups of keys that no argument names: %q", extra)
			}
			if extra := minus29(s.calls, wantCalls); len(extra) > 0 {
				t.Failf(detail, "calls that should not be made: %q", extra)
			}
		} else {
			if len(errs) > 0 {
				t.Fail("refused: "+errs[0], detail)
			} else if a, b := sorted29(s.log), sorted29(wantLook); strings.Join(a, "\x00") != strings.Join(b, "\x00") || len(a) != len(b) {
				t.Fail("other lookups", detail)
			} else if strings.Join(s.calls, "\n") != strings.Join(wantCalls, "\n") {
				t.Fail("other calls", detail)
			} else if d := data29(raw, wantData, n); d != "" {
				t.Fail("data: "+d, detail)
			}
			if t.WantSample() && len(s.log) > 0 {
				t.Sample("%s %s -> %q", clip(texts[0], 300), clip(varTexts[0], 200), s.calls)
			}
		}
		for i := range s.kept {
			kept = append(kept, s.kept[i], s.log[i])
		}
		for i := 0; i < len(kept); i += 2 {
			if kept[i] != kept[i+1] {
				t.Failf(detail, "the key of an earlier lookup changed: %q, was %q", kept[i], kept[i+1])
				return
			}
		}
		if t.Failed() {
			return
		}
	}
}

func sorted29(l []string) []string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return l
}

// minus29 lists what of a is not in b
func minus29(a, b []string) []string {
	n := map[string]int{}
	for _, x := range b {
		n[x]++
	}
	var l []string
	for _, x := range a {
		if n[x]--; n[x] < 0 {
			l = append(l, x)
		}
	}
	return l
}

func data29(raw string, want []map[string]string, n int) string {
	j, err := q.ParseJSON(raw)
	if err != nil {
		return err.Error()
	}
	items := []*q.J{j}
	if j.K == 'a' {
		items = j.A
	}
	if len(items) != n {
		return "another number of results"
	}
	for i, w := range want {
		d := items[i].Get("data")
		for k, v := range w {
			x := d
			for _, p := range strings.Split(k, ".") {
				if m, err := strconv.Atoi(p); err == nil {
					if x == nil || m >= len(x.A) {
						return k + " is missing"
					}
					x = x.A[m]
				} else {
					x = x.Get(p)
				}
			}
			if x == nil || x.K != 's' || x.S != v {
				return fmt.Sprintf("%s is not %q", k, v)
			}
		}
	}
	return ""
}

// query makes an operation
func (s *sys29) query(names []string) (text, op string, data map[string]string, calls []string) {
	r := s.r
	data = map[string]string{}
	var sel, frags []string
	rt := reflect.TypeOf(Root29{})
	args := func(ts ...reflect.Type) (string, []reflect.Value) {
		var l []string
		var vs []reflect.Value
		for _, t := range ts {
			if t == reflect.TypeOf(&yarql.Ctx{}) {
				continue
			}
			v := reflect.New(t).Elem()
			for _, i := range r.Perm(t.NumField()) {
				if chance(r, 6) {
					continue
				}
				n := t.Field(i).Name
				x, _, got := s.gen(t.Field(i).Type, 4, true)
				l = append(l, strings.ToLower(n[:1])+n[1:]+":"+x)
				v.Field(i).Set(got)
			}
			vs = append(vs, v)
		}
		if len(l) == 0 {
			return "", vs
		}
		return "(" + strings.Join(l, pick(r, ",", " ", ", ")) + ")", vs
	}
	one := func(name string, vs []reflect.Value) string {
		l := name
		for _, v := range vs {
			l += s.show(v)
		}
		return l
	}
	// unseen generates something that is never resolved
	unseen := func(f func() string) string {
		n, a := len(s.want), s.allow
		nv := len(s.vars)
		s.allow = false
		x := f()
		s.want, s.allow = s.want[:n], a
		_ = nv
		return x
	}
	argsOf := func(n string) (string, []reflect.Value) {
		f, _ := rt.FieldByName(strings.ToUpper(n[:1]) + n[1:])
		var ins []reflect.Type
		for i := 0; i < f.Type.NumIn(); i++ {
			ins = append(ins, f.Type.In(i))
		}
		return args(ins...)
	}
	for i := 0; i < 1+r.Intn(4); i++ {
		key := "k" + itoa(i)
		was := s.bad
		switch r.Intn(10) {
		case 0:
			// on a directive
			a, vs := args(reflect.TypeOf(A29{}))
			sel = append(sel, key+":plain@up"+a)
			if s.bad == was {
				calls = append(calls, one("@up", vs))
			}
		case 1:
			a, vs := args(reflect.TypeOf(A29{}))
			sel = append(sel, "..."+" on Root29 @up"+a+"{"+key+":plain}")
			if s.bad == was {
				calls = append(calls, one("@up", vs))
			}
		case 2:
			// skipped
			n := pick(r, names...)
			sel = append(sel, unseen(func() string {
				a, _ := argsOf(n)
				return key + ":" + n + a + pick(r, "@skip(if:true)", "@include(if:false)")
			}))
		case 3:
			// a fragment on another type
			sel = append(sel, unseen(func() string {
				a, _ := args(reflect.TypeOf(A29{}))
				if chance(r, 2) {
					frags = append(frags, "fragment X"+itoa(i)+" on Sub29{up"+a+"}")
					return "...X" + itoa(i)
				}
				return "...on Sub29{up" + a + "}"
			}))
		case 5:
			// once for every item
			n, b := len(s.want), s.bad
			a, vs := args(reflect.TypeOf(A29{}))
			sel = append(sel, key+":subs{up"+a+"}")
			if s.subs == 0 {
				// not resolved at all
				s.want, s.bad = s.want[:n], b
				break
			}
			keys := append([]string{}, s.want[n:]...)
			for k := 0; k < s.subs; k++ {
				if k > 0 {
					s.want = append(s.want, keys...)
				}
				if s.bad == was {
					calls = append(calls, one("up", vs))
					data[key+"."+itoa(k)+".up"] = one("up", vs)
				}
			}
		case 4:
			a, vs := args(reflect.TypeOf(A29{}))
			sel = append(sel, key+":sub{up"+a+"}")
			if s.bad == was {
				calls = append(calls, one("up", vs))
				data[key+".up"] = one("up", vs)
			}
		default:
			n := pick(r, names...)
			a, vs := argsOf(n)
			x := key + ":" + n + a
			if chance(r, 6) {
				frags = append(frags, "fragment Y"+itoa(i)+" on Root29{"+x+"}")
				x = "...Y" + itoa(i)
			}
			sel = append(sel, x)
			if s.bad == was {
				calls = append(calls, one(n, vs))
				data[key] = one(n, vs)
			}
		}
	}
	if chance(r, 5) {
		// an unused variable
		unseen(func() string { s.newVar(reflect.TypeOf(file29(nil)), 3); return "" })
	}
	head := ""
	var decl []string
	for _, v := range s.vars {
		decl = append(decl, v.decl)
	}
	if len(decl) > 0 {
		head = "query Q(" + strings.Join(decl, ",") + ")"
	}
	parts := append([]string{head + "{" + strings.Join(sel, pick(r, " ", ",", "\n")) + "}"}, frags...)
	if chance(r, 6) {
		if head == "" {
			parts[0] = "query Q" + parts[0]
		}
		op = "Q"
		parts = append(parts, `query Other($a:File="file0"){one(file:$a) two(a:"file0" b:"a")}`)
	}
	r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	return strings.Join(parts, " "), op, data, calls
}

// send makes the request one way or another
func (s *sys29) send(sc *yarql.Schema, c *core.Case, n int, texts, vars, ops []string, fn func(string) (*multipart.FileHeader, error)) (string, []string, string) {
	r := s.r
	opts := &yarql.RequestOptions{GetFormFile: fn}
	var raw []byte
	var errs []error
	via := ""
	str := func(e []error) (l []string) {
		for _, x := range e {
			l = append(l, x.Error())
		}
		return
	}
	get := func(k string) string {
		switch k {
		case "query":
			return texts[0]
		case "variables":
			return vars[0]
		case "operationName":
			return ops[0]
		}
		return ""
	}
	mode := r.Intn(4)
	if n > 1 {
		mode = 2 + r.Intn(2)
	}
	switch mode {
	case 0:
		via = "Resolve"
		errs = sc.Resolve([]byte(texts[0]), yarql.ResolveOptions{Variables: vars[0], OperatorTarget: ops[0], GetFormFile: fn})
		raw = sc.Result
	case 1:
		via = "GET"
		raw, errs = sc.HandleRequest("GET", get, nil, nil, "", opts)
	default:
		var l []json.RawMessage
		for i := range texts {
			m := map[string]interface{}{"query": texts[i], "variables": json.RawMessage(vars[i])}
			if ops[i] != "" {
				m["operationName"] = ops[i]
			}
			b, _ := json.Marshal(m)
			l = append(l, b)
		}
		body := []byte(l[0])
		via = "single "
		if n > 1 || chance(r, 5) {
			body, _ = json.Marshal(l)
			via = "batch "
		}
		if mode == 2 {
			via += "POST"
			raw, errs = sc.HandleRequest("POST", get, nil, func() []byte { return body }, "application/json", opts)
		} else {
			via += "form"
			raw, errs = sc.HandleRequest("post", get, func(k string) (string, error) {
				if k != "operations" {
					return "", errors.New("no field " + k)
				}
				return string(body), nil
			}, nil, "multipart/form-data", opts)
		}
	}
	return string(raw), str(errs), via
}
