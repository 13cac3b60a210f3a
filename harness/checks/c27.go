package checks

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/run"
	"vh/uni"
)

// One type of every kind an enum can have
type (
	E27Int    int
	E27Int8   int8
	E27Int16  int16
	E27Int32  int32
	E27Int64  int64
	E27Uint   uint
	E27Uint8  uint8
	E27Uint16 uint16
	E27Uint32 uint32
	E27Uint64 uint64
	E27String string
	E27Str    string
	E27I      int
	E27U      uint8
)

var types27 = []reflect.Type{
	reflect.TypeOf(E27Int(0)), reflect.TypeOf(E27Int8(0)), reflect.TypeOf(E27Int16(0)), reflect.TypeOf(E27Int32(0)), reflect.TypeOf(E27Int64(0)),
	reflect.TypeOf(E27Uint(0)), reflect.TypeOf(E27Uint8(0)), reflect.TypeOf(E27Uint16(0)), reflect.TypeOf(E27Uint32(0)), reflect.TypeOf(E27Uint64(0)),
	reflect.TypeOf(E27String("")), reflect.TypeOf(E27Str("")), reflect.TypeOf(E27I(0)), reflect.TypeOf(E27U(0)),
}

// twins27 are other types of the same names
var twins27 = func() []reflect.Type {
	type (
		E27Int    int
		E27Uint8  uint8
		E27String string
		E27I      int64
		E27U      string
	)
	return []reflect.Type{reflect.TypeOf(E27Int(0)), reflect.TypeOf(E27Uint8(0)), reflect.TypeOf(E27String("")), reflect.TypeOf(E27I(0)), reflect.TypeOf(E27U(""))}
}()

// In27 has a field of every type
type In27 struct {
	A  E27Int
	B  *E27Int8
	C  []E27Int16
	D  E27Int32
	E  []*E27Int64
	F  *E27Uint
	G  []E27Uint8
	H  E27Uint16
	I  E27Uint32
	J  *[]E27Uint64
	K  E27String
	L  *E27Str
	M  [][]E27I
	N  E27U
	In *In27
	Li []In27
}

func init() {
	add(&run.Check{
		ID:     "C27",
		Rule:   "Per case every named integer and string type (all kinds) is registered with a random map (random keys, prefixes of and case variants of one another, extreme values) or left unregistered, sometimes with other types of the same names beside them, among refused registrations (empty and nil maps, other kinds, bad keys, repeated types) and changes of the map after its registration. Random values in all positions (fields, pointers, lists, lists of lists, function results, echoed arguments) are selected, and random values are given as literals, strings, variables and defaults for arguments, lists, pointers and fields of recursive input objects. The harness maps keys and values itself and compares the response and the Go values which the resolvers got. Unknown keys (of another case, prefixes, extensions, keys of other enums, the Go value, numbers, booleans, lists, objects, variables of other enums) have to be refused without a call. Same on copies; __type has to list exactly the keys. Non-trivial: distinct query with its registrations.",
		Assume: []string{"a key in quotes is accepted like the bare one", "two keys of one value are not given", "unregistered types behave as their kind"},
		Quick:  4000, Thorough: 120000,
		Run: c27,
	})
}

// enum27 is a registered enum
type enum27 struct {
	t    reflect.Type
	keys []string
	vals []reflect.Value
}

func (e *enum27) key(v reflect.Value) (string, bool) {
	for i, o := range e.vals {
		if o.Interface() == v.Interface() {
			return e.keys[i], true
		}
	}
	return "", false
}

func (e *enum27) has(k string) bool {
	for _, o := range e.keys {
		if o == k {
			return true
		}
	}
	return false
}

type sys27 struct {
	r     *rand.Rand
	enums map[reflect.Type]*enum27
	all   []*enum27
	bad   bool // something in the value is to be refused
	allow bool // whether to put in something bad
	vars  []string
	decl  []string
	nBad  string
}

func key27(r *rand.Rand) string {
	first := "abcxyzABCXYZ"
	rest := first + "019_"
	if chance(r, 5) {
		return pick(r, "on", "query", "fragment", "mutation", "True", "FALSE", "nul", "nulls", "trueX", "truefalse", "NULL", "type", "e5", "E", "Infinity", "t", "n", "f", "subscription", "skip", "String", "Int", "E27Int", "E27Str")
	}
	b := []byte{first[r.Intn(len(first))]}
	n := r.Intn(6)
	if chance(r, 20) {
		n = 20 + r.Intn(90)
	}
	for i := 0; i < n; i++ {
		b = append(b, rest[r.Intn(len(rest))])
	}
	return string(b)
}

func flipCase(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		} else if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func val27(r *rand.Rand, t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		v.SetString(pick(r, "", "a", "A", key27(r), "with space", "\"quoted\"\n", "é", "\x00", "true", "null", "0", key27(r)))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := pick(r, 0, 1, -1, int64(r.Intn(20)-10), math.MaxInt64, math.MinInt64, 255, 256, -128, 65536, 1<<32, int64(r.Uint64()), int64(r.Uint64()))
		// keep the low bits
		n := uint(64 - t.Bits())
		v.SetInt(x << n >> n)
	default:
		x := pick(r, 0, 1, uint64(r.Intn(20)), math.MaxUint64, 255, 256, 1<<63, 1<<32, 65536, r.Uint64(), r.Uint64())
		n := uint(64 - t.Bits())
		v.SetUint(x << n >> n)
	}
	return v
}

// makeEnum makes a random registration
func (s *sys27) makeEnum(t reflect.Type) (*enum27, interface{}) {
	r := s.r
	e := &enum27{t: t}
	m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t))
	n := 1 + r.Intn(6)
	if chance(r, 10) {
		n = 50
	}
	if chance(r, 60) {
		n = 100 + r.Intn(1200)
	}
	for i := 0; i < n; i++ {
		k := key27(r)
		if n > 50 {
			k += "_" + itoa(i)
		}
		if len(e.keys) > 0 && chance(r, 2) && (n <= 50 || chance(r, 6)) {
			o := pick(r, e.keys...)
			k = pick(r, o+"_", o+"1", o[:1+r.Intn(len(o))], flipCase(o), o+o, strings.ToLower(o))
		}
		if len(s.all) > 0 && chance(r, 4) && (n <= 50 || chance(r, 6)) {
			k = pick(r, pick(r, s.all...).keys...)
		}
		v := val27(r, t)
		if n > 50 && !chance(r, 6) {
			v = reflect.New(t).Elem()
			switch {
			case t.Kind() == reflect.String:
				v.SetString("value " + itoa(i))
			case t.Bits() == 8 && t.Kind() <= reflect.Int64:
				v.SetInt(int64(int8(i)))
			case t.Kind() <= reflect.Int64:
				v.SetInt(int64(i))
			case t.Bits() == 8:
				v.SetUint(uint64(uint8(i)))
			default:
				v.SetUint(uint64(i))
			}
		}
		if _, twice := e.key(v); twice || len(k) > 250 || e.has(k) || k == "true" || k == "false" || k == "null" {
			continue
		}
		e.keys = append(e.keys, k)
		e.vals = append(e.vals, v)
		m.SetMapIndex(reflect.ValueOf(k), v)
	}
	if len(e.keys) == 0 {
		e.keys, e.vals = []string{"ONLY"}, []reflect.Value{val27(r, t)}
		m.SetMapIndex(reflect.ValueOf("ONLY"), e.vals[0])
	}
	return e, m.Interface()
}

type float27 float64
type bool27 bool

// refused27 are maps that cannot be registered
func refused27(r *rand.Rand) interface{} {
	return pick[interface{}](r,
		nil, 1, "a", []E27Int{1}, map[string]int{"A": 1}, map[string]string{"A": "a"}, map[E27Int]E27Int{1: 1}, map[string]float27{"A": 1}, map[string]bool27{"A": true},
		map[string]*E27Int{"A": nil}, map[string]E27Int{"": 1}, map[string]E27Int{"A": 1, "B-C": 2}, map[string]E27Int{"1A": 1}, map[string]E27Int{"_A": 1}, map[string]E27Int{"é": 1},
		map[string]E27Int{"true": 1}, map[string]E27Int{"false": 0, "A": 2}, map[string]E27String{"null": "null"}, map[string]E27Int(nil), map[string]E27Int{"A B": 1}, map[string]E27Uint8{"A ": 1}, map[string][]E27Int{"A": nil}, struct{ A int }{1})
}

// typeRef is the type a variable for t has
func (s *sys27) typeRef(t reflect.Type) string {
	switch t.Kind() {
	case reflect.Ptr:
		return s.typeRef(t.Elem())
	case reflect.Slice:
		return "[" + s.typeRef(t.Elem()) + "]"
	case reflect.Struct:
		return t.Name()
	}
	if s.enums[t] != nil {
		return t.Name()
	}
	if t.Kind() == reflect.String {
		return "String"
	}
	return "Int"
}

// gen makes a value of t: its literal, its JSON and the Go value it stands for
func (s *sys27) gen(t reflect.Type, deep int, lit bool) (string, string, reflect.Value) {
	r := s.r
	if lit && len(s.vars) < 6 && chance(r, 6) {
		// through a variable
		name := "v" + itoa(len(s.vars))
		at := len(s.vars)
		s.vars = append(s.vars, "")
		if chance(r, 3) {
			// by default
			l, _, v := s.gen2(t, deep, false)
			s.decl = append(s.decl, "$"+name+":"+s.typeRef(t)+"="+l)
			return "$" + name, "", v
		}
		_, j, v := s.gen2(t, deep, false)
		ref := s.typeRef(t)
		if s.allow && !s.bad && chance(r, 8) {
			if e := s.enums[t]; e != nil && len(s.all) > 1 {
				o := pick(r, s.all...)
				if o != e {
					s.bad, s.nBad = true, "variable of another enum"
					ref = o.t.Name()
				}
			}
		} else if j != "null" && chance(r, 3) {
			ref += "!"
		}
		s.decl = append(s.decl, "$"+name+":"+ref)
		s.vars[at] = strconv.Quote(name) + ":" + j
		return "$" + name, "", v
	}
	return s.gen2(t, deep, lit)
}

func (s *sys27) gen2(t reflect.Type, deep int, lit bool) (string, string, reflect.Value) {
	r := s.r
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Ptr:
		if deep <= 0 || chance(r, 5) {
			return "null", "null", v
		}
		l, j, in := s.gen2(t.Elem(), deep, lit)
		if l != "null" {
			v.Set(reflect.New(t.Elem()))
			v.Elem().Set(in)
		}
		return l, j, v
	case reflect.Slice:
		if deep <= 0 || chance(r, 8) {
			return "null", "null", v
		}
		n := r.Intn(4)
		v.Set(reflect.MakeSlice(t, 0, n))
		var ls, js []string
		for i := 0; i < n; i++ {
			l, j, in := s.gen(t.Elem(), deep-1, lit)
			ls, js = append(ls, l), append(js, j)
			v.Set(reflect.Append(v, in))
		}
		return "[" + strings.Join(ls, pick(r, ",", " ", ", ")) + "]", "[" + strings.Join(js, ",") + "]", v
	case reflect.Struct:
		if deep <= 0 {
			return "{}", "{}", v
		}
		var ls, js []string
		for _, i := range r.Perm(t.NumField()) {
			if !chance(r, 3) {
				continue
			}
			name := strings.ToLower(t.Field(i).Name[:1]) + t.Field(i).Name[1:]
			l, j, in := s.gen(t.Field(i).Type, deep-1, lit)
			ls, js = append(ls, name+":"+l), append(js, strconv.Quote(name)+":"+j)
			v.Field(i).Set(in)
		}
		return "{" + strings.Join(ls, pick(r, ",", " ", ", ")) + "}", "{" + strings.Join(js, ",") + "}", v
	}
	e := s.enums[t]
	if e == nil {
		// as its kind
		if t.Kind() == reflect.String {
			x := pick(r, "", "A", "x y", key27(r))
			v.SetString(x)
			return strconv.Quote(x), strconv.Quote(x), v
		}
		x := r.Intn(100)
		if s.allow && !s.bad && chance(r, 12) && len(s.all) > 0 {
			s.bad, s.nBad = true, "key for another type"
			k := pick(r, pick(r, s.all...).keys...)
			return k, strconv.Quote(k), v
		}
		v.Set(reflect.ValueOf(x).Convert(t))
		return itoa(x), itoa(x), v
	}
	if s.allow && !s.bad && chance(r, 3) {
		l, j, what := s.wrong(e)
		if l != "" {
			s.bad, s.nBad = true, what
			return l, j, v
		}
	}
	if chance(r, 12) {
		return "null", "null", v
	}
	i := r.Intn(len(e.keys))
	v.Set(e.vals[i])
	k := e.keys[i]
	l := k
	if chance(r, 6) {
		l = strconv.Quote(k)
	}
	j := strconv.Quote(k)
	if chance(r, 4) {
		// escaped
		at := r.Intn(len(k))
		j = fmt.Sprintf("\"%s\\u%04x%s\"", k[:at], k[at], k[at+1:])
	}
	return l, j, v
}

// wrong makes something that is no key of e
func (s *sys27) wrong(e *enum27) (lit, js, what string) {
	r := s.r
	k := pick(r, e.keys...)
	v := pick(r, e.vals...)
	bare := func(k, what string) (string, string, string) {
		if k == "" || e.has(k) || k == "true" || k == "false" || k == "null" {
			return "", "", ""
		}
		if chance(r, 5) {
			return strconv.Quote(k), strconv.Quote(k), what
		}
		return k, strconv.Quote(k), what
	}
	switch r.Intn(12) {
	case 0:
		return bare(key27(r), "unknown key")
	case 1:
		return bare(flipCase(k), "key in another case")
	case 2:
		return bare(k[:r.Intn(len(k))], "prefix")
	case 3:
		return bare(k+pick(r, "_", "A", "0", k), "extension")
	case 4:
		return bare(pick(r, pick(r, s.all...).keys...), "key of another enum")
	case 5:
		return bare(k[1:]+k[:1], "rotated key")
	case 6:
		x := pick(r, "true", "false")
		return x, x, "boolean"
	case 7:
		if v.Kind() == reflect.String {
			if e.has(v.String()) || strings.Contains(v.String(), "\x00") {
				return "", "", ""
			}
			return strconv.Quote(v.String()), strconv.Quote(v.String()), "the Go value"
		}
		x := fmt.Sprint(v.Interface())
		return x, x, "the Go value"
	case 8:
		x := pick(r, "0", "1", "1.0", "-1", "2.5e3")
		return x, x, "number"
	case 9:
		x := pick(r, "", " ", k+" ", " "+k, k+",", "\""+k, k+"\n")
		return strconv.Quote(x), strconv.Quote(x), "string around the key"
	case 10:
		return "[" + k + "]", "[" + strconv.Quote(k) + "]", "list"
	default:
		return "{" + k + ":" + k + "}", "{" + strconv.Quote(k) + ":1}", "object"
	}
}

// out is what a value is output as
func (s *sys27) out(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "null"
		}
		return s.out(v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			return "null"
		}
		var l []string
		for i := 0; i < v.Len(); i++ {
			l = append(l, s.out(v.Index(i)))
		}
		return "[" + strings.Join(l, ",") + "]"
	}
	if e := s.enums[v.Type()]; e != nil {
		if k, ok := e.key(v); ok {
			return strconv.Quote(k)
		}
		return "null"
	}
	if v.Kind() == reflect.String {
		return strconv.Quote(v.String())
	}
	return fmt.Sprint(v.Interface())
}

// fill makes a random value to output
func (s *sys27) fill(t reflect.Type, deep int) reflect.Value {
	r := s.r
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Ptr:
		if !chance(r, 4) {
			v.Set(reflect.New(t.Elem()))
			v.Elem().Set(s.fill(t.Elem(), deep))
		}
		return v
	case reflect.Slice:
		if chance(r, 6) {
			return v
		}
		v.Set(reflect.MakeSlice(t, 0, 0))
		for n := r.Intn(4); n > 0; n-- {
			v.Set(reflect.Append(v, s.fill(t.Elem(), deep-1)))
		}
		return v
	}
	e := s.enums[t]
	if e == nil {
		if t.Kind() == reflect.String {
			v.SetString(pick(r, "", "A", "x y"))
		} else {
			v.Set(reflect.ValueOf(r.Intn(100)).Convert(t))
		}
		return v
	}
	switch r.Intn(4) {
	case 0:
		return val27(r, t)
	case 1:
		if t.Kind() == reflect.String {
			v.SetString(pick(r, e.keys...) + pick(r, "", "", "x"))
			return v
		}
	}
	return pick(r, e.vals...)
}

func show27(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + show27(v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			return "nil"
		}
		var l []string
		for i := 0; i < v.Len(); i++ {
			l = append(l, show27(v.Index(i)))
		}
		return "[" + strings.Join(l, " ") + "]"
	case reflect.Struct:
		var l []string
		for i := 0; i < v.NumField(); i++ {
			l = append(l, show27(v.Field(i)))
		}
		return "{" + strings.Join(l, " ") + "}"
	}
	return fmt.Sprintf("%#v", v.Interface())
}

func c27(t *run.T) {
	r := t.R
	s := &sys27{r: r, enums: map[reflect.Type]*enum27{}}
	sc := yarql.NewSchema()
	var reg []string
	types := append([]reflect.Type{}, types27...)
	for _, tw := range twins27 {
		if chance(r, 4) {
			types = append(types, tw)
		}
	}
	named := map[string]bool{}
	for _, i := range r.Perm(len(types)) {
		if chance(r, 3) {
			x := refused27(r)
			added, err := sc.RegisterEnum(x)
			if added || err == nil {
				t.Failf(fmt.Sprintf("%T %v", x, x), "RegisterEnum(%T %v) gives %v, %v", x, x, added, err)
			}
			t.Count("refused registrations", 1)
		}
		if chance(r, 10) {
			added, err := sc.RegisterEnum(reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), types[i])).Interface())
			if added || err != nil {
				t.Failf("", "an empty map: %v, %v", added, err)
			}
		}
		if chance(r, 4) {
			t.Count("unregistered types", 1)
			continue
		}
		e, m := s.makeEnum(types[i])
		added, err := sc.RegisterEnum(m)
		if named[types[i].Name()] {
			t.Count("equal names", 1)
			if added || err == nil {
				t.Failf(fmt.Sprintf("%T", m), "a second enum of the same name is registered: %v, %v", added, err)
				return
			}
			continue
		}
		named[types[i].Name()] = true
		if !added || err != nil {
			t.Failf(fmt.Sprintf("%T %v", m, m), "RegisterEnum(%T %v) gives %v, %v", m, m, added, err)
			return
		}
		s.enums[e.t] = e
		s.all = append(s.all, e)
		reg = append(reg, fmt.Sprintf("%T%v", m, m))
		t.Count("registrations", 1)
		t.Count("keys registered", len(e.keys))
		t.Max("keys of an enum of "+e.t.Kind().String(), len(e.keys))
		if chance(r, 3) {
			// the map is the caller's
			mv := reflect.ValueOf(m)
			mv.SetMapIndex(reflect.ValueOf("LATER"), val27(r, e.t))
			mv.SetMapIndex(reflect.ValueOf(e.keys[0]), val27(r, e.t))
		}
		if chance(r, 5) {
			// twice
			o := &sys27{r: r}
			_, m2 := o.makeEnum(e.t)
			if added, err := sc.RegisterEnum(m2); added || err == nil {
				t.Failf("", "the same type is registered twice: %T, %v, %v", m2, added, err)
			}
		}
	}

	// the root
	type arg struct {
		name string
		t    reflect.Type
	}
	var calls []string
	var fs []reflect.StructField
	outs := map[string]reflect.Type{}
	var outNames []string
	funcs := map[string][]arg{}
	var funcNames []string
	results := map[string]reflect.Type{}
	wrap := func(b reflect.Type) reflect.Type {
		switch r.Intn(8) {
		case 0, 1:
			return b
		case 2:
			return reflect.PtrTo(b)
		case 3:
			return reflect.SliceOf(b)
		case 4:
			return reflect.SliceOf(reflect.PtrTo(b))
		case 5:
			return reflect.SliceOf(reflect.SliceOf(b))
		case 6:
			return reflect.PtrTo(reflect.SliceOf(b))
		}
		return reflect.SliceOf(reflect.PtrTo(reflect.SliceOf(reflect.PtrTo(b))))
	}
	base := func() reflect.Type { return pick(r, types...) }
	for i := 0; i < 8; i++ {
		name := "Out" + itoa(i)
		ft := wrap(base())
		outs["out"+itoa(i)] = ft
		outNames = append(outNames, "out"+itoa(i))
		if chance(r, 3) {
			ft = reflect.FuncOf(nil, []reflect.Type{ft}, false)
		} else if chance(r, 4) {
			ft = reflect.FuncOf(nil, []reflect.Type{ft, reflect.TypeOf((*error)(nil)).Elem()}, false)
		}
		fs = append(fs, reflect.StructField{Name: name, Type: ft})
	}
	for i := 0; i < 4; i++ {
		name := "call" + itoa(i)
		var args []arg
		var as []reflect.StructField
		for k := 0; k < 1+r.Intn(4); k++ {
			at := wrap(base())
			if chance(r, 4) {
				at = pick(r, reflect.TypeOf(In27{}), reflect.TypeOf(&In27{}), reflect.TypeOf([]In27{}))
			}
			args = append(args, arg{"arg" + itoa(k), at})
			as = append(as, reflect.StructField{Name: "Arg" + itoa(k), Type: at})
		}
		funcs[name] = args
		funcNames = append(funcNames, name)
		out := reflect.TypeOf("")
		for _, a := range args {
			b := a.t
			for b.Kind() == reflect.Ptr || b.Kind() == reflect.Slice {
				b = b.Elem()
			}
			if b.Kind() != reflect.Struct {
				out = a.t
			}
		}
		results[name] = out
		fs = append(fs, reflect.StructField{Name: "Call" + itoa(i), Type: reflect.FuncOf([]reflect.Type{reflect.StructOf(as)}, []reflect.Type{out}, false)})
	}
	root := reflect.New(reflect.StructOf(fs)).Elem()
	vals := map[string]reflect.Value{}
	for i, n := range outNames {
		v := s.fill(outs[n], 3)
		vals[n] = v
		f := root.Field(i)
		if f.Kind() == reflect.Func {
			res := []reflect.Value{v}
			if f.Type().NumOut() == 2 {
				res = append(res, reflect.Zero(f.Type().Out(1)))
			}
			f.Set(reflect.MakeFunc(f.Type(), func([]reflect.Value) []reflect.Value { return res }))
		} else {
			f.Set(v)
		}
	}
	for i, n := range funcNames {
		n := n
		f := root.Field(len(outNames) + i)
		f.Set(reflect.MakeFunc(f.Type(), func(in []reflect.Value) []reflect.Value {
			calls = append(calls, n+show27(in[0]))
			for k := len(funcs[n]) - 1; k >= 0; k-- {
				if funcs[n][k].t == results[n] {
					return []reflect.Value{in[0].Field(k)}
				}
			}
			return []reflect.Value{reflect.ValueOf("ok")}
		}))
	}
	if err := sc.Parse(root.Interface(), uni.M1{}, nil); err != nil {
		t.Fail("a valid schema is refused: "+err.Error(), strings.Join(reg, "\n"))
		return
	}
	if chance(r, 10) {
		if added, err := sc.RegisterEnum(map[string]E27Int{"A": 1}); added || err == nil {
			t.Fail("an enum is registered after Parse", "")
		}
	}
	c := &core.Case{R: r, W: &uni.World{}}
	use := sc
	for k := 0; k < 6; k++ {
		if chance(r, 3) {
			use = sc.Copy()
		}
		s.bad, s.nBad, s.vars, s.decl = false, "", nil, nil
		s.allow = chance(r, 2)
		var sel []string
		want := map[string]string{}
		var log []string
		for j := 0; j < r.Intn(5); j++ {
			n := pick(r, outNames...)
			key := "o" + itoa(j)
			sel = append(sel, key+":"+n)
			want[key] = s.out(vals[n])
			t.Count("values output", 1)
		}
		badKey := ""
		for j := 0; j < 1+r.Intn(3); j++ {
			n := pick(r, funcNames...)
			key := "c" + itoa(j)
			var args []string
			got := reflect.New(root.FieldByName("Call" + n[4:]).Type().In(0)).Elem()
			was := s.bad
			for i, a := range funcs[n] {
				if chance(r, 5) {
					continue
				}
				l, _, v := s.gen(a.t, 4, true)
				args = append(args, a.name+":"+l)
				got.Field(i).Set(v)
			}
			text := key + ":" + n
			if len(args) > 0 {
				text += "(" + strings.Join(args, pick(r, ",", " ")) + ")"
			}
			sel = append(sel, text)
			if s.bad && !was {
				badKey = key
				continue
			}
			want[key] = "\"ok\""
			for i := len(funcs[n]) - 1; i >= 0; i-- {
				if funcs[n][i].t == results[n] {
					want[key] = s.out(got.Field(i))
					break
				}
			}
			log = append(log, n+show27(got))
			t.Count("calls", 1)
		}
		text := "{" + strings.Join(sel, " ") + "}"
		if len(s.decl) > 0 {
			text = "query(" + strings.Join(s.decl, ",") + ")" + text
		}
		var vs []string
		for _, v := range s.vars {
			if v != "" {
				vs = append(vs, v)
			}
		}
		vars := "{" + strings.Join(vs, ",") + "}"
		calls = nil
		res := c.Run(use, text, yarql.ResolveOptions{Variables: vars, NoMeta: true})
		t.Eval(1)
		t.NonTrivial(text, vars, strings.Join(reg, ";"))
		detail := fmt.Sprintf("enums:\n%s\nquery: %s\nvariables: %s\nwant: %v\ncalls wanted: %q\ncalls: %q\nresponse: %s\nerrors: %q\nwrong: %s at %s", strings.Join(reg, "\n"), text, vars, want, log, calls, res.Raw, res.GoErr, s.nBad, badKey)
		if res.Panic != nil || res.Bad != "" {
			t.Fail(fmt.Sprint("no proper response: ", res.Bad, res.Panic), detail)
			continue
		}
		if s.bad {
			t.Count("refused: "+s.nBad, 1)
			if len(res.GoErr) == 0 {
				t.Fail("accepted without an error: "+s.nBad, detail)
			}
			// only calls that were wanted, in order
			i := 0
			for _, l := range calls {
				for i < len(log) && log[i] != l {
					i++
				}
				if i == len(log) {
					t.Fail("a resolver is called although its argument is refused: "+s.nBad, detail)
					break
				}
				i++
			}
			continue
		}
		t.Count("variables", len(s.vars))
		if len(res.GoErr) > 0 {
			t.Fail("refused: "+res.GoErr[0], detail)
			continue
		}
		if strings.Join(calls, "\n") != strings.Join(log, "\n") {
			t.Fail("a resolver got other values", detail)
			continue
		}
		for k, w := range want {
			got := res.Data.Get(k)
			if got == nil {
				t.Fail(k+" is missing", detail)
				break
			}
			g := got.Text()
			if w != g {
				t.Fail(fmt.Sprintf("%s is %s, want %s", k, g, w), detail)
				break
			}
		}
		if t.WantSample() {
			t.Sample("%s %s -> %s", text, vars, clip(res.Raw, 300))
		}
	}
	// what introspection lists
	for _, e := range s.all {
		if !chance(r, 4) {
			continue
		}
		res := c.Run(use, `{__type(name:"`+e.t.Name()+`"){kind enumValues{name}}}`, yarql.ResolveOptions{NoMeta: true})
		x := res.Data.Get("__type")
		if x == nil || x.K == 'n' {
			continue // not used
		}
		var l []string
		for _, v := range x.Get("enumValues").A {
			l = append(l, str(v.Get("name")))
		}
		ks := append([]string{}, e.keys...)
		sortStrings(l)
		sortStrings(ks)
		t.Count("enums introspected", 1)
		if str(x.Get("kind")) != "ENUM" || strings.Join(l, " ") != strings.Join(ks, " ") {
			t.Fail(fmt.Sprintf("introspection lists %s %q for the keys %q", str(x.Get("kind")), l, ks), strings.Join(reg, "\n"))
		}
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
