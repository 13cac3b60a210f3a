package checks

import (
	"fmt"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/run"
	"vh/uni"
	"vh/uni/pa"
	"vh/uni/pb"
)

// Pet28, Box28 and Both28 are the interfaces
type (
	Pet28 interface {
		ResolveName() string
		ResolveFriend() Pet28
		ResolveAll() []Pet28
		ResolveBox(ctx *yarql.Ctx) (Box28, error)
		ResolveSum(a struct{ A, B int }) int
	}
	Box28 interface {
		ResolveSize() int
		ResolveIn() Pet28
		ResolveRows() [][]Box28
	}
	Both28 interface {
		Pet28
		Box28
		ResolveTwin() *Both28
	}
	// Lone28 is an interface with a single implementation
	Lone28 interface {
		ResolveOnly() Lone28
		ResolveLabel() string
	}
)

type data28 struct {
	id   int
	name string
	fr   Pet28
	all  []Pet28
	box  Box28
	in   Pet28
	rows [][]Box28
	twin *Both28
	lone Lone28
}

// Base28 has the methods
type Base28 struct{ d *data28 }

func (b Base28) ResolveName() string  { return b.d.name }
func (b Base28) ResolveFriend() Pet28 { return b.d.fr }
func (b Base28) ResolveAll() []Pet28  { return b.d.all }
func (b Base28) ResolveBox(ctx *yarql.Ctx) (Box28, error) {
	return b.d.box, nil
}
func (b Base28) ResolveSum(a struct{ A, B int }) int { return b.d.id + 100*a.A + a.B }
func (b Base28) ResolveSize() int                    { return b.d.id * 2 }
func (b Base28) ResolveIn() Pet28                    { return b.d.in }
func (b Base28) ResolveRows() [][]Box28              { return b.d.rows }
func (b Base28) ResolveTwin() *Both28                { return b.d.twin }
func (b Base28) ResolveOnly() Lone28                 { return b.d.lone }
func (b Base28) ResolveLabel() string                { return "label " + b.d.name }

// implementations
type (
	Dog28 struct {
		Base28
		Bark string
		Same int
	}
	Cat28 struct {
		Same string
		Pad  [3]int `gq:"-"`
		Base28
		Meow string
		Pal  Pet28
	}
	Fish28 struct {
		ID   int `gq:"same,id"`
		Fins []int
		d    *data28
	}
	Plain28 struct {
		Base28
		Word string
	}
	Puppy28 struct {
		Dog28
		Age int
	}
	Crate28 struct {
		Base28
		Same []Box28
	}
	Solo28 struct {
		Base28
		Same bool
	}
	// Stray28 is registered nowhere
	Stray28 struct {
		Base28
		Bark string
		Same int
	}
	// Str28 and Map28 are no structs
	Str28 string
	Map28 map[string]int
	Fun28 func() int
	// PtrRecv28 implements as a pointer only
	PtrRecv28 struct{ Base28 }
)

func (f Fish28) ResolveName() string                  { return "fish " + f.d.name }
func (f Fish28) ResolveFriend() Pet28                 { return f.d.fr }
func (f Fish28) ResolveAll() []Pet28                  { return f.d.all }
func (f Fish28) ResolveBox(*yarql.Ctx) (Box28, error) { return f.d.box, nil }
func (f Fish28) ResolveSum(a struct{ A, B int }) int  { return -f.d.id - 100*a.A - a.B }
func (f Fish28) ResolveSize() int                     { return -f.d.id }
func (f Fish28) ResolveIn() Pet28                     { return f.d.in }
func (f Fish28) ResolveRows() [][]Box28               { return f.d.rows }
func (f Fish28) ResolveTwin() *Both28                 { return f.d.twin }
func (p Puppy28) ResolveName() string                 { return "puppy " + p.d.name }
func (s Str28) ResolveName() string                   { return string(s) }
func (s Str28) ResolveFriend() Pet28                  { return nil }
func (s Str28) ResolveAll() []Pet28                   { return nil }
func (s Str28) ResolveBox(*yarql.Ctx) (Box28, error)  { return nil, nil }
func (s Str28) ResolveSum(a struct{ A, B int }) int   { return 0 }
func (s Map28) ResolveSize() int                      { return 0 }
func (s Map28) ResolveIn() Pet28                      { return nil }
func (s Map28) ResolveRows() [][]Box28                { return nil }
func (s Fun28) ResolveSize() int                      { return 0 }
func (s Fun28) ResolveIn() Pet28                      { return nil }
func (s Fun28) ResolveRows() [][]Box28                { return nil }
func (p *PtrRecv28) ResolveName() string              { return "ptr" }

// twin28 makes a value of another type of the same name
func twin28(b Base28) interface{} {
	type Dog28 struct {
		Base28
		Other [2]float64
		Bark  int
		More  string
	}
	return Dog28{Base28: b, More: "more"}
}

func twin28b(b Base28) interface{} {
	type Crate28 struct{ Base28 }
	return Crate28{b}
}

func init() {
	yarql.TypeRename(Plain28{}, "Fancy28")
	yarql.Implements((*Pet28)(nil), Dog28{})
	yarql.Implements((*Pet28)(nil), Cat28{})
	yarql.Implements((*Pet28)(nil), Dog28{})
	yarql.Implements((*Pet28)(nil), Fish28{})
	yarql.Implements((*Pet28)(nil), Plain28{})
	yarql.Implements((*Pet28)(nil), Puppy28{})
	yarql.Implements((*Box28)(nil), Cat28{})
	yarql.Implements((*Box28)(nil), Crate28{})
	yarql.Implements((*Box28)(nil), Plain28{})
	yarql.Implements((*Box28)(nil), Puppy28{})
	yarql.Implements((*Both28)(nil), Cat28{})
	yarql.Implements((*Both28)(nil), Plain28{})
	yarql.Implements((*Both28)(nil), Fish28{})
	yarql.Implements((*Lone28)(nil), Solo28{})
	add(&run.Check{
		ID:     "C28",
		Rule:   "(1) Handwritten interfaces (one that embeds two others, one with a single implementation), with implementations that have equal field names of other types at other places, promoted and overriding methods, a new name, and which are registered for some of the interfaces. A random graph of registered and unregistered implementations (registered for another interface only, never registered, pointers, typed nil pointers, named strings, maps and functions, function-local types of the same name and package) is put in fields, lists, lists of lists, pointers, function fields, methods and concrete objects. Random queries with inline and named fragments on every object type and interface, also nested, are compared with an evaluator over the same graph. (2) Random schemas whose roots are full of generated interfaces, against the reference interpreter. (3) 40 types that implement 12 interfaces each, seen through each of them, and in introspection. Registrations that make no sense have to panic and change nothing. Non-trivial: distinct query that resolved an interface value.",
		Assume: []string{"pointers to registered types are not registered", "a field is asked for where the static type has it"},
		Quick:  4000, Thorough: 100000,
		Run: c28,
	})
}

// Holder28 has everything in concrete positions
type Holder28 struct {
	Pet    Pet28
	Dog    Dog28
	PtrDog *Dog28
	Cats   []Cat28
	Fish   Fish28
	Box    *Box28
	Fn     func() Pet28
	Lone   Lone28
}

// Root28 is the query
type Root28 struct {
	One    Pet28
	List   []Pet28
	Deep   [][]*Pet28
	Box    Box28
	Boxes  []Box28
	Both   Both28
	Boths  []*Both28
	PtrPet **Pet28
	Fn     func() (Pet28, error)
	FnAll  func(a struct{ From int }) []Both28
	Holder Holder28
	Hs     []*Holder28
	Lone   Lone28
	m      Pet28
}

// ResolveMethod is a method
func (r Root28) ResolveMethod() Pet28 { return r.m }

// reg28 are the names of what is registered, by interface
var reg28 = map[string][]reflect.Type{
	"Pet28":  {reflect.TypeOf(Dog28{}), reflect.TypeOf(Cat28{}), reflect.TypeOf(Fish28{}), reflect.TypeOf(Plain28{}), reflect.TypeOf(Puppy28{})},
	"Box28":  {reflect.TypeOf(Cat28{}), reflect.TypeOf(Crate28{}), reflect.TypeOf(Plain28{}), reflect.TypeOf(Puppy28{})},
	"Both28": {reflect.TypeOf(Cat28{}), reflect.TypeOf(Plain28{}), reflect.TypeOf(Fish28{})},
	"Lone28": {reflect.TypeOf(Solo28{})},
}

func name28(t reflect.Type) string {
	if t == reflect.TypeOf(Plain28{}) {
		return "Fancy28"
	}
	return t.Name()
}

// conds28 are the type conditions an object type matches
func conds28(t reflect.Type) map[string]bool {
	m := map[string]bool{name28(t): true}
	for i, l := range reg28 {
		for _, x := range l {
			if x == t {
				m[i] = true
			}
		}
	}
	return m
}

type field28 struct {
	name string
	t    reflect.Type // result
	args bool
}

// fields28 lists the fields of a type
func fields28(t reflect.Type) []field28 {
	var l []field28
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		n := strings.TrimPrefix(m.Name, "Resolve")
		ft := m.Type
		l = append(l, field28{strings.ToLower(n[:1]) + n[1:], ft.Out(0), n == "Sum"})
	}
	if t.Kind() == reflect.Struct {
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.Anonymous || f.PkgPath != "" || f.Tag.Get("gq") == "-" {
				continue
			}
			n := strings.ToLower(f.Name[:1]) + f.Name[1:]
			ft := f.Type
			if n == "iD" {
				n, ft = "same", reflect.TypeOf("")
			}
			if ft.Kind() == reflect.Func {
				ft = ft.Out(0)
			}
			l = append(l, field28{n, ft, false})
		}
	}
	return l
}

type sys28 struct {
	r      *rand.Rand
	n      int
	frags  []string
	root   Root28
	counts map[string]int
}

// sel28 is a selection
type sel28 struct {
	key, name string
	a, b      int
	sub       []*sel28
	cond      string // fragment
	named     string
}

func base28(t reflect.Type) reflect.Type {
	for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice {
		t = t.Elem()
	}
	return t
}

var all28 = []reflect.Type{
	reflect.TypeOf(Dog28{}), reflect.TypeOf(Cat28{}), reflect.TypeOf(Fish28{}), reflect.TypeOf(Plain28{}), reflect.TypeOf(Puppy28{}), reflect.TypeOf(Crate28{}), reflect.TypeOf(Solo28{}),
	reflect.TypeOf((*Pet28)(nil)).Elem(), reflect.TypeOf((*Box28)(nil)).Elem(), reflect.TypeOf((*Both28)(nil)).Elem(), reflect.TypeOf((*Lone28)(nil)).Elem(), reflect.TypeOf(Holder28{}),
}

func (s *sys28) sels(t reflect.Type, deep int) []*sel28 {
	r := s.r
	fs := fields28(t)
	var l []*sel28
	for i := 0; i < 1+r.Intn(4); i++ {
		s.n++
		key := "k" + itoa(s.n)
		if deep > 0 && chance(r, 2) && t != reflect.TypeOf(Root28{}) {
			ct := pick(r, all28...)
			f := &sel28{cond: name28(ct), sub: s.sels(ct, deep-1)}
			if chance(r, 3) {
				f.named = "F" + key[1:]
			}
			l = append(l, f)
			continue
		}
		if chance(r, 4) {
			l = append(l, &sel28{key: key, name: "__typename"})
			continue
		}
		f := pick(r, fs...)
		x := &sel28{key: key, name: f.name}
		if f.args {
			x.a, x.b = 1+r.Intn(5), 1+r.Intn(5)
		}
		b := base28(f.t)
		if b.Kind() == reflect.Struct || b.Kind() == reflect.Interface {
			if deep <= 0 {
				l = append(l, &sel28{key: key, name: "__typename"})
				continue
			}
			x.sub = s.sels(b, deep-1)
		}
		l = append(l, x)
	}
	return l
}

func (s *sys28) text(l []*sel28) string {
	var p []string
	for _, x := range l {
		switch {
		case x.named != "":
			p = append(p, "..."+x.named)
			s.frags = append(s.frags, "fragment "+x.named+" on "+x.cond+s.text(x.sub))
		case x.cond != "":
			p = append(p, "...on "+x.cond+s.text(x.sub))
		default:
			y := x.key + ":" + x.name
			if x.a > 0 {
				y += fmt.Sprintf("(a:%d b:%d)", x.a, x.b)
			}
			if x.sub != nil {
				y += s.text(x.sub)
			}
			p = append(p, y)
		}
	}
	return "{" + strings.Join(p, pick(s.r, " ", ",", "\n")) + "}"
}

// eval selects from an object value
func (s *sys28) eval(v reflect.Value, l []*sel28, out *[]string) {
	t := v.Type()
	cs := conds28(t)
	for _, x := range l {
		if x.cond != "" {
			if cs[x.cond] {
				s.counts["fragments applied"]++
				s.eval(v, x.sub, out)
			} else {
				s.counts["fragments not applied"]++
			}
			continue
		}
		*out = append(*out, strconv.Quote(x.key)+":"+s.field(v, x))
	}
}

func (s *sys28) field(v reflect.Value, x *sel28) string {
	t := v.Type()
	if x.name == "__typename" {
		return strconv.Quote(name28(t))
	}
	if t == reflect.TypeOf(Fish28{}) && x.name == "same" {
		return strconv.Quote(fmt.Sprint(v.Interface().(Fish28).ID))
	}
	n := strings.ToUpper(x.name[:1]) + x.name[1:]
	if m := v.MethodByName("Resolve" + n); m.IsValid() {
		if n == "Box" {
			return s.value(m.Call([]reflect.Value{reflect.Zero(reflect.TypeOf(&yarql.Ctx{}))})[0], x)
		}
		if n == "Sum" {
			return s.value(m.Call([]reflect.Value{reflect.ValueOf(struct{ A, B int }{x.a, x.b})})[0], x)
		}
		return s.value(m.Call(nil)[0], x)
	}
	f := v.FieldByName(n)
	if f.Kind() == reflect.Func {
		if f.IsNil() {
			return "null"
		}
		if f.Type().NumIn() == 1 {
			return s.value(f.Call([]reflect.Value{reflect.Zero(f.Type().In(0))})[0], x)
		}
		return s.value(f.Call(nil)[0], x)
	}
	return s.value(f, x)
}

func (s *sys28) value(v reflect.Value, x *sel28) string {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "null"
		}
		return s.value(v.Elem(), x)
	case reflect.Slice:
		if v.IsNil() {
			return "null"
		}
		var l []string
		for i := 0; i < v.Len(); i++ {
			l = append(l, s.value(v.Index(i), x))
		}
		return "[" + strings.Join(l, ",") + "]"
	case reflect.Interface:
		if v.IsNil() {
			s.counts["nil values"]++
			return "null"
		}
		for _, t := range reg28[v.Type().Name()] {
			if t == v.Elem().Type() {
				s.counts["interface values: "+t.Name()+" as "+v.Type().Name()]++
				return s.value(v.Elem(), x)
			}
		}
		s.counts["unregistered values: "+v.Elem().Type().Kind().String()]++
		return "null"
	case reflect.Struct:
		var l []string
		s.eval(v, x.sub, &l)
		return "{" + strings.Join(l, ",") + "}"
	case reflect.String:
		return strconv.Quote(v.String())
	}
	return fmt.Sprint(v.Interface())
}

// data makes the data behind a value
func (s *sys28) data(deep int) *data28 {
	r := s.r
	s.n++
	d := &data28{id: s.n, name: "n" + itoa(s.n)}
	if deep <= 0 {
		return d
	}
	fill28(s, reflect.ValueOf(&d.fr).Elem(), deep-1)
	if chance(r, 3) {
		fill28(s, reflect.ValueOf(&d.all).Elem(), deep-1)
	}
	fill28(s, reflect.ValueOf(&d.box).Elem(), deep-1)
	fill28(s, reflect.ValueOf(&d.in).Elem(), deep-1)
	if chance(r, 3) {
		fill28(s, reflect.ValueOf(&d.rows).Elem(), deep-1)
	}
	fill28(s, reflect.ValueOf(&d.twin).Elem(), deep-1)
	fill28(s, reflect.ValueOf(&d.lone).Elem(), deep-1)
	return d
}

// concrete makes a value of an object type
func (s *sys28) concrete(t reflect.Type, deep int) reflect.Value {
	v := reflect.New(t).Elem()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		switch {
		case f.Type == reflect.TypeOf(Base28{}):
			v.Field(i).Set(reflect.ValueOf(Base28{s.data(deep)}))
		case f.PkgPath != "" || f.Tag.Get("gq") == "-":
		default:
			fill28(s, v.Field(i), deep-1)
		}
	}
	if t == reflect.TypeOf(Fish28{}) {
		x := v.Interface().(Fish28)
		x.d = s.data(deep)
		return reflect.ValueOf(x)
	}
	return v
}

func fill28(s *sys28, v reflect.Value, deep int) {
	r := s.r
	t := v.Type()
	switch t.Kind() {
	case reflect.Int:
		s.n++
		v.SetInt(int64(s.n))
	case reflect.Bool:
		v.SetBool(chance(r, 2))
	case reflect.String:
		s.n++
		v.SetString("s" + itoa(s.n))
	case reflect.Ptr:
		if chance(r, 4) || deep <= 0 {
			return
		}
		v.Set(reflect.New(t.Elem()))
		fill28(s, v.Elem(), deep)
	case reflect.Slice:
		if chance(r, 5) || deep <= 0 {
			return
		}
		n := r.Intn(5)
		if chance(r, 400) {
			n = 50 + r.Intn(300)
			deep = min(deep, 1)
		}
		v.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			fill28(s, v.Index(i), deep-1)
		}
	case reflect.Struct:
		v.Set(s.concrete(t, deep-1))
	case reflect.Func:
		if chance(r, 5) {
			return
		}
		out := reflect.New(t.Out(0)).Elem()
		fill28(s, out, deep)
		v.Set(reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value {
			res := []reflect.Value{out}
			if t.NumOut() > 1 {
				res = append(res, reflect.Zero(t.Out(1)))
			}
			return res
		}))
	case reflect.Interface:
		if chance(r, 6) || deep <= 0 {
			return
		}
		if !chance(r, 4) {
			v.Set(s.concrete(pick(r, reg28[t.Name()]...), deep-1))
			return
		}
		// something that is not registered for t
		b := Base28{s.data(deep - 1)}
		var c interface{}
		switch r.Intn(12) {
		case 0:
			c = Stray28{Base28: b, Bark: "stray"}
		case 1:
			c = twin28(b)
		case 2:
			c = twin28b(b)
		case 3:
			c = &Dog28{Base28: b}
		case 4:
			c = (*Cat28)(nil)
		case 5:
			c = Str28("str")
		case 6:
			c = Map28{"a": 1}
		case 7:
			c = Fun28(nil)
		case 8:
			c = &PtrRecv28{b}
		case 9:
			c = Map28(nil)
		case 10:
			c = Crate28{Base28: b}
		default:
			c = Dog28{Base28: b, Bark: "b"}
		}
		if reflect.TypeOf(c).Implements(t) {
			v.Set(reflect.ValueOf(c))
		}
	default:
		panic(t.String())
	}
}

func c28(t *run.T) {
	if t.Case%200 == 77 {
		c28wide(t)
		return
	}
	r := t.R
	if chance(r, 40) {
		c28names(t)
		return
	}
	if chance(r, 4) {
		c28core(t)
		return
	}
	s := &sys28{r: r, counts: map[string]int{}}
	if chance(r, 3) {
		c28refused(t)
	}
	rt := reflect.ValueOf(&s.root).Elem()
	for i := 0; i < rt.NumField(); i++ {
		if rt.Type().Field(i).PkgPath == "" {
			fill28(s, rt.Field(i), 5)
		}
	}
	fill28(s, reflect.ValueOf(&s.root.m).Elem(), 5)
	sc := yarql.NewSchema()
	if err := sc.Parse(s.root, uni.M1{}, nil); err != nil {
		t.Fail("a valid schema is refused: "+err.Error(), err.Error())
		return
	}
	c := &core.Case{R: r, W: &uni.World{}}
	for i := 0; i < 12; i++ {
		s.frags = nil
		before := s.n
		l := s.sels(reflect.TypeOf(s.root), 6)
		if s.n-before > 400 {
			continue
		}
		text := s.text(l)
		all := append([]string{text}, s.frags...)
		r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		text = strings.Join(all, " ")
		seen := 0
		for k := range s.counts {
			delete(s.counts, k)
		}
		var out []string
		s.eval(reflect.ValueOf(s.root), l, &out)
		want := "{" + strings.Join(out, ",") + "}"
		for k, n := range s.counts {
			t.Count(k, n)
			if strings.HasPrefix(k, "interface") {
				seen += n
			}
		}
		if len(want) > 200000 {
			continue
		}
		use := sc
		if chance(r, 4) {
			use = sc.Copy()
		}
		res := c.Run(use, text, yarql.ResolveOptions{NoMeta: true})
		t.Eval(1)
		t.Max("response bytes", len(want))
		if seen > 0 {
			t.NonTrivial(text, want)
		}
		detail := fmt.Sprintf("query: %s\nwant: %s\nresponse: %s\nerrors: %q", text, want, res.Raw, res.GoErr)
		if res.Panic != nil || res.Bad != "" {
			t.Fail(fmt.Sprint("no proper response: ", res.Bad, res.Panic), detail)
			continue
		}
		if len(res.GoErr) > 0 {
			t.Fail("refused: "+res.GoErr[0], detail)
			continue
		}
		if res.Data == nil || res.Data.Text() != want {
			t.Fail("the response differs", detail)
			continue
		}
		if t.WantSample() {
			t.Sample("%s -> %s", clip(text, 500), clip(want, 400))
		}
	}
}

// c28refused tries registrations that make no sense
func c28refused(t *run.T) {
	type inline = interface{ ResolveName() string }
	for i, f := range []func(){
		func() { yarql.Implements(nil, Dog28{}) },
		func() { yarql.Implements((*Pet28)(nil), nil) },
		func() { yarql.Implements(Dog28{}, Dog28{}) },
		func() { yarql.Implements((*Dog28)(nil), Dog28{}) },
		func() { yarql.Implements((*inline)(nil), Dog28{}) },
		func() { yarql.Implements((*Pet28)(nil), &Dog28{}) },
		func() { yarql.Implements((*Pet28)(nil), Str28("a")) },
		func() { yarql.Implements((*Pet28)(nil), struct{ Base28 }{}) },
		func() { yarql.Implements((*Pet28)(nil), uni.M0{}) },
		func() { yarql.Implements((*Pet28)(nil), PtrRecv28{}.d) },
		func() { yarql.Implements((*Box28)(nil), struct{}{}) },
	} {
		func() {
			defer func() {
				if recover() == nil {
					t.Failf("", "registration %d that makes no sense is accepted", i)
				}
			}()
			f()
		}()
		t.Count("refused registrations", 1)
	}
}

// c28names uses types of the same names from two packages
func c28names(t *run.T) {
	query := `query($f:%s){pets{__typename name ...on Dog{bark} ...on Cat{meow}} old{__typename x} it(f:$f) __schema{types{name}}}`
	for i, x := range []struct {
		root        interface{}
		want, input string
		other       string
	}{
		{pa.Make(), `"pets":[{"__typename":"Dog","name":"pa dog","bark":"wuf"},{"__typename":"Cat","name":"pa cat","meow":"miauw"}],"old":{"__typename":"Old","x":0},"it":5`, "Filter", "Fresh"},
		{pb.Make(), `"pets":[{"__typename":"Dog","name":"pb dog","bark":"wuf"},null],"old":{"__typename":"Fresh","x":0},"it":5`, "FreshFilter", "Old"},
	} {
		sc := yarql.NewSchema()
		if err := sc.Parse(x.root, uni.M1{}, nil); err != nil {
			t.Fail("a valid schema is refused: "+err.Error(), itoa(i))
			return
		}
		c := &core.Case{R: t.R, W: &uni.World{}}
		res := c.Run(sc, fmt.Sprintf(query, x.input), yarql.ResolveOptions{NoMeta: true, Variables: `{"f":{"a":5}}`})
		t.Eval(1)
		t.Count("types of the same name in other packages", 1)
		if !strings.HasPrefix(res.Raw, "{"+x.want+",") || len(res.GoErr) > 0 || strings.Contains(res.Raw, `"`+x.other+`"`) {
			t.Fail("types of the same name in other packages are mixed up", fmt.Sprintf("want: %s\nresponse: %s\nerrors: %q", x.want, res.Raw, res.GoErr))
		}
	}
}

// c28core uses the generated interfaces
func c28core(t *run.T) {
	r := t.R
	names := r.Perm(len(core.FieldNames))
	var fs []reflect.StructField
	for i := 0; i < 3+r.Intn(4); i++ {
		ft := uni.Ifaces[r.Intn(len(uni.Ifaces))].T
		for chance(r, 2) {
			ft = pick(r, reflect.SliceOf(ft), reflect.PtrTo(ft))
		}
		if chance(r, 4) {
			ft = reflect.FuncOf(nil, []reflect.Type{ft}, false)
		}
		fs = append(fs, reflect.StructField{Name: core.FieldNames[names[i]], Type: ft})
	}
	c := newCase(t, core.CaseOpt{QT: reflect.StructOf(fs), MT: reflect.TypeOf(uni.M1{}), Budget: 300})
	if c == nil {
		return
	}
	gopt := core.DefaultOpt()
	gopt.FieldP = pick(r, 40, 70, 90)
	gopt.FragN = pick(r, 3, 5)
	gopt.MaxDepth = 6
	g := core.NewGen(c, r, gopt)
	for i := 0; i < 8; i++ {
		rq := g.Request()
		e, _ := conform(t, c, c.S, rq, core.PData|core.PLog)
		if e.Frags > 0 || e.NoFrags > 0 {
			t.NonTrivial(shapeOf(c, rq), rq.Vars)
		}
		if t.Failed() {
			return
		}
	}
}
