package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/run"
	"vh/uni/pa"
	"vh/uni/pb"
)

func init() {
	if seed := os.Getenv("VH_C39"); seed != "" {
		n, _ := strconv.ParseInt(seed, 10, 64)
		out := &out39{Counts: map[string]int{}}
		child39(rand.New(rand.NewSource(n)), out)
		b, _ := json.Marshal(out)
		fmt.Printf("\n%s%s\n", mark39, b)
		os.Exit(0)
	}
	add(&run.Check{
		ID:     "C39",
		Rule:   "A case is a process of its own that goes through a random history of definitions: schemas are made, enums and directives registered on some of them (again, after Parse, and with maps and location lists that the owner changes afterwards), types registered as implementations at any time (again, and types and values that cannot be), roots parsed (also for a second time, with other roots, with interfaces that have no implementation yet, and with roots that are refused), schemas copied. A model says which calls must be refused, and what each schema is from its Parse on. After every step all schemas and copies are asked for their types, interfaces, implementations, enum values and directives, for interface values of all types under conditions of all types, for enum outputs and arguments of all keys in play, and with every directive in every place. A schema that is not parsed must answer with an error and must not be copied. In other cases a schema with random roots that has served requests, and maybe was copied or refused other roots, is parsed again with other random roots: it must answer and describe itself as a schema made for those alone, and the copy as before. Non-trivial: distinct model state of a parsed schema that was asked after a later definition.",
		Assume: []string{"definitions are made one at a time, as package initialisation does"},
		Quick:  4000, Thorough: 120000,
		Run: c39,
	})
}

const mark39 = "C39 RESULT "

type out39 struct {
	Evals         int
	Counts        map[string]int
	NonTrivial    []string
	Title, Detail string
}

func c39(t *run.T) {
	if t.Case%6 == 3 {
		again39(t)
		return
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe)
	cmd.Env = append(os.Environ(), fmt.Sprintf("VH_C39=%d", t.R.Int63()))
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	err = cmd.Run()
	i := strings.Index(stdout.String(), mark39)
	if i < 0 {
		if stderr.Len() == 0 && ctx.Err() == nil {
			panic(fmt.Sprint("the history did not start: ", err))
		}
		t.Fail("a history of definitions does not come to its end", fmt.Sprint(err, "\n", clip(stderr.String(), 3000)))
		return
	}
	var out out39
	if err := json.Unmarshal(stdout.Bytes()[i+len(mark39):], &out); err != nil {
		panic(err)
	}
	t.Eval(out.Evals)
	for k, n := range out.Counts {
		t.Count(k, n)
	}
	for _, s := range out.NonTrivial {
		t.NonTrivial(s)
		if t.WantSample() {
			t.Sample("%s", s)
		}
	}
	if out.Title != "" {
		t.Fail(out.Title, out.Detail)
	}
}

// again39 parses the roots of one case and then those of another with the same schema
func again39(t *run.T) {
	r := t.R
	a, b := newCase(t, core.CaseOpt{}), newCase(t, core.CaseOpt{})
	if t.Failed() {
		return
	}
	s, err := b.Unparsed()
	if err == nil {
		err = s.Parse(a.QV.Interface(), a.MV.Interface(), nil)
	}
	if err != nil {
		t.Fail("a valid schema is refused", err.Error())
		return
	}
	pool := func(c *core.Case) (*core.Gen, []*core.Request) {
		g := core.NewGen(c, r, core.DefaultOpt())
		var l []*core.Request
		for i := 0; i < 4; i++ {
			l = append(l, g.Request())
		}
		return g, l
	}
	ga, la := pool(a)
	gb, lb := pool(b)
	// serve uses a schema like one that was made for c alone
	serve := func(s *yarql.Schema, c *core.Case, g *core.Gen, l []*core.Request, what string) {
		for i := 0; i < 4 && !t.Failed(); i++ {
			q := anyRequest(t, c, g, l)
			t.Eval(1)
			want := untimed(q.run(c, c.S, false))
			if got := untimed(q.run(c, s, false)); got != want {
				t.Fail(what+" differs from one of its own", fmt.Sprintf("%s %q %s\nwant %s\ngot  %s", q.kind, q.h.text, q.h.vars, clip(want, 3000), clip(got, 3000)))
			}
		}
		if t.Failed() || !chance(r, 2) {
			return
		}
		t.Eval(1)
		w, x := c.Run(c.S, fullIntrospection, yarql.ResolveOptions{}), c.Run(s, fullIntrospection, yarql.ResolveOptions{})
		if w.Raw != x.Raw || x.Panic != nil {
			t.Fail(what+" describes itself otherwise than one of its own", fmt.Sprintf("%v\nwant %s\ngot  %s", x.Panic, w.Raw, x.Raw))
		}
	}
	serve(s, a, ga, la, "a schema")
	var copied *yarql.Schema
	if chance(r, 2) {
		copied = s.Copy()
	}
	if chance(r, 3) {
		if s.Parse(struct{ C chan int }{}, a.MV.Interface(), nil) == nil {
			t.Fail("an unusable schema is accepted when it is parsed again", "")
			return
		}
	}
	if err := s.Parse(b.QV.Interface(), b.MV.Interface(), nil); err != nil {
		t.Fail("a valid schema is refused when it is parsed again", err.Error())
		return
	}
	serve(s, b, gb, lb, "a schema that was parsed again")
	if copied != nil {
		serve(copied, a, ga, la, "a copy made before its schema was parsed again")
		serve(s.Copy(), b, gb, lb, "a copy of a schema that was parsed again")
	}
	t.Count("schemas parsed again with random roots", 1)
	t.NonTrivial("again", run.HashOf(a.QT.String()), run.HashOf(b.QT.String()))
}

// the types; all T39s implement PA, PB and PC, the first three PD too
type (
	PA39 interface{ ResolveLabel() string }
	PB39 interface{ ResolveLabel() string }
	PC39 interface{ ResolveLabel() string }
	PD39 interface {
		ResolveLabel() string
		ResolveNum() int
	}
	T39a struct{ Xa int }
	T39b struct{ Xb int }
	T39c struct {
		Xc   int
		Next PC39
	}
	T39d struct{ Xd int }
	T39e struct{ Xe int }

	E39x int16
	E39y string
	E39z uint8

	R39a struct {
		A  PA39
		L  []PA39
		Ex E39x
	}
	R39b struct {
		A  PB39
		D  PD39
		Ey []E39y
		Ez E39z
	}
	R39c struct {
		L  []PD39
		T  T39c
		Ez *E39z
		Ex E39x
	}
	R39d struct {
		Ex E39x
		Ey E39y
		Ez E39z
	}
	R39bad struct {
		A PA39
		C chan int
	}
	M39 struct{ Ex E39x }
)

func (T39a) ResolveLabel() string { return "la" }
func (T39b) ResolveLabel() string { return "lb" }
func (T39c) ResolveLabel() string { return "lc" }
func (T39d) ResolveLabel() string { return "ld" }
func (T39e) ResolveLabel() string { return "le" }
func (T39a) ResolveNum() int      { return 1 }
func (T39b) ResolveNum() int      { return 2 }
func (T39c) ResolveNum() int      { return 3 }

// ResolveEchox takes and gives an enum
func (R39a) ResolveEchox(a struct{ V E39x }) E39x { return a.V }

// ResolveEchox takes and gives an enum
func (R39c) ResolveEchox(a struct{ V E39x }) E39x { return a.V }

// ResolveEchox takes and gives an enum
func (R39d) ResolveEchox(a struct{ V E39x }) E39x { return a.V }

// ResolveEchoz takes and gives enums
func (R39d) ResolveEchoz(a struct{ V []E39z }) []E39z { return a.V }

var ifaces39 = map[string]interface{}{"PA39": (*PA39)(nil), "PB39": (*PB39)(nil), "PC39": (*PC39)(nil), "PD39": (*PD39)(nil)}
var structs39 = map[string]interface{}{"T39a": T39a{7}, "T39b": T39b{8}, "T39c": T39c{Xc: 9, Next: T39d{5}}, "T39d": T39d{10}, "T39e": T39e{11}}

// roots39 says which interfaces, types and enums a root needs
var roots39 = map[string]struct{ ifaces, structs, enums []string }{
	"R39a": {[]string{"PA39"}, nil, []string{"E39x"}},
	"R39b": {[]string{"PB39", "PD39"}, nil, []string{"E39y", "E39z"}},
	"R39c": {[]string{"PD39"}, []string{"T39c"}, []string{"E39x", "E39z"}},
	"R39d": {nil, nil, []string{"E39x", "E39y", "E39z"}},
}

type dir39 struct {
	name  string
	where map[yarql.DirectiveLocation]bool
	skip  bool
}

// model39 is what a parsed schema is
type model39 struct {
	root  string
	vals  []string            // names of the types of the interface values
	impls map[string][]string // of the interfaces of the schema
	known map[string]bool     // types of the schema
	enums map[string]map[string]int
	dirs  []dir39
}

type schema39 struct {
	s     *yarql.Schema
	id    int
	enums map[string]map[string]int // registered so far
	dirs  []dir39
	m     *model39 // nil if not parsed
	age   int      // steps since
}

type world39 struct {
	r      *rand.Rand
	out    *out39
	impls  map[string][]string
	l      []*schema39
	log    []string
	failed bool
}

func (w *world39) fail(title string, detail string) {
	if !w.failed {
		w.failed = true
		w.out.Title = title
		w.out.Detail = strings.Join(w.log, "\n") + "\n" + detail
	}
}

// guard39 runs f
func guard39(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

func has39(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func keys39[V any](m map[string]V) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

// interfacesOf gives the interfaces a type is registered for
func (w *world39) interfacesOf(t string) (res []string) {
	for _, i := range keys39(w.impls) {
		if has39(w.impls[i], t) {
			res = append(res, i)
		}
	}
	return
}

// snapshot gives the model of a schema that is parsed now, or nil if Parse has to refuse it
func (w *world39) snapshot(s *schema39, root string, vals []string) *model39 {
	m := &model39{root: root, vals: vals, impls: map[string][]string{}, known: map[string]bool{}, enums: map[string]map[string]int{}}
	ok := true
	var iface, typ func(n string)
	iface = func(n string) {
		if _, done := m.impls[n]; done {
			return
		}
		l, found := w.impls[n]
		if !found {
			ok = false
			return
		}
		m.impls[n] = append([]string{}, l...)
		for _, t := range l {
			typ(t)
		}
	}
	typ = func(n string) {
		if m.known[n] {
			return
		}
		m.known[n] = true
		if n == "T39c" {
			iface("PC39")
		}
		for _, i := range w.interfacesOf(n) {
			iface(i)
		}
	}
	for _, n := range roots39[root].structs {
		typ(n)
	}
	for _, n := range roots39[root].ifaces {
		iface(n)
	}
	for _, e := range append([]string{"E39x"}, roots39[root].enums...) { // the other root has an E39x
		if k, ok := s.enums[e]; ok {
			m.enums[e] = k
		}
	}
	m.dirs = append(m.dirs, s.dirs...)
	if !ok {
		return nil
	}
	return m
}

var exVal39, eyVal39, ezVal39 = E39x(2), E39y("1"), E39z(3)

// value39 makes a root
func value39(root string, vals []string) interface{} {
	v := func(i int) interface{} {
		if vals[i] == "" {
			return nil
		}
		return structs39[vals[i]]
	}
	pa := func(i int) PA39 { x, _ := v(i).(PA39); return x }
	pd := func(i int) PD39 { x, _ := v(i).(PD39); return x }
	switch root {
	case "R39a":
		return R39a{A: pa(0), L: []PA39{pa(1), pa(2), pa(3)}, Ex: exVal39}
	case "R39b":
		return R39b{A: pa(0), D: pd(1), Ey: []E39y{eyVal39, "0"}, Ez: ezVal39}
	case "R39c":
		return R39c{L: []PD39{pd(0), pd(1), pd(2)}, T: structs39["T39c"].(T39c), Ez: &ezVal39, Ex: exVal39}
	}
	return R39d{Ex: exVal39, Ey: eyVal39, Ez: ezVal39}
}

func locations39(m map[yarql.DirectiveLocation]bool) (l []yarql.DirectiveLocation) {
	for _, x := range []yarql.DirectiveLocation{yarql.DirectiveLocationField, yarql.DirectiveLocationFragment, yarql.DirectiveLocationFragmentInline} {
		if m[x] {
			l = append(l, x)
		}
	}
	return
}

func child39(r *rand.Rand, out *out39) {
	w := &world39{r: r, out: out, impls: map[string][]string{}}
	for step := 10 + r.Intn(30); step > 0 && !w.failed; step-- {
		w.step()
		for _, s := range w.l {
			if w.failed {
				return
			}
			s.age++
			if s.m == nil {
				w.unparsed(s)
			} else if s.age < 3 || chance(r, 2) {
				w.look(s)
			}
		}
	}
}

func (w *world39) step() {
	r := w.r
	if len(w.l) == 0 || len(w.l) < 6 && chance(r, 8) {
		w.l = append(w.l, &schema39{s: yarql.NewSchema(), id: len(w.l), enums: map[string]map[string]int{}})
		w.log = append(w.log, fmt.Sprintf("schema %d made", len(w.l)-1))
		w.out.Counts["schemas made"]++
		return
	}
	s := w.l[r.Intn(len(w.l))]
	switch r.Intn(10) {
	case 0, 1:
		w.enum(s)
	case 2, 3:
		w.directive(s)
	case 4, 5:
		w.implements()
	case 6, 7, 8:
		w.parse(s)
	default:
		if s.m == nil || len(w.l) > 8 {
			w.parse(s)
			return
		}
		var c *yarql.Schema
		if p := guard39(func() { c = s.s.Copy() }); p != nil {
			w.fail("Copy of a parsed schema panics", fmt.Sprint(p))
			return
		}
		// a copy that is parsed again knows what its original knew
		w.l = append(w.l, &schema39{s: c, id: len(w.l), m: s.m, enums: s.enums, dirs: append([]dir39{}, s.dirs...)})
		w.log = append(w.log, fmt.Sprintf("schema %d is a copy of %d", len(w.l)-1, s.id))
		w.out.Counts["copies"]++
	}
}

func (w *world39) enum(s *schema39) {
	r := w.r
	name := pick(r, "E39x", "E39y", "E39z")
	entries := map[string]int{}
	keys := []string{"ONE", "TWO", "Three", "x", "E39x", "T39a"}
	for i, k := range r.Perm(len(keys))[:1+r.Intn(4)] {
		entries[keys[k]] = i
		_ = k
	}
	var in interface{}
	var clear func()
	switch name {
	case "E39x":
		m := map[string]E39x{}
		for k, v := range entries {
			m[k] = E39x(v)
		}
		in, clear = m, func() {
			for k := range m {
				m[k] = 99
			}
			m["Late"] = exVal39
		}
	case "E39y":
		m := map[string]E39y{}
		for k, v := range entries {
			m[k] = E39y(itoa(v))
		}
		in, clear = m, func() {
			for k := range m {
				delete(m, k)
			}
		}
	default:
		m := map[string]E39z{}
		for k, v := range entries {
			m[k] = E39z(v)
		}
		in, clear = m, func() {
			for k := range m {
				m[k] = 99
			}
		}
	}
	_, dup := s.enums[name]
	if dup && chance(r, 2) || chance(r, 10) {
		// a type of the same name from another package, or one that has the name of a type of the introspection
		if !dup {
			name = pick(r, "__TypeKind", "__DirectiveLocation")
			dup = true
		}
		in = pa.Enums(name)
		if chance(r, 2) {
			in = pb.Enums(name)
		}
		w.out.Counts["enums of the same name from another package"]++
	}
	want := s.m == nil && !dup
	w.log = append(w.log, fmt.Sprintf("RegisterEnum(%d, %s, %v), must be accepted: %v", s.id, name, entries, want))
	var added bool
	var err error
	if p := guard39(func() { added, err = s.s.RegisterEnum(in) }); p != nil {
		w.fail("RegisterEnum panics", fmt.Sprint(p))
		return
	}
	clear()
	w.out.Evals++
	if added != want || (err == nil) != want {
		w.fail("RegisterEnum does not accept and refuse as it should", fmt.Sprint(added, err))
		return
	}
	if want {
		enums := map[string]map[string]int{name: entries}
		for k, v := range s.enums {
			enums[k] = v
		}
		s.enums = enums
		w.out.Counts["enums registered"]++
	} else {
		w.out.Counts["enums refused"]++
	}
}

func (w *world39) directive(s *schema39) {
	r := w.r
	d := dir39{name: pick(r, "da", "db", "dc", "skip", "Include"), where: map[yarql.DirectiveLocation]bool{}, skip: chance(r, 2)}
	for _, k := range r.Perm(3)[:1+r.Intn(3)] {
		d.where[[]yarql.DirectiveLocation{yarql.DirectiveLocationField, yarql.DirectiveLocationFragment, yarql.DirectiveLocationFragmentInline}[k]] = true
	}
	want := s.m == nil && d.name != "skip"
	for _, o := range s.dirs {
		for l := range d.where {
			want = want && !(o.name == d.name && o.where[l])
		}
	}
	where := locations39(d.where)
	skip := d.skip
	reg := yarql.Directive{Name: d.name, Where: where, Description: "d", Method: func() yarql.DirectiveModifier { return yarql.DirectiveModifier{Skip: skip} }}
	w.log = append(w.log, fmt.Sprintf("RegisterDirective(%d, %s, %v, skips: %v), must be accepted: %v", s.id, d.name, where, skip, want))
	var err error
	if p := guard39(func() { err = s.s.RegisterDirective(reg) }); p != nil {
		w.fail("RegisterDirective panics", fmt.Sprint(p))
		return
	}
	for i := range where {
		where[i] = yarql.DirectiveLocationField
	}
	reg.Name = "changed"
	reg.Method = nil
	w.out.Evals++
	if (err == nil) != want {
		w.fail("RegisterDirective does not accept and refuse as it should", fmt.Sprint(err))
		return
	}
	if want {
		s.dirs = append(s.dirs[:len(s.dirs):len(s.dirs)], d)
		w.out.Counts["directives registered"]++
	} else {
		w.out.Counts["directives refused"]++
	}
}

func (w *world39) implements() {
	r := w.r
	i := pick(r, keys39(ifaces39)...)
	t := pick(r, keys39(structs39)...)
	iv, tv := ifaces39[i], structs39[t]
	want := !(i == "PD39" && (t == "T39d" || t == "T39e"))
	what := ""
	if chance(r, 6) {
		want = false
		switch r.Intn(6) {
		case 0:
			iv, what = nil, "no interface"
		case 1:
			tv, what = nil, "no type"
		case 2:
			iv, what = tv, "a struct as interface"
		case 3:
			iv, what = &T39a{}, "a pointer to a struct as interface"
		case 4:
			tv, what = &T39a{}, "a pointer as type"
		case 5:
			iv, what = (*interface{ ResolveLabel() string })(nil), "an interface without a name"
		}
	}
	w.log = append(w.log, fmt.Sprintf("Implements(%s, %s)%s, must be accepted: %v", i, t, what, want))
	ok := false
	p := guard39(func() { ok = yarql.Implements(iv, tv) })
	w.out.Evals++
	if (p == nil) != want || want && !ok {
		w.fail("Implements does not accept and refuse as it should", fmt.Sprint(ok, p))
		return
	}
	if want {
		if !has39(w.impls[i], t) {
			w.impls[i] = append(w.impls[i], t)
		}
		w.out.Counts["implementations registered"]++
	} else {
		w.out.Counts["implementations refused"]++
	}
}

func (w *world39) parse(s *schema39) {
	r := w.r
	root := pick(r, "R39a", "R39b", "R39c", "R39d", "R39d")
	var vals []string
	for i := 0; i < 4; i++ {
		vals = append(vals, pick(r, append(keys39(structs39), "")...))
	}
	m := w.snapshot(s, root, vals)
	var q, mm interface{} = value39(root, vals), M39{exVal39}
	how := ""
	if chance(r, 8) {
		m = nil
		switch r.Intn(5) {
		case 0:
			q, how = nil, " without a query"
		case 1:
			mm, how = nil, " without a mutation"
		case 2:
			q, how = R39bad{}, " with a channel"
		case 3:
			mm, how = 1, " with a number"
		case 4:
			mm, how = value39(root, vals), " with the same root twice"
		}
	}
	w.log = append(w.log, fmt.Sprintf("Parse(%d, %s %v)%s, must be accepted: %v", s.id, root, vals, how, m != nil))
	var err error
	if p := guard39(func() { err = s.s.Parse(q, mm, nil) }); p != nil {
		w.fail("Parse panics", fmt.Sprint(p))
		return
	}
	w.out.Evals++
	if (err == nil) != (m != nil) {
		w.fail("Parse does not accept and refuse as it should", fmt.Sprint(err))
		return
	}
	if m == nil && (strings.HasPrefix(how, " without")) && s.m != nil {
		// nothing to parse was given, whether the schema stays as it was is not specified
		w.drop(s)
		return
	}
	if s.m != nil {
		w.out.Counts["schemas parsed again"]++
	}
	s.m, s.age = m, 0
	if m != nil {
		w.out.Counts["schemas parsed"]++
	} else {
		w.out.Counts["schemas refused"]++
	}
}

func (w *world39) drop(s *schema39) {
	for i, x := range w.l {
		if x == s {
			w.l = append(w.l[:i:i], w.l[i+1:]...)
			return
		}
	}
}

func (w *world39) unparsed(s *schema39) {
	w.out.Evals++
	var errs []error
	if p := guard39(func() { errs = s.s.Resolve([]byte("{__typename}"), yarql.ResolveOptions{}) }); p != nil || len(errs) == 0 {
		w.fail("a schema that is not parsed answers", fmt.Sprint(s.id, p, string(s.s.Result)))
		return
	}
	if p := guard39(func() { s.s.Copy() }); p == nil {
		w.fail("a schema that is not parsed can be copied", fmt.Sprint(s.id))
	}
	w.out.Counts["schemas not parsed that were asked"]++
}

// interfacesIn gives the interfaces of a type in the schema
func (m *model39) interfacesIn(t string) (l []string) {
	for _, i := range keys39(m.impls) {
		if has39(m.impls[i], t) {
			l = append(l, i)
		}
	}
	return
}

type type39 struct {
	Kind, Name                            string
	PossibleTypes, Interfaces, EnumValues []struct{ Name string }
}

func names39(l []struct{ Name string }) string {
	var n []string
	for _, x := range l {
		n = append(n, x.Name)
	}
	sort.Strings(n)
	return strings.Join(n, " ")
}

func sorted39(l []string) string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (w *world39) ask(s *schema39, text, want string) {
	if w.failed {
		return
	}
	w.out.Evals++
	var errs []error
	p := guard39(func() { errs = s.s.Resolve([]byte(text), yarql.ResolveOptions{NoMeta: true}) })
	got := string(s.s.Result)
	bad := p != nil
	if want == "" {
		bad = bad || len(errs) == 0
	} else {
		bad = bad || len(errs) != 0 || got != want
	}
	if bad {
		if want == "" {
			want = "an error"
		}
		w.fail("a schema is not as its definition says", fmt.Sprintf("schema %d\n%s\ngives %s %v %v\nwant  %s", s.id, text, got, errs, p, want))
	}
}

// key39 is the output of an enum
func (m *model39) key39(name string, v int) string {
	e, ok := m.enums[name]
	if !ok {
		if name == "E39y" {
			return `"` + itoa(v) + `"`
		}
		return itoa(v)
	}
	for k, x := range e {
		if x == v {
			return `"` + k + `"`
		}
	}
	return "null"
}

func (w *world39) look(s *schema39) {
	m := s.m
	w.out.Counts["parsed schemas asked"]++
	if s.age > 1 {
		b, _ := json.Marshal([]interface{}{m.root, m.vals, m.impls, m.enums, fmt.Sprint(m.dirs)})
		w.out.NonTrivial = append(w.out.NonTrivial, string(b))
	}

	// introspection
	w.out.Evals++
	var errs []error
	p := guard39(func() {
		errs = s.s.Resolve([]byte("{__schema{queryType{name} mutationType{name} types{kind name possibleTypes{name} interfaces{name} enumValues{name}} directives{name locations}}}"), yarql.ResolveOptions{NoMeta: true})
	})
	if p != nil || len(errs) > 0 {
		w.fail("a schema cannot be introspected", fmt.Sprint(s.id, p, errs))
		return
	}
	var res struct {
		Schema struct {
			QueryType, MutationType struct{ Name string }
			Types                   []type39
			Directives              []struct {
				Name      string
				Locations []string
			}
		} `json:"__schema"`
	}
	if err := json.Unmarshal(s.s.Result, &res); err != nil {
		w.fail("introspection gives no JSON", err.Error())
		return
	}
	var got, want []string
	for _, t := range res.Schema.Types {
		if strings.Contains(t.Name, "39") {
			got = append(got, fmt.Sprintf("%s %s possible[%s] interfaces[%s] values[%s]", t.Kind, t.Name, names39(t.PossibleTypes), names39(t.Interfaces), names39(t.EnumValues)))
		}
	}
	for _, d := range res.Schema.Directives {
		for _, l := range d.Locations {
			got = append(got, "directive "+d.Name+" "+l)
		}
	}
	want = append(want, "OBJECT "+m.root+" possible[] interfaces[] values[]", "OBJECT M39 possible[] interfaces[] values[]")
	for i, l := range m.impls {
		want = append(want, fmt.Sprintf("INTERFACE %s possible[%s] interfaces[] values[]", i, sorted39(l)))
	}
	for t := range m.known {
		want = append(want, fmt.Sprintf("OBJECT %s possible[] interfaces[%s] values[]", t, sorted39(m.interfacesIn(t))))
	}
	// every enum that is registered is part of the schema
	enums := s.enums
	for e, keys := range enums {
		want = append(want, fmt.Sprintf("ENUM %s possible[] interfaces[] values[%s]", e, strings.Join(keys39(keys), " ")))
	}
	for _, n := range []string{"skip", "include"} {
		for _, l := range []string{"FIELD", "FRAGMENT_SPREAD", "INLINE_FRAGMENT"} {
			want = append(want, "directive "+n+" "+l)
		}
	}
	for _, d := range m.dirs {
		for l := range d.where {
			want = append(want, "directive "+d.name+" "+map[yarql.DirectiveLocation]string{yarql.DirectiveLocationField: "FIELD", yarql.DirectiveLocationFragment: "FRAGMENT_SPREAD", yarql.DirectiveLocationFragmentInline: "INLINE_FRAGMENT"}[l])
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "\n") != strings.Join(want, "\n") || res.Schema.QueryType.Name != m.root || res.Schema.MutationType.Name != "M39" {
		w.fail("introspection does not show the schema as it was defined", fmt.Sprintf("schema %d\ngot\n%s\nwant\n%s", s.id, strings.Join(got, "\n"), strings.Join(want, "\n")))
		return
	}

	// interface values
	for _, f := range []struct {
		root, field, iface string
		vals               []int
	}{
		{"R39a", "a", "PA39", []int{0}}, {"R39a", "l", "PA39", []int{1, 2, 3}}, {"R39b", "a", "PB39", []int{0}}, {"R39b", "d", "PD39", []int{1}}, {"R39c", "l", "PD39", []int{0, 1, 2}},
	} {
		if f.root != m.root {
			continue
		}
		for _, cond := range append(keys39(structs39), keys39(ifaces39)...) {
			if !chance(w.r, 3) {
				continue
			}
			one := func(i int) string {
				t := m.vals[i]
				if f.iface == "PD39" && (t == "T39d" || t == "T39e") {
					t = ""
				}
				if t == "" || !has39(m.impls[f.iface], t) {
					return "null"
				}
				r := fmt.Sprintf(`{"__typename":%q,"label":"l%s"`, t, t[3:])
				if cond == t || has39(m.interfacesIn(t), cond) {
					r += fmt.Sprintf(`,"in":"l%s"`, t[3:])
				}
				return r + "}"
			}
			want := one(f.vals[0])
			if f.field == "l" {
				want = fmt.Sprintf("[%s,%s,%s]", want, one(f.vals[1]), one(f.vals[2]))
			}
			w.ask(s, fmt.Sprintf("{%s{__typename label ...on %s{in:label}}}", f.field, cond), fmt.Sprintf(`{"%s":%s}`, f.field, want))
		}
	}
	if m.root == "R39c" {
		next := "null"
		if has39(m.impls["PC39"], "T39d") {
			next = `{"label":"ld","xd":5}`
		}
		w.ask(s, "{t{xc next{label ...on T39d{xd}}}}", `{"t":{"xc":9,"next":`+next+`}}`)
	}

	// enums
	for _, e := range roots39[m.root].enums {
		f := "e" + e[3:]
		want := ""
		switch {
		case e == "E39x":
			want = m.key39(e, int(exVal39))
		case e == "E39y" && m.root == "R39b":
			want = "[" + m.key39(e, 1) + "," + m.key39(e, 0) + "]"
		case e == "E39y":
			want = m.key39(e, 1)
		default:
			want = m.key39(e, int(ezVal39))
		}
		w.ask(s, "{"+f+"}", `{"`+f+`":`+want+`}`)
	}
	w.ask(s, "mutation{ex}", `{"ex":`+m.key39("E39x", int(exVal39))+`}`)
	if m.root != "R39b" {
		e, ok := m.enums["E39x"]
		for _, k := range []string{"ONE", "TWO", "Three", "x", "E39x", "T39a", "Late"} {
			want := ""
			if _, in := e[k]; ok && in {
				want = `{"echox":"` + k + `"}`
			}
			w.ask(s, "{echox(v:"+k+")}", want)
		}
		if !ok {
			w.ask(s, "{echox(v:3)}", `{"echox":3}`)
		}
	}
	if e, ok := m.enums["E39z"]; m.root == "R39d" && ok {
		keys := keys39(e)
		w.ask(s, "{echoz(v:["+strings.Join(keys, " ")+"])}", `{"echoz":["`+strings.Join(keys, `","`)+`"]}`)
	}

	// directives
	for _, n := range []string{"da", "db", "dc", "Include", "changed"} {
		for _, l := range []yarql.DirectiveLocation{yarql.DirectiveLocationField, yarql.DirectiveLocationFragment, yarql.DirectiveLocationFragmentInline} {
			text := map[yarql.DirectiveLocation]string{
				yarql.DirectiveLocationField:          "{t:__typename x:__typename@" + n + "}",
				yarql.DirectiveLocationFragment:       "{t:__typename ...F@" + n + "}fragment F on " + m.root + "{x:__typename}",
				yarql.DirectiveLocationFragmentInline: "{t:__typename ...on " + m.root + "@" + n + "{x:__typename}}",
			}[l]
			want := ""
			for _, d := range m.dirs {
				if d.name == n && d.where[l] {
					want = `{"t":"` + m.root + `","x":"` + m.root + `"}`
					if d.skip {
						want = `{"t":"` + m.root + `"}`
					}
				}
			}
			w.ask(s, text, want)
		}
	}
}
