package checks

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/mjarkk/yarql"
	"vh/q"
	"vh/run"
)

// I33 is the interface
type I33 interface{ ResolveId() int }

// the types that get names
type (
	A33 struct {
		N    int
		B    *B33
		Peer I33
	}
	B33 struct {
		A *A33
		S string
	}
	C33 struct {
		N    int
		Deep *C33
	}
	In33 struct {
		X   int
		Sub *Sub33
	}
	Sub33 struct {
		Y    int
		More []In33
	}
	Q33 struct {
		A  A33
		Bs []B33
		Is []I33
		C  *C33
	}
	M33 struct{ A *A33 }
)

func (a A33) ResolveId() int { return 10 + a.N }
func (b B33) ResolveId() int { return 20 + len(b.S) }

// ResolveIn takes a struct
func (Q33) ResolveIn(a struct{ V *In33 }) int {
	if a.V == nil {
		return -1
	}
	n := a.V.X
	if a.V.Sub != nil {
		n += 100 * a.V.Sub.Y
	}
	return n
}

// ResolveSubs takes a list
func (Q33) ResolveSubs(a struct{ V []Sub33 }) int {
	n := 0
	for _, s := range a.V {
		n = 10*n + s.Y
	}
	return n
}

// ResolveOther takes a type that is also an output
func (Q33) ResolveOther(a struct{ V C33 }) int { return a.V.N }

var types33 = map[string]interface{}{"A33": A33{}, "B33": B33{}, "C33": C33{}, "In33": In33{}, "Sub33": Sub33{}, "Q33": Q33{}, "M33": M33{}}
var keys33 = []string{"A33", "B33", "C33", "In33", "M33", "Q33", "Sub33"}

func init() {
	yarql.Implements((*I33)(nil), A33{})
	yarql.Implements((*I33)(nil), B33{})
	yarql.Implements((*I33)(nil), A33{})
	add(&run.Check{
		ID:     "C33",
		Rule:   "A case is a random history of TypeRename calls (valid names, names with white space around, names of other types, swapped names, empty and invalid names, forced ones, values of other kinds) interleaved with Parse, Copy and requests. A name is a table entry in the model: a call must return the trimmed name or panic without any effect. Parse must succeed exactly when the names in force (with the __input suffix of inputs that share the name of an object) are distinct. Each schema and copy is then checked, also after later renames, against the names that were in force at its Parse: the introspected types with their fields, interfaces, possible types and input fields, __type of every name in play, __typename at every position, type conditions of every name in play on roots, objects and interface values, and declared variable types of every name in play. Non-trivial: distinct assignment of names with a request that showed it.",
		Assume: []string{"TypeRename and Parse are called one at a time, as package initialisation does", "names of built-in types and of enums are not used"},
		Quick:  8000, Thorough: 200000,
		Run: c33,
	})
}

type schema33 struct {
	s     *yarql.Schema
	names map[string]string
	in    map[string]string
}

// inputs33 gives the names of the inputs, and whether all names differ
func inputs33(names map[string]string) (map[string]string, bool) {
	out := map[string]bool{"I33": true}
	ok := true
	for _, k := range []string{"A33", "B33", "C33", "Q33", "M33"} {
		ok = ok && !out[names[k]]
		out[names[k]] = true
	}
	objs := map[string]bool{}
	for _, k := range []string{"A33", "B33", "C33", "Q33", "M33"} {
		objs[names[k]] = true
	}
	in := map[string]string{}
	for _, k := range []string{"In33", "Sub33", "C33"} {
		n := names[k]
		if objs[n] {
			n += "__input"
		}
		ok = ok && !out[n]
		out[n] = true
		in[k] = n
	}
	return in, ok
}

func name33(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0, 1:
		return pick(r, keys33...)
	case 2:
		return pick(r, "I33", "A33__input", "C33__input", "Alpha__input")
	}
	return pick(r, "Alpha", "beta", "x_1", "Query", "Mutation", "Z"+strings.Repeat("z", 200), "Gamma9", "A3", "A333", "a33", "Time33", "typename", "on1")
}

func rename33(v interface{}, name string, force ...bool) (got string, p interface{}) {
	defer func() { p = recover() }()
	return yarql.TypeRename(v, name, force...), nil
}

func c33(t *run.T) {
	r := t.R
	names := map[string]string{}
	for _, k := range keys33 {
		names[k] = k
		if got, p := rename33(types33[k], k); p != nil || got != k {
			t.Failf("TypeRename refuses the own name of a type", "%s: %q %v", k, got, p)
			return
		}
	}
	var l []*schema33
	var log []string
	play := map[string]bool{"I33": true, "nope": true, "A33__input": true}
	for _, k := range keys33 {
		play[k] = true
	}
	for i := 0; i < 14 && !t.Failed(); i++ {
		switch r.Intn(6) {
		case 0, 1, 2:
			k := pick(r, keys33...)
			if chance(r, 6) { // two types swap names
				o := pick(r, keys33...)
				a, b := names[o], names[k]
				rename33(types33[k], a, true)
				rename33(types33[o], b, true)
				names[k], names[o] = a, b
				log = append(log, "swap "+k+" "+o)
				t.Count("names swapped", 1)
				continue
			}
			n := name33(r)
			want := n
			arg := n
			var force []bool
			bad := false
			v := types33[k]
			if chance(r, 3) {
				force = []bool{chance(r, 2)}
				if force[0] && chance(r, 2) {
					n = "_" + n
					arg, want = n, n
				}
			}
			if chance(r, 4) {
				sp := []string{" ", "\t", "\n ", "  ", ""}
				arg = pick(r, sp...) + n + pick(r, sp...)
			}
			switch r.Intn(8) {
			case 3:
				bad = true
				arg = pick(r, "", " ", "\t\n", "1a", "a-b", "ab-", "Ab1-", "a b", "é", "a.b", "a!", "[A]", "_a", "__A", "a\x00", "A\nB", "$a")
				force = nil
				if chance(r, 2) {
					force = []bool{strings.TrimSpace(arg) == ""}
				}
			case 4:
				if chance(r, 2) {
					bad = true
					v = pick[interface{}](r, 1, "x", struct{ A int }{}, []A33{}, &A33{}, map[string]int{}, fun33(nil), text33(""))
				}
			}
			got, p := rename33(v, arg, force...)
			t.Eval(1)
			log = append(log, fmt.Sprintf("rename %T %q force %v", v, arg, force))
			switch {
			case bad && p == nil:
				t.Fail("TypeRename accepts what it cannot rename", strings.Join(log, "\n"))
			case !bad && (p != nil || got != want):
				t.Fail("TypeRename does not give the new name", fmt.Sprintf("%s\nreturned %q, panic %v", strings.Join(log, "\n"), got, p))
			}
			if bad {
				t.Count("renames refused", 1)
			} else {
				names[k] = n
				play[n] = true
				t.Count("renames", 1)
			}
		case 3:
			s := yarql.NewSchema()
			root := Q33{A: A33{N: 1, B: &B33{S: "b", A: &A33{N: 2}}, Peer: B33{S: "bb"}}, Bs: []B33{{S: "x"}, {}}, Is: []I33{A33{N: 3}, B33{S: "y"}, nil}, C: &C33{N: 4, Deep: &C33{N: 5}}}
			err := s.Parse(root, M33{A: &A33{N: 6}}, nil)
			in, ok := inputs33(names)
			t.Eval(1)
			log = append(log, fmt.Sprint("parse ", err))
			if ok != (err == nil) {
				t.Fail(map[bool]string{true: "Parse refuses distinct names", false: "Parse accepts two types of one name"}[ok], fmt.Sprintf("%s\nnames %v", strings.Join(log, "\n"), names))
				return
			}
			if err != nil {
				t.Count("schemas refused for equal names", 1)
				continue
			}
			x := &schema33{s: s, names: map[string]string{}, in: in}
			for k, n := range names {
				x.names[k] = n
			}
			l = append(l, x)
		case 4:
			if len(l) > 0 {
				x := *pick(r, l...)
				x.s = x.s.Copy()
				l = append(l, &x)
				log = append(log, "copy")
				t.Count("copies", 1)
			}
		}
		if len(l) > 0 {
			x := pick(r, l...)
			if d := x.look(t, r, play); d != "" {
				t.Fail(d, fmt.Sprintf("%s\nnames at Parse %v\nnames now %v", strings.Join(log, "\n"), x.names, names))
			}
		}
	}
}

type fun33 func()
type text33 string

// look compares a schema with the names it was parsed with
func (x *schema33) look(t *run.T, r *rand.Rand, play map[string]bool) string {
	t.Eval(1)
	ask := func(text, vars string) (*q.J, []error, string) {
		errs := x.s.Resolve([]byte(text), yarql.ResolveOptions{NoMeta: true, Variables: vars})
		raw := string(x.s.Result)
		j, err := q.ParseJSON(raw)
		if err != nil {
			return &q.J{K: 'n'}, append(errs, err), raw
		}
		return j, errs, raw
	}
	n, in := x.names, x.in
	t.NonTrivial(fmt.Sprint(n))
	if t.WantSample() {
		t.Sample("%v", n)
	}
	switch r.Intn(5) {
	case 0: // introspection
		j, errs, raw := ask(`{__schema{queryType{name}mutationType{name}types{name kind fields{name type{name ofType{name ofType{name ofType{name}}}}}inputFields{name type{name ofType{name ofType{name ofType{name}}}}}possibleTypes{name}interfaces{name}}}}`, "")
		if len(errs) > 0 {
			return fmt.Sprint("introspection fails: ", errs)
		}
		fields := func(o *q.J, k string) string {
			var l []string
			if o.Get(k) != nil {
				for _, f := range o.Get(k).A {
					s := f.Get("name").S
					for ty := f.Get("type"); ty != nil && ty.K == 'o'; ty = ty.Get("ofType") {
						if y := ty.Get("name"); y != nil && y.K == 's' {
							s += ":" + y.S
						}
					}
					l = append(l, s)
				}
			}
			sort.Strings(l)
			return strings.Join(l, " ")
		}
		var got []string
		for _, ty := range j.Get("__schema").Get("types").A {
			kind := ty.Get("kind").S
			name := ty.Get("name").S
			if kind != "OBJECT" && kind != "INTERFACE" && kind != "INPUT_OBJECT" || strings.HasPrefix(name, "__") && !play[name] {
				continue
			}
			got = append(got, fmt.Sprintf("%s %s fields(%s) inputs(%s) possible(%s) interfaces(%s)", kind, name, fields(ty, "fields"), fields(ty, "inputFields"), fields(ty, "possibleTypes"), fields(ty, "interfaces")))
		}
		sorted := func(a ...string) string { sort.Strings(a); return strings.Join(a, " ") }
		w := []string{
			"OBJECT " + n["A33"] + " fields(b:" + n["B33"] + " id:Int n:Int peer:I33) inputs() possible() interfaces(I33)",
			"OBJECT " + n["B33"] + " fields(a:" + n["A33"] + " id:Int s:String) inputs() possible() interfaces(I33)",
			"OBJECT " + n["C33"] + " fields(deep:" + n["C33"] + " n:Int) inputs() possible() interfaces()",
			"OBJECT " + n["Q33"] + " fields(a:" + n["A33"] + " bs:" + n["B33"] + " c:" + n["C33"] + " in:Int is:I33 other:Int subs:Int) inputs() possible() interfaces()",
			"OBJECT " + n["M33"] + " fields(a:" + n["A33"] + ") inputs() possible() interfaces()",
			"INTERFACE I33 fields(id:Int) inputs() possible(" + sorted(n["A33"], n["B33"]) + ") interfaces()",
			"INPUT_OBJECT " + in["In33"] + " fields() inputs(sub:" + in["Sub33"] + " x:Int) possible() interfaces()",
			"INPUT_OBJECT " + in["Sub33"] + " fields() inputs(more:" + in["In33"] + " y:Int) possible() interfaces()",
			"INPUT_OBJECT " + in["C33"] + " fields() inputs(deep:" + in["C33"] + " n:Int) possible() interfaces()",
		}
		sort.Strings(got)
		sort.Strings(w)
		if g, w := strings.Join(got, "\n"), strings.Join(w, "\n"); g != w {
			return "introspection does not show the names in force\nwant:\n" + w + "\ngot:\n" + g + "\n" + clip(raw, 500)
		}
		if a, b := j.Get("__schema").Get("queryType").Get("name").S, j.Get("__schema").Get("mutationType").Get("name").S; a != n["Q33"] || b != n["M33"] {
			return "the roots have other names in introspection: " + a + " " + b
		}
		t.Count("introspections", 1)
	case 1: // __type
		kinds := map[string]string{"I33": "INTERFACE"}
		for _, k := range []string{"A33", "B33", "C33", "Q33", "M33"} {
			kinds[n[k]] = "OBJECT"
		}
		for _, y := range in {
			kinds[y] = "INPUT_OBJECT"
		}
		for _, name := range sortedKeys(play) {
			j, errs, raw := ask(`query($n:String!){__type(name:$n){name kind}}`, `{"n":`+q.Quote(name)+`}`)
			want := `{"__type":null}`
			if k := kinds[name]; k != "" {
				want = `{"__type":{"name":` + q.Quote(name) + `,"kind":"` + k + `"}}`
			}
			if len(errs) > 0 || j.Text() != want {
				return fmt.Sprintf("__type of %q gives %s, want %s (errors %v)", name, raw, want, errs)
			}
		}
		t.Count("names asked for with __type", len(play))
	case 2, 3: // __typename and type conditions
		var conds, defs strings.Builder
		want := func(as ...string) string {
			s := ""
			for i, name := range sortedKeys(play) {
				for _, a := range as {
					if a == name {
						s += fmt.Sprintf(`,"k%d":%s`, i, q.Quote(as[0]))
					}
				}
			}
			return `{"__typename":` + q.Quote(as[0]) + s
		}
		for i, name := range sortedKeys(play) {
			if chance(r, 2) {
				fmt.Fprintf(&conds, " ...on %s{k%d:__typename}", name, i)
			} else {
				fmt.Fprintf(&conds, " ...F%d", i)
				fmt.Fprintf(&defs, " fragment F%d on %s{k%d:__typename}", i, name, i)
			}
		}
		c := "__typename" + conds.String()
		text := "{" + c + " a{" + c + " b{" + c + " a{" + c + "}}peer{" + c + "}}bs{" + c + "}is{" + c + "}c{" + c + " deep{" + c + "}}}" + defs.String()
		A, B, C := want(n["A33"], "I33"), want(n["B33"], "I33"), want(n["C33"])
		w := want(n["Q33"]) + `,"a":` + A + `,"b":` + B + `,"a":` + A + `}},"peer":` + B + `}},"bs":[` + B + `},` + B + `}],"is":[` + A + `},` + B + `},null],"c":` + C + `,"deep":` + C + `}}}`
		j, errs, raw := ask(text, "")
		if len(errs) > 0 || j.Text() != w {
			return fmt.Sprintf("__typename and type conditions do not follow the names in force\n%s\nwant %s\ngot  %s\nerrors %v", text, w, raw, errs)
		}
		if j, errs, raw := ask("mutation{"+c+" a{"+c+"}}"+defs.String(), ""); len(errs) > 0 || j.Text() != want(n["M33"])+`,"a":`+A+`}}` {
			return fmt.Sprintf("__typename and type conditions of the mutation do not follow the names in force\n%s\nerrors %v", raw, errs)
		}
		t.Count("type conditions", 9*len(play))
	case 4: // variables
		for _, name := range sortedKeys(play) {
			for _, v := range []struct{ key, of, vars, res string }{
				{"in", "In33", `{"v":{"x":3,"sub":{"y":2,"more":[{"x":1}]}}}`, "203"},
				{"subs", "Sub33", `{"v":[{"y":4},{"y":2}]}`, "42"},
				{"other", "C33", `{"v":{"n":9,"deep":{"n":1}}}`, "9"},
			} {
				ty := name + pick(r, "", "!")
				if v.key == "subs" {
					ty = "[" + ty + "]" + pick(r, "", "!")
				}
				text := "query($v:" + ty + "){" + v.key + "(v:$v)}"
				j, errs, raw := ask(text, v.vars)
				if name == in[v.of] {
					if len(errs) > 0 || j.Text() != `{"`+v.key+`":`+v.res+`}` {
						return fmt.Sprintf("a variable of the name in force is refused\n%s %s\n%s %v", text, v.vars, raw, errs)
					}
				} else if len(errs) == 0 {
					return fmt.Sprintf("a variable of another type name is accepted\n%s %s\n%s", text, v.vars, raw)
				}
			}
		}
		t.Count("variable types", 3*len(play))
	}
	t.Count("schemas looked at", 1)
	return ""
}

func sortedKeys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
