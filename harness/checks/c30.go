package checks

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/mjarkk/yarql"
	"github.com/mjarkk/yarql/tester"
	"vh/core"
	"vh/run"
)

func init() {
	add(&run.Check{
		ID:     "C30",
		Rule:   "Random schemas. The harness reads the complete introspection result from another schema of the same types and derives the fields of every named Go type from the reference model; the two have to agree. The helpers are then asked about every type and about names near to one (other case, prefix, extension, wrappers, fields, directives, anonymous names, control characters, broken UTF-8, quotes, long) and about field sets (subsets, supersets, permutations, repetitions, other case, fields of other types, empty, nil), on the schema and on copies, between other requests that succeed and fail. Each answer has to be the fact, which includes that helpers leave the schema as it was: a request before and after gives the same. Fields that HasFields reports on the query type are selected and have to exist, others have to be refused. Non-trivial: distinct question about a type that exists.",
		Assume: []string{"the maximum depth of the schema allows introspection", "a repeated field in a set counts once"},
		Quick:  2500, Thorough: 60000,
		Run: c30,
	})
}

type type30 struct {
	kind   string
	fields []string
}

// near30 makes a name near to n
func near30(r *rand.Rand, n string) string {
	if n == "" {
		n = "X"
	}
	return pick(r, flipCase(n), strings.ToLower(n), n[:len(n)-1], n[1:], n+"s", n+" ", " "+n, n+"!", "["+n+"]", n+"\x00", "\x00"+n, n+"\n", n+n, "_"+n, "__"+n, n+"\"", `"`+n+`"`, n+"\\", n+"\xff", n+"é", "$"+n, "{"+n+"}", "", n+"}", n+strings.Repeat("x", 1000), strings.Replace(n, n[:1], `\u00`+fmt.Sprintf("%02x", n[0]), 1))
}

func c30(t *run.T) {
	r := t.R
	c := newCase(t, core.CaseOpt{Budget: 120})
	if c == nil {
		return
	}
	other, err := c.NewSchema()
	if err != nil {
		t.Fail("a valid schema is refused", err.Error())
		return
	}
	res := c.Run(other, introspect20, (&core.Request{}).Options())
	if res.Bad != "" || len(res.Errs) > 0 {
		t.Fail("the introspection query fails", res.Bad+"\n"+res.Raw)
		return
	}
	g, bad := readGraph(res.Data)
	if bad != "" {
		t.Fail(bad, res.Raw)
		return
	}
	facts := map[string]*type30{}
	var names, allFields []string
	for _, x := range g.list {
		f := &type30{kind: str(x.Get("kind"))}
		for _, y := range x.Get("fields").A {
			f.fields = append(f.fields, str(y.Get("name")))
		}
		facts[str(x.Get("name"))] = f
		names = append(names, str(x.Get("name")))
		allFields = append(allFields, f.fields...)
	}
	// what the Go types say
	model := map[string]reflect.Type{c.M.Obj(c.QT).Name: c.QT, c.M.Obj(c.MT).Name: c.MT}
	for _, n := range names {
		f := facts[n]
		if ty := model[n]; ty != nil && n != "" {
			var l []string
			for _, y := range c.M.Obj(ty).Fields {
				l = append(l, y.Name)
			}
			a, b := append([]string{}, f.fields...), l
			sort.Strings(a)
			sort.Strings(b)
			var own []string
			for _, x := range a {
				if !strings.HasPrefix(x, "__") {
					own = append(own, x)
				}
			}
			if strings.Join(own, " ") != strings.Join(b, " ") {
				t.Fail(fmt.Sprintf("introspection lists the fields %q of %s, which has %q", own, n, b), c.QT.String())
				return
			}
		}
	}
	s := c.S
	gq := core.NewGen(c, r, core.DefaultOpt())
	probe := gq.Request()
	before := c.Run(s, probe.Text, probe.Options()).Raw
	for i := 0; i < 40; i++ {
		if chance(r, 8) {
			rq := gq.Request()
			text := rq.Text
			if chance(r, 3) {
				text = text[:r.Intn(len(text))]
			}
			c.Run(s, text, rq.Options())
		}
		if chance(r, 25) {
			s = s.Copy()
		}
		name := pick(r, names...)
		if chance(r, 3) {
			name = pick(r, near30(r, name), near30(r, name), pick(r, "skip", "include", "name", "query", "M2", "S99", "__UnknownType0", "__UnknownInput0", "__unknown", "Null", "File", "Any"))
			if len(allFields) > 0 && chance(r, 6) {
				name = pick(r, allFields...)
			}
		}
		f := facts[name]
		t.Eval(1)
		var l []string
		what := "nil"
		isObj := f != nil && (f.kind == "OBJECT" || f.kind == "INTERFACE")
		if f != nil {
			l = append(l, f.fields...)
			r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			what = "permutation"
			for k := r.Intn(3); k > 0; k-- {
				switch r.Intn(7) {
				case 0, 1:
					if len(l) > 0 {
						what = "subset"
						l = l[:r.Intn(len(l))]
					}
				case 2:
					what = "with another field"
					l = append(l, pick(r, "nope", "__typename", "", "\x00", near30(r, "name")))
				case 3:
					if len(allFields) > 0 {
						what = "with a field of some type"
						l = append(l, pick(r, allFields...))
					}
				case 4:
					if len(l) > 0 {
						what = "with a field twice"
						l = append(l, pick(r, l...))
					}
				case 5:
					if len(l) > 0 {
						what = "with a field changed"
						k := r.Intn(len(l))
						l[k] = near30(r, l[k])
					}
				default:
					what = "empty"
					l = []string{}
				}
			}
			t.NonTrivial(name, f.fields, l)
			t.Count("types: "+f.kind, 1)
			t.Count("field sets: "+what, 1)
		} else {
			t.Count("names of no type", 1)
			if chance(r, 2) && len(allFields) > 0 {
				l = []string{pick(r, allFields...)}
			}
		}
		has := map[string]bool{}
		if f != nil {
			for _, x := range f.fields {
				has[x] = true
			}
		}
		sub, all := isObj, isObj
		seen := map[string]bool{}
		for _, x := range l {
			seen[x] = true
			if !has[x] {
				sub, all = false, false
			}
		}
		if len(seen) != len(has) {
			all = false
		}
		detail := fmt.Sprintf("type %q is %+v, asked for the fields %q", name, f, l)
		given := strings.Join(l, "\x01")
		kind := ""
		if f != nil {
			kind = f.kind
		}
		switch r.Intn(5) {
		case 0:
			if got := tester.HasType(s, name); got != (f != nil) {
				t.Fail(fmt.Sprintf("HasType(%q) is %v", name, got), detail)
			}
		case 1:
			if got := tester.TypeKind(s, name); got != kind {
				t.Fail(fmt.Sprintf("TypeKind(%q) is %q", name, got), detail)
			}
		case 2:
			got := tester.GetTypeByName(s, name)
			if (got != nil) != (f != nil) {
				t.Fail(fmt.Sprintf("GetTypeByName(%q) is %v", name, got), detail)
			} else if got != nil {
				var l []string
				for _, x := range got.Fields {
					l = append(l, x.Name)
				}
				a := append([]string{}, f.fields...)
				sort.Strings(a)
				sort.Strings(l)
				if got.Kind != f.kind || strings.Join(a, " ") != strings.Join(l, " ") {
					t.Fail(fmt.Sprintf("GetTypeByName(%q) is %+v", name, *got), detail)
				}
			}
		case 3:
			if err := tester.HasFields(s, name, l); (err == nil) != sub {
				t.Fail(fmt.Sprintf("HasFields gives %v", err), detail)
			}
			if sub {
				t.Count("true claims about fields", 1)
			}
		case 4:
			if err := tester.OnlyHasFields(s, name, l); (err == nil) != all {
				t.Fail(fmt.Sprintf("OnlyHasFields gives %v", err), detail)
			}
			if all {
				t.Count("true claims about all fields", 1)
			}
		}
		if strings.Join(l, "\x01") != given {
			t.Fail("a helper changes the given fields", detail)
		}
		if t.WantSample() && f != nil {
			t.Sample("%s", detail)
		}
	}
	// the helpers change nothing
	if after := c.Run(s, probe.Text, probe.Options()).Raw; after != before {
		t.Fail("the schema answers differently after the helpers", "before: "+before+"\nafter: "+after+"\n"+probe.Text)
	}
	c30exec(t, c, s, g)
}

// c30exec compares with execution: a field exists when it can be selected
func c30exec(t *run.T, c *core.Case, s *yarql.Schema, g *graph20) {
	r := t.R
	ns := []string{"nope", "__Typename", "a"}
	for _, x := range g.list {
		for _, f := range x.Get("fields").A {
			ns = append(ns, str(f.Get("name")))
		}
	}
	for i := 0; i < 5; i++ {
		n := pick(r, ns...)
		if strings.HasPrefix(n, "__") || n == "" {
			continue
		}
		err := tester.HasFields(s, g.query, []string{n})
		text := "{" + n + "}"
		res := c.Run(s, text, yarql.ResolveOptions{NoMeta: true})
		missing := false
		for _, e := range res.GoErr {
			if strings.Contains(e, "does not exist") {
				missing = true
			}
		}
		t.Count("fields executed", 1)
		// a null is possible for another reason, then there is another error
		if (err != nil) && (len(res.GoErr) == 0) || err == nil && missing {
			t.Fail(fmt.Sprintf("HasFields(%s) gives %v, the query gives %q", n, err, res.GoErr), text+"\n"+res.Raw)
		}
	}
}
