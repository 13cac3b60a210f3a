package checks

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/q"
	"vh/run"
)

func init() {
	add(&run.Check{
		ID:     "C32",
		Rule:   "A case is a random schema parsed three times: with no options, with empty options and with SkipGraphqlTypesInjection. Requests of every kind (valid, failing, damaged, traced, HTTP, batches, panicking resolvers, ended contexts) run in one random order on members and copies of the three families; those that do not name __schema or __type have to give the same response, errors and resolver records on all, and valid ones the outcome of the reference interpreter. Requests that reach __schema or __type (aliased, in fragments, between other fields) must give an error and nothing of the types on the schema without introspection, and the same response as ever on the others. Non-trivial: distinct request whose outcome was compared.",
		Assume: []string{"only the wording, not the presence, of the error for a missing __schema is left open"},
		Quick:  2500, Thorough: 60000,
		Run: c32,
	})
}

var namesIntro = regexp.MustCompile(`__schema|__type($|[^n])`)

func c32(t *run.T) {
	r := t.R
	var c *core.Case
	if chance(r, 3) {
		c = argCase(t, 1+r.Intn(3), 1+r.Intn(4), false)
	} else {
		c = newCase(t, core.CaseOpt{Budget: 250, BadUTF: chance(r, 2)})
	}
	if c == nil {
		return
	}
	var fams [3][]*yarql.Schema
	fams[0] = []*yarql.Schema{c.S}
	for i, o := range []*yarql.SchemaOptions{{}, {SkipGraphqlTypesInjection: true}} {
		c.Options = o
		s, err := c.NewSchema()
		if err != nil {
			t.Fail("options make a valid schema refused", fmt.Sprintf("%+v: %v", *o, err))
			return
		}
		fams[i+1] = []*yarql.Schema{s}
	}
	c.W.FailMod = uint64(2 + r.Intn(12))
	opt := core.DefaultOpt()
	opt.VarP = 30
	opt.Budget = 80
	g := core.NewGen(c, r, opt)
	pool := []*core.Request{g.Request(), g.Request(), g.Request()}
	depth := pick(r, 255, 255, 255, 1, 2, 3, 4)
	for _, f := range fams {
		f[0].MaxDepth = uint8(depth)
	}
	for i := 0; i < 16; i++ {
		if chance(r, 5) {
			for k := range fams {
				fams[k] = append(fams[k], pick(r, fams[k]...).Copy())
			}
			t.Count("copies", 3)
		}
		switch {
		case chance(r, 4) && depth == 255:
			rq := pick(r, pool...)
			e, resp := conform(t, c, pick(r, fams[2]...), rq, core.PAll)
			if t.Failed() {
				return
			}
			if e.Fields > 1 {
				t.NonTrivial(shapeOf(c, rq))
				t.Count("requests compared with the model", 1)
				sample(t, rq, resp)
			}
		case chance(r, 4):
			c32intro(t, c, g, fams)
		default:
			a := anyRequest(t, c, g, pool)
			if namesIntro.MatchString(a.h.text) || namesIntro.MatchString(a.h.body) {
				continue
			}
			t.Count("requests: "+a.kind, 1)
			var out [3]string
			for _, k := range r.Perm(3) {
				out[k] = a.run(c, pick(r, fams[k]...), true)
			}
			t.Eval(2)
			if out[0] != out[1] {
				t.Fail("empty options change the outcome of a request", fmt.Sprintf("%v\nno options:    %s\nempty options: %s", a, out[0], out[1]))
			}
			if out[0] != out[2] {
				t.Fail("a schema without the introspection types answers a request differently", fmt.Sprintf("%v\nwith:    %s\nwithout: %s", a, out[0], out[2]))
			}
			t.NonTrivial(c.QT.String() + c.MT.String() + a.String())
		}
		if t.Failed() {
			return
		}
	}
}

// c32intro sends a request that reaches __schema or __type
func c32intro(t *run.T, c *core.Case, g *core.Gen, fams [3][]*yarql.Schema) {
	r := t.R
	alias := pick(r, "", "", "a: ", "x1: ", "__schema: ", "__type: ")
	key := strings.TrimSuffix(alias, ": ")
	vars, head := "", ""
	var sel string
	if chance(r, 2) {
		sel = alias + `__schema` + pick(r, `{queryType{name}}`, `{types{name kind}}`, `{directives{name}}`)
		if key == "" {
			key = "__schema"
		}
	} else {
		name := q.Quote(pick(r, c.QName, c.MName, "S0", "Int", "nope", "__Type"))
		if chance(r, 3) {
			vars, head, name = `{"n":`+name+`}`, `query($n:String!)`, "$n"
		}
		sel = alias + `__type(name:` + name + `)` + pick(r, `{name}`, `{kind fields{name}}`, `{name possibleTypes{name}}`)
		if key == "" {
			key = "__type"
		}
	}
	text := sel
	tail := ""
	switch r.Intn(4) {
	case 0:
		if c.QName != "" && !strings.HasPrefix(c.QName, "__") {
			text = "... on " + c.QName + "{" + sel + "}"
		}
	case 1:
		if c.QName != "" && !strings.HasPrefix(c.QName, "__") {
			text = "...F"
			tail = " fragment F on " + c.QName + "{" + sel + "}"
		}
	case 2:
		text = "first: __typename " + sel + " last: __typename"
	}
	a := &anyReq{kind: "introspection", h: hostile{text: head + "{" + text + "}" + tail, vars: vars, method: "POST", ctype: "application/json"}}
	if chance(r, 4) {
		a.http = true
		a.h.body = `{"query":` + q.Quote(a.h.text) + `,"variables":` + orNull(vars) + `}`
	}
	full := a.run(c, pick(r, fams[0]...), true)
	if out := a.run(c, pick(r, fams[1]...), true); sortedLetters(out) != sortedLetters(full) {
		t.Fail("empty options change the outcome of an introspection", fmt.Sprintf("%v\nno options:    %s\nempty options: %s", a, clip(full, 3000), clip(out, 3000)))
		return
	}
	t.Eval(2)
	s := pick(r, fams[2]...)
	errs := s.Resolve([]byte(a.h.text), yarql.ResolveOptions{Variables: vars})
	raw := string(s.Result)
	j, err := q.ParseJSON(raw)
	switch {
	case err != nil:
		t.Fail("the response to an introspection is not JSON: "+err.Error(), raw)
	case len(errs) == 0 || j.Get("errors") == nil || len(j.Get("errors").A) == 0:
		t.Fail("a schema without the introspection types answers an introspection without an error", a.String()+"\n"+raw)
	case j.Get("data") != nil && j.Get("data").Get(key) != nil && j.Get("data").Get(key).K != 'n':
		t.Fail("a schema without the introspection types describes itself", a.String()+"\n"+raw)
	}
	if out := a.run(c, s, true); !strings.Contains(out, `"errors"`) || strings.Contains(out, "PANIC") {
		t.Fail("a schema without the introspection types answers an introspection without an error", a.String()+"\n"+out)
	}
	t.Count("introspections refused", 1)
	t.NonTrivial(a.String(), c.QT.String())
}

// sortedLetters tells whether two texts are the same but for the order of
// what they list
func sortedLetters(s string) string {
	l := strings.FieldsFunc(s, func(c rune) bool { return c == '{' || c == '}' || c == ',' || c == '[' || c == ']' })
	sortStrings(l)
	return strings.Join(l, " ")
}
