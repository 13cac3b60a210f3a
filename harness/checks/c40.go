package checks

import (
	"context"
	"fmt"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/run"
)

func init() {
	add(&run.Check{
		ID:     "C40",
		Rule:   "A case is a set of schemas of one or two kinds of roots, their copies, and requests of every kind (valid, damaged, failing, panicking, introspecting, traced, cached, batched). Each request is first served alone on a freshly parsed schema. Then a request is served while, inside of its resolvers, other requests are served on other schemas: parsed before or at that moment, copies made before or at that moment (also of a schema that is serving), and inside of those resolvers again, up to four deep; in between schemas are copied, parsed, or their cache rules set. Response, errors and the record of all resolver calls of every request, outer and inner, have to be those of the request served alone, and the position, context and values seen by a resolver are the same before and after the nested requests. Non-trivial: distinct pair of outer request and nested request.",
		Assume: []string{"a schema that is serving a request serves no other one at that moment"},
		Quick:  700, Thorough: 20000,
		Run: c40,
	})
}

type world40 struct {
	t     *run.T
	cases []*core.Case
	set   []func(s *yarql.Schema)
	idle  [][]*yarql.Schema // schemas that serve nothing, by case
	reqs  [][]*anyReq
	want  map[*anyReq]string
	depth int
	left  int
	bad   bool
}

func c40(t *run.T) {
	r := t.R
	w := &world40{t: t, want: map[*anyReq]string{}, left: 60}
	n := 1 + r.Intn(2)
	for i := 0; i < n; i++ {
		var c *core.Case
		if chance(r, 3) {
			c = argCase(t, 1+r.Intn(3), 1+r.Intn(4), false)
		} else {
			c = newCase(t, core.CaseOpt{Budget: 150, BadUTF: true})
		}
		if c == nil {
			return
		}
		c.W.FailMod = uint64(2 + r.Intn(12))
		minLen := -1
		if chance(r, 2) {
			minLen = r.Intn(200)
		}
		w.cases = append(w.cases, c)
		w.set = append(w.set, func(s *yarql.Schema) {
			if minLen >= 0 {
				n := minLen
				s.SetCacheRules(&n)
			}
		})
		opt := core.DefaultOpt()
		opt.VarP = 35
		opt.Budget = 40
		g := core.NewGen(c, r, opt)
		pool := []*core.Request{g.Request(), g.Request(), g.Request()}
		var reqs []*anyReq
		for j := 0; j < 8; j++ {
			a := anyRequest(t, c, g, pool)
			fresh := w.parse(i)
			if fresh == nil {
				return
			}
			w.want[a] = a.run(c, fresh, true)
			reqs = append(reqs, a)
		}
		w.reqs = append(w.reqs, reqs)
		first := w.parse(i)
		if first == nil {
			return
		}
		w.idle = append(w.idle, []*yarql.Schema{first, first.Copy()})
	}
	for i := 0; i < 10 && !w.bad; i++ {
		w.left = 12
		w.serve(nil, nil)
	}
}

func (w *world40) parse(i int) *yarql.Schema {
	s, err := w.cases[i].NewSchema()
	if err != nil {
		w.t.Fail("a valid schema is refused", err.Error())
		w.bad = true
		return nil
	}
	w.set[i](s)
	return s
}

// serve serves a request on an idle schema, and others inside of it
func (w *world40) serve(outer *anyReq, busy *yarql.Schema) {
	r := w.t.R
	i := r.Intn(len(w.cases))
	c := w.cases[i]
	a := w.reqs[i][r.Intn(len(w.reqs[i]))]

	var s *yarql.Schema
	how := "idle schema"
	switch r.Intn(5) {
	case 0:
		how = "schema parsed just now"
		s = w.parse(i)
	case 1:
		how = "copy made just now"
		if len(w.idle[i]) > 0 {
			s = w.idle[i][r.Intn(len(w.idle[i]))].Copy()
		}
	default:
		if k := len(w.idle[i]); k > 0 {
			x := r.Intn(k)
			s = w.idle[i][x]
			w.idle[i] = append(append([]*yarql.Schema{}, w.idle[i][:x]...), w.idle[i][x+1:]...)
		}
	}
	if s == nil {
		how = "schema parsed just now"
		if s = w.parse(i); s == nil {
			return
		}
	}

	hooks := make([]func(), len(w.cases))
	for k, x := range w.cases {
		x, log, hook := x, x.W.Log, x.W.Hook
		hooks[k] = func() { x.W.Log, x.W.Hook = log, hook }
	}

	b := *a
	nested := 0
	b.nest = func(call int, ctx *yarql.Ctx) {
		if w.depth >= 4 || w.left <= 0 || w.bad || !chance(r, 3) {
			return
		}
		w.left--
		nested++
		var path string
		var goCtx context.Context
		var seen string
		look := func() string {
			v, ok := ctx.GetValueOk("set")
			return fmt.Sprint(v, ok)
		}
		if ctx != nil {
			path, goCtx, seen = string(ctx.GetPath()), ctx.GetContext(), look()
		}
		switch r.Intn(8) {
		case 0:
			// also a schema that is serving can be copied, the copy is used later
			w.t.Count("copies of a schema that is serving", 1)
			x := s.Copy()
			w.set[i](x)
			w.idle[i] = append(w.idle[i], x)
		case 1:
			if x := w.parse(i); x != nil {
				w.idle[i] = append(w.idle[i], x)
			}
		}
		w.depth++
		w.serve(a, s)
		w.depth--
		if ctx != nil && !w.bad {
			if p := string(ctx.GetPath()); p != path || ctx.GetContext() != goCtx || look() != seen {
				w.bad = true
				w.t.Fail("serving another request inside of a resolver changes what the resolver sees", fmt.Sprintf("%s\nbefore: %s %s\nafter: %s %s", a, path, seen, p, look()))
			}
		}
	}
	got := b.run(c, s, true)
	for _, f := range hooks {
		f()
	}
	if w.bad {
		return
	}
	w.t.Eval(1)
	w.t.Count("served on: "+how, 1)
	w.t.Max("depth", w.depth)
	w.t.Count("nested requests", nested)
	if outer != nil {
		w.t.NonTrivial(outer.String(), a.String(), how)
		if w.t.WantSample() {
			w.t.Sample("%s\ninside of %s\non a %s: %s", a, outer, how, got)
		}
	}
	if got != w.want[a] {
		w.bad = true
		in := ""
		if outer != nil {
			in = "\n\ninside of: " + outer.String()
		}
		w.t.Fail("a request that is served inside of another, or has others inside, is answered differently", fmt.Sprintf("%d requests inside, on a %s\nrequest: %s\n\nnested:\n%s\n\nalone:\n%s%s", nested, how, a, got, w.want[a], in))
		return
	}
	w.idle[i] = append(w.idle[i], s)
	if len(w.idle[i]) > 6 {
		w.idle[i] = w.idle[i][1:]
	}
}
