package checks

import (
	"reflect"
	"strings"

	"vh/core"
	"vh/q"
	"vh/run"
	"vh/uni"
)

func init() {
	add(&run.Check{
		ID:     "C14",
		Rule:   "Two kinds of cases. (1) Random schemas with documents of 1 to 4 generated queries and mutations; each operation is requested by name, and none. (2) Documents of up to 40 operations (queries, mutations, subscriptions, fragments, in any order) whose names are prefixes, permutations and variations of one another, on roots that have the same fields; every name, similar names and no name are requested, with and without the cache. Data and the record of resolver calls have to be those of the named or else the last operation on its own root; a name that does not exist or names a subscription gives an error, empty data and no call. Non-trivial: distinct document and requested name.",
		Assume: []string{"two operations of one document do not have the same name"},
		Quick:  9000, Thorough: 250000, CPU: 60,
		Run: c14,
	})
}

func c14(t *run.T) {
	if chance(t.R, 2) {
		c14conform(t)
	} else {
		c14names(t)
	}
}

func c14conform(t *run.T) {
	r := t.R
	c := newCase(t, core.CaseOpt{Budget: 200})
	if c == nil {
		return
	}
	opt := core.DefaultOpt()
	opt.Budget = 40
	g := core.NewGen(c, r, opt)
	for i := 0; i < 3; i++ {
		rq := g.Request()
		ops := rq.Doc.Ops()
		for k := -1; k < len(ops); k++ {
			x := *rq
			x.OpName = ""
			x.Target = ops[len(ops)-1]
			if k >= 0 {
				x.OpName = ops[k].Name
				if x.OpName != "" {
					x.Target = ops[k]
				}
			}
			e, res := conform(t, c, c.S, &x, core.PAll)
			if t.Failed() {
				return
			}
			t.Max("operations in a document", len(ops))
			t.NonTrivial(shapeOf(c, &x), x.OpName)
			if e.Calls > 0 {
				sample(t, &x, res)
			}
		}
		// a name that is not there
		name := similarNames(r, 1)[0] + pick(r, "", "\x00", " ", "é")
		for _, o := range ops {
			if o.Name == name {
				return
			}
		}
		o := rq.Options()
		o.OperatorTarget = name
		res := c.Run(c.S, rq.Text, o)
		c14nothing(t, rq, res, name)
		if t.Failed() {
			return
		}
	}
}

func c14nothing(t *run.T, rq *core.Request, res *core.Response, name string) {
	t.Eval(1)
	t.Count("requests for an operation that cannot be run", 1)
	switch {
	case res.Bad != "":
		t.Fail(res.Bad, name+"\n"+describe(rq, res))
	case len(res.Errs) == 0:
		t.Fail("no error for the operation name "+q.Quote(name), describe(rq, res))
	case len(res.Log) > 0:
		t.Fail("a resolver runs for the operation name "+q.Quote(name), describe(rq, res))
	case len(res.Data.Keys) > 0:
		t.Fail("there is data for the operation name "+q.Quote(name), describe(rq, res))
	}
}

func c14names(t *run.T) {
	r := t.R
	// both roots have the same fields
	fn := func() reflect.Type {
		return reflect.FuncOf([]reflect.Type{reflect.StructOf([]reflect.StructField{{Name: "X", Type: reflect.TypeOf(0)}})}, []reflect.Type{reflect.TypeOf("")}, false)
	}
	qt := reflect.StructOf([]reflect.StructField{{Name: "A", Type: fn()}, {Name: "B", Type: fn()}, {Name: "V", Type: reflect.TypeOf("")}})
	mt := reflect.TypeOf(c14mut{})
	swap := chance(r, 2)
	if swap {
		qt, mt = mt, qt
	}
	c := newCase(t, core.CaseOpt{QT: qt, MT: mt, NoDirs: true})
	if c == nil {
		return
	}
	if chance(r, 2) {
		n := 0
		c.S.SetCacheRules(&n)
	}
	for round := 0; round < 2; round++ {
		n := 1 + r.Intn(6)
		if chance(r, 4) {
			n = 10 + r.Intn(30)
		}
		if chance(r, 80) {
			n = 200 + r.Intn(200)
		}
		names := similarNames(r, n+3)
		missing := append(names[n:], strings.ToUpper(names[0]), names[0]+" ", " "+names[0], names[0]+"\x00", "query", "mutation", "{", "Q\x00ff", " ", "\t\n", "\x00", "null")
		names = names[:n]
		doc := &q.Doc{}
		have := map[string]*q.Op{}
		anon := -1
		if chance(r, 3) {
			anon = r.Intn(n)
		}
		for i, name := range names {
			op := &q.Op{Kind: pick(r, "query", "query", "mutation", "mutation", "subscription"), Name: name}
			if i == anon {
				op.Name = ""
				if op.Kind == "query" && chance(r, 2) {
					op.Shorthand = true
				}
			}
			if chance(r, 3) && !op.Shorthand {
				op.Vars = append(op.Vars, q.VarDef{Name: pick(r, "a", "x", "query", "o"), Type: &q.TypeRef{Name: "Int"}, Default: &q.Val{K: q.VInt, Raw: itoa(i)}})
			}
			for _, f := range []string{"a", "b"} {
				s := &q.Sel{K: q.SField, Alias: f + itoa(i), Name: f}
				arg := reflect.New(c.QObj.ByName["a"].Func.T.In(0 + c.QObj.ByName["a"].Func.Off)).Elem()
				arg.Field(0).SetInt(int64(i))
				s.In = []reflect.Value{arg}
				v := &q.Val{K: q.VInt, Raw: itoa(i)}
				if len(op.Vars) > 0 && chance(r, 2) {
					v = &q.Val{K: q.VVar, Raw: op.Vars[0].Name}
				}
				s.Args = []q.Arg{{Name: "x", Val: v}}
				op.Sel = append(op.Sel, s)
			}
			op.Sel = append(op.Sel, &q.Sel{K: q.SField, Name: "__typename"}, &q.Sel{K: q.SField, Name: "v"})
			if chance(r, 3) {
				f := &q.Frag{Name: pick(r, "F", "on_", "query") + itoa(i), On: map[bool]string{true: c.MName, false: c.QName}[op.Kind == "mutation"], Sel: op.Sel[:1]}
				op.Sel = append([]*q.Sel{{K: q.SSpread, Name: f.Name}}, op.Sel[1:]...)
				doc.Defs = append(doc.Defs, f)
			}
			doc.Defs = append(doc.Defs, op)
			if op.Name != "" {
				have[op.Name] = op
			}
		}
		r.Shuffle(len(doc.Defs), func(i, j int) { doc.Defs[i], doc.Defs[j] = doc.Defs[j], doc.Defs[i] })
		ops := doc.Ops()
		ask := append([]string{"", ""}, missing[r.Intn(len(missing))], missing[r.Intn(len(missing))])
		for name := range have {
			ask = append(ask, name)
		}
		// map order is random
		sortStrings(ask)
		r.Shuffle(len(ask), func(i, j int) { ask[i], ask[j] = ask[j], ask[i] })
		rq := &core.Request{Doc: doc, Text: doc.Print(q.Layout{R: r, Level: r.Intn(3)})}
		t.Max("operations in a document", n)
		for _, name := range ask {
			rq.OpName = name
			rq.Target = ops[len(ops)-1]
			if name != "" {
				rq.Target = have[name]
			}
			t.NonTrivial(rq.Text, name)
			if rq.Target == nil || rq.Target.Kind == "subscription" {
				c14nothing(t, rq, c.Run(c.S, rq.Text, rq.Options()), name)
			} else {
				conform(t, c, c.S, rq, core.PAll)
				t.Count("operations run: "+rq.Target.Kind, 1)
			}
			if t.Failed() {
				return
			}
		}
	}
}

type c14mut struct {
	W   *uni.World `gq:"-"`
	Uid int64      `gq:"-"`
	V   string
}

func (m c14mut) ResolveA(a struct{ X int }) string {
	m.W.Call("mutation a", m.Uid, nil, false, a)
	return "mutation a"
}

func (m c14mut) ResolveB(a struct{ X int }) (string, error) {
	return "mutation b", m.W.Call("mutation b", m.Uid, nil, false, a)
}
