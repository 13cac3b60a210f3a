package checks

import (
	"reflect"
	"strings"

	"vh/core"
	"vh/q"
	"vh/run"
)

func init() {
	add(&run.Check{
		ID:     "C05",
		Rule:   "A case is a schema of functions with random argument types. Positive operations give most values by variables (supplied, defaulted, both, null, reused, at any position including list elements, object fields and directives); what every function and directive records has to equal the values chosen by the generator, and the same operation with every variable replaced by the literal it stands for has to give the same records and data. Negative operations have one variable undeclared, without value and default, or with a default that holds a variable, itself or another: the function using it must not be called and an error must name its field. Non-trivial: distinct operation that uses variables.",
		Assume: []string{"number, boolean and string types of variables are declared as introspection describes them"},
		Quick:  9000, Thorough: 180000,
		Run: c05,
	})
}

func c05(t *run.T) {
	if t.Case%300 == 123 {
		wide(t, core.PAll)
		return
	}
	if t.Case%150 == 77 {
		c04big(t, true)
		return
	}
	c := argCase(t, 1+t.R.Intn(4), 1+t.R.Intn(6), false)
	if c == nil {
		return
	}
	opt := core.DefaultOpt()
	opt.VarP = []int{25, 60, 90}[t.R.Intn(3)]
	opt.FieldP = 85
	opt.DirP = 25
	opt.Frags = chance(t.R, 3)
	g := core.NewGen(c, t.R, opt)
	for i := 0; i < 5; i++ {
		rq := g.Request()
		e, r := conform(t, c, c.S, rq, core.PAll)
		if t.Failed() {
			return
		}
		if len(rq.Target.Vars) > 0 && e.Calls+e.DirCall > 0 {
			t.NonTrivial(shapeOf(c, rq), rq.Vars)
			sample(t, rq, r)
			c05inline(t, c, rq, r)
			if t.Failed() {
				return
			}
		}
	}
	for i := 0; i < 5; i++ {
		c05negative(t, c, g)
		if t.Failed() {
			return
		}
	}
}

// inlined replaces the variables of a value by what they stand for
func inlined(v *q.Val, lits map[string]*q.Val) *q.Val {
	if v.K == q.VVar {
		return lits[v.Raw]
	}
	n := *v
	n.List, n.Obj = nil, nil
	for _, x := range v.List {
		n.List = append(n.List, inlined(x, lits))
	}
	for _, x := range v.Obj {
		n.Obj = append(n.Obj, q.Arg{Name: x.Name, Val: inlined(x.Val, lits)})
	}
	return &n
}

func inlinedSels(ss []*q.Sel, lits map[string]*q.Val) []*q.Sel {
	var r []*q.Sel
	args := func(as []q.Arg) (o []q.Arg) {
		for _, a := range as {
			o = append(o, q.Arg{Name: a.Name, Val: inlined(a.Val, lits)})
		}
		return
	}
	for _, s := range ss {
		n := *s
		n.Args = args(s.Args)
		n.Dirs = nil
		for _, d := range s.Dirs {
			d.Args = args(d.Args)
			n.Dirs = append(n.Dirs, d)
		}
		if s.Sub != nil {
			n.Sub = inlinedSels(s.Sub, lits)
		}
		r = append(r, &n)
	}
	return r
}

// c05inline compares with the operation that has literals in place of variables
func c05inline(t *run.T, c *core.Case, rq *core.Request, r *core.Response) {
	lits := rq.Lits
	doc := &q.Doc{}
	for _, d := range rq.Doc.Defs {
		switch x := d.(type) {
		case *q.Op:
			o := *x
			o.Vars = nil
			o.Sel = inlinedSels(x.Sel, lits)
			doc.Defs = append(doc.Defs, &o)
		case *q.Frag:
			f := *x
			f.Sel = inlinedSels(x.Sel, lits)
			doc.Defs = append(doc.Defs, &f)
		}
	}
	o := rq.Options()
	o.Variables = ""
	text := doc.Print(q.Layout{})
	r2 := c.Run(c.S, text, o)
	t.Eval(1)
	t.Count("operations repeated with literals", 1)
	d := ""
	switch {
	case r2.Bad != "":
		d = r2.Bad
	case r.Data.Text() != r2.Data.Text():
		d = "data differs: " + q.Diff(r.Data, r2.Data)
	case strings.Join(r.GoErr, "\x00") != strings.Join(r2.GoErr, "\x00"):
		d = "errors differ"
	default:
		d = core.DiffLog(r.Log, r2.Log)
	}
	if d != "" {
		t.Fail("with literals in place of variables: "+d, describe(rq, r)+"\n\nwith literals: "+text+"\n"+r2.Raw)
	}
}

// usedVars lists the variables in values
func usedVars(as []q.Arg, m map[string]bool) {
	var val func(v *q.Val)
	val = func(v *q.Val) {
		if v.K == q.VVar {
			m[v.Raw] = true
		}
		for _, x := range v.List {
			val(x)
		}
		for _, x := range v.Obj {
			val(x.Val)
		}
	}
	for _, a := range as {
		val(a.Val)
	}
}

// c05negative uses a variable that has no value
func c05negative(t *run.T, c *core.Case, g *core.Gen) {
	r := t.R
	fl := funcFields(c, c.QObj)
	if len(fl) == 0 {
		return
	}
	f := fl[r.Intn(len(fl))]
	fn := c.QV.Field(f.Index)
	if fn.IsNil() {
		return
	}
	g.Begin()
	s := &q.Sel{K: q.SField, Name: f.Name, Alias: pick(r, "", "x", "key")}
	g.Args(f.Func, s)
	used := map[string]bool{}
	usedVars(s.Args, used)
	inDir := false
	if chance(r, 4) {
		// in a directive instead
		inDir = true
		used = map[string]bool{}
		_, l, _ := g.Value(reflect.TypeOf(0), false, true, 1)
		s.Dirs = []q.Dir{{Name: "check", Args: []q.Arg{{Name: "n", Val: l}}}}
		usedVars(s.Dirs[0].Args, used)
		if chance(r, 2) {
			s.Dirs = []q.Dir{{Name: pick(r, "skip", "include"), Args: []q.Arg{{Name: "if", Val: &q.Val{K: q.VVar, Raw: "noSuchVariable"}}}}}
			used = map[string]bool{}
		}
	}
	missing := ""
	for _, a := range g.VarNames() {
		if used[a] {
			missing = a
			if chance(r, 2) {
				break
			}
		}
	}
	op := &q.Op{Kind: "query", Name: pick(r, "", "Q"), Sel: []*q.Sel{s}}
	before := &q.Sel{K: q.SField, Name: "plain", Alias: "first"}
	if chance(r, 2) {
		op.Sel = []*q.Sel{before, s}
	}
	kind := "undeclared"
	if missing == "" {
		// none is used: use one that is not declared
		if !inDir || s.Dirs[0].Name == "check" {
			a := f.Func.Args[r.Intn(len(f.Func.Args))]
			v := &q.Val{K: q.VVar, Raw: pick(r, "noSuchVariable", "a", "zz", "_")}
			for _, n := range g.VarNames() {
				if n == v.Raw {
					v.Raw = "noSuchVariable"
				}
			}
			put := false
			for i := range s.Args {
				if s.Args[i].Name == a.Name {
					s.Args[i].Val = v
					put = true
				}
			}
			if !put {
				s.Args = append(s.Args, q.Arg{Name: a.Name, Val: v})
			}
			s.Dirs = nil
			inDir = false
		}
		missing = "noSuchVariable"
	} else if chance(r, 3) {
		kind = "without value"
		g.Unset(missing)
	} else if chance(r, 3) {
		kind = "with a variable as its default"
		g.Unset(missing)
	} else {
		kind = "undeclared"
		g.Drop(missing)
	}
	rq := g.Finish(op)
	if strings.HasPrefix(kind, "with a") {
		vars := rq.Target.Vars
		d := &q.Val{K: q.VVar, Raw: missing}
		if chance(r, 3) {
			d.Raw = vars[r.Intn(len(vars))].Name
		}
		for i := r.Intn(3); i > 0; i-- {
			if chance(r, 2) {
				d = &q.Val{K: q.VList, List: []*q.Val{d}}
			} else {
				d = &q.Val{K: q.VObj, Obj: []q.Arg{{Name: pick(r, "a", "x", "n"), Val: d}}}
			}
		}
		for i := range vars {
			if vars[i].Name == missing {
				vars[i].Default = d
			}
		}
		rq.Text = rq.Doc.Print(q.Layout{R: r, Level: r.Intn(3)})
	}
	if rq.Vars != "" && kind == "undeclared" && chance(r, 3) {
		// a value that is supplied does not make a variable declared
		rq.Vars = strings.TrimSuffix(rq.Vars, "}")
		if len(rq.Vars) > 1 {
			rq.Vars += ","
		}
		rq.Vars += q.Quote(missing) + ":1}"
	}
	resp := c.Run(c.S, rq.Text, rq.Options())
	t.Eval(1)
	where := "argument"
	if inDir {
		where = "directive"
	}
	t.Count("variables "+kind+" in "+where, 1)
	t.NonTrivial(rq.Text, rq.Vars)
	detail := describe(rq, resp)
	if resp.Bad != "" {
		t.Fail(resp.Bad, detail)
		return
	}
	for _, l := range resp.Log {
		if !strings.HasPrefix(l.Fn, "@") || inDir {
			t.Fail("a function is called though a variable is "+kind+": "+l.String(), detail)
			return
		}
	}
	if len(resp.Errs) == 0 {
		t.Fail("no error though a variable is "+kind, detail)
		return
	}
	if resp.Errs[0].Path != "["+q.Quote(s.Key())+"]" {
		t.Fail("the error about a variable that is "+kind+" is not at the field that uses it", detail)
		return
	}
	if len(op.Sel) == 2 && resp.Data.Get("first") == nil {
		t.Fail("the field before is missing", detail)
	}
	if d := resp.Data.Get(s.Key()); d != nil && d.K != 'n' {
		t.Fail("a field is resolved though a variable is "+kind, detail)
	}
}
