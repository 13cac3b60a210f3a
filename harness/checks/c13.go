package checks

import (
	"fmt"
	"math/rand"
	"reflect"

	"vh/core"
	"vh/q"
	"vh/run"
	"vh/uni"
)

func init() {
	add(&run.Check{
		ID:     "C13",
		Rule:   "Three kinds of cases. (1) Random schemas with random directives (arguments of every type, one or two parameters, request context or not, every combination of locations, similar names) and requests in which most selections carry directives: response, errors and the record of every directive and resolver call, with arguments and in order, have to be what the reference interpreter says; the document in which left out selections are removed and all other directives dropped has to give the same data, errors and resolver calls. (2) Up to 200 directives on one selection. (3) Unknown directives, similar names, and directives at places they are not registered for: an error, nothing foreign in the data. Non-trivial: distinct document in which a selection was left out or a directive ran.",
		Assume: []string{"directives that follow one that skips are not specified, none are generated there but skip and include"},
		Quick:  9000, Thorough: 200000, CPU: 60,
		Run: c13,
	})
}

func c13(t *run.T) {
	if t.Case%300 == 123 {
		wide(t, core.PAll)
		return
	}
	switch t.R.Intn(6) {
	case 0:
		c13many(t)
	case 1:
		c13unknown(t)
	default:
		c13conform(t)
	}
}

var noop = &q.Sel{K: q.SInline, On: "NoSuchType", Sub: []*q.Sel{{K: q.SField, Name: "__typename"}}}

// pruned removes what directives leave out, and all directives
func pruned(doc *q.Doc) *q.Doc {
	var walk func(ss []*q.Sel) []*q.Sel
	walk = func(ss []*q.Sel) []*q.Sel {
		if ss == nil {
			return nil
		}
		out := []*q.Sel{}
		for _, s := range ss {
			skip := false
			for _, d := range s.Dirs {
				skip = skip || d.Skip
			}
			if skip {
				continue
			}
			cp := *s
			cp.Dirs = nil
			cp.Sub = walk(s.Sub)
			out = append(out, &cp)
		}
		if len(out) == 0 {
			out = append(out, noop)
		}
		return out
	}
	d := &q.Doc{}
	for _, x := range doc.Defs {
		switch o := x.(type) {
		case *q.Op:
			cp := *o
			cp.Sel = walk(o.Sel)
			d.Defs = append(d.Defs, &cp)
		case *q.Frag:
			d.Defs = append(d.Defs, &q.Frag{Name: o.Name, On: o.On, Sel: walk(o.Sel)})
		}
	}
	return d
}

func withoutDirs(l []uni.Call) []uni.Call {
	var r []uni.Call
	for _, c := range l {
		if c.Fn[0] != '@' {
			r = append(r, c)
		}
	}
	return r
}

func withDirs(t *run.T, c *core.Case) bool {
	r := t.R
	names := similarNames(r, 1+r.Intn(8))
	if chance(r, 40) {
		names = similarNames(r, 30+r.Intn(300))
	}
	if chance(r, 3) {
		names = append(names, "ski", "skip1", "Skip", "includ", "includes")
	}
	seen := map[string]bool{}
	var l []string
	for _, n := range names {
		if !seen[n] {
			seen[n] = true
			l = append(l, n)
		}
	}
	c.Dirs = core.RandomDirs(r, l)
	s, err := c.NewSchema()
	if err != nil {
		t.Fail("a valid schema is refused: "+err.Error(), "")
		return false
	}
	c.S = s
	return true
}

func c13conform(t *run.T) {
	r := t.R
	var c *core.Case
	if chance(r, 4) {
		c = argCase(t, 1+r.Intn(3), 1+r.Intn(4), false)
	} else {
		c = newCase(t, core.CaseOpt{Named: chance(r, 2), Budget: 250})
	}
	if c == nil {
		return
	}
	if chance(r, 2) && !withDirs(t, c) {
		return
	}
	gopt := core.DefaultOpt()
	gopt.DirP = 30 + r.Intn(60)
	gopt.FragN = 4
	gopt.Budget = 70
	g := core.NewGen(c, r, gopt)
	if chance(r, 2) {
		c.W.FailMod = 12
		c.W.FailSeed = r.Uint64()
	}
	for i := 0; i < 4; i++ {
		rq := g.Request()
		e, res := conform(t, c, c.S, rq, core.PAll)
		if t.Failed() {
			return
		}
		if e.Skips+e.DirCall > 0 {
			t.NonTrivial(shapeOf(c, rq))
			sample(t, rq, res)
		}
		d := pruned(rq.Doc)
		r2 := c.Run(c.S, d.Print(q.Layout{R: r, Level: r.Intn(3)}), rq.Options())
		t.Eval(1)
		t.Count("documents without what is left out", 1)
		diff := r2.Bad
		if diff == "" && r2.Data.Text() != res.Data.Text() {
			diff = "data differs"
		}
		if diff == "" {
			diff = core.DiffLog(withoutDirs(res.Log), r2.Log)
		}
		if diff == "" {
			var exp []core.ExpErr
			for _, x := range res.Errs {
				exp = append(exp, core.ExpErr{Msg: x.Msg, Path: x.Path})
			}
			diff = core.DiffErrs(exp, r2.Errs)
		}
		if diff != "" {
			t.Fail("the document without what its directives leave out gives another outcome: "+diff, describe(rq, res)+"\nother document: "+d.Print(q.Layout{})+"\nresponse: "+r2.Raw)
			return
		}
	}
}

// boolDir makes skip or include with the given meaning
func boolDir(r *rand.Rand, skip bool) q.Dir {
	if chance(r, 2) {
		return q.Dir{Name: "skip", Skip: skip, Args: []q.Arg{{Name: "if", Val: &q.Val{K: q.VBool, Raw: fmt.Sprint(skip)}}}}
	}
	return q.Dir{Name: "include", Skip: skip, Args: []q.Arg{{Name: "if", Val: &q.Val{K: q.VBool, Raw: fmt.Sprint(!skip)}}}}
}

// c13doc makes a request on fragNode in which each selection may carry a directive
func c13doc(t *run.T, c *core.Case, dirs func(k q.SelKind) []q.Dir) (*q.Doc, *q.Op) {
	r := t.R
	n := 0
	doc := &q.Doc{}
	var sel func(depth int) []*q.Sel
	sel = func(depth int) []*q.Sel {
		var ss []*q.Sel
		for k := 1 + r.Intn(4); k > 0; k-- {
			n++
			s := &q.Sel{K: q.SField, Alias: "k" + itoa(n), Name: pick(r, "n", "s", "__typename")}
			switch {
			case depth < 3 && chance(r, 4):
				s = &q.Sel{K: q.SInline, On: c.QName, Sub: sel(depth + 1)}
			case depth < 3 && chance(r, 4):
				f := &q.Frag{Name: "F" + itoa(n), On: c.QName, Sel: sel(depth + 1)}
				doc.Defs = append(doc.Defs, f)
				s = &q.Sel{K: q.SSpread, Name: f.Name}
			case depth < 3 && chance(r, 4):
				s.Name, s.Sub = pick(r, "sub", "list"), sel(depth+1)
			}
			s.Dirs = dirs(s.K)
			ss = append(ss, s)
		}
		return ss
	}
	op := &q.Op{Kind: "query", Sel: sel(0)}
	doc.Defs = append(doc.Defs, op)
	r.Shuffle(len(doc.Defs), func(i, j int) { doc.Defs[i], doc.Defs[j] = doc.Defs[j], doc.Defs[i] })
	return doc, op
}

func c13many(t *run.T) {
	r := t.R
	c := fragCase(t)
	if c == nil || !withDirs(t, c) {
		return
	}
	g := core.NewGen(c, r, core.DefaultOpt())
	g.Begin()
	_ = g
	for i := 0; i < 3; i++ {
		budget := 400
		doc, op := c13doc(t, c, func(k q.SelKind) []q.Dir {
			n := []int{0, 1, 2, 5, 40, 200}[r.Intn(6)]
			if n > budget {
				n = 1
			}
			budget -= n
			t.Max("directives on a selection", n)
			var ds []q.Dir
			skips := -1
			if n > 0 {
				skips = r.Intn(2 * n)
			}
			skipped := false
			for x := 0; x < n; x++ {
				if d := noArgDir(r, c, k); d != nil && !skipped && chance(r, 2) {
					ds = append(ds, *d)
					skipped = d.Skip
					continue
				}
				ds = append(ds, boolDir(r, x == skips))
				skipped = skipped || x == skips
			}
			return ds
		})
		rq := &core.Request{Doc: doc, Target: op, Text: doc.Print(q.Layout{R: r, Level: r.Intn(3)})}
		e, _ := conform(t, c, c.S, rq, core.PAll)
		if e.Skips+e.DirCall > 0 {
			t.NonTrivial(rq.Doc.Print(q.Layout{}))
		}
		if t.Failed() {
			return
		}
	}
}

// noArgDir uses a registered directive without arguments
func noArgDir(r *rand.Rand, c *core.Case, k q.SelKind) *q.Dir {
	d := c.Dirs[r.Intn(len(c.Dirs))]
	if !d.Where[k] || d.Judge == nil {
		return nil
	}
	u := &q.Dir{Name: d.Name, Fn: d.Fn}
	for _, a := range d.ArgTs {
		u.In = append(u.In, reflect.Zero(a))
	}
	u.Skip = d.Judge(u.In)
	return u
}

func c13unknown(t *run.T) {
	r := t.R
	c := fragCase(t)
	if c == nil || !withDirs(t, c) {
		return
	}
	for i := 0; i < 4; i++ {
		doc, op := c13doc(t, c, func(q.SelKind) []q.Dir { return nil })
		// choose a selection that is reached: the path from the operation has no nil value
		var spots []*q.Sel
		var collect func(ss []*q.Sel, depth int)
		collect = func(ss []*q.Sel, depth int) {
			for _, s := range ss {
				spots = append(spots, s)
				switch {
				case s.K == q.SSpread:
					collect(doc.Frag(s.Name).Sel, depth)
				case s.K == q.SField && s.Sub != nil:
					if depth < 1 {
						collect(s.Sub, depth+1)
					}
				default:
					collect(s.Sub, depth)
				}
			}
		}
		collect(op.Sel, 0)
		s := spots[r.Intn(len(spots))]
		name := pick(r, "nope", "ski", "skipp", "Skip", "SKIP", "includ", "includeif", "kip", "s", "i", "deprecated", "f", "d", "_", "if")
		what := "unknown directive"
		if chance(r, 2) {
			d := c.Dirs[r.Intn(len(c.Dirs))]
			name = d.Name
			if d.Where[s.K] {
				name += pick(r, "x", "_", "0")
			} else {
				what = "directive at a place it is not registered for"
			}
		}
		for _, d := range c.Dirs {
			if d.Name == name && d.Where[s.K] {
				return
			}
		}
		bad := q.Dir{Name: name}
		if chance(r, 3) {
			bad.Args = []q.Arg{{Name: "if", Val: &q.Val{K: q.VBool, Raw: pick(r, "true", "false")}}}
		}
		e := c.Interpret(&core.Request{Doc: doc, Target: op})
		s.Dirs = []q.Dir{bad}
		if chance(r, 3) {
			s.Dirs = append([]q.Dir{boolDir(r, false)}, s.Dirs...)
		}
		rq := &core.Request{Doc: doc, Target: op, Text: doc.Print(q.Layout{R: r, Level: r.Intn(3)})}
		res := c.Run(c.S, rq.Text, rq.Options())
		t.Eval(1)
		t.Count(what+" on "+[]string{"a field", "a spread", "an inline fragment"}[s.K], 1)
		t.NonTrivial(what, rq.Doc.Print(q.Layout{}))
		switch {
		case res.Bad != "":
			t.Fail(res.Bad, describe(rq, res))
		case len(res.Errs) == 0:
			t.Fail("no error for "+what+" @"+name, describe(rq, res))
		case len(res.Log) > 0:
			t.Fail("a directive is called where it is not registered", describe(rq, res))
		default:
			if d := weak(e.Data, res.Data); d != "" {
				t.Fail("with an "+what+": "+d, describe(rq, res))
			}
		}
		if t.Failed() {
			return
		}
	}
}
