package checks

import (
	"fmt"
	"math/rand"
	"reflect"

	"vh/core"
	"vh/q"
	"vh/run"
	"vh/uni"
)

func init() {
	add(&run.Check{
		ID:     "C12",
		Rule:   "Four kinds of cases. (1) Random schemas with many fragments, matching and not, nested, spread several times and with directives: response, errors and resolver records have to be what the reference interpreter says, and the same for the document in which every fragment that can be is written in place, in which all fragments have other names and in which the fragment definitions stand elsewhere. (2) Documents of up to 80 fragments whose names are prefixes, permutations and variations of one another. (3) The same with a spread whose name is not defined but similar to ones that are: an error, nothing foreign in the data. (4) Fragments that spread themselves over 1 to 12 others, directly, through inline fragments, fields and lists: an error; the same without the last link, up to 150 fragments deep, has to be answered. Non-trivial: distinct document in which a fragment contributed or was rejected.",
		Assume: []string{"a fragment cycle has to be reported when it is reached"},
		Quick:  9000, Thorough: 200000, CPU: 60,
		Run: c12,
	})
}

// weak compares what is present in a response with what may be there
func weak(exp, act *q.J) string {
	if act == nil || act.K == 'n' {
		return ""
	}
	if exp == nil {
		return "unexpected " + act.Text()
	}
	switch {
	case exp.K == 'o' && act.K == 'o':
		at := 0
		for i, k := range act.Keys {
			for at < len(exp.Keys) && exp.Keys[at] != k {
				at++
			}
			if at == len(exp.Keys) {
				return fmt.Sprintf("unexpected key %q or order", k)
			}
			if d := weak(exp.A[at], act.A[i]); d != "" {
				return k + ": " + d
			}
			at++
		}
		return ""
	case exp.K == 'a' && act.K == 'a':
		if len(act.A) != len(exp.A) {
			return fmt.Sprintf("a list has %d elements instead of %d", len(act.A), len(exp.A))
		}
		for i, x := range act.A {
			if d := weak(exp.A[i], x); d != "" {
				return itoa(i) + ": " + d
			}
		}
		return ""
	}
	return q.Diff(exp, act)
}

func c12(t *run.T) {
	if t.Case%300 == 123 {
		wide(t, core.PAll)
		return
	}
	switch t.R.Intn(6) {
	case 0, 1:
		c12names(t)
	case 2:
		c12cycle(t)
	default:
		c12conform(t)
	}
}

// inPlace writes fragments in place where the type of the object is known
func inPlace(c *core.Case, doc *q.Doc, r *rand.Rand) (*q.Doc, int) {
	n := 0
	var walk func(ss []*q.Sel, o *core.Obj, root string) []*q.Sel
	walk = func(ss []*q.Sel, o *core.Obj, root string) []*q.Sel {
		out := []*q.Sel{}
		for _, s := range ss {
			cp := *s
			switch s.K {
			case q.SField:
				if s.Sub != nil {
					var sub *core.Obj
					if o != nil && o.ByName[s.Name] != nil {
						sub = c.M.Leaf(o.ByName[s.Name].Out)
					}
					cp.Sub = walk(s.Sub, sub, "")
				}
				out = append(out, &cp)
				continue
			case q.SSpread:
				f := doc.Frag(s.Name)
				cp.K, cp.Name, cp.On = q.SInline, "", f.On
				cp.Sub = f.Sel
			}
			n++
			known := o != nil && !o.IsIface
			if known && len(s.Dirs) == 0 {
				if o.Matches(cp.On) || cp.On == root && root != "" {
					out = append(out, walk(cp.Sub, o, root)...)
				}
				continue
			}
			if known && !(o.Matches(cp.On) || cp.On == root && root != "") {
				// the directives are still called
				cp.Sub = []*q.Sel{{K: q.SField, Name: "__typename"}}
				out = append(out, &cp)
				continue
			}
			if known {
				cp.Sub = walk(cp.Sub, o, root)
			} else {
				cp.Sub = walk(cp.Sub, nil, "")
			}
			out = append(out, &cp)
		}
		if len(out) == 0 {
			out = []*q.Sel{{K: q.SInline, On: "NoSuchType", Sub: []*q.Sel{{K: q.SField, Name: "__typename"}}}}
		}
		return out
	}
	d := &q.Doc{}
	for _, o := range doc.Ops() {
		cp := *o
		root, name := c.QObj, c.QName
		if o.Kind == "mutation" {
			root, name = c.MObj, c.MName
		}
		cp.Sel = walk(o.Sel, root, name)
		d.Defs = append(d.Defs, &cp)
	}
	return d, n
}

// renamed gives all fragments other names and places
func renamed(doc *q.Doc, r *rand.Rand) *q.Doc {
	names := map[string]string{}
	var frags, ops []interface{}
	i := 0
	perm := r.Perm(200)
	for _, x := range doc.Defs {
		if f, ok := x.(*q.Frag); ok {
			names[f.Name] = pick(r, "F", "zz", "f_", "Frag", "on", "a") + itoa(perm[i])
			i++
		}
	}
	var walk func(ss []*q.Sel) []*q.Sel
	walk = func(ss []*q.Sel) []*q.Sel {
		if ss == nil {
			return nil
		}
		out := []*q.Sel{}
		for _, s := range ss {
			cp := *s
			cp.Sub = walk(s.Sub)
			if s.K == q.SSpread {
				cp.Name = names[s.Name]
			}
			out = append(out, &cp)
		}
		return out
	}
	for _, x := range doc.Defs {
		switch d := x.(type) {
		case *q.Frag:
			frags = append(frags, &q.Frag{Name: names[d.Name], On: d.On, Sel: walk(d.Sel)})
		case *q.Op:
			cp := *d
			cp.Sel = walk(d.Sel)
			ops = append(ops, &cp)
		}
	}
	r.Shuffle(len(frags), func(i, j int) { frags[i], frags[j] = frags[j], frags[i] })
	d := &q.Doc{}
	for len(frags)+len(ops) > 0 {
		if len(ops) == 0 || len(frags) > 0 && chance(r, 2) {
			d.Defs = append(d.Defs, frags[0])
			frags = frags[1:]
		} else {
			d.Defs = append(d.Defs, ops[0])
			ops = ops[1:]
		}
	}
	return d
}

func c12conform(t *run.T) {
	r := t.R
	opt := core.CaseOpt{Named: chance(r, 2)}
	c := newCase(t, opt)
	if c == nil {
		return
	}
	gopt := core.DefaultOpt()
	gopt.FragN = 6
	gopt.FieldP = 35
	gopt.VarP = 10
	gopt.Budget = 90
	g := core.NewGen(c, r, gopt)
	if chance(r, 2) {
		c.W.FailMod = 12
		c.W.FailSeed = r.Uint64()
	}
	for i := 0; i < 4; i++ {
		rq := g.Request()
		e, res := conform(t, c, c.S, rq, core.PAll)
		if t.Failed() {
			return
		}
		if e.Frags+e.NoFrags > 0 {
			t.NonTrivial(shapeOf(c, rq))
			sample(t, rq, res)
		}
		same := func(what string, d *q.Doc) {
			text := d.Print(q.Layout{R: r, Level: r.Intn(3)})
			r2 := c.Run(c.S, text, rq.Options())
			t.Eval(1)
			t.Count("documents "+what, 1)
			diff := r2.Bad
			if diff == "" && r2.Data.Text() != res.Data.Text() {
				diff = "data differs"
			}
			if diff == "" {
				diff = core.DiffLog(res.Log, r2.Log)
			}
			if diff == "" {
				var exp []core.ExpErr
				for _, x := range res.Errs {
					exp = append(exp, core.ExpErr{Msg: x.Msg, Path: x.Path})
				}
				diff = core.DiffErrs(exp, r2.Errs)
			}
			if diff != "" {
				t.Fail("a document "+what+" gives another outcome: "+diff, describe(rq, res)+"\nother document: "+d.Print(q.Layout{})+"\nresponse: "+r2.Raw)
			}
		}
		if d, n := inPlace(c, rq.Doc, r); n > 0 {
			same("with its fragments written in place", d)
			if !t.Failed() {
				same("with renamed and moved fragments", renamed(rq.Doc, r))
			}
		}
		if t.Failed() {
			return
		}
	}
}

type fragNode struct {
	N    int
	S    string
	Sub  *fragNode
	List []fragNode
	Own  fragLeaf
}

type fragLeaf struct{ A, B int }

func fragCase(t *run.T) *core.Case {
	c := newCase(t, core.CaseOpt{QT: reflect.TypeOf(fragNode{}), MT: reflect.TypeOf(uni.M0{}), NoDirs: true})
	if c == nil {
		return nil
	}
	leaf := fragNode{N: 3, S: "leaf"}
	mid := fragNode{N: 2, S: "mid", Sub: &leaf, List: []fragNode{leaf, leaf}, Own: fragLeaf{7, 8}}
	c.QV = reflect.ValueOf(fragNode{N: 1, S: "root", Sub: &mid, List: []fragNode{mid}, Own: fragLeaf{5, 6}})
	s, err := c.NewSchema()
	if err != nil {
		t.Fail("a valid schema is refused", err.Error())
		return nil
	}
	c.S = s
	return c
}

// similarNames makes n different names that are easily confused
func similarNames(r *rand.Rand, n int) []string {
	seen := map[string]bool{"on": true}
	var l []string
	base := pick(r, "F", "Frag", "evasFo", "ab", "A", "query", "ononon", "a_rather_long_fragment_name")
	for len(l) < n {
		x := base
		switch r.Intn(7) {
		case 0:
			x = base[:1+r.Intn(len(base))]
		case 1:
			x = base + pick(r, "a", "A", "0", "_", "F", base)
		case 2:
			if len(l) > 0 {
				x = l[r.Intn(len(l))] + pick(r, "a", "b", "1", "2", "_")
			}
		case 3:
			b := []byte(base)
			r.Shuffle(len(b), func(i, j int) { b[i], b[j] = b[j], b[i] })
			x = string(b)
		case 4:
			if len(l) > 0 {
				b := []byte(l[r.Intn(len(l))])
				b[r.Intn(len(b))] = "abcxyzABC_Fevost"[r.Intn(16)]
				x = string(b)
			}
		case 5:
			x = pick(r, "_", "") + base + itoa(r.Intn(100))
		case 6:
			if len(l) > 0 {
				x = l[r.Intn(len(l))]
				x = x[:1+r.Intn(len(x))]
			}
		}
		if seen[x] || x == "" || x[0] >= '0' && x[0] <= '9' || len(x) > 80 {
			continue
		}
		seen[x] = true
		l = append(l, x)
	}
	return l
}

func c12names(t *run.T) {
	r := t.R
	c := fragCase(t)
	if c == nil {
		return
	}
	for round := 0; round < 3; round++ {
		n := 2 + r.Intn(12)
		if chance(r, 4) {
			n = 20 + r.Intn(60)
		}
		names := similarNames(r, n+1)
		undefined := names[n]
		names = names[:n]
		// a tree: every fragment is spread at most once
		name := c.QName
		sels := make([][]*q.Sel, n)
		var opSel []*q.Sel
		// where a fragment is spread: within the operation or a fragment of a lower number
		broken := chance(r, 3)
		for i := 0; i < n; i++ {
			key := "k" + itoa(i)
			sels[i] = append(sels[i], &q.Sel{K: q.SField, Alias: key, Name: pick(r, "n", "s", "__typename")})
			if chance(r, 4) {
				sels[i] = append(sels[i], &q.Sel{K: q.SField, Alias: "o" + itoa(i), Name: "own", Sub: []*q.Sel{{K: q.SField, Name: pick(r, "a", "b")}}})
			}
		}
		put := func(dst *[]*q.Sel, s *q.Sel) {
			at := r.Intn(len(*dst) + 1)
			*dst = append((*dst)[:at:at], append([]*q.Sel{s}, (*dst)[at:]...)...)
		}
		used := 0
		reach := make([]bool, n)
		for i := 0; i < n; i++ {
			if chance(r, 6) {
				continue // never spread
			}
			s := &q.Sel{K: q.SSpread, Name: names[i]}
			w := s
			if chance(r, 8) {
				w = &q.Sel{K: q.SInline, On: name, Sub: []*q.Sel{s}}
			}
			if i > 0 && chance(r, 2) {
				p := r.Intn(i)
				put(&sels[p], w)
				reach[i] = reach[p]
			} else {
				put(&opSel, w)
				reach[i] = true
			}
			used++
		}
		bad := &q.Sel{K: q.SSpread, Name: undefined}
		if broken {
			p := r.Intn(n + 1)
			if p < n && reach[p] {
				put(&sels[p], bad)
			} else {
				put(&opSel, bad)
			}
		}
		if len(opSel) == 0 {
			opSel = []*q.Sel{{K: q.SField, Name: "n"}}
		}
		op := &q.Op{Kind: "query", Sel: opSel, Shorthand: chance(r, 2)}
		doc := &q.Doc{Defs: []interface{}{op}}
		for i := range sels {
			doc.Defs = append(doc.Defs, &q.Frag{Name: names[i], On: name, Sel: sels[i]})
		}
		r.Shuffle(len(doc.Defs), func(i, j int) { doc.Defs[i], doc.Defs[j] = doc.Defs[j], doc.Defs[i] })
		rq := &core.Request{Doc: doc, Target: op, Text: doc.Print(q.Layout{R: r, Level: r.Intn(3)})}
		if !broken {
			e, res := conform(t, c, c.S, rq, core.PAll)
			t.Max("fragments in a document", n)
			if e.Frags > 0 {
				t.NonTrivial(rq.Doc.Print(q.Layout{}))
			}
			_ = res
			if t.Failed() {
				return
			}
			continue
		}
		// expected without the undefined one: give it an empty meaning
		d2 := &q.Doc{Defs: append(append([]interface{}{}, doc.Defs...), &q.Frag{Name: undefined, On: "NoSuchType", Sel: []*q.Sel{{K: q.SField, Name: "n"}}})}
		e := c.Interpret(&core.Request{Doc: d2, Target: op})
		res := c.Run(c.S, rq.Text, rq.Options())
		t.Eval(1)
		t.Count("spreads of undefined fragments", 1)
		t.NonTrivial("undefined", rq.Doc.Print(q.Layout{}))
		switch {
		case res.Bad != "":
			t.Fail(res.Bad, describe(rq, res))
		case len(res.Errs) == 0:
			t.Fail("no error for the undefined fragment "+undefined, describe(rq, res))
		default:
			if d := weak(e.Data, res.Data); d != "" {
				t.Fail("with an undefined fragment: "+d, describe(rq, res))
			}
		}
		if t.Failed() {
			return
		}
	}
}

func c12cycle(t *run.T) {
	r := t.R
	c := fragCase(t)
	if c == nil {
		return
	}
	n := 1 + r.Intn(12)
	open := chance(r, 3) // a chain instead of a circle
	if open && chance(r, 3) {
		n = 1 + r.Intn(150)
	}
	entry := r.Intn(4) // fragments leading to the circle
	names := similarNames(r, n+entry)
	name := c.QName
	doc := &q.Doc{}
	link := func(to string) *q.Sel {
		s := &q.Sel{K: q.SSpread, Name: to}
		switch r.Intn(5) {
		case 0:
			return &q.Sel{K: q.SInline, On: name, Sub: []*q.Sel{s}}
		case 1:
			return &q.Sel{K: q.SInline, On: name, Sub: []*q.Sel{{K: q.SField, Alias: "q" + to, Name: "n"}, s}}
		}
		return s
	}
	deep := 0
	for i, x := range names {
		to := i + 1
		if to == len(names) {
			to = entry
		}
		f := &q.Frag{Name: x, On: name, Sel: []*q.Sel{{K: q.SField, Alias: "k" + itoa(i), Name: "n"}}}
		l := link(names[to])
		if deep < 1 && chance(r, 6) {
			// through a field: the value ends, the circle does not
			deep++
			l = &q.Sel{K: q.SField, Alias: "f" + itoa(i), Name: pick(r, "sub", "list"), Sub: []*q.Sel{{K: q.SField, Name: "n"}, l}}
		}
		if open && i == len(names)-1 {
		} else if chance(r, 2) {
			f.Sel = append(f.Sel, l)
		} else {
			f.Sel = append([]*q.Sel{l}, f.Sel...)
		}
		doc.Defs = append(doc.Defs, f)
	}
	op := &q.Op{Kind: "query", Sel: []*q.Sel{{K: q.SField, Name: "s"}, link(names[0])}}
	doc.Defs = append(doc.Defs, op)
	r.Shuffle(len(doc.Defs), func(i, j int) { doc.Defs[i], doc.Defs[j] = doc.Defs[j], doc.Defs[i] })
	rq := &core.Request{Doc: doc, Target: op, Text: doc.Print(q.Layout{R: r, Level: r.Intn(2)})}
	if open {
		conform(t, c, c.S, rq, core.PAll)
		t.Max("fragments in a chain", len(names))
		t.NonTrivial(rq.Doc.Print(q.Layout{}))
		return
	}
	res := c.Run(c.S, rq.Text, rq.Options())
	t.Eval(1)
	t.Count("fragment circles", 1)
	t.Max("fragments in a circle", n)
	t.NonTrivial("circle", rq.Doc.Print(q.Layout{}))
	if res.Bad != "" {
		t.Fail(res.Bad, describe(rq, res))
		return
	}
	if len(res.Errs) == 0 {
		t.Fail(fmt.Sprintf("no error for a circle of %d fragments", n), describe(rq, res))
		return
	}
	// the schema still works
	ok := c.Run(c.S, "{n ...F} fragment F on "+name+"{s}", (&core.Request{}).Options())
	if ok.Raw != `{"data":{"n":1,"s":"root"}}` {
		t.Fail("after a fragment circle a query is not answered: "+ok.Raw, describe(rq, res))
	}
}
