package checks

import (
	"fmt"
	"math/rand"
	"reflect"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/q"
	"vh/run"
	"vh/uni"
)

func init() {
	yarql.Implements((*DeepI)(nil), Deep{})
	add(&run.Check{
		ID:     "C17",
		Rule:   "A case is a chain of up to 310 objects linked by every form of nesting (pointer, pointer to pointer, list, list of lists, array, interface, list of interfaces, function field, method, with and without error) and a limit N, over the run every N from 1 to 255. Queries follow random forms to levels around N (N-2 to N+3) and around 255, each level also through inline and named fragments. Below N the response has to be complete; from N on the object at the limit has to be null with an error at its path, nothing deeper present, and everything before it complete. Non-trivial: distinct combination of limit, depth and nesting forms.",
		Assume: []string{"reaching the limit may abort the selection sets around the object"},
		Quick:  2040, Thorough: 51000, CPU: 60,
		Run: c17,
	})
}

// DeepI is an interface whose values nest
type DeepI interface {
	ResolveIn() int
	ResolveNext() DeepI
}

// Deep nests in every way
type Deep struct {
	N  int
	P  *Deep
	PP **Deep
	L  []Deep
	LL [][]*Deep
	Ar [2]*Deep
	I  DeepI
	IL []DeepI
	F  func() *Deep
	G  func() (DeepI, error)
}

// ResolveIn is a field
func (d Deep) ResolveIn() int { return d.N }

// ResolveNext is a field
func (d Deep) ResolveNext() DeepI { return d.I }

// ResolveM is a field
func (d Deep) ResolveM() (*Deep, error) { return d.P, nil }

var deepForms = []string{"p", "PP", "l", "LL", "ar", "i", "IL", "f", "g", "next", "m"}

func deepChain(t *run.T, levels int) Deep {
	var next *Deep
	wide := 3
	for i := levels; i >= 0; i-- {
		d := Deep{N: i}
		if next != nil {
			n := next
			d.P, d.PP = n, &n
			d.L = []Deep{*n}
			d.LL = [][]*Deep{{n}}
			d.Ar = [2]*Deep{n, nil}
			d.I = *n
			d.IL = []DeepI{*n}
			if wide > 0 && chance(t.R, levels/3+1) {
				wide--
				d.L = append(d.L, *n)
				d.LL = [][]*Deep{{n}, nil, {}, {nil, n}}
				d.IL = append(d.IL, nil, *n)
				d.Ar[1] = n
			}
			d.F = func() *Deep { return n }
			d.G = func() (DeepI, error) { return *n, nil }
		}
		x := d
		next = &x
	}
	return *next
}

func c17(t *run.T) {
	r := t.R
	limit := 1 + t.Case%255
	levels := limit + 5
	if chance(r, 6) {
		levels = 310
	}
	c := deepCase(t, levels)
	if c == nil {
		return
	}
	s := c.S
	if limit != 255 || chance(r, 2) {
		s.MaxDepth = uint8(limit)
	}
	if chance(r, 4) {
		s = s.Copy()
	}
	for i := 0; i < 8; i++ {
		depth := limit - 2 + r.Intn(6)
		if chance(r, 8) {
			depth = 1 + r.Intn(levels)
		}
		if depth < 0 {
			depth = 0
		}
		if depth > levels {
			depth = levels
		}
		c17one(t, c, s, limit, depth)
		if t.Failed() {
			return
		}
	}
}

// deepCase is a schema whose data is a chain of objects
func deepCase(t *run.T, levels int) *core.Case {
	r := t.R
	c := &core.Case{R: r, W: &uni.World{MaxLog: 1000}}
	c.M = core.NewModel(nil, []uni.Iface{{T: reflect.TypeOf((*DeepI)(nil)).Elem(), Impl: []reflect.Type{reflect.TypeOf(Deep{})}}})
	c.QT, c.MT = reflect.TypeOf(Deep{}), reflect.TypeOf(uni.M0{})
	c.QV, c.MV = reflect.ValueOf(deepChain(t, levels)), reflect.ValueOf(uni.M0{})
	if chance(r, 3) {
		c.QT, c.MT, c.QV, c.MV = c.MT, c.QT, c.MV, c.QV
	}
	c.QObj, c.MObj = c.M.Obj(c.QT), c.M.Obj(c.MT)
	s := yarql.NewSchema()
	if err := s.Parse(c.QV.Interface(), c.MV.Interface(), nil); err != nil {
		t.Fail("a valid schema is refused", err.Error())
		return nil
	}
	c.S, c.QName = s, c.QT.Name()
	return c
}

// deepRequest makes a request that reaches a level, and a description of it
func deepRequest(c *core.Case, r *rand.Rand, depth int) (*core.Request, string, bool) {
	doc := &q.Doc{}
	strict := chance(r, 2) // the deep branch is the last
	only := ""
	if chance(r, 3) {
		only = deepForms[r.Intn(len(deepForms))]
	}
	frags := []int{0, 2, 6, 30}[r.Intn(4)]
	shared := 0
	if chance(r, 3) {
		// one fragment for many levels
		shared = 1 + r.Intn(20)
		doc.Defs = append(doc.Defs, &q.Frag{Name: "Z", On: "Deep", Sel: []*q.Sel{{K: q.SField, Alias: "z", Name: "n"}}})
	}
	shape := ""
	// sel makes the selection on the object of a level; iface: seen through the interface
	var sel func(level int, iface bool) []*q.Sel
	sel = func(level int, iface bool) []*q.Sel {
		wrap := func(ss []*q.Sel, on string) []*q.Sel {
			if chance(r, 2) {
				return []*q.Sel{{K: q.SInline, On: on, Sub: ss}}
			}
			f := &q.Frag{Name: "F" + itoa(len(doc.Defs)), On: on, Sel: ss}
			doc.Defs = append(doc.Defs, f)
			return []*q.Sel{{K: q.SSpread, Name: f.Name}}
		}
		on := "Deep"
		form := only
		if form == "" {
			form = deepForms[r.Intn(len(deepForms))]
		}
		through := false
		if iface && form != "next" {
			through = true // needs a fragment
		}
		var ss []*q.Sel
		num := "n"
		if iface && !through {
			num = "in"
			on = "DeepI"
		}
		ss = append(ss, &q.Sel{K: q.SField, Name: num})
		if shared > 0 && chance(r, shared) {
			ss = append(ss, &q.Sel{K: q.SSpread, Name: "Z"})
		}
		if level < depth {
			sub := sel(level+1, form == "i" || form == "IL" || form == "g" || form == "next")
			shape += form[:1]
			b := &q.Sel{K: q.SField, Name: form, Sub: sub}
			if strict || chance(r, 2) {
				ss = append(ss, b)
			} else {
				ss = append([]*q.Sel{b}, ss...)
			}
		}
		if through || frags > 0 && chance(r, frags) {
			ss = wrap(ss, on)
			shape += "."
		}
		return ss
	}
	op := &q.Op{Kind: "query"}
	if c.MT == reflect.TypeOf(Deep{}) {
		op.Kind = "mutation"
	}
	op.Sel = sel(0, false)
	doc.Defs = append(doc.Defs, op)
	return &core.Request{Doc: doc, Target: op, Text: doc.Print(q.Layout{})}, shape, strict
}

func c17one(t *run.T, c *core.Case, s *yarql.Schema, limit, depth int) {
	r := t.R
	rq, shape, strict := deepRequest(c, r, depth)
	e := c.Interpret(rq, func(in *core.Interp) { in.MaxDepth = limit })
	res := c.Run(s, rq.Text, rq.Options())
	t.Eval(1)
	t.Distinct("limits", run.HashOf(limit))
	t.Max("levels", depth)
	t.NonTrivial(limit, depth, shape)
	fail := func(msg string) {
		t.Fail(fmt.Sprintf("limit %d, depth %d: %s", limit, depth, msg), describe(rq, res))
	}
	if depth < limit {
		t.Count("queries below the limit", 1)
		if e.Cut > 0 {
			panic("harness: cut off below the limit")
		}
		if d := e.Judge(res, core.PData|core.PErrs); d != "" {
			fail(d)
		} else if t.WantSample() {
			t.Sample("limit %d, depth %d: %s", limit, depth, rq.Text)
		}
		return
	}
	t.Count(rq.Target.Kind+" operations that reach the limit", 1)
	t.Count("queries that reach the limit", 1)
	if res.Bad != "" {
		fail(res.Bad)
		return
	}
	if len(res.Errs) == 0 {
		fail("no error")
		return
	}
	paths := map[string]bool{}
	for _, x := range e.Errs {
		paths[x.Path] = true
	}
	first := false
	for _, x := range res.Errs {
		if !paths[x.Path] {
			fail("unexpected error at " + x.Path + ": " + x.Msg)
			return
		}
		first = first || x.Path == e.Errs[0].Path
	}
	if !first {
		fail("no error at " + e.Errs[0].Path)
		return
	}
	if d := weak(e.Data, res.Data); d != "" {
		fail(d)
		return
	}
	if strict {
		// what comes before the deep branch is there, and the branch down to the limit
		exp, act := e.Data, res.Data
		for lvl := 0; ; {
			for exp.K == 'a' {
				if act == nil || act.K != 'a' || len(act.A) == 0 {
					fail(fmt.Sprintf("level %d is incomplete", lvl))
					return
				}
				exp, act = exp.A[0], act.A[0]
			}
			if exp.K != 'o' {
				if act.K != exp.K {
					fail(fmt.Sprintf("level %d should be null", lvl))
				}
				return
			}
			if act.K != 'o' || len(act.Keys) < 2 {
				fail(fmt.Sprintf("level %d is incomplete", lvl))
				return
			}
			lvl++
			exp, act = exp.A[len(exp.A)-1], act.A[len(exp.A)-1]
		}
	}
}
