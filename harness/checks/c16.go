package checks

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/q"
	"vh/run"
	"vh/uni"
)

func init() {
	add(&run.Check{
		ID:     "C16",
		Rule:   "Three kinds of evaluations on random schemas. (1) Requests whose resolvers fail by a random plan (from every second to one in twenty calls; the messages need escaping): data, the multiset of errors with paths and the calls have to be what the reference interpreter says, and apart from the errors the same as when no resolver fails. (2) One selection of a valid document is made invalid (unknown field, missing selection, superfluous selection, arguments on a plain field), anywhere, also within fragments and lists: the error has to be reported with the path at which it is first reached, and whatever else is present (data, calls, errors) has to be expected. (3) Errors at random elements of lists of up to 150000 and at paths of up to 229 keys of 254 bytes. Non-trivial: distinct request with at least one error.",
		Assume: []string{"an invalid selection is reported when it is reached and may abort the selection sets around it"},
		Quick:  9000, Thorough: 200000, CPU: 60,
		Run: c16,
	})
}

func c16(t *run.T) {
	if t.Case%300 == 123 {
		wide(t, core.PErrs|core.PPath)
		return
	}
	r := t.R
	if t.Case%1500 == 77 {
		c16long(t)
		return
	}
	if t.Case%700 == 78 {
		c16deep(t)
		return
	}
	opt := core.CaseOpt{Named: chance(r, 2), BadUTF: chance(r, 3)}
	c := newCase(t, opt)
	if c == nil {
		return
	}
	gopt := core.DefaultOpt()
	gopt.FieldP = []int{40, 80}[r.Intn(2)]
	gopt.Budget = 90
	g := core.NewGen(c, r, gopt)
	for i := 0; i < 4; i++ {
		c.W.FailMod = uint64([]int{0, 1, 2, 4, 8, 20}[r.Intn(6)])
		c.W.FailSeed = r.Uint64()
		rq := g.Request()
		if chance(r, 2) {
			c16fail(t, c, rq)
		} else {
			c16invalid(t, c, g, rq)
		}
		if t.Failed() {
			return
		}
	}
}

// Q16 holds a long list
type Q16 struct{ L []Item16 }

// Item16 is an element of it
type Item16 struct{ fail bool }

// ResolveF fails for some
func (i Item16) ResolveF(ctx *yarql.Ctx) (bool, error) {
	if i.fail {
		return true, errors.New(string(ctx.GetPath()))
	}
	return false, nil
}

// c16long reports errors at large indices
func c16long(t *run.T) {
	r := t.R
	n := 60000 + r.Intn(90000)
	root := Q16{L: make([]Item16, n)}
	for i := r.Intn(40); i >= 0; i-- {
		root.L[r.Intn(n)].fail = true
	}
	root.L[n-1-r.Intn(100)].fail = true
	var want []string
	for i, x := range root.L {
		if x.fail {
			want = append(want, fmt.Sprintf(`["l",%d,"f"]`, i))
		}
	}
	s := yarql.NewSchema()
	if err := s.Parse(root, uni.M0{}, nil); err != nil {
		t.Fail("a valid schema is refused: "+err.Error(), "")
		return
	}
	c := &core.Case{R: r, W: &uni.World{}}
	res := c.Run(s, "{l{f}}", optsT{})
	t.Eval(1)
	t.Max("elements of a list", n)
	t.NonTrivial("long", n)
	if res.Bad != "" || len(res.Errs) != len(want) {
		t.Fail(fmt.Sprintf("%d errors instead of %d %s", len(res.Errs), len(want), res.Bad), fmt.Sprint(n))
		return
	}
	for i, x := range res.Errs {
		if x.Path != want[i] || x.Msg != want[i] {
			t.Fail(fmt.Sprintf("the error at %s of a list of %d is reported at %s, its resolver saw %s", want[i], n, x.Path, x.Msg), "")
			return
		}
	}
}

// Deep16 is a chain of objects
type Deep16 struct {
	Next *Deep16
	List []Deep16
}

// ResolveF always fails
func (Deep16) ResolveF(ctx *yarql.Ctx) (bool, error) {
	return true, errors.New(string(ctx.GetPath()))
}

// c16deep reports errors at very long paths
func c16deep(t *run.T) {
	r := t.R
	n := 2 + r.Intn(230)
	width := []int{1, 30, 120, 254}[r.Intn(4)]
	var used map[string]bool
	alias := func() string {
		for {
			b := make([]byte, 1+r.Intn(width))
			for i := range b {
				b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"[r.Intn(53)]
			}
			if x := string(b); !used[x] {
				used[x] = true
				return x
			}
		}
	}
	// an object of each level holds the next one, the document follows it
	root := &Deep16{}
	text, after := "{", ""
	var want, late []string
	path := ""
	for i, o := 0, root; ; i++ {
		used = map[string]bool{}
		last := i == n-1
		if last || chance(r, 5) {
			a := alias()
			text += a + ":f "
			want = append(want, "["+path+q.Quote(a)+"]")
		}
		x := ""
		if chance(r, 5) {
			a := alias()
			x = " " + a + ":f"
			late = append(late, "["+path+q.Quote(a)+"]")
		}
		after = x + "}" + after
		if last {
			break
		}
		a := alias()
		next := Deep16{}
		path += q.Quote(a) + ","
		if chance(r, 2) {
			o.Next = &next
			o = o.Next
			text += a + ":next{"
		} else {
			o.List = []Deep16{next}
			o = &o.List[0]
			path += "0,"
			text += a + ":list{"
		}
	}
	for i := len(late) - 1; i >= 0; i-- {
		want = append(want, late[i])
	}
	s := yarql.NewSchema()
	if err := s.Parse(*root, uni.M0{}, nil); err != nil {
		t.Fail("a valid schema is refused: "+err.Error(), "")
		return
	}
	c := &core.Case{R: r, W: &uni.World{}}
	res := c.Run(s, text+after, optsT{})
	t.Eval(1)
	t.Max("bytes of a path", len(path))
	t.NonTrivial("deep", n, len(path))
	if res.Bad != "" || len(res.Errs) != len(want) {
		t.Fail(fmt.Sprintf("%d errors instead of %d %s", len(res.Errs), len(want), res.Bad), text+after)
		return
	}
	for i, x := range res.Errs {
		if x.Path != want[i] || x.Msg != want[i] {
			t.Fail(fmt.Sprintf("the error at %s is reported at %s, its resolver saw %s", clip(want[i], 300), clip(x.Path, 300), clip(x.Msg, 300)), text+after)
			return
		}
	}
}

func c16fail(t *run.T, c *core.Case, rq *core.Request) {
	e, res := conform(t, c, c.S, rq, core.PAll)
	if t.Failed() {
		return
	}
	if len(e.Errs) > 0 {
		t.NonTrivial(shapeOf(c, rq), fmt.Sprint(e.Errs))
		sample(t, rq, res)
	}
	t.Max("errors in a response", len(e.Errs))
	// the same without failures
	mod := c.W.FailMod
	c.W.FailMod = 0
	r2 := c.Run(c.S, rq.Text, rq.Options())
	c.W.FailMod = mod
	diff := r2.Bad
	if diff == "" && r2.Data.Text() != res.Data.Text() {
		diff = "data differs"
	}
	if diff == "" {
		diff = core.DiffLog(r2.Log, res.Log)
	}
	if diff != "" {
		t.Fail("a failing resolver changes more than the errors: "+diff, describe(rq, res)+"\nwithout failures: "+r2.Raw)
	}
}

// plainOnly tells that nothing callable is behind a field
func plainOnly(f *core.Field) bool { return f.K == core.FPlain }

func c16invalid(t *run.T, c *core.Case, g *core.Gen, rq *core.Request) {
	r := t.R
	type spot struct {
		list *[]*q.Sel
		at   int
		o    *core.Obj
	}
	var spots []spot
	seen := map[string]bool{}
	var walk func(list *[]*q.Sel, o *core.Obj)
	walk = func(list *[]*q.Sel, o *core.Obj) {
		for i, s := range *list {
			spots = append(spots, spot{list, i, o})
			switch s.K {
			case q.SField:
				if f := o.ByName[s.Name]; f != nil && s.Sub != nil {
					if l := c.M.Leaf(f.Out); l != nil {
						walk(&s.Sub, l)
					}
				}
			case q.SInline:
				x := o
				for _, i := range o.Impl {
					if i.Matches(s.On) {
						x = i
					}
				}
				if x.Matches(s.On) || s.On == c.QName || s.On == c.MName {
					walk(&s.Sub, x)
				}
			case q.SSpread:
				f := rq.Doc.Frag(s.Name)
				if !seen[s.Name] && (o.Matches(f.On) || f.On == c.QName || f.On == c.MName) {
					seen[s.Name] = true
					walk(&f.Sel, o)
				}
			}
		}
	}
	root := c.QObj
	if rq.Target.Kind == "mutation" {
		root = c.MObj
	}
	walk(&rq.Target.Sel, root)
	kind, name := "", ""
	var bad *q.Sel
	for tries := 0; tries < 20 && kind == ""; tries++ {
		sp := spots[r.Intn(len(spots))]
		s := (*sp.list)[sp.at]
		if s.K == q.SField && s.Name == "__typename" && chance(r, 3) {
			kind, bad = "superfluous", s
			s.Sub = []*q.Sel{{K: q.SField, Name: pick(r, "__typename", "x", "name")}}
			continue
		}
		if s.K != q.SField || s.Name == "__typename" || chance(r, 5) {
			// insert an unknown field
			name = pick(r, "nope", "__schem", "__typenam", "_", "Name", "resolveFoo", "__type_", "typename", "undefinedFieldOfSomeLength")
			if sp.o.IsIface || len(sp.o.Fields) == 0 {
				name = "nope"
			} else if chance(r, 2) {
				n := sp.o.Fields[r.Intn(len(sp.o.Fields))].Name
				switch r.Intn(4) {
				case 0:
					name = n + pick(r, "x", "_", "0")
				case 1:
					name = n[:len(n)-1]
				case 2:
					name = strings.ToUpper(n)
				default:
					name = sp.o.Fields[0].Go
				}
			}
			if name == "" || name[0] >= '0' && name[0] <= '9' || sp.o.ByName[name] != nil || name == "__schema" || name == "__type" {
				continue
			}
			bad = &q.Sel{K: q.SField, Name: name, Alias: pick(r, "", "bad_1")}
			if chance(r, 4) {
				bad.Sub = []*q.Sel{{K: q.SField, Name: "x"}}
			}
			for _, x := range *sp.list {
				if x.K == q.SField && x.Key() == bad.Key() {
					bad.Alias = "bad_2"
				}
			}
			l := append([]*q.Sel{}, (*sp.list)[:sp.at]...)
			l = append(l, bad)
			*sp.list = append(l, (*sp.list)[sp.at:]...)
			kind = "unknown"
			continue
		}
		f := sp.o.ByName[s.Name]
		if f == nil {
			continue
		}
		leaf := c.M.Leaf(f.Out)
		switch {
		case plainOnly(f) && chance(r, 3):
			kind = "arguments"
			s.Args = []q.Arg{{Name: pick(r, "a", "if", s.Name), Val: []*q.Val{{K: q.VInt, Raw: "1"}, {K: q.VNull}, {K: q.VObj}, {K: q.VString, Str: "e"}}[r.Intn(4)]}}
		case leaf != nil:
			kind = "missing"
			s.Sub = nil
		default:
			kind = "superfluous"
			s.Sub = []*q.Sel{{K: q.SField, Name: pick(r, "__typename", "x", "e")}}
		}
		bad = s
	}
	if kind == "" {
		return
	}
	rq.Text = rq.Doc.Print(q.Layout{R: r, Level: r.Intn(3)})
	e := c.Interpret(rq, func(in *core.Interp) { in.Bad, in.BadKind = bad, kind })
	res := c.Run(c.S, rq.Text, rq.Options())
	t.Eval(1)
	t.Count("selections made invalid: "+kind, 1)
	fail := func(msg string) {
		t.Fail(kind+" "+bad.Name+": "+msg, describe(rq, res)+fmt.Sprintf("\nreached at: %v", e.Bad))
	}
	if res.Bad != "" {
		fail(res.Bad)
		return
	}
	if len(e.Bad) == 0 {
		t.Count("invalid selections that were not reached", 1)
		if d := e.Judge(res, core.PAll); d != "" {
			fail("not reached, but: " + d)
		}
		return
	}
	t.Count("invalid selections reached: "+kind, 1)
	t.NonTrivial(kind, shapeOf(c, rq))
	if d := weak(e.Data, res.Data); d != "" {
		fail("data: " + d)
		return
	}
	first := false
	left := map[string]int{}
	for _, x := range e.Errs {
		left[q.Sanitize(x.Msg)+x.Path]++
	}
	badLeft := map[string]int{}
	for _, p := range e.Bad {
		badLeft[p]++
	}
	for _, x := range res.Errs {
		k := q.Sanitize(x.Msg) + x.Path
		if left[k] > 0 {
			left[k]--
			continue
		}
		if badLeft[x.Path] > 0 {
			badLeft[x.Path]--
			first = first || x.Path == e.Bad[0]
			continue
		}
		fail(fmt.Sprintf("unexpected error %q at %s", x.Msg, x.Path))
		return
	}
	if !first {
		fail("no error at " + e.Bad[0])
		return
	}
	// the calls are some of the expected ones, in order
	at := 0
	for _, l := range res.Log {
		for at < len(e.Log) && e.Log[at] != l {
			at++
		}
		if at == len(e.Log) {
			fail("unexpected call " + l.String())
			return
		}
		at++
	}
	var kinds []string
	for _, x := range res.Errs {
		kinds = append(kinds, x.Path)
	}
	sort.Strings(kinds)
	if t.WantSample() {
		t.Sample("%s %s -> errors at %v", kind, rq.Doc.Print(q.Layout{}), kinds)
	}
}

var _ = uni.Hash
