// Package checks holds the monitors and workloads of every property.
package checks

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/q"
	"vh/run"
	"vh/uni"
)

// All lists the checks
var All []*run.Check

func add(c *run.Check) { All = append(All, c) }

// newCase makes a schema or reports why it cannot
func newCase(t *run.T, opt core.CaseOpt) *core.Case {
	if opt.QT == nil && opt.MT == nil && !opt.Named && chance(t.R, 300) {
		opt.QT = (&core.TypeGen{R: t.R}).Wide(30 + t.R.Intn(100))
		opt.MT = reflect.TypeOf(uni.M1{})
	}
	c, err := core.NewCase(t.R, opt)
	if err != nil {
		t.Fail("a valid schema is refused: "+err.Error(), err.Error())
		return nil
	}
	return c
}

// describe writes a request down
func describe(rq *core.Request, r *core.Response) string {
	var b strings.Builder
	fmt.Fprintf(&b, "query: %s\nquery (quoted): %q\n", rq.Doc.Print(q.Layout{}), rq.Text)
	if rq.OpName != "" {
		fmt.Fprintf(&b, "operation: %s\n", rq.OpName)
	}
	fmt.Fprintf(&b, "variables: %s\n", rq.Vars)
	if r != nil {
		fmt.Fprintf(&b, "response: %s\nerrors: %q\n", r.Raw, r.GoErr)
	}
	return b.String()
}

// observe counts what a request did
func observe(t *run.T, rq *core.Request, e *core.Expect) {
	t.Eval(1)
	t.Count("fields resolved", e.Fields)
	t.Count("resolver calls", e.Calls)
	t.Count("directive calls", e.DirCall)
	t.Count("nulls", e.Nulls)
	t.Count("lists", e.Lists)
	t.Count("skipped selections", e.Skips)
	t.Count("fragments applied", e.Frags)
	t.Count("fragments not applied", e.NoFrags)
	t.Count("resolver errors", e.Errors)
	t.Max("object nesting", e.MaxLvl)
	t.Max("query bytes", len(rq.Text))
	for k, n := range rq.Stats {
		t.Count("request: "+k, n)
	}
}

func sample(t *run.T, rq *core.Request, r *core.Response) {
	if t.WantSample() {
		raw := ""
		if r != nil {
			raw = r.Raw
		}
		s := rq.Doc.Print(q.Layout{})
		if len(s) > 700 {
			s = s[:700] + "..."
		}
		if len(raw) > 500 {
			raw = raw[:500] + "..."
		}
		t.Sample("%s -> %s", s, raw)
	}
}

// conform runs rq on s and compares with the reference interpreter
func conform(t *run.T, c *core.Case, s *yarql.Schema, rq *core.Request, parts int, mods ...func(*core.Interp)) (*core.Expect, *core.Response) {
	e := c.Interpret(rq, mods...)
	r := c.Run(s, rq.Text, rq.Options())
	observe(t, rq, e)
	if d := e.Judge(r, parts); d != "" {
		t.Fail(d, describe(rq, r))
	}
	return e, r
}

// shapeOf identifies what a request asked for and what it got
func shapeOf(c *core.Case, rq *core.Request) string {
	return c.QT.String() + c.MT.String() + rq.Doc.Print(q.Layout{})
}

func pick[X any](r *rand.Rand, l ...X) X { return l[r.Intn(len(l))] }

func chance(r *rand.Rand, n int) bool { return r.Intn(n) == 0 }

func itoa(n int) string { return strconv.Itoa(n) }

// argRoot makes a root type of nf functions that take up to na arguments
func argRoot(r *rand.Rand, nf, na int, noFiles bool) reflect.Type {
	tg := &core.TypeGen{R: r, NoFiles: noFiles}
	names := r.Perm(len(core.FieldNames))
	var fs []reflect.StructField
	for i := 0; i < nf; i++ {
		var ins []reflect.Type
		switch r.Intn(4) {
		case 0:
			t := tg.ArgStruct(1 + r.Intn(na))
			ins = append(ins, t)
			// a second struct must not repeat names
			var more []reflect.StructField
			for k := 0; k < 1+r.Intn(2); k++ {
				more = append(more, reflect.StructField{Name: "More" + itoa(k), Type: tg.In(1)})
			}
			ins = append(ins, reflect.StructOf(more))
			for k := r.Intn(3) * r.Intn(3); k > 0; k-- {
				// and some more
				ins = append(ins, reflect.StructOf([]reflect.StructField{{Name: "Much" + itoa(k), Type: tg.In(1)}}))
			}
		default:
			ins = append(ins, tg.ArgStruct(1+r.Intn(na)))
		}
		if chance(r, 4) {
			at := r.Intn(len(ins) + 1)
			ins = append(ins[:at:at], append([]reflect.Type{reflect.TypeOf(&yarql.Ctx{})}, ins[at:]...)...)
		}
		outs := []reflect.Type{[]reflect.Type{reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(true), reflect.TypeOf([]uint8{})}[r.Intn(4)]}
		if chance(r, 3) {
			outs = append(outs, reflect.TypeOf((*error)(nil)).Elem())
		}
		fs = append(fs, reflect.StructField{Name: core.FieldNames[names[i]], Type: reflect.FuncOf(ins, outs, false)})
	}
	fs = append(fs, reflect.StructField{Name: "Plain", Type: reflect.TypeOf(0)})
	return reflect.StructOf(fs)
}

// argCase makes a schema whose root consists of functions with arguments
func argCase(t *run.T, nf, na int, noFiles bool) *core.Case {
	opt := core.CaseOpt{QT: argRoot(t.R, nf, na, noFiles), MT: reflect.TypeOf(uni.M1{})}
	return newCase(t, opt)
}

// wide runs requests on a schema, with documents, that have hundreds of
// everything: fields, arguments, variables, fragments
func wide(t *run.T, parts int) {
	r := t.R
	n := pick(r, 100, 126, 127, 128, 129, 200, 253, 254, 255, 256, 257, 300)
	tg := &core.TypeGen{R: r}
	c := newCase(t, core.CaseOpt{QT: tg.Wide(n), MT: reflect.TypeOf(uni.M1{}), Budget: 3000})
	if c == nil {
		return
	}
	if chance(r, 2) {
		c.W.FailMod = 12
		c.W.FailSeed = r.Uint64()
	}
	opt := core.DefaultOpt()
	opt.Budget = 2000
	opt.FieldP = pick(r, 60, 100)
	opt.VarP = pick(r, 3, 50, 95)
	opt.MaxFrags = 400
	opt.MaxVars = 400
	opt.FragN = pick(r, 2, 40, 300)
	opt.MaxDepth = pick(r, 2, 4)
	g := core.NewGen(c, r, opt)
	for i := 0; i < 2; i++ {
		rq := g.Request()
		e, resp := conform(t, c, c.S, rq, parts)
		t.Max("wide: fields written", e.Fields)
		t.Max("wide: variables", len(rq.Target.Vars))
		t.Max("wide: definitions", len(rq.Doc.Defs))
		t.Max("wide: document bytes", len(rq.Text))
		t.Max("wide: errors", len(resp.Errs))
		t.NonTrivial("wide", rq.Text)
		if t.Failed() {
			return
		}
	}
}

// funcFields lists the fields of o that have arguments and no selection
func funcFields(c *core.Case, o *core.Obj) []*core.Field {
	var l []*core.Field
	for _, f := range o.Fields {
		if f.Func != nil && len(f.Func.Args) > 0 && c.M.Leaf(f.Out) == nil {
			l = append(l, f)
		}
	}
	return l
}

func sortStrings(l []string) { sort.Strings(l) }

type optsT = yarql.ResolveOptions
