package core

import (
	"context"
	"fmt"
	"math/rand"
	"reflect"

	"github.com/mjarkk/yarql"
	"vh/q"
	"vh/uni"
)

// DirDef is a registered custom directive
type DirDef struct {
	Name   string
	Fn     string
	Where  map[q.SelKind]bool
	ArgT   reflect.Type
	Method func(w *uni.World) interface{}
	Skips  func(args reflect.Value) bool
	Desc   string
	// instead of ArgT and Skips
	ArgTs []reflect.Type
	Judge func(args []reflect.Value) bool
}

// RandomDirs makes directives with random names, arguments and locations
func RandomDirs(r *rand.Rand, names []string) []*DirDef {
	var l []*DirDef
	for _, name := range names {
		name := name
		if name == "skip" || name == "include" {
			continue
		}
		d := &DirDef{Name: name, Fn: "@" + name, Where: map[q.SelKind]bool{}}
		for _, k := range []q.SelKind{q.SField, q.SSpread, q.SInline} {
			if r.Intn(3) != 0 {
				d.Where[k] = true
			}
		}
		if len(d.Where) == 0 {
			d.Where[q.SelKind(r.Intn(3))] = true
		}
		tg := &TypeGen{R: r, NoFiles: r.Intn(2) == 0}
		var ins []reflect.Type
		switch r.Intn(5) {
		case 0:
		case 1:
			n := tg.names(4)
			d.ArgTs = append(d.ArgTs, tg.argStruct(n[:2]), tg.argStruct(n[2:]))
		default:
			d.ArgTs = append(d.ArgTs, tg.ArgStruct(1+r.Intn(4)))
		}
		ins = append(ins, d.ArgTs...)
		if r.Intn(3) == 0 {
			at := r.Intn(len(ins) + 1)
			ins = append(ins[:at:at], append([]reflect.Type{ctxPtr}, ins[at:]...)...)
		}
		mod := uint64(2 + r.Intn(4))
		d.Judge = func(args []reflect.Value) bool {
			h := name
			for _, a := range args {
				h += uni.Canon(a) + ";"
			}
			return uni.Hash(h)%mod == 0
		}
		ft := reflect.FuncOf(ins, []reflect.Type{reflect.TypeOf(yarql.DirectiveModifier{})}, false)
		d.Method = func(w *uni.World) interface{} {
			return reflect.MakeFunc(ft, func(in []reflect.Value) []reflect.Value {
				var args []reflect.Value
				var vals []interface{}
				for _, x := range in {
					if x.Type() != ctxPtr {
						args = append(args, x)
						vals = append(vals, x.Interface())
					}
				}
				w.Call(d.Fn, 0, nil, false, vals...)
				return []reflect.Value{reflect.ValueOf(yarql.DirectiveModifier{Skip: d.Judge(args)})}
			}).Interface()
		}
		l = append(l, d)
	}
	return l
}

type dirArgs struct {
	N    int
	S    *string
	L    []int16
	C    uni.EColor
	P    *uni.InPoint
	MyID uint8 `gq:"myId,id"`
}

type dirArgs2 struct {
	When bool
	A    []*string
}

var where = map[q.SelKind]yarql.DirectiveLocation{q.SField: yarql.DirectiveLocationField, q.SSpread: yarql.DirectiveLocationFragment, q.SInline: yarql.DirectiveLocationFragmentInline}

// CustomDirs are the custom directives every generated schema registers
func CustomDirs() []*DirDef {
	return []*DirDef{
		{Name: "check", Fn: "@check", Where: map[q.SelKind]bool{q.SField: true, q.SSpread: true, q.SInline: true}, ArgT: reflect.TypeOf(dirArgs{}),
			Method: func(w *uni.World) interface{} {
				return func(a dirArgs) yarql.DirectiveModifier {
					w.Call("@check", 0, nil, false, a)
					return yarql.DirectiveModifier{Skip: a.N&1 == 1}
				}
			},
			Skips: func(a reflect.Value) bool { return a.Field(0).Int()&1 == 1 }, Desc: "skips on odd n"},
		{Name: "e", Fn: "@e", Where: map[q.SelKind]bool{q.SField: true}, ArgT: reflect.TypeOf(dirArgs2{}),
			Method: func(w *uni.World) interface{} {
				return func(ctx *yarql.Ctx, a dirArgs2) yarql.DirectiveModifier {
					w.Call("@e", 0, nil, false, a)
					return yarql.DirectiveModifier{Skip: !a.When}
				}
			},
			Skips: func(a reflect.Value) bool { return !a.Field(0).Bool() }},
		{Name: "mark", Fn: "@mark", Where: map[q.SelKind]bool{q.SSpread: true, q.SInline: true},
			Method: func(w *uni.World) interface{} {
				return func() yarql.DirectiveModifier {
					w.Call("@mark", 0, nil, false)
					return yarql.DirectiveModifier{}
				}
			},
			Skips: func(reflect.Value) bool { return false }},
	}
}

// Case is a schema with its data and its model
type Case struct {
	R            *rand.Rand
	M            *Model
	W            *uni.World
	S            *yarql.Schema
	QT, MT       reflect.Type
	QV, MV       reflect.Value
	QObj, MObj   *Obj
	QName, MName string // type names of the roots
	Dirs         []*DirDef
	Options      *yarql.SchemaOptions // how NewSchema parses
}

// CaseOpt tunes NewCase
type CaseOpt struct {
	QT, MT  reflect.Type // nil: random
	NoDirs  bool
	BadUTF  bool
	Budget  int
	NoFiles bool
	Named   bool // both roots are named types
}

// NewSchema builds a schema like that of c, with fresh state
func (c *Case) NewSchema() (*yarql.Schema, error) {
	s, err := c.Unparsed()
	if err != nil {
		return nil, err
	}
	if err := s.Parse(c.QV.Interface(), c.MV.Interface(), c.Options); err != nil {
		return nil, fmt.Errorf("Parse: %w", err)
	}
	return s, nil
}

// Unparsed makes a schema with the definitions of c, whose roots have to be parsed
func (c *Case) Unparsed() (*yarql.Schema, error) {
	s := yarql.NewSchema()
	for _, e := range uni.EnumMaps {
		if _, err := s.RegisterEnum(e); err != nil {
			return nil, fmt.Errorf("RegisterEnum: %w", err)
		}
	}
	for _, d := range c.Dirs {
		var w []yarql.DirectiveLocation
		for _, k := range []q.SelKind{q.SField, q.SSpread, q.SInline} {
			if d.Where[k] {
				w = append(w, where[k])
			}
		}
		if err := s.RegisterDirective(yarql.Directive{Name: d.Name, Where: w, Method: d.Method(c.W), Description: d.Desc}); err != nil {
			return nil, fmt.Errorf("RegisterDirective: %w", err)
		}
	}
	return s, nil
}

// NewCase makes a random schema with data
func NewCase(r *rand.Rand, opt CaseOpt) (*Case, error) {
	c := &Case{R: r, M: NewModel(uni.EnumMaps, uni.Ifaces), W: &uni.World{MaxLog: 100000}}
	c.QT, c.MT = opt.QT, opt.MT
	tg := &TypeGen{R: r, NoFiles: opt.NoFiles}
	if c.QT == nil && c.MT == nil {
		if opt.Named {
			c.QT = uni.Structs[r.Intn(len(uni.Structs))]
			c.MT = reflect.TypeOf(uni.M1{})
		} else if r.Intn(5) == 0 {
			c.MT = tg.Struct(0, 2+r.Intn(6))
			c.QT = uni.Structs[r.Intn(len(uni.Structs))]
		} else {
			c.QT = tg.Struct(0, 2+r.Intn(8))
			c.MT = []reflect.Type{reflect.TypeOf(uni.M0{}), reflect.TypeOf(uni.M1{}), uni.Structs[r.Intn(len(uni.Structs))]}[r.Intn(3)]
		}
	}
	f := NewFiller(r, c.M, c.W)
	if opt.Budget > 0 {
		f.Budget = opt.Budget
	}
	f.BadUTF = opt.BadUTF
	c.QV = f.New(c.QT)
	f.Budget = 100
	c.MV = f.New(c.MT)
	c.QObj, c.MObj = c.M.Obj(c.QT), c.M.Obj(c.MT)
	if !opt.NoDirs {
		c.Dirs = CustomDirs()
	}
	s, err := c.NewSchema()
	if err != nil {
		return nil, err
	}
	c.S = s
	c.QName = c.typeName("query")
	c.MName = c.typeName("mutation")
	return c, nil
}

func (c *Case) typeName(kind string) string {
	c.S.Resolve([]byte(kind+"{__typename}"), yarql.ResolveOptions{NoMeta: true})
	j, err := q.ParseJSON(string(c.S.Result))
	if err != nil || j.Get("__typename") == nil {
		return ""
	}
	return j.Get("__typename").S
}

// Options for resolving rq
func (rq *Request) Options() yarql.ResolveOptions {
	o := yarql.ResolveOptions{OperatorTarget: rq.OpName, Variables: rq.Vars}
	if rq.Files != nil {
		o.GetFormFile = rq.Files.Get
	}
	return o
}

// Response is what a request gave
type Response struct {
	Raw   string
	J     *q.J
	Data  *q.J
	Errs  []RespErr
	GoErr []string
	Log   []uni.Call
	Panic interface{}
	Bad   string // why the envelope is no good
}

// RespErr is an entry of the errors array
type RespErr struct {
	Msg  string
	Path string // JSON array, "" if absent
	Line int
	Col  int
	Loc  bool
}

// Run resolves rq on s and checks the shape of the response
func (c *Case) Run(s *yarql.Schema, text string, o yarql.ResolveOptions) *Response {
	c.W.Log = nil
	r := &Response{}
	var errs []error
	func() {
		defer func() {
			r.Panic = recover()
		}()
		errs = s.Resolve([]byte(text), o)
	}()
	r.Log = append([]uni.Call{}, c.W.Log...)
	if r.Panic != nil {
		r.Bad = fmt.Sprintf("panic: %v", r.Panic)
		return r
	}
	r.Raw = string(s.Result)
	for _, e := range errs {
		if e == nil {
			r.Bad = "a returned error is nil"
			return r
		}
		r.GoErr = append(r.GoErr, e.Error())
	}
	r.Envelope(o.NoMeta, o.Tracing)
	return r
}

// Envelope decodes and checks the response envelope
func (r *Response) Envelope(noMeta, tracing bool) {
	j, err := q.ParseJSON(r.Raw)
	if err != nil {
		r.Bad = "response is no JSON: " + err.Error()
		return
	}
	r.J = j
	if j.K != 'o' {
		r.Bad = "response is no object"
		return
	}
	if noMeta {
		r.Data = j
		return
	}
	r.Data = j.Get("data")
	if r.Data == nil || r.Data.K != 'o' {
		r.Bad = "no data object"
		return
	}
	seen := map[string]bool{}
	for _, k := range j.Keys {
		if seen[k] || k != "data" && k != "errors" && k != "extensions" {
			r.Bad = "unexpected or repeated top level key " + k
			return
		}
		seen[k] = true
	}
	es := j.Get("errors")
	if (es != nil) != (len(r.GoErr) > 0) {
		r.Bad = fmt.Sprintf("%d errors returned, but errors present in response: %v", len(r.GoErr), es != nil)
		return
	}
	if es != nil {
		if es.K != 'a' || len(es.A) != len(r.GoErr) {
			r.Bad = fmt.Sprintf("errors array does not match the %d returned errors: %s", len(r.GoErr), es.Text())
			return
		}
		for i, e := range es.A {
			m := e.Get("message")
			if m == nil || m.K != 's' || !q.SameText(r.GoErr[i], m.S) {
				r.Bad = fmt.Sprintf("error %d: returned %q, response has %s", i, r.GoErr[i], e.Text())
				return
			}
			x := RespErr{Msg: m.S}
			if p := e.Get("path"); p != nil {
				if p.K != 'a' {
					r.Bad = "error path is no array: " + e.Text()
					return
				}
				x.Path = p.Text()
			}
			if l := e.Get("locations"); l != nil {
				if l.K != 'a' || len(l.A) != 1 || l.A[0].Get("line") == nil || l.A[0].Get("column") == nil {
					r.Bad = "bad locations: " + e.Text()
					return
				}
				x.Loc = true
				fmt.Sscan(l.A[0].Get("line").S, &x.Line)
				fmt.Sscan(l.A[0].Get("column").S, &x.Col)
			}
			r.Errs = append(r.Errs, x)
		}
	}
	ext := j.Get("extensions")
	if (ext != nil) != (es != nil || tracing) {
		r.Bad = fmt.Sprintf("extensions present: %v, errors present: %v, tracing: %v", ext != nil, es != nil, tracing)
		return
	}
	if ext != nil {
		if ext.K != 'o' || (ext.Get("tracing") != nil) != tracing {
			r.Bad = "extensions are wrong: " + ext.Text()
			return
		}
	}
}

var _ = context.Background
