package core

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"vh/q"
	"vh/uni"
)

// ExpErr is an expected error
type ExpErr struct {
	Msg  string // "" = any message
	Path string
}

// TraceRec is an expected trace record
type TraceRec struct {
	Path, Parent, Field, Type string
}

// Expect is what a request is expected to give
type Expect struct {
	Data    *q.J
	Errs    []ExpErr
	Log     []uni.Call
	Trace   []TraceRec
	Calls   int // resolver calls
	DirCall int
	Fields  int // values written
	Nulls   int
	Lists   int
	MaxLvl  int // deepest object reached
	Skips   int
	Frags   int // fragments that contributed
	NoFrags int // fragments that did not apply
	Errors  int
	Cut     int      // objects cut off by the depth limit
	Bad     []string // where the invalid selection was reached
}

// Interp is the reference interpreter
type Interp struct {
	C        *Case
	M        *Model
	Rq       *Request
	MaxDepth int
	Ended    func() error // error of the request's context
	TypeName func(t reflect.Type) string
	Bad      *q.Sel // a selection that is not allowed
	BadKind  string // unknown, missing, superfluous or arguments
	e        *Expect
	w        *uni.World
}

// Interpret runs the operation of rq on the data of c
func (c *Case) Interpret(rq *Request, opts ...func(*Interp)) *Expect {
	in := &Interp{C: c, M: c.M, Rq: rq, MaxDepth: 255, e: &Expect{}, w: c.W}
	for _, o := range opts {
		o(in)
	}
	saved, savedOracle := c.W.Log, c.W.Oracle
	c.W.Log = nil
	c.W.Oracle = &uni.Env{}
	root, rv, name := c.QObj, c.QV, c.QName
	if rq.Target.Kind == "mutation" {
		root, rv, name = c.MObj, c.MV, c.MName
	}
	in.e.Data = &q.J{K: 'o'}
	in.selection(rq.Target.Sel, root, name, rv, "", 0, in.e.Data)
	in.e.Log = c.W.Log
	c.W.Log, c.W.Oracle = saved, savedOracle
	return in.e
}

func (in *Interp) skip(ds []q.Dir, path string) bool {
	for _, d := range ds {
		if d.Fn != "" {
			in.w.Oracle.Path = "[" + path + "]"
			var args []interface{}
			for _, a := range d.In {
				args = append(args, a.Interface())
			}
			in.w.Call(d.Fn, 0, nil, false, args...)
			in.e.DirCall++
		}
		if d.Skip {
			in.e.Skips++
			return true
		}
	}
	return false
}

func (o *Obj) condMatch(cond, rootName string) bool {
	return o.Matches(cond) || cond == rootName && rootName != ""
}

func join(path, part string) string {
	if path == "" {
		return part
	}
	return path + "," + part
}

// nameOf is the type name of o as far as it is known
func (in *Interp) nameOf(o *Obj, root string) string {
	if root != "" {
		return root
	}
	if o.Name == "" && in.TypeName != nil {
		return in.TypeName(o.T)
	}
	return o.Name
}

func (in *Interp) selection(ss []*q.Sel, o *Obj, root string, v reflect.Value, path string, depth int, out *q.J) {
	if depth > in.e.MaxLvl {
		in.e.MaxLvl = depth
	}
	for _, s := range ss {
		switch s.K {
		case q.SField:
			fp := join(path, q.Quote(s.Key()))
			if in.skip(s.Dirs, fp) {
				continue
			}
			if s.Name == "__typename" {
				in.e.Fields++
				if s == in.Bad {
					in.e.Bad = append(in.e.Bad, "["+fp+"]")
					out.Set(s.Key(), q.Null())
				} else if n := in.nameOf(o, root); n != "" {
					out.Set(s.Key(), &q.J{K: 's', S: n})
				} else {
					out.Set(s.Key(), &q.J{K: '*'})
				}
				continue
			}
			if s == in.Bad && in.BadKind == "unknown" {
				in.e.Bad = append(in.e.Bad, "["+fp+"]")
				out.Set(s.Key(), q.Null())
				continue
			}
			f := o.ByName[s.Name]
			if f == nil {
				panic(fmt.Sprintf("request selects %s on %s", s.Name, o.Name))
			}
			out.Set(s.Key(), in.field(s, f, v, fp, depth))
			in.e.Trace = append(in.e.Trace, TraceRec{"[" + fp + "]", in.nameOf(o, root), s.Name, in.M.TypeString(f, in.TypeName)})
		case q.SInline:
			if in.skip(s.Dirs, path) {
				continue
			}
			if o.condMatch(s.On, root) {
				in.e.Frags++
				in.selection(s.Sub, o, root, v, path, depth, out)
			} else {
				in.e.NoFrags++
			}
		case q.SSpread:
			if in.skip(s.Dirs, path) {
				continue
			}
			fr := in.Rq.Doc.Frag(s.Name)
			if o.condMatch(fr.On, root) {
				in.e.Frags++
				in.selection(fr.Sel, o, root, v, path, depth, out)
			} else {
				in.e.NoFrags++
			}
		}
	}
}

func (in *Interp) err(msg, path string) {
	in.e.Errs = append(in.e.Errs, ExpErr{msg, "[" + path + "]"})
	in.e.Errors++
}

func (in *Interp) field(s *q.Sel, f *Field, v reflect.Value, path string, depth int) *q.J {
	in.e.Fields++
	switch f.K {
	case FPlain:
		if s == in.Bad && in.BadKind == "arguments" {
			in.e.Bad = append(in.e.Bad, "["+path+"]")
			return q.Null()
		}
		return in.value(s, f, v.Field(f.Index), path, depth)
	case FFunc:
		fn := v.Field(f.Index)
		if fn.IsNil() {
			in.e.Nulls++
			return q.Null()
		}
		return in.call(s, f, fn, path, depth)
	}
	var m reflect.Value
	if f.Parent.IsIface {
		m = v.MethodByName(f.Go)
	} else {
		m = v.Method(f.Index)
	}
	return in.call(s, f, m, path, depth)
}

func (in *Interp) call(s *q.Sel, f *Field, fn reflect.Value, path string, depth int) *q.J {
	ins := make([]reflect.Value, f.Func.NIn)
	for i := range ins {
		switch {
		case f.Func.IsCtx[i]:
			ins[i] = reflect.Zero(ctxPtr)
		case i < len(s.In) && s.In[i].IsValid():
			ins[i] = s.In[i]
		default:
			ins[i] = reflect.Zero(fn.Type().In(i))
		}
	}
	in.w.Oracle.Path = "[" + path + "]"
	in.e.Calls++
	outs := fn.Call(ins)
	if f.Func.ErrIdx >= 0 && !outs[f.Func.ErrIdx].IsNil() {
		in.err(outs[f.Func.ErrIdx].Interface().(error).Error(), path)
	}
	if in.Ended != nil {
		if err := in.Ended(); err != nil {
			in.err(err.Error(), path)
			in.e.Nulls++
			return q.Null()
		}
	}
	return in.value(s, f, outs[f.Func.OutIdx], path, depth)
}

func (in *Interp) value(s *q.Sel, f *Field, v reflect.Value, path string, depth int) *q.J {
	t := v.Type()
	if s == in.Bad && t.Kind() != reflect.Ptr && t.Kind() != reflect.Slice && t.Kind() != reflect.Array {
		obj := t.Kind() == reflect.Struct && t != timeType || t.Kind() == reflect.Interface
		if in.BadKind == "missing" && obj || in.BadKind == "superfluous" && !obj {
			in.e.Bad = append(in.e.Bad, "["+path+"]")
			return q.Null()
		}
	}
	if t == timeType {
		return &q.J{K: 't', S: strconv.FormatInt(v.Interface().(time.Time).UnixMilli(), 10)}
	}
	if e := in.M.Enums[t]; e != nil {
		if k, ok := e.KeyOf(v); ok {
			return &q.J{K: 's', S: k}
		}
		in.e.Nulls++
		return q.Null()
	}
	switch t.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			in.e.Nulls++
			return q.Null()
		}
		return in.value(s, f, v.Elem(), path, depth)
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && v.IsNil() {
			in.e.Nulls++
			return q.Null()
		}
		in.e.Lists++
		r := &q.J{K: 'a'}
		for i := 0; i < v.Len(); i++ {
			r.A = append(r.A, in.value(s, f, v.Index(i), join(path, strconv.Itoa(i)), depth))
		}
		return r
	case reflect.Interface:
		if v.IsNil() {
			in.e.Nulls++
			return q.Null()
		}
		for _, impl := range in.M.Obj(t).Impl {
			if impl.T == v.Elem().Type() {
				return in.value(s, f, v.Elem(), path, depth)
			}
		}
		in.e.Nulls++
		return q.Null()
	case reflect.Struct:
		if depth+1 >= in.MaxDepth {
			in.err("", path)
			in.e.Cut++
			return q.Null()
		}
		r := &q.J{K: 'o'}
		in.selection(s.Sub, in.M.Obj(t), "", v, path, depth+1, r)
		return r
	}
	id := f.IsID
	switch t.Kind() {
	case reflect.Bool:
		return &q.J{K: 'b', B: v.Bool()}
	case reflect.String:
		return &q.J{K: 's', S: v.String()}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		s := strconv.FormatInt(v.Int(), 10)
		if id {
			return &q.J{K: 's', S: s}
		}
		return &q.J{K: 'i', S: s}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		s := strconv.FormatUint(v.Uint(), 10)
		if id {
			return &q.J{K: 's', S: s}
		}
		return &q.J{K: 'i', S: s}
	case reflect.Float32:
		return &q.J{K: 'f', N: v.Float()}
	case reflect.Float64:
		return &q.J{K: 'F', N: v.Float()}
	}
	panic("unexpected output kind " + t.String())
}

// TypeString is the declared GraphQL type of a field
func (m *Model) TypeString(f *Field, nameOf func(reflect.Type) string) string {
	s, nn := m.outType(f.Out, f.IsID, nameOf)
	if f.K == FFunc {
		nn = false
	}
	if nn {
		return s + "!"
	}
	return s
}

func (m *Model) outType(t reflect.Type, isID bool, nameOf func(reflect.Type) string) (string, bool) {
	if t == timeType {
		return "Time", true
	}
	if m.Enums[t] != nil {
		return t.Name(), true
	}
	switch t.Kind() {
	case reflect.Ptr:
		s, _ := m.outType(t.Elem(), isID, nameOf)
		return s, false
	case reflect.Slice, reflect.Array:
		s, nn := m.outType(t.Elem(), isID, nameOf)
		if nn {
			s += "!"
		}
		return "[" + s + "]", false
	case reflect.Struct, reflect.Interface:
		o := m.Obj(t)
		n := o.Name
		if n == "" && nameOf != nil {
			n = nameOf(t)
		}
		return n, t.Kind() == reflect.Struct
	}
	if isID {
		return "ID", true
	}
	switch t.Kind() {
	case reflect.Bool:
		return "Boolean", true
	case reflect.String:
		return "String", true
	case reflect.Float32, reflect.Float64:
		return "Float", true
	}
	return "Int", true
}

// InType is the declared GraphQL type of an argument or input field
func (m *Model) InType(t reflect.Type, isID bool) string {
	s, nn := m.inType(t, isID)
	if nn {
		s += "!"
	}
	return s
}

func (m *Model) inType(t reflect.Type, isID bool) (string, bool) {
	if t == fileType {
		return "File", false
	}
	if t == timeType {
		return "Time", true
	}
	if m.Enums[t] != nil {
		return t.Name(), true
	}
	switch t.Kind() {
	case reflect.Ptr:
		s, _ := m.inType(t.Elem(), isID)
		return s, false
	case reflect.Slice:
		s, nn := m.inType(t.Elem(), false)
		if nn {
			s += "!"
		}
		return "[" + s + "]", false
	case reflect.Struct:
		return t.Name(), true
	}
	if isID {
		return "ID", true
	}
	switch t.Kind() {
	case reflect.Bool:
		return "Boolean", true
	case reflect.String:
		return "String", true
	case reflect.Float32, reflect.Float64:
		return "Float", true
	}
	return "Int", true
}

// Parts of a verdict
const (
	PData = 1 << iota
	PErrs
	PLog
	PArgs
	PPath
	PAll = PData | PErrs | PLog | PArgs | PPath
)

// Judge compares a response with what is expected; "" if they agree
func (e *Expect) Judge(r *Response, parts int) string {
	if r.Bad != "" {
		return r.Bad
	}
	if parts&PLog != 0 {
		if d := DiffLog(e.Log, r.Log); d != "" {
			return d
		}
	}
	if parts&PData != 0 {
		if d := q.Diff(e.Data, r.Data); d != "" {
			return "data: " + d
		}
	}
	if parts&PErrs != 0 {
		if d := DiffErrs(e.Errs, r.Errs); d != "" {
			return d
		}
	}
	return ""
}

// DiffLog compares call logs
func DiffLog(exp, act []uni.Call) string {
	for i := range exp {
		if i >= len(act) {
			return fmt.Sprintf("call %d of %d is missing: %s", i, len(exp), exp[i])
		}
		if exp[i] != act[i] {
			return fmt.Sprintf("call %d differs: expected %s, got %s", i, exp[i], act[i])
		}
	}
	if len(act) > len(exp) {
		return fmt.Sprintf("unexpected call %d: %s", len(exp), act[len(exp)])
	}
	return ""
}

// DiffErrs compares errors regardless of their order
func DiffErrs(exp []ExpErr, act []RespErr) string {
	var a, b []string
	anyMsg := map[string]int{}
	for _, x := range exp {
		if x.Msg == "" {
			anyMsg[x.Path]++
			continue
		}
		a = append(a, q.Sanitize(x.Msg)+" @ "+x.Path)
	}
	for _, x := range act {
		if anyMsg[x.Path] > 0 {
			// any message will do, unless it is one that is expected
			wanted := false
			for _, y := range exp {
				if y.Path == x.Path && y.Msg != "" && q.Sanitize(y.Msg) == q.Sanitize(x.Msg) {
					wanted = true
				}
			}
			if !wanted {
				anyMsg[x.Path]--
				continue
			}
		}
		b = append(b, q.Sanitize(x.Msg)+" @ "+x.Path)
	}
	for p, n := range anyMsg {
		if n > 0 {
			return "errors: expected an error at path " + p + ", got " + fmt.Sprint(act)
		}
	}
	sort.Strings(a)
	sort.Strings(b)
	if strings.Join(a, "\x00") != strings.Join(b, "\x00") {
		return fmt.Sprintf("errors: expected %q, got %q", a, b)
	}
	return ""
}
