// Package core holds the reference model of a schema: what the Go types mean
// as GraphQL types, random data for them, random requests against them and a
// reference interpreter for those requests.
package core

import (
	"mime/multipart"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/mjarkk/yarql"
	"vh/uni"
)

var (
	errType  = reflect.TypeOf((*error)(nil)).Elem()
	attrID   = reflect.TypeOf(yarql.AttrIsID(0))
	ctxPtr   = reflect.TypeOf(&yarql.Ctx{})
	timeType = reflect.TypeOf(time.Time{})
	fileType = reflect.TypeOf(&multipart.FileHeader{})
	worldPtr = reflect.TypeOf(&uni.World{})
)

// EnumDef is a registered enum
type EnumDef struct {
	T    reflect.Type
	Keys []string // sorted
	Vals map[string]reflect.Value
}

// KeyOf returns the key of a value
func (e *EnumDef) KeyOf(v reflect.Value) (string, bool) {
	for _, k := range e.Keys {
		x := e.Vals[k]
		switch v.Kind() {
		case reflect.String:
			if x.String() == v.String() {
				return k, true
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			if x.Int() == v.Int() {
				return k, true
			}
		default:
			if x.Uint() == v.Uint() {
				return k, true
			}
		}
	}
	return "", false
}

// NewEnumDef reads an enum map
func NewEnumDef(m interface{}) *EnumDef {
	v := reflect.ValueOf(m)
	e := &EnumDef{T: v.Type().Elem(), Vals: map[string]reflect.Value{}}
	for _, k := range v.MapKeys() {
		e.Keys = append(e.Keys, k.String())
		e.Vals[k.String()] = v.MapIndex(k)
	}
	sort.Strings(e.Keys)
	return e
}

// Model answers what Go types mean as GraphQL types
type Model struct {
	Enums  map[reflect.Type]*EnumDef
	Ifaces map[reflect.Type]*uni.Iface
	objs   map[reflect.Type]*Obj
	Rename map[reflect.Type]string
}

// NewModel returns a model with the enums and interfaces of the universe
func NewModel(enums []interface{}, ifaces []uni.Iface) *Model {
	m := &Model{Enums: map[reflect.Type]*EnumDef{}, Ifaces: map[reflect.Type]*uni.Iface{}, objs: map[reflect.Type]*Obj{}, Rename: map[reflect.Type]string{}}
	for _, e := range enums {
		d := NewEnumDef(e)
		m.Enums[d.T] = d
	}
	for i := range ifaces {
		m.Ifaces[ifaces[i].T] = &ifaces[i]
	}
	return m
}

// FieldKind says how a field gets its value
type FieldKind byte

// Kinds of fields
const (
	FPlain FieldKind = iota
	FFunc
	FMethod
)

// Field is a field of an object or interface
type Field struct {
	Name   string // GraphQL name
	Go     string
	K      FieldKind
	Index  int // struct field or method index
	Out    reflect.Type
	IsID   bool
	Func   *Func
	Parent *Obj
}

// Func describes the function behind a field
type Func struct {
	T        reflect.Type
	NIn      int    // number of parameters without receiver
	Off      int    // 1 if T has the receiver as first parameter
	IsCtx    []bool // per parameter
	OutIdx   int
	ErrIdx   int // -1 if none
	Args     []*ArgDef
	ArgIndex map[string]*ArgDef
}

// ArgDef is an argument or an input object field
type ArgDef struct {
	Name  string
	Param int // index of the function parameter
	Index int // field in the struct
	T     reflect.Type
	IsID  bool
}

// Obj is an object or interface type
type Obj struct {
	T       reflect.Type
	Name    string // "" if it is anonymous
	IsIface bool
	Fields  []*Field // in Go order, struct fields first
	ByName  map[string]*Field
	Conds   []string // type conditions that match
	Impl    []*Obj
	Ifaces  []*Obj
}

// QLName is the documented name of a Go name
func QLName(n string) string {
	if len(n) == 0 {
		return n
	}
	if len(n) > 1 {
		c := n[1]
		if !(c >= 'a' && c <= 'z') {
			return n
		}
	}
	return strings.ToLower(n[:1]) + n[1:]
}

// ParseTag reads a gq tag
func ParseTag(tag reflect.StructTag) (name string, ignore, isID bool) {
	v := tag.Get("gq")
	parts := strings.Split(v, ",")
	name = strings.TrimSpace(parts[0])
	if name == "-" {
		return "", true, false
	}
	for _, p := range parts[1:] {
		if strings.ToLower(strings.TrimSpace(p)) == "id" {
			isID = true
		}
	}
	return
}

// InputFields lists the fields of an argument struct or input object
func InputFields(t reflect.Type) []*ArgDef {
	var r []*ArgDef
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.Anonymous || f.PkgPath != "" {
			continue
		}
		n, ign, id := ParseTag(f.Tag)
		if ign {
			continue
		}
		if n == "" {
			n = QLName(f.Name)
		}
		r = append(r, &ArgDef{Name: n, Index: i, T: f.Type, IsID: id})
	}
	return r
}

// NewFunc describes a function type
func NewFunc(t reflect.Type, isMethod bool) (*Func, reflect.Type, bool) {
	f := &Func{T: t, ErrIdx: -1, ArgIndex: map[string]*ArgDef{}}
	isID := false
	if isMethod {
		f.Off = 1
	}
	for i := f.Off; i < t.NumIn(); i++ {
		in := t.In(i)
		if in == ctxPtr {
			f.IsCtx = append(f.IsCtx, true)
			continue
		}
		f.IsCtx = append(f.IsCtx, false)
		for _, a := range InputFields(in) {
			a.Param = len(f.IsCtx) - 1
			f.Args = append(f.Args, a)
			f.ArgIndex[a.Name] = a
		}
	}
	f.NIn = len(f.IsCtx)
	var out reflect.Type
	for i := 0; i < t.NumOut(); i++ {
		o := t.Out(i)
		switch {
		case o == attrID:
			isID = true
		case o == errType:
			f.ErrIdx = i
		default:
			f.OutIdx = i
			out = o
		}
	}
	return f, out, isID
}

// Obj returns the description of a struct or interface type
func (m *Model) Obj(t reflect.Type) *Obj {
	if o, ok := m.objs[t]; ok {
		return o
	}
	o := &Obj{T: t, Name: t.Name(), ByName: map[string]*Field{}}
	if n, ok := m.Rename[t]; ok {
		o.Name = n
	}
	m.objs[t] = o
	if o.Name != "" {
		o.Conds = []string{o.Name}
	}
	if t.Kind() == reflect.Interface {
		o.IsIface = true
		if i := m.Ifaces[t]; i != nil {
			for _, x := range i.Impl {
				o.Impl = append(o.Impl, m.Obj(x))
			}
		}
	} else {
		var its []reflect.Type
		for it := range m.Ifaces {
			its = append(its, it)
		}
		sort.Slice(its, func(a, b int) bool { return its[a].Name() < its[b].Name() })
		for _, it := range its {
			for _, x := range m.Ifaces[it].Impl {
				if x == t {
					io := m.Obj(it)
					o.Conds = append(o.Conds, io.Name)
					o.Ifaces = append(o.Ifaces, io)
				}
			}
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.Anonymous || f.PkgPath != "" {
				continue
			}
			n, ign, id := ParseTag(f.Tag)
			if ign {
				continue
			}
			if n == "" {
				n = QLName(f.Name)
			}
			fd := &Field{Name: n, Go: f.Name, Index: i, Out: f.Type, IsID: id, Parent: o}
			if f.Type.Kind() == reflect.Func {
				fd.K = FFunc
				var fid bool
				fd.Func, fd.Out, fid = NewFunc(f.Type, false)
				fd.IsID = fd.IsID || fid
			}
			o.add(fd)
		}
	}
	for i := 0; i < t.NumMethod(); i++ {
		me := t.Method(i)
		if !strings.HasPrefix(me.Name, "Resolve") {
			continue
		}
		rest := strings.TrimPrefix(me.Name, "Resolve")
		if rest == "" || strings.ToUpper(rest[:1]) != rest[:1] {
			continue
		}
		fd := &Field{Name: QLName(rest), Go: me.Name, K: FMethod, Index: i, Parent: o}
		fd.Func, fd.Out, fd.IsID = NewFunc(me.Type, t.Kind() != reflect.Interface)
		o.add(fd)
	}
	return o
}

func (o *Obj) add(f *Field) {
	if _, ok := o.ByName[f.Name]; ok {
		for i, x := range o.Fields {
			if x.Name == f.Name {
				o.Fields = append(o.Fields[:i:i], o.Fields[i+1:]...)
				break
			}
		}
	}
	o.ByName[f.Name] = f
	o.Fields = append(o.Fields, f)
}

// Matches tells if a type condition applies to this object
func (o *Obj) Matches(cond string) bool {
	for _, c := range o.Conds {
		if c == cond {
			return true
		}
	}
	return false
}

// Leaf classifies the type a selection on t ends in: nil if t holds scalars
func (m *Model) Leaf(t reflect.Type) *Obj {
	for {
		if t == timeType {
			return nil
		}
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Array:
			t = t.Elem()
		case reflect.Struct, reflect.Interface:
			return m.Obj(t)
		default:
			return nil
		}
	}
}
