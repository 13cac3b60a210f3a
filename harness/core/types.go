package core

import (
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/mjarkk/yarql"
	"vh/uni"
)

// TypeGen makes random Go types the library accepts
type TypeGen struct {
	R       *rand.Rand
	NoFiles bool
}

var scalarTypes = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf(""),
	reflect.TypeOf(uni.MyInt(0)), reflect.TypeOf(uni.MyStr("")), reflect.TypeOf(uni.MyF(0)), reflect.TypeOf(uni.MyB(false)),
	timeType, reflect.TypeOf(uni.EColor(0)), reflect.TypeOf(uni.ESize(0)), reflect.TypeOf(uni.EFlag(0)), reflect.TypeOf(uni.EWord("")), reflect.TypeOf(uni.EBig(0)), reflect.TypeOf(uni.ETiny(0)),
}

var enumTypes = map[reflect.Type]bool{}

func init() {
	for _, m := range uni.EnumMaps {
		enumTypes[reflect.TypeOf(m).Elem()] = true
	}
}

// FieldNames are Go field names with pairwise different GraphQL names
var FieldNames = []string{"Name", "Title", "Count", "Owner", "Parent", "Child", "Items", "Extra", "Note", "Score", "Ratio", "Flag", "Kind", "Level", "URL", "X", "Y1", "Created", "Tags", "Matrix", "Color", "Other", "Peer", "Root", "Leaf", "Value", "Info", "Data", "Body", "Meta_data", "HTTPCode", "A", "B2", "LongFieldNameThatGoesOn", "Inner", "ResolveFoo", "ID", "Id", "E", "V", "Null", "True", "On", "Query", "Fragment", "T_", "Mutation", "Type", "Ax", "Axe"}

func (g *TypeGen) names(n int) []string {
	p := g.R.Perm(len(FieldNames))
	r := make([]string, n)
	for i := range r {
		if i >= len(p) {
			r[i] = "Wide" + strconv.Itoa(i) + "X"
			if g.R.Intn(8) == 0 {
				r[i] += strings.Repeat("y", 60+g.R.Intn(190-len(r[i])))
			}
			continue
		}
		r[i] = FieldNames[p[i]]
	}
	return r
}

func idable(t reflect.Type) bool {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	if enumTypes[t] {
		return false
	}
	switch t.Kind() {
	case reflect.String, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return true
	}
	return false
}

func (g *TypeGen) tag(t reflect.Type, name string) reflect.StructTag {
	id := idable(t) && g.R.Intn(5) == 0
	switch g.R.Intn(14) {
	case 0:
		if id {
			return reflect.StructTag(`gq:"n_` + name + `,id"`)
		}
		return reflect.StructTag(`gq:"n_` + name + `"`)
	case 1:
		if id {
			return `json:"x" gq:" , ID "`
		}
		return `json:"x"`
	}
	if id {
		return `gq:",id"`
	}
	return ""
}

// Scalar returns a random scalar, enum or time type
func (g *TypeGen) Scalar() reflect.Type { return scalarTypes[g.R.Intn(len(scalarTypes))] }

// Out returns a random output type
func (g *TypeGen) Out(d int) reflect.Type {
	x := g.R.Intn(100)
	if d > 4 {
		x %= 40
	}
	switch {
	case x < 40:
		return g.Scalar()
	case x < 52:
		return reflect.PtrTo(g.Out(d + 1))
	case x < 66:
		return reflect.SliceOf(g.Out(d + 1))
	case x < 70:
		return reflect.ArrayOf(g.R.Intn(4), g.Out(d+1))
	case x < 80:
		return g.Struct(d+1, 1+g.R.Intn(4))
	case x < 92:
		return uni.Structs[g.R.Intn(len(uni.Structs))]
	default:
		return uni.Ifaces[g.R.Intn(len(uni.Ifaces))].T
	}
}

// In returns a random argument type
func (g *TypeGen) In(d int) reflect.Type {
	x := g.R.Intn(100)
	if d > 4 {
		x %= 45
	}
	switch {
	case x < 45:
		return g.Scalar()
	case x < 60:
		return reflect.PtrTo(g.In(d + 1))
	case x < 78:
		return reflect.SliceOf(g.In(d + 1))
	case x < 82:
		if g.NoFiles {
			return g.Scalar()
		}
		return fileType
	case x < 90:
		return g.ArgStruct(1 + g.R.Intn(3))
	default:
		return uni.Inputs[g.R.Intn(len(uni.Inputs))]
	}
}

// ArgStruct returns an anonymous argument struct
func (g *TypeGen) ArgStruct(n int) reflect.Type { return g.argStruct(g.names(n)) }

func (g *TypeGen) argStruct(names []string) reflect.Type {
	var fs []reflect.StructField
	for _, nm := range names {
		t := g.In(1)
		f := reflect.StructField{Name: nm, Type: t, Tag: g.tag(t, nm)}
		if g.R.Intn(15) == 0 {
			f.Tag = `gq:"-"`
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

// Wide returns a struct of n fields, one of them a function with n arguments
func (g *TypeGen) Wide(n int) reflect.Type {
	var fs []reflect.StructField
	names := g.names(n)
	at := g.R.Intn(n)
	for i, nm := range names {
		f := reflect.StructField{Name: nm}
		switch x := g.R.Intn(20); {
		case i == at:
			f.Type = reflect.FuncOf([]reflect.Type{g.ArgStruct(n)}, []reflect.Type{reflect.TypeOf(0), errType}, false)
		case x < 12:
			f.Type = g.Scalar()
			f.Tag = g.tag(f.Type, nm)
		case x < 14:
			f.Type = g.Struct(4, 2)
		case x < 15:
			f.Type = uni.Structs[g.R.Intn(len(uni.Structs))]
		case x < 18:
			outs := []reflect.Type{g.Scalar()}
			if x < 17 {
				outs = append(outs, errType)
			}
			f.Type = reflect.FuncOf([]reflect.Type{reflect.StructOf([]reflect.StructField{{Name: "A", Type: g.In(3)}, {Name: "B", Type: g.Scalar()}})}, outs, false)
		default:
			f.Type = reflect.SliceOf(g.Scalar())
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

// Func returns a random resolver function type
func (g *TypeGen) Func(d int) reflect.Type {
	var ins, outs []reflect.Type
	switch g.R.Intn(6) {
	case 0, 1:
	case 2:
		n := g.names(4)
		ins = append(ins, g.argStruct(n[:2]), g.argStruct(n[2:]))
	default:
		ins = append(ins, g.ArgStruct(1+g.R.Intn(5)))
	}
	if g.R.Intn(3) == 0 {
		at := g.R.Intn(len(ins) + 1)
		ins = append(ins[:at:at], append([]reflect.Type{ctxPtr}, ins[at:]...)...)
	}
	out := g.Out(d + 1)
	outs = []reflect.Type{out}
	if g.R.Intn(2) == 0 {
		outs = append(outs, errType)
	}
	if idable(out) && g.R.Intn(4) == 0 {
		outs = append(outs, attrID)
	}
	g.R.Shuffle(len(outs), func(i, j int) { outs[i], outs[j] = outs[j], outs[i] })
	return reflect.FuncOf(ins, outs, false)
}

// Struct returns an anonymous struct with n fields
func (g *TypeGen) Struct(d, n int) reflect.Type {
	var fs []reflect.StructField
	for _, nm := range g.names(n) {
		var t reflect.Type
		if g.R.Intn(4) == 0 {
			t = g.Func(d)
		} else {
			t = g.Out(d)
		}
		f := reflect.StructField{Name: nm, Type: t}
		if t.Kind() != reflect.Func {
			f.Tag = g.tag(t, nm)
		} else if g.R.Intn(12) == 0 {
			f.Tag = reflect.StructTag(`gq:"n_` + nm + `"`)
		}
		if g.R.Intn(25) == 0 {
			f.Tag = `gq:"-"`
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

var _ = yarql.NewSchema
