package uni

import (
	"mime/multipart"
	"reflect"
	"time"

	"github.com/mjarkk/yarql"
)

// Named scalars that are no enums
type (
	MyInt int32
	MyStr string
	MyF   float64
	MyB   bool
)

// Enum types
type (
	EColor int
	ESize  int8
	EFlag  uint16
	EWord  string
	EBig   uint64
	ETiny  uint8
)

// EnumMaps lists the registered enums
var EnumMaps = []interface{}{
	map[string]EColor{"RED": 0, "GREEN": 1, "BLUE": -7, "Red_2": 1 << 40, "RE": 5},
	map[string]ESize{"SMALL": -128, "MEDIUM": 0, "LARGE": 127},
	map[string]EFlag{"on": 1, "off": 65535, "UNSET": 0},
	map[string]EWord{"FOO": "foo", "BAR": "BAR", "EMPTY": "", "WEIRD": "we\"ird\n\x00é"},
	map[string]EBig{"MAX": 1<<64 - 1, "ZERO": 0, "ONE": 1},
	map[string]ETiny{"A": 1, "B": 2, "a": 3},
}

// Iface is an interface with its implementations
type Iface struct {
	T           reflect.Type
	Impl, Unreg []reflect.Type
}

// InPoint is an input object
type InPoint struct {
	X, Y  int
	Label *string
	Hide  int  `gq:"-"`
	Named bool `gq:"is_named"`
	priv  int
}

// InRec is a recursive input object
type InRec struct {
	Value int16
	Next  *InRec
	Kids  []InRec
	Refs  []*InRec
	Name  string
}

// InAll has fields of every scalar kind
type InAll struct {
	B    bool
	I    int
	I8   int8
	I16  int16
	I32  int32
	I64  int64
	U    uint
	U8   uint8
	U16  uint16
	U32  uint32
	U64  uint64
	F32  float32
	F64  float64
	Str  string
	ID   string `gq:",id"`
	NID  uint32 `gq:",id"`
	PID  *int64 `gq:"pid,id"`
	T    time.Time
	PT   *time.Time
	C    EColor
	W    EWord
	PC   *EFlag
	File *multipart.FileHeader
	MI   MyInt
	MS   MyStr
}

// InDeep nests lists and pointers
type InDeep struct {
	LL   [][]int
	PL   *[]string
	LP   []*string
	PP   **int
	Pts  []InPoint
	PPts *[]*InPoint
	Ts   []time.Time
	Cs   []EColor
	Fs   [][]float64
	All  *InAll
	Fls  []*multipart.FileHeader
}

// Inputs lists the named input objects
var Inputs = []reflect.Type{reflect.TypeOf(InPoint{}), reflect.TypeOf(InRec{}), reflect.TypeOf(InAll{}), reflect.TypeOf(InDeep{})}

// M0 is a minimal root
type M0 struct{}

// M1 is a root with some content
type M1 struct {
	W      *World `gq:"-"`
	Uid    int64  `gq:"-"`
	Ok     bool
	Obj    *S3
	Any    I0
	Do     func(struct{ A int }) (string, error)
	HAdd   S1     `gq:"-"`
	HPut   string `gq:"-"`
	HBatch []S5   `gq:"-"`
}

// ResolveAdd is a resolver
func (s M1) ResolveAdd(a struct{ In InRec }) (S1, error) {
	err := s.W.Call("M1.Add", s.Uid, nil, false, a)
	return s.HAdd, err
}

// ResolvePut is a resolver
func (s M1) ResolvePut(ctx *yarql.Ctx, a struct {
	Key string `gq:",id"`
	V   *float64
}) string {
	s.W.Call("M1.Put", s.Uid, ctx, true, a)
	return s.W.Echo(s.HPut, a)
}

// ResolveBatch is a resolver
func (s M1) ResolveBatch() ([]S5, error) {
	err := s.W.Call("M1.Batch", s.Uid, nil, false)
	return s.HBatch, err
}
