package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/mjarkk/yarql/assert"
	"vh/q"
	"vh/run"
)

func init() {
	add(&run.Check{
		ID:     "C31",
		Rule:   "Every assertion function and its variant with a format is called with random values of random types (all kinds of numbers, named types, strings, byte slices, arrays, slices, maps, structs with unexported fields, pointers, interfaces, functions, channels, times, errors, nil and typed nil), in pairs that are equal copies, copies with one leaf changed, other values of the type, the same value of another type, or unrelated. A recorder stands for the test: it has to get no report when the relation holds and one when it does not, and the returned verdict has to agree; no call may panic or change its arguments. The relations are computed by the harness: equality by the language's deep equality, order by big numbers and byte order, differences exactly with rationals, error chains by walking them, JSON by the harness' own parser. ObjectsAreEqual and ObjectsAreEqualValues are called with the same pairs. Non-trivial: distinct call whose verdict depends on the values.",
		Assume: []string{"numbers given to InDelta and InEpsilon are exact in float64, of builtin types, with a delta that is not negative and not NaN", "calls of Goexit are not given to Panics", "the arguments after the values are a text, or a format and its operands"},
		Quick:  300000, Thorough: 15000000,
		Run: c31,
	})
}

// rec31 is a test that records
type rec31 struct {
	n   int
	msg string
}

func (r *rec31) Errorf(format string, a ...interface{}) {
	r.n++
	r.msg = fmt.Sprintf(format, a...)
}

// named31 is a test with a name
type named31 struct{ *rec31 }

func (named31) Name() string { return "TestName/%s" }

type (
	N31Int    int
	N31Str    string
	N31F      float32
	N31B      []byte
	N31Bool   bool
	N31Slice  []int
	N31Map    map[string]int
	N31Struct struct {
		A int
		b string
		C []byte
		d *float64
		E interface{}
	}
	N31Emb struct {
		N31Struct
		F func()
		T time.Time
	}
	N31Arr [2]N31Struct
	N31Err struct{ Code int }
	N31I8  int8
	N31I16 int16
	N31I32 int32
	N31I64 int64
	N31U   uint
	N31U8  uint8
	N31U16 uint16
	N31U32 uint32
	N31U64 uint64
	N31F64 float64
)

func (e N31Err) Error() string  { return fmt.Sprintf("code %d", e.Code) }
func (e N31Str) String() string { return "string method" }

var iface31 = reflect.TypeOf((*interface{})(nil)).Elem()
var errT31 = reflect.TypeOf((*error)(nil)).Elem()

var basic31 = []reflect.Type{
	reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""),
}

// named numbers and texts, of one kind each
var ordered31 = []reflect.Type{
	reflect.TypeOf(N31Int(0)), reflect.TypeOf(N31I8(0)), reflect.TypeOf(N31I16(0)), reflect.TypeOf(N31I32(0)), reflect.TypeOf(N31I64(0)),
	reflect.TypeOf(N31U(0)), reflect.TypeOf(N31U8(0)), reflect.TypeOf(N31U16(0)), reflect.TypeOf(N31U32(0)), reflect.TypeOf(N31U64(0)),
	reflect.TypeOf(N31F(0)), reflect.TypeOf(N31F64(0)), reflect.TypeOf(N31Str("")),
}

var other31 = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(uintptr(0)), reflect.TypeOf(complex64(0)), reflect.TypeOf(complex128(0)),
	reflect.TypeOf(N31Int(0)), reflect.TypeOf(N31Str("")), reflect.TypeOf(N31F(0)), reflect.TypeOf(N31U8(0)), reflect.TypeOf(N31I64(0)), reflect.TypeOf(N31F64(0)), reflect.TypeOf(N31B{}), reflect.TypeOf(N31Bool(false)), reflect.TypeOf(N31Slice{}), reflect.TypeOf(N31Map{}),
	reflect.TypeOf(N31Struct{}), reflect.TypeOf(N31Emb{}), reflect.TypeOf(N31Arr{}), reflect.TypeOf(N31Err{}), reflect.TypeOf(time.Time{}), reflect.TypeOf(time.Duration(0)),
	reflect.TypeOf([]byte{}), reflect.TypeOf(json.RawMessage{}), reflect.TypeOf(func() {}), reflect.TypeOf(func(int) string { return "" }), reflect.TypeOf(make(chan int)), iface31, errT31,
}

func type31(r *rand.Rand, deep int) reflect.Type {
	if deep <= 0 || chance(r, 3) {
		if chance(r, 2) {
			return pick(r, basic31...)
		}
		return pick(r, other31...)
	}
	switch r.Intn(6) {
	case 0:
		return reflect.SliceOf(type31(r, deep-1))
	case 1:
		return reflect.ArrayOf(r.Intn(4), type31(r, deep-1))
	case 2:
		k := pick(r, pick(r, basic31...), reflect.TypeOf(false), reflect.TypeOf(N31Str("")), iface31, reflect.TypeOf([2]int{}))
		return reflect.MapOf(k, type31(r, deep-1))
	case 3:
		return reflect.PtrTo(type31(r, deep-1))
	case 4:
		var fs []reflect.StructField
		for i := 0; i < r.Intn(4); i++ {
			fs = append(fs, reflect.StructField{Name: "F" + itoa(i), Type: type31(r, deep-1)})
		}
		return reflect.StructOf(fs)
	}
	return reflect.SliceOf(reflect.TypeOf(byte(0)))
}

var chans31 = []chan int{make(chan int), make(chan int, 3), func() chan int { c := make(chan int, 2); c <- 1; return c }(), nil}
var errs31 = []error{io.EOF, errors.New("a"), errors.New("a"), N31Err{0}, N31Err{1}, fmt.Errorf("w: %w", io.EOF)}

// fill31 sets v to something random
func fill31(r *rand.Rand, v reflect.Value, deep int) {
	t := v.Type()
	zero := chance(r, 4)
	if t == reflect.TypeOf(N31Struct{}) {
		x := N31Struct{}
		if !zero {
			f := pick(r, 0, 1, math.NaN(), -2.5)
			x = N31Struct{A: r.Intn(3), b: pick(r, "", "x"), C: pick(r, nil, []byte{}, []byte("c"))}
			if chance(r, 2) {
				x.d = &f
			}
			fill31(r, reflect.ValueOf(&x.E).Elem(), deep-1)
		}
		v.Set(reflect.ValueOf(x))
		return
	}
	if t == reflect.TypeOf(time.Time{}) {
		v.Set(reflect.ValueOf(pick(r, time.Time{}, time.Unix(0, 0), time.Unix(0, 0).UTC(), time.Unix(0, 1).UTC(), time.Date(2020, 1, 1, 0, 0, 0, 0, time.FixedZone("x", 3600)))))
		return
	}
	if zero && chance(r, 2) {
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(chance(r, 2))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := pick(r, 0, 1, -1, 2, 3, int64(r.Intn(5)), math.MaxInt64, math.MinInt64, 127, -128, 1<<31, 1<<53+1, int64(r.Uint64()))
		n := uint(64 - t.Bits())
		v.SetInt(x << n >> n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		x := pick(r, 0, 1, 2, 3, uint64(r.Intn(5)), math.MaxUint64, 1<<63, 255, 1<<53+1, r.Uint64())
		n := uint(64 - t.Bits())
		v.SetUint(x << n >> n)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(pick(r, 0, math.Copysign(0, -1), 1, -1, 2, 0.1, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat32, math.SmallestNonzeroFloat64, float64(r.Intn(5)), r.NormFloat64(), 1e300))
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(float64(r.Intn(2)), float64(r.Intn(2))))
	case reflect.String:
		v.SetString(pick(r, "", "a", "b", "ab", "A", "\x00", "é", "e\u0301", "\xff", "10", "9", "line\nline2\n", "line\nother\n", "%s %d", strings.Repeat("long ", 30), "a\r\nb"))
	case reflect.Slice:
		n := r.Intn(4)
		v.Set(reflect.MakeSlice(t, n, n+r.Intn(3)))
		for i := 0; i < n; i++ {
			fill31(r, v.Index(i), deep-1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill31(r, v.Index(i), deep-1)
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		for i := r.Intn(4); i > 0; i-- {
			k := reflect.New(t.Key()).Elem()
			if t.Key() == iface31 {
				x := reflect.New(pick(r, basic31...)).Elem()
				fill31(r, x, 0)
				k.Set(x)
			} else {
				fill31(r, k, 0)
			}
			e := reflect.New(t.Elem()).Elem()
			fill31(r, e, deep-1)
			v.SetMapIndex(k, e)
		}
	case reflect.Ptr:
		v.Set(reflect.New(t.Elem()))
		fill31(r, v.Elem(), deep-1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fill31(r, v.Field(i), deep-1)
			}
		}
	case reflect.Func:
		if chance(r, 2) {
			v.Set(reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value { return nil }))
		}
	case reflect.Chan:
		v.Set(reflect.ValueOf(pick(r, chans31...)))
	case reflect.Interface:
		if t == errT31 {
			v.Set(reflect.ValueOf(pick(r, errs31...)))
			return
		}
		if deep <= 0 {
			return
		}
		x := reflect.New(type31(r, deep-1)).Elem()
		if x.Kind() == reflect.Interface {
			return
		}
		fill31(r, x, deep-1)
		v.Set(x)
	}
}

// value31 makes a value from seeds
func value31(ts, vs int64) interface{} {
	t := type31(rand.New(rand.NewSource(ts)), 3)
	v := reflect.New(t).Elem()
	fill31(rand.New(rand.NewSource(vs)), v, 3)
	return v.Interface()
}

// change31 changes one leaf
func change31(r *rand.Rand, v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.Kind() == reflect.Ptr && !v.IsNil() {
			return change31(r, v.Elem())
		}
		if v.Kind() == reflect.Interface && !v.IsNil() {
			c := reflect.New(v.Elem().Type()).Elem()
			c.Set(v.Elem())
			if change31(r, c) {
				v.Set(c)
				return true
			}
		}
		return false
	case reflect.Slice, reflect.Array:
		if v.Len() == 0 {
			return false
		}
		if v.Kind() == reflect.Slice && chance(r, 4) {
			v.Set(v.Slice(0, v.Len()-1))
			return true
		}
		return change31(r, v.Index(r.Intn(v.Len())))
	case reflect.Struct:
		if v.NumField() == 0 {
			return false
		}
		f := v.Field(r.Intn(v.NumField()))
		return f.CanSet() && change31(r, f)
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if chance(r, 3) {
				v.SetMapIndex(k, reflect.Value{})
				return true
			}
			e := reflect.New(v.Type().Elem()).Elem()
			if x := v.MapIndex(k); x.IsValid() {
				e.Set(x)
				if change31(r, e) {
					v.SetMapIndex(k, e)
					return true
				}
			}
			return false
		}
		return false
	case reflect.Func, reflect.Chan:
		return false
	}
	if !v.CanSet() {
		return false
	}
	fill31(r, v, 0)
	return true
}

func isFunc31(x interface{}) bool { return x != nil && reflect.TypeOf(x).Kind() == reflect.Func }

func nil31(x interface{}) bool {
	if x == nil {
		return true
	}
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Chan, reflect.Func, reflect.Map, reflect.Ptr, reflect.Slice:
		return v.Pointer() == 0
	}
	return false
}

func zero31(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		return v.Float() == 0
	case reflect.Complex64, reflect.Complex128:
		return v.Complex() == 0
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !zero31(v.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if !zero31(v.Field(i)) {
				return false
			}
		}
		return true
	}
	return v.IsZero()
}

func empty31(x interface{}) bool {
	if x == nil {
		return true
	}
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Array, reflect.Chan, reflect.Map, reflect.Slice:
		return v.Len() == 0
	case reflect.Ptr:
		return v.IsNil() || empty31(v.Elem().Interface())
	}
	return zero31(v)
}

// cmp31 compares two ordered values of one kind
func cmp31(a, b interface{}) (int, bool) {
	if a == nil || b == nil {
		return 0, false
	}
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Kind() != y.Kind() {
		return 0, false
	}
	switch x.Kind() {
	case reflect.String:
		return strings.Compare(x.String(), y.String()), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return big.NewInt(x.Int()).Cmp(big.NewInt(y.Int())), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return new(big.Int).SetUint64(x.Uint()).Cmp(new(big.Int).SetUint64(y.Uint())), true
	case reflect.Float32, reflect.Float64:
		f, g := x.Float(), y.Float()
		if f != f || g != g {
			return 0, false
		}
		return big.NewFloat(f).Cmp(big.NewFloat(g)), true
	}
	return 0, false
}

type call31 struct {
	name string
	want bool
	f    func(t assert.TestingT, m []interface{}) bool
	ff   func(t assert.TestingT, msg string, a []interface{}) bool
	desc string
}

// any31 makes a call of any assertion
func any31(t *run.T) call31 {
	r := t.R
	switch r.Intn(9) {
	case 0, 1, 2, 3:
		return pair31(t, r)
	case 4:
		return order31(r)
	case 5:
		return number31(r)
	case 6, 7:
		return error31(r)
	}
	return json31(r)
}

func c31(t *run.T) {
	r := t.R
	c := any31(t)
	rec := &rec31{}
	var tt assert.TestingT = rec
	if chance(r, 3) {
		tt = named31{rec}
	}
	format := c.ff != nil && chance(r, 2)
	var got bool
	var p interface{}
	msg := ""
	func() {
		defer func() { p = recover() }()
		if format {
			msg = "formatted %d message"
			got = c.ff(tt, msg, []interface{}{r.Intn(3)})
			return
		}
		var m []interface{}
		switch r.Intn(4) {
		case 0:
			m = []interface{}{"message 100%"}
		case 1:
			m = []interface{}{"message %d %s", 1, "x"}
		case 2:
			m = []interface{}{N31Err{3}}
		}
		got = c.f(tt, m)
	}()
	t.Eval(1)
	name := c.name
	if format {
		name += "f"
	}
	t.Count(fmt.Sprintf("%s: %v", name, c.want), 1)
	t.NonTrivial(name, c.desc)
	detail := fmt.Sprintf("%s(%s)\nreported %d times: %s", name, c.desc, rec.n, clip(rec.msg, 1000))
	switch {
	case p != nil:
		t.Failf(detail, "%s panics: %v", name, p)
	case got != c.want:
		t.Failf(detail, "%s returns %v where the relation is %v", name, got, c.want)
	case c.want && rec.n > 0:
		t.Failf(detail, "%s reports a failure of a relation that holds", name)
	case !c.want && rec.n != 1:
		t.Failf(detail, "%s reports a relation that does not hold %d times", name, rec.n)
	case format && rec.n == 1 && !strings.Contains(rec.msg, "formatted "):
		t.Failf(detail, "%s does not give the message of the caller", name)
	}
	if t.WantSample() {
		t.Sample("%s(%s) -> %v", name, clip(c.desc, 200), got)
	}
}

func pair31(t *run.T, r *rand.Rand) call31 {
	ts, vs := r.Int63(), r.Int63()
	a := value31(ts, vs)
	var b interface{}
	kind := ""
	switch r.Intn(7) {
	case 0, 1:
		kind = "copy"
		b = value31(ts, vs)
	case 2:
		kind = "changed copy"
		b = value31(ts, vs)
		if b != nil {
			v := reflect.New(reflect.TypeOf(b)).Elem()
			v.Set(reflect.ValueOf(b))
			if change31(r, v) {
				b = v.Interface()
			}
		}
	case 3:
		kind = "another value"
		b = value31(ts, r.Int63())
	case 4:
		kind = "another type"
		b = value31(r.Int63(), vs)
		if a != nil {
			o := reflect.TypeOf(0)
			for _, x := range append(append([]reflect.Type{}, basic31...), other31...) {
				if x != reflect.TypeOf(a) && x.Kind() != reflect.Interface && reflect.TypeOf(a).ConvertibleTo(x) && chance(r, 3) {
					o = x
				}
			}
			if reflect.TypeOf(a).ConvertibleTo(o) && reflect.TypeOf(a).Kind() != reflect.Slice {
				b = reflect.ValueOf(a).Convert(o).Interface()
			}
		}
	case 5:
		kind = "itself"
		b = a
	default:
		kind = "nil"
		switch r.Intn(3) {
		case 0:
			a = nil
			fallthrough
		case 1:
			b = nil
		default:
			if a != nil {
				b = reflect.Zero(reflect.TypeOf(a)).Interface()
			}
		}
	}
	if chance(r, 2) {
		a, b = b, a
	}
	t.Count("pairs: "+kind, 1)
	functions31(t, a, b)
	desc := clip(fmt.Sprintf("%T %+v, %T %+v", a, a, b, b), 2000)
	one := clip(fmt.Sprintf("%T %+v", a, a), 2000)
	switch r.Intn(12) {
	case 0, 1, 2:
		return call31{"Equal", !isFunc31(a) && !isFunc31(b) && reflect.DeepEqual(a, b),
			func(t assert.TestingT, m []interface{}) bool { return assert.Equal(t, a, b, m...) },
			func(t assert.TestingT, m string, x []interface{}) bool { return assert.Equalf(t, a, b, m, x...) }, desc}
	case 3, 4, 5:
		return call31{"NotEqual", !isFunc31(a) && !isFunc31(b) && !reflect.DeepEqual(a, b),
			func(t assert.TestingT, m []interface{}) bool { return assert.NotEqual(t, a, b, m...) },
			func(t assert.TestingT, m string, x []interface{}) bool { return assert.NotEqualf(t, a, b, m, x...) }, desc}
	case 6:
		return call31{"Nil", nil31(a),
			func(t assert.TestingT, m []interface{}) bool { return assert.Nil(t, a, m...) },
			func(t assert.TestingT, m string, x []interface{}) bool { return assert.Nilf(t, a, m, x...) }, one}
	case 7:
		return call31{"NotNil", !nil31(a),
			func(t assert.TestingT, m []interface{}) bool { return assert.NotNil(t, a, m...) },
			func(t assert.TestingT, m string, x []interface{}) bool { return assert.NotNilf(t, a, m, x...) }, one}
	case 8:
		return call31{"Empty", empty31(a),
			func(t assert.TestingT, m []interface{}) bool { return assert.Empty(t, a, m...) },
			func(t assert.TestingT, m string, x []interface{}) bool { return assert.Emptyf(t, a, m, x...) }, one}
	case 9:
		return call31{"NotEmpty", !empty31(a),
			func(t assert.TestingT, m []interface{}) bool { return assert.NotEmpty(t, a, m...) },
			func(t assert.TestingT, m string, x []interface{}) bool { return assert.NotEmptyf(t, a, m, x...) }, one}
	case 10:
		return call31{"Zero", a == nil || zero31(reflect.ValueOf(a)),
			func(t assert.TestingT, m []interface{}) bool { return assert.Zero(t, a, m...) }, nil, one}
	default:
		return call31{"NotZero", a != nil && !zero31(reflect.ValueOf(a)),
			func(t assert.TestingT, m []interface{}) bool { return assert.NotZero(t, a, m...) }, nil, one}
	}
}

// functions31 looks at the two functions that compare without a report
func functions31(t *run.T, a, b interface{}) {
	defer func() {
		if p := recover(); p != nil {
			t.Failf(fmt.Sprintf("%T %+v\n%T %+v", a, a, b, b), "a comparison panics: %v", p)
		}
	}()
	want := reflect.DeepEqual(a, b)
	if got := assert.ObjectsAreEqual(a, b); got != want {
		t.Failf(fmt.Sprintf("%T %+v\n%T %+v", a, a, b, b), "ObjectsAreEqual returns %v where the relation is %v", got, want)
	}
	if a != nil && b != nil && reflect.TypeOf(a) != reflect.TypeOf(b) {
		v, to := reflect.ValueOf(a), reflect.TypeOf(b)
		switch {
		case !v.Type().ConvertibleTo(to):
		case v.Kind() == to.Kind() && v.Kind() != reflect.Slice:
			want = reflect.DeepEqual(v.Convert(to).Interface(), b)
		default:
			// conversions that might lose something
			return
		}
	}
	if got := assert.ObjectsAreEqualValues(a, b); got != want {
		t.Failf(fmt.Sprintf("%T %+v\n%T %+v", a, a, b, b), "ObjectsAreEqualValues returns %v where the relation is %v", got, want)
	}
}

func order31(r *rand.Rand) call31 {
	mk := func(t reflect.Type) interface{} {
		v := reflect.New(t).Elem()
		fill31(r, v, 1)
		return v.Interface()
	}
	ty := pick(r, basic31...)
	if chance(r, 3) {
		ty = pick(r, ordered31...)
		if chance(r, 8) {
			ty = reflect.TypeOf(time.Duration(0))
		}
	}
	if chance(r, 12) {
		ty = pick(r, reflect.TypeOf(false), reflect.TypeOf([]int{}), reflect.TypeOf(N31Struct{}), reflect.TypeOf(complex64(0)))
	}
	a, b := mk(ty), mk(ty)
	switch r.Intn(8) {
	case 0:
		b = a
	case 1:
		b = mk(pick(r, basic31...))
	case 2:
		if i := r.Intn(3); i > 0 {
			// of one kind
			for _, x := range append(append([]reflect.Type{}, basic31...), ordered31...) {
				if x.Kind() == ty.Kind() && x != ty {
					b = mk(x)
				}
			}
		} else if ty.Kind() == reflect.Float64 {
			b = math.Nextafter(reflect.ValueOf(a).Float(), math.Inf(1))
		}
	}
	if chance(r, 40) {
		a = nil
	}
	if chance(r, 40) {
		b = nil
	}
	desc := fmt.Sprintf("%T %#v, %T %#v", a, a, b, b)
	n, ok := cmp31(a, b)
	k := r.Intn(6)
	if k >= 4 {
		desc = fmt.Sprintf("%T %#v", a, a)
		if a == nil {
			n, ok = 0, false
		} else {
			n, ok = cmp31(a, reflect.Zero(reflect.TypeOf(a)).Interface())
		}
	}
	switch k {
	case 0:
		return call31{"Greater", ok && n > 0,
			func(t assert.TestingT, m []interface{}) bool { return assert.Greater(t, a, b, m...) },
			func(t assert.TestingT, m string, x []interface{}) bool { return assert.Greaterf(t, a, b, m, x...) }, desc}
	case 1:
		return call31{"GreaterOrEqual", ok && n >= 0,
			func(t assert.TestingT, m []interface{}) bool { return assert.GreaterOrEqual(t, a, b, m...) },
			func(t assert.TestingT, m string, x []interface{}) bool {
				return assert.GreaterOrEqualf(t, a, b, m, x...)
			}, desc}
	case 2:
		return call31{"Less", ok && n < 0,
			func(t assert.TestingT, m []interface{}) bool { return assert.Less(t, a, b, m...) },
			func(t assert.TestingT, m string, x []interface{}) bool { return assert.Lessf(t, a, b, m, x...) }, desc}
	case 3:
		return call31{"LessOrEqual", ok && n <= 0,
			func(t assert.TestingT, m []interface{}) bool { return assert.LessOrEqual(t, a, b, m...) },
			func(t assert.TestingT, m string, x []interface{}) bool { return assert.LessOrEqualf(t, a, b, m, x...) }, desc}
	case 4:
		return call31{"Positive", ok && n > 0,
			func(t assert.TestingT, m []interface{}) bool { return assert.Positive(t, a, m...) }, nil, desc}
	default:
		return call31{"Negative", ok && n < 0,
			func(t assert.TestingT, m []interface{}) bool { return assert.Negative(t, a, m...) },
			func(t assert.TestingT, m string, x []interface{}) bool { return assert.Negativef(t, a, m, x...) }, desc}
	}
}

// exact31 makes a number of a builtin type that float64 holds exactly
func exact31(r *rand.Rand) interface{} {
	n := r.Intn(20) - 5
	if chance(r, 4) {
		n = r.Intn(1<<20) - 1<<18
	}
	u := n
	if u < 0 {
		u = -u
	}
	return pick[interface{}](r, n, int8(n), int16(n), int32(n), int64(n), int64(n)<<20, uint(u), uint8(u), uint16(u), uint32(u), uint64(u), uint64(u)<<20, float32(n)/8, float64(n)/16, float64(n), float64(n)*1024, math.Inf(1), math.Inf(-1), math.NaN(), 0)
}

func rat31(x interface{}) (*big.Rat, float64, bool) {
	v := reflect.ValueOf(x)
	var f float64
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		f = float64(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		f = float64(v.Uint())
	case reflect.Float32, reflect.Float64:
		f = v.Float()
	default:
		return nil, 0, false
	}
	if f != f || math.IsInf(f, 0) {
		return nil, f, true
	}
	return new(big.Rat).SetFloat64(f), f, true
}

func inDelta31(a, b interface{}, d float64) bool {
	x, f, ok := rat31(a)
	y, g, ok2 := rat31(b)
	if !ok || !ok2 || f != f || g != g {
		return false
	}
	if x == nil || y == nil {
		return f == g || math.IsInf(d, 1)
	}
	if math.IsInf(d, 1) {
		return true
	}
	diff := new(big.Rat).Sub(x, y)
	return diff.Abs(diff).Cmp(new(big.Rat).SetFloat64(d)) <= 0
}

func inEpsilon31(a, b interface{}, e float64) bool {
	x, f, ok := rat31(a)
	y, g, ok2 := rat31(b)
	if !ok || !ok2 || f != f || g != g || e != e || f == 0 {
		return false
	}
	if x == nil || y == nil {
		return f == g || math.IsInf(e, 1)
	}
	if math.IsInf(e, 1) {
		return true
	}
	diff := new(big.Rat).Sub(x, y)
	diff.Quo(diff.Abs(diff), new(big.Rat).Abs(x))
	return diff.Cmp(new(big.Rat).SetFloat64(e)) <= 0
}

// clear31 tells if the verdict does not depend on rounding
func clear31(a, b interface{}, e float64) bool {
	return inEpsilon31(a, b, e*(1-1e-9)) == inEpsilon31(a, b, e*(1+1e-9))
}

func number31(r *rand.Rand) call31 {
	near := func(a interface{}) interface{} {
		if _, f, ok := rat31(a); ok && chance(r, 2) {
			return f + float64(r.Intn(9)-4)/8
		}
		return exact31(r)
	}
	odd := func(a interface{}) interface{} {
		if chance(r, 25) {
			return pick[interface{}](r, nil, "1", true, []int{1}, complex(1, 0))
		}
		return a
	}
	a := exact31(r)
	b := near(a)
	a, b = odd(a), odd(b)
	d := pick(r, 0, 0.125, 0.5, 1, 2, 100, float64(r.Intn(1<<20)), math.Inf(1))
	e := pick(r, 0, 0.125, 0.25, 0.5, 1, 0.01, 3, math.Inf(1), math.NaN())
	desc := fmt.Sprintf("%T %v, %T %v, %v", a, a, b, b, d)
	switch r.Intn(5) {
	case 0:
		return call31{"InDelta", inDelta31(a, b, d),
			func(t assert.TestingT, m []interface{}) bool { return assert.InDelta(t, a, b, d, m...) }, nil, desc}
	case 1:
		for !clear31(a, b, e) {
			e = 1.5 * e
		}
		desc = fmt.Sprintf("%T %v, %T %v, %v", a, a, b, b, e)
		return call31{"InEpsilon", inEpsilon31(a, b, e),
			func(t assert.TestingT, m []interface{}) bool { return assert.InEpsilon(t, a, b, e, m...) }, nil, desc}
	case 2:
		// maps
		n := r.Intn(4)
		x, y := map[string]interface{}{}, map[string]interface{}{}
		want := true
		for i := 0; i < n; i++ {
			a := exact31(r)
			b := a
			if chance(r, 3) {
				b = near(a)
			}
			x[itoa(i)], y[itoa(i)] = a, b
			want = want && inDelta31(a, b, d)
		}
		switch r.Intn(6) {
		case 0:
			y["more"] = 1
			want = false
		case 1:
			if n > 0 {
				delete(y, "0")
				y["other"] = x["0"]
				want = false
			}
		}
		var p, q interface{} = x, y
		switch r.Intn(20) {
		case 0:
			p, want = nil, false
		case 1:
			q, want = []int{1}, false
		}
		return call31{"InDeltaMapValues", want,
			func(t assert.TestingT, m []interface{}) bool { return assert.InDeltaMapValues(t, p, q, d, m...) }, nil, fmt.Sprint(p, q, d)}
	default:
		// slices
		n := r.Intn(4)
		x, y := []interface{}{}, []interface{}{}
		var fx, fy []float64
		delta, eps := true, true
		for i := 0; i < n; i++ {
			a := exact31(r)
			b := a
			if chance(r, 2) {
				b = near(a)
			}
			for !clear31(a, b, e) {
				e = 1.37 * e
			}
			x, y = append(x, a), append(y, b)
			_, f, _ := rat31(a)
			_, g, _ := rat31(b)
			fx, fy = append(fx, f), append(fy, g)
			delta = delta && inDelta31(a, b, d)
		}
		for i := range x {
			if !clear31(x[i], y[i], e) {
				e = 0
			}
		}
		for i := range x {
			eps = eps && inEpsilon31(x[i], y[i], e)
		}
		var p, q interface{} = x, y
		if chance(r, 3) {
			p = fx
		}
		if chance(r, 3) {
			q = fy
		}
		bad := false
		switch r.Intn(15) {
		case 0:
			q, bad = append(y, 1), true
		case 1:
			p, bad = append(x, 1), true
		case 2:
			p, bad = nil, true
		case 3:
			q, bad = 1, true
		}
		if bad {
			delta, eps = false, false
		}
		if chance(r, 2) {
			return call31{"InDeltaSlice", delta,
				func(t assert.TestingT, m []interface{}) bool { return assert.InDeltaSlice(t, p, q, d, m...) }, nil, fmt.Sprint(p, q, d)}
		}
		return call31{"InEpsilonSlice", eps,
			func(t assert.TestingT, m []interface{}) bool { return assert.InEpsilonSlice(t, p, q, e, m...) }, nil, fmt.Sprint(p, q, e)}
	}
}

// multi31 wraps two errors
type multi31 struct{ l []error }

func (m multi31) Error() string   { return "multi" }
func (m multi31) Unwrap() []error { return m.l }

// like31 matches errors of its code
type like31 struct{ code int }

func (l like31) Error() string { return "like" }
func (l like31) Is(e error) bool {
	x, ok := e.(N31Err)
	return ok && x.Code == l.code
}

// slice31 is an error that cannot be compared
type slice31 []int

func (s slice31) Error() string { return "slice" }

type ptr31 struct{ n int }

func (p *ptr31) Error() string { return "ptr" }

var ptrs31 = []*ptr31{{1}, {1}, {2}}

func mkErr31(r *rand.Rand, deep int) error {
	if deep > 0 && chance(r, 2) {
		switch r.Intn(3) {
		case 0:
			return multi31{[]error{mkErr31(r, deep-1), mkErr31(r, deep-1)}}
		case 1:
			return &wrap31{mkErr31(r, deep-1)}
		}
		return fmt.Errorf("w %w", mkErr31(r, deep-1))
	}
	return pick[error](r, io.EOF, io.ErrUnexpectedEOF, errs31[1], errs31[2], N31Err{0}, N31Err{1}, like31{1}, like31{0}, slice31{1}, ptrs31[0], ptrs31[1], ptrs31[2])
}

type wrap31 struct{ e error }

func (w *wrap31) Error() string { return "wrapped " + w.e.Error() }
func (w *wrap31) Unwrap() error { return w.e }

// walk31 lists the errors of a chain
func walk31(e error) []error {
	if e == nil {
		return nil
	}
	l := []error{e}
	switch x := e.(type) {
	case interface{ Unwrap() error }:
		l = append(l, walk31(x.Unwrap())...)
	case interface{ Unwrap() []error }:
		for _, y := range x.Unwrap() {
			l = append(l, walk31(y)...)
		}
	}
	return l
}

func is31(e, target error) bool {
	if e == nil || target == nil {
		return e == nil && target == nil
	}
	for _, x := range walk31(e) {
		if reflect.TypeOf(x) == reflect.TypeOf(target) && reflect.TypeOf(x).Comparable() && x == target {
			return true
		}
		if l, ok := x.(like31); ok && l.Is(target) {
			return true
		}
	}
	return false
}

func error31(r *rand.Rand) call31 {
	e := mkErr31(r, 3)
	if chance(r, 5) {
		e = nil
	}
	target := mkErr31(r, 1)
	if l := walk31(e); len(l) > 0 && chance(r, 2) {
		target = pick(r, l...)
	}
	if chance(r, 8) {
		target = nil
	}
	desc := fmt.Sprintf("%#v", e)
	text := ""
	if e != nil {
		text = e.Error()
	}
	switch r.Intn(10) {
	case 0:
		return call31{"Error", e != nil,
			func(t assert.TestingT, m []interface{}) bool { return assert.Error(t, e, m...) },
			func(t assert.TestingT, m string, x []interface{}) bool { return assert.Errorf(t, e, m, x...) }, desc}
	case 1:
		return call31{"NoError", e == nil,
			func(t assert.TestingT, m []interface{}) bool { return assert.NoError(t, e, m...) },
			func(t assert.TestingT, m string, x []interface{}) bool { return assert.NoErrorf(t, e, m, x...) }, desc}
	case 2:
		s := pick(r, text, text, text+" ", "", strings.ToUpper(text), "like", "w EOF")
		return call31{"EqualError", e != nil && s == text,
			func(t assert.TestingT, m []interface{}) bool { return assert.EqualError(t, e, s, m...) },
			func(t assert.TestingT, m string, x []interface{}) bool { return assert.EqualErrorf(t, e, s, m, x...) }, desc + " " + s}
	case 3, 4:
		return call31{"ErrorIs", is31(e, target),
			func(t assert.TestingT, m []interface{}) bool { return assert.ErrorIs(t, e, target, m...) },
			func(t assert.TestingT, m string, x []interface{}) bool { return assert.ErrorIsf(t, e, target, m, x...) }, fmt.Sprintf("%#v, %#v", e, target)}
	case 5, 6:
		return call31{"NotErrorIs", !is31(e, target),
			func(t assert.TestingT, m []interface{}) bool { return assert.NotErrorIs(t, e, target, m...) },
			func(t assert.TestingT, m string, x []interface{}) bool {
				return assert.NotErrorIsf(t, e, target, m, x...)
			}, fmt.Sprintf("%#v, %#v", e, target)}
	case 7:
		var found *N31Err
		for _, x := range walk31(e) {
			if y, ok := x.(N31Err); ok {
				found = &y
				break
			}
		}
		check := func(ok bool, got N31Err) bool {
			// a target that is not set counts as the wrong verdict
			if ok && found != nil && got != *found {
				return false
			}
			return ok
		}
		return call31{"ErrorAs", found != nil,
			func(t assert.TestingT, m []interface{}) bool {
				got := N31Err{-1}
				return check(assert.ErrorAs(t, e, &got, m...), got)
			},
			func(t assert.TestingT, m string, x []interface{}) bool {
				got := N31Err{-1}
				return check(assert.ErrorAsf(t, e, &got, m, x...), got)
			}, desc}
	case 8:
		b := chance(r, 2)
		if chance(r, 2) {
			return call31{"True", b,
				func(t assert.TestingT, m []interface{}) bool { return assert.True(t, b, m...) },
				func(t assert.TestingT, m string, x []interface{}) bool { return assert.Truef(t, b, m, x...) }, fmt.Sprint(b)}
		}
		return call31{"False", !b,
			func(t assert.TestingT, m []interface{}) bool { return assert.False(t, b, m...) },
			func(t assert.TestingT, m string, x []interface{}) bool { return assert.Falsef(t, b, m, x...) }, fmt.Sprint(b)}
	default:
		k := r.Intn(9)
		f := func() {
			switch k {
			case 0:
				panic("text")
			case 1:
				panic(io.EOF)
			case 2:
				var m map[string]int
				m["a"] = 1
			case 3:
				panic("")
			case 4:
				defer func() { recover() }()
				panic("recovered")
			case 5:
				panic(0)
			case 6:
				panic(false)
			case 8:
				// recover returns nil, as in programs that state a go version before 1.21
				panic(nil)
			}
		}
		want := k != 4 && k != 7
		return call31{"Panics", want,
			func(t assert.TestingT, m []interface{}) bool { return assert.Panics(t, f, m...) },
			func(t assert.TestingT, m string, x []interface{}) bool { return assert.Panicsf(t, f, m, x...) }, itoa(k)}
	}
}

// rndJSON31 makes a value
func rndJSON31(r *rand.Rand, deep int) *q.J {
	switch r.Intn(7) {
	case 0:
		return &q.J{K: 'n'}
	case 1:
		return &q.J{K: 'b', B: chance(r, 2)}
	case 2:
		return &q.J{K: 'd', S: pick(r, "0", "1", "-1", "1.5", "100", "1e2", "0.1", "1.0", "1E+2", "12345678")}
	case 3:
		return &q.J{K: 's', S: pick(r, "", "a", "1", "null", "é", "\"", "a\nb", "\u2028", "<&>")}
	}
	if deep <= 0 {
		return &q.J{K: 's', S: "leaf"}
	}
	if chance(r, 2) {
		j := &q.J{K: 'a'}
		for i := r.Intn(4); i > 0; i-- {
			j.A = append(j.A, rndJSON31(r, deep-1))
		}
		return j
	}
	j := &q.J{K: 'o'}
	for _, i := range r.Perm(5)[:r.Intn(4)] {
		j.Keys = append(j.Keys, pick(r, "", "key ", "é")+string(rune('a'+i)))
		j.A = append(j.A, rndJSON31(r, deep-1))
	}
	return j
}

// print31 writes a value in one of its many spellings
func print31(r *rand.Rand, j *q.J) string {
	ws := func() string {
		if chance(r, 5) {
			return pick(r, " ", "\n", "\t", "\r\n  ")
		}
		return ""
	}
	txt := func(s string) string {
		b := "\""
		for _, c := range s {
			switch {
			case c == '"' || c == '\\':
				b += "\\" + string(c)
			case c == '/' && chance(r, 2):
				b += "\\/"
			case c == '\n' && chance(r, 2):
				b += "\\n"
			case c < ' ' || chance(r, 6):
				b += fmt.Sprintf(pick(r, "\\u%04x", "\\u%04X"), c)
			default:
				b += string(c)
			}
		}
		return b + "\""
	}
	s := ""
	switch j.K {
	case 'n':
		s = "null"
	case 'b':
		s = fmt.Sprint(j.B)
	case 'd':
		s = j.S
		if alt := map[string][]string{"1": {"1.0", "1e0", "10e-1"}, "100": {"1e2", "100.0", "1E+2"}, "0": {"0.0", "0e5", "-0"}, "0.1": {"1e-1", "0.10"}}[s]; alt != nil && chance(r, 2) {
			s = pick(r, alt...)
		}
	case 's':
		s = txt(j.S)
	case 'a':
		s = "["
		for i, x := range j.A {
			if i > 0 {
				s += ","
			}
			s += print31(r, x)
		}
		s += ws() + "]"
	case 'o':
		s = "{"
		for n, i := range r.Perm(len(j.Keys)) {
			if n > 0 {
				s += ","
			}
			s += ws() + txt(j.Keys[i]) + ws() + ":" + print31(r, j.A[i])
		}
		s += ws() + "}"
	}
	return ws() + s + ws()
}

func sameJSON31(a, b *q.J) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case 'b':
		return a.B == b.B
	case 's':
		return a.S == b.S
	case 'd':
		x, _ := new(big.Rat).SetString(a.S)
		y, _ := new(big.Rat).SetString(b.S)
		return x.Cmp(y) == 0
	}
	if len(a.A) != len(b.A) {
		return false
	}
	if a.K == 'o' {
		for i, k := range a.Keys {
			found := false
			for j, l := range b.Keys {
				if k == l {
					found = sameJSON31(a.A[i], b.A[j])
				}
			}
			if !found {
				return false
			}
		}
		return true
	}
	for i := range a.A {
		if !sameJSON31(a.A[i], b.A[i]) {
			return false
		}
	}
	return true
}

// edit31 changes one node of a value
func edit31(r *rand.Rand, j *q.J) *q.J {
	c := *j
	n := len(c.A)
	if n > 0 && !chance(r, 4) {
		i := r.Intn(n)
		c.A = append([]*q.J{}, c.A...)
		c.Keys = append([]string{}, c.Keys...)
		switch r.Intn(5) {
		case 0:
			c.A = append(c.A[:i], c.A[i+1:]...)
			if c.K == 'o' {
				c.Keys = append(c.Keys[:i], c.Keys[i+1:]...)
			}
		case 1:
			k := r.Intn(n)
			c.A[i], c.A[k] = c.A[k], c.A[i]
		default:
			c.A[i] = edit31(r, c.A[i])
		}
		return &c
	}
	return rndJSON31(r, 1)
}

func json31(r *rand.Rand) call31 {
	j := rndJSON31(r, 3)
	k := j
	switch r.Intn(4) {
	case 0:
		k = edit31(r, j)
	case 1:
		k = rndJSON31(r, 2)
	}
	a, b := print31(r, j), print31(r, k)
	if chance(r, 4) {
		// damage one byte that is no part of a longer character
		i := r.Intn(len(b))
		if b[i] < 0x80 {
			if chance(r, 2) {
				b = b[:i] + b[i+1:]
			} else {
				b = b[:i] + pick(r, ",", ":", "{", "}", "[", "]", "\"", " ", "1", ".", "+", "n") + b[i:]
			}
		}
	}
	if chance(r, 2) {
		a, b = b, a
	}
	x, err := q.ParseJSON(a)
	y, err2 := q.ParseJSON(b)
	want := err == nil && err2 == nil && sameJSON31(x, y)
	return call31{"JSONEq", want,
		func(t assert.TestingT, m []interface{}) bool { return assert.JSONEq(t, a, b, m...) },
		func(t assert.TestingT, m string, x []interface{}) bool { return assert.JSONEqf(t, a, b, m, x...) }, fmt.Sprintf("%q, %q", a, b)}
}
