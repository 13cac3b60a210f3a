package core

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/mjarkk/yarql"
	"vh/uni"
)

// Filler makes random data
type Filler struct {
	R      *rand.Rand
	M      *Model
	W      *uni.World
	Budget int
	Nils   int // one in Nils pointers, functions, interfaces is nil; 0 = never unless the budget is used up
	BadUTF bool
}

// NewFiller returns a filler
func NewFiller(r *rand.Rand, m *Model, w *uni.World) *Filler {
	return &Filler{R: r, M: m, W: w, Budget: 300 + r.Intn(500), Nils: 9}
}

var stringPool = []string{"", "a", "hello world", "Foo", "null", "true", "0", "-1", "\"", "\\", "\\\"", "\n", "\t\r\b\f", "\x00", "\x1f\x7f", "é", "日本語", "😀😁", "\u2028\u2029", "<script>&amp;'", "{\"a\":[1]}", "${x}", "a\\u0041", "\ufeff", "\ufffd", "e", "v", "0v", "longer text that does not fit in anything small, really; it goes on for a bit"}

// RandString returns a random string
func RandString(r *rand.Rand) string {
	if r.Intn(100) == 0 {
		n := 1 << uint(r.Intn(13))
		if r.Intn(8) == 0 {
			n = 66000
		}
		n += r.Intn(3) - 1
		s := stringPool[r.Intn(len(stringPool))] + "." + stringPool[r.Intn(len(stringPool))]
		return strings.Repeat(s, n/len(s)+1)
	}
	switch r.Intn(4) {
	case 0, 1:
		return stringPool[r.Intn(len(stringPool))]
	case 2:
		n := r.Intn(12)
		b := make([]rune, n)
		for i := range b {
			switch r.Intn(5) {
			case 0:
				b[i] = rune(r.Intn(0x20))
			case 1:
				b[i] = rune(0x80 + r.Intn(0x7ff-0x80))
			case 2:
				b[i] = []rune{'"', '\\', '/', '<', '>', '&', 0x2028, 0x2029, 0xfffd, 0x10ffff, 0x10000, 0xd7ff, 0xe000, 0xffff, 0xfffe, 0xfff9, 0xfffc, rune(r.Intn(0xd800)), rune(0xe000 + r.Intn(0x2000)), rune(0x10000 + r.Intn(0x100000))}[r.Intn(20)]
			default:
				b[i] = rune(0x20 + r.Intn(0x5f))
			}
		}
		return string(b)
	}
	return stringPool[r.Intn(len(stringPool))] + stringPool[r.Intn(len(stringPool))]
}

// longLen is the length of a list that is longer than usual
func longLen(r *rand.Rand, elem reflect.Type) int {
	switch elem.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Struct, reflect.Func, reflect.Interface, reflect.Map:
		if elem != timeType {
			if r.Intn(24) == 0 {
				return 255 + r.Intn(30)
			}
			return 4 + r.Intn(10)
		}
	}
	if r.Intn(8) == 0 {
		return []int{64, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300}[r.Intn(11)]
	}
	return 4 + r.Intn(40)
}

// RandBytesString returns a string that may hold invalid UTF-8
func RandBytesString(r *rand.Rand) string {
	n := r.Intn(10)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Intn(256))
	}
	return string(b) + RandString(r)
}

// RandInt returns a random integer of the given width, boundary values often
func RandInt(r *rand.Rand, bits int) int64 {
	min, max := int64(-1)<<(bits-1), int64(1)<<(bits-1)-1
	switch r.Intn(5) {
	case 0:
		return []int64{min, max, 0, 1, -1, min + 1, max - 1}[r.Intn(7)]
	case 1:
		return int64(r.Uint64()) >> (64 - bits)
	default:
		v := int64(r.Uint64()) >> uint(64-1-r.Intn(bits))
		if v < min || v > max {
			return 7
		}
		return v
	}
}

// RandUint returns a random unsigned integer of the given width
func RandUint(r *rand.Rand, bits int) uint64 {
	max := uint64(math.MaxUint64) >> (64 - bits)
	switch r.Intn(5) {
	case 0:
		return []uint64{0, 1, max, max - 1, max / 2, max/2 + 1}[r.Intn(6)]
	default:
		return r.Uint64() >> uint(64-1-r.Intn(bits)) & max
	}
}

// RandFloat returns a random finite float
func RandFloat(r *rand.Rand, bits int) float64 {
	for {
		var f float64
		switch r.Intn(6) {
		case 0:
			f = []float64{0, 1, -1, 0.1, 1e21, 1e20, 1e-6, 1e-7, 123456789, 1.5, math.MaxFloat32, math.SmallestNonzeroFloat32, 16777216, 16777217, 9007199254740993, math.Copysign(0, -1), 0.3, 2.5e-8}[r.Intn(18)]
		case 1:
			f = float64(r.Intn(2000)-1000) / 8
		case 2:
			f = r.NormFloat64() * math.Pow(10, float64(r.Intn(40)-20))
		case 3:
			f = float64(r.Int63()) - float64(r.Int63())
		default:
			if bits == 32 {
				f = float64(math.Float32frombits(r.Uint32()))
			} else {
				f = math.Float64frombits(r.Uint64())
			}
		}
		if bits == 32 {
			f = float64(float32(f))
		}
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			return f
		}
	}
}

var zones = []*time.Location{time.UTC, time.FixedZone("a", 3600), time.FixedZone("b", -9*3600-1800), time.FixedZone("c", 14*3600), time.FixedZone("", 12345)}

// RandTime returns a random time of the years 1 to 9998
func RandTime(r *rand.Rand) time.Time {
	switch r.Intn(6) {
	case 0:
		return time.Time{}
	case 1:
		return time.Unix(int64(r.Intn(2000000000)), int64(r.Intn(1e9))).In(zones[r.Intn(len(zones))])
	case 2:
		return time.Date(1+r.Intn(9997), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), []int{0, 1, 999999, 1000000, 999999999, 500000000, 50000000, 5000000}[r.Intn(8)], zones[r.Intn(len(zones))])
	default:
		return time.Date(1900+r.Intn(200), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1000)*1000000, zones[r.Intn(len(zones))])
	}
}

func (f *Filler) nilNow() bool {
	if f.Budget <= 0 {
		return true
	}
	return f.Nils > 0 && f.R.Intn(f.Nils) == 0
}

// Fill gives v a random value
func (f *Filler) Fill(v reflect.Value, depth int) {
	f.Budget--
	t := v.Type()
	if t == timeType {
		v.Set(reflect.ValueOf(RandTime(f.R)))
		return
	}
	if t == fileType {
		return
	}
	if e := f.M.Enums[t]; e != nil {
		if f.R.Intn(6) != 0 {
			v.Set(e.Vals[e.Keys[f.R.Intn(len(e.Keys))]])
			return
		}
		// a value that might not be registered
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(f.R.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(RandInt(f.R, t.Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(RandUint(f.R, t.Bits()))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(RandFloat(f.R, t.Bits()))
	case reflect.String:
		if f.BadUTF && f.R.Intn(4) == 0 {
			v.SetString(RandBytesString(f.R))
		} else {
			v.SetString(RandString(f.R))
		}
	case reflect.Ptr:
		if f.nilNow() || depth > 12 {
			return
		}
		n := reflect.New(t.Elem())
		f.Fill(n.Elem(), depth+1)
		v.Set(n)
	case reflect.Slice:
		if f.nilNow() && f.R.Intn(2) == 0 {
			return
		}
		n := f.R.Intn(4)
		if depth > 3 {
			n = f.R.Intn(2)
		}
		if f.Budget <= 0 || depth > 12 {
			n = 0
		} else if depth <= 4 && f.R.Intn(18) == 0 {
			n = longLen(f.R, t.Elem())
		}
		s := reflect.MakeSlice(t, n, n+f.R.Intn(2))
		for i := 0; i < n; i++ {
			f.Fill(s.Index(i), depth+1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			f.Fill(v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			fd := t.Field(i)
			if fd.PkgPath != "" {
				continue
			}
			fv := v.Field(i)
			if fd.Type == worldPtr {
				fv.Set(reflect.ValueOf(f.W))
				continue
			}
			if fd.Name == "Uid" && fd.Type.Kind() == reflect.Int64 {
				fv.SetInt(f.W.NewUid())
				continue
			}
			// share the budget, so that the first fields leave something for the others
			all := f.Budget
			share := all*2/(t.NumField()-i+1) + 1
			if share > all {
				share = all
			}
			f.Budget = share
			f.Fill(fv, depth+1)
			f.Budget += all - share
		}
	case reflect.Interface:
		d := f.M.Ifaces[t]
		if d == nil || f.nilNow() || depth > 12 {
			return
		}
		from := d.Impl
		if len(d.Unreg) > 0 && f.R.Intn(8) == 0 {
			from = d.Unreg
		}
		if len(from) == 0 {
			return
		}
		n := reflect.New(from[f.R.Intn(len(from))]).Elem()
		f.Fill(n, depth+1)
		v.Set(n)
	case reflect.Func:
		if f.nilNow() {
			return
		}
		v.Set(f.MakeFunc(t, depth))
	}
}

// MakeFunc returns a resolver function of type t that reports to the world
func (f *Filler) MakeFunc(t reflect.Type, depth int) reflect.Value {
	fn, out, _ := NewFunc(t, false)
	uid := f.W.NewUid()
	name := "fn" + strconv.FormatInt(uid, 10)
	ret := reflect.New(out).Elem()
	f.Fill(ret, depth+1)
	w := f.W
	return reflect.MakeFunc(t, func(in []reflect.Value) []reflect.Value {
		var ctx *yarql.Ctx
		hasCtx := false
		var args []interface{}
		for i, x := range in {
			if fn.IsCtx[i] {
				ctx, _ = x.Interface().(*yarql.Ctx)
				hasCtx = true
			} else {
				args = append(args, x.Interface())
			}
		}
		err := w.Call(name, uid, ctx, hasCtx, args...)
		res := make([]reflect.Value, t.NumOut())
		for i := range res {
			res[i] = reflect.Zero(t.Out(i))
		}
		if fn.ErrIdx >= 0 && err != nil {
			res[fn.ErrIdx] = reflect.ValueOf(&err).Elem()
		}
		r := ret
		if len(args) > 0 && out.Kind() == reflect.String && out.PkgPath() == "" {
			r = reflect.ValueOf(w.Echo(ret.String(), args...))
		}
		res[fn.OutIdx] = r
		return res
	})
}

// New returns a filled value of type t
func (f *Filler) New(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	f.Fill(v, 0)
	return v
}

var _ = fmt.Sprint
