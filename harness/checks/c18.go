package checks

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"vh/core"
	"vh/q"
	"vh/run"
	"vh/uni"
)

func init() {
	add(&run.Check{
		ID:     "C18",
		Rule:   "Sweeps: every Unicode code point, every pair of bytes, every sequence of up to four characters out of 22 of different classes, every value of the 8 and 16 bit integers, powers of two and boundaries of the wider ones, floats of every exponent of both widths with random mantissas, subnormals and neighbours, times over years 0 to 9999 in many zones. Random cases: schemas of scalars of all kinds, named types, IDs, pointers, lists, function results with random values. Every response is decoded by a strict JSON reader (strings also by encoding/json) and compared with the Go value: strings up to replacement of invalid UTF-8, integers as decimal text, floats bit by bit after parsing, times as instant to the millisecond with the exact UTC form. Each time written is also sent back as a literal and as a variable and has to arrive as the same instant. Non-trivial: distinct value compared.",
		Assume: []string{"infinities and NaN have no JSON form and are not generated", "years outside 0 to 9999 have no four digit form"},
		Quick:  5000, Thorough: 120000, CPU: 120,
		Run: c18,
	})
}

// The ID tag counts for a field and what its pointer points to, not for the
// elements of a list.
type idI18 struct {
	V int64 `gq:",id"`
}
type idU18 struct {
	V uint64 `gq:",id"`
}
type idS18 struct {
	V string `gq:",id"`
}

type scalars18 struct {
	Strs  []string
	I8    []int8
	U8    []uint8
	I16   []int16
	U16   []uint16
	I32   []int32
	U32   []uint32
	I64   []int64
	U64   []uint64
	I     []int
	U     []uint
	F32   []float32
	F64   []float64
	Times []time.Time
	Ids   []idI18
	Uids  []idU18
	Sids  []idS18
	Bools []bool
	Back  func(a struct{ T time.Time }) time.Time
	Backp func(a struct{ T *time.Time }) *time.Time
}

func case18(t *run.T, v *scalars18) *core.Case {
	v.Back = func(a struct{ T time.Time }) time.Time { return a.T }
	v.Backp = func(a struct{ T *time.Time }) *time.Time { return a.T }
	c := newCase(t, core.CaseOpt{QT: reflect.TypeOf(scalars18{}), MT: reflect.TypeOf(uni.M0{}), NoDirs: true})
	if c == nil {
		return nil
	}
	c.QV = reflect.ValueOf(*v)
	s, err := c.NewSchema()
	if err != nil {
		t.Fail("a valid schema is refused", err.Error())
		return nil
	}
	c.S = s
	return c
}

func all18(t *run.T, v *scalars18, fields ...string) {
	c := case18(t, v)
	if c == nil {
		return
	}
	op := &q.Op{Kind: "query", Shorthand: true}
	for _, f := range fields {
		x := &q.Sel{K: q.SField, Name: f}
		if strings.HasSuffix(f, "ids") {
			x.Sub = []*q.Sel{{K: q.SField, Name: "v"}}
		}
		op.Sel = append(op.Sel, x)
	}
	doc := &q.Doc{Defs: []interface{}{op}}
	rq := &core.Request{Doc: doc, Target: op, Text: doc.Print(q.Layout{})}
	e := c.Interpret(rq)
	r := c.Run(c.S, rq.Text, rq.Options())
	if d := e.Judge(r, core.PAll); d != "" {
		if len(r.Raw) > 3000 {
			r.Raw = r.Raw[:3000]
		}
		t.Fail(d, describe(rq, r))
		return
	}
	n := 0
	var count func(x *q.J)
	count = func(x *q.J) {
		if x.K != 'a' && x.K != 'o' {
			n++
			t.NonTrivial(string(x.K), x.S)
		}
		for _, y := range x.A {
			count(y)
		}
	}
	count(r.Data)
	t.Eval(n)
	t.Count("values compared: "+strings.Join(fields, " "), n)
	// strings as encoding/json reads them
	var std struct {
		Data struct{ Strs []string }
	}
	if err := json.Unmarshal([]byte(r.Raw), &std); err == nil {
		for i, s := range std.Data.Strs {
			if want := q.Sanitize(v.Strs[i]); q.Sanitize(s) != want {
				t.Fail(fmt.Sprintf("encoding/json reads %q instead of %q", s, want), "")
				return
			}
		}
	}
}

var atoms18 = []string{"a", "~", "\"", "\\", "\n", "\r", "\t", "\x00", "\x1f", "\x7f", "é", "\u2027", "\u2028", "\u2029", "\ufffd", "😀", "\xff", "\xe2\x80", "\xc0", "\x80", "<", "/"}

func c18(t *run.T) {
	r := t.R
	switch {
	case t.Case < 69: // code points, 16k each
		v := &scalars18{}
		var b strings.Builder
		for x := t.Case * 0x4000; x < (t.Case+1)*0x4000 && x <= 0x10ffff; x++ {
			if x >= 0xd800 && x < 0xe000 {
				continue
			}
			b.WriteRune(rune(x))
			if x%64 == 63 {
				v.Strs = append(v.Strs, b.String())
				b.Reset()
			}
			if x < 0x3000 || x >= 0xd700 && x < 0xe100 || x >= 0xfe00 && x < 0x10100 || x&0xffff < 64 || x&0xffff >= 0xffc0 || x%97 == 0 {
				v.Strs = append(v.Strs, string(rune(x)), "a"+string(rune(x))+"b")
			}
		}
		for _, x := range v.Strs {
			v.Sids = append(v.Sids, idS18{x})
		}
		all18(t, v, "strs", "sids")
	case t.Case < 77: // pairs of bytes
		v := &scalars18{}
		for a := (t.Case - 69) * 32; a < (t.Case-68)*32; a++ {
			for b := 0; b < 256; b++ {
				v.Strs = append(v.Strs, string([]byte{byte(a), byte(b)}))
				if a >= 0xc0 && chance(r, 3) {
					v.Strs = append(v.Strs, string([]byte{byte(a), byte(b), byte(r.Intn(256)), byte(0x80 + r.Intn(64))}), string([]byte{'x', byte(a), byte(b), byte(0x80 + r.Intn(64)), 'y'}))
				}
			}
		}
		all18(t, v, "strs")
	case t.Case >= 200 && t.Case < 200+len(atoms18): // every sequence of up to 4 characters of different classes
		v := &scalars18{}
		a := atoms18[t.Case-200]
		for _, b := range atoms18 {
			v.Strs = append(v.Strs, a+b)
			for _, c := range atoms18 {
				v.Strs = append(v.Strs, a+b+c)
				for _, d := range atoms18 {
					v.Strs = append(v.Strs, a+b+c+d)
				}
			}
		}
		all18(t, v, "strs")
	case t.Case == 77:
		v := &scalars18{}
		for i := 0; i < 256; i++ {
			v.U8 = append(v.U8, uint8(i))
			v.I8 = append(v.I8, int8(i))
		}
		for i := 0; i < 1<<16; i++ {
			v.U16 = append(v.U16, uint16(i))
			v.I16 = append(v.I16, int16(i))
		}
		all18(t, v, "I8", "U8", "I16", "U16")
	case t.Case == 78:
		v := &scalars18{Bools: []bool{true, false}}
		for s := uint(0); s < 64; s++ {
			for d := -3; d <= 3; d++ {
				x := uint64(1)<<s + uint64(d)
				v.U64 = append(v.U64, x, -x)
				v.I64 = append(v.I64, int64(x), -int64(x))
				v.U32 = append(v.U32, uint32(x))
				v.I32 = append(v.I32, int32(x), -int32(x))
				v.I = append(v.I, int(x))
				v.U = append(v.U, uint(x))
			}
		}
		p := uint64(1)
		for i := 0; i < 20; i++ {
			v.U64 = append(v.U64, p, p-1, p+1, 9*p)
			p *= 10
		}
		for _, x := range v.I64 {
			v.Ids = append(v.Ids, idI18{x})
		}
		for _, x := range v.U64 {
			v.Uids = append(v.Uids, idU18{x})
		}
		all18(t, v, "I64", "U64", "I32", "U32", "i", "u", "ids", "uids", "bools")
	case t.Case < 95: // floats of every exponent
		v := &scalars18{}
		for e := uint64(0); e < 2047; e++ {
			for k := 0; k < 3; k++ {
				v.F64 = append(v.F64, math.Float64frombits(e<<52|r.Uint64()>>12|r.Uint64()<<63))
			}
			f := math.Float64frombits(e << 52)
			v.F64 = append(v.F64, f, math.Nextafter(f, 1e308), math.Nextafter(f, -1))
		}
		for e := uint32(0); e < 255; e++ {
			for k := 0; k < 12; k++ {
				v.F32 = append(v.F32, math.Float32frombits(e<<23|r.Uint32()>>9|r.Uint32()<<31))
			}
			v.F32 = append(v.F32, math.Float32frombits(e<<23), math.Float32frombits(e<<23+1))
		}
		for p := -330; p < 309; p++ {
			f := math.Pow10(p)
			v.F64 = append(v.F64, f, f*float64(1+r.Intn(9)), -f, math.Nextafter(f, 0), float64(r.Intn(1000000))*f/1000)
			v.F32 = append(v.F32, float32(p), float32(p)/10)
		}
		for i := range v.F64 {
			if math.IsInf(v.F64[i], 0) || math.IsNaN(v.F64[i]) {
				v.F64[i] = 0
			}
		}
		v.F64 = append(v.F64, 0, math.Copysign(0, -1), math.MaxFloat64, math.SmallestNonzeroFloat64, 1<<53, 1<<53+2, 0.1, 1.0/3)
		v.F32 = append(v.F32, 0, float32(math.Copysign(0, -1)), math.MaxFloat32, math.SmallestNonzeroFloat32, 0.1, 16777216)
		all18(t, v, "F32", "F64")
	case t.Case%3 == 0:
		c18times(t)
	default:
		c18random(t)
	}
}

func c18times(t *run.T) {
	r := t.R
	v := &scalars18{}
	for i := 0; i < 60; i++ {
		x := core.RandTime(r)
		switch r.Intn(6) {
		case 0:
			x = time.Date(r.Intn(10000), time.Month(1+r.Intn(12)), 1+r.Intn(31), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1e9), time.FixedZone("x", r.Intn(28*3600)-14*3600))
		case 1:
			x = time.Date(1+r.Intn(9998), 12, 31, 23, 59, 59, []int{0, 999999999, 999499999, 999500000, 1000000, 999999, 1, 99000000, 9000000}[r.Intn(9)], time.UTC)
		case 2:
			x = time.Unix(int64(r.Uint32()), int64(r.Intn(1000))*1000000).In(time.FixedZone("", (r.Intn(57)-28)*1800))
		case 3:
			x = time.Now().Add(time.Duration(r.Int63()))
		}
		if y := x.UTC().Year(); y < 0 || y > 9999 {
			continue
		}
		v.Times = append(v.Times, x)
	}
	all18(t, v, "times")
	if t.Failed() {
		return
	}
	c := case18(t, v)
	if c == nil {
		return
	}
	res := c.Run(c.S, "{times}", (&core.Request{}).Options())
	for i, x := range res.Data.Get("times").A {
		want := v.Times[i]
		// the documented form
		if form := want.UTC().Truncate(time.Millisecond).Format("2006-01-02T15:04:05.000Z"); x.S != form && want.Nanosecond()%1000000 == 0 {
			t.Fail(fmt.Sprintf("the time %s is written as %q, not %q", want, x.S, form), "")
			return
		}
		if want.UTC().Year() < 1 {
			continue
		}
		lit := q.Quote(x.S)
		r2 := c.Run(c.S, "query($v:Time,$p:Time){back(t:"+lit+")backp(t:"+lit+")b2:back(t:$v)p2:backp(t:$p)}", func() (o optsT) { o.Variables = `{"v":` + lit + `,"p":` + lit + `}`; return }())
		t.Eval(4)
		t.Count("times sent back", 4)
		if r2.Bad != "" || len(r2.Errs) > 0 {
			t.Fail("the library does not accept the time it wrote: "+x.S, r2.Raw)
			return
		}
		for _, k := range r2.Data.Keys {
			if got := r2.Data.Get(k); got.K != 's' || got.S != x.S {
				t.Fail(fmt.Sprintf("the time %s sent back as %s comes out as %s", x.S, k, got.Text()), r2.Raw)
				return
			}
		}
	}
}

func c18random(t *run.T) {
	r := t.R
	tg := &core.TypeGen{R: r, NoFiles: true}
	var fs []reflect.StructField
	names := r.Perm(len(core.FieldNames))
	for i := 0; i < 4+r.Intn(12); i++ {
		ft := tg.Scalar()
		tag := reflect.StructTag("")
		switch r.Intn(6) {
		case 0:
			ft = reflect.PtrTo(ft)
		case 1:
			ft = reflect.SliceOf(ft)
		case 2:
			ft = reflect.SliceOf(reflect.PtrTo(ft))
		case 3:
			ft = reflect.TypeOf([]interface{}{int(0), uint8(0), "", int64(0), uint64(0), uni.MyInt(0), uni.MyStr("")}[r.Intn(7)])
			tag = `gq:",id"`
		case 4:
			ft = reflect.FuncOf(nil, []reflect.Type{ft}, false)
		}
		fs = append(fs, reflect.StructField{Name: core.FieldNames[names[i]], Type: ft, Tag: tag})
	}
	c := newCase(t, core.CaseOpt{QT: reflect.StructOf(fs), MT: reflect.TypeOf(uni.M0{}), BadUTF: true, NoDirs: true})
	if c == nil {
		return
	}
	f := core.NewFiller(r, c.M, c.W)
	f.BadUTF = true
	for i := 0; i < 8; i++ {
		c.QV = f.New(c.QT)
		s, err := c.NewSchema()
		if err != nil {
			t.Fail("a valid schema is refused", err.Error())
			return
		}
		op := &q.Op{Kind: "query", Shorthand: true}
		for _, f := range c.QObj.Fields {
			op.Sel = append(op.Sel, &q.Sel{K: q.SField, Name: f.Name})
		}
		doc := &q.Doc{Defs: []interface{}{op}}
		rq := &core.Request{Doc: doc, Target: op, Text: doc.Print(q.Layout{})}
		e, res := conform(t, c, s, rq, core.PData|core.PErrs)
		if t.Failed() {
			return
		}
		t.NonTrivial(res.Raw)
		t.Count("values compared: random", e.Fields)
		sample(t, rq, res)
	}
}
