package checks

import (
	"fmt"
	"reflect"
	"strings"

	"vh/core"
	"vh/q"
	"vh/run"
	"vh/uni"
)

func init() {
	add(&run.Check{
		ID:     "C04",
		Rule:   "A case is a schema of functions with random argument types (and, one in three, a schema of named types) that is sent 8 operations with random literals in random layouts, or one operation with very long or deep literals. Every function and directive records what it received; the record has to equal, call by call, the Go values the generator chose before it wrote the literals. Non-trivial: distinct operation with at least 3 arguments.",
		Assume: []string{"literals of the supported language (no block-string indentation rules, a number for a text ID is not used)"},
		Quick:  9000, Thorough: 200000,
		Run: c04,
	})
}

func c04(t *run.T) {
	if t.Case%300 == 123 {
		wide(t, core.PLog|core.PErrs)
		return
	}
	if t.Case%150 == 7 {
		c04big(t, false)
		return
	}
	var c *core.Case
	if chance(t.R, 3) {
		c = newCase(t, core.CaseOpt{Budget: 300})
	} else {
		c = argCase(t, 1+t.R.Intn(4), 1+t.R.Intn(7), false)
	}
	if c == nil {
		return
	}
	opt := core.DefaultOpt()
	opt.Vars = false
	opt.FieldP = 80
	opt.Frags = chance(t.R, 3)
	opt.DirP = []int{0, 10, 40}[t.R.Intn(3)]
	g := core.NewGen(c, t.R, opt)
	for i := 0; i < 8; i++ {
		rq := g.Request()
		_, r := conform(t, c, c.S, rq, core.PLog|core.PErrs)
		if t.Failed() {
			return
		}
		c04classes(t, rq)
		if rq.Stats["argument"] >= 3 {
			t.NonTrivial(shapeOf(c, rq))
			sample(t, rq, r)
		}
	}
}

// c04classes counts the kinds of literals that were delivered
func c04classes(t *run.T, rq *core.Request) {
	var val func(v *q.Val, depth int)
	val = func(v *q.Val, depth int) {
		t.Count("literals: "+[]string{"int", "float", "string", "block string", "boolean", "null", "enum", "list", "object", "variable", "raw"}[v.K], 1)
		t.Max("literal nesting", depth)
		for _, x := range v.List {
			val(x, depth+1)
		}
		for _, x := range v.Obj {
			val(x.Val, depth+1)
		}
	}
	var sel func(ss []*q.Sel)
	sel = func(ss []*q.Sel) {
		for _, s := range ss {
			for _, a := range s.Args {
				val(a.Val, 1)
			}
			for _, d := range s.Dirs {
				for _, a := range d.Args {
					val(a.Val, 1)
				}
			}
			sel(s.Sub)
		}
	}
	for _, o := range rq.Doc.Ops() {
		sel(o.Sel)
	}
}

// c04big sends values that are long, wide or deep, as literals or else in variables
func c04big(t *run.T, vars bool) {
	r := t.R
	deep := reflect.TypeOf(int8(0))
	for i := 0; i < 5+r.Intn(25); i++ {
		if chance(r, 3) {
			deep = reflect.PtrTo(deep)
		} else {
			deep = reflect.SliceOf(deep)
		}
	}
	var many []reflect.StructField
	nm := 20 + r.Intn(200)
	if chance(r, 4) {
		nm = 250 + r.Intn(200)
	}
	for i := 0; i < nm; i++ {
		many = append(many, reflect.StructField{Name: fmt.Sprintf("Arg%d", i), Type: reflect.TypeOf("")})
	}
	long := "Long" + strings.Repeat("Name", r.Intn(50))
	many = append(many, reflect.StructField{Name: long, Type: reflect.TypeOf(0)})
	str := reflect.TypeOf("")
	fs := []reflect.StructField{
		{Name: "Str", Type: reflect.FuncOf([]reflect.Type{reflect.StructOf([]reflect.StructField{{Name: "A", Type: str}, {Name: "B", Type: reflect.TypeOf(0)}, {Name: "C", Type: str}})}, []reflect.Type{str}, false)},
		{Name: "List", Type: reflect.FuncOf([]reflect.Type{reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf([]int{})}, {Name: "B", Type: reflect.TypeOf([]uni.InRec{})}, {Name: "C", Type: str}})}, []reflect.Type{str}, false)},
		{Name: "Deep", Type: reflect.FuncOf([]reflect.Type{reflect.StructOf([]reflect.StructField{{Name: "A", Type: deep}, {Name: "B", Type: reflect.TypeOf(uni.InRec{})}, {Name: "C", Type: str}})}, []reflect.Type{str}, false)},
		{Name: "Wide", Type: reflect.FuncOf([]reflect.Type{reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(In04{})}, {Name: "B", Type: reflect.TypeOf([]*In04{})}, {Name: "C", Type: str}})}, []reflect.Type{str}, false)},
		{Name: "Many", Type: reflect.FuncOf([]reflect.Type{reflect.StructOf(many)}, []reflect.Type{str}, false)},
		{Name: "After", Type: reflect.TypeOf(0)},
	}
	c := newCase(t, core.CaseOpt{QT: reflect.StructOf(fs), MT: reflect.TypeOf(uni.M0{})})
	if c == nil {
		return
	}
	fl := core.NewFiller(r, c.M, c.W)
	fl.Nils = 0
	fl.Budget = 1 << 30
	for i := 0; i < c.QV.NumField(); i++ {
		if c.QV.Field(i).Kind() == reflect.Func {
			c.QV.Field(i).Set(fl.MakeFunc(c.QV.Field(i).Type(), 0))
		}
	}
	if s, err := c.NewSchema(); err == nil {
		c.S = s
	}
	g := core.NewGen(c, r, core.DefaultOpt())
	g.Begin()
	bigStr := func(n int) string {
		var b strings.Builder
		for b.Len() < n {
			b.WriteString(core.RandString(r))
			b.WriteByte('x')
		}
		return b.String()
	}
	lit := func(v reflect.Value) *q.Val { return litOf(v) }
	sizes := []int{200, 254, 255, 256, 257, 300, 1000, 65534, 65535, 65536, 65537, 70000, 150000}
	op := &q.Op{Kind: "query"}
	var given []string
	var defs []q.VarDef
	for _, i := range r.Perm(len(c.QObj.Fields)) {
		f := c.QObj.Fields[i]
		s := &q.Sel{K: q.SField, Name: f.Name}
		if f.Func != nil {
			v := reflect.New(f.Func.T.In(0)).Elem()
			switch f.Go {
			case "Str":
				v.Field(0).SetString(bigStr(sizes[r.Intn(len(sizes))]))
				v.Field(1).SetInt(7)
				v.Field(2).SetString(bigStr(sizes[r.Intn(4)]))
			case "List":
				n := []int{255, 256, 257, 1000, 5000}[r.Intn(5)]
				l := make([]int, n)
				for i := range l {
					l[i] = int(core.RandInt(r, 64))
				}
				v.Field(0).Set(reflect.ValueOf(l))
				m := make([]uni.InRec, r.Intn(300))
				for i := range m {
					m[i] = uni.InRec{Value: int16(i), Name: core.RandString(r)}
					if chance(r, 4) {
						m[i].Next = &uni.InRec{Name: "n"}
					}
				}
				v.Field(1).Set(reflect.ValueOf(m))
				v.Field(2).SetString("end")
			case "Deep":
				d := v.Field(0)
				for d.Kind() != reflect.Int8 {
					if d.Kind() == reflect.Ptr {
						d.Set(reflect.New(d.Type().Elem()))
						d = d.Elem()
					} else {
						d.Set(reflect.MakeSlice(d.Type(), 2, 2))
						d.Index(0).Set(reflect.MakeSlice(reflect.SliceOf(d.Type().Elem()), 1, 1).Index(0))
						d = d.Index(1)
					}
				}
				d.SetInt(-3)
				rec := uni.InRec{Name: "0"}
				for i := 0; i < 5+r.Intn(120); i++ {
					inner := rec
					rec = uni.InRec{Name: itoa(i), Next: &inner}
					if chance(r, 3) {
						rec = uni.InRec{Value: 2, Kids: []uni.InRec{inner, {Name: "z"}}}
					}
				}
				v.Field(1).Set(reflect.ValueOf(rec))
				v.Field(2).SetString("end")
			case "Wide":
				fill := func(x reflect.Value) {
					for i := 0; i < x.NumField(); i++ {
						x.Field(i).SetInt(core.RandInt(r, 64))
					}
				}
				fill(v.Field(0))
				for i := r.Intn(3); i > 0; i-- {
					x := &In04{}
					fill(reflect.ValueOf(x).Elem())
					v.Field(1).Set(reflect.Append(v.Field(1), reflect.ValueOf(x)))
				}
				v.Field(2).SetString("end")
			case "Many":
				for i := 0; i < nm; i++ {
					v.Field(i).SetString(itoa(i) + core.RandString(r))
				}
				v.Field(nm).SetInt(42)
			}
			l := lit(v)
			r.Shuffle(len(l.Obj), func(i, j int) { l.Obj[i], l.Obj[j] = l.Obj[j], l.Obj[i] })
			s.Args = l.Obj
			s.In = []reflect.Value{v}
			for k := range s.Args {
				if !vars || chance(r, 8) {
					continue
				}
				x := q.VarDef{Name: "v" + itoa(len(defs)), Type: c.M.TypeRefOf(v.Type().FieldByIndex(fieldIndex(v.Type(), s.Args[k].Name)).Type, false)}
				if chance(r, 3) {
					x.Default = s.Args[k].Val
				} else {
					given = append(given, q.Quote(x.Name)+":"+jsonOf(v.FieldByIndex(fieldIndex(v.Type(), s.Args[k].Name))))
				}
				s.Args[k].Val = &q.Val{K: q.VVar, Raw: x.Name}
				defs = append(defs, x)
			}
		}
		op.Sel = append(op.Sel, s)
	}
	rq := g.Finish(op)
	if vars {
		r.Shuffle(len(given), func(i, j int) { given[i], given[j] = given[j], given[i] })
		rq.Vars = "{" + strings.Join(given, ",") + "}"
		op.Vars, op.Shorthand = defs, false
		rq.Text = rq.Doc.Print(q.Layout{R: r, Level: r.Intn(3)})
		t.Max("bytes of variables", len(rq.Vars))
	}
	conform(t, c, c.S, rq, core.PLog|core.PErrs)
	t.Count("documents with very large values", 1)
	t.NonTrivial(rq.Text, rq.Vars)
}

// fieldIndex finds the Go field of an argument
func fieldIndex(t reflect.Type, name string) []int {
	for _, f := range core.InputFields(t) {
		if f.Name == name {
			return []int{f.Index}
		}
	}
	panic("no argument " + name)
}

// jsonOf writes what litOf does as JSON
func jsonOf(v reflect.Value) string {
	var b strings.Builder
	var write func(v reflect.Value)
	write = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.String:
			b.WriteString(q.Quote(v.String()))
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			b.WriteString(fmt.Sprint(v.Int()))
		case reflect.Ptr:
			if v.IsNil() {
				b.WriteString("null")
				return
			}
			write(v.Elem())
		case reflect.Slice:
			if v.IsNil() {
				b.WriteString("null")
				return
			}
			b.WriteString("[")
			for i := 0; i < v.Len(); i++ {
				if i > 0 {
					b.WriteString(",")
				}
				write(v.Index(i))
			}
			b.WriteString("]")
		case reflect.Struct:
			b.WriteString("{")
			for i, f := range core.InputFields(v.Type()) {
				if i > 0 {
					b.WriteString(",")
				}
				b.WriteString(q.Quote(f.Name) + ":")
				write(v.Field(f.Index))
			}
			b.WriteString("}")
		default:
			panic("jsonOf " + v.Type().String())
		}
	}
	write(v)
	return b.String()
}

// litOf writes a Go value made of numbers, strings, lists, pointers and
// objects as the literal that denotes it; nil slices and pointers are null
func litOf(v reflect.Value) *q.Val {
	switch v.Kind() {
	case reflect.String:
		return &q.Val{K: q.VString, Str: v.String()}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return &q.Val{K: q.VInt, Raw: fmt.Sprint(v.Int())}
	case reflect.Ptr:
		if v.IsNil() {
			return &q.Val{K: q.VNull}
		}
		return litOf(v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			return &q.Val{K: q.VNull}
		}
		l := &q.Val{K: q.VList}
		for i := 0; i < v.Len(); i++ {
			l.List = append(l.List, litOf(v.Index(i)))
		}
		return l
	case reflect.Struct:
		o := &q.Val{K: q.VObj}
		for _, f := range core.InputFields(v.Type()) {
			o.Obj = append(o.Obj, q.Arg{Name: f.Name, Val: litOf(v.Field(f.Index))})
		}
		return o
	}
	panic("litOf " + v.Type().String())
}
