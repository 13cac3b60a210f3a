package checks

import (
	"reflect"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/q"
	"vh/run"
	"vh/uni"
)

func init() {
	add(&run.Check{
		ID:     "C01",
		Rule:   "A case is a random Go schema (struct and function types built by reflection plus named structs and interfaces) with random data and 6 random operations on it, printed in a random layout. The response data is compared, key by key and value by value, with what a reference interpreter reads from the same Go data. Non-trivial: distinct operation that wrote at least 5 values.",
		Assume: []string{"the reference interpreter describes the documented meaning of the Go types", "response keys are unique within a selection set, see the known finding on repeated keys"},
		Quick:  12000, Thorough: 200000,
		Run: c01,
	})
}

type dupRoot struct{ A, B int }

func c01(t *run.T) {
	if t.Case%300 == 123 {
		wide(t, core.PData)
		return
	}
	switch t.Case {
	case 0:
		c01dup(t)
		return
	case 1, 2:
		c01big(t)
		return
	}
	opt := core.CaseOpt{BadUTF: chance(t.R, 3)}
	if chance(t.R, 10) {
		opt.Budget = 4000
	}
	c := newCase(t, opt)
	if c == nil {
		return
	}
	if chance(t.R, 2) {
		c.W.FailMod = 12
		c.W.FailSeed = t.R.Uint64()
	}
	gopt := core.DefaultOpt()
	gopt.FieldP = []int{25, 60, 90}[t.R.Intn(3)]
	gopt.MaxDepth = 3 + t.R.Intn(8)
	g := core.NewGen(c, t.R, gopt)
	for i := 0; i < 6; i++ {
		rq := g.Request()
		e, r := conform(t, c, c.S, rq, core.PData)
		if e.Fields >= 5 {
			t.NonTrivial(shapeOf(c, rq))
			sample(t, rq, r)
		}
		if t.Failed() {
			return
		}
	}
}

// c01dup looks at repeated response keys: the listed finding
func c01dup(t *run.T) {
	s := yarql.NewSchema()
	if err := s.Parse(dupRoot{1, 2}, uni.M0{}, nil); err != nil {
		t.Fail("a valid schema is refused", err.Error())
		return
	}
	t.Eval(1)
	s.Resolve([]byte("{a a b}"), yarql.ResolveOptions{NoMeta: true})
	switch string(s.Result) {
	case `{"a":1,"b":2}`:
	case `{"a":1,"a":1,"b":2}`:
		t.Known("C01-repeated-key", "selecting the same response key twice writes the key twice")
	default:
		t.Fail("unexpected response to {a a b}: "+string(s.Result), "")
	}
}

// c01big looks at responses that outgrow every buffer
func c01big(t *run.T) {
	n := 3000
	if t.Thorough() {
		n = 60000
	}
	type item struct {
		Name string
		Nums []int
		Sub  *struct{ A, B string }
	}
	st := reflect.StructOf([]reflect.StructField{{Name: "Items", Type: reflect.TypeOf([]item{})}, {Name: "Grid", Type: reflect.TypeOf([][]uint8{})}, {Name: "Flat", Type: reflect.TypeOf([]int32{})}})
	v := reflect.New(st).Elem()
	items := make([]item, n)
	for i := range items {
		items[i].Name = core.RandString(t.R)
		items[i].Nums = make([]int, t.R.Intn(5))
		for k := range items[i].Nums {
			items[i].Nums[k] = t.R.Int()
		}
		if t.R.Intn(2) == 0 {
			items[i].Sub = &struct{ A, B string }{core.RandString(t.R), "b"}
		}
	}
	v.Field(0).Set(reflect.ValueOf(items))
	grid := make([][]uint8, 300)
	for i := range grid {
		grid[i] = make([]uint8, t.R.Intn(300))
		t.R.Read(grid[i])
	}
	v.Field(1).Set(reflect.ValueOf(grid))
	flat := make([]int32, 60000+t.R.Intn(90000))
	for i := range flat {
		flat[i] = int32(t.R.Uint32())
	}
	v.Field(2).Set(reflect.ValueOf(flat))
	s := yarql.NewSchema()
	if err := s.Parse(v.Interface(), uni.M0{}, nil); err != nil {
		t.Fail("a valid schema is refused: "+err.Error(), "")
		return
	}
	text := "{items{name nums sub{b a} x:name} grid flat}"
	errs := s.Resolve([]byte(text), yarql.ResolveOptions{NoMeta: true})
	t.Eval(1)
	if len(errs) > 0 {
		t.Fail("unexpected error: "+errs[0].Error(), text)
		return
	}
	j, err := q.ParseJSON(string(s.Result))
	if err != nil {
		t.Fail("response is no JSON: "+err.Error(), text)
		return
	}
	exp := &q.J{K: 'o'}
	l := &q.J{K: 'a'}
	for _, x := range items {
		o := &q.J{K: 'o'}
		o.Set("name", &q.J{K: 's', S: x.Name})
		o.Set("nums", ints(x.Nums))
		if x.Sub == nil {
			o.Set("sub", q.Null())
		} else {
			so := &q.J{K: 'o'}
			so.Set("b", &q.J{K: 's', S: x.Sub.B})
			so.Set("a", &q.J{K: 's', S: x.Sub.A})
			o.Set("sub", so)
		}
		o.Set("x", &q.J{K: 's', S: x.Name})
		l.A = append(l.A, o)
	}
	exp.Set("items", l)
	gl := &q.J{K: 'a'}
	for _, row := range grid {
		r := make([]int, len(row))
		for i := range row {
			r[i] = int(row[i])
		}
		gl.A = append(gl.A, ints(r))
	}
	exp.Set("grid", gl)
	fl := make([]int, len(flat))
	for i, x := range flat {
		fl[i] = int(x)
	}
	exp.Set("flat", ints(fl))
	if d := q.Diff(exp, j); d != "" {
		t.Fail("data: "+d, text)
	}
	t.NonTrivial("big", n)
	t.Max("response bytes", len(s.Result))
	t.Max("list length", len(flat))
}

func ints(l []int) *q.J {
	r := &q.J{K: 'a'}
	if l == nil {
		return q.Null()
	}
	for _, x := range l {
		r.A = append(r.A, &q.J{K: 'i', S: itoa(x)})
	}
	return r
}
