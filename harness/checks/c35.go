package checks

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"mime/multipart"
	"runtime"
	"strings"

	"github.com/mjarkk/yarql"
	"vh/q"
	"vh/run"
)

func init() {
	yarql.Implements((*I35)(nil), T35{})
	add(&run.Check{
		ID:     "C35",
		Rule:   "A case serves one random mix of some 30 kinds of requests (aliases, fragments, variables, operation names, unknown fields, types and arguments, syntax errors, resolver errors and panics, context values and contexts, tracing, directives, files, HTTP and batches, introspection, deep and long documents, cached documents) in windows of thousands of requests whose names, values and error texts never repeat, on one schema, on a pool of copies, or on copies and schemas made and dropped. After every window the live heap is measured after two collections. Memory is retained if it grows by 16 bytes a request or more over a window, over a second one of twice and over a third one of four times the length. The number of goroutines must not grow and every response has to be the expected one (sampled). Non-trivial: distinct mix and mode of a completed case.",
		Assume: []string{"a leak shows as growth that goes on with the number of requests; buffers and caches that grow to the size of what they serve do not"},
		Quick:  300, Thorough: 9000, Shards: 4, CPU: 120,
		Run: c35,
	})
}

// I35 is an interface
type I35 interface{ ResolveLabel() string }

// T35 is its implementation
type T35 struct{ X int }

// ResolveLabel is a resolver
func (t T35) ResolveLabel() string { return "l" }

type e35 string

type arg35 struct {
	S *string
	N *int
	L []string
	E *e35
	F *multipart.FileHeader
	O *struct{ A, B string }
}

// Q35 is the query
type Q35 struct {
	A    int
	S    string
	L    []int
	I    I35
	Is   []I35
	E    e35
	T    T35
	Self *Q35
	Fn   func() (int, error)
	next *int
}

// ResolveEcho gives the length of what it was given
func (x Q35) ResolveEcho(a arg35) int {
	n := 0
	if a.S != nil {
		n += len(*a.S)
	}
	if a.O != nil {
		n += len(a.O.A) + len(a.O.B)
	}
	for _, s := range a.L {
		n += len(s)
	}
	return n
}

// ResolveFail fails with a new text each time
func (x Q35) ResolveFail(a struct{ S string }) (int, error) {
	return 0, errors.New("failure " + a.S)
}

// ResolveBoom panics
func (x Q35) ResolveBoom(a struct{ S string }) int { panic(panicValue{a.S}) }

// ResolveKeep stores values in the context
func (x Q35) ResolveKeep(ctx *yarql.Ctx, a struct{ S string }) string {
	ctx.SetValue(a.S, strings.Repeat("v", 200))
	ctx.SetContext(context.WithValue(ctx.GetContext(), pathKey35{}, a.S))
	return string(ctx.GetPath())
}

type pathKey35 struct{}

// M35 is the mutation
type M35 struct{ A int }

func schema35() (*yarql.Schema, error) {
	s := yarql.NewSchema()
	if _, err := s.RegisterEnum(map[string]e35{"ONE": "1", "TWO": "2"}); err != nil {
		return nil, err
	}
	err := s.RegisterDirective(yarql.Directive{Name: "mark", Where: []yarql.DirectiveLocation{yarql.DirectiveLocationField, yarql.DirectiveLocationFragment, yarql.DirectiveLocationFragmentInline}, Method: func(a struct{ S *string }) yarql.DirectiveModifier {
		return yarql.DirectiveModifier{}
	}})
	if err != nil {
		return nil, err
	}
	root := Q35{A: 1, S: "s", L: []int{1, 2, 3}, I: T35{4}, Is: []I35{T35{5}, nil}, E: "2", Fn: func() (int, error) { return 3, nil }}
	self := root
	self.Self = &root
	root.Self = &self
	return s, s.Parse(root, M35{2}, nil)
}

// req35 is a request and what it has to give, if that is known
type req35 struct {
	text, op, vars string
	http           string
	tracing        bool
	ctx            context.Context
	values         *map[string]interface{}
	files          func(string) (*multipart.FileHeader, error)
	want           string
	errs           bool
}

var kinds35 = []struct {
	name string
	make func(id string, n int) req35
}{
	{"aliases", func(id string, n int) req35 { return req35{text: "{" + id + ":a}", want: `{"` + id + `":1}`} }},
	{"operation names", func(id string, n int) req35 {
		return req35{text: "query x" + id + "{a} query " + id + "{s}", op: id, want: `{"s":"s"}`}
	}},
	{"missing operations", func(id string, n int) req35 { return req35{text: "query a{a}", op: id, errs: true} }},
	{"fragments", func(id string, n int) req35 {
		return req35{text: "{..." + id + " self{..." + id + "}}fragment " + id + " on Q35{a ...{s}}", errs: true}
	}},
	{"named fragments", func(id string, n int) req35 {
		return req35{text: "{self{..." + id + "}}fragment " + id + " on Q35{a}", want: `{"self":{"a":1}}`}
	}},
	{"unknown conditions", func(id string, n int) req35 { return req35{text: "{a ...on T" + id + "{s}}", want: `{"a":1}`} }},
	{"variables", func(id string, n int) req35 {
		return req35{text: "query($" + id + ":String){echo(s:$" + id + ")}", vars: `{"` + id + `":"` + id + `"}`, want: fmt.Sprintf(`{"echo":%d}`, len(id))}
	}},
	{"extra variables", func(id string, n int) req35 {
		return req35{text: "query($v:[String!]){echo(l:$v)}", vars: `{"v":["` + id + `","` + id + `"],"` + id + `":{"x":["` + id + `"]}}`, want: fmt.Sprintf(`{"echo":%d}`, 2*len(id))}
	}},
	{"bad variables", func(id string, n int) req35 {
		return req35{text: "query($v:Int){echo(n:$v)}", vars: `{"v":"` + id + `"}`, errs: true}
	}},
	{"broken variables", func(id string, n int) req35 {
		return req35{text: "query($v:Int){echo(n:$v)}", vars: `{"` + id + `":[`, errs: true}
	}},
	{"literals", func(id string, n int) req35 {
		return req35{text: `{echo(s:"` + id + `",o:{a:"` + id + `",b:"x"},e:ONE)}`, want: fmt.Sprintf(`{"echo":%d}`, 2*len(id)+1)}
	}},
	{"unknown fields", func(id string, n int) req35 { return req35{text: "{" + id + "}", errs: true} }},
	{"unknown arguments", func(id string, n int) req35 { return req35{text: "{echo(" + id + ":1)}", errs: true} }},
	{"unknown types", func(id string, n int) req35 {
		return req35{text: `{__type(name:"` + id + `"){name}}`, want: `{"__type":null}`}
	}},
	{"unknown enum keys", func(id string, n int) req35 { return req35{text: "{echo(e:" + id + ")}", errs: true} }},
	{"unknown directives", func(id string, n int) req35 { return req35{text: "{a @" + id + "}", errs: true} }},
	{"directives", func(id string, n int) req35 {
		return req35{text: `{a @mark(s:"` + id + `") @skip(if:false) self @include(if:false){a}}`, want: `{"a":1}`}
	}},
	{"syntax errors", func(id string, n int) req35 { return req35{text: "{a " + id + "(", errs: true} }},
	{"resolver errors", func(id string, n int) req35 {
		return req35{text: `{fail(s:"` + id + `") self{fail(s:"` + id + `")}}`, errs: true}
	}},
	{"panics", func(id string, n int) req35 { return req35{text: `{self{boom(s:"` + id + `")}}`} }},
	{"context values", func(id string, n int) req35 {
		v := map[string]interface{}{"of " + id: id}
		return req35{text: `{` + id + `:keep(s:"` + id + `")}`, ctx: context.Background(), values: &v}
	}},
	{"tracing", func(id string, n int) req35 {
		return req35{text: `{` + id + `:a self{` + id + `:s l}}`, tracing: true}
	}},
	{"files", func(id string, n int) req35 {
		return req35{text: `{echo(f:"` + id + `")}`, files: func(k string) (*multipart.FileHeader, error) {
			return &multipart.FileHeader{Filename: k, Header: map[string][]string{k: {id}}}, nil
		}, want: `{"echo":0}`}
	}},
	{"HTTP", func(id string, n int) req35 {
		return req35{http: `{"query":` + q.Quote("query "+id+"{"+id+":a}") + `,"operationName":"` + id + `","variables":{"` + id + `":1}}`}
	}},
	{"batches", func(id string, n int) req35 {
		return req35{http: `[{"query":"{` + id + `:a}"},{"query":"{fail(s:\"` + id + `\")}"},{"x` + id + `":1}]`}
	}},
	{"introspection", func(id string, n int) req35 {
		if n%16 != 0 {
			return req35{text: `{__type(name:"Q35"){` + id + `:name fields{name}}}`}
		}
		return req35{text: strings.Replace(introspection, "queryType", id+":queryType", 1)}
	}},
	{"deep documents", func(id string, n int) req35 {
		k := n % 60
		return req35{text: strings.Repeat("{self", k) + "{" + id + ":a}" + strings.Repeat("}", k)}
	}},
	{"lists", func(id string, n int) req35 {
		return req35{text: "{is{" + id + ":label ...on T35{" + id + "x:x}}l}"}
	}},
	{"cacheable documents that never repeat", func(id string, n int) req35 {
		return req35{text: fmt.Sprintf("{%s:a%s}", id, strings.Repeat(" s", 200+n%3)), want: ""}
	}},
	{"cacheable documents with operation names", func(id string, n int) req35 {
		op := pick(rand.New(rand.NewSource(int64(n))), "A", "B", "longName")
		return req35{text: fmt.Sprintf("query A{%s:a}query B{b%s:a%s}mutation longName{m}", id, id, strings.Repeat(" s", 200+n%2)), op: op}
	}},
	{"cacheable documents of many lengths", func(id string, n int) req35 {
		return req35{text: fmt.Sprintf("fragment F on Q35{f%s:a}{%s:a ...F%s}", id, id, strings.Repeat(" s", 150+n%317))}
	}},
	{"cached documents", func(id string, n int) req35 {
		return req35{text: fmt.Sprintf("{a%d:a%s}", n%5, strings.Repeat(" s", 200)), op: ""}
	}},
}

func c35(t *run.T) {
	r := t.R
	orig, err := schema35()
	if err != nil {
		t.Fail("a valid schema is refused", err.Error())
		return
	}
	min := 1 << 30
	mode := pick(r, "one schema", "one schema", "one schema", "pool of copies", "copies made and dropped", "schemas made and dropped", "one copy")
	var mix []int
	if chance(r, 3) {
		mix = r.Perm(len(kinds35))[:2+r.Intn(6)]
	} else {
		mix = []int{(t.Case + r.Intn(2)*7) % len(kinds35)}
	}
	for _, k := range mix {
		if strings.HasPrefix(kinds35[k].name, "cache") {
			min = 300
		}
	}
	orig.SetCacheRules(&min)
	per := 250
	pool := []*yarql.Schema{orig}
	switch mode {
	case "one copy":
		pool[0] = orig.Copy()
	case "pool of copies":
		for i := 0; i < 4; i++ {
			pool = append(pool, orig.Copy())
		}
	case "copies made and dropped":
		per = 60
	case "schemas made and dropped":
		per = 15
	}
	count := 0
	bad := ""
	one := func() {
		count++
		kd := kinds35[mix[count%len(mix)]]
		id := fmt.Sprintf("n%09dx%d", count, t.Case)
		rq := kd.make(id, count)
		s := pool[count%len(pool)]
		switch mode {
		case "copies made and dropped":
			s = orig.Copy()
		case "schemas made and dropped":
			var err error
			if s, err = schema35(); err != nil {
				bad = "a valid schema is refused: " + err.Error()
				return
			}
			s.SetCacheRules(&min)
		}
		var raw string
		var errs []error
		p := func() (p interface{}) {
			defer func() { p = recover() }()
			if rq.http != "" {
				res, es := s.HandleRequest("POST", func(string) string { return "" }, nil, func() []byte { return []byte(rq.http) }, "application/json", nil)
				raw, errs = string(res), es
				return
			}
			errs = s.Resolve([]byte(rq.text), yarql.ResolveOptions{NoMeta: rq.want != "", OperatorTarget: rq.op, Variables: rq.vars, Tracing: rq.tracing, Context: rq.ctx, Values: rq.values, GetFormFile: rq.files})
			raw = string(s.Result)
			return
		}()
		_, boom := p.(panicValue)
		switch {
		case p != nil && !boom || boom != (kd.name == "panics"):
			bad = fmt.Sprintf("%s: panic %v", kd.name, p)
		case rq.want != "" && (raw != rq.want || len(errs) > 0):
			bad = fmt.Sprintf("%s: %q gives %s %v, want %s", kd.name, rq.text, raw, errs, rq.want)
		case rq.errs && len(errs) == 0:
			bad = fmt.Sprintf("%s: %q gives no error: %s", kd.name, rq.text, raw)
		}
	}
	per *= 16
	for i := 0; i < per/8; i++ {
		one()
	}
	gor := runtime.NumGoroutine()
	before := heap()
	grown := 0 // windows in a row
	for ; grown < 3; grown++ {
		for i := 0; i < per; i++ {
			one()
		}
		t.Count("windows measured", 1)
		if bad != "" {
			t.Fail("a request gives something else than at first", mode+"\n"+bad)
			return
		}
		now := heap()
		if now-before < 16*per {
			break
		}
		if grown == 2 {
			var l []string
			for _, k := range mix {
				l = append(l, kinds35[k].name)
			}
			t.Fail(fmt.Sprintf("memory is retained: %d bytes per request, %s", (now-before)/per, mode), strings.Join(l, ", "))
			return
		}
		before = now
		per *= 2
	}
	t.Max("windows with growth in a row", grown)
	if n := runtime.NumGoroutine(); n > gor {
		runtime.Gosched()
		if n = runtime.NumGoroutine(); n > gor {
			t.Fail(fmt.Sprintf("goroutines are left: %d after, %d before", n, gor), mode)
			return
		}
	}
	runtime.KeepAlive(pool)
	runtime.KeepAlive(orig)
	t.Eval(count)
	t.Count("requests", count)
	t.Count("mode: "+mode, 1)
	for _, k := range mix {
		t.Count("kind: "+kinds35[k].name, 1)
	}
	t.NonTrivial(mode, fmt.Sprint(mix))
	if t.WantSample() {
		t.Sample("%s, %v: %d requests", mode, mix, count)
	}
}
