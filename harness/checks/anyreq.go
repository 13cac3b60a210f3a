package checks

import (
	"context"
	"errors"
	"fmt"
	"mime/multipart"
	"strings"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/q"
	"vh/run"
	"vh/uni"
)

// introspection is the query the usual tools send
const introspection = `query IntrospectionQuery{__schema{queryType{name}mutationType{name}subscriptionType{name}types{...FullType}directives{name description locations args{...InputValue}}}}
fragment FullType on __Type{kind name description fields(includeDeprecated:true){name description args{...InputValue}type{...TypeRef}isDeprecated deprecationReason}inputFields{...InputValue}interfaces{...TypeRef}enumValues(includeDeprecated:true){name description isDeprecated deprecationReason}possibleTypes{...TypeRef}}
fragment InputValue on __InputValue{name description type{...TypeRef}defaultValue}
fragment TypeRef on __Type{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name}}}}}}}}`

// anyReq is a request of any kind
type anyReq struct {
	kind    string
	h       hostile
	files   func(string) (*multipart.FileHeader, error)
	tracing bool
	noMeta  bool
	http    bool
	ended   bool
	values  bool
	panicAt int                            // which call of a resolver panics, 0 = none
	nest    func(call int, ctx *yarql.Ctx) // run inside of every resolver
	rq      *core.Request
}

func (a *anyReq) String() string {
	return fmt.Sprintf("%s: %q operation %q variables %q tracing %v noMeta %v http %v ended %v values %v panicAt %d body %q content type %q", a.kind, a.h.text, a.h.op, a.h.vars, a.tracing, a.noMeta, a.http, a.ended, a.values, a.panicAt, a.h.body, a.h.ctype)
}

// anyRequest makes a request of any kind
func anyRequest(t *run.T, c *core.Case, g *core.Gen, pool []*core.Request) *anyReq {
	r := t.R
	rq := pool[r.Intn(len(pool))]
	a := &anyReq{kind: "valid", rq: rq, files: rq.Files.Get, tracing: chance(r, 6), noMeta: chance(r, 8), values: chance(r, 4), ended: chance(r, 12)}
	a.h = hostile{text: rq.Text, op: rq.OpName, vars: rq.Vars, method: "POST", ctype: "application/json"}
	switch r.Intn(10) {
	case 0, 1, 2:
		a.h = makeHostile(t, c, g, rq)
		a.kind = a.h.kind
	case 3:
		a.kind = "introspection"
		a.h.op, a.h.vars = "", ""
		switch r.Intn(4) {
		case 0:
			a.h.text = introspection
		case 1:
			a.h.text = `{__type(name:"` + pick(r, c.QName, c.MName, "I0", "S0", "InRec", "EColor", "Int", "Time", "nope", "__Type") + `"){kind name fields{name args{name type{name kind ofType{name}}}type{name kind ofType{name kind ofType{name}}}}possibleTypes{name}interfaces{name}inputFields{name type{name}}enumValues{name}}}`
		case 2:
			a.h.text = `{__schema{directives{name description locations args{name defaultValue type{name kind}}}queryType{name}mutationType{name}}}`
		case 3:
			a.h.text = `query($n:String){__type(name:$n){name kind fields{name}}}`
			a.h.vars = `{"n":` + q.Quote(pick(r, c.QName, "I1", "S3", "x")) + `}`
		}
	case 4:
		a.kind = "panicking"
		a.panicAt = 1 + r.Intn(4)
	case 5:
		a.kind = "without variables"
		a.h.vars = pick(r, "", "{}", "null", "[]", `{"a":1}`)
	case 6:
		a.kind = "other operation"
		a.h.op = pick(r, "", "Q", "a", "nope")
	}
	if chance(r, 4) {
		a.http = true
		body := `{"query":` + q.Quote(a.h.text) + `,"operationName":` + q.Quote(a.h.op) + `,"variables":` + orNull(a.h.vars) + `}`
		switch r.Intn(3) {
		case 0:
			body = "[" + body + "," + body + "]"
			a.kind += ", batch"
		default:
			a.kind += ", HTTP"
		}
		if a.h.kind == "damaged body" {
			body = a.h.body
		}
		a.h.body = body
	}
	return a
}

// run executes the request on s and returns everything that can be seen of it
func (a *anyReq) run(c *core.Case, s *yarql.Schema, log bool) (out string) {
	calls := 0
	if log {
		c.W.Log = nil
		saved := c.W.Hook
		c.W.Hook = func(fn string, uid int64, ctx *yarql.Ctx, args interface{}) error {
			calls++
			if a.nest != nil {
				a.nest(calls, ctx)
			}
			if a.panicAt > 0 && calls == a.panicAt {
				panic(panicValue{"resolver panics"})
			}
			if ctx != nil {
				v, ok := ctx.GetValueOk("set")
				c.W.Log = append(c.W.Log, uni.Call{Fn: "seen", Args: fmt.Sprint(v, ok, ctx.GetContext() == nil)})
				ctx.SetValue("set", calls)
			}
			return nil
		}
		defer func() { c.W.Hook = saved }()
	}
	var raw string
	var errs []error
	p := func() (p interface{}) {
		defer func() { p = recover() }()
		var values *map[string]interface{}
		if a.values {
			values = &map[string]interface{}{"set": "by the caller"}
		}
		var ctx context.Context
		if a.ended {
			ctx = &doneCtx{context.Background(), errors.New("the context has ended"), nil}
		}
		if a.http {
			query := func(k string) string {
				return map[string]string{"query": a.h.text, "variables": a.h.vars, "operationName": a.h.op}[k]
			}
			opts := &yarql.RequestOptions{Context: ctx, GetFormFile: a.files, Tracing: a.tracing}
			if values != nil {
				opts.Values = *values
			}
			if !a.values && !a.tracing && ctx == nil {
				opts = nil
			}
			res, es := s.HandleRequest(a.h.method, query, func(string) (string, error) { return a.h.body, nil }, func() []byte { return []byte(a.h.body) }, a.h.ctype, opts)
			raw, errs = string(res), es
			return
		}
		errs = s.Resolve([]byte(a.h.text), yarql.ResolveOptions{OperatorTarget: a.h.op, Variables: a.h.vars, NoMeta: a.noMeta, Tracing: a.tracing, Context: ctx, Values: values, GetFormFile: a.files})
		raw = string(s.Result)
		return
	}()
	var b strings.Builder
	if p != nil {
		if _, ok := p.(panicValue); !ok {
			fmt.Fprintf(&b, "PANIC %v\n", p)
		} else {
			b.WriteString("the resolver panics\n")
		}
	} else {
		b.WriteString(untimed(raw))
		for _, e := range errs {
			fmt.Fprintf(&b, "\nerror: %v", e)
		}
	}
	if log {
		for _, l := range c.W.Log {
			b.WriteString("\n" + l.String())
		}
	}
	return b.String()
}

// untimed removes what depends on the time from a response
func untimed(raw string) string {
	if !strings.Contains(raw, `"tracing"`) {
		return raw
	}
	j, err := q.ParseJSON(raw)
	if err != nil {
		return raw
	}
	strip := func(o *q.J) {
		tr := o.Get("extensions").Get("tracing")
		if tr == nil {
			return
		}
		for _, k := range []string{"startTime", "endTime"} {
			if x := tr.Get(k); x != nil {
				*x = q.J{K: 's'}
			}
		}
		var walk func(x *q.J)
		walk = func(x *q.J) {
			if x == nil {
				return
			}
			for i, k := range x.Keys {
				if k == "startOffset" || k == "duration" {
					x.A[i] = &q.J{K: 'd', S: "0"}
				}
			}
			for _, y := range x.A {
				walk(y)
			}
		}
		walk(tr)
	}
	if j.K == 'a' {
		for _, o := range j.A {
			strip(o)
		}
	} else {
		strip(j)
	}
	return j.Text()
}
