package checks

import (
	"errors"
	"fmt"
	"mime/multipart"
	"reflect"
	"strings"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/q"
	"vh/run"
	"vh/uni"
)

func init() {
	add(&run.Check{
		ID:     "C07",
		Rule:   "Built with the race detector, which also turns on the pointer checks of package unsafe. A case is a schema and two copies that serve up to 60 requests (valid, failing, damaged, HTTP, batches, cached) whose query and body buffers the caller reuses. Everything handed out is kept: arguments of functions and directives, paths from the request context, form keys, errors, error slices. After every few requests all of it is rendered again and has to look as it did when received, and each valid response has to be what the reference interpreter says. Every 25th case keeps arguments with lists of up to 300 items, objects and pointers over requests of changing sizes and compares all of them with what was sent. Non-trivial: distinct kept value rechecked.",
		Assume: []string{"Schema.Result is documented as reused and is not part of this"},
		Quick:  700, Thorough: 14000, CPU: 120,
		Run: c07,
	})
}

type keptThing struct {
	what string
	now  func() string
	then string
}

func c07(t *run.T) {
	r := t.R
	if t.Case%25 == 7 {
		c07big(t)
		return
	}
	var c *core.Case
	if chance(r, 3) {
		c = newCase(t, core.CaseOpt{BadUTF: true, Budget: 300})
	} else {
		c = argCase(t, 1+r.Intn(4), 1+r.Intn(6), false)
	}
	if c == nil {
		return
	}
	if chance(r, 2) {
		n := r.Intn(100)
		c.S.SetCacheRules(&n)
	}
	schemas := []*yarql.Schema{c.S, c.S.Copy()}
	schemas = append(schemas, schemas[1].Copy())
	// some resolvers overwrite what their arguments point to, it is theirs
	scribble := chance(r, 4)
	parts := core.PAll
	if scribble {
		parts = core.PLog
	}
	c.W.Retain = !scribble
	c.W.FailMod = 6
	var kept []keptThing
	keep := func(what string, now func() string) {
		if len(kept) < 4000 {
			kept = append(kept, keptThing{what, now, now()})
		}
	}
	// maps and values seen by resolvers through the request context
	c.W.Hook = func(fn string, uid int64, ctx *yarql.Ctx, args interface{}) error {
		if scribble && c.W.Oracle == nil {
			overwrite(reflect.ValueOf(args), 0)
			t.Count("arguments overwritten by their receiver", 1)
		}
		if ctx == nil {
			return nil
		}
		p := ctx.GetPath()
		ctx.SetValue(fn, string(p))
		return nil
	}
	opt := core.DefaultOpt()
	opt.FieldP = 75
	opt.VarP = 40
	g := core.NewGen(c, r, opt)
	pool := []*core.Request{g.Request(), g.Request(), g.Request()}
	buf := make([]byte, 0, 1<<16)
	recheck := func(at string) bool {
		for _, k := range kept {
			t.Eval(1)
			if now := k.now(); now != k.then {
				t.Fail("changed after later requests: "+k.what, fmt.Sprintf("%s\nwhen received: %q\nlater:         %q\nafter %s", k.what, k.then, now, at))
				return false
			}
		}
		for _, k := range c.W.Kept {
			t.Eval(1)
			var now string
			if p, ok := k.Val.([]byte); ok {
				now = string(p)
			} else if reflect.TypeOf(k.Val).Kind() == reflect.Slice && reflect.TypeOf(k.Val).Elem().Kind() == reflect.Uint8 {
				now = string(reflect.ValueOf(k.Val).Bytes())
			} else {
				now = uni.Canon(reflect.ValueOf(k.Val))
			}
			if now != k.Then {
				t.Fail("changed after later requests: "+k.What, fmt.Sprintf("%s\nwhen received: %q\nlater:         %q\nafter %s", k.What, k.Then, now, at))
				return false
			}
		}
		return true
	}
	n := 20 + r.Intn(40)
	for i := 0; i < n; i++ {
		s := schemas[r.Intn(3)]
		rq := pool[r.Intn(len(pool))]
		if chance(r, 3) {
			rq = g.Request()
			pool[r.Intn(len(pool))] = rq
		}
		c.W.FailSeed = r.Uint64()
		at := rq.Text
		switch r.Intn(4) {
		case 0, 1:
			e := c.Interpret(rq)
			values := map[string]interface{}{"own": i}
			o := rq.Options()
			o.Values = &values
			o.Tracing = chance(r, 5)
			var keys []string
			get := o.GetFormFile
			if get != nil {
				o.GetFormFile = func(key string) (*multipart.FileHeader, error) {
					keys = append(keys, key)
					return get(key)
				}
			}
			// the caller's buffer is reused for the next request
			buf = append(buf[:0], rq.Text...)
			c.W.Log = nil
			errs := s.Resolve(buf, o)
			if string(buf) != rq.Text {
				t.Fail("the query given by the caller is changed", rq.Text+"\n"+string(buf))
				return
			}
			resp := &core.Response{Raw: string(s.Result), Log: append([]uni.Call{}, c.W.Log...)}
			for _, e := range errs {
				resp.GoErr = append(resp.GoErr, e.Error())
			}
			resp.Envelope(false, o.Tracing)
			observe(t, rq, e)
			if d := e.Judge(resp, parts); d != "" {
				t.Fail(d, describe(rq, resp))
				return
			}
			errs = errs[:len(errs):len(errs)]
			keep("errors of a request", func() string { return fmt.Sprintf("%#v %v", errs, errs) })
			for _, er := range errs {
				er := er
				keep("an error", func() string { return fmt.Sprintf("%#v %s", er, er.Error()) })
			}
			for _, k := range keys {
				k := k
				keep("a form key", func() string { return k })
			}
			keep("values of a request", func() string { return fmt.Sprint(values) })
			for k := range buf {
				buf[k] = byte(r.Intn(256))
			}
		case 2:
			h := makeHostile(t, c, g, rq)
			at = h.text
			var errs []error
			body := []byte(h.body)
			if chance(r, 2) {
				query := func(k string) string {
					return map[string]string{"query": h.text, "variables": h.vars, "operationName": h.op}[k]
				}
				_, errs = s.HandleRequest(h.method, query, func(k string) (string, error) { return string(body), errors.New("no form") }, func() []byte { return body }, h.ctype, &yarql.RequestOptions{GetFormFile: rq.Files.Get})
			} else {
				body = []byte(h.text)
				errs = s.Resolve(body, yarql.ResolveOptions{OperatorTarget: h.op, Variables: h.vars, GetFormFile: rq.Files.Get, NoMeta: chance(r, 2)})
			}
			t.Count("hostile requests", 1)
			for k := range body {
				body[k] = 'Z'
			}
			keep("errors of a damaged request", func() string { return fmt.Sprintf("%#v %v", errs, errs) })
		case 3:
			item := `{"query":` + q.Quote(rq.Text) + `,"operationName":` + q.Quote(rq.OpName) + `,"variables":` + orNull(rq.Vars) + `}`
			var l []string
			for k := 0; k < 1+r.Intn(3); k++ {
				l = append(l, item)
			}
			body := []byte(item)
			if chance(r, 2) {
				body = []byte("[" + strings.Join(l, ",") + "]")
			}
			res, errs := s.HandleRequest("POST", nil, nil, func() []byte { return body }, "application/json", &yarql.RequestOptions{GetFormFile: rq.Files.Get, Tracing: chance(r, 4)})
			for k := range body {
				body[k] = '#'
			}
			_ = res
			t.Count("HTTP requests", 1)
			t.Eval(1)
			keep("errors of an HTTP request", func() string { return fmt.Sprintf("%#v %v", errs, errs) })
		}
		if len(c.W.Kept) > 6000 {
			c.W.Kept = c.W.Kept[:6000]
		}
		if i%7 == 6 || i == n-1 {
			if !recheck(at) {
				return
			}
			t.Count("rechecks of everything kept", 1)
		}
	}
	for _, k := range c.W.Kept {
		t.NonTrivial(k.What, k.Then)
	}
	for _, k := range kept {
		t.NonTrivial(k.what, k.then)
	}
	t.Count("values kept", len(c.W.Kept)+len(kept))
	if len(c.W.Kept) > 0 {
		t.Sample("%d requests, %d values kept, e.g. %s: %s", n, len(c.W.Kept)+len(kept), c.W.Kept[0].What, c.W.Kept[0].Then)
	}
}

// overwrite clears what v points to
func overwrite(v reflect.Value, depth int) {
	if !v.IsValid() || depth > 20 {
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		if v.Type() == tTime {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				overwrite(v.Field(i), depth+1)
			}
		}
	case reflect.Ptr:
		if !v.IsNil() && v.Type() != tFile {
			overwrite(v.Elem(), depth+1)
			v.Elem().Set(reflect.Zero(v.Type().Elem()))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			overwrite(v.Index(i), depth+1)
			v.Index(i).Set(reflect.Zero(v.Type().Elem()))
		}
	}
}
