package checks

import (
	"context"
	"errors"
	"fmt"
	"mime/multipart"
	"strconv"
	"strings"
	"syscall"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/q"
	"vh/run"
	"vh/uni"
)

func init() {
	add(&run.Check{
		ID:     "C02",
		Rule:   "A case is a random schema that is sent hostile requests: damaged copies of valid documents, token soup, random bytes, deep nesting, damaged variables and operation names, damaged HTTP bodies, short pieces repeated to documents of up to 150 kB (which have to be done within 4 s of CPU time), panicking resolvers, failing lookups. Each has to return; panics are caught by the monitor, crashes, hangs (CPU time) and runaway memory by the parent process. Every few requests a well-formed one has to be answered as the reference interpreter says. Non-trivial: distinct hostile text.",
		Assume: []string{"nesting up to 20000 levels", "documents up to 200 kB", "a request that takes over 60 s of CPU time counts as hanging"},
		Quick:  3000, Thorough: 70000, CPU: 60,
		Run: c02,
	})
}

type hostile struct {
	text, op, vars, body, ctype, method string
	kind                                string
}

func (h hostile) String() string {
	return fmt.Sprintf("kind: %s\nquery: %q\noperation: %q\nvariables: %q\nmethod: %s, content type: %s\nbody: %q", h.kind, h.text, h.op, h.vars, h.method, h.ctype, h.body)
}

func makeHostile(t *run.T, c *core.Case, g *core.Gen, last *core.Request) hostile {
	r := t.R
	h := hostile{op: last.OpName, vars: last.Vars, text: last.Text, ctype: "application/json", method: "POST"}
	switch r.Intn(12) {
	case 0, 1, 2, 3:
		h.kind = "damaged document"
		h.text = core.Mutate(r, h.text)
	case 4:
		h.kind = "tokens"
		h.text = core.Tokens(r)
	case 5:
		h.kind = "random bytes"
		b := make([]byte, r.Intn(80))
		r.Read(b)
		h.text = string(b)
	case 6:
		if chance(r, 3) {
			n := []int{5, 50, 254, 255, 256, 257, 300, 1000}[r.Intn(8)]
			if chance(r, 30) {
				n = []int{5000, 20000, 65536}[r.Intn(3)]
			}
			h.kind = "nested document"
			h.text = core.Nested(r, n)
		} else {
			h.kind = "nested schema document"
			h.text = nestedFor(t, c)
		}
	case 7:
		h.kind = "damaged variables"
		h.vars = core.BadJSON(r, h.vars)
	case 8:
		h.kind = "damaged operation name"
		h.op = []string{"", "x", core.RandString(r), core.RandBytesString(r), strings.Repeat("a", 300), "\x00", "e"}[r.Intn(7)]
	case 9:
		h.kind = "splice"
		other := g.Request().Text
		i, k := r.Intn(len(h.text)+1), r.Intn(len(other)+1)
		h.text = h.text[:i] + other[k:]
	case 10:
		h.kind = "prefix"
		h.text = h.text[:r.Intn(len(h.text)+1)]
	case 11:
		h.kind = "damaged body"
	}
	h.body = `{"query":` + q.Quote(h.text) + `,"operationName":` + q.Quote(h.op) + `,"variables":` + orNull(h.vars) + `}`
	if h.kind == "damaged body" {
		if chance(r, 2) {
			h.body = "[" + h.body + "," + h.body + "]"
		}
		h.body = core.BadJSON(r, h.body)
	}
	h.ctype = pick(r, "application/json", "application/json", "text/plain", "multipart/form-data", "", "x/y")
	h.method = pick(r, "POST", "POST", "GET", "post", "", "PUT")
	return h
}

func orNull(s string) string {
	if s == "" {
		return "null"
	}
	return s
}

// nestedFor makes a document that nests real fields of the schema
func nestedFor(t *run.T, c *core.Case) string {
	var b strings.Builder
	o := c.QObj
	n := 1 + t.R.Intn(400)
	depth := 0
	b.WriteString("{")
	for i := 0; i < n; i++ {
		var next *core.Field
		for _, k := range t.R.Perm(len(o.Fields)) {
			f := o.Fields[k]
			if c.M.Leaf(f.Out) != nil {
				next = f
				break
			}
		}
		if next == nil {
			break
		}
		b.WriteString(next.Name)
		b.WriteString("{")
		depth++
		o = c.M.Leaf(next.Out)
		if chance(t.R, 4) && o.Name != "" {
			b.WriteString("...on " + o.Name + "{")
			depth++
		}
	}
	b.WriteString("__typename")
	for i := 0; i <= depth; i++ {
		b.WriteString("}")
	}
	return b.String()
}

type panicValue struct{ s string }

type scaleO struct {
	B string
	O *scaleO
}

type scaleQ struct {
	A string
	O *scaleO
}

type scaleArgs struct {
	X []string
	E []uni.EColor
	I []int
	S string
	O *struct {
		S []string
		O []struct{ S string }
	}
}

func (scaleQ) ResolveF(a scaleArgs) string { return strconv.Itoa(len(a.X)) }

var scaleTokens = strings.Split("a|b|o|f|x|...|on|...on|scaleO|@skip|@x|@include(if:true)|(|)|{|}|[|]|:|$|$v|!|=|\"s\"|\"|\"\"\"|1|-1.5e3|.|-|true|fx|tx|nx|fals|nul|RED|null|query|mutation|q|fragment|#c|\n|,|\\|\\u12|%|\x00|{a}|{a:1}|a(|x:|S:|S:\"s\"|o{", "|")
var scalePrefix = strings.Split("||{|{a(x:[|query q(|query q($v:[|query q($v:[String]=[|{f(x:[|{f(e:[|{f(i:[|{f(o:{|{f(o:{S:[|{o|{o{|{f(s:\"|{f(s:\"\"\"|fragment a on b {|{...on scaleQ{|{a @x(|{a @skip(if:[|{a @x|query|fragment|{a:|...|#", "|")

// c02scale repeats short pieces to large documents, which have to be handled
// in a time that does not explode with their length
func c02scale(t *run.T) {
	r := t.R
	s := yarql.NewSchema()
	s.RegisterEnum(uni.EnumMaps[0])
	s.Parse(scaleQ{A: "a", O: &scaleO{B: "b"}}, uni.M0{}, nil)
	if chance(r, 2) {
		n := r.Intn(400)
		s.SetCacheRules(&n)
	}
	for i := 0; i < 40; i++ {
		unit := ""
		for n := 1 + r.Intn(6); n > 0; n-- {
			unit += scaleTokens[r.Intn(len(scaleTokens))]
			if chance(r, 2) {
				unit += " "
			}
		}
		size := 20000 + r.Intn(130000)
		rep := strings.Repeat(unit, 1+size/len(unit))
		text := scalePrefix[r.Intn(len(scalePrefix))] + rep
		for n := r.Intn(4); n > 0; n-- {
			text += pick(r, "]", ")", "}", "\"", "{", "{a}", " ")
		}
		vars, kind := "", "repeated piece"
		if chance(r, 5) {
			kind = "repeated piece in variables"
			text = "query q($v:[String]){f(x:$v)}"
			vars = pick(r, "{", "[", "{\"v\":[", "{\"v\":\"", "{\"v\":", "") + rep + pick(r, "", "]}", "}", "\"}")
		}
		t.Eval(1)
		t.Count("hostile: "+kind, 1)
		t.NonTrivial(text, vars)
		before := cpuTime()
		done := make(chan string, 1)
		func() {
			defer func() {
				if p := recover(); p != nil {
					done <- fmt.Sprintf("panic: %v", p)
				}
			}()
			errs := s.Resolve([]byte(text), yarql.ResolveOptions{Variables: vars})
			if len(errs) > 0 {
				t.Count("hostile requests rejected", 1)
			} else {
				t.Count("hostile requests accepted", 1)
			}
			done <- ""
		}()
		bad := <-done
		took := cpuTime() - before
		t.Max("milliseconds of CPU time for a large hostile document", int(took*1000))
		if bad == "" && took > 4 {
			bad = fmt.Sprintf("a document of %d bytes took %.1f s of CPU time", len(text)+len(vars), took)
		}
		if bad != "" {
			t.Fail(bad, fmt.Sprintf("unit %q repeated\nquery: %s\nvariables: %s", unit, clipText(text), clipText(vars)))
			return
		}
	}
}

func clipText(s string) string {
	if len(s) > 400 {
		return fmt.Sprintf("%q ... (%d bytes) ... %q", s[:300], len(s), s[len(s)-60:])
	}
	return fmt.Sprintf("%q", s)
}

// cpuTime is the CPU time this process used
func cpuTime() float64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

func c02(t *run.T) {
	if t.Case%20 == 7 {
		c02scale(t)
		return
	}
	c := newCase(t, core.CaseOpt{BadUTF: true})
	if c == nil {
		return
	}
	if chance(t.R, 2) {
		n := t.R.Intn(400)
		c.S.SetCacheRules(&n)
	}
	if chance(t.R, 4) {
		c.S.MaxDepth = uint8(1 + t.R.Intn(255))
	}
	g := core.NewGen(c, t.R, core.DefaultOpt())
	good := g.Request()
	depth := int(c.S.MaxDepth)
	for i := 0; i < 40; i++ {
		if chance(t.R, 5) {
			good = g.Request()
		}
		h := makeHostile(t, c, g, good)
		panics := 0
		if chance(t.R, 4) {
			mod := 1 + t.R.Intn(6)
			if chance(t.R, 2) {
				h.text, h.op, h.vars = good.Text, good.OpName, good.Vars
			}
			c.W.Hook = func(fn string, uid int64, ctx *yarql.Ctx, args interface{}) error {
				if panics == 0 && t.R.Intn(mod) == 0 {
					panics++
					panic(panicValue{"resolver panics"})
				}
				return nil
			}
		}
		http := chance(t.R, 3) || h.kind == "damaged body"
		t.Eval(1)
		t.Count("hostile: "+h.kind, 1)
		t.NonTrivial(h.text, h.vars, h.op, http, h.body)
		bad := func() (bad string) {
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(panicValue); ok {
						t.Count("panics of resolvers", 1)
						return
					}
					bad = fmt.Sprintf("panic: %v", p)
				}
			}()
			lookup := func(key string) (*multipart.FileHeader, error) {
				if len(key)%2 == 0 {
					return nil, errors.New("no such file")
				}
				return &multipart.FileHeader{}, nil
			}
			var errs []error
			var res []byte
			if http {
				form := func(key string) (string, error) {
					if key != "operations" {
						return "", errors.New("no such field")
					}
					if len(h.body)%7 == 0 {
						return "", errors.New("no such form")
					}
					return h.body, nil
				}
				query := func(key string) string {
					return map[string]string{"query": h.text, "variables": h.vars, "operationName": h.op}[key]
				}
				var opts *yarql.RequestOptions
				if chance(t.R, 2) {
					opts = &yarql.RequestOptions{Context: context.Background(), Tracing: chance(t.R, 2), GetFormFile: lookup}
				}
				res, errs = c.S.HandleRequest(h.method, query, form, func() []byte { return []byte(h.body) }, h.ctype, opts)
			} else {
				o := yarql.ResolveOptions{OperatorTarget: h.op, Variables: h.vars, Tracing: chance(t.R, 4), NoMeta: chance(t.R, 4)}
				if chance(t.R, 2) {
					o.GetFormFile = lookup
				}
				errs = c.S.Resolve([]byte(h.text), o)
				res = c.S.Result
			}
			for _, e := range errs {
				if e == nil {
					return "a returned error is nil"
				}
				_ = e.Error()
			}
			if len(res) == 0 {
				return "the response is empty"
			}
			if len(errs) > 0 {
				t.Count("hostile requests rejected", 1)
			} else {
				t.Count("hostile requests accepted", 1)
			}
			return ""
		}()
		c.W.Hook = nil
		if bad != "" {
			t.Fail(bad, h.String())
			return
		}
		if chance(t.R, 4) || panics > 0 {
			// the same schema still has to work
			e := c.Interpret(good, func(in *core.Interp) { in.MaxDepth = depth })
			if e.Cut > 0 {
				// what is left of the other fields once the depth limit was hit is not specified
				good = g.Request()
				continue
			}
			r := c.Run(c.S, good.Text, good.Options())
			t.Eval(1)
			t.Count("follow-ups", 1)
			if d := e.Judge(r, core.PAll); d != "" {
				t.Fail("after a hostile request, a well-formed one goes wrong: "+d, "hostile request:\n"+h.String()+"\n\nwell-formed request:\n"+describe(good, r))
				return
			}
		}
		if i == 0 {
			sample(t, good, nil)
		}
	}
}
