package checks

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"mime/multipart"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/q"
	"vh/run"
	"vh/uni"
)

func init() {
	add(&run.Check{
		ID:     "C19",
		Rule:   "Random schemas and histories of requests sent as URL parameters, JSON bodies (random key order, spacing, escapes, extra keys, absent and null members, members of wrong types), multipart forms and batches of 0 to 12 items of which some are malformed, with every method and content type, with and without context (live, ended, carrying values), value map, file lookup and tracing. The same items are resolved directly on a second schema of the same data: response (without times), returned errors, resolver calls with their arguments, context values read and written, file lookups and the value map afterwards have to be the same. A malformed body or item has to give an error, empty data and no call. Non-trivial: distinct request.",
		Assume: []string{"items of one batch share the value map the caller passes", "the content type is given without parameters", "bodies that only differ from JSON in ways lenient readers accept are not judged"},
		Quick:  6000, Thorough: 150000, CPU: 60,
		Run: c19,
	})
}

// item19 is one request, as it is sent and as what it means
type item19 struct {
	json        string
	bad         bool // is malformed
	text, op    string
	vars        string
	valid       bool
	description string
}

// escaped writes s as a JSON string with random escapes
func escaped(r *rand.Rand, s string) string {
	if chance(r, 2) {
		return q.Quote(s)
	}
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c > 0xffff && chance(r, 2):
			x := c - 0x10000
			fmt.Fprintf(&b, `\u%04x\u%04X`, 0xd800+x>>10, 0xdc00+x&0x3ff)
		case c <= 0xffff && (chance(r, 20) || c < 0x20):
			fmt.Fprintf(&b, `\u%04x`, c)
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c == '/' && chance(r, 2):
			b.WriteString(`\/`)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func object19(r *rand.Rand, ms [][2]string) string {
	r.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	sp := func() string { return pick(r, "", "", "", " ", "\n", "\t ", "\r\n") }
	b := sp() + "{"
	for i, m := range ms {
		if i > 0 {
			b += ","
		}
		b += sp() + escaped(r, m[0]) + sp() + ":" + sp() + m[1] + sp()
	}
	return b + sp() + "}" + sp()
}

func makeItem19(r *rand.Rand, a *anyReq) item19 {
	it := item19{text: a.h.text, op: a.h.op, vars: a.h.vars}
	if !utf8.ValidString(it.text) || !utf8.ValidString(it.op) || !utf8.ValidString(it.vars) {
		it.text, it.op, it.vars = a.rq.Text, a.rq.OpName, a.rq.Vars
		if !utf8.ValidString(it.vars) || !utf8.ValidString(it.text) {
			it.text, it.op, it.vars = "{__typename}", "", ""
		}
	}
	if v, err := q.ParseJSON(it.vars); err != nil || v.K != 'o' {
		it.vars = ""
	}
	var ms [][2]string
	odd := func() string {
		return pick(r, "1", "-0.5e3", "true", "false", "[]", `["{__typename}"]`, `{}`, `{"a":"b"}`, "[[1,2],{}]")
	}
	switch r.Intn(14) {
	case 0: // no query
		it.bad = true
	case 1:
		it.bad = true
		ms = append(ms, [2]string{"query", pick(r, "null", odd())})
	default:
		ms = append(ms, [2]string{"query", escaped(r, it.text)})
	}
	switch {
	case chance(r, 14):
		it.bad = true
		ms = append(ms, [2]string{"operationName", odd()})
	case it.op == "" && chance(r, 2):
	case it.op == "" && chance(r, 2):
		ms = append(ms, [2]string{"operationName", "null"})
	default:
		ms = append(ms, [2]string{"operationName", escaped(r, it.op)})
	}
	switch {
	case chance(r, 14):
		it.bad = true
		ms = append(ms, [2]string{"variables", pick(r, "1", "true", "[]", `[{"a":1}]`, `""`, `"{}"`, `"x"`)})
	case it.vars == "" && chance(r, 2):
	case it.vars == "":
		ms = append(ms, [2]string{"variables", pick(r, "null", "{}", " { } ")})
	default:
		ms = append(ms, [2]string{"variables", it.vars})
	}
	for chance(r, 4) {
		ms = append(ms, [2]string{"x" + itoa(len(ms)), pick(r, "null", `{"query":"{a}"}`, `"\"}"`, "1.5", "[{}]")})
	}
	for chance(r, 6) {
		ms = append(ms, [2]string{pick(r, "Query", "extensions", "operationname", "Variables", "query ", "quer", "data"), pick(r, "1", `"x"`, "{}")})
		break
	}
	it.json = object19(r, ms)
	if chance(r, 25) {
		it.bad = true
		it.json = pick(r, "1", "null", `"{__typename}"`, "[]", "true", "[{}]", `[{"query":"{__typename}"}]`)
	}
	return it
}

type ctxKey19 struct{}

func c19(t *run.T) {
	r := t.R
	c := newCase(t, core.CaseOpt{Budget: 150})
	if c == nil {
		return
	}
	direct, err := c.NewSchema()
	if err != nil {
		t.Fail("a valid schema is refused", err.Error())
		return
	}
	if chance(r, 2) {
		n := r.Intn(200)
		c.S.SetCacheRules(&n)
	}
	opt := core.DefaultOpt()
	opt.Budget = 40
	g := core.NewGen(c, r, opt)
	var pool []*core.Request
	for i := 0; i < 3; i++ {
		pool = append(pool, g.Request())
	}
	for i := 0; i < 6 && !t.Failed(); i++ {
		c19one(t, c, direct, g, pool)
	}
}

func c19one(t *run.T, c *core.Case, direct *yarql.Schema, g *core.Gen, pool []*core.Request) {
	r := t.R
	tame := func() *anyReq {
		for {
			a := anyRequest(t, c, g, pool)
			if a.panicAt == 0 {
				return a
			}
		}
	}
	one := tame()
	method := pick(r, "GET", "POST", "post", "get", "Post", "gEt", "PUT", "", "DELETE", "HEAD")
	ctype := pick(r, "application/json", "application/json", "text/plain", "multipart/form-data", "", "text/html", "application/x-www-form-urlencoded", "application/graphql")
	usesBody := ctype == "application/json" || (ctype == "text/plain" || ctype == "multipart/form-data") && !strings.EqualFold(method, "GET")
	var items []item19
	batch, broken := false, false
	body := ""
	formErr := error(nil)
	if usesBody {
		items = []item19{makeItem19(r, one)}
		body = items[0].json
		batch = chance(r, 3)
		if batch {
			items = nil
			n := []int{0, 1, 2, 2, 3, 3, 4, 5, 12}[r.Intn(9)]
			if chance(r, 60) {
				n = 20 + r.Intn(300)
			}
			var parts []string
			for i := 0; i < n; i++ {
				it := makeItem19(r, tame())
				if i > 0 && chance(r, 4) {
					it = items[r.Intn(i)]
				}
				items = append(items, it)
				parts = append(parts, it.json)
			}
			body = pick(r, "", " ", "\n\t") + "[" + strings.Join(parts, pick(r, ",", ", ", "\n,")) + "]" + pick(r, "", " ", "\n")
		} else if x := strings.TrimSpace(body); strings.HasPrefix(x, "[") {
			// as a body this is a batch
			batch = true
			switch x {
			case "[]":
				items = nil
			case "[{}]":
				items = []item19{{json: "{}", bad: true}}
			default:
				items = []item19{{json: x[1 : len(x)-1], text: "{__typename}"}}
			}
		}
		if chance(r, 12) {
			// a body that no reader takes for JSON
			broken = true
			x := strings.TrimSpace(body)
			switch r.Intn(5) {
			case 0:
				body = ""
			case 1:
				body = x + pick(r, "}", "]", "{}", "x", ",")
			case 2:
				body = pick(r, "}", "]", ":", ",", "query=") + x
			case 3:
				body = pick(r, "{", "[", `{"query"`, `{"query":`, `{"query":"{__typename}"`, `[{"query":"{__typename}"}`, `"`, "tru", "not json", " ", "{__typename}", "query{__typename}", "\x00")
			default:
				if len(x) > 1 && (x[0] == '{' || x[0] == '[') {
					body = x[:1+r.Intn(len(x)-1)]
				} else {
					body = "{"
				}
			}
		}
		if ctype == "multipart/form-data" && chance(r, 8) {
			formErr = errors.New(pick(r, "no such form field", "ünexpected \"EOF\"\n", "bad \\ form"))
		}
	} else {
		items = []item19{{text: one.h.text, op: one.h.op, vars: one.h.vars}}
	}

	// options
	var opts *yarql.RequestOptions
	var ctx context.Context
	var lookups []string
	var forms []string
	files := map[string]*multipart.FileHeader{}
	for _, rq := range pool {
		for k, f := range rq.Files.ByKey {
			files[k] = f
		}
	}
	withFiles := chance(r, 2)
	get := func(key string) (*multipart.FileHeader, error) {
		lookups = append(lookups, key)
		if f, ok := files[key]; ok {
			return f, nil
		}
		return nil, fmt.Errorf("no file %q", key)
	}
	shared := chance(r, 3)
	newValues := func() map[string]interface{} {
		if !shared {
			return nil
		}
		return map[string]interface{}{"set": "by the caller", "n": 1}
	}
	if chance(r, 4) {
		shared, withFiles = false, false
	} else {
		switch r.Intn(4) {
		case 0:
			ctx = context.WithValue(context.Background(), ctxKey19{}, t.Case)
		case 1:
			ctx = &doneCtx{context.Background(), errors.New("the context has ended"), nil}
		}
		opts = &yarql.RequestOptions{Context: ctx, Tracing: chance(r, 4), Values: newValues()}
		if withFiles {
			opts.GetFormFile = get
		}
	}
	c.W.Hook = func(fn string, uid int64, x *yarql.Ctx, args interface{}) error {
		if x != nil {
			v, ok := x.GetValueOk("set")
			seen := ""
			if gc := x.GetContext(); gc != nil {
				seen = fmt.Sprint(gc.Value(ctxKey19{}), gc.Err())
			}
			c.W.Log = append(c.W.Log, uni.Call{Fn: "seen", Args: fmt.Sprint(v, ok, seen)})
			x.SetValue("set", fmt.Sprint(fn, uid))
			x.SetValue(fn, uid)
		}
		return nil
	}
	defer func() { c.W.Hook = nil }()

	// directly
	var dOpts yarql.ResolveOptions
	if opts != nil {
		dOpts = yarql.ResolveOptions{Context: opts.Context, Tracing: opts.Tracing, GetFormFile: opts.GetFormFile}
	}
	values := newValues()
	c.W.Log = nil
	var want []string // per item, "" if malformed
	var wantErrs []string
	var perItem []int
	whole := broken || formErr != nil
	if !whole {
		for _, it := range items {
			n := len(wantErrs)
			if it.bad {
				want = append(want, "")
				perItem = append(perItem, -1)
				continue
			}
			o := dOpts
			o.OperatorTarget, o.Variables = it.op, it.vars
			if values != nil {
				o.Values = &values
			}
			for _, e := range direct.Resolve([]byte(it.text), o) {
				wantErrs = append(wantErrs, e.Error())
			}
			want = append(want, untimed(string(direct.Result)))
			perItem = append(perItem, len(wantErrs)-n)
		}
	}
	wantLog := append([]uni.Call{}, c.W.Log...)
	wantLookups := lookups

	// through the helper
	c.W.Log, lookups = nil, nil
	res, es := c.S.HandleRequest(method,
		func(k string) string {
			return map[string]string{"query": one.h.text, "variables": one.h.vars, "operationName": one.h.op}[k]
		},
		func(k string) (string, error) {
			forms = append(forms, k)
			if k != "operations" {
				return "", errors.New("no field " + k)
			}
			return body, formErr
		},
		func() []byte { return []byte(body) }, ctype, opts)
	raw := string(res)
	var errs []string
	for _, e := range es {
		if e == nil {
			errs = append(errs, "a nil error")
			continue
		}
		errs = append(errs, e.Error())
	}
	t.Eval(1 + len(items))
	how := "URL"
	if usesBody {
		how = "JSON body"
		if ctype == "multipart/form-data" {
			how = "form"
		}
		if batch {
			how += ", batch"
		}
		if whole {
			how += ", unreadable"
		}
	}
	t.Count("requests: "+how, 1)
	t.Count("resolver calls", len(wantLog))
	t.Count("file lookups", len(wantLookups))
	t.Max("items in a batch", len(items))
	t.NonTrivial(method, ctype, body, one.h.text, one.h.vars, one.h.op, opts == nil, shared)
	if t.WantSample() && batch && len(items) > 1 {
		t.Sample("%s %s %s -> %s", method, ctype, body, raw)
	}
	fail := func(format string, a ...interface{}) {
		var l strings.Builder
		for i, it := range items {
			fmt.Fprintf(&l, "item %d: malformed %v query %q operation %q variables %s\n", i, it.bad, it.text, it.op, it.vars)
		}
		t.Fail(fmt.Sprintf(format, a...), fmt.Sprintf("method %q content type %q\nbody %q\n%sresponse %s\nerrors %q\ndirectly %q\nerrors %q", method, ctype, body, l.String(), raw, errs, want, wantErrs))
	}

	// malformed as a whole
	if whole {
		resp := &core.Response{Raw: raw, GoErr: errs}
		resp.Envelope(false, false)
		switch {
		case resp.Bad != "":
			fail("%s", resp.Bad)
		case len(errs) == 0:
			fail("no error for a body that cannot be read")
		case len(resp.Data.Keys) > 0:
			fail("data for a body that cannot be read")
		case len(c.W.Log) > 0 || len(lookups) > 0:
			fail("a resolver ran for a body that cannot be read")
		case formErr != nil && errs[0] != formErr.Error():
			fail("the error of the form is not reported")
		}
		return
	}
	parts := []string{raw}
	if batch {
		j, err := q.ParseJSON(raw)
		if err != nil || j.K != 'a' {
			fail("the response to a batch is no array: %v", err)
			return
		}
		if len(j.A) != len(items) {
			fail("%d responses to a batch of %d", len(j.A), len(items))
			return
		}
		parts = nil
		for _, x := range j.A {
			parts = append(parts, x.Text())
		}
	}
	rest, wrest := errs, wantErrs
	for i := range items {
		if items[i].bad {
			resp := &core.Response{Raw: parts[i]}
			if len(rest) == 0 {
				fail("no error is returned for the malformed item %d", i)
				return
			}
			resp.GoErr, rest = rest[:1], rest[1:]
			resp.Envelope(false, false)
			if resp.Bad != "" {
				fail("malformed item %d: %s", i, resp.Bad)
				return
			}
			if len(resp.Data.Keys) > 0 {
				fail("there is data for the malformed item %d", i)
				return
			}
			t.Count("malformed items", 1)
			continue
		}
		if got := untimed(parts[i]); got != want[i] && !(batch && sameJSON(got, want[i])) {
			fail("item %d has another response than directly: %s instead of %s", i, got, want[i])
			return
		}
		n := perItem[i]
		if len(rest) < n || !reflect.DeepEqual(rest[:n], wrest[:n]) && n > 0 {
			fail("item %d returns other errors than directly", i)
			return
		}
		rest, wrest = rest[n:], wrest[n:]
	}
	if len(rest) > 0 {
		fail("errors are returned that no response has: %q", rest)
		return
	}
	if a, b := fmt.Sprint(c.W.Log), fmt.Sprint(wantLog); a != b {
		fail("other resolver calls than directly: %s instead of %s", a, b)
		return
	}
	if a, b := fmt.Sprint(lookups), fmt.Sprint(wantLookups); a != b {
		fail("other file lookups than directly: %s instead of %s", a, b)
		return
	}
	if shared && !reflect.DeepEqual(opts.Values, values) {
		fail("the values of the caller are %v, directly %v", opts.Values, values)
		return
	}
	t.Count("values shared with the caller", len(values))
}

func sameJSON(a, b string) bool {
	x, err1 := q.ParseJSON(a)
	y, err2 := q.ParseJSON(b)
	return err1 == nil && err2 == nil && x.Text() == y.Text()
}
