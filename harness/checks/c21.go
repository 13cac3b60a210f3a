package checks

import (
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/q"
	"vh/run"
)

func init() {
	add(&run.Check{
		ID:     "C21",
		Rule:   "Random schemas, their copies and requests (fragments, directives, variables, failing and sleeping resolvers, introspection), each with tracing on and off in random alternation, with and without the query cache. With tracing, the records have to be exactly those the reference interpreter derives, in completion order, with path, parent type, name and declared type; type names also have to agree with introspection and with __typename. Offsets and durations are checked as intervals: ends never decrease, children lie inside their parent, all inside the request and behind its parsing, the request inside the time measured around the call, sleeping resolvers take at least their sleep. Response, errors and resolver calls have to be the same without tracing, where no trace may be present. Non-trivial: distinct traced request.",
		Assume: []string{"__typename is no schema field and has no record", "the wall clock does not jump by more than 2 s within a request"},
		Quick:  5000, Thorough: 120000, CPU: 60,
		Run: c21,
	})
}

var anonName = regexp.MustCompile(`__Unknown(Type|Input)[0-9]+`)

type rec21 struct {
	path, parent, field, typ string
	start, dur               int64
}

func c21(t *run.T) {
	r := t.R
	deep := 0
	var c *core.Case
	if chance(r, 25) {
		deep = 1 + r.Intn(253)
		c = deepCase(t, deep+2)
	} else {
		c = newCase(t, core.CaseOpt{Budget: 200})
	}
	if c == nil {
		return
	}
	if chance(r, 2) {
		n := r.Intn(300)
		c.S.SetCacheRules(&n)
	}
	schemas := []*yarql.Schema{c.S}
	var g20 *graph20
	res := c.Run(c.S, introspect20, optsT{})
	if res.Bad == "" {
		g20, _ = readGraph(res.Data)
	}
	if g20 == nil {
		t.Fail("introspection fails", res.Bad+res.Raw)
		return
	}
	opt := core.DefaultOpt()
	opt.Budget = 50
	g := core.NewGen(c, r, opt)
	for i := 0; i < 6 && !t.Failed(); i++ {
		if chance(r, 4) {
			schemas = append(schemas, schemas[r.Intn(len(schemas))].Copy())
		}
		s := schemas[r.Intn(len(schemas))]
		if chance(r, 5) {
			c21introspect(t, c, s, g20)
			continue
		}
		c.W.FailMod = uint64([]int{0, 0, 2, 5, 20}[r.Intn(5)])
		c.W.FailSeed = r.Uint64()
		var rq *core.Request
		if deep > 0 {
			rq, _, _ = deepRequest(c, r, 1+r.Intn(deep))
		} else {
			rq = g.Request()
		}
		e := c.Interpret(rq, func(in *core.Interp) {
			in.TypeName = func(t reflect.Type) string { return "__UnknownType" }
		})
		if e.Cut > 0 {
			continue
		}
		naps := 0
		nap := time.Duration(0)
		if chance(r, 20) {
			nap = time.Duration(1+r.Intn(1500)) * time.Microsecond
			c.W.Hook = func(fn string, uid int64, ctx *yarql.Ctx, args interface{}) error {
				if naps++; naps < 4 && fn[0] != '@' {
					time.Sleep(nap)
				}
				return nil
			}
		}
		first := chance(r, 2)
		var with, without *core.Response
		var before time.Time
		var took time.Duration
		for _, on := range []bool{first, !first} {
			o := rq.Options()
			o.Tracing = on
			naps = 0
			start := time.Now()
			res := c.Run(s, rq.Text, o)
			if on {
				before, took, with = start, time.Since(start), res
			} else {
				without = res
			}
		}
		c.W.Hook = nil
		observe(t, rq, e)
		fail := func(format string, a ...interface{}) {
			t.Fail(fmt.Sprintf(format, a...), describe(rq, with)+"without tracing: "+without.Raw)
		}
		if with.Bad != "" || without.Bad != "" {
			fail("%s%s", with.Bad, without.Bad)
			return
		}
		if d := same21(with, without); d != "" {
			fail("%s", d)
			return
		}
		recs, bad := read21(with.J, before, took)
		if bad != "" {
			fail("%s", bad)
			return
		}
		t.Count("trace records", len(recs))
		t.NonTrivial(shapeOf(c, rq), len(recs))
		sample(t, rq, with)
		if len(recs) != len(e.Trace) {
			var l []string
			for _, x := range recs {
				l = append(l, x.path)
			}
			fail("%d records instead of %d\n%s\nexpected %v", len(recs), len(e.Trace), l, e.Trace)
			return
		}
		for i, x := range recs {
			w := e.Trace[i]
			root := map[string]bool{"__UnknownType": true}
			parent, typ := anonName.ReplaceAllString(x.parent, "__UnknownType"), anonName.ReplaceAllString(x.typ, "__UnknownType")
			if w.Path != x.path || w.Field != x.field || typ != w.Type || parent != w.Parent && !(root[parent] && (w.Parent == c.QName || w.Parent == c.MName)) {
				fail("record %d is %+v, expected %+v", i, x, w)
				return
			}
			if d := g20.agrees(x); d != "" {
				fail("record %d: %s", i, d)
				return
			}
		}
		if d := intervals21(t, recs); d != "" {
			fail("%s", d)
			return
		}
		if nap > 0 {
			n := len(with.Log)
			slow := 0
			for _, x := range recs {
				if x.dur >= int64(nap) {
					slow++
				}
			}
			called := 0
			for _, l := range with.Log {
				if l.Fn[0] != '@' {
					called++
				}
			}
			if called > 0 && slow == 0 && with.Log[0].Fn[0] != '@' {
				fail("resolvers slept %s but no record is that long (%d calls)", nap, n)
				return
			}
			t.Count("requests with sleeping resolvers", 1)
		}
	}
}

// same21 compares everything but the trace
func same21(with, without *core.Response) string {
	if d := q.Diff(without.Data, with.Data); d != "" {
		return "tracing changes the data: " + d
	}
	if fmt.Sprint(with.GoErr) != fmt.Sprint(without.GoErr) || fmt.Sprint(with.Errs) != fmt.Sprint(without.Errs) {
		return "tracing changes the errors"
	}
	if fmt.Sprint(with.Log) != fmt.Sprint(without.Log) {
		return "tracing changes the resolver calls"
	}
	if strings.Contains(without.Raw, `"tracing":{"version"`) {
		return "there is a trace without tracing"
	}
	return ""
}

func num21(j *q.J, key string) int64 {
	x := j.Get(key)
	if x == nil || x.K != 'd' {
		return -1
	}
	n, err := strconv.ParseInt(x.S, 10, 64)
	if err != nil {
		return -1
	}
	return n
}

// read21 decodes a trace and checks its frame
func read21(j *q.J, before time.Time, took time.Duration) ([]rec21, string) {
	tr := j.Get("extensions").Get("tracing")
	if tr == nil || tr.K != 'o' || num21(tr, "version") != 1 {
		return nil, "no trace of version 1"
	}
	total := num21(tr, "duration")
	if total < 0 || total > int64(took) {
		return nil, fmt.Sprintf("the request took %d ns at most, the trace says %d", took, total)
	}
	start, err1 := time.Parse(time.RFC3339Nano, str(tr.Get("startTime")))
	end, err2 := time.Parse(time.RFC3339Nano, str(tr.Get("endTime")))
	if err1 != nil || err2 != nil {
		return nil, "startTime or endTime is no time"
	}
	// the machine may stall anywhere, and its clock be set a little
	slack := 2 * time.Second
	if start.Before(before.Add(-slack)) || end.After(before.Add(took+slack)) || start.Add(time.Duration(total)).After(end.Add(slack)) || end.After(start.Add(time.Duration(total)+10*slack)) {
		return nil, fmt.Sprintf("the request was handled from %s on for %s, the trace says %s to %s", before, took, start, end)
	}
	low := int64(0)
	for _, k := range []string{"parsing", "validation"} {
		p := tr.Get(k)
		o, d := num21(p, "startOffset"), num21(p, "duration")
		if p == nil || o < 0 || d < 0 || o+d > total {
			return nil, k + " does not lie inside the request"
		}
		if k == "parsing" {
			low = o + d
		}
	}
	var l []rec21
	rs := tr.Get("execution").Get("resolvers")
	if rs == nil || rs.K != 'a' {
		return nil, "no resolvers in the trace"
	}
	for _, x := range rs.A {
		if x.Get("path") == nil || x.Get("path").K != 'a' {
			return nil, "a record has no path"
		}
		e := rec21{x.Get("path").Text(), str(x.Get("parentType")), str(x.Get("fieldName")), str(x.Get("returnType")), num21(x, "startOffset"), num21(x, "duration")}
		if e.start < low || e.dur < 0 || e.start+e.dur > total {
			return nil, fmt.Sprintf("the record %+v does not lie between parsing (until %d) and the end of the request (%d)", e, low, total)
		}
		l = append(l, e)
	}
	return l, ""
}

// intervals21 checks that records are nested and ordered in time
func intervals21(t *run.T, recs []rec21) string {
	at := map[string]rec21{}
	for i, x := range recs {
		if i > 0 && x.start+x.dur < recs[i-1].start+recs[i-1].dur {
			return fmt.Sprintf("%+v is reported after %+v but ends earlier", x, recs[i-1])
		}
		at[x.path] = x
	}
	for _, x := range recs {
		p := strings.TrimSuffix(x.path, "]")
		for {
			i := strings.LastIndexByte(p, ',')
			if i < 0 {
				break
			}
			p = p[:i]
			if y, ok := at[p+"]"]; ok {
				t.Count("nested records", 1)
				if x.start < y.start || x.start+x.dur > y.start+y.dur {
					return fmt.Sprintf("%+v does not lie inside its parent %+v", x, y)
				}
				break
			}
		}
	}
	return ""
}

// agrees compares a record with introspection
func (g *graph20) agrees(x rec21) string {
	e := g.types[x.parent]
	if e == nil {
		return "the parent type " + x.parent + " is not in the schema"
	}
	for _, f := range e.Get("fields").A {
		if str(f.Get("name")) == x.field {
			if want := refText(f.Get("type")); want != x.typ {
				return fmt.Sprintf("%s.%s has the type %s according to introspection, the trace says %s", x.parent, x.field, want, x.typ)
			}
			return ""
		}
	}
	if x.field == "__schema" || x.field == "__type" {
		return ""
	}
	return x.parent + " has no field " + x.field
}

// c21introspect traces a request for the description of the schema
func c21introspect(t *run.T, c *core.Case, s *yarql.Schema, g *graph20) {
	r := t.R
	n := 40
	l := genISel(r, "__Schema", 1+r.Intn(4), &n)
	text := "query($d:Boolean=true){a:__typename x:__schema{" + printISel(l) + "}b:__type(name:\"Int\"){name}}"
	before := time.Now()
	with := c.Run(s, text, optsT{Tracing: true})
	took := time.Since(before)
	without := c.Run(s, text, optsT{})
	fail := func(m string) { t.Fail(m, text+"\n"+with.Raw+"\n"+without.Raw) }
	if with.Bad != "" || without.Bad != "" || len(with.Errs) > 0 {
		fail("introspection fails " + with.Bad + without.Bad)
		return
	}
	if d := same21(with, without); d != "" {
		fail(d)
		return
	}
	recs, bad := read21(with.J, before, took)
	if bad == "" {
		bad = intervals21(t, recs)
	}
	if bad != "" {
		fail(bad)
		return
	}
	// every key of the response but __typename, children first
	var want []string
	var walk func(j *q.J, path string)
	walk = func(j *q.J, path string) {
		for i, x := range j.A {
			p := itoa(i)
			if j.K == 'o' {
				p = q.Quote(j.Keys[i])
			}
			if path != "" {
				p = path + "," + p
			}
			if x.K == 'o' || x.K == 'a' {
				walk(x, p)
			}
			if j.K == 'o' && !strings.HasSuffix(j.Keys[i], "__typename") && j.Keys[i] != "a" {
				want = append(want, "["+p+"]")
			}
		}
	}
	walk(with.Data, "")
	t.Eval(1)
	t.Count("traced introspection requests", 1)
	t.Count("trace records", len(recs))
	var got []string
	for _, x := range recs {
		got = append(got, x.path)
	}
	if strings.Join(got, " ") != strings.Join(want, " ") {
		fail(fmt.Sprintf("the records are not those of the response: %d instead of %d", len(got), len(want)))
		return
	}
	for _, x := range recs {
		if d := g.agrees(x); d != "" {
			fail(d)
			return
		}
	}
}
