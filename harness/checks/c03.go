package checks

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/q"
	"vh/run"
	"vh/uni"
)

func init() {
	add(&run.Check{
		ID:    "C03",
		Rule:  "A case is a random schema whose resolvers fail often, with messages that need escaping, and that is sent valid, failing, damaged, cancelled and random requests with and without tracing and metadata, directly and through the HTTP helper (single and batch). A strict JSON reader checks every response: one document, the right top level keys, errors array equal to the returned errors in order. Some responses have up to 264000 errors. Responses without metadata have to equal the data of the same request with it. Non-trivial: distinct response text that holds data or errors.",
		Quick: 4000, Thorough: 90000, CPU: 60,
		Run: c03,
	})
}

// Q03 holds a list
type Q03 struct{ L []Item03 }

// Item03 is an element of it
type Item03 struct {
	N   int
	err error
}

// ResolveF returns the error of the element
func (i Item03) ResolveF() (string, error) { return i.err.Error(), i.err }

// c03many makes responses with very many errors
func c03many(t *run.T) {
	r := t.R
	n := []int{130, 260, 1030, 4100, 66000}[r.Intn(5)]
	n += r.Intn(n)
	long := 0
	if n < 9000 {
		long = []int{0, 40, 700}[r.Intn(3)]
	}
	root := Q03{L: make([]Item03, n)}
	for i := range root.L {
		root.L[i].err = errors.New(pick(r, "", "\"", "\\", "x\ny", "é☃\xff") + itoa(i) + strings.Repeat(pick(r, "a", "\x01", "☃"), r.Intn(1+long)))
	}
	s := yarql.NewSchema()
	if err := s.Parse(root, uni.M0{}, nil); err != nil {
		t.Fail("a valid schema is refused: "+err.Error(), "")
		return
	}
	c := &core.Case{R: r, W: &uni.World{}}
	res := c.Run(s, "{l{a:f n b:f}}", optsT{Tracing: n < 9000 && chance(r, 2)})
	t.Eval(1)
	t.Max("errors in a response", len(res.Errs))
	t.NonTrivial("many", n, len(res.Raw))
	detail := fmt.Sprintf("a list of %d with two failing fields each", n)
	if res.Bad != "" {
		t.Fail(clip(res.Bad, 2000), detail)
		return
	}
	if len(res.GoErr) != 2*n {
		t.Fail(fmt.Sprintf("%d errors instead of %d", len(res.GoErr), 2*n), detail)
		return
	}
	for i, x := range res.GoErr {
		if x != root.L[i/2].err.Error() {
			t.Fail(fmt.Sprintf("error %d is %q", i, clip(x, 500)), detail)
			return
		}
	}
}

type doneCtx struct {
	context.Context
	err error
	ch  chan struct{}
}

func (d *doneCtx) Err() error            { return d.err }
func (d *doneCtx) Done() <-chan struct{} { return d.ch }

func c03(t *run.T) {
	if t.Case%300 == 123 {
		wide(t, core.PData|core.PErrs)
		return
	}
	if t.Case%250 == 77 {
		c03many(t)
		return
	}
	c := newCase(t, core.CaseOpt{BadUTF: true})
	if c == nil {
		return
	}
	if chance(t.R, 4) {
		c.S.MaxDepth = uint8(1 + t.R.Intn(6))
	}
	c.W.FailMod = uint64(1 + t.R.Intn(8))
	g := core.NewGen(c, t.R, core.DefaultOpt())
	last := g.Request()
	for i := 0; i < 14; i++ {
		kind := "valid"
		rq := last
		if chance(t.R, 3) {
			rq = g.Request()
			last = rq
		}
		c.W.FailSeed = t.R.Uint64()
		h := hostile{text: rq.Text, op: rq.OpName, vars: rq.Vars}
		if chance(t.R, 2) {
			h = makeHostile(t, c, g, rq)
			kind = h.kind
		}
		o := rq.Options()
		o.OperatorTarget, o.Variables = h.op, h.vars
		o.Tracing = chance(t.R, 3)
		if chance(t.R, 6) {
			o.GetFormFile = nil
		}
		if chance(t.R, 4) {
			o.Context = &doneCtx{context.Background(), errors.New(pick(t.R, "context \"ended\"", "ctx\n\x00", "canceled"+core.RandBytesString(t.R))), nil}
			kind += ", cancelled"
		}
		t.Count("kind: "+kind, 1)
		r := c.Run(c.S, h.text, o)
		t.Eval(1)
		if r.Bad != "" {
			t.Fail(r.Bad, h.String()+"\nresponse: "+r.Raw)
			return
		}
		t.Count("errors reported", len(r.Errs))
		if len(r.Data.Keys) > 0 {
			t.Count("responses with data", 1)
		}
		if len(r.Data.Keys) > 0 || len(r.Errs) > 0 {
			t.NonTrivial(r.Raw)
		}
		t.Max("response bytes", len(r.Raw))
		if i == 1 {
			t.Sample("%s -> %s", h.text, r.Raw)
		}
		// the same without metadata
		o.NoMeta = true
		o.Tracing = chance(t.R, 3)
		r2 := c.Run(c.S, h.text, o)
		t.Eval(1)
		if r2.Bad != "" {
			t.Fail("without metadata: "+r2.Bad, h.String()+"\nresponse: "+r2.Raw)
			return
		}
		if r.Data.Text() != r2.Data.Text() {
			t.Fail("the response without metadata is not the data of the one with metadata", h.String()+"\nwith: "+r.Raw+"\nwithout: "+r2.Raw)
			return
		}
		if strings.Join(r.GoErr, "\x00") != strings.Join(r2.GoErr, "\x00") {
			t.Fail("other errors are returned without metadata", fmt.Sprintf("%s\nwith: %q\nwithout: %q", h.String(), r.GoErr, r2.GoErr))
			return
		}
		if chance(t.R, 3) {
			c03http(t, c, h, o)
			if t.Failed() {
				return
			}
		}
	}
}

func c03http(t *run.T, c *core.Case, h hostile, o yarql.ResolveOptions) {
	item := `{"query":` + q.Quote(q.Sanitize(h.text)) + `,"operationName":` + q.Quote(q.Sanitize(h.op)) + `,"variables":` + orNull(h.vars) + `}`
	body := item
	n := 0
	if chance(t.R, 2) {
		n = t.R.Intn(4)
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, []string{item, item, "1", "null", "{}", `{"query":1}`, `{"query":"{__typename}","operationName":1}`, `{"query":"{__typename}","variables":[]}`}[t.R.Intn(8)])
		}
		body = "[" + strings.Join(l, ",") + "]"
	} else if chance(t.R, 3) {
		body = core.BadJSON(t.R, item)
	}
	opts := &yarql.RequestOptions{GetFormFile: o.GetFormFile, Tracing: o.Tracing, Context: o.Context}
	formErr := chance(t.R, 6)
	form := func(key string) (string, error) {
		if formErr {
			return "", errors.New("no \"form\"\n\xff")
		}
		return body, nil
	}
	query := func(k string) string {
		return map[string]string{"query": h.text, "variables": h.vars, "operationName": h.op}[k]
	}
	res, errs := c.S.HandleRequest(pick(t.R, "POST", "GET"), query, form, func() []byte { return []byte(body) }, pick(t.R, "application/json", "multipart/form-data", "text/plain", ""), opts)
	raw := string(res)
	t.Eval(1)
	t.Count("HTTP requests", 1)
	detail := h.String() + "\nbody: " + body + "\nresponse: " + raw
	j, err := q.ParseJSON(raw)
	if err != nil {
		t.Fail("HTTP response is no JSON: "+err.Error(), detail)
		return
	}
	items := []*q.J{j}
	if j.K == 'a' {
		items = j.A
		t.Count("HTTP batches", 1)
	}
	total := 0
	for _, it := range items {
		r := &core.Response{Raw: it.Text()}
		if es := it.Get("errors"); es != nil && es.K == 'a' {
			for range es.A {
				if total < len(errs) {
					r.GoErr = append(r.GoErr, errs[total].Error())
				}
				total++
			}
		}
		tracing := it.Get("extensions").Get("tracing") != nil
		r.Envelope(false, tracing)
		if r.Bad != "" {
			t.Fail("HTTP response: "+r.Bad, detail+fmt.Sprintf("\nreturned: %q", errs))
			return
		}
	}
	if total != len(errs) {
		t.Fail(fmt.Sprintf("HTTP response lists %d errors, %d are returned", total, len(errs)), detail)
	}
}
