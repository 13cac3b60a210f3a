package checks

import (
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"time"

	"github.com/mjarkk/yarql"
	"github.com/mjarkk/yarql/bytecode"
	"vh/core"
	"vh/run"
)

func init() {
	add(&run.Check{
		ID:     "C09",
		Rule:   "Three kinds of cases. (1) Two schemas on the same data, one with the cache on from a random length and one with it off, serve the same sequence of 60 requests drawn with repetition from a pool of documents, same-length variants of them (one byte changed), damaged variants and different operation names; responses, errors and resolver records have to agree. (2) Two parsers, cached and not, parse thousands of documents of equal and of different lengths, beyond every eviction; bytecode, fragments, target and errors have to agree. (3) Single runs: heap growth under tens of thousands of distinct documents, lengths and operation names stays bounded, and a large document of exactly the minimum length takes as long as without cache. Non-trivial: distinct document that was sent at least twice.",
		Assume: []string{"bounded means below 80 MB for 20000 documents of 4 kB", "a cache hit on a 300 kB document is more than 4 times faster than parsing it"},
		Quick:  1500, Thorough: 40000, CPU: 120,
		Run: c09,
	})
}

func c09(t *run.T) {
	switch {
	case t.Case < 6:
		c09bound(t, t.Case)
	case t.Case < 10:
		c09short(t)
	case t.Case%5 == 0:
		c09parser(t)
	default:
		c09schema(t)
	}
}

// sameLength changes a document without changing its length
func sameLength(r *rand.Rand, s string) string {
	b := []byte(s)
	for k := 0; k < 40; k++ {
		i := r.Intn(len(b))
		c := b[i]
		switch {
		case c >= '0' && c <= '9':
			b[i] = byte('0' + r.Intn(10))
			return string(b)
		case c >= 'a' && c <= 'z':
			if chance(r, 2) {
				b[i] = byte('a' + r.Intn(26))
				return string(b)
			}
		case c == ' ':
			b[i] = pick(r, "\n", "\t", ",")[0]
			return string(b)
		case chance(r, 20):
			b[i] = byte(r.Intn(256))
			return string(b)
		}
	}
	return string(b)
}

func c09schema(t *run.T) {
	r := t.R
	var c *core.Case
	if chance(r, 3) {
		c = argCase(t, 1+r.Intn(3), 1+r.Intn(4), false)
	} else {
		c = newCase(t, core.CaseOpt{Budget: 250})
	}
	if c == nil {
		return
	}
	minLen := []int{0, 1, 10, 50, 100, 200, 300}[r.Intn(7)]
	huge := 1 << 30
	on, off := c.S.Copy(), c.S.Copy()
	if chance(r, 2) {
		var err1, err2 error
		on, err1 = c.NewSchema()
		off, err2 = c.NewSchema()
		if err1 != nil || err2 != nil {
			t.Fail("a valid schema is refused", fmt.Sprint(err1, err2))
			return
		}
	}
	if minLen != 300 || chance(r, 2) {
		on.SetCacheRules(&minLen)
	}
	off.SetCacheRules(&huge)
	opt := core.DefaultOpt()
	opt.VarP = 30
	opt.Budget = 80
	g := core.NewGen(c, r, opt)
	var pool []*core.Request
	for i := 0; i < 3+r.Intn(3); i++ {
		pool = append(pool, g.Request())
	}
	if chance(r, 40) {
		// a very long document
		n := []int{70000, 300000, 1200000, 2500000}[r.Intn(4)]
		long := "fragment UnusedAndLong on Q{a(b:\"" + strings.Repeat("x", n) + "\")}"
		x := pool[0]
		if chance(r, 2) {
			x.Text = long + x.Text
		} else {
			x.Text += long
		}
		pool = pool[:1+r.Intn(2)]
		t.Max("bytes of a document", n)
	}
	var docs []*anyReq
	add := func(a *anyReq) { docs = append(docs, a) }
	for _, rq := range pool {
		a := &anyReq{kind: "valid", rq: rq, files: rq.Files.Get}
		a.h = hostile{text: rq.Text, op: rq.OpName, vars: rq.Vars, method: "POST", ctype: "application/json"}
		add(a)
		for i := 0; i < 4; i++ {
			b := *a
			switch r.Intn(5) {
			case 0, 1:
				b.kind = "same length"
				b.h.text = sameLength(r, b.h.text)
			case 2:
				b.kind = "damaged"
				b.h.text = core.Mutate(r, b.h.text)
			case 3:
				b.kind = "other operation"
				b.h.op = pick(r, "", "Q", "a", "q", "nope")
				if ops := rq.Doc.Ops(); chance(r, 2) {
					b.h.op = ops[r.Intn(len(ops))].Name
				}
			case 4:
				b.kind = "without variables"
				b.h.vars = ""
			}
			add(&b)
		}
	}
	for i := 0; i < 3; i++ {
		add(anyRequest(t, c, g, pool))
	}
	seen := map[string]int{}
	for i := 0; i < 60; i++ {
		a := docs[r.Intn(len(docs))]
		got := a.run(c, on, true)
		want := a.run(c, off, true)
		t.Eval(1)
		t.Count("kind: "+a.kind, 1)
		seen[a.h.text]++
		if seen[a.h.text] == 2 {
			t.NonTrivial(a.h.text)
		}
		if seen[a.h.text] >= 2 && len(a.h.text) > minLen {
			t.Count("repeated documents above the minimum length", 1)
		}
		if got != want {
			t.Fail("the cache changes an outcome", fmt.Sprintf("minimum length %d, sent before: %d times\n%s\n\nwith cache:\n%s\n\nwithout:\n%s", minLen, seen[a.h.text]-1, a, got, want))
			return
		}
		if t.WantSample() && seen[a.h.text] == 2 {
			t.Sample("%s: %s", a.kind, a.h.text)
		}
	}
}

func parserState(c *bytecode.ParserCtx) string {
	var b strings.Builder
	fmt.Fprintf(&b, "target %d fragments %v errors", c.TargetIdx, c.FragmentLocations)
	for _, e := range c.Errors {
		var at bytecode.ErrorWLocation
		if errors.As(e, &at) {
			fmt.Fprintf(&b, " %d:%d", at.Line, at.Column)
		}
		fmt.Fprintf(&b, " %s", e.Error())
	}
	if len(c.Errors) == 0 {
		fmt.Fprintf(&b, " bytecode %q", c.Res)
	}
	return b.String()
}

func c09parser(t *run.T) {
	r := t.R
	on, off := bytecode.NewParserCtx(), bytecode.NewParserCtx()
	on.CacheableQueryMinLen = []int{0, 5, 40}[r.Intn(3)]
	off.CacheableQueryMinLen = 1 << 30
	var docs []string
	mode := r.Intn(3)
	n := 10 + r.Intn(120)
	for i := 0; i < n; i++ {
		var d string
		switch mode {
		case 0: // all of the same length
			d = fmt.Sprintf("query Q%03d{a f%03d(x:%03d)...F%03d} fragment F%03d on Q{b%03d}", i, i, i, i%7, i%7, i)
		case 1: // all of different lengths
			d = fmt.Sprintf("query Q{a f(x:\"%s\")...F} fragment F on Q{b}fragment G on Q{c}", strings.Repeat("x", i))
		default:
			d = fmt.Sprintf("query A{a%s} query B{b f(x:%d)} mutation C{c} fragment F on Q{b%d}", strings.Repeat(" b", i%110), i%10, i%10)
		}
		if chance(r, 12) {
			d = sameLength(r, d)
		}
		if chance(r, 15) {
			d = core.Mutate(r, d)
		}
		docs = append(docs, d)
	}
	targets := []string{"A", "B", "C", "Q", "nope", "Q001"}
	var kept [][2]interface{}
	for i := 0; i < 600; i++ {
		d := docs[r.Intn(len(docs))]
		if chance(r, 3) { // stay local, so that entries are hit before they are dropped
			d = docs[i/10%len(docs)]
		}
		var target *string
		if chance(r, 2) {
			s := targets[r.Intn(len(targets))]
			target = &s
		} else if chance(r, 10) {
			s := ""
			target = &s
		}
		run := func(p *bytecode.ParserCtx) string {
			p.Query = append(p.Query[:0], d...)
			var tg *string
			if target != nil {
				// the caller's string must not be kept
				s := string(append([]byte{}, *target...))
				tg = &s
			}
			p.ParseQueryToBytecode(tg)
			st := parserState(p)
			if tg != nil {
				*tg = "overwritten"
			}
			if len(p.Errors) > 0 {
				kept = append(kept, [2]interface{}{p.Errors, fmt.Sprint(p.Errors)})
			}
			return st
		}
		got, want := run(on), run(off)
		t.Eval(1)
		t.Count("documents parsed", 1)
		if got != want {
			t.Fail("a cached document parses differently", fmt.Sprintf("%q target %v\nwith cache: %s\nwithout: %s", d, target, got, want))
			return
		}
		// a user of the parser may overwrite the results
		if chance(r, 4) {
			for k := range on.Res {
				on.Res[k] = 0xee
			}
			for k := range on.FragmentLocations {
				on.FragmentLocations[k] = -5
			}
			for k := range on.Query {
				on.Query[k] = 'z'
			}
		}
		t.NonTrivial(d, target == nil)
	}
	for _, k := range kept {
		if fmt.Sprint(k[0]) != k[1] {
			t.Fail("errors change with later documents", fmt.Sprint(k))
			return
		}
	}
}

func heap() int {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}

// c09bound sends very many different documents
func c09bound(t *run.T, mode int) {
	s := yarql.NewSchema()
	if err := s.Parse(dupRoot{1, 2}, struct{}{}, nil); err != nil {
		t.Fail("a valid schema is refused", err.Error())
		return
	}
	min := 100
	s.SetCacheRules(&min)
	pad := strings.Repeat(" a", 2000)
	before := heap()
	n := 20000
	what := ""
	for i := 0; i < n; i++ {
		d, op := "", ""
		switch mode {
		case 0:
			what = "documents of one length"
			d = fmt.Sprintf("{a%06d:a%s}", i, pad)
		case 1:
			what = "documents of different lengths"
			d = fmt.Sprintf("{a%06d:a%s}", i, pad[:len(pad)-i%3000])
		case 2:
			what = "operation names"
			d = fmt.Sprintf("query Q{a%s}", pad)
			op = fmt.Sprintf("%s%d", strings.Repeat("n", 3000), i)
		case 3:
			what = "documents that fail"
			d = fmt.Sprintf("{a%06d:a%s", i, pad)
		case 4:
			what = "different lengths, three each"
			d = fmt.Sprintf("{a%06d:a%s}", i, pad[:len(pad)-i/3%3500])
		case 5:
			what = "short documents"
			d = fmt.Sprintf("{a%06d:a%s}", i, strings.Repeat(" a", i%30))
		}
		s.Resolve([]byte(d), yarql.ResolveOptions{OperatorTarget: op, NoMeta: true})
		if i%4000 == 3999 {
			grown := heap() - before
			t.Max("heap growth in kB, "+what, grown/1024)
			if grown > 80<<20 {
				t.Fail(fmt.Sprintf("the cache grows without bound: %d MB after %d %s", grown>>20, i+1, what), "")
				return
			}
		}
	}
	t.Eval(n)
	t.Count("bound: "+what, n)
	runtime.KeepAlive(s)
	t.NonTrivial("bound", what)
}

// c09short checks that a document of the minimum length is not cached
func c09short(t *run.T) {
	doc := []byte("{" + strings.Repeat(`a(x:"abcdefgh",y:[1 2 3])@skip(if:true) `, 8000) + "}")
	time1 := func(p *bytecode.ParserCtx) time.Duration {
		p.Query = append(p.Query[:0], doc...)
		at := time.Now()
		p.ParseQueryToBytecode(nil)
		return time.Since(at)
	}
	on, off := bytecode.NewParserCtx(), bytecode.NewParserCtx()
	on.CacheableQueryMinLen = len(doc) + t.Case%2*17
	off.CacheableQueryMinLen = 1 << 30
	hit := bytecode.NewParserCtx()
	hit.CacheableQueryMinLen = 10
	best := [3]time.Duration{1 << 60, 1 << 60, 1 << 60}
	for i := 0; i < 12; i++ {
		for k, p := range []*bytecode.ParserCtx{on, off, hit} {
			if d := time1(p); d < best[k] {
				best[k] = d
			}
		}
	}
	t.Eval(36)
	t.Max("microseconds to parse a document of the minimum length", int(best[0].Microseconds()))
	t.Max("microseconds to parse without cache", int(best[1].Microseconds()))
	t.Max("microseconds for a cache hit", int(best[2].Microseconds()))
	t.NonTrivial("short", t.Case)
	if best[0]*4 < best[1] && best[2]*4 < best[1] {
		t.Fail(fmt.Sprintf("a document that is not longer than the minimum is served from the cache (%v, parsing takes %v)", best[0], best[1]), "")
	}
}
