package checks

import (
	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/run"
)

func init() {
	add(&run.Check{
		ID:    "C08",
		Rule:  "A case is a schema that serves a sequence of 25 requests: valid, damaged, failing, panicking (recovered by the caller), introspecting, traced, cached, batched, cancelled, with and without variables, values, operation names. Each request is also sent to a freshly parsed schema on the same data; response, errors and the record of every resolver call (arguments, path, context values seen) have to be the same. Non-trivial: distinct request that follows at least three others.",
		Quick: 1600, Thorough: 40000, CPU: 60,
		Run: c08,
	})
}

func c08(t *run.T) {
	r := t.R
	var c *core.Case
	if chance(r, 3) {
		c = argCase(t, 1+r.Intn(3), 1+r.Intn(4), false)
	} else {
		c = newCase(t, core.CaseOpt{Budget: 250, BadUTF: true})
	}
	if c == nil {
		return
	}
	minLen := -1
	if chance(r, 2) {
		minLen = r.Intn(200)
	}
	depth := uint8(255)
	if chance(r, 5) {
		depth = uint8(2 + r.Intn(5))
	}
	set := func(s *yarql.Schema) {
		if minLen >= 0 {
			n := minLen
			s.SetCacheRules(&n)
		}
		s.MaxDepth = depth
	}
	used, err := c.NewSchema()
	if err != nil {
		t.Fail("a valid schema is refused", err.Error())
		return
	}
	set(used)
	c.W.FailMod = uint64(2 + r.Intn(12))
	opt := core.DefaultOpt()
	opt.VarP = 35
	opt.Budget = 60
	g := core.NewGen(c, r, opt)
	pool := []*core.Request{g.Request(), g.Request(), g.Request(), g.Request()}
	var history []string
	var old []*anyReq
	for i := 0; i < 25; i++ {
		var a *anyReq
		if len(old) > 0 && chance(r, 4) {
			a = old[r.Intn(len(old))]
		} else {
			a = anyRequest(t, c, g, pool)
			old = append(old, a)
		}
		fresh, err := c.NewSchema()
		if err != nil {
			t.Fail("a valid schema is refused", err.Error())
			return
		}
		set(fresh)
		got := a.run(c, used, true)
		want := a.run(c, fresh, true)
		t.Eval(1)
		t.Count("kind: "+a.kind, 1)
		if i >= 3 {
			t.NonTrivial(a.String(), want)
			if t.WantSample() {
				t.Sample("after %d others: %s\n%s", i, a, want)
			}
		}
		if got != want {
			h := ""
			for _, x := range history {
				h += x + "\n"
			}
			t.Fail("the response depends on the requests before it", "request: "+a.String()+"\n\non the used schema:\n"+got+"\n\non a fresh schema:\n"+want+"\n\nrequests before:\n"+h)
			return
		}
		history = append(history, a.String())
		if chance(r, 6) {
			pool[r.Intn(len(pool))] = g.Request()
		}
	}
}
