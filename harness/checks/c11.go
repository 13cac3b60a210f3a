package checks

import (
	"fmt"
	"mime/multipart"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/run"
)

func init() {
	add(&run.Check{
		ID:     "C11",
		Rule:   "Built with the race detector. A case is a schema, its copies (and copies of copies) and a list of requests of every kind whose outcomes were first recorded one at a time on a freshly parsed schema. Then up to 16 goroutines serve hundreds of them at once, each on its own copy or on one taken from a pool and handed on, while further copies are made of the idle original, by one or by all goroutines at once, and independent schemas of the same types are parsed; resolvers give way at random. Every outcome has to be the recorded one and the race detector has to stay silent. Start and end times, taken without synchronisation, show which requests really overlapped. Non-trivial: distinct request whose execution overlapped with another.",
		Assume: []string{"the race detector reports races on the schedules that occurred, it does not enumerate schedules"},
		Quick:  200, Thorough: 6000, CPU: 240, Shards: 4,
		Run: c11,
	})
}

type span struct {
	req, g   int
	from, to time.Time
}

func c11(t *run.T) {
	r := t.R
	var c *core.Case
	if chance(r, 4) {
		c = argCase(t, 1+r.Intn(3), 1+r.Intn(4), false)
	} else {
		c = newCase(t, core.CaseOpt{Budget: 200, BadUTF: true})
	}
	if c == nil {
		return
	}
	orig, err := c.NewSchema()
	fresh, err2 := c.NewSchema()
	if err != nil || err2 != nil {
		t.Fail("a valid schema is refused", fmt.Sprint(err, err2))
		return
	}
	if chance(r, 2) {
		n := r.Intn(150)
		orig.SetCacheRules(&n)
	}
	c.W.FailMod = uint64(2 + r.Intn(12))
	c.W.Quiet = true
	opt := core.DefaultOpt()
	opt.VarP = 30
	opt.Budget = 80
	g := core.NewGen(c, r, opt)
	pool := []*core.Request{g.Request(), g.Request(), g.Request(), g.Request()}
	var reqs []*anyReq
	var want []string
	for i := 0; i < 24; i++ {
		a := anyRequest(t, c, g, pool)
		switch r.Intn(24) {
		case 0:
			a = &anyReq{kind: "introspection", h: hostile{text: fullIntrospection}, rq: pool[0]}
		case 1:
			a = &anyReq{kind: "introspection", h: hostile{text: `{__schema{types{name fields{name type{name}args{name}}}directives{name}}}`}, tracing: chance(r, 4), rq: pool[0]}
		}
		if strings.HasPrefix(a.kind, "introspection") && len(a.h.text) > 300 {
			a.tracing = false // very large
		}
		a.panicAt = 0
		files := a.rq.Files.ByKey
		a.files = func(k string) (*multipart.FileHeader, error) {
			if f, ok := files[k]; ok {
				return f, nil
			}
			return nil, fmt.Errorf("no file %q", k)
		}
		reqs = append(reqs, a)
		want = append(want, a.run(c, fresh, false))
	}
	// the original has served something, or has not
	if chance(r, 2) {
		for i := 0; i < 5; i++ {
			reqs[r.Intn(len(reqs))].run(c, orig, false)
		}
	}
	c.W.Jitter = chance(r, 2)
	defer func() { c.W.Jitter = false }()
	if chance(r, 3) {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(2 + r.Intn(3)))
	}
	ng := 3 + r.Intn(10)
	per := 20
	var bad sync.Map
	spans := make([][]span, ng)
	one := func(gi, ri int, s *yarql.Schema) {
		from := time.Now()
		got := reqs[ri].run(c, s, false)
		spans[gi] = append(spans[gi], span{ri, gi, from, time.Now()})
		if got != want[ri] {
			bad.Store(gi, fmt.Sprintf("%s\n\nin parallel:\n%s\n\nalone:\n%s", reqs[ri], got, want[ri]))
		}
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	if chance(r, 3) {
		// a pool of copies that are handed on
		n := 2 + r.Intn(ng)
		idle := make(chan *yarql.Schema, n+8)
		for i := 0; i < n; i++ {
			s := orig.Copy()
			if chance(r, 3) {
				s = s.Copy()
			}
			idle <- s
		}
		for gi := 0; gi < ng; gi++ {
			order := r.Perm(len(reqs) * 2)
			wg.Add(1)
			go func(gi int) {
				defer wg.Done()
				<-start
				for _, x := range order[:per] {
					s := <-idle
					one(gi, x%len(reqs), s)
					idle <- s
				}
			}(gi)
		}
		t.Count("cases with a pool of copies", 1)
		close(start)
		for i := 0; i < 4; i++ {
			idle <- orig.Copy()
		}
	} else {
		own := chance(r, 3) // every goroutine makes its own copy, all of them at once
		if own {
			t.Count("cases with copies made at the same time", 1)
		}
		for gi := 0; gi < ng; gi++ {
			var s *yarql.Schema
			switch {
			case own && gi < 2 && chance(r, 2):
			case own:
				s = orig
			case gi == 0 && chance(r, 2):
				s = orig
			default:
				s = orig.Copy()
				if chance(r, 3) {
					s = s.Copy()
				}
			}
			order := r.Perm(len(reqs) * 2)
			if chance(r, 2) { // many of the same
				for i := range order {
					if i%2 == 0 {
						order[i] = order[0]
					}
				}
			}
			wg.Add(1)
			go func(gi int, s *yarql.Schema) {
				defer wg.Done()
				<-start
				if s == nil {
					// an independent schema, parsed meanwhile
					var err error
					if s, err = c.NewSchema(); err != nil {
						bad.Store(gi, "a valid schema is refused: "+err.Error())
						return
					}
				} else if own {
					s = s.Copy()
				}
				for _, x := range order[:per] {
					one(gi, x%len(reqs), s)
				}
			}(gi, s)
		}
		t.Count("cases with a copy per goroutine", 1)
		close(start)
	}
	wg.Wait()
	bad.Range(func(_, v interface{}) bool {
		t.Fail("a request gives another outcome when others run at the same time", v.(string))
		return false
	})
	// which requests overlapped
	var all []span
	for _, l := range spans {
		all = append(all, l...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].from.Before(all[j].from) })
	t.Eval(len(all))
	most := 0
	var order strings.Builder
	for i, s := range all {
		fmt.Fprintf(&order, "%d:%d ", s.g, s.req)
		n := 0
		for j := i + 1; j < len(all) && all[j].from.Before(s.to); j++ {
			if all[j].g != s.g {
				n++
				t.NonTrivial(reqs[all[j].req].String())
			}
		}
		if n > 0 {
			t.Count("requests overlapping a later one", 1)
			t.NonTrivial(reqs[s.req].String())
		}
		if n > most {
			most = n
		}
	}
	t.Distinct("schedules", run.HashOf(order.String()))
	t.Max("goroutines", ng)
	t.Max("requests overlapped by one request", most)
	if t.WantSample() && len(order.String()) > 0 {
		t.Sample("start order (goroutine:request): %.300s", order.String())
	}
}
