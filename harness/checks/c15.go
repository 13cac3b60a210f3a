package checks

import (
	"fmt"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/run"
)

func init() {
	add(&run.Check{
		ID:     "C15",
		Rule:   "Random schemas with many function and method fields (on values, pointers, lists, interfaces, nil parents), requests with aliases, fragments and directives. The record of all resolver and directive calls has to equal, in number and order, that of a reference interpreter. Each call takes a little time in which a monitor counts the calls in progress and notes the goroutine; no two may overlap and none may happen after the response. Data are compared as well. Non-trivial: distinct operation that made at least 3 calls.",
		Assume: []string{"calls that overlap would do so within the delay of a call"},
		Quick:  9000, Thorough: 200000, CPU: 90,
		Run: c15,
	})
}

func goid() string {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	return strings.Fields(string(b[:n]))[1]
}

func c15(t *run.T) {
	if t.Case%300 == 123 {
		wide(t, core.PLog)
		return
	}
	r := t.R
	opt := core.CaseOpt{Named: chance(r, 2)}
	c := newCase(t, opt)
	if c == nil {
		return
	}
	if chance(r, 2) {
		c.W.FailMod = 10
		c.W.FailSeed = r.Uint64()
	}
	slow := chance(r, 10)
	var inside, overlaps, foreign int32
	me := goid()
	c.W.Hook = func(fn string, uid int64, ctx *yarql.Ctx, args interface{}) error {
		if c.W.Oracle != nil {
			return nil
		}
		if atomic.AddInt32(&inside, 1) > 1 {
			atomic.AddInt32(&overlaps, 1)
		}
		if slow {
			time.Sleep(20 * time.Microsecond)
		} else {
			runtime.Gosched()
		}
		if slow && goid() != me {
			atomic.AddInt32(&foreign, 1)
		}
		atomic.AddInt32(&inside, -1)
		return nil
	}
	gopt := core.DefaultOpt()
	gopt.FieldP = []int{40, 80}[r.Intn(2)]
	gopt.Budget = 100
	if chance(r, 3) {
		gopt.OnlyMutation = true
	}
	g := core.NewGen(c, r, gopt)
	for i := 0; i < 5; i++ {
		rq := g.Request()
		e, res := conform(t, c, c.S, rq, core.PData|core.PLog)
		if t.Failed() {
			return
		}
		if n := atomic.LoadInt32(&overlaps); n > 0 {
			t.Fail(fmt.Sprintf("%d resolver calls began before another had ended", n), describe(rq, res))
			return
		}
		if n := atomic.LoadInt32(&foreign); n > 0 {
			t.Count("calls on another goroutine", int(n))
		}
		if slow {
			n := len(c.W.Log)
			time.Sleep(time.Millisecond)
			if len(c.W.Log) != n || atomic.LoadInt32(&inside) != 0 {
				t.Fail("a resolver runs after the response", describe(rq, res))
				return
			}
			t.Count("requests with slow resolvers", 1)
		}
		t.Max("calls of one operation", len(res.Log))
		t.Count("kind: "+rq.Target.Kind, 1)
		if e.Calls >= 3 {
			t.NonTrivial(shapeOf(c, rq))
			sample(t, rq, res)
		}
	}
}
