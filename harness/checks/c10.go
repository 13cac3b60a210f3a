package checks

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/run"
)

func init() {
	add(&run.Check{
		ID:     "C10",
		Rule:   "A case is a schema and a growing family of copies and copies of copies (up to 8 members), taken before and after requests were served. Randomly, members serve requests of every kind (valid, failing, damaged, introspection, traced, HTTP), change their depth limit or cache rules, or are copied. Every outcome (response, errors, resolver records) has to be that of the original if the settings are the same, else that of a freshly parsed schema with these settings, and the result buffers of other members must not change. Single cases compare the time a cached large document takes on original and copy. Non-trivial: distinct request served by a copy.",
		Assume: []string{"a cache hit on a 300 kB document is more than 4 times faster than parsing it"},
		Quick:  1500, Thorough: 40000, CPU: 60,
		Run: c10,
	})
}

type member struct {
	s     *yarql.Schema
	depth uint8
	gen   int // how many copies away from the original
	last  []byte
	lastS string
}

const fullIntrospection = `{__schema{queryType{name kind}mutationType{name kind fields{name}}subscriptionType{name}types{kind name description specifiedByURL fields(includeDeprecated:true){name description isDeprecated deprecationReason args{name description defaultValue type{...T}}type{...T}}interfaces{...T fields{name}}possibleTypes{...T fields{name}}enumValues(includeDeprecated:true){name description isDeprecated deprecationReason}inputFields{name description defaultValue type{...T}}ofType{name}}directives{name description locations args{name description defaultValue type{...T}}}}}
fragment T on __Type{kind name description specifiedByURL ofType{kind name description specifiedByURL ofType{kind name ofType{kind name ofType{kind name ofType{kind name}}}}}}`

func c10(t *run.T) {
	if t.Case < 4 {
		c10cache(t)
		return
	}
	r := t.R
	var c *core.Case
	if chance(r, 3) {
		c = argCase(t, 1+r.Intn(3), 1+r.Intn(4), false)
	} else {
		c = newCase(t, core.CaseOpt{Budget: 250, BadUTF: true})
	}
	if c == nil {
		return
	}
	orig, err := c.NewSchema()
	if err != nil {
		t.Fail("a valid schema is refused", err.Error())
		return
	}
	depths := []uint8{255, 2, 3, 4, 5, 1}
	first := &member{s: orig, depth: depths[max(0, r.Intn(12)-6)]}
	orig.MaxDepth = first.depth
	n := r.Intn(300)
	if chance(r, 2) {
		orig.SetCacheRules(&n)
	}
	c.W.FailMod = uint64(2 + r.Intn(12))
	opt := core.DefaultOpt()
	opt.VarP = 30
	opt.Budget = 80
	g := core.NewGen(c, r, opt)
	pool := []*core.Request{g.Request(), g.Request(), g.Request()}
	fam := []*member{first}
	fresh := map[uint8]*yarql.Schema{}
	var log []string
	for i := 0; i < 30; i++ {
		k := r.Intn(len(fam))
		m := fam[k]
		switch {
		case len(fam) < 8 && (len(fam) == 1 && chance(r, 2) || chance(r, 6)):
			fam = append(fam, &member{s: m.s.Copy(), depth: m.depth, gen: m.gen + 1})
			t.Count("copies", 1)
			t.Max("copies of copies", m.gen+1)
			log = append(log, fmt.Sprintf("copy %d -> %d", k, len(fam)-1))
			continue
		case chance(r, 8):
			if chance(r, 2) {
				m.depth = depths[r.Intn(len(depths))]
				m.s.MaxDepth = m.depth
				log = append(log, fmt.Sprintf("depth limit of %d = %d", k, m.depth))
			} else {
				n := r.Intn(300)
				m.s.SetCacheRules(&n)
				log = append(log, fmt.Sprintf("cache from %d on in %d", n, k))
			}
			t.Count("settings changed", 1)
			continue
		}
		var a *anyReq
		switch r.Intn(7) {
		case 0:
			a = &anyReq{kind: "introspection", h: hostile{text: fullIntrospection}, rq: pool[0]}
		case 1, 2:
			rq := pool[r.Intn(len(pool))]
			a = &anyReq{kind: "valid", rq: rq, files: rq.Files.Get}
			a.h = hostile{text: rq.Text, op: rq.OpName, vars: rq.Vars, method: "POST", ctype: "application/json"}
		default:
			a = anyRequest(t, c, g, pool)
		}
		ref := orig
		what := "the original"
		if k == 0 || m.depth != first.depth {
			what = "a fresh schema"
			ref = fresh[m.depth]
			if ref == nil {
				ref, err = c.NewSchema()
				if err != nil {
					t.Fail("a valid schema is refused", err.Error())
					return
				}
				ref.MaxDepth = m.depth
				fresh[m.depth] = ref
			}
		}
		got := a.run(c, m.s, true)
		m.last, m.lastS = m.s.Result, string(m.s.Result)
		want := a.run(c, ref, true)
		if ref == orig {
			first.last, first.lastS = orig.Result, string(orig.Result)
		}
		t.Eval(1)
		t.Count("kind: "+a.kind, 1)
		log = append(log, fmt.Sprintf("%d serves %s", k, a))
		if k > 0 {
			t.NonTrivial(a.String(), want)
			if t.WantSample() {
				t.Sample("%s\n%s", a, want)
			}
			t.Count("requests served by copies", 1)
		}
		if got != want {
			t.Fail("a copy gives another outcome than "+what, fmt.Sprintf("member %d, %d copies from the original\n%s\n\ngot:\n%s\n\nexpected:\n%s\n\nbefore:\n%s", k, m.gen, a, got, want, strings.Join(log, "\n")))
			return
		}
		for x, o := range fam {
			if string(o.last) != o.lastS {
				t.Fail("serving a request changes the result of another copy", fmt.Sprintf("member %d, by member %d\n%s\nwas:\n%s\nis:\n%s", x, k, a, o.lastS, o.last))
				return
			}
		}
		if chance(r, 8) {
			pool[r.Intn(len(pool))] = g.Request()
		}
	}
}

// c10cache compares how long a large document takes when it was sent before
func c10cache(t *run.T) {
	c, err := core.NewCase(t.R, core.CaseOpt{Budget: 50})
	if err != nil {
		t.Fail("a valid schema is refused", err.Error())
		return
	}
	doc := []byte("query B{__typename " + strings.Repeat(`a(x:"abcdefgh",y:[1 2 3])@skip(if:true) `, 8000) + "} query A{__typename}")
	small, large := 100, 1<<30
	mk := func(n *int, before bool) *yarql.Schema {
		s := yarql.NewSchema()
		if before {
			s.SetCacheRules(n)
		}
		if err := s.Parse(dupRoot{1, 2}, struct{}{}, nil); err != nil {
			t.Fail("a valid schema is refused", err.Error())
		}
		if !before {
			s.SetCacheRules(n)
		}
		return s
	}
	before := t.Case%2 == 0
	on := mk(&small, before)
	off := mk(&large, before)
	onCopy, offCopy := on.Copy(), off.Copy()
	if t.Case >= 2 {
		onCopy, offCopy = onCopy.Copy(), offCopy.Copy()
	}
	all := []*yarql.Schema{on, off, onCopy, offCopy}
	best := [4]time.Duration{1 << 60, 1 << 60, 1 << 60, 1 << 60}
	for i := 0; i < 12; i++ {
		for k, s := range all {
			at := time.Now()
			s.Resolve(doc, yarql.ResolveOptions{OperatorTarget: "A", NoMeta: true})
			if d := time.Since(at); d < best[k] {
				best[k] = d
			}
			if !bytes.Contains(s.Result, []byte("__typename")) {
				t.Fail("a large document is not answered", string(s.Result))
				return
			}
		}
	}
	t.Eval(48)
	t.NonTrivial("cache", t.Case)
	t.Max("microseconds for a cached document, original", int(best[0].Microseconds()))
	t.Max("microseconds for a cached document, copy", int(best[2].Microseconds()))
	t.Max("microseconds without cache, copy", int(best[3].Microseconds()))
	if best[0]*4 < best[1] {
		t.Count("cache observed on the original", 1)
		if best[2]*4 > best[3]*2 && best[2] > best[0]*3 {
			t.Fail(fmt.Sprintf("a copy does not cache like its original: %v, the original takes %v", best[2], best[0]), "")
		}
		if best[3]*4 < best[1] {
			t.Fail(fmt.Sprintf("a copy caches what its original does not: %v, the original takes %v", best[3], best[1]), "")
		}
	}
	_ = c
}
