package checks

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/q"
	"vh/run"
)

func init() {
	add(&run.Check{
		ID:     "C23",
		Rule:   "Random schemas and well-formed requests on them that are damaged: every prefix (or many of them), every token deleted, doubled, replaced or exchanged with its neighbour, illegal characters between tokens, random byte damage, names of 255 to 1000 characters in every place a name can have, 256 to 600 directives on one selection. An independent recogniser that is more lenient than any reader of the language decides which of these are no documents. Those have to give errors, each with a line and column that lie inside the document, not behind the first token that cannot be and not before the last token that was still as in the undamaged document; empty data; and no resolver or directive may run. The undamaged document is served in between, the query cache is on in every second case, every fourth request is sent over the HTTP entry point. Non-trivial: distinct malformed document.",
		Assume: []string{"what is not judged because readers may be lenient: superfluous commas, missing white space, directives on definitions, empty sets, forms of numbers, escapes in block strings"},
		Quick:  12000, Thorough: 300000, CPU: 60,
		Run: c23,
	})
}

// offset23 turns a line and column into a position, -1 if there is none
func offset23(s string, line, col int) int {
	at := 0
	for l := 1; l < line; l++ {
		i := strings.IndexAny(s[at:], "\r\n")
		if i < 0 {
			return -1
		}
		if strings.HasPrefix(s[at+i:], "\r\n") {
			i++
		}
		at += i + 1
	}
	end := len(s)
	if i := strings.IndexAny(s[at:], "\r\n"); i >= 0 {
		end = at + i
	}
	if line < 1 || col < 0 || at+col > end {
		return -1
	}
	return at + col
}

var illegal23 = []string{"%", "?", ";", "&", "^", "~", "`", "\\", "'", "/", "*", "<", ">", "\x01", "\x7f", "\xff", "é", "😀", "\u2028"}

// damage23 breaks a document; min is how much of it is untouched at its start, -1 if that is not known
func damage23(r *rand.Rand, s string, toks []q.Tok) (text, kind string) {
	toks = toks[:len(toks)-1]
	i := r.Intn(len(toks))
	t := toks[i]
	switch r.Intn(10) {
	case 0:
		return s[:r.Intn(len(s))], "prefix"
	case 1:
		return s[:t.Start] + s[t.End:], "token deleted"
	case 2:
		return s[:t.End] + " " + t.Text + s[t.End:], "token doubled"
	case 3:
		o := toks[r.Intn(len(toks))].Text
		if chance(r, 2) {
			o = pick(r, "{", "}", "(", ")", "[", "]", ":", "!", "=", "@", "$", "...", "a", "on", "\"s\"", "1", "-1.5", "fragment")
		}
		return s[:t.Start] + o + s[t.End:], "token replaced"
	case 4:
		if i == 0 {
			return s + s[t.Start:t.End], "token added at the end"
		}
		p := toks[i-1]
		return s[:p.Start] + t.Text + s[p.End:t.Start] + p.Text + s[t.End:], "tokens exchanged"
	case 5:
		return s[:t.Start] + pick(r, illegal23...) + s[t.Start:], "illegal character"
	case 6:
		at := r.Intn(len(s) + 1)
		return s[:at] + pick(r, illegal23...) + s[at:], "illegal character anywhere"
	case 7:
		return s + pick(r, "}", ")", "]", "{", "a", "{a", "query", "fragment", "fragment F", "fragment F on T", "@x", "$", ":", "\"", "..."), "something added at the end"
	case 8:
		// a bracket of another kind
		for k := 0; k < 40; k++ {
			t = toks[r.Intn(len(toks))]
			if p := strings.IndexByte("{}()[]", t.K); p >= 0 {
				return s[:t.Start] + string("{}()[]"[r.Intn(6)]) + s[t.End:], "bracket replaced"
			}
		}
	}
	return core.Mutate(r, s), "random damage"
}

// long23 makes a name too long or a selection carry too many directives
func long23(r *rand.Rand, s string, toks []q.Tok) (text, kind string, at int) {
	var names []q.Tok
	depth := 0
	for i, t := range toks {
		if t.K == '{' {
			depth++
		}
		// keywords are no names
		if t.K != 'n' || depth == 0 && i == 0 || t.Text == "on" || t.Text == "query" || t.Text == "mutation" || t.Text == "fragment" || t.Text == "subscription" {
			continue
		}
		names = append(names, t)
	}
	if len(names) == 0 {
		return "", "", 0
	}
	t := names[r.Intn(len(names))]
	n := pick(r, 255, 256, 257, 300, 511, 512, 1000)
	long := t.Text + strings.Repeat(pick(r, "a", "_", "9", "Z"), n)
	return s[:t.Start] + long[:n] + s[t.End:], "name too long", t.Start
}

func c23(t *run.T) {
	r := t.R
	c := newCase(t, core.CaseOpt{})
	if c == nil {
		return
	}
	if chance(r, 2) {
		n := r.Intn(300)
		c.S.SetCacheRules(&n)
	}
	g := core.NewGen(c, r, core.DefaultOpt())
	for i := 0; i < 3; i++ {
		rq := g.Request()
		text := rq.Doc.Print(q.Layout{R: r, Level: r.Intn(3)})
		if len(text) > 4000 {
			continue
		}
		toks := q.Lex(text)
		if chance(r, 25) {
			// far into the document
			at := 0
			for i := 0; i < 8; i++ {
				// where a gap is allowed
				x := toks[r.Intn(len(toks))].Start
				if x > 0 && strings.IndexByte(" \n\r\t", text[x-1]) >= 0 {
					at = x
					break
				}
			}
			n := 250 + r.Intn(100)
			if chance(r, 8) {
				n = 65500 + r.Intn(100)
			}
			text = text[:at] + strings.Repeat(pick(r, "\n", "\r\n", "\r", " ", "#\n", "\t"), n) + text[at:]
			toks = q.Lex(text)
			t.Max("document bytes", len(text))
		}
		if bad, at := q.Malformed(text); bad {
			t.Fail("harness: the recogniser refuses a well-formed document", fmt.Sprintf("%q\nat %d", text, at.Start))
			return
		}
		e := c.Interpret(rq)
		try := func(bad, kind string, first int, sure bool) bool {
			if !sure {
				m, tok := q.Malformed(bad)
				if !m {
					t.Count("damaged but perhaps still well-formed", 1)
					return true
				}
				// what is unchanged at the start of the document was read before
				x := 0
				for x < len(bad) && x < len(text) && bad[x] == text[x] {
					x++
				}
				low := 0
				for _, k := range toks {
					if k.Start < x && k.K != 0 {
						low = k.Start
					}
				}
				high := tok.End
				if tok.K == '?' && bad[tok.Start] == '"' {
					high += 4 // an escape may reach over the end of the line
				}
				return c23judge(t, c, rq, bad, kind, low, high)
			}
			return c23judge(t, c, rq, bad, kind, first, len(bad))
		}
		if len(text) < 300 && chance(r, 3) {
			for n := range text {
				if !try(text[:n], "prefix", 0, false) {
					return
				}
			}
		}
		for k := 0; k < 25; k++ {
			switch {
			case chance(r, 10):
				bad, kind, at := long23(r, text, toks)
				if kind != "" && !try(bad, kind, at, true) {
					return
				}
			case chance(r, 40):
				// directives before the selection set or the end of the first field
				n := pick(r, 256, 257, 300, 511, 512, 600)
				if p := strings.IndexByte(text, '{'); p >= 0 {
					p, low := p, p+1
					if !strings.HasPrefix(text, "{") {
						p, low = -1, 0
					}
					bad := text[:p+1] + pick(r, "a", "...a", "a:b", "...on a") + strings.Repeat("@include(if:true)", n) + " " + text[p+1:]
					if p < 0 {
						bad = "{" + bad
					}
					if !try(bad, "too many directives", low, true) {
						return
					}
				}
			default:
				bad, kind := damage23(r, text, toks)
				if !try(bad, kind, 0, false) {
					return
				}
			}
			if chance(r, 20) {
				res := c.Run(c.S, text, rq.Options())
				t.Eval(1)
				t.Count("well-formed requests in between", 1)
				if d := e.Judge(res, core.PAll); d != "" {
					t.Fail("after a malformed document, a well-formed one goes wrong: "+d, describe(rq, res))
					return
				}
			}
		}
		sample(t, rq, nil)
	}
}

func c23judge(t *run.T, c *core.Case, rq *core.Request, bad, kind string, low, high int) bool {
	r := t.R
	t.Eval(1)
	t.NonTrivial(bad)
	t.Count("malformed: "+kind, 1)
	var res *core.Response
	if chance(r, 4) {
		t.Count("malformed over HTTP", 1)
		res = &core.Response{}
		c.W.Log = nil
		func() {
			defer func() { res.Panic = recover() }()
			raw, errs := c.S.HandleRequest("GET", func(k string) string {
				return map[string]string{"query": bad, "variables": rq.Vars, "operationName": rq.OpName}[k]
			}, nil, nil, "", &yarql.RequestOptions{})
			res.Raw = string(raw)
			for _, e := range errs {
				res.GoErr = append(res.GoErr, e.Error())
			}
		}()
		res.Log = c.W.Log
		if res.Panic != nil {
			res.Bad = fmt.Sprint("panic: ", res.Panic)
		} else {
			res.Envelope(false, false)
		}
	} else {
		o := rq.Options()
		o.Tracing = false
		res = c.Run(c.S, bad, o)
	}
	detail := fmt.Sprintf("kind: %s\ndocument: %q\nresponse: %s", kind, bad, res.Raw)
	switch {
	case res.Bad != "":
		t.Fail(res.Bad, detail)
	case len(res.Errs) == 0:
		t.Fail("a malformed document is accepted", detail)
	case len(res.Log) > 0:
		t.Fail("a resolver runs although the document is malformed: "+res.Log[0].Fn, detail)
	case len(res.Data.Keys) > 0:
		t.Fail("there is data although the document is malformed", detail)
	default:
		for _, e := range res.Errs {
			if !e.Loc {
				t.Fail("an error of a malformed document has no location: "+e.Msg, detail)
				return false
			}
			at := offset23(bad, e.Line, e.Col)
			switch {
			case at < 0:
				t.Failf(detail, "an error is located at line %d column %d, which is not in the document: %s", e.Line, e.Col, e.Msg)
				return false
			case at > high:
				t.Failf(detail, "an error is located at byte %d (line %d column %d), but the document is malformed from byte %d at the latest: %s", at, e.Line, e.Col, high, e.Msg)
				return false
			case at < low:
				t.Failf(detail, "an error is located at byte %d (line %d column %d), but the document is damaged from byte %d at the earliest: %s", at, e.Line, e.Col, low, e.Msg)
				return false
			}
		}
		return true
	}
	return false
}
