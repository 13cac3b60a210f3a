package checks

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"strconv"
	"strings"

	"github.com/mjarkk/yarql/assert"
	"github.com/mjarkk/yarql/assert/difflib"
	"vh/run"
)

func init() {
	add(&run.Check{
		ID:     "C34",
		Rule:   "Pairs of line lists (equal, edited in a few places, rotated, of few different lines, of hundreds of lines with popular ones, unrelated, empty, with and without line ends) are compared with the diff package: the diff must be empty exactly for equal lists, its hunks must be in order, apart, of the stated ranges and sizes, with at most one line of context on either side, and applying it must turn the first list into the second, and backwards. Failing assertions on texts, structs, lists and maps are reported to a recorder: the report, with its indentation removed, must show both values as Go prints them, a diff that turns the printed first value into the second, every line of the caller's (formatted) message, and the name of the test. Every assertion and its variant with a format, made to fail, has to report the caller's message once, as it is when it stands alone and formatted otherwise, and no message when there is none; the trace has to begin with the line of the call. Values that differ in type only have to be shown with their types. A writer that fails has to be reported. Non-trivial: distinct pair with a difference.",
		Assume: []string{"lines of reports are shorter than 64 kB and hold no carriage returns"},
		Quick:  40000, Thorough: 1500000,
		Run: c34,
	})
}

var words34 = []string{"a", "b", "c", "x y", "", " ", "-", "+", "@@ -1 +1 @@", "---", "+++ Actual", "%d", "{", "}", "é", "\x00", "\t"}

func line34(r *rand.Rand, rich int) string {
	if r.Intn(rich+1) == 0 {
		return pick(r, words34...)
	}
	return pick(r, words34...) + itoa(r.Intn(1+rich*rich))
}

// lists34 makes two lists of lines
func lists34(r *rand.Rand) (a, b []string) {
	rich := r.Intn(12)
	n := pick(r, r.Intn(3), r.Intn(8), r.Intn(20), r.Intn(60))
	if chance(r, 40) {
		n = 150 + r.Intn(250)
	}
	for i := 0; i < n; i++ {
		a = append(a, line34(r, rich))
	}
	b = append(b, a...)
	switch r.Intn(8) {
	case 0:
	case 1:
		b = nil
		for i := 0; i < r.Intn(20); i++ {
			b = append(b, line34(r, rich))
		}
	case 2:
		if n > 0 {
			k := r.Intn(n)
			b = append(append([]string{}, a[k:]...), a[:k]...)
		}
	default:
		for i := 0; i < 1+r.Intn(4); i++ {
			k := 0
			if len(b) > 0 {
				k = pick(r, r.Intn(len(b)), 0, len(b)-1)
			}
			switch r.Intn(4) {
			case 0:
				b = append(b[:k:k], append([]string{line34(r, rich)}, b[k:]...)...)
			case 1:
				if len(b) > 0 {
					b = append(b[:k:k], b[k+1:]...)
				}
			case 2:
				if len(b) > 0 {
					b = append([]string{}, b...)
					b[k] = line34(r, rich)
				}
			case 3:
				b = append(b, line34(r, rich))
			}
		}
	}
	if chance(r, 10) {
		a, b = b, a
	}
	return a, b
}

// range34 reads a range of a hunk: the first line counted from 0 and how many
func range34(s string) (from, n int, err error) {
	n = 1
	p := strings.SplitN(s, ",", 2)
	if len(p) == 2 {
		if n, err = strconv.Atoi(p[1]); err != nil {
			return
		}
	}
	from, err = strconv.Atoi(p[0])
	if n > 0 {
		from--
	}
	return
}

// apply34 applies a diff, of lines that end in \n, to a, and backwards to b
func apply34(d string, a, b []string) string {
	same := strings.Join(a, "\x01") == strings.Join(b, "\x01") && len(a) == len(b)
	if d == "" {
		if !same {
			return "no diff of different lists"
		}
		return ""
	}
	if same {
		return "a diff of equal lists"
	}
	l := strings.SplitAfter(d, "\n")
	if l[len(l)-1] != "" {
		return "the diff does not end in a line end"
	}
	l = l[:len(l)-1]
	if len(l) < 3 || l[0] != "--- Expected\n" || l[1] != "+++ Actual\n" {
		return "the diff has no header"
	}
	l = l[2:]
	ai, bi := 0, 0 // done
	first := true
	for len(l) > 0 {
		h := strings.TrimSuffix(l[0], " @@\n")
		p := strings.Fields(h)
		if len(p) != 3 || p[0] != "@@" || !strings.HasSuffix(l[0], " @@\n") || p[1][0] != '-' || p[2][0] != '+' {
			return "not the head of a hunk: " + l[0]
		}
		l = l[1:]
		af, an, err1 := range34(p[1][1:])
		bf, bn, err2 := range34(p[2][1:])
		if err1 != nil || err2 != nil {
			return "not the head of a hunk: " + h
		}
		// what is between hunks is the same
		if af-ai != bf-bi || af < ai || !first && af == ai || af > len(a) || bf > len(b) {
			return fmt.Sprintf("hunk %s does not continue at %d %d", h, ai, bi)
		}
		first = false
		for ai < af {
			if a[ai] != b[bi] {
				return fmt.Sprintf("line %d differs outside of hunks", ai)
			}
			ai++
			bi++
		}
		ctx, changed := 0, false
		for ai < af+an || bi < bf+bn {
			if len(l) == 0 {
				return "hunk " + h + " ends early"
			}
			x := l[0]
			l = l[1:]
			switch x[0] {
			case ' ':
				if ai >= len(a) || bi >= len(b) || x[1:] != a[ai] || x[1:] != b[bi] {
					return fmt.Sprintf("context line %q is not at %d %d", x, ai, bi)
				}
				ai++
				bi++
				ctx++
				continue
			case '-':
				if ai >= len(a) || x[1:] != a[ai] {
					return fmt.Sprintf("removed line %q is not at %d", x, ai)
				}
				ai++
			case '+':
				if bi >= len(b) || x[1:] != b[bi] {
					return fmt.Sprintf("added line %q is not at %d", x, bi)
				}
				bi++
			default:
				return fmt.Sprintf("unknown line %q", x)
			}
			if !changed && ctx > 1 || ctx > 2 {
				return "hunk " + h + " has too much context"
			}
			ctx, changed = 0, true
		}
		if ai != af+an || bi != bf+bn {
			return "hunk " + h + " is longer than its range"
		}
		if !changed || ctx > 1 {
			return "hunk " + h + " has too much context"
		}
	}
	if len(a)-ai != len(b)-bi {
		return "the diff ends early"
	}
	for ; ai < len(a); ai, bi = ai+1, bi+1 {
		if a[ai] != b[bi] {
			return fmt.Sprintf("line %d differs outside of hunks", ai)
		}
	}
	return ""
}

func c34(t *run.T) {
	r := t.R
	a, b := lists34(r)
	switch r.Intn(6) {
	case 0, 1:
		c34report(t, a, b)
		return
	case 2:
		if chance(r, 4) {
			c34types(t)
			return
		}
		c34messages(t)
		return
	}
	end := func(l []string) []string {
		o := make([]string, len(l))
		for i, s := range l {
			if chance(r, 30) {
				s += "\r"
			}
			o[i] = s + "\n"
		}
		return o
	}
	// the lists as they are
	sa, sb := end(a), end(b)
	if chance(r, 2) {
		// through the text
		sa, sb = difflib.SplitLines(strings.Join(a, "\n")), difflib.SplitLines(strings.Join(b, "\n"))
		for _, x := range [][2][]string{{a, sa}, {b, sb}} {
			if strings.Join(x[1], "") != strings.Join(x[0], "\n")+"\n" || len(x[1]) != max(1, len(x[0])) {
				t.Fail("SplitLines loses something", fmt.Sprintf("%q: %q", strings.Join(x[0], "\n"), x[1]))
				return
			}
		}
		t.Count("texts split", 2)
	}
	ca, cb := append([]string{}, sa...), append([]string{}, sb...)
	var d string
	if chance(r, 2) {
		var err error
		if d, err = difflib.GetUnifiedDiffString(sa, sb); err != nil {
			t.Fail("a diff fails", err.Error())
			return
		}
	} else {
		if chance(r, 3) {
			// a writer that fails at some place
			if d, _ := difflib.GetUnifiedDiffString(sa, sb); d != "" {
				w := &failing34{n: r.Intn(len(d))}
				err := difflib.WriteUnifiedDiff(w, sa, sb)
				t.Eval(1)
				if err == nil {
					t.Fail("a diff that cannot be written is no error", fmt.Sprintf("%q\n%d", d, w.n))
					return
				}
				t.Count("writers that fail", 1)
			}
		}
		var w bytes.Buffer
		if err := difflib.WriteUnifiedDiff(&w, sa, sb); err != nil {
			t.Fail("a diff fails", err.Error())
			return
		}
		d = w.String()
	}
	t.Eval(1)
	if e := apply34(d, sa, sb); e != "" {
		t.Fail("a diff is wrong: "+e, fmt.Sprintf("%q\n%q\n%s", clip(fmt.Sprint(sa), 2000), clip(fmt.Sprint(sb), 2000), clip(d, 2000)))
	}
	if fmt.Sprint(ca) != fmt.Sprint(sa) || fmt.Sprint(cb) != fmt.Sprint(sb) {
		t.Fail("a diff changes its arguments", "")
	}
	if d != "" {
		t.NonTrivial(strings.Join(sa, ""), "\x01", strings.Join(sb, ""))
		t.Count("diffs applied", 1)
		t.Count("hunks", strings.Count(d, "\n@@ "))
		t.Max("lines of a diff", strings.Count(d, "\n"))
		if t.WantSample() && len(d) < 300 {
			t.Sample("%q", d)
		}
	} else {
		t.Count("equal lists", 1)
	}
}

// block34 takes a labelled block out of a report
func block34(report, label string) (string, bool) {
	var out []string
	in := false
	for _, l := range strings.Split(report, "\n") {
		if strings.HasPrefix(l, "\t"+label+":") {
			if in {
				return "", false
			}
			in = true
			l = strings.TrimLeft(l[len(label)+2:], " ")
			if !strings.HasPrefix(l, "\t") {
				return "", false
			}
			out = append(out, l[1:])
			continue
		}
		if in {
			x := strings.TrimPrefix(l, "\t")
			y := strings.TrimLeft(x, " ")
			if x == l || y == x || !strings.HasPrefix(y, "\t") {
				break
			}
			out = append(out, y[1:])
		}
	}
	return strings.Join(out, "\n"), in
}

type struct34 struct {
	A string
	B []string
	C map[string]int
}

// c34report looks at the report of a failing assertion
func c34report(t *run.T, la, lb []string) {
	r := t.R
	clean := func(l []string) []string {
		o := []string{}
		for _, s := range l {
			o = append(o, strings.Map(func(c rune) rune {
				if c == '\r' || c == 0 {
					return '?'
				}
				return c
			}, s))
		}
		return o
	}
	la, lb = clean(la), clean(lb)
	var a, b interface{}
	pa, pb := "", "" // as the diff prints them
	switch r.Intn(6) {
	case 0:
		a, b = la, lb
	case 1:
		a, b = struct34{strings.Join(la, "\n"), la, map[string]int{"n": len(la)}}, struct34{strings.Join(lb, "\n"), lb, map[string]int{"n": len(lb)}}
	case 2:
		ma, mb := map[string]string{}, map[string]string{}
		for i, s := range la {
			ma[s] = itoa(i) + "\n"
		}
		for i, s := range lb {
			mb[s] = itoa(i) + "\n"
		}
		a, b = ma, mb
	default:
		a, b = strings.Join(la, "\n"), strings.Join(lb, "\n")
		pa, pb = a.(string), b.(string)
	}
	if _, ok := a.(string); !ok {
		pa, pb = fmt.Sprintf("%+v", a), fmt.Sprintf("%+v", b)
	}
	if assert.ObjectsAreEqual(a, b) {
		return
	}
	rec := &rec31{}
	var tt assert.TestingT = rec
	name := chance(r, 2)
	if name {
		tt = named31{rec}
	}
	msg := pick(r, "", "plain", "two\nlines", " a\n\n b ", "%d percent", "tab\tin it", "Error:\tx")
	want := msg
	var args []interface{}
	switch {
	case msg == "":
	case chance(r, 2):
		args = []interface{}{msg}
	default:
		args = []interface{}{strings.ReplaceAll(msg, "%", "%%") + " of %d %s", 7, "x\ny"}
		want = msg + " of 7 x\ny"
	}
	_, _, line, _ := runtime.Caller(0)
	if len(args) > 1 && chance(r, 2) {
		line += 3
		assert.Equalf(tt, a, b, args[0].(string), args[1:]...)
	} else {
		line += 6
		assert.Equal(tt, a, b, args...)
	}
	t.Eval(1)
	detail := fmt.Sprintf("%#v\n%#v\n%q\n%s", a, b, args, clip(rec.msg, 4000))
	if rec.n != 1 {
		t.Fail("a failure is not reported once", detail)
		return
	}
	body, ok := block34(rec.msg, "Error")
	if !ok {
		t.Fail("a report has no description of the error", detail)
		return
	}
	sa, sb := fmt.Sprintf("%#v", a), fmt.Sprintf("%#v", b)
	i := strings.Index(body, sa)
	if i < 0 || !strings.Contains(body[i+len(sa):], sb) {
		t.Fail("a report does not show the values in order", detail)
		return
	}
	if tr, _ := block34(rec.msg, "Error Trace"); !strings.HasPrefix(tr, "c34.go:"+itoa(line)+"\n") {
		t.Fail("a report does not begin with the place of the call", "line "+itoa(line)+"\n"+detail)
		return
	}
	d := ""
	if k := strings.Index(body[i:], "\n\nDiff:\n"); k >= 0 {
		d = body[i+k+len("\n\nDiff:\n"):]
		if d != "" {
			d += "\n"
		}
	} else if pa != pb { // an empty diff leaves no trace at the end of a report
		t.Fail("a report has no diff", detail)
		return
	}
	if pa != pb {
		if e := apply34(d, strings.SplitAfter(pa+"\n", "\n")[:strings.Count(pa, "\n")+1], strings.SplitAfter(pb+"\n", "\n")[:strings.Count(pb, "\n")+1]); e != "" {
			t.Fail("the diff of a report is wrong: "+e, detail)
			return
		}
		t.Count("diffs in reports applied", 1)
	}
	m, ok := block34(rec.msg, "Messages")
	if ok != (want != "") || m != want {
		t.Fail("a report does not show the caller's message", fmt.Sprintf("want %q\ngot %q\n%s", want, m, detail))
		return
	}
	n, ok := block34(rec.msg, "Test")
	if ok != name || name && n != (named31{}).Name() {
		t.Fail("a report does not show the test's name", fmt.Sprintf("got %q\n%s", n, detail))
		return
	}
	t.NonTrivial(detail)
	t.Count("reports read", 1)
}

// failing34 takes n bytes at most
type failing34 struct{ n int }

func (f *failing34) Write(b []byte) (int, error) {
	if len(b) > f.n {
		return f.n, errors.New("full")
	}
	f.n -= len(b)
	return len(b), nil
}

// c34messages looks for the caller's message and the name of the test in the report of any failing assertion
func c34messages(t *run.T) {
	r := t.R
	c := any31(t)
	for i := 0; c.want && i < 50; i++ {
		c = any31(t)
	}
	if c.want {
		return
	}
	rec := &rec31{}
	var tt assert.TestingT = rec
	name := chance(r, 2)
	if name {
		tt = named31{rec}
	}
	var m []interface{}
	want := ""
	text := pick(r, "plain", "two\nlines", " a\n\n b", "tab\tin it", "Error:\tx", "[]", "é")
	switch k := r.Intn(5); {
	case k == 0 && c.ff == nil, k == 1 && c.ff == nil:
		want = text + " 100%"
		m = []interface{}{want}
	case k == 0 || k == 1:
		m = []interface{}{text + " 100%%" + pick(r, "", " %d")}
		want = text + " 100%"
		if strings.HasSuffix(m[0].(string), "%d") {
			n := r.Intn(100)
			m = append(m, n)
			want += " " + itoa(n)
		} else {
			// not a format as nothing follows
			want = m[0].(string)
		}
	case k == 2:
		want = text + " 7 " + text
		m = []interface{}{"%s %d %v", text, 7, text}
	case k == 3:
		m = []interface{}{pick[interface{}](r, N31Err{r.Intn(9)}, map[string]int{"a": 1}, struct{ A, B int }{1, r.Intn(9)}, r.Intn(9), 'x', []string{"a b", "c"})}
		want = fmt.Sprintf("%+v", m[0])
	}
	format := c.ff != nil && len(m) > 0
	if format {
		_, format = m[0].(string)
		format = format && chance(r, 2)
	}
	fn := c.name
	if format {
		fn += "f"
		c.ff(tt, m[0].(string), m[1:])
	} else {
		c.f(tt, m)
	}
	t.Eval(1)
	detail := fmt.Sprintf("%s(%s)\nwant %q\n%s", fn, clip(c.desc, 500), want, clip(rec.msg, 2000))
	if rec.n != 1 {
		t.Failf(detail, "%s does not report once", fn)
		return
	}
	if got, ok := block34(rec.msg, "Messages"); ok != (want != "") || got != want {
		t.Failf(detail, "the report of %s does not show the caller's message", fn)
		return
	}
	if n, ok := block34(rec.msg, "Test"); ok != name || name && n != (named31{}).Name() {
		t.Failf(detail, "the report of %s does not show the test's name", fn)
		return
	}
	if _, ok := block34(rec.msg, "Error"); !ok {
		t.Failf(detail, "the report of %s does not say what is wrong", fn)
		return
	}
	if tr, _ := block34(rec.msg, "Error Trace"); !strings.HasPrefix(tr, "c31.go:") || !strings.Contains(tr, "\n\t\t\tc34.go:") {
		t.Failf(detail, "the report of %s does not begin with the place of the call", fn)
		return
	}
	t.Count("messages read: "+fn, 1)
	t.NonTrivial(fn, want, c.desc)
}

type text34 string
type int34 int

// c34types looks at reports on values that are printed alike and differ in their types
func c34types(t *run.T) {
	r := t.R
	n := r.Intn(100)
	s := pick(r, "a", "", "two\nlines")
	l := []interface{}{n, int8(n), uint8(n), int34(n), uint64(n), float64(n), float32(n), s, text34(s), []byte(s), []rune{rune(n)}, []int32{int32(n)}, []int{n}, [1]int{n}, nil, error(nil), (*int)(nil), []int(nil)}
	a, b := pick(r, l...), pick(r, l...)
	if reflect.TypeOf(a) == reflect.TypeOf(b) {
		return
	}
	rec := &rec31{}
	assert.Equal(rec, a, b)
	t.Eval(1)
	detail := fmt.Sprintf("%T %#v\n%T %#v\n%s", a, a, b, b, rec.msg)
	body, ok := block34(rec.msg, "Error")
	if rec.n != 1 || !ok {
		t.Fail("a failure is not reported once", detail)
		return
	}
	x := fmt.Sprintf("%T(%#v)", a, a)
	i := strings.Index(body, x)
	if i < 0 || !strings.Contains(body[i+len(x):], fmt.Sprintf("%T(%#v)", b, b)) {
		t.Fail("a report does not show the types of values of different types", detail)
		return
	}
	t.Count("reports on values of different types read", 1)
	t.NonTrivial(detail)
}
