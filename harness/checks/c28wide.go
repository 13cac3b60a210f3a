package checks

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/q"
	"vh/run"
	"vh/uni"
)

// Many types that implement many interfaces

// Wide28 has what they share
type Wide28 struct {
	n    int
	next X0w28
}

// ResolveNum is a field
func (w Wide28) ResolveNum() int { return w.n }

// ResolveNext is a field
func (w Wide28) ResolveNext() X0w28 { return w.next }

type (
	X0w28 interface {
		ResolveNum() int
		ResolveNext() X0w28
	}
	X1w28 interface {
		ResolveNum() int
		ResolveNext() X0w28
	}
	X2w28 interface {
		ResolveNum() int
		ResolveNext() X0w28
	}
	X3w28 interface {
		ResolveNum() int
		ResolveNext() X0w28
	}
	X4w28 interface {
		ResolveNum() int
		ResolveNext() X0w28
	}
	X5w28 interface {
		ResolveNum() int
		ResolveNext() X0w28
	}
	X6w28 interface {
		ResolveNum() int
		ResolveNext() X0w28
	}
	X7w28 interface {
		ResolveNum() int
		ResolveNext() X0w28
	}
	X8w28 interface {
		ResolveNum() int
		ResolveNext() X0w28
	}
	X9w28 interface {
		ResolveNum() int
		ResolveNext() X0w28
	}
	X10w28 interface {
		ResolveNum() int
		ResolveNext() X0w28
	}
	X11w28 interface {
		ResolveNum() int
		ResolveNext() X0w28
	}
	W0w28 struct {
		Wide28
		Own0 int
	}
	W1w28 struct {
		Wide28
		Own1 int
	}
	W2w28 struct {
		Wide28
		Own2 int
	}
	W3w28 struct {
		Wide28
		Own3 int
	}
	W4w28 struct {
		Wide28
		Own4 int
	}
	W5w28 struct {
		Wide28
		Own5 int
	}
	W6w28 struct {
		Wide28
		Own6 int
	}
	W7w28 struct {
		Wide28
		Own7 int
	}
	W8w28 struct {
		Wide28
		Own8 int
	}
	W9w28 struct {
		Wide28
		Own9 int
	}
	W10w28 struct {
		Wide28
		Own10 int
	}
	W11w28 struct {
		Wide28
		Own11 int
	}
	W12w28 struct {
		Wide28
		Own12 int
	}
	W13w28 struct {
		Wide28
		Own13 int
	}
	W14w28 struct {
		Wide28
		Own14 int
	}
	W15w28 struct {
		Wide28
		Own15 int
	}
	W16w28 struct {
		Wide28
		Own16 int
	}
	W17w28 struct {
		Wide28
		Own17 int
	}
	W18w28 struct {
		Wide28
		Own18 int
	}
	W19w28 struct {
		Wide28
		Own19 int
	}
	W20w28 struct {
		Wide28
		Own20 int
	}
	W21w28 struct {
		Wide28
		Own21 int
	}
	W22w28 struct {
		Wide28
		Own22 int
	}
	W23w28 struct {
		Wide28
		Own23 int
	}
	W24w28 struct {
		Wide28
		Own24 int
	}
	W25w28 struct {
		Wide28
		Own25 int
	}
	W26w28 struct {
		Wide28
		Own26 int
	}
	W27w28 struct {
		Wide28
		Own27 int
	}
	W28w28 struct {
		Wide28
		Own28 int
	}
	W29w28 struct {
		Wide28
		Own29 int
	}
	W30w28 struct {
		Wide28
		Own30 int
	}
	W31w28 struct {
		Wide28
		Own31 int
	}
	W32w28 struct {
		Wide28
		Own32 int
	}
	W33w28 struct {
		Wide28
		Own33 int
	}
	W34w28 struct {
		Wide28
		Own34 int
	}
	W35w28 struct {
		Wide28
		Own35 int
	}
	W36w28 struct {
		Wide28
		Own36 int
	}
	W37w28 struct {
		Wide28
		Own37 int
	}
	W38w28 struct {
		Wide28
		Own38 int
	}
	W39w28 struct {
		Wide28
		Own39 int
	}
)

// RootW28 is the query
type RootW28 struct {
	Li0  []X0w28
	Li1  []X1w28
	Li2  []X2w28
	Li3  []X3w28
	Li4  []X4w28
	Li5  []X5w28
	Li6  []X6w28
	Li7  []X7w28
	Li8  []X8w28
	Li9  []X9w28
	Li10 []X10w28
	Li11 []X11w28
}

var wide28 = []func(w Wide28, own int) interface{}{
	func(w Wide28, own int) interface{} { return W0w28{w, own} },
	func(w Wide28, own int) interface{} { return W1w28{w, own} },
	func(w Wide28, own int) interface{} { return W2w28{w, own} },
	func(w Wide28, own int) interface{} { return W3w28{w, own} },
	func(w Wide28, own int) interface{} { return W4w28{w, own} },
	func(w Wide28, own int) interface{} { return W5w28{w, own} },
	func(w Wide28, own int) interface{} { return W6w28{w, own} },
	func(w Wide28, own int) interface{} { return W7w28{w, own} },
	func(w Wide28, own int) interface{} { return W8w28{w, own} },
	func(w Wide28, own int) interface{} { return W9w28{w, own} },
	func(w Wide28, own int) interface{} { return W10w28{w, own} },
	func(w Wide28, own int) interface{} { return W11w28{w, own} },
	func(w Wide28, own int) interface{} { return W12w28{w, own} },
	func(w Wide28, own int) interface{} { return W13w28{w, own} },
	func(w Wide28, own int) interface{} { return W14w28{w, own} },
	func(w Wide28, own int) interface{} { return W15w28{w, own} },
	func(w Wide28, own int) interface{} { return W16w28{w, own} },
	func(w Wide28, own int) interface{} { return W17w28{w, own} },
	func(w Wide28, own int) interface{} { return W18w28{w, own} },
	func(w Wide28, own int) interface{} { return W19w28{w, own} },
	func(w Wide28, own int) interface{} { return W20w28{w, own} },
	func(w Wide28, own int) interface{} { return W21w28{w, own} },
	func(w Wide28, own int) interface{} { return W22w28{w, own} },
	func(w Wide28, own int) interface{} { return W23w28{w, own} },
	func(w Wide28, own int) interface{} { return W24w28{w, own} },
	func(w Wide28, own int) interface{} { return W25w28{w, own} },
	func(w Wide28, own int) interface{} { return W26w28{w, own} },
	func(w Wide28, own int) interface{} { return W27w28{w, own} },
	func(w Wide28, own int) interface{} { return W28w28{w, own} },
	func(w Wide28, own int) interface{} { return W29w28{w, own} },
	func(w Wide28, own int) interface{} { return W30w28{w, own} },
	func(w Wide28, own int) interface{} { return W31w28{w, own} },
	func(w Wide28, own int) interface{} { return W32w28{w, own} },
	func(w Wide28, own int) interface{} { return W33w28{w, own} },
	func(w Wide28, own int) interface{} { return W34w28{w, own} },
	func(w Wide28, own int) interface{} { return W35w28{w, own} },
	func(w Wide28, own int) interface{} { return W36w28{w, own} },
	func(w Wide28, own int) interface{} { return W37w28{w, own} },
	func(w Wide28, own int) interface{} { return W38w28{w, own} },
	func(w Wide28, own int) interface{} { return W39w28{w, own} },
}

func init() {
	for _, w := range wide28 {
		v := w(Wide28{}, 0)
		yarql.Implements((*X0w28)(nil), v)
		yarql.Implements((*X1w28)(nil), v)
		yarql.Implements((*X2w28)(nil), v)
		yarql.Implements((*X3w28)(nil), v)
		yarql.Implements((*X4w28)(nil), v)
		yarql.Implements((*X5w28)(nil), v)
		yarql.Implements((*X6w28)(nil), v)
		yarql.Implements((*X7w28)(nil), v)
		yarql.Implements((*X8w28)(nil), v)
		yarql.Implements((*X9w28)(nil), v)
		yarql.Implements((*X10w28)(nil), v)
		yarql.Implements((*X11w28)(nil), v)
	}
}

// c28wide looks at every type through every interface
func c28wide(t *run.T) {
	r := t.R
	root := RootW28{}
	rv := reflect.ValueOf(&root).Elem()
	exp := &q.J{K: 'o'}
	text := "{"
	for _, k := range r.Perm(rv.NumField()) {
		var sel []string
		conds := []func(i int, o *q.J){}
		name := "li" + itoa(k)
		for x := 1 + r.Intn(30); x > 0; x-- {
			a := "a" + itoa(x)
			switch r.Intn(4) {
			case 0:
				sel = append(sel, a+":__typename")
				conds = append(conds, func(i int, o *q.J) { o.Set(a, &q.J{K: 's', S: fmt.Sprintf("W%dw28", i)}) })
			case 1:
				on := r.Intn(len(wide28))
				sel = append(sel, fmt.Sprintf("...on W%dw28{%s:own%d}", on, a, on))
				conds = append(conds, func(i int, o *q.J) {
					if i == on {
						o.Set(a, &q.J{K: 'd', S: itoa(2*i + k)})
					}
				})
			case 2:
				on := r.Intn(rv.NumField())
				sel = append(sel, fmt.Sprintf("...on X%dw28{%s:num}", on, a))
				conds = append(conds, func(i int, o *q.J) { o.Set(a, &q.J{K: 'd', S: itoa(i + k)}) })
			case 3:
				sel = append(sel, a+":next{num}")
				conds = append(conds, func(i int, o *q.J) {
					if i == 0 {
						o.Set(a, q.Null())
					} else {
						n := &q.J{K: 'o'}
						n.Set("num", &q.J{K: 'd', S: itoa(i - 1)})
						o.Set(a, n)
					}
				})
			}
		}
		text += name + "{" + strings.Join(sel, " ") + "}"
		l := &q.J{K: 'a'}
		s := reflect.MakeSlice(rv.Field(k).Type(), 0, 0)
		for _, i := range r.Perm(len(wide28)) {
			w := Wide28{n: i + k}
			if i > 0 {
				w.next = wide28[(i*7)%len(wide28)](Wide28{n: i - 1}, 0).(X0w28)
			}
			s = reflect.Append(s, reflect.ValueOf(wide28[i](w, 2*i+k)))
			o := &q.J{K: 'o'}
			for _, c := range conds {
				c(i, o)
			}
			l.A = append(l.A, o)
		}
		rv.Field(k).Set(s)
		exp.Set(name, l)
	}
	text += "}"
	s := yarql.NewSchema()
	if err := s.Parse(root, uni.M0{}, nil); err != nil {
		t.Fail("a valid schema is refused: "+err.Error(), "")
		return
	}
	if chance(r, 2) {
		s = s.Copy()
	}
	c := &core.Case{R: r, W: &uni.World{}}
	res := c.Run(s, text, optsT{})
	t.Eval(1)
	t.Count("schemas of many interfaces with many implementations", 1)
	t.NonTrivial("wide", text)
	if res.Bad != "" || len(res.Errs) > 0 {
		t.Fail(fmt.Sprint(res.Bad, res.GoErr), text)
		return
	}
	if d := q.Diff(exp, res.Data); d != "" {
		t.Fail("data: "+d, text)
		return
	}
	// introspection lists all of them
	res = c.Run(s, "{__schema{types{name kind interfaces{name}possibleTypes{name}}}}", optsT{})
	if res.Bad != "" || len(res.Errs) > 0 {
		t.Fail(fmt.Sprint(res.Bad, res.GoErr), "introspection")
		return
	}
	names := func(j *q.J) string {
		var l []string
		for _, x := range j.A {
			l = append(l, str(x.Get("name")))
		}
		sort.Strings(l)
		return strings.Join(l, " ")
	}
	var ws, xs []string
	for i := range wide28 {
		ws = append(ws, fmt.Sprintf("W%dw28", i))
	}
	for k := 0; k < rv.NumField(); k++ {
		xs = append(xs, fmt.Sprintf("X%dw28", k))
	}
	sort.Strings(ws)
	sort.Strings(xs)
	seen := 0
	for _, ty := range res.Data.Get("__schema").Get("types").A {
		n := str(ty.Get("name"))
		switch {
		case !strings.HasSuffix(n, "w28"):
		case n[0] == 'W':
			seen++
			if names(ty.Get("interfaces")) != strings.Join(xs, " ") {
				t.Fail(n+" implements "+names(ty.Get("interfaces")), "")
				return
			}
		case n[0] == 'X':
			seen++
			if names(ty.Get("possibleTypes")) != strings.Join(ws, " ") {
				t.Fail(n+" is implemented by "+names(ty.Get("possibleTypes")), "")
				return
			}
		}
	}
	if seen != len(ws)+len(xs) {
		t.Fail(fmt.Sprintf("%d of %d types are listed", seen, len(ws)+len(xs)), "")
	}
}
