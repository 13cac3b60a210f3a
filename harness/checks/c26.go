package checks

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/q"
	"vh/run"
	"vh/uni"
)

func init() {
	yarql.Implements((*I26)(nil), N26{})
	yarql.Implements((*I26)(nil), O26{})
	add(&run.Check{
		ID:     "C26",
		Rule:   "A case is a sequence of requests on one schema (or on copies of it in parallel) whose resolvers follow scripts given as arguments: read, set and overwrite values, read and replace the Go context (derived, ended, with a deadline in the past, custom, none), end it, read the position and keep it. Resolvers are methods and function fields with the request context at any argument position, directives on fields and fragments, under objects, pointers, lists, nested lists with nulls, interfaces, fragments and aliases of all lengths. A sequential model of values, context and path gives what every call has to see and the exact response, null with the context's error from the end of the context on. Requests get no values, shared or private maps, or nil maps, directly or as single and batched HTTP requests; the caller's maps are compared afterwards. Non-trivial: distinct query with at least one observation.",
		Assume: []string{"items of one HTTP batch share the values the caller gave for the batch", "the resolver during which the context ends counts as called after the end", "a directive on a field is at the field's position, on a fragment at its object's"},
		Quick:  12000, Thorough: 250000,
		Run: c26,
	})
}

// log26 is what the resolvers of a request saw
type log26 struct {
	mu    sync.Mutex
	lines []string
	kept  []kept26
	world *world26
}

type kept26 struct {
	p    json.RawMessage
	copy string
}

var logs26 sync.Map

// ctx26 is a Go context that can be ended
type ctx26 struct {
	context.Context
	name string
	mu   sync.Mutex
	err  error
}

func (c *ctx26) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err != nil {
		return c.err
	}
	return c.Context.Err()
}

func (c *ctx26) end(e error) { c.mu.Lock(); c.err = e; c.mu.Unlock() }

// world26 holds the contexts of a request by name
type world26 struct {
	ctxs    map[string]context.Context
	cancels map[string]func()
}

type key26 string

func newWorld26() *world26 {
	w := &world26{ctxs: map[string]context.Context{}, cancels: map[string]func(){}}
	for _, n := range []string{"a", "b", "c"} {
		c := &ctx26{Context: context.Background(), name: n}
		n := n
		w.ctxs[n] = context.WithValue(c, key26("name"), n)
		w.cancels[n] = func() { c.end(errors.New("ended \"" + n + "\"")) }
	}
	for _, n := range []string{"d", "e"} {
		c, cancel := context.WithCancel(context.WithValue(context.Background(), key26("name"), n))
		w.ctxs[n], w.cancels[n] = c, cancel
	}
	c, cancel := context.WithDeadline(context.WithValue(context.Background(), key26("name"), "f"), time.Unix(1000, 0))
	w.ctxs["f"], w.cancels["f"] = c, cancel
	// derived from e: ends with it
	c, cancel = context.WithCancel(context.WithValue(w.ctxs["e"], key26("name"), "g"))
	w.ctxs["g"], w.cancels["g"] = c, cancel
	return w
}

// A26 are the arguments of all resolvers
type A26 struct {
	Run int
	Ops []string
	N   int
}

// do26 follows a script
func do26(where string, ctx *yarql.Ctx, run int, ops []string) string {
	x, ok := logs26.Load(run)
	if !ok {
		return "no run"
	}
	l := x.(*log26)
	l.mu.Lock()
	defer l.mu.Unlock()
	line := where
	for _, op := range ops {
		arg := op[1:]
		switch op[0] {
		case 'g':
			line += fmt.Sprintf(" %s=%v", arg, ctx.GetValue(arg))
		case 'o':
			v, ok := ctx.GetValueOk(arg)
			line += fmt.Sprintf(" %s=%v,%v", arg, v, ok)
		case 's':
			kv := strings.SplitN(arg, "=", 2)
			if kv[1] == "nil" {
				ctx.SetValue(kv[0], nil)
			} else {
				ctx.SetValue(kv[0], kv[1])
			}
		case 'x':
			if arg == "nil" {
				ctx.SetContext(nil)
			} else {
				ctx.SetContext(l.world.ctxs[arg])
			}
		case 'c':
			l.world.cancels[arg]()
		case 'r':
			line += " ctx=" + name26(l.world, ctx.GetContext())
		case 'p':
			p := ctx.GetPath()
			line += " " + string(p)
			l.kept = append(l.kept, kept26{p, string(p)})
		}
	}
	l.lines = append(l.lines, line)
	return "ok"
}

func name26(w *world26, c context.Context) string {
	if c == nil {
		return "nil"
	}
	for n, x := range w.ctxs {
		if x == c {
			if c.Value(key26("name")) != n {
				return "damaged " + n
			}
			return n
		}
	}
	return "unknown"
}

// I26 is implemented by N26 and O26
type I26 interface {
	ResolveR(ctx *yarql.Ctx, a A26) string
}

// N26 is an object
type N26 struct {
	Plain *N26
	Lst   []*N26
	F     func(a A26, ctx *yarql.Ctx) N26
	G     func(ctx *yarql.Ctx, a A26) (string, error)
}

// O26 is another
type O26 struct{ B int }

// ResolveR is a field
func (O26) ResolveR(ctx *yarql.Ctx, a A26) string { return do26("r", ctx, a.Run, a.Ops) }

// ResolveR is a field
func (n N26) ResolveR(ctx *yarql.Ctx, a A26) string { return do26("r", ctx, a.Run, a.Ops) }

// ResolveE is a field
func (n N26) ResolveE(a A26, ctx *yarql.Ctx) (string, error) {
	s := do26("e", ctx, a.Run, a.Ops)
	if a.N == 1 {
		return s, errors.New("failed")
	}
	return s, nil
}

// ResolveO is a field
func (n N26) ResolveO(a struct{ Run int }, ctx *yarql.Ctx, b struct{ Ops []string }) N26 {
	do26("o", ctx, a.Run, b.Ops)
	return n
}

// ResolveP is a field
func (n N26) ResolveP(ctx *yarql.Ctx, a A26) (**N26, error) {
	do26("p", ctx, a.Run, a.Ops)
	if a.N == 1 {
		return nil, nil
	}
	p := &n
	return &p, nil
}

// ResolveL is a field
func (n N26) ResolveL(ctx *yarql.Ctx, a A26) []N26 {
	do26("l", ctx, a.Run, a.Ops)
	return make26(n, a.N)
}

func make26(n N26, k int) []N26 {
	l := []N26{}
	for i := 0; i < k; i++ {
		l = append(l, n)
	}
	return l
}

// ResolveD is a field
func (n N26) ResolveD(ctx *yarql.Ctx, a A26, again *yarql.Ctx) [][]*N26 {
	if ctx != again {
		do26("two contexts", ctx, a.Run, a.Ops)
	}
	do26("d", ctx, a.Run, a.Ops)
	return [][]*N26{{&n, nil}, {}, {nil, nil, &n}, nil}
}

// ResolveI is a field
func (n N26) ResolveI(ctx *yarql.Ctx, a A26) I26 {
	do26("i", ctx, a.Run, a.Ops)
	return impl26(n, a.N)
}

func impl26(n N26, k int) I26 {
	switch k % 3 {
	case 0:
		return n
	case 1:
		return O26{}
	}
	return nil
}

// ResolveJ is a field
func (n N26) ResolveJ(ctx *yarql.Ctx, a A26) ([]I26, error) {
	do26("j", ctx, a.Run, a.Ops)
	return []I26{impl26(n, a.N), impl26(n, a.N+1), impl26(n, a.N+2)}, nil
}

func schema26() (*yarql.Schema, error) {
	s := yarql.NewSchema()
	for _, w := range []yarql.DirectiveLocation{yarql.DirectiveLocationField, yarql.DirectiveLocationFragment, yarql.DirectiveLocationFragmentInline} {
		err := s.RegisterDirective(yarql.Directive{Name: "do", Where: []yarql.DirectiveLocation{w}, Method: func(a A26, ctx *yarql.Ctx) yarql.DirectiveModifier {
			do26("@", ctx, a.Run, a.Ops)
			return yarql.DirectiveModifier{Skip: a.N == 1}
		}})
		if err != nil {
			return nil, err
		}
	}
	base := &N26{}
	base.Plain, base.Lst = base, []*N26{base, nil, base}
	base.F = func(a A26, ctx *yarql.Ctx) N26 { do26("f", ctx, a.Run, a.Ops); return *base }
	base.G = func(ctx *yarql.Ctx, a A26) (string, error) {
		s := do26("g", ctx, a.Run, a.Ops)
		if a.N == 1 {
			return s, errors.New("failed")
		}
		return s, nil
	}
	return s, s.Parse(*base, uni.M0{}, nil)
}

// sel26 is a selection
type sel26 struct {
	key   string
	field string // "" inline fragment, "..." spread
	cond  string
	ops   []string
	n     int
	dirs  []dir26
	sub   []*sel26
	frag  string
}

type dir26 struct {
	ops  []string
	skip int
}

type gen26 struct {
	r     *rand.Rand
	run   int
	n     int
	frags []*sel26
	keys  map[string]bool
}

var keys26 = []string{"k", "l", "user", "", "é\"", "__x"}

func (g *gen26) ops() []string {
	r := g.r
	l := []string{}
	for i := r.Intn(5); i >= 0; i-- {
		k := keys26[r.Intn(len(keys26))]
		switch r.Intn(14) {
		case 0, 1:
			l = append(l, "g"+k)
		case 2, 3:
			l = append(l, "o"+k)
		case 4, 5, 6:
			g.n++
			v := itoa(g.n)
			if chance(r, 8) {
				v = "nil"
			}
			if k == "" {
				k = "e"
			}
			l = append(l, "s"+k+"="+v)
		case 7, 8, 9:
			l = append(l, "p")
		case 10, 11:
			l = append(l, "r")
		case 12:
			if chance(r, 2) {
				l = append(l, "x"+pick(r, "a", "b", "c", "d", "e", "g", "nil", "nil", "f"))
			}
		case 13:
			if chance(r, 3) {
				l = append(l, "c"+pick(r, "a", "b", "c", "d", "e", "g"))
			}
		}
	}
	return l
}

func (g *gen26) dirs() []dir26 {
	var l []dir26
	for chance(g.r, 6) && len(l) < 3 {
		d := dir26{ops: g.ops()}
		if chance(g.r, 5) {
			d.skip = 1
			l = append(l, d)
			break // what follows a skipping directive is unspecified
		}
		l = append(l, d)
	}
	return l
}

var name26s = []string{"a", "b", "key", "x1", "_x", "Long_Name_Of_A_Response_Key", "p", "r", "data", "errors", "O"}

func (g *gen26) key() string {
	for {
		k := name26s[g.r.Intn(len(name26s))]
		if chance(g.r, 15) {
			k = strings.Repeat(k, 1+g.r.Intn(12))
			if len(k) > 250 {
				k = k[:250]
			}
		}
		for n := 0; g.keys[k]; n++ {
			k += itoa(g.r.Intn(10))
		}
		g.keys[k] = true
		return k
	}
}

func (g *gen26) sels(depth int, iface bool) []*sel26 {
	r := g.r
	save := g.keys
	g.keys = map[string]bool{}
	defer func() { g.keys = save }()
	return g.inner(depth, iface, 1+r.Intn(4))
}

func (g *gen26) inner(depth int, iface bool, n int) []*sel26 {
	r := g.r
	var l []*sel26
	for i := 0; i < n; i++ {
		if chance(r, 6) && depth > 0 {
			s := &sel26{dirs: g.dirs(), cond: pick(r, "N26", "N26", "I26", "O26")}
			if s.cond == "N26" {
				s.sub = g.inner(depth-1, false, 1+r.Intn(3))
			} else {
				s.sub = g.inner(depth-1, true, 1+r.Intn(2))
			}
			if chance(r, 2) {
				s.frag = fmt.Sprintf("Fr%d", len(g.frags))
				g.frags = append(g.frags, s)
			}
			l = append(l, s)
			continue
		}
		f := pick(r, "r", "r", "e", "g", "o", "p", "l", "d", "i", "j", "f", "plain", "lst")
		if depth <= 0 || iface {
			f = pick(r, "r", "e", "g")
		}
		if iface {
			f = "r"
		}
		s := &sel26{field: f, key: g.key(), n: r.Intn(4), ops: g.ops(), dirs: g.dirs()}
		if f == "plain" || f == "lst" {
			s.ops = nil
		}
		switch f {
		case "i", "j":
			s.sub = g.sels(depth-1, true)
		case "o", "p", "l", "d", "f", "plain", "lst":
			s.sub = g.sels(depth-1, false)
		}
		l = append(l, s)
	}
	return l
}

// chain puts ss below n levels of objects
func (g *gen26) chain(ss []*sel26, n int) []*sel26 {
	r := g.r
	for ; n > 0; n-- {
		s := &sel26{field: pick(r, "plain", "o", "p", "f", "l", "plain"), sub: ss, key: pick(r, "a", "b", "n", "long_key")}
		switch s.field {
		case "plain":
		case "l":
			s.n = 1
			s.ops = []string{"p"}
		default:
			s.ops = pick(r, []string{}, []string{"p"}, []string{"gk"}, []string{"sk=" + itoa(n)}, []string{"r"})
		}
		ss = []*sel26{s}
		if chance(r, 12) {
			ss = []*sel26{{cond: pick(r, "N26"), sub: ss}}
		}
	}
	return ss
}

func (g *gen26) args(ops []string, n int, withN bool) string {
	var b strings.Builder
	fmt.Fprintf(&b, "(run:%d", g.run)
	if withN {
		fmt.Fprintf(&b, ",n:%d", n)
	}
	b.WriteString(",ops:[")
	for _, o := range ops {
		j, _ := json.Marshal(o)
		b.Write(j)
		b.WriteByte(' ')
	}
	b.WriteString("])")
	return b.String()
}

func (g *gen26) dirText(ds []dir26) string {
	s := ""
	for _, d := range ds {
		s += "@do" + g.args(d.ops, d.skip, true)
	}
	return s
}

func (g *gen26) text(ss []*sel26) string {
	var b strings.Builder
	b.WriteString("{")
	for _, s := range ss {
		switch {
		case s.field == "" && s.frag != "":
			b.WriteString("..." + s.frag + g.dirText(s.dirs) + " ")
		case s.field == "":
			b.WriteString("...on " + s.cond + g.dirText(s.dirs) + g.text(s.sub) + " ")
		default:
			b.WriteString(s.key + ":" + s.field)
			if s.ops != nil {
				b.WriteString(g.args(s.ops, s.n, s.field != "o"))
			}
			b.WriteString(g.dirText(s.dirs))
			if s.sub != nil {
				b.WriteString(g.text(s.sub))
			}
			b.WriteString(" ")
		}
	}
	b.WriteString("}")
	return b.String()
}

func (g *gen26) doc(ss []*sel26) string {
	s := g.text(ss)
	for _, f := range g.frags {
		s += " fragment " + f.frag + " on " + f.cond + g.text(f.sub)
	}
	return s
}

// sim26 is the model
type sim26 struct {
	vals  map[string]interface{}
	ctx   string // name, "" none
	ended map[string]string
	lines []string
	errs  []string // path and message
	sets  int
	after int
}

func (m *sim26) over() string { return m.ended[m.ctx] }

func (m *sim26) do(where, path string, ops []string) {
	line := where
	for _, op := range ops {
		arg := op[1:]
		switch op[0] {
		case 'g':
			line += fmt.Sprintf(" %s=%v", arg, m.vals[arg])
		case 'o':
			v, ok := m.vals[arg]
			line += fmt.Sprintf(" %s=%v,%v", arg, v, ok)
		case 's':
			kv := strings.SplitN(arg, "=", 2)
			m.sets++
			if kv[1] == "nil" {
				m.vals[kv[0]] = nil
			} else {
				m.vals[kv[0]] = kv[1]
			}
		case 'x':
			m.ctx = arg
			if arg == "nil" {
				m.ctx = ""
			}
		case 'c':
			switch arg {
			case "a", "b", "c":
				m.ended[arg] = "ended \"" + arg + "\""
			case "e":
				m.ended["e"] = context.Canceled.Error()
				m.ended["g"] = context.Canceled.Error()
			default:
				m.ended[arg] = context.Canceled.Error()
			}
		case 'r':
			n := m.ctx
			if n == "" {
				n = "nil"
			}
			line += " ctx=" + n
		case 'p':
			line += " [" + path + "]"
		}
	}
	m.lines = append(m.lines, line)
}

func joinPath26(p, e string) string {
	if p == "" {
		return e
	}
	return p + "," + e
}

func (m *sim26) sel(ss []*sel26, obj, path string) string {
	var parts []string
	m.into(ss, obj, path, &parts)
	return "{" + strings.Join(parts, ",") + "}"
}

func (m *sim26) dirs(ds []dir26, path string) (skip bool) {
	for _, d := range ds {
		m.do("@", path, d.ops)
		if d.skip == 1 {
			return true
		}
	}
	return false
}

func (m *sim26) into(ss []*sel26, obj, path string, parts *[]string) {
	for _, s := range ss {
		if s.field == "" {
			if m.dirs(s.dirs, path) {
				continue
			}
			if s.cond == obj || s.cond == "I26" {
				m.into(s.sub, obj, path, parts)
			}
			continue
		}
		p := joinPath26(path, `"`+s.key+`"`)
		if m.dirs(s.dirs, p) {
			continue
		}
		*parts = append(*parts, `"`+s.key+`":`+m.value(s, p))
	}
}

func (m *sim26) value(s *sel26, p string) string {
	if s.ops != nil {
		m.do(s.field, p, s.ops)
		if (s.field == "e" || s.field == "g") && s.n == 1 {
			m.errs = append(m.errs, "["+p+"] failed")
		}
		if e := m.over(); e != "" {
			m.errs = append(m.errs, "["+p+"] "+e)
			m.after++
			return "null"
		}
	}
	list := func(l ...string) string {
		out := "["
		for i, x := range l {
			if i > 0 {
				out += ","
			}
			if x == "" {
				out += "null"
			} else {
				out += m.sel(s.sub, x, joinPath26(p, itoa(i)))
			}
		}
		return out + "]"
	}
	imp := func(k int) string { return []string{"N26", "O26", ""}[k%3] }
	switch s.field {
	case "r", "e", "g":
		return `"ok"`
	case "o", "f", "plain":
		return m.sel(s.sub, "N26", p)
	case "p":
		if s.n == 1 {
			return "null"
		}
		return m.sel(s.sub, "N26", p)
	case "l":
		l := make([]string, s.n)
		for i := range l {
			l[i] = "N26"
		}
		return list(l...)
	case "lst":
		return list("N26", "", "N26")
	case "d":
		out := "["
		for i, row := range [][]string{{"N26", ""}, {}, {"", "", "N26"}} {
			if i > 0 {
				out += ","
			}
			pp := p
			p = joinPath26(p, itoa(i))
			out += list(row...)
			p = pp
		}
		return out + ",null]"
	case "i":
		if x := imp(s.n); x != "" {
			return m.sel(s.sub, x, p)
		}
		return "null"
	case "j":
		return list(imp(s.n), imp(s.n+1), imp(s.n+2))
	}
	panic(s.field)
}

// request26 is a request and what has to come of it
type request26 struct {
	text string
	run  int
	log  *log26
	sim  *sim26
	data string
}

var run26 int
var run26mu sync.Mutex

func newRequest26(r *rand.Rand, vals map[string]interface{}, ctx string) *request26 {
	return newRequest26w(r, vals, ctx, newWorld26(), map[string]string{"f": context.DeadlineExceeded.Error()})
}

func newRequest26w(r *rand.Rand, vals map[string]interface{}, ctx string, w *world26, ended map[string]string) *request26 {
	run26mu.Lock()
	run26++
	id := run26
	run26mu.Unlock()
	g := &gen26{r: r, run: id}
	ss := g.sels(3, false)
	if chance(r, 15) {
		ss = g.chain(ss, 1+r.Intn(pick(r, 10, 40, 40, 150)))
	}
	if chance(r, 60) {
		ss = append(ss, &sel26{field: "l", key: "far", n: 100 + r.Intn(300), ops: []string{}, sub: []*sel26{{field: "e", key: "x", ops: g.ops(), n: pick(r, 0, 0, 0, 1)}}})
	}
	rq := &request26{text: g.doc(ss), run: id, log: &log26{world: w}}
	rq.sim = &sim26{vals: vals, ctx: ctx, ended: ended}
	rq.data = rq.sim.sel(ss, "N26", "")
	logs26.Store(id, rq.log)
	return rq
}

// judge compares
func (rq *request26) judge(r *core.Response) string {
	if r.Bad != "" {
		return r.Bad
	}
	want, err := q.ParseJSON(rq.data)
	if err != nil {
		return "harness: " + err.Error()
	}
	rq.log.mu.Lock()
	defer rq.log.mu.Unlock()
	for i, l := range rq.sim.lines {
		if i >= len(rq.log.lines) {
			return "a resolver was not called: " + l
		}
		if rq.log.lines[i] != l {
			return fmt.Sprintf("resolver call %d saw %s instead of %s", i, rq.log.lines[i], l)
		}
	}
	if len(rq.log.lines) > len(rq.sim.lines) {
		return "a resolver was called too often: " + rq.log.lines[len(rq.sim.lines)]
	}
	for _, k := range rq.log.kept {
		if string(k.p) != k.copy {
			return fmt.Sprintf("a position %s a resolver kept changed to %s", k.copy, k.p)
		}
	}
	var errs []string
	for _, e := range r.Errs {
		errs = append(errs, e.Path+" "+e.Msg)
	}
	if strings.Join(errs, "\n") != strings.Join(rq.sim.errs, "\n") {
		return fmt.Sprintf("errors are %q instead of %q", errs, rq.sim.errs)
	}
	if r.Data == nil || r.Data.Text() != want.Text() {
		return "the data differs"
	}
	return ""
}

func (rq *request26) detail(r *core.Response) string {
	return fmt.Sprintf("%s\nexpected data: %s\nexpected errors: %q\nresponse: %s\nexpected calls: %q\ncalls: %q", rq.text, rq.data, rq.sim.errs, r.Raw, rq.sim.lines, rq.log.lines)
}

func (rq *request26) observe(t *run.T) {
	t.Eval(1)
	t.Count("resolver calls observed", len(rq.sim.lines))
	t.Count("values set", rq.sim.sets)
	t.Count("results withheld after the end of the context", rq.sim.after)
	t.Count("positions kept", len(rq.log.kept))
	if len(rq.sim.lines) > 0 {
		t.NonTrivial(run.HashOf(strings.ReplaceAll(rq.text, itoa(rq.run), "")))
	}
	logs26.Delete(rq.run)
}

func copyVals26(m map[string]interface{}) map[string]interface{} {
	c := map[string]interface{}{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func same26(a, b map[string]interface{}) bool {
	return fmt.Sprint(sorted26(a)) == fmt.Sprint(sorted26(b))
}

func sorted26(m map[string]interface{}) []string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%q=%v", k, v))
	}
	sort.Strings(l)
	return l
}

func preset26(r *rand.Rand) map[string]interface{} {
	m := map[string]interface{}{}
	for i := r.Intn(4); i > 0; i-- {
		m[keys26[r.Intn(len(keys26))]] = "pre" + itoa(i)
	}
	return m
}

func c26(t *run.T) {
	r := t.R
	s, err := schema26()
	if err != nil {
		t.Fail("a valid schema is refused", err.Error())
		return
	}
	if chance(r, 8) {
		c26parallel(t, s)
		return
	}
	c := &core.Case{R: r, W: &uni.World{}}
	shared := preset26(r)
	sharedSim := copyVals26(shared)
	for i := 0; i < 4; i++ {
		if chance(r, 10) {
			s = s.Copy()
		}
		if chance(r, 3) {
			c26http(t, c, s)
			continue
		}
		o := yarql.ResolveOptions{NoMeta: false, Tracing: chance(r, 10)}
		ctx := ""
		if chance(r, 2) {
			ctx = pick(r, "a", "b", "c", "d", "e", "g")
			if chance(r, 10) {
				ctx = "f"
			}
		}
		var given, sim map[string]interface{}
		var ptr *map[string]interface{}
		sim = map[string]interface{}{}
		switch r.Intn(4) {
		case 0:
			given = preset26(r)
			sim = copyVals26(given)
			ptr = &given
		case 1:
			ptr, sim = &shared, sharedSim
		case 2:
			ptr = &given // nil map
		}
		rq := newRequest26(r, sim, ctx)
		if ctx != "" {
			o.Context = rq.log.world.ctxs[ctx]
		}
		o.Values = ptr
		res := c.Run(s, rq.text, o)
		if d := rq.judge(res); d != "" {
			t.Fail(d, rq.detail(res))
			return
		}
		if ptr != nil && !same26(*ptr, sim) {
			t.Fail("the caller's values are not what the resolvers left", fmt.Sprintf("%s\n%v\nexpected: %v", rq.detail(res), *ptr, sim))
			return
		}
		rq.observe(t)
		if t.WantSample() {
			t.Sample("%s -> %q", rq.text, rq.log.lines)
		}
	}
}

// c26http does the same through HandleRequest
func c26http(t *run.T, c *core.Case, s *yarql.Schema) {
	r := t.R
	n := 1
	if chance(r, 2) {
		n = 1 + r.Intn(4)
	}
	opts := &yarql.RequestOptions{}
	w := newWorld26()
	ended := map[string]string{"f": context.DeadlineExceeded.Error()}
	ctx := ""
	if chance(r, 2) {
		ctx = pick(r, "a", "d", "e")
		opts.Context = w.ctxs[ctx]
	}
	var sim map[string]interface{}
	if chance(r, 2) {
		opts.Values = preset26(r)
		sim = copyVals26(opts.Values)
	}
	if chance(r, 4) && sim == nil && ctx == "" {
		opts = nil
	}
	var rqs []*request26
	var items []string
	for i := 0; i < n; i++ {
		m := sim
		if m == nil {
			m = map[string]interface{}{}
		}
		// the contexts are shared by the items: what one ends has ended for the next
		rq := newRequest26w(r, m, ctx, w, ended)
		rqs = append(rqs, rq)
		j, _ := json.Marshal(rq.text)
		items = append(items, `{"query":`+string(j)+`}`)
	}
	body := items[0]
	batch := n > 1 || chance(r, 5)
	if batch {
		body = "[" + strings.Join(items, ",") + "]"
	}
	res, _ := s.HandleRequest("POST", nil, nil, func() []byte { return []byte(body) }, "application/json", opts)
	raw := string(res)
	j, err := q.ParseJSON(raw)
	if err != nil {
		t.Fail("the HTTP response is no JSON", raw)
		return
	}
	for i, rq := range rqs {
		x := j
		if batch {
			if j.K != 'a' || len(j.A) != n {
				t.Fail("the HTTP response is no list of all responses", raw)
				return
			}
			x = j.A[i]
		}
		one := &core.Response{Raw: x.Text()}
		if l := x.Get("errors"); l != nil {
			for _, e := range l.A {
				if m := e.Get("message"); m != nil {
					one.GoErr = append(one.GoErr, m.S)
				}
			}
		}
		one.Envelope(false, false)
		if d := rq.judge(one); d != "" {
			t.Fail(fmt.Sprintf("HTTP request item %d of %d: %s", i, n, d), rq.detail(one))
			return
		}
		rq.observe(t)
		t.Count("HTTP request items", 1)
	}
	if sim != nil && !same26(opts.Values, sim) {
		t.Fail("the caller's values are not what the resolvers left", fmt.Sprintf("%s\n%v\nexpected: %v", body, opts.Values, sim))
	}
}

// c26parallel runs requests on copies at the same time
func c26parallel(t *run.T, s *yarql.Schema) {
	r := t.R
	var wg sync.WaitGroup
	var mu sync.Mutex
	for k := 0; k < 4; k++ {
		cp := s.Copy()
		seed := r.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			c := &core.Case{R: r, W: &uni.World{}}
			for i := 0; i < 5; i++ {
				given := preset26(r)
				sim := copyVals26(given)
				rq := newRequest26(r, sim, "d")
				o := yarql.ResolveOptions{Values: &given, Context: rq.log.world.ctxs["d"]}
				res := c.Run(cp, rq.text, o)
				d := rq.judge(res)
				if d == "" && !same26(given, sim) {
					d = "the caller's values are not what the resolvers left"
				}
				mu.Lock()
				if d != "" {
					t.Fail("on a copy in parallel: "+d, rq.detail(res))
				}
				rq.observe(t)
				t.Count("requests in parallel", 1)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
}
