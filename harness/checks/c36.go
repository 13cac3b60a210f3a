package checks

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"reflect"

	"github.com/mjarkk/yarql"
	"vh/core"
	"vh/q"
	"vh/run"
	"vh/uni"
)

func init() {
	add(&run.Check{
		ID:     "C36",
		Rule:   "A case is a schema over random data, with copies made before and after changes, whose owner changes the data between requests wherever it is reached through pointers and slices: scalars, nested values, pointers set and cleared, lists whose elements change, values in interfaces. The enum maps are emptied after their registration. Requests (repeated ones from the cache, valid, failing, damaged, introspection, HTTP) run on all members; every valid one has to give what the reference interpreter finds in the data as it is now, and after each request all data reachable from the roots, and the bytes of the request, have to be as before it. Non-trivial: distinct request answered after a change.",
		Assume: []string{"the roots themselves are given to Parse by value: their own scalar fields are not the owner's to change"},
		Quick:  2500, Thorough: 60000,
		Run: c36,
	})
}

// snap36 digests everything reachable from v
func snap36(w io.Writer, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			io.WriteString(w, "nil,")
			return
		}
		if v.Type() == reflect.TypeOf(&uni.World{}) {
			return
		}
		fmt.Fprintf(w, "&%x", v.Pointer())
		snap36(w, v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			io.WriteString(w, "nil,")
			return
		}
		fmt.Fprintf(w, "%v", v.Elem().Type())
		snap36(w, v.Elem())
	case reflect.Slice:
		fmt.Fprintf(w, "[%v %d %d %x", v.IsNil(), v.Len(), v.Cap(), v.Pointer())
		if v.Type().Elem().Kind() == reflect.Uint8 {
			w.Write(v.Bytes())
			return
		}
		v = v.Slice(0, v.Cap())
		for i := 0; i < v.Len(); i++ {
			snap36(w, v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			snap36(w, v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Name == "loc" { // of a time
				fmt.Fprintf(w, "%x,", v.Field(i).Pointer())
				continue
			}
			snap36(w, v.Field(i))
		}
	case reflect.Func:
		fmt.Fprintf(w, "%x", v.Pointer())
	case reflect.Map, reflect.Chan:
	case reflect.String:
		fmt.Fprintf(w, "%q,", v.String())
	case reflect.Bool:
		fmt.Fprintf(w, "%v,", v.Bool())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(w, "%x,", v.Float())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(w, "%d,", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprintf(w, "%d,", v.Uint())
	}
}

// change36 changes data that is reached through pointers and slices
func change36(r *rand.Rand, f *core.Filler, v reflect.Value, mine bool, left *int) {
	if *left <= 0 {
		return
	}
	t := v.Type()
	if mine && v.CanSet() && chance(r, 4) && t != reflect.TypeOf(&uni.World{}) {
		f.Budget = 1 + r.Intn(30)
		n := reflect.New(t).Elem()
		f.Fill(n, 2)
		v.Set(n)
		*left--
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && t != reflect.TypeOf(&uni.World{}) {
			change36(r, f, v.Elem(), true, left)
		}
	case reflect.Interface:
		if !v.IsNil() {
			change36(r, f, v.Elem(), false, left)
		}
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 && !mine {
			return
		}
		for _, i := range r.Perm(v.Len()) {
			if i > 20 && chance(r, 2) {
				continue
			}
			change36(r, f, v.Index(i), true, left)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			change36(r, f, v.Index(i), mine, left)
		}
	case reflect.Struct:
		if t.PkgPath() == "time" {
			return
		}
		for _, i := range r.Perm(v.NumField()) {
			if t.Field(i).PkgPath == "" && t.Field(i).Name != "Uid" {
				change36(r, f, v.Field(i), mine, left)
			}
		}
	}
}

func c36(t *run.T) {
	r := t.R
	c := newCase(t, core.CaseOpt{Budget: 400})
	if c == nil {
		return
	}
	// enum maps of our own, which are emptied after their registration
	s := yarql.NewSchema()
	for _, e := range uni.EnumMaps {
		m := reflect.MakeMap(reflect.TypeOf(e))
		for _, k := range reflect.ValueOf(e).MapKeys() {
			m.SetMapIndex(k, reflect.ValueOf(e).MapIndex(k))
		}
		if _, err := s.RegisterEnum(m.Interface()); err != nil {
			t.Fail("a valid enum is refused", err.Error())
			return
		}
		for _, k := range m.MapKeys() {
			if chance(r, 2) {
				m.SetMapIndex(k, reflect.Value{})
			} else {
				m.SetMapIndex(k, m.MapIndex(m.MapKeys()[0]))
			}
		}
	}
	for _, d := range c.Dirs {
		var w []yarql.DirectiveLocation
		for k, l := range map[q.SelKind]yarql.DirectiveLocation{q.SField: yarql.DirectiveLocationField, q.SSpread: yarql.DirectiveLocationFragment, q.SInline: yarql.DirectiveLocationFragmentInline} {
			if d.Where[k] {
				w = append(w, l)
			}
		}
		if err := s.RegisterDirective(yarql.Directive{Name: d.Name, Where: w, Method: d.Method(c.W), Description: d.Desc}); err != nil {
			t.Fail("a valid directive is refused", err.Error())
			return
		}
	}
	if err := s.Parse(c.QV.Interface(), c.MV.Interface(), nil); err != nil {
		t.Fail("a valid schema is refused", err.Error())
		return
	}
	fam := []*yarql.Schema{s, s.Copy()}
	min := pick(r, 0, 300, 100000)
	for _, s := range fam {
		s.SetCacheRules(&min)
	}
	if chance(r, 3) {
		c.W.FailMod = uint64(3 + r.Intn(9))
	}
	opt := core.DefaultOpt()
	opt.Budget = pick(r, 60, 200)
	opt.FieldP = pick(r, 50, 90)
	g := core.NewGen(c, r, opt)
	pool := []*core.Request{g.Request(), g.Request()}
	f := core.NewFiller(r, c.M, c.W)
	f.Nils = 5
	digest := func() uint64 {
		h := fnv.New64a()
		snap36(h, c.QV)
		snap36(h, c.MV)
		return h.Sum64()
	}
	changed := 0
	for i := 0; i < 14; i++ {
		switch {
		case chance(r, 3):
			left := 1 + r.Intn(12)
			n := left
			change36(r, f, c.QV, false, &left)
			change36(r, f, c.MV, false, &left)
			changed += n - left
			t.Count("places changed", n-left)
			continue
		case chance(r, 10) && len(fam) < 5:
			fam = append(fam, pick(r, fam...).Copy())
			continue
		}
		before := digest()
		s := pick(r, fam...)
		if chance(r, 4) {
			a := anyRequest(t, c, g, pool)
			a.run(c, s, true)
			t.Count("other requests", 1)
			if digest() != before {
				t.Fail("a request changes the data it reads", a.String())
				return
			}
			continue
		}
		rq := pick(r, pool...)
		e := c.Interpret(rq)
		o := rq.Options()
		text := []byte(rq.Text)
		c.W.Log = nil
		resp := c.Run(s, rq.Text, o)
		observe(t, rq, e)
		if d := e.Judge(resp, core.PAll); d != "" {
			t.Fail(d, fmt.Sprintf("after %d changes of the data\n%s", changed, describe(rq, resp)))
			return
		}
		if digest() != before {
			t.Fail("a request changes the data it reads", describe(rq, resp))
			return
		}
		if chance(r, 3) {
			s.Resolve(text, o)
			if !bytes.Equal(text, []byte(rq.Text)) {
				t.Fail("Resolve changes the bytes of the query", describe(rq, resp))
				return
			}
		}
		if changed > 0 && e.Fields > 1 {
			t.NonTrivial(shapeOf(c, rq), before)
			t.Count("requests after a change", 1)
		}
		sample(t, rq, resp)
	}
}
