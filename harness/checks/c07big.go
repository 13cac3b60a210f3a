package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/mjarkk/yarql"
	"vh/run"
)

type In07 struct {
	S string
	L []string
	N *In07
}

type args07 struct {
	S  string
	L  []string
	I  []int
	N  [][]int
	B  []byte
	P  []*string
	O  In07
	Ol []In07
	Pl []*In07
	Pp *In07
	F  []float64
}

type root07 struct{ kept *[]args07 }

// ResolveKeep keeps its arguments
func (q root07) ResolveKeep(a args07) int {
	*q.kept = append(*q.kept, a)
	return len(*q.kept)
}

// mut07 is the other root
type mut07 struct{}

func text07(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + r.Intn(26))
	}
	return string(b)
}

func object07(r *rand.Rand, size, depth int) map[string]interface{} {
	o := map[string]interface{}{"s": text07(r, r.Intn(size+1)), "l": list07(r, size, func() interface{} { return text07(r, r.Intn(20)) })}
	if depth > 0 && chance(r, 2) {
		o["n"] = object07(r, size, depth-1)
	}
	return o
}

func list07(r *rand.Rand, n int, item func() interface{}) []interface{} {
	l := make([]interface{}, r.Intn(n+1))
	for i := range l {
		l[i] = item()
	}
	return l
}

// literal07 writes a JSON like value as literal
func literal07(v interface{}) string {
	switch v := v.(type) {
	case map[string]interface{}:
		var l []string
		for _, k := range []string{"s", "l", "n"} {
			if e, ok := v[k]; ok {
				l = append(l, k+": "+literal07(e))
			}
		}
		return "{" + strings.Join(l, " ") + "}"
	case []interface{}:
		var l []string
		for _, e := range v {
			l = append(l, literal07(e))
		}
		return "[" + strings.Join(l, ", ") + "]"
	}
	b, _ := json.Marshal(v)
	return string(b)
}

// c07big keeps arguments with long lists over requests of growing and
// shrinking sizes and compares them with what was sent
func c07big(t *run.T) {
	r := t.R
	kept := []args07{}
	s := yarql.NewSchema()
	if err := s.Parse(root07{&kept}, mut07{}, nil); err != nil {
		t.Fail("schema refused: "+err.Error(), "")
		return
	}
	cp := s.Copy()
	types := map[string]string{"s": "String", "l": "[String!]", "i": "[Int!]", "n": "[[Int!]!]", "b": "[Int!]", "p": "[String]", "o": "In07", "ol": "[In07!]", "pl": "[In07]", "pp": "In07", "f": "[Float!]"}
	names := make([]string, 0, len(types))
	for name := range types {
		names = append(names, name)
	}
	sort.Strings(names)
	var sent []string
	n := 10 + r.Intn(30)
	for k := 0; k < n; k++ {
		size := pick(r, 1, 5, 17, 40, 100, 300)
		values := map[string]interface{}{}
		text := func() interface{} { return text07(r, r.Intn(30)) }
		number := func() interface{} { return r.Intn(1 << 30) }
		for _, name := range names {
			if chance(r, 3) {
				continue
			}
			switch name {
			case "s":
				values[name] = text07(r, size)
			case "l", "p":
				values[name] = list07(r, size, text)
			case "i":
				values[name] = list07(r, size, number)
			case "f":
				values[name] = list07(r, size, func() interface{} { return float64(r.Intn(1000)) + 0.5 })
			case "b":
				values[name] = list07(r, size, func() interface{} { return r.Intn(256) })
			case "n":
				values[name] = list07(r, size/4+1, func() interface{} { return list07(r, size/4+1, number) })
			case "ol", "pl":
				values[name] = list07(r, size/4+1, func() interface{} { return object07(r, size/8+1, 1) })
			default:
				values[name] = object07(r, size, 3)
			}
		}
		if len(values) == 0 {
			values["s"] = "x"
		}
		vars := map[string]interface{}{}
		var defs, args []string
		for _, name := range names {
			if _, ok := values[name]; !ok {
				continue
			}
			if chance(r, 2) {
				vars[name] = values[name]
				defs = append(defs, "$"+name+": "+types[name])
				args = append(args, name+": $"+name)
			} else {
				args = append(args, name+": "+literal07(values[name]))
			}
		}
		q := "query"
		if len(defs) > 0 {
			q += "(" + strings.Join(defs, " ") + ")"
		}
		q += "{keep(" + strings.Join(args, " ") + ")}"
		j, _ := json.Marshal(vars)
		one := s
		if chance(r, 3) {
			one = cp
		}
		if errs := one.Resolve([]byte(q), yarql.ResolveOptions{Variables: string(j), NoMeta: chance(r, 2)}); len(errs) > 0 {
			t.Fail("a valid request with long lists fails: "+errs[0].Error(), clip(q, 2000)+"\n"+clip(string(j), 2000))
			return
		}
		if len(kept) != k+1 {
			t.Fail(fmt.Sprintf("resolver called %d times in %d requests", len(kept), k+1), clip(q, 2000))
			return
		}
		want := args07{}
		b, _ := json.Marshal(values)
		// encoding/json wants bytes in base 64
		if l, ok := values["b"].([]interface{}); ok {
			raw := []byte{}
			for _, v := range l {
				raw = append(raw, byte(v.(int)))
			}
			values["b"] = raw
			b, _ = json.Marshal(values)
		}
		if err := json.Unmarshal(b, &want); err != nil {
			panic(err)
		}
		w, _ := json.Marshal(want)
		sent = append(sent, string(w))
		for i := range kept {
			t.Eval(1)
			now, _ := json.Marshal(kept[i])
			if string(now) != sent[i] {
				t.Fail(fmt.Sprintf("the arguments of request %d are not what was sent after request %d", i, k), "sent: "+clip(sent[i], 3000)+"\nnow:  "+clip(string(now), 3000)+"\nlast request: "+clip(q, 2000)+"\n"+clip(string(j), 2000))
				return
			}
		}
		t.NonTrivial("kept lists", w)
	}
	t.Count("requests with long lists kept", n)
}
