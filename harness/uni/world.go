// Package uni holds the Go types the generated schemas are made of, and the
// World: the recorder every resolver of those types reports to.
package uni

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"mime/multipart"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/mjarkk/yarql"
)

// Call is one observed call of a resolver or directive
type Call struct {
	Fn   string
	Uid  int64
	Args string
	Path string // only of functions that take the request context
}

func (c Call) String() string {
	return fmt.Sprintf("%s#%d(%s)@%s", c.Fn, c.Uid, c.Args, c.Path)
}

// Env is what the reference interpreter provides in place of the request context
type Env struct {
	Path string
}

// Kept is something a resolver holds on to
type Kept struct {
	What string
	Val  interface{}
	Then string // how it looked when it was received
}

// World connects the resolvers of one schema with the monitors
type World struct {
	Quiet    bool // record nothing (used when resolvers run concurrently)
	Jitter   bool // give way to other goroutines in resolvers
	Log      []Call
	Oracle   *Env // set while the reference interpreter runs
	FailSeed uint64
	FailMod  uint64 // one in FailMod calls fails, 0 = none
	Retain   bool
	Kept     []Kept
	Hook     func(fn string, uid int64, ctx *yarql.Ctx, args interface{}) error
	NextUid  int64
	MaxLog   int
}

// NewUid returns a fresh identity
func (w *World) NewUid() int64 {
	w.NextUid++
	return w.NextUid
}

// Hash hashes
func Hash(parts ...interface{}) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprint(h, p, "\x00")
	}
	x := h.Sum64()
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

var messages = []string{"failed", "it's \"quoted\"", "back\\slash", "line\nbreak", "tab\tand \x01", "ünïcödé ☃ 😀", "%d %s", "</script>", "bad utf8 \xff\xc3", "\u2028\u2029\ufeff", ""}

// FailFor returns the error the fail plan has for a call
func (w *World) FailFor(fn string, uid int64) error {
	if w == nil || w.FailMod == 0 {
		return nil
	}
	h := Hash(w.FailSeed, fn, uid)
	if h%w.FailMod != 0 {
		return nil
	}
	if (h>>40)%16 == 0 {
		return errors.New("")
	}
	return errors.New(messages[(h>>20)%uint64(len(messages))] + " " + fn + "#" + strconv.FormatInt(uid, 10))
}

// Call is invoked by every resolver
func (w *World) Call(fn string, uid int64, ctx *yarql.Ctx, hasCtx bool, args ...interface{}) error {
	if w == nil {
		return nil
	}
	if w.Quiet {
		if w.Jitter {
			runtime.Gosched()
		}
		return w.FailFor(fn, uid)
	}
	var vals []string
	for _, a := range args {
		vals = append(vals, Canon(reflect.ValueOf(a)))
	}
	c := Call{Fn: fn, Uid: uid, Args: strings.Join(vals, ";")}
	if hasCtx {
		if w.Oracle != nil {
			c.Path = w.Oracle.Path
		} else {
			c.Path = compactPath(ctx.GetPath())
		}
	}
	if w.MaxLog == 0 || len(w.Log) < w.MaxLog {
		w.Log = append(w.Log, c)
	}
	if w.Retain && w.Oracle == nil {
		for i, a := range args {
			w.Kept = append(w.Kept, Kept{What: "arguments of " + fn, Val: a, Then: vals[i]})
		}
		if hasCtx {
			p := ctx.GetPath()
			w.Kept = append(w.Kept, Kept{What: "path in " + fn, Val: p, Then: string(p)})
		}
	}
	if w.Hook != nil {
		var a interface{}
		if len(args) > 0 {
			a = args[0]
		}
		if err := w.Hook(fn, uid, ctx, a); err != nil {
			return err
		}
	}
	return w.FailFor(fn, uid)
}

func compactPath(p json.RawMessage) string {
	var l []interface{}
	if err := json.Unmarshal(p, &l); err != nil {
		return "invalid path: " + string(p)
	}
	b, _ := json.Marshal(l)
	return string(b)
}

// Echo returns s with a digest of the arguments, so that a response shows
// which arguments a resolver got
func (w *World) Echo(s string, args ...interface{}) string {
	if len(args) == 0 {
		return s
	}
	var vals []interface{}
	for _, a := range args {
		vals = append(vals, Canon(reflect.ValueOf(a)))
	}
	return s + "|" + strconv.FormatUint(Hash(vals...)&0xffffff, 36)
}

var timeType = reflect.TypeOf(time.Time{})
var fileType = reflect.TypeOf(&multipart.FileHeader{})

// Canon renders a value such that equal values, and only those, look equal
func Canon(v reflect.Value) string {
	var b strings.Builder
	canon(&b, v, 0)
	return b.String()
}

func canon(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 60 {
		b.WriteString("...")
		return
	}
	if !v.IsValid() {
		b.WriteString("invalid")
		return
	}
	if v.Type() == timeType {
		t := v.Interface().(time.Time)
		if t.IsZero() {
			b.WriteString("t0")
			return
		}
		b.WriteString(t.UTC().Format(time.RFC3339Nano))
		return
	}
	if v.Type() == fileType {
		if v.IsNil() {
			b.WriteString("nofile")
			return
		}
		f := v.Interface().(*multipart.FileHeader)
		fmt.Fprintf(b, "file(%q,%p)", f.Filename, f)
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		fmt.Fprintf(b, "f%x(%v)", math.Float64bits(f), f)
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('&')
		canon(b, v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			canon(b, v.Index(i), depth+1)
		}
		b.WriteByte(']')
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			b.WriteString(f.Name)
			b.WriteByte(':')
			canon(b, v.Field(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Map:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return Canon(keys[i]) < Canon(keys[j]) })
		b.WriteString("map{")
		for _, k := range keys {
			canon(b, k, depth+1)
			b.WriteByte(':')
			canon(b, v.MapIndex(k), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString(v.Elem().Type().String())
		canon(b, v.Elem(), depth+1)
	default:
		b.WriteString("?" + v.Kind().String())
	}
}
