package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/mjarkk/yarql/helpers"
	"vh/core"
	"vh/q"
	"vh/run"
)

func init() {
	add(&run.Check{
		ID:     "C37",
		Rule:   "The encoders are called directly with random values and random buffers (empty, nil, with content, with spare capacity that holds other bytes, shared by several calls in a row). What was in the buffer must stay, what is appended must be exactly one JSON value that two independent readers read back as the value (bytes that are no UTF-8 as U+FFFD each, floats bit for bit of their size, times to the millisecond in UTC), without control characters, U+2028 or U+2029. Times are read back by ParseIso8601String; of damaged time texts it may accept only what it would write for the time it returns, and otherwise has to return the zero time and an error. Pointer helpers give a new pointer to the value each time. Non-trivial: distinct value encoded.",
		Assume: []string{"years 0 to 9999", "infinities and NaN are written as 0.0", "a one digit hour and a comma before or a sign in the milliseconds are accepted, as Go does", "CheckStrPtr gives nil for an empty text, as documented"},
		Quick:  60000, Thorough: 3000000,
		Run: c37,
	})
}

var signed37 = regexp.MustCompile(`[.,][-+]`)
var hour37 = regexp.MustCompile(`T(\d):`)

// buf37 makes a buffer with content
func buf37(r *rand.Rand) []byte {
	switch r.Intn(4) {
	case 0:
		return nil
	case 1:
		return make([]byte, 0, r.Intn(40))
	}
	b := []byte(strings.Repeat(pick(r, `{"a":"`, "e-0", `\`, "1e-0", "-", "x"), 1+r.Intn(6)))
	b = append(b, strings.Repeat("9", r.Intn(50))...)
	return b[:r.Intn(len(b)+1)]
}

func text37(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return core.RandBytesString(r)
	case 1:
		b := make([]byte, r.Intn(20))
		for i := range b {
			b[i] = pick(r, byte(r.Intn(256)), byte(r.Intn(0x20)), byte(0x7d+r.Intn(5)), 0xe2, 0x80, 0xa8, 0xa9, 0xed, 0xf4, '"', '\\')
		}
		return string(b)
	}
	return core.RandString(r) + core.RandString(r)
}

func c37(t *run.T) {
	r := t.R
	buf := buf37(r)
	for i := 0; i < 4; i++ {
		if len(buf) > 2000 {
			buf = buf37(r)
		}
		old := append([]byte{}, buf...)
		desc, fail := "", ""
		switch r.Intn(6) {
		case 0, 1:
			s := text37(r)
			desc = fmt.Sprintf("text %q", clip(s, 300))
			helpers.StringToJSON(s, &buf)
			if len(buf) < len(old) {
				break
			}
			got := buf[len(old):]
			want := fix37(s)
			var back string
			if err := json.Unmarshal(got, &back); err != nil || back != want {
				fail = fmt.Sprintf("read as %q, %v", back, err)
			} else if j, err := q.ParseJSON(string(got)); err != nil || j.S != want {
				fail = fmt.Sprintf("read by the second reader as %v, %v", j, err)
			} else if !utf8.Valid(got) || bytes.ContainsRune(got, '\u2028') || bytes.ContainsRune(got, '\u2029') {
				fail = "unsafe characters"
			}
			for _, c := range got {
				if c < 0x20 {
					fail = "control characters"
				}
			}
			t.Max("bytes of a text", len(s))
			t.NonTrivial(s)
		case 2, 3:
			bits := pick(r, 32, 64)
			f := core.RandFloat(r, bits)
			switch r.Intn(5) {
			case 0:
				f = math.Float64frombits(r.Uint64())
			case 1:
				f = math.Ldexp(float64(1+r.Intn(9)), r.Intn(200)-100)
			case 2:
				f = float64(1+r.Intn(99)) * math.Pow(10, float64(r.Intn(60)-30))
			}
			if chance(r, 2) {
				f = -f
			}
			if bits == 32 {
				f = float64(float32(f))
			}
			desc = fmt.Sprintf("float%d %v", bits, f)
			helpers.FloatToJSON(bits, f, &buf)
			if len(buf) < len(old) {
				break
			}
			got := string(buf[len(old):])
			x, err := strconv.ParseFloat(got, bits)
			switch {
			case math.IsInf(f, 0) || math.IsNaN(f):
				if got != "0.0" {
					fail = "not 0.0"
				}
			case err != nil || x != f || math.Signbit(x) != math.Signbit(f):
				fail = fmt.Sprintf("read as %v, %v", x, err)
			case !json.Valid([]byte(got)):
				fail = "not JSON"
			}
			if j, err := q.ParseJSON(got); err != nil || j.K != 'd' {
				fail = "not a JSON number"
			}
			t.NonTrivial(bits, f)
		case 4:
			x := core.RandTime(r)
			desc = fmt.Sprintf("time %v", x)
			if y := x.UTC().Year(); y < 0 || y > 9999 {
				continue
			}
			helpers.TimeToIso8601String(&buf, x)
			if len(buf) < len(old) {
				break
			}
			got := string(buf[len(old):])
			back, err := helpers.ParseIso8601String(got)
			_, off := back.Zone()
			switch {
			case err != nil || back.UnixMilli() != x.UnixMilli() || back.Nanosecond()%1000000 != 0 || off != 0:
				fail = fmt.Sprintf("read as %v, %v", back, err)
			case got != own37(x):
				fail = "written in another way: " + got
			}
			t.NonTrivial(x.UnixNano())
		case 5:
			s := own37(core.RandTime(r))
			for k := 0; k < r.Intn(3); k++ {
				b := []byte(s)
				at := r.Intn(len(b))
				switch r.Intn(4) {
				case 0:
					b[at] = pick(r, []byte("0123456789TZ:-+., \x00a")...)
				case 1:
					b = append(b[:at:at], b[at+1:]...)
				case 2:
					b = append(b[:at:at], append([]byte{pick(r, []byte("0123456789TZ:-+., ")...)}, b[at:]...)...)
				case 3:
					b = append(b[:at:at], []byte(pick(r, "24:00:00.000Z", "-13-01T00:00:00.000Z", "+01:00", "00Z", "Z"))...)
				}
				if s = string(b); s == "" {
					break
				}
			}
			desc = fmt.Sprintf("time text %q", s)
			x, err := helpers.ParseIso8601String(s)
			norm := hour37.ReplaceAllString(strings.Replace(s, ",", ".", 1), "T0$1:")
			if err != nil {
				t.Count("time texts refused", 1)
				if !x.IsZero() {
					fail = fmt.Sprintf("an error with the time %v", x)
				} else if y, e2 := time.Parse("2006-01-02T15:04:05.999Z", s); e2 == nil && own37(y) == s {
					fail = "refused: " + err.Error()
				}
			} else {
				t.Count("time texts accepted", 1)
				if own37(x) != norm && !signed37.MatchString(s) {
					fail = fmt.Sprintf("accepted as %v", x)
				}
			}
			t.NonTrivial(s)
		}
		t.Eval(1)
		if fail == "" && (len(buf) < len(old) || !bytes.Equal(buf[:len(old)], old)) {
			fail = "what was in the buffer changes"
		}
		if fail != "" {
			t.Fail("an encoder is wrong: "+fail, fmt.Sprintf("%s\nbuffer %q, then %q", desc, old, clip(string(buf), 1000)))
			return
		}
		if t.WantSample() {
			t.Sample("%s -> %q", desc, clip(string(buf[len(old):]), 100))
		}
	}
	n := r.Uint64()
	a, b := helpers.Uint64Ptr(n), helpers.Uint64Ptr(n)
	s := helpers.StrPtr(text37(r))
	if *a != n || *b != n || a == b || *helpers.Int64Ptr(int64(n)) != int64(n) || *helpers.Int32Ptr(int32(n)) != int32(n) || *helpers.Int16Ptr(int16(n)) != int16(n) || *helpers.Int8Ptr(int8(n)) != int8(n) || *helpers.IntPtr(int(n)) != int(n) ||
		*helpers.Uint32Ptr(uint32(n)) != uint32(n) || *helpers.Uint16Ptr(uint16(n)) != uint16(n) || *helpers.Uint8Ptr(uint8(n)) != uint8(n) || *helpers.UintPtr(uint(n)) != uint(n) || *helpers.BoolPtr(n&1 == 1) != (n&1 == 1) || helpers.StrPtr(*s) == s || *helpers.StrPtr(*s) != *s {
		t.Fail("a pointer helper gives another value or a shared pointer", fmt.Sprint(n))
	}
	if p, e := helpers.CheckStrPtr(*s), helpers.CheckStrPtr(""); e != nil || (p == nil) != (*s == "") || p != nil && (*p != *s || p == s) {
		t.Fail("CheckStrPtr gives another value, a shared pointer, or a pointer to an empty text", fmt.Sprintf("%q", *s))
	}
}

// fix37 is what a reader of the encoded text gets
func fix37(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		if c == utf8.RuneError && n == 1 {
			b.WriteRune(utf8.RuneError)
		} else {
			b.WriteString(s[i : i+n])
		}
		i += n
	}
	return b.String()
}

// own37 writes a time
func own37(t time.Time) string {
	t = t.UTC()
	return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d.%03dZ", t.Year(), int(t.Month()), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond()/1000000)
}
