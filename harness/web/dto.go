//go:build go1.22

package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/chanjarster/gears/dto"
	"github.com/chanjarster/gears/zverif/lib"
)

func init() {
	lib.Register("P41", p41, "values nested deeper than a few levels are not explored")
}

// ---- a reader of JSON by the letter of RFC 8259 ----------------------------------------------------------------------

type jreader struct {
	s string
	i int
}

func (r *jreader) space() {
	for r.i < len(r.s) && (r.s[r.i] == ' ' || r.s[r.i] == '\t' || r.s[r.i] == '\n' || r.s[r.i] == '\r') {
		r.i++
	}
}

func (r *jreader) is(c byte) bool {
	if r.i < len(r.s) && r.s[r.i] == c {
		r.i++
		return true
	}
	return false
}

func (r *jreader) word(w string) bool {
	if len(r.s)-r.i >= len(w) && r.s[r.i:r.i+len(w)] == w {
		r.i += len(w)
		return true
	}
	return false
}

func (r *jreader) value() (any, bool) {
	r.space()
	if r.i >= len(r.s) {
		return nil, false
	}
	switch c := r.s[r.i]; {
	case c == '{':
		r.i++
		m := map[string]any{}
		r.space()
		if r.is('}') {
			return m, true
		}
		for {
			r.space()
			k, ok := r.text()
			if !ok {
				return nil, false
			}
			r.space()
			if !r.is(':') {
				return nil, false
			}
			v, ok := r.value()
			if !ok {
				return nil, false
			}
			m[k] = v
			r.space()
			if r.is('}') {
				return m, true
			}
			if !r.is(',') {
				return nil, false
			}
		}
	case c == '[':
		r.i++
		l := []any{}
		r.space()
		if r.is(']') {
			return l, true
		}
		for {
			v, ok := r.value()
			if !ok {
				return nil, false
			}
			l = append(l, v)
			r.space()
			if r.is(']') {
				return l, true
			}
			if !r.is(',') {
				return nil, false
			}
		}
	case c == '"':
		return r.any(r.text())
	case r.word("null"):
		return nil, true
	case r.word("true"):
		return true, true
	case r.word("false"):
		return false, true
	}
	return r.number()
}

func (r *jreader) any(s string, ok bool) (any, bool) { return s, ok }

func (r *jreader) digits() bool {
	n := r.i
	for r.i < len(r.s) && r.s[r.i] >= '0' && r.s[r.i] <= '9' {
		r.i++
	}
	return r.i > n
}

func (r *jreader) number() (any, bool) {
	from := r.i
	r.is('-')
	if !r.is('0') && !r.digits() {
		return nil, false
	}
	if r.is('.') && !r.digits() {
		return nil, false
	}
	if r.is('e') || r.is('E') {
		if !r.is('+') {
			r.is('-')
		}
		if !r.digits() {
			return nil, false
		}
	}
	f, err := strconv.ParseFloat(r.s[from:r.i], 64)
	return f, err == nil
}

func (r *jreader) hex() (rune, bool) {
	if r.i+4 > len(r.s) {
		return 0, false
	}
	var v rune
	for _, c := range []byte(r.s[r.i : r.i+4]) {
		switch {
		case c >= '0' && c <= '9':
			v = v<<4 | rune(c-'0')
		case c >= 'a' && c <= 'f':
			v = v<<4 | rune(c-'a'+10)
		case c >= 'A' && c <= 'F':
			v = v<<4 | rune(c-'A'+10)
		default:
			return 0, false
		}
	}
	r.i += 4
	return v, true
}

func (r *jreader) text() (string, bool) {
	if !r.is('"') {
		return "", false
	}
	var out []rune
	for r.i < len(r.s) {
		c := r.s[r.i]
		switch {
		case c == '"':
			r.i++
			return string(out), true
		case c < ' ':
			return "", false
		case c == '\\':
			r.i++
			if r.i >= len(r.s) {
				return "", false
			}
			e := r.s[r.i]
			r.i++
			switch e {
			case '"', '\\', '/':
				out = append(out, rune(e))
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				v, ok := r.hex()
				if !ok {
					return "", false
				}
				if utf16.IsSurrogate(v) {
					at := r.i
					if r.word(`\u`) {
						if w, ok := r.hex(); ok {
							if p := utf16.DecodeRune(v, w); p != utf8.RuneError {
								out = append(out, p)
								break
							}
						}
					}
					r.i = at
					v = utf8.RuneError
				}
				out = append(out, v)
			default:
				return "", false
			}
		default:
			v, n := utf8.DecodeRuneInString(r.s[r.i:])
			out = append(out, v)
			r.i += n
		}
	}
	return "", false
}

// readMap: what UnmarshalM has to make of a text.
func readMap(s string) (m map[string]any, ok bool) {
	r := &jreader{s: s}
	v, ok := r.value()
	r.space()
	if !ok || r.i != len(s) {
		return nil, false
	}
	if v == nil {
		return nil, true
	}
	m, ok = v.(map[string]any)
	return m, ok
}

// same compares trees; maps of a named type count as maps.
func same(a, b any) bool {
	if m, ok := a.(dto.M); ok {
		a = map[string]any(m)
	}
	if m, ok := b.(dto.M); ok {
		b = map[string]any(m)
	}
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) || (x == nil) != (y == nil) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !same(v, w) {
				return false
			}
		}
		return true
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

func unmarshalCase(text string) string {
	in := []byte(text)
	want, ok := readMap(text)
	got, err := dto.UnmarshalM(in)
	if string(in) != text {
		return "the input is changed"
	}
	if ok != (err == nil) {
		return fmt.Sprintf("error %v, expected success: %v", err, ok)
	}
	if !ok {
		if got != nil {
			return fmt.Sprintf("a map %v is returned with an error", got)
		}
		return ""
	}
	if !same(map[string]any(got), want) {
		return fmt.Sprintf("gives %#v, expected %#v", got, want)
	}
	for i := range in {
		in[i] = 'x'
	}
	if !same(map[string]any(got), want) {
		return "the map changes with the input"
	}
	// and back again
	b, err := dto.MarshalM(got)
	if err != nil {
		return fmt.Sprintf("the map read cannot be written: %v", err)
	}
	again, ok := readMap(string(b))
	if !ok || !same(again, want) {
		return fmt.Sprintf("the map read is written as %s", b)
	}
	return ""
}

func p41(thorough bool) []*lib.Unit {
	plain := []string{"{", "}", "[", "]", ":", ",", `"`, "a", " ", "0", "1", "-", ".", "e", "\\", "null", "true"}
	inner := []string{"{", "}", "[", "]", ":", ",", `"`, "a", `"b":`, "\n", "0", "12", "-", ".", "E", "+", `\u00e9`, `\ud83d`, `\ude00`, `\"`, "\xff", "é", "\t", "null", "false", "1e999"}
	us := lib.Shards("texts", 3, 8, "every text of up to 5 (6) elements from an alphabet of JSON's delimiters, digits, names and spaces", func(c *lib.Ctx, shard, shards int) {
		texts(c, plain, 5, "", "", shard, shards)
	})
	us = append(us, lib.Shards("members", 3, 8, "every object whose member values (and whatever comes after them) are a text of up to 4 (5) elements from an alphabet with escapes, surrogates, bad UTF-8 and number parts", func(c *lib.Ctx, shard, shards int) {
		texts(c, inner, 4, `{"a":`, "}", shard, shards)
		texts(c, inner, 4, `{"a":"`, `"}`, shard, shards)
		texts(c, inner, 4, `{"a":1,`, `}`, shard, shards)
		texts(c, inner, 4, `{"a":[1,{"b":2}]}`, ``, shard, shards)
	})...)
	us = append(us, &lib.Unit{Name: "maps", Weight: 4, Note: "every map of up to 2 members over names × values, values nested to depth 3, including those that JSON cannot express", Seq: writeMaps})
	return us
}

func texts(c *lib.Ctx, alpha []string, depth int, pre, post string, shard, shards int) {
	if c.Thorough {
		depth++
	}
	n := 0
	var rec func(s string, left int) bool
	rec = func(s string, left int) bool {
		n++
		if n%shards == shard {
			text := pre + s + post
			c.Trans(1)
			_, ok := readMap(text)
			c.State(ok, len(text))
			if !c.Case(func() string { return fmt.Sprintf("%q", text) }, func() string { return unmarshalCase(text) }) {
				return false
			}
		}
		if left == 0 {
			return true
		}
		for _, a := range alpha {
			if !rec(s+a, left-1) {
				return false
			}
		}
		return true
	}
	rec("", depth)
}

func writeMaps(c *lib.Ctx) {
	names := []string{"", "a", "A", "é\"\\", "<&>\u2028", "a.b"}
	leaves := []any{nil, true, false, 0.0, -1.5, 1e300, 5e-324, math.MaxInt64 * 1.0, "", "x", "<&>\u2028\x00\"\\", "\U0001F600"}
	bad := []any{math.NaN(), math.Inf(1), math.Inf(-1), make(chan int), func() {}, complex(1, 2)}
	values := append([]any{}, leaves...)
	for _, l := range leaves {
		values = append(values, []any{l}, map[string]any{"k": l}, []any{l, "y"}, dto.M{"m": l}, map[string]any{"k": []any{map[string]any{"d": l}}}, []any{[]any{l}, []any{}})
	}
	values = append(values, []any{}, map[string]any{}, dto.M{})
	check := func(m dto.M, good bool, snapshot dto.M) bool {
		c.State(fmt.Sprint(m))
		c.Trans(1)
		return c.Case(func() string { return fmt.Sprintf("%#v", m) }, func() string {
			b, err := dto.MarshalM(m)
			if good != (err == nil) {
				return fmt.Sprintf("error %v, expected success: %v", err, good)
			}
			if !good {
				if len(b) > 0 {
					return fmt.Sprintf("text %q comes with an error", b)
				}
				return ""
			}
			if !same(map[string]any(m), map[string]any(snapshot)) {
				return "the map is changed"
			}
			got, ok := readMap(string(b))
			if !ok || !same(got, map[string]any(m)) {
				return fmt.Sprintf("is written as %s", b)
			}
			back, err := dto.UnmarshalM(b)
			if err != nil || !same(map[string]any(back), map[string]any(m)) {
				return fmt.Sprintf("is written and read back as %#v, %v", back, err)
			}
			return ""
		})
	}
	if !check(nil, true, nil) || !check(dto.M{}, true, dto.M{}) {
		return
	}
	for _, a := range names {
		for _, v := range values {
			if !check(dto.M{a: v}, true, dto.M{a: v}) {
				return
			}
			for _, b := range names {
				if a == b {
					continue
				}
				for _, w := range values {
					if !check(dto.M{a: v, b: w}, true, dto.M{a: v, b: w}) {
						return
					}
				}
			}
		}
		for _, v := range bad {
			for _, m := range []dto.M{{a: v}, {a: []any{v}}, {a: map[string]any{"k": v}}, {a: dto.M{"k": []any{1.0, v}}}, {"first": 1.0, a + "z": v}} {
				if !check(m, false, nil) {
					return
				}
			}
		}
	}
}
