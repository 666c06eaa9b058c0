//go:build go1.22

package main

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"time"

	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/zverif/lib"
)

func init() {
	lib.Register("P28", p28, "the configuration is printed through its pointer, the type that has a String method")
}

var printed = []func() fmt.Stringer{
	func() fmt.Stringer { return &confs.MysqlConf{} },
	func() fmt.Stringer { return &confs.PostgresqlConf{} },
	func() fmt.Stringer { return &confs.OracleConf{} },
	func() fmt.Stringer { return &confs.RedisConf{} },
	func() fmt.Stringer { return &confs.EsConf{} },
	func() fmt.Stringer { return &confs.PprofConf{} },
	func() fmt.Stringer { return &confs.FastHttpClientConf{} },
}

var secret = map[string]bool{"Password": true, "Username": true}

// printValues is the domain of a field; the index makes values of different fields differ.
func printValues(t reflect.Type, field int, thorough bool) []any {
	switch t.Kind() {
	case reflect.String:
		vs := []any{"", fmt.Sprintf("val%d", field), fmt.Sprintf("f%d: %%s %%!d(MISSING) {x}, Port: 9", field), fmt.Sprintf("a=%d&b='c d'", field)}
		if thorough {
			vs = append(vs, "***", fmt.Sprintf("日本%d\n\t\"", field), strings.Repeat("w", 300))
		}
		return vs
	case reflect.Bool:
		return []any{false, true}
	}
	if t == reflect.TypeOf(time.Duration(0)) {
		return []any{time.Duration(0), time.Duration(field+1) * time.Second, -time.Duration(field+1) * time.Millisecond}
	}
	return []any{0, 1000 + field, -1 - field}
}

func p28(thorough bool) []*lib.Unit {
	var us []*lib.Unit
	for i, mk := range printed {
		t := reflect.TypeOf(mk()).Elem()
		us = append(us, lib.Shards("settings-"+t.Name(), 2, 1, "every pair of fields over their whole domains, the others fixed: each printed setting shows its own value, and only its own field changes it",
			func(c *lib.Ctx, _, _ int) { printSettings(c, mk) })...)
		if i < 6 {
			us = append(us, lib.Shards("secrets-"+t.Name(), 2, 1, "every pair of credentials from the domain: the output is the same, in all formatting verbs that use String, nested or not",
				func(c *lib.Ctx, _, _ int) { printSecrets(c, mk) })...)
		}
	}
	return us
}

func setField(p fmt.Stringer, f int, v any) {
	fv := reflect.ValueOf(p).Elem().Field(f)
	fv.Set(reflect.ValueOf(v).Convert(fv.Type()))
}

func printSettings(c *lib.Ctx, mk func() fmt.Stringer) {
	t := reflect.TypeOf(mk()).Elem()
	base := func() fmt.Stringer {
		p := mk()
		for f := 0; f < t.NumField(); f++ {
			if secret[t.Field(f).Name] {
				continue
			}
			setField(p, f, printValues(t.Field(f).Type, f, false)[1])
		}
		return p
	}
	show := func(v reflect.Value) string { return fmt.Sprint(v.Interface()) }
	// the text expected between the labels: whatever the format, "Label:" is followed by the value of field Label
	check := func(p fmt.Stringer) string {
		s := p.String()
		if !strings.HasPrefix(s, "{") || !strings.HasSuffix(s, "}") {
			return fmt.Sprintf("unexpected form %q", s)
		}
		rest := s[1:]
		for rest != "}" {
			m := regexp.MustCompile(`^(?:, )?(\w+): ?`).FindStringSubmatch(rest)
			if m == nil {
				return fmt.Sprintf("what follows a setting is %q in %q", rest, s)
			}
			rest = rest[len(m[0]):]
			fv := reflect.ValueOf(p).Elem().FieldByName(m[1])
			if !fv.IsValid() {
				return fmt.Sprintf("%q names the unknown setting %s", s, m[1])
			}
			want := show(fv)
			if secret[m[1]] { // what stands there is for the other units to judge
				rest = rest[len(regexp.MustCompile(`^[^,}]*`).FindString(rest)):]
				continue
			}
			if !strings.HasPrefix(rest, want) {
				return fmt.Sprintf("%s shows as %q, its value is %q, in %q", m[1], rest, want, s)
			}
			rest = rest[len(want):]
		}
		return ""
	}
	for a := 0; a < t.NumField(); a++ {
		for b := a + 1; b < t.NumField(); b++ {
			for _, va := range printValues(t.Field(a).Type, a, c.Thorough) {
				for _, vb := range printValues(t.Field(b).Type, b, c.Thorough) {
					c.State(t, a, b, va, vb)
					c.Trans(1)
					if !c.Case(func() string {
						return fmt.Sprintf("%s with %s=%v, %s=%v", t.Name(), t.Field(a).Name, va, t.Field(b).Name, vb)
					}, func() string {
						p := base()
						setField(p, a, va)
						setField(p, b, vb)
						return check(p)
					}) {
						return
					}
				}
			}
		}
	}
}

func printSecrets(c *lib.Ctx, mk func() fmt.Stringer) {
	t := reflect.TypeOf(mk()).Elem()
	dom := []string{"s", "hunter2secret", "p@ss:w/rd?#%41 +", "%s%d%v", "***", "{Host: x, Password: y}", "пароль", "a\nb", strings.Repeat("k", 500), "0", "1001"}
	var fields []int
	for f := 0; f < t.NumField(); f++ {
		if secret[t.Field(f).Name] {
			fields = append(fields, f)
		}
	}
	fill := func(p fmt.Stringer, mode int) {
		for f := 0; f < t.NumField(); f++ {
			if !secret[t.Field(f).Name] {
				setField(p, f, printValues(t.Field(f).Type, f, true)[mode])
			}
		}
	}
	forms := func(p fmt.Stringer) []string {
		type outer struct {
			Name string
			Conf fmt.Stringer
		}
		return []string{p.String(), fmt.Sprint(p), fmt.Sprintf("%v|%+v|%s|%q", p, p, p, p), fmt.Sprintf("%v %+v", outer{"n", p}, outer{"n", p}), fmt.Sprintln([]fmt.Stringer{p})}
	}
	for mode := 0; mode < 2; mode++ {
		ref := mk()
		fill(ref, mode)
		for _, f := range fields {
			setField(ref, f, "t")
		}
		want := forms(ref)
		for _, x := range dom {
			for _, y := range dom {
				c.State(t, mode, x, y)
				c.Trans(1)
				if !c.Case(func() string { return fmt.Sprintf("%s with credentials %q, %q", t.Name(), x, y) }, func() string {
					p := mk()
					fill(p, mode)
					setField(p, fields[0], x)
					if len(fields) > 1 {
						setField(p, fields[1], y)
					}
					for i, s := range forms(p) {
						if s != want[i] {
							return fmt.Sprintf("the output depends on the credentials: %q, with others %q", s, want[i])
						}
					}
					return ""
				}) {
					return
				}
			}
		}
	}
}
