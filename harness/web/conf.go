//go:build go1.22

package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/chanjarster/gears/conf"
	"github.com/chanjarster/gears/zverif/lib"
)

func init() {
	lib.Register("P26", p26, "field types are the documented ones, not named types over them",
		"an unexported embedded struct is not a field to load")
	lib.Register("P27", p27, "field names are ASCII", "no two paths of one configuration have the same name by convention")
	programs["conf"] = confProgram
}

// cval is a value of a field: how it is written on the command line and in the environment, how in YAML, and the value.
type cval struct {
	text, yaml string
	val        any
}

type ckind struct {
	typ  reflect.Type
	vals []cval
	bad  []string // texts that are not a value of the type
	ybad []string // YAML that is not
}

var ckinds = []ckind{
	{reflect.TypeOf(""), []cval{{"", `""`, ""}, {"x y=z", `"x y=z"`, "x y=z"}, {"-3", `"-3"`, "-3"}}, nil, []string{"[1]", "{a: 1}"}},
	{reflect.TypeOf(true), []cval{{"false", "false", false}, {"true", "true", true}, {"0", "False", false}, {"T", "TRUE", true}},
		[]string{"yes", "", "2"}, []string{"abc", "[true]"}},
	{reflect.TypeOf(int(0)), []cval{{"0", "0", 0}, {"-7", "-7", -7}, {"0x10", "0x10", 16}, {"9223372036854775807", "9223372036854775807", math.MaxInt64}},
		[]string{"", "1.5", "12a", "9223372036854775808"}, []string{"abc", "[1]", "9223372036854775808"}},
	{reflect.TypeOf(int64(0)), []cval{{"0", "0", int64(0)}, {"-9223372036854775808", "-9223372036854775808", int64(math.MinInt64)}, {"42", "42", int64(42)}},
		[]string{"", "1s", "-9223372036854775809"}, []string{"abc", "[]"}},
	{reflect.TypeOf(uint(0)), []cval{{"0", "0", uint(0)}, {"18446744073709551615", "18446744073709551615", uint(math.MaxUint64)}, {"5", "5", uint(5)}},
		[]string{"", "-1", "5.0"}, []string{"abc", "-1"}},
	{reflect.TypeOf(uint64(0)), []cval{{"0", "0", uint64(0)}, {"18446744073709551615", "18446744073709551615", uint64(math.MaxUint64)}, {"0b11", "3", uint64(3)}},
		[]string{"", "-1", "18446744073709551616"}, []string{"abc", "-1"}},
	{reflect.TypeOf(float64(0)), []cval{{"0", "0", 0.0}, {"-1.5e3", "-1.5e3", -1500.0}, {"7", "7", 7.0}, {".1", "0.1", 0.1}},
		[]string{"", "1,5", "1e999"}, []string{"abc", "{}a"}},
	{reflect.TypeOf(time.Duration(0)), []cval{{"0s", "0s", time.Duration(0)}, {"1m30s", "1m30s", 90 * time.Second}, {"-1.5ms", "-1.5ms", -1500 * time.Microsecond}, {"2540400h10m10.000000001s", "2540400h10m10.000000001s", 2540400*time.Hour + 10*time.Minute + 10*time.Second + 1}},
		[]string{"", "10", "1d"}, []string{"abc", "1d"}},
}

// place is where the field under test lives.
type place struct {
	name string
	path []string // field names; a leading '*' makes it a pointer, a leading '@' an embedded field
}

var places = []place{
	{"top", []string{"FooBar"}},
	{"nested", []string{"Sub", "FooBar"}},
	{"nested pointer", []string{"*SubOne", "FooBar"}},
	{"deep", []string{"*A", "BB", "*Cc", "F"}},
	{"embedded", []string{"@Emb", "FooBar"}},
	{"embedded pointer", []string{"@*Emb", "FooBar"}},
	{"embedded in nested", []string{"*Sub", "@Emb", "FooBar"}},
	{"struct in embedded", []string{"@Emb", "*Sub", "FooBar"}},
}

func bare(s string) string { return strings.TrimLeft(s, "@*") }

func dotted(path []string) string {
	var p []string
	for _, e := range path {
		if e[0] != '@' {
			p = append(p, bare(e))
		}
	}
	return strings.Join(p, ".")
}

// mkType makes the type of a configuration with one leaf of type t at path; every struct on the way also has a leaf
// "Zother" of the same type.
func mkType(path []string, t reflect.Type) reflect.Type {
	for i := len(path) - 1; i >= 0; i-- {
		f := reflect.StructField{Name: bare(path[i]), Type: t, Anonymous: path[i][0] == '@'}
		if strings.Contains(path[i], "*") {
			f.Type = reflect.PointerTo(t)
		}
		fs := []reflect.StructField{f}
		if !f.Anonymous && (i == 0 || path[i-1][0] != '@') {
			leaf := t
			for leaf.Kind() == reflect.Struct || leaf.Kind() == reflect.Pointer && leaf.Elem().Kind() == reflect.Struct {
				if leaf.Kind() == reflect.Pointer {
					leaf = leaf.Elem()
				}
				leaf = leaf.Field(0).Type
			}
			fs = append(fs, reflect.StructField{Name: "Zother", Type: leaf})
		}
		t = reflect.StructOf(fs)
	}
	return t
}

// leafAt walks to the leaf, allocating when asked to; ok is false when a pointer on the way is nil.
func leafAt(v reflect.Value, path []string, alloc bool) (reflect.Value, bool) {
	for _, e := range path {
		v = v.FieldByName(bare(e))
		if v.Kind() == reflect.Pointer && v.Type().Elem().Kind() == reflect.Struct {
			if v.IsNil() {
				if !alloc {
					return v, false
				}
				v.Set(reflect.New(v.Type().Elem()))
			}
			v = v.Elem()
		}
	}
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			if !alloc {
				return v, false
			}
			v.Set(reflect.New(v.Type().Elem()))
		}
		v = v.Elem()
	}
	return v, true
}

// conventional names, from their description: words are split before capitals and at dots.
func words(path string) []string {
	var ws []string
	for _, part := range strings.Split(path, ".") {
		w := ""
		for i, r := range part {
			if r >= 'A' && r <= 'Z' && i > 0 {
				ws = append(ws, w)
				w = ""
			}
			w += string(r)
		}
		ws = append(ws, w)
	}
	return ws
}

func flagName(path string) string { return strings.ToLower(strings.Join(words(path), "-")) }
func envName(path string) string  { return strings.ToUpper(strings.Join(words(path), "_")) }

func yamlFor(path []string, text string) string {
	s, ind := "", ""
	for i, e := range path {
		s += ind + strings.ToLower(bare(e)) + ":"
		ind += "  "
		if i == len(path)-1 {
			s += " " + text + "\n"
		} else {
			s += "\n"
		}
	}
	return s
}

var discard = func() *os.File { f, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0); return f }()

var loadHook func()

// load runs conf.Load in this process with the given command line and environment.
func load(p any, yamlFlag string, args []string, env [][2]string) {
	oldArgs, oldCl, oldOut := os.Args, flag.CommandLine, os.Stdout
	os.Args = append([]string{"prog"}, args...)
	flag.CommandLine = flag.NewFlagSet("prog", flag.ContinueOnError)
	flag.CommandLine.SetOutput(io.Discard)
	os.Stdout = discard
	for _, e := range env {
		os.Setenv(e[0], e[1])
	}
	defer func() {
		if loadHook != nil {
			loadHook()
		}
		os.Args, flag.CommandLine, os.Stdout = oldArgs, oldCl, oldOut
		for _, e := range env {
			os.Unsetenv(e[0])
		}
	}()
	conf.Load(p, yamlFlag)
}

// one case of the precedence enumeration.
type pcase struct {
	Place, Kind             int
	Ptr                     bool
	Preset, Yaml, Env, Flag int // index of the value, -1 unset; Yaml -2 is an explicit null, -3 a null section
	ZPreset                 bool
}

func (pc pcase) String() string {
	k := ckinds[pc.Kind]
	show := func(i int, f func(v cval) string) string {
		switch i {
		case -1:
			return "unset"
		case -2:
			return "null"
		case -3:
			return "null section"
		}
		return f(k.vals[i])
	}
	text := func(v cval) string { return v.text }
	return fmt.Sprintf("field %s (%s) of type %v (pointer %v): preset %s, yaml %s, env %s, flag %s", dotted(places[pc.Place].path), places[pc.Place].name,
		k.typ, pc.Ptr, show(pc.Preset, text), show(pc.Yaml, func(v cval) string { return v.yaml }), show(pc.Env, text), show(pc.Flag, text))
}

func (pc pcase) run(dir string) string {
	pl, k := places[pc.Place], ckinds[pc.Kind]
	leaf := k.typ
	if pc.Ptr {
		leaf = reflect.PointerTo(leaf)
	}
	v := reflect.New(mkType(pl.path, leaf))
	if pc.Preset >= 0 {
		l, _ := leafAt(v.Elem(), pl.path, true)
		l.Set(reflect.ValueOf(k.vals[pc.Preset].val))
	}
	other := k.vals[len(k.vals)-1].val
	opath := []string{"Zother"}
	if pl.path[0][0] == '@' {
		opath = nil
	} else if pc.ZPreset {
		l, _ := leafAt(v.Elem(), opath, true)
		l.Set(reflect.ValueOf(other))
	}
	var args []string
	var env [][2]string
	want := reflect.Zero(k.typ).Interface()
	if pc.Preset >= 0 {
		want = k.vals[pc.Preset].val
	}
	if pc.Yaml != -1 {
		f := filepath.Join(dir, "c.yaml")
		text := ""
		switch pc.Yaml {
		case -2:
			text = yamlFor(pl.path, "null")
		case -3:
			text = yamlFor(pl.path[:1], "")
		default:
			text = yamlFor(pl.path, k.vals[pc.Yaml].yaml)
			want = k.vals[pc.Yaml].val
		}
		if err := os.WriteFile(f, []byte(text), 0o644); err != nil {
			panic(err)
		}
		args = append(args, "-c="+f)
	}
	if pc.Env >= 0 {
		env = append(env, [2]string{envName(dotted(pl.path)), k.vals[pc.Env].text})
		want = k.vals[pc.Env].val
	}
	if pc.Flag >= 0 {
		args = append(args, "-"+flagName(dotted(pl.path))+"="+k.vals[pc.Flag].text)
		want = k.vals[pc.Flag].val
	}
	load(v.Interface(), "c", args, env)
	l, ok := leafAt(v.Elem(), pl.path, false)
	if !ok {
		return "after Load a pointer on the way to the field is nil"
	}
	if m := diff("the field", l.Interface(), want); m != "" {
		return m
	}
	if opath != nil {
		o, ok := leafAt(v.Elem(), opath, false)
		if !ok {
			return "after Load the pointer of another field is nil"
		}
		w := reflect.Zero(k.typ).Interface()
		if pc.ZPreset {
			w = other
		}
		return diff("another field", o.Interface(), w)
	}
	return ""
}

func p26(thorough bool) []*lib.Unit {
	us := lib.Shards("precedence", 5, 8, "every documented type × {plain, pointer} × every place (top, nested, pointers, embedded) × every combination of preset, YAML (also null), environment and flag values",
		func(c *lib.Ctx, shard, shards int) {
			n := 0
			for p := range places {
				for k := range ckinds {
					nv := len(ckinds[k].vals)
					for _, ptr := range []bool{false, true} {
						n++
						if n%shards != shard {
							continue
						}
						for pre := -1; pre < nv; pre++ {
							if !thorough && pre > 0 && pre < nv-1 {
								continue
							}
							for y := -3; y < nv; y++ {
								for e := -1; e < nv; e++ {
									for f := -1; f < nv; f++ {
										pc := pcase{p, k, ptr, pre, y, e, f, (y+e+f)%2 == 0}
										c.State(p, k, ptr, pre, y, e, f)
										c.Trans(1)
										if !c.Case(pc.String, func() string { return pc.run(c.Scratch) }) {
											return
										}
									}
								}
							}
						}
					}
				}
			}
		})
	us = append(us, lib.Shards("independence", 3, 4, "three fields of one configuration, each set in any subset of the sources: nobody's value leaks", independence)...)
	us = append(us, lib.Shards("command-lines", 2, 4, "every command line of 1..5 tokens: flags in all syntaxes, before and after the YAML flag, positional arguments, --; oracle: package flag", commandLines)...)
	us = append(us, lib.Shards("malformed", 9, 8, "a malformed value of every type in every source (others set or not), unreadable and malformed YAML, unknown flags: in a process of its own, which has to fail", malformed)...)
	return us
}

type indepSub struct {
	Host string
	Port *int
}

type indepConf struct {
	Name  string
	Sub   *indepSub
	SubX  indepSub
	Debug bool
	Wait  *time.Duration
}

func independence(c *lib.Ctx, shard, shards int) {
	fields := []string{"Name", "Sub.Host", "Sub.Port", "SubX.Host", "SubX.Port", "Debug", "Wait"}
	text := func(i, src int) string {
		switch fields[i] {
		case "Debug":
			return fmt.Sprint(src%2 == 0)
		case "Wait":
			return fmt.Sprintf("%ds", src+1)
		}
		return fmt.Sprint(10*i + src)
	}
	get := func(p *indepConf, i int) string {
		sp := func(n *int) string {
			if n == nil {
				return "nil"
			}
			return fmt.Sprint(*n)
		}
		switch i {
		case 0:
			return p.Name
		case 1:
			return p.Sub.Host
		case 2:
			return sp(p.Sub.Port)
		case 3:
			return p.SubX.Host
		case 4:
			return sp(p.SubX.Port)
		case 5:
			return fmt.Sprint(p.Debug)
		}
		if p.Wait == nil {
			return "nil"
		}
		return p.Wait.String()
	}
	zero := []string{"", "", "0", "", "0", "false", "0s"}
	// every triple of fields × every subset of {yaml, env, flag} for each
	n := 0
	for a := 0; a < len(fields); a++ {
		for b := a + 1; b < len(fields); b++ {
			for d := b + 1; d < len(fields); d++ {
				n++
				if n%shards != shard {
					continue
				}
				for m := 0; m < 512; m++ {
					masks := map[int]int{a: m & 7, b: m >> 3 & 7, d: m >> 6 & 7}
					c.State(a, b, d, m)
					c.Trans(1)
					ok := c.Case(func() string {
						return fmt.Sprintf("fields %s, %s, %s set in sources (bits yaml, env, flag) %v", fields[a], fields[b], fields[d], masks)
					},
						func() string {
							want := append([]string{}, zero...)
							var args []string
							var env [][2]string
							y := map[string]map[string]string{}
							for i, mask := range masks {
								top, sub, nested := strings.Cut(strings.ToLower(fields[i]), ".")
								if mask&1 != 0 {
									want[i] = text(i, 0)
									if !nested {
										sub = ""
									}
									if y[top] == nil {
										y[top] = map[string]string{}
									}
									y[top][sub] = want[i]
								}
								if mask&2 != 0 {
									want[i] = text(i, 1)
									env = append(env, [2]string{envName(fields[i]), want[i]})
								}
								if mask&4 != 0 {
									want[i] = text(i, 2)
									args = append(args, "--"+flagName(fields[i])+"="+want[i])
								}
							}
							f := filepath.Join(c.Scratch, "i.yaml")
							ytext := ""
							for top, subs := range y {
								if v, ok := subs[""]; ok {
									ytext += top + ": " + v + "\n"
									continue
								}
								ytext += top + ":\n"
								for s, v := range subs {
									ytext += "  " + s + ": " + v + "\n"
								}
							}
							os.WriteFile(f, []byte(ytext), 0o644)
							p := &indepConf{}
							load(p, "conf", append(args, "-conf", f), env)
							if p.Sub == nil {
								return "the nested pointer is nil"
							}
							for i := range fields {
								if m := diff(fields[i], get(p, i), want[i]); m != "" {
									return m
								}
							}
							return ""
						})
					if !ok {
						return
					}
				}
			}
		}
	}
}

type clConf struct {
	A struct {
		B int
	}
	T    *bool
	Name string
}

func commandLines(c *lib.Ctx, shard, shards int) {
	file := filepath.Join(c.Scratch, "cl.yaml")
	os.WriteFile(file, []byte("a:\n  b: 77\nname: fromyaml\nt: true\n"), 0o644)
	toks := []string{"-c=" + file, "-c", file, "-a-b=1", "--a-b", "2", "-t", "--t=false", "-name=n", "-name", "--", "x"}
	depth := 4
	if c.Thorough {
		depth = 5
	}
	for d := 0; d <= depth; d++ {
		if d == 0 {
			continue
		}
		c.Sequences(len(toks), d, shard, shards, func(seq []int) string { return fmt.Sprint(pick(toks, seq)) }, func(seq []int) string {
			args := pick(toks, seq)
			fs := flag.NewFlagSet("oracle", flag.ContinueOnError)
			fs.SetOutput(io.Discard)
			yf := fs.String("c", "", "")
			b := fs.Int("a-b", 0, "")
			t := fs.Bool("t", false, "")
			name := fs.String("name", "", "")
			if fs.Parse(args) != nil {
				return "" // an error: see the malformed unit
			}
			if *yf != "" && *yf != file {
				return ""
			}
			set := map[string]bool{}
			fs.Visit(func(f *flag.Flag) { set[f.Name] = true })
			wantB, wantT, wantName := *b, *t, *name
			if *yf != "" {
				if !set["a-b"] {
					wantB = 77
				}
				if !set["t"] {
					wantT = true
				}
				if !set["name"] {
					wantName = "fromyaml"
				}
			}
			c.State(wantB, wantT, wantName, *yf != "")
			c.Trans(1)
			p := &clConf{}
			load(p, "c", args, nil)
			if p.T == nil {
				return "the pointer field is nil"
			}
			return diff("the configuration", fmt.Sprint(p.A.B, *p.T, p.Name), fmt.Sprint(wantB, wantT, wantName))
		})
	}
}

func pick[T any](from []T, seq []int) []T {
	out := make([]T, len(seq))
	for i, s := range seq {
		out[i] = from[s]
	}
	return out
}

// confProgram loads the configuration described by a pcase and prints it.
func confProgram(arg string) {
	var pc pcase
	if err := json.Unmarshal([]byte(arg), &pc); err != nil {
		panic(err)
	}
	leaf := ckinds[pc.Kind].typ
	if pc.Ptr {
		leaf = reflect.PointerTo(leaf)
	}
	v := reflect.New(mkType(places[pc.Place].path, leaf))
	conf.Load(v.Interface(), "c")
	l, _ := leafAt(v.Elem(), places[pc.Place].path, false)
	fmt.Printf("LOADED %v", l.Interface())
}

func malformed(c *lib.Ctx, shard, shards int) {
	n := 0
	file := filepath.Join(c.Scratch, "m.yaml")
	try := func(pc pcase, what string, args []string, env []string, ytext string, want string) bool {
		n++
		if n%shards != shard {
			return true
		}
		c.State(pc, what)
		c.Trans(1)
		return c.Case(func() string {
			return fmt.Sprintf("%s; %v, arguments %q, environment %q, yaml %q", what, pc, args, env, ytext)
		}, func() string {
			os.WriteFile(file, []byte(ytext), 0o644)
			b, _ := json.Marshal(pc)
			code, out := runProgram("conf", string(b), args, env)
			if want != "" {
				if code != 0 || !strings.Contains(out, "LOADED "+want) {
					return fmt.Sprintf("the program exits with status %d and output %q, expected %q", code, out, want)
				}
				return ""
			}
			if code == 0 {
				return fmt.Sprintf("the program goes on with %q instead of failing", out)
			}
			if code < 0 {
				return "the program does not exit"
			}
			return ""
		})
	}
	for k, kd := range ckinds {
		for _, p := range []int{0, 2} {
			for _, ptr := range []bool{false, true} {
				pc := pcase{Place: p, Kind: k, Ptr: ptr}
				path := places[p].path
				fl, en := "-"+flagName(dotted(path))+"=", envName(dotted(path))+"="
				good := kd.vals[1].text
				goodY := yamlFor(path, kd.vals[0].yaml)
				if !try(pc, "all well", []string{"-c=" + file, fl + good}, []string{en + kd.vals[0].text}, goodY, fmt.Sprint(kd.vals[1].val)) {
					return
				}
				for _, bad := range kd.bad {
					if !(try(pc, "malformed flag", []string{fl + bad}, nil, "", "") &&
						try(pc, "malformed flag, good yaml", []string{fl + bad, "-c=" + file}, []string{en + good}, goodY, "") &&
						try(pc, "malformed env", nil, []string{en + bad}, "", "") &&
						try(pc, "malformed env, good flag", []string{"-c=" + file, fl + good}, []string{en + bad}, goodY, "")) {
						return
					}
				}
				for _, bad := range kd.ybad {
					y := yamlFor(path, bad)
					if !(try(pc, "malformed yaml value", []string{"-c=" + file}, nil, y, "") &&
						try(pc, "malformed yaml value, good env and flag", []string{"-c=" + file, fl + good}, []string{en + good}, y, "")) {
						return
					}
				}
			}
		}
	}
	pc := pcase{}
	for _, y := range []string{"\t: x", "a: [", "foobar: x\n  b: 1", "- a\n- b", "just text", "foobar: 1\nfoobar: 2", "%"} {
		if !(try(pc, "malformed yaml", []string{"-c=" + file}, nil, y, "") &&
			try(pc, "malformed yaml, good env and flag", []string{"-c=" + file, "-foo-bar=x"}, []string{"FOO_BAR=y"}, y, "")) {
			return
		}
	}
	for _, f := range []string{"/nonexistent/zverif.yaml", c.Scratch, file + "x"} {
		if !(try(pc, "unreadable yaml", []string{"-c=" + f}, nil, "", "") &&
			try(pc, "unreadable yaml, good env and flag", []string{"-foo-bar=x", "-c", f}, []string{"FOO_BAR=y"}, "", "")) {
			return
		}
	}
	for _, a := range [][]string{{"-nope"}, {"-nope=1"}, {"-foo-bar"}, {"-foobar=1"}, {"-FooBar=1"}, {"-c"}, {"---foo-bar=1"}, {"-=1"}, {"-foo-bar=1", "-nope"}} {
		if !try(pc, "unknown or incomplete flag", a, []string{"FOO_BAR=y"}, "", "") {
			return
		}
	}
	for _, y := range []string{"", "# nothing\n", "unknown: {a: 1}\n", "---\n"} {
		if !try(pc, "yaml without the field", []string{"-c=" + file}, []string{"FOO_BAR=y"}, y, "y") {
			return
		}
	}
}
