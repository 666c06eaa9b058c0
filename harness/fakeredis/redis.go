//go:build go1.22

// Package fakeredis is an in-process Redis server: a synchronous net.Conn that executes the commands written to it and
// holds the replies until they are read. Time comes from a function, faults can be injected per command.
package fakeredis

import (
	"bytes"
	"context"
	"crypto/sha1"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Fault of one command.
type Fault int

const (
	None        Fault = iota
	DropBefore        // the connection breaks before the command is executed
	DropAfter         // it is executed and the connection breaks
	ErrorReply        // not executed, an error reply
	Timeout           // not executed, no reply in time
	LateTimeout       // executed, no reply in time
	Truncated         // executed, the reply breaks off
	Refused           // a new connection is refused (and existing ones are broken)
	WriteFail         // sending fails
	NoScript          // the server has forgotten all scripts
	Garbage           // not executed, the reply is not RESP
	NFaults
)

var faultNames = []string{"none", "dropped before", "dropped after", "error reply", "timeout", "timeout after execution", "truncated reply", "connection refused", "write fails", "scripts flushed", "garbage reply"}

func (f Fault) String() string { return faultNames[f] }

// Executed tells whether a command with this fault takes effect.
func (f Fault) Executed() bool {
	return f == None || f == DropAfter || f == LateTimeout || f == Truncated
}

type entry struct {
	kind string // string, list, hash, zset
	s    string
	l    []string
	h    map[string]string
	z    map[string]float64
	exp  int64 // absolute ms, 0: none
}

// Server is the fake.
type Server struct {
	mu      sync.Mutex
	Now     func() int64 // ms
	Fault   func(cmd []string) Fault
	Refuse  bool
	DialHit func()
	Log     [][]string // executed commands (top level)
	Touched []string   // keys accessed since last cleared (also from scripts)
	keys    map[string]*entry
	scripts map[string]script
	frozen  int64 // time within a script
	globals map[string]lval
	Dials   int
	conns   []*conn
	Broken  string // an unsupported command, if any: the verdict is then unreliable
}

// New makes an empty server.
func New(now func() int64) *Server {
	return &Server{Now: now, keys: map[string]*entry{}, scripts: map[string]script{}}
}

func (s *Server) now() int64 {
	if s.frozen != 0 {
		return s.frozen
	}
	if s.Now == nil {
		return time.Now().UnixMilli()
	}
	return s.Now()
}

// Dialer for redis.Options.
func (s *Server) Dialer(ctx context.Context, network, addr string) (net.Conn, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Dials++
	if s.DialHit != nil {
		s.DialHit()
	}
	if s.Refuse {
		return nil, &net.OpError{Op: "dial", Net: network, Err: errors.New("connection refused")}
	}
	c := &conn{s: s, addr: addr}
	s.conns = append(s.conns, c)
	return c, nil
}

// Down breaks all connections and refuses new ones until Up.
func (s *Server) Down() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Refuse = true
	for _, c := range s.conns {
		c.broken = true
	}
	s.conns = nil
}

// Up accepts connections again.
func (s *Server) Up() { s.mu.Lock(); s.Refuse = false; s.mu.Unlock() }

// Commands is a copy of the log.
func (s *Server) Commands() [][]string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([][]string{}, s.Log...)
}

// FlushScripts forgets the loaded scripts.
func (s *Server) FlushScripts() { s.mu.Lock(); s.scripts = map[string]script{}; s.mu.Unlock() }

// NScripts is the number of loaded scripts.
func (s *Server) NScripts() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.scripts) }

// Flush forgets all keys.
func (s *Server) Flush() { s.mu.Lock(); s.keys = map[string]*entry{}; s.mu.Unlock() }

// Snapshot of all data: a deterministic text.
func (s *Server) Snapshot() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []string
	for k := range s.keys {
		e := s.look(k)
		if e == nil {
			continue
		}
		out = append(out, fmt.Sprintf("%s:%s:%q:%q:%v:%v:%d", k, e.kind, e.s, e.l, e.h, e.z, e.exp))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// Keys lists the live keys.
func (s *Server) Keys() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []string
	for k := range s.keys {
		if s.look(k) != nil {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// Info describes the live keys.
func (s *Server) Info() map[string]KeyInfo {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := map[string]KeyInfo{}
	for k := range s.keys {
		if e := s.look(k); e != nil {
			out[k] = KeyInfo{Expiry: e.exp, Elements: len(e.l) + len(e.h) + len(e.z)}
		}
	}
	return out
}

// KeyInfo says when a key expires (ms, 0: never) and how many elements its list, hash or set has.
type KeyInfo struct {
	Expiry   int64
	Elements int
}

// Hash returns a copy of a hash.
func (s *Server) Hash(k string) map[string]string {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := map[string]string{}
	if e := s.look(k); e != nil {
		for f, v := range e.h {
			m[f] = v
		}
	}
	return m
}

// Do runs a command from outside.
func (s *Server) Do(cmd ...string) any {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.exec(cmd)
}

func (s *Server) look(k string) *entry {
	e := s.keys[k]
	if e == nil {
		return nil
	}
	if e.exp != 0 && s.now() > e.exp {
		delete(s.keys, k)
		return nil
	}
	return e
}

type status string
type rerr string

// ---- connection ----

type conn struct {
	s      *Server
	addr   string
	in     []byte
	out    bytes.Buffer
	broken bool
	tmo    bool
	closed bool
	multi  bool
	queue  [][]string
}

type tmoErr struct{}

func (tmoErr) Error() string   { return "i/o timeout" }
func (tmoErr) Timeout() bool   { return true }
func (tmoErr) Temporary() bool { return true }

type addrT struct{}

func (addrT) Network() string { return "tcp" }
func (addrT) String() string  { return "fake:6379" }

func (c *conn) LocalAddr() net.Addr                { return addrT{} }
func (c *conn) RemoteAddr() net.Addr               { return addrT{} }
func (c *conn) SetDeadline(t time.Time) error      { return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }
func (c *conn) Close() error {
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	c.closed = true
	return nil
}

func (c *conn) Read(p []byte) (int, error) {
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.out.Len() > 0 {
		return c.out.Read(p)
	}
	if c.tmo {
		return 0, tmoErr{}
	}
	return 0, io.EOF
}

func (c *conn) Write(p []byte) (int, error) {
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.broken {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: errors.New("broken pipe")}
	}
	c.in = append(c.in, p...)
	for len(c.in) > 0 && !c.broken && !c.tmo {
		cmd, n, ok := parse(c.in)
		if !ok {
			break
		}
		c.in = c.in[n:]
		f := None
		if c.s.Fault != nil {
			f = c.s.Fault(cmd)
		}
		switch f {
		case WriteFail:
			c.broken = true
			return 0, &net.OpError{Op: "write", Net: "tcp", Err: errors.New("broken pipe")}
		case DropBefore, Refused:
			c.broken = true
			continue
		case Timeout:
			c.tmo = true
			continue
		case ErrorReply:
			c.out.WriteString("-ERR injected failure\r\n")
			continue
		case Garbage:
			c.out.WriteString("HTTP/1.1 400 Bad Request\r\n\r\n")
			continue
		case NoScript:
			c.s.scripts = map[string]script{}
		}
		c.s.Log = append(c.s.Log, cmd)
		r := c.run(cmd)
		var b bytes.Buffer
		encode(&b, r)
		switch f {
		case DropAfter:
			c.broken = true
		case LateTimeout:
			c.tmo = true
		case Truncated:
			c.broken = true
			c.out.Write(b.Bytes()[:b.Len()/2])
		default:
			c.out.Write(b.Bytes())
		}
	}
	return len(p), nil
}

// run executes a command, or queues it in a transaction.
func (c *conn) run(cmd []string) any {
	name := ""
	if len(cmd) > 0 {
		name = strings.ToUpper(cmd[0])
	}
	switch {
	case name == "MULTI":
		c.multi, c.queue = true, nil
		return status("OK")
	case (name == "EXEC" || name == "DISCARD") && !c.multi:
		return rerr("ERR " + name + " without MULTI")
	case name == "DISCARD":
		c.multi, c.queue = false, nil
		return status("OK")
	case name == "EXEC":
		all := []any{}
		for _, q := range c.queue {
			all = append(all, c.s.exec(q))
		}
		c.multi, c.queue = false, nil
		return all
	case c.multi:
		c.queue = append(c.queue, cmd)
		return status("QUEUED")
	}
	return c.s.exec(cmd)
}

func parse(b []byte) (cmd []string, n int, ok bool) {
	num := func(c byte) (int, bool) {
		e := bytes.IndexByte(b[n:], '\n')
		if e < 2 || b[n] != c {
			return 0, false
		}
		k, err := strconv.Atoi(string(b[n+1 : n+e-1]))
		n += e + 1
		return k, err == nil
	}
	k, ok := num('*')
	if !ok {
		return nil, 0, false
	}
	for i := 0; i < k; i++ {
		m, ok := num('$')
		if !ok || n+m+2 > len(b) {
			return nil, 0, false
		}
		cmd = append(cmd, string(b[n:n+m]))
		n += m + 2
	}
	return cmd, n, true
}

func encode(b *bytes.Buffer, r any) {
	switch v := r.(type) {
	case nil:
		b.WriteString("$-1\r\n")
	case status:
		fmt.Fprintf(b, "+%s\r\n", string(v))
	case rerr:
		fmt.Fprintf(b, "-%s\r\n", string(v))
	case int64:
		fmt.Fprintf(b, ":%d\r\n", v)
	case string:
		fmt.Fprintf(b, "$%d\r\n%s\r\n", len(v), v)
	case []any:
		fmt.Fprintf(b, "*%d\r\n", len(v))
		for _, x := range v {
			encode(b, x)
		}
	default:
		panic(fmt.Sprintf("fakeredis: reply %T", r))
	}
}

// ---- commands ----

const wrongType = rerr("WRONGTYPE Operation against a key holding the wrong kind of value")

func (s *Server) exec(cmd []string) any {
	if len(cmd) == 0 {
		return rerr("ERR empty command")
	}
	return s.command(strings.ToUpper(cmd[0]), cmd[1:])
}

func need(a []string, lo, hi int) bool { return len(a) >= lo && (hi < 0 || len(a) <= hi) }

type spec struct{ lo, hi int }

var specs = map[string]spec{
	"PING": {0, 1}, "ECHO": {1, 1}, "SELECT": {1, 1}, "AUTH": {1, 2}, "TIME": {0, 0}, "TYPE": {1, 1}, "EXISTS": {1, -1},
	"DEL": {1, -1}, "UNLINK": {1, -1}, "TTL": {1, 1}, "PTTL": {1, 1}, "EXPIRE": {2, 2}, "PEXPIRE": {2, 2}, "EXPIREAT": {2, 2},
	"PEXPIREAT": {2, 2}, "PERSIST": {1, 1}, "GET": {1, 1}, "SET": {2, -1}, "SETEX": {3, 3}, "PSETEX": {3, 3}, "SETNX": {2, 2},
	"GETSET": {2, 2}, "MGET": {1, -1}, "MSET": {2, -1}, "STRLEN": {1, 1}, "APPEND": {2, 2}, "INCR": {1, 1}, "DECR": {1, 1},
	"INCRBY": {2, 2}, "DECRBY": {2, 2}, "LLEN": {1, 1}, "RPUSH": {2, -1}, "LPUSH": {2, -1}, "RPUSHX": {2, -1}, "LPUSHX": {2, -1},
	"LPOP": {1, 1}, "RPOP": {1, 1}, "LRANGE": {3, 3}, "LINDEX": {2, 2}, "LTRIM": {3, 3}, "LSET": {3, 3}, "LREM": {3, 3},
	"HSET": {3, -1}, "HMSET": {3, -1}, "HSETNX": {3, 3}, "HGET": {2, 2}, "HMGET": {2, -1}, "HGETALL": {1, 1}, "HDEL": {2, -1},
	"HEXISTS": {2, 2}, "HLEN": {1, 1}, "HKEYS": {1, 1}, "HVALS": {1, 1}, "HINCRBY": {3, 3}, "ZADD": {3, -1}, "ZCARD": {1, 1},
	"ZCOUNT": {3, 3}, "ZREM": {2, -1}, "ZREMRANGEBYSCORE": {3, 3}, "ZREMRANGEBYRANK": {3, 3}, "ZRANGE": {3, 4}, "ZRANGEBYSCORE": {3, -1},
	"ZSCORE": {2, 2}, "SCRIPT": {1, -1}, "EVAL": {2, -1}, "EVALSHA": {2, -1}, "FLUSHALL": {0, 1}, "FLUSHDB": {0, 1}, "DBSIZE": {0, 0},
	"CLIENT": {1, -1}, "COMMAND": {0, -1}, "KEYS": {1, 1},
}

func (s *Server) command(name string, a []string) (res any) {
	argErr := rerr("ERR wrong number of arguments for '" + strings.ToLower(name) + "' command")
	sp, ok := specs[name]
	if !ok {
		s.Broken = name
		return rerr(fmt.Sprintf("ERR unknown command `%s`", name))
	}
	if !need(a, sp.lo, sp.hi) {
		return argErr
	}
	atoi := func(x string) (int64, bool) { n, err := strconv.ParseInt(x, 10, 64); return n, err == nil }
	notInt := rerr("ERR value is not an integer or out of range")
	get := func(k, kind string) (*entry, bool) { // nil if missing; false if wrong type
		s.Touched = append(s.Touched, k)
		e := s.look(k)
		return e, e == nil || e.kind == kind
	}
	mk := func(k, kind string) (*entry, bool) {
		e, ok := get(k, kind)
		if ok && e == nil {
			e = &entry{kind: kind, h: map[string]string{}, z: map[string]float64{}}
			s.keys[k] = e
		}
		return e, ok
	}
	b2i := func(b bool) int64 {
		if b {
			return 1
		}
		return 0
	}
	rng := func(n int, x, y string) (int, int, bool) {
		i, ok1 := atoi(x)
		j, ok2 := atoi(y)
		if !ok1 || !ok2 {
			return 0, 0, false
		}
		if i < 0 {
			i += int64(n)
		}
		if j < 0 {
			j += int64(n)
		}
		i = max(i, 0)
		j = min(j, int64(n)-1)
		if i > j {
			return 0, 0, true
		}
		return int(i), int(j) + 1, true
	}
	switch name {
	case "PING":
		if len(a) > 0 {
			return a[0]
		}
		return status("PONG")
	case "ECHO":
		return a[0]
	case "SELECT", "AUTH", "CLIENT":
		return status("OK")
	case "COMMAND":
		return []any{}
	case "DBSIZE":
		return int64(len(s.keys))
	case "KEYS":
		var ks []string
		for k := range s.keys {
			if s.look(k) != nil {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		out := []any{}
		for _, k := range ks {
			out = append(out, k)
		}
		return out
	case "TIME":
		n := s.now()
		return []any{strconv.FormatInt(n/1000, 10), strconv.FormatInt(n%1000*1000, 10)}
	case "FLUSHALL", "FLUSHDB":
		s.keys = map[string]*entry{}
		return status("OK")
	case "TYPE":
		e, _ := get(a[0], "")
		if e == nil {
			return status("none")
		}
		return status(e.kind)
	case "EXISTS":
		n := int64(0)
		for _, k := range a {
			if e, _ := get(k, ""); e != nil {
				n++
			}
		}
		return n
	case "DEL", "UNLINK":
		n := int64(0)
		for _, k := range a {
			if e, _ := get(k, ""); e != nil {
				n++
			}
			delete(s.keys, k)
		}
		return n
	case "TTL", "PTTL":
		e, _ := get(a[0], "")
		if e == nil {
			return int64(-2)
		}
		if e.exp == 0 {
			return int64(-1)
		}
		left := max(e.exp-s.now(), 0)
		if name == "TTL" {
			return (left + 500) / 1000
		}
		return left
	case "EXPIRE", "PEXPIRE", "EXPIREAT", "PEXPIREAT":
		n, ok := atoi(a[1])
		if !ok {
			return notInt
		}
		e, _ := get(a[0], "")
		if e == nil {
			return int64(0)
		}
		if !strings.HasPrefix(name, "P") {
			n *= 1000
		}
		if !strings.HasSuffix(name, "AT") {
			n += s.now()
		}
		if n <= s.now() {
			delete(s.keys, a[0])
		} else {
			e.exp = n
		}
		return int64(1)
	case "PERSIST":
		e, _ := get(a[0], "")
		if e == nil || e.exp == 0 {
			return int64(0)
		}
		e.exp = 0
		return int64(1)
	case "GET", "STRLEN":
		e, ok := get(a[0], "string")
		if !ok {
			return wrongType
		}
		if name == "STRLEN" {
			if e == nil {
				return int64(0)
			}
			return int64(len(e.s))
		}
		if e == nil {
			return nil
		}
		return e.s
	case "MGET":
		out := []any{}
		for _, k := range a {
			if e, ok := get(k, "string"); ok && e != nil {
				out = append(out, e.s)
			} else {
				out = append(out, nil)
			}
		}
		return out
	case "MSET":
		if len(a)%2 != 0 {
			return argErr
		}
		for i := 0; i < len(a); i += 2 {
			s.keys[a[i]] = &entry{kind: "string", s: a[i+1]}
		}
		return status("OK")
	case "APPEND":
		e, ok := mk(a[0], "string")
		if !ok {
			return wrongType
		}
		e.s += a[1]
		return int64(len(e.s))
	case "SET":
		var exp int64
		nx, xx, keep := false, false, false
		for i := 2; i < len(a); i++ {
			switch o := strings.ToUpper(a[i]); o {
			case "NX":
				nx = true
			case "XX":
				xx = true
			case "KEEPTTL":
				keep = true
			case "EX", "PX":
				i++
				if i >= len(a) || exp != 0 {
					return rerr("ERR syntax error")
				}
				n, ok := atoi(a[i])
				if !ok {
					return notInt
				}
				if n <= 0 {
					return rerr("ERR invalid expire time in set")
				}
				if o == "EX" {
					n *= 1000
				}
				exp = s.now() + n
			default:
				return rerr("ERR syntax error")
			}
		}
		if nx && xx {
			return rerr("ERR syntax error")
		}
		e, _ := get(a[0], "")
		if (nx && e != nil) || (xx && e == nil) {
			return nil
		}
		if keep && e != nil {
			exp = e.exp
		}
		s.keys[a[0]] = &entry{kind: "string", s: a[1], exp: exp}
		return status("OK")
	case "SETEX", "PSETEX":
		n, ok := atoi(a[1])
		if !ok {
			return notInt
		}
		if n <= 0 {
			return rerr("ERR invalid expire time in " + strings.ToLower(name))
		}
		if name == "SETEX" {
			n *= 1000
		}
		get(a[0], "")
		s.keys[a[0]] = &entry{kind: "string", s: a[2], exp: s.now() + n}
		return status("OK")
	case "SETNX":
		if e, _ := get(a[0], ""); e != nil {
			return int64(0)
		}
		s.keys[a[0]] = &entry{kind: "string", s: a[1]}
		return int64(1)
	case "GETSET":
		e, ok := get(a[0], "string")
		if !ok {
			return wrongType
		}
		s.keys[a[0]] = &entry{kind: "string", s: a[1]}
		if e == nil {
			return nil
		}
		return e.s
	case "INCR", "DECR", "INCRBY", "DECRBY":
		n := int64(1)
		if len(a) > 1 {
			x, ok := atoi(a[1])
			if !ok {
				return notInt
			}
			n = x
		}
		if name[0] == 'D' {
			n = -n
		}
		e, ok := mk(a[0], "string")
		if !ok {
			return wrongType
		}
		v := int64(0)
		if e.s != "" {
			x, ok := atoi(e.s)
			if !ok {
				return notInt
			}
			v = x
		}
		e.s = strconv.FormatInt(v+n, 10)
		return v + n
	case "LLEN", "LPOP", "RPOP", "LRANGE", "LINDEX", "LTRIM", "LSET", "LREM", "RPUSHX", "LPUSHX":
		e, ok := get(a[0], "list")
		if !ok {
			return wrongType
		}
		if e == nil {
			switch name {
			case "LLEN", "LREM", "RPUSHX", "LPUSHX":
				return int64(0)
			case "LRANGE":
				return []any{}
			case "LTRIM":
				return status("OK")
			case "LSET":
				return rerr("ERR no such key")
			}
			return nil
		}
		fix := func() {
			if len(e.l) == 0 {
				delete(s.keys, a[0])
			}
		}
		switch name {
		case "LLEN":
			return int64(len(e.l))
		case "LPOP":
			v := e.l[0]
			e.l = e.l[1:]
			fix()
			return v
		case "RPOP":
			v := e.l[len(e.l)-1]
			e.l = e.l[:len(e.l)-1]
			fix()
			return v
		case "RPUSHX":
			e.l = append(e.l, a[1:]...)
			return int64(len(e.l))
		case "LPUSHX":
			for _, v := range a[1:] {
				e.l = append([]string{v}, e.l...)
			}
			return int64(len(e.l))
		case "LINDEX", "LSET":
			i, ok := atoi(a[1])
			if !ok {
				return notInt
			}
			if i < 0 {
				i += int64(len(e.l))
			}
			if i < 0 || i >= int64(len(e.l)) {
				if name == "LSET" {
					return rerr("ERR index out of range")
				}
				return nil
			}
			if name == "LSET" {
				e.l[i] = a[2]
				return status("OK")
			}
			return e.l[i]
		case "LREM":
			n, ok := atoi(a[1])
			if !ok {
				return notInt
			}
			var out []string
			rem := int64(0)
			src := e.l
			if n < 0 {
				src = append([]string(nil), src...)
				for i, j := 0, len(src)-1; i < j; i, j = i+1, j-1 {
					src[i], src[j] = src[j], src[i]
				}
			}
			lim := n
			if n < 0 {
				lim = -n
			}
			for _, v := range src {
				if v == a[2] && (n == 0 || rem < lim) {
					rem++
					continue
				}
				out = append(out, v)
			}
			if n < 0 {
				for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
					out[i], out[j] = out[j], out[i]
				}
			}
			e.l = out
			fix()
			return rem
		}
		i, j, ok := rng(len(e.l), a[1], a[2])
		if !ok {
			return notInt
		}
		if name == "LTRIM" {
			e.l = append([]string(nil), e.l[i:j]...)
			fix()
			return status("OK")
		}
		out := []any{}
		for _, v := range e.l[i:j] {
			out = append(out, v)
		}
		return out
	case "RPUSH", "LPUSH":
		e, ok := mk(a[0], "list")
		if !ok {
			return wrongType
		}
		for _, v := range a[1:] {
			if name == "RPUSH" {
				e.l = append(e.l, v)
			} else {
				e.l = append([]string{v}, e.l...)
			}
		}
		return int64(len(e.l))
	case "HSET", "HMSET":
		if len(a)%2 != 1 {
			return argErr
		}
		e, ok := mk(a[0], "hash")
		if !ok {
			return wrongType
		}
		n := int64(0)
		for i := 1; i < len(a); i += 2 {
			if _, ok := e.h[a[i]]; !ok {
				n++
			}
			e.h[a[i]] = a[i+1]
		}
		if name == "HMSET" {
			return status("OK")
		}
		return n
	case "HSETNX":
		e, ok := mk(a[0], "hash")
		if !ok {
			return wrongType
		}
		if _, ok := e.h[a[1]]; ok {
			return int64(0)
		}
		e.h[a[1]] = a[2]
		return int64(1)
	case "HINCRBY":
		n, ok := atoi(a[2])
		if !ok {
			return notInt
		}
		e, ok := mk(a[0], "hash")
		if !ok {
			return wrongType
		}
		v, _ := atoi(e.h[a[1]])
		e.h[a[1]] = strconv.FormatInt(v+n, 10)
		return v + n
	case "HGET", "HMGET", "HGETALL", "HDEL", "HEXISTS", "HLEN", "HKEYS", "HVALS":
		e, ok := get(a[0], "hash")
		if !ok {
			return wrongType
		}
		var h map[string]string
		if e != nil {
			h = e.h
		}
		var fs []string
		for f := range h {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		out := []any{}
		switch name {
		case "HGET":
			if v, ok := h[a[1]]; ok {
				return v
			}
			return nil
		case "HMGET":
			for _, f := range a[1:] {
				if v, ok := h[f]; ok {
					out = append(out, v)
				} else {
					out = append(out, nil)
				}
			}
			return out
		case "HGETALL":
			for _, f := range fs {
				out = append(out, f, h[f])
			}
			return out
		case "HKEYS":
			for _, f := range fs {
				out = append(out, f)
			}
			return out
		case "HVALS":
			for _, f := range fs {
				out = append(out, h[f])
			}
			return out
		case "HLEN":
			return int64(len(h))
		case "HEXISTS":
			_, ok := h[a[1]]
			return b2i(ok)
		}
		n := int64(0)
		for _, f := range a[1:] {
			if _, ok := h[f]; ok {
				delete(h, f)
				n++
			}
		}
		if e != nil && len(h) == 0 {
			delete(s.keys, a[0])
		}
		return n
	case "ZADD", "ZCARD", "ZCOUNT", "ZREM", "ZREMRANGEBYSCORE", "ZREMRANGEBYRANK", "ZRANGE", "ZRANGEBYSCORE", "ZSCORE":
		return s.zcommand(name, a, get, mk, rng)
	case "SCRIPT":
		switch strings.ToUpper(a[0]) {
		case "LOAD":
			if len(a) != 2 {
				return argErr
			}
			sc, err := compile(a[1])
			if err != "" {
				return rerr(err)
			}
			sha := fmt.Sprintf("%x", sha1.Sum([]byte(a[1])))
			s.scripts[sha] = sc
			return sha
		case "EXISTS":
			out := []any{}
			for _, x := range a[1:] {
				_, ok := s.scripts[strings.ToLower(x)]
				out = append(out, b2i(ok))
			}
			return out
		case "FLUSH":
			s.scripts = map[string]script{}
			return status("OK")
		}
		return rerr("ERR Unknown subcommand")
	case "EVAL", "EVALSHA":
		if s.frozen != 0 {
			return rerr("ERR This Redis command is not allowed from scripts")
		}
		var sc script
		if name == "EVAL" {
			c, err := compile(a[0])
			if err != "" {
				return rerr(err)
			}
			sc = c
			s.scripts[fmt.Sprintf("%x", sha1.Sum([]byte(a[0])))] = c
		} else {
			sc = s.scripts[strings.ToLower(a[0])]
			if sc == nil {
				return rerr("NOSCRIPT No matching script. Please use EVAL.")
			}
		}
		n, ok := atoi(a[1])
		if !ok {
			return notInt
		}
		if n > int64(len(a)-2) {
			return rerr("ERR Number of keys can't be greater than number of args")
		}
		if n < 0 {
			return rerr("ERR Number of keys can't be negative")
		}
		return s.eval(sc, a[2:2+n], a[2+n:])
	}
	return rerr("ERR unsupported")
}

func (s *Server) zcommand(name string, a []string, get, mk func(k, kind string) (*entry, bool), rng func(n int, x, y string) (int, int, bool)) any {
	bound := func(x string) (float64, bool, bool) {
		ex := strings.HasPrefix(x, "(")
		x = strings.TrimPrefix(x, "(")
		switch strings.ToLower(x) {
		case "-inf":
			return math.Inf(-1), ex, true
		case "+inf", "inf":
			return math.Inf(1), ex, true
		}
		f, err := strconv.ParseFloat(x, 64)
		return f, ex, err == nil
	}
	if name == "ZADD" {
		e, ok := mk(a[0], "zset")
		if !ok {
			return wrongType
		}
		rest := a[1:]
		nx, xx := false, false
		for len(rest) > 0 {
			switch strings.ToUpper(rest[0]) {
			case "NX":
				nx = true
			case "XX":
				xx = true
			default:
				goto pairs
			}
			rest = rest[1:]
		}
	pairs:
		if len(rest) == 0 || len(rest)%2 != 0 {
			return rerr("ERR syntax error")
		}
		n := int64(0)
		for i := 0; i < len(rest); i += 2 {
			f, _, ok := bound(rest[i])
			if !ok {
				return rerr("ERR value is not a valid float")
			}
			_, had := e.z[rest[i+1]]
			if (had && nx) || (!had && xx) {
				continue
			}
			if !had {
				n++
			}
			e.z[rest[i+1]] = f
		}
		if len(e.z) == 0 {
			delete(s.keys, a[0])
		}
		return n
	}
	e, ok := get(a[0], "zset")
	if !ok {
		return wrongType
	}
	var z map[string]float64
	if e != nil {
		z = e.z
	}
	var ms []string
	for m := range z {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool {
		if z[ms[i]] != z[ms[j]] {
			return z[ms[i]] < z[ms[j]]
		}
		return ms[i] < ms[j]
	})
	fix := func() {
		if e != nil && len(z) == 0 {
			delete(s.keys, a[0])
		}
	}
	sc := func(m string) string { return fmtnum(z[m], 17) }
	switch name {
	case "ZCARD":
		return int64(len(z))
	case "ZSCORE":
		if _, ok := z[a[1]]; !ok {
			return nil
		}
		return sc(a[1])
	case "ZREM":
		n := int64(0)
		for _, m := range a[1:] {
			if _, ok := z[m]; ok {
				delete(z, m)
				n++
			}
		}
		fix()
		return n
	case "ZRANGE", "ZREMRANGEBYRANK":
		i, j, ok := rng(len(ms), a[1], a[2])
		if !ok {
			return rerr("ERR value is not an integer or out of range")
		}
		if name == "ZRANGE" {
			out := []any{}
			for _, m := range ms[i:j] {
				out = append(out, m)
				if len(a) == 4 {
					out = append(out, sc(m))
				}
			}
			return out
		}
		for _, m := range ms[i:j] {
			delete(z, m)
		}
		fix()
		return int64(j - i)
	}
	lo, lex, ok1 := bound(a[1])
	hi, hex, ok2 := bound(a[2])
	if !ok1 || !ok2 {
		return rerr("ERR min or max is not a float")
	}
	var in []string
	for _, m := range ms {
		v := z[m]
		if (v > lo || (!lex && v == lo)) && (v < hi || (!hex && v == hi)) {
			in = append(in, m)
		}
	}
	switch name {
	case "ZCOUNT":
		return int64(len(in))
	case "ZREMRANGEBYSCORE":
		for _, m := range in {
			delete(z, m)
		}
		fix()
		return int64(len(in))
	}
	ws := false
	for i := 3; i < len(a); i++ {
		switch strings.ToUpper(a[i]) {
		case "WITHSCORES":
			ws = true
		case "LIMIT":
			if i+2 >= len(a) {
				return rerr("ERR syntax error")
			}
			off, _ := strconv.Atoi(a[i+1])
			cnt, _ := strconv.Atoi(a[i+2])
			if off >= len(in) {
				in = nil
			} else {
				in = in[off:]
			}
			if cnt >= 0 && cnt < len(in) {
				in = in[:cnt]
			}
			i += 2
		}
	}
	out := []any{}
	for _, m := range in {
		out = append(out, m)
		if ws {
			out = append(out, sc(m))
		}
	}
	return out
}

// ---- scripts ----

func (s *Server) eval(sc script, keys, argv []string) (res any) {
	s.frozen = s.now()
	if s.frozen == 0 {
		s.frozen = 1
	}
	defer func() {
		s.frozen = 0
		if r := recover(); r != nil {
			l, ok := r.(lraise)
			if !ok {
				panic(r)
			}
			if t, ok := l.v.(*ltable); ok && t.get("err") != nil {
				res = rerr(ltostring(t.get("err")))
				return
			}
			res = rerr("ERR Error running script: " + strings.ReplaceAll(ltostring(l.v), "\n", " "))
		}
	}()
	arr := func(ss []string) *ltable {
		t := &ltable{}
		for _, x := range ss {
			t.arr = append(t.arr, x)
		}
		return t
	}
	if s.globals == nil {
		s.globals = s.mkGlobals()
	}
	s.globals["KEYS"], s.globals["ARGV"] = arr(keys), arr(argv)
	return fromLua(one(sc(&env{globals: s.globals})))
}

var base = baseGlobals()

func (s *Server) mkGlobals() map[string]lval {
	g := map[string]lval{}
	for k, v := range base {
		g[k] = v
	}
	do := func(a []lval) any {
		var cmd []string
		for _, x := range a {
			switch v := x.(type) {
			case string:
				cmd = append(cmd, v)
			case float64:
				cmd = append(cmd, fmtnum(v, 17))
			default:
				panic(lerr("Lua redis() command arguments must be strings or integers"))
			}
		}
		if len(cmd) == 0 {
			panic(lerr("Please specify at least one argument for redis.call()"))
		}
		return s.exec(cmd)
	}
	g["redis"] = table(map[string]func(a []lval) []lval{
		"call": func(a []lval) []lval {
			r := do(a)
			if e, ok := r.(rerr); ok {
				t := &ltable{}
				t.set("err", string(e))
				panic(lraise{t})
			}
			return []lval{toLua(r)}
		},
		"pcall":              func(a []lval) []lval { return []lval{toLua(do(a))} },
		"error_reply":        func(a []lval) []lval { t := &ltable{}; t.set("err", ltostring(at(a, 0))); return []lval{t} },
		"status_reply":       func(a []lval) []lval { t := &ltable{}; t.set("ok", ltostring(at(a, 0))); return []lval{t} },
		"sha1hex":            func(a []lval) []lval { return []lval{fmt.Sprintf("%x", sha1.Sum([]byte(ltostring(at(a, 0)))))} },
		"log":                func(a []lval) []lval { return nil },
		"replicate_commands": func(a []lval) []lval { return []lval{true} },
		"setresp":            func(a []lval) []lval { return nil },
	})
	rt := g["redis"].(*ltable)
	for i, n := range []string{"LOG_DEBUG", "LOG_VERBOSE", "LOG_NOTICE", "LOG_WARNING"} {
		rt.set(n, float64(i))
	}
	return g
}

func toLua(r any) lval {
	switch v := r.(type) {
	case nil:
		return false
	case status:
		t := &ltable{}
		t.set("ok", string(v))
		return t
	case rerr:
		t := &ltable{}
		t.set("err", string(v))
		return t
	case int64:
		return float64(v)
	case string:
		return v
	case []any:
		t := &ltable{}
		for _, x := range v {
			t.arr = append(t.arr, toLua(x))
		}
		return t
	}
	return false
}

func fromLua(v lval) any {
	switch x := v.(type) {
	case nil:
		return nil
	case bool:
		if x {
			return int64(1)
		}
		return nil
	case float64:
		return int64(x)
	case string:
		return x
	case *ltable:
		if e := x.get("err"); e != nil {
			return rerr(ltostring(e))
		}
		if o := x.get("ok"); o != nil {
			return status(ltostring(o))
		}
		out := []any{}
		for _, y := range x.arr {
			if y == nil {
				break
			}
			out = append(out, fromLua(y))
		}
		return out
	}
	return nil
}
