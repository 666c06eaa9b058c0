//go:build go1.22

package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"strings"
	"sync/atomic"
	"time"

	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/simplelog"
	"github.com/chanjarster/gears/zverif/fakeredis"
	"github.com/chanjarster/gears/zverif/lib"
	"github.com/elastic/go-elasticsearch/v7"
	"github.com/go-redis/redis/v7"
)

func init() {
	lib.Register("P35", p35, "what a usable server is: one whose answers let the plain driver's own Ping succeed")
	programs["fail"] = failProgram
}

// fcase is one opening of a client whose server fails as told.
type fcase struct {
	Kind   string
	Traced bool
	Script []int // what the server does, attempt by attempt; the last one repeats
	Cmd    int   // Redis: the command the fault hits
	Bad    int   // a setting that cannot be used, 0: none
	Plain  bool  // the driver alone, without the code under test
}

func (f fcase) String() string {
	names := []string{}
	for _, s := range f.Script {
		switch f.Kind {
		case "redis":
			names = append(names, fakeredis.Fault(s).String())
		case "elasticsearch":
			names = append(names, fmt.Sprint(s))
		default:
			names = append(names, sqlFaults[s])
		}
	}
	return fmt.Sprintf("opening %s (traced %v), server %v at command %d, unusable setting %d", f.Kind, f.Traced, names, f.Cmd, f.Bad)
}

// faults of a database, attempt by attempt
var sqlFaults = []string{"answers", "refuses the connection", "breaks the connection while connecting", "fails the ping", "breaks the connection at the ping", "refuses the credentials"}

var errRefused = errors.New("server refuses")

type failing struct {
	c      driver.Connector
	script []int
	n      int
	conns  atomic.Int64
}

func (r *failing) next() int {
	f := r.script[min(r.n, len(r.script)-1)]
	r.n++
	return f
}

func (r *failing) Connect(context.Context) (driver.Conn, error) {
	f := r.next()
	switch f {
	case 1, 5:
		return nil, errRefused
	case 2:
		return nil, driver.ErrBadConn
	}
	r.conns.Add(1)
	return &failConn{r, f}, nil
}
func (r *failing) Driver() driver.Driver { return r.c.Driver() }

type failConn struct {
	r *failing
	f int
}

func (c *failConn) Prepare(string) (driver.Stmt, error) { return nil, errors.New("not a database") }
func (c *failConn) Close() error                        { c.r.conns.Add(-1); return nil }
func (c *failConn) Begin() (driver.Tx, error)           { return nil, errors.New("not a database") }
func (c *failConn) Ping(context.Context) error {
	switch c.f {
	case 3:
		return errRefused
	case 4:
		return driver.ErrBadConn
	}
	return nil
}

// esServer answers with the status of the script; 0 breaks the connection, 1 lets the body of a 500 break.
type esServer struct {
	script []int
	n      int
	open   int
}

type countedBody struct {
	io.Reader
	s      *esServer
	closed bool
}

func (b *countedBody) Close() error {
	if !b.closed {
		b.closed = true
		b.s.open--
	}
	return nil
}

type brokenReader struct{}

func (brokenReader) Read([]byte) (int, error) { return 0, io.ErrUnexpectedEOF }

func (e *esServer) RoundTrip(r *http.Request) (*http.Response, error) {
	s := e.script[min(e.n, len(e.script)-1)]
	e.n++
	if s == 0 {
		return nil, errRefused
	}
	var body io.Reader = strings.NewReader("text")
	if s == 1 {
		s, body = 500, brokenReader{}
	}
	e.open++
	return &http.Response{StatusCode: s, Header: http.Header{}, Body: &countedBody{body, e, false}, Request: r}, nil
}

// failProgram opens the client; it prints OPENED when it is returned.
func failProgram(arg string) {
	var f fcase
	if err := json.Unmarshal([]byte(arg), &f); err != nil {
		panic(err)
	}
	if f.Kind == "batch" {
		return
	}
	simplelog.StdLogger.SetOutput(io.Discard)
	leak := f.open()
	fmt.Print("OPENED ", leak)
}

func (f fcase) open() (leak string) {
	switch f.Kind {
	case "redis":
		srv := fakeredis.New(func() int64 { return time.Now().UnixMilli() })
		n, at := 0, 0
		srv.Fault = func([]string) fakeredis.Fault {
			n++
			if n-1 < f.Cmd {
				return fakeredis.None
			}
			s := f.Script[min(at, len(f.Script)-1)]
			at++
			return fakeredis.Fault(s)
		}
		if f.Script[0] == int(fakeredis.Refused) {
			srv.Down()
		}
		cust := func(o *redis.Options) {
			o.Dialer = srv.Dialer
			o.IdleCheckFrequency = -1
			o.MinRetryBackoff, o.MaxRetryBackoff = -1, -1
			o.PoolTimeout = 5 * time.Second
		}
		cf := &confs.RedisConf{Host: "h", Port: 6379, Password: "pw", Pool: 2, Db: 1}
		if f.Plain {
			o := &redis.Options{Addr: "h:6379", Password: "pw", PoolSize: 2, DB: 1}
			cust(o)
			if err := redis.NewClient(o).Ping().Err(); err != nil {
				os.Exit(1)
			}
			return ""
		}
		if confs.NewRedisClient(cf, cust) == nil {
			return "no client"
		}
		return ""
	case "elasticsearch":
		e := &esServer{script: f.Script}
		addrs := "http://e1:9200,http://e2:9200"
		if f.Bad == 1 {
			addrs = "http://e1:9200,:::"
		}
		if f.Plain {
			es, err := elasticsearch.NewClient(elasticsearch.Config{Addresses: strings.Split(addrs, ","), Transport: e})
			if err != nil {
				os.Exit(1)
			}
			res, err := es.Ping()
			if err != nil || res.StatusCode > 299 {
				os.Exit(1)
			}
			return ""
		}
		es := confs.NewEsClient(&confs.EsConf{Addrs: addrs}, func(mc *elasticsearch.Config) { mc.Transport = e })
		if es == nil {
			return "no client"
		}
		if e.open != 0 && f.Script[0] != 502 && f.Script[0] != 503 && f.Script[0] != 504 { // its retries are the driver's own
			return fmt.Sprintf("%d responses are left open", e.open)
		}
		return ""
	}
	var r *failing
	sql.ZZOpenDB = func(c driver.Connector) driver.Connector {
		r = &failing{c: c, script: f.Script}
		return r
	}
	var db *sql.DB
	if f.Plain {
		db = sql.OpenDB(&failing{c: nil, script: f.Script})
		if db.Ping() != nil || f.Bad != 0 {
			os.Exit(1)
		}
		return ""
	}
	switch f.Kind {
	case "mysql":
		cf := &confs.MysqlConf{Host: "h", Port: 1, Username: "u", Password: "p", Database: "d", MaxIdleConns: 1}
		if f.Bad == 1 {
			cf.Loc = "Nowhere/Land"
		}
		if f.Traced {
			db = confs.NewMySqlDbWithTracer(cf, aTracer, nil)
		} else {
			db = confs.NewMySqlDb(cf, nil)
		}
	case "postgresql":
		cf := &confs.PostgresqlConf{Host: "h", Port: 1, Username: "u", Password: "p", Database: "d", MaxIdleConns: 1}
		if f.Traced {
			db = confs.NewPostgresqlDbWithTracer(cf, aTracer, nil)
		} else {
			db = confs.NewPostgresqlDb(cf, nil)
		}
	case "oracle":
		cf := &confs.OracleConf{Host: "h", Port: 1, Username: "u", Password: "p", Service: "s", MaxIdleConns: 1}
		if f.Bad == 1 {
			cf.Service = ""
		}
		if f.Traced {
			db = confs.NewOracleDbWithTracer(cf, aTracer, nil)
		} else {
			db = confs.NewOracleDb(cf, nil)
		}
	}
	if db == nil {
		return "no database"
	}
	if r == nil {
		return "no database is opened"
	}
	if r.conns.Load() == 0 {
		return "the database returned is not the one that was tried"
	}
	return ""
}

func (f fcase) run() string {
	call := func(f fcase) (bool, string) {
		b, _ := json.Marshal(f)
		code, out := runProgram("fail", string(b), nil, nil)
		rest, opened := strings.CutPrefix(out, "OPENED ")
		return opened && code == 0, rest
	}
	got, leak := call(f)
	f.Plain = true
	want, _ := call(f)
	if f.Bad != 0 {
		want = false
	}
	switch {
	case got && !want:
		return "a client is returned although its server cannot be used"
	case !got && want:
		return "the program fails although the server can be used"
	case got && leak != "":
		return leak
	}
	return ""
}

func p35(thorough bool) []*lib.Unit {
	var us []*lib.Unit
	add := func(name, note string, k int, gen func(c *lib.Ctx, try func(f fcase) bool)) {
		us = append(us, lib.Shards(name, 3, k, note, func(c *lib.Ctx, shard, shards int) {
			n := 0
			gen(c, func(f fcase) bool {
				n++
				if n%shards != shard {
					return true
				}
				c.State(f)
				c.Trans(len(f.Script))
				return c.Case(f.String, f.run)
			})
		})...)
	}
	for _, kind := range []string{"mysql", "postgresql", "oracle"} {
		add(kind, "every sequence of up to 4 (thorough: 5) outcomes of connecting and pinging (answers, refuses, breaks, fails the ping, breaks at the ping), plain and traced, and a setting that cannot be used", 4, func(c *lib.Ctx, try func(f fcase) bool) {
			depth := 3
			if c.Thorough {
				depth = 5
			}
			for _, traced := range []bool{false, true} {
				if kind != "postgresql" && !try(fcase{Kind: kind, Traced: traced, Script: []int{0}, Bad: 1}) {
					return
				}
				var rec func(s []int) bool
				rec = func(s []int) bool {
					if len(s) > 0 && !try(fcase{Kind: kind, Traced: traced, Script: append([]int{}, s...)}) {
						return false
					}
					if len(s) == depth || len(s) > 0 && s[len(s)-1]%2 == 1 || len(s) > 0 && s[len(s)-1] == 0 {
						return true // what follows is never reached
					}
					for f := 0; f < 5; f++ {
						if !rec(append(s, f)) {
							return false
						}
					}
					return true
				}
				if !rec(nil) {
					return
				}
			}
		})
	}
	add("redis", "every sequence of up to 2 (thorough: 3) faults beginning at each command of the opening (authentication, selection, ping), the last one lasting", 4, func(c *lib.Ctx, try func(f fcase) bool) {
		depth := 2
		if c.Thorough {
			depth = 3
		}
		for cmd := 0; cmd < 4; cmd++ {
			var rec func(s []int) bool
			rec = func(s []int) bool {
				if len(s) > 0 && !try(fcase{Kind: "redis", Script: append([]int{}, s...), Cmd: cmd}) {
					return false
				}
				if len(s) == depth {
					return true
				}
				for f := 0; f < int(fakeredis.NFaults); f++ {
					if len(s) > 0 && f == int(fakeredis.Refused) {
						continue
					}
					if !rec(append(s, f)) {
						return false
					}
				}
				return true
			}
			if !rec(nil) {
				return
			}
		}
	})
	add("elasticsearch", "every status from 200 to 599 and broken connections and bodies, alone and before a success", 4, func(c *lib.Ctx, try func(f fcase) bool) {
		if !try(fcase{Kind: "elasticsearch", Script: []int{200}, Bad: 1}) {
			return
		}
		for s := 0; s < 600; s++ {
			if s == 2 {
				s = 200
			}
			if !c.Thorough && s >= 200 && s%10 > 4 {
				continue
			}
			if !try(fcase{Kind: "elasticsearch", Script: []int{s}}) || !try(fcase{Kind: "elasticsearch", Script: []int{s, 200}}) {
				return
			}
		}
	})
	return us
}
