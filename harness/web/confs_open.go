//go:build go1.22

package main

import (
	"bytes"
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/SkyAPM/go2sky"
	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/zverif/fakeredis"
	"github.com/chanjarster/gears/zverif/lib"
	"github.com/elastic/go-elasticsearch/v7"
	"github.com/go-redis/redis/v7"
	"github.com/go-sql-driver/mysql"
	"github.com/lib/pq"
	go_ora "github.com/sijms/go-ora/v2"
)

func init() {
	lib.Register("P29", p29, "what a data source name means is what the real driver parses it to", "MySQL user names are not empty and have no ':' and database names no '/', Oracle user names no ':' and option values no ',' (their DSN formats cannot express them)",
		"a parameter is not also set by the customizer", "parameter names are letters and digits, each given once")
	sql.ZZOpenDB = func(c driver.Connector) driver.Connector {
		r := &recorded{c: c}
		opened = append(opened, r)
		return r
	}
}

// ---- a database that can be reached but does nothing ----------------------------------------------------------------

var opened []*recorded

type recorded struct {
	c     driver.Connector
	conns int
	pings int
}

func (r *recorded) Connect(context.Context) (driver.Conn, error) {
	r.conns++
	if memory != nil {
		return memConn{memory}, nil
	}
	return &idleConn{r}, nil
}
func (r *recorded) Driver() driver.Driver { return r.c.Driver() }

type idleConn struct{ r *recorded }

func (c *idleConn) Prepare(string) (driver.Stmt, error) { return nil, errors.New("not a database") }
func (c *idleConn) Close() error                        { return nil }
func (c *idleConn) Begin() (driver.Tx, error)           { return nil, errors.New("not a database") }
func (c *idleConn) Ping(context.Context) error          { c.r.pings++; return nil }

// field reads an unexported field.
func field(v reflect.Value, name string) reflect.Value {
	for v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	f := v.FieldByName(name)
	if f.IsValid() && f.CanAddr() {
		return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
	}
	return f
}

// dsn of a connector that database/sql made from a name, or "".
func dsn(c driver.Connector) (string, bool) {
	v := reflect.ValueOf(c)
	if v.Kind() == reflect.Struct {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		v = p
	}
	for _, n := range []string{"dsn", "connectString"} {
		if f := field(v, n); f.IsValid() && f.Kind() == reflect.String {
			return f.String(), true
		}
	}
	return "", false
}

// settings is what a client was opened with, normalised.
type settings map[string]string

func (s settings) String() string {
	var ks []string
	for k, v := range s {
		ks = append(ks, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func compare(got, want settings) string {
	for k, v := range want {
		if g, ok := got[k]; !ok || g != v {
			return fmt.Sprintf("%s is %q, expected %q (opened with %v)", k, g, v, got)
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("%s is %q, expected to be unset (opened with %v)", k, v, got)
		}
	}
	return ""
}

func pool(s settings, db *sql.DB) {
	s["max open"] = fmt.Sprint(db.Stats().MaxOpenConnections)
	idle := field(reflect.ValueOf(db), "maxIdleCount").Int()
	switch {
	case idle == 0:
		idle = 2 // the default of database/sql
	case idle < 0:
		idle = 0
	}
	s["max idle"] = fmt.Sprint(idle)
	s["lifetime"] = field(reflect.ValueOf(db), "maxLifetime").Interface().(time.Duration).String()
}

func wantPool(s settings, open, idle int, life time.Duration) {
	if open < 0 {
		open = 0
	}
	if idle < 0 {
		idle = 0
	}
	if open > 0 && idle > open {
		idle = open
	}
	if life < 0 {
		life = 0
	}
	s["max open"], s["max idle"], s["lifetime"] = fmt.Sprint(open), fmt.Sprint(idle), life.String()
}

// wantParams decodes extra parameters: NAME=VALUE pairs joined by &, the value URL-encoded; anything else is ignored. The
// second result tells whether the text is in the domain (names of letters and digits, each once).
func wantParams(text string) (map[string]string, bool) {
	out := map[string]string{}
	seen := map[string]bool{}
	for _, p := range strings.Split(text, "&") {
		parts := strings.Split(p, "=")
		if len(parts) != 2 {
			continue
		}
		k := parts[0]
		if k == "" || strings.Trim(k, "abcdefghijklmnopqrstuvwxyz0123456789_") != "" || seen[k] {
			return nil, false
		}
		seen[k] = true
		if v, err := url.QueryUnescape(parts[1]); err == nil {
			out[k] = v
		}
	}
	return out, true
}

// ---- MySQL ----------------------------------------------------------------------------------------------------------

func tracer() *go2sky.Tracer {
	t, err := go2sky.NewTracer("zverif")
	if err != nil {
		panic(err)
	}
	return t
}

var aTracer = tracer()

func openMysql(cf *confs.MysqlConf, traced bool, cust confs.MysqlConfigCustomizer) (settings, string) {
	opened = nil
	var db *sql.DB
	if traced {
		db = confs.NewMySqlDbWithTracer(cf, aTracer, cust)
	} else {
		db = confs.NewMySqlDb(cf, cust)
	}
	if m := oneOpen(db); m != "" {
		return nil, m
	}
	defer db.Close()
	conn0 := opened[0].c
	interlude()
	var mc *mysql.Config
	c := conn0
	if f := field(reflect.ValueOf(c), "cfg"); f.IsValid() {
		mc = f.Interface().(*mysql.Config)
	} else if d, ok := dsn(c); ok {
		var err error
		if mc, err = mysql.ParseDSN(d); err != nil {
			return nil, "the driver rejects the data source name: " + err.Error()
		}
	} else {
		return nil, fmt.Sprintf("opened with an unknown connector %T", c)
	}
	s := settings{"driver": fmt.Sprintf("%T", db.Driver()), "net": mc.Net, "addr": mc.Addr, "user": mc.User, "password": mc.Passwd, "db": mc.DBName,
		"timeout": mc.Timeout.String(), "read timeout": mc.ReadTimeout.String(), "write timeout": mc.WriteTimeout.String(), "parseTime": fmt.Sprint(mc.ParseTime),
		"loc": mc.Loc.String(), "collation": mc.Collation, "multi": fmt.Sprint(mc.MultiStatements)}
	for k, v := range mc.Params {
		s["param "+k] = v
	}
	mysqlRest(s, mc)
	pool(s, db)
	return s, ""
}

// mysqlRest adds the settings of the driver that the configuration does not mention.
func mysqlRest(s settings, mc *mysql.Config) {
	v := reflect.ValueOf(mc).Elem()
	for i := 0; i < v.NumField(); i++ {
		switch n := v.Type().Field(i).Name; n {
		case "Net", "Addr", "User", "Passwd", "DBName", "Timeout", "ReadTimeout", "WriteTimeout", "ParseTime", "Loc", "Collation", "MultiStatements", "Params":
		default:
			switch f := v.Field(i); f.Kind() {
			case reflect.Bool, reflect.String, reflect.Int:
				s["driver's "+n] = fmt.Sprint(f)
			}
		}
	}
}

// meanwhile is what happens between the making of the next client and its use.
var meanwhile func()

func interlude() {
	if f := meanwhile; f != nil {
		meanwhile = nil
		f()
	}
}

func oneOpen(db *sql.DB) string {
	if db == nil {
		return "no database is returned"
	}
	if len(opened) != 1 {
		return fmt.Sprintf("%d databases are opened", len(opened))
	}
	if opened[0].conns == 0 {
		return "the database is not tried"
	}
	return ""
}

func wantMysql(cf *confs.MysqlConf) (settings, bool) {
	s := settings{"driver": "*mysql.MySQLDriver", "net": "tcp", "addr": fmt.Sprintf("%s:%d", cf.Host, cf.Port), "user": cf.Username, "password": cf.Password, "db": cf.Database,
		"timeout": cf.Timeout.String(), "read timeout": cf.ReadTimeout.String(), "write timeout": cf.WriteTimeout.String(), "parseTime": fmt.Sprint(cf.ParseTime),
		"loc": "UTC", "collation": "utf8mb4_general_ci", "multi": "false"}
	if cf.Loc != "" {
		s["loc"] = cf.Loc
	}
	if mysqlDefaults == nil {
		var err error
		if mysqlDefaults, err = mysql.ParseDSN(mysql.NewConfig().FormatDSN()); err != nil {
			panic(err)
		}
	}
	mysqlRest(s, mysqlDefaults)
	ps, ok := wantParams(cf.Params)
	for k, v := range ps {
		s["param "+k] = v
	}
	wantPool(s, cf.MaxOpenConns, cf.MaxIdleConns, cf.ConnMaxLifetime)
	return s, ok
}

var mysqlDefaults *mysql.Config

// ---- PostgreSQL -----------------------------------------------------------------------------------------------------

func openPg(cf *confs.PostgresqlConf, traced bool, cust confs.PostgresqlUrlOptionsCustomizer) (settings, string) {
	opened = nil
	var db *sql.DB
	if traced {
		db = confs.NewPostgresqlDbWithTracer(cf, aTracer, cust)
	} else {
		db = confs.NewPostgresqlDb(cf, cust)
	}
	if m := oneOpen(db); m != "" {
		return nil, m
	}
	defer db.Close()
	conn0 := opened[0].c
	interlude()
	c := conn0
	if d, ok := dsn(c); ok {
		pc, err := pq.NewConnector(d)
		if err != nil {
			return nil, "the driver rejects the data source name: " + err.Error()
		}
		c = pc
	}
	opts := field(reflect.ValueOf(c), "opts")
	if !opts.IsValid() {
		return nil, fmt.Sprintf("opened with an unknown connector %T", c)
	}
	s := settings{"driver": fmt.Sprintf("%T", db.Driver())}
	for _, k := range opts.MapKeys() {
		s["opt "+k.String()] = opts.MapIndex(k).String()
	}
	pool(s, db)
	return s, ""
}

var pgDefaults = func() settings {
	c, err := pq.NewConnector("postgres://localhost/")
	if err != nil {
		panic(err)
	}
	s := settings{}
	opts := field(reflect.ValueOf(c), "opts")
	for _, k := range opts.MapKeys() {
		s["opt "+k.String()] = opts.MapIndex(k).String()
	}
	return s
}()

func wantPg(cf *confs.PostgresqlConf) (settings, bool) {
	s := settings{}
	for k, v := range pgDefaults {
		s[k] = v
	}
	s["driver"] = "*pq.Driver"
	s["opt host"], s["opt port"], s["opt user"] = cf.Host, fmt.Sprint(cf.Port), cf.Username
	if cf.Password != "" {
		s["opt password"] = cf.Password
	}
	if cf.Database != "" {
		s["opt dbname"] = cf.Database
	}
	if cf.ConnectTimeout != 0 {
		s["opt connect_timeout"] = fmt.Sprint(cf.ConnectTimeout)
	}
	ps, ok := wantParams(cf.Params)
	for k, v := range ps {
		if v != "" { // the driver takes an empty value for an unset one
			s["opt "+k] = v
		}
	}
	wantPool(s, cf.MaxOpenConns, cf.MaxIdleConns, cf.ConnMaxLifetime)
	return s, ok
}

// ---- Oracle ---------------------------------------------------------------------------------------------------------

func openOra(cf *confs.OracleConf, traced bool, cust confs.OracleUrlOptionsCustomizer) (settings, string) {
	opened = nil
	var db *sql.DB
	if traced {
		db = confs.NewOracleDbWithTracer(cf, aTracer, cust)
	} else {
		db = confs.NewOracleDb(cf, cust)
	}
	if m := oneOpen(db); m != "" {
		return nil, m
	}
	defer db.Close()
	conn0 := opened[0].c
	interlude()
	d, ok := dsn(conn0)
	if !ok {
		return nil, fmt.Sprintf("opened with an unknown connector %T", conn0)
	}
	conn, err := go_ora.NewConnection(d)
	if err != nil {
		return nil, "the driver rejects the data source name: " + err.Error()
	}
	cs := field(reflect.ValueOf(conn), "conStr")
	co := field(cs, "connOption")
	di, si := co.FieldByName("DatabaseInfo"), co.FieldByName("SessionInfo")
	s := settings{"driver": fmt.Sprintf("%T", db.Driver()), "user": di.FieldByName("UserID").String(), "password": field(cs, "password").String(),
		"service": di.FieldByName("ServiceName").String(), "sid": di.FieldByName("SID").String(), "timeout": fmt.Sprint(si.FieldByName("Timeout").Int())}
	servers := di.FieldByName("Servers")
	var addrs []string
	for i := 0; i < servers.Len(); i++ {
		addrs = append(addrs, fmt.Sprintf("%s:%d", servers.Index(i).FieldByName("Addr"), servers.Index(i).FieldByName("Port").Int()))
	}
	s["servers"] = strings.Join(addrs, ",")
	u, err := url.Parse(d)
	if err != nil {
		return nil, err.Error()
	}
	for k, v := range u.Query() {
		switch strings.ToUpper(k) {
		case "SID", "SERVER", "CONNECTION TIMEOUT", "CONNECT TIMEOUT":
		default:
			s["param "+k] = strings.Join(v, ",")
		}
	}
	pool(s, db)
	return s, ""
}

func wantOra(cf *confs.OracleConf) (settings, bool) {
	s := settings{"driver": "*go_ora.OracleDriver", "user": cf.Username, "password": cf.Password, "service": cf.Service, "sid": cf.Sid, "timeout": "15"}
	if cf.ConnectTimeout != 0 {
		s["timeout"] = fmt.Sprint(cf.ConnectTimeout)
	}
	s["servers"] = fmt.Sprintf("%s:%d", cf.Host, cf.Port)
	if cf.Servers != "" {
		s["servers"] += "," + cf.Servers
	}
	ps, ok := wantParams(cf.Params)
	for k, v := range ps {
		s["param "+k] = strings.TrimSpace(v)
	}
	wantPool(s, cf.MaxOpenConns, cf.MaxIdleConns, cf.ConnMaxLifetime)
	return s, ok
}

// ---- Redis ----------------------------------------------------------------------------------------------------------

func openRedis(cf *confs.RedisConf, cust func(o *redis.Options)) (settings, string) {
	srv := fakeredis.New(func() int64 { return time.Now().UnixMilli() })
	var mu sync.Mutex
	dialled := map[string]bool{}
	cl := confs.NewRedisClient(cf, func(o *redis.Options) {
		o.IdleCheckFrequency = -1
		o.Dialer = func(ctx context.Context, network, addr string) (net.Conn, error) {
			mu.Lock()
			dialled[network+" "+addr] = true
			mu.Unlock()
			return srv.Dialer(ctx, network, addr)
		}
		if cust != nil {
			cust(o)
		}
	})
	if cl == nil {
		return nil, "no client is returned"
	}
	defer cl.Close()
	interlude()
	o := cl.Options()
	s := settings{"password": o.Password, "db": fmt.Sprint(o.DB), "pool": fmt.Sprint(o.PoolSize), "min idle": fmt.Sprint(o.MinIdleConns),
		"retries": fmt.Sprint(o.MaxRetries)}
	mu.Lock()
	for a := range dialled {
		s["dialled"] += a
	}
	mu.Unlock()
	// what the server was told on the connection that answered the ping
	auth, sel, ping := "", "", false
	for _, cmd := range srv.Commands() {
		switch strings.ToLower(cmd[0]) {
		case "auth":
			auth = strings.Join(cmd[1:], " ")
		case "select":
			sel = cmd[1]
		case "ping":
			ping = true
		}
	}
	s["auth"], s["select"], s["ping"] = auth, sel, fmt.Sprint(ping)
	return s, ""
}

func wantRedis(cf *confs.RedisConf) settings {
	addr := fmt.Sprintf("%s:%d", cf.Host, cf.Port)
	s := settings{"password": cf.Password, "db": fmt.Sprint(cf.Db), "pool": fmt.Sprint(cf.Pool), "min idle": fmt.Sprint(cf.MinIdle),
		"retries": "0", "dialled": "tcp " + addr, "auth": cf.Password, "select": "", "ping": "true"}
	if cf.Db > 0 {
		s["select"] = fmt.Sprint(cf.Db)
	}
	if cf.Pool == 0 {
		s["pool"] = fmt.Sprint((&redisDefaults{}).pool())
	}
	return s
}

type redisDefaults struct{}

func (*redisDefaults) pool() int {
	c := redis.NewClient(&redis.Options{IdleCheckFrequency: -1})
	defer c.Close()
	return c.Options().PoolSize
}

// ---- Elasticsearch --------------------------------------------------------------------------------------------------

type esStub struct {
	mu   sync.Mutex
	reqs []string
}

func (e *esStub) RoundTrip(r *http.Request) (*http.Response, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	auth := r.Header.Get("Authorization")
	if b, err := base64.StdEncoding.DecodeString(strings.TrimPrefix(auth, "Basic ")); err == nil && auth != "" {
		auth = "basic " + string(b)
	}
	e.reqs = append(e.reqs, r.URL.Scheme+"://"+r.URL.Host+" "+auth)
	return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(nil)), Request: r}, nil
}

func openEs(cf *confs.EsConf, cust func(mc *elasticsearch.Config)) (settings, string) {
	stub := &esStub{}
	s := settings{}
	calls := 0
	es := confs.NewEsClient(cf, func(mc *elasticsearch.Config) {
		calls++
		tr, ok := mc.Transport.(*http.Transport)
		if !ok {
			s["transport"] = fmt.Sprintf("%T", mc.Transport)
		} else {
			s["max conns"], s["max idle"] = fmt.Sprint(tr.MaxConnsPerHost), fmt.Sprint(tr.MaxIdleConnsPerHost)
			if tr.TLSClientConfig != nil && tr.TLSClientConfig.InsecureSkipVerify {
				s["insecure"] = "true"
			}
		}
		s["addresses"] = strings.Join(mc.Addresses, ",")
		s["user"], s["password"] = mc.Username, mc.Password
		if cust != nil {
			cust(mc)
		}
		mc.Transport = stub
	})
	if es == nil || calls != 1 {
		return nil, fmt.Sprintf("no client is returned, or the customizer is called %d times", calls)
	}
	interlude()
	for i := 0; i < 5; i++ { // the client goes round its addresses
		res, err := es.Ping()
		if err != nil {
			return nil, err.Error()
		}
		res.Body.Close()
	}
	seen := map[string]bool{}
	for _, r := range stub.reqs {
		seen[r] = true
	}
	var reqs []string
	for r := range seen {
		reqs = append(reqs, r)
	}
	sort.Strings(reqs)
	s["requests"] = strings.Join(reqs, ",")
	return s, ""
}

func wantEs(cf *confs.EsConf) settings {
	s := settings{"addresses": cf.Addrs, "user": cf.Username, "password": cf.Password, "max conns": fmt.Sprint(cf.MaxConnsPerHost), "max idle": fmt.Sprint(cf.MaxIdleConnsPerHost)}
	auth := ""
	if cf.Username != "" && cf.Password != "" {
		auth = "basic " + cf.Username + ":" + cf.Password
	}
	var reqs []string
	for _, a := range strings.Split(cf.Addrs, ",") {
		reqs = append(reqs, a+" "+auth)
	}
	sort.Strings(reqs)
	s["requests"] = strings.Join(reqs, ",")
	return s
}

// ---- the enumerations -----------------------------------------------------------------------------------------------

var passAlphabet = []string{"a", ":", "@", "/", "?", "#", "%", "&", "=", "+", " ", "'", "\"", "\\", "(", "%41", ",", ";", "$", "*", "é", "[", "]", "<", "{", "`", "|", "^", "~", "!", "\t"}

func strsOf(alpha []string, lo, hi int) []string {
	var out []string
	var rec func(p string, n int)
	rec = func(p string, n int) {
		if n >= lo {
			out = append(out, p)
		}
		if n == hi {
			return
		}
		for _, a := range alpha {
			rec(p+a, n+1)
		}
	}
	rec("", 0)
	return out
}

// opening runs every case of one kind of client.
type opening struct {
	name string
	run  func(setup func(cf reflect.Value), variant int) string // "" or what is wrong
	typ  reflect.Type
	// domain of each field; the first value is the base
	dom      map[string][]any
	passes   func(thorough bool) []string
	paramsOf string
	variants int
}

var openings = []opening{
	{name: "mysql", typ: reflect.TypeOf(confs.MysqlConf{}), variants: 4, paramsOf: "Params", dom: map[string][]any{
		"Host": {"h1", "10.1.2.3", "db.example.com"}, "Port": {3307, 1, 65535}, "Username": {"u1", "a b@c%", "x/y?z"}, "Password": {"p1", "", "ab:cd@ef/gh?i=j&k"},
		"Database": {"d1", "", "my-db_2", "b ad%20"}, "MaxOpenConns": {11, 0, -1, 3}, "MaxIdleConns": {7, 0, -2, 20}, "ConnMaxLifetime": {time.Minute, time.Duration(0), -time.Second, 90 * time.Millisecond},
		"ReadTimeout": {2 * time.Second, time.Duration(0), 1500 * time.Millisecond}, "WriteTimeout": {3 * time.Second, time.Duration(0), time.Hour}, "Timeout": {5 * time.Second, time.Duration(0), 250 * time.Millisecond},
		"Loc": {"", "UTC", "Local"}, "ParseTime": {false, true}, "Params": {"", "foo=1", "foo=%27x%27&bar=a%20b", "nope&x=1=2&y=%zz&ok=v"},
	}, run: func(setup func(reflect.Value), variant int) string {
		cf := &confs.MysqlConf{}
		setup(reflect.ValueOf(cf).Elem())
		want, ok := wantMysql(cf)
		if !ok {
			return ""
		}
		var cust confs.MysqlConfigCustomizer
		if variant >= 2 {
			cust = func(mc *mysql.Config) { mc.MultiStatements = true; mc.Params["zz"] = "1&2"; mc.DBName += "x" }
			want["multi"], want["param zz"], want["db"] = "true", "1&2", want["db"]+"x"
		}
		before := *cf
		got, m := openMysql(cf, variant%2 == 1, cust)
		if m == "" {
			m = compare(got, want)
		}
		if m == "" && before != *cf {
			m = "the configuration is changed"
		}
		return m
	}},
	{name: "postgresql", typ: reflect.TypeOf(confs.PostgresqlConf{}), variants: 4, paramsOf: "Params", dom: map[string][]any{
		"Host": {"h1", "10.1.2.3", "db.example.com"}, "Port": {5433, 1, 65535}, "Username": {"u1", "a b@c%", "x/y?z:w"}, "Password": {"p1", "", "ab:cd@ef/gh?i=j&k"},
		"Database": {"d1", "my-db_2", "b ad%20?x"}, "ConnectTimeout": {9, 0, 1}, "MaxOpenConns": {11, 0, -1, 3}, "MaxIdleConns": {7, 0, -2, 20},
		"ConnMaxLifetime": {time.Minute, time.Duration(0), -time.Second, 90 * time.Millisecond}, "Params": {"", "sslmode=disable", "foo=%27x%27&bar=a%20b", "nope&x=1=2&y=%zz&ok=v"},
	}, run: func(setup func(reflect.Value), variant int) string {
		cf := &confs.PostgresqlConf{}
		setup(reflect.ValueOf(cf).Elem())
		want, ok := wantPg(cf)
		if !ok {
			return ""
		}
		var cust confs.PostgresqlUrlOptionsCustomizer
		if variant >= 2 {
			cust = func(o map[string]string) { o["zz"] = "1&2 %"; o["application_name"] = "app" }
			want["opt zz"], want["opt application_name"] = "1&2 %", "app"
		}
		before := *cf
		got, m := openPg(cf, variant%2 == 1, cust)
		if m == "" {
			m = compare(got, want)
		}
		if m == "" && before != *cf {
			m = "the configuration is changed"
		}
		return m
	}},
	{name: "oracle", typ: reflect.TypeOf(confs.OracleConf{}), variants: 4, paramsOf: "Params", dom: map[string][]any{
		"Host": {"h1", "10.1.2.3", "db.example.com"}, "Port": {1522, 1, 65535}, "Username": {"u1", "a b@c%", "x/y?z"}, "Password": {"p1", "ab:cd@ef/gh?i=j&k"},
		"Service": {"svc", "", "s.example.com"}, "Sid": {"S1", "", "orcl"}, "Servers": {"", "n2:1600", "n2:1600,n3:1601"},
		"ConnectTimeout": {9, 0, 1}, "MaxOpenConns": {11, 0, -1, 3}, "MaxIdleConns": {7, 0, -2, 20},
		"ConnMaxLifetime": {time.Minute, time.Duration(0), -time.Second, 90 * time.Millisecond}, "Params": {"", "foo=1", "foo=%27x%27&bar=a%20b", "nope&x=1=2&y=%zz&ok=v"},
	}, run: func(setup func(reflect.Value), variant int) string {
		cf := &confs.OracleConf{}
		setup(reflect.ValueOf(cf).Elem())
		want, ok := wantOra(cf)
		if !ok || cf.Sid == "" && cf.Service == "" {
			return ""
		}
		for k, v := range want {
			if strings.HasPrefix(k, "param") && strings.Contains(v, ",") {
				return ""
			}
		}
		var cust confs.OracleUrlOptionsCustomizer
		if variant >= 2 {
			cust = func(o map[string]string) { o["zz"] = "1&2 %"; o["PREFETCH_ROWS"] = "5" }
			want["param zz"], want["param PREFETCH_ROWS"] = "1&2 %", "5"
		}
		before := *cf
		got, m := openOra(cf, variant%2 == 1, cust)
		if m == "" {
			m = compare(got, want)
		}
		if m == "" && before != *cf {
			m = "the configuration is changed"
		}
		return m
	}},
	{name: "redis", typ: reflect.TypeOf(confs.RedisConf{}), variants: 2, dom: map[string][]any{
		"Host": {"h1", "10.1.2.3", "redis.example.com"}, "Port": {6380, 1, 65535}, "Password": {"p1", "", "ab:cd@ef/gh?i=j&k"}, "Pool": {5, 0, 1, 13}, "MinIdle": {0, 1, 3}, "Db": {0, 1, 15},
	}, run: func(setup func(reflect.Value), variant int) string {
		cf := &confs.RedisConf{}
		setup(reflect.ValueOf(cf).Elem())
		if cf.MinIdle > cf.Pool {
			return "" // more idle connections than connections
		}
		want := wantRedis(cf)
		var cust func(o *redis.Options)
		if variant == 1 {
			cust = func(o *redis.Options) { o.MaxRetries = 4; o.PoolSize = 3 }
			want["retries"], want["pool"] = "4", "3"
			if cf.MinIdle > 3 {
				return ""
			}
		}
		before := *cf
		got, m := openRedis(cf, cust)
		if m == "" {
			m = compare(got, want)
		}
		if m == "" && before != *cf {
			m = "the configuration is changed"
		}
		return m
	}},
	{name: "elasticsearch", typ: reflect.TypeOf(confs.EsConf{}), variants: 2, dom: map[string][]any{
		"Addrs": {"http://e1:9200", "http://e1:9200,http://e2:9201", "https://x.example.com,http://e1:9200,http://e2:9201"}, "Username": {"u1", "", "é l"}, "Password": {"p1", "", "ab:cd@ef/gh?i=j&k"},
		"MaxConnsPerHost": {11, 0, 1, 3}, "MaxIdleConnsPerHost": {7, 0, 2, 20},
	}, run: func(setup func(reflect.Value), variant int) string {
		cf := &confs.EsConf{}
		setup(reflect.ValueOf(cf).Elem())
		want := wantEs(cf)
		var cust func(mc *elasticsearch.Config)
		if variant == 1 {
			cust = func(mc *elasticsearch.Config) {
				mc.Addresses = []string{"http://other:1"}
				mc.Username, mc.Password = "cu", "cp"
			}
			want["requests"] = "http://other:1 basic cu:cp"
		}
		before := *cf
		got, m := openEs(cf, cust)
		if m == "" {
			m = compare(got, want)
		}
		if m == "" && before != *cf {
			m = "the configuration is changed"
		}
		return m
	}},
}

func p29(thorough bool) []*lib.Unit {
	var us []*lib.Unit
	for i := range openings {
		o := &openings[i]
		us = append(us, lib.Shards("settings-"+o.name, 4, 4, "every triple of settings over their whole domains, the others at their base value; plain, traced, customized",
			func(c *lib.Ctx, shard, shards int) { o.settings(c, shard, shards) })...)
		us = append(us, lib.Shards("passwords-"+o.name, 3, 2, "every password of up to 3 (Redis and Elasticsearch: 2) elements from an alphabet of delimiters and escapes",
			func(c *lib.Ctx, shard, shards int) { o.passwords(c, shard, shards) })...)
		us = append(us, lib.Shards("numbers-"+o.name, 3, 2, "every numeric setting at every value from 0 to 300 (thorough: 3000) and at 2^k-1 beyond, the others at their base value; plain, traced, customized",
			func(c *lib.Ctx, shard, shards int) { o.numbers(c, shard, shards) })...)
		if o.paramsOf != "" {
			us = append(us, lib.Shards("params-"+o.name, 3, 2, "every parameter text of up to 6 (7 in thorough) elements from {a, b, =, &, %2, %20, +, '}",
				func(c *lib.Ctx, shard, shards int) { o.params(c, shard, shards) })...)
		}
	}
	return us
}

func (o *opening) base(v reflect.Value) {
	for f, d := range o.dom {
		v.FieldByName(f).Set(reflect.ValueOf(d[0]))
	}
}

func (o *opening) settings(c *lib.Ctx, shard, shards int) {
	var names []string
	for i := 0; i < o.typ.NumField(); i++ {
		n := o.typ.Field(i).Name
		if o.dom[n] == nil {
			panic("no domain for " + n)
		}
		names = append(names, n)
	}
	n := 0
	for a := range names {
		for b := a + 1; b < len(names); b++ {
			for d := b + 1; d < len(names); d++ {
				n++
				if n%shards != shard {
					continue
				}
				for _, va := range o.dom[names[a]] {
					for _, vb := range o.dom[names[b]] {
						for _, vd := range o.dom[names[d]] {
							for variant := 0; variant < o.variants; variant++ {
								c.State(names[a], names[b], names[d], va, vb, vd, variant)
								c.Trans(1)
								if !c.Case(func() string {
									return fmt.Sprintf("%s with %s=%q %s=%q %s=%q (variant %d)", o.name, names[a], fmt.Sprint(va), names[b], fmt.Sprint(vb), names[d], fmt.Sprint(vd), variant)
								}, func() string {
									return o.run(func(v reflect.Value) {
										o.base(v)
										v.FieldByName(names[a]).Set(reflect.ValueOf(va))
										v.FieldByName(names[b]).Set(reflect.ValueOf(vb))
										v.FieldByName(names[d]).Set(reflect.ValueOf(vd))
									}, variant)
								}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}
}

func (o *opening) passwords(c *lib.Ctx, shard, shards int) {
	depth := 2
	if o.name != "redis" && (c.Thorough || o.name != "elasticsearch") {
		depth = 3
	}
	for i, p := range strsOf(passAlphabet, 1, depth) {
		if i%shards != shard {
			continue
		}
		if o.name == "oracle" && p == "" {
			continue
		}
		c.State(p)
		for variant := 0; variant < o.variants; variant++ {
			if variant > 1 {
				break
			}
			c.Trans(1)
			if !c.Case(func() string { return fmt.Sprintf("%s with password %q (variant %d)", o.name, p, variant) }, func() string {
				return o.run(func(v reflect.Value) {
					o.base(v)
					v.FieldByName("Password").SetString(p)
				}, variant)
			}) {
				return
			}
		}
	}
}

// numbers sets one numeric setting to every value of a range, and to the edges of larger ones.
func (o *opening) numbers(c *lib.Ctx, shard, shards int) {
	n := 0
	for i := 0; i < o.typ.NumField(); i++ {
		f := o.typ.Field(i)
		var unit []int64
		switch f.Type {
		case reflect.TypeOf(0):
			unit = []int64{1}
		case reflect.TypeOf(time.Duration(0)):
			unit = []int64{int64(time.Millisecond), int64(time.Second), int64(time.Hour)}
		default:
			continue
		}
		hi := int64(300)
		if c.Thorough {
			hi = 3000
		}
		if f.Name == "MinIdle" { // idle connections are opened at once
			hi = 5
		}
		for _, u := range unit {
			for k := int64(0); k <= hi+16; k++ {
				x := k * u
				if k > hi {
					if f.Name == "MinIdle" || f.Name == "Pool" && o.name == "redis" && k > hi+8 {
						break
					}
					x = 1<<(k-hi+8) - 1
					if f.Name == "Port" && x > 65535 {
						break
					}
					x *= u
					if u > 1 && x > int64(1000*time.Hour) {
						break
					}
				}
				n++
				if n%shards != shard || f.Name == "Port" && x == 0 {
					continue
				}
				for variant := 0; variant < o.variants; variant++ {
					c.State(f.Name, x, variant)
					c.Trans(1)
					if !c.Case(func() string { return fmt.Sprintf("%s with %s=%d (variant %d)", o.name, f.Name, x, variant) }, func() string {
						return o.run(func(v reflect.Value) {
							o.base(v)
							v.FieldByName(f.Name).SetInt(x)
						}, variant)
					}) {
						return
					}
				}
			}
		}
	}
}

func (o *opening) params(c *lib.Ctx, shard, shards int) {
	depth := 6
	if c.Thorough {
		depth = 7
	}
	for i, p := range strsOf([]string{"a", "b", "=", "&", "%2", "%20", "+", "'"}, 1, depth) {
		if i%shards != shard {
			continue
		}
		if _, ok := wantParams(p); !ok {
			continue
		}
		c.State(p)
		c.Trans(1)
		if !c.Case(func() string { return fmt.Sprintf("%s with parameters %q", o.name, p) }, func() string {
			return o.run(func(v reflect.Value) {
				o.base(v)
				v.FieldByName(o.paramsOf).SetString(p)
			}, i/shards%2)
		}) {
			return
		}
	}
}
