//go:build go1.22

package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/SkyAPM/go2sky"
	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/zverif/lib"
	"github.com/go-sql-driver/mysql"
	agentv3 "skywalking.apache.org/repo/goapi/collect/language/agent/v3"
)

func init() {
	lib.Register("P42", p42, "the drivers' connections are replaced by ones to a database in memory", "spans are observed where they leave go2sky: at the reporter")
}

// ---- a database in memory that notes what it is asked and fails when told --------------------------------------------

type memDb struct {
	log    []string
	step   int
	failAt int // which step fails, -1 none
}

func (m *memDb) do(what string) error {
	m.step++
	m.log = append(m.log, what)
	if m.step-1 == m.failAt {
		return fmt.Errorf("%s at %s", errMark, what)
	}
	return nil
}

type memConn struct{ m *memDb }

func vals(args []driver.NamedValue) (out []any) {
	for _, a := range args {
		out = append(out, a.Value)
	}
	return
}

func (c memConn) Prepare(q string) (driver.Stmt, error) {
	return c.PrepareContext(context.Background(), q)
}
func (c memConn) PrepareContext(_ context.Context, q string) (driver.Stmt, error) {
	if err := c.m.do("prepare " + q); err != nil {
		return nil, err
	}
	return memStmt{c.m, q}, nil
}
func (c memConn) Close() error { return nil }
func (c memConn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}
func (c memConn) BeginTx(_ context.Context, o driver.TxOptions) (driver.Tx, error) {
	if err := c.m.do(fmt.Sprint("begin ", o.ReadOnly)); err != nil {
		return nil, err
	}
	return memTx{c.m}, nil
}
func (c memConn) Ping(context.Context) error { return c.m.do("ping") }
func (c memConn) ExecContext(_ context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	if err := c.m.do(fmt.Sprint("exec ", q, vals(args))); err != nil {
		return nil, err
	}
	return driver.RowsAffected(len(args) + 1), nil
}
func (c memConn) QueryContext(_ context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	if err := c.m.do(fmt.Sprint("query ", q, vals(args))); err != nil {
		return nil, err
	}
	return &memRows{n: 2, q: q}, nil
}

type memStmt struct {
	m *memDb
	q string
}

func (s memStmt) Close() error  { return nil }
func (s memStmt) NumInput() int { return -1 }
func (s memStmt) Exec(args []driver.Value) (driver.Result, error) {
	if err := s.m.do(fmt.Sprint("exec prepared ", s.q, args)); err != nil {
		return nil, err
	}
	return driver.RowsAffected(len(args) + 1), nil
}
func (s memStmt) Query(args []driver.Value) (driver.Rows, error) {
	if err := s.m.do(fmt.Sprint("query prepared ", s.q, args)); err != nil {
		return nil, err
	}
	return &memRows{n: 2, q: s.q}, nil
}

type memTx struct{ m *memDb }

func (t memTx) Commit() error   { return t.m.do("commit") }
func (t memTx) Rollback() error { return t.m.do("rollback") }

type memRows struct {
	n int
	q string
}

func (r *memRows) Columns() []string { return []string{"no", "q"} }
func (r *memRows) Close() error      { return nil }
func (r *memRows) Next(dest []driver.Value) error {
	if r.n == 0 {
		return io.EOF
	}
	dest[0], dest[1] = int64(r.n), r.q
	r.n--
	return nil
}

// ---- what an application does with it --------------------------------------------------------------------------------

type sqlOp struct {
	name  string
	stmts []string // statements that reach the database when nothing fails, in order
	run   func(ctx context.Context, db *sql.DB) string
}

func rowsText(rows *sql.Rows, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	defer rows.Close()
	out := ""
	for rows.Next() {
		var n int
		var q string
		if err := rows.Scan(&n, &q); err != nil {
			return "scan error " + err.Error()
		}
		out += fmt.Sprint(n, q, ";")
	}
	return out + fmt.Sprint(rows.Err())
}

func resText(r sql.Result, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	n, err := r.RowsAffected()
	return fmt.Sprint(n, err)
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	return "error " + err.Error()
}

var sqlOps = []sqlOp{
	{"Exec", []string{"insert"}, func(ctx context.Context, db *sql.DB) string { return resText(db.ExecContext(ctx, "insert ?", 7)) }},
	{"Query", []string{"select"}, func(ctx context.Context, db *sql.DB) string { return rowsText(db.QueryContext(ctx, "select ?", "x")) }},
	{"QueryRow", []string{"select one"}, func(ctx context.Context, db *sql.DB) string {
		var n int
		var q string
		err := db.QueryRowContext(ctx, "select one").Scan(&n, &q)
		return fmt.Sprint(n, q, err)
	}},
	{"Ping", nil, func(ctx context.Context, db *sql.DB) string { return errText(db.PingContext(ctx)) }},
	{"Prepare and run twice", []string{"prepared", "prepared"}, func(ctx context.Context, db *sql.DB) string {
		st, err := db.PrepareContext(ctx, "prepared")
		if err != nil {
			return errText(err)
		}
		defer st.Close()
		return resText(st.ExecContext(ctx, 1)) + rowsText(st.QueryContext(ctx, 2))
	}},
	{"transaction", []string{"update", "select in tx"}, func(ctx context.Context, db *sql.DB) string {
		tx, err := db.BeginTx(ctx, nil)
		if err != nil {
			return errText(err)
		}
		s := resText(tx.ExecContext(ctx, "update")) + rowsText(tx.QueryContext(ctx, "select in tx"))
		return s + errText(tx.Commit())
	}},
	{"transaction rolled back", []string{"delete"}, func(ctx context.Context, db *sql.DB) string {
		tx, err := db.BeginTx(ctx, &sql.TxOptions{ReadOnly: true})
		if err != nil {
			return errText(err)
		}
		s := resText(tx.ExecContext(ctx, "delete"))
		return s + errText(tx.Rollback())
	}},
	{"Exec on one connection", []string{"on conn"}, func(ctx context.Context, db *sql.DB) string {
		cn, err := db.Conn(ctx)
		if err != nil {
			return errText(err)
		}
		defer cn.Close()
		return resText(cn.ExecContext(ctx, "on conn")) + errText(cn.PingContext(ctx))
	}},
	{"Exec of a cancelled request", nil, func(ctx context.Context, db *sql.DB) string {
		ctx, cancel := context.WithCancel(ctx)
		cancel()
		return resText(db.ExecContext(ctx, "too late"))
	}},
}

type sqlKind struct {
	name   string
	plain  func() *sql.DB
	traced func(t *go2sky.Tracer) *sql.DB
}

var sqlKinds = []sqlKind{
	{"mysql", func() *sql.DB {
		return confs.NewMySqlDb(&confs.MysqlConf{Host: "10.0.0.1", Port: 3306, Username: "u", Password: "p"}, nil)
	}, func(t *go2sky.Tracer) *sql.DB {
		return confs.NewMySqlDbWithTracer(&confs.MysqlConf{Host: "10.0.0.1", Port: 3306, Username: "u", Password: "p"}, t, nil)
	}},
	{"postgresql", func() *sql.DB {
		return confs.NewPostgresqlDb(&confs.PostgresqlConf{Host: "10.0.0.1", Port: 5432, Username: "u", Password: "p", Database: "d"}, nil)
	}, func(t *go2sky.Tracer) *sql.DB {
		return confs.NewPostgresqlDbWithTracer(&confs.PostgresqlConf{Host: "10.0.0.1", Port: 5432, Username: "u", Password: "p", Database: "d"}, t, nil)
	}},
	{"oracle", func() *sql.DB {
		return confs.NewOracleDb(&confs.OracleConf{Host: "10.0.0.1", Port: 1521, Username: "u", Password: "p", Sid: "s"}, nil)
	}, func(t *go2sky.Tracer) *sql.DB {
		return confs.NewOracleDbWithTracer(&confs.OracleConf{Host: "10.0.0.1", Port: 1521, Username: "u", Password: "p", Sid: "s"}, t, nil)
	}},
}

// memory is where new connections lead when it is set.
var memory *memDb

type sqlCase struct {
	kind   sqlKind
	ops    []int
	failAt int
	caller int // 0 none, 1 a local span, 2 an entry span
	tracer int // 0 reports, 1 has no reporter, 2 samples nothing
}

func (s sqlCase) String() string {
	var names []string
	for _, o := range s.ops {
		names = append(names, sqlOps[o].name)
	}
	return fmt.Sprintf("%s: %s; step %d fails, caller's span %d, tracer %d", s.kind.name, strings.Join(names, ", "), s.failAt, s.caller, s.tracer)
}

// on runs the operations; gives what the application sees after each and what the database was asked.
func (s sqlCase) on(ctx context.Context, open func() *sql.DB) (seen []string, m *memDb) {
	m = &memDb{failAt: -1}
	memory = m
	defer func() { memory = nil }()
	opened = nil
	db := open()
	defer db.Close()
	m.failAt, m.step, m.log = s.failAt, 0, nil
	for _, o := range s.ops {
		seen = append(seen, sqlOps[o].run(ctx, db))
	}
	return seen, m
}

// run compares with the plain database; with tally it also counts the statements that have a span and those that have none.
func (s sqlCase) run(tally *[2]int) string {
	want, wm := s.on(context.Background(), s.kind.plain)
	rec := &collector{}
	tr := rec.tracer(s.tracer)
	before := len(rec.spansNow())
	ctx := context.Background()
	var caller go2sky.Span
	var err error
	switch s.caller {
	case 1:
		caller, ctx, err = tr.CreateLocalSpan(ctx, go2sky.WithOperationName("caller"))
	case 2:
		caller, ctx, err = tr.CreateEntrySpan(ctx, "caller", func(string) (string, error) { return "", nil })
	}
	if err != nil {
		panic(err)
	}
	got, gm := s.on(ctx, func() *sql.DB { return s.kind.traced(tr) })
	for i := range want {
		if m := diff(fmt.Sprintf("with the tracer the result of operation %d", i+1), got[i], want[i]); m != "" {
			return m
		}
	}
	if m := diff("with the tracer what the database is asked", strings.Join(gm.log, " | "), strings.Join(wm.log, " | ")); m != "" {
		return m
	}
	callerID := ""
	if caller != nil {
		if rs, ok := caller.(go2sky.ReportedSpan); ok {
			callerID = spanID(rs)
			if rs.IsError() {
				return "the caller's span is marked as an error"
			}
		}
		caller.End()
	}
	if s.tracer != 0 {
		if n := len(rec.spansNow()); n > before {
			return "spans are reported although nothing is sampled"
		}
		return ""
	}
	all, bad := rec.wait(0)
	if bad != "" {
		return bad
	}
	if tally == nil {
		return ""
	}
	missing := ""
	for _, line := range gm.log {
		verb, stmt, _ := strings.Cut(line, " ")
		if verb != "exec" && verb != "query" {
			continue
		}
		stmt = strings.TrimPrefix(strings.SplitN(stmt, "[", 2)[0], "prepared ")
		if stmt == "" {
			stmt = "prepared"
		}
		found := false
		for _, x := range all {
			if v, _ := tag(x, go2sky.TagDBStatement); x.SpanType() == agentv3.SpanType_Exit && strings.Contains(v, stmt) {
				if !found {
					tally[0]++
				}
				found = true
				if p := fmt.Sprint(x.Context().SegmentID, "/", x.Context().ParentSpanID); callerID != "" && p != callerID {
					return fmt.Sprintf("the span of %q is a child of %s, the caller's is %s", stmt, p, callerID)
				}
			}
		}
		if found {
			continue
		}
		tally[1]++
		missing = fmt.Sprintf("the statement %q reaches the database and no exit span tells of it", stmt)
	}
	return missing
}

func p42(thorough bool) []*lib.Unit {
	var us []*lib.Unit
	us = append(us, &lib.Unit{Name: "opened", Weight: 1, Note: "every pair of settings of each kind of database over their whole domains, with and without a customizer: the driver is given the same settings with a tracer as without", Seq: sqlOpened})
	for _, k := range sqlKinds {
		k := k
		us = append(us, lib.Shards("same-"+k.name, 3, 3, "every sequence of 1 and 2 (thorough 3) operations (statements, rows, prepared statements, transactions, pings, single connections, cancelled requests) × position of a failure × caller's span × tracer: the database opened with a tracer against the plain one",
			func(c *lib.Ctx, shard, shards int) { sqlCases(c, k, shard, shards) })...)
		us = append(us, &lib.Unit{Name: "spans-" + k.name, Weight: 1, Note: "the same sequences: every statement that reaches the database is told by an exit span of the tracer, a child of the caller's span",
			Seq: func(c *lib.Ctx) { sqlSpans(c, k) }})
	}
	return us
}

func sqlOpened(c *lib.Ctx) {
	open := map[string]func(cf any, traced, custom bool) (settings, string){
		"mysql": func(cf any, traced, custom bool) (settings, string) {
			var cust confs.MysqlConfigCustomizer
			if custom {
				cust = func(mc *mysql.Config) { mc.MultiStatements, mc.InterpolateParams = true, true; mc.Params["zz"] = "1" }
			}
			return openMysql(cf.(*confs.MysqlConf), traced, cust)
		},
		"postgresql": func(cf any, traced, custom bool) (settings, string) {
			var cust confs.PostgresqlUrlOptionsCustomizer
			if custom {
				cust = func(o map[string]string) { o["zz"] = "1"; o["binary_parameters"] = "yes" }
			}
			return openPg(cf.(*confs.PostgresqlConf), traced, cust)
		},
		"oracle": func(cf any, traced, custom bool) (settings, string) {
			if cf := cf.(*confs.OracleConf); cf.Sid == "" && cf.Service == "" {
				return nil, ""
			}
			var cust confs.OracleUrlOptionsCustomizer
			if custom {
				cust = func(o map[string]string) { o["zz"] = "1"; o["PREFETCH_ROWS"] = "5" }
			}
			return openOra(cf.(*confs.OracleConf), traced, cust)
		},
	}
	for i := range openings {
		o := &openings[i]
		f := open[o.name]
		if f == nil {
			continue
		}
		var names []string
		for j := 0; j < o.typ.NumField(); j++ {
			names = append(names, o.typ.Field(j).Name)
		}
		for a := range names {
			for b := a + 1; b < len(names); b++ {
				for _, va := range o.dom[names[a]] {
					for _, vb := range o.dom[names[b]] {
						for _, custom := range []bool{false, true} {
							c.Trans(2)
							if !c.Case(func() string {
								return fmt.Sprintf("%s with %s=%v, %s=%v, customizer %v", o.name, names[a], va, names[b], vb, custom)
							}, func() string {
								mk := func() any {
									v := reflect.New(o.typ)
									o.base(v.Elem())
									v.Elem().FieldByName(names[a]).Set(reflect.ValueOf(va))
									v.Elem().FieldByName(names[b]).Set(reflect.ValueOf(vb))
									return v.Interface()
								}
								want, m1 := f(mk(), false, custom)
								got, m2 := f(mk(), true, custom)
								if m := diff("with the tracer opening", m2, m1); m != "" {
									return m
								}
								delete(want, "driver")
								delete(got, "driver")
								c.State(got.String())
								if m := compare(got, want); m != "" {
									return "with the tracer " + m
								}
								return ""
							}) {
								return
							}
						}
					}
				}
			}
		}
	}
}

func sqlCases(c *lib.Ctx, k sqlKind, shard, shards int) {
	eachSQL(c, k, func(n int, s sqlCase) bool {
		if n%shards != shard {
			return true
		}
		c.State(s.ops, s.failAt, s.caller, s.tracer)
		c.Trans(len(s.ops))
		return c.Case(s.String, func() string { return s.run(nil) })
	})
}

// sqlSpans judges all sequences together, to tell a database that is not traced at all from one that is traced badly.
func sqlSpans(c *lib.Ctx, k sqlKind) {
	c.Case(func() string { return k.name + ": all sequences" }, func() string {
		var tally [2]int
		first := ""
		eachSQL(c, k, func(n int, s sqlCase) bool {
			if s.tracer != 0 {
				return true
			}
			c.Alive()
			c.Trans(len(s.ops))
			c.State(s.ops, s.failAt, s.caller)
			if m := s.run(&tally); m != "" && first == "" {
				first = s.String() + ": " + m
			}
			return true
		})
		if tally[0] == 0 {
			return "none of the statements that reach the database is reported to the tracer"
		}
		return first
	})
}

func eachSQL(c *lib.Ctx, k sqlKind, f func(n int, s sqlCase) bool) {
	depth := 2
	if c.Thorough {
		depth = 3
	}
	n := 0
	for d := 1; d <= depth; d++ {
		seq := make([]int, d)
		for {
			for failAt := -1; failAt < 3*d+2; failAt++ {
				for caller := 0; caller < 3; caller++ {
					for tracer := 0; tracer < 3; tracer++ {
						n++
						if !f(n, sqlCase{k, append([]int(nil), seq...), failAt, caller, tracer}) {
							return
						}
					}
				}
			}
			i := 0
			for i < d {
				if seq[i]++; seq[i] < len(sqlOps) {
					break
				}
				seq[i] = 0
				i++
			}
			if i == d {
				break
			}
		}
	}
}
