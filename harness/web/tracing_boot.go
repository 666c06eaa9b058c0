//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/SkyAPM/go2sky"
	"github.com/chanjarster/gears/skywalking"
	"github.com/chanjarster/gears/zverif/lib"
	"google.golang.org/grpc"
	configuration "skywalking.apache.org/repo/goapi/collect/agent/configuration/v3"
	commonv3 "skywalking.apache.org/repo/goapi/collect/common/v3"
	agentv3 "skywalking.apache.org/repo/goapi/collect/language/agent/v3"
	managementv3 "skywalking.apache.org/repo/goapi/collect/management/v3"
)

func init() {
	lib.Register("P36", p36, "the SkyWalking backend is a gRPC server of the harness on the loopback interface", "no SW_AGENT_* environment variables")
}

// ---- the backend -----------------------------------------------------------------------------------------------------

type backend struct {
	agentv3.UnimplementedTraceSegmentReportServiceServer
	managementv3.UnimplementedManagementServiceServer
	configuration.UnimplementedConfigurationDiscoveryServiceServer
	mu    sync.Mutex
	segs  []*agentv3.SegmentObject
	insts map[string]bool
	eof   chan struct{}
	props chan struct{}
	srv   *grpc.Server
	addr  string
}

func newBackend() *backend {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	b := &backend{insts: map[string]bool{}, eof: make(chan struct{}, 100), props: make(chan struct{}, 100), srv: grpc.NewServer(), addr: l.Addr().String()}
	agentv3.RegisterTraceSegmentReportServiceServer(b.srv, b)
	managementv3.RegisterManagementServiceServer(b.srv, b)
	configuration.RegisterConfigurationDiscoveryServiceServer(b.srv, b)
	go b.srv.Serve(l)
	return b
}

func (b *backend) Collect(s agentv3.TraceSegmentReportService_CollectServer) error {
	for {
		o, err := s.Recv()
		if err != nil {
			if err == io.EOF {
				s.SendAndClose(&commonv3.Commands{})
				b.eof <- struct{}{}
				return nil
			}
			return err
		}
		b.mu.Lock()
		b.segs = append(b.segs, o)
		b.mu.Unlock()
	}
}
func (b *backend) inst(s, i string) {
	b.mu.Lock()
	b.insts[s+" / "+i] = true
	b.mu.Unlock()
}
func (b *backend) ReportInstanceProperties(_ context.Context, p *managementv3.InstanceProperties) (*commonv3.Commands, error) {
	b.inst(p.Service, p.ServiceInstance)
	b.props <- struct{}{}
	return &commonv3.Commands{}, nil
}
func (b *backend) KeepAlive(_ context.Context, p *managementv3.InstancePingPkg) (*commonv3.Commands, error) {
	b.inst(p.Service, p.ServiceInstance)
	return &commonv3.Commands{}, nil
}
func (b *backend) FetchConfigurations(context.Context, *configuration.ConfigurationSyncRequest) (*commonv3.Commands, error) {
	return &commonv3.Commands{}, nil
}

// ---- what a traced application does -----------------------------------------------------------------------------------

var traceSteps = []string{"entry", "entry failed", "entry with local", "entry with exit", "exit", "continued", "entry with a cut span"}

// traceStep performs a step and returns what the application sees of it and the spans it makes: one segment each.
func traceStep(t *go2sky.Tracer, kind, no int) (sees string, want []string) {
	op := func(s string) string { return fmt.Sprintf("/%s/%d", s, no) }
	check := func(err error) {
		if err != nil {
			sees += "error " + err.Error() + ";"
		}
	}
	header := ""
	none := func(string) (string, error) { return "", nil }
	inject := func(k, v string) error {
		sees += fmt.Sprintf("header %s %v;", k, v != "")
		if strings.EqualFold(k, "sw8") {
			header = v
		}
		return nil
	}
	switch traceSteps[kind] {
	case "entry":
		s, _, err := t.CreateEntrySpan(context.Background(), op("in"), none)
		check(err)
		s.End()
		want = []string{op("in")}
	case "entry failed":
		s, _, err := t.CreateEntrySpan(context.Background(), op("in"), none)
		check(err)
		s.Error(time.Now(), "broken")
		s.End()
		want = []string{op("in") + " failed"}
	case "entry with local":
		s, ctx, err := t.CreateEntrySpan(context.Background(), op("in"), none)
		check(err)
		l, _, err := t.CreateLocalSpan(ctx, go2sky.WithOperationName(op("local")))
		check(err)
		l.End()
		s.End()
		want = []string{op("in"), op("local")}
	case "entry with exit":
		s, ctx, err := t.CreateEntrySpan(context.Background(), op("in"), none)
		check(err)
		e, err := t.CreateExitSpan(ctx, op("out"), "peer:1", inject)
		check(err)
		e.Error(time.Now())
		e.End()
		s.End()
		want = []string{op("in"), op("out") + " failed peer peer:1"}
	case "exit":
		e, err := t.CreateExitSpan(context.Background(), op("out"), "peer:2", inject)
		check(err)
		e.End()
		want = []string{op("out") + " peer peer:2"}
	case "continued":
		e, err := t.CreateExitSpan(context.Background(), op("out"), "peer:3", inject)
		check(err)
		e.End()
		s, _, err := t.CreateEntrySpan(context.Background(), op("in"), func(k string) (string, error) {
			if strings.EqualFold(k, "sw8") {
				return header, nil
			}
			return "", nil
		})
		check(err)
		s.End()
		want = []string{op("out") + " peer peer:3", op("in") + " continued"}
	case "entry with a cut span":
		_, _, err := t.CreateEntrySpan(context.Background(), "", none)
		sees += fmt.Sprintf("refused %v;", err != nil)
		s, _, err := t.CreateEntrySpan(context.Background(), op("in"), func(string) (string, error) { return "", errors.New("no header") })
		sees += fmt.Sprintf("extract %v %v;", s == nil, err != nil)
		x, _, err := t.CreateLocalSpan(context.Background(), go2sky.WithOperationName(op("local")))
		check(err)
		x.End()
		want = []string{op("local")}
	}
	return
}

func spanDesc(op string, failed bool, peer string, refs int) string {
	if failed {
		op += " failed"
	}
	if peer != "" {
		op += " peer " + peer
	}
	if refs > 0 {
		op += " continued"
	}
	return op
}

type bootRecord struct {
	mu     sync.Mutex
	boots  [][2]string
	spans  []string
	closed int
	got    chan struct{}
}

func (r *bootRecord) Boot(s, i string, _ []go2sky.AgentConfigChangeWatcher) {
	r.mu.Lock()
	r.boots = append(r.boots, [2]string{s, i})
	r.mu.Unlock()
}
func (r *bootRecord) Close() { r.closed++ }
func (r *bootRecord) Send(spans []go2sky.ReportedSpan) {
	r.mu.Lock()
	for _, s := range spans {
		r.spans = append(r.spans, spanDesc(s.OperationName(), s.IsError(), s.Peer(), len(s.Refs())))
	}
	r.mu.Unlock()
	for range spans {
		r.got <- struct{}{}
	}
}

func sameList(got, want []string) string {
	g, w := append([]string{}, got...), append([]string{}, want...)
	sort.Strings(g)
	sort.Strings(w)
	if strings.Join(g, "\n") != strings.Join(w, "\n") {
		return fmt.Sprintf("the spans are %q, want %q", g, w)
	}
	return ""
}

func badService(service, instance string, c *skywalking.Conf) string {
	if service != c.ServiceNamespace+"::"+c.ServiceName {
		return fmt.Sprintf("reported service %q, configured are namespace %q and service %q", service, c.ServiceNamespace, c.ServiceName)
	}
	if c.ServiceInstance != "" && instance != c.ServiceInstance || instance == "" {
		return fmt.Sprintf("reported instance %q, configured is %q", instance, c.ServiceInstance)
	}
	return ""
}

// try runs f, which must come back soon.
func inTime(what string, f func()) string {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
		return ""
	case <-time.After(60 * time.Second):
		return what + " blocks"
	}
}

func grpcClients() int {
	buf := make([]byte, 1<<20)
	return strings.Count(string(buf[:runtime.Stack(buf, true)]), "google.golang.org/grpc.")
}

func p36(th bool) []*lib.Unit {
	names := []string{"", "a", "svc", "a::b", "::", " x ", "Svc.中/1", strings.Repeat("n", 300)}
	confsOf := func(f func(c *skywalking.Conf) bool) {
		for _, ns := range names {
			for _, sv := range names {
				for _, in := range names {
					if !f(&skywalking.Conf{ServiceNamespace: ns, ServiceName: sv, ServiceInstance: in}) {
						return
					}
				}
			}
		}
	}
	var us []*lib.Unit
	us = append(us, &lib.Unit{Name: "names", Weight: 2, Note: "all combinations of eight namespaces, services and instances: what the reporter is told", Seq: func(c *lib.Ctx) {
		confsOf(func(cf *skywalking.Conf) bool {
			return c.Case(func() string { return cf.String() }, func() string {
				r := &bootRecord{got: make(chan struct{}, 100)}
				before := *cf
				t, err := skywalking.NewTracer(cf, r)
				if err != nil || t == nil {
					return fmt.Sprintf("NewTracer = %v, %v", t, err)
				}
				if *cf != before {
					return "NewTracer changes the configuration"
				}
				if len(r.boots) != 1 {
					return fmt.Sprintf("the reporter is started %d times", len(r.boots))
				}
				if m := badService(r.boots[0][0], r.boots[0][1], cf); m != "" {
					return m
				}
				c.Trans(1)
				c.State(cf.String())
				_, want := traceStep(t, 0, 1)
				select {
				case <-r.got:
				case <-time.After(15 * time.Second):
					return "the span does not reach the reporter"
				}
				return sameList(r.spans, want)
			})
		})
	}})
	depth := 3
	if th {
		depth = 4
	}
	desc := func(seq []int) string {
		var s []string
		for _, k := range seq {
			s = append(s, traceSteps[k])
		}
		return strings.Join(s, ", ")
	}
	// without a server: the same for the application as with one, but nothing is sent
	us = append(us, &lib.Unit{Name: "no-server", Weight: 2, Note: "no configuration or no address: every sequence of traced operations behaves as with a reporter, and no connection is made", Seq: func(c *lib.Ctx) {
		for _, cf := range []*skywalking.Conf{nil, {}, {ServiceName: "s", ServiceInstance: "i", ServiceNamespace: "n"}} {
			c.Sequences(len(traceSteps), depth, 0, 1, func(seq []int) string { return fmt.Sprintf("%v: %s", cf, desc(seq)) }, func(seq []int) string {
				rep, err := skywalking.NewGrpcOrNoopReporter(cf)
				if err != nil || rep == nil {
					return fmt.Sprintf("NewGrpcOrNoopReporter = %v, %v", rep, err)
				}
				use := cf
				if use == nil {
					use = &skywalking.Conf{}
				}
				t, err := skywalking.NewTracer(use, rep)
				if err != nil {
					return err.Error()
				}
				rr := &bootRecord{got: make(chan struct{}, 100)}
				t2, err := skywalking.NewTracer(use, rr)
				if err != nil {
					return err.Error()
				}
				for i, k := range seq {
					a, _ := traceStep(t, k, i)
					b, _ := traceStep(t2, k, i)
					if a != b {
						return fmt.Sprintf("step %d: the application sees %q, with a reporter %q", i+1, a, b)
					}
					c.Trans(1)
				}
				rep.Close()
				if n := grpcClients(); n > 0 {
					return "a gRPC client is at work although no address is configured"
				}
				return ""
			})
		}
	}})
	// with a server
	us = append(us, lib.Shards("server", 6, 4, "every sequence of traced operations against a server: every span arrives there exactly once, under the configured names", func(c *lib.Ctx, i, k int) {
		cfs := []skywalking.Conf{{ServiceName: "s", ServiceInstance: "i", ServiceNamespace: "n"}, {ServiceName: "other", ServiceNamespace: ""}}
		for _, cf := range cfs {
			cf := cf
			for d := 1; d <= depth-1; d++ {
				c.Sequences(len(traceSteps), d, i, k, func(seq []int) string { return fmt.Sprintf("%v: %s", cf.String(), desc(seq)) }, func(seq []int) string {
					b, decoy := newBackend(), newBackend()
					defer b.srv.Stop()
					defer decoy.srv.Stop()
					cf.ServerAddr = b.addr
					rep, err := skywalking.NewGrpcOrNoopReporter(&cf)
					if err != nil || rep == nil {
						return fmt.Sprintf("NewGrpcOrNoopReporter = %v, %v", rep, err)
					}
					t, err := skywalking.NewTracer(&cf, rep)
					if err != nil {
						return err.Error()
					}
					rr := &bootRecord{got: make(chan struct{}, 100)}
					t2, err := skywalking.NewTracer(&cf, rr)
					if err != nil {
						return err.Error()
					}
					var want []string
					for i, k := range seq {
						a, w := traceStep(t, k, i)
						b, _ := traceStep(t2, k, i)
						if a != b {
							return fmt.Sprintf("step %d: the application sees %q, with another reporter %q", i+1, a, b)
						}
						want = append(want, w...)
						c.Trans(1)
					}
					// spans are handed over asynchronously: wait until they have arrived, then look for more
					arrived := func() (l []string, m string) {
						b.mu.Lock()
						defer b.mu.Unlock()
						for _, s := range b.segs {
							if m := badService(s.Service, s.ServiceInstance, &cf); m != "" {
								return nil, m
							}
							for _, sp := range s.Spans {
								l = append(l, spanDesc(sp.OperationName, sp.IsError, sp.Peer, len(crossProcess(sp.Refs))))
							}
						}
						return
					}
					var got []string
					for at := time.Now(); ; time.Sleep(time.Millisecond) {
						var m string
						if got, m = arrived(); m != "" {
							return m
						}
						if len(got) >= len(want) || time.Since(at) > 15*time.Second {
							break
						}
					}
					select {
					case <-b.props:
					case <-time.After(15 * time.Second):
						return "the instance is not made known to the server"
					}
					rep.Close()
					select {
					case <-b.eof:
					case <-time.After(15 * time.Second):
						return "the reporter does not end its stream when it is closed"
					}
					got, m := arrived()
					if m == "" {
						m = sameList(got, want)
					}
					if m != "" {
						return m
					}
					for s := range b.insts {
						p := strings.SplitN(s, " / ", 2)
						if m := badService(p[0], p[1], &cf); m != "" {
							return "instance: " + m
						}
					}
					if len(decoy.segs)+len(decoy.insts) > 0 {
						return "another server was contacted"
					}
					return ""
				})
			}
		}
	})...)
	us = append(us, &lib.Unit{Name: "unreachable", Weight: 2, Note: "addresses nobody listens on or that cannot be used: either an error and no reporter, or every traced operation works as always", Seq: func(c *lib.Ctx) {
		for _, addr := range []string{"127.0.0.1:1", "localhost:1", "127.0.0.1", "no.such.host.invalid:11800", "dns:///foo:", "unix:///no/such/socket", ":0", "a b", "::::"} {
			for k := range traceSteps {
				if !c.Case(func() string { return addr + ": " + traceSteps[k] }, func() string {
					cf := &skywalking.Conf{ServerAddr: addr, ServiceName: "s"}
					var rep go2sky.Reporter
					var err error
					if m := inTime("NewGrpcOrNoopReporter", func() { rep, err = skywalking.NewGrpcOrNoopReporter(cf) }); m != "" {
						return m
					}
					if (rep == nil) != (err != nil) {
						return fmt.Sprintf("NewGrpcOrNoopReporter = %v, %v", rep, err)
					}
					if err != nil {
						c.Outcome("refused " + addr)
						return ""
					}
					c.Trans(1)
					return inTime("a traced operation", func() {
						t, err := skywalking.NewTracer(cf, rep)
						if err != nil {
							panic(err)
						}
						for n := 0; n < 3; n++ {
							traceStep(t, k, n)
						}
					})
				}) {
					return
				}
			}
		}
	}})
	return us
}

func crossProcess(refs []*agentv3.SegmentReference) (out []*agentv3.SegmentReference) {
	for _, r := range refs {
		if r.RefType == agentv3.RefType_CrossProcess {
			out = append(out, r)
		}
	}
	return
}
