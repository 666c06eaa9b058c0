//go:build go1.22

package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/zverif/lib"
	"github.com/valyala/fasthttp"
)

func init() {
	lib.Register("P31", p31, "the system roots are those of SSL_CERT_FILE, as crypto/x509 documents", "handshakes run over the loopback network")
	programs["fasthttp"] = func(arg string) {
		var cf confs.FastHttpClientConf
		if err := json.Unmarshal([]byte(arg), &cf); err != nil {
			panic(err)
		}
		confs.NewFastHttpClient(&cf, nil)
		fmt.Print("BUILT")
	}
}

type authority struct {
	cert *x509.Certificate
	der  []byte
	key  *ecdsa.PrivateKey
}

var serial = int64(1)

func issue(name string, ca *authority, mod func(t *x509.Certificate)) *authority {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	serial++
	t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}, BasicConstraintsValid: true}
	if mod != nil {
		mod(t)
	}
	parent, pkey := t, key
	if ca != nil {
		parent, pkey = ca.cert, ca.key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, parent, &key.PublicKey, pkey)
	if err != nil {
		panic(err)
	}
	cert, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return &authority{cert, der, key}
}

func (a *authority) pem() []byte {
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: a.der})
}
func (a *authority) keyPem() []byte {
	b, err := x509.MarshalECPrivateKey(a.key)
	if err != nil {
		panic(err)
	}
	return pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: b})
}

// tlsWorld is a set of authorities, servers and files.
type tlsWorld struct {
	dir     string
	servers []*tlsServer
	clients map[string]string // file -> common name of the certificate in it
}

type tlsServer struct {
	name   string
	issuer string // who has to be trusted, "" nobody
	ln     net.Listener
	mu     sync.Mutex
	seen   string // common name of the client certificate of the last request, "-" none
}

func isCA(t *x509.Certificate) {
	t.IsCA = true
	t.KeyUsage |= x509.KeyUsageCertSign
}

func newTlsWorld(dir string) *tlsWorld {
	w := &tlsWorld{dir: dir}
	file := func(name string, parts ...[]byte) {
		var b []byte
		for _, p := range parts {
			b = append(b, p...)
		}
		if err := os.WriteFile(filepath.Join(dir, name), b, 0o600); err != nil {
			panic(err)
		}
	}
	cas := map[string]*authority{"sys": issue("sys root", nil, isCA), "one": issue("root one", nil, isCA), "two": issue("root two", nil, isCA)}
	for n, ca := range cas {
		file(n+".pem", ca.pem())
	}
	file("both.pem", cas["one"].pem(), cas["two"].pem())
	file("garbage.pem", []byte("not a certificate\n"))
	file("empty.pem")
	ok := func(t *x509.Certificate) {
		t.DNSNames = []string{"localhost"}
		t.IPAddresses = []net.IP{net.IPv4(127, 0, 0, 1)}
	}
	self := issue("self", nil, func(t *x509.Certificate) { ok(t); isCA(t) })
	file("self.pem", self.pem())
	inter := issue("intermediate of one", cas["one"], isCA)
	file("inter.pem", inter.pem())
	chained := issue("chained", inter, ok)
	add := func(name, issuer string, chain ...*authority) {
		cert := tls.Certificate{PrivateKey: chain[0].key}
		for _, c := range chain {
			cert.Certificate = append(cert.Certificate, c.der)
		}
		s := &tlsServer{name: name, issuer: issuer}
		ln, err := tls.Listen("tcp", "127.0.0.1:0", &tls.Config{Certificates: []tls.Certificate{cert}, ClientAuth: tls.RequestClientCert})
		if err != nil {
			panic(err)
		}
		s.ln = ln
		srv := &fasthttp.Server{Logger: quiet{}, Handler: func(ctx *fasthttp.RequestCtx) {
			cn := "-"
			if st := ctx.TLSConnectionState(); st != nil && len(st.PeerCertificates) > 0 {
				cn = st.PeerCertificates[0].Subject.CommonName
			}
			s.mu.Lock()
			s.seen = cn
			s.mu.Unlock()
			ctx.SetBodyString("hello from " + name)
		}}
		go srv.Serve(ln)
		w.servers = append(w.servers, s)
	}
	add("sys", "sys", issue("localhost sys", cas["sys"], ok))
	add("one", "one", issue("localhost one", cas["one"], ok))
	add("two", "two", issue("localhost two", cas["two"], ok))
	add("chained", "one", chained, inter)
	add("self-signed", "self", self)
	add("expired", "", issue("expired", cas["one"], func(t *x509.Certificate) {
		ok(t)
		t.NotBefore, t.NotAfter = time.Now().Add(-48*time.Hour), time.Now().Add(-24*time.Hour)
	}))
	add("expired-sys", "", issue("expired", cas["sys"], func(t *x509.Certificate) {
		ok(t)
		t.NotBefore, t.NotAfter = time.Now().Add(-48*time.Hour), time.Now().Add(-24*time.Hour)
	}))
	add("other-name", "", issue("other", cas["one"], func(t *x509.Certificate) { t.DNSNames = []string{"other.example.com"} }))
	add("other-name-sys", "", issue("other", cas["sys"], func(t *x509.Certificate) { t.DNSNames = []string{"other.example.com"} }))
	for _, n := range []string{"alice", "bob"} {
		cl := issue(n, cas["one"], nil)
		file(n+".crt", cl.pem(), cas["one"].pem())
		file(n+".key", cl.keyPem())
	}
	os.Setenv("SSL_CERT_FILE", filepath.Join(dir, "sys.pem"))
	os.Setenv("SSL_CERT_DIR", filepath.Join(dir, "nothing"))
	return w
}

type quiet struct{}

func (quiet) Printf(string, ...interface{}) {}

var trustSets = []struct {
	files string // comma-separated names
	roots []string
}{{"", nil}, {"one.pem", []string{"one"}}, {"two.pem", []string{"two"}}, {"one.pem,two.pem", []string{"one", "two"}}, {"both.pem", []string{"one", "two"}}, {"self.pem", []string{"self"}},
	{"sys.pem", []string{"sys"}}, {"two.pem,self.pem,sys.pem", []string{"two", "self", "sys"}}}

func (w *tlsWorld) paths(names string) string {
	if names == "" {
		return ""
	}
	var ps []string
	for _, n := range strings.Split(names, ",") {
		ps = append(ps, filepath.Join(w.dir, n))
	}
	return strings.Join(ps, ",")
}

func p31(thorough bool) []*lib.Unit {
	us := lib.Shards("handshakes", 9, 8, "every trust mode × set of trusted certificates × client certificate × server (issued by the system root, either private root, an intermediate, itself; expired; for another name), with real handshakes; plain and customized",
		func(c *lib.Ctx, shard, shards int) { handshakes(c, shard, shards) })
	us = append(us, lib.Shards("unreadable", 9, 4, "every missing, unreadable, empty, malformed or mismatched key and certificate file in every position: construction fails, in a process of its own",
		func(c *lib.Ctx, shard, shards int) { unreadable(c, shard, shards) })...)
	us = append(us, &lib.Unit{Name: "limits", Weight: 1, Note: "every pair of timeouts and limits over their domains reaches the client", Seq: limits})
	return us
}

func handshakes(c *lib.Ctx, shard, shards int) {
	w := newTlsWorld(c.Scratch)
	modes := []string{"", "OS", "INSECURE", "CUSTOM", "insecure", "custom", "NONE", "INSECURE "}
	n := 0
	for _, mode := range modes {
		for _, trust := range trustSets {
			for _, client := range []string{"", "alice", "bob"} {
				for _, custom := range []bool{false, true} {
					n++
					if n%shards != shard {
						continue
					}
					cf := confs.FastHttpClientConf{SslTrustMode: mode, SslTrustCerts: w.paths(trust.files), ReadTimeout: 20 * time.Second, WriteTimeout: 20 * time.Second}
					if client != "" {
						cf.CertChain, cf.PrivateKey = filepath.Join(w.dir, client+".crt"), filepath.Join(w.dir, client+".key")
					}
					for _, s := range w.servers {
						for _, host := range []string{"localhost", "127.0.0.1"} {
							c.State(mode, trust.files, client, custom, s.name, host)
							c.Trans(1)
							if !c.Case(func() string {
								return fmt.Sprintf("trust mode %q, trusted %q, client certificate %q, customizer %v, server %s as %s", mode, trust.files, client, custom, s.name, host)
							}, func() string {
								return w.shake(cf, custom, client, s, host, trusts(mode, trust.roots, s))
							}) {
								return
							}
						}
					}
				}
			}
		}
	}
}

// trusts is the rule: the server is accepted if nothing is verified, or if its certificate is good and its issuer trusted.
func trusts(mode string, roots []string, s *tlsServer) bool {
	switch {
	case mode == "INSECURE":
		return true
	case mode == "CUSTOM" && len(roots) > 0:
		for _, r := range roots {
			if r == s.issuer {
				return true
			}
		}
		return false
	}
	return s.issuer == "sys"
}

func (w *tlsWorld) shake(cf confs.FastHttpClientConf, custom bool, client string, s *tlsServer, host string, want bool) string {
	calls := 0
	var cust confs.FastHttpClientCustomizer
	if custom {
		cust = func(hc *fasthttp.Client) { calls++; hc.Name = "customized" }
	}
	before := cf
	cl := confs.NewFastHttpClient(&cf, cust)
	if cf != before {
		return "the configuration is changed"
	}
	if custom && (calls != 1 || cl.Name != "customized") {
		return "the customizer is not honoured"
	}
	defer cl.CloseIdleConnections()
	return w.use(cl, client, s, host, want)
}

// use sends one request.
func (w *tlsWorld) use(cl *fasthttp.Client, client string, s *tlsServer, host string, want bool) string {
	s.mu.Lock()
	s.seen = ""
	s.mu.Unlock()
	req, res := &fasthttp.Request{}, &fasthttp.Response{}
	req.SetRequestURI(fmt.Sprintf("https://%s:%d/", host, s.ln.Addr().(*net.TCPAddr).Port))
	err := cl.DoTimeout(req, res, 30*time.Second)
	s.mu.Lock()
	seen := s.seen
	s.mu.Unlock()
	switch {
	case err == nil && !want:
		return "the server is accepted although it must not be trusted"
	case err != nil && want:
		return "the server is refused although it is to be trusted: " + err.Error()
	case err != nil:
		if seen != "" {
			return "the request is sent to a server that is refused"
		}
		return ""
	}
	if string(res.Body()) != "hello from "+s.name {
		return "unexpected answer " + string(res.Body())
	}
	cn := client
	if cn == "" {
		cn = "-"
	}
	if seen != cn {
		return fmt.Sprintf("the client presents certificate %q, configured is %q", seen, cn)
	}
	return ""
}

func unreadable(c *lib.Ctx, shard, shards int) {
	w := newTlsWorld(c.Scratch)
	f := func(n string) string {
		if n == "" {
			return ""
		}
		return filepath.Join(w.dir, n)
	}
	n := 0
	try := func(cf confs.FastHttpClientConf, builds bool) bool {
		n++
		if n%shards != shard {
			return true
		}
		c.State(cf)
		c.Trans(1)
		return c.Case(func() string { return strings.ReplaceAll(cf.String(), w.dir+"/", "") }, func() string {
			b, _ := json.Marshal(cf)
			code, out := runProgram("fasthttp", string(b), nil, []string{"SSL_CERT_FILE=" + filepath.Join(w.dir, "sys.pem")})
			switch {
			case builds && (code != 0 || out != "BUILT"):
				return fmt.Sprintf("construction fails with status %d", code)
			case !builds && code == 0:
				return "construction succeeds"
			case code < 0:
				return "construction does not end"
			}
			return ""
		})
	}
	certs := []string{"", "alice.crt", "bob.crt", "nothere.crt", "garbage.pem", "empty.pem", "alice.key", "."}
	keys := []string{"", "alice.key", "bob.key", "nothere.key", "garbage.pem", "empty.pem", "alice.crt", "."}
	for _, mode := range []string{"", "INSECURE", "CUSTOM"} {
		for _, ct := range certs {
			for _, k := range keys {
				good := ct == "" && k == "" || ct == "alice.crt" && k == "alice.key" || ct == "bob.crt" && k == "bob.key"
				if !try(confs.FastHttpClientConf{CertChain: f(ct), PrivateKey: f(k), SslTrustMode: mode}, good) {
					return
				}
			}
		}
	}
	for _, ts := range []struct {
		files string
		good  bool
	}{{"one.pem", true}, {"one.pem,two.pem", true}, {"nothere.pem", false}, {"garbage.pem", false}, {"empty.pem", false}, {".", false}, {"one.pem,nothere.pem", false}, {"nothere.pem,one.pem", false},
		{"one.pem,garbage.pem", false}, {"garbage.pem,one.pem", false}, {"one.pem,two.pem,empty.pem", false}, {"one.pem,empty.pem,two.pem", false}} {
		if !try(confs.FastHttpClientConf{SslTrustMode: "CUSTOM", SslTrustCerts: w.paths(ts.files)}, ts.good) {
			return
		}
	}
}

func limits(c *lib.Ctx) {
	durs := []time.Duration{0, 1, 1500 * time.Millisecond, time.Hour}
	ints := []int{0, 1, 512}
	get := func(cl *fasthttp.Client) string {
		return fmt.Sprint(cl.ReadTimeout, cl.WriteTimeout, cl.MaxConnDuration, cl.MaxConnsPerHost, cl.MaxIdleConnDuration, cl.MaxConnWaitTimeout)
	}
	for _, r := range durs {
		for _, wr := range durs {
			for _, mc := range durs {
				for _, mi := range durs {
					for _, mw := range durs {
						for _, n := range ints {
							cf := confs.FastHttpClientConf{ReadTimeout: r, WriteTimeout: wr, MaxConnDuration: mc, MaxIdleConnDuration: mi, MaxConnWaitTimeout: mw, MaxConnsPerHost: n}
							c.State(cf)
							for _, mode := range []string{"", "INSECURE"} {
								cf.SslTrustMode = mode
								c.Trans(1)
								if !c.Case(cf.String, func() string {
									if m := diff("the client's settings", get(confs.NewFastHttpClient(&cf, nil)), fmt.Sprint(r, wr, mc, n, mi, mw)); m != "" {
										return m
									}
									cl := confs.NewFastHttpClient(&cf, func(hc *fasthttp.Client) { hc.ReadTimeout = 77; hc.MaxConnsPerHost = 78 })
									return diff("the client's settings after the customizer", get(cl), fmt.Sprint(time.Duration(77), wr, mc, 78, mi, mw))
								}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}
}
