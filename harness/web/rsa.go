//go:build go1.22

package main

import (
	"bytes"
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"
	"encoding/pem"
	"fmt"
	"math/big"
	"strings"

	rsautil "github.com/chanjarster/gears/util/rsa"
	"github.com/chanjarster/gears/zverif/lib"
)

func init() {
	lib.Register("P34", p34, "encoding/pem and crypto/x509 of the Go library define what well-formed PEM and DER are",
		"a text whose armor is damaged but whose key material is complete may still give that key")
}

type pemText struct{ name, text string }

// key is what a reader returns: the key itself, in its own canonical encoding ("" if none).
type key struct {
	der string
	err error
}

// reader is one of the functions under test in its forms.
type reader struct {
	name, typ string
	str       func(string) key
	raw       func([]byte) key
	mustStr   func(string) key // nil: there is none
	mustRaw   func([]byte) key
	oracle    func(der []byte) key
}

func privKey(k *rsa.PrivateKey, err error) key {
	if k == nil {
		return key{"", err}
	}
	return key{string(x509.MarshalPKCS1PrivateKey(k)), err}
}

func pubKey(k *rsa.PublicKey, err error) key {
	if k == nil {
		return key{"", err}
	}
	return key{fmt.Sprintf("%x %x", k.N, k.E), err}
}

func cert(c *x509.Certificate, err error) key {
	if c == nil {
		return key{"", err}
	}
	return key{string(c.Raw), err}
}

var readers = []reader{
	{"private key", "RSA PRIVATE KEY",
		func(s string) key { return privKey(rsautil.ReadPrivateKey(s)) }, func(b []byte) key { return privKey(rsautil.ReadPrivateKeyBytes(b)) },
		func(s string) key { return privKey(rsautil.MustReadPrivateKey(s), nil) }, func(b []byte) key { return privKey(rsautil.MustReadPrivateKeyBytes(b), nil) },
		func(d []byte) key { return privKey(x509.ParsePKCS1PrivateKey(d)) }},
	{"public key", "PUBLIC KEY",
		func(s string) key { return pubKey(rsautil.ReadPublicKey(s)) }, func(b []byte) key { return pubKey(rsautil.ReadPublicKeyBytes(b)) },
		func(s string) key { return pubKey(rsautil.MustReadPublicKey(s), nil) }, func(b []byte) key { return pubKey(rsautil.MustReadPublicKeyBytes(b), nil) },
		func(d []byte) key {
			k, err := x509.ParsePKIXPublicKey(d)
			if err != nil {
				return key{"", err}
			}
			r, ok := k.(*rsa.PublicKey)
			if !ok {
				return key{"", fmt.Errorf("another algorithm")}
			}
			return pubKey(r, nil)
		}},
	{"certificate", "CERTIFICATE",
		func(s string) key { return cert(rsautil.ReadX509Certificate(s)) }, func(b []byte) key { return cert(rsautil.ReadX509CertificateBytes(b)) },
		nil, func(b []byte) key { return cert(rsautil.MustReadX509CertificateBytes(b), nil) },
		func(d []byte) key { return cert(x509.ParseCertificate(d)) }},
}

// total calls f; it must not panic.
func total(f func() key) (k key, panicked any) {
	defer func() { panicked = recover() }()
	return f(), nil
}

func squeeze(s string) string {
	return strings.Map(func(r rune) rune {
		if strings.ContainsRune(" \t\r\n", r) {
			return -1
		}
		return r
	}, s)
}

// judgeKey reads one text with one reader in all forms. body is the complete base64 text of the key the text was made from
// and own its key ("" if it is not of the reader's kind).
func judgeKey(r reader, text, body, own string) string {
	armored := strings.Contains(text, "-----BEGIN") || strings.Contains(text, "-----END")
	intact := armored && own != "" && strings.Contains(squeeze(text), body)
	want := func(stringForm bool) (key, bool) { // the key, and whether only the key material decides
		if b, _ := pem.Decode([]byte(text)); b != nil {
			if b.Type != r.typ {
				return key{"", fmt.Errorf("type %s", b.Type)}, false
			}
			return r.oracle(b.Bytes), false
		}
		if stringForm && !armored {
			s := squeeze(text)
			if strings.Contains(text, ":") {
				return key{"", nil}, true
			}
			d, err := base64.StdEncoding.DecodeString(s)
			if err != nil {
				return key{"", err}, false
			}
			return r.oracle(d), false
		}
		return key{"", fmt.Errorf("no PEM block")}, intact
	}
	for form, f := range []struct {
		name string
		run  func() key
		must func() key
		str  bool
	}{
		{"string", func() key { return r.str(text) }, nil, true},
		{"bytes", func() key { return r.raw([]byte(text)) }, nil, false},
	} {
		got, p := total(f.run)
		what := fmt.Sprintf("reading a %s (%s form)", r.name, f.name)
		if p != nil {
			return fmt.Sprintf("%s panics: %v", what, p)
		}
		if (got.err == nil) != (got.der != "") {
			return fmt.Sprintf("%s gives key %v and error %v", what, got.der != "", got.err)
		}
		w, lax := want(f.str)
		switch {
		case lax:
			if got.err == nil && got.der != own {
				return what + " gives another key than the one encoded"
			}
		case w.err != nil && got.err == nil:
			return fmt.Sprintf("%s succeeds, expected an error: %v", what, w.err)
		case w.err == nil && got.err != nil:
			return fmt.Sprintf("%s fails: %v", what, got.err)
		case w.der != got.der:
			return what + " gives another key than the one encoded"
		}
		var must key
		switch {
		case form == 0 && r.mustStr != nil:
			must, p = total(func() key { return r.mustStr(text) })
		case form == 1:
			must, p = total(func() key { return r.mustRaw([]byte(text)) })
		default:
			continue
		}
		if (p != nil) != (got.err != nil) {
			return fmt.Sprintf("%s: the Must variant panics: %v, the error is %v", what, p, got.err)
		}
		if p == nil && must.der != got.der {
			return what + ": the Must variant gives another key"
		}
	}
	return ""
}

// baseOf returns the base64 text of a PEM and its key for a reader.
func baseOf(r reader, t pemText) (body, own string) {
	b, _ := pem.Decode([]byte(t.text))
	if b == nil {
		panic("zverif-internal: bad PEM " + t.name)
	}
	body = base64.StdEncoding.EncodeToString(b.Bytes)
	if b.Type == r.typ {
		own = r.oracle(b.Bytes).der
	}
	return
}

// forms of a PEM text: as it is, as bare base64 in several shapes, under every type, between other texts.
func forms(t pemText) (out []pemText) {
	add := func(n, s string) { out = append(out, pemText{t.name + ", " + n, s}) }
	b, _ := pem.Decode([]byte(t.text))
	body := base64.StdEncoding.EncodeToString(b.Bytes)
	wrap := func(w int, nl string) string {
		s := ""
		for i := 0; i < len(body); i += w {
			s += body[i:min(i+w, len(body))] + nl
		}
		return s
	}
	add("as it is", t.text)
	add("bare", body)
	for _, nl := range []string{"\n", "\r\n"} {
		for _, w := range []int{1, 3, 4, 5, 60, 63, 64, 65, 76, 1000} {
			add(fmt.Sprintf("bare, lines of %d with %q", w, nl), wrap(w, nl))
		}
		add(fmt.Sprintf("lines end with %q", nl), strings.ReplaceAll(t.text, "\n", nl))
	}
	for _, x := range []string{"\n", "\r\n", " ", "\n\n"} {
		add(fmt.Sprintf("bare after %q", x), x+body)
		add(fmt.Sprintf("bare before %q", x), body+x)
		add(fmt.Sprintf("after %q", x), x+t.text)
		add(fmt.Sprintf("before %q", x), t.text+x)
		add(fmt.Sprintf("no last newline, after %q", x), x+strings.TrimSpace(t.text))
	}
	add("bare twice", body+body)
	add("bare url-safe", base64.URLEncoding.EncodeToString(b.Bytes))
	add("bare unpadded", strings.TrimRight(body, "="))
	add("after a comment", "# a key\n"+t.text)
	add("before a comment", t.text+"# a key\n")
	for _, typ := range []string{"RSA PRIVATE KEY", "PUBLIC KEY", "CERTIFICATE", "PRIVATE KEY", "RSA PUBLIC KEY", "EC PRIVATE KEY", "X509 CERTIFICATE", "TRUSTED CERTIFICATE", "", "rsa private key", "public key", "certificate", "RSA PRIVATE KEY "} {
		add(fmt.Sprintf("as %q", typ), string(pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: b.Bytes})))
		add(fmt.Sprintf("begins as %q", typ), strings.Replace(t.text, "-----BEGIN "+b.Type, "-----BEGIN "+typ, 1))
		add(fmt.Sprintf("ends as %q", typ), strings.Replace(t.text, "-----END "+b.Type, "-----END "+typ, 1))
	}
	add("with headers", string(pem.EncodeToMemory(&pem.Block{Type: b.Type, Headers: map[string]string{"Key": "Value", "A": "b"}, Bytes: b.Bytes})))
	for _, o := range pems {
		add("after "+o.name, o.text+t.text)
		add("before "+o.name, t.text+o.text)
	}
	add("DER", string(b.Bytes))
	add("DER and a byte", string(pem.EncodeToMemory(&pem.Block{Type: b.Type, Bytes: append(append([]byte{}, b.Bytes...), 0)})))
	add("no DER", string(pem.EncodeToMemory(&pem.Block{Type: b.Type})))
	return
}

func p34(thorough bool) []*lib.Unit {
	try := func(c *lib.Ctx, r reader, name, text, body, own string) bool {
		c.State(r.name, text)
		c.Trans(4)
		return c.Case(func() string { return fmt.Sprintf("%s, read as %s:\n%q", name, r.name, text) }, func() string { return judgeKey(r, text, body, own) })
	}
	us := []*lib.Unit{{Name: "forms", Weight: 2, Note: "every kind of key and certificate in every shape (PEM, bare base64 in lines of any width, under every other type, with headers, between other texts and other PEM blocks) × every reader", Seq: func(c *lib.Ctx) {
		for _, t := range pems {
			for _, f := range forms(t) {
				for _, r := range readers {
					body, own := baseOf(r, t)
					if !try(c, r, f.name, f.text, body, own) {
						return
					}
				}
			}
		}
		for _, s := range []string{"", " ", "\n", "-----BEGIN", "-----END", "-----BEGIN-----END", "-----BEGIN -----END -----", "=", "====", "A", "AAAA", "%s%d", "{}", "\x00", "\xff\xfe", "-----BEGIN PUBLIC KEY-----\n-----END PUBLIC KEY-----\n"} {
			for _, r := range readers {
				if !try(c, r, "text", s, "none", "") {
					return
				}
			}
		}
	}}}
	us = append(us, lib.Shards("damage", 5, 16, "every text (PEM and bare) × every truncation at either end, every deleted, doubled or swapped line, every deleted byte and every byte replaced by each of eight others × every reader",
		func(c *lib.Ctx, shard, shards int) {
			n := 0
			for _, t := range pems {
				b, _ := pem.Decode([]byte(t.text))
				for bare, text := range []string{t.text, base64.StdEncoding.EncodeToString(b.Bytes)} {
					subst := "\n A=-:+\x00"
					if !c.Thorough && len(text) > 600 {
						subst = "\nA=-"
					}
					for _, r := range readers {
						body, own := baseOf(r, t)
						if b.Type != r.typ && !(c.Thorough && bare == 1) {
							continue
						}
						do := func(how, s string) bool {
							n++
							if n%shards != shard {
								return true
							}
							return try(c, r, t.name+", "+how, s, body, own)
						}
						for i := 0; i <= len(text); i++ {
							if !do(fmt.Sprintf("its first %d bytes", i), text[:i]) || !do(fmt.Sprintf("without its first %d bytes", i), text[i:]) {
								return
							}
						}
						for i := 0; i < len(text); i++ {
							if !do(fmt.Sprintf("without byte %d", i), text[:i]+text[i+1:]) {
								return
							}
							for _, x := range []byte(subst) {
								if x != text[i] && !do(fmt.Sprintf("with byte %d replaced by %q", i, x), text[:i]+string(x)+text[i+1:]) {
									return
								}
							}
						}
						lines := strings.SplitAfter(text, "\n")
						for i := range lines {
							rest := strings.Join(lines[i+1:], "")
							head := strings.Join(lines[:i], "")
							if !do(fmt.Sprintf("without line %d", i), head+rest) || !do(fmt.Sprintf("with line %d twice", i), head+lines[i]+lines[i]+rest) {
								return
							}
							for j := i + 1; j < len(lines); j++ {
								l := append([]string{}, lines...)
								l[i], l[j] = l[j], l[i]
								if !do(fmt.Sprintf("with lines %d and %d swapped", i, j), strings.Join(l, "")) {
									return
								}
							}
						}
					}
				}
			}
		})...)
	us = append(us, lib.Shards("DER damage", 6, 16, "every truncation of the DER encoding and every single bit flipped, in sound PEM, × the reader of that kind", func(c *lib.Ctx, shard, shards int) {
		for _, t := range pems {
			b, _ := pem.Decode([]byte(t.text))
			for _, r := range readers {
				if b.Type != r.typ {
					continue
				}
				arm := func(d []byte) string { return string(pem.EncodeToMemory(&pem.Block{Type: b.Type, Bytes: d})) }
				for i := range b.Bytes {
					if i%shards != shard {
						continue
					}
					if !try(c, r, fmt.Sprintf("%s, first %d bytes of its DER", t.name, i), arm(b.Bytes[:i]), "none", "") {
						return
					}
					for bit := 0; bit < 8; bit++ {
						d := bytes.Clone(b.Bytes)
						d[i] ^= 1 << bit
						if !try(c, r, fmt.Sprintf("%s, bit %d of byte %d of its DER flipped", t.name, bit, i), arm(d), "none", "") {
							return
						}
					}
				}
			}
		}
	})...)
	us = append(us, &lib.Unit{Name: "extraction", Weight: 3, Note: "every private key of the samples and every key made of two primes below a bound with several exponents: the extracted public key reads back as the key's own, in string and bytes form", Seq: func(c *lib.Ctx) {
		one := func(name string, k *rsa.PrivateKey) bool {
			c.State(name)
			c.Trans(1)
			return c.Case(func() string { return "extracting the public key of " + name }, func() string {
				s, err := rsautil.ExtractPublicKeyPem(k)
				if err != nil {
					return "extracting fails: " + err.Error()
				}
				b, rest := pem.Decode([]byte(s))
				if b == nil || b.Type != "PUBLIC KEY" || strings.TrimSpace(string(rest)) != "" {
					return fmt.Sprintf("what is extracted is not one PEM block: %q", s)
				}
				for _, read := range []func() (*rsa.PublicKey, error){
					func() (*rsa.PublicKey, error) { return rsautil.ReadPublicKey(s) },
					func() (*rsa.PublicKey, error) { return rsautil.ReadPublicKeyBytes([]byte(s)) },
					func() (*rsa.PublicKey, error) {
						return rsautil.ReadPublicKey(base64.StdEncoding.EncodeToString(b.Bytes))
					},
				} {
					p, err := read()
					if err != nil {
						return "the extracted key cannot be read: " + err.Error()
					}
					if !p.Equal(&k.PublicKey) {
						return fmt.Sprintf("the extracted key is (%v, %d), the key's own (%v, %d)", p.N, p.E, k.N, k.E)
					}
				}
				return ""
			})
		}
		for _, t := range pems {
			k, err := rsautil.ReadPrivateKey(t.text)
			if err == nil && !one(t.name, k) {
				return
			}
		}
		hi := int64(400)
		if c.Thorough {
			hi = 2000
		}
		var primes []int64
		for i := int64(3); i < hi; i++ {
			if big.NewInt(i).ProbablyPrime(0) {
				primes = append(primes, i)
			}
		}
		for i, p := range primes {
			for _, q := range primes[i+1:] {
				for _, e := range []int{3, 5, 17, 257, 65537} {
					k := &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: big.NewInt(p * q), E: e}}
					if !one(fmt.Sprintf("N=%d·%d, E=%d", p, q, e), k) {
						return
					}
				}
			}
		}
	}})
	return us
}
