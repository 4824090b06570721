package props

import (
	"bytes"
	"crypto"
	"crypto/rand"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/harness/env"
	"verif/harness/kit"
	"verif/harness/pki"
	"verif/harness/wire"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// Certificates: an own model of the trust rules against generated hierarchies.

type mCert struct {
	label   string
	name    string // subject
	issuer  string // name of the issuer
	key     int
	signer  int // key it is signed with
	from    time.Duration
	to      time.Duration
	ca      bool
	usage   x509.KeyUsage
	eku     []x509.ExtKeyUsage
	dns     []string
	ips     []net.IP
	serial  int64
	c       *pki.Cert
	breakIt bool // the signature is spoilt
}

func (m *mCert) self() bool { return m.name == m.issuer }
func (m *mCert) validAt(d time.Duration) bool {
	return m.from <= d && d <= m.to
}

type mCRL struct {
	signer  *mCert
	revoked []*mCert
	stale   bool
	der     []byte
}

var ecOnce sync.Once
var ecKeys []crypto.Signer

func ecKey(i int) crypto.Signer {
	ecOnce.Do(func() {
		for j := 0; j < 12; j++ {
			ecKeys = append(ecKeys, pki.EC())
		}
	})
	return ecKeys[i]
}

// pkiPlan is a hierarchy with lists and folders.
type pkiPlan struct {
	cas      []*mCert
	leaf     *mCert
	supplied []*mCert
	trusted  []*mCert
	issuers  []*mCert
	tCRL     []*mCRL
	iCRL     []*mCRL
	usage    x509.ExtKeyUsage
	noUsage  bool
	host     string
	sHost    bool
	sTime    bool
	sChain   bool
	sRev     bool
}

const day = 24 * time.Hour

func drawPKI(t *rapid.T, rsaLeaf bool) *pkiPlan {
	p := &pkiPlan{usage: pick(t, "usage", x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageServerAuth)}
	p.noUsage = !rsaLeaf && p.usage == x509.ExtKeyUsageServerAuth && rapid.IntRange(0, 4).Draw(t, "nousage") == 0
	// healthy most of the time
	odd := func(l string) bool { return rapid.IntRange(0, 7).Draw(t, l) == 0 }
	span := func(m *mCert) {
		m.from, m.to = -30*day, 30*day
		if odd("time") {
			switch rapid.IntRange(0, 1).Draw(t, "when") {
			case 0:
				m.to = -pick(t, "ago", time.Minute, day, 10*day)
			case 1:
				m.from = pick(t, "in", time.Minute, day, 10*day)
			}
		}
	}
	n := rapid.IntRange(0, 5).Draw(t, "authorities")
	for i := 0; i < n; i++ {
		m := &mCert{label: fmt.Sprint("ca", i), name: fmt.Sprint("N", i), key: i, ca: true, usage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign, serial: int64(100 + i)}
		span(m)
		if i > 0 && odd("rollover") {
			m.name = p.cas[rapid.IntRange(0, i-1).Draw(t, "as")].name // same name, another key
		}
		if odd("notca") {
			m.ca = false
		}
		if odd("use") {
			m.usage = pick(t, "ku", x509.KeyUsageCRLSign, x509.KeyUsageCertSign, x509.KeyUsageDigitalSignature, 0) // 0: no such extension
		}
		if odd("eku") {
			m.eku = pick(t, "ekus", []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}, []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageServerAuth})
		}
		m.issuer, m.signer = m.name, m.key
		if i > 0 && rapid.IntRange(0, 3).Draw(t, "under") > 0 {
			up := p.cas[rapid.IntRange(max(0, i-2), i-1).Draw(t, "issuer")]
			m.issuer, m.signer = up.name, up.key
		} else if i > 0 && odd("fake") {
			m.signer = p.cas[rapid.IntRange(0, i-1).Draw(t, "forger")].key // looks self-signed, but is not
		}
		p.cas = append(p.cas, m)
		if i > 0 && odd("cross") {
			// the same authority, certified by another one
			x := *m
			up := p.cas[rapid.IntRange(0, i-1).Draw(t, "cross")]
			x.label, x.issuer, x.signer, x.serial = m.label+"x", up.name, up.key, m.serial+50
			p.cas = append(p.cas, &x)
		}
	}
	l := &mCert{label: "leaf", name: "L", key: 11, usage: x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment, serial: 7, eku: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
	span(l)
	if odd("leafuse") {
		l.eku = pick(t, "leku", nil, []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}, []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, []x509.ExtKeyUsage{x509.ExtKeyUsageCodeSigning})
	}
	l.dns = pick(t, "dns", []string{"host.example", "localhost"}, []string{"localhost"}, nil, []string{"*.example"})
	l.ips = pick(t, "ips", []net.IP{net.IPv4(127, 0, 0, 1)}, nil)
	l.issuer, l.signer = l.name, l.key
	if len(p.cas) > 0 && rapid.IntRange(0, 4).Draw(t, "issued") > 0 {
		up := p.cas[len(p.cas)-1]
		if odd("otherissuer") {
			up = p.cas[rapid.IntRange(0, len(p.cas)-1).Draw(t, "issuer")]
		}
		l.issuer, l.signer = up.name, up.key
		if odd("forged") {
			l.signer = 10
		}
	} else {
		l.usage |= x509.KeyUsageCertSign
		if odd("fakeself") {
			l.signer = 10
			if len(p.cas) > 0 {
				l.signer = p.cas[0].key
			}
		}
	}
	p.leaf = l
	// who knows what
	for _, m := range p.cas {
		switch rapid.IntRange(0, 6).Draw(t, "known") {
		case 0:
			p.supplied = append(p.supplied, m)
		case 1, 2:
			p.issuers = append(p.issuers, m)
		case 3, 4:
			p.trusted = append(p.trusted, m)
		case 5:
			p.supplied = append(p.supplied, m)
			p.issuers = append(p.issuers, m)
		}
	}
	switch k := rapid.IntRange(0, 7).Draw(t, "leafknown"); {
	case k <= 2 || l.self() && k <= 5:
		p.trusted = append(p.trusted, l)
	case k == 6:
		p.issuers = append(p.issuers, l)
	}
	if odd("again") {
		p.supplied = append(p.supplied, l)
	}
	for _, m := range p.cas {
		for k := pick(t, "lists", 1, 1, 0, 1, 2); k > 0; k-- {
			r := &mCRL{signer: m, stale: odd("stale")}
			for _, x := range append(append([]*mCert{}, p.cas...), l) {
				if rapid.IntRange(0, 11).Draw(t, "revoke") == 0 {
					r.revoked = append(r.revoked, x)
				}
			}
			if rapid.Bool().Draw(t, "where") {
				p.tCRL = append(p.tCRL, r)
			} else {
				p.iCRL = append(p.iCRL, r)
			}
		}
	}
	if p.usage == x509.ExtKeyUsageServerAuth {
		p.host = pick(t, "host", "localhost", "localhost", "", "host.example", "127.0.0.1", "other", "127.0.0.2", "a.b.example", "HOST.example")
	}
	p.sHost, p.sTime, p.sChain, p.sRev = odd("sHost"), odd("sTime"), odd("sChain"), rapid.Bool().Draw(t, "sRev")
	return p
}

// realise makes the certificates.
func (p *pkiPlan) realise(leafKey crypto.Signer) {
	if p.sChain {
		// whether an issuer without key usage leaves the chain incomplete or unusable is not judged
		for _, m := range p.cas {
			if m.usage == 0 {
				m.usage = x509.KeyUsageDigitalSignature
			}
		}
	}
	now := time.Now()
	key := func(i int) crypto.Signer {
		if i == 11 && leafKey != nil {
			return leafKey
		}
		return ecKey(i)
	}
	mk := func(m *mCert) {
		s := pki.Spec{CN: m.name, Key: key(m.key), NotBefore: now.Add(m.from), NotAfter: now.Add(m.to), KeyUsage: m.usage, NoKU: m.usage == 0, EKU: m.eku, NoEKU: len(m.eku) == 0, CA: m.ca, DNS: m.dns, IPs: m.ips, Serial: m.serial}
		if m.label == "leaf" {
			s.URI = "urn:verif:client"
		}
		// an issuer with the right name and key
		is := &x509.Certificate{RawSubject: pki.Subject(m.issuer), SubjectKeyId: nil}
		m.c = pki.MakeUnder(s, is, key(m.signer))
	}
	for _, m := range p.cas {
		mk(m)
	}
	mk(p.leaf)
	for _, r := range append(append([]*mCRL{}, p.tCRL...), p.iCRL...) {
		tm := &x509.RevocationList{Number: big.NewInt(1), ThisUpdate: now.Add(-2 * day), NextUpdate: now.Add(day)}
		if r.stale {
			tm.NextUpdate = now.Add(-day)
		}
		for _, x := range r.revoked {
			tm.RevokedCertificateEntries = append(tm.RevokedCertificateEntries, x509.RevocationListEntry{SerialNumber: big.NewInt(x.serial), RevocationTime: now.Add(-day)})
		}
		is := *r.signer.c.X
		is.KeyUsage |= x509.KeyUsageCRLSign // so that it can be made; whether it counts is the question
		is.IsCA, is.BasicConstraintsValid = true, true
		if len(is.SubjectKeyId) == 0 {
			is.SubjectKeyId = []byte{1}
		}
		b, err := x509.CreateRevocationList(rand.Reader, tm, &is, key(r.signer.key))
		if err != nil {
			kit.Infra("crl: %v", err)
		}
		r.der = b
	}
}

// verdict says whether the certificate is to be accepted; judged is false where the rules leave it open.
func (p *pkiPlan) verdict() (ok bool, why string, judged bool) {
	l := p.leaf
	has := func(e []x509.ExtKeyUsage) bool { return in(p.usage, e...) }
	if !has(l.eku) {
		return false, "usage", true
	}
	at := time.Duration(0)
	if p.sTime {
		at = l.from
	}
	if !l.validAt(at) {
		return false, "time", true
	}
	if p.host != "" && !p.sHost {
		okHost := false
		for _, d := range l.dns {
			if strings.EqualFold(d, p.host) || strings.HasPrefix(d, "*.") && strings.HasSuffix(p.host, d[1:]) && !strings.Contains(strings.TrimSuffix(p.host, d[1:]), ".") && net.ParseIP(p.host) == nil {
				okHost = true
			}
		}
		for _, ip := range l.ips {
			if ip.String() == p.host {
				okHost = true
			}
		}
		if !okHost {
			return false, "host", true
		}
	}
	known := append(append(append([]*mCert{}, p.supplied...), p.issuers...), p.trusted...)
	lists := append(append([]*mCRL{}, p.tCRL...), p.iCRL...)
	judged = true
	signs := func(c, up *mCert) bool { // a chain may go from c to up
		return c.issuer == up.name && c.signer == up.key && up.ca && up.usage&x509.KeyUsageCertSign != 0
	}
	counts := func(r *mCRL, up *mCert) bool {
		return r.signer.key == up.key && up.ca && (up.usage == 0 || up.usage&x509.KeyUsageCRLSign != 0)
	}
	if l.self() && l.signer != l.key {
		return false, "forged", true
	}
	if p.sChain {
		// whatever is above it, a revoked certificate is refused
		var revoked func(c *mCert, depth int) bool
		revoked = func(c *mCert, depth int) bool {
			ups, bad := 0, 0
			for _, up := range known {
				if up == c || !signs(c, up) || c.self() {
					continue
				}
				ups++
				dead := depth < 10 && revoked(up, depth+1)
				for _, r := range lists {
					if counts(r, up) && hasCert(r.revoked, c) {
						if r.stale {
							judged = false
						} else {
							return true
						}
					}
				}
				if dead {
					bad++
				}
			}
			return ups > 0 && bad == ups
		}
		if revoked(l, 0) {
			// by its own issuer, or all ways up: judged; the time of issuers does not matter
			return false, "revoked", judged
		}
		return true, "", judged
	}
	// all chains
	var walk func(chain []*mCert) bool
	reasons := map[string]bool{}
	good := func(chain []*mCert) bool {
		top := chain[len(chain)-1]
		if top.signer != top.key {
			reasons["forged root"] = true
			return false
		}
		tr := false
		for i, c := range chain {
			tr = tr || hasCert(p.trusted, c)
			if !c.validAt(at) {
				if p.sTime {
					judged = false // is the time of issuers waived, too?
				}
				reasons["issuer time"] = true
				return false
			}
			if i > 0 && len(c.eku) > 0 && !has(c.eku) {
				reasons["issuer usage"] = true
				return false
			}
		}
		if !tr {
			reasons["trust"] = true
			return false
		}
		for i, c := range chain[:len(chain)-1] {
			found := false
			for _, r := range lists {
				if !counts(r, chain[i+1]) {
					continue
				}
				if !r.stale {
					found = true
				}
				if hasCert(r.revoked, c) {
					if r.stale {
						judged = false
					} else {
						reasons["revoked"] = true
						return false
					}
				}
			}
			if !found && !p.sRev {
				reasons["revocation unknown"] = true
				return false
			}
		}
		return true
	}
	walk = func(chain []*mCert) bool {
		c := chain[len(chain)-1]
		if c.self() {
			return (len(chain) > 1 || hasCert(known, c)) && good(chain)
		}
		res := false
		for _, up := range known {
			if hasCert(chain, up) || !signs(c, up) {
				continue
			}
			if walk(append(chain[:len(chain):len(chain)], up)) {
				res = true
			}
		}
		return res
	}
	res := walk([]*mCert{l})
	w := []string{}
	for k := range reasons {
		w = append(w, k)
	}
	if len(w) > 1 {
		w = []string{"several"}
	}
	if len(w) == 0 && !res {
		w = []string{"no chain"}
	}
	return res, strings.Join(w, ""), judged
}

func hasCert(l []*mCert, c *mCert) bool {
	for _, x := range l {
		if x == c {
			return true
		}
	}
	return false
}

// files writes certificates in one of the allowed ways and returns the path to configure.
func certFiles(t *rapid.T, dir, name, typ string, ders [][]byte) string {
	d := filepath.Join(dir, name)
	pki.Must(os.MkdirAll(d, 0o755))
	kind := rapid.IntRange(0, 3).Draw(t, name+"files")
	enc := func(b ...[]byte) []byte {
		if rapid.IntRange(0, 2).Draw(t, "der") == 0 && (typ == "CERTIFICATE" || len(b) == 1) && len(b) > 0 {
			return bytes.Join(b, nil)
		}
		var out []byte
		for _, x := range b {
			if rapid.IntRange(0, 5).Draw(t, "noise") == 0 {
				out = append(out, "# a comment\n"...)
				out = append(out, pem.EncodeToMemory(&pem.Block{Type: "SOMETHING", Bytes: []byte("x")})...)
			}
			out = append(out, pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: x})...)
		}
		return out
	}
	if kind == 0 || len(ders) == 0 && kind == 1 {
		f := filepath.Join(d, "all.pem")
		pki.Must(os.WriteFile(f, enc(ders...), 0o644))
		if kind == 1 {
			return d
		}
		return f
	}
	fs := []string{}
	for i, x := range ders {
		f := filepath.Join(d, fmt.Sprintf("f%d.crt", i))
		pki.Must(os.WriteFile(f, enc(x), 0o644))
		fs = append(fs, f)
	}
	if kind == 3 && len(fs) > 0 {
		return strings.Join(fs, pick(t, "comma", ",", ", ", " ,"))
	}
	return d
}

func ders(ms []*mCert) [][]byte {
	out := [][]byte{}
	for _, m := range ms {
		out = append(out, m.c.DER)
	}
	return out
}

func crlDers(rs []*mCRL) [][]byte {
	out := [][]byte{}
	for _, r := range rs {
		out = append(out, r.der)
	}
	return out
}

func labels(ms []*mCert) string {
	s := []string{}
	for _, m := range ms {
		s = append(s, m.label)
	}
	return strings.Join(s, ",")
}

func (p *pkiPlan) String() string {
	s := []string{}
	d := func(m *mCert) string {
		return fmt.Sprintf("%s{%s<-%s key %d signer %d %v..%v ca %v ku %d eku %v serial %d}", m.label, m.name, m.issuer, m.key, m.signer, m.from, m.to, m.ca, m.usage, m.eku, m.serial)
	}
	for _, m := range p.cas {
		s = append(s, d(m))
	}
	s = append(s, d(p.leaf), fmt.Sprintf("dns %v ips %v", p.leaf.dns, p.leaf.ips), "supplied "+labels(p.supplied), "issuers "+labels(p.issuers), "trusted "+labels(p.trusted))
	for _, r := range append(append([]*mCRL{}, p.tCRL...), p.iCRL...) {
		s = append(s, fmt.Sprintf("list of %s: %s stale %v", r.signer.label, labels(r.revoked), r.stale))
	}
	s = append(s, fmt.Sprintf("usage %v host %q suppress host %v time %v chain %v revocation unknown %v", p.usage, p.host, p.sHost, p.sTime, p.sChain, p.sRev))
	return strings.Join(s, "; ")
}

func stored(dir string, der []byte) bool {
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		if blk, _ := pem.Decode(b); blk != nil {
			b = blk.Bytes
		}
		if bytes.Equal(b, der) {
			return true
		}
	}
	return false
}

func certRules(c *kit.C) {
	t := c.T
	p := drawPKI(t, false)
	p.realise(nil)
	dir, err := os.MkdirTemp("", "pki")
	if err != nil {
		kit.Infra("%v", err)
	}
	defer os.RemoveAll(dir)
	certs := []*x509.Certificate{p.leaf.c.X}
	for _, m := range p.supplied {
		certs = append(certs, m.c.X)
	}
	tp, ip := certFiles(t, dir, "trusted", "CERTIFICATE", ders(p.trusted)), certFiles(t, dir, "issuers", "CERTIFICATE", ders(p.issuers))
	tc, ic := certFiles(t, dir, "tcrl", "X509 CRL", crlDers(p.tCRL)), certFiles(t, dir, "icrl", "X509 CRL", crlDers(p.iCRL))
	rej := pick(t, "rejected", filepath.Join(dir, "rejected", "certs"), "", dir)
	us := []x509.ExtKeyUsage{p.usage}
	if p.noUsage {
		us = nil
	}
	want, why, judged := p.verdict()
	got := ua.ValidateCertificate(certs, us, p.host, tp, tc, ip, ic, rej, p.sHost, p.sTime, p.sChain, p.sRev)
	if judged {
		if want && got != nil {
			c.Failf("a certificate is refused with %v although the rules allow it (%v)", got, p)
		}
		if !want && got == nil {
			c.Failf("a certificate is accepted although the rules forbid it (%s) (%v)", why, p)
		}
		if want {
			c.Label("accepted")
		} else {
			c.Label("refused: " + why)
		}
		c.NT(p.String())
	} else {
		c.Label("open")
	}
	if got != nil && rej != "" && !stored(rej, p.leaf.c.DER) {
		c.Failf("a refused certificate is not stored in %s (%v)", rej, p)
	}
}

// certServer lets a client with the certificate open a channel with a server that reads the folders.
func certServer(c *kit.C) {
	t := c.T
	p := drawPKI(t, true)
	p.usage, p.host, p.sHost = x509.ExtKeyUsageClientAuth, "", false
	skip := rapid.IntRange(0, 5).Draw(t, "skip") == 0
	p.sTime, p.sChain, p.sRev = skip, skip, skip
	key := pki.Key("r2048_2")
	p.realise(key)
	n := "strict"
	if skip {
		n = "skip"
	}
	if worlds[n] == nil {
		dir, err := os.MkdirTemp("", "pki")
		if err != nil {
			kit.Infra("%v", err)
		}
		opts := []server.Option{server.WithAnonymousIdentity(true), server.WithSecurityPolicyNone(true),
			server.WithTrustedCertificatesPaths(filepath.Join(dir, "trusted"), filepath.Join(dir, "tcrl")), server.WithIssuerCertificatesPaths(filepath.Join(dir, "issuers"), filepath.Join(dir, "icrl")),
			server.WithRejectedCertificatesPath(filepath.Join(dir, "rejected"))}
		if skip {
			opts = append(opts, server.WithInsecureSkipVerify())
		}
		worlds[n] = &world{Srv: env.Start("r2048_1", opts...)}
		worlds[n].Dir = dir
	}
	w = worlds[n]
	for _, d := range []string{"trusted", "tcrl", "issuers", "icrl", "rejected"} {
		os.RemoveAll(filepath.Join(w.Dir, d))
		pki.Must(os.MkdirAll(filepath.Join(w.Dir, d), 0o755))
	}
	put := func(d, typ string, bs [][]byte) {
		for i, b := range bs {
			pki.WritePEM(filepath.Join(w.Dir, d, fmt.Sprint(i)), typ, b)
		}
	}
	put("trusted", "CERTIFICATE", ders(p.trusted))
	put("issuers", "CERTIFICATE", ders(p.issuers))
	put("tcrl", "X509 CRL", crlDers(p.tCRL))
	put("icrl", "X509 CRL", crlDers(p.iCRL))
	want, why, judged := p.verdict()
	p.leaf.c.Key = key
	sec := wire.Sec{Policy: wire.Basic256Sha256, Mode: wire.ModeSign, Client: p.leaf.c, ServerCert: w.Cert.DER, Chain: bytes.Join(ders(p.supplied), nil)}
	cl, err := wire.Connect(w.Addr, w.URL, wire.DefaultLimits, sec)
	if err == nil {
		defer cl.Drop()
	}
	if judged {
		if want && err != nil {
			c.Failf("a client is refused with %v although the rules allow its certificate (%v)", err, p)
		}
		if !want && err == nil {
			c.Failf("a client is accepted although the rules forbid its certificate (%s) (%v)", why, p)
		}
		c.Label(map[bool]string{true: "accepted", false: "refused: " + why}[want])
		c.NT(p.String())
	}
	if err != nil && !stored(filepath.Join(w.Dir, "rejected"), p.leaf.c.DER) {
		c.Failf("the refused certificate is not stored (%v)", p)
	}
}

func init() {
	kit.Register(&kit.Check{
		ID:          "C09",
		Rule:        "rules: random hierarchies (depth, cross certification, key rollover, forged and expired certificates, missing usages), folders, revocation lists and suppression settings against an own chain search; server: the same through the opening of a channel; client: the same through the dialling of a server; non-trivial: distinct judged configurations",
		Assumptions: []string{"the time of issuers while time checks are waived, and outdated revocation lists that list a certificate, are not judged"},
		Subs: []kit.Sub{{Name: "rules", Quick: 8000, Thorough: 500000, Shards: 4, Fn: certRules},
			{Name: "server", Quick: 900, Thorough: 50000, Shards: 2, Fn: certServer},
			{Name: "client", Quick: 900, Thorough: 50000, Shards: 2, Fn: certClient}},
	})
}
