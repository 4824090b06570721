// Package pki makes the keys and certificates the checks use. The RSA keys are fixed and committed (making
// them takes seconds); certificates are made on demand.
package pki

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/x509"
	"crypto/x509/pkix"
	"embed"
	"encoding/asn1"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"sync"
	"time"
)

//go:embed keys/*.pem
var files embed.FS

var (
	mu   sync.Mutex
	keys = map[string]*rsa.PrivateKey{}
)

// Key returns the embedded key of that name (r2048_1 .. r2048_6, r2048_short, r1024_1, r1024_2, r3072_1, r4096_1, r4096_2).
func Key(name string) *rsa.PrivateKey {
	mu.Lock()
	defer mu.Unlock()
	if k, ok := keys[name]; ok {
		return k
	}
	b, err := files.ReadFile("keys/" + name + ".pem")
	if err != nil {
		panic(err)
	}
	blk, _ := pem.Decode(b)
	var k *rsa.PrivateKey
	if blk.Type == "RSA PRIVATE KEY" {
		k, err = x509.ParsePKCS1PrivateKey(blk.Bytes)
	} else {
		var x any
		x, err = x509.ParsePKCS8PrivateKey(blk.Bytes)
		if err == nil {
			k = x.(*rsa.PrivateKey)
		}
	}
	if err != nil {
		panic(err)
	}
	keys[name] = k
	return k
}

// Spec describes a certificate.
type Spec struct {
	CN         string
	URI        string
	DNS        []string
	IPs        []net.IP
	NotBefore  time.Time
	NotAfter   time.Time
	KeyUsage   x509.KeyUsage // 0: the usual application instance bits
	EKU        []x509.ExtKeyUsage
	NoEKU      bool
	NoKU       bool
	CA         bool
	Key        crypto.Signer
	Issuer     *Cert // nil: self-signed
	Serial     int64
	NoBasic    bool
	MaxPathLen int
}

// Cert is a certificate with its key.
type Cert struct {
	DER []byte
	X   *x509.Certificate
	Key crypto.Signer
}

// RSA returns the RSA key of the certificate.
func (c *Cert) RSA() *rsa.PrivateKey { return c.Key.(*rsa.PrivateKey) }

// Thumb returns the SHA1 thumbprint.
func (c *Cert) Thumb() []byte { h := sha1.Sum(c.DER); return h[:] }

var serial int64 = 1000

// Make makes a certificate.
func Make(s Spec) *Cert {
	t := template(s)
	parent, signer := t, s.Key
	if s.Issuer != nil {
		parent, signer = s.Issuer.X, s.Issuer.Key
	}
	return create(t, parent, s.Key, signer)
}

func template(s Spec) *x509.Certificate {
	mu.Lock()
	serial++
	n := serial
	mu.Unlock()
	if s.Serial != 0 {
		n = s.Serial
	}
	if s.NotBefore.IsZero() {
		s.NotBefore = time.Now().Add(-time.Hour)
	}
	if s.NotAfter.IsZero() {
		s.NotAfter = time.Now().Add(24 * time.Hour)
	}
	t := &x509.Certificate{
		SerialNumber:          big.NewInt(n),
		Subject:               pkix.Name{CommonName: s.CN, Organization: []string{"verif"}},
		NotBefore:             s.NotBefore,
		NotAfter:              s.NotAfter,
		DNSNames:              s.DNS,
		IPAddresses:           s.IPs,
		BasicConstraintsValid: !s.NoBasic,
		IsCA:                  s.CA,
	}
	kid := sha1.Sum([]byte(fmt.Sprintf("%s|%v", s.CN, pubID(s.Key.Public()))))
	t.SubjectKeyId = kid[:]
	if s.CA {
		t.KeyUsage = x509.KeyUsageCertSign | x509.KeyUsageCRLSign
	} else {
		t.KeyUsage = x509.KeyUsageDigitalSignature | x509.KeyUsageContentCommitment | x509.KeyUsageKeyEncipherment | x509.KeyUsageDataEncipherment
		if s.Issuer == nil {
			t.KeyUsage |= x509.KeyUsageCertSign
		}
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}
	}
	if s.KeyUsage != 0 {
		t.KeyUsage = s.KeyUsage
	}
	if s.NoKU {
		t.KeyUsage = 0
	}
	if s.EKU != nil {
		t.ExtKeyUsage = s.EKU
	}
	if s.NoEKU {
		t.ExtKeyUsage = nil
	}
	if s.URI != "" {
		u, err := url.Parse(s.URI)
		if err != nil {
			panic(err)
		}
		t.URIs = []*url.URL{u}
	}
	return t
}

// Subject is the encoded name of a certificate with a common name.
func Subject(cn string) []byte {
	b, err := asn1.Marshal(pkix.Name{CommonName: cn, Organization: []string{"verif"}}.ToRDNSequence())
	Must(err)
	return b
}

// MakeUnder makes a certificate that names parent as its issuer and is signed with any key.
func MakeUnder(s Spec, parent *x509.Certificate, signer crypto.Signer) *Cert {
	t := template(s)
	p := *parent
	p.PublicKey = signer.Public() // x509 checks the signature it makes
	return create(t, &p, s.Key, signer)
}

func create(t, parent *x509.Certificate, key, signer crypto.Signer) *Cert {
	der, err := x509.CreateCertificate(rand.Reader, t, parent, key.Public(), signer)
	if err != nil {
		panic(err)
	}
	x, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return &Cert{DER: der, X: x, Key: key}
}

func pubID(p crypto.PublicKey) any {
	switch k := p.(type) {
	case *rsa.PublicKey:
		return k.N.String()
	case *ecdsa.PublicKey:
		return k.X.String()
	}
	return ""
}

// EC returns a fresh elliptic-curve key.
func EC() *ecdsa.PrivateKey {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	return k
}

// App makes an ordinary self-signed application instance certificate for localhost.
func App(uri, key string) *Cert {
	return Make(Spec{CN: uri, URI: uri, DNS: []string{"localhost"}, IPs: []net.IP{net.IPv4(127, 0, 0, 1)}, Key: Key(key)})
}

// CRL makes a revocation list of an issuer.
func CRL(issuer *Cert, number int64, revoked ...*Cert) []byte {
	t := &x509.RevocationList{Number: big.NewInt(number), ThisUpdate: time.Now().Add(-time.Hour), NextUpdate: time.Now().Add(24 * time.Hour)}
	for _, c := range revoked {
		t.RevokedCertificateEntries = append(t.RevokedCertificateEntries, x509.RevocationListEntry{SerialNumber: c.X.SerialNumber, RevocationTime: time.Now().Add(-time.Hour)})
	}
	b, err := x509.CreateRevocationList(rand.Reader, t, issuer.X, issuer.Key)
	if err != nil {
		panic(err)
	}
	return b
}

// WritePEM writes blocks of one type to a file.
func WritePEM(file, typ string, ders ...[]byte) {
	var out []byte
	for _, d := range ders {
		out = append(out, pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: d})...)
	}
	Must(os.WriteFile(file, out, 0o600))
}

// Files writes certificate and key to dir and returns their paths.
func (c *Cert) Files(dir, name string) (crt, key string) {
	crt, key = filepath.Join(dir, name+".crt"), filepath.Join(dir, name+".key")
	WritePEM(crt, "CERTIFICATE", c.DER)
	WritePEM(key, "RSA PRIVATE KEY", x509.MarshalPKCS1PrivateKey(c.RSA()))
	return
}

// Must panics on error.
func Must(err error) {
	if err != nil {
		panic(err)
	}
}
