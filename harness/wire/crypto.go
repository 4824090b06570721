// Package wire is the harness' own OPC UA TCP / secure conversation stack, for both roles. It shares no code
// with the repository: framing and crypto are written from Part 6, messages use the reference codec.
package wire

import (
	"crypto"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/x509"
	"errors"
	"fmt"
	"hash"
)

// Policy URIs.
const (
	None           = "http://opcfoundation.org/UA/SecurityPolicy#None"
	Basic128Rsa15  = "http://opcfoundation.org/UA/SecurityPolicy#Basic128Rsa15"
	Basic256       = "http://opcfoundation.org/UA/SecurityPolicy#Basic256"
	Basic256Sha256 = "http://opcfoundation.org/UA/SecurityPolicy#Basic256Sha256"
	Aes128Oaep     = "http://opcfoundation.org/UA/SecurityPolicy#Aes128_Sha256_RsaOaep"
	Aes256Pss      = "http://opcfoundation.org/UA/SecurityPolicy#Aes256_Sha256_RsaPss"
)

// Policies lists the secured policies.
var Policies = []string{Basic128Rsa15, Basic256, Basic256Sha256, Aes128Oaep, Aes256Pss}

// Suite is the set of algorithms of a policy.
type Suite struct {
	URI      string
	sha1sig  bool
	pss      bool
	pkcsEnc  bool
	oaep     func() hash.Hash
	mac      func() hash.Hash
	MacSize  int
	sigKey   int
	encKey   int
	NonceLen int
	SigAlg   string
	EncAlg   string
}

var suites = map[string]*Suite{
	None: {URI: None},
	Basic128Rsa15: {URI: Basic128Rsa15, sha1sig: true, pkcsEnc: true, mac: sha1.New, MacSize: 20, sigKey: 16, encKey: 16, NonceLen: 16,
		SigAlg: "http://www.w3.org/2000/09/xmldsig#rsa-sha1", EncAlg: "http://www.w3.org/2001/04/xmlenc#rsa-1_5"},
	Basic256: {URI: Basic256, sha1sig: true, oaep: sha1.New, mac: sha1.New, MacSize: 20, sigKey: 24, encKey: 32, NonceLen: 32,
		SigAlg: "http://www.w3.org/2000/09/xmldsig#rsa-sha1", EncAlg: "http://www.w3.org/2001/04/xmlenc#rsa-oaep"},
	Basic256Sha256: {URI: Basic256Sha256, oaep: sha1.New, mac: sha256.New, MacSize: 32, sigKey: 32, encKey: 32, NonceLen: 32,
		SigAlg: "http://www.w3.org/2001/04/xmldsig-more#rsa-sha256", EncAlg: "http://www.w3.org/2001/04/xmlenc#rsa-oaep"},
	Aes128Oaep: {URI: Aes128Oaep, oaep: sha1.New, mac: sha256.New, MacSize: 32, sigKey: 32, encKey: 16, NonceLen: 32,
		SigAlg: "http://www.w3.org/2001/04/xmldsig-more#rsa-sha256", EncAlg: "http://www.w3.org/2001/04/xmlenc#rsa-oaep"},
	Aes256Pss: {URI: Aes256Pss, pss: true, oaep: sha256.New, mac: sha256.New, MacSize: 32, sigKey: 32, encKey: 32, NonceLen: 32,
		SigAlg: "http://opcfoundation.org/UA/security/rsa-pss-sha2-256", EncAlg: "http://opcfoundation.org/UA/security/rsa-oaep-sha2-256"},
}

// SuiteFor returns the suite of a policy, or nil.
func SuiteFor(uri string) *Suite { return suites[uri] }

// Sign makes an asymmetric signature.
func (s *Suite) Sign(k *rsa.PrivateKey, data []byte) []byte {
	var sig []byte
	var err error
	switch {
	case s.sha1sig:
		h := sha1.Sum(data)
		sig, err = rsa.SignPKCS1v15(rand.Reader, k, crypto.SHA1, h[:])
	case s.pss:
		h := sha256.Sum256(data)
		sig, err = rsa.SignPSS(rand.Reader, k, crypto.SHA256, h[:], &rsa.PSSOptions{SaltLength: 32})
	default:
		h := sha256.Sum256(data)
		sig, err = rsa.SignPKCS1v15(rand.Reader, k, crypto.SHA256, h[:])
	}
	if err != nil {
		panic(err)
	}
	return sig
}

// Verify checks an asymmetric signature.
func (s *Suite) Verify(k *rsa.PublicKey, data, sig []byte) error {
	switch {
	case s.sha1sig:
		h := sha1.Sum(data)
		return rsa.VerifyPKCS1v15(k, crypto.SHA1, h[:], sig)
	case s.pss:
		h := sha256.Sum256(data)
		return rsa.VerifyPSS(k, crypto.SHA256, h[:], sig, &rsa.PSSOptions{SaltLength: 32})
	}
	h := sha256.Sum256(data)
	return rsa.VerifyPKCS1v15(k, crypto.SHA256, h[:], sig)
}

// PlainBlock is the plaintext size of one RSA block.
func (s *Suite) PlainBlock(k *rsa.PublicKey) int {
	if s.pkcsEnc {
		return k.Size() - 11
	}
	return k.Size() - 2*s.oaep().Size() - 2
}

// Encrypt encrypts any number of blocks.
func (s *Suite) Encrypt(k *rsa.PublicKey, plain []byte) []byte {
	var out []byte
	for n := s.PlainBlock(k); len(plain) > 0; {
		m := min(n, len(plain))
		var c []byte
		var err error
		if s.pkcsEnc {
			c, err = rsa.EncryptPKCS1v15(rand.Reader, k, plain[:m])
		} else {
			c, err = rsa.EncryptOAEP(s.oaep(), rand.Reader, k, plain[:m], nil)
		}
		if err != nil {
			panic(err)
		}
		out = append(out, c...)
		plain = plain[m:]
	}
	return out
}

// Decrypt reverses Encrypt.
func (s *Suite) Decrypt(k *rsa.PrivateKey, ct []byte) ([]byte, error) {
	if len(ct)%k.Size() != 0 {
		return nil, errors.New("wire: cipher text is not a whole number of blocks")
	}
	var out []byte
	for ; len(ct) > 0; ct = ct[k.Size():] {
		var p []byte
		var err error
		if s.pkcsEnc {
			p, err = rsa.DecryptPKCS1v15(rand.Reader, k, ct[:k.Size()])
		} else {
			p, err = rsa.DecryptOAEP(s.oaep(), rand.Reader, k, ct[:k.Size()], nil)
		}
		if err != nil {
			return nil, err
		}
		out = append(out, p...)
	}
	return out, nil
}

// Keys are the symmetric keys of one direction.
type Keys struct{ Sig, Enc, IV []byte }

// Derive derives the keys of the side that contributed seed.
func (s *Suite) Derive(secret, seed []byte) *Keys {
	need := s.sigKey + s.encKey + 16
	var out []byte
	p := func(parts ...[]byte) []byte {
		m := hmac.New(s.mac, secret)
		for _, x := range parts {
			m.Write(x)
		}
		return m.Sum(nil)
	}
	for a := p(seed); len(out) < need; a = p(a) {
		out = append(out, p(a, seed)...)
	}
	return &Keys{Sig: out[:s.sigKey], Enc: out[s.sigKey : s.sigKey+s.encKey], IV: out[s.sigKey+s.encKey : need]}
}

// MAC makes the symmetric signature.
func (s *Suite) MAC(k *Keys, data []byte) []byte {
	m := hmac.New(s.mac, k.Sig)
	m.Write(data)
	return m.Sum(nil)
}

func (k *Keys) crypt(b []byte, enc bool) error {
	c, err := aes.NewCipher(k.Enc)
	if err != nil {
		return err
	}
	if len(b)%16 != 0 {
		return fmt.Errorf("wire: %d bytes of cipher text", len(b))
	}
	if enc {
		cipher.NewCBCEncrypter(c, k.IV).CryptBlocks(b, b)
	} else {
		cipher.NewCBCDecrypter(c, k.IV).CryptBlocks(b, b)
	}
	return nil
}

// RSAPub returns the public key of a DER certificate (chain).
func RSAPub(der []byte) *rsa.PublicKey {
	cs, err := x509.ParseCertificates(der)
	if err != nil || len(cs) == 0 {
		return nil
	}
	k, _ := cs[0].PublicKey.(*rsa.PublicKey)
	return k
}

// Nonce returns random bytes.
func Nonce(n int) []byte {
	b := make([]byte, n)
	rand.Read(b)
	return b
}
