package props

import (
	"context"
	"crypto/rsa"
	"errors"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"verif/harness/kit"
	"verif/harness/pki"
	"verif/harness/wire"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// Identities: activation of sessions with all kinds of credentials.

// auths is what the authenticators of the world see and decide.
var auths struct {
	sync.Mutex
	seen    []string
	verdict error
}

func authSeen(s string) error {
	auths.Lock()
	defer auths.Unlock()
	auths.seen = append(auths.seen, s)
	return auths.verdict
}

func who(id any) string {
	switch u := id.(type) {
	case ua.AnonymousIdentity:
		return "anonymous"
	case ua.UserNameIdentity:
		return fmt.Sprintf("user %q %q", u.UserName, u.Password)
	case ua.X509Identity:
		return fmt.Sprintf("cert %x", []byte(u.Certificate))
	case ua.IssuedIdentity:
		return fmt.Sprintf("issued %x", []byte(u.TokenData))
	}
	return fmt.Sprintf("%T", id)
}

var whoID = ua.NewNodeIDString(2, "whoami")

// identWorld starts (once) a server that offers the identity kinds of a set.
func identWorld(key, kinds string) {
	n := "ident" + key + kinds
	if worlds[n] == nil {
		opts := []server.Option{server.WithGetRolesFunc(func(id any, a, e string) ([]ua.NodeID, error) { return []ua.NodeID{role(0)}, nil })}
		if strings.Contains(kinds, "a") {
			opts = append(opts, server.WithAuthenticateAnonymousIdentityFunc(func(u ua.AnonymousIdentity, a, e string) error { return authSeen(who(u)) }))
		} else {
			opts = append(opts, server.WithAnonymousIdentity(false))
		}
		if strings.Contains(kinds, "u") {
			opts = append(opts, server.WithAuthenticateUserNameIdentityFunc(func(u ua.UserNameIdentity, a, e string) error { return authSeen(who(u)) }))
		}
		if strings.Contains(kinds, "x") {
			opts = append(opts, server.WithAuthenticateX509IdentityFunc(func(u ua.X509Identity, a, e string) error { return authSeen(who(u)) }))
		}
		opts = append(opts, server.WithSecurityPolicyNone(true), server.WithInsecureSkipVerify(), server.WithMaxSessionCount(100000),
			server.WithRolePermissions([]ua.RolePermissionType{{RoleID: role(0), Permissions: allPerms}}))
		s := startSrv(key, opts...)
		s.NamespaceManager().Add("urn:verif:ns2")
		v := server.NewVariableNode(s.Server, whoID, ua.NewQualifiedName(2, "w"), ua.LocalizedText{}, ua.LocalizedText{}, nil,
			[]ua.Reference{ua.NewReference(ua.ReferenceTypeIDOrganizes, true, ua.NewExpandedNodeID(ua.ObjectIDObjectsFolder))},
			ua.DataValue{}, ua.DataTypeIDString, ua.ValueRankScalar, []uint32{}, ua.AccessLevelsCurrentRead, 0, false, nil)
		v.SetReadValueHandler(func(se *server.Session, r ua.ReadValueID) ua.DataValue {
			return ua.NewDataValue(who(se.UserIdentity()), 0, time.Now(), 0, time.Now(), 0)
		})
		if err := s.NamespaceManager().AddNodes(v); err != nil {
			kit.Infra("%v", err)
		}
		worlds[n] = &world{Srv: s, name: map[string]*wire.Session{}}
	}
	w = worlds[n]
}

type idSes struct {
	n      int
	s      *wire.Session
	cert   string
	old    [][]byte
	active int // channel, or -1
	who    string
	gone   bool
}

func drawName(t *rapid.T, l string) string {
	switch rapid.IntRange(0, 5).Draw(t, l+"kind") {
	case 0:
		return rapid.String().Draw(t, l)
	case 1:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, l))
	case 2:
		return string(blob(int64(rapid.IntRange(0, 1000).Draw(t, l)), rapid.IntRange(0, 1200).Draw(t, l+"n")))
	case 3:
		// near the size of blocks
		b := pick(t, l+"bs", 62, 86, 117, 128, 190, 214, 245, 256, 318, 342, 373, 384, 446, 470, 501, 512)
		return string(blob(1, max(0, b*pick(t, l+"k", 1, 1, 2)-pick(t, l+"base", 0, 4, 36, 32)+rapid.IntRange(-2, 2).Draw(t, l+"d"))))
	case 4:
		return pick(t, l, "", "pw", "\x00", "a\x00b", "secret ", "pässwörd", "密码")
	default:
		return rapid.StringN(1, 20, 60).Draw(t, l)
	}
}

type idPlan struct {
	desc    string
	id      wire.Identity
	ok      bool // well formed: the authenticator decides
	who     string
	offered bool
}

// drawIdentity makes credentials for a session as seen on a channel.
func drawIdentity(t *rapid.T, x *idSes, cl *wire.Client, kinds string) idPlan {
	s := &wire.Session{Client: cl, Token: x.s.Token, ServerNonce: x.s.ServerNonce, ServerCert: x.s.ServerCert, Created: x.s.Created}
	staleNonce := func() []byte {
		if len(x.old) > 0 && rapid.Bool().Draw(t, "older") {
			return x.old[rapid.IntRange(0, len(x.old)-1).Draw(t, "which")]
		}
		flip := append([]byte(nil), s.ServerNonce...)
		if len(flip) > 0 {
			flip[rapid.IntRange(0, len(flip)-1).Draw(t, "nonce byte")] ^= byte(rapid.IntRange(1, 255).Draw(t, "flip"))
		}
		return pick(t, "nonce", nil, flip, flip, blob(5, 32), append([]byte(nil), s.ServerNonce[:31]...), append(append([]byte(nil), s.ServerNonce...), 0))
	}
	badPolicy := func(t0 ua.UserTokenType) string {
		o := []string{"", "nope"}
		for _, e := range x.s.Created.ServerEndpoints {
			for _, p := range e.UserIdentityTokens {
				if e.SecurityPolicyURI == cl.Suite.URI && e.SecurityMode == cl.Mode && p.TokenType == t0 {
					continue
				}
				o = append(o, p.PolicyID)
			}
		}
		return pick(t, "policyid", o...)
	}
	// wrong is asked once at every place where the credentials can be spoilt
	bad := rapid.IntRange(0, 2).Draw(t, "spoil") == 0
	switch rapid.IntRange(0, 7).Draw(t, "identity") {
	case 0, 1:
		id, _ := s.PolicyID(ua.UserTokenTypeAnonymous)
		p := idPlan{desc: "anonymous", ok: strings.Contains(kinds, "a"), who: "anonymous"}
		if bad {
			id, p.ok = badPolicy(ua.UserTokenTypeAnonymous), false
			p.desc += fmt.Sprintf(" policy %q", id)
		}
		p.id = wire.Identity{Token: ua.AnonymousIdentityToken{PolicyID: id}}
		return p
	case 2, 3, 4:
		u, pw := drawName(t, "user"), drawName(t, "password")
		p := idPlan{desc: fmt.Sprintf("user %q password of %d bytes", brief(u), len(pw)), ok: strings.Contains(kinds, "u") && u != "", who: who(ua.UserNameIdentity{UserName: u, Password: pw})}
		id, uri := s.PolicyID(ua.UserTokenTypeUserName)
		if uri == wire.None {
			uri = wire.Basic256Sha256
		}
		if !bad {
			p.id = s.UserNameWith(id, uri, u, pw, s.ServerNonce)
			return p
		}
		p.ok = false
		su := wire.SuiteFor(uri)
		switch rapid.IntRange(0, 7).Draw(t, "userspoil") {
		case 0:
			id := badPolicy(ua.UserTokenTypeUserName)
			p.desc += fmt.Sprintf(" policy %q", id)
			p.id = s.UserNameWith(id, uri, u, pw, s.ServerNonce)
		case 1:
			p.desc += " with another nonce"
			p.id = s.UserNameWith(id, uri, u, pw, staleNonce())
		case 2:
			p.desc += " not encrypted"
			p.id = wire.Identity{Token: ua.UserNameIdentityToken{PolicyID: id, UserName: u, Password: ua.ByteString(pw), EncryptionAlgorithm: pick(t, "alg", "", su.EncAlg, "x")}}
			if s.ServerNonce != nil && rapid.Bool().Draw(t, "withnonce") {
				plain := append([]byte{byte(len(pw) + 32), byte((len(pw) + 32) >> 8), 0, 0}, pw...)
				p.id = wire.Identity{Token: ua.UserNameIdentityToken{PolicyID: id, UserName: u, Password: ua.ByteString(append(plain, s.ServerNonce...)), EncryptionAlgorithm: su.EncAlg}}
			}
		case 3:
			p.desc += " ciphertext altered"
			tk := s.UserNameWith(id, uri, u, pw, s.ServerNonce).Token.(ua.UserNameIdentityToken)
			b := []byte(tk.Password)
			k := w.Cert.RSA().Size()
			switch rapid.IntRange(0, 3).Draw(t, "how") {
			case 0:
				b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] ^= byte(1 << rapid.IntRange(0, 7).Draw(t, "bit"))
			case 1:
				b = b[:len(b)-rapid.IntRange(1, min(len(b), k+1)).Draw(t, "cut")]
			case 2:
				b = append(b, blob(9, pick(t, "more", 1, k, 16))...)
			case 3:
				if len(b) >= 2*k {
					b = append(append([]byte(nil), b[k:]...), b[:k]...)
				} else {
					b = append(b, b...)[:len(b)+1]
				}
			}
			tk.Password = ua.ByteString(b)
			p.id = wire.Identity{Token: tk}
		case 4:
			tk := s.UserNameWith(id, uri, u, pw, s.ServerNonce).Token.(ua.UserNameIdentityToken)
			o := []string{"", "x"}
			for _, a := range []string{ua.RsaV15KeyWrap, ua.RsaOaepKeyWrap, ua.RsaOaepSha256KeyWrap} {
				if a != su.EncAlg {
					o = append(o, a)
				}
			}
			tk.EncryptionAlgorithm = pick(t, "alg", o...)
			p.desc += " algorithm " + tk.EncryptionAlgorithm
			p.id = wire.Identity{Token: tk}
		case 5:
			p.desc += " wrong length"
			n := len(pw) + len(s.ServerNonce)
			m := pick(t, "len", n+1, n-1, 0, len(s.ServerNonce)-1, 1<<31-1, -1, -5, 1<<20, -1<<31, n+1000)
			if m == n {
				m++
			}
			plain := []byte{byte(m), byte(m >> 8), byte(m >> 16), byte(m >> 24)}
			plain = append(append(plain, pw...), s.ServerNonce...)
			p.id = wire.Identity{Token: ua.UserNameIdentityToken{PolicyID: id, UserName: u, Password: ua.ByteString(su.Encrypt(wire.RSAPub(s.ServerCert), plain)), EncryptionAlgorithm: su.EncAlg}}
		case 6:
			p.desc += " encrypted for another"
			plain := append([]byte{byte(len(pw) + 32), byte((len(pw) + 32) >> 8), 0, 0}, pw...)
			p.id = wire.Identity{Token: ua.UserNameIdentityToken{PolicyID: id, UserName: u, Password: ua.ByteString(su.Encrypt(&pki.Key("r2048_3").PublicKey, append(plain, s.ServerNonce...))), EncryptionAlgorithm: su.EncAlg}}
		case 7:
			p.desc += " short plain text"
			p.id = wire.Identity{Token: ua.UserNameIdentityToken{PolicyID: id, UserName: u, Password: ua.ByteString(su.Encrypt(wire.RSAPub(s.ServerCert), blob(3, rapid.IntRange(1, 8).Draw(t, "n")))), EncryptionAlgorithm: su.EncAlg}}
		}
		return p
	case 5, 6:
		k := pick(t, "userkey", "r2048_3", "r2048_2", "r1024_1", "r3072_1")
		ct := pki.App("urn:user", k)
		p := idPlan{desc: "certificate " + k, ok: strings.Contains(kinds, "x"), who: who(ua.X509Identity{Certificate: ua.ByteString(ct.DER)})}
		id, uri := s.PolicyID(ua.UserTokenTypeCertificate)
		su := wire.SuiteFor(uri)
		if uri == wire.None {
			su = wire.SuiteFor(wire.Basic256Sha256)
		}
		data := append(append([]byte(nil), s.ServerCert...), s.ServerNonce...)
		mk := func(id string, cert []byte, key *rsa.PrivateKey, data []byte) wire.Identity {
			return wire.Identity{Token: ua.X509IdentityToken{PolicyID: id, CertificateData: ua.ByteString(cert)}, Sig: ua.SignatureData{Algorithm: su.SigAlg, Signature: ua.ByteString(su.Sign(key, data))}}
		}
		p.id = mk(id, ct.DER, ct.RSA(), data)
		if !bad {
			return p
		}
		p.ok = false
		switch rapid.IntRange(0, 5).Draw(t, "certspoil") {
		case 0:
			p.id = mk(badPolicy(ua.UserTokenTypeCertificate), ct.DER, ct.RSA(), data)
			p.desc += " wrong policy id"
		case 1:
			p.id = mk(id, ct.DER, ct.RSA(), append(append([]byte(nil), s.ServerCert...), staleNonce()...))
			p.desc += " signature over another nonce"
		case 2:
			p.id = mk(id, ct.DER, pki.Key("r2048_1"), data)
			p.desc += " signed with another key"
		case 3:
			b := []byte(p.id.Sig.Signature)
			switch rapid.IntRange(0, 2).Draw(t, "how") {
			case 0:
				b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] ^= byte(1 << rapid.IntRange(0, 7).Draw(t, "bit"))
			case 1:
				b = b[:rapid.IntRange(0, len(b)-1).Draw(t, "cut")]
			case 2:
				b = append(b, 0)
			}
			p.id.Sig.Signature = ua.ByteString(b)
			p.desc += " signature altered"
		case 4:
			c := pick(t, "cert", []byte{}, []byte("rubbish"), ct.DER[:len(ct.DER)-3], append(append([]byte(nil), ct.DER...), 1, 2, 3))
			p.id = mk(id, c, ct.RSA(), data)
			p.desc += " certificate damaged"
		case 5:
			c := pki.Make(pki.Spec{CN: "ec", Key: pki.EC()})
			p.id = mk(id, c.DER, ct.RSA(), data)
			p.desc += " certificate without RSA key"
		}
		return p
	default:
		id, _ := s.PolicyID(pick(t, "as", ua.UserTokenTypeCertificate, ua.UserTokenTypeAnonymous, ua.UserTokenTypeUserName))
		switch rapid.IntRange(0, 3).Draw(t, "odd") {
		case 0:
			return idPlan{desc: "no token"}
		case 1:
			return idPlan{desc: "another structure", id: wire.Identity{Token: ua.EUInformation{UnitID: 3}}}
		case 2:
			return idPlan{desc: "issued token", id: wire.Identity{Token: ua.IssuedIdentityToken{PolicyID: id, TokenData: "abc"}}}
		default:
			return idPlan{desc: "encoded rubbish", id: wire.Identity{Token: ua.ReadRequest{}}}
		}
	}
}

func brief(s string) string {
	if len(s) > 20 {
		return s[:20] + fmt.Sprintf("...%d", len(s))
	}
	return s
}

func identWire(c *kit.C) {
	t := c.T
	kinds := pick(t, "kinds", "aux", "aux", "ux", "au", "u", "a", "x")
	identWorld(pick(t, "server", "r2048_1", "r2048_1", "r1024_2", "r3072_1"), kinds)
	var hist []string
	fail := func(f string, a ...any) {
		c.Failf("%s (%s: %s)", fmt.Sprintf(f, a...), kinds, strings.Join(hist, "; "))
	}
	var cls []*wire.Client
	var secs []wire.Sec
	defer func() {
		for _, cl := range cls {
			cl.Drop()
		}
	}()
	for k := rapid.IntRange(1, 3).Draw(t, "channels"); k > 0; k-- {
		sec := drawSec(t, false)
		if len(secs) > 0 && rapid.IntRange(0, 3).Draw(t, "same") > 0 {
			o := secs[0]
			if rapid.Bool().Draw(t, "otherpolicy") && o.Policy != wire.None {
				o.Policy, o.Mode = pick(t, "policy2", wire.Policies...), pick(t, "mode2", wire.ModeSignAndEncrypt, wire.ModeSign)
			}
			sec = o
		}
		cl, err := wire.Connect(w.Addr, w.URL, wire.DefaultLimits, sec)
		if err != nil {
			fail("a channel with %s cannot be opened: %v", secName(sec), err)
		}
		cl.Start()
		cls, secs = append(cls, cl), append(secs, sec)
		hist = append(hist, fmt.Sprintf("channel %d %s", len(cls)-1, secName(sec)))
	}
	var ss []*idSes
	nonces := map[string]bool{}
	freshNonce := func(b []byte) {
		if len(b) < 32 || nonces[string(b)] {
			fail("the server's nonce is %x: too short or used before", b)
		}
		nonces[string(b)] = true
	}
	certOf := func(i int) string {
		if secs[i].Client == nil {
			return ""
		}
		return string(secs[i].Client.DER)
	}
	use := func(x *idSes) {
		x.s.Client = cls[max(x.active, 0)]
		r, err := wire.Do[ua.ReadResponse](x.s, &ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: whoID, AttributeID: ua.AttributeIDValue}}})
		if x.active < 0 {
			if wire.CodeOf(err) == 0 {
				fail("a read in session %d, which is not active, gets %v %v", x.n, r, err)
			}
			x.gone = true // a request before activation ends the session
			return
		}
		if err != nil {
			fail("a read in active session %d gets %v", x.n, err)
		}
		if v, _ := r.Results[0].Value.(string); v != x.who {
			fail("session %d acts as %s instead of %s", x.n, v, x.who)
		}
	}
	acts, refusals := 0, 0
	for k := rapid.IntRange(2, 8).Draw(t, "steps"); k > 0; k-- {
		op := rapid.IntRange(0, 5).Draw(t, "op")
		var x *idSes
		if len(ss) > 0 {
			x = ss[rapid.IntRange(0, len(ss)-1).Draw(t, "session")]
		}
		if x == nil || x.gone || op == 0 {
			i := rapid.IntRange(0, len(cls)-1).Draw(t, "on")
			if secs[i].Policy != wire.None && secs[i].Client != nil && rapid.IntRange(0, 2).Draw(t, "spoilt create") == 0 {
				// an application the channel's certificate is not of, or a nonce that is too short
				own := secs[i].Client.X.URIs[0].String()
				o, want := wire.CreateOpts{}, ua.BadCertificateURIInvalid
				switch pick(t, "create", "nonce", "uri") {
				case "nonce":
					o.Nonce, want = wire.Nonce(pick(t, "nonce length", 31, 0, 1, 16, 20, 30)), ua.BadNonceInvalid
				default:
					o.AppURI = pick(t, "application", own+"x", own[:len(own)-1], own+"/", "urn:", own[:len(own)-2]+strings.ToUpper(own[len(own)-2:]), strings.ToUpper(own), " "+own, "urn:other:client")
					if o.AppURI == own {
						o.AppURI += "y"
					}
				}
				hist = append(hist, fmt.Sprintf("create on channel %d as %q with a nonce of %d", i, o.AppURI, len(o.Nonce)))
				if _, err := cls[i].CreateSession(o); wire.CodeOf(err) != want {
					fail("the answer is %v, want %s", err, hx(want))
				}
				c.Label("spoilt creations refused")
				continue
			}
			s, err := cls[i].CreateSession(wire.CreateOpts{})
			if err != nil {
				fail("a session on channel %d cannot be created: %v", i, err)
			}
			freshNonce(s.ServerNonce)
			ss = append(ss, &idSes{n: len(ss), s: s, cert: certOf(i), active: -1})
			hist = append(hist, fmt.Sprintf("session %d on channel %d", len(ss)-1, i))
			continue
		}
		if op == 1 && x.active >= 0 || op == 2 && x.active >= 0 && rapid.Bool().Draw(t, "really") {
			hist = append(hist, fmt.Sprintf("use session %d", x.n))
			use(x)
			continue
		}
		j := rapid.IntRange(0, len(cls)-1).Draw(t, "channel")
		p := drawIdentity(t, x, cls[j], kinds)
		// the signature of the client application
		x.s.Client = cls[j]
		sig, sigOK := x.s.ClientSignature(), true
		if secs[j].Policy != wire.None && rapid.IntRange(0, 3).Draw(t, "spoilsig") == 0 {
			sigOK = false
			su := cls[j].Suite
			b := []byte(sig.Signature)
			switch rapid.IntRange(0, 5).Draw(t, "sig") {
			case 0:
				b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] ^= byte(1 << rapid.IntRange(0, 7).Draw(t, "bit"))
			case 1:
				b = b[:rapid.IntRange(0, len(b)-1).Draw(t, "cut")]
			case 2:
				b = su.Sign(pki.Key("r2048_1"), append(append([]byte(nil), x.s.ServerCert...), x.s.ServerNonce...))
			case 3:
				n := blob(4, 32)
				if len(x.old) > 0 {
					n = x.old[rapid.IntRange(0, len(x.old)-1).Draw(t, "which")]
				}
				b = su.Sign(cls[j].Key, append(append([]byte(nil), x.s.ServerCert...), n...))
			case 4:
				b = su.Sign(cls[j].Key, append(append([]byte(nil), secs[j].Client.DER...), x.s.ServerNonce...))
			case 5:
				b = append(b, 0)
			}
			sig.Signature = ua.ByteString(b)
			p.desc += ", client signature spoilt"
		}
		verdict := pick[error](t, "verdict", nil, nil, nil, ua.BadUserAccessDenied, ua.BadIdentityTokenRejected, errors.New("no"))
		auths.Lock()
		auths.seen, auths.verdict = nil, verdict
		auths.Unlock()
		hist = append(hist, fmt.Sprintf("activate session %d on channel %d as %s, verdict %v", x.n, j, p.desc, verdict))
		certOK := x.cert == certOf(j)
		want := sigOK && certOK && p.ok && verdict == nil
		before := x.s.ServerNonce
		err := x.s.ActivateWith(p.id, sig)
		auths.Lock()
		seen := append([]string(nil), auths.seen...)
		auths.Unlock()
		switch {
		case want && err != nil:
			fail("the activation is refused with %v", err)
		case !want && err == nil:
			fail("the activation succeeds")
		case !want && wire.CodeOf(err) == 0:
			fail("a refused activation ends with %v instead of a fault", err)
		}
		if want && len(seen) != 1 {
			fail("the authenticator is asked %d times: %q", len(seen), seen)
		}
		for _, q := range seen {
			if !p.ok || q != p.who {
				fail("the authenticator sees %s instead of %s", q, p.who)
			}
		}
		if sigOK && certOK && p.ok && verdict != nil && len(seen) != 1 {
			fail("the authenticator is asked %d times", len(seen))
		}
		if v, isCode := verdict.(ua.StatusCode); isCode && sigOK && certOK && p.ok && wire.CodeOf(err) != v {
			fail("the authenticator says %v, the client gets %v", v, err)
		}
		if want {
			acts++
			x.old = append(x.old, before)
			freshNonce(x.s.ServerNonce)
			x.active, x.who = j, p.who
		} else {
			refusals++
			if x.active >= 0 {
				use(x)
			}
		}
	}
	for _, x := range ss {
		if x.active >= 0 {
			use(x)
		} else if !x.gone {
			use(x)
		}
	}
	// nothing is left behind
	for _, x := range ss {
		if !x.gone {
			wire.Do[ua.CloseSessionResponse](x.s, &ua.CloseSessionRequest{})
		}
	}
	if acts+refusals > 0 {
		c.NT(kinds + strings.Join(hist, ";"))
	}
	c.Label(fmt.Sprintf("activations %d, refusals %d", min(acts, 3), min(refusals, 3)))
}

// identClient logs in with the client of the library.
func identClient(c *kit.C) {
	t := c.T
	kinds := pick(t, "kinds", "aux", "aux", "aux", "ux", "au")
	identWorld(pick(t, "server", "r2048_1", "r2048_1", "r1024_2", "r3072_1", "r4096_1"), kinds)
	sec := drawSec(t, false)
	dir, err := os.MkdirTemp("", "cl")
	if err != nil {
		kit.Infra("%v", err)
	}
	defer os.RemoveAll(dir)
	opts := []client.Option{client.WithInsecureSkipVerify(), client.WithSecurityPolicyURI(sec.Policy, ua.MessageSecurityMode(sec.Mode))}
	if sec.Client != nil {
		crt, key := sec.Client.Files(dir, "c")
		opts = append(opts, client.WithClientCertificatePaths(crt, key))
	}
	verdict := pick[error](t, "verdict", nil, nil, nil, ua.BadUserAccessDenied, errors.New("no"))
	ok, exp, desc := false, "", ""
	switch rapid.IntRange(0, 5).Draw(t, "identity") {
	case 0:
		ok, exp, desc = strings.Contains(kinds, "a"), "anonymous", "anonymous"
	case 1, 2, 3:
		u, pw := drawName(t, "user"), drawName(t, "password")
		if u == "" {
			u = "u"
		}
		opts = append(opts, client.WithUserNameIdentity(u, pw))
		ok, exp, desc = true, who(ua.UserNameIdentity{UserName: u, Password: pw}), fmt.Sprintf("user %q password of %d bytes", brief(u), len(pw))
	default:
		k := pick(t, "userkey", "r2048_3", "r2048_2", "r1024_1", "r3072_1")
		ct := pki.App("urn:user", k)
		crt, key := ct.Files(dir, "u")
		opts = append(opts, client.WithX509IdentityPaths(crt, key))
		ok, exp, desc = strings.Contains(kinds, "x"), who(ua.X509Identity{Certificate: ua.ByteString(ct.DER)}), "certificate "+k
	}
	auths.Lock()
	auths.seen, auths.verdict = nil, verdict
	auths.Unlock()
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	h := fmt.Sprintf("%s, %s, server key %d, %s, verdict %v", kinds, secName(sec), w.Cert.RSA().Size()*8, desc, verdict)
	cl, err := client.Dial(ctx, w.URL, opts...)
	want := ok && verdict == nil
	if want && err != nil {
		c.Failf("the client cannot log in: %v (%s)", err, h)
	}
	if !want && err == nil {
		c.Failf("the client logs in (%s)", h)
	}
	auths.Lock()
	seen := append([]string(nil), auths.seen...)
	auths.Unlock()
	if ok && (len(seen) != 1 || seen[0] != exp) || !ok && len(seen) != 0 {
		c.Failf("the authenticator sees %.300q instead of %.300q (%s)", seen, exp, h)
	}
	if err == nil {
		r, err := cl.Read(ctx, &ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: whoID, AttributeID: ua.AttributeIDValue}}})
		if err != nil {
			c.Failf("a read after logging in: %v (%s)", err, h)
		}
		if v, _ := r.Results[0].Value.(string); v != exp {
			c.Failf("the session acts as %.300s instead of %.300s (%s)", v, exp, h)
		}
		if err := cl.Close(ctx); err != nil {
			c.Failf("closing: %v (%s)", err, h)
		}
	}
	c.NT(h)
	c.Label(strings.Fields(desc)[0])
}

func init() {
	kit.Register(&kit.Check{
		ID:          "C10",
		Rule:        "wire: several channels (random policies, keys) and sessions, activated, re-activated and used in random order with well formed and spoilt credentials (nonce, ciphertext, length, algorithm, policy id, signatures, certificates) under random authenticator verdicts; client: the library's client logs in with random credentials; non-trivial: distinct histories with at least one activation attempt",
		Assumptions: []string{"the name of the signature algorithm and trailing bytes after an encrypted password are not judged"},
		Subs: []kit.Sub{{Name: "wire", Quick: 1600, Thorough: 120000, Shards: 5, Fn: identWire},
			{Name: "client", Quick: 300, Thorough: 20000, Shards: 3, Fn: identClient}},
	})
}
