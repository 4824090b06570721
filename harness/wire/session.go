package wire

import (
	"crypto/rsa"
	"fmt"
	"sync/atomic"
	"time"

	"github.com/awcullen/opcua/ua"
	"verif/harness/pki"
)

// Session is a session made with a raw client.
type Session struct {
	*Client
	SessionID   ua.NodeID
	Token       ua.NodeID
	ServerNonce []byte
	ServerCert  []byte
	Timeout     float64
	handle      uint32
	Created     *ua.CreateSessionResponse
}

// CreateOpts are the parameters of CreateSession that checks vary.
type CreateOpts struct {
	AppURI  string
	Name    string
	Timeout float64
	Nonce   []byte
	Cert    []byte
	MaxResp uint32
}

// Fault is a service fault or a bad service result.
type Fault struct{ Code ua.StatusCode }

func (f *Fault) Error() string { return fmt.Sprintf("fault 0x%08x", uint32(f.Code)) }

// CodeOf returns the status of a Fault, or 0.
func CodeOf(err error) ua.StatusCode {
	if f, ok := err.(*Fault); ok {
		return f.Code
	}
	return 0
}

// CreateSession sends CreateSession.
func (c *Client) CreateSession(o CreateOpts) (*Session, error) {
	if o.Timeout == 0 {
		o.Timeout = 3600000
	}
	if o.Nonce == nil {
		o.Nonce = Nonce(32)
	}
	if o.AppURI == "" {
		o.AppURI = "urn:verif:client"
		if c.Sec.Client != nil && len(c.Sec.Client.X.URIs) > 0 {
			o.AppURI = c.Sec.Client.X.URIs[0].String()
		}
	}
	if o.Cert == nil && c.Sec.Client != nil {
		o.Cert = c.Sec.Client.DER
	}
	if o.Name == "" {
		o.Name = "s"
	}
	req := &ua.CreateSessionRequest{
		RequestHeader:     ua.RequestHeader{Timestamp: time.Now(), RequestHandle: 77, TimeoutHint: 20000},
		ClientDescription: ua.ApplicationDescription{ApplicationURI: o.AppURI, ApplicationName: ua.LocalizedText{Text: "verif"}, ApplicationType: ua.ApplicationTypeClient},
		EndpointURL:       c.URL, SessionName: o.Name, ClientNonce: ua.ByteString(o.Nonce), ClientCertificate: ua.ByteString(o.Cert),
		RequestedSessionTimeout: o.Timeout, MaxResponseMessageSize: o.MaxResp,
	}
	x, err := c.Call(req)
	if err != nil {
		return nil, err
	}
	switch r := x.(type) {
	case *ua.ServiceFault:
		return nil, &Fault{r.ServiceResult}
	case *ua.CreateSessionResponse:
		if r.RequestHandle != 77 {
			return nil, fmt.Errorf("%w: request handle %d", ErrProtocol, r.RequestHandle)
		}
		if r.ServiceResult.IsBad() {
			return nil, &Fault{r.ServiceResult}
		}
		s := &Session{Client: c, SessionID: r.SessionID, Token: r.AuthenticationToken, ServerNonce: []byte(r.ServerNonce), ServerCert: []byte(r.ServerCertificate), Timeout: r.RevisedSessionTimeout, Created: r}
		if c.Suite.URI != None {
			pub := RSAPub(c.RemoteCert)
			if r.ServerSignature.Algorithm != c.Suite.SigAlg {
				return nil, fmt.Errorf("%w: server signature algorithm %s", ErrProtocol, r.ServerSignature.Algorithm)
			}
			if err := c.Suite.Verify(pub, append(append([]byte(nil), o.Cert...), o.Nonce...), []byte(r.ServerSignature.Signature)); err != nil {
				return nil, fmt.Errorf("%w: server signature: %v", ErrProtocol, err)
			}
		}
		return s, nil
	}
	return nil, fmt.Errorf("%w: %T for CreateSession", ErrProtocol, x)
}

// Identity of a user.
type Identity struct {
	Token any
	Sig   ua.SignatureData
}

// PolicyID finds the id of the user token policy of a type at the endpoint in use.
func (s *Session) PolicyID(t ua.UserTokenType) (string, string) {
	for _, e := range s.Created.ServerEndpoints {
		if e.SecurityPolicyURI == s.Suite.URI && e.SecurityMode == s.Mode {
			for _, p := range e.UserIdentityTokens {
				if p.TokenType == t {
					u := p.SecurityPolicyURI
					if u == "" {
						u = s.Suite.URI
					}
					return p.PolicyID, u
				}
			}
		}
	}
	return "", s.Suite.URI
}

// Anonymous identity.
func (s *Session) Anonymous() Identity {
	id, _ := s.PolicyID(ua.UserTokenTypeAnonymous)
	return Identity{Token: ua.AnonymousIdentityToken{PolicyID: id}}
}

// UserName identity, encrypted as the token policy demands.
func (s *Session) UserName(user, pw string) Identity {
	id, uri := s.PolicyID(ua.UserTokenTypeUserName)
	return s.UserNameWith(id, uri, user, pw, s.ServerNonce)
}

// UserNameWith makes a user name token with a given policy and nonce.
func (s *Session) UserNameWith(id, uri, user, pw string, nonce []byte) Identity {
	su := SuiteFor(uri)
	if su == nil || uri == None {
		return Identity{Token: ua.UserNameIdentityToken{PolicyID: id, UserName: user, Password: ua.ByteString(pw)}}
	}
	plain := le.AppendUint32(nil, uint32(len(pw)+len(nonce)))
	plain = append(plain, pw...)
	plain = append(plain, nonce...)
	ct := su.Encrypt(RSAPub(s.ServerCert), plain)
	return Identity{Token: ua.UserNameIdentityToken{PolicyID: id, UserName: user, Password: ua.ByteString(ct), EncryptionAlgorithm: su.EncAlg}}
}

// X509 identity.
func (s *Session) X509(c *pki.Cert) Identity {
	id, uri := s.PolicyID(ua.UserTokenTypeCertificate)
	su := SuiteFor(uri)
	i := Identity{Token: ua.X509IdentityToken{PolicyID: id, CertificateData: ua.ByteString(c.DER)}}
	if k, ok := c.Key.(*rsa.PrivateKey); ok && su != nil && uri != None {
		i.Sig = ua.SignatureData{Algorithm: su.SigAlg, Signature: ua.ByteString(su.Sign(k, append(append([]byte(nil), s.ServerCert...), s.ServerNonce...)))}
	}
	return i
}

// ClientSignature signs server certificate and nonce with the client key.
func (s *Session) ClientSignature() ua.SignatureData {
	if s.Suite.URI == None {
		return ua.SignatureData{}
	}
	return ua.SignatureData{Algorithm: s.Suite.SigAlg, Signature: ua.ByteString(s.Suite.Sign(s.Key, append(append([]byte(nil), s.ServerCert...), s.ServerNonce...)))}
}

// Activate activates the session on its client's channel.
func (s *Session) Activate(id Identity) error { return s.ActivateWith(id, s.ClientSignature()) }

// ActivateWith activates with a given client signature.
func (s *Session) ActivateWith(id Identity, sig ua.SignatureData) error {
	req := &ua.ActivateSessionRequest{RequestHeader: s.Header(), ClientSignature: sig, UserIdentityToken: id.Token, UserTokenSignature: id.Sig}
	r, err := Do[ua.ActivateSessionResponse](s, req)
	if err != nil {
		return err
	}
	s.ServerNonce = []byte(r.ServerNonce)
	return nil
}

// Header makes a request header.
func (s *Session) Header() ua.RequestHeader {
	return ua.RequestHeader{AuthenticationToken: s.Token, Timestamp: time.Now(), RequestHandle: atomic.AddUint32(&s.handle, 1), TimeoutHint: 60000}
}

// Do fills in the header, sends the request and returns the response; a fault or bad service result is a *Fault.
func Do[T any](s *Session, req ua.ServiceRequest) (*T, error) {
	if req.Header().AuthenticationToken == nil {
		*req.Header() = s.Header()
	}
	x, err := s.Call(req)
	return As[T](req, x, err)
}

// As checks the type and the handle of a response.
func As[T any](req ua.ServiceRequest, x any, err error) (*T, error) {
	if err != nil {
		return nil, err
	}
	r, ok := x.(ua.ServiceResponse)
	if !ok {
		return nil, fmt.Errorf("%w: %T for %T", ErrProtocol, x, req)
	}
	if h := req.Header().RequestHandle; r.Header().RequestHandle != h {
		return nil, fmt.Errorf("%w: response with request handle %d to a %T with %d", ErrProtocol, r.Header().RequestHandle, req, h)
	}
	if f, ok := x.(*ua.ServiceFault); ok {
		if f.ServiceResult == 0 {
			return nil, fmt.Errorf("%w: ServiceFault with a good result", ErrProtocol)
		}
		return nil, &Fault{f.ServiceResult}
	}
	t, ok := x.(*T)
	if !ok {
		return nil, fmt.Errorf("%w: %T for %T", ErrProtocol, x, req)
	}
	if r.Header().ServiceResult.IsBad() {
		return t, &Fault{r.Header().ServiceResult}
	}
	return t, nil
}

// NewSession connects, creates and activates an anonymous session.
func NewSession(addr, url string) (*Session, error) {
	return NewSessionAs(addr, url, NoSec, func(s *Session) Identity { return s.Anonymous() })
}

// NewSessionAs connects, creates and activates.
func NewSessionAs(addr, url string, sec Sec, id func(*Session) Identity) (*Session, error) {
	c, err := Connect(addr, url, DefaultLimits, sec)
	if err != nil {
		return nil, err
	}
	c.Start()
	s, err := c.CreateSession(CreateOpts{})
	if err != nil {
		c.Drop()
		return nil, err
	}
	if err := s.Activate(id(s)); err != nil {
		c.Drop()
		return nil, err
	}
	return s, nil
}
