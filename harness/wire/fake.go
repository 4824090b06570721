package wire

import (
	"errors"
	"fmt"
	"net"
	"sync"
	"time"

	"github.com/awcullen/opcua/ua"
	"verif/harness/pki"
)

// Fake is the server end of the protocol, scripted by a test.
type Fake struct {
	Ln        net.Listener
	URL       string
	Cert      *pki.Cert
	Endpoints []ua.EndpointDescription
	Serve     func(*Peer) // called for each connection that said hello

	mu    sync.Mutex
	peers []*Peer
	wg    sync.WaitGroup
}

// Peer is one connection of a client to a Fake.
type Peer struct {
	*Channel
	Fake     *Fake
	HelloL   Limits
	Hello    []byte
	Sec      Sec    // what the client opened
	Lifetime uint32 // revised lifetime of tokens
	Renewals int
	Session  ua.NodeID
	Auth     ua.NodeID
	Ack      Limits
	MaxMsg   uint32
	OnOpen   func(p *Peer, m *Msg, r *ua.OpenSecureChannelRequest) (done bool, err error) // instead of the answer
	Err      error                                                                        // what the client did wrong

	Last *ua.CreateSessionRequest

	wmu    sync.Mutex
	tokens uint32
	chans  uint32
}

// NewFake listens on a free port of the loopback interface.
func NewFake(cert *pki.Cert, ends ...Sec) (*Fake, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	f := &Fake{Ln: ln, URL: fmt.Sprintf("opc.tcp://127.0.0.1:%d", ln.Addr().(*net.TCPAddr).Port), Cert: cert}
	for i, e := range ends {
		d := ua.EndpointDescription{EndpointURL: f.URL, SecurityMode: e.Mode, SecurityPolicyURI: e.Policy, SecurityLevel: byte(i),
			TransportProfileURI: ua.TransportProfileURIUaTcpTransport, Server: ua.ApplicationDescription{ApplicationURI: "urn:verif:fake"},
			UserIdentityTokens: []ua.UserTokenPolicy{{PolicyID: "anon", TokenType: ua.UserTokenTypeAnonymous}, {PolicyID: "user", TokenType: ua.UserTokenTypeUserName}}}
		if e.Policy != None {
			d.ServerCertificate = ua.ByteString(cert.DER)
		}
		f.Endpoints = append(f.Endpoints, d)
	}
	return f, nil
}

// Start accepts connections; raw, when not nil, gets a connection before anything is read from it and reports whether it has dealt with it.
func (f *Fake) Start(raw func(net.Conn) bool) {
	f.wg.Add(1)
	go func() {
		defer f.wg.Done()
		for {
			conn, err := f.Ln.Accept()
			if err != nil {
				return
			}
			f.wg.Add(1)
			go func() {
				defer f.wg.Done()
				if raw != nil && raw(conn) {
					return
				}
				p := &Peer{Channel: &Channel{Conn: conn, Suite: SuiteFor(None), Mode: ModeNone, SendKeys: map[uint32]*Keys{}, RecvKeys: map[uint32]*Keys{}},
					Fake: f, Lifetime: 3600000, Ack: Limits{65536, 65536, 0, 0}}
				if f.Cert != nil {
					p.Key, p.Cert = f.Cert.RSA(), f.Cert.DER
				}
				f.mu.Lock()
				f.peers = append(f.peers, p)
				f.mu.Unlock()
				f.Serve(p)
			}()
		}
	}()
}

// Stop ends all connections and waits for their ends.
func (f *Fake) Stop() {
	f.Ln.Close()
	f.mu.Lock()
	for _, p := range f.peers {
		p.Conn.Close()
	}
	f.mu.Unlock()
	f.wg.Wait()
}

// Greet takes the hello and acknowledges it.
func (p *Peer) Greet() error {
	raw, err := p.ReadRaw(20 * time.Second)
	if err != nil {
		return err
	}
	if string(raw[:4]) != "HELF" || len(raw) < 32 {
		return p.fail("%.8q instead of a hello", raw)
	}
	p.Hello = raw
	p.HelloL = Limits{le.Uint32(raw[12:]), le.Uint32(raw[16:]), le.Uint32(raw[20:]), le.Uint32(raw[24:])}
	p.MaxChunk = int(min(p.HelloL.Recv, p.Ack.Send))
	p.MaxRecv = int(min(p.Ack.Recv, p.HelloL.Send))
	return p.Write(Ack(0, min(p.Ack.Recv, p.HelloL.Send), min(p.Ack.Send, p.HelloL.Recv), p.Ack.MaxMsg, p.Ack.MaxChunks))
}

func (p *Peer) fail(format string, a ...any) error {
	err := fmt.Errorf("%w: %s", ErrProtocol, fmt.Sprintf(format, a...))
	if p.Err == nil {
		p.Err = err
	}
	return err
}

// Next receives the next service request; channel openings are answered here.
func (p *Peer) Next() (*Msg, any, error) {
	for {
		m, err := p.Recv(0)
		if err != nil {
			if errors.Is(err, ErrProtocol) {
				p.fail("%v", err)
			}
			return m, nil, err
		}
		switch m.Kind {
		case "CLOF":
			return m, nil, net.ErrClosed
		case "OPNF":
			x, err := DecodeMsg(m.Body)
			if err != nil {
				return nil, nil, p.fail("%v", err)
			}
			r, ok := x.(*ua.OpenSecureChannelRequest)
			if !ok {
				return nil, nil, p.fail("%T opens a channel", x)
			}
			if p.OnOpen != nil {
				if done, err := p.OnOpen(p, m, r); err != nil {
					return nil, nil, err
				} else if done {
					continue
				}
			}
			if err := p.Opened(m, r); err != nil {
				return nil, nil, err
			}
		default:
			if p.chans == 0 {
				return nil, nil, p.fail("a request before the channel is open")
			}
			p.wmu.Lock()
			if m.Token > p.Token && m.Token <= p.tokens {
				p.Token = m.Token
			} else if m.Token > p.tokens || m.Token == 0 {
				p.wmu.Unlock()
				return nil, nil, p.fail("a request with token %d, the last is %d", m.Token, p.tokens)
			}
			p.wmu.Unlock()
			x, err := DecodeMsg(m.Body)
			if err != nil {
				return nil, nil, p.fail("%v", err)
			}
			return m, x, nil
		}
	}
}

// Opened answers an opening.
func (p *Peer) Opened(m *Msg, r *ua.OpenSecureChannelRequest) error {
	p.wmu.Lock()
	defer p.wmu.Unlock()
	s := SuiteFor(m.Policy)
	if r.RequestType == ua.SecurityTokenRequestTypeIssue {
		if p.chans != 0 || m.ID != 0 {
			return p.fail("a channel is issued twice (%d)", m.ID)
		}
		p.Suite, p.Mode, p.RemoteCert = s, r.SecurityMode, m.Cert
		p.Sec = Sec{Policy: m.Policy, Mode: r.SecurityMode}
		p.chans, p.ID = 77, 77
	} else {
		p.Renewals++
		if m.ID != p.ID || m.Policy != p.Suite.URI || r.SecurityMode != p.Mode || string(m.Cert) != string(p.RemoteCert) {
			return p.fail("a renewal for channel %d, %s, mode %d", m.ID, m.Policy, r.SecurityMode)
		}
	}
	p.tokens++
	t := p.tokens
	var nonce []byte
	if s.URI != None {
		if len(r.ClientNonce) != s.NonceLen {
			return p.fail("a nonce of %d bytes", len(r.ClientNonce))
		}
		nonce = Nonce(s.NonceLen)
		p.SendKeys[t] = s.Derive([]byte(r.ClientNonce), nonce)
		p.RecvKeys[t] = s.Derive(nonce, []byte(r.ClientNonce))
	}
	if p.Token == 0 {
		p.Token = t
	}
	res := &ua.OpenSecureChannelResponse{ResponseHeader: ua.ResponseHeader{Timestamp: time.Now(), RequestHandle: r.RequestHandle},
		SecurityToken: ua.ChannelSecurityToken{ChannelID: p.ID, TokenID: t, CreatedAt: time.Now(), RevisedLifetime: p.Lifetime}, ServerNonce: ua.ByteString(nonce)}
	b, err := EncodeMsg(res)
	if err != nil {
		return err
	}
	return p.Write(p.SealAsym("OPNF", p.NextSeq(), m.ReqID, b))
}

// Answer sends a response.
func (p *Peer) Answer(reqID uint32, x any, sizes ...int) error {
	b, err := EncodeMsg(x)
	if err != nil {
		return err
	}
	p.wmu.Lock()
	defer p.wmu.Unlock()
	for _, k := range p.Chunk("MSG", reqID, b, sizes) {
		if err := p.Write(k); err != nil {
			return err
		}
	}
	return nil
}

// Locked runs f while nothing else is sent.
func (p *Peer) Locked(f func()) {
	p.wmu.Lock()
	defer p.wmu.Unlock()
	f()
}

// Reply makes the header of a response.
func Reply(x any) ua.ResponseHeader {
	h := ua.ResponseHeader{Timestamp: time.Now()}
	if r, ok := x.(ua.ServiceRequest); ok {
		h.RequestHandle = r.Header().RequestHandle
	}
	return h
}

// Usual is the answer of a well-behaved server to the requests that Dial and Close make, else nil.
func (p *Peer) Usual(x any) any {
	switch r := x.(type) {
	case *ua.GetEndpointsRequest:
		return &ua.GetEndpointsResponse{ResponseHeader: Reply(x), Endpoints: p.Fake.Endpoints}
	case *ua.CreateSessionRequest:
		p.Last = r
		p.Session, p.Auth = ua.NewNodeIDNumeric(1, 4711), ua.NewNodeIDOpaque(1, ua.ByteString(Nonce(32)))
		res := &ua.CreateSessionResponse{ResponseHeader: Reply(x), SessionID: p.Session, AuthenticationToken: p.Auth, RevisedSessionTimeout: r.RequestedSessionTimeout,
			ServerNonce: ua.ByteString(Nonce(32)), ServerEndpoints: p.Fake.Endpoints, MaxRequestMessageSize: p.MaxMsg}
		if p.Suite.URI != None {
			res.ServerCertificate = ua.ByteString(p.Cert)
			res.ServerSignature = ua.SignatureData{Algorithm: p.Suite.SigAlg, Signature: ua.ByteString(p.Suite.Sign(p.Key, append([]byte(r.ClientCertificate), []byte(r.ClientNonce)...)))}
		}
		return res
	case *ua.ActivateSessionRequest:
		return &ua.ActivateSessionResponse{ResponseHeader: Reply(x), ServerNonce: ua.ByteString(Nonce(32))}
	case *ua.ReadRequest:
		if len(r.NodesToRead) == 2 && r.NodesToRead[0].NodeID == ua.VariableIDServerNamespaceArray {
			now := time.Now()
			return &ua.ReadResponse{ResponseHeader: Reply(x), Results: []ua.DataValue{
				ua.NewDataValue([]string{"http://opcfoundation.org/UA/", "urn:verif:fake"}, 0, now, 0, now, 0), ua.NewDataValue([]string{"urn:verif:fake"}, 0, now, 0, now, 0)}}
		}
	case *ua.CloseSessionRequest:
		return &ua.CloseSessionResponse{ResponseHeader: Reply(x)}
	}
	return nil
}
