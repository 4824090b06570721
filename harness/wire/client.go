package wire

import (
	"errors"
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/awcullen/opcua/ua"
	"verif/harness/pki"
)

// Sec selects the security of a connection.
type Sec struct {
	Policy     string
	Mode       ua.MessageSecurityMode
	Client     *pki.Cert
	ServerCert []byte
	Chain      []byte // appended to the client certificate in OPN
}

// NoSec is an unsecured connection.
var NoSec = Sec{Policy: None, Mode: ModeNone}

// Limits are the numbers of the Hello message.
type Limits struct{ Recv, Send, MaxMsg, MaxChunks uint32 }

// DefaultLimits are those of an ordinary client.
var DefaultLimits = Limits{65535, 65535, 0, 0}

// Client is a raw protocol client.
type Client struct {
	*Channel
	Sec      Sec
	URL      string
	AckL     Limits
	Nonce    []byte // client nonce of the last OPN
	nextID   uint32
	wmu      sync.Mutex
	mu       sync.Mutex
	pending  map[uint32]chan Result
	dead     chan struct{}
	deadErr  error
	started  bool
	Timeout  time.Duration
	Lifetime uint32
	// Stray collects messages nobody asked for.
	Stray []string
}

// Result of a request.
type Result struct {
	Msg any
	Raw *Msg
	Err error
}

// ErrTimeout is returned when no answer came.
var ErrTimeout = errors.New("wire: no answer in time")

// Dial connects and says hello.
func Dial(addr, url string, l Limits, s Sec) (*Client, error) {
	conn, err := dialer.Dial("tcp", addr)
	if err != nil {
		return nil, err
	}
	c := &Client{Channel: &Channel{Conn: conn, Suite: SuiteFor(s.Policy), Mode: s.Mode, RemoteCert: s.ServerCert}, Sec: s, URL: url,
		pending: map[uint32]chan Result{}, dead: make(chan struct{}), Timeout: 30 * time.Second, Lifetime: 3600000}
	if s.Client != nil {
		c.Key = s.Client.RSA()
		c.Cert = append(append([]byte(nil), s.Client.DER...), s.Chain...)
	}
	c.SendKeys, c.RecvKeys = map[uint32]*Keys{}, map[uint32]*Keys{}
	if err := c.Write(Hello(0, l.Recv, l.Send, l.MaxMsg, l.MaxChunks, url)); err != nil {
		conn.Close()
		return nil, err
	}
	m, err := c.Recv(20 * time.Second)
	if err != nil {
		conn.Close()
		return nil, err
	}
	if m.Kind != "ACKF" || len(m.Body) != 20 {
		conn.Close()
		return nil, fmt.Errorf("%w: %s of %d bytes instead of ACKF", ErrProtocol, m.Kind, len(m.Body))
	}
	c.AckL = Limits{le.Uint32(m.Body[4:]), le.Uint32(m.Body[8:]), le.Uint32(m.Body[12:]), le.Uint32(m.Body[16:])}
	c.MaxChunk = int(min(c.AckL.Recv, l.Send))
	c.MaxRecv = int(l.Recv)
	return c, nil
}

// NextID returns a new request id.
func (c *Client) NextID() uint32 { return atomic.AddUint32(&c.nextID, 1) }

// OpenRequest makes an OpenSecureChannel request with a fresh nonce.
func (c *Client) OpenRequest(renew bool) *ua.OpenSecureChannelRequest {
	c.Nonce = nil
	if c.Suite.URI != None {
		c.Nonce = Nonce(c.Suite.NonceLen)
	}
	rt := ua.SecurityTokenRequestTypeIssue
	if renew {
		rt = ua.SecurityTokenRequestTypeRenew
	}
	return &ua.OpenSecureChannelRequest{RequestHeader: ua.RequestHeader{Timestamp: time.Now(), RequestHandle: 1, TimeoutHint: 20000},
		RequestType: rt, SecurityMode: c.Mode, ClientNonce: ua.ByteString(c.Nonce), RequestedLifetime: c.Lifetime}
}

// Open opens the channel (before Start).
func (c *Client) Open() (*ua.OpenSecureChannelResponse, error) {
	b, err := EncodeMsg(c.OpenRequest(false))
	if err != nil {
		return nil, err
	}
	id := c.NextID()
	if err := c.Write(c.SealAsym("OPNF", c.NextSeq(), id, b)); err != nil {
		return nil, err
	}
	m, err := c.Recv(c.Timeout)
	if err != nil {
		return nil, err
	}
	if m.Kind != "OPNF" || m.ReqID != id {
		return nil, fmt.Errorf("%w: %s for request %d instead of OPNF for %d", ErrProtocol, m.Kind, m.ReqID, id)
	}
	return c.Opened(m)
}

// Opened installs the keys of an OPN response; sending switches to the new token.
func (c *Client) Opened(m *Msg) (*ua.OpenSecureChannelResponse, error) {
	if m.Policy != c.Suite.URI {
		return nil, fmt.Errorf("%w: OPN response with policy %s", ErrProtocol, m.Policy)
	}
	x, err := DecodeMsg(m.Body)
	if err != nil {
		return nil, err
	}
	r, ok := x.(*ua.OpenSecureChannelResponse)
	if !ok {
		return nil, fmt.Errorf("%w: OPN response is a %T", ErrProtocol, x)
	}
	if r.ServiceResult.IsBad() {
		return r, fmt.Errorf("open: 0x%08x", uint32(r.ServiceResult))
	}
	c.ID = r.SecurityToken.ChannelID
	if m.ID != c.ID {
		return nil, fmt.Errorf("%w: OPN channel id %d in the header, %d in the token", ErrProtocol, m.ID, c.ID)
	}
	t := r.SecurityToken.TokenID
	if c.Mode != ModeNone {
		sn := []byte(r.ServerNonce)
		c.SendKeys[t] = c.Suite.Derive(sn, c.Nonce)
		c.RecvKeys[t] = c.Suite.Derive(c.Nonce, sn)
	} else {
		c.SendKeys[t] = nil
	}
	c.Token = t
	return r, nil
}

// dialer lets later listeners have the port of a connection that is not quite over.
var dialer = net.Dialer{Timeout: 10 * time.Second, Control: func(_, _ string, c syscall.RawConn) error {
	return c.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1) })
}}

// Connect dials and opens.
func Connect(addr, url string, l Limits, s Sec) (*Client, error) {
	c, err := Dial(addr, url, l, s)
	if err != nil {
		return nil, err
	}
	if _, err := c.Open(); err != nil {
		c.Conn.Close()
		return nil, err
	}
	return c, nil
}

// Start starts the reader; from here on use Go and Call.
func (c *Client) Start() {
	c.started = true
	go func() {
		for {
			m, err := c.Recv(0)
			if err != nil {
				c.mu.Lock()
				c.deadErr = err
				close(c.dead)
				c.mu.Unlock()
				return
			}
			res := Result{Raw: m}
			if m.Kind == "OPNF" {
				c.wmu.Lock()
				res.Msg, res.Err = c.Opened(m)
				c.wmu.Unlock()
			} else {
				res.Msg, res.Err = DecodeMsg(m.Body)
			}
			c.mu.Lock()
			ch, ok := c.pending[m.ReqID]
			delete(c.pending, m.ReqID)
			if !ok {
				c.Stray = append(c.Stray, fmt.Sprintf("%T for request id %d", res.Msg, m.ReqID))
			}
			c.mu.Unlock()
			if ok {
				ch <- res
			}
		}
	}()
}

// Dead reports whether the connection ended, and why.
func (c *Client) Dead() (bool, error) {
	select {
	case <-c.dead:
		return true, c.deadErr
	default:
		return false, nil
	}
}

// DeadCh is closed when the connection has ended.
func (c *Client) DeadCh() <-chan struct{} { return c.dead }

// Go sends a request.
func (c *Client) Go(req any) (<-chan Result, uint32, error) {
	b, err := EncodeMsg(req)
	if err != nil {
		return nil, 0, err
	}
	return c.GoBody(b, nil)
}

// GoBody sends an encoded request.
func (c *Client) GoBody(b []byte, sizes []int) (<-chan Result, uint32, error) {
	ch := make(chan Result, 1)
	id := c.NextID()
	c.mu.Lock()
	c.pending[id] = ch
	c.mu.Unlock()
	c.wmu.Lock()
	defer c.wmu.Unlock()
	for _, k := range c.Chunk("MSG", id, b, sizes) {
		if err := c.Write(k); err != nil {
			return nil, 0, err
		}
	}
	return ch, id, nil
}

// SetID sets the last request id.
func (c *Client) SetID(n uint32) { atomic.StoreUint32(&c.nextID, n) }

// UseToken makes an issued token the one to send with.
func (c *Client) UseToken(t uint32) {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	c.Token = t
}

// CurrentToken is the token to send with.
func (c *Client) CurrentToken() uint32 {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	return c.Token
}

// Renew renews the security token.
func (c *Client) Renew() error {
	ch, err := c.RenewStart()
	if err != nil {
		return err
	}
	_, err = c.Wait(ch)
	return err
}

// RenewStart asks for a new token; it is in use from its arrival on.
func (c *Client) RenewStart() (<-chan Result, error) {
	ch := make(chan Result, 1)
	id := c.NextID()
	c.mu.Lock()
	c.pending[id] = ch
	c.mu.Unlock()
	c.wmu.Lock()
	b, err := EncodeMsg(c.OpenRequest(true))
	if err == nil {
		err = c.Write(c.SealAsym("OPNF", c.NextSeq(), id, b))
	}
	c.wmu.Unlock()
	return ch, err
}

// Wait waits for an answer.
func (c *Client) Wait(ch <-chan Result) (any, error) {
	t := time.NewTimer(c.Timeout)
	defer t.Stop()
	select {
	case r := <-ch:
		return r.Msg, r.Err
	case <-c.dead:
		select {
		case r := <-ch:
			return r.Msg, r.Err
		default:
		}
		return nil, fmt.Errorf("connection closed: %w", c.deadErr)
	case <-t.C:
		return nil, ErrTimeout
	}
}

// Call sends a request and waits for the answer, which may be a ServiceFault.
func (c *Client) Call(req any) (any, error) {
	ch, _, err := c.Go(req)
	if err != nil {
		return nil, err
	}
	return c.Wait(ch)
}

// Close closes the connection, politely.
func (c *Client) Close() {
	b, _ := EncodeMsg(&ua.CloseSecureChannelRequest{RequestHeader: ua.RequestHeader{Timestamp: time.Now()}})
	c.wmu.Lock()
	c.Write(c.Seal("CLOF", c.NextSeq(), c.NextID(), b))
	c.wmu.Unlock()
	c.Conn.Close()
}

// Drop closes the socket.
func (c *Client) Drop() { c.Conn.Close() }

// Expect registers a request id whose chunks are sent by hand.
func (c *Client) Expect(id uint32) <-chan Result {
	ch := make(chan Result, 1)
	c.mu.Lock()
	c.pending[id] = ch
	c.mu.Unlock()
	return ch
}

// StrayCopy returns the messages nobody asked for.
func (c *Client) StrayCopy() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]string(nil), c.Stray...)
}
