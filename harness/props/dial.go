package props

import (
	"context"
	"encoding/binary"
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	"verif/harness/kit"
	"verif/harness/wire"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// Connecting to servers that fail at any step.

type dialPlan struct {
	sec   wire.Sec
	conn  int    // 0: the connection for discovery, 1: for the session
	step  string // accept, hello, open, endpoints, create, activate, read
	fault string
	n     int
	edits []byte
	by    string // what limits the time: context, cancel, connect, hint
	limit int
}

func (p *dialPlan) String() string {
	return fmt.Sprintf("%s, connection %d, %s: %s (%d), %s %d ms", secName(p.sec), p.conn, p.step, p.fault, p.n, p.by, p.limit)
}

func drawDial(t *rapid.T) *dialPlan {
	p := &dialPlan{sec: wire.NoSec, conn: rapid.IntRange(0, 1).Draw(t, "conn"), by: "context", limit: rapid.IntRange(300, 1000).Draw(t, "limit"), n: rapid.IntRange(0, 1<<16).Draw(t, "n"),
		edits: rapid.SliceOfN(rapid.Byte(), 4, 24).Draw(t, "edits")}
	if rapid.IntRange(0, 2).Draw(t, "secured") == 0 {
		p.sec = drawSec(t, true)
	}
	steps := []string{"accept", "hello", "open", "endpoints"}
	if p.conn == 1 {
		steps = []string{"accept", "hello", "open", "create", "activate", "read"}
	}
	p.step = pick(t, "step", steps...)
	faults := []string{"silence", "silence", "close", "reset", "half", "smear", "smear", "error", "junk", "trickle"}
	switch p.step {
	case "accept":
		faults = []string{"silence", "close", "reset", "junk", "error"}
	case "hello":
		faults = append(faults, "short", "limits", "huge")
	case "endpoints":
		faults = append(faults, "fault", "type", "result", "none", "strange", "nil")
	case "read":
		faults = append(faults, "fault", "type", "result", "none", "strange", "nil")
	default:
		faults = append(faults, "fault", "type", "result", "strange")
	}
	p.fault = pick(t, "fault", faults...)
	if p.fault == "silence" {
		p.by = pick(t, "by", "context", "cancel", "cancel", "hint", "connect")
		if p.by == "connect" && (p.conn == 0 || p.step != "hello" && p.step != "accept") || p.by == "hint" && (p.conn == 0 || p.step == "hello" || p.step == "accept") {
			p.by = "context"
		}
	}
	if rapid.IntRange(0, 5).Draw(t, "fine") == 0 {
		p.step, p.fault = "", ""
	}
	return p
}

// must reports whether the client has to fail, else it may.
func (p *dialPlan) must() bool {
	switch p.fault {
	case "", "smear", "strange", "nil", "trickle", "limits":
		return false
	case "none":
		return p.step == "endpoints"
	case "junk":
		return p.step != "read"
	}
	return true
}

func (p *dialPlan) run() (bad string) {
	fake, err := wire.NewFake(w.Cert, wire.Sec{Policy: p.sec.Policy, Mode: p.sec.Mode})
	if err != nil {
		kit.Infra("%v", err)
	}
	gone := make(chan struct{})
	var mu sync.Mutex
	conns := 0
	// spoil sends an answer (frames) as the plan says; it reports whether the connection goes on
	spoil := func(c net.Conn, good []byte) bool {
		switch p.fault {
		case "silence":
			<-gone
			return false
		case "close":
			return false
		case "reset":
			c.(*net.TCPConn).SetLinger(0)
			return false
		case "half":
			c.Write(good[:len(good)/2])
			return false
		case "smear":
			c.Write(smear(good, p.edits))
			return true
		case "trickle":
			for i := range good {
				if _, err := c.Write(good[i : i+1]); err != nil {
					return false
				}
				if i%16 == 0 {
					time.Sleep(time.Millisecond)
				}
			}
			return true
		case "error":
			c.Write(wire.Frame("ERRF", append([]byte{0, 0, 0x80, 0x80, 4, 0, 0, 0}, "gone"...)))
			return false
		case "junk":
			k := []string{"XYZF", "MSGF", "OPNF", "ACKF", "\x00\x00\x00\x00", "MSGA"}[p.n%6]
			c.Write(wire.Frame(k, p.edits))
			<-gone
			return false
		case "short":
			c.Write(wire.Frame("ACKF", make([]byte, p.n%20)))
			<-gone
			return false
		case "huge":
			c.Write(append([]byte("ACKF"), binary.LittleEndian.AppendUint32(nil, 0x7fffffff)...))
			<-gone
			return false
		}
		c.Write(good)
		return true
	}
	fake.Serve = func(peer *wire.Peer) {
		defer peer.Conn.Close()
		mu.Lock()
		me := conns
		conns++
		mu.Unlock()
		mine := func(step string) bool { return me == p.conn && step == p.step }
		if mine("accept") {
			if !spoil(peer.Conn, []byte("nothing")) {
				return
			}
		}
		if mine("hello") && p.fault != "limits" {
			if _, err := peer.ReadRaw(20 * time.Second); err != nil {
				return
			}
			if !spoil(peer.Conn, wire.Ack(0, 65536, 65536, 0, 0)) {
				return
			}
			peer.MaxChunk, peer.MaxRecv = 65536, 65536
		} else {
			if mine("hello") {
				l := []uint32{0, 1, 8, 8191, 8192, 8193, 65535, 65536, 65537, 0xffffffff}
				peer.Ack = wire.Limits{Recv: l[p.n%10], Send: l[p.n/10%10], MaxMsg: l[p.n/100%10], MaxChunks: l[p.n/1000%10]}
			}
			if err := peer.Greet(); err != nil {
				return
			}
			peer.MaxChunk = max(peer.MaxChunk, 8192)
			peer.MaxRecv = 65536
		}
		peer.OnOpen = func(_ *wire.Peer, m *wire.Msg, r *ua.OpenSecureChannelRequest) (bool, error) {
			if !mine("open") {
				return false, nil
			}
			out := &tapConn{Conn: peer.Conn}
			switch p.fault {
			case "fault", "type", "result", "strange":
				h := wire.Reply(r)
				var x any = &ua.ServiceFault{ResponseHeader: h}
				switch p.fault {
				case "fault":
					x.(*ua.ServiceFault).ServiceResult = ua.BadSecurityChecksFailed
				case "type":
					x = &ua.ReadResponse{ResponseHeader: h}
				case "result":
					h.ServiceResult = ua.BadSecurityChecksFailed
					x = &ua.OpenSecureChannelResponse{ResponseHeader: h}
				case "strange":
					x = &ua.OpenSecureChannelResponse{ResponseHeader: h, SecurityToken: ua.ChannelSecurityToken{ChannelID: uint32(p.n), TokenID: uint32(p.n % 3), RevisedLifetime: uint32(p.n)}, ServerNonce: ua.ByteString(p.edits)}
				}
				b, err := wire.EncodeMsg(x)
				if err != nil {
					return true, err
				}
				peer.Suite, peer.Mode, peer.RemoteCert = wire.SuiteFor(m.Policy), r.SecurityMode, m.Cert
				return true, peer.Write(peer.SealAsym("OPNF", peer.NextSeq(), m.ReqID, b))
			}
			peer.Conn = out
			err := peer.Opened(m, r)
			peer.Conn = out.Conn
			if err != nil {
				return true, err
			}
			if !spoil(peer.Conn, out.b) {
				return true, net.ErrClosed
			}
			return true, nil
		}
		for {
			m, x, err := peer.Next()
			if err != nil {
				return
			}
			step := map[string]string{"GetEndpointsRequest": "endpoints", "CreateSessionRequest": "create", "ActivateSessionRequest": "activate", "ReadRequest": "read"}[strings.TrimPrefix(fmt.Sprintf("%T", x), "*ua.")]
			y := peer.Usual(x)
			if y == nil {
				return
			}
			if !mine(step) {
				peer.Answer(m.ReqID, y)
				continue
			}
			h := wire.Reply(x)
			switch p.fault {
			case "fault":
				h.ServiceResult = ua.BadServiceUnsupported
				peer.Answer(m.ReqID, &ua.ServiceFault{ResponseHeader: h})
				continue
			case "type":
				peer.Answer(m.ReqID, &ua.BrowseResponse{ResponseHeader: h})
				continue
			case "result":
				resHeader(y).ServiceResult = ua.BadInternalError
				peer.Answer(m.ReqID, y)
				continue
			case "none", "nil", "strange":
				now := time.Now()
				odd := []any{nil, "text", []string(nil), int32(3), []string{}, []any{nil, "x"}, []ua.Variant{}, time.Now(), ua.DataValue{}}[p.n%9]
				switch r := y.(type) {
				case *ua.GetEndpointsResponse:
					switch p.fault {
					case "none":
						r.Endpoints = nil
					case "nil":
						r.Endpoints = []ua.EndpointDescription{{}, {SecurityPolicyURI: p.sec.Policy, SecurityMode: p.sec.Mode}}
					default:
						e := r.Endpoints[0]
						e.EndpointURL, e.ServerCertificate = string(p.edits), ua.ByteString(p.edits)
						r.Endpoints = []ua.EndpointDescription{{SecurityPolicyURI: "x"}, e}
					}
				case *ua.CreateSessionResponse:
					r.SessionID, r.AuthenticationToken, r.ServerNonce = nil, nil, ua.ByteString(p.edits)
					if p.n%2 == 0 {
						r.ServerCertificate, r.ServerSignature = ua.ByteString(p.edits), ua.SignatureData{}
					}
				case *ua.ActivateSessionResponse:
					r.ServerNonce = ""
				case *ua.ReadResponse:
					switch p.fault {
					case "none":
						r.Results = nil
					case "nil":
						r.Results = make([]ua.DataValue, p.n%4)
					default:
						r.Results = []ua.DataValue{{Value: odd, SourceTimestamp: now}, {Value: odd}}
						if p.n%2 == 0 {
							r.Results[0].StatusCode = ua.BadNodeIDUnknown
						}
					}
				}
				peer.Answer(m.ReqID, y)
				continue
			}
			b, err := wire.EncodeMsg(y)
			if err != nil {
				return
			}
			var out []byte
			for _, k := range peer.Chunk("MSG", m.ReqID, b, nil) {
				out = append(out, k...)
			}
			if !spoil(peer.Conn, out) {
				return
			}
		}
	}
	fake.Start(nil)
	defer func() { close(gone); fake.Stop() }()
	opts := []client.Option{client.WithInsecureSkipVerify(), client.WithSecurityPolicyURI(p.sec.Policy, ua.MessageSecurityMode(p.sec.Mode))}
	if p.sec.Client != nil {
		opts = append(opts, client.WithClientCertificate(p.sec.Client.DER, p.sec.Client.RSA()))
	}
	d := time.Duration(p.limit) * time.Millisecond
	if p.fault == "" || p.fault == "trickle" {
		d = 20 * time.Second
	}
	ctx := context.Background()
	switch p.by {
	case "connect":
		opts = append(opts, client.WithConnectTimeout(int64(p.limit)))
	case "hint":
		opts = append(opts, client.WithTimeoutHint(uint32(p.limit)))
	case "cancel":
		c, f := context.WithCancel(ctx)
		defer f()
		time.AfterFunc(d, f)
		ctx = c
	default:
		c, f := context.WithTimeout(ctx, d)
		defer f()
		ctx = c
	}
	var cl *client.Client
	begin := time.Now()
	done := make(chan struct{})
	go func() {
		defer close(done)
		cl, err = client.Dial(ctx, fake.URL, opts...)
	}()
	select {
	case <-done:
	case <-time.After(d + 25*time.Second):
		return fmt.Sprintf("HANG: Dial does not return within %v", time.Since(begin))
	}
	took := time.Since(begin)
	if took > d+clSlack {
		return fmt.Sprintf("Dial returns after %v, its limit was %v (%v)", took, d, err)
	}
	if err == nil {
		defer cl.Abort(context.Background())
	}
	switch {
	case err == nil && p.must():
		return "Dial succeeds"
	case err != nil && p.fault == "" && p.by == "context":
		return fmt.Sprintf("Dial fails at a proper server: %v", err)
	case err != nil && p.fault == "trickle" && p.step != "accept":
		return fmt.Sprintf("Dial fails at a slow server: %v", err)
	}
	if p.fault == "" && err == nil {
		cctx, f := context.WithTimeout(context.Background(), 10*time.Second)
		defer f()
		if err := cl.Close(cctx); err != nil {
			return fmt.Sprintf("closing: %v", err)
		}
	}
	return ""
}

// tapConn keeps what is written.
type tapConn struct {
	net.Conn
	b []byte
}

func (c *tapConn) Write(b []byte) (int, error) {
	c.b = append(c.b, b...)
	return len(b), nil
}

func clDial(c *kit.C) {
	var ps []*dialPlan
	for k := 0; k < 20; k++ {
		ps = append(ps, drawDial(c.T))
	}
	bad := make([]string, len(ps))
	var wg sync.WaitGroup
	var all []string
	for _, p := range ps {
		all = append(all, p.String())
	}
	c.Note("%s", strings.Join(all, "; "))
	for i, p := range ps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			bad[i] = p.run()
		}()
	}
	wg.Wait()
	for i, b := range bad {
		if strings.HasPrefix(b, "HANG") {
			c.Hardf("%s (%s)", b, ps[i])
		}
		if b != "" {
			c.Failf("%s (%s)", b, ps[i])
		}
	}
	for _, p := range ps {
		c.NT(p.String())
		c.Label(p.step + " " + p.fault)
	}
}
