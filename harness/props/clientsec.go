package props

import (
	"bytes"
	"context"
	"crypto/x509"
	"fmt"
	"math/rand"
	"net"
	"os"
	"strings"
	"sync"
	"time"

	"verif/harness/kit"
	"verif/harness/pki"
	"verif/harness/wire"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// The security of the client, against the scripted server.

// csOpts are the options of a client for sec.
func csOpts(sec wire.Sec, more ...client.Option) []client.Option {
	opts := []client.Option{client.WithSecurityPolicyURI(sec.Policy, sec.Mode)}
	if sec.Client != nil {
		opts = append(opts, client.WithClientCertificate(sec.Client.DER, sec.Client.RSA()))
	}
	return append(opts, more...)
}

// csTurns lets goroutines of a server run functions on the goroutine of the test, which is the one that may draw.
type csTurns struct {
	q    chan func()
	gone chan struct{}
}

func newTurns() *csTurns { return &csTurns{make(chan func()), make(chan struct{})} }

// do runs f there; it reports whether it did.
func (x *csTurns) do(f func()) bool {
	end := make(chan struct{})
	select {
	case x.q <- func() { defer close(end); f() }:
	case <-x.gone:
		return false
	}
	<-end
	return true
}

// until runs what comes in until f, which runs elsewhere, returns.
func (x *csTurns) until(f func()) {
	end := make(chan struct{})
	go func() { defer close(end); f() }()
	for {
		select {
		case g := <-x.q:
			g()
		case <-end:
			return
		}
	}
}

// csServe answers like an ordinary server; other gets what Usual does not answer.
func csServe(other func(p *wire.Peer, m *wire.Msg, x any) bool, tune func(p *wire.Peer)) func(*wire.Peer) {
	return func(p *wire.Peer) {
		defer p.Conn.Close()
		if tune != nil {
			tune(p)
		}
		if p.Greet() != nil {
			return
		}
		for {
			m, x, err := p.Next()
			if err != nil {
				return
			}
			if other != nil && other(p, m, x) {
				continue
			}
			if y := p.Usual(x); y == nil || p.Answer(m.ReqID, y) != nil {
				return
			}
		}
	}
}

// certClient lets the client dial a server with the certificate.
func certClient(c *kit.C) {
	t := c.T
	p := drawPKI(t, true)
	p.usage = x509.ExtKeyUsageServerAuth
	p.host = pick(t, "dialed", "127.0.0.1", "localhost")
	if rapid.IntRange(0, 4).Draw(t, "named") > 0 {
		p.leaf.ips, p.leaf.dns = []net.IP{net.IPv4(127, 0, 0, 1)}, []string{"localhost", "host.example"}
	}
	skip := rapid.IntRange(0, 5).Draw(t, "skip") == 0
	p.sHost, p.sTime, p.sChain, p.sRev = skip, skip, skip, skip
	key := pki.Key("r2048_2")
	p.realise(key)
	chain := append(append([]byte{}, p.leaf.c.DER...), bytes.Join(ders(p.supplied), nil)...)
	cert := &pki.Cert{DER: chain, X: p.leaf.c.X, Key: key}
	dir, err := os.MkdirTemp("", "pki")
	if err != nil {
		kit.Infra("%v", err)
	}
	defer os.RemoveAll(dir)
	tp, ip := certFiles(t, dir, "trusted", "CERTIFICATE", ders(p.trusted)), certFiles(t, dir, "issuers", "CERTIFICATE", ders(p.issuers))
	tc, ic := certFiles(t, dir, "tcrl", "X509 CRL", crlDers(p.tCRL)), certFiles(t, dir, "icrl", "X509 CRL", crlDers(p.iCRL))
	rej := dir + "/rejected"
	sec := wire.Sec{Policy: pick(t, "policy", wire.Policies...), Mode: pick(t, "mode", wire.ModeSignAndEncrypt, wire.ModeSign), Client: pki.App("urn:verif:client", "r2048_3")}
	fake, err := wire.NewFake(cert, wire.Sec{Policy: sec.Policy, Mode: sec.Mode})
	if err != nil {
		kit.Infra("%v", err)
	}
	url := strings.Replace(fake.URL, "127.0.0.1", p.host, 1)
	fake.Endpoints[0].EndpointURL = url
	fake.Serve = csServe(nil, nil)
	fake.Start(nil)
	defer fake.Stop()
	opts := csOpts(sec, client.WithTrustedCertificatesPaths(tp, tc), client.WithIssuerCertificatesPaths(ip, ic), client.WithRejectedCertificatesPath(rej))
	if skip {
		opts = append(opts, client.WithInsecureSkipVerify())
	}
	want, why, judged := p.verdict()
	ctx, f := context.WithTimeout(context.Background(), 20*time.Second)
	defer f()
	cl, err := client.Dial(ctx, url, opts...)
	if err == nil {
		defer cl.Abort(ctx)
	}
	if judged {
		if want && err != nil {
			c.Failf("the client refuses the server with %v although the rules allow its certificate (%v)", err, p)
		}
		if !want && err == nil {
			c.Failf("the client accepts the server although the rules forbid its certificate (%s) (%v)", why, p)
		}
		c.Label(map[bool]string{true: "accepted", false: "refused: " + why}[want])
		c.NT(p.String())
	}
	if err != nil && !stored(rej, p.leaf.c.DER) {
		c.Failf("the refused certificate is not stored (%v, %v)", err, p)
	}
}

// chClient lets the client exchange data of all sizes with the independent server.
func chClient(c *kit.C) {
	t := c.T
	useWorld("r2048_1")
	srv := pki.App("urn:verif:fake", pick(t, "srvkey", "r2048_1", "r2048_1", "r2048_3", "r4096_1", "r3072_1", "r1024_2"))
	sec := drawSec(t, false)
	if sec.Client != nil && (sec.Policy == wire.Basic256Sha256 || strings.Contains(sec.Policy, "Aes")) {
		if sec.Client.RSA().Size() < 256 {
			sec.Client = pki.App("urn:verif:client", "r2048_2")
		}
		if srv.RSA().Size() < 256 {
			srv = pki.App("urn:verif:fake", "r2048_1")
		}
	}
	buf := func(l string) uint32 {
		return uint32(pick(t, l, 65536, 65536, 8192, 8193, 8200, rapid.IntRange(8192, 65536).Draw(t, l+"n"), 70000))
	}
	var maxMsg, maxCh uint32
	if rapid.IntRange(0, 2).Draw(t, "limited") == 0 {
		maxMsg, maxCh = uint32(pick(t, "maxmsg", 0, 20000, rapid.IntRange(9000, 200000).Draw(t, "mm"))), uint32(pick(t, "maxchunks", 0, 1, 2, 3, rapid.IntRange(1, 30).Draw(t, "mc")))
	}
	ack := wire.Limits{Recv: buf("arecv"), Send: buf("asend"), MaxMsg: maxMsg, MaxChunks: maxCh}
	mine := uint32(pick(t, "mybuf", 65536, 65536, 8192, 8193, rapid.IntRange(8192, 65536).Draw(t, "mybufn")))
	life := uint32(pick(t, "life", 3600000, 40, 4, 200))
	seq := uint32(pick(t, "seq", 0, 0, 1<<32-3, 1<<32-1030, 1000, 1<<32-1))
	wrapTo := uint32(pick(t, "wrap", 0, 1, 5, 1023))
	var mu sync.Mutex
	bad := ""
	say := func(f string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	got := map[uint32]int{} // requests that arrived, by handle
	sz := rand.New(rand.NewSource(int64(rapid.Int32().Draw(t, "sizes"))))
	var peers []*wire.Peer
	fake, err := wire.NewFake(srv, wire.Sec{Policy: sec.Policy, Mode: sec.Mode})
	if err != nil {
		kit.Infra("%v", err)
	}
	fake.Serve = csServe(func(p *wire.Peer, m *wire.Msg, x any) bool {
		if maxMsg > 0 && len(m.Body) > int(maxMsg) {
			say("a request of %d bytes, the server announced %d", len(m.Body), maxMsg)
		}
		if maxCh > 0 && m.Chunks > int(maxCh) && m.Kind[:3] == "MSG" {
			say("a request of %d chunks, the server announced %d", m.Chunks, maxCh)
		}
		if h, ok := x.(ua.ServiceRequest); ok {
			mu.Lock()
			got[h.Header().RequestHandle]++
			mu.Unlock()
		}
		sizes := func() []int {
			mu.Lock()
			defer mu.Unlock()
			var s []int
			mb := p.MaxBody(p.MaxChunk)
			for k := []int{0, 0, 1, 3, 6}[sz.Intn(5)]; k > 0; k-- {
				s = append(s, []int{1 + sz.Intn(mb), 1, mb, mb - 1, 20, 0}[sz.Intn(6)])
			}
			return s
		}
		switch r := x.(type) {
		case *ua.WriteRequest:
			if len(r.NodesToWrite) != 1 {
				say("%d nodes to write", len(r.NodesToWrite))
				return false
			}
			id, ok := r.NodesToWrite[0].NodeID.(ua.NodeIDNumeric)
			v, ok2 := r.NodesToWrite[0].Value.Value.(ua.ByteString)
			if !ok || !ok2 || !bytes.Equal([]byte(v), blob(int64(id.ID), len(v))) {
				say("a write arrives as %.200v", r.NodesToWrite)
			}
			p.Answer(m.ReqID, &ua.WriteResponse{ResponseHeader: wire.Reply(x), Results: []ua.StatusCode{ua.StatusCode(len(v))}}, sizes()...)
			return true
		case *ua.ReadRequest:
			if len(r.NodesToRead) != 1 {
				return false
			}
			id, _ := r.NodesToRead[0].NodeID.(ua.NodeIDNumeric)
			p.Answer(m.ReqID, &ua.ReadResponse{ResponseHeader: wire.Reply(x), Results: []ua.DataValue{{Value: ua.ByteString(blob(int64(id.ID), int(id.ID)&0xfffff))}}}, sizes()...)
			return true
		}
		return false
	}, func(p *wire.Peer) {
		p.Ack, p.Lifetime, p.Seq, p.MaxMsg = ack, life, seq, maxMsg
		if wrapTo != 0 && seq > 1<<31 {
			p.WrapAt, p.WrapTo = max(seq, 0xfffffc00+wrapTo%3), wrapTo
		}
		mu.Lock()
		peers = append(peers, p)
		mu.Unlock()
	})
	fake.Start(nil)
	stopped := false
	defer func() {
		if !stopped {
			fake.Stop()
		}
	}()
	opts := csOpts(sec, client.WithInsecureSkipVerify(), client.WithTransportLimits(mine, 1<<30, 1<<20), client.WithTokenLifetime(60000))
	var hist []string
	hist = append(hist, fmt.Sprintf("%s server key %d, ack %+v, own buffers %d, lifetime %d ms, first number %d wraps to %d", secName(sec), srv.RSA().Size()*8, ack, mine, life, seq, wrapTo))
	ctx, f := context.WithTimeout(context.Background(), 60*time.Second)
	defer f()
	cl, err := client.Dial(ctx, fake.URL, opts...)
	failf := func(f string, a ...any) {
		c.Failf("%s (%s)", fmt.Sprintf(f, a...), strings.Join(hist, "; "))
	}
	perr := func() string {
		mu.Lock()
		defer mu.Unlock()
		if bad != "" {
			return bad
		}
		for _, p := range peers {
			if p.Err != nil {
				return p.Err.Error()
			}
		}
		return ""
	}
	if err != nil {
		small := maxMsg > 0 && maxMsg < 12000 || maxCh > 0 && maxCh < 3 // the session request alone may be too large
		if e := perr(); e != "" {
			failf("the client misbehaves while dialling: %s (%v)", e, err)
		}
		if small && (err == ua.BadRequestTooLarge || err == ua.BadEncodingLimitsExceeded) {
			return
		}
		failf("dialling a proper server: %v", err)
	}
	defer cl.Abort(context.Background())
	sendBuf := int(min(mine, ack.Recv))
	mb := (&wire.Channel{Suite: wire.SuiteFor(sec.Policy), Mode: sec.Mode}).MaxBody(sendBuf)
	recvBuf := int(min(mine, ack.Send))
	rb := (&wire.Channel{Suite: wire.SuiteFor(sec.Policy), Mode: sec.Mode}).MaxBody(recvBuf)
	type op struct {
		read  bool
		n     int
		id    uint32
		pause time.Duration
	}
	nl := rapid.IntRange(1, 4).Draw(t, "callers")
	lanes := make([][]op, nl)
	for i := range lanes {
		for k := rapid.IntRange(1, 8).Draw(t, "ops"); k > 0; k-- {
			o := op{read: rapid.Bool().Draw(t, "read"), id: uint32(rapid.IntRange(0, 4000).Draw(t, "id")) << 20}
			if o.read {
				o.n = nearChunk(t, "r", 35+8, rb) & 0xfffff
			} else {
				o.n = nearChunk(t, "w", 90, mb)
			}
			o.n = min(o.n, 900000)
			if rapid.IntRange(0, 5).Draw(t, "pause") == 0 {
				o.pause = time.Duration(rapid.IntRange(1, 40).Draw(t, "ms")) * time.Millisecond
			}
			lanes[i] = append(lanes[i], o)
		}
	}
	var wg sync.WaitGroup
	for i, l := range lanes {
		hist = append(hist, fmt.Sprintf("caller %d: %v", i, l))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k, o := range l {
				time.Sleep(o.pause)
				octx, f := context.WithTimeout(context.Background(), 30*time.Second)
				if o.read {
					r, err := cl.Read(octx, &ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: ua.NewNodeIDNumeric(1, o.id|uint32(o.n)), AttributeID: ua.AttributeIDValue}}})
					switch {
					case err != nil:
						say("caller %d, operation %d: reading %d bytes: %v", i, k, o.n, err)
					case len(r.Results) != 1:
						say("caller %d, operation %d: reading gives %d results", i, k, len(r.Results))
					default:
						v, _ := r.Results[0].Value.(ua.ByteString)
						if !bytes.Equal([]byte(v), blob(int64(o.id|uint32(o.n)), o.n)) {
							say("caller %d, operation %d: reading %d bytes gives %d others", i, k, o.n, len(v))
						}
					}
				} else {
					req := &ua.WriteRequest{NodesToWrite: []ua.WriteValue{{NodeID: ua.NewNodeIDNumeric(1, o.id|uint32(k)), AttributeID: ua.AttributeIDValue,
						Value: ua.DataValue{Value: ua.ByteString(blob(int64(o.id|uint32(k)), o.n))}}}}
					r, err := cl.Write(octx, req)
					b, _ := wire.EncodeMsg(req)
					tooBig := maxMsg > 0 && len(b) > int(maxMsg) || maxCh > 0 && (len(b)+mb-1)/mb > int(maxCh)
					switch {
					case err != nil && tooBig && strings.Contains(fmt.Sprint(err), "too large"), err == ua.BadRequestTooLarge && tooBig, err == ua.BadEncodingLimitsExceeded && tooBig:
					case err != nil:
						say("caller %d, operation %d: writing %d bytes: %v", i, k, o.n, err)
					case tooBig:
						say("caller %d, operation %d: writing %d bytes (%d encoded) succeeds, the server announced %d bytes, %d chunks", i, k, o.n, len(b), maxMsg, maxCh)
					case len(r.Results) != 1 || int(r.Results[0]) != o.n:
						say("caller %d, operation %d: writing %d bytes gives %v", i, k, o.n, r.Results)
					}
				}
				f()
				mu.Lock()
				stop := bad != ""
				mu.Unlock()
				if stop {
					return
				}
			}
		}()
	}
	wg.Wait()
	if e := perr(); e != "" {
		failf("%s", e)
	}
	cctx, f2 := context.WithTimeout(context.Background(), 10*time.Second)
	defer f2()
	if err := cl.Close(cctx); err != nil {
		failf("closing: %v", err)
	}
	fake.Stop()
	stopped = true
	if e := perr(); e != "" {
		failf("%s", e)
	}
	ren := 0
	for _, p := range peers {
		ren += p.Renewals
	}
	for h, n := range got {
		if n > 3 { // handles restart per connection: discovery and session
			failf("request %d arrives %d times", h, n)
		}
	}
	c.Label(secName(sec))
	if ren > 0 {
		c.Label("renewed")
	}
	c.NT(strings.Join(hist, ";"))
}

// tpClient attacks the responses a client gets.
func tpClient(c *kit.C) {
	t := c.T
	useWorld("r2048_1")
	srv := pki.App("urn:verif:fake", "r2048_1")
	sec := drawSec(t, true)
	if sec.Client.RSA().Size() != 256 {
		sec.Client = pki.App("urn:verif:client", "r2048_2")
	}
	fake, err := wire.NewFake(srv, wire.Sec{Policy: sec.Policy, Mode: sec.Mode})
	if err != nil {
		kit.Infra("%v", err)
	}
	hist := []string{secName(sec)}
	note := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
	failf := func(f string, a ...any) { c.Failf("%s (%s)", fmt.Sprintf(f, a...), strings.Join(hist, "; ")) }
	const evil = "EVIL"
	const attackNode = 1 << 20
	life := uint32(pick(t, "life", 3600000, 20))
	before := rapid.IntRange(0, 4).Draw(t, "before")
	kind := rapid.IntRange(0, 9).Draw(t, "attack")
	pad := strings.Repeat("x", rapid.IntRange(0, 60).Draw(t, "pad"))
	var raws [][]byte
	var opens [][]byte
	tokens := []uint32{}
	what := ""
	turns := newTurns()
	attack := func(p *wire.Peer, m *wire.Msg, x any) {
		body := func(v string) []byte {
			b, err := wire.EncodeMsg(&ua.ReadResponse{ResponseHeader: wire.Reply(x), Results: []ua.DataValue{{Value: v}}})
			if err != nil {
				kit.Infra("%v", err)
			}
			return b
		}
		keys := p.SendKeys[p.Token]
		stall := false
		switch kind {
		default:
			chs := p.Chunk("MSG", m.ReqID, body(evil+pad), drawSizes(t, 60))
			i := rapid.IntRange(0, len(chs)-1).Draw(t, "which")
			chs[i], what, stall = alter(t, chs[i], 16, p.Suite.MacSize, raws)
			what = fmt.Sprintf("chunk %d of %d: %s", i, len(chs), what)
			for _, r := range chs {
				p.Write(r)
			}
		case 4:
			k := *keys
			switch rapid.IntRange(0, 4).Draw(t, "keys") {
			case 0:
				k, what = *p.Suite.Derive(wire.Nonce(32), wire.Nonce(32)), "random keys"
			case 1:
				k, what = *p.RecvKeys[p.Token], "the keys of the client"
			case 2:
				k.Sig, what = p.RecvKeys[p.Token].Sig, "the signing key of the client"
			case 3:
				k, what = *p.Suite.Derive(nil, nil), "keys of empty nonces"
			case 4:
				k.Sig, what = make([]byte, len(k.Sig)), "a zero signing key"
			}
			what = "sealed with " + what
			p.Write(p.SealToken("MSGF", p.Token, &k, p.NextSeq(), m.ReqID, body(evil), -1))
		case 5:
			md := p.Mode
			if p.Mode = wire.ModeNone; md == wire.ModeSignAndEncrypt && rapid.Bool().Draw(t, "signed") {
				p.Mode = wire.ModeSign
			}
			what = fmt.Sprintf("sealed in mode %d", p.Mode)
			p.Write(p.Seal("MSGF", p.NextSeq(), m.ReqID, body(evil)))
			p.Mode = md
		case 6:
			tok, ch, k := p.Token, p.ID, keys
			switch h := rapid.IntRange(0, 3).Draw(t, "header"); {
			case h == 0:
				p.ID = pick(t, "channel", ch+1, ch-1, 0, 1<<32-1)
				what = fmt.Sprintf("channel id %d", p.ID)
			case h == 1 || len(tokens) < 3:
				tok = pick(t, "token", tok+10, tok+77, 0, 1<<32-1)
				what = fmt.Sprintf("token %d instead of %d", tok, p.Token)
			case h == 2:
				// the current keys under an earlier token
				tok = tokens[rapid.IntRange(0, len(tokens)-2).Draw(t, "old")]
				what = fmt.Sprintf("earlier token %d, keys of %d", tok, p.Token)
			case h == 3:
				k = p.SendKeys[tokens[0]]
				what = "keys of an earlier token"
			}
			b := p.SealToken("MSGF", tok, k, p.NextSeq(), m.ReqID, body(evil), -1)
			p.ID = ch
			p.Write(b)
		case 7:
			if len(raws) == 0 {
				what = "nothing to replay"
				return
			}
			i := rapid.IntRange(0, len(raws)-1).Draw(t, "replay")
			what = fmt.Sprintf("chunk %d of %d sent again", i, len(raws))
			for _, r := range raws[i:] {
				p.Write(r)
			}
			p.Write(p.SealToken("MSGF", p.Token, keys, p.NextSeq(), m.ReqID, body(evil), -1))
		case 8:
			chs := p.Chunk("MSG", m.ReqID, body(evil+pad), []int{10, 10})
			switch rapid.IntRange(0, 4).Draw(t, "order") {
			case 0:
				chs[0], chs[1], what = chs[1], chs[0], "chunks swapped"
			case 1:
				chs, what = chs[1:], "first chunk missing"
			case 2:
				chs, what = append(chs[:1:1], chs[2:]...), "chunk missing"
			case 3:
				chs, what = append(chs[:1:1], chs...), "chunk doubled"
			case 4:
				p.Seq += uint32(pick(t, "skip", 1, -2, 1000, -1000, 1<<30))
				chs, what = [][]byte{p.Seal("MSGF", p.NextSeq(), m.ReqID, body(evil))}, "sequence numbers skipped"
			}
			for _, r := range chs {
				p.Write(r)
			}
		case 9:
			// an opening nobody asked for
			res := &ua.OpenSecureChannelResponse{ResponseHeader: wire.Reply(x), SecurityToken: ua.ChannelSecurityToken{ChannelID: p.ID, TokenID: p.Token + 1, CreatedAt: time.Now(), RevisedLifetime: 60000}, ServerNonce: ua.ByteString(wire.Nonce(p.Suite.NonceLen))}
			b, _ := wire.EncodeMsg(res)
			o := *p.Channel
			switch rapid.IntRange(0, 3).Draw(t, "opening") {
			case 0:
				o.Key, what = pki.Key("r2048_5"), "a channel opened with another key"
			case 1:
				what = "an opening sent again"
			case 2:
				o.Suite, what = wire.SuiteFor(wire.None), "a channel opened without security"
			case 3:
				b, _ = wire.EncodeMsg(&ua.ReadResponse{ResponseHeader: wire.Reply(x), Results: []ua.DataValue{{Value: evil}}})
				o.Suite, what = wire.SuiteFor(wire.None), "a response in an unsecured opening message"
			}
			if what == "an opening sent again" {
				p.Write(opens[len(opens)-1])
			} else {
				p.Write(o.SealAsym("OPNF", o.NextSeq(), m.ReqID, b))
			}
			p.Seq = o.Seq
			p.Write(p.SealToken("MSGF", p.Token, keys, p.NextSeq(), m.ReqID, body(evil), -1))
		}
		if stall {
			p.Write(make([]byte, 70000))
		}
	}
	done := make(chan struct{})
	var once sync.Once
	fake.Serve = csServe(func(p *wire.Peer, m *wire.Msg, x any) bool {
		r, ok := x.(*ua.ReadRequest)
		if !ok || len(r.NodesToRead) != 1 {
			return false
		}
		id, _ := r.NodesToRead[0].NodeID.(ua.NodeIDNumeric)
		if len(tokens) == 0 || tokens[len(tokens)-1] != p.Token {
			tokens = append(tokens, p.Token)
		}
		if id.ID >= attackNode {
			first := false
			once.Do(func() { first = true })
			if !first {
				return true // silence
			}
			defer close(done)
			turns.do(func() { p.Locked(func() { attack(p, m, x) }) })
			return true
		}
		b, _ := wire.EncodeMsg(&ua.ReadResponse{ResponseHeader: wire.Reply(x), Results: []ua.DataValue{{Value: fmt.Sprint("ok", id.ID)}}})
		p.Locked(func() {
			for _, k := range p.Chunk("MSG", m.ReqID, b, []int{}) {
				raws = append(raws, k)
				p.Write(k)
			}
		})
		return true
	}, func(p *wire.Peer) {
		p.Lifetime = life
		p.OnOpen = func(_ *wire.Peer, m *wire.Msg, r *ua.OpenSecureChannelRequest) (bool, error) {
			tap := &tapConn{Conn: p.Conn}
			p.Conn = tap
			err := p.Opened(m, r)
			p.Conn = tap.Conn
			opens = append(opens, tap.b)
			if err == nil {
				err = p.Write(tap.b)
			}
			return true, err
		}
	})
	fake.Start(nil)
	defer func() { close(turns.gone); fake.Stop() }()
	ctx, f := context.WithTimeout(context.Background(), 30*time.Second)
	defer f()
	cl, err := client.Dial(ctx, fake.URL, csOpts(sec, client.WithInsecureSkipVerify())...)
	if err != nil {
		failf("dialling a proper server: %v", err)
	}
	defer cl.Abort(context.Background())
	read := func(ctx context.Context, n uint32) (string, error) {
		r, err := cl.Read(ctx, &ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: ua.NewNodeIDNumeric(1, n), AttributeID: ua.AttributeIDValue}}})
		if err != nil {
			return "", err
		}
		if len(r.Results) == 0 {
			return "", nil
		}
		return fmt.Sprint(r.Results[0].Value), nil
	}
	for i := 0; i < before; i++ {
		if life < 1000 {
			time.Sleep(16 * time.Millisecond)
		}
		if v, err := read(ctx, uint32(i)); err != nil || v != fmt.Sprint("ok", i) {
			failf("a proper response gives %q, %v", v, err)
		}
	}
	actx, f2 := context.WithTimeout(ctx, 5*time.Second)
	defer f2()
	var v string
	turns.until(func() { v, err = read(actx, attackNode) })
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		failf("the request does not arrive: %v", err)
	}
	note("%d responses before, lifetime %d: %s", before, life, what)
	if what == "nothing to replay" {
		return
	}
	if err == nil {
		failf("a tampered response is accepted: %q", v)
	}
	// the channel is closed
	if actx.Err() != nil {
		failf("the channel stays open")
	}
	bctx, f3 := context.WithTimeout(ctx, 5*time.Second)
	defer f3()
	if v, err := read(bctx, attackNode); err == nil || bctx.Err() != nil {
		failf("the channel stays open after the attack (%q, %v)", v, err)
	}
	c.Label(fmt.Sprintf("attack%d", kind))
	c.NT(strings.Join(hist, "; "))
}

// tpDial lets a client dial a server that does not have the key of the certificate, or answers the opening wrongly.
func tpDial(c *kit.C) {
	t := c.T
	useWorld("r2048_1")
	cert := pki.App("urn:verif:fake", "r2048_1")
	sec := drawSec(t, true)
	if sec.Client.RSA().Size() != 256 {
		sec.Client = pki.App("urn:verif:client", "r2048_2")
	}
	fake, err := wire.NewFake(cert, wire.Sec{Policy: sec.Policy, Mode: sec.Mode})
	if err != nil {
		kit.Infra("%v", err)
	}
	kind := pick(t, "kind", "none", "altered", "altered", "forged", "replayed", "unsecured", "session", "session", "endpoint", "certificate", "nonce")
	what := kind
	turns := newTurns()
	conns := 0
	session := func(p *wire.Peer, r *ua.CreateSessionRequest, y *ua.CreateSessionResponse) {
		if kind == "certificate" {
			o := pki.App("urn:verif:other", "r2048_4")
			y.ServerCertificate = ua.ByteString(o.DER)
			if rapid.Bool().Draw(t, "key") {
				y.ServerSignature.Signature = ua.ByteString(p.Suite.Sign(o.RSA(), append([]byte(r.ClientCertificate), []byte(r.ClientNonce)...)))
			}
			what = "the session names another certificate"
			return
		}
		sig := []byte(y.ServerSignature.Signature)
		data := append([]byte(r.ClientCertificate), []byte(r.ClientNonce)...)
		switch k := rapid.IntRange(0, 5).Draw(t, "spoil"); k {
		case 0:
			i := rapid.IntRange(0, len(sig)*8-1).Draw(t, "bit")
			sig[i/8] ^= 1 << (i % 8)
			what = "a bit of the session signature flipped"
		case 1:
			sig, what = nil, "no session signature"
		case 2:
			sig, what = p.Suite.Sign(pki.Key("r2048_5"), data), "the session signed with another key"
		case 3:
			sig, what = p.Suite.Sign(p.Key, append([]byte(r.ClientCertificate), wire.Nonce(32)...)), "the session signature is for another nonce"
		case 4:
			sig, what = p.Suite.Sign(p.Key, []byte(r.ClientNonce)), "the session signature is for the nonce only"
		case 5:
			sig, what = p.Suite.Sign(p.Key, append(append([]byte{}, cert.DER...), []byte(r.ClientNonce)...)), "the session signature is for the own certificate"
		}
		y.ServerSignature.Signature = ua.ByteString(sig)
	}
	open := func(p *wire.Peer, m *wire.Msg, r *ua.OpenSecureChannelRequest) (bool, error) {
		good := p.Key
		tap := &tapConn{Conn: p.Conn}
		switch kind {
		case "forged":
			p.Key, what = pki.Key("r2048_5"), "the opening signed with another key"
		case "nonce":
			// too short
			what = "a server nonce that is too short"
			p.Suite, p.Mode, p.RemoteCert = wire.SuiteFor(m.Policy), r.SecurityMode, m.Cert
			n := wire.Nonce(rapid.IntRange(0, p.Suite.NonceLen-1).Draw(t, "n"))
			p.ID, p.Token = 77, 1
			p.SendKeys[1], p.RecvKeys[1] = p.Suite.Derive([]byte(r.ClientNonce), n), p.Suite.Derive(n, []byte(r.ClientNonce))
			b, _ := wire.EncodeMsg(&ua.OpenSecureChannelResponse{ResponseHeader: wire.Reply(r), SecurityToken: ua.ChannelSecurityToken{ChannelID: 77, TokenID: 1, RevisedLifetime: 60000}, ServerNonce: ua.ByteString(n)})
			return true, p.Write(p.SealAsym("OPNF", p.NextSeq(), m.ReqID, b))
		}
		p.Conn = tap
		err := p.Opened(m, r)
		p.Conn, p.Key = tap.Conn, good
		if err != nil {
			return true, err
		}
		b := tap.b
		switch kind {
		case "altered":
			b, what, _ = alter(t, b, len(p.AsymHeader("OPNF")), 256, nil)
		case "replayed":
			// for another request: with another client nonce
			o := *p.Channel
			x, _ := wire.EncodeMsg(&ua.OpenSecureChannelResponse{ResponseHeader: ua.ResponseHeader{RequestHandle: r.RequestHandle + 1}, SecurityToken: ua.ChannelSecurityToken{ChannelID: 77, TokenID: 1, RevisedLifetime: 60000}, ServerNonce: ua.ByteString(wire.Nonce(p.Suite.NonceLen))})
			b, what = o.SealAsym("OPNF", 1, m.ReqID+1, x), "the opening of another request"
		case "unsecured":
			o := *p.Channel
			o.Suite = wire.SuiteFor(wire.None)
			x, _ := wire.EncodeMsg(&ua.OpenSecureChannelResponse{ResponseHeader: wire.Reply(r), SecurityToken: ua.ChannelSecurityToken{ChannelID: 77, TokenID: 1, RevisedLifetime: 60000}, ServerNonce: ua.ByteString(wire.Nonce(p.Suite.NonceLen))})
			b, what = o.SealAsym("OPNF", 1, m.ReqID, x), "an unsecured opening"
		}
		return true, p.Write(b)
	}
	fake.Serve = csServe(func(p *wire.Peer, m *wire.Msg, x any) bool {
		r, ok := x.(*ua.CreateSessionRequest)
		if !ok || kind != "session" && kind != "certificate" {
			return false
		}
		y := p.Usual(r).(*ua.CreateSessionResponse)
		turns.do(func() { session(p, r, y) })
		p.Answer(m.ReqID, y)
		return true
	}, func(p *wire.Peer) {
		conns++
		if conns != 2 {
			return
		}
		p.OnOpen = func(_ *wire.Peer, m *wire.Msg, r *ua.OpenSecureChannelRequest) (ok bool, err error) {
			if !turns.do(func() { ok, err = open(p, m, r) }) {
				return true, net.ErrClosed
			}
			return ok, err
		}
	})
	if kind == "endpoint" {
		// the discovery names the certificate of somebody else, whose key the server does not have
		fake.Endpoints[0].ServerCertificate = ua.ByteString(pki.App("urn:verif:other", "r2048_4").DER)
		what = "the endpoint has another certificate"
	}
	fake.Start(nil)
	defer func() { close(turns.gone); fake.Stop() }()
	limit := 1500 * time.Millisecond
	if kind == "none" {
		limit = 20 * time.Second
	}
	ctx, f := context.WithTimeout(context.Background(), limit)
	defer f()
	var cl *client.Client
	turns.until(func() { cl, err = client.Dial(ctx, fake.URL, csOpts(sec, client.WithInsecureSkipVerify())...) })
	if err == nil {
		defer cl.Abort(context.Background())
	}
	if kind == "none" {
		if err != nil {
			c.Failf("dialling a proper server: %v (%s)", err, secName(sec))
		}
	} else if err == nil {
		c.Failf("the client opens a session although %s (%s)", what, secName(sec))
	}
	c.Label(kind)
	c.NT(secName(sec) + what)
}
