package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"
	"time"

	"verif/harness/kit"
	"verif/harness/pki"
	"verif/harness/wire"

	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// Tampering with secured traffic.

func setLen(b []byte) []byte {
	binary.LittleEndian.PutUint32(b[4:], uint32(len(b)))
	return b
}

// alter changes the bytes of a sealed chunk; stall says that the receiver may wait for more bytes.
func alter(t *rapid.T, raw []byte, head, mac int, others [][]byte) (out []byte, what string, stall bool) {
	b := append([]byte(nil), raw...)
	n := len(b)
	pos := func(l string) int {
		switch rapid.IntRange(0, 4).Draw(t, l) {
		case 0:
			return rapid.IntRange(0, min(head, n)-1).Draw(t, l+"h")
		case 1:
			return rapid.IntRange(max(n-mac, 0), n-1).Draw(t, l+"s")
		case 2:
			return rapid.IntRange(min(head, n-1), min(head+40, n-1)).Draw(t, l+"b")
		default:
			return rapid.IntRange(0, n-1).Draw(t, l+"p")
		}
	}
	switch rapid.IntRange(0, 9).Draw(t, "alteration") {
	default:
		p := pos("at")
		bit := rapid.IntRange(0, 7).Draw(t, "bit")
		b[p] ^= 1 << bit
		return b, fmt.Sprintf("bit %d of byte %d of %d flipped", bit, p, n), p >= 4 && p < 8
	case 3:
		k := rapid.IntRange(2, 6).Draw(t, "flips")
		for ; k > 0; k-- {
			p := pos("at")
			if p >= 4 && p < 8 {
				continue
			}
			b[p] = rapid.Byte().Draw(t, "byte")
		}
		if bytes.Equal(b, raw) {
			b[n-1] ^= 1
		}
		return b, "bytes overwritten", false
	case 4:
		k := min(pick(t, "cut", 1, 16, mac, 32, rapid.IntRange(1, n-8).Draw(t, "n")), n-8)
		return setLen(b[:n-k]), fmt.Sprintf("cut off %d of %d bytes", k, n), false
	case 5:
		k := pick(t, "more", 16, 1, mac, 32)
		return setLen(append(b, make([]byte, k)...)), fmt.Sprintf("%d zero bytes appended", k), false
	case 6:
		if n >= head+48 {
			k := (n - head) / 16
			i, j := rapid.IntRange(0, k-1).Draw(t, "i"), rapid.IntRange(0, k-1).Draw(t, "j")
			x := append([]byte(nil), b[head+16*i:head+16*i+16]...)
			copy(b[head+16*i:], b[head+16*j:head+16*j+16])
			copy(b[head+16*j:], x)
		}
		if bytes.Equal(b, raw) {
			b[n-1] ^= 1
		}
		return b, "blocks swapped", false
	case 7:
		for i := max(n-mac, 0); i < n; i++ {
			b[i] = 0
		}
		if bytes.Equal(b, raw) {
			b[n-1] ^= 1
		}
		return b, "signature zeroed", false
	case 8:
		if len(others) > 0 {
			o := others[rapid.IntRange(0, len(others)-1).Draw(t, "other")]
			if len(o) >= mac {
				copy(b[n-mac:], o[len(o)-mac:])
			}
		}
		if bytes.Equal(b, raw) {
			b[n-1] ^= 1
		}
		return b, "signature of another chunk", false
	case 9:
		if len(others) > 0 {
			o := others[rapid.IntRange(0, len(others)-1).Draw(t, "other")]
			b = setLen(append(append([]byte(nil), b[:head]...), o[min(head, len(o)):]...))
			if !bytes.Equal(b, raw) && !bytes.Equal(b, o) {
				return b, "body of another chunk", false
			}
		}
		b = append([]byte(nil), raw...)
		b[n-1] ^= 1
		return b, "last bit flipped", false
	}
}

func tpServer(c *kit.C) {
	t := c.T
	useWorld("r2048_1")
	sec := drawSec(t, true)
	if sec.Client.RSA().Size() > 256 && rapid.IntRange(0, 3).Draw(t, "small") > 0 {
		sec.Client = pki.App("urn:verif:client", "r2048_2")
	}
	s, err := wire.NewSessionAs(w.Addr, w.URL, sec, func(s *wire.Session) wire.Identity { return s.Anonymous() })
	if err != nil {
		c.Failf("no session with %s: %v", secName(sec), err)
	}
	defer s.Drop()
	cl := s.Client
	vs, rm := newVals(1)
	defer rm()
	hist := []string{secName(sec)}
	note := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
	failf := func(f string, a ...any) { c.Failf("%s (%s)", fmt.Sprintf(f, a...), strings.Join(hist, "; ")) }
	body := func(v string) []byte {
		// like the request of an ordinary client, padded to a random length
		b, err := wire.EncodeMsg(&ua.WriteRequest{RequestHeader: s.Header(), NodesToWrite: []ua.WriteValue{{NodeID: vs[0].NodeID(), AttributeID: ua.AttributeIDValue, Value: ua.DataValue{Value: ua.ByteString(v)}}}})
		if err != nil {
			kit.Infra("%v", err)
		}
		return b
	}
	val := func() string { b, _ := vs[0].Value().Value.(ua.ByteString); return string(b) }
	var raws, opns [][]byte
	send := func(b []byte) {
		if err := cl.Write(b); err != nil {
			failf("a chunk cannot be sent: %v", err)
		}
	}
	tokens := []uint32{cl.CurrentToken()}
	pad := func() string { return strings.Repeat("x", rapid.IntRange(0, 60).Draw(t, "pad")) }
	for k := rapid.IntRange(0, 4).Draw(t, "before"); k > 0; k-- {
		if rapid.IntRange(0, 3).Draw(t, "renew") == 0 {
			note("renewal")
			if err := cl.Renew(); err != nil {
				failf("no renewal: %v", err)
			}
			tokens = append(tokens, cl.CurrentToken())
		}
		v := fmt.Sprint("ok", k, pad())
		b := body(v)
		sizes := []int{}
		if rapid.Bool().Draw(t, "chunks") {
			sizes = []int{20, 30}
		}
		chs := cl.Chunk("MSG", cl.NextID(), b, sizes)
		note("write in %d chunks", len(chs))
		for _, r := range chs {
			raws = append(raws, r)
			send(r)
		}
		end := time.Now().Add(10 * time.Second)
		for val() != v {
			if time.Now().After(end) {
				failf("a proper write is not executed")
			}
			time.Sleep(200 * time.Microsecond)
		}
	}
	const marker = "marker"
	vs[0].SetValue(ua.NewDataValue(ua.ByteString(marker), 0, time.Now(), 0, time.Now(), 0))
	evil := "EVIL" + pad()
	var what string
	stall := false
	id := cl.NextID()
	keys := cl.SendKeys[cl.CurrentToken()]
	kind := rapid.IntRange(0, 10).Draw(t, "attack")
	switch kind {
	default:
		chs := cl.Chunk("MSG", id, body(evil), drawSizes(t, 60))
		i := rapid.IntRange(0, len(chs)-1).Draw(t, "which")
		chs[i], what, stall = alter(t, chs[i], 16, cl.Suite.MacSize, raws)
		what = fmt.Sprintf("chunk %d of %d: %s", i, len(chs), what)
		for _, r := range chs {
			cl.Write(r)
		}
	case 4:
		k := *keys
		switch rapid.IntRange(0, 4).Draw(t, "keys") {
		case 0:
			k, what = *cl.Suite.Derive(wire.Nonce(32), wire.Nonce(32)), "random keys"
		case 1:
			k, what = *cl.RecvKeys[cl.CurrentToken()], "the keys of the other side"
		case 2:
			k.Sig, what = cl.RecvKeys[cl.CurrentToken()].Sig, "the signing key of the other side"
		case 3:
			k, what = *cl.Suite.Derive(nil, nil), "keys of empty nonces"
		case 4:
			k.Sig, what = make([]byte, len(k.Sig)), "a zero signing key"
		}
		what = "sealed with " + what
		cl.Write(cl.SealToken("MSGF", cl.CurrentToken(), &k, cl.NextSeq(), id, body(evil), -1))
	case 5:
		// without security
		m := cl.Mode
		if cl.Mode = wire.ModeNone; m == wire.ModeSignAndEncrypt && rapid.Bool().Draw(t, "signed") {
			cl.Mode = wire.ModeSign
		}
		what = fmt.Sprintf("sealed in mode %d", cl.Mode)
		cl.Write(cl.Seal("MSGF", cl.NextSeq(), id, body(evil)))
		cl.Mode = m
	case 6:
		tok, ch := cl.CurrentToken(), cl.ID
		k := keys
		switch rapid.IntRange(0, 3).Draw(t, "header") {
		case 0:
			cl.ID = pick(t, "channel", ch+1, ch-1, 0, 1<<32-1)
			what = fmt.Sprintf("channel id %d", cl.ID)
		case 1:
			tok = pick(t, "token", tok+1, tok+2, 0, 1<<32-1)
			what = fmt.Sprintf("token %d instead of %d", tok, cl.CurrentToken())
		case 2:
			if len(tokens) < 2 {
				tok++
				what = "next token"
			} else {
				tok = tokens[rapid.IntRange(0, len(tokens)-2).Draw(t, "old")]
				what = fmt.Sprintf("earlier token %d, keys of %d", tok, cl.CurrentToken())
			}
		case 3:
			if len(tokens) < 2 {
				tok++
				what = "next token"
			} else {
				k = cl.SendKeys[tokens[0]]
				what = "keys of an earlier token"
			}
		}
		b := cl.SealToken("MSGF", tok, k, cl.NextSeq(), id, body(evil), -1)
		cl.ID = ch
		cl.Write(b)
	case 7:
		if len(raws) == 0 {
			b := body(marker)
			raws = append(raws, cl.Seal("MSGF", cl.NextSeq(), id, b))
			cl.Write(raws[0])
		}
		i := rapid.IntRange(0, len(raws)-1).Draw(t, "replay")
		what = fmt.Sprintf("chunk %d of %d sent again", i, len(raws))
		for _, r := range raws[i:] {
			cl.Write(r)
		}
	case 8:
		// out of order
		chs := cl.Chunk("MSG", id, body(evil), []int{30, 30})
		switch rapid.IntRange(0, 4).Draw(t, "order") {
		case 0:
			chs[0], chs[1], what = chs[1], chs[0], "chunks swapped"
		case 1:
			chs, what = chs[1:], "first chunk missing"
		case 2:
			chs, what = append(chs[:1:1], chs[2:]...), "chunk missing"
		case 3:
			chs, what = append(chs[:1:1], chs...), "chunk doubled"
		case 4:
			cl.Seq += uint32(pick(t, "skip", 1, -2, 1000, -1000, 1<<30))
			chs, what = [][]byte{cl.Seal("MSGF", cl.NextSeq(), id, body(evil))}, "sequence numbers skipped"
		}
		for _, r := range chs {
			cl.Write(r)
		}
	case 10:
		// a message whose kind and body disagree
		req := ua.ServiceRequest(&ua.OpenSecureChannelRequest{RequestType: pick(t, "type", ua.SecurityTokenRequestTypeRenew, ua.SecurityTokenRequestTypeIssue), SecurityMode: ua.MessageSecurityMode(cl.Mode), ClientNonce: ua.ByteString(wire.Nonce(32)), RequestedLifetime: 3600000})
		k := "MSGF"
		b, err := wire.EncodeMsg(req)
		if err != nil {
			kit.Infra("%v", err)
		}
		what = fmt.Sprintf("%T in a %s chunk", req, k)
		cl.Write(cl.Seal(k, cl.NextSeq(), id, b))
	case 9:
		// a chunk of another channel of the same client
		o, err := wire.NewSessionAs(w.Addr, w.URL, sec, func(s *wire.Session) wire.Identity { return s.Anonymous() })
		if err != nil {
			failf("no second session: %v", err)
		}
		defer o.Drop()
		o.Seq = cl.Seq
		r := o.Seal("MSGF", o.NextSeq(), id, body(evil))
		what = "chunk of another channel"
		if rapid.Bool().Draw(t, "patched") {
			copy(r[8:16], cl.Seal("MSGF", 1, id, nil)[8:16])
			what += " with the ids of this one"
		}
		cl.Write(r)
	}
	_ = opns
	note("%s", what)
	if stall {
		go cl.Write(make([]byte, 70000))
	}
	select {
	case <-cl.DeadCh():
	case <-time.After(15 * time.Second):
		if v := val(); v != marker {
			failf("a tampered request was executed")
		}
		failf("the channel stays open")
	}
	if v := val(); v != marker {
		failf("a tampered request was executed: the value is %q", v)
	}
	c.Label(fmt.Sprintf("attack%d", kind))
	c.NT(strings.Join(hist, "; "))
}

// tpOpen attacks the opening and renewal of channels.
func tpOpen(c *kit.C) {
	t := c.T
	useWorld(pick(t, "server", "r2048_1", "r2048_1", "r1024_2"))
	sec := drawSec(t, true)
	if sec.Client.RSA().Size() > 256 && rapid.IntRange(0, 3).Draw(t, "small") > 0 {
		sec.Client = pki.App("urn:verif:client", "r2048_2")
	}
	renew := rapid.IntRange(0, 2).Draw(t, "renewal") == 0
	cl, err := wire.Dial(w.Addr, w.URL, wire.DefaultLimits, sec)
	if err != nil {
		c.Failf("no connection: %v", err)
	}
	defer cl.Drop()
	cl.Timeout = 15 * time.Second
	var first []byte
	if renew {
		b, _ := wire.EncodeMsg(cl.OpenRequest(false))
		first = cl.SealAsym("OPNF", cl.NextSeq(), cl.NextID(), b)
		cl.Write(first)
		m, err := cl.Recv(cl.Timeout)
		if err == nil {
			_, err = cl.Opened(m)
		}
		if err != nil {
			c.Failf("a proper channel with %s is refused: %v", secName(sec), err)
		}
		if rapid.Bool().Draw(t, "used") {
			r, _ := wire.EncodeMsg(&ua.GetEndpointsRequest{RequestHeader: ua.RequestHeader{Timestamp: time.Now(), RequestHandle: 5}})
			cl.Write(cl.Seal("MSGF", cl.NextSeq(), cl.NextID(), r))
			if _, err := cl.Recv(cl.Timeout); err != nil {
				c.Failf("a proper request is not answered: %v", err)
			}
		}
	}
	req := cl.OpenRequest(renew)
	seal := func() []byte {
		b, err := wire.EncodeMsg(req)
		if err != nil {
			kit.Infra("%v", err)
		}
		return cl.SealAsym("OPNF", cl.NextSeq(), cl.NextID(), b)
	}
	var raw []byte
	what, stall := "", false
	kind := rapid.IntRange(0, 7).Draw(t, "attack")
	switch kind {
	default:
		raw = seal()
		raw, what, stall = alter(t, raw, len(cl.AsymHeader("OPNF")), 128, nil)
	case 2:
		req.SecurityMode = pick(t, "mode", wire.ModeNone, 0, 4, ua.MessageSecurityMode(-1), ua.MessageSecurityMode(1<<30))
		if renew && rapid.Bool().Draw(t, "other") {
			req.SecurityMode = 5 - cl.Mode // Sign and SignAndEncrypt swapped
		}
		what = fmt.Sprintf("mode %d", req.SecurityMode)
		raw = seal()
	case 3:
		n := pick(t, "nonce", 0, cl.Suite.NonceLen-1, 1, rapid.IntRange(0, cl.Suite.NonceLen-1).Draw(t, "n"))
		req.ClientNonce = ua.ByteString(wire.Nonce(n))
		what = fmt.Sprintf("nonce of %d bytes", n)
		raw = seal()
	case 4:
		// the certificate of somebody else, signed with the own key
		o := pki.App("urn:verif:client", "r2048_4")
		cl.Key = pki.Key("r2048_5")
		if renew && rapid.Bool().Draw(t, "switch") {
			cl.Key = o.RSA()
			what = "renewal with another certificate"
		} else if what = "a certificate without its key"; renew {
			o = sec.Client
		}
		cl.Cert = o.DER
		if len(cl.Cert) == 0 {
			kit.Infra("no certificate")
		}
		raw = seal()
	case 5:
		// encrypted for somebody else
		h := cl.AsymHeader("OPNF")
		o := *cl.Channel
		o.RemoteCert = pki.App("urn:verif:server", "r2048_6").DER
		b, _ := wire.EncodeMsg(req)
		raw = o.SealAsym("OPNF", cl.NextSeq(), cl.NextID(), b)
		copy(raw[8:], h[8:])
		what = "encrypted with another key"
	case 6:
		// no or another policy
		o := *cl.Channel
		uri := pick(t, "policy", append([]string{wire.None, wire.None, "", "http://opcfoundation.org/UA/SecurityPolicy#X", "none"}, wire.Policies...)...)
		if s := wire.SuiteFor(uri); s != nil && (renew && uri != sec.Policy || uri == wire.None) {
			o.Suite = s
		} else {
			if s != nil {
				uri += "x"
			}
			x := *o.Suite
			x.URI = uri
			o.Suite = &x
		}
		what = "policy " + uri
		b, _ := wire.EncodeMsg(req)
		raw = o.SealAsym("OPNF", cl.NextSeq(), cl.NextID(), b)
	case 7:
		if !renew {
			// a request before the channel is open
			r, _ := wire.EncodeMsg(&ua.GetEndpointsRequest{RequestHeader: ua.RequestHeader{Timestamp: time.Now(), RequestHandle: 5}})
			k := cl.Suite.Derive(nil, nil)
			if rapid.Bool().Draw(t, "plain") {
				cl.Mode = wire.ModeNone
			}
			cl.ID = uint32(rapid.IntRange(0, 3).Draw(t, "id"))
			raw = cl.SealToken("MSGF", 0, k, cl.NextSeq(), cl.NextID(), r, -1)
			cl.Mode = sec.Mode
			what = "a request before the channel is open"
		} else if rapid.Bool().Draw(t, "replay") {
			raw, what = first, "the open request sent again"
		} else {
			cl.Seq += uint32(pick(t, "skip", 1, -2, 77, -1000))
			raw, what = seal(), "sequence number skipped"
		}
	}
	what = fmt.Sprintf("%s renewal %v: %s", secName(sec), renew, what)
	cl.Write(raw)
	if stall {
		go cl.Write(make([]byte, 70000))
	}
	end := time.Now().Add(15 * time.Second)
	for {
		b, err := cl.ReadRaw(time.Until(end))
		if err != nil {
			if time.Now().After(end) {
				c.Failf("the connection stays open (%s)", what)
			}
			break
		}
		if string(b[:3]) != "ERR" {
			c.Failf("%s arrives (%s)", b[:4], what)
		}
	}
	c.Label(fmt.Sprintf("attack%d", kind))
	c.NT(what + fmt.Sprintf("%x", raw))
}

func init() {
	kit.Register(&kit.Check{
		ID:          "C06",
		Rule:        "server: on a secured channel with some proper requests and renewals, one attack (bits flipped, chunks cut, extended, spliced, doubled, missing, reordered, replayed, sealed with other keys, modes, tokens or for another channel) against a request whose execution would be visible; open: the same for opening and renewal, with modes, policies, nonces and certificates that must be refused; client: the same attacks on the responses to a client; dial: servers without the key of their certificate, spoilt openings and session signatures; non-trivial: distinct attacks",
		Assumptions: []string{},
		Subs: []kit.Sub{{Name: "server", Quick: 1600, Thorough: 100000, Shards: 4, Fn: tpServer},
			{Name: "open", Quick: 1600, Thorough: 100000, Shards: 3, Fn: tpOpen},
			{Name: "client", Quick: 700, Thorough: 60000, Shards: 4, Fn: tpClient},
			{Name: "dial", Quick: 700, Thorough: 60000, Shards: 3, Fn: tpDial}},
	})
}
