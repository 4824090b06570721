package props

import (
	"bytes"
	"context"
	"fmt"
	"strings"
	"sync"
	"time"

	"verif/harness/kit"
	"verif/harness/pki"
	"verif/harness/wire"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// The limits of a connection at the client's end (C08), against the scripted server.

// clClient sends requests around the limits the server announced and lets it answer around the limits of the client.
func clClient(c *kit.C) {
	t := c.T
	useWorld("r2048_1")
	sec := drawSec(t, false)
	if sec.Client != nil {
		sec.Client = pki.App("urn:verif:client", "r2048_2")
	}
	srv := pki.App("urn:verif:fake", "r2048_1")
	buf := func(l string) uint32 {
		return uint32(pick(t, l, 65536, 8192, 8193, 8200, rapid.IntRange(8192, 65536).Draw(t, l+"n"), 70000))
	}
	ack := wire.Limits{Recv: buf("arecv"), Send: buf("asend"), MaxMsg: uint32(pick(t, "amsg", 0, 9000, rapid.IntRange(9000, 90000).Draw(t, "amm"))), MaxChunks: uint32(pick(t, "achunks", 0, 2, 3, 5, rapid.IntRange(2, 9).Draw(t, "amc")))}
	mine := wire.Limits{Recv: buf("mybuf"), MaxMsg: uint32(pick(t, "mymsg", 0, 9000, rapid.IntRange(9000, 90000).Draw(t, "mmm"))), MaxChunks: uint32(pick(t, "mychunks", 0, 2, 3, rapid.IntRange(2, 20).Draw(t, "mmc")))}
	mine.Recv = min(mine.Recv, 65536)
	inSession := uint32(pick(t, "sessionmsg", 0, 0, 9000, rapid.IntRange(9000, 90000).Draw(t, "smm")))
	type arrival struct{ body, chunks, longest int }
	var mu sync.Mutex
	arrived := map[uint32]arrival{} // by node id of the write
	var peers []*wire.Peer
	type reply struct{ n, chunks int }
	want := map[uint32]reply{}
	sent := map[uint32]arrival{}
	hello := ""
	fake, err := wire.NewFake(srv, wire.Sec{Policy: sec.Policy, Mode: sec.Mode})
	if err != nil {
		kit.Infra("%v", err)
	}
	fake.Serve = csServe(func(p *wire.Peer, m *wire.Msg, x any) bool {
		switch r := x.(type) {
		case *ua.WriteRequest:
			mu.Lock()
			arrived[r.NodesToWrite[0].NodeID.(ua.NodeIDNumeric).ID] = arrival{len(m.Body), m.Chunks, m.MaxLen}
			mu.Unlock()
			p.Answer(m.ReqID, &ua.WriteResponse{ResponseHeader: wire.Reply(x), Results: []ua.StatusCode{0}})
			return true
		case *ua.ReadRequest:
			id, ok := r.NodesToRead[0].NodeID.(ua.NodeIDNumeric)
			if !ok || len(r.NodesToRead) != 1 {
				return false
			}
			mu.Lock()
			w := want[id.ID]
			mu.Unlock()
			res := &ua.ReadResponse{ResponseHeader: wire.Reply(x), Results: []ua.DataValue{{Value: ua.ByteString(blob(int64(id.ID), 1))}}}
			b, _ := wire.EncodeMsg(res)
			n := max(w.n-len(b)+1, 1)
			res.Results[0].Value = ua.ByteString(blob(int64(id.ID), n))
			b, _ = wire.EncodeMsg(res)
			p.Locked(func() {
				sizes := []int{}
				for k := w.chunks - 1; k > 0; k-- {
					sizes = append(sizes, max(1, min(len(b)/w.chunks, p.MaxBody(p.MaxChunk))))
				}
				ks := p.Chunk("MSG", m.ReqID, b, sizes)
				mu.Lock()
				sent[id.ID] = arrival{body: len(b), chunks: len(ks), longest: n}
				mu.Unlock()
				for _, k := range ks {
					if p.Write(k) != nil {
						return
					}
				}
			})
			return true
		}
		return false
	}, func(p *wire.Peer) {
		p.Ack, p.MaxMsg = ack, inSession
		mu.Lock()
		peers = append(peers, p)
		mu.Unlock()
	})
	fake.Start(nil)
	defer fake.Stop()
	hist := []string{fmt.Sprintf("%s, the server acknowledges %+v, %d in the session, the client has buffers of %d, messages of %d, %d chunks", secName(sec), ack, inSession, mine.Recv, mine.MaxMsg, mine.MaxChunks)}
	failf := func(f string, a ...any) {
		c.Failf("%s (%s)", fmt.Sprintf(f, a...), strings.Join(hist, "; "))
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cl, err := client.Dial(ctx, fake.URL, csOpts(sec, client.WithInsecureSkipVerify(), client.WithTransportLimits(mine.Recv, mine.MaxMsg, mine.MaxChunks))...)
	if err != nil {
		failf("dialling a proper server: %v", err)
	}
	defer cl.Abort(context.Background())
	mu.Lock()
	for _, p := range peers {
		if h := p.HelloL; p.Session != nil && (h.Recv != mine.Recv || h.Send != mine.Recv || h.MaxMsg != mine.MaxMsg || h.MaxChunks != mine.MaxChunks) {
			hello = fmt.Sprintf("%+v", h)
		}
	}
	mu.Unlock()
	if hello != "" {
		failf("the client says hello with %s", hello)
	}
	mb := (&wire.Channel{Suite: wire.SuiteFor(sec.Policy), Mode: sec.Mode}).MaxBody(int(min(mine.Recv, ack.Recv)))
	rb := (&wire.Channel{Suite: wire.SuiteFor(sec.Policy), Mode: sec.Mode}).MaxBody(int(min(mine.Recv, ack.Send)))
	if inSession > 0 && (ack.MaxMsg == 0 || inSession < ack.MaxMsg) {
		ack.MaxMsg = inSession // from here on
	}
	ops := rapid.IntRange(1, 6).Draw(t, "ops")
	over := 0 // of a write request of one byte
	for k := uint32(1); int(k) <= ops; k++ {
		l := fmt.Sprint("op", k)
		near := func(lim wire.Limits, mb int) int {
			d := rapid.IntRange(-3, 3).Draw(t, l+"d")
			switch {
			case lim.MaxMsg > 0 && rapid.Bool().Draw(t, l+"bymsg"):
				return int(lim.MaxMsg) + d
			case lim.MaxChunks > 0:
				return int(lim.MaxChunks)*mb + d
			}
			return rapid.IntRange(1, 4).Draw(t, l+"m")*mb + d
		}
		if k > 1 && rapid.Bool().Draw(t, l+"read") {
			r := reply{n: near(wire.Limits{MaxMsg: mine.MaxMsg, MaxChunks: mine.MaxChunks}, rb), chunks: 1}
			if mine.MaxChunks > 0 && rapid.Bool().Draw(t, l+"small") {
				r.n, r.chunks = rapid.IntRange(200, 6000).Draw(t, l+"n"), int(mine.MaxChunks)+rapid.IntRange(-1, 1).Draw(t, l+"c")
			}
			mu.Lock()
			want[k] = r
			mu.Unlock()
			x, err := cl.Read(ctx, &ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: ua.NewNodeIDNumeric(1, k), AttributeID: ua.AttributeIDValue}}})
			mu.Lock()
			s := sent[k]
			mu.Unlock()
			hist = append(hist, fmt.Sprintf("a response of %d bytes in %d chunks", s.body, s.chunks))
			if mine.MaxMsg > 0 && s.body > int(mine.MaxMsg) || mine.MaxChunks > 0 && s.chunks > int(mine.MaxChunks) {
				if err == nil {
					failf("a response beyond the limits is accepted")
				}
				c.Label("responses beyond the limits")
				break
			}
			if err != nil {
				failf("a response within the limits is refused: %v", err)
			}
			if v, _ := x.Results[0].Value.(ua.ByteString); !bytes.Equal([]byte(v), blob(int64(k), s.longest)) {
				failf("the response of %d bytes gives %d others", s.longest, len(v))
			}
			c.Label("responses within the limits")
			continue
		}
		n := 1
		if over > 0 {
			n = max(near(ack, mb)-over+1, 1)
		}
		req := &ua.WriteRequest{NodesToWrite: []ua.WriteValue{{NodeID: ua.NewNodeIDNumeric(1, k), AttributeID: ua.AttributeIDValue, Value: ua.DataValue{Value: ua.ByteString(blob(int64(k), n))}}}}
		_, err := cl.Write(ctx, req)
		b, _ := wire.EncodeMsg(req)
		if over == 0 {
			over = len(b)
		}
		hist = append(hist, fmt.Sprintf("a request of %d bytes", len(b)))
		mu.Lock()
		a, got := arrived[k]
		mu.Unlock()
		if ack.MaxMsg > 0 && len(b) > int(ack.MaxMsg) || ack.MaxChunks > 0 && (len(b)+mb-1)/mb > int(ack.MaxChunks) {
			if err == nil || got {
				failf("a request beyond the limits ends with %v, arrives: %v %+v", err, got, a)
			}
			c.Label("requests beyond the limits")
		} else {
			if err != nil {
				failf("a request within the limits fails: %v", err)
			}
			c.Label("requests within the limits")
		}
		for _, p := range peers {
			if p.Err != nil {
				failf("%v", p.Err)
			}
		}
		if got && (ack.MaxMsg > 0 && a.body > int(ack.MaxMsg) || ack.MaxChunks > 0 && a.chunks > int(ack.MaxChunks) || a.longest > int(ack.Recv)) {
			failf("a message of %d bytes in %d chunks of up to %d arrives", a.body, a.chunks, a.longest)
		}
	}
	c.NT(strings.Join(hist, "; "))
}
