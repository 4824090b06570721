package props

import (
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"strings"
	"time"

	"verif/harness/env"
	"verif/harness/kit"
	"verif/harness/pki"
	"verif/harness/wire"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// Secure channels of the server, driven by the independent stack of package wire.

// secOf draws a policy, mode and client key.
func drawSec(t *rapid.T, secured bool) wire.Sec {
	ps := append([]string{}, wire.Policies...)
	if !secured {
		ps = append(ps, wire.None)
	}
	s := wire.Sec{Policy: pick(t, "policy", ps...), Mode: pick(t, "mode", wire.ModeSignAndEncrypt, wire.ModeSign), ServerCert: w.Cert.DER}
	s.Client = pki.App("urn:verif:client", pick(t, "key", "r2048_2", "r2048_2", "r2048_3", "r1024_1", "r4096_2", "r3072_1"))
	if s.Policy == wire.None {
		s.Mode, s.Client, s.ServerCert = wire.ModeNone, nil, nil
	}
	return s
}

func secName(s wire.Sec) string {
	n := fmt.Sprintf("%s/%d", s.Policy[strings.IndexByte(s.Policy, '#')+1:], s.Mode)
	if s.Client != nil {
		n += fmt.Sprintf("/%d", s.Client.RSA().Size()*8)
	}
	return n
}

// slowConn writes in pieces of random sizes.
type slowConn struct {
	net.Conn
	rnd *rand.Rand
}

func (d *slowConn) Write(b []byte) (int, error) {
	n := 0
	for len(b) > 0 {
		k := min(len(b), 1+d.rnd.Intn(3*len(b)/2+1))
		if d.rnd.Intn(3) == 0 {
			k = min(len(b), 1+d.rnd.Intn(12))
		}
		m, err := d.Conn.Write(b[:k])
		n += m
		if err != nil {
			return n, err
		}
		b = b[k:]
		if d.rnd.Intn(4) == 0 {
			time.Sleep(50 * time.Microsecond)
		}
	}
	return n, nil
}

// blob makes data of a size.
func blob(seed int64, n int) []byte {
	b := make([]byte, n)
	rand.New(rand.NewSource(seed)).Read(b)
	return b
}

func drawSizes(t *rapid.T, mb int) []int {
	s := []int{}
	for k := pick(t, "parts", 0, 0, 1, 3, 7); k > 0; k-- {
		s = append(s, pick(t, "part", rapid.IntRange(1, mb).Draw(t, "n"), 1, mb, mb-1, 20))
	}
	return s
}

// near draws a message size near the boundaries of chunks.
func nearChunk(t *rapid.T, l string, base, mb int) int {
	k := pick(t, l+"k", 0, 1, 1, 2, 3, 5, 17)
	n := k*mb + pick(t, l+"d", 0, 0, 1, -1, 2, -2, 7, 15, 16, 17, -15, -16, -17, rapid.IntRange(0, mb).Draw(t, l+"x"))
	return max(n-base, 0)
}

type chCtx struct {
	c    *kit.C
	s    *wire.Session
	hist []string
	vals []*server.VariableNode
	have [][]byte
	base int // of a write request
	rb   int // of a read response
}

func (x *chCtx) note(f string, a ...any) { x.hist = append(x.hist, fmt.Sprintf(f, a...)) }
func (x *chCtx) failf(f string, a ...any) {
	x.c.Failf("%s (%s)", fmt.Sprintf(f, a...), strings.Join(x.hist, "; "))
}

func (x *chCtx) writeReq(i int, v []byte) *ua.WriteRequest {
	return &ua.WriteRequest{RequestHeader: x.s.Header(), NodesToWrite: []ua.WriteValue{{NodeID: x.vals[i].NodeID(), AttributeID: ua.AttributeIDValue, Value: ua.DataValue{Value: ua.ByteString(v)}}}}
}

func (x *chCtx) readReq(is ...int) *ua.ReadRequest {
	r := &ua.ReadRequest{RequestHeader: x.s.Header(), TimestampsToReturn: ua.TimestampsToReturnNeither}
	for _, i := range is {
		r.NodesToRead = append(r.NodesToRead, ua.ReadValueID{NodeID: x.vals[i].NodeID(), AttributeID: ua.AttributeIDValue})
	}
	return r
}

func (x *chCtx) send(req ua.ServiceRequest, sizes []int) <-chan wire.Result {
	b, err := wire.EncodeMsg(req)
	if err != nil {
		kit.Infra("encode: %v", err)
	}
	ch, _, err := x.s.GoBody(b, sizes)
	if err != nil {
		x.failf("%T of %d bytes cannot be sent: %v", req, len(b), err)
	}
	return ch
}

func (x *chCtx) written(req *ua.WriteRequest, ch <-chan wire.Result) {
	m, err := x.s.Client.Wait(ch)
	r, err := wire.As[ua.WriteResponse](req, m, err)
	if err != nil {
		x.failf("a write is not answered properly: %v", err)
	}
	if len(r.Results) != 1 || r.Results[0] != 0 {
		x.failf("a write is answered with %v", r.Results)
	}
}

func (x *chCtx) wasRead(req *ua.ReadRequest, ch <-chan wire.Result, want ...[]byte) {
	m, err := x.s.Client.Wait(ch)
	r, err := wire.As[ua.ReadResponse](req, m, err)
	if err != nil {
		x.failf("a read is not answered properly: %v", err)
	}
	if len(r.Results) != len(want) {
		x.failf("a read of %d values has %d results", len(want), len(r.Results))
	}
	for i, v := range want {
		b, ok := r.Results[i].Value.(ua.ByteString)
		if !ok || r.Results[i].StatusCode != 0 || !bytes.Equal([]byte(b), v) {
			x.failf("a read returns %d bytes (status %s) instead of the %d that were written", len(b), hx(r.Results[i].StatusCode), len(v))
		}
	}
}

func (x *chCtx) put(i int, v []byte, sizes []int) {
	req := x.writeReq(i, v)
	x.written(req, x.send(req, sizes))
	x.have[i] = v
	if b, ok := x.vals[i].Value().Value.(ua.ByteString); !ok || !bytes.Equal([]byte(b), v) {
		x.failf("the service stored %d bytes instead of the %d of the request", len(b), len(v))
	}
}

// newVals adds byte string variables.
func newVals(n int) ([]*server.VariableNode, func()) {
	vs, ns := []*server.VariableNode{}, []server.Node{}
	for i := 0; i < n; i++ {
		w.mu.Lock()
		w.next++
		id := num(2, 400000+w.next)
		w.mu.Unlock()
		v := server.NewVariableNode(w.Server, id, qn(2, "v"), lt("v"), lt(""), nil, objRefs(ua.ObjectIDObjectsFolder), ua.NewDataValue(ua.ByteString(""), 0, time.Now(), 0, time.Now(), 0), ua.DataTypeIDByteString, ua.ValueRankScalar, nil, 3, 0, false, nil)
		vs, ns = append(vs, v), append(ns, v)
	}
	return vs, w.add(ns...)
}

func chServer(c *kit.C) {
	t := c.T
	useWorld(pick(t, "server", serverKeys...))
	sec := drawSec(t, false)
	size := func(l string) uint32 {
		return pick(t, l, uint32(rapid.IntRange(8192, 65535).Draw(t, l+"n")), 8192, 8193, 65535, 65536, 100000, 1<<31-1, 1<<32-1)
	}
	lim := wire.Limits{Recv: size("recv"), Send: size("send")}
	x := &chCtx{c: c}
	x.note("%s recv %d send %d", secName(sec), lim.Recv, lim.Send)
	cl, err := wire.Dial(w.Addr, w.URL, lim, sec)
	if err != nil {
		x.failf("no connection: %v", err)
	}
	defer cl.Drop()
	if rapid.Bool().Draw(t, "pieces") {
		cl.Conn = &slowConn{cl.Conn, rand.New(rand.NewSource(rapid.Int64().Draw(t, "seed")))}
	}
	if rapid.IntRange(0, 2).Draw(t, "wrap") == 0 {
		cl.WrapAt = uint32(4294966272 + rapid.IntRange(0, 1023).Draw(t, "at"))
		cl.WrapTo = uint32(rapid.IntRange(0, 1023).Draw(t, "to"))
		cl.Seq = cl.WrapAt - uint32(rapid.IntRange(0, 40).Draw(t, "before"))
		x.note("sequence numbers from %d wrap at %d to %d", cl.Seq, cl.WrapAt, cl.WrapTo)
	}
	if rapid.IntRange(0, 2).Draw(t, "ids") == 0 {
		cl.SetID(pick(t, "id", rapid.Uint32().Draw(t, "n"), 1<<32-4, 0, 1<<31-1))
	}
	if _, err := cl.Open(); err != nil {
		x.failf("the channel is not opened: %v", err)
	}
	cl.Start()
	s, err := cl.CreateSession(wire.CreateOpts{})
	if err != nil {
		x.failf("no session: %v", err)
	}
	if err := s.Activate(s.Anonymous()); err != nil {
		x.failf("no activation: %v", err)
	}
	x.s = s
	defer wire.Do[ua.CloseSessionResponse](s, &ua.CloseSessionRequest{})
	var rm func()
	x.vals, rm = newVals(4)
	defer rm()
	x.have = make([][]byte, 4)
	b, _ := wire.EncodeMsg(x.writeReq(0, nil))
	x.base = len(b)
	for i := range x.vals {
		x.put(i, []byte{byte(i)}, nil)
	}
	{
		ch := x.send(x.readReq(0), nil)
		r := <-ch
		if r.Err != nil || r.Raw == nil {
			x.failf("a read is not answered: %v", r.Err)
		}
		x.rb = len(r.Raw.Body) - 1
	}
	big := 0
	out, in := cl.MaxBody(cl.MaxChunk), cl.MaxBody(int(min(cl.AckL.Send, lim.Recv)))
	for n := rapid.IntRange(2, 14).Draw(t, "ops"); n > 0; n-- {
		switch op := rapid.IntRange(0, 9).Draw(t, "op"); op {
		case 0, 1, 2:
			i := rapid.IntRange(0, 3).Draw(t, "node")
			k := nearChunk(t, "out", x.base, out)
			if op == 2 {
				k = nearChunk(t, "in", x.rb, in)
			}
			if op == 1 && big == 0 && rapid.IntRange(0, 5).Draw(t, "big") == 0 {
				k, big = rapid.IntRange(1<<18, 1<<21).Draw(t, "size"), 1
			}
			sizes := drawSizes(t, out)
			x.note("write %d bytes to %d in %v", k, i, sizes)
			x.put(i, blob(int64(n)<<32+int64(k), k), sizes)
			req := x.readReq(i)
			x.wasRead(req, x.send(req, drawSizes(t, 60)), x.have[i])
			c.Label("roundtrip")
			if x.base+k > out {
				c.Label("chunked request")
			}
			if x.rb+k > in {
				c.Label("chunked response")
			}
		case 3, 4:
			// several at once
			k := rapid.IntRange(2, 8).Draw(t, "burst")
			x.note("burst of %d", k)
			type one struct {
				r  *ua.ReadRequest
				ch <-chan wire.Result
				is []int
			}
			os := []one{}
			for ; k > 0; k-- {
				is := []int{}
				for j := rapid.IntRange(1, 3).Draw(t, "nodes"); j > 0; j-- {
					is = append(is, rapid.IntRange(0, 3).Draw(t, "node"))
				}
				r := x.readReq(is...)
				os = append(os, one{r, x.send(r, drawSizes(t, 40)), is})
			}
			for _, o := range os {
				want := [][]byte{}
				for _, i := range o.is {
					want = append(want, x.have[i])
				}
				x.wasRead(o.r, o.ch, want...)
			}
			c.Label("burst")
		case 5, 6, 7:
			old := cl.CurrentToken()
			pre, mid, post := rapid.IntRange(0, 3).Draw(t, "pre"), rapid.IntRange(0, 3).Draw(t, "mid"), rapid.IntRange(0, 2).Draw(t, "post")
			keep := rapid.IntRange(0, 2).Draw(t, "keep") == 0
			if keep {
				mid = 0 // these would use the new token when it arrives early
			}
			x.note("renewal with %d requests before, %d during, %d after it (old token %v)", pre, mid, post, keep)
			reqs, chs := []*ua.ReadRequest{}, []<-chan wire.Result{}
			get := func(n int) {
				for ; n > 0; n-- {
					r := x.readReq(n % 4)
					reqs, chs = append(reqs, r), append(chs, x.send(r, nil))
				}
			}
			get(pre)
			ch, err := cl.RenewStart()
			if err != nil {
				x.failf("no renewal: %v", err)
			}
			get(mid)
			if _, err := cl.Wait(ch); err != nil {
				x.failf("no renewal: %v", err)
			}
			if cl.CurrentToken() == old {
				x.failf("a renewal issues the token in use")
			}
			if nw := cl.CurrentToken(); keep {
				cl.UseToken(old)
				get(post)
				for i, ch := range chs {
					x.wasRead(reqs[i], ch, x.have[indexOf(x, reqs[i])])
				}
				reqs, chs = nil, nil
				cl.UseToken(nw)
			}
			get(1 + post)
			for i, ch := range chs {
				x.wasRead(reqs[i], ch, x.have[indexOf(x, reqs[i])])
			}
			c.Label("renewal")
		default:
			i := rapid.IntRange(0, 3).Draw(t, "node")
			x.note("read %d", i)
			r := x.readReq(i)
			x.wasRead(r, x.send(r, nil), x.have[i])
		}
	}
	c.Label(secName(sec))
	if len(cl.Stray) > 0 {
		x.failf("messages nobody asked for arrive: %v", cl.Stray)
	}
	c.NT(strings.Join(x.hist, "; "))
}

func indexOf(x *chCtx, r *ua.ReadRequest) int {
	for i, v := range x.vals {
		if v.NodeID() == r.NodesToRead[0].NodeID {
			return i
		}
	}
	return 0
}

var worlds = map[string]*world{}

// useWorld makes the server with a key the world of the case.
func useWorld(key string, opts ...server.Option) {
	n := fmt.Sprint(key, len(opts))
	if worlds[n] == nil {
		caps := ua.NewServerCapabilities()
		caps.MaxByteStringLength = 1 << 30
		s := env.Start(key, append(append(baseOpts(), server.WithServerCapabilities(caps)), opts...)...)
		worlds[n] = &world{Srv: s, name: map[string]*wire.Session{}}
		s.NamespaceManager().Add("urn:verif:ns2")
		worlds[n].ses = s.Session()
	}
	w = worlds[n]
}

var serverKeys = []string{"r2048_1", "r2048_1", "r2048_1", "r4096_1", "r3072_1", "r1024_2"}

func init() {
	kit.Register(&kit.Check{
		ID:          "C05",
		Rule:        "server: an independent implementation of the protocol opens a channel with a random policy, mode, key size, buffer sizes, sequence number start and fragmentation, then writes and reads values whose messages lie near chunk boundaries, sends bursts and renews the token with requests before, during and after; client: the client exchanges values of such sizes with an independent server of random keys, buffer sizes, announced limits, token lifetimes, sequence numbers and fragmentation, from several callers; non-trivial: distinct histories",
		Assumptions: []string{},
		Subs: []kit.Sub{{Name: "server", Quick: 700, Thorough: 60000, Shards: 7, Fn: chServer},
			{Name: "client", Quick: 700, Thorough: 60000, Shards: 4, Fn: chClient}},
	})
}
