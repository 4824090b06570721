package props

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"verif/harness/kit"
	"verif/harness/wire"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// Transport limits.

type tlConf struct{ buf, msg, chunks uint32 }

var tlConfs = []tlConf{{65535, 64 * 1024 * 1024, 4096}, {8192, 20000, 3}, {16384, 100000, 0}, {9001, 0, 5}, {65535, 40000, 2}, {1 << 18, 300000, 100}}

func useLimits(i int) tlConf {
	k := tlConfs[i]
	opts := []server.Option{server.WithTransportLimits(k.buf, k.msg, k.chunks)}
	for len(opts) <= i {
		opts = append(opts, server.WithMaxSessionCount(1000)) // the number of options tells the servers apart
	}
	useWorld("r2048_1", opts...)
	return k
}

// tlRaw receives a message and checks it against the limits of the Hello.
func tlRaw(c *kit.C, r wire.Result, l wire.Limits, what string) {
	if r.Raw == nil {
		return
	}
	if l.MaxMsg > 0 && len(r.Raw.Body) > int(l.MaxMsg) {
		c.Failf("a message of %d bytes arrives, the maximum is %d (%s)", len(r.Raw.Body), l.MaxMsg, what)
	}
	if l.MaxChunks > 0 && r.Raw.Chunks > int(l.MaxChunks) {
		c.Failf("a message of %d chunks arrives, the maximum is %d (%s)", r.Raw.Chunks, l.MaxChunks, what)
	}
}

func tlWait(cl *wire.Client, ch <-chan wire.Result) (wire.Result, bool) {
	select {
	case r := <-ch:
		return r, true
	case <-cl.DeadCh():
		select {
		case r := <-ch:
			return r, true
		default:
		}
		return wire.Result{}, false
	case <-time.After(20 * time.Second):
		return wire.Result{Err: wire.ErrTimeout}, false
	}
}

func tlCheck(c *kit.C) {
	t := c.T
	conf := useLimits(rapid.IntRange(0, len(tlConfs)-1).Draw(t, "server"))
	sec := wire.NoSec
	if rapid.IntRange(0, 2).Draw(t, "secured") > 0 {
		sec = drawSec(t, true)
	}
	sz := func(l string) uint32 {
		return pick(t, l, uint32(rapid.IntRange(8192, 70000).Draw(t, l+"n")), 8192, 8193, 65535, 65536, 1<<18, 1<<18+1, 1<<32-1)
	}
	lim := wire.Limits{Recv: sz("recv"), Send: sz("send"),
		MaxMsg:    pick(t, "msg", 0, uint32(rapid.IntRange(300, 100000).Draw(t, "msgn")), 8192, 1<<32-1, 1<<31-1),
		MaxChunks: pick(t, "chunks", 0, uint32(rapid.IntRange(1, 6).Draw(t, "chunksn")), 1<<32-1, 1<<31)}
	hist := []string{fmt.Sprintf("server %v, %s, hello %v", conf, secName(sec), lim)}
	note := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
	failf := func(f string, a ...any) { c.Failf("%s (%s)", fmt.Sprintf(f, a...), strings.Join(hist, "; ")) }
	// the session is made on an ordinary channel
	s, err := wire.NewSessionAs(w.Addr, w.URL, sec, func(s *wire.Session) wire.Identity { return s.Anonymous() })
	if err != nil {
		failf("no session: %v", err)
	}
	first := s.Client
	defer first.Drop()
	vs, rm := newVals(1)
	defer rm()
	x := &chCtx{c: c, s: s, vals: vs, have: make([][]byte, 1), hist: hist}
	ch := x.send(x.readReq(0), nil)
	r0 := <-ch
	if r0.Err != nil || r0.Raw == nil {
		failf("a read is not answered: %v", r0.Err)
	}
	rb := len(r0.Raw.Body) // of a read of no bytes
	cl, err := wire.Dial(w.Addr, w.URL, lim, sec)
	if err != nil {
		failf("no connection: %v", err)
	}
	defer cl.Drop()
	a := cl.AckL
	note("acknowledge %v", a)
	if a.Recv > lim.Send || a.Send > lim.Recv || a.Recv > conf.buf || a.Send > conf.buf || a.Recv < 8192 || a.Send < 8192 {
		failf("the buffer sizes of the acknowledge exceed an offer")
	}
	if conf.msg > 0 && (a.MaxMsg > conf.msg || a.MaxMsg == 0) || conf.chunks > 0 && (a.MaxChunks > conf.chunks || a.MaxChunks == 0) {
		failf("the acknowledge does not announce the limits of the server")
	}
	if _, err := cl.Open(); err != nil {
		failf("the channel is not opened: %v", err)
	}
	cl.Start()
	s.Client = cl
	if err := s.Activate(s.Anonymous()); err != nil {
		failf("no activation: %v", err)
	}
	defer wire.Do[ua.CloseSessionResponse](s, &ua.CloseSessionRequest{})
	in := cl.MaxBody(int(min(lim.Recv, a.Send)))
	out := cl.MaxBody(int(min(lim.Send, a.Recv)))
	base := func() int { b, _ := wire.EncodeMsg(x.writeReq(0, nil)); return len(b) }()
	cur := []byte{}
	set := func(v []byte) {
		cur = v
		vs[0].SetValue(ua.NewDataValue(ua.ByteString(v), 0, time.Now(), 0, time.Now(), 0))
	}
	const top = 400000
	// sizes around every limit
	around := func(l string, xs ...int) int {
		n := pick(t, l, xs...) + pick(t, l+"d", 0, 0, 1, -1, 16, -16, rapid.IntRange(-200, 200).Draw(t, l+"r"))
		return min(max(n, 0), top)
	}
	for k := rapid.IntRange(2, 8).Draw(t, "ops"); k > 0; k-- {
		switch rapid.IntRange(0, 4).Draw(t, "op") {
		case 0, 1:
			// a response
			n := max(around("size", 0, in, 2*in, int(min(lim.MaxMsg, top)), int(min(lim.MaxChunks, 1000))*in)-rb, 0)
			set(blob(int64(n), n))
			note("read of %d bytes", rb+n)
			req := x.readReq(0)
			r, ok := tlWait(cl, x.send(req, nil))
			if !ok {
				failf("a read is not answered: %v", r.Err)
			}
			tlRaw(c, r, lim, strings.Join(hist, "; "))
			fits := (lim.MaxMsg == 0 || rb+n <= int(lim.MaxMsg)) && (lim.MaxChunks == 0 || (rb+n+in-1)/in <= int(lim.MaxChunks))
			slack := lim.MaxChunks > 0 && (rb+n+in-33)/(in-32) > int(lim.MaxChunks) // smaller chunks would be in order
			res, err := wire.As[ua.ReadResponse](req, r.Msg, r.Err)
			switch {
			case err == nil:
				if !fits {
					failf("a response beyond the limits arrives")
				}
				b, _ := res.Results[0].Value.(ua.ByteString)
				if len(res.Results) != 1 || !bytes.Equal([]byte(b), cur) {
					failf("a read returns other data")
				}
				c.Label("response within")
			case wire.CodeOf(err) != 0:
				if fits && !slack {
					failf("a read within the limits is answered with %v", err)
				}
				c.Label("response beyond")
			default:
				failf("a read is not answered properly: %v", err)
			}
		default:
			// a request
			sizes := []int{}
			n := max(around("size", 0, out, 2*out, int(min(conf.msg, top)), int(min(conf.chunks, 50))*out)-base, 0)
			v := blob(int64(n)+1<<40, n)
			req := x.writeReq(0, v)
			b, _ := wire.EncodeMsg(req)
			if rapid.Bool().Draw(t, "pieces") && conf.chunks > 0 && conf.chunks < 100 {
				// about as many chunks as allowed
				m := int(conf.chunks) + rapid.IntRange(-2, 1).Draw(t, "chunks")
				for j := 0; j < m; j++ {
					sizes = append(sizes, rapid.IntRange(1, out).Draw(t, "chunk"))
				}
			}
			old := a.Recv
			over := rapid.IntRange(0, 7).Draw(t, "over") == 0 && lim.Send >= conf.buf // else the peer breaks its own promise
			if over {
				// chunks that are larger than the server's buffer
				cl.MaxChunk = int(old) + pick(t, "by", 16, 32, 1000, 1<<20)
			}
			id := cl.NextID()
			chs := cl.Chunk("MSG", id, b, sizes)
			cl.MaxChunk = int(min(lim.Send, a.Recv))
			big := false
			for _, r := range chs {
				big = big || len(r) > int(old)
			}
			fits := !big && (conf.msg == 0 || len(b) <= int(conf.msg)) && (conf.chunks == 0 || len(chs) <= int(conf.chunks))
			note("write of %d bytes in %d chunks, larger than the buffer: %v", len(b), len(chs), big)
			if !fits {
				// a rejection may close the connection
				set([]byte("before"))
				go func() {
					for _, r := range chs {
						if cl.Write(r) != nil {
							return
						}
					}
				}()
				time.Sleep(time.Millisecond)
				end := time.After(20 * time.Second)
				for dead := false; !dead; {
					select {
					case <-cl.DeadCh():
						dead = true
					case <-end:
						failf("a request beyond the limits is neither answered nor is the connection closed")
					case <-time.After(20 * time.Millisecond):
						// an error response would be a stray message
						if st := cl.StrayCopy(); len(st) > 0 {
							if !strings.Contains(st[len(st)-1], "ServiceFault") {
								failf("a request beyond the limits is answered with %v", st)
							}
							dead = true
						}
					}
				}
				if y, _ := vs[0].Value().Value.(ua.ByteString); string(y) != "before" {
					failf("a request beyond the limits is executed")
				}
				c.Label("request beyond")
				c.NT(strings.Join(hist, "; "))
				return
			}
			rc := cl.Expect(id)
			for _, r := range chs {
				if err := cl.Write(r); err != nil {
					failf("a request within the limits cannot be sent: %v", err)
				}
			}
			r, ok := tlWait(cl, rc)
			if !ok {
				_, why := cl.Dead()
				failf("a request within the limits is not answered: %v %v", r.Err, why)
			}
			tlRaw(c, r, lim, strings.Join(hist, "; "))
			res, err := wire.As[ua.WriteResponse](req, r.Msg, r.Err)
			if err != nil || len(res.Results) != 1 || res.Results[0] != 0 {
				failf("a request within the limits is answered with %v %v", res, err)
			}
			if y, _ := vs[0].Value().Value.(ua.ByteString); !bytes.Equal([]byte(y), v) {
				failf("a request within the limits is executed with other data")
			}
			c.Label("request within")
		}
	}
	c.NT(strings.Join(hist, "; "))
}

// tlHello sends hello messages with any numbers.
func tlHello(c *kit.C) {
	t := c.T
	conf := useLimits(rapid.IntRange(0, len(tlConfs)-1).Draw(t, "server"))
	n := func(l string) uint32 {
		return pick(t, l, rapid.Uint32().Draw(t, l+"n"), 0, 1, 8191, 8192, 65535, 1<<32-1, uint32(rapid.IntRange(8000, 70000).Draw(t, l+"m")))
	}
	lim := wire.Limits{Recv: n("recv"), Send: n("send"), MaxMsg: pick(t, "msg", 0, uint32(rapid.IntRange(0, 30000).Draw(t, "msgn"))), MaxChunks: pick[uint32](t, "chunks", 0, 1, 2, 3)}
	what := fmt.Sprintf("server %v, hello %v", conf, lim)
	c.NT(what)
	cl, err := wire.Dial(w.Addr, w.URL, lim, wire.NoSec)
	if err != nil {
		if lim.Recv >= 8192 && lim.Send >= 8192 {
			c.Failf("a proper hello is refused: %v (%s)", err, what)
		}
		c.Label("refused")
		return
	}
	defer cl.Drop()
	a := cl.AckL
	if a.Recv > lim.Send || a.Send > lim.Recv || a.Recv > conf.buf || a.Send > conf.buf {
		c.Failf("the buffer sizes of the acknowledge %v exceed an offer (%s)", a, what)
	}
	cl.Timeout = 20 * time.Second
	// the answers to discovery requests obey the limits, or there is none
	b, _ := wire.EncodeMsg(cl.OpenRequest(false))
	cl.Write(cl.SealAsym("OPNF", cl.NextSeq(), cl.NextID(), b))
	m, err := cl.Recv(cl.Timeout)
	if err != nil {
		if lim.MaxMsg > 0 && lim.MaxMsg < 300 {
			c.Label("no room")
			return
		}
		c.Failf("the channel is not opened: %v (%s)", err, what)
	}
	tlRaw(c, wire.Result{Raw: m}, lim, what)
	if _, err := cl.Opened(m); err != nil {
		c.Failf("the channel is not opened: %v (%s)", err, what)
	}
	cl.Start()
	req := &ua.GetEndpointsRequest{RequestHeader: ua.RequestHeader{Timestamp: time.Now(), RequestHandle: 5}, EndpointURL: w.URL}
	ch, _, err := cl.Go(req)
	if err != nil {
		c.Failf("no request: %v", err)
	}
	r, ok := tlWait(cl, ch)
	if !ok {
		if lim.MaxMsg > 0 && lim.MaxMsg < 300 && r.Err == nil {
			return
		}
		c.Failf("GetEndpoints is not answered (%s)", what)
	}
	tlRaw(c, r, lim, what)
	res, err := wire.As[ua.GetEndpointsResponse](req, r.Msg, r.Err)
	if err == nil && len(res.Endpoints) == 0 {
		c.Failf("GetEndpoints returns nothing (%s)", what)
	}
	if err != nil && wire.CodeOf(err) == 0 {
		c.Failf("GetEndpoints is answered with %v (%s)", err, what)
	}
	if err != nil && lim.MaxMsg == 0 && lim.MaxChunks == 0 {
		c.Failf("GetEndpoints without limits is answered with %v (%s)", err, what)
	}
	c.Label("answered")
}

func init() {
	kit.Register(&kit.Check{
		ID:          "C08",
		Rule:        "traffic: servers with several limits, clients with random Hello numbers; requests and responses whose size and number of chunks lie around every limit, expected within or beyond by arithmetic; hello: random numbers, every message that comes back is measured; client: the library's client against a scripted server, requests around the limits the server announced and responses around those of the client; non-trivial: distinct histories",
		Assumptions: []string{"a message's size is that of its unencrypted body (Part 6)", "a peer sending larger chunks than it announced itself is not judged here"},
		Subs: []kit.Sub{{Name: "traffic", Quick: 900, Thorough: 60000, Shards: 5, Fn: tlCheck},
			{Name: "hello", Quick: 1200, Thorough: 60000, Shards: 2, Fn: tlHello},
			{Name: "client", Quick: 500, Thorough: 60000, Shards: 3, Fn: clClient}},
	})
}
