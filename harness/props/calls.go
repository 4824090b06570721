package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/env"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/pki"
	"verif/harness/ref"
	"verif/harness/wire"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// Calls of the library's client against a scripted server.

type clMethod struct {
	name     string
	idx      int
	req, res reflect.Type
}

var clMethods = func() []clMethod {
	var out []clMethod
	t := reflect.TypeOf(&client.Client{})
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if m.Type.NumIn() == 3 && m.Type.NumOut() == 2 && strings.HasSuffix(m.Type.In(2).Elem().Name(), "Request") {
			out = append(out, clMethod{m.Name, i, m.Type.In(2).Elem(), m.Type.Out(0).Elem()})
		}
	}
	return out
}()

// what the server does with a call
const (
	clAnswer = iota
	clTwice  // answers, then answers again with something else
	clStray  // answers nobody first
	clFault
	clBadRes // the right type with a bad result
	clWrongType
	clDrop
	clLate
	clHeld // answers right after the second renewal of the token from the call on
)

type clCall struct {
	m        clMethod
	req, res reflect.Value // pointers
	kind     int
	code     ua.StatusCode
	at       int // ms after the start
	delay    int // ms until the answer
	hint     uint32
	ctxMs    int // deadline of the context, 0: none
	cancel   int // ms until the context is cancelled, 0: never
	sizes    []int
	big      int

	began, ended time.Time
	got          any
	err          error
}

type clPlan struct {
	sec      wire.Sec
	lifetime uint32
	hint     uint32 // option
	calls    []*clCall
	loss     string
	lossAt   int
	deaf     bool // the server does not read after the loss
	extra    []*clCall
	opnDelay int

	mu      sync.Mutex
	hist    []string
	renewed int
}

func (p *clPlan) note(f string, a ...any) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.hist = append(p.hist, fmt.Sprintf(f, a...))
}

func (p *clPlan) String() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	s := fmt.Sprintf("%s, tokens of %d ms, hint %d, loss %q at %d ms (deaf %t)", secName(p.sec), p.lifetime, p.hint, p.loss, p.lossAt, p.deaf)
	for i, q := range p.calls {
		s += fmt.Sprintf(", #%d %s at %d: %s", i, q.m.name, q.at, []string{"answer", "twice", "stray", "fault", "bad result", "wrong type", "drop", "late", "held"}[q.kind])
		if q.delay > 0 {
			s += fmt.Sprintf(" after %d", q.delay)
		}
		if q.hint > 0 || q.ctxMs > 0 || q.cancel > 0 {
			s += fmt.Sprintf(" (hint %d, context %d, cancelled %d)", q.hint, q.ctxMs, q.cancel)
		}
	}
	return s + "; " + strings.Join(p.hist, ", ")
}

func drawCall(t *rapid.T, kind, span int) *clCall {
	q := &clCall{m: clMethods[rapid.IntRange(0, len(clMethods)-1).Draw(t, "method")], kind: kind, at: rapid.IntRange(0, span).Draw(t, "at")}
	o := gen.Opts{MaxDepth: 2, MaxLen: 3}
	q.req, q.res = reflect.New(q.m.req), reflect.New(q.m.res)
	if rapid.IntRange(0, 2).Draw(t, "full") == 0 {
		q.req.Elem().Set(gen.Value(t, q.m.req, o, 0, "req"))
	}
	if rapid.IntRange(0, 1).Draw(t, "fullres") == 0 {
		q.res.Elem().Set(gen.Value(t, q.m.res, o, 0, "res"))
	}
	q.delay = pick(t, "delay", 0, 0, 0, 1, 5, 20, 60, 150)
	for k := pick(t, "parts", 0, 0, 0, 1, 4); k > 0; k-- {
		q.sizes = append(q.sizes, rapid.IntRange(1, 60).Draw(t, "part"))
	}
	switch kind {
	case clDrop, clLate:
		d := rapid.IntRange(150, 600).Draw(t, "limit")
		switch rapid.IntRange(0, 3).Draw(t, "by") {
		case 0:
			q.ctxMs = d
		case 1:
			q.cancel = d
		default:
			q.hint = uint32(d)
		}
		if kind == clLate {
			q.delay = d + rapid.IntRange(-5, 120).Draw(t, "late")
		}
	case clFault, clBadRes:
		q.code = pick(t, "code", ua.BadUserAccessDenied, ua.BadNothingToDo, ua.BadTooManyOperations, ua.BadSessionIDInvalid, ua.BadTimeout, ua.BadOutOfMemory)
	}
	return q
}

func drawClPlan(t *rapid.T) *clPlan {
	p := &clPlan{sec: wire.NoSec, lifetime: 3600000, hint: pick[uint32](t, "option", 0, 0, 9000, 600)}
	if rapid.IntRange(0, 3).Draw(t, "secured") == 0 {
		p.sec = drawSec(t, true)
	}
	span := 100
	if rapid.IntRange(0, 3).Draw(t, "renew") == 0 {
		p.lifetime = pick[uint32](t, "lifetime", 150, 300, 500)
		p.opnDelay = pick(t, "opndelay", 0, 0, 5, 40)
		span = 900
	}
	held := p.lifetime < 3600000 && rapid.Bool().Draw(t, "held")
	n := pick(t, "calls", 1, 2, 5, 10, 30)
	for i := 0; i < n; i++ {
		k := pick(t, "kind", clAnswer, clAnswer, clAnswer, clAnswer, clTwice, clStray, clFault, clBadRes, clWrongType, clDrop, clLate)
		if held && k < clStray {
			k = clHeld
		}
		q := drawCall(t, k, span)
		if p.hint == 600 && q.hint == 0 && q.ctxMs == 0 && q.cancel == 0 {
			q.hint = 9000
			if k == clDrop {
				q.hint = 0
			}
		}
		p.calls = append(p.calls, q)
	}
	p.loss = pick(t, "loss", "", "", "", "", "fin", "rst", "unknown type", "bad channel", "bad token", "bad sequence", "bad size", "undecodable", "half", "error", "silent", "client close", "client abort")
	if p.loss != "" {
		if p.loss == "silent" {
			for _, q := range p.calls {
				if q.limit(p) > time.Second {
					q.hint = uint32(rapid.IntRange(100, 700).Draw(t, "limit"))
				}
			}
		}
		p.lossAt = rapid.IntRange(0, 250).Draw(t, "lossat")
		p.deaf = rapid.Bool().Draw(t, "deaf") && !strings.HasPrefix(p.loss, "client")
		for k := 1 + rapid.IntRange(0, 2).Draw(t, "extra"); k > 0; k-- {
			q := drawCall(t, clAnswer, 30)
			if p.loss == "silent" {
				q.hint = uint32(rapid.IntRange(100, 500).Draw(t, "limit"))
			}
			if rapid.IntRange(0, 3).Draw(t, "big") == 0 && p.loss != "client close" {
				q.big = 8 << 20
				for _, m := range clMethods {
					if m.name == "Write" {
						q.m, q.req, q.res = m, reflect.New(m.req), reflect.New(m.res)
					}
				}
			}
			p.extra = append(p.extra, q)
		}
	}
	return p
}

// deafConn stops reading once it is deaf.
type deafConn struct {
	*net.TCPConn
	deaf, gone chan struct{}
}

func (d *deafConn) Read(b []byte) (int, error) {
	select {
	case <-d.deaf:
		<-d.gone
		return 0, net.ErrClosed
	default:
	}
	n, err := d.TCPConn.Read(b)
	select {
	case <-d.deaf:
		<-d.gone
	default:
	}
	return n, err
}

const clSlack = 4 * time.Second

func (q *clCall) limit(p *clPlan) time.Duration {
	d := 15 * time.Second
	if p.hint > 0 {
		d = time.Duration(p.hint) * time.Millisecond
	}
	if q.hint > 0 {
		d = time.Duration(q.hint) * time.Millisecond
	}
	for _, ms := range []int{q.ctxMs, q.cancel} {
		if ms > 0 {
			d = min(d, time.Duration(ms)*time.Millisecond)
		}
	}
	return d
}

func (q *clCall) run(cl *client.Client, mark string) {
	q.began = time.Now() // before any deadline begins: what took less than its limit ended too early
	ctx := context.Background()
	if q.ctxMs > 0 {
		c, f := context.WithTimeout(ctx, time.Duration(q.ctxMs)*time.Millisecond)
		defer f()
		ctx = c
	}
	if q.cancel > 0 {
		c, f := context.WithCancel(ctx)
		defer f()
		tm := time.AfterFunc(time.Duration(q.cancel)*time.Millisecond, f)
		defer tm.Stop()
		ctx = c
	}
	req := reflect.New(q.m.req)
	req.Elem().Set(q.req.Elem())
	if q.big > 0 {
		if w, ok := req.Interface().(*ua.WriteRequest); ok {
			w.NodesToWrite = []ua.WriteValue{{NodeID: ua.VariableIDServerNamespaceArray, Value: ua.DataValue{Value: ua.ByteString(make([]byte, q.big))}}}
		}
	}
	h := req.Interface().(ua.ServiceRequest).Header()
	*h = ua.RequestHeader{AuditEntryID: mark, TimeoutHint: q.hint}
	out := reflect.ValueOf(cl).Method(q.m.idx).Call([]reflect.Value{reflect.ValueOf(ctx), req})
	q.ended = time.Now()
	q.err, _ = out[1].Interface().(error)
	if !out[0].IsNil() {
		q.got = out[0].Interface()
	}
}

func resHeader(x any) *ua.ResponseHeader { return x.(ua.ServiceResponse).Header() }

// answer makes the response to a call.
func (q *clCall) answer(x any, mark string) any {
	res := reflect.New(q.m.res)
	res.Elem().Set(q.res.Elem())
	*resHeader(res.Interface()) = wire.Reply(x)
	resHeader(res.Interface()).StringTable = []string{mark}
	return res.Interface()
}

func (p *clPlan) run() string {
	fake, err := wire.NewFake(w.Cert, wire.Sec{Policy: p.sec.Policy, Mode: p.sec.Mode})
	if err != nil {
		kit.Infra("%v", err)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := ""
	alarm := func(f string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	var heldMu sync.Mutex
	var held []func()
	flush := func() {
		heldMu.Lock()
		h := held
		held = nil
		heldMu.Unlock()
		for _, f := range h {
			f()
		}
	}
	var lost, gone chan struct{} = make(chan struct{}), make(chan struct{})
	var sess *wire.Peer
	var sock *net.TCPConn
	all := append(append([]*clCall(nil), p.calls...), p.extra...)
	fake.Serve = func(peer *wire.Peer) {
		defer peer.Conn.Close()
		tcp := peer.Conn.(*net.TCPConn)
		if p.deaf {
			peer.Conn = &deafConn{tcp, lost, gone}
		}
		if err := peer.Greet(); err != nil {
			return
		}
		peer.Lifetime = p.lifetime
		peer.OnOpen = func(_ *wire.Peer, m *wire.Msg, r *ua.OpenSecureChannelRequest) (bool, error) {
			if r.RequestType == ua.SecurityTokenRequestTypeRenew {
				time.Sleep(time.Duration(p.opnDelay) * time.Millisecond)
				p.mu.Lock()
				p.renewed++
				n := p.renewed
				p.mu.Unlock()
				if n%2 == 0 {
					err := peer.Opened(m, r)
					flush()
					return true, err
				}
			}
			return false, nil
		}
		for {
			m, x, err := peer.Next()
			if err != nil {
				break
			}
			if y := peer.Usual(x); y != nil && x.(ua.ServiceRequest).Header().AuditEntryID == "" {
				if _, ok := x.(*ua.CreateSessionRequest); ok {
					mu.Lock()
					sess, sock = peer, tcp
					mu.Unlock()
				}
				peer.Answer(m.ReqID, y)
				continue
			}
			select {
			case <-lost:
				if p.loss == "silent" {
					<-gone
					return
				}
			default:
			}
			mark := x.(ua.ServiceRequest).Header().AuditEntryID
			i, err := strconv.Atoi(mark)
			if err != nil || i >= len(all) {
				alarm("the server receives %T %q", x, mark)
				return
			}
			q := all[i]
			// what arrives is what was sent
			if q.big == 0 {
				want := reflect.New(q.m.req)
				want.Elem().Set(q.req.Elem())
				*want.Interface().(ua.ServiceRequest).Header() = *x.(ua.ServiceRequest).Header()
				if d := ref.Diff(want.Interface(), x); d != "" {
					alarm("call #%d arrives changed: %s", i, d)
				}
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				select {
				case <-time.After(time.Duration(q.delay) * time.Millisecond):
				case <-gone:
					return
				}
				if p.loss == "silent" {
					select {
					case <-lost:
						return
					default:
					}
				}
				switch q.kind {
				case clHeld:
					heldMu.Lock()
					held = append(held, func() { peer.Answer(m.ReqID, q.answer(x, mark), q.sizes...) })
					heldMu.Unlock()
					select {
					case <-time.After(1500 * time.Millisecond):
						flush()
					case <-gone:
					}
				case clAnswer, clLate:
					peer.Answer(m.ReqID, q.answer(x, mark), q.sizes...)
				case clTwice:
					peer.Answer(m.ReqID, q.answer(x, mark), q.sizes...)
					peer.Answer(m.ReqID, q.answer(x, "again"))
				case clStray:
					y := q.answer(x, "stray")
					resHeader(y).RequestHandle += 1 << 20
					peer.Answer(m.ReqID+1<<20, y)
					peer.Answer(m.ReqID, q.answer(x, mark), q.sizes...)
				case clFault:
					h := wire.Reply(x)
					h.ServiceResult = q.code
					peer.Answer(m.ReqID, &ua.ServiceFault{ResponseHeader: h})
				case clBadRes:
					y := q.answer(x, mark)
					resHeader(y).ServiceResult = q.code
					peer.Answer(m.ReqID, y, q.sizes...)
				case clWrongType:
					var y any = &ua.ReadResponse{ResponseHeader: wire.Reply(x)}
					if q.m.name == "Read" {
						y = &ua.WriteResponse{ResponseHeader: wire.Reply(x)}
					}
					peer.Answer(m.ReqID, y)
				}
			}()
		}
		if peer.Err != nil {
			select {
			case <-lost:
			default:
				alarm("the server receives from the client: %v", peer.Err)
			}
		}
	}
	fake.Start(nil)
	defer func() { close(gone); fake.Stop(); wg.Wait() }()

	opts := []client.Option{client.WithInsecureSkipVerify(), client.WithSecurityPolicyURI(p.sec.Policy, ua.MessageSecurityMode(p.sec.Mode))}
	if p.sec.Client != nil {
		opts = append(opts, client.WithClientCertificate(p.sec.Client.DER, p.sec.Client.RSA()))
	}
	if p.hint > 0 {
		opts = append(opts, client.WithTimeoutHint(p.hint))
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cl, err := client.Dial(ctx, fake.URL, opts...)
	if err != nil {
		if p.hint == 600 {
			return bad // the machine is too busy for that
		}
		return fmt.Sprintf("the client cannot connect to a proper server: %v", err)
	}
	defer cl.Abort(context.Background())
	mu.Lock()
	peer := sess
	mu.Unlock()
	var cwg sync.WaitGroup
	start := time.Now()
	for i, q := range p.calls {
		cwg.Add(1)
		go func() {
			defer cwg.Done()
			time.Sleep(time.Until(start.Add(time.Duration(q.at) * time.Millisecond)))
			q.run(cl, strconv.Itoa(i))
		}()
	}
	var lostAt time.Time
	if p.loss != "" {
		time.Sleep(time.Until(start.Add(time.Duration(p.lossAt) * time.Millisecond)))
		lostAt = time.Now()
		close(lost)
		switch p.loss {
		case "fin":
			peer.Locked(func() { sock.CloseWrite() })
		case "rst":
			sock.SetLinger(0)
			peer.Conn.Close()
		case "unknown type":
			peer.Locked(func() { peer.Write(wire.Frame("XYZF", make([]byte, 40))) })
		case "bad channel":
			peer.Locked(func() {
				peer.ID++
				peer.Write(peer.Seal("MSGF", peer.NextSeq(), 1, make([]byte, 20)))
				peer.ID--
			})
		case "bad token":
			peer.Locked(func() {
				peer.Write(peer.SealToken("MSGF", 99, peer.SendKeys[peer.Token], peer.NextSeq(), 1, make([]byte, 20), -1))
			})
		case "bad sequence":
			peer.Locked(func() {
				b, _ := wire.EncodeMsg(&ua.ServiceFault{})
				peer.NextSeq()
				peer.Write(peer.Seal("MSGF", peer.NextSeq(), 1, b))
			})
		case "bad size":
			peer.Locked(func() { peer.Write([]byte{'M', 'S', 'G', 'F', 0xff, 0xff, 0xff, 0x7f}) })
		case "undecodable":
			peer.Locked(func() { peer.Write(peer.Seal("MSGF", peer.NextSeq(), 1, []byte{1, 0, 9, 9, 1, 2, 3})) })
		case "half":
			peer.Locked(func() {
				b := peer.Seal("MSGF", peer.NextSeq(), 1, make([]byte, 100))
				peer.Write(b[:len(b)/2])
				sock.CloseWrite()
			})
		case "error":
			peer.Locked(func() {
				peer.Write(wire.Frame("ERRF", append([]byte{0, 0, 0x80, 0x80, 4, 0, 0, 0}, "gone"...)))
			})
		case "client abort":
			cl.Abort(context.Background())
		case "client close":
			var cerr error
			done := make(chan struct{})
			go func() {
				defer close(done)
				c, f := context.WithTimeout(context.Background(), 10*time.Second)
				defer f()
				cerr = cl.Close(c)
			}()
			select {
			case <-done:
				if cerr != nil && p.hint != 600 {
					alarm("closing a healthy connection: %v", cerr)
				}
			case <-time.After(10*time.Second + clSlack):
				return "Close does not return"
			}
		}
		time.Sleep(20 * time.Millisecond)
		for i, q := range p.extra {
			cwg.Add(1)
			go func() {
				defer cwg.Done()
				time.Sleep(time.Duration(q.at) * time.Millisecond)
				q.run(cl, strconv.Itoa(len(p.calls)+i))
			}()
		}
	}
	done := make(chan struct{})
	go func() { cwg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		return "HANG: a call does not return within 30 s"
	}
	for i, q := range all {
		took := q.ended.Sub(q.began)
		lim := q.limit(p)
		who := fmt.Sprintf("call #%d (%s)", i, q.m.name)
		if took > lim+clSlack {
			alarm("%s with a deadline of %v returns after %v", who, lim, took)
		}
		if p.loss != "" && p.loss != "silent" {
			from := lostAt
			if q.began.After(from) {
				from = q.began
			}
			if over := q.ended.Sub(from); over > clSlack {
				alarm("%s returns %v after the connection was lost", who, over)
			}
		}
		if q.err == nil {
			if q.got == nil {
				alarm("%s returns neither a response nor an error", who)
				continue
			}
			switch q.kind {
			case clFault, clBadRes, clWrongType, clDrop:
				alarm("%s succeeds although it was not answered so (%d)", who, q.kind)
			}
			want := q.answer(&ua.ReadRequest{}, strconv.Itoa(i))
			h := *resHeader(q.got)
			if len(h.StringTable) != 1 || h.StringTable[0] != strconv.Itoa(i) {
				alarm("%s gets the response of another call: %q", who, h.StringTable)
			}
			*resHeader(want) = h
			if d := ref.Diff(want, q.got); d != "" {
				alarm("%s gets a changed response: %s", who, d)
			}
			if i >= len(p.calls) && p.loss != "fin" && p.loss != "half" {
				alarm("%s succeeds after the connection was lost", who)
			}
			continue
		}
		if q.got != nil {
			alarm("%s returns a response and the error %v", who, q.err)
		}
		if p.loss != "" {
			continue
		}
		switch q.kind {
		case clAnswer, clTwice, clStray, clHeld:
			if lim > 5*time.Second {
				alarm("%s fails with %v after %v although it was answered", who, q.err, took)
			}
		case clFault, clBadRes:
			if lim > 5*time.Second && !errors.Is(q.err, q.code) {
				alarm("%s fails with %v instead of %v", who, q.err, q.code)
			}
		case clDrop:
			if took < lim-30*time.Millisecond {
				alarm("%s fails with %v after %v, its deadline is %v", who, q.err, took, lim)
			}
		}
	}
	p.note("%d renewals", p.renewed)
	mu.Lock()
	defer mu.Unlock()
	return bad
}

func clCalls(c *kit.C) {
	var ps []*clPlan
	for k := 0; k < 20; k++ {
		ps = append(ps, drawClPlan(c.T))
	}
	bad := make([]string, len(ps))
	var wg sync.WaitGroup
	for i, p := range ps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			bad[i] = p.run()
		}()
	}
	wg.Wait()
	for i, b := range bad {
		if strings.HasPrefix(b, "HANG") {
			c.Hardf("%s (%s)", b, ps[i])
		}
		if b != "" {
			c.Failf("%s (%s)", b, ps[i])
		}
	}
	for _, p := range ps {
		c.NT(p.String())
		c.Label("loss " + p.loss)
		if p.renewed > 0 {
			c.Label("renewed")
		}
	}
}

func clSetup() func() {
	log.SetOutput(io.Discard)
	w = &world{Srv: &env.Srv{Cert: pki.App("urn:verif:fake", "r2048_1")}}
	return func() {}
}

func init() {
	kit.Register(&kit.Check{
		ID:          "C27",
		Rule:        "calls: the library's client against a scripted server that answers calls of every service concurrently, late, twice, not at all, with faults or wrong types, renews tokens, and loses the connection in many ways; dial: connecting to servers that fail at any step; non-trivial: distinct plans",
		Assumptions: []string{"four seconds of slack for every deadline"},
		Subs: []kit.Sub{
			{Name: "calls", Quick: 120, Thorough: 8000, Shards: 4, Setup: clSetup, Fn: clCalls},
			{Name: "dial", Quick: 120, Thorough: 8000, Shards: 3, Setup: clSetup, Fn: clDial}},
	})
}
