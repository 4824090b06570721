package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strings"
	"sync"
	"time"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/wire"

	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// Peers that send anything at any point of a connection.

type rawFrame struct {
	kind  int
	a, b  int
	edits []byte
	junk  []byte
	req   *hostReq
}

type rawPlan struct {
	stage  int
	sec    wire.Sec
	frames []rawFrame
	cuts   []int
	end    int
	seed   int64
}

func drawRaw(t *rapid.T) rawPlan {
	p := rawPlan{stage: rapid.IntRange(0, 3).Draw(t, "stage"), end: rapid.IntRange(0, 3).Draw(t, "end"), seed: rapid.Int64().Draw(t, "seed")}
	p.sec = wire.NoSec
	if p.stage > 0 && rapid.IntRange(0, 2).Draw(t, "secured") == 0 {
		p.sec = drawSec(t, true)
	}
	for k := rapid.IntRange(1, 6).Draw(t, "frames"); k > 0; k-- {
		f := rawFrame{kind: rapid.IntRange(0, 13).Draw(t, "kind"), a: rapid.IntRange(0, 1<<20).Draw(t, "a"), b: rapid.IntRange(0, 255).Draw(t, "b"),
			edits: rapid.SliceOfN(rapid.Byte(), 4, 24).Draw(t, "edits"), junk: rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "junk")}
		if f.kind >= 8 && p.stage > 1 {
			f.req = drawHostReq(t, gen.Opts{MaxDepth: 2, MaxLen: 3})
		}
		p.frames = append(p.frames, f)
	}
	p.cuts = rapid.SliceOfN(rapid.IntRange(0, 400), 0, 6).Draw(t, "cuts")
	return p
}

// run plays a peer; it returns what happened and what was wrong.
func (p rawPlan) run() (string, string) {
	var hist []string
	note := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
	text := func() string {
		return fmt.Sprintf("stage %d %s: %s", p.stage, secName(p.sec), strings.Join(hist, ", "))
	}
	var cl *wire.Client
	var conn net.Conn
	var err error
	tok := ua.NodeID(nil)
	switch p.stage {
	case 0:
		conn, err = net.DialTimeout("tcp", w.Addr, 20*time.Second)
		cl = &wire.Client{Channel: &wire.Channel{Conn: conn, Suite: wire.SuiteFor(wire.NoSec.Policy), MaxChunk: 8192}, URL: w.URL}
	case 1:
		cl, err = wire.Dial(w.Addr, w.URL, wire.DefaultLimits, p.sec)
	default:
		cl, err = wire.Connect(w.Addr, w.URL, wire.DefaultLimits, p.sec)
	}
	if err != nil {
		return text(), fmt.Sprintf("a connection is refused: %v", err)
	}
	conn = cl.Conn
	defer conn.Close()
	if p.stage == 3 {
		// a session without a reader
		call := func(req any) (any, error) {
			b, err := wire.EncodeMsg(req)
			if err != nil {
				return nil, err
			}
			for _, k := range cl.Chunk("MSG", cl.NextID(), b, nil) {
				if err := cl.Write(k); err != nil {
					return nil, err
				}
			}
			m, err := cl.Recv(60 * time.Second)
			if err != nil {
				return nil, err
			}
			return wire.DecodeMsg(m.Body)
		}
		cs := &ua.CreateSessionRequest{RequestHeader: ua.RequestHeader{Timestamp: time.Now(), RequestHandle: 1}, ClientDescription: ua.ApplicationDescription{ApplicationURI: "urn:verif:client"}, ClientNonce: ua.ByteString(wire.Nonce(32)), ClientCertificate: ua.ByteString(cl.Cert), RequestedSessionTimeout: 10000, EndpointURL: w.URL}
		x, err := call(cs)
		if r, ok := x.(*ua.CreateSessionResponse); ok && err == nil && r.ServiceResult == 0 {
			s := &wire.Session{Client: cl, Created: r, Token: r.AuthenticationToken, ServerNonce: []byte(r.ServerNonce), ServerCert: []byte(r.ServerCertificate)}
			tok = r.AuthenticationToken
			call(&ua.ActivateSessionRequest{RequestHeader: ua.RequestHeader{AuthenticationToken: tok, Timestamp: time.Now(), RequestHandle: 2}, ClientSignature: s.ClientSignature(), UserIdentityToken: s.Anonymous().Token})
			note("session")
		} else {
			note("no session (%v)", err)
		}
	}
	r := rand.New(rand.NewSource(p.seed))
	pool := &hostPool{}
	fatal := false // a complete frame was sent that nobody can accept
	framed := true // all before has the frames the peer can tell
	var out []byte
	for _, f := range p.frames {
		switch f.kind {
		case 0:
			note("%d random bytes", len(f.junk))
			out = append(out, f.junk...)
			framed = framed && len(f.junk) == 0
		case 1:
			note("hello")
			out = append(out, wire.Hello(0, 65536, 65536, 0, 0, w.URL)...)
			if p.stage > 0 && framed {
				fatal = true
			}
		case 2:
			h := wire.Hello(uint32(f.b%3), uint32(f.a), uint32(f.a/3), uint32(f.b), uint32(f.b), w.URL+string(f.junk))
			note("spoilt hello")
			out = append(out, smear(h, f.edits)...)
			framed = false
		case 3:
			k := []string{"ACKF", "ERRF", "RHEF", "XYZF", "\x00\x00\x00\x00", "hel ", "GET "}[f.b%7]
			note("%q", k)
			out = append(out, wire.Frame(k, f.junk)...)
			fatal = fatal || framed
		case 4:
			k := []string{"HELF", "OPNF", "MSGF", "MSGC", "MSGA", "CLOF"}[f.b%6]
			n := []uint32{0, 1, 7, 8, 9, 11, 12, 16, 23, 24, 25, 31, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 65536, 65537, 1 << 20}[f.a%18]
			note("%s of size %d", k, n)
			b := append([]byte(k), binary.LittleEndian.AppendUint32(nil, n)...)
			out = append(out, append(b, f.junk...)...)
			framed = false
		case 5:
			if p.stage == 0 {
				note("open without hello")
				fatal = fatal || framed
			} else {
				note("open spoilt")
			}
			b, err := wire.EncodeMsg(cl.OpenRequest(p.stage > 1 && f.b%2 == 0))
			if err == nil {
				raw := cl.SealAsym("OPNF", cl.NextSeq(), uint32(f.a), b)
				if p.stage > 0 {
					raw = smear(raw, f.edits)
					framed = false
				}
				out = append(out, raw...)
			}
		case 6:
			note("close channel")
			if p.stage > 1 {
				b, _ := wire.EncodeMsg(&ua.CloseSecureChannelRequest{RequestHeader: ua.RequestHeader{Timestamp: time.Now()}})
				out = append(out, cl.Seal("CLOF", cl.NextSeq(), cl.NextID(), b)...)
				fatal = fatal || framed
			} else {
				out = append(out, wire.Frame("CLOF", f.junk)...)
			}
		case 7:
			note("endless chunks")
			if p.stage > 1 {
				for i := 0; i < 20+f.b; i++ {
					out = append(out, cl.Seal("MSGC", cl.NextSeq(), uint32(f.a), f.junk)...)
				}
			} else {
				out = append(out, bytes.Repeat(wire.Frame("MSGC", f.junk), 5)...)
			}
		default:
			if p.stage < 2 {
				note("message")
				out = append(out, wire.Frame("MSGF", f.junk)...)
				break
			}
			pool.aim(f.req.v.Elem(), "", r)
			req := f.req.v.Interface().(ua.ServiceRequest)
			req.Header().AuthenticationToken = tok
			b, err := wire.EncodeMsg(req)
			if err != nil {
				break
			}
			name := f.req.name()
			switch f.kind {
			case 8: // the body spoilt, the message sealed
				note("%s spoilt and sealed", name)
				b = smear(b, f.edits)
				for _, k := range cl.Chunk("MSG", cl.NextID(), b, []int{len(b) * f.b / 256}) {
					out = append(out, k...)
				}
			case 9: // sealed and spoilt
				note("%s sealed and spoilt", name)
				out = append(out, smear(cl.Seal("MSGF", cl.NextSeq(), cl.NextID(), b), f.edits)...)
				framed = false
			case 10: // an abort in the middle
				note("%s aborted", name)
				id := cl.NextID()
				out = append(out, cl.Seal("MSGC", cl.NextSeq(), id, b[:len(b)/2])...)
				out = append(out, cl.Seal("MSGA", cl.NextSeq(), id, append([]byte{1, 2, 3, 0x80}, f.junk...))...)
			case 11: // two requests mixed
				note("%s mixed", name)
				i, j := cl.NextID(), cl.NextID()
				out = append(out, cl.Seal("MSGC", cl.NextSeq(), i, b[:len(b)/2])...)
				out = append(out, cl.Seal("MSGF", cl.NextSeq(), j, b)...)
				out = append(out, cl.Seal("MSGF", cl.NextSeq(), i, b[len(b)/2:])...)
			case 12: // any type id
				note("type %d", f.a)
				out = append(out, cl.Seal("MSGF", cl.NextSeq(), cl.NextID(), append(wire.TypeHeader(uint32(f.a%20000)), b[4:]...))...)
			default:
				note("%s", name)
				for _, k := range cl.Chunk("MSG", cl.NextID(), b, nil) {
					out = append(out, k...)
				}
			}
		}
	}
	// the answers have to be proper frames
	var mu sync.Mutex
	bad, ended := "", make(chan struct{})
	go func() {
		defer close(ended)
		h := make([]byte, 8)
		for {
			conn.SetReadDeadline(time.Now().Add(45 * time.Second))
			if _, err := io.ReadFull(conn, h); err != nil {
				if err == io.ErrUnexpectedEOF {
					mu.Lock()
					bad = "the last frame of the server is incomplete"
					mu.Unlock()
				}
				if errors.Is(err, os.ErrDeadlineExceeded) {
					mu.Lock()
					bad = "timeout"
					mu.Unlock()
				}
				return
			}
			n := binary.LittleEndian.Uint32(h[4:])
			switch k := string(h[:4]); {
			case k != "ACKF" && k != "ERRF" && k != "OPNF" && k != "MSGF" && k != "MSGC" && k != "MSGA" || n < 8 || n > 65536:
				mu.Lock()
				bad = fmt.Sprintf("the server sends a frame %x", h)
				mu.Unlock()
				return
			}
			if _, err := io.CopyN(io.Discard, conn, int64(n)-8); err != nil {
				return
			}
		}
	}()
	for _, c := range p.cuts {
		n := min(c, len(out))
		conn.Write(out[:n])
		out = out[n:]
		if c%3 == 0 {
			time.Sleep(time.Millisecond)
		}
	}
	conn.SetWriteDeadline(time.Now().Add(60 * time.Second))
	_, werr := conn.Write(out)
	if errors.Is(werr, os.ErrDeadlineExceeded) {
		return text(), "the server does not read any more"
	}
	tcp, _ := conn.(*net.TCPConn)
	switch {
	case p.end == 0 && fatal:
		note("waits for the end")
		select {
		case <-ended:
		case <-time.After(40 * time.Second):
			return text(), "the connection is not closed although nothing the server can accept was sent"
		}
	case p.end == 1 && tcp != nil:
		note("half closed")
		tcp.CloseWrite()
		select {
		case <-ended:
		case <-time.After(40 * time.Second):
			return text(), "the connection is not closed although its other half is"
		}
	case p.end == 2 && tcp != nil:
		note("reset")
		tcp.SetLinger(0)
	}
	conn.Close()
	<-ended
	mu.Lock()
	defer mu.Unlock()
	if bad == "timeout" {
		bad = ""
	}
	return text(), bad
}

func hostRaw(c *kit.C) {
	var ps []rawPlan
	for k := 0; k < 8; k++ {
		ps = append(ps, drawRaw(c.T))
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var hists, fails []string
	hists = make([]string, len(ps))
	for i, p := range ps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			h, f := p.run()
			mu.Lock()
			defer mu.Unlock()
			hists[i] = h
			if f != "" {
				fails = append(fails, f+" ("+h+")")
			}
		}()
	}
	wg.Wait()
	if text := strings.Join(fails, "; "); strings.Contains(text, "not closed") || strings.Contains(text, "does not read") {
		c.Hardf("%s", text)
	} else if text != "" {
		c.Failf("%s", text)
	}
	hHealth.check(c, func() string { return strings.Join(hists, "; ") })
	for _, h := range hists {
		c.NT(h)
	}
	c.Note("%s", hists[0])
}
