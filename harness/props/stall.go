package props

import (
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"time"

	"verif/harness/kit"
	"verif/harness/wire"

	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// Peers that do not read what they are sent.

type stallPlan struct {
	kind   int
	n      int
	size   int
	subs   int
	diag   bool
	rcvbuf int
}

func drawStall(t *rapid.T) stallPlan {
	return stallPlan{kind: rapid.IntRange(0, 3).Draw(t, "kind"), n: rapid.IntRange(50, 400).Draw(t, "n"), size: pick(t, "size", 1000, 60000, 400000), subs: rapid.IntRange(1, 4).Draw(t, "subs"), rcvbuf: pick(t, "rcvbuf", 2048, 65536)}
}

// stall starts a peer that stops reading; it returns the end of it.
func stall(p stallPlan) (string, func(), error) {
	hist := fmt.Sprintf("kind %d, %d requests, %d bytes, %d subscriptions", p.kind, p.n, p.size, p.subs)
	cl, err := wire.Connect(w.Addr, w.URL, wire.DefaultLimits, wire.NoSec)
	if err != nil {
		return hist, func() {}, err
	}
	if c, ok := cl.Conn.(*net.TCPConn); ok {
		c.SetReadBuffer(p.rcvbuf)
	}
	// no reader: answers are read only where needed
	call := func(req any) (any, error) {
		b, err := wire.EncodeMsg(req)
		if err != nil {
			return nil, err
		}
		for _, k := range cl.Chunk("MSG", cl.NextID(), b, nil) {
			if err := cl.Write(k); err != nil {
				return nil, err
			}
		}
		m, err := cl.Recv(20 * time.Second)
		if err != nil {
			return nil, err
		}
		return wire.DecodeMsg(m.Body)
	}
	h := uint32(0)
	hdr := func(tok ua.NodeID) ua.RequestHeader {
		h++
		return ua.RequestHeader{AuthenticationToken: tok, Timestamp: time.Now(), RequestHandle: h, TimeoutHint: 60000}
	}
	x, err := call(&ua.CreateSessionRequest{RequestHeader: hdr(nil), ClientDescription: ua.ApplicationDescription{ApplicationURI: "urn:stall"}, ClientNonce: ua.ByteString(wire.Nonce(32)), RequestedSessionTimeout: 3600000, EndpointURL: w.URL})
	if err != nil {
		return hist, cl.Drop, err
	}
	cs, ok := x.(*ua.CreateSessionResponse)
	if !ok {
		return hist, cl.Drop, fmt.Errorf("%T", x)
	}
	s := &wire.Session{Client: cl, Created: cs}
	if x, err = call(&ua.ActivateSessionRequest{RequestHeader: hdr(cs.AuthenticationToken), UserIdentityToken: s.Anonymous().Token}); err != nil {
		return hist, cl.Drop, err
	}
	if a, ok := x.(*ua.ActivateSessionResponse); !ok || a.ServiceResult != 0 {
		return hist, cl.Drop, fmt.Errorf("%T %v", x, x)
	}
	var ids []uint32
	for i := 0; i < p.subs; i++ {
		x, err = call(&ua.CreateSubscriptionRequest{RequestHeader: hdr(cs.AuthenticationToken), RequestedPublishingInterval: 125, RequestedLifetimeCount: 1000, RequestedMaxKeepAliveCount: 1, PublishingEnabled: true})
		if err != nil {
			return hist, cl.Drop, err
		}
		id := x.(*ua.CreateSubscriptionResponse).SubscriptionID
		ids = append(ids, id)
		x, err = call(&ua.CreateMonitoredItemsRequest{RequestHeader: hdr(cs.AuthenticationToken), SubscriptionID: id, ItemsToCreate: []ua.MonitoredItemCreateRequest{
			{ItemToMonitor: ua.ReadValueID{NodeID: hVars[4].NodeID(), AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: ua.MonitoringParameters{ClientHandle: 1, QueueSize: 10}},
			{ItemToMonitor: ua.ReadValueID{NodeID: ua.ObjectIDServer, AttributeID: ua.AttributeIDEventNotifier}, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: ua.MonitoringParameters{ClientHandle: 2, QueueSize: 100,
				Filter: ua.EventFilter{SelectClauses: []ua.SimpleAttributeOperand{{TypeDefinitionID: ua.ObjectTypeIDBaseEventType, BrowsePath: []ua.QualifiedName{qn(0, "Message")}, AttributeID: ua.AttributeIDValue}}}}}}})
		if err != nil {
			return hist, cl.Drop, err
		}
	}
	// from here on nothing is read
	rng := rand.New(rand.NewSource(int64(p.n)))
	go func() {
		cl.Conn.SetWriteDeadline(time.Now().Add(20 * time.Second))
		for i := 0; i < p.n; i++ {
			var req any
			switch {
			case p.kind == 0 || p.kind == 3 && rng.Intn(2) == 0:
				req = &ua.PublishRequest{RequestHeader: hdr(cs.AuthenticationToken)}
				if i%32 == 31 {
					time.Sleep(30 * time.Millisecond)
				}
			case p.kind == 1:
				req = &ua.ReadRequest{RequestHeader: hdr(cs.AuthenticationToken), NodesToRead: []ua.ReadValueID{{NodeID: hVars[4].NodeID(), AttributeID: ua.AttributeIDValue}, {NodeID: hVars[4].NodeID(), AttributeID: ua.AttributeIDValue}}}
			case p.kind == 2:
				req = &ua.CallRequest{RequestHeader: hdr(cs.AuthenticationToken), MethodsToCall: []ua.CallMethodRequest{{ObjectID: ua.ObjectIDServer, MethodID: ua.MethodIDServerResendData, InputArguments: []ua.Variant{ids[i%len(ids)]}}}}
				if i%2 == 0 {
					req = &ua.PublishRequest{RequestHeader: hdr(cs.AuthenticationToken)}
				}
			default:
				req = &ua.BrowseRequest{RequestHeader: hdr(cs.AuthenticationToken), NodesToBrowse: []ua.BrowseDescription{{NodeID: ua.ObjectIDServer, ResultMask: 63, BrowseDirection: ua.BrowseDirectionBoth}, {NodeID: ua.ObjectIDTypesFolder, ResultMask: 63, BrowseDirection: ua.BrowseDirectionBoth}}}
			}
			b, err := wire.EncodeMsg(req)
			if err != nil {
				return
			}
			for _, k := range cl.Chunk("MSG", cl.NextID(), b, nil) {
				if err := cl.Write(k); err != nil {
					return
				}
			}
		}
	}()
	return hist, func() {
		cl.Drop()
		for _, id := range ids {
			if s, ok := w.SubscriptionManager().Get(id); ok {
				w.SubscriptionManager().Delete(s)
				go s.Delete()
			}
		}
	}, nil
}

func hostStall(c *kit.C) {
	var ps []stallPlan
	for k := rapid.IntRange(3, 6).Draw(c.T, "peers"); k > 0; k-- {
		ps = append(ps, drawStall(c.T))
	}
	var hists []string
	var ends []func()
	var mu sync.Mutex
	var wg sync.WaitGroup
	size := 0
	for _, p := range ps {
		size = max(size, p.size)
	}
	hVars[4].SetValue(ua.DataValue{Value: ua.ByteString(strings.Repeat("x", size))})
	for _, p := range ps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			h, end, err := stall(p)
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				h += fmt.Sprintf(" (%v)", err)
			}
			hists = append(hists, h)
			ends = append(ends, end)
		}()
	}
	wg.Wait()
	hist := strings.Join(hists, "; ")
	// the values change until every buffer is full
	if !kit.Within(60*time.Second, func() {
		for i := 0; i < 40; i++ {
			b := []byte(strings.Repeat("x", size))
			b[0] = byte(i)
			hVars[4].SetValue(ua.DataValue{Value: ua.ByteString(b)})
			hObj.OnEvent(&ua.BaseEvent{EventType: ua.ObjectTypeIDBaseEventType, Severity: uint16(i), Message: lt(strings.Repeat("m", size/10))})
			time.Sleep(60 * time.Millisecond)
		}
	}) {
		c.Hardf("the application cannot set values and raise events any more (%s)", hist)
	}
	for i := 0; i < 4; i++ {
		hHealth.n = 2 // with a new session and diagnostics
		hHealth.check(c, func() string { return "peers that do not read: " + hist })
		time.Sleep(50 * time.Millisecond)
	}
	for _, e := range ends {
		e()
	}
	for _, h := range hists {
		c.NT(h)
	}
	c.Note("%s", hist)
}
