package props

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/kit"
	"verif/harness/wire"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// Session tokens: which requests a server executes.

var (
	tokVar   *server.VariableNode
	tokCalls atomic.Int64
	tokObj   = ua.NewNodeIDString(2, "tok-obj")
	tokMeth  = ua.NewNodeIDString(2, "tok-meth")
	tokVarID = ua.NewNodeIDString(2, "tok-var")
	tokMu    sync.Mutex
	tokSeen  [][]byte
)

func tokNodes() {
	tokVar = w.variable(tokVarID, int64(0), ua.DataTypeIDInt64, ua.ValueRankScalar, ua.AccessLevelsCurrentRead|ua.AccessLevelsCurrentWrite)
	o := server.NewObjectNode(w.Server, tokObj, qn(2, "o"), lt("o"), lt(""), nil, objRefs(ua.ObjectIDObjectsFolder), 0)
	m := server.NewMethodNode(w.Server, tokMeth, qn(2, "m"), lt("m"), lt(""), nil, []ua.Reference{ua.NewReference(ua.ReferenceTypeIDHasComponent, true, ua.NewExpandedNodeID(tokObj))}, true)
	m.SetCallMethodHandler(func(s *server.Session, r ua.CallMethodRequest) ua.CallMethodResult {
		tokCalls.Add(1)
		return ua.CallMethodResult{}
	})
	w.add(tokVar, o, m)
}

func tokSetup() func() {
	setup(server.WithMaxSessionCount(100000), server.WithMaxSubscriptionCount(100000))()
	tokNodes()
	return func() {}
}

// callAs sends a request with any token.
func callAs[T any](cl *wire.Client, tok ua.NodeID, req ua.ServiceRequest) (*T, error) {
	*req.Header() = ua.RequestHeader{AuthenticationToken: tok, Timestamp: time.Now(), RequestHandle: tokHandle.Add(1), TimeoutHint: 60000}
	x, err := cl.Call(req)
	return wire.As[T](req, x, err)
}

var tokHandle atomic.Uint32
var tokVal atomic.Int64

var tokServices = []string{"read", "write", "call", "browse", "browseNext", "translate", "register", "unregister", "createSub", "modifySub", "publishingMode", "deleteSub",
	"createItems", "modifyItems", "monitoringMode", "deleteItems", "history", "republish", "publish", "cancel", "triggering", "close", "closeKeep"}

// tokCall makes one call; ok says that it was executed, err that the connection misbehaves.
func tokCall(cl *wire.Client, tok ua.NodeID, svc string, sub, item uint32) (code ua.StatusCode, id uint32, err error) {
	f := func(e error) { err = e }
	switch svc {
	case "read":
		_, e := callAs[ua.ReadResponse](cl, tok, &ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: tokVarID, AttributeID: ua.AttributeIDValue}}})
		f(e)
	case "write":
		_, e := callAs[ua.WriteResponse](cl, tok, &ua.WriteRequest{NodesToWrite: []ua.WriteValue{{NodeID: tokVarID, AttributeID: ua.AttributeIDValue, Value: ua.DataValue{Value: tokVal.Add(1)}}}})
		f(e)
	case "call":
		_, e := callAs[ua.CallResponse](cl, tok, &ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{{ObjectID: tokObj, MethodID: tokMeth}}})
		f(e)
	case "browse":
		_, e := callAs[ua.BrowseResponse](cl, tok, &ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: ua.ObjectIDObjectsFolder, BrowseDirection: ua.BrowseDirectionForward, ResultMask: 63}}})
		f(e)
	case "browseNext":
		_, e := callAs[ua.BrowseNextResponse](cl, tok, &ua.BrowseNextRequest{ContinuationPoints: []ua.ByteString{"x"}})
		f(e)
	case "translate":
		_, e := callAs[ua.TranslateBrowsePathsToNodeIDsResponse](cl, tok, &ua.TranslateBrowsePathsToNodeIDsRequest{BrowsePaths: []ua.BrowsePath{{StartingNode: ua.ObjectIDObjectsFolder, RelativePath: ua.RelativePath{Elements: []ua.RelativePathElement{{ReferenceTypeID: ua.ReferenceTypeIDOrganizes, TargetName: qn(0, "Server")}}}}}})
		f(e)
	case "register":
		_, e := callAs[ua.RegisterNodesResponse](cl, tok, &ua.RegisterNodesRequest{NodesToRegister: []ua.NodeID{tokVarID}})
		f(e)
	case "unregister":
		_, e := callAs[ua.UnregisterNodesResponse](cl, tok, &ua.UnregisterNodesRequest{NodesToUnregister: []ua.NodeID{tokVarID}})
		f(e)
	case "createSub":
		r, e := callAs[ua.CreateSubscriptionResponse](cl, tok, &ua.CreateSubscriptionRequest{RequestedPublishingInterval: 30000, RequestedLifetimeCount: 1000, RequestedMaxKeepAliveCount: 100})
		f(e)
		if r != nil {
			id = r.SubscriptionID
		}
	case "modifySub":
		_, e := callAs[ua.ModifySubscriptionResponse](cl, tok, &ua.ModifySubscriptionRequest{SubscriptionID: sub, RequestedPublishingInterval: 31000, RequestedLifetimeCount: 1000, RequestedMaxKeepAliveCount: 100})
		f(e)
	case "publishingMode":
		_, e := callAs[ua.SetPublishingModeResponse](cl, tok, &ua.SetPublishingModeRequest{PublishingEnabled: true, SubscriptionIDs: []uint32{sub}})
		f(e)
	case "deleteSub":
		_, e := callAs[ua.DeleteSubscriptionsResponse](cl, tok, &ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{sub}})
		f(e)
	case "createItems":
		r, e := callAs[ua.CreateMonitoredItemsResponse](cl, tok, &ua.CreateMonitoredItemsRequest{SubscriptionID: sub, ItemsToCreate: []ua.MonitoredItemCreateRequest{{
			ItemToMonitor: ua.ReadValueID{NodeID: tokVarID, AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: ua.MonitoringParameters{SamplingInterval: 30000, QueueSize: 1}}}})
		f(e)
		if r != nil && len(r.Results) == 1 {
			id = r.Results[0].MonitoredItemID
		}
	case "modifyItems":
		_, e := callAs[ua.ModifyMonitoredItemsResponse](cl, tok, &ua.ModifyMonitoredItemsRequest{SubscriptionID: sub, ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: item, RequestedParameters: ua.MonitoringParameters{SamplingInterval: 31000, QueueSize: 1}}}})
		f(e)
	case "monitoringMode":
		_, e := callAs[ua.SetMonitoringModeResponse](cl, tok, &ua.SetMonitoringModeRequest{SubscriptionID: sub, MonitoringMode: ua.MonitoringModeSampling, MonitoredItemIDs: []uint32{item}})
		f(e)
	case "deleteItems":
		_, e := callAs[ua.DeleteMonitoredItemsResponse](cl, tok, &ua.DeleteMonitoredItemsRequest{SubscriptionID: sub, MonitoredItemIDs: []uint32{item}})
		f(e)
	case "history":
		_, e := callAs[ua.HistoryReadResponse](cl, tok, &ua.HistoryReadRequest{HistoryReadDetails: ua.ReadRawModifiedDetails{NumValuesPerNode: 1}, NodesToRead: []ua.HistoryReadValueID{{NodeID: tokVarID}}})
		f(e)
	case "republish":
		_, e := callAs[ua.RepublishResponse](cl, tok, &ua.RepublishRequest{SubscriptionID: sub, RetransmitSequenceNumber: 1})
		f(e)
	case "publish":
		_, e := callAs[ua.PublishResponse](cl, tok, &ua.PublishRequest{})
		f(e)
	case "cancel":
		_, e := callAs[ua.CancelResponse](cl, tok, &ua.CancelRequest{})
		f(e)
	case "triggering":
		_, e := callAs[ua.SetTriggeringResponse](cl, tok, &ua.SetTriggeringRequest{SubscriptionID: sub, TriggeringItemID: item, LinksToAdd: []uint32{item}})
		f(e)
	case "close", "closeKeep":
		_, e := callAs[ua.CloseSessionResponse](cl, tok, &ua.CloseSessionRequest{DeleteSubscriptions: svc == "close"})
		f(e)
	}
	if c := wire.CodeOf(err); c != 0 {
		return c, id, nil
	}
	return 0, id, err
}

func sessionCode(c ua.StatusCode) bool {
	return in(c, ua.BadSessionIDInvalid, ua.BadSessionNotActivated, ua.BadSecureChannelIDInvalid, ua.BadSessionClosed, ua.BadSecurityChecksFailed)
}

type tokSes struct {
	n      int
	s      *wire.Session
	cert   string
	active int
	gone   bool
	sub    uint32
	item   uint32
}

// tokFresh checks that a token is long and unlike all others.
func tokFresh(c *kit.C, s *wire.Session) {
	o, ok := s.Token.(ua.NodeIDOpaque)
	if !ok || len(o.ID) < 16 {
		c.Failf("the authentication token is %v: short enough to be guessed", s.Token)
	}
	if s.SessionID == nil || s.SessionID == s.Token {
		c.Failf("session id %v, token %v", s.SessionID, s.Token)
	}
	b := []byte(o.ID)
	tokMu.Lock()
	defer tokMu.Unlock()
	vals := map[byte]bool{}
	for _, x := range b {
		vals[x] = true
	}
	if len(vals) < len(b)/3 {
		c.Failf("the authentication token %x has little entropy", b)
	}
	for _, q := range tokSeen {
		same := 0
		for i := range b {
			if i < len(q) && q[i] == b[i] {
				same++
			}
		}
		if same > len(b)/3 {
			c.Failf("the authentication tokens %x and %x are alike", b, q)
		}
	}
	if len(tokSeen) < 4000 {
		tokSeen = append(tokSeen, b)
	}
	if i, ok := s.SessionID.(ua.NodeIDOpaque); ok && (strings.Contains(string(b), string(i.ID)) || strings.Contains(string(i.ID), string(b[:8]))) {
		c.Failf("the token %x can be told from the session id %x", b, i.ID)
	}
}

func tokens(c *kit.C) {
	t := c.T
	var hist []string
	fail := func(f string, a ...any) { c.Failf("%s (%s)", fmt.Sprintf(f, a...), strings.Join(hist, "; ")) }
	var cls []*wire.Client
	var secs []wire.Sec
	dead := map[int]bool{}
	defer func() {
		for _, cl := range cls {
			cl.Drop()
		}
	}()
	open := func(sec wire.Sec) {
		cl, err := wire.Connect(w.Addr, w.URL, wire.DefaultLimits, sec)
		if err != nil {
			fail("a channel cannot be opened: %v", err)
		}
		cl.Start()
		cls, secs = append(cls, cl), append(secs, sec)
		hist = append(hist, fmt.Sprintf("channel %d %s", len(cls)-1, secName(sec)))
	}
	draw := func() wire.Sec {
		if rapid.IntRange(0, 3).Draw(t, "secured") > 0 {
			return wire.NoSec
		}
		return drawSec(t, true)
	}
	open(draw())
	for k := rapid.IntRange(0, 2).Draw(t, "more"); k > 0; k-- {
		if rapid.IntRange(0, 2).Draw(t, "alike") > 0 {
			open(secs[0])
		} else {
			open(draw())
		}
	}
	certOf := func(i int) string {
		if secs[i].Client == nil {
			return ""
		}
		return string(secs[i].Client.DER)
	}
	var ss []*tokSes
	liveChan := func(l string) int {
		var is []int
		for i := range cls {
			if !dead[i] {
				is = append(is, i)
			}
		}
		if len(is) == 0 {
			open(secs[0])
			return len(cls) - 1
		}
		return pick(t, l, is...)
	}
	check := func(b string, val, calls int64, subs int, executed bool, svc string) {
		if executed {
			return
		}
		if v := tokVar.Value().Value; v != val {
			fail("%s: refused, yet the value changes from %d to %v", b, val, v)
		}
		if n := tokCalls.Load(); n != calls {
			fail("%s: refused, yet the method is called", b)
		}
		if n := w.SubscriptionManager().Len(); n != subs {
			fail("%s: refused, yet there are %d subscriptions instead of %d", b, n, subs)
		}
	}
	state := func() (int64, int64, int) {
		return tokVar.Value().Value.(int64), tokCalls.Load(), w.SubscriptionManager().Len()
	}
	// use makes a call and judges it
	use := func(x *tokSes, j int, tok ua.NodeID, svc, what string, want bool, sub, item uint32) {
		v, n, l := state()
		b := fmt.Sprintf("%s on channel %d with %s", svc, j, what)
		hist = append(hist, b)
		code, id, err := tokCall(cls[j], tok, svc, sub, item)
		if err != nil {
			fail("%s ends with %v", b, err)
		}
		if !want {
			if !sessionCode(code) {
				fail("%s is not refused: %s", b, hx(code))
			}
			check(b, v, n, l, false, svc)
			if x != nil && x.sub != 0 {
				sb, ok := w.SubscriptionManager().Get(x.sub)
				if !ok {
					fail("%s: refused, yet the subscription is gone", b)
				}
				if x.item != 0 {
					if _, ok := sb.FindItem(x.item); !ok {
						fail("%s: refused, yet the item is gone", b)
					}
				}
			}
			return
		}
		if sessionCode(code) {
			fail("%s is refused with %s", b, hx(code))
		}
		if code != 0 && !in(svc, "history", "republish", "publish") {
			fail("%s gets %s", b, hx(code))
		}
		switch svc {
		case "createSub":
			x.sub, x.item = id, 0
		case "deleteSub":
			x.sub, x.item = 0, 0
		case "createItems":
			x.item = id
		case "deleteItems":
			x.item = 0
		case "close", "closeKeep":
			x.gone, x.sub, x.item = true, 0, 0
		case "write":
			if tokVar.Value().Value != tokVal.Load() {
				fail("%s has no effect", b)
			}
		case "call":
			if tokCalls.Load() != n+1 {
				fail("%s has no effect", b)
			}
		}
	}
	// needs brings a session into the state a service needs
	needs := func(x *tokSes, svc string) bool {
		if in(svc, "modifySub", "publishingMode", "deleteSub", "createItems", "modifyItems", "monitoringMode", "deleteItems", "triggering", "republish") && x.sub == 0 {
			if x.active < 0 || x.gone {
				return false
			}
			use(x, x.active, x.s.Token, "createSub", fmt.Sprintf("session %d", x.n), true, 0, 0)
		}
		if in(svc, "modifyItems", "monitoringMode", "deleteItems", "triggering") && x.item == 0 {
			if x.active < 0 || x.gone {
				return false
			}
			use(x, x.active, x.s.Token, "createItems", fmt.Sprintf("session %d", x.n), true, x.sub, 0)
		}
		return true
	}
	refused, served := 0, 0
	for k := rapid.IntRange(4, 14).Draw(t, "steps"); k > 0; k-- {
		var x *tokSes
		if len(ss) > 0 {
			x = ss[rapid.IntRange(0, len(ss)-1).Draw(t, "session")]
		}
		op := rapid.IntRange(0, 11).Draw(t, "op")
		if x == nil || op == 0 {
			i := liveChan("on")
			s, err := cls[i].CreateSession(wire.CreateOpts{})
			if err != nil {
				fail("a session cannot be created: %v", err)
			}
			tokFresh(c, s)
			x = &tokSes{n: len(ss), s: s, cert: certOf(i), active: -1}
			ss = append(ss, x)
			hist = append(hist, fmt.Sprintf("session %d on channel %d", x.n, i))
			if rapid.IntRange(0, 4).Draw(t, "later") > 0 {
				if err := s.Activate(s.Anonymous()); err != nil {
					fail("session %d cannot be activated: %v", x.n, err)
				}
				x.active = i
				hist = append(hist, fmt.Sprintf("activate session %d", x.n))
			}
			continue
		}
		svc := pick(t, "service", tokServices...)
		switch {
		case op == 1: // (re-)activation
			j := liveChan("channel")
			if x.cert != certOf(j) {
				continue
			}
			x.s.Client = cls[j]
			if rapid.IntRange(0, 2).Draw(t, "refused activation") == 0 {
				// changes nothing
				hist = append(hist, fmt.Sprintf("refused activation of session %d on channel %d", x.n, j))
				id := pick[any](t, "identity", ua.AnonymousIdentityToken{PolicyID: "nope"}, ua.UserNameIdentityToken{PolicyID: "nope", UserName: "a", Password: "b"}, ua.IssuedIdentityToken{PolicyID: "nope"})
				if rapid.Bool().Draw(t, "wrong password") {
					id = x.s.UserName("nobody", "nothing").Token
				}
				sig := x.s.ClientSignature()
				if x.s.Client.Suite.URI != wire.None && rapid.Bool().Draw(t, "spoil signature") {
					sig.Signature = ua.ByteString("no signature")
					id = x.s.Anonymous().Token
				}
				if err := x.s.ActivateWith(wire.Identity{Token: id}, sig); wire.CodeOf(err) == 0 {
					fail("an activation with %#v succeeds or gets no answer: %v", id, err)
				}
				c.Label("refused activations")
				continue
			}
			hist = append(hist, fmt.Sprintf("activate session %d on channel %d", x.n, j))
			err := x.s.Activate(x.s.Anonymous())
			if x.gone {
				if wire.CodeOf(err) == 0 {
					fail("a closed session is activated again: %v", err)
				}
				continue
			}
			if err != nil {
				fail("session %d cannot be activated: %v", x.n, err)
			}
			x.active = j
		case op == 2 && rapid.Bool().Draw(t, "really"): // connection lost
			j := liveChan("lost")
			hist = append(hist, fmt.Sprintf("lose channel %d", j))
			cls[j].Drop()
			dead[j] = true
			for _, y := range ss {
				if y.active == j {
					y.active = -2 // activated somewhere, but not here
				}
			}
		case op == 3: // a token that is not one
			j := liveChan("channel")
			b := []byte(x.s.Token.(ua.NodeIDOpaque).ID)
			var tok ua.NodeID
			switch rapid.IntRange(0, 8).Draw(t, "token") {
			case 0:
				tok = nil
			case 1:
				tok = ua.NewNodeIDNumeric(0, uint32(rapid.IntRange(0, 5).Draw(t, "n")))
			case 2:
				tok = ua.NewNodeIDOpaque(0, ua.ByteString(b[:len(b)-1]))
			case 3:
				b2 := append([]byte(nil), b...)
				b2[rapid.IntRange(0, len(b)-1).Draw(t, "at")] ^= byte(1 << rapid.IntRange(0, 7).Draw(t, "bit"))
				tok = ua.NewNodeIDOpaque(0, ua.ByteString(b2))
			case 4:
				tok = x.s.SessionID
			case 5:
				tok = ua.NewNodeIDOpaque(1, ua.ByteString(b))
			case 6:
				tok = ua.NewNodeIDString(0, string(b))
			case 7:
				tok = ua.NewNodeIDOpaque(0, "")
			case 8:
				tok = ua.NewNodeIDOpaque(0, ua.ByteString(append(append([]byte(nil), b...), 0)))
			}
			refused++
			use(x, j, tok, svc, fmt.Sprintf("token %v", tok), false, x.sub, x.item)
		case op == 4: // many at once
			if len(ss) < 1 {
				continue
			}
			var wg sync.WaitGroup
			errs := make(chan string, 1000)
			hist = append(hist, "reads everywhere at once")
			rnd := rand.New(rand.NewSource(int64(rapid.IntRange(0, 1<<20).Draw(t, "seed"))))
			for _, y := range ss {
				if y.active == -1 && !y.gone {
					continue // such a request ends the session
				}
				for j := range cls {
					if dead[j] {
						continue
					}
					for q := rnd.Intn(4); q > 0; q-- {
						wg.Add(1)
						go func() {
							defer wg.Done()
							code, _, err := tokCall(cls[j], y.s.Token, "read", 0, 0)
							want := !y.gone && y.active == j
							if err != nil || want != (code == 0) {
								errs <- fmt.Sprintf("a read on channel %d with session %d gets %s %v", j, y.n, hx(code), err)
							}
						}()
					}
				}
			}
			wg.Wait()
			select {
			case e := <-errs:
				fail("%s", e)
			default:
			}
		default:
			j := liveChan("channel")
			if op >= 8 && x.active >= 0 && !x.gone {
				j = x.active
			}
			if in(svc, "close", "closeKeep") && rapid.IntRange(0, 2).Draw(t, "close") > 0 {
				svc = "read"
			}
			want := !x.gone && x.active == j
			if !needs(x, svc) {
				svc = "read"
			}
			if svc == "publish" && want {
				if x.sub != 0 {
					svc = "read"
				}
			}
			if want {
				served++
			} else {
				refused++
			}
			use(x, j, x.s.Token, svc, fmt.Sprintf("session %d", x.n), want, x.sub, x.item)
			if x.active == -1 && !want {
				x.gone = true // a request before the activation ends the session
			}
		}
	}
	for _, x := range ss {
		if x.active >= 0 && !x.gone {
			use(x, x.active, x.s.Token, "read", fmt.Sprintf("session %d", x.n), true, 0, 0)
			use(x, x.active, x.s.Token, []string{"close", "closeKeep"}[x.n%2], fmt.Sprintf("session %d", x.n), true, 0, 0)
			use(nil, x.active, x.s.Token, "read", fmt.Sprintf("closed session %d", x.n), false, 0, 0)
		}
	}
	if refused > 0 {
		c.NT(strings.Join(hist, ";"))
	}
	c.Label(fmt.Sprintf("refused %d served %d", min(refused, 4), min(served, 4)))
}

// discovery: a server that does not offer the unsecured policy.
func discovery(c *kit.C) {
	t := c.T
	if worlds["nonone"] == nil {
		s := startSrv("r2048_1", server.WithAnonymousIdentity(true), server.WithInsecureSkipVerify(), server.WithMaxSessionCount(100000), server.WithMaxSubscriptionCount(100000),
			server.WithRolePermissions([]ua.RolePermissionType{{RoleID: role(0), Permissions: allPerms}}), server.WithGetRolesFunc(rolesOf))
		worlds["nonone"] = &world{Srv: s, name: map[string]*wire.Session{}}
		s.NamespaceManager().Add("urn:verif:ns2")
		w = worlds["nonone"]
		tokNodes()
	}
	w = worlds["nonone"]
	sec := drawSec(t, true)
	ses, err := wire.NewSessionAs(w.Addr, w.URL, sec, func(s *wire.Session) wire.Identity { return s.Anonymous() })
	if err != nil {
		c.Failf("a secured session cannot be made: %v", err)
	}
	defer ses.Drop()
	_, sub, err := tokCall(ses.Client, ses.Token, "createSub", 0, 0)
	if err != nil {
		c.Failf("createSub: %v", err)
	}
	_, item, err := tokCall(ses.Client, ses.Token, "createItems", sub, 0)
	if err != nil {
		c.Failf("createItems: %v", err)
	}
	for k := rapid.IntRange(1, 5).Draw(t, "tries"); k > 0; k-- {
		cl, err := wire.Connect(w.Addr, w.URL, wire.DefaultLimits, wire.NoSec)
		if err != nil {
			c.Failf("discovery is not possible: %v", err)
		}
		cl.Start()
		for q := rapid.IntRange(0, 2).Draw(t, "discover"); q > 0; q-- {
			if rapid.Bool().Draw(t, "which") {
				r, err := callAs[ua.GetEndpointsResponse](cl, nil, &ua.GetEndpointsRequest{EndpointURL: w.URL})
				if err != nil || len(r.Endpoints) == 0 {
					c.Failf("GetEndpoints: %v %v", r, err)
				}
				for _, e := range r.Endpoints {
					if e.SecurityPolicyURI == wire.None || e.SecurityMode == ua.MessageSecurityModeNone {
						c.Failf("a server without the unsecured policy offers it")
					}
				}
			} else if r, err := callAs[ua.FindServersResponse](cl, nil, &ua.FindServersRequest{EndpointURL: w.URL}); err != nil || len(r.Servers) == 0 {
				c.Failf("FindServers: %v %v", r, err)
			}
		}
		v, n, l := tokVar.Value().Value.(int64), tokCalls.Load(), w.SubscriptionManager().Len()
		sl := w.SessionManager().Len()
		svc := pick(t, "service", append([]string{"create", "activate", "create", "activate"}, tokServices...)...)
		var code ua.StatusCode
		done := false
		switch svc {
		case "create":
			_, err = cl.CreateSession(wire.CreateOpts{})
			done = err == nil
		case "activate":
			s2 := *ses
			s2.Client = cl
			id := ua.AnonymousIdentityToken{PolicyID: ses.Anonymous().Token.(ua.AnonymousIdentityToken).PolicyID}
			err = s2.ActivateWith(wire.Identity{Token: id}, ua.SignatureData{})
			done = err == nil
		default:
			code, _, err = tokCall(cl, ses.Token, svc, sub, item)
			done = err == nil && !code.IsBad()
		}
		if done || tokVar.Value().Value != v || tokCalls.Load() != n || w.SubscriptionManager().Len() != l || w.SessionManager().Len() != sl {
			c.Failf("%s is executed on an unsecured connection to a server that does not offer it (%s)", svc, secName(sec))
		}
		if err == nil && !sessionCode(code) && !in(code, ua.BadSecurityPolicyRejected, ua.BadSecurityModeRejected, ua.BadServiceUnsupported) {
			c.Failf("%s on an unsecured connection gets %s", svc, hx(code))
		}
		cl.Drop()
		c.NT(fmt.Sprint(svc, secName(sec)))
		c.Label(svc)
	}
	// the session is as it was
	if sb, ok := w.SubscriptionManager().Get(sub); !ok {
		c.Failf("the subscription is gone")
	} else if _, ok := sb.FindItem(item); !ok {
		c.Failf("the item is gone")
	}
	if code, _, err := tokCall(ses.Client, ses.Token, "close", 0, 0); err != nil || code != 0 {
		c.Failf("the secured session is impaired: %s %v", hx(code), err)
	}
}

// expiry: sessions end when their timeout passes without requests, and not before.
func expiry(c *kit.C) {
	t := c.T
	type plan struct {
		req    float64
		gaps   []float64 // share of the timeout
		last   float64
		active bool
	}
	var ps []plan
	for k := 0; k < 24; k++ {
		p := plan{req: pick(t, "timeout", 10000.0, 10000, 10500, 11000, 12000, 9000, 1, -5, 13000), active: rapid.IntRange(0, 5).Draw(t, "active") > 0}
		for q := rapid.IntRange(0, 2).Draw(t, "uses"); q > 0; q-- {
			p.gaps = append(p.gaps, rapid.Float64Range(0.05, 0.95).Draw(t, "gap"))
		}
		p.last = rapid.Float64Range(1.01, 1.3).Draw(t, "last")
		ps = append(ps, p)
	}
	errs := make(chan string, len(ps))
	var wg sync.WaitGroup
	for i, p := range ps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs <- func() string {
				cl, err := wire.Connect(w.Addr, w.URL, wire.DefaultLimits, wire.NoSec)
				if err != nil {
					return fmt.Sprint("connect: ", err)
				}
				defer cl.Drop()
				cl.Start()
				sent := time.Now()
				s, err := cl.CreateSession(wire.CreateOpts{Timeout: p.req})
				got := time.Now()
				if err != nil {
					return fmt.Sprint("create: ", err)
				}
				want := min(max(p.req, 10000), 3600000)
				if s.Timeout != want {
					return fmt.Sprintf("timeout %v revised to %v", p.req, s.Timeout)
				}
				to := time.Duration(s.Timeout * float64(time.Millisecond))
				touch := func() error {
					if p.active {
						code, _, err := tokCall(cl, s.Token, "read", 0, 0)
						if err == nil && code != 0 {
							err = &wire.Fault{Code: code}
						}
						return err
					}
					return s.Activate(s.Anonymous())
				}
				if p.active {
					s0 := time.Now()
					if err := s.Activate(s.Anonymous()); err != nil {
						return fmt.Sprint("activate: ", err)
					}
					sent, got = s0, time.Now()
				}
				for _, g := range p.gaps {
					time.Sleep(time.Until(got.Add(time.Duration(g * float64(to)))))
					s0 := time.Now()
					err := touch()
					s1 := time.Now()
					p.active = true
					if err != nil {
						if s1.Sub(sent) < to-5*time.Millisecond {
							return fmt.Sprintf("session %d with timeout %v is refused (%v) after %v without requests", i, to, err, s1.Sub(sent))
						}
						return ""
					}
					sent, got = s0, s1
				}
				time.Sleep(time.Until(got.Add(time.Duration(p.last * float64(to)))))
				if idle := time.Since(got); idle > to+5*time.Millisecond {
					if err := touch(); err == nil {
						return fmt.Sprintf("session %d with timeout %v serves a request after %v without requests", i, to, idle)
					} else if !sessionCode(wire.CodeOf(err)) {
						return fmt.Sprintf("a request in an expired session ends with %v", err)
					}
					if err := s.Activate(s.Anonymous()); err == nil {
						return fmt.Sprintf("session %d is activated after it expired", i)
					}
				}
				return ""
			}()
		}()
	}
	wg.Wait()
	for range ps {
		if e := <-errs; e != "" {
			c.Hardf("%s", e)
		}
	}
	for i, p := range ps {
		c.NT(fmt.Sprintf("%d %v", i, p))
	}
}

func init() {
	kit.Register(&kit.Check{
		ID:          "C11",
		Rule:        "tokens: histories over up to three channels and several sessions (create, activate, move, use, close, lose) in which every service is sent with right, foreign, closed, not yet activated and forged tokens, one at a time and all at once; discovery: every service on an unsecured connection to a server that does not offer it; expiry: 24 sessions at a time are used with random pauses below and above their timeout; non-trivial: histories with a refused request, refused discoveries, sessions",
		Assumptions: []string{"a request before the activation ends the session (as OPC UA Part 4 demands), so such a session is not used again", "pauses are judged by the client's clock around requests, which is exact whatever the load"},
		Subs: []kit.Sub{{Name: "tokens", Quick: 1500, Thorough: 100000, Shards: 4, Setup: tokSetup, Fn: tokens},
			{Name: "discovery", Quick: 200, Thorough: 10000, Shards: 2, Fn: discovery},
			{Name: "expiry", Quick: 1, Thorough: 60, Shards: 1, Setup: tokSetup, Fn: expiry}},
	})
}
