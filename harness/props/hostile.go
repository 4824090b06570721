package props

import (
	"fmt"
	"math/rand"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
	"verif/harness/wire"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// Hostile peers: any requests, any bytes, any behaviour of the connection, while a healthy session is watched.

var (
	hReqs    []reflect.Type // request types
	hFilters []reflect.Type
	hNodes   []ua.NodeID
	hVars    []*server.VariableNode
	hObj     *server.ObjectNode
	hGone    *server.VariableNode
	hGoneMu  sync.Mutex
	hHealth  *health
)

// health is a well-behaved client.
type health struct {
	s    *wire.Session
	node *server.VariableNode
	sub  uint32
	item uint32
	ev   uint32
	val  int64
	n    int
}

func hostSetup() func() {
	stop := setup(server.WithServerCapabilities(fastCaps()), server.WithMaxSessionCount(100000), server.WithMaxSubscriptionCount(100000), server.WithHistorian(&recorder{}))()
	for _, s := range ref.Structs() {
		n := s.Type.Name()
		if strings.HasSuffix(n, "Request") {
			if _, ok := reflect.New(s.Type).Interface().(ua.ServiceRequest); ok {
				hReqs = append(hReqs, s.Type)
			}
		}
		if strings.HasSuffix(n, "Filter") || strings.HasSuffix(n, "Details") || strings.HasSuffix(n, "Operand") || strings.HasSuffix(n, "IdentityToken") {
			hFilters = append(hFilters, s.Type)
		}
	}
	sort.Slice(hReqs, func(i, j int) bool { return hReqs[i].Name() < hReqs[j].Name() })
	all := hReqs
	hReqs = nil
	for _, n := range []string{"CreateMonitoredItemsRequest", "ModifyMonitoredItemsRequest", "SetTriggeringRequest", "DeleteMonitoredItemsRequest", "SetMonitoringModeRequest", "CreateSubscriptionRequest", "DeleteSubscriptionsRequest",
		"PublishRequest", "PublishRequest", "RepublishRequest", "ActivateSessionRequest", "CallRequest", "ReadRequest", "WriteRequest", "BrowseRequest", "BrowseNextRequest", "TranslateBrowsePathsToNodeIDsRequest", "HistoryReadRequest", "CreateMonitoredItemsRequest", "CreateMonitoredItemsRequest"} {
		if i := slices.IndexFunc(all, func(t reflect.Type) bool { return t.Name() == n }); i >= 0 {
			hReqs = append(hReqs, all[i], all[i])
		} else {
			kit.Infra("no type %s", n)
		}
	}
	hReqs = append(hReqs, all...)
	v := func(k int, x any, dt ua.NodeID, rank int32) {
		n := w.variable(ua.NewNodeIDNumeric(2, uint32(500000+k)), x, dt, rank, ua.AccessLevelsCurrentRead|ua.AccessLevelsCurrentWrite|ua.AccessLevelsHistoryRead)
		w.add(n)
		hVars = append(hVars, n)
		hNodes = append(hNodes, n.NodeID())
	}
	v(0, int32(0), ua.DataTypeIDInt32, ua.ValueRankScalar)
	v(1, "abc", ua.DataTypeIDString, ua.ValueRankScalar)
	v(2, []float64{1, 2, 3, 4, 5}, ua.DataTypeIDDouble, ua.ValueRankOneDimension)
	v(3, [][]int32{{1, 2, 3}, {4, 5, 6}}, ua.DataTypeIDInt32, 2)
	v(4, ua.ByteString("hello"), ua.DataTypeIDByteString, ua.ValueRankScalar)
	v(5, []ua.Variant{int32(1), "x"}, ua.DataTypeIDBaseDataType, ua.ValueRankScalarOrOneDimension)
	v(6, nil, ua.DataTypeIDBaseDataType, ua.ValueRankAny)
	v(7, []string{"a", "b"}, ua.DataTypeIDString, ua.ValueRankOneDimension)
	v(8, ua.Range{Low: 1, High: 2}, ua.DataTypeIDRange, ua.ValueRankScalar)
	tokNodes()
	hObj = server.NewObjectNode(w.Server, ua.NewNodeIDString(2, "h-obj"), qn(2, "hobj"), lt("hobj"), lt(""), nil,
		append(objRefs(ua.ObjectIDObjectsFolder), ua.NewReference(ua.ReferenceTypeIDHasNotifier, true, ua.NewExpandedNodeID(ua.ObjectIDServer))), ua.EventNotifierSubscribeToEvents)
	w.add(hObj)
	hGone = w.variable(ua.NewNodeIDString(2, "h-gone"), int32(1), ua.DataTypeIDInt32, ua.ValueRankScalar, ua.AccessLevelsCurrentRead|ua.AccessLevelsCurrentWrite)
	w.add(hGone)
	hNodes = append(hNodes, hGone.NodeID(), hObj.NodeID(), tokObj, tokMeth, tokVarID, ua.ObjectIDServer, ua.ObjectIDServer, ua.ObjectIDObjectsFolder, ua.ObjectIDRootFolder, ua.ObjectIDTypesFolder,
		ua.VariableIDServerServerStatus, ua.VariableIDServerServerStatusCurrentTime, ua.VariableIDServerNamespaceArray, ua.ObjectIDServerServerCapabilities, ua.MethodIDServerGetMonitoredItems, ua.MethodIDServerResendData,
		ua.VariableIDServerServerDiagnosticsSubscriptionDiagnosticsArray, ua.VariableIDServerServerDiagnosticsSessionsDiagnosticsSummarySessionDiagnosticsArray, ua.VariableIDServerServerDiagnosticsServerDiagnosticsSummary,
		ua.VariableIDServerServerDiagnosticsEnabledFlag, ua.ReferenceTypeIDReferences, ua.ReferenceTypeIDHierarchicalReferences, ua.ReferenceTypeIDOrganizes, ua.ReferenceTypeIDHasSubtype, ua.DataTypeIDBaseDataType, ua.DataTypeIDStructure, ua.ObjectTypeIDBaseEventType,
		ua.ObjectTypeIDConditionType, ua.ObjectTypeIDServerType, ua.VariableTypeIDBaseDataVariableType, ua.ObjectIDHistoryServerCapabilities, ua.NewNodeIDNumeric(0, 0), nil, ua.NewNodeIDNumeric(77, 5), ua.NewNodeIDString(0, ""))
	// the healthy client
	h := &health{s: w.ses, node: w.variable(ua.NewNodeIDNumeric(2, 499999), int64(0), ua.DataTypeIDInt64, ua.ValueRankScalar, ua.AccessLevelsCurrentRead)}
	w.add(h.node)
	hHealth = h
	h.s.Client.Timeout = 60 * time.Second
	cs, err := wire.Do[ua.CreateSubscriptionResponse](h.s, &ua.CreateSubscriptionRequest{RequestedPublishingInterval: 125, RequestedLifetimeCount: 20000, RequestedMaxKeepAliveCount: 300, PublishingEnabled: true})
	if err != nil {
		kit.Infra("health: %v", err)
	}
	h.sub = cs.SubscriptionID
	ci, err := wire.Do[ua.CreateMonitoredItemsResponse](h.s, &ua.CreateMonitoredItemsRequest{SubscriptionID: h.sub, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToCreate: []ua.MonitoredItemCreateRequest{
		{ItemToMonitor: ua.ReadValueID{NodeID: h.node.NodeID(), AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: ua.MonitoringParameters{ClientHandle: 1, QueueSize: 1, DiscardOldest: true}},
		{ItemToMonitor: ua.ReadValueID{NodeID: ua.ObjectIDServer, AttributeID: ua.AttributeIDEventNotifier}, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: ua.MonitoringParameters{ClientHandle: 2, QueueSize: 100, DiscardOldest: true,
			Filter: ua.EventFilter{SelectClauses: []ua.SimpleAttributeOperand{{TypeDefinitionID: ua.ObjectTypeIDBaseEventType, BrowsePath: []ua.QualifiedName{qn(0, "Severity")}, AttributeID: ua.AttributeIDValue}}}}}}})
	if err != nil || len(ci.Results) != 2 || ci.Results[0].StatusCode != 0 || ci.Results[1].StatusCode != 0 {
		kit.Infra("health: %v %v", ci, err)
	}
	h.item, h.ev = ci.Results[0].MonitoredItemID, ci.Results[1].MonitoredItemID
	return stop
}

// check has the healthy client do its work.
func (h *health) check(c *kit.C, hist func() string) {
	bad := func(f string, a ...any) {
		c.Hardf("the healthy client: %s (%s)", fmt.Sprintf(f, a...), hist())
	}
	step := func(what string, f func() error) {
		var err error
		if !kit.Within(60*time.Second, func() { err = f() }) {
			bad("%s takes more than a minute", what)
		}
		if err != nil {
			bad("%s: %v", what, err)
		}
	}
	h.n++
	h.val++
	step("SetValue", func() error { h.node.SetValue(ua.DataValue{Value: h.val}); return nil })
	step("Read", func() error {
		r, err := wire.Do[ua.ReadResponse](h.s, &ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: h.node.NodeID(), AttributeID: ua.AttributeIDValue}, {NodeID: ua.VariableIDServerServerStatus, AttributeID: ua.AttributeIDValue}}})
		if err != nil {
			return err
		}
		if r.Results[0].Value != h.val || r.Results[1].StatusCode != 0 {
			return fmt.Errorf("gives %v instead of %d", r.Results, h.val)
		}
		return nil
	})
	step("Browse", func() error {
		r, err := wire.Do[ua.BrowseResponse](h.s, &ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: ua.ObjectIDObjectsFolder, BrowseDirection: ua.BrowseDirectionForward, ResultMask: 63}}})
		if err != nil {
			return err
		}
		if len(r.Results[0].References) < 5 {
			return fmt.Errorf("gives %v", r.Results[0])
		}
		return nil
	})
	sub, ok := w.SubscriptionManager().Get(h.sub)
	if !ok {
		bad("its subscription is gone")
	}
	it, ok := sub.FindItem(h.item)
	if !ok {
		bad("its item is gone")
	}
	step("Poll", func() error { it.(*server.DataChangeMonitoredItem).Poll(); return nil })
	sev := uint16(h.val%1000 + 1)
	step("OnEvent", func() error {
		n, ok := w.NamespaceManager().FindNode(ua.ObjectIDServer)
		if !ok {
			return fmt.Errorf("no Server object")
		}
		n.(*server.ObjectNode).OnEvent(&ua.BaseEvent{EventType: ua.ObjectTypeIDBaseEventType, Severity: sev})
		return nil
	})
	gotVal, gotEv := false, false
	var acks []ua.SubscriptionAcknowledgement
	for i := 0; !gotVal || !gotEv; i++ {
		if i > 300 {
			bad("its value (%v) or event (%v) does not arrive", gotVal, gotEv)
		}
		step("Publish", func() error {
			p, err := wire.Do[ua.PublishResponse](h.s, &ua.PublishRequest{SubscriptionAcknowledgements: acks})
			if err != nil {
				return err
			}
			acks = nil
			if len(p.NotificationMessage.NotificationData) > 0 {
				acks = []ua.SubscriptionAcknowledgement{{SubscriptionID: p.SubscriptionID, SequenceNumber: p.NotificationMessage.SequenceNumber}}
			}
			for _, d := range p.NotificationMessage.NotificationData {
				switch d := d.(type) {
				case ua.DataChangeNotification:
					for _, m := range d.MonitoredItems {
						gotVal = gotVal || m.ClientHandle == 1 && m.Value.Value == h.val
					}
				case ua.EventNotificationList:
					for _, m := range d.Events {
						gotEv = gotEv || m.ClientHandle == 2 && len(m.EventFields) == 1 && m.EventFields[0] == sev
					}
				}
			}
			return nil
		})
	}
	if h.n%3 == 0 {
		step("diagnostics", func() error {
			_, err := wire.Do[ua.ReadResponse](h.s, &ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: ua.VariableIDServerServerDiagnosticsSubscriptionDiagnosticsArray, AttributeID: ua.AttributeIDValue},
				{NodeID: ua.VariableIDServerServerDiagnosticsSessionsDiagnosticsSummarySessionDiagnosticsArray, AttributeID: ua.AttributeIDValue}}})
			return err
		})
		step("a new session", func() error {
			cl, err := wire.Connect(w.Addr, w.URL, wire.DefaultLimits, wire.NoSec)
			if err != nil {
				return err
			}
			cl.Start()
			cl.Timeout = 60 * time.Second
			defer cl.Drop()
			s, err := cl.CreateSession(wire.CreateOpts{})
			if err != nil {
				return err
			}
			if err := s.Activate(s.Anonymous()); err != nil {
				return err
			}
			x, err := wire.Do[ua.CreateSubscriptionResponse](s, &ua.CreateSubscriptionRequest{RequestedPublishingInterval: 1000, RequestedLifetimeCount: 100, RequestedMaxKeepAliveCount: 10})
			if err != nil {
				return err
			}
			if _, err := wire.Do[ua.DeleteSubscriptionsResponse](s, &ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{x.SubscriptionID}}); err != nil {
				return err
			}
			_, err = wire.Do[ua.CloseSessionResponse](s, &ua.CloseSessionRequest{DeleteSubscriptions: true})
			return err
		})
	}
}

// hostPool has the identifiers of a case.
type hostPool struct {
	mu   sync.Mutex
	subs []uint32
	its  []uint32
	seqs []uint32
	cps  []ua.ByteString
	toks []ua.NodeID
	meth int
}

func some[T any](p *hostPool, r *rand.Rand, l *[]T) (x T, ok bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(*l) == 0 {
		return x, false
	}
	return (*l)[r.Intn(len(*l))], true
}

var hRanges = []string{"", "0", "1", "0:1", "1:3", "0:100", "5:2", "1,1", "0:1,0:1", "-1", "a", "4294967295", "4294967296", "0:18446744073709551616", "0,", ",", ":"}

// aim replaces some drawn fields by identifiers that exist.
func (p *hostPool) aim(v reflect.Value, name string, r *rand.Rand) {
	switch v.Type() {
	case reflect.TypeOf((*ua.NodeID)(nil)).Elem():
		if r.Intn(10) > 0 {
			if n := hNodes[r.Intn(len(hNodes))]; n != nil {
				v.Set(reflect.ValueOf(n))
			} else {
				v.SetZero()
			}
		}
		return
	case reflect.TypeOf(ua.ExpandedNodeID{}):
		if r.Intn(10) > 0 {
			v.Set(reflect.ValueOf(ua.NewExpandedNodeID(hNodes[r.Intn(len(hNodes))])))
		}
		return
	case reflect.TypeOf(time.Time{}), reflect.TypeOf(ua.DataValue{}), reflect.TypeOf(ua.DiagnosticInfo{}):
		return
	}
	switch v.Kind() {
	case reflect.Uint32:
		set := func(x uint32, ok bool) {
			if ok && r.Intn(10) > 0 {
				v.SetUint(uint64(x))
			}
		}
		switch name {
		case "SubscriptionID", "SubscriptionIDs":
			set(some(p, r, &p.subs))
		case "MonitoredItemID", "MonitoredItemIDs", "TriggeringItemID", "LinksToAdd", "LinksToRemove":
			set(some(p, r, &p.its))
		case "SequenceNumber", "RetransmitSequenceNumber":
			if r.Intn(2) == 0 {
				set(some(p, r, &p.seqs))
			} else {
				set(uint32(r.Intn(4)), true)
			}
		case "AttributeID":
			if r.Intn(3) > 0 {
				set(uint32(r.Intn(28)), true)
			} else {
				set([]uint32{ua.AttributeIDValue, ua.AttributeIDEventNotifier}[r.Intn(2)], true)
			}
		case "RequestedLifetimeCount", "RequestedMaxKeepAliveCount", "QueueSize":
			set(uint32(r.Intn(5)), r.Intn(2) == 0)
		case "BrowseDirection", "MonitoringMode", "TimestampsToReturn", "NodeClassMask", "ResultMask":
			set(uint32(r.Intn(5)), r.Intn(3) > 0)
		}
	case reflect.Int32:
		if r.Intn(4) > 0 {
			switch name {
			case "BrowseDirection", "MonitoringMode", "TimestampsToReturn", "Trigger", "FilterOperator":
				v.SetInt(int64(r.Intn(4)))
			}
		}
	case reflect.Float64:
		if r.Intn(2) == 0 {
			v.SetFloat([]float64{0, -1, 1, 125, 50}[r.Intn(5)])
		}
	case reflect.String:
		if v.Type() == reflect.TypeOf(ua.ByteString("")) {
			if x, ok := some(p, r, &p.cps); ok && strings.HasPrefix(name, "ContinuationPoint") && r.Intn(4) > 0 {
				v.SetString(string(x))
			}
			return
		}
		if name == "IndexRange" && r.Intn(5) > 0 {
			if r.Intn(2) == 0 {
				v.SetString("")
			} else {
				v.SetString(hRanges[r.Intn(len(hRanges))])
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			p.aim(v.Field(i), v.Type().Field(i).Name, r)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			p.aim(v.Index(i), name, r)
		}
	case reflect.Interface:
		// filters, operands and details
		if v.IsNil() {
			return
		}
		x := v.Elem()
		if x.Kind() == reflect.Struct && strings.HasPrefix(x.Type().PkgPath(), "github.com/awcullen/opcua") {
			n := reflect.New(x.Type()).Elem()
			n.Set(x)
			p.aim(n, name, r)
			if n.Type().AssignableTo(v.Type()) {
				v.Set(n)
			}
		}
	}
}

// learn takes identifiers from a response.
func (p *hostPool) learn(x any) {
	p.mu.Lock()
	defer p.mu.Unlock()
	switch x := x.(type) {
	case *ua.CreateSubscriptionResponse:
		p.subs = append(p.subs, x.SubscriptionID)
	case *ua.CreateMonitoredItemsResponse:
		for _, r := range x.Results {
			if r.StatusCode == 0 {
				p.its = append(p.its, r.MonitoredItemID)
			}
		}
	case *ua.BrowseResponse:
		for _, r := range x.Results {
			if len(r.ContinuationPoint) > 0 {
				p.cps = append(p.cps, r.ContinuationPoint)
			}
		}
	case *ua.PublishResponse:
		p.seqs = append(p.seqs, x.NotificationMessage.SequenceNumber)
	case *ua.CreateSessionResponse:
		if x.ServiceResult == 0 {
			p.toks = append(p.toks, x.AuthenticationToken)
		}
	}
}

type hostReq struct {
	v     reflect.Value // pointer to the request
	seed  int64
	wait  bool
	foul  []byte // edits
	edits func(b []byte) ([]byte, string)
	desc  string
	body  []byte
}

func (q *hostReq) name() string { return q.v.Elem().Type().Name() }

func drawHostReq(t *rapid.T, o gen.Opts) *hostReq {
	typ := hReqs[rapid.IntRange(0, len(hReqs)-1).Draw(t, "type")]
	q := &hostReq{seed: rapid.Int64().Draw(t, "aim"), wait: rapid.IntRange(0, 3).Draw(t, "wait") > 0}
	q.v = reflect.New(typ)
	q.v.Elem().Set(gen.Value(t, typ, o, 0, "req"))
	// lists that are empty are answered at once, and no filter of a fitting type comes up at random
	hostDeepen(t, q.v.Elem(), o)
	if rapid.IntRange(0, 5).Draw(t, "foul") == 0 {
		// the edits are drawn here and applied to whatever the request becomes
		n := rapid.SliceOfN(rapid.Byte(), 4, 40).Draw(t, "edits")
		q.foul = n
	}
	return q
}

func hostDeepen(t *rapid.T, v reflect.Value, o gen.Opts) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); v.Type().Field(i).Name != "RequestHeader" && f.CanSet() {
				hostDeepen(t, f, o)
			}
		}
	case reflect.Slice:
		if v.Len() == 0 && v.Type().Elem().Kind() != reflect.Uint8 && rapid.IntRange(0, 3).Draw(t, "fill") > 0 {
			n := rapid.IntRange(1, 3).Draw(t, "n")
			s := reflect.MakeSlice(v.Type(), n, n)
			for i := 0; i < n; i++ {
				s.Index(i).Set(gen.Value(t, v.Type().Elem(), o, 1, "el"))
			}
			v.Set(s)
		}
		for i := 0; i < v.Len(); i++ {
			if v.Index(i).Kind() == reflect.Struct {
				hostDeepen(t, v.Index(i), o)
			}
		}
	case reflect.Interface:
		if v.Type() == reflect.TypeOf((*ua.ExtensionObject)(nil)).Elem() && rapid.IntRange(0, 3).Draw(t, "filter") > 0 {
			typ := hFilters[rapid.IntRange(0, len(hFilters)-1).Draw(t, "ftype")]
			x := gen.Value(t, typ, o, 1, "f")
			v.Set(x)
		}
	}
}

// smear applies byte edits that do not depend on the length of what they are applied to.
func smear(b []byte, e []byte) []byte {
	b = append([]byte(nil), b...)
	for len(e) >= 4 && len(b) > 0 {
		pos := (int(e[1])<<8 | int(e[2])) % len(b)
		switch e[0] % 6 {
		case 0:
			b[pos] ^= 1 << (e[3] % 8)
		case 1:
			b[pos] = e[3]
		case 2:
			for i := 0; i < 4 && pos+i < len(b); i++ {
				b[pos+i] = []byte{0xff, 0xff, 0xff, 0x7f}[i]
			}
		case 3:
			b = b[:pos]
		case 4:
			b = append(b[:pos:pos], append([]byte{e[3], 0, 0, 0}, b[pos:]...)...)
		case 5:
			b = append(b[:pos:pos], b[min(len(b), pos+1+int(e[3]%8)):]...)
		}
		e = e[4:]
	}
	return b
}

type hostConn struct {
	cl    *wire.Client
	s     *wire.Session
	rnd   *rand.Rand
	hist  []string
	queue int // publish requests without an answer
}

func (h *hostConn) note(f string, a ...any) {
	h.hist = append(h.hist, fmt.Sprintf(f, a...))
}

func (h *hostConn) connect(p *hostPool, session bool) error {
	cl, err := wire.Connect(w.Addr, w.URL, wire.DefaultLimits, wire.NoSec)
	if err != nil {
		return err
	}
	cl.Timeout = 60 * time.Second
	cl.Start()
	h.cl, h.s = cl, nil
	if !session {
		return nil
	}
	s, err := cl.CreateSession(wire.CreateOpts{Timeout: 10000})
	if err != nil {
		return err
	}
	if err := s.Activate(s.Anonymous()); err != nil {
		return err
	}
	h.s = s
	p.mu.Lock()
	p.toks = append(p.toks, s.Token)
	p.mu.Unlock()
	return nil
}

var hHandle atomic.Uint32

// send gives the request its identifiers and sends it; the answer is judged by the caller.
func (h *hostConn) send(p *hostPool, q *hostReq) (<-chan wire.Result, string) {
	r := rand.New(rand.NewSource(q.seed))
	p.aim(q.v.Elem(), "", r)
	req := q.v.Interface().(ua.ServiceRequest)
	hd := req.Header()
	hd.RequestHandle = hHandle.Add(1)
	if r.Intn(4) > 0 {
		hd.Timestamp = time.Now()
	}
	if r.Intn(4) > 0 {
		hd.TimeoutHint = 30000
	}
	hd.AuthenticationToken = nil
	if h.s != nil {
		hd.AuthenticationToken = h.s.Token
	}
	if r.Intn(12) == 0 {
		if t, ok := some(p, r, &p.toks); ok {
			hd.AuthenticationToken = t
		}
	}
	switch x := req.(type) {
	case *ua.ActivateSessionRequest:
		if t, ok := some(p, r, &p.toks); ok && r.Intn(2) == 0 {
			hd.AuthenticationToken = t
			if r.Intn(4) > 0 && h.s != nil {
				x.UserIdentityToken = h.s.Anonymous().Token
			}
		}
	case *ua.CreateSessionRequest:
		if r.Intn(2) == 0 {
			x.ClientCertificate = ""
			x.ClientNonce = ua.ByteString(wire.Nonce(32))
		}
		x.RequestedSessionTimeout = 10000
	case *ua.CallRequest:
		for i := range x.MethodsToCall {
			if r.Intn(2) == 0 {
				x.MethodsToCall[i].ObjectID = ua.ObjectIDServer
				x.MethodsToCall[i].MethodID = []ua.NodeID{ua.MethodIDServerGetMonitoredItems, ua.MethodIDServerResendData}[r.Intn(2)]
				if id, ok := some(p, r, &p.subs); ok && r.Intn(4) > 0 {
					x.MethodsToCall[i].InputArguments = []ua.Variant{id}
				}
			}
		}
	case *ua.BrowseRequest:
		if r.Intn(4) > 0 {
			x.View = ua.ViewDescription{}
		}
		if r.Intn(2) == 0 {
			x.RequestedMaxReferencesPerNode = uint32(r.Intn(3))
		}
	case *ua.ReadRequest:
		if r.Intn(4) > 0 {
			x.MaxAge = 0
		}
		x.TimestampsToReturn %= 5
	case *ua.HistoryReadRequest:
		x.TimestampsToReturn %= 5
	case *ua.DeleteSubscriptionsRequest, *ua.CloseSessionRequest:
		// so that there is something left
		if r.Intn(2) == 0 {
			return nil, q.name() + " left out"
		}
	}
	name := q.name()
	if name == "PublishRequest" {
		q.wait = false
	}
	b, err := wire.EncodeMsg(req)
	if err != nil {
		return nil, name + " not encodable"
	}
	if q.foul != nil {
		b = smear(b, q.foul)
		name += " spoilt"
		x, err := wire.DecodeMsg(b)
		if _, ok := x.(*ua.PublishRequest); ok && err == nil || len(b) < 4 {
			q.wait = false
		}
		if err == nil {
			if y, ok := x.(ua.ServiceRequest); ok {
				if _, ok := x.(*ua.PublishRequest); ok || reflect.TypeOf(y) != q.v.Type() {
					q.wait = false
				}
			}
		}
	}
	q.body = b
	ch, _, err := h.cl.GoBody(b, nil)
	if err != nil {
		return nil, name + " not sent"
	}
	return ch, name
}

// judge looks at an answer.
func judge(q *hostReq, res wire.Result) string {
	if res.Err != nil {
		return fmt.Sprintf("the answer to %s cannot be decoded: %v", q.name(), res.Err)
	}
	if q.foul != nil {
		if _, ok := res.Msg.(ua.ServiceResponse); !ok {
			return fmt.Sprintf("%s is answered by %T", q.name(), res.Msg)
		}
		return ""
	}
	r, ok := res.Msg.(ua.ServiceResponse)
	if !ok {
		return fmt.Sprintf("%s is answered by %T", q.name(), res.Msg)
	}
	req := q.v.Interface().(ua.ServiceRequest)
	if r.Header().RequestHandle != req.Header().RequestHandle {
		return fmt.Sprintf("the answer to %s has the handle %d instead of %d", q.name(), r.Header().RequestHandle, req.Header().RequestHandle)
	}
	if f, ok := res.Msg.(*ua.ServiceFault); ok {
		if !f.ServiceResult.IsBad() {
			return fmt.Sprintf("%s gets a fault with %v", q.name(), f.ServiceResult)
		}
		return ""
	}
	if want := strings.TrimSuffix(q.name(), "Request") + "Response"; reflect.TypeOf(res.Msg).Elem().Name() != want {
		return fmt.Sprintf("%s is answered by %T", q.name(), res.Msg)
	}
	return ""
}

func hostRequests(c *kit.C) {
	o := gen.Opts{MaxDepth: 2, MaxLen: 3, LongStr: true, TimeEdges: true}
	n := rapid.IntRange(1, 3).Draw(c.T, "conns")
	plans := make([][]*hostReq, n)
	sess := make([]bool, n)
	for i := range plans {
		sess[i] = rapid.IntRange(0, 9).Draw(c.T, "session") > 0
		for k := rapid.IntRange(3, 14).Draw(c.T, "requests"); k > 0; k-- {
			plans[i] = append(plans[i], drawHostReq(c.T, o))
		}
	}
	app := rapid.SliceOfN(rapid.IntRange(0, 9), 0, 30).Draw(c.T, "app")
	p := &hostPool{}
	conns := make([]*hostConn, n)
	for i := range conns {
		conns[i] = &hostConn{}
		if err := conns[i].connect(p, sess[i]); err != nil {
			c.Hardf("a new session is refused: %v", err)
		}
	}
	// everybody has a subscription to play with
	for i, h := range conns {
		if h.s == nil {
			continue
		}
		if x, err := wire.Do[ua.CreateSubscriptionResponse](h.s, &ua.CreateSubscriptionRequest{RequestedPublishingInterval: 125, RequestedLifetimeCount: 100, RequestedMaxKeepAliveCount: 2, PublishingEnabled: i != 1}); err == nil {
			p.learn(x)
			y, err := wire.Do[ua.CreateMonitoredItemsResponse](h.s, &ua.CreateMonitoredItemsRequest{SubscriptionID: x.SubscriptionID, ItemsToCreate: []ua.MonitoredItemCreateRequest{
				{ItemToMonitor: ua.ReadValueID{NodeID: hVars[0].NodeID(), AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: ua.MonitoringParameters{ClientHandle: 1, QueueSize: 3}},
				{ItemToMonitor: ua.ReadValueID{NodeID: hGone.NodeID(), AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: ua.MonitoringParameters{ClientHandle: 1, QueueSize: 3}}}})
			if err == nil {
				p.learn(y)
			}
		}
	}
	var mu sync.Mutex
	fails := []string{}
	count := map[string]int{}
	var wg sync.WaitGroup
	for i, h := range conns {
		wg.Add(1)
		go func() {
			defer wg.Done()
			type pend struct {
				q  *hostReq
				ch <-chan wire.Result
			}
			var later []pend
			wait := func(x pend, d time.Duration) bool {
				select {
				case res := <-x.ch:
					p.learn(res.Msg)
					if y, ok := res.Msg.(ua.ServiceResponse); ok && !y.Header().ServiceResult.IsBad() {
						mu.Lock()
						count["served:"+x.q.name()]++
						mu.Unlock()
					}
					if m := judge(x.q, res); m != "" {
						mu.Lock()
						fails = append(fails, m)
						mu.Unlock()
					}
					return true
				case <-h.cl.DeadCh():
					return true
				case <-time.After(d):
					return false
				}
			}
			for _, q := range plans[i] {
				if dead, _ := h.cl.Dead(); dead {
					h.note("connection %d anew", i)
					h.cl.Drop()
					later = nil
					if err := h.connect(p, true); err != nil {
						mu.Lock()
						fails = append(fails, fmt.Sprintf("a new session is refused: %v", err))
						mu.Unlock()
						return
					}
				}
				ch, name := h.send(p, q)
				h.note("%s", name)
				mu.Lock()
				count[strings.Fields(name)[0]]++
				mu.Unlock()
				if ch == nil {
					continue
				}
				x := pend{q, ch}
				if !q.wait {
					if name != "PublishRequest" && q.foul == nil {
						later = append(later, x)
					} else {
						select {
						case res := <-ch:
							p.learn(res.Msg)
						case <-time.After(time.Millisecond):
						}
					}
					continue
				}
				if !wait(x, 60*time.Second) {
					mu.Lock()
					fails = append(fails, fmt.Sprintf("%s is neither answered nor the connection closed within a minute: %x", name, q.body))
					mu.Unlock()
					return
				}
			}
			for _, x := range later {
				if !wait(x, 60*time.Second) {
					mu.Lock()
					fails = append(fails, fmt.Sprintf("%s is neither answered nor the connection closed within a minute: %x", x.q.name(), x.q.body))
					mu.Unlock()
					return
				}
			}
		}()
	}
	// the application goes on meanwhile
	wg.Add(1)
	go func() {
		defer wg.Done()
		if !kit.Within(60*time.Second, func() {
			for i, a := range app {
				switch a {
				case 0, 1, 2:
					hVars[0].SetValue(ua.DataValue{Value: int32(i)})
				case 3:
					hVars[2].SetValue(ua.DataValue{Value: []float64{float64(i)}})
				case 4, 5:
					hObj.OnEvent(&ua.BaseEvent{EventType: ua.ObjectTypeIDBaseEventType, Severity: uint16(i)})
				case 6:
					w.NamespaceManager().DeleteNode(hGone, false)
					time.Sleep(time.Millisecond)
					w.NamespaceManager().AddNodes(hGone)
				default:
					time.Sleep(time.Duration(a) * time.Millisecond)
				}
			}
		}) {
			mu.Lock()
			fails = append(fails, "the application cannot set values and raise events any more")
			mu.Unlock()
		}
	}()
	hist := func() string {
		s := ""
		for i, h := range conns {
			s += fmt.Sprintf("connection %d: %s; ", i, strings.Join(h.hist, ", "))
		}
		return s
	}
	wg.Wait()
	if len(fails) > 0 {
		if strings.Contains(strings.Join(fails, ""), "within a minute") {
			c.Hardf("%s (%s)", strings.Join(fails, "; "), hist())
		}
		c.Failf("%s (%s)", strings.Join(fails, "; "), hist())
	}
	for _, h := range conns {
		if h.s != nil {
			if dead, _ := h.cl.Dead(); !dead {
				h.cl.Timeout = 20 * time.Second
				wire.Do[ua.CloseSessionResponse](h.s, &ua.CloseSessionRequest{DeleteSubscriptions: true})
			}
		}
		h.cl.Drop()
	}
	hHealth.check(c, hist)
	for _, id := range p.subs {
		if s, ok := w.SubscriptionManager().Get(id); ok && id != hHealth.sub {
			if !kit.Within(40*time.Second, func() { w.SubscriptionManager().Delete(s); s.Delete() }) {
				c.Hardf("subscription %d cannot be deleted (%s)", id, hist())
			}
		}
	}
	for k := range count {
		c.Label(k)
	}
	c.NT(hist())
	if len(hist()) < 2000 {
		c.Note("%s", hist())
	}
}

func init() {
	kit.Register(&kit.Check{
		ID:          "C07",
		Rule:        "requests: up to three connections send random requests of every service (fields random or aimed at existing nodes, subscriptions, items, continuation points and sessions; some spoilt in the encoding, some not waited for, sessions taken over by other connections) while the application changes values, raises events and deletes nodes; non-trivial: distinct histories",
		Assumptions: []string{"a response or the end of the connection within a minute is prompt enough", "publish requests may stay unanswered"},
		Subs: []kit.Sub{{Name: "requests", Quick: 1200, Thorough: 40000, Shards: 4, Setup: hostSetup, Fn: hostRequests},
			{Name: "races", Quick: 400, Thorough: 10000, Shards: 4, Setup: hostSetup, Fn: hostRaces},
			{Name: "bytes", Quick: 300, Thorough: 40000, Shards: 4, Setup: hostSetup, Fn: hostRaw},
			{Name: "stall", Quick: 4, Thorough: 200, Shards: 4, Setup: hostSetup, Fn: hostStall},
			{Name: "diagnostics", Quick: 400, Thorough: 3000, Shards: 4, Setup: diagSetup, Fn: diagLoad}},
	})
}

// hostRaces: one connection works on long lists while another takes over the session and deletes what they name.
type hostRace struct {
	big   []int // services on the first connection
	n     int
	delay int
	end   int
	again bool
	pub   int
}

func drawRace(t *rapid.T) hostRace {
	return hostRace{big: rapid.SliceOfN(rapid.IntRange(0, 11), 1, 5).Draw(t, "big"), n: pick(t, "n", 1, 10, 100, 1000), delay: rapid.IntRange(0, 3000).Draw(t, "delay"),
		end: rapid.IntRange(0, 4).Draw(t, "end"), again: rapid.Bool().Draw(t, "again"), pub: pick(t, "pub", 0, 1, 5, 64, 70)}
}

func runRace(p hostRace) (string, []string) {
	hist := fmt.Sprintf("services %v with %d entries, after %d us end %d, %d publish requests", p.big, p.n, p.delay, p.end, p.pub)
	var fails []string
	pool := &hostPool{}
	a, b := &hostConn{}, &hostConn{}
	if err := a.connect(pool, true); err != nil {
		return hist, []string{fmt.Sprintf("a new session is refused: %v", err)}
	}
	defer a.cl.Drop()
	if err := b.connect(pool, false); err != nil {
		return hist, []string{fmt.Sprintf("a new connection is refused: %v", err)}
	}
	defer b.cl.Drop()
	x, err := wire.Do[ua.CreateSubscriptionResponse](a.s, &ua.CreateSubscriptionRequest{RequestedPublishingInterval: 125, RequestedLifetimeCount: 100, RequestedMaxKeepAliveCount: 1, PublishingEnabled: true})
	if err != nil {
		return hist, []string{fmt.Sprintf("no subscription: %v", err)}
	}
	id := x.SubscriptionID
	defer func() {
		if s, ok := w.SubscriptionManager().Get(id); ok {
			w.SubscriptionManager().Delete(s)
			s.Delete()
		}
	}()
	item := func(i int) ua.MonitoredItemCreateRequest {
		return ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: hVars[i%len(hVars)].NodeID(), AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: ua.MonitoringParameters{ClientHandle: uint32(i), QueueSize: 2}}
	}
	first := &ua.CreateMonitoredItemsRequest{SubscriptionID: id}
	for i := 0; i < p.n; i++ {
		first.ItemsToCreate = append(first.ItemsToCreate, item(i))
	}
	y, err := wire.Do[ua.CreateMonitoredItemsResponse](a.s, first)
	if err != nil {
		return hist, []string{fmt.Sprintf("no items: %v", err)}
	}
	var ids []uint32
	for _, r := range y.Results {
		ids = append(ids, r.MonitoredItemID)
	}
	var chs []<-chan wire.Result
	send := func(req ua.ServiceRequest) {
		*req.Header() = a.s.Header()
		if ch, _, err := a.cl.Go(req); err == nil {
			if _, ok := req.(*ua.PublishRequest); !ok {
				chs = append(chs, ch)
			}
		}
	}
	for i := 0; i < p.pub; i++ {
		send(&ua.PublishRequest{})
	}
	for _, k := range p.big {
		switch k {
		case 0, 1:
			r := &ua.CreateMonitoredItemsRequest{SubscriptionID: id, ItemsToCreate: append([]ua.MonitoredItemCreateRequest{}, first.ItemsToCreate...)}
			send(r)
		case 2:
			r := &ua.ModifyMonitoredItemsRequest{SubscriptionID: id}
			for _, i := range ids {
				r.ItemsToModify = append(r.ItemsToModify, ua.MonitoredItemModifyRequest{MonitoredItemID: i, RequestedParameters: ua.MonitoringParameters{ClientHandle: 7, QueueSize: 5}})
			}
			send(r)
		case 3:
			send(&ua.DeleteMonitoredItemsRequest{SubscriptionID: id, MonitoredItemIDs: ids})
		case 4:
			send(&ua.SetMonitoringModeRequest{SubscriptionID: id, MonitoringMode: ua.MonitoringModeSampling, MonitoredItemIDs: ids})
		case 5:
			send(&ua.SetTriggeringRequest{SubscriptionID: id, TriggeringItemID: ids[0], LinksToAdd: ids})
		case 6:
			send(&ua.ModifySubscriptionRequest{SubscriptionID: id, RequestedPublishingInterval: 125, RequestedLifetimeCount: 100, RequestedMaxKeepAliveCount: 1})
		case 7:
			r := &ua.PublishRequest{}
			for i := 0; i < p.n; i++ {
				r.SubscriptionAcknowledgements = append(r.SubscriptionAcknowledgements, ua.SubscriptionAcknowledgement{SubscriptionID: id, SequenceNumber: uint32(i)})
			}
			send(r)
		case 8:
			send(&ua.RepublishRequest{SubscriptionID: id, RetransmitSequenceNumber: 1})
		case 9:
			r := &ua.BrowseRequest{RequestedMaxReferencesPerNode: 1}
			for i := 0; i < min(p.n, 100); i++ {
				r.NodesToBrowse = append(r.NodesToBrowse, ua.BrowseDescription{NodeID: ua.ObjectIDServer, BrowseDirection: ua.BrowseDirectionForward})
			}
			send(r)
		case 10:
			r := &ua.CallRequest{}
			for i := 0; i < p.n; i++ {
				r.MethodsToCall = append(r.MethodsToCall, ua.CallMethodRequest{ObjectID: ua.ObjectIDServer, MethodID: []ua.NodeID{ua.MethodIDServerGetMonitoredItems, ua.MethodIDServerResendData}[i%2], InputArguments: []ua.Variant{id}})
			}
			send(r)
		case 11:
			send(&ua.SetPublishingModeRequest{SubscriptionIDs: []uint32{id}, PublishingEnabled: p.again})
		}
	}
	time.Sleep(time.Duration(p.delay) * time.Microsecond)
	act := &ua.ActivateSessionRequest{UserIdentityToken: a.s.Anonymous().Token}
	*act.Header() = a.s.Header()
	sendB := func(req ua.ServiceRequest) {
		if req.Header().AuthenticationToken == nil {
			*req.Header() = a.s.Header()
		}
		if ch, _, err := b.cl.Go(req); err == nil {
			chs = append(chs, ch)
		}
	}
	switch p.end {
	case 0, 1:
		sendB(act)
		sendB(&ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{id}})
	case 2:
		sendB(act)
		sendB(&ua.CloseSessionRequest{DeleteSubscriptions: true})
	case 3:
		sendB(act)
		sendB(&ua.CloseSessionRequest{})
	case 4:
		// the end of a lifetime, or of the server's patience
		if s, ok := w.SubscriptionManager().Get(id); ok {
			w.SubscriptionManager().Delete(s)
			s.Delete()
		}
	}
	if p.again {
		send(&ua.RepublishRequest{SubscriptionID: id, RetransmitSequenceNumber: 1})
	}
	for i, ch := range chs {
		select {
		case <-ch:
		case <-a.cl.DeadCh():
		case <-b.cl.DeadCh():
		case <-time.After(60 * time.Second):
			fails = append(fails, fmt.Sprintf("request %d is neither answered nor the connection closed within a minute", i))
			return hist, fails
		}
	}
	return hist, fails
}

func hostRaces(c *kit.C) {
	var ps []hostRace
	for i := 0; i < 6; i++ {
		ps = append(ps, drawRace(c.T))
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var hists, fails []string
	for _, p := range ps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			h, f := runRace(p)
			mu.Lock()
			defer mu.Unlock()
			hists = append(hists, h)
			fails = append(fails, f...)
		}()
	}
	wg.Wait()
	sort.Strings(hists)
	h := strings.Join(hists, "; ")
	if len(fails) > 0 {
		c.Hardf("%s (%s)", strings.Join(fails, "; "), h)
	}
	hHealth.check(c, func() string { return h })
	for _, x := range hists {
		c.NT(x)
	}
	c.Note("%s", h)
}
