package props

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/env"
	"verif/harness/kit"
	"verif/harness/wire"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// The limits of the server of C29: all different, so that a service that obeys the limit of another one shows.
func c29Limits() ua.OperationLimits {
	return ua.OperationLimits{MaxNodesPerRead: 7, MaxNodesPerWrite: 11, MaxNodesPerMethodCall: 5, MaxNodesPerBrowse: 13, MaxNodesPerHistoryReadData: 3,
		MaxNodesPerHistoryReadEvents: 9, MaxNodesPerRegisterNodes: 17, MaxNodesPerTranslateBrowsePathsToNodeIds: 6, MaxMonitoredItemsPerCall: 10,
		MaxNodesPerHistoryUpdateData: 4, MaxNodesPerHistoryUpdateEvents: 8, MaxNodesPerNodeManagement: 12}
}

var (
	limVars  []*server.VariableNode // value of variable i is int32(i)
	limObj   ua.NodeID
	limMeth  []ua.NodeID
	limCalls int64
	limSub   uint32
)

func limSetup() func() {
	l := c29Limits()
	caps := &ua.ServerCapabilities{MinSupportedSampleRate: 100, MaxBrowseContinuationPoints: 50, MaxHistoryContinuationPoints: 50, OperationLimits: &l}
	end := setup(server.WithServerCapabilities(caps), server.WithHistorian(hist))()
	for i := 0; i < 24; i++ {
		n := w.variable(num(2, 5000+uint32(i)), int32(i), ua.DataTypeIDInt32, -1, 3)
		limVars = append(limVars, n)
		w.add(n)
	}
	limObj = num(2, 5100)
	w.add(server.NewObjectNode(w.Server, limObj, qn(2, "o"), lt("o"), lt(""), nil, objRefs(ua.ObjectIDObjectsFolder), 1))
	for i := 0; i < 8; i++ {
		m := server.NewMethodNode(w.Server, num(2, 5200+uint32(i)), qn(2, fmt.Sprint("m", i)), lt("m"), lt(""), nil,
			[]ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDHasComponent, IsInverse: true, TargetID: ua.NewExpandedNodeID(limObj)}}, true)
		m.SetCallMethodHandler(func(s *server.Session, r ua.CallMethodRequest) ua.CallMethodResult {
			atomic.AddInt64(&limCalls, 1)
			return ua.CallMethodResult{OutputArguments: []ua.Variant{int32(i)}}
		})
		limMeth = append(limMeth, m.NodeID())
		w.add(m)
	}
	r, err := wire.Do[ua.CreateSubscriptionResponse](w.ses, &ua.CreateSubscriptionRequest{RequestedPublishingInterval: 60000, RequestedLifetimeCount: 60000, RequestedMaxKeepAliveCount: 20000})
	if err != nil {
		kit.Infra("CreateSubscription: %v", err)
	}
	limSub = r.SubscriptionID
	return end
}

func num32(i uint32) ua.NodeID { return ua.NewNodeIDNumeric(2, 990000+i) }

// length draws a list length around a limit.
func length(t *rapid.T, l string, lim int) int {
	switch rapid.IntRange(0, 9).Draw(t, l+"k") {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return lim - 1
	case 3, 4:
		return lim
	case 5, 6:
		return lim + 1
	case 7:
		return lim + rapid.IntRange(1, 40).Draw(t, l+"x")
	}
	return rapid.IntRange(0, lim).Draw(t, l+"n")
}

// verdict checks the service result of a list of n entries; it is true when results are to be looked at.
func verdict(c *kit.C, what string, n, lim, results int, code ua.StatusCode) bool {
	c.NT(fmt.Sprintf("%s %d of %d", what, n, lim))
	switch {
	case n == 0:
		c.Label("empty")
		if code != ua.BadNothingToDo {
			c.Failf("%s with an empty list is answered with %s", what, hx(code))
		}
	case n > lim:
		c.Label("too long")
		if code != ua.BadTooManyOperations {
			c.Failf("%s with %d entries is answered with %s, the limit is %d", what, n, hx(code), lim)
		}
	default:
		c.Label("accepted")
		if code != 0 {
			c.Failf("%s with %d entries is refused with %s, the limit is %d", what, n, hx(code), lim)
		}
		if results != n {
			c.Failf("%s with %d entries has %d results", what, n, results)
		}
		return true
	}
	return false
}

// codes compares one status per position.
func codesAt(c *kit.C, what string, got, want []ua.StatusCode) {
	for i := range want {
		if got[i] != want[i] {
			c.Failf("%s of %d entries: result %d is %s, want %s", what, len(want), i, hx(got[i]), hx(want[i]))
		}
	}
}

func limLists(c *kit.C) {
	lim := c29Limits()
	for k := rapid.IntRange(1, 4).Draw(c.T, "requests"); k > 0; k-- {
		limOne(c, &lim)
	}
}

// marks draws which entries of a list are good.
func marks(t *rapid.T, n int) []bool {
	r := make([]bool, n)
	for i := range r {
		r[i] = rapid.IntRange(0, 3).Draw(t, "good") > 0
	}
	return r
}

func limOne(c *kit.C, lim *ua.OperationLimits) {
	t := c.T
	svc := pick(t, "service", "read", "write", "browse", "next", "translate", "register", "unregister", "call", "hist", "create", "modify", "mode", "trigger", "delete", "announce")
	var want []ua.StatusCode
	code := func(b bool, x ua.StatusCode) ua.StatusCode {
		if b {
			return 0
		}
		return x
	}
	switch svc {
	case "announce":
		for id, v := range map[ua.NodeID]uint32{
			ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerRead:                          lim.MaxNodesPerRead,
			ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerWrite:                         lim.MaxNodesPerWrite,
			ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerBrowse:                        lim.MaxNodesPerBrowse,
			ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerMethodCall:                    lim.MaxNodesPerMethodCall,
			ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerHistoryReadData:               lim.MaxNodesPerHistoryReadData,
			ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerHistoryReadEvents:             lim.MaxNodesPerHistoryReadEvents,
			ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerHistoryUpdateData:             lim.MaxNodesPerHistoryUpdateData,
			ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerHistoryUpdateEvents:           lim.MaxNodesPerHistoryUpdateEvents,
			ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerRegisterNodes:                 lim.MaxNodesPerRegisterNodes,
			ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerNodeManagement:                lim.MaxNodesPerNodeManagement,
			ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerTranslateBrowsePathsToNodeIDs: lim.MaxNodesPerTranslateBrowsePathsToNodeIds,
			ua.VariableIDServerServerCapabilitiesOperationLimitsMaxMonitoredItemsPerCall:                 lim.MaxMonitoredItemsPerCall,
		} {
			r, code := do[ua.ReadResponse](c, w.ses, &ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: id, AttributeID: ua.AttributeIDValue}}})
			if code != 0 || len(r.Results) != 1 || r.Results[0].Value != v {
				c.Failf("the limit announced at %v is %v (%s), configured is %d", id, r.Results, hx(code), v)
			}
		}
	case "read":
		n := length(t, svc, int(lim.MaxNodesPerRead))
		good := marks(t, n)
		req := &ua.ReadRequest{TimestampsToReturn: ua.TimestampsToReturnNeither}
		for i, g := range good {
			id := limVars[i%24].NodeID()
			if !g {
				id = num32(uint32(i))
			}
			req.NodesToRead = append(req.NodesToRead, ua.ReadValueID{NodeID: id, AttributeID: ua.AttributeIDNodeID})
		}
		r, cd := do[ua.ReadResponse](c, w.ses, req)
		if verdict(c, svc, n, int(lim.MaxNodesPerRead), lenOf(r, func() int { return len(r.Results) }), cd) {
			for i, g := range good {
				x := r.Results[i]
				if g && (x.StatusCode != 0 || x.Value != any(limVars[i%24].NodeID())) || !g && x.StatusCode != ua.BadNodeIDUnknown {
					c.Failf("read of %d: result %d is %v %s, the entry is known: %v", n, i, x.Value, hx(x.StatusCode), g)
				}
			}
		}
	case "write":
		n := length(t, svc, int(lim.MaxNodesPerWrite))
		good := marks(t, n)
		base := int32(rapid.IntRange(1, 1<<20).Draw(t, "base")) * 100
		before := make([]any, 24)
		for i := range before {
			before[i] = limVars[i].Value().Value
		}
		req := &ua.WriteRequest{}
		for i, g := range good {
			id := limVars[i%24].NodeID()
			if !g {
				id = num32(uint32(i))
			}
			req.NodesToWrite = append(req.NodesToWrite, ua.WriteValue{NodeID: id, AttributeID: ua.AttributeIDValue, Value: ua.DataValue{Value: base + int32(i)}})
			want = append(want, code(g, ua.BadNodeIDUnknown))
		}
		r, cd := do[ua.WriteResponse](c, w.ses, req)
		ok := verdict(c, svc, n, int(lim.MaxNodesPerWrite), lenOf(r, func() int { return len(r.Results) }), cd)
		if ok {
			codesAt(c, svc, r.Results, want)
		}
		for i := range before {
			if ok && i < n && good[i] {
				before[i] = base + int32(i)
			}
			if v := limVars[i].Value().Value; v != before[i] {
				c.Failf("after a write of %d entries (accepted: %v) variable %d is %v, want %v", n, ok, i, v, before[i])
			}
		}
	case "browse":
		n := length(t, svc, int(lim.MaxNodesPerBrowse))
		good := marks(t, n)
		req := &ua.BrowseRequest{}
		for i, g := range good {
			id := limVars[i%24].NodeID()
			if !g {
				id = num32(uint32(i))
			}
			req.NodesToBrowse = append(req.NodesToBrowse, ua.BrowseDescription{NodeID: id, BrowseDirection: ua.BrowseDirectionInverse, ResultMask: 63})
		}
		r, cd := do[ua.BrowseResponse](c, w.ses, req)
		if verdict(c, svc, n, int(lim.MaxNodesPerBrowse), lenOf(r, func() int { return len(r.Results) }), cd) {
			for i, g := range good {
				x := r.Results[i]
				if g && (x.StatusCode != 0 || len(x.References) != 1) || !g && x.StatusCode != ua.BadNodeIDUnknown {
					c.Failf("browse of %d: result %d is %s with %d references, the entry is known: %v", n, i, hx(x.StatusCode), len(x.References), g)
				}
			}
		}
	case "next":
		n := length(t, svc, int(lim.MaxNodesPerBrowse))
		good := marks(t, n)
		release := rapid.Bool().Draw(t, "release")
		req := &ua.BrowseNextRequest{ReleaseContinuationPoints: release}
		cps := []ua.ByteString{}
		for i, g := range good {
			cp := ua.ByteString([]byte{0xff, 0xff, byte(i), 0xff})
			if g && i < int(lim.MaxNodesPerBrowse)+3 {
				b, cd := do[ua.BrowseResponse](c, w.ses, &ua.BrowseRequest{RequestedMaxReferencesPerNode: 1, NodesToBrowse: []ua.BrowseDescription{{NodeID: limObj, ResultMask: 63}}})
				if cd != 0 || len(b.Results) != 1 || len(b.Results[0].ContinuationPoint) == 0 {
					c.Failf("no continuation point for the paged references of an object: %s %v", hx(cd), b)
				}
				cp = b.Results[0].ContinuationPoint
				cps = append(cps, cp)
			} else {
				good[i] = false
			}
			req.ContinuationPoints = append(req.ContinuationPoints, cp)
			want = append(want, code(good[i], ua.BadContinuationPointInvalid))
		}
		r, cd := do[ua.BrowseNextResponse](c, w.ses, req)
		free := func(l []ua.ByteString) {
			for len(l) > 0 {
				k := min(len(l), int(lim.MaxNodesPerBrowse))
				x, cd := do[ua.BrowseNextResponse](c, w.ses, &ua.BrowseNextRequest{ReleaseContinuationPoints: true, ContinuationPoints: l[:k]})
				if cd != 0 {
					c.Failf("releasing continuation points: %s", hx(cd))
				}
				for i, y := range x.Results {
					if y.StatusCode != 0 {
						c.Failf("continuation point %d is gone (%s) though the request that named it was refused or answered with it", i, hx(y.StatusCode))
					}
				}
				l = l[k:]
			}
		}
		if verdict(c, svc, n, int(lim.MaxNodesPerBrowse), lenOf(r, func() int { return len(r.Results) }), cd) {
			more := []ua.ByteString{}
			for i, x := range r.Results {
				if x.StatusCode != want[i] {
					c.Failf("browse next of %d: result %d is %s, want %s", n, i, hx(x.StatusCode), hx(want[i]))
				}
				if len(x.ContinuationPoint) > 0 {
					more = append(more, x.ContinuationPoint)
				}
				if wantRefs := good[i] && !release; wantRefs != (len(x.References) == 1) {
					c.Failf("browse next of %d: result %d has %d references", n, i, len(x.References))
				}
			}
			free(more)
		} else {
			free(cps)
		}
	case "translate":
		n := length(t, svc, int(lim.MaxNodesPerTranslateBrowsePathsToNodeIds))
		good := marks(t, n)
		req := &ua.TranslateBrowsePathsToNodeIDsRequest{}
		for i, g := range good {
			name := fmt.Sprint("m", i%8)
			if !g {
				name = "none"
			}
			req.BrowsePaths = append(req.BrowsePaths, ua.BrowsePath{StartingNode: limObj, RelativePath: ua.RelativePath{Elements: []ua.RelativePathElement{{ReferenceTypeID: ua.ReferenceTypeIDHasComponent, IncludeSubtypes: true, TargetName: qn(2, name)}}}})
		}
		r, cd := do[ua.TranslateBrowsePathsToNodeIDsResponse](c, w.ses, req)
		if verdict(c, svc, n, int(lim.MaxNodesPerTranslateBrowsePathsToNodeIds), lenOf(r, func() int { return len(r.Results) }), cd) {
			for i, g := range good {
				x := r.Results[i]
				if g && (x.StatusCode != 0 || len(x.Targets) != 1 || x.Targets[0].TargetID.NodeID != limMeth[i%8]) || !g && x.StatusCode != ua.BadNoMatch {
					c.Failf("translate of %d: result %d is %s %v, a path that exists: %v", n, i, hx(x.StatusCode), x.Targets, g)
				}
			}
		}
	case "register":
		n := length(t, svc, int(lim.MaxNodesPerRegisterNodes))
		req := &ua.RegisterNodesRequest{}
		for i := 0; i < n; i++ {
			req.NodesToRegister = append(req.NodesToRegister, limVars[i%24].NodeID())
		}
		r, cd := do[ua.RegisterNodesResponse](c, w.ses, req)
		if verdict(c, svc, n, int(lim.MaxNodesPerRegisterNodes), lenOf(r, func() int { return len(r.RegisteredNodeIDs) }), cd) {
			// whatever id is handed out at a position leads to the node of that position
			for o := 0; o < n; o += int(lim.MaxNodesPerRead) {
				q := &ua.ReadRequest{}
				for i := o; i < n && i < o+int(lim.MaxNodesPerRead); i++ {
					q.NodesToRead = append(q.NodesToRead, ua.ReadValueID{NodeID: r.RegisteredNodeIDs[i], AttributeID: ua.AttributeIDNodeID})
				}
				x, cd := do[ua.ReadResponse](c, w.ses, q)
				for i := range q.NodesToRead {
					if cd != 0 || x.Results[i].Value != any(limVars[(o+i)%24].NodeID()) {
						c.Failf("registered node %d of %d is %v", o+i, n, r.RegisteredNodeIDs[o+i])
					}
				}
			}
		}
	case "unregister":
		n := length(t, svc, int(lim.MaxNodesPerRegisterNodes))
		req := &ua.UnregisterNodesRequest{}
		for i := 0; i < n; i++ {
			req.NodesToUnregister = append(req.NodesToUnregister, limVars[i%24].NodeID())
		}
		_, cd := do[ua.UnregisterNodesResponse](c, w.ses, req)
		verdict(c, svc, n, int(lim.MaxNodesPerRegisterNodes), n, cd)
	case "call":
		n := length(t, svc, int(lim.MaxNodesPerMethodCall))
		good := marks(t, n)
		req := &ua.CallRequest{}
		calls := int64(0)
		for i, g := range good {
			m := limMeth[i%8]
			if !g {
				m = num32(uint32(i))
			} else {
				calls++
			}
			req.MethodsToCall = append(req.MethodsToCall, ua.CallMethodRequest{ObjectID: limObj, MethodID: m})
		}
		before := atomic.LoadInt64(&limCalls)
		r, cd := do[ua.CallResponse](c, w.ses, req)
		if verdict(c, svc, n, int(lim.MaxNodesPerMethodCall), lenOf(r, func() int { return len(r.Results) }), cd) {
			for i, g := range good {
				x := r.Results[i]
				if g && (x.StatusCode != 0 || len(x.OutputArguments) != 1 || x.OutputArguments[0] != int32(i%8)) || !g && x.StatusCode != ua.BadMethodInvalid {
					c.Failf("call of %d: result %d is %s %v, the method exists: %v", n, i, hx(x.StatusCode), x.OutputArguments, g)
				}
			}
		} else {
			calls = 0
		}
		if d := atomic.LoadInt64(&limCalls) - before; d != calls {
			c.Failf("a call of %d methods ran %d methods, want %d", n, d, calls)
		}
	case "hist":
		kind := rapid.IntRange(0, 3).Draw(t, "details")
		l := int(lim.MaxNodesPerHistoryReadData)
		var det ua.ExtensionObject
		switch kind {
		case 0:
			det = ua.ReadRawModifiedDetails{StartTime: time.Unix(1e9, 0), EndTime: time.Unix(2e9, 0)}
		case 1:
			det, l = ua.ReadEventDetails{StartTime: time.Unix(1e9, 0), EndTime: time.Unix(2e9, 0)}, int(lim.MaxNodesPerHistoryReadEvents)
		case 2:
			det = ua.ReadAtTimeDetails{ReqTimes: []time.Time{time.Unix(15e8, 0)}}
		}
		n := length(t, svc, l)
		good := marks(t, n)
		req := &ua.HistoryReadRequest{HistoryReadDetails: det, TimestampsToReturn: ua.TimestampsToReturnBoth}
		asked := 0
		for i, g := range good {
			id := limVars[i%24].NodeID()
			if !g {
				id = num32(uint32(i)) // a node only the historian may know
			}
			asked++
			req.NodesToRead = append(req.NodesToRead, ua.HistoryReadValueID{NodeID: id})
		}
		if kind == 3 {
			pd := ua.ReadProcessedDetails{StartTime: time.Unix(1e9, 0), EndTime: time.Unix(2e9, 0), ProcessingInterval: 1000}
			for range good {
				pd.AggregateType = append(pd.AggregateType, ua.ObjectIDAggregateFunctionAverage)
			}
			req.HistoryReadDetails = pd
		}
		hist.reset()
		hist.reply = func(i int, v ua.HistoryReadValueID) ua.HistoryReadResult {
			return ua.HistoryReadResult{ContinuationPoint: ua.ByteString(fmt.Sprint(v.NodeID))}
		}
		r, cd := do[ua.HistoryReadResponse](c, w.ses, req)
		what := fmt.Sprintf("history read with %T", req.HistoryReadDetails)
		if verdict(c, what, n, l, lenOf(r, func() int { return len(r.Results) }), cd) {
			for i, g := range good {
				x, id := r.Results[i], limVars[i%24].NodeID()
				if !g {
					id = num32(uint32(i))
				}
				if x.StatusCode != 0 || string(x.ContinuationPoint) != fmt.Sprint(id) {
					c.Failf("%s of %d: result %d is %s %q, the node exists: %v", what, n, i, hx(x.StatusCode), x.ContinuationPoint, g)
				}
			}
		} else {
			asked = 0
		}
		if len(hist.asked) != asked {
			c.Failf("%s of %d entries asks the historian about %d nodes, want %d", what, n, len(hist.asked), asked)
		}
	default:
		limItems(c, svc, int(lim.MaxMonitoredItemsPerCall))
	}
}

func lenOf[T any](r *T, f func() int) int {
	if r == nil {
		return -1
	}
	return f()
}

func limItems(c *kit.C, svc string, lim int) {
	t := c.T
	sub, ok := w.SubscriptionManager().Get(limSub)
	if !ok {
		kit.Infra("the subscription of C29 is gone")
	}
	params := func(i int) ua.MonitoringParameters {
		return ua.MonitoringParameters{ClientHandle: uint32(1000 + i), SamplingInterval: 60000, QueueSize: uint32(i%30 + 1), DiscardOldest: true}
	}
	create := func(n int, good []bool) (*ua.CreateMonitoredItemsResponse, ua.StatusCode) {
		req := &ua.CreateMonitoredItemsRequest{SubscriptionID: limSub, TimestampsToReturn: ua.TimestampsToReturnBoth}
		for i := 0; i < n; i++ {
			id := limVars[i%24].NodeID()
			if good != nil && !good[i] {
				id = num32(uint32(i))
			}
			req.ItemsToCreate = append(req.ItemsToCreate, ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: id, AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeDisabled, RequestedParameters: params(i)})
		}
		return do[ua.CreateMonitoredItemsResponse](c, w.ses, req)
	}
	defer func() {
		for _, it := range sub.Items() {
			sub.DeleteItem(it.ID())
		}
	}()
	if svc == "create" {
		n := length(t, svc, lim)
		good := marks(t, n)
		r, cd := create(n, good)
		made := 0
		if verdict(c, svc, n, lim, lenOf(r, func() int { return len(r.Results) }), cd) {
			for i, g := range good {
				x := r.Results[i]
				if !g {
					if x.StatusCode != ua.BadNodeIDUnknown {
						c.Failf("create of %d items: result %d for an unknown node is %s", n, i, hx(x.StatusCode))
					}
					continue
				}
				made++
				it, ok := sub.FindItem(x.MonitoredItemID)
				if x.StatusCode != 0 || !ok || it.ClientHandle() != uint32(1000+i) || x.RevisedQueueSize != uint32(i%30+1) || it.ItemToMonitor().NodeID != limVars[i%24].NodeID() {
					c.Failf("create of %d items: result %d (%s, item %d, queue %d) is not the item asked for at this position", n, i, hx(x.StatusCode), x.MonitoredItemID, x.RevisedQueueSize)
				}
			}
		}
		if k := len(sub.Items()); k != made {
			c.Failf("create of %d items left %d items in the subscription, want %d", n, k, made)
		}
		return
	}
	r, cd := create(lim, nil)
	if cd != 0 {
		c.Failf("create of %d items: %s", lim, hx(cd))
	}
	r2, cd := create(lim, nil)
	if cd != 0 {
		c.Failf("create of %d items: %s", lim, hx(cd))
	}
	ids := []uint32{}
	for _, x := range append(r.Results, r2.Results...) {
		ids = append(ids, x.MonitoredItemID)
	}
	n := length(t, svc, lim)
	good := marks(t, n)
	entries := make([]uint32, n)
	want := make([]ua.StatusCode, n)
	for i := range entries {
		if good[i] = good[i] && i < len(ids); good[i] {
			entries[i] = ids[i]
		} else {
			entries[i], want[i] = 0xF0000000+uint32(i), ua.BadMonitoredItemIDInvalid
		}
	}
	switch svc {
	case "modify":
		req := &ua.ModifyMonitoredItemsRequest{SubscriptionID: limSub, TimestampsToReturn: ua.TimestampsToReturnBoth}
		for i, e := range entries {
			p := params(i)
			p.ClientHandle, p.QueueSize = uint32(2000+i), uint32(40+i)
			req.ItemsToModify = append(req.ItemsToModify, ua.MonitoredItemModifyRequest{MonitoredItemID: e, RequestedParameters: p})
		}
		r, cd := do[ua.ModifyMonitoredItemsResponse](c, w.ses, req)
		ok := verdict(c, svc, n, lim, lenOf(r, func() int { return len(r.Results) }), cd)
		for i := range entries {
			if ok && (r.Results[i].StatusCode != want[i] || good[i] && r.Results[i].RevisedQueueSize != uint32(40+i)) {
				c.Failf("modify of %d items: result %d is %s with queue size %d, want %s", n, i, hx(r.Results[i].StatusCode), r.Results[i].RevisedQueueSize, hx(want[i]))
			}
			if it, k := sub.FindItem(entries[i]); k && good[i] && (it.ClientHandle() == uint32(2000+i)) != ok {
				c.Failf("modify of %d items (accepted: %v): item %d has client handle %d", n, ok, i, it.ClientHandle())
			}
		}
	case "mode":
		mode := pick(t, "mode", ua.MonitoringModeSampling, ua.MonitoringModeReporting)
		r, cd := do[ua.SetMonitoringModeResponse](c, w.ses, &ua.SetMonitoringModeRequest{SubscriptionID: limSub, MonitoringMode: mode, MonitoredItemIDs: entries})
		ok := verdict(c, svc, n, lim, lenOf(r, func() int { return len(r.Results) }), cd)
		if ok {
			codesAt(c, svc, r.Results, want)
		}
		for i := range entries {
			if it, k := sub.FindItem(entries[i]); k && good[i] && (it.MonitoringMode() == mode) != ok {
				c.Failf("setting the mode of %d items (accepted: %v): item %d has mode %v", n, ok, i, it.MonitoringMode())
			}
		}
	case "delete":
		r, cd := do[ua.DeleteMonitoredItemsResponse](c, w.ses, &ua.DeleteMonitoredItemsRequest{SubscriptionID: limSub, MonitoredItemIDs: entries})
		ok := verdict(c, svc, n, lim, lenOf(r, func() int { return len(r.Results) }), cd)
		if ok {
			codesAt(c, svc, r.Results, want)
		}
		left := len(ids)
		for i := range entries {
			if good[i] && ok {
				left--
			}
			if _, k := sub.FindItem(entries[i]); good[i] && k == ok {
				c.Failf("deleting %d items (accepted: %v): item %d exists: %v", n, ok, i, k)
			}
		}
		if k := len(sub.Items()); k != left {
			c.Failf("deleting %d items (accepted: %v) leaves %d of %d items, want %d", n, ok, k, len(ids), left)
		}
	case "trigger":
		// the list is split over both arguments; links to remove do not exist
		k := rapid.IntRange(0, n).Draw(t, "remove")
		rw := make([]ua.StatusCode, k)
		for i := range rw {
			rw[i] = ua.BadMonitoredItemIDInvalid
		}
		trig := ids[len(ids)-1]
		for i := range entries {
			if entries[i] == trig {
				entries[i], want[i] = 0xF0000000, ua.BadMonitoredItemIDInvalid
			}
		}
		r, cd := do[ua.SetTriggeringResponse](c, w.ses, &ua.SetTriggeringRequest{SubscriptionID: limSub, TriggeringItemID: trig, LinksToAdd: entries[k:], LinksToRemove: entries[:k]})
		if verdict(c, svc, n, lim, lenOf(r, func() int { return len(r.AddResults) + len(r.RemoveResults) }), cd) {
			if len(r.RemoveResults) != k {
				c.Failf("%d links to remove have %d results", k, len(r.RemoveResults))
			}
			codesAt(c, "removing links", r.RemoveResults, rw)
			codesAt(c, "adding links", r.AddResults, want[k:])
		}
	}
}

// capacity: a server of its own with small maxima.

const capSessions, capSubs = 6, 5

func capSetup() func() {
	s := env.Start("r2048_1", append(baseOpts(), server.WithMaxSessionCount(capSessions), server.WithMaxSubscriptionCount(capSubs))...)
	w = &world{Srv: s, name: map[string]*wire.Session{}}
	return func() {}
}

type capSes struct {
	*wire.Session
	active bool
	subs   []uint32
}

func capacity(c *kit.C) {
	t := c.T
	if n, m := w.SessionManager().Len(), w.SubscriptionManager().Len(); n != 0 || m != 0 {
		kit.Infra("%d sessions and %d subscriptions at the start of a case", n, m)
	}
	var live []*capSes
	orphans := []uint32{}
	defer func() {
		for _, s := range live {
			if !s.active {
				s.Activate(s.Anonymous())
			}
			wire.Do[ua.CloseSessionResponse](s.Session, &ua.CloseSessionRequest{DeleteSubscriptions: true})
			s.Close()
		}
		for _, id := range orphans {
			if s, ok := w.SubscriptionManager().Get(id); ok {
				w.SubscriptionManager().Delete(s)
				s.Delete()
			}
		}
	}()
	subs := func() int {
		n := len(orphans)
		for _, s := range live {
			n += len(s.subs)
		}
		return n
	}
	conn := func() *wire.Client {
		x, err := wire.Connect(w.Addr, w.URL, wire.DefaultLimits, wire.NoSec)
		if err != nil {
			c.Hardf("the server does not accept a connection: %v", err)
		}
		x.Start()
		return x
	}
	hist := ""
	step := func(f string, a ...any) { hist += fmt.Sprintf(f, a...) + "; " }
	bySt := func(active bool) []*capSes {
		r := []*capSes{}
		for _, s := range live {
			if s.active == active {
				r = append(r, s)
			}
		}
		return r
	}
	newSub := func() *ua.CreateSubscriptionRequest {
		return &ua.CreateSubscriptionRequest{RequestedPublishingInterval: 60000, RequestedLifetimeCount: 60000, RequestedMaxKeepAliveCount: 20000}
	}
	for k := rapid.IntRange(3, 40).Draw(t, "steps"); k > 0; k-- {
		switch pick(t, "op", "create", "create", "create", "burst", "activate", "activate", "close", "drop", "wrong", "sub", "sub", "sub", "subburst", "unsub", "refused") {
		case "create":
			cl := conn()
			s, err := cl.CreateSession(wire.CreateOpts{})
			room := len(live) < capSessions
			step("create session with %d of %d", len(live), capSessions)
			if room && err != nil || !room && wire.CodeOf(err) != ua.BadTooManySessions {
				c.Failf("%s: answered with %v", hist, err)
			}
			if err != nil {
				cl.Close()
				c.Label("session refused")
				break
			}
			live = append(live, &capSes{Session: s})
		case "burst":
			n := rapid.IntRange(2, capSessions+2).Draw(t, "n")
			cs := make([]*wire.Client, n)
			for i := range cs {
				cs[i] = conn()
			}
			var wg sync.WaitGroup
			ss, errs := make([]*wire.Session, n), make([]error, n)
			for i := range cs {
				wg.Add(1)
				go func() { defer wg.Done(); ss[i], errs[i] = cs[i].CreateSession(wire.CreateOpts{}) }()
			}
			wg.Wait()
			room := min(n, capSessions-len(live))
			got := 0
			for i := range cs {
				if errs[i] == nil {
					got++
					live = append(live, &capSes{Session: ss[i]})
				} else {
					cs[i].Close()
					if wire.CodeOf(errs[i]) != ua.BadTooManySessions {
						c.Failf("%s: a burst of sessions: %v", hist, errs[i])
					}
				}
			}
			step("burst of %d sessions", n)
			c.Label("session burst")
			if got != room {
				c.Failf("%s admits %d, want %d", hist, got, room)
			}
		case "activate":
			l := bySt(false)
			if len(l) == 0 {
				break
			}
			s := pick(t, "which", l...)
			step("activate")
			if err := s.Activate(s.Anonymous()); err != nil {
				c.Failf("%s: %v", hist, err)
			}
			s.active = true
		case "wrong":
			l := bySt(true)
			if len(l) == 0 {
				break
			}
			// a failed activation of an active session does not remove it
			s := pick(t, "which", l...)
			step("reactivate with a wrong password")
			if err := s.Activate(s.UserName("m1", "wrong")); wire.CodeOf(err) == 0 {
				c.Failf("%s: %v", hist, err)
			}
		case "close":
			l := bySt(true)
			if len(l) == 0 {
				break
			}
			s := pick(t, "which", l...)
			del := rapid.IntRange(0, 2).Draw(t, "delete") > 0
			step("close (delete %v)", del)
			if _, cd := do[ua.CloseSessionResponse](c, s.Session, &ua.CloseSessionRequest{DeleteSubscriptions: del}); cd != 0 {
				c.Failf("%s: %s", hist, hx(cd))
			}
			s.Close()
			if !del {
				orphans = append(orphans, s.subs...)
			}
			live = remove(live, s)
		case "drop":
			// a request on a session that is not activated ends it
			l := bySt(false)
			if len(l) == 0 {
				break
			}
			s := pick(t, "which", l...)
			step("use without activation")
			if _, cd := do[ua.ReadResponse](c, s.Session, &ua.ReadRequest{}); cd != ua.BadSessionNotActivated {
				c.Failf("%s: %s", hist, hx(cd))
			}
			s.Close()
			live = remove(live, s)
		case "sub":
			l := bySt(true)
			if len(l) == 0 {
				break
			}
			s := pick(t, "which", l...)
			step("subscription with %d of %d", subs(), capSubs)
			r, cd := do[ua.CreateSubscriptionResponse](c, s.Session, newSub())
			if room := subs() < capSubs; room && cd != 0 || !room && cd != ua.BadTooManySubscriptions {
				c.Failf("%s: %s", hist, hx(cd))
			}
			if cd == 0 {
				s.subs = append(s.subs, r.SubscriptionID)
			} else {
				c.Label("subscription refused")
			}
		case "subburst":
			l := bySt(true)
			if len(l) < 2 {
				break
			}
			var wg sync.WaitGroup
			room, got := capSubs-subs(), int64(0)
			each := rapid.IntRange(1, 4).Draw(t, "each")
			step("burst of %d subscriptions each by %d sessions", each, len(l))
			bad := make([]error, len(l))
			for i, s := range l {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := 0; j < each; j++ {
						r, err := wire.Do[ua.CreateSubscriptionResponse](s.Session, newSub())
						switch {
						case err == nil:
							s.subs = append(s.subs, r.SubscriptionID)
							atomic.AddInt64(&got, 1)
						case wire.CodeOf(err) != ua.BadTooManySubscriptions:
							bad[i] = err
						}
					}
				}()
			}
			wg.Wait()
			for _, e := range bad {
				if e != nil {
					c.Failf("%s: %v", hist, e)
				}
			}
			c.Label("subscription burst")
			if int(got) != min(room, each*len(l)) {
				c.Failf("%s admits %d with room for %d", hist, got, room)
			}
		case "unsub":
			l := []*capSes{}
			for _, s := range bySt(true) {
				if len(s.subs) > 0 {
					l = append(l, s)
				}
			}
			if len(l) == 0 {
				break
			}
			s := pick(t, "which", l...)
			i := rapid.IntRange(0, len(s.subs)-1).Draw(t, "i")
			ids := []uint32{s.subs[i]}
			want := []ua.StatusCode{0}
			if rapid.Bool().Draw(t, "mixed") {
				ids = []uint32{0xF0000000, s.subs[i], s.subs[i]}
				want = []ua.StatusCode{ua.BadSubscriptionIDInvalid, 0, ua.BadSubscriptionIDInvalid}
				p, cd := do[ua.SetPublishingModeResponse](c, s.Session, &ua.SetPublishingModeRequest{SubscriptionIDs: ids})
				if cd != 0 || len(p.Results) != 3 {
					c.Failf("%s; publishing mode of three subscriptions: %s", hist, hx(cd))
				}
				codesAt(c, "publishing mode", p.Results, []ua.StatusCode{ua.BadSubscriptionIDInvalid, 0, 0})
			}
			step("delete subscriptions %v", ids)
			r, cd := do[ua.DeleteSubscriptionsResponse](c, s.Session, &ua.DeleteSubscriptionsRequest{SubscriptionIDs: ids})
			if cd != 0 || len(r.Results) != len(ids) {
				c.Failf("%s: %s", hist, hx(cd))
			}
			codesAt(c, "deleting subscriptions", r.Results, want)
			s.subs = append(s.subs[:i:i], s.subs[i+1:]...)
		case "refused":
			// a failed creation counts for nothing: no session without a good nonce on a channel with security; here, an unknown token
			cl := conn()
			step("request with an unknown token")
			x := &wire.Session{Client: cl, Token: ua.NewNodeIDOpaque(1, "no such session")}
			if _, cd := do[ua.CreateSubscriptionResponse](c, x, newSub()); cd != ua.BadSessionIDInvalid {
				c.Failf("%s: %s", hist, hx(cd))
			}
			cl.Close()
		}
		if n, m := w.SessionManager().Len(), w.SubscriptionManager().Len(); n != len(live) || m != subs() {
			c.Failf("%s: the server counts %d sessions and %d subscriptions, there are %d and %d", hist, n, m, len(live), subs())
		}
		for _, s := range live {
			for _, id := range s.subs {
				if _, ok := w.SubscriptionManager().Get(id); !ok {
					c.Failf("%s: subscription %d is gone", hist, id)
				}
			}
		}
	}
	c.NT(hist)
}

func remove[T comparable](l []T, x T) []T {
	r := []T{}
	for _, y := range l {
		if y != x {
			r = append(r, y)
		}
	}
	return r
}

func init() {
	kit.Register(&kit.Check{
		ID:          "C29",
		Rule:        "lists of every service with an announced limit, lengths around 0 and the limit, good and bad entries mixed, with the effects compared; histories of session and subscription creation, closing and concurrent bursts at small maxima against a counting model; non-trivial: distinct (service, length) and distinct histories",
		Assumptions: []string{"a limit of zero is not judged", "sessions that timed out but are not yet swept are not judged"},
		Subs: []kit.Sub{{Name: "lists", Quick: 12000, Thorough: 400000, Shards: 4, Fn: limLists, Setup: limSetup},
			{Name: "capacity", Quick: 1200, Thorough: 40000, Shards: 4, Fn: capacity, Setup: capSetup}},
	})
}
