package props

import (
	"fmt"
	"sync"
	"time"

	"verif/harness/kit"
	"verif/harness/wire"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// Diagnostics under load: subscriptions and sessions that watch themselves and each other.

type diagOp struct {
	kind     int
	target   int // 0: array, 1: own diagnostics, 2: another's, 3: session's, 4: summary, 5: plain
	n        int
	sampling float64
	x        int
}

type diagPlan struct {
	lanes [][]diagOp
}

func drawDiag(t *rapid.T) diagPlan {
	p := diagPlan{}
	for n := rapid.IntRange(1, 3).Draw(t, "clients"); n > 0; n-- {
		ops := []diagOp{{kind: 0}}
		for k := rapid.IntRange(3, 14).Draw(t, "ops"); k > 0; k-- {
			ops = append(ops, diagOp{kind: pick(t, "op", 0, 1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9), target: rapid.IntRange(0, 5).Draw(t, "target"), n: pick(t, "n", 1, 3, 20),
				sampling: pick(t, "sampling", 0.0, 10.0, 10.0, 50.0, -1), x: rapid.IntRange(0, 7).Draw(t, "x")})
		}
		p.lanes = append(p.lanes, ops)
	}
	return p
}

func (p diagPlan) String() string {
	s := ""
	for i, l := range p.lanes {
		s += fmt.Sprintf("client %d:", i)
		for _, o := range l {
			switch o.kind {
			case 0:
				s += " subscribe"
			case 1:
				s += fmt.Sprintf(" %d items on %s (every %v)", o.n, []string{"all subscriptions", "its subscription", "another subscription", "its session", "the summary", "a variable"}[o.target], o.sampling)
			case 2:
				s += " resend"
			case 3:
				s += fmt.Sprintf(" read %d times", o.n)
			default:
				s += " " + []string{"modify", "publishing off/on", "mode", "delete an item", "delete a subscription", "rest"}[o.kind-4]
			}
		}
		s += "; "
	}
	return s
}

var diagVar *server.VariableNode

func diagSetup() func() {
	end := hostSetup()
	diagVar = w.variable(ua.NewNodeIDString(2, "diag-plain"), int32(0), ua.DataTypeIDInt32, ua.ValueRankScalar, ua.AccessLevelsCurrentRead)
	w.add(diagVar)
	return end
}

func browseAll(s *wire.Session, id ua.NodeID) (map[string]ua.NodeID, error) {
	refs, err := browseRefs(s, id)
	out := map[string]ua.NodeID{}
	for _, r := range refs {
		out[r.BrowseName.String()] = ua.ToNodeID(r.NodeID, nil)
	}
	return out, err
}

func browseRefs(s *wire.Session, id ua.NodeID) ([]ua.ReferenceDescription, error) {
	x, err := wire.Do[ua.BrowseResponse](s, &ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: id, BrowseDirection: ua.BrowseDirectionForward, ReferenceTypeID: ua.ReferenceTypeIDHierarchicalReferences, IncludeSubtypes: true, ResultMask: 63}}})
	if err != nil {
		return nil, err
	}
	return x.Results[0].References, nil
}

func readOne(s *wire.Session, id ua.NodeID) (ua.DataValue, error) {
	x, err := wire.Do[ua.ReadResponse](s, &ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: id, AttributeID: ua.AttributeIDValue}}})
	if err != nil {
		return ua.DataValue{}, err
	}
	return x.Results[0], nil
}

type diagLane struct {
	i       int
	s       *wire.Session
	subs    []uint32
	items   map[uint32][]uint32
	handles uint32
	stop    chan struct{}
	got     map[uint32]time.Time // last publish response of a subscription
	mu      sync.Mutex
	fails   *[]string
	fmu     *sync.Mutex
	wg      sync.WaitGroup
}

func (l *diagLane) failf(f string, a ...any) {
	l.fmu.Lock()
	defer l.fmu.Unlock()
	*l.fails = append(*l.fails, fmt.Sprintf("client %d: ", l.i)+fmt.Sprintf(f, a...))
}

// pump keeps publish requests outstanding.
func (l *diagLane) pump() {
	defer l.wg.Done()
	for {
		select {
		case <-l.stop:
			return
		default:
		}
		req := &ua.PublishRequest{RequestHeader: l.s.Header()}
		ch, _, err := l.s.Go(req)
		if err != nil {
			return
		}
		select {
		case r := <-ch:
			if x, ok := r.Msg.(*ua.PublishResponse); ok && x.ServiceResult == 0 {
				l.mu.Lock()
				l.got[x.SubscriptionID] = time.Now()
				l.mu.Unlock()
			} else {
				time.Sleep(5 * time.Millisecond)
			}
		case <-l.s.DeadCh():
			return
		case <-l.stop:
			return
		}
	}
}

func (l *diagLane) targets(o diagOp) (ua.NodeID, error) {
	switch o.target {
	case 1, 2:
		m, err := browseAll(l.s, ua.VariableIDServerServerDiagnosticsSubscriptionDiagnosticsArray)
		if err != nil {
			return nil, err
		}
		if o.target == 1 && len(l.subs) > 0 {
			if id, ok := m[fmt.Sprintf("1:%d", l.subs[o.x%len(l.subs)])]; ok {
				return id, nil
			}
		}
		for _, id := range m {
			return id, nil
		}
	case 3:
		m, err := browseAll(l.s, l.s.SessionID)
		if err != nil {
			return nil, err
		}
		if id, ok := m["0:SessionDiagnostics"]; ok {
			return id, nil
		}
	case 4:
		return ua.VariableIDServerServerDiagnosticsServerDiagnosticsSummary, nil
	case 5:
		return diagVar.NodeID(), nil
	}
	return ua.VariableIDServerServerDiagnosticsSubscriptionDiagnosticsArray, nil
}

func (l *diagLane) do(o diagOp) error {
	if len(l.subs) == 0 && in(o.kind, 1, 2, 4, 5, 6, 7, 8) {
		o.kind = 0
	}
	sub := uint32(0)
	if len(l.subs) > 0 {
		sub = l.subs[o.x%len(l.subs)]
	}
	switch o.kind {
	case 0:
		if len(l.subs) >= 4 {
			return nil
		}
		x, err := wire.Do[ua.CreateSubscriptionResponse](l.s, &ua.CreateSubscriptionRequest{RequestedPublishingInterval: 10, RequestedLifetimeCount: 10000, RequestedMaxKeepAliveCount: 2, PublishingEnabled: true})
		if err != nil {
			return err
		}
		l.subs = append(l.subs, x.SubscriptionID)
	case 1:
		id, err := l.targets(o)
		if err != nil {
			return err
		}
		req := &ua.CreateMonitoredItemsRequest{SubscriptionID: sub, TimestampsToReturn: ua.TimestampsToReturnBoth}
		for k := 0; k < o.n; k++ {
			l.handles++
			req.ItemsToCreate = append(req.ItemsToCreate, ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: id, AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting,
				RequestedParameters: ua.MonitoringParameters{ClientHandle: l.handles, SamplingInterval: o.sampling, QueueSize: 2, DiscardOldest: true}})
		}
		x, err := wire.Do[ua.CreateMonitoredItemsResponse](l.s, req)
		if err != nil {
			return err
		}
		for _, r := range x.Results {
			if r.StatusCode == 0 {
				l.items[sub] = append(l.items[sub], r.MonitoredItemID)
			} else if r.StatusCode != ua.BadNodeIDUnknown {
				l.failf("an item on %v is refused with %s", id, hx(r.StatusCode))
			}
		}
	case 2:
		_, err := wire.Do[ua.CallResponse](l.s, &ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{{ObjectID: ua.ObjectIDServer, MethodID: ua.MethodIDServerResendData, InputArguments: []ua.Variant{sub}}}})
		return err
	case 3:
		for k := 0; k < o.n; k++ {
			id, err := l.targets(o)
			if err != nil {
				return err
			}
			if _, err := readOne(l.s, id); err != nil {
				return err
			}
		}
	case 4:
		_, err := wire.Do[ua.ModifySubscriptionResponse](l.s, &ua.ModifySubscriptionRequest{SubscriptionID: sub, RequestedPublishingInterval: float64(10 * (1 + o.x%3)), RequestedLifetimeCount: 10000, RequestedMaxKeepAliveCount: 2})
		return err
	case 5:
		for _, on := range []bool{false, true} {
			if _, err := wire.Do[ua.SetPublishingModeResponse](l.s, &ua.SetPublishingModeRequest{PublishingEnabled: on, SubscriptionIDs: l.subs}); err != nil {
				return err
			}
		}
	case 6:
		if len(l.items[sub]) == 0 {
			return nil
		}
		if o.x%2 == 0 {
			for _, m := range []ua.MonitoringMode{ua.MonitoringModeDisabled, ua.MonitoringModeReporting} {
				if _, err := wire.Do[ua.SetMonitoringModeResponse](l.s, &ua.SetMonitoringModeRequest{SubscriptionID: sub, MonitoringMode: m, MonitoredItemIDs: l.items[sub]}); err != nil {
					return err
				}
			}
			return nil
		}
		req := &ua.ModifyMonitoredItemsRequest{SubscriptionID: sub, TimestampsToReturn: ua.TimestampsToReturnBoth}
		for _, id := range l.items[sub] {
			req.ItemsToModify = append(req.ItemsToModify, ua.MonitoredItemModifyRequest{MonitoredItemID: id, RequestedParameters: ua.MonitoringParameters{SamplingInterval: o.sampling, QueueSize: 3, DiscardOldest: true}})
		}
		_, err := wire.Do[ua.ModifyMonitoredItemsResponse](l.s, req)
		return err
	case 7:
		if k := len(l.items[sub]); k > 0 {
			id := l.items[sub][k-1]
			l.items[sub] = l.items[sub][:k-1]
			_, err := wire.Do[ua.DeleteMonitoredItemsResponse](l.s, &ua.DeleteMonitoredItemsRequest{SubscriptionID: sub, MonitoredItemIDs: []uint32{id}})
			return err
		}
	case 8:
		for i, x := range l.subs {
			if x == sub {
				l.subs = append(append([]uint32{}, l.subs[:i]...), l.subs[i+1:]...)
				break
			}
		}
		_, err := wire.Do[ua.DeleteSubscriptionsResponse](l.s, &ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{sub}})
		return err
	case 9:
		time.Sleep(time.Duration(o.x*o.n) * time.Millisecond)
	}
	return nil
}

func diagRun(p diagPlan) []string {
	var fails []string
	var fmu sync.Mutex
	var lanes []*diagLane
	for i := range p.lanes {
		s, err := wire.NewSession(w.Addr, w.URL)
		if err != nil {
			return []string{fmt.Sprintf("a new session is refused: %v", err)}
		}
		l := &diagLane{i: i, s: s, items: map[uint32][]uint32{}, stop: make(chan struct{}), got: map[uint32]time.Time{}, fails: &fails, fmu: &fmu}
		lanes = append(lanes, l)
		for k := 0; k < 4; k++ {
			l.wg.Add(1)
			go l.pump()
		}
	}
	var wg sync.WaitGroup
	for i, l := range lanes {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, o := range p.lanes[i] {
				if err := l.do(o); err != nil && wire.CodeOf(err) == 0 {
					l.failf("%v is not answered: %v", diagPlan{lanes: [][]diagOp{{o}}}, err)
					return
				}
			}
		}()
	}
	wg.Wait()
	// every subscription still publishes, also for a new client
	began := time.Now()
	probe := func(what string, f func() error) {
		if err := f(); err != nil {
			fmu.Lock()
			fails = append(fails, fmt.Sprintf("%s after that: %v", what, err))
			fmu.Unlock()
		}
	}
	if len(fails) == 0 {
		probe("a read of the diagnostics", func() error {
			s, err := wire.NewSession(w.Addr, w.URL)
			if err != nil {
				return err
			}
			defer s.Drop()
			for _, id := range []ua.NodeID{ua.VariableIDServerServerDiagnosticsSubscriptionDiagnosticsArray, ua.VariableIDServerServerDiagnosticsServerDiagnosticsSummary} {
				if _, err := readOne(s, id); err != nil {
					return err
				}
			}
			_, err = wire.Do[ua.CloseSessionResponse](s, &ua.CloseSessionRequest{RequestHeader: s.Header(), DeleteSubscriptions: true})
			return err
		})
		for _, l := range lanes {
			for _, sub := range l.subs {
				// a keep-alive is due after two publishing intervals of at most 125 ms
				for {
					l.mu.Lock()
					ok := l.got[sub].After(began)
					l.mu.Unlock()
					if ok {
						break
					}
					if time.Since(began) > 20*time.Second {
						l.failf("subscription %d publishes nothing for 20s, although requests wait and its keep-alive interval is below 1s", sub)
						break
					}
					time.Sleep(2 * time.Millisecond)
				}
			}
		}
	}
	for _, l := range lanes {
		if len(fails) == 0 {
			probe("closing a session", func() error {
				_, err := wire.Do[ua.CloseSessionResponse](l.s, &ua.CloseSessionRequest{RequestHeader: l.s.Header(), DeleteSubscriptions: true})
				return err
			})
		}
		close(l.stop)
		l.s.Drop()
	}
	for _, l := range lanes {
		l.wg.Wait()
	}
	return fails
}

func diagLoad(c *kit.C) {
	p := drawDiag(c.T)
	fails := diagRun(p)
	for _, f := range fails {
		c.Hardf("%s\n%s", f, p)
	}
	for _, l := range p.lanes {
		for _, o := range l {
			if o.kind == 1 {
				c.Label(fmt.Sprintf("watches %d", o.target))
			}
			if o.kind == 2 {
				c.Label("resend")
			}
		}
	}
	c.NT(p.String())
	c.Note("%s", p)
}
