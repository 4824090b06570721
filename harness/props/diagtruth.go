package props

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"verif/harness/kit"
	"verif/harness/wire"

	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// What the server's diagnostics say about sessions, subscriptions and items, against a model.

type truthSub struct {
	id       uint32
	interval float64
	life     uint32
	keep     uint32
	maxN     uint32
	prio     byte
	enabled  bool
	modified uint32
	items    map[uint32]bool // disabled
	order    []uint32
}

type truthSession struct {
	s     *wire.Session
	name  string
	url   string
	subs  []*truthSub
	total map[string]uint32
	errs  map[string]uint32
}

type truthRun struct {
	c        *kit.C
	base     ua.ServerDiagnosticsSummaryDataType
	sessions []*truthSession
	orphans  []*truthSub // of closed sessions
	made     uint32
	madeSubs uint32
	hist     []string
}

func (r *truthRun) failf(f string, a ...any) {
	r.c.Failf("%s\n%s", fmt.Sprintf(f, a...), strings.Join(r.hist, "; "))
}

// count sends a request for which one service counter counts.
func truthDo[T any](r *truthRun, m *truthSession, counter string, req ua.ServiceRequest) (*T, ua.StatusCode) {
	x, code := do[T](r.c, m.s, req)
	m.total[counter]++
	if code != 0 {
		m.errs[counter]++
	}
	return x, code
}

func summaryOf(c *kit.C) ua.ServerDiagnosticsSummaryDataType {
	v, err := readOne(w.ses, ua.VariableIDServerServerDiagnosticsServerDiagnosticsSummary)
	if err != nil {
		c.Failf("the diagnostics summary cannot be read: %v", err)
	}
	x, ok := v.Value.(ua.ServerDiagnosticsSummaryDataType)
	if !ok {
		c.Failf("the diagnostics summary is %T (%s)", v.Value, hx(v.StatusCode))
	}
	return x
}

// parts compares the component variables of a structure with its fields; before and after are reads of the structure
// around the read of the components, and a field that moved meanwhile proves nothing.
func (r *truthRun) parts(what string, id ua.NodeID) any {
	kids, err := browseAll(w.ses, id)
	if err != nil {
		r.failf("%s: %v", what, err)
	}
	read := func() any {
		v, err := readOne(w.ses, id)
		if err != nil || v.StatusCode != 0 || v.Value == nil {
			r.failf("%s cannot be read: %v %s %T", what, err, hx(v.StatusCode), v.Value)
		}
		return v.Value
	}
	before := read()
	req := &ua.ReadRequest{}
	var names []string
	for n, k := range kids {
		names = append(names, strings.TrimPrefix(n, "0:"))
		req.NodesToRead = append(req.NodesToRead, ua.ReadValueID{NodeID: k, AttributeID: ua.AttributeIDValue})
	}
	if len(names) == 0 {
		r.failf("%s has no components", what)
	}
	x, code := do[ua.ReadResponse](r.c, w.ses, req)
	if code != 0 {
		r.failf("%s: the components cannot be read: %s", what, hx(code))
	}
	after := read()
	b, a := reflect.ValueOf(before), reflect.ValueOf(after)
	if b.Kind() != reflect.Struct || a.Type() != b.Type() {
		r.failf("%s is %T", what, before)
	}
	for i, n := range names {
		fold := func(s string) bool { return strings.EqualFold(s, n) }
		f := b.FieldByNameFunc(fold)
		if !f.IsValid() {
			continue
		}
		g := a.FieldByNameFunc(fold)
		if !reflect.DeepEqual(f.Interface(), g.Interface()) {
			continue
		}
		got := x.Results[i].Value
		if x.Results[i].StatusCode == ua.BadUserAccessDenied {
			continue
		}
		if !sameTruth(got, f.Interface()) {
			r.failf("%s: the component %s is %#v (%s), the structure has %#v", what, n, got, hx(x.Results[i].StatusCode), f.Interface())
		}
	}
	return after
}

func sameTruth(a, b any) bool {
	if reflect.DeepEqual(a, b) {
		return true
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	empty := func(v reflect.Value) bool {
		return !v.IsValid() || v.Kind() == reflect.Slice && v.Len() == 0
	}
	return empty(va) && empty(vb)
}

func (r *truthRun) check() {
	subs := uint32(len(r.orphans))
	for _, m := range r.sessions {
		subs += uint32(len(m.subs))
	}
	got := summaryOf(r.c)
	want := r.base
	want.CurrentSessionCount += uint32(len(r.sessions))
	want.CumulatedSessionCount += r.made
	want.CurrentSubscriptionCount += subs
	want.CumulatedSubscriptionCount += r.madeSubs
	for _, q := range []struct {
		what      string
		got, want uint32
	}{{"CurrentSessionCount", got.CurrentSessionCount, want.CurrentSessionCount}, {"CumulatedSessionCount", got.CumulatedSessionCount, want.CumulatedSessionCount},
		{"CurrentSubscriptionCount", got.CurrentSubscriptionCount, want.CurrentSubscriptionCount}, {"CumulatedSubscriptionCount", got.CumulatedSubscriptionCount, want.CumulatedSubscriptionCount}} {
		if q.got != q.want {
			r.failf("%s is %d, not %d", q.what, q.got, q.want)
		}
	}
	objs, err := browseRefs(w.ses, ua.ObjectIDServerServerDiagnosticsSessionsDiagnosticsSummary)
	if err != nil {
		r.failf("the sessions' diagnostics: %v", err)
	}
	have := map[ua.NodeID]bool{}
	for _, o := range objs {
		have[ua.ToNodeID(o.NodeID, nil)] = true
	}
	for _, m := range r.sessions {
		if !have[m.s.SessionID] {
			r.failf("the session %v (%q) has no diagnostics", m.s.SessionID, m.name)
		}
	}
	array, err := browseAll(w.ses, ua.VariableIDServerServerDiagnosticsSubscriptionDiagnosticsArray)
	if err != nil {
		r.failf("the subscriptions' diagnostics: %v", err)
	}
	if uint32(len(array)) != want.CurrentSubscriptionCount {
		r.failf("%d subscriptions have diagnostics, there are %d", len(array), want.CurrentSubscriptionCount)
	}
	v, err := readOne(w.ses, ua.VariableIDServerServerDiagnosticsSubscriptionDiagnosticsArray)
	if err != nil {
		r.failf("the array of the subscriptions' diagnostics: %v", err)
	}
	list, _ := v.Value.([]ua.ExtensionObject)
	byID := map[uint32]ua.SubscriptionDiagnosticsDataType{}
	for _, e := range list {
		if x, ok := e.(ua.SubscriptionDiagnosticsDataType); ok {
			byID[x.SubscriptionID] = x
		}
	}
	if uint32(len(list)) != want.CurrentSubscriptionCount || len(byID) != len(list) {
		r.failf("the array of the subscriptions' diagnostics has %d entries (%d distinct), there are %d subscriptions", len(list), len(byID), want.CurrentSubscriptionCount)
	}
	for _, m := range r.sessions {
		for _, s := range m.subs {
			x, ok := byID[s.id]
			if !ok {
				r.failf("the subscription %d is not in the array", s.id)
			}
			r.compareSub("the array's entry", m, s, x)
		}
	}
}

func (r *truthRun) compareSub(what string, m *truthSession, s *truthSub, x ua.SubscriptionDiagnosticsDataType) {
	off := uint32(0)
	for _, d := range s.items {
		if d {
			off++
		}
	}
	maxN := s.maxN
	if maxN == 0 {
		maxN = x.MaxNotificationsPerPublish
	}
	g := fmt.Sprintf("%v %d %v %d %d %d %d %t %d %d %d", x.SessionID, x.SubscriptionID, x.PublishingInterval, x.MaxKeepAliveCount, x.MaxLifetimeCount, x.MaxNotificationsPerPublish, x.Priority, x.PublishingEnabled, x.ModifyCount, x.MonitoredItemCount, x.DisabledMonitoredItemCount)
	f := fmt.Sprintf("%v %d %v %d %d %d %d %t %d %d %d", m.s.SessionID, s.id, s.interval, s.keep, s.life, maxN, s.prio, s.enabled, s.modified, len(s.items), off)
	if g != f {
		r.failf("%s says (session, id, interval, keep-alive, lifetime, notifications, priority, enabled, modified, items, disabled) %s, not %s", what, g, f)
	}
}

// detail looks at one session and one of its subscriptions closely.
func (r *truthRun) detail(m *truthSession, k int) {
	kids, err := browseAll(w.ses, m.s.SessionID)
	if err != nil {
		r.failf("the diagnostics of %q: %v", m.name, err)
	}
	id, ok := kids["0:SessionDiagnostics"]
	if !ok {
		r.failf("the diagnostics object of %q has no SessionDiagnostics", m.name)
	}
	x, ok := r.parts("SessionDiagnostics of "+m.name, id).(ua.SessionDiagnosticsDataType)
	if !ok {
		r.failf("SessionDiagnostics of %q has another type", m.name)
	}
	items := 0
	for _, s := range m.subs {
		items += len(s.items)
	}
	g := fmt.Sprintf("%v %q %q %v %d %d", x.SessionID, x.SessionName, x.EndpointURL, x.ActualSessionTimeout, x.CurrentSubscriptionsCount, x.CurrentMonitoredItemsCount)
	f := fmt.Sprintf("%v %q %q %v %d %d", m.s.SessionID, m.name, m.url, m.s.Timeout, len(m.subs), items)
	if g != f {
		r.failf("SessionDiagnostics says (id, name, url, timeout, subscriptions, items) %s, not %s", g, f)
	}
	v := reflect.ValueOf(x)
	for n, q := range m.total {
		cnt := v.FieldByName(n).Interface().(ua.ServiceCounterDataType)
		if cnt.TotalCount != q || cnt.ErrorCount != m.errs[n] {
			r.failf("%s of %q is %d with %d errors, the session sent %d such requests and %d were refused", n, m.name, cnt.TotalCount, cnt.ErrorCount, q, m.errs[n])
		}
	}
	if len(m.subs) > 0 {
		s := m.subs[k%len(m.subs)]
		array, err := browseAll(w.ses, ua.VariableIDServerServerDiagnosticsSubscriptionDiagnosticsArray)
		if err != nil {
			r.failf("the subscriptions' diagnostics: %v", err)
		}
		y, ok := r.parts(fmt.Sprintf("the diagnostics of subscription %d", s.id), array[fmt.Sprintf("1:%d", s.id)]).(ua.SubscriptionDiagnosticsDataType)
		if !ok {
			r.failf("the diagnostics of subscription %d have another type", s.id)
		}
		r.compareSub("its node", m, s, y)
	}
}

func (r *truthRun) connect(t *rapid.T) {
	name := pick(t, "name", "s", "a", "session \u00e4", "0:x", strings.Repeat("n", 300))
	timeout := pick(t, "timeout", 1.0, 60000, 100000, 3600000, 1e12)
	cl, err := wire.Connect(w.Addr, w.URL, wire.DefaultLimits, wire.NoSec)
	if err != nil {
		kit.Infra("connect: %v", err)
	}
	cl.Start()
	s, err := cl.CreateSession(wire.CreateOpts{Name: name, Timeout: timeout})
	if err == nil {
		err = s.Activate(s.Anonymous())
	}
	if err != nil {
		r.failf("a session is refused: %v", err)
	}
	m := &truthSession{s: s, name: name, url: w.URL, total: map[string]uint32{}, errs: map[string]uint32{}}
	for _, n := range []string{"ReadCount", "WriteCount", "CallCount", "CreateMonitoredItemsCount", "ModifyMonitoredItemsCount", "SetMonitoringModeCount", "SetTriggeringCount", "DeleteMonitoredItemsCount", "CreateSubscriptionCount", "ModifySubscriptionCount",
		"SetPublishingModeCount", "RepublishCount", "DeleteSubscriptionsCount", "BrowseCount", "BrowseNextCount", "TranslateBrowsePathsToNodeIDsCount", "RegisterNodesCount", "UnregisterNodesCount"} {
		m.total[n] = 0
	}
	r.sessions = append(r.sessions, m)
	r.made++
	r.hist = append(r.hist, fmt.Sprintf("session %d %.20q timeout %v", len(r.sessions), name, timeout))
}

func (r *truthRun) step(t *rapid.T) {
	op := rapid.IntRange(0, 14).Draw(t, "op")
	if len(r.sessions) == 0 || op == 0 && len(r.sessions) < 4 {
		r.connect(t)
		return
	}
	i := rapid.IntRange(0, len(r.sessions)-1).Draw(t, "session")
	m := r.sessions[i]
	note := func(f string, a ...any) {
		r.hist = append(r.hist, fmt.Sprintf("%d: ", i+1)+fmt.Sprintf(f, a...))
	}
	if len(m.subs) == 0 && in(op, 4, 5, 6, 7, 8, 9, 10) {
		op = 3
	}
	var s *truthSub
	if len(m.subs) > 0 {
		s = m.subs[rapid.IntRange(0, len(m.subs)-1).Draw(t, "sub")]
	}
	interval := pick(t, "interval", 0.0, 500, 1000.5, 5000)
	keep := pick(t, "keep", uint32(0), 1, 5, 30)
	maxN := pick(t, "maxn", uint32(0), 1, 100, math.MaxUint32)
	prio := byte(rapid.IntRange(0, 255).Draw(t, "prio"))
	on := rapid.Bool().Draw(t, "on")
	switch op {
	case 1: // close
		keepSubs := on
		note("close session, delete subscriptions %t", !keepSubs)
		_, code := do[ua.CloseSessionResponse](r.c, m.s, &ua.CloseSessionRequest{DeleteSubscriptions: !keepSubs})
		if code != 0 {
			r.failf("the session does not close: %s", hx(code))
		}
		m.s.Drop()
		if keepSubs {
			r.orphans = append(r.orphans, m.subs...)
		}
		r.sessions = append(append([]*truthSession{}, r.sessions[:i]...), r.sessions[i+1:]...)
		objs, err := browseRefs(w.ses, ua.ObjectIDServerServerDiagnosticsSessionsDiagnosticsSummary)
		if err != nil {
			r.failf("the sessions' diagnostics: %v", err)
		}
		for _, o := range objs {
			if ua.ToNodeID(o.NodeID, nil) == m.s.SessionID {
				r.failf("the closed session still has diagnostics")
			}
		}
	case 0, 3:
		if len(m.subs) >= 4 {
			return
		}
		note("subscribe %v %d %d %d %t", interval, keep, maxN, prio, on)
		x, code := truthDo[ua.CreateSubscriptionResponse](r, m, "CreateSubscriptionCount", &ua.CreateSubscriptionRequest{RequestedPublishingInterval: interval, RequestedLifetimeCount: 100000, RequestedMaxKeepAliveCount: keep, MaxNotificationsPerPublish: maxN, Priority: prio, PublishingEnabled: on})
		if code != 0 {
			r.failf("a subscription is refused: %s", hx(code))
		}
		m.subs = append(m.subs, &truthSub{id: x.SubscriptionID, interval: x.RevisedPublishingInterval, life: x.RevisedLifetimeCount, keep: x.RevisedMaxKeepAliveCount, maxN: maxN, prio: prio, enabled: on, items: map[uint32]bool{}})
		r.madeSubs++
	case 4:
		note("modify %d: %v %d %d %d", s.id, interval, keep, maxN, prio)
		x, code := truthDo[ua.ModifySubscriptionResponse](r, m, "ModifySubscriptionCount", &ua.ModifySubscriptionRequest{SubscriptionID: s.id, RequestedPublishingInterval: interval, RequestedLifetimeCount: 100000, RequestedMaxKeepAliveCount: keep, MaxNotificationsPerPublish: maxN, Priority: prio})
		if code != 0 {
			r.failf("the modification is refused: %s", hx(code))
		}
		s.interval, s.life, s.keep, s.maxN, s.prio = x.RevisedPublishingInterval, x.RevisedLifetimeCount, x.RevisedMaxKeepAliveCount, maxN, prio
		s.modified++
	case 5:
		note("publishing of %d %t", s.id, on)
		ids := []uint32{s.id, 0xFFFFFFF0}[:1+rapid.IntRange(0, 1).Draw(t, "more")]
		if _, code := truthDo[ua.SetPublishingModeResponse](r, m, "SetPublishingModeCount", &ua.SetPublishingModeRequest{PublishingEnabled: on, SubscriptionIDs: ids}); code == 0 {
			s.enabled = on
		}
	case 6, 7:
		req := &ua.CreateMonitoredItemsRequest{SubscriptionID: s.id, TimestampsToReturn: ua.TimestampsToReturnBoth}
		var off []bool
		for k := rapid.IntRange(1, 4).Draw(t, "items"); k > 0; k-- {
			d := rapid.IntRange(0, 2).Draw(t, "mode")
			off = append(off, d == 0)
			q := ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: diagVar.NodeID(), AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringMode(d), RequestedParameters: ua.MonitoringParameters{ClientHandle: 1, SamplingInterval: 1000}}
			if rapid.IntRange(0, 4).Draw(t, "unknown") == 0 {
				q.ItemToMonitor.NodeID = ua.NewNodeIDString(2, "nowhere")
			}
			req.ItemsToCreate = append(req.ItemsToCreate, q)
		}
		x, code := truthDo[ua.CreateMonitoredItemsResponse](r, m, "CreateMonitoredItemsCount", req)
		if code != 0 {
			r.failf("items are refused: %s", hx(code))
		}
		made := 0
		for k, y := range x.Results {
			if y.StatusCode == 0 {
				s.items[y.MonitoredItemID] = off[k]
				s.order = append(s.order, y.MonitoredItemID)
				made++
			}
		}
		note("%d of %d items on %d (disabled %v)", made, len(off), s.id, off)
	case 8:
		ids := s.some(t)
		ids = append(ids, 0xFFFFFFF0)
		note("delete items %v of %d", ids, s.id)
		if _, code := truthDo[ua.DeleteMonitoredItemsResponse](r, m, "DeleteMonitoredItemsCount", &ua.DeleteMonitoredItemsRequest{SubscriptionID: s.id, MonitoredItemIDs: ids}); code != 0 {
			r.failf("the deletion is refused: %s", hx(code))
		}
		for _, id := range ids {
			s.drop(id)
		}
	case 9:
		d := ua.MonitoringMode(rapid.IntRange(0, 2).Draw(t, "mode"))
		ids := append(s.some(t), 0xFFFFFFF0)
		note("mode %d of items %v of %d", d, ids, s.id)
		if _, code := truthDo[ua.SetMonitoringModeResponse](r, m, "SetMonitoringModeCount", &ua.SetMonitoringModeRequest{SubscriptionID: s.id, MonitoringMode: d, MonitoredItemIDs: ids}); code != 0 {
			r.failf("the mode is refused: %s", hx(code))
		}
		for _, id := range ids {
			if _, ok := s.items[id]; ok {
				s.items[id] = d == 0
			}
		}
	case 10:
		note("delete subscription %d", s.id)
		if _, code := truthDo[ua.DeleteSubscriptionsResponse](r, m, "DeleteSubscriptionsCount", &ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{s.id, 0xFFFFFFF0}}); code != 0 {
			r.failf("the deletion is refused: %s", hx(code))
		}
		for k, q := range m.subs {
			if q == s {
				m.subs = append(append([]*truthSub{}, m.subs[:k]...), m.subs[k+1:]...)
				break
			}
		}
	case 11, 12: // other services, good or with nothing to do
		n := rapid.IntRange(0, 1).Draw(t, "list")
		k := rapid.IntRange(0, 8).Draw(t, "service")
		note("service %d with %d entries", k, n)
		switch k {
		case 0:
			truthDo[ua.ReadResponse](r, m, "ReadCount", &ua.ReadRequest{NodesToRead: make([]ua.ReadValueID, n)})
		case 1:
			truthDo[ua.WriteResponse](r, m, "WriteCount", &ua.WriteRequest{NodesToWrite: make([]ua.WriteValue, n)})
		case 2:
			truthDo[ua.CallResponse](r, m, "CallCount", &ua.CallRequest{MethodsToCall: make([]ua.CallMethodRequest, n)})
		case 3:
			truthDo[ua.BrowseResponse](r, m, "BrowseCount", &ua.BrowseRequest{NodesToBrowse: make([]ua.BrowseDescription, n)})
		case 4:
			truthDo[ua.BrowseNextResponse](r, m, "BrowseNextCount", &ua.BrowseNextRequest{ContinuationPoints: make([]ua.ByteString, n)})
		case 5:
			truthDo[ua.TranslateBrowsePathsToNodeIDsResponse](r, m, "TranslateBrowsePathsToNodeIDsCount", &ua.TranslateBrowsePathsToNodeIDsRequest{BrowsePaths: make([]ua.BrowsePath, n)})
		case 6:
			truthDo[ua.RegisterNodesResponse](r, m, "RegisterNodesCount", &ua.RegisterNodesRequest{NodesToRegister: make([]ua.NodeID, n)})
		case 7:
			truthDo[ua.UnregisterNodesResponse](r, m, "UnregisterNodesCount", &ua.UnregisterNodesRequest{NodesToUnregister: make([]ua.NodeID, n)})
		case 8:
			truthDo[ua.RepublishResponse](r, m, "RepublishCount", &ua.RepublishRequest{SubscriptionID: 0xFFFFFFF0, RetransmitSequenceNumber: 1})
		}
	case 13: // subscriptions of nobody
		note("requests for a subscription that does not exist")
		truthDo[ua.ModifySubscriptionResponse](r, m, "ModifySubscriptionCount", &ua.ModifySubscriptionRequest{SubscriptionID: 0xFFFFFFF0})
		truthDo[ua.ModifyMonitoredItemsResponse](r, m, "ModifyMonitoredItemsCount", &ua.ModifyMonitoredItemsRequest{SubscriptionID: 0xFFFFFFF0, ItemsToModify: make([]ua.MonitoredItemModifyRequest, 1)})
		truthDo[ua.DeleteMonitoredItemsResponse](r, m, "DeleteMonitoredItemsCount", &ua.DeleteMonitoredItemsRequest{SubscriptionID: 0xFFFFFFF0, MonitoredItemIDs: []uint32{1}})
		truthDo[ua.SetTriggeringResponse](r, m, "SetTriggeringCount", &ua.SetTriggeringRequest{SubscriptionID: 0xFFFFFFF0, LinksToAdd: []uint32{1}})
	case 14: // requests that a service refuses as a whole
		k := rapid.IntRange(0, 9).Draw(t, "service")
		n := rapid.IntRange(0, 1).Draw(t, "list")
		ts := pick(t, "timestamps", ua.TimestampsToReturnBoth, ua.TimestampsToReturnNeither, 7)
		id := uint32(0xFFFFFFF0)
		if s != nil && on {
			id = s.id
		}
		note("service %d with %d entries, timestamps %d, subscription %d", k, n, ts, id)
		switch k {
		case 0:
			truthDo[ua.ReadResponse](r, m, "ReadCount", &ua.ReadRequest{NodesToRead: make([]ua.ReadValueID, n), TimestampsToReturn: ts, MaxAge: float64(rapid.IntRange(-1, 1).Draw(t, "age"))})
		case 1, 2:
			truthDo[ua.ModifyMonitoredItemsResponse](r, m, "ModifyMonitoredItemsCount", &ua.ModifyMonitoredItemsRequest{SubscriptionID: id, TimestampsToReturn: ts, ItemsToModify: make([]ua.MonitoredItemModifyRequest, n)})
		case 3, 4: // of a node that does not exist
			truthDo[ua.CreateMonitoredItemsResponse](r, m, "CreateMonitoredItemsCount", &ua.CreateMonitoredItemsRequest{SubscriptionID: id, TimestampsToReturn: ts, ItemsToCreate: make([]ua.MonitoredItemCreateRequest, n)})
		case 5:
			truthDo[ua.SetMonitoringModeResponse](r, m, "SetMonitoringModeCount", &ua.SetMonitoringModeRequest{SubscriptionID: id, MonitoringMode: 2, MonitoredItemIDs: make([]uint32, n)})
		case 6:
			truthDo[ua.SetTriggeringResponse](r, m, "SetTriggeringCount", &ua.SetTriggeringRequest{SubscriptionID: id, LinksToAdd: make([]uint32, n)})
		case 7:
			truthDo[ua.DeleteMonitoredItemsResponse](r, m, "DeleteMonitoredItemsCount", &ua.DeleteMonitoredItemsRequest{SubscriptionID: id, MonitoredItemIDs: make([]uint32, n)})
		case 8:
			truthDo[ua.SetPublishingModeResponse](r, m, "SetPublishingModeCount", &ua.SetPublishingModeRequest{PublishingEnabled: true, SubscriptionIDs: make([]uint32, n)})
		case 9:
			truthDo[ua.DeleteSubscriptionsResponse](r, m, "DeleteSubscriptionsCount", &ua.DeleteSubscriptionsRequest{SubscriptionIDs: make([]uint32, n)})
		}
	}
}

func (s *truthSub) some(t *rapid.T) []uint32 {
	var out []uint32
	for _, id := range s.order {
		if rapid.Bool().Draw(t, "take") {
			out = append(out, id)
		}
	}
	return out
}

func (s *truthSub) drop(id uint32) {
	delete(s.items, id)
	for k, x := range s.order {
		if x == id {
			s.order = append(append([]uint32{}, s.order[:k]...), s.order[k+1:]...)
			return
		}
	}
}

func diagTruth(c *kit.C) {
	r := &truthRun{c: c, base: summaryOf(c)}
	defer func() {
		for _, m := range r.sessions {
			wire.Do[ua.CloseSessionResponse](m.s, &ua.CloseSessionRequest{DeleteSubscriptions: true})
			m.s.Drop()
		}
		for _, s := range r.orphans {
			if x, ok := w.SubscriptionManager().Get(s.id); ok {
				w.SubscriptionManager().Delete(x)
				x.Delete()
			}
		}
	}()
	for k := rapid.IntRange(4, 25).Draw(c.T, "steps"); k > 0; k-- {
		r.step(c.T)
		r.check()
		if rapid.IntRange(0, 3).Draw(c.T, "look") == 0 && len(r.sessions) > 0 {
			r.detail(r.sessions[rapid.IntRange(0, len(r.sessions)-1).Draw(c.T, "at")], rapid.IntRange(0, 3).Draw(c.T, "which"))
		}
	}
	for _, m := range r.sessions {
		r.detail(m, 0)
	}
	for _, h := range r.hist {
		f := strings.Fields(strings.TrimLeft(h, "0123456789: "))
		c.Label(f[0])
	}
	c.NT(strings.Join(r.hist, ";"))
	c.Note("%s", strings.Join(r.hist, "; "))
}

func init() {
	kit.Register(&kit.Check{
		ID:          "C33",
		Rule:        "histories of up to 25 operations (sessions with various names and timeouts created and closed with and without their subscriptions, subscriptions created, modified, switched and deleted, items created, switched and deleted, requests of other services, refused requests) on up to 4 sessions; after each operation another session reads the server's diagnostics and compares them with a model; non-trivial: distinct histories",
		Assumptions: []string{"HistoryRead and the counters the server does not implement are not judged", "the counters of live delivery (publish, keep-alive, lifetime, sequence numbers) are only compared between structure and component"},
		Subs:        []kit.Sub{{Name: "history", Quick: 2000, Thorough: 60000, Shards: 4, Setup: diagSetup, Fn: diagTruth}},
	})
}
