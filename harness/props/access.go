package props

import (
	"context"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/pki"
	"verif/harness/ref"
	"verif/harness/wire"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// recorder is a historian that records what it is asked.
type recorder struct {
	mu     sync.Mutex
	asked  []ua.NodeID
	nodes  []ua.HistoryReadValueID
	reply  func(i int, n ua.HistoryReadValueID) ua.HistoryReadResult
	status ua.StatusCode
	calls  []string
	relse  bool
	ts     ua.TimestampsToReturn
	det    any
	wrote  []ua.DataValue
	wroteI []ua.NodeID
}

func (r *recorder) read(kind string, ns []ua.HistoryReadValueID, det any, ts ua.TimestampsToReturn, rel bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.calls = append(r.calls, kind)
	r.det, r.ts, r.relse = det, ts, rel
	res := []ua.HistoryReadResult{}
	for i, n := range ns {
		r.asked, r.nodes = append(r.asked, n.NodeID), append(r.nodes, n)
		if r.reply != nil {
			res = append(res, r.reply(i, n))
		} else {
			res = append(res, ua.HistoryReadResult{})
		}
	}
	return res, r.status
}

func (r *recorder) reset() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.asked, r.nodes, r.calls, r.reply, r.status, r.wrote, r.wroteI = nil, nil, nil, nil, 0, nil, nil
}

func (r *recorder) ReadEvent(_ context.Context, ns []ua.HistoryReadValueID, d ua.ReadEventDetails, ts ua.TimestampsToReturn, rel bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	return r.read("event", ns, d, ts, rel)
}
func (r *recorder) ReadRawModified(_ context.Context, ns []ua.HistoryReadValueID, d ua.ReadRawModifiedDetails, ts ua.TimestampsToReturn, rel bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	return r.read("raw", ns, d, ts, rel)
}
func (r *recorder) ReadProcessed(_ context.Context, ns []ua.HistoryReadValueID, d ua.ReadProcessedDetails, ts ua.TimestampsToReturn, rel bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	return r.read("processed", ns, d, ts, rel)
}
func (r *recorder) ReadAtTime(_ context.Context, ns []ua.HistoryReadValueID, d ua.ReadAtTimeDetails, ts ua.TimestampsToReturn, rel bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	return r.read("attime", ns, d, ts, rel)
}
func (r *recorder) WriteEvent(context.Context, ua.NodeID, []ua.Variant) error { return nil }
func (r *recorder) WriteValue(_ context.Context, id ua.NodeID, v ua.DataValue) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.wrote, r.wroteI = append(r.wrote, v), append(r.wroteI, id)
	return nil
}

var hist = &recorder{}

// sub1 is a subscription of a session that never publishes during a case.
var subOf = map[*wire.Session]uint32{}

func quietSub(c *kit.C, s *wire.Session) uint32 {
	if id, ok := subOf[s]; ok {
		return id
	}
	r, code := do[ua.CreateSubscriptionResponse](c, s, &ua.CreateSubscriptionRequest{RequestedPublishingInterval: 60000, RequestedLifetimeCount: 60000, RequestedMaxKeepAliveCount: 20000})
	if code != 0 {
		kit.Infra("CreateSubscription: %s", hx(code))
	}
	subOf[s] = r.SubscriptionID
	return r.SubscriptionID
}

type access struct {
	id    ua.NodeID
	perms []ua.RolePermissionType
	node  server.Node
	acc   byte
	exec  bool
	notif byte
}

func drawAccess(t *rapid.T, l string) []ua.RolePermissionType {
	switch rapid.IntRange(0, 7).Draw(t, l+"k") {
	case 0:
		return nil
	case 1:
		return []ua.RolePermissionType{}
	}
	r := []ua.RolePermissionType{}
	for i, n := 0, rapid.IntRange(1, 5).Draw(t, l+"n"); i < n; i++ {
		p := ua.PermissionType(0)
		for b := 0; b < 17; b++ {
			if rapid.IntRange(0, 2).Draw(t, l+"b") == 0 {
				p |= 1 << b
			}
		}
		if rapid.IntRange(0, 2).Draw(t, l+"br") > 0 {
			p |= ua.PermissionTypeBrowse
		}
		r = append(r, ua.RolePermissionType{RoleID: role(rapid.IntRange(0, 3).Draw(t, l+"role")), Permissions: p})
	}
	return r
}

func accessGate(c *kit.C) {
	t := c.T
	roles := rapid.IntRange(0, 15).Draw(t, "roles")
	s := w.user(fmt.Sprintf("m%d", roles))
	if roles == 1 && rapid.Bool().Draw(t, "anon") {
		s = w.ses
	}
	sub := quietSub(c, s)
	v := &access{id: w.id(t, "v"), perms: drawAccess(t, "v"), acc: byte(rapid.IntRange(0, 127).Draw(t, "acc"))}
	m := &access{id: w.id(t, "m"), perms: drawAccess(t, "m"), exec: rapid.IntRange(0, 4).Draw(t, "exec") > 0}
	o := &access{id: w.id(t, "o"), perms: drawAccess(t, "o"), notif: byte(pick(t, "notif", 0, 1, 1, 5, 4))}
	if rapid.Bool().Draw(t, "readable") {
		v.acc |= 7
	}
	refs := objRefs(ua.ObjectIDObjectsFolder)
	own := func(rt ua.NodeID, id ua.NodeID) []ua.Reference {
		return []ua.Reference{{ReferenceTypeID: rt, IsInverse: true, TargetID: ua.NewExpandedNodeID(id)}}
	}
	oo := server.NewObjectNode(w.Server, o.id, qn(2, "o"), lt("o"), lt(""), o.perms, refs, o.notif)
	vv := server.NewVariableNode(w.Server, v.id, qn(2, "v"), lt("v"), lt(""), v.perms, own(num(0, 47), o.id), ua.NewDataValue(int32(7), 0, time.Now(), 0, time.Now(), 0), ua.DataTypeIDInt32, -1, nil, v.acc, 0, false, nil)
	mm := server.NewMethodNode(w.Server, m.id, qn(2, "m"), lt("m"), lt(""), m.perms, own(num(0, 47), o.id), m.exec)
	calls := 0
	mm.SetCallMethodHandler(func(*server.Session, ua.CallMethodRequest) ua.CallMethodResult { calls++; return ua.CallMethodResult{} })
	defer w.add(oo, vv, mm)()
	hist.reset()
	can := func(a *access, p ua.PermissionType) bool { return may(a.perms, roles, p) }
	desc := fmt.Sprintf("roles %04b; variable access %d permissions %s; method executable %v permissions %s; object notifier %d permissions %s", roles, v.acc, permText(v.perms), m.exec, permText(m.perms), o.notif, permText(o.perms))
	c.NT(desc)
	const bitR, bitW, bitH = 1, 2, 4

	// read
	{
		at := []ua.ReadValueID{{NodeID: v.id, AttributeID: 13}, {NodeID: v.id, AttributeID: 18}, {NodeID: v.id, AttributeID: 25}, {NodeID: v.id, AttributeID: 24}, {NodeID: m.id, AttributeID: 22}, {NodeID: o.id, AttributeID: 3}}
		r, code := do[ua.ReadResponse](c, s, &ua.ReadRequest{TimestampsToReturn: ua.TimestampsToReturnBoth, NodesToRead: at})
		if code != 0 || len(r.Results) != len(at) {
			c.Failf("%s: read answered with %s", desc, hx(code))
		}
		judge := func(i int, what string, want ua.StatusCode, val any) {
			got := r.Results[i]
			if got.StatusCode != want {
				c.Failf("%s: reading %s: %s, want %s", desc, what, hx(got.StatusCode), hx(want))
			}
			if want != 0 && got.Value != nil {
				c.Failf("%s: reading %s is refused but reveals %v", desc, what, got.Value)
			}
			if want == 0 && val != nil {
				if d := ref.Diff(got.Value, val); d != "" {
					c.Failf("%s: reading %s: %v, want %v: %s", desc, what, got.Value, val, d)
				}
			}
		}
		st := ua.Good
		switch {
		case !can(v, ua.PermissionTypeBrowse):
			st = ua.BadNodeIDUnknown
		case v.acc&bitR == 0:
			st = ua.BadNotReadable
		case !can(v, ua.PermissionTypeRead):
			st = ua.BadUserAccessDenied
		}
		judge(0, "the value", st, int32(7))
		ual := v.acc
		if !can(v, ua.PermissionTypeRead) {
			ual &^= bitR
		}
		if !can(v, ua.PermissionTypeWrite) {
			ual &^= bitW
		}
		if !can(v, ua.PermissionTypeReadHistory) {
			ual &^= bitH
		}
		if can(v, ua.PermissionTypeBrowse) {
			judge(1, "the user access level", 0, ual)
			// the entries of the roles of the user
			want := []string{}
			ps := v.perms
			if ps == nil {
				ps = []ua.RolePermissionType{{RoleID: role(0), Permissions: allPerms}}
			}
			for _, p := range ps {
				for i := 0; i < 4; i++ {
					if roles&(1<<i) != 0 && p.RoleID == role(i) {
						want = append(want, fmt.Sprint(p))
					}
				}
			}
			got := []string{}
			if xs, ok := r.Results[2].Value.([]ua.ExtensionObject); ok {
				for _, x := range xs {
					got = append(got, fmt.Sprint(x))
				}
			}
			if r.Results[2].StatusCode != 0 || !same(uniq(got), uniq(want)) {
				c.Failf("%s: user role permissions %v (%s), want %v", desc, got, hx(r.Results[2].StatusCode), want)
			}
			if (r.Results[3].StatusCode == 0) != can(v, ua.PermissionTypeReadRolePermissions) {
				c.Failf("%s: reading the role permissions: %s", desc, hx(r.Results[3].StatusCode))
			}
		} else {
			for i := 1; i < 4; i++ {
				judge(i, "an attribute of a hidden variable", ua.BadNodeIDUnknown, nil)
			}
		}
		if can(m, ua.PermissionTypeBrowse) {
			judge(4, "user executable", 0, m.exec && can(m, ua.PermissionTypeCall))
		} else {
			judge(4, "user executable", ua.BadNodeIDUnknown, nil)
		}
		if can(o, ua.PermissionTypeBrowse) {
			judge(5, "the browse name", 0, qn(2, "o"))
		} else {
			judge(5, "the browse name", ua.BadNodeIDUnknown, nil)
		}
	}
	// write
	{
		r, code := do[ua.WriteResponse](c, s, &ua.WriteRequest{NodesToWrite: []ua.WriteValue{{NodeID: v.id, AttributeID: 13, Value: ua.DataValue{Value: int32(8)}}, {NodeID: v.id, AttributeID: 20, Value: ua.DataValue{Value: true}}}})
		if code != 0 || len(r.Results) != 2 {
			c.Failf("%s: write answered with %s", desc, hx(code))
		}
		st, st2 := ua.Good, ua.Good
		switch {
		case !can(v, ua.PermissionTypeBrowse):
			st = ua.BadNodeIDUnknown
		case v.acc&bitW == 0:
			st = ua.BadNotWritable
		case !can(v, ua.PermissionTypeWrite):
			st = ua.BadUserAccessDenied
		}
		switch {
		case !can(v, ua.PermissionTypeBrowse):
			st2 = ua.BadNodeIDUnknown
		case !can(v, ua.PermissionTypeWriteHistorizing):
			st2 = ua.BadUserAccessDenied
		}
		if r.Results[0] != st || (vv.Value().Value == int32(8)) != (st == 0) {
			c.Failf("%s: writing the value: %s, want %s; the value is now %v", desc, hx(r.Results[0]), hx(st), vv.Value().Value)
		}
		if r.Results[1] != st2 || vv.Historizing() != (st2 == 0) {
			c.Failf("%s: writing historizing: %s, want %s; it is now %v", desc, hx(r.Results[1]), hx(st2), vv.Historizing())
		}
	}
	// browse and translate
	{
		r, code := do[ua.BrowseResponse](c, s, &ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: o.id, BrowseDirection: 0, ResultMask: 63}, {NodeID: v.id, BrowseDirection: 1, ResultMask: 63}}})
		if code != 0 || len(r.Results) != 2 {
			c.Failf("%s: browse answered with %s", desc, hx(code))
		}
		seen := func(i int, id ua.NodeID) bool {
			for _, x := range r.Results[i].References {
				if x.NodeID.NodeID == id {
					return true
				}
			}
			return false
		}
		for i, a := range []*access{o, v} {
			st := ua.Good
			if !can(a, ua.PermissionTypeBrowse) {
				st = ua.BadNodeIDUnknown
			}
			if r.Results[i].StatusCode != st {
				c.Failf("%s: browsing node %d: %s, want %s", desc, i, hx(r.Results[i].StatusCode), hx(st))
			}
		}
		sv, sm, so := seen(0, v.id), seen(0, m.id), seen(1, o.id)
		bo, bv := can(o, ua.PermissionTypeBrowse), can(v, ua.PermissionTypeBrowse)
		if sv != (bo && bv) || sm != (bo && can(m, ua.PermissionTypeBrowse)) || so != (bo && bv) {
			c.Failf("%s: browse shows variable %v, method %v, object %v", desc, sv, sm, so)
		}
		tr, code := do[ua.TranslateBrowsePathsToNodeIDsResponse](c, s, &ua.TranslateBrowsePathsToNodeIDsRequest{BrowsePaths: []ua.BrowsePath{{StartingNode: o.id, RelativePath: ua.RelativePath{Elements: []ua.RelativePathElement{{ReferenceTypeID: num(0, 47), TargetName: qn(2, "v")}}}}}})
		if code != 0 || len(tr.Results) != 1 {
			c.Failf("%s: translate answered with %s", desc, hx(code))
		}
		if (len(tr.Results[0].Targets) > 0) != (bo && bv) {
			c.Failf("%s: translate shows the variable: %v (%s)", desc, len(tr.Results[0].Targets) > 0, hx(tr.Results[0].StatusCode))
		}
	}
	// call
	{
		r, code := do[ua.CallResponse](c, s, &ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{{ObjectID: o.id, MethodID: m.id}}})
		if code != 0 || len(r.Results) != 1 {
			c.Failf("%s: call answered with %s", desc, hx(code))
		}
		st := ua.Good
		switch {
		case !can(o, ua.PermissionTypeBrowse):
			st = ua.BadNodeIDUnknown
		case !can(m, ua.PermissionTypeBrowse):
			st = ua.BadMethodInvalid
		case !m.exec || !can(m, ua.PermissionTypeCall):
			st = ua.BadUserAccessDenied
		}
		if r.Results[0].StatusCode != st || (calls == 1) != (st == 0) || calls > 1 {
			c.Failf("%s: call: %s, want %s; the handler ran %d times", desc, hx(r.Results[0].StatusCode), hx(st), calls)
		}
	}
	// monitor
	{
		ef := ua.EventFilter{SelectClauses: []ua.SimpleAttributeOperand{{TypeDefinitionID: ua.ObjectTypeIDBaseEventType, BrowsePath: []ua.QualifiedName{qn(0, "EventId")}, AttributeID: 13}}}
		r, code := do[ua.CreateMonitoredItemsResponse](c, s, &ua.CreateMonitoredItemsRequest{SubscriptionID: sub, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToCreate: []ua.MonitoredItemCreateRequest{
			{ItemToMonitor: ua.ReadValueID{NodeID: v.id, AttributeID: 13}, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: ua.MonitoringParameters{SamplingInterval: 60000, QueueSize: 1}},
			{ItemToMonitor: ua.ReadValueID{NodeID: o.id, AttributeID: 12}, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: ua.MonitoringParameters{Filter: ef, QueueSize: 1}},
			{ItemToMonitor: ua.ReadValueID{NodeID: m.id, AttributeID: 4}, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: ua.MonitoringParameters{SamplingInterval: 60000, QueueSize: 1}},
		}})
		if code != 0 || len(r.Results) != 3 {
			c.Failf("%s: create monitored items answered with %s", desc, hx(code))
		}
		st := []ua.StatusCode{0, 0, 0}
		switch {
		case !can(v, ua.PermissionTypeBrowse):
			st[0] = ua.BadNodeIDUnknown
		case v.acc&bitR == 0:
			st[0] = ua.BadNotReadable
		case !can(v, ua.PermissionTypeRead):
			st[0] = ua.BadUserAccessDenied
		}
		switch {
		case !can(o, ua.PermissionTypeBrowse):
			st[1] = ua.BadNodeIDUnknown
		case o.notif&1 == 0:
			st[1] = ua.BadNotReadable
		case !can(o, ua.PermissionTypeReceiveEvents):
			st[1] = ua.BadUserAccessDenied
		}
		if !can(m, ua.PermissionTypeBrowse) {
			st[2] = ua.BadNodeIDUnknown
		}
		del := []uint32{}
		for i, x := range r.Results {
			if x.StatusCode != st[i] {
				c.Failf("%s: monitoring item %d: %s, want %s", desc, i, hx(x.StatusCode), hx(st[i]))
			}
			if x.StatusCode == 0 {
				del = append(del, x.MonitoredItemID)
			}
		}
		if len(del) > 0 {
			do[ua.DeleteMonitoredItemsResponse](c, s, &ua.DeleteMonitoredItemsRequest{SubscriptionID: sub, MonitoredItemIDs: del})
		}
	}
	// history
	{
		r, code := do[ua.HistoryReadResponse](c, s, &ua.HistoryReadRequest{HistoryReadDetails: ua.ReadRawModifiedDetails{}, TimestampsToReturn: ua.TimestampsToReturnBoth, NodesToRead: []ua.HistoryReadValueID{{NodeID: v.id}, {NodeID: o.id}}})
		if code != 0 || len(r.Results) != 2 {
			c.Failf("%s: history read answered with %s and %d results", desc, hx(code), len(r.Results))
		}
		for i, a := range []*access{v, o} {
			ok := can(a, ua.PermissionTypeBrowse) && can(a, ua.PermissionTypeReadHistory)
			if in(a.id, hist.asked...) != ok || (r.Results[i].StatusCode == 0) != ok {
				c.Failf("%s: history of node %d: %s, reached the historian: %v, want %v: %s", desc, i, hx(r.Results[i].StatusCode), in(a.id, hist.asked...), ok, fmt.Sprintf("%+v", r))
			}
		}
	}
}

func permText(ps []ua.RolePermissionType) string {
	if ps == nil {
		return "default"
	}
	r := []string{}
	for _, p := range ps {
		r = append(r, fmt.Sprintf("%d:%05x", p.RoleID.(ua.NodeIDNumeric).ID-900, uint32(p.Permissions)))
	}
	return "[" + strings.Join(r, " ") + "]"
}

// ---- role rules

var ruleApps = []string{"urn:verif:client", "urn:other", ""}

type ruleUser struct {
	name string
	id   any
	crit map[ua.IdentityCriteriaType]string
}

func drawRules(t *rapid.T, users []ruleUser, apps, eps []string) []server.IdentityMappingRule {
	rs := []server.IdentityMappingRule{}
	for i, n := 0, rapid.IntRange(0, 6).Draw(t, "rules"); i < n; i++ {
		l := fmt.Sprintf("r%d", i)
		r := server.IdentityMappingRule{NodeID: role(rapid.IntRange(0, 4).Draw(t, l+"role")), ApplicationsExclude: rapid.IntRange(0, 3).Draw(t, l+"ae") > 0, EndpointsExclude: rapid.IntRange(0, 3).Draw(t, l+"ee") > 0}
		for j, m := 0, pick(t, l+"na", 0, 0, 1, 2); j < m; j++ {
			r.Applications = append(r.Applications, rapid.SampledFrom(apps).Draw(t, l+"a"))
		}
		for j, m := 0, pick(t, l+"ne", 0, 0, 1, 2); j < m; j++ {
			r.Endpoints = append(r.Endpoints, struct {
				EndpointUrl         string
				SecurityMode        string
				SecurityPolicyURI   string
				TransportProfileUri string
			}{EndpointUrl: rapid.SampledFrom(eps).Draw(t, l+"e")})
		}
		for j, m := 0, rapid.IntRange(0, 3).Draw(t, l+"ni"); j < m; j++ {
			x := ua.IdentityMappingRuleType{CriteriaType: ua.IdentityCriteriaType(rapid.IntRange(1, 6).Draw(t, l+"ct"))}
			x.Criteria = pick(t, l+"cv", "alice", "bob", "", users[len(users)-1].crit[ua.IdentityCriteriaTypeThumbprint], strings.Repeat("00", 20))
			r.Identities = append(r.Identities, x)
		}
		rs = append(rs, r)
	}
	return rs
}

// rolesFor is the reference: the roles of the rules that apply.
func rolesFor(rs []server.IdentityMappingRule, u ruleUser, app, ep string) map[ua.NodeID]bool {
	m := map[ua.NodeID]bool{}
	for _, r := range rs {
		listed := false
		for _, a := range r.Applications {
			listed = listed || a == app
		}
		if listed == r.ApplicationsExclude {
			continue
		}
		listed = false
		for _, e := range r.Endpoints {
			listed = listed || e.EndpointUrl == ep
		}
		if listed == r.EndpointsExclude {
			continue
		}
		for _, i := range r.Identities {
			if want, ok := u.crit[i.CriteriaType]; ok && (i.CriteriaType >= 5 || want == i.Criteria) {
				m[r.NodeID] = true
			}
		}
	}
	return m
}

func roleText(m map[ua.NodeID]bool) string {
	r := []string{}
	for k := range m {
		r = append(r, fmt.Sprint(k))
	}
	sort.Strings(r)
	return fmt.Sprint(r)
}

var ruleCert = pki.App("urn:verif:user", "r2048_2")

func thumb(der []byte) string { h := sha1.Sum(der); return hex.EncodeToString(h[:]) }

func ruleUsers() []ruleUser {
	const au = ua.IdentityCriteriaTypeAuthenticatedUser
	return []ruleUser{
		{"anonymous", ua.AnonymousIdentity{}, map[ua.IdentityCriteriaType]string{ua.IdentityCriteriaTypeAnonymous: ""}},
		{"alice", ua.UserNameIdentity{UserName: "alice", Password: "pw"}, map[ua.IdentityCriteriaType]string{au: "", ua.IdentityCriteriaTypeUserName: "alice"}},
		{"bob", ua.UserNameIdentity{UserName: "bob", Password: "pw"}, map[ua.IdentityCriteriaType]string{au: "", ua.IdentityCriteriaTypeUserName: "bob"}},
		{"issued", ua.IssuedIdentity{TokenData: "x"}, map[ua.IdentityCriteriaType]string{au: ""}},
		{"certificate", ua.X509Identity{Certificate: ua.ByteString(ruleCert.DER)}, map[ua.IdentityCriteriaType]string{au: "", ua.IdentityCriteriaTypeThumbprint: thumb(ruleCert.DER)}},
	}
}

func roleRules(c *kit.C) {
	t := c.T
	us := ruleUsers()
	eps := []string{"opc.tcp://a", "opc.tcp://b", ""}
	rs := drawRules(t, us, ruleApps, eps)
	u := rapid.SampledFrom(us).Draw(t, "user")
	app, ep := rapid.SampledFrom(ruleApps).Draw(t, "app"), rapid.SampledFrom(eps).Draw(t, "ep")
	desc := fmt.Sprintf("rules %+v for %s from %q at %q", rs, u.name, app, ep)
	got, err := server.NewRulesBasedRolesProvider(rs).GetRoles(u.id, app, ep)
	want := rolesFor(rs, u, app, ep)
	g := map[ua.NodeID]bool{}
	for _, x := range got {
		g[x] = true
	}
	if len(want) == 0 {
		if err == nil && len(got) > 0 {
			c.Failf("%s: roles %s, want none", desc, roleText(g))
		}
		c.Label("no role")
	} else if err != nil || roleText(g) != roleText(want) {
		c.Failf("%s: roles %s (%v), want %s", desc, roleText(g), err, roleText(want))
	}
	c.NT(desc)
}

// the provider of the server of rulesWire
type switchable struct {
	mu sync.Mutex
	p  server.RolesProvider
}

func (s *switchable) GetRoles(id any, app, ep string) ([]ua.NodeID, error) {
	s.mu.Lock()
	p := s.p
	s.mu.Unlock()
	if p == nil {
		return []ua.NodeID{role(0)}, nil
	}
	return p.GetRoles(id, app, ep)
}

var prov = &switchable{}
var ruleSes = map[string]*wire.Session{}

func rulesSetup() func() {
	f := setup(server.WithRolesProvider(prov), server.WithAuthenticateX509IdentityFunc(func(ua.X509Identity, string, string) error { return nil }))()
	ruleSes["anonymous"], ruleSes["alice"], ruleSes["bob"] = w.ses, w.user("alice"), w.user("bob")
	s, err := wire.NewSessionAs(w.Addr, w.URL, wire.NoSec, func(s *wire.Session) wire.Identity { return s.X509(ruleCert) })
	if err != nil {
		kit.Infra("certificate session: %v", err)
	}
	ruleSes["certificate"] = s
	return f
}

// rulesWire asks over the wire which of five nodes, one per role, each user sees.
func rulesWire(c *kit.C) {
	t := c.T
	us := []ruleUser{}
	for _, u := range ruleUsers() {
		if ruleSes[u.name] != nil {
			us = append(us, u)
		}
	}
	nodes := []server.Node{}
	req := &ua.ReadRequest{TimestampsToReturn: ua.TimestampsToReturnNeither}
	for i := 0; i < 5; i++ {
		id := w.id(t, "n")
		nodes = append(nodes, server.NewObjectNode(w.Server, id, qn(2, "o"), lt("o"), lt(""), []ua.RolePermissionType{{RoleID: role(i), Permissions: ua.PermissionTypeBrowse}}, nil, 0))
		req.NodesToRead = append(req.NodesToRead, ua.ReadValueID{NodeID: id, AttributeID: 3})
	}
	defer w.add(nodes...)()
	app := "urn:verif:client"
	eps := []string{w.URL, "opc.tcp://b"}
	rs := drawRules(t, us, []string{app, "urn:other"}, eps)
	prov.mu.Lock()
	prov.p = server.NewRulesBasedRolesProvider(rs)
	prov.mu.Unlock()
	defer func() { prov.mu.Lock(); prov.p = nil; prov.mu.Unlock() }()
	for _, u := range us {
		r, code := do[ua.ReadResponse](c, ruleSes[u.name], &ua.ReadRequest{TimestampsToReturn: ua.TimestampsToReturnNeither, NodesToRead: req.NodesToRead})
		if code != 0 || len(r.Results) != 5 {
			c.Failf("read answered with %s", hx(code))
		}
		g := map[ua.NodeID]bool{}
		for i, x := range r.Results {
			if x.StatusCode == 0 {
				g[role(i)] = true
			}
		}
		want := rolesFor(rs, u, app, w.URL)
		desc := fmt.Sprintf("rules %+v for %s from %q at %q", rs, u.name, app, w.URL)
		c.NT(desc)
		if roleText(g) != roleText(want) {
			// the server never tells the provider the application and the endpoint
			if roleText(g) == roleText(rolesFor(rs, u, "", "")) && c.Known("rules-without-connection", "the server asks the roles provider without application uri and endpoint url, so application and endpoint restrictions of identity mapping rules have no effect") {
				c.Label("known")
				continue
			}
			c.Failf("%s: roles %s, want %s", desc, roleText(g), roleText(want))
		}
	}
}

// ---- C28

type invocation struct {
	method int
	ses    ua.NodeID
	obj    ua.NodeID
	args   []ua.Variant
}

func callCheck(c *kit.C) {
	t := c.T
	o := valOpts
	var mu sync.Mutex
	log := []invocation{}
	type meth struct {
		id      ua.NodeID
		handler bool
		exec    bool
		perms   []ua.RolePermissionType
		res     ua.CallMethodResult
	}
	ms := []*meth{}
	nodes := []server.Node{}
	obj, objT, vr := w.id(t, "obj"), w.id(t, "objT"), w.id(t, "var")
	hid := w.id(t, "hidden")
	nodes = append(nodes, mkNode(ua.NodeClassObject, obj, qn(2, "o"), lt("o"), nil, nil), mkNode(ua.NodeClassObjectType, objT, qn(2, "t"), lt("t"), nil, nil), mkNode(ua.NodeClassVariable, vr, qn(2, "v"), lt("v"), nil, nil),
		mkNode(ua.NodeClassObject, hid, qn(2, "h"), lt("h"), []ua.RolePermissionType{}, nil))
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "methods"); i < n; i++ {
		l := fmt.Sprintf("m%d", i)
		m := &meth{id: w.id(t, l), handler: rapid.IntRange(0, 9).Draw(t, l+"h") > 0, exec: rapid.IntRange(0, 9).Draw(t, l+"x") > 0}
		if rapid.IntRange(0, 9).Draw(t, l+"p") == 0 {
			m.perms = []ua.RolePermissionType{{RoleID: role(0), Permissions: pick(t, l+"perm", ua.PermissionTypeBrowse, ua.PermissionTypeCall, ua.PermissionTypeBrowse|ua.PermissionTypeCall)}}
		}
		m.res = ua.CallMethodResult{StatusCode: ua.StatusCode(pick(t, l+"sc", 0, 0, 0, ua.BadInvalidArgument, ua.UncertainInitialValue))}
		for j, k := 0, rapid.IntRange(0, 3).Draw(t, l+"no"); j < k; j++ {
			m.res.OutputArguments = append(m.res.OutputArguments, gen.Variant(t, o, 1, l+"out"))
		}
		for j, k := 0, rapid.IntRange(0, 2).Draw(t, l+"nr"); j < k; j++ {
			m.res.InputArgumentResults = append(m.res.InputArgumentResults, ua.StatusCode(pick(t, l+"ir", 0, ua.BadTypeMismatch)))
		}
		mn := server.NewMethodNode(w.Server, m.id, qn(2, "m"), lt("m"), lt(""), m.perms, []ua.Reference{{ReferenceTypeID: num(0, 47), IsInverse: true, TargetID: ua.NewExpandedNodeID(obj)}, {ReferenceTypeID: num(0, 47), IsInverse: true, TargetID: ua.NewExpandedNodeID(objT)}, {ReferenceTypeID: num(0, 47), IsInverse: true, TargetID: ua.NewExpandedNodeID(hid)}}, m.exec)
		if m.handler {
			mn.SetCallMethodHandler(func(s *server.Session, r ua.CallMethodRequest) ua.CallMethodResult {
				mu.Lock()
				log = append(log, invocation{i, s.SessionId(), r.ObjectID, r.InputArguments})
				mu.Unlock()
				if r.MethodID != m.id {
					return ua.CallMethodResult{StatusCode: ua.BadInternalError}
				}
				res := m.res
				res.OutputArguments = append(append([]ua.Variant{}, res.OutputArguments...), r.InputArguments...) // tells the calls apart
				return res
			})
		}
		nodes, ms = append(nodes, mn), append(ms, m)
	}
	defer w.add(nodes...)()
	type entry struct {
		req  ua.CallMethodRequest
		m    int // method index or -1
		want ua.StatusCode
	}
	nses := rapid.IntRange(1, 3).Draw(t, "sessions")
	ses := []*wire.Session{w.ses, w.user("m1"), w.user("m01")}[:nses]
	batches := make([][]entry, nses)
	for b := range batches {
		n := rapid.IntRange(1, 6).Draw(t, "entries")
		for i := 0; i < n; i++ {
			l := fmt.Sprintf("b%de%d", b, i)
			e := entry{m: rapid.IntRange(0, len(ms)-1).Draw(t, l+"m")}
			m := ms[e.m]
			e.req.MethodID = m.id
			e.req.ObjectID = pick(t, l+"o", obj, obj, objT)
			for j, k := 0, rapid.IntRange(0, 3).Draw(t, l+"na"); j < k; j++ {
				e.req.InputArguments = append(e.req.InputArguments, gen.Variant(t, o, 1, l+"arg"))
			}
			switch {
			case !may(m.perms, 1, ua.PermissionTypeBrowse):
				e.want = ua.BadMethodInvalid
			case !m.exec || !may(m.perms, 1, ua.PermissionTypeCall):
				e.want = ua.BadUserAccessDenied
			case !m.handler:
				e.want = ua.BadNotImplemented
			}
			switch rapid.IntRange(0, 11).Draw(t, l+"bad") {
			case 0:
				e.req.ObjectID, e.want, e.m = pick(t, l+"ob", ua.NodeID(ua.NewNodeIDString(2, "nope")), hid, nil), ua.BadNodeIDUnknown, -1
			case 1:
				e.req.MethodID, e.want, e.m = ua.NewNodeIDString(2, "nope"), ua.BadMethodInvalid, -1
			case 2:
				e.req.ObjectID, e.want, e.m = vr, ua.BadNodeClassInvalid, -1
			case 3:
				e.req.MethodID, e.want, e.m = pick(t, l+"nm", vr, obj), ua.BadAttributeIDInvalid, -2
			}
			if e.want != 0 && e.m >= 0 {
				e.m = -1
			}
			batches[b] = append(batches[b], e)
		}
	}
	resps := make([]*ua.CallResponse, nses)
	codes := make([]ua.StatusCode, nses)
	var wg sync.WaitGroup
	for b := range batches {
		wg.Add(1)
		go func() {
			defer wg.Done()
			req := &ua.CallRequest{}
			for _, e := range batches[b] {
				req.MethodsToCall = append(req.MethodsToCall, e.req)
			}
			resps[b], codes[b] = do[ua.CallResponse](c, ses[b], req)
		}()
	}
	wg.Wait()
	want := map[string]int{}
	key := func(iv invocation) string {
		return fmt.Sprintf("%d %v %v %s", iv.method, iv.ses, iv.obj, argText(iv.args))
	}
	for b, es := range batches {
		if codes[b] != 0 || len(resps[b].Results) != len(es) {
			c.Failf("a call of %d methods is answered with %s and %d results", len(es), hx(codes[b]), len(resps[b].Results))
		}
		for i, e := range es {
			res := resps[b].Results[i]
			desc := fmt.Sprintf("call %d of %d of session %d, object %v method %v with %d arguments", i, len(es), b, e.req.ObjectID, e.req.MethodID, len(e.req.InputArguments))
			if e.m < 0 || e.want != 0 {
				ok := res.StatusCode == e.want || e.m == -2 && in(res.StatusCode, ua.BadMethodInvalid, ua.BadNodeClassInvalid)
				if !ok || len(res.OutputArguments) > 0 {
					c.Failf("%s: %s with %d outputs, want %s", desc, hx(res.StatusCode), len(res.OutputArguments), hx(e.want))
				}
				c.Label("refused")
				continue
			}
			m := ms[e.m]
			exp := m.res
			exp.OutputArguments = append(append([]ua.Variant{}, exp.OutputArguments...), e.req.InputArguments...)
			if d := ref.Diff(exp, res); d != "" {
				c.Failf("%s: the result is not that of its call: %s", desc, d)
			}
			want[key(invocation{e.m, ses[b].Created.SessionID, e.req.ObjectID, e.req.InputArguments})]++
			c.Label("invoked")
			c.NT(desc + argText(e.req.InputArguments))
		}
	}
	mu.Lock()
	defer mu.Unlock()
	got := map[string]int{}
	for _, iv := range log {
		got[key(iv)]++
	}
	for k, n := range want {
		if got[k] != n {
			c.Failf("invocation %s happened %d times, want %d", k, got[k], n)
		}
	}
	for k, n := range got {
		if want[k] != n {
			c.Failf("invocation %s happened %d times, want %d", k, n, want[k])
		}
	}
}

// argText is the reference encoding of arguments.
func argText(a []ua.Variant) string {
	r := ""
	for _, x := range a {
		b, err := ref.Encode(ua.DataValue{Value: x}, nil)
		if err != nil {
			kit.Infra("reference encoding: %v", err)
		}
		r += hex.EncodeToString(b) + ","
	}
	return r
}

func init() {
	kit.Register(&kit.Check{
		ID:          "C13",
		Rule:        "random role permissions (missing, empty, several entries per role), role sets, access levels and notifier bits; every service that touches a node is asked over the wire and compared, with its effects, with the permission model; random identity mapping rules against a reference, directly and over the wire; non-trivial: distinct configurations",
		Assumptions: []string{"roles of the harness users come from a roles function of the harness", "history needs the read-history permission; the history bit of the access level is not judged for history reads"},
		Subs: []kit.Sub{{Name: "gate", Quick: 5000, Thorough: 200000, Shards: 6, Fn: accessGate, Setup: setup(server.WithHistorian(hist))},
			{Name: "rules", Quick: 20000, Thorough: 1000000, Shards: 1, Fn: roleRules},
			{Name: "wire", Quick: 1500, Thorough: 60000, Shards: 1, Fn: rulesWire, Setup: rulesSetup}},
	})
	kit.Register(&kit.Check{
		ID:          "C28",
		Rule:        "random methods (with and without handler, executable or not, permissions), batches of calls by up to three sessions at once with random arguments, unknown and wrong-class objects and methods; results and the log of the handlers are compared with the batches; non-trivial: distinct calls that reach a handler",
		Assumptions: []string{"whether a method belongs to the object is not judged", "the status for a node that is no method is one of three"},
		Subs:        []kit.Sub{{Name: "batches", Quick: 8000, Thorough: 300000, Shards: 6, Fn: callCheck, Setup: setup()}},
	})
}
