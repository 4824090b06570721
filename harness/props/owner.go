package props

import (
	"fmt"
	"slices"
	"strings"

	"verif/harness/kit"
	"verif/harness/wire"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// Ownership: several sessions with subscriptions, items and continuation points of their own, using each other's.

type ownOp struct {
	kind  int
	actor int
	a     []int
	flag  bool
}

type ownPlan struct {
	sessions int
	shared   []bool // on the connection of the first
	ops      []ownOp
}

func drawOwn(t *rapid.T) ownPlan {
	p := ownPlan{sessions: rapid.IntRange(2, 3).Draw(t, "sessions")}
	for i := 0; i < p.sessions; i++ {
		p.shared = append(p.shared, rapid.IntRange(0, 2).Draw(t, "shared") == 0)
	}
	// everybody starts with something
	for i := 0; i < p.sessions; i++ {
		p.ops = append(p.ops, ownOp{kind: 0, actor: i}, ownOp{kind: 1, actor: i, a: []int{100 + i, 0, 2}}, ownOp{kind: 1, actor: i, a: []int{100 + i, 1, 2}})
	}
	for k := rapid.IntRange(6, 22).Draw(t, "ops"); k > 0; k-- {
		p.ops = append(p.ops, ownOp{kind: rapid.IntRange(0, 19).Draw(t, "kind"), actor: rapid.IntRange(0, p.sessions-1).Draw(t, "actor"),
			a: rapid.SliceOfN(rapid.IntRange(0, 60), 1, 5).Draw(t, "args"), flag: rapid.Bool().Draw(t, "flag")})
	}
	p.ops = append(p.ops, ownOp{kind: 10}, ownOp{kind: 9, actor: 0, a: []int{1, 1}}, ownOp{kind: 9, actor: 1, a: []int{0, 0}})
	return p
}

type ownItem struct {
	id     uint32
	sub    *ownSub
	handle uint32
	node   int
	mode   ua.MonitoringMode
	live   bool
}

type ownSub struct {
	id      uint32
	owner   int
	enabled bool
	live    bool
	n       int
	msgs    map[uint32]string // not acknowledged
}

// first is the oldest message that is not acknowledged, or 0.
func (s *ownSub) first() uint32 {
	q := uint32(0)
	for x := range s.msgs {
		if q == 0 || x < q {
			q = x
		}
	}
	return q
}

type ownCP struct {
	cp    ua.ByteString
	owner int
	pos   int
	used  bool
}

type ownRun struct {
	l      *lane
	ss     []*wire.Session
	closed []bool
	subs   []*ownSub
	items  []*ownItem
	cps    []*ownCP
	nodes  []*server.VariableNode
	handle uint32
	val    int32
	full   []string
}

func (r *ownRun) sub(k int) (*ownSub, uint32) {
	if k >= 100 { // the first of a session
		for _, s := range r.subs {
			if s.owner == k-100 {
				return s, s.id
			}
		}
	}
	if k%7 == 6 || len(r.subs) == 0 {
		return nil, 0xFFFF0000 + uint32(k)
	}
	s := r.subs[k%len(r.subs)]
	return s, s.id
}

func (r *ownRun) item(k int) (*ownItem, uint32) {
	if k%9 == 8 || len(r.items) == 0 {
		return nil, 0xFFFF0000 + uint32(k)
	}
	i := r.items[k%len(r.items)]
	return i, i.id
}

// own says whether the actor may use a subscription.
func own(s *ownSub, actor int) bool { return s != nil && s.live && s.owner == actor }

func (r *ownRun) code(what string, got ua.StatusCode, want ua.StatusCode) {
	if got != want {
		r.l.failf("%s gets %s instead of %s", what, hx(got), hx(want))
	}
}

func askAs[T any](r *ownRun, i int, req ua.ServiceRequest) (*T, ua.StatusCode) {
	x, err := wire.Do[T](r.ss[i], req)
	if err != nil {
		if c := wire.CodeOf(err); c != 0 {
			return x, c
		}
		r.l.failf("%T of session %d is not answered properly: %v", req, i, err)
	}
	return x, 0
}

func refName(d ua.ReferenceDescription) string {
	return fmt.Sprint(d.NodeID, d.ReferenceTypeID, d.IsForward)
}

func (r *ownRun) do(op ownOp) {
	l, a := r.l, op.actor
	if r.closed[a] {
		return
	}
	arg := func(i int) int {
		if len(op.a) == 0 {
			return 0
		}
		return op.a[i%len(op.a)]
	}
	whose := func(s *ownSub, id uint32) string {
		if s == nil {
			return fmt.Sprintf("unknown subscription %d", id)
		}
		return fmt.Sprintf("subscription %d of session %d (live %v)", s.n, s.owner, s.live)
	}
	const badSub = ua.BadSubscriptionIDInvalid
	switch op.kind {
	case 0:
		x, code := askAs[ua.CreateSubscriptionResponse](r, a, &ua.CreateSubscriptionRequest{RequestedLifetimeCount: 10000, RequestedMaxKeepAliveCount: 1, PublishingEnabled: true})
		r.code("CreateSubscription", code, 0)
		for _, s := range r.subs {
			if s.live && s.id == x.SubscriptionID {
				l.failf("two subscriptions have the id %d", s.id)
			}
		}
		r.subs = append(r.subs, &ownSub{id: x.SubscriptionID, owner: a, enabled: true, live: true, n: len(r.subs), msgs: map[uint32]string{}})
		l.note("%d creates subscription %d", a, len(r.subs)-1)
	case 1, 16:
		s, id := r.sub(arg(0))
		node := arg(1) % len(r.nodes)
		mode := []ua.MonitoringMode{ua.MonitoringModeReporting, ua.MonitoringModeSampling, ua.MonitoringModeReporting}[arg(2)%3]
		r.handle++
		l.note("%d creates an item in %s", a, whose(s, id))
		x, code := askAs[ua.CreateMonitoredItemsResponse](r, a, &ua.CreateMonitoredItemsRequest{SubscriptionID: id, ItemsToCreate: []ua.MonitoredItemCreateRequest{{
			ItemToMonitor: ua.ReadValueID{NodeID: r.nodes[node].NodeID(), AttributeID: ua.AttributeIDValue}, MonitoringMode: mode, RequestedParameters: ua.MonitoringParameters{ClientHandle: r.handle, QueueSize: 1, DiscardOldest: true}}}})
		if !own(s, a) {
			r.code("CreateMonitoredItems", code, badSub)
			return
		}
		r.code("CreateMonitoredItems", code, 0)
		if len(x.Results) != 1 || x.Results[0].StatusCode != 0 {
			l.failf("the item is refused: %v", x.Results)
		}
		r.items = append(r.items, &ownItem{id: x.Results[0].MonitoredItemID, sub: s, handle: r.handle, node: node, mode: mode, live: true})
	case 2:
		s, id := r.sub(arg(0))
		l.note("%d modifies %s", a, whose(s, id))
		_, code := askAs[ua.ModifySubscriptionResponse](r, a, &ua.ModifySubscriptionRequest{SubscriptionID: id, RequestedPublishingInterval: 125, RequestedLifetimeCount: 10000, RequestedMaxKeepAliveCount: uint32(1 + arg(1)%3)})
		if own(s, a) {
			r.code("ModifySubscription", code, 0)
		} else {
			r.code("ModifySubscription", code, badSub)
		}
	case 3, 4:
		var ids []uint32
		var want []ua.StatusCode
		var hit []*ownSub
		names := []string{}
		for _, k := range op.a {
			s, id := r.sub(k)
			if slices.Contains(ids, id) {
				continue
			}
			ids = append(ids, id)
			names = append(names, whose(s, id))
			if own(s, a) {
				want = append(want, 0)
				hit = append(hit, s)
			} else {
				want = append(want, badSub)
			}
		}
		var got []ua.StatusCode
		if op.kind == 3 {
			l.note("%d sets publishing %v of %s", a, op.flag, strings.Join(names, ", "))
			x, code := askAs[ua.SetPublishingModeResponse](r, a, &ua.SetPublishingModeRequest{PublishingEnabled: op.flag, SubscriptionIDs: ids})
			r.code("SetPublishingMode", code, 0)
			got = x.Results
			for _, s := range hit {
				s.enabled = op.flag
			}
		} else {
			l.note("%d deletes %s", a, strings.Join(names, ", "))
			x, code := askAs[ua.DeleteSubscriptionsResponse](r, a, &ua.DeleteSubscriptionsRequest{SubscriptionIDs: ids})
			r.code("DeleteSubscriptions", code, 0)
			got = x.Results
			for _, s := range hit {
				r.drop(s)
			}
		}
		if !slices.Equal(got, want) {
			l.failf("the results are %v instead of %v", got, want)
		}
	case 5, 6, 7, 17, 18:
		s, id := r.sub(arg(0))
		var its []*ownItem
		var ids []uint32
		for _, k := range op.a[1:] {
			it, iid := r.item(k)
			if slices.Contains(ids, iid) {
				continue
			}
			its, ids = append(its, it), append(ids, iid)
		}
		if len(ids) == 0 {
			it, iid := r.item(arg(0))
			its, ids = append(its, it), append(ids, iid)
		}
		desc := []string{}
		var want []ua.StatusCode
		var hit []*ownItem
		for i, it := range its {
			if it != nil && it.live && it.sub == s {
				want = append(want, 0)
				hit = append(hit, it)
			} else {
				want = append(want, ua.BadMonitoredItemIDInvalid)
			}
			if it == nil {
				desc = append(desc, fmt.Sprintf("unknown item %d", ids[i]))
			} else {
				desc = append(desc, fmt.Sprintf("item %d of subscription %d", it.handle, it.sub.n))
			}
		}
		var got []ua.StatusCode
		var code ua.StatusCode
		svc := ""
		switch op.kind {
		case 5, 17:
			svc = "ModifyMonitoredItems"
			req := &ua.ModifyMonitoredItemsRequest{SubscriptionID: id}
			hs := []uint32{}
			for _, iid := range ids {
				r.handle++
				hs = append(hs, r.handle)
				req.ItemsToModify = append(req.ItemsToModify, ua.MonitoredItemModifyRequest{MonitoredItemID: iid, RequestedParameters: ua.MonitoringParameters{ClientHandle: r.handle, QueueSize: 1, DiscardOldest: true}})
			}
			l.note("%d modifies %s in %s", a, strings.Join(desc, ", "), whose(s, id))
			x, c := askAs[ua.ModifyMonitoredItemsResponse](r, a, req)
			code = c
			if c == 0 {
				for _, q := range x.Results {
					got = append(got, q.StatusCode)
				}
				if own(s, a) {
					for i, it := range its {
						if slices.Contains(hit, it) && it != nil {
							it.handle = hs[i]
						}
					}
				}
			}
		case 6:
			svc = "SetMonitoringMode"
			m := []ua.MonitoringMode{ua.MonitoringModeReporting, ua.MonitoringModeSampling, ua.MonitoringModeDisabled}[arg(1)%3]
			l.note("%d sets the mode of %s in %s to %d", a, strings.Join(desc, ", "), whose(s, id), m)
			x, c := askAs[ua.SetMonitoringModeResponse](r, a, &ua.SetMonitoringModeRequest{SubscriptionID: id, MonitoringMode: m, MonitoredItemIDs: ids})
			code = c
			if c == 0 {
				got = x.Results
				if own(s, a) {
					for _, it := range hit {
						it.mode = m
					}
				}
			}
		default:
			svc = "DeleteMonitoredItems"
			l.note("%d deletes %s in %s", a, strings.Join(desc, ", "), whose(s, id))
			x, c := askAs[ua.DeleteMonitoredItemsResponse](r, a, &ua.DeleteMonitoredItemsRequest{SubscriptionID: id, MonitoredItemIDs: ids})
			code = c
			if c == 0 {
				got = x.Results
				if own(s, a) {
					for _, it := range hit {
						it.live = false
					}
				}
			}
		}
		if !own(s, a) {
			r.code(svc, code, badSub)
			return
		}
		r.code(svc, code, 0)
		if !slices.Equal(got, want) {
			l.failf("the results of %s are %v instead of %v", svc, got, want)
		}
	case 8:
		s, id := r.sub(arg(0))
		it, iid := r.item(arg(1))
		_, link := r.item(arg(2))
		if own(s, a) && it != nil && it.live && it.sub == s {
			return // links of one's own are the subject of another check
		}
		l.note("%d links items in %s", a, whose(s, id))
		_, code := askAs[ua.SetTriggeringResponse](r, a, &ua.SetTriggeringRequest{SubscriptionID: id, TriggeringItemID: iid, LinksToAdd: []uint32{link}})
		if own(s, a) {
			r.code("SetTriggering", code, ua.BadMonitoredItemIDInvalid)
		} else {
			r.code("SetTriggering", code, badSub)
		}
	case 9, 19:
		s, id := r.sub(arg(0))
		seq := uint32(arg(1) % 4)
		if s != nil {
			if q := s.first(); q > 0 && arg(1)%3 > 0 {
				seq = q
			}
		}
		l.note("%d asks for message %d of %s again", a, seq, whose(s, id))
		x, code := askAs[ua.RepublishResponse](r, a, &ua.RepublishRequest{SubscriptionID: id, RetransmitSequenceNumber: seq})
		switch {
		case !own(s, a):
			r.code("Republish", code, badSub)
		case s.msgs[seq] == "":
			r.code("Republish", code, ua.BadMessageNotAvailable)
		default:
			r.code("Republish", code, 0)
			if got := ownMsg(x.NotificationMessage); got != s.msgs[seq] {
				l.failf("Republish gives %s instead of %s", got, s.msgs[seq])
			}
		}
	case 10, 15:
		r.pump(op)
	case 11:
		l.note("%d browses", a)
		x, code := askAs[ua.BrowseResponse](r, a, &ua.BrowseRequest{RequestedMaxReferencesPerNode: uint32(1 + arg(0)%3), NodesToBrowse: []ua.BrowseDescription{{NodeID: ua.ObjectIDServerServerCapabilities, BrowseDirection: ua.BrowseDirectionForward, ResultMask: 63}}})
		r.code("Browse", code, 0)
		y := x.Results[0]
		if y.StatusCode != 0 || len(y.ContinuationPoint) == 0 {
			l.failf("Browse gives %v", y)
		}
		c := &ownCP{cp: y.ContinuationPoint, owner: a}
		for _, o := range r.cps {
			if o.cp == c.cp && o.owner == a && !o.used {
				l.failf("two continuation points of session %d are %x", a, c.cp)
			}
		}
		r.cps = append(r.cps, c)
		r.chunk(c, y.References)
	case 12, 13:
		if len(r.cps) == 0 {
			return
		}
		var list []ua.ByteString
		var cs []*ownCP
		for _, k := range op.a {
			c := r.cps[k%len(r.cps)]
			if slices.Contains(list, c.cp) {
				continue
			}
			// the bytes mean something within a session only
			for _, o := range r.cps {
				if o.cp == c.cp && o.owner == a && !o.used {
					c = o
				}
			}
			cs, list = append(cs, c), append(list, c.cp)
		}
		// a point issued by the same call may have the bytes of a foreign one: no foreign ones together with own ones
		if slices.ContainsFunc(cs, func(c *ownCP) bool { return c.owner == a && !c.used }) {
			cs = slices.DeleteFunc(cs, func(c *ownCP) bool { return c.owner != a })
			list = list[:0]
			for _, c := range cs {
				list = append(list, c.cp)
			}
		}
		rel := op.flag && arg(0)%3 == 0
		l.note("%d continues %d points (release %v)", a, len(cs), rel)
		x, code := askAs[ua.BrowseNextResponse](r, a, &ua.BrowseNextRequest{ContinuationPoints: list, ReleaseContinuationPoints: rel})
		r.code("BrowseNext", code, 0)
		if len(x.Results) != len(cs) {
			l.failf("BrowseNext of %d points gives %d results", len(cs), len(x.Results))
		}
		for i, c := range cs {
			y := x.Results[i]
			if c.used || c.owner != a {
				if y.StatusCode != ua.BadContinuationPointInvalid || len(y.References) > 0 {
					l.failf("a continuation point of session %d (used %v) gives %v to session %d", c.owner, c.used, y, a)
				}
				continue
			}
			if y.StatusCode != 0 {
				l.failf("session %d cannot use its own continuation point: %v", a, y.StatusCode)
			}
			c.used = true
			if rel {
				continue
			}
			if len(y.ContinuationPoint) > 0 {
				n := &ownCP{cp: y.ContinuationPoint, owner: a, pos: c.pos}
				r.cps = append(r.cps, n)
				r.chunk(n, y.References)
			} else {
				r.chunk(c, y.References)
				if c.pos != len(r.full) {
					l.failf("the browse ends after %d of %d references", c.pos, len(r.full))
				}
			}
		}
	case 14:
		if op.flag {
			s, id := r.sub(arg(0))
			meth := ua.NodeID(ua.MethodIDServerGetMonitoredItems)
			if arg(1)%2 == 0 && !own(s, a) {
				meth = ua.MethodIDServerResendData
			}
			l.note("%d calls %v for %s", a, meth, whose(s, id))
			x, code := askAs[ua.CallResponse](r, a, &ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{{ObjectID: ua.ObjectIDServer, MethodID: meth, InputArguments: []ua.Variant{id}}}})
			r.code("Call", code, 0)
			y := x.Results[0]
			if !own(s, a) {
				if !in(y.StatusCode, ua.BadSubscriptionIDInvalid, ua.BadUserAccessDenied) || len(y.OutputArguments) > 0 {
					l.failf("the method gives %v", y)
				}
				return
			}
			r.code("GetMonitoredItems", y.StatusCode, 0)
			var ids, hs []uint32
			for _, it := range r.items {
				if it.live && it.sub == s {
					ids, hs = append(ids, it.id), append(hs, it.handle)
				}
			}
			var gi, gh []uint32
			if len(y.OutputArguments) == 2 {
				gi, _ = y.OutputArguments[0].([]uint32)
				gh, _ = y.OutputArguments[1].([]uint32)
			}
			g := map[uint32]uint32{}
			for i := range gi {
				if i < len(gh) {
					g[gi[i]] = gh[i]
				}
			}
			if len(gi) != len(ids) || len(gh) != len(ids) {
				l.failf("GetMonitoredItems gives %v, want items %v handles %v", y.OutputArguments, ids, hs)
			}
			for i, x := range ids {
				if g[x] != hs[i] {
					l.failf("GetMonitoredItems gives %v, want items %v handles %v", y.OutputArguments, ids, hs)
				}
			}
			return
		}
		if a == 0 || arg(0)%3 > 0 {
			return
		}
		del := arg(1)%2 == 0
		l.note("%d closes its session, deleting subscriptions %v", a, del)
		_, code := askAs[ua.CloseSessionResponse](r, a, &ua.CloseSessionRequest{DeleteSubscriptions: del})
		r.code("CloseSession", code, 0)
		r.closed[a] = true
		for _, s := range r.subs {
			if s.live && s.owner == a {
				s.owner = -1
				if del {
					r.drop(s)
				}
			}
		}
		for _, s := range r.subs {
			_, ok := w.SubscriptionManager().Get(s.id)
			if ok != s.live {
				l.failf("after closing session %d, subscription %d of session %d exists: %v", a, s.n, s.owner, ok)
			}
		}
	}
}

func (r *ownRun) drop(s *ownSub) {
	s.live = false
	for _, it := range r.items {
		if it.sub == s {
			it.live = false
		}
	}
}

func (r *ownRun) chunk(c *ownCP, refs []ua.ReferenceDescription) {
	for _, d := range refs {
		if c.pos >= len(r.full) || r.full[c.pos] != refName(d) {
			r.l.failf("the %dth reference is %s", c.pos, refName(d))
		}
		c.pos++
	}
}

func ownMsg(m ua.NotificationMessage) string {
	return fmt.Sprintf("%d %+v", m.SequenceNumber, m.NotificationData)
}

// pump changes all values and has every session fetch what it must get.
func (r *ownRun) pump(op ownOp) {
	l := r.l
	r.val++
	l.note("value %d", r.val)
	for _, n := range r.nodes {
		l.soon("SetValue", func() { n.SetValue(ua.DataValue{Value: r.val}) })
	}
	for _, s := range r.subs {
		if !s.live {
			continue
		}
		sub, ok := w.SubscriptionManager().Get(s.id)
		if !ok {
			l.failf("subscription %d of session %d is gone", s.n, s.owner)
		}
		for _, it := range r.items {
			if it.live && it.sub == s {
				x, ok := sub.FindItem(it.id)
				if !ok {
					l.failf("item %d of subscription %d is gone", it.handle, s.n)
				}
				if it.mode != ua.MonitoringModeDisabled {
					l.soon("Poll", x.(*server.DataChangeMonitoredItem).Poll)
				}
			}
		}
	}
	for a := range r.ss {
		if r.closed[a] {
			continue
		}
		due := map[uint32]*ownItem{}
		for _, it := range r.items {
			if it.live && it.sub.owner == a && it.sub.enabled && it.mode == ua.MonitoringModeReporting {
				due[it.handle] = it
			}
		}
		for tries := 0; len(due) > 0; tries++ {
			if tries > 200 {
				l.failf("session %d does not get the values of %d items", a, len(due))
			}
			var acks []ua.SubscriptionAcknowledgement
			var want []ua.StatusCode
			type ackd struct {
				s   *ownSub
				seq uint32
			}
			done := []ackd{}
			for i, k := range op.a {
				s, id := r.sub(k)
				seq := uint32(0xFFFFF)
				if s != nil && i%3 > 0 {
					if q := s.first(); q > 0 {
						seq = q
					}
				}
				if slices.ContainsFunc(acks, func(x ua.SubscriptionAcknowledgement) bool { return x.SubscriptionID == id && x.SequenceNumber == seq }) {
					continue
				}
				acks = append(acks, ua.SubscriptionAcknowledgement{SubscriptionID: id, SequenceNumber: seq})
				switch {
				case !own(s, a):
					want = append(want, ua.BadSubscriptionIDInvalid)
				case s.msgs[seq] == "":
					want = append(want, ua.BadSequenceNumberUnknown)
				default:
					want = append(want, 0)
					done = append(done, ackd{s, seq})
				}
			}
			x, code := askAs[ua.PublishResponse](r, a, &ua.PublishRequest{SubscriptionAcknowledgements: acks})
			r.code(fmt.Sprintf("Publish of session %d", a), code, 0)
			if !slices.Equal(x.Results, want) {
				l.failf("the acknowledgements %v of session %d get %v instead of %v", acks, a, x.Results, want)
			}
			for _, d := range done {
				delete(d.s.msgs, d.seq)
			}
			var s *ownSub
			for _, q := range r.subs {
				if q.live && q.id == x.SubscriptionID {
					s = q
				}
			}
			if s == nil || s.owner != a {
				l.failf("session %d gets a notification of subscription %d, which is not its own", a, x.SubscriptionID)
			}
			for _, q := range x.AvailableSequenceNumbers {
				if s.msgs[q] == "" && q != x.NotificationMessage.SequenceNumber {
					l.failf("message %d of subscription %d is said to be available", q, s.n)
				}
			}
			for q := range s.msgs {
				if !slices.Contains(x.AvailableSequenceNumbers, q) {
					l.failf("message %d of subscription %d is not available any more, although session %d has not acknowledged it", q, s.n, a)
				}
			}
			if len(x.NotificationMessage.NotificationData) == 0 {
				continue
			}
			s.msgs[x.NotificationMessage.SequenceNumber] = ownMsg(x.NotificationMessage)
			for _, d := range x.NotificationMessage.NotificationData {
				dn, ok := d.(ua.DataChangeNotification)
				if !ok {
					l.failf("session %d gets %T", a, d)
				}
				for _, mi := range dn.MonitoredItems {
					var it *ownItem
					for _, q := range r.items {
						if q.handle == mi.ClientHandle && q.sub == s {
							it = q
						}
					}
					if it == nil {
						l.failf("session %d gets a value of item %d, which it does not have in subscription %d", a, mi.ClientHandle, s.n)
					}
					if mi.Value.Value == r.val {
						delete(due, it.handle)
					}
				}
			}
		}
	}
}

func ownRunPlan(l *lane, p ownPlan) {
	r := &ownRun{l: l, closed: make([]bool, p.sessions)}
	for i := 0; i < p.sessions; i++ {
		if i == 0 {
			r.ss = append(r.ss, l.s)
			continue
		}
		cl := l.s.Client
		if !p.shared[i] {
			var err error
			if cl, err = wire.Connect(w.Addr, w.URL, wire.DefaultLimits, wire.NoSec); err != nil {
				l.failf("connect: %v", err)
			}
			cl.Start()
			defer cl.Drop()
		}
		s, err := cl.CreateSession(wire.CreateOpts{})
		if err == nil {
			err = s.Activate(s.Anonymous())
		}
		if err != nil {
			l.failf("no session: %v", err)
		}
		r.ss = append(r.ss, s)
		defer func() {
			if !r.closed[i] {
				wire.Do[ua.CloseSessionResponse](s, &ua.CloseSessionRequest{DeleteSubscriptions: true})
			}
		}()
	}
	l.note("%d sessions, shared %v", p.sessions, p.shared)
	for i := 0; i < 3; i++ {
		w.mu.Lock()
		w.next++
		id := ua.NewNodeIDNumeric(2, 100000+w.next)
		w.mu.Unlock()
		n := w.variable(id, int32(0), ua.DataTypeIDInt32, ua.ValueRankScalar, ua.AccessLevelsCurrentRead)
		defer w.add(n)()
		r.nodes = append(r.nodes, n)
	}
	x := must[ua.BrowseResponse](l, &ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: ua.ObjectIDServerServerCapabilities, BrowseDirection: ua.BrowseDirectionForward, ResultMask: 63}}})
	for _, d := range x.Results[0].References {
		r.full = append(r.full, refName(d))
	}
	if len(r.full) < 6 {
		kit.Infra("only %d references", len(r.full))
	}
	for _, op := range p.ops {
		r.do(op)
	}
	// what was left by a session that is closed
	for _, s := range r.subs {
		if s.live && s.owner == -1 {
			if q, ok := w.SubscriptionManager().Get(s.id); ok {
				w.SubscriptionManager().Delete(q)
				q.Delete()
			}
		}
	}
}

func ownCheck(c *kit.C) {
	ps := []ownPlan{}
	for n := pick(c.T, "lanes", 20, 20, 6); n > 0; n-- {
		ps = append(ps, drawOwn(c.T))
	}
	lanes(c, ps, ownRunPlan)
}

func init() {
	kit.Register(&kit.Check{
		ID:          "C12",
		Rule:        "two or three sessions, partly on one connection, create subscriptions, items and continuation points and use all services with identifiers of their own, of each other and unknown ones in mixed lists; a model of who owns what gives every result, and after each change of values every session must receive exactly its own notifications; non-trivial: distinct histories",
		Assumptions: []string{"the standard methods GetMonitoredItems and ResendData may answer 'access denied' for foreign subscriptions", "links between a session's own items are left to C25"},
		Subs:        []kit.Sub{{Name: "own", Quick: 120, Thorough: 4000, Shards: 6, Setup: monSetup, Fn: ownCheck}},
	})
}
