package props

import (
	"fmt"
	"reflect"
	"sort"
	"sync"
	"time"

	"verif/harness/kit"
	"verif/harness/wire"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// Histories of publishing: sequence numbers, acknowledgements, republishing, lost connections.

type pubAck struct{ kind, sub, i int }

type pubOp struct {
	kind  string
	sub   int
	n     int
	acks  []pubAck
	wait  int
	after int
}

type pubPlan struct {
	subs []pubSpec
	ops  []pubOp
}

type pubSpec struct {
	maxN uint32
	prio byte
	what int // values, events, or both in turn
}

const (
	ackHave = iota
	ackGone
	ackFuture
	ackZero
	ackForeign
	ackBogus
	ackTwice
)

func drawAcks(t *rapid.T, subs int) []pubAck {
	r := []pubAck{}
	for n := pick(t, "acks", 0, 1, 0, 2, 3, 6); n > 0; n-- {
		r = append(r, pubAck{pick(t, "ack", ackHave, ackHave, ackHave, ackTwice, ackGone, ackFuture, ackZero, ackForeign, ackBogus), rapid.IntRange(0, subs-1).Draw(t, "asub"), rapid.IntRange(0, 200).Draw(t, "ai")})
	}
	return r
}

func drawPub(t *rapid.T, big bool) pubPlan {
	p := pubPlan{}
	for n := pick(t, "subs", 1, 2, 2, 3); n > 0; n-- {
		p.subs = append(p.subs, pubSpec{pick[uint32](t, "max", 1, 0, 2, 5), byte(rapid.IntRange(0, 2).Draw(t, "prio")), pick(t, "what", 0, 0, 1, 2)})
	}
	n := len(p.subs)
	sub := func() int { return rapid.IntRange(0, n-1).Draw(t, "sub") }
	if big {
		p.subs[0].maxN = 1
		p.ops = append(p.ops, pubOp{kind: "set", sub: 0, n: rapid.IntRange(100, 300).Draw(t, "many")}, pubOp{kind: "wait", wait: 300})
		for k := rapid.IntRange(120, 260).Draw(t, "publishes"); k > 0; k-- {
			op := pubOp{kind: "publish"}
			if rapid.IntRange(0, 15).Draw(t, "withacks") == 0 {
				op.acks = drawAcks(t, n)
			}
			p.ops = append(p.ops, op)
			if rapid.IntRange(0, 20).Draw(t, "republish") == 0 {
				p.ops = append(p.ops, pubOp{kind: "republish", sub: 0, n: rapid.IntRange(-3, 140).Draw(t, "back")})
			}
		}
		return p
	}
	drops := 0
	for k := rapid.IntRange(6, 22).Draw(t, "ops"); k > 0; k-- {
		switch pick(t, "op", "publish", "set", "publish", "set", "republish", "publish", "pipeline", "drop", "delete", "wait", "set", "empty") {
		case "publish":
			p.ops = append(p.ops, pubOp{kind: "publish", acks: drawAcks(t, n)})
		case "set":
			p.ops = append(p.ops, pubOp{kind: "set", sub: sub(), n: pick(t, "n", 1, 2, 3, 8)})
		case "republish":
			p.ops = append(p.ops, pubOp{kind: "republish", sub: sub(), n: pick(t, "back", 0, 1, 2, 3, 5, -1, -2, 1000000)})
		case "pipeline":
			p.ops = append(p.ops, pubOp{kind: "pipeline", sub: sub(), n: rapid.IntRange(2, 6).Draw(t, "n"), acks: drawAcks(t, n), after: rapid.IntRange(0, 4).Draw(t, "sets")})
		case "drop":
			if drops < 2 {
				drops++
				p.ops = append(p.ops, pubOp{kind: "drop", sub: sub(), n: pick(t, "n", 1, 0, 3, 70, 5), after: pick(t, "sets", 2, 0, 1, 5), wait: pick(t, "wait", 0, 10, 150, 300)})
			}
		case "delete":
			if n > 1 && rapid.IntRange(0, 2).Draw(t, "really") == 0 {
				p.ops = append(p.ops, pubOp{kind: "delete", sub: sub()})
			}
		case "wait":
			p.ops = append(p.ops, pubOp{kind: "wait", wait: rapid.IntRange(0, 300).Draw(t, "ms")})
		case "empty":
			p.ops = append(p.ops, pubOp{kind: "foreign", sub: sub(), n: rapid.IntRange(0, 3).Draw(t, "seq")})
		}
	}
	return p
}

type pubMod struct {
	pubSpec
	id    uint32
	live  bool
	node  *server.VariableNode
	it    *server.DataChangeMonitoredItem
	obj   *server.ObjectNode
	set   [2]int32 // values, events
	got   [2]int32
	next  uint32
	kept  []ua.NotificationMessage // unacknowledged, oldest first
	acked []uint32
}

type pubRun struct {
	l       *lane
	subs    []*pubMod
	dropped bool
}

var pubOwners sync.Map // subscription id -> lane

func (r *pubRun) set(i, n int) {
	m := r.subs[i]
	if !m.live {
		return
	}
	if m.waiting()+n > 900 {
		return
	}
	for ; n > 0; n-- {
		if m.what == 1 || m.what == 2 && (m.set[0]+m.set[1])%3 > 0 {
			m.set[1]++
			if err := w.NamespaceManager().OnEvent(m.obj, &ua.BaseEvent{EventID: "e", EventType: ua.ObjectTypeIDBaseEventType, SourceNode: m.obj.NodeID(), SourceName: "s", Time: monClock, ReceiveTime: monClock, Message: lt("m"), Severity: uint16(m.set[1])}); err != nil {
				r.l.failf("raising an event fails: %v", err)
			}
			continue
		}
		m.set[0]++
		m.node.SetValue(ua.NewDataValue(m.set[0], 0, time.Now(), 0, time.Now(), 0))
		m.it.Poll()
	}
}

func (m *pubMod) waiting() int { return int(m.set[0] - m.got[0] + m.set[1] - m.got[1]) }

// acks turns the plan into acknowledgements and the expected results, and applies them to the model.
func (r *pubRun) acks(as []pubAck) ([]ua.SubscriptionAcknowledgement, []ua.StatusCode) {
	out, want := []ua.SubscriptionAcknowledgement{}, []ua.StatusCode{}
	add := func(sub, seq uint32) {
		out = append(out, ua.SubscriptionAcknowledgement{SubscriptionID: sub, SequenceNumber: seq})
		st := ua.BadSubscriptionIDInvalid
		for _, m := range r.subs {
			if m.id != sub || !m.live {
				continue
			}
			st = ua.BadSequenceNumberUnknown
			for i, k := range m.kept {
				if k.SequenceNumber == seq {
					m.kept = append(append([]ua.NotificationMessage{}, m.kept[:i]...), m.kept[i+1:]...)
					m.acked = append(m.acked, seq)
					st = 0
					break
				}
			}
		}
		want = append(want, st)
	}
	for _, a := range as {
		m := r.subs[a.sub%len(r.subs)]
		switch a.kind {
		case ackHave, ackTwice:
			if len(m.kept) > 0 {
				s := m.kept[a.i%len(m.kept)].SequenceNumber
				add(m.id, s)
				if a.kind == ackTwice {
					add(m.id, s)
				}
			}
		case ackGone:
			if len(m.acked) > 0 {
				add(m.id, m.acked[a.i%len(m.acked)])
			}
		case ackFuture:
			// far beyond what may have been sent to a lost connection
			add(m.id, m.next+1000+uint32(a.i))
		case ackZero:
			add(m.id, 0)
		case ackForeign:
			add(r.foreign(), uint32(a.i%5))
		case ackBogus:
			add(0xF0000000+uint32(a.i), 1)
		}
	}
	for i := range out {
		if want[i] == 0 {
			r.l.label("acks accepted")
		} else {
			r.l.label("acks refused")
		}
	}
	return out, want
}

// foreign is a subscription of another session.
func (r *pubRun) foreign() uint32 {
	ids := []uint32{}
	pubOwners.Range(func(k, v any) bool {
		if v != r.l {
			ids = append(ids, k.(uint32))
		}
		return true
	})
	if len(ids) == 0 {
		return 0xE0000000
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids[len(r.l.hist)%len(ids)]
}

func (r *pubRun) republish(sub, seq uint32) (*ua.RepublishResponse, ua.StatusCode) {
	return ask[ua.RepublishResponse](r.l, &ua.RepublishRequest{SubscriptionID: sub, RetransmitSequenceNumber: seq})
}

// message takes a notification message into the model.
func (r *pubRun) message(m *pubMod, nm ua.NotificationMessage) {
	l := r.l
	k := 0
	for _, d := range nm.NotificationData {
		switch d := d.(type) {
		case ua.DataChangeNotification:
			for _, v := range d.MonitoredItems {
				k++
				if x, ok := v.Value.Value.(int32); !ok || x != m.got[0]+1 {
					l.failf("message %d of subscription %d delivers the value %v after %d", nm.SequenceNumber, m.id, v.Value.Value, m.got[0])
				}
				m.got[0]++
			}
		case ua.EventNotificationList:
			for _, v := range d.Events {
				k++
				if len(v.EventFields) != 1 || v.EventFields[0] != ua.Variant(uint16(m.got[1]+1)) {
					l.failf("message %d of subscription %d delivers the event %v after %d", nm.SequenceNumber, m.id, v.EventFields, m.got[1])
				}
				m.got[1]++
			}
			l.label("events")
		default:
			l.failf("notification data is a %T", d)
		}
	}
	if m.maxN > 0 && k > int(m.maxN) {
		l.failf("message %d holds %d values, the maximum is %d", nm.SequenceNumber, k, m.maxN)
	}
	if m.got[0] > m.set[0] || m.got[1] > m.set[1] {
		l.failf("message %d brings the subscription to %d values and events, only %d happened", nm.SequenceNumber, m.got, m.set)
	}
	m.next = nm.SequenceNumber + 1
	m.kept = append(append([]ua.NotificationMessage{}, m.kept...), nm)
	if len(m.kept) > 128 {
		m.kept = m.kept[1:]
		l.label("messages that fell out of the retransmission queue")
	}
}

func (r *pubRun) accept(x *ua.PublishResponse, want []ua.StatusCode) {
	l := r.l
	var m *pubMod
	for _, s := range r.subs {
		if s.live && s.id == x.SubscriptionID {
			m = s
		}
	}
	if m == nil {
		l.failf("a message of subscription %d arrives, which is not one of the session", x.SubscriptionID)
	}
	if fmt.Sprint(x.Results) != fmt.Sprint(want) && len(x.Results)+len(want) > 0 {
		l.failf("acknowledgements are answered with %v, want %v", x.Results, want)
	}
	seq := x.NotificationMessage.SequenceNumber
	for r.dropped && seq > m.next && seq < m.next+200 {
		// went to the lost connection
		y, code := r.republish(m.id, m.next)
		if code != 0 {
			l.failf("message %d of subscription %d was not received and cannot be republished (%s) when message %d arrives", m.next, m.id, hx(code), seq)
		}
		if y.NotificationMessage.SequenceNumber != m.next || len(y.NotificationMessage.NotificationData) == 0 {
			l.failf("republish of %d gives message %d with %d notifications", m.next, y.NotificationMessage.SequenceNumber, len(y.NotificationMessage.NotificationData))
		}
		l.label("messages recovered after a lost connection")
		r.message(m, y.NotificationMessage)
	}
	if seq != m.next {
		l.failf("subscription %d sends sequence number %d, want %d", m.id, seq, m.next)
	}
	if len(x.NotificationMessage.NotificationData) > 0 {
		r.message(m, x.NotificationMessage)
		l.label("messages")
	} else {
		l.label("keep-alives")
		if x.MoreNotifications {
			l.failf("a keep-alive says there is more")
		}
	}
	r.avail(m, x.AvailableSequenceNumbers)
}

func (m *pubMod) seqs() []uint32 {
	a := []uint32{}
	for _, k := range m.kept {
		a = append(a, k.SequenceNumber)
	}
	return a
}

func (r *pubRun) avail(m *pubMod, got []uint32) {
	if want := m.seqs(); fmt.Sprint(got) != fmt.Sprint(want) {
		r.l.failf("subscription %d lists %v as available, unacknowledged are %v", m.id, got, want)
	}
}

func (r *pubRun) live() bool {
	for _, m := range r.subs {
		if m.live {
			return true
		}
	}
	return false
}

func (r *pubRun) publish(as []pubAck) *ua.PublishResponse {
	a, want := r.acks(as)
	r.l.note("publish %v", a)
	req := &ua.PublishRequest{SubscriptionAcknowledgements: a}
	if !r.live() {
		if _, code := ask[ua.PublishResponse](r.l, req); code != ua.BadNoSubscription {
			r.l.failf("Publish of a session without subscriptions is answered with %s", hx(code))
		}
		return nil
	}
	x := must[ua.PublishResponse](r.l, req)
	r.l.note("=> %d:%d", x.SubscriptionID, x.NotificationMessage.SequenceNumber)
	r.accept(x, want)
	return x
}

func (r *pubRun) checkRepublish(m *pubMod, seq uint32) {
	l := r.l
	y, code := r.republish(m.id, seq)
	if !m.live {
		if code != ua.BadSubscriptionIDInvalid {
			l.failf("republish for a deleted subscription is answered with %s", hx(code))
		}
		return
	}
	for _, k := range m.kept {
		if k.SequenceNumber != seq {
			continue
		}
		if code != 0 {
			l.failf("message %d is not acknowledged, republish is answered with %s; unacknowledged are %v", seq, hx(code), m.seqs())
		}
		if !reflect.DeepEqual(y.NotificationMessage, k) {
			l.failf("message %d was %+v and is republished as %+v", seq, k, y.NotificationMessage)
		}
		l.label("republished")
		return
	}
	if code != ua.BadMessageNotAvailable {
		l.failf("republish of message %d, which is not available, is answered with %s; unacknowledged are %v", seq, hx(code), m.seqs())
	}
	l.label("not available")
}

func (r *pubRun) do(op pubOp) {
	l := r.l
	switch op.kind {
	case "set":
		l.note("set %d x%d", op.sub, op.n)
		r.set(op.sub, op.n)
	case "wait":
		time.Sleep(time.Duration(op.wait) * time.Millisecond)
	case "publish":
		r.publish(op.acks)
	case "republish":
		m := r.subs[op.sub]
		seq := m.next - 1 - uint32(op.n)
		if r.dropped && op.n < 0 {
			return // may have gone to the lost connection
		}
		l.note("republish %d:%d", m.id, seq)
		r.checkRepublish(m, seq)
	case "foreign":
		id := r.foreign()
		l.note("republish %d:%d of another session", id, op.n)
		if _, code := r.republish(id, uint32(op.n)); code != ua.BadSubscriptionIDInvalid {
			l.failf("republish of message %d of subscription %d of another session is answered with %s", op.n, id, hx(code))
		}
	case "delete":
		m := r.subs[op.sub]
		if !m.live {
			return
		}
		l.note("delete %d", m.id)
		x := must[ua.DeleteSubscriptionsResponse](l, &ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{m.id}})
		if len(x.Results) != 1 || x.Results[0] != 0 {
			l.failf("delete is answered with %v", x.Results)
		}
		m.live, m.kept = false, nil
		pubOwners.Delete(m.id)
	case "pipeline":
		if !r.live() {
			return
		}
		type out struct {
			x    *ua.PublishResponse
			want []ua.StatusCode
		}
		a, want := r.acks(op.acks)
		l.note("pipeline of %d, %v", op.n, a)
		reqs, chs := []*ua.PublishRequest{}, []<-chan wire.Result{}
		for i := 0; i < op.n; i++ {
			req := &ua.PublishRequest{RequestHeader: l.s.Header()}
			if i == 0 {
				req.SubscriptionAcknowledgements = a
			}
			ch, _, err := l.s.Go(req)
			if err != nil {
				l.failf("Publish cannot be sent: %v", err)
			}
			reqs, chs = append(reqs, req), append(chs, ch)
		}
		r.set(op.sub, op.after)
		outs := []out{}
		for i := range reqs {
			v, err := l.s.Wait(chs[i])
			x, err := wire.As[ua.PublishResponse](reqs[i], v, err)
			if err != nil {
				l.failf("Publish is answered with %v", err)
			}
			o := out{x: x}
			if i == 0 {
				o.want = want
			}
			outs = append(outs, o)
		}
		// the order in which a subscription sent them
		sort.SliceStable(outs, func(i, j int) bool {
			a, b := outs[i].x, outs[j].x
			if a.SubscriptionID != b.SubscriptionID {
				return a.SubscriptionID < b.SubscriptionID
			}
			if p, q := a.NotificationMessage.SequenceNumber, b.NotificationMessage.SequenceNumber; p != q {
				return p < q
			}
			return len(a.NotificationMessage.NotificationData) == 0 && len(b.NotificationMessage.NotificationData) > 0
		})
		for _, o := range outs {
			r.accept(o.x, o.want)
		}
		l.label("pipelines")
	case "drop":
		l.note("%d publishes, %d sets of %d, %d ms, drop", op.n, op.after, op.sub, op.wait)
		for i := 0; i < op.n; i++ {
			if _, _, err := l.s.Go(&ua.PublishRequest{RequestHeader: l.s.Header()}); err != nil {
				l.failf("Publish cannot be sent: %v", err)
			}
		}
		r.set(op.sub, op.after)
		time.Sleep(time.Duration(op.wait) * time.Millisecond)
		r.dropped = true
		l.s.Drop()
		r.set(op.sub, op.after)
		time.Sleep(time.Duration(op.wait) * time.Millisecond)
		c, err := wire.Connect(w.Addr, w.URL, wire.DefaultLimits, wire.NoSec)
		if err != nil {
			l.failf("no second connection: %v", err)
		}
		c.Start()
		l.s.Client = c
		if err := l.s.Activate(l.s.Anonymous()); err != nil {
			l.failf("the session cannot be activated on a new connection: %v", err)
		}
		l.label("reconnects")
	}
}

func pubRunPlan(l *lane, p pubPlan) {
	r := &pubRun{l: l}
	refs := objRefs(ua.ObjectIDObjectsFolder)
	for i, s := range p.subs {
		w.mu.Lock()
		w.next++
		id := num(2, 200000+w.next)
		w.mu.Unlock()
		n := server.NewVariableNode(w.Server, id, qn(2, "v"), lt("v"), lt(""), nil, refs, ua.NewDataValue(int32(1), 0, time.Now(), 0, time.Now(), 0), ua.DataTypeIDInt32, -1, nil, 3, 0, false, nil)
		defer w.add(n)()
		w.mu.Lock()
		w.next++
		oid := num(2, 200000+w.next)
		w.mu.Unlock()
		o := server.NewObjectNode(w.Server, oid, qn(2, "o"), lt("o"), lt(""), nil, objRefs(ua.ObjectIDObjectsFolder), ua.EventNotifierSubscribeToEvents)
		defer w.add(o)()
		cs := must[ua.CreateSubscriptionResponse](l, &ua.CreateSubscriptionRequest{RequestedPublishingInterval: 0, RequestedLifetimeCount: 10000, RequestedMaxKeepAliveCount: 1, MaxNotificationsPerPublish: s.maxN, PublishingEnabled: true, Priority: s.prio})
		m := &pubMod{pubSpec: s, id: cs.SubscriptionID, live: true, node: n, obj: o, next: 1}
		pubOwners.Store(m.id, l)
		defer pubOwners.Delete(m.id)
		items := []ua.MonitoredItemCreateRequest{}
		if s.what != 1 {
			m.set[0] = 1
			items = append(items, ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: id, AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: ua.MonitoringParameters{ClientHandle: uint32(i), QueueSize: 1024}})
		}
		if s.what != 0 {
			items = append(items, ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: oid, AttributeID: ua.AttributeIDEventNotifier}, MonitoringMode: ua.MonitoringModeReporting,
				RequestedParameters: ua.MonitoringParameters{ClientHandle: uint32(i), QueueSize: 1024, Filter: ua.EventFilter{SelectClauses: []ua.SimpleAttributeOperand{{TypeDefinitionID: ua.ObjectTypeIDBaseEventType, BrowsePath: []ua.QualifiedName{qn(0, "Severity")}, AttributeID: ua.AttributeIDValue}}}}})
		}
		x := must[ua.CreateMonitoredItemsResponse](l, &ua.CreateMonitoredItemsRequest{SubscriptionID: m.id, ItemsToCreate: items})
		for _, y := range x.Results {
			if y.StatusCode != 0 {
				l.failf("item is refused: %v", x.Results)
			}
			sub, _ := w.SubscriptionManager().Get(m.id)
			it, _ := sub.FindItem(y.MonitoredItemID)
			if d, ok := it.(*server.DataChangeMonitoredItem); ok {
				m.it = d
			}
		}
		r.subs = append(r.subs, m)
		l.note("subscription %d max %d of %s", m.id, s.maxN, []string{"values", "events", "values and events"}[s.what])
	}
	for _, op := range p.ops {
		r.do(op)
	}
	// everything that was set arrives
	for i := 0; i < 2000 && r.behind(); i++ {
		r.publish(nil)
	}
	if r.behind() {
		l.failf("not all values were delivered after 2000 publishes")
	}
	// and exactly the unacknowledged messages are there
	for _, m := range r.subs {
		for s := m.next - min(m.next, 140); s <= m.next+1; s++ {
			if len(m.kept) < 30 || s%7 == 0 || s+3 > m.next || m.kept[0].SequenceNumber >= s && m.kept[0].SequenceNumber < s+2 {
				r.checkRepublish(m, s)
			}
		}
	}
	l.label("lanes")
}

func (r *pubRun) behind() bool {
	for _, m := range r.subs {
		if m.live && m.waiting() > 0 {
			return true
		}
	}
	return false
}

func pubCheck(big bool, n int) func(*kit.C) {
	return func(c *kit.C) {
		plans := []pubPlan{}
		for i := rapid.IntRange(1, n).Draw(c.T, "lanes"); i > 0; i-- {
			plans = append(plans, drawPub(c.T, big))
		}
		lanes(c, plans, pubRunPlan)
	}
}

func init() {
	kit.Register(&kit.Check{
		ID:          "C23",
		Rule:        "lanes (session with 1 to 3 subscriptions) with random value changes, publishes alone and in pipelines, acknowledgements (available, repeated, unknown, of other sessions, of no subscription), republishes, deletions and lost connections with outstanding publishes, compared with a model of sequence numbers and of the retransmission queue; non-trivial: distinct lane histories",
		Assumptions: []string{"messages written to a lost connection count as sent: they must be republishable"},
		Subs: []kit.Sub{{Name: "history", Quick: 48, Thorough: 4000, Shards: 6, Fn: pubCheck(false, 40), Setup: monSetup, Budget: 40 * time.Second},
			{Name: "long", Quick: 12, Thorough: 400, Shards: 2, Fn: pubCheck(true, 8), Setup: monSetup, Budget: 40 * time.Second}},
	})
}
