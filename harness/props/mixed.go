package props

import (
	"fmt"
	"time"

	"verif/harness/kit"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// Event items and value items of one subscription: modes and links between them (C25).

type mixItem struct {
	event  bool
	oldest bool
	mode   ua.MonitoringMode
}

type mixOp struct {
	kind string
	item int
	n    int
	mode ua.MonitoringMode
	add  []int
	rm   []int
}

type mixPlan struct {
	maxN  uint32
	items []mixItem
	ops   []mixOp
}

func drawMixed(t *rapid.T) mixPlan {
	p := mixPlan{maxN: pick[uint32](t, "max", 0, 1, 3)}
	n := rapid.IntRange(2, 5).Draw(t, "items")
	for i := 0; i < n; i++ {
		p.items = append(p.items, mixItem{event: i == 0 || rapid.IntRange(0, 2).Draw(t, "event") > 0, oldest: rapid.Bool().Draw(t, "oldest"), mode: pick(t, "mode", ua.MonitoringModeSampling, ua.MonitoringModeSampling, ua.MonitoringModeReporting, ua.MonitoringModeDisabled)})
	}
	some := func(l string) []int {
		r := []int{}
		for i := 0; i < n; i++ {
			if rapid.IntRange(0, 2).Draw(t, l) == 0 {
				r = append(r, i)
			}
		}
		return r
	}
	p.ops = append(p.ops, mixOp{kind: "links", item: rapid.IntRange(0, n-1).Draw(t, "from"), add: some("add")})
	for k := rapid.IntRange(4, 14).Draw(t, "ops"); k > 0; k-- {
		op := mixOp{kind: pick(t, "op", "fire", "fire", "mode", "fire", "links", "fire", "mode", "fire", "delete"), item: rapid.IntRange(0, n-1).Draw(t, "item")}
		switch op.kind {
		case "fire":
			op.n = pick(t, "n", 1, 2, 1, 5, 9)
		case "mode":
			op.mode = ua.MonitoringMode(rapid.IntRange(0, 2).Draw(t, "mode"))
		case "links":
			op.add, op.rm = some("add"), some("rm")
		case "delete":
			if rapid.IntRange(0, 2).Draw(t, "really") > 0 {
				op.kind, op.n = "fire", 1
			}
		}
		p.ops = append(p.ops, op)
	}
	return p
}

type mixMod struct {
	mixItem
	id    uint32
	live  bool
	obj   *server.ObjectNode
	node  *server.VariableNode
	it    *server.DataChangeMonitoredItem
	last  int
	fresh bool // the item has not sampled since it was enabled
	queue []int
	trig  bool
	links map[int]bool
}

func mixRun(l *lane, p mixPlan) {
	refs := objRefs(ua.ObjectIDObjectsFolder)
	cs := must[ua.CreateSubscriptionResponse](l, &ua.CreateSubscriptionRequest{RequestedLifetimeCount: 10000, RequestedMaxKeepAliveCount: 1, MaxNotificationsPerPublish: p.maxN, PublishingEnabled: true})
	l.note("max %d", p.maxN)
	items := []*mixMod{}
	// queued takes an occurrence into the model
	queued := func(m *mixMod, v int) {
		m.queue = append(m.queue, v)
		for j := range m.links {
			if items[j].live && items[j].mode != ua.MonitoringModeDisabled {
				items[j].trig = true
			}
		}
	}
	sample := func(m *mixMod) {
		if !m.event && m.live && m.mode != ua.MonitoringModeDisabled && m.fresh {
			m.fresh = false
			queued(m, m.last)
		}
	}
	drain := func() {
		due := func() int {
			n := 0
			for _, m := range items {
				if m.live && (m.mode == ua.MonitoringModeReporting || m.trig) {
					n += len(m.queue)
				}
			}
			return n
		}
		quiet := false
		for !quiet || due() > 0 {
			x := must[ua.PublishResponse](l, &ua.PublishRequest{})
			k := 0
			take := func(h uint32, event bool, v any) {
				k++
				if int(h) >= len(items) {
					l.failf("handle %d arrives", h)
				}
				m := items[h]
				if m.event != event {
					l.failf("item %d: events are %v, the report is %T", h, m.event, v)
				}
				if !m.live || m.mode == ua.MonitoringModeDisabled || m.mode == ua.MonitoringModeSampling && !m.trig {
					l.failf("item %d (live %v, mode %d, triggered %v) reports %v", h, m.live, m.mode, m.trig, v)
				}
				if len(m.queue) == 0 {
					l.failf("item %d reports %v, nothing is queued", h, v)
				}
				if fmt.Sprint(v) != fmt.Sprint(m.queue[0]) {
					l.failf("item %d reports %v, queued are %v", h, v, m.queue)
				}
				m.queue = m.queue[1:]
				if m.mode == ua.MonitoringModeSampling {
					l.label(map[bool]string{true: "events reported by a trigger", false: "values reported by a trigger"}[event])
				}
			}
			for _, d := range x.NotificationMessage.NotificationData {
				switch d := d.(type) {
				case ua.DataChangeNotification:
					for _, v := range d.MonitoredItems {
						take(v.ClientHandle, false, v.Value.Value)
					}
				case ua.EventNotificationList:
					for _, v := range d.Events {
						if len(v.EventFields) != 1 {
							l.failf("an event of %d fields", len(v.EventFields))
						}
						take(v.ClientHandle, true, v.EventFields[0])
					}
				}
			}
			if p.maxN > 0 && k > int(p.maxN) {
				l.failf("%d notifications in a message, the maximum is %d", k, p.maxN)
			}
			quiet = k == 0
			if quiet && due() > 0 {
				s := ""
				for i, m := range items {
					s += fmt.Sprintf("item %d (live %v, mode %d, triggered %v) %v; ", i, m.live, m.mode, m.trig, m.queue)
				}
				l.failf("a keep-alive arrives while %d notifications are due: %s", due(), s)
			}
		}
		for _, m := range items {
			m.trig = false
		}
	}
	find := func(id uint32) server.MonitoredItem {
		sub, _ := w.SubscriptionManager().Get(cs.SubscriptionID)
		it, ok := sub.FindItem(id)
		if !ok {
			l.failf("item %d is gone", id)
		}
		return it
	}
	for i, it := range p.items {
		w.mu.Lock()
		w.next++
		id := num(2, 200000+w.next)
		w.mu.Unlock()
		m := &mixMod{mixItem: it, live: true, links: map[int]bool{}, fresh: true}
		rq := ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: id, AttributeID: ua.AttributeIDValue}, MonitoringMode: it.mode, RequestedParameters: ua.MonitoringParameters{ClientHandle: uint32(i), QueueSize: 1000, DiscardOldest: it.oldest}}
		if it.event {
			m.obj = server.NewObjectNode(w.Server, id, qn(2, "o"), lt("o"), lt(""), nil, refs, ua.EventNotifierSubscribeToEvents)
			defer w.add(m.obj)()
			rq.ItemToMonitor.AttributeID = ua.AttributeIDEventNotifier
			rq.RequestedParameters.Filter = ua.EventFilter{SelectClauses: []ua.SimpleAttributeOperand{{TypeDefinitionID: ua.ObjectTypeIDBaseEventType, BrowsePath: []ua.QualifiedName{qn(0, "Severity")}, AttributeID: ua.AttributeIDValue}}}
		} else {
			m.node = server.NewVariableNode(w.Server, id, qn(2, "v"), lt("v"), lt(""), nil, refs, ua.NewDataValue(int32(0), 0, monClock, 0, monClock, 0), ua.DataTypeIDInt32, -1, nil, 3, 0, false, nil)
			defer w.add(m.node)()
		}
		x := must[ua.CreateMonitoredItemsResponse](l, &ua.CreateMonitoredItemsRequest{SubscriptionID: cs.SubscriptionID, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToCreate: []ua.MonitoredItemCreateRequest{rq}})
		if len(x.Results) != 1 || x.Results[0].StatusCode != 0 {
			l.failf("item is refused: %v", x.Results)
		}
		m.id = x.Results[0].MonitoredItemID
		if !it.event {
			m.it = find(m.id).(*server.DataChangeMonitoredItem)
		}
		items = append(items, m)
		sample(m)
		l.note("item %d: events %v mode %d", i, it.event, it.mode)
	}
	drain()
	ids := func(a []int) []uint32 {
		r := []uint32{}
		for _, i := range a {
			r = append(r, items[i].id)
		}
		return r
	}
	for _, op := range p.ops {
		m := items[op.item]
		switch op.kind {
		case "fire":
			l.note("fire %d x%d", op.item, op.n)
			for k := 0; k < op.n; k++ {
				m.last++
				if m.event {
					w.NamespaceManager().OnEvent(m.obj, &ua.BaseEvent{EventID: "e", EventType: ua.ObjectTypeIDBaseEventType, SourceNode: m.obj.NodeID(), SourceName: "s", Time: monClock, ReceiveTime: monClock, Severity: uint16(m.last)})
				} else {
					m.node.SetValue(ua.NewDataValue(int32(m.last), 0, monClock.Add(time.Duration(m.last)*time.Second), 0, monClock, 0))
					if m.live {
						m.it.Poll()
					}
				}
				if m.live && m.mode != ua.MonitoringModeDisabled {
					queued(m, m.last)
				}
			}
		case "mode":
			if !m.live {
				continue
			}
			l.note("mode %d of %d", op.mode, op.item)
			x := must[ua.SetMonitoringModeResponse](l, &ua.SetMonitoringModeRequest{SubscriptionID: cs.SubscriptionID, MonitoringMode: op.mode, MonitoredItemIDs: []uint32{m.id}})
			if len(x.Results) != 1 || x.Results[0] != 0 {
				l.failf("SetMonitoringMode is answered with %v", x.Results)
			}
			m.mode = op.mode
			if m.mode == ua.MonitoringModeDisabled {
				m.queue, m.trig, m.fresh = nil, false, true
				l.label("disabled")
			}
			sample(m)
		case "links":
			if !m.live || len(op.add)+len(op.rm) == 0 {
				continue
			}
			l.note("links of %d: add %v remove %v", op.item, op.add, op.rm)
			x := must[ua.SetTriggeringResponse](l, &ua.SetTriggeringRequest{SubscriptionID: cs.SubscriptionID, TriggeringItemID: m.id, LinksToAdd: ids(op.add), LinksToRemove: ids(op.rm)})
			for k, i := range op.rm {
				want := ua.StatusCode(0)
				if !items[i].live || !m.links[i] {
					want = ua.BadMonitoredItemIDInvalid
				}
				delete(m.links, i)
				if k >= len(x.RemoveResults) || x.RemoveResults[k] != want {
					l.failf("removal of link %d is answered with %v, want %s", k, x.RemoveResults, hx(want))
				}
			}
			for k, i := range op.add {
				want := ua.StatusCode(0)
				if items[i].live {
					m.links[i] = true
				} else {
					want = ua.BadMonitoredItemIDInvalid
				}
				if k >= len(x.AddResults) || x.AddResults[k] != want {
					l.failf("addition of link %d is answered with %v, want %s", k, x.AddResults, hx(want))
				}
			}
		case "delete":
			if !m.live {
				continue
			}
			l.note("delete %d", op.item)
			x := must[ua.DeleteMonitoredItemsResponse](l, &ua.DeleteMonitoredItemsRequest{SubscriptionID: cs.SubscriptionID, MonitoredItemIDs: []uint32{m.id}})
			if len(x.Results) != 1 || x.Results[0] != 0 {
				l.failf("DeleteMonitoredItems is answered with %v", x.Results)
			}
			m.live, m.queue, m.links = false, nil, map[int]bool{}
			for _, o := range items {
				delete(o.links, op.item)
			}
		}
		drain()
	}
	l.label("lanes")
}

func mixCheck(c *kit.C) {
	plans := []mixPlan{}
	for i := rapid.IntRange(1, 40).Draw(c.T, "lanes"); i > 0; i-- {
		plans = append(plans, drawMixed(c.T))
	}
	lanes(c, plans, mixRun)
}
