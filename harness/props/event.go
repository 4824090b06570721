package props

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/kit"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// Events: notifier hierarchies, filters, fields, order.

// evField is a field of an event type: the type that declares it, its path and attribute.
type evField struct {
	typ  ua.NodeID
	path string
	attr uint32
}

var evFields = []evField{
	{ua.ObjectTypeIDBaseEventType, "EventId", 13}, {ua.ObjectTypeIDBaseEventType, "EventType", 13}, {ua.ObjectTypeIDBaseEventType, "SourceNode", 13}, {ua.ObjectTypeIDBaseEventType, "SourceName", 13},
	{ua.ObjectTypeIDBaseEventType, "Time", 13}, {ua.ObjectTypeIDBaseEventType, "ReceiveTime", 13}, {ua.ObjectTypeIDBaseEventType, "Message", 13}, {ua.ObjectTypeIDBaseEventType, "Severity", 13},
	{ua.ObjectTypeIDConditionType, "", 1}, {ua.ObjectTypeIDConditionType, "ConditionName", 13}, {ua.ObjectTypeIDConditionType, "BranchId", 13}, {ua.ObjectTypeIDConditionType, "Retain", 13},
	{ua.ObjectTypeIDAcknowledgeableConditionType, "AckedState/Id", 13}, {ua.ObjectTypeIDAcknowledgeableConditionType, "ConfirmedState/Id", 13},
	{ua.ObjectTypeIDAlarmConditionType, "ActiveState/Id", 13},
}

func (f evField) clause() ua.SimpleAttributeOperand {
	p := []ua.QualifiedName{}
	if f.path != "" {
		for _, s := range strings.Split(f.path, "/") {
			p = append(p, ua.NewQualifiedName(0, s))
		}
	}
	return ua.SimpleAttributeOperand{TypeDefinitionID: f.typ, BrowsePath: p, AttributeID: f.attr}
}

// evSpec describes an event: its kind says how many of the fields it has.
type evSpec struct {
	n      int // fields: 8, 12, 14, 15
	fields []any
}

// build makes the event as an application would.
func (e evSpec) build() ua.Event {
	f := make([]ua.Variant, e.n)
	for i := range f {
		f[i] = e.fields[i]
	}
	var evt interface {
		ua.Event
		UnmarshalFields([]ua.Variant) error
	}
	switch e.n {
	case 8:
		evt = &ua.BaseEvent{}
	case 12:
		evt = &ua.Condition{}
	case 14:
		evt = &ua.AcknowledgeableCondition{}
	default:
		evt = &ua.AlarmCondition{}
	}
	// the struct fields have the order of the list
	v := reflect.ValueOf(evt).Elem()
	for i := range f {
		if f[i] != nil {
			v.Field(i).Set(reflect.ValueOf(f[i]))
		}
	}
	return evt
}

// get is what a select clause finds.
func (e evSpec) get(c ua.SimpleAttributeOperand) any {
	for i, f := range evFields[:e.n] {
		k := f.clause()
		if c.AttributeID != k.AttributeID || c.IndexRange != "" || len(c.BrowsePath) != len(k.BrowsePath) {
			continue
		}
		if c.TypeDefinitionID != k.TypeDefinitionID && c.TypeDefinitionID != ua.ObjectTypeIDBaseEventType {
			continue
		}
		same := true
		for j := range c.BrowsePath {
			same = same && c.BrowsePath[j] == k.BrowsePath[j]
		}
		if same {
			return e.fields[i]
		}
	}
	return nil
}

var evTypes = []ua.NodeID{ua.ObjectTypeIDBaseEventType, ua.ObjectTypeIDConditionType, ua.ObjectTypeIDAcknowledgeableConditionType, ua.ObjectTypeIDAlarmConditionType, ua.ObjectTypeIDSystemEventType,
	ua.ObjectTypeIDExclusiveLevelAlarmType, ua.ObjectTypeIDDialogConditionType, ua.ObjectTypeIDDeviceFailureEventType}

// evSuper are the supertypes of evTypes among each other.
func evIsA(a, b ua.NodeID) bool {
	if a == b || b == ua.ObjectTypeIDBaseEventType {
		return true
	}
	up := map[ua.NodeID][]ua.NodeID{
		ua.ObjectTypeIDAcknowledgeableConditionType: {ua.ObjectTypeIDConditionType},
		ua.ObjectTypeIDAlarmConditionType:           {ua.ObjectTypeIDConditionType, ua.ObjectTypeIDAcknowledgeableConditionType},
		ua.ObjectTypeIDExclusiveLevelAlarmType:      {ua.ObjectTypeIDConditionType, ua.ObjectTypeIDAcknowledgeableConditionType, ua.ObjectTypeIDAlarmConditionType},
		ua.ObjectTypeIDDialogConditionType:          {ua.ObjectTypeIDConditionType},
		ua.ObjectTypeIDDeviceFailureEventType:       {ua.ObjectTypeIDSystemEventType},
	}
	for _, x := range up[a] {
		if x == b {
			return true
		}
	}
	return false
}

var evZone = time.FixedZone("x", 3*3600+1800)

func drawEvField(t *rapid.T, i int) any {
	k := rapid.IntRange(0, 2).Draw(t, "f")
	switch i {
	case 0:
		return ua.ByteString(fmt.Sprint("id", k))
	case 1:
		return pick(t, "type", evTypes...)
	case 2, 8:
		return num(2, uint32(k))
	case 3, 9:
		return fmt.Sprint("name", k)
	case 4, 5:
		x := monClock.Add(time.Duration(k) * time.Second)
		return pick(t, "zone", x, x.In(evZone), x.Local())
	case 6:
		return pick(t, "text", lt("m1"), lt("m2"), ua.LocalizedText{})
	case 7:
		return uint16(k * 100)
	case 10:
		if k == 0 {
			return nil
		}
		return ua.NewNodeIDString(2, fmt.Sprint("b", k))
	}
	return k > 0
}

func drawEvent(t *rapid.T) evSpec {
	e := evSpec{n: pick(t, "kind", 8, 12, 14, 15)}
	for i := 0; i < e.n; i++ {
		e.fields = append(e.fields, drawEvField(t, i))
	}
	return e
}

func drawClause(t *rapid.T) ua.SimpleAttributeOperand {
	c := evFields[rapid.IntRange(0, len(evFields)-1).Draw(t, "field")].clause()
	switch rapid.IntRange(0, 9).Draw(t, "odd") {
	case 0:
		c.TypeDefinitionID = ua.ObjectTypeIDBaseEventType
	case 1:
		c.BrowsePath = []ua.QualifiedName{ua.NewQualifiedName(0, pick(t, "no", "NoSuch", "eventid", "AckedState", "Id", "EventIdX"))}
	case 2:
		c.AttributeID = pick[uint32](t, "attr", 1, 4, 12)
		if len(c.BrowsePath) == 0 {
			c.AttributeID = 13
		}
	case 3:
		c.BrowsePath = append(append([]ua.QualifiedName{}, c.BrowsePath...), ua.NewQualifiedName(0, "Id"))
	case 4:
		c.BrowsePath = append([]ua.QualifiedName{}, c.BrowsePath...)
		if len(c.BrowsePath) > 0 {
			c.BrowsePath[0].NamespaceIndex = 2
		}
	}
	return c
}

// evWhere is a where clause with what it means; nil result: not judged.
type evWhere struct {
	elems []ua.ContentFilterElement
}

func evSame(a, b any) (res, judged bool) {
	if a == nil || b == nil {
		return false, false
	}
	if x, ok := a.(time.Time); ok {
		y, ok := b.(time.Time)
		return ok && x.Equal(y), true
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false, reflect.TypeOf(a).Kind() == reflect.Slice || reflect.TypeOf(b).Kind() == reflect.Slice
	}
	return reflect.DeepEqual(a, b), true
}

// eval evaluates element i; elements refer to later ones only.
func (f evWhere) eval(e evSpec, i int) (any, bool) {
	if len(f.elems) == 0 {
		return true, true
	}
	el := f.elems[i]
	operand := func(o ua.ExtensionObject) (any, bool) {
		switch o := o.(type) {
		case ua.LiteralOperand:
			return o.Value, true
		case ua.SimpleAttributeOperand:
			return e.get(o), true
		case ua.ElementOperand:
			if int(o.Index) <= i || int(o.Index) >= len(f.elems) {
				return nil, false
			}
			return f.eval(e, int(o.Index))
		}
		return nil, false
	}
	switch el.FilterOperator {
	case ua.FilterOperatorEquals:
		if len(el.FilterOperands) != 2 {
			return nil, false
		}
		a, ok1 := operand(el.FilterOperands[0])
		b, ok2 := operand(el.FilterOperands[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		return evSame(a, b)
	case ua.FilterOperatorOfType:
		if len(el.FilterOperands) != 1 {
			return nil, false
		}
		l, ok := el.FilterOperands[0].(ua.LiteralOperand)
		if !ok {
			return nil, false
		}
		id, ok := l.Value.(ua.NodeID)
		if !ok {
			return nil, false
		}
		return evIsA(e.fields[1].(ua.NodeID), id), true
	}
	return nil, false
}

func drawWhere(t *rapid.T, hostile bool) evWhere {
	f := evWhere{}
	n := pick(t, "elements", 0, 1, 1, 2, 3, 4)
	if hostile && rapid.IntRange(0, 5).Draw(t, "many") == 0 {
		n = 60
	}
	for i := 0; i < n; i++ {
		operand := func(l string) ua.ExtensionObject {
			if i+1 < n && rapid.IntRange(0, 2).Draw(t, l+"e") == 0 {
				return ua.ElementOperand{Index: uint32(rapid.IntRange(i+1, n-1).Draw(t, l+"i"))}
			}
			if rapid.Bool().Draw(t, l) {
				return evFields[rapid.IntRange(0, len(evFields)-1).Draw(t, l+"f")].clause()
			}
			return ua.LiteralOperand{Value: drawEvField(t, rapid.IntRange(0, len(evFields)-1).Draw(t, l+"v"))}
		}
		el := ua.ContentFilterElement{FilterOperator: pick(t, "operator", ua.FilterOperatorEquals, ua.FilterOperatorEquals, ua.FilterOperatorOfType)}
		switch {
		case el.FilterOperator == ua.FilterOperatorOfType:
			el.FilterOperands = []ua.ExtensionObject{ua.LiteralOperand{Value: pick(t, "type", evTypes...)}}
		case i+1 < n && rapid.Bool().Draw(t, "nested"):
			el.FilterOperands = []ua.ExtensionObject{ua.ElementOperand{Index: uint32(i + 1)}, ua.LiteralOperand{Value: rapid.Bool().Draw(t, "bool")}}
			if rapid.Bool().Draw(t, "swap") {
				el.FilterOperands[0], el.FilterOperands[1] = el.FilterOperands[1], el.FilterOperands[0]
			}
		default:
			k := rapid.IntRange(0, len(evFields)-1).Draw(t, "field")
			el.FilterOperands = []ua.ExtensionObject{evFields[k].clause(), ua.LiteralOperand{Value: drawEvField(t, k)}}
			switch rapid.IntRange(0, 5).Draw(t, "op") {
			case 0:
				el.FilterOperands = []ua.ExtensionObject{operand("a"), operand("b")}
			case 1:
				el.FilterOperands[0], el.FilterOperands[1] = el.FilterOperands[1], el.FilterOperands[0]
			case 2:
				el.FilterOperands[1] = ua.LiteralOperand{Value: pick[any](t, "array", []int32{1}, []string{"a"}, []ua.Variant{int32(1)}, []ua.NodeID{num(2, 1)})}
			}
		}
		if hostile && rapid.Bool().Draw(t, "spoil") {
			switch rapid.IntRange(0, 5).Draw(t, "how") {
			case 0:
				el.FilterOperands = el.FilterOperands[:len(el.FilterOperands)-1]
			case 1:
				el.FilterOperands = nil
			case 2:
				el.FilterOperands = []ua.ExtensionObject{ua.ElementOperand{Index: pick(t, "to", uint32(i), 0, uint32(n), 1<<31, 1<<32-1)}, ua.ElementOperand{Index: uint32(i)}}
			case 3:
				el.FilterOperator = ua.FilterOperator(rapid.IntRange(-1, 20).Draw(t, "operator"))
			case 4:
				el.FilterOperands = []ua.ExtensionObject{nil, ua.AttributeOperand{NodeID: num(2, 1), AttributeID: 13}, ua.Argument{}}[rapid.IntRange(0, 2).Draw(t, "n"):]
			case 5:
				el.FilterOperands = []ua.ExtensionObject{ua.ElementOperand{Index: uint32(i + 1)}, ua.ElementOperand{Index: uint32(i + 1)}}
			}
		}
		f.elems = append(f.elems, el)
	}
	return f
}

type evItem struct {
	obj    int // -1: the Server object
	sel    []ua.SimpleAttributeOperand
	where  evWhere
	handle uint32
	oldest bool
	mode   ua.MonitoringMode
	id     uint32
	cap    int
	live   bool
	pend   [][]any
}

type evPlan struct {
	parents [][]int // -1: the Server object, evNowhere: a node that does not exist
	items   []evItem
	rounds  [][]evOp
	maxN    uint32
}

type evOp struct {
	kind string
	a    int
	n    int
	e    evSpec
	mode ua.MonitoringMode
	item evItem
}

// first is -1 when the item may be on the Server object, which gets the events of all lanes.
func drawEvItem(t *rapid.T, first, objs int, h uint32) evItem {
	it := evItem{obj: rapid.IntRange(first, objs-1).Draw(t, "obj"), handle: h, oldest: rapid.Bool().Draw(t, "oldest"), mode: ua.MonitoringModeReporting, live: true}
	if rapid.IntRange(0, 3).Draw(t, "all") == 0 {
		for _, f := range evFields {
			it.sel = append(it.sel, f.clause())
		}
	} else {
		for n := rapid.IntRange(0, 6).Draw(t, "fields"); n > 0; n-- {
			it.sel = append(it.sel, drawClause(t))
		}
	}
	// the last one tells whose event it is
	it.sel = append(it.sel, evFields[3].clause())
	it.where = drawWhere(t, false)
	return it
}

func drawEvPlan(t *rapid.T) evPlan {
	p := evPlan{maxN: pick[uint32](t, "max", 0, 1, 3, 0)}
	n := rapid.IntRange(1, 5).Draw(t, "objects")
	first := -1
	if p.maxN > 0 {
		first = 0
	}
	for i := 0; i < n; i++ {
		ps := []int{}
		for k := pick(t, "parents", 1, 0, 1, 2, 3); k > 0; k-- {
			lo, hi := -1, i-1
			if rapid.IntRange(0, 6).Draw(t, "cycle") == 0 {
				hi = n - 1
			}
			x := rapid.IntRange(lo, hi).Draw(t, "parent")
			if rapid.IntRange(0, 7).Draw(t, "missing") == 0 {
				x = evNowhere
			}
			if !in(x, ps...) {
				ps = append(ps, x)
			}
		}
		p.parents = append(p.parents, ps)
	}
	h := uint32(0)
	for k := rapid.IntRange(1, 5).Draw(t, "items"); k > 0; k-- {
		h++
		p.items = append(p.items, drawEvItem(t, first, n, h))
	}
	for r := rapid.IntRange(1, 5).Draw(t, "rounds"); r > 0; r-- {
		ops := []evOp{}
		for k := rapid.IntRange(1, 8).Draw(t, "ops"); k > 0; k-- {
			switch rapid.IntRange(0, 11).Draw(t, "op") {
			case 0:
				ops = append(ops, evOp{kind: "mode", a: rapid.IntRange(0, len(p.items)-1).Draw(t, "item"), mode: ua.MonitoringMode(rapid.IntRange(0, 2).Draw(t, "mode"))})
			case 1:
				h++
				ops = append(ops, evOp{kind: "modify", a: rapid.IntRange(0, len(p.items)-1).Draw(t, "item"), item: drawEvItem(t, first, n, h)})
			case 2:
				ops = append(ops, evOp{kind: "delete", a: rapid.IntRange(0, len(p.items)-1).Draw(t, "item")})
			case 3:
				if p.maxN == 0 && rapid.IntRange(0, 9).Draw(t, "flood") == 0 {
					ops = append(ops, evOp{kind: "raise", a: rapid.IntRange(0, n-1).Draw(t, "obj"), n: rapid.IntRange(1000, 1100).Draw(t, "many"), e: drawEvent(t)})
				}
			default:
				ops = append(ops, evOp{kind: "raise", a: rapid.IntRange(0, n-1).Draw(t, "obj"), n: 1, e: drawEvent(t)})
			}
		}
		p.rounds = append(p.rounds, ops)
	}
	return p
}

type evRun struct {
	l     *lane
	p     evPlan
	sub   uint32
	objs  []*server.ObjectNode
	items []*evItem
	tag   string
}

func evFilter(it *evItem) ua.EventFilter {
	return ua.EventFilter{SelectClauses: it.sel, WhereClause: ua.ContentFilter{Elements: it.where.elems}}
}

func (r *evRun) node(i int) ua.NodeID {
	if i < 0 {
		return ua.ObjectIDServer
	}
	return r.objs[i].NodeID()
}

// above is the object and everything above it.
func (r *evRun) above(i int) map[int]bool {
	seen := map[int]bool{}
	var up func(int)
	up = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		if i >= 0 {
			for _, p := range r.p.parents[i] {
				up(p)
			}
		}
	}
	up(i)
	return seen
}

func (it *evItem) push(e evSpec) {
	row := []any{}
	for _, c := range it.sel {
		row = append(row, e.get(c))
	}
	if len(it.pend) >= it.cap {
		if it.oldest {
			it.pend = it.pend[1:]
		} else {
			it.pend = it.pend[:len(it.pend)-1]
		}
	}
	it.pend = append(it.pend, row)
}

var evSeq atomic.Int64

const evNowhere = -2

func evRunPlan(l *lane, p evPlan) {
	r := &evRun{l: l, p: p, tag: fmt.Sprintf("lane%d/", evSeq.Add(1))}
	w.mu.Lock()
	base := w.next
	w.next += uint32(len(p.parents))
	w.mu.Unlock()
	ids := []ua.NodeID{}
	for i := range p.parents {
		ids = append(ids, num(2, 300000+base+uint32(i)))
	}
	nodes := []server.Node{}
	for i, ps := range p.parents {
		refs := objRefs(ua.ObjectIDObjectsFolder)
		for _, q := range ps {
			id := ua.NodeID(ua.ObjectIDServer)
			if q >= 0 {
				id = ids[q]
			}
			if q == evNowhere {
				id = num(2, 299999)
			}
			refs = append(refs, ua.Reference{ReferenceTypeID: ua.ReferenceTypeIDHasNotifier, IsInverse: true, TargetID: ua.NewExpandedNodeID(id)})
		}
		o := server.NewObjectNode(w.Server, ids[i], qn(2, "o"), lt("o"), lt(""), nil, refs, ua.EventNotifierSubscribeToEvents)
		r.objs = append(r.objs, o)
		nodes = append(nodes, o)
	}
	defer w.add(nodes...)()
	l.note("notifiers %v", p.parents)
	cs := must[ua.CreateSubscriptionResponse](l, &ua.CreateSubscriptionRequest{RequestedLifetimeCount: 10000, RequestedMaxKeepAliveCount: 1, MaxNotificationsPerPublish: p.maxN, PublishingEnabled: true})
	r.sub = cs.SubscriptionID
	must[ua.PublishResponse](l, &ua.PublishRequest{})
	for i := range p.items {
		it := p.items[i]
		l.note("item %d on %d: %v where %v", i, it.obj, evPaths(it.sel), it.where.elems)
		x := must[ua.CreateMonitoredItemsResponse](l, &ua.CreateMonitoredItemsRequest{SubscriptionID: r.sub, ItemsToCreate: []ua.MonitoredItemCreateRequest{{
			ItemToMonitor: ua.ReadValueID{NodeID: r.node(it.obj), AttributeID: ua.AttributeIDEventNotifier}, MonitoringMode: it.mode,
			RequestedParameters: ua.MonitoringParameters{ClientHandle: it.handle, QueueSize: 1024, DiscardOldest: it.oldest, Filter: evFilter(&it)}}}})
		if len(x.Results) != 1 || x.Results[0].StatusCode != 0 {
			l.failf("item is refused: %v", x.Results)
		}
		it.id, it.cap = x.Results[0].MonitoredItemID, int(x.Results[0].RevisedQueueSize)
		r.items = append(r.items, &it)
	}
	for _, ops := range p.rounds {
		for _, op := range ops {
			r.do(op)
		}
		r.drain()
	}
	l.label("lanes")
}

func evPaths(c []ua.SimpleAttributeOperand) string {
	s := []string{}
	for _, x := range c {
		p := []string{}
		for _, q := range x.BrowsePath {
			p = append(p, q.Name)
		}
		s = append(s, fmt.Sprintf("%s#%d", strings.Join(p, "/"), x.AttributeID))
	}
	return strings.Join(s, " ")
}

func (r *evRun) do(op evOp) {
	l := r.l
	switch op.kind {
	case "raise":
		// whose event it is
		e := evSpec{n: op.e.n, fields: append([]any{}, op.e.fields...)}
		name := r.tag + op.e.fields[3].(string)
		up := r.above(op.a)
		if up[-1] {
			op.n = 1 // the items on the Server object have room for the events of all lanes
		}
		for _, it := range r.items {
			if it.live && up[it.obj] && it.mode != ua.MonitoringModeDisabled {
				if _, judged := it.where.eval(op.e, 0); !judged {
					return // what this clause means for this event is not stated
				}
			}
		}
		l.note("raise x%d on %d %v", op.n, op.a, e.fields)
		for k := 0; k < op.n; k++ {
			if op.n > 1 {
				e.fields = append([]any{}, e.fields...)
				e.fields[7] = uint16(k)
			}
			e.fields[3] = name
			var err error
			l.soon(fmt.Sprintf("raising an event on object %d", op.a), func() { err = w.NamespaceManager().OnEvent(r.objs[op.a], e.build()) })
			if up[evNowhere] {
				l.label("missing notifier")
			} else if err != nil {
				l.failf("raising an event on object %d fails: %v", op.a, err)
			}
			// the name without the tag is what literals in the clauses mean
			plain := evSpec{n: e.n, fields: append([]any{}, e.fields...)}
			for _, it := range r.items {
				if !it.live || !up[it.obj] || it.mode == ua.MonitoringModeDisabled {
					continue
				}
				v, judged := it.where.eval(plain, 0)
				if !judged {
					l.failf("harness: clause changed its meaning")
				}
				if v == true {
					it.push(plain)
					l.label("accepted")
				} else {
					l.label("filtered")
				}
			}
		}
	case "mode":
		it := r.items[op.a]
		if !it.live {
			return
		}
		l.note("mode %d for %d", op.mode, op.a)
		must[ua.SetMonitoringModeResponse](l, &ua.SetMonitoringModeRequest{SubscriptionID: r.sub, MonitoringMode: op.mode, MonitoredItemIDs: []uint32{it.id}})
		it.mode = op.mode
		if op.mode == ua.MonitoringModeDisabled {
			it.pend = nil
		}
	case "modify":
		it := r.items[op.a]
		if !it.live || len(it.pend) > 0 || it.obj < 0 { // events of other lanes may wait in it
			return
		}
		n := op.item
		n.obj, n.mode, n.id, n.cap = it.obj, it.mode, it.id, it.cap
		l.note("modify %d: %v where %v", op.a, evPaths(n.sel), n.where.elems)
		x := must[ua.ModifyMonitoredItemsResponse](l, &ua.ModifyMonitoredItemsRequest{SubscriptionID: r.sub, ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: it.id,
			RequestedParameters: ua.MonitoringParameters{ClientHandle: n.handle, QueueSize: 1024, DiscardOldest: n.oldest, Filter: evFilter(&n)}}}})
		if len(x.Results) != 1 || x.Results[0].StatusCode != 0 {
			l.failf("modification of an item is refused: %v", x.Results)
		}
		n.cap = int(x.Results[0].RevisedQueueSize)
		*it = n
	case "delete":
		it := r.items[op.a]
		if !it.live {
			return
		}
		l.note("delete %d", op.a)
		must[ua.DeleteMonitoredItemsResponse](l, &ua.DeleteMonitoredItemsRequest{SubscriptionID: r.sub, MonitoredItemIDs: []uint32{it.id}})
		it.live, it.pend = false, nil
	}
}

func (r *evRun) due() int {
	n := 0
	for _, it := range r.items {
		if it.live && it.mode == ua.MonitoringModeReporting {
			n += len(it.pend)
		}
	}
	return n
}

// drain publishes until a keep-alive arrives with nothing due.
func (r *evRun) drain() {
	l := r.l
	l.note("drain %d", r.due())
	for i := 0; ; i++ {
		x := must[ua.PublishResponse](l, &ua.PublishRequest{})
		k := 0
		for _, d := range x.NotificationMessage.NotificationData {
			el, ok := d.(ua.EventNotificationList)
			if !ok {
				l.failf("notification data is a %T", d)
			}
			for _, ef := range el.Events {
				k++
				r.receive(ef)
			}
		}
		if r.p.maxN > 0 && k > int(r.p.maxN) {
			l.failf("a message holds %d events, the maximum is %d", k, r.p.maxN)
		}
		if k == 0 {
			if n := r.due(); n > 0 {
				l.failf("a keep-alive arrives while %d events are due: %v", n, r.pending())
			}
			return
		}
		if i > 100000 {
			l.failf("events do not end")
		}
	}
}

func (r *evRun) pending() string {
	s := []string{}
	for i, it := range r.items {
		if it.live && len(it.pend) > 0 {
			s = append(s, fmt.Sprintf("item %d: %d, next %v", i, len(it.pend), it.pend[0]))
		}
	}
	return strings.Join(s, "; ")
}

func (r *evRun) receive(ef ua.EventFieldList) {
	l := r.l
	var it *evItem
	for _, x := range r.items {
		if x.live && x.handle == ef.ClientHandle {
			it = x
		}
	}
	if it == nil {
		l.failf("an event for client handle %d arrives: %v", ef.ClientHandle, ef.EventFields)
	}
	if len(ef.EventFields) != len(it.sel) {
		l.failf("an event with %d fields arrives, %d are selected", len(ef.EventFields), len(it.sel))
	}
	if s, _ := ef.EventFields[len(it.sel)-1].(string); it.obj < 0 && !strings.HasPrefix(s, r.tag) {
		return // of another lane
	}
	if len(it.pend) == 0 || it.mode != ua.MonitoringModeReporting {
		l.failf("an unexpected event arrives for handle %d: %v (mode %d)", it.handle, ef.EventFields, it.mode)
	}
	want := it.pend[0]
	it.pend = it.pend[1:]
	for i, v := range ef.EventFields {
		if !evEqual(v, want[i]) {
			l.failf("field %d (%s) of an event for handle %d is %v, want %v; the event is %v, want %v", i, evPaths(it.sel[i:i+1]), it.handle, v, want[i], ef.EventFields, want)
		}
	}
	l.label("delivered")
}

func evEqual(a, b any) bool {
	if x, ok := a.(time.Time); ok {
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	}
	return reflect.DeepEqual(a, b)
}

func evCheck(c *kit.C) {
	plans := []evPlan{}
	for i := pick(c.T, "lanes", 24, 1, 24, 8); /* 24 lanes * 5 rounds * 8 events fit a queue of 1024 */ i > 0; i-- {
		plans = append(plans, drawEvPlan(c.T))
	}
	lanes(c, plans, evRunPlan)
}

// evHostile raises events under clauses that mean nothing: the server goes on.
func evHostile(c *kit.C) {
	t := c.T
	s := w.ses
	cs, code := do[ua.CreateSubscriptionResponse](c, s, &ua.CreateSubscriptionRequest{RequestedLifetimeCount: 10000, RequestedMaxKeepAliveCount: 1000, PublishingEnabled: true})
	if code != 0 {
		c.Failf("no subscription: %s", hx(code))
	}
	defer do[ua.DeleteSubscriptionsResponse](c, s, &ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{cs.SubscriptionID}})
	w.mu.Lock()
	w.next++
	id := num(2, 300000+w.next)
	w.mu.Unlock()
	o := server.NewObjectNode(w.Server, id, qn(2, "o"), lt("o"), lt(""), nil, objRefs(ua.ObjectIDObjectsFolder), ua.EventNotifierSubscribeToEvents)
	defer w.add(o)()
	f := drawWhere(t, true)
	sel := []ua.SimpleAttributeOperand{}
	for n := rapid.IntRange(0, 3).Draw(t, "fields"); n > 0; n-- {
		sel = append(sel, drawClause(t))
	}
	x, code := do[ua.CreateMonitoredItemsResponse](c, s, &ua.CreateMonitoredItemsRequest{SubscriptionID: cs.SubscriptionID, ItemsToCreate: []ua.MonitoredItemCreateRequest{{
		ItemToMonitor: ua.ReadValueID{NodeID: id, AttributeID: ua.AttributeIDEventNotifier}, MonitoringMode: ua.MonitoringModeReporting,
		RequestedParameters: ua.MonitoringParameters{ClientHandle: 1, QueueSize: 10, Filter: ua.EventFilter{SelectClauses: sel, WhereClause: ua.ContentFilter{Elements: f.elems}}}}}})
	c.NT(fmt.Sprint(f.elems))
	if code == ua.BadEncodingError || code == ua.BadDecodingError {
		return
	}
	if code != 0 || len(x.Results) != 1 {
		c.Failf("item with where clause %v is answered with %s", f.elems, hx(code))
	}
	if x.Results[0].StatusCode != 0 {
		c.Label("refused")
		return
	}
	done := make(chan string, 1)
	e := drawEvent(t)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprintf("panics: %v", r)
			}
		}()
		if err := w.NamespaceManager().OnEvent(o, e.build()); err != nil {
			done <- fmt.Sprintf("fails: %v", err)
		}
		done <- ""
	}()
	select {
	case m := <-done:
		if m != "" {
			c.Failf("raising an event under the where clause %v %s", f.elems, m)
		}
	case <-time.After(20 * time.Second):
		c.Hardf("raising an event under the where clause %v does not return", f.elems)
	}
	c.Label("raised")
}

// evStorm raises events from several goroutines while items come, change and go.
func evStorm(c *kit.C) {
	t := c.T
	seed := rapid.Int64().Draw(t, "seed")
	raisers := rapid.IntRange(1, 4).Draw(t, "raisers")
	per := rapid.IntRange(20, 150).Draw(t, "events")
	changers := rapid.IntRange(1, 3).Draw(t, "changers")
	w.mu.Lock()
	w.next += 2
	a, b := num(2, 300000+w.next-1), num(2, 300000+w.next)
	w.mu.Unlock()
	top := server.NewObjectNode(w.Server, a, qn(2, "o"), lt("o"), lt(""), nil, objRefs(ua.ObjectIDObjectsFolder), ua.EventNotifierSubscribeToEvents)
	low := server.NewObjectNode(w.Server, b, qn(2, "o"), lt("o"), lt(""), nil, append(objRefs(ua.ObjectIDObjectsFolder), ua.Reference{ReferenceTypeID: ua.ReferenceTypeIDHasNotifier, IsInverse: true, TargetID: ua.NewExpandedNodeID(a)}), ua.EventNotifierSubscribeToEvents)
	defer w.add(top, low)()
	sel := []ua.SimpleAttributeOperand{evFields[3].clause(), evFields[7].clause()}
	filter := ua.EventFilter{SelectClauses: sel}
	c.NT(fmt.Sprint(raisers, per, changers, seed))
	stop := make(chan struct{})
	var wg sync.WaitGroup
	who := []int{}
	for i := 0; i < changers+2; i++ {
		who = append(who, i)
	}
	lanes(c, who, func(l *lane, role int) {
		cs := must[ua.CreateSubscriptionResponse](l, &ua.CreateSubscriptionRequest{RequestedLifetimeCount: 10000, RequestedMaxKeepAliveCount: 1, PublishingEnabled: true})
		create := func(n ua.NodeID, q uint32) uint32 {
			x := must[ua.CreateMonitoredItemsResponse](l, &ua.CreateMonitoredItemsRequest{SubscriptionID: cs.SubscriptionID, ItemsToCreate: []ua.MonitoredItemCreateRequest{{
				ItemToMonitor: ua.ReadValueID{NodeID: n, AttributeID: ua.AttributeIDEventNotifier}, MonitoringMode: ua.MonitoringModeReporting,
				RequestedParameters: ua.MonitoringParameters{ClientHandle: 1, QueueSize: q, Filter: filter}}}})
			if len(x.Results) != 1 || x.Results[0].StatusCode != 0 {
				l.failf("item is refused: %v", x.Results)
			}
			return x.Results[0].MonitoredItemID
		}
		l.note("raisers %d events %d", raisers, per)
		switch {
		case role == 0:
			// raises
			time.Sleep(50 * time.Millisecond)
			done := make(chan error, raisers)
			for g := 0; g < raisers; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < per; i++ {
						if err := w.NamespaceManager().OnEvent(low, &ua.BaseEvent{EventType: ua.ObjectTypeIDBaseEventType, SourceName: fmt.Sprint("g", g), Severity: uint16(i), Time: monClock, ReceiveTime: monClock}); err != nil {
							done <- err
							return
						}
						if i%8 == 0 {
							time.Sleep(200 * time.Microsecond)
						}
					}
					done <- nil
				}()
			}
			for g := 0; g < raisers; g++ {
				select {
				case err := <-done:
					if err != nil {
						l.failf("raising an event fails: %v", err)
					}
				case <-time.After(30 * time.Second):
					l.hard("raising events while items change does not return (raisers %d, events %d, changers %d)", raisers, per, changers)
				}
			}
			close(stop)
		case role == 1:
			// listens
			id := create(a, 1024)
			<-stop
			next := map[string]uint16{}
			for got := 0; ; {
				x := must[ua.PublishResponse](l, &ua.PublishRequest{})
				k := 0
				for _, d := range x.NotificationMessage.NotificationData {
					for _, ef := range d.(ua.EventNotificationList).Events {
						k++
						g, n := ef.EventFields[0].(string), ef.EventFields[1].(uint16)
						if first, ok := next[g]; ok && n != first {
							l.failf("event %d of %s arrives, want %d", n, g, first)
						}
						next[g] = n + 1
						got++
					}
				}
				if k == 0 && x.NotificationMessage.SequenceNumber > 1 || k == 0 && got == 0 {
					break
				}
			}
			names := []string{}
			for g, n := range next {
				names = append(names, g)
				if int(n) != per {
					l.failf("the last event of %s that arrives is %d of %d", g, n, per)
				}
			}
			sort.Strings(names)
			l.label("listened")
			_ = id
		default:
			// changes items
			rnd := rand.New(rand.NewSource(seed + int64(role)))
			ids := []uint32{}
			for {
				select {
				case <-stop:
					return
				default:
				}
				switch k := rnd.Intn(5); {
				case len(ids) == 0 || k == 0 && len(ids) < 5:
					ids = append(ids, create([]ua.NodeID{a, b}[rnd.Intn(2)], 5))
				case k == 1:
					must[ua.ModifyMonitoredItemsResponse](l, &ua.ModifyMonitoredItemsRequest{SubscriptionID: cs.SubscriptionID, ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: ids[rnd.Intn(len(ids))],
						RequestedParameters: ua.MonitoringParameters{ClientHandle: 1, QueueSize: 7, Filter: filter}}}})
				case k == 2:
					i := rnd.Intn(len(ids))
					must[ua.DeleteMonitoredItemsResponse](l, &ua.DeleteMonitoredItemsRequest{SubscriptionID: cs.SubscriptionID, MonitoredItemIDs: ids[i : i+1]})
					ids = append(ids[:i:i], ids[i+1:]...)
				default:
					must[ua.SetMonitoringModeResponse](l, &ua.SetMonitoringModeRequest{SubscriptionID: cs.SubscriptionID, MonitoringMode: ua.MonitoringMode(rnd.Intn(3)), MonitoredItemIDs: ids[:1]})
				}
				l.label("changes")
			}
		}
	})
}

func init() {
	kit.Register(&kit.Check{
		ID:          "C26",
		Rule:        "delivery: lanes with random notifier graphs (several parents, cycles, missing nodes, the Server object), event items with random select and where clauses, mode changes, modifications, deletions and queue overflow, against a model that evaluates the clauses and walks the graph; hostile: where clauses with missing, wrong and self-referring operands; storm: events raised from several goroutines while items are created, changed and deleted; non-trivial: distinct lane histories, clauses and schedules",
		Assumptions: []string{"comparisons with null operands and between different types, and operators other than Equals and OfType, are not judged beyond the server surviving them"},
		Subs: []kit.Sub{{Name: "delivery", Quick: 48, Thorough: 4000, Shards: 5, Fn: evCheck, Setup: monSetup, Budget: 40 * time.Second},
			{Name: "hostile", Quick: 3000, Thorough: 100000, Shards: 1, Fn: evHostile, Setup: monSetup},
			{Name: "storm", Quick: 40, Thorough: 2000, Shards: 2, Fn: evStorm, Setup: monSetup, Budget: 40 * time.Second}},
	})
}
