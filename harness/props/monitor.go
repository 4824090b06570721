package props

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/harness/kit"
	"verif/harness/ref"
	"verif/harness/wire"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// Histories of monitored items. The server of these checks samples as fast as asked, so that every value a lane
// sets (and polls) is a sample; a lane owns its session, subscription and variables, and lanes run side by side
// because publishing takes real time.

func monSetup() func() {
	return setup(server.WithServerCapabilities(fastCaps()), server.WithMaxSubscriptionCount(100000), server.WithServerDiagnostics(false))()
}

func fastCaps() *ua.ServerCapabilities {
	return &ua.ServerCapabilities{MinSupportedSampleRate: 0, MaxBrowseContinuationPoints: 50, MaxHistoryContinuationPoints: 50,
		OperationLimits: &ua.OperationLimits{MaxNodesPerRead: 1000, MaxNodesPerWrite: 1000, MaxNodesPerMethodCall: 1000, MaxNodesPerBrowse: 1000,
			MaxNodesPerHistoryReadData: 1000, MaxNodesPerHistoryReadEvents: 1000, MaxNodesPerRegisterNodes: 1000, MaxNodesPerTranslateBrowsePathsToNodeIds: 1000, MaxMonitoredItemsPerCall: 1000}}
}

type laneFail string

// lane is one session of a case.
type lane struct {
	s    *wire.Session
	hist []string
	kind map[string]int
	hard func(string, ...any)
}

// soon runs a call into the server that must return; when it does not the case ends at once.
func (l *lane) soon(what string, f func()) {
	if !kit.Within(40*time.Second, f) {
		h := strings.Join(l.hist, "; ")
		l.hard("%s does not return (%s)", what, h[max(0, len(h)-3000):])
	}
}

func (l *lane) failf(f string, a ...any) {
	h := strings.Join(l.hist, "; ")
	if len(h) > 3000 {
		h = "... " + h[len(h)-3000:]
	}
	panic(laneFail(fmt.Sprintf(f, a...) + " (" + h + ")"))
}

func (l *lane) note(f string, a ...any) { l.hist = append(l.hist, fmt.Sprintf(f, a...)) }
func (l *lane) label(s string)          { l.kind[s]++ }

// ask sends a request; a fault is returned as a status.
func ask[T any](l *lane, req ua.ServiceRequest) (*T, ua.StatusCode) {
	r, err := wire.Do[T](l.s, req)
	if err != nil {
		if code := wire.CodeOf(err); code != 0 {
			return r, code
		}
		l.failf("%T is not answered properly: %v", req, err)
	}
	return r, 0
}

func must[T any](l *lane, req ua.ServiceRequest) *T {
	r, code := ask[T](l, req)
	if code != 0 {
		l.failf("%T is refused with %s", req, hx(code))
	}
	return r
}

// lanes runs the plans of a case side by side; the first failure (in order) is the case's.
func lanes[P any](c *kit.C, plans []P, f func(*lane, P)) {
	var wg sync.WaitGroup
	fails := make([]string, len(plans))
	ls := make([]*lane, len(plans))
	for i := range plans {
		ls[i] = &lane{kind: map[string]int{}, hard: c.Hardf}
		wg.Add(1)
		go func() {
			defer wg.Done()
			l := ls[i]
			defer func() {
				if r := recover(); r != nil {
					m, ok := r.(laneFail)
					if !ok {
						panic(r)
					}
					fails[i] = string(m)
				}
				if l.s != nil {
					l.s.Client.Timeout = 3 * time.Second
					wire.Do[ua.CloseSessionResponse](l.s, &ua.CloseSessionRequest{DeleteSubscriptions: true})
					l.s.Close()
				}
			}()
			s, err := wire.NewSession(w.Addr, w.URL)
			if err != nil {
				l.failf("no session: %v", err)
			}
			l.s = s
			f(l, plans[i])
		}()
	}
	wg.Wait()
	for i, l := range ls {
		for k, n := range l.kind {
			for ; n > 0; n-- {
				c.Label(k)
			}
		}
		if fails[i] == "" {
			c.NT(strings.Join(l.hist, "; "))
		}
	}
	for _, m := range fails {
		if m != "" {
			c.Failf("%s", m)
		}
	}
}

// ---- plans

type monItem struct {
	node   int
	attr   uint32
	rng    string
	filter *ua.DataChangeFilter
	handle uint32
	qs     uint32
	oldest bool
	mode   ua.MonitoringMode
	ts     ua.TimestampsToReturn
	sample float64
}

type monOp struct {
	kind    string
	a       int // node or item
	b       []int
	rm      []int
	val     ua.DataValue
	item    monItem
	mode    ua.MonitoringMode
	enabled bool
}

type monPlan struct {
	types  []monType
	init   []ua.DataValue
	maxN   uint32
	items  []monItem
	rounds [][]monOp
}

type monType struct {
	id   ua.NodeID
	rank int32
	name string
}

var monTypes = []monType{{ua.DataTypeIDInt32, -1, "int32"}, {ua.DataTypeIDString, -1, "string"}, {ua.DataTypeIDInt32, 1, "int32[]"}, {ua.DataTypeIDDouble, -1, "double"}, {ua.DataTypeIDBoolean, -1, "bool"}}

func monValue(t *rapid.T, ty monType, l string) any {
	k := int32(rapid.IntRange(0, 4).Draw(t, l))
	switch ty.name {
	case "int32":
		return k
	case "string":
		return fmt.Sprint("s", k)
	case "double":
		return float64(k) / 4
	case "bool":
		return k%2 == 0
	case "int32[]":
		return []int32{k, k / 2, int32(rapid.IntRange(0, 2).Draw(t, l+"e")), 9}
	}
	panic(ty.name)
}

// statuses differ in severity, in code, in the structure and semantics bits and in the bits that do not count.
var monStatus = []ua.StatusCode{0, 0, 0, 0, 0, 0, ua.UncertainLastUsableValue, ua.BadSensorFailure, ua.GoodLocalOverride, ua.GoodClamped, ua.BadDeviceFailure, 0x00004000, 0x00008000, 0x80004000, ua.BadSensorFailure | 0x100, 0x00000101}

var monClock = time.Date(2022, 3, 4, 5, 6, 7, 0, time.UTC)

func monDV(t *rapid.T, ty monType) ua.DataValue {
	st := pick(t, "status", monStatus...)
	src := monClock.Add(time.Duration(rapid.IntRange(0, 5).Draw(t, "src")) * time.Second)
	return ua.NewDataValue(monValue(t, ty, "v"), st, src, 0, monClock.Add(time.Duration(rapid.IntRange(0, 1000).Draw(t, "srv"))*time.Millisecond), 0)
}

func drawItem(t *rapid.T, types []monType, h uint32) monItem {
	it := monItem{node: rapid.IntRange(0, len(types)-1).Draw(t, "node"), attr: ua.AttributeIDValue, handle: h}
	it.qs = pick[uint32](t, "qs", 0, 1, 2, 2, 3, 4, 5, 8, 20, 1024, 5000, math.MaxUint32)
	it.oldest = rapid.Bool().Draw(t, "oldest")
	it.ts = ua.TimestampsToReturn(rapid.IntRange(0, 3).Draw(t, "ts"))
	it.mode = ua.MonitoringModeReporting
	it.sample = pick(t, "sample", 0, 0.25, 0.9)
	if types[it.node].rank == 1 {
		it.rng = pick(t, "range", "", "", "0", "1:2", "3", "2:3")
	}
	if rapid.IntRange(0, 9).Draw(t, "attr") == 0 {
		it.attr, it.rng = pick[uint32](t, "attrid", ua.AttributeIDDisplayName, ua.AttributeIDBrowseName, ua.AttributeIDNodeClass), ""
	}
	return it
}

func drawPlan(t *rapid.T, what string) monPlan {
	p := monPlan{maxN: pick[uint32](t, "max", 0, 0, 1, 2, 3, 7, 100000)}
	for i := rapid.IntRange(1, 3).Draw(t, "nodes"); i > 0; i-- {
		ty := pick(t, "type", monTypes...)
		p.types = append(p.types, ty)
		p.init = append(p.init, monDV(t, ty))
	}
	n := rapid.IntRange(1, 4).Draw(t, "items")
	if what == "modes" {
		n = rapid.IntRange(2, 5).Draw(t, "items")
	}
	used := map[uint32]bool{}
	handle := func() uint32 {
		for {
			h := pick(t, "handle", uint32(rapid.IntRange(0, 9).Draw(t, "h1")), rapid.Uint32().Draw(t, "h2"))
			if !used[h] {
				used[h] = true
				return h
			}
		}
	}
	for i := 0; i < n; i++ {
		it := drawItem(t, p.types, handle())
		if what == "modes" {
			it.mode = pick(t, "mode", ua.MonitoringModeSampling, ua.MonitoringModeReporting, ua.MonitoringModeDisabled, ua.MonitoringModeSampling)
		}
		p.items = append(p.items, it)
	}
	linked := [][2]int{}
	for r := rapid.IntRange(2, 6).Draw(t, "rounds"); r > 0; r-- {
		ops := []monOp{}
		if what == "queue" && rapid.IntRange(0, 5).Draw(t, "resend") == 0 {
			// everything has been delivered, the client asks for it again
			p.rounds = append(p.rounds, []monOp{{kind: "resend"}})
		}
		switch {
		case what == "modes":
			if rapid.IntRange(0, 2).Draw(t, "resize?") == 0 {
				// change an item whose values wait in the queue
				ops = append(ops, monOp{kind: "resize", a: rapid.IntRange(0, n-1).Draw(t, "item"), item: drawItem(t, p.types, handle())})
			}
			for q := pick(t, "linkops", 2, 0, 1, 3); q > 0; q-- {
				op := monOp{kind: "links"}
				if len(linked) > 0 && rapid.Bool().Draw(t, "again") {
					// add or remove a link that was added before
					x := linked[rapid.IntRange(0, len(linked)-1).Draw(t, "link")]
					op.a = x[0]
					if rapid.Bool().Draw(t, "rm") {
						op.rm = []int{x[1]}
					} else {
						op.b = []int{x[1]}
					}
				} else {
					op.a = rapid.IntRange(0, n-1).Draw(t, "trigger")
					op.b = rapid.SliceOfN(rapid.IntRange(-1, n-1), 1, 3).Draw(t, "add")
					op.rm = rapid.SliceOfN(rapid.IntRange(-1, n-1), 0, 1).Draw(t, "remove")
					for _, b := range op.b {
						if b >= 0 {
							linked = append(linked, [2]int{op.a, b})
						}
					}
				}
				ops = append(ops, op)
			}
			k := pick(t, "control", "none", "none", "mode", "mode", "mode", "delete", "publishing")
			op := monOp{kind: k}
			switch k {
			case "mode":
				op.b = rapid.SliceOfN(rapid.IntRange(-1, n-1), 1, 3).Draw(t, "which")
				op.mode = ua.MonitoringMode(rapid.IntRange(0, 2).Draw(t, "mode"))
			case "delete":
				op.b = rapid.SliceOfN(rapid.IntRange(-1, n-1), 1, 2).Draw(t, "which")
			case "publishing":
				op.enabled = rapid.Bool().Draw(t, "enabled")
			}
			if k != "none" {
				ops = append(ops, op)
			}
		case rapid.IntRange(0, 3).Draw(t, "mod") == 0:
			op := monOp{kind: "modify", a: rapid.IntRange(0, n-1).Draw(t, "item"), item: drawItem(t, p.types, handle())}
			ops = append(ops, op)
		}
		for k := rapid.IntRange(0, 12).Draw(t, "sets"); k > 0; k-- {
			i := rapid.IntRange(0, len(p.types)-1).Draw(t, "node")
			ops = append(ops, monOp{kind: "set", a: i, val: monDV(t, p.types[i])})
		}
		if what == "queue" && rapid.IntRange(0, 2).Draw(t, "late") == 0 {
			// shrink the queue with changes pending
			if rapid.Bool().Draw(t, "waited") {
				ops = append(ops, monOp{kind: "wait"})
			}
			ops = append(ops, monOp{kind: "trim", a: rapid.IntRange(0, n-1).Draw(t, "item"), b: []int{rapid.IntRange(0, 6).Draw(t, "to")}})
			for k := rapid.IntRange(0, 4).Draw(t, "sets"); k > 0; k-- {
				i := rapid.IntRange(0, len(p.types)-1).Draw(t, "node")
				ops = append(ops, monOp{kind: "set", a: i, val: monDV(t, p.types[i])})
			}
		}
		if what == "queue" && rapid.IntRange(0, 3).Draw(t, "resendPending") == 0 {
			ops = append(ops, monOp{kind: "resend"})
		}
		if what == "queue" && rapid.IntRange(0, 2).Draw(t, "latepublish") == 0 {
			// the publish request comes after its time
			ops = append(ops, monOp{kind: "wait"})
		}
		p.rounds = append(p.rounds, ops)
	}
	return p
}

// ---- model

type modItem struct {
	monItem
	id    uint32
	live  bool
	prev  *ua.DataValue
	pend  []ua.DataValue
	trig  bool
	links map[int]bool
	it    *server.DataChangeMonitoredItem
}

func (m *modItem) revised() uint32 { return min(max(m.qs, 1), 1024) }

const overflowBits = 0x480

// push queues a change.
func (m *modItem) push(v ua.DataValue) {
	q := int(m.revised())
	lost := false
	for len(m.pend) >= q {
		if m.oldest {
			m.pend = m.pend[1:]
		} else {
			m.pend = m.pend[:len(m.pend)-1]
		}
		lost = true
	}
	m.pend = append(append([]ua.DataValue{}, m.pend...), v)
	if lost && q > 1 {
		i := len(m.pend) - 1
		if m.oldest {
			i = 0
		}
		m.pend[i].StatusCode |= overflowBits
	}
}

// trim shortens the queue to its revised size.
func (m *modItem) trim() {
	lost := false
	m.pend = append([]ua.DataValue{}, m.pend...)
	for len(m.pend) > int(m.revised()) {
		if m.oldest {
			m.pend = m.pend[1:]
		} else {
			m.pend = m.pend[:len(m.pend)-1]
		}
		lost = true
	}
	if lost && len(m.pend) > 1 {
		i := len(m.pend) - 1
		if m.oldest {
			i = 0
		}
		m.pend[i].StatusCode |= overflowBits
	}
}

func stamp(v ua.DataValue, ts ua.TimestampsToReturn) ua.DataValue {
	if ts == ua.TimestampsToReturnServer || ts == ua.TimestampsToReturnNeither {
		v.SourceTimestamp = time.Time{}
	}
	if ts == ua.TimestampsToReturnSource || ts == ua.TimestampsToReturnNeither {
		v.ServerTimestamp = time.Time{}
	}
	return v
}

// significant decides whether a change is to be reported.
func significant(f *ua.DataChangeFilter, cur, prev ua.DataValue) bool {
	if cur.StatusCode&0xFFFFF000 != prev.StatusCode&0xFFFFF000 {
		return true
	}
	trigger, dead := ua.DataChangeTriggerStatusValue, -1.0
	if f != nil {
		trigger = f.Trigger
		if f.DeadbandType == uint32(ua.DeadbandTypeAbsolute) {
			dead = f.DeadbandValue
		}
	}
	switch trigger {
	case ua.DataChangeTriggerStatus:
		return false
	case ua.DataChangeTriggerStatusValueTimestamp:
		if !cur.SourceTimestamp.Equal(prev.SourceTimestamp) {
			return true
		}
	}
	if dead < 0 {
		return !reflect.DeepEqual(cur.Value, prev.Value)
	}
	return moved(reflect.ValueOf(cur.Value), reflect.ValueOf(prev.Value), dead)
}

func moved(a, b reflect.Value, dead float64) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() != b.IsValid()
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return true
		}
		for i := 0; i < a.Len(); i++ {
			if moved(a.Index(i), b.Index(i), dead) {
				return true
			}
		}
		return false
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return bigDiff(big.NewInt(a.Int()), big.NewInt(b.Int())) > dead
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return bigDiff(new(big.Int).SetUint64(a.Uint()), new(big.Int).SetUint64(b.Uint())) > dead
	}
	return math.Abs(a.Float()-b.Float()) > dead
}

func bigDiff(a, b *big.Int) float64 {
	d := new(big.Int).Sub(a, b)
	f, _ := new(big.Float).SetInt(d.Abs(d)).Float64()
	return f
}

type monRun struct {
	l       *lane
	p       monPlan
	sub     uint32
	nodes   []*server.VariableNode
	cur     []ua.DataValue
	items   []*modItem
	fired   map[int]bool // items that queued a change in this round
	enabled bool
	started bool
	repeat  bool
}

// sample is what an item reads now.
func (r *monRun) sample(m *modItem) ua.DataValue {
	n := r.nodes[m.node]
	switch m.attr {
	case ua.AttributeIDDisplayName:
		return ua.DataValue{Value: n.DisplayName()}
	case ua.AttributeIDBrowseName:
		return ua.DataValue{Value: n.BrowseName()}
	case ua.AttributeIDNodeClass:
		return ua.DataValue{Value: int32(ua.NodeClassVariable)}
	}
	v := r.cur[m.node]
	if a, ok := v.Value.([]int32); ok {
		switch m.rng {
		case "0":
			v.Value = a[:1:1]
		case "1:2":
			v.Value = a[1:3:3]
		case "3":
			v.Value = a[3:4:4]
		case "2:3":
			v.Value = a[2:4:4]
		}
	}
	return v
}

func (r *monRun) take(i int) {
	m := r.items[i]
	if !m.live || m.mode == ua.MonitoringModeDisabled {
		return
	}
	v := r.sample(m)
	if m.prev != nil && !significant(m.filter, v, *m.prev) {
		return
	}
	m.prev = &v
	m.push(stamp(v, m.ts))
	r.fired[i] = true
	for j := range m.links {
		r.items[j].trig = true
	}
}

// allowed is false when a change of the node could race with the trigger of an item on it.
func (r *monRun) allowed(node int) bool {
	for i := range r.fired {
		for j := range r.items[i].links {
			if r.items[j].live && r.items[j].node == node {
				return false
			}
		}
	}
	return true
}

func monRunPlan(l *lane, p monPlan) {
	r := &monRun{l: l, p: p, enabled: true}
	refs := objRefs(ua.ObjectIDObjectsFolder)
	for i, ty := range p.types {
		w.mu.Lock()
		w.next++
		id := num(2, 200000+w.next)
		w.mu.Unlock()
		n := server.NewVariableNode(w.Server, id, qn(2, "v"), lt("v"), lt(""), nil, refs, p.init[i], ty.id, ty.rank, nil, 3, 0, false, nil)
		defer w.add(n)()
		r.nodes = append(r.nodes, n)
		r.cur = append(r.cur, p.init[i])
		l.note("%s=%v/%s", ty.name, p.init[i].Value, hx(p.init[i].StatusCode))
	}
	cs := must[ua.CreateSubscriptionResponse](l, &ua.CreateSubscriptionRequest{RequestedPublishingInterval: 0, RequestedLifetimeCount: 10000, RequestedMaxKeepAliveCount: 1, MaxNotificationsPerPublish: p.maxN, PublishingEnabled: true})
	r.sub = cs.SubscriptionID
	l.note("max %d", p.maxN)
	r.fired = map[int]bool{}
	for i := range p.items {
		r.create(p.items[i])
	}
	r.drain()
	for _, ops := range p.rounds {
		r.fired = map[int]bool{}
		for _, op := range ops {
			r.do(op)
		}
		r.drain()
	}
	// nothing is left
	if r.l.label("lanes"); true {
		r.quiet()
	}
}

func (r *monRun) find(id uint32) *server.DataChangeMonitoredItem {
	s, ok := w.SubscriptionManager().Get(r.sub)
	if !ok {
		r.l.failf("the subscription is gone")
	}
	it, ok := s.FindItem(id)
	if !ok {
		r.l.failf("item %d is gone", id)
	}
	d, ok := it.(*server.DataChangeMonitoredItem)
	if !ok {
		r.l.failf("item %d is a %T", id, it)
	}
	return d
}

func (it monItem) params() ua.MonitoringParameters {
	p := ua.MonitoringParameters{ClientHandle: it.handle, SamplingInterval: it.sample, QueueSize: it.qs, DiscardOldest: it.oldest}
	if it.filter != nil {
		p.Filter = *it.filter
	}
	return p
}

func (it monItem) String() string {
	s := fmt.Sprintf("node %d attr %d[%s] queue %d oldest %v ts %d mode %d handle %d", it.node, it.attr, it.rng, it.qs, it.oldest, it.ts, it.mode, it.handle)
	if it.filter != nil {
		s += fmt.Sprintf(" filter %+v", *it.filter)
	}
	return s
}

func (r *monRun) create(it monItem) {
	l := r.l
	l.note("item %d: %v", len(r.items), it)
	x := must[ua.CreateMonitoredItemsResponse](l, &ua.CreateMonitoredItemsRequest{SubscriptionID: r.sub, TimestampsToReturn: it.ts, ItemsToCreate: []ua.MonitoredItemCreateRequest{{
		ItemToMonitor: ua.ReadValueID{NodeID: r.nodes[it.node].NodeID(), AttributeID: it.attr, IndexRange: it.rng}, MonitoringMode: it.mode, RequestedParameters: it.params()}}})
	m := &modItem{monItem: it, live: true, links: map[int]bool{}}
	if len(x.Results) != 1 || x.Results[0].StatusCode != 0 {
		l.failf("item is refused: %v", x.Results)
	}
	if q := x.Results[0].RevisedQueueSize; q != m.revised() {
		l.failf("queue size %d is revised to %d, want %d", it.qs, q, m.revised())
	}
	m.id = x.Results[0].MonitoredItemID
	m.it = r.find(m.id)
	r.items = append(r.items, m)
	r.take(len(r.items) - 1)
}

func (r *monRun) do(op monOp) {
	l := r.l
	ids := func(idx []int) []uint32 {
		o := []uint32{}
		for _, i := range idx {
			if i < 0 {
				o = append(o, 0xFFFFFFF0)
			} else {
				o = append(o, r.items[i].id)
			}
		}
		return o
	}
	good := func(i int) bool { return i >= 0 && r.items[i].live }
	bad := func(b bool) ua.StatusCode {
		if b {
			return 0
		}
		return ua.BadMonitoredItemIDInvalid
	}
	check := func(what string, got []ua.StatusCode, want []ua.StatusCode) {
		if fmt.Sprint(got) != fmt.Sprint(want) {
			l.failf("%s is answered with %v, want %v", what, got, want)
		}
	}
	switch op.kind {
	case "set":
		if !r.allowed(op.a) {
			return
		}
		l.note("%d:=%v/%s/%d", op.a, op.val.Value, hx(op.val.StatusCode), op.val.SourceTimestamp.Second())
		r.cur[op.a] = op.val
		r.nodes[op.a].SetValue(op.val)
		for i, m := range r.items {
			if m.live && m.node == op.a {
				m.it.Poll()
				r.take(i)
			}
		}
	case "modify":
		m := r.items[op.a]
		if !m.live {
			return
		}
		n := op.item
		n.node, n.attr, n.rng, n.ts, n.mode, n.filter = m.node, m.attr, m.rng, m.ts, m.mode, m.filter
		if len(m.pend) > 0 {
			return
		}
		l.note("modify item %d: %v", op.a, n)
		r.modify(m, n)
	case "trim":
		m := r.items[op.a]
		n := m.monItem
		n.qs = uint32(op.b[0])
		if !m.live || !m.oldest || max(n.qs, 1) > m.revised() {
			return
		}
		l.note("shrink the queue of item %d to %d", op.a, n.qs)
		l.label("trimmed")
		r.modify(m, n)
		m.trim()
	case "resize":
		m := r.items[op.a]
		if !m.live {
			return
		}
		n := op.item
		n.node, n.attr, n.rng, n.ts, n.mode, n.filter = m.node, m.attr, m.rng, m.ts, m.mode, m.filter
		if len(m.pend) > 1 {
			// most often less than there is
			n.qs = min(n.qs, uint32(len(m.pend)))
			l.label("resized")
		}
		l.note("resize item %d: %v", op.a, n)
		r.modify(m, n)
		m.trim()
	case "resend":
		// only items that have nothing to report repeat their value; when that depends on the item a publish request
		// could come between
		full, empty := 0, 0
		for _, m := range r.items {
			if m.live && m.mode == ua.MonitoringModeReporting {
				if len(m.pend) > 0 {
					full++
				} else {
					empty++
				}
			}
		}
		if full > 0 && (empty > 0 || r.p.maxN > 0 && r.due() > int(r.p.maxN)) {
			return
		}
		l.note("resend")
		l.label(fmt.Sprintf("resend with pending %v", full > 0))
		x := must[ua.CallResponse](l, &ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{{ObjectID: ua.ObjectIDServer, MethodID: ua.MethodIDServerResendData, InputArguments: []ua.Variant{r.sub}}}})
		if len(x.Results) != 1 || x.Results[0].StatusCode != 0 {
			l.failf("ResendData is answered with %+v", x.Results)
		}
		for _, m := range r.items {
			if m.live && m.mode == ua.MonitoringModeReporting && len(m.pend) == 0 {
				v := r.sample(m)
				m.prev = &v
				m.push(stamp(v, m.ts))
				l.label("resent")
			}
		}
		r.started = false // a keep-alive may be on its way
		if full > 0 {
			time.Sleep(300 * time.Millisecond)
			r.repeat = true // when the server is slow it looks after the delivery
		}
	case "wait":
		l.note("wait")
		l.label("late")
		time.Sleep(300 * time.Millisecond)
	case "mode":
		want := []ua.StatusCode{}
		l.note("mode %d for %v", op.mode, op.b)
		x := must[ua.SetMonitoringModeResponse](l, &ua.SetMonitoringModeRequest{SubscriptionID: r.sub, MonitoringMode: op.mode, MonitoredItemIDs: ids(op.b)})
		for _, i := range op.b {
			want = append(want, bad(good(i)))
			if !good(i) || r.items[i].mode == op.mode {
				continue
			}
			m := r.items[i]
			m.mode = op.mode
			if m.mode == ua.MonitoringModeDisabled {
				m.pend, m.prev, m.trig = nil, nil, false
			}
			r.take(i)
		}
		check("SetMonitoringMode", x.Results, want)
	case "links":
		tr := r.items[op.a]
		l.note("trigger %d remove %v add %v", op.a, op.rm, op.b)
		x, code := ask[ua.SetTriggeringResponse](l, &ua.SetTriggeringRequest{SubscriptionID: r.sub, TriggeringItemID: tr.id, LinksToAdd: ids(op.b), LinksToRemove: ids(op.rm)})
		if !tr.live {
			if code != ua.BadMonitoredItemIDInvalid {
				l.failf("links of an item that does not exist are answered with %s", hx(code))
			}
			return
		}
		if code != 0 {
			l.failf("SetTriggering is refused with %s", hx(code))
		}
		wa, wr := []ua.StatusCode{}, []ua.StatusCode{}
		for _, i := range op.rm {
			wr = append(wr, bad(good(i) && tr.links[i]))
			delete(tr.links, i)
		}
		for _, i := range op.b {
			wa = append(wa, bad(good(i)))
			if good(i) {
				tr.links[i] = true
				l.label("linked")
			}
		}
		check("adding links", x.AddResults, wa)
		check("removing links", x.RemoveResults, wr)
	case "delete":
		l.note("delete %v", op.b)
		x := must[ua.DeleteMonitoredItemsResponse](l, &ua.DeleteMonitoredItemsRequest{SubscriptionID: r.sub, MonitoredItemIDs: ids(op.b)})
		want := []ua.StatusCode{}
		for _, i := range op.b {
			want = append(want, bad(good(i)))
			if good(i) {
				m := r.items[i]
				m.live, m.pend, m.links, m.trig = false, nil, map[int]bool{}, false
				for _, o := range r.items {
					delete(o.links, i)
				}
			}
		}
		check("DeleteMonitoredItems", x.Results, want)
	case "publishing":
		l.note("publishing %v", op.enabled)
		x := must[ua.SetPublishingModeResponse](l, &ua.SetPublishingModeRequest{PublishingEnabled: op.enabled, SubscriptionIDs: []uint32{r.sub}})
		check("SetPublishingMode", x.Results, []ua.StatusCode{0})
		r.enabled = op.enabled
	}
}

func (r *monRun) modify(m *modItem, n monItem) {
	x := must[ua.ModifyMonitoredItemsResponse](r.l, &ua.ModifyMonitoredItemsRequest{SubscriptionID: r.sub, TimestampsToReturn: m.ts,
		ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: m.id, RequestedParameters: n.params()}}})
	m.monItem = n
	if len(x.Results) != 1 || x.Results[0].StatusCode != 0 || x.Results[0].RevisedQueueSize != m.revised() {
		r.l.failf("modify is answered with %v, want queue size %d", x.Results, m.revised())
	}
}

func (r *monRun) publish() *ua.PublishResponse {
	return must[ua.PublishResponse](r.l, &ua.PublishRequest{})
}

// due is the number of values that must be delivered now.
func (r *monRun) due() int {
	n := 0
	for _, m := range r.items {
		if m.live && (m.mode == ua.MonitoringModeReporting || m.trig) && m.mode != ua.MonitoringModeDisabled {
			n += len(m.pend)
		}
	}
	return n
}

// drain publishes until the model has nothing due, comparing everything that arrives.
func (r *monRun) drain() {
	l := r.l
	if !r.enabled {
		r.quiet()
		return
	}
	n := r.due()
	l.note("drain %d", n)
	if n == 0 {
		r.quiet()
	}
	if n > 0 {
		l.label("delivering rounds")
	}
	for n > 0 {
		x := r.publish()
		if x.SubscriptionID != r.sub {
			l.failf("a message of subscription %d arrives, the session has only %d", x.SubscriptionID, r.sub)
		}
		k := 0
		for _, d := range x.NotificationMessage.NotificationData {
			dc, ok := d.(ua.DataChangeNotification)
			if !ok {
				l.failf("notification data is a %T", d)
			}
			for _, mn := range dc.MonitoredItems {
				k++
				r.receive(mn)
			}
		}
		if k == 0 {
			if r.started {
				l.failf("a keep-alive arrives while %d values are due: %s", n, r.queues())
			}
			r.started = true
			continue
		}
		r.started = true
		if r.p.maxN > 0 && k > int(r.p.maxN) {
			l.failf("a message holds %d values, the maximum is %d", k, r.p.maxN)
		}
		n = r.due()
		if x.MoreNotifications != (n > 0) {
			l.failf("a message of %d values says more: %v, %d values are left: %s", k, x.MoreNotifications, n, r.queues())
		}
		if n > 0 && k != int(r.p.maxN) {
			l.failf("a message holds %d values though %d more are due and the maximum is %d", k, n, r.p.maxN)
		}
		if n > 0 {
			l.label("split")
		}
	}
	for _, m := range r.items {
		m.trig = false
	}
	if r.repeat {
		r.repeat = false
		x := r.publish()
		for _, d := range x.NotificationMessage.NotificationData {
			for _, m := range r.items {
				if m.live && m.mode == ua.MonitoringModeReporting {
					v := r.sample(m)
					m.prev = &v
					m.push(stamp(v, m.ts))
				}
			}
			l.label("resent late")
			for _, mn := range d.(ua.DataChangeNotification).MonitoredItems {
				r.receive(mn)
			}
			if r.due() > 0 {
				l.failf("resending misses %d items: %s", r.due(), r.queues())
			}
		}
	}
}

func (r *monRun) queues() string {
	s := ""
	for i, m := range r.items {
		s += fmt.Sprintf("item %d (mode %d, triggered %v) %d; ", i, m.mode, m.trig, len(m.pend))
	}
	return s
}

func (r *monRun) receive(mn ua.MonitoredItemNotification) {
	l := r.l
	for i, m := range r.items {
		if !m.live || m.handle != mn.ClientHandle {
			continue
		}
		if m.mode != ua.MonitoringModeReporting && !m.trig || m.mode == ua.MonitoringModeDisabled {
			l.failf("item %d in mode %d (not triggered) reports %v", i, m.mode, mn.Value.Value)
		}
		if len(m.pend) == 0 {
			l.failf("item %d reports %v/%s, nothing is due", i, mn.Value.Value, hx(mn.Value.StatusCode))
		}
		want, got := m.pend[0], mn.Value
		if m.attr != ua.AttributeIDValue {
			want.ServerTimestamp, got.ServerTimestamp = time.Time{}, time.Time{}
		}
		if d := ref.Diff(want, got); d != "" {
			l.failf("item %d reports %s", i, d)
		}
		if want.StatusCode&0x80 != 0 {
			l.label("overflow")
		}
		if m.mode != ua.MonitoringModeReporting {
			l.label("triggered")
		}
		m.pend = m.pend[1:]
		return
	}
	l.failf("a value %v arrives for client handle %d, no item has it", mn.Value.Value, mn.ClientHandle)
}

// quiet expects a keep-alive.
func (r *monRun) quiet() {
	x := r.publish()
	if len(x.NotificationMessage.NotificationData) != 0 || x.MoreNotifications {
		r.l.failf("a message with %+v (more: %v) arrives, nothing is due: %s", x.NotificationMessage.NotificationData, x.MoreNotifications, r.queues())
	}
	r.started = true
	for _, m := range r.items {
		if len(m.pend) == 0 {
			m.trig = false
		}
	}
}

func monCheck(what string, laneCount int) func(*kit.C) {
	return func(c *kit.C) {
		n := pick(c.T, "lanes", laneCount, 1, laneCount, 8)
		ps := []monPlan{}
		for i := 0; i < n; i++ {
			if what == "filter" {
				ps = append(ps, filterPlan(c.T))
			} else {
				ps = append(ps, drawPlan(c.T, what))
			}
		}
		lanes(c, ps, monRunPlan)
	}
}

// ---- filters

var numTypes = []struct {
	id ua.NodeID
	k  reflect.Type
}{{ua.DataTypeIDByte, reflect.TypeOf(uint8(0))}, {ua.DataTypeIDSByte, reflect.TypeOf(int8(0))}, {ua.DataTypeIDInt16, reflect.TypeOf(int16(0))}, {ua.DataTypeIDUInt16, reflect.TypeOf(uint16(0))},
	{ua.DataTypeIDInt32, reflect.TypeOf(int32(0))}, {ua.DataTypeIDUInt32, reflect.TypeOf(uint32(0))}, {ua.DataTypeIDInt64, reflect.TypeOf(int64(0))}, {ua.DataTypeIDUInt64, reflect.TypeOf(uint64(0))},
	{ua.DataTypeIDFloat, reflect.TypeOf(float32(0))}, {ua.DataTypeIDDouble, reflect.TypeOf(float64(0))}, {ua.DataTypeIDDuration, reflect.TypeOf(float64(0))}}

// near draws a number of a kind, often close to another one.
func near(t *rapid.T, k reflect.Type, from reflect.Value, dead float64) reflect.Value {
	v := reflect.New(k).Elem()
	how := rapid.IntRange(0, 9).Draw(t, "how")
	step := math.Trunc(dead) + float64(rapid.IntRange(-1, 1).Draw(t, "off"))
	if how == 9 {
		step = float64(rapid.IntRange(-300, 300).Draw(t, "step"))
	}
	if rapid.Bool().Draw(t, "down") {
		step = -step
	}
	switch k.Kind() {
	case reflect.Float32, reflect.Float64:
		switch {
		case how == 0:
			v.SetFloat(pick(t, "ext", 0.0, 1e30, -1e30))
		case how == 1:
			v.Set(from)
		default:
			if math.Abs(from.Float()) > 1e6 {
				v.SetFloat(0)
				break
			}
			v.SetFloat(from.Float() + step + pick(t, "frac", 0, 0, 0.25, -0.25))
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		lo, hi := -int64(1)<<(k.Bits()-1), int64(1)<<(k.Bits()-1)-1
		switch {
		case how == 0:
			v.SetInt(pick(t, "ext", lo, hi, 0, lo+1, hi-1))
		case how == 1:
			v.Set(from)
		default:
			s := new(big.Int).Add(big.NewInt(from.Int()), big.NewInt(int64(step)))
			if !s.IsInt64() || s.Int64() < lo || s.Int64() > hi {
				s.SetInt64(from.Int())
			}
			v.SetInt(s.Int64())
		}
	default:
		hi := uint64(math.MaxUint64) >> (64 - k.Bits())
		switch {
		case how == 0:
			v.SetUint(pick(t, "ext", 0, hi, 1, hi-1, hi/2+1))
		case how == 1:
			v.Set(from)
		default:
			s := new(big.Int).Add(new(big.Int).SetUint64(from.Uint()), big.NewInt(int64(step)))
			if !s.IsUint64() || s.Uint64() > hi {
				s.SetUint64(from.Uint())
			}
			v.SetUint(s.Uint64())
		}
	}
	return v
}

func filterPlan(t *rapid.T) monPlan {
	p := monPlan{maxN: 0}
	n := rapid.IntRange(1, 3).Draw(t, "nodes")
	dead := pick(t, "dead", 0, 0.5, 1, 2, 2.5, 10, 100, 1e12, 1<<40)
	type gn struct {
		k   reflect.Type
		arr bool
		cur reflect.Value
	}
	gs := make([]gn, n)
	next := func(i int) any {
		g := &gs[i]
		if !g.arr {
			g.cur = near(t, g.k, g.cur, dead)
			return g.cur.Interface()
		}
		ln := g.cur.Len()
		switch rapid.IntRange(0, 9).Draw(t, "len") {
		case 0:
			ln = rapid.IntRange(0, 4).Draw(t, "newlen")
		}
		a := reflect.MakeSlice(reflect.SliceOf(g.k), ln, ln)
		which := -1
		if ln > 0 {
			which = rapid.IntRange(-1, ln-1).Draw(t, "elem")
		}
		for j := 0; j < ln; j++ {
			switch {
			case j < g.cur.Len() && j != which:
				a.Index(j).Set(g.cur.Index(j))
			case j < g.cur.Len():
				a.Index(j).Set(near(t, g.k, g.cur.Index(j), dead))
			default:
				a.Index(j).Set(reflect.Zero(g.k))
			}
		}
		g.cur = a
		return a.Interface()
	}
	dv := func(i int) ua.DataValue {
		src := monClock.Add(time.Duration(rapid.IntRange(0, 2).Draw(t, "src")) * time.Second)
		if rapid.IntRange(0, 3).Draw(t, "zone") == 0 {
			src = src.In(time.FixedZone("x", 3600))
		}
		st := pick(t, "status", 0, 0, pick(t, "st", monStatus...))
		return ua.NewDataValue(next(i), st, src, 0, monClock, 0)
	}
	for i := range gs {
		ty := pick(t, "type", numTypes...)
		gs[i] = gn{k: ty.k, arr: rapid.IntRange(0, 2).Draw(t, "arr") == 0}
		mt := monType{ty.id, -1, ty.k.String()}
		if gs[i].arr {
			mt.rank, mt.name = 1, ty.k.String()+"[]"
			gs[i].cur = reflect.MakeSlice(reflect.SliceOf(ty.k), 3, 3)
		} else {
			gs[i].cur = reflect.Zero(ty.k)
		}
		p.types = append(p.types, mt)
		p.init = append(p.init, dv(i))
	}
	for i := rapid.IntRange(1, 4).Draw(t, "items"); i > 0; i-- {
		f := &ua.DataChangeFilter{Trigger: ua.DataChangeTrigger(rapid.IntRange(0, 2).Draw(t, "trigger"))}
		if rapid.IntRange(0, 3).Draw(t, "dead?") > 0 {
			f.DeadbandType, f.DeadbandValue = uint32(ua.DeadbandTypeAbsolute), dead
		}
		if rapid.IntRange(0, 5).Draw(t, "nofilter") == 0 {
			f = nil
		}
		p.items = append(p.items, monItem{node: rapid.IntRange(0, n-1).Draw(t, "node"), attr: ua.AttributeIDValue, handle: uint32(i), qs: 1024, oldest: true, mode: ua.MonitoringModeReporting, ts: ua.TimestampsToReturnBoth, filter: f})
	}
	for r := rapid.IntRange(1, 2).Draw(t, "rounds"); r > 0; r-- {
		ops := []monOp{}
		for k := rapid.IntRange(1, 60).Draw(t, "sets"); k > 0; k-- {
			i := rapid.IntRange(0, n-1).Draw(t, "node")
			ops = append(ops, monOp{kind: "set", a: i, val: dv(i)})
		}
		p.rounds = append(p.rounds, ops)
	}
	return p
}

// refusals: which filters an item accepts when it is created and modified.
func filterRefusal(c *kit.C) {
	t := c.T
	types := []struct {
		id  ua.NodeID
		v   any
		num bool
	}{{ua.DataTypeIDBoolean, true, false}, {ua.DataTypeIDString, "x", false}, {ua.DataTypeIDDateTime, monClock, false}, {ua.DataTypeIDByteString, ua.ByteString("x"), false}, {ua.DataTypeIDGUID, nil, false}, {ua.DataTypeIDNodeID, num(2, 1), false}, {ua.DataTypeIDLocalizedText, lt("x"), false}}
	for _, n := range numTypes {
		types = append(types, struct {
			id  ua.NodeID
			v   any
			num bool
		}{n.id, reflect.Zero(n.k).Interface(), true})
	}
	ty := pick(t, "type", types...)
	attr := pick[uint32](t, "attr", ua.AttributeIDValue, ua.AttributeIDValue, ua.AttributeIDValue, ua.AttributeIDDisplayName, ua.AttributeIDDataType)
	node := w.variable(w.id(t, "id"), ty.v, ty.id, -1, 3)
	defer w.add(node)()
	flt := func(l string) (any, bool) {
		switch rapid.IntRange(0, 4).Draw(t, l) {
		case 0:
			return nil, true
		case 1:
			return ua.DataChangeFilter{Trigger: ua.DataChangeTrigger(rapid.IntRange(0, 2).Draw(t, "tr"))}, attr == ua.AttributeIDValue
		case 2, 3:
			return ua.DataChangeFilter{Trigger: ua.DataChangeTrigger(rapid.IntRange(0, 2).Draw(t, "tr")), DeadbandType: uint32(ua.DeadbandTypeAbsolute), DeadbandValue: 1}, attr == ua.AttributeIDValue && ty.num
		}
		return ua.EventFilter{SelectClauses: []ua.SimpleAttributeOperand{{TypeDefinitionID: ua.ObjectTypeIDBaseEventType, BrowsePath: ua.ParseBrowsePath("Message"), AttributeID: ua.AttributeIDValue}}}, false
	}
	sub := quietSub(c, w.ses)
	f1, ok1 := flt("create")
	x, code := do[ua.CreateMonitoredItemsResponse](c, w.ses, &ua.CreateMonitoredItemsRequest{SubscriptionID: sub, ItemsToCreate: []ua.MonitoredItemCreateRequest{{
		ItemToMonitor: ua.ReadValueID{NodeID: node.NodeID(), AttributeID: attr}, MonitoringMode: ua.MonitoringModeReporting,
		RequestedParameters: ua.MonitoringParameters{ClientHandle: 1, SamplingInterval: 60000, QueueSize: 2, Filter: f1}}}})
	desc := fmt.Sprintf("an item on attribute %d of a variable of type %v with filter %+v", attr, ty.id, f1)
	c.NT(desc)
	if code != 0 || len(x.Results) != 1 {
		c.Failf("creating %s: %s", desc, hx(code))
	}
	s, _ := w.SubscriptionManager().Get(sub)
	if st := x.Results[0].StatusCode; ok1 && st != 0 || !ok1 && st != ua.BadFilterNotAllowed {
		c.Failf("creating %s is answered with %s, the filter applies: %v", desc, hx(st), ok1)
	}
	if !ok1 {
		c.Label("refused")
		return
	}
	id := x.Results[0].MonitoredItemID
	defer s.DeleteItem(id)
	f2, ok2 := flt("modify")
	m, code := do[ua.ModifyMonitoredItemsResponse](c, w.ses, &ua.ModifyMonitoredItemsRequest{SubscriptionID: sub, ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: id,
		RequestedParameters: ua.MonitoringParameters{ClientHandle: 2, SamplingInterval: 50000, QueueSize: 7, Filter: f2}}}})
	if code != 0 || len(m.Results) != 1 {
		c.Failf("modifying %s: %s", desc, hx(code))
	}
	if st := m.Results[0].StatusCode; ok2 && st != 0 || !ok2 && st != ua.BadFilterNotAllowed {
		c.Failf("modifying %s to filter %+v is answered with %s, the filter applies: %v", desc, f2, hx(st), ok2)
	}
	it, ok := s.FindItem(id)
	if !ok {
		c.Failf("%s is gone after a modification", desc)
	}
	want := []uint32{1, 2}
	if ok2 {
		want = []uint32{2, 7}
	}
	if got := []uint32{it.ClientHandle(), it.QueueSize()}; fmt.Sprint(got) != fmt.Sprint(want) {
		c.Failf("%s after a modification to filter %+v (accepted: %v) has client handle and queue size %v, want %v", desc, f2, ok2, got, want)
	}
}

func sortedKeys[K ~int | ~uint32, V any](m map[K]V) []K {
	r := []K{}
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func init() {
	kit.Register(&kit.Check{
		ID:          "C21",
		Rule:        "lanes (session, subscription, variables) with random items (queue sizes, policies, timestamps, ranges, attributes), rounds of random value changes, modifications and queue shrinking, then publishing until the model queue is empty; every delivered value is compared with the model; non-trivial: distinct lane histories",
		Assumptions: []string{"the server is configured to sample as fast as asked and each value set is polled once, so each is a sample", "the order between different items in one message is not judged"},
		Subs: []kit.Sub{{Name: "queue", Quick: 72, Thorough: 6000, Shards: 8, Fn: monCheck("queue", 60), Setup: monSetup, Budget: 40 * time.Second},
			{Name: "sampled", Quick: 8, Thorough: 600, Shards: 2, Fn: sampledCheck(false), Setup: monSetup, Budget: 40 * time.Second}},
	})
	kit.Register(&kit.Check{
		ID:          "C22",
		Rule:        "lanes with random filters and values of every numeric type, scalar and array, drawn at and around the deadband and at the ends of the type, compared with exact arithmetic; filters on nodes they do not apply to must be refused; non-trivial: distinct histories and distinct (node, filter) pairs",
		Assumptions: []string{"percent deadbands, NaN and infinities are not judged", "the low 12 bits of a status are not part of the status that counts as a change"},
		Subs: []kit.Sub{{Name: "changes", Quick: 72, Thorough: 6000, Shards: 6, Fn: monCheck("filter", 60), Setup: monSetup, Budget: 40 * time.Second},
			{Name: "sampled", Quick: 16, Thorough: 600, Shards: 2, Fn: sampledCheck(true), Setup: monSetup, Budget: 40 * time.Second},
			{Name: "refusals", Quick: 3000, Thorough: 60000, Shards: 2, Fn: filterRefusal, Setup: monSetup}},
	})
	kit.Register(&kit.Check{
		ID:          "C25",
		Rule:        "lanes with random monitoring modes, mode changes, triggering links (self links, cycles, duplicates, removals), item deletion and publishing switched off, and lanes mixing event items and value items of one subscription, against a model of what is queued and due; non-trivial: distinct lane histories",
		Assumptions: []string{"a change of a linked item in the same round after its trigger is not generated (whether it precedes the publishing tick is not determined)"},
		Subs: []kit.Sub{{Name: "modes", Quick: 72, Thorough: 6000, Shards: 8, Fn: monCheck("modes", 60), Setup: monSetup, Budget: 40 * time.Second},
			{Name: "mixed", Quick: 32, Thorough: 3000, Shards: 4, Fn: mixCheck, Setup: monSetup, Budget: 30 * time.Second}},
	})
}
