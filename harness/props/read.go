package props

import (
	"fmt"
	"sort"
	"time"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

var valOpts = gen.Opts{MaxDepth: 2, MaxLen: 6}

// mnode is what the model knows of a node: its attributes as Part 3 and 4 define them.
type mnode struct {
	id    ua.NodeID
	class ua.NodeClass
	attrs map[uint32]any
	value ua.DataValue // Value attribute
	acc   byte
	hand  bool // values come from a handler
	node  server.Node
}

func (m *mnode) String() string { return fmt.Sprintf("%v class %d", m.id, m.class) }

func drawTime(t *rapid.T, l string) time.Time {
	return tick(time.Unix(rapid.Int64Range(0, 4e9).Draw(t, l), rapid.Int64Range(0, 999999999).Draw(t, l)).UTC())
}

// newNode draws a node of a random class together with the model of its attributes.
func (w *world) newNode(t *rapid.T, l string) *mnode {
	id := w.id(t, l+"id")
	bn := qn(pick(t, l+"ns", uint16(0), 2, 3), gen.Str(t, valOpts, l+"bn"))
	dn := ua.NewLocalizedText(gen.Str(t, valOpts, l+"dn"), pick(t, l+"loc", "", "en", "de"))
	ds := ua.NewLocalizedText(gen.Str(t, valOpts, l+"ds"), pick(t, l+"loc2", "", "fr"))
	rp := []ua.RolePermissionType{{RoleID: role(0), Permissions: allPerms}, {RoleID: role(3), Permissions: ua.PermissionType(rapid.IntRange(0, 0x1FFFF).Draw(t, l+"perm"))}}
	m := &mnode{id: id, attrs: map[uint32]any{}}
	m.attrs[ua.AttributeIDNodeID] = id
	m.attrs[ua.AttributeIDBrowseName] = bn
	m.attrs[ua.AttributeIDDisplayName] = dn
	m.attrs[ua.AttributeIDDescription] = ds
	if rapid.IntRange(0, 2).Draw(t, l+"rp") == 0 {
		rp = nil // the server's defaults
		m.attrs[ua.AttributeIDRolePermissions] = []ua.ExtensionObject{}
		m.attrs[ua.AttributeIDUserRolePermissions] = []ua.ExtensionObject{ua.RolePermissionType{RoleID: role(0), Permissions: allPerms}}
	} else {
		m.attrs[ua.AttributeIDRolePermissions] = []ua.ExtensionObject{rp[0], rp[1]}
		m.attrs[ua.AttributeIDUserRolePermissions] = []ua.ExtensionObject{rp[0]}
	}
	refs := objRefs(ua.ObjectIDObjectsFolder)
	abs := rapid.Bool().Draw(t, l+"abs")
	switch rapid.IntRange(0, 8).Draw(t, l+"class") {
	case 0:
		ev := byte(gen.Uint(t, 8, l+"ev"))
		m.class = ua.NodeClassObject
		m.attrs[ua.AttributeIDEventNotifier] = ev
		m.node = server.NewObjectNode(w.Server, id, bn, dn, ds, rp, refs, ev)
	case 1:
		m.class = ua.NodeClassMethod
		m.attrs[ua.AttributeIDExecutable] = abs
		m.attrs[ua.AttributeIDUserExecutable] = abs
		m.node = server.NewMethodNode(w.Server, id, bn, dn, ds, rp, refs, abs)
	case 2:
		m.class = ua.NodeClassObjectType
		m.attrs[ua.AttributeIDIsAbstract] = abs
		m.node = server.NewObjectTypeNode(w.Server, id, bn, dn, ds, rp, refs, abs)
	case 3:
		m.class = ua.NodeClassReferenceType
		sym := rapid.Bool().Draw(t, l+"sym")
		inv := ua.NewLocalizedText(gen.Str(t, valOpts, l+"inv"), "en")
		m.attrs[ua.AttributeIDIsAbstract] = abs
		m.attrs[ua.AttributeIDSymmetric] = sym
		m.attrs[ua.AttributeIDInverseName] = inv
		m.node = server.NewReferenceTypeNode(w.Server, id, bn, dn, ds, rp, refs, abs, sym, inv)
	case 4:
		m.class = ua.NodeClassDataType
		m.attrs[ua.AttributeIDIsAbstract] = abs
		var def any
		switch rapid.IntRange(0, 2).Draw(t, l+"def") {
		case 0:
			def = ua.EnumDefinition{Fields: []ua.EnumField{{Name: gen.Str(t, valOpts, l+"fn"), Value: int64(gen.Uint(t, 64, l+"fv"))}}}
		case 1:
			def = ua.StructureDefinition{BaseDataType: ua.DataTypeIDStructure, Fields: []ua.StructureField{{Name: "f", DataType: ua.DataTypeIDInt32, ValueRank: -1}}}
		}
		if def != nil {
			m.attrs[ua.AttributeIDDataTypeDefinition] = def
		}
		m.node = server.NewDataTypeNode(w.Server, id, bn, dn, ds, rp, refs, abs, def)
	case 5:
		m.class = ua.NodeClassView
		ev := byte(gen.Uint(t, 8, l+"ev"))
		m.attrs[ua.AttributeIDContainsNoLoops] = abs
		m.attrs[ua.AttributeIDEventNotifier] = ev
		m.node = server.NewViewNode(w.Server, id, bn, dn, ds, rp, refs, abs, ev)
	case 6:
		m.class = ua.NodeClassVariableType
		dt := pick(t, l+"dt", ua.DataTypeIDInt32, ua.DataTypeIDString, ua.DataTypeIDBaseDataType)
		rank := int32(rapid.IntRange(-3, 3).Draw(t, l+"rank"))
		dims := []uint32{uint32(gen.Uint(t, 32, l+"dim")), 0}
		m.attrs[ua.AttributeIDIsAbstract] = abs
		m.attrs[ua.AttributeIDDataType] = dt
		m.attrs[ua.AttributeIDValueRank] = rank
		m.attrs[ua.AttributeIDArrayDimensions] = dims
		m.node = server.NewVariableTypeNode(w.Server, id, bn, dn, ds, rp, refs, ua.NewDataValue(nil, 0, time.Time{}, 0, time.Time{}, 0), dt, rank, dims, abs)
	default:
		m.class = ua.NodeClassVariable
		dt := pick(t, l+"dt", ua.DataTypeIDInt32, ua.DataTypeIDString, ua.DataTypeIDBaseDataType)
		rank := int32(rapid.IntRange(-3, 3).Draw(t, l+"rank"))
		dims := []uint32{uint32(gen.Uint(t, 32, l+"dim"))}
		m.acc = byte(rapid.IntRange(0, 255).Draw(t, l+"acc"))
		if rapid.IntRange(0, 3).Draw(t, l+"readable") > 0 {
			m.acc |= 1
		}
		msi := gen.Float64(t, l+"msi")
		hz := rapid.Bool().Draw(t, l+"hz")
		m.value = ua.NewDataValue(gen.Variant(t, valOpts, 0, l+"val"), ua.StatusCode(pick(t, l+"sc", 0, 0, 0x40000000, 0x80000000|uint32(rapid.IntRange(0, 0x200).Draw(t, l+"sb"))<<16)),
			drawTime(t, l+"st"), 0, drawTime(t, l+"vt"), 0)
		m.attrs[ua.AttributeIDDataType] = dt
		m.attrs[ua.AttributeIDValueRank] = rank
		m.attrs[ua.AttributeIDArrayDimensions] = dims
		m.attrs[ua.AttributeIDAccessLevel] = m.acc
		m.attrs[ua.AttributeIDUserAccessLevel] = m.acc
		m.attrs[ua.AttributeIDMinimumSamplingInterval] = msi
		m.attrs[ua.AttributeIDHistorizing] = hz
		vn := server.NewVariableNode(w.Server, id, bn, dn, ds, rp, refs, m.value, dt, rank, dims, m.acc, msi, hz, nil)
		if rapid.IntRange(0, 4).Draw(t, l+"hand") == 0 {
			m.hand = true
			vn.SetValue(ua.NewDataValue("not this", 0, time.Time{}, 0, time.Time{}, 0))
			vn.SetReadValueHandler(func(s *server.Session, r ua.ReadValueID) ua.DataValue {
				if r.NodeID != id || r.AttributeID != ua.AttributeIDValue {
					return ua.NewDataValue(fmt.Sprintf("handler of %v called for %v", id, r.NodeID), 0, time.Time{}, 0, time.Time{}, 0)
				}
				return m.value
			})
		}
		m.node = vn
	}
	m.attrs[ua.AttributeIDNodeClass] = int32(m.class)
	return m
}

// sel applies a timestamp selection.
func sel(d ua.DataValue, ts ua.TimestampsToReturn) ua.DataValue {
	if ts != ua.TimestampsToReturnSource && ts != ua.TimestampsToReturnBoth {
		d.SourceTimestamp = time.Time{}
	}
	if ts != ua.TimestampsToReturnServer && ts != ua.TimestampsToReturnBoth {
		d.ServerTimestamp = time.Time{}
	}
	return d
}

// expectRead gives the value of an attribute or the statuses that may be reported instead. isVal: the
// timestamps are those of the variable.
func (m *mnode) expectRead(attr uint32) (d ua.DataValue, bad []ua.StatusCode, isVal bool) {
	if attr == ua.AttributeIDValue {
		if m.class != ua.NodeClassVariable {
			return d, []ua.StatusCode{ua.BadAttributeIDInvalid}, false
		}
		if m.acc&1 == 0 {
			return d, []ua.StatusCode{ua.BadNotReadable}, false
		}
		return m.value, nil, true
	}
	v, ok := m.attrs[attr]
	if !ok {
		return d, []ua.StatusCode{ua.BadAttributeIDInvalid}, false
	}
	d.Value = v
	return d, nil, false
}

type readItem struct {
	m    *mnode // nil: unknown
	rv   ua.ReadValueID
	desc string
}

func drawAttr(t *rapid.T, l string) uint32 {
	switch rapid.IntRange(0, 9).Draw(t, l) {
	case 0, 1, 2:
		return ua.AttributeIDValue
	case 3:
		return uint32(gen.Uint(t, 32, l+"any"))
	default:
		return uint32(rapid.IntRange(1, 27).Draw(t, l+"attr"))
	}
}

func readCheck(c *kit.C) {
	t := c.T
	nodes := []*mnode{}
	ns := []server.Node{}
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "nodes"); i < n; i++ {
		m := w.newNode(t, fmt.Sprintf("n%d", i))
		nodes = append(nodes, m)
		ns = append(ns, m.node)
	}
	defer w.add(ns...)()
	n := rapid.IntRange(0, 12).Draw(t, "len")
	if rapid.IntRange(0, 9).Draw(t, "big") == 0 {
		n = rapid.IntRange(readLimit-2, readLimit+3).Draw(t, "biglen")
	}
	req := &ua.ReadRequest{MaxAge: pick(t, "maxage", 0.0, 0, 0, 1000, 1e18, -0.5, -1e18), TimestampsToReturn: ua.TimestampsToReturn(pick(t, "ts", 0, 0, 1, 2, 3, 3, 3, 4, -1, 77))}
	if rapid.IntRange(0, 2).Draw(t, "sane") > 0 {
		req.MaxAge, req.TimestampsToReturn = 0, ua.TimestampsToReturn(rapid.IntRange(0, 3).Draw(t, "ts2"))
	}
	items := []readItem{}
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("i%d", i)
		it := readItem{}
		if n > 20 {
			it.m = nodes[i%len(nodes)]
			it.rv = ua.ReadValueID{NodeID: it.m.id, AttributeID: uint32(1 + i%27)}
		} else {
			if k := rapid.IntRange(-1, len(nodes)-1).Draw(t, l+"node"); k >= 0 {
				it.m = nodes[k]
				it.rv.NodeID = it.m.id
			} else {
				it.rv.NodeID = pick[ua.NodeID](t, l+"unk", nil, ua.NewNodeIDString(2, "nope"), ua.NewNodeIDNumeric(7, 85), ua.NewNodeIDNumeric(2, 85))
			}
			it.rv.AttributeID = drawAttr(t, l)
			if rapid.IntRange(0, 9).Draw(t, l+"enc") == 0 {
				it.rv.DataEncoding = qn(0, "Default XML")
			}
			if rapid.IntRange(0, 7).Draw(t, l+"rng") == 0 && it.rv.AttributeID != ua.AttributeIDValue {
				it.rv.IndexRange = "0"
			}
		}
		items = append(items, it)
		req.NodesToRead = append(req.NodesToRead, it.rv)
	}
	refuse := []ua.StatusCode{}
	if req.MaxAge < 0 {
		refuse = append(refuse, ua.BadMaxAgeInvalid)
	}
	if req.TimestampsToReturn < 0 || req.TimestampsToReturn > 3 {
		refuse = append(refuse, ua.BadTimestampsToReturnInvalid)
	}
	if n == 0 {
		refuse = append(refuse, ua.BadNothingToDo)
	}
	if n > readLimit {
		refuse = append(refuse, ua.BadTooManyOperations)
	}
	c.Note("read %d items", n)
	t0 := time.Now().Add(-time.Millisecond)
	r, code := do[ua.ReadResponse](c, w.ses, req)
	t1 := time.Now().Add(time.Millisecond)
	if len(refuse) > 0 {
		c.NT(fmt.Sprintf("refuse %v %d %v", req.MaxAge, req.TimestampsToReturn, n))
		c.Label("refused")
		if !in(code, refuse...) {
			c.Failf("read of %d entries, max age %v, timestamps %d: answered %s, want one of %x", n, req.MaxAge, req.TimestampsToReturn, hx(code), refuse)
		}
		return
	}
	if code != 0 {
		c.Failf("read of %d entries refused with %s", n, hx(code))
	}
	if len(r.Results) != n {
		c.Failf("%d results for %d entries", len(r.Results), n)
	}
	for i, it := range items {
		got := r.Results[i]
		where := fmt.Sprintf("entry %d, %v attribute %d (encoding %q, range %q), timestamps %d", i, it.rv.NodeID, it.rv.AttributeID, it.rv.DataEncoding.Name, it.rv.IndexRange, req.TimestampsToReturn)
		var bad []ua.StatusCode
		if it.rv.DataEncoding.Name != "" {
			bad = append(bad, ua.BadDataEncodingInvalid)
		}
		if it.rv.IndexRange != "" {
			bad = append(bad, ua.BadIndexRangeNoData)
		}
		var want ua.DataValue
		isVal := false
		if it.m == nil {
			bad = append(bad, ua.BadNodeIDUnknown)
		} else {
			var b []ua.StatusCode
			want, b, isVal = it.m.expectRead(it.rv.AttributeID)
			bad = append(bad, b...)
		}
		if len(bad) > 0 {
			c.NT(fmt.Sprintf("bad %x attr %d", bad, it.rv.AttributeID))
			if !in(got.StatusCode, bad...) || got.Value != nil {
				c.Failf("%s: got %v (%s), want one of %x", where, got.Value, hx(got.StatusCode), bad)
			}
			continue
		}
		c.NT(fmt.Sprintf("%d/%d: %.200v", it.m.class, it.rv.AttributeID, want.Value))
		if !isVal {
			if !got.SourceTimestamp.IsZero() {
				c.Failf("%s: has a source timestamp %v", where, got.SourceTimestamp)
			}
			st := req.TimestampsToReturn == ua.TimestampsToReturnServer || req.TimestampsToReturn == ua.TimestampsToReturnBoth
			if st && (got.ServerTimestamp.Before(t0) || got.ServerTimestamp.After(t1)) {
				c.Failf("%s: server timestamp %v not between %v and %v", where, got.ServerTimestamp, t0, t1)
			}
			if !st && !got.ServerTimestamp.IsZero() {
				c.Failf("%s: unrequested server timestamp %v", where, got.ServerTimestamp)
			}
			got.ServerTimestamp = time.Time{}
		} else {
			want = sel(want, req.TimestampsToReturn)
		}
		if d := ref.Diff(want, got); d != "" {
			c.Failf("%s: got %#v, want %#v: %s", where, got, want, d)
		}
	}
}

const readLimit = 60

// readStandard reads nodes of the standard address space and compares with the nodes themselves.
var stdNodes []server.Node

func stdSetup() func() {
	f := setup()()
	for i := uint32(1); i < 20000; i++ {
		if n, ok := w.NamespaceManager().FindNode(ua.NewNodeIDNumeric(0, i)); ok {
			stdNodes = append(stdNodes, n)
		}
	}
	sort.Slice(stdNodes, func(i, j int) bool { return fmt.Sprint(stdNodes[i].NodeID()) < fmt.Sprint(stdNodes[j].NodeID()) })
	return f
}

func readStandard(c *kit.C) {
	t := c.T
	n := rapid.SampledFrom(stdNodes).Draw(t, "node")
	req := &ua.ReadRequest{TimestampsToReturn: ua.TimestampsToReturnNeither}
	want := []any{}
	push := func(a uint32, v any) {
		req.NodesToRead = append(req.NodesToRead, ua.ReadValueID{NodeID: n.NodeID(), AttributeID: a})
		want = append(want, v)
	}
	push(ua.AttributeIDNodeID, n.NodeID())
	push(ua.AttributeIDNodeClass, int32(n.NodeClass()))
	push(ua.AttributeIDBrowseName, n.BrowseName())
	push(ua.AttributeIDDisplayName, n.DisplayName())
	push(ua.AttributeIDDescription, n.Description())
	switch x := n.(type) {
	case *server.VariableNode:
		push(ua.AttributeIDDataType, x.DataType())
		push(ua.AttributeIDValueRank, x.ValueRank())
		push(ua.AttributeIDAccessLevel, x.AccessLevel())
		push(ua.AttributeIDMinimumSamplingInterval, x.MinimumSamplingInterval())
	case *server.ReferenceTypeNode:
		push(ua.AttributeIDIsAbstract, x.IsAbstract())
		push(ua.AttributeIDInverseName, x.InverseName())
	case *server.ObjectTypeNode:
		push(ua.AttributeIDIsAbstract, x.IsAbstract())
	case *server.DataTypeNode:
		push(ua.AttributeIDIsAbstract, x.IsAbstract())
	case *server.ObjectNode:
		push(ua.AttributeIDEventNotifier, x.EventNotifier())
	case *server.MethodNode:
		push(ua.AttributeIDExecutable, x.Executable())
	}
	perm := rapid.Permutation(func() (p []int) {
		for i := range want {
			p = append(p, i)
		}
		return
	}()).Draw(t, "order")
	q := &ua.ReadRequest{TimestampsToReturn: req.TimestampsToReturn}
	for _, p := range perm {
		q.NodesToRead = append(q.NodesToRead, req.NodesToRead[p])
	}
	r, code := do[ua.ReadResponse](c, w.ses, q)
	if code != 0 || len(r.Results) != len(perm) {
		c.Failf("reading %v: %s", n.NodeID(), hx(code))
	}
	c.NT(fmt.Sprint(n.NodeID()))
	for i, p := range perm {
		if d := ref.Diff(ua.DataValue{Value: want[p]}, r.Results[i]); d != "" {
			c.Failf("attribute %d of %v: got %#v, the node has %#v: %s", q.NodesToRead[i].AttributeID, n.NodeID(), r.Results[i], want[p], d)
		}
	}
}

func init() {
	caps := ua.NewServerCapabilities()
	caps.OperationLimits.MaxNodesPerRead = readLimit
	kit.Register(&kit.Check{
		ID:          "C14",
		Rule:        "nodes of every class with random attributes are added, read over the wire in random lists (any attribute id, duplicates, unknown nodes, encodings, ranges, selectors, list sizes around the operation limit) and each result is compared with the model of that node; a second sub-check reads random standard nodes; non-trivial: every result judged, distinct by class, attribute and value",
		Assumptions: []string{"picoseconds are zero", "a variable's own server timestamp is the one reported for its value"},
		Subs: []kit.Sub{
			{Name: "model", Quick: 60000, Thorough: 1500000, Shards: 4, Fn: readCheck, Setup: setup(server.WithServerCapabilities(caps))},
			{Name: "standard", Quick: 20000, Thorough: 300000, Shards: 2, Fn: readStandard, Setup: stdSetup},
		},
	})
}
