package props

import (
	"fmt"
	"reflect"
	"strings"
	"sync"
	"time"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
	"verif/harness/wire"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// Historical access.

var histOpts = gen.Opts{MaxDepth: 2, MaxLen: 3}

func histRead(c *kit.C) {
	t := c.T
	roles := rapid.IntRange(0, 7).Draw(t, "roles")
	s := w.user(fmt.Sprintf("m%d", roles))
	type target struct {
		id    ua.NodeID
		perms []ua.RolePermissionType
	}
	var ts []target
	var ns []server.Node
	for k := rapid.IntRange(1, 4).Draw(t, "nodes"); k > 0; k-- {
		x := target{id: w.id(t, "id"), perms: drawAccess(t, "p")}
		if rapid.IntRange(0, 1).Draw(t, "open") == 0 {
			x.perms = []ua.RolePermissionType{{RoleID: role(rapid.IntRange(0, 2).Draw(t, "openrole")), Permissions: allPerms}}
		}
		if rapid.IntRange(0, 2).Draw(t, "object") == 0 {
			ns = append(ns, server.NewObjectNode(w.Server, x.id, qn(2, "o"), lt("o"), lt(""), x.perms, objRefs(ua.ObjectIDObjectsFolder), ua.EventNotifierHistoryRead|ua.EventNotifierSubscribeToEvents))
		} else {
			ns = append(ns, server.NewVariableNode(w.Server, x.id, qn(2, "v"), lt("v"), lt(""), x.perms, objRefs(ua.ObjectIDObjectsFolder), ua.NewDataValue(int32(7), 0, time.Now(), 0, time.Now(), 0), ua.DataTypeIDInt32, -1, nil,
				ua.AccessLevelsHistoryRead|ua.AccessLevelsCurrentRead, 0, rapid.Bool().Draw(t, "historizing"), hist))
		}
		ts = append(ts, x)
	}
	defer w.add(ns...)()
	hist.reset()
	kind := pick(t, "kind", "event", "raw", "raw", "processed", "attime", "other")
	var det any
	switch kind {
	case "event":
		det = gen.Value(t, reflect.TypeOf(ua.ReadEventDetails{}), histOpts, 3, "d").Interface()
	case "raw":
		det = gen.Value(t, reflect.TypeOf(ua.ReadRawModifiedDetails{}), histOpts, 3, "d").Interface()
	case "processed":
		det = gen.Value(t, reflect.TypeOf(ua.ReadProcessedDetails{}), histOpts, 3, "d").Interface()
	case "attime":
		det = gen.Value(t, reflect.TypeOf(ua.ReadAtTimeDetails{}), histOpts, 3, "d").Interface()
	default:
		det = pick(t, "other", any(ua.Range{Low: 1}), nil, any(ua.UpdateDataDetails{}), any(ua.DeleteRawModifiedDetails{}))
	}
	req := &ua.HistoryReadRequest{HistoryReadDetails: det, TimestampsToReturn: ua.TimestampsToReturn(pick(t, "ts", 0, 1, 2, 2, 3, 4, 77)), ReleaseContinuationPoints: rapid.Bool().Draw(t, "release")}
	if rapid.IntRange(0, 9).Draw(t, "usual") > 0 {
		req.TimestampsToReturn = ua.TimestampsToReturn(rapid.IntRange(0, 2).Draw(t, "usualts"))
	}
	want := []ua.HistoryReadValueID{}
	var codes []ua.StatusCode
	for k := pick(t, "entries", 1, 2, 3, 8, 0); k > 0; k-- {
		x := ts[rapid.IntRange(0, len(ts)-1).Draw(t, "node")]
		e := gen.Value(t, reflect.TypeOf(ua.HistoryReadValueID{}), histOpts, 3, "e").Interface().(ua.HistoryReadValueID)
		e.NodeID = x.id
		req.NodesToRead = append(req.NodesToRead, e)
		switch {
		case !may(x.perms, roles, ua.PermissionTypeBrowse):
			codes = append(codes, ua.BadNodeIDUnknown)
		case !may(x.perms, roles, ua.PermissionTypeReadHistory):
			codes = append(codes, ua.BadUserAccessDenied)
		default:
			codes = append(codes, 0)
			want = append(want, e)
		}
	}
	status := pick(t, "status", ua.Good, ua.Good, ua.Good, ua.BadHistoryOperationUnsupported, ua.BadUnexpectedError)
	var answers []ua.HistoryReadResult
	for range want {
		a := ua.HistoryReadResult{StatusCode: pick(t, "rs", ua.Good, ua.Good, ua.GoodMoreData, ua.BadNoData, ua.BadContinuationPointInvalid), ContinuationPoint: ua.ByteString(pick(t, "cp", "", "next", "\x00"))}
		switch rapid.IntRange(0, 3).Draw(t, "data") {
		case 0:
			a.HistoryData = gen.Value(t, reflect.TypeOf(ua.HistoryData{}), histOpts, 3, "hd").Interface()
		case 1:
			a.HistoryData = gen.Value(t, reflect.TypeOf(ua.HistoryEvent{}), histOpts, 3, "he").Interface()
		case 2:
			a.HistoryData = ua.HistoryData{DataValues: []ua.DataValue{{Value: int32(len(answers))}}}
		}
		answers = append(answers, a)
	}
	hist.reply = func(i int, _ ua.HistoryReadValueID) ua.HistoryReadResult { return answers[i] }
	hist.status = status
	desc := fmt.Sprintf("roles %03b, %s, timestamps %d, entries %v", roles, kind, req.TimestampsToReturn, codes)
	r, code := do[ua.HistoryReadResponse](c, s, req)
	none := ""
	expect := ua.Good
	switch {
	case req.TimestampsToReturn > 2:
		expect, none = ua.BadInvalidTimestampArgument, "its timestamps argument is bad"
	case len(req.NodesToRead) == 0:
		expect, none = ua.BadNothingToDo, "there is nothing to do"
	case len(want) == 0:
		none = "there is no permitted entry"
		if kind == "other" && code == ua.BadHistoryOperationInvalid {
			expect = code
		}
	case kind == "other":
		expect, none = ua.BadHistoryOperationInvalid, "its details are of another kind"
	default:
		expect = status
	}
	if code != expect {
		c.Failf("%s: answered with %s, want %s", desc, hx(code), hx(expect))
	}
	if none != "" {
		if len(hist.calls) != 0 {
			c.Failf("%s: the historian is asked although %s", desc, none)
		}
	} else {
		if len(hist.calls) != 1 || hist.calls[0] != kind {
			c.Failf("%s: the historian is called as %v", desc, hist.calls)
		}
		if d := ref.Diff(hist.nodes, want); d != "" {
			c.Failf("%s: the historian gets other entries: %s", desc, d)
		}
		if d := ref.Diff(hist.det, det); d != "" {
			c.Failf("%s: the historian gets other details: %s", desc, d)
		}
		if hist.ts != req.TimestampsToReturn || hist.relse != req.ReleaseContinuationPoints {
			c.Failf("%s: the historian gets timestamps %d, release %v, sent %v", desc, hist.ts, hist.relse, req.ReleaseContinuationPoints)
		}
	}
	if expect == 0 {
		if len(r.Results) != len(codes) {
			c.Failf("%s: %d results", desc, len(r.Results))
		}
		j := 0
		for i, x := range codes {
			a := ua.HistoryReadResult{StatusCode: x}
			if x == 0 {
				a = answers[j]
				j++
			}
			if d := ref.Diff(r.Results[i], a); d != "" {
				c.Failf("%s: result %d is %+v, want %+v: %s", desc, i, r.Results[i], a, d)
			}
		}
	}
	c.Label(kind)
	if len(want) > 0 {
		c.NT(desc + fmt.Sprint(len(hist.calls)))
	}
}

// histNone asks a server without historian.
func histNone(c *kit.C) {
	t := c.T
	req := &ua.HistoryReadRequest{TimestampsToReturn: ua.TimestampsToReturn(rapid.IntRange(0, 2).Draw(t, "ts"))}
	req.HistoryReadDetails = pick(t, "details", any(ua.ReadEventDetails{}), any(ua.ReadRawModifiedDetails{}), any(ua.ReadProcessedDetails{}), any(ua.ReadAtTimeDetails{}), nil)
	for k := rapid.IntRange(1, 4).Draw(t, "n"); k > 0; k-- {
		req.NodesToRead = append(req.NodesToRead, ua.HistoryReadValueID{NodeID: pick[ua.NodeID](t, "node", ua.VariableIDServerServerStatusState, ua.ObjectIDServer, ua.NewNodeIDNumeric(2, 77))})
	}
	if _, code := do[ua.HistoryReadResponse](c, w.ses, req); code != ua.BadHistoryOperationUnsupported {
		c.Failf("a server without historian answers %T with %s", req.HistoryReadDetails, hx(code))
	}
	c.NT(fmt.Sprintf("%T %v", req.HistoryReadDetails, req.NodesToRead))
}

// histWrite follows what is offered to the historian.
func histWrite(c *kit.C) {
	t := c.T
	hist.reset()
	type hv struct {
		n     *server.VariableNode
		on    bool
		has   bool
		hand  string
		cur   []int32
		model []ua.DataValue
	}
	var vs []*hv
	var ns []server.Node
	for k := rapid.IntRange(1, 3).Draw(t, "variables"); k > 0; k-- {
		x := &hv{on: rapid.IntRange(0, 3).Draw(t, "on") > 0, has: rapid.IntRange(0, 4).Draw(t, "has") > 0, hand: pick(t, "handler", "", "", "double", "refuse"), cur: []int32{0, 0, 0}}
		var h server.HistoryReadWriter
		if x.has {
			h = hist
		}
		now := time.Now()
		x.n = server.NewVariableNode(w.Server, w.id(t, "id"), qn(2, "v"), lt("v"), lt(""), nil, objRefs(ua.ObjectIDObjectsFolder), ua.NewDataValue(x.cur, 0, now, 0, now, 0), ua.DataTypeIDInt32, 1, nil,
			ua.AccessLevelsCurrentRead|ua.AccessLevelsCurrentWrite|ua.AccessLevelsStatusWrite, 0, x.on, h)
		switch x.hand {
		case "double":
			x.n.SetWriteValueHandler(func(_ *server.Session, v ua.WriteValue) (ua.DataValue, ua.StatusCode) {
				d := v.Value
				a, _ := d.Value.([]int32)
				d.Value = append(append([]int32{}, a...), a...)
				return d, 0
			})
		case "refuse":
			x.n.SetWriteValueHandler(func(*server.Session, ua.WriteValue) (ua.DataValue, ua.StatusCode) {
				return ua.DataValue{}, ua.BadOutOfRange
			})
		}
		vs, ns = append(vs, x), append(ns, x.n)
	}
	defer w.add(ns...)()
	steps := []string{}
	note := func(f string, a ...any) { steps = append(steps, fmt.Sprintf(f, a...)) }
	failf := func(f string, a ...any) { c.Failf("%s (%s)", fmt.Sprintf(f, a...), strings.Join(steps, "; ")) }
	for i, x := range vs {
		note("variable %d historizing %v, with historian %v, handler %q", i, x.on, x.has, x.hand)
	}
	offered := 0
	for k := rapid.IntRange(1, 14).Draw(t, "steps"); k > 0; k-- {
		i := rapid.IntRange(0, len(vs)-1).Draw(t, "var")
		x := vs[i]
		val := []int32{rapid.Int32().Draw(t, "a"), rapid.Int32().Draw(t, "b"), int32(k)}
		st := pick(t, "st", ua.Good, ua.Good, ua.UncertainInitialValue, ua.BadNotConnected)
		took := false
		write := func(v any, rng string) ua.StatusCode {
			r, code := do[ua.WriteResponse](c, w.ses, &ua.WriteRequest{NodesToWrite: []ua.WriteValue{{NodeID: x.n.NodeID(), AttributeID: ua.AttributeIDValue, IndexRange: rng, Value: ua.DataValue{Value: v, StatusCode: st}}}})
			if code != 0 || len(r.Results) != 1 {
				failf("a write is answered with %s", hx(code))
			}
			return r.Results[0]
		}
		switch rapid.IntRange(0, 8).Draw(t, "step") {
		case 0, 1:
			note("%d: set to %v", i, val)
			x.n.SetValue(ua.NewDataValue(val, st, time.Now(), 0, time.Now(), 0))
			took = true
		default:
			note("%d: write %v", i, val)
			took = write(val, "") == 0
			if took == (x.hand == "refuse") {
				failf("the write is accepted: %v", took)
			}
		case 4:
			note("%d: write %d to element 1", i, val[0])
			took = write(val[:1], "1") == 0
		case 5:
			note("%d: write a text", i)
			if write("text", "") == 0 {
				failf("a text is accepted")
			}
		case 6:
			note("%d: write outside", i)
			if x.hand == "" && write(val[:1], "77") == 0 {
				failf("an element that does not exist is written")
			}
		case 7:
			x.on = rapid.Bool().Draw(t, "switch")
			note("%d: historizing %v", i, x.on)
			x.n.SetHistorizing(x.on)
		case 8:
			x.on = rapid.Bool().Draw(t, "switch")
			note("%d: write historizing %v", i, x.on)
			r, code := do[ua.WriteResponse](c, w.ses, &ua.WriteRequest{NodesToWrite: []ua.WriteValue{{NodeID: x.n.NodeID(), AttributeID: ua.AttributeIDHistorizing, Value: ua.DataValue{Value: x.on}}}})
			if code != 0 || r.Results[0] != 0 {
				failf("writing historizing is answered with %s", hx(code))
			}
		}
		if took && x.on && x.has {
			x.model = append(x.model, x.n.Value())
			offered++
		}
		if len(hist.wrote) != offered {
			failf("%d values were offered to the historian, want %d", len(hist.wrote), offered)
		}
	}
	got := map[ua.NodeID][]ua.DataValue{}
	for i, id := range hist.wroteI {
		got[id] = append(got[id], hist.wrote[i])
	}
	for i, x := range vs {
		if d := ref.Diff(got[x.n.NodeID()], x.model); d != "" {
			failf("the historian of variable %d got %v, want %v: %s", i, got[x.n.NodeID()], x.model, d)
		}
	}
	if offered > 0 {
		c.NT(strings.Join(steps, ";"))
	}
}

// histRace writes from several sides at once.
func histRace(c *kit.C) {
	t := c.T
	hist.reset()
	now := time.Now()
	n := server.NewVariableNode(w.Server, w.id(t, "id"), qn(2, "v"), lt("v"), lt(""), nil, objRefs(ua.ObjectIDObjectsFolder), ua.NewDataValue(int32(0), 0, now, 0, now, 0), ua.DataTypeIDInt32, -1, nil,
		ua.AccessLevelsCurrentRead|ua.AccessLevelsCurrentWrite, 0, true, hist)
	defer w.add(n)()
	actors := rapid.IntRange(2, 5).Draw(t, "actors")
	per := rapid.IntRange(5, 60).Draw(t, "each")
	batch := pick(t, "batch", 1, 1, 4)
	apps := rapid.IntRange(0, 2).Draw(t, "apps")
	var wg sync.WaitGroup
	errs := make([]error, actors)
	for a := 0; a < actors; a++ {
		var s *wire.Session
		if a >= apps {
			s = linSession(a)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < per; k += batch {
				if s == nil {
					for b := 0; b < batch; b++ {
						n.SetValue(ua.NewDataValue(int32(a*10000+k+b), 0, time.Now(), 0, time.Now(), 0))
					}
					continue
				}
				req := &ua.WriteRequest{RequestHeader: s.Header()}
				for b := 0; b < batch; b++ {
					req.NodesToWrite = append(req.NodesToWrite, ua.WriteValue{NodeID: n.NodeID(), AttributeID: ua.AttributeIDValue, Value: ua.DataValue{Value: int32(a*10000 + k + b)}})
				}
				r, err := wire.Do[ua.WriteResponse](s, req)
				if err == nil {
					for _, x := range r.Results {
						if x != 0 {
							err = fmt.Errorf("status %s", hx(x))
						}
					}
				}
				if err != nil {
					errs[a] = err
					return
				}
			}
		}()
	}
	wg.Wait()
	desc := fmt.Sprintf("%d actors (%d of the application) write %d values each, %d at once", actors, apps, per, batch)
	for a, e := range errs {
		if e != nil {
			c.Failf("actor %d: %v (%s)", a, e, desc)
		}
	}
	total := (per + batch - 1) / batch * batch
	// The entries of one request may be executed in any order.
	next := make([]int, actors)
	seen := map[int]bool{}
	for i, d := range hist.wrote {
		v, ok := d.Value.(int32)
		a, k := int(v)/10000, int(v)%10000
		width := batch
		if a < apps {
			width = 1
		}
		if !ok || a >= actors || k/width != next[a]/width || seen[int(v)] {
			c.Hardf("value %d offered to the historian is %v, so far it got %v values of its writers (%s)", i, d.Value, next, desc)
		}
		seen[int(v)] = true
		next[a]++
	}
	for a, k := range next {
		if k != total {
			c.Hardf("the historian got %d values of actor %d, want %d (%s)", k, a, total, desc)
		}
	}
	if d := ref.Diff(n.Value(), hist.wrote[len(hist.wrote)-1]); d != "" {
		c.Hardf("the last value offered to the historian is not the value of the variable: %s (%s)", d, desc)
	}
	c.NT(desc)
}

func init() {
	kit.Register(&kit.Check{
		ID:          "C32",
		Rule:        "read: nodes with random permissions, all kinds of details with random contents, random entries and historian results; what the historian is asked and what comes back is compared with the permission model; none: the same without historian; write: histories of values set by the application, written (whole, in part, refused, through handlers) and of the historizing attribute against a model of what is offered; race: several writers at once; non-trivial: reads with permitted entries, histories that offer a value, distinct races",
		Assumptions: []string{"the historian of the server is the one that reads; the access level is not judged; entries for unknown nodes are not judged"},
		Subs: []kit.Sub{{Name: "read", Quick: 24000, Thorough: 500000, Shards: 3, Fn: histRead, Setup: setup(server.WithHistorian(hist))},
			{Name: "none", Quick: 500, Thorough: 5000, Shards: 1, Fn: histNone, Setup: setup()},
			{Name: "write", Quick: 24000, Thorough: 500000, Shards: 3, Fn: histWrite, Setup: setup(server.WithHistorian(hist))},
			{Name: "race", Quick: 4000, Thorough: 50000, Shards: 1, Fn: histRace, Setup: setup(server.WithHistorian(hist))}},
	})
}
