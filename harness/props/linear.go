package props

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/kit"
	"verif/harness/wire"

	"github.com/anishathalye/porcupine"
	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// Concurrent reads and writes of variables.

const linLen = 4

// linOp is one operation and what came of it.
type linOp struct {
	kind   byte // W: write all, P: write a part, S: application sets, R: read all, Q: read a part, V: application reads
	vr     int
	i, j   int
	val    int32
	st     ua.StatusCode
	ts     int64 // ticks, for S; the observed one for reads
	ss     int64 // the same for the server's
	out    []int32
	lo, hi int64 // wall clock around the operation
}

func (o linOp) String() string {
	switch o.kind {
	case 'W', 'S':
		return fmt.Sprintf("%c%d(%d,%x)", o.kind, o.vr, o.val, uint32(o.st))
	case 'P':
		return fmt.Sprintf("P%d[%d:%d](%d,%x)", o.vr, o.i, o.j, o.val, uint32(o.st))
	case 'Q':
		return fmt.Sprintf("Q%d[%d:%d]", o.vr, o.i, o.j)
	}
	return fmt.Sprintf("%c%d", o.kind, o.vr)
}

func (o linOp) result() string {
	if in(o.kind, 'R', 'Q', 'V') {
		return fmt.Sprintf("%s=%v,%x,%d", o, o.out, uint32(o.st), o.ts%1e9)
	}
	return o.String()
}

type linState struct {
	v      [linLen]int32
	st     ua.StatusCode
	ts, ss int64 // -1: not seen yet
	lo, hi int64
}

var linModel = porcupine.Model{
	Init: func() any { return linState{} },
	Step: func(state, input, _ any) (bool, any) {
		s, o := state.(linState), input.(linOp)
		switch o.kind {
		case 'W', 'S':
			for k := range s.v {
				s.v[k] = o.val
			}
		case 'P':
			for k := o.i; k < o.j; k++ {
				s.v[k] = o.val
			}
		}
		switch o.kind {
		case 'W', 'P':
			s.st, s.ts, s.ss, s.lo, s.hi = o.st, -1, -1, o.lo, o.hi
			return true, s
		case 'S':
			s.st, s.ts, s.ss, s.lo, s.hi = o.st, o.ts, o.ss, 0, 0
			return true, s
		}
		if len(o.out) != o.j-o.i || o.st != s.st {
			return false, s
		}
		for k := range o.out {
			if o.out[k] != s.v[o.i+k] {
				return false, s
			}
		}
		bind := func(have *int64, seen int64) bool {
			if *have == -1 {
				if seen < s.lo || seen > s.hi {
					return false
				}
				*have = seen
			}
			return *have == seen
		}
		ok := bind(&s.ts, o.ts) && bind(&s.ss, o.ss)
		return ok, s
	},
	Equal: func(a, b any) bool { return a.(linState) == b.(linState) },
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[int][]porcupine.Operation{}
		for _, o := range h {
			v := o.Input.(linOp).vr
			m[v] = append(m[v], o)
		}
		var r [][]porcupine.Operation
		for _, x := range m {
			r = append(r, x)
		}
		return r
	},
}

func linTick(t time.Time) int64 { return t.UnixNano() / 100 }

type linStep struct {
	app   bool
	write bool
	ops   []linOp
	spin  int
}

func linCheck(c *kit.C) {
	t := c.T
	nv := rapid.IntRange(1, 2).Draw(t, "variables")
	nl := rapid.IntRange(2, 5).Draw(t, "actors")
	id := int32(0)
	var lanes [][]linStep
	total := 0
	for l := 0; l < nl; l++ {
		app := l > 0 && rapid.IntRange(0, 2).Draw(t, "app") == 0
		var steps []linStep
		for k := rapid.IntRange(1, 6).Draw(t, "steps"); k > 0; k-- {
			s := linStep{app: app, write: rapid.Bool().Draw(t, "write"), spin: pick(t, "spin", 0, 0, 1, 3, 10, 40)}
			n := 1
			if !app {
				n = pick(t, "batch", 1, 1, 2, 3)
			}
			for ; n > 0; n-- {
				o := linOp{vr: rapid.IntRange(0, nv-1).Draw(t, "var"), i: 0, j: linLen}
				if s.write {
					id++
					o.val = id
					o.st = pick(t, "status", ua.Good, ua.UncertainInitialValue, ua.UncertainLastUsableValue, ua.GoodClamped, ua.BadNotConnected)
				}
				part := rapid.Bool().Draw(t, "part")
				switch {
				case s.write && app:
					o.kind = 'S'
				case s.write && part:
					o.kind = 'P'
				case s.write:
					o.kind = 'W'
				case app:
					o.kind = 'V'
				case part:
					o.kind = 'Q'
				default:
					o.kind = 'R'
				}
				if o.kind == 'P' || o.kind == 'Q' {
					o.i = rapid.IntRange(0, linLen-1).Draw(t, "i")
					o.j = rapid.IntRange(o.i+1, linLen).Draw(t, "j")
				}
				s.ops = append(s.ops, o)
				total++
			}
			steps = append(steps, s)
		}
		lanes = append(lanes, steps)
	}
	desc := ""
	for l, s := range lanes {
		desc += fmt.Sprintf("actor %d:", l)
		for _, x := range s {
			desc += fmt.Sprintf(" %v", x.ops)
		}
		desc += "; "
	}
	for round := 0; round < 6; round++ {
		linRound(c, lanes, nv, desc)
	}
	c.NT(desc)
	c.Label(fmt.Sprintf("%d actors", nl))
}

var linSes []*wire.Session

func linSession(i int) *wire.Session {
	for len(linSes) <= i {
		linSes = append(linSes, w.Session())
	}
	return linSes[i]
}

func linRound(c *kit.C, lanes [][]linStep, nv int, desc string) {
	var vs []*server.VariableNode
	var ns []server.Node
	base := time.Now().Add(-time.Hour).Truncate(time.Microsecond)
	zero := time.Unix(0, 0)
	for i := 0; i < nv; i++ {
		w.mu.Lock()
		w.next++
		n := w.next
		w.mu.Unlock()
		v := w.variable(num32(9000000+n), make([]int32, linLen), ua.DataTypeIDInt32, 1, ua.AccessLevelsCurrentRead|ua.AccessLevelsCurrentWrite|ua.AccessLevelsStatusWrite|ua.AccessLevelsTimestampWrite)
		v.SetValue(ua.NewDataValue(make([]int32, linLen), 0, zero, 0, zero, 0))
		vs, ns = append(vs, v), append(ns, v)
	}
	defer w.add(ns...)()
	var mu sync.Mutex
	var h []porcupine.Operation
	bad := ""
	rng := func(o linOp) string {
		switch {
		case o.kind != 'P' && o.kind != 'Q':
			return ""
		case o.j == o.i+1:
			return fmt.Sprint(o.i)
		}
		return fmt.Sprintf("%d:%d", o.i, o.j-1)
	}
	var wg sync.WaitGroup
	var start atomic.Bool
	for l, steps := range lanes {
		var s *wire.Session
		if !steps[0].app {
			s = linSession(l)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !start.Load() {
				runtime.Gosched()
			}
			for _, st := range steps {
				for k := 0; k < st.spin*10; k++ {
					runtime.Gosched()
				}
				ops := append([]linOp{}, st.ops...)
				lo := linTick(time.Now())
				call := time.Since(base).Nanoseconds()
				var err string
				switch {
				case st.app && st.write:
					o := &ops[0]
					ts := base.Add(time.Duration(o.val) * time.Microsecond)
					ss := ts.Add(time.Millisecond)
					o.ts, o.ss = linTick(ts), linTick(ss)
					v := make([]int32, linLen)
					for k := range v {
						v[k] = o.val
					}
					vs[o.vr].SetValue(ua.NewDataValue(v, o.st, ts, 0, ss, 0))
				case st.app:
					d := vs[ops[0].vr].Value()
					ops[0].out, _ = d.Value.([]int32)
					ops[0].st, ops[0].ts, ops[0].ss = d.StatusCode, linTick(d.SourceTimestamp), linTick(d.ServerTimestamp)
				case st.write:
					req := &ua.WriteRequest{RequestHeader: s.Header()}
					for _, o := range ops {
						v := make([]int32, o.j-o.i)
						for k := range v {
							v[k] = o.val
						}
						req.NodesToWrite = append(req.NodesToWrite, ua.WriteValue{NodeID: vs[o.vr].NodeID(), AttributeID: ua.AttributeIDValue, IndexRange: rng(o), Value: ua.DataValue{Value: v, StatusCode: o.st}})
					}
					r, e := wire.Do[ua.WriteResponse](s, req)
					if e != nil || len(r.Results) != len(ops) {
						err = fmt.Sprintf("a write is answered with %v", e)
						break
					}
					for k, x := range r.Results {
						if x != 0 {
							err = fmt.Sprintf("%v is answered with %s", ops[k], hx(x))
						}
					}
				default:
					req := &ua.ReadRequest{RequestHeader: s.Header(), TimestampsToReturn: ua.TimestampsToReturnBoth}
					for _, o := range ops {
						req.NodesToRead = append(req.NodesToRead, ua.ReadValueID{NodeID: vs[o.vr].NodeID(), AttributeID: ua.AttributeIDValue, IndexRange: rng(o)})
					}
					r, e := wire.Do[ua.ReadResponse](s, req)
					if e != nil || len(r.Results) != len(ops) {
						err = fmt.Sprintf("a read is answered with %v", e)
						break
					}
					for k, d := range r.Results {
						ops[k].out, _ = d.Value.([]int32)
						ops[k].st, ops[k].ts, ops[k].ss = d.StatusCode, linTick(d.SourceTimestamp), linTick(d.ServerTimestamp)
					}
				}
				ret := time.Since(base).Nanoseconds()
				hi := linTick(time.Now())
				mu.Lock()
				if err != "" && bad == "" {
					bad = err
				}
				for _, o := range ops {
					o.lo, o.hi = lo, hi
					h = append(h, porcupine.Operation{ClientId: l, Input: o, Call: call, Return: ret})
				}
				mu.Unlock()
			}
		}()
	}
	start.Store(true)
	wg.Wait()
	if bad != "" {
		c.Failf("%s (%s)", bad, desc)
	}
	// what is there in the end
	for i, v := range vs {
		d := v.Value()
		o := linOp{kind: 'V', vr: i, i: 0, j: linLen, st: d.StatusCode, ts: linTick(d.SourceTimestamp), ss: linTick(d.ServerTimestamp)}
		o.out, _ = d.Value.([]int32)
		call := time.Since(base).Nanoseconds()
		h = append(h, porcupine.Operation{ClientId: 99, Input: o, Call: call, Return: call + 1})
	}
	switch porcupine.CheckOperationsTimeout(linModel, h, 10*time.Second) {
	case porcupine.Illegal:
		var lines []string
		for _, o := range h {
			lines = append(lines, fmt.Sprintf("%d: %s at %d..%d", o.ClientId, o.Input.(linOp).result(), o.Call/1000%1e8, o.Return/1000%1e8))
		}
		c.Hardf("no order of the operations explains the results: %s (%s)", strings.Join(lines, ", "), desc)
	case porcupine.Unknown:
		c.Label("not decided")
	}
}

// linStorm hammers variables and looks for mixtures of two values and for readers that go back in time.
func linStorm(c *kit.C) {
	t := c.T
	byApp := rapid.Bool().Draw(t, "byapp")
	kind := pick(t, "kind", "array", "string", "struct", "int")
	readers := rapid.IntRange(1, 3).Draw(t, "readers")
	batch := pick(t, "batch", 1, 5, 20)
	n := 400
	desc := fmt.Sprintf("writer is the application: %v, %s, %d readers of %d at once", byApp, kind, readers, batch)
	base := time.Now().Add(-time.Hour).Truncate(time.Microsecond)
	status := func(k int) ua.StatusCode { return ua.StatusCode(0x40000000 | uint32(k)<<16&0x0fff0000) }
	mk := func(k int) any {
		switch kind {
		case "array":
			return []int32{int32(k), int32(k), int32(k), int32(k)}
		case "string":
			return strings.Repeat(fmt.Sprintf("%06d", k), 1+k%3)
		case "struct":
			return ua.ExtensionObject(ua.Range{Low: float64(k), High: float64(k)})
		}
		return int32(k)
	}
	num := func(v any) (int, bool) {
		switch x := v.(type) {
		case []int32:
			for _, y := range x {
				if y != x[0] {
					return 0, false
				}
			}
			return int(x[0]), len(x) == 4
		case string:
			var k int
			fmt.Sscanf(x[:min(6, len(x))], "%d", &k)
			return k, x == mk(k)
		case ua.Range:
			return int(x.Low), x.Low == x.High
		case int32:
			return int(x), true
		}
		return 0, false
	}
	dt, rank := ua.NodeID(ua.DataTypeIDInt32), int32(-1)
	switch kind {
	case "array":
		rank = 1
	case "string":
		dt = ua.DataTypeIDString
	case "struct":
		dt = ua.DataTypeIDRange
	}
	v := w.variable(w.id(t, "v"), mk(0), dt, rank, ua.AccessLevelsCurrentRead|ua.AccessLevelsCurrentWrite|ua.AccessLevelsStatusWrite)
	at := func(k int) time.Time { return base.Add(time.Duration(k) * time.Microsecond) }
	v.SetValue(ua.NewDataValue(mk(0), status(0), at(0), 0, at(0), 0))
	defer w.add(v)()
	var mu sync.Mutex
	bad := ""
	say := func(f string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	var last atomic.Int64 // the last value that was set completely
	var begun atomic.Int64
	done := make(chan struct{})
	var wg sync.WaitGroup
	seen := map[int]time.Time{}
	judge := func(d ua.DataValue, lo int) int {
		k, ok := num(d.Value)
		switch {
		case !ok:
			say("a mixture %v", d.Value)
		case d.StatusCode != status(k):
			say("value %d comes with status %s, want %s", k, hx(d.StatusCode), hx(status(k)))
		case (byApp || k == 0) && (!d.SourceTimestamp.Equal(at(k)) || !d.ServerTimestamp.Equal(at(k))):
			say("value %d comes with time %v and %v, want %v", k, d.SourceTimestamp, d.ServerTimestamp, at(k))
		case k < lo:
			say("value %d is read after %d", k, lo)
		case k > int(begun.Load()):
			say("value %d is read before it is written", k)
		}
		if !byApp && k > 0 {
			ts := d.SourceTimestamp.Truncate(100 * time.Nanosecond)
			mu.Lock()
			if o, ok := seen[k]; ok && !o.Equal(ts) && bad == "" {
				bad = fmt.Sprintf("value %d comes with the times %v and %v", k, o, ts)
			}
			seen[k] = ts
			mu.Unlock()
		}
		return k
	}
	for i := 0; i < readers; i++ {
		s := linSession(5 + i)
		own := i == 2
		wg.Add(1)
		go func() {
			defer wg.Done()
			lo := 0
			for {
				select {
				case <-done:
					return
				default:
				}
				lo = max(lo, int(last.Load()))
				if own {
					for k := 0; k < 50; k++ {
						lo = max(lo, judge(v.Value(), lo))
					}
					continue
				}
				req := &ua.ReadRequest{RequestHeader: s.Header(), TimestampsToReturn: ua.TimestampsToReturnBoth}
				for k := 0; k < batch; k++ {
					req.NodesToRead = append(req.NodesToRead, ua.ReadValueID{NodeID: v.NodeID(), AttributeID: ua.AttributeIDValue})
				}
				r, err := wire.Do[ua.ReadResponse](s, req)
				if err != nil || len(r.Results) != batch {
					say("a read is answered with %v", err)
					return
				}
				hi := lo
				for _, d := range r.Results {
					hi = max(hi, judge(d, lo))
				}
				lo = hi
			}
		}()
	}
	s := linSession(4)
	for k := 1; k <= n; k++ {
		begun.Store(int64(k))
		if byApp {
			v.SetValue(ua.NewDataValue(mk(k), status(k), at(k), 0, at(k), 0))
			for y := 0; y < 20; y++ {
				runtime.Gosched()
			}
		} else {
			r, err := wire.Do[ua.WriteResponse](s, &ua.WriteRequest{RequestHeader: s.Header(), NodesToWrite: []ua.WriteValue{{NodeID: v.NodeID(), AttributeID: ua.AttributeIDValue, Value: ua.DataValue{Value: mk(k), StatusCode: status(k)}}}})
			if err != nil || len(r.Results) != 1 || r.Results[0] != 0 {
				say("a write is answered with %v %v", err, r)
			}
		}
		last.Store(int64(k))
		mu.Lock()
		stop := bad != ""
		mu.Unlock()
		if stop {
			break
		}
	}
	close(done)
	wg.Wait()
	if bad != "" {
		c.Hardf("%s (%s)", bad, desc)
	}
	judge(v.Value(), n)
	if bad != "" {
		c.Hardf("in the end %s (%s)", bad, desc)
	}
	c.Label(kind)
	c.NT(desc + fmt.Sprint(rapid.IntRange(0, 1<<30).Draw(t, "case")))
}

func init() {
	kit.Register(&kit.Check{
		ID:          "C31",
		Rule:        "orders: up to five actors (sessions and the application) read and write one or two array variables, as a whole and in parts, in batches, each plan run six times; results, statuses and both timestamps must be explained by one order of the operations that agrees with real time (linearizability checker); storm: one writer and several readers at full speed, every value read must be one that was written, with its own status and time, and never older than one read or completed before; non-trivial: distinct plans",
		Assumptions: []string{"a server stamps values written by clients with the time of the write", "histories whose search takes longer than ten seconds are not judged (counted under 'not decided')"},
		Subs: []kit.Sub{{Name: "orders", Quick: 12000, Thorough: 300000, Shards: 4, Fn: linCheck, Setup: setup()},
			{Name: "storm", Quick: 1200, Thorough: 20000, Shards: 2, Fn: linStorm, Setup: setup()}},
	})
}
