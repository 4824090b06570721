package props

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

const (
	maxStr   = 40
	maxBytes = 50
	maxArr   = 12
	maxWrite = 25
)

func writeCaps() *ua.ServerCapabilities {
	caps := ua.NewServerCapabilities()
	caps.MaxStringLength, caps.MaxByteStringLength, caps.MaxArrayLength = maxStr, maxBytes, maxArr
	caps.OperationLimits.MaxNodesPerWrite = maxWrite
	return caps
}

// dtype is a data type with the built-in types a value of it may have (Part 3, Part 5).
type dtype struct {
	id   ua.NodeID
	ok   []byte // built-in types
	elem []byte // when variants are allowed as array elements: what they may hold
}

func span(lo, hi byte) (r []byte) {
	for i := lo; i <= hi; i++ {
		r = append(r, i)
	}
	return
}

var dtypes = func() (r []dtype) {
	for i := byte(1); i <= 23; i++ {
		r = append(r, dtype{id: ua.NewNodeIDNumeric(0, uint32(i)), ok: []byte{i}})
	}
	all := span(1, 23)
	ints := []byte{2, 4, 6, 8}
	uints := []byte{3, 5, 7, 9}
	nums := append(append([]byte{10, 11}, ints...), uints...)
	r = append(r,
		dtype{ua.DataTypeIDBaseDataType, span(1, 24), all},
		dtype{ua.DataTypeIDBaseDataType, span(1, 24), all},
		dtype{ua.DataTypeIDNumber, append(nums, 24), nums},
		dtype{ua.DataTypeIDInteger, append(ints, 24), ints},
		dtype{ua.DataTypeIDUInteger, append(uints, 24), uints},
		dtype{ua.DataTypeIDEnumeration, []byte{6}, nil},
		dtype{ua.DataTypeIDDuration, []byte{11}, nil},
		dtype{ua.DataTypeIDUtcTime, []byte{13}, nil},
		dtype{ua.DataTypeIDLocaleID, []byte{12}, nil},
		dtype{ua.DataTypeIDServerState, []byte{6}, nil},
		dtype{ua.DataTypeIDArgument, []byte{22}, nil},
		dtype{ua.DataTypeIDCounter, []byte{7}, nil},
		dtype{ua.DataTypeIDImage, []byte{15}, nil},
		dtype{ua.DataTypeIDImagePNG, []byte{15}, nil},
		dtype{ua.DataTypeIDSessionAuthenticationToken, []byte{17}, nil},
		dtype{ua.NewNodeIDString(2, "no such type"), nil, nil},
		// custom types, added at setup: nested subtypes
		dtype{ua.NewNodeIDString(2, "myDouble"), []byte{11}, nil},
		dtype{ua.NewNodeIDString(2, "myDouble2"), []byte{11}, nil},
		dtype{ua.NewNodeIDString(2, "myEnum"), []byte{6}, nil},
		dtype{ua.NewNodeIDString(2, "myNumber"), []byte{24}, []byte{}},
	)
	return
}()

func writeSetup(opts ...server.Option) func() func() {
	return func() func() {
		f := setup(append([]server.Option{server.WithServerCapabilities(writeCaps())}, opts...)...)()
		dt := func(name string, super ua.NodeID) server.Node {
			return server.NewDataTypeNode(w.Server, ua.NewNodeIDString(2, name), qn(2, name), lt(name), lt(""), nil,
				[]ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDHasSubtype, IsInverse: true, TargetID: ua.NewExpandedNodeID(super)}}, false, nil)
		}
		w.add(dt("myDouble", ua.DataTypeIDDouble), dt("myDouble2", ua.NewNodeIDString(2, "myDouble")), dt("myEnum", ua.DataTypeIDEnumeration), dt("myNumber", ua.DataTypeIDNumber))
		return f
	}
}

// shape returns the built-in type and rank of a generated value; rank 0 is a scalar.
func shape(v any) (byte, int) {
	if v == nil {
		return 0, 0
	}
	t := reflect.TypeOf(v)
	rank := 0
	for t.Kind() == reflect.Slice {
		t = t.Elem()
		rank++
	}
	for id, vt := range ref.VariantTypes {
		if vt == t {
			return byte(id), rank
		}
	}
	if _, ok := v.(ua.NodeID); ok {
		return 17, 0
	}
	return 22, rank
}

func rankFits(declared int32, rank int) bool {
	switch declared {
	case ua.ValueRankAny:
		return true
	case ua.ValueRankScalarOrOneDimension:
		return rank <= 1
	case ua.ValueRankScalar:
		return rank == 0
	case ua.ValueRankOneOrMoreDimensions:
		return rank >= 1
	}
	return int(declared) == rank
}

// fits decides whether a value may be written to a variable; unsure: the statement does not decide it.
func fits(d dtype, declared int32, v any) (ok, unsure bool) {
	if v == nil {
		return true, false
	}
	bt, rank := shape(v)
	if bt == 15 && rank == 0 && in(3, d.ok...) && rankFits(declared, 1) {
		if declared == 1 && len(d.ok) == 1 {
			return true, false // a byte string is an array of bytes
		}
		unsure = true
	}
	if bt == 3 && rank == 1 && in(15, d.ok...) && rankFits(declared, 0) {
		if declared == ua.ValueRankScalar && len(d.ok) == 1 {
			return true, false
		}
		unsure = true
	}
	if !rankFits(declared, rank) {
		return false, unsure
	}
	if !in(bt, d.ok...) {
		return false, unsure
	}
	if bt == 24 && len(d.elem) < 23 {
		for _, e := range flat(v) {
			if b, r := shape(e); e != nil && (r != 0 || !in(b, d.elem...)) {
				return false, true
			}
		}
	}
	return true, unsure
}

func flat(v any) (r []any) {
	x := reflect.ValueOf(v)
	for i := 0; i < x.Len(); i++ {
		e := x.Index(i)
		if e.Kind() == reflect.Slice {
			r = append(r, flat(e.Interface())...)
		} else {
			r = append(r, e.Interface())
		}
	}
	return
}

// tooBig tells whether a value exceeds the advertised sizes.
func tooBig(v any) bool {
	switch x := v.(type) {
	case string:
		return len(x) > maxStr
	case ua.ByteString:
		return len(x) > maxBytes
	}
	if _, rank := shape(v); rank == 1 {
		return reflect.ValueOf(v).Len() > maxArr
	}
	return false
}

var writeOpts = gen.Opts{MaxDepth: 1, MaxLen: maxArr}

// drawWrite draws a value, most of the time one that fits.
func drawWrite(t *rapid.T, d dtype, rank int32, l string) any {
	mode := rapid.IntRange(0, 9).Draw(t, l+"mode")
	if mode == 0 || len(d.ok) == 0 {
		return gen.Variant(t, writeOpts, 0, l)
	}
	bt := pick(t, l+"bt", d.ok...)
	r := 0
	switch {
	case rank > 0:
		r = int(rank)
	case rank == ua.ValueRankOneOrMoreDimensions:
		r = rapid.IntRange(1, 3).Draw(t, l+"r")
	case rank == ua.ValueRankAny:
		r = rapid.IntRange(0, 3).Draw(t, l+"r")
	case rank == ua.ValueRankScalarOrOneDimension:
		r = rapid.IntRange(0, 1).Draw(t, l+"r")
	}
	switch mode {
	case 1: // another rank
		r = rapid.IntRange(0, 3).Draw(t, l+"r2")
	case 2: // another type, same rank
		bt = byte(rapid.IntRange(1, 24).Draw(t, l+"bt2"))
	case 3:
		switch bt {
		case 12:
			if r == 0 {
				return strings.Repeat("x", rapid.IntRange(maxStr-1, maxStr+2).Draw(t, l+"sl"))
			}
		case 15:
			if r == 0 {
				return ua.ByteString(strings.Repeat("y", rapid.IntRange(maxBytes-1, maxBytes+2).Draw(t, l+"bl")))
			}
		}
		if r == 1 && bt < 14 {
			n := rapid.IntRange(maxArr-1, maxArr+2).Draw(t, l+"al")
			s := reflect.MakeSlice(reflect.SliceOf(ref.VariantTypes[bt]), n, n)
			return s.Interface()
		}
	}
	if r == 0 {
		if bt == 24 {
			bt = 6
		}
		if bt == 17 {
			return gen.NodeID(t, writeOpts, false, l)
		}
		v := gen.VariantOfType(t, bt, writeOpts, 0, l)
		return v
	}
	if bt == 24 {
		n := rapid.IntRange(0, 3).Draw(t, l+"vn")
		if r == 1 {
			a := make([]ua.Variant, n)
			for i := range a {
				e := byte(6)
				if len(d.elem) > 0 {
					e = pick(t, l+"et", d.elem...)
				}
				if e == 17 {
					e = 1
				}
				a[i] = gen.VariantOfType(t, e, writeOpts, 1, l)
			}
			return a
		}
	}
	return gen.VariantArray(t, bt, r, writeOpts, 0, l)
}

type wnode struct {
	n     *server.VariableNode
	d     dtype
	rank  int32
	acc   byte
	cur   ua.DataValue
	hist  bool
	mode  int // 0 plain, 1 handler that accepts, 2 handler that refuses
	wrote bool
}

func (x *wnode) String() string {
	return fmt.Sprintf("%v (%v rank %d access %d)", x.n.NodeID(), x.d.id, x.rank, x.acc)
}

// writeHistory writes and reads a few variables in random order and compares with the model.
func writeHistory(c *kit.C) {
	t := c.T
	vars := []*wnode{}
	ns := []server.Node{}
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "vars"); i < n; i++ {
		l := fmt.Sprintf("v%d", i)
		x := &wnode{d: rapid.SampledFrom(dtypes).Draw(t, l+"dt"), rank: pick[int32](t, l+"rank", -1, -1, 1, 1, -3, -2, 0, 2, 3)}
		x.acc = pick[byte](t, l+"acc", 3, 3, 3, 3, 7, 0xFF, 1, 2, 0, 0xFD)
		x.cur = ua.NewDataValue(gen.Variant(t, writeOpts, 0, l+"init"), 0, drawTime(t, l+"st"), 0, drawTime(t, l+"vt"), 0)
		x.n = server.NewVariableNode(w.Server, w.id(t, l), qn(2, l), lt(l), lt(""), nil, objRefs(ua.ObjectIDObjectsFolder), x.cur, x.d.id, x.rank, nil, x.acc, 0, false, nil)
		switch rapid.IntRange(0, 9).Draw(t, l+"hand") {
		case 0:
			x.mode = 1
			x.n.SetWriteValueHandler(func(s *server.Session, v ua.WriteValue) (ua.DataValue, ua.StatusCode) {
				return ua.NewDataValue(v.Value.Value, 0, time.Time{}, 0, time.Time{}, 0), ua.Good
			})
		case 1:
			x.mode = 2
			x.n.SetWriteValueHandler(func(s *server.Session, v ua.WriteValue) (ua.DataValue, ua.StatusCode) {
				return ua.NewDataValue("refused", 0, time.Now(), 0, time.Now(), 0), ua.BadUserAccessDenied
			})
		}
		vars = append(vars, x)
		ns = append(ns, x.n)
	}
	defer w.add(ns...)()
	for step, k := 0, rapid.IntRange(1, 4).Draw(t, "steps"); step < k; step++ {
		l := fmt.Sprintf("s%d", step)
		req := &ua.WriteRequest{}
		type exp struct {
			x    *wnode
			good bool // must be good
			bad  bool // must be bad
			v    any
			sc   ua.StatusCode
			hz   *bool
		}
		exps := []exp{}
		// each variable at most once per request: the order of entries for one node is not promised
		for i, x := range vars {
			if rapid.IntRange(0, 4).Draw(t, l+"skip") == 0 {
				continue
			}
			li := fmt.Sprintf("%sv%d", l, i)
			v := drawWrite(t, x.d, x.rank, li)
			sc := ua.StatusCode(pick[uint32](t, li+"sc", 0, 0, 0, 0x40920000, 0x80310000))
			e := exp{x: x, v: v, sc: sc}
			wv := ua.WriteValue{NodeID: x.n.NodeID(), AttributeID: ua.AttributeIDValue, Value: ua.DataValue{Value: v, StatusCode: sc}}
			if rapid.IntRange(0, 5).Draw(t, li+"wts") == 0 {
				wv.Value.SourceTimestamp = drawTime(t, li+"wt")
			}
			switch rapid.IntRange(0, 11).Draw(t, li+"attr") {
			case 0: // another attribute
				wv.AttributeID = pick(t, li+"a", uint32(1), 2, 3, 4, 5, 6, 7, 8, 14, 15, 16, 17, 18, 19, 21, 24, 25, 0, 99)
				e.bad = true
			case 1:
				wv.AttributeID = ua.AttributeIDHistorizing
				b, isb := v.(bool)
				if !isb && rapid.Bool().Draw(t, li+"hzb") {
					b, isb = rapid.Bool().Draw(t, li+"hzv"), true
					wv.Value.Value = b
				}
				if isb {
					e.good = true
					e.hz = &b
				} else {
					e.bad = true
				}
			case 2: // a node that does not exist
				wv.NodeID = ua.NewNodeIDString(2, "nope")
				e.bad = true
			default:
				ok, unsure := fits(x.d, x.rank, v)
				if bs, is := v.(ua.ByteString); is && len(bs) > maxArr && in(3, x.d.ok...) {
					unsure = true // which limit holds depends on the conversion
				}
				if ba, is := v.([]byte); is && len(ba) > maxArr && in(15, x.d.ok...) {
					break
				}
				switch {
				case x.acc&2 == 0 || tooBig(v) || x.mode == 2:
					e.bad = true
				case !ok && !unsure:
					e.bad = true
				case ok && !unsure:
					e.good = true
				}
			}
			exps = append(exps, e)
			req.NodesToWrite = append(req.NodesToWrite, wv)
		}
		if len(exps) > 1 && rapid.Bool().Draw(t, l+"swap") {
			exps[0], exps[1] = exps[1], exps[0]
			req.NodesToWrite[0], req.NodesToWrite[1] = req.NodesToWrite[1], req.NodesToWrite[0]
		}
		over := rapid.IntRange(0, 29).Draw(t, l+"over") == 0
		if over && len(exps) > 0 {
			for len(req.NodesToWrite) <= maxWrite {
				req.NodesToWrite = append(req.NodesToWrite, req.NodesToWrite[0])
			}
		}
		held := []ua.DataValue{}
		heldWas := []string{}
		for _, x := range vars {
			held = append(held, x.n.Value())
			heldWas = append(heldWas, fmt.Sprintf("%#v", x.n.Value().Value))
		}
		t0 := tick(time.Now())
		r, code := do[ua.WriteResponse](c, w.ses, req)
		t1 := time.Now().Add(time.Millisecond)
		switch {
		case len(req.NodesToWrite) == 0:
			if code != ua.BadNothingToDo {
				c.Failf("an empty write is answered with %s", hx(code))
			}
			continue
		case len(req.NodesToWrite) > maxWrite:
			if code != ua.BadTooManyOperations {
				c.Failf("a write of %d entries with a limit of %d is answered with %s", len(req.NodesToWrite), maxWrite, hx(code))
			}
			exps = nil
		case code != 0:
			c.Failf("write of %d entries refused with %s", len(req.NodesToWrite), hx(code))
		case len(r.Results) != len(exps):
			c.Failf("%d results for %d entries", len(r.Results), len(exps))
		}
		for i, e := range exps {
			res := r.Results[i]
			desc := fmt.Sprintf("write of %.300s (%T) to attribute %d of %v, handler mode %d", fmt.Sprintf("%#v", req.NodesToWrite[i].Value.Value), req.NodesToWrite[i].Value.Value, req.NodesToWrite[i].AttributeID, e.x, e.x.mode)
			c.NT(fmt.Sprintf("%v %d %T attr %d mode %d -> %s", e.x.d.id, e.x.rank, e.v, req.NodesToWrite[i].AttributeID, e.x.mode, hx(res)))
			if e.good && res != ua.Good {
				c.Failf("%s: refused with %s", desc, hx(res))
			}
			if e.bad && !res.IsBad() {
				c.Failf("%s: answered %s", desc, hx(res))
			}
			if res == ua.Good && req.NodesToWrite[i].AttributeID == ua.AttributeIDValue {
				v := e.v
				if bs, ok := v.(ua.ByteString); ok {
					if _, isb := e.x.n.Value().Value.([]byte); isb {
						v = []byte(bs)
					}
				} else if ba, ok := v.([]byte); ok {
					if _, iss := e.x.n.Value().Value.(ua.ByteString); iss {
						v = ua.ByteString(ba)
					}
				}
				e.x.cur = ua.DataValue{Value: v, StatusCode: e.sc}
				if e.x.mode == 1 {
					e.x.cur.StatusCode = 0
				} else {
					e.x.wrote = true
					now := e.x.n.Value()
					if now.ServerTimestamp.Before(t0) || now.ServerTimestamp.After(t1) {
						c.Failf("%s: server timestamp %v, not between %v and %v", desc, now.ServerTimestamp, t0, t1)
					}
				}
			}
			if e.hz != nil {
				e.x.hist = *e.hz
			}
			c.Label(fmt.Sprintf("good=%v bad=%v", e.good, e.bad))
		}
		for i, x := range vars {
			if s := fmt.Sprintf("%#v", held[i].Value); s != heldWas[i] {
				c.Failf("a value obtained before the write changed from %.300s to %.300s", heldWas[i], s)
			}
			if x.n.Historizing() != x.hist {
				c.Failf("historizing of %v is %v, the model has %v", x, x.n.Historizing(), x.hist)
			}
			got := x.n.Value()
			if d := ref.Diff(ua.DataValue{Value: x.cur.Value, StatusCode: x.cur.StatusCode}, ua.DataValue{Value: got.Value, StatusCode: got.StatusCode}); d != "" {
				c.Failf("after step %d %v holds %.300s, the model has %.300s: %s", step, x, fmt.Sprintf("%#v", got), fmt.Sprintf("%#v", x.cur), d)
			}
			if !x.wrote && x.mode == 0 {
				if d := ref.Diff(x.cur, got); d != "" {
					c.Failf("%v changed without a successful write: %s", x, d)
				}
			}
			rd, code := do[ua.ReadResponse](c, w.ses, &ua.ReadRequest{TimestampsToReturn: ua.TimestampsToReturnBoth, NodesToRead: []ua.ReadValueID{{NodeID: x.n.NodeID(), AttributeID: ua.AttributeIDValue}}})
			if code != 0 || len(rd.Results) != 1 {
				c.Failf("read of %v: %s", x, hx(code))
			}
			g := rd.Results[0]
			if x.acc&1 == 0 {
				continue
			}
			if d := ref.Diff(got, g); d != "" {
				c.Failf("read after write of %v: got %.300s, the node holds %.300s: %s", x, fmt.Sprintf("%#v", g), fmt.Sprintf("%#v", got), d)
			}
		}
	}
}

// ---- index ranges -------------------------------------------------------------------------------------

// parseRange reads a one-dimensional numeric range as Part 4 7.27 defines it. ok: well formed; weird: forms
// the statement does not judge.
func parseRange(s string) (lo, hi uint64, ok, weird bool) {
	num := func(x string) (uint64, bool) {
		if x == "" {
			return 0, false
		}
		for _, r := range x {
			if r < '0' || r > '9' {
				return 0, false
			}
		}
		v, err := strconv.ParseUint(x, 10, 32)
		if err != nil {
			weird = true
		}
		return v, err == nil
	}
	weird = strings.Contains(s, "+") || strings.Contains(s, "-0")
	a, b, two := strings.Cut(s, ":")
	lo, ok = num(a)
	if !two {
		return lo, lo, ok, weird
	}
	hi, ok2 := num(b)
	return lo, hi, ok && ok2 && lo < hi, weird
}

func drawRange(t *rapid.T, n int, l string) string {
	i := func(k string) int { return rapid.IntRange(0, n+2).Draw(t, l+k) }
	switch rapid.IntRange(0, 12).Draw(t, l+"form") {
	case 0, 1:
		return fmt.Sprint(i("a"))
	case 2, 3, 4, 5:
		a := rapid.IntRange(0, max(n-1, 0)).Draw(t, l+"a")
		return fmt.Sprintf("%d:%d", a, a+rapid.IntRange(0, n).Draw(t, l+"b"))
	case 6:
		return fmt.Sprintf("%d:%d", i("a"), i("b"))
	case 7:
		return pick(t, l+"mal", ":", "1:", ":2", "a", "1:b", "-1", "-1:2", "1:-1", "0:1:2", " 0", "0 :1", "1.5", "0x1", "2:1", "0:0", "１", "1;2", "0:1,", ",0", "0,0", "0:1,0:1", ",", "0:1,0:1,0:1")
	case 10:
		a, b := rapid.IntRange(0, max(n-1, 0)).Draw(t, l+"a"), rapid.IntRange(0, 2).Draw(t, l+"b")
		return fmt.Sprintf("%d:%d,%d:%d", a, a+rapid.IntRange(1, 3).Draw(t, l+"a2"), b, b+rapid.IntRange(1, 4).Draw(t, l+"b2"))
	case 8:
		return pick(t, l+"edge", "0:4294967295", "1:2147483647", "4294967295", "2147483648:4294967295", "4294967296", "0:4294967296", "99999999999999999999", "0:99999999999999999999", "00:01", "007")
	case 9:
		return fmt.Sprintf("%d:%d", i("a"), 1<<30)
	default:
		return rapid.StringOfN(rapid.RuneFrom([]rune("0123:,-+ ")), 1, 5, -1).Draw(t, l+"junk")
	}
}

// indexable values: strings, byte strings and arrays; elems splits one.
func elems(v any) ([]any, bool) {
	switch x := v.(type) {
	case string:
		r := []any{}
		for _, c := range x {
			r = append(r, c)
		}
		return r, true
	case ua.ByteString:
		r := []any{}
		for i := 0; i < len(x); i++ {
			r = append(r, x[i])
		}
		return r, true
	}
	if _, rank := shape(v); rank != 1 {
		return nil, false
	}
	return flat1(v), true
}

func flat1(v any) (r []any) {
	x := reflect.ValueOf(v)
	for i := 0; i < x.Len(); i++ {
		r = append(r, x.Index(i).Interface())
	}
	return
}

// slice cuts a value.
func sliceOf(v any, lo, hi int) any {
	switch x := v.(type) {
	case string:
		return string([]rune(x)[lo:hi])
	case ua.ByteString:
		return x[lo:hi]
	}
	return reflect.ValueOf(v).Slice(lo, hi).Interface()
}

// splice replaces lo..hi of v by the elements of x.
func splice(v, x any, lo int) any {
	switch s := v.(type) {
	case string:
		r := []rune(s)
		copy(r[lo:], []rune(x.(string)))
		return string(r)
	case ua.ByteString:
		r := []byte(s)
		copy(r[lo:], x.(ua.ByteString))
		return ua.ByteString(r)
	}
	a := reflect.ValueOf(v)
	r := reflect.MakeSlice(a.Type(), a.Len(), a.Len())
	reflect.Copy(r, a)
	reflect.Copy(r.Slice(lo, a.Len()), reflect.ValueOf(x))
	return r.Interface()
}

func validStr(t *rapid.T, l string) string {
	return rapid.StringOfN(rapid.RuneFrom([]rune("abcxyzäöß€𝄞😀0 ")), 0, 9, -1).Draw(t, l)
}

func drawIndexable(t *rapid.T, bt byte, l string) any {
	switch {
	case bt == 12 && rapid.Bool().Draw(t, l+"scalar"):
		return validStr(t, l)
	case bt == 15 && rapid.Bool().Draw(t, l+"scalar"):
		return ua.ByteString(rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(t, l))
	}
	return gen.VariantArray(t, bt, 1, gen.Opts{MaxDepth: 1, MaxLen: 9}, 0, l)
}

// subRange judges "a,b" on arrays of strings and byte strings: b selects in each of the elements a selects.
func subRange(c *kit.C, n *server.VariableNode, cur any, ra, rb, l string, sc0 *ua.StatusCode) bool {
	t := c.T
	strs, isStr := cur.([]string)
	bss, isBS := cur.([]ua.ByteString)
	if !isStr && !isBS {
		return false
	}
	lo, hi, ok, weird := parseRange(ra)
	lo2, hi2, ok2, weird2 := parseRange(rb)
	if weird || weird2 {
		return true
	}
	size := len(strs) + len(bss)
	all := ok && ok2 && lo < uint64(size)
	clip := false
	if all && hi >= uint64(size) {
		hi, clip = uint64(size)-1, true
	}
	want, repl, after := []any{}, []any{}, []any{}
	if all {
		for i := 0; i < size; i++ {
			var e any
			if isStr {
				e = strs[i]
			} else {
				e = bss[i]
			}
			if uint64(i) < lo || uint64(i) > hi {
				after = append(after, e)
				continue
			}
			es, _ := elems(e)
			if lo2 >= uint64(len(es)) {
				all = false
				break
			}
			h := hi2
			if h >= uint64(len(es)) {
				h, clip = uint64(len(es))-1, true
			}
			want = append(want, sliceOf(e, int(lo2), int(h)+1))
			k := int(h - lo2 + 1)
			var x any
			if isStr {
				x = rapid.StringOfN(rapid.RuneFrom([]rune("ABCÄÖ€😀")), k, k, -1).Draw(t, l+"ss")
			} else {
				x = ua.ByteString(rapid.SliceOfN(rapid.Byte(), k, k).Draw(t, l+"sb"))
			}
			repl = append(repl, x)
			after = append(after, splice(e, x, int(lo2)))
		}
	}
	typed := func(xs []any) any {
		r := reflect.MakeSlice(reflect.TypeOf(cur), 0, len(xs))
		for _, x := range xs {
			r = reflect.Append(r, reflect.ValueOf(x))
		}
		return r.Interface()
	}
	rng := ra + "," + rb
	before := fmt.Sprintf("%#v", n.Value())
	c.NT(fmt.Sprintf("sub %T[%d] %s", cur, size, rng))
	c.Label("substrings")
	if rapid.Bool().Draw(t, l+"subread") {
		rd, code := do[ua.ReadResponse](c, w.ses, &ua.ReadRequest{TimestampsToReturn: ua.TimestampsToReturnBoth, NodesToRead: []ua.ReadValueID{{NodeID: n.NodeID(), AttributeID: ua.AttributeIDValue, IndexRange: rng}}})
		if code != 0 || len(rd.Results) != 1 {
			c.Failf("read refused: %s", hx(code))
		}
		g := rd.Results[0]
		if all {
			if d := ref.Diff(ua.DataValue{Value: typed(want), StatusCode: *sc0}, ua.DataValue{Value: g.Value, StatusCode: g.StatusCode}); d != "" {
				c.Failf("read of range %q of %#v gives %#v: %s", rng, cur, g, d)
			}
		} else if (!ok || !ok2 || lo >= uint64(size)) && (!g.StatusCode.IsBad() || g.Value != nil) {
			c.Failf("read of range %q of %#v gives %#v", rng, cur, g)
		}
		return true
	}
	if !all {
		repl = []any{}
	}
	x := typed(repl)
	r, code := do[ua.WriteResponse](c, w.ses, &ua.WriteRequest{NodesToWrite: []ua.WriteValue{{NodeID: n.NodeID(), AttributeID: ua.AttributeIDValue, IndexRange: rng, Value: ua.DataValue{Value: x}}}})
	if code != 0 || len(r.Results) != 1 {
		c.Failf("write refused: %s", hx(code))
	}
	switch res := r.Results[0]; {
	case res.IsBad():
		if s := fmt.Sprintf("%#v", n.Value()); s != before {
			c.Failf("failed write of %#v to range %q changed %s to %s", x, rng, before, s)
		}
		if bt, _ := shape(cur); all && !clip && n.DataType() == ua.NodeID(ua.NewNodeIDNumeric(0, uint32(bt))) {
			c.Failf("write of %#v to range %q of %#v refused with %s", x, rng, cur, hx(res))
		}
	case !all:
		c.Failf("write of %#v to range %q of %#v accepted", x, rng, cur)
	default:
		*sc0 = 0
		if d := ref.Diff(typed(after), n.Value().Value); d != "" {
			c.Failf("write of %#v to range %q of %#v leaves %#v: %s", x, rng, cur, n.Value().Value, d)
		}
	}
	return true
}

// indexRange reads and writes sub-ranges of a variable and compares with slicing.
func indexRange(c *kit.C) {
	t := c.T
	bt := byte(rapid.IntRange(1, 24).Draw(t, "bt"))
	v := drawIndexable(t, bt, "v")
	if rapid.IntRange(0, 19).Draw(t, "odd") == 0 { // scalars, matrices, null
		v = gen.Variant(t, writeOpts, 0, "oddv")
	}
	dt, rank := ua.NewNodeIDNumeric(0, uint32(bt)), int32(ua.ValueRankAny)
	if rapid.IntRange(0, 5).Draw(t, "any") == 0 {
		dt = ua.NewNodeIDNumeric(0, 24)
	}
	n := w.variable(w.id(t, "id"), v, dt, rank, 3)
	defer w.add(n)()
	cur := v
	sc0 := ua.StatusCode(0)
	for step, k := 0, rapid.IntRange(1, 5).Draw(t, "steps"); step < k; step++ {
		l := fmt.Sprintf("s%d", step)
		es, can := elems(cur)
		rng := drawRange(t, len(es), l)
		lo, hi, ok, weird := parseRange(rng)
		if a, b, two := strings.Cut(rng, ","); two && !strings.Contains(b, ",") {
			if subRange(c, n, cur, a, b, l, &sc0) {
				cur = n.Value().Value
				continue
			}
		}
		inside := ok && can && lo < uint64(len(es))
		if ok && hi >= uint64(len(es)) && len(es) > 0 {
			hi = uint64(len(es)) - 1
		}
		before := n.Value()
		beforeWas := fmt.Sprintf("%#v", before)
		if rapid.IntRange(0, 1).Draw(t, l+"op") == 0 {
			rd, code := do[ua.ReadResponse](c, w.ses, &ua.ReadRequest{TimestampsToReturn: ua.TimestampsToReturnBoth, NodesToRead: []ua.ReadValueID{{NodeID: n.NodeID(), AttributeID: ua.AttributeIDValue, IndexRange: rng}}})
			if code != 0 || len(rd.Results) != 1 {
				c.Failf("read refused: %s", hx(code))
			}
			g := rd.Results[0]
			desc := fmt.Sprintf("read of range %q of %.300s", rng, fmt.Sprintf("%#v", cur))
			if weird {
				continue
			}
			c.NT(fmt.Sprintf("read %T[%d] %s", cur, len(es), rng))
			if inside {
				want := ua.DataValue{Value: sliceOf(cur, int(lo), int(hi)+1), StatusCode: sc0, SourceTimestamp: before.SourceTimestamp, ServerTimestamp: before.ServerTimestamp}
				if d := ref.Diff(want, g); d != "" {
					c.Failf("%s gives %.300s: %s", desc, fmt.Sprintf("%#v", g), d)
				}
				c.Label("read inside")
				continue
			}
			c.Label("read refused")
			if !in(g.StatusCode, ua.BadIndexRangeInvalid, ua.BadIndexRangeNoData) || g.Value != nil {
				c.Failf("%s gives %.300s, no such elements exist", desc, fmt.Sprintf("%#v", g))
			}
			if ok && g.StatusCode != ua.BadIndexRangeNoData {
				c.Failf("%s gives %s although the range is well formed", desc, hx(g.StatusCode))
			}
			continue
		}
		// write
		var x any
		_, h0, _, _ := parseRange(rng)
		clip := ok && h0 >= uint64(len(es))
		width := 1
		if inside {
			width = int(hi - lo + 1)
		}
		if rapid.IntRange(0, 5).Draw(t, l+"w") == 0 {
			width = rapid.IntRange(0, 6).Draw(t, l+"w2")
		}
		same := true
		switch cur.(type) {
		case string:
			x = rapid.StringOfN(rapid.RuneFrom([]rune("ABCÄÖ€😀")), width, width, -1).Draw(t, l+"xs")
		case ua.ByteString:
			x = ua.ByteString(rapid.SliceOfN(rapid.Byte(), width, width).Draw(t, l+"xb"))
		default:
			b0, r := shape(cur)
			if r == 1 {
				a := reflect.ValueOf(gen.VariantArray(t, b0, 1, gen.Opts{MaxDepth: 1, MaxLen: 9}, 0, l+"x"))
				for a.Len() < width {
					a = reflect.Append(a, gen.Value(t, a.Type().Elem(), gen.Opts{MaxDepth: 1, MaxLen: 3}, 1, l+"xe"))
				}
				x = a.Slice(0, width).Interface()
			} else {
				x = gen.Variant(t, writeOpts, 0, l+"xv")
				same = false
			}
		}
		if rapid.IntRange(0, 9).Draw(t, l+"other") == 0 {
			x = gen.Variant(t, writeOpts, 0, l+"ov")
			same = reflect.TypeOf(x) == reflect.TypeOf(cur)
		}
		sc := ua.StatusCode(pick[uint32](t, l+"sc", 0, 0, 0x40920000))
		desc := fmt.Sprintf("write of %.200s to range %q of %.200s", fmt.Sprintf("%#v", x), rng, fmt.Sprintf("%#v", cur))
		c.Note("%s", desc)
		r, code := do[ua.WriteResponse](c, w.ses, &ua.WriteRequest{NodesToWrite: []ua.WriteValue{{NodeID: n.NodeID(), AttributeID: ua.AttributeIDValue, IndexRange: rng, Value: ua.DataValue{Value: x, StatusCode: sc}}}})
		if code != 0 || len(r.Results) != 1 {
			c.Failf("%s refused: %s", desc, hx(code))
		}
		if s := fmt.Sprintf("%#v", before); s != beforeWas {
			c.Failf("%s changed a value obtained before", desc)
		}
		res := r.Results[0]
		after := n.Value()
		c.NT(fmt.Sprintf("write %T[%d] %s %T -> %s", cur, len(es), rng, x, hx(res)))
		if res.IsBad() {
			if s := fmt.Sprintf("%#v", after); s != beforeWas {
				c.Failf("%s failed with %s and changed the value to %.300s", desc, hx(res), s)
			}
			xe, _ := elems(x)
			if inside && !weird && same && !clip && len(xe) == width && len(xe) == int(hi-lo+1) && !tooBig(x) && dt != ua.NewNodeIDNumeric(0, 24) {
				if b1, _ := shape(cur); b1 == bt {
					c.Failf("%s refused with %s", desc, hx(res))
				}
			}
			c.Label("write refused")
			continue
		}
		if weird {
			return
		}
		xe, xok := elems(x)
		if !inside || !xok || !same || len(xe) != int(hi-lo+1) {
			c.Failf("%s answered %s, the range does not have that many elements of that type", desc, hx(res))
		}
		cur = splice(cur, x, int(lo))
		sc0 = sc
		if d := ref.Diff(ua.DataValue{Value: cur, StatusCode: sc}, ua.DataValue{Value: after.Value, StatusCode: after.StatusCode}); d != "" {
			c.Failf("%s left %.300s: %s", desc, fmt.Sprintf("%#v", after.Value), d)
		}
		c.Label("write inside")
	}
}

func init() {
	kit.Register(&kit.Check{
		ID:          "C15",
		Rule:        "histories of Write requests over variables of every built-in and many derived data types, ranks and access levels, with fitting values, wrong types, wrong ranks, oversized values, other attributes, unknown nodes and write handlers; after every request the nodes and Read are compared with the model; non-trivial: every judged entry, distinct by type, rank, value type, attribute and outcome",
		Assumptions: []string{"fit is judged at the level of built-in types and ranks", "byte strings and byte arrays are interchangeable only where the declaration names exactly one of them", "one request names a node once"},
		Subs: []kit.Sub{
			{Name: "history", Quick: 60000, Thorough: 1000000, Shards: 6, Fn: writeHistory, Setup: writeSetup()},
		},
	})
	kit.Register(&kit.Check{
		ID:          "C16",
		Rule:        "variables holding strings, byte strings and arrays of every built-in type are read and written with generated index ranges (inside, clipped, out of bounds, malformed, extreme numbers) and compared with slicing and splicing; non-trivial: every judged operation, distinct by value type, length, range text and outcome",
		Assumptions: []string{"ranges with a plus sign, a negative zero or numbers beyond 32 bits are not judged", "a range write that reaches over the end may be refused or clipped"},
		Subs: []kit.Sub{
			{Name: "ranges", Quick: 80000, Thorough: 2000000, Shards: 6, Fn: indexRange, Setup: setup()},
		},
	})
}
