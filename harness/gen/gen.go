// Package gen generates OPC UA values for the checks.
package gen

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"verif/harness/ref"

	"github.com/awcullen/opcua/ua"
	"github.com/google/uuid"
	"pgregory.net/rapid"
)

// Opts bounds the generated values.
type Opts struct {
	MaxDepth  int  // nesting of variants, data values, extension objects
	MaxLen    int  // elements per array
	LongStr   bool // now and then strings of several kilobytes
	NoFloat32 bool
	TimeEdges bool // also times outside 1601..9999
	// NullNodes generates null identifiers too (i=0 etc.)
}

var (
	tTime    = reflect.TypeOf(time.Time{})
	tGUID    = reflect.TypeOf(uuid.UUID{})
	tNodeID  = reflect.TypeOf((*ua.NodeID)(nil)).Elem()
	tXObj    = reflect.TypeOf((*ua.ExtensionObject)(nil)).Elem()
	tVariant = reflect.TypeOf((*ua.Variant)(nil)).Elem()
	tXNodeID = reflect.TypeOf(ua.ExpandedNodeID{})
	tDiag    = reflect.TypeOf(ua.DiagnosticInfo{})
	tDV      = reflect.TypeOf(ua.DataValue{})
)

func pick[T any](t *rapid.T, l string, xs ...T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, l)]
}

// Uint draws an unsigned number of the given width, biased to the boundaries.
func Uint(t *rapid.T, bits int, l string) uint64 {
	max := uint64(math.MaxUint64) >> (64 - bits)
	switch rapid.IntRange(0, 5).Draw(t, l+"?") {
	case 0:
		return rapid.Uint64Range(0, 3).Draw(t, l)
	case 1:
		return max - rapid.Uint64Range(0, 2).Draw(t, l)
	case 2:
		k := rapid.IntRange(0, bits-1).Draw(t, l+"k")
		return ((uint64(1) << k) + rapid.Uint64Range(0, 2).Draw(t, l) - 1) & max
	default:
		return rapid.Uint64Range(0, max).Draw(t, l)
	}
}

// Str draws a string.
func Str(t *rapid.T, o Opts, l string) string {
	switch rapid.IntRange(0, 9).Draw(t, l+"?") {
	case 0:
		return ""
	case 1, 2, 3, 4:
		return rapid.StringMatching(`[a-zA-Z0-9 _.:;=/-]{1,12}`).Draw(t, l)
	case 5, 6:
		return rapid.String().Draw(t, l)
	case 7:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, l))
	case 8:
		if o.LongStr {
			return strings.Repeat(rapid.StringMatching(`[a-zé]{1,4}`).Draw(t, l), rapid.IntRange(1, 3000).Draw(t, l+"n"))
		}
		return rapid.StringN(1, 40, -1).Draw(t, l)
	default:
		return pick(t, l, "\x00", "ns=1;s=a", "ï»¿", "\xff\xfe", "日本語", "a\x00b", " ")
	}
}

// Time draws a time.
func Time(t *rapid.T, o Opts, l string) time.Time {
	switch rapid.IntRange(0, 7).Draw(t, l+"?") {
	case 0:
		return time.Time{}
	case 1:
		return time.Date(1601, 1, 1, 0, 0, 0, rapid.IntRange(0, 300).Draw(t, l), time.UTC)
	case 2:
		if o.TimeEdges {
			return time.Date(rapid.IntRange(-200, 20000).Draw(t, l), 1, 1, 0, 0, 0, 5, time.UTC)
		}
		return time.Date(9999, 12, 31, 23, 59, 58, 999999900, time.UTC)
	case 3:
		// local zones must not matter
		return time.Date(rapid.IntRange(1602, 9998).Draw(t, l), time.Month(rapid.IntRange(1, 12).Draw(t, l+"m")), rapid.IntRange(1, 28).Draw(t, l+"d"), 1, 2, 3, rapid.IntRange(0, 999999999).Draw(t, l+"n"), time.FixedZone("x", rapid.IntRange(-50000, 50000).Draw(t, l+"z")))
	default:
		return ref.TimeOf(int64(rapid.Uint64Range(1, 2650467743989999999).Draw(t, l)))
	}
}

// GUID draws a GUID.
func GUID(t *rapid.T, l string) (g uuid.UUID) {
	copy(g[:], rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, l))
	return
}

// NodeID draws a node id; nilOK also gives nil.
func NodeID(t *rapid.T, o Opts, nilOK bool, l string) ua.NodeID {
	lo := 0
	if !nilOK {
		lo = 1
	}
	ns := uint16(0)
	k := rapid.IntRange(lo, 9).Draw(t, l+"k")
	if k != 0 {
		ns = pick(t, l+"ns", 0, 0, 1, 2, 255, 256, 65535, uint16(rapid.IntRange(0, 65535).Draw(t, l+"nsr")))
	}
	switch k {
	case 0:
		return nil
	case 1, 2, 3, 4:
		id := pick(t, l+"id", 1, 2, 255, 256, 65535, 65536, math.MaxUint32, uint32(rapid.Uint32().Draw(t, l+"idr")))
		if ns == 0 && id == 0 {
			id = 1
		}
		return ua.NodeIDNumeric{NamespaceIndex: ns, ID: id}
	case 5, 6:
		s := Str(t, o, l+"s")
		if s == "" && ns == 0 {
			s = "x"
		}
		return ua.NodeIDString{NamespaceIndex: ns, ID: s}
	case 7:
		g := GUID(t, l+"g")
		if ns == 0 && g == (uuid.UUID{}) {
			g[0] = 1
		}
		return ua.NodeIDGUID{NamespaceIndex: ns, ID: g}
	default:
		s := rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, l+"o")
		if len(s) == 0 && ns == 0 {
			s = []byte{0}
		}
		return ua.NodeIDOpaque{NamespaceIndex: ns, ID: ua.ByteString(s)}
	}
}

// XNodeID draws an expanded node id.
func XNodeID(t *rapid.T, o Opts, l string) ua.ExpandedNodeID {
	x := ua.ExpandedNodeID{NodeID: NodeID(t, o, true, l)}
	if rapid.Bool().Draw(t, l+"u") {
		x.NamespaceURI = Str(t, o, l+"uri")
		if x.NamespaceURI != "" {
			x.NodeID = zeroNS(x.NodeID)
		}
	}
	if rapid.IntRange(0, 2).Draw(t, l+"sv") == 0 {
		x.ServerIndex = uint32(Uint(t, 32, l+"svi"))
	}
	return x
}

func zeroNS(n ua.NodeID) ua.NodeID {
	switch x := n.(type) {
	case ua.NodeIDNumeric:
		x.NamespaceIndex = 0
		if x.ID == 0 {
			x.ID = 7
		}
		return x
	case ua.NodeIDString:
		x.NamespaceIndex = 0
		if x.ID == "" {
			x.ID = "q"
		}
		return x
	case ua.NodeIDGUID:
		x.NamespaceIndex = 0
		x.ID[3] |= 1
		return x
	case ua.NodeIDOpaque:
		x.NamespaceIndex = 0
		if x.ID == "" {
			x.ID = "q"
		}
		return x
	}
	return n
}

// Value draws a value of a static type.
func Value(t *rapid.T, typ reflect.Type, o Opts, depth int, l string) reflect.Value {
	v := reflect.New(typ).Elem()
	fill(t, v, o, depth, l)
	return v
}

func fill(t *rapid.T, v reflect.Value, o Opts, depth int, l string) {
	typ := v.Type()
	set := func(x any) {
		if x == nil {
			v.SetZero()
		} else {
			v.Set(reflect.ValueOf(x))
		}
	}
	switch typ {
	case tTime:
		set(Time(t, o, l))
		return
	case tGUID:
		set(GUID(t, l))
		return
	case tNodeID:
		set(NodeID(t, o, true, l))
		return
	case tXNodeID:
		set(XNodeID(t, o, l))
		return
	case tVariant:
		set(Variant(t, o, depth+1, l))
		return
	case tXObj:
		set(XObj(t, o, depth+1, l))
		return
	case tDV:
		set(DataValue(t, o, depth+1, l))
		return
	case tDiag:
		set(*Diag(t, o, depth+1, l))
		return
	}
	switch typ.Kind() {
	case reflect.Bool:
		v.SetBool(rapid.Bool().Draw(t, l))
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		bits := typ.Bits()
		u := Uint(t, bits, l)
		v.SetInt(int64(u<<(64-bits)) >> (64 - bits))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(Uint(t, typ.Bits(), l))
	case reflect.Float32:
		v.Set(reflect.ValueOf(Float32(t, l)).Convert(typ))
	case reflect.Float64:
		v.SetFloat(Float64(t, l))
	case reflect.String:
		v.SetString(Str(t, o, l))
	case reflect.Slice:
		n := Len(t, o, depth, l)
		s := reflect.MakeSlice(typ, n, n)
		for i := 0; i < n; i++ {
			fill(t, s.Index(i), o, depth+1, l)
		}
		v.Set(s)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill(t, v.Field(i), o, depth, l+"."+typ.Field(i).Name)
		}
	case reflect.Ptr:
		p := reflect.New(typ.Elem())
		fill(t, p.Elem(), o, depth+1, l)
		v.Set(p)
	default:
		panic(fmt.Sprintf("gen: %s", typ))
	}
}

// Len draws an array length.
func Len(t *rapid.T, o Opts, depth int, l string) int {
	m := o.MaxLen
	if depth > 1 {
		m = min(m, 2)
	}
	if depth > o.MaxDepth+1 {
		m = 0
	}
	return rapid.IntRange(0, m).Draw(t, l+"#")
}

// Float32 draws any bit pattern, biased to special values. Signalling NaNs are left out: Go itself may
// turn them into quiet ones when a value is copied.
func Float32(t *rapid.T, l string) float32 {
	switch rapid.IntRange(0, 4).Draw(t, l+"?") {
	case 0:
		return pick(t, l, 0, float32(math.Copysign(0, -1)), 1, -1, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), math.MaxFloat32, math.SmallestNonzeroFloat32)
	default:
		b := rapid.Uint32().Draw(t, l)
		if b&0x7F800000 == 0x7F800000 && b&0x7FFFFF != 0 {
			b |= 0x400000
		}
		return math.Float32frombits(b)
	}
}

// Float64 is like Float32.
func Float64(t *rapid.T, l string) float64 {
	switch rapid.IntRange(0, 4).Draw(t, l+"?") {
	case 0:
		return pick(t, l, 0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64)
	default:
		b := rapid.Uint64().Draw(t, l)
		if b&0x7FF0000000000000 == 0x7FF0000000000000 && b&0xFFFFFFFFFFFFF != 0 {
			b |= 0x8000000000000
		}
		return math.Float64frombits(b)
	}
}

// VariantOfType draws a scalar of a built-in type (0 null).
func VariantOfType(t *rapid.T, id byte, o Opts, depth int, l string) any {
	if id == 0 {
		return nil
	}
	return Value(t, ref.VariantTypes[id], o, depth, l).Interface()
}

// VariantArray draws an array of rank 1..3 of a built-in type.
func VariantArray(t *rapid.T, id byte, rank int, o Opts, depth int, l string) any {
	et := ref.VariantTypes[id]
	dims := make([]int, rank)
	for i := range dims {
		m := o.MaxLen
		if rank > 1 || depth > 1 {
			m = min(m, 3)
		}
		dims[i] = rapid.IntRange(0, m).Draw(t, l+"dim")
	}
	var build func(l0 int) reflect.Value
	build = func(l0 int) reflect.Value {
		bt := et
		for i := l0 + 1; i < rank; i++ {
			bt = reflect.SliceOf(bt)
		}
		s := reflect.MakeSlice(reflect.SliceOf(bt), dims[l0], dims[l0])
		for i := 0; i < dims[l0]; i++ {
			if l0 == rank-1 {
				fill(t, s.Index(i), o, depth+1, l)
			} else {
				s.Index(i).Set(build(l0 + 1))
			}
		}
		return s
	}
	return build(0).Interface()
}

// Variant draws any variant.
func Variant(t *rapid.T, o Opts, depth int, l string) any {
	hi := byte(24)
	if depth > o.MaxDepth {
		hi = 21
	}
	switch rapid.IntRange(0, 9).Draw(t, l+"shape") {
	case 0:
		return nil
	case 1, 2, 3, 4, 5:
		id := byte(rapid.IntRange(1, int(min(hi, 23))).Draw(t, l+"id"))
		if id == 17 { // a nil node id is the null variant's business
			return NodeID(t, o, false, l)
		}
		return VariantOfType(t, id, o, depth, l)
	case 6, 7:
		return VariantArray(t, byte(rapid.IntRange(1, int(hi)).Draw(t, l+"id")), 1, o, depth, l)
	case 8:
		return VariantArray(t, byte(rapid.IntRange(1, int(hi)).Draw(t, l+"id")), 2, o, depth, l)
	default:
		return VariantArray(t, byte(rapid.IntRange(1, int(hi)).Draw(t, l+"id")), 3, o, depth, l)
	}
}

// DataValue draws a data value.
func DataValue(t *rapid.T, o Opts, depth int, l string) ua.DataValue {
	d := ua.DataValue{}
	m := rapid.IntRange(0, 63).Draw(t, l+"mask")
	if m&1 != 0 && depth <= o.MaxDepth+1 {
		d.Value = Variant(t, o, depth+1, l)
	}
	if m&2 != 0 {
		d.StatusCode = ua.StatusCode(Uint(t, 32, l+"sc"))
	}
	if m&4 != 0 {
		d.SourceTimestamp = Time(t, o, l+"st")
	}
	if m&8 != 0 {
		d.ServerTimestamp = Time(t, o, l+"sv")
	}
	if m&16 != 0 {
		d.SourcePicoseconds = uint16(Uint(t, 16, l+"sp"))
	}
	if m&32 != 0 {
		d.ServerPicoseconds = uint16(Uint(t, 16, l+"vp"))
	}
	return d
}

// Diag draws a diagnostic info.
func Diag(t *rapid.T, o Opts, depth int, l string) *ua.DiagnosticInfo {
	d := &ua.DiagnosticInfo{}
	m := rapid.IntRange(0, 127).Draw(t, l+"mask")
	i32 := func(b int) *int32 {
		if m&b == 0 {
			return nil
		}
		x := int32(Uint(t, 32, l+"i"))
		return &x
	}
	d.SymbolicID, d.NamespaceURI, d.LocalizedText, d.Locale = i32(1), i32(2), i32(4), i32(8)
	if m&16 != 0 {
		s := Str(t, o, l+"a")
		d.AdditionalInfo = &s
	}
	if m&32 != 0 {
		s := ua.StatusCode(Uint(t, 32, l+"s"))
		d.InnerStatusCode = &s
	}
	if m&64 != 0 && depth <= o.MaxDepth {
		d.InnerDiagnosticInfo = Diag(t, o, depth+1, l)
	}
	return d
}

// XObj draws an extension object body (a structure value) or nil.
func XObj(t *rapid.T, o Opts, depth int, l string) any {
	if depth > o.MaxDepth || rapid.IntRange(0, 7).Draw(t, l+"nil") == 0 {
		return nil
	}
	ss := ref.Structs()
	s := ss[rapid.IntRange(0, len(ss)-1).Draw(t, l+"struct")]
	return Value(t, s.Type, o, depth+1, l).Interface()
}
