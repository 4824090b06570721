package props

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"

	"github.com/awcullen/opcua/ua"
	"github.com/djherbis/buffer"
	"github.com/google/uuid"
	"pgregory.net/rapid"
)

const customURI = "urn:verif:custom"
const customURI2 = "http://example.org/ns?q=1"

// CustomA and CustomB are application structures registered with the encoder.
type CustomA struct {
	W1 uint16
	G  uuid.UUID
	S  string
	X  []float64
	V  ua.Variant
}

// CustomB nests another structure by value and as extension object.
type CustomB struct {
	A    CustomA
	Objs []ua.ExtensionObject
	T    ua.LocalizedText
}

func init() {
	ua.RegisterBinaryEncodingID(reflect.TypeOf(CustomA{}), ua.ExpandedNodeID{NamespaceURI: customURI, NodeID: ua.NodeIDNumeric{ID: 5001}})
	ua.RegisterBinaryEncodingID(reflect.TypeOf(CustomB{}), ua.ExpandedNodeID{NamespaceURI: customURI2, NodeID: ua.NodeIDNumeric{ID: 70000}})
	ref.RegisterCustom(reflect.TypeOf(CustomA{}), customURI, 5001)
	ref.RegisterCustom(reflect.TypeOf(CustomB{}), customURI2, 70000)
}

type encCtx struct{ uris []string }

func (e encCtx) NamespaceURIs() []string { return e.uris }

var stdURI = "http://opcfoundation.org/UA/"

func drawURIs(t *rapid.T) []string {
	switch rapid.IntRange(0, 2).Draw(t, "uris") {
	case 0:
		return []string{stdURI, customURI, customURI2}
	case 1:
		return []string{stdURI, "urn:x", customURI2, "urn:y", customURI}
	default:
		u := []string{stdURI}
		for i := 0; i < 300; i++ {
			u = append(u, fmt.Sprintf("urn:n%d", i))
		}
		return append(u, customURI, customURI2)
	}
}

// builtinTypes are the static types exercised directly.
var builtinTypes = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int8(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(uint16(0)),
	reflect.TypeOf(int32(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)),
	reflect.TypeOf(float64(0)), reflect.TypeOf(""), ref.VariantTypes[13], ref.VariantTypes[14], ref.VariantTypes[15], ref.VariantTypes[16],
	ref.VariantTypes[17], ref.VariantTypes[18], ref.VariantTypes[19], ref.VariantTypes[20], ref.VariantTypes[21], ref.VariantTypes[22],
	ref.VariantTypes[23], ref.VariantTypes[24], reflect.TypeOf(ua.DiagnosticInfo{}), reflect.TypeOf(ua.NodeClass(0)), reflect.TypeOf(ua.MessageSecurityMode(0)),
	reflect.TypeOf(CustomA{}), reflect.TypeOf(CustomB{}),
}

// xobjOf wraps the drawn struct in an extension object now and then with custom types.
func drawTyped(t *rapid.T, o gen.Opts) (reflect.Value, string) {
	var typ reflect.Type
	kind := ""
	switch rapid.IntRange(0, 9).Draw(t, "what") {
	case 0, 1:
		typ = builtinTypes[rapid.IntRange(0, len(builtinTypes)-1).Draw(t, "builtin")]
		kind = "builtin"
	case 2:
		typ = reflect.SliceOf(builtinTypes[rapid.IntRange(0, len(builtinTypes)-1).Draw(t, "builtin")])
		kind = "array"
	case 3, 4, 5:
		typ = ref.VariantTypes[24]
		kind = "variant"
	case 6:
		typ = ref.VariantTypes[22]
		kind = "xobj"
	default:
		ss := ref.Structs()
		typ = ss[rapid.IntRange(0, len(ss)-1).Draw(t, "struct")].Type
		kind = "struct"
	}
	v := gen.Value(t, typ, o, 0, "v")
	if kind == "xobj" && rapid.IntRange(0, 3).Draw(t, "custom") == 0 {
		if rapid.Bool().Draw(t, "customB") {
			v.Set(gen.Value(t, reflect.TypeOf(CustomB{}), o, 1, "v"))
		} else {
			v.Set(gen.Value(t, reflect.TypeOf(CustomA{}), o, 1, "v"))
		}
	}
	return v, kind
}

// writers: the encoder has two ways to write extension objects, depending on the writer.
func encodeUA(v reflect.Value, uris []string, at bool, prefix, suffix []byte) ([]byte, error, string) {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	var out []byte
	var err error
	msg := kit.Panics(func() {
		if at {
			b := buffer.NewPartitionAt(buffer.NewMemPoolAt(4096))
			b.Write(prefix)
			err = ua.NewBinaryEncoder(b, encCtx{uris}).Encode(p.Interface())
			b.Write(suffix)
			out, _ = io.ReadAll(b)
		} else {
			var b bytes.Buffer
			b.Write(prefix)
			err = ua.NewBinaryEncoder(&b, encCtx{uris}).Encode(p.Interface())
			b.Write(suffix)
			out = b.Bytes()
		}
	})
	return out, err, msg
}

// oneByte returns at most a few bytes per Read, as a network stream may.
type dribble struct {
	b []byte
	n int
}

func (d *dribble) Read(p []byte) (int, error) {
	if len(d.b) == 0 {
		return 0, io.EOF
	}
	n := min(d.n, len(p), len(d.b))
	copy(p, d.b[:n])
	d.b = d.b[n:]
	return n, nil
}

func decodeUA(b []byte, typ reflect.Type, uris []string, chunk int) (v reflect.Value, rest int, err error, msg string) {
	p := reflect.New(typ)
	r := &dribble{b, chunk}
	msg = kit.Panics(func() { err = ua.NewBinaryDecoder(r, encCtx{uris}).Decode(p.Interface()) })
	return p.Elem(), len(r.b), err, msg
}

func short(v any) string {
	s := fmt.Sprintf("%+v", v)
	if len(s) > 800 {
		s = s[:800] + "..."
	}
	return s
}

func trivial(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.String:
		return v.Len() == 0
	}
	return v.IsZero()
}

func roundTrip(c *kit.C) {
	o := gen.Opts{MaxDepth: 2, MaxLen: 6, LongStr: true, TimeEdges: true}
	uris := drawURIs(c.T)
	v, kind := drawTyped(c.T, o)
	at := rapid.Bool().Draw(c.T, "bufferAt")
	suffix := rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(c.T, "suffix")
	chunk := rapid.SampledFrom([]int{1, 3, 64, 1 << 20}).Draw(c.T, "chunk")
	b, err, msg := encodeUA(v, uris, at, nil, suffix)
	if msg != "" {
		c.Failf("encoding %s %s panics: %s", v.Type(), short(v.Interface()), msg)
	}
	if err != nil {
		// the generator only makes encodable values; the one documented limit is the pooled 64 KB
		// buffer for extension objects on writers without random access
		if !at && len(fmt.Sprint(v.Interface())) > 30000 {
			c.Label("over pooled buffer")
			return
		}
		c.Failf("encoding %s %s fails: %v", v.Type(), short(v.Interface()), err)
	}
	w, rest, err, msg := decodeUA(b, v.Type(), uris, chunk)
	if msg != "" {
		c.Failf("decoding the encoding of %s %s panics: %s", v.Type(), short(v.Interface()), msg)
	}
	if err != nil {
		c.Failf("decoding the encoding of %s %s fails: %v (% x)", v.Type(), short(v.Interface()), err, short(b))
	}
	if rest != len(suffix) {
		c.Failf("decoding %s leaves %d bytes, want %d: %s", v.Type(), rest, len(suffix), short(v.Interface()))
	}
	if d := ref.Diff(v.Interface(), w.Interface()); d != "" {
		c.Failf("round trip of %s changes the value %s: sent %s got %s", v.Type(), d, short(v.Interface()), short(w.Interface()))
	}
	c.Label(kind)
	if !trivial(v) {
		c.NT(v.Type().String() + " " + short(v.Interface()))
	}
}

// sequence: several values of different types in one stream.
func sequence(c *kit.C) {
	o := gen.Opts{MaxDepth: 1, MaxLen: 3, TimeEdges: true}
	uris := drawURIs(c.T)
	n := rapid.IntRange(2, 6).Draw(c.T, "n")
	var vs []reflect.Value
	at := rapid.Bool().Draw(c.T, "bufferAt")
	var bb bytes.Buffer
	ba := buffer.NewPartitionAt(buffer.NewMemPoolAt(512))
	var w io.Writer = &bb
	if at {
		w = ba
	}
	enc := ua.NewBinaryEncoder(w, encCtx{uris})
	key := ""
	for i := 0; i < n; i++ {
		v, _ := drawTyped(c.T, o)
		vs = append(vs, v)
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		if err := enc.Encode(p.Interface()); err != nil {
			c.Failf("encoding %s %s fails: %v", v.Type(), short(v.Interface()), err)
		}
		key += v.Type().String() + " "
	}
	var r io.Reader = &bb
	if at {
		r = ba
	}
	dec := ua.NewBinaryDecoder(r, encCtx{uris})
	for i, v := range vs {
		p := reflect.New(v.Type())
		if err := dec.Decode(p.Interface()); err != nil {
			c.Failf("value %d (%s) of the stream does not decode: %v", i, v.Type(), err)
		}
		if d := ref.Diff(v.Interface(), p.Elem().Interface()); d != "" {
			c.Failf("value %d (%s) of the stream changed %s", i, v.Type(), d)
		}
	}
	rest, _ := io.ReadAll(r)
	if len(rest) != 0 {
		c.Failf("%d bytes left over after the stream", len(rest))
	}
	c.NT(key + short(vs[0].Interface()))
}

// ragged: matrices that are not rectangular have no encoding and must be refused, not mangled.
func ragged(c *kit.C) {
	id := byte(rapid.IntRange(1, 24).Draw(c.T, "type"))
	rank := rapid.IntRange(2, 3).Draw(c.T, "rank")
	o := gen.Opts{MaxDepth: 1, MaxLen: 3}
	et := ref.VariantTypes[id]
	var build func(l int) reflect.Value
	build = func(l int) reflect.Value {
		bt := et
		for i := l + 1; i < rank; i++ {
			bt = reflect.SliceOf(bt)
		}
		n := rapid.IntRange(0, 3).Draw(c.T, "n")
		s := reflect.MakeSlice(reflect.SliceOf(bt), n, n)
		for i := 0; i < n; i++ {
			if l == rank-1 {
				s.Index(i).Set(gen.Value(c.T, et, o, 2, "e"))
			} else {
				s.Index(i).Set(build(l + 1))
			}
		}
		return s
	}
	m := build(0)
	v := reflect.New(ref.VariantTypes[24]).Elem()
	v.Set(m)
	_, flat, rect := ref.Flatten(m, rank)
	uris := []string{stdURI, customURI, customURI2}
	b, err, msg := encodeUA(v, uris, true, nil, nil)
	if msg != "" {
		c.Failf("encoding matrix %s panics: %s", short(m.Interface()), msg)
	}
	if err != nil {
		if rect {
			c.Failf("encoding the rectangular matrix %s fails: %v", short(m.Interface()), err)
		}
		c.NT("refused " + m.Type().String() + short(m.Interface()))
		return
	}
	w, rest, err, msg := decodeUA(b, v.Type(), uris, 1<<20)
	if msg != "" || err != nil || rest != 0 {
		c.Failf("matrix %s encodes to bytes that do not decode: %v %s (rest %d)", short(m.Interface()), err, msg, rest)
	}
	if d := ref.Diff(v.Interface(), w.Interface()); d != "" {
		if !rect && len(flat) == 0 {
			return // nothing in it
		}
		c.Failf("matrix %s decodes to something else: %s", short(m.Interface()), d)
	}
	c.NT(m.Type().String() + short(m.Interface()))
}

// conform: bytes against the reference, both directions.
func conform(c *kit.C) {
	o := gen.Opts{MaxDepth: 2, MaxLen: 5, LongStr: true, TimeEdges: true}
	uris := drawURIs(c.T)
	v, kind := drawTyped(c.T, o)
	at := rapid.Bool().Draw(c.T, "bufferAt")
	e := &ref.Enc{URIs: uris}
	err := e.Value(v)
	want := e.B
	if err != nil {
		kit.Infra("the reference cannot encode %s: %v", short(v.Interface()), err)
	}
	got, err, msg := encodeUA(v, uris, at, nil, nil)
	if msg != "" || err != nil {
		if msg == "" && !at && len(want) > 60000 {
			return
		}
		c.Failf("encoding %s %s: %v %s", v.Type(), short(v.Interface()), err, msg)
	}
	if !bytes.Equal(got, want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		c.Failf("%s %s: byte %d differs from the standard encoding\n got %s\nwant %s", v.Type(), short(v.Interface()), i, short(fmt.Sprintf("% x", got)), short(fmt.Sprintf("% x", want)))
	}
	c.Label(kind)
	if !trivial(v) {
		c.NT(v.Type().String() + " " + short(v.Interface()))
	}
}

// altForms: conforming but different encodings of the same value.
func altForms(c *kit.C) {
	uris := []string{stdURI, customURI, customURI2}
	v, _ := drawTyped(c.T, gen.Opts{MaxDepth: 1, MaxLen: 3})
	b, desc := altEncode(c.T, v, uris)
	w, rest, err, msg := decodeUA(b, v.Type(), uris, 1<<20)
	if msg != "" || err != nil || rest != 0 {
		c.Failf("a conforming encoding (%s) of %s %s is not read: err=%v rest=%d %s\n% x", desc, v.Type(), short(v.Interface()), err, rest, msg, short(b))
	}
	if d := ref.Diff(v.Interface(), w.Interface()); d != "" {
		c.Failf("a conforming encoding (%s) of %s is read as another value %s (% x)", desc, v.Type(), d, short(b))
	}
	if desc != "" {
		c.NT(desc + v.Type().String() + short(v.Interface()))
	}
}

func altEncode(t *rapid.T, v reflect.Value, uris []string) ([]byte, string) {
	a := &altEnc{t: t, uris: uris, used: map[string]bool{}}
	a.value(v)
	d := make([]string, 0, len(a.used))
	for _, k := range []string{"wide node id", "zero-length string", "null array", "empty array", "null masks", "unknown extra mask bits"} {
		if a.used[k] {
			d = append(d, k)
		}
	}
	return a.b, strings.Join(d, "+")
}

func init() {
	kit.Register(&kit.Check{
		ID:   "C01",
		Rule: "values of every built-in type, enum, array, 1-3D variant, data value, diagnostic info, extension object (generated and application-registered, three namespace tables) and all 284 generated structures are drawn type-directed with boundary bias, encoded with both writer kinds, followed by random bytes, and decoded from a stream that dribbles; non-trivial: the drawn value is not the zero/empty value of its type, distinct by printed value",
		Assumptions: []string{"signalling NaN payloads are not generated (Go may quiet them on copy)", "times beyond year 20000 are not generated",
			"extension objects over 64 KB on writers without random access may be refused"},
		Subs: []kit.Sub{
			{Name: "roundtrip", Quick: 240000, Thorough: 6000000, Shards: 6, Fn: roundTrip},
			{Name: "sequence", Quick: 30000, Thorough: 600000, Shards: 2, Fn: sequence},
			{Name: "ragged", Quick: 20000, Thorough: 400000, Shards: 1, Fn: ragged},
		},
	})
	kit.Register(&kit.Check{
		ID:   "C02",
		Rule: "the same value space as C01 encoded by the code under test and by an independent reference encoder (layouts from the OPC Foundation schema, ids from its own table), compared byte for byte; and alternative conforming encodings (wide node id forms, zero-length strings, null arrays) decoded by the code under test; non-trivial: not the zero value (conform), at least one alternative form used (altforms)",
		Subs: []kit.Sub{
			{Name: "conform", Quick: 240000, Thorough: 6000000, Shards: 6, Fn: conform},
			{Name: "altforms", Quick: 120000, Thorough: 3000000, Shards: 4, Fn: altForms},
			{Name: "typeids", Quick: 1, Thorough: 1, Fn: typeIDs},
		},
	})
}

// typeIDs compares the whole registry with the reference table (a finite space, enumerated).
func typeIDs(c *kit.C) {
	for _, s := range ref.Structs() {
		id, ok := ua.FindBinaryEncodingIDForType(s.Type)
		want := ua.ExpandedNodeID{NodeID: ua.NodeIDNumeric{ID: s.ID}}
		if !ok || id.ServerIndex != 0 || id.NamespaceURI != "" && id.NamespaceURI != stdURI || id.NodeID != want.NodeID {
			c.Failf("binary encoding id of %s is %v, the standard says i=%d", s.Type, id, s.ID)
		}
		typ, ok := ua.FindTypeForBinaryEncodingID(id)
		if !ok || typ != s.Type {
			c.Failf("encoding id %v resolves to %v, want %s", id, typ, s.Type)
		}
		c.NT(fmt.Sprintf("%s=i=%d", s.Type, s.ID))
	}
}
