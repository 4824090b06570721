package props

import (
	"encoding/binary"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"time"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"

	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// measured decodes with a panic guard, a deadline and an allocation meter.
func measured(c *kit.C, b []byte, typ reflect.Type, uris []string, chunk int, what string) (v reflect.Value, rest int, err error) {
	var msg string
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	start := time.Now()
	v, rest, err, msg = decodeUA(b, typ, uris, chunk)
	d := time.Since(start)
	runtime.ReadMemStats(&after)
	if msg != "" {
		c.Failf("decoding % x as %s (%s) panics: %s", short(b), typ, what, msg)
	}
	// an element of the largest structure is below 1 KB and takes at least one byte; arrays may grow by
	// doubling, and the first block may be allocated before its elements arrive
	if got, limit := after.TotalAlloc-before.TotalAlloc, uint64(8<<20+4096*len(b)); got > limit {
		c.Failf("decoding %d bytes as %s (%s) allocates %d bytes: % x", len(b), typ, what, got, short(b))
	}
	if d > 20*time.Second {
		c.Failf("decoding %d bytes as %s (%s) takes %v: % x", len(b), typ, what, d, short(b))
	}
	return
}

// mutate applies a few byte-level edits that target structure: lengths, masks, type bytes.
func mutate(t *rapid.T, b []byte) ([]byte, string) {
	b = append([]byte(nil), b...)
	n := rapid.IntRange(1, 4).Draw(t, "edits")
	what := ""
	for i := 0; i < n; i++ {
		pos := 0
		if len(b) > 0 {
			pos = rapid.IntRange(0, len(b)-1).Draw(t, "pos")
		}
		switch k := rapid.IntRange(0, 7).Draw(t, "edit"); {
		case k == 0 && len(b) > 0:
			b[pos] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			what += fmt.Sprintf("flip@%d ", pos)
		case k == 1 && len(b) > 0:
			b[pos] = rapid.Byte().Draw(t, "byte")
			what += fmt.Sprintf("set@%d ", pos)
		case k == 2 || k == 3:
			// a hostile length
			l := rapid.SampledFrom([]uint32{0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x10000000, 0x00ffffff, 0x0000ffff, 1000, 65536, 0, 1, 2}).Draw(t, "len")
			if len(b) >= pos+4 {
				binary.LittleEndian.PutUint32(b[pos:], l)
			} else {
				b = binary.LittleEndian.AppendUint32(b, l)
			}
			what += fmt.Sprintf("len@%d=%x ", pos, l)
		case k == 4 && len(b) > 0:
			b = b[:pos]
			what += fmt.Sprintf("cut@%d ", pos)
		case k == 5:
			ins := rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(t, "ins")
			b = append(b[:pos:pos], append(ins, b[pos:]...)...)
			what += fmt.Sprintf("ins@%d ", pos)
		case k == 6 && len(b) > 0:
			e := min(len(b), pos+rapid.IntRange(1, 8).Draw(t, "n"))
			b = append(b[:pos:pos], b[e:]...)
			what += fmt.Sprintf("del@%d ", pos)
		default:
			// a variant head with array / dimension flags
			h := byte(rapid.IntRange(0, 255).Draw(t, "head"))
			if len(b) > 0 {
				b[pos] = h
			} else {
				b = append(b, h)
			}
			what += fmt.Sprintf("head@%d=%x ", pos, h)
		}
	}
	return b, what
}

// hostile: mutated encodings and raw bytes, checked against the reference decoder where it has an opinion.
func hostile(c *kit.C) {
	uris := []string{stdURI, customURI, customURI2}
	var b []byte
	var typ reflect.Type
	var what string
	if rapid.IntRange(0, 4).Draw(c.T, "raw") == 0 {
		ss := ref.Structs()
		k := rapid.IntRange(0, len(ss)+len(builtinTypes)+1).Draw(c.T, "type")
		switch {
		case k < len(ss):
			typ = ss[k].Type
		case k < len(ss)+len(builtinTypes):
			typ = builtinTypes[k-len(ss)]
		default:
			typ = ref.VariantTypes[24]
		}
		if rapid.Bool().Draw(c.T, "slice") && typ.Kind() != reflect.Uint8 && typ.Size() > 0 {
			typ = reflect.SliceOf(typ)
		}
		b = rapid.SliceOfN(rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte{0, 1, 2, 3, 4, 5, 22, 23, 24, 25, 0x80 | 24, 0xc0 | 6, 0x80 | 22, 0xff, 0x7f})), 0, 48).Draw(c.T, "bytes")
		what = "raw bytes"
	} else {
		v, _ := drawTyped(c.T, gen.Opts{MaxDepth: 2, MaxLen: 4})
		typ = v.Type()
		e := &ref.Enc{URIs: uris}
		if err := e.Value(v); err != nil {
			kit.Infra("reference: %v", err)
		}
		b, what = mutate(c.T, e.B)
	}
	chunk := rapid.SampledFrom([]int{1, 7, 1 << 20}).Draw(c.T, "chunk")
	got, rest, err := measured(c, b, typ, uris, chunk, what)
	// agreement with the reference decoder
	p := reflect.New(typ)
	used, rerr := ref.Decode(b, p.Interface(), uris)
	switch {
	case errors.Is(rerr, ref.ErrUnspecified):
		c.Label("unspecified")
	case rerr == nil && err == nil:
		if d := ref.Diff(p.Elem().Interface(), got.Interface()); d != "" {
			c.Failf("% x as %s (%s) decodes to something else than the standard says: %s", b, typ, what, d)
		}
		if len(b)-rest != used {
			c.Failf("% x as %s (%s): %d bytes consumed, the standard says %d", b, typ, what, len(b)-rest, used)
		}
		c.Label("both accept")
		c.NT(typ.String() + what + short(got.Interface()))
	case rerr == nil:
		c.Failf("% x as %s (%s) is a well-formed encoding but is refused: %v", b, typ, what, err)
	case err == nil:
		c.Failf("% x as %s (%s) is malformed (%v) but is decoded without error to %s", b, typ, what, rerr, short(got.Interface()))
	default:
		c.Label("both refuse")
		c.NT(typ.String() + what)
	}
}

// truncated: no proper prefix of an encoding decodes.
func truncated(c *kit.C) {
	uris := []string{stdURI, customURI, customURI2}
	v, _ := drawTyped(c.T, gen.Opts{MaxDepth: 2, MaxLen: 4})
	e := &ref.Enc{URIs: uris}
	if err := e.Value(v); err != nil {
		kit.Infra("reference: %v", err)
	}
	if len(e.B) == 0 {
		return
	}
	n := rapid.IntRange(0, len(e.B)-1).Draw(c.T, "cut")
	for _, cut := range []int{n, len(e.B) - 1} {
		got, _, err, msg := decodeUA(e.B[:cut], v.Type(), uris, 1<<20)
		if msg != "" {
			c.Failf("decoding a truncated %s panics: %s", v.Type(), msg)
		}
		if err == nil {
			c.Failf("%d of %d bytes of %s %s decode without error to %s", cut, len(e.B), v.Type(), short(v.Interface()), short(got.Interface()))
		}
	}
	c.NT(fmt.Sprintf("%s %d/%d %s", v.Type(), n, len(e.B), short(v.Interface())))
}

// nesting: chains of nested values, from shallow to far beyond what a stack may hold.
func nesting(c *kit.C) {
	debug.SetMaxStack(256 << 20)
	kinds := rapid.SliceOfN(rapid.IntRange(0, 4), 1, 5).Draw(c.T, "kinds")
	depth := rapid.SampledFrom([]int{1, 5, 20, 50, 99, 1000, 20000, 300000, 1500000}).Draw(c.T, "depth")
	var b []byte
	cur := "variant"
	pre := func(p ...byte) { b = append(b, p...) }
	ents := 0
	if kinds[0] == 4 {
		cur = "diag"
	}
	for i := 0; i < depth; i++ {
		ents++
		if cur == "diag" {
			pre(0x40)
			continue
		}
		switch kinds[i%len(kinds)] {
		case 0: // variant in variant
			pre(24)
		case 1: // variant holding a data value holding a variant
			pre(23, 1)
			ents++
		case 2: // variant array of one
			pre(24|0x80, 1, 0, 0, 0)
		case 3: // extension object LiteralOperand { Value Variant } without length
			pre(22, 1, 0)
			b = binary.LittleEndian.AppendUint16(b, uint16(ref.TypeID(reflect.TypeOf(ua.LiteralOperand{}))))
			pre(1)
			b = binary.LittleEndian.AppendUint32(b, 0xffffffff)
			ents++
		default:
			pre(24)
		}
	}
	typ := ref.VariantTypes[24]
	if cur == "diag" {
		typ = reflect.TypeOf(ua.DiagnosticInfo{})
	}
	pre(0)
	_, rest, err := measured(c, b, typ, []string{stdURI}, 1<<20, fmt.Sprintf("%d levels of %v", depth, kinds))
	if ents <= 60 && (err != nil || rest != 0) {
		c.Failf("%d levels of nesting (%v) are refused: %v, %d bytes left", ents, kinds, err, rest)
	}
	c.NT(fmt.Sprintf("%s %v %d err=%v", cur, kinds, depth, err))
}

// skipping: unknown or longer bodies are skipped by their declared length.
func skipping(c *kit.C) {
	uris := []string{stdURI, customURI, customURI2}
	n := rapid.IntRange(1, 4).Draw(c.T, "n")
	e := &ref.Enc{URIs: uris}
	e.B = binary.LittleEndian.AppendUint32(e.B, uint32(n))
	var want []any
	desc := ""
	for i := 0; i < n; i++ {
		body := rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(c.T, "body")
		switch rapid.IntRange(0, 3).Draw(c.T, "kind") {
		case 0: // unknown id, binary body
			ids := []ua.NodeID{ua.NodeIDNumeric{NamespaceIndex: 1, ID: 60001}, ua.NodeIDNumeric{NamespaceIndex: 9, ID: 5001}, ua.NodeIDString{NamespaceIndex: 2, ID: "x"}, ua.NodeIDNumeric{ID: 1}}
			id := ids[rapid.IntRange(0, 3).Draw(c.T, "id")]
			f := reflect.New(reflect.TypeOf((*ua.NodeID)(nil)).Elem()).Elem()
			f.Set(reflect.ValueOf(id))
			e.Value(f)
			e.B = append(e.B, 1)
			e.B = binary.LittleEndian.AppendUint32(e.B, uint32(len(body)))
			e.B = append(e.B, body...)
			want = append(want, nil)
			desc += fmt.Sprintf("unknown(%d) ", len(body))
		case 1: // xml body
			e.B = append(e.B, 0, 77, 2)
			e.B = binary.LittleEndian.AppendUint32(e.B, uint32(len(body)))
			e.B = append(e.B, body...)
			want = append(want, nil)
			desc += fmt.Sprintf("xml(%d) ", len(body))
		default: // known id with extra trailing bytes in the body
			o := ua.LiteralOperand{Value: gen.Variant(c.T, gen.Opts{MaxDepth: 1, MaxLen: 2}, 1, "v")}
			be := &ref.Enc{URIs: uris}
			if err := be.Value(reflect.ValueOf(o)); err != nil {
				kit.Infra("reference: %v", err)
			}
			be.B = append(be.B, body...)
			e.B = append(e.B, 1, 0)
			e.B = binary.LittleEndian.AppendUint16(e.B, uint16(ref.TypeID(reflect.TypeOf(o))))
			e.B = append(e.B, 1)
			e.B = binary.LittleEndian.AppendUint32(e.B, uint32(len(be.B)))
			e.B = append(e.B, be.B...)
			want = append(want, o)
			desc += fmt.Sprintf("extended(%d) ", len(body))
		}
	}
	mark := gen.Str(c.T, gen.Opts{MaxLen: 5}, "mark")
	tail := reflect.ValueOf(mark)
	e.Value(tail)
	type holder struct {
		Objs []ua.ExtensionObject
		Mark string
	}
	got, rest, err, msg := decodeUA(e.B, reflect.TypeOf(holder{}), uris, 1<<20)
	if msg != "" || err != nil {
		c.Failf("extension objects %sdo not decode: %v %s", desc, err, msg)
	}
	h := got.Interface().(holder)
	if len(h.Objs) != n || h.Mark != mark || rest != 0 {
		c.Failf("after extension objects %sthe stream is misaligned: %d objects, mark %q want %q, %d bytes left", desc, len(h.Objs), h.Mark, mark, rest)
	}
	for i := range want {
		if d := ref.Diff(want[i], h.Objs[i]); d != "" {
			c.Failf("extension object %d of %s: %s", i, desc, d)
		}
	}
	c.NT(desc + mark)
}

// lengths: every length-prefixed place with an announced length beyond the data.
func lengths(c *kit.C) {
	uris := []string{stdURI, customURI, customURI2}
	v, _ := drawTyped(c.T, gen.Opts{MaxDepth: 2, MaxLen: 4})
	e := &ref.Enc{URIs: uris}
	if err := e.Value(v); err != nil {
		kit.Infra("reference: %v", err)
	}
	if len(e.B) < 4 {
		return
	}
	// every offset in turn gets a huge little-endian number
	l := rapid.SampledFrom([]uint32{0x7fffffff, 0x10000000, 0x01000000}).Draw(c.T, "len")
	pos := rapid.IntRange(0, len(e.B)-4).Draw(c.T, "pos")
	b := append([]byte(nil), e.B...)
	binary.LittleEndian.PutUint32(b[pos:], l)
	measured(c, b, v.Type(), uris, 1<<20, fmt.Sprintf("length %x at %d", l, pos))
	c.NT(fmt.Sprintf("%s %x@%d %s", v.Type(), l, pos, short(v.Interface())))
}

func init() {
	kit.Register(&kit.Check{
		ID:   "C03",
		Rule: "encodings of every type are mutated structurally (hostile lengths, masks, type bytes, cuts, splices) or replaced by raw bytes, and nested up to 1.5 million levels; each decode runs under a panic guard, a clock and an allocation meter and is compared with an independent strict decoder (acceptance, value and bytes consumed); non-trivial: every case that reaches the comparison, distinct by type, edit and value",
		Assumptions: []string{"memory is 'in proportion' when a decode allocates at most 8 MB plus 4 KB per input byte",
			"nesting deeper than 60 levels may be refused; up to 60 it must decode"},
		Subs: []kit.Sub{
			{Name: "hostile", Quick: 160000, Thorough: 4000000, Shards: 5, Fn: hostile},
			{Name: "truncated", Quick: 100000, Thorough: 2000000, Shards: 2, Fn: truncated},
			{Name: "lengths", Quick: 100000, Thorough: 2000000, Shards: 2, Fn: lengths},
			{Name: "nesting", Quick: 600, Thorough: 10000, Shards: 2, Fn: nesting},
			{Name: "skipping", Quick: 60000, Thorough: 1000000, Shards: 1, Fn: skipping},
		},
	})
}
