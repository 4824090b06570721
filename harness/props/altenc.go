package props

import (
	"encoding/binary"
	"reflect"

	"verif/harness/ref"

	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// altEnc writes conforming encodings that differ from the canonical one in ways the standard allows.
type altEnc struct {
	t    *rapid.T
	b    []byte
	uris []string
	used map[string]bool
}

func (a *altEnc) coin(l string) bool { return rapid.Bool().Draw(a.t, l) }
func (a *altEnc) u16(v uint16)       { a.b = binary.LittleEndian.AppendUint16(a.b, v) }
func (a *altEnc) u32(v uint32)       { a.b = binary.LittleEndian.AppendUint32(a.b, v) }

func (a *altEnc) str(s string) {
	if s == "" {
		if a.coin("zlen") {
			a.used["zero-length string"] = true
			a.u32(0)
		} else {
			a.u32(0xFFFFFFFF)
		}
		return
	}
	a.u32(uint32(len(s)))
	a.b = append(a.b, s...)
}

func (a *altEnc) canon(v reflect.Value) {
	e := &ref.Enc{URIs: a.uris}
	if err := e.Value(v); err != nil {
		panic(err)
	}
	a.b = append(a.b, e.B...)
}

func (a *altEnc) nodeID(n ua.NodeID, flags byte) {
	switch x := n.(type) {
	case nil:
		a.b = append(a.b, flags, 0)
	case ua.NodeIDNumeric:
		switch k := rapid.IntRange(0, 2).Draw(a.t, "form"); {
		case k == 0 && x.NamespaceIndex == 0 && x.ID < 256:
			a.b = append(a.b, flags, byte(x.ID))
		case k <= 1 && x.NamespaceIndex < 256 && x.ID < 65536:
			if x.NamespaceIndex == 0 && x.ID < 256 {
				a.used["wide node id"] = true
			}
			a.b = append(a.b, 1|flags, byte(x.NamespaceIndex))
			a.u16(uint16(x.ID))
		default:
			if x.NamespaceIndex < 256 && x.ID < 65536 {
				a.used["wide node id"] = true
			}
			a.b = append(a.b, 2|flags)
			a.u16(x.NamespaceIndex)
			a.u32(x.ID)
		}
	case ua.NodeIDString:
		a.b = append(a.b, 3|flags)
		a.u16(x.NamespaceIndex)
		a.str(x.ID)
	case ua.NodeIDGUID:
		a.b = append(a.b, 4|flags)
		a.u16(x.NamespaceIndex)
		a.canon(reflect.ValueOf(x.ID))
	case ua.NodeIDOpaque:
		a.b = append(a.b, 5|flags)
		a.u16(x.NamespaceIndex)
		a.str(string(x.ID))
	}
}

func (a *altEnc) value(v reflect.Value) {
	t := v.Type()
	switch t {
	case ref.VariantTypes[17]:
		n, _ := v.Interface().(ua.NodeID)
		a.nodeID(n, 0)
		return
	case ref.VariantTypes[18]:
		x := v.Interface().(ua.ExpandedNodeID)
		var f byte
		if x.NamespaceURI != "" {
			f |= 0x80
		}
		if x.ServerIndex != 0 {
			f |= 0x40
		}
		a.nodeID(x.NodeID, f)
		if f&0x80 != 0 {
			a.str(x.NamespaceURI)
		}
		if f&0x40 != 0 {
			a.u32(x.ServerIndex)
		}
		return
	case ref.VariantTypes[20]:
		q := v.Interface().(ua.QualifiedName)
		a.u16(q.NamespaceIndex)
		a.str(q.Name)
		return
	case ref.VariantTypes[21]:
		l := v.Interface().(ua.LocalizedText)
		var m byte
		if l.Locale != "" || a.coin("loc") {
			m |= 1
		}
		if l.Text != "" || a.coin("txt") {
			m |= 2
		}
		if (m&1 != 0 && l.Locale == "") || (m&2 != 0 && l.Text == "") {
			a.used["null masks"] = true
		}
		a.b = append(a.b, m)
		if m&1 != 0 {
			a.str(l.Locale)
		}
		if m&2 != 0 {
			a.str(l.Text)
		}
		return
	case ref.VariantTypes[24]:
		a.variant(v)
		return
	case ref.VariantTypes[23]:
		d := v.Interface().(ua.DataValue)
		e := &ref.Enc{URIs: a.uris}
		e.Value(v)
		m := e.B[0]
		if d.Value == nil && a.coin("nullvalue") {
			m |= 1
			a.used["null masks"] = true
		}
		if d.StatusCode == 0 && a.coin("good") {
			m |= 2
			a.used["null masks"] = true
		}
		if d.SourcePicoseconds == 0 && a.coin("zp") {
			m |= 16
			a.used["null masks"] = true
		}
		a.b = append(a.b, m)
		if m&1 != 0 {
			a.variant(v.FieldByName("Value"))
		}
		if m&2 != 0 {
			a.u32(uint32(d.StatusCode))
		}
		if m&4 != 0 {
			a.canon(v.FieldByName("SourceTimestamp"))
		}
		if m&16 != 0 {
			a.u16(d.SourcePicoseconds)
		}
		if m&8 != 0 {
			a.canon(v.FieldByName("ServerTimestamp"))
		}
		if m&32 != 0 {
			a.u16(d.ServerPicoseconds)
		}
		return
	case ref.VariantTypes[13], ref.VariantTypes[14], ref.VariantTypes[22], reflect.TypeOf(ua.DiagnosticInfo{}):
		a.canon(v)
		return
	}
	switch t.Kind() {
	case reflect.String:
		a.str(v.String())
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			a.canon(v)
			return
		}
		a.array(v)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			a.value(v.Field(i))
		}
	default:
		a.canon(v)
	}
}

func (a *altEnc) array(v reflect.Value) {
	if v.Len() == 0 {
		if a.coin("nullarr") {
			a.used["null array"] = true
			a.u32(0xFFFFFFFF)
		} else {
			a.used["empty array"] = true
			a.u32(0)
		}
		return
	}
	a.u32(uint32(v.Len()))
	for i := 0; i < v.Len(); i++ {
		a.value(v.Index(i))
	}
}

func (a *altEnc) variant(v reflect.Value) {
	x := v.Interface()
	switch n := x.(type) {
	case ua.NodeIDNumeric, ua.NodeIDString, ua.NodeIDGUID, ua.NodeIDOpaque:
		a.b = append(a.b, 17)
		a.nodeID(n.(ua.NodeID), 0)
		return
	case string:
		a.b = append(a.b, 12)
		a.str(n)
		return
	case ua.ByteString:
		a.b = append(a.b, 15)
		a.str(string(n))
		return
	case ua.QualifiedName:
		a.b = append(a.b, 20)
		a.value(reflect.ValueOf(n))
		return
	case ua.LocalizedText:
		a.b = append(a.b, 21)
		a.value(reflect.ValueOf(n))
		return
	case ua.ExpandedNodeID:
		a.b = append(a.b, 18)
		a.value(reflect.ValueOf(n))
		return
	}
	if x != nil && reflect.TypeOf(x).Kind() == reflect.Slice && reflect.TypeOf(x).Elem().Kind() != reflect.Slice && reflect.TypeOf(x).Elem().Kind() != reflect.Uint8 {
		e := &ref.Enc{URIs: a.uris}
		if err := e.Variant(x); err != nil {
			panic(err)
		}
		a.b = append(a.b, e.B[0])
		a.array(reflect.ValueOf(x))
		return
	}
	a.canon(v)
}
