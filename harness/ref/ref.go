// Package ref is an independent, deliberately simple implementation of OPC UA Part 6 "UA Binary"
// over the Go types of package ua. It shares no code with ua's codec: it works on reflect values,
// takes structure layouts and type ids from its own table, and is the oracle for the codec checks
// and the codec of the harness' own protocol stack.
package ref

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
	"time"

	"github.com/awcullen/opcua/ua"
	"github.com/google/uuid"
)

// StructInfo describes one generated structure.
type StructInfo struct {
	Type   reflect.Type
	ID     uint32
	Fields []string
}

var (
	byType = map[reflect.Type]*StructInfo{}
	byID   = map[uint32]*StructInfo{}
	// custom registered types, by namespace uri
	customByType = map[reflect.Type]customID{}
	customByID   = map[customID]reflect.Type{}
)

type customID struct {
	uri string
	id  uint32
}

func init() {
	for i := range structTable {
		s := &structTable[i]
		byType[s.Type] = s
		if s.ID != 0 {
			byID[s.ID] = s
		}
	}
}

// Structs lists the generated structures.
func Structs() []StructInfo { return structTable }

// TypeID returns the binary encoding id of a generated structure.
func TypeID(t reflect.Type) uint32 {
	if s, ok := byType[t]; ok {
		return s.ID
	}
	return 0
}

// TypeForID is the inverse of TypeID.
func TypeForID(id uint32) (reflect.Type, bool) {
	if s, ok := byID[id]; ok {
		return s.Type, true
	}
	return nil, false
}

// RegisterCustom tells the reference codec about a custom structure.
func RegisterCustom(t reflect.Type, uri string, id uint32) {
	customByType[t] = customID{uri, id}
	customByID[customID{uri, id}] = t
}

var (
	tTime    = reflect.TypeOf(time.Time{})
	tGUID    = reflect.TypeOf(uuid.UUID{})
	tNodeID  = reflect.TypeOf((*ua.NodeID)(nil)).Elem()
	tXNodeID = reflect.TypeOf(ua.ExpandedNodeID{})
	tQName   = reflect.TypeOf(ua.QualifiedName{})
	tLText   = reflect.TypeOf(ua.LocalizedText{})
	tDV      = reflect.TypeOf(ua.DataValue{})
	tXObj    = reflect.TypeOf((*ua.ExtensionObject)(nil)).Elem()
	tVariant = reflect.TypeOf((*ua.Variant)(nil)).Elem()
	tDiag    = reflect.TypeOf(ua.DiagnosticInfo{})
	tBS      = reflect.TypeOf(ua.ByteString(""))
	tXML     = reflect.TypeOf(ua.XMLElement(""))
	tStatus  = reflect.TypeOf(ua.StatusCode(0))
)

// VariantTypes maps built-in type ids to Go types.
var VariantTypes = map[byte]reflect.Type{
	1: reflect.TypeOf(false), 2: reflect.TypeOf(int8(0)), 3: reflect.TypeOf(uint8(0)), 4: reflect.TypeOf(int16(0)),
	5: reflect.TypeOf(uint16(0)), 6: reflect.TypeOf(int32(0)), 7: reflect.TypeOf(uint32(0)), 8: reflect.TypeOf(int64(0)),
	9: reflect.TypeOf(uint64(0)), 10: reflect.TypeOf(float32(0)), 11: reflect.TypeOf(float64(0)), 12: reflect.TypeOf(""),
	13: tTime, 14: tGUID, 15: tBS, 16: tXML, 17: tNodeID, 18: tXNodeID, 19: tStatus, 20: tQName, 21: tLText, 22: tXObj, 23: tDV, 24: tVariant,
}

var variantIDs = map[reflect.Type]byte{}

func init() {
	for k, v := range VariantTypes {
		variantIDs[v] = k
	}
}

// ErrEncode is returned for values that have no encoding.
var ErrEncode = errors.New("ref: value has no encoding")

// Enc is an encoder.
type Enc struct {
	B    []byte
	URIs []string
}

// Encode encodes v (a value, or a pointer to it, whose static type decides the encoding).
func Encode(v any, uris []string) ([]byte, error) {
	e := &Enc{URIs: uris}
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Ptr {
		rv = rv.Elem()
	}
	err := e.Value(rv)
	return e.B, err
}

func (e *Enc) u8(v byte)    { e.B = append(e.B, v) }
func (e *Enc) u16(v uint16) { e.B = binary.LittleEndian.AppendUint16(e.B, v) }
func (e *Enc) u32(v uint32) { e.B = binary.LittleEndian.AppendUint32(e.B, v) }
func (e *Enc) u64(v uint64) { e.B = binary.LittleEndian.AppendUint64(e.B, v) }
func (e *Enc) str(s string) {
	if s == "" {
		e.u32(0xFFFFFFFF)
		return
	}
	e.u32(uint32(len(s)))
	e.B = append(e.B, s...)
}
func (e *Enc) guid(g uuid.UUID) {
	// Data1 (4), Data2 (2), Data3 (2) little endian, Data4 as is
	e.u32(binary.BigEndian.Uint32(g[0:4]))
	e.u16(binary.BigEndian.Uint16(g[4:6]))
	e.u16(binary.BigEndian.Uint16(g[6:8]))
	e.B = append(e.B, g[8:]...)
}

var epoch1601 = time.Date(1601, 1, 1, 0, 0, 0, 0, time.UTC)
var end9999 = time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC)

// Ticks converts a time to its encoded form.
func Ticks(t time.Time) int64 {
	if !t.After(epoch1601) {
		return 0
	}
	if !t.Before(end9999) {
		return math.MaxInt64
	}
	secs := t.Unix() - epoch1601.Unix()
	return secs*10_000_000 + int64(t.Nanosecond()/100)
}

// TimeOf is the inverse of Ticks.
func TimeOf(ticks int64) time.Time {
	if ticks <= 0 {
		return epoch1601
	}
	if ticks == math.MaxInt64 {
		return end9999
	}
	return time.Unix(epoch1601.Unix()+ticks/10_000_000, ticks%10_000_000*100).UTC()
}

func (e *Enc) nodeID(n ua.NodeID, flags byte, zeroNS bool) error {
	switch x := n.(type) {
	case nil:
		e.u8(flags)
		e.u8(0)
	case ua.NodeIDNumeric:
		ns := x.NamespaceIndex
		if zeroNS {
			ns = 0
		}
		if ns == 0 && x.ID < 256 {
			e.u8(0 | flags)
			e.u8(byte(x.ID))
		} else if ns < 256 && x.ID < 65536 {
			e.u8(1 | flags)
			e.u8(byte(ns))
			e.u16(uint16(x.ID))
		} else {
			e.u8(2 | flags)
			e.u16(ns)
			e.u32(x.ID)
		}
	case ua.NodeIDString:
		e.u8(3 | flags)
		e.ns(x.NamespaceIndex, zeroNS)
		e.str(x.ID)
	case ua.NodeIDGUID:
		e.u8(4 | flags)
		e.ns(x.NamespaceIndex, zeroNS)
		e.guid(x.ID)
	case ua.NodeIDOpaque:
		e.u8(5 | flags)
		e.ns(x.NamespaceIndex, zeroNS)
		e.str(string(x.ID))
	default:
		return fmt.Errorf("%w: node id %T", ErrEncode, n)
	}
	return nil
}

func (e *Enc) ns(ns uint16, zero bool) {
	if zero {
		ns = 0
	}
	e.u16(ns)
}

// Value encodes a reflect value by its static type.
func (e *Enc) Value(v reflect.Value) error {
	t := v.Type()
	switch t {
	case tTime:
		e.u64(uint64(Ticks(v.Interface().(time.Time))))
		return nil
	case tGUID:
		e.guid(v.Interface().(uuid.UUID))
		return nil
	case tNodeID:
		n, _ := v.Interface().(ua.NodeID)
		return e.nodeID(n, 0, false)
	case tXNodeID:
		x := v.Interface().(ua.ExpandedNodeID)
		var f byte
		if x.NamespaceURI != "" {
			f |= 0x80
		}
		if x.ServerIndex != 0 {
			f |= 0x40
		}
		if err := e.nodeID(x.NodeID, f, f&0x80 != 0); err != nil {
			return err
		}
		if f&0x80 != 0 {
			e.str(x.NamespaceURI)
		}
		if f&0x40 != 0 {
			e.u32(x.ServerIndex)
		}
		return nil
	case tQName:
		q := v.Interface().(ua.QualifiedName)
		e.u16(q.NamespaceIndex)
		e.str(q.Name)
		return nil
	case tLText:
		l := v.Interface().(ua.LocalizedText)
		var m byte
		if l.Locale != "" {
			m |= 1
		}
		if l.Text != "" {
			m |= 2
		}
		e.u8(m)
		if m&1 != 0 {
			e.str(l.Locale)
		}
		if m&2 != 0 {
			e.str(l.Text)
		}
		return nil
	case tDV:
		return e.dataValue(v.Interface().(ua.DataValue))
	case tXObj:
		return e.xobj(v.Interface())
	case tVariant:
		return e.Variant(v.Interface())
	case tDiag:
		d := v.Interface().(ua.DiagnosticInfo)
		return e.diag(&d)
	}
	switch t.Kind() {
	case reflect.Bool:
		if v.Bool() {
			e.u8(1)
		} else {
			e.u8(0)
		}
	case reflect.Int8:
		e.u8(byte(v.Int()))
	case reflect.Int16:
		e.u16(uint16(v.Int()))
	case reflect.Int32:
		e.u32(uint32(v.Int()))
	case reflect.Int64:
		e.u64(uint64(v.Int()))
	case reflect.Uint8:
		e.u8(byte(v.Uint()))
	case reflect.Uint16:
		e.u16(uint16(v.Uint()))
	case reflect.Uint32:
		e.u32(uint32(v.Uint()))
	case reflect.Uint64:
		e.u64(v.Uint())
	case reflect.Float32:
		e.u32(math.Float32bits(v.Interface().(float32)))
	case reflect.Float64:
		e.u64(math.Float64bits(v.Float()))
	case reflect.String:
		e.str(v.String())
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			if v.IsNil() {
				e.u32(0xFFFFFFFF)
				return nil
			}
			e.u32(uint32(v.Len()))
			e.B = append(e.B, v.Bytes()...)
			return nil
		}
		e.u32(uint32(v.Len()))
		for i := 0; i < v.Len(); i++ {
			if err := e.Value(v.Index(i)); err != nil {
				return err
			}
		}
	case reflect.Struct:
		return e.fields(v)
	case reflect.Ptr:
		if v.IsNil() {
			return fmt.Errorf("%w: nil pointer", ErrEncode)
		}
		return e.Value(v.Elem())
	default:
		return fmt.Errorf("%w: %s", ErrEncode, t)
	}
	return nil
}

func (e *Enc) fields(v reflect.Value) error {
	if s, ok := byType[v.Type()]; ok {
		for _, f := range s.Fields {
			if err := e.Value(v.FieldByName(f)); err != nil {
				return err
			}
		}
		return nil
	}
	for i := 0; i < v.NumField(); i++ {
		if err := e.Value(v.Field(i)); err != nil {
			return err
		}
	}
	return nil
}

func (e *Enc) dataValue(d ua.DataValue) error {
	var m byte
	if d.Value != nil {
		m |= 1
	}
	if d.StatusCode != 0 {
		m |= 2
	}
	if !d.SourceTimestamp.IsZero() {
		m |= 4
	}
	if !d.ServerTimestamp.IsZero() {
		m |= 8
	}
	if d.SourcePicoseconds != 0 {
		m |= 16
	}
	if d.ServerPicoseconds != 0 {
		m |= 32
	}
	e.u8(m)
	if m&1 != 0 {
		if err := e.Variant(d.Value); err != nil {
			return err
		}
	}
	if m&2 != 0 {
		e.u32(uint32(d.StatusCode))
	}
	if m&4 != 0 {
		e.u64(uint64(Ticks(d.SourceTimestamp)))
	}
	if m&16 != 0 {
		e.u16(d.SourcePicoseconds)
	}
	if m&8 != 0 {
		e.u64(uint64(Ticks(d.ServerTimestamp)))
	}
	if m&32 != 0 {
		e.u16(d.ServerPicoseconds)
	}
	return nil
}

func (e *Enc) diag(d *ua.DiagnosticInfo) error {
	var m byte
	set := func(b byte, on bool) {
		if on {
			m |= b
		}
	}
	set(0x01, d.SymbolicID != nil)
	set(0x02, d.NamespaceURI != nil)
	set(0x04, d.LocalizedText != nil)
	set(0x08, d.Locale != nil)
	set(0x10, d.AdditionalInfo != nil)
	set(0x20, d.InnerStatusCode != nil)
	set(0x40, d.InnerDiagnosticInfo != nil)
	e.u8(m)
	for _, p := range []*int32{d.SymbolicID, d.NamespaceURI, d.Locale, d.LocalizedText} {
		if p != nil {
			e.u32(uint32(*p))
		}
	}
	if d.AdditionalInfo != nil {
		e.str(*d.AdditionalInfo)
	}
	if d.InnerStatusCode != nil {
		e.u32(uint32(*d.InnerStatusCode))
	}
	if d.InnerDiagnosticInfo != nil {
		return e.diag(d.InnerDiagnosticInfo)
	}
	return nil
}

func (e *Enc) xobj(x any) error {
	if x == nil {
		e.u8(0)
		e.u8(0)
		e.u8(0)
		return nil
	}
	v := reflect.ValueOf(x)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	var id ua.NodeID
	if s, ok := byType[v.Type()]; ok && s.ID != 0 {
		id = ua.NodeIDNumeric{NamespaceIndex: 0, ID: s.ID}
	} else if c, ok := customByType[v.Type()]; ok {
		found := false
		for i, u := range e.URIs {
			if u == c.uri {
				id = ua.NodeIDNumeric{NamespaceIndex: uint16(i), ID: c.id}
				found = true
				break
			}
		}
		if !found {
			return fmt.Errorf("%w: namespace of %s", ErrEncode, v.Type())
		}
	} else {
		return fmt.Errorf("%w: extension object %s", ErrEncode, v.Type())
	}
	if err := e.nodeID(id, 0, false); err != nil {
		return err
	}
	e.u8(1)
	sub := &Enc{URIs: e.URIs}
	if err := sub.Value(v); err != nil {
		return err
	}
	e.u32(uint32(len(sub.B)))
	e.B = append(e.B, sub.B...)
	return nil
}

// Variant encodes a variant.
func (e *Enc) Variant(x any) error {
	if x == nil {
		e.u8(0)
		return nil
	}
	t := reflect.TypeOf(x)
	v := reflect.ValueOf(x)
	switch n := x.(type) {
	case ua.NodeIDNumeric, ua.NodeIDString, ua.NodeIDGUID, ua.NodeIDOpaque:
		e.u8(17)
		return e.nodeID(n.(ua.NodeID), 0, false)
	}
	if id, ok := variantIDs[t]; ok && id != 24 && id != 22 && id != 17 {
		e.u8(id)
		return e.Value(v)
	}
	if t.Kind() == reflect.Slice {
		rank := 1
		et := t.Elem()
		for et.Kind() == reflect.Slice && rank < 3 {
			et = et.Elem()
			rank++
		}
		id, ok := variantIDs[et]
		if !ok {
			return fmt.Errorf("%w: variant of %s", ErrEncode, t)
		}
		if rank == 1 {
			e.u8(id | 0x80)
			if v.IsNil() {
				e.u32(0xFFFFFFFF)
				return nil
			}
			e.u32(uint32(v.Len()))
			for i := 0; i < v.Len(); i++ {
				if err := e.Value(v.Index(i)); err != nil {
					return err
				}
			}
			return nil
		}
		dims, flat, ok := Flatten(v, rank)
		if !ok {
			return fmt.Errorf("%w: ragged %s", ErrEncode, t)
		}
		e.u8(id | 0xC0)
		e.u32(uint32(len(flat)))
		for _, f := range flat {
			if err := e.Value(f); err != nil {
				return err
			}
		}
		e.u32(uint32(rank))
		for _, d := range dims {
			e.u32(uint32(d))
		}
		return nil
	}
	if t.Kind() == reflect.Struct {
		e.u8(22)
		return e.xobj(x)
	}
	return fmt.Errorf("%w: variant of %s", ErrEncode, t)
}

// Flatten returns the dimensions and elements of a matrix; ok is false if it is ragged.
func Flatten(v reflect.Value, rank int) (dims []int, flat []reflect.Value, ok bool) {
	dims = make([]int, rank)
	for i := range dims {
		dims[i] = -1
	}
	ok = true
	var walk func(v reflect.Value, l int)
	walk = func(v reflect.Value, l int) {
		if dims[l] < 0 {
			dims[l] = v.Len()
		} else if dims[l] != v.Len() {
			ok = false
		}
		for i := 0; i < v.Len(); i++ {
			if l == rank-1 {
				flat = append(flat, v.Index(i))
			} else {
				walk(v.Index(i), l+1)
			}
		}
	}
	walk(v, 0)
	for i := range dims {
		if dims[i] < 0 {
			dims[i] = 0
		}
	}
	if len(flat) == 0 && rank == 3 && dims[1] == 0 {
		dims[0] = 0 // an empty matrix: which empty shape is announced is immaterial
	}
	return
}
