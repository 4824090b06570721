package ref

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
	"time"

	"github.com/awcullen/opcua/ua"
	"github.com/google/uuid"
)

// ErrDecode is returned for malformed input.
var ErrDecode = errors.New("ref: malformed input")

// ErrUnspecified is returned for input about which the standard says nothing useful.
var ErrUnspecified = errors.New("ref: unspecified input")

// Unknown stands for an extension object whose type the codec does not know.
type Unknown struct {
	ID   ua.NodeID
	Body []byte
}

// Dec is a decoder over a byte slice. It keeps unknown extension objects as nil (like ua) unless Keep is set.
type Dec struct {
	B     []byte
	Off   int
	URIs  []string
	depth int
}

// Decode decodes b into the value ptr points to and returns the number of bytes used.
func Decode(b []byte, ptr any, uris []string) (int, error) {
	d := &Dec{B: b, URIs: uris}
	err := d.Value(reflect.ValueOf(ptr).Elem())
	return d.Off, err
}

func (d *Dec) need(n int) ([]byte, error) {
	if n < 0 || d.Off+n > len(d.B) {
		return nil, fmt.Errorf("%w: short", ErrDecode)
	}
	s := d.B[d.Off : d.Off+n]
	d.Off += n
	return s, nil
}

func (d *Dec) u8() (byte, error) {
	b, err := d.need(1)
	if err != nil {
		return 0, err
	}
	return b[0], nil
}
func (d *Dec) u16() (uint16, error) {
	b, err := d.need(2)
	if err != nil {
		return 0, err
	}
	return binary.LittleEndian.Uint16(b), nil
}
func (d *Dec) u32() (uint32, error) {
	b, err := d.need(4)
	if err != nil {
		return 0, err
	}
	return binary.LittleEndian.Uint32(b), nil
}
func (d *Dec) u64() (uint64, error) {
	b, err := d.need(8)
	if err != nil {
		return 0, err
	}
	return binary.LittleEndian.Uint64(b), nil
}
func (d *Dec) bytes() ([]byte, bool, error) {
	n, err := d.u32()
	if err != nil {
		return nil, false, err
	}
	if int32(n) < 0 {
		return nil, true, nil
	}
	b, err := d.need(int(n))
	return b, false, err
}
func (d *Dec) guid() (g uuid.UUID, err error) {
	b, err := d.need(16)
	if err != nil {
		return g, err
	}
	binary.BigEndian.PutUint32(g[0:], binary.LittleEndian.Uint32(b[0:]))
	binary.BigEndian.PutUint16(g[4:], binary.LittleEndian.Uint16(b[4:]))
	binary.BigEndian.PutUint16(g[6:], binary.LittleEndian.Uint16(b[6:]))
	copy(g[8:], b[8:])
	return g, nil
}

func (d *Dec) nodeID(form byte) (ua.NodeID, error) {
	switch form {
	case 0:
		b, err := d.u8()
		if err != nil {
			return nil, err
		}
		if b == 0 {
			return nil, nil
		}
		return ua.NodeIDNumeric{ID: uint32(b)}, nil
	case 1:
		ns, err := d.u8()
		if err != nil {
			return nil, err
		}
		id, err := d.u16()
		return ua.NodeIDNumeric{NamespaceIndex: uint16(ns), ID: uint32(id)}, err
	}
	if form > 5 && form&0x0f <= 5 {
		return nil, fmt.Errorf("%w: node id form %d", ErrUnspecified, form)
	}
	if form > 5 {
		return nil, fmt.Errorf("%w: node id form %d", ErrDecode, form)
	}
	ns, err := d.u16()
	if err != nil {
		return nil, err
	}
	switch form {
	case 2:
		id, err := d.u32()
		return ua.NodeIDNumeric{NamespaceIndex: ns, ID: id}, err
	case 3:
		b, _, err := d.bytes()
		return ua.NodeIDString{NamespaceIndex: ns, ID: string(b)}, err
	case 4:
		g, err := d.guid()
		return ua.NodeIDGUID{NamespaceIndex: ns, ID: g}, err
	default:
		b, _, err := d.bytes()
		return ua.NodeIDOpaque{NamespaceIndex: ns, ID: ua.ByteString(b)}, err
	}
}

// Value decodes into a settable value.
func (d *Dec) Value(v reflect.Value) error {
	t := v.Type()
	switch t {
	case tTime:
		x, err := d.u64()
		if err == nil {
			v.Set(reflect.ValueOf(TimeOf(int64(x))))
		}
		return err
	case tGUID:
		g, err := d.guid()
		if err == nil {
			v.Set(reflect.ValueOf(g))
		}
		return err
	case tNodeID:
		f, err := d.u8()
		if err != nil {
			return err
		}
		n, err := d.nodeID(f)
		if err != nil {
			return err
		}
		if n == nil {
			v.SetZero()
		} else {
			v.Set(reflect.ValueOf(n))
		}
		return nil
	case tXNodeID:
		f, err := d.u8()
		if err != nil {
			return err
		}
		n, err := d.nodeID(f & 0x3F)
		if err != nil {
			return err
		}
		x := ua.ExpandedNodeID{NodeID: n}
		if f&0x80 != 0 {
			b, _, err := d.bytes()
			if err != nil {
				return err
			}
			x.NamespaceURI = string(b)
		}
		if f&0x40 != 0 {
			if x.ServerIndex, err = d.u32(); err != nil {
				return err
			}
		}
		v.Set(reflect.ValueOf(x))
		return nil
	case tQName:
		ns, err := d.u16()
		if err != nil {
			return err
		}
		b, _, err := d.bytes()
		v.Set(reflect.ValueOf(ua.QualifiedName{NamespaceIndex: ns, Name: string(b)}))
		return err
	case tLText:
		m, err := d.u8()
		if err != nil {
			return err
		}
		var l ua.LocalizedText
		if m&1 != 0 {
			b, _, err := d.bytes()
			if err != nil {
				return err
			}
			l.Locale = string(b)
		}
		if m&2 != 0 {
			b, _, err := d.bytes()
			if err != nil {
				return err
			}
			l.Text = string(b)
		}
		v.Set(reflect.ValueOf(l))
		return nil
	case tDV:
		x, err := d.dataValue()
		if err == nil {
			v.Set(reflect.ValueOf(x))
		}
		return err
	case tXObj:
		x, err := d.xobj()
		if err != nil {
			return err
		}
		if x == nil {
			v.SetZero()
		} else {
			v.Set(reflect.ValueOf(x))
		}
		return nil
	case tVariant:
		x, err := d.Variant()
		if err != nil {
			return err
		}
		if x == nil {
			v.SetZero()
		} else {
			v.Set(reflect.ValueOf(x))
		}
		return nil
	case tDiag:
		x, err := d.diag()
		if err == nil {
			v.Set(reflect.ValueOf(*x))
		}
		return err
	}
	switch t.Kind() {
	case reflect.Bool:
		b, err := d.u8()
		v.SetBool(b != 0)
		return err
	case reflect.Int8:
		b, err := d.u8()
		v.SetInt(int64(int8(b)))
		return err
	case reflect.Int16:
		b, err := d.u16()
		v.SetInt(int64(int16(b)))
		return err
	case reflect.Int32:
		b, err := d.u32()
		v.SetInt(int64(int32(b)))
		return err
	case reflect.Int64:
		b, err := d.u64()
		v.SetInt(int64(b))
		return err
	case reflect.Uint8:
		b, err := d.u8()
		v.SetUint(uint64(b))
		return err
	case reflect.Uint16:
		b, err := d.u16()
		v.SetUint(uint64(b))
		return err
	case reflect.Uint32:
		b, err := d.u32()
		v.SetUint(uint64(b))
		return err
	case reflect.Uint64:
		b, err := d.u64()
		v.SetUint(b)
		return err
	case reflect.Float32:
		b, err := d.u32()
		f := math.Float32frombits(b)
		v.Set(reflect.ValueOf(f).Convert(t))
		return err
	case reflect.Float64:
		b, err := d.u64()
		v.SetFloat(math.Float64frombits(b))
		return err
	case reflect.String:
		b, _, err := d.bytes()
		v.SetString(string(b))
		return err
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			b, null, err := d.bytes()
			if !null {
				v.Set(reflect.ValueOf(append([]byte{}, b...)).Convert(t))
			}
			return err
		}
		s, err := d.slice(t.Elem())
		if err == nil {
			v.Set(s.Convert(t))
		}
		return err
	case reflect.Struct:
		if s, ok := byType[t]; ok {
			for _, f := range s.Fields {
				if err := d.Value(v.FieldByName(f)); err != nil {
					return err
				}
			}
			return nil
		}
		for i := 0; i < v.NumField(); i++ {
			if err := d.Value(v.Field(i)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Ptr:
		p := reflect.New(t.Elem())
		if err := d.Value(p.Elem()); err != nil {
			return err
		}
		v.Set(p)
		return nil
	}
	return fmt.Errorf("%w: type %s", ErrDecode, t)
}

func (d *Dec) slice(et reflect.Type) (reflect.Value, error) {
	st := reflect.SliceOf(et)
	n, err := d.u32()
	if err != nil {
		return reflect.Value{}, err
	}
	if int32(n) < 0 {
		return reflect.Zero(st), nil
	}
	s := reflect.MakeSlice(st, 0, min(int(n), 64))
	for i := 0; i < int(n); i++ {
		x := reflect.New(et).Elem()
		if err := d.Value(x); err != nil {
			return reflect.Value{}, err
		}
		s = reflect.Append(s, x)
		if et.Size() == 0 && i > 1<<20 {
			return reflect.Value{}, ErrDecode
		}
	}
	return s, nil
}

func (d *Dec) enter() error {
	d.depth++
	if d.depth > 100 {
		return fmt.Errorf("%w: nested too deeply", ErrDecode)
	}
	return nil
}

func (d *Dec) dataValue() (x ua.DataValue, err error) {
	if err = d.enter(); err != nil {
		return
	}
	defer func() { d.depth-- }()
	m, err := d.u8()
	if err != nil {
		return
	}
	var u uint32
	var q uint64
	if m&1 != 0 {
		if x.Value, err = d.Variant(); err != nil {
			return
		}
	}
	if m&2 != 0 {
		if u, err = d.u32(); err != nil {
			return
		}
		x.StatusCode = ua.StatusCode(u)
	}
	if m&4 != 0 {
		if q, err = d.u64(); err != nil {
			return
		}
		x.SourceTimestamp = TimeOf(int64(q))
	}
	if m&16 != 0 {
		if x.SourcePicoseconds, err = d.u16(); err != nil {
			return
		}
	}
	if m&8 != 0 {
		if q, err = d.u64(); err != nil {
			return
		}
		x.ServerTimestamp = TimeOf(int64(q))
	}
	if m&32 != 0 {
		if x.ServerPicoseconds, err = d.u16(); err != nil {
			return
		}
	}
	return
}

func (d *Dec) diag() (x *ua.DiagnosticInfo, err error) {
	if err = d.enter(); err != nil {
		return
	}
	defer func() { d.depth-- }()
	m, err := d.u8()
	if err != nil {
		return nil, err
	}
	x = &ua.DiagnosticInfo{}
	i32 := func(bit byte, p **int32) {
		if m&bit != 0 && err == nil {
			var u uint32
			u, err = d.u32()
			i := int32(u)
			*p = &i
		}
	}
	i32(1, &x.SymbolicID)
	i32(2, &x.NamespaceURI)
	i32(8, &x.Locale)
	i32(4, &x.LocalizedText)
	if err != nil {
		return nil, err
	}
	if m&16 != 0 {
		b, _, err := d.bytes()
		if err != nil {
			return nil, err
		}
		s := string(b)
		x.AdditionalInfo = &s
	}
	if m&32 != 0 {
		u, err := d.u32()
		if err != nil {
			return nil, err
		}
		s := ua.StatusCode(u)
		x.InnerStatusCode = &s
	}
	if m&64 != 0 {
		if x.InnerDiagnosticInfo, err = d.diag(); err != nil {
			return nil, err
		}
	}
	return x, nil
}

func (d *Dec) xobj() (any, error) {
	if err := d.enter(); err != nil {
		return nil, err
	}
	defer func() { d.depth-- }()
	f, err := d.u8()
	if err != nil {
		return nil, err
	}
	id, err := d.nodeID(f)
	if err != nil {
		return nil, err
	}
	k, err := d.u8()
	if err != nil {
		return nil, err
	}
	switch k {
	case 0:
		return nil, nil
	case 1:
		b, null, err := d.bytes()
		if err != nil {
			return nil, err
		}
		if null {
			return nil, fmt.Errorf("%w: extension object without length", ErrUnspecified)
		}
		var t reflect.Type
		if n, ok := id.(ua.NodeIDNumeric); ok {
			if n.NamespaceIndex == 0 {
				t, _ = TypeForID(n.ID)
			} else if int(n.NamespaceIndex) < len(d.URIs) {
				t = customByID[customID{d.URIs[n.NamespaceIndex], n.ID}]
			}
		}
		if t == nil {
			return nil, nil
		}
		sub := &Dec{B: b, URIs: d.URIs, depth: d.depth}
		p := reflect.New(t).Elem()
		if err := sub.Value(p); err != nil {
			return nil, err
		}
		return p.Interface(), nil
	case 2:
		_, _, err := d.bytes()
		return nil, err
	}
	return nil, fmt.Errorf("%w: extension object encoding %d", ErrDecode, k)
}

// Variant decodes a variant.
func (d *Dec) Variant() (any, error) {
	if err := d.enter(); err != nil {
		return nil, err
	}
	defer func() { d.depth-- }()
	m, err := d.u8()
	if err != nil {
		return nil, err
	}
	id := m & 0x3F
	if id == 0 {
		if m&0xC0 != 0 {
			return nil, fmt.Errorf("%w: array of null", ErrUnspecified)
		}
		return nil, nil
	}
	t, ok := VariantTypes[id]
	if !ok && id != 25 {
		return nil, fmt.Errorf("%w: built-in type %d", ErrDecode, id)
	}
	if id == 25 {
		t = tDiag
	}
	if m&0x80 == 0 {
		x := reflect.New(t).Elem()
		if err := d.Value(x); err != nil {
			return nil, err
		}
		return x.Interface(), nil
	}
	s, err := d.slice(t)
	if err != nil {
		return nil, err
	}
	if m&0x40 == 0 {
		return s.Interface(), nil
	}
	ds, err := d.slice(reflect.TypeOf(int32(0)))
	if err != nil {
		return nil, err
	}
	dims := ds.Interface().([]int32)
	if len(dims) != 2 && len(dims) != 3 {
		return nil, fmt.Errorf("%w: %d dimensions", ErrUnspecified, len(dims))
	}
	total, rows := 1, 1
	for i, x := range dims {
		if x > 1000 && s.Len() == 0 {
			return nil, fmt.Errorf("%w: large dimension of nothing", ErrUnspecified)
		}
		if x >= 0 && i < len(dims)-1 {
			if rows *= int(x); s.Len() == 0 && rows > 1000 {
				return nil, fmt.Errorf("%w: many empty rows", ErrUnspecified)
			}
		}
	}
	for _, x := range dims {
		if x < 0 || int(x) > 1<<28 {
			return nil, fmt.Errorf("%w: dimension %d", ErrDecode, x)
		}
		total *= int(x)
		if total > 1<<28 {
			return nil, fmt.Errorf("%w: dimensions", ErrDecode)
		}
	}
	if total != s.Len() {
		return nil, fmt.Errorf("%w: dimensions %v for %d elements", ErrDecode, dims, s.Len())
	}
	off := 0
	var build func(l int) reflect.Value
	build = func(l int) reflect.Value {
		if l == len(dims)-1 {
			r := s.Slice(off, off+int(dims[l]))
			off += int(dims[l])
			return r
		}
		bt := t
		for i := l + 1; i < len(dims); i++ {
			bt = reflect.SliceOf(bt)
		}
		r := reflect.MakeSlice(reflect.SliceOf(bt), 0, 4)
		for i := 0; i < int(dims[l]); i++ {
			r = reflect.Append(r, build(l+1))
		}
		return r
	}
	return build(0).Interface(), nil
}

var _ = time.Time{}
