package ref

import (
	"fmt"
	"math"
	"reflect"
	"time"

	"github.com/awcullen/opcua/ua"
	"github.com/google/uuid"
)

// Diff compares two values up to the documented identifications (null = empty, 100 ns ticks,
// null node ids) and returns "" or a description of the first difference.
func Diff(a, b any) string {
	return diff(reflect.ValueOf(a), reflect.ValueOf(b), "")
}

func isNullNodeID(n ua.NodeID) bool {
	switch x := n.(type) {
	case nil:
		return true
	case ua.NodeIDNumeric:
		return x.NamespaceIndex == 0 && x.ID == 0
	case ua.NodeIDString:
		return x.NamespaceIndex == 0 && x.ID == ""
	case ua.NodeIDGUID:
		return x.NamespaceIndex == 0 && x.ID == uuid.UUID{}
	case ua.NodeIDOpaque:
		return x.NamespaceIndex == 0 && x.ID == ""
	}
	return false
}

func withNS(n ua.NodeID, ns uint16) ua.NodeID {
	switch x := n.(type) {
	case ua.NodeIDNumeric:
		x.NamespaceIndex = ns
		return x
	case ua.NodeIDString:
		x.NamespaceIndex = ns
		return x
	case ua.NodeIDGUID:
		x.NamespaceIndex = ns
		return x
	case ua.NodeIDOpaque:
		x.NamespaceIndex = ns
		return x
	}
	return n
}

func nodeIDEq(a, b ua.NodeID) bool {
	if isNullNodeID(a) || isNullNodeID(b) {
		return isNullNodeID(a) && isNullNodeID(b)
	}
	return a == b
}

func emptyish(v reflect.Value) bool {
	if !v.IsValid() {
		return true
	}
	switch v.Kind() {
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if v.Index(i).Kind() != reflect.Slice || v.Type().Elem().Kind() != reflect.Slice || !emptyish(v.Index(i)) {
				return false
			}
		}
		return true
	}
	return false
}

func rank(t reflect.Type) int {
	n := 0
	for t.Kind() == reflect.Slice {
		n++
		t = t.Elem()
	}
	return n
}

func diff(a, b reflect.Value, path string) string {
	for a.IsValid() && a.Kind() == reflect.Interface && a.Type() != tNodeID {
		a = a.Elem()
	}
	for b.IsValid() && b.Kind() == reflect.Interface && b.Type() != tNodeID {
		b = b.Elem()
	}
	show := func(v reflect.Value) string {
		if !v.IsValid() {
			return "nil"
		}
		s := fmt.Sprintf("%T(%+v)", v.Interface(), v.Interface())
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		return s
	}
	differ := func() string { return fmt.Sprintf("at %s: %s != %s", path, show(a), show(b)) }
	if !a.IsValid() || !b.IsValid() {
		// a nil variant only equals nil; nil node ids are handled below
		if !a.IsValid() && !b.IsValid() {
			return ""
		}
		x := a
		if !x.IsValid() {
			x = b
		}
		if n, ok := x.Interface().(ua.NodeID); ok && isNullNodeID(n) {
			return ""
		}
		return differ()
	}
	if na, ok := a.Interface().(ua.NodeID); ok || a.Type() == tNodeID {
		nb, ok2 := b.Interface().(ua.NodeID)
		if !ok2 && b.Type() != tNodeID {
			return differ()
		}
		if !nodeIDEq(na, nb) {
			return differ()
		}
		return ""
	}
	if a.Type() != b.Type() {
		return differ()
	}
	switch x := a.Interface().(type) {
	case time.Time:
		if Ticks(x) != Ticks(b.Interface().(time.Time)) {
			return differ()
		}
		return ""
	case uuid.UUID:
		if x != b.Interface().(uuid.UUID) {
			return differ()
		}
		return ""
	case ua.ExpandedNodeID:
		y := b.Interface().(ua.ExpandedNodeID)
		if x.NamespaceURI != y.NamespaceURI || x.ServerIndex != y.ServerIndex {
			return differ()
		}
		n, m := x.NodeID, y.NodeID
		if x.NamespaceURI != "" {
			n, m = withNS(n, 0), withNS(m, 0)
		}
		if !nodeIDEq(n, m) {
			return differ()
		}
		return ""
	case ua.DataValue:
		y := b.Interface().(ua.DataValue)
		if x.SourceTimestamp.IsZero() != y.SourceTimestamp.IsZero() || x.ServerTimestamp.IsZero() != y.ServerTimestamp.IsZero() {
			return differ()
		}
	}
	switch a.Kind() {
	case reflect.Float32:
		if math.Float32bits(a.Interface().(float32)) != math.Float32bits(b.Interface().(float32)) {
			return differ()
		}
	case reflect.Float64:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return differ()
		}
	case reflect.Slice:
		if rank(a.Type()) > 1 && emptyish(a) && emptyish(b) {
			return ""
		}
		if a.Len() != b.Len() {
			return differ()
		}
		for i := 0; i < a.Len(); i++ {
			if s := diff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); s != "" {
				return s
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if s := diff(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); s != "" {
				return s
			}
		}
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return differ()
			}
			return ""
		}
		return diff(a.Elem(), b.Elem(), path)
	default:
		if a.Interface() != b.Interface() {
			return differ()
		}
	}
	return ""
}
