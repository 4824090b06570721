PROPERTY="C03"
NEEDS="a GUID array whose length prefix is a negative number other than -1"
BREAKS="decoding such a message panics instead of giving a null array"
EDITS=[("ua/binary_decoder.go","""func (dec *BinaryDecoder) ReadGUIDArray(value *[]uuid.UUID) error {
	var n int32
	if err := dec.ReadInt32(&n); err != nil {
		return BadDecodingError
	}
	if n < 0 {
""","""func (dec *BinaryDecoder) ReadGUIDArray(value *[]uuid.UUID) error {
	var n int32
	if err := dec.ReadInt32(&n); err != nil {
		return BadDecodingError
	}
	if n == -1 {
""")]
PKG="ua"
DEMO='''
package ua

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	var v Variant
	// a variant holding a GUID array of length -2
	if err := NewBinaryDecoder(bytes.NewReader([]byte{0x8e, 0xfe, 0xff, 0xff, 0xff}), NewEncodingContext()).ReadVariant(&v); err == nil {
		t.Log(v)
	}
}
'''
