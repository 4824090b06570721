PROPERTY="C02"
NEEDS="a data value with server timestamp and source picoseconds, encoded by one side and decoded by a conforming peer"
BREAKS="encoder and decoder both place the source picoseconds after the server timestamp, which no other OPC UA stack does"
EDITS=[("ua/binary_encoder.go","""	if (b & 16) != 0 {
		if err := enc.WriteUInt16(value.SourcePicoseconds); err != nil {
			return BadEncodingError
		}
	}

	if (b & 8) != 0 {
		if err := enc.WriteDateTime(value.ServerTimestamp); err != nil {
			return BadEncodingError
		}
	}
""","""	if (b & 8) != 0 {
		if err := enc.WriteDateTime(value.ServerTimestamp); err != nil {
			return BadEncodingError
		}
	}

	if (b & 16) != 0 {
		if err := enc.WriteUInt16(value.SourcePicoseconds); err != nil {
			return BadEncodingError
		}
	}
"""),("ua/binary_decoder.go","""	if (b & 16) != 0 {
		if err := dec.ReadUInt16(&sourcePicoseconds); err != nil {
			return BadDecodingError
		}
	}
	if (b & 8) != 0 {
		if err = dec.ReadDateTime(&serverTimestamp); err != nil {
			return BadDecodingError
		}
	}
""","""	if (b & 8) != 0 {
		if err = dec.ReadDateTime(&serverTimestamp); err != nil {
			return BadDecodingError
		}
	}
	if (b & 16) != 0 {
		if err := dec.ReadUInt16(&sourcePicoseconds); err != nil {
			return BadDecodingError
		}
	}
""")]
PKG="ua"
DEMO='''
package ua

import (
	"bytes"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	v := DataValue{Value: true, SourcePicoseconds: 0x1234, ServerTimestamp: time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)}
	if err := NewBinaryEncoder(&b, NewEncodingContext()).WriteDataValue(v); err != nil {
		t.Fatal(err)
	}
	// Part 6, 5.2.2.17: value, status, source timestamp, source picoseconds, server timestamp, server picoseconds
	if got := b.Bytes(); got[0] != 0x19 || got[3] != 0x34 || got[4] != 0x12 {
		t.Fatalf("% x", got)
	}
}
'''
