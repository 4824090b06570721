PROPERTY="C01"
NEEDS="a timestamp before 1970 with a fraction of a second"
BREAKS="timestamps before the Unix epoch come back off by a fraction of a second"
EDITS=[("ua/binary_decoder.go","	*value = time.Unix(ticks/10000000-11644473600, (ticks%10000000)*100).UTC()\n	return nil",
"	secs := ticks/10000000 - 11644473600\n	if secs < 0 {\n		*value = time.Unix(secs, (ticks%10000000)/10*1000).UTC()\n		return nil\n	}\n	*value = time.Unix(secs, (ticks%10000000)*100).UTC()\n	return nil")]
PKG="ua"
DEMO='''
package ua

import (
	"bytes"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	in := time.Date(1950, 3, 4, 5, 6, 7, 123456700, time.UTC)
	var b bytes.Buffer
	if err := NewBinaryEncoder(&b, NewEncodingContext()).WriteDateTime(in); err != nil {
		t.Fatal(err)
	}
	var out time.Time
	if err := NewBinaryDecoder(&b, NewEncodingContext()).ReadDateTime(&out); err != nil {
		t.Fatal(err)
	}
	if !out.Equal(in) {
		t.Fatalf("%v != %v", out, in)
	}
}
'''
