From 42887d1f083dcbdba2f842e2f666aa90af6b899b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:53 +0000
Subject: [PATCH 001/101] fix: decode the optional fields of DiagnosticInfo
 instead of dereferencing nil

---
 ua/binary_decoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 11cde47..6f2f7c0 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -2091,36 +2091,43 @@ func (dec *BinaryDecoder) ReadDiagnosticInfo(value *DiagnosticInfo) error {
 		return BadDecodingError
 	}
 	if (b & 1) != 0 {
+		result.SymbolicID = new(int32)
 		if err := dec.ReadInt32(result.SymbolicID); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 2) != 0 {
+		result.NamespaceURI = new(int32)
 		if err := dec.ReadInt32(result.NamespaceURI); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 8) != 0 {
+		result.Locale = new(int32)
 		if err := dec.ReadInt32(result.Locale); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 4) != 0 {
+		result.LocalizedText = new(int32)
 		if err := dec.ReadInt32(result.LocalizedText); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 16) != 0 {
+		result.AdditionalInfo = new(string)
 		if err := dec.ReadString(result.AdditionalInfo); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 32) != 0 {
+		result.InnerStatusCode = new(StatusCode)
 		if err := dec.ReadStatusCode(result.InnerStatusCode); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 64) != 0 {
+		result.InnerDiagnosticInfo = new(DiagnosticInfo)
 		if err := dec.ReadDiagnosticInfo(result.InnerDiagnosticInfo); err != nil {
 			return BadDecodingError
 		}
-- 
2.43.0


From 0fe85d872c4cdec1e9cc4eace2aff4492e1f8f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:15 +0000
Subject: [PATCH 002/101] fix: reject variant array dimensions that do not
 match the decoded elements

---
 ua/binary_decoder.go | 78 ++++++++++++++++++++++++++++++--------------
 1 file changed, 53 insertions(+), 25 deletions(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 6f2f7c0..6d80de3 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -1304,7 +1304,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1334,7 +1334,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1364,7 +1364,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1394,7 +1394,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1424,7 +1424,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1454,7 +1454,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1484,7 +1484,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1514,7 +1514,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1544,7 +1544,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1574,7 +1574,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1604,7 +1604,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1634,7 +1634,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1664,7 +1664,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1694,7 +1694,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1724,7 +1724,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1754,7 +1754,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1784,7 +1784,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1814,7 +1814,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1844,7 +1844,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1874,7 +1874,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1904,7 +1904,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1934,7 +1934,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1964,7 +1964,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -1994,7 +1994,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -2024,7 +2024,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 			return BadDecodingError
 		}
 		var dims []int32
-		if err := dec.ReadInt32Array(&dims); err != nil {
+		if err := dec.readDimensions(&dims, len(vals)); err != nil {
 			return BadDecodingError
 		}
 		if len(dims) == 2 {
@@ -2053,6 +2053,34 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 	}
 }
 
+// readDimensions reads the dimensions of a multi-dimensional array and verifies that they describe
+// an array of the given number of elements.
+func (dec *BinaryDecoder) readDimensions(value *[]int32, count int) error {
+	var dims []int32
+	if err := dec.ReadInt32Array(&dims); err != nil {
+		return BadDecodingError
+	}
+	total, rows := int64(1), int64(1)
+	for i, d := range dims {
+		if d < 0 {
+			return BadDecodingError
+		}
+		if total *= int64(d); total > math.MaxInt32 {
+			return BadDecodingError
+		}
+		if i < len(dims)-1 {
+			if rows *= int64(d); rows > int64(max(count, math.MaxUint16)) {
+				return BadDecodingError
+			}
+		}
+	}
+	if total != int64(count) {
+		return BadDecodingError
+	}
+	*value = dims
+	return nil
+}
+
 // split recursively creates a multi-dimensional array from a set of values
 // and some given dimensions.
 func split(level, i, j int, dims []int, vals reflect.Value) reflect.Value {
-- 
2.43.0


From 8e2ce1a8f77e9861c63561ee09f1eae57e7d5d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:39 +0000
Subject: [PATCH 003/101] fix: bound the memory allocated for arrays and
 strings by the bytes received

---
 ua/binary_decoder.go | 247 +++++++++++++++++++++++++++----------------
 1 file changed, 157 insertions(+), 90 deletions(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 6d80de3..36a66c7 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -3,6 +3,7 @@
 package ua
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -19,6 +20,9 @@ var (
 	typeToDecoderMap sync.Map
 )
 
+// maxPrealloc is the largest number of elements allocated before any of them has been read.
+const maxPrealloc = 4096
+
 // BinaryDecoder decodes the UA binary protocol.
 type BinaryDecoder struct {
 	r  io.Reader
@@ -204,21 +208,22 @@ func getSliceDecoder(typ reflect.Type) (decoderFunc, error) {
 			hdr.cap = 0
 			return nil
 		}
-		hdr.data = unsafe.Pointer(reflect.MakeSlice(typ, len, len).Pointer())
-		hdr.len = len
-		hdr.cap = len
-		//decode first element
-		p2 := hdr.data
-		if err := elemDecoder(buf, p2); err != nil {
-			return err
-		}
-		//decode remaining elements
-		for i := 1; i < len; i++ {
-			p2 = unsafe.Pointer(uintptr(p2) + elemSize)
-			if err := elemDecoder(buf, p2); err != nil {
+		size := min(len, maxPrealloc)
+		slice := reflect.MakeSlice(typ, size, size)
+		for i := 0; i < len; i++ {
+			if i == size {
+				size = min(len, 2*size)
+				larger := reflect.MakeSlice(typ, size, size)
+				reflect.Copy(larger, slice)
+				slice = larger
+			}
+			if err := elemDecoder(buf, unsafe.Pointer(uintptr(slice.UnsafePointer())+uintptr(i)*elemSize)); err != nil {
 				return err
 			}
 		}
+		hdr.data = slice.UnsafePointer()
+		hdr.len = len
+		hdr.cap = len
 		return nil
 	}, nil
 }
@@ -437,6 +442,20 @@ func (dec *BinaryDecoder) ReadDouble(value *float64) error {
 	return nil
 }
 
+// readBytes reads n bytes. The memory grows with the bytes that arrive, not with the announced length.
+func (dec *BinaryDecoder) readBytes(n int32) ([]byte, error) {
+	if n <= maxPrealloc {
+		bs := make([]byte, n)
+		_, err := io.ReadFull(dec.r, bs)
+		return bs, err
+	}
+	var buf bytes.Buffer
+	if _, err := io.CopyN(&buf, dec.r, int64(n)); err != nil {
+		return nil, err
+	}
+	return buf.Bytes(), nil
+}
+
 // ReadString reads a string.
 func (dec *BinaryDecoder) ReadString(value *string) error {
 	var n int32
@@ -447,8 +466,8 @@ func (dec *BinaryDecoder) ReadString(value *string) error {
 		*value = ""
 		return nil
 	}
-	bs := make([]byte, n)
-	if _, err := io.ReadFull(dec.r, bs); err != nil {
+	bs, err := dec.readBytes(n)
+	if err != nil {
 		return BadDecodingError
 	}
 	// eliminate alloc of a second byte array and copying from one byte array to another.
@@ -504,8 +523,8 @@ func (dec *BinaryDecoder) ReadByteString(value *ByteString) error {
 		*value = ""
 		return nil
 	}
-	bs := make([]byte, n)
-	if _, err := io.ReadFull(dec.r, bs); err != nil {
+	bs, err := dec.readBytes(n)
+	if err != nil {
 		return BadDecodingError
 	}
 	*value = *(*ByteString)(unsafe.Pointer(&bs))
@@ -2174,11 +2193,13 @@ func (dec *BinaryDecoder) ReadBooleanArray(value *[]bool) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]bool, n)
-	for i := range temp {
-		if err := dec.ReadBoolean(&temp[i]); err != nil {
+	temp := make([]bool, 0, min(n, maxPrealloc))
+	for i := int32(0); i < n; i++ {
+		var v bool
+		if err := dec.ReadBoolean(&v); err != nil {
 			return err
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2194,11 +2215,13 @@ func (dec *BinaryDecoder) ReadSByteArray(value *[]int8) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]int8, n)
-	for i := range temp {
-		if err := dec.ReadSByte(&temp[i]); err != nil {
+	temp := make([]int8, 0, min(n, maxPrealloc))
+	for i := int32(0); i < n; i++ {
+		var v int8
+		if err := dec.ReadSByte(&v); err != nil {
 			return err
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2214,8 +2237,8 @@ func (dec *BinaryDecoder) ReadByteArray(value *[]byte) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]byte, n)
-	if _, err := io.ReadFull(dec.r, temp); err != nil {
+	temp, err := dec.readBytes(n)
+	if err != nil {
 		return err
 	}
 	*value = temp
@@ -2232,11 +2255,13 @@ func (dec *BinaryDecoder) ReadInt16Array(value *[]int16) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]int16, n)
-	for i := range temp {
-		if err := dec.ReadInt16(&temp[i]); err != nil {
+	temp := make([]int16, 0, min(n, maxPrealloc))
+	for i := int32(0); i < n; i++ {
+		var v int16
+		if err := dec.ReadInt16(&v); err != nil {
 			return err
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2252,11 +2277,13 @@ func (dec *BinaryDecoder) ReadUInt16Array(value *[]uint16) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]uint16, n)
-	for i := range temp {
-		if err := dec.ReadUInt16(&temp[i]); err != nil {
+	temp := make([]uint16, 0, min(n, maxPrealloc))
+	for i := int32(0); i < n; i++ {
+		var v uint16
+		if err := dec.ReadUInt16(&v); err != nil {
 			return err
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2272,11 +2299,13 @@ func (dec *BinaryDecoder) ReadInt32Array(value *[]int32) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]int32, n)
-	for i := range temp {
-		if err := dec.ReadInt32(&temp[i]); err != nil {
+	temp := make([]int32, 0, min(n, maxPrealloc))
+	for i := int32(0); i < n; i++ {
+		var v int32
+		if err := dec.ReadInt32(&v); err != nil {
 			return err
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2292,11 +2321,13 @@ func (dec *BinaryDecoder) ReadUInt32Array(value *[]uint32) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]uint32, n)
-	for i := range temp {
-		if err := dec.ReadUInt32(&temp[i]); err != nil {
+	temp := make([]uint32, 0, min(n, maxPrealloc))
+	for i := int32(0); i < n; i++ {
+		var v uint32
+		if err := dec.ReadUInt32(&v); err != nil {
 			return err
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2312,11 +2343,13 @@ func (dec *BinaryDecoder) ReadInt64Array(value *[]int64) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]int64, n)
-	for i := range temp {
-		if err := dec.ReadInt64(&temp[i]); err != nil {
+	temp := make([]int64, 0, min(n, maxPrealloc))
+	for i := int32(0); i < n; i++ {
+		var v int64
+		if err := dec.ReadInt64(&v); err != nil {
 			return err
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2332,11 +2365,13 @@ func (dec *BinaryDecoder) ReadUInt64Array(value *[]uint64) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]uint64, n)
-	for i := range temp {
-		if err := dec.ReadUInt64(&temp[i]); err != nil {
+	temp := make([]uint64, 0, min(n, maxPrealloc))
+	for i := int32(0); i < n; i++ {
+		var v uint64
+		if err := dec.ReadUInt64(&v); err != nil {
 			return err
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2352,11 +2387,13 @@ func (dec *BinaryDecoder) ReadFloatArray(value *[]float32) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]float32, n)
-	for i := range temp {
-		if err := dec.ReadFloat(&temp[i]); err != nil {
+	temp := make([]float32, 0, min(n, maxPrealloc))
+	for i := int32(0); i < n; i++ {
+		var v float32
+		if err := dec.ReadFloat(&v); err != nil {
 			return err
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2372,11 +2409,13 @@ func (dec *BinaryDecoder) ReadDoubleArray(value *[]float64) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]float64, n)
-	for i := range temp {
-		if err := dec.ReadDouble(&temp[i]); err != nil {
+	temp := make([]float64, 0, min(n, maxPrealloc))
+	for i := int32(0); i < n; i++ {
+		var v float64
+		if err := dec.ReadDouble(&v); err != nil {
 			return err
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2392,11 +2431,13 @@ func (dec *BinaryDecoder) ReadStringArray(value *[]string) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]string, n)
-	for i := range temp {
-		if err := dec.ReadString(&temp[i]); err != nil {
+	temp := make([]string, 0, min(n, maxPrealloc))
+	for i := int32(0); i < n; i++ {
+		var v string
+		if err := dec.ReadString(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2412,11 +2453,13 @@ func (dec *BinaryDecoder) ReadDateTimeArray(value *[]time.Time) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]time.Time, n)
-	for i := range temp {
-		if err := dec.ReadDateTime(&temp[i]); err != nil {
+	temp := make([]time.Time, 0, min(n, maxPrealloc))
+	for i := int32(0); i < n; i++ {
+		var v time.Time
+		if err := dec.ReadDateTime(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2432,11 +2475,13 @@ func (dec *BinaryDecoder) ReadGUIDArray(value *[]uuid.UUID) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]uuid.UUID, n)
-	for i := range temp {
-		if err := dec.ReadGUID(&temp[i]); err != nil {
+	temp := make([]uuid.UUID, 0, min(n, maxPrealloc))
+	for i := int32(0); i < n; i++ {
+		var v uuid.UUID
+		if err := dec.ReadGUID(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2452,11 +2497,13 @@ func (dec *BinaryDecoder) ReadByteStringArray(value *[]ByteString) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]ByteString, n)
-	for i := 0; i < len(temp); i++ {
-		if err := dec.ReadByteString(&temp[i]); err != nil {
+	temp := make([]ByteString, 0, min(n, maxPrealloc))
+	for i := int32(0); i < n; i++ {
+		var v ByteString
+		if err := dec.ReadByteString(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2472,11 +2519,13 @@ func (dec *BinaryDecoder) ReadXMLElementArray(value *[]XMLElement) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]XMLElement, n)
-	for i := 0; i < len(temp); i++ {
-		if err := dec.ReadXMLElement(&temp[i]); err != nil {
+	temp := make([]XMLElement, 0, min(n, maxPrealloc))
+	for i := int32(0); i < n; i++ {
+		var v XMLElement
+		if err := dec.ReadXMLElement(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2492,11 +2541,13 @@ func (dec *BinaryDecoder) ReadNodeIDArray(value *[]NodeID) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]NodeID, n)
-	for i := range temp {
-		if err := dec.ReadNodeID(&temp[i]); err != nil {
+	temp := make([]NodeID, 0, min(n, maxPrealloc))
+	for i := int32(0); i < n; i++ {
+		var v NodeID
+		if err := dec.ReadNodeID(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2512,11 +2563,13 @@ func (dec *BinaryDecoder) ReadExpandedNodeIDArray(value *[]ExpandedNodeID) error
 		*value = nil
 		return nil
 	}
-	temp := make([]ExpandedNodeID, n)
-	for i := range temp {
-		if err := dec.ReadExpandedNodeID(&temp[i]); err != nil {
+	temp := make([]ExpandedNodeID, 0, min(n, maxPrealloc))
+	for i := int32(0); i < n; i++ {
+		var v ExpandedNodeID
+		if err := dec.ReadExpandedNodeID(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2532,11 +2585,13 @@ func (dec *BinaryDecoder) ReadStatusCodeArray(value *[]StatusCode) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]StatusCode, n)
-	for i := range temp {
-		if err := dec.ReadStatusCode(&temp[i]); err != nil {
+	temp := make([]StatusCode, 0, min(n, maxPrealloc))
+	for i := int32(0); i < n; i++ {
+		var v StatusCode
+		if err := dec.ReadStatusCode(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2552,11 +2607,13 @@ func (dec *BinaryDecoder) ReadQualifiedNameArray(value *[]QualifiedName) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]QualifiedName, n)
-	for i := range temp {
-		if err := dec.ReadQualifiedName(&temp[i]); err != nil {
+	temp := make([]QualifiedName, 0, min(n, maxPrealloc))
+	for i := int32(0); i < n; i++ {
+		var v QualifiedName
+		if err := dec.ReadQualifiedName(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2572,11 +2629,13 @@ func (dec *BinaryDecoder) ReadLocalizedTextArray(value *[]LocalizedText) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]LocalizedText, n)
-	for i := range temp {
-		if err := dec.ReadLocalizedText(&temp[i]); err != nil {
+	temp := make([]LocalizedText, 0, min(n, maxPrealloc))
+	for i := int32(0); i < n; i++ {
+		var v LocalizedText
+		if err := dec.ReadLocalizedText(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2592,11 +2651,13 @@ func (dec *BinaryDecoder) ReadExtensionObjectArray(value *[]ExtensionObject) err
 		*value = nil
 		return nil
 	}
-	temp := make([]ExtensionObject, n)
-	for i := range temp {
-		if err := dec.ReadExtensionObject(&temp[i]); err != nil {
+	temp := make([]ExtensionObject, 0, min(n, maxPrealloc))
+	for i := int32(0); i < n; i++ {
+		var v ExtensionObject
+		if err := dec.ReadExtensionObject(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2612,11 +2673,13 @@ func (dec *BinaryDecoder) ReadDataValueArray(value *[]DataValue) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]DataValue, n)
-	for i := 0; i < len(temp); i++ {
-		if err := dec.ReadDataValue(&temp[i]); err != nil {
+	temp := make([]DataValue, 0, min(n, maxPrealloc))
+	for i := int32(0); i < n; i++ {
+		var v DataValue
+		if err := dec.ReadDataValue(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2632,11 +2695,13 @@ func (dec *BinaryDecoder) ReadVariantArray(value *[]Variant) error {
 		*value = nil
 		return nil
 	}
-	temp := make([]Variant, n)
-	for i := 0; i < len(temp); i++ {
-		if err := dec.ReadVariant(&temp[i]); err != nil {
+	temp := make([]Variant, 0, min(n, maxPrealloc))
+	for i := int32(0); i < n; i++ {
+		var v Variant
+		if err := dec.ReadVariant(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
@@ -2652,11 +2717,13 @@ func (dec *BinaryDecoder) ReadDiagnosticInfoArray(value *[]DiagnosticInfo) error
 		*value = nil
 		return nil
 	}
-	temp := make([]DiagnosticInfo, n)
-	for i := 0; i < len(temp); i++ {
-		if err := dec.ReadDiagnosticInfo(&temp[i]); err != nil {
+	temp := make([]DiagnosticInfo, 0, min(n, maxPrealloc))
+	for i := int32(0); i < n; i++ {
+		var v DiagnosticInfo
+		if err := dec.ReadDiagnosticInfo(&v); err != nil {
 			return BadDecodingError
 		}
+		temp = append(temp, v)
 	}
 	*value = temp
 	return nil
-- 
2.43.0


From 29f0aa28aa869a959ad44674274c1f2852830436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:42 +0000
Subject: [PATCH 004/101] fix: limit the nesting depth of decoded values

---
 ua/binary_decoder.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 36a66c7..3e8828c 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -23,16 +23,22 @@ var (
 // maxPrealloc is the largest number of elements allocated before any of them has been read.
 const maxPrealloc = 4096
 
+// maxDepth is the largest number of values (Variant, DataValue, ExtensionObject or DiagnosticInfo) nested
+// within each other.
+const maxDepth = 100
+
 // BinaryDecoder decodes the UA binary protocol.
 type BinaryDecoder struct {
 	r  io.Reader
 	ec EncodingContext
 	bs [8]byte
+	// depth is the number of nested values being decoded.
+	depth int
 }
 
 // NewBinaryDecoder returns a new decoder that reads from an io.Reader.
 func NewBinaryDecoder(r io.Reader, ec EncodingContext) *BinaryDecoder {
-	return &BinaryDecoder{r, ec, [8]byte{}}
+	return &BinaryDecoder{r: r, ec: ec}
 }
 
 type decoderFunc func(*BinaryDecoder, unsafe.Pointer) error
@@ -786,6 +792,11 @@ func (dec *BinaryDecoder) ReadLocalizedText(value *LocalizedText) error {
 
 // ReadExtensionObject reads an Extensionobject.
 func (dec *BinaryDecoder) ReadExtensionObject(value *ExtensionObject) error {
+	if dec.depth >= maxDepth {
+		return BadDecodingError
+	}
+	dec.depth++
+	defer func() { dec.depth-- }()
 	var nodeID NodeID
 	if err := dec.ReadNodeID(&nodeID); err != nil {
 		return BadDecodingError
@@ -833,6 +844,11 @@ func (dec *BinaryDecoder) ReadExtensionObject(value *ExtensionObject) error {
 
 // ReadDataValue reads a DataValue.
 func (dec *BinaryDecoder) ReadDataValue(value *DataValue) error {
+	if dec.depth >= maxDepth {
+		return BadDecodingError
+	}
+	dec.depth++
+	defer func() { dec.depth-- }()
 	var (
 		v                 Variant
 		statusCode        StatusCode
@@ -883,6 +899,11 @@ func (dec *BinaryDecoder) ReadDataValue(value *DataValue) error {
 
 // ReadVariant reads a Variant.
 func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
+	if dec.depth >= maxDepth {
+		return BadDecodingError
+	}
+	dec.depth++
+	defer func() { dec.depth-- }()
 	var b byte
 	if err := dec.ReadByte(&b); err != nil {
 		return BadDecodingError
@@ -2132,6 +2153,11 @@ func split(level, i, j int, dims []int, vals reflect.Value) reflect.Value {
 
 // ReadDiagnosticInfo reads a DiagnosticInfo.
 func (dec *BinaryDecoder) ReadDiagnosticInfo(value *DiagnosticInfo) error {
+	if dec.depth >= maxDepth {
+		return BadDecodingError
+	}
+	dec.depth++
+	defer func() { dec.depth-- }()
 	result := DiagnosticInfo{}
 	var b byte
 	if err := dec.ReadByte(&b); err != nil {
-- 
2.43.0


From 20c0ccc04e70202859840e0a19376407efcae776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:45 +0000
Subject: [PATCH 005/101] fix: report a DataValue whose value cannot be decoded
 instead of decoding on from the wrong offset

---
 ua/binary_decoder.go | 66 +++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 3e8828c..2e6a571 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -864,14 +864,21 @@ func (dec *BinaryDecoder) ReadDataValue(value *DataValue) error {
 	}
 	if (b & 1) != 0 {
 		if err := dec.ReadVariant(&v); err != nil {
-			// return BadDecodingError
+			// a complete value that can not be represented is reported with the status code.
+			if err != BadDataTypeIDUnknown {
+				return BadDecodingError
+			}
 			statusCode = BadDataTypeIDUnknown
 		}
 	}
-	if (b&2) != 0 && statusCode == 0 {
-		if err := dec.ReadStatusCode(&statusCode); err != nil {
+	if (b & 2) != 0 {
+		var sc StatusCode
+		if err := dec.ReadStatusCode(&sc); err != nil {
 			return BadDecodingError
 		}
+		if statusCode == 0 {
+			statusCode = sc
+		}
 	}
 	if (b & 4) != 0 {
 		if err = dec.ReadDateTime(&sourceTimestamp); err != nil {
@@ -1345,7 +1352,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]bool, dims[0])
@@ -1375,7 +1382,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]int8, dims[0])
@@ -1405,7 +1412,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]byte, dims[0])
@@ -1435,7 +1442,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]int16, dims[0])
@@ -1465,7 +1472,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]uint16, dims[0])
@@ -1495,7 +1502,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]int32, dims[0])
@@ -1525,7 +1532,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]uint32, dims[0])
@@ -1555,7 +1562,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]int64, dims[0])
@@ -1585,7 +1592,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]uint64, dims[0])
@@ -1615,7 +1622,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]float32, dims[0])
@@ -1645,7 +1652,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]float64, dims[0])
@@ -1675,7 +1682,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]string, dims[0])
@@ -1705,7 +1712,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]time.Time, dims[0])
@@ -1735,7 +1742,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]uuid.UUID, dims[0])
@@ -1765,7 +1772,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]ByteString, dims[0])
@@ -1795,7 +1802,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]XMLElement, dims[0])
@@ -1825,7 +1832,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]NodeID, dims[0])
@@ -1855,7 +1862,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]ExpandedNodeID, dims[0])
@@ -1885,7 +1892,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]StatusCode, dims[0])
@@ -1915,7 +1922,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]QualifiedName, dims[0])
@@ -1945,7 +1952,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]LocalizedText, dims[0])
@@ -1975,7 +1982,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]ExtensionObject, dims[0])
@@ -2005,7 +2012,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]DataValue, dims[0])
@@ -2035,7 +2042,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]Variant, dims[0])
@@ -2065,7 +2072,7 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		}
 		var dims []int32
 		if err := dec.readDimensions(&dims, len(vals)); err != nil {
-			return BadDecodingError
+			return err
 		}
 		if len(dims) == 2 {
 			res := make([][]DiagnosticInfo, dims[0])
@@ -2100,6 +2107,9 @@ func (dec *BinaryDecoder) readDimensions(value *[]int32, count int) error {
 	if err := dec.ReadInt32Array(&dims); err != nil {
 		return BadDecodingError
 	}
+	if len(dims) < 2 || len(dims) > 3 {
+		return BadDataTypeIDUnknown
+	}
 	total, rows := int64(1), int64(1)
 	for i, d := range dims {
 		if d < 0 {
-- 
2.43.0


From 2982a401799183d40da918935cfe9c52a0584520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:04 +0000
Subject: [PATCH 006/101] fix: honour the length of an extension object's body

---
 ua/binary_decoder.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 2e6a571..982c57a 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -805,6 +805,7 @@ func (dec *BinaryDecoder) ReadExtensionObject(value *ExtensionObject) error {
 	if err := dec.ReadByte(&b); err != nil {
 		return BadDecodingError
 	}
+	*value = nil
 	switch b {
 	case 0x00:
 		return nil
@@ -813,12 +814,28 @@ func (dec *BinaryDecoder) ReadExtensionObject(value *ExtensionObject) error {
 		// lookup type
 		typ, ok := FindTypeForBinaryEncodingID(id)
 		if ok {
-			var unused int32
-			if err := dec.ReadInt32(&unused); err != nil {
+			var n int32
+			if err := dec.ReadInt32(&n); err != nil {
 				return BadDecodingError
 			}
 			obj := reflect.New(typ).Elem().Interface() // TODO: decide if ptr or struct
-			if err := dec.Decode(obj); err != nil {
+			if n < 0 {
+				if err := dec.Decode(obj); err != nil {
+					return BadDecodingError
+				}
+				*value = obj
+				return nil
+			}
+			// the body is exactly n bytes
+			r := dec.r
+			body := &io.LimitedReader{R: r, N: int64(n)}
+			dec.r = body
+			err := dec.Decode(obj)
+			dec.r = r
+			if err != nil {
+				return BadDecodingError
+			}
+			if _, err := io.CopyN(io.Discard, body, body.N); err != nil {
 				return BadDecodingError
 			}
 			*value = obj
-- 
2.43.0


From 51cb4f8ae32ae6fab000de5778cbc8f60338e651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:42 +0000
Subject: [PATCH 007/101] fix: encode a DataValue held in a Variant

---
 ua/binary_encoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ua/binary_encoder.go b/ua/binary_encoder.go
index 015cc77..fc172c0 100644
--- a/ua/binary_encoder.go
+++ b/ua/binary_encoder.go
@@ -1043,6 +1043,13 @@ func (enc *BinaryEncoder) WriteVariant(value Variant) error {
 		if err := enc.WriteLocalizedText(v1); err != nil {
 			return BadEncodingError
 		}
+	case DataValue:
+		if err := enc.WriteByte(VariantTypeDataValue); err != nil {
+			return BadEncodingError
+		}
+		if err := enc.WriteDataValue(v1); err != nil {
+			return BadEncodingError
+		}
 	case []bool:
 		if err := enc.WriteByte(VariantTypeBoolean | VariantTypeArray); err != nil {
 			return BadEncodingError
-- 
2.43.0


From 3656304ecf2895057beb578dd4506cff43f07f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:44 +0000
Subject: [PATCH 008/101] fix: encode and decode fields of type uuid.UUID,
 which is an array and not a struct

---
 ua/binary_decoder.go | 7 +++++--
 ua/binary_encoder.go | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 982c57a..a5a833c 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -80,8 +80,6 @@ func getDecoder(typ reflect.Type) (decoderFunc, error) {
 		switch typ {
 		case typeDateTime:
 			return getDateTimeDecoder()
-		case typeGUID:
-			return getGUIDDecoder()
 		case typeExpandedNodeID:
 			return getExpandedNodeIDDecoder()
 		case typeQualifiedName:
@@ -95,6 +93,11 @@ func getDecoder(typ reflect.Type) (decoderFunc, error) {
 		default:
 			return getStructDecoder(typ)
 		}
+	case reflect.Array:
+		switch typ {
+		case typeGUID:
+			return getGUIDDecoder()
+		}
 	case reflect.Slice:
 		elemTyp := typ.Elem()
 		switch elemTyp.Kind() {
diff --git a/ua/binary_encoder.go b/ua/binary_encoder.go
index fc172c0..ace878b 100644
--- a/ua/binary_encoder.go
+++ b/ua/binary_encoder.go
@@ -99,8 +99,6 @@ func getEncoder(typ reflect.Type) (encoderFunc, error) {
 		switch typ {
 		case typeDateTime:
 			return getDateTimeEncoder()
-		case typeGUID:
-			return getGUIDEncoder()
 		case typeExpandedNodeID:
 			return getExpandedNodeIDEncoder()
 		case typeQualifiedName:
@@ -114,6 +112,11 @@ func getEncoder(typ reflect.Type) (encoderFunc, error) {
 		default:
 			return getStructEncoder(typ)
 		}
+	case reflect.Array:
+		switch typ {
+		case typeGUID:
+			return getGUIDEncoder()
+		}
 	case reflect.Slice:
 		switch elemTyp := typ.Elem(); elemTyp.Kind() {
 		case reflect.Uint8:
-- 
2.43.0


From 141716a0e92503de6656fd56a3593e8538347d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:47 +0000
Subject: [PATCH 009/101] fix: write the flags of an ExpandedNodeID that has a
 namespace or server but no NodeID

---
 ua/binary_encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ua/binary_encoder.go b/ua/binary_encoder.go
index ace878b..340ecbd 100644
--- a/ua/binary_encoder.go
+++ b/ua/binary_encoder.go
@@ -708,7 +708,7 @@ func (enc *BinaryEncoder) WriteExpandedNodeID(value ExpandedNodeID) error {
 			return BadEncodingError
 		}
 	default:
-		if err := enc.WriteUInt16(0); err != nil {
+		if err := enc.WriteUInt16(uint16(b)); err != nil {
 			return BadEncodingError
 		}
 	}
-- 
2.43.0


From b92508de6da0baf6226fbf57b91eb7405a3019ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:03 +0000
Subject: [PATCH 010/101] fix: refuse to encode a matrix whose rows differ in
 length

---
 ua/binary_encoder.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/ua/binary_encoder.go b/ua/binary_encoder.go
index 340ecbd..01f5e26 100644
--- a/ua/binary_encoder.go
+++ b/ua/binary_encoder.go
@@ -896,6 +896,9 @@ func (enc *BinaryEncoder) WriteDataValue(value DataValue) error {
 
 // WriteVariant writes a Variant
 func (enc *BinaryEncoder) WriteVariant(value Variant) error {
+	if isRagged(value) {
+		return BadEncodingError
+	}
 	switch v1 := value.(type) {
 	case nil:
 		return enc.WriteByte(0)
@@ -2214,6 +2217,29 @@ func flatten3D[S [][][]E, E any](slice S) []E {
 	return newslice
 }
 
+// isRagged returns true if the value is a multi-dimensional slice whose rows differ in length.
+func isRagged(value any) bool {
+	typ := reflect.TypeOf(value)
+	if typ == nil || typ.Kind() != reflect.Slice || typ.Elem().Kind() != reflect.Slice {
+		return false
+	}
+	rows := reflect.ValueOf(value)
+	var first reflect.Value
+	for i := 0; i < rows.Len(); i++ {
+		row := rows.Index(i)
+		if i == 0 {
+			first = row
+		}
+		if row.Len() != first.Len() || isRagged(row.Interface()) {
+			return true
+		}
+		if row.Len() > 0 && row.Index(0).Kind() == reflect.Slice && row.Index(0).Len() != first.Index(0).Len() {
+			return true
+		}
+	}
+	return false
+}
+
 // dims2D returns a slice concatenating the dimensions of the passed in slice.
 func dims2D[S [][]E, E any](slice S) []int32 {
 	size := int32(len(slice))
-- 
2.43.0


From bebdd638a4e5538fd2e3db10b9e2600e38a24924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:29 +0000
Subject: [PATCH 011/101] fix: a name whose prefix is out of range has
 namespace index 0

---
 ua/qualified_name.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ua/qualified_name.go b/ua/qualified_name.go
index fe8ae8b..6cf79f7 100644
--- a/ua/qualified_name.go
+++ b/ua/qualified_name.go
@@ -28,7 +28,7 @@ func ParseQualifiedName(s string) QualifiedName {
 	}
 	ns, err := strconv.ParseUint(s[:pos], 10, 16)
 	if err != nil {
-		return QualifiedName{uint16(ns), s}
+		return QualifiedName{0, s}
 	}
 	s = s[pos+1:]
 	return QualifiedName{uint16(ns), s}
-- 
2.43.0


From de9abeb7ecdc278cf6b1f696c22c416e15941925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:31 +0000
Subject: [PATCH 012/101] fix: escape the namespace URI in the text form of an
 ExpandedNodeID

---
 ua/expanded_nodeid.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ua/expanded_nodeid.go b/ua/expanded_nodeid.go
index 395279a..b12b1bd 100644
--- a/ua/expanded_nodeid.go
+++ b/ua/expanded_nodeid.go
@@ -22,6 +22,12 @@ func NewExpandedNodeID(nodeID NodeID) ExpandedNodeID {
 // NilExpandedNodeID is the nil value.
 var NilExpandedNodeID = ExpandedNodeID{0, "", nil}
 
+// the characters ';' and '%' of a NamespaceURI are escaped. See OPC 10000-6, 5.1.12.
+var (
+	nsuEscaper   = strings.NewReplacer("%", "%25", ";", "%3B")
+	nsuUnescaper = strings.NewReplacer("%25", "%", "%3B", ";", "%3b", ";")
+)
+
 // ParseExpandedNodeID returns a NodeID from a string representation.
 //   - ParseExpandedNodeID("i=85") // integer, assumes nsu=http://opcfoundation.org/UA/
 //   - ParseExpandedNodeID("nsu=http://www.unifiedautomation.com/DemoServer/;s=Demo.Static.Scalar.Float") // string
@@ -50,7 +56,7 @@ func ParseExpandedNodeID(s string) ExpandedNodeID {
 			return NilExpandedNodeID
 		}
 
-		nsu = s[4:pos]
+		nsu = nsuUnescaper.Replace(s[4:pos])
 		s = s[pos+1:]
 	}
 
@@ -64,7 +70,7 @@ func (n ExpandedNodeID) String() string {
 		fmt.Fprintf(b, "svr=%d;", n.ServerIndex)
 	}
 	if len(n.NamespaceURI) > 0 {
-		fmt.Fprintf(b, "nsu=%s;", n.NamespaceURI)
+		fmt.Fprintf(b, "nsu=%s;", nsuEscaper.Replace(n.NamespaceURI))
 	}
 	switch n2 := n.NodeID.(type) {
 	case NodeIDNumeric:
-- 
2.43.0


From 40a2a6bad3ebea01d51626babe99c6bcb1424ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:53 +0000
Subject: [PATCH 013/101] fix: refuse a peer certificate without an RSA key
 instead of panicking

---
 client/client_secure_channel.go | 2 +-
 server/server_secure_channel.go | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 4352104..bbdbada 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -187,7 +187,7 @@ func newClientSecureChannel(
 		trace:                                trace,
 	}
 	if certs, err := x509.ParseCertificates(ch.remoteCertificate); err == nil && len(certs) > 0 {
-		ch.remotePublicKey = certs[0].PublicKey.(*rsa.PublicKey)
+		ch.remotePublicKey, _ = certs[0].PublicKey.(*rsa.PublicKey)
 		ch.remoteThumbprint = sha1.Sum(certs[0].Raw)
 	}
 	return ch
diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 43fcd48..b669ab4 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -338,7 +338,11 @@ func (ch *serverSecureChannel) Open() error {
 			return err
 		}
 		cert := certs[0]
-		ch.remotePublicKey = cert.PublicKey.(*rsa.PublicKey)
+		pub, ok := cert.PublicKey.(*rsa.PublicKey)
+		if !ok {
+			return ua.BadCertificateInvalid
+		}
+		ch.remotePublicKey = pub
 		if len(cert.URIs) > 0 {
 			ch.remoteApplicationURI = cert.URIs[0].String()
 		}
@@ -1266,7 +1270,7 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				}
 
 				if crts, err := x509.ParseCertificates(ch.remoteCertificate); err == nil && len(crts) > 0 {
-					ch.remotePublicKey = crts[0].PublicKey.(*rsa.PublicKey)
+					ch.remotePublicKey, _ = crts[0].PublicKey.(*rsa.PublicKey)
 				}
 
 				if ch.remotePublicKey == nil {
-- 
2.43.0


From 755e63dded064ed74c880dc1e669f266dfa85052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:54 +0000
Subject: [PATCH 014/101] fix: refuse chunks too short for their headers,
 padding and signature instead of panicking

---
 client/client_secure_channel.go | 15 +++++++++++++++
 server/server_secure_channel.go | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index bbdbada..05fe277 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -1467,6 +1467,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			switch ch.securityMode {
 			case ua.MessageSecurityModeSignAndEncrypt, ua.MessageSecurityModeSign:
 				sigStart := count - signatureSize
+				if sigStart < plainHeaderSize+sequenceHeaderSize {
+					return nil, ua.BadDecodingError
+				}
 				ch.symVerifyHMAC.Reset()
 				ch.symVerifyHMAC.Write(receiveBuffer[:sigStart])
 				sig := ch.symVerifyHMAC.Sum(nil)
@@ -1503,6 +1506,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 				bodySize = int(messageLength) - plainHeaderSize - sequenceHeaderSize - signatureSize
 			}
 
+			if bodySize < 0 {
+				return nil, ua.BadDecodingError
+			}
 			m := plainHeaderSize + sequenceHeaderSize
 			n := m + bodySize
 			_, err = bodyStream.Write(receiveBuffer[m:n])
@@ -1536,6 +1542,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			switch ch.securityMode {
 			case ua.MessageSecurityModeSignAndEncrypt, ua.MessageSecurityModeSign:
 				cipherTextBlockSize := ch.localPrivateKeySize
+				if (int(messageLength)-plainHeaderSize)%cipherTextBlockSize != 0 {
+					return nil, ua.BadDecodingError
+				}
 				cipherText := make([]byte, cipherTextBlockSize)
 				jj := plainHeaderSize
 				for ii := plainHeaderSize; ii < int(messageLength); ii += cipherTextBlockSize {
@@ -1557,6 +1566,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 				// verify with remote public key.
 				sigEnd := int(messageLength)
 				sigStart := sigEnd - ch.remotePublicKeySize
+				if sigStart < plainHeaderSize+sequenceHeaderSize {
+					return nil, ua.BadDecodingError
+				}
 				err := ch.securityPolicy.RSAVerify(ch.remotePublicKey, receiveBuffer[:sigStart], receiveBuffer[sigStart:sigEnd])
 				if err != nil {
 					return nil, ua.BadDecodingError
@@ -1592,6 +1604,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 				bodySize = int(messageLength) - plainHeaderSize - sequenceHeaderSize // - ch.asymRemoteSignatureSize
 			}
 
+			if bodySize < 0 {
+				return nil, ua.BadDecodingError
+			}
 			m := plainHeaderSize + sequenceHeaderSize
 			n := m + bodySize
 			if _, err := bodyStream.Write(receiveBuffer[m:n]); err != nil {
diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index b669ab4..b6feae0 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -1167,6 +1167,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
 				sigEnd := int(messageLength)
 				sigStart := sigEnd - ch.securityPolicy.SymSignatureSize()
+				if sigStart < plainHeaderSize+sequenceHeaderSize {
+					return nil, 0, ua.BadDecodingError
+				}
 				ch.symVerifyHMAC.Reset()
 				if _, err := ch.symVerifyHMAC.Write(ch.receiveBuffer[:sigStart]); err != nil {
 					return nil, 0, ua.BadDecodingError
@@ -1206,6 +1209,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				bodySize = int(messageLength) - plainHeaderSize - sequenceHeaderSize - symSignatureSize
 			}
 
+			if bodySize < 0 {
+				return nil, 0, ua.BadDecodingError
+			}
 			m := plainHeaderSize + sequenceHeaderSize
 			n := m + bodySize
 			if _, err := bodyStream.Write(ch.receiveBuffer[m:n]); err != nil {
@@ -1278,6 +1284,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				}
 
 				cipherTextBlockSize := ch.localPrivateKey.Size()
+				if (int(messageLength)-plainHeaderSize)%cipherTextBlockSize != 0 {
+					return nil, 0, ua.BadDecodingError
+				}
 				cipherText := make([]byte, cipherTextBlockSize)
 				jj := plainHeaderSize
 				for ii := plainHeaderSize; ii < int(messageLength); ii += cipherTextBlockSize {
@@ -1298,6 +1307,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				// verify with remote public key.
 				sigEnd := int(messageLength)
 				sigStart := sigEnd - ch.remotePublicKey.Size()
+				if sigStart < plainHeaderSize+sequenceHeaderSize {
+					return nil, 0, ua.BadDecodingError
+				}
 				err := ch.securityPolicy.RSAVerify(ch.remotePublicKey, ch.receiveBuffer[:sigStart], ch.receiveBuffer[sigStart:sigEnd])
 				if err != nil {
 					return nil, 0, ua.BadDecodingError
@@ -1333,6 +1345,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				bodySize = int(messageLength) - plainHeaderSize - sequenceHeaderSize //- ch.asymRemoteSignatureSize
 			}
 
+			if bodySize < 0 {
+				return nil, 0, ua.BadDecodingError
+			}
 			m := plainHeaderSize + sequenceHeaderSize
 			n := m + bodySize
 			if _, err := bodyStream.Write(ch.receiveBuffer[m:n]); err != nil {
-- 
2.43.0


From e1cb81761db8a381b042c3aaad63663c28eeddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:18 +0000
Subject: [PATCH 015/101] fix: refuse peers that offer buffers smaller than the
 protocol minimum

---
 client/client_secure_channel.go | 21 +++++++++++++++++----
 server/server_secure_channel.go |  5 +++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 05fe277..1e0d969 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -46,6 +46,8 @@ const (
 	protocolVersion uint32 = 0
 	// defaultMaxBufferSize is the default limit on the size of the send and receive buffers.
 	defaultMaxBufferSize uint32 = 64 * 1024
+	// minBufferSize is the smallest buffer size a server may offer.
+	minBufferSize uint32 = 8192
 	// defaultMaxMessageSize is the default limit on the size of messages that may be accepted.
 	defaultMaxMessageSize uint32 = 64 * 1024 * 1024
 	// defaultMaxChunkCount is the default limit on the number of message chunks that may be accepted.
@@ -354,14 +356,25 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 		if remoteProtocolVersion < protocolVersion {
 			return ua.BadProtocolVersionUnsupported
 		}
-		// read the remote receiveBufferSize into the local sendBufferSize
-		if err := dec.ReadUInt32(&ch.sendBufferSize); err != nil {
+		// limit the local sendBufferSize to the remote receiveBufferSize
+		var remoteReceiveBufferSize uint32
+		if err := dec.ReadUInt32(&remoteReceiveBufferSize); err != nil {
 			return err
 		}
-		// read the remote sendBufferSize into the local receiveBufferSize
-		if err := dec.ReadUInt32(&ch.receiveBufferSize); err != nil {
+		// limit the local receiveBufferSize to the remote sendBufferSize
+		var remoteSendBufferSize uint32
+		if err := dec.ReadUInt32(&remoteSendBufferSize); err != nil {
 			return err
 		}
+		if remoteReceiveBufferSize < minBufferSize || remoteSendBufferSize < minBufferSize {
+			return ua.BadConnectionRejected
+		}
+		if ch.sendBufferSize > remoteReceiveBufferSize {
+			ch.sendBufferSize = remoteReceiveBufferSize
+		}
+		if ch.receiveBufferSize > remoteSendBufferSize {
+			ch.receiveBufferSize = remoteSendBufferSize
+		}
 		if err := dec.ReadUInt32(&ch.maxRequestMessageSize); err != nil {
 			return err
 		}
diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index b6feae0..046850e 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -39,6 +39,8 @@ const (
 	sequenceHeaderSize int = 8
 	// the minimum number of milliseconds that a Token may be used before being renewed by the client. (5 min)
 	minTokenLifetime uint32 = 300 * 1000
+	// the smallest buffer size a client may offer, in bytes.
+	minBufferSize uint32 = 8192
 	// the maximum number of milliseconds that a Token may be used before being renewed by the client. (60 min)
 	maxTokenLifetime uint32 = 3600 * 1000
 )
@@ -230,6 +232,9 @@ func (ch *serverSecureChannel) Open() error {
 		if err := dec.ReadString(&ch.endpointURL); err != nil {
 			return ua.BadDecodingError
 		}
+		if cliReceiveBufferSize < minBufferSize || cliSendBufferSize < minBufferSize {
+			return ua.BadConnectionRejected
+		}
 		// log.Printf("-> Hello { ver: %d, rec: %d, snd: %d, msg: %d, chk: %d, ep: %s }\n", remoteProtocolVersion, remoteReceiveBufferSize, remoteSendBufferSize, remoteMaxMessageSize, remoteMaxChunkCount, ch.endpointURL)
 
 	default:
-- 
2.43.0


From def49fe534937f86c56cef31f9cafae63656c8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:41 +0000
Subject: [PATCH 016/101] fix: verify the sequence numbers of received chunks

---
 client/client_secure_channel.go | 30 ++++++++++++++++++++++++++----
 server/server_secure_channel.go | 24 ++++++++++++++++++++----
 2 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 1e0d969..ed5637b 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -111,6 +111,8 @@ type clientSecureChannel struct {
 	closing                    bool
 	requestHandle              uint32
 	sequenceNumber             uint32
+	remoteSequenceNumber       uint32
+	remoteSequenceStarted      bool
 	sendingTokenID             uint32
 	receivingTokenID           uint32
 	localSigningKey            []byte
@@ -453,6 +455,7 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 	ch.tokenID = 0
 	ch.sendingTokenID = 0
 	ch.receivingTokenID = 0
+	ch.remoteSequenceStarted = false
 
 	go ch.responseWorker()
 
@@ -1492,11 +1495,16 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			}
 
 			// read sequence header
-			var unused uint32
-			if err = decoder.ReadUInt32(&unused); err != nil {
+			var sequenceNumber uint32
+			if err = decoder.ReadUInt32(&sequenceNumber); err != nil {
 				return nil, ua.BadDecodingError
 			}
+			if !isNextSequenceNumber(ch.remoteSequenceNumber, sequenceNumber) {
+				return nil, ua.BadSequenceNumberInvalid
+			}
+			ch.remoteSequenceNumber = sequenceNumber
 
+			var unused uint32
 			if err = decoder.ReadUInt32(&unused); err != nil {
 				return nil, ua.BadDecodingError
 			}
@@ -1589,10 +1597,18 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			}
 
 			// sequence header
-			var unused uint32
-			if err = decoder.ReadUInt32(&unused); err != nil {
+			var sequenceNumber uint32
+			if err = decoder.ReadUInt32(&sequenceNumber); err != nil {
 				return nil, ua.BadDecodingError
 			}
+			// the first chunk of the channel starts the sequence
+			if ch.remoteSequenceStarted && !isNextSequenceNumber(ch.remoteSequenceNumber, sequenceNumber) {
+				return nil, ua.BadSequenceNumberInvalid
+			}
+			ch.remoteSequenceStarted = true
+			ch.remoteSequenceNumber = sequenceNumber
+
+			var unused uint32
 			if err = decoder.ReadUInt32(&unused); err != nil {
 				return nil, ua.BadDecodingError
 			}
@@ -1876,6 +1892,12 @@ func (ch *clientSecureChannel) getNextSequenceNumber() uint32 {
 	}
 }
 
+// isNextSequenceNumber returns true if next follows last, where the sequence may wrap
+// within 1024 of the maximum to a number less than 1024.
+func isNextSequenceNumber(last, next uint32) bool {
+	return next == last+1 || (last > math.MaxUint32-1024 && next < 1024)
+}
+
 // getNextNonce gets next random nonce of requested length.
 func getNextNonce(length int) []byte {
 	var nonce = make([]byte, length)
diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 046850e..db96436 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -67,6 +67,7 @@ type serverSecureChannel struct {
 	sendingSemaphore            sync.Mutex
 	receivingSemaphore          sync.Mutex
 	lastSequenceNumber          uint32
+	remoteSequenceNumber        uint32
 	pendingTokenID              uint32
 	pendingTokenExpiration      time.Time
 	tokenID                     uint32
@@ -1186,10 +1187,14 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			}
 
 			// read sequence header
-			var unused uint32
-			if err = decoder.ReadUInt32(&unused); err != nil {
+			var sequenceNumber uint32
+			if err = decoder.ReadUInt32(&sequenceNumber); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
+			if !isNextSequenceNumber(ch.remoteSequenceNumber, sequenceNumber) {
+				return nil, 0, ua.BadSequenceNumberInvalid
+			}
+			ch.remoteSequenceNumber = sequenceNumber
 
 			if err = decoder.ReadUInt32(&id); err != nil {
 				return nil, 0, ua.BadDecodingError
@@ -1322,10 +1327,15 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			}
 
 			// sequence header
-			var unused uint32
-			if err := decoder.ReadUInt32(&unused); err != nil {
+			var sequenceNumber uint32
+			if err := decoder.ReadUInt32(&sequenceNumber); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
+			// the first chunk of the channel starts the sequence
+			if ch.pendingTokenID != 0 && !isNextSequenceNumber(ch.remoteSequenceNumber, sequenceNumber) {
+				return nil, 0, ua.BadSequenceNumberInvalid
+			}
+			ch.remoteSequenceNumber = sequenceNumber
 
 			if err := decoder.ReadUInt32(&id); err != nil {
 				return nil, 0, ua.BadDecodingError
@@ -1553,6 +1563,12 @@ func (ch *serverSecureChannel) getNextSequenceNumber() uint32 {
 	}
 }
 
+// isNextSequenceNumber returns true if next follows last, where the sequence may wrap
+// within 1024 of the maximum to a number less than 1024.
+func isNextSequenceNumber(last, next uint32) bool {
+	return next == last+1 || (last > math.MaxUint32-1024 && next < 1024)
+}
+
 // getNextTokenID gets next TokenID in sequence, skipping zero.
 func (ch *serverSecureChannel) getNextTokenID() uint32 {
 	for {
-- 
2.43.0


From b20aedbe26ab41a8f9a1f5a164eb76a2d9a75b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:43 +0000
Subject: [PATCH 017/101] fix: refuse to open a channel with a policy and mode
 that no endpoint offers

---
 server/server_secure_channel.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index db96436..7acb77c 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -317,6 +317,11 @@ func (ch *serverSecureChannel) Open() error {
 		}
 	}
 
+	// the policy and mode must be offered by an endpoint
+	if ch.localEndpoint.EndpointURL == "" {
+		return ua.BadSecurityModeRejected
+	}
+
 	if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
 		rc := ch.remoteCertificate
 		if rc == nil {
-- 
2.43.0


From ed497f472558aa100488874b5711c17cc0ac8724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:45 +0000
Subject: [PATCH 018/101] fix: bind token renewals to the channel's policy,
 mode and certificate, and open messages to token requests

---
 server/server_secure_channel.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 7acb77c..dc3054e 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -1058,7 +1058,7 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 
 	// read chunks
 	var chunkCount int32
-	var isFinal bool
+	var isFinal, isOpen bool
 
 	for !isFinal {
 		chunkCount++
@@ -1240,12 +1240,25 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				return nil, 0, ua.BadDecodingError
 			}
 			// asymmetric header
-			if err := decoder.ReadString(&ch.securityPolicyURI); err != nil {
+			var securityPolicyURI string
+			if err := decoder.ReadString(&securityPolicyURI); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
-			if err := decoder.ReadByteArray(&ch.remoteCertificate); err != nil {
+			var remoteCertificate []byte
+			if err := decoder.ReadByteArray(&remoteCertificate); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
+			// a renewal keeps the channel, policy and certificate that were accepted when it was opened
+			if ch.pendingTokenID != 0 {
+				if channelID != ch.channelID {
+					return nil, 0, ua.BadTCPSecureChannelUnknown
+				}
+				if securityPolicyURI != ch.securityPolicyURI || !bytes.Equal(remoteCertificate, ch.remoteCertificate) {
+					return nil, 0, ua.BadSecurityChecksFailed
+				}
+			}
+			ch.securityPolicyURI = securityPolicyURI
+			ch.remoteCertificate = remoteCertificate
 			if err := decoder.ReadByteArray(&ch.remoteCertificateThumbprint); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
@@ -1374,7 +1387,11 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				return nil, 0, err
 			}
 
-			isFinal = messageType == ua.MessageTypeOpenFinal
+			// an open message is never part of another message
+			if chunkCount > 1 {
+				return nil, 0, ua.BadDecodingError
+			}
+			isFinal, isOpen = true, true
 
 		case ua.MessageTypeError, ua.MessageTypeAbort:
 			var statusCode uint32
@@ -1491,6 +1508,11 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 		return nil, 0, ua.BadDecodingError
 	}
 
+	// only an open message requests a security token, and it requests nothing else
+	if _, ok := temp.(*ua.OpenSecureChannelRequest); ok != isOpen {
+		return nil, 0, ua.BadSecurityChecksFailed
+	}
+
 	// decode fields from message stream
 	if err := bodyDecoder.Decode(temp); err != nil {
 		return nil, 0, ua.BadDecodingError
@@ -1506,7 +1528,7 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 }
 
 func (ch *serverSecureChannel) handleOpenSecureChannel(requestid uint32, req *ua.OpenSecureChannelRequest) error {
-	if req.RequestType != ua.SecurityTokenRequestTypeRenew {
+	if req.RequestType != ua.SecurityTokenRequestTypeRenew || req.SecurityMode != ch.securityMode {
 		return ua.BadSecurityChecksFailed
 	}
 
-- 
2.43.0


From 8ac7f593a67e33bb12f14432a497c8d16918056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:47 +0000
Subject: [PATCH 019/101] fix: refuse a client nonce shorter than the security
 policy requires

---
 server/server_secure_channel.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index dc3054e..3bd540d 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -290,6 +290,9 @@ func (ch *serverSecureChannel) Open() error {
 	} else {
 		ch.localNonce = []byte{}
 	}
+	if len(oscr.ClientNonce) < len(ch.localNonce) {
+		return ua.BadNonceInvalid
+	}
 	ch.remoteNonce = []byte(oscr.ClientNonce)
 	for _, ep := range ch.srv.Endpoints() {
 		if ep.TransportProfileURI == ua.TransportProfileURIUaTcpTransport && ep.SecurityPolicyURI == ch.securityPolicyURI && ep.SecurityMode == ch.securityMode {
@@ -1537,6 +1540,9 @@ func (ch *serverSecureChannel) handleOpenSecureChannel(requestid uint32, req *ua
 	} else {
 		ch.localNonce = []byte{}
 	}
+	if len(req.ClientNonce) < len(ch.localNonce) {
+		return ua.BadNonceInvalid
+	}
 	ch.remoteNonce = []byte(req.ClientNonce)
 
 	ch.pendingTokenID = ch.getNextTokenID()
-- 
2.43.0


From 6f3102abaf6b6b257407a3d659fc83e7900cb4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:34 +0000
Subject: [PATCH 020/101] fix: client refuses messages under a security token
 it was not issued

---
 client/client_secure_channel.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index ed5637b..6a2f2db 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -1449,6 +1449,10 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 
 			// detect new token
 			ch.tokenLock.RLock()
+			if tokenID == 0 || (tokenID != ch.receivingTokenID && tokenID != ch.tokenID) {
+				ch.tokenLock.RUnlock()
+				return nil, ua.BadSecureChannelTokenUnknown
+			}
 			if tokenID != ch.receivingTokenID {
 				ch.receivingTokenID = tokenID
 
-- 
2.43.0


From e1468521fdf2658b2e5634b88828d9899c8c572d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:35 +0000
Subject: [PATCH 021/101] fix: client writes the token id and picks its keys
 under one lock

---
 client/client_secure_channel.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 6a2f2db..623273a 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -844,10 +844,10 @@ func (ch *clientSecureChannel) sendCloseSecureChannelRequest(ctx context.Context
 		encoder.WriteUInt32(ch.channelID)
 
 		// symmetric security header
+		ch.tokenLock.RLock()
 		encoder.WriteUInt32(ch.tokenID)
 
 		// detect new TokenId
-		ch.tokenLock.RLock()
 		if ch.tokenID != ch.sendingTokenID {
 			ch.sendingTokenID = ch.tokenID
 
@@ -1283,10 +1283,10 @@ func (ch *clientSecureChannel) sendServiceRequest(ctx context.Context, request u
 		encoder.WriteUInt32(ch.channelID)
 
 		// symmetric security header
+		ch.tokenLock.RLock()
 		encoder.WriteUInt32(ch.tokenID)
 
 		// detect new TokenId
-		ch.tokenLock.RLock()
 		if ch.tokenID != ch.sendingTokenID {
 			ch.sendingTokenID = ch.tokenID
 
-- 
2.43.0


From 8cabddc902af084e98d8b13c94bdcef9827524ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:10 +0000
Subject: [PATCH 022/101] fix: client requests end by their deadline whatever
 other requests are pending or blocked

---
 client/client_secure_channel.go | 71 +++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 26 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 623273a..bf4bc20 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -104,10 +104,10 @@ type clientSecureChannel struct {
 	serverURIs                 []string
 	closed                     chan struct{}
 	statusCode                 ua.StatusCode
-	sendingSemaphore           sync.Mutex
+	sendingSemaphore           chan struct{}
 	receivingSemaphore         sync.Mutex
-	pendingResponseCh          chan *ua.ServiceOperation
 	pendingResponses           map[uint32]*ua.ServiceOperation
+	pendingResponsesLock       sync.Mutex
 	closing                    bool
 	requestHandle              uint32
 	sequenceNumber             uint32
@@ -188,6 +188,8 @@ func newClientSecureChannel(
 		maxResponseChunkCount:                maxChunkCount,
 		bytesPool:                            sync.Pool{New: func() any { s := make([]byte, maxBufferSize); return &s }},
 		bufferPool:                           buffer.NewMemPoolAt(int64(maxBufferSize)),
+		sendingSemaphore:                     make(chan struct{}, 1),
+		pendingResponses:                     make(map[uint32]*ua.ServiceOperation),
 		trace:                                trace,
 	}
 	if certs, err := x509.ParseCertificates(ch.remoteCertificate); err == nil && len(certs) > 0 {
@@ -247,25 +249,23 @@ func (ch *clientSecureChannel) Request(ctx context.Context, req ua.ServiceReques
 		header.TimeoutHint = defaultTimeoutHint
 	}
 	var operation = ua.NewServiceOperation(req, make(chan ua.ServiceResponse, 1))
-	ch.pendingResponseCh <- operation
+	ch.addPendingResponse(header.RequestHandle, operation)
+	defer ch.removePendingResponse(header.RequestHandle)
 	ctx, cancel := context.WithDeadline(ctx, header.Timestamp.Add(time.Duration(header.TimeoutHint)*time.Millisecond))
+	defer cancel()
 	err := ch.sendRequest(ctx, operation)
 	if err != nil {
-		cancel()
 		return nil, err
 	}
 	select {
 	case res := <-operation.ResponseCh():
-		cancel()
 		if sr := res.Header().ServiceResult; sr != ua.Good {
 			return nil, sr
 		}
 		return res, nil
 	case <-ctx.Done():
-		cancel()
 		return nil, ua.BadRequestTimeout
 	case <-ch.closed:
-		cancel()
 		return nil, ua.BadSecureChannelClosed
 	}
 }
@@ -448,7 +448,6 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 		ch.remotePublicKeySize = ch.remotePublicKey.Size()
 	}
 
-	ch.pendingResponseCh = make(chan *ua.ServiceOperation, 32)
 	ch.pendingResponses = make(map[uint32]*ua.ServiceOperation)
 	ch.closed = make(chan struct{})
 	ch.channelID = 0
@@ -521,13 +520,27 @@ func (ch *clientSecureChannel) IsClosing() bool {
 // sendRequest sends the service request on transport channel.
 func (ch *clientSecureChannel) sendRequest(ctx context.Context, op *ua.ServiceOperation) error {
 	// Check if time to renew security token.
-	if !ch.tokenRenewalTime.IsZero() && time.Now().After(ch.tokenRenewalTime) {
+	ch.tokenLock.Lock()
+	renew := !ch.tokenRenewalTime.IsZero() && time.Now().After(ch.tokenRenewalTime)
+	if renew {
 		ch.tokenRenewalTime = ch.tokenRenewalTime.Add(60000 * time.Millisecond)
+	}
+	ch.tokenLock.Unlock()
+	if renew {
 		ch.renewToken(ctx)
 	}
 
-	ch.sendingSemaphore.Lock()
-	defer ch.sendingSemaphore.Unlock()
+	select {
+	case ch.sendingSemaphore <- struct{}{}:
+		defer func() { <-ch.sendingSemaphore }()
+	case <-ctx.Done():
+		return ua.BadRequestTimeout
+	case <-ch.closed:
+		return ua.BadSecureChannelClosed
+	}
+	if deadline, ok := ctx.Deadline(); ok && ch.conn != nil {
+		ch.conn.SetWriteDeadline(deadline)
+	}
 
 	req := op.Request()
 
@@ -1780,10 +1793,7 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 
 // handleResponse directs the response to the correct handler.
 func (ch *clientSecureChannel) handleResponse(res ua.ServiceResponse) error {
-	ch.mapPendingResponses()
-	hnd := res.Header().RequestHandle
-	if op, ok := ch.pendingResponses[hnd]; ok {
-		delete(ch.pendingResponses, hnd)
+	if op, ok := ch.removePendingResponse(res.Header().RequestHandle); ok {
 		select {
 		case op.ResponseCh() <- res:
 		default:
@@ -1794,16 +1804,20 @@ func (ch *clientSecureChannel) handleResponse(res ua.ServiceResponse) error {
 	return ua.BadUnknownResponse
 }
 
-// mapPendingResponses maps operations coming from pendingResponseCh.
-func (ch *clientSecureChannel) mapPendingResponses() {
-	for {
-		select {
-		case op := <-ch.pendingResponseCh:
-			ch.pendingResponses[op.Request().Header().RequestHandle] = op
-		default:
-			return
-		}
-	}
+// addPendingResponse registers the operation that waits for the response with the given handle.
+func (ch *clientSecureChannel) addPendingResponse(handle uint32, op *ua.ServiceOperation) {
+	ch.pendingResponsesLock.Lock()
+	defer ch.pendingResponsesLock.Unlock()
+	ch.pendingResponses[handle] = op
+}
+
+// removePendingResponse removes and returns the operation that waits for the response with the given handle.
+func (ch *clientSecureChannel) removePendingResponse(handle uint32) (*ua.ServiceOperation, bool) {
+	ch.pendingResponsesLock.Lock()
+	defer ch.pendingResponsesLock.Unlock()
+	op, ok := ch.pendingResponses[handle]
+	delete(ch.pendingResponses, handle)
+	return op, ok
 }
 
 // renewToken sends request to renew security token.
@@ -1914,7 +1928,12 @@ func (ch *clientSecureChannel) Write(p []byte) (int, error) {
 	if ch.conn == nil {
 		return 0, ua.BadSecureChannelClosed
 	}
-	return ch.conn.Write(p)
+	n, err := ch.conn.Write(p)
+	if err != nil {
+		// part of the chunk may be sent, so no other chunk may follow it.
+		ch.conn.Close()
+	}
+	return n, err
 }
 
 // Read receives a chunk from the remote endpoint.
-- 
2.43.0


From 479162fd002ad0af28a198a6e483bc2b581e2863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:34 +0000
Subject: [PATCH 023/101] fix: client gives up on a server that does not
 acknowledge, and closes connections it could not open

---
 client/client_secure_channel.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index bf4bc20..7653fee 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -271,9 +271,14 @@ func (ch *clientSecureChannel) Request(ctx context.Context, req ua.ServiceReques
 }
 
 // Open opens the channel.
-func (ch *clientSecureChannel) Open(ctx context.Context) error {
+func (ch *clientSecureChannel) Open(ctx context.Context) (err error) {
 	ch.Lock()
 	defer ch.Unlock()
+	defer func() {
+		if err != nil && ch.conn != nil {
+			ch.conn.Close()
+		}
+	}()
 
 	remoteURL, err := url.Parse(ch.endpointURL)
 	if err != nil {
@@ -304,10 +309,17 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 		}
 	}
 
-	ch.conn, err = net.DialTimeout("tcp", remoteURL.Host, time.Duration(ch.connectTimeout)*time.Millisecond)
+	deadline := time.Now().Add(time.Duration(ch.connectTimeout) * time.Millisecond)
+	if d, ok := ctx.Deadline(); ok && d.Before(deadline) {
+		deadline = d
+	}
+	dialer := net.Dialer{Deadline: deadline}
+	conn, err := dialer.DialContext(ctx, "tcp", remoteURL.Host)
 	if err != nil {
 		return err
 	}
+	ch.conn = conn
+	ch.conn.SetDeadline(deadline)
 
 	buf := *(ch.bytesPool.Get().(*[]byte))
 	defer ch.bytesPool.Put(&buf)
@@ -405,6 +417,8 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 		return ua.BadDecodingError
 	}
 
+	ch.conn.SetDeadline(time.Time{})
+
 	// setSecurityPolicy
 	switch ch.securityPolicyURI {
 	case ua.SecurityPolicyURINone:
-- 
2.43.0


From 94786b95673e7d632414909049d8af4e777c1d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:27 +0000
Subject: [PATCH 024/101] fix: report a response that is too large or cannot be
 encoded, and check chunk counts before sending

---
 client/client_secure_channel.go |  8 +++++---
 server/server_secure_channel.go | 21 +++++++++++++++++----
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 7653fee..cc1d9da 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -1255,9 +1255,6 @@ func (ch *clientSecureChannel) sendServiceRequest(ctx context.Context, request u
 
 	for bodyCount > 0 {
 		chunkCount++
-		if i := int(ch.maxRequestChunkCount); i > 0 && chunkCount > i {
-			return ua.BadRequestTooLarge
-		}
 
 		// plan
 		var plainHeaderSize int
@@ -1297,6 +1294,11 @@ func (ch *clientSecureChannel) sendServiceRequest(ctx context.Context, request u
 			chunkSize = plainHeaderSize + sequenceHeaderSize + bodySize + paddingSize + paddingHeaderSize + signatureSize
 		}
 
+		// check the number of chunks before the first is sent
+		if i := int(ch.maxRequestChunkCount); i > 0 && chunkCount == 1 && (bodyCount-1)/maxBodySize >= i {
+			return ua.BadRequestTooLarge
+		}
+
 		var stream = ua.NewWriter(sendBuffer)
 		var encoder = ua.NewBinaryEncoder(stream, ch)
 
diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 3bd540d..57897b4 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -442,7 +442,18 @@ func (ch *serverSecureChannel) Write(res ua.ServiceResponse, id uint32) error {
 	case *ua.OpenSecureChannelResponse:
 		return ch.sendOpenSecureChannelResponse(res1, id)
 	default:
-		return ch.sendServiceResponse(res1, id)
+		err := ch.sendServiceResponse(res1, id)
+		if err == ua.BadResponseTooLarge || err == ua.BadEncodingError {
+			// nothing was sent, so report the error to the client
+			return ch.sendServiceResponse(&ua.ServiceFault{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: res.Header().RequestHandle,
+					ServiceResult: err.(ua.StatusCode),
+				},
+			}, id)
+		}
+		return err
 	}
 }
 
@@ -929,9 +940,6 @@ func (ch *serverSecureChannel) sendServiceResponse(response ua.ServiceResponse,
 
 	for bodyCount > 0 {
 		chunkCount++
-		if i := int(ch.maxResponseChunkCount); i > 0 && chunkCount > i {
-			return ua.BadResponseTooLarge
-		}
 
 		var plainHeaderSize int
 		var paddingHeaderSize int
@@ -970,6 +978,11 @@ func (ch *serverSecureChannel) sendServiceResponse(response ua.ServiceResponse,
 			chunkSize = plainHeaderSize + sequenceHeaderSize + bodySize + paddingSize + paddingHeaderSize + signatureSize
 		}
 
+		// check the number of chunks before the first is sent
+		if i := int(ch.maxResponseChunkCount); i > 0 && chunkCount == 1 && (bodyCount-1)/maxBodySize >= i {
+			return ua.BadResponseTooLarge
+		}
+
 		var stream = ua.NewWriter(ch.sendBuffer)
 		var encoder = ua.NewBinaryEncoder(stream, ch)
 
-- 
2.43.0


From b83e9cc4908a666ebced115becce6c2182abcfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:29 +0000
Subject: [PATCH 025/101] fix: switch the token id and the keys of responses
 together

---
 server/server_secure_channel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 57897b4..127baf0 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -1124,7 +1124,6 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				if newTokenID != ch.pendingTokenID {
 					return nil, 0, ua.BadSecureChannelTokenUnknown
 				}
-				ch.tokenID = ch.pendingTokenID
 				ch.tokenExpiration = ch.pendingTokenExpiration
 				ch.conn.SetDeadline(ch.tokenExpiration)
 				if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
@@ -1151,6 +1150,7 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				}
 
 				ch.sendingSemaphore.Lock()
+				ch.tokenID = ch.pendingTokenID
 				if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
 
 					// (re)create security keys for signing, encrypting
-- 
2.43.0


From da821380eb6844b07d792bad557bc915c995b5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:53 +0000
Subject: [PATCH 026/101] fix: client refuses a response of another type
 instead of panicking

---
 client/client_secure_channel.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index cc1d9da..f6c6660 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -23,6 +23,7 @@ import (
 	"net"
 	"net/url"
 	"reflect"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -262,6 +263,9 @@ func (ch *clientSecureChannel) Request(ctx context.Context, req ua.ServiceReques
 		if sr := res.Header().ServiceResult; sr != ua.Good {
 			return nil, sr
 		}
+		if reflect.TypeOf(res).Elem().Name() != strings.TrimSuffix(reflect.TypeOf(req).Elem().Name(), "Request")+"Response" {
+			return nil, ua.BadUnknownResponse
+		}
 		return res, nil
 	case <-ctx.Done():
 		return nil, ua.BadRequestTimeout
-- 
2.43.0


From 0adce037c09182dca29455b609bc789947e12cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:32 +0000
Subject: [PATCH 027/101] fix: check the nonce and block size of encrypted
 passwords, and answer those that cannot be decrypted

---
 server/server_service_set.go | 116 ++++++++++++++---------------------
 1 file changed, 46 insertions(+), 70 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index a309b18..ff7a082 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -20,7 +20,6 @@ import (
 	"time"
 
 	"github.com/awcullen/opcua/ua"
-	"github.com/djherbis/buffer"
 	"github.com/google/uuid"
 )
 
@@ -583,24 +582,10 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 				}
 				return nil
 			}
-			plainBuf := buffer.NewPartitionAt(ch.bufferPool)
-			cipherBuf := buffer.NewPartitionAt(ch.bufferPool)
-			cipherBuf.Write(cipherBytes)
-			cipherText := make([]byte, int32(len(srv.localPrivateKey.D.Bytes())))
-			for cipherBuf.Len() > 0 {
-				cipherBuf.Read(cipherText)
-				// decrypt with local private key.
-				plainText, err := rsa.DecryptPKCS1v15(rand.Reader, srv.localPrivateKey, cipherText)
-				if err != nil {
-					return err
-				}
-				plainBuf.Write(plainText)
-			}
-			plainLength := uint32(0)
-			if plainBuf.Len() > 0 {
-				binary.Read(plainBuf, binary.LittleEndian, &plainLength)
-			}
-			if plainLength < 32 || plainLength > 96 {
+			password, ok := srv.decryptPassword(cipherBytes, session.SessionNonce(), func(cipherText []byte) ([]byte, error) {
+				return rsa.DecryptPKCS1v15(rand.Reader, srv.localPrivateKey, cipherText)
+			})
+			if !ok {
 				err := ch.Write(
 					&ua.ServiceFault{
 						ResponseHeader: ua.ResponseHeader{
@@ -616,11 +601,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 				}
 				return nil
 			}
-			passwordBytes := make([]byte, plainLength-32)
-			plainBuf.Read(passwordBytes)
-			cipherBuf.Reset()
-			plainBuf.Reset()
-			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: string(passwordBytes)}
+			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: password}
 
 		case ua.SecurityPolicyURIBasic256, ua.SecurityPolicyURIBasic256Sha256, ua.SecurityPolicyURIAes128Sha256RsaOaep:
 			if userIdentityToken.EncryptionAlgorithm != ua.RsaOaepKeyWrap {
@@ -643,24 +624,10 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 				}
 				return nil
 			}
-			plainBuf := buffer.NewPartitionAt(ch.bufferPool)
-			cipherBuf := buffer.NewPartitionAt(ch.bufferPool)
-			cipherBuf.Write(cipherBytes)
-			cipherText := make([]byte, int32(len(srv.localPrivateKey.D.Bytes())))
-			for cipherBuf.Len() > 0 {
-				cipherBuf.Read(cipherText)
-				// decrypt with local private key.
-				plainText, err := rsa.DecryptOAEP(sha1.New(), rand.Reader, srv.localPrivateKey, cipherText, []byte{})
-				if err != nil {
-					return err
-				}
-				plainBuf.Write(plainText)
-			}
-			plainLength := uint32(0)
-			if plainBuf.Len() > 0 {
-				binary.Read(plainBuf, binary.LittleEndian, &plainLength)
-			}
-			if plainLength < 32 || plainLength > 96 {
+			password, ok := srv.decryptPassword(cipherBytes, session.SessionNonce(), func(cipherText []byte) ([]byte, error) {
+				return rsa.DecryptOAEP(sha1.New(), rand.Reader, srv.localPrivateKey, cipherText, []byte{})
+			})
+			if !ok {
 				err := ch.Write(
 					&ua.ServiceFault{
 						ResponseHeader: ua.ResponseHeader{
@@ -676,11 +643,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 				}
 				return nil
 			}
-			passwordBytes := make([]byte, plainLength-32)
-			plainBuf.Read(passwordBytes)
-			cipherBuf.Reset()
-			plainBuf.Reset()
-			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: string(passwordBytes)}
+			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: password}
 
 		case ua.SecurityPolicyURIAes256Sha256RsaPss:
 			if userIdentityToken.EncryptionAlgorithm != ua.RsaOaepSha256KeyWrap {
@@ -703,24 +666,10 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 				}
 				return nil
 			}
-			plainBuf := buffer.NewPartitionAt(ch.bufferPool)
-			cipherBuf := buffer.NewPartitionAt(ch.bufferPool)
-			cipherBuf.Write(cipherBytes)
-			cipherText := make([]byte, int32(len(srv.localPrivateKey.D.Bytes())))
-			for cipherBuf.Len() > 0 {
-				cipherBuf.Read(cipherText)
-				// decrypt with local private key.
-				plainText, err := rsa.DecryptOAEP(sha256.New(), rand.Reader, srv.localPrivateKey, cipherText, []byte{})
-				if err != nil {
-					return err
-				}
-				plainBuf.Write(plainText)
-			}
-			plainLength := uint32(0)
-			if plainBuf.Len() > 0 {
-				binary.Read(plainBuf, binary.LittleEndian, &plainLength)
-			}
-			if plainLength < 32 || plainLength > 96 {
+			password, ok := srv.decryptPassword(cipherBytes, session.SessionNonce(), func(cipherText []byte) ([]byte, error) {
+				return rsa.DecryptOAEP(sha256.New(), rand.Reader, srv.localPrivateKey, cipherText, []byte{})
+			})
+			if !ok {
 				srv.serverDiagnosticsSummary.SecurityRejectedSessionCount++
 				srv.serverDiagnosticsSummary.RejectedSessionCount++
 				srv.serverDiagnosticsSummary.SecurityRejectedRequestsCount++
@@ -740,11 +689,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 				}
 				return nil
 			}
-			passwordBytes := make([]byte, plainLength-32)
-			plainBuf.Read(passwordBytes)
-			cipherBuf.Reset()
-			plainBuf.Reset()
-			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: string(passwordBytes)}
+			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: password}
 
 		default:
 			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: string(cipherBytes)}
@@ -863,6 +808,37 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 	return nil
 }
 
+// decryptPassword decrypts the password of a user name token, which is followed by the nonce that was
+// last sent to the client.
+func (srv *Server) decryptPassword(cipherBytes []byte, nonce ua.ByteString, decrypt func([]byte) ([]byte, error)) (string, bool) {
+	size := srv.localPrivateKey.Size()
+	if len(cipherBytes) == 0 || len(cipherBytes)%size != 0 {
+		return "", false
+	}
+	var plain []byte
+	for i := 0; i < len(cipherBytes); i += size {
+		// decrypt with local private key.
+		plainText, err := decrypt(cipherBytes[i : i+size])
+		if err != nil {
+			return "", false
+		}
+		plain = append(plain, plainText...)
+	}
+	if len(plain) < 4 {
+		return "", false
+	}
+	length := uint64(binary.LittleEndian.Uint32(plain))
+	plain = plain[4:]
+	if length > uint64(len(plain)) || length < uint64(len(nonce)) {
+		return "", false
+	}
+	n := int(length) - len(nonce)
+	if string(plain[n:length]) != string(nonce) {
+		return "", false
+	}
+	return string(plain[:n]), true
+}
+
 // closeSession closes a session.
 func (srv *Server) handleCloseSession(ch *serverSecureChannel, requestid uint32, req *ua.CloseSessionRequest) error {
 	// discovery only?
-- 
2.43.0


From 073bc54eca2f90178e4a41085ace48cdd109a123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:34 +0000
Subject: [PATCH 028/101] fix: an authenticator may return any error without
 crashing the server

---
 server/server_service_set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index ff7a082..b8704d5 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -767,12 +767,16 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 		srv.serverDiagnosticsSummary.RejectedSessionCount++
 		srv.serverDiagnosticsSummary.SecurityRejectedRequestsCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
+		status, ok := err.(ua.StatusCode)
+		if !ok {
+			status = ua.BadUserAccessDenied
+		}
 		err = ch.Write(
 			&ua.ServiceFault{
 				ResponseHeader: ua.ResponseHeader{
 					Timestamp:     time.Now(),
 					RequestHandle: req.RequestHandle,
-					ServiceResult: err.(ua.StatusCode),
+					ServiceResult: status,
 				},
 			},
 			requestid,
-- 
2.43.0


From ebbccd56d85c57bb49e114e6aeb75000bfbe3969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:36 +0000
Subject: [PATCH 029/101] fix: refuse a browse continuation point of the wrong
 length instead of panicking

---
 server/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/session.go b/server/session.go
index 3f63c06..d5bcf9a 100644
--- a/server/session.go
+++ b/server/session.go
@@ -359,7 +359,7 @@ func (s *Session) addBrowseContinuationPoint(data []ua.ReferenceDescription, max
 }
 
 func (s *Session) removeBrowseContinuationPoint(cp []byte) ([]ua.ReferenceDescription, int, bool) {
-	if cp == nil {
+	if len(cp) != 4 {
 		return nil, 0, false
 	}
 	s.Lock()
-- 
2.43.0


From abc3d4fe9da3ff2fab6da2a027f02c60d322bec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:38 +0000
Subject: [PATCH 030/101] fix: a publish request with no timeout hint does not
 time out

---
 server/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/session.go b/server/session.go
index d5bcf9a..9389510 100644
--- a/server/session.go
+++ b/server/session.go
@@ -322,7 +322,7 @@ func (s *Session) removePublishRequest() (*serverSecureChannel, uint32, *ua.Publ
 			rid := op.requestId
 			results := op.results
 			// check if expired
-			if time.Now().After(req.RequestHeader.Timestamp.Add(time.Duration(req.RequestHeader.TimeoutHint) * time.Millisecond)) {
+			if req.RequestHeader.TimeoutHint > 0 && time.Now().After(req.RequestHeader.Timestamp.Add(time.Duration(req.RequestHeader.TimeoutHint) * time.Millisecond)) {
 				err := ch.Write(
 					&ua.ServiceFault{
 						ResponseHeader: ua.ResponseHeader{
-- 
2.43.0


From 1d5526aa5e3784590b14a48a5b96d1ee65deceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:05 +0000
Subject: [PATCH 031/101] fix: bind a session to the client certificate of the
 channel it was created on

---
 server/server_service_set.go | 26 ++++++++++++++++++++++++--
 server/session.go            |  1 +
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index b8704d5..d5c9a96 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -106,7 +106,7 @@ func (srv *Server) handleCreateSession(ch *serverSecureChannel, requestid uint32
 		// check client application uri matches one of the client certificate's san.
 		valid := false
 		if appuri := req.ClientDescription.ApplicationURI; appuri != "" {
-			if crts, err := x509.ParseCertificates([]byte(req.ClientCertificate)); err == nil && len(crts) > 0 {
+			if crts, err := x509.ParseCertificates(ch.RemoteCertificate()); err == nil && len(crts) > 0 {
 				for _, crturi := range crts[0].URIs {
 					if crturi.String() == appuri {
 						valid = true
@@ -227,7 +227,7 @@ func (srv *Server) handleCreateSession(ch *serverSecureChannel, requestid uint32
 		req.ClientDescription,
 		req.ServerURI,
 		req.EndpointURL,
-		req.ClientCertificate,
+		ua.ByteString(ch.RemoteCertificate()),
 		req.MaxResponseMessageSize,
 	)
 	err := srv.SessionManager().Add(session)
@@ -308,6 +308,28 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 		return nil
 	}
 
+	// a session can only be used with the client certificate it was created with.
+	if session.ClientCertificate() != ua.ByteString(ch.RemoteCertificate()) {
+		srv.serverDiagnosticsSummary.SecurityRejectedSessionCount++
+		srv.serverDiagnosticsSummary.RejectedSessionCount++
+		srv.serverDiagnosticsSummary.SecurityRejectedRequestsCount++
+		srv.serverDiagnosticsSummary.RejectedRequestsCount++
+		err := ch.Write(
+			&ua.ServiceFault{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: req.RequestHandle,
+					ServiceResult: ua.BadSecurityChecksFailed,
+				},
+			},
+			requestid,
+		)
+		if err != nil {
+			return err
+		}
+		return nil
+	}
+
 	// verify the client's signature.
 	var err error
 	switch ch.SecurityPolicyURI() {
diff --git a/server/session.go b/server/session.go
index 9389510..b4db53d 100644
--- a/server/session.go
+++ b/server/session.go
@@ -135,6 +135,7 @@ func NewSession(server *Server, sessionId ua.NodeID, sessionName string, authent
 		clientDescription:            clientDescription,
 		serverUri:                    serverUri,
 		endpointURL:                  endpointUrl,
+		clientCertificate:            clientCertificate,
 		localeIds:                    []string{"en-US"},
 		maxResponseMessageSize:       maxResponseMessageSize,
 		timeCreated:                  time.Now(),
-- 
2.43.0


From c5ed7263b49ff20212d50637c593289a6aba7859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:18 +0000
Subject: [PATCH 032/101] fix: revise a requested session timeout that is not a
 number

---
 server/server_service_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index d5c9a96..ccd93d7 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -211,7 +211,7 @@ func (srv *Server) handleCreateSession(ch *serverSecureChannel, requestid uint32
 		sessionName = req.ClientDescription.ApplicationURI
 	}
 	sessionTimeout := req.RequestedSessionTimeout
-	if sessionTimeout < minSessionTimeout {
+	if !(sessionTimeout >= minSessionTimeout) {
 		sessionTimeout = minSessionTimeout
 	}
 	if sessionTimeout > maxSessionTimeout {
-- 
2.43.0


From eccd6e46dd32dedf94347cd8dbd0a2aa7ed3b445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:53 +0000
Subject: [PATCH 033/101] fix: a range write with a value of another type is a
 type mismatch

---
 server/server_service_set.go | 136 ++++++++++++++++++++++++++++-------
 1 file changed, 109 insertions(+), 27 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index ccd93d7..9684abc 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -2986,7 +2986,11 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := []rune(value.Value.(string))
+		v3, ok := value.Value.(string)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
+		v2 := []rune(v3)
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3002,7 +3006,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.(ua.ByteString)
+		v2, ok := value.Value.(ua.ByteString)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3018,7 +3025,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]bool)
+		v2, ok := value.Value.([]bool)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3034,7 +3044,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]int8)
+		v2, ok := value.Value.([]int8)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3050,7 +3063,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]byte)
+		v2, ok := value.Value.([]byte)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3066,7 +3082,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]int16)
+		v2, ok := value.Value.([]int16)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3082,7 +3101,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]uint16)
+		v2, ok := value.Value.([]uint16)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3098,7 +3120,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]int32)
+		v2, ok := value.Value.([]int32)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3114,7 +3139,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]uint32)
+		v2, ok := value.Value.([]uint32)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3130,7 +3158,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]int64)
+		v2, ok := value.Value.([]int64)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3146,7 +3177,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]uint64)
+		v2, ok := value.Value.([]uint64)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3162,7 +3196,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]float32)
+		v2, ok := value.Value.([]float32)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3178,7 +3215,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]float64)
+		v2, ok := value.Value.([]float64)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3194,7 +3234,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]string)
+		v2, ok := value.Value.([]string)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3210,7 +3253,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]time.Time)
+		v2, ok := value.Value.([]time.Time)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3226,7 +3272,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]uuid.UUID)
+		v2, ok := value.Value.([]uuid.UUID)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3242,7 +3291,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.ByteString)
+		v2, ok := value.Value.([]ua.ByteString)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3258,7 +3310,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.XMLElement)
+		v2, ok := value.Value.([]ua.XMLElement)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3274,7 +3329,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.NodeID)
+		v2, ok := value.Value.([]ua.NodeID)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3290,7 +3348,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.ExpandedNodeID)
+		v2, ok := value.Value.([]ua.ExpandedNodeID)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3306,7 +3367,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.StatusCode)
+		v2, ok := value.Value.([]ua.StatusCode)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3322,7 +3386,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.QualifiedName)
+		v2, ok := value.Value.([]ua.QualifiedName)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3338,7 +3405,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.LocalizedText)
+		v2, ok := value.Value.([]ua.LocalizedText)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3354,7 +3424,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.ExtensionObject)
+		v2, ok := value.Value.([]ua.ExtensionObject)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3370,7 +3443,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.DataValue)
+		v2, ok := value.Value.([]ua.DataValue)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3386,7 +3462,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.Variant)
+		v2, ok := value.Value.([]ua.Variant)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
@@ -3402,7 +3481,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		if status.IsBad() {
 			return ua.NilDataValue, status
 		}
-		v2 := value.Value.([]ua.DiagnosticInfo)
+		v2, ok := value.Value.([]ua.DiagnosticInfo)
+		if !ok {
+			return ua.NilDataValue, ua.BadTypeMismatch
+		}
 		if j-i != len(v2) {
 			return ua.NilDataValue, ua.BadIndexRangeNoData
 		}
-- 
2.43.0


From 7d122a8a4b338c9783165972a369bbd60dbfcbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:05 +0000
Subject: [PATCH 034/101] fix: check data type and rank of matrices, data
 values and values of abstract types on write

---
 server/server_service_set.go | 105 ++++++++++++++++++++++++++++++++++-
 1 file changed, 103 insertions(+), 2 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 9684abc..2661130 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -6085,6 +6085,13 @@ func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.Sta
 				if destRank != ua.ValueRankOneDimension && destRank != ua.ValueRankOneOrMoreDimensions && destRank != ua.ValueRankScalarOrOneDimension && destRank != ua.ValueRankAny {
 					return ua.BadTypeMismatch
 				}
+			case ua.DataValue:
+				if destType != ua.VariantTypeDataValue && destType != ua.VariantTypeVariant {
+					return ua.BadTypeMismatch
+				}
+				if destRank != ua.ValueRankScalar && destRank != ua.ValueRankScalarOrOneDimension && destRank != ua.ValueRankAny {
+					return ua.BadTypeMismatch
+				}
 			default:
 				switch v3 := reflect.ValueOf(v2); v3.Kind() {
 				case reflect.Struct:
@@ -6096,8 +6103,11 @@ func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.Sta
 						return ua.BadTypeMismatch
 					}
 				case reflect.Slice, reflect.Array:
-					//TODO: check destType
-					if destRank == ua.ValueRankScalar {
+					vt, rank := variantTypeOf(v2)
+					if destType != vt && destType != ua.VariantTypeVariant {
+						return ua.BadTypeMismatch
+					}
+					if destRank != rank && destRank != ua.ValueRankOneOrMoreDimensions && destRank != ua.ValueRankAny {
 						return ua.BadTypeMismatch
 					}
 				default:
@@ -6106,6 +6116,11 @@ func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.Sta
 
 			}
 
+			// a variable of an abstract type, e.g. Number, accepts the values of its subtypes
+			if destType == ua.VariantTypeVariant && !srv.isValueOfType(writeValue.Value.Value, n1.DataType()) {
+				return ua.BadTypeMismatch
+			}
+
 			if f := n1.writeValueHandler; f != nil {
 				result, status := f(session, writeValue)
 				if status == ua.Good {
@@ -6143,6 +6158,92 @@ func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.Sta
 	}
 }
 
+// variantTypeOf returns the variant type and the number of dimensions of a value.
+func variantTypeOf(value any) (byte, int32) {
+	t := reflect.TypeOf(value)
+	rank := int32(0)
+	for t.Kind() == reflect.Slice {
+		t = t.Elem()
+		rank++
+	}
+	switch reflect.Zero(t).Interface().(type) {
+	case time.Time:
+		return ua.VariantTypeDateTime, rank
+	case uuid.UUID:
+		return ua.VariantTypeGUID, rank
+	case ua.ByteString:
+		return ua.VariantTypeByteString, rank
+	case ua.XMLElement:
+		return ua.VariantTypeXMLElement, rank
+	case ua.NodeID:
+		return ua.VariantTypeNodeID, rank
+	case ua.ExpandedNodeID:
+		return ua.VariantTypeExpandedNodeID, rank
+	case ua.StatusCode:
+		return ua.VariantTypeStatusCode, rank
+	case ua.QualifiedName:
+		return ua.VariantTypeQualifiedName, rank
+	case ua.LocalizedText:
+		return ua.VariantTypeLocalizedText, rank
+	case ua.DataValue:
+		return ua.VariantTypeDataValue, rank
+	case ua.DiagnosticInfo:
+		return ua.VariantTypeDiagnosticInfo, rank
+	}
+	switch t {
+	case reflect.TypeFor[ua.NodeID]():
+		return ua.VariantTypeNodeID, rank
+	case reflect.TypeFor[ua.Variant]():
+		return ua.VariantTypeVariant, rank
+	}
+	switch t.Kind() {
+	case reflect.Bool:
+		return ua.VariantTypeBoolean, rank
+	case reflect.Int8:
+		return ua.VariantTypeSByte, rank
+	case reflect.Uint8:
+		return ua.VariantTypeByte, rank
+	case reflect.Int16:
+		return ua.VariantTypeInt16, rank
+	case reflect.Uint16:
+		return ua.VariantTypeUInt16, rank
+	case reflect.Int32:
+		return ua.VariantTypeInt32, rank
+	case reflect.Uint32:
+		return ua.VariantTypeUInt32, rank
+	case reflect.Int64:
+		return ua.VariantTypeInt64, rank
+	case reflect.Uint64:
+		return ua.VariantTypeUInt64, rank
+	case reflect.Float32:
+		return ua.VariantTypeFloat, rank
+	case reflect.Float64:
+		return ua.VariantTypeDouble, rank
+	case reflect.String:
+		return ua.VariantTypeString, rank
+	}
+	return ua.VariantTypeExtensionObject, rank
+}
+
+// isValueOfType returns whether the value, or each element of an array of variants, is of the data type or a subtype.
+func (srv *Server) isValueOfType(value any, dataType ua.NodeID) bool {
+	if value == nil || dataType == ua.DataTypeIDBaseDataType {
+		return true
+	}
+	if v1 := reflect.ValueOf(value); v1.Kind() == reflect.Slice {
+		if vt, _ := variantTypeOf(value); vt == ua.VariantTypeVariant {
+			for i := 0; i < v1.Len(); i++ {
+				if !srv.isValueOfType(v1.Index(i).Interface(), dataType) {
+					return false
+				}
+			}
+			return true
+		}
+	}
+	vt, _ := variantTypeOf(value)
+	return srv.NamespaceManager().IsSubtype(ua.NewNodeIDNumeric(0, uint32(vt)), dataType)
+}
+
 // readValue returns the value of the attribute.
 func (srv *Server) readValue(session *Session, readValueId ua.ReadValueID) ua.DataValue {
 	if session == nil {
-- 
2.43.0


From 7be28b5aa326672b9a408bdc0713c4d058c74336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:07 +0000
Subject: [PATCH 035/101] fix: setting the value of a historizing variable
 without a historian does not panic

---
 server/variable_node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/variable_node.go b/server/variable_node.go
index 57a526f..25ad389 100644
--- a/server/variable_node.go
+++ b/server/variable_node.go
@@ -131,7 +131,7 @@ func (n *VariableNode) SetValue(value ua.DataValue) {
 	n.Lock()
 	defer n.Unlock()
 	n.value = value
-	if n.historizing {
+	if n.historizing && n.historian != nil {
 		n.historian.WriteValue(context.Background(), n.nodeId, value)
 	}
 }
-- 
2.43.0


From e817e51f1aac6f73063d1afcb4c6eb3f641a9da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:07 +0000
Subject: [PATCH 036/101] fix: concurrent range writes to a variable do not
 lose each other

---
 server/server_service_set.go | 3 +++
 server/variable_node.go      | 1 +
 2 files changed, 4 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 2661130..a59b88f 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -6128,6 +6128,9 @@ func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.Sta
 				}
 				return status
 			} else {
+				// keep other writers from changing the value between reading and setting it
+				n1.writeMutex.Lock()
+				defer n1.writeMutex.Unlock()
 				result, status := writeRange(n1.Value(), writeValue.Value, writeValue.IndexRange)
 				if status == ua.Good {
 					n1.SetValue(result)
diff --git a/server/variable_node.go b/server/variable_node.go
index 25ad389..9b16c84 100644
--- a/server/variable_node.go
+++ b/server/variable_node.go
@@ -9,6 +9,7 @@ import (
 
 type VariableNode struct {
 	sync.RWMutex
+	writeMutex              sync.Mutex
 	server                  *Server
 	nodeId                  ua.NodeID
 	nodeClass               ua.NodeClass
-- 
2.43.0


From af8a8f80f12635c45a83f64dcab34ed4ef47e82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:37 +0000
Subject: [PATCH 037/101] fix: an index range may name any 32 bit index

---
 server/server_service_set.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index a59b88f..4a6685d 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -3513,11 +3513,11 @@ func parseBounds(s string, length int) (int, int, ua.StatusCode) {
 
 	index := strings.Index(s, ":")
 	if index != -1 {
-		lo, err = strconv.ParseInt(s[:index], 10, 32)
+		lo, err = strconv.ParseInt(s[:index], 10, 64)
 		if err != nil {
 			return -1, -1, ua.BadIndexRangeInvalid
 		}
-		hi, err = strconv.ParseInt(s[index+1:], 10, 32)
+		hi, err = strconv.ParseInt(s[index+1:], 10, 64)
 		if err != nil {
 			return -1, -1, ua.BadIndexRangeInvalid
 		}
@@ -3528,7 +3528,7 @@ func parseBounds(s string, length int) (int, int, ua.StatusCode) {
 			return -1, -1, ua.BadIndexRangeInvalid
 		}
 	} else {
-		lo, err = strconv.ParseInt(s, 10, 32)
+		lo, err = strconv.ParseInt(s, 10, 64)
 		if err != nil {
 			return -1, -1, ua.BadIndexRangeInvalid
 		}
@@ -4808,11 +4808,11 @@ func (srv *Server) validateIndexRange(s string, dataType ua.NodeID, rank int32)
 	for _, r := range ranges {
 		index := strings.Index(r, ":")
 		if index != -1 {
-			lo, err = strconv.ParseInt(r[:index], 10, 32)
+			lo, err = strconv.ParseInt(r[:index], 10, 64)
 			if err != nil {
 				return ua.BadIndexRangeInvalid
 			}
-			hi, err = strconv.ParseInt(r[index+1:], 10, 32)
+			hi, err = strconv.ParseInt(r[index+1:], 10, 64)
 			if err != nil {
 				return ua.BadIndexRangeInvalid
 			}
@@ -4823,7 +4823,7 @@ func (srv *Server) validateIndexRange(s string, dataType ua.NodeID, rank int32)
 				return ua.BadIndexRangeInvalid
 			}
 		} else {
-			lo, err = strconv.ParseInt(r, 10, 32)
+			lo, err = strconv.ParseInt(r, 10, 64)
 			if err != nil {
 				return ua.BadIndexRangeInvalid
 			}
-- 
2.43.0


From 97bf6da37cbf4f444fb95ac3cfe5dd1b0dd09301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:16 +0000
Subject: [PATCH 038/101] fix: a range write to substrings of a string array
 replaces the substrings

---
 server/server_service_set.go | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 4a6685d..6d2cc93 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -3243,7 +3243,23 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		}
 		dst := make([]string, len(src))
 		copy(dst, src)
-		copy(dst[i:j], v2)
+		if len(ranges) > 1 {
+			for ii, str := range v2 {
+				v3 := []rune(dst[i+ii])
+				k, l, status := parseBounds(ranges[1], len(v3))
+				if status.IsBad() {
+					return ua.NilDataValue, status
+				}
+				v4 := []rune(str)
+				if l-k != len(v4) {
+					return ua.NilDataValue, ua.BadIndexRangeNoData
+				}
+				copy(v3[k:l], v4)
+				dst[i+ii] = string(v3)
+			}
+		} else {
+			copy(dst[i:j], v2)
+		}
 		return ua.NewDataValue(dst, value.StatusCode, time.Now(), 0, time.Now(), 0), ua.Good
 	case []time.Time:
 		if len(ranges) > 1 {
@@ -3300,7 +3316,22 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 		}
 		dst := make([]ua.ByteString, len(src))
 		copy(dst, src)
-		copy(dst[i:j], v2)
+		if len(ranges) > 1 {
+			for ii, str := range v2 {
+				v3 := []byte(dst[i+ii])
+				k, l, status := parseBounds(ranges[1], len(v3))
+				if status.IsBad() {
+					return ua.NilDataValue, status
+				}
+				if l-k != len(str) {
+					return ua.NilDataValue, ua.BadIndexRangeNoData
+				}
+				copy(v3[k:l], str)
+				dst[i+ii] = ua.ByteString(v3)
+			}
+		} else {
+			copy(dst[i:j], v2)
+		}
 		return ua.NewDataValue(dst, value.StatusCode, time.Now(), 0, time.Now(), 0), ua.Good
 	case []ua.XMLElement:
 		if len(ranges) > 1 {
-- 
2.43.0


From 38ed49fb13ae937a5db282851a748abdf408e817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:18 +0000
Subject: [PATCH 039/101] fix: an index range with an empty dimension is
 invalid

---
 server/server_service_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 6d2cc93..b5549a8 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -3539,7 +3539,7 @@ func parseBounds(s string, length int) (int, int, ua.StatusCode) {
 	}
 
 	if s == "" {
-		return 0, length, ua.Good
+		return -1, -1, ua.BadIndexRangeInvalid
 	}
 
 	index := strings.Index(s, ":")
-- 
2.43.0


From 4f787018e89a4f6b9fd026e92c25dc805ef1ac87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:07 +0000
Subject: [PATCH 040/101] fix: GetSubTypes follows the references to the
 subtypes

---
 server/namespace_manager.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 7b878d2..c73a350 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -557,14 +557,23 @@ func (m *NamespaceManager) DeleteNodeByIDRecursive(nodeId ua.NodeID) (int, error
 // GetSubTypes traverses the tree to get all target nodes with HasSubtype reference type.
 func (m *NamespaceManager) GetSubTypes(node Node) []Node {
 	children := []Node{}
+	visited := map[ua.NodeID]struct{}{node.NodeID(): {}}
 	queue := deque.Deque[Node]{}
 	queue.PushBack(node)
 	for queue.Len() > 0 {
 		node := queue.PopFront()
 		for _, r := range node.References() {
 			if !r.IsInverse && r.ReferenceTypeID == ua.ReferenceTypeIDHasSubtype {
-				queue.PushBack(node)
-				children = append(children, node)
+				target, ok := m.FindNode(ua.ToNodeID(r.TargetID, m.NamespaceUris()))
+				if !ok {
+					continue
+				}
+				if _, ok := visited[target.NodeID()]; ok {
+					continue
+				}
+				visited[target.NodeID()] = struct{}{}
+				queue.PushBack(target)
+				children = append(children, target)
 			}
 		}
 	}
-- 
2.43.0


From b807b60ffafad099a15a2abaedb48224d73bd9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:09 +0000
Subject: [PATCH 041/101] fix: GetChildren visits each node once

---
 server/namespace_manager.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index c73a350..3ad09a9 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -583,21 +583,19 @@ func (m *NamespaceManager) GetSubTypes(node Node) []Node {
 // GetChildren traverses the tree to get all target nodes with the given reference types.
 func (m *NamespaceManager) GetChildren(node Node, uris []string, withRefTypes []ua.NodeID) []Node {
 	children := []Node{}
-	type queuedItem struct {
-		Node    Node
-		Visited bool
-	}
-	queue := deque.Deque[queuedItem]{}
-	queue.PushBack(queuedItem{node, false})
+	visited := map[ua.NodeID]struct{}{node.NodeID(): {}}
+	queue := deque.Deque[Node]{}
+	queue.PushBack(node)
 	for queue.Len() > 0 {
 		item := queue.PopFront()
-		if item.Visited {
-			continue
-		}
-		for _, r := range item.Node.References() {
+		for _, r := range item.References() {
 			if !r.IsInverse && (withRefTypes == nil || Contains(withRefTypes, r.ReferenceTypeID)) {
 				if target, ok := m.nodes[ua.ToNodeID(r.TargetID, uris)]; ok {
-					queue.PushBack(queuedItem{target, false})
+					if _, ok := visited[target.NodeID()]; ok {
+						continue
+					}
+					visited[target.NodeID()] = struct{}{}
+					queue.PushBack(target)
 					children = append(children, target)
 				}
 			}
-- 
2.43.0


From e361f7e6b78c1b06047f0d931b20e7b7bbec7cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:25 +0000
Subject: [PATCH 042/101] fix: DeleteNodeByIDRecursive counts the nodes it
 deleted

---
 server/namespace_manager.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 3ad09a9..c671661 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -535,23 +535,25 @@ func (m *NamespaceManager) DeleteNodeByIDRecursive(nodeId ua.NodeID) (int, error
 	children := m.GetChildren(node, m.namespaces, hasChildandSubtypes)
 
 	// Delete all children first
+	count := 0
 	for _, child := range children {
 		// Check if child is also protected (safety check)
 		if m.isProtectedNode(child.NodeID()) {
 			continue // Skip protected children
 		}
 		if err := m.deleteNodeandInverseReferences(child, m.namespaces); err != nil {
-			return len(children), err
+			return count, err
 		}
+		count++
 	}
 
 	// Delete the parent node
 	if err := m.deleteNodeandInverseReferences(node, m.namespaces); err != nil {
-		return len(children), err
+		return count, err
 	}
 
 	// Return count including the parent node
-	return len(children) + 1, nil
+	return count + 1, nil
 }
 
 // GetSubTypes traverses the tree to get all target nodes with HasSubtype reference type.
-- 
2.43.0


From e6a4275d96ea0dd9fdf7a3ddccd0df55f1bc78f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:27 +0000
Subject: [PATCH 043/101] fix: FindVariantType follows changes of the type
 hierarchy and ends on cycles

---
 server/namespace_manager.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index c671661..f5aa9d3 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -189,7 +189,7 @@ func (m *NamespaceManager) FindVariantType(dataType ua.NodeID) byte {
 	}
 	m.RUnlock()
 	t := dataType
-	for {
+	for i := 0; i <= 100; i++ {
 		switch t {
 		case ua.DataTypeIDBoolean:
 			vt = ua.VariantTypeBoolean
@@ -276,6 +276,9 @@ func (m *NamespaceManager) FindVariantType(dataType ua.NodeID) byte {
 		t = m.FindSuperType(t)
 	}
 exit:
+	if vt == ua.VariantTypeNull {
+		return vt // the type may be added later
+	}
 	m.Lock()
 	m.variantTypeMap[dataType] = vt
 	m.Unlock()
@@ -346,6 +349,7 @@ func toEnumValues(v []ua.ExtensionObject) []ua.EnumValueType {
 }
 
 func (m *NamespaceManager) addNodes(nodes []Node) error {
+	clear(m.variantTypeMap)
 	for _, node := range nodes {
 		m.nodes[node.NodeID()] = node
 	}
@@ -439,6 +443,7 @@ func (m *NamespaceManager) deleteNodeandInverseReferences(node Node, uris []stri
 		}
 	}
 	// delete node from namespace.
+	clear(m.variantTypeMap)
 	delete(m.nodes, id)
 	return nil
 }
-- 
2.43.0


From 521e37772d5388b16a542b878c3c5ed75eeff5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:29 +0000
Subject: [PATCH 044/101] fix: browse skips a reference to a node that does not
 exist

---
 server/server_service_set.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index b5549a8..7e3402c 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -1257,9 +1257,7 @@ func (srv *Server) handleBrowse(ch *serverSecureChannel, requestid uint32, req *
 				}
 				t, ok := m.FindNode(ua.ToNodeID(r.TargetID, srv.NamespaceUris()))
 				if !ok {
-					results[i] = ua.BrowseResult{StatusCode: ua.BadNodeIDUnknown}
-					wg.Done()
-					return
+					continue
 				}
 				rp2 := t.UserRolePermissions(session.UserIdentity())
 				if !IsUserPermitted(rp2, ua.PermissionTypeBrowse) {
-- 
2.43.0


From 61498d0398bc310c6e2f952c6335f4a712f7717e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:31 +0000
Subject: [PATCH 045/101] fix: translating a browse path follows every match of
 an element

---
 server/server_service_set.go | 68 +++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 35 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 7e3402c..b77b09a 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -1670,7 +1670,7 @@ func (srv *Server) handleTranslateBrowsePathsToNodeIds(ch *serverSecureChannel,
 					return
 				}
 			}
-			targets, err1 := srv.follow(d.StartingNode, d.RelativePath.Elements)
+			targets, err1 := srv.follow(session, d.StartingNode, d.RelativePath.Elements)
 			if err1 == ua.BadNodeIDUnknown {
 				results[i] = ua.BrowsePathResult{StatusCode: ua.BadNodeIDUnknown, Targets: []ua.BrowsePathTarget{}}
 				wg.Done()
@@ -1978,48 +1978,46 @@ func (srv *Server) handleUnregisterNodes(ch *serverSecureChannel, requestid uint
 	return nil
 }
 
-func (srv *Server) follow(nodeID ua.NodeID, elements []ua.RelativePathElement) ([]ua.BrowsePathTarget, error) {
+func (srv *Server) follow(session *Session, nodeID ua.NodeID, elements []ua.RelativePathElement) ([]ua.BrowsePathTarget, error) {
 	if len(elements) == 0 {
 		return nil, ua.BadNothingToDo
-	} else if len(elements) == 1 {
-		ns, err2 := srv.target(nodeID, elements[0])
-		if err2 != nil {
-			return nil, err2
-		}
-		targets := make([]ua.BrowsePathTarget, len(ns))
-		for i, n := range ns {
-			targets[i] = ua.BrowsePathTarget{TargetID: n, RemainingPathIndex: math.MaxUint32}
-		}
-		return targets, nil
-	} else {
-		e := elements[0]
-		ns2, err3 := srv.target(nodeID, e)
-		if err3 != nil {
-			return nil, err3
-		}
-		var nextID ua.ExpandedNodeID
-		if len(ns2) > 0 {
-			nextID = ns2[0]
-		}
-		nextElements := make([]ua.RelativePathElement, len(elements)-1)
-		copy(nextElements, elements[1:])
-		nextNode, ok := srv.NamespaceManager().FindNode(ua.ToNodeID(nextID, srv.NamespaceUris()))
-		if ok {
-			return srv.follow(nextNode.NodeID(), nextElements)
+	}
+	targetIDs := []ua.ExpandedNodeID{}
+	nodeIDs := []ua.NodeID{nodeID}
+	for i, element := range elements {
+		// follow every match of the previous element
+		visited := map[ua.NodeID]struct{}{}
+		nextIDs := []ua.NodeID{}
+		targetIDs = targetIDs[:0]
+		for _, id := range nodeIDs {
+			ns, err := srv.target(session, id, element)
+			if err == ua.BadNodeIDUnknown && i == 0 {
+				return nil, err
+			}
+			for _, n := range ns {
+				nextID := ua.ToNodeID(n, srv.NamespaceUris())
+				if _, ok := visited[nextID]; ok {
+					continue
+				}
+				visited[nextID] = struct{}{}
+				nextIDs = append(nextIDs, nextID)
+				targetIDs = append(targetIDs, n)
+			}
 		}
-		if len(nextElements) == 0 {
-			return []ua.BrowsePathTarget{
-				{TargetID: nextID, RemainingPathIndex: math.MaxUint32},
-			}, nil
+		if len(nextIDs) == 0 {
+			return nil, ua.BadNoMatch
 		}
-		return []ua.BrowsePathTarget{
-			{TargetID: nextID, RemainingPathIndex: uint32(len(nextElements))},
-		}, nil
+		nodeIDs = nextIDs
 	}
+	targets := make([]ua.BrowsePathTarget, len(targetIDs))
+	for i, n := range targetIDs {
+		targets[i] = ua.BrowsePathTarget{TargetID: n, RemainingPathIndex: math.MaxUint32}
+	}
+	return targets, nil
 }
 
 // target returns a slice of target nodeid's that match the given RelativePathElement
-func (srv *Server) target(nodeID ua.NodeID, element ua.RelativePathElement) ([]ua.ExpandedNodeID, error) {
+func (srv *Server) target(session *Session, nodeID ua.NodeID, element ua.RelativePathElement) ([]ua.ExpandedNodeID, error) {
 	referenceTypeID := element.ReferenceTypeID
 	includeSubtypes := element.IncludeSubtypes
 	isInverse := element.IsInverse
-- 
2.43.0


From 9e3254e1dfd7e59094a3524115eecc41423a6b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:33 +0000
Subject: [PATCH 046/101] fix: translating a browse path does not reveal nodes
 the user may not browse

---
 server/server_service_set.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index b77b09a..1bb78a4 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -2027,6 +2027,9 @@ func (srv *Server) target(session *Session, nodeID ua.NodeID, element ua.Relativ
 	if !ok {
 		return nil, ua.BadNodeIDUnknown
 	}
+	if !IsUserPermitted(node.UserRolePermissions(session.UserIdentity()), ua.PermissionTypeBrowse) {
+		return nil, ua.BadNodeIDUnknown
+	}
 	refs := node.References()
 	targets := make([]ua.ExpandedNodeID, 0, 4)
 	for _, r := range refs {
@@ -2043,6 +2046,9 @@ func (srv *Server) target(session *Session, nodeID ua.NodeID, element ua.Relativ
 		if !(targetName == t.BrowseName()) {
 			continue
 		}
+		if !IsUserPermitted(t.UserRolePermissions(session.UserIdentity()), ua.PermissionTypeBrowse) {
+			continue
+		}
 		targets = append(targets, r.TargetID)
 	}
 	if len(targets) == 0 {
-- 
2.43.0


From b675bae8af3c536b879b9ffa2c5ee9d3e4f5fc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:22 +0000
Subject: [PATCH 047/101] fix: a role rule that does not apply does not hide
 the rules after it

---
 server/roles_provider.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/roles_provider.go b/server/roles_provider.go
index d85a039..5147abd 100644
--- a/server/roles_provider.go
+++ b/server/roles_provider.go
@@ -151,7 +151,7 @@ func (p *RulesBasedRolesProvider) GetRoles(userIdentity any, applicationURI stri
 			}
 		}
 		if !ok {
-			break // continue with next rule
+			continue // with next rule
 		}
 		ok = rule.EndpointsExclude // true means the following endpoints should be excluded
 		for _, ep := range rule.Endpoints {
@@ -161,7 +161,7 @@ func (p *RulesBasedRolesProvider) GetRoles(userIdentity any, applicationURI stri
 			}
 		}
 		if !ok {
-			break // continue with next role
+			continue // with next rule
 		}
 		for _, identity := range rule.Identities {
 
-- 
2.43.0


From 7313f9af67c2dc57fe3cbc00d9c27cee2782913e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:33 +0000
Subject: [PATCH 048/101] fix: reading history requires the permission to read
 history

---
 server/server_service_set.go | 66 +++++++++++++++++++++++++++++++-----
 1 file changed, 58 insertions(+), 8 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 1bb78a4..1d216f3 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -2546,10 +2546,23 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 	}
 
 	ctx := context.Background()
+	nodesToRead, merge := srv.filterHistoryRead(session, req.NodesToRead)
+	if len(nodesToRead) == 0 {
+		return ch.Write(
+			&ua.HistoryReadResponse{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: req.RequestHeader.RequestHandle,
+				},
+				Results: merge(nil),
+			},
+			requestid,
+		)
+	}
 
 	switch details := req.HistoryReadDetails.(type) {
 	case ua.ReadEventDetails:
-		results, status := h.ReadEvent(ctx, req.NodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
+		results, status := h.ReadEvent(ctx, nodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
 		err := ch.Write(
 			&ua.HistoryReadResponse{
 				ResponseHeader: ua.ResponseHeader{
@@ -2557,7 +2570,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: status,
 				},
-				Results: results,
+				Results: merge(results),
 			},
 			requestid,
 		)
@@ -2567,7 +2580,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 		return nil
 
 	case ua.ReadRawModifiedDetails:
-		results, status := h.ReadRawModified(ctx, req.NodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
+		results, status := h.ReadRawModified(ctx, nodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
 		err := ch.Write(
 			&ua.HistoryReadResponse{
 				ResponseHeader: ua.ResponseHeader{
@@ -2575,7 +2588,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: status,
 				},
-				Results: results,
+				Results: merge(results),
 			},
 			requestid,
 		)
@@ -2585,7 +2598,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 		return nil
 
 	case ua.ReadProcessedDetails:
-		results, status := h.ReadProcessed(ctx, req.NodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
+		results, status := h.ReadProcessed(ctx, nodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
 		err := ch.Write(
 			&ua.HistoryReadResponse{
 				ResponseHeader: ua.ResponseHeader{
@@ -2593,7 +2606,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: status,
 				},
-				Results: results,
+				Results: merge(results),
 			},
 			requestid,
 		)
@@ -2603,7 +2616,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 		return nil
 
 	case ua.ReadAtTimeDetails:
-		results, status := h.ReadAtTime(ctx, req.NodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
+		results, status := h.ReadAtTime(ctx, nodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
 		err := ch.Write(
 			&ua.HistoryReadResponse{
 				ResponseHeader: ua.ResponseHeader{
@@ -2611,7 +2624,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: status,
 				},
-				Results: results,
+				Results: merge(results),
 			},
 			requestid,
 		)
@@ -2638,6 +2651,43 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 	return nil
 }
 
+// filterHistoryRead returns the nodes whose history the user may read, and a function that
+// merges the results of these nodes with the bad results of the others.
+func (srv *Server) filterHistoryRead(session *Session, nodes []ua.HistoryReadValueID) ([]ua.HistoryReadValueID, func([]ua.HistoryReadResult) []ua.HistoryReadResult) {
+	permitted := make([]ua.HistoryReadValueID, 0, len(nodes))
+	codes := make([]ua.StatusCode, len(nodes))
+	for i, n := range nodes {
+		if node, ok := srv.NamespaceManager().FindNode(n.NodeID); ok {
+			rp := node.UserRolePermissions(session.UserIdentity())
+			if !IsUserPermitted(rp, ua.PermissionTypeBrowse) {
+				codes[i] = ua.BadNodeIDUnknown
+				continue
+			}
+			if !IsUserPermitted(rp, ua.PermissionTypeReadHistory) {
+				codes[i] = ua.BadUserAccessDenied
+				continue
+			}
+		}
+		permitted = append(permitted, n)
+	}
+	return permitted, func(results []ua.HistoryReadResult) []ua.HistoryReadResult {
+		if len(permitted) == len(nodes) {
+			return results
+		}
+		merged := make([]ua.HistoryReadResult, len(nodes))
+		j := 0
+		for i, code := range codes {
+			if code != ua.Good {
+				merged[i].StatusCode = code
+			} else if j < len(results) {
+				merged[i] = results[j]
+				j++
+			}
+		}
+		return merged
+	}
+}
+
 // readRange returns slice of value specified by IndexRange
 func readRange(source ua.DataValue, indexRange string) ua.DataValue {
 	if indexRange == "" {
-- 
2.43.0


From d737b0957e4af8f19960500a305f583dbb8e5040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:35 +0000
Subject: [PATCH 049/101] fix: a node the user may not browse cannot be
 monitored

---
 server/server_service_set.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 1d216f3..b1b0d0a 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -4020,6 +4020,10 @@ func (srv *Server) handleCreateMonitoredItems(ch *serverSecureChannel, requestid
 			results[i] = ua.MonitoredItemCreateResult{StatusCode: ua.BadNodeIDUnknown}
 			continue
 		}
+		if !IsUserPermitted(n.UserRolePermissions(session.UserIdentity()), ua.PermissionTypeBrowse) {
+			results[i] = ua.MonitoredItemCreateResult{StatusCode: ua.BadNodeIDUnknown}
+			continue
+		}
 		attr := item.ItemToMonitor.AttributeID
 		if !n.IsAttributeIDValid(attr) {
 			results[i] = ua.MonitoredItemCreateResult{StatusCode: ua.BadAttributeIDInvalid}
@@ -4103,11 +4107,6 @@ func (srv *Server) handleCreateMonitoredItems(ch *serverSecureChannel, requestid
 			}
 			continue
 		default:
-			rp := n.UserRolePermissions(session.UserIdentity())
-			if !IsUserPermitted(rp, ua.PermissionTypeBrowse) {
-				results[i] = ua.MonitoredItemCreateResult{StatusCode: ua.BadAttributeIDInvalid}
-				continue
-			}
 			if item.RequestedParameters.Filter != nil {
 				results[i] = ua.MonitoredItemCreateResult{StatusCode: ua.BadFilterNotAllowed}
 				continue
-- 
2.43.0


From 1d4a7731442a1289fddf43aec9746a058d81a7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:18 +0000
Subject: [PATCH 050/101] fix: reading event history obeys the limit announced
 for it

---
 server/server_service_set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index b1b0d0a..f57aa6f 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -2505,7 +2505,11 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 		return nil
 	}
 	// check too many operations
-	if l > int(srv.serverCapabilities.OperationLimits.MaxNodesPerHistoryReadData) {
+	max := srv.serverCapabilities.OperationLimits.MaxNodesPerHistoryReadData
+	if _, ok := req.HistoryReadDetails.(ua.ReadEventDetails); ok {
+		max = srv.serverCapabilities.OperationLimits.MaxNodesPerHistoryReadEvents
+	}
+	if l > int(max) {
 		// session.readErrorCount++
 		// session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
-- 
2.43.0


From 15facd6de09bb72e59dd17ad5f2f57b31a01d9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:21 +0000
Subject: [PATCH 051/101] fix: SetTriggering obeys the limit of monitored items
 per call

---
 server/server_service_set.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index f57aa6f..2f36667 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -4652,6 +4652,27 @@ func (srv *Server) handleSetTriggering(ch *serverSecureChannel, requestid uint32
 		return nil
 	}
 
+	// check too many operations
+	if len(req.LinksToRemove)+len(req.LinksToAdd) > int(srv.serverCapabilities.OperationLimits.MaxMonitoredItemsPerCall) {
+		session.setTriggeringErrorCount++
+		session.errorCount++
+		srv.serverDiagnosticsSummary.RejectedRequestsCount++
+		err := ch.Write(
+			&ua.ServiceFault{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: req.RequestHandle,
+					ServiceResult: ua.BadTooManyOperations,
+				},
+			},
+			requestid,
+		)
+		if err != nil {
+			return err
+		}
+		return nil
+	}
+
 	trigger, ok := sub.FindItem(req.TriggeringItemID)
 	if !ok {
 		session.setTriggeringErrorCount++
-- 
2.43.0


From a2ae27dada2a9cd1b89f0f562735b3294e68675d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:35 +0000
Subject: [PATCH 052/101] fix: a value next to a loss in the queue carries the
 overflow bit

---
 server/datachange_monitored_item.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index db6f5ae..84bf2a1 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -190,6 +190,7 @@ func (mi *DataChangeMonitoredItem) setQueueSize(queueSize uint32) {
 			// set overflow bit of statuscode
 			v := mi.queue.Front()
 			v.StatusCode = ua.StatusCode(uint32(v.StatusCode) | ua.InfoTypeDataValue | ua.Overflow)
+			mi.queue.Set(0, v)
 		}
 	} else {
 		for mi.queue.Len() > int(mi.queueSize) {
@@ -200,6 +201,7 @@ func (mi *DataChangeMonitoredItem) setQueueSize(queueSize uint32) {
 			// set overflow bit of statuscode
 			v := mi.queue.Back()
 			v.StatusCode = ua.StatusCode(uint32(v.StatusCode) | ua.InfoTypeDataValue | ua.Overflow)
+			mi.queue.Set(mi.queue.Len()-1, v)
 		}
 	}
 }
@@ -309,6 +311,7 @@ func (mi *DataChangeMonitoredItem) enqueue(item ua.DataValue) {
 			// set overflow bit of statuscode
 			v := mi.queue.Front()
 			v.StatusCode = ua.StatusCode(uint32(v.StatusCode) | ua.InfoTypeDataValue | ua.Overflow)
+			mi.queue.Set(0, v)
 			mi.sub.monitoringQueueOverflowCount++
 		}
 	} else {
@@ -321,6 +324,7 @@ func (mi *DataChangeMonitoredItem) enqueue(item ua.DataValue) {
 			// set overflow bit of statuscode
 			v := mi.queue.Back()
 			v.StatusCode = ua.StatusCode(uint32(v.StatusCode) | ua.InfoTypeDataValue | ua.Overflow)
+			mi.queue.Set(mi.queue.Len()-1, v)
 			mi.sub.monitoringQueueOverflowCount++
 		}
 	}
-- 
2.43.0


From 251d74942d36cf16435cb7ffbd96b4b17898e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:38 +0000
Subject: [PATCH 053/101] fix: an absolute deadband is measured for arrays,
 unsigned and large numbers

---
 server/datachange_monitored_item.go | 36 +++++++++++------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 84bf2a1..e92f90b 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -3,7 +3,6 @@
 package server
 
 import (
-	"bytes"
 	"math"
 	"reflect"
 	"sync/atomic"
@@ -452,7 +451,7 @@ func (mi *DataChangeMonitoredItem) isDataChange(current, previous ua.DataValue)
 
 func equalDeadbandAbsolute(current, previous ua.Variant, deadband float64) bool {
 	if current == nil || previous == nil {
-		return current == previous
+		return current == nil && previous == nil
 	}
 	vc := reflect.ValueOf(current)
 	vp := reflect.ValueOf(previous)
@@ -460,41 +459,32 @@ func equalDeadbandAbsolute(current, previous ua.Variant, deadband float64) bool
 		return false
 	}
 	switch vc.Kind() {
-	case reflect.Array:
-		for i := 0; i < vc.Len(); i++ {
-			if !equalDeadbandAbsolute(vc.Index(i), vp.Index(i), deadband) {
-				return false
-			}
-		}
-		return true
 	case reflect.Slice:
-		if vc.IsNil() != vp.IsNil() {
-			return false
-		}
 		if vc.Len() != vp.Len() {
 			return false
 		}
-		if vc.UnsafePointer() == vp.UnsafePointer() {
-			return true
-		}
-		// special case for []byte, which is common.
-		if vc.Type().Elem().Kind() == reflect.Uint8 {
-			return bytes.Equal(vc.Bytes(), vp.Bytes())
-		}
 		for i := 0; i < vc.Len(); i++ {
-			if !equalDeadbandAbsolute(vc.Index(i), vp.Index(i), deadband) {
+			if !equalDeadbandAbsolute(vc.Index(i).Interface(), vp.Index(i).Interface(), deadband) {
 				return false
 			}
 		}
 		return true
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-		return math.Abs(float64(vc.Int()-vp.Int())) <= deadband
+		c, p := vc.Int(), vp.Int()
+		if c < p {
+			c, p = p, c
+		}
+		return float64(uint64(c)-uint64(p)) <= deadband
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		return math.Abs(float64(vc.Uint()-vp.Uint())) <= deadband
+		c, p := vc.Uint(), vp.Uint()
+		if c < p {
+			c, p = p, c
+		}
+		return float64(c-p) <= deadband
 	case reflect.Float32, reflect.Float64:
 		return math.Abs(vc.Float()-vp.Float()) <= deadband
 	}
-	return false
+	return reflect.DeepEqual(current, previous)
 }
 
 // withTimestamps returns a new instance of DataValue with only the selected timestamps.
-- 
2.43.0


From bad5962f3a223f61ea09e902f23466f732367fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:41 +0000
Subject: [PATCH 054/101] fix: a source timestamp is the same in every time
 zone

---
 server/datachange_monitored_item.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index e92f90b..ed47c61 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -434,7 +434,7 @@ func (mi *DataChangeMonitoredItem) isDataChange(current, previous ua.DataValue)
 		if current.StatusCode&0xFFFFF000 != previous.StatusCode&0xFFFFF000 {
 			return true
 		}
-		if current.SourceTimestamp != previous.SourceTimestamp {
+		if !current.SourceTimestamp.Equal(previous.SourceTimestamp) {
 			return true
 		}
 		switch ua.DeadbandType(dcf.DeadbandType) {
-- 
2.43.0


From 1bd225989c53e20f94ebc57d4630798244e79488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:13 +0000
Subject: [PATCH 055/101] fix: a disabled item drops the samples it has not
 queued yet

---
 server/datachange_monitored_item.go | 4 +++-
 server/event_monitored_item.go      | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index ed47c61..16df19f 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -161,6 +161,8 @@ func (mi *DataChangeMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 	mi.monitoringMode = mode
 	if mode == ua.MonitoringModeDisabled {
 		mi.queue.Clear()
+		mi.prequeue.Clear()
+		mi.triggered = false
 		mi.previousQueuedValue = ua.NewDataValue(nil, ua.BadWaitingForInitialData, time.Time{}, 0, time.Time{}, 0)
 		mi.sub.disabledMonitoredItemCount++
 	} else {
@@ -266,7 +268,7 @@ func (mi *DataChangeMonitoredItem) stopMonitoring() {
 // Poll reads the value of the itemToMonitor.
 func (mi *DataChangeMonitoredItem) Poll() {
 	mi.Lock()
-	if n := mi.node; n != nil {
+	if n := mi.node; n != nil && mi.monitoringMode != ua.MonitoringModeDisabled {
 		v := mi.srv.readValue(mi.sub.session, mi.itemToMonitor)
 		mi.prequeue.PushBack(v)
 	}
diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index bd86136..6082543 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -147,6 +147,7 @@ func (mi *EventMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 	mi.monitoringMode = mode
 	if mode == ua.MonitoringModeDisabled {
 		mi.queue.Clear()
+		mi.triggered = false
 		mi.sub.disabledMonitoredItemCount++
 	} else {
 		mi.sub.disabledMonitoredItemCount--
-- 
2.43.0


From 1812e5408be28b57819aa5967bb7a8d70204813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:16 +0000
Subject: [PATCH 056/101] fix: an item that triggers itself does not lock up
 its subscription

---
 server/datachange_monitored_item.go | 18 +++++++-----------
 server/event_monitored_item.go      | 18 +++++++-----------
 2 files changed, 14 insertions(+), 22 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 16df19f..e8e3ab6 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -36,7 +36,7 @@ type DataChangeMonitoredItem struct {
 	ts                  time.Time
 	ti                  time.Duration
 	triggeredItems      []MonitoredItem
-	triggered           bool
+	triggered           atomic.Bool
 }
 
 // NewDataChangeMonitoredItem constructs a new DataChangeMonitoredItem.
@@ -111,16 +111,12 @@ func (mi *DataChangeMonitoredItem) ClientHandle() uint32 {
 
 // Triggered returns true when the MonitoredItem is triggered.
 func (mi *DataChangeMonitoredItem) Triggered() bool {
-	mi.RLock()
-	defer mi.RUnlock()
-	return mi.triggered
+	return mi.triggered.Load()
 }
 
 // SetTriggered sets when the MonitoredItem is triggered.
 func (mi *DataChangeMonitoredItem) SetTriggered(val bool) {
-	mi.Lock()
-	defer mi.Unlock()
-	mi.triggered = val
+	mi.triggered.Store(val)
 }
 
 // Modify modifies the MonitoredItem.
@@ -162,7 +158,7 @@ func (mi *DataChangeMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 	if mode == ua.MonitoringModeDisabled {
 		mi.queue.Clear()
 		mi.prequeue.Clear()
-		mi.triggered = false
+		mi.triggered.Store(false)
 		mi.previousQueuedValue = ua.NewDataValue(nil, ua.BadWaitingForInitialData, time.Time{}, 0, time.Time{}, 0)
 		mi.sub.disabledMonitoredItemCount++
 	} else {
@@ -350,8 +346,8 @@ func (mi *DataChangeMonitoredItem) notifications(max int) (notifications []any,
 		}
 	}
 	more = mi.queue.Len() > 0
-	if mi.triggered && !more {
-		mi.triggered = false
+	if mi.triggered.Load() && !more {
+		mi.triggered.Store(false)
 		// log.Printf("Reset triggered %d", mi.id)
 	}
 	return notifications, more
@@ -412,7 +408,7 @@ func (mi *DataChangeMonitoredItem) notificationsAvailable(tn time.Time, late boo
 			mi.previousQueuedValue = v
 		}
 	}
-	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.triggered)
+	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.triggered.Load())
 }
 
 func (mi *DataChangeMonitoredItem) isDataChange(current, previous ua.DataValue) bool {
diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index 6082543..98f4b0c 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -28,7 +28,7 @@ type EventMonitoredItem struct {
 	sub              *Subscription
 	srv              *Server
 	triggeredItems   []MonitoredItem
-	triggered        bool
+	triggered        atomic.Bool
 }
 
 // NewEventMonitoredItem constructs a new EventMonitoredItem.
@@ -99,16 +99,12 @@ func (mi *EventMonitoredItem) ClientHandle() uint32 {
 
 // Triggered returns true when the MonitoredItem is triggered.
 func (mi *EventMonitoredItem) Triggered() bool {
-	mi.RLock()
-	defer mi.RUnlock()
-	return mi.triggered
+	return mi.triggered.Load()
 }
 
 // SetTriggered sets when the MonitoredItem is triggered.
 func (mi *EventMonitoredItem) SetTriggered(val bool) {
-	mi.Lock()
-	defer mi.Unlock()
-	mi.triggered = val
+	mi.triggered.Store(val)
 }
 
 // Modify modifies the MonitoredItem.
@@ -147,7 +143,7 @@ func (mi *EventMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 	mi.monitoringMode = mode
 	if mode == ua.MonitoringModeDisabled {
 		mi.queue.Clear()
-		mi.triggered = false
+		mi.triggered.Store(false)
 		mi.sub.disabledMonitoredItemCount++
 	} else {
 		mi.sub.disabledMonitoredItemCount--
@@ -307,8 +303,8 @@ func (mi *EventMonitoredItem) notifications(max int) (notifications []any, more
 		}
 	}
 	more = mi.queue.Len() > 0
-	if mi.triggered && !more {
-		mi.triggered = false
+	if mi.triggered.Load() && !more {
+		mi.triggered.Store(false)
 		// log.Printf("Reset triggered %d", mi.id)
 	}
 	return notifications, more
@@ -323,7 +319,7 @@ func (mi *EventMonitoredItem) notificationsAvailable(tn time.Time, late bool, re
 		return false
 	}
 
-	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.triggered)
+	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.triggered.Load())
 }
 
 // AddTriggeredItem adds a item to be triggered by this item.
-- 
2.43.0


From f125e1b02d5d2a7ab9674360f35c0957d6af706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:20 +0000
Subject: [PATCH 057/101] fix: a triggering link that is added twice is one
 link

---
 server/datachange_monitored_item.go | 7 ++++++-
 server/event_monitored_item.go      | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index e8e3ab6..92a5d8d 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -274,8 +274,13 @@ func (mi *DataChangeMonitoredItem) Poll() {
 // AddTriggeredItem adds a item to be triggered by this item.
 func (mi *DataChangeMonitoredItem) AddTriggeredItem(item MonitoredItem) bool {
 	mi.Lock()
+	defer mi.Unlock()
+	for _, e := range mi.triggeredItems {
+		if e.ID() == item.ID() {
+			return true
+		}
+	}
 	mi.triggeredItems = append(mi.triggeredItems, item)
-	mi.Unlock()
 	return true
 }
 
diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index 98f4b0c..3ea240c 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -325,8 +325,13 @@ func (mi *EventMonitoredItem) notificationsAvailable(tn time.Time, late bool, re
 // AddTriggeredItem adds a item to be triggered by this item.
 func (mi *EventMonitoredItem) AddTriggeredItem(item MonitoredItem) bool {
 	mi.Lock()
+	defer mi.Unlock()
+	for _, e := range mi.triggeredItems {
+		if e.ID() == item.ID() {
+			return true
+		}
+	}
 	mi.triggeredItems = append(mi.triggeredItems, item)
-	mi.Unlock()
 	return true
 }
 
-- 
2.43.0


From 4c1e3c26a260a6216e31170b0834a2c85b7ad6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:23 +0000
Subject: [PATCH 058/101] fix: a trigger reports what is queued when it happens
 and nothing later

---
 server/subscription.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/server/subscription.go b/server/subscription.go
index cd290e0..482c548 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -313,6 +313,9 @@ func (s *Subscription) publish(tn time.Time) error {
 		}
 	}
 	s.resend = false
+	if s.triggeredNotificationsAvailable() {
+		notificationsAvailable = true
+	}
 	switch {
 	case notificationsAvailable && s.publishingEnabled:
 		sess := s.session
@@ -499,6 +502,20 @@ func (s *Subscription) publish(tn time.Time) error {
 	}
 }
 
+// triggeredNotificationsAvailable returns true if a triggered item has notifications queued.
+// A trigger that finds nothing queued has had its effect.
+func (s *Subscription) triggeredNotificationsAvailable() bool {
+	available := false
+	for _, item := range s.items {
+		if item.Triggered() {
+			if _, more := item.notifications(0); more {
+				available = true
+			}
+		}
+	}
+	return available
+}
+
 func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, requestid uint32, req *ua.PublishRequest, results []ua.StatusCode) (bool, error) {
 	s.Lock()
 	defer s.Unlock()
@@ -512,6 +529,9 @@ func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, request
 			notificationsAvailable = true
 		}
 	}
+	if s.triggeredNotificationsAvailable() {
+		notificationsAvailable = true
+	}
 	switch {
 	case notificationsAvailable && s.publishingEnabled:
 		// log.Printf("handleLatePublishRequest %d, %d\n", s.id, s.priority)
-- 
2.43.0


From 2a372f643c7f90c5c415afe4871364fe811ae087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:26 +0000
Subject: [PATCH 059/101] fix: a late keep-alive answers the acknowledgements
 of its request

---
 server/subscription.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/server/subscription.go b/server/subscription.go
index 482c548..cd05d87 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -633,7 +633,6 @@ func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, request
 					avail = append(avail, nm.SequenceNumber)
 				}
 			}
-			results := make([]ua.StatusCode, len(req.SubscriptionAcknowledgements))
 			err := ch.Write(
 				&ua.PublishResponse{
 					ResponseHeader: ua.ResponseHeader{
-- 
2.43.0


From 37ccd84a9fd0ce328b2da051e0d1ab72ebc06135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:30 +0000
Subject: [PATCH 060/101] fix: only enabling an item lowers the count of
 disabled items

---
 server/datachange_monitored_item.go | 3 ++-
 server/event_monitored_item.go      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 92a5d8d..f4e0a55 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -154,6 +154,7 @@ func (mi *DataChangeMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 		return
 	}
 	mi.stopMonitoring()
+	previous := mi.monitoringMode
 	mi.monitoringMode = mode
 	if mode == ua.MonitoringModeDisabled {
 		mi.queue.Clear()
@@ -161,7 +162,7 @@ func (mi *DataChangeMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 		mi.triggered.Store(false)
 		mi.previousQueuedValue = ua.NewDataValue(nil, ua.BadWaitingForInitialData, time.Time{}, 0, time.Time{}, 0)
 		mi.sub.disabledMonitoredItemCount++
-	} else {
+	} else if previous == ua.MonitoringModeDisabled {
 		mi.sub.disabledMonitoredItemCount--
 	}
 	mi.startMonitoring()
diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index 3ea240c..ed470f3 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -140,12 +140,13 @@ func (mi *EventMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 		return
 	}
 	mi.stopMonitoring()
+	previous := mi.monitoringMode
 	mi.monitoringMode = mode
 	if mode == ua.MonitoringModeDisabled {
 		mi.queue.Clear()
 		mi.triggered.Store(false)
 		mi.sub.disabledMonitoredItemCount++
-	} else {
+	} else if previous == ua.MonitoringModeDisabled {
 		mi.sub.disabledMonitoredItemCount--
 	}
 	mi.startMonitoring()
-- 
2.43.0


From 4ecc953f0b87296b221c5fd4f11476a8682125b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:03 +0000
Subject: [PATCH 061/101] fix: a session cannot use the subscriptions of
 another session

---
 server/server_service_set.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 2f36667..802c5ab 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -3931,7 +3931,7 @@ func (srv *Server) handleCreateMonitoredItems(ch *serverSecureChannel, requestid
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.createMonitoredItemsErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -4444,7 +4444,7 @@ func (srv *Server) handleSetMonitoringMode(ch *serverSecureChannel, requestid ui
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.setMonitoringModeErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -4609,7 +4609,7 @@ func (srv *Server) handleSetTriggering(ch *serverSecureChannel, requestid uint32
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.setTriggeringErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -4813,7 +4813,7 @@ func (srv *Server) handleDeleteMonitoredItems(ch *serverSecureChannel, requestid
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.deleteMonitoredItemsErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -5526,7 +5526,7 @@ func (srv *Server) handlePublish(ch *serverSecureChannel, requestid uint32, req
 	// process sub ack's
 	results := make([]ua.StatusCode, len(req.SubscriptionAcknowledgements))
 	for i, sa := range req.SubscriptionAcknowledgements {
-		if sub, ok := sm.Get(sa.SubscriptionID); ok {
+		if sub, ok := sm.Get(sa.SubscriptionID); ok && sub.sessionId == session.sessionId {
 			if sub.acknowledge(sa.SequenceNumber) {
 				results[i] = ua.Good
 			} else {
@@ -5688,7 +5688,7 @@ func (srv *Server) handleRepublish(ch *serverSecureChannel, requestid uint32, re
 	}
 
 	s, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || s.sessionId != session.sessionId {
 		session.republishErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
-- 
2.43.0


From 58835889c49b996ef76ca2e1794ddf524bf0e87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:07 +0000
Subject: [PATCH 062/101] fix: a message that is republished stays available
 until it is acknowledged

---
 server/server_service_set.go | 43 +++++++++++++-----------------------
 server/subscription.go       | 19 ++++++++++++++++
 2 files changed, 34 insertions(+), 28 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 802c5ab..bf12c94 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -5708,35 +5708,22 @@ func (srv *Server) handleRepublish(ch *serverSecureChannel, requestid uint32, re
 		return nil
 	}
 
-	s.Lock()
-	s.lifetimeCount = 0
-	s.Unlock()
-
-	s.republishRequestCount++
-	s.republishMessageRequestCount++
-	q := s.retransmissionQueue
-	for e := q.Front(); e != nil; e = e.Next() {
-		if nm, ok := e.Value.(ua.NotificationMessage); ok {
-			if req.RetransmitSequenceNumber == nm.SequenceNumber {
-				err := ch.Write(
-					&ua.RepublishResponse{
-						ResponseHeader: ua.ResponseHeader{
-							Timestamp:     time.Now(),
-							RequestHandle: req.RequestHeader.RequestHandle,
-						},
-						NotificationMessage: nm,
-					},
-					requestid,
-				)
-				if err != nil {
-					return err
-				}
-				s.republishMessageCount++
-				q.Remove(e)
-				e.Value = nil
-				return nil
-			}
+	nm, ok := s.republish(req.RetransmitSequenceNumber)
+	if ok {
+		err := ch.Write(
+			&ua.RepublishResponse{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: req.RequestHeader.RequestHandle,
+				},
+				NotificationMessage: nm,
+			},
+			requestid,
+		)
+		if err != nil {
+			return err
 		}
+		return nil
 	}
 	session.republishErrorCount++
 	session.errorCount++
diff --git a/server/subscription.go b/server/subscription.go
index cd05d87..ca78417 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -279,6 +279,25 @@ func (s *Subscription) acknowledge(seqNum uint32) bool {
 	return false
 }
 
+// republish returns the message with the sequence number. The message stays available until it is acknowledged.
+func (s *Subscription) republish(seqNum uint32) (ua.NotificationMessage, bool) {
+	s.Lock()
+	defer s.Unlock()
+	s.lifetimeCount = 0
+	s.republishRequestCount++
+	s.republishMessageRequestCount++
+	if s.retransmissionQueue == nil {
+		return ua.NotificationMessage{}, false
+	}
+	for e := s.retransmissionQueue.Front(); e != nil; e = e.Next() {
+		if nm, ok := e.Value.(ua.NotificationMessage); ok && nm.SequenceNumber == seqNum {
+			s.republishMessageCount++
+			return nm, true
+		}
+	}
+	return ua.NotificationMessage{}, false
+}
+
 func (s *Subscription) startPublishing() {
 	// log.Printf("startPublishing %d \n", s.id)
 	s.cancelPublishing = make(chan struct{})
-- 
2.43.0


From a532e6f558d0fce6c8c7096d43e32dc22d0629ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:10 +0000
Subject: [PATCH 063/101] fix: a publish request of a session without
 subscriptions is answered

---
 server/server_service_set.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index bf12c94..199d532 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -5574,7 +5574,8 @@ func (srv *Server) handlePublish(ch *serverSecureChannel, requestid uint32, req
 	default:
 	}
 
-	if sm.Len() == 0 {
+	subs := sm.GetBySession(session)
+	if len(subs) == 0 {
 		session.publishErrorCount++
 		session.errorCount++
 		err := ch.Write(
@@ -5593,7 +5594,6 @@ func (srv *Server) handlePublish(ch *serverSecureChannel, requestid uint32, req
 		return nil
 	}
 
-	subs := sm.GetBySession(session)
 	sort.Slice(subs, func(i, j int) bool {
 		return subs[i].priority > subs[j].priority
 	})
-- 
2.43.0


From 75da5a37a30b5cd80d5582f62792a7575e863b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:14 +0000
Subject: [PATCH 064/101] fix: a message that could not be sent keeps its
 sequence number for itself

---
 server/subscription.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/subscription.go b/server/subscription.go
index ca78417..99d59a4 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -395,6 +395,7 @@ func (s *Subscription) publish(tn time.Time) error {
 				PublishTime:      tn,
 				NotificationData: nd,
 			}
+			s.nextSequenceNumber++
 			q := s.retransmissionQueue
 			for e := q.Front(); e != nil && q.Len() >= maxRetransmissionQueueLength; e = e.Next() {
 				q.Remove(e)
@@ -427,7 +428,6 @@ func (s *Subscription) publish(tn time.Time) error {
 			}
 			s.unacknowledgedMessageCount = uint32(len(avail))
 			s.publishRequestCount++
-			s.nextSequenceNumber++
 			s.keepAliveCount = 0
 			s.lifetimeCount = 0
 			s.isLate = false
@@ -602,6 +602,7 @@ func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, request
 			PublishTime:      tn,
 			NotificationData: nd,
 		}
+		s.nextSequenceNumber++
 		q := s.retransmissionQueue
 		for e := q.Front(); e != nil && q.Len() >= maxRetransmissionQueueLength; e = e.Next() {
 			q.Remove(e)
@@ -634,7 +635,6 @@ func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, request
 		s.publishRequestCount++
 		s.latePublishRequestCount++
 		s.unacknowledgedMessageCount = uint32(len(avail))
-		s.nextSequenceNumber++
 		s.keepAliveCount = 0
 		s.lifetimeCount = 0
 		s.moreNotifications = more
-- 
2.43.0


From 30bc7035156fee52890ee2576471fd57e9bb150d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:46 +0000
Subject: [PATCH 065/101] fix: a subscription can be ended from several sides
 at once

---
 server/subscription.go         |  8 +++++++-
 server/subscription_manager.go | 32 +++++++++++++++-----------------
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/server/subscription.go b/server/subscription.go
index 99d59a4..b3e027f 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -97,6 +97,9 @@ func (s *Subscription) Delete() {
 }
 
 func (s *Subscription) deleteImpl() {
+	if s.manager == nil {
+		return
+	}
 	s.stopPublishing()
 	for id, item := range s.items {
 		delete(s.items, id)
@@ -318,7 +321,10 @@ func (s *Subscription) startPublishing() {
 
 func (s *Subscription) stopPublishing() {
 	// log.Printf("stopPublishing %d \n", s.id)
-	close(s.cancelPublishing)
+	if s.cancelPublishing != nil {
+		close(s.cancelPublishing)
+		s.cancelPublishing = nil
+	}
 }
 
 func (s *Subscription) publish(tn time.Time) error {
diff --git a/server/subscription_manager.go b/server/subscription_manager.go
index a1d27fe..a95bac6 100644
--- a/server/subscription_manager.go
+++ b/server/subscription_manager.go
@@ -95,33 +95,31 @@ func (m *SubscriptionManager) GetBySession(session *Session) []*Subscription {
 }
 
 func (m *SubscriptionManager) checkForExpiredSubscriptions() {
-	m.Lock()
-	defer m.Unlock()
-	for k, s := range m.subscriptionsByID {
+	for _, s := range m.all() {
 		if s.IsExpired() {
-			delete(m.subscriptionsByID, k)
-			if m.server.serverDiagnostics {
-				// remove diagnostic node
-				nm := m.server.NamespaceManager()
-				if n, ok := nm.FindNode(s.diagnosticsNodeId); ok {
-					nm.DeleteNode(n, true)
-				}
-				m.server.Lock()
-				m.server.serverDiagnosticsSummary.CurrentSubscriptionCount = uint32(len(m.subscriptionsByID))
-				m.server.Unlock()
-			}
-			// log.Printf("Deleted expired subscription '%d'.\n", k)
+			m.Delete(s)
 			s.Delete()
 		}
 	}
 }
 
 func (m *SubscriptionManager) stopPublishingAllSubscriptions() {
+	for _, v := range m.all() {
+		v.Lock()
+		v.stopPublishing()
+		v.Unlock()
+	}
+}
+
+// all returns every subscription. The lock of a subscription is never taken inside the lock of the manager.
+func (m *SubscriptionManager) all() []*Subscription {
 	m.RLock()
 	defer m.RUnlock()
-	for _, v := range m.subscriptionsByID {
-		v.stopPublishing()
+	subs := make([]*Subscription, 0, len(m.subscriptionsByID))
+	for _, sub := range m.subscriptionsByID {
+		subs = append(subs, sub)
 	}
+	return subs
 }
 
 func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
-- 
2.43.0


From 6735d941ef637d603222aa2922bfc873e6159a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:49 +0000
Subject: [PATCH 066/101] fix: the end of many subscriptions of one session
 does not lock up

---
 server/session.go      | 15 +++++++++++++++
 server/subscription.go |  4 ++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/server/session.go b/server/session.go
index b4db53d..facdba5 100644
--- a/server/session.go
+++ b/server/session.go
@@ -314,6 +314,21 @@ func (s *Session) addPublishRequest(ch *serverSecureChannel, requestid uint32, r
 	}
 }
 
+// addStateChange queues a state change for the next publish request. A client that does not publish loses the oldest.
+func (s *Session) addStateChange(op *stateChangeOp) {
+	for {
+		select {
+		case s.stateChanges <- op:
+			return
+		default:
+		}
+		select {
+		case <-s.stateChanges:
+		default:
+		}
+	}
+}
+
 func (s *Session) removePublishRequest() (*serverSecureChannel, uint32, *ua.PublishRequest, []ua.StatusCode, bool, error) {
 	for {
 		select {
diff --git a/server/subscription.go b/server/subscription.go
index b3e027f..0de5fca 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -450,7 +450,7 @@ func (s *Subscription) publish(tn time.Time) error {
 				PublishTime:      time.Now(),
 				NotificationData: []ua.ExtensionObject{ua.StatusChangeNotification{Status: ua.BadTimeout}},
 			}
-			s.session.stateChanges <- &stateChangeOp{subscriptionId: s.id, message: nm}
+			s.session.addStateChange(&stateChangeOp{subscriptionId: s.id, message: nm})
 			s.nextSequenceNumber++
 			s.manager.Delete(s)
 			s.deleteImpl()
@@ -516,7 +516,7 @@ func (s *Subscription) publish(tn time.Time) error {
 					PublishTime:      time.Now(),
 					NotificationData: []ua.ExtensionObject{ua.StatusChangeNotification{Status: ua.BadTimeout}},
 				}
-				s.session.stateChanges <- &stateChangeOp{subscriptionId: s.id, message: nm}
+				s.session.addStateChange(&stateChangeOp{subscriptionId: s.id, message: nm})
 				s.nextSequenceNumber++
 				s.manager.Delete(s)
 				s.deleteImpl()
-- 
2.43.0


From d12abcf1ea61b06a4337cf6d28e85e30934a18f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:53 +0000
Subject: [PATCH 067/101] fix: any sampling interval gives a valid timer

---
 server/datachange_monitored_item.go | 3 +++
 server/scheduler.go                 | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index f4e0a55..c407e80 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -205,6 +205,9 @@ func (mi *DataChangeMonitoredItem) setQueueSize(queueSize uint32) {
 }
 
 func (mi *DataChangeMonitoredItem) setSamplingInterval(samplingInterval float64) {
+	if math.IsNaN(samplingInterval) {
+		samplingInterval = -1
+	}
 	switch mi.itemToMonitor.AttributeID {
 	case ua.AttributeIDValue:
 		if samplingInterval < 0 {
diff --git a/server/scheduler.go b/server/scheduler.go
index fc497bd..b86bc85 100644
--- a/server/scheduler.go
+++ b/server/scheduler.go
@@ -27,6 +27,9 @@ func (s *Scheduler) GetPollGroup(interval time.Duration) *PollGroup {
 	if interval < s.minSamplingInterval {
 		interval = s.minSamplingInterval
 	}
+	if interval < time.Millisecond {
+		interval = time.Millisecond
+	}
 	if t, ok := s.tickers[interval]; ok {
 		return t
 	}
-- 
2.43.0


From 751fca2b862fea65dfbf7daec31a82962801ca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:41 +0000
Subject: [PATCH 068/101] fix: publish requests of a lost channel do not hold
 up or close its successor

---
 server/session.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/server/session.go b/server/session.go
index facdba5..b23e3d5 100644
--- a/server/session.go
+++ b/server/session.go
@@ -297,7 +297,8 @@ func (s *Session) addPublishRequest(ch *serverSecureChannel, requestid uint32, r
 			return nil
 		default:
 			op := <-s.publishRequests
-			err := op.ch.Write(
+			// the request may have come from another, closed channel, so an error does not concern this one
+			op.ch.Write(
 				&ua.ServiceFault{
 					ResponseHeader: ua.ResponseHeader{
 						Timestamp:     time.Now(),
@@ -307,9 +308,6 @@ func (s *Session) addPublishRequest(ch *serverSecureChannel, requestid uint32, r
 				},
 				op.requestId,
 			)
-			if err != nil {
-				return err
-			}
 		}
 	}
 }
@@ -337,6 +335,20 @@ func (s *Session) removePublishRequest() (*serverSecureChannel, uint32, *ua.Publ
 			req := op.req
 			rid := op.requestId
 			results := op.results
+			// check if the session was activated on another channel since
+			if ch.ChannelID() != s.SecureChannelId() {
+				ch.Write(
+					&ua.ServiceFault{
+						ResponseHeader: ua.ResponseHeader{
+							Timestamp:     time.Now(),
+							RequestHandle: req.RequestHandle,
+							ServiceResult: ua.BadSecureChannelClosed,
+						},
+					},
+					rid,
+				)
+				continue
+			}
 			// check if expired
 			if req.RequestHeader.TimeoutHint > 0 && time.Now().After(req.RequestHeader.Timestamp.Add(time.Duration(req.RequestHeader.TimeoutHint) * time.Millisecond)) {
 				err := ch.Write(
-- 
2.43.0


From e4b5a43dff123d213413df49070bf55a733cf0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:50 +0000
Subject: [PATCH 069/101] fix: where clauses of event filters are evaluated
 without recursion, panics or address comparison

---
 server/event_monitored_item.go | 62 +++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index ed470f3..3153c61 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -3,6 +3,7 @@
 package server
 
 import (
+	"reflect"
 	"sync/atomic"
 	"time"
 
@@ -210,7 +211,7 @@ func (mi *EventMonitoredItem) enqueue(item []ua.Variant) {
 
 func (mi *EventMonitoredItem) OnEvent(evt ua.Event) {
 	mi.Lock()
-	if res, ok := mi.whereClause(evt, 0).(bool); ok && res {
+	if mi.whereClause(evt) {
 		mi.enqueue(mi.selectFields(evt))
 	}
 	mi.Unlock()
@@ -220,38 +221,53 @@ var (
 	attributeOperandEventType = ua.SimpleAttributeOperand{TypeDefinitionID: ua.ObjectTypeIDBaseEventType, BrowsePath: ua.ParseBrowsePath("EventType"), AttributeID: ua.AttributeIDValue}
 )
 
-func (mi *EventMonitoredItem) whereClause(evt ua.Event, idx int) any {
-	if idx >= len(mi.eventFilter.WhereClause.Elements) {
+// whereClause evaluates the where clause of the filter. An element may refer only to elements that follow it,
+// so the elements are evaluated from last to first, each once.
+func (mi *EventMonitoredItem) whereClause(evt ua.Event) bool {
+	elements := mi.eventFilter.WhereClause.Elements
+	if len(elements) == 0 {
 		return true
 	}
-	element := mi.eventFilter.WhereClause.Elements[idx]
+	results := make([]bool, len(elements))
+	for i := len(elements) - 1; i >= 0; i-- {
+		results[i] = mi.whereClauseElement(evt, elements[i], i, results)
+	}
+	return results[0]
+}
+
+func (mi *EventMonitoredItem) whereClauseElement(evt ua.Event, element ua.ContentFilterElement, idx int, results []bool) bool {
 	switch element.FilterOperator {
 
 	case ua.FilterOperatorEquals:
-		var a, b ua.Variant
-		switch c := element.FilterOperands[0].(type) {
-		case ua.LiteralOperand:
-			a = c.Value
-		case ua.SimpleAttributeOperand:
-			a = evt.GetAttribute(c)
-		case ua.ElementOperand:
-			a = mi.whereClause(evt, int(c.Index))
-		default:
+		if len(element.FilterOperands) < 2 {
 			return false
 		}
-		switch c := element.FilterOperands[1].(type) {
-		case ua.LiteralOperand:
-			b = c.Value
-		case ua.SimpleAttributeOperand:
-			b = evt.GetAttribute(c)
-		case ua.ElementOperand:
-			b = mi.whereClause(evt, int(c.Index))
-		default:
-			return false
+		var values [2]ua.Variant
+		for i := range values {
+			switch c := element.FilterOperands[i].(type) {
+			case ua.LiteralOperand:
+				values[i] = c.Value
+			case ua.SimpleAttributeOperand:
+				values[i] = evt.GetAttribute(c)
+			case ua.ElementOperand:
+				if int64(c.Index) <= int64(idx) || int64(c.Index) >= int64(len(results)) {
+					return false
+				}
+				values[i] = results[c.Index]
+			default:
+				return false
+			}
+		}
+		if a, ok := values[0].(time.Time); ok {
+			b, ok := values[1].(time.Time)
+			return ok && a.Equal(b)
 		}
-		return a == b
+		return reflect.DeepEqual(values[0], values[1])
 
 	case ua.FilterOperatorOfType:
+		if len(element.FilterOperands) < 1 {
+			return false
+		}
 		if a, ok := element.FilterOperands[0].(ua.LiteralOperand); ok {
 			if b, ok := a.Value.(ua.NodeID); ok {
 				if c, ok := evt.GetAttribute(attributeOperandEventType).(ua.NodeID); ok {
-- 
2.43.0


From 4c3c8fbd149d1ae42f303183551740486e4da5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:52 +0000
Subject: [PATCH 070/101] fix: raising an event while its items change does not
 lock up

---
 server/event_monitored_item.go | 5 ++++-
 server/object_node.go          | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index 3153c61..39fbcf9 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -211,10 +211,13 @@ func (mi *EventMonitoredItem) enqueue(item []ua.Variant) {
 
 func (mi *EventMonitoredItem) OnEvent(evt ua.Event) {
 	mi.Lock()
+	defer mi.Unlock()
+	if mi.node == nil || mi.monitoringMode == ua.MonitoringModeDisabled {
+		return
+	}
 	if mi.whereClause(evt) {
 		mi.enqueue(mi.selectFields(evt))
 	}
-	mi.Unlock()
 }
 
 var (
diff --git a/server/object_node.go b/server/object_node.go
index 1c90889..1f55a18 100644
--- a/server/object_node.go
+++ b/server/object_node.go
@@ -115,9 +115,14 @@ func (n *ObjectNode) EventNotifier() byte {
 
 // OnEvent raises an event from this node.
 func (n *ObjectNode) OnEvent(evt ua.Event) {
+	// the listeners lock themselves and then the node, so do not hold the node while calling them
 	n.RLock()
-	defer n.RUnlock()
+	subs := make([]EventListener, 0, len(n.subs))
 	for sub := range n.subs {
+		subs = append(subs, sub)
+	}
+	n.RUnlock()
+	for _, sub := range subs {
 		sub.OnEvent(evt)
 	}
 }
-- 
2.43.0


From 2f8392a0ecd31527768ce19f833bb983402a4206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:54 +0000
Subject: [PATCH 071/101] fix: an event reaches every notifier above its
 object, once

---
 server/namespace_manager.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index f5aa9d3..5cd2f20 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -613,25 +613,29 @@ func (m *NamespaceManager) GetChildren(node Node, uris []string, withRefTypes []
 
 // OnEvent raises the event, starting from the target node, follows HasNotifier references until the Server node.
 func (m *NamespaceManager) OnEvent(target *ObjectNode, evt ua.Event) error {
-	for target.nodeID != ua.ObjectIDServer {
+	var err error
+	seen := map[ua.NodeID]struct{}{target.nodeID: {}}
+	for queue := []*ObjectNode{target}; len(queue) > 0; queue = queue[1:] {
+		target := queue[0]
 		target.OnEvent(evt)
-		found := false
+		if target.nodeID == ua.ObjectIDServer {
+			continue
+		}
 		for _, r := range target.References() {
 			if r.IsInverse && r.ReferenceTypeID == ua.ReferenceTypeIDHasNotifier {
-				if target1, ok1 := m.FindObject(ua.ToNodeID(r.TargetID, m.NamespaceUris())); ok1 {
-					found = true
-					target = target1
-					break
+				target1, ok1 := m.FindObject(ua.ToNodeID(r.TargetID, m.NamespaceUris()))
+				if !ok1 {
+					err = ua.BadNodeIDUnknown
+					continue
+				}
+				if _, ok := seen[target1.nodeID]; !ok {
+					seen[target1.nodeID] = struct{}{}
+					queue = append(queue, target1)
 				}
-				return ua.BadNodeIDUnknown
 			}
 		}
-		if !found {
-			return nil
-		}
 	}
-	target.OnEvent(evt)
-	return nil
+	return err
 }
 
 // Any returns true if the given function returns true for any of the given nodes.
-- 
2.43.0


From 0401e0248d19ac599f18d159739bc0f5ac95f159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:26 +0000
Subject: [PATCH 072/101] fix: consult all current revocation lists of an
 issuer, not only the first one found

---
 ua/certificate_helpers.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ua/certificate_helpers.go b/ua/certificate_helpers.go
index 7011102..b33388c 100644
--- a/ua/certificate_helpers.go
+++ b/ua/certificate_helpers.go
@@ -350,7 +350,6 @@ func checkRevocation(chain []*x509.Certificate, index int, crls []*x509.Revocati
 						return BadCertificateIssuerRevoked
 					}
 				}
-				break
 			}
 		}
 	}
-- 
2.43.0


From ec639c718a0f209fb6ff973a7d9a8ecaf3137e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:31 +0000
Subject: [PATCH 073/101] fix: refuse a revoked certificate also when
 incomplete chains are tolerated

---
 ua/certificate_helpers.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/ua/certificate_helpers.go b/ua/certificate_helpers.go
index b33388c..0581858 100644
--- a/ua/certificate_helpers.go
+++ b/ua/certificate_helpers.go
@@ -212,6 +212,17 @@ func ValidateCertificate(certificates []*x509.Certificate, keyUsages []x509.ExtK
 			}
 		}
 	}
+	// the chain of a certificate that is trusted as its own root does not show its issuers
+	if err == nil && suppressCertificateChainIncomplete {
+		known := append(append([]*x509.Certificate{}, certificates...), trusted...)
+		if crts, err := readCertificates(issuersPath); err == nil {
+			known = append(known, crts...)
+		}
+		if isRevoked(certificate, known, crls, 0) {
+			err = BadSecurityChecksFailed
+		}
+	}
+
 	if err != nil {
 		// log.Printf("Error verifying remote certificate. %s\n", err)
 		if len(rejectedCertsPath) > 0 {
@@ -329,6 +340,27 @@ func isSelfSigned(certificate *x509.Certificate) bool {
 	return bytes.Equal(certificate.RawIssuer, certificate.RawSubject)
 }
 
+// isRevoked returns true if one of the known issuers of the certificate has revoked it, or if all of them are revoked themselves.
+func isRevoked(certificate *x509.Certificate, known []*x509.Certificate, crls []*x509.RevocationList, depth int) bool {
+	if depth > 16 || isSelfSigned(certificate) {
+		return false
+	}
+	issuers, revokedIssuers := 0, 0
+	for _, issuer := range known {
+		if !bytes.Equal(certificate.RawIssuer, issuer.RawSubject) || certificate.CheckSignatureFrom(issuer) != nil {
+			continue
+		}
+		if checkRevocation([]*x509.Certificate{certificate, issuer}, 0, crls, true) != nil {
+			return true
+		}
+		issuers++
+		if isRevoked(issuer, known, crls, depth+1) {
+			revokedIssuers++
+		}
+	}
+	return issuers > 0 && issuers == revokedIssuers
+}
+
 // checkRevocation returns error if certificate was revoked, or revokation list was not found.
 func checkRevocation(chain []*x509.Certificate, index int, crls []*x509.RevocationList, suppressCertificateRevocationUnknown bool) error {
 	if index+1 >= len(chain) {
-- 
2.43.0


From 5dba25fe8b3c4752b97832b4b27ae459db3368ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:48 +0000
Subject: [PATCH 074/101] fix: answer a client that sends a certificate chain
 with the thumbprint of its own certificate

---
 server/server_secure_channel.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 127baf0..f99a2e7 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -545,7 +545,12 @@ func (ch *serverSecureChannel) sendOpenSecureChannelResponse(res *ua.OpenSecureC
 		encoder.WriteString(ch.securityPolicyURI)
 		if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
 			encoder.WriteByteArray(ch.localCertificate)
-			thumbprint := sha1.Sum(ch.remoteCertificate)
+			// the thumbprint is of the client's own certificate, also when it sent a chain
+			receiverCertificate := ch.remoteCertificate
+			if crts, err := x509.ParseCertificates(ch.remoteCertificate); err == nil && len(crts) > 0 {
+				receiverCertificate = crts[0].Raw
+			}
+			thumbprint := sha1.Sum(receiverCertificate)
 			encoder.WriteByteArray(thumbprint[:])
 		} else {
 			encoder.WriteByteArray(nil)
-- 
2.43.0


From a5660c46552ecff8a4f172f282b9a53bad380835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:40 +0000
Subject: [PATCH 075/101] fix: client delivers a response that came before the
 channel was closed

---
 client/client_secure_channel.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index f6c6660..06676f6 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -258,20 +258,26 @@ func (ch *clientSecureChannel) Request(ctx context.Context, req ua.ServiceReques
 	if err != nil {
 		return nil, err
 	}
+	var res ua.ServiceResponse
 	select {
-	case res := <-operation.ResponseCh():
-		if sr := res.Header().ServiceResult; sr != ua.Good {
-			return nil, sr
-		}
-		if reflect.TypeOf(res).Elem().Name() != strings.TrimSuffix(reflect.TypeOf(req).Elem().Name(), "Request")+"Response" {
-			return nil, ua.BadUnknownResponse
-		}
-		return res, nil
+	case res = <-operation.ResponseCh():
 	case <-ctx.Done():
 		return nil, ua.BadRequestTimeout
 	case <-ch.closed:
-		return nil, ua.BadSecureChannelClosed
+		// the response may have come before the channel was closed
+		select {
+		case res = <-operation.ResponseCh():
+		default:
+			return nil, ua.BadSecureChannelClosed
+		}
+	}
+	if sr := res.Header().ServiceResult; sr != ua.Good {
+		return nil, sr
+	}
+	if reflect.TypeOf(res).Elem().Name() != strings.TrimSuffix(reflect.TypeOf(req).Elem().Name(), "Request")+"Response" {
+		return nil, ua.BadUnknownResponse
 	}
+	return res, nil
 }
 
 // Open opens the channel.
-- 
2.43.0


From 6f1694b5b533f2109fb2b68dfcbb82e003ede77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:00 +0000
Subject: [PATCH 076/101] fix: answer Cancel with the handle of the request,
 not of the request to be cancelled

---
 server/server_service_set.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 199d532..c9d75b3 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -977,7 +977,7 @@ func (srv *Server) handleCancel(ch *serverSecureChannel, requestid uint32, req *
 			&ua.ServiceFault{
 				ResponseHeader: ua.ResponseHeader{
 					Timestamp:     time.Now(),
-					RequestHandle: req.RequestHandle,
+					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: ua.BadSessionIDInvalid,
 				},
 			},
@@ -997,7 +997,7 @@ func (srv *Server) handleCancel(ch *serverSecureChannel, requestid uint32, req *
 			&ua.ServiceFault{
 				ResponseHeader: ua.ResponseHeader{
 					Timestamp:     time.Now(),
-					RequestHandle: req.RequestHandle,
+					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: ua.BadSessionNotActivated,
 				},
 			},
@@ -1014,7 +1014,7 @@ func (srv *Server) handleCancel(ch *serverSecureChannel, requestid uint32, req *
 			&ua.ServiceFault{
 				ResponseHeader: ua.ResponseHeader{
 					Timestamp:     time.Now(),
-					RequestHandle: req.RequestHandle,
+					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: ua.BadSecureChannelIDInvalid,
 				},
 			},
-- 
2.43.0


From 33a778cf5f4829381f01fc17a53c1af9bc9deda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:35 +0000
Subject: [PATCH 077/101] fix: requests that race with the end of their
 subscription or session do not crash the server

---
 server/datachange_monitored_item.go | 14 ++++++++--
 server/event_monitored_item.go      |  1 -
 server/server_service_set.go        | 18 ++++++++++---
 server/session.go                   |  9 ++++---
 server/subscription.go              | 40 ++++++++++++-----------------
 5 files changed, 48 insertions(+), 34 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index c407e80..428106a 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -124,6 +124,9 @@ func (mi *DataChangeMonitoredItem) Modify(req ua.MonitoredItemModifyRequest) ua.
 	mi.Lock()
 	defer mi.Unlock()
 	mi.stopMonitoring()
+	if mi.node == nil {
+		return ua.MonitoredItemModifyResult{StatusCode: ua.BadMonitoredItemIDInvalid}
+	}
 	mi.clientHandle = req.RequestedParameters.ClientHandle
 	mi.discardOldest = req.RequestedParameters.DiscardOldest
 	mi.setQueueSize(req.RequestedParameters.QueueSize)
@@ -141,7 +144,6 @@ func (mi *DataChangeMonitoredItem) Delete() {
 	mi.queue.Clear()
 	mi.node = nil
 	mi.previousQueuedValue = ua.NewDataValue(nil, ua.BadWaitingForInitialData, time.Time{}, 0, time.Time{}, 0)
-	mi.sub = nil
 	mi.prequeue.Clear()
 	mi.triggeredItems = nil
 }
@@ -154,6 +156,9 @@ func (mi *DataChangeMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 		return
 	}
 	mi.stopMonitoring()
+	if mi.node == nil {
+		return
+	}
 	previous := mi.monitoringMode
 	mi.monitoringMode = mode
 	if mode == ua.MonitoringModeDisabled {
@@ -255,8 +260,13 @@ func (mi *DataChangeMonitoredItem) startMonitoring() {
 	v := mi.srv.readValue(mi.sub.session, mi.itemToMonitor)
 	mi.prequeue.PushBack(v)
 	mi.Unlock()
-	mi.srv.Scheduler().GetPollGroup(time.Duration(mi.samplingInterval) * time.Millisecond).Subscribe(mi)
+	group := mi.srv.Scheduler().GetPollGroup(time.Duration(mi.samplingInterval) * time.Millisecond)
+	group.Subscribe(mi)
 	mi.Lock()
+	if mi.node == nil {
+		// deleted meanwhile
+		group.Unsubscribe(mi)
+	}
 }
 
 func (mi *DataChangeMonitoredItem) stopMonitoring() {
diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index 39fbcf9..1d710a6 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -129,7 +129,6 @@ func (mi *EventMonitoredItem) Delete() {
 	mi.stopMonitoring()
 	mi.queue.Clear()
 	mi.node = nil
-	mi.sub = nil
 	mi.triggeredItems = nil
 }
 
diff --git a/server/server_service_set.go b/server/server_service_set.go
index c9d75b3..84e729c 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -4074,7 +4074,11 @@ func (srv *Server) handleCreateMonitoredItems(ch *serverSecureChannel, requestid
 				}
 			}
 			mi := NewDataChangeMonitoredItem(sub, n, item.ItemToMonitor, item.MonitoringMode, item.RequestedParameters, req.TimestampsToReturn, minSupportedSampleRate)
-			sub.AppendItem(mi)
+			if !sub.AppendItem(mi) {
+				mi.Delete()
+				results[i] = ua.MonitoredItemCreateResult{StatusCode: ua.BadSubscriptionIDInvalid}
+				continue
+			}
 			results[i] = ua.MonitoredItemCreateResult{
 				MonitoredItemID:         mi.ID(),
 				RevisedSamplingInterval: mi.SamplingInterval(),
@@ -4103,7 +4107,11 @@ func (srv *Server) handleCreateMonitoredItems(ch *serverSecureChannel, requestid
 				continue
 			}
 			mi := NewEventMonitoredItem(sub, n, item.ItemToMonitor, item.MonitoringMode, item.RequestedParameters)
-			sub.AppendItem(mi)
+			if !sub.AppendItem(mi) {
+				mi.Delete()
+				results[i] = ua.MonitoredItemCreateResult{StatusCode: ua.BadSubscriptionIDInvalid}
+				continue
+			}
 			results[i] = ua.MonitoredItemCreateResult{
 				MonitoredItemID:         mi.ID(),
 				RevisedSamplingInterval: mi.SamplingInterval(),
@@ -4116,7 +4124,11 @@ func (srv *Server) handleCreateMonitoredItems(ch *serverSecureChannel, requestid
 				continue
 			}
 			mi := NewDataChangeMonitoredItem(sub, n, item.ItemToMonitor, item.MonitoringMode, item.RequestedParameters, req.TimestampsToReturn, minSupportedSampleRate)
-			sub.AppendItem(mi)
+			if !sub.AppendItem(mi) {
+				mi.Delete()
+				results[i] = ua.MonitoredItemCreateResult{StatusCode: ua.BadSubscriptionIDInvalid}
+				continue
+			}
 			results[i] = ua.MonitoredItemCreateResult{
 				MonitoredItemID:         mi.ID(),
 				RevisedSamplingInterval: mi.SamplingInterval(),
diff --git a/server/session.go b/server/session.go
index b23e3d5..7a72d4d 100644
--- a/server/session.go
+++ b/server/session.go
@@ -160,15 +160,13 @@ func (s *Session) delete() {
 	s.securityPolicyURI = ua.SecurityPolicyURINone
 	s.sessionNonce = ua.ByteString("")
 	s.clientCertificate = ua.ByteString("")
-	s.publishRequests = nil
+	// requests of the session may still be at work, so nothing they use becomes nil
 	for k := range s.browseCPs {
 		delete(s.browseCPs, k)
 	}
-	s.browseCPs = nil
 	for k := range s.historyCPs {
 		delete(s.historyCPs, k)
 	}
-	s.historyCPs = nil
 	s.clientUserIdHistory = nil
 }
 
@@ -296,7 +294,9 @@ func (s *Session) addPublishRequest(ch *serverSecureChannel, requestid uint32, r
 		case s.publishRequests <- &publishOp{ch, requestid, req, results}:
 			return nil
 		default:
-			op := <-s.publishRequests
+		}
+		select {
+		case op := <-s.publishRequests:
 			// the request may have come from another, closed channel, so an error does not concern this one
 			op.ch.Write(
 				&ua.ServiceFault{
@@ -308,6 +308,7 @@ func (s *Session) addPublishRequest(ch *serverSecureChannel, requestid uint32, r
 				},
 				op.requestId,
 			)
+		default:
 		}
 	}
 }
diff --git a/server/subscription.go b/server/subscription.go
index 0de5fca..018936f 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -2,7 +2,6 @@ package server
 
 import (
 	"container/list"
-	"log"
 	"math"
 	"sync"
 	"sync/atomic"
@@ -36,6 +35,7 @@ type Subscription struct {
 	priority                     byte
 	nextSequenceNumber           uint32
 	cancelPublishing             chan struct{}
+	deleted                      bool
 	items                        map[uint32]MonitoredItem
 	keepAliveCount               uint32
 	lifetimeCount                uint32
@@ -97,24 +97,17 @@ func (s *Subscription) Delete() {
 }
 
 func (s *Subscription) deleteImpl() {
-	if s.manager == nil {
+	if s.deleted {
 		return
 	}
+	// requests and timers that hold the subscription may still be at work, so nothing becomes nil
+	s.deleted = true
 	s.stopPublishing()
 	for id, item := range s.items {
 		delete(s.items, id)
 		item.Delete()
 	}
-	s.items = nil
-	q := s.retransmissionQueue
-	// log.Printf("Empty retransmissionQueue len: %d\n", q.Len())
-	for e := q.Front(); e != nil; e = e.Next() {
-		q.Remove(e)
-		e.Value = nil
-	}
-	s.retransmissionQueue = nil
-	s.session = nil
-	s.manager = nil
+	s.retransmissionQueue.Init()
 }
 
 func (s *Subscription) Items() []MonitoredItem {
@@ -134,9 +127,13 @@ func (s *Subscription) FindItem(id uint32) (MonitoredItem, bool) {
 	return item, ok
 }
 
+// AppendItem adds the item. It returns false if the subscription has been deleted.
 func (s *Subscription) AppendItem(item MonitoredItem) bool {
 	s.Lock()
 	defer s.Unlock()
+	if s.deleted {
+		return false
+	}
 	ret := false
 	if _, ok := s.items[item.ID()]; !ok {
 		s.items[item.ID()] = item
@@ -175,6 +172,9 @@ func (s *Subscription) SetPublishingMode(publishingEnabled bool) {
 func (s *Subscription) Modify(publishingInterval float64, lifetimeCount uint32, maxKeepAliveCount uint32, maxNotificationsPerPublish uint32, priority byte) {
 	s.Lock()
 	defer s.Unlock()
+	if s.deleted {
+		return
+	}
 	s.stopPublishing()
 	s.setPublishingInterval(publishingInterval)
 	s.setMaxKeepAliveCount(maxKeepAliveCount)
@@ -289,9 +289,6 @@ func (s *Subscription) republish(seqNum uint32) (ua.NotificationMessage, bool) {
 	s.lifetimeCount = 0
 	s.republishRequestCount++
 	s.republishMessageRequestCount++
-	if s.retransmissionQueue == nil {
-		return ua.NotificationMessage{}, false
-	}
 	for e := s.retransmissionQueue.Front(); e != nil; e = e.Next() {
 		if nm, ok := e.Value.(ua.NotificationMessage); ok && nm.SequenceNumber == seqNum {
 			s.republishMessageCount++
@@ -331,6 +328,9 @@ func (s *Subscription) publish(tn time.Time) error {
 	// log.Printf("onPublish id: %d, keepAlive: %d, lifetime: %d\n", s.id, s.keepAliveCount, s.lifetimeCount)
 	s.Lock()
 	defer s.Unlock()
+	if s.deleted {
+		return nil
+	}
 	notificationsAvailable := false
 	for _, item := range s.items {
 		if item.notificationsAvailable(tn, false, s.resend) {
@@ -344,10 +344,6 @@ func (s *Subscription) publish(tn time.Time) error {
 	switch {
 	case notificationsAvailable && s.publishingEnabled:
 		sess := s.session
-		if sess == nil {
-			log.Printf("Subscription '%d' session in nil.\n", s.id)
-			return nil
-		}
 		ch, requestid, req, results, ok, err := sess.removePublishRequest()
 		if err != nil {
 			return err
@@ -461,10 +457,6 @@ func (s *Subscription) publish(tn time.Time) error {
 		s.keepAliveCount++
 		if s.keepAliveCount >= s.maxKeepAliveCount || s.publishRequestCount == 0 {
 			sess := s.session
-			if sess == nil {
-				log.Printf("Subscription '%d' session in nil.\n", s.id)
-				return nil
-			}
 			ch, requestid, req, results, ok, err := sess.removePublishRequest()
 			if err != nil {
 				return err
@@ -544,7 +536,7 @@ func (s *Subscription) triggeredNotificationsAvailable() bool {
 func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, requestid uint32, req *ua.PublishRequest, results []ua.StatusCode) (bool, error) {
 	s.Lock()
 	defer s.Unlock()
-	if !s.isLate {
+	if !s.isLate || s.deleted {
 		return false, nil
 	}
 	tn := time.Now()
-- 
2.43.0


From 40d20f6467217dd0102c373d95503934432bef7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:49 +0000
Subject: [PATCH 078/101] fix: a peer that does not read is disconnected and
 does not hold up other clients

---
 server/server_secure_channel.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index f99a2e7..b79ee8b 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -43,6 +43,8 @@ const (
 	minBufferSize uint32 = 8192
 	// the maximum number of milliseconds that a Token may be used before being renewed by the client. (60 min)
 	maxTokenLifetime uint32 = 3600 * 1000
+	// the time a peer has to take the chunks it is sent.
+	writeTimeout = 20 * time.Second
 )
 
 // serverSecureChannel implements a secure channel for binary data over Tcp.
@@ -424,8 +426,7 @@ func (ch *serverSecureChannel) Abort(reason ua.StatusCode, message string) error
 		enc.WriteUInt32(uint32(16 + len(message)))
 		enc.WriteUInt32(uint32(reason))
 		enc.WriteString(message)
-		ch.conn.SetWriteDeadline(time.Now().Add(3000 * time.Millisecond))
-		ch.write(writer.Bytes())
+		ch.writeWithin(writer.Bytes(), 3000*time.Millisecond)
 		// log.Printf("<- Err { reason: 0x%X, message: %s }\n", uint32(reason), message)
 		ch.conn.Close()
 	}
@@ -1712,8 +1713,19 @@ func (ch *serverSecureChannel) read(p []byte) (int, error) {
 
 // Write sends a chunk to the remote endpoint.
 func (ch *serverSecureChannel) write(p []byte) (int, error) {
+	return ch.writeWithin(p, writeTimeout)
+}
+
+func (ch *serverSecureChannel) writeWithin(p []byte, timeout time.Duration) (int, error) {
 	if ch.conn == nil {
 		return 0, ua.BadSecureChannelClosed
 	}
-	return ch.conn.Write(p)
+	// a peer that does not read must not hold up others for longer
+	ch.conn.SetWriteDeadline(time.Now().Add(timeout))
+	n, err := ch.conn.Write(p)
+	if err != nil {
+		// the rest of the chunk will not follow
+		ch.conn.Close()
+	}
+	return n, err
 }
-- 
2.43.0


From ed08bd796a613577f64f24499fef70689d4eb9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:34 +0000
Subject: [PATCH 079/101] fix: closing the client does not deadlock with calls
 that are being sent

---
 client/client_secure_channel.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 06676f6..ae76624 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -510,9 +510,10 @@ func (ch *clientSecureChannel) Open(ctx context.Context) (err error) {
 
 // Close closes the channel.
 func (ch *clientSecureChannel) Close(ctx context.Context) error {
+	// other requests need the lock while they are encoded, so it is not held during the request.
 	ch.Lock()
-	defer ch.Unlock()
 	ch.closing = true
+	ch.Unlock()
 	_, err := ch.Request(ctx, &ua.CloseSecureChannelRequest{})
 	if err != nil {
 		return err
-- 
2.43.0


From 75d8a3bf79851da12a5c48bc0899ebe8c483614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:24 +0000
Subject: [PATCH 080/101] fix: requests without a timeout hint get the one of
 option WithTimeoutHint

---
 client/client_secure_channel.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index ae76624..9acbb7c 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -246,6 +246,9 @@ func (ch *clientSecureChannel) Request(ctx context.Context, req ua.ServiceReques
 	header.Timestamp = time.Now()
 	header.RequestHandle = ch.getNextRequestHandle()
 	header.AuthenticationToken = ch.authenticationToken
+	if header.TimeoutHint == 0 {
+		header.TimeoutHint = ch.timeoutHint
+	}
 	if header.TimeoutHint == 0 {
 		header.TimeoutHint = defaultTimeoutHint
 	}
-- 
2.43.0


From 910c21fe5d226df65caaeca7e440bc2821ccfafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:05 +0000
Subject: [PATCH 081/101] fix: client accepts messages secured with the
 previous token until the server uses the current one

---
 client/client_secure_channel.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 9acbb7c..339c2a8 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -94,6 +94,9 @@ type clientSecureChannel struct {
 	remoteThumbprint           [20]byte
 	localNonce                 []byte
 	remoteNonce                []byte
+	previousTokenID            uint32
+	previousLocalNonce         []byte
+	previousRemoteNonce        []byte
 	channelID                  uint32
 	tokenID                    uint32
 	tokenLock                  sync.RWMutex
@@ -481,6 +484,7 @@ func (ch *clientSecureChannel) Open(ctx context.Context) (err error) {
 	ch.tokenID = 0
 	ch.sendingTokenID = 0
 	ch.receivingTokenID = 0
+	ch.previousTokenID = 0
 	ch.remoteSequenceStarted = false
 
 	go ch.responseWorker()
@@ -1492,7 +1496,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 
 			// detect new token
 			ch.tokenLock.RLock()
-			if tokenID == 0 || (tokenID != ch.receivingTokenID && tokenID != ch.tokenID) {
+			// the server goes on with the previous token until it receives a message with the current one
+			isPrevious := tokenID == ch.previousTokenID && ch.receivingTokenID != ch.tokenID
+			if tokenID == 0 || (tokenID != ch.receivingTokenID && tokenID != ch.tokenID && !isPrevious) {
 				ch.tokenLock.RUnlock()
 				return nil, ua.BadSecureChannelTokenUnknown
 			}
@@ -1502,7 +1508,11 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 				switch ch.securityMode {
 				case ua.MessageSecurityModeSignAndEncrypt, ua.MessageSecurityModeSign:
 					// (re)create remote security keys for verifying, decrypting
-					remoteSecurityKey := calculatePSHA(ch.localNonce, ch.remoteNonce, len(ch.remoteSigningKey)+len(ch.remoteEncryptingKey)+len(ch.remoteInitializationVector), ch.securityPolicyURI)
+					localNonce, remoteNonce := ch.localNonce, ch.remoteNonce
+					if isPrevious {
+						localNonce, remoteNonce = ch.previousLocalNonce, ch.previousRemoteNonce
+					}
+					remoteSecurityKey := calculatePSHA(localNonce, remoteNonce, len(ch.remoteSigningKey)+len(ch.remoteEncryptingKey)+len(ch.remoteInitializationVector), ch.securityPolicyURI)
 					jj := copy(ch.remoteSigningKey, remoteSecurityKey)
 					jj += copy(ch.remoteEncryptingKey, remoteSecurityKey[jj:])
 					copy(ch.remoteInitializationVector, remoteSecurityKey[jj:])
@@ -1871,6 +1881,7 @@ func (ch *clientSecureChannel) renewToken(ctx context.Context) error {
 	ch.tokenLock.Lock()
 	ch.tokenRenewalTime = time.Now().Add(time.Duration(response.SecurityToken.RevisedLifetime*75/100) * time.Millisecond)
 	// ch.channelId = response.ua.SecurityToken.ChannelID
+	ch.previousTokenID, ch.previousLocalNonce, ch.previousRemoteNonce = ch.tokenID, ch.localNonce, ch.remoteNonce
 	ch.tokenID = response.SecurityToken.TokenID
 	ch.localNonce = []byte(request.ClientNonce)
 	ch.remoteNonce = []byte(response.ServerNonce)
-- 
2.43.0


From fc64812f10ae1fca34c3607f0a354812976432e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:37 +0000
Subject: [PATCH 082/101] fix: client closes a broken connection, so that calls
 that are being sent fail promptly

---
 client/client_secure_channel.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 339c2a8..89c5986 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -1414,6 +1414,8 @@ func (ch *clientSecureChannel) responseWorker() {
 	for {
 		res, status := ch.readResponse()
 		if status != ua.Good {
+			// nothing can be received any more, so do not let senders wait for the peer
+			ch.conn.Close()
 			if ch.closing {
 				ch.statusCode = ua.Good
 				close(ch.closed)
-- 
2.43.0


From cfaa4d3aa1734b159f2e2ff502d27f34720a6a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:48 +0000
Subject: [PATCH 083/101] fix: connecting ends when its context is cancelled

---
 client/client_secure_channel.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 89c5986..c7cb011 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -336,6 +336,8 @@ func (ch *clientSecureChannel) Open(ctx context.Context) (err error) {
 	}
 	ch.conn = conn
 	ch.conn.SetDeadline(deadline)
+	stop := context.AfterFunc(ctx, func() { conn.SetDeadline(time.Now()) })
+	defer stop()
 
 	buf := *(ch.bytesPool.Get().(*[]byte))
 	defer ch.bytesPool.Put(&buf)
@@ -433,6 +435,9 @@ func (ch *clientSecureChannel) Open(ctx context.Context) (err error) {
 		return ua.BadDecodingError
 	}
 
+	if !stop() {
+		return ctx.Err()
+	}
 	ch.conn.SetDeadline(time.Time{})
 
 	// setSecurityPolicy
-- 
2.43.0


From f67d10cadf1a90c0a7b8c6f5104358627b261d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:59 +0000
Subject: [PATCH 084/101] fix: a server without a namespace or server array
 does not crash the client

---
 client/client.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/client/client.go b/client/client.go
index 0e739b7..9c7b574 100644
--- a/client/client.go
+++ b/client/client.go
@@ -731,13 +731,11 @@ func (ch *Client) open(ctx context.Context) error {
 		return err
 	}
 	if len(readResponse.Results) == 2 {
-		if readResponse.Results[0].StatusCode.IsGood() {
-			value := readResponse.Results[0].Value.([]string)
+		if value, ok := readResponse.Results[0].Value.([]string); ok && readResponse.Results[0].StatusCode.IsGood() {
 			ch.channel.SetNamespaceURIs(value)
 		}
 
-		if readResponse.Results[1].StatusCode.IsGood() {
-			value := readResponse.Results[1].Value.([]string)
+		if value, ok := readResponse.Results[1].Value.([]string); ok && readResponse.Results[1].StatusCode.IsGood() {
 			ch.channel.SetServerURIs(value)
 		}
 	}
-- 
2.43.0


From a9d84c13baa0c3444d69e6c95e0836870ecdce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:13 +0000
Subject: [PATCH 085/101] fix: a server that issues a token without id does not
 crash the client

---
 client/client_secure_channel.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index c7cb011..a9e2e08 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -509,6 +509,9 @@ func (ch *clientSecureChannel) Open(ctx context.Context) (err error) {
 	if response.ServerProtocolVersion < protocolVersion {
 		return ua.BadProtocolVersionUnsupported
 	}
+	if response.SecurityToken.TokenID == 0 {
+		return ua.BadSecureChannelTokenUnknown
+	}
 
 	ch.tokenLock.Lock()
 	ch.tokenRenewalTime = time.Now().Add(time.Duration(response.SecurityToken.RevisedLifetime*75/100) * time.Millisecond)
@@ -1884,6 +1887,9 @@ func (ch *clientSecureChannel) renewToken(ctx context.Context) error {
 	if response.ServerProtocolVersion < protocolVersion {
 		return ua.BadProtocolVersionUnsupported
 	}
+	if response.SecurityToken.TokenID == 0 {
+		return ua.BadSecureChannelTokenUnknown
+	}
 
 	ch.tokenLock.Lock()
 	ch.tokenRenewalTime = time.Now().Add(time.Duration(response.SecurityToken.RevisedLifetime*75/100) * time.Millisecond)
-- 
2.43.0


From 5dcf51781fdad3507b5ef137c29bd21e2e2b9710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:28 +0000
Subject: [PATCH 086/101] fix: a range write does not undo a value that the
 application sets meanwhile

---
 server/server_service_set.go | 12 ++++--------
 server/variable_node.go      | 18 +++++++++++++++++-
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 84e729c..95f20df 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -6234,14 +6234,10 @@ func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.Sta
 				}
 				return status
 			} else {
-				// keep other writers from changing the value between reading and setting it
-				n1.writeMutex.Lock()
-				defer n1.writeMutex.Unlock()
-				result, status := writeRange(n1.Value(), writeValue.Value, writeValue.IndexRange)
-				if status == ua.Good {
-					n1.SetValue(result)
-				}
-				return status
+				// keep others from changing the value between reading and setting it
+				return n1.updateValue(func(value ua.DataValue) (ua.DataValue, ua.StatusCode) {
+					return writeRange(value, writeValue.Value, writeValue.IndexRange)
+				})
 			}
 		default:
 			return ua.BadAttributeIDInvalid
diff --git a/server/variable_node.go b/server/variable_node.go
index 9b16c84..5b05607 100644
--- a/server/variable_node.go
+++ b/server/variable_node.go
@@ -9,7 +9,6 @@ import (
 
 type VariableNode struct {
 	sync.RWMutex
-	writeMutex              sync.Mutex
 	server                  *Server
 	nodeId                  ua.NodeID
 	nodeClass               ua.NodeClass
@@ -131,6 +130,23 @@ func (n *VariableNode) Value() ua.DataValue {
 func (n *VariableNode) SetValue(value ua.DataValue) {
 	n.Lock()
 	defer n.Unlock()
+	n.setValue(value)
+}
+
+// updateValue sets the value of the Variable to the result of f, if its status is good. No other
+// value is set in the meantime.
+func (n *VariableNode) updateValue(f func(ua.DataValue) (ua.DataValue, ua.StatusCode)) ua.StatusCode {
+	n.Lock()
+	defer n.Unlock()
+	result, status := f(n.value)
+	if status == ua.Good {
+		n.setValue(result)
+	}
+	return status
+}
+
+// setValue sets the value of the Variable, and writes it to the historian. The caller holds the lock.
+func (n *VariableNode) setValue(value ua.DataValue) {
 	n.value = value
 	if n.historizing && n.historian != nil {
 		n.historian.WriteValue(context.Background(), n.nodeId, value)
-- 
2.43.0


From 08c3a3a11ad79d62dda287c0378db4aedf1f7874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:13 +0000
Subject: [PATCH 087/101] fix: the names, references and aliases of a nodeset
 are read as text

---
 ua/ua_node_set.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ua/ua_node_set.go b/ua/ua_node_set.go
index 3d796ec..aa04c3e 100644
--- a/ua/ua_node_set.go
+++ b/ua/ua_node_set.go
@@ -57,14 +57,14 @@ type UANode struct {
 // Alias supports reading UANodeSet from xml.
 type Alias struct {
 	Alias  string `xml:"Alias,attr"`
-	NodeID string `xml:",innerxml"`
+	NodeID string `xml:",chardata"`
 }
 
 // UAReference supports reading UANodeSet from xml.
 type UAReference struct {
 	ReferenceType string `xml:"ReferenceType,attr"`
 	IsForward     string `xml:"IsForward,attr"`
-	TargetNodeID  string `xml:",innerxml"`
+	TargetNodeID  string `xml:",chardata"`
 }
 
 // UADataTypeDefinition supports reading UANodeSet from xml.
@@ -180,7 +180,7 @@ type ListOfGUID struct {
 type UALocalizedText struct {
 	Text    string `xml:"Text"`
 	Locale  string `xml:"Locale"`
-	Content string `xml:",innerxml"`
+	Content string `xml:",chardata"`
 }
 
 // ListOfLocalizedText supports reading UANodeSet from xml.
-- 
2.43.0


From a0f1b16a4fb7b4a33aef268e8036e84f9baf4c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:22 +0000
Subject: [PATCH 088/101] fix: the locale of the names in a nodeset is kept

---
 server/namespace_manager.go | 2 +-
 ua/ua_node_set.go           | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 5cd2f20..afd840e 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -906,7 +906,7 @@ func toLocalizedText(s ua.UALocalizedText) ua.LocalizedText {
 	if len(s.Text) > 0 {
 		return ua.NewLocalizedText(s.Text, s.Locale)
 	}
-	return ua.NewLocalizedText(s.Content, "")
+	return ua.NewLocalizedText(s.Content, s.ContentLocale)
 }
 
 func indexOfString(data []string, element string) int {
diff --git a/ua/ua_node_set.go b/ua/ua_node_set.go
index aa04c3e..74e130d 100644
--- a/ua/ua_node_set.go
+++ b/ua/ua_node_set.go
@@ -181,6 +181,8 @@ type UALocalizedText struct {
 	Text    string `xml:"Text"`
 	Locale  string `xml:"Locale"`
 	Content string `xml:",chardata"`
+	// ContentLocale is the locale of a text that has no child elements.
+	ContentLocale string `xml:"Locale,attr"`
 }
 
 // ListOfLocalizedText supports reading UANodeSet from xml.
-- 
2.43.0


From 65293a0b7b737f219b4f3f9aff9d79ee90e8feb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:31 +0000
Subject: [PATCH 089/101] fix: the byte strings of a nodeset are decoded

---
 ua/bytestring.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ua/bytestring.go b/ua/bytestring.go
index 51db76e..2cd1dcb 100644
--- a/ua/bytestring.go
+++ b/ua/bytestring.go
@@ -4,6 +4,7 @@ package ua
 
 import (
 	"encoding/base64"
+	"strings"
 )
 
 // ByteString is stored as a string.
@@ -17,3 +18,13 @@ func (b ByteString) String() string {
 func (b ByteString) MarshalText() ([]byte, error) {
 	return []byte(b.String()), nil
 }
+
+// UnmarshalText stores the bytes of the base64-encoded text. White space in the text is ignored.
+func (b *ByteString) UnmarshalText(text []byte) error {
+	v, err := base64.StdEncoding.DecodeString(strings.Join(strings.Fields(string(text)), ""))
+	if err != nil {
+		return err
+	}
+	*b = ByteString(v)
+	return nil
+}
-- 
2.43.0


From b8d345681d66bdfb13e8038a2223dff399fad589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:36 +0000
Subject: [PATCH 090/101] fix: a nodeset may write false as 0

---
 server/namespace_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index afd840e..3eba7dd 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -878,7 +878,7 @@ func toRefs(refs []*ua.UAReference, aliases map[string]string, nsMap map[uint16]
 	for i, r := range refs {
 		ra[i] = ua.Reference{
 			ReferenceTypeID: toNodeID(r.ReferenceType, aliases, nsMap),
-			IsInverse:       r.IsForward == "false",
+			IsInverse:       !toBool(r.IsForward, true),
 			TargetID:        ua.NewExpandedNodeID(toNodeID(r.TargetNodeID, aliases, nsMap)),
 		}
 	}
-- 
2.43.0


From 3d0f4bbf68b12f2ee7a0c86c8f3c96a6ab98a7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:41 +0000
Subject: [PATCH 091/101] fix: a nodeset with an unknown node class or node id
 is refused

---
 server/namespace_manager.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 3eba7dd..a0e6dad 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -803,6 +803,13 @@ func (m *NamespaceManager) LoadNodeSetFromBuffer(buf []byte) error {
 				n.ContainsNoLoops,
 				n.EventNotifier,
 			)
+		default:
+			log.Printf("Error decoding nodeset. Unknown node class '%s'\n", n.XMLName.Local)
+			return ua.BadNodeClassInvalid
+		}
+		if nodes[i].NodeID() == nil {
+			log.Printf("Error decoding nodeset. Invalid node id '%s'\n", n.NodeID)
+			return ua.BadNodeIDInvalid
 		}
 	}
 	err = m.AddNodes(nodes...)
@@ -823,9 +830,11 @@ func toNodeID(s string, aliases map[string]string, nsMap map[uint16]uint16) ua.N
 		if pos == -1 {
 			return nil
 		}
-		if ns1, err := strconv.ParseUint(s[3:pos], 10, 16); err == nil {
-			ns = uint16(ns1)
+		ns1, err := strconv.ParseUint(s[3:pos], 10, 16)
+		if err != nil {
+			return nil
 		}
+		ns = uint16(ns1)
 		s = s[pos+1:]
 		if ns2, exists := nsMap[ns]; exists {
 			ns = ns2
-- 
2.43.0


From 8d33ebb4168030b488fb720d5b5af6184809c5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:46 +0000
Subject: [PATCH 092/101] fix: a nodeset with a value of another structure does
 not crash the server

---
 server/namespace_manager.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index a0e6dad..0b0bf02 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -1147,12 +1147,12 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 					return ua.NewDataValue(ua.ParseExpandedNodeID(strings.TrimSpace(s.ExpandedNodeID.Identifier)), 0, now, 0, now, 0)
 				}
 			case ua.DataTypeIDRange:
-				if s.ExtensionObject != nil {
+				if s.ExtensionObject != nil && s.ExtensionObject.Range != nil {
 					item := s.ExtensionObject.Range
 					return ua.NewDataValue(ua.Range{Low: item.Low, High: item.High}, 0, now, 0, now, 0)
 				}
 			case ua.DataTypeIDEUInformation:
-				if s.ExtensionObject != nil {
+				if s.ExtensionObject != nil && s.ExtensionObject.EUInformation != nil {
 					item := s.ExtensionObject.EUInformation
 					return ua.NewDataValue(ua.EUInformation{
 						NamespaceURI: item.NamespaceURI,
@@ -1370,6 +1370,9 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 					list2 := make([]ua.ExtensionObject, len(list))
 					for i, item := range list {
 						arg := item.Argument
+						if arg == nil {
+							continue
+						}
 						list2[i] = ua.Argument{
 							Name:            arg.Name,
 							DataType:        toNodeID(arg.DataType, aliases, nsMap),
@@ -1386,6 +1389,9 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 					list2 := make([]ua.ExtensionObject, len(list))
 					for i, item := range list {
 						arg := item.EnumValueType
+						if arg == nil {
+							continue
+						}
 						list2[i] = ua.EnumValueType{
 							Value:       arg.Value,
 							DisplayName: ua.LocalizedText{Text: arg.DisplayName.Text, Locale: arg.DisplayName.Locale},
-- 
2.43.0


From 93ac40ebd08a2309417f681359a9f7eb4e1159ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:08 +0000
Subject: [PATCH 093/101] fix: the namespace indexes in the values of a nodeset
 are mapped

---
 server/namespace_manager.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 0b0bf02..f9f4c06 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -862,6 +862,25 @@ func toNodeID(s string, aliases map[string]string, nsMap map[uint16]uint16) ua.N
 	return nil
 }
 
+// toExpandedNodeID returns the ExpandedNodeID of a value. The index of a local namespace is mapped.
+func toExpandedNodeID(s string, nsMap map[uint16]uint16) ua.ExpandedNodeID {
+	s = strings.TrimSpace(s)
+	id := ua.ParseExpandedNodeID(s)
+	if id.ServerIndex == 0 && id.NamespaceURI == "" {
+		id.NodeID = toNodeID(strings.TrimPrefix(s, "svr=0;"), nil, nsMap)
+	}
+	return id
+}
+
+// toQualifiedName returns the QualifiedName of a value.
+func toQualifiedName(s ua.UAQualifiedName, nsMap map[uint16]uint16) ua.QualifiedName {
+	ns := s.NamespaceIndex
+	if ns2, exists := nsMap[ns]; exists {
+		ns = ns2
+	}
+	return ua.QualifiedName{NamespaceIndex: ns, Name: strings.TrimSpace(s.Name)}
+}
+
 func toDims(dims string, rank int32) []uint32 {
 	if dims == "" {
 		if rank > 0 {
@@ -1038,7 +1057,7 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 			case ua.DataTypeIDQualifiedName:
 				if s.QualifiedName != nil {
 					item := *s.QualifiedName
-					return ua.NewDataValue(ua.QualifiedName{NamespaceIndex: item.NamespaceIndex, Name: strings.TrimSpace(item.Name)}, 0, now, 0, now, 0)
+					return ua.NewDataValue(toQualifiedName(item, nsMap), 0, now, 0, now, 0)
 				}
 			case ua.DataTypeIDDuration:
 				if s.Double != nil {
@@ -1047,12 +1066,12 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 			case ua.DataTypeIDNodeID:
 				if s.NodeID != nil {
 					item := *s.NodeID
-					return ua.NewDataValue(ua.ParseNodeID(strings.TrimSpace(item.Identifier)), 0, now, 0, now, 0)
+					return ua.NewDataValue(toNodeID(strings.TrimSpace(item.Identifier), nil, nsMap), 0, now, 0, now, 0)
 				}
 			case ua.DataTypeIDExpandedNodeID:
 				if s.ExpandedNodeID != nil {
 					item := *s.ExpandedNodeID
-					return ua.NewDataValue(ua.ParseExpandedNodeID(strings.TrimSpace(item.Identifier)), 0, now, 0, now, 0)
+					return ua.NewDataValue(toExpandedNodeID(item.Identifier, nsMap), 0, now, 0, now, 0)
 				}
 			case ua.DataTypeIDInteger:
 				switch {
@@ -1140,11 +1159,11 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 					return ua.NewDataValue(ua.LocalizedText{Text: strings.TrimSpace(item.Text), Locale: strings.TrimSpace(item.Locale)}, 0, now, 0, now, 0)
 				case s.QualifiedName != nil:
 					item := *s.QualifiedName
-					return ua.NewDataValue(ua.QualifiedName{NamespaceIndex: item.NamespaceIndex, Name: strings.TrimSpace(item.Name)}, 0, now, 0, now, 0)
+					return ua.NewDataValue(toQualifiedName(item, nsMap), 0, now, 0, now, 0)
 				case s.NodeID != nil:
-					return ua.NewDataValue(ua.ParseNodeID(strings.TrimSpace(s.NodeID.Identifier)), 0, now, 0, now, 0)
+					return ua.NewDataValue(toNodeID(strings.TrimSpace(s.NodeID.Identifier), nil, nsMap), 0, now, 0, now, 0)
 				case s.ExpandedNodeID != nil:
-					return ua.NewDataValue(ua.ParseExpandedNodeID(strings.TrimSpace(s.ExpandedNodeID.Identifier)), 0, now, 0, now, 0)
+					return ua.NewDataValue(toExpandedNodeID(s.ExpandedNodeID.Identifier, nsMap), 0, now, 0, now, 0)
 				}
 			case ua.DataTypeIDRange:
 				if s.ExtensionObject != nil && s.ExtensionObject.Range != nil {
@@ -1272,7 +1291,7 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 					list := s.ListOfQualifiedName.List
 					list2 := make([]ua.QualifiedName, len(list))
 					for i, item := range list {
-						list2[i] = ua.QualifiedName{NamespaceIndex: item.NamespaceIndex, Name: strings.TrimSpace(item.Name)}
+						list2[i] = toQualifiedName(item, nsMap)
 					}
 					return ua.NewDataValue(list2, 0, now, 0, now, 0)
 				}
@@ -1348,7 +1367,7 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 							item := &ua.UAQualifiedName{}
 							hack := fmt.Sprintf("<uax:QualifiedName>%s</uax:QualifiedName>", src)
 							xml.Unmarshal([]byte(hack), item)
-							list2[i] = ua.QualifiedName{NamespaceIndex: item.NamespaceIndex, Name: item.Name}
+							list2[i] = toQualifiedName(*item, nsMap)
 						case "NodeID":
 							list2[i] = ua.ParseNodeID(strings.TrimSpace(src))
 						case "ExpandedNodeID":
-- 
2.43.0


From 59a6665750edd383a063981e42c26dbe6ab717ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:02 +0000
Subject: [PATCH 094/101] fix: a variable of a derived data type gets the value
 in its nodeset

---
 server/namespace_manager.go | 86 ++++++++++++++++++++++++++-----------
 1 file changed, 62 insertions(+), 24 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index f9f4c06..fed25eb 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -697,6 +697,25 @@ func (m *NamespaceManager) LoadNodeSetFromBuffer(buf []byte) error {
 		aliases[a.Alias] = a.NodeID
 	}
 
+	// the supertypes of the data types that are not in the namespace yet.
+	superTypes := make(map[ua.NodeID]ua.NodeID)
+	for _, n := range set.Nodes {
+		if n.XMLName.Local != "UADataType" {
+			continue
+		}
+		id := toNodeID(n.NodeID, aliases, nsMap)
+		for _, r := range n.References {
+			if toNodeID(r.ReferenceType, aliases, nsMap) != ua.ReferenceTypeIDHasSubtype {
+				continue
+			}
+			if target := toNodeID(r.TargetNodeID, aliases, nsMap); toBool(r.IsForward, true) {
+				superTypes[target] = id
+			} else {
+				superTypes[id] = target
+			}
+		}
+	}
+
 	nodes := make([]Node, len(set.Nodes))
 	for i, n := range set.Nodes {
 		switch n.XMLName.Local {
@@ -720,8 +739,8 @@ func (m *NamespaceManager) LoadNodeSetFromBuffer(buf []byte) error {
 				toLocalizedText(n.Description),
 				nil,
 				toRefs(n.References, aliases, nsMap),
-				toDataValue(n.Value, n.DataType, aliases, nsMap, toInt32(n.ValueRank, -1), m),
-				toNodeID(n.DataType, aliases, nsMap),
+				toDataValue(n.Value, m.toValueType(toDataType(n.DataType, aliases, nsMap), superTypes), aliases, nsMap, toInt32(n.ValueRank, -1)),
+				toDataType(n.DataType, aliases, nsMap),
 				toInt32(n.ValueRank, -1),
 				toDims(n.ArrayDimensions, toInt32(n.ValueRank, -1)),
 				n.IsAbstract,
@@ -771,8 +790,8 @@ func (m *NamespaceManager) LoadNodeSetFromBuffer(buf []byte) error {
 				toLocalizedText(n.Description),
 				nil,
 				toRefs(n.References, aliases, nsMap),
-				toDataValue(n.Value, n.DataType, aliases, nsMap, toInt32(n.ValueRank, -1), m),
-				toNodeID(n.DataType, aliases, nsMap),
+				toDataValue(n.Value, m.toValueType(toDataType(n.DataType, aliases, nsMap), superTypes), aliases, nsMap, toInt32(n.ValueRank, -1)),
+				toDataType(n.DataType, aliases, nsMap),
 				toInt32(n.ValueRank, -1),
 				toDims(n.ArrayDimensions, toInt32(n.ValueRank, -1)),
 				toUint8(n.AccessLevel, 1),
@@ -971,15 +990,44 @@ func toBool(s string, def bool) bool {
 // 	return m.IsSubtype(ua.ParseNodeID(dataType), ua.DataTypeIDEnumeration)
 // }
 
-func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsMap map[uint16]uint16, rank int32, m *NamespaceManager) ua.DataValue {
-	if alias, exists := aliases[dataType]; exists {
-		dataType = alias
+// toDataType returns the data type of a variable or variable type.
+func toDataType(s string, aliases map[string]string, nsMap map[uint16]uint16) ua.NodeID {
+	if s == "" {
+		return ua.DataTypeIDBaseDataType
 	}
+	return toNodeID(s, aliases, nsMap)
+}
+
+// toValueType returns the type that toDataValue decodes for the given data type: the data type itself or
+// the first of its supertypes. The data types with the given supertypes need not be in the namespace.
+func (m *NamespaceManager) toValueType(dataType ua.NodeID, superTypes map[ua.NodeID]ua.NodeID) ua.NodeID {
+	t := dataType
+	for i := 0; i <= 100 && t != nil; i++ {
+		switch t {
+		case ua.DataTypeIDBoolean, ua.DataTypeIDSByte, ua.DataTypeIDByte, ua.DataTypeIDInt16, ua.DataTypeIDUInt16,
+			ua.DataTypeIDInt32, ua.DataTypeIDUInt32, ua.DataTypeIDInt64, ua.DataTypeIDUInt64, ua.DataTypeIDFloat,
+			ua.DataTypeIDDouble, ua.DataTypeIDString, ua.DataTypeIDDateTime, ua.DataTypeIDGUID, ua.DataTypeIDByteString,
+			ua.DataTypeIDXMLElement, ua.DataTypeIDNodeID, ua.DataTypeIDExpandedNodeID, ua.DataTypeIDQualifiedName,
+			ua.DataTypeIDLocalizedText, ua.DataTypeIDNumber, ua.DataTypeIDInteger, ua.DataTypeIDUInteger,
+			ua.DataTypeIDBaseDataType, ua.DataTypeIDEnumeration, ua.DataTypeIDStructure, ua.DataTypeIDArgument,
+			ua.DataTypeIDEnumValueType, ua.DataTypeIDRange, ua.DataTypeIDEUInformation:
+			return t
+		}
+		if super, ok := superTypes[t]; ok {
+			t = super
+		} else {
+			t = m.FindSuperType(t)
+		}
+	}
+	return dataType
+}
+
+func toDataValue(s ua.UAVariant, dataType ua.NodeID, aliases map[string]string, nsMap map[uint16]uint16, rank int32) ua.DataValue {
 	now := time.Now()
 	if true {
 		switch rank {
 		case -1:
-			switch ua.ParseNodeID(dataType) {
+			switch dataType {
 			case ua.DataTypeIDBoolean:
 				if s.Bool != nil {
 					return ua.NewDataValue(*s.Bool, 0, now, 0, now, 0)
@@ -1059,10 +1107,6 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 					item := *s.QualifiedName
 					return ua.NewDataValue(toQualifiedName(item, nsMap), 0, now, 0, now, 0)
 				}
-			case ua.DataTypeIDDuration:
-				if s.Double != nil {
-					return ua.NewDataValue(*s.Double, 0, now, 0, now, 0)
-				}
 			case ua.DataTypeIDNodeID:
 				if s.NodeID != nil {
 					item := *s.NodeID
@@ -1180,17 +1224,15 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 						Description:  ua.LocalizedText{Text: item.Description.Text, Locale: item.Description.Locale},
 					}, 0, now, 0, now, 0)
 				}
-			default:
-				n2 := toNodeID(dataType, aliases, nsMap)
-				if m.IsSubtype(n2, ua.DataTypeIDEnumeration) {
-					if s.Int32 != nil {
-						return ua.NewDataValue(*s.Int32, 0, now, 0, now, 0)
-					}
+			case ua.DataTypeIDEnumeration:
+				if s.Int32 != nil {
+					return ua.NewDataValue(*s.Int32, 0, now, 0, now, 0)
 				}
+			default:
 				return ua.NewDataValue(nil, 0, now, 0, now, 0)
 			}
 		case 1:
-			switch ua.ParseNodeID(dataType) {
+			switch dataType {
 			case ua.DataTypeIDBoolean:
 				if s.ListOfBoolean != nil {
 					return ua.NewDataValue(s.ListOfBoolean.List, 0, now, 0, now, 0)
@@ -1217,7 +1259,7 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 				if s.ListOfUInt16 != nil {
 					return ua.NewDataValue(s.ListOfUInt16.List, 0, now, 0, now, 0)
 				}
-			case ua.DataTypeIDInt32:
+			case ua.DataTypeIDInt32, ua.DataTypeIDEnumeration:
 				if s.ListOfInt32 != nil {
 					return ua.NewDataValue(s.ListOfInt32.List, 0, now, 0, now, 0)
 				}
@@ -1295,10 +1337,6 @@ func toDataValue(s ua.UAVariant, dataType string, aliases map[string]string, nsM
 					}
 					return ua.NewDataValue(list2, 0, now, 0, now, 0)
 				}
-			case ua.DataTypeIDDuration:
-				if s.ListOfDouble != nil {
-					return ua.NewDataValue(s.ListOfDouble.List, 0, now, 0, now, 0)
-				}
 			case ua.DataTypeIDBaseDataType:
 				if s.ListOfVariant != nil {
 					list := s.ListOfVariant.List
-- 
2.43.0


From 445ff82441cae9e11f835155ffa58bd27601b46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:08 +0000
Subject: [PATCH 095/101] fix: a variable of any value rank gets the value in
 its nodeset

---
 server/namespace_manager.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index fed25eb..8eb5941 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -1024,6 +1024,13 @@ func (m *NamespaceManager) toValueType(dataType ua.NodeID, superTypes map[ua.Nod
 
 func toDataValue(s ua.UAVariant, dataType ua.NodeID, aliases map[string]string, nsMap map[uint16]uint16, rank int32) ua.DataValue {
 	now := time.Now()
+	switch rank {
+	case ua.ValueRankScalarOrOneDimension, ua.ValueRankAny, ua.ValueRankOneOrMoreDimensions:
+		if v := toDataValue(s, dataType, aliases, nsMap, 1); v.Value != nil || rank == ua.ValueRankOneOrMoreDimensions {
+			return v
+		}
+		rank = -1
+	}
 	if true {
 		switch rank {
 		case -1:
-- 
2.43.0


From 9b1dcbcae83014749baf73363764e3fc5312a7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:33 +0000
Subject: [PATCH 096/101] fix: the variants in a list of a nodeset are decoded

---
 server/namespace_manager.go | 94 +++++++------------------------------
 1 file changed, 18 insertions(+), 76 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 8eb5941..5390c80 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -1022,6 +1022,23 @@ func (m *NamespaceManager) toValueType(dataType ua.NodeID, superTypes map[ua.Nod
 	return dataType
 }
 
+// toVariant returns a value of a list of values of any type. The element is a Variant that contains the value or
+// the value itself.
+func toVariant(s ua.UAVariant2, nsMap map[uint16]uint16) ua.Variant {
+	item := struct {
+		Value ua.UAVariant `xml:"Value"`
+	}{}
+	doc := fmt.Sprintf("<Variant>%s</Variant>", s.InnerXML)
+	if name := s.XMLName.Local; name != "Variant" {
+		doc = fmt.Sprintf("<Variant><Value><%s>%s</%s></Value></Variant>", name, s.InnerXML, name)
+	}
+	if err := xml.Unmarshal([]byte(doc), &item); err != nil {
+		log.Printf("Error decoding Variant. %s\n", err)
+		return nil
+	}
+	return toDataValue(item.Value, ua.DataTypeIDBaseDataType, nil, nsMap, -1).Value
+}
+
 func toDataValue(s ua.UAVariant, dataType ua.NodeID, aliases map[string]string, nsMap map[uint16]uint16, rank int32) ua.DataValue {
 	now := time.Now()
 	switch rank {
@@ -1349,82 +1366,7 @@ func toDataValue(s ua.UAVariant, dataType ua.NodeID, aliases map[string]string,
 					list := s.ListOfVariant.List
 					list2 := make([]ua.Variant, len(list))
 					for i, v := range list {
-						src := v.InnerXML
-						switch v.XMLName.Local {
-						case "Boolean":
-							dst, _ := strconv.ParseBool(strings.TrimSpace(src))
-							list2[i] = dst
-						case "Byte":
-							dst, _ := strconv.ParseUint(strings.TrimSpace(src), 10, 8)
-							list2[i] = byte(dst)
-						case "UInt16":
-							dst, _ := strconv.ParseUint(strings.TrimSpace(src), 10, 16)
-							list2[i] = uint16(dst)
-						case "UInt32":
-							dst, _ := strconv.ParseUint(strings.TrimSpace(src), 10, 32)
-							list2[i] = uint32(dst)
-						case "UInt64":
-							dst, _ := strconv.ParseUint(strings.TrimSpace(src), 10, 64)
-							list2[i] = uint64(dst)
-						case "SByte":
-							dst, _ := strconv.ParseInt(strings.TrimSpace(src), 10, 8)
-							list2[i] = int8(dst)
-						case "Int16":
-							dst, _ := strconv.ParseInt(strings.TrimSpace(src), 10, 16)
-							list2[i] = int16(dst)
-						case "Int32":
-							dst, _ := strconv.ParseInt(strings.TrimSpace(src), 10, 32)
-							list2[i] = int32(dst)
-						case "Int64":
-							dst, _ := strconv.ParseInt(strings.TrimSpace(src), 10, 64)
-							list2[i] = int64(dst)
-						case "Float":
-							dst, _ := strconv.ParseFloat(strings.TrimSpace(src), 32)
-							list2[i] = float32(dst)
-						case "Double":
-							dst, _ := strconv.ParseFloat(strings.TrimSpace(src), 64)
-							list2[i] = float64(dst)
-						case "String":
-							list2[i] = src
-						case "DateTime":
-							dst, err := time.Parse(time.RFC3339, strings.TrimSpace(src))
-							if err != nil {
-								list2[i] = time.Time{}
-								continue
-							}
-							list2[i] = dst
-						case "Guid":
-							dst, err := uuid.Parse(strings.TrimSpace(src))
-							if err != nil {
-								list2[i] = uuid.UUID{}
-							}
-							list2[i] = dst
-						case "ByteString":
-							list2[i] = ua.ByteString(src)
-						case "XMLElement":
-							list2[i] = ua.XMLElement(src)
-						case "LocalizedText":
-							item := &ua.UALocalizedText{}
-							hack := fmt.Sprintf("<uax:LocalizedText>%s</uax:LocalizedText>", src)
-							xml.Unmarshal([]byte(hack), item)
-							list2[i] = ua.LocalizedText{Text: item.Text, Locale: item.Locale}
-						case "QualifiedName":
-							item := &ua.UAQualifiedName{}
-							hack := fmt.Sprintf("<uax:QualifiedName>%s</uax:QualifiedName>", src)
-							xml.Unmarshal([]byte(hack), item)
-							list2[i] = toQualifiedName(*item, nsMap)
-						case "NodeID":
-							list2[i] = ua.ParseNodeID(strings.TrimSpace(src))
-						case "ExpandedNodeID":
-							list2[i] = ua.ParseExpandedNodeID(strings.TrimSpace(src))
-						case "ExtensionObject":
-							item := &ua.UAExtensionObject{}
-							hack := fmt.Sprintf("<uax:ExtensionObject>%s</uax:ExtensionObject>", src)
-							xml.Unmarshal([]byte(hack), item)
-							list2[i] = nil
-						default:
-							list2[i] = nil
-						}
+						list2[i] = toVariant(v, nsMap)
 					}
 					return ua.NewDataValue(list2, 0, now, 0, now, 0)
 				}
-- 
2.43.0


From 60adbc4cabb4da84c8b7530f1968bba94ae25f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:07 +0000
Subject: [PATCH 097/101] fix: the session's message size limit does not lift
 the limit the server acknowledged

---
 client/client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 9c7b574..2508797 100644
--- a/client/client.go
+++ b/client/client.go
@@ -258,7 +258,9 @@ func (ch *Client) open(ctx context.Context) error {
 	ch.channel.SetAuthenticationToken(createSessionResponse.AuthenticationToken)
 	remoteNonce = []byte(createSessionResponse.ServerNonce)
 	ch.sessionTimeout = createSessionResponse.RevisedSessionTimeout
-	ch.channel.maxRequestMessageSize = createSessionResponse.MaxRequestMessageSize
+	if i := createSessionResponse.MaxRequestMessageSize; i > 0 && (ch.channel.maxRequestMessageSize == 0 || i < ch.channel.maxRequestMessageSize) {
+		ch.channel.maxRequestMessageSize = i
+	}
 
 	// verify the server's certificate is the same as the certificate from the selected endpoint.
 	if !bytes.Equal(ch.serverCertificate, []byte(createSessionResponse.ServerCertificate)) {
-- 
2.43.0


From bc6660aab15fe2a768de489f88556172647d5fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:39 +0000
Subject: [PATCH 098/101] fix: monitored items that watch the diagnostics of
 their subscription do not deadlock with publishing

---
 server/datachange_monitored_item.go | 51 +++++++++++++++++++++++------
 server/subscription.go              | 20 +++++++++--
 2 files changed, 59 insertions(+), 12 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 428106a..cea5abe 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -17,6 +17,7 @@ import (
 // DataChangeMonitoredItem specifies the node and attribute that is monitored for data changes.
 type DataChangeMonitoredItem struct {
 	sync.RWMutex
+	sampling            sync.Mutex // orders the samples; locked before the item, and never by the subscription
 	id                  uint32
 	itemToMonitor       ua.ReadValueID
 	monitoringMode      ua.MonitoringMode
@@ -35,6 +36,7 @@ type DataChangeMonitoredItem struct {
 	prequeue            deque.Deque[ua.DataValue]
 	ts                  time.Time
 	ti                  time.Duration
+	resendValue         *ua.DataValue
 	triggeredItems      []MonitoredItem
 	triggered           atomic.Bool
 }
@@ -257,9 +259,8 @@ func (mi *DataChangeMonitoredItem) startMonitoring() {
 	if mi.monitoringMode == ua.MonitoringModeDisabled {
 		return
 	}
-	v := mi.srv.readValue(mi.sub.session, mi.itemToMonitor)
-	mi.prequeue.PushBack(v)
 	mi.Unlock()
+	mi.sample()
 	group := mi.srv.Scheduler().GetPollGroup(time.Duration(mi.samplingInterval) * time.Millisecond)
 	group.Subscribe(mi)
 	mi.Lock()
@@ -277,12 +278,42 @@ func (mi *DataChangeMonitoredItem) stopMonitoring() {
 
 // Poll reads the value of the itemToMonitor.
 func (mi *DataChangeMonitoredItem) Poll() {
+	mi.sample()
+}
+
+// sample reads the value of the itemToMonitor. The lock of the item is not held meanwhile, because the value
+// may be a diagnostic of the subscription, and the subscription locks its items.
+func (mi *DataChangeMonitoredItem) sample() {
+	mi.sampling.Lock()
+	defer mi.sampling.Unlock()
+	mi.RLock()
+	active := mi.node != nil && mi.monitoringMode != ua.MonitoringModeDisabled
+	mi.RUnlock()
+	if !active {
+		return
+	}
+	v := mi.srv.readValue(mi.sub.session, mi.itemToMonitor)
 	mi.Lock()
-	if n := mi.node; n != nil && mi.monitoringMode != ua.MonitoringModeDisabled {
-		v := mi.srv.readValue(mi.sub.session, mi.itemToMonitor)
+	defer mi.Unlock()
+	if mi.node != nil && mi.monitoringMode != ua.MonitoringModeDisabled {
 		mi.prequeue.PushBack(v)
 	}
-	mi.Unlock()
+}
+
+// prepareResend reads the value to send again. It is called before the subscription is locked.
+func (mi *DataChangeMonitoredItem) prepareResend() {
+	mi.sampling.Lock()
+	defer mi.sampling.Unlock()
+	mi.RLock()
+	active := mi.node != nil && mi.monitoringMode == ua.MonitoringModeReporting
+	mi.RUnlock()
+	if !active {
+		return
+	}
+	v := mi.srv.readValue(mi.sub.session, mi.itemToMonitor)
+	mi.Lock()
+	defer mi.Unlock()
+	mi.resendValue = &v
 }
 
 // AddTriggeredItem adds a item to be triggered by this item.
@@ -420,11 +451,11 @@ func (mi *DataChangeMonitoredItem) notificationsAvailable(tn time.Time, late boo
 			}
 		}
 	}
-	if resend && mi.monitoringMode == ua.MonitoringModeReporting {
-		if mi.queue.Len() == 0 {
-			v := mi.srv.readValue(mi.sub.session, mi.itemToMonitor)
-			mi.enqueue(withTimestamps(v, mi.timestampsToReturn))
-			mi.previousQueuedValue = v
+	if v := mi.resendValue; resend && v != nil {
+		mi.resendValue = nil
+		if mi.monitoringMode == ua.MonitoringModeReporting && mi.queue.Len() == 0 {
+			mi.enqueue(withTimestamps(*v, mi.timestampsToReturn))
+			mi.previousQueuedValue = *v
 		}
 	}
 	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.triggered.Load())
diff --git a/server/subscription.go b/server/subscription.go
index 018936f..d9b285a 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -326,6 +326,14 @@ func (s *Subscription) stopPublishing() {
 
 func (s *Subscription) publish(tn time.Time) error {
 	// log.Printf("onPublish id: %d, keepAlive: %d, lifetime: %d\n", s.id, s.keepAliveCount, s.lifetimeCount)
+	resend := s.takeResend()
+	if resend {
+		for _, item := range s.Items() {
+			if mi, ok := item.(*DataChangeMonitoredItem); ok {
+				mi.prepareResend()
+			}
+		}
+	}
 	s.Lock()
 	defer s.Unlock()
 	if s.deleted {
@@ -333,11 +341,10 @@ func (s *Subscription) publish(tn time.Time) error {
 	}
 	notificationsAvailable := false
 	for _, item := range s.items {
-		if item.notificationsAvailable(tn, false, s.resend) {
+		if item.notificationsAvailable(tn, false, resend) {
 			notificationsAvailable = true
 		}
 	}
-	s.resend = false
 	if s.triggeredNotificationsAvailable() {
 		notificationsAvailable = true
 	}
@@ -690,3 +697,12 @@ func (s *Subscription) resendData() {
 	defer s.Unlock()
 	s.resend = true
 }
+
+// takeResend reports and forgets whether the data is to be sent again.
+func (s *Subscription) takeResend() bool {
+	s.Lock()
+	defer s.Unlock()
+	resend := s.resend
+	s.resend = false
+	return resend
+}
-- 
2.43.0


From b218090deb00c57f92b1bdde8283a9a0eb06d46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:39 +0000
Subject: [PATCH 099/101] fix: reading the subscription diagnostics does not
 iterate over a map that others change

---
 server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 1084098..9d59124 100644
--- a/server/server.go
+++ b/server/server.go
@@ -811,7 +811,7 @@ func (srv *Server) initializeNamespace() error {
 				return ua.NewDataValue(nil, 0, time.Now(), 0, time.Now(), 0)
 			}
 			a := make([]ua.ExtensionObject, 0, 16)
-			for _, s := range srv.SubscriptionManager().subscriptionsByID {
+			for _, s := range srv.SubscriptionManager().all() {
 				s.RLock()
 				e := ua.SubscriptionDiagnosticsDataType{
 					SessionID:                  s.sessionId,
-- 
2.43.0


From d704a58ce90fae2ad8f9997fb299f754a66f90c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:39 +0000
Subject: [PATCH 100/101] fix: the server diagnostics summary can be read

---
 server/server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 9d59124..504f2c6 100644
--- a/server/server.go
+++ b/server/server.go
@@ -742,7 +742,9 @@ func (srv *Server) initializeNamespace() error {
 	}
 	if n, ok := nm.FindVariable(ua.VariableIDServerServerDiagnosticsServerDiagnosticsSummary); ok {
 		n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
-			return ua.NewDataValue(srv.serverDiagnosticsSummary, 0, time.Now(), 0, time.Now(), 0)
+			srv.RLock()
+			defer srv.RUnlock()
+			return ua.NewDataValue(*srv.serverDiagnosticsSummary, 0, time.Now(), 0, time.Now(), 0)
 		})
 	}
 	if n, ok := nm.FindVariable(ua.VariableIDServerServerDiagnosticsServerDiagnosticsSummaryCumulatedSessionCount); ok {
-- 
2.43.0


From 463497ff3bb46a0bd36a9773ce2ba10e255d755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:47 +0000
Subject: [PATCH 101/101] fix: closing a session leaves the diagnostics of
 subscriptions that outlive it

---
 server/session_manager.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/server/session_manager.go b/server/session_manager.go
index 04a3bf5..0cfdc81 100644
--- a/server/session_manager.go
+++ b/server/session_manager.go
@@ -1712,7 +1712,30 @@ func (m *SessionManager) addDiagnosticsNode(s *Session) {
 }
 
 func (m *SessionManager) removeDiagnosticsNode(s *Session) {
-	if n, ok := m.server.NamespaceManager().FindNode(s.SessionId()); ok {
-		m.server.NamespaceManager().DeleteNode(n, true)
+	nm := m.server.NamespaceManager()
+	n, ok := nm.FindNode(s.SessionId())
+	if !ok {
+		return
 	}
+	// subscriptions may outlive the session, so their diagnostics are not children of it any more
+	if array, ok := nm.FindComponent(n, ua.NewQualifiedName(0, "SubscriptionDiagnosticsArray")); ok {
+		kept := []ua.Reference{}
+		for _, r := range array.References() {
+			if r.IsInverse || r.ReferenceTypeID != ua.ReferenceTypeIDHasComponent {
+				kept = append(kept, r)
+				continue
+			}
+			if sub, ok := nm.FindNode(ua.ToNodeID(r.TargetID, nm.NamespaceUris())); ok {
+				refs := []ua.Reference{}
+				for _, r := range sub.References() {
+					if !r.IsInverse || ua.ToNodeID(r.TargetID, nm.NamespaceUris()) != array.NodeID() {
+						refs = append(refs, r)
+					}
+				}
+				sub.SetReferences(refs)
+			}
+		}
+		array.SetReferences(kept)
+	}
+	nm.DeleteNode(n, true)
 }
-- 
2.43.0

