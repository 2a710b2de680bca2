From 28b4f80867163f44edbc35526ccd0281bc0e8ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:57 +0000
Subject: [PATCH 01/40] fix: encode lengths above 65535 with the right number
 of length octets

---
 asn1/encode.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asn1/encode.go b/asn1/encode.go
index c9426eb..16100dc 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -259,7 +259,7 @@ func (asn *ASNWriter) writeLength(len int) errors.Error {
 		}
 		err = asn.data.WriteByte(byte(len & 0xFF))
 	} else if len <= 0xffffff {
-		err = asn.data.WriteByte(0x82)
+		err = asn.data.WriteByte(0x83)
 		if err != nil {
 			return errors.NewError(err)
 		}
@@ -272,6 +272,11 @@ func (asn *ASNWriter) writeLength(len int) errors.Error {
 			return errors.NewError(err)
 		}
 		err = asn.data.WriteByte(byte(len & 0xFF))
+	} else {
+		if uint64(len) > 0xffffffff {
+			return errors.New("Length %d too big.", len)
+		}
+		_, err = asn.data.Write([]byte{0x84, byte(len >> 24), byte(len >> 16), byte(len >> 8), byte(len)})
 	}
 	return errors.NewError(err)
 }
-- 
2.43.0


From 1c4c5dda58062519505dc81ddd06b2e4b3b1d1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:00 +0000
Subject: [PATCH 02/40] fix: write the length octet of a null value

---
 asn1/encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1/encode.go b/asn1/encode.go
index 16100dc..fdaa1c1 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -121,7 +121,10 @@ func (asn *ASNWriter) WriteInt64(i int64) errors.Error {
 
 func (asn *ASNWriter) WriteNull() errors.Error {
 	err := asn.data.WriteByte(EMBER_NULL)
-	return errors.NewError(err)
+	if err != nil {
+		return errors.NewError(err)
+	}
+	return asn.writeLength(0)
 }
 
 func (asn *ASNWriter) WriteEnum(i int) errors.Error {
-- 
2.43.0


From 48597afa3f0fa4ec081dcd1cbcc9abcfbd6d10cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:03 +0000
Subject: [PATCH 03/40] fix: write relative OID components minimally and refuse
 negative ones

---
 asn1/encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1/encode.go b/asn1/encode.go
index fdaa1c1..0d89925 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -338,9 +338,12 @@ func (asn *ASNWriter) WriteRelativeOID(oid RelativeOID) errors.Error {
 	buffer := make([]byte, 0)
 	for i := 0; i < len(oid); i++ {
 		val := oid[i]
+		if val < 0 {
+			return errors.New("Invalid negative value %d in relative OID.", val)
+		}
 		encodedBytes := make([]byte, 0)
 		for {
-			if val < 0x7F {
+			if val <= 0x7F {
 				break
 			}
 			encodedBytes = append(encodedBytes, byte(val&0x7F))
-- 
2.43.0


From dd766cd05d37f87e267926b7eb50c410055aa671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:06 +0000
Subject: [PATCH 04/40] fix: reject OIDs with a wrong tag, a truncated or an
 overflowing component

---
 asn1/decode.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 4ff5426..96f0b2a 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -82,18 +82,27 @@ func (a *ASNReader) ReadBoolean() (bool, errors.Error) {
 func (a *ASNReader) ReadOID(tag uint8) (RelativeOID, errors.Error) {
 	var oid RelativeOID
 	offset := a.TopOffset()
-	tag, err := a.ReadByte()
+	b, err := a.ReadByte()
 	if err != nil {
 		return nil, errors.New("Failed to read OID tag at offset %d. %s", offset, err)
 	}
+	if b != tag {
+		return nil, errors.New("Incorrect OID tag %d at offset %d.", b, offset)
+	}
 	buf, err := a.readStringBuffer()
 	if err != nil {
 		return nil, errors.Update(err)
 	}
+	if len(buf) > 0 && buf[len(buf)-1]&0x80 != 0 {
+		return nil, errors.New("Truncated OID value at offset %d.", offset)
+	}
 
 	value := int32(0)
 	for i := 0; i < len(buf); i++ {
 		b := buf[i] & 0xff
+		if value > math.MaxInt32>>7 {
+			return nil, errors.New("OID value too big at offset %d.", offset)
+		}
 		value <<= 7
 		value += int32(b & 0x7f)
 		if b&0x80 == 0 {
-- 
2.43.0


From bd8fc19d61c503d78d05679a5292030f40c47d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:26 +0000
Subject: [PATCH 05/40] fix: report truncated and empty integers and booleans

---
 asn1/decode.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 96f0b2a..efa6ca0 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -70,7 +70,7 @@ func (a *ASNReader) ReadBoolean() (bool, errors.Error) {
 		return false, errors.New("Invalid boolean length %d at offset %d", l, offset)
 	}
 	b, e := a.ReadByte()
-	if err != nil {
+	if e != nil {
 		return false, errors.Update(e)
 	}
 	if b == 0 {
@@ -226,10 +226,16 @@ func (a *ASNReader) ReadInt() (int, errors.Error) {
 	if l > 4 {
 		return 0, errors.New("Integer length too big %d at offset %d", l, offset)
 	}
+	if l <= 0 {
+		return 0, errors.New("Invalid integer length %d at offset %d", l, offset)
+	}
 
 	var b byte
 	val := int(0)
 	b, err = a.ReadByte()
+	if err != nil {
+		return 0, errors.Update(err)
+	}
 	if b&0x80 > 0 {
 		val = -1
 	}
@@ -290,9 +296,12 @@ func (a *ASNReader) ReadInt64() (int64, errors.Error) {
 	if l > 8 {
 		return 0, errors.New("Integer64 length too big %d at offset %d", l, offset)
 	}
+	if l <= 0 {
+		return 0, errors.New("Invalid integer64 length %d at offset %d", l, offset)
+	}
 
 	val, err := a.readInt64(l)
-	return val, nil
+	return val, errors.Update(err)
 }
 
 func (a *ASNReader) ReadIndifiniteLengthData() ([]byte, errors.Error) {
-- 
2.43.0


From ee728348a190bc382292f05083fe05c855afdc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:02 +0000
Subject: [PATCH 06/40] fix: report values longer than the data they are in

A length beyond the remaining data was padded with zeros (allocating
whatever the message claimed), and length octets that were cut off were
ignored. Sub-readers of empty values also lost their position.
---
 asn1/decode.go | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index efa6ca0..f18a4ec 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -2,6 +2,7 @@ package asn1
 
 import (
 	"bytes"
+	"io"
 	"math"
 
 	"github.com/dufourgilles/emberlib/errors"
@@ -9,12 +10,14 @@ import (
 
 type ASNReader struct {
 	data           *bytes.Reader
+	raw            []byte
+	nested         bool
 	startingOffset int
 	len            int
 }
 
 func NewASNReader(p []byte) *ASNReader {
-	return &ASNReader{data: bytes.NewReader(p), len: len(p), startingOffset: 0}
+	return &ASNReader{data: bytes.NewReader(p), raw: p, len: len(p), startingOffset: 0}
 }
 
 func (a *ASNReader) Len() int {
@@ -30,17 +33,36 @@ func (a *ASNReader) TopOffset() int {
 }
 
 func (a *ASNReader) NewReader(length int) (*ASNReader, errors.Error) {
+	offset := a.TopOffset()
 	if length <= 0 {
-		return NewASNReader([]byte{}), nil
+		newReader := NewASNReader([]byte{})
+		newReader.startingOffset = offset
+		newReader.nested = true
+		return newReader, nil
+	}
+	// Only the outermost value may lack its last byte, which then reads as 0.
+	missing := length - a.Len()
+	if missing > 1 || missing > 0 && a.nested {
+		return nil, errors.New("Length %d exceeds the %d bytes left at offset %d.", length, a.Len(), offset)
+	}
+	if missing <= 0 {
+		// The new reader shares the bytes: copying them at every level would
+		// make the cost of a message grow with its depth.
+		first := a.Offset()
+		a.data.Seek(int64(length), io.SeekCurrent)
+		newReader := NewASNReader(a.raw[first : first+length])
+		newReader.startingOffset = offset
+		newReader.nested = true
+		return newReader, nil
 	}
 	b := make([]byte, length)
-	offset := a.TopOffset()
 	_, err := a.data.Read(b)
 	if err != nil {
 		return nil, errors.New("Failed To read byte at offset %d. %s", a.TopOffset(), err)
 	}
 	newReader := NewASNReader(b)
 	newReader.startingOffset = offset
+	newReader.nested = true
 	return newReader, nil
 }
 
@@ -162,6 +184,9 @@ func (a *ASNReader) ReadSequenceStart(tag uint8) (int, *ASNReader, errors.Error)
 		return -1, a, errors.New("Sequence TAG mismatch at offset %d. Got %d instead of %d", offset, b, tag)
 	}
 	length, err := a.ReadLength()
+	if err != nil {
+		return -1, nil, errors.Update(err)
+	}
 	if length >= 0 {
 		newReader, err := a.NewReader(length)
 
@@ -340,6 +365,8 @@ func (a *ASNReader) readStringBuffer() ([]byte, errors.Error) {
 		return b, nil
 	} else if l == 0 {
 		return nil, nil
+	} else if l > a.Len() {
+		return nil, errors.New("Length %d exceeds the %d bytes left at offset %d.", l, a.Len(), a.TopOffset())
 	}
 	b = make([]byte, l)
 	for i := 0; i < l; i++ {
-- 
2.43.0


From 877b0172eef4dcd90d23968cd233a329af05338c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:18 +0000
Subject: [PATCH 07/40] fix: read every real without looping forever

A zero significand, or one with only its highest bit set, never left the
normalisation loop; wider ones lost bits and an exponent out of range
overwrote the sign.
---
 asn1/decode.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/asn1/decode.go b/asn1/decode.go
index f18a4ec..4297033 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -465,7 +465,20 @@ func (a *ASNReader) ReadReal() (float64, errors.Error) {
 		pos++
 	}
 
+	if len(buf) > 1+int(exponentLength)+8 || significand>>(64-significandShift) != 0 {
+		return math.NaN(), errors.New("Real significand too big at offset %d", offset)
+	}
+	if exponent < -1023 || exponent > 1023 {
+		return math.NaN(), errors.New("Real exponent %d out of range at offset %d", exponent, offset)
+	}
+	if significand == 0 {
+		return 0.0, nil
+	}
+
 	significand = significand << significandShift
+	for significand > uint64(0x001FFFFFFFFFFFFF) {
+		significand >>= 1
+	}
 
 	mask := uint64(0x7FFFF00000000000)
 	for significand&mask == 0 {
-- 
2.43.0


From d261fa68dada4670a3c963ce76858ffe0a3de217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 08/40] fix: decode empty collections and sets of indefinite
 length

The end-of-contents octets right after the start were taken for an
element or a field. A matrix without targets, sources or labels encoded
by this library could not be decoded together with what follows them.
---
 embertree/connection.go        |  5 +++++
 embertree/content_parameter.go |  3 +++
 embertree/elementFactory.go    | 10 ++++++++++
 embertree/function.go          | 15 +++++++++++++++
 embertree/invocation.go        | 10 ++++++++++
 embertree/matrix.go            | 10 ++++++++++
 embertree/matrix_element.go    | 10 ++++++++++
 embertree/node.go              |  5 +++++
 embertree/parameter.go         |  5 +++++
 embertree/root.go              | 12 ++++++++++--
 10 files changed, 83 insertions(+), 2 deletions(-)

diff --git a/embertree/connection.go b/embertree/connection.go
index 506b13a..9679192 100755
--- a/embertree/connection.go
+++ b/embertree/connection.go
@@ -143,6 +143,11 @@ func (c *Connection) Decode(reader *asn1.ASNReader) errors.Error {
 	}
 
 	for connectionReader.Len() > 0 {
+		if end, err := connectionReader.CheckSequenceEnd(); err != nil {
+			return errors.Update(err)
+		} else if end {
+			break
+		}
 		tag, err := connectionReader.Peek()
 		if err != nil {
 			return errors.Update(err)
diff --git a/embertree/content_parameter.go b/embertree/content_parameter.go
index 5308270..7b43257 100755
--- a/embertree/content_parameter.go
+++ b/embertree/content_parameter.go
@@ -338,6 +338,9 @@ func DecodeValue(reader *asn1.ASNReader, ctxt uint8) (*ContentParameter, errors.
 	if pcLength == 0 {
 		return &contentParameter, nil
 	}
+	if end, err := pcReader.CheckSequenceEnd(); end || err != nil {
+		return &contentParameter, errors.Update(err)
+	}
 	pcType, err := pcReader.Peek()
 	if err != nil {
 		return nil, errors.Update(err)
diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index db2e9f8..0a6b030 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -92,6 +92,11 @@ func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader) errors
 		return errors.Update(err)
 	}
 	for childrenReader.Len() > 0 {
+		if end, err := childrenReader.CheckSequenceEnd(); err != nil {
+			return errors.Update(err)
+		} else if end {
+			break
+		}
 		_, childReader, err := childrenReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return errors.Update(err)
@@ -162,6 +167,11 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 		element = NewElement(tag, number, contentCreator)
 	}
 	for elementReader.Len() > 0 {
+		if end, err := elementReader.CheckSequenceEnd(); err != nil {
+			return nil, errors.Update(err)
+		} else if end {
+			break
+		}
 		b, err := elementReader.Peek()
 		if err != nil {
 			return nil, errors.Update(err)
diff --git a/embertree/function.go b/embertree/function.go
index 8471fa7..19d4b46 100755
--- a/embertree/function.go
+++ b/embertree/function.go
@@ -97,6 +97,11 @@ func decodeTupleDescriptions(reader *asn1.ASNReader) ([]*TupleDescription, error
 		return nil, errors.Update(err)
 	}
 	for seqReader.Len() > 0 {
+		if end, err := seqReader.CheckSequenceEnd(); err != nil {
+			return nil, errors.Update(err)
+		} else if end {
+			break
+		}
 		_, argReader, err := seqReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return nil, errors.Update(err)
@@ -158,6 +163,11 @@ func (tuple *TupleDescription) Decode(reader *asn1.ASNReader) errors.Error {
 		return errors.Update(err)
 	}
 	for tupleReader.Len() > 0 {
+		if end, err := tupleReader.CheckSequenceEnd(); err != nil {
+			return errors.Update(err)
+		} else if end {
+			break
+		}
 		peek, err := tupleReader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -244,6 +254,11 @@ func (fc *FunctionContents) Decode(reader *asn1.ASNReader) errors.Error {
 		return errors.Update(err)
 	}
 	for reader.Len() > 0 {
+		if end, err := reader.CheckSequenceEnd(); err != nil {
+			return errors.Update(err)
+		} else if end {
+			break
+		}
 		peek, err := reader.Peek()
 		if err != nil {
 			return errors.Update(err)
diff --git a/embertree/invocation.go b/embertree/invocation.go
index c7f1565..03cceca 100755
--- a/embertree/invocation.go
+++ b/embertree/invocation.go
@@ -70,6 +70,11 @@ func (i *Invocation) Decode(reader *asn1.ASNReader) errors.Error {
 	}
 
 	for invocationReader.Len() > 0 {
+		if end, err := invocationReader.CheckSequenceEnd(); err != nil {
+			return errors.Update(err)
+		} else if end {
+			break
+		}
 		peek, err := invocationReader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -93,6 +98,11 @@ func (i *Invocation) Decode(reader *asn1.ASNReader) errors.Error {
 				return errors.Update(err)
 			}
 			for seqReader.Len() > 0 {
+				if end, err := seqReader.CheckSequenceEnd(); err != nil {
+					return errors.Update(err)
+				} else if end {
+					break
+				}
 				value, err := DecodeValue(seqReader, 0)
 				if err != nil {
 					return errors.Update(err)
diff --git a/embertree/matrix.go b/embertree/matrix.go
index 8cc4036..70df832 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -272,6 +272,11 @@ func (c *MatrixContent) DecodeLabels(reader *asn1.ASNReader) errors.Error {
 		return errors.Update(err)
 	}
 	for seqReader.Len() > 0 {
+		if end, err := seqReader.CheckSequenceEnd(); err != nil {
+			return errors.Update(err)
+		} else if end {
+			break
+		}
 		_, ctxtReader, err := seqReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return errors.Update(err)
@@ -349,6 +354,11 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 	}
 
 	for matrixContentReader.Len() > 0 {
+		if end, err := matrixContentReader.CheckSequenceEnd(); err != nil {
+			return errors.Update(err)
+		} else if end {
+			break
+		}
 		peek, err := matrixContentReader.Peek()
 		if err != nil {
 			return errors.Update(err)
diff --git a/embertree/matrix_element.go b/embertree/matrix_element.go
index 974227b..201ae80 100755
--- a/embertree/matrix_element.go
+++ b/embertree/matrix_element.go
@@ -60,6 +60,11 @@ func DeodeSignals(reader *asn1.ASNReader, ctxt uint8) ([]Signal, errors.Error) {
 	}
 
 	for setReader.Len() > 0 {
+		if end, err := setReader.CheckSequenceEnd(); err != nil {
+			return nil, errors.Update(err)
+		} else if end {
+			break
+		}
 		_, ctxtReader, err := setReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return nil, errors.Update(err)
@@ -154,6 +159,11 @@ func (element *Element) DecodeConnections(reader *asn1.ASNReader) errors.Error {
 		return errors.Update(err)
 	}
 	for setReader.Len() > 0 {
+		if end, err := setReader.CheckSequenceEnd(); err != nil {
+			return errors.Update(err)
+		} else if end {
+			break
+		}
 		_, ctxtReader, err := setReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return errors.Update(err)
diff --git a/embertree/node.go b/embertree/node.go
index 7479e63..c8d9f7e 100755
--- a/embertree/node.go
+++ b/embertree/node.go
@@ -143,6 +143,11 @@ func (nc *NodeContents) Decode(reader *asn1.ASNReader) errors.Error {
 	}
 
 	for reader.Len() > 0 {
+		if end, err := reader.CheckSequenceEnd(); err != nil {
+			return errors.Update(err)
+		} else if end {
+			break
+		}
 		peek, err := reader.Peek()
 		if err != nil {
 			return errors.Update(err)
diff --git a/embertree/parameter.go b/embertree/parameter.go
index 6216a53..76b8844 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -187,6 +187,11 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 	}
 
 	for reader.Len() > 0 {
+		if end, err := reader.CheckSequenceEnd(); err != nil {
+			return errors.Update(err)
+		} else if end {
+			break
+		}
 		peek, err := reader.Peek()
 		if err != nil {
 			return errors.Update(err)
diff --git a/embertree/root.go b/embertree/root.go
index 2cbd180..b9c845f 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -83,11 +83,14 @@ func (root *RootElement) updateElement(element *Element) errors.Error {
 
 func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 	modifiedElement := make(map[string]*Element)
-	_, reader, err := reader.ReadSequenceStart(asn1.Application(0))
+	length, reader, err := reader.ReadSequenceStart(asn1.Application(0))
 	if err != nil {
 		return err
 	}
-	peek, err := reader.Peek()
+	peek := uint8(0)
+	if length != 0 {
+		peek, err = reader.Peek()
+	}
 	if err != nil {
 		return err
 	}
@@ -97,6 +100,11 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 			return errors.Update(err)
 		}
 		for collectionReader.Len() > 0 {
+			if end, err := collectionReader.CheckSequenceEnd(); err != nil {
+				return errors.Update(err)
+			} else if end {
+				break
+			}
 			_, elementReader, err := collectionReader.ReadSequenceStart(asn1.Context(0))
 			if err != nil {
 				return errors.Update(err)
-- 
2.43.0


From c468bf7e4ee9eeef9673144614aa610b9639d292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 09/40] fix: decode matrix labels of definite length and report
 bad ones

The end of the labels was looked for in the enclosing set and the
resulting error was dropped together with the labels.
---
 embertree/matrix.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/embertree/matrix.go b/embertree/matrix.go
index 70df832..5448313 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -298,7 +298,7 @@ func (c *MatrixContent) DecodeLabels(reader *asn1.ASNReader) errors.Error {
 			return errors.Update(err)
 		}
 	}
-	err = reader.ReadSequenceEnd()
+	err = labelReader.ReadSequenceEnd()
 	if err != nil {
 		return errors.Update(err)
 	}
@@ -374,7 +374,10 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 				return errors.Update(err)
 			}
 		} else if peek == labelContext {
-			c.DecodeLabels(matrixContentReader)
+			err = c.DecodeLabels(matrixContentReader)
+			if err != nil {
+				return errors.Update(err)
+			}
 		} else if index == 11 {
 			value, err := DecodeValue(matrixContentReader, index)
 			if err != nil {
-- 
2.43.0


From 9ea9e246a6176bf14dae03f6bda12ebff82c0a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:53 +0000
Subject: [PATCH 10/40] fix: report unknown fields and bad starts instead of
 looping or panicking

DecodeElement, ParameterContents.Decode and MatrixContent.Decode looped
forever on a field they do not know, and a constructed value that could
not be opened was dereferenced in several places.
---
 embertree/connection.go     | 3 +++
 embertree/elementFactory.go | 5 +++++
 embertree/matrix.go         | 5 +++++
 embertree/node.go           | 3 +++
 embertree/parameter.go      | 5 +++++
 5 files changed, 21 insertions(+)

diff --git a/embertree/connection.go b/embertree/connection.go
index 9679192..613bc3d 100755
--- a/embertree/connection.go
+++ b/embertree/connection.go
@@ -154,6 +154,9 @@ func (c *Connection) Decode(reader *asn1.ASNReader) errors.Error {
 		}
 
 		_, ctxtReader, err := connectionReader.ReadSequenceStart(tag)
+		if err != nil {
+			return errors.Update(err)
+		}
 		switch tag {
 		case asn1.Context(1):
 			//Sources
diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index 0a6b030..2c016a9 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -87,6 +87,9 @@ func decodeContents(element *Element, ctxt uint8, reader *asn1.ASNReader) (inter
 
 func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader) errors.Error {
 	_, ctxtReader, err := reader.ReadSequenceStart(ctxt)
+	if err != nil {
+		return errors.Update(err)
+	}
 	_, childrenReader, err := ctxtReader.ReadSequenceStart(asn1.Application(4))
 	if err != nil {
 		return errors.Update(err)
@@ -202,6 +205,8 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 			if err != nil {
 				return nil, errors.Update(err)
 			}
+		} else {
+			return nil, errors.New("Unknown element tag 0x%x at offset %d.", b, elementReader.TopOffset())
 		}
 		end, err := elementReader.CheckSequenceEnd()
 		if end {
diff --git a/embertree/matrix.go b/embertree/matrix.go
index 5448313..c2d6bcc 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -389,6 +389,9 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 			}
 		} else if peek == templateReferenceContext {
 			_, templateReader, err := matrixContentReader.ReadSequenceStart(peek)
+			if err != nil {
+				return errors.Update(err)
+			}
 			templateReference, err := templateReader.ReadOID(asn1.EMBER_RELATIVE_OID)
 			if err != nil {
 				return errors.Update(err)
@@ -398,6 +401,8 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
+		} else {
+			return errors.New("Unknown matrix content tag 0x%x at offset %d.", peek, matrixContentReader.TopOffset())
 		}
 		end, err := matrixContentReader.CheckSequenceEnd()
 		if end {
diff --git a/embertree/node.go b/embertree/node.go
index c8d9f7e..7c8922d 100755
--- a/embertree/node.go
+++ b/embertree/node.go
@@ -187,6 +187,9 @@ func (nc *NodeContents) Decode(reader *asn1.ASNReader) errors.Error {
 		case asn1.Context(5):
 			{
 				_, templateReader, err := reader.ReadSequenceStart(peek)
+				if err != nil {
+					return errors.Update(err)
+				}
 				templateReference, err := templateReader.ReadOID(asn1.EMBER_RELATIVE_OID)
 				if err != nil {
 					return errors.Update(err)
diff --git a/embertree/parameter.go b/embertree/parameter.go
index 76b8844..e14101f 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -208,6 +208,9 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 			}
 		} else if index == 18 {
 			_, templateReader, err := reader.ReadSequenceStart(peek)
+			if err != nil {
+				return errors.Update(err)
+			}
 			templateReference, err := templateReader.ReadOID(asn1.EMBER_RELATIVE_OID)
 			if err != nil {
 				return errors.Update(err)
@@ -217,6 +220,8 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
+		} else {
+			return errors.New("Unknown parameter content tag 0x%x at offset %d.", peek, reader.TopOffset())
 		}
 		end, err := reader.CheckSequenceEnd()
 		if end {
-- 
2.43.0


From 5bc2a6c4ba9ce9ec35a8e0f5b86956d616e1d213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 11/40] fix: refuse qualified elements with an empty path
 instead of panicking

---
 embertree/elementFactory.go    | 3 +++
 embertree/qualified_element.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index 2c016a9..0446bab 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -156,6 +156,9 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 	if err != nil {
 		return nil, errors.Update(err)
 	}
+	if IsQualifiedTag(tag) && len(path) == 0 {
+		return nil, errors.New("Empty path for tag 0x%x at offset %d.", tag, reader.TopOffset())
+	}
 	contentCreator, err := getContentCreator(tag)
 	if err != nil {
 		return nil, errors.Update(err)
diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index 74b8379..1b4273e 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -44,6 +44,9 @@ func NewQualifiedParameter(path asn1.RelativeOID) *Element {
 
 func NewQualifiedMatrix(path asn1.RelativeOID, mtype MatrixType, mode MatrixMode) *Element {
 	q := NewQualifiedElement(QualifiedMatrixApplication, path, NewDefaultMatrixContents)
+	if q == nil {
+		return nil
+	}
 	q.isMatrix = true
 	return q
 }
-- 
2.43.0


From abf676e15db187e24134bb1ee30fba018f990d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 12/40] fix: keep the type and mode of qualified matrices,
 invent no contents

NewQualifiedMatrix ignored its type and mode, and a matrix decoded from a
message without contents got default ones, which then replaced the real
contents of the known matrix.
---
 embertree/elementFactory.go    | 2 ++
 embertree/qualified_element.go | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index 0446bab..6ff1ba7 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -172,6 +172,8 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 	} else {
 		element = NewElement(tag, number, contentCreator)
 	}
+	// The contents are those of the message, if any.
+	element.contents = nil
 	for elementReader.Len() > 0 {
 		if end, err := elementReader.CheckSequenceEnd(); err != nil {
 			return nil, errors.Update(err)
diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index 1b4273e..f00aa2e 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -48,6 +48,11 @@ func NewQualifiedMatrix(path asn1.RelativeOID, mtype MatrixType, mode MatrixMode
 		return nil
 	}
 	q.isMatrix = true
+	content, err := NewMatrixContent(mtype, mode)
+	if err != nil {
+		return nil
+	}
+	q.contents = content
 	return q
 }
 
-- 
2.43.0


From b685ddeb5a133f3e2d3396d503dc0e692d3744fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 13/40] fix: decode qualified functions and function template
 references

---
 embertree/elementFactory.go |  2 ++
 embertree/function.go       | 25 +++++++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index 6ff1ba7..44e3c08 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -21,6 +21,8 @@ func getContentCreator(tag uint8) (ContentCreator, errors.Error) {
 		fallthrough
 	case MatrixApplication:
 		return NewDefaultMatrixContents, nil
+	case QualifiedFunctionApplication:
+		fallthrough
 	case FunctionApplication:
 		return NewFunctionContents, nil
 	default:
diff --git a/embertree/function.go b/embertree/function.go
index 19d4b46..258ad5b 100755
--- a/embertree/function.go
+++ b/embertree/function.go
@@ -300,6 +300,17 @@ func (fc *FunctionContents) Decode(reader *asn1.ASNReader) errors.Error {
 				return errors.Update(err)
 			}
 			break
+		case asn1.Context(4):
+			templateReference, err := ctxtReader.ReadOID(asn1.EMBER_RELATIVE_OID)
+			if err != nil {
+				return errors.Update(err)
+			}
+			fc.templateReference = templateReference
+			err = ctxtReader.ReadSequenceEnd()
+			if err != nil {
+				return errors.Update(err)
+			}
+			break
 		default:
 			return errors.New("Unknown function content tag %d", peek)
 		}
@@ -343,6 +354,20 @@ func (fc *FunctionContents) Encode(writer *asn1.ASNWriter) errors.Error {
 			return errors.Update(err)
 		}
 	}
+	if fc.templateReference != nil {
+		err = writer.StartSequence(asn1.Context(4))
+		if err != nil {
+			return errors.Update(err)
+		}
+		err = writer.WriteRelativeOID(fc.templateReference)
+		if err != nil {
+			return errors.Update(err)
+		}
+		err = writer.EndSequence()
+		if err != nil {
+			return errors.Update(err)
+		}
+	}
 	writer.EndSequence()
 	return nil
 }
-- 
2.43.0


From b47249234cb28b08bd02d0eaa92f179a4de28850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 14/40] fix: decode and copy relative OID values

A matrix with a parameters location could be encoded but not decoded.
---
 embertree/content_parameter.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/embertree/content_parameter.go b/embertree/content_parameter.go
index 7b43257..92a666b 100755
--- a/embertree/content_parameter.go
+++ b/embertree/content_parameter.go
@@ -149,6 +149,13 @@ func (cp *ContentParameter) Set(val *ContentParameter) errors.Error {
 		}
 		cp.SetReal(b)
 		break
+	case ValueTypeOID:
+		b, err := val.GetRelativeOID()
+		if err != nil {
+			return err
+		}
+		cp.SetRelativeOID(b)
+		break
 	}
 	return nil
 }
@@ -383,6 +390,13 @@ func DecodeValue(reader *asn1.ASNReader, ctxt uint8) (*ContentParameter, errors.
 		}
 		contentParameter.SetString(s)
 		break
+	case asn1.EMBER_RELATIVE_OID:
+		oid, err := pcReader.ReadOID(asn1.EMBER_RELATIVE_OID)
+		if err != nil {
+			return nil, errors.Update(err)
+		}
+		contentParameter.SetRelativeOID(oid)
+		break
 	default:
 		return nil, errors.New("Unknown value type %d.", pcType)
 	}
-- 
2.43.0


From 348880786b2cdfb9063b917a7e461876112fa023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 15/40] fix: keep the arguments of a decoded invocation, report
 its errors

The arguments were decoded and dropped, and errors found at the end of a
field were lost to shadowing, in functions and tuples as well.
---
 embertree/function.go   | 10 ++++++++--
 embertree/invocation.go |  6 +++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/embertree/function.go b/embertree/function.go
index 258ad5b..304a221 100755
--- a/embertree/function.go
+++ b/embertree/function.go
@@ -199,7 +199,10 @@ func (tuple *TupleDescription) Decode(reader *asn1.ASNReader) errors.Error {
 			return errors.Update(err)
 		}
 		end, err := tupleReader.CheckSequenceEnd()
-		if end || err != nil {
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
 			break
 		}
 	}
@@ -315,7 +318,10 @@ func (fc *FunctionContents) Decode(reader *asn1.ASNReader) errors.Error {
 			return errors.New("Unknown function content tag %d", peek)
 		}
 		end, err := reader.CheckSequenceEnd()
-		if end || err != nil {
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
 			break
 		}
 	}
diff --git a/embertree/invocation.go b/embertree/invocation.go
index 03cceca..abf85d6 100755
--- a/embertree/invocation.go
+++ b/embertree/invocation.go
@@ -116,6 +116,7 @@ func (i *Invocation) Decode(reader *asn1.ASNReader) errors.Error {
 					return errors.Update(err)
 				}
 			}
+			i.arguments = arguments
 			break
 		default:
 			return errors.New("Invovation decode error: Unknwon tag %d", peek)
@@ -125,7 +126,10 @@ func (i *Invocation) Decode(reader *asn1.ASNReader) errors.Error {
 			return errors.Update(err)
 		}
 		end, err := invocationReader.CheckSequenceEnd()
-		if end || err != nil {
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
 			break
 		}
 	}
-- 
2.43.0


From 8ab3148f7389f93808e4c0930b7574795eca6b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 16/40] fix: encode the children of children

---
 embertree/element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embertree/element.go b/embertree/element.go
index bab11d1..c6a569c 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -256,7 +256,7 @@ func (element *Element) EncodeChildren(writer *asn1.ASNWriter) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		err := child.encode(writer, true)
+		err := child.encode(writer, false)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From becf10cb08b1a18282b10dd6017f63eacef33e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:31 +0000
Subject: [PATCH 17/40] fix: report failures to encode an element of the tree

---
 embertree/function.go | 2 +-
 embertree/node.go     | 2 +-
 embertree/root.go     | 5 ++++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/embertree/function.go b/embertree/function.go
index 304a221..3a10695 100755
--- a/embertree/function.go
+++ b/embertree/function.go
@@ -341,7 +341,7 @@ func (fc *FunctionContents) Encode(writer *asn1.ASNWriter) errors.Error {
 	}
 
 	if fc.description.IsSet() {
-		fc.description.Encode(1, writer)
+		err = fc.description.Encode(1, writer)
 		if err != nil {
 			return errors.Update(err)
 		}
diff --git a/embertree/node.go b/embertree/node.go
index 7c8922d..35ab637 100755
--- a/embertree/node.go
+++ b/embertree/node.go
@@ -89,7 +89,7 @@ func (nc *NodeContents) Encode(writer *asn1.ASNWriter) errors.Error {
 	}
 
 	if nc.description.IsSet() {
-		nc.description.Encode(1, writer)
+		err = nc.description.Encode(1, writer)
 		if err != nil {
 			return errors.Update(err)
 		}
diff --git a/embertree/root.go b/embertree/root.go
index b9c845f..04c23d0 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -155,7 +155,10 @@ func (root *RootElement) Encode(writer *asn1.ASNWriter) errors.Error {
 		writer.StartSequence(asn1.Application(11))
 		for _, element := range root.RootElementCollection {
 			writer.StartSequence(asn1.Context(0))
-			element.Encode(writer)
+			err := element.Encode(writer)
+			if err != nil {
+				return errors.Update(err)
+			}
 			writer.EndSequence()
 		}
 		writer.EndSequence()
-- 
2.43.0


From 5967137c6b7b4870dac0aa220f676948baf71e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:18 +0000
Subject: [PATCH 18/40] fix: compute the path of an element from its current
 place

A path cached before the element or an ancestor was attached stayed wrong,
and siblings could share, and overwrite, the memory of their paths.
---
 embertree/qualified_element.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index f00aa2e..18314fc 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -30,7 +30,7 @@ func NewQualifiedElement(tag uint8, path asn1.RelativeOID, contentCreator Conten
 	if err != nil { return nil }
 	q := NewElement(tag, number, contentCreator)
 	q.isQualified = true
-	q.path = path
+	q.path = append(asn1.RelativeOID{}, path...)
 	return q
 }
 
@@ -61,14 +61,16 @@ func IsQualifiedTag(tag uint8) bool {
 }
 
 func (element *Element) GetPath() asn1.RelativeOID {
-	if len(element.path) <= 0 {
+	// A path that depends on the parents is computed anew, and always copied:
+	// appending to a shared one would change the path of another element.
+	if !element.isQualified {
 		var parentPath = asn1.RelativeOID{}
 		if element.parent != nil {
 			parentPath = element.parent.GetPath()
 		}
-		element.path = append(parentPath, int32(element.Number))
+		return append(parentPath, int32(element.Number))
 	}
-	return element.path
+	return append(asn1.RelativeOID{}, element.path...)
 }
 
 func (element *Element) GetQualifiedDirectoryMsg(listener Listener) *RootElement {
-- 
2.43.0


From 584dbba87c592b8cd9781190f6c30711a36bf1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 19/40] fix: find no parent when a step before the last is
 missing

An element two levels below a known one was attached to that one.
---
 embertree/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embertree/root.go b/embertree/root.go
index 04c23d0..c09ede4 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -48,7 +48,7 @@ func (root *RootElement) GetElementByPath(path asn1.RelativeOID) (*Element,*Elem
 		parent = element
 		element = element.Children[int(path[pos])]
 	}
-	if pos + 1 < len(path) {
+	if pos < len(path) {
 		return nil,nil
 	}
 	return parent,element
-- 
2.43.0


From 42908451ef8014e629aa3b671c6559fd24832a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 20/40] fix: build directory requests a provider can decode

The nested request for a qualified element carried a number, and the
qualified request for an unqualified element a path, under a tag that
asks for the other; the number of a nested branch below a qualified
element is relative to that element.
---
 embertree/element.go           | 13 ++++++++++---
 embertree/qualified_element.go | 16 +++++++++++++++-
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index c6a569c..cb482a1 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -268,13 +268,20 @@ func (element *Element) EncodeChildren(writer *asn1.ASNWriter) errors.Error {
 	return writer.EndSequence()
 }
 
+func (element *Element) dup() *Element {
+	if element.isQualified {
+		return NewQualifiedElement(element.tag, element.path, nil)
+	}
+	return NewElement(element.tag, element.Number, nil)
+}
+
 func (element *Element) getDupBranch(cmd *Element) (*Element, errors.Error) {
 	e := element
-	dupElement := NewElement(e.tag, e.Number, nil)
+	dupElement := e.dup()
 	if cmd != nil {
 		dupElement.AddChild(cmd)
 	}
-	for {
+	for !e.isQualified {
 		parent, err := e.GetParent()
 		if err != nil {
 			return nil, err
@@ -282,7 +289,7 @@ func (element *Element) getDupBranch(cmd *Element) (*Element, errors.Error) {
 		if parent == nil {
 			break
 		}
-		dupParent := NewElement(parent.tag, parent.Number, nil)
+		dupParent := parent.dup()
 		dupParent.AddChild(dupElement)
 		e = parent
 		dupElement = dupParent
diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index 18314fc..b8a1952 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -60,6 +60,20 @@ func IsQualifiedTag(tag uint8) bool {
 	return qualifiedTags[tag] == true
 }
 
+func getQualifiedTag(tag uint8) uint8 {
+	switch tag {
+	case ParameterApplication:
+		return QualifiedParameterApplication
+	case NodeApplication:
+		return QualifiedNodeApplication
+	case MatrixApplication:
+		return QualifiedMatrixApplication
+	case FunctionApplication:
+		return QualifiedFunctionApplication
+	}
+	return tag
+}
+
 func (element *Element) GetPath() asn1.RelativeOID {
 	// A path that depends on the parents is computed anew, and always copied:
 	// appending to a shared one would change the path of another element.
@@ -75,7 +89,7 @@ func (element *Element) GetPath() asn1.RelativeOID {
 
 func (element *Element) GetQualifiedDirectoryMsg(listener Listener) *RootElement {
 	path := element.GetPath()
-	dupElement := NewQualifiedElement(element.tag, path, nil)
+	dupElement := NewQualifiedElement(getQualifiedTag(element.tag), path, nil)
 	cmd := NewCommand(COMMAND_GETDIRECTORY)
 	dupElement.AddChild(cmd)
 	root := NewRoot()
-- 
2.43.0


From 3fc197b4e125d858e9a5505196ae4e4d16a35293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 21/40] fix: update an element named the other way

An element known by number was not updated by a qualified message about
it, nor the other way round.
---
 embertree/element.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/embertree/element.go b/embertree/element.go
index cb482a1..ed98e81 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -117,7 +117,8 @@ func (element *Element) SetContents(contents interface{}) errors.Error {
 
 func (element *Element) Update(newElement *Element) errors.Error {
 	var err errors.Error
-	if element.Number != newElement.Number || element.tag != newElement.tag {
+	// A message may name an element by number or by path.
+	if element.Number != newElement.Number || getQualifiedTag(element.tag) != getQualifiedTag(newElement.tag) {
 		return errors.New("Attempt to update different element Number %d/%d Tag %d/%d", element.Number, newElement.Number, element.tag, newElement.tag)
 	}
 	content := newElement.GetContent()
-- 
2.43.0


From 096172903c8238e25197131b5b5c96a4e5bf611f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:14 +0000
Subject: [PATCH 22/40] fix: update the targets, sources and connections of a
 known matrix

---
 embertree/element.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/embertree/element.go b/embertree/element.go
index ed98e81..930fd52 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -125,6 +125,13 @@ func (element *Element) Update(newElement *Element) errors.Error {
 	if content != nil {
 		element.contents = content.(EmberContents)
 	}
+	if len(newElement.targets) > 0 {
+		element.targets = newElement.targets
+	}
+	if len(newElement.sources) > 0 {
+		element.sources = newElement.sources
+	}
+	element.updateConnections(newElement.connections)
 	for number, newChild := range newElement.Children {
 		child := element.Children[number]
 		if child == nil {
@@ -140,6 +147,30 @@ func (element *Element) Update(newElement *Element) errors.Error {
 	return err
 }
 
+// updateConnections replaces the connections of the targets that connections
+// name and keeps the others.
+func (element *Element) updateConnections(connections []*Connection) {
+	if len(connections) == 0 {
+		return
+	}
+	// The slice may have been handed out.
+	merged := append([]*Connection{}, element.connections...)
+	index := make(map[int32]int)
+	for i, connection := range merged {
+		index[connection.Target] = i
+	}
+	for _, connection := range connections {
+		i, known := index[connection.Target]
+		if known {
+			merged[i] = connection
+		} else {
+			index[connection.Target] = len(merged)
+			merged = append(merged, connection)
+		}
+	}
+	element.connections = merged
+}
+
 func (element *Element) GetContents() (EmberContents, errors.Error) {
 	return element.contents, nil
 }
-- 
2.43.0


From a90624daa3203dbce0fbc00dd646363c9f8569d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:17 +0000
Subject: [PATCH 23/40] fix: notify the parent of an element updated by path

The listeners of a parent were told of a child added by a qualified
message, but not of a child such a message updates.
---
 embertree/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embertree/root.go b/embertree/root.go
index c09ede4..0dd39a8 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -67,7 +67,7 @@ func (root *RootElement) updateQualifiedElement(element *Element) (*Element, err
 	} else {
 		err = currentElement.Update(element)
 	}
-	return nil,err
+	return parent,err
 }
 
 func (root *RootElement) updateElement(element *Element) errors.Error {
-- 
2.43.0


From 7558a516e8e7f9dd74a5b84a985260898fd6f16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 24/40] fix: give the field flags their Glow values

A get-directory command asked for the identifier (1) instead of all
fields (-1).
---
 embertree/command.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/embertree/command.go b/embertree/command.go
index e6631a2..f783ba0 100755
--- a/embertree/command.go
+++ b/embertree/command.go
@@ -17,13 +17,13 @@ type FieldFlags int
 
 const (
 	SparseFieldFlags      FieldFlags = -2
-	ALLFieldFlags         FieldFlags  = iota
-	DefaultFieldFlags     FieldFlags  = iota
-	IdentifierFieldFlags  FieldFlags  = iota
-	DescriptionFieldFlags FieldFlags  = iota
-	TreeFieldFlags        FieldFlags  = iota
-	ValueFieldFlags       FieldFlags  = iota
-	ConnectionsFieldFlags FieldFlags  = iota
+	ALLFieldFlags         FieldFlags  = iota - 2
+	DefaultFieldFlags     FieldFlags  = iota - 2
+	IdentifierFieldFlags  FieldFlags  = iota - 2
+	DescriptionFieldFlags FieldFlags  = iota - 2
+	TreeFieldFlags        FieldFlags  = iota - 2
+	ValueFieldFlags       FieldFlags  = iota - 2
+	ConnectionsFieldFlags FieldFlags  = iota - 2
 )
 
 type CommandContents struct {
-- 
2.43.0


From 2d0880e406df64bd9a4441ec332e280288586856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:23 +0000
Subject: [PATCH 25/40] fix: make roots from NewRoot usable and take no nil
 listener

Decoding into one or adding a listener dereferenced its missing logger or
wrote to a nil map.
---
 embertree/root.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/embertree/root.go b/embertree/root.go
index 0dd39a8..f1c5f90 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -23,7 +23,7 @@ func NewTree() *RootElement {
 }
 
 func NewRoot() *RootElement {
-	return &RootElement{listeners: nil, RootElementCollection: make(map[int]*Element)}
+	return NewTree()
 }
 
 func (root *RootElement) GetElementByNumber(number int) *Element {
@@ -180,7 +180,9 @@ func (r *RootElement) GetDirectoryMsg(listener Listener) (*RootElement, errors.E
 	root := NewRoot()
 	cmd := NewCommand(COMMAND_GETDIRECTORY)
 	root.AddElement(cmd)
-	r.AddListener(listener)
+	if listener != nil {
+		r.AddListener(listener)
+	}
 	return root, nil
 }
 
-- 
2.43.0


From 9dedf75a94038a04864af5f7598df2096b6095f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 26/40] fix: allow listeners to come and go while messages are
 decoded

Adding or removing a listener in one goroutine while another one notifies
them was a concurrent map access, which ends the program.
---
 embertree/element.go | 29 ++++++++++++++++++++++++++---
 embertree/root.go    | 20 ++++++++++++--------
 2 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index 930fd52..c4a4f21 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -2,6 +2,7 @@ package embertree
 
 import (
 	"fmt"
+	"sync"
 
 	. "github.com/dufourgilles/emberlib/logger"
 	"github.com/dufourgilles/emberlib/asn1"
@@ -43,6 +44,7 @@ type Element struct {
 	contents        EmberContents
 	contentsCreator ContentCreator
 	listeners       map[Listener]Listener
+	listenersMutex  sync.Mutex
 	logger Logger
 	// for qualified element
 	isQualified bool
@@ -83,10 +85,14 @@ func (element *Element) CreateContent() interface{} {
 }
 
 func (element *Element) AddListener(listener Listener) {
+	element.listenersMutex.Lock()
+	defer element.listenersMutex.Unlock()
 	element.listeners[listener] = listener
 }
 
 func (element *Element) RemoveListener(listener Listener) {
+	element.listenersMutex.Lock()
+	defer element.listenersMutex.Unlock()
 	delete(element.listeners, listener)
 }
 
@@ -104,11 +110,28 @@ func (element *Element) AddChild(child *Element) errors.Error {
 	return nil
 }
 
-func (element *Element) updateListeners(err errors.Error) {
-	for _, listener := range element.listeners {
-		listener.Receive(element, err)
+// notify calls the listeners without holding the mutex, so that they may add
+// and remove listeners; those removed meanwhile are not called.
+func notify(mutex *sync.Mutex, listeners map[Listener]Listener, node interface{}, err errors.Error) {
+	mutex.Lock()
+	snapshot := make([]Listener, 0, len(listeners))
+	for _, listener := range listeners {
+		snapshot = append(snapshot, listener)
+	}
+	mutex.Unlock()
+	for _, listener := range snapshot {
+		mutex.Lock()
+		_, registered := listeners[listener]
+		mutex.Unlock()
+		if registered {
+			listener.Receive(node, err)
+		}
 	}
 }
+
+func (element *Element) updateListeners(err errors.Error) {
+	notify(&element.listenersMutex, element.listeners, element, err)
+}
 func (element *Element) SetContents(contents interface{}) errors.Error {
 	element.contents = contents.(EmberContents)
 	element.updateListeners(nil)
diff --git a/embertree/root.go b/embertree/root.go
index f1c5f90..eda24d6 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -2,6 +2,7 @@ package embertree
 
 import (
 	"fmt"
+	"sync"
 
 	"github.com/dufourgilles/emberlib/errors"
 	. "github.com/dufourgilles/emberlib/logger"
@@ -12,6 +13,7 @@ type RootElement struct {
 	RootElementCollection map[int]*Element
 	logger Logger
 	listeners             map[Listener]Listener
+	listenersMutex        sync.Mutex
 }
 
 func NewTree() *RootElement {
@@ -136,15 +138,11 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 		}
 	}
 	err = reader.ReadSequenceEnd()
-	for _, listener := range(root.listeners) {
-		root.logger.Debug("Updating root listener.\n")
-		listener.Receive(root, nil)
-	}
+	root.logger.Debug("Updating root listeners.\n")
+	notify(&root.listenersMutex, root.listeners, root, nil)
 	for path,mElement := range(modifiedElement) {
-		for _,listener := range(mElement.listeners) {
-			root.logger.Debug("Updating Element %s listener.\n", path)
-			listener.Receive(mElement, nil)
-		}
+		root.logger.Debug("Updating Element %s listeners.\n", path)
+		mElement.updateListeners(nil)
 	}
 	return errors.Update(err)
 }
@@ -188,15 +186,21 @@ func (r *RootElement) GetDirectoryMsg(listener Listener) (*RootElement, errors.E
 
 func (r *RootElement) AddListener(listener Listener) {
 	r.logger.Debug("Adding Root Listener.\n")
+	r.listenersMutex.Lock()
+	defer r.listenersMutex.Unlock()
 	r.listeners[listener] = listener
 }
 
 func (r *RootElement) RemoveListener(listener Listener) {
 	r.logger.Debug("Removing Root Listener.\n")
+	r.listenersMutex.Lock()
+	defer r.listenersMutex.Unlock()
 	delete(r.listeners, listener)
 }
 
 func (r *RootElement) HasListner(listener Listener) bool {
+	r.listenersMutex.Lock()
+	defer r.listenersMutex.Unlock()
 	return r.listeners[listener] != nil
 }
 
-- 
2.43.0


From 4b45144be653831a5194cc7543114470f188835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:29 +0000
Subject: [PATCH 27/40] fix: show what is set in the text of parameters and
 matrices

The text of a matrix lost its identifier and description, that of a
parameter showed attributes only when they were not set.
---
 embertree/matrix.go    | 10 +++++-----
 embertree/parameter.go | 26 +++++++++++++-------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/embertree/matrix.go b/embertree/matrix.go
index c2d6bcc..89b5258 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -429,17 +429,17 @@ func (c *MatrixContent) ToString() string {
 	}
 	t,err := c.GetType()
 	if t == OneToN {
-		str = fmt.Sprintf(("%s  type: OneToN"))
+		str = fmt.Sprintf("%s  type: OneToN\n", str)
 	} else if t ==  NToN {
-		str = fmt.Sprintf(("%s  type: NToN"))
+		str = fmt.Sprintf("%s  type: NToN\n", str)
 	} else {
-		str = fmt.Sprintf(("%s  type: OneToOne"))
+		str = fmt.Sprintf("%s  type: OneToOne\n", str)
 	}
 	m,err := c.GetMode()
 	if m == Linear {
-		str = fmt.Sprintf(("%s  mode: Linear"))
+		str = fmt.Sprintf("%s  mode: Linear\n", str)
 	} else {
-		str = fmt.Sprintf(("%s  mode: Non-Linear"))
+		str = fmt.Sprintf("%s  mode: Non-Linear\n", str)
 	}
 	return fmt.Sprintf("{\n%s}\n", str)
 }
\ No newline at end of file
diff --git a/embertree/parameter.go b/embertree/parameter.go
index e14101f..4ca27a1 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -246,11 +246,11 @@ func (contents *ParameterContents) ToString() string {
 	}
 	valObject := contents.GetValueObject()
 	if valObject != nil && valObject.isSet {
-		str = fmt.Sprintf("%  svalue: %s\n",str, valObject.ToString())
+		str = fmt.Sprintf("%s  value: %s\n",str, valObject.ToString())
 	}
 	valObject = contents.GetMinimumObject()
 	if valObject != nil && valObject.isSet {
-		str = fmt.Sprintf("%  sminimum: %s\n",str, valObject.ToString())
+		str = fmt.Sprintf("%s  minimum: %s\n",str, valObject.ToString())
 	}
 	valObject = contents.GetMaximumObject()
 	if valObject != nil && valObject.isSet {
@@ -261,27 +261,27 @@ func (contents *ParameterContents) ToString() string {
 		str = fmt.Sprintf("%s  default: %s\n",str, valObject.ToString())
 	}
 	valStr,err = contents.GetAccess()
-	if err != nil {
+	if err == nil {
 		str = fmt.Sprintf("%s  access: %s\n",str,valStr)
 	}
 	valStr,err = contents.GetFormat()
-	if err != nil {
+	if err == nil {
 		str = fmt.Sprintf("%s  format: %s\n",str,valStr)
 	}
 	valStr,err = contents.GetEnumeration()
-	if err != nil {
+	if err == nil {
 		str = fmt.Sprintf("%s  enumeration: %s\n",str,valStr)
 	}
 	valInt,err := contents.GetFactor()
-	if err != nil {
-		str = fmt.Sprintf("%s  factor: %ll\n",str,valInt)
+	if err == nil {
+		str = fmt.Sprintf("%s  factor: %d\n",str,valInt)
 	}
 	valInt,err = contents.GetStep()
-	if err != nil {
-		str = fmt.Sprintf("%s  step: %ll\n",str,valInt)
+	if err == nil {
+		str = fmt.Sprintf("%s  step: %d\n",str,valInt)
 	}
 	valBool,err := contents.GetOnline()
-	if err != nil {
+	if err == nil {
 		if valBool {
 			str = fmt.Sprintf("%s  isonline: true\n",str)
 		} else {
@@ -289,12 +289,12 @@ func (contents *ParameterContents) ToString() string {
 		}
 	}
 	valStr,err = contents.GetType()
-	if err != nil {
+	if err == nil {
 		str = fmt.Sprintf("%s  type: %s\n",str,valStr)
 	}
 	valInt,err = contents.GetStreamIdentifier()
-	if err != nil {
-		str = fmt.Sprintf("%s  streamIdentifier: %ll\n",str,valInt)
+	if err == nil {
+		str = fmt.Sprintf("%s  streamIdentifier: %d\n",str,valInt)
 	}
 	return fmt.Sprintf("{\n%s}\n", str)
 }
\ No newline at end of file
-- 
2.43.0


From ef4b4545c73b734f69f66ab93f191ae70721f34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:06 +0000
Subject: [PATCH 28/40] fix: render paths, identifiers and buffers in linear
 time

Every decoded element is logged with its path, so that a message with a
path of a million numbers kept the decoder busy for minutes.
---
 embertree/content_parameter.go | 23 ++++++-----------------
 embertree/element.go           |  9 +++++----
 2 files changed, 11 insertions(+), 21 deletions(-)

diff --git a/embertree/content_parameter.go b/embertree/content_parameter.go
index 92a666b..fa86780 100755
--- a/embertree/content_parameter.go
+++ b/embertree/content_parameter.go
@@ -2,6 +2,7 @@ package embertree
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/dufourgilles/emberlib/asn1"
 	"github.com/dufourgilles/emberlib/errors"
@@ -74,30 +75,18 @@ func (cp *ContentParameter)ToString() string {
 		i,_ := cp.GetInt()
 		return fmt.Sprintf("%d", i)
 	case ValueTypeOID:
-		str := ""
 		oid,_ := cp.GetRelativeOID()
-		for index,val := range(oid) {
-			if index == 0 {
-				str = fmt.Sprintf("%d",val)
-			} else {
-				str = fmt.Sprintf("%s.%d", str, val)
-			}
-		}
-		return str
+		return Path2String(oid)
 	case ValueTypeReal:
 		r,_ := cp.GetReal()
 		return fmt.Sprintf("%f", r)
 	case ValueTypeBuffer:
 		b,_ := cp.GetBuffer()
-		str := ""
-		for index,x := range(b) {
-			if index == 0 {
-				str = fmt.Sprintf("%x", x)
-			} else {
-				str = fmt.Sprintf("%s%x", str, x)
-			}
+		var str strings.Builder
+		for _,x := range(b) {
+			fmt.Fprintf(&str, "%x", x)
 		}
-		return str
+		return str.String()
 	}
 	return ""
 }
diff --git a/embertree/element.go b/embertree/element.go
index c4a4f21..51e1788 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -2,6 +2,7 @@ package embertree
 
 import (
 	"fmt"
+	"strings"
 	"sync"
 
 	. "github.com/dufourgilles/emberlib/logger"
@@ -366,15 +367,15 @@ func (element *Element) GetDirectoryMsg(listener Listener) (*RootElement, errors
 }
 
 func Path2String(path asn1.RelativeOID) string {
-	str := ""
+	var str strings.Builder
 	for index,number := range(path) {
 		if index == 0 {
-			str = fmt.Sprintf("%d", number)
+			fmt.Fprintf(&str, "%d", number)
 		} else {
-			str = fmt.Sprintf("%s.%d", str, number)
+			fmt.Fprintf(&str, ".%d", number)
 		}
 	}
-	return str
+	return str.String()
 }
 
 func (element *Element)ToString() string {
-- 
2.43.0


From 49d4d6a3bc17d34ad5e94ed7e55c9c89f576cb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 29/40] fix: order the log levels and filter each message by
 its own

The error level equalled the debug level, and everything or nothing was
printed.
---
 logger/logger.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/logger/logger.go b/logger/logger.go
index f86e1e6..096e9dc 100755
--- a/logger/logger.go
+++ b/logger/logger.go
@@ -10,7 +10,7 @@ import (
 type LogLevel uint8
 const (
 
-	ErrorLevel LogLevel = 3
+	ErrorLevel LogLevel = iota
 	WarnLevel LogLevel = iota
 	InfoLevel LogLevel = iota
 	DebugLevel LogLevel = iota
@@ -49,25 +49,25 @@ func (logger *ConsoleLogger)Error(e errors.Error) {
 }
 
 func (logger *ConsoleLogger)Warn(format string, a ...interface{}) {
-	if logger.logLevel >= ErrorLevel {
+	if logger.logLevel >= WarnLevel {
 		fmt.Printf(format, a...)
 	}
 }
 
 func (logger *ConsoleLogger)Info(format string, a ...interface{}) {
-	if logger.logLevel >= ErrorLevel {
+	if logger.logLevel >= InfoLevel {
 		fmt.Printf(format, a...)
 	}
 }
 
 func (logger *ConsoleLogger)Debug(format string, a ...interface{}) {
-	if logger.logLevel >= ErrorLevel {
+	if logger.logLevel >= DebugLevel {
 		fmt.Printf(format, a...)
 	}
 }
 
 func (logger *ConsoleLogger)Debugln(a ...interface{}) {
-	if logger.logLevel >= ErrorLevel {
+	if logger.logLevel >= DebugLevel {
 		fmt.Println(a...)
 	}
 }
-- 
2.43.0


From ad529f65d3f7e1e2bf055046a09431ea8bd1acde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:44 +0000
Subject: [PATCH 30/40] fix: hand out frames without emptying the frame list

---
 socket/frame.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/frame.go b/socket/frame.go
index b9309e7..6773d50 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -191,7 +191,7 @@ func (s *S101FrameList)GetAt(i int) (*bytes.Buffer, errors.Error) {
 	if (i >= s.numFrames || i < 0) {
 		return &bytes.Buffer{}, errors.New("out of bound")
 	}
-	return s.frames[i], nil
+	return bytes.NewBuffer(append([]byte{}, s.frames[i].Bytes()...)), nil
 }
 
 func (s *S101FrameList)GetBytesAt(i int) ([]byte, errors.Error) {
@@ -199,7 +199,7 @@ func (s *S101FrameList)GetBytesAt(i int) ([]byte, errors.Error) {
 		return nil, errors.New("out of bound")
 	}
 	res := make([]byte, s.frames[i].Len())
-	s.frames[i].Read(res)
+	copy(res, s.frames[i].Bytes())
 	return res, nil
 }
 
-- 
2.43.0


From 6343d4ee1a5344a2a2c940d9f2a6182654553256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:47 +0000
Subject: [PATCH 31/40] fix: resynchronise the S101 decoder and drop messages
 that lost a frame

A start or end octet after an escape octet was taken for data, so that the
next frame was lost, and a message with a corrupted or missing frame was
delivered without it.
---
 socket/frame.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/socket/frame.go b/socket/frame.go
index 6773d50..2b66f3e 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -285,6 +285,7 @@ type S101Decoder struct {
 	inbuf bytes.Buffer
 	logger Logger
 	emberbuf bytes.Buffer
+	inMessage bool
 	keepAliveReqHandler PacketHandler
 	keepAliveResHandler PacketHandler
 	emberPacketHandler PacketHandler
@@ -315,14 +316,23 @@ func (decoder *S101Decoder)SetLogger(logger Logger) {
 func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 	for i := 0; i < bufLen; i++ {
 		b := buf[i];
-		if (decoder.escaped) {
+		if decoder.escaped && b != S101_BOF && b != S101_EOF {
 			decoder.inbuf.WriteByte(b ^ S101_XOR);
 			decoder.escaped = false;
 		} else if b == S101_CE {
 			decoder.escaped = true;
 		} else if b == S101_BOF {
+			if decoder.escaped || decoder.inbuf.Len() > 0 {
+				// a frame without its end
+				decoder.dropMessage()
+			}
 			decoder.inbuf.Reset();
 			decoder.escaped = false;
+		} else if b == S101_EOF && decoder.escaped {
+			decoder.inbuf.Reset()
+			decoder.escaped = false
+			decoder.dropMessage()
+			decoder.errorHandler(errors.New("dropping frame cut in an escape sequence"))
 		} else if b == S101_EOF {
 			decoder.logger.Debug("End of Frame - frame size %d.\n", decoder.inbuf.Len())
 			decoder.logger.Debugln(decoder.inbuf)
@@ -339,9 +349,17 @@ func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 	}
 }
 
+// dropMessage gives up the message being received: one that lost a frame
+// must not be delivered.
+func (decoder *S101Decoder)dropMessage() {
+	decoder.emberbuf.Reset()
+	decoder.inMessage = false
+}
+
 func (decoder *S101Decoder)HandleFrame(buffer []byte) errors.Error {
 	decoder.logger.Debug("Frame parsing. total length %d.\n", len(buffer))
 	if !ValidateFrame(bytes.NewReader(buffer)) {
+		decoder.dropMessage()
 		return errors.New("dropping frame with invalid CRC")
 	}
 	var (
@@ -389,16 +407,22 @@ func (decoder *S101Decoder)HandleEmberFrame(frame *bytes.Reader) errors.Error {
 	}
 
 	if emberFrame.Header.Dtd != DTD_GLOW {
+		decoder.dropMessage()
 		return errors.New(fmt.Sprintf("Dropping frame with non-Glow DTD %d.", emberFrame.Header.Dtd))
 	}
 
 	if emberFrame.Header.AppByteLen != 2 {
+		decoder.dropMessage()
 		return errors.New("Frame with unknown DTD length.")
 	}
 
 	if emberFrame.Header.Flags & FLAG_FIRST_MULTI_PACKET != 0 {
 		decoder.logger.Debug("Ember Frame first multi packet.\n")
 		decoder.emberbuf.Reset()
+		decoder.inMessage = true
+	}
+	if !decoder.inMessage {
+		return errors.New("Dropping frame of a message that lost an earlier one.")
 	}
 
 	if emberFrame.Header.Flags & FLAG_EMPTY_PACKET == 0 {
@@ -410,6 +434,7 @@ func (decoder *S101Decoder)HandleEmberFrame(frame *bytes.Reader) errors.Error {
 		emberPacket := make([]byte, decoder.emberbuf.Len())
 		decoder.emberbuf.Read(emberPacket)
 		decoder.emberbuf.Reset()
+		decoder.inMessage = false
 		decoder.emberPacketHandler(emberPacket)
 	}
 	decoder.logger.Debug("Ember Frame parsing complete.\n")
-- 
2.43.0


From c5a9c777b5b376bfdabdadd6f60b20ae0e001b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 32/40] fix: protect the queue of the client's requests

GetDirectory adds to it in any goroutine while iomanager takes from it.
---
 socket/client.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index 6529d4d..2d4f2e4 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -4,6 +4,7 @@ import (
 	"container/list"
 	"fmt"
 	"net"
+	"sync"
 	"time"
 	. "github.com/dufourgilles/emberlib/logger"
 	"github.com/dufourgilles/emberlib/asn1"
@@ -16,6 +17,7 @@ const maxBufferSize = 65536
 
 type packetQueue struct {
 	queue *list.List
+	mutex sync.Mutex
 }
 
 type channelMessage interface {
@@ -31,15 +33,21 @@ func newPacketQueue() *packetQueue {
 }
 
 func (p *packetQueue) size() int {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
 	return p.queue.Len()
 }
 
 func (p *packetQueue) isEmpty() bool {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
 	return p.queue.Len() == 0
 }
 
 func (p *packetQueue) add(msg *embertree.RootElement) errors.Error{
-	if p.size() > maxQueueSize {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	if p.queue.Len() > maxQueueSize {
 		return errors.New("Queue size limit. Drop message.")
 	}
 	p.queue.PushBack(msg)
@@ -47,6 +55,8 @@ func (p *packetQueue) add(msg *embertree.RootElement) errors.Error{
 }
 
 func (p *packetQueue) getNext() (*embertree.RootElement, errors.Error) {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
 	if p.queue.Len() > 0 {
 		qElement :=  p.queue.Front()
 		p.queue.Remove(qElement)
@@ -321,7 +331,7 @@ func (s *S101Client)iomanager() {
 	buffer := make([]byte, maxBufferSize)
 	for s.IsConnected() {
 		// Send messages present in our Q - but no more than max
-		messagesToSend := s.outQ.queue.Len()
+		messagesToSend := s.outQ.size()
 		if messagesToSend > 3 {
 			messagesToSend = 3;
 		}
-- 
2.43.0


From ad193740257e79e2d49247d83f82540efbd64c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:27 +0000
Subject: [PATCH 33/40] fix: answer keep-alives, survive disconnections and
 lost peers

The keep-alive response was queued as something the queue cannot send. A
disconnection between a check and a use of the connection dereferenced nil,
a connection closed by the peer was polled forever, and the deadline for
reading was over before the read started.
---
 socket/client.go | 85 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 67 insertions(+), 18 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index 2d4f2e4..9dbe50e 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -77,6 +77,13 @@ type _TimerCallbacks struct {
 type S101Client struct {
 	stats S101SocketStats
 	conn  net.Conn
+	// connMutex protects conn and ioDone, connectMutex serializes Connect.
+	connMutex sync.Mutex
+	connectMutex sync.Mutex
+	// ioConn is the connection of the running iomanager, which alone uses it,
+	// ioDone is closed at its end.
+	ioConn net.Conn
+	ioDone chan struct{}
 	raddr string
 	outQ  *packetQueue
 	decoder *S101Decoder
@@ -91,10 +98,10 @@ type S101Client struct {
 }
 
 func (s *S101Client)keepAliveReqHandler(kal []byte) errors.Error {
-	// This should go at the head of the queue
+	// iomanager is not sending anything else as it calls this
 	s.logger.Debug("KAL Request Received.\n")
-	s.outQ.queue.PushFront(GetKeepAliveResponse())
-	return nil
+	_, err := s.ioConn.Write(GetKeepAliveResponse().Bytes())
+	return errors.NewError(err)
 }
 
 func (s *S101Client)keepAliveResponseHandler(kal []byte) errors.Error {
@@ -142,34 +149,63 @@ func (s *S101Client)SetLogger(logger Logger) {
 }
 
 func (s *S101Client)Connect(address string, port uint16) errors.Error {
-	var err error
+	s.connectMutex.Lock()
+	defer s.connectMutex.Unlock()
 	if s.IsConnected() {
 		return errors.New("Client already connected to %s:%d", address, port)
 	}
 	s.raddr = fmt.Sprintf("%s:%d", address, port)
-	s.conn, err = net.Dial("tcp", s.raddr)
+	conn, err := net.Dial("tcp", s.raddr)
 	if err != nil {
 		return errors.NewError(err)
 	}
-	go s.iomanager()
+	done := make(chan struct{})
+	s.connMutex.Lock()
+	s.conn = conn
+	previous := s.ioDone
+	s.ioDone = done
+	s.connMutex.Unlock()
+	go s.iomanager(conn, previous, done)
 	return nil
 }
 
 func (s *S101Client)Disconnect() errors.Error {
-	if !s.IsConnected() {
+	s.connMutex.Lock()
+	conn := s.conn
+	s.conn = nil
+	s.connMutex.Unlock()
+	if conn == nil {
 		return errors.New("Client not connected.")
 	}
-	err := s.conn.Close()
-	s.conn = nil
+	err := conn.Close()
 	return errors.NewError(err)
 }
 
 func (s *S101Client)IsConnected() bool {
+	s.connMutex.Lock()
+	defer s.connMutex.Unlock()
 	return s.conn != nil
 }
 
+// isCurrent tells whether conn has been neither disconnected nor replaced.
+func (s *S101Client)isCurrent(conn net.Conn) bool {
+	s.connMutex.Lock()
+	defer s.connMutex.Unlock()
+	return s.conn == conn
+}
+
+// lost disconnects after the peer closed the connection or it failed.
+func (s *S101Client)lost(conn net.Conn) {
+	s.connMutex.Lock()
+	if s.conn == conn {
+		s.conn = nil
+	}
+	s.connMutex.Unlock()
+	conn.Close()
+}
+
 func (s *S101Client)sendBER(data []byte) errors.Error {
-	if !s.IsConnected() {
+	if !s.isCurrent(s.ioConn) {
 		return errors.New("Not connected")
 	}
 	frames := EncodeMessage(data)
@@ -180,7 +216,7 @@ func (s *S101Client)sendBER(data []byte) errors.Error {
 			return errors.Update(err)
 		}
 		var res int
-		res, e := s.conn.Write(message)
+		res, e := s.ioConn.Write(message)
 		if e != nil {
 			s.stats.TxErrors++
 			return errors.NewError(e)
@@ -326,10 +362,16 @@ func (s *S101Client)processBuffer(l int, buffer []byte) {
 	s.decoder.DecodeBuffer(l, buffer)
 }
 
-func (s *S101Client)iomanager() {
+func (s *S101Client)iomanager(conn net.Conn, previous chan struct{}, done chan struct{}) {
+	defer close(done)
+	if previous != nil {
+		// There must be only one at a time.
+		<-previous
+	}
+	s.ioConn = conn
 	s.logger.Debug("iomanager started.\n")
 	buffer := make([]byte, maxBufferSize)
-	for s.IsConnected() {
+	for s.isCurrent(conn) {
 		// Send messages present in our Q - but no more than max
 		messagesToSend := s.outQ.size()
 		if messagesToSend > 3 {
@@ -340,6 +382,9 @@ func (s *S101Client)iomanager() {
 		}
 		count := 0
 		for ; count < messagesToSend; count++ {
+			if !s.isCurrent(conn) {
+				break
+			}
 			root,_ := s.outQ.getNext()
 			if root != nil {
 				err := s.sendBERNode(root)
@@ -351,18 +396,22 @@ func (s *S101Client)iomanager() {
 			}
 		}
 
-		// collect inbound messages during next 100ms
-		deadline := time.Now().Add(100)
-		s.conn.SetReadDeadline(deadline)
+		// collect inbound messages during next 5ms
+		deadline := time.Now().Add(5 * time.Millisecond)
+		conn.SetReadDeadline(deadline)
 		for {
-			len,_ := s.conn.Read(buffer)
+			len,err := conn.Read(buffer)
 			if len > 0 {
 				s.logger.Debug("iomanager received a message of %d bytes.\n", len)
 				s.stats.RxBytes += uint64(len)
 				s.stats.RxPackets++
 				//process the buffer
 				s.processBuffer(len, buffer)
-			} else {
+			}
+			if err != nil {
+				if timeout, ok := err.(net.Error); !ok || !timeout.Timeout() {
+					s.lost(conn)
+				}
 				break
 			}
 		}
-- 
2.43.0


From f28745e12abdc7fdb120e766bc097b00de071f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 34/40] fix: give each directory request a timer of its own

The timers were kept in an unprotected map by element, so that one request
replaced the timer of another; an answered request kept its goroutine for
ever, and the listeners of timers that expired stayed.
---
 socket/client.go | 105 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 79 insertions(+), 26 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index 9dbe50e..1a31c39 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -72,6 +72,10 @@ type _TimerCallbacks struct {
 	timer *time.Timer
 	listener embertree.Listener
 	client *S101Client
+	node embertree.ListeningNode
+	timeoutError errors.Error
+	finished bool
+	mutex sync.Mutex
 }
 
 type S101Client struct {
@@ -89,12 +93,12 @@ type S101Client struct {
 	decoder *S101Decoder
 	msTimeout int
 	logger Logger
-	timerCallbacks map[embertree.ListeningNode]*_TimerCallbacks
+	decoding chan struct{}
+	decodingMutex sync.Mutex
 	getTreeCallback embertree.Listener
 	tree *embertree.RootElement
 	incomingDataChan chan channelMessage
 	outgoingDataChan chan channelMessage
-	freeTimerCallback embertree.Listener
 }
 
 func (s *S101Client)keepAliveReqHandler(kal []byte) errors.Error {
@@ -114,7 +118,11 @@ func (s *S101Client)emberPacketHandler(packet []byte) errors.Error {
 	// This should be a valid EmberRoot.
 	s.logger.Debug("Ember Frame - start decoding.\n")
 	s.logger.Debugln(packet)
+	decoded := make(chan struct{})
+	s.setDecoding(decoded)
 	err := s.tree.Decode(asn1.NewASNReader(packet))
+	s.setDecoding(nil)
+	close(decoded)
 	s.errorHandler(err)
 	return err
 }
@@ -128,7 +136,6 @@ func NewS101Client() *S101Client {
 	client.decoder = NewS101Decoder(client.keepAliveReqHandler,client.keepAliveResponseHandler,client.emberPacketHandler, client.errorHandler )
 	client.stats.Reset()
 	client.logger = NewNullLogger()
-	client.timerCallbacks = make(map[embertree.ListeningNode]*_TimerCallbacks)
 	client.outQ = newPacketQueue()
 	client.tree = embertree.NewTree()
 	client.incomingDataChan = make(chan channelMessage, 100)
@@ -242,36 +249,76 @@ func (s *S101Client)sendBERNode(node *embertree.RootElement) errors.Error {
 }
 
 
+// finish returns true the first time it is called: the request has either
+// been answered or timed out.
+func (t *_TimerCallbacks)finish() bool {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+	if t.finished {
+		return false
+	}
+	t.finished = true
+	if t.timer != nil {
+		t.timer.Stop()
+	}
+	// Remove myself from node
+	t.node.RemoveListener(t)
+	return true
+}
+
 func (t *_TimerCallbacks)Receive(node interface{}, err errors.Error) {
-	treeNode := node.(embertree.ListeningNode)
-	timerCB := t.client.timerCallbacks[treeNode]
-	if timerCB == nil {
+	if t.finish() {
+		t.client.logger.Debug("Timer Stopped.\n")
+	}
+}
+
+func (t *_TimerCallbacks)start(timeout time.Duration) {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+	if t.finished {
 		return
 	}
-	t.client.logger.Debug("Timer Stopped.\n")
-	timerCB.timer.Stop()
-	delete(t.client.timerCallbacks, treeNode)
-	// Remove myself from node
-	treeNode.RemoveListener(t)
+	t.timer = time.AfterFunc(timeout, func() {
+		// The answer may just be on its way to the listeners.
+		if decoding := t.client.getDecoding(); decoding != nil {
+			select {
+			case <-decoding:
+			case <-time.After(timeout):
+			}
+		}
+		if t.finish() {
+			t.client.logger.Debug("Timer Kicked.\n")
+			if t.listener != nil {
+				t.listener.Receive(nil, t.timeoutError)
+			}
+		}
+	})
+	t.client.logger.Debug("Timer running.\n")
 }
 
-func (s *S101Client)runTimer(node *embertree.Element, callback embertree.Listener, timeoutError errors.Error) {
+func (s *S101Client)addTimer(node *embertree.Element, callback embertree.Listener, timeoutError errors.Error) *_TimerCallbacks {
 	var treeNode embertree.ListeningNode
 	if node == nil {
 		treeNode = s.tree
 	} else {
 		treeNode = node
 	}
-	s.logger.Debug("Timer running.\n")
-	freeTimerCallback := &_TimerCallbacks{client: s, timer: time.NewTimer(time.Duration(int64(s.msTimeout)) * time.Millisecond)}
-	treeNode.AddListener(freeTimerCallback)
-	s.timerCallbacks[treeNode] = freeTimerCallback
-	<-s.timerCallbacks[treeNode].timer.C
-	s.logger.Debug("Timer Kicked.\n")
-	callback.Receive(nil, timeoutError)
-	s.logger.Debug("Cleaning Timer callback.\n")
-	delete(s.timerCallbacks, treeNode)
-	treeNode.RemoveListener(s.freeTimerCallback)
+	timerCallback := &_TimerCallbacks{client: s, node: treeNode, listener: callback, timeoutError: timeoutError}
+	treeNode.AddListener(timerCallback)
+	return timerCallback
+}
+
+// getDecoding returns a channel closed at the end of the decoding under way.
+func (s *S101Client)getDecoding() chan struct{} {
+	s.decodingMutex.Lock()
+	defer s.decodingMutex.Unlock()
+	return s.decoding
+}
+
+func (s *S101Client)setDecoding(decoding chan struct{}) {
+	s.decodingMutex.Lock()
+	defer s.decodingMutex.Unlock()
+	s.decoding = decoding
 }
 
 func (s *S101Client)GetDirectory(node *embertree.Element, callback embertree.Listener) errors.Error {
@@ -289,11 +336,17 @@ func (s *S101Client)GetDirectory(node *embertree.Element, callback embertree.Lis
 		s.logger.Debug("GetDirectory.\n",err)
 		return errors.Update(err)
 	}
-	if s.msTimeout > 0 {
-		go s.runTimer(node, callback, timeoutError)
+	if s.msTimeout <= 0 {
+		return s.outQ.add(msg)
 	}
-	
-	return s.outQ.add(msg)
+	timer := s.addTimer(node, callback, timeoutError)
+	err = s.outQ.add(msg)
+	if err != nil {
+		timer.finish()
+		return errors.Update(err)
+	}
+	timer.start(time.Duration(int64(s.msTimeout)) * time.Millisecond)
+	return nil
 }
 
 type _ElementListeners struct {
-- 
2.43.0


From 1074153abe4f5c5d5c9f1f0349e97b6631243321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:45 +0000
Subject: [PATCH 35/40] fix: call the listener of GetTree once, with the whole
 tree

The count of pending requests was changed by several goroutines and reached
zero early, an error was forgotten when other requests were answered, late
answers made the count wrap around, and nodes with more children than the
queue takes were left incomplete.
---
 socket/client.go | 94 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 64 insertions(+), 30 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index 1a31c39..ffb81af 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 	. "github.com/dufourgilles/emberlib/logger"
 	"github.com/dufourgilles/emberlib/asn1"
@@ -352,62 +353,95 @@ func (s *S101Client)GetDirectory(node *embertree.Element, callback embertree.Lis
 type _ElementListeners struct {
 	client *S101Client
 	rootListener *_RoottListeners
+	element *embertree.Element
+	called int32
 }
 
 // getElementCallback
 func (l *_ElementListeners)Receive(node interface{}, err errors.Error) {
-	l.client.logger.Debug("Element Callback.\n")	
-	if err == nil && node != nil {
-		element := node.(*embertree.Element)
-		element.RemoveListener(l)
-		for _,child := range(element.Children) {
-			l.rootListener.IncPendingGetDir()
-			elementCallback := &_ElementListeners{client: l.client, rootListener: l.rootListener}
-			go l.client.GetDirectory(child, elementCallback)
+	if !atomic.CompareAndSwapInt32(&l.called, 0, 1) {
+		return
+	}
+	l.client.logger.Debug("Element Callback.\n")
+	l.element.RemoveListener(l)
+	if err == nil {
+		for _,child := range(l.element.Children) {
+			l.rootListener.IncPendingGetDir(child)
 		}
 	}
-	l.rootListener.DecPendingGetDir(node,err)
+	l.rootListener.DecPendingGetDir(err)
 }
 
+// The number of elements of a tree requested at the same time.
+const maxTreeRequests = 16
+
 type _RoottListeners struct {
 	client *S101Client
-	pendingGetDirectory uint
+	mutex sync.Mutex
+	called int32
+	pendingGetDirectory int
+	waiting []*embertree.Element
+	err errors.Error
 	listener embertree.Listener
 }
 
-func (r *_RoottListeners)IncPendingGetDir() {
-	r.pendingGetDirectory++
+func (r *_RoottListeners)IncPendingGetDir(element *embertree.Element) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+	r.waiting = append(r.waiting, element)
 }
 
-func (r *_RoottListeners)DecPendingGetDir(node interface{}, err errors.Error) {
+func (r *_RoottListeners)DecPendingGetDir(err errors.Error) {
+	r.mutex.Lock()
+	if r.err == nil {
+		r.err = err
+	}
+	if r.err != nil {
+		r.waiting = nil
+	}
 	r.pendingGetDirectory--
-	if r.pendingGetDirectory == 0 {
+	requests := []*embertree.Element{}
+	for len(r.waiting) > 0 && r.pendingGetDirectory < maxTreeRequests {
+		requests = append(requests, r.waiting[0])
+		r.waiting = r.waiting[1:]
+		r.pendingGetDirectory++
+	}
+	done := r.pendingGetDirectory == 0
+	err = r.err
+	r.mutex.Unlock()
+	for _,element := range(requests) {
+		elementCallback := &_ElementListeners{client: r.client, rootListener: r, element: element}
+		e := r.client.GetDirectory(element, elementCallback)
+		if e != nil {
+			elementCallback.Receive(nil, e)
+		}
+	}
+	if done {
 		r.listener.Receive(r.client.tree, err)
 	}
 }
 
-func (r *_RoottListeners)Receive(node interface{}, err errors.Error) {	
-	if err == nil && node != nil {
-		root := node.(*embertree.RootElement)
+func (r *_RoottListeners)Receive(node interface{}, err errors.Error) {
+	if !atomic.CompareAndSwapInt32(&r.called, 0, 1) {
+		return
+	}
+	r.client.tree.RemoveListener(r)
+	if err == nil {
 		r.client.logger.Debug("Root CallBack.\n")
-		r.client.logger.Debug(root.ToString())
-		root.RemoveListener(r)
-		for _,element := range(root.RootElementCollection) {
-			r.IncPendingGetDir()
-			elementCallback := &_ElementListeners{client: r.client, rootListener: r}
-			r.client.logger.Debug("Root Callback GetDir for %s.\n", embertree.Path2String(element.GetPath()))
-			go r.client.GetDirectory(element, elementCallback)
+		for _,element := range(r.client.tree.RootElementCollection) {
+			r.IncPendingGetDir(element)
 		}
 	}
-	if r.pendingGetDirectory == 0 {
-		r.listener.Receive(r.client.tree, err)
-		return
-	}
+	r.DecPendingGetDir(err)
 }
 
 func (s *S101Client)GetTree(listener embertree.Listener) errors.Error {
-	rootCallback := &_RoottListeners{client: s, listener: listener, pendingGetDirectory: 0}
-	return s.GetDirectory(nil, rootCallback)
+	rootCallback := &_RoottListeners{client: s, listener: listener, pendingGetDirectory: 1}
+	err := s.GetDirectory(nil, rootCallback)
+	if err != nil {
+		s.tree.RemoveListener(rootCallback)
+	}
+	return err
 }
 
 func (s *S101Client)processBuffer(l int, buffer []byte) {
-- 
2.43.0


From 7caecb84a1c5191578027fc4302905f66c4a40e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:02 +0000
Subject: [PATCH 36/40] fix: announce the number of exponent octets of a real

Exponents of two octets were written as if they had one, so numbers beyond
2^127 and below 2^-128 read back as others.
---
 asn1/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1/encode.go b/asn1/encode.go
index 0d89925..3841821 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -221,7 +221,7 @@ func (asn *ASNWriter) WriteReal(r float64) errors.Error {
 	significandSize, significandVal := shortenLong(significand)
 
 	asn.writeLength(1 + expSize + significandSize)
-	preamble := uint8(0x80)
+	preamble := uint8(0x80) | uint8(expSize-1)
 	if r < 0 {
 		preamble |= 0x40
 	}
-- 
2.43.0


From ea7ffa66194401adc5b6206ca58429dd9aa3f37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:26 +0000
Subject: [PATCH 37/40] fix: number the fields of matrix contents as Glow does

matrixModeCtx took iota 1, so every field after the type was shifted by
two and the target count shared number 2 with the type.
---
 embertree/matrix.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/embertree/matrix.go b/embertree/matrix.go
index 89b5258..ffc6bda 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -8,15 +8,15 @@ import (
 )
 
 const (
-	matrixTypeCtx               = 2
-	matrixModeCtx               = iota
-	targetCountCtx              = iota
-	sourceCounCtx               = iota
-	maximumTotalConnectsCtx     = iota
-	maximumConnectsPerTargetCtx = iota
-	parametersLocationCtx       = iota
-	gainParameterNumberCtx      = iota
-	matrixContentSize           = iota
+	matrixTypeCtx               = iota + 2
+	matrixModeCtx               = iota + 2
+	targetCountCtx              = iota + 2
+	sourceCounCtx               = iota + 2
+	maximumTotalConnectsCtx     = iota + 2
+	maximumConnectsPerTargetCtx = iota + 2
+	parametersLocationCtx       = iota + 2
+	gainParameterNumberCtx      = iota + 2
+	matrixContentSize           = iota + 2
 )
 
 type MatrixType int8
-- 
2.43.0


From bf04913e176c8898f871f98a9a2c5fb5d3f8cf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:48 +0000
Subject: [PATCH 38/40] fix: a real of indefinite length without contents is
 zero, not a panic

---
 asn1/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 4297033..9e2c579 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -419,7 +419,7 @@ func (a *ASNReader) ReadReal() (float64, errors.Error) {
 	}
 
 	buf, e := a.readStringBuffer()
-	if e != nil || buf == nil {
+	if e != nil || len(buf) == 0 {
 		return 0.0, errors.Update(e)
 	}
 
-- 
2.43.0


From de737e689bf6e45d534bd876dcbc7ef998997649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 39/40] fix: no error is reported to the logger for a valid
 message

---
 socket/client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/socket/client.go b/socket/client.go
index ffb81af..61ebd6b 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -124,7 +124,9 @@ func (s *S101Client)emberPacketHandler(packet []byte) errors.Error {
 	err := s.tree.Decode(asn1.NewASNReader(packet))
 	s.setDecoding(nil)
 	close(decoded)
-	s.errorHandler(err)
+	if err != nil {
+		s.errorHandler(err)
+	}
 	return err
 }
 
-- 
2.43.0


From 68740e5f7084586ff7b96846cd47e1e02e83dcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 40/40] fix: a child that does not fit keeps no other child
 from being updated

---
 embertree/element.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index 51e1788..84e1fb3 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -158,13 +158,15 @@ func (element *Element) Update(newElement *Element) errors.Error {
 	element.updateConnections(newElement.connections)
 	for number, newChild := range newElement.Children {
 		child := element.Children[number]
+		var childErr errors.Error
 		if child == nil {
-			err = element.AddChild(newChild)
+			childErr = element.AddChild(newChild)
 		} else {
-			err = child.Update(newChild)
+			childErr = child.Update(newChild)
 		}
-		if err != nil {
-			break
+		if childErr != nil {
+			// The other children are updated all the same.
+			err = childErr
 		}
 	}
 	element.updateListeners(err)
-- 
2.43.0

