From 8672777ab417dadbcaca1e066122d57f72c1f02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:16 +0000
Subject: [PATCH 01/28] fix: weigh each fraction digit of a number by its power
 of ten

---
 pdf/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index e65b326..0a630ca 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"io"
+	"math"
 	"regexp"
 	"sort"
 	"strconv"
@@ -887,7 +888,7 @@ func (parser *Parser) ReadNumber() Number {
 			}
 
 			if b >= '0' && b <= '9' {
-				number = Number(float64(number) + float64(b - '0') / (10 * float64(i)))
+				number = Number(float64(number) + float64(b - '0') / math.Pow10(i))
 			} else {
 				parser.UnreadByte()
 				break
-- 
2.43.0


From 5def21e67a6b49ad3098dc7f9270b35335ad47fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:18 +0000
Subject: [PATCH 02/28] fix: log a stream that ends before its data as unclosed

---
 pdf/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index 0a630ca..8c63a20 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -913,6 +913,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 	for {
 		b, err := parser.ReadByte()
 		if err != nil {
+			parser.log_error(UnclosedStream)
 			return stream_data.Bytes()
 		}
 
@@ -925,6 +926,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 		if b == '\r' {
 			b, err := parser.ReadByte()
 			if err != nil {
+				parser.log_error(UnclosedStream)
 				return stream_data.Bytes()
 			}
 			// if not new line then put it back cause it is part of the stream data
@@ -963,6 +965,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 		// add first byte of end_buff to stream_data
 		b, err := end_buff.ReadByte()
 		if err != nil {
+			parser.log_error(UnclosedStream)
 			break
 		}
 		stream_data.WriteByte(b)
-- 
2.43.0


From 41a164bcd137b0edc310c097126dae374cbd2102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:56 +0000
Subject: [PATCH 03/28] fix: read markers in full when a read returns fewer
 bytes than asked for

---
 pdf/parser.go  | 6 +++---
 pdf/utility.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 8c63a20..5355536 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -167,7 +167,7 @@ func (parser *Parser) getStartXrefOffset() (int64, bool) {
 	// read in buffer at offset
 	buffer := make([]byte, start_xref_scan_buffer_size)
 	parser.Seek(offset, io.SeekStart)
-	parser.Read(buffer)
+	io.ReadFull(parser, buffer)
 
 	// check for start xref
 	matches := start_xref_regexp.FindAllSubmatch(buffer, -1)
@@ -627,7 +627,7 @@ func (parser *Parser) ReadDictionary(decryptor Decryptor) Dictionary {
 
 	// read start of dictionary markers
 	b := make([]byte, 2)
-	_, err := parser.Read(b)
+	_, err := io.ReadFull(parser, b)
 	if err != nil || string(b) != "<<" {
 		return dictionary
 	}
@@ -940,7 +940,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 	// read first 9 bytes to get started
 	end_buff := bytes.NewBuffer([]byte{})
 	buff := make([]byte, 9)
-	bytes_read, _ := parser.Read(buff)
+	bytes_read, _ := io.ReadFull(parser, buff)
 	if bytes_read > 0 {
 		end_buff.Write(buff[:bytes_read])
 	}
diff --git a/pdf/utility.go b/pdf/utility.go
index a1fe09f..d2798a9 100644
--- a/pdf/utility.go
+++ b/pdf/utility.go
@@ -13,7 +13,7 @@ func ReadInt(reader io.Reader, width int) (int, bool) {
 // ReadInt reads width bytes from reader and returns the int64 value
 func ReadInt64(reader io.Reader, width int) (int64, bool) {
 	data := make([]byte, width)
-	bytes_read, _ := reader.Read(data)
+	bytes_read, _ := io.ReadFull(reader, data)
 	if bytes_read != width {
 		return 0, false
 	}
-- 
2.43.0


From eccd5843eb7f350587971165632d8547facc5cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:58 +0000
Subject: [PATCH 04/28] fix: finish a partial base 85 group with the highest
 digit

---
 pdf/filters.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf/filters.go b/pdf/filters.go
index a67f300..c3ec1ff 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -106,10 +106,10 @@ func ASCII85Decode(data []byte) []byte {
 	for {
 		b, err := reader.ReadByte()
 		if err != nil || b == '~' {
-			// finish partial group by adding zeros
+			// finish partial group by adding the highest digit so that truncation restores the bytes
 			if n > 1 {
 				for m := n; m < 5; m++ {
-					v *= 85
+					v = v * 85 + 84
 				}
 
 				// write result in big endian order
-- 
2.43.0


From 1c5bb813e90c53732473b740de5755d40d4e4188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:54 +0000
Subject: [PATCH 05/28] fix: undo PNG predictors by row tag and whole pixels

---
 pdf/filters.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/pdf/filters.go b/pdf/filters.go
index c3ec1ff..95a9e10 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -318,15 +318,13 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 		d_row_width := row_width
 		row_width++
 
-		// determine the method
-		method := predictor - 10
+		// neighbouring pixels are a whole number of bytes apart
+		pixel_width := (bits_per_component * colors + 7) / 8
 
 		// for each row
 		for r := 0; r < len(data); r += row_width {
-			// optimum predictor allows the method to change each row based on algorithm tag
-			if predictor == 15 {
-				method = int(data[r])
-			}
+			// the algorithm tag of the row decides, whatever the predictor value promises
+			method := int(data[r])
 
 			// calculate start of row in decoded buffer
 			dr := (r / row_width) * (row_width - 1)
@@ -342,8 +340,8 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 				} else if method == 1 {
 					// sub predictor
 					left := 0
-					if dc > 0 {
-						left = int(decoded_data[dr + dc - 1])
+					if dc >= pixel_width {
+						left = int(decoded_data[dr + dc - pixel_width])
 					}
 					decoded_data = append(decoded_data, byte((int(data[r + c]) + left) % 256))
 				} else if method == 2 {
@@ -356,8 +354,8 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 				} else if method == 3 {
 					// avg predictor
 					left := 0
-					if dc > 0 {
-						left = int(decoded_data[dr + dc - 1])
+					if dc >= pixel_width {
+						left = int(decoded_data[dr + dc - pixel_width])
 					}
 					up := 0
 					if dr + dc - d_row_width >= 0 {
@@ -368,16 +366,16 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 				} else if method == 4 {
 					//paeth predictor
 					left := 0
-					if dc > 0 {
-						left = int(decoded_data[dr + dc - 1])
+					if dc >= pixel_width {
+						left = int(decoded_data[dr + dc - pixel_width])
 					}
 					up := 0
 					if dr + dc - d_row_width >= 0 {
 						up = int(decoded_data[dr + dc - d_row_width])
 					}
 					up_left := 0
-					if dr + dc - d_row_width - 1 >= 0 && dc > 0 {
-						up_left = int(decoded_data[dr + dc - d_row_width - 1])
+					if dr - d_row_width >= 0 && dc >= pixel_width {
+						up_left = int(decoded_data[dr + dc - d_row_width - pixel_width])
 					}
 					p := left + up - up_left
 					p_left := int(math.Abs(float64(p - left)))
-- 
2.43.0


From 6e3c2fa94c22642237f30be5d6be88802039af43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:55 +0000
Subject: [PATCH 06/28] fix: pass data through when a predictor's row size is
 not representable

---
 pdf/filters.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdf/filters.go b/pdf/filters.go
index 95a9e10..07cf99e 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -276,6 +276,11 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 		return data
 	}
 
+	// make sure the row size can be computed
+	if colors <= 0 || columns <= 0 || colors > 1 << 29 || columns > 1 << 29 {
+		return data
+	}
+
 	// determine row widths in bytes
 	row_width := (bits_per_component * colors * columns) / 8
 	if (bits_per_component * colors * columns) % 8 > 0 {
-- 
2.43.0


From 41611be9784df314e812710a47b8193144eaf5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:58 +0000
Subject: [PATCH 07/28] fix: refuse a user entry that is too short to compare

---
 pdf/encryption.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 7aa55c4..e145d40 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -274,7 +274,7 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 		}
 
 		// compare to first 16 bytes of U entry
-		if string(u) != string(sh.u[:16]) {
+		if len(sh.u) < 16 || string(u) != string(sh.u[:16]) {
 			return EncryptionPasswordError
 		}
 	}
-- 
2.43.0


From 7ec5f779d8cf344e405e3df296250fb40f95eb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:59 +0000
Subject: [PATCH 08/28] fix: select crypt filters by EFF, by default and by
 reference as the standard says

---
 pdf/encryption.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index e145d40..520ac1b 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -289,14 +289,23 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 	// load additional crypt filters
 	if sh.r == 4 {
 		cf, _ := encrypt.GetDictionary("CF")
-		for k, entry := range cf {
-			if cfd, isDictionary := entry.(Dictionary); isDictionary {
+		for k := range cf {
+			if cfd, isDictionary := cf.GetDictionary(k); isDictionary {
 				if method, ok := cfd.GetName("CFM"); ok {
 					// get optional length
 					length, ok := cfd.GetInt("Length")
 					if !ok {
 						length = sh.length
 					}
+					if length > 16 {
+						// some writers give the number of bits
+						length /= 8
+					}
+					if length < 5 {
+						length = 5
+					} else if length > 16 {
+						length = 16
+					}
 
 					// create filter entry
 					if method == "None" {
@@ -310,6 +319,10 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 			}
 		}
 
+		// data is not encrypted unless a crypt filter is assigned
+		sh.stream_filter = noFilter
+		sh.string_filter = noFilter
+
 		// assign default filter overrides
 		if name, ok := encrypt.GetName("StmF"); ok {
 			if filter, exists := sh.crypt_filters[name]; exists {
@@ -321,7 +334,8 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 				sh.string_filter = filter
 			}
 		}
-		if name, ok := encrypt.GetName("EEF"); ok {
+		sh.file_filter = sh.stream_filter
+		if name, ok := encrypt.GetName("EFF"); ok {
 			if filter, exists := sh.crypt_filters[name]; exists {
 				sh.file_filter = filter
 			}
-- 
2.43.0


From 286dae955481af03d628d2f283318a2566152d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:26 +0000
Subject: [PATCH 09/28] fix: drop the initialization vector and padding of AES
 data

---
 pdf/encryption.go | 16 ++++++++++++----
 pdf/parser.go     | 12 ++++++------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 520ac1b..1ae50df 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -16,7 +16,7 @@ type CryptFilter interface {
 }
 
 type Decryptor interface {
-	Decrypt([]byte)
+	Decrypt([]byte) []byte
 }
 
 // No encryption
@@ -28,7 +28,7 @@ func (c *CryptFilterNone) NewDecryptor(n int, g int) Decryptor {
 
 type DecryptorNone struct {}
 
-func (d *DecryptorNone) Decrypt(data []byte) {}
+func (d *DecryptorNone) Decrypt(data []byte) []byte { return data }
 
 // AES
 type CryptFilterAES struct {
@@ -73,8 +73,9 @@ type DecryptorAES struct {
 	encryption_key []byte
 }
 
-func (d *DecryptorAES) Decrypt(data []byte) {
+func (d *DecryptorAES) Decrypt(data []byte) (decrypted []byte) {
 	// catch crypt block panic
+	decrypted = data
 	defer func() {
 		if err := recover(); err != nil {
 			Debug("recovered from panic: %s", err)
@@ -94,6 +95,12 @@ func (d *DecryptorAES) Decrypt(data []byte) {
 	data = data[aes.BlockSize:]
 	cbc := cipher.NewCBCDecrypter(block, iv)
 	cbc.CryptBlocks(data, data)
+
+	// drop the initialization vector and the padding
+	if padding := int(data[len(data) - 1]); padding >= 1 && padding <= aes.BlockSize {
+		data = data[:len(data) - padding]
+	}
+	return data
 }
 
 // RC4
@@ -136,9 +143,10 @@ type DecryptorRC4 struct {
 	encryption_key []byte
 }
 
-func (d *DecryptorRC4) Decrypt(data []byte) {
+func (d *DecryptorRC4) Decrypt(data []byte) []byte {
 	cipher, _ := rc4.NewCipher(d.encryption_key)
 	cipher.XORKeyStream(data, data)
+	return data
 }
 
 type SecurityHandler struct {
diff --git a/pdf/parser.go b/pdf/parser.go
index 5355536..1c7f78b 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -692,7 +692,7 @@ func (parser *Parser) ReadHexString(decryptor Decryptor) String {
 					s.WriteByte(byte(val))
 				}
 				s_data := []byte(s.String())
-				decryptor.Decrypt(s_data)
+				s_data = decryptor.Decrypt(s_data)
 				return String(s_data)
 			}
 			if !IsHex(b) {
@@ -982,7 +982,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 
 	// decrypt stream
 	stream_data_bytes := stream_data.Bytes()
-	decryptor.Decrypt(stream_data_bytes)
+	stream_data_bytes = decryptor.Decrypt(stream_data_bytes)
 
 	// decode stream
 	for i := 0; i < len(filter_list); i++ {
@@ -1018,7 +1018,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 		if err != nil {
 			parser.log_error(UnclosedString)
 			s_data := []byte(s.String())
-			decryptor.Decrypt(s_data)
+			s_data = decryptor.Decrypt(s_data)
 			return String(s_data)
 		}
 
@@ -1030,7 +1030,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 				parser.log_error(UnclosedStringEscape)
 				s.WriteByte('\\')
 				s_data := []byte(s.String())
-				decryptor.Decrypt(s_data)
+				s_data = decryptor.Decrypt(s_data)
 				return String(s_data)
 			}
 
@@ -1044,7 +1044,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 				if err != nil {
 					parser.log_error(UnclosedStringEscape)
 					s_data := []byte(s.String())
-					decryptor.Decrypt(s_data)
+					s_data = decryptor.Decrypt(s_data)
 					return String(s_data)
 				}
 				// if byte is not a new line then unread it
@@ -1131,7 +1131,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 
 	// return string
 	s_data := []byte(s.String())
-	decryptor.Decrypt(s_data)
+	s_data = decryptor.Decrypt(s_data)
 	return String(s_data)
 }
 
-- 
2.43.0


From 87718d2fb096f6e29879b4e6024359a7c96eb273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:58 +0000
Subject: [PATCH 10/28] fix: keep valid xref entries and repair only broken
 ones

An entry that points to its object was replaced by the last header in the
file, and one that points elsewhere was kept when its number was not read.
A repaired entry takes the generation of the header it now points to.
---
 pdf/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 1c7f78b..4eceae8 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -60,9 +60,15 @@ func (parser *Parser) Load(password string) error {
 	for object_number, object := range objects {
 		if xref_entry, ok := parser.Xref[object_number]; ok {
 			// replace xref entry if it does not point to an object or points to the wrong object
-			parser.Seek(xref_entry.Offset, io.SeekStart)
-			if n, _, ok := parser.ReadObjectHeader(); ok || n != object_number {
+			_, err := parser.Seek(xref_entry.Offset, io.SeekStart)
+			if n, _, ok := parser.ReadObjectHeader(); err != nil || !ok || n != object_number {
 				xref_entry.Offset = object.Offset
+				xref_entry.Generation = object.Generation
+			}
+
+			// make sure we don't decrypt xref streams
+			if object.IsXrefStream && xref_entry.Offset == object.Offset {
+				xref_entry.IsEncrypted = false
 			}
 		} else {
 			// add missing object to xref
-- 
2.43.0


From d0b6288bc15fd5e5ebd5576fbf9f071519137ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:28 +0000
Subject: [PATCH 11/28] fix: read xref streams with default type and survive
 unusable field widths

A type field of width zero stands for objects in use. Negative and huge
widths, and entries that take no space, made the parser panic or loop. The
stream's own entry is kept even if its data is incomplete.
---
 pdf/parser.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 4eceae8..cf423eb 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -283,11 +283,18 @@ func (parser *Parser) loadXrefTable(offsets map[int64]interface{}) {
 }
 
 func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
-	xref_stream_offset := parser.CurrentOffset()
+	// remember location of the xref stream
+	xref_stream_offset := parser.Xref[n].Offset
 
 	// Get the xref stream object
 	object := parser.GetObject(n)
 
+	// dont decrypt xref streams
+	defer func() {
+		parser.Xref[object.Number] = NewXrefEntry(xref_stream_offset, object.Generation, XrefTypeIndirectObject)
+		parser.Xref[object.Number].IsEncrypted = false
+	}()
+
 	// get the stream dictionary which is also the trailer dictionary
 	trailer, ok := object.Value.(Dictionary)
 	if !ok {
@@ -333,6 +340,16 @@ func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 		return
 	}
 
+	// each field must fit in the stream and each entry must take up space
+	for _, w := range []int{type_width, offset_width, generation_width} {
+		if w < 0 || w > len(object.Stream) {
+			return
+		}
+	}
+	if type_width + offset_width + generation_width == 0 {
+		return
+	}
+
 	// parse xref subsections
 	data_reader := bytes.NewReader(object.Stream)
 	for i := 0; i < len(index) - 1; i += 2 {
@@ -352,6 +369,10 @@ func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 			if !ok {
 				return
 			}
+			if type_width == 0 {
+				// type defaults to in use object
+				xref_type = XrefTypeIndirectObject
+			}
 			offset, ok := ReadInt64(data_reader, offset_width)
 			if !ok {
 				return
@@ -368,10 +389,6 @@ func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 			parser.Xref[object_number] = NewXrefEntry(offset, generation, xref_type)
 		}
 	}
-
-	// dont decrypt xref streams
-	parser.Xref[object.Number] = NewXrefEntry(xref_stream_offset, object.Generation, XrefTypeIndirectObject)
-	parser.Xref[object.Number].IsEncrypted = false
 }
 
 func (parser *Parser) GetObject(number int) *IndirectObject {
-- 
2.43.0


From 0c14979c5dece3650a7587318ead93748fad0707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:08 +0000
Subject: [PATCH 12/28] fix: take only complete object headers for objects

---
 pdf/parser.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index cf423eb..e0c012f 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -141,16 +141,16 @@ func (parser *Parser) findObjects() map[int]*XrefEntry {
 		parser.Seek(offset + int64(index[0]), io.SeekStart)
 
 		// get object number, generation
-		n, g, _ := parser.ReadObjectHeader()
-
-		// add xref entry
-		objects[n] = NewXrefEntry(offset + int64(index[0]), g, XrefTypeIndirectObject)
-
-		// determine if object is xref stream
-		d := parser.ReadDictionary(noDecryptor)
-		if t, ok := d.GetName("Type"); ok && t == "XRef" {
-			objects[n].IsXrefStream = true
-			objects[n].IsEncrypted = false
+		if n, g, ok := parser.ReadObjectHeader(); ok {
+			// add xref entry
+			objects[n] = NewXrefEntry(offset + int64(index[0]), g, XrefTypeIndirectObject)
+
+			// determine if object is xref stream
+			d := parser.ReadDictionary(noDecryptor)
+			if t, ok := d.GetName("Type"); ok && t == "XRef" {
+				objects[n].IsXrefStream = true
+				objects[n].IsEncrypted = false
+			}
 		}
 
 		// seek to end of object start marker
-- 
2.43.0


From 100a3f1dbf9653d9e41c1c731580d0230926b9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:01 +0000
Subject: [PATCH 13/28] fix: resolve references without decoding streams

A reference in a stream dictionary that leads back to the stream made
reading it recurse without end. Values are now resolved without their
streams, and an offset that cannot be sought yields null.
---
 pdf/parser.go    | 12 +++++++++++-
 pdf/reference.go | 11 ++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index e0c012f..14ae350 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -392,6 +392,11 @@ func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 }
 
 func (parser *Parser) GetObject(number int) *IndirectObject {
+	return parser.getObject(number, true)
+}
+
+// getObject reads an object, the stream is only read and decoded if asked for
+func (parser *Parser) getObject(number int, read_stream bool) *IndirectObject {
 	object := NewIndirectObject(number)
 
 	if xref_entry, ok := parser.Xref[number]; ok {
@@ -400,7 +405,9 @@ func (parser *Parser) GetObject(number int) *IndirectObject {
 			object.Generation = xref_entry.Generation
 
 			// seek to start of object
-			parser.Seek(xref_entry.Offset, io.SeekStart)
+			if _, err := parser.Seek(xref_entry.Offset, io.SeekStart); err != nil {
+				return object
+			}
 
 			// skip object header
 			parser.ReadObjectHeader()
@@ -414,6 +421,9 @@ func (parser *Parser) GetObject(number int) *IndirectObject {
 
 			// get the value of the object
 			object.Value, _ = parser.ReadObject(string_decryptor)
+			if !read_stream {
+				return object
+			}
 
 			// get next keyword
 			if keyword := parser.ReadKeyword(); keyword == KEYWORD_STREAM {
diff --git a/pdf/reference.go b/pdf/reference.go
index 20fd52b..6bf8b52 100644
--- a/pdf/reference.go
+++ b/pdf/reference.go
@@ -40,10 +40,15 @@ func (reference *Reference) ResolveStream() []byte {
 	// resolve the referenced object value
 	object := reference.resolve(map[int]interface{}{})
 
+	// read the stream of the resolved object unless it is circular
+	if object.Value != KEYWORD_NULL {
+		object = reference.parser.GetObject(object.Number)
+	}
+
 	// revert offset
 	reference.parser.Seek(current_offset, io.SeekStart)
 
-	// return the resolved object value
+	// return the resolved object stream
 	return object.Stream
 }
 
@@ -54,8 +59,8 @@ func (reference *Reference) resolve(resolved_references map[int]interface{}) *In
 	}
 	resolved_references[reference.Number] = nil
 
-	// use parser to get object
-	object := reference.parser.GetObject(reference.Number)
+	// use parser to get object value, its stream may depend on other references
+	object := reference.parser.getObject(reference.Number, false)
 
 	// recursively resolve references
 	if ref, ok := object.Value.(*Reference); ok {
-- 
2.43.0


From 057195d820f363175a6e19aae9b0a17cd9051ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:46 +0000
Subject: [PATCH 14/28] fix: report a stream only when the reference leads to
 one

Contents, XFA and JS entries that refer to an array or string were taken
for empty streams and their data was lost.
---
 pdf/array.go      | 4 +++-
 pdf/dictionary.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdf/array.go b/pdf/array.go
index 966d3b0..247b122 100644
--- a/pdf/array.go
+++ b/pdf/array.go
@@ -97,7 +97,9 @@ func (a Array) GetObject(index int) (Object, bool) {
 func (a Array) GetStream(index int) ([]byte, bool) {
 	if index >= 0 && index < len(a) {
 		if reference, ok := a[index].(*Reference); ok {
-			return reference.ResolveStream(), true
+			if stream := reference.ResolveStream(); stream != nil {
+				return stream, true
+			}
 		}
 	}
 	return []byte{}, false
diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index 6e0e78c..89cafb4 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -166,7 +166,9 @@ func (d Dictionary) GetReference(key string) (*Reference, bool) {
 func (d Dictionary) GetStream(key string) ([]byte, bool) {
 	if object, ok := d[key]; ok {
 		if reference, ok := object.(*Reference); ok {
-			return reference.ResolveStream(), true
+			if stream := reference.ResolveStream(); stream != nil {
+				return stream, true
+			}
 		}
 	}
 	return []byte{}, false
-- 
2.43.0


From 60be049bb2b5f9e01acc67ed70d1e998ce46e111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:35 +0000
Subject: [PATCH 15/28] fix: extract objects that are arrays and actions
 chained by Next

Annotations held directly by an array object, and files and commands of
actions that run after another one, were not extracted.
---
 pdf/object.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pdf/object.go b/pdf/object.go
index bda1c2d..3297aa3 100644
--- a/pdf/object.go
+++ b/pdf/object.go
@@ -31,10 +31,7 @@ func (object *IndirectObject) String() string {
 }
 
 func (object *IndirectObject) Extract(output *Output) {
-	// get object dictionary
-	if d, ok := object.Value.(Dictionary); ok {
-		extract(d, output)
-	}
+	extract(object.Value, output)
 }
 
 func extract(o Object, output *Output) {
@@ -58,6 +55,17 @@ func extract(o Object, output *Output) {
 			}
 		}
 
+		// dump next actions
+		if next, ok := d.GetDictionary("Next"); ok {
+			Action(next).Extract(output)
+		} else if next, ok := d.GetArray("Next"); ok {
+			for i := range next {
+				if a, ok := next.GetDictionary(i); ok {
+					Action(a).Extract(output)
+				}
+			}
+		}
+
 		// dump forms
 		if xfa, ok := d.GetStream("XFA"); ok {
 			output.DumpFile("form.xml", xfa)
-- 
2.43.0


From 4aaeca1df240f905d9d1889d9faab093bff9be28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:36 +0000
Subject: [PATCH 16/28] fix: log the command of a launch action that names its
 file directly

---
 pdf/action.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf/action.go b/pdf/action.go
index 0bcfdfb..2ed7fb6 100644
--- a/pdf/action.go
+++ b/pdf/action.go
@@ -16,6 +16,9 @@ func (a Action) Extract(output *Output) {
 
 	// filespecification can be in either F or Win[F]
 	if f, ok := d.GetString("F"); ok {
+		if isCommand {
+			fmt.Fprintln(output.Commands, f)
+		}
 		fmt.Fprintf(output.Files, "%s:%s\n", unknownHash, f)
 	} else if f, ok := d.GetDictionary("F"); ok {
 		File(f).Extract(output, isCommand)
-- 
2.43.0


From 31aa74be81cdcee72879a72c8077efc6120eab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:36 +0000
Subject: [PATCH 17/28] fix: recognize URL file specifications and log bare
 commands without a trailing space

The file system of a file specification is a name, not a string.
---
 pdf/file.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdf/file.go b/pdf/file.go
index 17ef598..7c70a84 100644
--- a/pdf/file.go
+++ b/pdf/file.go
@@ -12,7 +12,10 @@ func (file File) Extract(output *Output, isCommand bool) {
 	d := Dictionary(file)
 
 	// file specification can be a url or file
-	fs, _ := d.GetString("FS")
+	fs, ok := d.GetName("FS")
+	if !ok {
+		fs, _ = d.GetString("FS")
+	}
 	if fs == "URL" {
 		if f, ok := d.GetString("F"); ok {
 			fmt.Fprintln(output.URLs, f)
@@ -36,7 +39,7 @@ func (file File) Extract(output *Output, isCommand bool) {
 		}
 	} else if f, ok := d.GetString("F"); ok {
 		if isCommand {
-			fmt.Fprintf(output.Commands, "%s %s\n", f, p)
+			fmt.Fprintln(output.Commands, f)
 		}
 		fmt.Fprintf(output.Files, "%s:%s\n", unknownHash, f)
 	}
-- 
2.43.0


From 93a89de5c5cf13f192ee616254b98997f8fc0f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:14 +0000
Subject: [PATCH 18/28] fix: show every string of a positioned text array

Strings need not alternate with numbers.
---
 pdf/page.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/page.go b/pdf/page.go
index f1abfaa..b94cd2d 100644
--- a/pdf/page.go
+++ b/pdf/page.go
@@ -72,7 +72,7 @@ func (page Page) extract(output *Output, font_map map[string]*Font, contents []b
 					// decode positioned text with current font
 					var sb strings.Builder
 					a, _ := operands.GetArray(len(operands) - 1)
-					for i := 0; i < len(a); i += 2 {
+					for i := range a {
 						s, _ := a.GetString(i)
 						sb.WriteString(string(s))
 					}
-- 
2.43.0


From 9b3e243b50b52de382c772e9938ca09523f3e51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:14 +0000
Subject: [PATCH 19/28] fix: read the content streams of a page as one

A text object that continues in the next stream lost its text and font.
---
 pdf/page.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdf/page.go b/pdf/page.go
index b94cd2d..458b3d4 100644
--- a/pdf/page.go
+++ b/pdf/page.go
@@ -24,11 +24,15 @@ func (page Page) Extract(output *Output) {
 	if contents, ok := d.GetStream("Contents"); ok {
 		page.extract(output, font_map, contents)
 	} else if contents_array, ok := d.GetArray("Contents"); ok {
+		// streams may be divided anywhere between two tokens
+		var contents bytes.Buffer
 		for i := range contents_array {
-			if contents, ok := contents_array.GetStream(i); ok {
-				page.extract(output, font_map, contents)
+			if part, ok := contents_array.GetStream(i); ok {
+				contents.Write(part)
+				contents.WriteByte('\n')
 			}
 		}
+		page.extract(output, font_map, contents.Bytes())
 	}
 }
 
-- 
2.43.0


From 66c3aa2f4a8382e958681cd890f5535c12969fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:14 +0000
Subject: [PATCH 20/28] fix: keep an incomplete character code at the end of a
 text

---
 pdf/font.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdf/font.go b/pdf/font.go
index 6f911f1..af4a8b1 100644
--- a/pdf/font.go
+++ b/pdf/font.go
@@ -79,7 +79,12 @@ func NewFont(d Dictionary) *Font {
 
 func (font *Font) Decode(b []byte) string {
 	var s strings.Builder
-	for i := 0; i + font.Width <= len(b); i += font.Width {
+	for i := 0; i < len(b); i += font.Width {
+		// pass through an incomplete code at the end
+		if i + font.Width > len(b) {
+			s.Write(b[i:])
+			break
+		}
 		bs := b[i:i + font.Width]
 		k := BytesToInt(bs)
 		if v, ok := font.Cmap[k]; ok {
-- 
2.43.0


From 16d15590d555a47a4322a0b905dd0170e31048c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:33 +0000
Subject: [PATCH 21/28] fix: advance the values of character ranges, read
 listed values and do not expand ranges

---
 pdf/font.go | 63 +++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 14 deletions(-)

diff --git a/pdf/font.go b/pdf/font.go
index af4a8b1..ab98e06 100644
--- a/pdf/font.go
+++ b/pdf/font.go
@@ -5,11 +5,30 @@ import (
 	"strings"
 )
 
-var FontDefault *Font = &Font{map[int]string{}, 1}
+var FontDefault *Font = &Font{map[int]string{}, 1, nil}
 
 type Font struct {
 	Cmap map[int]string
 	Width int
+	ranges []cmapRange
+}
+
+// cmapRange maps consecutive codes to consecutive values
+type cmapRange struct {
+	start int
+	end int
+	value []byte
+}
+
+// get returns the value of the code at distance n from the start of the range
+func (r *cmapRange) get(n int) string {
+	value := append([]byte{}, r.value...)
+	for i := len(value) - 1; i >= 0 && n > 0; i-- {
+		n += int(value[i])
+		value[i] = byte(n)
+		n >>= 8
+	}
+	return string(value)
 }
 
 func NewFont(d Dictionary) *Font {
@@ -17,7 +36,7 @@ func NewFont(d Dictionary) *Font {
 	cmap := []byte(cmap_string)
 
 	// create new font object
-	font := &Font{map[int]string{}, 1}
+	font := &Font{map[int]string{}, 1, nil}
 
 	// create parser for parsing cmap
 	parser := NewParser(bytes.NewReader(cmap), nil)
@@ -45,14 +64,19 @@ func NewFont(d Dictionary) *Font {
 				}
 				end := BytesToInt([]byte(end_b))
 
-				value := parser.ReadHexString(noDecryptor)
-				if value == "" {
+				// codes map to consecutive values or to one value each
+				value, _ := parser.ReadObject(noDecryptor)
+				if values, ok := value.(Array); ok {
+					for j := 0; j < len(values) && j <= end - start; j++ {
+						if v, ok := values.GetString(j); ok {
+							font.Cmap[start + j] = v
+						}
+					}
+				} else if v, ok := value.(String); ok && v != "" {
+					font.ranges = append(font.ranges, cmapRange{start, end, []byte(v)})
+				} else {
 					break
 				}
-
-				for j := start; j <= end; j++ {
-					font.Cmap[j] = string(value)
-				}
 			}
 		} else if command == KEYWORD_BEGIN_BF_CHAR {
 			count, _ := operands.GetInt(len(operands) - 1)
@@ -86,12 +110,23 @@ func (font *Font) Decode(b []byte) string {
 			break
 		}
 		bs := b[i:i + font.Width]
-		k := BytesToInt(bs)
-		if v, ok := font.Cmap[k]; ok {
-			s.WriteString(v)
-		} else {
-			s.WriteString(string(bs))
-		}
+		s.WriteString(font.decode(bs))
 	}
 	return s.String()
 }
+
+// decode returns the value of a single code, unmapped codes stand for themselves
+func (font *Font) decode(code []byte) string {
+	k := BytesToInt(code)
+	if v, ok := font.Cmap[k]; ok {
+		return v
+	}
+
+	// later ranges override earlier ones
+	for i := len(font.ranges) - 1; i >= 0; i-- {
+		if r := &font.ranges[i]; k >= r.start && k <= r.end {
+			return r.get(k - r.start)
+		}
+	}
+	return string(code)
+}
-- 
2.43.0


From 683c21ee7f8f88862846fd94123f4c12859e1e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:24 +0000
Subject: [PATCH 22/28] fix: visit every node of a page or name tree once

---
 pdf/dictionary.go | 60 ++++++++++++++++++++++++++---------------------
 pdf/reference.go  | 10 +++++---
 2 files changed, 40 insertions(+), 30 deletions(-)

diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index 89cafb4..45ae7d3 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -75,8 +75,9 @@ func (d Dictionary) GetName(key string) (string, bool) {
 }
 
 func (d Dictionary) GetNameTreeMap(key string) Array {
-	if root, ok := d.GetDictionary(key); ok {
-		return root.getNameTreeMap(map[int]interface{}{})
+	resolved_kids := map[int]interface{}{}
+	if root, ok := resolveKid(d[key], resolved_kids); ok {
+		return root.getNameTreeMap(resolved_kids)
 	}
 	return Array{}
 }
@@ -86,20 +87,17 @@ func (d Dictionary) getNameTreeMap(resolved_kids map[int]interface{}) Array {
 	if names, ok := d.GetArray("Names"); ok {
 		// append names to name tree map
 		nameTreeMap = append(nameTreeMap, names...)
+
+		// keep later names and values paired when a value is missing
+		if len(names) % 2 != 0 {
+			nameTreeMap = append(nameTreeMap, KEYWORD_NULL)
+		}
 	}
 	if kids, ok := d.GetArray("Kids"); ok {
 		for i := range kids {
-			// prevent infinite resolve reference loop
-			if r, ok := kids[i].(*Reference); ok {
-				if _, resolved := resolved_kids[r.Number]; resolved {
-					continue
-				}
-				resolved_kids[r.Number] = nil
+			if kid, ok := resolveKid(kids[i], resolved_kids); ok {
+				nameTreeMap = append(nameTreeMap, kid.getNameTreeMap(resolved_kids)...)
 			}
-
-			// get child dictionary
-			kid, _ := kids.GetDictionary(i)
-			nameTreeMap = append(nameTreeMap, kid.getNameTreeMap(resolved_kids)...)
 		}
 	}
 	return nameTreeMap
@@ -125,8 +123,9 @@ func (d Dictionary) GetObject(key string) (Object, bool) {
 }
 
 func (d Dictionary) GetPageTree(key string) ([]Dictionary, bool) {
-	if pageTree, ok := d.GetDictionary(key); ok {
-		return pageTree.ResolveKids(map[int]interface{}{}), true
+	resolved_kids := map[int]interface{}{}
+	if pageTree, ok := resolveKid(d[key], resolved_kids); ok {
+		return pageTree.ResolveKids(resolved_kids), true
 	}
 	return []Dictionary{}, false
 }
@@ -135,25 +134,32 @@ func (d Dictionary) ResolveKids(resolved_kids map[int]interface{}) []Dictionary
 	kids_list := []Dictionary{d}
 	if kids, ok := d.GetArray("Kids"); ok {
 		for i := range kids {
-			if r, ok := kids[i].(*Reference); ok {
-				// ignore circular references
-				if _, resolved := resolved_kids[r.Number]; resolved {
-					continue
-				}
-				resolved_kids[r.Number] = nil
-
-				// resolve
-				object := r.Resolve()
-				if kid_d, ok := object.(Dictionary); ok {
-					// recursively resolve kids
-					kids_list = append(kids_list, kid_d.ResolveKids(resolved_kids)...)
-				}
+			if kid, ok := resolveKid(kids[i], resolved_kids); ok {
+				// recursively resolve kids
+				kids_list = append(kids_list, kid.ResolveKids(resolved_kids)...)
 			}
 		}
 	}
 	return kids_list
 }
 
+// resolveKid returns the dictionary of a tree node unless the node is already in resolved_kids
+func resolveKid(kid Object, resolved_kids map[int]interface{}) (Dictionary, bool) {
+	if r, ok := kid.(*Reference); ok {
+		// different references can lead to the same node
+		object := r.resolveObject()
+
+		// ignore circular references
+		if _, resolved := resolved_kids[object.Number]; resolved {
+			return nil, false
+		}
+		resolved_kids[object.Number] = nil
+		kid = object.Value
+	}
+	d, ok := kid.(Dictionary)
+	return d, ok
+}
+
 func (d Dictionary) GetReference(key string) (*Reference, bool) {
 	if object, ok := d[key]; ok {
 		if reference, ok := object.(*Reference); ok {
diff --git a/pdf/reference.go b/pdf/reference.go
index 6bf8b52..1342a35 100644
--- a/pdf/reference.go
+++ b/pdf/reference.go
@@ -20,6 +20,12 @@ func (reference *Reference) String() string {
 }
 
 func (reference *Reference) Resolve() Object {
+	// return the resolved object value
+	return reference.resolveObject().Value
+}
+
+// resolveObject returns the object the reference leads to
+func (reference *Reference) resolveObject() *IndirectObject {
 	// save current offset so we can come back
 	current_offset := reference.parser.CurrentOffset()
 
@@ -28,9 +34,7 @@ func (reference *Reference) Resolve() Object {
 
 	// revert offset
 	reference.parser.Seek(current_offset, io.SeekStart)
-
-	// return the resolved object value
-	return object.Value
+	return object
 }
 
 func (reference *Reference) ResolveStream() []byte {
-- 
2.43.0


From 7c21c4ade1ee4ba146e29bd3cb552f448c6b4fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:12 +0000
Subject: [PATCH 23/28] fix: do not require the verbose flag to be set by users
 of the library

---
 pdf/logger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/logger.go b/pdf/logger.go
index 3349f53..ac20be5 100644
--- a/pdf/logger.go
+++ b/pdf/logger.go
@@ -8,7 +8,7 @@ import (
 var Verbose *bool
 
 func Debug(format string, a ...interface{}) {
-	if *Verbose {
+	if Verbose != nil && *Verbose {
 		if len(a) > 0 {
 			fmt.Fprintf(os.Stderr, format, a...)
 			fmt.Fprintln(os.Stderr, "")
-- 
2.43.0


From b3b2f161b850df6f8decc9db7c3175892c9bc252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:12 +0000
Subject: [PATCH 24/28] fix: close the error log

---
 pdf/output.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/output.go b/pdf/output.go
index d8b0066..fe1f173 100644
--- a/pdf/output.go
+++ b/pdf/output.go
@@ -71,7 +71,7 @@ func (output *Output) Close() {
 		output.Commands.Close()
 	}
 	if output.Errors != nil {
-		output.Files.Close()
+		output.Errors.Close()
 	}
 	if output.Files != nil {
 		output.Files.Close()
-- 
2.43.0


From 0d3e41ef645906d54cae6b2b404abaa48773a05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:12 +0000
Subject: [PATCH 25/28] fix: return errors of replacing the output directory

---
 pdf/output.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdf/output.go b/pdf/output.go
index fe1f173..4cad377 100644
--- a/pdf/output.go
+++ b/pdf/output.go
@@ -26,8 +26,12 @@ func NewOutput(directory string) (output *Output, err error) {
 	output.Directory = directory
 
 	// create output dir
-	os.RemoveAll(directory)
-	os.MkdirAll(directory, 0755)
+	if err = os.RemoveAll(directory); err != nil {
+		return
+	}
+	if err = os.MkdirAll(directory, 0755); err != nil {
+		return
+	}
 
 	// create commands file
 	if output.Commands, err = os.Create(path.Join(directory, "commands.txt")); err != nil {
-- 
2.43.0


From 18b4e863357a861070932b7af9ef73bc17df18b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:12 +0000
Subject: [PATCH 26/28] fix: leave links to nothing at the output path in place

---
 main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 5a34372..d155a95 100644
--- a/main.go
+++ b/main.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"github.com/KarmaPenny/pdfparser/pdf"
 	"os"
+	"path/filepath"
 )
 
 var overwrite *bool
@@ -43,7 +44,7 @@ func init() {
 
 func main() {
 	// check if output directory already exists
-	if _, err := os.Stat(flag.Arg(1)); !os.IsNotExist(err) && !*overwrite {
+	if _, err := os.Lstat(filepath.Clean(flag.Arg(1))); !os.IsNotExist(err) && !*overwrite {
 		fmt.Printf("output directory \"%s\" already exists, use -f to overwrite\n", flag.Arg(1))
 		return
 	}
-- 
2.43.0


From 19d5b68166d2edc1feb83438547925e0004f681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 27/28] fix: limit the nesting of arrays and dictionaries

---
 pdf/parser.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 14ae350..025368a 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -18,6 +18,9 @@ var xref_regexp = regexp.MustCompile(`xref`)
 var whitespace = []byte("\x00\t\n\f\r ")
 var delimiters = []byte("()<>[]/%")
 
+// max_depth is how deep arrays and dictionaries may be nested
+const max_depth = 1000
+
 type Parser struct {
 	*bufio.Reader
 	seeker io.ReadSeeker
@@ -25,10 +28,11 @@ type Parser struct {
 	trailer Dictionary
 	security_handler *SecurityHandler
 	output *Output
+	depth int
 }
 
 func NewParser(readSeeker io.ReadSeeker, output *Output) *Parser {
-	return &Parser{bufio.NewReader(readSeeker), readSeeker, map[int]*XrefEntry{}, Dictionary{}, NewSecurityHandler(), output}
+	return &Parser{bufio.NewReader(readSeeker), readSeeker, map[int]*XrefEntry{}, Dictionary{}, NewSecurityHandler(), output, 0}
 }
 
 func (parser *Parser) Load(password string) error {
@@ -531,6 +535,10 @@ func (parser *Parser) ReadObject(decryptor Decryptor) (Object, error) {
 	// consume any leading whitespace/comments
 	parser.consumeWhitespace()
 
+	// keep track of nesting
+	parser.depth++
+	defer func() { parser.depth-- }()
+
 	// peek at next 2 bytes to determine object type
 	b, _ := parser.Peek(2)
 	if len(b) == 0 {
@@ -544,6 +552,10 @@ func (parser *Parser) ReadObject(decryptor Decryptor) (Object, error) {
 
 	// handle arrays
 	if b[0] == '[' {
+		if parser.depth > max_depth {
+			parser.Discard(1)
+			return KEYWORD_NULL, nil
+		}
 		return parser.ReadArray(decryptor), nil
 	}
 	if b[0] == ']' {
@@ -562,6 +574,10 @@ func (parser *Parser) ReadObject(decryptor Decryptor) (Object, error) {
 
 	// handle dictionaries
 	if string(b) == "<<" {
+		if parser.depth > max_depth {
+			parser.Discard(2)
+			return KEYWORD_NULL, nil
+		}
 		return parser.ReadDictionary(decryptor), nil
 	}
 	if string(b) == ">>" {
-- 
2.43.0


From 998f3acae85a731c08bb7c0fd9d44fc1b36d7a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:38 +0000
Subject: [PATCH 28/28] fix: take only xref streams for sections

---
 pdf/parser.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 025368a..5f3be14 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -209,11 +209,18 @@ func (parser *Parser) loadXref(offset int64, offsets map[int64]interface{}) {
 			parser.Seek(offset, io.SeekStart)
 			if n, g, ok := parser.ReadObjectHeader(); ok {
 				// prevent decrypting xref streams
+				xref_entry, exists := parser.Xref[n]
 				parser.Xref[n] = NewXrefEntry(offset, g, XrefTypeIndirectObject)
 				parser.Xref[n].IsEncrypted = false
 
 				// read the xref object
-				parser.loadXrefStream(n, offsets)
+				if !parser.loadXrefStream(n, offsets) {
+					// not an xref stream, leave the object as it was
+					delete(parser.Xref, n)
+					if exists {
+						parser.Xref[n] = xref_entry
+					}
+				}
 			}
 		}
 	}
@@ -286,25 +293,35 @@ func (parser *Parser) loadXrefTable(offsets map[int64]interface{}) {
 	}
 }
 
-func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
+func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) (is_xref_stream bool) {
 	// remember location of the xref stream
 	xref_stream_offset := parser.Xref[n].Offset
 
 	// Get the xref stream object
 	object := parser.GetObject(n)
 
+	// get the stream dictionary which is also the trailer dictionary
+	trailer, ok := object.Value.(Dictionary)
+	if !ok {
+		return false
+	}
+
+	// any other object is not an xref stream
+	if t, ok := trailer.GetName("Type"); ok {
+		is_xref_stream = t == "XRef"
+	} else {
+		_, is_xref_stream = trailer.GetArray("W")
+	}
+	if !is_xref_stream {
+		return false
+	}
+
 	// dont decrypt xref streams
 	defer func() {
 		parser.Xref[object.Number] = NewXrefEntry(xref_stream_offset, object.Generation, XrefTypeIndirectObject)
 		parser.Xref[object.Number].IsEncrypted = false
 	}()
 
-	// get the stream dictionary which is also the trailer dictionary
-	trailer, ok := object.Value.(Dictionary)
-	if !ok {
-		return
-	}
-
 	// load previous xref section if it exists
 	if prev, ok := trailer.GetInt64("Prev"); ok {
 		parser.loadXref(prev, offsets)
@@ -393,6 +410,7 @@ func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 			parser.Xref[object_number] = NewXrefEntry(offset, generation, xref_type)
 		}
 	}
+	return
 }
 
 func (parser *Parser) GetObject(number int) *IndirectObject {
-- 
2.43.0

