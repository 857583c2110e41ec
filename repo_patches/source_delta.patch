From 7f6fbad3b8604814c44c80a744c6e680c2d74fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:29 +0000
Subject: [PATCH 01/37] fix: reject frames with a single byte between the
 delimiters instead of panicking

---
 protocol/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/message.go b/protocol/message.go
index 7743151..336da64 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -71,7 +71,7 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 		return errors.ErrInvalidMessage
 	}
 	data = data[1 : len(data)-1]
-	if len(data) == 0 {
+	if len(data) < 2 {
 		return errors.ErrInvalidMessage
 	}
 
-- 
2.43.0


From 11c9eb690f839aa2cf57ba73fb9f7c90ac57dbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:42 +0000
Subject: [PATCH 02/37] fix: keep leading zeros of fixed-width BCD fields
 (years 2000-2009, hour 0, terminal number 0 failed to decode)

---
 protocol/header.go      | 2 +-
 protocol/helpers.go     | 7 ++++---
 protocol/t808_0x0702.go | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/protocol/header.go b/protocol/header.go
index 692d3f4..1b0ba56 100644
--- a/protocol/header.go
+++ b/protocol/header.go
@@ -71,7 +71,7 @@ func (header *Header) Decode(data []byte) error {
 	if err != nil {
 		return errors.ErrInvalidHeader
 	}
-	iccID, err := strconv.ParseUint(bcdToString(temp), 10, 64)
+	iccID, err := strconv.ParseUint(bcdToString(temp, true), 10, 64)
 	if err != nil {
 		return err
 	}
diff --git a/protocol/helpers.go b/protocol/helpers.go
index 2c463f1..caacfa6 100644
--- a/protocol/helpers.go
+++ b/protocol/helpers.go
@@ -90,7 +90,8 @@ func stringToBCD(s string, size ...int) []byte {
 
 // BCD转字符串
 func bcdToString(data []byte, ignorePadding ...bool) string {
-	for {
+	keep := len(ignorePadding) > 0 && ignorePadding[0]
+	for !keep {
 		if len(data) == 0 {
 			return ""
 		}
@@ -106,7 +107,7 @@ func bcdToString(data []byte, ignorePadding ...bool) string {
 		buf = append(buf, data[i]&0x0f+'0')
 	}
 
-	if len(ignorePadding) == 0 || !ignorePadding[0] {
+	if !keep {
 		for idx := range buf {
 			if buf[idx] != '0' {
 				return string(buf[idx:])
@@ -129,7 +130,7 @@ func fromBCDTime(bcd []byte) (time.Time, error) {
 		return time.Time{}, errors.ErrInvalidBCDTime
 	}
 	t, err := time.ParseInLocation(
-		"20060102150405", "20"+bcdToString(bcd), time.Local)
+		"20060102150405", "20"+bcdToString(bcd, true), time.Local)
 	if err != nil {
 		return time.Time{}, err
 	}
diff --git a/protocol/t808_0x0702.go b/protocol/t808_0x0702.go
index 2c0de10..4587abe 100644
--- a/protocol/t808_0x0702.go
+++ b/protocol/t808_0x0702.go
@@ -141,7 +141,7 @@ func (entity *T808_0x0702) Decode(data []byte) (int, error) {
 		return 0, err
 	}
 	entity.ExpiryDate, err = time.ParseInLocation(
-		"20060102150405", bcdToString(bcd)+"000000", time.Local)
+		"20060102150405", bcdToString(bcd, true)+"000000", time.Local)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From f63551f7701ebe26a3ec0c63564e2ef5f5086f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:24 +0000
Subject: [PATCH 03/37] fix: report the number of body bytes actually consumed
 by Decode

---
 protocol/t808_0x0200.go | 2 +-
 protocol/t808_0x0303.go | 2 +-
 protocol/t808_0x8105.go | 2 +-
 protocol/t808_0x8106.go | 2 +-
 protocol/t808_0x8300.go | 2 +-
 protocol/t808_0x8601.go | 2 +-
 protocol/t808_0x8603.go | 2 +-
 protocol/t808_0x8605.go | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/protocol/t808_0x0200.go b/protocol/t808_0x0200.go
index 0b8d433..9e3e7bb 100644
--- a/protocol/t808_0x0200.go
+++ b/protocol/t808_0x0200.go
@@ -247,5 +247,5 @@ func (entity *T808_0x0200) Decode(data []byte) (int, error) {
 	if len(extras) > 0 {
 		entity.Extras = extras
 	}
-	return len(data) - reader.Len(), nil
+	return len(data) - len(buffer), nil
 }
diff --git a/protocol/t808_0x0303.go b/protocol/t808_0x0303.go
index 47166c0..8e2bccd 100644
--- a/protocol/t808_0x0303.go
+++ b/protocol/t808_0x0303.go
@@ -31,5 +31,5 @@ func (entity *T808_0x0303) Decode(data []byte) (int, error) {
 		return 0, ErrInvalidBody
 	}
 	entity.Type, entity.Flag = data[0], T808_0x0303_Flag(data[1])
-	return 1, nil
+	return 2, nil
 }
diff --git a/protocol/t808_0x8105.go b/protocol/t808_0x8105.go
index 0753bdc..5424315 100644
--- a/protocol/t808_0x8105.go
+++ b/protocol/t808_0x8105.go
@@ -58,5 +58,5 @@ func (entity *T808_0x8105) Decode(data []byte) (int, error) {
 	}
 
 	entity.Cmd = T808_0x8105_Command(data[0])
-	return len(data) - reader.Len() - 1, nil
+	return len(data) - reader.Len(), nil
 }
diff --git a/protocol/t808_0x8106.go b/protocol/t808_0x8106.go
index 4d434fe..f911ecd 100644
--- a/protocol/t808_0x8106.go
+++ b/protocol/t808_0x8106.go
@@ -34,5 +34,5 @@ func (entity *T808_0x8106) Decode(data []byte) (int, error) {
 		}
 		entity.Params = append(entity.Params, id)
 	}
-	return len(data) - reader.Len() - 1, nil
+	return len(data) - reader.Len(), nil
 }
diff --git a/protocol/t808_0x8300.go b/protocol/t808_0x8300.go
index 3047599..085330c 100644
--- a/protocol/t808_0x8300.go
+++ b/protocol/t808_0x8300.go
@@ -37,5 +37,5 @@ func (entity *T808_0x8300) Decode(data []byte) (int, error) {
 		}
 		entity.Text = data
 	}
-	return len(data) - reader.Len() - 1, nil
+	return len(data) - reader.Len(), nil
 }
diff --git a/protocol/t808_0x8601.go b/protocol/t808_0x8601.go
index ea023ee..1173f8f 100644
--- a/protocol/t808_0x8601.go
+++ b/protocol/t808_0x8601.go
@@ -38,5 +38,5 @@ func (entity *T808_0x8601) Decode(data []byte) (int, error) {
 		}
 		entity.IDs = append(entity.IDs, id)
 	}
-	return len(data) - reader.Len() - 1, nil
+	return len(data) - reader.Len(), nil
 }
diff --git a/protocol/t808_0x8603.go b/protocol/t808_0x8603.go
index b109af1..003cc16 100644
--- a/protocol/t808_0x8603.go
+++ b/protocol/t808_0x8603.go
@@ -38,5 +38,5 @@ func (entity *T808_0x8603) Decode(data []byte) (int, error) {
 		}
 		entity.IDs = append(entity.IDs, id)
 	}
-	return len(data) - reader.Len() - 1, nil
+	return len(data) - reader.Len(), nil
 }
diff --git a/protocol/t808_0x8605.go b/protocol/t808_0x8605.go
index 78498ac..2687be5 100644
--- a/protocol/t808_0x8605.go
+++ b/protocol/t808_0x8605.go
@@ -38,5 +38,5 @@ func (entity *T808_0x8605) Decode(data []byte) (int, error) {
 		}
 		entity.IDs = append(entity.IDs, id)
 	}
-	return len(data) - reader.Len() - 1, nil
+	return len(data) - reader.Len(), nil
 }
-- 
2.43.0


From 82e21c6c2ad97a3b6476990c25bb40d087a0cc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:24 +0000
Subject: [PATCH 04/37] fix: accept the empty-list and empty-text bodies that
 Encode itself produces

---
 protocol/t808_0x0102.go | 4 ----
 protocol/t808_0x0104.go | 2 +-
 protocol/t808_0x8103.go | 2 +-
 protocol/t808_0x8600.go | 2 +-
 protocol/t808_0x8602.go | 2 +-
 protocol/t808_0x8604.go | 2 +-
 6 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/protocol/t808_0x0102.go b/protocol/t808_0x0102.go
index c73e3f7..f049d9d 100644
--- a/protocol/t808_0x0102.go
+++ b/protocol/t808_0x0102.go
@@ -21,10 +21,6 @@ func (entity *T808_0x0102) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x0102) Decode(data []byte) (int, error) {
-	if len(data) == 0 {
-		return 0, ErrInvalidBody
-	}
-
 	reader := NewReader(data)
 	authKey, err := reader.ReadString()
 	if err != nil {
diff --git a/protocol/t808_0x0104.go b/protocol/t808_0x0104.go
index edad69e..bcc3aa8 100644
--- a/protocol/t808_0x0104.go
+++ b/protocol/t808_0x0104.go
@@ -36,7 +36,7 @@ func (entity *T808_0x0104) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x0104) Decode(data []byte) (int, error) {
-	if len(data) <= 3 {
+	if len(data) < 3 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8103.go b/protocol/t808_0x8103.go
index 308671c..a7802b9 100644
--- a/protocol/t808_0x8103.go
+++ b/protocol/t808_0x8103.go
@@ -31,7 +31,7 @@ func (entity *T808_0x8103) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8103) Decode(data []byte) (int, error) {
-	if len(data) <= 3 {
+	if len(data) < 1 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8600.go b/protocol/t808_0x8600.go
index dbe09e3..9f460b6 100644
--- a/protocol/t808_0x8600.go
+++ b/protocol/t808_0x8600.go
@@ -148,7 +148,7 @@ func (entity *T808_0x8600) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8600) Decode(data []byte) (int, error) {
-	if len(data) < 20 {
+	if len(data) < 2 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8602.go b/protocol/t808_0x8602.go
index 9a6daa5..9a0bd30 100644
--- a/protocol/t808_0x8602.go
+++ b/protocol/t808_0x8602.go
@@ -113,7 +113,7 @@ func (entity *T808_0x8602) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8602) Decode(data []byte) (int, error) {
-	if len(data) < 24 {
+	if len(data) < 2 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8604.go b/protocol/t808_0x8604.go
index 80400f5..109a040 100644
--- a/protocol/t808_0x8604.go
+++ b/protocol/t808_0x8604.go
@@ -94,7 +94,7 @@ func (entity *T808_0x8604) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8604) Decode(data []byte) (int, error) {
-	if len(data) < 16 {
+	if len(data) < 8 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
-- 
2.43.0


From 7476fcda3f99216a2e42843ecac722d35a3b1cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:24 +0000
Subject: [PATCH 05/37] fix: report the text encoding error of the callback
 number instead of sending a truncated body

---
 protocol/t808_0x8400.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protocol/t808_0x8400.go b/protocol/t808_0x8400.go
index a5ac21f..722208f 100644
--- a/protocol/t808_0x8400.go
+++ b/protocol/t808_0x8400.go
@@ -29,7 +29,9 @@ func (entity *T808_0x8400) Encode() ([]byte, error) {
 	writer.WriteByte(byte(entity.Flag))
 
 	// 写入电话号码
-	writer.WritString(entity.Number)
+	if err := writer.WritString(entity.Number); err != nil {
+		return nil, err
+	}
 	return writer.Bytes(), nil
 }
 
-- 
2.43.0


From afac8442d12549f585b842645fdf76edbc8cc584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:24 +0000
Subject: [PATCH 06/37] fix: report decompression and compression errors
 instead of returning truncated data

---
 protocol/t808_0x0901.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/protocol/t808_0x0901.go b/protocol/t808_0x0901.go
index 81dd7e6..55ade7d 100644
--- a/protocol/t808_0x0901.go
+++ b/protocol/t808_0x0901.go
@@ -3,7 +3,6 @@ package protocol
 import (
 	"bytes"
 	"compress/gzip"
-	"fmt"
 	"io"
 )
 
@@ -21,15 +20,18 @@ func (entity *T808_0x0901) Encode() ([]byte, error) {
 	// 压缩消息
 	buffer := bytes.NewBuffer(nil)
 	gzipWriter := gzip.NewWriter(buffer)
-	gzipWriter.Write(entity.Uncompressed)
-	gzipWriter.Close()
+	if _, err := gzipWriter.Write(entity.Uncompressed); err != nil {
+		return nil, err
+	}
+	if err := gzipWriter.Close(); err != nil {
+		return nil, err
+	}
 
 	// 写入消息长度
 	writer := NewWriter()
 	writer.WriteUint32(uint32(buffer.Len()))
 
 	// 写入压缩消息
-	fmt.Println(len(entity.Uncompressed))
 	writer.Write(buffer.Bytes())
 	return writer.Bytes(), nil
 }
@@ -63,7 +65,7 @@ func (entity *T808_0x0901) Decode(data []byte) (int, error) {
 	for {
 		n, err := gzipReader.Read(temp[:])
 		if err != nil && err != io.EOF {
-			break
+			return 0, err
 		}
 
 		if n > 0 {
-- 
2.43.0


From c0c777234c7d54459f3acdfc3e22f575968e51e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:24 +0000
Subject: [PATCH 07/37] fix: a decoded extra keeps its payload, so Data and
 re-encoding do not lose it

---
 protocol/extra/0x01.go | 1 +
 protocol/extra/0x02.go | 1 +
 protocol/extra/0x03.go | 1 +
 protocol/extra/0x04.go | 1 +
 protocol/extra/0x11.go | 2 ++
 protocol/extra/0x12.go | 1 +
 protocol/extra/0x13.go | 1 +
 protocol/extra/0x25.go | 1 +
 protocol/extra/0x2a.go | 1 +
 protocol/extra/0x2b.go | 1 +
 protocol/extra/0x30.go | 1 +
 protocol/extra/0x31.go | 1 +
 12 files changed, 13 insertions(+)

diff --git a/protocol/extra/0x01.go b/protocol/extra/0x01.go
index fd4922b..29ba4a5 100644
--- a/protocol/extra/0x01.go
+++ b/protocol/extra/0x01.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x01) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint32(data)
+	extra.serialized = append([]byte{}, data[:4]...)
 	return 4, nil
 }
diff --git a/protocol/extra/0x02.go b/protocol/extra/0x02.go
index 479c464..7d1a3b2 100644
--- a/protocol/extra/0x02.go
+++ b/protocol/extra/0x02.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x02) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte{}, data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x03.go b/protocol/extra/0x03.go
index d1d862e..c6445f7 100644
--- a/protocol/extra/0x03.go
+++ b/protocol/extra/0x03.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x03) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte{}, data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x04.go b/protocol/extra/0x04.go
index 219fe5b..ffc5d9a 100644
--- a/protocol/extra/0x04.go
+++ b/protocol/extra/0x04.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x04) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte{}, data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x11.go b/protocol/extra/0x11.go
index 9b8cb9d..fa34130 100644
--- a/protocol/extra/0x11.go
+++ b/protocol/extra/0x11.go
@@ -52,6 +52,7 @@ func (extra *Extra_0x11) Decode(data []byte) (int, error) {
 	extra.value.AreaID = nil
 	extra.value.Type = data[0]
 	if extra.value.Type == 0 {
+		extra.serialized = append([]byte{}, data[:1]...)
 		return 1, nil
 	}
 
@@ -60,5 +61,6 @@ func (extra *Extra_0x11) Decode(data []byte) (int, error) {
 	}
 	areaID := binary.BigEndian.Uint32(data[1:])
 	extra.value.AreaID = &areaID
+	extra.serialized = append([]byte{}, data[:5]...)
 	return 5, nil
 }
diff --git a/protocol/extra/0x12.go b/protocol/extra/0x12.go
index fd823d7..c1234b7 100644
--- a/protocol/extra/0x12.go
+++ b/protocol/extra/0x12.go
@@ -56,5 +56,6 @@ func (extra *Extra_0x12) Decode(data []byte) (int, error) {
 	extra.value.Type = data[0]
 	extra.value.AreaID = binary.BigEndian.Uint32(data[1:5])
 	extra.value.Direction = data[5]
+	extra.serialized = append([]byte{}, data[:6]...)
 	return 6, nil
 }
diff --git a/protocol/extra/0x13.go b/protocol/extra/0x13.go
index 507ddd8..d25dd87 100644
--- a/protocol/extra/0x13.go
+++ b/protocol/extra/0x13.go
@@ -57,5 +57,6 @@ func (extra *Extra_0x13) Decode(data []byte) (int, error) {
 	extra.value.RoadID = binary.BigEndian.Uint32(data[:4])
 	extra.value.Duration = binary.BigEndian.Uint16(data[4:6])
 	extra.value.Result = data[6]
+	extra.serialized = append([]byte{}, data[:7]...)
 	return 7, nil
 }
diff --git a/protocol/extra/0x25.go b/protocol/extra/0x25.go
index ff53a52..b922654 100644
--- a/protocol/extra/0x25.go
+++ b/protocol/extra/0x25.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x25) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint32(data)
+	extra.serialized = append([]byte{}, data[:4]...)
 	return 4, nil
 }
diff --git a/protocol/extra/0x2a.go b/protocol/extra/0x2a.go
index c7fd0c1..3fbe906 100644
--- a/protocol/extra/0x2a.go
+++ b/protocol/extra/0x2a.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x2A) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte{}, data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x2b.go b/protocol/extra/0x2b.go
index 1b49621..a94cf45 100644
--- a/protocol/extra/0x2b.go
+++ b/protocol/extra/0x2b.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x2B) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint32(data)
+	extra.serialized = append([]byte{}, data[:4]...)
 	return 4, nil
 }
diff --git a/protocol/extra/0x30.go b/protocol/extra/0x30.go
index cfdd4f5..6904021 100644
--- a/protocol/extra/0x30.go
+++ b/protocol/extra/0x30.go
@@ -35,5 +35,6 @@ func (extra *Extra_0x30) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = data[0]
+	extra.serialized = append([]byte{}, data[:1]...)
 	return 1, nil
 }
diff --git a/protocol/extra/0x31.go b/protocol/extra/0x31.go
index d43f67c..9118777 100644
--- a/protocol/extra/0x31.go
+++ b/protocol/extra/0x31.go
@@ -35,5 +35,6 @@ func (extra *Extra_0x31) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = data[0]
+	extra.serialized = append([]byte{}, data[:1]...)
 	return 1, nil
 }
-- 
2.43.0


From 55ae2e49b2e797e4075eba69cdcdbe2364b61059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:12 +0000
Subject: [PATCH 08/37] fix: do not let the body length wrap around 64 KiB when
 it is checked

---
 protocol/message.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protocol/message.go b/protocol/message.go
index 336da64..403f45c 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -45,6 +45,9 @@ func (message *Message) Encode(key ...*rsa.PublicKey) ([]byte, error) {
 
 	// 编码消息头
 	message.Header.MsgID = message.Body.MsgID()
+	if len(body) > 0xffff {
+		return nil, errors.ErrBodyTooLong
+	}
 	err = message.Header.Property.SetBodySize(uint16(len(body)))
 	if err != nil {
 		return nil, err
@@ -140,7 +143,7 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 	}
 
 	// 解码消息体
-	if uint16(len(buffer)) != header.Property.GetBodySize() {
+	if len(buffer) != int(header.Property.GetBodySize()) {
 		log.WithFields(log.Fields{
 			"id":     fmt.Sprintf("0x%x", header.MsgID),
 			"expect": header.Property.GetBodySize(),
-- 
2.43.0


From c9e8cd04bdabd6e4cb5c56a77c1d40dc42b662d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:12 +0000
Subject: [PATCH 09/37] fix: encoding a message without a body keeps its
 message ID instead of panicking

---
 protocol/message.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protocol/message.go b/protocol/message.go
index 403f45c..554e93b 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -44,7 +44,9 @@ func (message *Message) Encode(key ...*rsa.PublicKey) ([]byte, error) {
 	checkSum, count = message.computeChecksum(body, checkSum, count)
 
 	// 编码消息头
-	message.Header.MsgID = message.Body.MsgID()
+	if message.Body != nil {
+		message.Header.MsgID = message.Body.MsgID()
+	}
 	if len(body) > 0xffff {
 		return nil, errors.ErrBodyTooLong
 	}
-- 
2.43.0


From a67dd3b5e171287cfa767a1dfb8ef334b7fc4a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:12 +0000
Subject: [PATCH 10/37] fix: refuse a header whose packet flag is set without
 packet info instead of panicking

---
 protocol/header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/header.go b/protocol/header.go
index 1b0ba56..11f0a68 100644
--- a/protocol/header.go
+++ b/protocol/header.go
@@ -41,6 +41,9 @@ func (header *Header) Encode() ([]byte, error) {
 
 	// 写入分包信息
 	if header.Property.IsEnablePacket() {
+		if header.Packet == nil {
+			return nil, errors.ErrInvalidHeader
+		}
 		writer.WriteUint16(header.Packet.Sum)
 		writer.WriteUint16(header.Packet.Seq)
 	}
-- 
2.43.0


From 72dca3d27f1f330edbe2148174012a2e3103efc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:12 +0000
Subject: [PATCH 11/37] fix: do not flag a body as encrypted when it is sent in
 the clear

---
 protocol/message.go  | 1 +
 protocol/property.go | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/protocol/message.go b/protocol/message.go
index 554e93b..0548945 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -23,6 +23,7 @@ func (message *Message) Encode(key ...*rsa.PublicKey) ([]byte, error) {
 	var err error
 	var body []byte
 	checkSum := byte(0x00)
+	message.Header.Property.disableEncrypt()
 	if message.Body != nil && !reflect.ValueOf(message.Body).IsNil() {
 		body, err = message.Body.Encode()
 		if err != nil {
diff --git a/protocol/property.go b/protocol/property.go
index aee20f4..dfaa6ab 100644
--- a/protocol/property.go
+++ b/protocol/property.go
@@ -19,6 +19,12 @@ func (property *Property) enableEncrypt() {
 	*property = Property(val | (1 << 10))
 }
 
+// 禁用加密
+func (property *Property) disableEncrypt() {
+	val := uint16(*property)
+	*property = Property(val &^ (1 << 10))
+}
+
 // 是否分包
 func (property Property) IsEnablePacket() bool {
 	val := uint16(property)
-- 
2.43.0


From 85992565e763dac75c43b41c629e8554d74c34a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:30 +0000
Subject: [PATCH 12/37] fix: refuse lists and texts that do not fit their
 one-byte length prefix instead of sending a wrong prefix

---
 protocol/t808_0x0104.go | 3 +++
 protocol/t808_0x0107.go | 6 ++++++
 protocol/t808_0x0200.go | 3 +++
 protocol/t808_0x0702.go | 6 ++++++
 protocol/t808_0x8003.go | 3 +++
 protocol/t808_0x8103.go | 3 +++
 protocol/t808_0x8108.go | 3 +++
 protocol/t808_0x8301.go | 6 ++++++
 protocol/t808_0x8302.go | 6 ++++++
 protocol/t808_0x8303.go | 3 +++
 protocol/t808_0x8401.go | 9 +++++++++
 protocol/t808_0x8800.go | 3 +++
 12 files changed, 54 insertions(+)

diff --git a/protocol/t808_0x0104.go b/protocol/t808_0x0104.go
index bcc3aa8..3c88c00 100644
--- a/protocol/t808_0x0104.go
+++ b/protocol/t808_0x0104.go
@@ -27,6 +27,9 @@ func (entity *T808_0x0104) Encode() ([]byte, error) {
 		writer.WriteUint32(param.id)
 
 		// 写入参数长度
+		if len(param.serialized) > 0xff {
+			return nil, ErrBodyTooLong
+		}
 		writer.WriteByte(byte(len(param.serialized)))
 
 		// 写入参数数据
diff --git a/protocol/t808_0x0107.go b/protocol/t808_0x0107.go
index 93a1e0d..b8ac869 100644
--- a/protocol/t808_0x0107.go
+++ b/protocol/t808_0x0107.go
@@ -52,11 +52,17 @@ func (entity *T808_0x0107) Encode() ([]byte, error) {
 
 	// 写入终端硬件版本
 	hardwareVersion := []byte(entity.HardwareVersion)
+	if len(hardwareVersion) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(hardwareVersion)))
 	writer.Write(hardwareVersion)
 
 	// 写入终端固件版本号
 	softwareVersion := []byte(entity.SoftwareVersion)
+	if len(softwareVersion) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(softwareVersion)))
 	writer.Write(softwareVersion)
 
diff --git a/protocol/t808_0x0200.go b/protocol/t808_0x0200.go
index 9e3e7bb..7549fc3 100644
--- a/protocol/t808_0x0200.go
+++ b/protocol/t808_0x0200.go
@@ -146,6 +146,9 @@ func (entity *T808_0x0200) Encode() ([]byte, error) {
 			continue
 		}
 		data := ext.Data()
+		if len(data) > 0xff {
+			return nil, ErrBodyTooLong
+		}
 		full := make([]byte, len(data)+2)
 		full[0], full[1] = ext.ID(), byte(len(data))
 		copy(full[2:], data)
diff --git a/protocol/t808_0x0702.go b/protocol/t808_0x0702.go
index 4587abe..e177980 100644
--- a/protocol/t808_0x0702.go
+++ b/protocol/t808_0x0702.go
@@ -57,6 +57,9 @@ func (entity *T808_0x0702) Encode() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(driverName) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(driverName)))
 	writer.Write(driverName)
 
@@ -76,6 +79,9 @@ func (entity *T808_0x0702) Encode() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(companyName) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(companyName)))
 	writer.Write(companyName)
 
diff --git a/protocol/t808_0x8003.go b/protocol/t808_0x8003.go
index 0255a2a..5a946d2 100644
--- a/protocol/t808_0x8003.go
+++ b/protocol/t808_0x8003.go
@@ -19,6 +19,9 @@ func (entity *T808_0x8003) Encode() ([]byte, error) {
 	writer.WriteUint16(entity.MsgSerialNo)
 
 	// 写入重传包总数
+	if len(entity.PacketIDs) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(entity.PacketIDs)))
 
 	// 写入重传包 ID 列表
diff --git a/protocol/t808_0x8103.go b/protocol/t808_0x8103.go
index a7802b9..c4d222b 100644
--- a/protocol/t808_0x8103.go
+++ b/protocol/t808_0x8103.go
@@ -22,6 +22,9 @@ func (entity *T808_0x8103) Encode() ([]byte, error) {
 		writer.WriteUint32(param.id)
 
 		// 写入参数长度
+		if len(param.serialized) > 0xff {
+			return nil, ErrBodyTooLong
+		}
 		writer.WriteByte(byte(len(param.serialized)))
 
 		// 写入参数数据
diff --git a/protocol/t808_0x8108.go b/protocol/t808_0x8108.go
index 0c0a489..cb8204d 100644
--- a/protocol/t808_0x8108.go
+++ b/protocol/t808_0x8108.go
@@ -44,6 +44,9 @@ func (entity *T808_0x8108) Encode() ([]byte, error) {
 	}
 
 	// 写入版本长度
+	if len(version) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(version)))
 
 	// 写入版本信息
diff --git a/protocol/t808_0x8301.go b/protocol/t808_0x8301.go
index db45e19..9b5a225 100644
--- a/protocol/t808_0x8301.go
+++ b/protocol/t808_0x8301.go
@@ -34,6 +34,9 @@ func (entity *T808_0x8301) Encode() ([]byte, error) {
 	writer.WriteByte(entity.Type)
 
 	// 写入事件数量
+	if len(entity.Events) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(entity.Events)))
 
 	// 写入事件列表
@@ -48,6 +51,9 @@ func (entity *T808_0x8301) Encode() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(content) > 0xff {
+			return nil, ErrBodyTooLong
+		}
 		writer.WriteByte(byte(len(content)))
 
 		// 写入事件内容
diff --git a/protocol/t808_0x8302.go b/protocol/t808_0x8302.go
index ed47e2a..f186d10 100644
--- a/protocol/t808_0x8302.go
+++ b/protocol/t808_0x8302.go
@@ -42,6 +42,9 @@ func (entity *T808_0x8302) Encode() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(question) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(question)))
 
 	// 写入问题内容
@@ -59,6 +62,9 @@ func (entity *T808_0x8302) Encode() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(content) > 0xff {
+			return nil, ErrBodyTooLong
+		}
 		writer.WriteByte(byte(len(content)))
 
 		// 写入答案内容
diff --git a/protocol/t808_0x8303.go b/protocol/t808_0x8303.go
index b378e50..4f7ca66 100644
--- a/protocol/t808_0x8303.go
+++ b/protocol/t808_0x8303.go
@@ -46,6 +46,9 @@ func (entity *T808_0x8303) Encode() ([]byte, error) {
 	writer.WriteByte(byte(entity.Type))
 
 	// 写入信息项总数
+	if len(entity.Items) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(entity.Items)))
 
 	// 写入信息项列表
diff --git a/protocol/t808_0x8401.go b/protocol/t808_0x8401.go
index a1f72b9..70e5da9 100644
--- a/protocol/t808_0x8401.go
+++ b/protocol/t808_0x8401.go
@@ -62,6 +62,9 @@ func (entity *T808_0x8401) Encode() ([]byte, error) {
 	writer.WriteByte(byte(entity.Type))
 
 	// 写入联系人总数
+	if len(entity.Contacts) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(entity.Contacts)))
 
 	// 写入联系人列表
@@ -76,6 +79,9 @@ func (entity *T808_0x8401) Encode() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(number) > 0xff {
+			return nil, ErrBodyTooLong
+		}
 		writer.WriteByte(byte(len(number)))
 
 		// 写入电话号码
@@ -88,6 +94,9 @@ func (entity *T808_0x8401) Encode() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(contact) > 0xff {
+			return nil, ErrBodyTooLong
+		}
 		writer.WriteByte(byte(len(contact)))
 
 		// 写入联系人
diff --git a/protocol/t808_0x8800.go b/protocol/t808_0x8800.go
index 6a5f5de..141d95b 100644
--- a/protocol/t808_0x8800.go
+++ b/protocol/t808_0x8800.go
@@ -23,6 +23,9 @@ func (entity *T808_0x8800) Encode() ([]byte, error) {
 	}
 
 	// 写入重传消息数
+	if len(entity.RetryIDs) > 0xff {
+		return nil, ErrBodyTooLong
+	}
 	writer.WriteByte(byte(len(entity.RetryIDs)))
 
 	// 写入重传消息ID
-- 
2.43.0


From f9598651d78392c0aca29de1eb766b4e6a5de173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:54 +0000
Subject: [PATCH 13/37] fix: register the request callback before sending, so
 that a fast answer is not lost

---
 session.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/session.go b/session.go
index 0cf29a1..7143f92 100644
--- a/session.go
+++ b/session.go
@@ -68,12 +68,17 @@ func (session *Session) SetPublicKey(publicKey *rsa.PublicKey) {
 
 // 发送消息
 func (session *Session) Send(entity protocol.Entity) (uint16, error) {
+	return session.send(entity, session.nextID())
+}
+
+// 以指定流水号发送消息
+func (session *Session) send(entity protocol.Entity, serialNo uint16) (uint16, error) {
 	message := protocol.Message{
 		Body: entity,
 		Header: protocol.Header{
 			MsgID:       entity.MsgID(),
 			IccID:       atomic.LoadUint64(&session.iccID),
-			MsgSerialNo: session.nextID(),
+			MsgSerialNo: serialNo,
 		},
 	}
 
@@ -96,11 +101,8 @@ func (session *Session) Reply(msg *protocol.Message, result protocol.Result) (ui
 
 // 发起请求
 func (session *Session) Request(entity protocol.Entity, cb func(answer *protocol.Message)) (uint16, error) {
-	serialNo, err := session.Send(entity)
-	if err != nil {
-		return 0, err
-	}
-
+	// 先登记再发送，避免应答先于登记到达
+	serialNo := session.nextID()
 	if cb != nil {
 		session.addRequestContext(requestContext{
 			msgID:    uint16(entity.MsgID()),
@@ -108,6 +110,11 @@ func (session *Session) Request(entity protocol.Entity, cb func(answer *protocol
 			callback: cb,
 		})
 	}
+
+	if _, err := session.send(entity, serialNo); err != nil {
+		session.takeRequestContext(serialNo)
+		return 0, err
+	}
 	return serialNo, nil
 }
 
-- 
2.43.0


From 10ed24c2276bdc910ffbc4bed97bcadbbecadea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:55 +0000
Subject: [PATCH 14/37] fix: an unanswered request whose serial number is
 reused no longer receives the answer to the new one

---
 session.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/session.go b/session.go
index 7143f92..3319ad8 100644
--- a/session.go
+++ b/session.go
@@ -202,13 +202,14 @@ func (session *Session) addRequestContext(ctx requestContext) {
 	session.mux.Lock()
 	defer session.mux.Unlock()
 
-	for idx, item := range session.requests {
-		if item.msgID == ctx.msgID {
-			session.requests[idx] = ctx
-			return
+	// 流水号会循环使用，过期的同号请求不能再收到应答
+	requests := session.requests[:0]
+	for _, item := range session.requests {
+		if item.msgID != ctx.msgID && item.serialNo != ctx.serialNo {
+			requests = append(requests, item)
 		}
 	}
-	session.requests = append(session.requests, ctx)
+	session.requests = append(requests, ctx)
 }
 
 // 取出请求上下文
-- 
2.43.0


From 3806bdbef61f7e9cd466697eb044b67f19b629c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:55 +0000
Subject: [PATCH 15/37] fix: concurrent updates of one key no longer leave an
 orphan deadline behind

---
 timer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/timer.go b/timer.go
index b815b81..164b498 100644
--- a/timer.go
+++ b/timer.go
@@ -89,10 +89,10 @@ func (timer *CountdownTimer) Update(key string) {
 		Key:    key,
 		Expire: time.Now().Unix() + atomic.LoadInt64(&timer.seconds),
 	}
-	timer.Remove(key)
 
 	timer.mutex.Lock()
 	defer timer.mutex.Unlock()
+	timer.remove(key)
 	heap.Push(timer.q, &e)
 	timer.mapper[key] = &e
 }
@@ -101,7 +101,11 @@ func (timer *CountdownTimer) Update(key string) {
 func (timer *CountdownTimer) Remove(key string) {
 	timer.mutex.Lock()
 	defer timer.mutex.Unlock()
+	timer.remove(key)
+}
 
+// 删除计时(调用者持有锁)
+func (timer *CountdownTimer) remove(key string) {
 	element, ok := timer.mapper[key]
 	if !ok {
 		return
-- 
2.43.0


From d613726598584593816675580d5262bdc57ec743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:57 +0000
Subject: [PATCH 16/37] fix: guard the public key, which is set by handlers
 while the send loop reads it

---
 protocol.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/protocol.go b/protocol.go
index 27305fb..31c2f74 100644
--- a/protocol.go
+++ b/protocol.go
@@ -10,6 +10,7 @@ import (
 	"github.com/funny/link"
 	log "github.com/sirupsen/logrus"
 	"io"
+	"sync"
 )
 
 type Protocol struct {
@@ -33,6 +34,7 @@ type ProtocolCodec struct {
 	w               io.Writer
 	r               io.Reader
 	closer          io.Closer
+	keyMutex        sync.RWMutex
 	publicKey       *rsa.PublicKey
 	privateKey      *rsa.PrivateKey
 	bufferReceiving *bytes.Buffer
@@ -40,11 +42,15 @@ type ProtocolCodec struct {
 
 // 获取RSA公钥
 func (codec *ProtocolCodec) GetPublicKey() *rsa.PublicKey {
+	codec.keyMutex.RLock()
+	defer codec.keyMutex.RUnlock()
 	return codec.publicKey
 }
 
 // 设置RSA公钥
 func (codec *ProtocolCodec) SetPublicKey(publicKey *rsa.PublicKey) {
+	codec.keyMutex.Lock()
+	defer codec.keyMutex.Unlock()
 	codec.publicKey = publicKey
 }
 
@@ -68,10 +74,11 @@ func (codec *ProtocolCodec) Send(msg interface{}) error {
 
 	var err error
 	var data []byte
-	if codec.publicKey == nil || !message.Header.Property.IsEnableEncrypt() {
+	publicKey := codec.GetPublicKey()
+	if publicKey == nil || !message.Header.Property.IsEnableEncrypt() {
 		data, err = message.Encode()
 	} else {
-		data, err = message.Encode(codec.publicKey)
+		data, err = message.Encode(publicKey)
 	}
 	if err != nil {
 		log.WithFields(log.Fields{
-- 
2.43.0


From e34d5857d0beb16090b7530779b0178ba51a10ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:57 +0000
Subject: [PATCH 17/37] fix: guard the listener shared by Run and Stop

---
 server.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/server.go b/server.go
index c2d58eb..fcdbe74 100644
--- a/server.go
+++ b/server.go
@@ -60,29 +60,39 @@ func NewServer(options Options) (*Server, error) {
 
 // 运行服务
 func (server *Server) Run(network string, port int) error {
+	server.mutex.Lock()
 	if server.server != nil {
+		server.mutex.Unlock()
 		return errors.New("server already running")
 	}
 
 	address := fmt.Sprintf("0.0.0.0:%d", port)
 	listen, err := net.Listen(network, address)
 	if err != nil {
+		server.mutex.Unlock()
 		return err
 	}
 
 	p := Protocol{
 		privateKey: server.privateKey,
 	}
-	server.server = link.NewServer(listen, &p, 24, server.handler)
+	s := link.NewServer(listen, &p, 24, server.handler)
+	server.server = s
+	server.mutex.Unlock()
+
 	log.Infof("[JT/T 808] protocol server started on %s", address)
-	return server.server.Serve()
+	return s.Serve()
 }
 
 // 停止服务
 func (server *Server) Stop() {
-	if server.server != nil {
-		server.server.Stop()
-		server.server = nil
+	server.mutex.Lock()
+	s := server.server
+	server.server = nil
+	server.mutex.Unlock()
+
+	if s != nil {
+		s.Stop()
 	}
 }
 
-- 
2.43.0


From 604158bbebeb607e92e24258d2b2faede387cc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:58 +0000
Subject: [PATCH 18/37] fix: a session closed before its close callback is
 installed no longer stays registered for ever

---
 server.go          | 4 ++++
 session_handler.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/server.go b/server.go
index fcdbe74..cb861b2 100644
--- a/server.go
+++ b/server.go
@@ -140,8 +140,12 @@ func (server *Server) AddHandler(msgID protocol.MsgID, handler MessageHandler) {
 // 处理关闭
 func (server *Server) handleClose(session *Session) {
 	server.mutex.Lock()
+	_, ok := server.sessions[session.ID()]
 	delete(server.sessions, session.ID())
 	server.mutex.Unlock()
+	if !ok {
+		return
+	}
 
 	server.timer.Remove(strconv.FormatUint(session.ID(), 10))
 	if server.closeHandler != nil {
diff --git a/session_handler.go b/session_handler.go
index 9161c84..e588283 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -30,6 +30,10 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 	sess.AddCloseCallback(nil, nil, func() {
 		handler.server.handleClose(session)
 	})
+	if sess.IsClosed() {
+		// 登记回调之前已关闭，回调不会被触发
+		handler.server.handleClose(session)
+	}
 
 	for {
 		// 接收消息
-- 
2.43.0


From 8f5030c606a81c9ccce5c3b07c8f7b954184b9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:35 +0000
Subject: [PATCH 19/37] fix: every received message keeps the session alive,
 not only those with a handler

---
 server.go          | 1 -
 session_handler.go | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index cb861b2..c170018 100644
--- a/server.go
+++ b/server.go
@@ -201,6 +201,5 @@ func (server *Server) dispatchMessage(session *Session, message *protocol.Messag
 			debug.PrintStack()
 		}
 	}()
-	server.timer.Update(strconv.FormatUint(session.ID(), 10))
 	handler.(MessageHandler)(session, message)
 }
diff --git a/session_handler.go b/session_handler.go
index e588283..433cfd6 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -42,6 +42,7 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 			sess.Close()
 			break
 		}
+		handler.server.timer.Update(strconv.FormatUint(session.ID(), 10))
 
 		// 分发消息
 		message := msg.(protocol.Message)
-- 
2.43.0


From 9427fe5c26ec455fbe5bede8f01cf350178e45ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:36 +0000
Subject: [PATCH 20/37] fix: truncate the merged file, which kept the tail of
 an earlier longer upload

---
 multipart.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multipart.go b/multipart.go
index 654713a..7049138 100644
--- a/multipart.go
+++ b/multipart.go
@@ -71,7 +71,7 @@ func (m MultipartFile) Merge() (io.ReadCloser, error) {
 
 	sep := filepath.Separator
 	full := fmt.Sprintf("%s%c%d-%d.full", m.rootDir(), sep, m.MsgID, m.Tag)
-	w, err := os.OpenFile(full, os.O_WRONLY|os.O_CREATE, 0644)
+	w, err := os.OpenFile(full, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From a1b5b0f12aa64e68864efcb0d36025e673ac6b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:37 +0000
Subject: [PATCH 21/37] fix: create the packet directory with search permission

---
 multipart.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multipart.go b/multipart.go
index 7049138..650a26d 100644
--- a/multipart.go
+++ b/multipart.go
@@ -96,7 +96,7 @@ func (m MultipartFile) rootDir() string {
 // 写入分包文件
 func (m MultipartFile) Write(seq uint16, data []byte) error {
 	dir := m.rootDir()
-	if err := os.MkdirAll(dir, 0644); err != nil {
+	if err := os.MkdirAll(dir, 0755); err != nil {
 		return err
 	}
 	sep := filepath.Separator
-- 
2.43.0


From 67e34aee29f4ce20fd98df81082505ce2f9af63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:38 +0000
Subject: [PATCH 22/37] fix: do not panic when the packet directory cannot be
 walked

---
 multipart.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/multipart.go b/multipart.go
index 650a26d..9410726 100644
--- a/multipart.go
+++ b/multipart.go
@@ -109,6 +109,12 @@ func (m MultipartFile) walkParts(walkFn func(path string, seq uint16) error) err
 	dir := m.rootDir()
 	id := strconv.Itoa(int(m.MsgID))
 	return filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
+		if err != nil {
+			if os.IsNotExist(err) {
+				return nil
+			}
+			return err
+		}
 		if info.IsDir() {
 			return nil
 		}
-- 
2.43.0


From 51dcc27aa65f7758b05bc1d4070850017d2967f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:39 +0000
Subject: [PATCH 23/37] fix: parts of an earlier upload with the same tag no
 longer leak into the next one

---
 multipart.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/multipart.go b/multipart.go
index 9410726..7f0f52c 100644
--- a/multipart.go
+++ b/multipart.go
@@ -83,6 +83,11 @@ func (m MultipartFile) Merge() (io.ReadCloser, error) {
 			return nil, err
 		}
 	}
+
+	// 删除已合并的分包，避免混入相同标签的下一次上传
+	for _, part := range inputs {
+		os.Remove(part.path)
+	}
 	return os.OpenFile(full, os.O_RDONLY, 0644)
 }
 
@@ -134,6 +139,9 @@ func (m MultipartFile) walkParts(walkFn func(path string, seq uint16) error) err
 		}
 
 		seq, _ := strconv.Atoi(slice[2])
+		if seq < 1 || seq > int(m.Sum) {
+			return nil
+		}
 		return walkFn(path, uint16(seq))
 	})
 }
-- 
2.43.0


From 34be31e1636124bf8e1d518de4655e1ffc5a23a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:40 +0000
Subject: [PATCH 24/37] fix: an upload completed by a retransmitted part is
 merged and dispatched

---
 multipart.go       | 2 +-
 session_handler.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/multipart.go b/multipart.go
index 7f0f52c..0718ce4 100644
--- a/multipart.go
+++ b/multipart.go
@@ -44,7 +44,7 @@ func (m MultipartFile) IsFull() bool {
 		delete(set, seq)
 		return nil
 	})
-	return len(set) == 0
+	return m.Sum > 0 && len(set) == 0
 }
 
 // 合并文件
diff --git a/session_handler.go b/session_handler.go
index 433cfd6..618ac32 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -96,7 +96,7 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 		}
 
 		session.Reply(&message, protocol.T808_0x8001ResultSuccess)
-		if message.Header.Packet.Seq != message.Header.Packet.Sum || !multipartFile.IsFull() {
+		if !multipartFile.IsFull() {
 			continue
 		}
 
-- 
2.43.0


From fc033e9bf7fab49af857f48a7d7fc02b8913d3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:41 +0000
Subject: [PATCH 25/37] fix: replies to unknown messages and packets carry the
 terminal number

---
 session.go         | 7 +++++--
 session_handler.go | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/session.go b/session.go
index 3319ad8..e8062f8 100644
--- a/session.go
+++ b/session.go
@@ -141,8 +141,8 @@ func (session *Session) nextID() uint16 {
 	return uint16(id)
 }
 
-// 消息接收事件
-func (session *Session) message(message *protocol.Message) {
+// 记录终端手机号
+func (session *Session) updateIccID(message *protocol.Message) {
 	if message.Header.IccID > 0 {
 		old := atomic.LoadUint64(&session.iccID)
 		if old != 0 && old != message.Header.IccID {
@@ -154,7 +154,10 @@ func (session *Session) message(message *protocol.Message) {
 		}
 		atomic.StoreUint64(&session.iccID, message.Header.IccID)
 	}
+}
 
+// 消息接收事件
+func (session *Session) message(message *protocol.Message) {
 	var msgSerialNo uint16
 	switch message.Header.MsgID {
 	case protocol.MsgT808_0x0001:
diff --git a/session_handler.go b/session_handler.go
index 618ac32..10a6217 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -46,6 +46,7 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 
 		// 分发消息
 		message := msg.(protocol.Message)
+		session.updateIccID(&message)
 		if message.Body == nil || reflect.ValueOf(message.Body).IsNil() {
 			session.Reply(&message, protocol.T808_0x8001ResultUnsupported)
 			continue
-- 
2.43.0


From 9b6f5aa9a36142b433e862e6e4d2f597fff1890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:42 +0000
Subject: [PATCH 26/37] fix: a part whose write fails is not taken for stored

---
 multipart.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/multipart.go b/multipart.go
index 0718ce4..04ef981 100644
--- a/multipart.go
+++ b/multipart.go
@@ -106,7 +106,14 @@ func (m MultipartFile) Write(seq uint16, data []byte) error {
 	}
 	sep := filepath.Separator
 	name := fmt.Sprintf("%s%c%d-%d-%d.part", dir, sep, m.MsgID, m.Tag, seq)
-	return ioutil.WriteFile(name, data, 0644)
+
+	// 先写临时文件再改名，写入失败时不会留下不完整的分包
+	temp := name + ".tmp"
+	if err := ioutil.WriteFile(temp, data, 0644); err != nil {
+		os.Remove(temp)
+		return err
+	}
+	return os.Rename(temp, name)
 }
 
 // 遍历分包文件
-- 
2.43.0


From 46cc5705ba8b375007374b44fd8421cc0a74de16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:12 +0000
Subject: [PATCH 27/37] fix: parts are removed only once the merged file is
 open

---
 multipart.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/multipart.go b/multipart.go
index 04ef981..410fb9f 100644
--- a/multipart.go
+++ b/multipart.go
@@ -84,11 +84,16 @@ func (m MultipartFile) Merge() (io.ReadCloser, error) {
 		}
 	}
 
+	reader, err := os.OpenFile(full, os.O_RDONLY, 0644)
+	if err != nil {
+		return nil, err
+	}
+
 	// 删除已合并的分包，避免混入相同标签的下一次上传
 	for _, part := range inputs {
 		os.Remove(part.path)
 	}
-	return os.OpenFile(full, os.O_RDONLY, 0644)
+	return reader, nil
 }
 
 // 获取根目录
-- 
2.43.0


From 7101c42b0fd57378d03c317c4dfe14f7f805d0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:24 +0000
Subject: [PATCH 28/37] fix: keep the terminal number aligned, its 64-bit
 atomic access panicked on 32-bit machines

---
 session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session.go b/session.go
index e8062f8..527ac81 100644
--- a/session.go
+++ b/session.go
@@ -19,8 +19,8 @@ type requestContext struct {
 
 // 终端会话
 type Session struct {
+	iccID   uint64 // 须居首：32位平台上64位原子操作要求8字节对齐
 	next    uint32
-	iccID   uint64
 	server  *Server
 	session *link.Session
 
-- 
2.43.0


From 2691696318f7cc0dced4e7ee4fc80aa3bce0da6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:39 +0000
Subject: [PATCH 29/37] fix: encoding a 0x0801 message no longer changes it

---
 protocol/t808_0x0801.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/protocol/t808_0x0801.go b/protocol/t808_0x0801.go
index b6aed99..629fc89 100644
--- a/protocol/t808_0x0801.go
+++ b/protocol/t808_0x0801.go
@@ -47,8 +47,9 @@ func (entity *T808_0x0801) Encode() ([]byte, error) {
 	writer.WriteByte(entity.ChannelID)
 
 	// 写入定位信息
-	entity.Location.Extras = nil
-	data, err := entity.Location.Encode()
+	location := entity.Location
+	location.Extras = nil
+	data, err := location.Encode()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 4a7b3337a49a140ce9c6a2848abcab36fc9316cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:39 +0000
Subject: [PATCH 30/37] fix: encoding a 0x0200 message no longer changes it

---
 protocol/t808_0x0200.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/protocol/t808_0x0200.go b/protocol/t808_0x0200.go
index 7549fc3..384d3b2 100644
--- a/protocol/t808_0x0200.go
+++ b/protocol/t808_0x0200.go
@@ -109,17 +109,18 @@ func (entity *T808_0x0200) Encode() ([]byte, error) {
 
 	// 计算经纬度
 	mul := decimal.NewFromFloat(1000000)
+	status := entity.Status
 	lat := entity.Lat.Mul(mul).IntPart()
 	if lat < 0 {
-		entity.Status.SetSouthLatitude(true)
+		status.SetSouthLatitude(true)
 	}
 	lng := entity.Lng.Mul(mul).IntPart()
 	if lng < 0 {
-		entity.Status.SetWestLongitude(true)
+		status.SetWestLongitude(true)
 	}
 
 	// 写入状态信息
-	writer.WriteUint32(uint32(entity.Status))
+	writer.WriteUint32(uint32(status))
 
 	// 写入纬度信息
 	writer.WriteUint32(uint32(math.Abs(float64(lat))))
-- 
2.43.0


From 04a6262a57d5ddb9a3a0a9643bdd5d957450a132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:39 +0000
Subject: [PATCH 31/37] fix: encoding a 0x0705 message no longer changes it

---
 protocol/t808_0x0705.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/protocol/t808_0x0705.go b/protocol/t808_0x0705.go
index 0bea529..fb63606 100644
--- a/protocol/t808_0x0705.go
+++ b/protocol/t808_0x0705.go
@@ -38,10 +38,11 @@ func (entity *T808_0x0705) Encode() ([]byte, error) {
 	writer.WriteUint16(uint16(len(entity.Items)))
 
 	// 写入数据接收时间
-	if entity.ReceiveTime > time.Hour*24 {
-		entity.ReceiveTime = time.Hour * 24
+	receiveTime := entity.ReceiveTime
+	if receiveTime > time.Hour*24 {
+		receiveTime = time.Hour * 24
 	}
-	t := time.Time{}.Add(entity.ReceiveTime)
+	t := time.Time{}.Add(receiveTime)
 	s := fmt.Sprintf("%02d%02d%02d%04d",
 		t.Hour(), t.Minute(), t.Second(), t.Nanosecond()/int(time.Millisecond))
 	writer.Write(stringToBCD(s), 5)
-- 
2.43.0


From c7e87c11c045665b2c0df4910ac714e350da6f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:08 +0000
Subject: [PATCH 32/37] fix: encoding a 0x8600 message no longer changes it

---
 protocol/t808_0x8600.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/t808_0x8600.go b/protocol/t808_0x8600.go
index 9f460b6..d90d2d1 100644
--- a/protocol/t808_0x8600.go
+++ b/protocol/t808_0x8600.go
@@ -99,7 +99,7 @@ func (entity *T808_0x8600) Encode() ([]byte, error) {
 
 	// 写入区域信息
 	for idx := range entity.Items {
-		item := &entity.Items[idx]
+		item := entity.Items[idx]
 
 		// 写入区域ID
 		writer.WriteUint32(item.ID)
-- 
2.43.0


From 4baeefc6807406b245d9fa64c7ee66b417d1005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:09 +0000
Subject: [PATCH 33/37] fix: a CAN report whose receive time is not made of
 digits is refused

---
 protocol/t808_0x0705.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/protocol/t808_0x0705.go b/protocol/t808_0x0705.go
index fb63606..2b225e2 100644
--- a/protocol/t808_0x0705.go
+++ b/protocol/t808_0x0705.go
@@ -76,10 +76,22 @@ func (entity *T808_0x0705) Decode(data []byte) (int, error) {
 	if len(s) != 10 {
 		return 0, errors.New("invalid BTC time")
 	}
-	hour, _ := strconv.Atoi(s[0:2])
-	minute, _ := strconv.Atoi(s[2:4])
-	second, _ := strconv.Atoi(s[4:6])
-	millisecond, _ := strconv.Atoi(s[6:10])
+	hour, err := strconv.Atoi(s[0:2])
+	if err != nil {
+		return 0, err
+	}
+	minute, err := strconv.Atoi(s[2:4])
+	if err != nil {
+		return 0, err
+	}
+	second, err := strconv.Atoi(s[4:6])
+	if err != nil {
+		return 0, err
+	}
+	millisecond, err := strconv.Atoi(s[6:10])
+	if err != nil {
+		return 0, err
+	}
 	entity.ReceiveTime = time.Duration(hour)*time.Hour +
 		time.Duration(minute)*time.Minute +
 		time.Duration(second)*time.Second +
-- 
2.43.0


From 4b723f6f643662d86014942a6e923afaadc627e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:55 +0000
Subject: [PATCH 34/37] fix: a route carries its times only when its attribute
 says so

---
 protocol/t808_0x8606.go | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/protocol/t808_0x8606.go b/protocol/t808_0x8606.go
index 5f80781..879612b 100644
--- a/protocol/t808_0x8606.go
+++ b/protocol/t808_0x8606.go
@@ -106,11 +106,14 @@ func (entity *T808_0x8606) Encode() ([]byte, error) {
 	// 写入路线属性
 	writer.WriteUint16(entity.Attribute)
 
-	// 写入开始时间
-	writer.WriteBcdTime(entity.StartTime)
+	// 写入时间参数
+	if entity.Attribute&1 == 1 {
+		// 写入开始时间
+		writer.WriteBcdTime(entity.StartTime)
 
-	// 写入结束时间
-	writer.WriteBcdTime(entity.EndTime)
+		// 写入结束时间
+		writer.WriteBcdTime(entity.EndTime)
+	}
 
 	// 写入拐点总数
 	writer.WriteUint16(uint16(len(entity.Points)))
@@ -166,7 +169,7 @@ func (entity *T808_0x8606) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8606) Decode(data []byte) (int, error) {
-	if len(data) < 20 {
+	if len(data) < 8 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
@@ -184,16 +187,19 @@ func (entity *T808_0x8606) Decode(data []byte) (int, error) {
 		return 0, err
 	}
 
-	// 读取开始时间
-	entity.StartTime, err = reader.ReadBcdTime()
-	if err != nil {
-		return 0, err
-	}
+	// 读取时间参数
+	if entity.Attribute&1 == 1 {
+		// 读取开始时间
+		entity.StartTime, err = reader.ReadBcdTime()
+		if err != nil {
+			return 0, err
+		}
 
-	// 读取结束时间
-	entity.EndTime, err = reader.ReadBcdTime()
-	if err != nil {
-		return 0, err
+		// 读取结束时间
+		entity.EndTime, err = reader.ReadBcdTime()
+		if err != nil {
+			return 0, err
+		}
 	}
 
 	// 读取拐点总数
-- 
2.43.0


From 51c618008666fc82aebaa9c26d6580d444e03fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:51 +0000
Subject: [PATCH 35/37] fix: the length of a candidate answer takes two bytes

---
 protocol/t808_0x8302.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/protocol/t808_0x8302.go b/protocol/t808_0x8302.go
index f186d10..636555e 100644
--- a/protocol/t808_0x8302.go
+++ b/protocol/t808_0x8302.go
@@ -62,10 +62,10 @@ func (entity *T808_0x8302) Encode() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
-		if len(content) > 0xff {
+		if len(content) > 0xffff {
 			return nil, ErrBodyTooLong
 		}
-		writer.WriteByte(byte(len(content)))
+		writer.WriteUint16(uint16(len(content)))
 
 		// 写入答案内容
 		writer.Write(content)
@@ -113,7 +113,7 @@ func (entity *T808_0x8302) Decode(data []byte) (int, error) {
 		}
 
 		// 读取内容长度
-		size, err := reader.ReadByte()
+		size, err := reader.ReadUint16()
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From d1d86105d69fc476b2df640611d12364aeb2e21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:26 +0000
Subject: [PATCH 36/37] fix: an item of the information menu carries its type

---
 protocol/t808_0x8303.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/protocol/t808_0x8303.go b/protocol/t808_0x8303.go
index 4f7ca66..042d70a 100644
--- a/protocol/t808_0x8303.go
+++ b/protocol/t808_0x8303.go
@@ -31,6 +31,8 @@ var (
 
 // 信息点播信息项
 type T808_0x8303_Item struct {
+	// 信息类型
+	Type byte
 	// 信息名称
 	Name string
 }
@@ -60,6 +62,9 @@ func (entity *T808_0x8303) Encode() ([]byte, error) {
 			return nil, err
 		}
 
+		// 写入信息类型
+		writer.WriteByte(item.Type)
+
 		// 写入名称长度
 		writer.WriteUint16(uint16(len(data)))
 
@@ -90,6 +95,12 @@ func (entity *T808_0x8303) Decode(data []byte) (int, error) {
 
 	// 读取信息项列表
 	for i := 0; i < int(count); i++ {
+		// 读取信息类型
+		typ, err := reader.ReadByte()
+		if err != nil {
+			return 0, err
+		}
+
 		// 读取名称长度
 		size, err := reader.ReadUint16()
 		if err != nil {
@@ -101,7 +112,7 @@ func (entity *T808_0x8303) Decode(data []byte) (int, error) {
 		if err != nil {
 			return 0, err
 		}
-		entity.Items = append(entity.Items, T808_0x8303_Item{Name: name})
+		entity.Items = append(entity.Items, T808_0x8303_Item{Type: typ, Name: name})
 	}
 	return len(data) - reader.Len(), nil
 }
-- 
2.43.0


From e458d7bf522149ed36378523fa3f1855c2cf0b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 37/37] fix: subscribing and unsubscribing carry the standard's
 codes

---
 protocol/t808_0x0303.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/t808_0x0303.go b/protocol/t808_0x0303.go
index 8e2bccd..0144921 100644
--- a/protocol/t808_0x0303.go
+++ b/protocol/t808_0x0303.go
@@ -13,9 +13,9 @@ type T808_0x0303_Flag byte
 
 var (
 	// 点播
-	T808_0x0303_FlagRequest T808_0x0303_Flag = 0
+	T808_0x0303_FlagRequest T808_0x0303_Flag = 1
 	// 取消
-	T808_0x0303_FlagCancel T808_0x0303_Flag = 1
+	T808_0x0303_FlagCancel T808_0x0303_Flag = 0
 )
 
 func (entity *T808_0x0303) MsgID() MsgID {
-- 
2.43.0

