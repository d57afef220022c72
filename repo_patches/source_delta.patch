From ff5d3c1af906292f0343a5133358f89998e3c092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 01/51] fix: return an error for truncated varints in the Go v1
 decoder

---
 decode.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/decode.go b/decode.go
index b9d58cf..3d5f69b 100644
--- a/decode.go
+++ b/decode.go
@@ -172,7 +172,7 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 	if len(b) > 1 && b[0] == Uint16Kind[0] {
 		var x uint16
 		var s uint
-		for i := 1; i < VarIntLen16+1; i++ {
+		for i := 1; i < VarIntLen16+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
@@ -193,7 +193,7 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 	if len(b) > 1 && b[0] == Uint32Kind[0] {
 		var x uint32
 		var s uint
-		for i := 1; i < VarIntLen32+1; i++ {
+		for i := 1; i < VarIntLen32+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
@@ -215,7 +215,7 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 	if len(b) > 1 && b[0] == Uint64Kind[0] {
 		var x uint64
 		var s uint
-		for i := 1; i < VarIntLen64+1; i++ {
+		for i := 1; i < VarIntLen64+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
@@ -238,7 +238,7 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 	if len(b) > 1 && b[0] == Int32Kind[0] {
 		var ux uint32
 		var s uint
-		for i := 1; i < VarIntLen32+1; i++ {
+		for i := 1; i < VarIntLen32+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
@@ -266,7 +266,7 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 	if len(b) > 1 && b[0] == Int64Kind[0] {
 		var ux uint64
 		var s uint
-		for i := 1; i < VarIntLen64+1; i++ {
+		for i := 1; i < VarIntLen64+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-- 
2.43.0


From a10bafdcb8ae0d5b5803969ddbb42384d7bf1098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 02/51] fix: refuse varints that overflow their type in the Go
 v1 decoder

---
 decode.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/decode.go b/decode.go
index 3d5f69b..07a2545 100644
--- a/decode.go
+++ b/decode.go
@@ -176,8 +176,8 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen16 && cb > 1 {
-					return b, 0, InvalidUint32
+				if i == VarIntLen16 && cb > 3 {
+					return b, 0, InvalidUint16
 				}
 				// End of varint, add the last bits and advance the buffer
 				return b[i+1:], x | uint16(cb)<<s, nil
@@ -197,7 +197,7 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen32 && cb > 1 {
+				if i == VarIntLen32 && cb > 15 {
 					return b, 0, InvalidUint32
 				}
 				// End of varint, add the last bits and advance the buffer
@@ -220,7 +220,7 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
 				// Check for overflow
-				if i > VarIntLen64 && cb > 1 {
+				if i == VarIntLen64 && cb > 1 {
 					return b, 0, InvalidUint64
 				}
 				// End of varint, add the last bits and advance the buffer
@@ -242,7 +242,7 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen32 && cb > 1 {
+				if i == VarIntLen32 && cb > 15 {
 					return b, 0, InvalidInt32
 				}
 				// End of varint, add the last bits
@@ -270,7 +270,7 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen64 && cb > 1 {
+				if i == VarIntLen64 && cb > 1 {
 					return b, 0, InvalidInt64
 				}
 				// End of varint, add the last bits
-- 
2.43.0


From a831cc2512a66922770c1cb17a4bdd9dd5e0a1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 03/51] fix: return only the decoded bytes when the scratch
 slice is longer in the Go v1 decoder

---
 decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decode.go b/decode.go
index 07a2545..2a28ec2 100644
--- a/decode.go
+++ b/decode.go
@@ -103,7 +103,7 @@ func decodeBytes(b, ret []byte) ([]byte, []byte, error) {
 						ret = append(ret[:0], b[:size]...)
 					}
 				} else {
-					copy(ret[0:], b[:size])
+					ret = ret[:copy(ret, b[:size])]
 				}
 				return b[size:], ret, nil
 			}
-- 
2.43.0


From e83d6ebd5f18ce9bf2c68255f6f428c5c86230e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 04/51] fix: refuse bool payloads other than 0 and 1 in the Go
 v1 decoder

---
 decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decode.go b/decode.go
index 2a28ec2..97385ba 100644
--- a/decode.go
+++ b/decode.go
@@ -149,7 +149,7 @@ func decodeBool(b []byte) ([]byte, bool, error) {
 		if b[0] == BoolKind[0] {
 			if b[1] == trueBool {
 				return b[2:], true, nil
-			} else {
+			} else if b[1] == falseBool {
 				return b[2:], false, nil
 			}
 		}
-- 
2.43.0


From f97d09a5630e93e1792defaba95b82604e60fb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 05/51] fix: return an error for truncated varints in the Go v2
 decoder

---
 v2/decode.go | 96 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 96 insertions(+)

diff --git a/v2/decode.go b/v2/decode.go
index 5548906..b56bb5e 100644
--- a/v2/decode.go
+++ b/v2/decode.go
@@ -89,24 +89,36 @@ func decodeBytes(b []byte, ret []byte) ([]byte, []byte, error) {
 			offset = 3
 		} else {
 			x := cb & (continuation - 1)
+			if len(b) < 4 {
+				return b, nil, ErrInvalidBytes
+			}
 			cb = uint32(b[3])
 			if cb < continuation {
 				size = int(x | (cb << 7))
 				offset = 4
 			} else {
 				x |= (cb & (continuation - 1)) << 7
+				if len(b) < 5 {
+					return b, nil, ErrInvalidBytes
+				}
 				cb = uint32(b[4])
 				if cb < continuation {
 					size = int(x | (cb << 14))
 					offset = 5
 				} else {
 					x |= (cb & (continuation - 1)) << 14
+					if len(b) < 6 {
+						return b, nil, ErrInvalidBytes
+					}
 					cb = uint32(b[5])
 					if cb < continuation {
 						size = int(x | (cb << 21))
 						offset = 6
 					} else {
 						x |= (cb & (continuation - 1)) << 21
+						if len(b) < 7 {
+							return b, nil, ErrInvalidBytes
+						}
 						cb = uint32(b[6])
 						if cb < continuation {
 							size = int(x | (cb << 28))
@@ -178,12 +190,18 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidUint16
+		}
 		cb = uint16(b[2])
 		if cb < continuation {
 			return b[3:], x | (cb << 7), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidUint16
+		}
 		cb = uint16(b[3])
 		if cb < continuation {
 			return b[4:], x | (cb << 14), nil
@@ -200,24 +218,36 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidUint32
+		}
 		cb = uint32(b[2])
 		if cb < continuation {
 			return b[3:], x | (cb << 7), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidUint32
+		}
 		cb = uint32(b[3])
 		if cb < continuation {
 			return b[4:], x | (cb << 14), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 14
+		if len(b) < 5 {
+			return b, 0, ErrInvalidUint32
+		}
 		cb = uint32(b[4])
 		if cb < continuation {
 			return b[5:], x | (cb << 21), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 21
+		if len(b) < 6 {
+			return b, 0, ErrInvalidUint32
+		}
 		cb = uint32(b[5])
 		if cb < continuation {
 			return b[6:], x | (cb << 28), nil
@@ -234,54 +264,81 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[2])
 		if cb < continuation {
 			return b[3:], x | (cb << 7), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[3])
 		if cb < continuation {
 			return b[4:], x | (cb << 14), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 14
+		if len(b) < 5 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[4])
 		if cb < continuation {
 			return b[5:], x | (cb << 21), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 21
+		if len(b) < 6 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[5])
 		if cb < continuation {
 			return b[6:], x | (cb << 28), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 28
+		if len(b) < 7 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[6])
 		if cb < continuation {
 			return b[7:], x | (cb << 35), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 35
+		if len(b) < 8 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[7])
 		if cb < continuation {
 			return b[8:], x | (cb << 42), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 42
+		if len(b) < 9 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[8])
 		if cb < continuation {
 			return b[9:], x | (cb << 49), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 49
+		if len(b) < 10 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[9])
 		if cb < continuation {
 			return b[10:], x | (cb << 56), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 56
+		if len(b) < 11 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[10])
 		if cb < continuation {
 			return b[11:], x | (cb << 63), nil
@@ -302,6 +359,9 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidInt32
+		}
 		cb = uint32(b[2])
 		if cb < continuation {
 			x |= cb << 7
@@ -312,6 +372,9 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidInt32
+		}
 		cb = uint32(b[3])
 		if cb < continuation {
 			x |= cb << 14
@@ -322,6 +385,9 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 14
+		if len(b) < 5 {
+			return b, 0, ErrInvalidInt32
+		}
 		cb = uint32(b[4])
 		if cb < continuation {
 			x |= cb << 21
@@ -332,6 +398,9 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 21
+		if len(b) < 6 {
+			return b, 0, ErrInvalidInt32
+		}
 		cb = uint32(b[5])
 		if cb < continuation {
 			x |= cb << 28
@@ -356,6 +425,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[2])
 		if cb < continuation {
 			x |= cb << 7
@@ -366,6 +438,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[3])
 		if cb < continuation {
 			x |= cb << 14
@@ -376,6 +451,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 14
+		if len(b) < 5 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[4])
 		if cb < continuation {
 			x |= cb << 21
@@ -386,6 +464,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 21
+		if len(b) < 6 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[5])
 		if cb < continuation {
 			x |= cb << 28
@@ -396,6 +477,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 28
+		if len(b) < 7 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[6])
 		if cb < continuation {
 			x |= cb << 35
@@ -406,6 +490,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 35
+		if len(b) < 8 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[7])
 		if cb < continuation {
 			x |= cb << 42
@@ -416,6 +503,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 42
+		if len(b) < 9 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[8])
 		if cb < continuation {
 			x |= cb << 49
@@ -426,6 +516,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 49
+		if len(b) < 10 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[9])
 		if cb < continuation {
 			x |= cb << 56
@@ -436,6 +529,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 56
+		if len(b) < 11 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[10])
 		if cb < continuation {
 			x |= cb << 63
-- 
2.43.0


From 6322f6c6b27dadfdd353babb66cfc1118a4bec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 06/51] fix: refuse varints that overflow their type in the Go
 v2 decoder

---
 v2/decode.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/v2/decode.go b/v2/decode.go
index b56bb5e..25b18ba 100644
--- a/v2/decode.go
+++ b/v2/decode.go
@@ -120,10 +120,11 @@ func decodeBytes(b []byte, ret []byte) ([]byte, []byte, error) {
 							return b, nil, ErrInvalidBytes
 						}
 						cb = uint32(b[6])
-						if cb < continuation {
-							size = int(x | (cb << 28))
-							offset = 7
+						if cb > 15 {
+							return b, nil, ErrInvalidBytes
 						}
+						size = int(x | (cb << 28))
+						offset = 7
 					}
 				}
 			}
@@ -203,7 +204,7 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 			return b, 0, ErrInvalidUint16
 		}
 		cb = uint16(b[3])
-		if cb < continuation {
+		if cb <= 3 {
 			return b[4:], x | (cb << 14), nil
 		}
 	}
@@ -249,7 +250,7 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 			return b, 0, ErrInvalidUint32
 		}
 		cb = uint32(b[5])
-		if cb < continuation {
+		if cb <= 15 {
 			return b[6:], x | (cb << 28), nil
 		}
 	}
@@ -340,7 +341,7 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 			return b, 0, ErrInvalidUint64
 		}
 		cb = uint64(b[10])
-		if cb < continuation {
+		if cb <= 1 {
 			return b[11:], x | (cb << 63), nil
 		}
 	}
@@ -402,7 +403,7 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 			return b, 0, ErrInvalidInt32
 		}
 		cb = uint32(b[5])
-		if cb < continuation {
+		if cb <= 15 {
 			x |= cb << 28
 			if x&1 != 0 {
 				return b[6:], -(int32(x>>1) + 1), nil
@@ -533,7 +534,7 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 			return b, 0, ErrInvalidInt64
 		}
 		cb = uint64(b[10])
-		if cb < continuation {
+		if cb <= 1 {
 			x |= cb << 63
 			if x&1 != 0 {
 				return b[11:], -(int64(x>>1) + 1), nil
-- 
2.43.0


From 495b04dfc1c7af8257be7410b9c0d9c2cebd9991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 07/51] fix: keep the fifth length byte of large byte slices in
 the Go v2 encoder

---
 v2/encode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v2/encode.go b/v2/encode.go
index 8422540..0a7b355 100644
--- a/v2/encode.go
+++ b/v2/encode.go
@@ -232,6 +232,7 @@ func encodeBytes(b *Buffer, value []byte) {
 					castValue >>= 7
 					if castValue < continuation {
 						b.b[offset] = byte(castValue)
+						offset++
 					} else {
 						b.b[offset] = byte(castValue&(continuation-1)) | continuation
 						offset++
-- 
2.43.0


From acb8b7236724076f55731d41be8c1762f3068877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 08/51] fix: use the whole capacity of a wrapped slice in the
 Go v2 buffer

---
 v2/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v2/buffer.go b/v2/buffer.go
index 1c85560..d20d46c 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -41,7 +41,7 @@ func NewBufferSize(size int) *Buffer {
 
 func NewBufferFromBytes(b []byte) *Buffer {
 	return &Buffer{
-		b:      b,
+		b:      b[:cap(b)],
 		offset: 0,
 	}
 }
-- 
2.43.0


From 2106e2d829fc1b93f14a0647309ccc1ee04ea9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 09/51] fix: leave the position unchanged when the Rust decoder
 meets another array, map or error kind

---
 decoder.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/decoder.rs b/decoder.rs
index 43624e9..70dd466 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -88,32 +88,31 @@ where
     }
 
     fn decode_array(&mut self, val_kind: Kind) -> Result<usize, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidArray)?;
-        let defined_val_kind = self.read_u8().ok().ok_or(DecodingError::InvalidArray)?;
-        if kind == Kind::Array as u8 && val_kind as u8 == defined_val_kind {
+        if kind == Kind::Array as u8 && self.read_u8().ok() == Some(val_kind as u8) {
             return match self.decode_u32() {
                 Err(err) => Err(err),
                 Ok(val) => Ok(val as usize),
             };
         }
-        self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidU32)
+        self.set_position(start);
+        Err(DecodingError::InvalidArray)
     }
 
     fn decode_map(&mut self, key_kind: Kind, val_kind: Kind) -> Result<usize, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
-        let defined_key_kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
-        let defined_val_kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
         if kind == Kind::Map as u8
-            && key_kind as u8 == defined_key_kind
-            && val_kind as u8 == defined_val_kind
+            && self.read_u8().ok() == Some(key_kind as u8)
+            && self.read_u8().ok() == Some(val_kind as u8)
         {
             return match self.decode_u32() {
                 Err(err) => Err(err),
                 Ok(val) => Ok(val as usize),
             };
         }
-        self.set_position(self.position() - 1);
+        self.set_position(start);
         Err(DecodingError::InvalidMap)
     }
 
@@ -151,9 +150,9 @@ where
     }
 
     fn decode_error(&mut self) -> Result<Box<dyn Error>, DecodingError> {
+        let start = self.position();
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidError)?;
-        let nested_kind = self.read_u8().ok().ok_or(DecodingError::InvalidError)?;
-        if kind == Kind::Error as u8 && nested_kind == Kind::String as u8 {
+        if kind == Kind::Error as u8 && self.read_u8().ok() == Some(Kind::String as u8) {
             let size = self.decode_u32()? as usize;
             let mut str_buf = vec![0u8; size];
             self.read_exact(&mut str_buf)
@@ -165,7 +164,7 @@ where
                 .ok_or(DecodingError::InvalidError)?;
             return Ok(Box::<dyn Error>::from(result.to_owned()));
         }
-        self.set_position(self.position() - 2);
+        self.set_position(start);
         Err(DecodingError::InvalidError)
     }
 
-- 
2.43.0


From 7b293be4967fc71b475a8279e8b85ca00f8b77b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 10/51] fix: name the requested type in the Rust decoder's u16
 and u64 errors

---
 decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder.rs b/decoder.rs
index 70dd466..0b03895 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -203,7 +203,7 @@ where
             }
         }
         self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidU32)
+        Err(DecodingError::InvalidU16)
     }
 
     fn decode_u32(&mut self) -> Result<u32, DecodingError> {
@@ -241,7 +241,7 @@ where
             }
         }
         self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidU32)
+        Err(DecodingError::InvalidU64)
     }
 
     fn decode_i32(&mut self) -> Result<i32, DecodingError> {
-- 
2.43.0


From b2ab13400cbdfb97cfaaaa02e94bbefb2f8a4b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 11/51] fix: check the remaining input before the Rust decoder
 allocates a declared length

---
 decoder.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/decoder.rs b/decoder.rs
index 0b03895..d3ffe03 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -55,6 +55,18 @@ const VARINT_LEN32: u32 = 5;
 const VARINT_LEN64: u64 = 10;
 const CONTINUATION: u8 = 0x80;
 
+/// Reads exactly `size` bytes, allocating nothing if fewer than that remain.
+fn read_sized<T: AsRef<[u8]>>(cursor: &mut Cursor<T>, size: usize) -> Option<Vec<u8>> {
+    let position = usize::try_from(cursor.position()).ok()?;
+    let available = cursor.get_ref().as_ref().len().saturating_sub(position);
+    if size > available {
+        return None;
+    }
+    let mut buf = vec![0u8; size];
+    cursor.read_exact(&mut buf).ok()?;
+    Some(buf)
+}
+
 pub trait Decoder {
     fn decode_none(&mut self) -> bool;
     fn decode_array(&mut self, val_kind: Kind) -> Result<usize, DecodingError>;
@@ -120,11 +132,7 @@ where
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidBytes)?;
         if kind == Kind::Bytes as u8 {
             let size = self.decode_u32()? as usize;
-            let mut buf = vec![0u8; size];
-            self.read_exact(&mut buf)
-                .ok()
-                .ok_or(DecodingError::InvalidBytes)?;
-            return Ok(buf);
+            return read_sized(self, size).ok_or(DecodingError::InvalidBytes);
         }
         self.set_position(self.position() - 1);
         Err(DecodingError::InvalidBytes)
@@ -135,10 +143,7 @@ where
 
         if kind == Kind::String as u8 {
             let size = self.decode_u32()? as usize;
-            let mut str_buf = vec![0u8; size];
-            self.read_exact(&mut str_buf)
-                .ok()
-                .ok_or(DecodingError::InvalidString)?;
+            let str_buf = read_sized(self, size).ok_or(DecodingError::InvalidString)?;
 
             let result = str::from_utf8(&str_buf)
                 .ok()
@@ -154,10 +159,7 @@ where
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidError)?;
         if kind == Kind::Error as u8 && self.read_u8().ok() == Some(Kind::String as u8) {
             let size = self.decode_u32()? as usize;
-            let mut str_buf = vec![0u8; size];
-            self.read_exact(&mut str_buf)
-                .ok()
-                .ok_or(DecodingError::InvalidError)?;
+            let str_buf = read_sized(self, size).ok_or(DecodingError::InvalidError)?;
 
             let result = str::from_utf8(&str_buf)
                 .ok()
-- 
2.43.0


From 8deef9d368952b1b4d9e9e5bd04e7997efa78257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 12/51] fix: refuse varints that overflow their type in the
 Rust decoder

---
 decoder.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/decoder.rs b/decoder.rs
index d3ffe03..90ed8ac 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -195,9 +195,12 @@ where
             let mut x: u16 = 0;
             let mut s: u32 = 0;
 
-            for _ in 0..VARINT_LEN16 {
+            for i in 0..VARINT_LEN16 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidU16)?;
                 if byte < CONTINUATION {
+                    if i == VARINT_LEN16 - 1 && byte > 3 {
+                        return Err(DecodingError::InvalidU16);
+                    }
                     return Ok(x | ((byte as u16) << s));
                 }
                 x |= (byte as u16 & ((CONTINUATION as u16) - 1)) << s;
@@ -214,9 +217,12 @@ where
             let mut x: u32 = 0;
             let mut s: u32 = 0;
 
-            for _ in 0..VARINT_LEN32 {
+            for i in 0..VARINT_LEN32 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidU32)?;
                 if byte < CONTINUATION {
+                    if i == VARINT_LEN32 - 1 && byte > 15 {
+                        return Err(DecodingError::InvalidU32);
+                    }
                     return Ok(x | ((byte as u32) << s));
                 }
                 x |= (byte as u32 & ((CONTINUATION as u32) - 1)) << s;
@@ -233,9 +239,12 @@ where
             let mut x: u64 = 0;
             let mut s: u32 = 0;
 
-            for _ in 0..VARINT_LEN64 {
+            for i in 0..VARINT_LEN64 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidU64)?;
                 if byte < CONTINUATION {
+                    if i == VARINT_LEN64 - 1 && byte > 1 {
+                        return Err(DecodingError::InvalidU64);
+                    }
                     return Ok(x | ((byte as u64) << s));
                 }
                 x |= (byte as u64 & ((CONTINUATION as u64) - 1)) << s;
@@ -252,9 +261,12 @@ where
             let mut ux: u32 = 0;
             let mut s: u32 = 0;
 
-            for _ in 0..VARINT_LEN32 {
+            for i in 0..VARINT_LEN32 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidI32)?;
                 if byte < CONTINUATION {
+                    if i == VARINT_LEN32 - 1 && byte > 15 {
+                        return Err(DecodingError::InvalidI32);
+                    }
                     ux |= (byte as u32) << s;
                     let mut x = (ux >> 1) as i32;
                     if ux & 1 != 0 {
@@ -276,9 +288,12 @@ where
             let mut ux: u64 = 0;
             let mut s: u32 = 0;
 
-            for _ in 0..VARINT_LEN64 {
+            for i in 0..VARINT_LEN64 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidI64)?;
                 if byte < CONTINUATION {
+                    if i == VARINT_LEN64 - 1 && byte > 1 {
+                        return Err(DecodingError::InvalidI64);
+                    }
                     ux |= (byte as u64) << s;
                     let mut x = (ux >> 1) as i64;
                     if ux & 1 != 0 {
-- 
2.43.0


From d824e9b1b47b022cbfc6ee6e9e9252e32ab4184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 13/51] fix: refuse bool payloads other than 0 and 1 in the
 Rust decoder

---
 decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/decoder.rs b/decoder.rs
index 90ed8ac..9dd611f 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -174,7 +174,11 @@ where
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidBool)?;
         if kind == Kind::Bool as u8 {
             let val = self.read_u8().ok().ok_or(DecodingError::InvalidBool)?;
-            return Ok(val == 1);
+            return match val {
+                0 => Ok(false),
+                1 => Ok(true),
+                _ => Err(DecodingError::InvalidBool),
+            };
         }
         self.set_position(self.position() - 1);
         Err(DecodingError::InvalidBool)
-- 
2.43.0


From 1042f583a89035f1546253dd08e5f40190fcbcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 14/51] fix: report a status from the C polyglot_decode_none
 and refuse a null decoder

---
 c_bindings/decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c_bindings/decoder.rs b/c_bindings/decoder.rs
index d518ba4..d645514 100644
--- a/c_bindings/decoder.rs
+++ b/c_bindings/decoder.rs
@@ -70,9 +70,13 @@ pub extern "C" fn polyglot_decode_none(status: *mut Status, decoder: *mut Decode
         unsafe {
             *status = Status::NullPointer;
         }
+        return false;
     }
 
-    unsafe { (*decoder).cursor.decode_none() }
+    unsafe {
+        *status = Status::Pass;
+        (*decoder).cursor.decode_none()
+    }
 }
 
 #[no_mangle]
-- 
2.43.0


From 1950fcef7cfe3bc1c2b659ea8918ab0c8db2af5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 15/51] fix: free the whole slice in the C
 polyglot_free_decode_bytes

---
 c_bindings/decoder.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/c_bindings/decoder.rs b/c_bindings/decoder.rs
index d645514..b211351 100644
--- a/c_bindings/decoder.rs
+++ b/c_bindings/decoder.rs
@@ -173,10 +173,9 @@ pub extern "C" fn polyglot_decode_bytes(status: *mut Status, decoder: *mut Decod
 pub extern "C" fn polyglot_free_decode_bytes(buffer: *mut Buffer) {
     if !buffer.is_null() {
         unsafe {
-            let boxed_value =
+            let value =
                 std::slice::from_raw_parts_mut((*buffer).data, (*buffer).length as usize);
-            let value = boxed_value.as_mut_ptr();
-            drop(Box::from_raw(value));
+            drop(Box::from_raw(value as *mut [u8]));
             drop(Box::from_raw(buffer));
         }
     }
-- 
2.43.0


From 75402153298571876d6c6daa922de19800e6e53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 16/51] fix: report success from the C polyglot_encoder_size

---
 c_bindings/encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c_bindings/encoder.rs b/c_bindings/encoder.rs
index 556da37..b7c073e 100644
--- a/c_bindings/encoder.rs
+++ b/c_bindings/encoder.rs
@@ -54,6 +54,7 @@ pub extern "C" fn polyglot_encoder_size(status: *mut Status, encoder: *mut Encod
     }
 
     unsafe {
+        *status = Status::Pass;
         (*encoder).cursor.get_ref().len() as u32
     }
 }
-- 
2.43.0


From fb2989703eded364f1141714accf255da98de449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 17/51] fix: refuse a null string pointer in the C string and
 error encoders

---
 c_bindings/encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c_bindings/encoder.rs b/c_bindings/encoder.rs
index b7c073e..ae88b38 100644
--- a/c_bindings/encoder.rs
+++ b/c_bindings/encoder.rs
@@ -194,7 +194,7 @@ pub extern "C" fn polyglot_encode_bytes(status: *mut Status, encoder: *mut Encod
 pub extern "C" fn polyglot_encode_string(status: *mut Status, encoder: *mut Encoder, string_pointer: *const c_char) {
     Status::check_not_null(status);
 
-    if encoder.is_null() {
+    if encoder.is_null() || string_pointer.is_null() {
         unsafe {
             *status = Status::NullPointer;
         }
@@ -224,7 +224,7 @@ pub extern "C" fn polyglot_encode_string(status: *mut Status, encoder: *mut Enco
 pub extern "C" fn polyglot_encode_error(status: *mut Status, encoder: *mut Encoder, string_pointer: *mut c_char) {
     Status::check_not_null(status);
 
-    if encoder.is_null() {
+    if encoder.is_null() || string_pointer.is_null() {
         unsafe {
             *status = Status::NullPointer;
         }
-- 
2.43.0


From 16a508d6637321a8d7d50c48e07ec53b855c9621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 18/51] fix: reserve enough room for every value in the
 TypeScript encoder

---
 encoder.ts | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/encoder.ts b/encoder.ts
index fca1760..510c262 100644
--- a/encoder.ts
+++ b/encoder.ts
@@ -41,7 +41,9 @@ export class Encoder {
     if (this.#buf.length - this.#pos < minLen) {
       const oldBuf = this.#buf;
 
-      this.#buf = new Uint8Array(this.#buf.buffer.byteLength * 2);
+      this.#buf = new Uint8Array(
+        Math.max(oldBuf.length * 2, this.#pos + minLen),
+      );
       this.#buf.set(oldBuf);
     }
   }
@@ -52,7 +54,7 @@ export class Encoder {
 
   private varint(value: number, kind: Kind, maxBytes: number, signed = false) {
     let val = value;
-    this.resize(maxBytes);
+    this.resize(1 + maxBytes);
     this.#buf[this.#pos] = kind;
     this.#pos += 1;
 
@@ -75,7 +77,7 @@ export class Encoder {
     signed = false,
   ) {
     let val = BigInt(value);
-    this.resize(maxBytes);
+    this.resize(1 + maxBytes);
     this.#buf[this.#pos] = kind;
     this.#pos += 1;
 
@@ -136,7 +138,7 @@ export class Encoder {
   }
 
   uint64(value: bigint) {
-    return this.varintBig(value, Kind.Uint64, 9);
+    return this.varintBig(value, Kind.Uint64, 10);
   }
 
   int32(value: number) {
@@ -144,7 +146,7 @@ export class Encoder {
   }
 
   int64(value: bigint) {
-    return this.varintBig(value, Kind.Int64, 9, true);
+    return this.varintBig(value, Kind.Int64, 10, true);
   }
 
   float32(value: number) {
@@ -193,7 +195,7 @@ export class Encoder {
   }
 
   uint8Array(value: Uint8Array) {
-    this.resize(5 + value.length);
+    this.resize(7 + value.length);
     this.#buf[this.#pos] = Kind.Uint8Array;
     this.#pos += 1;
     this.uint32(value.length);
@@ -205,7 +207,7 @@ export class Encoder {
   string(value: string) {
     const v = new TextEncoder().encode(value);
 
-    this.resize(5 + v.length);
+    this.resize(7 + v.length);
     this.#buf[this.#pos] = Kind.String;
     this.#pos += 1;
     this.uint32(v.length);
@@ -217,7 +219,7 @@ export class Encoder {
   error(value: Error) {
     const v = new TextEncoder().encode(value.message);
 
-    this.resize(6 + v.length);
+    this.resize(8 + v.length);
     this.#buf[this.#pos] = Kind.Error;
     this.#buf[this.#pos + 1] = Kind.String;
     this.#pos += 2;
-- 
2.43.0


From d967d34b0efd2c1c1553a6789da1cfe3dd0ecbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 19/51] fix: encode into a wrapped subarray in the TypeScript
 encoder

---
 encoder.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoder.ts b/encoder.ts
index 510c262..4319fa2 100644
--- a/encoder.ts
+++ b/encoder.ts
@@ -49,7 +49,7 @@ export class Encoder {
   }
 
   get bytes() {
-    return new Uint8Array(this.#buf.buffer, 0, this.#pos);
+    return this.#buf.subarray(0, this.#pos);
   }
 
   private varint(value: number, kind: Kind, maxBytes: number, signed = false) {
-- 
2.43.0


From 0931c041c40b2e6b4f13249d2773169458fc26df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 20/51] fix: decode the third varint byte of uint16 in the
 TypeScript decoder

---
 decoder.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.ts b/decoder.ts
index ccc108d..f62a36f 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -225,7 +225,7 @@ export class Decoder {
       if (b < CONTINUATION) {
         return (num | (b << shift)) >>> 0;
       }
-      num |= b & ((CONTINUATION - 1) << shift);
+      num |= (b & (CONTINUATION - 1)) << shift;
       shift += 7;
     }
     return num;
-- 
2.43.0


From be1dbfe4857c5c80d5bfb4cccf8e3d81280518dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 21/51] fix: keep a leading byte order mark in strings in the
 TypeScript decoder

---
 decoder.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index f62a36f..7da7518 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -299,7 +299,7 @@ export class Decoder {
   string(): string {
     this.validateKind(Kind.String, InvalidStringError);
     const size = this.uint32();
-    const value = new TextDecoder().decode(
+    const value = new TextDecoder("utf-8", { ignoreBOM: true }).decode(
       this.buf.slice(this.#pos, this.#pos + size),
     );
     this.#pos += size;
@@ -315,7 +315,9 @@ export class Decoder {
 
     const size = this.uint32();
     const value = new Error(
-      new TextDecoder().decode(this.buf.slice(this.#pos, this.#pos + size)),
+      new TextDecoder("utf-8", { ignoreBOM: true }).decode(
+        this.buf.slice(this.#pos, this.#pos + size),
+      ),
     );
     this.#pos += size;
     return value;
-- 
2.43.0


From 86ab2799b79bfefca0b341e828c162f3b0396115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 22/51] fix: leave the position unchanged when the TypeScript
 decoder meets another array, map or error kind

---
 decoder.ts | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index 7da7518..3ecdb36 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -154,10 +154,16 @@ export class Decoder {
   }
 
   private validateKind(expected: Kind, Err: new () => Error) {
-    if ((this.peek() as Kind) !== expected) {
+    this.validateKinds([expected], Err);
+  }
+
+  private validateKinds(expected: Kind[], Err: new () => Error) {
+    if (
+      expected.some((kind, i) => (this.buf[this.#pos + i] as Kind) !== kind)
+    ) {
       throw new Err();
     }
-    this.#pos += 1;
+    this.#pos += expected.length;
   }
 
   get length(): number {
@@ -276,15 +282,12 @@ export class Decoder {
   }
 
   array(valueKind: Kind): number {
-    this.validateKind(Kind.Array, InvalidArrayError);
-    this.validateKind(valueKind, InvalidArrayError);
+    this.validateKinds([Kind.Array, valueKind], InvalidArrayError);
     return this.uint32();
   }
 
   map(keyKind: Kind, valueKind: Kind): number {
-    this.validateKind(Kind.Map, InvalidMapError);
-    this.validateKind(keyKind, InvalidMapError);
-    this.validateKind(valueKind, InvalidMapError);
+    this.validateKinds([Kind.Map, keyKind, valueKind], InvalidMapError);
     return this.uint32();
   }
 
@@ -307,12 +310,7 @@ export class Decoder {
   }
 
   error(): Error {
-    this.validateKind(Kind.Error, InvalidErrorError);
-    const nestedType = this.pop() as Kind;
-    if (nestedType !== Kind.String) {
-      throw new InvalidErrorError();
-    }
-
+    this.validateKinds([Kind.Error, Kind.String], InvalidErrorError);
     const size = this.uint32();
     const value = new Error(
       new TextDecoder("utf-8", { ignoreBOM: true }).decode(
-- 
2.43.0


From d560f75b79b203db6aaf527631ef688dfb773ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 23/51] fix: throw on truncated input in the TypeScript decoder

---
 decoder.ts | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index 3ecdb36..323637e 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -147,7 +147,14 @@ export class Decoder {
     return this.buf[this.#pos];
   }
 
-  private pop(): number {
+  private require(size: number, Err: new () => Error) {
+    if (this.length < size) {
+      throw new Err();
+    }
+  }
+
+  private pop(Err: new () => Error): number {
+    this.require(1, Err);
     const val = this.buf[this.#pos];
     this.#pos += 1;
     return val;
@@ -170,11 +177,15 @@ export class Decoder {
     return this.buf.length - this.#pos;
   }
 
-  private varint(maxLen: number, signed = false): bigint {
+  private varint(
+    maxLen: number,
+    Err: new () => Error,
+    signed = false,
+  ): bigint {
     let num = 0n;
     let shift = 0n;
     for (let i = 1; i < maxLen + 1; i += 1) {
-      const b = this.pop();
+      const b = this.pop(Err);
       if (b < BigInt(CONTINUATION)) {
         num += BigInt(b) << shift;
         if (signed) {
@@ -186,7 +197,7 @@ export class Decoder {
       num += BigInt(b & (CONTINUATION - 1)) << shift;
       shift += 7n;
     }
-    return num;
+    throw new Err();
   }
 
   null(): boolean {
@@ -207,11 +218,12 @@ export class Decoder {
 
   boolean(): boolean {
     this.validateKind(Kind.Boolean, InvalidBooleanError);
-    return this.pop() === BOOLEAN_TRUE;
+    return this.pop(InvalidBooleanError) === BOOLEAN_TRUE;
   }
 
   uint8(): number {
     this.validateKind(Kind.Uint8, InvalidUint8Error);
+    this.require(1, InvalidUint8Error);
     const dataView = new DataView(
       this.buf.buffer,
       this.buf.byteOffset + this.#pos,
@@ -227,38 +239,39 @@ export class Decoder {
     let num = 0;
     let shift = 0;
     for (let i = 1; i < MAXLEN16 + 1; i += 1) {
-      const b = this.pop();
+      const b = this.pop(InvalidUint16Error);
       if (b < CONTINUATION) {
         return (num | (b << shift)) >>> 0;
       }
       num |= (b & (CONTINUATION - 1)) << shift;
       shift += 7;
     }
-    return num;
+    throw new InvalidUint16Error();
   }
 
   uint32(): number {
     this.validateKind(Kind.Uint32, InvalidUint32Error);
-    return Number(this.varint(MAXLEN32));
+    return Number(this.varint(MAXLEN32, InvalidUint32Error));
   }
 
   uint64(): bigint {
     this.validateKind(Kind.Uint64, InvalidUint64Error);
-    return this.varint(MAXLEN64);
+    return this.varint(MAXLEN64, InvalidUint64Error);
   }
 
   int32(): number {
     this.validateKind(Kind.Int32, InvalidInt32Error);
-    return Number(this.varint(MAXLEN32, true));
+    return Number(this.varint(MAXLEN32, InvalidInt32Error, true));
   }
 
   int64(): bigint {
     this.validateKind(Kind.Int64, InvalidInt64Error);
-    return this.varint(MAXLEN64, true);
+    return this.varint(MAXLEN64, InvalidInt64Error, true);
   }
 
   float32(): number {
     this.validateKind(Kind.Float32, InvalidFloat32Error);
+    this.require(4, InvalidFloat32Error);
     const dataView = new DataView(
       this.buf.buffer,
       this.buf.byteOffset + this.#pos,
@@ -271,6 +284,7 @@ export class Decoder {
 
   float64(): number {
     this.validateKind(Kind.Float64, InvalidFloat64Error);
+    this.require(8, InvalidFloat64Error);
     const dataView = new DataView(
       this.buf.buffer,
       this.buf.byteOffset + this.#pos,
@@ -294,6 +308,7 @@ export class Decoder {
   uint8Array(): Uint8Array {
     this.validateKind(Kind.Uint8Array, InvalidUint8ArrayError);
     const size = this.uint32();
+    this.require(size, InvalidUint8ArrayError);
     const value = this.buf.slice(this.#pos, this.#pos + size);
     this.#pos += size;
     return value;
@@ -302,6 +317,7 @@ export class Decoder {
   string(): string {
     this.validateKind(Kind.String, InvalidStringError);
     const size = this.uint32();
+    this.require(size, InvalidStringError);
     const value = new TextDecoder("utf-8", { ignoreBOM: true }).decode(
       this.buf.slice(this.#pos, this.#pos + size),
     );
@@ -312,6 +328,7 @@ export class Decoder {
   error(): Error {
     this.validateKinds([Kind.Error, Kind.String], InvalidErrorError);
     const size = this.uint32();
+    this.require(size, InvalidErrorError);
     const value = new Error(
       new TextDecoder("utf-8", { ignoreBOM: true }).decode(
         this.buf.slice(this.#pos, this.#pos + size),
-- 
2.43.0


From 45d4dcb86d7f2f3cd675e63987cf7c4de403951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 24/51] fix: refuse varints that overflow their type in the
 TypeScript decoder

---
 decoder.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/decoder.ts b/decoder.ts
index 323637e..cb7303f 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -23,6 +23,8 @@ const CONTINUATION = 0x80;
 const MAXLEN16 = 3;
 const MAXLEN32 = 5;
 const MAXLEN64 = 10;
+const MAX_UINT32 = 0xffffffffn;
+const MAX_UINT64 = 0xffffffffffffffffn;
 
 export class InvalidBooleanError extends Error {
   constructor() {
@@ -188,6 +190,9 @@ export class Decoder {
       const b = this.pop(Err);
       if (b < BigInt(CONTINUATION)) {
         num += BigInt(b) << shift;
+        if (num > (maxLen === MAXLEN32 ? MAX_UINT32 : MAX_UINT64)) {
+          throw new Err();
+        }
         if (signed) {
           // two's complement
           num = num % 2n === 0n ? num / 2n : -(num + 1n) / 2n;
@@ -241,6 +246,9 @@ export class Decoder {
     for (let i = 1; i < MAXLEN16 + 1; i += 1) {
       const b = this.pop(InvalidUint16Error);
       if (b < CONTINUATION) {
+        if (i === MAXLEN16 && b > 0x03) {
+          throw new InvalidUint16Error();
+        }
         return (num | (b << shift)) >>> 0;
       }
       num |= (b & (CONTINUATION - 1)) << shift;
-- 
2.43.0


From bc10ab979449c3484047d22fe02b61fee0dc058e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 25/51] fix: refuse boolean payloads other than 0 and 1 in the
 TypeScript decoder

---
 decoder.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index cb7303f..860fdb0 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -14,7 +14,7 @@
  	limitations under the License.
  */
 
-import { BOOLEAN_TRUE } from "./encoder";
+import { BOOLEAN_FALSE, BOOLEAN_TRUE } from "./encoder";
 import { Kind } from "./kind";
 
 /* eslint-disable no-bitwise */
@@ -223,7 +223,11 @@ export class Decoder {
 
   boolean(): boolean {
     this.validateKind(Kind.Boolean, InvalidBooleanError);
-    return this.pop(InvalidBooleanError) === BOOLEAN_TRUE;
+    const val = this.pop(InvalidBooleanError);
+    if (val !== BOOLEAN_TRUE && val !== BOOLEAN_FALSE) {
+      throw new InvalidBooleanError();
+    }
+    return val === BOOLEAN_TRUE;
   }
 
   uint8(): number {
-- 
2.43.0


From 5391583b650bc715296dd7660b2457ed06aa3ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 26/51] fix: strip the newline from the version so that
 generated files parse

---
 v2/version/version.go | 3 ++-
 version/version.go    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/v2/version/version.go b/v2/version/version.go
index f725f09..d67d143 100644
--- a/v2/version/version.go
+++ b/v2/version/version.go
@@ -18,11 +18,12 @@ package version
 
 import (
 	_ "embed"
+	"strings"
 )
 
 //go:embed current_version
 var currentVersion string
 
 func Version() string {
-	return currentVersion
+	return strings.TrimSpace(currentVersion)
 }
diff --git a/version/version.go b/version/version.go
index f725f09..d67d143 100644
--- a/version/version.go
+++ b/version/version.go
@@ -18,11 +18,12 @@ package version
 
 import (
 	_ "embed"
+	"strings"
 )
 
 //go:embed current_version
 var currentVersion string
 
 func Version() string {
-	return currentVersion
+	return strings.TrimSpace(currentVersion)
 }
-- 
2.43.0


From c25a749b290cd88892e76766ee0e82ce41527ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 27/51] fix: compile generated Go files that declare no
 messages

---
 generator/golang/templates/imports.templ    | 4 ++++
 v2/generator/golang/templates/imports.templ | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/generator/golang/templates/imports.templ b/generator/golang/templates/imports.templ
index 63e4e5b..152f4da 100644
--- a/generator/golang/templates/imports.templ
+++ b/generator/golang/templates/imports.templ
@@ -4,4 +4,8 @@ import (
     "{{$im}}"
 {{end -}}
 )
+{{ if not .messages.Len }}
+// Keeps the import used in a file that declares no messages.
+var _ = polyglot.NewBuffer
+{{ end -}}
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/golang/templates/imports.templ b/v2/generator/golang/templates/imports.templ
index 63e4e5b..152f4da 100644
--- a/v2/generator/golang/templates/imports.templ
+++ b/v2/generator/golang/templates/imports.templ
@@ -4,4 +4,8 @@ import (
     "{{$im}}"
 {{end -}}
 )
+{{ if not .messages.Len }}
+// Keeps the import used in a file that declares no messages.
+var _ = polyglot.NewBuffer
+{{ end -}}
 {{end}}
\ No newline at end of file
-- 
2.43.0


From 9df0764d24fea83a5c43ac65324b8c05d92ca54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 28/51] fix: generate compiling Go code for repeated enums

---
 generator/golang/structs.go                | 2 +-
 generator/golang/templates/decode.templ    | 4 ++++
 generator/golang/templates/encode.templ    | 4 ++++
 v2/generator/golang/structs.go             | 2 +-
 v2/generator/golang/templates/decode.templ | 4 ++++
 v2/generator/golang/templates/encode.templ | 4 ++++
 6 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/generator/golang/structs.go b/generator/golang/structs.go
index b5bf4e0..99472be 100644
--- a/generator/golang/structs.go
+++ b/generator/golang/structs.go
@@ -114,7 +114,7 @@ func FindValue(field protoreflect.FieldDescriptor) string {
 			case protoreflect.Optional, protoreflect.Required:
 				return utils.CamelCase(string(field.Enum().FullName()))
 			case protoreflect.Repeated:
-				return utils.CamelCase(utils.AppendString(Slice, string(field.Enum().FullName())))
+				return utils.AppendString(Slice, utils.CamelCase(string(field.Enum().FullName())))
 			default:
 				panic(errUnknownCardinality)
 			}
diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index e701386..26f5516 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -56,6 +56,10 @@ var err error
     x.{{ CamelCaseName $field.Name }}[i] = New{{ CamelCase $field.Message.FullName }}()
     }
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
+    {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+    var temp uint32
+    temp, err = d{{ $decoder }}()
+    x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}(temp)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/generator/golang/templates/encode.templ b/generator/golang/templates/encode.templ
index eb7a696..1a24608 100644
--- a/generator/golang/templates/encode.templ
+++ b/generator/golang/templates/encode.templ
@@ -29,7 +29,11 @@ func (x *{{ CamelCase .FullName }}) Encode (b *polyglot.Buffer) {
         {{else -}}
         polyglot.Encoder(b).Slice(uint32(len(x.{{ CamelCaseName $field.Name }})), {{ GetKindLUT $field.Kind }})
         for _, v := range x.{{ CamelCaseName $field.Name }} {
+            {{ if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            polyglot.Encoder(b){{$encoder}}(uint32(v))
+            {{else -}}
             polyglot.Encoder(b){{$encoder}}(v)
+            {{end -}}
         }
         {{end -}}
     {{end -}}
diff --git a/v2/generator/golang/structs.go b/v2/generator/golang/structs.go
index e4473c2..29f998d 100644
--- a/v2/generator/golang/structs.go
+++ b/v2/generator/golang/structs.go
@@ -114,7 +114,7 @@ func FindValue(field protoreflect.FieldDescriptor) string {
 			case protoreflect.Optional, protoreflect.Required:
 				return utils.CamelCase(string(field.Enum().FullName()))
 			case protoreflect.Repeated:
-				return utils.CamelCase(utils.AppendString(Slice, string(field.Enum().FullName())))
+				return utils.AppendString(Slice, utils.CamelCase(string(field.Enum().FullName())))
 			default:
 				panic(errUnknownCardinality)
 			}
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index d953142..98ae396 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -54,6 +54,10 @@ var err error
     x.{{ CamelCaseName $field.Name }}[i] = New{{ CamelCase $field.Message.FullName }}()
     }
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
+    {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+    var temp uint32
+    temp, err = d{{ $decoder }}()
+    x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}(temp)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/v2/generator/golang/templates/encode.templ b/v2/generator/golang/templates/encode.templ
index eb7a696..1a24608 100644
--- a/v2/generator/golang/templates/encode.templ
+++ b/v2/generator/golang/templates/encode.templ
@@ -29,7 +29,11 @@ func (x *{{ CamelCase .FullName }}) Encode (b *polyglot.Buffer) {
         {{else -}}
         polyglot.Encoder(b).Slice(uint32(len(x.{{ CamelCaseName $field.Name }})), {{ GetKindLUT $field.Kind }})
         for _, v := range x.{{ CamelCaseName $field.Name }} {
+            {{ if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            polyglot.Encoder(b){{$encoder}}(uint32(v))
+            {{else -}}
             polyglot.Encoder(b){{$encoder}}(v)
+            {{end -}}
         }
         {{end -}}
     {{end -}}
-- 
2.43.0


From 40db7f3267583e0bcb14e89ae49db5bf4b7b430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 29/51] fix: generate compiling Go code for repeated bytes and
 bytes map values

---
 generator/golang/templates/decode.templ       | 2 ++
 generator/golang/templates/decodeMap.templ    | 2 ++
 v2/generator/golang/templates/decode.templ    | 2 ++
 v2/generator/golang/templates/decodeMap.templ | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index 26f5516..c31e5b9 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -60,6 +60,8 @@ var err error
     var temp uint32
     temp, err = d{{ $decoder }}()
     x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}(temp)
+    {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+    x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}(nil)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/generator/golang/templates/decodeMap.templ b/generator/golang/templates/decodeMap.templ
index 93bff31..db58116 100644
--- a/generator/golang/templates/decodeMap.templ
+++ b/generator/golang/templates/decodeMap.templ
@@ -36,6 +36,8 @@ func (x {{CamelCase .FullName}}Map) decode(d *polyglot.Decoder, size uint32) err
             {{ if eq .MapValue.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
                 {{CamelCaseName .MapValue.Name}}Temp, err = d{{$valDecoder}}()
                 v = {{ FindValue .MapValue }}({{ CamelCaseName .MapValue.Name }}Temp)
+            {{else if eq .MapValue.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+                v, err = d{{$valDecoder}}(nil)
             {{else -}}
                 v, err = d{{$valDecoder}}()
             {{end -}}
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index 98ae396..63a54d7 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -58,6 +58,8 @@ var err error
     var temp uint32
     temp, err = d{{ $decoder }}()
     x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}(temp)
+    {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+    x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}(nil)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/v2/generator/golang/templates/decodeMap.templ b/v2/generator/golang/templates/decodeMap.templ
index 9092a07..485e6b9 100644
--- a/v2/generator/golang/templates/decodeMap.templ
+++ b/v2/generator/golang/templates/decodeMap.templ
@@ -36,6 +36,8 @@ func (x {{CamelCase .FullName}}Map) decode(d *polyglot.BufferDecoder, size uint3
             {{ if eq .MapValue.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
                 {{CamelCaseName .MapValue.Name}}Temp, err = d{{$valDecoder}}()
                 v = {{ FindValue .MapValue }}({{ CamelCaseName .MapValue.Name }}Temp)
+            {{else if eq .MapValue.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+                v, err = d{{$valDecoder}}(nil)
             {{else -}}
                 v, err = d{{$valDecoder}}()
             {{end -}}
-- 
2.43.0


From 34e012fcd1e682be263805256d76e4425002b0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 30/51] fix: generate compiling Go code for messages with only
 map fields

---
 generator/golang/templates/decode.templ    | 3 ++-
 v2/generator/golang/templates/decode.templ | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index c31e5b9..70d59b4 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -76,7 +76,8 @@ var err error
         {{ $keyKind := GetKind $field.MapKey.Kind -}}
         {{ $valKind := GetKind $field.MapValue.Kind -}}
 
-        {{ CamelCaseName $field.Name }}Size, err := d.Map({{ $keyKind }}, {{ $valKind }})
+        var {{ CamelCaseName $field.Name }}Size uint32
+        {{ CamelCaseName $field.Name }}Size, err = d.Map({{ $keyKind }}, {{ $valKind }})
         if err != nil {
         return err
         }
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index 63a54d7..1d8c34b 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -74,7 +74,8 @@ var err error
         {{ $keyKind := GetKind $field.MapKey.Kind -}}
         {{ $valKind := GetKind $field.MapValue.Kind -}}
 
-        {{ CamelCaseName $field.Name }}Size, err := d.Map({{ $keyKind }}, {{ $valKind }})
+        var {{ CamelCaseName $field.Name }}Size uint32
+        {{ CamelCaseName $field.Name }}Size, err = d.Map({{ $keyKind }}, {{ $valKind }})
         if err != nil {
         return err
         }
-- 
2.43.0


From 98e52c243ff440b1dd35207fa375e88b8f1fe6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:15 +0000
Subject: [PATCH 31/51] fix: generate the enums of nested messages

---
 generator/golang/templates/messages.templ        | 4 ----
 generator/golang/templates/structs.templ         | 4 ++++
 generator/rust/templates/messages.templ          | 4 ----
 generator/rust/templates/structs.templ           | 4 ++++
 generator/typescript/templates/messages.templ    | 4 ----
 generator/typescript/templates/structs.templ     | 4 ++++
 v2/generator/golang/templates/messages.templ     | 4 ----
 v2/generator/golang/templates/structs.templ      | 4 ++++
 v2/generator/rust/templates/messages.templ       | 4 ----
 v2/generator/rust/templates/structs.templ        | 4 ++++
 v2/generator/typescript/templates/messages.templ | 4 ----
 v2/generator/typescript/templates/structs.templ  | 4 ++++
 12 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/generator/golang/templates/messages.templ b/generator/golang/templates/messages.templ
index 1c8c74b..23074ec 100644
--- a/generator/golang/templates/messages.templ
+++ b/generator/golang/templates/messages.templ
@@ -1,10 +1,6 @@
 {{define "messages"}}
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/generator/golang/templates/structs.templ b/generator/golang/templates/structs.templ
index 6fc09e7..94fb0ae 100644
--- a/generator/golang/templates/structs.templ
+++ b/generator/golang/templates/structs.templ
@@ -1,4 +1,8 @@
 {{define "structs"}}
+    {{range $i, $e := (MakeIterable $.Enums.Len) -}}
+        {{ $enum := ($.Enums.Get $i) }}
+        {{template "enum" $enum}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
diff --git a/generator/rust/templates/messages.templ b/generator/rust/templates/messages.templ
index db077ec..195744a 100644
--- a/generator/rust/templates/messages.templ
+++ b/generator/rust/templates/messages.templ
@@ -8,10 +8,6 @@ pub trait Decode {
 }
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/generator/rust/templates/structs.templ b/generator/rust/templates/structs.templ
index 8890eca..afb06dc 100644
--- a/generator/rust/templates/structs.templ
+++ b/generator/rust/templates/structs.templ
@@ -1,4 +1,8 @@
 {{define "structs"}}
+    {{range $i, $e := (MakeIterable $.Enums.Len) -}}
+        {{ $enum := ($.Enums.Get $i) }}
+        {{template "enum" $enum}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
diff --git a/generator/typescript/templates/messages.templ b/generator/typescript/templates/messages.templ
index 1c8c74b..23074ec 100644
--- a/generator/typescript/templates/messages.templ
+++ b/generator/typescript/templates/messages.templ
@@ -1,10 +1,6 @@
 {{define "messages"}}
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/generator/typescript/templates/structs.templ b/generator/typescript/templates/structs.templ
index f954fda..c7dc7f9 100644
--- a/generator/typescript/templates/structs.templ
+++ b/generator/typescript/templates/structs.templ
@@ -1,4 +1,8 @@
 {{define "structs"}}
+    {{range $i, $e := (MakeIterable $.Enums.Len) -}}
+        {{ $enum := ($.Enums.Get $i) }}
+        {{template "enum" $enum}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
diff --git a/v2/generator/golang/templates/messages.templ b/v2/generator/golang/templates/messages.templ
index 1c8c74b..23074ec 100644
--- a/v2/generator/golang/templates/messages.templ
+++ b/v2/generator/golang/templates/messages.templ
@@ -1,10 +1,6 @@
 {{define "messages"}}
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/golang/templates/structs.templ b/v2/generator/golang/templates/structs.templ
index 0f3c571..17d5b27 100644
--- a/v2/generator/golang/templates/structs.templ
+++ b/v2/generator/golang/templates/structs.templ
@@ -1,4 +1,8 @@
 {{define "structs"}}
+    {{range $i, $e := (MakeIterable $.Enums.Len) -}}
+        {{ $enum := ($.Enums.Get $i) }}
+        {{template "enum" $enum}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
diff --git a/v2/generator/rust/templates/messages.templ b/v2/generator/rust/templates/messages.templ
index db077ec..195744a 100644
--- a/v2/generator/rust/templates/messages.templ
+++ b/v2/generator/rust/templates/messages.templ
@@ -8,10 +8,6 @@ pub trait Decode {
 }
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/rust/templates/structs.templ b/v2/generator/rust/templates/structs.templ
index 8890eca..afb06dc 100644
--- a/v2/generator/rust/templates/structs.templ
+++ b/v2/generator/rust/templates/structs.templ
@@ -1,4 +1,8 @@
 {{define "structs"}}
+    {{range $i, $e := (MakeIterable $.Enums.Len) -}}
+        {{ $enum := ($.Enums.Get $i) }}
+        {{template "enum" $enum}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
diff --git a/v2/generator/typescript/templates/messages.templ b/v2/generator/typescript/templates/messages.templ
index 1c8c74b..23074ec 100644
--- a/v2/generator/typescript/templates/messages.templ
+++ b/v2/generator/typescript/templates/messages.templ
@@ -1,10 +1,6 @@
 {{define "messages"}}
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/typescript/templates/structs.templ b/v2/generator/typescript/templates/structs.templ
index f954fda..c7dc7f9 100644
--- a/v2/generator/typescript/templates/structs.templ
+++ b/v2/generator/typescript/templates/structs.templ
@@ -1,4 +1,8 @@
 {{define "structs"}}
+    {{range $i, $e := (MakeIterable $.Enums.Len) -}}
+        {{ $enum := ($.Enums.Get $i) }}
+        {{template "enum" $enum}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
-- 
2.43.0


From 8621759589c9533c8d73c78c419ea93746e288db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 32/51] fix: rename generated Go fields that clash with the
 generated methods

---
 generator/golang/generator.go    |  2 +-
 generator/golang/structs.go      | 16 ++++++++++++++--
 v2/generator/golang/generator.go |  2 +-
 v2/generator/golang/structs.go   | 16 ++++++++++++++--
 4 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/generator/golang/generator.go b/generator/golang/generator.go
index 075cf3f..13e2aa3 100644
--- a/generator/golang/generator.go
+++ b/generator/golang/generator.go
@@ -40,7 +40,7 @@ func New() *Generator {
 	var g *Generator
 	templ := template.Must(template.New("main").Funcs(template.FuncMap{
 		"CamelCase":          utils.CamelCaseFullName,
-		"CamelCaseName":      utils.CamelCaseName,
+		"CamelCaseName":      FieldName,
 		"MakeIterable":       utils.MakeIterable,
 		"Counter":            utils.Counter,
 		"FirstLowerCase":     utils.FirstLowerCase,
diff --git a/generator/golang/structs.go b/generator/golang/structs.go
index 99472be..449bca4 100644
--- a/generator/golang/structs.go
+++ b/generator/golang/structs.go
@@ -106,6 +106,18 @@ var (
 	}
 )
 
+// FieldName returns the name of the generated struct field. Names that are
+// already taken by the generated methods get a trailing underscore.
+func FieldName(name protoreflect.Name) string {
+	fieldName := utils.CamelCaseName(name)
+	switch fieldName {
+	case "Encode", "Decode", "Error":
+		return utils.AppendString(fieldName, "_")
+	default:
+		return fieldName
+	}
+}
+
 func FindValue(field protoreflect.FieldDescriptor) string {
 	if kind, ok := typeLUT[field.Kind()]; !ok {
 		switch field.Kind() {
@@ -167,9 +179,9 @@ func GetEncodingFields(fields protoreflect.FieldDescriptors) EncodingFields {
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(uint32(x.%s))", encoder, utils.CamelCase(string(field.Name()))))
+					values = append(values, fmt.Sprintf("%s(uint32(x.%s))", encoder, FieldName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(x.%s)", encoder, utils.CamelCase(string(field.Name()))))
+					values = append(values, fmt.Sprintf("%s(x.%s)", encoder, FieldName(field.Name())))
 				}
 			}
 		}
diff --git a/v2/generator/golang/generator.go b/v2/generator/golang/generator.go
index 2a33a27..0acbc2d 100644
--- a/v2/generator/golang/generator.go
+++ b/v2/generator/golang/generator.go
@@ -40,7 +40,7 @@ func New() *Generator {
 	var g *Generator
 	templ := template.Must(template.New("main").Funcs(template.FuncMap{
 		"CamelCase":          utils.CamelCaseFullName,
-		"CamelCaseName":      utils.CamelCaseName,
+		"CamelCaseName":      FieldName,
 		"MakeIterable":       utils.MakeIterable,
 		"Counter":            utils.Counter,
 		"FirstLowerCase":     utils.FirstLowerCase,
diff --git a/v2/generator/golang/structs.go b/v2/generator/golang/structs.go
index 29f998d..95c8853 100644
--- a/v2/generator/golang/structs.go
+++ b/v2/generator/golang/structs.go
@@ -106,6 +106,18 @@ var (
 	}
 )
 
+// FieldName returns the name of the generated struct field. Names that are
+// already taken by the generated methods get a trailing underscore.
+func FieldName(name protoreflect.Name) string {
+	fieldName := utils.CamelCaseName(name)
+	switch fieldName {
+	case "Encode", "Decode", "Error":
+		return utils.AppendString(fieldName, "_")
+	default:
+		return fieldName
+	}
+}
+
 func FindValue(field protoreflect.FieldDescriptor) string {
 	if kind, ok := typeLUT[field.Kind()]; !ok {
 		switch field.Kind() {
@@ -167,9 +179,9 @@ func GetEncodingFields(fields protoreflect.FieldDescriptors) EncodingFields {
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(uint32(x.%s))", encoder, utils.CamelCase(string(field.Name()))))
+					values = append(values, fmt.Sprintf("%s(uint32(x.%s))", encoder, FieldName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(x.%s)", encoder, utils.CamelCase(string(field.Name()))))
+					values = append(values, fmt.Sprintf("%s(x.%s)", encoder, FieldName(field.Name())))
 				}
 			}
 		}
-- 
2.43.0


From 0333e270e679b0b38ee8a92c53a0631c12af4991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 33/51] fix: give generated enum constants their declared
 numbers

---
 generator/golang/generator.go                 | 1 +
 generator/golang/templates/enums.templ        | 2 +-
 generator/rust/generator.go                   | 1 +
 generator/rust/templates/enums.templ          | 2 +-
 generator/typescript/generator.go             | 1 +
 generator/typescript/templates/enums.templ    | 2 +-
 utils/utils.go                                | 6 ++++++
 v2/generator/golang/generator.go              | 1 +
 v2/generator/golang/templates/enums.templ     | 2 +-
 v2/generator/rust/generator.go                | 1 +
 v2/generator/rust/templates/enums.templ       | 2 +-
 v2/generator/typescript/generator.go          | 1 +
 v2/generator/typescript/templates/enums.templ | 2 +-
 v2/utils/utils.go                             | 6 ++++++
 14 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/generator/golang/generator.go b/generator/golang/generator.go
index 13e2aa3..5472ac1 100644
--- a/generator/golang/generator.go
+++ b/generator/golang/generator.go
@@ -42,6 +42,7 @@ func New() *Generator {
 		"CamelCase":          utils.CamelCaseFullName,
 		"CamelCaseName":      FieldName,
 		"MakeIterable":       utils.MakeIterable,
+		"EnumNumber":         utils.EnumNumber,
 		"Counter":            utils.Counter,
 		"FirstLowerCase":     utils.FirstLowerCase,
 		"FirstLowerCaseName": utils.FirstLowerCaseName,
diff --git a/generator/golang/templates/enums.templ b/generator/golang/templates/enums.templ
index 18cd31a..0876072 100644
--- a/generator/golang/templates/enums.templ
+++ b/generator/golang/templates/enums.templ
@@ -12,7 +12,7 @@ type {{ $enumName }} uint32
 const (
 {{range $i, $v := (MakeIterable $.Values.Len) -}}
     {{ $val := ($.Values.Get $i) -}}
-    {{CamelCase $val.FullName}} = {{ $enumName }}({{ $i }})
+    {{CamelCase $val.FullName}} = {{ $enumName }}({{ EnumNumber $val.Number }})
 {{end -}}
 )
 {{end}}
diff --git a/generator/rust/generator.go b/generator/rust/generator.go
index 7ebb320..f7c1195 100644
--- a/generator/rust/generator.go
+++ b/generator/rust/generator.go
@@ -57,6 +57,7 @@ func New() *Generator {
 		"CamelCase":          utils.CamelCaseFullName,
 		"CamelCaseName":      utils.CamelCaseName,
 		"MakeIterable":       utils.MakeIterable,
+		"EnumNumber":         utils.EnumNumber,
 		"Counter":            utils.Counter,
 		"FirstLowerCase":     utils.FirstLowerCase,
 		"FirstLowerCaseName": utils.FirstLowerCaseName,
diff --git a/generator/rust/templates/enums.templ b/generator/rust/templates/enums.templ
index 16b08ef..6f8801c 100644
--- a/generator/rust/templates/enums.templ
+++ b/generator/rust/templates/enums.templ
@@ -12,7 +12,7 @@
 pub enum {{ $enumName }} {
     {{range $i, $v := (MakeIterable $.Values.Len) -}}
         {{ $val := ($.Values.Get $i) -}}
-        {{$val.Name}} = {{ $i }},
+        {{$val.Name}} = {{ EnumNumber $val.Number }},
     {{end -}}
 }
 {{end}}
diff --git a/generator/typescript/generator.go b/generator/typescript/generator.go
index 8b467f9..f882ce1 100644
--- a/generator/typescript/generator.go
+++ b/generator/typescript/generator.go
@@ -48,6 +48,7 @@ func New() *Generator {
 		"CamelCaseName":      utils.CamelCaseName,
 		"CamelCaseFullName":  utils.CamelCaseFullName,
 		"MakeIterable":       utils.MakeIterable,
+		"EnumNumber":         utils.EnumNumber,
 		"Counter":            utils.Counter,
 		"FirstLowerCase":     utils.FirstLowerCase,
 		"FirstLowerCaseName": utils.FirstLowerCaseName,
diff --git a/generator/typescript/templates/enums.templ b/generator/typescript/templates/enums.templ
index b9a6b00..5b86382 100644
--- a/generator/typescript/templates/enums.templ
+++ b/generator/typescript/templates/enums.templ
@@ -10,7 +10,7 @@
 enum {{ $enumName }} {
     {{range $i, $v := (MakeIterable $.Values.Len) -}}
         {{ $val := ($.Values.Get $i) -}}
-        {{$val.Name}} = {{ $i }},
+        {{$val.Name}} = {{ EnumNumber $val.Number }},
     {{end -}}
 }
 {{end}}
diff --git a/utils/utils.go b/utils/utils.go
index edadb04..fc3f409 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -103,6 +103,12 @@ func CamelCaseName(name protoreflect.Name) string {
 	return CamelCase(string(name))
 }
 
+// EnumNumber returns the declared number of an enum value as the uint32 that
+// represents it on the wire.
+func EnumNumber(number protoreflect.EnumNumber) uint32 {
+	return uint32(number)
+}
+
 func AppendString(inputs ...string) string {
 	builder := new(strings.Builder)
 	for _, s := range inputs {
diff --git a/v2/generator/golang/generator.go b/v2/generator/golang/generator.go
index 0acbc2d..e20e82c 100644
--- a/v2/generator/golang/generator.go
+++ b/v2/generator/golang/generator.go
@@ -42,6 +42,7 @@ func New() *Generator {
 		"CamelCase":          utils.CamelCaseFullName,
 		"CamelCaseName":      FieldName,
 		"MakeIterable":       utils.MakeIterable,
+		"EnumNumber":         utils.EnumNumber,
 		"Counter":            utils.Counter,
 		"FirstLowerCase":     utils.FirstLowerCase,
 		"FirstLowerCaseName": utils.FirstLowerCaseName,
diff --git a/v2/generator/golang/templates/enums.templ b/v2/generator/golang/templates/enums.templ
index 18cd31a..0876072 100644
--- a/v2/generator/golang/templates/enums.templ
+++ b/v2/generator/golang/templates/enums.templ
@@ -12,7 +12,7 @@ type {{ $enumName }} uint32
 const (
 {{range $i, $v := (MakeIterable $.Values.Len) -}}
     {{ $val := ($.Values.Get $i) -}}
-    {{CamelCase $val.FullName}} = {{ $enumName }}({{ $i }})
+    {{CamelCase $val.FullName}} = {{ $enumName }}({{ EnumNumber $val.Number }})
 {{end -}}
 )
 {{end}}
diff --git a/v2/generator/rust/generator.go b/v2/generator/rust/generator.go
index 75c60ca..99516ce 100644
--- a/v2/generator/rust/generator.go
+++ b/v2/generator/rust/generator.go
@@ -57,6 +57,7 @@ func New() *Generator {
 		"CamelCase":          utils.CamelCaseFullName,
 		"CamelCaseName":      utils.CamelCaseName,
 		"MakeIterable":       utils.MakeIterable,
+		"EnumNumber":         utils.EnumNumber,
 		"Counter":            utils.Counter,
 		"FirstLowerCase":     utils.FirstLowerCase,
 		"FirstLowerCaseName": utils.FirstLowerCaseName,
diff --git a/v2/generator/rust/templates/enums.templ b/v2/generator/rust/templates/enums.templ
index 16b08ef..6f8801c 100644
--- a/v2/generator/rust/templates/enums.templ
+++ b/v2/generator/rust/templates/enums.templ
@@ -12,7 +12,7 @@
 pub enum {{ $enumName }} {
     {{range $i, $v := (MakeIterable $.Values.Len) -}}
         {{ $val := ($.Values.Get $i) -}}
-        {{$val.Name}} = {{ $i }},
+        {{$val.Name}} = {{ EnumNumber $val.Number }},
     {{end -}}
 }
 {{end}}
diff --git a/v2/generator/typescript/generator.go b/v2/generator/typescript/generator.go
index 29f538a..63395aa 100644
--- a/v2/generator/typescript/generator.go
+++ b/v2/generator/typescript/generator.go
@@ -48,6 +48,7 @@ func New() *Generator {
 		"CamelCaseName":      utils.CamelCaseName,
 		"CamelCaseFullName":  utils.CamelCaseFullName,
 		"MakeIterable":       utils.MakeIterable,
+		"EnumNumber":         utils.EnumNumber,
 		"Counter":            utils.Counter,
 		"FirstLowerCase":     utils.FirstLowerCase,
 		"FirstLowerCaseName": utils.FirstLowerCaseName,
diff --git a/v2/generator/typescript/templates/enums.templ b/v2/generator/typescript/templates/enums.templ
index b9a6b00..5b86382 100644
--- a/v2/generator/typescript/templates/enums.templ
+++ b/v2/generator/typescript/templates/enums.templ
@@ -10,7 +10,7 @@
 enum {{ $enumName }} {
     {{range $i, $v := (MakeIterable $.Values.Len) -}}
         {{ $val := ($.Values.Get $i) -}}
-        {{$val.Name}} = {{ $i }},
+        {{$val.Name}} = {{ EnumNumber $val.Number }},
     {{end -}}
 }
 {{end}}
diff --git a/v2/utils/utils.go b/v2/utils/utils.go
index edadb04..fc3f409 100644
--- a/v2/utils/utils.go
+++ b/v2/utils/utils.go
@@ -103,6 +103,12 @@ func CamelCaseName(name protoreflect.Name) string {
 	return CamelCase(string(name))
 }
 
+// EnumNumber returns the declared number of an enum value as the uint32 that
+// represents it on the wire.
+func EnumNumber(number protoreflect.EnumNumber) uint32 {
+	return uint32(number)
+}
+
 func AppendString(inputs ...string) string {
 	builder := new(strings.Builder)
 	for _, s := range inputs {
-- 
2.43.0


From 2d4a6fd920920a3b9dd86f4e96f4977633beb128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 34/51] fix: do not allocate for the sizes generated Go
 decoders read before their elements

---
 generator/golang/generator.go              |  1 +
 generator/golang/structs.go                |  6 ++++++
 generator/golang/templates/decode.templ    | 24 ++++++++++++----------
 v2/generator/golang/generator.go           |  1 +
 v2/generator/golang/structs.go             |  6 ++++++
 v2/generator/golang/templates/decode.templ | 24 ++++++++++++----------
 6 files changed, 40 insertions(+), 22 deletions(-)

diff --git a/generator/golang/generator.go b/generator/golang/generator.go
index 5472ac1..2ce62df 100644
--- a/generator/golang/generator.go
+++ b/generator/golang/generator.go
@@ -47,6 +47,7 @@ func New() *Generator {
 		"FirstLowerCase":     utils.FirstLowerCase,
 		"FirstLowerCaseName": utils.FirstLowerCaseName,
 		"FindValue":          FindValue,
+		"ElementValue":       ElementValue,
 		"GetKind":            GetKind,
 		"GetLUTEncoder":      GetLUTEncoder,
 		"GetLUTDecoder":      GetLUTDecoder,
diff --git a/generator/golang/structs.go b/generator/golang/structs.go
index 449bca4..db07a7f 100644
--- a/generator/golang/structs.go
+++ b/generator/golang/structs.go
@@ -22,6 +22,7 @@ import (
 
 	"errors"
 	"fmt"
+	"strings"
 )
 
 var (
@@ -154,6 +155,11 @@ func FindValue(field protoreflect.FieldDescriptor) string {
 	}
 }
 
+// ElementValue returns the type of the elements of a repeated field.
+func ElementValue(field protoreflect.FieldDescriptor) string {
+	return strings.TrimPrefix(FindValue(field), Slice)
+}
+
 type EncodingFields struct {
 	MessageFields []protoreflect.FieldDescriptor
 	SliceFields   []protoreflect.FieldDescriptor
diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index 70d59b4..4fd3e67 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -46,28 +46,26 @@ var err error
     if err != nil {
     return err
     }
-    if uint32(len(x.{{ CamelCaseName $field.Name }})) != sliceSize {
-    x.{{ CamelCaseName $field.Name }} = make({{ FindValue $field }}, sliceSize)
-    }
+    x.{{ CamelCaseName $field.Name }} = x.{{ CamelCaseName $field.Name }}[:0]
     for i := uint32(0); i < sliceSize; i++ {
+    var elem {{ ElementValue $field }}
     {{ $decoder := GetLUTDecoder $field.Kind -}}
     {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
-    if x.{{ CamelCaseName $field.Name }}[i] == nil {
-    x.{{ CamelCaseName $field.Name }}[i] = New{{ CamelCase $field.Message.FullName }}()
-    }
-    err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
+    elem = New{{ CamelCase $field.Message.FullName }}()
+    err = elem.decode(d)
     {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
     var temp uint32
     temp, err = d{{ $decoder }}()
-    x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}(temp)
+    elem = {{ CamelCase $field.Enum.FullName }}(temp)
     {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
-    x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}(nil)
+    elem, err = d{{ $decoder }}(nil)
     {{ else -}}
-        x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
+        elem, err = d{{ $decoder }}()
     {{end -}}
     if err != nil {
     return err
     }
+    x.{{ CamelCaseName $field.Name }} = append(x.{{ CamelCaseName $field.Name }}, elem)
     }
 {{end -}}
 {{ range $field := $decoding.MessageFields -}}
@@ -81,7 +79,11 @@ var err error
         if err != nil {
         return err
         }
-        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map({{ CamelCaseName $field.Name }}Size)
+        sizeHint := {{ CamelCaseName $field.Name }}Size
+        if sizeHint > 64 {
+        sizeHint = 64
+        }
+        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map(sizeHint)
         err = x.{{ CamelCaseName $field.Name }}.decode(d, {{ CamelCaseName $field.Name }}Size)
         if err != nil {
         return err
diff --git a/v2/generator/golang/generator.go b/v2/generator/golang/generator.go
index e20e82c..a9afc2d 100644
--- a/v2/generator/golang/generator.go
+++ b/v2/generator/golang/generator.go
@@ -47,6 +47,7 @@ func New() *Generator {
 		"FirstLowerCase":     utils.FirstLowerCase,
 		"FirstLowerCaseName": utils.FirstLowerCaseName,
 		"FindValue":          FindValue,
+		"ElementValue":       ElementValue,
 		"GetKind":            GetKind,
 		"GetLUTEncoder":      GetLUTEncoder,
 		"GetLUTDecoder":      GetLUTDecoder,
diff --git a/v2/generator/golang/structs.go b/v2/generator/golang/structs.go
index 95c8853..e8c7049 100644
--- a/v2/generator/golang/structs.go
+++ b/v2/generator/golang/structs.go
@@ -22,6 +22,7 @@ import (
 
 	"errors"
 	"fmt"
+	"strings"
 )
 
 var (
@@ -154,6 +155,11 @@ func FindValue(field protoreflect.FieldDescriptor) string {
 	}
 }
 
+// ElementValue returns the type of the elements of a repeated field.
+func ElementValue(field protoreflect.FieldDescriptor) string {
+	return strings.TrimPrefix(FindValue(field), Slice)
+}
+
 type EncodingFields struct {
 	MessageFields []protoreflect.FieldDescriptor
 	SliceFields   []protoreflect.FieldDescriptor
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index 1d8c34b..ee3655d 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -44,28 +44,26 @@ var err error
     if err != nil {
     return err
     }
-    if uint32(len(x.{{ CamelCaseName $field.Name }})) != sliceSize {
-    x.{{ CamelCaseName $field.Name }} = make({{ FindValue $field }}, sliceSize)
-    }
+    x.{{ CamelCaseName $field.Name }} = x.{{ CamelCaseName $field.Name }}[:0]
     for i := uint32(0); i < sliceSize; i++ {
+    var elem {{ ElementValue $field }}
     {{ $decoder := GetLUTDecoder $field.Kind -}}
     {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
-    if x.{{ CamelCaseName $field.Name }}[i] == nil {
-    x.{{ CamelCaseName $field.Name }}[i] = New{{ CamelCase $field.Message.FullName }}()
-    }
-    err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
+    elem = New{{ CamelCase $field.Message.FullName }}()
+    err = elem.decode(d)
     {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
     var temp uint32
     temp, err = d{{ $decoder }}()
-    x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}(temp)
+    elem = {{ CamelCase $field.Enum.FullName }}(temp)
     {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
-    x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}(nil)
+    elem, err = d{{ $decoder }}(nil)
     {{ else -}}
-        x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
+        elem, err = d{{ $decoder }}()
     {{end -}}
     if err != nil {
     return err
     }
+    x.{{ CamelCaseName $field.Name }} = append(x.{{ CamelCaseName $field.Name }}, elem)
     }
 {{end -}}
 {{ range $field := $decoding.MessageFields -}}
@@ -79,7 +77,11 @@ var err error
         if err != nil {
         return err
         }
-        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map({{ CamelCaseName $field.Name }}Size)
+        sizeHint := {{ CamelCaseName $field.Name }}Size
+        if sizeHint > 64 {
+        sizeHint = 64
+        }
+        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map(sizeHint)
         err = x.{{ CamelCaseName $field.Name }}.decode(d, {{ CamelCaseName $field.Name }}Size)
         if err != nil {
         return err
-- 
2.43.0


From 7f6e13e1b8c8c48f29e3bd3bae47999611ebe293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 35/51] fix: leave no data of an earlier message in the nested
 messages of reused generated Go objects

---
 generator/golang/templates/decode.templ    | 4 ++--
 v2/generator/golang/templates/decode.templ | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index 4fd3e67..32fd237 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -88,11 +88,11 @@ var err error
         if err != nil {
         return err
         }
+        } else {
+        x.{{ CamelCaseName $field.Name }} = nil
         }
     {{ else -}}
-        if x.{{ CamelCaseName $field.Name }} == nil {
         x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.Message.FullName }}()
-        }
         err = x.{{ CamelCaseName $field.Name }}.decode(d)
         if err != nil {
         return err
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index ee3655d..35f6ee8 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -86,6 +86,8 @@ var err error
         if err != nil {
         return err
         }
+        } else {
+        x.{{ CamelCaseName $field.Name }} = nil
         }
     {{ else -}}
         if !d.Nil() {
@@ -94,6 +96,8 @@ var err error
         if err != nil {
         return err
         }
+        } else {
+        x.{{ CamelCaseName $field.Name }} = nil
         }
     {{end -}}
 {{end -}}
-- 
2.43.0


From af8a4c7dfa3fd2ce66446bfa787d201d755b7d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:33 +0000
Subject: [PATCH 36/51] fix: let generated v1 Go messages contain themselves

---
 generator/golang/generator.go            |  1 +
 generator/golang/structs.go              | 26 ++++++++++++++++++++++++
 generator/golang/templates/decode.templ  |  9 ++++++++
 generator/golang/templates/structs.templ |  2 +-
 4 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/generator/golang/generator.go b/generator/golang/generator.go
index 2ce62df..c5ae4bb 100644
--- a/generator/golang/generator.go
+++ b/generator/golang/generator.go
@@ -47,6 +47,7 @@ func New() *Generator {
 		"FirstLowerCase":     utils.FirstLowerCase,
 		"FirstLowerCaseName": utils.FirstLowerCaseName,
 		"FindValue":          FindValue,
+		"Recursive":          Recursive,
 		"ElementValue":       ElementValue,
 		"GetKind":            GetKind,
 		"GetLUTEncoder":      GetLUTEncoder,
diff --git a/generator/golang/structs.go b/generator/golang/structs.go
index db07a7f..6ed8b6d 100644
--- a/generator/golang/structs.go
+++ b/generator/golang/structs.go
@@ -160,6 +160,32 @@ func ElementValue(field protoreflect.FieldDescriptor) string {
 	return strings.TrimPrefix(FindValue(field), Slice)
 }
 
+// Recursive reports whether the message of a singular field holds, through
+// singular fields, a message of the type that declares the field. Such a field
+// cannot be allocated eagerly.
+func Recursive(field protoreflect.FieldDescriptor) bool {
+	return holds(field.Message(), field.ContainingMessage(), map[protoreflect.FullName]struct{}{})
+}
+
+func holds(message, target protoreflect.MessageDescriptor, visited map[protoreflect.FullName]struct{}) bool {
+	if message.FullName() == target.FullName() {
+		return true
+	}
+	if _, ok := visited[message.FullName()]; ok {
+		return false
+	}
+	visited[message.FullName()] = struct{}{}
+
+	fields := message.Fields()
+	for i := 0; i < fields.Len(); i++ {
+		field := fields.Get(i)
+		if field.Kind() == protoreflect.MessageKind && field.Cardinality() != protoreflect.Repeated && holds(field.Message(), target, visited) {
+			return true
+		}
+	}
+	return false
+}
+
 type EncodingFields struct {
 	MessageFields []protoreflect.FieldDescriptor
 	SliceFields   []protoreflect.FieldDescriptor
diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index 32fd237..d968b6c 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -92,11 +92,20 @@ var err error
         x.{{ CamelCaseName $field.Name }} = nil
         }
     {{ else -}}
+        {{ $recursive := Recursive $field -}}
+        {{ if $recursive -}}
+        if d.Nil() {
+        x.{{ CamelCaseName $field.Name }} = nil
+        } else {
+        {{ end -}}
         x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.Message.FullName }}()
         err = x.{{ CamelCaseName $field.Name }}.decode(d)
         if err != nil {
         return err
         }
+        {{ if $recursive -}}
+        }
+        {{ end -}}
     {{end -}}
 {{end -}}
     return nil
diff --git a/generator/golang/templates/structs.templ b/generator/golang/templates/structs.templ
index 94fb0ae..179b6b2 100644
--- a/generator/golang/templates/structs.templ
+++ b/generator/golang/templates/structs.templ
@@ -45,7 +45,7 @@ func New{{ CamelCase .FullName }}() *{{ CamelCase .FullName }} {
     return &{{ CamelCase .FullName }}{
         {{ range $i, $v := (MakeIterable .Fields.Len) -}}
             {{ $field := $.Fields.Get $i -}}
-            {{ if and (eq $field.Kind 11) (ne $field.Cardinality 3) -}} {{/* protoreflect.MessageKind protoreflect.Repeated */ -}}
+            {{ if and (eq $field.Kind 11) (ne $field.Cardinality 3) (not (Recursive $field)) -}} {{/* protoreflect.MessageKind protoreflect.Repeated */ -}}
                 {{ CamelCaseName $field.Name }}: New{{ CamelCase $field.Message.FullName }}(),
             {{end -}}
         {{end -}}
-- 
2.43.0


From 6e464b0f41be05a9518db71916bf6ea414327f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:03 +0000
Subject: [PATCH 37/51] fix: keep local variables of generated Go code from
 hiding enum types

---
 generator/golang/templates/decode.templ       | 6 +++---
 generator/golang/templates/decodeMap.templ    | 6 +++---
 v2/generator/golang/templates/decode.templ    | 6 +++---
 v2/generator/golang/templates/decodeMap.templ | 6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index d968b6c..6809375 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -26,9 +26,9 @@ var err error
     {{ if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
     x.{{ CamelCaseName $field.Name }}, err = d{{ $decoder }}(nil)
     {{ else if eq $field.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-    var {{ CamelCaseName $field.Name }}Temp uint32
-    {{ CamelCaseName $field.Name }}Temp, err = d{{ $decoder }}()
-    x.{{ CamelCaseName $field.Name }} = {{ FindValue $field }}({{ CamelCaseName $field.Name }}Temp)
+    var {{ FirstLowerCase (CamelCaseName $field.Name) }}Temp uint32
+    {{ FirstLowerCase (CamelCaseName $field.Name) }}Temp, err = d{{ $decoder }}()
+    x.{{ CamelCaseName $field.Name }} = {{ FindValue $field }}({{ FirstLowerCase (CamelCaseName $field.Name) }}Temp)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}, err = d{{ $decoder }}()
     {{end -}}
diff --git a/generator/golang/templates/decodeMap.templ b/generator/golang/templates/decodeMap.templ
index db58116..ed45457 100644
--- a/generator/golang/templates/decodeMap.templ
+++ b/generator/golang/templates/decodeMap.templ
@@ -9,7 +9,7 @@ func (x {{CamelCase .FullName}}Map) decode(d *polyglot.Decoder, size uint32) err
     {{end -}}
     var v {{ FindValue .MapValue }}
     {{ if eq .MapValue.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
-    var {{ CamelCaseName .MapValue.Name }}Temp uint32
+    var {{ FirstLowerCase (CamelCaseName .MapValue.Name) }}Temp uint32
     {{end -}}
     var err error
     for i := uint32(0); i < size; i++ {
@@ -34,8 +34,8 @@ func (x {{CamelCase .FullName}}Map) decode(d *polyglot.Decoder, size uint32) err
         err = v.decode(d)
         {{else -}}
             {{ if eq .MapValue.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
-                {{CamelCaseName .MapValue.Name}}Temp, err = d{{$valDecoder}}()
-                v = {{ FindValue .MapValue }}({{ CamelCaseName .MapValue.Name }}Temp)
+                {{ FirstLowerCase (CamelCaseName .MapValue.Name) }}Temp, err = d{{$valDecoder}}()
+                v = {{ FindValue .MapValue }}({{ FirstLowerCase (CamelCaseName .MapValue.Name) }}Temp)
             {{else if eq .MapValue.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
                 v, err = d{{$valDecoder}}(nil)
             {{else -}}
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index 35f6ee8..6c570f2 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -24,9 +24,9 @@ var err error
     {{ if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
     x.{{ CamelCaseName $field.Name }}, err = d{{ $decoder }}(x.{{ CamelCaseName $field.Name }})
     {{ else if eq $field.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-    var {{ CamelCaseName $field.Name }}Temp uint32
-    {{ CamelCaseName $field.Name }}Temp, err = d{{ $decoder }}()
-    x.{{ CamelCaseName $field.Name }} = {{ FindValue $field }}({{ CamelCaseName $field.Name }}Temp)
+    var {{ FirstLowerCase (CamelCaseName $field.Name) }}Temp uint32
+    {{ FirstLowerCase (CamelCaseName $field.Name) }}Temp, err = d{{ $decoder }}()
+    x.{{ CamelCaseName $field.Name }} = {{ FindValue $field }}({{ FirstLowerCase (CamelCaseName $field.Name) }}Temp)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}, err = d{{ $decoder }}()
     {{end -}}
diff --git a/v2/generator/golang/templates/decodeMap.templ b/v2/generator/golang/templates/decodeMap.templ
index 485e6b9..ea567d7 100644
--- a/v2/generator/golang/templates/decodeMap.templ
+++ b/v2/generator/golang/templates/decodeMap.templ
@@ -9,7 +9,7 @@ func (x {{CamelCase .FullName}}Map) decode(d *polyglot.BufferDecoder, size uint3
     {{end -}}
     var v {{ FindValue .MapValue }}
     {{ if eq .MapValue.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
-    var {{ CamelCaseName .MapValue.Name }}Temp uint32
+    var {{ FirstLowerCase (CamelCaseName .MapValue.Name) }}Temp uint32
     {{end -}}
     var err error
     for i := uint32(0); i < size; i++ {
@@ -34,8 +34,8 @@ func (x {{CamelCase .FullName}}Map) decode(d *polyglot.BufferDecoder, size uint3
         err = v.decode(d)
         {{else -}}
             {{ if eq .MapValue.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
-                {{CamelCaseName .MapValue.Name}}Temp, err = d{{$valDecoder}}()
-                v = {{ FindValue .MapValue }}({{ CamelCaseName .MapValue.Name }}Temp)
+                {{ FirstLowerCase (CamelCaseName .MapValue.Name) }}Temp, err = d{{$valDecoder}}()
+                v = {{ FindValue .MapValue }}({{ FirstLowerCase (CamelCaseName .MapValue.Name) }}Temp)
             {{else if eq .MapValue.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
                 v, err = d{{$valDecoder}}(nil)
             {{else -}}
-- 
2.43.0


From 6f395e9569bc0e2d25cce2f6449b909c072b337c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 38/51] fix: start every generated TypeScript file with its own
 set of imports

---
 generator/typescript/generator.go    | 2 ++
 v2/generator/typescript/generator.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/generator/typescript/generator.go b/generator/typescript/generator.go
index f882ce1..ef9c859 100644
--- a/generator/typescript/generator.go
+++ b/generator/typescript/generator.go
@@ -143,6 +143,8 @@ func (g *Generator) ExecuteTemplate(
 	packageName string,
 	header bool,
 ) error {
+	g.dependencies = map[string]struct{}{}
+
 	var bodyBuf bytes.Buffer
 	if err := g.templ.ExecuteTemplate(&bodyBuf, "body.templ", map[string]interface{}{
 		"enums":    protoFile.Desc.Enums(),
diff --git a/v2/generator/typescript/generator.go b/v2/generator/typescript/generator.go
index 63395aa..0102e9b 100644
--- a/v2/generator/typescript/generator.go
+++ b/v2/generator/typescript/generator.go
@@ -143,6 +143,8 @@ func (g *Generator) ExecuteTemplate(
 	packageName string,
 	header bool,
 ) error {
+	g.dependencies = map[string]struct{}{}
+
 	var bodyBuf bytes.Buffer
 	if err := g.templ.ExecuteTemplate(&bodyBuf, "body.templ", map[string]interface{}{
 		"enums":    protoFile.Desc.Enums(),
-- 
2.43.0


From c20e38a8980a63398f0f046965c6cf3187aca46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 39/51] fix: find the imports of generated Rust files from the
 messages they declare

---
 generator/rust/imports.go    | 31 ++++++++++++-------------------
 v2/generator/rust/imports.go | 31 ++++++++++++-------------------
 2 files changed, 24 insertions(+), 38 deletions(-)

diff --git a/generator/rust/imports.go b/generator/rust/imports.go
index c8e7e00..779ff64 100644
--- a/generator/rust/imports.go
+++ b/generator/rust/imports.go
@@ -18,7 +18,6 @@ package rust
 
 import (
 	"google.golang.org/protobuf/compiler/protogen"
-	"google.golang.org/protobuf/reflect/protoreflect"
 )
 
 type Dependencies struct {
@@ -36,29 +35,23 @@ func DependencyAnalysis(file *protogen.File) *Dependencies {
 		dependencies.Enums = true
 	}
 	for _, message := range file.Messages {
-		for _, field := range message.Fields {
-			if field.Desc.Kind() == protoreflect.MessageKind {
-				if field.Desc.Message().IsMapEntry() {
-					dependencies.Maps = true
-				}
-				if field.Desc.Message().Fields().Len() > 0 {
-					dependencies = traverseFields(field.Message, dependencies)
-				}
-			}
-		}
+		dependencies = traverseMessage(message, dependencies)
 	}
 	return dependencies
 }
 
-func traverseFields(message *protogen.Message, dependencies *Dependencies) *Dependencies {
+func traverseMessage(message *protogen.Message, dependencies *Dependencies) *Dependencies {
+	if len(message.Enums) > 0 {
+		dependencies.Enums = true
+	}
 	for _, field := range message.Fields {
-		if field.Desc.Kind() == protoreflect.MessageKind {
-			if field.Desc.Message().IsMapEntry() {
-				dependencies.Maps = true
-			}
-			if field.Desc.Message().Fields().Len() > 0 {
-				dependencies = traverseFields(field.Message, dependencies)
-			}
+		if field.Desc.IsMap() {
+			dependencies.Maps = true
+		}
+	}
+	for _, nested := range message.Messages {
+		if !nested.Desc.IsMapEntry() {
+			dependencies = traverseMessage(nested, dependencies)
 		}
 	}
 	return dependencies
diff --git a/v2/generator/rust/imports.go b/v2/generator/rust/imports.go
index c8e7e00..779ff64 100644
--- a/v2/generator/rust/imports.go
+++ b/v2/generator/rust/imports.go
@@ -18,7 +18,6 @@ package rust
 
 import (
 	"google.golang.org/protobuf/compiler/protogen"
-	"google.golang.org/protobuf/reflect/protoreflect"
 )
 
 type Dependencies struct {
@@ -36,29 +35,23 @@ func DependencyAnalysis(file *protogen.File) *Dependencies {
 		dependencies.Enums = true
 	}
 	for _, message := range file.Messages {
-		for _, field := range message.Fields {
-			if field.Desc.Kind() == protoreflect.MessageKind {
-				if field.Desc.Message().IsMapEntry() {
-					dependencies.Maps = true
-				}
-				if field.Desc.Message().Fields().Len() > 0 {
-					dependencies = traverseFields(field.Message, dependencies)
-				}
-			}
-		}
+		dependencies = traverseMessage(message, dependencies)
 	}
 	return dependencies
 }
 
-func traverseFields(message *protogen.Message, dependencies *Dependencies) *Dependencies {
+func traverseMessage(message *protogen.Message, dependencies *Dependencies) *Dependencies {
+	if len(message.Enums) > 0 {
+		dependencies.Enums = true
+	}
 	for _, field := range message.Fields {
-		if field.Desc.Kind() == protoreflect.MessageKind {
-			if field.Desc.Message().IsMapEntry() {
-				dependencies.Maps = true
-			}
-			if field.Desc.Message().Fields().Len() > 0 {
-				dependencies = traverseFields(field.Message, dependencies)
-			}
+		if field.Desc.IsMap() {
+			dependencies.Maps = true
+		}
+	}
+	for _, nested := range message.Messages {
+		if !nested.Desc.IsMapEntry() {
+			dependencies = traverseMessage(nested, dependencies)
 		}
 	}
 	return dependencies
-- 
2.43.0


From 21f276449b3ae4f9797437cb839803060bee626c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 40/51] fix: escape Rust keywords in generated Rust code

---
 generator/rust/generator.go             |  3 ++-
 generator/rust/structs.go               | 34 ++++++++++++++++++++++---
 generator/rust/templates/enums.templ    |  2 +-
 v2/generator/rust/generator.go          |  3 ++-
 v2/generator/rust/structs.go            | 34 ++++++++++++++++++++++---
 v2/generator/rust/templates/enums.templ |  2 +-
 6 files changed, 66 insertions(+), 12 deletions(-)

diff --git a/generator/rust/generator.go b/generator/rust/generator.go
index f7c1195..9183707 100644
--- a/generator/rust/generator.go
+++ b/generator/rust/generator.go
@@ -69,7 +69,8 @@ func New() *Generator {
 		"GetDecodingFields":  getDecodingFields,
 		"GetKindLUT":         getKindLUT,
 		"SnakeCase":          utils.SnakeCase,
-		"SnakeCaseName":      utils.SnakeCaseName,
+		"SnakeCaseName":      fieldName,
+		"VariantName":        variantName,
 		"CustomFields": func() string {
 			return g.CustomFields()
 		},
diff --git a/generator/rust/structs.go b/generator/rust/structs.go
index 6fe5abd..2b27fd4 100644
--- a/generator/rust/structs.go
+++ b/generator/rust/structs.go
@@ -107,6 +107,32 @@ var (
 	}
 )
 
+// fieldName returns the name of the generated struct field.
+func fieldName(name protoreflect.Name) string {
+	return identifier(utils.SnakeCaseName(name))
+}
+
+// variantName returns the name of the generated enum variant.
+func variantName(name protoreflect.Name) string {
+	return identifier(string(name))
+}
+
+// identifier escapes names that are Rust keywords. The keywords that cannot be
+// raw identifiers get a trailing underscore.
+func identifier(name string) string {
+	switch name {
+	case "self", "Self", "super", "crate":
+		return name + "_"
+	case "as", "break", "const", "continue", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in",
+		"let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "static", "struct", "trait", "true",
+		"type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do",
+		"final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try":
+		return "r#" + name
+	default:
+		return name
+	}
+}
+
 func findValue(field protoreflect.FieldDescriptor) string {
 	if kind, ok := typeLUT[field.Kind()]; !ok {
 		switch field.Kind() {
@@ -168,13 +194,13 @@ func getEncodingFields(fields protoreflect.FieldDescriptors) encodingFields {
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(self.%s  as u32)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(self.%s  as u32)", encoder, fieldName(field.Name())))
 				} else if field.Kind() == protoreflect.StringKind {
-					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, fieldName(field.Name())))
 				} else if field.Kind() == protoreflect.BytesKind {
-					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, fieldName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(self.%s)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(self.%s)", encoder, fieldName(field.Name())))
 				}
 			}
 		}
diff --git a/generator/rust/templates/enums.templ b/generator/rust/templates/enums.templ
index 6f8801c..23be041 100644
--- a/generator/rust/templates/enums.templ
+++ b/generator/rust/templates/enums.templ
@@ -12,7 +12,7 @@
 pub enum {{ $enumName }} {
     {{range $i, $v := (MakeIterable $.Values.Len) -}}
         {{ $val := ($.Values.Get $i) -}}
-        {{$val.Name}} = {{ EnumNumber $val.Number }},
+        {{ VariantName $val.Name }} = {{ EnumNumber $val.Number }},
     {{end -}}
 }
 {{end}}
diff --git a/v2/generator/rust/generator.go b/v2/generator/rust/generator.go
index 99516ce..899e617 100644
--- a/v2/generator/rust/generator.go
+++ b/v2/generator/rust/generator.go
@@ -69,7 +69,8 @@ func New() *Generator {
 		"GetDecodingFields":  getDecodingFields,
 		"GetKindLUT":         getKindLUT,
 		"SnakeCase":          utils.SnakeCase,
-		"SnakeCaseName":      utils.SnakeCaseName,
+		"SnakeCaseName":      fieldName,
+		"VariantName":        variantName,
 		"CustomFields": func() string {
 			return g.CustomFields()
 		},
diff --git a/v2/generator/rust/structs.go b/v2/generator/rust/structs.go
index c154992..538b6a9 100644
--- a/v2/generator/rust/structs.go
+++ b/v2/generator/rust/structs.go
@@ -107,6 +107,32 @@ var (
 	}
 )
 
+// fieldName returns the name of the generated struct field.
+func fieldName(name protoreflect.Name) string {
+	return identifier(utils.SnakeCaseName(name))
+}
+
+// variantName returns the name of the generated enum variant.
+func variantName(name protoreflect.Name) string {
+	return identifier(string(name))
+}
+
+// identifier escapes names that are Rust keywords. The keywords that cannot be
+// raw identifiers get a trailing underscore.
+func identifier(name string) string {
+	switch name {
+	case "self", "Self", "super", "crate":
+		return name + "_"
+	case "as", "break", "const", "continue", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in",
+		"let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "static", "struct", "trait", "true",
+		"type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do",
+		"final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try":
+		return "r#" + name
+	default:
+		return name
+	}
+}
+
 func findValue(field protoreflect.FieldDescriptor) string {
 	if kind, ok := typeLUT[field.Kind()]; !ok {
 		switch field.Kind() {
@@ -168,13 +194,13 @@ func getEncodingFields(fields protoreflect.FieldDescriptors) encodingFields {
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(self.%s  as u32)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(self.%s  as u32)", encoder, fieldName(field.Name())))
 				} else if field.Kind() == protoreflect.StringKind {
-					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, fieldName(field.Name())))
 				} else if field.Kind() == protoreflect.BytesKind {
-					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, fieldName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(self.%s)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(self.%s)", encoder, fieldName(field.Name())))
 				}
 			}
 		}
diff --git a/v2/generator/rust/templates/enums.templ b/v2/generator/rust/templates/enums.templ
index 6f8801c..23be041 100644
--- a/v2/generator/rust/templates/enums.templ
+++ b/v2/generator/rust/templates/enums.templ
@@ -12,7 +12,7 @@
 pub enum {{ $enumName }} {
     {{range $i, $v := (MakeIterable $.Values.Len) -}}
         {{ $val := ($.Values.Get $i) -}}
-        {{$val.Name}} = {{ EnumNumber $val.Number }},
+        {{ VariantName $val.Name }} = {{ EnumNumber $val.Number }},
     {{end -}}
 }
 {{end}}
-- 
2.43.0


From b879f2820942030dc18d420e3f63e9a4b812dc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 41/51] fix: generate compiling Rust code for repeated fields
 and maps

---
 generator/rust/templates/decode.templ       |  2 ++
 generator/rust/templates/decodeMap.templ    |  2 +-
 generator/rust/templates/encode.templ       | 12 +++++++++---
 v2/generator/rust/templates/decode.templ    |  2 ++
 v2/generator/rust/templates/decodeMap.templ |  2 +-
 v2/generator/rust/templates/encode.templ    | 12 +++++++++---
 6 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/generator/rust/templates/decode.templ b/generator/rust/templates/decode.templ
index 4232690..7bf435c 100644
--- a/generator/rust/templates/decode.templ
+++ b/generator/rust/templates/decode.templ
@@ -23,6 +23,8 @@ impl Decode for {{ CamelCase .FullName }} {
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
+                {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+                temp.push({{ CamelCase $field.Enum.FullName }}::try_from(b{{ $decoder }}()?).ok().ok_or(DecodingError::InvalidEnum)?);
                 {{ else -}}
                 temp.push(b{{ $decoder }}()?);
                 {{ end -}}
diff --git a/generator/rust/templates/decodeMap.templ b/generator/rust/templates/decodeMap.templ
index a8a09fb..f25f406 100644
--- a/generator/rust/templates/decodeMap.templ
+++ b/generator/rust/templates/decodeMap.templ
@@ -16,7 +16,7 @@ fn {{ SnakeCaseName .Name }}_decode(b: &mut Cursor<&mut Vec<u8>>) -> Result<Opti
     let mut map = HashMap::new();
     for _ in 0..size {
         {{ if and (eq $keyDecoder "") (eq .MapKey.Kind 11) -}} {{/* protoreflect.MessageKind */ -}}
-        let k = {{ CamelCase .MapKey.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidMap)?';
+        let k = {{ CamelCase .MapKey.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidMap)?;
         {{else -}}
             {{ if eq .MapKey.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
             let k = {{ $mapKeyValue }}::try_from(b{{$keyDecoder}}()?).ok().ok_or(DecodingError::InvalidMap)?;
diff --git a/generator/rust/templates/encode.templ b/generator/rust/templates/encode.templ
index 8a92671..2729e2b 100644
--- a/generator/rust/templates/encode.templ
+++ b/generator/rust/templates/encode.templ
@@ -30,8 +30,12 @@ impl Encode for {{ CamelCase .FullName }} {
         for item in &self.{{ SnakeCaseName $field.Name}} {
             {{ if eq $field.Kind 9 -}} {{/* protoreflect.StringKind */ -}}
             b{{$encoder}}(&item)?;
-            {{ else -}}
+            {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
             b{{$encoder}}(item)?;
+            {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            b{{$encoder}}(*item as u32)?;
+            {{ else -}}
+            b{{$encoder}}(*item)?;
             {{ end -}}
         }
         {{end -}}
@@ -51,11 +55,11 @@ impl Encode for {{ CamelCase .FullName }} {
             k.encode(b)?;
             {{else -}}
                 {{ if eq $field.MapKey.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                b.encode_u32(k as u32)?;
+                b.encode_u32(*k as u32)?;
                 {{ else if eq $field.MapKey.Kind 9 -}}  {{/* protoreflect.StringsKind */ -}}
                 b{{$keyEncoder}}(&k)?;
                 {{else -}}
-                    b{{$keyEncoder}}(k)?;
+                    b{{$keyEncoder}}(*k)?;
                 {{end -}}
             {{end -}}
             {{ $valEncoder := GetLUTEncoder $field.MapValue.Kind -}}
@@ -64,6 +68,8 @@ impl Encode for {{ CamelCase .FullName }} {
             {{else -}}
                 {{ if eq $field.MapValue.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
                 b.encode_u32(*v as u32)?;
+                {{ else if or (eq $field.MapValue.Kind 9) (eq $field.MapValue.Kind 12) -}} {{/* protoreflect.StringKind protoreflect.BytesKind */ -}}
+                    b{{$valEncoder}}(v)?;
                 {{else -}}
                     b{{$valEncoder}}(*v)?;
                 {{end -}}
diff --git a/v2/generator/rust/templates/decode.templ b/v2/generator/rust/templates/decode.templ
index 4232690..7bf435c 100644
--- a/v2/generator/rust/templates/decode.templ
+++ b/v2/generator/rust/templates/decode.templ
@@ -23,6 +23,8 @@ impl Decode for {{ CamelCase .FullName }} {
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
+                {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+                temp.push({{ CamelCase $field.Enum.FullName }}::try_from(b{{ $decoder }}()?).ok().ok_or(DecodingError::InvalidEnum)?);
                 {{ else -}}
                 temp.push(b{{ $decoder }}()?);
                 {{ end -}}
diff --git a/v2/generator/rust/templates/decodeMap.templ b/v2/generator/rust/templates/decodeMap.templ
index a8a09fb..f25f406 100644
--- a/v2/generator/rust/templates/decodeMap.templ
+++ b/v2/generator/rust/templates/decodeMap.templ
@@ -16,7 +16,7 @@ fn {{ SnakeCaseName .Name }}_decode(b: &mut Cursor<&mut Vec<u8>>) -> Result<Opti
     let mut map = HashMap::new();
     for _ in 0..size {
         {{ if and (eq $keyDecoder "") (eq .MapKey.Kind 11) -}} {{/* protoreflect.MessageKind */ -}}
-        let k = {{ CamelCase .MapKey.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidMap)?';
+        let k = {{ CamelCase .MapKey.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidMap)?;
         {{else -}}
             {{ if eq .MapKey.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
             let k = {{ $mapKeyValue }}::try_from(b{{$keyDecoder}}()?).ok().ok_or(DecodingError::InvalidMap)?;
diff --git a/v2/generator/rust/templates/encode.templ b/v2/generator/rust/templates/encode.templ
index 8a92671..2729e2b 100644
--- a/v2/generator/rust/templates/encode.templ
+++ b/v2/generator/rust/templates/encode.templ
@@ -30,8 +30,12 @@ impl Encode for {{ CamelCase .FullName }} {
         for item in &self.{{ SnakeCaseName $field.Name}} {
             {{ if eq $field.Kind 9 -}} {{/* protoreflect.StringKind */ -}}
             b{{$encoder}}(&item)?;
-            {{ else -}}
+            {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
             b{{$encoder}}(item)?;
+            {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            b{{$encoder}}(*item as u32)?;
+            {{ else -}}
+            b{{$encoder}}(*item)?;
             {{ end -}}
         }
         {{end -}}
@@ -51,11 +55,11 @@ impl Encode for {{ CamelCase .FullName }} {
             k.encode(b)?;
             {{else -}}
                 {{ if eq $field.MapKey.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                b.encode_u32(k as u32)?;
+                b.encode_u32(*k as u32)?;
                 {{ else if eq $field.MapKey.Kind 9 -}}  {{/* protoreflect.StringsKind */ -}}
                 b{{$keyEncoder}}(&k)?;
                 {{else -}}
-                    b{{$keyEncoder}}(k)?;
+                    b{{$keyEncoder}}(*k)?;
                 {{end -}}
             {{end -}}
             {{ $valEncoder := GetLUTEncoder $field.MapValue.Kind -}}
@@ -64,6 +68,8 @@ impl Encode for {{ CamelCase .FullName }} {
             {{else -}}
                 {{ if eq $field.MapValue.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
                 b.encode_u32(*v as u32)?;
+                {{ else if or (eq $field.MapValue.Kind 9) (eq $field.MapValue.Kind 12) -}} {{/* protoreflect.StringKind protoreflect.BytesKind */ -}}
+                    b{{$valEncoder}}(v)?;
                 {{else -}}
                     b{{$valEncoder}}(*v)?;
                 {{end -}}
-- 
2.43.0


From c698952bc6191f0aee78fc456a018bae27f83578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 42/51] fix: do not allocate for the sizes generated Rust
 decoders read before the elements

---
 generator/rust/templates/decode.templ    | 2 +-
 v2/generator/rust/templates/decode.templ | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/rust/templates/decode.templ b/generator/rust/templates/decode.templ
index 7bf435c..2682542 100644
--- a/generator/rust/templates/decode.templ
+++ b/generator/rust/templates/decode.templ
@@ -19,7 +19,7 @@ impl Decode for {{ CamelCase .FullName }} {
             {{ $decoder := GetLUTDecoder $field.Kind -}}
 
             let {{ SnakeCaseName $field.Name }}_size = b.decode_array({{ $kind }})?;
-            let mut temp = Vec::with_capacity({{ SnakeCaseName $field.Name }}_size);
+            let mut temp = Vec::new();
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
diff --git a/v2/generator/rust/templates/decode.templ b/v2/generator/rust/templates/decode.templ
index 7bf435c..2682542 100644
--- a/v2/generator/rust/templates/decode.templ
+++ b/v2/generator/rust/templates/decode.templ
@@ -19,7 +19,7 @@ impl Decode for {{ CamelCase .FullName }} {
             {{ $decoder := GetLUTDecoder $field.Kind -}}
 
             let {{ SnakeCaseName $field.Name }}_size = b.decode_array({{ $kind }})?;
-            let mut temp = Vec::with_capacity({{ SnakeCaseName $field.Name }}_size);
+            let mut temp = Vec::new();
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
-- 
2.43.0


From 87b595fb1ab39cae63fb349f0469ab708b70b4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:07 +0000
Subject: [PATCH 43/51] fix: do not keep the privacy parameter of an earlier
 request in the Rust generator

---
 generator/rust/generator.go    | 5 +++++
 v2/generator/rust/generator.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/generator/rust/generator.go b/generator/rust/generator.go
index 9183707..8709378 100644
--- a/generator/rust/generator.go
+++ b/generator/rust/generator.go
@@ -42,6 +42,7 @@ const (
 type Generator struct {
 	options      *protogen.Options
 	templ        *template.Template
+	privacy      *string
 	CustomFields func() string
 	CustomEncode func() string
 	CustomDecode func() string
@@ -91,6 +92,7 @@ func New() *Generator {
 			ImportRewriteFunc: func(path protogen.GoImportPath) protogen.GoImportPath { return path },
 		},
 		templ:        templ,
+		privacy:      privacy,
 		CustomEncode: func() string { return "" },
 		CustomDecode: func() string { return "" },
 		CustomFields: func() string { return "" },
@@ -108,6 +110,9 @@ func (*Generator) MarshalResponse(res *pluginpb.CodeGeneratorResponse) ([]byte,
 }
 
 func (g *Generator) Generate(req *pluginpb.CodeGeneratorRequest) (res *pluginpb.CodeGeneratorResponse, err error) {
+	// The parameter of an earlier request must not reach this one.
+	*g.privacy = GeneratedFieldPrivacyPrivate
+
 	plugin, err := g.options.New(req)
 	if err != nil {
 		return nil, err
diff --git a/v2/generator/rust/generator.go b/v2/generator/rust/generator.go
index 899e617..cdbf574 100644
--- a/v2/generator/rust/generator.go
+++ b/v2/generator/rust/generator.go
@@ -42,6 +42,7 @@ const (
 type Generator struct {
 	options      *protogen.Options
 	templ        *template.Template
+	privacy      *string
 	CustomFields func() string
 	CustomEncode func() string
 	CustomDecode func() string
@@ -91,6 +92,7 @@ func New() *Generator {
 			ImportRewriteFunc: func(path protogen.GoImportPath) protogen.GoImportPath { return path },
 		},
 		templ:        templ,
+		privacy:      privacy,
 		CustomEncode: func() string { return "" },
 		CustomDecode: func() string { return "" },
 		CustomFields: func() string { return "" },
@@ -108,6 +110,9 @@ func (*Generator) MarshalResponse(res *pluginpb.CodeGeneratorResponse) ([]byte,
 }
 
 func (g *Generator) Generate(req *pluginpb.CodeGeneratorRequest) (res *pluginpb.CodeGeneratorResponse, err error) {
+	// The parameter of an earlier request must not reach this one.
+	*g.privacy = GeneratedFieldPrivacyPrivate
+
 	plugin, err := g.options.New(req)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 1c723ca37ea54fa47ee765c3a1ae433077466aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:54 +0000
Subject: [PATCH 44/51] fix: generate valid identifiers for names that begin
 with an underscore

---
 utils/utils.go    | 4 ++++
 v2/utils/utils.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/utils/utils.go b/utils/utils.go
index fc3f409..edf1c87 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -70,6 +70,10 @@ func CamelCase(s string) string {
 			t = append(t, s[i])
 		}
 	}
+	if s[0] == '_' && (len(t) == 0 || t[0] < 'A' || 'Z' < t[0]) {
+		// What follows the initial _ cannot begin an exported identifier.
+		return "X" + string(t)
+	}
 	return string(t)
 }
 
diff --git a/v2/utils/utils.go b/v2/utils/utils.go
index fc3f409..edf1c87 100644
--- a/v2/utils/utils.go
+++ b/v2/utils/utils.go
@@ -70,6 +70,10 @@ func CamelCase(s string) string {
 			t = append(t, s[i])
 		}
 	}
+	if s[0] == '_' && (len(t) == 0 || t[0] < 'A' || 'Z' < t[0]) {
+		// What follows the initial _ cannot begin an exported identifier.
+		return "X" + string(t)
+	}
 	return string(t)
 }
 
-- 
2.43.0


From ca179016bcbc5948763d82f5442528f10e2caf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:54 +0000
Subject: [PATCH 45/51] fix: escape the name _ in generated Rust code

---
 generator/rust/structs.go    | 4 ++--
 v2/generator/rust/structs.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/generator/rust/structs.go b/generator/rust/structs.go
index 2b27fd4..d816d43 100644
--- a/generator/rust/structs.go
+++ b/generator/rust/structs.go
@@ -118,10 +118,10 @@ func variantName(name protoreflect.Name) string {
 }
 
 // identifier escapes names that are Rust keywords. The keywords that cannot be
-// raw identifiers get a trailing underscore.
+// raw identifiers, and the name _, get a trailing underscore.
 func identifier(name string) string {
 	switch name {
-	case "self", "Self", "super", "crate":
+	case "self", "Self", "super", "crate", "_":
 		return name + "_"
 	case "as", "break", "const", "continue", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in",
 		"let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "static", "struct", "trait", "true",
diff --git a/v2/generator/rust/structs.go b/v2/generator/rust/structs.go
index 538b6a9..54d28ee 100644
--- a/v2/generator/rust/structs.go
+++ b/v2/generator/rust/structs.go
@@ -118,10 +118,10 @@ func variantName(name protoreflect.Name) string {
 }
 
 // identifier escapes names that are Rust keywords. The keywords that cannot be
-// raw identifiers get a trailing underscore.
+// raw identifiers, and the name _, get a trailing underscore.
 func identifier(name string) string {
 	switch name {
-	case "self", "Self", "super", "crate":
+	case "self", "Self", "super", "crate", "_":
 		return name + "_"
 	case "as", "break", "const", "continue", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in",
 		"let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "static", "struct", "trait", "true",
-- 
2.43.0


From a2a8d688393c4055e966d760a54bed79177042bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:28 +0000
Subject: [PATCH 46/51] fix: generate a valid package clause for proto packages
 named like Go keywords

---
 generator/golang/generator.go    | 3 ++-
 v2/generator/golang/generator.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/golang/generator.go b/generator/golang/generator.go
index c5ae4bb..af6c980 100644
--- a/generator/golang/generator.go
+++ b/generator/golang/generator.go
@@ -25,6 +25,7 @@ import (
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/pluginpb"
 
+	"go/token"
 	"text/template"
 )
 
@@ -100,7 +101,7 @@ func (g *Generator) Generate(req *pluginpb.CodeGeneratorRequest) (res *pluginpb.
 		genFile := plugin.NewGeneratedFile(FileName(f.GeneratedFilenamePrefix), f.GoImportPath)
 
 		packageName := string(f.Desc.Package().Name())
-		if packageName == "" {
+		if packageName == "" || packageName == "_" || token.IsKeyword(packageName) {
 			packageName = string(f.GoPackageName)
 		}
 
diff --git a/v2/generator/golang/generator.go b/v2/generator/golang/generator.go
index a9afc2d..f1ee30b 100644
--- a/v2/generator/golang/generator.go
+++ b/v2/generator/golang/generator.go
@@ -25,6 +25,7 @@ import (
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/pluginpb"
 
+	"go/token"
 	"text/template"
 )
 
@@ -99,7 +100,7 @@ func (g *Generator) Generate(req *pluginpb.CodeGeneratorRequest) (res *pluginpb.
 		genFile := plugin.NewGeneratedFile(FileName(f.GeneratedFilenamePrefix), f.GoImportPath)
 
 		packageName := string(f.Desc.Package().Name())
-		if packageName == "" {
+		if packageName == "" || packageName == "_" || token.IsKeyword(packageName) {
 			packageName = string(f.GoPackageName)
 		}
 
-- 
2.43.0


From f7fb9d48ab4af2a38abbef36a51500707f462bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:08 +0000
Subject: [PATCH 47/51] fix: Rust generator fails on types whose long names
 rustfmt cannot wrap

---
 generator/rust/generator.go    | 7 ++++++-
 v2/generator/rust/generator.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/generator/rust/generator.go b/generator/rust/generator.go
index 8709378..01cfae8 100644
--- a/generator/rust/generator.go
+++ b/generator/rust/generator.go
@@ -28,9 +28,14 @@ import (
 	"bytes"
 	"flag"
 	"os/exec"
+	"regexp"
 	"text/template"
 )
 
+// trailingWhitespace is left behind by the templates, and rustfmt fails where it cannot
+// format it away because a line next to it is too long.
+var trailingWhitespace = regexp.MustCompile(`(?m)[ \t]+$`)
+
 type GeneratedFieldPrivacy string
 
 const (
@@ -161,7 +166,7 @@ func (g *Generator) ExecuteTemplate(
 	}
 
 	cmd := exec.Command("rustfmt")
-	cmd.Stdin = bytes.NewReader(buf.Bytes())
+	cmd.Stdin = bytes.NewReader(trailingWhitespace.ReplaceAll(buf.Bytes(), nil))
 	output, err := cmd.CombinedOutput()
 	if err != nil {
 		println(string(output))
diff --git a/v2/generator/rust/generator.go b/v2/generator/rust/generator.go
index cdbf574..8dff57c 100644
--- a/v2/generator/rust/generator.go
+++ b/v2/generator/rust/generator.go
@@ -28,9 +28,14 @@ import (
 	"bytes"
 	"flag"
 	"os/exec"
+	"regexp"
 	"text/template"
 )
 
+// trailingWhitespace is left behind by the templates, and rustfmt fails where it cannot
+// format it away because a line next to it is too long.
+var trailingWhitespace = regexp.MustCompile(`(?m)[ \t]+$`)
+
 type GeneratedFieldPrivacy string
 
 const (
@@ -161,7 +166,7 @@ func (g *Generator) ExecuteTemplate(
 	}
 
 	cmd := exec.Command("rustfmt")
-	cmd.Stdin = bytes.NewReader(buf.Bytes())
+	cmd.Stdin = bytes.NewReader(trailingWhitespace.ReplaceAll(buf.Bytes(), nil))
 	output, err := cmd.CombinedOutput()
 	if err != nil {
 		println(string(output))
-- 
2.43.0


From cbd05d61b68c3f837790f9a07af184f52c496b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:35 +0000
Subject: [PATCH 48/51] fix: TypeScript generator escapes field names that
 TypeScript reserves

---
 generator/typescript/generator.go    |  2 +-
 generator/typescript/structs.go      | 25 +++++++++++++++++++++++--
 v2/generator/typescript/generator.go |  2 +-
 v2/generator/typescript/structs.go   | 25 +++++++++++++++++++++++--
 4 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/generator/typescript/generator.go b/generator/typescript/generator.go
index ef9c859..6728a1c 100644
--- a/generator/typescript/generator.go
+++ b/generator/typescript/generator.go
@@ -72,7 +72,7 @@ func New() *Generator {
 			return getKindLUT(g.trackDependency, kind)
 		},
 		"LowercaseCamelCase":     utils.LowercaseCamelCase,
-		"LowercaseCamelCaseName": utils.LowercaseCamelCaseName,
+		"LowercaseCamelCaseName": fieldName,
 		"CustomFields": func() string {
 			return g.CustomFields()
 		},
diff --git a/generator/typescript/structs.go b/generator/typescript/structs.go
index db99571..f322236 100644
--- a/generator/typescript/structs.go
+++ b/generator/typescript/structs.go
@@ -23,6 +23,7 @@ import (
 
 	"errors"
 	"fmt"
+	"strings"
 )
 
 var (
@@ -107,6 +108,26 @@ var (
 	}
 )
 
+// reservedNames are names that TypeScript does not allow for a parameter or a
+// property of a class, or that the generated classes use themselves.
+var reservedNames = map[string]struct{}{}
+
+func init() {
+	for _, name := range strings.Fields("arguments await break case catch class const constructor continue debugger default delete do else encode enum eval export extends false finally for function if implements import in instanceof interface let new null package private protected public return static super switch this throw true try typeof var void while with yield") {
+		reservedNames[name] = struct{}{}
+	}
+}
+
+// fieldName returns the name of a field in generated code. Reserved names get
+// an underscore appended.
+func fieldName(name protoreflect.Name) string {
+	s := utils.LowercaseCamelCaseName(name)
+	if _, ok := reservedNames[s]; ok {
+		s += "_"
+	}
+	return s
+}
+
 func findValue(field protoreflect.FieldDescriptor) string {
 	if kind, ok := typeLUT[field.Kind()]; !ok {
 		switch field.Kind() {
@@ -168,9 +189,9 @@ func getEncodingFields(trackDependency func(dep string) string, fields protorefl
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(encoded, this.%s as number)", encoder, utils.LowercaseCamelCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(encoded, this.%s as number)", encoder, fieldName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(encoded, this.%s)", encoder, utils.LowercaseCamelCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(encoded, this.%s)", encoder, fieldName(field.Name())))
 				}
 			}
 		}
diff --git a/v2/generator/typescript/generator.go b/v2/generator/typescript/generator.go
index 0102e9b..8114951 100644
--- a/v2/generator/typescript/generator.go
+++ b/v2/generator/typescript/generator.go
@@ -72,7 +72,7 @@ func New() *Generator {
 			return getKindLUT(g.trackDependency, kind)
 		},
 		"LowercaseCamelCase":     utils.LowercaseCamelCase,
-		"LowercaseCamelCaseName": utils.LowercaseCamelCaseName,
+		"LowercaseCamelCaseName": fieldName,
 		"CustomFields": func() string {
 			return g.CustomFields()
 		},
diff --git a/v2/generator/typescript/structs.go b/v2/generator/typescript/structs.go
index 6b0eae5..a9e33ab 100644
--- a/v2/generator/typescript/structs.go
+++ b/v2/generator/typescript/structs.go
@@ -23,6 +23,7 @@ import (
 
 	"errors"
 	"fmt"
+	"strings"
 )
 
 var (
@@ -107,6 +108,26 @@ var (
 	}
 )
 
+// reservedNames are names that TypeScript does not allow for a parameter or a
+// property of a class, or that the generated classes use themselves.
+var reservedNames = map[string]struct{}{}
+
+func init() {
+	for _, name := range strings.Fields("arguments await break case catch class const constructor continue debugger default delete do else encode enum eval export extends false finally for function if implements import in instanceof interface let new null package private protected public return static super switch this throw true try typeof var void while with yield") {
+		reservedNames[name] = struct{}{}
+	}
+}
+
+// fieldName returns the name of a field in generated code. Reserved names get
+// an underscore appended.
+func fieldName(name protoreflect.Name) string {
+	s := utils.LowercaseCamelCaseName(name)
+	if _, ok := reservedNames[s]; ok {
+		s += "_"
+	}
+	return s
+}
+
 func findValue(field protoreflect.FieldDescriptor) string {
 	if kind, ok := typeLUT[field.Kind()]; !ok {
 		switch field.Kind() {
@@ -168,9 +189,9 @@ func getEncodingFields(trackDependency func(dep string) string, fields protorefl
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(encoded, this.%s as number)", encoder, utils.LowercaseCamelCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(encoded, this.%s as number)", encoder, fieldName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(encoded, this.%s)", encoder, utils.LowercaseCamelCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(encoded, this.%s)", encoder, fieldName(field.Name())))
 				}
 			}
 		}
-- 
2.43.0


From 6714601e300701bb05bf45db3edcbc856ec104fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:41 +0000
Subject: [PATCH 49/51] fix: Go decoders panic on payload lengths beyond 2^31
 where int has 32 bits

---
 decode.go    | 4 ++--
 v2/decode.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/decode.go b/decode.go
index 97385ba..9c43645 100644
--- a/decode.go
+++ b/decode.go
@@ -94,7 +94,7 @@ func decodeBytes(b, ret []byte) ([]byte, []byte, error) {
 			if err != nil {
 				return b, nil, InvalidBytes
 			}
-			if len(b) > int(size)-1 {
+			if uint64(len(b)) >= uint64(size) {
 				if len(ret) < int(size) {
 					if ret == nil {
 						ret = make([]byte, size)
@@ -121,7 +121,7 @@ func decodeString(b []byte) ([]byte, string, error) {
 			if err != nil {
 				return b, emptyString, InvalidString
 			}
-			if len(b) > int(size)-1 {
+			if uint64(len(b)) >= uint64(size) {
 				return b[size:], string(b[:size]), nil
 			}
 		}
diff --git a/v2/decode.go b/v2/decode.go
index 25b18ba..b392e3c 100644
--- a/v2/decode.go
+++ b/v2/decode.go
@@ -129,7 +129,7 @@ func decodeBytes(b []byte, ret []byte) ([]byte, []byte, error) {
 				}
 			}
 		}
-		if len(b)-offset > size-1 {
+		if size >= 0 && len(b)-offset > size-1 {
 			return b[size+offset:], append(ret[:0], b[offset:size+offset]...), nil
 		}
 	}
@@ -144,7 +144,7 @@ func decodeString(b []byte) ([]byte, string, error) {
 		if err != nil {
 			return b, emptyString, ErrInvalidString
 		}
-		if len(b) > int(size)-1 {
+		if uint64(len(b)) >= uint64(size) {
 			return b[size:], string(b[:size]), nil
 		}
 	}
-- 
2.43.0


From 8b7bb9ae29a6880c70a99cbce6c8f26e55aa5d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:36 +0000
Subject: [PATCH 50/51] fix: TypeScript decoder returns views of its input when
 that is a Node.js Buffer

---
 decoder.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder.ts b/decoder.ts
index 860fdb0..2a8d9ca 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -142,7 +142,8 @@ export class Decoder {
   #pos = 0;
 
   constructor(private readonly buf: Uint8Array) {
-    this.buf = buf;
+    // A subclass may copy less: slice of a Node.js Buffer is a view of it.
+    this.buf = new Uint8Array(buf.buffer, buf.byteOffset, buf.length);
   }
 
   private peek(): number {
-- 
2.43.0


From 5f8bf788cfd6e36243484931ae0704c1d65cc6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:54 +0000
Subject: [PATCH 51/51] fix: Rust generator keeps rustfmt's warnings out of
 generated code

---
 generator/rust/generator.go    | 6 ++++--
 v2/generator/rust/generator.go | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/generator/rust/generator.go b/generator/rust/generator.go
index 01cfae8..dc0190c 100644
--- a/generator/rust/generator.go
+++ b/generator/rust/generator.go
@@ -167,9 +167,11 @@ func (g *Generator) ExecuteTemplate(
 
 	cmd := exec.Command("rustfmt")
 	cmd.Stdin = bytes.NewReader(trailingWhitespace.ReplaceAll(buf.Bytes(), nil))
-	output, err := cmd.CombinedOutput()
+	var diagnostics bytes.Buffer
+	cmd.Stderr = &diagnostics
+	output, err := cmd.Output()
 	if err != nil {
-		println(string(output))
+		println(diagnostics.String())
 		return err
 	}
 	_, err = genFile.Write(output)
diff --git a/v2/generator/rust/generator.go b/v2/generator/rust/generator.go
index 8dff57c..b92c7f1 100644
--- a/v2/generator/rust/generator.go
+++ b/v2/generator/rust/generator.go
@@ -167,9 +167,11 @@ func (g *Generator) ExecuteTemplate(
 
 	cmd := exec.Command("rustfmt")
 	cmd.Stdin = bytes.NewReader(trailingWhitespace.ReplaceAll(buf.Bytes(), nil))
-	output, err := cmd.CombinedOutput()
+	var diagnostics bytes.Buffer
+	cmd.Stderr = &diagnostics
+	output, err := cmd.Output()
 	if err != nil {
-		println(string(output))
+		println(diagnostics.String())
 		return err
 	}
 	_, err = genFile.Write(output)
-- 
2.43.0

