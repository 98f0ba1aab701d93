From 12c66b6e4b5b1fc19520335de9fa9300151098c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 01/66] fix: C++ encode_size is constexpr only where it is
 defined in the header

---
 generator/target/cpp/cpp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 15e7b44..ed0b196 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1489,7 +1489,7 @@ var encoderDeclTemplate = `
 {{- $structName := .StructDef.StructName -}}
         // EncodeSizeDecl: encode_size
         // Returns an estimation of the encoded size in bytes.
-        {{ if not .StructDef.StructDynamic -}}constexpr {{ end -}}
+        {{ if and (not .StructDef.StructDynamic) .GenOptions.SingleFile -}}constexpr {{ end -}}
         uint64_t encode_size() const;
         // EncoderDecl: encode
 {{- if not .GenOptions.CompatibleMode }}
@@ -1602,7 +1602,7 @@ var encoderTemplate = `
 {{- $structName := .StructDef.StructName -}}
     // EncodeSize: {{ $structName }}::encode_size
     // Returns an estimation of the encoded size in bytes.
-    {{ if not .StructDef.StructDynamic -}}constexpr {{ end -}}
+    {{ if and (not .StructDef.StructDynamic) .GenOptions.SingleFile -}}constexpr {{ end -}}
     uint64_t {{ if not .GenOptions.SingleFile }}{{ $structName }}::{{ end }}encode_size() const {
         {{- if .StructDef.StructDynamic }}
         uint64_t size = {{ calc .StructDef.StructBitSize "/" 8 }};
-- 
2.43.0


From 5082b80b61f78ea6ff9f285d453fd66e364b80df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 02/66] fix: keep every bit of a field whose last, partial wire
 byte holds bits of two value bytes

---
 generator/target/c/c.go               | 4 ++--
 generator/target/commonjs/commonjs.go | 4 ++--
 generator/target/cpp/cpp.go           | 4 ++--
 generator/target/csharp/csharp.go     | 4 ++--
 generator/target/esm/esm_encode.go    | 2 +-
 generator/target/java/java.go         | 4 ++--
 6 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 9607dab..f151760 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -2208,8 +2208,8 @@ func (g CGenerator) generateEncodeImpl(from, to int64, fieldData func(int64) str
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := 8 - begin%8
+			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - begin%8)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index d129125..8f042c2 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -2529,8 +2529,8 @@ func (g CommonJSGenerator) generateEncodeImpl(from, to int64, fieldData func(int
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := 8 - begin%8
+			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - begin%8)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index ed0b196..61de65f 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -2353,8 +2353,8 @@ func (g CppGenerator) generateEncodeImpl(from, to int64, fieldData func(int64) s
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := 8 - begin%8
+			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - begin%8)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index fbe7c4d..157317b 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2046,8 +2046,8 @@ func (g CSharpGenerator) generateEncodeImpl(from, to int64, fieldData func(int64
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := 8 - begin%8
+			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - begin%8)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index 98ebb74..0abc260 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -667,7 +667,7 @@ func (g ESModuleGenerator) generateEncodeImpl(from, to int64, fieldData func(int
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
+			shiftLeft := 8 - begin%8
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 6c4e7fb..cb5f202 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -2013,8 +2013,8 @@ func (g JavaGenerator) generateEncodeImpl(from, to int64, fieldData func(int64)
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := 8 - begin%8
+			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - begin%8)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
-- 
2.43.0


From e3c4b0452b24fe0e30148ee919bf2e6fb39222a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 03/66] fix: array bit helpers place partial bytes like the
 unrolled code and do not mix in old buffer bits

---
 generator/target/c/c.go               |  5 ++---
 generator/target/commonjs/commonjs.go | 10 ++++------
 generator/target/cpp/cpp.go           |  5 ++---
 generator/target/csharp/csharp.go     |  5 ++---
 generator/target/esm/esm.go           | 10 ++++------
 generator/target/java/java.go         |  5 ++---
 6 files changed, 16 insertions(+), 24 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index f151760..ad90b89 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -239,8 +239,7 @@ static void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
             int64_t next_j = (j + 8) & ~(int64_t)7;
             if (next_j > end) next_j = end;
             uint64_t field_mask = ((((uint64_t)1) << (((next_j - 1) & 7) + 1)) - 1) & ~(((uint64_t)1 << (j & 7)) - 1);
-            int shift_left = (int)(8 - (next_j & 7));
-            if ((next_j & 7) == 0) shift_left = 8;
+            int shift_left = (int)(8 - (begin & 7));
             int64_t src_byte_index = j / 8;
             int64_t src_shift;
             if (big_endian) {
@@ -254,7 +253,7 @@ static void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
         }
         int shift_left_outer = (int)(i & 7);
         part = (part << shift_left_outer) & data_mask;
-        if (data_mask == 0xFF) {
+        if ((i & 7) == 0) {
             data[i / 8] = (uint8_t)part;
         } else {
             data[i / 8] |= (uint8_t)part;
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 8f042c2..9ca6d77 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -543,8 +543,7 @@ var fileTemplate = `
                 var nextJ2 = (j + 8) & ~7;
                 if (nextJ2 > end) nextJ2 = end;
                 var fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-                var shiftLeft2 = 8 - (nextJ2 & 7);
-                if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+                var shiftLeft2 = 8 - (begin & 7);
                 var srcByteIndex2 = (j / 8) | 0;
                 var srcShift2;
                 if (bigEndian) {
@@ -558,7 +557,7 @@ var fileTemplate = `
             }
             var shiftLeftOuter = i & 7;
             part = ((part << shiftLeftOuter) & dataMask) & 0xFF;
-            if (dataMask === 0xFF) {
+            if ((i & 7) === 0) {
                 data[(i / 8) | 0] = part;
             } else {
                 data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
@@ -900,8 +899,7 @@ var fileTemplate = `
                 var nextJ2 = (j + 8) & ~7;
                 if (nextJ2 > end) nextJ2 = end;
                 var fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-                var shiftLeft2 = 8 - (nextJ2 & 7);
-                if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+                var shiftLeft2 = 8 - (begin & 7);
                 var srcByteIndex2 = (j / 8) | 0;
                 var srcShift2;
                 if (bigEndian) {
@@ -915,7 +913,7 @@ var fileTemplate = `
             }
             var shiftLeftOuter = i & 7;
             part = ((part << shiftLeftOuter) & dataMask) & 0xFF;
-            if (dataMask === 0xFF) {
+            if ((i & 7) === 0) {
                 data[(i / 8) | 0] = part;
             } else {
                 data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 61de65f..23d10a1 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -240,8 +240,7 @@ inline void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
             int64_t next_j = (j + 8) & ~(int64_t)7;
             if (next_j > end) next_j = end;
             uint64_t field_mask = ((((uint64_t)1) << (((next_j - 1) & 7) + 1)) - 1) & ~(((uint64_t)1 << (j & 7)) - 1);
-            int shift_left = (int)(8 - (next_j & 7));
-            if ((next_j & 7) == 0) shift_left = 8;
+            int shift_left = (int)(8 - (begin & 7));
             int64_t src_byte_index = j / 8;
             int64_t src_shift;
             if (big_endian) {
@@ -255,7 +254,7 @@ inline void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
         }
         int shift_left_outer = (int)(i & 7);
         part = (part << shift_left_outer) & data_mask;
-        if (data_mask == 0xFF) {
+        if ((i & 7) == 0) {
             data[i / 8] = (uint8_t)part;
         } else {
             data[i / 8] |= (uint8_t)part;
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 157317b..8917d19 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -522,8 +522,7 @@ var structTemplate = `
                     long nextJ = (j + 8) & ~(long)7;
                     if (nextJ > end) nextJ = end;
                     ulong fieldMask = ((1UL << (int)(((nextJ - 1) & 7) + 1)) - 1UL) & ~(((ulong)1 << (int)(j & 7)) - 1UL);
-                    int shiftLeft = (int)(8 - (nextJ & 7));
-                    if ((nextJ & 7) == 0) shiftLeft = 8;
+                    int shiftLeft = (int)(8 - (begin & 7));
                     long srcByteIndex = j / 8;
                     long srcShift;
                     if (bigEndian) {
@@ -537,7 +536,7 @@ var structTemplate = `
                 }
                 int shiftLeftOuter = (int)(i & 7);
                 part = (part << shiftLeftOuter) & dataMask;
-                if (dataMask == 0xFF) {
+                if ((i & 7) == 0) {
                     data[(int)(i / 8)] = (byte)part;
                 } else {
                     data[(int)(i / 8)] |= (byte)part;
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 7a4635a..9ed89d3 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -502,8 +502,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
             let nextJ2 = (j + 8) & ~7;
             if (nextJ2 > end) nextJ2 = end;
             const fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-            let shiftLeft2 = 8 - (nextJ2 & 7);
-            if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+            let shiftLeft2 = 8 - (begin & 7);
             const srcByteIndex2 = (j / 8) | 0;
             let srcShift2;
             if (bigEndian) {
@@ -517,7 +516,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
         }
         const shiftLeftOuter = i & 7;
         part = ((part << shiftLeftOuter) & dataMask) & 0xFF;
-        if (dataMask === 0xFF) {
+        if ((i & 7) === 0) {
             data[(i / 8) | 0] = part;
         } else {
             data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
@@ -825,8 +824,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
             let nextJ2 = (j + 8) & ~7;
             if (nextJ2 > end) nextJ2 = end;
             const fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-            let shiftLeft2 = 8 - (nextJ2 & 7);
-            if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+            let shiftLeft2 = 8 - (begin & 7);
             const srcByteIndex2 = (j / 8) | 0;
             let srcShift2;
             if (bigEndian) {
@@ -840,7 +838,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
         }
         const shiftLeftOuter = i & 7;
         part = ((part << shiftLeftOuter) & dataMask) & 0xFF;
-        if (dataMask === 0xFF) {
+        if ((i & 7) === 0) {
             data[(i / 8) | 0] = part;
         } else {
             data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index cb5f202..28aa713 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -460,8 +460,7 @@ var structTemplate = `
                 long nextJ = (j + 8) & ~7L;
                 if (nextJ > end) nextJ = end;
                 long fieldMask = ((1L << (((nextJ - 1) & 7) + 1)) - 1L) & ~((1L << (j & 7)) - 1L);
-                int shiftLeft = (int)(8 - (nextJ & 7));
-                if ((nextJ & 7) == 0) shiftLeft = 8;
+                int shiftLeft = (int)(8 - (begin & 7));
                 long srcByteIndex = j / 8;
                 long srcShift;
                 if (bigEndian) {
@@ -475,7 +474,7 @@ var structTemplate = `
             }
             int shiftLeftOuter = (int)(i & 7);
             part = (part << shiftLeftOuter) & dataMask;
-            if (dataMask == 0xFF) {
+            if ((i & 7) == 0) {
                 data[(int)(i / 8)] = (byte)part;
             } else {
                 data[(int)(i / 8)] |= (byte)part;
-- 
2.43.0


From 26c1626801ab77a7a1558cf37e1d86fbfa3557e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 04/66] fix: Java array loops honour the start position

---
 generator/target/java/java.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 28aa713..05846d4 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1678,7 +1678,7 @@ func (g JavaGenerator) generateEncodeNormalField(field *definition.NormalField,
 			// Fixed-bit-width element loop using bbWriteFieldBits.
 			bigEndianStr := g.generateBoolLiteral(gen.MatchOption(field.FieldOptions, "order", "big"))
 
-			bitBaseExpr := fmt.Sprintf("%d + _i * %dL", from, elemBitSize)
+			bitBaseExpr := fmt.Sprintf("%s * 8 + %d + _i * %dL", g.generateCastExpr(&definition.Int64, "start"), from, elemBitSize)
 			if structDynamic {
 				bitBaseExpr = g.generateCastExpr(&definition.Int64, "offset") + " * 8 + (" + bitBaseExpr + ")"
 			}
@@ -1695,7 +1695,7 @@ func (g JavaGenerator) generateEncodeNormalField(field *definition.NormalField,
 			switch elemTyT := ty.ElementType.(type) {
 			case *definition.Struct:
 				byteBase := from / 8
-				offsetExpr := fmt.Sprintf("%d + _i * %d", byteBase, elemBitSize/8)
+				offsetExpr := fmt.Sprintf("start + %d + _i * %d", byteBase, elemBitSize/8)
 				if structDynamic {
 					offsetExpr = "offset + " + offsetExpr
 				}
@@ -2715,7 +2715,7 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 			// Fixed-bit-width element loop using bbReadFieldBits.
 			bigEndianStr := g.generateBoolLiteral(gen.MatchOption(field.FieldOptions, "order", "big"))
 
-			bitBaseExpr := fmt.Sprintf("%d + _i * %dL", from, elemBitSize)
+			bitBaseExpr := fmt.Sprintf("%s * 8 + %d + _i * %dL", g.generateCastExpr(&definition.Int64, "start"), from, elemBitSize)
 			if structDynamic {
 				bitBaseExpr = g.generateCastExpr(&definition.Int64, "offset") + " * 8 + (" + bitBaseExpr + ")"
 			}
@@ -2732,7 +2732,7 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 			switch elemTyT := ty.ElementType.(type) {
 			case *definition.Struct:
 				byteBase := from / 8
-				offsetExpr := fmt.Sprintf("%d + _i * %d", byteBase, elemBitSize/8)
+				offsetExpr := fmt.Sprintf("start + %d + _i * %d", byteBase, elemBitSize/8)
 				if structDynamic {
 					offsetExpr = "offset + " + offsetExpr
 				}
-- 
2.43.0


From a42974208ee50462f61d1b153e9ad7626ad07023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 05/66] fix: C# decode size of a truncated nested dynamic
 struct asks for more data instead of throwing

---
 generator/target/csharp/csharp.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 8917d19..71a74ac 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2323,7 +2323,7 @@ var decoderTemplate = `
                 {{- if $memcpy }}
                 int _subSize = this.{{ TocamelCase $f.FieldName }}[_i].DecodeSize(data, offset + start + {{ $fromByte }});
                 {{- else }}
-                int _subSize = this.{{ TocamelCase $f.FieldName }}[_i].DecodeSize(memoryData.Slice(offset + {{ $fromByte }}));
+                int _subSize = this.{{ TocamelCase $f.FieldName }}[_i].DecodeSize(memoryData.Slice(Math.Min(offset + {{ $fromByte }}, memoryData.Length)));
                 {{- end }}
                 if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
                 offset += _subSize;
@@ -2334,7 +2334,7 @@ var decoderTemplate = `
                 {{- if $memcpy }}
                 int _subSize = this.{{ TocamelCase $f.FieldName }}[{{ $i }}].DecodeSize(data, offset + start + {{ $fromByte }});
                 {{- else }}
-                int _subSize = this.{{ TocamelCase $f.FieldName }}[{{ $i }}].DecodeSize(memoryData.Slice(offset + {{ $fromByte }}));
+                int _subSize = this.{{ TocamelCase $f.FieldName }}[{{ $i }}].DecodeSize(memoryData.Slice(Math.Min(offset + {{ $fromByte }}, memoryData.Length)));
                 {{- end }}
                 if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
                 offset += _subSize;
@@ -2399,7 +2399,7 @@ var decoderTemplate = `
                 {{- if $memcpy }}
                 int _subSize = this.{{ TocamelCase $f.FieldName }}.DecodeSize(data, offset + start + {{ $fromByte }});
                 {{- else }}
-                int _subSize = this.{{ TocamelCase $f.FieldName }}.DecodeSize(memoryData.Slice(offset + {{ $fromByte }}));
+                int _subSize = this.{{ TocamelCase $f.FieldName }}.DecodeSize(memoryData.Slice(Math.Min(offset + {{ $fromByte }}, memoryData.Length)));
                 {{- end }}
                 if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
                 offset += _subSize;
-- 
2.43.0


From 81ebf03d6fc84caa4bc97e2336c7f957d2edef96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 06/66] fix: a field of dynamic struct type has no fixed size
 of its own

---
 definition/struct.go        | 3 +++
 generator/target/cpp/cpp.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/definition/struct.go b/definition/struct.go
index 1684b7c..d297678 100644
--- a/definition/struct.go
+++ b/definition/struct.go
@@ -43,6 +43,9 @@ func (s Struct) GetTypeName() string {
 }
 
 func (s Struct) GetTypeBitSize() int64 {
+	if s.StructDynamic {
+		return -1
+	}
 	return s.StructBitSize
 }
 
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 23d10a1..8d7f4b9 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -2583,7 +2583,7 @@ var decoderTemplate = `
             offset += len;
         }
 {{- else if $f.FieldType.GetTypeID.IsStruct -}}
-    {{- $structType := $f.FieldType.ElementType -}}
+    {{- $structType := $f.FieldType -}}
     {{- if $structType.GetTypeDynamic }}
         {   // {{ $f }}
             uint64_t sub_offset = offset + {{ $fromByte }};
-- 
2.43.0


From 52200c86dd1683b1b069a9ee22225ed1e95decc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 07/66] fix: C++ names imported and local types by their
 cpp_namespace

---
 generator/target/cpp/cpp.go | 43 +++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 8d7f4b9..e4087fe 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -733,8 +733,23 @@ var structTemplate = `
 {{- end -}}
 `
 
+// cppNamespace returns the namespace that holds the types of a unit
+func cppNamespace(unit *definition.CompilationUnit) string {
+	if unit.Options.Has("cpp_namespace") {
+		option := unit.Options.MustGet("cpp_namespace")
+		quoted := fmt.Sprint(option.OptionValue)
+		return quoted[1 : len(quoted)-1]
+	}
+	return unit.Package.ToPath("::", "")
+}
+
+// cppEnumType returns the qualified name of an enum type
+func cppEnumType(enumDef *definition.Enum) string {
+	return fmt.Sprintf("enum %s::%s", cppNamespace(enumDef.EnumBelongs), enumDef.EnumName)
+}
+
 func (g CppGenerator) GenerateStruct(structDef *definition.Struct) (string, error) {
-	name := fmt.Sprintf("struct %s::%s", structDef.StructBelongs.Package.ToPath("::", ""), structDef.StructName)
+	name := fmt.Sprintf("struct %s::%s", cppNamespace(structDef.StructBelongs), structDef.StructName)
 	// check if this struct is already generated
 	if g.GenTypes.Has(structDef.StructName) {
 		return name, nil
@@ -1424,7 +1439,7 @@ func (g CppGenerator) GenerateRawSetter(field definition.Field) (string, error)
 // ==================== GenerateEnum ====================
 
 func (g CppGenerator) GenerateEnum(enumDef *definition.Enum) (string, error) {
-	name := fmt.Sprintf("enum %s::%s", enumDef.EnumBelongs.Package.ToPath("::", ""), enumDef.EnumName)
+	name := cppEnumType(enumDef)
 	// check if this enum is already generated
 	if g.GenTypes.Has(enumDef.EnumName) {
 		return name, nil
@@ -2534,9 +2549,9 @@ var decoderTemplate = `
             uint64_t sub_offset = offset + {{ $fromByte }};
             uint64_t remaining = size > sub_offset ? size - sub_offset : 0;
 			{{- if $.GenOptions.CompatibleMode }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
+            int64_t sub_size = {{ namespace $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
             {{- else }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
+            int64_t sub_size = {{ namespace $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
             {{- end }}
             if (sub_size < 0) return -static_cast<int64_t>(sub_offset) + sub_size;
             offset += static_cast<uint64_t>(sub_size);
@@ -2547,9 +2562,9 @@ var decoderTemplate = `
             uint64_t sub_offset = offset + {{ $fromByte }};
             uint64_t remaining = size > sub_offset ? size - sub_offset : 0;
 			{{- if $.GenOptions.CompatibleMode }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
+            int64_t sub_size = {{ namespace $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
             {{- else }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
+            int64_t sub_size = {{ namespace $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
             {{- end }}
             if (sub_size < 0) return -static_cast<int64_t>(sub_offset) + sub_size;
             offset += static_cast<uint64_t>(sub_size);
@@ -2589,9 +2604,9 @@ var decoderTemplate = `
             uint64_t sub_offset = offset + {{ $fromByte }};
             uint64_t remaining = size > sub_offset ? size - sub_offset : 0;
 			{{- if $.GenOptions.CompatibleMode }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
+            int64_t sub_size = {{ namespace $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
             {{- else }}
-            int64_t sub_size = {{ $structType.StructBelongs.Package.ToPath "::" "" }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
+            int64_t sub_size = {{ namespace $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
             {{- end }}
             if (sub_size < 0) return -static_cast<int64_t>(sub_offset) + sub_size;
             offset += static_cast<uint64_t>(sub_size);
@@ -2688,7 +2703,7 @@ func (g CppGenerator) GenerateDecoder(structDef *definition.Struct) (string, err
 			"DecodeStmts": decodeStmts,
 		}
 
-		str := util.ExecuteTemplate(decoderTemplate, "decodeField", nil, decodeFieldData)
+		str := util.ExecuteTemplate(decoderTemplate, "decodeField", template.FuncMap{"namespace": cppNamespace}, decodeFieldData)
 		decodeStrs = append(decodeStrs, str)
 		return nil
 	}); err != nil {
@@ -2701,7 +2716,7 @@ func (g CppGenerator) GenerateDecoder(structDef *definition.Struct) (string, err
 		"Dynamic":    structDef.GetTypeDynamic(),
 	}
 
-	decoderStr := util.ExecuteTemplate(decoderTemplate, "decoder", nil, fieldData)
+	decoderStr := util.ExecuteTemplate(decoderTemplate, "decoder", template.FuncMap{"namespace": cppNamespace}, fieldData)
 	return decoderStr, nil
 }
 
@@ -2763,7 +2778,7 @@ var fieldDecoderTemplate = `
 {{- end -}}
 
 {{- define "decodeNormalFieldTempVarAssignEnum" -}}
-    {{ .FieldName }} = static_cast<enum {{ .EnumDef.EnumBelongs.Package.ToPath "::" "" }}::{{ .EnumDef.EnumName }}>({{ .TempName }});
+    {{ .FieldName }} = static_cast<{{ .EnumType }}>({{ .TempName }});
 {{- end -}}
 
 {{- define "decodeNormalFieldNoCast" -}}
@@ -3010,7 +3025,7 @@ func (g CppGenerator) generateDecodeNormalField(field *definition.NormalField, s
 
 		decodeNormalFieldTempVarAssignEnumData := map[string]any{
 			"FieldName": g.generateDecodeStructFieldName(field.FieldName),
-			"EnumDef":   ty,
+			"EnumType":  cppEnumType(ty),
 			"TempName":  tempName,
 		}
 
@@ -3080,7 +3095,7 @@ func (g CppGenerator) generateDecodeNormalField(field *definition.NormalField, s
 				tempName := g.generateDecodeTempVarName(startBits)
 				decodeNormalFieldTempVarAssignEnumData := map[string]any{
 					"TempName":  tempName,
-					"EnumDef":   ty.ElementType.(*definition.Enum),
+					"EnumType":  cppEnumType(ty.ElementType.(*definition.Enum)),
 					"FieldName": fmt.Sprintf("((%s)[_i])", name),
 				}
 				assignStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignEnum", nil, decodeNormalFieldTempVarAssignEnumData)
@@ -3207,7 +3222,7 @@ func (g CppGenerator) generateDecodeNormalField(field *definition.NormalField, s
 				case *definition.Enum:
 					decodeNormalFieldTempVarAssignEnumData := map[string]any{
 						"TempName":  subName,
-						"EnumDef":   elemTy,
+						"EnumType":  cppEnumType(elemTy),
 						"FieldName": fmt.Sprintf("((%s)[%d])", name, i),
 					}
 					assignStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignEnum", nil, decodeNormalFieldTempVarAssignEnumData)
-- 
2.43.0


From 3922610b247cdbf2938e6c7536fa0da215184bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 08/66] fix: Go loops over fixed structs after dynamic fields
 compile

---
 generator/target/golang/golang.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 0f19679..177badc 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -1539,7 +1539,7 @@ func (g GoGenerator) generateEncodeNormalField(field *definition.NormalField, st
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -1647,7 +1647,7 @@ func (g GoGenerator) generateEncodeNormalField(field *definition.NormalField, st
 				byteBase := from / 8
 				offsetExpr := fmt.Sprintf("%d+_i*%d", byteBase, elemBitSize/8)
 				if structDynamic {
-					offsetExpr = "offset+" + offsetExpr
+					offsetExpr = g.generateCastExpr(&definition.Int64, "offset") + "+" + offsetExpr
 				}
 				_ = elemTyT
 				common["DataExpr"] = fmt.Sprintf("data[%s:]", offsetExpr)
@@ -2437,7 +2437,7 @@ func (g GoGenerator) generateDecodeNormalField(field *definition.NormalField, st
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -2535,7 +2535,7 @@ func (g GoGenerator) generateDecodeNormalField(field *definition.NormalField, st
 				byteBase := from / 8
 				offsetExpr := fmt.Sprintf("%d+_i*%d", byteBase, elemBitSize/8)
 				if structDynamic {
-					offsetExpr = "offset+" + offsetExpr
+					offsetExpr = g.generateCastExpr(&definition.Int64, "offset") + "+" + offsetExpr
 				}
 				common["DataExpr"] = fmt.Sprintf("data[%s:]", offsetExpr)
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopStruct", nil, common)
-- 
2.43.0


From ced2a420444e15e7801ecc263f97b7538560524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 09/66] fix: arrays of enums with a non power of two byte size

---
 generator/target/c/c.go           | 4 ++--
 generator/target/cpp/cpp.go       | 4 ++--
 generator/target/csharp/csharp.go | 4 ++--
 generator/target/java/java.go     | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index ad90b89..dc932bc 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -1817,7 +1817,7 @@ func (g CGenerator) generateEncodeNormalField(field *definition.NormalField, sta
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -2768,7 +2768,7 @@ func (g CGenerator) generateDecodeNormalField(field *definition.NormalField, sta
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index e4087fe..7bea166 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1972,7 +1972,7 @@ func (g CppGenerator) generateEncodeNormalField(field *definition.NormalField, s
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -3034,7 +3034,7 @@ func (g CppGenerator) generateDecodeNormalField(field *definition.NormalField, s
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 71a74ac..fdc2a15 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -1617,7 +1617,7 @@ func (g CSharpGenerator) generateEncodeNormalField(field *definition.NormalField
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -2893,7 +2893,7 @@ func (g CSharpGenerator) generateDecodeNormalField(field *definition.NormalField
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 05846d4..ce093c8 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1600,7 +1600,7 @@ func (g JavaGenerator) generateEncodeNormalField(field *definition.NormalField,
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
@@ -2640,7 +2640,7 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 
 	case *definition.Array:
 		elemTy := ty.ElementType
-		elemTySize := (ty.ElementType.GetTypeBitSize() + 7) / 8
+		elemTySize := util.HighBit((ty.ElementType.GetTypeBitSize() + 7) / 8)
 		elemBitSize := field.FieldBitSize / ty.Length
 		tyUint := typeSizeToUintStr(elemTySize * 8)
 		tyUintID := typeSizeMapUint[elemTySize*8]
-- 
2.43.0


From ca3edcafb9bf75fddab2a2eb7c7a1b5f1493c540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 10/66] fix: ESModule emits the string helpers for files whose
 only strings are in arrays

---
 generator/target/esm/esm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 9ed89d3..bec16fb 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -1095,6 +1095,9 @@ func (g ESModuleGenerator) GenerateArrayDefaultValue(array *definition.Array) (s
 		length := g.generateDec(array.Length)
 		return fmt.Sprintf("createArray(%s, function() { return %s; })", length, elemDefValue), nil
 	}
+	if array.ElementType.GetTypeID().IsString() {
+		g.GenState.UseString = true
+	}
 	return "[]", nil
 }
 
-- 
2.43.0


From 84570dd7b0bc14d98ab5e0a13a1f1d59e4b43b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 11/66] fix: JavaScript string decoding of malformed UTF-8
 stops at the terminator

---
 generator/target/commonjs/commonjs.go | 24 ++++++++++++++++--------
 generator/target/esm/esm.go           | 24 ++++++++++++++++--------
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 9ca6d77..6cff5a0 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -477,14 +477,18 @@ var fileTemplate = `
      */
     function stringFromUTF8Bytes(data, start) {
         var str = "";
+        var end = start;
+        while (end < data.length && data[end]) end++;
         var offset = start;
-        while (offset < data.length && data[offset] && data[offset] !== 0) {
+        // a malformed sequence never reads past the terminator
+        var next = function() { return offset < end ? data[offset++] & 0x3F : 0; };
+        while (offset < end) {
             var code = data[offset++];
             if (code < 0x80) str += String.fromCharCode(code);
-            else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (data[offset++] & 0x3F));
-            else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F));
+            else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | next());
+            else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | (next() << 6) | next());
             else {
-                code = ((code & 0x7) << 18) | ((data[offset++] & 0x3F) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F);
+                code = ((code & 0x7) << 18) | (next() << 12) | (next() << 6) | next();
                 if (code < 0x10000) str += String.fromCharCode(code);
                 else {
                     code -= 0x10000;
@@ -833,14 +837,18 @@ var fileTemplate = `
      */
     function stringFromUTF8Bytes(data, start) {
         var str = "";
+        var end = start;
+        while (end < data.length && data[end]) end++;
         var offset = start;
-        while (offset < data.length && data[offset] && data[offset] !== 0) {
+        // a malformed sequence never reads past the terminator
+        var next = function() { return offset < end ? data[offset++] & 0x3F : 0; };
+        while (offset < end) {
             var code = data[offset++];
             if (code < 0x80) str += String.fromCharCode(code);
-            else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (data[offset++] & 0x3F));
-            else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F));
+            else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | next());
+            else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | (next() << 6) | next());
             else {
-                code = ((code & 0x7) << 18) | ((data[offset++] & 0x3F) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F);
+                code = ((code & 0x7) << 18) | (next() << 12) | (next() << 6) | next();
                 if (code < 0x10000) str += String.fromCharCode(code);
                 else {
                     code -= 0x10000;
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index bec16fb..8a8ed99 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -437,14 +437,18 @@ function stringToUTF8Bytes(str, data, start) {
  */
 function stringFromUTF8Bytes(data, start) {
     let str = "";
+    let end = start;
+    while (end < data.length && data[end]) end++;
     let offset = start;
-    while (offset < data.length && data[offset] && data[offset] !== 0) {
+    // a malformed sequence never reads past the terminator
+    const next = function() { return offset < end ? data[offset++] & 0x3F : 0; };
+    while (offset < end) {
         let code = data[offset++];
         if (code < 0x80) str += String.fromCharCode(code);
-        else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (data[offset++] & 0x3F));
-        else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F));
+        else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | next());
+        else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | (next() << 6) | next());
         else {
-            code = ((code & 0x7) << 18) | ((data[offset++] & 0x3F) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F);
+            code = ((code & 0x7) << 18) | (next() << 12) | (next() << 6) | next();
             if (code < 0x10000) str += String.fromCharCode(code);
             else {
                 code -= 0x10000;
@@ -759,14 +763,18 @@ function stringToUTF8Bytes(str, data, start) {
  */
 function stringFromUTF8Bytes(data, start) {
     let str = "";
+    let end = start;
+    while (end < data.length && data[end]) end++;
     let offset = start;
-    while (offset < data.length && data[offset] && data[offset] !== 0) {
+    // a malformed sequence never reads past the terminator
+    const next = function() { return offset < end ? data[offset++] & 0x3F : 0; };
+    while (offset < end) {
         let code = data[offset++];
         if (code < 0x80) str += String.fromCharCode(code);
-        else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | (data[offset++] & 0x3F));
-        else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F));
+        else if (code < 0xE0) str += String.fromCharCode(((code & 0x1F) << 6) | next());
+        else if (code < 0xF0) str += String.fromCharCode(((code & 0xF) << 12) | (next() << 6) | next());
         else {
-            code = ((code & 0x7) << 18) | ((data[offset++] & 0x3F) << 12) | ((data[offset++] & 0x3F) << 6) | (data[offset++] & 0x3F);
+            code = ((code & 0x7) << 18) | (next() << 12) | (next() << 6) | next();
             if (code < 0x10000) str += String.fromCharCode(code);
             else {
                 code -= 0x10000;
-- 
2.43.0


From 01d4172ccbe31b1b1df2440658c1d2eb61eb08df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 12/66] fix: padding that begins a byte clears it so later
 fields do not mix in old buffer bits

---
 generator/target/c/c.go               | 14 +++++++++++++-
 generator/target/commonjs/commonjs.go | 14 +++++++++++++-
 generator/target/cpp/cpp.go           | 14 +++++++++++++-
 generator/target/csharp/csharp.go     | 14 +++++++++++++-
 generator/target/esm/esm_encode.go    | 14 +++++++++++++-
 generator/target/golang/golang.go     | 14 +++++++++++++-
 generator/target/java/java.go         | 14 +++++++++++++-
 7 files changed, 91 insertions(+), 7 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index dc932bc..58b1014 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -1770,7 +1770,19 @@ func (g CGenerator) generateEncodeConstantField(field *definition.ConstantField,
 }
 
 func (g CGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// the fields behind the padding only add their bits to the byte they share with it,
+	// so the padding that begins such a byte clears it
+	to := startBits + field.GetFieldBitSize()
+	from := to &^ 7
+	if from == to || from < startBits {
+		return []string{""}, nil
+	}
+
+	structDynamic := field.FieldBelongs.GetTypeDynamic()
+	fieldData := func(int64) string {
+		return g.generateHex(uint8(0))
+	}
+	return g.generateEncodeImpl(from, to, fieldData, structDynamic), nil
 }
 
 func (g CGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 6cff5a0..868af32 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -2050,7 +2050,19 @@ func (g CommonJSGenerator) generateEncodeConstantField(field *definition.Constan
 }
 
 func (g CommonJSGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// the fields behind the padding only add their bits to the byte they share with it,
+	// so the padding that begins such a byte clears it
+	to := startBits + field.GetFieldBitSize()
+	from := to &^ 7
+	if from == to || from < startBits {
+		return []string{""}, nil
+	}
+
+	structDynamic := field.FieldBelongs.GetTypeDynamic()
+	fieldData := func(int64) string {
+		return g.generateHex(uint8(0))
+	}
+	return g.generateEncodeImpl(from, to, fieldData, g.generateBin, g.generateDec, false, structDynamic), nil
 }
 
 func (g CommonJSGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 7bea166..eea1fba 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1925,7 +1925,19 @@ func (g CppGenerator) generateEncodeConstantField(field *definition.ConstantFiel
 }
 
 func (g CppGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// the fields behind the padding only add their bits to the byte they share with it,
+	// so the padding that begins such a byte clears it
+	to := startBits + field.GetFieldBitSize()
+	from := to &^ 7
+	if from == to || from < startBits {
+		return []string{""}, nil
+	}
+
+	structDynamic := field.FieldBelongs.GetTypeDynamic()
+	fieldData := func(int64) string {
+		return g.generateHex(uint8(0))
+	}
+	return g.generateEncodeImpl(from, to, fieldData, structDynamic), nil
 }
 
 func (g CppGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index fdc2a15..47830b7 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -1530,7 +1530,19 @@ func (g CSharpGenerator) generateEncodeConstantField(field *definition.ConstantF
 }
 
 func (g CSharpGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// the fields behind the padding only add their bits to the byte they share with it,
+	// so the padding that begins such a byte clears it
+	to := startBits + field.GetFieldBitSize()
+	from := to &^ 7
+	if from == to || from < startBits {
+		return []string{""}, nil
+	}
+
+	structDynamic := field.FieldBelongs.GetTypeDynamic()
+	fieldData := func(int64) string {
+		return g.generateHex(uint8(0))
+	}
+	return g.generateEncodeImpl(from, to, fieldData, structDynamic), nil
 }
 
 func (g CSharpGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index 0abc260..dcdf8e0 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -335,7 +335,19 @@ func (g ESModuleGenerator) generateEncodeConstantField(field *definition.Constan
 }
 
 func (g ESModuleGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// the fields behind the padding only add their bits to the byte they share with it,
+	// so the padding that begins such a byte clears it
+	to := startBits + field.GetFieldBitSize()
+	from := to &^ 7
+	if from == to || from < startBits {
+		return []string{""}, nil
+	}
+
+	structDynamic := field.FieldBelongs.GetTypeDynamic()
+	fieldData := func(int64) string {
+		return g.generateHex(uint8(0))
+	}
+	return g.generateEncodeImpl(from, to, fieldData, g.generateBin, g.generateDec, false, structDynamic), nil
 }
 
 func (g ESModuleGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 177badc..b45ba12 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -1492,7 +1492,19 @@ func (g GoGenerator) generateEncodeConstantField(field *definition.ConstantField
 }
 
 func (g GoGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// the fields behind the padding only add their bits to the byte they share with it,
+	// so the padding that begins such a byte clears it
+	to := startBits + field.GetFieldBitSize()
+	from := to &^ 7
+	if from == to || from < startBits {
+		return []string{""}, nil
+	}
+
+	structDynamic := field.FieldBelongs.GetTypeDynamic()
+	fieldData := func(int64) string {
+		return g.generateHex(uint8(0))
+	}
+	return g.generateEncodeImpl(from, to, fieldData, structDynamic), nil
 }
 
 func (g GoGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index ce093c8..be219e1 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1513,7 +1513,19 @@ func (g JavaGenerator) generateEncodeConstantField(field *definition.ConstantFie
 }
 
 func (g JavaGenerator) generateEncodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
-	return []string{""}, nil
+	// the fields behind the padding only add their bits to the byte they share with it,
+	// so the padding that begins such a byte clears it
+	to := startBits + field.GetFieldBitSize()
+	from := to &^ 7
+	if from == to || from < startBits {
+		return []string{""}, nil
+	}
+
+	structDynamic := field.FieldBelongs.GetTypeDynamic()
+	fieldData := func(int64) string {
+		return g.generateHex(uint8(0))
+	}
+	return g.generateEncodeImpl(from, to, fieldData, structDynamic), nil
 }
 
 func (g JavaGenerator) generateEncodeEmbeddedField(field *definition.EmbeddedField, startBits int64) ([]string, error) {
-- 
2.43.0


From 8ecef622c1ef938d28cb2020923f289cb287e17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 13/66] fix: constant fields encode and check exactly their
 bits, whatever their type, width and order

---
 generator/gen/gen_util.go             | 61 +++++++++++++++++++++++++++
 generator/target/c/c.go               | 60 +++++++++-----------------
 generator/target/commonjs/commonjs.go | 53 ++++++++---------------
 generator/target/cpp/cpp.go           | 61 +++++++++------------------
 generator/target/csharp/csharp.go     | 61 +++++++++------------------
 generator/target/esm/esm_decode.go    | 27 +++++++-----
 generator/target/esm/esm_encode.go    | 15 ++-----
 generator/target/golang/golang.go     | 60 +++++++++-----------------
 generator/target/java/java.go         | 60 ++++++++------------------
 generator/target/python/python.go     | 48 ++++++++-------------
 10 files changed, 213 insertions(+), 293 deletions(-)

diff --git a/generator/gen/gen_util.go b/generator/gen/gen_util.go
index 1c5274e..c67cf68 100644
--- a/generator/gen/gen_util.go
+++ b/generator/gen/gen_util.go
@@ -1,6 +1,10 @@
 package gen
 
 import (
+	"bytes"
+	"encoding/binary"
+	"fmt"
+
 	"github.com/xaxys/bubbler/definition"
 	"github.com/xaxys/bubbler/util"
 )
@@ -15,3 +19,60 @@ func MatchOption(options *util.OrderedMap[string, *definition.Option], name stri
 	}
 	return option.OptionValue.GetLiteralValue() == value
 }
+
+// ConstantFieldBytes returns the bytes of a constant field in wire order,
+// eight bits of the field each, the last one holding the bits that remain.
+func ConstantFieldBytes(field *definition.ConstantField) ([]byte, error) {
+	buffer := &bytes.Buffer{}
+	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
+	if err := binary.Write(buffer, binary.BigEndian, value); err != nil {
+		return nil, fmt.Errorf("internal error: %s", err)
+	}
+	var bits uint64
+	for _, b := range buffer.Bytes() {
+		bits = bits<<8 | uint64(b)
+	}
+
+	fieldBitSize := field.GetFieldBitSize()
+	bigEndian := MatchOption(field.FieldOptions, "order", "big")
+	data := make([]byte, (fieldBitSize+7)/8)
+	for i := range data {
+		count := min(8, fieldBitSize-int64(i)*8)
+		shift := int64(i) * 8
+		if bigEndian {
+			shift = max(0, fieldBitSize-8*int64(i+1))
+		}
+		data[i] = byte(bits>>shift) & byte(1<<count-1)
+	}
+	return data, nil
+}
+
+// ConstantByte is what a constant field demands of one byte of its struct.
+type ConstantByte struct {
+	Pos   int64
+	Mask  uint8
+	Value uint8
+}
+
+// ConstantFieldCheck returns what a constant field starting at startBits
+// demands of every byte it has bits in.
+func ConstantFieldCheck(field *definition.ConstantField, startBits int64) ([]ConstantByte, error) {
+	data, err := ConstantFieldBytes(field)
+	if err != nil {
+		return nil, err
+	}
+	check := []ConstantByte{}
+	for i := int64(0); i < field.GetFieldBitSize(); i++ {
+		pos := (startBits + i) / 8
+		if len(check) == 0 || check[len(check)-1].Pos != pos {
+			check = append(check, ConstantByte{Pos: pos})
+		}
+		last := &check[len(check)-1]
+		bit := uint8(1) << ((startBits + i) % 8)
+		last.Mask |= bit
+		if data[i/8]>>(i%8)&1 != 0 {
+			last.Value |= bit
+		}
+	}
+	return check, nil
+}
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 58b1014..6de675e 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -1,8 +1,6 @@
 package c
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1745,19 +1743,11 @@ func (g CGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldBytes(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
 
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -2536,7 +2526,7 @@ var fieldDecoderTemplate = `
 {{- end -}}
 
 {{- define "decodeConstantField" -}}
-    if ({{ .TempName }} != {{ .ConstantValue }}) return -1;
+    if ((({{ .Data }}) & {{ .Mask }}) != {{ .Value }}) return -1;
 {{- end -}}
 
 {{- define "decodeNormalFieldStruct" -}}
@@ -2684,42 +2674,30 @@ func (g CGenerator) generateDecodeConstantField(field *definition.ConstantField,
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
 
-	fieldBitSize := field.GetFieldBitSize()
-	fieldSize := (fieldBitSize + 7) / 8
-	tySize := util.HighBit(fieldSize)
-	tyUint := typeSizeToUintStr(tySize * 8)
-	tempName := g.generateDecodeTempVarName(startBits)
-
-	decodeNormalFieldTempVarDeclData := map[string]any{
-		"TyUint":   tyUint,
-		"TempName": tempName,
-	}
-	declStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, decodeNormalFieldTempVarDeclData)
-	decodeStmts = append(decodeStmts, declStr)
-
-	from := startBits
-	to := startBits + fieldBitSize
-
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
-	if err != nil {
-		return nil, err
+	dataDataFunc := func(i int64) string {
+		decodeDataData := map[string]any{
+			"TyUint8": typeMap[definition.TypeID_Uint8],
+			"Dynamic": structDynamic,
+			"BytePos": i,
+		}
+		return util.ExecuteTemplate(fieldDecoderTemplate, "decodeData", nil, decodeDataData)
 	}
 
-	decodeStmts = append(decodeStmts, stmts...)
-
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	check, err := gen.ConstantFieldCheck(field, startBits)
 	if err != nil {
 		return nil, err
 	}
 
-	decodeConstantFieldData := map[string]any{
-		"TempName":      tempName,
-		"ConstantValue": literalValue,
+	for _, b := range check {
+		decodeConstantFieldData := map[string]any{
+			"Data":  dataDataFunc(b.Pos),
+			"Mask":  g.generateHex(b.Mask),
+			"Value": g.generateHex(b.Value),
+		}
+		checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, decodeConstantFieldData)
+		decodeStmts = append(decodeStmts, checkStr)
 	}
 
-	checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, decodeConstantFieldData)
-	decodeStmts = append(decodeStmts, checkStr)
-
 	return decodeStmts, nil
 }
 
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 868af32..7002f8d 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -1,8 +1,6 @@
 package commonjs
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"math"
 	"strings"
@@ -2025,19 +2023,11 @@ func (g CommonJSGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CommonJSGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldBytes(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
 
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -2940,7 +2930,7 @@ var fieldDecoderTemplate = `
 {{- end -}}
 
 {{- define "decodeConstantField" -}}
-    if ({{ .TempName }} !== {{ .ConstantValue }}) return -1;
+    if (({{ .Data }} & {{ .Mask }}) !== {{ .Value }}) return -1;
 {{- end -}}
 
 {{- define "decodeNormalFieldStruct" -}}
@@ -3063,36 +3053,29 @@ func (g CommonJSGenerator) generateDecodeConstantField(field *definition.Constan
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
 
-	tempName := g.generateDecodeTempVarName(startBits)
-	decodeNormalFieldTempVarDeclData := map[string]any{
-		"TempName": tempName,
-	}
-	declStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, decodeNormalFieldTempVarDeclData)
-	decodeStmts = append(decodeStmts, declStr)
-
-	from := startBits
-	to := startBits + field.GetFieldBitSize()
-
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
-	if err != nil {
-		return nil, err
+	dataDataFunc := func(i int64) string {
+		decodeDataData := map[string]any{
+			"Dynamic": structDynamic,
+			"BytePos": i,
+		}
+		return util.ExecuteTemplate(fieldDecoderTemplate, "decodeData", nil, decodeDataData)
 	}
 
-	decodeStmts = append(decodeStmts, stmts...)
-
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	check, err := gen.ConstantFieldCheck(field, startBits)
 	if err != nil {
 		return nil, err
 	}
 
-	decodeConstantFieldData := map[string]any{
-		"TempName":      tempName,
-		"ConstantValue": literalValue,
+	for _, b := range check {
+		decodeConstantFieldData := map[string]any{
+			"Data":  dataDataFunc(b.Pos),
+			"Mask":  g.generateHex(b.Mask),
+			"Value": g.generateHex(b.Value),
+		}
+		checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, decodeConstantFieldData)
+		decodeStmts = append(decodeStmts, checkStr)
 	}
 
-	checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, decodeConstantFieldData)
-	decodeStmts = append(decodeStmts, checkStr)
-
 	return decodeStmts, nil
 }
 
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index eea1fba..c327ba9 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1,8 +1,6 @@
 package cpp
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1900,19 +1898,11 @@ func (g CppGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CppGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldBytes(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
 
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -2758,7 +2748,7 @@ var fieldDecoderTemplate = `
 {{- end -}}
 
 {{- define "decodeConstantField" -}}
-    if ({{ .TempName }} != {{ .ConstantValue }}) return -1;
+    if ((({{ .Data }}) & {{ .Mask }}) != {{ .Value }}) return -1;
 {{- end -}}
 
 {{- define "decodeNormalFieldStruct" -}}
@@ -2950,42 +2940,31 @@ func (g CppGenerator) generateDecodeConstantField(field *definition.ConstantFiel
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
 
-	fieldBitSize := field.GetFieldBitSize()
-	fieldSize := (fieldBitSize + 7) / 8
-	tySize := util.HighBit(fieldSize)
-	tyUint := typeSizeToUintStr(tySize * 8)
-	tempName := g.generateDecodeTempVarName(startBits)
-
-	decodeNormalFieldTempVarDeclData := map[string]any{
-		"TyUint":   tyUint,
-		"TempName": tempName,
-	}
-	declStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, decodeNormalFieldTempVarDeclData)
-	decodeStmts = append(decodeStmts, declStr)
-
-	from := startBits
-	to := startBits + fieldBitSize
-
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
-	if err != nil {
-		return nil, err
+	dataDataFunc := func(i int64) string {
+		decodeDataData := map[string]any{
+			"TyUint8":        typeMap[definition.TypeID_Uint8],
+			"Dynamic":        structDynamic,
+			"BytePos":        i,
+			"CompatibleMode": g.GenCtx.GenOptions.CompatibleMode,
+		}
+		return util.ExecuteTemplate(fieldDecoderTemplate, "decodeData", nil, decodeDataData)
 	}
 
-	decodeStmts = append(decodeStmts, stmts...)
-
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	check, err := gen.ConstantFieldCheck(field, startBits)
 	if err != nil {
 		return nil, err
 	}
 
-	decodeConstantFieldData := map[string]any{
-		"TempName":      tempName,
-		"ConstantValue": literalValue,
+	for _, b := range check {
+		decodeConstantFieldData := map[string]any{
+			"Data":  dataDataFunc(b.Pos),
+			"Mask":  g.generateHex(b.Mask),
+			"Value": g.generateHex(b.Value),
+		}
+		checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, decodeConstantFieldData)
+		decodeStmts = append(decodeStmts, checkStr)
 	}
 
-	checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, decodeConstantFieldData)
-	decodeStmts = append(decodeStmts, checkStr)
-
 	return decodeStmts, nil
 }
 
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 47830b7..51380fb 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -1,8 +1,6 @@
 package csharp
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1505,19 +1503,11 @@ func (g CSharpGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CSharpGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldBytes(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
 
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -2600,7 +2590,7 @@ var fieldDecoderTemplate = `
 {{- end -}}
 
 {{- define "decodeConstantField" -}}
-    if ({{ .TempName }} != ({{ .TyUint }}){{ .ConstantValue }}) return -1;
+    if (({{ .Data }} & {{ .Mask }}) != {{ .Value }}) return -1;
 {{- end -}}
 
 {{- define "decodeNormalFieldStruct" -}}
@@ -2739,43 +2729,30 @@ func (g CSharpGenerator) generateDecodeConstantField(field *definition.ConstantF
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
 
-	fieldBitSize := field.GetFieldBitSize()
-	fieldSize := (fieldBitSize + 7) / 8
-	tySize := util.HighBit(fieldSize)
-	tyUint := typeSizeToUintStr(tySize * 8)
-	tempName := g.generateDecodeTempVarName(startBits)
-
-	decodeNormalFieldTempVarDeclData := map[string]any{
-		"TyUint":   tyUint,
-		"TempName": tempName,
-	}
-	declStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, decodeNormalFieldTempVarDeclData)
-	decodeStmts = append(decodeStmts, declStr)
-
-	from := startBits
-	to := startBits + field.GetFieldBitSize()
-
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
-	if err != nil {
-		return nil, err
+	dataDataFunc := func(i int64) string {
+		decodeDataData := map[string]any{
+			"GenOptions": g.GenCtx.GenOptions,
+			"Dynamic":    structDynamic,
+			"BytePos":    i,
+		}
+		return util.ExecuteTemplate(fieldDecoderTemplate, "decodeData", nil, decodeDataData)
 	}
 
-	decodeStmts = append(decodeStmts, stmts...)
-
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	check, err := gen.ConstantFieldCheck(field, startBits)
 	if err != nil {
 		return nil, err
 	}
 
-	decodeConstantFieldData := map[string]any{
-		"TyUint":        tyUint,
-		"TempName":      tempName,
-		"ConstantValue": literalValue,
+	for _, b := range check {
+		decodeConstantFieldData := map[string]any{
+			"Data":  dataDataFunc(b.Pos),
+			"Mask":  g.generateHex(b.Mask),
+			"Value": g.generateHex(b.Value),
+		}
+		checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, decodeConstantFieldData)
+		decodeStmts = append(decodeStmts, checkStr)
 	}
 
-	checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, decodeConstantFieldData)
-	decodeStmts = append(decodeStmts, checkStr)
-
 	return decodeStmts, nil
 }
 
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 9797a9f..92cc4e3 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -324,7 +324,7 @@ var fieldDecoderTemplate = `
 {{- end -}}
 
 {{- define "decodeConstantField" -}}
-    if ({{ .TempName }} !== {{ .ConstantValue }}) return -1;
+    if (({{ .Data }} & {{ .Mask }}) !== {{ .Value }}) return -1;
 {{- end -}}
 
 {{- define "decodeNormalFieldStruct" -}}
@@ -438,19 +438,26 @@ func (g ESModuleGenerator) generateDecodeStructFieldName(name string) string {
 func (g ESModuleGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
-	tempName := g.generateDecodeTempVarName(startBits)
-	decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, map[string]any{"TempName": tempName}))
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, startBits, startBits+field.GetFieldBitSize())
-	if err != nil {
-		return nil, err
+
+	dataDataFunc := func(i int64) string {
+		return util.ExecuteTemplate(fieldDecoderTemplate, "decodeData", nil, map[string]any{"Dynamic": structDynamic, "BytePos": i})
 	}
-	decodeStmts = append(decodeStmts, stmts...)
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+
+	check, err := gen.ConstantFieldCheck(field, startBits)
 	if err != nil {
 		return nil, err
 	}
-	checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, map[string]any{"TempName": tempName, "ConstantValue": literalValue})
-	decodeStmts = append(decodeStmts, checkStr)
+
+	for _, b := range check {
+		decodeConstantFieldData := map[string]any{
+			"Data":  dataDataFunc(b.Pos),
+			"Mask":  g.generateHex(b.Mask),
+			"Value": g.generateHex(b.Value),
+		}
+		checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, decodeConstantFieldData)
+		decodeStmts = append(decodeStmts, checkStr)
+	}
+
 	return decodeStmts, nil
 }
 
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index dcdf8e0..fa5f70a 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -1,8 +1,6 @@
 package esm
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 
@@ -320,16 +318,11 @@ func (g ESModuleGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g ESModuleGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
+	data, err := gen.ConstantFieldBytes(field)
+	if err != nil {
+		return nil, err
 	}
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	if err := binary.Write(buffer, byteOrder, value); err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
-	}
-	data := buffer.Bytes()
+
 	fieldData := func(i int64) string { return g.generateHex(data[i]) }
 	return g.generateEncodeImpl(startBits, startBits+field.GetFieldBitSize(), fieldData, g.generateBin, g.generateDec, false, structDynamic), nil
 }
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index b45ba12..b4cd744 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -1,8 +1,6 @@
 package golang
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1467,19 +1465,11 @@ func (g GoGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g GoGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldBytes(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
 
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -2217,7 +2207,7 @@ var fieldDecoderTemplate = `
 {{- end -}}
 
 {{- define "decodeConstantField" -}}
-    if {{ .TempName }} != {{ .ConstantValue }} {
+    if {{ .Data }}&{{ .Mask }} != {{ .Value }} {
         return -1
     }
 {{- end -}}
@@ -2353,42 +2343,30 @@ func (g GoGenerator) generateDecodeConstantField(field *definition.ConstantField
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
 
-	fieldBitSize := field.GetFieldBitSize()
-	fieldSize := (fieldBitSize + 7) / 8
-	tySize := util.HighBit(fieldSize)
-	tyUint := typeSizeToUintStr(tySize * 8)
-	tempName := g.generateDecodeTempVarName(startBits)
-
-	decodeNormalFieldTempVarDeclData := map[string]any{
-		"TyUint":   tyUint,
-		"TempName": tempName,
-	}
-	declStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, decodeNormalFieldTempVarDeclData)
-	decodeStmts = append(decodeStmts, declStr)
-
-	from := startBits
-	to := startBits + fieldBitSize
-
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
-	if err != nil {
-		return nil, err
+	dataDataFunc := func(i int64) string {
+		decodeDataData := map[string]any{
+			"TyUint8": typeMap[definition.TypeID_Uint8],
+			"Dynamic": structDynamic,
+			"BytePos": i,
+		}
+		return util.ExecuteTemplate(fieldDecoderTemplate, "decodeData", nil, decodeDataData)
 	}
 
-	decodeStmts = append(decodeStmts, stmts...)
-
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	check, err := gen.ConstantFieldCheck(field, startBits)
 	if err != nil {
 		return nil, err
 	}
 
-	decodeConstantFieldData := map[string]any{
-		"TempName":      tempName,
-		"ConstantValue": literalValue,
+	for _, b := range check {
+		decodeConstantFieldData := map[string]any{
+			"Data":  dataDataFunc(b.Pos),
+			"Mask":  g.generateHex(b.Mask),
+			"Value": g.generateHex(b.Value),
+		}
+		checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, decodeConstantFieldData)
+		decodeStmts = append(decodeStmts, checkStr)
 	}
 
-	checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, decodeConstantFieldData)
-	decodeStmts = append(decodeStmts, checkStr)
-
 	return decodeStmts, nil
 }
 
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index be219e1..b6f2565 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1,8 +1,6 @@
 package java
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"math"
 	"strings"
@@ -1488,19 +1486,11 @@ func (g JavaGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g JavaGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldBytes(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
 
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -2371,7 +2361,7 @@ var fieldDecoderTemplate = `
 {{- end -}}
 
 {{- define "decodeConstantField" -}}
-    if ({{ .TempName }} != ({{ .TyUint }}){{ .ConstantValue }}) return -1;
+    if (({{ .Data }} & {{ .Mask }}) != {{ .Value }}) return -1;
 {{- end -}}
 
 {{- define "decodeNormalFieldStruct" -}}
@@ -2486,43 +2476,29 @@ func (g JavaGenerator) generateDecodeConstantField(field *definition.ConstantFie
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
 
-	fieldBitSize := field.GetFieldBitSize()
-	fieldSize := (fieldBitSize + 7) / 8
-	tySize := util.HighBit(fieldSize)
-	tyUint := typeSizeToUintStr(tySize * 8)
-	tempName := g.generateDecodeTempVarName(startBits)
-
-	decodeNormalFieldTempVarDeclData := map[string]any{
-		"TyUint":   tyUint,
-		"TempName": tempName,
-	}
-	declStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, decodeNormalFieldTempVarDeclData)
-	decodeStmts = append(decodeStmts, declStr)
-
-	from := startBits
-	to := startBits + field.GetFieldBitSize()
-
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
-	if err != nil {
-		return nil, err
+	dataDataFunc := func(i int64) string {
+		decodeDataData := map[string]any{
+			"Dynamic": structDynamic,
+			"BytePos": i,
+		}
+		return util.ExecuteTemplate(fieldDecoderTemplate, "decodeData", nil, decodeDataData)
 	}
 
-	decodeStmts = append(decodeStmts, stmts...)
-
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	check, err := gen.ConstantFieldCheck(field, startBits)
 	if err != nil {
 		return nil, err
 	}
 
-	decodeConstantFieldData := map[string]any{
-		"TyUint":        tyUint,
-		"TempName":      tempName,
-		"ConstantValue": literalValue,
+	for _, b := range check {
+		decodeConstantFieldData := map[string]any{
+			"Data":  dataDataFunc(b.Pos),
+			"Mask":  g.generateHex(b.Mask),
+			"Value": g.generateHex(b.Value),
+		}
+		checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, decodeConstantFieldData)
+		decodeStmts = append(decodeStmts, checkStr)
 	}
 
-	checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, decodeConstantFieldData)
-	decodeStmts = append(decodeStmts, checkStr)
-
 	return decodeStmts, nil
 }
 
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index a8715ff..582ba98 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -1,8 +1,6 @@
 package python
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1157,19 +1155,11 @@ func (g PythonGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g PythonGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldBytes(field)
 	if err != nil {
-		return nil, fmt.Errorf("internal error: %s", err)
+		return nil, err
 	}
 
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
@@ -1855,7 +1845,7 @@ var fieldDecoderTemplate = `
 {{- end -}}
 
 {{- define "decodeConstantField" -}}
-    if {{ .TempName }} != {{ .ConstantValue }}:
+    if ({{ .Data }} & {{ .Mask }}) != {{ .Value }}:
             return False, 0
 {{- end -}}
 
@@ -1958,31 +1948,29 @@ func (g PythonGenerator) generateDecodeConstantField(field *definition.ConstantF
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
 
-	tempName := g.generateDecodeTempVarName(startBits)
-
-	from := startBits
-	to := startBits + field.GetFieldBitSize()
-
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
-	if err != nil {
-		return nil, err
+	dataDataFunc := func(i int64) string {
+		decodeDataData := map[string]any{
+			"Dynamic": structDynamic,
+			"BytePos": i,
+		}
+		return util.ExecuteTemplate(fieldDecoderTemplate, "decodeData", nil, decodeDataData)
 	}
 
-	decodeStmts = append(decodeStmts, stmts...)
-
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	check, err := gen.ConstantFieldCheck(field, startBits)
 	if err != nil {
 		return nil, err
 	}
 
-	decodeConstantFieldData := map[string]any{
-		"TempName":      tempName,
-		"ConstantValue": literalValue,
+	for _, b := range check {
+		decodeConstantFieldData := map[string]any{
+			"Data":  dataDataFunc(b.Pos),
+			"Mask":  g.generateHex(b.Mask),
+			"Value": g.generateHex(b.Value),
+		}
+		checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, decodeConstantFieldData)
+		decodeStmts = append(decodeStmts, checkStr)
 	}
 
-	checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, decodeConstantFieldData)
-	decodeStmts = append(decodeStmts, checkStr)
-
 	return decodeStmts, nil
 }
 
-- 
2.43.0


From 4d526b5e54f686ae40665cfc90b91fe4c98d2407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 14/66] fix: unnamed constant fields declare no member

---
 generator/target/commonjs/commonjs.go | 2 ++
 generator/target/csharp/csharp.go     | 2 ++
 generator/target/esm/esm.go           | 2 ++
 generator/target/java/java.go         | 2 ++
 generator/target/python/python.go     | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 7002f8d..7a0fb9f 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -1472,9 +1472,11 @@ var constantFieldTemplate = `
 {{- define "constantField" -}}
     {{- $field := .Field -}}
     {{- $fieldName := TocamelCase .Field.FieldName -}}
+    {{- if $fieldName -}}
     {{- $tyStr := GenerateType $field.FieldType -}}
     {{- $constValue := GenerateLiteral $field.FieldConstant -}}
     this.{{ $fieldName }} = {{ $constValue }};
+    {{- end -}}
 {{- end -}}
 `
 
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 51380fb..7c2d6fe 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -830,9 +830,11 @@ var constantFieldTemplate = `
 {{- define "constantField" -}}
     {{- $field := .Field -}}
     {{- $fieldName := ToPascalCase .Field.FieldName -}}
+    {{- if $fieldName -}}
     {{- $tyStr := GenerateType $field.FieldType -}}
     {{- $constValue := GenerateLiteral $field.FieldConstant -}}
         public const {{ $tyStr }} {{ $fieldName }} = ({{ $tyStr }}){{ $constValue }};
+    {{- end -}}
 {{- end -}}
 `
 
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 8a8ed99..40b0c28 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -1315,8 +1315,10 @@ var constantFieldTemplate = `
 {{- define "constantField" -}}
     {{- $field := .Field -}}
     {{- $fieldName := TocamelCase .Field.FieldName -}}
+    {{- if $fieldName -}}
     {{- $constValue := GenerateLiteral $field.FieldConstant -}}
     this.{{ $fieldName }} = {{ $constValue }};
+    {{- end -}}
 {{- end -}}
 `
 
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index b6f2565..c7462ef 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -782,9 +782,11 @@ var constantFieldTemplate = `
 {{- define "constantField" -}}
     {{- $field := .Field -}}
     {{- $fieldName := TocamelCase .Field.FieldName -}}
+    {{- if $fieldName -}}
     {{- $tyStr := GenerateType $field.FieldType -}}
     {{- $constValue := GenerateLiteral $field.FieldConstant -}}
     private final {{ $tyStr }} {{ $fieldName }} = ({{ $tyStr }}){{ $constValue }};
+    {{- end -}}
 {{- end -}}
 `
 
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 582ba98..4fd949c 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -571,9 +571,11 @@ var constantFieldTemplate = `
 {{- define "constantField" -}}
     {{- $field := .Field -}}
     {{- $fieldName := Tosnake_case .Field.FieldName -}}
+    {{- if $fieldName -}}
     {{- $tyStr := GenerateType $field.FieldType -}}
     {{- $constValue := GenerateLiteral $field.FieldConstant -}}
         self._{{ $fieldName }}: {{ $tyStr }} = {{ $constValue }}
+    {{- end -}}
 {{- end -}}
 `
 
-- 
2.43.0


From 31b0f0f5769172e36561bf47cabc7df878a4d0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 15/66] fix: Python shifts the whole of a decoded byte that
 spans two wire bytes

---
 generator/target/python/python.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 4fd949c..bbc8261 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2399,6 +2399,9 @@ func (g PythonGenerator) generateDecodeImpl(from, to int64, fieldProcessor func(
 			consumed += partSize
 		}
 		exprStr := strings.Join(parts, " | ")
+		if len(parts) > 1 {
+			exprStr = "(" + exprStr + ")"
+		}
 		decodeStmt := fieldProcessor(exprStr, fieldFrom/8)
 		decodeStmts = append(decodeStmts, decodeStmt)
 	}
-- 
2.43.0


From 8625a9b98da76a5f9faa67ad97230cefc161e3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 16/66] fix: C and C++ sign extension shifts an unsigned value

---
 generator/target/c/c.go     | 3 ++-
 generator/target/cpp/cpp.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 6de675e..ceb3d1b 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -2599,7 +2599,7 @@ var fieldDecoderTemplate = `
 {{- end -}}
 
 {{- define "signExtendShift" -}}
-    {{ .FieldName }} = ({{ .TyInt }})(({{ .FieldName }}) << {{ .Shift }}) >> {{ .Shift }};
+    {{ .FieldName }} = ({{ .TyInt }})(({{ .TyUint }})({{ .FieldName }}) << {{ .Shift }}) >> {{ .Shift }};
 {{- end -}}
 
 {{- define "signExtendArith" -}}
@@ -3090,6 +3090,7 @@ func (g CGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fieldType
 					"FieldName": fieldNameStr,
 					"Shift":     shift,
 					"TyInt":     tyInt,
+					"TyUint":    tyUint,
 				}
 
 				stmt := util.ExecuteTemplate(fieldDecoderTemplate, "signExtendShift", nil, signExtendData)
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index c327ba9..2dbc02c 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -2845,7 +2845,7 @@ var fieldDecoderTemplate = `
 {{- end -}}
 
 {{- define "signExtendShift" -}}
-    {{ .FieldName }} = ({{ .TyInt }})(({{ .FieldName }}) << {{ .Shift }}) >> {{ .Shift }};
+    {{ .FieldName }} = ({{ .TyInt }})(({{ .TyUint }})({{ .FieldName }}) << {{ .Shift }}) >> {{ .Shift }};
 {{- end -}}
 
 {{- define "signExtendArith" -}}
@@ -3374,6 +3374,7 @@ func (g CppGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fieldTy
 					"FieldName": fieldNameStr,
 					"Shift":     shift,
 					"TyInt":     tyInt,
+					"TyUint":    tyUint,
 				}
 
 				stmt := util.ExecuteTemplate(fieldDecoderTemplate, "signExtendShift", nil, signExtendData)
-- 
2.43.0


From 49cbfb2c60241c450bf3eda41546be58b8ad3b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 17/66] fix: a decoded bool is true or false whatever bits its
 field holds (C, C++, Python)

---
 generator/target/c/c.go           | 15 +++++++++++++++
 generator/target/cpp/cpp.go       | 15 +++++++++++++++
 generator/target/python/python.go | 16 ++++++++++++++++
 3 files changed, 46 insertions(+)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index ceb3d1b..702ea5c 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -2561,6 +2561,10 @@ var fieldDecoderTemplate = `
     (*({{ .TyUint }}*)(&({{ .FieldName }}))) {{ .Operator }} {{ .Expr }};
 {{- end -}}
 
+{{- define "decodeNormalFieldBool" -}}
+    *({{ .TyUint }}*)(&({{ .FieldName }})) = *({{ .TyUint }}*)(&({{ .FieldName }})) != 0;
+{{- end -}}
+
 {{- define "decodeNormalFieldString" -}}
     {
         uint64_t {{ .TempName }} = strlen((const char*)((const {{ .TyUint8 }}*)data + offset + {{ .FromByte }}));
@@ -3077,6 +3081,17 @@ func (g CGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fieldType
 
 		decodeStmts = append(decodeStmts, g.generateDecodeImpl(from, to, fieldProcessor, dataDataFunc)...)
 
+		// any bit set is true
+		if ty.GetTypeID().IsBool() && fieldBitSize > 1 {
+			decodeNormalFieldBoolData := map[string]any{
+				"TyUint":    tyUint,
+				"FieldName": fieldNameStr,
+			}
+
+			stmt := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldBool", nil, decodeNormalFieldBoolData)
+			decodeStmts = append(decodeStmts, stmt)
+		}
+
 		// extend sign bit
 		if ty.GetTypeID().IsInt() && ty.GetTypeBitSize() > fieldBitSize {
 			originFromBitSize := fieldBitSize
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 2dbc02c..d8cf4f8 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -2791,6 +2791,10 @@ var fieldDecoderTemplate = `
     *reinterpret_cast<{{ .TyUint }}*>(&({{ .FieldName }})) {{ .Operator }} {{ .Expr }};
 {{- end -}}
 
+{{- define "decodeNormalFieldBool" -}}
+    *reinterpret_cast<{{ .TyUint }}*>(&({{ .FieldName }})) = *reinterpret_cast<{{ .TyUint }}*>(&({{ .FieldName }})) != 0;
+{{- end -}}
+
 {{- define "decodeNormalFieldString" -}}
         {
 {{- if .CompatibleMode }}
@@ -3361,6 +3365,17 @@ func (g CppGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fieldTy
 
 		decodeStmts = append(decodeStmts, g.generateDecodeImpl(from, to, fieldProcessor, dataDataFunc)...)
 
+		// any bit set is true
+		if ty.GetTypeID().IsBool() && fieldBitSize > 1 {
+			decodeNormalFieldBoolData := map[string]any{
+				"TyUint":    tyUint,
+				"FieldName": fieldNameStr,
+			}
+
+			stmt := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldBool", nil, decodeNormalFieldBoolData)
+			decodeStmts = append(decodeStmts, stmt)
+		}
+
 		// extend sign bit
 		if ty.GetTypeID().IsInt() && ty.GetTypeBitSize() > fieldBitSize {
 			originFromBitSize := fieldBitSize
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index bbc8261..386094b 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2143,6 +2143,10 @@ func (g PythonGenerator) generateDecodeNormalField(field *definition.NormalField
 					bodyStmts = append(bodyStmts, fmt.Sprintf("    %s = ((%s) ^ %s) - %s", tempName, tempName, g.generateHex(signMask), g.generateHex(signMask)))
 				}
 
+				if elemTyType.GetTypeID().IsBool() {
+					bodyStmts = append(bodyStmts, fmt.Sprintf("    %s = %s != 0", tempName, tempName))
+				}
+
 				if elemTyType.GetTypeID().IsFloat() {
 					tyID := typeMapStructPackID[elemTyType.GetTypeID()]
 					tyUintID := typeMapStructPackID[typeSizeMapUint[elemTyType.GetTypeBitSize()]]
@@ -2316,6 +2320,18 @@ func (g PythonGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fiel
 
 		decodeStmts = append(decodeStmts, g.generateDecodeImpl(from, to, fieldProcessor, dataDataFunc)...)
 
+		// any bit set is true
+		if ty.GetTypeID().IsBool() {
+			decodeImplData := map[string]any{
+				"FieldName": fieldNameStr,
+				"Operator":  exprOpToString[definition.ExprOp_ASSIGN],
+				"Expr":      fmt.Sprintf("%s != 0", fieldNameStr),
+			}
+
+			stmt := util.ExecuteTemplate(fieldDecoderTemplate, "decodeImpl", nil, decodeImplData)
+			decodeStmts = append(decodeStmts, stmt)
+		}
+
 		// set sign bit
 		if ty.GetTypeID().IsInt() {
 			originFromBitSize := fieldBitSize
-- 
2.43.0


From 7e6ef9ad342e60ac9ba27420bf54ad3813b6b97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 18/66] fix: custom methods of embedded fields belong to the
 embedding struct

---
 definition/field.go  | 13 +++++++++++++
 definition/method.go |  9 +++++++++
 2 files changed, 22 insertions(+)

diff --git a/definition/field.go b/definition/field.go
index 318653a..57630fa 100644
--- a/definition/field.go
+++ b/definition/field.go
@@ -134,6 +134,19 @@ func (f NormalField) Copy() Field {
 		FieldOptions: f.FieldOptions,
 		FieldBelongs: f.FieldBelongs,
 	}
+	if f.FieldMethods != nil {
+		// the methods of the copy belong to the copy
+		newField.FieldMethods = util.NewOrderedMap[string, *util.OrderedMap[MethodKindID, Method]]()
+		for _, entry := range f.FieldMethods.Entries() {
+			methods := util.NewOrderedMap[MethodKindID, Method]()
+			for _, method := range entry.Value.Values() {
+				newMethod := method.Copy()
+				newMethod.SetMethodBelongs(&newField)
+				methods.Put(newMethod.GetMethodKind(), newMethod)
+			}
+			newField.FieldMethods.Put(entry.Key, methods)
+		}
+	}
 	return &newField
 }
 
diff --git a/definition/method.go b/definition/method.go
index 52dcb65..1e26b0a 100644
--- a/definition/method.go
+++ b/definition/method.go
@@ -39,6 +39,7 @@ type Method interface {
 	GetMethodName() string
 	GetMethodBelongs() *NormalField
 	SetMethodBelongs(*NormalField)
+	Copy() Method
 }
 
 var _ Method = (*GetMethod)(nil)
@@ -68,6 +69,10 @@ func (m *GetMethod) SetMethodBelongs(belongs *NormalField) {
 	m.MethodBelongs = belongs
 }
 
+func (m GetMethod) Copy() Method {
+	return &m
+}
+
 type SetMethod struct {
 	BasePosition
 
@@ -93,6 +98,10 @@ func (m *SetMethod) SetMethodBelongs(belongs *NormalField) {
 	m.MethodBelongs = belongs
 }
 
+func (m SetMethod) Copy() Method {
+	return &m
+}
+
 // type Method struct {
 //     BasePosition
 
-- 
2.43.0


From 684da0242dfc8c2adde592c0235374ac3a18459f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 19/66] fix: JavaScript decodes full-width uint32 fields as
 unsigned

---
 generator/target/commonjs/commonjs.go | 13 +++++++++++++
 generator/target/esm/esm_decode.go    | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 7a0fb9f..c1b792e 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3017,6 +3017,10 @@ var fieldDecoderTemplate = `
     {{ .FieldName }} = ({{ .FieldName }} >>> {{ .SignShift }}) ? -(~{{ .FieldName }} + 1) : {{ .FieldName }};
 {{- end -}}
 
+{{- define "unsignedConvert" -}}
+    {{ .FieldName }} = {{ .FieldName }} >>> 0;
+{{- end -}}
+
 {{- /* Decoder array bit-loops. CommonJS value-expression conversions all
        fit on a single line, so one decodeArrayLoopBasic with an .Expr slot
        covers everything. */ -}}
@@ -3524,6 +3528,15 @@ func (g CommonJSGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			decodeStmts = append(decodeStmts, stmt)
 		}
 
+		// bitwise operators yield signed 32-bit integers, convert back to unsigned
+		if ty.GetTypeID() == definition.TypeID_Uint32 && fieldBitSize == 32 {
+			unsignedConvertData := map[string]any{
+				"FieldName": fieldNameStr,
+			}
+			stmt := util.ExecuteTemplate(fieldDecoderTemplate, "unsignedConvert", nil, unsignedConvertData)
+			decodeStmts = append(decodeStmts, stmt)
+		}
+
 		// set sign bit
 		if ty.GetTypeID().IsInt() {
 			originFromBitSize := fieldBitSize
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 92cc4e3..295a7ab 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -409,6 +409,10 @@ var fieldDecoderTemplate = `
     {{ .FieldName }} = ({{ .FieldName }} >>> {{ .SignShift }}) ? -(~{{ .FieldName }} + 1) : {{ .FieldName }};
 {{- end -}}
 
+{{- define "unsignedConvert" -}}
+    {{ .FieldName }} = {{ .FieldName }} >>> 0;
+{{- end -}}
+
 {{- /* Decoder array bit-loops. ESM value-expression conversions all fit on
        a single line, so one decodeArrayLoopBasic with an .Expr slot covers
        everything. */ -}}
@@ -776,6 +780,15 @@ func (g ESModuleGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			decodeStmts = append(decodeStmts, stmt)
 		}
 
+		// bitwise operators yield signed 32-bit integers, convert back to unsigned
+		if ty.GetTypeID() == definition.TypeID_Uint32 && fieldBitSize == 32 {
+			unsignedConvertData := map[string]any{
+				"FieldName": fieldNameStr,
+			}
+			stmt := util.ExecuteTemplate(fieldDecoderTemplate, "unsignedConvert", nil, unsignedConvertData)
+			decodeStmts = append(decodeStmts, stmt)
+		}
+
 		if ty.GetTypeID().IsInt() {
 			originFromBitSize := fieldBitSize
 			switch g.GenCtx.GenOptions.SignExtMethod {
-- 
2.43.0


From 8d6a542732d77bea777fa904e44c8feccb6d05bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 20/66] fix: C# temporaries of dynamic and fixed fields at the
 same position do not clash

---
 generator/target/csharp/csharp.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 7c2d6fe..b2a4c32 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -1893,7 +1893,7 @@ func (g CSharpGenerator) generateEncodeNormalFieldImpl(fieldNameStr string, fiel
 			"TyBytes":    "byte[]",
 			"FieldName":  fieldNameStr,
 			"FromByte":   from / 8,
-			"TempName":   g.generateEncodeTempVarName(from),
+			"TempName":   g.generateEncodeTempVarName(from) + "Dynamic",
 			"GenOptions": g.GenCtx.GenOptions,
 		}
 
@@ -1908,7 +1908,7 @@ func (g CSharpGenerator) generateEncodeNormalFieldImpl(fieldNameStr string, fiel
 			"GetMask":    g.generateHex((1 << 7) - 1),
 			"SetMask":    g.generateHex(1 << 7),
 			"Shift":      7,
-			"TempName":   g.generateEncodeTempVarName(from),
+			"TempName":   g.generateEncodeTempVarName(from) + "Dynamic",
 			"GenOptions": g.GenCtx.GenOptions,
 		}
 
@@ -3155,7 +3155,7 @@ func (g CSharpGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fiel
 			"FieldName":   fieldNameStr,
 			"FromByte":    from / 8,
 			"Dynamic":     structDynamic,
-			"TempName":    g.generateDecodeTempVarName(from),
+			"TempName":    g.generateDecodeTempVarName(from) + "Dynamic",
 			"GenOptions":  g.GenCtx.GenOptions,
 		}
 
@@ -3170,7 +3170,7 @@ func (g CSharpGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fiel
 			"TyInt":      typeMap[definition.TypeID_Int32],
 			"FieldName":  fieldNameStr,
 			"FromByte":   from / 8,
-			"TempName":   g.generateDecodeTempVarName(from),
+			"TempName":   g.generateDecodeTempVarName(from) + "Dynamic",
 			"GenOptions": g.GenCtx.GenOptions,
 		}
 
@@ -3186,7 +3186,7 @@ func (g CSharpGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fiel
 			"GetMask":    g.generateHex((1 << 7) - 1),
 			"SetMask":    g.generateHex(1 << 7),
 			"Shift":      g.generateDec(7),
-			"TempName":   g.generateDecodeTempVarName(from),
+			"TempName":   g.generateDecodeTempVarName(from) + "Dynamic",
 			"GenOptions": g.GenCtx.GenOptions,
 		}
 
-- 
2.43.0


From 17904651dfce9f77b5b4caddbd06f96293116d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 21/66] fix: C# decodes narrow floats through a variable as
 wide as the float

---
 generator/target/csharp/csharp.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index b2a4c32..260bd94 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2809,12 +2809,9 @@ func (g CSharpGenerator) generateDecodeNormalField(field *definition.NormalField
 			assignStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignBoolCast", nil, decodeNormalFieldTempVarAssignBoolCastData)
 			decodeStmts = append(decodeStmts, assignStr)
 		} else if ty.GetTypeID().IsFloat() {
-			// same as enum
-			fieldBitSize := field.GetFieldBitSize()
-			fieldSize := (fieldBitSize + 7) / 8
-			tySize := util.HighBit(fieldSize)
-			tyUint := typeSizeToUintStr(tySize * 8)
-			tyUintID := typeSizeMapUint[tySize*8]
+			// same as enum, but the temp variable holds all the bits of the float
+			tyUint := typeSizeToUintStr(ty.GetTypeBitSize())
+			tyUintID := typeSizeMapUint[ty.GetTypeBitSize()]
 			tempTy := definition.GetBasicType(tyUintID)
 			tempName := g.generateDecodeTempVarName(startBits)
 
-- 
2.43.0


From 8919f29cccd07216e2b46c5b8472ff1ced7746e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 22/66] fix: C# arithmetic sign extension compiles for 64-bit
 integers

---
 generator/target/csharp/csharp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 260bd94..b4fba7c 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2680,7 +2680,7 @@ var fieldDecoderTemplate = `
 {{- end -}}
 
 {{- define "signExtendArith" -}}
-    {{ .FieldName }} = ({{ .FieldType }})((({{ .FieldName }}) ^ {{ .SignMask }}) - {{ .SignMask }});
+    {{ .FieldName }} = unchecked(({{ .FieldType }})((({{ .FieldName }}) ^ ({{ .FieldType }}){{ .SignMask }}) - ({{ .FieldType }}){{ .SignMask }}));
 {{- end -}}
 
 {{- /* Decoder array bit-loops. C# value-expression conversions all fit on
@@ -2707,7 +2707,7 @@ for (int _i = 0; _i < {{ .Length }}; _i++) {
 {{- end -}}
 
 {{- define "intSignExtArith" -}}
-({{ .IntType }})((long)(_v ^ {{ .SignMask }}UL) - (long){{ .SignMask }}UL)
+unchecked(({{ .IntType }})((long)(_v ^ {{ .SignMask }}UL) - (long){{ .SignMask }}UL))
 {{- end -}}
 `
 
-- 
2.43.0


From 1063391bd42858ba0e8dd9ea4109389539d68d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 23/66] fix: malformed length prefixes of bytes are refused
 instead of overflowing (C, C++, Java, C#, Kotlin)

---
 generator/target/c/c.go                  | 10 ++++++--
 generator/target/cpp/cpp.go              | 14 +++++++----
 generator/target/csharp/csharp.go        | 30 +++++++++++++++++-------
 generator/target/java/java.go            | 18 +++++++++-----
 generator/target/kotlin/kotlin_decode.go |  5 ++--
 5 files changed, 54 insertions(+), 23 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 702ea5c..e9d5e15 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -2337,11 +2337,13 @@ int64_t {{ $structName }}_decode(const void* data, struct {{ $structName }}* ptr
         uint64_t len = 0;
         uint8_t shift = 0;
         while (((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x80) {
+            if (shift > 49) return -1;
             len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             shift += 7;
             offset++;
             if (size <= offset + {{ $fromByte }}) return -(int64_t)(offset + {{ $fromByte }} + 1);
         }
+        if (shift > 49) return -1;
         len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
         offset++;
         if (size < offset + {{ $fromByte }} + len) return -(int64_t)(offset + {{ $fromByte }} + len);
@@ -2354,11 +2356,13 @@ int64_t {{ $structName }}_decode(const void* data, struct {{ $structName }}* ptr
         uint64_t len = 0;
         uint8_t shift = 0;
         while (((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x80) {
+            if (shift > 49) return -1;
             len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             shift += 7;
             offset++;
             if (size <= offset + {{ $fromByte }}) return -(int64_t)(offset + {{ $fromByte }} + 1);
         }
+        if (shift > 49) return -1;
         len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
         offset++;
         if (size < offset + {{ $fromByte }} + len) return -(int64_t)(offset + {{ $fromByte }} + len);
@@ -2403,11 +2407,13 @@ int64_t {{ $structName }}_decode(const void* data, struct {{ $structName }}* ptr
         uint64_t len = 0;
         uint8_t shift = 0;
         while (((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x80) {
+            if (shift > 49) return -1;
             len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             shift += 7;
             offset++;
             if (size <= offset + {{ $fromByte }}) return -(int64_t)(offset + {{ $fromByte }} + 1);
         }
+        if (shift > 49) return -1;
         len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
         offset++;
         if (size < offset + {{ $fromByte }} + len) return -(int64_t)(offset + {{ $fromByte }} + len);
@@ -2585,8 +2591,8 @@ var fieldDecoderTemplate = `
     {
         uint64_t {{ .TempName }} = 0;
         {{ .TyUint8 }} shift = 0;
-        while (((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= (((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
-        {{ .TempName }} |= (((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
+        while (((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= (uint64_t)(((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
+        {{ .TempName }} |= (uint64_t)(((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
         {{ .FieldName }}.length = {{ .TempName }};
         {{ if .MemoryCopy -}}
         {{ .FieldName }}.data = ({{ .TyUint8 }}*)malloc({{ .TempName }});
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index d8cf4f8..1428dfe 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -2514,11 +2514,13 @@ var decoderTemplate = `
             uint64_t len = 0;
             uint8_t shift = 0;
             while (static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x80) {
+                if (shift > 49) return -1;
                 len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
                 shift += 7;
                 offset++;
                 if (size <= offset + {{ $fromByte }}) return -static_cast<int64_t>(offset + {{ $fromByte }} + 1);
             }
+            if (shift > 49) return -1;
             len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             offset++;
             if (size < offset + {{ $fromByte }} + len) return -static_cast<int64_t>(offset + {{ $fromByte }} + len);
@@ -2531,11 +2533,13 @@ var decoderTemplate = `
             uint64_t len = 0;
             uint8_t shift = 0;
             while (static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x80) {
+                if (shift > 49) return -1;
                 len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
                 shift += 7;
                 offset++;
                 if (size <= offset + {{ $fromByte }}) return -static_cast<int64_t>(offset + {{ $fromByte }} + 1);
             }
+            if (shift > 49) return -1;
             len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             offset++;
             if (size < offset + {{ $fromByte }} + len) return -static_cast<int64_t>(offset + {{ $fromByte }} + len);
@@ -2589,11 +2593,13 @@ var decoderTemplate = `
             uint64_t len = 0;
             uint8_t shift = 0;
             while (static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x80) {
+                if (shift > 49) return -1;
                 len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
                 shift += 7;
                 offset++;
                 if (size <= offset + {{ $fromByte }}) return -static_cast<int64_t>(offset + {{ $fromByte }} + 1);
             }
+            if (shift > 49) return -1;
             len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             offset++;
             if (size < offset + {{ $fromByte }} + len) return -static_cast<int64_t>(offset + {{ $fromByte }} + len);
@@ -2815,11 +2821,11 @@ var fieldDecoderTemplate = `
             uint64_t {{ .TempName }} = 0;
             {{ .TyUint8 }} shift = 0;
         {{- if .CompatibleMode }}
-            while (static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= (static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
-            {{ .TempName }} |= (static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
+            while (static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= static_cast<uint64_t>(static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
+            {{ .TempName }} |= static_cast<uint64_t>(static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
         {{- else }}
-            while (data[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= (data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
-            {{ .TempName }} |= (data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
+            while (data[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= static_cast<uint64_t>(data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
+            {{ .TempName }} |= static_cast<uint64_t>(data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
         {{- end }}
             {{ .FieldName }}.length = {{ .TempName }};
     {{- if .MemoryCopy }}
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index b4fba7c..9c9839a 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -2261,27 +2261,31 @@ var decoderTemplate = `
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift >= 28) return -1;
                     _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift >= 28 && data[offset + start + {{ $fromByte }}] > 0x07) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
-                if (data.Length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
+                if (data.Length - start - (offset + {{ $fromByte }}) < _length) return (int)Math.Max(-((long)offset + {{ $fromByte }} + _length), -int.MaxValue);
                 {{- else }}
                 if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift >= 28) return -1;
                     _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift >= 28 && data[offset + {{ $fromByte }}] > 0x07) return -1;
                 _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
-                if (data.Length < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
+                if (data.Length - (offset + {{ $fromByte }}) < _length) return (int)Math.Max(-((long)offset + {{ $fromByte }} + _length), -int.MaxValue);
                 {{- end }}
                 offset += _length;
             }
@@ -2293,27 +2297,31 @@ var decoderTemplate = `
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift >= 28) return -1;
                     _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift >= 28 && data[offset + start + {{ $fromByte }}] > 0x07) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
-                if (data.Length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
+                if (data.Length - start - (offset + {{ $fromByte }}) < _length) return (int)Math.Max(-((long)offset + {{ $fromByte }} + _length), -int.MaxValue);
                 {{- else }}
                 if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift >= 28) return -1;
                     _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift >= 28 && data[offset + {{ $fromByte }}] > 0x07) return -1;
                 _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
-                if (data.Length < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
+                if (data.Length - (offset + {{ $fromByte }}) < _length) return (int)Math.Max(-((long)offset + {{ $fromByte }} + _length), -int.MaxValue);
                 {{- end }}
                 offset += _length;
             }
@@ -2329,7 +2337,7 @@ var decoderTemplate = `
                 {{- else }}
                 int _subSize = this.{{ TocamelCase $f.FieldName }}[_i].DecodeSize(memoryData.Slice(Math.Min(offset + {{ $fromByte }}, memoryData.Length)));
                 {{- end }}
-                if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
+                if (_subSize < 0) return (int)Math.Max(-((long)offset + {{ $fromByte }}) + _subSize, -int.MaxValue);
                 offset += _subSize;
             }
             {{- else }}
@@ -2340,7 +2348,7 @@ var decoderTemplate = `
                 {{- else }}
                 int _subSize = this.{{ TocamelCase $f.FieldName }}[{{ $i }}].DecodeSize(memoryData.Slice(Math.Min(offset + {{ $fromByte }}, memoryData.Length)));
                 {{- end }}
-                if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
+                if (_subSize < 0) return (int)Math.Max(-((long)offset + {{ $fromByte }}) + _subSize, -int.MaxValue);
                 offset += _subSize;
             }
             {{- end -}}
@@ -2373,27 +2381,31 @@ var decoderTemplate = `
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift >= 28) return -1;
                     _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift >= 28 && data[offset + start + {{ $fromByte }}] > 0x07) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
-                if (data.Length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
+                if (data.Length - start - (offset + {{ $fromByte }}) < _length) return (int)Math.Max(-((long)offset + {{ $fromByte }} + _length), -int.MaxValue);
                 {{- else }}
                 if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 int _length = 0;
                 byte _shift = 0;
                 while ((data[offset + {{ $fromByte }}] & 0x80) != 0) {
+                    if (_shift >= 28) return -1;
                     _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                     _shift += 7;
                     offset++;
                     if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 }
+                if (_shift >= 28 && data[offset + {{ $fromByte }}] > 0x07) return -1;
                 _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
-                if (data.Length < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
+                if (data.Length - (offset + {{ $fromByte }}) < _length) return (int)Math.Max(-((long)offset + {{ $fromByte }} + _length), -int.MaxValue);
                 {{- end }}
                 offset += _length;
             }
@@ -2405,7 +2417,7 @@ var decoderTemplate = `
                 {{- else }}
                 int _subSize = this.{{ TocamelCase $f.FieldName }}.DecodeSize(memoryData.Slice(Math.Min(offset + {{ $fromByte }}, memoryData.Length)));
                 {{- end }}
-                if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
+                if (_subSize < 0) return (int)Math.Max(-((long)offset + {{ $fromByte }}) + _subSize, -int.MaxValue);
                 offset += _subSize;
             }
     {{- end -}}
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index c7462ef..e7708dc 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -2162,14 +2162,16 @@ var decoderTemplate = `
             int _length = 0;
             short _shift = 0;
             while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                if (_shift >= 28) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 _shift += 7;
                 offset++;
                 if (data.length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
             }
+            if (_shift >= 28 && data[offset + start + {{ $fromByte }}] > 0x07) return -1;
             _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
             offset++;
-            if (data.length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
+            if (data.length - start - (offset + {{ $fromByte }}) < _length) return (int)Math.max(-((long)offset + {{ $fromByte }} + _length), -Integer.MAX_VALUE);
             offset += _length;
         }
         {{- else }}
@@ -2179,14 +2181,16 @@ var decoderTemplate = `
             int _length = 0;
             short _shift = 0;
             while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                if (_shift >= 28) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 _shift += 7;
                 offset++;
                 if (data.length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
             }
+            if (_shift >= 28 && data[offset + start + {{ $fromByte }}] > 0x07) return -1;
             _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
             offset++;
-            if (data.length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
+            if (data.length - start - (offset + {{ $fromByte }}) < _length) return (int)Math.max(-((long)offset + {{ $fromByte }} + _length), -Integer.MAX_VALUE);
             offset += _length;
         }
         {{- end -}}
@@ -2196,14 +2200,14 @@ var decoderTemplate = `
             {{- if $shouldUseLoop }}
         for (int _i = 0; _i < {{ $f.FieldType.Length }}; _i++) {
             int _subSize = this.{{ TocamelCase $f.FieldName }}[_i].decodeSize(data, offset + start + {{ $fromByte }});
-            if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
+            if (_subSize < 0) return (int)Math.max(-((long)offset + {{ $fromByte }}) + _subSize, -Integer.MAX_VALUE);
             offset += _subSize;
         }
             {{- else }}
             {{- range $i := iterate 0 $f.FieldType.Length }}
         {   // {{ $f }}: [{{ $i }}]
             int _subSize = this.{{ TocamelCase $f.FieldName }}[{{ $i }}].decodeSize(data, offset + start + {{ $fromByte }});
-            if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
+            if (_subSize < 0) return (int)Math.max(-((long)offset + {{ $fromByte }}) + _subSize, -Integer.MAX_VALUE);
             offset += _subSize;
         }
             {{- end }}
@@ -2226,21 +2230,23 @@ var decoderTemplate = `
             int _length = 0;
             short _shift = 0;
             while ((data[offset + start + {{ $fromByte }}] & 0x80) != 0) {
+                if (_shift >= 28) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 _shift += 7;
                 offset++;
                 if (data.length - start <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
             }
+            if (_shift >= 28 && data[offset + start + {{ $fromByte }}] > 0x07) return -1;
             _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
             offset++;
-            if (data.length - start < offset + {{ $fromByte }} + _length) return -(offset + {{ $fromByte }} + _length);
+            if (data.length - start - (offset + {{ $fromByte }}) < _length) return (int)Math.max(-((long)offset + {{ $fromByte }} + _length), -Integer.MAX_VALUE);
             offset += _length;
         }
 {{- else if $f.FieldType.GetTypeID.IsStruct -}}
     {{- if $f.FieldType.GetTypeDynamic }}
         {   // {{ $f }}
             int _subSize = this.{{ TocamelCase $f.FieldName }}.decodeSize(data, offset + start + {{ $fromByte }});
-            if (_subSize < 0) return -(offset + {{ $fromByte }}) + _subSize;
+            if (_subSize < 0) return (int)Math.max(-((long)offset + {{ $fromByte }}) + _subSize, -Integer.MAX_VALUE);
             offset += _subSize;
         }
     {{- end -}}
diff --git a/generator/target/kotlin/kotlin_decode.go b/generator/target/kotlin/kotlin_decode.go
index cbfdfe9..eed2206 100644
--- a/generator/target/kotlin/kotlin_decode.go
+++ b/generator/target/kotlin/kotlin_decode.go
@@ -89,20 +89,21 @@ func (g *KotlinGenerator) emitDecodeSizeValue(b *strings.Builder, ty definition.
 		fmt.Fprintf(b, "%s    while (true) {\n", indent)
 		fmt.Fprintf(b, "%s        if (data.size <= %s) return -(%s + 1 - start)\n", indent, pos, pos)
 		fmt.Fprintf(b, "%s        val part = data[%s].toInt() and 0xFF\n", indent, pos)
+		fmt.Fprintf(b, "%s        if (shift == 28 && part > 0x07) return -1\n", indent)
 		fmt.Fprintf(b, "%s        length = length or ((part and 0x7F) shl shift)\n", indent)
 		fmt.Fprintf(b, "%s        offset++\n", indent)
 		fmt.Fprintf(b, "%s        if ((part and 0x80) == 0) break\n", indent)
 		fmt.Fprintf(b, "%s        shift += 7\n", indent)
 		fmt.Fprintf(b, "%s        if (shift > 28) return -1\n", indent)
 		fmt.Fprintf(b, "%s    }\n", indent)
-		fmt.Fprintf(b, "%s    if (data.size - start < offset + %d + length) return -(offset + %d + length)\n", indent, fromByte, fromByte)
+		fmt.Fprintf(b, "%s    if (data.size - start - (offset + %d) < length) return maxOf(-(offset.toLong() + %d + length), -Int.MAX_VALUE.toLong()).toInt()\n", indent, fromByte, fromByte)
 		fmt.Fprintf(b, "%s    offset += length\n", indent)
 		fmt.Fprintf(b, "%s}\n", indent)
 	case *definition.Struct:
 		if t.StructDynamic {
 			fmt.Fprintf(b, "%srun {\n", indent)
 			fmt.Fprintf(b, "%s    val subSize = %s.decodeSize(data, %s)\n", indent, expr, pos)
-			fmt.Fprintf(b, "%s    if (subSize < 0) return -(offset + %d) + subSize\n", indent, fromByte)
+			fmt.Fprintf(b, "%s    if (subSize < 0) return maxOf(-(offset.toLong() + %d) + subSize, -Int.MAX_VALUE.toLong()).toInt()\n", indent, fromByte)
 			fmt.Fprintf(b, "%s    offset += subSize\n", indent)
 			fmt.Fprintf(b, "%s}\n", indent)
 		}
-- 
2.43.0


From 3681cbd25781782b9bbc6ba58007bbc536d710a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 24/66] fix: ESModule emits the float helpers its files call

---
 generator/target/esm/esm.go        | 10 ++++++++++
 generator/target/esm/esm_decode.go |  2 ++
 generator/target/esm/esm_encode.go |  2 ++
 3 files changed, 14 insertions(+)

diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 40b0c28..51b3aae 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -1021,6 +1021,16 @@ var typeMap = map[definition.TypeID]string{
 	definition.TypeID_Bytes:   "Array",
 }
 
+// useFloat records that the generated file calls the float helpers.
+func (g ESModuleGenerator) useFloat(typeID definition.TypeID) {
+	switch typeID {
+	case definition.TypeID_Float32:
+		g.GenState.UseFloat32 = true
+	case definition.TypeID_Float64:
+		g.GenState.UseFloat64 = true
+	}
+}
+
 func (g ESModuleGenerator) GenerateBasicType(type_ *definition.BasicType) (string, error) {
 	switch type_.TypeTypeID {
 	case definition.TypeID_Float32:
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 295a7ab..99b741c 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -501,6 +501,7 @@ func (g ESModuleGenerator) generateDecodeNormalField(field *definition.NormalFie
 				return nil, err
 			}
 			decodeStmts = append(decodeStmts, stmts...)
+			g.useFloat(ty.GetTypeID())
 			decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignFloatCast", nil, map[string]any{
 				"FieldName": g.generateDecodeStructFieldName(field.FieldName), "TempName": tempName, "IsFloat32": ty.GetTypeID() == definition.TypeID_Float32,
 			}))
@@ -669,6 +670,7 @@ func (g ESModuleGenerator) generateDecodeNormalField(field *definition.NormalFie
 				switch elemTy2 := ty.ElementType.(type) {
 				case *definition.BasicType:
 					if elemTy2.GetTypeID().IsFloat() {
+						g.useFloat(elemTy2.GetTypeID())
 						decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignFloatCast", nil, map[string]any{
 							"TempName": subName, "FieldName": fmt.Sprintf("%s[%d]", name, i), "IsFloat32": elemTy2.GetTypeID() == definition.TypeID_Float32,
 						}))
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index fa5f70a..0a4ad81 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -366,6 +366,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 		name := g.generateEncodeStructFieldName(field.FieldName)
 		if ty.GetTypeID().IsFloat() {
 			tempName := g.generateEncodeTempVarName(startBits)
+			g.useFloat(ty.GetTypeID())
 			stmt := util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarDeclFloatCast", nil, map[string]any{
 				"TempName": tempName, "FieldName": name, "IsFloat32": ty.GetTypeID() == definition.TypeID_Float32,
 			})
@@ -543,6 +544,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 				switch ty.ElementType.(type) {
 				case *definition.BasicType:
 					if ty.ElementType.GetTypeID().IsFloat() {
+						g.useFloat(ty.ElementType.GetTypeID())
 						encodeStmts = append(encodeStmts, util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarAssignFloatCast", nil, map[string]any{
 							"TempName": subName, "FieldName": fmt.Sprintf("%s[%d]", name, i), "IsFloat32": ty.ElementType.GetTypeID() == definition.TypeID_Float32,
 						}))
-- 
2.43.0


From 4dcf56be3dd1da97d7ac99c9fe6b2c1ab26ea36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 25/66] fix: Java decodes narrow floats through a variable as
 wide as the float

---
 generator/target/java/java.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index e7708dc..60193e4 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -2561,12 +2561,9 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 			assignStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignBoolCast", nil, decodeNormalFieldTempVarAssignBoolCastData)
 			decodeStmts = append(decodeStmts, assignStr)
 		} else if ty.GetTypeID().IsFloat() {
-			// same as enum
-			fieldBitSize := field.GetFieldBitSize()
-			fieldSize := (fieldBitSize + 7) / 8
-			tySize := util.HighBit(fieldSize)
-			tyUint := typeSizeToUintStr(tySize * 8)
-			tyUintID := typeSizeMapUint[tySize*8]
+			// same as enum, but the temp variable holds all the bits of the float
+			tyUint := typeSizeToUintStr(ty.GetTypeBitSize())
+			tyUintID := typeSizeMapUint[ty.GetTypeBitSize()]
 			tempTy := definition.GetBasicType(tyUintID)
 			tempName := g.generateDecodeTempVarName(startBits)
 
-- 
2.43.0


From 2f3d96822b3bb4ecd8cedcbc977d5ab16bd8a452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 26/66] fix: JavaScript decodes 32-bit wide int64 fields

---
 generator/target/commonjs/commonjs.go | 2 +-
 generator/target/esm/esm_decode.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index c1b792e..f544597 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3544,7 +3544,7 @@ func (g CommonJSGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			switch g.GenCtx.GenOptions.SignExtMethod {
 			case gen.SignExtMethodDefault, gen.SignExtMethodShift, gen.SignExtMethodArith:
 				// special case: sign extension for 32-bit integer
-				if originFromBitSize == 32 {
+				if originFromBitSize == 32 && ty.GetTypeBitSize() == 32 {
 					signShift := originFromBitSize - 1
 					signShiftStr := generateDec(signShift)
 					signExtendData := map[string]any{
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 99b741c..e5fc29a 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -795,7 +795,7 @@ func (g ESModuleGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			originFromBitSize := fieldBitSize
 			switch g.GenCtx.GenOptions.SignExtMethod {
 			case gen.SignExtMethodDefault, gen.SignExtMethodShift, gen.SignExtMethodArith:
-				if originFromBitSize == 32 {
+				if originFromBitSize == 32 && ty.GetTypeBitSize() == 32 {
 					stmt := util.ExecuteTemplate(fieldDecoderTemplate, "signExtendLogic", nil, map[string]any{
 						"FieldName": fieldNameStr, "SignShift": generateDec(originFromBitSize - 1),
 					})
-- 
2.43.0


From 0ce5095f9a8c6f19a04c136cacb1eb1188203db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 27/66] fix: Java arithmetic sign extension in array loops
 writes one long suffix

---
 generator/target/java/java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 60193e4..5b28efe 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -2460,7 +2460,7 @@ for (int _i = 0; _i < {{ .Length }}; _i++) {
 {{- end -}}
 
 {{- define "intSignExtArith" -}}
-({{ .IntType }})((_v ^ {{ .SignMask }}L) - {{ .SignMask }}L)
+({{ .IntType }})((_v ^ {{ .SignMask }}) - {{ .SignMask }})
 {{- end -}}
 `
 
-- 
2.43.0


From febcdc4c56a3151c0b64b135723dd13c958f629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 28/66] fix: Python always copies decoded bytes fields, as
 documented

---
 generator/target/python/python.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 386094b..e1c5c1b 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -90,6 +90,16 @@ func (g *PythonGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings e
 		}
 		g.Warning = definition.TopLevelWarningsJoin(g.Warning, warn)
 	}
+	if !ctx.GenOptions.MemoryCopy {
+		warn := &definition.GenerateWarning{
+			Warning: &definition.OptionNotSetWarning{
+				OptionName: "memcpy",
+				Reason:     "Python target always copies decoded fields, this option will be forced to be enabled",
+			},
+		}
+		g.Warning = definition.TopLevelWarningsJoin(g.Warning, warn)
+		ctx.GenOptions.MemoryCopy = true
+	}
 	var topErr definition.TopLevelError
 	genErr := g.AcceptGenCtx(ctx)
 	if genErr != nil {
-- 
2.43.0


From 115062f252c96128dae2bce461616de3b148e348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 29/66] fix: C and C++ do not pass a null pointer to memcpy for
 empty bytes

---
 generator/target/c/c.go     | 2 +-
 generator/target/cpp/cpp.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index e9d5e15..2cc9244 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -1683,7 +1683,7 @@ var fieldEncoderTemplate = `
         uint64_t {{ .TempName }} = {{ $fieldLengthName }};
         do (({{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] = (({{ .TempName }} & {{ .GetMask }}) | {{ .SetMask }}), {{ .TempName }} >>= {{ .Shift }}, offset++; while ({{ .TempName }});
         (({{ .TyUint8 }}*)data)[offset - 1 + {{ .FromByte }}] &= ~{{ .SetMask }};
-        memcpy(({{ .TyUint8 }}*)data + offset + {{ .FromByte }}, {{ $fieldDataName }}, {{ $fieldLengthName }});
+        if ({{ $fieldLengthName }}) memcpy(({{ .TyUint8 }}*)data + offset + {{ .FromByte }}, {{ $fieldDataName }}, {{ $fieldLengthName }});
         offset += {{ $fieldLengthName }};
     }
 {{- end -}}
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 1428dfe..120c5ac 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1818,7 +1818,7 @@ var fieldEncoderTemplate = `
             uint64_t {{ .TempName }} = {{ $fieldLengthName }};
             do static_cast<{{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] = (({{ .TempName }} & {{ .GetMask }}) | {{ .SetMask }}), {{ .TempName }} >>= {{ .Shift }}, offset++; while ({{ .TempName }});
             static_cast<{{ .TyUint8 }}*>(data)[offset - 1 + {{ .FromByte }}] &= ~{{ .SetMask }};
-            memcpy(static_cast<{{ .TyUint8 }}*>(data) + offset + {{ .FromByte }}, {{ $fieldDataName }}.get(), {{ $fieldLengthName }});
+            if ({{ $fieldLengthName }}) memcpy(static_cast<{{ .TyUint8 }}*>(data) + offset + {{ .FromByte }}, {{ $fieldDataName }}.get(), {{ $fieldLengthName }});
             offset += {{ $fieldLengthName }};
         }
 {{- end -}}
-- 
2.43.0


From 5b82bdc4f485a75cc44908fe6707989748c3760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 30/66] fix: negative enumeration values are rejected, as
 documented

---
 compiler/proto_visitor.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index fe000a6..a16b4cc 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -2372,6 +2372,20 @@ func (v *ProtoVisitor) VisitEnumValue(ctx *parser.EnumValueContext) any {
 			switch val := val.(type) {
 			case *definition.IntLiteral:
 				value = val.IntValue
+				// enum values cannot be negative, -1 stands for "not given"
+				if value < 0 {
+					return &definition.CompileError{
+						Position: definition.BasePosition{
+							File:   v.Unit.UnitName.Path,
+							Line:   ctx.Constant().GetStart().GetLine(),
+							Column: ctx.Constant().GetStart().GetColumn(),
+						},
+						Err: &definition.InvalidEnumDefError{
+							DefName: name,
+							Err:     fmt.Errorf("enum value cannot be negative, got %d", value),
+						},
+					}
+				}
 			default:
 				return &definition.CompileError{
 					Position: definition.BasePosition{
-- 
2.43.0


From 2b989f6925b3201012af39adb7b1504cc248c147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 31/66] fix: enumeration values that do not fit the declared
 width are rejected

---
 compiler/proto_visitor.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index a16b4cc..0d2e3c7 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -2248,6 +2248,17 @@ func (v *ProtoVisitor) VisitEnumDef(ctx *parser.EnumDefContext) any {
 
 	var errs definition.TopLevelError
 	for _, val := range values.Values() {
+		// the value has to be representable in the declared width
+		if val.EnumValue < 0 || (size < 63 && val.EnumValue>>size != 0) {
+			ex := &definition.CompileError{
+				Position: val,
+				Err: &definition.InvalidEnumDefError{
+					DefName: name,
+					Err:     fmt.Errorf("value %d of '%s' does not fit in %d bits", val.EnumValue, val.EnumValueName, size),
+				},
+			}
+			errs = definition.TopLevelErrorsJoin(errs, ex)
+		}
 		dupErr := v.Unit.AddLocalName(val.EnumValueName, val)
 		if dupErr != nil {
 			ex := &definition.CompileError{
-- 
2.43.0


From 3eee564deb46495c3a1d0d88ec1b2399541b2c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:46 +0000
Subject: [PATCH 32/66] fix: Kotlin writes the structs that are defined inside
 of a field

---
 generator/target/kotlin/kotlin.go | 36 ++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index a30193d..de418eb 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -70,6 +70,40 @@ func kotlinPackage(unit *definition.CompilationUnit) string {
 	return unit.Package.String()
 }
 
+// unitTypes returns the types of the unit, each preceded by the structs defined
+// inside of it as the type of a field.
+func unitTypes(unit *definition.CompilationUnit) []definition.CustomType {
+	var types []definition.CustomType
+	seen := map[string]bool{}
+	var add func(ty definition.CustomType)
+	add = func(ty definition.CustomType) {
+		if seen[ty.GetTypeName()] || ty.GetBelongs() != unit {
+			return
+		}
+		seen[ty.GetTypeName()] = true
+		if s, ok := ty.(*definition.Struct); ok {
+			for _, field := range s.StructFields.Values() {
+				normal, ok := field.(*definition.NormalField)
+				if !ok {
+					continue
+				}
+				fieldType := normal.FieldType
+				if array, ok := fieldType.(*definition.Array); ok {
+					fieldType = array.ElementType
+				}
+				if inner, ok := fieldType.(*definition.Struct); ok {
+					add(inner)
+				}
+			}
+		}
+		types = append(types, ty)
+	}
+	for _, ty := range unit.LocalTypes.Values() {
+		add(ty)
+	}
+	return types
+}
+
 func (g *KotlinGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 	if unit.LocalTypes.Len() == 0 && gen.MatchOption(unit.Options, "omit_empty", true) {
 		return nil
@@ -84,7 +118,7 @@ func (g *KotlinGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 			seen[p] = true
 		}
 	}
-	for _, ty := range unit.LocalTypes.Values() {
+	for _, ty := range unitTypes(unit) {
 		var body string
 		var err error
 		switch t := ty.(type) {
-- 
2.43.0


From 1249c5eb378a997507cebaab8632fa978c4c8b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:10 +0000
Subject: [PATCH 33/66] fix: ESModule generates the structs that are defined
 inside of a field

---
 generator/target/esm/esm.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 51b3aae..7a11de4 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -1305,6 +1305,10 @@ var normalFieldTemplate = `
 `
 
 func (g ESModuleGenerator) GenerateNormalField(field *definition.NormalField) (string, error) {
+	// a struct defined inside of this field is generated with it
+	if _, err := g.GenerateType(field.FieldType); err != nil {
+		return "", err
+	}
 	funcMap := template.FuncMap{
 		"GenerateType":             g.GenerateType,
 		"GenerateTypeDefaultValue": g.GenerateTypeDefaultValue,
-- 
2.43.0


From a1f342f09b4cc36e80cd89589a0d0ef5f8b53f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:57 +0000
Subject: [PATCH 34/66] fix: negative literals carry their sign in front of the
 base prefix

---
 generator/gen/gen_dispatcher.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/generator/gen/gen_dispatcher.go b/generator/gen/gen_dispatcher.go
index 84875de..8fd5147 100644
--- a/generator/gen/gen_dispatcher.go
+++ b/generator/gen/gen_dispatcher.go
@@ -69,11 +69,16 @@ func FormatIntLiteral(literal *definition.IntLiteral, opts *GenOptions) string {
 			return fmt.Sprintf("%d", u)
 		}
 	}
+	// The sign comes before the prefix: -0x1F, not 0x-1F.
+	sign, magnitude := "", uint64(literal.IntValue)
+	if literal.IntValue < 0 {
+		sign, magnitude = "-", -magnitude
+	}
 	switch base {
 	case definition.IntBaseHex:
-		return fmt.Sprintf("0x%X", literal.IntValue)
+		return sign + fmt.Sprintf("0x%X", magnitude)
 	case definition.IntBaseBin:
-		return fmt.Sprintf("0b%b", literal.IntValue)
+		return sign + fmt.Sprintf("0b%b", magnitude)
 	default:
 		return fmt.Sprintf("%d", literal.IntValue)
 	}
-- 
2.43.0


From 31f7a2be585bc1f94251c05b049804728c9c231a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 35/66] fix: float literals keep their value in the generated
 code

---
 generator/gen/gen_dispatcher.go       | 12 ++++++++++++
 generator/target/c/c.go               |  2 +-
 generator/target/commonjs/commonjs.go |  2 +-
 generator/target/cpp/cpp.go           |  2 +-
 generator/target/csharp/csharp.go     |  2 +-
 generator/target/golang/golang.go     |  2 +-
 generator/target/java/java.go         |  2 +-
 generator/target/python/python.go     |  2 +-
 8 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/generator/gen/gen_dispatcher.go b/generator/gen/gen_dispatcher.go
index 8fd5147..a4832d2 100644
--- a/generator/gen/gen_dispatcher.go
+++ b/generator/gen/gen_dispatcher.go
@@ -2,6 +2,8 @@ package gen
 
 import (
 	"fmt"
+	"strconv"
+	"strings"
 
 	"github.com/xaxys/bubbler/definition"
 )
@@ -84,6 +86,16 @@ func FormatIntLiteral(literal *definition.IntLiteral, opts *GenOptions) string {
 	}
 }
 
+// FormatFloatLiteral renders a float with as many digits as it takes to read
+// the same value back, always with a decimal point or an exponent.
+func FormatFloatLiteral(literal *definition.FloatLiteral) string {
+	s := strconv.FormatFloat(literal.FloatValue, 'g', -1, 64)
+	if !strings.ContainsAny(s, ".eE") {
+		s += ".0"
+	}
+	return s
+}
+
 type GenLiteralDispatcher struct {
 	LiteralGeneratorImpl
 }
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 2cc9244..062467b 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -3418,7 +3418,7 @@ func (g CLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral) (s
 }
 
 func (g CLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index f544597..47a274b 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3849,7 +3849,7 @@ func (g CommonJSLiteralGenerator) GenerateIntLiteral(literal *definition.IntLite
 }
 
 func (g CommonJSLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CommonJSLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 120c5ac..4fc22b6 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -3699,7 +3699,7 @@ func (g CLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral) (s
 }
 
 func (g CLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 9c9839a..1e24f3e 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -3580,7 +3580,7 @@ func (g CSharpLiteralGenerator) GenerateIntLiteral(literal *definition.IntLitera
 }
 
 func (g CSharpLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CSharpLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index b4cd744..a973d6c 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -3019,7 +3019,7 @@ func (g CLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral) (s
 }
 
 func (g CLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 5b28efe..45cf419 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -3323,7 +3323,7 @@ func (g JavaLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral)
 }
 
 func (g JavaLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g JavaLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index e1c5c1b..264d838 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2593,7 +2593,7 @@ func (g PythonLiteralGenerator) GenerateIntLiteral(literal *definition.IntLitera
 }
 
 func (g PythonLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g PythonLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
-- 
2.43.0


From ef3c5afd857f9b16db0301105eb2491b175fcbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 36/66] fix: negative constants in accessor expressions are
 parenthesised

---
 generator/gen/gen_dispatcher.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/generator/gen/gen_dispatcher.go b/generator/gen/gen_dispatcher.go
index a4832d2..ca20ec9 100644
--- a/generator/gen/gen_dispatcher.go
+++ b/generator/gen/gen_dispatcher.go
@@ -152,7 +152,12 @@ func (d *GenExprDispatcher) AcceptExpr(expr definition.Expr) (string, error) {
 	case *definition.CastExpr:
 		return d.ExprGeneratorImpl.GenerateCastExpr(val)
 	case *definition.ConstantExpr:
-		return d.ExprGeneratorImpl.GenerateConstantExpr(val)
+		str, err := d.ExprGeneratorImpl.GenerateConstantExpr(val)
+		if err == nil && strings.HasPrefix(str, "-") {
+			// keep the sign away from a preceding operator and from `**`
+			str = "(" + str + ")"
+		}
+		return str, err
 	case *definition.TenaryExpr:
 		return d.ExprGeneratorImpl.GenerateTenaryExpr(val)
 	case *definition.ValueExpr:
-- 
2.43.0


From a72c0ee7111b3469e09ec1f16a4e2bfcf186fff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:02 +0000
Subject: [PATCH 37/66] fix: Python separates not from its operand

---
 generator/target/python/python.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 264d838..8207f5f 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2484,7 +2484,7 @@ var exprOpToString = map[definition.ExprOp]string{
 	definition.ExprOp_BOR:    "|",
 	definition.ExprOp_AND:    "and",
 	definition.ExprOp_OR:     "or",
-	definition.ExprOp_NOT:    "not",
+	definition.ExprOp_NOT:    "not ",
 	definition.ExprOp_BNOT:   "~",
 	definition.ExprOp_ASSIGN: "=",
 }
-- 
2.43.0


From 87ef71da14c5992975bf3694ebb8a96bfaa88e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:03 +0000
Subject: [PATCH 38/66] fix: Python defines a custom getter before its setter

---
 generator/target/python/python.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 8207f5f..6d52a40 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -466,7 +466,12 @@ func (g PythonGenerator) generateStruct(structDef *definition.Struct) (*Generate
 		}
 		normalField := field.(*definition.NormalField)
 		for _, group := range normalField.FieldMethods.Values() {
-			for _, method := range group.Values() {
+			// the getter goes first: the setter decorates the property it defines
+			for _, kind := range []definition.MethodKindID{definition.MethodKindID_Get, definition.MethodKindID_Set} {
+				method, ok := group.Get(kind)
+				if !ok {
+					continue
+				}
 				methodStr, err := g.GenerateMethod(method)
 				if err != nil {
 					return err
-- 
2.43.0


From e9ddbe3524fb0bce2202b4adb44b58644b5e2f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:04 +0000
Subject: [PATCH 39/66] fix: value in a custom getter has the type of the field

---
 compiler/proto_visitor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index 0d2e3c7..53d4ed3 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -1171,7 +1171,12 @@ func (v *MethodVisitor) VisitFieldMethod(ctx *parser.FieldMethodContext) any {
 		panic("unreachable")
 	}
 
-	exprVisitor := NewExprVisitor(v, type_)
+	// `value` is the field in a getter and the parameter in a setter
+	valueType := type_
+	if kind == definition.MethodKindID_Get {
+		valueType = v.FieldType
+	}
+	exprVisitor := NewExprVisitor(v, valueType)
 	var expr definition.Expr
 	exprRet := ctx.Expr().Accept(exprVisitor)
 	switch val := exprRet.(type) {
-- 
2.43.0


From b31db3e30ef0432b9bb4cf63b20128affb792c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:29 +0000
Subject: [PATCH 40/66] fix: C++ qualifies the enum type when decoding an array
 of an imported enum

---
 generator/target/cpp/cpp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 4fc22b6..595544e 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -3170,7 +3170,7 @@ func (g CppGenerator) generateDecodeNormalField(field *definition.NormalField, s
 			case *definition.Enum:
 				g.GenState.UseBitHelpers = true
 				// `(EnumName)_v` is a tagged-type cast not modeled by CastExpr.
-				common["Expr"] = fmt.Sprintf("(%s)_v", elemTyT.EnumName)
+				common["Expr"] = fmt.Sprintf("(%s)_v", cppEnumType(elemTyT))
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopBasicSimple", nil, common)
 			default:
 				return nil, fmt.Errorf("internal error: unsupported fixed-element array type %T", ty.ElementType)
-- 
2.43.0


From 9a76e3ab13a23f4745ae4b99ec15f526eea07c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:29 +0000
Subject: [PATCH 41/66] fix: Go imports only the packages whose types it names

---
 generator/target/golang/golang.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index a973d6c..98adc86 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -184,11 +184,12 @@ func (g *GoGenerator) resolveImports(unit *definition.CompilationUnit) (*util.Or
 				if !ok {
 					continue
 				}
-				if innerStructTy, ok := customTy.(*definition.Struct); ok {
-					dfsStructType(innerStructTy)
-				}
 				tyName := customTy.GetTypeName()
 				if unit.LocalNames.Has(tyName) {
+					// the fields of an imported struct are the business of its own unit
+					if innerStructTy, ok := customTy.(*definition.Struct); ok {
+						dfsStructType(innerStructTy)
+					}
 					continue
 				}
 				tyUnit := customTy.GetBelongs()
-- 
2.43.0


From e9e808f7ba8224020a6caac65bf7b40aef7ee186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:31 +0000
Subject: [PATCH 42/66] fix: generated code imports every unit whose types it
 can use, and no unit without code

---
 generator/gen/gen_util.go             | 14 ++++++++++++++
 generator/target/c/c.go               |  5 +++--
 generator/target/commonjs/commonjs.go |  5 +++--
 generator/target/cpp/cpp.go           |  5 +++--
 generator/target/csharp/csharp.go     |  3 ++-
 generator/target/esm/esm.go           |  3 ++-
 generator/target/java/java.go         |  6 ++++--
 generator/target/kotlin/kotlin.go     |  7 +++++--
 generator/target/python/python.go     |  3 ++-
 9 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/generator/gen/gen_util.go b/generator/gen/gen_util.go
index c67cf68..ce1ec99 100644
--- a/generator/gen/gen_util.go
+++ b/generator/gen/gen_util.go
@@ -9,6 +9,20 @@ import (
 	"github.com/xaxys/bubbler/util"
 )
 
+// ImportedUnits returns the units that the code generated for unit imports:
+// all the ones whose types are visible in unit, which includes the imports of
+// its imports, except those for which no code is generated.
+func ImportedUnits(unit *definition.CompilationUnit) []*definition.CompilationUnit {
+	units := make([]*definition.CompilationUnit, 0, unit.GlobalImports.Len())
+	for _, imported := range unit.GlobalImports.Values() {
+		if imported.LocalTypes.Len() == 0 && MatchOption(imported.Options, "omit_empty", true) {
+			continue
+		}
+		units = append(units, imported)
+	}
+	return units
+}
+
 func MatchOption(options *util.OrderedMap[string, *definition.Option], name string, value any) bool {
 	if options == nil {
 		return false
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 062467b..dafe002 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -334,8 +334,8 @@ struct bytes {
 {{ end -}}
 
 {{ $curUnit := .Unit -}}
-{{ if gt $curUnit.LocalImports.Len 0 -}}
-{{ range $unit := $curUnit.LocalImports.Values -}}
+{{ if .Imports -}}
+{{ range $unit := .Imports -}}
 {{ if $.GenOptions.RelativePath -}}
 #include "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.h" }}"
 {{ else -}}
@@ -478,6 +478,7 @@ func (g CGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 
 	headerData := map[string]any{
 		"Unit":         unit,
+		"Imports":      gen.ImportedUnits(unit),
 		"GenTypes":     genTypes,
 		"UseStringH":   g.GenState.UseStringH,
 		"UseStdLibH":   g.GenState.UseStdLibH,
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 47a274b..32503f8 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -294,9 +294,9 @@ var fileTemplate = `
         return mergeDeep(target, ...sources);
     });
 
-    {{- if gt .Unit.LocalImports.Len 0 }}
+    {{- if .Imports }}
     var $root = mergeDeep({},
-        {{- range $unit := .Unit.LocalImports.Values }}
+        {{- range $unit := .Imports }}
         require("{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb" }}"),
         {{- end }}
     );
@@ -1054,6 +1054,7 @@ func (g CommonJSGenerator) GenerateUnit(unit *definition.CompilationUnit) error
 
 	fileData := map[string]any{
 		"Unit":       unit,
+		"Imports":    gen.ImportedUnits(unit),
 		"GenTypes":   genTypes,
 		"GenState":   g.GenState,
 		"GenOptions": g.GenCtx.GenOptions,
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 595544e..b1058c3 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -344,8 +344,8 @@ struct bytes {
 {{ end -}}
 
 {{ $curUnit := .Unit -}}
-{{ if gt $curUnit.LocalImports.Len 0 -}}
-{{ range $unit := $curUnit.LocalImports.Values -}}
+{{ if .Imports -}}
+{{ range $unit := .Imports -}}
 {{ if $.GenOptions.RelativePath -}}
 #include "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.hpp" }}"
 {{ else -}}
@@ -548,6 +548,7 @@ func (g CppGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 
 	headerData := map[string]any{
 		"Unit":         unit,
+		"Imports":      gen.ImportedUnits(unit),
 		"GenTypes":     genTypes,
 		"UseStringH":   g.GenState.UseStringH,
 		"UseStdLibH":   g.GenState.UseStdLibH,
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 1e24f3e..9b6465c 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -208,7 +208,7 @@ using System.Collections.Generic;
 using System.Linq;
 using System.Text;
 {{ $curUnit := .Unit -}}
-{{ range $unit := .Unit.LocalImports.Values -}}
+{{ range $unit := .Imports -}}
 {{ if $unit.Options.Has "csharp_namespace" -}}
 {{ $namespace0 := $unit.Options.MustGet "csharp_namespace" -}}
 {{ $namespace1 := slice $namespace0.OptionValue 1 -1 -}}
@@ -328,6 +328,7 @@ func (g CSharpGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 
 	fileData := map[string]any{
 		"Unit":       unit,
+		"Imports":    gen.ImportedUnits(unit),
 		"GenTypes":   genTypes,
 		"GenOptions": g.GenCtx.GenOptions,
 	}
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 7a11de4..d45cd84 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -287,7 +287,7 @@ var fileTemplate = `
 {{- end }}
 
 /* eslint-disable block-scoped-var, id-length, no-control-regex, no-magic-numbers, no-prototype-builtins, no-redeclare, no-shadow, no-var, sort-vars */
-{{- range $unit := .Unit.LocalImports.Values }}
+{{- range $unit := .Imports }}
 import ${{ $unit.Package.PackageName }} from "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.js" }}";
 {{- end }}
 
@@ -980,6 +980,7 @@ func (g ESModuleGenerator) GenerateUnit(unit *definition.CompilationUnit) error
 
 	fileData := map[string]any{
 		"Unit":       unit,
+		"Imports":    gen.ImportedUnits(unit),
 		"GenTypes":   genTypes,
 		"GenState":   g.GenState,
 		"GenOptions": g.GenCtx.GenOptions,
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 45cf419..f63b86e 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -212,8 +212,9 @@ package {{ .Unit.Package }};
 {{- end }}
 
 {{ $curUnit := .Unit -}}
-{{ range $unit := .Unit.LocalImports.Values -}}
-{{ if $unit.Options.Has "java_package" -}}
+{{ range $unit := .Imports -}}
+{{ if eq $unit.LocalTypes.Len 0 -}}
+{{ else if $unit.Options.Has "java_package" -}}
 {{ $pkgName := $unit.Options.MustGet "java_package" -}}
 import {{ slice $pkgName.OptionValue 1 -1 }}.*;
 {{ else -}}
@@ -270,6 +271,7 @@ func (g JavaGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 			name, genType := entry.Key, entry.Value
 			fileData := map[string]any{
 				"Unit":       unit,
+				"Imports":    gen.ImportedUnits(unit),
 				"GenType":    genType,
 				"GenOptions": g.GenCtx.GenOptions,
 			}
diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index de418eb..2af2ad6 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -109,9 +109,12 @@ func (g *KotlinGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 		return nil
 	}
 	pkg := kotlinPackage(unit)
-	imports := make([]string, 0, unit.LocalImports.Len())
+	imports := make([]string, 0, unit.GlobalImports.Len())
 	seen := map[string]bool{}
-	for _, imported := range unit.LocalImports.Values() {
+	for _, imported := range gen.ImportedUnits(unit) {
+		if imported.LocalTypes.Len() == 0 {
+			continue // nothing in that package
+		}
 		p := kotlinPackage(imported)
 		if p != "" && p != pkg && !seen[p] {
 			imports = append(imports, "import "+p+".*")
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 6d52a40..229d4ee 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -179,7 +179,7 @@ from enum import Enum
 from typing import List, Tuple, Union, overload
 
 {{ $curUnit := .Unit -}}
-{{ range $unit := .Unit.LocalImports.Values -}}
+{{ range $unit := .Imports -}}
 {{ if $.GenOptions.RelativePath -}}
 from {{ $curUnit.Package.ToPyRelativePath $unit.Package "_bb" }} import *
 {{ else -}}
@@ -255,6 +255,7 @@ func (g PythonGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 
 	fileData := map[string]any{
 		"Unit":       unit,
+		"Imports":    gen.ImportedUnits(unit),
 		"GenTypes":   genTypes,
 		"GenOptions": g.GenCtx.GenOptions,
 	}
-- 
2.43.0


From fa55bd4c08f9351a962ec373af4bb9ecfdf3b448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 43/66] fix: ESModule keeps packages that end in the same name
 apart

---
 generator/target/esm/esm.go        | 28 ++++++++++++++++++++--------
 generator/target/esm/esm_decode.go |  4 ++--
 generator/target/esm/esm_encode.go |  6 +++---
 3 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index d45cd84..cd57c72 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -177,7 +177,7 @@ var structPackagePrefixTemplate = `
     {{- if $inPackage -}}
     {{ $structDef.StructName }}
     {{- else -}}
-    ${{ $structDef.StructBelongs.Package.PackageName }}.{{ $structDef.StructName }}
+    ${{ $structDef.StructBelongs.Package.ToPath "$" "" }}.{{ $structDef.StructName }}
     {{- end -}}
 {{- end -}}
 {{- end -}}
@@ -256,7 +256,21 @@ func (g *ESModuleGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings
 
 	// generate single file
 	if g.GenCtx.GenOptions.SingleFile {
+		// packages that end in the same name share a key
+		packages := util.NewOrderedMap[string, []string]()
+		for _, genUnit := range g.GenUnits.Values() {
+			name := genUnit.SourceUnit.Package.PackageName
+			typeNames := packages.MustGet(name)
+			for _, entry := range genUnit.GeneratedTypes.Entries() {
+				if entry.Value.GeneratedDef != "" {
+					typeNames = append(typeNames, entry.Key)
+				}
+			}
+			packages.MustPut(name, typeNames)
+		}
+
 		singleData := map[string]any{
+			"Packages":   packages,
 			"GenUnits":   g.GenUnits,
 			"GenState":   g.GenState,
 			"GenOptions": g.GenCtx.GenOptions,
@@ -288,7 +302,7 @@ var fileTemplate = `
 
 /* eslint-disable block-scoped-var, id-length, no-control-regex, no-magic-numbers, no-prototype-builtins, no-redeclare, no-shadow, no-var, sort-vars */
 {{- range $unit := .Imports }}
-import ${{ $unit.Package.PackageName }} from "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.js" }}";
+import ${{ $unit.Package.ToPath "$" "" }} from "{{ $curUnit.Package.ToRelativePathStrict $unit.Package ".bb.js" }}";
 {{- end }}
 
 {{- if .GenState.UseStructArray }}
@@ -934,12 +948,10 @@ const {{ $entry.Key }} = (function() {
 
 {{ end -}}
 export default {
-{{ range $genUnit := .GenUnits.Values }}
-    {{ $genUnit.SourceUnit.Package.PackageName }}: {
-{{- range $entry := $genUnit.GeneratedTypes.Entries }}
-{{- if $entry.Value.GeneratedDef }}
-        {{ $entry.Key }},
-{{- end }}
+{{ range $package := .Packages.Entries }}
+    {{ $package.Key }}: {
+{{- range $typeName := $package.Value }}
+        {{ $typeName }},
 {{- end }}
     },
 {{ end -}}
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index e5fc29a..d2b0c83 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -349,7 +349,7 @@ var fieldDecoderTemplate = `
 {{- if or .SingleFile $inPackage -}}
     {{ .FieldName }} = {{ .EnumDef.EnumName }}[{{ .TempName }}];
 {{- else -}}
-    {{ .FieldName }} = ${{ .EnumDef.EnumBelongs.Package.PackageName }}.{{ .EnumDef.EnumName }}[{{ .TempName }}];
+    {{ .FieldName }} = ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .TempName }}];
 {{- end -}}
 {{- end -}}
 
@@ -623,7 +623,7 @@ func (g ESModuleGenerator) generateDecodeNormalField(field *definition.NormalFie
 				if g.GenCtx.GenOptions.SingleFile || inPackage {
 					common["Expr"] = fmt.Sprintf("%s[%s]", elemTyT.EnumName, idxCast)
 				} else {
-					common["Expr"] = fmt.Sprintf("$%s.%s[%s]", elemTyT.EnumBelongs.Package.PackageName, elemTyT.EnumName, idxCast)
+					common["Expr"] = fmt.Sprintf("%s.%s[%s]", "$"+elemTyT.EnumBelongs.Package.ToPath("$", ""), elemTyT.EnumName, idxCast)
 				}
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopBasic", nil, common)
 			default:
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index 0a4ad81..4c9ede9 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -234,7 +234,7 @@ var fieldEncoderTemplate = `
 {{- if or .SingleFile $inPackage -}}
     const {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : {{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- else -}}
-    const {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.PackageName }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    const {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- end -}}
 {{- end -}}
 
@@ -255,7 +255,7 @@ var fieldEncoderTemplate = `
 {{- if or .SingleFile $inPackage -}}
     {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : {{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- else -}}
-    {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.PackageName }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
 {{- end -}}
 {{- end -}}
 
@@ -500,7 +500,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 				if g.GenCtx.GenOptions.SingleFile || inPackage {
 					lookupExpr = fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : %s[%s[_i]])", name, name, elemTyT.EnumName, name)
 				} else {
-					lookupExpr = fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : $%s.%s[%s[_i]])", name, name, elemTyT.EnumBelongs.Package.PackageName, elemTyT.EnumName, name)
+					lookupExpr = fmt.Sprintf("(typeof %s[_i] === \"number\" ? %s[_i] : %s.%s[%s[_i]])", name, name, "$"+elemTyT.EnumBelongs.Package.ToPath("$", ""), elemTyT.EnumName, name)
 				}
 				common["ValueExpr"] = g.generateCastExpr(&definition.Int64, lookupExpr)
 				stmt = util.ExecuteTemplate(fieldEncoderTemplate, "encodeArrayLoopBasicSimple", nil, common)
-- 
2.43.0


From 083682499605c35f80e4902e699843f3deabba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:33 +0000
Subject: [PATCH 44/66] fix: Go relative imports start from the directory of
 the package

---
 README.md                         |  4 ++--
 generator/target/golang/golang.go | 22 +++++++++++++++-------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/README.md b/README.md
index 903c505..c25328e 100644
--- a/README.md
+++ b/README.md
@@ -132,9 +132,9 @@ When selecting the target language, you can use the aliases inside `[]`. For exa
   - With `-single`: Output one file that includes all definitions for all `.bb` files. The output file name (including the extension) is determined by the `-o` option. The package name is determined by the package statement of the input `.bb` file.
   - With `-memcpy`: Make a copy of the `bytes` field when decoding. The `string` field will always be copied.
   - Without `-memcpy`: A slice of the original buffer will be assigned to the `bytes` field. The `string` field will always be copied.
-  - With `-relpath`: Generate relative path imports (e.g. `import "./foo_bb"` or `import "../subpkg/foo_bb"`). If `go_package` is set, the generated relative path will be calculated based on the package path defined by `go_package`.
+  - With `-relpath`: Generate relative path imports (e.g. `import "../foo"` or `import "../../subpkg/foo"`). If `go_package` is set, the generated relative path will be calculated based on the package path defined by `go_package`.
   - With `-unroll`: Fixed-width loops use package-private `bbWriteFieldBits` / `bbReadFieldBits`; decoders validate the input size before reading.
-  **Notice!** The `-rmpath` option is NOT considered when calculating relative paths between modules for Go. That is, if the package path of A is `github.com/xaxys/a`, the package path of B is `gitlab.com/user/b`, and `-rmpath=github.com/xaxys` is set, then the output path of A will be `a`, the output path of B will be `gitlab.com/user/b`, but the imported path of A inside B will still be calculated as `../../github.com/xaxys/a`, instead of `../../a`.
+  **Notice!** The `-rmpath` option is NOT considered when calculating relative paths between modules for Go. That is, if the package path of A is `github.com/xaxys/a`, the package path of B is `gitlab.com/user/b`, and `-rmpath=github.com/xaxys` is set, then the output path of A will be `a`, the output path of B will be `gitlab.com/user/b`, but the imported path of A inside B will still be calculated as `../../../github.com/xaxys/a`, instead of `../../../a`.
 
 - `java`: Java language, output one `.java` file for each structure defined in each `.bb` file. The folder structure will be affected by the `java_package` option. (i.e., `com.example.rovlink` will generate in the `com/example/rovlink` directory)
   - Force enabled: `-memcpy`.
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 98adc86..016120f 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -2,6 +2,7 @@ package golang
 
 import (
 	"fmt"
+	"slices"
 	"strings"
 	"text/template"
 
@@ -335,7 +336,7 @@ package {{ .GenUnit.GoPackage.PackageName }}
 import (
 {{- range $unit := $imports.Values -}}
 {{- if $.GenOptions.RelativePath }}
-    . "{{ $.GenUnit.GoPackage.ToRelativePathStrict $unit.GoPackage "" }}"
+    . "{{ call $.RelativeImport $.GenUnit.GoPackage $unit.GoPackage }}"
 {{- else }}
     . "{{ $unit.GoPackage.ToPath "/" "" }}"
 {{- end }}
@@ -460,13 +461,20 @@ func (g GoGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 		return err
 	}
 
+	// a Go import is relative to the directory of the package, which its file is inside of
+	relativeImport := func(from, to *definition.Package) string {
+		file := definition.NewPackage(nil, append(slices.Clone(from.PackageFullPaths), from.PackageName))
+		return file.ToRelativePathStrict(to, "")
+	}
+
 	fileData := map[string]any{
-		"Unit":       unit,
-		"GenUnit":    genUnit,
-		"GenTypes":   genTypes,
-		"GenState":   g.GenState,
-		"Imports":    imports,
-		"GenOptions": g.GenCtx.GenOptions,
+		"Unit":           unit,
+		"GenUnit":        genUnit,
+		"GenTypes":       genTypes,
+		"GenState":       g.GenState,
+		"Imports":        imports,
+		"RelativeImport": relativeImport,
+		"GenOptions":     g.GenCtx.GenOptions,
 	}
 
 	fileStr := util.ExecuteTemplate(fileTemplate, "file", nil, fileData)
-- 
2.43.0


From f751abe9d22457c9ece871850401e17c43139974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:58 +0000
Subject: [PATCH 45/66] fix: C++ names of other namespaces start at the global
 one

---
 generator/target/cpp/cpp.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index b1058c3..bc743cd 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -744,11 +744,11 @@ func cppNamespace(unit *definition.CompilationUnit) string {
 
 // cppEnumType returns the qualified name of an enum type
 func cppEnumType(enumDef *definition.Enum) string {
-	return fmt.Sprintf("enum %s::%s", cppNamespace(enumDef.EnumBelongs), enumDef.EnumName)
+	return fmt.Sprintf("enum ::%s::%s", cppNamespace(enumDef.EnumBelongs), enumDef.EnumName)
 }
 
 func (g CppGenerator) GenerateStruct(structDef *definition.Struct) (string, error) {
-	name := fmt.Sprintf("struct %s::%s", cppNamespace(structDef.StructBelongs), structDef.StructName)
+	name := fmt.Sprintf("struct ::%s::%s", cppNamespace(structDef.StructBelongs), structDef.StructName)
 	// check if this struct is already generated
 	if g.GenTypes.Has(structDef.StructName) {
 		return name, nil
@@ -2556,9 +2556,9 @@ var decoderTemplate = `
             uint64_t sub_offset = offset + {{ $fromByte }};
             uint64_t remaining = size > sub_offset ? size - sub_offset : 0;
 			{{- if $.GenOptions.CompatibleMode }}
-            int64_t sub_size = {{ namespace $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
+            int64_t sub_size = ::{{ namespace $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
             {{- else }}
-            int64_t sub_size = {{ namespace $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
+            int64_t sub_size = ::{{ namespace $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
             {{- end }}
             if (sub_size < 0) return -static_cast<int64_t>(sub_offset) + sub_size;
             offset += static_cast<uint64_t>(sub_size);
@@ -2569,9 +2569,9 @@ var decoderTemplate = `
             uint64_t sub_offset = offset + {{ $fromByte }};
             uint64_t remaining = size > sub_offset ? size - sub_offset : 0;
 			{{- if $.GenOptions.CompatibleMode }}
-            int64_t sub_size = {{ namespace $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
+            int64_t sub_size = ::{{ namespace $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
             {{- else }}
-            int64_t sub_size = {{ namespace $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
+            int64_t sub_size = ::{{ namespace $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
             {{- end }}
             if (sub_size < 0) return -static_cast<int64_t>(sub_offset) + sub_size;
             offset += static_cast<uint64_t>(sub_size);
@@ -2613,9 +2613,9 @@ var decoderTemplate = `
             uint64_t sub_offset = offset + {{ $fromByte }};
             uint64_t remaining = size > sub_offset ? size - sub_offset : 0;
 			{{- if $.GenOptions.CompatibleMode }}
-            int64_t sub_size = {{ namespace $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
+            int64_t sub_size = ::{{ namespace $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(static_cast<const uint8_t*>(data) + sub_offset, remaining);
             {{- else }}
-            int64_t sub_size = {{ namespace $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
+            int64_t sub_size = ::{{ namespace $structType.StructBelongs }}::{{ $structType.StructName }}::decode_size(::std::span<const uint8_t>(static_cast<const uint8_t*>(data) + sub_offset, remaining));
             {{- end }}
             if (sub_size < 0) return -static_cast<int64_t>(sub_offset) + sub_size;
             offset += static_cast<uint64_t>(sub_size);
-- 
2.43.0


From 9042f637c626efce6a3cd07a106ecf4435996a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:55 +0000
Subject: [PATCH 46/66] fix: C and C++ header guards of different packages
 differ

---
 generator/gen/gen_util.go   | 7 +++++++
 generator/target/c/c.go     | 9 +++++----
 generator/target/cpp/cpp.go | 9 +++++----
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/generator/gen/gen_util.go b/generator/gen/gen_util.go
index ce1ec99..93c3e7f 100644
--- a/generator/gen/gen_util.go
+++ b/generator/gen/gen_util.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"strings"
 
 	"github.com/xaxys/bubbler/definition"
 	"github.com/xaxys/bubbler/util"
@@ -23,6 +24,12 @@ func ImportedUnits(unit *definition.CompilationUnit) []*definition.CompilationUn
 	return units
 }
 
+// GuardName returns an identifier that belongs to the package alone: a dot and
+// an underscore in its name do not look alike.
+func GuardName(pkg *definition.Package) string {
+	return strings.NewReplacer("_", "__", ".", "_0").Replace(pkg.String())
+}
+
 func MatchOption(options *util.OrderedMap[string, *definition.Option], name string, value any) bool {
 	if options == nil {
 		return false
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index dafe002..8f00fb9 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -301,7 +301,7 @@ static uint64_t bb_read_field_bits(const uint8_t* data, int64_t bit_from, int64_
 {{- end -}}
 
 {{- define "headerFile" -}}
-{{- $allCapName := ToALLCAP_CASE (.Unit.Package.ToPath "_" "") -}}
+{{- $guardName := .GuardName -}}
 // Target: C (header)
 // Generated by bubbler
 // DO NOT EDIT
@@ -309,8 +309,8 @@ static uint64_t bb_read_field_bits(const uint8_t* data, int64_t bit_from, int64_
 // {{ $line }}
 {{- end }}
 #pragma once
-#ifndef __{{ $allCapName }}_BB_H
-#define __{{ $allCapName }}_BB_H
+#ifndef __{{ $guardName }}_BB_H
+#define __{{ $guardName }}_BB_H
 
 #include <stdbool.h>
 #include <stddef.h>
@@ -361,7 +361,7 @@ struct bytes {
 /* ==================== End {{ $entry.Key }} ==================== */
 
 {{ end -}}
-#endif // __{{ $allCapName }}_BB_H
+#endif // __{{ $guardName }}_BB_H
 {{ end }}
 
 {{- define "sourceFile" -}}
@@ -478,6 +478,7 @@ func (g CGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 
 	headerData := map[string]any{
 		"Unit":         unit,
+		"GuardName":    gen.GuardName(unit.Package),
 		"Imports":      gen.ImportedUnits(unit),
 		"GenTypes":     genTypes,
 		"UseStringH":   g.GenState.UseStringH,
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index bc743cd..92bbfd9 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -304,7 +304,7 @@ inline uint64_t bb_read_field_bits(const uint8_t* data, int64_t bit_from, int64_
 {{- end -}}
 
 {{- define "headerFile" -}}
-{{- $allCapName := ToALLCAP_CASE (.Unit.Package.ToPath "_" "") -}}
+{{- $guardName := .GuardName -}}
 // Target: C++ (header)
 // Generated by bubbler
 // DO NOT EDIT
@@ -312,8 +312,8 @@ inline uint64_t bb_read_field_bits(const uint8_t* data, int64_t bit_from, int64_
 // {{ $line }}
 {{- end }}
 #pragma once
-#ifndef __{{ $allCapName }}_BB_HPP
-#define __{{ $allCapName }}_BB_HPP
+#ifndef __{{ $guardName }}_BB_HPP
+#define __{{ $guardName }}_BB_HPP
 
 #include <cstdbool>
 #include <cstddef>
@@ -382,7 +382,7 @@ namespace {{ .Unit.Package.ToPath "::" "" }}
 } // namespace {{ .Unit.Package.ToPath "::" "" }}
 
 {{ end -}}
-#endif // __{{ $allCapName }}_BB_HPP
+#endif // __{{ $guardName }}_BB_HPP
 {{ end }}
 
 {{- define "sourceFile" -}}
@@ -548,6 +548,7 @@ func (g CppGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 
 	headerData := map[string]any{
 		"Unit":         unit,
+		"GuardName":    gen.GuardName(unit.Package),
 		"Imports":      gen.ImportedUnits(unit),
 		"GenTypes":     genTypes,
 		"UseStringH":   g.GenState.UseStringH,
-- 
2.43.0


From 47b8def91b0f49926fc7e3c1eb40a6a6a3bb4849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:47 +0000
Subject: [PATCH 47/66] fix: C# generated code names the types it uses by their
 full names

A member or type named Math, Array, Encoding, BitConverter or Enumerable hid
the one of System in the generated class.
---
 generator/target/csharp/csharp.go | 62 +++++++++++++++----------------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 9b6465c..ac59e9e 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -104,9 +104,9 @@ func (g *CSharpGenerator) decodeBasicValueExpr(elemTy *definition.BasicType, ele
 	if tyID.IsFloat() {
 		if elemTy.GetTypeBitSize() == 32 {
 			// `BitConverter.ToSingle(...)` is an API call; cast `(uint)_v` is basic-type.
-			return "BitConverter.ToSingle(BitConverter.GetBytes(" + g.generateCastExpr(&definition.Uint32, "_v") + "), 0)"
+			return "global::System.BitConverter.ToSingle(global::System.BitConverter.GetBytes(" + g.generateCastExpr(&definition.Uint32, "_v") + "), 0)"
 		}
-		return "BitConverter.ToDouble(BitConverter.GetBytes(_v), 0)"
+		return "global::System.BitConverter.ToDouble(global::System.BitConverter.GetBytes(_v), 0)"
 	}
 	if tyID.IsInt() {
 		if elemBitSize >= elemTySize*8 {
@@ -637,7 +637,7 @@ var structTemplate = `
             {{- if $field.FieldType.GetTypeID.IsBasic }}
             if (this.{{ $fieldName }} != other.{{ $fieldName }}) return false;
             {{- else if $field.FieldType.GetTypeID.IsArray }}
-            if (!Enumerable.SequenceEqual(this.{{ $fieldName }}, other.{{ $fieldName }})) return false;
+            if (!global::System.Linq.Enumerable.SequenceEqual(this.{{ $fieldName }}, other.{{ $fieldName }})) return false;
             {{- else }}
             if (!Object.Equals(this.{{ $fieldName }}, other.{{ $fieldName }})) return false;
             {{- end }}
@@ -1195,11 +1195,11 @@ var encoderTemplate = `
                             {{- if $shouldUseLoop }}
             for (int _i = 0; _i < {{ $field.FieldType.Length }}; _i++)
             {
-                size += Encoding.UTF8.GetByteCount(this.{{ $fieldName }}[_i]) + 1;
+                size += global::System.Text.Encoding.UTF8.GetByteCount(this.{{ $fieldName }}[_i]) + 1;
             }
                             {{- else }}
                             {{- range $i := iterate 0 $field.FieldType.Length }}
-            size += Encoding.UTF8.GetByteCount(this.{{ $fieldName }}[{{ $i }}]) + 1;
+            size += global::System.Text.Encoding.UTF8.GetByteCount(this.{{ $fieldName }}[{{ $i }}]) + 1;
                             {{- end }}
                             {{- end }}
                         {{- else if $field.FieldType.ElementType.GetTypeID.IsBytes }}
@@ -1221,7 +1221,7 @@ var encoderTemplate = `
             size += this.{{ $fieldName }}.EncodeSize();
                         {{- end }}
                     {{- else if $field.FieldType.GetTypeID.IsString }}
-            size += Encoding.UTF8.GetByteCount(this.{{ $fieldName }}) + 1;
+            size += global::System.Text.Encoding.UTF8.GetByteCount(this.{{ $fieldName }}) + 1;
                     {{- else if $field.FieldType.GetTypeID.IsBytes }}
             size += this.{{ $fieldName }}.Length;
             size += 1{{ range $j := iterate 1 5 }} + ((this.{{ $fieldName }}.Length >> {{ calc $j "*" 7 }}) > 0 ? 1 : 0){{ end }};
@@ -1407,9 +1407,9 @@ var fieldEncoderTemplate = `
 
 {{- define "encodeNormalFieldTempVarDeclFloatCast" -}}
 {{- if .IsFloat32 -}}
-    {{ .TyUint }} {{ .TempName }} = BitConverter.ToUInt32(BitConverter.GetBytes({{ .FieldName }}), 0);
+    {{ .TyUint }} {{ .TempName }} = global::System.BitConverter.ToUInt32(global::System.BitConverter.GetBytes({{ .FieldName }}), 0);
 {{- else -}}
-    {{ .TyUint }} {{ .TempName }} = BitConverter.ToUInt64(BitConverter.GetBytes({{ .FieldName }}), 0);
+    {{ .TyUint }} {{ .TempName }} = global::System.BitConverter.ToUInt64(global::System.BitConverter.GetBytes({{ .FieldName }}), 0);
 {{- end -}}
 {{- end -}}
 
@@ -1431,15 +1431,15 @@ var fieldEncoderTemplate = `
 
 {{- define "encodeNormalFieldTempVarAssignFloatCast" -}}
 {{- if .IsFloat32 -}}
-    {{ .TempName }} = BitConverter.ToUInt32(BitConverter.GetBytes({{ .FieldName }}), 0);
+    {{ .TempName }} = global::System.BitConverter.ToUInt32(global::System.BitConverter.GetBytes({{ .FieldName }}), 0);
 {{- else -}}
-    {{ .TempName }} = BitConverter.ToUInt64(BitConverter.GetBytes({{ .FieldName }}), 0);
+    {{ .TempName }} = global::System.BitConverter.ToUInt64(global::System.BitConverter.GetBytes({{ .FieldName }}), 0);
 {{- end -}}
 {{- end -}}
 
 {{- define "encodeNormalFieldString" -}}
             {
-                {{ .TyBytes }} {{ .TempName }} = Encoding.UTF8.GetBytes({{ .FieldName }});
+                {{ .TyBytes }} {{ .TempName }} = global::System.Text.Encoding.UTF8.GetBytes({{ .FieldName }});
                 {{ if .GenOptions.MemoryCopy -}}
                 {{ .TempName }}.CopyTo(data, offset + start + {{ .FromByte }});
                 data[offset + start + {{ .FromByte }} + {{ .TempName }}.Length] = 0;
@@ -1743,9 +1743,9 @@ func (g CSharpGenerator) generateEncodeNormalField(field *definition.NormalField
 				switch elemTyT.GetTypeID() {
 				case definition.TypeID_Float32:
 					// `BitConverter.ToUInt32(...)` is an API call (not a basic-type cast).
-					common["ValueExpr"] = g.generateCastExpr(&definition.Uint64, fmt.Sprintf("BitConverter.ToUInt32(BitConverter.GetBytes(%s[_i]), 0)", name))
+					common["ValueExpr"] = g.generateCastExpr(&definition.Uint64, fmt.Sprintf("global::System.BitConverter.ToUInt32(global::System.BitConverter.GetBytes(%s[_i]), 0)", name))
 				case definition.TypeID_Float64:
-					common["ValueExpr"] = fmt.Sprintf("BitConverter.ToUInt64(BitConverter.GetBytes(%s[_i]), 0)", name)
+					common["ValueExpr"] = fmt.Sprintf("global::System.BitConverter.ToUInt64(global::System.BitConverter.GetBytes(%s[_i]), 0)", name)
 				case definition.TypeID_Bool:
 					common["ValueExpr"] = fmt.Sprintf("(%s[_i] ? 1UL : 0UL)", name)
 				default:
@@ -2271,7 +2271,7 @@ var decoderTemplate = `
                 if (_shift >= 28 && data[offset + start + {{ $fromByte }}] > 0x07) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
-                if (data.Length - start - (offset + {{ $fromByte }}) < _length) return (int)Math.Max(-((long)offset + {{ $fromByte }} + _length), -int.MaxValue);
+                if (data.Length - start - (offset + {{ $fromByte }}) < _length) return (int)global::System.Math.Max(-((long)offset + {{ $fromByte }} + _length), -int.MaxValue);
                 {{- else }}
                 if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 int _length = 0;
@@ -2286,7 +2286,7 @@ var decoderTemplate = `
                 if (_shift >= 28 && data[offset + {{ $fromByte }}] > 0x07) return -1;
                 _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
-                if (data.Length - (offset + {{ $fromByte }}) < _length) return (int)Math.Max(-((long)offset + {{ $fromByte }} + _length), -int.MaxValue);
+                if (data.Length - (offset + {{ $fromByte }}) < _length) return (int)global::System.Math.Max(-((long)offset + {{ $fromByte }} + _length), -int.MaxValue);
                 {{- end }}
                 offset += _length;
             }
@@ -2307,7 +2307,7 @@ var decoderTemplate = `
                 if (_shift >= 28 && data[offset + start + {{ $fromByte }}] > 0x07) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
-                if (data.Length - start - (offset + {{ $fromByte }}) < _length) return (int)Math.Max(-((long)offset + {{ $fromByte }} + _length), -int.MaxValue);
+                if (data.Length - start - (offset + {{ $fromByte }}) < _length) return (int)global::System.Math.Max(-((long)offset + {{ $fromByte }} + _length), -int.MaxValue);
                 {{- else }}
                 if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 int _length = 0;
@@ -2322,7 +2322,7 @@ var decoderTemplate = `
                 if (_shift >= 28 && data[offset + {{ $fromByte }}] > 0x07) return -1;
                 _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
-                if (data.Length - (offset + {{ $fromByte }}) < _length) return (int)Math.Max(-((long)offset + {{ $fromByte }} + _length), -int.MaxValue);
+                if (data.Length - (offset + {{ $fromByte }}) < _length) return (int)global::System.Math.Max(-((long)offset + {{ $fromByte }} + _length), -int.MaxValue);
                 {{- end }}
                 offset += _length;
             }
@@ -2336,9 +2336,9 @@ var decoderTemplate = `
                 {{- if $memcpy }}
                 int _subSize = this.{{ TocamelCase $f.FieldName }}[_i].DecodeSize(data, offset + start + {{ $fromByte }});
                 {{- else }}
-                int _subSize = this.{{ TocamelCase $f.FieldName }}[_i].DecodeSize(memoryData.Slice(Math.Min(offset + {{ $fromByte }}, memoryData.Length)));
+                int _subSize = this.{{ TocamelCase $f.FieldName }}[_i].DecodeSize(memoryData.Slice(global::System.Math.Min(offset + {{ $fromByte }}, memoryData.Length)));
                 {{- end }}
-                if (_subSize < 0) return (int)Math.Max(-((long)offset + {{ $fromByte }}) + _subSize, -int.MaxValue);
+                if (_subSize < 0) return (int)global::System.Math.Max(-((long)offset + {{ $fromByte }}) + _subSize, -int.MaxValue);
                 offset += _subSize;
             }
             {{- else }}
@@ -2347,9 +2347,9 @@ var decoderTemplate = `
                 {{- if $memcpy }}
                 int _subSize = this.{{ TocamelCase $f.FieldName }}[{{ $i }}].DecodeSize(data, offset + start + {{ $fromByte }});
                 {{- else }}
-                int _subSize = this.{{ TocamelCase $f.FieldName }}[{{ $i }}].DecodeSize(memoryData.Slice(Math.Min(offset + {{ $fromByte }}, memoryData.Length)));
+                int _subSize = this.{{ TocamelCase $f.FieldName }}[{{ $i }}].DecodeSize(memoryData.Slice(global::System.Math.Min(offset + {{ $fromByte }}, memoryData.Length)));
                 {{- end }}
-                if (_subSize < 0) return (int)Math.Max(-((long)offset + {{ $fromByte }}) + _subSize, -int.MaxValue);
+                if (_subSize < 0) return (int)global::System.Math.Max(-((long)offset + {{ $fromByte }}) + _subSize, -int.MaxValue);
                 offset += _subSize;
             }
             {{- end -}}
@@ -2391,7 +2391,7 @@ var decoderTemplate = `
                 if (_shift >= 28 && data[offset + start + {{ $fromByte }}] > 0x07) return -1;
                 _length |= (data[offset + start + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
-                if (data.Length - start - (offset + {{ $fromByte }}) < _length) return (int)Math.Max(-((long)offset + {{ $fromByte }} + _length), -int.MaxValue);
+                if (data.Length - start - (offset + {{ $fromByte }}) < _length) return (int)global::System.Math.Max(-((long)offset + {{ $fromByte }} + _length), -int.MaxValue);
                 {{- else }}
                 if (data.Length <= offset + {{ $fromByte }}) return -(offset + {{ $fromByte }} + 1);
                 int _length = 0;
@@ -2406,7 +2406,7 @@ var decoderTemplate = `
                 if (_shift >= 28 && data[offset + {{ $fromByte }}] > 0x07) return -1;
                 _length |= (data[offset + {{ $fromByte }}] & 0x7F) << _shift;
                 offset++;
-                if (data.Length - (offset + {{ $fromByte }}) < _length) return (int)Math.Max(-((long)offset + {{ $fromByte }} + _length), -int.MaxValue);
+                if (data.Length - (offset + {{ $fromByte }}) < _length) return (int)global::System.Math.Max(-((long)offset + {{ $fromByte }} + _length), -int.MaxValue);
                 {{- end }}
                 offset += _length;
             }
@@ -2416,9 +2416,9 @@ var decoderTemplate = `
                 {{- if $memcpy }}
                 int _subSize = this.{{ TocamelCase $f.FieldName }}.DecodeSize(data, offset + start + {{ $fromByte }});
                 {{- else }}
-                int _subSize = this.{{ TocamelCase $f.FieldName }}.DecodeSize(memoryData.Slice(Math.Min(offset + {{ $fromByte }}, memoryData.Length)));
+                int _subSize = this.{{ TocamelCase $f.FieldName }}.DecodeSize(memoryData.Slice(global::System.Math.Min(offset + {{ $fromByte }}, memoryData.Length)));
                 {{- end }}
-                if (_subSize < 0) return (int)Math.Max(-((long)offset + {{ $fromByte }}) + _subSize, -int.MaxValue);
+                if (_subSize < 0) return (int)global::System.Math.Max(-((long)offset + {{ $fromByte }}) + _subSize, -int.MaxValue);
                 offset += _subSize;
             }
     {{- end -}}
@@ -2642,9 +2642,9 @@ var fieldDecoderTemplate = `
 
 {{- define "decodeNormalFieldTempVarAssignFloatCast" -}}
 {{- if .IsFloat32 -}}
-    {{ .FieldName }} = BitConverter.ToSingle(BitConverter.GetBytes({{ .TempName }}), 0);
+    {{ .FieldName }} = global::System.BitConverter.ToSingle(global::System.BitConverter.GetBytes({{ .TempName }}), 0);
 {{- else -}}
-    {{ .FieldName }} = BitConverter.ToDouble(BitConverter.GetBytes({{ .TempName }}), 0);
+    {{ .FieldName }} = global::System.BitConverter.ToDouble(global::System.BitConverter.GetBytes({{ .TempName }}), 0);
 {{- end -}}
 {{- end -}}
 
@@ -2653,10 +2653,10 @@ var fieldDecoderTemplate = `
                 {{ .TyInt }} {{ .TempName }} = offset;
                 {{ if .GenOptions.MemoryCopy -}}
                 while (data[{{ .TempName }} + start + {{ .FromByte }}] != 0) {{ .TempName }}++;
-                {{ .FieldName }} = Encoding.UTF8.GetString(data, offset + start + {{ .FromByte }}, {{ .TempName }} - offset);
+                {{ .FieldName }} = global::System.Text.Encoding.UTF8.GetString(data, offset + start + {{ .FromByte }}, {{ .TempName }} - offset);
                 {{ else -}}
                 while (data[{{ .TempName }} + {{ .FromByte }}] != 0) {{ .TempName }}++;
-                {{ .FieldName }} = Encoding.UTF8.GetString(data.Slice(offset + {{ .FromByte }}, {{ .TempName }} - offset).ToArray());
+                {{ .FieldName }} = global::System.Text.Encoding.UTF8.GetString(data.Slice(offset + {{ .FromByte }}, {{ .TempName }} - offset).ToArray());
                 {{ end -}}
                 offset = {{ .TempName }} + 1;
             }
@@ -2670,7 +2670,7 @@ var fieldDecoderTemplate = `
                 while ((data[offset + start + {{ .FromByte }}] & {{ .SetMask }}) != 0) { {{ .TempName }} |= ({{ .TyInt }})(data[offset + start + {{ .FromByte }}] & {{ .GetMask }}) << shift; shift += {{ .Shift }}; offset++; }
                 {{ .TempName }} |= ({{ .TyInt }})(data[offset + start + {{ .FromByte }}] & {{ .GetMask }}) << shift; offset++;
                 {{ .FieldName }} = new byte[{{ .TempName }}];
-                Array.Copy(data, offset + start + {{ .FromByte }}, {{ .FieldName }}, 0, {{ .TempName }});
+                global::System.Array.Copy(data, offset + start + {{ .FromByte }}, {{ .FieldName }}, 0, {{ .TempName }});
                 {{ else -}}
                 while ((data[offset + {{ .FromByte }}] & {{ .SetMask }}) != 0) { {{ .TempName }} |= ({{ .TyInt }})(data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift; shift += {{ .Shift }}; offset++; }
                 {{ .TempName }} |= ({{ .TyInt }})(data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift; offset++;
@@ -3490,7 +3490,7 @@ func (g CSharpExprGenerator) GenerateBinopExpr(expr *definition.BinopExpr) (stri
 		if err != nil {
 			return "", err
 		}
-		return fmt.Sprintf("Math.Pow(%s, %s)", expr1, expr2), nil
+		return fmt.Sprintf("global::System.Math.Pow(%s, %s)", expr1, expr2), nil
 	default:
 		opStr, ok := exprOpToString[expr.Op]
 		if !ok {
-- 
2.43.0


From 0f659b15f8bb65279d270366c0b1d69e82b9c65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:47 +0000
Subject: [PATCH 48/66] fix: Java hashCode reads the fields of the object

A field named result was hidden by the local variable.
---
 generator/target/java/java.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index f63b86e..c57c85b 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -596,14 +596,14 @@ public final class {{ $structDef.StructName }} {
         {{- $fieldName := TocamelCase $field.FieldName }}
         {{- if $field.FieldType.GetTypeID.IsArray }}
             {{- if $field.FieldType.ElementType.GetTypeID.IsBytes }}
-        result = 31 * result + Arrays.deepHashCode({{ $fieldName }});
+        result = 31 * result + Arrays.deepHashCode(this.{{ $fieldName }});
             {{- else }}
-        result = 31 * result + Arrays.hashCode({{ $fieldName }});
+        result = 31 * result + Arrays.hashCode(this.{{ $fieldName }});
             {{- end }}
         {{- else if $field.FieldType.GetTypeID.IsBytes }}
-        result = 31 * result + Arrays.hashCode({{ $fieldName }});
+        result = 31 * result + Arrays.hashCode(this.{{ $fieldName }});
         {{- else }}
-        result = 31 * result + Objects.hashCode({{ $fieldName }});
+        result = 31 * result + Objects.hashCode(this.{{ $fieldName }});
         {{- end }}
     {{- end }}
     {{- end }}
-- 
2.43.0


From 38f9dd761377d2539a9221ac871ab9b95aba828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:47 +0000
Subject: [PATCH 49/66] fix: C includes stdlib.h in every unit that allocates

The flag was reset per unit, so with -memcpy only the first unit included it.
---
 generator/target/c/c.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 8f00fb9..49cc9fd 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -36,7 +36,6 @@ func NewCGeneratorState() *CGeneratorState {
 func (g *CGeneratorState) Reset() {
 	g.UseMathH = false
 	g.UseStringH = false
-	g.UseStdLibH = false
 	g.UseBytesType = false
 	g.UseBitHelpers = false
 }
-- 
2.43.0


From 1673067a11070e273e45520becee613799d8a9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:47 +0000
Subject: [PATCH 50/66] fix: Python structs without members have a body for
 __init__

A struct of only padding gave an IndentationError.
---
 generator/target/python/python.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 229d4ee..b5ca942 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -403,6 +403,9 @@ class {{ $structDef.StructName }}:
     {{- range $fieldStr := $fieldStrs }}
         {{ $fieldStr }}
     {{- end }}
+    {{- if not .HasMembers }}
+        pass
+    {{- end }}
 
     {{ .StructConstStr }}
     {{- range $methodStr := .MethodStrs }}
@@ -441,12 +444,15 @@ func (g PythonGenerator) GenerateStruct(structDef *definition.Struct) (string, e
 
 func (g PythonGenerator) generateStruct(structDef *definition.Struct) (*GeneratedType, error) {
 	fieldInitStrs := make([]string, structDef.StructFields.Len())
+	hasMembers := false
 	if err := structDef.ForEachFieldWithPos(func(field definition.Field, index int, start int64, dynamic bool, pos string) error {
 		fieldStr, err := g.GenerateField(field)
 		if err != nil {
 			return err
 		}
 
+		hasMembers = hasMembers || fieldStr != ""
+
 		fieldData := map[string]any{
 			"Pos":      pos,
 			"Field":    field,
@@ -517,6 +523,7 @@ func (g PythonGenerator) generateStruct(structDef *definition.Struct) (*Generate
 	defData := map[string]any{
 		"StructDef":      structDef,
 		"FieldStrs":      fieldInitStrs,
+		"HasMembers":     hasMembers,
 		"StructConstStr": constStr,
 		"MethodStrs":     methodStrs,
 		"EncoderStr":     encoderStr,
-- 
2.43.0


From 3de786c81429baaa5cdc3fcf50932295afaac37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 51/66] fix: Kotlin negative float constants compile

---
 generator/target/kotlin/kotlin_encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/target/kotlin/kotlin_encode.go b/generator/target/kotlin/kotlin_encode.go
index 7fe5c59..27f5ca5 100644
--- a/generator/target/kotlin/kotlin_encode.go
+++ b/generator/target/kotlin/kotlin_encode.go
@@ -218,9 +218,9 @@ func (g *KotlinGenerator) basicToULong(ty *definition.BasicType, expr string) st
 	case definition.TypeID_Bool:
 		return "(if (" + expr + ") 1uL else 0uL)"
 	case definition.TypeID_Float32:
-		return "" + expr + ".toRawBits().toUInt().toULong()"
+		return "(" + expr + ").toRawBits().toUInt().toULong()"
 	case definition.TypeID_Float64:
-		return "" + expr + ".toRawBits().toULong()"
+		return "(" + expr + ").toRawBits().toULong()"
 	default:
 		return "(" + expr + ").toULong()"
 	}
-- 
2.43.0


From a67f6126cd9e27899e83c36a69d2d7f374470852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 52/66] fix: Kotlin expressions parenthesise negative constants

---
 generator/target/kotlin/kotlin.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index 2af2ad6..f14ea73 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -525,7 +525,11 @@ func (g *KotlinGenerator) generateExpr(expr definition.Expr, value string) (stri
 	case *definition.RawExpr:
 		return e.Expr, nil
 	case *definition.ConstantExpr:
-		return g.literalForType(e.ConstantValue, e.ConstantType)
+		lit, err := g.literalForType(e.ConstantValue, e.ConstantType)
+		if strings.HasPrefix(lit, "-") {
+			lit = "(" + lit + ")"
+		}
+		return lit, err
 	case *definition.CastExpr:
 		inner, err := g.generateExpr(e.Expr1, value)
 		if err != nil {
-- 
2.43.0


From 10d31d827b3495c494a1d92fd36aa2eccae94596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 53/66] fix: Kotlin equals and hashCode read the fields of the
 object

---
 generator/target/kotlin/kotlin.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index f14ea73..77b5588 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -499,18 +499,18 @@ func (g *KotlinGenerator) generateEqualsHash(s *definition.Struct) string {
 		if f.FieldType.GetTypeID().IsArray() {
 			a := f.FieldType.(*definition.Array)
 			if a.ElementType.GetTypeID().IsBytes() {
-				fmt.Fprintf(&eq, "        if (!%s.contentDeepEquals(other.%s)) return false\n", name, name)
-				fmt.Fprintf(&hash, "        result = 31 * result + %s.contentDeepHashCode()\n", name)
+				fmt.Fprintf(&eq, "        if (!this.%s.contentDeepEquals(other.%s)) return false\n", name, name)
+				fmt.Fprintf(&hash, "        result = 31 * result + this.%s.contentDeepHashCode()\n", name)
 			} else {
-				fmt.Fprintf(&eq, "        if (!%s.contentEquals(other.%s)) return false\n", name, name)
-				fmt.Fprintf(&hash, "        result = 31 * result + %s.contentHashCode()\n", name)
+				fmt.Fprintf(&eq, "        if (!this.%s.contentEquals(other.%s)) return false\n", name, name)
+				fmt.Fprintf(&hash, "        result = 31 * result + this.%s.contentHashCode()\n", name)
 			}
 		} else if f.FieldType.GetTypeID().IsBytes() {
-			fmt.Fprintf(&eq, "        if (!%s.contentEquals(other.%s)) return false\n", name, name)
-			fmt.Fprintf(&hash, "        result = 31 * result + %s.contentHashCode()\n", name)
+			fmt.Fprintf(&eq, "        if (!this.%s.contentEquals(other.%s)) return false\n", name, name)
+			fmt.Fprintf(&hash, "        result = 31 * result + this.%s.contentHashCode()\n", name)
 		} else {
-			fmt.Fprintf(&eq, "        if (%s != other.%s) return false\n", name, name)
-			fmt.Fprintf(&hash, "        result = 31 * result + %s.hashCode()\n", name)
+			fmt.Fprintf(&eq, "        if (this.%s != other.%s) return false\n", name, name)
+			fmt.Fprintf(&hash, "        result = 31 * result + this.%s.hashCode()\n", name)
 		}
 	}
 	eq.WriteString("        return true\n    }\n\n")
-- 
2.43.0


From 5850c74d68c6904288e81cf2c8b62cc3eef9df5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:08 +0000
Subject: [PATCH 54/66] fix: sizes that overflow and enums wider than 64 bits
 are refused

---
 compiler/proto_visitor.go | 55 +++++++++++++++++++++++++++++++++++++++
 definition/struct.go      |  4 +++
 2 files changed, 59 insertions(+)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index 53d4ed3..d91483b 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -2,6 +2,7 @@ package compiler
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/xaxys/bubbler/definition"
 	"github.com/xaxys/bubbler/parser"
@@ -195,6 +196,19 @@ func (v *ProtoVisitor) VisitStructDef(ctx *parser.StructDefContext) any {
 
 	// check struct size
 	fixedSize, dynamic := structDef.SumFieldBitSize()
+	if fixedSize < 0 {
+		return &definition.CompileError{
+			Position: &definition.BasePosition{
+				File:   v.Unit.UnitName.Path,
+				Line:   ctx.StructName().GetStart().GetLine(),
+				Column: ctx.StructName().GetStart().GetColumn(),
+			},
+			Err: &definition.InvalidSizeError{
+				Size: math.MaxInt64,
+				Msg:  "struct size is too large",
+			},
+		}
+	}
 	if fixedSize%8 != 0 {
 		return &definition.CompileError{
 			Position: &definition.BasePosition{
@@ -889,6 +903,19 @@ func (v *ProtoVisitor) VisitSize_(ctx *parser.Size_Context) any {
 			panic("unreachable")
 		}
 	}
+	if bytes > (math.MaxInt64-bits)/8 {
+		return &definition.CompileError{
+			Position: definition.BasePosition{
+				File:   v.Unit.UnitName.Path,
+				Line:   ctx.GetStart().GetLine(),
+				Column: ctx.GetStart().GetColumn(),
+			},
+			Err: &definition.InvalidSizeError{
+				Size: math.MaxInt64,
+				Msg:  "size is too large",
+			},
+		}
+	}
 	total := bytes*8 + bits
 	if total == 0 {
 		return &definition.CompileError{
@@ -2064,6 +2091,20 @@ func (v *ProtoVisitor) VisitArrayType(ctx *parser.ArrayTypeContext) any {
 		}
 	}
 
+	if elemSize := base.GetTypeBitSize(); elemSize > 0 && length > math.MaxInt64/elemSize {
+		return &definition.CompileError{
+			Position: definition.BasePosition{
+				File:   v.Unit.UnitName.Path,
+				Line:   ctx.IntLit().GetStart().GetLine(),
+				Column: ctx.IntLit().GetStart().GetColumn(),
+			},
+			Err: &definition.InvalidSizeError{
+				Size: length,
+				Msg:  "array size is too large",
+			},
+		}
+	}
+
 	arrayDef := &definition.Array{
 		ElementType: base,
 		Length:      length,
@@ -2227,6 +2268,20 @@ func (v *ProtoVisitor) VisitEnumDef(ctx *parser.EnumDefContext) any {
 		panic("unreachable")
 	}
 
+	if size > 64 {
+		return &definition.CompileError{
+			Position: definition.BasePosition{
+				File:   v.Unit.UnitName.Path,
+				Line:   ctx.Size_().GetStart().GetLine(),
+				Column: ctx.Size_().GetStart().GetColumn(),
+			},
+			Err: &definition.InvalidSizeError{
+				Size: size,
+				Msg:  "enum size cannot be greater than 64 bits",
+			},
+		}
+	}
+
 	body := ctx.EnumBody().Accept(v)
 	var values *util.OrderedMap[string, *definition.EnumValue]
 	switch val := body.(type) {
diff --git a/definition/struct.go b/definition/struct.go
index d297678..4b71d62 100644
--- a/definition/struct.go
+++ b/definition/struct.go
@@ -92,6 +92,10 @@ func (s *Struct) SumFieldBitSize() (fixedSize int64, hasDynamic bool) {
 		}
 		if field.GetFieldBitSize() > 0 {
 			sum += field.GetFieldBitSize()
+			if sum < 0 {
+				// the sum does not fit in 64 bits
+				return -1, dynamic
+			}
 		}
 	}
 	return sum, dynamic
-- 
2.43.0


From 1ba0c4d230694ecef9755d97f0e1ac61a3b5a606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:09 +0000
Subject: [PATCH 55/66] fix: a type name that is not capitalised is refused
 without a panic

---
 compiler/proto_visitor.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index d91483b..b26f67e 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -2156,7 +2156,15 @@ func (v *ProtoVisitor) VisitStructType(ctx *parser.StructTypeContext) any {
 		return ctx.StructDef().Accept(v)
 	}
 	if ctx.StructName() != nil {
-		name := ctx.StructName().Accept(v).(string)
+		name := ""
+		switch val := ctx.StructName().Accept(v).(type) {
+		case error:
+			return val
+		case string:
+			name = val
+		default:
+			panic("unreachable")
+		}
 		if !v.Unit.GlobalTypes.Has(name) {
 			pos := definition.BasePosition{
 				File:   v.Unit.UnitName.Path,
@@ -2194,7 +2202,15 @@ func (v *ProtoVisitor) VisitStructType(ctx *parser.StructTypeContext) any {
 
 func (v *ProtoVisitor) VisitEnumType(ctx *parser.EnumTypeContext) any {
 	if ctx.EnumName() != nil {
-		name := ctx.EnumName().Accept(v).(string)
+		name := ""
+		switch val := ctx.EnumName().Accept(v).(type) {
+		case error:
+			return val
+		case string:
+			name = val
+		default:
+			panic("unreachable")
+		}
 		if !v.Unit.GlobalTypes.Has(name) {
 			pos := definition.BasePosition{
 				File:   v.Unit.UnitName.Path,
-- 
2.43.0


From 0892d6bac5c026fc0c7e08c55ada5d19eec4a3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:09 +0000
Subject: [PATCH 56/66] fix: Java enums hold numbers above 31 bits and shared
 numbers

---
 generator/target/java/java.go | 73 ++++++++++++++++++++++++++++++-----
 1 file changed, 64 insertions(+), 9 deletions(-)

diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index c57c85b..470554e 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1114,13 +1114,13 @@ var enumTemplate = `
 // Enum: {{ .EnumDef.ShortString }}
 public enum {{ .EnumDef.EnumName }} {
     {{- range .EnumDef.EnumValues.Values }}
-    {{ .EnumValueName }}({{ .EnumValue }}),
+    {{ .EnumValueName }}({{ Number .EnumValue }}),
     {{- end }}
     ;
 
-    private final int value;
+    private final {{ .NumberType }} value;
 
-    public final int getNumber() {
+    public final {{ .NumberType }} getNumber() {
         return value;
     }
 
@@ -1135,6 +1135,12 @@ public enum {{ .EnumDef.EnumName }} {
     public static {{ .EnumDef.EnumName }} valueOf(int value) {
         return forNumber(value);
     }
+{{- if .Wide }}
+
+    public static {{ .EnumDef.EnumName }} valueOf(long value) {
+        return forNumber(value);
+    }
+{{- end }}
 
     public static {{ .EnumDef.EnumName }} forNumber(byte value) {
         return forNumber(Byte.toUnsignedInt(value));
@@ -1143,17 +1149,29 @@ public enum {{ .EnumDef.EnumName }} {
     public static {{ .EnumDef.EnumName }} forNumber(short value) {
         return forNumber(Short.toUnsignedInt(value));
     }
+{{ if .Wide }}
+    public static {{ .EnumDef.EnumName }} forNumber(int value) {
+        return forNumber(Integer.toUnsignedLong(value));
+    }
 
+    public static {{ .EnumDef.EnumName }} forNumber(long value) {
+        {{- range .Distinct }}
+        if (value == {{ Number .EnumValue }}) return {{ .EnumValueName }};
+        {{- end }}
+        return null;
+    }
+{{- else }}
     public static {{ .EnumDef.EnumName }} forNumber(int value) {
         switch (value) {
-        {{- range .EnumDef.EnumValues.Values }}
-            case {{ .EnumValue }}: return {{ .EnumValueName }};
+        {{- range .Distinct }}
+            case {{ Number .EnumValue }}: return {{ .EnumValueName }};
         {{- end }}
             default: return null;
         }
     }
+{{- end }}
 
-    private {{ .EnumDef.EnumName }}(int value) {
+    private {{ .EnumDef.EnumName }}({{ .NumberType }} value) {
         this.value = value;
     }
 }
@@ -1161,11 +1179,44 @@ public enum {{ .EnumDef.EnumName }} {
 `
 
 func (g JavaGenerator) generateEnum(enumDef *definition.Enum) (*GeneratedType, error) {
+	// numbers above 32 bits are held in a long
+	wide := enumDef.EnumBitSize > 32
+	numberType := "int"
+	if wide {
+		numberType = "long"
+	}
+
+	// enumerators may share a number, the first one stands for it
+	seen := map[int64]bool{}
+	var distinct []*definition.EnumValue
+	for _, value := range enumDef.EnumValues.Values() {
+		if !seen[value.EnumValue] {
+			seen[value.EnumValue] = true
+			distinct = append(distinct, value)
+		}
+	}
+
+	funcMap := map[string]any{
+		"Number": func(value int64) string {
+			switch {
+			case wide:
+				return fmt.Sprintf("%dL", value)
+			case value > math.MaxInt32:
+				return fmt.Sprintf("(int)%dL", value)
+			default:
+				return fmt.Sprintf("%d", value)
+			}
+		},
+	}
+
 	enumDefData := map[string]any{
-		"EnumDef": enumDef,
+		"EnumDef":    enumDef,
+		"Distinct":   distinct,
+		"Wide":       wide,
+		"NumberType": numberType,
 	}
 
-	enumDefStr := util.ExecuteTemplate(enumTemplate, "enumDef", nil, enumDefData)
+	enumDefStr := util.ExecuteTemplate(enumTemplate, "enumDef", funcMap, enumDefData)
 
 	code := &GeneratedType{
 		GeneratedDef: enumDefStr,
@@ -2741,7 +2792,11 @@ func (g JavaGenerator) generateDecodeNormalField(field *definition.NormalField,
 			case *definition.Enum:
 				g.GenState.UseBitHelpers = true
 				// `EnumName.forNumber(int)` is an API call; cast `(int)_v` is a basic-type cast.
-				common["Expr"] = fmt.Sprintf("%s.forNumber(%s)", elemTyT.EnumName, g.generateCastExpr(&definition.Int32, "_v"))
+				numTy := &definition.Int32
+				if elemTyT.EnumBitSize > 32 {
+					numTy = &definition.Int64
+				}
+				common["Expr"] = fmt.Sprintf("%s.forNumber(%s)", elemTyT.EnumName, g.generateCastExpr(numTy, "_v"))
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopBasic", nil, common)
 			default:
 				return nil, fmt.Errorf("internal error: unsupported fixed-element array type %T", ty.ElementType)
-- 
2.43.0


From a5f22c15e3e69b0720644577a74d795b355058c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:10 +0000
Subject: [PATCH 57/66] fix: C# Equals and GetHashCode compare bytes by content

---
 generator/target/csharp/csharp.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index ac59e9e..db64664 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -631,13 +631,22 @@ var structTemplate = `
             if (obj == null) return false;
             if (this.GetType() != obj.GetType()) return false;
             {{ $structDef.StructName }} other = ({{ $structDef.StructName }})obj;
+        {{- $span := ".Span" }}
+        {{- if .GenOptions.MemoryCopy }}{{ $span = ".AsSpan()" }}{{ end }}
         {{- range $field := $structDef.StructFields.Values }}
         {{- if $field.GetFieldKind.IsNormal }}
             {{- $fieldName := TocamelCase $field.FieldName }}
             {{- if $field.FieldType.GetTypeID.IsBasic }}
             if (this.{{ $fieldName }} != other.{{ $fieldName }}) return false;
+            {{- else if $field.FieldType.GetTypeID.IsBytes }}
+            if (!this.{{ $fieldName }}{{ $span }}.SequenceEqual(other.{{ $fieldName }}{{ $span }})) return false;
             {{- else if $field.FieldType.GetTypeID.IsArray }}
+            {{- if $field.FieldType.ElementType.GetTypeID.IsBytes }}
+            if (this.{{ $fieldName }}.Length != other.{{ $fieldName }}.Length) return false;
+            if (this.{{ $fieldName }}.Where((v, i) => !v{{ $span }}.SequenceEqual(other.{{ $fieldName }}[i]{{ $span }})).Any()) return false;
+            {{- else }}
             if (!global::System.Linq.Enumerable.SequenceEqual(this.{{ $fieldName }}, other.{{ $fieldName }})) return false;
+            {{- end }}
             {{- else }}
             if (!Object.Equals(this.{{ $fieldName }}, other.{{ $fieldName }})) return false;
             {{- end }}
@@ -649,14 +658,14 @@ var structTemplate = `
         public override int GetHashCode()
         {
             int result = 17;
-        {{- $memoryCopy := .GenOptions.MemoryCopy }}
         {{- range $field := $structDef.StructFields.Values }}
         {{- if $field.GetFieldKind.IsNormal }}
             {{- $fieldName := TocamelCase $field.FieldName }}
             {{- $isBasicOrEnum := or $field.FieldType.GetTypeID.IsBasic $field.FieldType.GetTypeID.IsEnum }}
-            {{- $isMemory := and $field.FieldType.GetTypeID.IsBytes ( not $memoryCopy ) }}
-            {{- if and ( not $isBasicOrEnum ) ( not $isMemory ) }}
-            result = result * 31 + (this.{{ $fieldName }} != null ? {{ if $field.FieldType.GetTypeID.IsArray }}this.{{ $fieldName }}.Aggregate(0, (a, v) => a * 31 + v.GetHashCode()){{ else }}this.{{ $fieldName }}.GetHashCode(){{ end }} : 0);
+            {{- if $field.FieldType.GetTypeID.IsBytes }}
+            result = result * 31 + this.{{ $fieldName }}{{ $span }}.ToArray().Aggregate(0, (a, v) => a * 31 + v);
+            {{- else if not $isBasicOrEnum }}
+            result = result * 31 + (this.{{ $fieldName }} != null ? {{ if $field.FieldType.GetTypeID.IsArray }}this.{{ $fieldName }}.Aggregate(0, (a, v) => {{ if $field.FieldType.ElementType.GetTypeID.IsBytes }}v{{ $span }}.ToArray().Aggregate(a, (b, w) => b * 31 + w){{ else }}a * 31 + v.GetHashCode(){{ end }}){{ else }}this.{{ $fieldName }}.GetHashCode(){{ end }} : 0);
             {{- else }}
             result = result * 31 + {{ if $field.FieldType.GetTypeID.IsArray }}this.{{ $fieldName }}.Aggregate(0, (a, v) => a * 31 + v.GetHashCode()){{ else }}this.{{ $fieldName }}.GetHashCode(){{ end }};
             {{- end }}
-- 
2.43.0


From d8716afdfdd4d30b8a503c5f16e8ccc9ba6dcca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:11 +0000
Subject: [PATCH 58/66] fix: C# enums hold numbers above 31 bits

---
 generator/target/csharp/csharp.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index db64664..8c86af2 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -1105,7 +1105,7 @@ func (g CSharpGenerator) GenerateEnum(enumDef *definition.Enum) (string, error)
 var enumTemplate = `
 {{- define "enumDef" -}}
     // Enum: {{ .EnumDef.ShortString }}
-    public enum {{ .EnumDef.EnumName }}
+    public enum {{ .EnumDef.EnumName }}{{ .Base }}
     {
         {{- range .EnumDef.EnumValues.Values }}
         {{ .EnumValueName }} = {{ .EnumValue }},
@@ -1115,8 +1115,17 @@ var enumTemplate = `
 `
 
 func (g CSharpGenerator) generateEnum(enumDef *definition.Enum) (*GeneratedType, error) {
+	// the underlying type is int unless the numbers need more
+	base := ""
+	if enumDef.EnumBitSize > 32 {
+		base = " : ulong"
+	} else if enumDef.EnumBitSize == 32 {
+		base = " : uint"
+	}
+
 	enumDefData := map[string]any{
 		"EnumDef": enumDef,
+		"Base":    base,
 	}
 
 	enumDefStr := util.ExecuteTemplate(enumTemplate, "enumDef", nil, enumDefData)
-- 
2.43.0


From 4c8e5dbc55a91d0ea0468b76a956b832a12ef368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:12 +0000
Subject: [PATCH 59/66] fix: JavaScript enums above 32 bits are read and
 written whole

---
 generator/target/commonjs/commonjs.go | 29 ++++++++++++++++++---------
 generator/target/esm/esm.go           |  9 +++++++++
 generator/target/esm/esm_decode.go    |  6 +++---
 generator/target/esm/esm_encode.go    | 14 ++++++-------
 4 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 32503f8..4ef84e5 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -1674,6 +1674,15 @@ var enumTemplate = `
 {{- end -}}
 `
 
+// enumTempType is the type the number of an enum is read and written with,
+// numbers above 32 bits need BigInt arithmetic.
+func enumTempType(enumDef *definition.Enum) *definition.BasicType {
+	if enumDef.EnumBitSize > 32 {
+		return &definition.Uint64
+	}
+	return &definition.Uint32
+}
+
 func (g CommonJSGenerator) generateEnum(enumDef *definition.Enum) (*GeneratedType, error) {
 	enumDefData := map[string]any{
 		"EnumDef": enumDef,
@@ -1932,9 +1941,9 @@ var fieldEncoderTemplate = `
 {{- define "encodeNormalFieldTempVarDeclEnum" -}}
 {{- $inPackage := .FieldDef.FieldBelongs.StructBelongs.LocalNames.Has .EnumDef.EnumName -}}
 {{- if not $inPackage -}}
-    var {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : $root.{{ .EnumDef.EnumBelongs.Package }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    var {{ .TempName }} = {{ if gt .EnumDef.EnumBitSize 32 }}BigInt({{ end }}(typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : $root.{{ .EnumDef.EnumBelongs.Package }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}]{{ if gt .EnumDef.EnumBitSize 32 }} || 0){{ end }};
 {{- else -}}
-    var {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : $package.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    var {{ .TempName }} = {{ if gt .EnumDef.EnumBitSize 32 }}BigInt({{ end }}(typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : $package.{{ .EnumDef.EnumName }}[{{ .FieldName }}]{{ if gt .EnumDef.EnumBitSize 32 }} || 0){{ end }};
 {{- end -}}
 {{- end -}}
 
@@ -1953,9 +1962,9 @@ var fieldEncoderTemplate = `
 {{- define "encodeNormalFieldTempVarAssignEnum" -}}
 {{- $inPackage := .FieldDef.FieldBelongs.StructBelongs.LocalNames.Has .EnumDef.EnumName -}}
 {{- if not $inPackage -}}
-    {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : $root.{{ .EnumDef.EnumBelongs.Package }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    {{ .TempName }} = {{ if gt .EnumDef.EnumBitSize 32 }}BigInt({{ end }}(typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : $root.{{ .EnumDef.EnumBelongs.Package }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}]{{ if gt .EnumDef.EnumBitSize 32 }} || 0){{ end }};
 {{- else -}}
-    {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : $package.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    {{ .TempName }} = {{ if gt .EnumDef.EnumBitSize 32 }}BigInt({{ end }}(typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : $package.{{ .EnumDef.EnumName }}[{{ .FieldName }}]{{ if gt .EnumDef.EnumBitSize 32 }} || 0){{ end }};
 {{- end -}}
 {{- end -}}
 
@@ -2104,7 +2113,7 @@ func (g CommonJSGenerator) generateEncodeNormalField(field *definition.NormalFie
 	case *definition.Enum:
 		tempName := g.generateEncodeTempVarName(startBits)
 		// any integer type is ok (except 64-bit)
-		tempTy := &definition.Uint32
+		tempTy := enumTempType(ty)
 
 		encodeNormalFieldTempVarDeclData := map[string]any{
 			"EnumDef":   ty,
@@ -2154,7 +2163,7 @@ func (g CommonJSGenerator) generateEncodeNormalField(field *definition.NormalFie
 				declStr := util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarDeclOnly", nil, encodeNormalFieldTempVarDeclOnlyData)
 				loopStmts = append(loopStmts, declStr)
 
-				elemTy = &definition.Uint32
+				elemTy = enumTempType(ty.ElementType.(*definition.Enum))
 			default:
 			}
 
@@ -2307,7 +2316,7 @@ func (g CommonJSGenerator) generateEncodeNormalField(field *definition.NormalFie
 				}
 
 				// change elemTy to any integer type (except 64-bit)
-				elemTy = &definition.Uint32
+				elemTy = enumTempType(ty.ElementType.(*definition.Enum))
 			default:
 				return nil, fmt.Errorf("internal error: unsupported array element type %T", ty.ElementType)
 			}
@@ -3151,7 +3160,7 @@ func (g CommonJSGenerator) generateDecodeNormalField(field *definition.NormalFie
 
 	case *definition.Enum:
 		// any integer type is ok (except 64-bit)
-		tempTy := &definition.Uint32
+		tempTy := enumTempType(ty)
 		tempName := g.generateDecodeTempVarName(startBits)
 
 		decodeNormalFieldTempVarDeclOnlyData := map[string]any{
@@ -3209,7 +3218,7 @@ func (g CommonJSGenerator) generateDecodeNormalField(field *definition.NormalFie
 				declStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, decodeNormalFieldTempVarDeclOnly)
 				loopStmts = append(loopStmts, declStr)
 
-				elemTy = &definition.Uint32
+				elemTy = enumTempType(ty.ElementType.(*definition.Enum))
 			default:
 			}
 
@@ -3339,7 +3348,7 @@ func (g CommonJSGenerator) generateDecodeNormalField(field *definition.NormalFie
 				}
 
 				// change elemTy to any integer type (except 64-bit)
-				elemTy = &definition.Uint32
+				elemTy = enumTempType(ty.ElementType.(*definition.Enum))
 			default:
 				return nil, fmt.Errorf("internal error: unsupported array element type %T", ty.ElementType)
 			}
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index cd57c72..3969a8a 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -1472,6 +1472,15 @@ return values;
 {{- end -}}
 `
 
+// enumTempType is the type the number of an enum is read and written with,
+// numbers above 32 bits need BigInt arithmetic.
+func enumTempType(enumDef *definition.Enum) *definition.BasicType {
+	if enumDef.EnumBitSize > 32 {
+		return &definition.Uint64
+	}
+	return &definition.Uint32
+}
+
 func (g ESModuleGenerator) generateEnum(enumDef *definition.Enum) (*GeneratedType, error) {
 	enumDefData := map[string]any{"EnumDef": enumDef}
 	enumDefStr := util.ExecuteTemplate(enumTemplate, "enumDef", nil, enumDefData)
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index d2b0c83..2861179 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -515,7 +515,7 @@ func (g ESModuleGenerator) generateDecodeNormalField(field *definition.NormalFie
 		}
 
 	case *definition.Enum:
-		tempTy := &definition.Uint32
+		tempTy := enumTempType(ty)
 		tempName := g.generateDecodeTempVarName(startBits)
 		decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, map[string]any{"TempName": tempName}))
 		stmts, err := g.generateDecodeNormalFieldImpl(tempName, tempTy, field.FieldOptions, structDynamic, from, to)
@@ -555,7 +555,7 @@ func (g ESModuleGenerator) generateDecodeNormalField(field *definition.NormalFie
 				tempName := g.generateDecodeTempVarName(startBits)
 				decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, map[string]any{"TempName": tempName}))
 				nameIndex = func(_ int64) string { return tempName }
-				elemTy = &definition.Uint32
+				elemTy = enumTempType(ty.ElementType.(*definition.Enum))
 			default:
 				return nil, fmt.Errorf("internal error: unsupported array element type %T", ty.ElementType)
 			}
@@ -653,7 +653,7 @@ func (g ESModuleGenerator) generateDecodeNormalField(field *definition.NormalFie
 				tempName := g.generateDecodeTempVarName(startBits)
 				decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, map[string]any{"TempName": tempName}))
 				nameIndex = func(_ int64) string { return tempName }
-				elemTy = &definition.Uint32
+				elemTy = enumTempType(ty.ElementType.(*definition.Enum))
 			default:
 				return nil, fmt.Errorf("internal error: unsupported array element type %T", ty.ElementType)
 			}
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index 4c9ede9..b4fd857 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -232,9 +232,9 @@ var fieldEncoderTemplate = `
 {{- define "encodeNormalFieldTempVarDeclEnum" -}}
 {{- $inPackage := .FieldDef.FieldBelongs.StructBelongs.LocalNames.Has .EnumDef.EnumName -}}
 {{- if or .SingleFile $inPackage -}}
-    const {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : {{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    const {{ .TempName }} = {{ if gt .EnumDef.EnumBitSize 32 }}BigInt({{ end }}(typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : {{ .EnumDef.EnumName }}[{{ .FieldName }}]{{ if gt .EnumDef.EnumBitSize 32 }} || 0){{ end }};
 {{- else -}}
-    const {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    const {{ .TempName }} = {{ if gt .EnumDef.EnumBitSize 32 }}BigInt({{ end }}(typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}]{{ if gt .EnumDef.EnumBitSize 32 }} || 0){{ end }};
 {{- end -}}
 {{- end -}}
 
@@ -253,9 +253,9 @@ var fieldEncoderTemplate = `
 {{- define "encodeNormalFieldTempVarAssignEnum" -}}
 {{- $inPackage := .FieldDef.FieldBelongs.StructBelongs.LocalNames.Has .EnumDef.EnumName -}}
 {{- if or .SingleFile $inPackage -}}
-    {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : {{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    {{ .TempName }} = {{ if gt .EnumDef.EnumBitSize 32 }}BigInt({{ end }}(typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : {{ .EnumDef.EnumName }}[{{ .FieldName }}]{{ if gt .EnumDef.EnumBitSize 32 }} || 0){{ end }};
 {{- else -}}
-    {{ .TempName }} = (typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}];
+    {{ .TempName }} = {{ if gt .EnumDef.EnumBitSize 32 }}BigInt({{ end }}(typeof {{ .FieldName }} === "number") ? {{ .FieldName }} : ${{ .EnumDef.EnumBelongs.Package.ToPath "$" "" }}.{{ .EnumDef.EnumName }}[{{ .FieldName }}]{{ if gt .EnumDef.EnumBitSize 32 }} || 0){{ end }};
 {{- end -}}
 {{- end -}}
 
@@ -381,7 +381,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 
 	case *definition.Enum:
 		tempName := g.generateEncodeTempVarName(startBits)
-		tempTy := &definition.Uint32
+		tempTy := enumTempType(ty)
 		declStr := util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarDeclEnum", nil, map[string]any{
 			"EnumDef": ty, "TempName": tempName, "FieldName": g.generateEncodeStructFieldName(field.FieldName), "FieldDef": field,
 			"SingleFile": g.GenCtx.GenOptions.SingleFile,
@@ -420,7 +420,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 				tempName := g.generateEncodeTempVarName(startBits)
 				encodeStmts = append(encodeStmts, util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarDeclOnly", nil, map[string]any{"TempName": tempName}))
 				nameIndex = func(_ int64) string { return tempName }
-				elemTy = &definition.Uint32
+				elemTy = enumTempType(ty.ElementType.(*definition.Enum))
 			default:
 				return nil, fmt.Errorf("internal error: unsupported array element type %T", ty.ElementType)
 			}
@@ -531,7 +531,7 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 				tempName := g.generateEncodeTempVarName(startBits)
 				encodeStmts = append(encodeStmts, util.ExecuteTemplate(fieldEncoderTemplate, "encodeNormalFieldTempVarDeclOnly", nil, map[string]any{"TempName": tempName}))
 				nameIndex = func(_ int64) string { return tempName }
-				elemTy = &definition.Uint32
+				elemTy = enumTempType(ty.ElementType.(*definition.Enum))
 			default:
 				return nil, fmt.Errorf("internal error: unsupported array element type %T", ty.ElementType)
 			}
-- 
2.43.0


From 4cfcefb0c3dcc7511b1f44c2b32ecc90beb28a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:14 +0000
Subject: [PATCH 60/66] fix: nothing is written when generation is refused

---
 generator/gen/gen_ctx.go | 55 ++++++++++++++++++++++++++--------------
 generator/generator.go   |  3 +++
 main.go                  |  3 +++
 3 files changed, 42 insertions(+), 19 deletions(-)

diff --git a/generator/gen/gen_ctx.go b/generator/gen/gen_ctx.go
index e703aae..e5b9966 100644
--- a/generator/gen/gen_ctx.go
+++ b/generator/gen/gen_ctx.go
@@ -13,6 +13,39 @@ type GenCtx struct {
 	Units      []*definition.CompilationUnit
 	GenOptions *GenOptions
 	OutputPath string
+
+	outputs []outputFile
+}
+
+// outputFile is generated text that waits for the end of the generation.
+type outputFile struct {
+	path string // empty: standard output
+	text string
+}
+
+// Flush writes what has been generated. It is called once the generation has
+// succeeded, so that a refused schema leaves nothing behind.
+func (ctx *GenCtx) Flush() error {
+	outputs := ctx.outputs
+	ctx.outputs = nil
+	for _, output := range outputs {
+		if output.path == "" {
+			fmt.Print(output.text)
+			continue
+		}
+
+		id, err := fileio.GetFileIdentifer(output.path)
+		if err != nil {
+			return err
+		}
+
+		err = fileio.WriteFileContent(id, output.text)
+		if err != nil {
+			return err
+		}
+	}
+
+	return nil
 }
 
 func normalizeGeneratedIndent(text string) string {
@@ -43,8 +76,7 @@ func normalizeGeneratedIndent(text string) string {
 func (ctx *GenCtx) WritePackage(pkg *definition.Package, ext string, text string) error {
 	text = normalizeGeneratedIndent(text)
 	if ctx.OutputPath == "" {
-		fmt.Print(text)
-		return nil
+		return ctx.WriteFileAbs("", text)
 	}
 
 	file := pkg.ToFilePath(ext)
@@ -63,8 +95,7 @@ func (ctx *GenCtx) WriteFile(file string, text string) error {
 		}
 	}
 	if ctx.OutputPath == "" {
-		fmt.Print(text)
-		return nil
+		return ctx.WriteFileAbs("", text)
 	}
 	path := filepath.Join(ctx.OutputPath, file)
 	return ctx.WriteFileAbs(path, text)
@@ -72,20 +103,6 @@ func (ctx *GenCtx) WriteFile(file string, text string) error {
 
 func (ctx *GenCtx) WriteFileAbs(path string, text string) error {
 	text = normalizeGeneratedIndent(text)
-	if path == "" {
-		fmt.Print(text)
-		return nil
-	}
-
-	id, err := fileio.GetFileIdentifer(path)
-	if err != nil {
-		return err
-	}
-
-	err = fileio.WriteFileContent(id, text)
-	if err != nil {
-		return err
-	}
-
+	ctx.outputs = append(ctx.outputs, outputFile{path: path, text: text})
 	return nil
 }
diff --git a/generator/generator.go b/generator/generator.go
index 277b57a..382df17 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -112,6 +112,9 @@ func Generate(target string, output string, options *gen.GenOptions, units ...*d
 	}
 
 	err, warning := generator.Generate(ctx)
+	if err == nil {
+		err = ctx.Flush()
+	}
 
 	return err, warning
 }
diff --git a/main.go b/main.go
index 22d4ecd..62713cb 100644
--- a/main.go
+++ b/main.go
@@ -208,6 +208,9 @@ func main() {
 	if warning != nil {
 		fmt.Fprintln(os.Stderr, warning)
 	}
+	if err == nil {
+		err = ctx.Flush()
+	}
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
 		os.Exit(1)
-- 
2.43.0


From 109bc27658c701704103b1b42de541c82ca6f489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:02 +0000
Subject: [PATCH 61/66] fix: Java and C# accessors convert their result to the
 declared type

---
 generator/target/csharp/csharp.go | 15 +++++++++++++--
 generator/target/java/java.go     | 16 ++++++++++++++--
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 8c86af2..ff6b1d1 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -93,6 +93,16 @@ func (g *CSharpGenerator) generateCastExpr(toType *definition.BasicType, exprStr
 	return s
 }
 
+// convertExpr casts the expression of a custom accessor to the type it is
+// returned or stored as, C# narrows no value implicitly.
+func (g CSharpGenerator) convertExpr(expr definition.Expr, toType definition.Type) definition.Expr {
+	basic, ok := toType.(*definition.BasicType)
+	if !ok || basic.GetTypeID().IsBool() {
+		return expr
+	}
+	return &definition.CastExpr{ToType: basic, Expr1: expr}
+}
+
 // decodeBasicValueExpr returns the C# expression that converts the helper's
 // `_v` (ulong) into the field's element type. Sign-extension goes through the
 // intSignExt* templates so the conversion patterns are colocated.
@@ -992,11 +1002,11 @@ var customGetterSetterTemplate = `
         {
             {{- if .GetMethod }}
             {{- $valueStr := printf "this.%s" $fieldName }}
-            {{- $exprStr := GenerateExpr .GetMethod.MethodExpr $valueStr }}
+            {{- $exprStr := GenerateExpr (ConvertExpr .GetMethod.MethodExpr .MethodType) $valueStr }}
             get => {{ $exprStr }};
             {{- end }}
             {{- if .SetMethod }}
-            {{- $exprStr := GenerateExpr .SetMethod.MethodExpr "value" }}
+            {{- $exprStr := GenerateExpr (ConvertExpr .SetMethod.MethodExpr $field.FieldType) "value" }}
             set => this.{{ $fieldName }} = {{ $exprStr }};
             {{- end }}
         }
@@ -1022,6 +1032,7 @@ func (g CSharpGenerator) GenerateCustomGetterSetter(group *util.OrderedMap[defin
 	funcMap := template.FuncMap{
 		"GenerateType": g.GenerateType,
 		"GenerateExpr": g.GenerateExpr,
+		"ConvertExpr":  g.convertExpr,
 	}
 
 	fieldData := map[string]any{
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 470554e..f6c245b 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -94,6 +94,16 @@ func (g *JavaGenerator) generateCastExpr(toType *definition.BasicType, exprStr s
 	return s
 }
 
+// convertExpr casts the expression of a custom accessor to the type it is
+// returned or stored as, Java narrows no value implicitly.
+func (g JavaGenerator) convertExpr(expr definition.Expr, toType definition.Type) definition.Expr {
+	basic, ok := toType.(*definition.BasicType)
+	if !ok || basic.GetTypeID().IsBool() {
+		return expr
+	}
+	return &definition.CastExpr{ToType: basic, Expr1: expr}
+}
+
 // decodeBasicValueExpr returns the Java expression that converts the helper's
 // `_v` (long) into the field's element type. Sign-extension goes through the
 // intSignExt* templates so the conversion patterns are colocated.
@@ -930,7 +940,7 @@ var customGetterTemplate = `
 {{- $fieldName := TocamelCase $field.FieldName -}}
 {{- $methodName := ToPascalCase .MethodDef.MethodName -}}
 {{- $valueStr := printf "this.%s" $fieldName -}}
-{{- $exprStr := GenerateExpr .MethodDef.MethodExpr $valueStr -}}
+{{- $exprStr := GenerateExpr (ConvertExpr .MethodDef.MethodExpr .MethodDef.MethodRetType) $valueStr -}}
     // CustomGetter: {{ $methodName }}
     public {{ $retTyStr }} get{{ $methodName }}() {
         return {{ $exprStr }};
@@ -942,6 +952,7 @@ func (g JavaGenerator) GenerateCustomGetter(method *definition.GetMethod) (strin
 	funcMap := template.FuncMap{
 		"GenerateType": g.GenerateType,
 		"GenerateExpr": g.GenerateExpr,
+		"ConvertExpr":  g.convertExpr,
 	}
 
 	fieldData := map[string]any{
@@ -960,7 +971,7 @@ var customSetterTemplate = `
 {{- $field := .MethodDef.MethodBelongs -}}
 {{- $fieldName := TocamelCase $field.FieldName -}}
 {{- $methodName := ToPascalCase .MethodDef.MethodName -}}
-{{- $exprStr := GenerateExpr .MethodDef.MethodExpr "value" -}}
+{{- $exprStr := GenerateExpr (ConvertExpr .MethodDef.MethodExpr $field.FieldType) "value" -}}
     // CustomSetter: {{ $methodName }}
     public void set{{ $methodName }}({{ $paramTyStr }} value) {
         this.{{ $fieldName }} = {{ $exprStr }};
@@ -972,6 +983,7 @@ func (g JavaGenerator) GenerateCustomSetter(method *definition.SetMethod) (strin
 	funcMap := template.FuncMap{
 		"GenerateType": g.GenerateType,
 		"GenerateExpr": g.GenerateExpr,
+		"ConvertExpr":  g.convertExpr,
 	}
 
 	fieldData := map[string]any{
-- 
2.43.0


From a1263c8e37b9673ddb6f6f1e77feab7ffeb61f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:22 +0000
Subject: [PATCH 62/66] fix: Go and Kotlin accessors convert their result to
 the declared type

---
 generator/target/golang/golang.go | 14 ++++++++++++--
 generator/target/kotlin/kotlin.go | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 016120f..f7c508e 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -984,10 +984,20 @@ func (this {{ $structName }}) Get{{ $methodName }}() {{ $retTyStr }} {
 {{- end -}}
 `
 
+// convertExpr casts the expression of a custom accessor to the type it is
+// returned or stored as, Go converts no value implicitly.
+func (g GoGenerator) convertExpr(expr definition.Expr, toType definition.Type) definition.Expr {
+	basic, ok := toType.(*definition.BasicType)
+	if !ok || basic.GetTypeID().IsBool() {
+		return expr
+	}
+	return &definition.CastExpr{ToType: basic, Expr1: expr}
+}
+
 func (g GoGenerator) GenerateCustomGetter(method *definition.GetMethod) (string, error) {
 	fieldName := util.ToPascalCase(method.MethodBelongs.FieldName)
 	valueStr := fmt.Sprintf("this.%s", fieldName)
-	exprStr, err := g.GenerateExpr(method.MethodExpr, valueStr)
+	exprStr, err := g.GenerateExpr(g.convertExpr(method.MethodExpr, method.MethodRetType), valueStr)
 	if err != nil {
 		return "", err
 	}
@@ -1024,7 +1034,7 @@ func (this *{{ $structName }}) Set{{ $methodName }}(value {{ $paramTyStr }}) {
 `
 
 func (g GoGenerator) GenerateCustomSetter(method *definition.SetMethod) (string, error) {
-	exprStr, err := g.GenerateExpr(method.MethodExpr, "value")
+	exprStr, err := g.GenerateExpr(g.convertExpr(method.MethodExpr, method.MethodBelongs.FieldType), "value")
 	if err != nil {
 		return "", err
 	}
diff --git a/generator/target/kotlin/kotlin.go b/generator/target/kotlin/kotlin.go
index 77b5588..4d91e28 100644
--- a/generator/target/kotlin/kotlin.go
+++ b/generator/target/kotlin/kotlin.go
@@ -459,7 +459,7 @@ func (g *KotlinGenerator) generateCustomProperties(s *definition.Struct) (string
 			if err != nil {
 				return "", err
 			}
-			expr, err := g.generateExpr(getter.MethodExpr, "this."+util.TocamelCase(f.FieldName))
+			expr, err := g.generateExpr(g.convertExpr(getter.MethodExpr, getter.MethodRetType), "this."+util.TocamelCase(f.FieldName))
 			if err != nil {
 				return "", err
 			}
@@ -471,7 +471,7 @@ func (g *KotlinGenerator) generateCustomProperties(s *definition.Struct) (string
 			fmt.Fprintf(&b, "        get() = %s\n", expr)
 			if hasSet {
 				setter := setMethod.(*definition.SetMethod)
-				setExpr, err := g.generateExpr(setter.MethodExpr, "value")
+				setExpr, err := g.generateExpr(g.convertExpr(setter.MethodExpr, f.FieldType), "value")
 				if err != nil {
 					return "", err
 				}
@@ -518,6 +518,16 @@ func (g *KotlinGenerator) generateEqualsHash(s *definition.Struct) string {
 	return eq.String() + hash.String()
 }
 
+// convertExpr casts the expression of a custom accessor to the type it is
+// returned or stored as, Kotlin converts no value implicitly.
+func (g *KotlinGenerator) convertExpr(expr definition.Expr, toType definition.Type) definition.Expr {
+	basic, ok := toType.(*definition.BasicType)
+	if !ok || basic.GetTypeID().IsBool() {
+		return expr
+	}
+	return &definition.CastExpr{ToType: basic, Expr1: expr}
+}
+
 func (g *KotlinGenerator) generateExpr(expr definition.Expr, value string) (string, error) {
 	switch e := expr.(type) {
 	case *definition.ValueExpr:
-- 
2.43.0


From 336626d23484d7218954d1d5d588e2414490744b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:11 +0000
Subject: [PATCH 63/66] fix: a file that cannot be imported is not reported as
 an import cycle

---
 compiler/compilation_runtime.go | 11 +++++++++--
 definition/error.go             | 16 ++++++++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/compiler/compilation_runtime.go b/compiler/compilation_runtime.go
index fa07d64..57c3710 100644
--- a/compiler/compilation_runtime.go
+++ b/compiler/compilation_runtime.go
@@ -12,6 +12,7 @@ type CompilationRuntime struct {
 	Units      *util.OrderedMap[string, *definition.CompilationUnit] // Units contains all the units compiled, full path as key, ordered by topological order
 	Packages   *util.OrderedMap[string, *definition.CompilationUnit] // another view of Units, for faster package lookup, package name as key, ordered by dfn order
 	ParseStack *util.OrderedMap[string, *definition.CompilationUnit] // ParseStack contains all the units being parsed, full path as key
+	Failed     *util.OrderedMap[string, *definition.CompilationUnit] // Failed contains all the units whose errors have been reported, full path as key
 }
 
 func NewCompilationRuntime() *CompilationRuntime {
@@ -19,6 +20,7 @@ func NewCompilationRuntime() *CompilationRuntime {
 		Units:      util.NewOrderedMap[string, *definition.CompilationUnit](),
 		Packages:   util.NewOrderedMap[string, *definition.CompilationUnit](),
 		ParseStack: util.NewOrderedMap[string, *definition.CompilationUnit](),
+		Failed:     util.NewOrderedMap[string, *definition.CompilationUnit](),
 	}
 }
 
@@ -171,17 +173,18 @@ func (r *CompilationRuntime) compile(ident *definition.FileIdentifer, content st
 		}
 	}
 
+	r.ParseStack.Remove(ident.Path)
 	if errs != nil {
+		r.Failed.Put(ident.Path, unit)
 		return nil, errs, warnings
 	}
-
-	r.ParseStack.Remove(ident.Path)
 	r.Units.Put(ident.Path, unit)
 
 	protoVisitor := NewParseVisitor(unit)
 	protoErr := ast.Accept(protoVisitor)
 	warnings = definition.TopLevelWarningsJoin(warnings, protoVisitor.Warning)
 	if err, ok := protoErr.(error); ok {
+		r.Failed.Put(ident.Path, unit)
 		return nil, err, warnings
 	}
 
@@ -195,6 +198,10 @@ func (r *CompilationRuntime) precheckFilePath(file *definition.FileIdentifer) (s
 		}
 		return true, &definition.ImportCycleError{File: file}
 	}
+	if r.Failed.Has(file.Path) {
+		// already imported, do not report its errors again
+		return true, &definition.ImportFailedError{File: file}
+	}
 	if r.Units.Has(file.Path) {
 		// already imported
 		// skip by diamond import
diff --git a/definition/error.go b/definition/error.go
index 57d3877..22af264 100644
--- a/definition/error.go
+++ b/definition/error.go
@@ -229,6 +229,22 @@ func (e ImportSelfError) Error() string {
 
 // --------------------
 
+type ImportFailedError struct {
+	File *FileIdentifer
+}
+
+func (e ImportFailedError) String() string {
+	return fmt.Sprintf("'%s' could not be imported, its errors are reported at an earlier import",
+		color.FgLightWhite.Render(e.File.Name),
+	)
+}
+
+func (e ImportFailedError) Error() string {
+	return e.String()
+}
+
+// --------------------
+
 type ImportCycleError struct {
 	File *FileIdentifer
 }
-- 
2.43.0


From 9bfc4800e2f51484e8e182a74a859ea76190415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:37 +0000
Subject: [PATCH 64/66] fix: Python emits its bit helpers only where a rolled
 array uses them

---
 generator/target/python/python.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index b5ca942..390b245 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -16,11 +16,20 @@ type GeneratedType struct {
 
 // ==================== Python Generator ====================
 
+type PythonGeneratorState struct {
+	UseBitHelpers bool
+}
+
+func (g *PythonGeneratorState) Reset() {
+	g.UseBitHelpers = false
+}
+
 type PythonGenerator struct {
 	*gen.GenDispatcher
 	GenCtx   *gen.GenCtx
 	GenTypes *util.OrderedMap[string, *GeneratedType]
 	GenStack *util.OrderedMap[string, any]
+	GenState *PythonGeneratorState
 	Warning  definition.TopLevelWarning
 }
 
@@ -29,6 +38,7 @@ func NewPythonGenerator() *PythonGenerator {
 		GenDispatcher: nil,
 		GenTypes:      util.NewOrderedMap[string, *GeneratedType](),
 		GenStack:      util.NewOrderedMap[string, any](),
+		GenState:      &PythonGeneratorState{},
 		Warning:       nil,
 	}
 	generator.GenDispatcher = gen.NewGenDispatcher(generator)
@@ -116,6 +126,7 @@ func (g *PythonGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings e
 		singleData := map[string]any{
 			"GenTypes":   g.GenTypes,
 			"GenOptions": g.GenCtx.GenOptions,
+			"GenState":   g.GenState,
 		}
 
 		singleStr := util.ExecuteTemplate(fileTemplate, "singleFile", nil, singleData)
@@ -187,7 +198,9 @@ from {{ $unit.Package.ToPath "." "_bb" }} import *
 {{ end -}}
 {{ end }}
 
+{{ if .GenState.UseBitHelpers -}}
 {{ template "runtimeHelpers" . }}
+{{- end }}
 
 
 {{ range $entry := .GenTypes.Entries -}}
@@ -214,7 +227,9 @@ import struct
 from enum import Enum
 from typing import List, Tuple, Union, overload
 
+{{ if .GenState.UseBitHelpers -}}
 {{ template "runtimeHelpers" . }}
+{{- end }}
 
 
 {{ range $entry := .GenTypes.Entries -}}
@@ -237,6 +252,10 @@ func (g PythonGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 
 	start := g.GenTypes.Len()
 
+	if !g.GenCtx.GenOptions.SingleFile {
+		g.GenState.Reset()
+	}
+
 	for _, type_ := range unit.LocalTypes.Values() {
 		_, err := g.GenerateType(type_)
 		if err != nil {
@@ -258,6 +277,7 @@ func (g PythonGenerator) GenerateUnit(unit *definition.CompilationUnit) error {
 		"Imports":    gen.ImportedUnits(unit),
 		"GenTypes":   genTypes,
 		"GenOptions": g.GenCtx.GenOptions,
+		"GenState":   g.GenState,
 	}
 
 	fileStr := util.ExecuteTemplate(fileTemplate, "file", nil, fileData)
@@ -1336,6 +1356,7 @@ func (g PythonGenerator) generateEncodeNormalField(field *definition.NormalField
 					"FieldValueExpr": fmt.Sprintf("%s[_i].value", name),
 					"BigEndian":      pyBoolLiteral(gen.MatchOption(field.FieldOptions, "order", "big")),
 				}
+				g.GenState.UseBitHelpers = true
 				stmt := util.ExecuteTemplate(fieldEncoderTemplate, "encodeFieldBits", nil, encodeFieldBitsData)
 				bodyStmts = append(bodyStmts, util.IndentSpace(stmt, 4))
 
@@ -1353,6 +1374,7 @@ func (g PythonGenerator) generateEncodeNormalField(field *definition.NormalField
 					"FieldValueExpr": fieldValueExpr,
 					"BigEndian":      pyBoolLiteral(gen.MatchOption(field.FieldOptions, "order", "big")),
 				}
+				g.GenState.UseBitHelpers = true
 				stmt := util.ExecuteTemplate(fieldEncoderTemplate, "encodeFieldBits", nil, encodeFieldBitsData)
 				bodyStmts = append(bodyStmts, util.IndentSpace(stmt, 4))
 
@@ -2147,6 +2169,7 @@ func (g PythonGenerator) generateDecodeNormalField(field *definition.NormalField
 					"FieldBitSize": elemBitSize,
 					"BigEndian":    pyBoolLiteral(gen.MatchOption(field.FieldOptions, "order", "big")),
 				}
+				g.GenState.UseBitHelpers = true
 				stmt := util.ExecuteTemplate(fieldDecoderTemplate, "decodeFieldBits", nil, decodeFieldBitsData)
 				bodyStmts = append(bodyStmts, util.IndentSpace(stmt, 4))
 				bodyStmts = append(bodyStmts, fmt.Sprintf("    %s[_i] = %s(%s)", name, elemTyType.EnumName, tempName))
@@ -2158,6 +2181,7 @@ func (g PythonGenerator) generateDecodeNormalField(field *definition.NormalField
 					"FieldBitSize": elemBitSize,
 					"BigEndian":    pyBoolLiteral(gen.MatchOption(field.FieldOptions, "order", "big")),
 				}
+				g.GenState.UseBitHelpers = true
 				stmt := util.ExecuteTemplate(fieldDecoderTemplate, "decodeFieldBits", nil, decodeFieldBitsData)
 				bodyStmts = append(bodyStmts, util.IndentSpace(stmt, 4))
 
-- 
2.43.0


From 10f630636fc269f103cae737d8e2ef0485a3a544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:44 +0000
Subject: [PATCH 65/66] fix: an absolute path with . or .. names the same file

---
 fileio/path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileio/path.go b/fileio/path.go
index b3c5b0b..37a82a1 100644
--- a/fileio/path.go
+++ b/fileio/path.go
@@ -39,7 +39,7 @@ func GetAbsolutelyPath(file string) (absPath string, err error) {
 // GetAbsolutelyPathWithBasePath returns unwarpped error
 func GetAbsolutelyPathWithBasePath(file string, relative string) (absPath string, err error) {
 	if filepath.IsAbs(file) {
-		absPath = file
+		absPath = filepath.Clean(file)
 	} else {
 		absPath, err = filepath.Abs(filepath.Join(filepath.Dir(relative), file))
 		if err != nil {
-- 
2.43.0


From 3fe544a8f24bfd9172a38e7bf271bb4d133455c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:44 +0000
Subject: [PATCH 66/66] fix: C and C++ array setters read no more items than
 given

---
 generator/target/c/c.go     | 6 +++---
 generator/target/cpp/cpp.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 49cc9fd..0924e5d 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -1317,9 +1317,9 @@ void {{ $structName }}_set_{{ $fieldName }}(struct {{ $structName }}* ptr, {{ $p
 // RawSetterArray: {{ $structName }}_set_{{ $fieldName }}
 {{ if .GenOptions.SingleFile }}static {{ end -}}
 void {{ $structName }}_set_{{ $fieldName }}(struct {{ $structName }}* ptr, {{ $elemTyStr }}* value, uint64_t length) {
-{{- range $i := iterate 0 $length }}
-    ptr->{{ $fieldName }}[{{ $i }}] = value[{{ $i }}];
-{{- end }}
+    for (uint64_t _i = 0; _i < {{ $length }} && _i < length; _i++) {
+        ptr->{{ $fieldName }}[_i] = value[_i];
+    }
 }
 
 // RawSetterArrayItem: {{ $structName }}_set_{{ $fieldName }}_item
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 92bbfd9..acfa42e 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1403,9 +1403,9 @@ var rawSetterTemplate = `
 {{- $structName := .FieldDef.FieldBelongs.StructName -}}
     // RawSetterArray: {{ $structName }}::set_{{ $fieldName }}
     void {{ if not .GenOptions.SingleFile }}{{ $structName }}::{{ end }}set_{{ $fieldName }}(const {{ $elemTyStr }}* value, uint64_t length) {
-    {{- range $i := iterate 0 $length }}
-        this->{{ $fieldName }}[{{ $i }}] = value[{{ $i }}];
-    {{- end }}
+        for (uint64_t _i = 0; _i < {{ $length }} && _i < length; _i++) {
+            this->{{ $fieldName }}[_i] = value[_i];
+        }
     }
 
     // RawSetterArrayItem: {{ $structName }}::set_{{ $fieldName }}_item
-- 
2.43.0

