From ba953b5efdfda1c25021e14e2862643a6bc1ed97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:45 +0000
Subject: [PATCH 01/66] fix: startup check raises the process/file limits
 instead of re-setting the old ones

CheckNproc and CheckNofile filled new_rlim with the required limits but passed
the limits just read to setrlimit, so the call always succeeded, changed
nothing, and the check logged the limit as raised.
---
 src/common/syscheck.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/syscheck.cc b/src/common/syscheck.cc
index 2badcb9..6f31114 100644
--- a/src/common/syscheck.cc
+++ b/src/common/syscheck.cc
@@ -159,7 +159,7 @@ int CheckNproc(std::string &error_msg) {
       struct rlimit new_rlim;
       new_rlim.rlim_cur = NUM_PROC;
       new_rlim.rlim_max = NUM_PROC;
-      auto ret = setrlimit(RLIMIT_NPROC, &rlim);
+      auto ret = setrlimit(RLIMIT_NPROC, &new_rlim);
       if (ret < 0) {
         error_msg = std::string("ulimit -u: ") + std::to_string(rlim.rlim_cur) + std::string(" rlim_max: ") +
                     std::to_string(rlim.rlim_max) + std::string(" rlim_max should be at least 800000");
@@ -188,7 +188,7 @@ int CheckNofile(std::string &error_msg) {
       struct rlimit new_rlim;
       new_rlim.rlim_cur = NUM_FILE;
       new_rlim.rlim_max = NUM_FILE;
-      auto ret = setrlimit(RLIMIT_NOFILE, &rlim);
+      auto ret = setrlimit(RLIMIT_NOFILE, &new_rlim);
       if (ret < 0) {
         error_msg = std::string("ulimit -n: ") + std::to_string(rlim.rlim_cur) + std::string(" rlim_max: ") +
                     std::to_string(rlim.rlim_max) + std::string(" rlim_max should be at least 800000");
-- 
2.43.0


From 2852a83fd56646339a766d325dd3b0cae9cddb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:56 +0000
Subject: [PATCH 02/66] fix: java serial: nullable vector value of codec V2 no
 longer carries a null tag its decoder does not read

---
 .../java/io/dingodb/sdk/common/serial/schema/VectorSchema.java   | 1 -
 1 file changed, 1 deletion(-)

diff --git a/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/VectorSchema.java b/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/VectorSchema.java
index 778b36b..b46b6e5 100644
--- a/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/VectorSchema.java
+++ b/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/VectorSchema.java
@@ -174,7 +174,6 @@ public class VectorSchema implements DingoSchema<String> {
             } else {
                 byte[] bytes = data.getBytes(StandardCharsets.UTF_8);
                 buf.ensureRemainder(4 + bytes.length);
-                buf.write(NOTNULL);
                 buf.writeInt(bytes.length);
                 buf.write(bytes);
 
-- 
2.43.0


From 501fed8fc353cd358d5b9ffda944cbf2eb1dbc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:56 +0000
Subject: [PATCH 03/66] fix: java serial: decoding a DECIMAL key of codec V2
 steps over its trailing length

---
 .../java/io/dingodb/sdk/common/serial/schema/DecimalSchema.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/DecimalSchema.java b/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/DecimalSchema.java
index 3fd513e..6c543ea 100644
--- a/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/DecimalSchema.java
+++ b/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/DecimalSchema.java
@@ -292,6 +292,8 @@ public class DecimalSchema implements DingoSchema<String> {
             }
         }
 
+        //The length of the encoded key is kept at the tail of the key, step over it.
+        buf.reverseSkipInt();
         byte[] decBin = internalReadKeyPrefixBytes(buf);
         return new MyDecimal(decBin, (int)this.precision, (int)this.scale).decimalToString();
     }
-- 
2.43.0


From fc55a0edec55a1c5bddab3f8809d2badbc6a550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:56 +0000
Subject: [PATCH 04/66] fix: java serial: skipping BYTES and null STRING keys
 steps over exactly what was written

---
 .../io/dingodb/sdk/common/serial/schema/BytesSchema.java | 9 +++++++--
 .../dingodb/sdk/common/serial/schema/StringSchema.java   | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/BytesSchema.java b/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/BytesSchema.java
index 69e62e4..5d23a34 100644
--- a/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/BytesSchema.java
+++ b/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/BytesSchema.java
@@ -309,12 +309,17 @@ public class BytesSchema implements DingoSchema<byte[]> {
 
     @Override
     public void skipKey(Buf buf) {
-        buf.skip(buf.reverseReadInt());
+        if (allowNull) {
+            buf.skip(buf.reverseReadInt() + 1);
+        } else {
+            buf.skip(buf.reverseReadInt());
+        }
     }
 
     @Override
     public void skipKeyV2(Buf buf) {
-        buf.skip(buf.reverseReadInt());
+        //The null tag is always written in V2.
+        buf.skip(buf.reverseReadInt() + 1);
     }
 
     @Override
diff --git a/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/StringSchema.java b/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/StringSchema.java
index f75cd3d..67d8f6d 100644
--- a/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/StringSchema.java
+++ b/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/StringSchema.java
@@ -339,7 +339,9 @@ public class StringSchema implements DingoSchema<String> {
     public void skipKeyV2(Buf buf) {
         if (allowNull) {
             //buf.skip(buf.reverseReadInt() + 1);
-            buf.skip(1);
+            if (buf.read() == NULL) {
+                return;
+            }
         }
 
         internalReadBytesV2(buf);
-- 
2.43.0


From 8af5b5e95684a3a1b3ff535780bf14f87c3a6ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:56 +0000
Subject: [PATCH 05/66] fix: java serial: projecting V2 values handles null
 columns and array elements

---
 .../main/java/io/dingodb/sdk/common/serial/RecordDecoder.java   | 2 +-
 .../java/io/dingodb/sdk/common/serial/schema/ArraySchema.java   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/RecordDecoder.java b/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/RecordDecoder.java
index 2c68df6..b6507a4 100644
--- a/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/RecordDecoder.java
+++ b/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/RecordDecoder.java
@@ -327,7 +327,7 @@ public class RecordDecoder {
                     if (idOffsetMap.get((short)schema.getIndex()) != -1) {
                         schema.skipValueV2(valueBuf);
                     }
-                } else {
+                } else if (idOffsetMap.get((short)schema.getIndex()) != -1) {
                     record[schema.getIndex()] = schema.decodeValueV2(valueBuf);
                 }
             }
diff --git a/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/ArraySchema.java b/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/ArraySchema.java
index dd24ffc..9decd98 100644
--- a/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/ArraySchema.java
+++ b/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/ArraySchema.java
@@ -306,7 +306,7 @@ public class ArraySchema<T> implements DingoSchema<T[]> {
     public void skipValueV2(Buf buf) {
         int length = buf.readInt();
         for (int i = 0; i < length; i++) {
-            elementSchema.skipValueV2(buf);
+            elementSchema.skipValue(buf);
         }
     }
 }
\ No newline at end of file
-- 
2.43.0


From 0a511c66b7a0d6919a5797cb3884790941966bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:56 +0000
Subject: [PATCH 06/66] fix: java serial: zero of scale 0 decodes instead of
 being refused as a bad number

---
 .../src/main/java/io/dingodb/sdk/common/serial/MyDecimal.java  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/MyDecimal.java b/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/MyDecimal.java
index c0b7509..0c6d533 100644
--- a/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/MyDecimal.java
+++ b/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/MyDecimal.java
@@ -747,7 +747,8 @@ public class MyDecimal {
         }
 
         if (digitsInt == 0 && digitsFrac == 0) {
-            throw new RuntimeException("Decimal type: bad number.");
+            //All digits are leading zeros, the value is zero.
+            negative = false;
         }
         resultFrac = frac;
     }
-- 
2.43.0


From f657be54e5315f130d8713f98dedff55d9427e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:56 +0000
Subject: [PATCH 07/66] fix: java serial: FLOAT and DOUBLE keys encode -0.0 and
 NaN by their sign bit

---
 .../java/io/dingodb/sdk/common/serial/schema/DoubleSchema.java  | 2 +-
 .../java/io/dingodb/sdk/common/serial/schema/FloatSchema.java   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/DoubleSchema.java b/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/DoubleSchema.java
index a1f874e..91c5a25 100644
--- a/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/DoubleSchema.java
+++ b/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/DoubleSchema.java
@@ -166,7 +166,7 @@ public class DoubleSchema implements DingoSchema<Double> {
 
     private void internalEncodeKey(Buf buf, Double data) {
         long ln = (Double.doubleToLongBits(data));
-        if (data >= 0) {
+        if (ln >= 0) {
             buf.write((byte) (ln >>> 56 ^ 0x80));
             buf.write((byte) (ln >>> 48));
             buf.write((byte) (ln >>> 40));
diff --git a/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/FloatSchema.java b/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/FloatSchema.java
index e05c732..03c97a9 100644
--- a/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/FloatSchema.java
+++ b/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/FloatSchema.java
@@ -162,7 +162,7 @@ public class FloatSchema implements DingoSchema<Float> {
 
     private void internalEncodeKey(Buf buf, Float data) {
         int in = Float.floatToIntBits(data);
-        if (data >= 0) {
+        if (in >= 0) {
             buf.write((byte) (in >>> 24 ^ 0x80));
             buf.write((byte) (in >>> 16));
             buf.write((byte) (in >>> 8));
-- 
2.43.0


From 9fa48aa6957c3c3fa235b016197d869c9c73f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:03 +0000
Subject: [PATCH 08/66] fix: java serial: key prefix of a null DECIMAL is the
 null tag alone

---
 .../io/dingodb/sdk/common/serial/schema/DecimalSchema.java     | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/DecimalSchema.java b/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/DecimalSchema.java
index 6c543ea..aa66f13 100644
--- a/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/DecimalSchema.java
+++ b/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/schema/DecimalSchema.java
@@ -391,9 +391,8 @@ public class DecimalSchema implements DingoSchema<String> {
     public void encodeKeyPrefix(Buf buf, String data) {
         if (allowNull) {
             if (data == null) {
-                buf.ensureRemainder(5);
+                buf.ensureRemainder(1);
                 buf.write(NULL);
-                buf.reverseWriteInt0();
             } else {
                 buf.ensureRemainder(1);
                 buf.write(NOTNULL);
-- 
2.43.0


From 752cd4bc825dc29506bc963d740d473609a401b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:38 +0000
Subject: [PATCH 09/66] fix: java serial: a DECIMAL with fewer fraction digits
 than its scale is not refused as truncated

---
 .../src/main/java/io/dingodb/sdk/common/serial/MyDecimal.java   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/MyDecimal.java b/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/MyDecimal.java
index 0c6d533..c007b7f 100644
--- a/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/MyDecimal.java
+++ b/java/dingo-sdk/src/main/java/io/dingodb/sdk/common/serial/MyDecimal.java
@@ -579,7 +579,7 @@ public class MyDecimal {
 
         if ((fracSize < fracSizeFrom) ||
                 (fracSize == fracSizeFrom && (trailingDigits <= trailingDigitsFrom || wordsFracLocal <= wordsFracFrom))) {
-            if (fracSize < fracSizeFrom || (fracSize == fracSizeFrom && trailingDigits < trailingDigitsFrom) || (fracSize == fracSizeFrom && wordsFracLocal < wordsFracFrom)) {
+            if (wordsFracFrom*digitsPerWord + trailingDigitsFrom > wordsFracLocal*digitsPerWord + trailingDigits) {
                 throw new RuntimeException("Decimal type: truncated.");
             }
             wordsFracFrom = wordsFracLocal;
-- 
2.43.0


From 6039fa1ac925b7e97113bad59c260ceec44488e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 10/66] fix: mvcc GetValueTTL decodes the binary ttl and
 accepts an empty value

---
 src/mvcc/codec.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mvcc/codec.cc b/src/mvcc/codec.cc
index fbf7074..c523f66 100644
--- a/src/mvcc/codec.cc
+++ b/src/mvcc/codec.cc
@@ -367,17 +367,17 @@ ValueFlag Codec::GetValueFlag(const std::string_view& pkg_value) {
 }
 
 int64_t Codec::GetValueTTL(const std::string& pkg_value) {
-  CHECK(pkg_value.size() > 9) << "Value length is invalid.";
+  CHECK(pkg_value.size() >= 9) << "Value length is invalid.";
 
   uint8_t flag = static_cast<uint8_t>(pkg_value.back());
   CHECK(flag == static_cast<uint8_t>(ValueFlag::kPutTTL)) << fmt::format("Value flag({}) is not kPutTTL.", flag);
 
   auto ttl_str = pkg_value.substr(pkg_value.size() - 9, pkg_value.size() - 1);
-  return Helper::StringToInt64(ttl_str);
+  return SerialHelper::ReadLong(ttl_str);
 }
 
 int64_t Codec::GetValueTTL(const std::string_view& pkg_value) {
-  CHECK(pkg_value.size() > 9) << "Value length is invalid.";
+  CHECK(pkg_value.size() >= 9) << "Value length is invalid.";
 
   uint8_t flag = static_cast<uint8_t>(pkg_value.back());
   CHECK(flag == static_cast<uint8_t>(ValueFlag::kPutTTL)) << fmt::format("Value flag({}) is not kPutTTL.", flag);
-- 
2.43.0


From 04670e56e27fcdc53d5f930a95298e750e38efc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 11/66] fix: mvcc DecodeBytes rejects empty input, invalid
 markers and bytes after the padded group

---
 src/mvcc/codec.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mvcc/codec.cc b/src/mvcc/codec.cc
index c523f66..b620552 100644
--- a/src/mvcc/codec.cc
+++ b/src/mvcc/codec.cc
@@ -78,7 +78,7 @@ bool Codec::DecodeBytes(const std::string& encode_key, std::string& output) {
 }
 
 bool Codec::DecodeBytes(const std::string_view& encode_key, std::string& output) {
-  if (encode_key.length() % kPadGroupSize != 0 || encode_key.back() == '\xff') {
+  if (encode_key.empty() || encode_key.length() % kPadGroupSize != 0 || encode_key.back() == '\xff') {
     return false;
   }
 
@@ -91,6 +91,9 @@ bool Codec::DecodeBytes(const std::string_view& encode_key, std::string& output)
     uint8_t marker = encode_key.at(i + 8);
 
     int pad_count = kMarker - marker;
+    if (pad_count > kGroupSize) {
+      return false;
+    }
     for (int j = 0; j < kGroupSize - pad_count; ++j) {
       output.push_back(encode_key.at(i++));
     }
@@ -102,6 +105,11 @@ bool Codec::DecodeBytes(const std::string_view& encode_key, std::string& output)
         }
       }
 
+      // only the last group is padded
+      if (i + 1 != encode_key.size()) {
+        return false;
+      }
+
       break;
     }
   }
-- 
2.43.0


From 81aa9051ede14fdc1bf6443434783b12219f9c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 12/66] fix: mvcc PackageValue clears the output of a delete

---
 src/mvcc/codec.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mvcc/codec.cc b/src/mvcc/codec.cc
index b620552..a39ee70 100644
--- a/src/mvcc/codec.cc
+++ b/src/mvcc/codec.cc
@@ -230,6 +230,7 @@ void Codec::PackageValue(ValueFlag flag, const std::string& value, std::string&
 
       break;
     case ValueFlag::kDelete:
+      output.clear();
       output.push_back(static_cast<char>(flag));
       break;
     default:
@@ -282,6 +283,7 @@ void Codec::PackageValue(ValueFlag flag, int64_t ttl, const std::string& value,
       break;
 
     case ValueFlag::kDelete:
+      output.clear();
       output.push_back(static_cast<char>(flag));
       break;
     default:
-- 
2.43.0


From 0a61de263594dd20dfdb1ea6e962c1ce7e3710fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 13/66] fix: DocumentCodec::TruncateKeyForTs accepts any key
 with a timestamp

---
 src/document/codec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document/codec.cc b/src/document/codec.cc
index 0f604a6..c911d58 100644
--- a/src/document/codec.cc
+++ b/src/document/codec.cc
@@ -271,7 +271,7 @@ int64_t DocumentCodec::TruncateKeyForTs(const std::string& encode_key_with_ts) {
 }
 
 int64_t DocumentCodec::TruncateKeyForTs(const std::string_view& encode_key_with_ts) {
-  CHECK(encode_key_with_ts.size() >= 88) << fmt::format("Key({}) is invalid.", Helper::StringToHex(encode_key_with_ts));
+  CHECK(encode_key_with_ts.size() >= 8) << fmt::format("Key({}) is invalid.", Helper::StringToHex(encode_key_with_ts));
 
   auto ts_str = encode_key_with_ts.substr(encode_key_with_ts.size() - 8, encode_key_with_ts.size());
 
-- 
2.43.0


From e21b16c19bc7419924b07e30b6651ead120402f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:43 +0000
Subject: [PATCH 14/66] fix: MonoStoreEngine::Writer::KvDeleteRange deletes the
 encoded range

It computed the encoded range and then passed the plain one on, which the
apply handler aborts on (or which matches nothing).
---
 src/engine/mono_store_engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/mono_store_engine.cc b/src/engine/mono_store_engine.cc
index 75153e6..7a84e03 100644
--- a/src/engine/mono_store_engine.cc
+++ b/src/engine/mono_store_engine.cc
@@ -420,7 +420,7 @@ butil::Status MonoStoreEngine::Writer::KvDelete(std::shared_ptr<Context> ctx, co
 butil::Status MonoStoreEngine::Writer::KvDeleteRange(std::shared_ptr<Context> ctx, const pb::common::Range& range) {
   auto encode_range = mvcc::Codec::EncodeRange(range);
 
-  return mono_engine_->Write(ctx, WriteDataBuilder::BuildWrite(ctx->CfName(), range));
+  return mono_engine_->Write(ctx, WriteDataBuilder::BuildWrite(ctx->CfName(), encode_range));
 }
 
 butil::Status MonoStoreEngine::Writer::KvPutIfAbsent(std::shared_ptr<Context> ctx,
-- 
2.43.0


From 3297654afe58c68ccd923cd2146f2c636e39fcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:43 +0000
Subject: [PATCH 15/66] fix: MonoStoreEngine::Writer::KvPut stores the TTL

---
 src/engine/mono_store_engine.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/mono_store_engine.cc b/src/engine/mono_store_engine.cc
index 7a84e03..56338f5 100644
--- a/src/engine/mono_store_engine.cc
+++ b/src/engine/mono_store_engine.cc
@@ -369,7 +369,8 @@ butil::Status MonoStoreEngine::Writer::KvPut(std::shared_ptr<Context> ctx,
     return butil::Status(pb::error::ETSO_NOT_AVAILABLE, "TSO not available");
   }
 
-  auto encode_kvs = mvcc::Codec::EncodeKeyValuesWithPut(ts, kvs);
+  auto encode_kvs = ctx->Ttl() == 0 ? mvcc::Codec::EncodeKeyValuesWithPut(ts, kvs)
+                                    : mvcc::Codec::EncodeKeyValuesWithTTL(ts, ctx->Ttl(), kvs);
   auto status = mono_engine_->Write(ctx, WriteDataBuilder::BuildWrite(ctx->CfName(), encode_kvs, ts));
   if (!status.ok()) {
     return status;
-- 
2.43.0


From 5825264b09633b414de5c789b4afdaf34c7ef954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:43 +0000
Subject: [PATCH 16/66] fix: Helper::PrefixNext drops trailing 0xFF bytes

The carry turned them into 0x00 bytes, so the result was not the first key
after the prefix: an inclusive end "a\xff" also covered key "b", and an
exclusive start skipped it.
---
 src/common/helper.cc | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/src/common/helper.cc b/src/common/helper.cc
index 414b71c..1a59590 100644
--- a/src/common/helper.cc
+++ b/src/common/helper.cc
@@ -412,34 +412,20 @@ bool Helper::IsEqualIgnoreCase(const std::string& str1, const std::string& str2)
 }
 
 // Next prefix
-std::string Helper::PrefixNext(const std::string& input) {
-  std::string ret(input.size(), 0);
-  int carry = 1;
-  for (int i = input.size() - 1; i >= 0; --i) {
-    if (static_cast<uint8_t>(input[i]) == (uint8_t)0xFF && carry == 1) {
-      ret[i] = 0;
-    } else {
-      ret[i] = (input[i] + carry);
-      carry = 0;
-    }
-  }
-
-  return (carry == 0) ? ret : input;
-}
+// The first key after every key that starts with input: trailing 0xFF bytes have no successor and are dropped.
+std::string Helper::PrefixNext(const std::string& input) { return PrefixNext(std::string_view(input)); }
 
 std::string Helper::PrefixNext(const std::string_view& input) {
-  std::string ret(input.size(), 0);
-  int carry = 1;
-  for (int i = input.size() - 1; i >= 0; --i) {
-    if (static_cast<uint8_t>(input[i]) == (uint8_t)0xFF && carry == 1) {
-      ret[i] = 0;
-    } else {
-      ret[i] = (input[i] + carry);
-      carry = 0;
-    }
+  std::string ret(input);
+  while (!ret.empty() && static_cast<uint8_t>(ret.back()) == (uint8_t)0xFF) {
+    ret.pop_back();
+  }
+  if (ret.empty()) {
+    return std::string(input);
   }
+  ret.back() = static_cast<char>(static_cast<uint8_t>(ret.back()) + 1);
 
-  return (carry == 0) ? ret : std::string(input.data(), input.size());
+  return ret;
 }
 
 // Transform RangeWithOptions to Range for scan/deleteRange
-- 
2.43.0


From 5e83a1596cc0d9d2c9046eafdf275b395a4fdf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:53 +0000
Subject: [PATCH 17/66] fix: Helper::GenId is called from many threads at once

---
 src/common/helper.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/helper.cc b/src/common/helper.cc
index 1a59590..655e9cc 100644
--- a/src/common/helper.cc
+++ b/src/common/helper.cc
@@ -23,6 +23,7 @@
 #include <unistd.h>
 
 #include <algorithm>
+#include <atomic>
 #include <cctype>
 #include <cerrno>
 #include <chrono>
@@ -844,7 +845,7 @@ std::string Helper::GenerateRandomString(int length) {
 }
 
 int64_t Helper::GenId() {
-  static int64_t id = 0;
+  static std::atomic<int64_t> id{0};
   return ++id;
 }
 
-- 
2.43.0


From f96b89b27e422b4b90ae74a71e7c24222aabcd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:32 +0000
Subject: [PATCH 18/66] fix: BthreadCond signals before it releases its lock

A waiter that sees the decreased count may return and destroy the condition
(latch contexts live on the waiter's stack), so the signal that followed the
unlock touched a destroyed object.
---
 src/common/synchronization.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/synchronization.cc b/src/common/synchronization.cc
index 4da3d00..bef5787 100644
--- a/src/common/synchronization.cc
+++ b/src/common/synchronization.cc
@@ -42,17 +42,17 @@ void BthreadCond::Increase() {
 void BthreadCond::DecreaseSignal() {
   bthread_mutex_lock(&mutex_);
   --count_;
-  bthread_mutex_unlock(&mutex_);
-
+  // Signal under the lock: once it is released, a waiter may return and destroy this object.
   bthread_cond_signal(&cond_);
+  bthread_mutex_unlock(&mutex_);
 }
 
 void BthreadCond::DecreaseBroadcast() {
   bthread_mutex_lock(&mutex_);
   --count_;
-  bthread_mutex_unlock(&mutex_);
-
+  // Signal under the lock: once it is released, a waiter may return and destroy this object.
   bthread_cond_broadcast(&cond_);
+  bthread_mutex_unlock(&mutex_);
 }
 
 int BthreadCond::Wait(int cond) {
-- 
2.43.0


From bf82a6130ee587bc9462b890963d502212c69ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:18 +0000
Subject: [PATCH 19/66] fix: TxnCommit of a key already committed at another
 timestamp answered SelfRolledBack or TxnNotFound

---
 src/engine/txn_engine_helper.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index c8de756..02756e2 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -3380,7 +3380,8 @@ butil::Status TxnEngineHelper::Commit(RawEnginePtr raw_engine, std::shared_ptr<E
       {
         PhaseTimer t(already_commit_et, txn_reader, start_ts, key, "check already commit", "Commit");
         auto ret2 =
-            txn_reader.GetWriteInfo(start_ts, commit_ts, start_ts, key, false, true, true, write_info, prev_commit_ts);
+            txn_reader.GetWriteInfo(start_ts, Constant::kMaxVer, start_ts, key, false, true, true, write_info,
+                                    prev_commit_ts);
         if (!ret2.ok()) {
           DINGO_LOG(ERROR) << fmt::format("[txn][region({})] Commit, start_Ts: {}, commit_ts: {}", region->Id(),
                                           start_ts, commit_ts)
@@ -3392,8 +3393,8 @@ butil::Status TxnEngineHelper::Commit(RawEnginePtr raw_engine, std::shared_ptr<E
         }
       }
 
-      // if prev_commit_ts == commit_ts, means this key of start_ts is already committed, can skip it
-      if (prev_commit_ts == commit_ts) {
+      // if prev_commit_ts > 0, means this key of start_ts is already committed, can skip it
+      if (prev_commit_ts > 0) {
         DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_txn_detail)
             << fmt::format("[txn][region({})] Commit, start_Ts: {}, commit_ts: {}", region->Id(), start_ts, commit_ts)
             << ", key: " << Helper::StringToHex(key) << " is already committed, prev_commit_ts: " << prev_commit_ts;
-- 
2.43.0


From 712c0a3f22403cb10ad5677f0700b06428d540bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 20/66] fix: rolling back a transaction overwrote the commit
 record of another one committed at its start_ts

---
 src/engine/txn_engine_helper.cc | 34 ++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 02756e2..91fd76d 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -4074,7 +4074,20 @@ butil::Status TxnEngineHelper::BatchRollback(RawEnginePtr raw_engine, std::share
 bvar::LatencyRecorder g_txn_do_rollback_latency("dingo_txn_do_rollback");
 
 // DoRollback
-butil::Status TxnEngineHelper::DoRollback(RawEnginePtr /*raw_engine*/, std::shared_ptr<Engine> raft_engine,
+// The rollback record of a transaction is stored at its start_ts. Another transaction may have committed the key at
+// exactly that timestamp(one_pc and async commit calculate commit_ts), its record must not be overwritten.
+static bool HasOtherTxnWriteRecord(RawEnginePtr raw_engine, const std::string &key, int64_t start_ts) {
+  std::string write_value;
+  auto ret = raw_engine->Reader()->KvGet(Constant::kTxnWriteCF, mvcc::Codec::EncodeKey(key, start_ts), write_value);
+  if (!ret.ok()) {
+    return false;
+  }
+
+  pb::store::WriteInfo write_info;
+  return write_info.ParseFromString(write_value) && write_info.start_ts() != start_ts;
+}
+
+butil::Status TxnEngineHelper::DoRollback(RawEnginePtr raw_engine, std::shared_ptr<Engine> raft_engine,
                                           std::shared_ptr<Context> ctx,
                                           std::vector<std::string> &keys_to_rollback_with_data,
                                           std::vector<std::string> &keys_to_rollback_without_data,
@@ -4100,6 +4113,10 @@ butil::Status TxnEngineHelper::DoRollback(RawEnginePtr /*raw_engine*/, std::shar
     // delete lock
     kv_deletes_lock.emplace_back(mvcc::Codec::EncodeKey(key, Constant::kLockVer));
 
+    if (HasOtherTxnWriteRecord(raw_engine, key, start_ts)) {
+      continue;
+    }
+
     // add write
     pb::store::WriteInfo write_info;
     write_info.set_start_ts(start_ts);
@@ -4118,6 +4135,10 @@ butil::Status TxnEngineHelper::DoRollback(RawEnginePtr /*raw_engine*/, std::shar
     // delete data
     kv_deletes_data.emplace_back(mvcc::Codec::EncodeKey(key, start_ts));
 
+    if (HasOtherTxnWriteRecord(raw_engine, key, start_ts)) {
+      continue;
+    }
+
     // add write
     pb::store::WriteInfo write_info;
     write_info.set_start_ts(start_ts);
@@ -4130,6 +4151,10 @@ butil::Status TxnEngineHelper::DoRollback(RawEnginePtr /*raw_engine*/, std::shar
   }
 
   for (const auto &key : keys_miss_lock_to_rollback) {
+    if (HasOtherTxnWriteRecord(raw_engine, key, start_ts)) {
+      continue;
+    }
+
     // add write
     pb::store::WriteInfo write_info;
     write_info.set_start_ts(start_ts);
@@ -4187,8 +4212,7 @@ butil::Status TxnEngineHelper::DoRollback(RawEnginePtr /*raw_engine*/, std::shar
 }
 
 // MarkRollBackOnMissingLock
-butil::Status TxnEngineHelper::MarkRollBackOnMissingLock(RawEnginePtr /*raw_engine*/,
-                                                         std::shared_ptr<Engine> raft_engine,
+butil::Status TxnEngineHelper::MarkRollBackOnMissingLock(RawEnginePtr raw_engine, std::shared_ptr<Engine> raft_engine,
                                                          std::shared_ptr<Context> ctx, std::string primary_key,
                                                          int64_t start_ts) {
   BvarLatencyGuard bvar_guard(&g_txn_do_rollback_latency);
@@ -4196,6 +4220,10 @@ butil::Status TxnEngineHelper::MarkRollBackOnMissingLock(RawEnginePtr /*raw_engi
   DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_txn_detail) << "[txn]MarkRollBackOnMissingLock start_ts: " << start_ts
                                                         << ", primary_key: " << Helper::StringToHex(primary_key);
 
+  if (HasOtherTxnWriteRecord(raw_engine, primary_key, start_ts)) {
+    return butil::Status::OK();
+  }
+
   // add write
   pb::store::WriteInfo write_info;
   write_info.set_start_ts(start_ts);
-- 
2.43.0


From 46a23e49ce974151d3ced1b20ce82e05826d8428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 21/66] fix: a repeated pessimistic lock request returned
 values as of start_ts instead of the locked ones

---
 src/engine/txn_engine_helper.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 91fd76d..0cb7244 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -1769,7 +1769,7 @@ butil::Status TxnEngineHelper::PessimisticLock(RawEnginePtr raw_engine, std::sha
 
           if (return_values) {
             pb::store::WriteInfo write_info;
-            auto ret2 = txn_reader.GetOldValue(mutation.key(), start_ts, false, write_info, kvs);
+            auto ret2 = txn_reader.GetOldValue(mutation.key(), Constant::kMaxVer, false, write_info, kvs);
             if (!ret2.ok()) {
               // Now we need to fatal exit to prevent data inconsistency between raft peers
               DINGO_LOG(ERROR) << fmt::format("[txn][region({})] PessimisticLock, start_ts: {}", ctx->RegionId(),
@@ -1803,7 +1803,7 @@ butil::Status TxnEngineHelper::PessimisticLock(RawEnginePtr raw_engine, std::sha
 
           if (return_values) {
             pb::store::WriteInfo write_info;
-            auto ret3 = txn_reader.GetOldValue(mutation.key(), start_ts, false, write_info, kvs);
+            auto ret3 = txn_reader.GetOldValue(mutation.key(), Constant::kMaxVer, false, write_info, kvs);
             if (!ret3.ok()) {
               // Now we need to fatal exit to prevent data inconsistency between raft peers
               DINGO_LOG(ERROR) << fmt::format("[txn][region({})] PessimisticLock, start_ts: {}", ctx->RegionId(),
-- 
2.43.0


From 5bfaae67e549eda562437f593d9209078747c9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 22/66] fix: every further page of TxnScanLock repeated the
 last lock of the page before it

---
 src/engine/txn_engine_helper.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 0cb7244..500d445 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -1209,6 +1209,7 @@ butil::Status TxnEngineHelper::ScanLockInfo(StreamPtr stream, RawEnginePtr engin
           "max_scan_memory_size: {}.",
           stream->StreamId(), has_more, lock_infos.size(), limit, FLAGS_stream_message_max_limit_size, bytes,
           FLAGS_stream_message_max_bytes);
+      iter->Next();
       break;
     }
 
-- 
2.43.0


From 643282f3b4076709ef6093c88d2d552b042b2593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 23/66] fix: resolving all locks of a transaction left those
 beyond one message of lock infos

---
 src/engine/txn_engine_helper.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 500d445..b86ff41 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -4389,12 +4389,17 @@ butil::Status TxnEngineHelper::BatchResolveLock(RawEnginePtr raw_engine, std::sh
     std::vector<pb::store::LockInfo> tmp_lock_infos;
     bool has_more = false;
     std::string end_key{};
-    auto ret = ScanLockInfo(stream, raw_engine, start_ts, start_ts + 1, region->Range(false), 0, tmp_lock_infos,
-                            has_more, end_key);
-    if (!ret.ok()) {
-      DINGO_LOG(FATAL) << fmt::format("[txn][region({})] BatchResolveLock, ", region->Id())
-                       << ", get lock info failed, start_ts: " << start_ts << ", status: " << ret.error_str();
-    }
+    do {
+      has_more = false;
+      std::vector<pb::store::LockInfo> page_lock_infos;
+      auto ret = ScanLockInfo(stream, raw_engine, start_ts, start_ts + 1, region->Range(false), 0, page_lock_infos,
+                              has_more, end_key);
+      if (!ret.ok()) {
+        DINGO_LOG(FATAL) << fmt::format("[txn][region({})] BatchResolveLock, ", region->Id())
+                         << ", get lock info failed, start_ts: " << start_ts << ", status: " << ret.error_str();
+      }
+      tmp_lock_infos.insert(tmp_lock_infos.end(), page_lock_infos.begin(), page_lock_infos.end());
+    } while (has_more);
 
     for (const auto &lock_info : tmp_lock_infos) {
       // if the lock is a pessimistic lock, can't do resolvelock
-- 
2.43.0


From 977f86f274f802623290c2f488a041114b5f96a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 24/66] fix: a repeated or late pessimistic prewrite without
 its lock wrote over a newer commit

---
 src/engine/txn_engine_helper.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index b86ff41..72cafb2 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -3094,7 +3094,8 @@ butil::Status TxnEngineHelper::Prewrite(
           << ", write_info: " << write_info.ShortDebugString();
 
       if (commit_ts >= start_ts) {
-        if (!need_check_pessimistic_lock) {
+        // a pessimistic prewrite that does not find its lock is not protected by it
+        if (!need_check_pessimistic_lock || prev_lock_info.primary_lock().empty()) {
           pb::store::WriteInfo prev_write_info;
           int64_t prev_commit_ts = 0;
           bool find_record = false;
-- 
2.43.0


From d9b7e6ada94eb6a1507af551c41575b754e1fc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:06 +0000
Subject: [PATCH 25/66] fix: applying TxnDeleteRange on a follower, where no
 response exists, dereferenced a null response

---
 src/handler/raft_apply_handler_txn.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/handler/raft_apply_handler_txn.cc b/src/handler/raft_apply_handler_txn.cc
index 44c497f..a8be7f0 100644
--- a/src/handler/raft_apply_handler_txn.cc
+++ b/src/handler/raft_apply_handler_txn.cc
@@ -263,9 +263,6 @@ void TxnHandler::HandleTxnDeleteRangeRequest(std::shared_ptr<Context> ctx, store
       << fmt::format("[txn][region({})] HandleTxnDeleteRange, term: {} apply_log_id: {}", region->Id(), term_id, log_id)
       << ", request: " << request.ShortDebugString();
 
-  auto *response = dynamic_cast<pb::store::TxnDeleteRangeResponse *>(ctx->Response());
-  auto *error = response->mutable_error();
-
   pb::common::Range range = mvcc::Codec::EncodeRange(request.start_key(), request.end_key());
 
   std::vector<pb::common::Range> data_ranges;
-- 
2.43.0


From ec72e938366310dcd7dd5c98463ffca14f0fc4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:06 +0000
Subject: [PATCH 26/66] fix: TxnGc on a store that has not got a safe point for
 the tenant yet dereferenced null

---
 src/engine/txn_engine_helper.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 72cafb2..81449f3 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -4831,6 +4831,11 @@ butil::Status TxnEngineHelper::Gc(RawEnginePtr raw_engine, std::shared_ptr<Engin
   int64_t tenant_id = definition.tenant_id();
 
   auto gc_safe_point = gc_safe_point_manager->FindSafePoint(tenant_id);
+  if (gc_safe_point == nullptr) {
+    DINGO_LOG(ERROR) << fmt::format("[txn_gc][region({})] Gc, safe_point_ts: {}", region->Id(), safe_point_ts)
+                     << ", gc safe point is not found, tenant_id: " << tenant_id;
+    return butil::Status(pb::error::Errno::EINTERNAL, "gc safe point is not found");
+  }
 
   return DoGc(raw_engine, raft_engine, ctx, safe_point_ts, gc_safe_point, range.start_key(), range.end_key());
 }
-- 
2.43.0


From a2e9798f945a31b7f0eaf2f64bf28ffb620cf0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:00 +0000
Subject: [PATCH 27/66] fix: TxnGc removed the version readers between the safe
 point and a newer commit see

---
 src/engine/txn_engine_helper.cc | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 81449f3..02dd685 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -4929,8 +4929,6 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
 
   write_iter->Seek(write_iter_options.lower_bound);
 
-  // this var is too long. this is important var. do not cut down it.
-  bool is_exist_put_or_delete_key_if_write_ts_gt_safe_point_ts = false;
   // this var is too long. this is important var. do not cut down it.
   bool is_first_put_key_if_write_ts_le_safe_point_ts = true;
 
@@ -4967,7 +4965,6 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
 
     // reset for first put
     if (last_write_key != write_key) {
-      is_exist_put_or_delete_key_if_write_ts_gt_safe_point_ts = false;
       last_write_key = write_key;
       is_first_put_key_if_write_ts_le_safe_point_ts = true;
     }
@@ -4983,11 +4980,6 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
 
     // write_ts > safe_point_ts key value
     if (write_ts > safe_point_ts) {
-      if (!is_exist_put_or_delete_key_if_write_ts_gt_safe_point_ts) {
-        if (pb::store::Op::Put == op || pb::store::Op::Delete == op) {
-          is_exist_put_or_delete_key_if_write_ts_gt_safe_point_ts = true;
-        }
-      }
       write_iter->Next();
       continue;
     }
@@ -4996,15 +4988,13 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
     switch (op) {
       case pb::store::Put: {
         // caution!!!
-        // if write_ts > safe_point_ts. not exist delete or put key.
         // if write_ts <= safe_point_ts. first is put key. this first put key can not be delete !!!
-        if (!is_exist_put_or_delete_key_if_write_ts_gt_safe_point_ts) {
-          if (is_first_put_key_if_write_ts_le_safe_point_ts) {
-            // others put key can be delete. clear this flag.
-            is_first_put_key_if_write_ts_le_safe_point_ts = false;
-            write_iter->Next();
-            continue;
-          }
+        // even if a newer put or delete key exists, it is what is read between safe_point_ts and the newer one.
+        if (is_first_put_key_if_write_ts_le_safe_point_ts) {
+          // others put key can be delete. clear this flag.
+          is_first_put_key_if_write_ts_le_safe_point_ts = false;
+          write_iter->Next();
+          continue;
         }
         kv_deletes_write.emplace_back(write_iter_key);
         if (write_info.short_value().empty()) {
@@ -5038,13 +5028,8 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
       }
       case pb::store::Delete: {
         // caution!!!
-        // if write_ts > safe_point_ts. not exist delete or put key.
         // if write_ts <= safe_point_ts. first is delete key. this first put key actually can be delete.
-        if (!is_exist_put_or_delete_key_if_write_ts_gt_safe_point_ts) {
-          if (is_first_put_key_if_write_ts_le_safe_point_ts) {
-            is_first_put_key_if_write_ts_le_safe_point_ts = false;
-          }
-        }
+        is_first_put_key_if_write_ts_le_safe_point_ts = false;
         kv_deletes_write.emplace_back(write_iter_key);
         break;
       }
-- 
2.43.0


From afcdfd854b87bccd4bcd2340bd4ec8d83cc739bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:47 +0000
Subject: [PATCH 28/66] fix: gc stopped between batches could bring a deleted
 or expired value back

---
 src/engine/txn_engine_helper.cc | 39 ++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 02dd685..6786e93 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -4935,6 +4935,9 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
   std::string write_key;
   std::string last_write_key;
 
+  // the newest delete of a key hides its older puts, so it is removed only after them: gc may stop after any batch.
+  std::string hiding_delete_key;
+
   while (write_iter->Valid()) {
     total_iter_count++;
     std::string_view write_iter_key = write_iter->Key();
@@ -4965,6 +4968,10 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
 
     // reset for first put
     if (last_write_key != write_key) {
+      if (!hiding_delete_key.empty()) {
+        kv_deletes_write.emplace_back(std::move(hiding_delete_key));
+        hiding_delete_key.clear();
+      }
       last_write_key = write_key;
       is_first_put_key_if_write_ts_le_safe_point_ts = true;
     }
@@ -5029,7 +5036,11 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
       case pb::store::Delete: {
         // caution!!!
         // if write_ts <= safe_point_ts. first is delete key. this first put key actually can be delete.
-        is_first_put_key_if_write_ts_le_safe_point_ts = false;
+        if (is_first_put_key_if_write_ts_le_safe_point_ts) {
+          is_first_put_key_if_write_ts_le_safe_point_ts = false;
+          hiding_delete_key = std::string(write_iter_key);
+          break;
+        }
         kv_deletes_write.emplace_back(write_iter_key);
         break;
       }
@@ -5086,6 +5097,10 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
     write_iter->Next();
   }
 
+  if (!hiding_delete_key.empty()) {
+    kv_deletes_write.emplace_back(std::move(hiding_delete_key));
+  }
+
 _interrupt1:
 
   auto [internal_gc_stop, internal_safe_point_ts] = gc_safe_point->GetGcFlagAndSafePointTs();
@@ -5235,6 +5250,12 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
         }
       };
 
+  // the newest delete (or expired ttl put) of a key hides its older puts, so it is removed only after them: gc may stop
+  // after any batch.
+  std::string hiding_key;
+  int64_t hiding_vector_id = 0;
+  int64_t hiding_ts = 0;
+
   while (default_iter->Valid()) {
     total_iter_count++;
     std::string_view default_iter_key = default_iter->Key();
@@ -5267,6 +5288,10 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
     }
 
     if (last_default_key != default_key) {
+      if (!hiding_key.empty()) {
+        lambda_emplace_back_function(type, hiding_key, hiding_vector_id, hiding_ts);
+        hiding_key.clear();
+      }
       last_default_key = default_key;
       is_exist_default_key_if_ts_gt_safe_point_ts = false;
       is_first_put_key_if_ts_le_safe_point_ts = true;
@@ -5309,6 +5334,10 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
               default_iter->Next();
               continue;
             }
+            hiding_key = std::string(default_iter_key);
+            hiding_vector_id = vector_id;
+            hiding_ts = default_ts;
+            break;
           }
         }
         lambda_emplace_back_function(type, default_iter_key, vector_id, default_ts);
@@ -5320,6 +5349,10 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
           if (is_first_put_key_if_ts_le_safe_point_ts) {
             is_first_put_key_if_ts_le_safe_point_ts = false;
             is_exist_default_key_if_ts_gt_safe_point_ts = true;
+            hiding_key = std::string(default_iter_key);
+            hiding_vector_id = vector_id;
+            hiding_ts = default_ts;
+            break;
           }
         }
         lambda_emplace_back_function(type, default_iter_key, vector_id, default_ts);
@@ -5378,6 +5411,10 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
     default_iter->Next();
   }
 
+  if (!hiding_key.empty()) {
+    lambda_emplace_back_function(type, hiding_key, hiding_vector_id, hiding_ts);
+  }
+
 _interrupt1:
 
   auto [internal_gc_stop, internal_safe_point_ts] = gc_safe_point->GetGcFlagAndSafePointTs();
-- 
2.43.0


From 9cf18db11e61e7c1bf335a0b85900c71853c1585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:55 +0000
Subject: [PATCH 29/66] fix: a repeated async commit prewrite was answered as
 if it was not async commit

---
 src/engine/txn_engine_helper.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 6786e93..addb976 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -3197,7 +3197,13 @@ butil::Status TxnEngineHelper::Prewrite(
           << prev_lock_info.ShortDebugString() << ", mutation: " << mutation.ShortDebugString();
       // if enable 1pc need to fallback to 2pc
       try_one_pc = false;
-      use_async_commit = false;
+      // an async commit lock may already be used by others to decide the commit ts, so the retry has to get the same
+      // answer as the first prewrite.
+      if (!prev_lock_info.use_async_commit()) {
+        use_async_commit = false;
+      } else if (use_async_commit && final_min_commit_ts < prev_lock_info.min_commit_ts()) {
+        final_min_commit_ts = prev_lock_info.min_commit_ts();
+      }
       continue;
     }
 
-- 
2.43.0


From 35e29bd87f881ac00135eb29156c172f0134bede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:44 +0000
Subject: [PATCH 30/66] fix: resolving all locks of a transaction held no latch
 and could remove another transaction's new lock

---
 src/engine/txn_engine_helper.cc | 34 +++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index addb976..a0174b1 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -55,6 +55,7 @@
 #include "rocksdb/perf_level.h"
 #include "rocksdb/sst_file_reader.h"
 #include "server/server.h"
+#include "server/service_helper.h"
 #include "vector/codec.h"
 
 namespace dingodb {
@@ -4408,6 +4409,39 @@ butil::Status TxnEngineHelper::BatchResolveLock(RawEnginePtr raw_engine, std::sh
       tmp_lock_infos.insert(tmp_lock_infos.end(), page_lock_infos.begin(), page_lock_infos.end());
     } while (has_more);
 
+    // The request names no keys, so the service holds no latch for it: take those of the locks found and read the
+    // locks again, as another request may have committed or rolled them back and a further transaction locked the keys.
+    std::vector<std::string> keys_for_lock;
+    keys_for_lock.reserve(tmp_lock_infos.size());
+    for (const auto &lock_info : tmp_lock_infos) {
+      keys_for_lock.push_back(lock_info.key());
+    }
+
+    LatchContext latch_ctx(region, keys_for_lock);
+    ServiceHelper::LatchesAcquire(latch_ctx, true);
+    DEFER(ServiceHelper::LatchesRelease(latch_ctx));
+
+    TxnReader txn_reader(raw_engine);
+    auto init_ret = txn_reader.Init();
+    if (!init_ret.ok()) {
+      DINGO_LOG(ERROR) << fmt::format("[txn][region({})] BatchResolveLock, ", region->Id())
+                       << ", init txn_reader failed, start_ts: " << start_ts << ", status: " << init_ret.error_str();
+      return init_ret;
+    }
+    tmp_lock_infos.clear();
+    for (const auto &key : keys_for_lock) {
+      pb::store::LockInfo lock_info;
+      auto ret = txn_reader.GetLockInfo(key, lock_info);
+      if (!ret.ok()) {
+        DINGO_LOG(FATAL) << fmt::format("[txn][region({})] BatchResolveLock, ", region->Id())
+                         << ", get lock info failed, key: " << Helper::StringToHex(key) << ", start_ts: " << start_ts
+                         << ", status: " << ret.error_str();
+      }
+      if (lock_info.lock_ts() == start_ts) {
+        tmp_lock_infos.push_back(lock_info);
+      }
+    }
+
     for (const auto &lock_info : tmp_lock_infos) {
       // if the lock is a pessimistic lock, can't do resolvelock
       if (lock_info.lock_type() == pb::store::Op::Lock) {
-- 
2.43.0


From 5aa5add1c9cfaa280e86ea1b39a992a19d5dc72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:31 +0000
Subject: [PATCH 31/66] fix: version KV put with ignore_value keeps the stored
 value

---
 src/coordinator/kv_control_kv.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 0530faa..93d591b 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -471,8 +471,8 @@ butil::Status KvControl::KvPut(const pb::common::KeyValue &key_value_in, int64_t
   kv_index_meta_increment->set_event_type(pb::coordinator_internal::KvIndexEventType::KV_INDEX_EVENT_TYPE_PUT);
   kv_index_meta_increment->set_ignore_lease(ignore_lease);
   kv_index_meta_increment->set_lease_id(lease_grant_id);
+  kv_index_meta_increment->set_ignore_value(ignore_value);
   if (!ignore_value) {
-    kv_index_meta_increment->set_ignore_value(ignore_value);
     kv_index_meta_increment->set_value(key_value_in.value());
   }
   if (!ignore_lease) {
-- 
2.43.0


From 66b5ee688270daddfe835a901de252a67f6dd37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:31 +0000
Subject: [PATCH 32/66] fix: version KV count_only range answers the number of
 keys

---
 src/coordinator/kv_control_kv.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 93d591b..d9a4cf2 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -200,6 +200,7 @@ butil::Status KvControl::KvRange(const std::string &key, const std::string &rang
                    << ", count_only: " << count_only;
 
   has_more = false;
+  return_count = 0;
   if (limit == 0) {
     limit = INT64_MAX;
   }
@@ -245,6 +246,7 @@ butil::Status KvControl::KvRange(const std::string &key, const std::string &rang
     }
 
     if (count_only) {
+      ++return_count;
       continue;
     }
 
@@ -286,7 +288,9 @@ butil::Status KvControl::KvRange(const std::string &key, const std::string &rang
     kv.push_back(kv_temp);
   }
 
-  return_count = kv.size();
+  if (!count_only) {
+    return_count = kv.size();
+  }
 
   DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
       << "KvRange finish, key: " << key << "(" << Helper::StringToHex(key) << "), range_end: " << range_end << "("
-- 
2.43.0


From 2573c1d241961cf88d362ea65208c75712068a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:31 +0000
Subject: [PATCH 33/66] fix: version KV range delete detaches every deleted key
 from its lease

---
 src/coordinator/kv_control_kv.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index d9a4cf2..8d2943d 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -535,9 +535,7 @@ butil::Status KvControl::KvDeleteRange(const std::string &key, const std::string
     }
 
     // prepare for lease remove
-    std::set<std::string> keys;
-    keys.insert(kv_to_delete.kv().key());
-    keys_to_remove_lease.insert_or_assign(kv_to_delete.lease(), keys);
+    keys_to_remove_lease[kv_to_delete.lease()].insert(kv_to_delete.kv().key());
 
     if (need_lease_remove_keys) {
       DINGO_LOG(INFO) << "KvDelete will remove lease for key: " << kv_to_delete.kv().key() << "("
-- 
2.43.0


From 9568397a6a825fb87970478295936d8567573fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:31 +0000
Subject: [PATCH 34/66] fix: replaying a half-applied version KV entry after a
 crash applies it once

---
 src/coordinator/kv_control_kv.cc | 46 +++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 8d2943d..e6d3482 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -607,6 +607,11 @@ butil::Status KvControl::KvPutApply(const std::string &key,
 
     last_mod_revision = kv_index.mod_revision();
 
+    if (last_mod_revision.main() == op_revision.main() && last_mod_revision.sub() == op_revision.sub()) {
+      // this put is replayed, it has been applied before the restart
+      return butil::Status::OK();
+    }
+
     if (kv_index.generations_size() == 0) {
       auto *generation = kv_index.add_generations();
       generation->mutable_create_revision()->set_main(op_revision.main());
@@ -775,6 +780,11 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
 
     last_mod_revision = kv_index.mod_revision();
 
+    if (last_mod_revision.main() == op_revision.main() && last_mod_revision.sub() == op_revision.sub()) {
+      // this delete is replayed, it has been applied before the restart
+      return butil::Status::OK();
+    }
+
     if (kv_index.generations_size() == 0) {
       // create a null generator means delete
       auto *generation = kv_index.add_generations();
@@ -842,12 +852,6 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
 
   // do real write to state machine
   // CAUTION: When deleting kv, we must do PutRawKvRev before put RawKvIndex
-  ret = PutRawKvIndex(key, kv_index);
-  if (!ret.ok()) {
-    DINGO_LOG(ERROR) << "KvDeleteApply PutRawKvIndex failed, key: " << key << "(" << Helper::StringToHex(key)
-                     << "), kv_index: " << kv_index.ShortDebugString() << ", error: " << ret.error_str();
-  }
-
   ret = PutRawKvRev(op_revision, kv_rev);
   if (!ret.ok()) {
     DINGO_LOG(ERROR) << "KvDeleteApply PutRawKvRev failed, revision: " << op_revision.ShortDebugString()
@@ -856,6 +860,12 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
     return ret;
   }
 
+  ret = PutRawKvIndex(key, kv_index);
+  if (!ret.ok()) {
+    DINGO_LOG(ERROR) << "KvDeleteApply PutRawKvIndex failed, key: " << key << "(" << Helper::StringToHex(key)
+                     << "), kv_index: " << kv_index.ShortDebugString() << ", error: " << ret.error_str();
+  }
+
   DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
       << "KvDeleteApply success, key: " << key << "(" << Helper::StringToHex(key)
       << "), revision: " << op_revision.ShortDebugString();
@@ -1079,6 +1089,18 @@ butil::Status KvControl::KvCompactApply(const std::string &key,
     }
   }
 
+  // delete revisions in kv_rev, before the index that names them, so that a replay finds them again
+  for (const auto &kv_revision : revisions_to_delete) {
+    pb::coordinator_internal::KvRevInternal kv_rev;
+    kv_rev.set_id(RevisionToString(kv_revision));
+
+    DINGO_LOG(INFO) << "KvCompactApply delete kv_rev, kv_revision: " << kv_revision.ShortDebugString()
+                    << ", key: " << key << "(" << Helper::StringToHex(key)
+                    << "), kv_rev: " << kv_rev.ShortDebugString();
+
+    DeleteRawKvRev(kv_revision);
+  }
+
   // if new_kv_index has no generations, delete it
   // else put new_kv_index
   if (new_kv_index.generations_size() == 0) {
@@ -1093,18 +1115,6 @@ butil::Status KvControl::KvCompactApply(const std::string &key,
     PutRawKvIndex(key, new_kv_index);
   }
 
-  // delete revisions in kv_rev
-  for (const auto &kv_revision : revisions_to_delete) {
-    pb::coordinator_internal::KvRevInternal kv_rev;
-    kv_rev.set_id(RevisionToString(kv_revision));
-
-    DINGO_LOG(INFO) << "KvCompactApply delete kv_rev, kv_revision: " << kv_revision.ShortDebugString()
-                    << ", key: " << key << "(" << Helper::StringToHex(key)
-                    << "), kv_rev: " << kv_rev.ShortDebugString();
-
-    DeleteRawKvRev(kv_revision);
-  }
-
   return butil::Status::OK();
 }
 
-- 
2.43.0


From fb585529a5e5ff9df39a088df4a1e0bd7cd6b535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:31 +0000
Subject: [PATCH 35/66] fix: version KV watch registered while a change is
 applied is not lost

---
 src/coordinator/kv_control_kv.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index e6d3482..c3b81db 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -724,10 +724,8 @@ butil::Status KvControl::KvPutApply(const std::string &key,
       << "), kv_index: " << kv_index.ShortDebugString();
 
   // trigger watch
-  if (!one_time_watch_map_.empty()) {
-    DINGO_LOG(INFO) << "KvPutApply one_time_watch_map_ is not empty, will trigger watch, key: " << key << "("
-                    << Helper::StringToHex(key) << "), watch size: " << one_time_watch_map_.size();
-
+  // TriggerOneWatch looks for watches under the lock of one_time_watch_map_
+  {
     if (prev_kv.create_revision() > 0) {
       prev_kv.set_lease(kv_rev_last.kv().lease());
       prev_kv.mutable_kv()->set_key(key);
@@ -871,10 +869,8 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
       << "), revision: " << op_revision.ShortDebugString();
 
   // trigger watch
-  if (!one_time_watch_map_.empty()) {
-    DINGO_LOG(INFO) << "KvDeleteApply one_time_watch_map_ is not empty, will trigger watch, key: " << key << "("
-                    << Helper::StringToHex(key) << "), watch size: " << one_time_watch_map_.size();
-
+  // TriggerOneWatch looks for watches under the lock of one_time_watch_map_
+  {
     if (prev_kv.create_revision() > 0) {
       prev_kv.set_lease(kv_rev_last.kv().lease());
       prev_kv.mutable_kv()->set_key(key);
-- 
2.43.0


From 54ad3fdad29f9d58e72d658b5d9f8c7e9156c151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:31 +0000
Subject: [PATCH 36/66] fix: version KV auto compaction covers the keys at its
 batch boundaries

---
 src/coordinator/kv_control_kv.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index c3b81db..7a2c062 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -926,9 +926,7 @@ void KvControl::CompactionTask() {
   // do compaction for each key
   std::vector<std::string> keys_to_compact;
   for (const auto &key : keys) {
-    if (keys_to_compact.size() < 50) {
-      keys_to_compact.push_back(key);
-    } else {
+    if (keys_to_compact.size() >= 50) {
       auto ret = KvCompact(keys_to_compact, compact_revision);
       if (!ret.ok()) {
         DINGO_LOG(ERROR) << "KvCompact failed, error: " << ret.error_str() << ", keys size: " << keys_to_compact.size();
@@ -938,6 +936,7 @@ void KvControl::CompactionTask() {
       }
       keys_to_compact.clear();
     }
+    keys_to_compact.push_back(key);
   }
   if (!keys_to_compact.empty()) {
     auto ret = KvCompact(keys_to_compact, compact_revision);
-- 
2.43.0


From b5024a59b2c1bb79203c5c58b1a0888ad1b96ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:31 +0000
Subject: [PATCH 37/66] fix: version KV snapshot install records the applied
 index last

---
 src/coordinator/kv_control_fsm.cc | 57 ++++++++++++++++---------------
 1 file changed, 29 insertions(+), 28 deletions(-)

diff --git a/src/coordinator/kv_control_fsm.cc b/src/coordinator/kv_control_fsm.cc
index 1cfce1b..a818a1a 100644
--- a/src/coordinator/kv_control_fsm.cc
+++ b/src/coordinator/kv_control_fsm.cc
@@ -178,34 +178,6 @@ bool KvControl::LoadMetaFromSnapshotFile(pb::coordinator_internal::MetaSnapshotF
 
   std::vector<pb::common::KeyValue> kvs;
 
-  // 0.id_epoch map
-  kvs.reserve(meta_snapshot_file.id_epoch_map_kvs_size());
-  for (int i = 0; i < meta_snapshot_file.id_epoch_map_kvs_size(); i++) {
-    kvs.push_back(meta_snapshot_file.id_epoch_map_kvs(i));
-  }
-  {
-    // BAIDU_SCOPED_LOCK(id_epoch_map_mutex_);
-    if (!id_epoch_meta_->Recover(kvs)) {
-      return false;
-    }
-
-    // remove data in rocksdb
-    if (!meta_writer_->DeletePrefix(id_epoch_meta_->internal_prefix)) {
-      DINGO_LOG(ERROR) << "Coordinator delete id_epoch_meta_ range failed in LoadMetaFromSnapshotFile";
-      return false;
-    }
-    DINGO_LOG(INFO) << "Coordinator delete range id_epoch_meta_ success in LoadMetaFromSnapshotFile";
-
-    // write data to rocksdb
-    if (!meta_writer_->Put(kvs)) {
-      DINGO_LOG(ERROR) << "Coordinator write id_epoch_meta_ failed in LoadMetaFromSnapshotFile";
-      return false;
-    }
-    DINGO_LOG(INFO) << "Coordinator put id_epoch_meta_ success in LoadMetaFromSnapshotFile";
-  }
-  DINGO_LOG(INFO) << "LoadSnapshot id_epoch_meta, count=" << kvs.size();
-  kvs.clear();
-
   // 14.lease_map_
   kvs.reserve(meta_snapshot_file.lease_map_kvs_size());
   for (int i = 0; i < meta_snapshot_file.lease_map_kvs_size(); i++) {
@@ -288,6 +260,35 @@ bool KvControl::LoadMetaFromSnapshotFile(pb::coordinator_internal::MetaSnapshotF
   DINGO_LOG(INFO) << "LoadSnapshot version_kv_rev_meta, count=" << kvs.size();
   kvs.clear();
 
+  // 0.id_epoch map
+  // it tells that the snapshot is installed, so it must be the last thing written
+  kvs.reserve(meta_snapshot_file.id_epoch_map_kvs_size());
+  for (int i = 0; i < meta_snapshot_file.id_epoch_map_kvs_size(); i++) {
+    kvs.push_back(meta_snapshot_file.id_epoch_map_kvs(i));
+  }
+  {
+    // BAIDU_SCOPED_LOCK(id_epoch_map_mutex_);
+    if (!id_epoch_meta_->Recover(kvs)) {
+      return false;
+    }
+
+    // remove data in rocksdb
+    if (!meta_writer_->DeletePrefix(id_epoch_meta_->internal_prefix)) {
+      DINGO_LOG(ERROR) << "Coordinator delete id_epoch_meta_ range failed in LoadMetaFromSnapshotFile";
+      return false;
+    }
+    DINGO_LOG(INFO) << "Coordinator delete range id_epoch_meta_ success in LoadMetaFromSnapshotFile";
+
+    // write data to rocksdb
+    if (!meta_writer_->Put(kvs)) {
+      DINGO_LOG(ERROR) << "Coordinator write id_epoch_meta_ failed in LoadMetaFromSnapshotFile";
+      return false;
+    }
+    DINGO_LOG(INFO) << "Coordinator put id_epoch_meta_ success in LoadMetaFromSnapshotFile";
+  }
+  DINGO_LOG(INFO) << "LoadSnapshot id_epoch_meta, count=" << kvs.size();
+  kvs.clear();
+
   // build id_epoch, schema_name, table_name, index_name maps
   BuildTempMaps();
 
-- 
2.43.0


From a10af70f5232a902aa50751d68e93a50b97a933a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:31 +0000
Subject: [PATCH 38/66] fix: version KV revisions start at the same number
 after a snapshot install

---
 src/coordinator/kv_control_fsm.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/coordinator/kv_control_fsm.cc b/src/coordinator/kv_control_fsm.cc
index a818a1a..a2b8697 100644
--- a/src/coordinator/kv_control_fsm.cc
+++ b/src/coordinator/kv_control_fsm.cc
@@ -272,6 +272,9 @@ bool KvControl::LoadMetaFromSnapshotFile(pb::coordinator_internal::MetaSnapshotF
       return false;
     }
 
+    // set id_epoch_map_ present id, as Recover does
+    InitIds();
+
     // remove data in rocksdb
     if (!meta_writer_->DeletePrefix(id_epoch_meta_->internal_prefix)) {
       DINGO_LOG(ERROR) << "Coordinator delete id_epoch_meta_ range failed in LoadMetaFromSnapshotFile";
-- 
2.43.0


From 6d4732cfeccba4407f9d8a41dda4ab6389a97711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:31 +0000
Subject: [PATCH 39/66] fix: version KV watch event reports the version of the
 previous value

---
 src/coordinator/kv_control_kv.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 7a2c062..f4cb9dc 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -636,7 +636,7 @@ butil::Status KvControl::KvPutApply(const std::string &key,
         // only in this situation, the prev_kv is meaningful
         prev_kv.set_create_revision(latest_generation->create_revision().main());
         prev_kv.set_mod_revision(kv_index.mod_revision().main());
-        prev_kv.set_version(latest_generation->verison());
+        prev_kv.set_version(latest_generation->verison() - 1);
       } else {
         latest_generation->mutable_create_revision()->set_main(op_revision.main());
         latest_generation->mutable_create_revision()->set_sub(op_revision.sub());
@@ -806,7 +806,7 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
         // only in this situation, the prev_kv is meaningful
         prev_kv.set_create_revision(latest_generation->create_revision().main());
         prev_kv.set_mod_revision(kv_index.mod_revision().main());
-        prev_kv.set_version(latest_generation->verison());
+        prev_kv.set_version(latest_generation->verison() - 1);
       } else {
         // a null generation means delete
         // so we do not need to add a new generation
-- 
2.43.0


From 30ff3849dbfaaaf2ed15c214dec1622018e3180c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:31 +0000
Subject: [PATCH 40/66] fix: version KV watch that filters every event is
 refused, not registered

---
 src/server/version_service.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/version_service.cc b/src/server/version_service.cc
index c3d8380..29ef7ef 100644
--- a/src/server/version_service.cc
+++ b/src/server/version_service.cc
@@ -700,6 +700,7 @@ void DoWatch(google::protobuf::RpcController* controller, const pb::version::Wat
     DINGO_LOG(ERROR) << "Watch failed: no put event and no delete event";
     response->mutable_error()->set_errcode(pb::error::Errno::EILLEGAL_PARAMTETERS);
     response->mutable_error()->set_errmsg("no put event and no delete event");
+    return;
   }
 
   kv_control->OneTimeWatch(one_time_req.key(), one_time_req.start_revision(), no_put_event, no_delete_event,
-- 
2.43.0


From acd325a0d6c85d3d51dd3025f68b6c36b5bb0800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:31 +0000
Subject: [PATCH 41/66] fix: version KV watch racing with the loss of
 leadership is answered

---
 src/coordinator/kv_control_watch.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/coordinator/kv_control_watch.cc b/src/coordinator/kv_control_watch.cc
index 95a2171..533d8ae 100644
--- a/src/coordinator/kv_control_watch.cc
+++ b/src/coordinator/kv_control_watch.cc
@@ -56,6 +56,13 @@ butil::Status KvControl::OneTimeWatch(const std::string& watch_key, int64_t star
 
   BAIDU_SCOPED_LOCK(one_time_watch_map_mutex_);
 
+  // checked under the lock, because OnLeaderStop only completes the watches that are registered by then
+  if (!IsLeader()) {
+    response->mutable_error()->set_errcode(pb::error::Errno::ERAFT_NOTLEADER);
+    response->mutable_error()->set_errmsg("not leader");
+    return butil::Status(pb::error::Errno::ERAFT_NOTLEADER, "OneTimeWatch, not leader");
+  }
+
   if (one_time_watch_map_.size() > FLAGS_version_watch_max_count) {
     DINGO_LOG(ERROR) << "OneTimeWatch, one_time_watch_map_.size() > FLAGS_version_watch_max_count, watch_key:"
                      << watch_key << ", start_revision:" << start_revision << ", no_put_event:" << no_put_event
-- 
2.43.0


From 1c12201d079cc2a9346b65ba6924357a6132c8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:52 +0000
Subject: [PATCH 42/66] fix: version KV watch registered while leadership
 starts is answered

---
 src/coordinator/kv_control_fsm.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/coordinator/kv_control_fsm.cc b/src/coordinator/kv_control_fsm.cc
index a2b8697..90dc89b 100644
--- a/src/coordinator/kv_control_fsm.cc
+++ b/src/coordinator/kv_control_fsm.cc
@@ -83,6 +83,12 @@ void KvControl::OnLeaderStart(int64_t term) {
   one_time_watch_closure_status_map_.Clear();
   {
     BAIDU_SCOPED_LOCK(one_time_watch_map_mutex_);
+
+    // a watch may have been registered since the leader term was set
+    for (auto& it : one_time_watch_closure_map_) {
+      it.second.Done();
+    }
+
     one_time_watch_map_.clear();
     one_time_watch_closure_map_.clear();
   }
-- 
2.43.0


From df05df0242733aa5ba0582faa23ab54a03a1f47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:52 +0000
Subject: [PATCH 43/66] fix: a version KV put racing with the end of its lease
 does not outlive it

---
 src/coordinator/kv_control_kv.cc    |  1 +
 src/coordinator/kv_control_lease.cc | 11 +++++------
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index f4cb9dc..ce8b316 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -813,6 +813,7 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
         DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
             << "KvDeleteApply kv_index exist null generation[1], nothing to do: "
             << latest_generation->ShortDebugString() << ", key: " << key << "(" << Helper::StringToHex(key) << ")";
+        return butil::Status::OK();
       }
 
       // setup new_create_revision to last create_revision
diff --git a/src/coordinator/kv_control_lease.cc b/src/coordinator/kv_control_lease.cc
index 5492594..77126f5 100644
--- a/src/coordinator/kv_control_lease.cc
+++ b/src/coordinator/kv_control_lease.cc
@@ -201,12 +201,11 @@ butil::Status KvControl::LeaseRevoke(int64_t lease_id, pb::coordinator_internal:
     lease_with_keys = std::move(keys_iter->second);
 
     for (const auto &key : lease_with_keys.keys) {
-      std::vector<pb::version::Kv> prev_kvs;
-      int64_t deleted_count = 0;
-      auto ret_status = KvDeleteRange(key, std::string(), false, false, deleted_count, prev_kvs, meta_increment);
-      if (!ret_status.ok()) {
-        DINGO_LOG(ERROR) << "DeleteRawKv failed, key: " << key;
-      }
+      // the put that attached the key may not be applied yet, so the delete must not depend on the current keys
+      auto *kv_index_increment = meta_increment.add_kv_indexes();
+      kv_index_increment->set_id(key);
+      kv_index_increment->set_op_type(::dingodb::pb::coordinator_internal::MetaIncrementOpType::UPDATE);
+      kv_index_increment->set_event_type(pb::coordinator_internal::KvIndexEventType::KV_INDEX_EVENT_TYPE_DELETE);
     }
 
     // delete lease from map
-- 
2.43.0


From 503ad90f19431e7b887ea9d28bbdf7d9cab893f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:47 +0000
Subject: [PATCH 44/66] fix: a new leader does not revoke a version KV lease by
 the keys of an earlier term

---
 src/coordinator/kv_control_lease.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/coordinator/kv_control_lease.cc b/src/coordinator/kv_control_lease.cc
index 77126f5..2066fc0 100644
--- a/src/coordinator/kv_control_lease.cc
+++ b/src/coordinator/kv_control_lease.cc
@@ -162,6 +162,14 @@ butil::Status KvControl::LeaseRenew(int64_t lease_id, int64_t &ttl_seconds,
 
 butil::Status KvControl::LeaseRevoke(int64_t lease_id, pb::coordinator_internal::MetaIncrement &meta_increment,
                                      bool has_mutex_locked) {
+  if (!has_mutex_locked && !IsLeaseToKeyMapInited()) {
+    DINGO_LOG(WARNING) << "lease_to_key_map_ not initialized, please wait and try again, term: "
+                       << lease_to_key_map_init_term_.load(butil::memory_order_acquire)
+                       << ", leader_term: " << leader_term_.load(butil::memory_order_acquire);
+    return butil::Status(pb::error::Errno::ERAFT_NOTLEADER,
+                         "lease_to_key_map_ not initialized, please wait and try again");
+  }
+
   pb::coordinator_internal::LeaseInternal lease;
   if (!has_mutex_locked) {
     bthread_mutex_lock(&lease_to_key_map_mutex_);
-- 
2.43.0


From 047f2000442ff4c85204025919e58dd28ab4f4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:29 +0000
Subject: [PATCH 45/66] fix: the end of a generated auto-increment range is
 computed in 64 bits

---
 src/coordinator/auto_increment_control.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinator/auto_increment_control.cc b/src/coordinator/auto_increment_control.cc
index e0550f3..db1c3b0 100644
--- a/src/coordinator/auto_increment_control.cc
+++ b/src/coordinator/auto_increment_control.cc
@@ -403,7 +403,7 @@ int64_t AutoIncrementControl::GetGenerateEndId(int64_t start_id, uint32_t count,
   }
 
   int64_t real_start_id = GetRealStartId(start_id, increment, offset);
-  return real_start_id + count * increment;
+  return real_start_id + static_cast<int64_t>(count) * increment;
 }
 
 int64_t AutoIncrementControl::GetRealStartId(int64_t start_id, uint32_t auto_increment_increment,
-- 
2.43.0


From 1c1899be28116dd624644e5d882605450a2440e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:18 +0000
Subject: [PATCH 46/66] fix: racing creates of an auto-increment counter do not
 set it back

---
 src/coordinator/auto_increment_control.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/coordinator/auto_increment_control.cc b/src/coordinator/auto_increment_control.cc
index db1c3b0..c4a59c3 100644
--- a/src/coordinator/auto_increment_control.cc
+++ b/src/coordinator/auto_increment_control.cc
@@ -345,7 +345,14 @@ void AutoIncrementControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncr
     if (auto_increment.op_type() == pb::coordinator_internal::MetaIncrementOpType::CREATE) {
       DINGO_LOG(INFO) << "create auto increment, table id: " << table_id
                       << ", start id: " << auto_increment.increment().start_id();
-      auto_increment_map_[table_id] = auto_increment.increment().start_id();
+      // Another create may have been applied since this one was checked, and ids generated: never go back.
+      int64_t* start_id_ptr = auto_increment_map_.seek(table_id);
+      if (start_id_ptr == nullptr) {
+        auto_increment_map_[table_id] = auto_increment.increment().start_id();
+      } else {
+        DINGO_LOG(WARNING) << "create auto increment, table id: " << table_id << " already exists: " << *start_id_ptr;
+        *start_id_ptr = std::max(*start_id_ptr, static_cast<int64_t>(auto_increment.increment().start_id()));
+      }
     } else if (auto_increment.op_type() == pb::coordinator_internal::MetaIncrementOpType::UPDATE) {
       int64_t* start_id_ptr = auto_increment_map_.seek(table_id);
       if (start_id_ptr == nullptr) {
-- 
2.43.0


From b9dfcabf63c12cde74329cf47b46b260d767c661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:18 +0000
Subject: [PATCH 47/66] fix: an auto-increment update racing with generated ids
 does not set the counter back

---
 src/coordinator/auto_increment_control.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/coordinator/auto_increment_control.cc b/src/coordinator/auto_increment_control.cc
index c4a59c3..33583d2 100644
--- a/src/coordinator/auto_increment_control.cc
+++ b/src/coordinator/auto_increment_control.cc
@@ -382,7 +382,12 @@ void AutoIncrementControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncr
           DINGO_LOG(WARNING) << "start id compare not equal: " << source_start_id << " | "
                              << auto_increment.increment().source_start_id();
         }
-        auto_increment_map_[table_id] = auto_increment.increment().start_id();
+        // An update that was checked to go forward does not go back because ids were generated since.
+        int64_t start_id = auto_increment.increment().start_id();
+        if (start_id > auto_increment.increment().source_start_id()) {
+          start_id = std::max(start_id, source_start_id);
+        }
+        auto_increment_map_[table_id] = start_id;
         DINGO_LOG(INFO) << "update auto increment, table id: " << table_id
                         << ", old start id: " << auto_increment.increment().source_start_id()
                         << ", start id: " << auto_increment.increment().start_id();
-- 
2.43.0


From 83a6d56c83b2eac43d0ce08a12e732a6f53e3ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:18 +0000
Subject: [PATCH 48/66] fix: generating ids of an auto-increment counter
 deleted meanwhile answers an error

---
 src/coordinator/auto_increment_control.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/coordinator/auto_increment_control.cc b/src/coordinator/auto_increment_control.cc
index 33583d2..a8c1792 100644
--- a/src/coordinator/auto_increment_control.cc
+++ b/src/coordinator/auto_increment_control.cc
@@ -357,6 +357,13 @@ void AutoIncrementControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncr
       int64_t* start_id_ptr = auto_increment_map_.seek(table_id);
       if (start_id_ptr == nullptr) {
         DINGO_LOG(WARNING) << "for update, cannot find table id: " << table_id;
+        if (auto_increment.increment().update_type() ==
+                pb::coordinator_internal::AutoIncrementUpdateType::READ_MODIFY_WRITE &&
+            is_leader && response != nullptr) {
+          auto* error = static_cast<pb::meta::GenerateAutoIncrementResponse*>(response)->mutable_error();
+          error->set_errcode(pb::error::Errno::EAUTO_INCREMENT_NOT_FOUND);
+          error->set_errmsg("auto increment not found");
+        }
         continue;
       }
 
-- 
2.43.0


From 71e5da8a233151d82f330e2b193cf71bdef2e326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:00 +0000
Subject: [PATCH 49/66] fix: a timestamp request with a negative or huge count
 does not set the timestamp back

---
 src/coordinator/tso_control.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/tso_control.cc b/src/coordinator/tso_control.cc
index 729645f..942ddea 100644
--- a/src/coordinator/tso_control.cc
+++ b/src/coordinator/tso_control.cc
@@ -137,9 +137,9 @@ int TsoControl::SyncTimestamp(const pb::meta::TsoTimestamp& current_timestamp, i
 void TsoControl::GenTso(const pb::meta::TsoRequest* request, pb::meta::TsoResponse* response) {
   int64_t count = request->count();
   response->set_op_type(request->op_type());
-  if (count == 0) {
+  if (count <= 0 || count >= kMaxLogical) {
     response->mutable_error()->set_errcode(pb::error::Errno::EILLEGAL_PARAMTETERS);
-    response->mutable_error()->set_errmsg("tso count should be positive");
+    response->mutable_error()->set_errmsg("tso count should be positive and less than the number of logical timestamps");
     return;
   }
   if (!is_healty_) {
-- 
2.43.0


From 7a1b0fededc0c9c199eb630ff44323ec016eb4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:00 +0000
Subject: [PATCH 50/66] fix: resetting the timestamp through the service does
 not abort the coordinator

---
 src/coordinator/tso_control.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordinator/tso_control.cc b/src/coordinator/tso_control.cc
index 942ddea..22ed84a 100644
--- a/src/coordinator/tso_control.cc
+++ b/src/coordinator/tso_control.cc
@@ -241,7 +241,8 @@ void TsoControl::Process(google::protobuf::RpcController* controller, const pb::
   pb::coordinator_internal::MetaIncrement meta_increment;
   auto* tso = meta_increment.add_timestamp_oracles();
   *(tso->mutable_tso_request()) = (*request);
-  this->SubmitMetaIncrementSync(closure, response, meta_increment);
+  // closure answers the request
+  this->SubmitMetaIncrementAsync(closure, response, meta_increment);
 }
 
 // If request.force == false, ResetTso is equal to UpdateTso
-- 
2.43.0


From a416550978b9b12c66de8c640642142312db9eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:00 +0000
Subject: [PATCH 51/66] fix: an update or reset of the timestamp that is not
 committed is not answered as done

---
 src/coordinator/tso_control.cc | 8 ++++++++
 src/raft/state_machine.cc      | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/coordinator/tso_control.cc b/src/coordinator/tso_control.cc
index 22ed84a..8df4ee5 100644
--- a/src/coordinator/tso_control.cc
+++ b/src/coordinator/tso_control.cc
@@ -535,6 +535,10 @@ butil::Status TsoControl::SubmitMetaIncrementAsync(google::protobuf::Closure* do
   auto status = engine_->AsyncWrite(ctx, WriteDataBuilder::BuildWrite(ctx->CfName(), meta_increment));
   if (!status.ok()) {
     DINGO_LOG(ERROR) << "ApplyMetaIncrement failed, errno=" << status.error_code() << " errmsg=" << status.error_str();
+    if (response != nullptr) {
+      response->mutable_error()->set_errcode(static_cast<pb::error::Errno>(status.error_code()));
+      response->mutable_error()->set_errmsg(status.error_str());
+    }
     if (done != nullptr) {
       brpc::ClosureGuard fail_done(done);
     }
@@ -561,6 +565,10 @@ butil::Status TsoControl::SubmitMetaIncrementSync(google::protobuf::Closure* don
   auto status = engine_->Write(ctx, WriteDataBuilder::BuildWrite(ctx->CfName(), meta_increment));
   if (!status.ok()) {
     DINGO_LOG(ERROR) << "ApplyMetaIncrement failed, errno=" << status.error_code() << " errmsg=" << status.error_str();
+    if (response != nullptr) {
+      response->mutable_error()->set_errcode(static_cast<pb::error::Errno>(status.error_code()));
+      response->mutable_error()->set_errmsg(status.error_str());
+    }
     if (done != nullptr) {
       brpc::ClosureGuard fail_done(done);
     }
diff --git a/src/raft/state_machine.cc b/src/raft/state_machine.cc
index 8ffeb9b..b2f78cc 100644
--- a/src/raft/state_machine.cc
+++ b/src/raft/state_machine.cc
@@ -32,6 +32,10 @@ void BaseClosure::Run() {
     DINGO_LOG(ERROR) << fmt::format("[raft.sm][region({})] raft log commit failed, error: {} {}", ctx_->RegionId(),
                                     status().error_code(), status().error_str());
 
+    auto* done = dynamic_cast<braft::Closure*>(ctx_->Done());
+    if (done != nullptr) {
+      done->status().set_error(status().error_code(), status().error_str());
+    }
     ctx_->SetStatus(butil::Status(pb::error::ERAFT_COMMITLOG, status().error_str()));
   }
 
-- 
2.43.0


From 05bc4e25c93766b7c8166557b1a678953c28edb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:00 +0000
Subject: [PATCH 52/66] fix: the logical part of the timestamp does not go back
 without force

---
 src/coordinator/tso_control.cc | 11 +++++++++--
 src/coordinator/tso_control.h  |  3 +++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/tso_control.cc b/src/coordinator/tso_control.cc
index 8df4ee5..2c7e897 100644
--- a/src/coordinator/tso_control.cc
+++ b/src/coordinator/tso_control.cc
@@ -251,7 +251,7 @@ void TsoControl::ResetTso(const pb::meta::TsoRequest& request, pb::meta::TsoResp
   if (request.has_current_timestamp() && request.save_physical() > 0) {
     int64_t physical = request.save_physical();
     const pb::meta::TsoTimestamp& current = request.current_timestamp();
-    if (physical < tso_obj_.last_save_physical || current.physical() < tso_obj_.current_timestamp.physical()) {
+    if (IsFallback(physical, current)) {
       if (!request.force()) {
         DINGO_LOG(WARNING) << "time fallback save_physical:(" << physical << ", " << tso_obj_.last_save_physical
                            << ") current:(" << current.physical() << ", " << tso_obj_.current_timestamp.physical()
@@ -284,11 +284,18 @@ void TsoControl::ResetTso(const pb::meta::TsoRequest& request, pb::meta::TsoResp
   }
 }
 
+bool TsoControl::IsFallback(int64_t save_physical, const pb::meta::TsoTimestamp& timestamp) {
+  BAIDU_SCOPED_LOCK(tso_mutex_);
+  const auto& current = tso_obj_.current_timestamp;
+  return save_physical < tso_obj_.last_save_physical || timestamp.physical() < current.physical() ||
+         (timestamp.physical() == current.physical() && timestamp.logical() < current.logical());
+}
+
 void TsoControl::UpdateTso(const pb::meta::TsoRequest& request, pb::meta::TsoResponse* response) {
   int64_t physical = request.save_physical();
   const pb::meta::TsoTimestamp& current = request.current_timestamp();
   // can't rollback
-  if (physical < tso_obj_.last_save_physical || current.physical() < tso_obj_.current_timestamp.physical()) {
+  if (IsFallback(physical, current)) {
     DINGO_LOG(WARNING) << "time fallback save_physical:(" << physical << ", " << tso_obj_.last_save_physical
                        << ") current:(" << current.physical() << ", " << tso_obj_.current_timestamp.physical() << ", "
                        << current.logical() << ", " << tso_obj_.current_timestamp.logical() << ")";
diff --git a/src/coordinator/tso_control.h b/src/coordinator/tso_control.h
index 27a4415..4a8d3da 100644
--- a/src/coordinator/tso_control.h
+++ b/src/coordinator/tso_control.h
@@ -175,6 +175,9 @@ class TsoControl : public MetaControl {
   void OnApply(braft::Iterator &iter);
 
  private:
+  // Whether going on from timestamp would give out timestamps again.
+  bool IsFallback(int64_t save_physical, const pb::meta::TsoTimestamp &timestamp);
+
   TsoTimer tso_update_timer_;
   TsoObj tso_obj_;
   bthread_mutex_t tso_mutex_;  // for tso_obj_
-- 
2.43.0


From c306a05c442205bf97af727335dee13c967527da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:00 +0000
Subject: [PATCH 53/66] fix: querying the timestamp reads it under its lock

---
 src/coordinator/tso_control.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coordinator/tso_control.cc b/src/coordinator/tso_control.cc
index 2c7e897..cb3bb11 100644
--- a/src/coordinator/tso_control.cc
+++ b/src/coordinator/tso_control.cc
@@ -200,6 +200,7 @@ void TsoControl::Process(google::protobuf::RpcController* controller, const pb::
     response->set_op_type(request->op_type());
     // response->set_leader(butil::endpoint2str(_node.leader_id().addr).c_str());
     response->set_system_time(ClockRealtimeMs());
+    BAIDU_SCOPED_LOCK(tso_mutex_);
     response->set_save_physical(tso_obj_.last_save_physical);
     auto* timestamp = response->mutable_start_timestamp();
     *timestamp = tso_obj_.current_timestamp;
-- 
2.43.0


From c424bb1c0d603b0f9dccb221c7beb886b2684483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:29 +0000
Subject: [PATCH 54/66] fix: a new leader gives out timestamps only once its
 first update is applied

---
 src/coordinator/tso_control.cc | 26 ++++++++++++++++----------
 src/coordinator/tso_control.h  |  3 ++-
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/coordinator/tso_control.cc b/src/coordinator/tso_control.cc
index cb3bb11..118b38e 100644
--- a/src/coordinator/tso_control.cc
+++ b/src/coordinator/tso_control.cc
@@ -142,12 +142,6 @@ void TsoControl::GenTso(const pb::meta::TsoRequest* request, pb::meta::TsoRespon
     response->mutable_error()->set_errmsg("tso count should be positive and less than the number of logical timestamps");
     return;
   }
-  if (!is_healty_) {
-    DINGO_LOG(ERROR) << "TSO has wrong status, retry later";
-    response->mutable_error()->set_errcode(pb::error::Errno::ERETRY_LATER);
-    response->mutable_error()->set_errmsg("timestamp not ok, retry later");
-    return;
-  }
   pb::meta::TsoTimestamp current;
   bool need_retry = false;
   for (size_t i = 0; i < 50; i++) {
@@ -155,6 +149,14 @@ void TsoControl::GenTso(const pb::meta::TsoRequest* request, pb::meta::TsoRespon
       BAIDU_SCOPED_LOCK(tso_mutex_);
       int64_t physical = tso_obj_.current_timestamp.physical();
       if (physical != 0) {
+        // The logical part of what another leader gave out is not replicated: it is unknown what this replica may give
+        // out until its own first update in this term is applied.
+        if (serving_term_ != leader_term_.load(butil::memory_order_acquire)) {
+          DINGO_LOG(ERROR) << "TSO has wrong status, retry later";
+          response->mutable_error()->set_errcode(pb::error::Errno::ERETRY_LATER);
+          response->mutable_error()->set_errmsg("timestamp not ok, retry later");
+          return;
+        }
         int64_t new_logical = tso_obj_.current_timestamp.logical() + count;
         if (new_logical < kMaxLogical) {
           current = tso_obj_.current_timestamp;
@@ -267,13 +269,15 @@ void TsoControl::ResetTso(const pb::meta::TsoRequest& request, pb::meta::TsoResp
         return;
       }
     }
-    is_healty_ = true;
     DINGO_LOG(WARNING) << "reset tso save_physical: " << physical << " current: (" << current.physical() << ", "
                        << current.logical() << ")";
     {
       BAIDU_SCOPED_LOCK(tso_mutex_);
       tso_obj_.last_save_physical = physical;
       tso_obj_.current_timestamp = current;
+      if (response && request.force()) {
+        serving_term_ = leader_term_.load(butil::memory_order_acquire);
+      }
     }
     if (response) {
       response->set_save_physical(physical);
@@ -399,15 +403,17 @@ void TsoControl::OnLeaderStart(int64_t term) {
     current.set_physical(last_save + kUpdateTimestampGuardMs);
   }
   last_save = current.physical() + kSaveIntervalMs;
-  auto func = [this, last_save, current]() {
+  auto func = [this, term, last_save, current]() {
     LOG(INFO) << "leader_start current(phy:" << current.physical() << ",log:" << current.logical()
               << ") save:" << last_save;
     int ret = SyncTimestamp(current, last_save);
     if (ret < 0) {
       LOG(INFO) << "sync timestamp failed";
-      is_healty_ = false;
+    } else {
+      LOG(INFO) << "sync timestamp ok";
+      BAIDU_SCOPED_LOCK(tso_mutex_);
+      serving_term_ = term;
     }
-    LOG(INFO) << "sync timestamp ok";
     tso_update_timer_.start();
   };
   Bthread bth;
diff --git a/src/coordinator/tso_control.h b/src/coordinator/tso_control.h
index 4a8d3da..3b007d2 100644
--- a/src/coordinator/tso_control.h
+++ b/src/coordinator/tso_control.h
@@ -181,7 +181,8 @@ class TsoControl : public MetaControl {
   TsoTimer tso_update_timer_;
   TsoObj tso_obj_;
   bthread_mutex_t tso_mutex_;  // for tso_obj_
-  bool is_healty_ = true;
+  // the term this replica leads and gives out timestamps in, for which its first update is applied; under tso_mutex_
+  int64_t serving_term_{0};
 
   // node is leader or not
   butil::atomic<int64_t> leader_term_;
-- 
2.43.0


From d327e6e94b8c354179521c2a82c0d96d491009ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:01 +0000
Subject: [PATCH 55/66] fix: a timestamp update is checked and applied under
 one lock, so requests racing with it get no timestamp twice

---
 src/coordinator/tso_control.cc | 35 ++++++++++++++++------------------
 src/coordinator/tso_control.h  |  2 +-
 2 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/coordinator/tso_control.cc b/src/coordinator/tso_control.cc
index 118b38e..da80d59 100644
--- a/src/coordinator/tso_control.cc
+++ b/src/coordinator/tso_control.cc
@@ -254,8 +254,9 @@ void TsoControl::ResetTso(const pb::meta::TsoRequest& request, pb::meta::TsoResp
   if (request.has_current_timestamp() && request.save_physical() > 0) {
     int64_t physical = request.save_physical();
     const pb::meta::TsoTimestamp& current = request.current_timestamp();
-    if (IsFallback(physical, current)) {
-      if (!request.force()) {
+    {
+      BAIDU_SCOPED_LOCK(tso_mutex_);
+      if (IsFallback(physical, current) && !request.force()) {
         DINGO_LOG(WARNING) << "time fallback save_physical:(" << physical << ", " << tso_obj_.last_save_physical
                            << ") current:(" << current.physical() << ", " << tso_obj_.current_timestamp.physical()
                            << ", " << current.logical() << ", " << tso_obj_.current_timestamp.logical() << ")";
@@ -268,17 +269,14 @@ void TsoControl::ResetTso(const pb::meta::TsoRequest& request, pb::meta::TsoResp
         }
         return;
       }
-    }
-    DINGO_LOG(WARNING) << "reset tso save_physical: " << physical << " current: (" << current.physical() << ", "
-                       << current.logical() << ")";
-    {
-      BAIDU_SCOPED_LOCK(tso_mutex_);
       tso_obj_.last_save_physical = physical;
       tso_obj_.current_timestamp = current;
       if (response && request.force()) {
         serving_term_ = leader_term_.load(butil::memory_order_acquire);
       }
     }
+    DINGO_LOG(WARNING) << "reset tso save_physical: " << physical << " current: (" << current.physical() << ", "
+                       << current.logical() << ")";
     if (response) {
       response->set_save_physical(physical);
       auto* timestamp = response->mutable_start_timestamp();
@@ -290,7 +288,6 @@ void TsoControl::ResetTso(const pb::meta::TsoRequest& request, pb::meta::TsoResp
 }
 
 bool TsoControl::IsFallback(int64_t save_physical, const pb::meta::TsoTimestamp& timestamp) {
-  BAIDU_SCOPED_LOCK(tso_mutex_);
   const auto& current = tso_obj_.current_timestamp;
   return save_physical < tso_obj_.last_save_physical || timestamp.physical() < current.physical() ||
          (timestamp.physical() == current.physical() && timestamp.logical() < current.logical());
@@ -299,19 +296,19 @@ bool TsoControl::IsFallback(int64_t save_physical, const pb::meta::TsoTimestamp&
 void TsoControl::UpdateTso(const pb::meta::TsoRequest& request, pb::meta::TsoResponse* response) {
   int64_t physical = request.save_physical();
   const pb::meta::TsoTimestamp& current = request.current_timestamp();
-  // can't rollback
-  if (IsFallback(physical, current)) {
-    DINGO_LOG(WARNING) << "time fallback save_physical:(" << physical << ", " << tso_obj_.last_save_physical
-                       << ") current:(" << current.physical() << ", " << tso_obj_.current_timestamp.physical() << ", "
-                       << current.logical() << ", " << tso_obj_.current_timestamp.logical() << ")";
-    if (response) {
-      response->mutable_error()->set_errcode(pb::error::Errno::EINTERNAL);
-      response->mutable_error()->set_errmsg("time can't fallback");
-    }
-    return;
-  }
   {
     BAIDU_SCOPED_LOCK(tso_mutex_);
+    // can't rollback
+    if (IsFallback(physical, current)) {
+      DINGO_LOG(WARNING) << "time fallback save_physical:(" << physical << ", " << tso_obj_.last_save_physical
+                         << ") current:(" << current.physical() << ", " << tso_obj_.current_timestamp.physical() << ", "
+                         << current.logical() << ", " << tso_obj_.current_timestamp.logical() << ")";
+      if (response) {
+        response->mutable_error()->set_errcode(pb::error::Errno::EINTERNAL);
+        response->mutable_error()->set_errmsg("time can't fallback");
+      }
+      return;
+    }
     tso_obj_.last_save_physical = physical;
     tso_obj_.current_timestamp = current;
   }
diff --git a/src/coordinator/tso_control.h b/src/coordinator/tso_control.h
index 3b007d2..ab39502 100644
--- a/src/coordinator/tso_control.h
+++ b/src/coordinator/tso_control.h
@@ -175,7 +175,7 @@ class TsoControl : public MetaControl {
   void OnApply(braft::Iterator &iter);
 
  private:
-  // Whether going on from timestamp would give out timestamps again.
+  // Whether going on from timestamp would give out timestamps again; under tso_mutex_.
   bool IsFallback(int64_t save_physical, const pb::meta::TsoTimestamp &timestamp);
 
   TsoTimer tso_update_timer_;
-- 
2.43.0


From e3255eeb9f3c6ec4ed92eae137081d1ffcf3ef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:24 +0000
Subject: [PATCH 56/66] fix: two clients letting go of raft logs at the same
 time are both recorded

---
 src/log/rocks_log_storage.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/log/rocks_log_storage.cc b/src/log/rocks_log_storage.cc
index 7116164..fd9fded 100644
--- a/src/log/rocks_log_storage.cc
+++ b/src/log/rocks_log_storage.cc
@@ -568,7 +568,7 @@ void RocksLogStorage::UpdateLastIndex(const std::vector<LogEntry>& log_entries)
 }
 
 void RocksLogStorage::ResetFirstAndLastIndex(int64_t region_id, int64_t first_index, int64_t last_index) {
-  RWLockReadGuard guard(&rw_lock_);
+  RWLockWriteGuard guard(&rw_lock_);
 
   auto it = log_index_metas_.find(region_id);
   CHECK(it != log_index_metas_.end()) << fmt::format("[raft.log][{}] not found log index meta.", region_id);
@@ -1230,7 +1230,8 @@ int RocksLogStorage::TruncatePrefix(ClientType client_type, int64_t region_id, i
   int64_t last_index = 0;
   int64_t min_keep_first_index = INT64_MAX;
   {
-    RWLockReadGuard guard(&rw_lock_);
+    // Records what the client keeps, so exclude other clients.
+    RWLockWriteGuard guard(&rw_lock_);
 
     auto it = log_index_metas_.find(region_id);
     CHECK(it != log_index_metas_.end()) << fmt::format("[raft.log][{}] not found region.", region_id);
-- 
2.43.0


From 85513ec22720dac700a11a40292356b92ee157f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:24 +0000
Subject: [PATCH 57/66] fix: a vector index that released the raft log can hold
 it again, and its later snapshots count

---
 src/log/rocks_log_storage.cc | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/log/rocks_log_storage.cc b/src/log/rocks_log_storage.cc
index fd9fded..5626a81 100644
--- a/src/log/rocks_log_storage.cc
+++ b/src/log/rocks_log_storage.cc
@@ -1238,22 +1238,11 @@ int RocksLogStorage::TruncatePrefix(ClientType client_type, int64_t region_id, i
 
     first_index = it->second.first_index.load(std::memory_order_acquire);
     last_index = it->second.last_index.load(std::memory_order_acquire);
-    if (keep_first_index <= first_index) {
-      DINGO_LOG(INFO) << fmt::format("[raft.log][{}.{}.{}] truncate prefix ignore, keep_first_index({}).", region_id,
-                                     first_index, last_index, keep_first_index);
-      return 0;
-    }
 
+    // The latest request of a client counts, a client may hold logs again after it released them.
     for (auto& truncate_prefix : it->second.truncate_prefixs) {
       if (truncate_prefix.first == client_type) {
-        if (keep_first_index <= truncate_prefix.second) {
-          DINGO_LOG(INFO) << fmt::format(
-              "[raft.log][{}.{}.{}] truncate prefix ignore, client_type({}) keep_first_index({}/{}).", region_id,
-              first_index, last_index, ClientTypeName(client_type), truncate_prefix.second, keep_first_index);
-          return 0;
-        } else {
-          truncate_prefix.second = keep_first_index;
-        }
+        truncate_prefix.second = keep_first_index;
       }
 
       min_keep_first_index = std::min(min_keep_first_index, truncate_prefix.second);
-- 
2.43.0


From b0ba2b9acc0d7c9ca23ebf1702af16f63294f522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:24 +0000
Subject: [PATCH 58/66] fix: a snapshot installed beyond the end of the raft
 log leaves no hole in the log

---
 src/log/rocks_log_storage.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/log/rocks_log_storage.cc b/src/log/rocks_log_storage.cc
index 5626a81..639414d 100644
--- a/src/log/rocks_log_storage.cc
+++ b/src/log/rocks_log_storage.cc
@@ -1247,6 +1247,11 @@ int RocksLogStorage::TruncatePrefix(ClientType client_type, int64_t region_id, i
 
       min_keep_first_index = std::min(min_keep_first_index, truncate_prefix.second);
     }
+
+    // Raft starts over behind the end of the log (e.g. installed a snapshot), the logs held can't be continued.
+    if (client_type == ClientType::kRaft && keep_first_index > last_index + 1) {
+      min_keep_first_index = keep_first_index;
+    }
   }
 
   if (min_keep_first_index == INT64_MAX || min_keep_first_index <= first_index) {
-- 
2.43.0


From 5859fdedda389297d1dcc27950f29bc3d58834ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:24 +0000
Subject: [PATCH 59/66] fix: finding a raft log entry releases the iterator

---
 src/log/rocks_log_storage.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log/rocks_log_storage.cc b/src/log/rocks_log_storage.cc
index 639414d..db87560 100644
--- a/src/log/rocks_log_storage.cc
+++ b/src/log/rocks_log_storage.cc
@@ -1363,6 +1363,7 @@ bool RocksLogStorage::HasSpecificLog(int64_t region_id, int64_t begin_index, int
     log_entry.out_data.swap(value);
 
     if (matcher(log_entry)) {
+      delete it;
       return true;
     }
   }
-- 
2.43.0


From 0701ff4adccf5564f50a4c4df183cf43b81a19cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:09 +0000
Subject: [PATCH 60/66] fix: a table or index whose creation is replayed after
 a crash is listed once in its schema

---
 src/coordinator/coordinator_control_fsm.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/coordinator_control_fsm.cc b/src/coordinator/coordinator_control_fsm.cc
index f4368a5..149a633 100644
--- a/src/coordinator/coordinator_control_fsm.cc
+++ b/src/coordinator/coordinator_control_fsm.cc
@@ -15,6 +15,7 @@
 #include <sys/types.h>
 
 #include <bitset>
+#include <algorithm>
 #include <cstdint>
 #include <cstdlib>
 #include <memory>
@@ -1864,7 +1865,11 @@ void CoordinatorControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrem
         // auto* schema = schema_map_.seek(index.schema_id());
         if (ret1 > 0) {
           // add new created index's id to its parent schema's index_ids
-          schema_to_update.add_index_ids(index->id());
+          // (a replay after a crash finds it there already)
+          const auto& index_ids = schema_to_update.index_ids();
+          if (std::find(index_ids.begin(), index_ids.end(), index->id()) == index_ids.end()) {
+            schema_to_update.add_index_ids(index->id());
+          }
           auto ret2 = schema_meta_->Put(index->table().schema_id(), schema_to_update);
           if (!ret2.ok()) {
             DINGO_LOG(FATAL) << "ApplyMetaIncrement index CREATE, but schema_meta_->Put failed, [id=" << index->id()
@@ -2000,7 +2005,11 @@ void CoordinatorControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrem
         auto ret1 = schema_map_.Get(table->table().schema_id(), schema_to_update);
         if (ret1 > 0) {
           // add new created table's id to its parent schema's table_ids
-          schema_to_update.add_table_ids(table->id());
+          // (a replay after a crash finds it there already)
+          const auto& table_ids = schema_to_update.table_ids();
+          if (std::find(table_ids.begin(), table_ids.end(), table->id()) == table_ids.end()) {
+            schema_to_update.add_table_ids(table->id());
+          }
           auto ret1 = schema_meta_->Put(table->table().schema_id(), schema_to_update);
           if (!ret1.ok()) {
             DINGO_LOG(FATAL) << "ApplyMetaIncrement table CREATE, but schema_meta_->Put failed, [id=" << table->id()
-- 
2.43.0


From ff1b1cc81542f3d381a1cad141ce02e879fb0366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:09 +0000
Subject: [PATCH 61/66] fix: a table or index request that finds its schema
 dropped does not stop every coordinator

---
 src/coordinator/coordinator_control_fsm.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/coordinator_control_fsm.cc b/src/coordinator/coordinator_control_fsm.cc
index 149a633..c304672 100644
--- a/src/coordinator/coordinator_control_fsm.cc
+++ b/src/coordinator/coordinator_control_fsm.cc
@@ -1851,6 +1851,14 @@ void CoordinatorControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrem
       index->mutable_table()->mutable_definition()->set_revision(meta_revision);
 
       if (index->op_type() == pb::coordinator_internal::MetaIncrementOpType::CREATE) {
+        if (!schema_map_.Exists(index->table().schema_id())) {
+          // the schema was dropped by an earlier entry, after this request was checked
+          DINGO_LOG(ERROR) << "ApplyMetaIncrement index CREATE, but schema not exist, schema_id="
+                           << index->table().schema_id() << " index_id=" << index->id()
+                           << " index_name=" << index->table().definition().name();
+          continue;
+        }
+
         auto ret = index_meta_->Put(index->id(), index->table());
         if (!ret.ok()) {
           DINGO_LOG(FATAL) << "ApplyMetaIncrement index CREATE, [id=" << index->id()
@@ -1953,7 +1961,7 @@ void CoordinatorControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrem
                           << " parent_id=" << index->table().schema_id();
 
         } else {
-          DINGO_LOG(FATAL) << " DROP INDEX apply illegal schema_id=" << index->table().schema_id()
+          DINGO_LOG(ERROR) << " DROP INDEX apply illegal schema_id=" << index->table().schema_id()
                            << " index_id=" << index->id() << " index_name=" << index->table().definition().name();
         }
 
@@ -1992,6 +2000,14 @@ void CoordinatorControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrem
       table->mutable_table()->mutable_definition()->set_revision(meta_revision);
 
       if (table->op_type() == pb::coordinator_internal::MetaIncrementOpType::CREATE) {
+        if (!schema_map_.Exists(table->table().schema_id())) {
+          // the schema was dropped by an earlier entry, after this request was checked
+          DINGO_LOG(ERROR) << "ApplyMetaIncrement table CREATE, but schema not exist, schema_id="
+                           << table->table().schema_id() << " table_id=" << table->id()
+                           << " table_name=" << table->table().definition().name();
+          continue;
+        }
+
         auto ret = table_meta_->Put(table->id(), table->table());
         if (!ret.ok()) {
           DINGO_LOG(FATAL) << "ApplyMetaIncrement table CREATE, but Put failed, [id=" << table->id()
@@ -2096,7 +2112,7 @@ void CoordinatorControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrem
                           << " parent_id=" << table->table().schema_id();
 
         } else {
-          DINGO_LOG(FATAL) << " DROP TABLE apply illegal schema_id=" << table->table().schema_id()
+          DINGO_LOG(ERROR) << " DROP TABLE apply illegal schema_id=" << table->table().schema_id()
                            << " table_id=" << table->id() << " table_name=" << table->table().definition().name();
         }
 
-- 
2.43.0


From 2fbe4662ae6ffa10cc144ac2b052ac87b466751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:09 +0000
Subject: [PATCH 62/66] fix: advancing a tenant's safe points neither loses one
 of them nor undoes a rename

---
 src/coordinator/coordinator_control_fsm.cc | 74 +++++++---------------
 1 file changed, 24 insertions(+), 50 deletions(-)

diff --git a/src/coordinator/coordinator_control_fsm.cc b/src/coordinator/coordinator_control_fsm.cc
index c304672..e8e8256 100644
--- a/src/coordinator/coordinator_control_fsm.cc
+++ b/src/coordinator/coordinator_control_fsm.cc
@@ -1264,58 +1264,32 @@ void CoordinatorControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrem
           continue;
         }
 
-        int64_t old_safe_point_ts = tenant_internal.safe_point_ts();
-
-        // if safe_point_ts > 0, update safe_point_ts only
-        // else do not update safe_point_ts
-        if (tenant_increment->tenant().safe_point_ts() > 0) {
-          if (tenant_increment->tenant().safe_point_ts() <= tenant_internal.safe_point_ts()) {
-            DINGO_LOG(INFO) << "ApplyMetaIncrement tenant_mem UPDATE, but safe_point_ts <= old, [id="
-                            << tenant_increment->id() << "], old_safe_point_ts=" << tenant_internal.safe_point_ts()
-                            << ", new_safe_point_ts=" << tenant_increment->tenant().safe_point_ts();
-            goto RESOLVE_LOCK_;
+        // A request with safe points only advances them, each for itself and never backwards,
+        // any other request changes name and comment.
+        const auto& new_tenant = tenant_increment->tenant();
+        bool is_changed = false;
+        if (new_tenant.safe_point_ts() > 0 || new_tenant.resolve_lock_safe_point() > 0) {
+          if (new_tenant.safe_point_ts() > tenant_internal.safe_point_ts()) {
+            tenant_internal.set_safe_point_ts(new_tenant.safe_point_ts());
+            is_changed = true;
           }
-
-          tenant_internal.set_safe_point_ts(tenant_increment->tenant().safe_point_ts());
-          tenant_internal.set_update_timestamp(tenant_increment->tenant().update_timestamp());
-        } else {
-          tenant_internal.set_name(tenant_increment->tenant().name());
-          tenant_internal.set_comment(tenant_increment->tenant().comment());
-          tenant_internal.set_update_timestamp(tenant_increment->tenant().update_timestamp());
-        }
-
-      RESOLVE_LOCK_:
-        // if resolve_lock > 0, update resolve_lock only
-        // else do not update resolve_lock
-        if (tenant_increment->tenant().resolve_lock_safe_point() > 0) {
-          if (tenant_increment->tenant().resolve_lock_safe_point() <= tenant_internal.resolve_lock_safe_point()) {
-            if (tenant_increment->tenant().resolve_lock_safe_point() < tenant_internal.resolve_lock_safe_point()) {
-              DINGO_LOG(INFO) << "ApplyMetaIncrement tenant_mem UPDATE, but resolve_lock_safe_point < old, [id="
-                              << tenant_increment->id()
-                              << "], old_resolve_lock_safe_point=" << tenant_internal.resolve_lock_safe_point()
-                              << ", new_resolve_lock_safe_point="
-                              << tenant_increment->tenant().resolve_lock_safe_point();
-              continue;
-            } else {  // tenant_increment->tenant().resolve_lock_safe_point() ==
-                      // tenant_internal.resolve_lock_safe_point()
-              if (tenant_internal.safe_point_ts() <= old_safe_point_ts) {
-                DINGO_LOG(INFO) << "ApplyMetaIncrement tenant_mem UPDATE, although resolve_lock_safe_point == old = "
-                                << tenant_increment->tenant().resolve_lock_safe_point()
-                                << " but safe_point_ts <= old, [id=" << tenant_increment->id()
-                                << "], old_safe_point_ts=" << old_safe_point_ts
-                                << ", new_safe_point_ts=" << tenant_internal.safe_point_ts();
-                continue;
-              }
-            }
+          if (new_tenant.resolve_lock_safe_point() > tenant_internal.resolve_lock_safe_point()) {
+            tenant_internal.set_resolve_lock_safe_point(new_tenant.resolve_lock_safe_point());
+            is_changed = true;
           }
-
-          tenant_internal.set_resolve_lock_safe_point(tenant_increment->tenant().resolve_lock_safe_point());
-          tenant_internal.set_update_timestamp(tenant_increment->tenant().update_timestamp());
         } else {
-          tenant_internal.set_name(tenant_increment->tenant().name());
-          tenant_internal.set_comment(tenant_increment->tenant().comment());
-          tenant_internal.set_update_timestamp(tenant_increment->tenant().update_timestamp());
+          tenant_internal.set_name(new_tenant.name());
+          tenant_internal.set_comment(new_tenant.comment());
+          is_changed = true;
+        }
+        if (!is_changed) {
+          DINGO_LOG(INFO) << "ApplyMetaIncrement tenant_mem UPDATE, but safe points are not newer, [id="
+                          << tenant_increment->id() << "], old_safe_point_ts=" << tenant_internal.safe_point_ts()
+                          << ", old_resolve_lock_safe_point=" << tenant_internal.resolve_lock_safe_point()
+                          << ", tenant_increment=" << tenant_increment->ShortDebugString();
+          continue;
         }
+        tenant_internal.set_update_timestamp(new_tenant.update_timestamp());
 
         tenant_internal.set_revision(meta_revision);
 
@@ -1331,8 +1305,8 @@ void CoordinatorControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrem
         pb::meta::MetaEvent event;
         event.set_event_type(pb::meta::MetaEventType::META_EVENT_TENANT_UPDATE);
         event.mutable_tenant()->set_id(tenant_increment->tenant().id());
-        event.mutable_tenant()->set_name(tenant_increment->tenant().name());
-        event.mutable_tenant()->set_comment(tenant_increment->tenant().comment());
+        event.mutable_tenant()->set_name(tenant_internal.name());
+        event.mutable_tenant()->set_comment(tenant_internal.comment());
         event.mutable_tenant()->set_revision(meta_revision);
         event_list->push_back(event);
         watch_bitset.set(pb::meta::MetaEventType::META_EVENT_TENANT_UPDATE);
-- 
2.43.0


From 4165101149bb26ff5c2ac052ffc891ce2cf906b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:09 +0000
Subject: [PATCH 63/66] fix: a region command moved to another store stays
 moved, and one already finished stops no coordinator

---
 src/coordinator/coordinator_control_fsm.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/coordinator/coordinator_control_fsm.cc b/src/coordinator/coordinator_control_fsm.cc
index e8e8256..24ca06b 100644
--- a/src/coordinator/coordinator_control_fsm.cc
+++ b/src/coordinator/coordinator_control_fsm.cc
@@ -2265,9 +2265,10 @@ void CoordinatorControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrem
           region_cmd_meta_->Get(region_cmd_id, region_cmd_internal);
 
           if (region_cmd_internal.id() != region_cmd_id) {
-            DINGO_LOG(FATAL) << "ApplyMetaIncrement store_operation MODIFY, but not found, store_operation="
+            DINGO_LOG(ERROR) << "ApplyMetaIncrement store_operation MODIFY, but not found, store_operation="
                              << store_operation.ShortDebugString() << ", region_cmd_id=" << region_cmd_id
                              << ", region_cmd_internal=" << region_cmd_internal.ShortDebugString();
+            continue;
           }
 
           // delete region_cmd from old_store_operation
@@ -2280,6 +2281,13 @@ void CoordinatorControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrem
             }
           }
 
+          if (old_store_operation_residual.region_cmd_ids_size() == old_store_operation_in_map.region_cmd_ids_size()) {
+            // moved by an earlier request, or by this one before a crash
+            DINGO_LOG(ERROR) << "ApplyMetaIncrement store_operation MODIFY, but region_cmd is not in the old one, "
+                             << "region_cmd_id=" << region_cmd_id << ", old_store_id=" << old_store_id;
+            continue;
+          }
+
           int ret = store_operation_map_.Put(old_store_id, old_store_operation_residual);
           if (ret > 0) {
             DINGO_LOG(INFO) << "ApplyMetaIncrement store_operation MODIFY, [old_store_id=" << old_store_id
@@ -2302,6 +2310,10 @@ void CoordinatorControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrem
                              << ", new_store_operation_in_map=" << new_store_operation_in_map.ShortDebugString();
           }
 
+          // meta_write_kv
+          meta_write_to_kv.push_back(store_operation_meta_->TransformToKvValue(old_store_operation_residual));
+          meta_write_to_kv.push_back(store_operation_meta_->TransformToKvValue(new_store_operation_in_map));
+
           // update region_cmd's store_id
           region_cmd_internal.mutable_region_cmd()->set_store_id(new_store_id);
           auto ret1 = region_cmd_meta_->Put(region_cmd_id, region_cmd_internal);
-- 
2.43.0


From 0069cabe15e868d426b6b3a52cdc3583d5feb3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:09 +0000
Subject: [PATCH 64/66] fix: deleting a job that is gone already does not stop
 every coordinator

---
 src/coordinator/coordinator_control_fsm.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/coordinator/coordinator_control_fsm.cc b/src/coordinator/coordinator_control_fsm.cc
index 24ca06b..25b824f 100644
--- a/src/coordinator/coordinator_control_fsm.cc
+++ b/src/coordinator/coordinator_control_fsm.cc
@@ -2450,6 +2450,12 @@ void CoordinatorControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrem
                                           job.job_id(), ret.error_code(), ret.error_str());
         }
 
+        if (temp_job.id() != job.job_id()) {
+          // deleted by an earlier request, or by this one before a crash
+          DINGO_LOG(INFO) << fmt::format("ApplyMetaIncrement job_id:{} DELETE, but not exist", job.job_id());
+          continue;
+        }
+
         temp_job.set_finish_time(Helper::NowTime());
         temp_job.set_status("success");
         ret = job_archive_->Put(job.job_id(), temp_job);
-- 
2.43.0


From 664d0ad280816e835f83438ddd97173f41ffd808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:09 +0000
Subject: [PATCH 65/66] fix: a crash while a coordinator snapshot is installed
 leaves the installation to be repeated

---
 src/coordinator/coordinator_control_fsm.cc | 56 +++++++++++-----------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/coordinator/coordinator_control_fsm.cc b/src/coordinator/coordinator_control_fsm.cc
index 25b824f..1db09f3 100644
--- a/src/coordinator/coordinator_control_fsm.cc
+++ b/src/coordinator/coordinator_control_fsm.cc
@@ -420,34 +420,6 @@ bool CoordinatorControl::LoadMetaFromSnapshotFile(pb::coordinator_internal::Meta
 
   std::vector<pb::common::KeyValue> kvs;
 
-  // 0.id_epoch map
-  kvs.reserve(meta_snapshot_file.id_epoch_map_kvs_size());
-  for (int i = 0; i < meta_snapshot_file.id_epoch_map_kvs_size(); i++) {
-    kvs.push_back(meta_snapshot_file.id_epoch_map_kvs(i));
-  }
-  {
-    // BAIDU_SCOPED_LOCK(id_epoch_map_mutex_);
-    if (!id_epoch_meta_->Recover(kvs)) {
-      return false;
-    }
-
-    // remove data in rocksdb
-    if (!meta_writer_->DeletePrefix(id_epoch_meta_->internal_prefix)) {
-      DINGO_LOG(ERROR) << "Coordinator delete id_epoch_meta_ range failed in LoadMetaFromSnapshotFile";
-      return false;
-    }
-    DINGO_LOG(INFO) << "Coordinator delete range id_epoch_meta_ success in LoadMetaFromSnapshotFile";
-
-    // write data to rocksdb
-    if (!meta_writer_->Put(kvs)) {
-      DINGO_LOG(ERROR) << "Coordinator write id_epoch_meta_ failed in LoadMetaFromSnapshotFile";
-      return false;
-    }
-    DINGO_LOG(INFO) << "Coordinator put id_epoch_meta_ success in LoadMetaFromSnapshotFile";
-  }
-  DINGO_LOG(INFO) << "LoadSnapshot id_epoch_meta, count=" << kvs.size();
-  kvs.clear();
-
   // 1.coordinator map
   kvs.reserve(meta_snapshot_file.coordinator_map_kvs_size());
   for (int i = 0; i < meta_snapshot_file.coordinator_map_kvs_size(); i++) {
@@ -949,6 +921,34 @@ bool CoordinatorControl::LoadMetaFromSnapshotFile(pb::coordinator_internal::Meta
   DINGO_LOG(INFO) << "LoadSnapshot tenant_mem_meta, count=" << kvs.size();
   kvs.clear();
 
+  // 0.id_epoch map, at last: it holds the applied index, which tells an interrupted installation from a finished one
+  kvs.reserve(meta_snapshot_file.id_epoch_map_kvs_size());
+  for (int i = 0; i < meta_snapshot_file.id_epoch_map_kvs_size(); i++) {
+    kvs.push_back(meta_snapshot_file.id_epoch_map_kvs(i));
+  }
+  {
+    // BAIDU_SCOPED_LOCK(id_epoch_map_mutex_);
+    if (!id_epoch_meta_->Recover(kvs)) {
+      return false;
+    }
+
+    // remove data in rocksdb
+    if (!meta_writer_->DeletePrefix(id_epoch_meta_->internal_prefix)) {
+      DINGO_LOG(ERROR) << "Coordinator delete id_epoch_meta_ range failed in LoadMetaFromSnapshotFile";
+      return false;
+    }
+    DINGO_LOG(INFO) << "Coordinator delete range id_epoch_meta_ success in LoadMetaFromSnapshotFile";
+
+    // write data to rocksdb
+    if (!meta_writer_->Put(kvs)) {
+      DINGO_LOG(ERROR) << "Coordinator write id_epoch_meta_ failed in LoadMetaFromSnapshotFile";
+      return false;
+    }
+    DINGO_LOG(INFO) << "Coordinator put id_epoch_meta_ success in LoadMetaFromSnapshotFile";
+  }
+  DINGO_LOG(INFO) << "LoadSnapshot id_epoch_meta, count=" << kvs.size();
+  kvs.clear();
+
   // build id_epoch, schema_name, table_name, index_name maps
   BuildTempMaps();
 
-- 
2.43.0


From 0a0714b0e293f20e3b2149b1010efdcd781b6d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:09 +0000
Subject: [PATCH 66/66] fix: a GC safe point is answered only once it is
 applied

---
 src/coordinator/coordinator_control_coor.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/coordinator/coordinator_control_coor.cc b/src/coordinator/coordinator_control_coor.cc
index 1301507..879c560 100644
--- a/src/coordinator/coordinator_control_coor.cc
+++ b/src/coordinator/coordinator_control_coor.cc
@@ -5971,7 +5971,8 @@ butil::Status CoordinatorControl::UpdateGCSafePoint(
   }
 
   // update safe_point_ts
-  int64_t now_safe_point = GetPresentId(pb::coordinator::IdEpochType::ID_GC_SAFE_POINT);
+  // compare with what is applied: a higher one that is only being proposed may never get through
+  int64_t now_safe_point = id_epoch_map_.GetPresentId(pb::coordinator::IdEpochType::ID_GC_SAFE_POINT);
 
   if (now_safe_point >= safe_point) {
     DINGO_LOG(WARNING) << "UpdateGCSafePoint now_safe_point=" << now_safe_point << " >= safe_point=" << safe_point
@@ -5983,7 +5984,8 @@ butil::Status CoordinatorControl::UpdateGCSafePoint(
   }
 
   // update resolve_lock_safe_point
-  int64_t now_resolve_lock_safe_point = GetPresentId(pb::coordinator::IdEpochType::ID_GC_RESOLVE_LOCK_SAFE_POINT);
+  int64_t now_resolve_lock_safe_point =
+      id_epoch_map_.GetPresentId(pb::coordinator::IdEpochType::ID_GC_RESOLVE_LOCK_SAFE_POINT);
 
   if (now_resolve_lock_safe_point >= resolve_lock_safe_point) {
     DINGO_LOG(WARNING) << "UpdateGCSafePoint now_resolve_lock_safe_point=" << now_resolve_lock_safe_point
@@ -6068,8 +6070,8 @@ butil::Status CoordinatorControl::GetGCSafePoint(int64_t& safe_point, bool& gc_s
                                                  int64_t& resolve_lock_safe_point,
                                                  const std::vector<int64_t>& tenant_resolve_lock_ids,
                                                  std::map<int64_t, int64_t>& resolve_lock_tenant_safe_points) {
-  safe_point = GetPresentId(pb::coordinator::IdEpochType::ID_GC_SAFE_POINT);
-  resolve_lock_safe_point = GetPresentId(pb::coordinator::IdEpochType::ID_GC_RESOLVE_LOCK_SAFE_POINT);
+  safe_point = id_epoch_map_.GetPresentId(pb::coordinator::IdEpochType::ID_GC_SAFE_POINT);
+  resolve_lock_safe_point = id_epoch_map_.GetPresentId(pb::coordinator::IdEpochType::ID_GC_RESOLVE_LOCK_SAFE_POINT);
   pb::coordinator_internal::CommonInternal common;
   common_disk_meta_->Get(Constant::kGcStopKey, common);
   gc_stop = (common.value() == Constant::kGcStopValueTrue);
-- 
2.43.0

