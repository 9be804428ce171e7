From 7e67d1a4488105584b5d82b62f2e6b4680d098da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 01/13] fix: hashCode of field-less messages recursed without
 end

---
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend041.java | 2 +-
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend042.java | 2 +-
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend043.java | 2 +-
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend044.java | 2 +-
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend045.java | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend041.java   | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend042.java   | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend043.java   | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend044.java   | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend045.java   | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder041.java     | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder042.java     | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder043.java     | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder044.java     | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder045.java     | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Heartbeat.java   | 2 +-
 .../java/com/finproto/bjse/trade/messages/QuoteExtend071.java   | 2 +-
 .../bjse/trade/messages/TradeCaptureCofirmExtend060.java        | 2 +-
 .../bjse/trade/messages/TradeCaptureCofirmExtend061.java        | 2 +-
 .../bjse/trade/messages/TradeCaptureConfirmExtend060.java       | 2 +-
 .../bjse/trade/messages/TradeCaptureConfirmExtend061.java       | 2 +-
 .../bjse/trade/messages/TradeCaptureReportAckExtend060.java     | 2 +-
 .../bjse/trade/messages/TradeCaptureReportAckExtend061.java     | 2 +-
 .../bjse/trade/messages/TradeCaptureReportExtend060.java        | 2 +-
 .../bjse/trade/messages/TradeCaptureReportExtend061.java        | 2 +-
 .../src/main/java/com/finproto/sample/messages/EmptyPacket.java | 2 +-
 .../src/main/java/com/finproto/sse/bin/messages/Heartbeat.java  | 2 +-
 .../src/main/java/com/finproto/szse/bin/messages/Heartbeat.java | 2 +-
 28 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend041.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend041.java
index 4337fd1..0a9e43c 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend041.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend041.java
@@ -14,7 +14,7 @@ public class ConfirmExtend041 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend042.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend042.java
index 373f9d0..578fd66 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend042.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend042.java
@@ -14,7 +14,7 @@ public class ConfirmExtend042 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend043.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend043.java
index 49d18a2..4d0ebeb 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend043.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend043.java
@@ -14,7 +14,7 @@ public class ConfirmExtend043 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend044.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend044.java
index 609f670..af9e27f 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend044.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend044.java
@@ -14,7 +14,7 @@ public class ConfirmExtend044 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend045.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend045.java
index 2c41e8c..764c0f4 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend045.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend045.java
@@ -14,7 +14,7 @@ public class ConfirmExtend045 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend041.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend041.java
index 3a7dc0a..f4958a3 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend041.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend041.java
@@ -14,7 +14,7 @@ public class Extend041 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend042.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend042.java
index 491766d..7353ef7 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend042.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend042.java
@@ -14,7 +14,7 @@ public class Extend042 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend043.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend043.java
index de963cd..3fcfd6f 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend043.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend043.java
@@ -14,7 +14,7 @@ public class Extend043 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend044.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend044.java
index aa23b27..0b6b066 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend044.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend044.java
@@ -14,7 +14,7 @@ public class Extend044 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend045.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend045.java
index 4086ae8..dedda75 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend045.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend045.java
@@ -14,7 +14,7 @@ public class Extend045 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder041.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder041.java
index 400bdd0..e58bdcc 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder041.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder041.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder041 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder042.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder042.java
index eef02f0..bad5f0e 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder042.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder042.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder042 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder043.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder043.java
index 01f43f9..80c9bb2 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder043.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder043.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder043 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder044.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder044.java
index 253e558..03c4c31 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder044.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder044.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder044 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder045.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder045.java
index c89907e..e9c1e66 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder045.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder045.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder045 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Heartbeat.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Heartbeat.java
index c90284b..32223c6 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Heartbeat.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Heartbeat.java
@@ -14,7 +14,7 @@ public class Heartbeat implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteExtend071.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteExtend071.java
index 79019eb..498a774 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteExtend071.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteExtend071.java
@@ -14,7 +14,7 @@ public class QuoteExtend071 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend060.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend060.java
index 932549e..01ff4f3 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend060.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend060.java
@@ -14,7 +14,7 @@ public class TradeCaptureCofirmExtend060 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend061.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend061.java
index 5c23cec..23034b3 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend061.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend061.java
@@ -14,7 +14,7 @@ public class TradeCaptureCofirmExtend061 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend060.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend060.java
index 2fb2ab9..a489dec 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend060.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend060.java
@@ -14,7 +14,7 @@ public class TradeCaptureConfirmExtend060 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend061.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend061.java
index df3faa7..eadab1c 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend061.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend061.java
@@ -14,7 +14,7 @@ public class TradeCaptureConfirmExtend061 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend060.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend060.java
index bb63a9d..a77a391 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend060.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend060.java
@@ -14,7 +14,7 @@ public class TradeCaptureReportAckExtend060 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend061.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend061.java
index 243d0e8..d355914 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend061.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend061.java
@@ -14,7 +14,7 @@ public class TradeCaptureReportAckExtend061 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend060.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend060.java
index 8bc38be..151ec61 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend060.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend060.java
@@ -14,7 +14,7 @@ public class TradeCaptureReportExtend060 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend061.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend061.java
index ddd9f60..768555b 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend061.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend061.java
@@ -14,7 +14,7 @@ public class TradeCaptureReportExtend061 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/EmptyPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/EmptyPacket.java
index 765c155..3ec186a 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/EmptyPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/EmptyPacket.java
@@ -14,7 +14,7 @@ public class EmptyPacket implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/Heartbeat.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/Heartbeat.java
index 988f970..5626874 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/Heartbeat.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/Heartbeat.java
@@ -14,7 +14,7 @@ public class Heartbeat implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Heartbeat.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Heartbeat.java
index 92acb8d..ea9135f 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Heartbeat.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Heartbeat.java
@@ -14,7 +14,7 @@ public class Heartbeat implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
-- 
2.43.0


From ac7c3bbd65a7815dc2ecc5c33da90f1f23b275be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 02/13] fix: write the full padding of an empty left-padded
 fixed string

---
 codec/src/main/java/com/finproto/codec/BinaryCodec.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codec/src/main/java/com/finproto/codec/BinaryCodec.java b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
index 5d8d8e6..1edfa1b 100644
--- a/codec/src/main/java/com/finproto/codec/BinaryCodec.java
+++ b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
@@ -24,6 +24,8 @@ public interface BinaryCodec {
         padChar(byteBuf, len - writedLen, padChar);
       }
       byteBuf.writeBytes(bytes, 0, writedLen);
+    } else if (padLeft) {
+      padChar(byteBuf, len, padChar);
     }
     if (!padLeft && writedLen < len) {
       padChar(byteBuf, len - writedLen, padChar);
-- 
2.43.0


From c94d8cfa0d4d061131906e80bbbd33fba78d11ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 03/13] fix: cut over-long fixed strings at a character
 boundary

---
 codec/src/main/java/com/finproto/codec/BinaryCodec.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codec/src/main/java/com/finproto/codec/BinaryCodec.java b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
index 1edfa1b..242f934 100644
--- a/codec/src/main/java/com/finproto/codec/BinaryCodec.java
+++ b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
@@ -20,6 +20,10 @@ public interface BinaryCodec {
     if (!StringUtil.isNullOrEmpty(value)) {
       byte[] bytes = value.getBytes(StandardCharsets.UTF_8);
       writedLen = Math.min(bytes.length, len);
+      // never cut inside a UTF-8 multi-byte character
+      while (writedLen > 0 && writedLen < bytes.length && (bytes[writedLen] & 0xC0) == 0x80) {
+        writedLen--;
+      }
       if (padLeft && writedLen < len) {
         padChar(byteBuf, len - writedLen, padChar);
       }
-- 
2.43.0


From ae2f190ec96f1fcddc7eaf16e444b215bdd727f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 04/13] fix: compute the frame checksum over this frame only

---
 .../main/java/com/finproto/sample/messages/RootPacket.java    | 4 +++-
 .../main/java/com/finproto/sse/bin/messages/SseBinary.java    | 4 +++-
 .../main/java/com/finproto/szse/bin/messages/SzseBinary.java  | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
index 1cafb0c..eb08fab 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
@@ -50,6 +50,7 @@ public class RootPacket implements BinaryCodec {
 
   @Override
   public void encode(ByteBuf byteBuf) {
+    int frameStart = byteBuf.writerIndex();
     byteBuf.writeShortLE(this.msgType);
     int payloadLenPos = byteBuf.writerIndex();
     byteBuf.writeIntLE(0);
@@ -64,7 +65,8 @@ public class RootPacket implements BinaryCodec {
     ChecksumService<ByteBuf, Integer> checksumService =
         ChecksumServiceFactory.getInstance().getChecksumService("CRC32");
     if (checksumService != null) {
-      this.checksum = (int) checksumService.calc(byteBuf);
+      int frameLen = byteBuf.writerIndex() - frameStart;
+      this.checksum = (int) checksumService.calc(byteBuf.slice(frameStart, frameLen));
     }
     byteBuf.writeIntLE(this.checksum);
   }
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
index 6827a93..aa92153 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
@@ -59,6 +59,7 @@ public class SseBinary implements BinaryCodec {
 
   @Override
   public void encode(ByteBuf byteBuf) {
+    int frameStart = byteBuf.writerIndex();
     byteBuf.writeInt(this.msgType);
     byteBuf.writeLong(this.msgSeqNum);
     int msgBodyLenPos = byteBuf.writerIndex();
@@ -74,7 +75,8 @@ public class SseBinary implements BinaryCodec {
     ChecksumService<ByteBuf, Integer> checksumService =
         ChecksumServiceFactory.getInstance().getChecksumService("SSE_BIN");
     if (checksumService != null) {
-      this.checksum = (int) checksumService.calc(byteBuf);
+      int frameLen = byteBuf.writerIndex() - frameStart;
+      this.checksum = (int) checksumService.calc(byteBuf.slice(frameStart, frameLen));
     }
     byteBuf.writeInt(this.checksum);
   }
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
index a064023..cfba4ae 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
@@ -50,6 +50,7 @@ public class SzseBinary implements BinaryCodec {
 
   @Override
   public void encode(ByteBuf byteBuf) {
+    int frameStart = byteBuf.writerIndex();
     byteBuf.writeInt(this.msgType);
     int bodyLengthPos = byteBuf.writerIndex();
     byteBuf.writeInt(0);
@@ -64,7 +65,8 @@ public class SzseBinary implements BinaryCodec {
     ChecksumService<ByteBuf, Integer> checksumService =
         ChecksumServiceFactory.getInstance().getChecksumService("SZSE_BIN");
     if (checksumService != null) {
-      this.checksum = (int) checksumService.calc(byteBuf);
+      int frameLen = byteBuf.writerIndex() - frameStart;
+      this.checksum = (int) checksumService.calc(byteBuf.slice(frameStart, frameLen));
     }
     byteBuf.writeInt(this.checksum);
   }
-- 
2.43.0


From 142a08d3d17e3c7f29b75909eda24a3038ce8ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 05/13] fix: register the SSE and SZSE checksum services by
 default

---
 .../main/java/com/finproto/codec/ChecksumServiceFactory.java    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java b/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java
index b4947d7..0fb10a5 100644
--- a/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java
+++ b/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java
@@ -15,6 +15,8 @@ public enum ChecksumServiceFactory {
   private ChecksumServiceFactory() {
     registry(new Crc16ChecksumService());
     registry(new Crc32ChecksumService());
+    registry(new SseBinChecksumService());
+    registry(new SzseBinChecksumService());
   }
 
   public void removeChecksumService(String name) {
-- 
2.43.0


From c337cde57fbc735e0a8708f11bcc2f0f665899f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 06/13] fix: IntBitMap.clear and LongBitMap.clear set the bit

---
 codec/src/main/java/com/finproto/bitmap/IntBitMap.java  | 2 +-
 codec/src/main/java/com/finproto/bitmap/LongBitMap.java | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/src/main/java/com/finproto/bitmap/IntBitMap.java b/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
index 78dcf42..f563abc 100644
--- a/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
+++ b/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
@@ -14,7 +14,7 @@ public final class IntBitMap implements BitMap {
   @Override
   public void clear(int pos) {
     int bit = 1 << (31 - pos);
-    bits |= bit;
+    bits &= ~bit;
   }
 
   @Override
diff --git a/codec/src/main/java/com/finproto/bitmap/LongBitMap.java b/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
index 2e9d1d7..018aba8 100644
--- a/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
+++ b/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
@@ -14,7 +14,7 @@ public final class LongBitMap implements BitMap {
   @Override
   public void clear(int pos) {
     long bit = 1L << (63 - pos);
-    bits |= bit;
+    bits &= ~bit;
   }
 
   @Override
-- 
2.43.0


From 0b295776312c7e8428aae224b59d0865a856bd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 07/13] fix: IntBitMap and LongBitMap write what their read
 expects

---
 codec/src/main/java/com/finproto/bitmap/IntBitMap.java  | 9 +++++----
 codec/src/main/java/com/finproto/bitmap/LongBitMap.java | 8 ++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/codec/src/main/java/com/finproto/bitmap/IntBitMap.java b/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
index f563abc..08bd376 100644
--- a/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
+++ b/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
@@ -24,11 +24,12 @@ public final class IntBitMap implements BitMap {
 
   @Override
   public void write(ByteBuf buf) {
-    for (int i = 0; i < 4; i++) {
-      byte b = (byte) ((bits >> (24 - i * 7)) & 0x7F);
-      if (i < 3) b |= 0x80;
-      buf.writeByte(b);
+    int val = bits;
+    while ((val & ~0x7F) != 0) {
+      buf.writeByte((val & 0x7F) | 0x80);
+      val >>>= 7;
     }
+    buf.writeByte(val);
   }
 
   @Override
diff --git a/codec/src/main/java/com/finproto/bitmap/LongBitMap.java b/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
index 018aba8..1172ef9 100644
--- a/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
+++ b/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
@@ -25,11 +25,11 @@ public final class LongBitMap implements BitMap {
   @Override
   public void write(ByteBuf buf) {
     long val = bits;
-    for (int i = 0; i < 8; i++) {
-      byte b = (byte) ((val >> (49 - i * 7)) & 0x7F);
-      if (i < 7) b |= 0x80;
-      buf.writeByte(b);
+    while ((val & ~0x7FL) != 0) {
+      buf.writeByte((int) (val & 0x7F) | 0x80);
+      val >>>= 7;
     }
+    buf.writeByte((int) val);
   }
 
   @Override
-- 
2.43.0


From f9077fa21073a2fe8f108ec25789b51e788c135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 08/13] fix: ShortBitMap.read dropped position 8

---
 codec/src/main/java/com/finproto/bitmap/ShortBitMap.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/src/main/java/com/finproto/bitmap/ShortBitMap.java b/codec/src/main/java/com/finproto/bitmap/ShortBitMap.java
index 5df3234..f2eb61b 100644
--- a/codec/src/main/java/com/finproto/bitmap/ShortBitMap.java
+++ b/codec/src/main/java/com/finproto/bitmap/ShortBitMap.java
@@ -35,7 +35,7 @@ public final class ShortBitMap implements BitMap {
   public void read(ByteBuf buf) {
     byte b1 = buf.readByte();
     byte b2 = buf.readByte();
-    bits = (short) (((b1 & 0x7F) << 8) | (b2 & 0x7F));
+    bits = (short) (((b1 & 0x7F) << 8) | (b2 & 0xFF));
   }
 
   @Override
-- 
2.43.0


From 7e563aa0604647aec1bdaa74199f7dd6a199a91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 09/13] fix: read 16-bit list counts and text lengths as
 unsigned

---
 .../bjse/trade/messages/PlatformInfo.java     |  2 +-
 .../bjse/trade/messages/QuoteResponse.java    |  2 +-
 .../messages/QuoteStatusReportExtend070.java  |  2 +-
 .../trade/messages/ReportSynchronization.java |  2 +-
 .../finproto/sample/messages/BasicPacket.java | 22 +++++++++----------
 .../sample/messages/NestedPacket.java         |  4 ++--
 .../sample/messages/StringPacket.java         | 20 ++++++++---------
 .../finproto/sample/messages/SubPacket.java   |  2 +-
 .../sse/bin/messages/ExecRptInfo.java         |  4 ++--
 .../sse/bin/messages/ExecRptSync.java         |  2 +-
 .../sse/bin/messages/ExecRptSyncRsp.java      |  2 +-
 11 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
index ff194c1..127c197 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
@@ -43,7 +43,7 @@ public class PlatformInfo implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     this.platformId = byteBuf.readShortLE();
-    short noPartitionsSize = byteBuf.readShortLE();
+    int noPartitionsSize = byteBuf.readUnsignedShortLE();
     if (noPartitionsSize > 0) {
       this.noPartitions = new ArrayList<>();
       for (int i = 0; i < noPartitionsSize; i++) {
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
index 07fffbd..ce4b122 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
@@ -245,7 +245,7 @@ public class QuoteResponse implements BinaryCodec {
     this.validUntilTime = byteBuf.readLongLE();
     this.quoteType = byteBuf.readByte();
     this.priceType = byteBuf.readByte();
-    short quote2Size = byteBuf.readShortLE();
+    int quote2Size = byteBuf.readUnsignedShortLE();
     if (quote2Size > 0) {
       this.quote2 = new ArrayList<>();
       for (int i = 0; i < quote2Size; i++) {
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
index 8c2e0ae..ea92074 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
@@ -153,7 +153,7 @@ public class QuoteStatusReportExtend070 implements BinaryCodec {
     this.cashMargin = readFixedString(byteBuf, 1);
     this.counterPartyPbuid = readFixedString(byteBuf, 6);
     this.memo = readFixedString(byteBuf, 120);
-    short quote1Size = byteBuf.readShortLE();
+    int quote1Size = byteBuf.readUnsignedShortLE();
     if (quote1Size > 0) {
       this.quote1 = new ArrayList<>();
       for (int i = 0; i < quote1Size; i++) {
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
index 5e50c56..2c545f0 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
@@ -32,7 +32,7 @@ public class ReportSynchronization implements BinaryCodec {
 
   @Override
   public void decode(ByteBuf byteBuf) {
-    short reportPartitionSyncSize = byteBuf.readShortLE();
+    int reportPartitionSyncSize = byteBuf.readUnsignedShortLE();
     if (reportPartitionSyncSize > 0) {
       this.reportPartitionSync = new ArrayList<>();
       for (int i = 0; i < reportPartitionSyncSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
index 43445e1..b80c25f 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
@@ -323,77 +323,77 @@ public class BasicPacket implements BinaryCodec {
     this.fieldU64 = byteBuf.readLongLE();
     this.fieldF32 = byteBuf.readFloatLE();
     this.fieldF64 = byteBuf.readDoubleLE();
-    short fieldI8ListSize = byteBuf.readShortLE();
+    int fieldI8ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI8ListSize > 0) {
       this.fieldI8List = new ArrayList<>();
       for (int i = 0; i < fieldI8ListSize; i++) {
         this.fieldI8List.add(byteBuf.readByte());
       }
     }
-    short fieldI16ListSize = byteBuf.readShortLE();
+    int fieldI16ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI16ListSize > 0) {
       this.fieldI16List = new ArrayList<>();
       for (int i = 0; i < fieldI16ListSize; i++) {
         this.fieldI16List.add(byteBuf.readShortLE());
       }
     }
-    short fieldI32ListSize = byteBuf.readShortLE();
+    int fieldI32ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI32ListSize > 0) {
       this.fieldI32List = new ArrayList<>();
       for (int i = 0; i < fieldI32ListSize; i++) {
         this.fieldI32List.add(byteBuf.readIntLE());
       }
     }
-    short fieldI64ListSize = byteBuf.readShortLE();
+    int fieldI64ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI64ListSize > 0) {
       this.fieldI64List = new ArrayList<>();
       for (int i = 0; i < fieldI64ListSize; i++) {
         this.fieldI64List.add(byteBuf.readLongLE());
       }
     }
-    short fieldCharListSize = byteBuf.readShortLE();
+    int fieldCharListSize = byteBuf.readUnsignedShortLE();
     if (fieldCharListSize > 0) {
       this.fieldCharList = new ArrayList<>();
       for (int i = 0; i < fieldCharListSize; i++) {
         this.fieldCharList.add(readFixedString(byteBuf, 1, '0', true));
       }
     }
-    short fieldU8ListSize = byteBuf.readShortLE();
+    int fieldU8ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU8ListSize > 0) {
       this.fieldU8List = new ArrayList<>();
       for (int i = 0; i < fieldU8ListSize; i++) {
         this.fieldU8List.add(byteBuf.readByte());
       }
     }
-    short fieldU16ListSize = byteBuf.readShortLE();
+    int fieldU16ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU16ListSize > 0) {
       this.fieldU16List = new ArrayList<>();
       for (int i = 0; i < fieldU16ListSize; i++) {
         this.fieldU16List.add(byteBuf.readShortLE());
       }
     }
-    short fieldU32ListSize = byteBuf.readShortLE();
+    int fieldU32ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU32ListSize > 0) {
       this.fieldU32List = new ArrayList<>();
       for (int i = 0; i < fieldU32ListSize; i++) {
         this.fieldU32List.add(byteBuf.readIntLE());
       }
     }
-    short fieldU64ListSize = byteBuf.readShortLE();
+    int fieldU64ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU64ListSize > 0) {
       this.fieldU64List = new ArrayList<>();
       for (int i = 0; i < fieldU64ListSize; i++) {
         this.fieldU64List.add(byteBuf.readLongLE());
       }
     }
-    short fieldF32ListSize = byteBuf.readShortLE();
+    int fieldF32ListSize = byteBuf.readUnsignedShortLE();
     if (fieldF32ListSize > 0) {
       this.fieldF32List = new ArrayList<>();
       for (int i = 0; i < fieldF32ListSize; i++) {
         this.fieldF32List.add(byteBuf.readFloatLE());
       }
     }
-    short fieldF64ListSize = byteBuf.readShortLE();
+    int fieldF64ListSize = byteBuf.readUnsignedShortLE();
     if (fieldF64ListSize > 0) {
       this.fieldF64List = new ArrayList<>();
       for (int i = 0; i < fieldF64ListSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
index 35d56a4..5530162 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
@@ -56,7 +56,7 @@ public class NestedPacket implements BinaryCodec {
       this.subPacket = new SubPacket();
     }
     this.subPacket.decode(byteBuf);
-    short subPacketListSize = byteBuf.readShortLE();
+    int subPacketListSize = byteBuf.readUnsignedShortLE();
     if (subPacketListSize > 0) {
       this.subPacketList = new ArrayList<>();
       for (int i = 0; i < subPacketListSize; i++) {
@@ -139,7 +139,7 @@ public class NestedPacket implements BinaryCodec {
     @Override
     public void decode(ByteBuf byteBuf) {
       this.fieldU32 = byteBuf.readIntLE();
-      short fieldI16ListSize = byteBuf.readShortLE();
+      int fieldI16ListSize = byteBuf.readUnsignedShortLE();
       if (fieldI16ListSize > 0) {
         this.fieldI16List = new ArrayList<>();
         for (int i = 0; i < fieldI16ListSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
index 7433f9b..7d5cf74 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
@@ -209,12 +209,12 @@ public class StringPacket implements BinaryCodec {
 
   @Override
   public void decode(ByteBuf byteBuf) {
-    short fieldDynamicStringLen = byteBuf.readShortLE();
+    int fieldDynamicStringLen = byteBuf.readUnsignedShortLE();
     if (fieldDynamicStringLen > 0) {
       this.fieldDynamicString =
           byteBuf.readCharSequence(fieldDynamicStringLen, StandardCharsets.UTF_8).toString();
     }
-    short fieldDynamicString1Len = byteBuf.readShortLE();
+    int fieldDynamicString1Len = byteBuf.readUnsignedShortLE();
     if (fieldDynamicString1Len > 0) {
       this.fieldDynamicString1 =
           byteBuf.readCharSequence(fieldDynamicString1Len, StandardCharsets.UTF_8).toString();
@@ -223,11 +223,11 @@ public class StringPacket implements BinaryCodec {
     this.fieldFixedString10 = readFixedString(byteBuf, 10, '0', true);
     this.fieldFixedString10Pad = readFixedString(byteBuf, 10, ' ', true);
     this.fieldFixedString10PadWithNullTerminator = readFixedString(byteBuf, 10, '\0', false);
-    short fieldDynamicStringListSize = byteBuf.readShortLE();
+    int fieldDynamicStringListSize = byteBuf.readUnsignedShortLE();
     if (fieldDynamicStringListSize > 0) {
       this.fieldDynamicStringList = new ArrayList<>();
       for (int i = 0; i < fieldDynamicStringListSize; i++) {
-        short fieldDynamicStringListLen = byteBuf.readShortLE();
+        int fieldDynamicStringListLen = byteBuf.readUnsignedShortLE();
         if (fieldDynamicStringListLen > 0) {
           this.fieldDynamicStringList.add(
               byteBuf
@@ -236,11 +236,11 @@ public class StringPacket implements BinaryCodec {
         }
       }
     }
-    short fieldDynamicString1ListSize = byteBuf.readShortLE();
+    int fieldDynamicString1ListSize = byteBuf.readUnsignedShortLE();
     if (fieldDynamicString1ListSize > 0) {
       this.fieldDynamicString1List = new ArrayList<>();
       for (int i = 0; i < fieldDynamicString1ListSize; i++) {
-        short fieldDynamicString1ListLen = byteBuf.readShortLE();
+        int fieldDynamicString1ListLen = byteBuf.readUnsignedShortLE();
         if (fieldDynamicString1ListLen > 0) {
           this.fieldDynamicString1List.add(
               byteBuf
@@ -249,28 +249,28 @@ public class StringPacket implements BinaryCodec {
         }
       }
     }
-    short fieldFixedString1ListSize = byteBuf.readShortLE();
+    int fieldFixedString1ListSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString1ListSize > 0) {
       this.fieldFixedString1List = new ArrayList<>();
       for (int i = 0; i < fieldFixedString1ListSize; i++) {
         this.fieldFixedString1List.add(readFixedString(byteBuf, 1, '0', true));
       }
     }
-    short fieldFixedString10ListSize = byteBuf.readShortLE();
+    int fieldFixedString10ListSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString10ListSize > 0) {
       this.fieldFixedString10List = new ArrayList<>();
       for (int i = 0; i < fieldFixedString10ListSize; i++) {
         this.fieldFixedString10List.add(readFixedString(byteBuf, 10, '0', true));
       }
     }
-    short fieldFixedString10ListPadSize = byteBuf.readShortLE();
+    int fieldFixedString10ListPadSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString10ListPadSize > 0) {
       this.fieldFixedString10ListPad = new ArrayList<>();
       for (int i = 0; i < fieldFixedString10ListPadSize; i++) {
         this.fieldFixedString10ListPad.add(readFixedString(byteBuf, 10, '0', false));
       }
     }
-    short fieldFixedString10PadWithNullTerminatorListSize = byteBuf.readShortLE();
+    int fieldFixedString10PadWithNullTerminatorListSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString10PadWithNullTerminatorListSize > 0) {
       this.fieldFixedString10PadWithNullTerminatorList = new ArrayList<>();
       for (int i = 0; i < fieldFixedString10PadWithNullTerminatorListSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
index 5de2656..fd11a55 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
@@ -43,7 +43,7 @@ public class SubPacket implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     this.fieldU32 = byteBuf.readIntLE();
-    short fieldI16ListSize = byteBuf.readShortLE();
+    int fieldI16ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI16ListSize > 0) {
       this.fieldI16List = new ArrayList<>();
       for (int i = 0; i < fieldI16ListSize; i++) {
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
index 8d6906a..3ad1f94 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
@@ -60,14 +60,14 @@ public class ExecRptInfo implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     this.platformId = byteBuf.readShort();
-    short pbuSize = byteBuf.readShort();
+    int pbuSize = byteBuf.readUnsignedShort();
     if (pbuSize > 0) {
       this.pbu = new ArrayList<>();
       for (int i = 0; i < pbuSize; i++) {
         this.pbu.add(readFixedString(byteBuf, 8));
       }
     }
-    short setIdSize = byteBuf.readShort();
+    int setIdSize = byteBuf.readUnsignedShort();
     if (setIdSize > 0) {
       this.setId = new ArrayList<>();
       for (int i = 0; i < setIdSize; i++) {
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
index 200e8f8..5bca71f 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
@@ -32,7 +32,7 @@ public class ExecRptSync implements BinaryCodec {
 
   @Override
   public void decode(ByteBuf byteBuf) {
-    short subExecRptSyncSize = byteBuf.readShort();
+    int subExecRptSyncSize = byteBuf.readUnsignedShort();
     if (subExecRptSyncSize > 0) {
       this.subExecRptSync = new ArrayList<>();
       for (int i = 0; i < subExecRptSyncSize; i++) {
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
index e77621b..246c39e 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
@@ -32,7 +32,7 @@ public class ExecRptSyncRsp implements BinaryCodec {
 
   @Override
   public void decode(ByteBuf byteBuf) {
-    short subExecRptSyncRspSize = byteBuf.readShort();
+    int subExecRptSyncRspSize = byteBuf.readUnsignedShort();
     if (subExecRptSyncRspSize > 0) {
       this.subExecRptSyncRsp = new ArrayList<>();
       for (int i = 0; i < subExecRptSyncRspSize; i++) {
-- 
2.43.0


From e432e6534e881c95fe010361354419e82555ea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 10/13] fix: keep empty texts when decoding a list of dynamic
 strings

---
 .../main/java/com/finproto/sample/messages/StringPacket.java  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
index 7d5cf74..8ff74c8 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
@@ -233,6 +233,8 @@ public class StringPacket implements BinaryCodec {
               byteBuf
                   .readCharSequence(fieldDynamicStringListLen, StandardCharsets.UTF_8)
                   .toString());
+        } else {
+          this.fieldDynamicStringList.add("");
         }
       }
     }
@@ -246,6 +248,8 @@ public class StringPacket implements BinaryCodec {
               byteBuf
                   .readCharSequence(fieldDynamicString1ListLen, StandardCharsets.UTF_8)
                   .toString());
+        } else {
+          this.fieldDynamicString1List.add("");
         }
       }
     }
-- 
2.43.0


From 7cb7f0f6ec98b49f8c7702b6d05fec4fe0aff96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 11/13] fix: decoding an empty list or text into a used message
 kept the old value

---
 .../bjse/trade/messages/PlatformInfo.java     |  2 ++
 .../bjse/trade/messages/QuoteResponse.java    |  2 ++
 .../messages/QuoteStatusReportExtend070.java  |  2 ++
 .../trade/messages/ReportSynchronization.java |  2 ++
 .../risk/bin/messages/CancelReject.java       |  8 +++++++
 .../risk/bin/messages/ExecutionReport.java    |  6 +++++
 .../finproto/risk/bin/messages/NewOrder.java  |  8 +++++++
 .../risk/bin/messages/OrderCancel.java        | 10 +++++++++
 .../risk/bin/messages/OrderConfirm.java       |  8 +++++++
 .../risk/bin/messages/RiskResult.java         |  4 ++++
 .../finproto/sample/messages/BasicPacket.java | 22 +++++++++++++++++++
 .../sample/messages/NestedPacket.java         |  4 ++++
 .../sample/messages/StringPacket.java         | 16 ++++++++++++++
 .../finproto/sample/messages/SubPacket.java   |  2 ++
 .../sse/bin/messages/ExecRptInfo.java         |  4 ++++
 .../sse/bin/messages/ExecRptSync.java         |  2 ++
 .../sse/bin/messages/ExecRptSyncRsp.java      |  2 ++
 .../szse/bin/messages/Extend206302.java       |  2 ++
 .../szse/bin/messages/PlatformInfo.java       |  2 ++
 .../bin/messages/ReportSynchronization.java   |  2 ++
 20 files changed, 110 insertions(+)

diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
index 127c197..9e01ed4 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
@@ -51,6 +51,8 @@ public class PlatformInfo implements BinaryCodec {
         noPartitions_.decode(byteBuf);
         this.noPartitions.add(noPartitions_);
       }
+    } else {
+      this.noPartitions = null;
     }
   }
 
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
index ce4b122..1c62551 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
@@ -253,6 +253,8 @@ public class QuoteResponse implements BinaryCodec {
         quote2_.decode(byteBuf);
         this.quote2.add(quote2_);
       }
+    } else {
+      this.quote2 = null;
     }
     this.applExtend = ApplExtendMessageFactory.getInstance().create(this.applId);
     this.applExtend.decode(byteBuf);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
index ea92074..9681fbc 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
@@ -161,6 +161,8 @@ public class QuoteStatusReportExtend070 implements BinaryCodec {
         quote1_.decode(byteBuf);
         this.quote1.add(quote1_);
       }
+    } else {
+      this.quote1 = null;
     }
   }
 
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
index 2c545f0..07f124b 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
@@ -40,6 +40,8 @@ public class ReportSynchronization implements BinaryCodec {
         reportPartitionSync_.decode(byteBuf);
         this.reportPartitionSync.add(reportPartitionSync_);
       }
+    } else {
+      this.reportPartitionSync = null;
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
index 923489e..2d01060 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
@@ -97,20 +97,28 @@ public class CancelReject implements BinaryCodec {
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+    } else {
+      this.uniqueOrderId = null;
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
           byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
+    } else {
+      this.uniqueOrigOrderId = null;
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+    } else {
+      this.clOrdId = null;
     }
     int origClOrdIdLen = byteBuf.readInt();
     if (origClOrdIdLen > 0) {
       this.origClOrdId =
           byteBuf.readCharSequence(origClOrdIdLen, StandardCharsets.UTF_8).toString();
+    } else {
+      this.origClOrdId = null;
     }
     this.cxlRejReason = byteBuf.readInt();
   }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
index 2cadc59..c3d6e15 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
@@ -100,14 +100,20 @@ public class ExecutionReport implements BinaryCodec {
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+    } else {
+      this.uniqueOrderId = null;
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+    } else {
+      this.clOrdId = null;
     }
     int ordCnfmIdLen = byteBuf.readInt();
     if (ordCnfmIdLen > 0) {
       this.ordCnfmId = byteBuf.readCharSequence(ordCnfmIdLen, StandardCharsets.UTF_8).toString();
+    } else {
+      this.ordCnfmId = null;
     }
     this.lastPx = byteBuf.readLong();
     this.lastQty = byteBuf.readLong();
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
index 78dcf79..3cd4ae5 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
@@ -126,14 +126,20 @@ public class NewOrder implements BinaryCodec {
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+    } else {
+      this.uniqueOrderId = null;
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+    } else {
+      this.clOrdId = null;
     }
     int securityIdLen = byteBuf.readInt();
     if (securityIdLen > 0) {
       this.securityId = byteBuf.readCharSequence(securityIdLen, StandardCharsets.UTF_8).toString();
+    } else {
+      this.securityId = null;
     }
     this.side = readFixedString(byteBuf, 1);
     this.price = byteBuf.readLong();
@@ -142,6 +148,8 @@ public class NewOrder implements BinaryCodec {
     int accountLen = byteBuf.readInt();
     if (accountLen > 0) {
       this.account = byteBuf.readCharSequence(accountLen, StandardCharsets.UTF_8).toString();
+    } else {
+      this.account = null;
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
index 458743d..6bbd3a6 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
@@ -103,24 +103,34 @@ public class OrderCancel implements BinaryCodec {
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+    } else {
+      this.uniqueOrderId = null;
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
           byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
+    } else {
+      this.uniqueOrigOrderId = null;
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+    } else {
+      this.clOrdId = null;
     }
     int origClOrdIdLen = byteBuf.readInt();
     if (origClOrdIdLen > 0) {
       this.origClOrdId =
           byteBuf.readCharSequence(origClOrdIdLen, StandardCharsets.UTF_8).toString();
+    } else {
+      this.origClOrdId = null;
     }
     int securityIdLen = byteBuf.readInt();
     if (securityIdLen > 0) {
       this.securityId = byteBuf.readCharSequence(securityIdLen, StandardCharsets.UTF_8).toString();
+    } else {
+      this.securityId = null;
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
index 2d23d1e..18d97b5 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
@@ -106,21 +106,29 @@ public class OrderConfirm implements BinaryCodec {
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+    } else {
+      this.uniqueOrderId = null;
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
           byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
+    } else {
+      this.uniqueOrigOrderId = null;
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+    } else {
+      this.clOrdId = null;
     }
     this.execType = readFixedString(byteBuf, 1);
     this.ordRejReason = byteBuf.readInt();
     int ordCnfmIdLen = byteBuf.readInt();
     if (ordCnfmIdLen > 0) {
       this.ordCnfmId = byteBuf.readCharSequence(ordCnfmIdLen, StandardCharsets.UTF_8).toString();
+    } else {
+      this.ordCnfmId = null;
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
index e6fe4c8..0d19418 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
@@ -62,11 +62,15 @@ public class RiskResult implements BinaryCodec {
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+    } else {
+      this.uniqueOrderId = null;
     }
     this.riskStatus = byteBuf.readByte();
     int riskReasonLen = byteBuf.readInt();
     if (riskReasonLen > 0) {
       this.riskReason = byteBuf.readCharSequence(riskReasonLen, StandardCharsets.UTF_8).toString();
+    } else {
+      this.riskReason = null;
     }
   }
 
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
index b80c25f..e0b4856 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
@@ -329,6 +329,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldI8ListSize; i++) {
         this.fieldI8List.add(byteBuf.readByte());
       }
+    } else {
+      this.fieldI8List = null;
     }
     int fieldI16ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI16ListSize > 0) {
@@ -336,6 +338,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldI16ListSize; i++) {
         this.fieldI16List.add(byteBuf.readShortLE());
       }
+    } else {
+      this.fieldI16List = null;
     }
     int fieldI32ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI32ListSize > 0) {
@@ -343,6 +347,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldI32ListSize; i++) {
         this.fieldI32List.add(byteBuf.readIntLE());
       }
+    } else {
+      this.fieldI32List = null;
     }
     int fieldI64ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI64ListSize > 0) {
@@ -350,6 +356,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldI64ListSize; i++) {
         this.fieldI64List.add(byteBuf.readLongLE());
       }
+    } else {
+      this.fieldI64List = null;
     }
     int fieldCharListSize = byteBuf.readUnsignedShortLE();
     if (fieldCharListSize > 0) {
@@ -357,6 +365,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldCharListSize; i++) {
         this.fieldCharList.add(readFixedString(byteBuf, 1, '0', true));
       }
+    } else {
+      this.fieldCharList = null;
     }
     int fieldU8ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU8ListSize > 0) {
@@ -364,6 +374,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldU8ListSize; i++) {
         this.fieldU8List.add(byteBuf.readByte());
       }
+    } else {
+      this.fieldU8List = null;
     }
     int fieldU16ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU16ListSize > 0) {
@@ -371,6 +383,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldU16ListSize; i++) {
         this.fieldU16List.add(byteBuf.readShortLE());
       }
+    } else {
+      this.fieldU16List = null;
     }
     int fieldU32ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU32ListSize > 0) {
@@ -378,6 +392,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldU32ListSize; i++) {
         this.fieldU32List.add(byteBuf.readIntLE());
       }
+    } else {
+      this.fieldU32List = null;
     }
     int fieldU64ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU64ListSize > 0) {
@@ -385,6 +401,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldU64ListSize; i++) {
         this.fieldU64List.add(byteBuf.readLongLE());
       }
+    } else {
+      this.fieldU64List = null;
     }
     int fieldF32ListSize = byteBuf.readUnsignedShortLE();
     if (fieldF32ListSize > 0) {
@@ -392,6 +410,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldF32ListSize; i++) {
         this.fieldF32List.add(byteBuf.readFloatLE());
       }
+    } else {
+      this.fieldF32List = null;
     }
     int fieldF64ListSize = byteBuf.readUnsignedShortLE();
     if (fieldF64ListSize > 0) {
@@ -399,6 +419,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldF64ListSize; i++) {
         this.fieldF64List.add(byteBuf.readDoubleLE());
       }
+    } else {
+      this.fieldF64List = null;
     }
   }
 
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
index 5530162..f57cab5 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
@@ -64,6 +64,8 @@ public class NestedPacket implements BinaryCodec {
         subPacketList_.decode(byteBuf);
         this.subPacketList.add(subPacketList_);
       }
+    } else {
+      this.subPacketList = null;
     }
     if (null == this.inerPacket) {
       this.inerPacket = new InerPacket();
@@ -145,6 +147,8 @@ public class NestedPacket implements BinaryCodec {
         for (int i = 0; i < fieldI16ListSize; i++) {
           this.fieldI16List.add(byteBuf.readShortLE());
         }
+      } else {
+        this.fieldI16List = null;
       }
     }
 
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
index 8ff74c8..4d0bf0d 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
@@ -213,11 +213,15 @@ public class StringPacket implements BinaryCodec {
     if (fieldDynamicStringLen > 0) {
       this.fieldDynamicString =
           byteBuf.readCharSequence(fieldDynamicStringLen, StandardCharsets.UTF_8).toString();
+    } else {
+      this.fieldDynamicString = null;
     }
     int fieldDynamicString1Len = byteBuf.readUnsignedShortLE();
     if (fieldDynamicString1Len > 0) {
       this.fieldDynamicString1 =
           byteBuf.readCharSequence(fieldDynamicString1Len, StandardCharsets.UTF_8).toString();
+    } else {
+      this.fieldDynamicString1 = null;
     }
     this.fieldFixedString1 = readFixedString(byteBuf, 1, '0', true);
     this.fieldFixedString10 = readFixedString(byteBuf, 10, '0', true);
@@ -237,6 +241,8 @@ public class StringPacket implements BinaryCodec {
           this.fieldDynamicStringList.add("");
         }
       }
+    } else {
+      this.fieldDynamicStringList = null;
     }
     int fieldDynamicString1ListSize = byteBuf.readUnsignedShortLE();
     if (fieldDynamicString1ListSize > 0) {
@@ -252,6 +258,8 @@ public class StringPacket implements BinaryCodec {
           this.fieldDynamicString1List.add("");
         }
       }
+    } else {
+      this.fieldDynamicString1List = null;
     }
     int fieldFixedString1ListSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString1ListSize > 0) {
@@ -259,6 +267,8 @@ public class StringPacket implements BinaryCodec {
       for (int i = 0; i < fieldFixedString1ListSize; i++) {
         this.fieldFixedString1List.add(readFixedString(byteBuf, 1, '0', true));
       }
+    } else {
+      this.fieldFixedString1List = null;
     }
     int fieldFixedString10ListSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString10ListSize > 0) {
@@ -266,6 +276,8 @@ public class StringPacket implements BinaryCodec {
       for (int i = 0; i < fieldFixedString10ListSize; i++) {
         this.fieldFixedString10List.add(readFixedString(byteBuf, 10, '0', true));
       }
+    } else {
+      this.fieldFixedString10List = null;
     }
     int fieldFixedString10ListPadSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString10ListPadSize > 0) {
@@ -273,6 +285,8 @@ public class StringPacket implements BinaryCodec {
       for (int i = 0; i < fieldFixedString10ListPadSize; i++) {
         this.fieldFixedString10ListPad.add(readFixedString(byteBuf, 10, '0', false));
       }
+    } else {
+      this.fieldFixedString10ListPad = null;
     }
     int fieldFixedString10PadWithNullTerminatorListSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString10PadWithNullTerminatorListSize > 0) {
@@ -281,6 +295,8 @@ public class StringPacket implements BinaryCodec {
         this.fieldFixedString10PadWithNullTerminatorList.add(
             readFixedString(byteBuf, 10, '\0', false));
       }
+    } else {
+      this.fieldFixedString10PadWithNullTerminatorList = null;
     }
   }
 
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
index fd11a55..be4e5ae 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
@@ -49,6 +49,8 @@ public class SubPacket implements BinaryCodec {
       for (int i = 0; i < fieldI16ListSize; i++) {
         this.fieldI16List.add(byteBuf.readShortLE());
       }
+    } else {
+      this.fieldI16List = null;
     }
   }
 
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
index 3ad1f94..2b7bdea 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
@@ -66,6 +66,8 @@ public class ExecRptInfo implements BinaryCodec {
       for (int i = 0; i < pbuSize; i++) {
         this.pbu.add(readFixedString(byteBuf, 8));
       }
+    } else {
+      this.pbu = null;
     }
     int setIdSize = byteBuf.readUnsignedShort();
     if (setIdSize > 0) {
@@ -73,6 +75,8 @@ public class ExecRptInfo implements BinaryCodec {
       for (int i = 0; i < setIdSize; i++) {
         this.setId.add(byteBuf.readInt());
       }
+    } else {
+      this.setId = null;
     }
   }
 
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
index 5bca71f..056dc62 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
@@ -40,6 +40,8 @@ public class ExecRptSync implements BinaryCodec {
         subExecRptSync_.decode(byteBuf);
         this.subExecRptSync.add(subExecRptSync_);
       }
+    } else {
+      this.subExecRptSync = null;
     }
   }
 
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
index 246c39e..3a98c6e 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
@@ -40,6 +40,8 @@ public class ExecRptSyncRsp implements BinaryCodec {
         subExecRptSyncRsp_.decode(byteBuf);
         this.subExecRptSyncRsp.add(subExecRptSyncRsp_);
       }
+    } else {
+      this.subExecRptSyncRsp = null;
     }
   }
 
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
index 995c7f9..eeb88c6 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
@@ -112,6 +112,8 @@ public class Extend206302 implements BinaryCodec {
     if (imcrejectTextLen > 0) {
       this.imcrejectText =
           byteBuf.readCharSequence(imcrejectTextLen, StandardCharsets.UTF_8).toString();
+    } else {
+      this.imcrejectText = null;
     }
   }
 
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java
index 3ce9ee0..1f168e2 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java
@@ -51,6 +51,8 @@ public class PlatformInfo implements BinaryCodec {
         platformPartition_.decode(byteBuf);
         this.platformPartition.add(platformPartition_);
       }
+    } else {
+      this.platformPartition = null;
     }
   }
 
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java
index 5a8674c..275a324 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java
@@ -40,6 +40,8 @@ public class ReportSynchronization implements BinaryCodec {
         partitionReport_.decode(byteBuf);
         this.partitionReport.add(partitionReport_);
       }
+    } else {
+      this.partitionReport = null;
     }
   }
 
-- 
2.43.0


From 23be87a663c3f13395508ec5817dcb9bc5732dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:07 +0000
Subject: [PATCH 12/13] fix: SSE message type lookup kept removed and replaced
 registrations

---
 .../src/main/java/com/finproto/sse/bin/messages/SseBinary.java  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
index aa92153..e17488b 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
@@ -210,10 +210,12 @@ public class SseBinary implements BinaryCodec {
 
     public void register(Class<?> clazz, Integer msgType, Supplier<BinaryCodec> supplier) {
       bodyMap.put(msgType, supplier);
+      reverseMap.values().remove(msgType);
       reverseMap.put(clazz, msgType);
     }
 
     public boolean remove(Integer msgType) {
+      reverseMap.values().remove(msgType);
       return null != bodyMap.remove(msgType);
     }
 
-- 
2.43.0


From c5c708155f6e9654bc0473db5e29c7369151c22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:46 +0000
Subject: [PATCH 13/13] fix: reading text stops at the readable bytes

readCharSequence does not check the readable bytes, so a truncated text was
completed with whatever the buffer held beyond its writer index.
---
 .../main/java/com/finproto/codec/BinaryCodec.java    |  2 +-
 .../com/finproto/risk/bin/messages/CancelReject.java |  8 ++++----
 .../finproto/risk/bin/messages/ExecutionReport.java  |  6 +++---
 .../com/finproto/risk/bin/messages/NewOrder.java     |  8 ++++----
 .../com/finproto/risk/bin/messages/OrderCancel.java  | 10 +++++-----
 .../com/finproto/risk/bin/messages/OrderConfirm.java |  8 ++++----
 .../com/finproto/risk/bin/messages/RiskResult.java   |  4 ++--
 .../com/finproto/sample/messages/StringPacket.java   | 12 ++++++------
 .../com/finproto/szse/bin/messages/Extend206302.java |  2 +-
 9 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/codec/src/main/java/com/finproto/codec/BinaryCodec.java b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
index 242f934..8f53b9a 100644
--- a/codec/src/main/java/com/finproto/codec/BinaryCodec.java
+++ b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
@@ -66,7 +66,7 @@ public interface BinaryCodec {
   }
 
   default String readFixedString(ByteBuf byteBuf, int len, char trimPadChar, boolean padLeft) {
-    String value = byteBuf.readCharSequence(len, StandardCharsets.UTF_8).toString();
+    String value = byteBuf.readSlice(len).toString(StandardCharsets.UTF_8);
     if (padLeft) {
       return trimByChar(value, trimPadChar, true);
     } else {
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
index 2d01060..2cdee20 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
@@ -96,27 +96,27 @@ public class CancelReject implements BinaryCodec {
     int uniqueOrderIdLen = byteBuf.readInt();
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     } else {
       this.uniqueOrderId = null;
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
-          byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrigOrderIdLen).toString(StandardCharsets.UTF_8);
     } else {
       this.uniqueOrigOrderId = null;
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     } else {
       this.clOrdId = null;
     }
     int origClOrdIdLen = byteBuf.readInt();
     if (origClOrdIdLen > 0) {
       this.origClOrdId =
-          byteBuf.readCharSequence(origClOrdIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(origClOrdIdLen).toString(StandardCharsets.UTF_8);
     } else {
       this.origClOrdId = null;
     }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
index c3d6e15..884ce72 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
@@ -99,19 +99,19 @@ public class ExecutionReport implements BinaryCodec {
     int uniqueOrderIdLen = byteBuf.readInt();
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     } else {
       this.uniqueOrderId = null;
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     } else {
       this.clOrdId = null;
     }
     int ordCnfmIdLen = byteBuf.readInt();
     if (ordCnfmIdLen > 0) {
-      this.ordCnfmId = byteBuf.readCharSequence(ordCnfmIdLen, StandardCharsets.UTF_8).toString();
+      this.ordCnfmId = byteBuf.readSlice(ordCnfmIdLen).toString(StandardCharsets.UTF_8);
     } else {
       this.ordCnfmId = null;
     }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
index 3cd4ae5..ba2e676 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
@@ -125,19 +125,19 @@ public class NewOrder implements BinaryCodec {
     int uniqueOrderIdLen = byteBuf.readInt();
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     } else {
       this.uniqueOrderId = null;
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     } else {
       this.clOrdId = null;
     }
     int securityIdLen = byteBuf.readInt();
     if (securityIdLen > 0) {
-      this.securityId = byteBuf.readCharSequence(securityIdLen, StandardCharsets.UTF_8).toString();
+      this.securityId = byteBuf.readSlice(securityIdLen).toString(StandardCharsets.UTF_8);
     } else {
       this.securityId = null;
     }
@@ -147,7 +147,7 @@ public class NewOrder implements BinaryCodec {
     this.ordType = readFixedString(byteBuf, 1);
     int accountLen = byteBuf.readInt();
     if (accountLen > 0) {
-      this.account = byteBuf.readCharSequence(accountLen, StandardCharsets.UTF_8).toString();
+      this.account = byteBuf.readSlice(accountLen).toString(StandardCharsets.UTF_8);
     } else {
       this.account = null;
     }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
index 6bbd3a6..aa7bd63 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
@@ -102,33 +102,33 @@ public class OrderCancel implements BinaryCodec {
     int uniqueOrderIdLen = byteBuf.readInt();
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     } else {
       this.uniqueOrderId = null;
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
-          byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrigOrderIdLen).toString(StandardCharsets.UTF_8);
     } else {
       this.uniqueOrigOrderId = null;
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     } else {
       this.clOrdId = null;
     }
     int origClOrdIdLen = byteBuf.readInt();
     if (origClOrdIdLen > 0) {
       this.origClOrdId =
-          byteBuf.readCharSequence(origClOrdIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(origClOrdIdLen).toString(StandardCharsets.UTF_8);
     } else {
       this.origClOrdId = null;
     }
     int securityIdLen = byteBuf.readInt();
     if (securityIdLen > 0) {
-      this.securityId = byteBuf.readCharSequence(securityIdLen, StandardCharsets.UTF_8).toString();
+      this.securityId = byteBuf.readSlice(securityIdLen).toString(StandardCharsets.UTF_8);
     } else {
       this.securityId = null;
     }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
index 18d97b5..7796e1e 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
@@ -105,20 +105,20 @@ public class OrderConfirm implements BinaryCodec {
     int uniqueOrderIdLen = byteBuf.readInt();
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     } else {
       this.uniqueOrderId = null;
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
-          byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrigOrderIdLen).toString(StandardCharsets.UTF_8);
     } else {
       this.uniqueOrigOrderId = null;
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     } else {
       this.clOrdId = null;
     }
@@ -126,7 +126,7 @@ public class OrderConfirm implements BinaryCodec {
     this.ordRejReason = byteBuf.readInt();
     int ordCnfmIdLen = byteBuf.readInt();
     if (ordCnfmIdLen > 0) {
-      this.ordCnfmId = byteBuf.readCharSequence(ordCnfmIdLen, StandardCharsets.UTF_8).toString();
+      this.ordCnfmId = byteBuf.readSlice(ordCnfmIdLen).toString(StandardCharsets.UTF_8);
     } else {
       this.ordCnfmId = null;
     }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
index 0d19418..feaa218 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
@@ -61,14 +61,14 @@ public class RiskResult implements BinaryCodec {
     int uniqueOrderIdLen = byteBuf.readInt();
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     } else {
       this.uniqueOrderId = null;
     }
     this.riskStatus = byteBuf.readByte();
     int riskReasonLen = byteBuf.readInt();
     if (riskReasonLen > 0) {
-      this.riskReason = byteBuf.readCharSequence(riskReasonLen, StandardCharsets.UTF_8).toString();
+      this.riskReason = byteBuf.readSlice(riskReasonLen).toString(StandardCharsets.UTF_8);
     } else {
       this.riskReason = null;
     }
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
index 4d0bf0d..5190577 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
@@ -212,14 +212,14 @@ public class StringPacket implements BinaryCodec {
     int fieldDynamicStringLen = byteBuf.readUnsignedShortLE();
     if (fieldDynamicStringLen > 0) {
       this.fieldDynamicString =
-          byteBuf.readCharSequence(fieldDynamicStringLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(fieldDynamicStringLen).toString(StandardCharsets.UTF_8);
     } else {
       this.fieldDynamicString = null;
     }
     int fieldDynamicString1Len = byteBuf.readUnsignedShortLE();
     if (fieldDynamicString1Len > 0) {
       this.fieldDynamicString1 =
-          byteBuf.readCharSequence(fieldDynamicString1Len, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(fieldDynamicString1Len).toString(StandardCharsets.UTF_8);
     } else {
       this.fieldDynamicString1 = null;
     }
@@ -235,8 +235,8 @@ public class StringPacket implements BinaryCodec {
         if (fieldDynamicStringListLen > 0) {
           this.fieldDynamicStringList.add(
               byteBuf
-                  .readCharSequence(fieldDynamicStringListLen, StandardCharsets.UTF_8)
-                  .toString());
+                  .readSlice(fieldDynamicStringListLen)
+                  .toString(StandardCharsets.UTF_8));
         } else {
           this.fieldDynamicStringList.add("");
         }
@@ -252,8 +252,8 @@ public class StringPacket implements BinaryCodec {
         if (fieldDynamicString1ListLen > 0) {
           this.fieldDynamicString1List.add(
               byteBuf
-                  .readCharSequence(fieldDynamicString1ListLen, StandardCharsets.UTF_8)
-                  .toString());
+                  .readSlice(fieldDynamicString1ListLen)
+                  .toString(StandardCharsets.UTF_8));
         } else {
           this.fieldDynamicString1List.add("");
         }
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
index eeb88c6..ee110a1 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
@@ -111,7 +111,7 @@ public class Extend206302 implements BinaryCodec {
     int imcrejectTextLen = byteBuf.readInt();
     if (imcrejectTextLen > 0) {
       this.imcrejectText =
-          byteBuf.readCharSequence(imcrejectTextLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(imcrejectTextLen).toString(StandardCharsets.UTF_8);
     } else {
       this.imcrejectText = null;
     }
-- 
2.43.0

