From 810a6ab94d4d89e630def2a103428685a6b91501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 1/2] fix: completeWriteTasks starts the waiting writes once
 all others completed

---
 framework/Framework.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/Framework.cpp b/framework/Framework.cpp
index 478e4e8..a64a8e1 100644
--- a/framework/Framework.cpp
+++ b/framework/Framework.cpp
@@ -407,7 +407,9 @@ namespace MainDiskIOHandler_Compile {
       }
       if (i == 0) {
         if (any_not_started) {
-          fail("completeWriteTasks: any_not_started");
+          // every request made so far has completed: there is room for the rest
+          maybeStartWriteReq();
+          continue;
         }
         break;
       }
-- 
2.43.0


From 8f2cb4caba99b3e9b2306b4aef1a9cc473ba884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 2/2] fix: a write task waits for its transfer before it frees
 the buffer

---
 framework/Framework.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/framework/Framework.cpp b/framework/Framework.cpp
index a64a8e1..ef52b35 100644
--- a/framework/Framework.cpp
+++ b/framework/Framework.cpp
@@ -91,6 +91,12 @@ namespace MainDiskIOHandler_Compile {
     uint64 len;
 
     ~WriteTask() {
+      if (made_req) {
+        // the transfer may still be reading the buffer
+        wait();
+      } else {
+        nWriteReqsWaiting--;
+      }
       free(aligned_bytes);
     }
     
-- 
2.43.0

