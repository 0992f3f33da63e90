From be429d25e98d2bd9beb9d059df4edd083b32f75c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:21:10 +0000
Subject: [PATCH] fix: include the side to move in the key of a constructed
 position

---
 src/position.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/position.rs b/src/position.rs
index be77b16..91093bc 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -29,6 +29,9 @@ impl Position {
                 }
             }
         }
+        if inner.side == Color::White {
+            keys.0 ^= Key::COLOR;
+        }
         let checkers = AttackInfo::calculate_checkers(&inner);
         let state = State {
             keys,
-- 
2.43.0

