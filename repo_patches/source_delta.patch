From 8b8f147313ec3c618964054c2c8526a8e8a50b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 1/6] fix: keep elements matched by a nested group until the
 enclosing match succeeds

---
 src/validate.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 564e539..664fc6f 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -207,9 +207,13 @@ impl WorkingMap {
     fn commit(&mut self) {
         // If validate code is implemented correctly, then unwrap() should
         // never panic.
-        // This throws away the list that was popped; those values were
-        // successfully matched and are no longer needed.
-        self.snaps.pop_back().unwrap();
+        let top_snap = self.snaps.pop_back().unwrap();
+        // If there is an enclosing snapshot, it takes over the elements that
+        // were matched, because the enclosing match may still fail.
+        // Otherwise they are no longer needed.
+        if let Some(outer_snap) = self.snaps.back_mut() {
+            outer_snap.extend(top_snap);
+        }
     }
 
     // Peek at the value correspending to a given key (if any)
@@ -283,9 +287,13 @@ impl WorkingArray {
     fn commit(&mut self) {
         // If validate code is implemented correctly, then unwrap() should
         // never panic.
-        // This throws away the list that was popped; those values were
-        // successfully matched and are no longer needed.
-        self.snaps.pop_back().unwrap();
+        let top_snap = self.snaps.pop_back().unwrap();
+        // If there is an enclosing snapshot, it takes over the elements that
+        // were matched, because the enclosing match may still fail.
+        // Otherwise they are no longer needed.
+        if let Some(outer_snap) = self.snaps.back_mut() {
+            outer_snap.extend(top_snap);
+        }
     }
 
     // Peek at the front of the working array.
-- 
2.43.0


From 6152a03c1f23f6dfcd84405b2ea15fd3b07b83e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 2/6] fix: put back elements when an unwrapped array or map
 fails partway

---
 src/validate.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 664fc6f..474d2b5 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -598,11 +598,19 @@ fn validate_array_unwrap(
     // Array node too.
     match node {
         Node::Array(a) => {
+            // If we fail partway through, we need to put back the elements
+            // that were already matched (see Node::Group).
+            working_array.snapshot();
+
             // Recurse into each member of the unwrapped array.
             for member in &a.members {
-                validate_array_member(member, working_array, ctx)?;
+                if let Err(e) = validate_array_member(member, working_array, ctx) {
+                    working_array.rewind();
+                    return Err(e);
+                }
             }
             // All array members validated Ok.
+            working_array.commit();
             Ok(())
         }
         _ => Err(mismatch("unwrap array")),
@@ -873,11 +881,19 @@ fn validate_map_unwrap(node: &Node, working_map: &mut WorkingMap, ctx: &Context)
     // Map node too.
     match node {
         Node::Map(m) => {
-            // Recurse into each member of the unwrapped array.
+            // If we fail partway through, we need to put back the elements
+            // that were already matched (see Node::Group).
+            working_map.snapshot();
+
+            // Recurse into each member of the unwrapped map.
             for member in &m.members {
-                validate_map_member(member, working_map, ctx)?;
+                if let Err(e) = validate_map_member(member, working_map, ctx) {
+                    working_map.rewind();
+                    return Err(e);
+                }
             }
-            // All array members validated Ok.
+            // All map members validated Ok.
+            working_map.commit();
             Ok(())
         }
         _ => Err(mismatch("unwrap map")),
-- 
2.43.0


From da775d689627357fcd5198b4c5456caf00af9d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 3/6] fix: stop repeating a match that doesn't consume anything

---
 src/validate.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index 474d2b5..55a16f7 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -628,6 +628,7 @@ fn validate_array_occur(
     let mut count: usize = 0;
 
     loop {
+        let len_before = working_array.array.len();
         match validate_array_member(&occur.node, working_array, ctx) {
             Ok(_) => (),
             Err(e) => {
@@ -641,6 +642,13 @@ fn validate_array_occur(
                 return Err(e);
             }
         }
+        if working_array.array.len() == len_before {
+            // The match didn't consume anything, so it could be repeated any
+            // number of times: the lower limit can be met, and trying again
+            // can't make any progress.
+            count = count.max(lower_limit);
+            break;
+        }
         count += 1;
         if count >= upper_limit {
             // Stop matching; we've consumed the maximum number of this key.
@@ -910,6 +918,7 @@ fn validate_map_occur(
     let mut count: usize = 0;
 
     loop {
+        let len_before = working_map.map.len();
         match validate_map_member(&occur.node, working_map, ctx) {
             Ok(_) => (),
             Err(e) => {
@@ -923,6 +932,13 @@ fn validate_map_occur(
                 return Err(e);
             }
         }
+        if working_map.map.len() == len_before {
+            // The match didn't consume anything, so it could be repeated any
+            // number of times: the lower limit can be met, and trying again
+            // can't make any progress.
+            count = count.max(lower_limit);
+            break;
+        }
         count += 1;
         if count >= upper_limit {
             // Stop matching; we've consumed the maximum number of this key.
-- 
2.43.0


From 98090cfbad0db572e0a4ad0e73854d9e041f9a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 4/6] fix: don't conceal fatal errors while searching for a map
 key

---
 src/validate.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 55a16f7..b4e7df5 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -430,9 +430,14 @@ fn map_search<'a>(
     ctx: &Context,
 ) -> TempResult<(Value, &'a Value)> {
     for (key, value) in &working_map.map {
-        let attempt = validate(key, node, ctx);
-        if attempt.is_ok() {
-            return Ok((key.clone(), value));
+        match validate(key, node, ctx) {
+            Ok(()) => return Ok((key.clone(), value)),
+            // A key that can't be decoded (by `.cbor`) just isn't the key we
+            // are looking for.
+            Err(ValidateError::ValueError(_)) => (),
+            // Fatal errors (e.g. MissingRule) must not be concealed.
+            Err(e) if e.is_fatal() => return Err(e),
+            Err(_) => (),
         }
     }
     // We searched all the keys without finding a match.  Validation fails.
-- 
2.43.0


From ff077f302cba53f489253138f3ac98b0db26596c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 5/6] fix: limit lookup chains that pass through generic
 parameters

---
 src/validate.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/validate.rs b/src/validate.rs
index b4e7df5..00e2156 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -26,7 +26,11 @@ struct GenericMap<'a> {
 struct Context<'a> {
     lookup: &'a dyn LookupContext,
     generic_map: GenericMap<'a>,
+    // How many rules we are inside of.
     depth: u32,
+    // How many names were looked up to get here.  Unlike `depth`, this doesn't
+    // decrease when a generic parameter takes us back to an earlier context.
+    lookups: u32,
 }
 
 impl std::fmt::Debug for Context<'_> {
@@ -47,6 +51,12 @@ impl<'a> Context<'a> {
     // circular rule references.
     const MAX_DEPTH: u32 = 50;
 
+    // Set a maximum number of lookups leading to any one node.  Every generic
+    // parameter takes us back to an earlier context, so a few levels of generic
+    // rules can produce a chain of lookups that is exponentially longer than
+    // `MAX_DEPTH`.
+    const MAX_LOOKUPS: u32 = 5 * Self::MAX_DEPTH;
+
     fn inc_depth(&self) -> TempResult<u32> {
         if self.depth >= Self::MAX_DEPTH {
             Err(ValidateError::Structural("hit recursion limit".into()))
@@ -55,6 +65,14 @@ impl<'a> Context<'a> {
         }
     }
 
+    fn inc_lookups(&self) -> TempResult<u32> {
+        if self.lookups >= Self::MAX_LOOKUPS {
+            Err(ValidateError::Structural("hit recursion limit".into()))
+        } else {
+            Ok(self.lookups + 1)
+        }
+    }
+
     // `lookup_rule` will first do a search for a local generic parameter name
     // first, followed by a lookup for a rule by that name.
 
@@ -78,7 +96,10 @@ impl<'a> Context<'a> {
             // context along with the node that is substituting for this generic
             // parameter name.  Otherwise, return a new blank Context.
             let ctx = match self.generic_map.past_ctx {
-                Some(ctx) => ctx.clone(),
+                Some(ctx) => Context {
+                    lookups: self.inc_lookups()?,
+                    ..ctx.clone()
+                },
                 None => self.blank()?,
             };
             return Ok(NodeContext { node, ctx });
@@ -101,6 +122,7 @@ impl<'a> Context<'a> {
             lookup: self.lookup,
             generic_map: GenericMap::default(),
             depth: self.inc_depth()?,
+            lookups: self.inc_lookups()?,
         })
     }
 
@@ -133,6 +155,7 @@ impl<'a> Context<'a> {
             lookup: self.lookup,
             generic_map,
             depth: self.inc_depth()?,
+            lookups: self.inc_lookups()?,
         })
     }
 }
@@ -153,6 +176,7 @@ pub(crate) fn do_validate(
         lookup: ctx,
         generic_map: GenericMap::default(),
         depth: 0,
+        lookups: 0,
     };
     let node = &rule_def.node;
     validate(value, node, &ctx)
-- 
2.43.0


From 96f145387c02df0b1bee1f36439bf8fa2300c191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 6/6] fix: put back map entries when an occurrence doesn't
 reach its lower limit

An occurrence directly below a choice-ified group isn't enclosed in a group,
so nothing restored the entries that its completed repetitions had taken:
'{ ? &(2*2 tstr => int) }' accepted {"a": 1}.
---
 src/validate.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index 00e2156..d63f829 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -946,6 +946,10 @@ fn validate_map_occur(
     let (lower_limit, upper_limit) = occur.limits();
     let mut count: usize = 0;
 
+    // If we can't reach the lower limit, we need to put back the entries that
+    // were already matched (see Node::Group).
+    working_map.snapshot();
+
     loop {
         let len_before = working_map.map.len();
         match validate_map_member(&occur.node, working_map, ctx) {
@@ -958,6 +962,7 @@ fn validate_map_occur(
                 // Either we got a MapCut error, or it's something even more
                 // serious (e.g. MissingRule or Unsupported).  We should fail
                 // now and propagate that error upward.
+                working_map.rewind();
                 return Err(e);
             }
         }
@@ -975,11 +980,13 @@ fn validate_map_occur(
         }
     }
     if count < lower_limit {
+        working_map.rewind();
         // Read this format string as "{{" then "{}" then "}}"
         // The first and last print a single brace; the value is in the
         // middle, e.g "{foo}".
         return Err(mismatch(format!("map{{{}}}]", occur)));
     }
+    working_map.commit();
     Ok(())
 }
 
-- 
2.43.0

