From ef7219515ab849ae38f0e801eca54a502d965462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:24 +0000
Subject: [PATCH 1/9] fix: MtMdd2 lte is equal-or-less at every point, not only
 when equal everywhere

---
 mddcore/src/mtmdd2_ops.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mddcore/src/mtmdd2_ops.rs b/mddcore/src/mtmdd2_ops.rs
index c14323c..0e85dd4 100644
--- a/mddcore/src/mtmdd2_ops.rs
+++ b/mddcore/src/mtmdd2_ops.rs
@@ -259,11 +259,8 @@ where
         match (f, g) {
             (Node::Value(fnode), Node::Value(gnode)) => {
                 let resulteq = self.veq(fnode, gnode);
-                if resulteq == self.mdd().one() {
-                    return Node::Bool(self.mdd().one());
-                }
                 let resultlt = self.vlt(fnode, gnode);
-                Node::Bool(resultlt)
+                Node::Bool(self.mdd_mut().or(resulteq, resultlt))
             }
             _ => Node::Bool(self.mdd().undet()),
         }
-- 
2.43.0


From aa7de310c7053fedff309dbbd576018df6a60cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:24 +0000
Subject: [PATCH 2/9] fix: MtMdd2 undet_boolean returns the boolean forest's
 undetermined terminal

---
 mddcore/src/mtmdd2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mddcore/src/mtmdd2.rs b/mddcore/src/mtmdd2.rs
index fe8676d..0a53c56 100644
--- a/mddcore/src/mtmdd2.rs
+++ b/mddcore/src/mtmdd2.rs
@@ -87,7 +87,7 @@ where
 
     #[inline]
     pub fn undet_boolean(&self) -> Node {
-        Node::Bool(self.mtmdd.undet())
+        Node::Bool(self.mdd.undet())
     }
 
     #[inline]
-- 
2.43.0


From 809a4ad78d8b6eaf20f669588bcf028334ecd89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:24 +0000
Subject: [PATCH 3/9] fix: boolean mdd_count memoises per (node, level)

---
 mss/src/mdd_count.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mss/src/mdd_count.rs b/mss/src/mdd_count.rs
index b99d257..8a3d78d 100644
--- a/mss/src/mdd_count.rs
+++ b/mss/src/mdd_count.rs
@@ -183,7 +183,7 @@ fn bmdd_count<V, T>(
     mdd: &mdd::MddManager,
     node: NodeId,
     ss: &HashSet<V>,
-    cache: &mut BddHashMap<NodeId, T>,
+    cache: &mut BddHashMap<(NodeId, Option<usize>), T>,
     level: Option<usize>,
     level2headers: &[usize],
 ) -> T
@@ -191,7 +191,7 @@ where
     T: Add<Output = T> + Clone + From<u32> + Mul<Output = T>,
     V: MddValue,
 {
-    let key = node;
+    let key = (node, level);
     if let Some(x) = cache.get(&key) {
         return x.clone();
     }
-- 
2.43.0


From fc88336178bf447d007c0c3ae97a8ea003537df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:24 +0000
Subject: [PATCH 4/9] fix: mdd_count of a constant function honours the
 selected values

---
 mss/src/mdd_count.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mss/src/mdd_count.rs b/mss/src/mdd_count.rs
index 8a3d78d..3a3a0c4 100644
--- a/mss/src/mdd_count.rs
+++ b/mss/src/mdd_count.rs
@@ -114,7 +114,7 @@ where
                 }
                 vmdd_count(mdd.mtmdd(), *fnode, ss, &mut cache, Some(level), &level2headers)
             } else {
-                T::from(1)
+                vmdd_count(mdd.mtmdd(), *fnode, ss, &mut cache, None, &[])
             }
         }
         Node::Bool(fnode) => {
@@ -129,7 +129,7 @@ where
                 }
                 bmdd_count(mdd.mdd(), *fnode, ss, &mut cache, Some(level), &level2headers)
             } else {
-                T::from(1)
+                bmdd_count(mdd.mdd(), *fnode, ss, &mut cache, None, &[])
             }
         }
     }
-- 
2.43.0


From c271fb3bab1fb17a25f1505634143f56859e2e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:24 +0000
Subject: [PATCH 5/9] fix: ZDD intersect with the unit family keeps only the
 empty set

---
 bddcore/src/zdd_ops.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bddcore/src/zdd_ops.rs b/bddcore/src/zdd_ops.rs
index 4198735..761ffce 100644
--- a/bddcore/src/zdd_ops.rs
+++ b/bddcore/src/zdd_ops.rs
@@ -25,8 +25,15 @@ impl ZddManager {
             (_, Node::Undet) => f,
             (Node::Zero, _) => self.zero(),
             (_, Node::Zero) => self.zero(),
-            (Node::One, _) => g,
-            (_, Node::One) => f,
+            (Node::One, Node::One) => self.one(),
+            (Node::One, Node::NonTerminal(gnode)) => {
+                let g0 = gnode.edge(0);
+                self.intersect(f, g0)
+            }
+            (Node::NonTerminal(fnode), Node::One) => {
+                let f0 = fnode.edge(0);
+                self.intersect(f0, g)
+            }
             (Node::NonTerminal(fnode), Node::NonTerminal(_gnode))
                 if self.node_level(f) > self.node_level(g) =>
             {
-- 
2.43.0


From 57ff4d64ed974ccae2bd980a6f6e1933b822099c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:24 +0000
Subject: [PATCH 6/9] fix: ZDD divide keeps the dividend's extra elements and
 yields the empty quotient

---
 bddcore/src/zdd_ops.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bddcore/src/zdd_ops.rs b/bddcore/src/zdd_ops.rs
index 761ffce..0780088 100644
--- a/bddcore/src/zdd_ops.rs
+++ b/bddcore/src/zdd_ops.rs
@@ -234,17 +234,20 @@ impl ZddManager {
             (_, Node::Zero) => self.undet(),
             (_, Node::One) => f,
             (Node::Zero, _) => self.zero(),
-            (Node::One, _) => g,
+            (Node::One, _) => self.zero(),
             (Node::NonTerminal(fnode), Node::NonTerminal(_gnode))
                 if self.node_level(f) > self.node_level(g) =>
             {
-                let f0 = fnode.edge(0);
-                self.divide(f0, g)
+                let (f0, f1) = (fnode.edge(0), fnode.edge(1));
+                let headerid = fnode.headerid();
+                let low = self.divide(f0, g);
+                let high = self.divide(f1, g);
+                self.create_node(headerid, low, high)
             }
             (Node::NonTerminal(_fnode), Node::NonTerminal(_gnode))
                 if self.node_level(f) < self.node_level(g) =>
             {
-                self.undet()
+                self.zero()
             }
             (Node::NonTerminal(fnode), Node::NonTerminal(gnode)) => {
                 let (f0, f1) = (fnode.edge(0), fnode.edge(1));
-- 
2.43.0


From 51538fb88a4dd67094b02bc4749b438268f00a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:47 +0000
Subject: [PATCH 7/9] fix: rpn returns Err when an operator lacks operands, as
 documented, instead of panicking

---
 bss/src/bdd.rs |  9 +++++++++
 mss/src/mdd.rs | 10 ++++++++++
 2 files changed, 19 insertions(+)

diff --git a/bss/src/bdd.rs b/bss/src/bdd.rs
index 6b2e90c..3f8fc14 100644
--- a/bss/src/bdd.rs
+++ b/bss/src/bdd.rs
@@ -265,6 +265,15 @@ impl BddMgr {
         let mut stack = Vec::new();
         let mut cache = HashMap::new();
         for token in expr.split_whitespace() {
+            let arity = match token {
+                "&" | "|" | "^" => 2,
+                "~" => 1,
+                "?" => 3,
+                _ => 0,
+            };
+            if stack.len() < arity {
+                return Err("Invalid expression".to_string());
+            }
             match token {
                 "0" | "False" => {
                     let bdd = self.bdd.borrow_mut();
diff --git a/mss/src/mdd.rs b/mss/src/mdd.rs
index a21cade..41a31fc 100644
--- a/mss/src/mdd.rs
+++ b/mss/src/mdd.rs
@@ -298,6 +298,16 @@ where
         let mut stack = Vec::new();
         let mut cache = HashMap::new();
         for token in rpn.split_whitespace() {
+            let arity = match token {
+                "+" | "-" | "*" | "/" | "min" | "max" | "==" | "!=" | "<" | "<=" | ">" | ">="
+                | "&&" | "||" => 2,
+                "!" => 1,
+                "?" => 3,
+                _ => 0,
+            };
+            if stack.len() < arity {
+                return Err("Invalid expression".to_string());
+            }
             match token {
                 "+" => {
                     let mut mdd = self.mdd.borrow_mut();
-- 
2.43.0


From d826ea8e1238491dff12c740bf6c01d8493f1d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:33 +0000
Subject: [PATCH 8/9] fix: reuse the family-forest header of a variable across
 minpath/mincut calls (bss)

---
 bss/src/zdd_convert.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bss/src/zdd_convert.rs b/bss/src/zdd_convert.rs
index 5f2535e..de5be92 100644
--- a/bss/src/zdd_convert.rs
+++ b/bss/src/zdd_convert.rs
@@ -39,7 +39,13 @@ pub(crate) fn to_zdd(
                 Some(&h) => h,
                 None => {
                     let header = src.get_header(&shid).unwrap();
-                    let h = dst.create_header(header.level(), header.label());
+                    // One header per variable: an earlier conversion may have made it already.
+                    let h = (0..dst.size().0)
+                        .find(|hid| {
+                            let x = dst.get_header(hid).unwrap();
+                            x.level() == header.level() && x.label() == header.label()
+                        })
+                        .unwrap_or_else(|| dst.create_header(header.level(), header.label()));
                     zh.insert(shid, h);
                     h
                 }
-- 
2.43.0


From 8213ba9c467bdb731cc9e2ab694d271ede24d34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:33 +0000
Subject: [PATCH 9/9] fix: reuse the family-forest header of a variable across
 minpath/mincut calls (mss)

---
 mss/src/zmdd_convert.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mss/src/zmdd_convert.rs b/mss/src/zmdd_convert.rs
index 167671c..984cce4 100644
--- a/mss/src/zmdd_convert.rs
+++ b/mss/src/zmdd_convert.rs
@@ -50,7 +50,13 @@ where
     match hmap.get(&shid) {
         Some(&h) => h,
         None => {
-            let h = dst.create_header(level, label, edge_num);
+            // One header per variable: an earlier conversion may have made it already.
+            let h = (0..dst.size().0)
+                .find(|hid| {
+                    let x = dst.get_header(hid).unwrap();
+                    x.level() == level && x.label() == label && x.edge_num() == edge_num
+                })
+                .unwrap_or_else(|| dst.create_header(level, label, edge_num));
             hmap.insert(shid, h);
             h
         }
-- 
2.43.0

