From 90b26faf144b0d76f46dfcb18dd829c2c383b685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:16 +0000
Subject: [PATCH 01/22] fix: longest-token choice over collections leaves the
 context at the end of the selected match

---
 src/regex.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/regex.rs b/src/regex.rs
index 14bad7a..4147266 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -814,14 +814,18 @@ where
             // reset offset for every regex
             ctx.set_offset(beg);
 
-            // match regex
-            if let Ok(span) = ctx.try_mat(t2p(item))
-                && longest.map(|v: Span| v.len() < span.len()).unwrap_or(true)
-            {
-                longest = Some(span);
+            // match regex, keep the one that ends furthest
+            if let Ok(span) = ctx.try_mat(t2p(item)) {
+                let end = ctx.offset();
+
+                if longest.map(|(_, off)| off < end).unwrap_or(true) {
+                    longest = Some((span, end));
+                }
             }
         }
-        longest.ok_or(err)
+        // leave the context at the end of the selected match
+        ctx.set_offset(longest.map(|v| v.1).unwrap_or(beg));
+        longest.map(|v| v.0).ok_or(err)
     }
 }
 
-- 
2.43.0


From 8b125128d1f6ced2f6144a2b57d5c4f5a5da0e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:16 +0000
Subject: [PATCH 02/22] fix: longest-token construction over collections
 accepts empty matches and leaves the context at the end of the selected one

---
 src/ctor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ctor.rs b/src/ctor.rs
index 79fa4b4..0a828bb 100644
--- a/src/ctor.rs
+++ b/src/ctor.rs
@@ -962,12 +962,14 @@ where
 
             // construct value
             if let Ok(val) = t2p(item).construct(ctx, h)
-                && ctx.offset() > end
+                && (ret.is_none() || ctx.offset() > end)
             {
                 end = ctx.offset();
                 ret = Some((val, item));
             }
         }
+        // leave the context at the end of the selected match
+        ctx.set_offset(end);
         ret.map(|v| r2r(v.0, v.1)).ok_or(err)
     }
 }
-- 
2.43.0


From 4196aee98477156bacd5202db074ae591144c1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:16 +0000
Subject: [PATCH 03/22] fix: LongestTokenMatch compares and restores real end
 positions instead of span lengths

---
 src/ctor/longest.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/ctor/longest.rs b/src/ctor/longest.rs
index 406d815..f545650 100644
--- a/src/ctor/longest.rs
+++ b/src/ctor/longest.rs
@@ -242,21 +242,29 @@ where
         debug_regex_beg!("LongestTokenMatch", offset);
 
         let l = debug_regex_stage!("LongestTokenMatch", "l", ctx.try_mat(&self.left));
+        let off_l = ctx.offset();
 
         // reset offset
         ctx.set_offset(offset);
 
         let r = debug_regex_stage!("LongestTokenMatch", "r", ctx.try_mat(&self.right));
+        let off_r = ctx.offset();
 
         // pick longer one
-        let ret = match (l, r) {
-            (Ok(l), Ok(r)) => Ok(if l.len() >= r.len() { l } else { r }),
-            (Ok(l), Err(_)) => Ok(l),
-            (Err(_), Ok(r)) => Ok(r),
-            (Err(_), Err(r)) => Err(r),
+        let (ret, end) = match (l, r) {
+            (Ok(l), Ok(r)) => {
+                if off_l >= off_r {
+                    (Ok(l), off_l)
+                } else {
+                    (Ok(r), off_r)
+                }
+            }
+            (Ok(l), Err(_)) => (Ok(l), off_l),
+            (Err(_), Ok(r)) => (Ok(r), off_r),
+            (Err(_), Err(r)) => (Err(r), offset),
         };
 
-        ctx.set_offset(offset + ret.map(|v| v.len()).unwrap_or_default());
+        ctx.set_offset(end);
         debug_regex_reval!("LongestTokenMatch", ret)
     }
 }
-- 
2.43.0


From d11e9396b29ffcb0be56762ac82251504adc0df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:26 +0000
Subject: [PATCH 04/22] fix: Repeat2 stops after its maximum instead of trying
 one occurrence more

---
 src/ctor/repeat2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctor/repeat2.rs b/src/ctor/repeat2.rs
index 4a6c75f..30915cb 100644
--- a/src/ctor/repeat2.rs
+++ b/src/ctor/repeat2.rs
@@ -165,7 +165,7 @@ where
         let range = M..=N;
 
         crate::debug_ctor_beg!("Repeat2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(val) = self.pat.construct(ctx, handler) {
                 vals[cnt] = Some(val);
                 cnt += 1;
@@ -200,7 +200,7 @@ where
         let range = M..=N;
 
         crate::debug_regex_beg!("Repeat2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(p_span) = ctx.try_mat(&self.pat) {
                 total.add_assign(p_span);
                 cnt += 1;
-- 
2.43.0


From e5a82b22139c88e04e6926d54a9854217fede018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:26 +0000
Subject: [PATCH 05/22] fix: Separate2 stops after its maximum instead of
 trying one element more

---
 src/ctor/sep.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index 09cf563..8a469e5 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -789,7 +789,7 @@ where
         let range = M..=N;
 
         debug_ctor_beg!("Separate2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(val) = self.pat.construct(ctx, func) {
                 let s_span = ctx.try_mat(&self.sep);
 
@@ -832,7 +832,7 @@ where
         let range = M..=N;
 
         debug_regex_beg!("Separate2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(p_span) = ctx.try_mat(&self.pat) {
                 let s_span = ctx.try_mat(&self.sep);
 
-- 
2.43.0


From 65bf4c0fe14e97cf3af1e00193a02654016e3b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:26 +0000
Subject: [PATCH 06/22] fix: SepCollect consumes nothing once its list has
 ended

---
 src/ctor/sep.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index 8a469e5..5f1ec6c 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -1099,20 +1099,22 @@ where
         let ret = {
             debug_ctor_beg!("SepCollect", range, offset);
             V::from_iter(core::iter::from_fn(|| {
+                // The collection may ask again after the list has ended
+                if end {
+                    return None;
+                }
                 self.pat.construct(ctx, func).ok().and_then(|ret| {
                     let s_span = ctx.try_mat(&self.sep);
 
-                    if !end {
-                        if s_span.is_err() {
-                            end = true;
-                        }
-                        // The current value is captured only
-                        // when the current delimiter matches successfully
-                        // or the skip flag is true.
-                        if s_span.is_ok() || self.skip {
-                            cnt += 1;
-                            return Some(ret);
-                        }
+                    if s_span.is_err() {
+                        end = true;
+                    }
+                    // The current value is captured only
+                    // when the current delimiter matches successfully
+                    // or the skip flag is true.
+                    if s_span.is_ok() || self.skip {
+                        cnt += 1;
+                        return Some(ret);
                     }
                     None
                 })
-- 
2.43.0


From c4f568532d5822eadaa792dc96e4851ed0f908e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:02 +0000
Subject: [PATCH 07/22] fix: separated lists give back an element that is not
 followed by a required separator

---
 src/ctor/sep.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index 5f1ec6c..578785c 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -508,16 +508,21 @@ mod alloc_sep {
             let range: CRange<usize> = (self.min..).into();
 
             debug_ctor_beg!("Separate", range, offset);
+            let mut end = offset;
+
             while let Ok(val) = self.pat.construct(ctx, func) {
                 let s_span = ctx.try_mat(&self.sep);
 
                 if s_span.is_ok() || self.skip {
                     vals.push(val);
+                    end = ctx.offset();
                 }
                 if s_span.is_err() {
                     break;
                 }
             }
+            // give back what follows the last accepted element
+            ctx.set_offset(end);
             let ret = if vals.len() >= self.min {
                 Ok(vals)
             } else {
@@ -546,6 +551,8 @@ mod alloc_sep {
             let range: CRange<usize> = (self.min..).into();
 
             debug_regex_beg!("Separate", range, offset);
+            let mut end = offset;
+
             while let Ok(p_span) = ctx.try_mat(&self.pat) {
                 let s_span = ctx.try_mat(&self.sep);
 
@@ -555,11 +562,14 @@ mod alloc_sep {
                     if let Ok(sep_ret) = s_span {
                         total.add_assign(sep_ret);
                     }
+                    end = ctx.offset();
                 }
                 if s_span.is_err() {
                     break;
                 }
             }
+            // give back what follows the last accepted element
+            ctx.set_offset(end);
             let ret = if cnt >= self.min {
                 Ok(total)
             } else {
@@ -786,6 +796,7 @@ where
         let offset: usize = ctx.offset();
         let mut vals = [const { None }; N];
         let mut cnt = 0;
+        let mut end = offset;
         let range = M..=N;
 
         debug_ctor_beg!("Separate2", &range, offset);
@@ -796,6 +807,7 @@ where
                 if s_span.is_ok() || self.skip {
                     vals[cnt] = Some(val);
                     cnt += 1;
+                    end = ctx.offset();
                 }
                 if s_span.is_err() {
                     break;
@@ -804,6 +816,8 @@ where
                 break;
             }
         }
+        // give back what follows the last accepted element
+        ctx.set_offset(end);
         let ret = if cnt >= M {
             Ok(vals)
         } else {
@@ -829,6 +843,7 @@ where
         let offset = ctx.offset();
         let mut cnt = 0;
         let mut total = Span::new(offset, 0);
+        let mut end = offset;
         let range = M..=N;
 
         debug_regex_beg!("Separate2", &range, offset);
@@ -842,6 +857,7 @@ where
                     if let Ok(sep_ret) = s_span {
                         total.add_assign(sep_ret);
                     }
+                    end = ctx.offset();
                 }
                 if s_span.is_err() {
                     break;
@@ -850,6 +866,8 @@ where
                 break;
             }
         }
+        // give back what follows the last accepted element
+        ctx.set_offset(end);
         let ret = if cnt >= M {
             Ok(total)
         } else {
@@ -1103,7 +1121,9 @@ where
                 if end {
                     return None;
                 }
-                self.pat.construct(ctx, func).ok().and_then(|ret| {
+                let beg = ctx.offset();
+
+                if let Ok(ret) = self.pat.construct(ctx, func) {
                     let s_span = ctx.try_mat(&self.sep);
 
                     if s_span.is_err() {
@@ -1116,8 +1136,10 @@ where
                         cnt += 1;
                         return Some(ret);
                     }
-                    None
-                })
+                }
+                // give back what follows the last accepted element
+                ctx.set_offset(beg);
+                None
             }))
         };
         let ret = if cnt >= self.min {
@@ -1148,6 +1170,8 @@ where
         let range: CRange<usize> = (self.min..).into();
 
         debug_regex_beg!("SepCollect", range, offset);
+        let mut end = offset;
+
         while let Ok(p_span) = ctx.try_mat(&self.pat) {
             let s_span = ctx.try_mat(&self.sep);
 
@@ -1157,11 +1181,14 @@ where
                 if let Ok(sep_ret) = s_span {
                     total.add_assign(sep_ret);
                 }
+                end = ctx.offset();
             }
             if s_span.is_err() {
                 break;
             }
         }
+        // give back what follows the last accepted element
+        ctx.set_offset(end);
         let ret = if cnt >= self.min {
             Ok(total)
         } else {
-- 
2.43.0


From 25eefecd0d064b3e22e1907ed564c982025849e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:03 +0000
Subject: [PATCH 08/22] fix: repetitions give back the input of an element
 whose construction failed

---
 src/ctor/collect.rs | 14 +++++++++++---
 src/ctor/repeat.rs  |  3 +++
 src/ctor/repeat2.rs |  3 +++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/ctor/collect.rs b/src/ctor/collect.rs
index 38cf065..88fc48a 100644
--- a/src/ctor/collect.rs
+++ b/src/ctor/collect.rs
@@ -169,9 +169,17 @@ where
         let val = {
             crate::debug_ctor_beg!("Collect", offset);
             V::from_iter(core::iter::from_fn(|| {
-                self.pat.construct(ctx, func).ok().inspect(|_| {
-                    cnt += 1;
-                })
+                let beg = ctx.offset();
+
+                self.pat
+                    .construct(ctx, func)
+                    .inspect(|_| {
+                        cnt += 1;
+                    })
+                    .inspect_err(|_| {
+                        ctx.set_offset(beg);
+                    })
+                    .ok()
             }))
         };
         let ret = if cnt >= self.min {
diff --git a/src/ctor/repeat.rs b/src/ctor/repeat.rs
index 66f6021..ae4b711 100644
--- a/src/ctor/repeat.rs
+++ b/src/ctor/repeat.rs
@@ -218,10 +218,13 @@ where
 
         crate::debug_ctor_beg!("Repeat", self.range, offset);
         while self.is_contain(cnt) {
+            let beg = ctx.offset();
+
             if let Ok(val) = self.pat.construct(ctx, handler) {
                 vals.push(val);
                 cnt += 1;
             } else {
+                ctx.set_offset(beg);
                 break;
             }
         }
diff --git a/src/ctor/repeat2.rs b/src/ctor/repeat2.rs
index 30915cb..7a7e9b3 100644
--- a/src/ctor/repeat2.rs
+++ b/src/ctor/repeat2.rs
@@ -166,10 +166,13 @@ where
 
         crate::debug_ctor_beg!("Repeat2", &range, offset);
         while cnt < N {
+            let beg = ctx.offset();
+
             if let Ok(val) = self.pat.construct(ctx, handler) {
                 vals[cnt] = Some(val);
                 cnt += 1;
             } else {
+                ctx.set_offset(beg);
                 break;
             }
         }
-- 
2.43.0


From a796606e3bd908e5ebea7fd6eecd5ec62aec3ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:19 +0000
Subject: [PATCH 09/22] fix: a failing conversion gives back what the mapped
 pattern consumed

---
 src/ctor/map.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ctor/map.rs b/src/ctor/map.rs
index d43e5e2..0fc68fd 100644
--- a/src/ctor/map.rs
+++ b/src/ctor/map.rs
@@ -4,6 +4,7 @@ use core::marker::PhantomData;
 use crate::ctor::Ctor;
 
 use crate::ctor::Handler;
+use crate::ctx::CtxGuard;
 use crate::ctx::Match;
 use crate::err::Error;
 use crate::map::FallibleMap;
@@ -228,7 +229,11 @@ where
 {
     #[inline(always)]
     fn construct(&self, ctx: &mut C, func: &mut H) -> Result<V, Error> {
-        self.mapper.try_map(self.pat.construct(ctx, func)?)
+        let mut ctx = CtxGuard::new(ctx);
+        let ret = self.pat.construct(ctx.ctx(), func);
+        let ret = ret.and_then(|val| self.mapper.try_map(val));
+
+        ctx.process_ret(ret)
     }
 }
 
-- 
2.43.0


From 8fe1b8e6bf739d472447a28176bb70e05e312d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:24 +0000
Subject: [PATCH 10/22] fix: constructing and mapping entry points restore the
 position when a handler or mapper fails

---
 src/ctx.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/ctx.rs b/src/ctx.rs
index cf7c4ed..55c4412 100644
--- a/src/ctx.rs
+++ b/src/ctx.rs
@@ -296,7 +296,11 @@ where
         P: Ctor<Self, O, H>,
         H: Handler<Self>,
     {
-        pat.construct(self, &mut handler)
+        let offset = self.offset();
+
+        pat.construct(self, &mut handler).inspect_err(|_| {
+            self.set_offset(offset);
+        })
     }
 
     /// Constructs a value using a constructor pattern and a closure handler.
@@ -390,7 +394,12 @@ where
         P: Regex<Self>,
         M: FallibleMap<Span, O>,
     {
-        mapper.try_map(self.map_handler(pat, extract::<Span>())?)
+        let offset = self.offset();
+        let span = self.map_handler(pat, extract::<Span>())?;
+
+        mapper.try_map(span).inspect_err(|_| {
+            self.set_offset(offset);
+        })
     }
 
     /// Matches a pattern, extracts the matched substring, and maps it.
@@ -424,9 +433,14 @@ where
         P: Regex<Self>,
         M: FallibleMap<Self::Orig<'a>, O>,
     {
-        mapper.try_map(self.map_handler(pat, |ctx: &Self, span: &Span| {
+        let offset = self.offset();
+        let orig = self.map_handler(pat, |ctx: &Self, span: &Span| {
             ctx.orig_sub(span.beg, span.len)
-        })?)
+        })?;
+
+        mapper.try_map(orig).inspect_err(|_| {
+            self.set_offset(offset);
+        })
     }
 }
 
@@ -439,9 +453,15 @@ where
         P: Regex<Self>,
         H: Handler<Self, Out = O>,
     {
+        let offset = self.offset();
         let ret = self.try_mat(pat)?;
 
-        handler.invoke(self, &ret).map_err(Into::into)
+        handler
+            .invoke(self, &ret)
+            .map_err(Into::into)
+            .inspect_err(|_| {
+                self.set_offset(offset);
+            })
     }
 }
 
-- 
2.43.0


From 1c641be4459262957a2909d3a1aaf636c9d0c41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:37 +0000
Subject: [PATCH 11/22] fix: a rejected dynamic builder gives back what was
 consumed before it

---
 src/ctor/dthen.rs    | 2 +-
 src/regex/builder.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ctor/dthen.rs b/src/ctor/dthen.rs
index e426248..3c8ccaf 100644
--- a/src/ctor/dthen.rs
+++ b/src/ctor/dthen.rs
@@ -231,7 +231,7 @@ where
             debug_ctor_stage!(
                 "DynamicCtorThenBuilder",
                 "right",
-                (self.func)(ctx.ctx(), &l)?.construct(ctx.ctx(), func)
+                (self.func)(ctx.ctx(), &l).and_then(|pat| pat.construct(ctx.ctx(), func))
             )
         };
         let r = ctx.process_ret(r)?;
diff --git a/src/regex/builder.rs b/src/regex/builder.rs
index f57ee5a..84e068f 100644
--- a/src/regex/builder.rs
+++ b/src/regex/builder.rs
@@ -50,7 +50,8 @@ where
         let span = ctx.try_mat(&pat)?;
         // build new regex base on result, let the user control ctx
         // continue match from end of previous span
-        let new_pat = (func)(ctx.ctx(), &span)?;
+        let new_pat = (func)(ctx.ctx(), &span);
+        let new_pat = ctx.process_ret(new_pat)?;
         // match again
         let ret = ctx.try_mat(&new_pat);
 
-- 
2.43.0


From 06f1decd50f4e046692708a324ae96fbc8a3f9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:51 +0000
Subject: [PATCH 12/22] fix: a failed match on a skipping or plain context
 restores the position before the skip rule

---
 src/ctx/policy.rs | 24 +++++++++++++++++-------
 src/ctx/regex.rs  | 14 +++++++++-----
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/ctx/policy.rs b/src/ctx/policy.rs
index 46e18d6..042bf8b 100644
--- a/src/ctx/policy.rs
+++ b/src/ctx/policy.rs
@@ -155,8 +155,14 @@ where
     where
         Pat: Regex<PolicyCtx<I, R>> + ?Sized,
     {
-        self.regex.try_parse(&mut self.inner)?;
-        pat.try_parse(self)
+        let offset = self.offset();
+
+        self.regex
+            .try_parse(&mut self.inner)
+            .and_then(|_| pat.try_parse(self))
+            .inspect_err(|_| {
+                self.set_offset(offset);
+            })
     }
 }
 
@@ -176,11 +182,15 @@ where
         B: Regex<PolicyCtx<I, R>> + ?Sized,
         A: Regex<PolicyCtx<I, R>> + ?Sized,
     {
-        before.try_parse(self)?;
-        let ret = pat.try_parse(self)?;
-
-        after.try_parse(self)?;
-        Ok(ret)
+        let offset = self.offset();
+
+        before
+            .try_parse(self)
+            .and_then(|_| pat.try_parse(self))
+            .and_then(|ret| after.try_parse(self).map(|_| ret))
+            .inspect_err(|_| {
+                self.set_offset(offset);
+            })
     }
 }
 
diff --git a/src/ctx/regex.rs b/src/ctx/regex.rs
index 1340a71..decb59b 100644
--- a/src/ctx/regex.rs
+++ b/src/ctx/regex.rs
@@ -459,11 +459,15 @@ where
         B: Regex<RegexCtx<'a, T>> + ?Sized,
         A: Regex<RegexCtx<'a, T>> + ?Sized,
     {
-        before.try_parse(self)?;
-        let ret = pat.try_parse(self)?;
-
-        after.try_parse(self)?;
-        Ok(ret)
+        let offset = self.offset();
+
+        before
+            .try_parse(self)
+            .and_then(|_| pat.try_parse(self))
+            .and_then(|ret| after.try_parse(self).map(|_| ret))
+            .inspect_err(|_| {
+                self.set_offset(offset);
+            })
     }
 }
 
-- 
2.43.0


From b92361ec39a108fa6e205b7b470b40db55bc711c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:21 +0000
Subject: [PATCH 13/22] fix: a negated unit may match items shorter than those
 of the unit it negates

---
 src/neu/op_not.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/neu/op_not.rs b/src/neu/op_not.rs
index 4d67f0d..f2f2675 100644
--- a/src/neu/op_not.rs
+++ b/src/neu/op_not.rs
@@ -108,8 +108,9 @@ where
         crate::trace_retval!("Not", other, ret)
     }
 
+    // items rejected by `U` may be shorter than the ones it accepts
     fn min_length(&self) -> usize {
-        self.unit.min_length()
+        1
     }
 }
 
-- 
2.43.0


From 5882f6d85a9fb6e2394d04f287c1135f4d116d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:21 +0000
Subject: [PATCH 14/22] fix: Consume counts elements, so it never ends inside a
 character

---
 src/regex/consume.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/regex/consume.rs b/src/regex/consume.rs
index 2ccc65e..80c9316 100644
--- a/src/regex/consume.rs
+++ b/src/regex/consume.rs
@@ -77,11 +77,19 @@ where
         let length = self.0;
 
         debug_regex_beg!("Consume", length, ctx.offset());
-        let ret = if ctx.len() - ctx.offset() >= length {
-            Ok(new_span_inc(ctx, length))
+        let mut iter = ctx.peek()?;
+        // byte length of the next `length` elements, if there are so many
+        let size = if length == 0 {
+            Some(0)
         } else {
-            Err(Error::Consume)
+            iter.nth(length - 1).map(|_| {
+                iter.next()
+                    .map_or(ctx.len() - ctx.offset(), |(offset, _)| offset)
+            })
         };
+        let ret = size
+            .map(|size| new_span_inc(ctx, size))
+            .ok_or(Error::Consume);
 
         debug_regex_reval!("Consume", ret)
     }
-- 
2.43.0


From 1d0beeb7ef780819dac5034028f79deba023026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:21 +0000
Subject: [PATCH 15/22] fix: scanning advances by whole items and stops at the
 end of the input

---
 src/ctx.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/ctx.rs b/src/ctx.rs
index 55c4412..3daa541 100644
--- a/src/ctx.rs
+++ b/src/ctx.rs
@@ -521,7 +521,7 @@ pub trait MatchMulti<'a>: Sized + Match<'a> {
         let func = |ctx: &mut Self, val: Result<Span, Error>| match val {
             Ok(val) if !val.is_empty() => Some(val),
             _ => {
-                ctx.inc(1);
+                inc_item(ctx);
                 None
             }
         };
@@ -601,7 +601,7 @@ pub trait MatchMulti<'a>: Sized + Match<'a> {
         let func = |ctx: &mut Self, val: Result<Span, Error>| match val {
             Ok(val) if !val.is_empty() => Some(val),
             _ => {
-                ctx.inc(1);
+                inc_item(ctx);
                 None
             }
         };
@@ -695,6 +695,20 @@ pub trait MatchMulti<'a>: Sized + Match<'a> {
 
 impl<'a, T> MatchMulti<'a> for T where Self: Sized + Match<'a> {}
 
+// skip the next item, stay at the end of the input
+fn inc_item<'a>(ctx: &mut impl Context<'a>) {
+    let remain = ctx.len().saturating_sub(ctx.offset());
+    let len = match ctx.peek() {
+        Ok(mut iter) => {
+            iter.next();
+            iter.next().map_or(remain, |(offset, _)| offset)
+        }
+        Err(_) => remain.min(1),
+    };
+
+    ctx.inc(len);
+}
+
 // make new span [offset, offset + len) and increment offset
 pub(crate) fn new_span_inc<'a>(ctx: &mut impl Context<'a>, len: usize) -> Span {
     let span = Span::new(ctx.offset(), len);
-- 
2.43.0


From 57a46dc3ffda2d6f8186edc785480477c1f47fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:21 +0000
Subject: [PATCH 16/22] fix: reading outside the input is an error instead of
 an arithmetic overflow

---
 src/ctx.rs       |  4 +++-
 src/ctx/regex.rs | 12 ++++++------
 src/iter/mod.rs  | 12 ++++++------
 3 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/ctx.rs b/src/ctx.rs
index 3daa541..169d02f 100644
--- a/src/ctx.rs
+++ b/src/ctx.rs
@@ -72,7 +72,9 @@ pub trait Context<'a> {
 
     /// Returns a slice of the original data starting from a specific offset.
     fn orig_at(&self, offset: usize) -> Result<Self::Orig<'a>, Error> {
-        self.orig_sub(offset, self.len() - offset)
+        let len = self.len().checked_sub(offset).ok_or(Error::OutOfBound)?;
+
+        self.orig_sub(offset, len)
     }
 
     /// Returns a subslice of the original data with specified offset and length.
diff --git a/src/ctx/regex.rs b/src/ctx/regex.rs
index decb59b..9f2ec3a 100644
--- a/src/ctx/regex.rs
+++ b/src/ctx/regex.rs
@@ -373,9 +373,9 @@ impl<'a> Context<'a> for RegexCtx<'a, [u8]> {
     }
 
     fn orig_sub(&self, offset: usize, len: usize) -> Result<Self::Orig<'a>, Error> {
-        self.dat
-            .get(offset..(offset + len))
-            .ok_or(Error::OutOfBound)
+        let end = offset.checked_add(len).ok_or(Error::OutOfBound)?;
+
+        self.dat.get(offset..end).ok_or(Error::OutOfBound)
     }
 
     fn clone_at(&self, offset: usize) -> Result<Self, Error> {
@@ -425,9 +425,9 @@ impl<'a> Context<'a> for RegexCtx<'a, str> {
     }
 
     fn orig_sub(&self, offset: usize, len: usize) -> Result<Self::Orig<'a>, Error> {
-        self.dat
-            .get(offset..(offset + len))
-            .ok_or(Error::OutOfBound)
+        let end = offset.checked_add(len).ok_or(Error::OutOfBound)?;
+
+        self.dat.get(offset..end).ok_or(Error::OutOfBound)
     }
 
     fn clone_at(&self, offset: usize) -> Result<Self, Error> {
diff --git a/src/iter/mod.rs b/src/iter/mod.rs
index 4c7715a..22d01b2 100644
--- a/src/iter/mod.rs
+++ b/src/iter/mod.rs
@@ -19,7 +19,7 @@ impl IndexBySpan for str {
     type Output = str;
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.checked_add(span.len)?)
     }
 }
 
@@ -27,7 +27,7 @@ impl IndexBySpan for &'_ str {
     type Output = str;
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.checked_add(span.len)?)
     }
 }
 
@@ -35,7 +35,7 @@ impl IndexBySpan for [u8] {
     type Output = [u8];
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.checked_add(span.len)?)
     }
 }
 
@@ -43,7 +43,7 @@ impl IndexBySpan for &'_ [u8] {
     type Output = [u8];
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.checked_add(span.len)?)
     }
 }
 
@@ -52,7 +52,7 @@ impl IndexBySpan for crate::alloc::Vec<u8> {
     type Output = [u8];
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.checked_add(span.len)?)
     }
 }
 
@@ -61,6 +61,6 @@ impl IndexBySpan for &'_ crate::alloc::Vec<u8> {
     type Output = [u8];
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.checked_add(span.len)?)
     }
 }
-- 
2.43.0


From 221a65dcd94e616cdd43f75658cc95ed84350d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:21 +0000
Subject: [PATCH 17/22] fix: groups with unset slots read as absent when empty
 and iterate over every stored span

---
 src/iter/span.rs | 27 +++++++++++++--------------
 src/span.rs      |  6 +++---
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/iter/span.rs b/src/iter/span.rs
index 8e85228..f14498d 100644
--- a/src/iter/span.rs
+++ b/src/iter/span.rs
@@ -105,17 +105,17 @@ where
     type Item = &'a <T as IndexBySpan>::Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let cur = self.cur;
-
-        self.cur += 1;
-        self.spans
-            .get(cur)
-            .and_then(|v| v.as_ref())
-            .and_then(|v| self.value.get_by_span(v))
+        while let Some(span) = self.spans.get(self.cur) {
+            self.cur += 1;
+            if let Some(span) = span {
+                return self.value.get_by_span(span);
+            }
+        }
+        None
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.spans.len() - self.cur;
+        let size = self.spans[self.cur..].iter().flatten().count();
 
         (size, Some(size))
     }
@@ -142,11 +142,10 @@ impl Iterator for OptionSpanIterator<'_> {
     fn next(&mut self) -> Option<Self::Item> {
         let offset = self.offset;
 
-        if offset < self.spans.len() {
-            self.offset += 1;
-            self.spans.get(offset).and_then(|v| v.as_ref()).copied()
-        } else {
-            None
-        }
+        // slots without a span are skipped
+        let index = self.spans[offset..].iter().position(|v| v.is_some())?;
+
+        self.offset = offset + index + 1;
+        self.spans[offset + index]
     }
 }
diff --git a/src/span.rs b/src/span.rs
index de15bb5..0aa5e21 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -398,10 +398,10 @@ impl<const M: usize, const N: usize> ArrayStorer<M, N> {
     /// - The group exists but contains no spans
     pub fn spans(&self, id: usize) -> Option<&[Option<Span>]> {
         self.spans.get(id).and_then(|v| {
-            if v.is_empty() {
-                None
-            } else {
+            if v.iter().any(|v| v.is_some()) {
                 Some(v.as_slice())
+            } else {
+                None
             }
         })
     }
-- 
2.43.0


From 4f8b6de9191c60e51012277345fd72179189839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:21 +0000
Subject: [PATCH 18/22] fix: the remaining length of an exhausted slice
 iterator is zero

---
 src/iter/span.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iter/span.rs b/src/iter/span.rs
index f14498d..7675c96 100644
--- a/src/iter/span.rs
+++ b/src/iter/span.rs
@@ -36,10 +36,10 @@ where
     type Item = &'a <T as IndexBySpan>::Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let cur = self.cur;
+        let span = self.spans.get(self.cur)?;
 
         self.cur += 1;
-        self.spans.get(cur).and_then(|v| self.value.get_by_span(v))
+        self.value.get_by_span(span)
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-- 
2.43.0


From 70b693c5ad9250acaf957312ab83c7970ac5c91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:53 +0000
Subject: [PATCH 19/22] fix: rec_parser_sync no longer deadlocks when the
 parser recurs

---
 src/ctor.rs      | 7 +++++++
 src/lib.rs       | 1 +
 src/regex.rs     | 7 +++++++
 src/regex/rec.rs | 9 +++++----
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/ctor.rs b/src/ctor.rs
index 0a828bb..f366a3a 100644
--- a/src/ctor.rs
+++ b/src/ctor.rs
@@ -281,6 +281,13 @@ impl_forward_ctor!(
     crate::std::Mutex<I>
 );
 
+#[cfg(feature = "std")]
+impl_forward_ctor!(
+    self_,
+    self_.get().ok_or(Error::Option)?,
+    crate::std::OnceLock<I>
+);
+
 impl<C, O, I, H> Ctor<C, O, H> for Cell<I>
 where
     I: Ctor<C, O, H> + Copy,
diff --git a/src/lib.rs b/src/lib.rs
index 5e61f0d..ab24393 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -35,6 +35,7 @@ pub(crate) mod std {
     #[allow(unused)]
     pub use std::collections::HashSet;
     pub use std::sync::Mutex;
+    pub use std::sync::OnceLock;
 }
 
 #[cfg(any(feature = "log", feature = "tracing"))]
diff --git a/src/regex.rs b/src/regex.rs
index 4147266..9ce873c 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -234,6 +234,13 @@ impl_forward_regex!(
     crate::std::Mutex<P>
 );
 
+#[cfg(feature = "std")]
+impl_forward_regex!(
+    self_,
+    self_.get().ok_or(Error::Option)?,
+    crate::std::OnceLock<P>
+);
+
 impl<P, C> Regex<C> for Cell<P>
 where
     P: Regex<C> + Copy,
diff --git a/src/regex/rec.rs b/src/regex/rec.rs
index 11fbc75..c0d33c6 100644
--- a/src/regex/rec.rs
+++ b/src/regex/rec.rs
@@ -8,10 +8,10 @@ mod rec_sync {
     use crate::ctor::Handler;
     use crate::ctx::Context;
     use crate::ctx::Match;
-    use crate::std::Mutex;
+    use crate::std::OnceLock;
 
     pub type RecursiveCtorSync<'b, C, O, H> =
-        Arc<Mutex<Option<Adapter<C, Box<dyn Ctor<C, O, H> + Send + Sync + 'b>>>>>;
+        Arc<OnceLock<Adapter<C, Box<dyn Ctor<C, O, H> + Send + Sync + 'b>>>>;
 
     ///
     /// This function will construct a [RecursiveCtorSync] for recursive parsing,
@@ -50,11 +50,12 @@ mod rec_sync {
         H: Handler<C>,
         I: Ctor<C, O, H> + Send + Sync + 'b,
     {
-        let r_ctor: RecursiveCtorSync<'b, C, O, H> = Arc::new(Mutex::new(None));
+        let r_ctor: RecursiveCtorSync<'b, C, O, H> = Arc::new(OnceLock::new());
         let r_ctor_clone = r_ctor.clone();
         let ctor = handler(r_ctor_clone);
 
-        *r_ctor.lock().unwrap() = Some(Adapter::dyn_box_sync(ctor));
+        // nothing but this function sets the parser, it can not be set already
+        let _ = r_ctor.set(Adapter::dyn_box_sync(ctor));
         r_ctor
     }
 
-- 
2.43.0


From c6a0572a58cb5ddd9f27f550b764528f8ea048d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:35 +0000
Subject: [PATCH 20/22] fix: collections that ask again after the end do not
 restart the repetition

---
 src/ctor/collect.rs | 7 +++++--
 src/ctor/sep.rs     | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ctor/collect.rs b/src/ctor/collect.rs
index 88fc48a..bb9f8c6 100644
--- a/src/ctor/collect.rs
+++ b/src/ctor/collect.rs
@@ -168,7 +168,7 @@ where
         let mut cnt = 0;
         let val = {
             crate::debug_ctor_beg!("Collect", offset);
-            V::from_iter(core::iter::from_fn(|| {
+            let iter = core::iter::from_fn(|| {
                 let beg = ctx.offset();
 
                 self.pat
@@ -180,7 +180,10 @@ where
                         ctx.set_offset(beg);
                     })
                     .ok()
-            }))
+            });
+
+            // the collection may ask again after the end
+            V::from_iter(iter.fuse())
         };
         let ret = if cnt >= self.min {
             Ok(val)
diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index 578785c..45da5ca 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -1116,7 +1116,7 @@ where
         let range: CRange<usize> = (self.min..).into();
         let ret = {
             debug_ctor_beg!("SepCollect", range, offset);
-            V::from_iter(core::iter::from_fn(|| {
+            let iter = core::iter::from_fn(|| {
                 // The collection may ask again after the list has ended
                 if end {
                     return None;
@@ -1140,7 +1140,10 @@ where
                 // give back what follows the last accepted element
                 ctx.set_offset(beg);
                 None
-            }))
+            });
+
+            // the collection may ask again after the end
+            V::from_iter(iter.fuse())
         };
         let ret = if cnt >= self.min {
             Ok(ret)
-- 
2.43.0


From d8ad192eee15325441d768c6c35029018a460235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:46 +0000
Subject: [PATCH 21/22] fix: repetitions and separated lists reserve no more
 than the input can fill

---
 src/ctor/repeat.rs | 4 +++-
 src/ctor/sep.rs    | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ctor/repeat.rs b/src/ctor/repeat.rs
index ae4b711..0d8651f 100644
--- a/src/ctor/repeat.rs
+++ b/src/ctor/repeat.rs
@@ -214,7 +214,9 @@ where
     fn construct(&self, ctx: &mut C, handler: &mut H) -> Result<crate::alloc::Vec<O>, Error> {
         let offset = ctx.offset();
         let mut cnt = 0;
-        let mut vals = crate::alloc::Vec::with_capacity(self.capacity);
+        // never reserve more than the remaining input is likely to fill
+        let remain = ctx.len().saturating_sub(offset);
+        let mut vals = crate::alloc::Vec::with_capacity(self.capacity.min(remain));
 
         crate::debug_ctor_beg!("Repeat", self.range, offset);
         while self.is_contain(cnt) {
diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index 45da5ca..8eb7a30 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -504,7 +504,10 @@ mod alloc_sep {
         #[inline(always)]
         fn construct(&self, ctx: &mut C, func: &mut H) -> Result<crate::alloc::Vec<O>, Error> {
             let offset: usize = ctx.offset();
-            let mut vals = crate::alloc::Vec::with_capacity(self.capacity.max(self.min));
+            // never reserve more than the remaining input is likely to fill
+            let remain = ctx.len().saturating_sub(offset);
+            let capacity = self.capacity.max(self.min).min(remain);
+            let mut vals = crate::alloc::Vec::with_capacity(capacity);
             let range: CRange<usize> = (self.min..).into();
 
             debug_ctor_beg!("Separate", range, offset);
-- 
2.43.0


From 4b4ff16c7f7439c7c53dc7f8004daf57aedd9c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:46 +0000
Subject: [PATCH 22/22] fix: an unreachable minimum count fails instead of
 overflowing

---
 src/neu/times.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/neu/times.rs b/src/neu/times.rs
index fda70ea..e95a2aa 100644
--- a/src/neu/times.rs
+++ b/src/neu/times.rs
@@ -231,7 +231,7 @@ where
         let range = M..N;
 
         crate::debug_regex_beg!("Between", &range, ctx.offset());
-        if remaining_len >= M * self.unit.min_length() {
+        if remaining_len >= M.saturating_mul(self.unit.min_length()) {
             while cnt < N {
                 if let Some(pair) = iter.next() {
                     if self.unit.is_match(&pair.1) && self.cond.check(ctx, &pair)? {
@@ -447,8 +447,10 @@ where
         });
 
         let min_length = || match self.range.start_bound() {
-            core::ops::Bound::Included(max) => max * self.unit.min_length(),
-            core::ops::Bound::Excluded(max) => max.saturating_sub(1) * self.unit.min_length(),
+            core::ops::Bound::Included(max) => max.saturating_mul(self.unit.min_length()),
+            core::ops::Bound::Excluded(max) => max
+                .saturating_sub(1)
+                .saturating_mul(self.unit.min_length()),
             core::ops::Bound::Unbounded => 0,
         };
 
-- 
2.43.0

