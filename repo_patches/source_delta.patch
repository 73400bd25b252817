From 5c8a037759f2278f8b6db8acbf16010be2be397f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:59 +0000
Subject: [PATCH 01/12] fix: LitSet::clear must also empty the universal set

Clearing a terminal set that holds (ty, *) kept the wildcard, so the
FIRST/FOLLOW check inside a sequence reported conflicts between symbols
separated by a non-nullable symbol, e.g. (Option<Ident>, OpAdd, Ident).
---
 packages/teleparse/src/syntax/lit_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/teleparse/src/syntax/lit_set.rs b/packages/teleparse/src/syntax/lit_set.rs
index 299dbda..fe10f7a 100644
--- a/packages/teleparse/src/syntax/lit_set.rs
+++ b/packages/teleparse/src/syntax/lit_set.rs
@@ -49,7 +49,7 @@ impl LitSet {
     pub fn clear(&mut self) {
         match self {
             Self::Match(set) => set.clear(),
-            Self::Any => {}
+            Self::Any => *self = Self::Match(BTreeSet::new()),
         }
     }
 
-- 
2.43.0


From 400a980c4f8ee8e9f4f37f7327ca5c60a5c9e1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:59 +0000
Subject: [PATCH 02/12] fix: FOLLOW must look past nullable symbols in a
 sequence

For X -> A B C with B nullable, FIRST(C) was missing from FOLLOW(A), so
conflicting grammars such as (Nev<Ident>, Option<OpAdd>, Ident) were
accepted as LL(1) and then failed to parse their own language.
---
 packages/teleparse/src/syntax/follow/builder.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/packages/teleparse/src/syntax/follow/builder.rs b/packages/teleparse/src/syntax/follow/builder.rs
index 3325f38..b243698 100644
--- a/packages/teleparse/src/syntax/follow/builder.rs
+++ b/packages/teleparse/src/syntax/follow/builder.rs
@@ -65,10 +65,18 @@ impl<'a, L: Lexicon> FollowBuilder<'a, L> {
             ));
             set.insert(*yi);
         }
-        for yi in sequence.windows(2).rev() {
-            // for X -> Y1 Y2 ... Yi Yi+1 ... Yn
-            // FOLLOW(Yi) = FOLLOW(Yi) U (FIRST(Yi+1) - { epsilon })
-            self.add(FollowRel::union_first_minus_epsilon(yi[0], yi[1]));
+        for (i, yi) in sequence.iter().enumerate() {
+            // for X -> Y1 Y2 ... Yi Yi+1 ... Yj ... Yn
+            // if Yi+1 ... Yj-1 all have epsilon in FIRST, then
+            // FOLLOW(Yi) = FOLLOW(Yi) U (FIRST(Yj) - { epsilon })
+            let mut between = BTreeSet::new();
+            for yj in &sequence[i + 1..] {
+                self.add(FollowRel::if_epsilon_in_all_first_iter(
+                    between.iter(),
+                    FollowRel::union_first_minus_epsilon(*yi, *yj),
+                ));
+                between.insert(*yj);
+            }
         }
     }
 
-- 
2.43.0


From 9bf3900cfc9cd39ad3da60c66e95fd87c37d49db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:59 +0000
Subject: [PATCH 03/12] fix: the parse table must select the nullable variant
 before any token

A union with a nullable variant only took it at the end of the input: when
the next token was in FOLLOW of the union the look up returned nothing and
the parser reported an error, e.g. ( X ) with X -> Option<Ident> | OpAdd
on the input ().
---
 packages/teleparse/src/syntax/jump.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/teleparse/src/syntax/jump.rs b/packages/teleparse/src/syntax/jump.rs
index 1005ace..5d8da11 100644
--- a/packages/teleparse/src/syntax/jump.rs
+++ b/packages/teleparse/src/syntax/jump.rs
@@ -110,8 +110,8 @@ impl<L: Lexicon> JumpTable<L> {
     #[inline]
     pub fn look_up(&self, token: Option<TokenSrc<'_, L>>) -> Option<usize> {
         token
-            .map(|token| self.look_up_token(&token))
-            .unwrap_or(self.epsilon)
+            .and_then(|token| self.look_up_token(&token))
+            .or(self.epsilon)
     }
 
     /// Look up the parsing table entry for a token
-- 
2.43.0


From 5cdf75fd13a096b48a146b05e6087f51e7f97ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:59 +0000
Subject: [PATCH 04/12] fix: Recover reports why it fails at the end of the
 input

---
 packages/teleparse/src/tp_impl/recover.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/teleparse/src/tp_impl/recover.rs b/packages/teleparse/src/tp_impl/recover.rs
index 850fac1..0aad248 100644
--- a/packages/teleparse/src/tp_impl/recover.rs
+++ b/packages/teleparse/src/tp_impl/recover.rs
@@ -103,6 +103,9 @@ where
             parser.consume_token();
         };
 
+        if tail.is_none() && panic.is_none() {
+            panic = Some(parser.unexpected_eof());
+        }
         if let Some(panic) = panic {
             errors.push(panic);
         }
-- 
2.43.0


From efe6fc6fc83587348d635fb50a33afcad3645ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:59 +0000
Subject: [PATCH 05/12] fix: an empty span does not overlap any token

---
 packages/teleparse/src/lex/vec.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/teleparse/src/lex/vec.rs b/packages/teleparse/src/lex/vec.rs
index ebff39a..9e51dc7 100644
--- a/packages/teleparse/src/lex/vec.rs
+++ b/packages/teleparse/src/lex/vec.rs
@@ -168,6 +168,10 @@ impl<L: Lexicon> TokenSlice<L> {
     /// `Some` is returned
     pub fn overlap_bounds<S: Into<Span>>(&self, span: S) -> Option<(usize, usize)> {
         let span = span.into();
+        if span.hi <= span.lo {
+            // an empty span does not intersect anything
+            return None;
+        }
         let lo = match self.search_lo(span.lo) {
             Ok(i) => i, // i must be overlapping/included
             Err(i) => {
-- 
2.43.0


From 66a244eeb03ad99a1039a102a947a56bcd51530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:59 +0000
Subject: [PATCH 06/12] fix: Span::get of a span that starts after the input is
 empty

---
 packages/teleparse/src/lex/span.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/teleparse/src/lex/span.rs b/packages/teleparse/src/lex/span.rs
index ca57f46..1666680 100644
--- a/packages/teleparse/src/lex/span.rs
+++ b/packages/teleparse/src/lex/span.rs
@@ -44,10 +44,10 @@ impl Span {
 
     /// Get the content of this span from the entire source input
     pub fn get<'s>(&self, input: &'s str) -> &'s str {
-        if self.hi <= self.lo {
+        let hi = self.hi.min(input.len());
+        if hi <= self.lo {
             return "";
         }
-        let hi = self.hi.min(input.len());
         &input[self.lo..hi]
     }
 }
-- 
2.43.0


From d8ecf2325391d9b7bc2f1219f20668b0cbdea3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:59 +0000
Subject: [PATCH 07/12] fix: token sets of lexicons with more than 32 variants

1 << id was computed as an i32, which overflows for ids from 31 up.
---
 packages/macros/src/lexicon.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/macros/src/lexicon.rs b/packages/macros/src/lexicon.rs
index 8e27db6..8153ffa 100644
--- a/packages/macros/src/lexicon.rs
+++ b/packages/macros/src/lexicon.rs
@@ -57,6 +57,11 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
         65..=128 => quote!(u128),
         _ => syn_error!(input, "derive_lexicon can have at most 128 variants"),
     };
+    let to_bit_body = match enum_data.variants.len() {
+        1..=32 => quote!((1 << self.id()) as Self::Bit),
+        // the literal must have the type of the bit set, since i32 is too small
+        _ => quote!((1 as Self::Bit) << self.id()),
+    };
 
     let enum_ident = &input.ident;
     let enum_vis = &input.vis;
@@ -304,7 +309,7 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
 
                 fn id(&self) -> usize { *self as usize }
                 fn from_id_unchecked(id: usize) -> Self { unsafe { std::mem::transmute(id) } }
-                fn to_bit(&self) -> Self::Bit { (1 << self.id()) as Self::Bit }
+                fn to_bit(&self) -> Self::Bit { #to_bit_body }
                 fn first() -> Self { Self::#enum_first_variant }
 
                 fn next(&self) -> ::core::option::Option<Self> {
-- 
2.43.0


From db64d39641f55b06c52dda417bc411ec3884dd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:59 +0000
Subject: [PATCH 08/12] fix: a token inserted at the end of the input starts
 after the last token

It was placed at the end of the source, past ignored text, so an empty
optional node following it had a smaller position and the inserted token
was outside the span of its parent.
---
 packages/teleparse/src/parser/parser_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/teleparse/src/parser/parser_impl.rs b/packages/teleparse/src/parser/parser_impl.rs
index d136e45..b9757e1 100644
--- a/packages/teleparse/src/parser/parser_impl.rs
+++ b/packages/teleparse/src/parser/parser_impl.rs
@@ -138,7 +138,7 @@ impl<'s, L: Lexicon> Parser<'s, L> {
             None => {
                 if follow.contains_eof() {
                     let expecting = FirstSet::one(ty, Some(match_lit));
-                    let token = Token::new(self.current_span(), ty);
+                    let token = Token::new(self.empty_span(), ty);
                     return SynResult::Recovered(token, vec![self.expecting(expecting)]);
                 }
                 return SynResult::Panic(vec![self.unexpected_eof()]);
-- 
2.43.0


From 9049ad5319d9ff779bbf10dfe0b2f736a32a66f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:34 +0000
Subject: [PATCH 09/12] fix: report left recursion that is not a FIRST/FOLLOW
 conflict

The visited check came before the check of the current path, so left
recursion was never reported: a grammar like X -> X + was accepted and
parsing it overflowed the stack. The search also shared one visited set
between left and non-left paths, which hid some cycles.
---
 packages/teleparse/src/syntax/metadata.rs | 124 ++++++++--------------
 1 file changed, 47 insertions(+), 77 deletions(-)

diff --git a/packages/teleparse/src/syntax/metadata.rs b/packages/teleparse/src/syntax/metadata.rs
index d81bf19..e388bce 100644
--- a/packages/teleparse/src/syntax/metadata.rs
+++ b/packages/teleparse/src/syntax/metadata.rs
@@ -57,11 +57,6 @@ impl<L: Lexicon> MetadataBuilder<L> {
         let prods = self.productions;
         let first = self.first_builder.build();
         let mut seen = BTreeSet::new();
-        let mut set = BTreeSet::new();
-        let mut stack = Vec::new();
-        check_left_recursive(
-            &names, &prods, root, &mut seen, &mut set, &mut stack, &first,
-        )?;
         let mut follow_builder = FollowBuilder::new(&first);
         for (t, prod) in &prods {
             match prod {
@@ -75,8 +70,18 @@ impl<L: Lexicon> MetadataBuilder<L> {
             }
         }
         let follow = follow_builder.build(root);
-        seen.clear();
         check_conflicts(&names, &prods, root, &mut seen, &first, &follow)?;
+        // left recursion in a symbol that can produce something is always a conflict, this catches
+        // the ones that would recurse forever without producing anything
+        seen.clear();
+        check_left_recursive(
+            &names,
+            &prods,
+            root,
+            &mut seen,
+            &mut BTreeSet::new(),
+            &first,
+        )?;
         let mut jump = Jump::new();
         seen.clear();
         build_jump(&prods, root, &mut seen, &first, &mut jump);
@@ -88,19 +93,43 @@ impl<L: Lexicon> MetadataBuilder<L> {
         })
     }
 }
+/// Check every non-terminal reachable from `t` for left recursion
 fn check_left_recursive<L: Lexicon>(
     names: &BTreeMap<TypeId, String>,
     prods: &BTreeMap<TypeId, ProductionEntry>,
     t: TypeId,
     seen: &mut BTreeSet<TypeId>,
-    set: &mut BTreeSet<TypeId>,
-    stack: &mut Vec<TypeId>,
+    done: &mut BTreeSet<TypeId>,
     first: &First<L>,
 ) -> Result<(), GrammarError> {
     if !seen.insert(t) {
         return Ok(());
     }
-    if !set.insert(t) {
+    check_left_cycle(names, prods, t, done, &mut Vec::new(), first)?;
+    match prods.get(&t) {
+        None | Some(ProductionEntry::Terminal) => {}
+        Some(ProductionEntry::Union(types)) | Some(ProductionEntry::Sequence(types)) => {
+            for inner in types.iter() {
+                check_left_recursive(names, prods, *inner, seen, done, first)?;
+            }
+        }
+    }
+    Ok(())
+}
+
+/// Check if `t` can produce a symbol on the stack without consuming a token first
+fn check_left_cycle<L: Lexicon>(
+    names: &BTreeMap<TypeId, String>,
+    prods: &BTreeMap<TypeId, ProductionEntry>,
+    t: TypeId,
+    done: &mut BTreeSet<TypeId>,
+    stack: &mut Vec<TypeId>,
+    first: &First<L>,
+) -> Result<(), GrammarError> {
+    if done.contains(&t) {
+        return Ok(());
+    }
+    if stack.contains(&t) {
         let stack = stack
             .iter()
             .map(|t| names.get(t).map(|x| x.as_str()).unwrap_or_default())
@@ -108,84 +137,25 @@ fn check_left_recursive<L: Lexicon>(
         let current = names.get(&t).map(|x| x.as_str()).unwrap_or_default();
         return Err(GrammarError::left_recursion(&stack, current));
     }
+    stack.push(t);
     match prods.get(&t) {
-        None => {
-            set.remove(&t);
-        }
-        Some(ProductionEntry::Terminal) => {
-            set.remove(&t);
-        }
+        None | Some(ProductionEntry::Terminal) => {}
         Some(ProductionEntry::Union(types)) => {
-            stack.push(t);
             for inner in types.iter() {
-                let result = check_left_recursive(names, prods, *inner, seen, set, stack, first);
-                if let Err(e) = result {
-                    stack.pop();
-                    set.remove(&t);
-                    return Err(e);
-                }
+                check_left_cycle(names, prods, *inner, done, stack, first)?;
             }
-            stack.pop();
-            set.remove(&t);
         }
         Some(ProductionEntry::Sequence(types)) => {
-            stack.push(t);
-            let mut iter = types.iter();
-            let inner_first = match iter.next() {
-                Some(inner) => inner,
-                None => {
-                    stack.pop();
-                    set.remove(&t);
-                    return Ok(());
-                }
-            };
-            let result = check_left_recursive(names, prods, *inner_first, seen, set, stack, first);
-            if let Err(e) = result {
-                stack.pop();
-                set.remove(&t);
-                return Err(e);
-            }
-            let mut temp_stack = Vec::new();
-            let mut temp_set = BTreeSet::new();
-
-            let (mut cur_stack, mut cur_set, mut need_pop) =
-                if first.get(inner_first).contains_epsilon() {
-                    (stack, set, true)
-                } else {
-                    stack.pop();
-                    set.remove(&t);
-                    (&mut temp_stack, &mut temp_set, false)
-                };
-
-            for inner in iter {
-                let result =
-                    check_left_recursive(names, prods, *inner, seen, cur_set, cur_stack, first);
-                if let Err(e) = result {
-                    if need_pop {
-                        cur_stack.pop();
-                        cur_set.remove(&t);
-                    }
-                    return Err(e);
-                }
+            for inner in types.iter() {
+                check_left_cycle(names, prods, *inner, done, stack, first)?;
                 if !first.get(inner).contains_epsilon() {
-                    if need_pop {
-                        cur_stack.pop();
-                        cur_set.remove(&t);
-                    }
-                    temp_stack.clear();
-                    temp_set.clear();
-                    cur_stack = &mut temp_stack;
-                    cur_set = &mut temp_set;
-                    need_pop = false;
-                };
-            }
-            if need_pop {
-                cur_stack.pop();
-                cur_set.remove(&t);
+                    break;
+                }
             }
         }
     }
-
+    stack.pop();
+    done.insert(t);
     Ok(())
 }
 
-- 
2.43.0


From e8ad21e404f06992d3cbae32ec603200757d4b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:56 +0000
Subject: [PATCH 10/12] fix: a FIRST/FOLLOW conflict in a sequence names the
 symbols in conflict

The reported symbol was the last non-nullable one before the conflict, or
the first of several nullable ones, which is not part of the conflict.
---
 packages/teleparse/src/syntax/metadata.rs | 50 +++++++++++------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/packages/teleparse/src/syntax/metadata.rs b/packages/teleparse/src/syntax/metadata.rs
index e388bce..77b3736 100644
--- a/packages/teleparse/src/syntax/metadata.rs
+++ b/packages/teleparse/src/syntax/metadata.rs
@@ -207,36 +207,32 @@ fn check_conflicts<L: Lexicon>(
             }
         }
         Some(ProductionEntry::Sequence(types)) => {
-            let mut iter = types.iter();
-            let mut cur = match iter.next() {
-                Some(inner) => inner,
-                None => return Ok(()),
-            };
-            let cur_first = first.get(cur);
-            let mut cur_check = if cur_first.contains_epsilon() {
-                cur_first.clone()
-            } else {
-                FirstSet::new()
-            };
-            for inner in iter {
+            // the symbols right before the current one that can be empty
+            let mut empty_run: Vec<&TypeId> = Vec::new();
+            for inner in types.iter() {
                 let next_first = first.get(inner);
-                if cur_check.intersects_minus_epsilon(next_first) {
-                    let cur_name = names.get(cur).cloned().unwrap_or_default();
-                    let next_name = names.get(inner).cloned().unwrap_or_default();
-                    let self_name = names.get(&t).cloned().unwrap_or_default();
-                    let terminals = cur_check
-                        .intersection_repr_minus_epsilon(next_first)
-                        .into_iter()
-                        .join(", ");
-                    return Err(GrammarError::FirstFollowSeqConflict(
-                        self_name, cur_name, next_name, terminals,
-                    ));
+                for before in &empty_run {
+                    let before_first = first.get(before);
+                    if before_first.intersects_minus_epsilon(next_first) {
+                        let before_name = names.get(before).cloned().unwrap_or_default();
+                        let next_name = names.get(inner).cloned().unwrap_or_default();
+                        let self_name = names.get(&t).cloned().unwrap_or_default();
+                        let terminals = before_first
+                            .intersection_repr_minus_epsilon(next_first)
+                            .into_iter()
+                            .join(", ");
+                        return Err(GrammarError::FirstFollowSeqConflict(
+                            self_name,
+                            before_name,
+                            next_name,
+                            terminals,
+                        ));
+                    }
                 }
-                if next_first.contains_epsilon() {
-                    cur_check.union_minus_epsilon(next_first);
+                if !next_first.contains_epsilon() {
+                    empty_run.clear();
                 } else {
-                    cur_check.clear();
-                    cur = inner;
+                    empty_run.push(inner);
                 }
             }
             check_self_first_follow_conflict(names, t, first, follow)?;
-- 
2.43.0


From c70e7a4b7acd1f135c725bff204e2c25514ca67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:26 +0000
Subject: [PATCH 11/12] fix: token rules after a variant without rules

A variant with neither a regex nor terminals (a semantic type) still
contributed an empty entry to the list of token rules but none to the
list of lexer variants, so when it was declared before other variants
every following rule was attached to the wrong variant.
---
 packages/macros/src/lexicon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/macros/src/lexicon.rs b/packages/macros/src/lexicon.rs
index 8153ffa..0394915 100644
--- a/packages/macros/src/lexicon.rs
+++ b/packages/macros/src/lexicon.rs
@@ -263,7 +263,7 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
                 });
             }
             lex_variant_derived_attrs.push(regex_attr);
-        } else if let Some(infer_literals) = infer_literals {
+        } else if let Some(infer_literals) = infer_literals.filter(|x| !x.is_empty()) {
             let mut token_attr = TokenStream2::new();
             for lit in infer_literals {
                 token_attr.extend(quote! {
-- 
2.43.0


From 82727b2fb3baca6ede72d267693b8778e1f715d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 12/12] fix: lexicons with more than 32 variants compile

The storage of token maps was an array, and Default is only implemented
for arrays of up to 32 items.
---
 packages/macros/src/lexicon.rs    |  9 +++++++--
 packages/teleparse/src/lex/map.rs | 24 ++++++++++++++++++++++++
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/packages/macros/src/lexicon.rs b/packages/macros/src/lexicon.rs
index 0394915..678b01f 100644
--- a/packages/macros/src/lexicon.rs
+++ b/packages/macros/src/lexicon.rs
@@ -63,6 +63,12 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
         _ => quote!((1 as Self::Bit) << self.id()),
     };
 
+    let map_ty = match enum_data.variants.len() {
+        len @ 1..=32 => quote!([T; #len]),
+        // Default is only implemented for arrays of up to 32 items
+        len => quote!(#teleparse::lex::LargeMap<T, #len>),
+    };
+
     let enum_ident = &input.ident;
     let enum_vis = &input.vis;
 
@@ -274,7 +280,6 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
         }
     }
     // variants size checked when determining repr
-    let enum_len = enum_data.variants.len();
     let enum_first_variant = &enum_data.variants.first().unwrap().ident;
     let enum_last_variant = &enum_data.variants.last().unwrap().ident;
     let out = quote! {
@@ -305,7 +310,7 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
             impl #teleparse::Lexicon for #enum_ident {
                 type Bit = #repr_ty;
                 type Lexer<'s> = #teleparse::lex::LogosLexerWrapper<'s, Self, DerivedLogos>;
-                type Map<T: Default + Clone> = [T; #enum_len];
+                type Map<T: Default + Clone> = #map_ty;
 
                 fn id(&self) -> usize { *self as usize }
                 fn from_id_unchecked(id: usize) -> Self { unsafe { std::mem::transmute(id) } }
diff --git a/packages/teleparse/src/lex/map.rs b/packages/teleparse/src/lex/map.rs
index 78a8f08..4dd6972 100644
--- a/packages/teleparse/src/lex/map.rs
+++ b/packages/teleparse/src/lex/map.rs
@@ -12,6 +12,30 @@ use super::Lexicon;
 #[derivative(Default(new = "true", bound = ""))]
 pub struct Map<L: Lexicon, T: Default + Clone>(L::Map<T>);
 
+/// Map storage for lexicons with more than 32 variants
+///
+/// This is an array that implements [`Default`] for any length
+#[derive(Clone)]
+pub struct LargeMap<T, const N: usize>([T; N]);
+
+impl<T: Default, const N: usize> Default for LargeMap<T, N> {
+    fn default() -> Self {
+        Self(std::array::from_fn(|_| T::default()))
+    }
+}
+
+impl<T, const N: usize> Borrow<[T]> for LargeMap<T, N> {
+    fn borrow(&self) -> &[T] {
+        &self.0
+    }
+}
+
+impl<T, const N: usize> BorrowMut<[T]> for LargeMap<T, N> {
+    fn borrow_mut(&mut self) -> &mut [T] {
+        &mut self.0
+    }
+}
+
 #[cfg(feature = "serde")]
 impl<L: Lexicon, T: Default + Clone + serde::Serialize> serde::Serialize for Map<L, T> {
     #[inline]
-- 
2.43.0

