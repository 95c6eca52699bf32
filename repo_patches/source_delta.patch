From f002f6df60ce560cbfb11ad6f8a07fa48eb6fc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:34 +0000
Subject: [PATCH 01/12] fix: Set<bool>::remove must only report removal of the
 given key

---
 src/set/storage/boolean.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/set/storage/boolean.rs b/src/set/storage/boolean.rs
index 3737358..71823b9 100644
--- a/src/set/storage/boolean.rs
+++ b/src/set/storage/boolean.rs
@@ -148,9 +148,8 @@ impl SetStorage<bool> for BooleanSetStorage {
 
     #[inline]
     fn remove(&mut self, value: bool) -> bool {
-        let value = to_bits(value);
-        let update = self.bits & !value;
-        mem::replace(&mut self.bits, update) != 0
+        let update = self.bits & !to_bits(value);
+        test(mem::replace(&mut self.bits, update), value)
     }
 
     #[inline]
-- 
2.43.0


From a055f031f47bbe710bac3cc4122fae0273755a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:34 +0000
Subject: [PATCH 02/12] fix: Set<bool>::insert must return true when the key
 was absent

---
 src/set/storage/boolean.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set/storage/boolean.rs b/src/set/storage/boolean.rs
index 71823b9..af747c9 100644
--- a/src/set/storage/boolean.rs
+++ b/src/set/storage/boolean.rs
@@ -138,7 +138,7 @@ impl SetStorage<bool> for BooleanSetStorage {
     #[inline]
     fn insert(&mut self, value: bool) -> bool {
         let update = self.bits | to_bits(value);
-        test(mem::replace(&mut self.bits, update), value)
+        !test(mem::replace(&mut self.bits, update), value)
     }
 
     #[inline]
-- 
2.43.0


From f965c2dc13147a5cb09082e5e49202a521913c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:34 +0000
Subject: [PATCH 03/12] fix: Set<Option<T>>::is_empty must be true only without
 None

---
 src/set/storage/option.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set/storage/option.rs b/src/set/storage/option.rs
index 5fe0fbb..db81fbe 100644
--- a/src/set/storage/option.rs
+++ b/src/set/storage/option.rs
@@ -118,7 +118,7 @@ where
 
     #[inline]
     fn is_empty(&self) -> bool {
-        self.some.is_empty() && self.none
+        self.some.is_empty() && !self.none
     }
 
     #[inline]
-- 
2.43.0


From 50e961708be7080d66c7964da9c3e33b0c3dd870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:34 +0000
Subject: [PATCH 04/12] fix: Set<Option<T>>::insert(None) must return true when
 None was absent

---
 src/set/storage/option.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set/storage/option.rs b/src/set/storage/option.rs
index db81fbe..fef1e51 100644
--- a/src/set/storage/option.rs
+++ b/src/set/storage/option.rs
@@ -125,7 +125,7 @@ where
     fn insert(&mut self, value: Option<T>) -> bool {
         match value {
             Some(value) => self.some.insert(value),
-            None => mem::replace(&mut self.none, true),
+            None => !mem::replace(&mut self.none, true),
         }
     }
 
-- 
2.43.0


From 7013fa27dde48edaefbcf01800296cbf073d2adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:34 +0000
Subject: [PATCH 05/12] fix: Set<()>::retain must not visit or add an absent
 key

---
 src/set/storage/singleton.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/set/storage/singleton.rs b/src/set/storage/singleton.rs
index f52cb4e..6e92c05 100644
--- a/src/set/storage/singleton.rs
+++ b/src/set/storage/singleton.rs
@@ -51,7 +51,9 @@ where
     where
         F: FnMut(T) -> bool,
     {
-        self.is_set = func(T::default());
+        if self.is_set {
+            self.is_set = func(T::default());
+        }
     }
 
     #[inline]
-- 
2.43.0


From d750b5a5b3f9633aa898432d5fab6bfed5595456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:34 +0000
Subject: [PATCH 06/12] fix: Map<(), V>::keys must be empty when the map is
 empty

---
 src/map/storage/singleton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map/storage/singleton.rs b/src/map/storage/singleton.rs
index e01c930..32d1a19 100644
--- a/src/map/storage/singleton.rs
+++ b/src/map/storage/singleton.rs
@@ -120,7 +120,7 @@ where
 
     #[inline]
     fn keys(&self) -> Self::Keys<'_> {
-        Some(K::default()).into_iter()
+        self.inner.as_ref().map(|_| K::default()).into_iter()
     }
 
     #[inline]
-- 
2.43.0


From 1b5ed94005196a64951e20569884815cb4007ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:52 +0000
Subject: [PATCH 07/12] fix: order bitset sets in declaration order like every
 other set

---
 fixed-map-derive/src/unit_variants.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fixed-map-derive/src/unit_variants.rs b/fixed-map-derive/src/unit_variants.rs
index 20c3558..c6a1471 100644
--- a/fixed-map-derive/src/unit_variants.rs
+++ b/fixed-map-derive/src/unit_variants.rs
@@ -391,7 +391,9 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
     let copy_t = cx.toks.copy_t();
     let eq_t = cx.toks.eq_t();
     let hash_t = cx.toks.hash_t();
+    let iterator_cmp_bool = cx.toks.iterator_cmp_bool();
     let iterator_flatten = cx.toks.iterator_flatten();
+    let iterator_partial_cmp_bool = cx.toks.iterator_partial_cmp_bool();
     let mem = cx.toks.mem();
     let option = cx.toks.option();
     let ord_t = cx.toks.ord_t();
@@ -428,7 +430,7 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
         impl #partial_ord_t for #set_storage {
             #[inline]
             fn partial_cmp(&self, other: &Self) -> Option<#ordering> {
-                #partial_ord_t::partial_cmp(&self.data, &other.data)
+                #iterator_partial_cmp_bool(&[#(self.data & #numbers != 0),*], &[#(other.data & #numbers != 0),*])
             }
         }
 
@@ -436,7 +438,7 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
         impl #ord_t for #set_storage {
             #[inline]
             fn cmp(&self, other: &Self) -> #ordering {
-                #ord_t::cmp(&self.data, &other.data)
+                #iterator_cmp_bool(&[#(self.data & #numbers != 0),*], &[#(other.data & #numbers != 0),*])
             }
         }
 
-- 
2.43.0


From 94d5184b42dd5bd975716e623f34666f5f8e6920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:52 +0000
Subject: [PATCH 08/12] fix: report derive errors which were collected but not
 returned

---
 fixed-map-derive/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fixed-map-derive/src/lib.rs b/fixed-map-derive/src/lib.rs
index 365df0a..3d14a06 100644
--- a/fixed-map-derive/src/lib.rs
+++ b/fixed-map-derive/src/lib.rs
@@ -38,11 +38,12 @@ pub fn storage_derive(input: proc_macro::TokenStream) -> proc_macro::TokenStream
 
     let result = impl_storage(&cx);
 
-    if let Ok(g) = result {
+    let errors = cx.into_errors();
+
+    if let (Ok(g), true) = (result, errors.is_empty()) {
         return g.into();
     }
 
-    let errors = cx.into_errors();
     let compile_errors = errors.iter().map(syn::Error::to_compile_error);
     quote!(#(#compile_errors)*).into()
 }
-- 
2.43.0


From 3053ebc9494072932fa171c0d4b07006f511c92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 09/12] fix: reject bitset storage on enums with fields, where
 it was silently ignored

---
 fixed-map-derive/src/any_variants.rs | 12 ++++++++++--
 fixed-map-derive/src/lib.rs          |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/fixed-map-derive/src/any_variants.rs b/fixed-map-derive/src/any_variants.rs
index 3ff6378..39c108a 100644
--- a/fixed-map-derive/src/any_variants.rs
+++ b/fixed-map-derive/src/any_variants.rs
@@ -6,10 +6,18 @@ use syn::spanned::Spanned;
 const MAP_STORAGE: &str = "__MapStorage";
 const SET_STORAGE: &str = "__SetStorage";
 
-use crate::context::Ctxt;
+use crate::context::{Ctxt, Opts};
 
 /// Implement the `Key` trait for an enum.
-pub(crate) fn implement(cx: &Ctxt<'_>, en: &syn::DataEnum) -> Result<TokenStream, ()> {
+pub(crate) fn implement(
+    cx: &Ctxt<'_>,
+    opts: &Opts,
+    en: &syn::DataEnum,
+) -> Result<TokenStream, ()> {
+    if let Some(span) = opts.bitset {
+        cx.span_error(span, "bitset storage is only supported for unit variants");
+    }
+
     let ident = &cx.ast.ident;
 
     let key_t = cx.toks.key_t();
diff --git a/fixed-map-derive/src/lib.rs b/fixed-map-derive/src/lib.rs
index 3d14a06..b1cf0e3 100644
--- a/fixed-map-derive/src/lib.rs
+++ b/fixed-map-derive/src/lib.rs
@@ -55,7 +55,7 @@ fn impl_storage(cx: &context::Ctxt<'_>) -> Result<TokenStream, ()> {
         if is_all_unit_variants(en) {
             unit_variants::implement(cx, &opts, en)
         } else {
-            any_variants::implement(cx, en)
+            any_variants::implement(cx, &opts, en)
         }
     } else {
         cx.span_error(cx.ast.span(), "named fields are not supported");
-- 
2.43.0


From 5fe9f4582aa39b083691f9d146421aade34221ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 10/12] fix: allow attributes and doc comments on the field of
 a variant

---
 fixed-map-derive/src/any_variants.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/fixed-map-derive/src/any_variants.rs b/fixed-map-derive/src/any_variants.rs
index 39c108a..407909c 100644
--- a/fixed-map-derive/src/any_variants.rs
+++ b/fixed-map-derive/src/any_variants.rs
@@ -9,11 +9,7 @@ const SET_STORAGE: &str = "__SetStorage";
 use crate::context::{Ctxt, Opts};
 
 /// Implement the `Key` trait for an enum.
-pub(crate) fn implement(
-    cx: &Ctxt<'_>,
-    opts: &Opts,
-    en: &syn::DataEnum,
-) -> Result<TokenStream, ()> {
+pub(crate) fn implement(cx: &Ctxt<'_>, opts: &Opts, en: &syn::DataEnum) -> Result<TokenStream, ()> {
     if let Some(span) = opts.bitset {
         cx.span_error(span, "bitset storage is only supported for unit variants");
     }
@@ -46,7 +42,7 @@ pub(crate) fn implement(
                     continue;
                 }
 
-                let element = unnamed.unnamed.first().expect("Expected one element");
+                let element = &unnamed.unnamed.first().expect("Expected one element").ty;
                 let map_storage = quote!(<#element as #key_t>::MapStorage::<V>);
                 let as_map_storage = quote!(<#map_storage as #map_storage_t<#element, V>>);
                 let set_storage = quote!(<#element as #key_t>::SetStorage);
@@ -2124,7 +2120,7 @@ pub(crate) enum Kind<'a> {
 /// A complex field kind.
 pub(crate) struct Complex<'a> {
     /// Type of variant field
-    pub(crate) element: &'a syn::Field,
+    pub(crate) element: &'a syn::Type,
     /// `<E as Key>::MapStorage::<V>` (`E` = type of variant field)
     pub(crate) map_storage: TokenStream,
     /// `<<E as Key>::MapStorage::<V> as MapStorage<E, V>>` (`E` = type of variant field)
-- 
2.43.0


From 0a3b22216446c8d06c62c71811a3061aa7bad98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 11/12] fix: derive Key for enums with fields passed whole
 through a macro

---
 fixed-map-derive/src/any_variants.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fixed-map-derive/src/any_variants.rs b/fixed-map-derive/src/any_variants.rs
index 407909c..5e25095 100644
--- a/fixed-map-derive/src/any_variants.rs
+++ b/fixed-map-derive/src/any_variants.rs
@@ -48,8 +48,11 @@ pub(crate) fn implement(cx: &Ctxt<'_>, opts: &Opts, en: &syn::DataEnum) -> Resul
                 let set_storage = quote!(<#element as #key_t>::SetStorage);
                 let as_set_storage = quote!(<#set_storage as #set_storage_t<#element>>);
 
-                let pat =
-                    build_tuple_struct_pat(ident, var, Some(syn::Ident::new("v", unnamed.span())));
+                let pat = build_tuple_struct_pat(
+                    ident,
+                    var,
+                    Some(syn::Ident::new("v", Span::call_site())),
+                );
 
                 fields.patterns.push(pat);
 
-- 
2.43.0


From be2dc3e7eea7df1bb5801ddd21917b8410047944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:15 +0000
Subject: [PATCH 12/12] fix: generated code refers to Option and its variants
 by path

A variant named None or Some that is imported where the derive is used, or an
enum named Option, made the generated code fail to compile.
---
 fixed-map-derive/src/any_variants.rs  |  4 ++--
 fixed-map-derive/src/unit_variants.rs | 18 +++++++++---------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/fixed-map-derive/src/any_variants.rs b/fixed-map-derive/src/any_variants.rs
index 5e25095..93bce54 100644
--- a/fixed-map-derive/src/any_variants.rs
+++ b/fixed-map-derive/src/any_variants.rs
@@ -373,7 +373,7 @@ fn impl_map_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
                 Kind::Simple => quote! {
                     if let #option::Some(val) = #option::as_mut(&mut self.#name) {
                         if !func(#ident::#var, val) {
-                            self.#name = None;
+                            self.#name = #option::None;
                         }
                     }
                 },
@@ -1467,7 +1467,7 @@ fn map_storage_into_iter(
             type Item = (#ident, V);
 
             #[inline]
-            fn next(&mut self) -> Option<Self::Item> {
+            fn next(&mut self) -> #option<Self::Item> {
                 #step_forward
                 #option::None
             }
diff --git a/fixed-map-derive/src/unit_variants.rs b/fixed-map-derive/src/unit_variants.rs
index c6a1471..db79f45 100644
--- a/fixed-map-derive/src/unit_variants.rs
+++ b/fixed-map-derive/src/unit_variants.rs
@@ -210,7 +210,7 @@ fn impl_map(
         #[automatically_derived]
         impl<V> #partial_ord_t for #map_storage<V> where V: #partial_ord_t {
             #[inline]
-            fn partial_cmp(&self, other: &Self) -> Option<#ordering> {
+            fn partial_cmp(&self, other: &Self) -> #option<#ordering> {
                 #iterator_partial_cmp(&self.data, &other.data)
             }
         }
@@ -319,7 +319,7 @@ fn impl_map(
 
                 #(if let #option::Some(val) = #option::as_mut(#names) {
                     if !func(#ident::#variants, val) {
-                        *#names = None;
+                        *#names = #option::None;
                     }
                 })*
             }
@@ -338,7 +338,7 @@ fn impl_map(
             #[inline]
             fn keys(&self) -> Self::Keys<'_> {
                 let [#(#names),*] = &self.data;
-                #iterator_t::flatten(#into_iterator_t::into_iter([#(if #names.is_some() { Some(#ident::#variants) } else { None }),*]))
+                #iterator_t::flatten(#into_iterator_t::into_iter([#(if #names.is_some() { #option::Some(#ident::#variants) } else { #option::None }),*]))
             }
 
             #[inline]
@@ -429,7 +429,7 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
         #[automatically_derived]
         impl #partial_ord_t for #set_storage {
             #[inline]
-            fn partial_cmp(&self, other: &Self) -> Option<#ordering> {
+            fn partial_cmp(&self, other: &Self) -> #option<#ordering> {
                 #iterator_partial_cmp_bool(&[#(self.data & #numbers != 0),*], &[#(other.data & #numbers != 0),*])
             }
         }
@@ -506,12 +506,12 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
 
             #[inline]
             fn iter(&self) -> Self::Iter<'_> {
-                #iterator_t::flatten(#into_iterator_t::into_iter([#(if self.data & #numbers != 0 { Some(#ident::#variants) } else { None }),*]))
+                #iterator_t::flatten(#into_iterator_t::into_iter([#(if self.data & #numbers != 0 { #option::Some(#ident::#variants) } else { #option::None }),*]))
             }
 
             #[inline]
             fn into_iter(self) -> Self::IntoIter {
-                #iterator_t::flatten(#into_iterator_t::into_iter([#(if self.data & #numbers != 0 { Some(#ident::#variants) } else { None }),*]))
+                #iterator_t::flatten(#into_iterator_t::into_iter([#(if self.data & #numbers != 0 { #option::Some(#ident::#variants) } else { #option::None }),*]))
             }
         }
 
@@ -596,7 +596,7 @@ fn impl_set(
         #[automatically_derived]
         impl #partial_ord_t for #set_storage {
             #[inline]
-            fn partial_cmp(&self, other: &Self) -> Option<#ordering> {
+            fn partial_cmp(&self, other: &Self) -> #option<#ordering> {
                 #iterator_partial_cmp_bool(&self.data, &other.data)
             }
         }
@@ -680,13 +680,13 @@ fn impl_set(
             #[inline]
             fn iter(&self) -> Self::Iter<'_> {
                 let [#(#names),*] = &self.data;
-                #iterator_t::flatten(#into_iterator_t::into_iter([#(if *#names { Some(#ident::#variants) } else { None }),*]))
+                #iterator_t::flatten(#into_iterator_t::into_iter([#(if *#names { #option::Some(#ident::#variants) } else { #option::None }),*]))
             }
 
             #[inline]
             fn into_iter(self) -> Self::IntoIter {
                 let [#(#names),*] = &self.data;
-                #iterator_t::flatten(#into_iterator_t::into_iter([#(if *#names { Some(#ident::#variants) } else { None }),*]))
+                #iterator_t::flatten(#into_iterator_t::into_iter([#(if *#names { #option::Some(#ident::#variants) } else { #option::None }),*]))
             }
         }
     })
-- 
2.43.0

