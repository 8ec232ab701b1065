From 679d82f98317ca908251609641331ea1d34c6737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:43 +0000
Subject: [PATCH 01/27] fix: emit floating-point constants as valid C++
 literals

An integral f32 constant became `1f` (the header did not compile), a non-finite
one `NaNf`, and an f64 `-0.0` became the integer `-0L`, losing its sign.
---
 .../generate_bindings/generate_struct_and_union.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 772368b..325ea52 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -108,6 +108,16 @@ pub(crate) fn cpp_enum_cpp_underlying_type<'tcx>(
     db.format_ty_for_cc(field_type, TypeLocation::Field)
 }
 
+/// Adds the fractional part that makes `digits` a C++ floating-point literal: without it, `1f` does
+/// not parse and `-0L` is an integer that loses the sign.
+fn float_digits(digits: String) -> Result<String> {
+    if digits.contains(|c: char| !matches!(c, '0'..='9' | '.' | 'E' | '+' | '-')) {
+        bail!("Non-finite floating point values cannot be used as scalar constants.");
+    }
+    let has_fraction = digits.contains(['.', 'E']);
+    Ok(if has_fraction { digits } else { digits + ".0" })
+}
+
 /// Returns a string representation of the value of a given numeric Scalar having a given TyKind.
 pub fn scalar_value_to_string(tcx: TyCtxt, scalar: Scalar, kind: TyKind) -> Result<String> {
     let scalar = match scalar {
@@ -138,8 +148,8 @@ pub fn scalar_value_to_string(tcx: TyCtxt, scalar: Scalar, kind: TyKind) -> Resu
         TyKind::Uint(U16) => format!("UINT16_C({})", scalar.to_u16()),
         TyKind::Uint(U32) => format!("UINT32_C({})", scalar.to_u32()),
         TyKind::Uint(U64) => format!("UINT64_C({})", scalar.to_u64()),
-        TyKind::Float(F32) => format!("{}f", scalar.to_f32()),
-        TyKind::Float(F64) => format!("{}L", scalar.to_f64()),
+        TyKind::Float(F32) => format!("{}f", float_digits(scalar.to_f32().to_string())?),
+        TyKind::Float(F64) => format!("{}L", float_digits(scalar.to_f64().to_string())?),
         TyKind::Uint(Usize) => format!("UINT64_C({})", scalar.to_target_usize(tcx)),
 
         // Signed integer minimums cannot be expressed with literals, as `-<int>` parses as a unary
-- 
2.43.0


From b2a755538ca0860e4ae3ccb9c2a852f503e2a677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 02/27] fix: move by-value `#[repr(transparent)]` arguments
 that are not `Copy`

---
 cc_bindings_from_rs/generate_bindings/generate_function.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_function.rs b/cc_bindings_from_rs/generate_bindings/generate_function.rs
index e871b11..2f510a4 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function.rs
@@ -211,6 +211,13 @@ pub(crate) fn cc_param_to_c_abi<'tcx>(
     {
         includes.insert(code_gen_utils::CcInclude::utility());
         quote! { ::std::move(#cc_ident) }
+    } else if let ty::TyKind::Adt(adt, _) = ty.kind()
+        && is_c_abi_compatible_by_value(db, ty)
+        && !is_copy(db.tcx(), adt.did(), ty)
+    {
+        // `#[repr(transparent)]` types may be move-only.
+        includes.insert(code_gen_utils::CcInclude::utility());
+        quote! { ::std::move(#cc_ident) }
     } else if is_c_abi_compatible_by_value(db, ty) {
         quote! { #cc_ident }
     } else if let ty::TyKind::Tuple(tuple_tys) = ty.kind()
-- 
2.43.0


From 99cce5704a40cb8d4b42cb64586c548d57fada9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 03/27] fix: spell out the padding of `#[repr(C, packed(N))]`
 structs

---
 .../generate_bindings/generate_struct_and_union.rs           | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 325ea52..0429bf5 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2291,7 +2291,12 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
 
         match self.adt_def.adt_kind() {
             ty::AdtKind::Struct => {
+                // `__attribute__((packed))` leaves no gaps, so the ones of `packed(2)` and up have
+                // to be spelled out.
+                let is_packed = (self.repr_attrs.iter())
+                    .any(|repr| matches!(repr, rustc_hir::attrs::ReprPacked { .. }));
                 let always_omit_padding = self.repr_attrs.contains(&rustc_hir::attrs::ReprC)
+                    && !is_packed
                     && variants_fields.iter().flatten().all(|field| field.type_info.is_ok());
                 let fields = variants_fields.into_iter().next().unwrap_or_default();
                 Ok(AdtLayout::Struct { fields, always_omit_padding })
-- 
2.43.0


From 76d0fe7e84f9a2e0e9030fcb86ef40b9404f871a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 04/27] fix: drop the `r#` of raw-identifier fields in
 generated C++

---
 .../generate_bindings/generate_struct_and_union.rs             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 0429bf5..18c0f4e 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2358,7 +2358,8 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
     fn analyze_field(&self, index: usize, field_def: &ty::FieldDef, offset: u64) -> Field<'tcx> {
         let tcx = self.db.tcx();
         let type_info = self.prepare_field_type(field_def);
-        let name = field_def.ident(tcx).to_string();
+        // Not `field_def.ident`, which is displayed with the `r#` of a raw identifier.
+        let name = field_def.name.to_string();
         let features = self.db.crate_features(self.db.source_crate_num());
         let cc_name = code_gen_utils::unkeyword_cpp_ident(&name, features).to_string();
         let cc_name = if self.member_function_names.contains(&cc_name) {
-- 
2.43.0


From 098d819a5c8af0999aa3745a155a6d0888b2cecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 05/27] fix: do not relocate out of by-value array parameters,
 which are destroyed afterwards

---
 support/internal/slot.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/support/internal/slot.h b/support/internal/slot.h
index 0d219d8..925eb6d 100644
--- a/support/internal/slot.h
+++ b/support/internal/slot.h
@@ -146,10 +146,11 @@ class Slot<std::array<UT, S>> {
   using T = std::array<UT, S>;
   Slot() {}
   explicit constexpr Slot(T&& x) {
-    if constexpr (requires(UT t) { UT(UnsafeRelocateTag{}, std::move(t)); }) {
-      memcpy(value_.data(), x.data(), sizeof(UT) * S);
+    // The caller destroys `x`, so prefer moving over relocating out of it.
+    if constexpr (std::is_move_constructible_v<UT>) {
+      std::construct_at(&value_, std::move(x));
     } else {
-      value_ = std::move(x);
+      memcpy(value_.data(), x.data(), sizeof(UT) * S);
     }
   }
   T* Get() { return &value_; }
-- 
2.43.0


From 8b235edd38ce4bc653b37dbed1de34f5d20c5bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:57 +0000
Subject: [PATCH 06/27] fix: drop the `r#` of raw-identifier enum variants in
 generated C++

---
 .../generate_bindings/generate_struct_and_union.rs              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 18c0f4e..501e4c7 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2697,7 +2697,7 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
                         .enumerate()
                         .flat_map(|(variant_index, variant_layout)| {
                             let variant_def = self.adt_def.variant(VariantIdx::from_usize(variant_index));
-                            let cc_variant = variant_def.ident(tcx);
+                            let cc_variant = variant_def.name;
                             let qualified_struct_name =
                                 format_nonportable_cc_type_name(&format!("{}::__crubit_{}_struct", adt_cc_name, cc_variant)).expect("generated invalid C++ identifier");
                             if variant_def.fields.is_empty() {
-- 
2.43.0


From a29a4d59b8974f72cf3fd1acfd9bbe9f8f59bd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:23 +0000
Subject: [PATCH 07/27] fix: construct Option values in place in constructor
 thunks

The C++ declaration of a Clone/Default thunk for Option takes a pointer to
the layout-compatible C++ object, but the Rust side encoded the value into it
with the bridging ABI, corrupting memory.
---
 .../generate_bindings/generate_function_thunk.rs            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
index a8d14b3..ffa5cc7 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
@@ -446,7 +446,11 @@ fn write_rs_value_to_c_abi_ptr<'tcx>(
     let write_directly = || -> Result<TokenStream> {
         Ok(quote! { ::core::ptr::write(#c_ptr as *mut _, #rs_value); })
     };
-    Ok(if let Some(bridged_type) = is_bridged_type(db, rs_type)? {
+    Ok(if is_constructor && is_bridged_layout_compat_type(db, rs_type) {
+        // The thunk initializes the C++ object itself (see `generate_thunk_decl`), which is
+        // layout-compatible with the Rust value.
+        write_directly()?
+    } else if let Some(bridged_type) = is_bridged_type(db, rs_type)? {
         match bridged_type {
             BridgedType::Legacy { conversion_info, .. } => match conversion_info {
                 BridgedTypeConversionInfo::PointerLikeTransmute { .. } => write_directly()?,
-- 
2.43.0


From 6f66b5bbed1b331324aa8f014afef74953de76c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 08/27] fix: destroy the moved-from value in
 TransmuteAbi::Decode

A moved-from Rust value still owns resources (the Default value it was
replaced with, or the original of a cloned value), which leaked.
---
 support/bridge.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/support/bridge.h b/support/bridge.h
index 1dd49a3..7ebbdfa 100644
--- a/support/bridge.h
+++ b/support/bridge.h
@@ -12,6 +12,7 @@
 #include <concepts>
 #include <cstddef>
 #include <cstring>
+#include <memory>
 #include <optional>
 #include <tuple>
 #include <utility>
@@ -252,8 +253,12 @@ struct TransmuteAbi {
     alignas(Value) char buf[kSize];
     // Copy the value from the decoder buffer into the intermediate buffer.
     std::memcpy(buf, decoder.Next(kSize), kSize);
-    // Move-construct the value from the buffer.
-    return std::move(*reinterpret_cast<Value*>(buf));
+    // Move-construct the value from the buffer, and destroy the moved-from value,
+    // which may still own resources.
+    Value* moved_from = reinterpret_cast<Value*>(buf);
+    Value value(std::move(*moved_from));
+    std::destroy_at(moved_from);
+    return value;
   }
 };
 
-- 
2.43.0


From 53b0f5f8d00037bcf718a9233cc3f929657979cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 09/27] fix: make SliceRef comparisons of mutable and converted
 operands compile

---
 support/rs_std/slice_ref.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/support/rs_std/slice_ref.h b/support/rs_std/slice_ref.h
index 7e2b5b7..dd9d2e3 100644
--- a/support/rs_std/slice_ref.h
+++ b/support/rs_std/slice_ref.h
@@ -180,25 +180,25 @@ constexpr bool EqualImpl(SliceRef<const T> a, SliceRef<const T> b) {
 
 template <typename T>
 constexpr bool operator==(SliceRef<T> a, SliceRef<T> b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 template <typename T>
 constexpr bool operator==(SliceRef<const T> a, SliceRef<T> b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 template <typename T>
 constexpr bool operator==(SliceRef<T> a, SliceRef<const T> b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 template <typename T, typename U>
   requires(std::convertible_to<U, SliceRef<const T>>)
 constexpr bool operator==(const U& a, SliceRef<T> b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 template <typename T, typename U>
   requires(std::convertible_to<U, SliceRef<const T>>)
 constexpr bool operator==(SliceRef<T> a, const U& b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 
 template <typename T>
-- 
2.43.0


From 8dbc7a32acb0c27dbaa38433e10e6c3af574c424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:49 +0000
Subject: [PATCH 10/27] fix: TupleAbi::Encode forwards its elements, so tuples
 of move-only values can be encoded

---
 support/bridge.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/support/bridge.h b/support/bridge.h
index 7ebbdfa..12a6d72 100644
--- a/support/bridge.h
+++ b/support/bridge.h
@@ -272,7 +272,8 @@ struct TupleAbi {
         [&](auto&&... args) {
           return std::apply(
               [&](auto&&... abis) {
-                (std::move(abis).Encode(args, encoder), ...);
+                (std::move(abis).Encode(std::forward<decltype(args)>(args), encoder),
+                 ...);
               },
               std::move(abis));
         },
-- 
2.43.0


From d6f0f10c356fdadd6b7341119f0059170a67606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:49 +0000
Subject: [PATCH 11/27] fix: PairAbi::Decode builds its std::pair without
 designated initializers, which std::pair does not allow

---
 support/bridge.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/support/bridge.h b/support/bridge.h
index 12a6d72..0511d7e 100644
--- a/support/bridge.h
+++ b/support/bridge.h
@@ -302,9 +302,9 @@ struct PairAbi {
     std::move(abis.second).Encode(std::move(value.second), encoder);
   }
   Value Decode(Decoder& decoder) && {
-    return {
-        .first = std::move(abis.first).Decode(decoder),
-        .second = std::move(abis.second).Decode(decoder),
+    return Value{
+        std::move(abis.first).Decode(decoder),
+        std::move(abis.second).Decode(decoder),
     };
   }
 
-- 
2.43.0


From df6779d3eb9dfeff14305172fa714accbf33cf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:49 +0000
Subject: [PATCH 12/27] fix: shared_ptr::from_ptr_and_deleter accepts a null
 pointer, as documented

---
 support/cc_std_impl/shared_ptr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/support/cc_std_impl/shared_ptr.rs b/support/cc_std_impl/shared_ptr.rs
index 27b726a..e25bc8c 100644
--- a/support/cc_std_impl/shared_ptr.rs
+++ b/support/cc_std_impl/shared_ptr.rs
@@ -221,8 +221,10 @@ impl<T: Sized> shared_ptr<T> {
         let delete_on_drop =
             shared_ptr::new(DeleteOnDrop { ptr, deleter: MaybeUninit::new(deleter) });
 
-        // SAFETY: We only project away the deleter FnOnce object, which we guaranteed was 'static.
-        unsafe { shared_ptr::project_unchecked(delete_on_drop, |d| &*d.ptr) }
+        // Keep the strong reference of `delete_on_drop`, but point at `ptr` instead. `ptr` may be null,
+        // so it must not be turned into a reference.
+        let (_, cntrl) = shared_ptr::into_raw_parts(delete_on_drop);
+        shared_ptr { ptr, cntrl }
     }
 
     /// Creates a `shared_ptr` from a raw pointer and a control block pointer.
-- 
2.43.0


From 832502779f187fbf785d38313f1b502537b20f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 13/27] fix: new_string runs its pinned destructor when
 dropped, instead of leaking the string

---
 support/cc_std_impl/string.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/support/cc_std_impl/string.rs b/support/cc_std_impl/string.rs
index 9939040..cb6a16b 100644
--- a/support/cc_std_impl/string.rs
+++ b/support/cc_std_impl/string.rs
@@ -371,6 +371,7 @@ pub unsafe extern "C" fn cpp_string_to_rust_string(input: *mut c_void, output: *
 #[crubit_annotate::cpp_layout_equivalent(cpp_type = "::std::string", include_path = "<string>")]
 #[cfg_attr(target_pointer_width = "64", repr(C, align(8)))]
 #[cfg_attr(target_pointer_width = "32", repr(C, align(4)))]
+#[ctor::recursively_pinned(PinnedDrop, ?Unpin)]
 #[allow(non_camel_case_types)]
 pub struct new_string {
     _opaque: core::cfg_select! {
-- 
2.43.0


From bdf1b82f1e68bf6705822e42bf8507e683a44b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 14/27] fix: methods inherited from an Unpin base take Pin<&mut
 Self> in a derived class which is not Unpin

---
 .../generate_bindings/generate_function.rs    | 33 +++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/rs_bindings_from_cc/generate_bindings/generate_function.rs b/rs_bindings_from_cc/generate_bindings/generate_function.rs
index b6676a6..54616b3 100644
--- a/rs_bindings_from_cc/generate_bindings/generate_function.rs
+++ b/rs_bindings_from_cc/generate_bindings/generate_function.rs
@@ -2342,7 +2342,9 @@ pub fn generate_function<'a>(
             // When translating args, `__this` acts as the first arg.
             let mut method_delegation_args = param_idents.iter().enumerate().map(|(i, ident)| {
                 if i == 0 && impl_kind.format_first_param_as_self() {
-                    if derived_record.is_some() {
+                    if pinned_self_lifetime(&param_types[0], derived_record.as_deref()).is_some() {
+                        quote! { ::core::pin::Pin::into_inner(oops::Upcast::<_>::upcast(self)) }
+                    } else if derived_record.is_some() {
                         quote! { oops::Upcast::<_>::upcast(self) }
                     } else {
                         quote! { self }
@@ -2812,6 +2814,25 @@ fn collect_parent_lifetime_bindings(
     }
 }
 
+/// Returns the lifetime of `self` if an inherited method which takes `&mut Base` must take
+/// `Pin<&mut Derived>`.
+///
+/// This is the case if only the base class is `Unpin`: a `&mut` reference to a derived class which
+/// is not `Unpin` can neither be safely obtained, nor upcasted.
+fn pinned_self_lifetime(
+    first_param_type: &RsTypeKind,
+    derived_record: Option<&Record>,
+) -> Option<Lifetime> {
+    match first_param_type {
+        RsTypeKind::Reference { referent, mutability: Mutability::Mut, lifetime, .. }
+            if referent.is_unpin() && derived_record.is_some_and(|derived| !derived.is_unpin()) =>
+        {
+            Some(lifetime.clone())
+        }
+        _ => None,
+    }
+}
+
 /// Reformats API parameters and return values to match Rust conventions and the
 /// trait requirements.
 ///
@@ -3155,7 +3176,15 @@ fn function_signature<'a>(
                     // impl block is for `T`. The `self` parameter has a type determined by the
                     // first parameter (typically a reference of some kind) and can be passed to a
                     // thunk via the expression `self`.
-                    if first_api_param.is_c_abi_compatible_by_value() {
+                    if let Some(lifetime) =
+                        pinned_self_lifetime(first_api_param, derived_record.as_deref())
+                    {
+                        let lifetime = lifetime.format_for_reference();
+                        api_params[0] = quote! { self: ::core::pin::Pin< & #lifetime mut Self > };
+                        thunk_args[0] = quote! {
+                            ::core::pin::Pin::into_inner(oops::Upcast::<_>::upcast(self))
+                        };
+                    } else if first_api_param.is_c_abi_compatible_by_value() {
                         let rs_snippet = first_api_param.format_as_self_param()?;
                         thunk_args[0] = if derived_record.is_some() {
                             quote! { oops::Upcast::<_>::upcast(self) }
-- 
2.43.0


From 91e9a44372a7ee4342a4f86d139f1841e9f7e86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:41 +0000
Subject: [PATCH 15/27] fix: drop the value when a ctor_then continuation fails

CtorThen::ctor returned the error of its continuation without destroying the value that the inner
constructor had already built in place: its destructor never ran, and ctor_or_else and friends built another
one on top of it.
---
 support/ctor.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/support/ctor.rs b/support/ctor.rs
index fac28d9..f627771 100644
--- a/support/ctor.rs
+++ b/support/ctor.rs
@@ -314,8 +314,18 @@ unsafe impl<C: Ctor, F: FnOnce(Pin<&mut C::Output>) -> Result<(), C::Error>> Cto
         unsafe {
             self.ctor.ctor(dest)?;
         }
-        let dest = unsafe { Pin::new_unchecked(&mut *dest) };
-        (self.f)(dest)
+        // If `f` fails or panics, nobody but us knows that `dest` is initialized.
+        struct DropOnFailure<T: ?Sized>(*mut T);
+        impl<T: ?Sized> Drop for DropOnFailure<T> {
+            fn drop(&mut self) {
+                // SAFETY: `dest` was initialized, and the caller won't use it after a failure.
+                unsafe { core::ptr::drop_in_place(self.0) }
+            }
+        }
+        let guard = DropOnFailure(dest);
+        (self.f)(unsafe { Pin::new_unchecked(&mut *dest) })?;
+        core::mem::forget(guard);
+        Ok(())
     }
 }
 
-- 
2.43.0


From 5dc22e9c4649fc2b08ecae2b7a4c152fa3a4185d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:41 +0000
Subject: [PATCH 16/27] fix: a used-up FnOnce DynCallable goes back to Rust as
 an empty one

Invoking a DynCallable<R(P...) &&> sets its manager to EmptyManager, so moving it afterwards leaves the
storage uninitialized, yet it still has an invoker. Encode took that for a present value and handed Rust a Box
made of garbage.
---
 support/rs_std/dyn_callable.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/support/rs_std/dyn_callable.h b/support/rs_std/dyn_callable.h
index 8ae7d89..a50dd1e 100644
--- a/support/rs_std/dyn_callable.h
+++ b/support/rs_std/dyn_callable.h
@@ -161,9 +161,11 @@ struct DynCallableAbi {
 
   void Encode(Value value, crubit::Encoder& encoder) && {
     // Encode whether true if the value is present, false if it's in the
-    // moved-from state.
-    crubit::TransmuteAbi<bool>().Encode(static_cast<bool>(value), encoder);
-    if (value) {
+    // moved-from state. An `FnOnce` that has been invoked still has an invoker,
+    // but its state is gone, which `EmptyManager` tells.
+    const bool present = value && value.manager_ != EmptyManager;
+    crubit::TransmuteAbi<bool>().Encode(present, encoder);
+    if (present) {
       // If present, encode the state.
       crubit::TransmuteAbi<TypeErasedState>().Encode(value.storage_, encoder);
     }
-- 
2.43.0


From 3b9c1f00f505a118d9abaca5ff3ca55bb7793138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:47 +0000
Subject: [PATCH 17/27] fix: spell an enum with its C++ name in C++ thunks

---
 rs_bindings_from_cc/generate_bindings/cpp_type_name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs_bindings_from_cc/generate_bindings/cpp_type_name.rs b/rs_bindings_from_cc/generate_bindings/cpp_type_name.rs
index 8cc62ce..3b5dfdd 100644
--- a/rs_bindings_from_cc/generate_bindings/cpp_type_name.rs
+++ b/rs_bindings_from_cc/generate_bindings/cpp_type_name.rs
@@ -161,7 +161,7 @@ pub fn tagless_cpp_type_name_for_item(
         }
         Item::Record(record) => cpp_tagless_type_name_for_record(record, db),
         Item::Enum(enum_) => {
-            let ident = format_nonportable_cc_type_name(enum_.rs_name().as_str())?;
+            let ident = format_nonportable_cc_type_name(enum_.cc_name().as_str())?;
             let namespace_qualifier = db.namespace_qualifier(item).format_for_cc(features)?;
             Ok(quote! { #namespace_qualifier #ident })
         }
-- 
2.43.0


From 952ff9509c0bb379429bd89b0bbdd4330fa4cf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:47 +0000
Subject: [PATCH 18/27] fix: do not panic on a comparison operator that takes a
 non-cloneable record by value

---
 rs_bindings_from_cc/generate_bindings/generate_function.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rs_bindings_from_cc/generate_bindings/generate_function.rs b/rs_bindings_from_cc/generate_bindings/generate_function.rs
index 54616b3..388cd75 100644
--- a/rs_bindings_from_cc/generate_bindings/generate_function.rs
+++ b/rs_bindings_from_cc/generate_bindings/generate_function.rs
@@ -1464,12 +1464,12 @@ fn adjust_param_types_for_trait_impl<'a>(
             let RsTypeKind::Record { record: param_record, .. } = param_type.unalias() else {
                 return Default::default();
             };
-            if !is_record_clonable(db, param_record.clone()) {
+            let is_clonable = is_record_clonable(db, param_record.clone());
+            if !is_clonable {
                 errors.add(anyhow!(
                     "Argument {i} of Rust trait `{trait_name:?}` requires a const reference, but the C++ implementation takes non-cloneable record `{}` by value",
                     param_type.display(db),
                 ));
-                return Default::default();
             }
             *param_type = RsTypeKind::Reference {
                 referent: Rc::new(param_type.clone()),
-- 
2.43.0


From db03ada3ebdc8a2ffb04cf3b03cd93d5fed86552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:47 +0000
Subject: [PATCH 19/27] fix: link a renamed extern "C" variable to its C++
 symbol

---
 rs_bindings_from_cc/generate_bindings/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rs_bindings_from_cc/generate_bindings/lib.rs b/rs_bindings_from_cc/generate_bindings/lib.rs
index b96a675..34fa685 100644
--- a/rs_bindings_from_cc/generate_bindings/lib.rs
+++ b/rs_bindings_from_cc/generate_bindings/lib.rs
@@ -246,7 +246,13 @@ fn generate_global_var(db: &BindingsGenerator, var: &GlobalVar) -> Result<ApiSni
         generated_items: HashMap::from([(
             var.id(),
             GeneratedItem::GlobalVar {
-                link_name: var.mangled_name().map(Rc::from),
+                // A renamed variable still links to its C++ symbol.
+                link_name: var
+                    .mangled_name()
+                    .or_else(|| {
+                        (var.rs_name() != var.cc_name()).then(|| var.cc_name().as_str())
+                    })
+                    .map(Rc::from),
                 is_mut: !var.type_().is_const(),
                 ident: make_rs_ident(var.rs_name().as_str()),
                 type_tokens: type_.to_token_stream(db),
-- 
2.43.0


From 0f0bc405914c19bc8fb98b784449007be1769a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:18 +0000
Subject: [PATCH 20/27] fix: give the Display thunks of same-named enums of
 different scopes distinct names

---
 rs_bindings_from_cc/generate_bindings/generate_enum.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rs_bindings_from_cc/generate_bindings/generate_enum.rs b/rs_bindings_from_cc/generate_bindings/generate_enum.rs
index 2f8fcbe..c1a9fc5 100644
--- a/rs_bindings_from_cc/generate_bindings/generate_enum.rs
+++ b/rs_bindings_from_cc/generate_bindings/generate_enum.rs
@@ -61,13 +61,19 @@ pub fn generate_enum(db: &BindingsGenerator, enum_: Rc<Enum>) -> Result<ApiSnipp
     let mut thunks: Vec<Thunk> = vec![];
     let mut cc_details: Vec<ThunkImpl> = vec![];
     let display_impl: TokenStream = if enum_.detected_formatter() {
+        let namespace_qualifier = db.namespace_qualifier(enum_.as_ref());
+        // The name alone is not unique: other scopes may have an enum of the same name.
+        let type_name = if namespace_qualifier.is_empty() {
+            enum_.cc_name().as_str()
+        } else {
+            enum_.mangled_cc_name()
+        };
         let fmt_fn_name = make_rs_ident(&format!(
             "__crubit_fmt__{type_name}_{odr_suffix}",
-            type_name = enum_.cc_name(),
             odr_suffix = enum_.owning_target().convert_to_cc_identifier(),
         ));
         let crate_root_path = db.ir().crate_root_path_tokens();
-        let namespace_qualifier = db.namespace_qualifier(enum_.as_ref()).format_for_rs();
+        let namespace_qualifier = namespace_qualifier.format_for_rs();
         let qualified_name = {
             quote! { #crate_root_path:: #namespace_qualifier #name }
         };
-- 
2.43.0


From 2fbf8bd6a37b48028ed08dd8b09e8a0fce60d7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:02 +0000
Subject: [PATCH 21/27] fix: upcast the rvalue self of inherited && methods

---
 .../generate_bindings/generate_function.rs      | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/rs_bindings_from_cc/generate_bindings/generate_function.rs b/rs_bindings_from_cc/generate_bindings/generate_function.rs
index 388cd75..7c4b931 100644
--- a/rs_bindings_from_cc/generate_bindings/generate_function.rs
+++ b/rs_bindings_from_cc/generate_bindings/generate_function.rs
@@ -2345,7 +2345,7 @@ pub fn generate_function<'a>(
                     if pinned_self_lifetime(&param_types[0], derived_record.as_deref()).is_some() {
                         quote! { ::core::pin::Pin::into_inner(oops::Upcast::<_>::upcast(self)) }
                     } else if derived_record.is_some() {
-                        quote! { oops::Upcast::<_>::upcast(self) }
+                        upcast_self(&param_types[0])
                     } else {
                         quote! { self }
                     }
@@ -2833,6 +2833,19 @@ fn pinned_self_lifetime(
     }
 }
 
+/// Returns `self` upcasted from the derived class to the base class which an inherited method takes.
+fn upcast_self(first_param_type: &RsTypeKind) -> TokenStream {
+    match first_param_type {
+        RsTypeKind::RvalueReference { mutability: Mutability::Mut, .. } => {
+            quote! { ::ctor::RvalueReference(oops::Upcast::<_>::upcast(self.0)) }
+        }
+        RsTypeKind::RvalueReference { mutability: Mutability::Const, .. } => {
+            quote! { ::ctor::ConstRvalueReference(oops::Upcast::<_>::upcast(self.0)) }
+        }
+        _ => quote! { oops::Upcast::<_>::upcast(self) },
+    }
+}
+
 /// Reformats API parameters and return values to match Rust conventions and the
 /// trait requirements.
 ///
@@ -3187,7 +3200,7 @@ fn function_signature<'a>(
                     } else if first_api_param.is_c_abi_compatible_by_value() {
                         let rs_snippet = first_api_param.format_as_self_param()?;
                         thunk_args[0] = if derived_record.is_some() {
-                            quote! { oops::Upcast::<_>::upcast(self) }
+                            upcast_self(first_api_param)
                         } else {
                             quote! { self }
                         };
-- 
2.43.0


From 6c7bed7b853bcfe010503f3a48e776bc7050a393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:02 +0000
Subject: [PATCH 22/27] fix: lay out records whose virtual bases follow their
 fields

---
 .../generate_bindings/database/code_snippet.rs    | 15 +++++++++++----
 .../generate_struct_and_union.rs                  | 12 ++++++++++++
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/rs_bindings_from_cc/generate_bindings/database/code_snippet.rs b/rs_bindings_from_cc/generate_bindings/database/code_snippet.rs
index 3171345..de44194 100644
--- a/rs_bindings_from_cc/generate_bindings/database/code_snippet.rs
+++ b/rs_bindings_from_cc/generate_bindings/database/code_snippet.rs
@@ -535,6 +535,7 @@ pub fn generated_items_to_tokens<'db>(
                     ident,
                     id,
                     head_padding,
+                    tail_padding,
                     field_definitions,
                     implements_send,
                     implements_sync,
@@ -576,15 +577,19 @@ pub fn generated_items_to_tokens<'db>(
                         __opaque: ::core::cell::UnsafeCell<[::core::mem::MaybeUninit<u8>; #size_literal]>,
                     }
                 } else {
-                    let head_padding = head_padding.map(|n| {
+                    let non_field_data = |name: &str, n: usize| {
+                        let name = format_ident!("{name}");
                         let n = Literal::usize_unsuffixed(n);
                         // TODO(b/481405536): Do this unconditionally.
                         if *internally_mutable_unknown_fields {
-                            quote! { __non_field_data: [::core::cell::Cell<::core::mem::MaybeUninit<u8>>; #n], }
+                            quote! { #name: [::core::cell::Cell<::core::mem::MaybeUninit<u8>>; #n], }
                         } else {
-                            quote! { __non_field_data: [::core::mem::MaybeUninit<u8>; #n], }
+                            quote! { #name: [::core::mem::MaybeUninit<u8>; #n], }
                         }
-                    });
+                    };
+                    let head_padding = head_padding.map(|n| non_field_data("__non_field_data", n));
+                    let tail_padding =
+                        tail_padding.map(|n| non_field_data("__non_field_tail_data", n));
                     let lifetime_markers: Vec<TokenStream> = lifetime_params
                         .iter()
                         .map(|lt| {
@@ -595,6 +600,7 @@ pub fn generated_items_to_tokens<'db>(
                     quote! {
                         #head_padding
                         #( #field_definitions )*
+                        #tail_padding
                         #( #lifetime_markers )*
                     }
                 };
@@ -1034,6 +1040,7 @@ pub struct Record {
     pub ident: Ident,
     pub id: ItemId,
     pub head_padding: Option<usize>,
+    pub tail_padding: Option<usize>,
     pub field_definitions: Vec<FieldDefinition>,
     pub implements_send: bool,
     pub implements_sync: bool,
diff --git a/rs_bindings_from_cc/generate_bindings/generate_struct_and_union.rs b/rs_bindings_from_cc/generate_bindings/generate_struct_and_union.rs
index cf5eaa1..af77ff1 100644
--- a/rs_bindings_from_cc/generate_bindings/generate_struct_and_union.rs
+++ b/rs_bindings_from_cc/generate_bindings/generate_struct_and_union.rs
@@ -593,6 +593,17 @@ pub fn generate_record<'a>(
     let head_padding =
         if head_padding > 0 || !allow_direct_init { Some(head_padding) } else { None };
 
+    // Virtual bases are laid out after the fields.
+    let tail_padding = match fields_with_bounds.last().and_then(|last| last.end) {
+        Some(last_end) if !record.is_union() => {
+            let size = record.size_align().size();
+            let last_end = last_end.div_ceil(8);
+            let size_without_tail = last_end.next_multiple_of(record.size_align().alignment());
+            (size_without_tail < size).then(|| size - last_end)
+        }
+        _ => None,
+    };
+
     api_snippets.cc_details.push(cc_struct_layout_assertion(db, &record)?);
 
     let fully_qualified_cc_name = cpp_tagless_type_name_for_record(&record, db)?.to_string();
@@ -846,6 +857,7 @@ pub fn generate_record<'a>(
         ident,
         id: record.id(),
         head_padding,
+        tail_padding,
         field_definitions,
         implements_send: record.trait_derives().send,
         implements_sync: record.trait_derives().sync,
-- 
2.43.0


From 945ac6738e3a226194909e7a2296b30e8f48dc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:15 +0000
Subject: [PATCH 23/27] fix: give the outputs of async functions the layout
 that Rust writes

An async function that returns a tuple was declared as DynErasedFuture<std::tuple<..>>,
but Poll writes a Rust tuple, whose layout differs. One that returns a reference was
declared as DynErasedFuture<T&>, which does not compile. Format the output type as a
template argument: rs_std::Tuple<..> and a pointer.
---
 .../generate_bindings/generate_function.rs    | 28 +++++++++++++------
 .../generate_function_thunk.rs                | 14 ++++------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_function.rs b/cc_bindings_from_rs/generate_bindings/generate_function.rs
index 2f510a4..9b08b41 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function.rs
@@ -716,9 +716,8 @@ pub(crate) fn generate_thunk_call<'tcx>(
     };
 
     let return_body = if is_async {
-        let CcSnippet { tokens: cc_ret_ty, prereqs: ret_prereqs } =
-            db.format_ty_for_cc(rs_return_type, TypeLocation::FnReturn { is_constructor: false })?;
-        prereqs += ret_prereqs;
+        let cc_ret_ty =
+            format_async_output_ty_for_cc(db, rs_return_type)?.into_tokens(&mut prereqs);
         let local_name = expect_format_cc_ident("__return_value_ret_val_holder");
         prereqs.includes.insert(CcInclude::utility()); // for `std::move`
         prereqs.includes.insert(db.support_header("internal/slot.h"));
@@ -945,11 +944,8 @@ pub fn generate_function<'tcx>(
 
     let mut main_api_prereqs = CcPrerequisites::default();
     let main_api_ret_type = if is_async {
-        let CcSnippet { tokens: cc_ret_ty, prereqs: ret_prereqs } = db.format_ty_for_cc(
-            actual_rs_return_type,
-            TypeLocation::FnReturn { is_constructor: false },
-        )?;
-        main_api_prereqs += ret_prereqs;
+        let cc_ret_ty = format_async_output_ty_for_cc(db, actual_rs_return_type)?
+            .into_tokens(&mut main_api_prereqs);
         main_api_prereqs.includes.insert(db.support_header("rs_std/dyn_erased_future.h"));
         quote! { ::crubit::DynErasedFuture<#cc_ret_ty> }
     } else {
@@ -1253,6 +1249,22 @@ pub fn check_fn_sig(sig: &ty::FnSig) -> Result<()> {
     Ok(())
 }
 
+/// Formats `T` in the `crubit::DynErasedFuture<T>` returned by an async function.
+///
+/// Rust writes the output of the future directly into the `T*` passed to `DynErasedFuture::Poll`,
+/// so `T` needs to have the layout of `output_ty` and can't be a C++ reference.
+pub fn format_async_output_ty_for_cc<'tcx>(
+    db: &BindingsGenerator<'tcx>,
+    output_ty: Ty<'tcx>,
+) -> Result<CcSnippet<'tcx>> {
+    let location = if output_ty.is_unit() || output_ty.is_never() {
+        TypeLocation::FnReturn { is_constructor: false }
+    } else {
+        TypeLocation::TemplateArg
+    };
+    db.format_ty_for_cc(output_ty, location)
+}
+
 /// If `rs_return_type` represents an async future desugared type, extracts and returns its `Output` type.
 pub fn get_async_future_output_ty<'tcx>(
     tcx: TyCtxt<'tcx>,
diff --git a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
index ffa5cc7..da51409 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
@@ -2,7 +2,9 @@
 // Exceptions. See /LICENSE for license information.
 // SPDX-License-Identifier: Apache-2.0 WITH LLVM-exception
 
-use crate::generate_function::{fn_arg_idents, get_async_future_output_ty};
+use crate::generate_function::{
+    fn_arg_idents, format_async_output_ty_for_cc, get_async_future_output_ty,
+};
 use crate::{
     does_type_implement_trait, format_cc_ident, format_param_types_for_cc_thunk, is_bridged_type,
     is_c_abi_compatible_by_value, liberate_and_deanonymize_late_bound_regions, BridgedBuiltin,
@@ -120,9 +122,8 @@ pub fn generate_thunk_decl<'tcx>(
         sig_mid.output()
     };
     let main_api_ret_type = if is_async {
-        let CcSnippet { tokens: cc_ret_ty, prereqs: ret_prereqs } =
-            db.format_ty_for_cc(actual_output_ty, TypeLocation::FnReturn { is_constructor })?;
-        prereqs += ret_prereqs;
+        let cc_ret_ty =
+            format_async_output_ty_for_cc(db, actual_output_ty)?.into_tokens(&mut prereqs);
         prereqs.includes.insert(db.support_header("rs_std/dyn_erased_future.h"));
         quote! { ::crubit::DynErasedFuture<#cc_ret_ty> }
     } else {
@@ -187,10 +188,7 @@ pub fn generate_thunk_decl<'tcx>(
     // We should centralize this logic so that the order exists in a singular location used by both
     // places.
     let thunk_ret_type = if is_async {
-        let cc_ret_ty = db
-            .format_ty_for_cc(actual_output_ty, TypeLocation::FnReturn { is_constructor })?
-            .tokens;
-        thunk_params.push(quote! { ::crubit::DynErasedFuture<#cc_ret_ty>* __ret_ptr });
+        thunk_params.push(quote! { #main_api_ret_type* __ret_ptr });
         quote! { void }
     } else if is_constructor && is_bridged_layout_compat_type(db, sig_mid.output()) {
         thunk_params.push(quote! { #main_api_ret_type* __ret_ptr });
-- 
2.43.0


From 4cae5b9f9bd535aaecf6cad540847390568955cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:50 +0000
Subject: [PATCH 24/27] fix: construct, rather than assign to, the value of a
 moved crubit::Slot

---
 support/internal/slot.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/internal/slot.h b/support/internal/slot.h
index 925eb6d..a700567 100644
--- a/support/internal/slot.h
+++ b/support/internal/slot.h
@@ -105,7 +105,7 @@ class Slot {
 
   // SAFETY REQUIREMENTS: The value contained in `other` must be initialized
   // (but may be moved-from).
-  Slot(Slot&& other) { value_ = std::move(other.value_); }
+  Slot(Slot&& other) : value_(std::move(other.value_)) {}
 
   // Does not destroy the contained value.
   //
@@ -164,7 +164,7 @@ class Slot<std::array<UT, S>> {
       return return_value;
     }
   }
-  Slot(Slot&& other) { value_ = std::move(other.value_); }
+  Slot(Slot&& other) : value_(std::move(other.value_)) {}
   ~Slot() {}
 
   Slot(const Slot&) = delete;
-- 
2.43.0


From cf963dbcac88182b941737aea5ab401aaa25487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:50 +0000
Subject: [PATCH 25/27] fix: name re-exported constants and type aliases as
 Rust does

---
 cc_bindings_from_rs/generate_bindings/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index 3a4fa85..4c906c3 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -1131,7 +1131,10 @@ fn generate_const<'tcx>(db: &BindingsGenerator<'tcx>, def_id: DefId) -> Result<A
     let cc_type_snippet = db.format_ty_for_cc(rust_type, TypeLocation::Const)?;
 
     let cc_type = cc_type_snippet.tokens;
-    let cc_name = format_cc_ident(db, tcx.item_name(def_id).as_str())?;
+    let unqualified_name = db
+        .symbol_unqualified_name(def_id)
+        .ok_or_else(|| anyhow!("Failed to get the name of {def_id:?}"))?;
+    let cc_name = format_cc_ident(db, unqualified_name.cpp_name.as_str())?;
 
     // Note that `&str` constants may appear as either `ConstValue::Slice` or
     // `ConstValue::Indirect`.
@@ -1923,7 +1926,7 @@ fn generate_item_impl<'tcx>(
     def_id: DefId,
 ) -> Result<Option<ApiSnippets<'tcx>>> {
     let tcx = db.tcx();
-    if db.symbol_canonical_name(def_id).is_none() {
+    let Some(canonical_name) = db.symbol_canonical_name(def_id) else {
         return Ok(None);
     };
     let item = match tcx.def_kind(def_id) {
@@ -1931,8 +1934,10 @@ fn generate_item_impl<'tcx>(
             db.adt_needs_bindings(def_id).map(|core| Some(generate_adt(db, core)))
         }
         DefKind::Fn => db.generate_function(def_id, None, StaticMethodMode::Infer).map(Some),
-        DefKind::TyAlias => generate_type_alias(db, def_id, tcx.item_name(def_id).as_str())
-            .map(|snippets| Some(snippets.into_main_api())),
+        DefKind::TyAlias => {
+            generate_type_alias(db, def_id, canonical_name.unqualified.cpp_name.as_str())
+                .map(|snippets| Some(snippets.into_main_api()))
+        }
         DefKind::Const { .. } => generate_const(db, def_id).map(Some),
         DefKind::Trait => generate_trait(db, def_id).map(Some),
         DefKind::Impl { .. } => Ok(None), // Handled by `generate_adt`
-- 
2.43.0


From f6f56de163127eccf4399e36a2b96b1f75f866f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:50 +0000
Subject: [PATCH 26/27] fix: keep the generic arguments of layout-equivalent
 types inside Option

---
 .../generate_bindings/format_type.rs          | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/format_type.rs b/cc_bindings_from_rs/generate_bindings/format_type.rs
index 8eca442..67ea9b4 100644
--- a/cc_bindings_from_rs/generate_bindings/format_type.rs
+++ b/cc_bindings_from_rs/generate_bindings/format_type.rs
@@ -1377,16 +1377,26 @@ pub fn crubit_abi_type_from_ty<'tcx>(
                         for path in &include_paths {
                             prereqs.includes.insert(CcInclude::from_path(path.as_str()));
                         }
-                        return Ok(CrubitAbiTypeWithCcPrereqs {
-                            crubit_abi_type: CrubitAbiType::Transmute {
+                        let crubit_abi_type = if substs.types().next().is_some() {
+                            // Both sides need the generic arguments.
+                            CrubitAbiType::Transmute {
+                                rust_type: db.format_ty_for_rs(
+                                    crate::generate_function_thunk::replace_all_regions_with_static(db.tcx(), ty),
+                                )?,
+                                cpp_type: db
+                                    .format_ty_for_cc(ty, TypeLocation::NestedBridgeable)?
+                                    .into_tokens(&mut prereqs),
+                            }
+                        } else {
+                            CrubitAbiType::Transmute {
                                 rust_type: {
                                     let parts = fully_qualified_name.rs_name_parts();
                                     quote! { #(::#parts)* }
                                 },
                                 cpp_type: cpp_type.as_str().parse().expect("Malformed cpp_type annotation"),
-                            },
-                            prereqs,
-                        });
+                            }
+                        };
+                        return Ok(CrubitAbiTypeWithCcPrereqs { crubit_abi_type, prereqs });
                     }
                     _ => bail!("Failed to construct the CrubitAbiType for {ty} because it has bridging attrs for a different kind of bridging: {bridging_attrs:?}"),
                 }
-- 
2.43.0


From d0ba194ab2bfdb76864d3ca83241a50634848e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:17 +0000
Subject: [PATCH 27/27] fix: token_stream_printer: unescape string literals
 exactly, and keep comments that end in a backslash from swallowing the next
 line

---
 common/token_stream_printer.rs | 54 ++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/common/token_stream_printer.rs b/common/token_stream_printer.rs
index 5b77ddd..8cab843 100644
--- a/common/token_stream_printer.rs
+++ b/common/token_stream_printer.rs
@@ -203,10 +203,33 @@ pub struct FormattedOffsetsWithProvenance {
 /// records.
 pub type FormattedProvenanceMap = HashMap<usize, FormattedOffsetsWithProvenance>;
 
-/// Unescapes a string literal token (for __CAPTURE_TAG__).
+/// Returns the value of a string literal token (for `__COMMENT__`, `__LITERALLY__` and
+/// `__CAPTURE_TAG__`).
 fn clean_literal(lit: proc_macro2::Literal) -> String {
-    // We'd like to use str_value, but that's only on procmacro2_semver_exempt.
-    lit.to_string().trim_matches('"').replace("\\\"", "\"")
+    // We'd like to use str_value, but that's only on procmacro2_semver_exempt. The Display impl
+    // prints the string literal as Rust syntax, so drop the quotes and undo the escapes.
+    let printed = lit.to_string();
+    let printed = printed.strip_prefix('"').unwrap_or(&printed);
+    let printed = printed.strip_suffix('"').unwrap_or(printed);
+    let mut value = String::with_capacity(printed.len());
+    let mut chars = printed.chars();
+    while let Some(c) = chars.next() {
+        if c != '\\' {
+            value.push(c);
+            continue;
+        }
+        match chars.next() {
+            Some('n') => value.push('\n'),
+            Some('t') => value.push('\t'),
+            Some(c @ ('"' | '\'' | '\\')) => value.push(c),
+            // Not expected in generated code: keep the escape as it was printed.
+            other => {
+                value.push('\\');
+                value.extend(other);
+            }
+        }
+    }
+    value
 }
 
 pub fn write_unformatted_tokens(
@@ -292,31 +315,18 @@ impl<'a, T: std::fmt::Write> TokenOutputState<'a, T> {
                 }
                 TokenTree::Ident(tt) if tt == "__COMMENT__" => {
                     if let Some(TokenTree::Literal(lit)) = it.next() {
-                        writeln!(
-                            self.result,
-                            "// {}",
-                            lit.to_string()
-                                .trim_matches('"')
-                                .replace("\\\"", "\"")
-                                .replace("\\n", "\n// ")
-                        )?;
+                        let comment = clean_literal(lit).replace('\n', "\n// ");
+                        // C++ would splice a line that ends in a backslash with the line after
+                        // the comment.
+                        let terminator = if comment.trim_end().ends_with('\\') { " //" } else { "" };
+                        writeln!(self.result, "// {comment}{terminator}")?;
                     } else {
                         bail!("__COMMENT__ must be followed by a literal")
                     }
                 }
                 TokenTree::Ident(tt) if tt == "__LITERALLY__" => {
                     if let Some(TokenTree::Literal(lit)) = it.next() {
-                        // TokenTree::Literal does not provide a structured way to
-                        // get the value out, so we have to use the Display impl to
-                        // print the string literal as Rust syntax and unescape it.
-                        writeln!(
-                            self.result,
-                            "{}",
-                            lit.to_string()
-                                .trim_matches('"')
-                                .replace("\\\"", "\"")
-                                .replace("\\\\", "\\")
-                        )?;
+                        writeln!(self.result, "{}", clean_literal(lit))?;
                     } else {
                         bail!("__LITERALLY__ must be followed by a literal")
                     }
-- 
2.43.0

