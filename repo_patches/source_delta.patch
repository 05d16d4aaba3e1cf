From 5bba480e966d3a2d864228bfeb57086bad200d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:47 +0000
Subject: [PATCH 01/32] fix: order rust::Str and rust::String by unsigned bytes
 in C++

Str::operator< and operator<= compared elements as plain char, which is
signed on most targets, so any non-ASCII string sorted below every ASCII
one: the opposite of the order of the same str values in Rust.
---
 src/cxx.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cxx.cc b/src/cxx.cc
index 45d9aac..2ef6b07 100644
--- a/src/cxx.cc
+++ b/src/cxx.cc
@@ -357,8 +357,9 @@ bool Str::operator==(const Str &rhs) const noexcept {
 bool Str::operator!=(const Str &rhs) const noexcept { return !(*this == rhs); }
 
 bool Str::operator<(const Str &rhs) const noexcept {
+  // Compare bytes as unsigned, like Rust does. Plain char may be signed.
   return std::lexicographical_compare(this->begin(), this->end(), rhs.begin(),
-                                      rhs.end());
+                                      rhs.end(), std::char_traits<char>::lt);
 }
 
 bool Str::operator<=(const Str &rhs) const noexcept {
@@ -374,7 +375,7 @@ bool Str::operator<=(const Str &rhs) const noexcept {
   } else if (riter == rend) {
     return false; // rhs is a prefix of *this
   } else {
-    return *liter <= *riter;
+    return !std::char_traits<char>::lt(*riter, *liter);
   }
 }
 
-- 
2.43.0


From 92cd244bb3b358b337f69c7880b6d1ab3acb0d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:23 +0000
Subject: [PATCH 02/32] fix: construct the element before growing rust::Vec in
 emplace_back

v.push_back(v[0]) and v.emplace_back(v.back()) read the argument after
reserve_total had already moved the elements to a new allocation, so a
vector at capacity read freed memory.
---
 include/cxx.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/cxx.h b/include/cxx.h
index 4e261a3..28d67b8 100644
--- a/include/cxx.h
+++ b/include/cxx.h
@@ -987,10 +987,18 @@ template <typename T>
 template <typename... Args>
 void Vec<T>::emplace_back(Args &&...args) {
   auto size = this->size();
-  this->reserve_total(size + 1);
-  ::new (reinterpret_cast<T *>(reinterpret_cast<char *>(this->data()) +
-                               size * size_of<T>()))
-      T(std::forward<Args>(args)...);
+  if (size == this->capacity()) {
+    // The arguments may refer to elements of this vector, which are relocated
+    // by growing it, so construct the new element first.
+    T value(std::forward<Args>(args)...);
+    this->reserve_total(size + 1);
+    ::new (reinterpret_cast<T *>(reinterpret_cast<char *>(this->data()) +
+                                 size * size_of<T>())) T(std::move(value));
+  } else {
+    ::new (reinterpret_cast<T *>(reinterpret_cast<char *>(this->data()) +
+                                 size * size_of<T>()))
+        T(std::forward<Args>(args)...);
+  }
   this->set_len(size + 1);
 }
 
-- 
2.43.0


From 9d953899dfdd4ada4c59fd98494294780bd21f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:34 +0000
Subject: [PATCH 03/32] fix: keep rust::Vec intact when copy assignment throws

operator=(const Vec &) dropped the destination before copying. If an
element's copy constructor threw, the destination was left referring to
the dropped allocation and its destructor freed the elements again.
---
 include/cxx.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cxx.h b/include/cxx.h
index 28d67b8..28920a7 100644
--- a/include/cxx.h
+++ b/include/cxx.h
@@ -898,8 +898,9 @@ Vec<T> &Vec<T>::operator=(Vec &&other) & noexcept {
 template <typename T>
 Vec<T> &Vec<T>::operator=(const Vec &other) & {
   if (this != &other) {
-    this->drop();
-    new (this) Vec(other);
+    // Copying an element may throw, in which case *this must stay intact.
+    Vec copy(other);
+    this->swap(copy);
   }
   return *this;
 }
-- 
2.43.0


From 796dee08d913f8b2faf8c8f49cf2ef695ea11ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:54 +0000
Subject: [PATCH 04/32] fix: let rust::Slice iterators step over zero-sized
 elements

---
 include/cxx.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cxx.h b/include/cxx.h
index 28920a7..6e49ea5 100644
--- a/include/cxx.h
+++ b/include/cxx.h
@@ -735,6 +735,12 @@ typename Slice<T>::iterator Slice<T>::begin() const noexcept {
   iterator it;
   it.pos = slicePtr(this);
   it.stride = size_of<T>();
+  if (it.stride == 0) {
+    // Elements of zero size all live at the same address. Step by the alignment
+    // instead, so that the iterator still tells their positions apart and every
+    // reference it hands out is well aligned.
+    it.stride = align_of<T>();
+  }
   return it;
 }
 
-- 
2.43.0


From 358088278fb834ca2f5feb3b63f0c2d5d2afdf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:51 +0000
Subject: [PATCH 05/32] fix: do not destroy a let_cxx_string! that was never
 initialized

---
 src/cxx_string.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cxx_string.rs b/src/cxx_string.rs
index c58d8d8..3bafa5a 100644
--- a/src/cxx_string.rs
+++ b/src/cxx_string.rs
@@ -299,6 +299,9 @@ pub struct StackString {
     // Static assertions in cxx.cc validate that this is large enough and
     // aligned enough.
     space: MaybeUninit<[usize; 8]>,
+    // False until `init` has constructed a string in the space. It stays false
+    // if evaluating the string's initial value panics or diverges.
+    initialized: bool,
 }
 
 #[allow(missing_docs)]
@@ -306,6 +309,7 @@ impl StackString {
     pub fn new() -> Self {
         StackString {
             space: MaybeUninit::uninit(),
+            initialized: false,
         }
     }
 
@@ -314,6 +318,7 @@ impl StackString {
         unsafe {
             let this = &mut *self.space.as_mut_ptr().cast::<MaybeUninit<CxxString>>();
             string_init(this, value.as_ptr(), value.len());
+            self.initialized = true;
             Pin::new_unchecked(&mut *this.as_mut_ptr())
         }
     }
@@ -321,6 +326,9 @@ impl StackString {
 
 impl Drop for StackString {
     fn drop(&mut self) {
+        if !self.initialized {
+            return;
+        }
         unsafe {
             let this = &mut *self.space.as_mut_ptr().cast::<MaybeUninit<CxxString>>();
             string_destroy(this);
-- 
2.43.0


From e66132f9d2bdb8bcfa7e7e91f2b3912bd539c797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:29 +0000
Subject: [PATCH 06/32] fix: allocate over-aligned types with aligned operator
 new in UniquePtr/SharedPtr::new

---
 gen/src/builtin.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/gen/src/builtin.rs b/gen/src/builtin.rs
index a7dbc2d..14f6641 100644
--- a/gen/src/builtin.rs
+++ b/gen/src/builtin.rs
@@ -238,10 +238,20 @@ pub(super) fn write(out: &mut OutFile) {
         out.next_section();
         writeln!(out, "template <typename T, typename = void *>");
         writeln!(out, "struct operator_new {{");
+        writeln!(out, "  void *operator()(::std::size_t sz) {{");
+        writeln!(out, "#ifdef __cpp_aligned_new");
         writeln!(
             out,
-            "  void *operator()(::std::size_t sz) {{ return ::operator new(sz); }}",
+            "    if (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) {{",
         );
+        writeln!(
+            out,
+            "      return ::operator new(sz, ::std::align_val_t(alignof(T)));",
+        );
+        writeln!(out, "    }}");
+        writeln!(out, "#endif");
+        writeln!(out, "    return ::operator new(sz);");
+        writeln!(out, "  }}");
         writeln!(out, "}};");
         out.next_section();
         writeln!(out, "template <typename T>");
-- 
2.43.0


From 0dd0030583c914b687dd128bb8d0e12d8f6e74a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:42 +0000
Subject: [PATCH 07/32] fix: let extern Rust functions return Result of a type
 with elided lifetimes

---
 macro/src/expand.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index aa90fd0..c4da7e9 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -1131,7 +1131,9 @@ fn expand_rust_function_shim_impl(
     }
     if sig.throws {
         let out = match sig.ret {
-            Some(_) => quote_spanned!(span=> __return),
+            // Lifetimes elided in the signature are not connected to those of
+            // the outparam, so leave it to be inferred from the result.
+            Some(_) => quote_spanned!(span=> __return.cast()),
             None => quote_spanned!(span=> &mut ()),
         };
         requires_closure = true;
@@ -1140,7 +1142,7 @@ fn expand_rust_function_shim_impl(
     } else if indirect_return {
         requires_closure = true;
         requires_unsafe = true;
-        expr = quote_spanned!(span=> ::cxx::core::ptr::write(__return, #expr));
+        expr = quote_spanned!(span=> ::cxx::core::ptr::write(__return.cast(), #expr));
     }
 
     if requires_unsafe {
-- 
2.43.0


From 4f56f5cbdc2e94ac78fa008d88331c05a994781d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:07 +0000
Subject: [PATCH 08/32] fix: put the std::hash specialization of a shared
 struct in the generated header

---
 gen/src/write.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index 8833f74..ad088ab 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -171,10 +171,10 @@ fn write_functions<'a>(out: &mut OutFile<'a>, apis: &'a [Api]) {
                 _ => {}
             }
         }
-
-        write_std_specializations(out, apis);
     }
 
+    write_std_specializations(out, apis);
+
     for api in apis {
         match api {
             Api::Struct(strct) => write_struct_operators(out, strct),
@@ -202,17 +202,25 @@ fn write_std_specializations(out: &mut OutFile, apis: &[Api]) {
                 writeln!(out, "template <> struct hash<{}> {{", qualified);
                 writeln!(
                     out,
-                    "  ::std::size_t operator()({} const &self) const noexcept {{",
+                    "  ::std::size_t operator()({} const &self) const noexcept;",
+                    qualified,
+                );
+                writeln!(out, "}};");
+                if out.header {
+                    continue;
+                }
+                writeln!(
+                    out,
+                    "::std::size_t hash<{0}>::operator()({0} const &self) const noexcept {{",
                     qualified,
                 );
                 let link_name = mangle::operator(&strct.name, "hash");
-                write!(out, "    return ::");
+                write!(out, "  return ::");
                 for name in &strct.name.namespace {
                     write!(out, "{}::", name);
                 }
                 writeln!(out, "{}(self);", link_name);
-                writeln!(out, "  }}");
-                writeln!(out, "}};");
+                writeln!(out, "}}");
             }
         }
     }
-- 
2.43.0


From 57adb0f2a689dbbaabe1d226d61271d36bb37ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:16 +0000
Subject: [PATCH 09/32] fix: destroy the source of values that generated C++
 moves out of Rust memory

---
 gen/src/builtin.rs | 14 ++++++++++++++
 gen/src/write.rs   |  9 +++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/gen/src/builtin.rs b/gen/src/builtin.rs
index 14f6641..8502dc1 100644
--- a/gen/src/builtin.rs
+++ b/gen/src/builtin.rs
@@ -31,6 +31,7 @@ pub(crate) struct Builtins<'a> {
     pub friend_impl: bool,
     pub is_complete: bool,
     pub destroy: bool,
+    pub relocate: bool,
     pub deleter_if: bool,
     pub content: Content<'a>,
 }
@@ -379,6 +380,19 @@ pub(super) fn write(out: &mut OutFile) {
         writeln!(out, "}}");
     }
 
+    if builtin.relocate {
+        out.next_section();
+        include.utility = true;
+        writeln!(out, "template <typename T>");
+        writeln!(out, "T relocate(T *ptr) {{");
+        writeln!(out, "  struct guard {{");
+        writeln!(out, "    T *ptr;");
+        writeln!(out, "    ~guard() {{ ptr->~T(); }}");
+        writeln!(out, "  }} guard{{ptr}};");
+        writeln!(out, "  return ::std::move(*guard.ptr);");
+        writeln!(out, "}}");
+    }
+
     if builtin.deleter_if {
         out.next_section();
         writeln!(out, "template <bool> struct deleter_if {{");
diff --git a/gen/src/write.rs b/gen/src/write.rs
index ad088ab..7d3e6fc 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -879,8 +879,9 @@ fn write_cxx_function_shim<'a>(out: &mut OutFile<'a>, efn: &'a ExternFn) {
             write_type(out, &arg.ty);
             write!(out, "(::rust::unsafe_bitcopy, *{})", arg.name.cxx);
         } else if out.types.needs_indirect_abi(&arg.ty) {
-            out.include.utility = true;
-            write!(out, "::std::move(*{})", arg.name.cxx);
+            // C++ calls move constructor followed by destructor.
+            out.builtin.relocate = true;
+            write!(out, "::rust::relocate({})", arg.name.cxx);
         } else {
             write!(out, "{}", arg.name.cxx);
         }
@@ -1173,8 +1174,8 @@ fn write_rust_function_shim_impl(
         match sig.ret.as_ref().unwrap() {
             Type::Ref(_) => write!(out, "*return$.value"),
             _ => {
-                out.include.utility = true;
-                write!(out, "::std::move(return$.value)");
+                out.builtin.relocate = true;
+                write!(out, "::rust::relocate(&return$.value)");
             }
         }
         writeln!(out, ";");
-- 
2.43.0


From 375c73c612fe1436e667c7b94a238849d7e93ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:36 +0000
Subject: [PATCH 10/32] fix: expand Vec<&str> in signatures of extern Rust
 functions

---
 macro/src/expand.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index c4da7e9..2e621ba 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -1882,7 +1882,10 @@ fn expand_extern_type(ty: &Type, types: &Types, proper: bool) -> TokenStream {
         Type::RustVec(ty) => {
             let span = ty.name.span();
             let langle = ty.langle;
-            let elem = expand_extern_type(&ty.inner, types, proper);
+            let elem = match &ty.inner {
+                Type::Str(inner) => quote!(#inner),
+                inner => expand_extern_type(inner, types, proper),
+            };
             let rangle = ty.rangle;
             quote_spanned!(span=> ::cxx::private::RustVec #langle #elem #rangle)
         }
@@ -1898,7 +1901,10 @@ fn expand_extern_type(ty: &Type, types: &Types, proper: bool) -> TokenStream {
                 Type::RustVec(ty) => {
                     let span = ty.name.span();
                     let langle = ty.langle;
-                    let inner = expand_extern_type(&ty.inner, types, proper);
+                    let inner = match &ty.inner {
+                        Type::Str(inner) => quote!(#inner),
+                        inner => expand_extern_type(inner, types, proper),
+                    };
                     let rangle = ty.rangle;
                     quote_spanned!(span=> #ampersand #lifetime #mutability ::cxx::private::RustVec #langle #inner #rangle)
                 }
-- 
2.43.0


From 6dd2651d72e88bb78b15ef458f496d2eacec0a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:36 +0000
Subject: [PATCH 11/32] fix: check by-value types in signatures of function
 pointers

---
 syntax/check.rs   | 19 +++++++++++++++++++
 syntax/trivial.rs | 12 ++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/syntax/check.rs b/syntax/check.rs
index 39ee0b0..4f723fe 100644
--- a/syntax/check.rs
+++ b/syntax/check.rs
@@ -311,6 +311,25 @@ fn check_type_fn(cx: &mut Check, ty: &Signature) {
                     "pointer argument requires that the function pointer be marked unsafe",
                 );
             }
+        } else if let Type::Fn(_) = arg.ty {
+            cx.error(
+                arg,
+                "passing a function pointer to a function pointer is not implemented yet",
+            );
+        } else if is_unsized(cx, &arg.ty) {
+            let desc = describe(cx, &arg.ty);
+            let msg = format!("passing {} by value is not supported", desc);
+            cx.error(arg, msg);
+        }
+    }
+
+    if let Some(ret) = &ty.ret {
+        if let Type::Fn(_) = ret {
+            cx.error(ret, "returning a function pointer is not implemented yet");
+        } else if is_unsized(cx, ret) {
+            let desc = describe(cx, ret);
+            let msg = format!("returning {} by value is not supported", desc);
+            cx.error(ret, msg);
         }
     }
 }
diff --git a/syntax/trivial.rs b/syntax/trivial.rs
index 9533400..3e61737 100644
--- a/syntax/trivial.rs
+++ b/syntax/trivial.rs
@@ -67,6 +67,18 @@ pub(crate) fn required_trivial_reasons<'a>(
                                 }
                             }
                         }
+                        Type::Fn(sig) => {
+                            for arg in &sig.args {
+                                if let Type::Ident(ident) = &arg.ty {
+                                    let reason = TrivialReason::FunctionArgument(efn);
+                                    insist_extern_types_are_trivial(ident, reason);
+                                }
+                            }
+                            if let Some(Type::Ident(ident)) = &sig.ret {
+                                let reason = TrivialReason::FunctionReturn(efn);
+                                insist_extern_types_are_trivial(ident, reason);
+                            }
+                        }
                         _ => {}
                     }
                 }
-- 
2.43.0


From a93ed66185544e3ed4d45d0a5a722c211690f4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:36 +0000
Subject: [PATCH 12/32] fix: report slices and arrays of references and pinned
 references to String and Vec as unsupported

---
 syntax/check.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/syntax/check.rs b/syntax/check.rs
index 4f723fe..6c65959 100644
--- a/syntax/check.rs
+++ b/syntax/check.rs
@@ -244,6 +244,25 @@ fn check_type_ref(cx: &mut Check, ty: &Ref) {
         }
     }
 
+    if ty.pinned {
+        if let Some(unpin) = match &ty.inner {
+            Type::Ident(ident) if ident.rust == RustString => Some("String"),
+            Type::RustVec(_) => Some("Vec<...>"),
+            _ => None,
+        } {
+            let mutable = if ty.mutable { "mut " } else { "" };
+            cx.error(
+                ty,
+                format!(
+                    "pinned reference to {unpin} is not supported -- use &{mutable}{unpin}",
+                    unpin = unpin,
+                    mutable = mutable,
+                ),
+            );
+            return;
+        }
+    }
+
     match ty.inner {
         Type::Fn(_) | Type::Void(_) => {}
         Type::Ref(_) => {
@@ -287,6 +306,8 @@ fn check_type_slice_ref(cx: &mut Check, ty: &SliceRef) {
             }
         }
         cx.error(ty, msg);
+    } else if let Type::Ref(_) = ty.inner {
+        cx.error(ty, "C++ does not allow slices of references");
     }
 }
 
@@ -295,6 +316,8 @@ fn check_type_array(cx: &mut Check, ty: &Array) {
 
     if !supported {
         cx.error(ty, "unsupported array element type");
+    } else if let Type::Ref(_) = ty.inner {
+        cx.error(ty, "C++ does not allow arrays of references");
     }
 }
 
-- 
2.43.0


From 0e198e31bda12e29c3ef3b177c62026f488c22c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:26 +0000
Subject: [PATCH 13/32] fix: report a struct or enum declared after a type
 alias of the same name

---
 syntax/types.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syntax/types.rs b/syntax/types.rs
index e972ee4..03283e2 100644
--- a/syntax/types.rs
+++ b/syntax/types.rs
@@ -73,6 +73,7 @@ impl<'a> Types<'a> {
                     let ident = &strct.name.rust;
                     if !type_names.insert(ident)
                         && (!cxx.contains(ident)
+                            || aliases.contains_key(ident)
                             || structs.contains_key(ident)
                             || enums.contains_key(ident))
                     {
@@ -98,6 +99,7 @@ impl<'a> Types<'a> {
                     let ident = &enm.name.rust;
                     if !type_names.insert(ident)
                         && (!cxx.contains(ident)
+                            || aliases.contains_key(ident)
                             || structs.contains_key(ident)
                             || enums.contains_key(ident))
                     {
-- 
2.43.0


From ad968fbaab844e6c3f3da1e2513bf00b4fe92b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:06 +0000
Subject: [PATCH 14/32] fix: treat an enum discriminant of -0 as zero

---
 syntax/discriminant.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syntax/discriminant.rs b/syntax/discriminant.rs
index a8400aa..d77f367 100644
--- a/syntax/discriminant.rs
+++ b/syntax/discriminant.rs
@@ -117,6 +117,8 @@ fn expr_to_discriminant(expr: &Expr) -> Result<(Discriminant, Option<Atom>)> {
             if let UnOp::Neg(_) = unary.op {
                 let (mut discriminant, repr) = expr_to_discriminant(&unary.expr)?;
                 discriminant.sign = match discriminant.sign {
+                    // There is no negative zero.
+                    Sign::Positive if discriminant.magnitude == 0 => Sign::Positive,
                     Sign::Positive => Sign::Negative,
                     Sign::Negative => Sign::Positive,
                 };
-- 
2.43.0


From 28649e6d896227342098c72eb13f8cb209ede331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:25 +0000
Subject: [PATCH 15/32] fix: write enum discriminants beyond i64 as well-formed
 C++ literals

---
 gen/src/write.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index 7d3e6fc..f5b6717 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -446,7 +446,8 @@ fn write_enum<'a>(out: &mut OutFile<'a>, enm: &'a Enum) {
     writeln!(out, " {{");
     for variant in &enm.variants {
         write_doc(out, "  ", &variant.doc);
-        writeln!(out, "  {} = {},", variant.name.cxx, variant.discriminant);
+        let discriminant = discriminant_literal(variant.discriminant.to_string());
+        writeln!(out, "  {} = {},", variant.name.cxx, discriminant);
     }
     writeln!(out, "}};");
     writeln!(out, "#endif // {}", guard);
@@ -469,16 +470,29 @@ fn check_enum<'a>(out: &mut OutFile<'a>, enm: &'a Enum) {
     write_atom(out, repr);
     writeln!(out, "), \"incorrect size\");");
     for variant in &enm.variants {
+        let discriminant = discriminant_literal(variant.discriminant.to_string());
         write!(out, "static_assert(static_cast<");
         write_atom(out, repr);
         writeln!(
             out,
             ">({}::{}) == {}, \"disagrees with the value in #[cxx::bridge]\");",
-            enm.name.cxx, variant.name.cxx, variant.discriminant,
+            enm.name.cxx, variant.name.cxx, discriminant,
         );
     }
 }
 
+// An unsuffixed decimal literal outside the range of `long long` is ill-formed
+// in C++, including the one in -9223372036854775808.
+fn discriminant_literal(literal: String) -> String {
+    if literal == i64::MIN.to_string() {
+        format!("{} - 1", i64::MIN + 1)
+    } else if literal.parse::<i64>().is_err() {
+        literal + "u"
+    } else {
+        literal
+    }
+}
+
 fn check_trivial_extern_type(out: &mut OutFile, alias: &TypeAlias, reasons: &[TrivialReason]) {
     // NOTE: The following static assertion is just nice-to-have and not
     // necessary for soundness. That's because triviality is always declared by
-- 
2.43.0


From a9cd533db823ed5ee463ed37e8aac42e03efa9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:25 +0000
Subject: [PATCH 16/32] fix: report enum discriminants that do not fit usize or
 isize

---
 syntax/discriminant.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/syntax/discriminant.rs b/syntax/discriminant.rs
index d77f367..983c78b 100644
--- a/syntax/discriminant.rs
+++ b/syntax/discriminant.rs
@@ -293,7 +293,7 @@ impl Limits {
     }
 }
 
-const LIMITS: [Limits; 8] = [
+const LIMITS: [Limits; 10] = [
     Limits {
         repr: U8,
         min: Discriminant::zero(),
@@ -334,4 +334,15 @@ const LIMITS: [Limits; 8] = [
         min: Discriminant::neg(i64::MIN),
         max: Discriminant::pos(i64::MAX as u64),
     },
+    // Never inferred. No target has a wider usize or isize than this.
+    Limits {
+        repr: Usize,
+        min: Discriminant::zero(),
+        max: Discriminant::pos(u64::MAX),
+    },
+    Limits {
+        repr: Isize,
+        min: Discriminant::neg(i64::MIN),
+        max: Discriminant::pos(i64::MAX as u64),
+    },
 ];
-- 
2.43.0


From bd2c0c41343c788e900e9a68f2b96fdefe30ff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:42 +0000
Subject: [PATCH 17/32] fix: order structs by the structs inside their array
 fields

---
 syntax/toposort.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/syntax/toposort.rs b/syntax/toposort.rs
index 9c97eb1..2942f0a 100644
--- a/syntax/toposort.rs
+++ b/syntax/toposort.rs
@@ -36,7 +36,11 @@ fn visit<'a>(
     }
     let mut result = Ok(());
     for field in &strct.fields {
-        if let Type::Ident(ident) = &field.ty {
+        let mut ty = &field.ty;
+        while let Type::Array(array) = ty {
+            ty = &array.inner;
+        }
+        if let Type::Ident(ident) = ty {
             if let Some(inner) = types.structs.get(&ident.rust) {
                 if visit(cx, inner, sorted, marks, types).is_err() {
                     cx.error(field, "unsupported cyclic data structure");
-- 
2.43.0


From 47108b42647aa0b19b3510469ee93da853e721d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:19 +0000
Subject: [PATCH 18/32] fix: spell raw identifiers without r# in C++ and in
 symbols

---
 gen/src/write.rs | 9 +++++----
 syntax/names.rs  | 2 +-
 syntax/symbol.rs | 3 ++-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index f5b6717..168d468 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -14,6 +14,7 @@ use crate::syntax::{
     Type, TypeAlias, Types, Var,
 };
 use proc_macro2::Ident;
+use syn::ext::IdentExt;
 
 pub(super) fn gen(apis: &[Api], types: &Types, opt: &Opt, header: bool) -> Vec<u8> {
     let mut out_file = OutFile::new(header, opt, types);
@@ -805,12 +806,12 @@ fn write_cxx_function_shim<'a>(out: &mut OutFile<'a>, efn: &'a ExternFn) {
     write!(out, "  ");
     write_return_type(out, &efn.ret);
     match &efn.receiver {
-        None => write!(out, "(*{}$)(", efn.name.rust),
+        None => write!(out, "(*{}$)(", efn.name.rust.unraw()),
         Some(receiver) => write!(
             out,
             "({}::*{}$)(",
             out.types.resolve(&receiver.ty).name.to_fully_qualified(),
-            efn.name.rust,
+            efn.name.rust.unraw(),
         ),
     }
     for (i, arg) in efn.args.iter().enumerate() {
@@ -868,8 +869,8 @@ fn write_cxx_function_shim<'a>(out: &mut OutFile<'a>, efn: &'a ExternFn) {
         _ => {}
     }
     match &efn.receiver {
-        None => write!(out, "{}$(", efn.name.rust),
-        Some(_) => write!(out, "(self.*{}$)(", efn.name.rust),
+        None => write!(out, "{}$(", efn.name.rust.unraw()),
+        Some(_) => write!(out, "(self.*{}$)(", efn.name.rust.unraw()),
     }
     for (i, arg) in efn.args.iter().enumerate() {
         if i > 0 {
diff --git a/syntax/names.rs b/syntax/names.rs
index 7afa5a9..3c6f34b 100644
--- a/syntax/names.rs
+++ b/syntax/names.rs
@@ -40,7 +40,7 @@ impl ForeignName {
         // non-alphanumeric characters (`operator++`).
         match Ident::parse_any.parse_str(text) {
             Ok(ident) => {
-                let text = ident.to_string();
+                let text = ident.unraw().to_string();
                 Ok(ForeignName { text })
             }
             Err(err) => Err(Error::new(span, err)),
diff --git a/syntax/symbol.rs b/syntax/symbol.rs
index f9fd32c..24eb85b 100644
--- a/syntax/symbol.rs
+++ b/syntax/symbol.rs
@@ -3,6 +3,7 @@ use crate::syntax::{ForeignName, Pair};
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
 use std::fmt::{self, Display, Write};
+use syn::ext::IdentExt;
 
 // A mangled symbol consisting of segments separated by '$'.
 // For example: cxxbridge1$string$new
@@ -58,7 +59,7 @@ impl Segment for usize {
 
 impl Segment for Ident {
     fn write(&self, symbol: &mut Symbol) {
-        symbol.push(&self);
+        symbol.push(&self.unraw());
     }
 }
 
-- 
2.43.0


From 7aa0981359fa2ebcf9e549f54679250b9e77a6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 19/32] fix: define methods of Rust types in the namespace of
 their type

---
 gen/src/write.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index 168d468..26605c4 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -939,8 +939,16 @@ fn write_function_pointer_trampoline(out: &mut OutFile, efn: &ExternFn, var: &Pa
     write_rust_function_shim_impl(out, &c_trampoline, f, &doc, &r_trampoline, indirect_call);
 }
 
+// A member function has to be defined in the namespace of its class.
+fn set_rust_function_namespace<'a>(out: &mut OutFile<'a>, efn: &'a ExternFn) {
+    out.set_namespace(match &efn.receiver {
+        None => &efn.name.namespace,
+        Some(receiver) => &out.types.resolve(&receiver.ty).name.namespace,
+    });
+}
+
 fn write_rust_function_decl<'a>(out: &mut OutFile<'a>, efn: &'a ExternFn) {
-    out.set_namespace(&efn.name.namespace);
+    set_rust_function_namespace(out, efn);
     out.begin_block(Block::ExternC);
     let link_name = mangle::extern_fn(efn, out.types);
     let indirect_call = false;
@@ -1009,7 +1017,7 @@ fn write_rust_function_decl_impl(
 }
 
 fn write_rust_function_shim<'a>(out: &mut OutFile<'a>, efn: &'a ExternFn) {
-    out.set_namespace(&efn.name.namespace);
+    set_rust_function_namespace(out, efn);
     let local_name = match &efn.sig.receiver {
         None => efn.name.cxx.to_string(),
         Some(receiver) => format!(
-- 
2.43.0


From a3da3cc4a70bf235486f4634472665d84f8660ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:10 +0000
Subject: [PATCH 20/32] fix: print raw identifiers without r# in derived Debug

---
 macro/src/derive.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/macro/src/derive.rs b/macro/src/derive.rs
index c31d2d8..b733628 100644
--- a/macro/src/derive.rs
+++ b/macro/src/derive.rs
@@ -1,6 +1,7 @@
 use crate::syntax::{derive, Enum, Struct};
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::{Span, TokenStream};
 use quote::{quote, quote_spanned, ToTokens};
+use syn::ext::IdentExt;
 
 pub(crate) use crate::syntax::derive::*;
 
@@ -140,9 +141,9 @@ fn struct_clone(strct: &Struct, span: Span) -> TokenStream {
 fn struct_debug(strct: &Struct, span: Span) -> TokenStream {
     let ident = &strct.name.rust;
     let generics = &strct.generics;
-    let struct_name = ident.to_string();
+    let struct_name = ident.unraw().to_string();
     let fields = strct.fields.iter().map(|field| &field.name.rust);
-    let field_names = fields.clone().map(Ident::to_string);
+    let field_names = fields.clone().map(|field| field.unraw().to_string());
 
     quote_spanned! {span=>
         #[automatically_derived]
@@ -257,12 +258,12 @@ fn enum_debug(enm: &Enum, span: Span) -> TokenStream {
     let ident = &enm.name.rust;
     let variants = enm.variants.iter().map(|variant| {
         let variant = &variant.name.rust;
-        let name = variant.to_string();
+        let name = variant.unraw().to_string();
         quote_spanned! {span=>
             #ident::#variant => formatter.write_str(#name),
         }
     });
-    let fallback = format!("{}({{}})", ident);
+    let fallback = format!("{}({{}})", ident.unraw());
 
     quote_spanned! {span=>
         #[automatically_derived]
-- 
2.43.0


From 7f25d5eea1756a98011ec5a4f3ed94b09115d486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:59 +0000
Subject: [PATCH 21/32] fix: respect #[cfg] on an include! of a bridge

---
 syntax/parse.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/syntax/parse.rs b/syntax/parse.rs
index 875e1d3..2176988 100644
--- a/syntax/parse.rs
+++ b/syntax/parse.rs
@@ -387,6 +387,15 @@ fn parse_foreign_mod(
                 match foreign.mac.parse_body_with(parse_include) {
                     Ok(mut include) => {
                         include.cfg = cfg.clone();
+                        attrs::parse(
+                            cx,
+                            foreign.attrs,
+                            attrs::Parser {
+                                cfg: Some(&mut include.cfg),
+                                ignore_unrecognized: true,
+                                ..Default::default()
+                            },
+                        );
                         items.push(Api::Include(include));
                     }
                     Err(err) => cx.push(err),
-- 
2.43.0


From 468312966d38fb580044b3eda0cb3550fb7f2003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:59 +0000
Subject: [PATCH 22/32] fix: recognize features with a dash in cfg of a bridge

---
 gen/build/src/cargo.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gen/build/src/cargo.rs b/gen/build/src/cargo.rs
index 0293c5f..5dde372 100644
--- a/gen/build/src/cargo.rs
+++ b/gen/build/src/cargo.rs
@@ -134,9 +134,20 @@ impl PartialEq for Lookup {
 
 struct CaseAgnosticByte(u8);
 
+impl CaseAgnosticByte {
+    // Cargo uppercases the name and replaces '-' by '_' in order to form the
+    // name of the environment variable.
+    fn normalize(&self) -> u8 {
+        match self.0 {
+            b'-' => b'_',
+            byte => byte.to_ascii_lowercase(),
+        }
+    }
+}
+
 impl Ord for CaseAgnosticByte {
     fn cmp(&self, rhs: &Self) -> Ordering {
-        self.0.to_ascii_lowercase().cmp(&rhs.0.to_ascii_lowercase())
+        self.normalize().cmp(&rhs.normalize())
     }
 }
 
-- 
2.43.0


From 9fabd7db9e96a69fb2954710b8e39789918bd2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:51 +0000
Subject: [PATCH 23/32] fix: compare raw identifiers in cfg without r#

---
 gen/cmd/src/cfg.rs | 3 ++-
 gen/src/cfg.rs     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gen/cmd/src/cfg.rs b/gen/cmd/src/cfg.rs
index 92b954c..e41740f 100644
--- a/gen/cmd/src/cfg.rs
+++ b/gen/cmd/src/cfg.rs
@@ -2,6 +2,7 @@ use crate::gen::{CfgEvaluator, CfgResult};
 use std::collections::{BTreeMap as Map, BTreeSet as Set};
 use std::fmt::{self, Debug};
 use syn::parse::ParseStream;
+use syn::ext::IdentExt as _;
 use syn::{Ident, LitBool, LitStr, Token};
 
 #[derive(Ord, PartialOrd, Eq, PartialEq)]
@@ -75,7 +76,7 @@ impl Debug for CfgValue {
 
 pub(crate) fn parse(input: ParseStream) -> syn::Result<(String, CfgValue)> {
     let ident: Ident = input.parse()?;
-    let name = ident.to_string();
+    let name = ident.unraw().to_string();
     if input.is_empty() {
         return Ok((name, CfgValue::TRUE));
     }
diff --git a/gen/src/cfg.rs b/gen/src/cfg.rs
index adab6e5..a474963 100644
--- a/gen/src/cfg.rs
+++ b/gen/src/cfg.rs
@@ -4,6 +4,7 @@ use crate::syntax::report::Errors;
 use crate::syntax::Api;
 use quote::quote;
 use std::collections::BTreeSet as Set;
+use syn::ext::IdentExt as _;
 use syn::{Error, LitStr};
 
 pub(super) struct UnsupportedCfgEvaluator;
@@ -60,7 +61,7 @@ fn try_eval(cfg_evaluator: &dyn CfgEvaluator, expr: &CfgExpr) -> Result<bool, Ve
     match expr {
         CfgExpr::Unconditional => Ok(true),
         CfgExpr::Eq(ident, string) => {
-            let key = ident.to_string();
+            let key = ident.unraw().to_string();
             let value = string.as_ref().map(LitStr::value);
             match cfg_evaluator.eval(&key, value.as_deref()) {
                 CfgResult::True => Ok(true),
-- 
2.43.0


From 1e9d95ac7ccc692749d1e48b8ad327b77c349db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 24/32] fix: do not delete the user's files when include_prefix
 changes

---
 gen/build/src/lib.rs |  8 ++++++++
 gen/build/src/out.rs | 11 +++++++++++
 2 files changed, 19 insertions(+)

diff --git a/gen/build/src/lib.rs b/gen/build/src/lib.rs
index ec0e514..72579c6 100644
--- a/gen/build/src/lib.rs
+++ b/gen/build/src/lib.rs
@@ -365,6 +365,14 @@ fn make_crate_dir(prj: &Project) -> PathBuf {
     let crate_dir = prj.out_dir.join("cxxbridge").join("crate");
     let ref link = crate_dir.join(&prj.include_prefix);
     let ref manifest_dir = prj.manifest_dir;
+    // A different include_prefix may have left a link to the manifest directory
+    // in the position of a parent directory of this link. Removing or writing
+    // things through it would be modifying the user's source code.
+    let mut parent = crate_dir.clone();
+    for component in prj.include_prefix.parent().unwrap().components() {
+        parent.push(component);
+        out::remove_symlink(&parent);
+    }
     if out::relative_symlink_dir(manifest_dir, link).is_err() && cfg!(not(unix)) {
         let cachedir_tag = "\
         Signature: 8a477f597d28d172789f06886806bc55\n\
diff --git a/gen/build/src/out.rs b/gen/build/src/out.rs
index 757105c..f497cee 100644
--- a/gen/build/src/out.rs
+++ b/gen/build/src/out.rs
@@ -153,6 +153,17 @@ fn best_effort_remove(path: &Path) {
     }
 }
 
+pub(crate) fn remove_symlink(path: &Path) {
+    if let Ok(metadata) = std::fs::symlink_metadata(path) {
+        if metadata.file_type().is_symlink() {
+            // On Windows, a symlink to a directory is removed by remove_dir.
+            if std::fs::remove_file(path).is_err() && cfg!(windows) {
+                let _ = std::fs::remove_dir(path);
+            }
+        }
+    }
+}
+
 fn best_effort_relativize_symlink(original: impl AsRef<Path>, link: impl AsRef<Path>) -> PathBuf {
     let original = original.as_ref();
     let link = link.as_ref();
-- 
2.43.0


From 0664a2a89a2729bb4b46e7f971c0dd14b8e33e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:22 +0000
Subject: [PATCH 25/32] fix: do not remove a shared header that another build
 script compiles against

Build scripts running at the same time write the same shared rust/cxx.h. A
script which read it half written removed it and wrote it again, when the
other script was already done and its C++ compiler reading the header. It also
would write through a symlink that another script just created there, into the
cxx crate's own source directory. Overwrite the file in place, and never
through a symlink.
---
 gen/build/src/out.rs | 36 +++++++++++++++++++++++++++++-------
 gen/src/fs.rs        | 29 ++++++++++++++++++++++++++++-
 2 files changed, 57 insertions(+), 8 deletions(-)

diff --git a/gen/build/src/out.rs b/gen/build/src/out.rs
index f497cee..3cf11d6 100644
--- a/gen/build/src/out.rs
+++ b/gen/build/src/out.rs
@@ -9,26 +9,41 @@ pub(crate) fn write(path: impl AsRef<Path>, content: &[u8]) -> Result<()> {
 
     let mut create_dir_error = None;
     if fs::exists(path) {
-        if let Ok(existing) = fs::read(path) {
-            if existing == content {
-                // Avoid bumping modified time with unchanged contents.
-                return Ok(());
-            }
+        if has_content(path, content) {
+            // Avoid bumping modified time with unchanged contents.
+            return Ok(());
+        }
+        // A regular file is going to be overwritten in place. Removing it would
+        // break a different simultaneous build script which is done writing the
+        // same content to the same path, and is already compiling against it.
+        if !is_writable_regular_file(path) {
+            best_effort_remove(path);
         }
-        best_effort_remove(path);
     } else {
         let parent = path.parent().unwrap();
         create_dir_error = fs::create_dir_all(parent).err();
     }
 
-    match fs::write(path, content) {
+    match fs::overwrite(path, content) {
         // As long as write succeeded, ignore any create_dir_all error.
         Ok(()) => Ok(()),
+        // A different simultaneous build script already created a symlink to the
+        // same content.
+        Err(err) if err.kind() == io::ErrorKind::AlreadyExists && has_content(path, content) => {
+            Ok(())
+        }
         // If create_dir_all and write both failed, prefer the first error.
         Err(err) => Err(Error::Fs(create_dir_error.unwrap_or(err))),
     }
 }
 
+fn has_content(path: &Path, content: &[u8]) -> bool {
+    match fs::read(path) {
+        Ok(existing) => existing == content,
+        Err(_) => false,
+    }
+}
+
 pub(crate) fn relative_symlink_file(
     original: impl AsRef<Path>,
     link: impl AsRef<Path>,
@@ -118,6 +133,13 @@ fn symlink_dir(
     }
 }
 
+fn is_writable_regular_file(path: &Path) -> bool {
+    match std::fs::symlink_metadata(path) {
+        Ok(metadata) => metadata.is_file() && !metadata.permissions().readonly(),
+        Err(_) => false,
+    }
+}
+
 fn best_effort_remove(path: &Path) {
     use std::fs;
 
diff --git a/gen/src/fs.rs b/gen/src/fs.rs
index a96b551..63c1a10 100644
--- a/gen/src/fs.rs
+++ b/gen/src/fs.rs
@@ -2,7 +2,8 @@
 
 use std::error::Error as StdError;
 use std::fmt::{self, Display};
-use std::io::{self, Read};
+use std::fs::OpenOptions;
+use std::io::{self, Read, Write};
 use std::path::{Path, PathBuf};
 
 pub(crate) type Result<T> = std::result::Result<T, Error>;
@@ -75,6 +76,32 @@ pub(crate) fn exists(path: impl AsRef<Path>) -> bool {
     std::fs::symlink_metadata(path).is_ok()
 }
 
+// Unlike `write`, this does not truncate an existing file before writing, and
+// fails with AlreadyExists if there is a symlink.
+pub(crate) fn overwrite(path: impl AsRef<Path>, contents: impl AsRef<[u8]>) -> Result<()> {
+    fn inner(path: &Path, contents: &[u8]) -> io::Result<()> {
+        let mut options = OpenOptions::new();
+        options.write(true);
+        let mut file = match options.clone().create_new(true).open(path) {
+            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {
+                if std::fs::symlink_metadata(path)?.is_symlink() {
+                    return Err(e);
+                }
+                options.open(path)?
+            }
+            result => result?,
+        };
+        file.write_all(contents)?;
+        file.set_len(contents.len() as u64)
+    }
+
+    let path = path.as_ref();
+    match inner(path, contents.as_ref()) {
+        Ok(()) => Ok(()),
+        Err(e) => err!(e, "Failed to write file `{}`", path),
+    }
+}
+
 pub(crate) fn read(path: impl AsRef<Path>) -> Result<Vec<u8>> {
     let path = path.as_ref();
     match std::fs::read(path) {
-- 
2.43.0


From c045065219da3ec1bef91adfd4962890bee89fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:56 +0000
Subject: [PATCH 26/32] fix: do not report exported prefixes as unused when
 they match

An element of CFG.exported_header_prefixes which matches a dependency was
reported to match none, if an earlier element or CFG.exported_header_links
matches the same dependency.
---
 gen/build/src/lib.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/gen/build/src/lib.rs b/gen/build/src/lib.rs
index 72579c6..e39672f 100644
--- a/gen/build/src/lib.rs
+++ b/gen/build/src/lib.rs
@@ -310,16 +310,20 @@ fn make_this_crate(prj: &Project) -> Result<Crate> {
 
         let mut is_prefix_exported = || match &krate.include_prefix {
             None => false,
-            Some(include_prefix) => CFG.exported_header_prefixes.iter().any(|&exported| {
-                let matches = include_prefix.starts_with(exported);
-                if matches {
-                    used_header_prefixes.insert(exported);
-                }
-                matches
-            }),
+            Some(include_prefix) => CFG
+                .exported_header_prefixes
+                .iter()
+                .fold(false, |any, &exported| {
+                    let matches = include_prefix.starts_with(exported);
+                    if matches {
+                        used_header_prefixes.insert(exported);
+                    }
+                    any || matches
+                }),
         };
 
-        let exported = is_link_exported() || is_prefix_exported();
+        // Not short-circuiting: every element that matches something is used.
+        let exported = is_link_exported() | is_prefix_exported();
 
         for dir in krate.header_dirs {
             // Deduplicate dirs reachable via multiple transitive dependencies.
-- 
2.43.0


From 680fa4839b4675b358901384d616374bd6600fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:48 +0000
Subject: [PATCH 27/32] fix: guard the std::hash specialization like the struct
 itself

A bridge which includes its own generated header had it twice in the generated
source.
---
 gen/src/write.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index 26605c4..83982c9 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -200,6 +200,9 @@ fn write_std_specializations(out: &mut OutFile, apis: &[Api]) {
                 out.include.cstddef = true;
                 out.include.functional = true;
                 let qualified = strct.name.to_fully_qualified();
+                let guard = format!("CXXBRIDGE1_HASH_{}", strct.name.to_symbol());
+                writeln!(out, "#ifndef {}", guard);
+                writeln!(out, "#define {}", guard);
                 writeln!(out, "template <> struct hash<{}> {{", qualified);
                 writeln!(
                     out,
@@ -207,6 +210,7 @@ fn write_std_specializations(out: &mut OutFile, apis: &[Api]) {
                     qualified,
                 );
                 writeln!(out, "}};");
+                writeln!(out, "#endif // {}", guard);
                 if out.header {
                     continue;
                 }
-- 
2.43.0


From bdeaa16f86a6561df5c51440a3a1d94a22c7609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:22 +0000
Subject: [PATCH 28/32] fix: keep a doc comment ending in a backslash from
 swallowing the next line

---
 gen/src/write.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index 83982c9..4d3e5df 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -266,12 +266,15 @@ fn pick_includes_and_builtins(out: &mut OutFile, apis: &[Api]) {
 
 fn write_doc(out: &mut OutFile, indent: &str, doc: &Doc) {
     let mut lines = 0;
+    let mut continued = false;
     for line in doc.to_string().lines() {
         if out.opt.doxygen {
             writeln!(out, "{}///{}", indent, line);
         } else {
             writeln!(out, "{}//{}", indent, line);
         }
+        let line = line.trim_end();
+        continued = line.ends_with('\\') || line.ends_with("??/");
         lines += 1;
     }
     // According to https://www.doxygen.nl/manual/docblocks.html, Doxygen only
@@ -280,6 +283,10 @@ fn write_doc(out: &mut OutFile, indent: &str, doc: &Doc) {
     // make sure to propagate that as a Doxygen comment.
     if out.opt.doxygen && lines == 1 {
         writeln!(out, "{}///", indent);
+    } else if continued {
+        // A backslash at the end of the line (or its trigraph) would make the
+        // next line, which is code, a part of the comment.
+        writeln!(out, "{}//", indent);
     }
 }
 
-- 
2.43.0


From ca84f2f7136ae6312a964e746f2e86cf0200b300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:05 +0000
Subject: [PATCH 29/32] fix: accept a byte order mark before a shebang, and a
 spaced inner attribute

---
 gen/src/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gen/src/mod.rs b/gen/src/mod.rs
index c75541f..3c7f37e 100644
--- a/gen/src/mod.rs
+++ b/gen/src/mod.rs
@@ -131,8 +131,8 @@ fn read_to_string(path: &Path) -> Result<String> {
 }
 
 fn generate_from_string(source: &str, opt: &Opt) -> Result<GeneratedCode> {
-    let mut source = source;
-    if source.starts_with("#!") && !source.starts_with("#![") {
+    let mut source = source.strip_prefix('\u{feff}').unwrap_or(source);
+    if source.starts_with("#!") && !source[2..].trim_start().starts_with('[') {
         let shebang_end = source.find('\n').unwrap_or(source.len());
         source = &source[shebang_end..];
     }
-- 
2.43.0


From 90b38beb521983ba415e82421d1cfcb43bbd9d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:08 +0000
Subject: [PATCH 30/32] fix: unsafe extern Rust functions without arguments

An unsafe fn item does not implement FnOnce, so it has to be called from a
closure even if it takes no arguments and needs no conversions.
---
 macro/src/expand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index 2e621ba..81e8079 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -1071,7 +1071,7 @@ fn expand_rust_function_shim_impl(
             quote!(::cxx::core::mem::transmute::<*const (), #sig>(__extern))
         }
     };
-    requires_closure |= !vars.is_empty();
+    requires_closure |= !vars.is_empty() || sig.unsafety.is_some();
     call.extend(quote! { (#(#vars),*) });
 
     let span = body_span;
-- 
2.43.0


From 9055db48347f34cee8bacb982fd6ad0e2ca22061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:08 +0000
Subject: [PATCH 31/32] fix: elided lifetimes in the return type of extern C++
 functions

The extern declaration returned a reference while arguments such as &str and
Box<T> were passed as other types, so the lifetime that could be elided in
the signature could not be in the declaration (E0106).
---
 macro/src/expand.rs | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index 81e8079..e515261 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -482,6 +482,14 @@ fn expand_cxx_function_decl(efn: &ExternFn, types: &Types) -> TokenStream {
     let all_args = receiver.chain(args);
     let ret = if efn.throws {
         quote!(-> ::cxx::private::Result)
+    } else if let Some(Type::Ref(ret)) = &efn.ret {
+        // Not a reference, because a lifetime that is elided in the signature
+        // cannot necessarily be elided with the types of these arguments.
+        let inner = expand_extern_pointee_type(&ret.inner, types);
+        match ret.mutable {
+            false => quote!(-> *const #inner),
+            true => quote!(-> *mut #inner),
+        }
     } else {
         expand_extern_return_type(&efn.ret, types, true)
     };
@@ -682,16 +690,16 @@ fn expand_cxx_function_shim(efn: &ExternFn, types: &Types) -> TokenStream {
                 }
                 Type::Ref(ty) => match &ty.inner {
                     Type::Ident(ident) if ident.rust == RustString => match ty.mutable {
-                        false => quote_spanned!(span=> #call.as_string()),
-                        true => quote_spanned!(span=> #call.as_mut_string()),
+                        false => quote_spanned!(span=> (*#call).as_string()),
+                        true => quote_spanned!(span=> (*#call).as_mut_string()),
                     },
                     Type::RustVec(vec) if vec.inner == RustString => match ty.mutable {
-                        false => quote_spanned!(span=> #call.as_vec_string()),
-                        true => quote_spanned!(span=> #call.as_mut_vec_string()),
+                        false => quote_spanned!(span=> (*#call).as_vec_string()),
+                        true => quote_spanned!(span=> (*#call).as_mut_vec_string()),
                     },
                     Type::RustVec(_) => match ty.mutable {
-                        false => quote_spanned!(span=> #call.as_vec()),
-                        true => quote_spanned!(span=> #call.as_mut_vec()),
+                        false => quote_spanned!(span=> (*#call).as_vec()),
+                        true => quote_spanned!(span=> (*#call).as_mut_vec()),
                     },
                     inner if types.is_considered_improper_ctype(inner) => {
                         let mutability = ty.mutability;
@@ -703,7 +711,17 @@ fn expand_cxx_function_shim(efn: &ExternFn, types: &Types) -> TokenStream {
                             }
                         }
                     }
-                    _ => call,
+                    _ if efn.throws => call,
+                    _ => {
+                        let mutability = ty.mutability;
+                        let deref_mut = quote_spanned!(span=> &#mutability *#call);
+                        match ty.pinned {
+                            false => deref_mut,
+                            true => {
+                                quote_spanned!(span=> ::cxx::core::pin::Pin::new_unchecked(#deref_mut))
+                            }
+                        }
+                    }
                 },
                 Type::Ptr(ty) => {
                     if types.is_considered_improper_ctype(&ty.inner) {
@@ -1942,6 +1960,15 @@ fn expand_extern_type(ty: &Type, types: &Types, proper: bool) -> TokenStream {
     }
 }
 
+fn expand_extern_pointee_type(ty: &Type, types: &Types) -> TokenStream {
+    match ty {
+        Type::Ident(ident) if ident.rust == RustString => expand_extern_type(ty, types, true),
+        Type::RustVec(_) => expand_extern_type(ty, types, true),
+        ty if types.is_considered_improper_ctype(ty) => quote!(::cxx::core::ffi::c_void),
+        ty => quote!(#ty),
+    }
+}
+
 fn expand_extern_return_type(ret: &Option<Type>, types: &Types, proper: bool) -> TokenStream {
     let ret = match ret {
         Some(ret) if !types.needs_indirect_abi(ret) => ret,
-- 
2.43.0


From 00e77dbf721588262f8edbf4ed82b3e8ec4436fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:24 +0000
Subject: [PATCH 32/32] fix: do not write through a symlink made while checking
 for one

The file was opened after looking whether it is a symlink, so a different
simultaneous build script could replace it by one in between, and the cxx
crate's own header was then written.
---
 gen/src/fs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gen/src/fs.rs b/gen/src/fs.rs
index 63c1a10..2953f6b 100644
--- a/gen/src/fs.rs
+++ b/gen/src/fs.rs
@@ -84,10 +84,13 @@ pub(crate) fn overwrite(path: impl AsRef<Path>, contents: impl AsRef<[u8]>) -> R
         options.write(true);
         let mut file = match options.clone().create_new(true).open(path) {
             Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {
+                // Look at what it is only after opening it, or else it can be
+                // replaced by a symlink between the two.
+                let file = options.open(path)?;
                 if std::fs::symlink_metadata(path)?.is_symlink() {
                     return Err(e);
                 }
-                options.open(path)?
+                file
             }
             result => result?,
         };
-- 
2.43.0

