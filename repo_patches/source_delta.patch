From 66483f3938eaf943b4ab6b6b3c2f84221b0cc974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:53 +0000
Subject: [PATCH 01/17] fix: avoid signed overflow when converting the lowest
 integer values

to_signed_mode_impl negated the value it was given, and the two's complement
from_signed_mode_impl negated the magnitude of the lowest value: both are
undefined for the minimum of int and wider types.
---
 include/upd/detail/signed_representation.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/upd/detail/signed_representation.hpp b/include/upd/detail/signed_representation.hpp
index d34ad05..b7d6032 100644
--- a/include/upd/detail/signed_representation.hpp
+++ b/include/upd/detail/signed_representation.hpp
@@ -24,7 +24,7 @@ T from_signed_mode_impl(unsigned long long value) {
 template<typename T, signed_mode Signed_Mode, detail::require<Signed_Mode == signed_mode::TWOS_COMPLEMENT> = 0>
 T from_signed_mode_impl(unsigned long long value) {
   constexpr auto sign_mask = 0b10000000ull << 8 * (sizeof(T) - 1);
-  return value & sign_mask ? T(-T(~value + 1)) : T(value);
+  return value & sign_mask ? T(-T(~value) - 1) : T(value);
 }
 template<typename T, signed_mode Signed_Mode, detail::require<Signed_Mode == signed_mode::OFFSET_BINARY> = 0>
 T from_signed_mode_impl(unsigned long long value) {
@@ -48,15 +48,15 @@ T from_signed_mode(unsigned long long value) {
 template<signed_mode Signed_Mode, typename T, detail::require<Signed_Mode == signed_mode::SIGNED_MAGNITUDE> = 0>
 unsigned long long to_signed_mode_impl(T value) {
   constexpr auto sign_mask = 0b10000000ull << 8 * (sizeof(T) - 1);
-  return value >= 0 ? static_cast<unsigned long long>(value) : static_cast<unsigned long long>(-value) | sign_mask;
+  return value >= 0 ? static_cast<unsigned long long>(value) : (0ull - static_cast<unsigned long long>(value)) | sign_mask;
 }
 template<signed_mode Signed_Mode, typename T, detail::require<Signed_Mode == signed_mode::ONES_COMPLEMENT> = 0>
 unsigned long long to_signed_mode_impl(T value) {
-  return value >= 0 ? static_cast<unsigned long long>(value) : ~static_cast<unsigned long long>(-value);
+  return value >= 0 ? static_cast<unsigned long long>(value) : ~(0ull - static_cast<unsigned long long>(value));
 }
 template<signed_mode Signed_Mode, typename T, detail::require<Signed_Mode == signed_mode::TWOS_COMPLEMENT> = 0>
 unsigned long long to_signed_mode_impl(T value) {
-  return value >= 0 ? static_cast<unsigned long long>(value) : static_cast<unsigned long long>(~(-value - 1));
+  return value >= 0 ? static_cast<unsigned long long>(value) : ~static_cast<unsigned long long>(-(value + 1));
 }
 template<signed_mode Signed_Mode, typename T, detail::require<Signed_Mode == signed_mode::OFFSET_BINARY> = 0>
 unsigned long long to_signed_mode_impl(T value) {
-- 
2.43.0


From 1fac2af6e913e44dfc33478313b06eb2e566e372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 02/17] fix: never load an invalid bool when the platform
 endianess is known

from_endianess copied the received byte straight into a bool. Any byte other
than 0 and 1 made the value invalid, and reading it undefined. The generic
implementation already maps every non-zero byte to true.
---
 include/upd/detail/endianess.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/upd/detail/endianess.hpp b/include/upd/detail/endianess.hpp
index 14561ef..7c5fe7a 100644
--- a/include/upd/detail/endianess.hpp
+++ b/include/upd/detail/endianess.hpp
@@ -4,6 +4,7 @@
 
 #include <cstddef>
 #include <cstring>
+#include <type_traits>
 
 #include "../format.hpp"
 #include "../type.hpp"
@@ -39,10 +40,13 @@ T from_endianess_impl(const byte_t *raw_data, std::size_t n) {
 //! \brief Interpret a sequence of byte as an integer according to the provided endianess
 template<typename T, endianess Endianess, UPD_REQUIRE(platform_info.endianess == Endianess)>
 T from_endianess(const byte_t *raw_data, std::size_t n) {
-  auto retval = T(0);
+  // Any byte may be received, but only two of them are valid object representations of `bool`
+  using raw_t = typename std::conditional<std::is_same<T, bool>::value, byte_t, T>::type;
+
+  auto retval = raw_t(0);
   memcpy(&retval, raw_data, n);
 
-  return retval;
+  return T(retval);
 }
 template<typename T, endianess Endianess, UPD_REQUIRE(platform_info.endianess != Endianess)>
 T from_endianess(const byte_t *raw_data, std::size_t n) {
-- 
2.43.0


From cf8455c68631878e589d12aca02142516d46fd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 03/17] fix: size requests and responses by what is actually
 serialized

The output buffer of single and double buffered dispatchers was sized by the
parameters of the callbacks instead of their return values, so a response wider
than the requests was written past the end of the buffer. key::payload_length,
no_storage_action and the input buffer summed sizeof() of the parameters, which
is not the size of a type serialized by an user extension: requests then never
resolved or were followed by missing bytes.
---
 include/upd/buffered_dispatcher.hpp           |  8 +++--
 .../upd/detail/type_traits/flatten_tuple.hpp  | 25 ++++++++++++++++
 .../upd/detail/type_traits/input_tuple.hpp    | 20 +++++++++++++
 include/upd/detail/type_traits/signature.hpp  | 30 -------------------
 include/upd/key.hpp                           |  1 +
 5 files changed, 52 insertions(+), 32 deletions(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index 081f0b0..ef61e1d 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -15,11 +15,14 @@
 #include "detail/io/immediate_reader.hpp"
 #include "detail/io/immediate_writer.hpp"
 #include "detail/static_error.hpp"
+#include "detail/type_traits/flatten_tuple.hpp"
+#include "detail/type_traits/input_tuple.hpp"
 #include "detail/type_traits/require.hpp"
 #include "detail/type_traits/signature.hpp"
 #include "detail/type_traits/typelist.hpp"
 
 // IWYU pragma: no_forward_declare upd::detail::map_parameters_size
+// IWYU pragma: no_forward_declare upd::detail::map_return_type_size
 
 namespace upd {
 namespace detail {
@@ -33,7 +36,7 @@ using needed_input_buffer_size =
 
 //! \brief How many bytes that would be needed to represent any action response of `Keyring`
 template<typename Keyring>
-using needed_output_buffer_size = detail::max<detail::map_parameters_size<typename Keyring::signatures_t::type>>;
+using needed_output_buffer_size = detail::max<detail::map_return_type_size<typename Keyring::signatures_t::type>>;
 
 } // namespace detail
 
@@ -377,7 +380,8 @@ public:
   double_buffered_dispatcher() = default;
 
 private:
-  byte_t m_ibuf[input_buffer_size], m_obuf[output_buffer_size];
+  // The output buffer is never used if no action returns a value, but arrays cannot be empty
+  byte_t m_ibuf[input_buffer_size], m_obuf[output_buffer_size > 0 ? output_buffer_size : 1];
 };
 
 #if __cplusplus >= 201703L
diff --git a/include/upd/detail/type_traits/flatten_tuple.hpp b/include/upd/detail/type_traits/flatten_tuple.hpp
index 91de23a..07e7bb0 100644
--- a/include/upd/detail/type_traits/flatten_tuple.hpp
+++ b/include/upd/detail/type_traits/flatten_tuple.hpp
@@ -2,8 +2,14 @@
 
 #pragma once
 
+#include <cstddef>
+#include <type_traits>
+
 #include "../../format.hpp"
 #include "../../tuple.hpp"
+#include "remove_cv_ref.hpp"
+#include "signature.hpp"
+#include "typelist.hpp"
 
 namespace upd {
 namespace detail {
@@ -39,5 +45,24 @@ using flatten_tuple_t = typename flatten_tuple<Endianess, Signed_Mode, Ts...>::t
 
 //! @}
 
+//! \brief Gets the size of the return type of `F` once serialized (which does not depend on the serialization
+//! parameters)
+template<typename F>
+struct return_type_size
+    : std::integral_constant<
+          std::size_t,
+          flatten_tuple_t<endianess::LITTLE, signed_mode::TWOS_COMPLEMENT, remove_cv_ref_t<return_t<F>>>::size> {};
+
+//! \name
+//! \brief Map `return_type_size` over a typelist of invocable type
+//! @{
+
+template<typename>
+struct map_return_type_size;
+template<typename... Fs>
+struct map_return_type_size<tlist_t<Fs...>> : tlist_t<return_type_size<Fs>...> {};
+
+//! @}
+
 } // namespace detail
 } // namespace upd
diff --git a/include/upd/detail/type_traits/input_tuple.hpp b/include/upd/detail/type_traits/input_tuple.hpp
index fc9d8cb..9a5e154 100644
--- a/include/upd/detail/type_traits/input_tuple.hpp
+++ b/include/upd/detail/type_traits/input_tuple.hpp
@@ -2,10 +2,14 @@
 
 #pragma once
 
+#include <cstddef>
+#include <type_traits>
+
 #include "../../format.hpp"
 #include "../../tuple.hpp"
 #include "remove_cv_ref.hpp"
 #include "signature.hpp"
+#include "typelist.hpp"
 
 namespace upd {
 namespace detail {
@@ -22,5 +26,21 @@ struct input_tuple_impl<R(Args...), Endianess, Signed_Mode> {
 template<endianess Endianess, signed_mode Signed_Mode, typename F>
 using input_tuple = typename input_tuple_impl<signature_t<F>, Endianess, Signed_Mode>::type;
 
+//! \brief Gets the size of the parameters of `F` once serialized (which does not depend on the serialization parameters)
+template<typename F>
+struct parameters_size
+    : std::integral_constant<std::size_t, input_tuple<endianess::LITTLE, signed_mode::TWOS_COMPLEMENT, F>::size> {};
+
+//! \name
+//! \brief Map `parameters_size` over a typelist of invocable type
+//! @{
+
+template<typename>
+struct map_parameters_size;
+template<typename... Fs>
+struct map_parameters_size<tlist_t<Fs...>> : tlist_t<parameters_size<Fs>...> {};
+
+//! @}
+
 } // namespace detail
 } // namespace upd
diff --git a/include/upd/detail/type_traits/signature.hpp b/include/upd/detail/type_traits/signature.hpp
index 661b5f0..c4d126c 100644
--- a/include/upd/detail/type_traits/signature.hpp
+++ b/include/upd/detail/type_traits/signature.hpp
@@ -97,36 +97,6 @@ UPD_DETAIL_MAKE_DETECTOR(
 template<typename F>
 struct is_invocable : decltype(is_invocable_impl<F>(0)) {};
 
-//! \name
-//! \brief Sums the sizes of the parameters of `F`
-//! @{
-
-template<typename F>
-struct parameters_size : parameters_size<signature_t<F>> {};
-template<typename R, typename... Args>
-struct parameters_size<R(Args...)> : sum<detail::tlist_t<std::integral_constant<std::size_t, sizeof(Args)>...>> {};
-
-//! @}
-
-//! \name
-//! \brief Map `parameters_size` over a typelist of invocable type
-//! @{
-
-template<typename>
-struct map_parameters_size;
-template<typename... Fs>
-struct map_parameters_size<tlist_t<Fs...>> : tlist_t<parameters_size<Fs>...> {};
-
-//! @}
-
-//! \brief Gets the size of the return type of `F`
-template<typename F>
-struct return_type_size : return_type_size<detail::signature_t<F>> {};
-template<typename R, typename... Args>
-struct return_type_size<R(Args...)> : std::integral_constant<std::size_t, sizeof(R)> {};
-template<typename... Args>
-struct return_type_size<void(Args...)> : std::integral_constant<std::size_t, 0> {};
-
 UPD_DETAIL_MAKE_DETECTOR(
     has_signature_impl,
     UPD_PACK(typename F, typename R, typename... Args),
diff --git a/include/upd/key.hpp b/include/upd/key.hpp
index f2819d3..739a568 100644
--- a/include/upd/key.hpp
+++ b/include/upd/key.hpp
@@ -8,6 +8,7 @@
 #include "detail/io/immediate_reader.hpp"
 #include "detail/serialized_message.hpp"
 #include "detail/static_error.hpp"
+#include "detail/type_traits/input_tuple.hpp"
 #include "detail/type_traits/remove_cv_ref.hpp"
 #include "detail/type_traits/require.hpp"
 #include "detail/type_traits/signature.hpp"
-- 
2.43.0


From 79343457d365a45d160eeb73feae23df757aeaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:22 +0000
Subject: [PATCH 04/17] fix: access only the serialized bytes of a value
 through an iterator

read_as and write_as went through sizeof(T) bytes when given an iterator which
is not a pointer. For a type serialized by an user extension, which may take
fewer bytes than that, a view read past its end and wrote over its neighbours.
---
 include/upd/detail/serialization.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/upd/detail/serialization.hpp b/include/upd/detail/serialization.hpp
index 37130b0..5a19eef 100644
--- a/include/upd/detail/serialization.hpp
+++ b/include/upd/detail/serialization.hpp
@@ -21,6 +21,9 @@ class tuple_view; // IWYU pragma: keep
 
 namespace detail {
 
+template<typename T>
+struct serialization_size;
+
 //! \brief Make a tuple view suitable for functors of the provided signature to invoke on
 template<endianess Endianess, signed_mode Signed_Mode, typename It, typename... Args, typename R>
 tuple_view<It, Endianess, Signed_Mode, Args...> make_view_for(const It &it, signature<R(Args...)>) {
@@ -86,7 +89,7 @@ T read_as(const byte_t *sequence) {
 }
 template<typename T, endianess Endianess, signed_mode Signed_Mode, typename It, detail::require_not_pointer<It> = 0>
 decltype(read_as<T, Endianess, Signed_Mode>(std::declval<byte_t *>())) read_as(It it) {
-  byte_t buf[sizeof(T)];
+  byte_t buf[serialization_size<T>::value];
   for (byte_t &byte : buf)
     byte = *it++;
   return read_as<T, Endianess, Signed_Mode>(buf);
@@ -149,7 +152,7 @@ void write_as(const T &x, byte_t *sequence) {
 }
 template<endianess Endianess, signed_mode Signed_Mode, typename T, typename It, detail::require_not_pointer<It> = 0>
 void write_as(const T &value, It it) {
-  byte_t buf[sizeof(T)];
+  byte_t buf[serialization_size<T>::value];
 
   write_as<Endianess, Signed_Mode>(value, buf);
   for (const byte_t &byte : buf)
-- 
2.43.0


From 8e5fd83d58f3beb10568b953d02375508e852b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:22 +0000
Subject: [PATCH 05/17] fix: keep buffered dispatchers usable after a callback
 has thrown

The loading state was reset after the action returned only. When the callback
threw, the next bytes were appended to the finished request, past the end of the
input buffer.
---
 include/upd/buffered_dispatcher.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index ef61e1d..c1f8d8a 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -266,12 +266,14 @@ private:
 
     auto *ibuf_ptr = derived().ibuf_begin();
     auto index = get_index([&]() { return *ibuf_ptr++; });
-    m_dispatcher[index]([&]() { return *ibuf_ptr++; },
-                        [&](byte_t byte) { derived().obuf_begin()[m_obuf_bottom++] = byte; });
 
+    // The action may throw, so it is invoked once ready for the next request
     m_is_index_loaded = false;
     m_load_count = sizeof(index_t);
     m_ibuf_next = 0;
+
+    m_dispatcher[index]([&]() { return *ibuf_ptr++; },
+                        [&](byte_t byte) { derived().obuf_begin()[m_obuf_bottom++] = byte; });
   }
 
   //! \copydoc dispatcher::get_index
-- 
2.43.0


From abf3071e8afc55c3b2d4d149e0c91a47e2684ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:22 +0000
Subject: [PATCH 06/17] fix: do not send indeterminate bytes from
 buffered_dispatcher::reply

The buffer given to the requested action was left uninitialized after the
response when the latter was shorter.
---
 include/upd/buffered_dispatcher.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index c1f8d8a..4fedae3 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -242,7 +242,7 @@ public:
 
     using buf_t = typename Key::tuple_t::template arg_t<0>;
 
-    buf_t buf;
+    buf_t buf{};
     write_to(std::begin(buf));
     k(buf).write_to(UPD_FWD(output));
 
-- 
2.43.0


From 3f01a79df734e3b336be24e75cf77507ad5e4369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:00 +0000
Subject: [PATCH 07/17] fix: make action hold a copy of the callbacks given as
 lvalues

action deduced a reference type from an lvalue and stored it, in spite of being
documented to wrap a copy. A callback passed by name to action, key::with_hook or
dispatcher::replace dangled once it went out of scope.
---
 include/upd/action.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/upd/action.hpp b/include/upd/action.hpp
index 611a33b..7861e42 100644
--- a/include/upd/action.hpp
+++ b/include/upd/action.hpp
@@ -4,6 +4,7 @@
 
 #include <cstddef>
 #include <memory>
+#include <type_traits>
 
 #include "format.hpp"
 #include "tuple.hpp"
@@ -16,6 +17,7 @@
 #include "detail/static_error.hpp"
 #include "detail/type_traits/flatten_tuple.hpp"
 #include "detail/type_traits/input_tuple.hpp"
+#include "detail/type_traits/remove_cv_ref.hpp"
 #include "detail/type_traits/require.hpp"
 #include "detail/type_traits/signature.hpp"
 
@@ -76,9 +78,15 @@ template<typename F, endianess Endianess, signed_mode Signed_Mode>
 struct action_model_impl {
   using tuple_t = input_tuple<Endianess, Signed_Mode, F>;
 
-  explicit action_model_impl(F &&ftor) : ftor{UPD_FWD(ftor)} {}
+  explicit action_model_impl(F &&ftor) : ftor(UPD_FWD(ftor)) {}
 
-  F ftor;
+  //! \brief Access the held functor with the value category of the functor it is a copy of
+  F &&get(std::false_type) { return static_cast<F &&>(ftor); }
+
+  //! \brief Access the held pointer to function
+  decay_t<F> &get(std::true_type) { return ftor; }
+
+  decay_t<F> ftor;
 };
 
 //! \brief Abstract class used for setting up type erasure in the `action` class
@@ -110,7 +118,11 @@ public:
     action_model::output_size = flatten_tuple_t<Endianess, Signed_Mode, return_t<F>>::size;
   }
 
-  void operator()(src_t &&src, dest_t &&dest) final { return detail::call<tuple_t>(src, dest, UPD_FWD(m_impl.ftor)); }
+  void operator()(src_t &&src, dest_t &&dest) final {
+    using is_function_t = std::is_function<typename std::remove_reference<F>::type>;
+
+    return detail::call<tuple_t>(src, dest, m_impl.get(typename is_function_t::type{}));
+  }
 
 private:
   impl_t m_impl;
-- 
2.43.0


From 7b62acd831dc198e61a0bb4b7467e0d92d485707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 08/17] fix: copy what a callback returns before its arguments
 are destroyed

Actions serialized the result after the invocation had returned. A callback
returning a reference to one of its arguments hence had a destroyed value
serialized (and could not be held by action at all).
---
 include/upd/action.hpp | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/include/upd/action.hpp b/include/upd/action.hpp
index 7861e42..f7eeada 100644
--- a/include/upd/action.hpp
+++ b/include/upd/action.hpp
@@ -20,6 +20,7 @@
 #include "detail/type_traits/remove_cv_ref.hpp"
 #include "detail/type_traits/require.hpp"
 #include "detail/type_traits/signature.hpp"
+#include "detail/type_traits/ternary.hpp"
 
 // IWYU pragma: no_include "upd/detail/value_h.hpp"
 
@@ -42,6 +43,26 @@ void insert(dest_t &dest, const T &value) {
     dest(byte);
 }
 
+//! \name
+//! \brief Functor wrapper which returns a copy of what the wrapped functor returns
+//!
+//! The unserialized arguments do not outlive the invocation, so nor does a reference to one of them. Functions cannot
+//! return arrays, so references to arrays are left as they are.
+//! @{
+
+template<typename F, typename Signature = signature_t<F>>
+struct value_returner;
+template<typename F, typename R, typename... Args>
+struct value_returner<F, R(Args...)> {
+  using value_t = ternary_t<std::is_array<remove_cv_ref_t<R>>::value, R, remove_cv_ref_t<R>>;
+
+  value_t operator()(Args... args) { return static_cast<F &&>(ftor)(static_cast<Args &&>(args)...); }
+
+  F &&ftor;
+};
+
+//! @}
+
 //! \brief Invoke `ftor` on the unserialized arguments from `src` and write the serialized return value to `dest`
 template<typename Tuple, typename F>
 void call(src_t &src, F &&ftor) {
@@ -67,7 +88,9 @@ void call(src_t &src, dest_t &dest, F &&ftor) {
   for (auto &byte : input_args)
     byte = src();
 
-  return insert<Tuple::storage_endianess, Tuple::storage_signed_mode>(dest, input_args.invoke(UPD_FWD(ftor)));
+  return insert<Tuple::storage_endianess, Tuple::storage_signed_mode>(
+      dest,
+      input_args.invoke(value_returner<F>{UPD_FWD(ftor)}));
 }
 
 //! \brief Implementation of the `action` class behaviour
@@ -115,7 +138,7 @@ class action_model : public action_concept {
 public:
   explicit action_model(F &&ftor) : m_impl{UPD_FWD(ftor)} {
     action_model::input_size = tuple_t::size;
-    action_model::output_size = flatten_tuple_t<Endianess, Signed_Mode, return_t<F>>::size;
+    action_model::output_size = flatten_tuple_t<Endianess, Signed_Mode, remove_cv_ref_t<return_t<F>>>::size;
   }
 
   void operator()(src_t &&src, dest_t &&dest) final {
@@ -147,7 +170,11 @@ void static_storage_duration_callback_wrapper(src_t &&src, dest_t &&dest) {
   input_tuple<Endianess, Signed_Mode, F> parameters_tuple;
   for (auto &byte : parameters_tuple)
     byte = src();
-  auto return_tuple = make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, parameters_tuple.invoke(Ftor));
+
+  const F &ftor = Ftor;
+  auto return_tuple = make_tuple(endianess_h<Endianess>{},
+                                      signed_mode_h<Signed_Mode>{},
+                                      parameters_tuple.invoke(value_returner<const F &>{ftor}));
   for (auto byte : return_tuple)
     dest(byte);
 }
-- 
2.43.0


From 83545579246fed9ae311364fd86381af72e2cccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 09/17] fix: call upd::make_tuple when the returned value is of
 a standard type

The unqualified call was resolved to std::make_tuple by argument dependent
lookup for callbacks returning, for instance, std::array.
---
 include/upd/action.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/upd/action.hpp b/include/upd/action.hpp
index f7eeada..acfab7f 100644
--- a/include/upd/action.hpp
+++ b/include/upd/action.hpp
@@ -38,7 +38,7 @@ template<endianess Endianess, signed_mode Signed_Mode, typename T, UPD_REQUIREME
 void insert(dest_t &dest, const T &value) {
   using namespace upd;
 
-  auto output = make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, value);
+  auto output = upd::make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, value);
   for (byte_t byte : output)
     dest(byte);
 }
@@ -172,7 +172,7 @@ void static_storage_duration_callback_wrapper(src_t &&src, dest_t &&dest) {
     byte = src();
 
   const F &ftor = Ftor;
-  auto return_tuple = make_tuple(endianess_h<Endianess>{},
+  auto return_tuple = upd::make_tuple(endianess_h<Endianess>{},
                                       signed_mode_h<Signed_Mode>{},
                                       parameters_tuple.invoke(value_returner<const F &>{ftor}));
   for (auto byte : return_tuple)
-- 
2.43.0


From 5064187afc35a734072c80b21ad00218035bae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 10/17] fix: raise ValueError when Python decodes a truncated
 payload

The iterator on the payload was advanced past its end then dereferenced, which
crashed the interpreter.
---
 include/upd/python.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/upd/python.hpp b/include/upd/python.hpp
index 1c5beb9..fbf4b38 100644
--- a/include/upd/python.hpp
+++ b/include/upd/python.hpp
@@ -86,6 +86,9 @@ void define_pykey(pybind11::module &pymodule, const char *name, Keyring, key<Ind
              auto it = pybytes.begin();
              return k.read_from([&]() {
                ++it;
+               if (it == pybind11::iterator::sentinel())
+                 throw pybind11::value_error{"The payload is too short to be decoded"};
+
                return it->cast<byte_t>();
              });
            })
-- 
2.43.0


From edaa30355cbd7aec56c829b173a8fe70557bc49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 11/17] fix: raise NotImplementedError from Client.new_request

NotImplemented is not an exception and cannot be called.
---
 py/unpadded/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/unpadded/client.py b/py/unpadded/client.py
index fdc6a9f..b4e7990 100644
--- a/py/unpadded/client.py
+++ b/py/unpadded/client.py
@@ -1,6 +1,6 @@
 class Client:
     def new_request(self, payload):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     async def call(self, key, *args):
         response = await self.new_request(key.encode(*args))
-- 
2.43.0


From 879de11023c44aca7ab6dc929e8024bcad478c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:57 +0000
Subject: [PATCH 12/17] fix: reject keys of other keyrings in the Python
 dispatchers' replace

The index of the key was used as is to access the actions, and the action it
made replaced one whose requests and responses could be smaller: both ended up
in accesses out of the bounds of the dispatcher.
---
 include/upd/python.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/upd/python.hpp b/include/upd/python.hpp
index fbf4b38..a42e2f7 100644
--- a/include/upd/python.hpp
+++ b/include/upd/python.hpp
@@ -122,6 +122,14 @@ void define_pykeys(pybind11::module &pymodule, Keyring keyring, std::index_seque
            0)...};
 }
 
+//! \brief Check if a Python object is one of the exposed keys of a \ref<keyring> keyring template instance
+template<typename Keyring, std::size_t... Is>
+bool is_pykey_of(const pybind11::object &pykey, Keyring, std::index_sequence<Is...>) {
+  using flist_t = typename Keyring::flist_t;
+
+  return (... || pybind11::isinstance<typename Keyring::template key_t<upd::detail::at<flist_t, Is>>>(pykey));
+}
+
 } // namespace detail
 
 //! \brief Expose every \ref<key> key template instances from a keyring to Python
@@ -173,6 +181,9 @@ void declare_dispatcher(pybind11::module &pymodule, const char *name, Keyring ke
       .def("get", &dispatcher_t::get)
       .def("is_loaded", &dispatcher_t::is_loaded)
       .def("replace", [](dispatcher_t &self, pybind11::object pykey, pybind11::function pyfunction) {
+        if (!detail::is_pykey_of(pykey, Keyring{}, std::make_index_sequence<Keyring::size>{}))
+          throw pybind11::type_error{"The key does not belong to the keyring of the dispatcher"};
+
         self[pykey.attr("index")().cast<std::size_t>()] = pykey.attr("__make_action")(pyfunction).cast<action>();
       });
 
-- 
2.43.0


From 3ffd9b70ba8d677f2f94a3db6b444a27253cf563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:22 +0000
Subject: [PATCH 13/17] fix: expose keyrings whose keys have the same types to
 Python

---
 include/upd/python.hpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/upd/python.hpp b/include/upd/python.hpp
index a42e2f7..9564bee 100644
--- a/include/upd/python.hpp
+++ b/include/upd/python.hpp
@@ -68,21 +68,29 @@ const char *demangled_fname(const T &x) {
   return static_name.c_str();
 }
 
+//! \brief Key of a given keyring as exposed to Python
+//!
+//! Keys of different keyrings may share their type whereas a type is only registered once, so each of them needs a type
+//! of its own.
+template<typename Keyring, typename Key>
+struct exposed_key : Key {};
+
 //! \brief Expose a \ref<key> key template instance to Python
 template<typename Keyring, typename Index_T, Index_T I, typename R, typename... Args, endianess E, signed_mode S>
 void define_pykey(pybind11::module &pymodule, const char *name, Keyring, key<Index_T, I, R(Args...), E, S> k) {
   using key_t = decltype(k);
+  using pykey_t = exposed_key<Keyring, key_t>;
 
-  pybind11::class_<key_t>{pymodule, name}
+  pybind11::class_<pykey_t>{pymodule, name, pybind11::module_local()}
       .def("encode",
-           [](key_t k, const Args &...args) {
+           [](const pykey_t &k, const Args &...args) {
              byte_t buf[key_t::payload_length];
 
              k(args...).write_to(buf);
              return pybind11::bytes{reinterpret_cast<char *>(buf), sizeof buf};
            })
       .def("decode",
-           [](key_t k, pybind11::object &pybytes) {
+           [](const pykey_t &k, pybind11::object &pybytes) {
              auto it = pybytes.begin();
              return k.read_from([&]() {
                ++it;
@@ -92,8 +100,8 @@ void define_pykey(pybind11::module &pymodule, const char *name, Keyring, key<Ind
                return it->cast<byte_t>();
              });
            })
-      .def("index", [](key_t) { return I; })
-      .def("__make_action", [](key_t, pybind11::function pyfunction) {
+      .def("index", [](const pykey_t &) { return I; })
+      .def("__make_action", [](const pykey_t &, pybind11::function pyfunction) {
         return action{[pyfunction](const Args &...args) {
                         if constexpr (std::is_void_v<R>) {
                           pyfunction(args...);
@@ -105,7 +113,7 @@ void define_pykey(pybind11::module &pymodule, const char *name, Keyring, key<Ind
                       signed_mode_h<S>{}};
       });
 
-  pymodule.attr(name + 2) = k;
+  pymodule.attr(name + 2) = pykey_t{k};
 }
 
 //! \brief Expose the \ref<key> key template instances of a \ref<keyring> keyring template instance to Python
@@ -127,7 +135,9 @@ template<typename Keyring, std::size_t... Is>
 bool is_pykey_of(const pybind11::object &pykey, Keyring, std::index_sequence<Is...>) {
   using flist_t = typename Keyring::flist_t;
 
-  return (... || pybind11::isinstance<typename Keyring::template key_t<upd::detail::at<flist_t, Is>>>(pykey));
+  return (... ||
+          pybind11::isinstance<exposed_key<Keyring, typename Keyring::template key_t<upd::detail::at<flist_t, Is>>>>(
+              pykey));
 }
 
 } // namespace detail
@@ -173,7 +183,7 @@ void declare_dispatcher(pybind11::module &pymodule, const char *name, Keyring ke
   using namespace pybind11::literals;
   using dispatcher_t = decltype(double_buffered_dispatcher{Keyring{}, policy::any_callback});
 
-  pybind11::class_<dispatcher_t>{pymodule, name}
+  pybind11::class_<dispatcher_t>{pymodule, name, pybind11::module_local()}
       .def(pybind11::init<>())
       .def("read_from", [](dispatcher_t &self, const std::function<byte_t()> &src) { return self.read_from(src); })
       .def("write_to", [](dispatcher_t &self, const std::function<void(byte_t)> &dest) { self.write_to(dest); })
-- 
2.43.0


From 40f6d82e94e6bbcb660a85f117a8658c13a61a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:46 +0000
Subject: [PATCH 14/17] fix: keep importing other modules when a directory
 cannot be searched by the hook

---
 py/unpadded/hook.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/unpadded/hook.py b/py/unpadded/hook.py
index c08aad6..5dd8b71 100644
--- a/py/unpadded/hook.py
+++ b/py/unpadded/hook.py
@@ -24,7 +24,10 @@ class Hook:
 
         try:
             self._running = True
-            filepath = os.path.abspath(find_module_cpppath(fullname, opt_in=True))
+            try:
+                filepath = os.path.abspath(find_module_cpppath(fullname, opt_in=True))
+            except OSError as error:
+                raise ImportError(f"Couldn't search for `{fullname}`") from error
             if fullname is None:
                 fullname = os.path.splitext(os.path.basename(filepath))[0]
             module_data = setup_module_data(fullname, filepath)
-- 
2.43.0


From ee250f7f58b2e314154fd9cdcfe46131ec627c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:46 +0000
Subject: [PATCH 15/17] fix: raise ImportError when an imported module could
 not be built

---
 py/unpadded/hook.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py/unpadded/hook.py b/py/unpadded/hook.py
index 5dd8b71..eee4a7f 100644
--- a/py/unpadded/hook.py
+++ b/py/unpadded/hook.py
@@ -39,6 +39,11 @@ class Hook:
             return module_data["module"]
         except ImportError:
             _logger.debug(traceback.format_exc())
+        except SystemExit as error:
+            # `setuptools` exits when it fails
+            raise ImportError(
+                f"Module `{fullname}` could not be built: {error}", name=fullname
+            ) from error
         finally:
             self._running = False
 
-- 
2.43.0


From 23d742c96098937a5ceea4625b33bf2246c6f453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:46 +0000
Subject: [PATCH 16/17] fix: build the modules imported by the module being
 loaded

---
 py/unpadded/hook.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py/unpadded/hook.py b/py/unpadded/hook.py
index eee4a7f..13b02ba 100644
--- a/py/unpadded/hook.py
+++ b/py/unpadded/hook.py
@@ -16,14 +16,14 @@ _logger = logging.getLogger(__name__)
 
 class Hook:
     def __init__(self):
-        self._running = False
+        self._running = set()
 
     def find_spec(self, fullname, path, target=None):
-        if self._running:
+        if fullname in self._running:
             return
 
         try:
-            self._running = True
+            self._running.add(fullname)
             try:
                 filepath = os.path.abspath(find_module_cpppath(fullname, opt_in=True))
             except OSError as error:
@@ -45,7 +45,7 @@ class Hook:
                 f"Module `{fullname}` could not be built: {error}", name=fullname
             ) from error
         finally:
-            self._running = False
+            self._running.discard(fullname)
 
 
 def setup_unpadded(cfg):
-- 
2.43.0


From 17bd18c733dd984ef02c620818db45b32cad09de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:16 +0000
Subject: [PATCH 17/17] fix: do not search the directory of an imported module
 for what it imports

The modules were also created and initialized twice.
---
 py/unpadded/hook.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/py/unpadded/hook.py b/py/unpadded/hook.py
index 13b02ba..572ef8d 100644
--- a/py/unpadded/hook.py
+++ b/py/unpadded/hook.py
@@ -2,10 +2,13 @@ import logging
 import os
 import sys
 import traceback
+from importlib.machinery import ExtensionFileLoader
+from importlib.util import spec_from_file_location
 from pathlib import Path
 
+import cppimport
 from cppimport.find import find_module_cpppath
-from cppimport.importer import build_safely, load_module, setup_module_data
+from cppimport.importer import build_safely, setup_module_data
 from cppimport.templating import setup_pybind11
 
 INCLUDE_DIRECTORY = str(Path(__file__).parent.absolute()) + "/include"
@@ -14,6 +17,19 @@ _extra_include_dirs = []
 _logger = logging.getLogger(__name__)
 
 
+class Loader(ExtensionFileLoader):
+    def create_module(self, spec):
+        if not hasattr(sys, "getdlopenflags"):
+            return super().create_module(spec)
+
+        flags = sys.getdlopenflags()
+        sys.setdlopenflags(flags | cppimport.settings["rtld_flags"])
+        try:
+            return super().create_module(spec)
+        finally:
+            sys.setdlopenflags(flags)
+
+
 class Hook:
     def __init__(self):
         self._running = set()
@@ -35,8 +51,11 @@ class Hook:
             if os.path.exists(module_data["ext_path"]):
                 os.remove(module_data["ext_path"])
             build_safely(filepath, module_data)
-            load_module(module_data)
-            return module_data["module"]
+
+            # The directory of the module must not be searched for what the module imports,
+            # which is what `cppimport.importer.load_module()` would do
+            loader = Loader(fullname, module_data["ext_path"])
+            return spec_from_file_location(fullname, loader=loader)
         except ImportError:
             _logger.debug(traceback.format_exc())
         except SystemExit as error:
-- 
2.43.0

