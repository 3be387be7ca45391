From d7f97b1212105bee7a7a2f111050b178e615579d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:28 +0000
Subject: [PATCH 01/32] fix: compute the transitive bases after all
 registrations are known

Bases collected while iterating over the registrations were incomplete when
a class was registered after the classes that derive from it, or in several
pieces. This led to incorrect direct bases, v-tables too small and
out-of-bounds accesses.
---
 include/boost/openmethod/initialize.hpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index b9d5672..44dabe9 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -592,29 +592,25 @@ void registry<Policies...>::compiler<Options...>::augment_classes() {
             if (rtc != rtb) {
                 // At compile time we collected the class as its own
                 // improper base, as per std::is_base_of. Eliminate that.
-                ++class_mark;
-                collect_transitive_bases(rtc, rtb);
+                rtc->transitive_bases.push_back(rtb);
             }
         }
     }
 
-    // At this point bases may contain duplicates, and also indirect
-    // bases. Clean that up.
+    // At this point bases may contain duplicates, and some of the indirect
+    // bases may be missing, because a class can be registered in several
+    // pieces, in any order. Replace the bases with their transitive closure.
 
     std::size_t mark = ++class_mark;
 
     for (auto& rtc : classes) {
         decltype(rtc.transitive_bases) bases;
-        mark = ++class_mark;
+        bases.swap(rtc.transitive_bases);
+        rtc.mark = ++class_mark;
 
-        for (auto rtb : rtc.transitive_bases) {
-            if (rtb->mark != mark) {
-                bases.push_back(rtb);
-                rtb->mark = mark;
-            }
+        for (auto rtb : bases) {
+            collect_transitive_bases(&rtc, rtb);
         }
-
-        rtc.transitive_bases.swap(bases);
     }
 
     for (auto& rtc : classes) {
-- 
2.43.0


From e06b10a948cde35d635c951dae9cdaecb39bf8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:28 +0000
Subject: [PATCH 02/32] fix: take non-virtual arguments between virtual ones
 into account in multi-dispatch

A non-virtual argument placed between two virtual arguments was counted as a
virtual argument, so the last virtual argument(s) were ignored.
---
 include/boost/openmethod/core.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 7c2d383..a42f079 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -2547,13 +2547,17 @@ method<Id, ReturnType(Parameters...), Registry>::resolve_multi_next(
         std::size_t slot = this->slots_strides[VirtualArg];
         std::size_t stride = this->slots_strides[Arity + VirtualArg - 1];
         dispatch = dispatch + vtbl[slot].i * stride;
-    }
 
-    if constexpr (VirtualArg + 1 == Arity) {
-        return *dispatch;
+        if constexpr (VirtualArg + 1 == Arity) {
+            return *dispatch;
+        } else {
+            return resolve_multi_next<
+                VirtualArg + 1, mp_rest<MethodArgList>, MoreArgTypes...>(
+                dispatch, more_args...);
+        }
     } else {
         return resolve_multi_next<
-            VirtualArg + 1, mp_rest<MethodArgList>, MoreArgTypes...>(
+            VirtualArg, mp_rest<MethodArgList>, MoreArgTypes...>(
             dispatch, more_args...);
     }
 }
-- 
2.43.0


From 051b8029cccddd8de73ac5d27ea82fb91f375199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:34 +0000
Subject: [PATCH 03/32] fix: describe only the virtual arguments in bad_call
 errors

bad_call::arity is documented as the number of virtual arguments in the call,
but it counted all the arguments, and types included non-virtual ones.
---
 include/boost/openmethod/core.hpp | 49 +++++++++++++------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index a42f079..dd133de 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -1967,35 +1967,28 @@ using overrider_virtual_types = boost::mp11::mp_remove<
         MethodParameters, OverriderParameters>,
     void>;
 
-template<class Method, class Rtti, std::size_t Index>
+template<class Method, class Rtti, class... Parameters>
 struct init_bad_call {
-    template<typename Arg, typename... Args>
-    static auto fn(bad_call& error, const Arg& arg, const Args&... args) {
-        if constexpr (Index == 0u) {
-            error.method = Rtti::template static_type<Method>();
-            error.arity = sizeof...(args) + 1;
-        }
-
-        type_id arg_type_id;
+    template<typename... Args>
+    static auto fn(bad_call& error, const Args&... args) {
+        error.method = Rtti::template static_type<Method>();
+        error.arity = 0;
+        (add<Parameters>(error, args), ...);
+    }
+
+    template<typename Parameter, typename Arg>
+    static auto add(bad_call& error, [[maybe_unused]] const Arg& arg) {
+        if constexpr (is_virtual<Parameter>::value) {
+            if (error.arity < bad_call::max_types) {
+                if constexpr (is_virtual_ptr<Arg>) {
+                    error.types[error.arity] = Rtti::dynamic_type(*arg);
+                } else {
+                    error.types[error.arity] = Rtti::dynamic_type(arg);
+                }
+            }
 
-        if constexpr (is_virtual_ptr<Arg>) {
-            arg_type_id = Rtti::dynamic_type(*arg);
-        } else {
-            arg_type_id = Rtti::dynamic_type(arg);
+            ++error.arity;
         }
-
-        error.types[Index] = arg_type_id;
-
-        init_bad_call<Method, Rtti, Index + 1>::fn(error, args...);
-    }
-
-    static auto fn(bad_call&) {
-    }
-};
-
-template<class Method, class Rtti>
-struct init_bad_call<Method, Rtti, bad_call::max_types> {
-    static auto fn(bad_call&) {
     }
 };
 
@@ -2590,7 +2583,7 @@ method<Id, ReturnType(Parameters...), Registry>::fn_not_implemented(
 
     if constexpr (Registry::has_error_handler) {
         no_overrider error;
-        detail::init_bad_call<method, rtti, 0u>::fn(
+        detail::init_bad_call<method, rtti, Parameters...>::fn(
             error,
             detail::parameter_traits<Parameters, Registry>::peek(args)...);
         Registry::error_handler::error(error);
@@ -2608,7 +2601,7 @@ method<Id, ReturnType(Parameters...), Registry>::fn_ambiguous(
 
     if constexpr (Registry::has_error_handler) {
         ambiguous_call error;
-        detail::init_bad_call<method, rtti, 0u>::fn(
+        detail::init_bad_call<method, rtti, Parameters...>::fn(
             error,
             detail::parameter_traits<Parameters, Registry>::peek(args)...);
         Registry::error_handler::error(error);
-- 
2.43.0


From c3a1a8ce3bb3142214b73fa15470d9eab54388b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:15 +0000
Subject: [PATCH 04/32] fix: only consider overriders for base classes for
 'next'

'next' is unique to an overrider, but it was determined from the overriders
applicable to the last group of classes for which the overrider is selected.
An overrider could thus be called with arguments it does not accept.
---
 include/boost/openmethod/initialize.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 44dabe9..ea2a754 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1213,12 +1213,15 @@ void registry<Policies...>::compiler<Options...>::build_dispatch_table(
 
                 // First remove the dominant overriders from the overriders.
                 // Note that the dominants appear in the overriders in the same
-                // relative order.
+                // relative order. Also remove the overriders that happen to be
+                // applicable to this group, but not to all the arguments
+                // accepted by the selected overrider.
                 auto candidate = overriders.begin();
                 remaining = 0;
 
                 for (auto dominant : dominants) {
-                    if (*candidate == dominant) {
+                    if (*candidate == dominant ||
+                        !is_base(*candidate, overrider)) {
                         *candidate = nullptr;
                     } else {
                         ++remaining;
-- 
2.43.0


From b664f58cc0138816a2fca3efdfbb66b83b1887b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:39 +0000
Subject: [PATCH 05/32] fix: set 'next' of overriders that are never selected

'next' was left null, or pointing to the result of a previous initialization,
while has_next() returned true, for overriders that are ambiguous for all
combinations of classes. These can still be called by name.
---
 include/boost/openmethod/initialize.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index ea2a754..6969e67 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -777,6 +777,8 @@ void registry<Policies...>::compiler<Options...>::augment_methods() {
             ++tr << type_name(overrider_info.type) << " (" << overrider_info.pf
                  << ")\n";
             spec_iter->info = &overrider_info;
+            // if not selected for any combination of classes
+            spec_iter->next = &meth_iter->ambiguous;
             spec_iter->vp.reserve(meth_info.arity());
             std::size_t param_index = 0;
 
-- 
2.43.0


From c3bb1aa8def57b2769fbeafd6a527bd289ce897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:30 +0000
Subject: [PATCH 06/32] fix: compare all applicable overriders when selecting
 the dominant ones

is_more_specific is not transitive. Eliminating dominated overriders while
looping made the result depend on the order of registration. Also, overriders
that dominate each other in a cycle are ambiguous.
---
 include/boost/openmethod/initialize.hpp | 31 ++++++++++++++++++-------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 6969e67..b3d2370 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1424,16 +1424,16 @@ void registry<Policies...>::compiler<Options...>::select_dominant_overriders(
     pick = 0;
     remaining = 0;
 
+    // is_more_specific is not transitive, thus overriders that are dominated
+    // still take part in the comparisons.
+    const auto applicable = candidates;
+
     for (size_t i = 0; i < candidates.size(); ++i) {
-        if (candidates[i]) {
-            for (size_t j = i + 1; j < candidates.size(); ++j) {
-                if (candidates[j]) {
-                    if (is_more_specific(candidates[i], candidates[j])) {
-                        candidates[j] = nullptr;
-                    } else if (is_more_specific(candidates[j], candidates[i])) {
-                        candidates[i] = nullptr;
-                        break; // this one is dead
-                    }
+        if (applicable[i]) {
+            for (auto other : applicable) {
+                if (other && is_more_specific(other, applicable[i])) {
+                    candidates[i] = nullptr;
+                    break; // this one is dead
                 }
             }
         }
@@ -1444,6 +1444,19 @@ void registry<Policies...>::compiler<Options...>::select_dominant_overriders(
         }
     }
 
+    if (remaining == 0) {
+        // Either there are no applicable overriders, or they all dominate each
+        // other. In the latter case, they are all ambiguous.
+        candidates = applicable;
+
+        for (size_t i = 0; i < candidates.size(); ++i) {
+            if (candidates[i]) {
+                pick = i;
+                ++remaining;
+            }
+        }
+    }
+
     if (remaining <= 1) {
         return;
     }
-- 
2.43.0


From d8ce7cda5530ee1348ab9ce938a1cd781a778e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 07/32] fix: do not compare a discarded overrider in n2216
 resolution

When an overrider was discarded because of its return type, the loop went on
comparing it to the remaining candidates, dereferencing a null pointer.
---
 include/boost/openmethod/initialize.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index b3d2370..a3dea9b 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1477,6 +1477,7 @@ void registry<Policies...>::compiler<Options...>::select_dominant_overriders(
                         if (candidates[i]->covariant_return_type->is_base_of(
                                 candidates[j]->covariant_return_type)) {
                             candidates[i] = nullptr;
+                            break; // this one is dead
                         } else if (candidates[j]
                                        ->covariant_return_type->is_base_of(
                                            candidates[i]
-- 
2.43.0


From 1b8e2b5e6ab27f66dc78abb45f5ae3dc4986f78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:10 +0000
Subject: [PATCH 08/32] fix: do not ignore options passed to initialize as
 lvalues

The option types were deduced as references, and not recognized.
---
 include/boost/openmethod/initialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index a3dea9b..22d5897 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1636,7 +1636,7 @@ inline auto initialize(Options&&... options) {
         std::abort();
     }
 
-    typename Registry::template compiler<Options...> comp(
+    typename Registry::template compiler<std::decay_t<Options>...> comp(
         std::forward<Options>(options)...);
     comp.initialize();
 
-- 
2.43.0


From db5a94e4c50d335f51607c3892ea8f2f17b3ea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 09/32] fix: report base and derived in the right order in
 missing_base

The class used by the overrider was reported as the base of the class used by
the method.
---
 include/boost/openmethod/initialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 22d5897..a6b076f 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -840,8 +840,8 @@ void registry<Policies...>::compiler<Options...>::augment_methods() {
 
                 if (!vp->is_base_of(overrider.vp[param_index])) {
                     missing_base error;
-                    error.base = overrider.vp[param_index]->type_ids[0];
-                    error.derived = vp->type_ids[0];
+                    error.base = vp->type_ids[0];
+                    error.derived = overrider.vp[param_index]->type_ids[0];
 
                     if constexpr (has_error_handler) {
                         error_handler::error(error);
-- 
2.43.0


From 14dd54f70d8f8cf12cb014d09dafbcce76c0afd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 10/32] fix: report the number of buckets used in the last hash
 search attempt

M was incremented after the last pass, thus twice the number was reported.
---
 include/boost/openmethod/policies/fast_perfect_hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/openmethod/policies/fast_perfect_hash.hpp b/include/boost/openmethod/policies/fast_perfect_hash.hpp
index e91f8f8..08c2cb7 100644
--- a/include/boost/openmethod/policies/fast_perfect_hash.hpp
+++ b/include/boost/openmethod/policies/fast_perfect_hash.hpp
@@ -237,7 +237,7 @@ void fast_perfect_hash::fn<Registry>::initialize(
 
     search_error error;
     error.attempts = total_attempts;
-    error.buckets = std::size_t(1) << M;
+    error.buckets = buckets.size();
 
     if constexpr (Registry::has_error_handler) {
         Registry::error_handler::error(error);
-- 
2.43.0


From 81df60e64a7428fbb49fa4add49044663037c904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 11/32] fix: report unregistered classes in vptr_vector without
 type_hash

With runtime_checks, only type ids greater than those of all the registered
classes were detected. Others yielded null pointers, or pointers remaining from
a previous initialization.
---
 include/boost/openmethod/initialize.hpp        |  4 +++-
 .../boost/openmethod/policies/vptr_vector.hpp  | 18 +++++++++++-------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index a6b076f..e7a2f07 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1306,7 +1306,9 @@ void registry<Policies...>::compiler<Options...>::write_global_data() {
         classes.begin(), classes.end(), dispatch_data_size,
         [](auto sum, const auto& cls) { return sum + cls.vtbl.size(); });
 
-    std::vector<detail::word> new_dispatch_data(dispatch_data_size);
+    // Make sure that v-table pointers are not null, even if there are no methods.
+    std::vector<detail::word> new_dispatch_data(
+        (std::max)(dispatch_data_size, std::size_t(1)));
     auto gv_first = new_dispatch_data.data();
     [[maybe_unused]] auto gv_last = gv_first + dispatch_data_size;
     auto gv_iter = gv_first;
diff --git a/include/boost/openmethod/policies/vptr_vector.hpp b/include/boost/openmethod/policies/vptr_vector.hpp
index 1b1a276..c415fcc 100644
--- a/include/boost/openmethod/policies/vptr_vector.hpp
+++ b/include/boost/openmethod/policies/vptr_vector.hpp
@@ -85,10 +85,12 @@ struct vptr_vector : vptr {
                 ++size;
             }
 
+            // Clear values left by a previous initialization.
             if constexpr (Registry::has_indirect_vptr) {
-                detail::vptr_vector_indirect_vptrs<Registry>.resize(size);
+                detail::vptr_vector_indirect_vptrs<Registry>.assign(
+                    size, nullptr);
             } else {
-                detail::vptr_vector_vptrs<Registry>.resize(size);
+                detail::vptr_vector_vptrs<Registry>.assign(size, nullptr);
             }
 
             for (auto iter = ctx.classes_begin(); iter != ctx.classes_end();
@@ -141,16 +143,18 @@ struct vptr_vector : vptr {
                 index = std::size_t(dynamic_type);
 
                 if constexpr (Registry::has_runtime_checks) {
-                    std::size_t max_index = 0;
+                    bool missing = false;
 
                     if constexpr (Registry::has_indirect_vptr) {
-                        max_index =
-                            detail::vptr_vector_indirect_vptrs<Registry>.size();
+                        auto& vptrs =
+                            detail::vptr_vector_indirect_vptrs<Registry>;
+                        missing = index >= vptrs.size() || !vptrs[index];
                     } else {
-                        max_index = detail::vptr_vector_vptrs<Registry>.size();
+                        auto& vptrs = detail::vptr_vector_vptrs<Registry>;
+                        missing = index >= vptrs.size() || !vptrs[index];
                     }
 
-                    if (index >= max_index) {
+                    if (missing) {
                         if constexpr (Registry::has_error_handler) {
                             missing_class error;
                             error.type = dynamic_type;
-- 
2.43.0


From d090b1e9197057d886cdd46c5f4c1bba74661ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 12/32] fix: registry is not initialized if installing the
 tables fails

If the error handler throws when no hash is found, method slots and static
v-table pointers were already changed, and refer to tables that no longer exist.
Runtime checks did not detect calls made thereafter.
---
 include/boost/openmethod/initialize.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index e7a2f07..e9ed8b4 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -472,6 +472,9 @@ template<class... Policies>
 template<class... Options>
 void registry<Policies...>::compiler<Options...>::initialize() {
     compile();
+    // If a policy fails after the tables have been replaced, the registry is
+    // left in an unusable state.
+    registry<Policies...>::initialized = false;
     install_global_tables();
     registry<Policies...>::initialized = true;
 }
-- 
2.43.0


From e52b96c155ab184fdb7e02e71a88f67e848e892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:52 +0000
Subject: [PATCH 13/32] fix: do not copy the v-table pointer embedded in
 objects

Copying or assigning a derived object to a base object, or the other way round,
copied the v-table pointer along. The object was then treated as an instance of
another class.
---
 include/boost/openmethod/inplace_vptr.hpp | 31 +++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/include/boost/openmethod/inplace_vptr.hpp b/include/boost/openmethod/inplace_vptr.hpp
index 0ddf534..25d2eef 100644
--- a/include/boost/openmethod/inplace_vptr.hpp
+++ b/include/boost/openmethod/inplace_vptr.hpp
@@ -150,6 +150,15 @@ class inplace_vptr_base : protected detail::inplace_vptr_base_tag {
         detail::boost_openmethod_update_vptr<Class>(static_cast<Class*>(this));
     }
 
+    //! Set the vptr to `Class`\'s v-table. `other`\'s vptr is not copied.
+    inplace_vptr_base(const inplace_vptr_base&) noexcept : inplace_vptr_base() {
+    }
+
+    //! Assignment does not change the class of the object.
+    auto operator=(const inplace_vptr_base&) noexcept -> inplace_vptr_base& {
+        return *this;
+    }
+
     //! Set the vptr to `nullptr`.
     ~inplace_vptr_base() noexcept {
         boost_openmethod_vptr = nullptr;
@@ -224,6 +233,17 @@ class inplace_vptr_derived<Class, Base> {
         boost_openmethod_update_vptr<Class>(static_cast<Class*>(this));
     }
 
+    //! Set the vptr to `Class`\'s v-table.
+    inplace_vptr_derived(const inplace_vptr_derived&) noexcept
+        : inplace_vptr_derived() {
+    }
+
+    //! Assignment does not change the class of the object.
+    auto operator=(const inplace_vptr_derived&) noexcept
+        -> inplace_vptr_derived& {
+        return *this;
+    }
+
     //! Set the vptr in base class.
     ~inplace_vptr_derived() noexcept {
         detail::boost_openmethod_update_vptr<Base>(
@@ -260,6 +280,17 @@ class inplace_vptr_derived<Class, Base1, Base2, MoreBases...> {
         detail::boost_openmethod_update_vptr<Class>(static_cast<Class*>(this));
     }
 
+    //! Set the vptr to `Class`\'s v-table.
+    inplace_vptr_derived(const inplace_vptr_derived&) noexcept
+        : inplace_vptr_derived() {
+    }
+
+    //! Assignment does not change the class of the object.
+    auto operator=(const inplace_vptr_derived&) noexcept
+        -> inplace_vptr_derived& {
+        return *this;
+    }
+
     //! Set the vptr in each base class.
     //!
     //! For each base, set its vptr to the base's v-table.
-- 
2.43.0


From a6884f22593ca7208d021d346458c0d6a15ec8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:52 +0000
Subject: [PATCH 14/32] fix: do not use the address of a temporary with
 embedded indirect v-table pointers

With indirect_vptr, virtual_ptr stores the address of the v-table pointer, but
boost_openmethod_vptr returned it by value for classes using inplace_vptr.
---
 include/boost/openmethod/core.hpp         |  4 ++--
 include/boost/openmethod/inplace_vptr.hpp | 12 +++++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index dd133de..68ae81d 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -521,8 +521,8 @@ constexpr bool is_virtual_ptr = detail::is_virtual_ptr_aux<T>::value;
 
 template<class Class, class Registry>
 constexpr bool has_vptr_fn = std::is_same_v<
-    decltype(boost_openmethod_vptr(
-        std::declval<const Class&>(), std::declval<Registry*>())),
+    std::decay_t<decltype(boost_openmethod_vptr(
+        std::declval<const Class&>(), std::declval<Registry*>()))>,
     vptr_type>;
 
 template<class Registry, class ArgType>
diff --git a/include/boost/openmethod/inplace_vptr.hpp b/include/boost/openmethod/inplace_vptr.hpp
index 25d2eef..adc93e2 100644
--- a/include/boost/openmethod/inplace_vptr.hpp
+++ b/include/boost/openmethod/inplace_vptr.hpp
@@ -56,6 +56,11 @@ inline use_classes<Classes...> inplace_vptr_use_classes;
 
 class inplace_vptr_base_tag {};
 
+// Indirect v-table pointers need the location of the v-table pointer.
+template<class Registry>
+using inplace_vptr_result = std::conditional_t<
+    Registry::has_indirect_vptr, const vptr_type&, vptr_type>;
+
 } // namespace detail
 
 //! Embed a v-table pointer in a class.
@@ -134,8 +139,8 @@ class inplace_vptr_base : protected detail::inplace_vptr_base_tag {
     std::conditional_t<Registry::has_indirect_vptr, const vptr_type*, vptr_type>
         boost_openmethod_vptr = nullptr;
 
-    friend auto
-    boost_openmethod_vptr(const Class& obj, Registry*) noexcept -> vptr_type {
+    friend auto boost_openmethod_vptr(const Class& obj, Registry*) noexcept
+        -> detail::inplace_vptr_result<Registry> {
         if constexpr (Registry::has_indirect_vptr) {
             return *obj.boost_openmethod_vptr;
         } else {
@@ -267,7 +272,8 @@ class inplace_vptr_derived<Class, Base1, Base2, MoreBases...> {
     boost_openmethod_bases(Class*) -> mp11::mp_list<Base1, Base2, MoreBases...>;
     friend auto boost_openmethod_vptr(
         const Class& obj,
-        detail::inplace_vptr_registry<Base1>* registry) -> vptr_type {
+        detail::inplace_vptr_registry<Base1>* registry)
+        -> detail::inplace_vptr_result<detail::inplace_vptr_registry<Base1>> {
         return boost_openmethod_vptr(static_cast<const Base1&>(obj), registry);
     }
 
-- 
2.43.0


From c3f27e7be2077611ecf54d794c8f1047cced4173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:14 +0000
Subject: [PATCH 15/32] fix: assigning a null smart pointer, and errors while
 assigning, to virtual_ptr

Assigning from a const lvalue smart pointer dereferenced it even if it was
null. Assigning an object set the object pointer before the v-table pointer
was acquired, leaving an inconsistent pair if the error handler throws.
---
 include/boost/openmethod/core.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 68ae81d..8c6fdf9 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -928,9 +928,9 @@ class virtual_ptr {
                 IsPolymorphic<Class, Registry> &&
             std::is_assignable_v<Class*&, Other*>>>
     virtual_ptr& operator=(Other& other) {
-        obj = &other;
         vp = detail::box_vptr<use_indirect_vptrs>(
             detail::acquire_vptr<Registry>(other));
+        obj = &other;
         return *this;
     }
 
@@ -978,9 +978,9 @@ class virtual_ptr {
                 IsPolymorphic<Class, Registry> &&
             std::is_assignable_v<Class*&, Other*>>>
     virtual_ptr& operator=(Other* other) {
-        obj = other;
         vp = detail::box_vptr<use_indirect_vptrs>(
             detail::acquire_vptr<Registry>(*other));
+        obj = other;
         return *this;
     }
 
@@ -1518,9 +1518,9 @@ class virtual_ptr<
             BOOST_OPENMETHOD_DETAIL_UNLESS_MRDOCS
                 IsPolymorphic<typename Other::element_type, Registry>>>
     virtual_ptr& operator=(const Other& other) {
-        obj = other;
         vp = detail::box_vptr<use_indirect_vptrs>(
-            detail::acquire_vptr<Registry>(*other));
+            other ? detail::acquire_vptr<Registry>(*other) : detail::null_vptr);
+        obj = other;
         return *this;
     }
 
-- 
2.43.0


From 1c32b38b74b30a50cbe29165bbb417487a3939a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:55 +0000
Subject: [PATCH 16/32] fix: reset v-table pointer when a smart virtual_ptr is
 moved from by cast

---
 include/boost/openmethod/core.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 8c6fdf9..32ef689 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -1762,8 +1762,14 @@ class virtual_ptr<
 
         using other_smart_ptr = typename traits::template rebind<Other>;
 
-        return virtual_ptr<other_smart_ptr, Registry>(
+        virtual_ptr<other_smart_ptr, Registry> result(
             traits::template cast<other_smart_ptr>(std::move(obj)), vp);
+
+        if (!obj) {
+            vp = detail::box_vptr<use_indirect_vptrs>(detail::null_vptr);
+        }
+
+        return result;
     }
 
     //! Construct a `virtual_ptr` from a smart pointer to an object
-- 
2.43.0


From 232e351cc8ba5e15fbd980a7cf7e413ebc3c118d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:55 +0000
Subject: [PATCH 17/32] fix: do not trace the search for a hash function if
 trace is off

---
 include/boost/openmethod/policies/fast_perfect_hash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/policies/fast_perfect_hash.hpp b/include/boost/openmethod/policies/fast_perfect_hash.hpp
index 08c2cb7..e17db9c 100644
--- a/include/boost/openmethod/policies/fast_perfect_hash.hpp
+++ b/include/boost/openmethod/policies/fast_perfect_hash.hpp
@@ -170,8 +170,8 @@ void fast_perfect_hash::fn<Registry>::initialize(
 
     const auto N = std::distance(ctx.classes_begin(), ctx.classes_end());
 
-    if constexpr (mp11::mp_contains<mp11::mp_list<Options...>, trace>::value) {
-        Registry::output::os << "Finding hash factor for " << N << " types\n";
+    if constexpr (InitializeContext::template has_option<trace>) {
+        ctx.tr << "Finding hash factor for " << N << " types\n";
     }
 
     std::default_random_engine rnd(13081963);
-- 
2.43.0


From 97812546184ff4b52579fb6552ed20c1ffe0e648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:55 +0000
Subject: [PATCH 18/32] fix: do not accept the mark of unused hash buckets as a
 registered type_id

---
 include/boost/openmethod/policies/fast_perfect_hash.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/openmethod/policies/fast_perfect_hash.hpp b/include/boost/openmethod/policies/fast_perfect_hash.hpp
index e17db9c..4f55899 100644
--- a/include/boost/openmethod/policies/fast_perfect_hash.hpp
+++ b/include/boost/openmethod/policies/fast_perfect_hash.hpp
@@ -248,7 +248,9 @@ void fast_perfect_hash::fn<Registry>::initialize(
 
 template<class Registry>
 void fast_perfect_hash::fn<Registry>::check(std::size_t index, type_id type) {
+    // Unused buckets are filled with uintptr_max, which cannot be a type_id.
     if (index < min_value || index > max_value ||
+        detail::uintptr(type) == detail::uintptr_max ||
         detail::fast_perfect_hash_control<Registry>[index] != type) {
 
         if constexpr (Registry::has_error_handler) {
-- 
2.43.0


From 33596040c1b3f330c53cabb086ee16e6447f3258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 19/32] fix: final_virtual_ptr reports final_error for type_ids
 of the same class

---
 include/boost/openmethod/core.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 32ef689..4be4e2d 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -601,7 +601,9 @@ inline auto final_virtual_ptr(Arg&& obj) {
         auto static_type = Registry::rtti::template static_type<Class>();
         auto dynamic_type = Registry::rtti::dynamic_type(Traits::peek(obj));
 
-        if (dynamic_type != static_type) {
+        if (dynamic_type != static_type &&
+            Registry::rtti::type_index(dynamic_type) !=
+                Registry::rtti::type_index(static_type)) {
             if constexpr (is_not_void<typename Registry::error_handler>) {
                 final_error error;
                 error.static_type = static_type;
-- 
2.43.0


From 7d3059c32c3460d92c40f5de0d2ae577247f1d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 20/32] fix: report unregistered classes in final_virtual_ptr

---
 include/boost/openmethod/core.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 4be4e2d..55bdcd5 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -575,6 +575,9 @@ inline vptr_type null_vptr = nullptr;
 //! @li @ref final_error The static and dynamic types of the object are
 //! different.
 //!
+//! @li @ref missing_class The class is not registered (only if runtime checks
+//! are enabled).
+//!
 //! @tparam Registry A @ref registry.
 //! @tparam Arg The type of the argument.
 //! @param obj A reference to an object.
@@ -616,6 +619,19 @@ inline auto final_virtual_ptr(Arg&& obj) {
     }
 
     const vptr_type& vptr = Registry::template static_vptr<Class>;
+
+    if constexpr (Registry::has_runtime_checks) {
+        if (!vptr) {
+            if constexpr (is_not_void<typename Registry::error_handler>) {
+                missing_class error;
+                error.type = Registry::rtti::template static_type<Class>();
+                Registry::error_handler::error(error);
+            }
+
+            abort();
+        }
+    }
+
     BOOST_ASSERT(vptr);
 
     return VirtualPtr(
-- 
2.43.0


From 0a08909d0f2afe2c97c4d8e522ce7a9c2413be1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:25 +0000
Subject: [PATCH 21/32] fix: smart virtual_ptr assignments touch the old
 object's virtual_ptrs last

---
 include/boost/openmethod/core.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 55bdcd5..3b32c52 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -1498,8 +1498,8 @@ class virtual_ptr<
     //!
     //! @param value A `nullptr`.
     virtual_ptr& operator=(std::nullptr_t) {
-        obj = SmartPtr();
         vp = detail::box_vptr<use_indirect_vptrs>(detail::null_vptr);
+        obj = SmartPtr();
         return *this;
     }
 
@@ -1619,8 +1619,8 @@ class virtual_ptr<
                 SameSmartPtr<SmartPtr, Other, Registry> &&
             std::is_assignable_v<SmartPtr, Other&>>>
     virtual_ptr& operator=(virtual_ptr<Other, Registry>& other) {
-        obj = other.obj;
         vp = other.vp;
+        obj = other.obj;
         return *this;
     }
 
@@ -1663,8 +1663,8 @@ class virtual_ptr<
                 SameSmartPtr<SmartPtr, Other, Registry> &&
             std::is_assignable_v<SmartPtr, const Other&>>>
     virtual_ptr& operator=(const virtual_ptr<Other, Registry>& other) {
-        obj = other.obj;
         vp = other.vp;
+        obj = other.obj;
         return *this;
     }
 
-- 
2.43.0


From 451854cbe46c0542a19796af094b6e348d748473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:13 +0000
Subject: [PATCH 22/32] fix: accept overriders with the same const virtual_ptr&
 parameter as the method

---
 include/boost/openmethod/core.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 3b32c52..f2bb55e 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -2688,6 +2688,11 @@ template<class T, class R>
 struct validate_overrider_parameter<virtual_ptr<T, R>, virtual_ptr<T, R>, void>
     : std::true_type {};
 
+template<class T, class R>
+struct validate_overrider_parameter<
+    const virtual_ptr<T, R>&, const virtual_ptr<T, R>&, void> : std::true_type {
+};
+
 template<class T1, class R, class T2, class R2>
 struct validate_overrider_parameter<
     virtual_ptr<T1, R>, virtual_ptr<T2, R2>, void> : std::true_type {
-- 
2.43.0


From 81e064f4c414d460e89debb4882a871936b24d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:36 +0000
Subject: [PATCH 23/32] fix: final_virtual_ptr reports classes that are not
 registered any more

---
 include/boost/openmethod/core.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index f2bb55e..92106d4 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -621,6 +621,13 @@ inline auto final_virtual_ptr(Arg&& obj) {
     const vptr_type& vptr = Registry::template static_vptr<Class>;
 
     if constexpr (Registry::has_runtime_checks) {
+        if constexpr (
+            Registry::has_vptr &&
+            Registry::rtti::template is_polymorphic<Class>) {
+            // static_vptr is stale if the class was unregistered.
+            (void)detail::acquire_vptr<Registry>(Traits::peek(obj));
+        }
+
         if (!vptr) {
             if constexpr (is_not_void<typename Registry::error_handler>) {
                 missing_class error;
-- 
2.43.0


From c60733faf1831374dd4c99dd3d490603383d7800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:27 +0000
Subject: [PATCH 24/32] fix: cast pointer arguments with the rtti policy's
 dynamic_cast_ref

---
 include/boost/openmethod/core.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 92106d4..ac87978 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -331,7 +331,8 @@ struct virtual_traits<Class*, Registry> {
         static_assert(std::is_pointer_v<Derived>);
 
         if constexpr (detail::requires_dynamic_cast<Class*, Derived>) {
-            return dynamic_cast<Derived>(ptr);
+            return &Registry::rtti::template dynamic_cast_ref<
+                std::remove_pointer_t<Derived>&>(*ptr);
         } else {
             return static_cast<Derived>(ptr);
         }
-- 
2.43.0


From d5aa8aa5ebd1c96a6b1011a6943d90dc1157a865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:27 +0000
Subject: [PATCH 25/32] fix: accept non-virtual rvalue reference parameters

---
 include/boost/openmethod/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index ac87978..fec175a 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -2036,7 +2036,7 @@ struct parameter_traits {
 
     template<typename>
     static auto cast(T value) -> T {
-        return value;
+        return std::forward<T>(value);
     }
 };
 
-- 
2.43.0


From 7a906fbb54d3d0eb2efb71da733455c8ae7c9e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 26/32] fix: describe a failed hash search in one line

---
 include/boost/openmethod/policies/fast_perfect_hash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/policies/fast_perfect_hash.hpp b/include/boost/openmethod/policies/fast_perfect_hash.hpp
index 4f55899..f751b74 100644
--- a/include/boost/openmethod/policies/fast_perfect_hash.hpp
+++ b/include/boost/openmethod/policies/fast_perfect_hash.hpp
@@ -265,8 +265,8 @@ void fast_perfect_hash::fn<Registry>::check(std::size_t index, type_id type) {
 
 template<class Registry, class Stream>
 auto fast_perfect_hash::search_error::write(Stream& os) const -> void {
-    os << "could not find hash factors after " << attempts << "s using "
-       << buckets << " buckets\n";
+    os << "could not find hash factors after " << attempts
+       << " attempts using " << buckets << " buckets";
 }
 
 } // namespace policies
-- 
2.43.0


From 09d4dc4c01014e5dae11a30b1d88a67647aadd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 27/32] fix: use dynamic_cast for unique_ptr and const
 shared_ptr& arguments only if required

---
 include/boost/openmethod/interop/std_shared_ptr.hpp | 3 ++-
 include/boost/openmethod/interop/std_unique_ptr.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/interop/std_shared_ptr.hpp b/include/boost/openmethod/interop/std_shared_ptr.hpp
index d0ac4f9..9153e31 100644
--- a/include/boost/openmethod/interop/std_shared_ptr.hpp
+++ b/include/boost/openmethod/interop/std_shared_ptr.hpp
@@ -174,7 +174,8 @@ struct virtual_traits<const std::shared_ptr<Class>&, Registry> {
         } else {
             using namespace boost::openmethod::detail;
 
-            if constexpr (requires_dynamic_cast<Class*, Other>) {
+            if constexpr (requires_dynamic_cast<
+                              Class*, decltype(std::declval<Other>().get())>) {
                 return std::dynamic_pointer_cast<
                     typename shared_ptr_cast_traits<Other>::virtual_type>(obj);
             } else {
diff --git a/include/boost/openmethod/interop/std_unique_ptr.hpp b/include/boost/openmethod/interop/std_unique_ptr.hpp
index bcda19f..bc0be82 100644
--- a/include/boost/openmethod/interop/std_unique_ptr.hpp
+++ b/include/boost/openmethod/interop/std_unique_ptr.hpp
@@ -40,7 +40,8 @@ struct virtual_traits<std::unique_ptr<Class>, Registry> {
     //! @return A `std::unique_ptr<Derived::element_type>`.
     template<typename Derived>
     static auto cast(std::unique_ptr<Class>&& ptr) {
-        if constexpr (detail::requires_dynamic_cast<Class&, Derived&>) {
+        if constexpr (detail::requires_dynamic_cast<
+                          Class&, typename Derived::element_type&>) {
             auto p = &Registry::rtti::template dynamic_cast_ref<
                 typename Derived::element_type&>(*ptr);
             // coverity[alloc_fn]
-- 
2.43.0


From 5d8e6f9552d4a332395126c92de98d75e9e6cbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 28/32] fix: static_vptr of a class that is not registered any
 more is null

---
 include/boost/openmethod/core.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index fec175a..e360029 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -372,6 +372,15 @@ struct use_class_aux<Registry, mp11::mp_list<Class, Bases...>>
 
     ~use_class_aux() {
         Registry::classes.remove(*this);
+
+        for (auto& other : Registry::classes) {
+            if (other.static_vptr == this->static_vptr) {
+                return;
+            }
+        }
+
+        // The class is no longer registered.
+        Registry::template static_vptr<Class> = nullptr;
     }
 };
 
-- 
2.43.0


From 17c86a7a6c7fbe134d0859ae21e42c6397f78aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 29/32] fix: const rvalue reference virtual parameters
 designate the unqualified class

---
 include/boost/openmethod/core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index e360029..475eec8 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -277,8 +277,8 @@ struct virtual_traits<Class&, Registry> {
 //! @tparam Registry A @ref registry.
 template<class Class, class Registry>
 struct virtual_traits<Class&&, Registry> {
-    //! Same as `Class`.
-    using virtual_type = Class;
+    //! `Class`, stripped from cv-qualifiers.
+    using virtual_type = std::remove_cv_t<Class>;
 
     //! Return a reference to a non-modifiable `Class` object.
     //! @param arg A reference to a non-modifiable `Class` object.
-- 
2.43.0


From 0436cb02bd47e37f64b690640a8c31c4347b28b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:16 +0000
Subject: [PATCH 30/32] fix: with<> adds a policy a second time if the registry
 already contains it

---
 include/boost/openmethod/preamble.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/boost/openmethod/preamble.hpp b/include/boost/openmethod/preamble.hpp
index 39b82c6..cbdc261 100644
--- a/include/boost/openmethod/preamble.hpp
+++ b/include/boost/openmethod/preamble.hpp
@@ -831,14 +831,12 @@ struct with_aux<Policies> {
 
 template<class Policies, class Policy, class... MorePolicies>
 struct with_aux<Policies, Policy, MorePolicies...> {
-    using replace = mp11::mp_replace_if_q<
-        Policies,
-        mp11::mp_bind_front_q<
-            mp11::mp_quote_trait<std::is_base_of>, typename Policy::category>,
-        Policy>;
+    using in_category = mp11::mp_bind_front_q<
+        mp11::mp_quote_trait<std::is_base_of>, typename Policy::category>;
     using replace_or_add = std::conditional_t<
-        std::is_same_v<replace, Policies>, mp11::mp_push_back<Policies, Policy>,
-        replace>;
+        mp11::mp_any_of_q<Policies, in_category>::value,
+        mp11::mp_replace_if_q<Policies, in_category, Policy>,
+        mp11::mp_push_back<Policies, Policy>>;
     using type = typename with_aux<replace_or_add, MorePolicies...>::type;
 };
 
-- 
2.43.0


From 669a3c9b8fb25a25ed262b45e696271c7d413209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:16 +0000
Subject: [PATCH 31/32] fix: trace requires the output stream to accept
 pointers to functions

---
 include/boost/openmethod/initialize.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index e9ed8b4..dc8f8d3 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -322,7 +322,14 @@ template<class Compiler, typename T>
 auto operator<<(trace_stream<Compiler>& tr, const T& value) -> auto& {
     if constexpr (Compiler::has_trace) {
         if (tr.on) {
-            Compiler::Registry::output::os << value;
+            if constexpr (std::is_same_v<T, void (*)()>) {
+                // LightweightOutputStream does not require an operator<< for
+                // pointers to functions.
+                Compiler::Registry::output::os
+                    << reinterpret_cast<const void*>(value);
+            } else {
+                Compiler::Registry::output::os << value;
+            }
         }
     }
     return tr;
-- 
2.43.0


From 162fae78f076fa3650ab7395d6a93c4beb2482dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:27 +0000
Subject: [PATCH 32/32] fix: a virtual_ptr made through a boost_openmethod_vptr
 that returns by value dangles if the registry has indirect_vptr

---
 include/boost/openmethod/core.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 475eec8..c68fbe3 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -555,6 +555,15 @@ inline auto box_vptr(const vptr_type& vp) {
     }
 }
 
+template<bool Indirect>
+inline auto box_vptr(vptr_type&& vp) {
+    static_assert(
+        !Indirect,
+        "boost_openmethod_vptr must return a reference to a static v-table "
+        "pointer if the registry contains indirect_vptr");
+    return vp;
+}
+
 inline auto unbox_vptr(vptr_type vp) {
     return vp;
 }
-- 
2.43.0

