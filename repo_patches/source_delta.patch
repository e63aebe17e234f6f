From 46e5d180ac10123e57778ec961a121891191d61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:00 +0000
Subject: [PATCH 01/26] fix: complete the transitive bases of classes
 registered before their bases

---
 include/boost/openmethod/initialize.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index b9d5672..55feb2d 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -599,7 +599,8 @@ void registry<Policies...>::compiler<Options...>::augment_classes() {
     }
 
     // At this point bases may contain duplicates, and also indirect
-    // bases. Clean that up.
+    // bases. They may also lack indirect bases, if a base class was registered
+    // after the derived class. Clean that up.
 
     std::size_t mark = ++class_mark;
 
@@ -607,11 +608,19 @@ void registry<Policies...>::compiler<Options...>::augment_classes() {
         decltype(rtc.transitive_bases) bases;
         mark = ++class_mark;
 
-        for (auto rtb : rtc.transitive_bases) {
-            if (rtb->mark != mark) {
-                bases.push_back(rtb);
-                rtb->mark = mark;
+        auto add_bases = [&bases, mark](const class_& cls) {
+            for (auto rtb : cls.transitive_bases) {
+                if (rtb->mark != mark) {
+                    bases.push_back(rtb);
+                    rtb->mark = mark;
+                }
             }
+        };
+
+        add_bases(rtc);
+
+        for (std::size_t i = 0; i < bases.size(); ++i) {
+            add_bases(*bases[i]);
         }
 
         rtc.transitive_bases.swap(bases);
-- 
2.43.0


From df2e10618d6c29f4f540ab424408d17f1a1f451d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:00 +0000
Subject: [PATCH 02/26] fix: make the selection of dominant overriders
 independent of their order

---
 include/boost/openmethod/initialize.hpp | 32 ++++++++++++++++---------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 55feb2d..3860dbe 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1432,20 +1432,30 @@ void registry<Policies...>::compiler<Options...>::select_dominant_overriders(
     pick = 0;
     remaining = 0;
 
+    // "More specific" is not transitive when multiple inheritance is involved.
+    // Compare all the candidates with each other before discarding any of them,
+    // otherwise the outcome would depend on the order of registration.
+    std::vector<overrider*> dominants(candidates.size());
+
     for (size_t i = 0; i < candidates.size(); ++i) {
-        if (candidates[i]) {
-            for (size_t j = i + 1; j < candidates.size(); ++j) {
-                if (candidates[j]) {
-                    if (is_more_specific(candidates[i], candidates[j])) {
-                        candidates[j] = nullptr;
-                    } else if (is_more_specific(candidates[j], candidates[i])) {
-                        candidates[i] = nullptr;
-                        break; // this one is dead
-                    }
-                }
-            }
+        if (candidates[i] &&
+            std::none_of(
+                candidates.begin(), candidates.end(), [&](auto other) {
+                    return other && is_more_specific(other, candidates[i]);
+                })) {
+            dominants[i] = candidates[i];
+            ++remaining;
         }
+    }
+
+    if (remaining) {
+        candidates.swap(dominants);
+    }
+    // else every candidate, if any, is dominated by another one: it is a tie.
 
+    remaining = 0;
+
+    for (size_t i = 0; i < candidates.size(); ++i) {
         if (candidates[i]) {
             pick = i;
             ++remaining;
-- 
2.43.0


From 332767c42f2d399f244ba0da619771115d085d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:00 +0000
Subject: [PATCH 03/26] fix: select 'next' among the overriders that accept the
 same arguments

---
 include/boost/openmethod/initialize.hpp | 106 ++++++++++++------------
 1 file changed, 51 insertions(+), 55 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 3860dbe..7339c81 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -420,6 +420,7 @@ struct registry<Policies...>::compiler : detail::generic_compiler {
         method& m, std::size_t dim,
         std::vector<group_map>::const_iterator group, const bitvec& candidates,
         bool concrete);
+    void select_next_overriders(method& m);
     void write_global_data();
     void print(const method_report& report) const;
     static void select_dominant_overriders(
@@ -1108,6 +1109,7 @@ void registry<Policies...>::compiler<Options...>::build_dispatch_tables() {
             bitvec all(m.overriders.size());
             all = ~all;
             build_dispatch_table(m, dims - 1, groups.end() - 1, all, true);
+            select_next_overriders(m);
 
             if (m.arity() > 1) {
                 indent _(tr);
@@ -1220,74 +1222,68 @@ void registry<Policies...>::compiler<Options...>::build_dispatch_table(
                 }
 
                 tr << "\n";
+            }
+        } else {
+            build_dispatch_table(
+                m, dim - 1, group_iter - 1, mask,
+                concrete && group.has_concrete_classes);
+        }
 
-                // -------------------------------------------------------------
-                // next
+        ++group_index;
+    }
+}
 
-                // First remove the dominant overriders from the overriders.
-                // Note that the dominants appear in the overriders in the same
-                // relative order.
-                auto candidate = overriders.begin();
-                remaining = 0;
+template<class... Policies>
+template<class... Options>
+void registry<Policies...>::compiler<Options...>::select_next_overriders(
+    method& m) {
+    using namespace detail;
 
-                for (auto dominant : dominants) {
-                    if (*candidate == dominant) {
-                        *candidate = nullptr;
-                    } else {
-                        ++remaining;
-                    }
+    ++tr << "selecting 'next' overriders\n";
+    indent _(tr);
 
-                    ++candidate;
-                }
+    for (auto& overrider : m.overriders) {
+        // 'next' is called with the arguments received by 'overrider': only
+        // consider overriders that accept all of them.
+        std::vector<generic_compiler::overrider*> candidates;
 
-                if (remaining == 0) {
-                    ++tr << "no 'next'\n";
-                    overrider->next = &m.not_implemented;
-                } else {
-                    if constexpr (has_trace) {
-                        ++tr << "for 'next', select best of:\n";
-                        indent _(tr);
-
-                        for (auto& app : overriders) {
-                            if (app) {
-                                ++tr << "#" << app->spec_index << " "
-                                     << type_name(app->info->type) << "\n";
-                            }
-                        }
-                    }
+        for (auto& candidate : m.overriders) {
+            if (is_base(&candidate, &overrider)) {
+                candidates.push_back(&candidate);
+            }
+        }
 
-                    select_dominant_overriders(overriders, pick, remaining);
+        ++tr << "#" << overrider.spec_index << " "
+             << type_name(overrider.info->type) << " -> ";
 
-                    if constexpr (!has_option<n2216>) {
-                        if (remaining > 1) {
-                            ++tr << "ambiguous 'next'\n";
-                            overrider->next = &m.ambiguous;
-                            continue;
-                        }
-                    }
+        std::size_t pick, remaining;
+        select_dominant_overriders(candidates, pick, remaining);
 
-                    auto next_overrider = overriders[pick];
-                    overrider->next = next_overrider;
+        if (remaining == 0) {
+            tr << "none\n";
+            overrider.next = &m.not_implemented;
+            continue;
+        }
 
-                    ++tr << "-> #" << next_overrider->spec_index << " "
-                         << type_name(next_overrider->info->type)
-                         << " pf = " << next_overrider->info->pf;
+        if constexpr (!has_option<n2216>) {
+            if (remaining > 1) {
+                tr << "ambiguous\n";
+                overrider.next = &m.ambiguous;
+                continue;
+            }
+        }
 
-                    if (remaining > 1) {
-                        tr << " (ambiguous)";
-                        // do not increment m.report.ambiguous, for same reason
-                    }
+        overrider.next = candidates[pick];
+        tr << "#" << overrider.next->spec_index << " "
+           << type_name(overrider.next->info->type)
+           << " pf = " << overrider.next->info->pf;
 
-                    tr << "\n";
-                }
-            }
-        } else {
-            build_dispatch_table(
-                m, dim - 1, group_iter - 1, mask,
-                concrete && group.has_concrete_classes);
+        if (remaining > 1) {
+            tr << " (ambiguous)";
+            // do not increment m.report.ambiguous, it is about calls
         }
 
-        ++group_index;
+        tr << "\n";
     }
 }
 
-- 
2.43.0


From 4a1507abb805c1f6a80b7dfe44451529ca8d1cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:00 +0000
Subject: [PATCH 04/26] fix: do not dereference a discarded candidate when
 comparing return types

---
 include/boost/openmethod/initialize.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 7339c81..1bf5989 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1478,6 +1478,7 @@ void registry<Policies...>::compiler<Options...>::select_dominant_overriders(
                         if (candidates[i]->covariant_return_type->is_base_of(
                                 candidates[j]->covariant_return_type)) {
                             candidates[i] = nullptr;
+                            break; // this one is dead
                         } else if (candidates[j]
                                        ->covariant_return_type->is_base_of(
                                            candidates[i]
-- 
2.43.0


From c67149c268635221fefe1202156532b3cbd8ade7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:00 +0000
Subject: [PATCH 05/26] fix: leave the registry uninitialized when installing
 its tables fails

---
 include/boost/openmethod/initialize.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 1bf5989..3014da8 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -450,6 +450,9 @@ void registry<Policies...>::compiler<Options...>::install_global_tables() {
         abort();
     }
 
+    // The tables are overwritten in place. If that fails, they are not usable.
+    registry<Policies...>::initialized = false;
+
     write_global_data();
 
     print(report);
-- 
2.43.0


From bc6bad8e4430be7f2e7cceac891480fe76efb11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:00 +0000
Subject: [PATCH 06/26] fix: do not swap base and derived in missing_base

---
 include/boost/openmethod/initialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 3014da8..cd314b8 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -855,8 +855,8 @@ void registry<Policies...>::compiler<Options...>::augment_methods() {
 
                 if (!vp->is_base_of(overrider.vp[param_index])) {
                     missing_base error;
-                    error.base = overrider.vp[param_index]->type_ids[0];
-                    error.derived = vp->type_ids[0];
+                    error.base = vp->type_ids[0];
+                    error.derived = overrider.vp[param_index]->type_ids[0];
 
                     if constexpr (has_error_handler) {
                         error_handler::error(error);
-- 
2.43.0


From a4042b8ba7b7d293496b8e51ce366d2b3d6f97e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 07/26] fix: report only the virtual arguments in bad_call

---
 include/boost/openmethod/core.hpp | 45 +++++++++++++++----------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 7c2d383..a0c1398 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -1967,35 +1967,32 @@ using overrider_virtual_types = boost::mp11::mp_remove<
         MethodParameters, OverriderParameters>,
     void>;
 
-template<class Method, class Rtti, std::size_t Index>
+// Record the types of the virtual arguments. Parameters is the list of the
+// parameters that have not been processed yet.
+template<class Method, class Rtti, class Parameters, std::size_t Index>
 struct init_bad_call {
     template<typename Arg, typename... Args>
     static auto fn(bad_call& error, const Arg& arg, const Args&... args) {
-        if constexpr (Index == 0u) {
-            error.method = Rtti::template static_type<Method>();
-            error.arity = sizeof...(args) + 1;
-        }
-
-        type_id arg_type_id;
+        using Rest = boost::mp11::mp_rest<Parameters>;
+
+        if constexpr (is_virtual<boost::mp11::mp_first<Parameters>>::value) {
+            if constexpr (Index < bad_call::max_types) {
+                if constexpr (is_virtual_ptr<Arg>) {
+                    error.types[Index] = Rtti::dynamic_type(*arg);
+                } else {
+                    error.types[Index] = Rtti::dynamic_type(arg);
+                }
+            }
 
-        if constexpr (is_virtual_ptr<Arg>) {
-            arg_type_id = Rtti::dynamic_type(*arg);
+            init_bad_call<Method, Rtti, Rest, Index + 1>::fn(error, args...);
         } else {
-            arg_type_id = Rtti::dynamic_type(arg);
+            init_bad_call<Method, Rtti, Rest, Index>::fn(error, args...);
         }
-
-        error.types[Index] = arg_type_id;
-
-        init_bad_call<Method, Rtti, Index + 1>::fn(error, args...);
-    }
-
-    static auto fn(bad_call&) {
     }
-};
 
-template<class Method, class Rtti>
-struct init_bad_call<Method, Rtti, bad_call::max_types> {
-    static auto fn(bad_call&) {
+    static auto fn(bad_call& error) {
+        error.method = Rtti::template static_type<Method>();
+        error.arity = Index;
     }
 };
 
@@ -2586,7 +2583,8 @@ method<Id, ReturnType(Parameters...), Registry>::fn_not_implemented(
 
     if constexpr (Registry::has_error_handler) {
         no_overrider error;
-        detail::init_bad_call<method, rtti, 0u>::fn(
+        detail::init_bad_call<
+            method, rtti, mp11::mp_list<Parameters...>, 0u>::fn(
             error,
             detail::parameter_traits<Parameters, Registry>::peek(args)...);
         Registry::error_handler::error(error);
@@ -2604,7 +2602,8 @@ method<Id, ReturnType(Parameters...), Registry>::fn_ambiguous(
 
     if constexpr (Registry::has_error_handler) {
         ambiguous_call error;
-        detail::init_bad_call<method, rtti, 0u>::fn(
+        detail::init_bad_call<
+            method, rtti, mp11::mp_list<Parameters...>, 0u>::fn(
             error,
             detail::parameter_traits<Parameters, Registry>::peek(args)...);
         Registry::error_handler::error(error);
-- 
2.43.0


From 7ca7ba2dc46e009b95df87238114f6d008f260b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 08/26] fix: keep object and v-table in step when assigning to
 a virtual_ptr

---
 include/boost/openmethod/core.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index a0c1398..9f26af4 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -928,9 +928,10 @@ class virtual_ptr {
                 IsPolymorphic<Class, Registry> &&
             std::is_assignable_v<Class*&, Other*>>>
     virtual_ptr& operator=(Other& other) {
-        obj = &other;
+        // may throw, do it first
         vp = detail::box_vptr<use_indirect_vptrs>(
             detail::acquire_vptr<Registry>(other));
+        obj = &other;
         return *this;
     }
 
@@ -978,9 +979,10 @@ class virtual_ptr {
                 IsPolymorphic<Class, Registry> &&
             std::is_assignable_v<Class*&, Other*>>>
     virtual_ptr& operator=(Other* other) {
-        obj = other;
+        // may throw, do it first
         vp = detail::box_vptr<use_indirect_vptrs>(
             detail::acquire_vptr<Registry>(*other));
+        obj = other;
         return *this;
     }
 
@@ -1518,9 +1520,10 @@ class virtual_ptr<
             BOOST_OPENMETHOD_DETAIL_UNLESS_MRDOCS
                 IsPolymorphic<typename Other::element_type, Registry>>>
     virtual_ptr& operator=(const Other& other) {
-        obj = other;
+        // may throw, do it first
         vp = detail::box_vptr<use_indirect_vptrs>(
-            detail::acquire_vptr<Registry>(*other));
+            other ? detail::acquire_vptr<Registry>(*other) : detail::null_vptr);
+        obj = other;
         return *this;
     }
 
-- 
2.43.0


From bdd74c77575d42a06466cf245ecd753c72900912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 09/26] fix: allow several type_ids for a class in
 final_virtual_ptr

---
 include/boost/openmethod/core.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 9f26af4..c4422e6 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -601,7 +601,8 @@ inline auto final_virtual_ptr(Arg&& obj) {
         auto static_type = Registry::rtti::template static_type<Class>();
         auto dynamic_type = Registry::rtti::dynamic_type(Traits::peek(obj));
 
-        if (dynamic_type != static_type) {
+        if (Registry::rtti::type_index(dynamic_type) !=
+            Registry::rtti::type_index(static_type)) {
             if constexpr (is_not_void<typename Registry::error_handler>) {
                 final_error error;
                 error.static_type = static_type;
-- 
2.43.0


From 6cfd12a34a636d82f0595294cd19fcc6f361fc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 10/26] fix: do not ignore options passed to initialize as
 lvalues

---
 include/boost/openmethod/initialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index cd314b8..38a2d35 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1640,7 +1640,7 @@ inline auto initialize(Options&&... options) {
         std::abort();
     }
 
-    typename Registry::template compiler<Options...> comp(
+    typename Registry::template compiler<std::decay_t<Options>...> comp(
         std::forward<Options>(options)...);
     comp.initialize();
 
-- 
2.43.0


From f62e41e8964a48625acb21fb3c92beab7edb4af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:26 +0000
Subject: [PATCH 11/26] fix: do not trace the hash factor search when tracing
 is off

---
 include/boost/openmethod/policies/fast_perfect_hash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/policies/fast_perfect_hash.hpp b/include/boost/openmethod/policies/fast_perfect_hash.hpp
index e91f8f8..a272933 100644
--- a/include/boost/openmethod/policies/fast_perfect_hash.hpp
+++ b/include/boost/openmethod/policies/fast_perfect_hash.hpp
@@ -170,8 +170,8 @@ void fast_perfect_hash::fn<Registry>::initialize(
 
     const auto N = std::distance(ctx.classes_begin(), ctx.classes_end());
 
-    if constexpr (mp11::mp_contains<mp11::mp_list<Options...>, trace>::value) {
-        Registry::output::os << "Finding hash factor for " << N << " types\n";
+    if constexpr (InitializeContext::template has_option<trace>) {
+        ctx.tr << "Finding hash factor for " << N << " types\n";
     }
 
     std::default_random_engine rnd(13081963);
-- 
2.43.0


From c7ad65f77948a72d551a73b27a9fa676beb89f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:47 +0000
Subject: [PATCH 12/26] fix: dispatch on virtual parameters that follow a
 non-virtual one

---
 include/boost/openmethod/core.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index c4422e6..dd7d08c 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -2548,13 +2548,17 @@ method<Id, ReturnType(Parameters...), Registry>::resolve_multi_next(
         std::size_t slot = this->slots_strides[VirtualArg];
         std::size_t stride = this->slots_strides[Arity + VirtualArg - 1];
         dispatch = dispatch + vtbl[slot].i * stride;
-    }
 
-    if constexpr (VirtualArg + 1 == Arity) {
-        return *dispatch;
+        if constexpr (VirtualArg + 1 == Arity) {
+            return *dispatch;
+        } else {
+            return resolve_multi_next<
+                VirtualArg + 1, mp_rest<MethodArgList>, MoreArgTypes...>(
+                dispatch, more_args...);
+        }
     } else {
         return resolve_multi_next<
-            VirtualArg + 1, mp_rest<MethodArgList>, MoreArgTypes...>(
+            VirtualArg, mp_rest<MethodArgList>, MoreArgTypes...>(
             dispatch, more_args...);
     }
 }
-- 
2.43.0


From a036bfc0a5789d6f3142d2a05602b88ba08463a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:17 +0000
Subject: [PATCH 13/26] fix: do not set v-table pointers to null when there are
 no methods

---
 include/boost/openmethod/initialize.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 38a2d35..724ee00 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1313,7 +1313,9 @@ void registry<Policies...>::compiler<Options...>::write_global_data() {
         classes.begin(), classes.end(), dispatch_data_size,
         [](auto sum, const auto& cls) { return sum + cls.vtbl.size(); });
 
-    std::vector<detail::word> new_dispatch_data(dispatch_data_size);
+    // Allocate at least one word, so that no v-table pointer is null.
+    std::vector<detail::word> new_dispatch_data(
+        (std::max)(dispatch_data_size, std::size_t(1)));
     auto gv_first = new_dispatch_data.data();
     [[maybe_unused]] auto gv_last = gv_first + dispatch_data_size;
     auto gv_iter = gv_first;
-- 
2.43.0


From 758487c52609d5ae62af95c028f4c8b5db9650f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:17 +0000
Subject: [PATCH 14/26] fix: detect unregistered classes inside the range of
 vptr_vector

---
 .../boost/openmethod/policies/vptr_vector.hpp | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/boost/openmethod/policies/vptr_vector.hpp b/include/boost/openmethod/policies/vptr_vector.hpp
index 1b1a276..c77483a 100644
--- a/include/boost/openmethod/policies/vptr_vector.hpp
+++ b/include/boost/openmethod/policies/vptr_vector.hpp
@@ -85,10 +85,12 @@ struct vptr_vector : vptr {
                 ++size;
             }
 
+            // Forget the pointers set by a previous initialize.
             if constexpr (Registry::has_indirect_vptr) {
-                detail::vptr_vector_indirect_vptrs<Registry>.resize(size);
+                detail::vptr_vector_indirect_vptrs<Registry>.assign(
+                    size, nullptr);
             } else {
-                detail::vptr_vector_vptrs<Registry>.resize(size);
+                detail::vptr_vector_vptrs<Registry>.assign(size, nullptr);
             }
 
             for (auto iter = ctx.classes_begin(); iter != ctx.classes_end();
@@ -123,7 +125,7 @@ struct vptr_vector : vptr {
         //! type id to an index; otherwise, uses the type_id as the index.
         //!
         //! If the registry contains the @ref runtime_checks policy, verifies
-        //! that the index falls within the limits of the vector. If it does
+        //! that the index designates a registered class. If it does
         //! not, and if the registry contains a @ref error_handler policy, calls
         //! its @ref error function with a @ref missing_class value, then
         //! terminates the program with @ref abort.
@@ -141,16 +143,18 @@ struct vptr_vector : vptr {
                 index = std::size_t(dynamic_type);
 
                 if constexpr (Registry::has_runtime_checks) {
-                    std::size_t max_index = 0;
+                    bool registered = false;
 
                     if constexpr (Registry::has_indirect_vptr) {
-                        max_index =
-                            detail::vptr_vector_indirect_vptrs<Registry>.size();
+                        auto& vptrs =
+                            detail::vptr_vector_indirect_vptrs<Registry>;
+                        registered = index < vptrs.size() && vptrs[index];
                     } else {
-                        max_index = detail::vptr_vector_vptrs<Registry>.size();
+                        auto& vptrs = detail::vptr_vector_vptrs<Registry>;
+                        registered = index < vptrs.size() && vptrs[index];
                     }
 
-                    if (index >= max_index) {
+                    if (!registered) {
                         if constexpr (Registry::has_error_handler) {
                             missing_class error;
                             error.type = dynamic_type;
-- 
2.43.0


From fc69ba0df69f1ec2e25e8cc14255ab658580095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:36 +0000
Subject: [PATCH 15/26] fix: do not copy the embedded v-table pointer with the
 object

---
 include/boost/openmethod/inplace_vptr.hpp | 31 +++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/include/boost/openmethod/inplace_vptr.hpp b/include/boost/openmethod/inplace_vptr.hpp
index 0ddf534..02aadf9 100644
--- a/include/boost/openmethod/inplace_vptr.hpp
+++ b/include/boost/openmethod/inplace_vptr.hpp
@@ -150,6 +150,18 @@ class inplace_vptr_base : protected detail::inplace_vptr_base_tag {
         detail::boost_openmethod_update_vptr<Class>(static_cast<Class*>(this));
     }
 
+    //! Set the vptr to `Class`\'s v-table.
+    //!
+    //! The source may be an object of a class derived from `Class`: its vptr is
+    //! not copied.
+    inplace_vptr_base(const inplace_vptr_base&) noexcept : inplace_vptr_base() {
+    }
+
+    //! Do nothing: assigning to an object does not change its class.
+    auto operator=(const inplace_vptr_base&) noexcept -> inplace_vptr_base& {
+        return *this;
+    }
+
     //! Set the vptr to `nullptr`.
     ~inplace_vptr_base() noexcept {
         boost_openmethod_vptr = nullptr;
@@ -186,6 +198,9 @@ class inplace_vptr_derived {
     //! Set the vptr to `Class`\'s v-table.
     inplace_vptr_derived() noexcept;
 
+    //! Set the vptr to `Class`\'s v-table.
+    inplace_vptr_derived(const inplace_vptr_derived&) noexcept;
+
     //! Set the vptr in each base class.
     //!
     //! For each base, set its vptr to the base's v-table.
@@ -224,6 +239,14 @@ class inplace_vptr_derived<Class, Base> {
         boost_openmethod_update_vptr<Class>(static_cast<Class*>(this));
     }
 
+    //! Set the vptr to `Class`\'s v-table.
+    inplace_vptr_derived(const inplace_vptr_derived&) noexcept
+        : inplace_vptr_derived() {
+    }
+
+    auto operator=(const inplace_vptr_derived&) noexcept
+        -> inplace_vptr_derived& = default;
+
     //! Set the vptr in base class.
     ~inplace_vptr_derived() noexcept {
         detail::boost_openmethod_update_vptr<Base>(
@@ -260,6 +283,14 @@ class inplace_vptr_derived<Class, Base1, Base2, MoreBases...> {
         detail::boost_openmethod_update_vptr<Class>(static_cast<Class*>(this));
     }
 
+    //! Set the vptr to `Class`\'s v-table.
+    inplace_vptr_derived(const inplace_vptr_derived&) noexcept
+        : inplace_vptr_derived() {
+    }
+
+    auto operator=(const inplace_vptr_derived&) noexcept
+        -> inplace_vptr_derived& = default;
+
     //! Set the vptr in each base class.
     //!
     //! For each base, set its vptr to the base's v-table.
-- 
2.43.0


From e80e5331fce847437e36ace92ddf94108315f7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:00 +0000
Subject: [PATCH 16/26] fix: virtual_ptr to an object with an embedded v-table
 pointer, with indirect_vptr

---
 include/boost/openmethod/core.hpp         | 13 +++++++++----
 include/boost/openmethod/inplace_vptr.hpp |  6 +++---
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index dd7d08c..e95f500 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -520,10 +520,15 @@ template<typename T>
 constexpr bool is_virtual_ptr = detail::is_virtual_ptr_aux<T>::value;
 
 template<class Class, class Registry>
-constexpr bool has_vptr_fn = std::is_same_v<
-    decltype(boost_openmethod_vptr(
-        std::declval<const Class&>(), std::declval<Registry*>())),
-    vptr_type>;
+using vptr_fn_result = decltype(boost_openmethod_vptr(
+    std::declval<const Class&>(), std::declval<Registry*>()));
+
+// With indirect_vptr, a virtual_ptr stores the address of the result: it must be
+// a reference to the v-table pointer.
+template<class Class, class Registry>
+constexpr bool has_vptr_fn =
+    std::is_same_v<vptr_fn_result<Class, Registry>, vptr_type> ||
+    std::is_same_v<vptr_fn_result<Class, Registry>, const vptr_type&>;
 
 template<class Registry, class ArgType>
 decltype(auto) acquire_vptr(const ArgType& arg) {
diff --git a/include/boost/openmethod/inplace_vptr.hpp b/include/boost/openmethod/inplace_vptr.hpp
index 02aadf9..bc50e79 100644
--- a/include/boost/openmethod/inplace_vptr.hpp
+++ b/include/boost/openmethod/inplace_vptr.hpp
@@ -134,8 +134,8 @@ class inplace_vptr_base : protected detail::inplace_vptr_base_tag {
     std::conditional_t<Registry::has_indirect_vptr, const vptr_type*, vptr_type>
         boost_openmethod_vptr = nullptr;
 
-    friend auto
-    boost_openmethod_vptr(const Class& obj, Registry*) noexcept -> vptr_type {
+    friend auto boost_openmethod_vptr(const Class& obj, Registry*) noexcept
+        -> const vptr_type& {
         if constexpr (Registry::has_indirect_vptr) {
             return *obj.boost_openmethod_vptr;
         } else {
@@ -270,7 +270,7 @@ class inplace_vptr_derived<Class, Base1, Base2, MoreBases...> {
     boost_openmethod_bases(Class*) -> mp11::mp_list<Base1, Base2, MoreBases...>;
     friend auto boost_openmethod_vptr(
         const Class& obj,
-        detail::inplace_vptr_registry<Base1>* registry) -> vptr_type {
+        detail::inplace_vptr_registry<Base1>* registry) -> const vptr_type& {
         return boost_openmethod_vptr(static_cast<const Base1&>(obj), registry);
     }
 
-- 
2.43.0


From 5afbc053a3ce512327bf289effc35aa86450a88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 17/26] fix: override a method for the class of a parameter
 passed by const virtual_ptr reference

---
 include/boost/openmethod/core.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index e95f500..844fad5 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -2679,6 +2679,15 @@ template<class T, class R>
 struct validate_overrider_parameter<virtual_ptr<T, R>, virtual_ptr<T, R>, void>
     : std::true_type {};
 
+template<class T, class R>
+struct validate_overrider_parameter<
+    const virtual_ptr<T, R>&, const virtual_ptr<T, R>&, void> : std::true_type {
+};
+
+template<class T, class R>
+struct validate_overrider_parameter<
+    virtual_ptr<T, R>&&, virtual_ptr<T, R>&&, void> : std::true_type {};
+
 template<class T1, class R, class T2, class R2>
 struct validate_overrider_parameter<
     virtual_ptr<T1, R>, virtual_ptr<T2, R2>, void> : std::true_type {
-- 
2.43.0


From 4530fb9a475b8b6dee33a11f45ce86a8b9d093ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 18/26] fix: assigning a smart virtual_ptr from a member of the
 object it owns

'p = p->next' may destroy the object that 'other' is a member of. Read the
v-table pointer before assigning the smart pointer.
---
 include/boost/openmethod/core.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 844fad5..9d62cb1 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -1610,8 +1610,10 @@ class virtual_ptr<
                 SameSmartPtr<SmartPtr, Other, Registry> &&
             std::is_assignable_v<SmartPtr, Other&>>>
     virtual_ptr& operator=(virtual_ptr<Other, Registry>& other) {
+        // 'other' may be destroyed along with the object we point to
+        auto other_vp = other.vp;
         obj = other.obj;
-        vp = other.vp;
+        vp = other_vp;
         return *this;
     }
 
@@ -1654,8 +1656,10 @@ class virtual_ptr<
                 SameSmartPtr<SmartPtr, Other, Registry> &&
             std::is_assignable_v<SmartPtr, const Other&>>>
     virtual_ptr& operator=(const virtual_ptr<Other, Registry>& other) {
+        // 'other' may be destroyed along with the object we point to
+        auto other_vp = other.vp;
         obj = other.obj;
-        vp = other.vp;
+        vp = other_vp;
         return *this;
     }
 
-- 
2.43.0


From d78c6c3c6929b5f086963631accb10c61cbdcdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 19/26] fix: self-move-assignment of a smart virtual_ptr

The object was retained, but the v-table pointer was reset.
---
 include/boost/openmethod/core.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 9d62cb1..c65eda3 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -1703,9 +1703,11 @@ class virtual_ptr<
                 SameSmartPtr<SmartPtr, Other, Registry> &&
             std::is_assignable_v<SmartPtr, Other&&>>>
     virtual_ptr& operator=(virtual_ptr<Other, Registry>&& other) {
-        vp = std::exchange(
+        // 'other' may be '*this'
+        auto other_vp = std::exchange(
             other.vp, detail::box_vptr<use_indirect_vptrs>(detail::null_vptr));
         obj = std::move(other.obj);
+        vp = other_vp;
 
         return *this;
     }
-- 
2.43.0


From bcfe9645e27482755bee7f46f6765f3e51601f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 20/26] fix: reset the v-table pointer of a smart virtual_ptr
 moved from by cast()

A moved-from virtual_ptr has neither an object nor a v-table.
---
 include/boost/openmethod/core.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index c65eda3..53ebbed 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -1777,8 +1777,15 @@ class virtual_ptr<
 
         using other_smart_ptr = typename traits::template rebind<Other>;
 
-        return virtual_ptr<other_smart_ptr, Registry>(
+        virtual_ptr<other_smart_ptr, Registry> result(
             traits::template cast<other_smart_ptr>(std::move(obj)), vp);
+
+        if (!obj) {
+            // moved: don't leave a v-table pointer without an object
+            vp = detail::box_vptr<use_indirect_vptrs>(detail::null_vptr);
+        }
+
+        return result;
     }
 
     //! Construct a `virtual_ptr` from a smart pointer to an object
-- 
2.43.0


From adf591ee9fb5636658ca02bc89ba8c85d624f065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 21/26] fix: pass non-virtual arguments by rvalue reference

A method with a non-virtual rvalue reference parameter did not compile.
---
 include/boost/openmethod/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 53ebbed..ba84067 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -2030,7 +2030,7 @@ struct parameter_traits {
 
     template<typename>
     static auto cast(T value) -> T {
-        return value;
+        return std::forward<T>(value);
     }
 };
 
-- 
2.43.0


From 763912be9517bbef412e2c22be1992d407179cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:29 +0000
Subject: [PATCH 22/26] fix: use static_cast when possible in the cast of a
 unique_ptr

---
 include/boost/openmethod/interop/std_unique_ptr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/interop/std_unique_ptr.hpp b/include/boost/openmethod/interop/std_unique_ptr.hpp
index bcda19f..bc0be82 100644
--- a/include/boost/openmethod/interop/std_unique_ptr.hpp
+++ b/include/boost/openmethod/interop/std_unique_ptr.hpp
@@ -40,7 +40,8 @@ struct virtual_traits<std::unique_ptr<Class>, Registry> {
     //! @return A `std::unique_ptr<Derived::element_type>`.
     template<typename Derived>
     static auto cast(std::unique_ptr<Class>&& ptr) {
-        if constexpr (detail::requires_dynamic_cast<Class&, Derived&>) {
+        if constexpr (detail::requires_dynamic_cast<
+                          Class&, typename Derived::element_type&>) {
             auto p = &Registry::rtti::template dynamic_cast_ref<
                 typename Derived::element_type&>(*ptr);
             // coverity[alloc_fn]
-- 
2.43.0


From 6197ee31a3f5585b6c51a2068d6a6130fabe0cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:29 +0000
Subject: [PATCH 23/26] fix: use static_pointer_cast when possible in the cast
 of a const shared_ptr&

---
 include/boost/openmethod/interop/std_shared_ptr.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/interop/std_shared_ptr.hpp b/include/boost/openmethod/interop/std_shared_ptr.hpp
index d0ac4f9..040c083 100644
--- a/include/boost/openmethod/interop/std_shared_ptr.hpp
+++ b/include/boost/openmethod/interop/std_shared_ptr.hpp
@@ -174,7 +174,9 @@ struct virtual_traits<const std::shared_ptr<Class>&, Registry> {
         } else {
             using namespace boost::openmethod::detail;
 
-            if constexpr (requires_dynamic_cast<Class*, Other>) {
+            if constexpr (requires_dynamic_cast<
+                              Class*,
+                              decltype(std::declval<Other>().get())>) {
                 return std::dynamic_pointer_cast<
                     typename shared_ptr_cast_traits<Other>::virtual_type>(obj);
             } else {
-- 
2.43.0


From 6bba82f91128616d47483d9189108168cbc33c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:59 +0000
Subject: [PATCH 24/26] fix: search_error reports the number of buckets of the
 last attempt, in one line

---
 include/boost/openmethod/policies/fast_perfect_hash.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/openmethod/policies/fast_perfect_hash.hpp b/include/boost/openmethod/policies/fast_perfect_hash.hpp
index a272933..8deae60 100644
--- a/include/boost/openmethod/policies/fast_perfect_hash.hpp
+++ b/include/boost/openmethod/policies/fast_perfect_hash.hpp
@@ -237,7 +237,7 @@ void fast_perfect_hash::fn<Registry>::initialize(
 
     search_error error;
     error.attempts = total_attempts;
-    error.buckets = std::size_t(1) << M;
+    error.buckets = buckets.size();
 
     if constexpr (Registry::has_error_handler) {
         Registry::error_handler::error(error);
@@ -263,8 +263,8 @@ void fast_perfect_hash::fn<Registry>::check(std::size_t index, type_id type) {
 
 template<class Registry, class Stream>
 auto fast_perfect_hash::search_error::write(Stream& os) const -> void {
-    os << "could not find hash factors after " << attempts << "s using "
-       << buckets << " buckets\n";
+    os << "could not find hash factors after " << attempts
+       << " attempts using " << buckets << " buckets";
 }
 
 } // namespace policies
-- 
2.43.0


From d767c077afceb0d053fd8a9a9ba59329d6ebe948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:10 +0000
Subject: [PATCH 25/26] fix: finalize releases the memory allocated by
 initialize

---
 include/boost/openmethod/initialize.hpp                 | 2 +-
 include/boost/openmethod/policies/fast_perfect_hash.hpp | 3 ++-
 include/boost/openmethod/policies/vptr_map.hpp          | 2 +-
 include/boost/openmethod/policies/vptr_vector.hpp       | 6 ++++--
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 724ee00..cb2f607 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1673,7 +1673,7 @@ auto registry<Policies...>::finalize(Options... opts) -> void {
         }
     });
 
-    dispatch_data.clear();
+    std::vector<detail::word>().swap(dispatch_data);
     initialized = false;
 }
 
diff --git a/include/boost/openmethod/policies/fast_perfect_hash.hpp b/include/boost/openmethod/policies/fast_perfect_hash.hpp
index 8deae60..e3c2415 100644
--- a/include/boost/openmethod/policies/fast_perfect_hash.hpp
+++ b/include/boost/openmethod/policies/fast_perfect_hash.hpp
@@ -144,7 +144,8 @@ struct fast_perfect_hash : type_hash {
         //! @param options Zero or more option objects.
         template<class... Options>
         static auto finalize(const std::tuple<Options...>&) -> void {
-            detail::fast_perfect_hash_control<Registry>.clear();
+            std::vector<type_id>().swap(
+                detail::fast_perfect_hash_control<Registry>);
         }
     };
 };
diff --git a/include/boost/openmethod/policies/vptr_map.hpp b/include/boost/openmethod/policies/vptr_map.hpp
index c26e5de..60784d8 100644
--- a/include/boost/openmethod/policies/vptr_map.hpp
+++ b/include/boost/openmethod/policies/vptr_map.hpp
@@ -111,7 +111,7 @@ class vptr_map : public vptr {
         //! @param options A tuple of option objects.
         template<class... Options>
         static auto finalize(const std::tuple<Options...>&) -> void {
-            vptrs.clear();
+            decltype(vptrs)().swap(vptrs);
         }
     };
 };
diff --git a/include/boost/openmethod/policies/vptr_vector.hpp b/include/boost/openmethod/policies/vptr_vector.hpp
index c77483a..074fc11 100644
--- a/include/boost/openmethod/policies/vptr_vector.hpp
+++ b/include/boost/openmethod/policies/vptr_vector.hpp
@@ -183,9 +183,11 @@ struct vptr_vector : vptr {
             using namespace policies;
 
             if constexpr (Registry::has_indirect_vptr) {
-                detail::vptr_vector_indirect_vptrs<Registry>.clear();
+                std::vector<const vptr_type*>().swap(
+                    detail::vptr_vector_indirect_vptrs<Registry>);
             } else {
-                detail::vptr_vector_vptrs<Registry>.clear();
+                std::vector<vptr_type>().swap(
+                    detail::vptr_vector_vptrs<Registry>);
             }
         }
     };
-- 
2.43.0


From 89c79550e5464429e4b29f7465b87755771c109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:21 +0000
Subject: [PATCH 26/26] fix: default_error_handler can be used while static
 variables are initialized

---
 .../openmethod/policies/default_error_handler.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/boost/openmethod/policies/default_error_handler.hpp b/include/boost/openmethod/policies/default_error_handler.hpp
index 342fc7b..c3e241b 100644
--- a/include/boost/openmethod/policies/default_error_handler.hpp
+++ b/include/boost/openmethod/policies/default_error_handler.hpp
@@ -84,7 +84,7 @@ struct default_error_handler : error_handler {
         //! @param error The error object.
         template<class Error>
         static auto error(const Error& error) -> void {
-            handler(error_variant(error));
+            handler()(error_variant(error));
         }
 
         //! Sets the function to be called to handle errors.
@@ -96,7 +96,7 @@ struct default_error_handler : error_handler {
         //! @return The previous function.
         // coverity[auto_causes_copy]
         static auto set(function_type new_handler) -> function_type {
-            return std::exchange(handler, std::move(new_handler));
+            return std::exchange(handler(), std::move(new_handler));
         }
 
         //! The default error handler function.
@@ -117,14 +117,15 @@ struct default_error_handler : error_handler {
         }
 
       private:
-        static function_type handler;
+        // Not a static member: errors may occur, and handlers may be set, while
+        // static variables are being initialized.
+        static auto handler() -> function_type& {
+            static function_type fn = default_handler;
+            return fn;
+        }
     };
 };
 
-template<class Registry>
-typename default_error_handler::fn<Registry>::function_type
-    default_error_handler::fn<Registry>::handler = default_handler;
-
 } // namespace boost::openmethod::policies
 
 #endif
-- 
2.43.0

