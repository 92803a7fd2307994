From 27fde942a5018f3cc376e3f33a7d60c398d7d8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 01/13] fix: build U, not T, in polymorphic_cxx14's
 initializer_list constructor

---
 polymorphic_cxx14.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 0849204..08a0964 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -237,7 +237,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
   polymorphic(std::allocator_arg_t, const A& alloc, in_place_type_t<U>,
               std::initializer_list<I> ilist, Ts&&... ts)
       : alloc_base(alloc) {
-    cb_ = create_control_block<T>(ilist, std::forward<Ts>(ts)...);
+    cb_ = create_control_block<U>(ilist, std::forward<Ts>(ts)...);
   }
 
   template <
-- 
2.43.0


From 56585e314d144527fc10d534c5cb120fa1284265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 02/13] fix: test is_always_equal in polymorphic_cxx14's
 extended move constructor

---
 polymorphic_cxx14.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 08a0964..73afc47 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -333,7 +333,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
       std::allocator_arg_t, const A& alloc,
       polymorphic&& other) noexcept(allocator_traits::is_always_equal::value)
       : alloc_base(alloc) {
-    if (allocator_traits::propagate_on_container_copy_assignment::value) {
+    if (allocator_traits::is_always_equal::value) {
       cb_ = other.cb_;
       other.cb_ = nullptr;
     } else {
-- 
2.43.0


From ff1b24660c0f0906ea5380dcfabd292f43d2a263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 03/13] fix: move assignment from a part of the owned object

---
 indirect.h          | 7 +++++--
 indirect_cxx14.h    | 7 +++++--
 polymorphic.h       | 7 +++++--
 polymorphic_cxx14.h | 7 +++++--
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/indirect.h b/indirect.h
index 7869cc4..581c6da 100644
--- a/indirect.h
+++ b/indirect.h
@@ -274,8 +274,11 @@ class indirect {
       reset();
     } else {
       if (alloc_ == other.alloc_) {
-        std::swap(p_, other.p_);
-        other.reset();
+        // `other` may be part of the object we own, so it must be detached
+        // before that object is destroyed and not be used afterwards.
+        auto tmp = std::exchange(other.p_, nullptr);
+        reset();
+        p_ = tmp;
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index c45aeb7..c9e9b1e 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -282,8 +282,11 @@ class indirect : private detail::empty_base_optimization<A> {
       reset();
     } else {
       if (alloc_base::get() == other.alloc_base::get()) {
-        std::swap(p_, other.p_);
-        other.reset();
+        // `other` may be part of the object we own, so it must be detached
+        // before that object is destroyed and not be used afterwards.
+        auto tmp = std::exchange(other.p_, nullptr);
+        reset();
+        p_ = tmp;
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
diff --git a/polymorphic.h b/polymorphic.h
index a32be6d..408dde6 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -317,8 +317,11 @@ class polymorphic {
       reset();
     } else {
       if (alloc_ == other.alloc_) {
-        std::swap(cb_, other.cb_);
-        other.reset();
+        // `other` may be part of the object we own, so it must be detached
+        // before that object is destroyed and not be used afterwards.
+        auto tmp = std::exchange(other.cb_, nullptr);
+        reset();
+        cb_ = tmp;
       } else {
         // Constructing a new control block could throw so we need to defer
         // resetting or updating allocators until this is done.
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 73afc47..a59315d 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -396,8 +396,11 @@ class polymorphic : private detail::empty_base_optimization<A> {
       reset();
     } else {
       if (alloc_base::get() == other.alloc_base::get()) {
-        std::swap(cb_, other.cb_);
-        other.reset();
+        // `other` may be part of the object we own, so it must be detached
+        // before that object is destroyed and not be used afterwards.
+        auto tmp = std::exchange(other.cb_, nullptr);
+        reset();
+        cb_ = tmp;
       } else {
         // Constructing a new control block could throw so we need to defer
         // resetting or updating allocators until this is done.
-- 
2.43.0


From bd15c18a273365e88b020c02866932e8ca9b1b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 04/13] fix: do not require assignable allocators that do not
 propagate

---
 indirect.h          |  8 ++++----
 indirect_cxx14.h    | 30 +++++++++++++++++++++++-------
 polymorphic.h       |  8 ++++----
 polymorphic_cxx14.h | 30 +++++++++++++++++++++++-------
 4 files changed, 54 insertions(+), 22 deletions(-)

diff --git a/indirect.h b/indirect.h
index 581c6da..379c7f9 100644
--- a/indirect.h
+++ b/indirect.h
@@ -233,7 +233,7 @@ class indirect {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
 
     if (other.valueless_after_move()) {
@@ -251,7 +251,7 @@ class indirect {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
+    if constexpr (update_alloc) {
       alloc_ = other.alloc_;
     }
     return *this;
@@ -267,7 +267,7 @@ class indirect {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
 
     if (other.valueless_after_move()) {
@@ -288,7 +288,7 @@ class indirect {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
+    if constexpr (update_alloc) {
       alloc_ = other.alloc_;
     }
     return *this;
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index c9e9b1e..b1a524d 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -261,9 +261,10 @@ class indirect : private detail::empty_base_optimization<A> {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
-    }
+    assign_alloc(alloc_base::get(), other.alloc_base::get(),
+                 std::integral_constant<
+                     bool, allocator_traits::
+                               propagate_on_container_copy_assignment::value>());
     return *this;
   }
 
@@ -297,9 +298,10 @@ class indirect : private detail::empty_base_optimization<A> {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
-    }
+    assign_alloc(alloc_base::get(), other.alloc_base::get(),
+                 std::integral_constant<
+                     bool, allocator_traits::
+                               propagate_on_container_move_assignment::value>());
     return *this;
   }
 
@@ -358,7 +360,10 @@ class indirect : private detail::empty_base_optimization<A> {
       std::allocator_traits<A>::is_always_equal::value) {
     if (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects we can swap both.
-      std::swap(alloc_base::get(), other.alloc_base::get());
+      swap_alloc(alloc_base::get(), other.alloc_base::get(),
+                 std::integral_constant<
+                     bool,
+                     allocator_traits::propagate_on_container_swap::value>());
       std::swap(p_, other.p_);
       return;
     } else /*  */ {
@@ -549,6 +554,17 @@ class indirect : private detail::empty_base_optimization<A> {
  private:
   pointer p_;
 
+  // Allocators that do not propagate need not be assignable or swappable.
+  static void assign_alloc(A& lhs, const A& rhs, std::true_type) { lhs = rhs; }
+
+  static void assign_alloc(A&, const A&, std::false_type) noexcept {}
+
+  static void swap_alloc(A& lhs, A& rhs, std::true_type) noexcept {
+    std::swap(lhs, rhs);
+  }
+
+  static void swap_alloc(A&, A&, std::false_type) noexcept {}
+
   void reset() noexcept {
     if (p_ == nullptr) return;
     destroy_with(alloc_base::get(), p_);
diff --git a/polymorphic.h b/polymorphic.h
index 408dde6..12ad46e 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -282,7 +282,7 @@ class polymorphic {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
 
     if (other.valueless_after_move()) {
@@ -296,7 +296,7 @@ class polymorphic {
       reset();
       cb_ = tmp;
     }
-    if (update_alloc) {
+    if constexpr (update_alloc) {
       alloc_ = other.alloc_;
     }
     return *this;
@@ -310,7 +310,7 @@ class polymorphic {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
 
     if (other.valueless_after_move()) {
@@ -333,7 +333,7 @@ class polymorphic {
       }
     }
 
-    if (update_alloc) {
+    if constexpr (update_alloc) {
       alloc_ = other.alloc_;
     }
     return *this;
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index a59315d..938df4d 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -375,9 +375,10 @@ class polymorphic : private detail::empty_base_optimization<A> {
       reset();
       cb_ = tmp;
     }
-    if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
-    }
+    assign_alloc(alloc_base::get(), other.alloc_base::get(),
+                 std::integral_constant<
+                     bool, allocator_traits::
+                               propagate_on_container_copy_assignment::value>());
     return *this;
   }
 
@@ -411,9 +412,10 @@ class polymorphic : private detail::empty_base_optimization<A> {
       }
     }
 
-    if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
-    }
+    assign_alloc(alloc_base::get(), other.alloc_base::get(),
+                 std::integral_constant<
+                     bool, allocator_traits::
+                               propagate_on_container_move_assignment::value>());
     return *this;
   }
 
@@ -448,7 +450,10 @@ class polymorphic : private detail::empty_base_optimization<A> {
       std::allocator_traits<A>::is_always_equal::value) {
     if (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects we can swap both.
-      std::swap(alloc_base::get(), other.alloc_base::get());
+      swap_alloc(alloc_base::get(), other.alloc_base::get(),
+                 std::integral_constant<
+                     bool,
+                     allocator_traits::propagate_on_container_swap::value>());
       std::swap(cb_, other.cb_);
       return;
     } else /*  */ {
@@ -466,6 +471,17 @@ class polymorphic : private detail::empty_base_optimization<A> {
   }
 
  private:
+  // Allocators that do not propagate need not be assignable or swappable.
+  static void assign_alloc(A& lhs, const A& rhs, std::true_type) { lhs = rhs; }
+
+  static void assign_alloc(A&, const A&, std::false_type) noexcept {}
+
+  static void swap_alloc(A& lhs, A& rhs, std::true_type) noexcept {
+    std::swap(lhs, rhs);
+  }
+
+  static void swap_alloc(A&, A&, std::false_type) noexcept {}
+
   void reset() noexcept {
     if (cb_ != nullptr) {
       cb_->destroy(alloc_base::get());
-- 
2.43.0


From a32a76e6e0fd3eea75e0d538443edb75b68e812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 05/13] fix: do not read the allocator of an assignment source
 that was released

---
 indirect.h          | 18 ++++++++++++------
 indirect_cxx14.h    | 20 ++++++++++++--------
 polymorphic.h       | 20 ++++++++++++--------
 polymorphic_cxx14.h | 18 ++++++++++++------
 4 files changed, 48 insertions(+), 28 deletions(-)

diff --git a/indirect.h b/indirect.h
index 379c7f9..e0448e0 100644
--- a/indirect.h
+++ b/indirect.h
@@ -236,6 +236,10 @@ class indirect {
     constexpr bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
 
+    // `other` may be part of the object we own and end with it, so its
+    // allocator is copied before anything is released.
+    A alloc(update_alloc ? other.alloc_ : alloc_);
+
     if (other.valueless_after_move()) {
       reset();
     } else {
@@ -245,14 +249,13 @@ class indirect {
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp =
-            construct_from(update_alloc ? other.alloc_ : alloc_, *other.p_);
+        auto tmp = construct_from(alloc, *other.p_);
         reset();
         p_ = tmp;
       }
     }
     if constexpr (update_alloc) {
-      alloc_ = other.alloc_;
+      alloc_ = alloc;
     }
     return *this;
   }
@@ -270,6 +273,10 @@ class indirect {
     constexpr bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
 
+    // `other` may be part of the object we own and end with it, so its
+    // allocator is copied before anything is released.
+    A alloc(update_alloc ? other.alloc_ : alloc_);
+
     if (other.valueless_after_move()) {
       reset();
     } else {
@@ -282,14 +289,13 @@ class indirect {
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp = construct_from(update_alloc ? other.alloc_ : alloc_,
-                                  std::move(*other.p_));
+        auto tmp = construct_from(alloc, std::move(*other.p_));
         reset();
         p_ = tmp;
       }
     }
     if constexpr (update_alloc) {
-      alloc_ = other.alloc_;
+      alloc_ = alloc;
     }
     return *this;
   }
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index b1a524d..80eda7a 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -245,6 +245,10 @@ class indirect : private detail::empty_base_optimization<A> {
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
 
+    // `other` may be part of the object we own and end with it, so its
+    // allocator is copied before anything is released.
+    A alloc(update_alloc ? other.alloc_base::get() : alloc_base::get());
+
     if (other.valueless_after_move()) {
       reset();
     } else {
@@ -254,14 +258,12 @@ class indirect : private detail::empty_base_optimization<A> {
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp = construct_from(
-            update_alloc ? other.alloc_base::get() : alloc_base::get(),
-            *other.p_);
+        auto tmp = construct_from(alloc, *other.p_);
         reset();
         p_ = tmp;
       }
     }
-    assign_alloc(alloc_base::get(), other.alloc_base::get(),
+    assign_alloc(alloc_base::get(), alloc,
                  std::integral_constant<
                      bool, allocator_traits::
                                propagate_on_container_copy_assignment::value>());
@@ -279,6 +281,10 @@ class indirect : private detail::empty_base_optimization<A> {
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
 
+    // `other` may be part of the object we own and end with it, so its
+    // allocator is copied before anything is released.
+    A alloc(update_alloc ? other.alloc_base::get() : alloc_base::get());
+
     if (other.valueless_after_move()) {
       reset();
     } else {
@@ -291,14 +297,12 @@ class indirect : private detail::empty_base_optimization<A> {
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp = construct_from(
-            update_alloc ? other.alloc_base::get() : alloc_base::get(),
-            std::move(*other.p_));
+        auto tmp = construct_from(alloc, std::move(*other.p_));
         reset();
         p_ = tmp;
       }
     }
-    assign_alloc(alloc_base::get(), other.alloc_base::get(),
+    assign_alloc(alloc_base::get(), alloc,
                  std::integral_constant<
                      bool, allocator_traits::
                                propagate_on_container_move_assignment::value>());
diff --git a/polymorphic.h b/polymorphic.h
index 12ad46e..45d44af 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -285,19 +285,21 @@ class polymorphic {
     constexpr bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
 
+    // `other` may be part of the object we own and end with it, so its
+    // allocator is copied before anything is released.
+    A alloc(update_alloc ? other.alloc_ : alloc_);
+
     if (other.valueless_after_move()) {
       reset();
     } else {
       // Constructing a new control block could throw so we need to defer
       // resetting or updating allocators until this is done.
-
-      // Inlining the allocator into the construct_from call confuses LCOV.
-      auto tmp = other.cb_->clone(update_alloc ? other.alloc_ : alloc_);
+      auto tmp = other.cb_->clone(alloc);
       reset();
       cb_ = tmp;
     }
     if constexpr (update_alloc) {
-      alloc_ = other.alloc_;
+      alloc_ = alloc;
     }
     return *this;
   }
@@ -313,6 +315,10 @@ class polymorphic {
     constexpr bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
 
+    // `other` may be part of the object we own and end with it, so its
+    // allocator is copied before anything is released.
+    A alloc(update_alloc ? other.alloc_ : alloc_);
+
     if (other.valueless_after_move()) {
       reset();
     } else {
@@ -325,16 +331,14 @@ class polymorphic {
       } else {
         // Constructing a new control block could throw so we need to defer
         // resetting or updating allocators until this is done.
-
-        // Inlining the allocator into the construct_from call confuses LCOV.
-        auto tmp = other.cb_->move(update_alloc ? other.alloc_ : alloc_);
+        auto tmp = other.cb_->move(alloc);
         reset();
         cb_ = tmp;
       }
     }
 
     if constexpr (update_alloc) {
-      alloc_ = other.alloc_;
+      alloc_ = alloc;
     }
     return *this;
   }
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 938df4d..047d839 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -365,17 +365,20 @@ class polymorphic : private detail::empty_base_optimization<A> {
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
 
+    // `other` may be part of the object we own and end with it, so its
+    // allocator is copied before anything is released.
+    A alloc(update_alloc ? other.alloc_base::get() : alloc_base::get());
+
     if (other.valueless_after_move()) {
       reset();
     } else {
       // Constructing a new control block could throw so we need to defer
       // resetting or updating allocators until this is done.
-      auto tmp = other.cb_->clone(update_alloc ? other.alloc_base::get()
-                                               : alloc_base::get());
+      auto tmp = other.cb_->clone(alloc);
       reset();
       cb_ = tmp;
     }
-    assign_alloc(alloc_base::get(), other.alloc_base::get(),
+    assign_alloc(alloc_base::get(), alloc,
                  std::integral_constant<
                      bool, allocator_traits::
                                propagate_on_container_copy_assignment::value>());
@@ -393,6 +396,10 @@ class polymorphic : private detail::empty_base_optimization<A> {
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
 
+    // `other` may be part of the object we own and end with it, so its
+    // allocator is copied before anything is released.
+    A alloc(update_alloc ? other.alloc_base::get() : alloc_base::get());
+
     if (other.valueless_after_move()) {
       reset();
     } else {
@@ -405,14 +412,13 @@ class polymorphic : private detail::empty_base_optimization<A> {
       } else {
         // Constructing a new control block could throw so we need to defer
         // resetting or updating allocators until this is done.
-        auto tmp = other.cb_->move(update_alloc ? other.alloc_base::get()
-                                                : alloc_base::get());
+        auto tmp = other.cb_->move(alloc);
         reset();
         cb_ = tmp;
       }
     }
 
-    assign_alloc(alloc_base::get(), other.alloc_base::get(),
+    assign_alloc(alloc_base::get(), alloc,
                  std::integral_constant<
                      bool, allocator_traits::
                                propagate_on_container_move_assignment::value>());
-- 
2.43.0


From 748d257c5174b504732c2b00aca35cae9d06c1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 06/13] fix: keep indirect_cxx14's value assignment from
 hijacking copies

---
 indirect_cxx14.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 80eda7a..76efc2b 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -312,7 +312,9 @@ class indirect : private detail::empty_base_optimization<A> {
   template <class U, typename std::enable_if<
                          (std::is_constructible<T, U>::value &&
                           std::is_assignable<T&, U>::value &&
-                          !std::is_same<std::remove_cv_t<U>, indirect>::value),
+                          !std::is_same<typename std::remove_cv<
+                              typename std::remove_reference<U>::type>::type,
+                          indirect>::value),
                          int>::type = 0>
   constexpr indirect& operator=(U&& u) {
     if (valueless_after_move()) {
-- 
2.43.0


From ef284ec2c1a5e966fca3fc36423966eb79f0ac2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 07/13] fix: let copy assignment follow is_copy_assignable as
 documented

---
 indirect.h       | 6 ++++--
 indirect_cxx14.h | 7 ++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/indirect.h b/indirect.h
index e0448e0..7394ca5 100644
--- a/indirect.h
+++ b/indirect.h
@@ -243,9 +243,11 @@ class indirect {
     if (other.valueless_after_move()) {
       reset();
     } else {
-      if (std::assignable_from<T&, T> && !valueless_after_move() &&
+      if (std::is_copy_assignable_v<T> && !valueless_after_move() &&
           alloc_ == other.alloc_) {
-        *p_ = *other;
+        if constexpr (std::is_copy_assignable_v<T>) {
+          *p_ = *other;
+        }
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 76efc2b..24d608f 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -254,7 +254,7 @@ class indirect : private detail::empty_base_optimization<A> {
     } else {
       if (std::is_copy_assignable<T>::value && !valueless_after_move() &&
           alloc_base::get() == other.alloc_base::get()) {
-        *p_ = *other;
+        assign_value(*p_, *other, std::is_copy_assignable<T>());
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
@@ -571,6 +571,11 @@ class indirect : private detail::empty_base_optimization<A> {
 
   static void swap_alloc(A&, A&, std::false_type) noexcept {}
 
+  // T need not be copy-assignable.
+  static void assign_value(T& lhs, const T& rhs, std::true_type) { lhs = rhs; }
+
+  static void assign_value(T&, const T&, std::false_type) noexcept {}
+
   void reset() noexcept {
     if (p_ == nullptr) return;
     destroy_with(alloc_base::get(), p_);
-- 
2.43.0


From c4539076ce6fe32807fb5f6d0118bb24178e17ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 08/13] fix: constrain value assignment on is_assignable as
 documented

---
 indirect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indirect.h b/indirect.h
index 7394ca5..b66dd88 100644
--- a/indirect.h
+++ b/indirect.h
@@ -305,7 +305,7 @@ class indirect {
   template <class U>
   constexpr indirect& operator=(U&& u)
     requires(!std::same_as<std::remove_cvref_t<U>, indirect> &&
-             std::constructible_from<T, U> && std::assignable_from<T&, U>)
+             std::constructible_from<T, U> && std::is_assignable_v<T&, U>)
   {
     if (valueless_after_move()) {
       p_ = construct_from(alloc_, std::forward<U>(u));
-- 
2.43.0


From 48cd2371b786a7949c2902be5d6065dd05f1a2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 09/13] fix: copy polymorphic's owned object as const

---
 polymorphic.h       | 4 ++--
 polymorphic_cxx14.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/polymorphic.h b/polymorphic.h
index 45d44af..2090d83 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -55,7 +55,7 @@ class polymorphic {
 
     virtual constexpr ~control_block() = default;
     virtual constexpr void destroy(A& alloc) = 0;
-    virtual constexpr control_block* clone(const A& alloc) = 0;
+    virtual constexpr control_block* clone(const A& alloc) const = 0;
     virtual constexpr control_block* move(const A& alloc) = 0;
   };
 
@@ -82,7 +82,7 @@ class polymorphic {
       control_block::p_ = std::addressof(storage_.u_);
     }
 
-    constexpr control_block* clone(const A& alloc) override {
+    constexpr control_block* clone(const A& alloc) const override {
       cb_allocator cb_alloc(alloc);
       auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
       try {
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 047d839..6fd07bd 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -110,7 +110,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
 
     virtual ~control_block() = default;
     virtual void destroy(A& alloc) = 0;
-    virtual control_block* clone(const A& alloc) = 0;
+    virtual control_block* clone(const A& alloc) const = 0;
     virtual control_block* move(const A& alloc) = 0;
   };
 
@@ -137,7 +137,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
       control_block::p_ = std::addressof(storage_.u_);
     }
 
-    control_block* clone(const A& alloc) override {
+    control_block* clone(const A& alloc) const override {
       cb_allocator cb_alloc(alloc);
       auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
       try {
-- 
2.43.0


From a20ccdc76de29396bf0616c85b3d4dd9d56692e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 10/13] fix: copy indirect's owned object as const in
 assignment

---
 indirect.h       | 2 +-
 indirect_cxx14.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/indirect.h b/indirect.h
index b66dd88..9a34877 100644
--- a/indirect.h
+++ b/indirect.h
@@ -251,7 +251,7 @@ class indirect {
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp = construct_from(alloc, *other.p_);
+        auto tmp = construct_from(alloc, *other);
         reset();
         p_ = tmp;
       }
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 24d608f..c6c6739 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -258,7 +258,7 @@ class indirect : private detail::empty_base_optimization<A> {
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp = construct_from(alloc, *other.p_);
+        auto tmp = construct_from(alloc, *other);
         reset();
         p_ = tmp;
       }
-- 
2.43.0


From dbf6c87ffbee5ee813905e3afa7c373e35c648f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 11/13] fix: let clang build polymorphic's control block with
 plain allocators

clang instantiates the constexpr virtual functions of direct_control_block<U>
while allocator_traits::construct tests whether it is constructible, where clone
and move, making the same test, fail: constructing a polymorphic from an rvalue
did not compile with an allocator that has no construct member.
---
 polymorphic.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/polymorphic.h b/polymorphic.h
index 2090d83..2b9519e 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -130,6 +130,10 @@ class polymorphic {
       Ts&&... ts) const {
     using cb_allocator = typename std::allocator_traits<
         A>::template rebind_alloc<direct_control_block<U>>;
+    // Instantiate the virtual functions of direct_control_block<U> here: some
+    // compilers otherwise do so while `construct` tests for constructibility,
+    // where `clone` and `move` cannot make the same test.
+    static_assert(std::is_destructible_v<direct_control_block<U>>);
     cb_allocator cb_alloc(alloc_);
     using cb_alloc_traits = std::allocator_traits<cb_allocator>;
     auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
-- 
2.43.0


From de04807ecdb6c5478448969522f70aeab949ca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 12/13] fix: make move construction noexcept as documented

---
 indirect.h       | 3 +--
 indirect_cxx14.h | 2 +-
 polymorphic.h    | 3 +--
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/indirect.h b/indirect.h
index 9a34877..7e727f7 100644
--- a/indirect.h
+++ b/indirect.h
@@ -134,8 +134,7 @@ class indirect {
     static_assert(std::copy_constructible<T>);
   }
 
-  constexpr indirect(indirect&& other) noexcept(
-      allocator_traits::is_always_equal::value)
+  constexpr indirect(indirect&& other) noexcept
       : indirect(std::allocator_arg, other.alloc_, std::move(other)) {}
 
   //
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index c6c6739..d91df76 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -230,7 +230,7 @@ class indirect : private detail::empty_base_optimization<A> {
     }
   }
 
-  indirect(indirect&& other) noexcept(allocator_traits::is_always_equal::value)
+  indirect(indirect&& other) noexcept
       : indirect(std::allocator_arg, other.alloc_base::get(),
                  std::move(other)) {}
 
diff --git a/polymorphic.h b/polymorphic.h
index 2b9519e..b4782e9 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -196,8 +196,7 @@ class polymorphic {
                         other.alloc_),
                     other) {}
 
-  constexpr polymorphic(polymorphic&& other) noexcept(
-      allocator_traits::is_always_equal::value)
+  constexpr polymorphic(polymorphic&& other) noexcept
       : polymorphic(std::allocator_arg_t{}, other.alloc_, std::move(other)) {}
 
   //
-- 
2.43.0


From 14072dc5a3b86d6d775ac0fb127be55ada7c42e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:20 +0000
Subject: [PATCH 13/13] fix: exchange propagating allocators with their own
 swap

---
 indirect.h          | 3 ++-
 indirect_cxx14.h    | 3 ++-
 polymorphic.h       | 3 ++-
 polymorphic_cxx14.h | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/indirect.h b/indirect.h
index 7e727f7..9cf81ef 100644
--- a/indirect.h
+++ b/indirect.h
@@ -363,7 +363,8 @@ class indirect {
       std::allocator_traits<A>::is_always_equal::value) {
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects, we can swap both.
-      std::swap(alloc_, other.alloc_);
+      using std::swap;
+      swap(alloc_, other.alloc_);
       std::swap(p_, other.p_);
       return;
     } else /* constexpr */ {
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index d91df76..c24f0df 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -566,7 +566,8 @@ class indirect : private detail::empty_base_optimization<A> {
   static void assign_alloc(A&, const A&, std::false_type) noexcept {}
 
   static void swap_alloc(A& lhs, A& rhs, std::true_type) noexcept {
-    std::swap(lhs, rhs);
+    using std::swap;
+    swap(lhs, rhs);
   }
 
   static void swap_alloc(A&, A&, std::false_type) noexcept {}
diff --git a/polymorphic.h b/polymorphic.h
index b4782e9..b3caba6 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -385,7 +385,8 @@ class polymorphic {
       std::allocator_traits<A>::is_always_equal::value) {
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects, we can swap both.
-      std::swap(alloc_, other.alloc_);
+      using std::swap;
+      swap(alloc_, other.alloc_);
       std::swap(cb_, other.cb_);
       return;
     } else /* constexpr */ {
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 6fd07bd..72f7542 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -483,7 +483,8 @@ class polymorphic : private detail::empty_base_optimization<A> {
   static void assign_alloc(A&, const A&, std::false_type) noexcept {}
 
   static void swap_alloc(A& lhs, A& rhs, std::true_type) noexcept {
-    std::swap(lhs, rhs);
+    using std::swap;
+    swap(lhs, rhs);
   }
 
   static void swap_alloc(A&, A&, std::false_type) noexcept {}
-- 
2.43.0

