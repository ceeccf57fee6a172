From b9c6ce16184577552b9ebba7af8fd7d082d838c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:47 +0000
Subject: [PATCH 1/9] fix: assign from a variant in backup state copies the
 backed-up value

assigner and move_assigner visited backup_holder<T> as if it were the rhs
content, copy constructing a null backup_holder in lhs storage while
indicating primary storage. Unwrap the holder.
---
 include/boost/variant/variant.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 33bdcb7..a3d3109 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -1779,6 +1779,14 @@ private: // helpers, for modifiers (below)
 
     public: // internal visitor interfaces
 
+        // [The content of a rhs in backup state must be unwrapped: lhs always
+        //  receives the backed-up value itself, in its primary storage.]
+        template <typename RhsT>
+        void internal_visit(const detail::variant::backup_holder<RhsT>& rhs_content, long) const
+        {
+            internal_visit( rhs_content.get(), 1L );
+        }
+
         template <typename RhsT>
         void internal_visit(const RhsT& rhs_content, int) const
         {
@@ -1897,6 +1905,14 @@ private: // helpers, for modifiers (below)
 
     public: // internal visitor interfaces
 
+        // [The content of a rhs in backup state must be unwrapped: lhs always
+        //  receives the backed-up value itself, in its primary storage.]
+        template <typename RhsT>
+        void internal_visit(detail::variant::backup_holder<RhsT>& rhs_content, long) const
+        {
+            internal_visit( rhs_content.get(), 1L );
+        }
+
         template <typename RhsT>
         void internal_visit(RhsT& rhs_content, int) const
         {
-- 
2.43.0


From 7b366b9a534f4b89e9d9423c78e98fb7b9087ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:24 +0000
Subject: [PATCH 2/9] fix: keep nothrow-copy content with a throwing move out
 of heap backup

visitation treats types with has_nothrow_copy as never using backup, but
backup_assigner put them on the heap when their move may throw, so a failed
assignment left the backup pointer to be read as the content. Back such
content up on the stack, by copy.
---
 include/boost/variant/variant.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index a3d3109..f052d3d 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -755,13 +755,16 @@ private: // helpers, for visitor interface (below)
     template <typename LhsT>
     void backup_assign_impl(
           LhsT& lhs_content
-        , mpl::true_ // is_nothrow_move_constructible
+        , mpl::true_ // is_nothrow_move_constructible or has_nothrow_copy
         , int
         )
     {
-        // Move lhs content to backup...
+        // Move lhs content to backup (or copy, if only copying is nothrow)...
+        typedef typename mpl::if_<
+              is_nothrow_move_constructible<LhsT>, LhsT&&, const LhsT&
+            >::type nothrow_source;
         LhsT backup_lhs_content(
-              ::boost::detail::variant::move(lhs_content)
+              static_cast<nothrow_source>(lhs_content)
             ); // nothrow
 
         // ...destroy lhs content...
@@ -777,7 +780,7 @@ private: // helpers, for visitor interface (below)
             // In case of failure, restore backup content to lhs storage...
             new(lhs_.storage_.address())
                 LhsT(
-                      ::boost::detail::variant::move(backup_lhs_content)
+                      static_cast<nothrow_source>(backup_lhs_content)
                     ); // nothrow
 
             // ...and rethrow:
@@ -792,7 +795,7 @@ private: // helpers, for visitor interface (below)
     template <typename LhsT>
     void backup_assign_impl(
           LhsT& lhs_content
-        , mpl::false_ // is_nothrow_move_constructible
+        , mpl::false_ // is_nothrow_move_constructible or has_nothrow_copy
         , int
         )
     {
@@ -833,8 +836,12 @@ public: // visitor interface
     template <typename LhsT>
     void internal_visit(LhsT& lhs_content, int)
     {
-        typedef typename is_nothrow_move_constructible<LhsT>::type
-            nothrow_move;
+        // [Must agree with visitation_impl_invoke's notion of the types that
+        //  never use heap backup.]
+        typedef typename mpl::or_<
+              is_nothrow_move_constructible<LhsT>
+            , has_nothrow_copy<LhsT>
+            >::type nothrow_move;
 
         backup_assign_impl( lhs_content, nothrow_move(), 1L);
     }
-- 
2.43.0


From 142be0f56acaa71f378ab742a96e07de5f245910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:24 +0000
Subject: [PATCH 3/9] fix: value-initialize the fallback content

A failed assignment left a fallback of fundamental type uninitialized.
---
 include/boost/variant/variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index f052d3d..fe7eee1 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -1733,7 +1733,7 @@ private: // helpers, for modifiers (below)
         void construct_fallback() const BOOST_NOEXCEPT {
             // In case of failure, default-construct fallback type in lhs's storage...
             new (lhs_.storage_.address())
-                fallback_type_; // nothrow
+                fallback_type_(); // nothrow
 
             // ...indicate construction of fallback type...
             lhs_.indicate_which(
-- 
2.43.0


From 07abafcd5f9bcbe927deb49731297c355e947d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:24 +0000
Subject: [PATCH 4/9] fix: value-initialize a default-constructed
 recursive_wrapper

variant default construction value-initializes its first bounded type; a
recursive_wrapper around it left a fundamental type uninitialized.
---
 include/boost/variant/recursive_wrapper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/variant/recursive_wrapper.hpp b/include/boost/variant/recursive_wrapper.hpp
index f11418d..6c4ce02 100644
--- a/include/boost/variant/recursive_wrapper.hpp
+++ b/include/boost/variant/recursive_wrapper.hpp
@@ -107,7 +107,7 @@ recursive_wrapper<T>::~recursive_wrapper()
 
 template <typename T>
 recursive_wrapper<T>::recursive_wrapper()
-    : p_(new T)
+    : p_(new T())
 {
 }
 
-- 
2.43.0


From 1c7f462289feeef9b1c6742ad995b25808e47fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:21 +0000
Subject: [PATCH 5/9] fix: construct the fallback content instead of an mpl
 iterator

fallback_type_ named the iterator to the fallback type, so a failed
assignment set the discriminator without constructing the fallback.
---
 include/boost/variant/variant.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index fe7eee1..08d4bd9 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -1152,8 +1152,14 @@ private: // helpers, for representation (below)
 
     typedef typename fallback_type_result_::first
         fallback_type_index_;
+    // [The result is an iterator into internal_types, or no_fallback_type:]
     typedef typename fallback_type_result_::second
-        fallback_type_;
+        fallback_type_iter_;
+    typedef typename mpl::eval_if<
+          is_same< fallback_type_iter_, detail::variant::no_fallback_type >
+        , mpl::identity< detail::variant::no_fallback_type >
+        , mpl::deref< fallback_type_iter_ >
+        >::type fallback_type_;
 
     struct has_fallback_type_
         : mpl::not_<
-- 
2.43.0


From 1f0c04abb321d4b624c415a817bb0e228c60ab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:56 +0000
Subject: [PATCH 6/9] fix: prefer boost::blank as fallback type as documented

The search compared iterators, not the types they refer to, with
boost::blank and so never found it.
---
 include/boost/variant/variant.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 08d4bd9..e8edc2b 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -176,6 +176,19 @@ struct find_fallback_type_pred
     };
 };
 
+struct find_blank_type_pred
+{
+    template <typename Iterator>
+    struct apply
+    {
+    private:
+        typedef typename mpl::deref<Iterator>::type t_;
+
+    public:
+        typedef mpl::not_< is_same<t_, boost::blank> > type;
+    };
+};
+
 template <typename Types>
 struct find_fallback_type
 {
@@ -199,7 +212,7 @@ private: // helpers, for metafunction result (below)
     typedef typename mpl::iter_fold_if<
           mpl::iterator_range< first_result_it,end_it >
         , first_result_index, mpl::protect< mpl::next<> >
-        , mpl::protect< mpl::not_same_as<boost::blank> >
+        , mpl::protect< find_blank_type_pred >
         >::type second_result_;
 
     typedef typename second_result_::second second_result_it;
-- 
2.43.0


From 8fb18637e7cc4bdaf55dd98c4ba346a9077121fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:18 +0000
Subject: [PATCH 7/9] fix: let generic visitors visit four and more variants

The disable_if parameter after the function parameter pack made the pack
non-deduced, so a visitor without result_type could be applied to exactly
three variants only.
---
 .../variant/detail/multivisitors_cpp14_based.hpp     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/variant/detail/multivisitors_cpp14_based.hpp b/include/boost/variant/detail/multivisitors_cpp14_based.hpp
index 214fdc0..881e8b9 100644
--- a/include/boost/variant/detail/multivisitors_cpp14_based.hpp
+++ b/include/boost/variant/detail/multivisitors_cpp14_based.hpp
@@ -103,12 +103,12 @@ namespace detail { namespace variant {
 
 }} // namespace detail::variant
 
-    template <class Visitor, class T1, class T2, class T3, class... TN>
-    inline decltype(auto) apply_visitor(const Visitor& visitor, T1&& v1, T2&& v2, T3&& v3, TN&&... vn,
+    template <class Visitor, class T1, class T2, class T3, class... TN,
         typename boost::disable_if<
             boost::detail::variant::has_result_type<Visitor>,
             bool
-        >::type = true)
+        >::type = true>
+    inline decltype(auto) apply_visitor(const Visitor& visitor, T1&& v1, T2&& v2, T3&& v3, TN&&... vn)
     {
         return boost::apply_visitor(
             ::boost::detail::variant::make_one_by_one_visitor_and_value_referer_cpp14(
@@ -125,12 +125,12 @@ namespace detail { namespace variant {
     }
 
 
-    template <class Visitor, class T1, class T2, class T3, class... TN>
-    inline decltype(auto) apply_visitor(Visitor& visitor, T1&& v1, T2&& v2, T3&& v3, TN&&... vn,
+    template <class Visitor, class T1, class T2, class T3, class... TN,
         typename boost::disable_if<
             boost::detail::variant::has_result_type<Visitor>,
             bool
-        >::type = true)
+        >::type = true>
+    inline decltype(auto) apply_visitor(Visitor& visitor, T1&& v1, T2&& v2, T3&& v3, TN&&... vn)
     {
         return ::boost::apply_visitor(
             ::boost::detail::variant::make_one_by_one_visitor_and_value_referer_cpp14(
-- 
2.43.0


From f4ae10b3a0fcb2323fef85fea5750b6fe73ab3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:31 +0000
Subject: [PATCH 8/9] fix: take the address of a right-hand content with
 addressof

---
 include/boost/variant/variant.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index e8edc2b..f461d37 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -53,6 +53,7 @@
 #include <boost/type_traits/is_constructible.hpp>
 #include <boost/type_traits/add_lvalue_reference.hpp>
 #include <boost/type_traits/declval.hpp>
+#include <boost/core/addressof.hpp>
 #include <boost/core/no_exceptions_support.hpp>
 #include <boost/core/enable_if.hpp>
 #include <boost/variant/recursive_wrapper_fwd.hpp>
@@ -715,7 +716,7 @@ public: // structors
     backup_assigner(Variant& lhs, int rhs_which, const RhsT& rhs_content)
         : lhs_(lhs)
         , rhs_which_(rhs_which)
-        , rhs_content_(&rhs_content)
+        , rhs_content_(boost::addressof(rhs_content))
         , copy_rhs_content_(&construct_impl<RhsT>)
     {
     }
-- 
2.43.0


From cfa015a78082e009daecdc0018e2ef1909f7e49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:11 +0000
Subject: [PATCH 9/9] fix: convert a volatile scalar by its value

The initializer's overloads take references, to which a volatile scalar
does not bind except through a conversion; so the exactly matching bounded
type was passed over in favour of another one, or the call was ambiguous.
---
 include/boost/variant/variant.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index f461d37..64a6ba0 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -49,10 +49,13 @@
 #include <boost/type_traits/is_nothrow_move_constructible.hpp>
 #include <boost/type_traits/is_const.hpp>
 #include <boost/type_traits/is_same.hpp>
+#include <boost/type_traits/is_scalar.hpp>
+#include <boost/type_traits/is_volatile.hpp>
 #include <boost/type_traits/is_rvalue_reference.hpp>
 #include <boost/type_traits/is_constructible.hpp>
 #include <boost/type_traits/add_lvalue_reference.hpp>
 #include <boost/type_traits/declval.hpp>
+#include <boost/type_traits/remove_cv.hpp>
 #include <boost/core/addressof.hpp>
 #include <boost/core/no_exceptions_support.hpp>
 #include <boost/core/enable_if.hpp>
@@ -1467,10 +1470,17 @@ private: // helpers, for structors, below
         // unambiguously convertible to one of the variant's types
         // (or that no conversion exists).
         //
+        // [A volatile scalar cannot be bound to a bounded type's reference,
+        //  only its value can be converted.]
+        //
+        typedef typename mpl::if_c<
+              is_volatile<T>::value && is_scalar<T>::value
+            , typename remove_cv<T>::type, T&
+            >::type source;
         indicate_which(
               initializer::initialize(
                   storage_.address()
-                , operand
+                , static_cast<source>(operand)
                 )
             );
     }
@@ -1487,10 +1497,14 @@ private: // helpers, for structors, below
         // unambiguously convertible to one of the variant's types
         // (or that no conversion exists).
         //
+        typedef typename mpl::if_c<
+              is_volatile<T>::value && is_scalar<T>::value
+            , typename remove_cv<T>::type, T&&
+            >::type source;
         indicate_which(
               initializer::initialize(
                   storage_.address()
-                , detail::variant::move(operand)
+                , static_cast<source>(operand)
                 )
             );
     }
-- 
2.43.0

