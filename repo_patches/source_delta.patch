From 5c1ad342da05c7e31b4b33fdb50218b5bed51c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 01/13] fix: make operator< on reverse iterators a strict order

---
 include/bpptree/detail/iterator.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/detail/iterator.hpp b/include/bpptree/detail/iterator.hpp
index 694ddf9..fa4ecc0 100644
--- a/include/bpptree/detail/iterator.hpp
+++ b/include/bpptree/detail/iterator.hpp
@@ -264,7 +264,11 @@ struct IteratorDetail : public IteratorBase<Tree, is_const> {
             throw std::logic_error("cannot compare iterators from different trees");
         }
 #endif
-        return reverse ^ (iter + 1 < rhs.iter + 1);
+        if constexpr (reverse) {
+            return rhs.iter + 1 < iter + 1;
+        } else {
+            return iter + 1 < rhs.iter + 1;
+        }
     }
 
     template <typename RHS>
-- 
2.43.0


From 62d2ed110a1252c92934542dfaf479f11b7267a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 02/13] fix: copies of a Transient no longer modify each
 other's elements

---
 include/bpptree/bpptree.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/bpptree/bpptree.hpp b/include/bpptree/bpptree.hpp
index c15c013..b53949f 100644
--- a/include/bpptree/bpptree.hpp
+++ b/include/bpptree/bpptree.hpp
@@ -243,6 +243,22 @@ public:
         template <typename... Us>
         explicit Transient(Us&&... us) : Parent(std::forward<Us>(us)...) {}
 
+        // a copy shares its nodes with the original, so the nodes have to be marked persistent for both trees to copy
+        // them on write instead of modifying each other's contents
+        Transient(Transient const& other) : Transient(other.persistent().transient()) {}
+
+        Transient(Transient& other) : Transient(std::as_const(other)) {}
+
+        Transient(Transient&& other) = default;
+
+        Transient& operator=(Transient const& other) {
+            return *this = Transient(other);
+        }
+
+        Transient& operator=(Transient&& other) = default;
+
+        ~Transient() = default;
+
         [[nodiscard]] Persistent persistent() const& {
             return Persistent(this->root_variant, this->tree_size);
         }
-- 
2.43.0


From 562030717cce83ca71a0db85b3a6c672eb62a5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 03/13] fix: do not write to leaf nodes that are already shared
 between threads

---
 include/bpptree/detail/leafnodebase.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/detail/leafnodebase.hpp b/include/bpptree/detail/leafnodebase.hpp
index 45d659a..d8d1a5e 100644
--- a/include/bpptree/detail/leafnodebase.hpp
+++ b/include/bpptree/detail/leafnodebase.hpp
@@ -273,7 +273,10 @@ struct LeafNodeBase : public Parent {
     }
 
     void make_persistent() {
-        this->persistent = true;
+        // leaves that are already persistent may be shared with other threads and must not be written to
+        if (!this->persistent) {
+            this->persistent = true;
+        }
     }
 
     void seek_first(uint64_t& it) const {
-- 
2.43.0


From fe516334b52a27bfcc005e97ee8f6a124c3e5c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 04/13] fix: advancing an iterator past the end of an empty
 tree yields end()

---
 include/bpptree/detail/iterator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bpptree/detail/iterator.hpp b/include/bpptree/detail/iterator.hpp
index fa4ecc0..bf59d0c 100644
--- a/include/bpptree/detail/iterator.hpp
+++ b/include/bpptree/detail/iterator.hpp
@@ -184,6 +184,8 @@ struct IteratorDetail : public IteratorBase<Tree, is_const> {
             std::as_const(*tree).dispatch([this, remainder](auto const& root) {
                 auto r = root->advance(leaf, iter, remainder);
                 if (r > 0) {
+                    // advancing past the end of an empty leaf leaves garbage in the bits above the root's index
+                    iter = 0;
                     root->seek_end(leaf, iter);
                 }
                 if (r < 0) {
-- 
2.43.0


From 3792beb42b14424541276d1da206d77e55adaba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 05/13] fix: Persistent::insert at a reverse iterator inserts
 where Transient::insert does

---
 include/bpptree/bpptree.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/bpptree.hpp b/include/bpptree/bpptree.hpp
index b53949f..4cc001f 100644
--- a/include/bpptree/bpptree.hpp
+++ b/include/bpptree/bpptree.hpp
@@ -378,7 +378,12 @@ public:
         template <typename It, typename... Args>
         [[nodiscard]] Persistent insert(It const& it, Args&&... args) const {
             auto transient = this->self().transient();
-            transient.insert2(it.iter, std::forward<Args>(args)...);
+            if constexpr (It::is_reversed) {
+                // same position as Transient::insert
+                transient.insert2((it - 1).iter, std::forward<Args>(args)...);
+            } else {
+                transient.insert2(it.iter, std::forward<Args>(args)...);
+            }
             return std::move(transient).persistent();
         }
 
-- 
2.43.0


From 72b2936090980e77d2cc1dd93b64dda4b485643b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 06/13] fix: inserting a value that refers to an element of the
 same tree

---
 include/bpptree/detail/leafnodebase.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/detail/leafnodebase.hpp b/include/bpptree/detail/leafnodebase.hpp
index d8d1a5e..11dc902 100644
--- a/include/bpptree/detail/leafnodebase.hpp
+++ b/include/bpptree/detail/leafnodebase.hpp
@@ -86,6 +86,16 @@ struct LeafNodeBase : public Parent {
 
     template <typename... Args>
     void insert_no_split(LeafNodeBase& node, IndexType index, Args&&... args) noexcept(disable_exceptions) {
+        if (!this->persistent && index < this->length) {
+            // args may refer to an element of this node, so use them before moving elements
+            Value value(std::forward<Args>(args)...);
+            for (IndexType i = this->length; i > index; --i) {
+                node.values.set(i, node.length, values.move(i - 1));
+            }
+            node.values.set(index, node.length, std::move(value));
+            node.length = this->length + 1;
+            return;
+        }
         for (IndexType i = this->length; i > index; --i) {
             if (this->persistent) {
                 node.values.set(i, node.length, values[i - 1]);
@@ -169,7 +179,8 @@ struct LeafNodeBase : public Parent {
                 bool new_element_left = insert_split(*left, *right, index, iter, right_most, std::forward<Args>(args)...);
                 do_split(SplitType(std::move(left), std::move(right), true, new_element_left));
             } else {
-                bool new_element_left = insert_split(this->self(), *right, index, iter, right_most, std::forward<Args>(args)...);
+                // args may refer to an element of this node, so use them before moving elements
+                bool new_element_left = insert_split(this->self(), *right, index, iter, right_most, Value(std::forward<Args>(args)...));
                 do_split(SplitType(&(this->self()), std::move(right), false, new_element_left));
             }
         }
-- 
2.43.0


From e037d0a602404a564ab656dd7550d35708a5fe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 07/13] fix: replacing an element using arguments that refer to
 it

---
 include/bpptree/detail/uninitialized_array.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/detail/uninitialized_array.hpp b/include/bpptree/detail/uninitialized_array.hpp
index 01f3a94..97f6f45 100644
--- a/include/bpptree/detail/uninitialized_array.hpp
+++ b/include/bpptree/detail/uninitialized_array.hpp
@@ -127,8 +127,10 @@ public:
             (*this)[index] = (..., std::forward<Us>(us));
             return (*this)[index];
         }
+        // us may refer to the element that is being replaced or to a part of it, so use them before destroying it
+        T value(std::forward<Us>(us)...);
         (*this)[index].~T();
-        return *new(un.data + index) T(std::forward<Us>(us)...);
+        return *new(un.data + index) T(std::move(value));
     }
 
     T* begin() {
-- 
2.43.0


From def48950a91cfc4d2cebdc7eca8f1ea4397ea667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:23 +0000
Subject: [PATCH 08/13] fix: inverted index example does not read past the last
 term

---
 examples/inverted_index.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/inverted_index.hpp b/examples/inverted_index.hpp
index 6d9843c..0f598f7 100644
--- a/examples/inverted_index.hpp
+++ b/examples/inverted_index.hpp
@@ -81,7 +81,7 @@ struct InvertedIndex {
         template <typename T>
         void insert(T&& term, uint32_t doc_id) {
             auto it = term_list_.lower_bound(term);
-            if (it->first != term) {
+            if (!it.valid() || it->first != term) {
                 term_list_.insert(it, std::forward<T>(term), 0u);
             }
             auto [begin, end] = this->term_doc_iterator(it);
-- 
2.43.0


From 2be706ae200bb9fa0554803047a956ed89b6e665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:23 +0000
Subject: [PATCH 09/13] fix: persistent variant and lookup by term of the
 inverted index example compile

---
 examples/inverted_index.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/examples/inverted_index.hpp b/examples/inverted_index.hpp
index 0f598f7..f8ae3f7 100644
--- a/examples/inverted_index.hpp
+++ b/examples/inverted_index.hpp
@@ -44,7 +44,7 @@ struct InvertedIndex {
 
         [[nodiscard]] auto term_doc_iterator(Term const& term) const {
             auto it = self().term_list().find(term);
-            return term_doc_iterator2(it);
+            return term_doc_iterator(it);
         }
     };
 
@@ -52,6 +52,7 @@ struct InvertedIndex {
 
     class Transient : public Shared<Transient> {
         friend struct Shared<Transient>;
+        friend class Persistent;
 
         typename TermList::Transient term_list_{};
         typename DocList::Transient doc_list_{};
@@ -95,6 +96,7 @@ struct InvertedIndex {
 
     class Persistent : public Shared<Persistent> {
         friend struct Shared<Persistent>;
+        friend class Transient;
         
         typename TermList::Persistent term_list_{};
         typename DocList::Persistent doc_list_{};
@@ -123,9 +125,9 @@ struct InvertedIndex {
 
         template <typename T>
         [[nodiscard]] Persistent insert(T&& term, uint32_t doc_id) const {
-            Transient transient(transient());
-            transient.insert(std::forward<T>(term), doc_id);
-            return std::move(transient).persistent();
+            Transient result(transient());
+            result.insert(std::forward<T>(term), doc_id);
+            return std::move(result).persistent();
         }
     };
 };
-- 
2.43.0


From 9714c0997c69d86648a4b2da044f29f16888a75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:42 +0000
Subject: [PATCH 10/13] fix: pop_back erases the last element instead of the
 position after it

The leaf erased position length, which read past the elements when computing
the change of sums and extremes and leaked the element in a shared leaf.
---
 include/bpptree/bpptree.hpp           | 2 +-
 include/bpptree/detail/operations.hpp | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/bpptree.hpp b/include/bpptree/bpptree.hpp
index 4cc001f..f1eb1fb 100644
--- a/include/bpptree/bpptree.hpp
+++ b/include/bpptree/bpptree.hpp
@@ -338,7 +338,7 @@ public:
 
         Value pop_back() {
             Value ret = this->self().back();
-            this->self().dispatch(Modify<Erase>(), find_last, Empty::empty);
+            this->self().dispatch(Modify<Erase>(), find_last_element, Empty::empty);
             return ret;
         }
 
diff --git a/include/bpptree/detail/operations.hpp b/include/bpptree/detail/operations.hpp
index c817d28..d70479e 100644
--- a/include/bpptree/detail/operations.hpp
+++ b/include/bpptree/detail/operations.hpp
@@ -71,6 +71,11 @@ inline constexpr auto find_last = [](auto const& node, Empty const&) {
     }
 };
 
+// unlike find_last, which finds the position after the last element, this finds the last element itself
+inline constexpr auto find_last_element = [](auto const& node, Empty const&) {
+    return std::tuple<int32_t, Empty>(node.length - 1, Empty::empty);
+};
+
 inline constexpr auto find_iterator = [](auto const& node, uint64_t const& it) {
     return std::tuple<int32_t, uint64_t>(node.get_index(it), it);
 };
-- 
2.43.0


From 093d140d760ef13fbddf73a7194822092e6890cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:54 +0000
Subject: [PATCH 11/13] fix: helper types keep the exception setting when
 another setting follows

---
 include/bpptree/indexed.hpp |  8 ++++----
 include/bpptree/ordered.hpp | 20 ++++++++++----------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/bpptree/indexed.hpp b/include/bpptree/indexed.hpp
index 6f1b971..bea62cb 100644
--- a/include/bpptree/indexed.hpp
+++ b/include/bpptree/indexed.hpp
@@ -323,16 +323,16 @@ template <
 struct BppTreeVector {
 
     template <typename T>
-    using size_type = BppTreeVector<Value, T, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using size_type = BppTreeVector<Value, T, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int l>
-    using leaf_node_bytes = BppTreeVector<Value, SizeType, l, internal_node_bytes_v, depth_limit_v>;
+    using leaf_node_bytes = BppTreeVector<Value, SizeType, l, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int i>
-    using internal_node_bytes = BppTreeVector<Value, SizeType, leaf_node_bytes_v, i, depth_limit_v>;
+    using internal_node_bytes = BppTreeVector<Value, SizeType, leaf_node_bytes_v, i, depth_limit_v, disable_exceptions_v>;
 
     template <int d>
-    using depth_limit = BppTreeVector<Value, SizeType, leaf_node_bytes_v, internal_node_bytes_v, d>;
+    using depth_limit = BppTreeVector<Value, SizeType, leaf_node_bytes_v, internal_node_bytes_v, d, disable_exceptions_v>;
 
     template <bool b>
     using disable_exceptions = BppTreeVector<Value, SizeType, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, b>;
diff --git a/include/bpptree/ordered.hpp b/include/bpptree/ordered.hpp
index e905b32..280f89d 100644
--- a/include/bpptree/ordered.hpp
+++ b/include/bpptree/ordered.hpp
@@ -421,19 +421,19 @@ template <
 struct BppTreeMap {
 
     template <typename T>
-    using compare = BppTreeMap<Key, Value, T, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using compare = BppTreeMap<Key, Value, T, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <bool b>
-    using binary_search = BppTreeMap<Key, Value, Compare, b, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using binary_search = BppTreeMap<Key, Value, Compare, b, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int l>
-    using leaf_node_bytes = BppTreeMap<Key, Value, Compare, binary_search_v, l, internal_node_bytes_v, depth_limit_v>;
+    using leaf_node_bytes = BppTreeMap<Key, Value, Compare, binary_search_v, l, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int i>
-    using internal_node_bytes = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, i, depth_limit_v>;
+    using internal_node_bytes = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, i, depth_limit_v, disable_exceptions_v>;
 
     template <int d>
-    using depth_limit = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, d>;
+    using depth_limit = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, d, disable_exceptions_v>;
 
     template <bool b>
     using disable_exceptions = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, b>;
@@ -467,19 +467,19 @@ template <
 struct BppTreeSet {
 
     template <typename T>
-    using compare = BppTreeSet<Key, T, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using compare = BppTreeSet<Key, T, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <bool b>
-    using binary_search = BppTreeSet<Key, Compare, b, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using binary_search = BppTreeSet<Key, Compare, b, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int l>
-    using leaf_node_bytes = BppTreeSet<Key, Compare, binary_search_v, l, internal_node_bytes_v, depth_limit_v>;
+    using leaf_node_bytes = BppTreeSet<Key, Compare, binary_search_v, l, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int i>
-    using internal_node_bytes = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, i, depth_limit_v>;
+    using internal_node_bytes = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, i, depth_limit_v, disable_exceptions_v>;
 
     template <int d>
-    using depth_limit = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, d>;
+    using depth_limit = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, d, disable_exceptions_v>;
 
     template <bool b>
     using disable_exceptions = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, b>;
-- 
2.43.0


From 4df2b2051e17ba91826a3b2b08f48546672c2fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:18 +0000
Subject: [PATCH 12/13] Revert "fix: persistent variant and lookup by term of
 the inverted index example compile"

This reverts commit 2be706ae200bb9fa0554803047a956ed89b6e665.
---
 examples/inverted_index.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/examples/inverted_index.hpp b/examples/inverted_index.hpp
index f8ae3f7..0f598f7 100644
--- a/examples/inverted_index.hpp
+++ b/examples/inverted_index.hpp
@@ -44,7 +44,7 @@ struct InvertedIndex {
 
         [[nodiscard]] auto term_doc_iterator(Term const& term) const {
             auto it = self().term_list().find(term);
-            return term_doc_iterator(it);
+            return term_doc_iterator2(it);
         }
     };
 
@@ -52,7 +52,6 @@ struct InvertedIndex {
 
     class Transient : public Shared<Transient> {
         friend struct Shared<Transient>;
-        friend class Persistent;
 
         typename TermList::Transient term_list_{};
         typename DocList::Transient doc_list_{};
@@ -96,7 +95,6 @@ struct InvertedIndex {
 
     class Persistent : public Shared<Persistent> {
         friend struct Shared<Persistent>;
-        friend class Transient;
         
         typename TermList::Persistent term_list_{};
         typename DocList::Persistent doc_list_{};
@@ -125,9 +123,9 @@ struct InvertedIndex {
 
         template <typename T>
         [[nodiscard]] Persistent insert(T&& term, uint32_t doc_id) const {
-            Transient result(transient());
-            result.insert(std::forward<T>(term), doc_id);
-            return std::move(result).persistent();
+            Transient transient(transient());
+            transient.insert(std::forward<T>(term), doc_id);
+            return std::move(transient).persistent();
         }
     };
 };
-- 
2.43.0


From b5e91205e545e9145ce8cb33e99b1354453f7c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:18 +0000
Subject: [PATCH 13/13] Revert "fix: inverted index example does not read past
 the last term"

This reverts commit def48950a91cfc4d2cebdc7eca8f1ea4397ea667.
---
 examples/inverted_index.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/inverted_index.hpp b/examples/inverted_index.hpp
index 0f598f7..6d9843c 100644
--- a/examples/inverted_index.hpp
+++ b/examples/inverted_index.hpp
@@ -81,7 +81,7 @@ struct InvertedIndex {
         template <typename T>
         void insert(T&& term, uint32_t doc_id) {
             auto it = term_list_.lower_bound(term);
-            if (!it.valid() || it->first != term) {
+            if (it->first != term) {
                 term_list_.insert(it, std::forward<T>(term), 0u);
             }
             auto [begin, end] = this->term_doc_iterator(it);
-- 
2.43.0

