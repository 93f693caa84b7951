From dcb20c2d5846e090e2e90b5acad1014863bbbc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 01/41] fix: slist::last() const and clast() did not compile

---
 include/boost/intrusive/slist.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index f39e7df..148aa4a 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -639,7 +639,7 @@ class slist_impl
    {
       //This function shall not be used if cache_last is not true
       BOOST_INTRUSIVE_INVARIANT_ASSERT(cache_last);
-      return const_iterator (this->get_last_node(), this->priv_value_traits_ptr());
+      return const_iterator (detail::uncast(this->get_last_node()), this->priv_value_traits_ptr());
    }
 
    //! <b>Effects</b>: Returns a const_iterator to the last element contained in the list.
@@ -650,7 +650,7 @@ class slist_impl
    //!
    //! <b>Note</b>: This function is present only if cached_last<> option is true.
    inline const_iterator clast() const BOOST_NOEXCEPT
-   { return const_iterator(this->get_last_node(), this->priv_value_traits_ptr()); }
+   { return const_iterator(detail::uncast(this->get_last_node()), this->priv_value_traits_ptr()); }
 
    //! <b>Precondition</b>: end_iterator must be a valid end iterator
    //!   of slist.
-- 
2.43.0


From 0f2c7e321dd42a99e02e811bd7714db8467220ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 02/41] fix: slist::unique_and_dispose(Disposer) did not
 compile

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 148aa4a..0facb44 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1703,7 +1703,7 @@ class slist_impl
    //!   and iterators to elements that are not removed remain valid.
    template<class Disposer>
    void unique_and_dispose(Disposer disposer)
-   {  this->unique(value_equal<value_type>(), disposer);  }
+   {  this->unique_and_dispose(value_equal<value_type>(), disposer);  }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
    //!
-- 
2.43.0


From b0399768c3f2fc8cb1e2f275053e76415960b591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 03/41] fix: slist::dispose_and_assign did not compile

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 0facb44..554575a 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1227,7 +1227,7 @@ class slist_impl
    void dispose_and_assign(Disposer disposer, Iterator b, Iterator e)
    {
       this->clear_and_dispose(disposer);
-      this->insert_after(this->cbefore_begin(), b, e, disposer);
+      this->insert_after(this->cbefore_begin(), b, e);
    }
 
    //! <b>Requires</b>: prev must point to an element contained by this list or
-- 
2.43.0


From e0b972b5f4810db1ea6bd380d464a5c6a13db7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 04/41] fix: slist::clone_from(rvalue) did not compile

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 554575a..f9c30d4 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -791,7 +791,7 @@ class slist_impl
       this->clear_and_dispose(disposer);
       detail::exception_disposer<slist_impl, Disposer>
          rollback(*this, disposer);
-      iterator prev(this->cbefore_begin());
+      iterator prev(this->before_begin());
       iterator b(src.begin()), e(src.end());
       for(; b != e; ++b){
          prev = this->insert_after(prev, *cloner(*b));
-- 
2.43.0


From 20830643b40f5a99f2be8e9734959e5b3a743658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 05/41] fix: slist::check() asserted on an empty linear list

---
 include/boost/intrusive/slist.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index f9c30d4..e8e9ad6 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1928,8 +1928,8 @@ class slist_impl
    void check() const
    {
       const_node_ptr header_ptr = get_root_node();
-      // header's next is never null
-      BOOST_INTRUSIVE_INVARIANT_ASSERT(node_traits::get_next(header_ptr));
+      // header's next is never null in circular lists
+      BOOST_INTRUSIVE_INVARIANT_ASSERT(linear || node_traits::get_next(header_ptr));
       if (node_traits::get_next(header_ptr) == header_ptr)
       {
          BOOST_INTRUSIVE_INVARIANT_ASSERT(!constant_time_size || this->priv_size_traits().get_size() == 0);
-- 
2.43.0


From f55cb6e93f874cab3d53895fb0cf7e045950266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 06/41] fix: slist with cache_last lost its last node when
 splicing its own last elements to another position

---
 include/boost/intrusive/slist.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index e8e9ad6..7314a85 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1990,12 +1990,14 @@ class slist_impl
    void priv_splice_after(node_ptr prev_pos_n, slist_impl &x, node_ptr before_f_n, node_ptr before_l_n)
    {
       if (cache_last && (before_f_n != before_l_n)){
-         if(prev_pos_n == this->get_last_node()){
-            this->set_last_node(before_l_n);
-         }
-         if(&x != this && node_traits::get_next(before_l_n) == x.get_end_node()){
+         const bool to_the_end = prev_pos_n == this->get_last_node();
+         //If the range already is after prev_pos_n nothing moves (this can only happen if &x == this)
+         if(prev_pos_n != before_f_n && prev_pos_n != before_l_n && node_traits::get_next(before_l_n) == x.get_end_node()){
             x.set_last_node(before_f_n);
          }
+         if(to_the_end){
+            this->set_last_node(before_l_n);
+         }
       }
       node_algorithms::transfer_after(prev_pos_n, before_f_n, before_l_n);
    }
-- 
2.43.0


From baf40d6ce5a06bcbbabc5bd682a09d7c5b3791f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 07/41] fix: circular_slist_algorithms::swap_nodes corrupted
 lists when both nodes were in the same list

---
 include/boost/intrusive/circular_slist_algorithms.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/boost/intrusive/circular_slist_algorithms.hpp b/include/boost/intrusive/circular_slist_algorithms.hpp
index bc4beaa..ec133bb 100644
--- a/include/boost/intrusive/circular_slist_algorithms.hpp
+++ b/include/boost/intrusive/circular_slist_algorithms.hpp
@@ -300,11 +300,15 @@ class circular_slist_algorithms
       const bool this_empty  = this_next == this_node;
       const bool other_empty = other_next == other_node;
 
+      //Obtain the previous nodes before changing any link, both nodes might be in the same list
+      const node_ptr this_prev (this_null  || this_empty  ? this_node  : get_previous_node(this_node));
+      const node_ptr other_prev(other_null || other_empty ? other_node : get_previous_node(other_node));
+
       if(!(other_null || other_empty)){
-         NodeTraits::set_next(this_next == other_node ? other_node : get_previous_node(other_node), this_node );
+         NodeTraits::set_next(other_prev == this_node ? other_node : other_prev, this_node );
       }
-      if(!(this_null | this_empty)){
-         NodeTraits::set_next(other_next == this_node ? this_node  : get_previous_node(this_node), other_node );
+      if(!(this_null || this_empty)){
+         NodeTraits::set_next(this_prev == other_node ? this_node  : this_prev, other_node );
       }
       NodeTraits::set_next(this_node,  other_empty ? this_node  : (other_next == this_node ? other_node : other_next) );
       NodeTraits::set_next(other_node, this_empty  ? other_node : (this_next == other_node ? this_node :  this_next ) );
-- 
2.43.0


From 0c3ab946c412691d9922a411d3b5761495a030bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:40 +0000
Subject: [PATCH 08/41] fix: slist::sort dereferenced a null pointer on an
 empty linear list

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 7314a85..1c5a0ef 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1440,7 +1440,7 @@ class slist_impl
    template<class Predicate>
    void sort(Predicate p)
    {
-      if (node_traits::get_next(node_traits::get_next(this->get_root_node()))
+      if (!this->empty() && node_traits::get_next(node_traits::get_next(this->get_root_node()))
          != this->get_root_node()) {
 
          slist_impl carry(this->priv_value_traits());
-- 
2.43.0


From ec104d89e48f6eaecca2eaeb76d5c20f1ca3ba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 09/41] fix: slist::sort dereferenced a null pointer when
 sorting a linear list

---
 include/boost/intrusive/slist.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 1c5a0ef..080aba8 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1471,8 +1471,12 @@ class slist_impl
                ++fill;
          }
 
-         for (int i = 1; i < fill; ++i)
-            counter[i].merge(counter[i-1], p, &last_inserted);
+         for (int i = 1; i < fill; ++i){
+            //Merging an empty list would set "last_inserted" to end(),
+            //which is not a valid node to search from if the list is linear
+            if(!counter[i-1].empty())
+               counter[i].merge(counter[i-1], p, &last_inserted);
+         }
          --fill;
          const_iterator last_element(counter[fill].previous(last_inserted, counter[fill].end()));
          BOOST_IF_CONSTEXPR(constant_time_size){
-- 
2.43.0


From d10d3050a8c39765d553ec33517890e19a1ae849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 10/41] fix: assigning a list, slist or tree iterator did not
 copy the value traits pointer of stateful value traits

---
 include/boost/intrusive/detail/list_iterator.hpp  | 2 +-
 include/boost/intrusive/detail/slist_iterator.hpp | 2 +-
 include/boost/intrusive/detail/tree_iterator.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/intrusive/detail/list_iterator.hpp b/include/boost/intrusive/detail/list_iterator.hpp
index 0a10e84..3e8bb3b 100644
--- a/include/boost/intrusive/detail/list_iterator.hpp
+++ b/include/boost/intrusive/detail/list_iterator.hpp
@@ -76,7 +76,7 @@ class list_iterator
    {}
 
    inline list_iterator &operator=(const list_iterator &other)
-   {  members_.nodeptr_ = other.members_.nodeptr_;  return *this;  }
+   {  members_ = other.members_;  return *this;  }
 
    inline node_ptr pointed_node() const
    { return members_.nodeptr_; }
diff --git a/include/boost/intrusive/detail/slist_iterator.hpp b/include/boost/intrusive/detail/slist_iterator.hpp
index 64387c4..002454f 100644
--- a/include/boost/intrusive/detail/slist_iterator.hpp
+++ b/include/boost/intrusive/detail/slist_iterator.hpp
@@ -82,7 +82,7 @@ class slist_iterator
    {}
 
    inline slist_iterator &operator=(const slist_iterator &other)
-   {  members_.nodeptr_ = other.members_.nodeptr_;  return *this;  }
+   {  members_ = other.members_;  return *this;  }
 
    inline node_ptr pointed_node() const
    { return members_.nodeptr_; }
diff --git a/include/boost/intrusive/detail/tree_iterator.hpp b/include/boost/intrusive/detail/tree_iterator.hpp
index f97cecb..a47bf1c 100644
--- a/include/boost/intrusive/detail/tree_iterator.hpp
+++ b/include/boost/intrusive/detail/tree_iterator.hpp
@@ -84,7 +84,7 @@ class tree_iterator
    {}
 
    inline tree_iterator &operator=(const tree_iterator &other)
-   {  members_.nodeptr_ = other.members_.nodeptr_;  return *this;  }
+   {  members_ = other.members_;  return *this;  }
 
    inline tree_iterator &operator=(node_ptr nodeptr)
    {  members_.nodeptr_ = nodeptr;  return *this;  }
-- 
2.43.0


From 6592c4ddf354846b8a0fae516e4f84e27f80c97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 11/41] fix: declare bs_multiset_impl and splay_multiset_impl
 in namespace boost::intrusive so that bs_set/splay_set can merge from them

---
 include/boost/intrusive/bs_set.hpp    | 6 +++---
 include/boost/intrusive/splay_set.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/intrusive/bs_set.hpp b/include/boost/intrusive/bs_set.hpp
index c3275dd..314d8d4 100644
--- a/include/boost/intrusive/bs_set.hpp
+++ b/include/boost/intrusive/bs_set.hpp
@@ -22,14 +22,14 @@
 #  pragma once
 #endif
 
+namespace boost {
+namespace intrusive {
+
 #if !defined(BOOST_INTRUSIVE_DOXYGEN_INVOKED)
 template<class ValueTraits, class VoidOrKeyOfValue, class Compare, class SizeType, bool ConstantTimeSize, typename HeaderHolder>
 class bs_multiset_impl;
 #endif
 
-namespace boost {
-namespace intrusive {
-
 //! The class template bs_set is an intrusive container, that mimics most of
 //! the interface of std::set as described in the C++ standard.
 //!
diff --git a/include/boost/intrusive/splay_set.hpp b/include/boost/intrusive/splay_set.hpp
index f11424a..9d05206 100644
--- a/include/boost/intrusive/splay_set.hpp
+++ b/include/boost/intrusive/splay_set.hpp
@@ -22,14 +22,14 @@
 #  pragma once
 #endif
 
+namespace boost {
+namespace intrusive {
+
 #if !defined(BOOST_INTRUSIVE_DOXYGEN_INVOKED)
 template<class ValueTraits, class VoidOrKeyOfValue, class Compare, class SizeType, bool ConstantTimeSize, typename HeaderHolder>
 class splay_multiset_impl;
 #endif
 
-namespace boost {
-namespace intrusive {
-
 //! The class template splay_set is an intrusive container, that mimics most of
 //! the interface of std::set as described in the C++ standard.
 //!
-- 
2.43.0


From 9d73e9a033986e98213022ce6d750c87d09b6f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 12/41] fix: splaytree::splay_down did not compile

---
 include/boost/intrusive/splaytree.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/boost/intrusive/splaytree.hpp b/include/boost/intrusive/splaytree.hpp
index e25647c..983228e 100644
--- a/include/boost/intrusive/splaytree.hpp
+++ b/include/boost/intrusive/splaytree.hpp
@@ -496,9 +496,7 @@ class splaytree_impl
    template<class KeyType, class KeyTypeKeyCompare>
    iterator splay_down(const KeyType &key, KeyTypeKeyCompare comp)
    {
-      detail::key_nodeptr_comp<value_compare, value_traits>
-         key_node_comp(comp, &this->get_value_traits());
-      node_ptr r = node_algorithms::splay_down(tree_type::header_ptr(), key, key_node_comp);
+      node_ptr r = node_algorithms::splay_down(tree_type::header_ptr(), key, this->key_node_comp(comp));
       return iterator(r, this->priv_value_traits_ptr());
    }
 
-- 
2.43.0


From 9a68bdaed29566eac2912421adebe7187d5109fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:08 +0000
Subject: [PATCH 13/41] fix: count(key, comp) of unique ordered sets ignored
 comparisons that match several elements

---
 include/boost/intrusive/avl_set.hpp   | 2 +-
 include/boost/intrusive/bs_set.hpp    | 2 +-
 include/boost/intrusive/set.hpp       | 2 +-
 include/boost/intrusive/sg_set.hpp    | 2 +-
 include/boost/intrusive/splay_set.hpp | 2 +-
 include/boost/intrusive/treap_set.hpp | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/intrusive/avl_set.hpp b/include/boost/intrusive/avl_set.hpp
index 2d76ece..e006273 100644
--- a/include/boost/intrusive/avl_set.hpp
+++ b/include/boost/intrusive/avl_set.hpp
@@ -301,7 +301,7 @@ class avl_set_impl
    //! @copydoc ::boost::intrusive::avltree::count(const KeyType&,KeyTypeKeyCompare)const
    template<class KeyType, class KeyTypeKeyCompare>
    size_type count(const KeyType& key, KeyTypeKeyCompare comp) const
-   {  return static_cast<size_type>(this->tree_type::find(key, comp) != this->tree_type::cend()); }
+   {  return this->tree_type::count(key, comp); }
 
    #ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
 
diff --git a/include/boost/intrusive/bs_set.hpp b/include/boost/intrusive/bs_set.hpp
index 314d8d4..6e92b07 100644
--- a/include/boost/intrusive/bs_set.hpp
+++ b/include/boost/intrusive/bs_set.hpp
@@ -298,7 +298,7 @@ class bs_set_impl
    //! @copydoc ::boost::intrusive::bstree::count(const KeyType&,KeyTypeKeyCompare)const
    template<class KeyType, class KeyTypeKeyCompare>
    size_type count(const KeyType& key, KeyTypeKeyCompare comp) const
-   {  return static_cast<size_type>(this->tree_type::find(key, comp) != this->tree_type::cend()); }
+   {  return this->tree_type::count(key, comp); }
 
    #ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
 
diff --git a/include/boost/intrusive/set.hpp b/include/boost/intrusive/set.hpp
index 2a5859c..ce9ae2f 100644
--- a/include/boost/intrusive/set.hpp
+++ b/include/boost/intrusive/set.hpp
@@ -301,7 +301,7 @@ class set_impl
    //! @copydoc ::boost::intrusive::rbtree::count(const KeyType&,KeyTypeKeyCompare)const
    template<class KeyType, class KeyTypeKeyCompare>
    size_type count(const KeyType& key, KeyTypeKeyCompare comp) const
-   {  return static_cast<size_type>(this->tree_type::find(key, comp) != this->tree_type::cend()); }
+   {  return this->tree_type::count(key, comp); }
 
    #ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
 
diff --git a/include/boost/intrusive/sg_set.hpp b/include/boost/intrusive/sg_set.hpp
index ed0af55..63064e9 100644
--- a/include/boost/intrusive/sg_set.hpp
+++ b/include/boost/intrusive/sg_set.hpp
@@ -299,7 +299,7 @@ class sg_set_impl
    //! @copydoc ::boost::intrusive::sgtree::count(const KeyType&,KeyTypeKeyCompare)const
    template<class KeyType, class KeyTypeKeyCompare>
    size_type count(const KeyType& key, KeyTypeKeyCompare comp) const
-   {  return static_cast<size_type>(this->tree_type::find(key, comp) != this->tree_type::cend()); }
+   {  return this->tree_type::count(key, comp); }
 
    #ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
 
diff --git a/include/boost/intrusive/splay_set.hpp b/include/boost/intrusive/splay_set.hpp
index 9d05206..e72c961 100644
--- a/include/boost/intrusive/splay_set.hpp
+++ b/include/boost/intrusive/splay_set.hpp
@@ -299,7 +299,7 @@ class splay_set_impl
    //! @copydoc ::boost::intrusive::splaytree::count(const KeyType&,KeyTypeKeyCompare)const
    template<class KeyType, class KeyTypeKeyCompare>
    size_type count(const KeyType& key, KeyTypeKeyCompare comp) const
-   {  return static_cast<size_type>(this->tree_type::find(key, comp) != this->tree_type::cend()); }
+   {  return this->tree_type::count(key, comp); }
 
    #ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
 
diff --git a/include/boost/intrusive/treap_set.hpp b/include/boost/intrusive/treap_set.hpp
index f6a7a8f..c77cc5f 100644
--- a/include/boost/intrusive/treap_set.hpp
+++ b/include/boost/intrusive/treap_set.hpp
@@ -332,7 +332,7 @@ class treap_set_impl
    //! @copydoc ::boost::intrusive::treap::count(const KeyType&,KeyTypeKeyCompare)const
    template<class KeyType, class KeyTypeKeyCompare>
    size_type count(const KeyType& key, KeyTypeKeyCompare comp) const
-   {  return static_cast<size_type>(this->tree_type::find(key, comp) != this->tree_type::cend()); }
+   {  return this->tree_type::count(key, comp); }
 
    #ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
 
-- 
2.43.0


From 29d3961daca68792089571f17416a1b0dc0bc672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:08 +0000
Subject: [PATCH 14/41] fix: clone_from of ordered containers did not copy the
 comparison from an empty source

---
 include/boost/intrusive/bstree.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/intrusive/bstree.hpp b/include/boost/intrusive/bstree.hpp
index 8196d36..55d2577 100644
--- a/include/boost/intrusive/bstree.hpp
+++ b/include/boost/intrusive/bstree.hpp
@@ -1010,6 +1010,9 @@ class bstree_impl
          this->get_comp() = src.get_comp();
          rollback.release();
       }
+      else{
+         this->get_comp() = src.get_comp();
+      }
    }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
@@ -1045,6 +1048,9 @@ class bstree_impl
          this->get_comp() = src.get_comp();
          rollback.release();
       }
+      else{
+         this->get_comp() = src.get_comp();
+      }
    }
 
    //! <b>Requires</b>: value must be an lvalue
-- 
2.43.0


From ab87421e4302d38d9f688998c60d26efa8c56945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:08 +0000
Subject: [PATCH 15/41] fix: sgtree move assignment left the source with a
 stale maximum size and balance factor

---
 include/boost/intrusive/sgtree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/sgtree.hpp b/include/boost/intrusive/sgtree.hpp
index aaee165..39868f1 100644
--- a/include/boost/intrusive/sgtree.hpp
+++ b/include/boost/intrusive/sgtree.hpp
@@ -317,7 +317,7 @@ class sgtree_impl
    //! @copydoc ::boost::intrusive::bstree::operator=(bstree &&)
    sgtree_impl& operator=(BOOST_RV_REF(sgtree_impl) x)
    {
-      this->get_alpha_traits() = x.get_alpha_traits();
+      ::boost::adl_move_swap(this->get_alpha_traits(), x.get_alpha_traits());
       return static_cast<sgtree_impl&>(tree_type::operator=(BOOST_MOVE_BASE(tree_type, x)));
    }
 
-- 
2.43.0


From 484f4cba666d6db10567c72ac0002a1f20cb9aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:08 +0000
Subject: [PATCH 16/41] fix: treap operations documented to propagate
 exceptions of the priority comparison were marked noexcept and terminated the
 program

---
 include/boost/intrusive/treap.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/boost/intrusive/treap.hpp b/include/boost/intrusive/treap.hpp
index 4d8c916..0514fc1 100644
--- a/include/boost/intrusive/treap.hpp
+++ b/include/boost/intrusive/treap.hpp
@@ -777,7 +777,7 @@ class treap_impl
    //! the successor of "value" container ordering invariant will be broken.
    //! This is a low-level function to be used only for performance reasons
    //! by advanced users.
-   iterator insert_before(const_iterator pos, reference value) BOOST_NOEXCEPT
+   iterator insert_before(const_iterator pos, reference value)
    {
       node_ptr to_insert(this->get_value_traits().to_node_ptr(value));
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(to_insert));
@@ -807,7 +807,7 @@ class treap_impl
    //!   This function is slightly more efficient than using "insert_before".
    //!   This is a low-level function to be used only for performance reasons
    //!   by advanced users.
-   void push_back(reference value) BOOST_NOEXCEPT
+   void push_back(reference value)
    {
       node_ptr to_insert(this->get_value_traits().to_node_ptr(value));
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(to_insert));
@@ -830,7 +830,7 @@ class treap_impl
    //!   This function is slightly more efficient than using "insert_before".
    //!   This is a low-level function to be used only for performance reasons
    //!   by advanced users.
-   void push_front(reference value) BOOST_NOEXCEPT
+   void push_front(reference value)
    {
       node_ptr to_insert(this->get_value_traits().to_node_ptr(value));
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(to_insert));
@@ -847,7 +847,7 @@ class treap_impl
    //!
    //! <b>Note</b>: Invalidates the iterators (but not the references)
    //!    to the erased elements. No destructors are called.
-   iterator erase(const_iterator i) BOOST_NOEXCEPT
+   iterator erase(const_iterator i)
    {
       const_iterator ret(i);
       ++ret;
@@ -870,7 +870,7 @@ class treap_impl
    //!
    //! <b>Note</b>: Invalidates the iterators (but not the references)
    //!    to the erased elements. No destructors are called.
-   iterator erase(const_iterator b, const_iterator e) BOOST_NOEXCEPT
+   iterator erase(const_iterator b, const_iterator e)
    {  size_type n;   return private_erase(b, e, n);   }
 
    //! <b>Effects</b>: Erases all the elements with the given value.
@@ -921,7 +921,7 @@ class treap_impl
    //! <b>Note</b>: Invalidates the iterators
    //!    to the erased elements.
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator i, Disposer disposer) BOOST_NOEXCEPT
+   iterator erase_and_dispose(const_iterator i, Disposer disposer)
    {
       node_ptr to_erase(i.pointed_node());
       iterator ret(this->erase(i));
@@ -931,7 +931,7 @@ class treap_impl
 
    #if !defined(BOOST_INTRUSIVE_DOXYGEN_INVOKED)
    template<class Disposer>
-   iterator erase_and_dispose(iterator i, Disposer disposer) BOOST_NOEXCEPT
+   iterator erase_and_dispose(iterator i, Disposer disposer)
    {  return this->erase_and_dispose(const_iterator(i), disposer);   }
    #endif
 
@@ -948,7 +948,7 @@ class treap_impl
    //! <b>Note</b>: Invalidates the iterators
    //!    to the erased elements.
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer) BOOST_NOEXCEPT
+   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer)
    {  size_type n;   return private_erase(b, e, n, disposer);   }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
-- 
2.43.0


From 0f49c0591cf7b6b756952a5ee0237655d78868cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:31 +0000
Subject: [PATCH 17/41] fix: cloning an ordered container could set a wrong
 rightmost node

---
 include/boost/intrusive/bstree_algorithms.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/bstree_algorithms.hpp b/include/boost/intrusive/bstree_algorithms.hpp
index 45e6b18..4c3822e 100644
--- a/include/boost/intrusive/bstree_algorithms.hpp
+++ b/include/boost/intrusive/bstree_algorithms.hpp
@@ -1972,7 +1972,7 @@ class bstree_algorithms : public bstree_algorithms_base<NodeTraits>
                NodeTraits::set_parent(insertion_point, temp);
                NodeTraits::set_left  (temp, insertion_point);
                //Update leftmost
-               if(rightmost == target_sub_root)
+               if(temp == leftmost)
                   leftmost = insertion_point;
             }
             //Then clone right nodes
@@ -1988,7 +1988,8 @@ class bstree_algorithms : public bstree_algorithms_base<NodeTraits>
                NodeTraits::set_parent(insertion_point, temp);
                NodeTraits::set_right (temp, insertion_point);
                //Update rightmost
-               rightmost = insertion_point;
+               if(temp == rightmost)
+                  rightmost = insertion_point;
             }
             //If not, go up
             else if(current == source_root){
-- 
2.43.0


From c9ace191576de25e01a4af7f5c4ae512a927396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:39 +0000
Subject: [PATCH 18/41] fix: merging scapegoat trees rebuilt the source using
 the destination's balance factor

---
 include/boost/intrusive/sgtree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/sgtree.hpp b/include/boost/intrusive/sgtree.hpp
index 39868f1..b93a471 100644
--- a/include/boost/intrusive/sgtree.hpp
+++ b/include/boost/intrusive/sgtree.hpp
@@ -725,7 +725,7 @@ class sgtree_impl
          if( node_algorithms::transfer_unique
                ( this->header_ptr(), this->key_node_comp(this->key_comp()), this->size(), max_tree1_size
                , source.header_ptr(), p, source.size(), max_tree2_size
-               , this->get_h_alpha_func(), this->get_alpha_by_max_size_func()) ){
+               , this->get_h_alpha_func(), source.get_multiply_by_alpha_t()) ){
             this->max_tree_size_  = (size_type)max_tree1_size;
             this->sz_traits().increment();
             source.get_max_tree_size() = (size_type)max_tree2_size;
@@ -755,7 +755,7 @@ class sgtree_impl
          node_algorithms::transfer_equal
             ( this->header_ptr(), this->key_node_comp(this->key_comp()), this->size(), max_tree1_size
             , source.header_ptr(), p, source.size(), max_tree2_size
-            , this->get_h_alpha_func(), this->get_alpha_by_max_size_func());
+            , this->get_h_alpha_func(), source.get_multiply_by_alpha_t());
          this->max_tree_size_  = (size_type)max_tree1_size;
          this->sz_traits().increment();
          source.get_max_tree_size() = (size_type)max_tree2_size;
-- 
2.43.0


From 5e514c1cf567d7969dbb591e607ba7c15fcb8606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:07 +0000
Subject: [PATCH 19/41] fix: hashtable::equal_range left the bucket of a linear
 iterator uninitialized when the range ended inside a bucket

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 3e1293b..c01fd56 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -4179,7 +4179,7 @@ class hashtable_impl
          r.bucket_first = r.bucket_second = this->priv_invalid_bucket_ptr();
       }
       else if (to_return.second != this->priv_end_sit()) {
-         r.bucket_first = this->priv_bucket_ptr(n_bucket);
+         r.bucket_first = r.bucket_second = this->priv_bucket_ptr(n_bucket);
       }
       else{
          r.bucket_first = this->priv_bucket_ptr(n_bucket);
-- 
2.43.0


From 621223486b198f74f364da87db2c46e7bf90341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:07 +0000
Subject: [PATCH 20/41] fix: hashtable operator== skipped elements, advanced
 past the end and did not compare sizes of containers without constant-time
 size

---
 include/boost/intrusive/hashtable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index c01fd56..f8c2353 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3745,10 +3745,10 @@ class hashtable_impl
          return false;
       }
 
-      if (boost::intrusive::iterator_udistance(x.begin(), x.end()) != x.size())
+      if (boost::intrusive::iterator_udistance(x.begin(), x.end()) != y.size())
          return false;
          
-      for (const_iterator ix = x.cbegin(), ex = x.cend(); ix != ex; ++ix){
+      for (const_iterator ix = x.cbegin(), ex = x.cend(); ix != ex; ){
          std::pair<const_iterator, const_iterator> eqx(x.equal_range(key_of_value()(*ix))),
                                                    eqy(y.equal_range(key_of_value()(*ix)));
          if (boost::intrusive::iterator_distance(eqx.first, eqx.second) !=
-- 
2.43.0


From 0857cddbc8f538ff1579f28766c15a44231551df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:25 +0000
Subject: [PATCH 21/41] fix: rehashing a hashtable with optimize_multikey moved
 elements without their group

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index f8c2353..f18def1 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3888,7 +3888,7 @@ class hashtable_impl
 
                //If the target bucket is new, transfer the whole group
                siterator last = i;
-               (priv_go_to_last_in_group)(i, optimize_multikey_t());
+               (priv_go_to_last_in_group)(last, optimize_multikey_t());
 
                if(same_buffer && new_n == n){
                   before_i = last;
-- 
2.43.0


From f0d57ec4d89ec5e1dcc06ded5702bad1a46255aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:55 +0000
Subject: [PATCH 22/41] fix: hashtable::clone_from did not always copy the hash
 function and the equality predicate and placed clones with its own ones

---
 include/boost/intrusive/hashtable.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index f18def1..9bed183 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3924,6 +3924,9 @@ class hashtable_impl
    void priv_clone_from(MaybeConstHashtableImpl &src, Cloner cloner, Disposer disposer)
    {
       this->clear_and_dispose(disposer);
+      //Cloned elements must be placed and compared with the functors of the source
+      this->priv_hasher() = src.priv_hasher();
+      this->priv_equal()  = src.priv_equal();
       if(!constant_time_size || !src.empty()){
          const size_type src_bucket_count = src.bucket_count();
          const size_type dst_bucket_count = this->bucket_count();
@@ -4008,8 +4011,6 @@ class hashtable_impl
                (new_n, r, this->priv_stored_hash(b, store_hash_t()), cloner);
          }
       }
-      this->priv_hasher() = src.priv_hasher();
-      this->priv_equal()  = src.priv_equal();
       rollback.release();
       this->priv_size_count(src.priv_size_count());
       this->split_count(dst_bucket_count);
-- 
2.43.0


From 2c45d114202774e76881fcd8275804df9e0368ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:07 +0000
Subject: [PATCH 23/41] fix: hashtable::clone_from left clones and a wrong size
 behind, or accessed buckets out of range, when the cloner threw

---
 include/boost/intrusive/hashtable.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 9bed183..8926bab 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3990,11 +3990,7 @@ class hashtable_impl
       const size_type src_bucket_count = src.bucket_count();
       const size_type dst_bucket_count = this->bucket_count();
       size_type constructed = 0;
-      typedef typename internal_type::template typeof_node_disposer<Disposer>::type NodeDisposer;
-      NodeDisposer node_disp(disposer, &this->priv_value_traits());
-
-      exception_bucket_disposer<bucket_type, slist_node_algorithms, NodeDisposer, size_type>
-         rollback(this->priv_bucket(0), node_disp, constructed);
+      detail::exception_disposer<hashtable_impl, Disposer> rollback(*this, disposer);
       //Now insert the remaining ones using the modulo trick
       for( //"constructed" already initialized
          ; constructed < src_bucket_count
-- 
2.43.0


From 7ede53109083b62572d433ffb82f74179aeed6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:07 +0000
Subject: [PATCH 24/41] fix: hashtable::clone_from set a wrong prime index with
 fastmod_buckets

---
 include/boost/intrusive/hashtable.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 8926bab..e6ae47e 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -4009,7 +4009,6 @@ class hashtable_impl
       }
       rollback.release();
       this->priv_size_count(src.priv_size_count());
-      this->split_count(dst_bucket_count);
       this->priv_set_cache_bucket_num(0u);
       this->priv_erasure_update_cache();
    }
-- 
2.43.0


From 0b6a0a1994b2a3fa311d0a65c79f28814ff8373c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:55 +0000
Subject: [PATCH 25/41] fix: erasing a range inside a group of equivalent
 elements corrupted hashtables with optimize_multikey

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index e6ae47e..4f2e43b 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -1146,7 +1146,7 @@ struct bucket_plus_vtraits
                if(nf == group2) {   //Both first and last in the same group
                                     //so join group1 and group2
                   node_ptr const end1 = group_traits::get_next(group1);
-                  node_ptr const end2 = group_traits::get_next(group2);
+                  node_ptr const end2 = group_traits::get_next(nl);
                   group_traits::set_next(group1, end2);
                   group_traits::set_next(nl, end1);
                }
-- 
2.43.0


From 1cc9b8a17ad0fff4d924c062a90b78167b312a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:55 +0000
Subject: [PATCH 26/41] fix: unordered_set operator== ignored additional
 elements of the second container without constant-time size

---
 include/boost/intrusive/unordered_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/unordered_set.hpp b/include/boost/intrusive/unordered_set.hpp
index c53ec52..5494e33 100644
--- a/include/boost/intrusive/unordered_set.hpp
+++ b/include/boost/intrusive/unordered_set.hpp
@@ -386,7 +386,7 @@ class unordered_set_impl
 
    friend bool operator==(const unordered_set_impl &x, const unordered_set_impl &y)
    {
-      if(table_type::constant_time_size && x.size() != y.size()){
+      if(x.size() != y.size()){
          return false;
       }
       //Find each element of x in y
-- 
2.43.0


From 094e88c1f083a8687b8a84852a3384e0e395c493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:07 +0000
Subject: [PATCH 27/41] fix: hashtable::full_rehash with optimize_multikey
 updated the stored hash of only one element of each group

---
 include/boost/intrusive/hashtable.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 4f2e43b..6c28cd7 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3890,6 +3890,14 @@ class hashtable_impl
                siterator last = i;
                (priv_go_to_last_in_group)(last, optimize_multikey_t());
 
+               //The whole group shares the new hash value
+               if(do_full_rehash){
+                  for(siterator it(i); it != last; ){
+                     ++it;
+                     node_functions_t::store_hash(dcast_bucket_ptr<node>(it.pointed_node()), hash_value, store_hash_t());
+                  }
+               }
+
                if(same_buffer && new_n == n){
                   before_i = last;
                }
-- 
2.43.0


From 9d2706ce2edfe70e9fb9deca16c18a11327cbbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:53 +0000
Subject: [PATCH 28/41] fix: shrinking the buckets of a hashtable with
 cache_begin could cache an empty bucket as the first non-empty one

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 6c28cd7..fd45911 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3910,7 +3910,7 @@ class hashtable_impl
          else{
             const size_type new_n = (size_type)hash_to_bucket_split<power_2_buckets, incremental>
                                        (n, new_bucket_count, split, fastmod_buckets_t());
-            if(cache_begin && new_n < new_first_bucket_num)
+            if(cache_begin && new_n < new_first_bucket_num && !internal_type::priv_bucket_empty(old_bucket))
                new_first_bucket_num = new_n;
             bucket_type &new_b = new_buckets[difference_type(new_n)];
             siterator last = this->priv_get_last(old_bucket, optimize_multikey_t());
-- 
2.43.0


From 9ee7e3972e764f401d26a93b7e8a91cc483c3d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:00 +0000
Subject: [PATCH 29/41] fix: incremental_rehash(bucket_traits) left a wrong
 cached first bucket in empty hashtables with cache_begin

---
 include/boost/intrusive/hashtable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index fd45911..93cedb7 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3695,9 +3695,9 @@ class hashtable_impl
             slist_node_ptr old_bucket_node_ptr = old_buckets[difference_type(n)].get_node_ptr();
             slist_node_algorithms::transfer_after(new_bucket_nodeptr, old_bucket_node_ptr);
          }
-         //Reset cache to safe position
-         this->priv_set_cache_bucket_num(ini_n);
       }
+      //Update the cache: the position past the last bucket has changed
+      this->priv_set_cache_bucket_num(ini_n == old_bucket_count ? new_bucket_count : ini_n);
 
       this->priv_set_sentinel_bucket();
       return true;
-- 
2.43.0


From 9ca72af011776e513327fa35b602c06bd59d7cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:00 +0000
Subject: [PATCH 30/41] fix: incremental_rehash(false) could cache an empty
 bucket as the first non-empty one in hashtables with cache_begin

---
 include/boost/intrusive/hashtable.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 93cedb7..c59293f 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3638,7 +3638,8 @@ class hashtable_impl
          bucket_type &source_bucket = this->priv_bucket(split_idx-1u);
          slist_node_algorithms::transfer_after(target_bucket.get_node_ptr(), source_bucket.get_node_ptr());
          this->dec_split_count();
-         this->priv_insertion_update_cache(target_bucket_num);
+         if(!internal_type::priv_bucket_empty(target_bucket))
+            this->priv_insertion_update_cache(target_bucket_num);
       }
       return ret;
    }
-- 
2.43.0


From 3c7eae485fc5858159a38cc43a68bbed8619e653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:00 +0000
Subject: [PATCH 31/41] fix: a failed rehash left a hashtable with
 linear_buckets without its sentinel bucket

---
 include/boost/intrusive/hashtable.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index c59293f..6c374fe 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -766,6 +766,30 @@ class incremental_rehash_rollback
    bool released_;
 };
 
+//Sets again the sentinel bucket of linear buckets if an exception is thrown
+template<class BucketHolder>
+class sentinel_bucket_rollback
+{
+   const BucketHolder *holder_;
+
+   sentinel_bucket_rollback(const sentinel_bucket_rollback&);
+   sentinel_bucket_rollback &operator=(const sentinel_bucket_rollback&);
+
+   public:
+   inline explicit sentinel_bucket_rollback(const BucketHolder &holder)
+      :  holder_(&holder)
+   {}
+
+   inline void release()
+   {  holder_ = 0;  }
+
+   inline ~sentinel_bucket_rollback()
+   {
+      if(holder_)
+         holder_->priv_set_sentinel_bucket();
+   }
+};
+
 template<class NodeTraits>
 struct node_functions
 {
@@ -3844,6 +3868,7 @@ class hashtable_impl
       typedef typename internal_type::template typeof_node_disposer<detail::null_disposer>::type NodeDisposer;
       typedef exception_bucket_disposer<bucket_type, slist_node_algorithms, NodeDisposer, size_type> ArrayDisposer;
       NodeDisposer nd(this->make_node_disposer(detail::null_disposer()));
+      sentinel_bucket_rollback<internal_type> rollback0(*this);
       ArrayDisposer rollback1(new_buckets[0], nd, new_bucket_count);
       ArrayDisposer rollback2(old_buckets[0], nd, old_bucket_count);
 
@@ -3925,6 +3950,7 @@ class hashtable_impl
          this->priv_bucket_traits() = new_bucket_traits;
       this->priv_set_sentinel_bucket();
       this->priv_set_cache_bucket_num(new_first_bucket_num);
+      rollback0.release();
       rollback1.release();
       rollback2.release();
    }
-- 
2.43.0


From 62ad5c748d0f93920124fa30e00ae8680228c56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:16 +0000
Subject: [PATCH 32/41] fix: a failed incremental_rehash separated equivalent
 elements

---
 include/boost/intrusive/hashtable.hpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 6c374fe..8cdf6f4 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -728,7 +728,7 @@ struct group_functions
    }
 };
 
-template<class BucketType, class SplitTraits, class SlistNodeAlgorithms>
+template<class BucketType, class Iterator, class SplitTraits, class SlistNodeAlgorithms>
 class incremental_rehash_rollback
 {
    private:
@@ -741,8 +741,8 @@ class incremental_rehash_rollback
 
    public:
    incremental_rehash_rollback
-      (bucket_type &source_bucket, bucket_type &destiny_bucket, split_traits &split_tr)
-      :  source_bucket_(source_bucket),  destiny_bucket_(destiny_bucket)
+      (bucket_type &source_bucket, const Iterator &destiny_pos, split_traits &split_tr)
+      :  source_bucket_(source_bucket),  destiny_pos_(destiny_pos)
       ,  split_traits_(split_tr),  released_(false)
    {}
 
@@ -752,16 +752,17 @@ class incremental_rehash_rollback
    ~incremental_rehash_rollback()
    {
       if(!released_){
-         //If an exception is thrown, just put all moved nodes back in the old bucket
+         //If an exception is thrown, just put all moved nodes back in the position of the
+         //old bucket the last ones were taken from (equivalent elements must be kept together)
          //and move back the split mark.
-         SlistNodeAlgorithms::transfer_after(destiny_bucket_.get_node_ptr(), source_bucket_.get_node_ptr());
+         SlistNodeAlgorithms::transfer_after(destiny_pos_.pointed_node(), source_bucket_.get_node_ptr());
          split_traits_.decrement();
       }
    }
 
    private:
    bucket_type &source_bucket_;
-   bucket_type &destiny_bucket_;
+   const Iterator &destiny_pos_;
    split_traits &split_traits_;
    bool released_;
 };
@@ -3633,9 +3634,12 @@ class hashtable_impl
             //Anti-exception stuff: if an exception is thrown while
             //moving elements from old_bucket to the target bucket, all moved
             //elements are moved back to the original one.
-            incremental_rehash_rollback<bucket_type, split_traits, slist_node_algorithms> rollback
-               ( this->priv_bucket(split_idx), old_bucket, this->priv_split_traits());
+            bucket_type &new_bucket = this->priv_bucket(split_idx);
             siterator before_i(old_bucket.get_node_ptr());
+            siterator last_moved(new_bucket.get_node_ptr());
+            siterator rollback_pos(before_i);
+            incremental_rehash_rollback<bucket_type, siterator, split_traits, slist_node_algorithms> rollback
+               ( new_bucket, rollback_pos, this->priv_split_traits());
             siterator i(before_i); ++i;
             siterator end_sit = linear_buckets ? siterator() : before_i;
             for( ; i != end_sit; i = before_i, ++i){
@@ -3648,8 +3652,9 @@ class hashtable_impl
                   before_i = last;
                }
                else{
-                  bucket_type &new_b = this->priv_bucket(new_n);
-                  slist_node_algorithms::transfer_after(new_b.get_node_ptr(), before_i.pointed_node(), last.pointed_node());
+                  slist_node_algorithms::transfer_after(last_moved.pointed_node(), before_i.pointed_node(), last.pointed_node());
+                  last_moved = last;
+                  rollback_pos = before_i;
                }
             }
             rollback.release();
-- 
2.43.0


From d34e20eac1bef0fb55500de837a817f1dd1a3052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:48 +0000
Subject: [PATCH 33/41] fix: hashtable iterator's unconst did not compile with
 non-raw pointers

---
 include/boost/intrusive/detail/hashtable_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/detail/hashtable_node.hpp b/include/boost/intrusive/detail/hashtable_node.hpp
index 26c8480..149ba2b 100644
--- a/include/boost/intrusive/detail/hashtable_node.hpp
+++ b/include/boost/intrusive/detail/hashtable_node.hpp
@@ -165,7 +165,7 @@ class hashtable_iterator
    { return slist_it_; }
 
    inline hashtable_iterator<BucketValueTraits, LinearBuckets, false> unconst() const
-   {  return hashtable_iterator<BucketValueTraits, LinearBuckets, false>(this->slist_it(), this->get_bucket_value_traits());   }
+   {  return hashtable_iterator<BucketValueTraits, LinearBuckets, false>(this->slist_it(), boost::movelib::to_raw_pointer(this->get_bucket_value_traits()));   }
 
    inline hashtable_iterator& operator++()
    {  this->increment();   return *this;   }
-- 
2.43.0


From 2ee2ce99070b54f4186426b18093c275942eb383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 34/41] fix: bucket counts suggested for fastmod_buckets were
 truncated when they did not fit in a small size_type

---
 include/boost/intrusive/hashtable.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 8cdf6f4..4d0a85e 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -2118,6 +2118,9 @@ struct hashdata_internal
    {
       BOOST_IF_CONSTEXPR(fastmod_buckets){
          std::size_t s = prime_fmod_size::upper_size_index(n);
+         //Only a prime of the list can be used, so take the highest representable one
+         while(prime_fmod_size::size(s) > std::size_t(SizeType(-1)))
+            --s;
          return static_cast<SizeType>(prime_fmod_size::size(s));
       }
       else{
@@ -2129,6 +2132,9 @@ struct hashdata_internal
    {
       BOOST_IF_CONSTEXPR(fastmod_buckets){
          std::size_t s = prime_fmod_size::lower_size_index(n);
+         //Only a prime of the list can be used, so take the highest representable one
+         while(prime_fmod_size::size(s) > std::size_t(SizeType(-1)))
+            --s;
          return static_cast<SizeType>(prime_fmod_size::size(s));
       }
       else{
-- 
2.43.0


From aafb89ebc12aa2fe525208fd3ad0c2b52ed3fac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 35/41] fix: splaytree_algorithms::count with a non-const
 header did not compile

next_node is a member of the dependent base class, so the unqualified name is not found at instantiation.
---
 include/boost/intrusive/splaytree_algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/splaytree_algorithms.hpp b/include/boost/intrusive/splaytree_algorithms.hpp
index bef440a..28008ee 100644
--- a/include/boost/intrusive/splaytree_algorithms.hpp
+++ b/include/boost/intrusive/splaytree_algorithms.hpp
@@ -299,7 +299,7 @@ class splaytree_algorithms
       std::size_t n = 0;
       while(ret.first != ret.second){
          ++n;
-         ret.first = next_node(ret.first);
+         ret.first = bstree_algo::next_node(ret.first);
       }
       return n;
    }
-- 
2.43.0


From 56b16759ef00d9d19ab07d44b12818eabfd3086d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 36/41] fix: cloning an empty tree left a broken header

clone of the tree algorithms stored the header as root and null as leftmost and rightmost nodes of the target
when the source tree is empty; an empty tree has no root and the header as leftmost and rightmost node.
---
 include/boost/intrusive/bstree_algorithms.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/bstree_algorithms.hpp b/include/boost/intrusive/bstree_algorithms.hpp
index 4c3822e..28fec71 100644
--- a/include/boost/intrusive/bstree_algorithms.hpp
+++ b/include/boost/intrusive/bstree_algorithms.hpp
@@ -1938,10 +1938,11 @@ class bstree_algorithms : public bstree_algorithms_base<NodeTraits>
       , node_ptr &leftmost_out, node_ptr &rightmost_out
       )
    {
-      node_ptr target_sub_root = target_parent;
+      node_ptr target_sub_root = node_ptr();
       node_ptr source_root = NodeTraits::get_parent(source_parent);
       if(!source_root){
-         leftmost_out = rightmost_out = source_root;
+         //The clone of an empty tree is an empty tree: no root and the header as leftmost/rightmost
+         leftmost_out = rightmost_out = target_parent;
       }
       else{
          //We'll calculate leftmost and rightmost nodes while iterating
-- 
2.43.0


From e1170eded7abe112441bcd1ccac07cf8c94bda9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 37/41] fix: list::merge compared some pairs twice

After moving a run of elements of x the comparison that ended the run was made again, so merge (and sort) made
more than the documented size() + x.size() - 1 comparisons.
---
 include/boost/intrusive/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/intrusive/list.hpp b/include/boost/intrusive/list.hpp
index 9871d97..0106ae6 100644
--- a/include/boost/intrusive/list.hpp
+++ b/include/boost/intrusive/list.hpp
@@ -1093,6 +1093,8 @@ class list_impl
                ++ix; ++n;
             } while(ix != ex && p(*ix, *b));
             this->splice(b, x, x.begin(), ix, n);
+            //*b was already compared with the next element of x, don't compare them again
+            ++b;
          }
       }
    }
-- 
2.43.0


From 56a642df418a5d44a5ab0ebb9d9f6e3ad810f24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 38/41] fix: slist::incorporate_after without a count did not
 compile with constant_time_size

f and before_l are node pointers, they have no pointed_node().
---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 080aba8..468ce59 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1884,7 +1884,7 @@ class slist_impl
    void incorporate_after(const_iterator prev_pos, node_ptr f, node_ptr before_l) BOOST_NOEXCEPT
    {
       BOOST_IF_CONSTEXPR(constant_time_size)
-         this->incorporate_after(prev_pos, f, before_l, node_algorithms::distance(f.pointed_node(), before_l.pointed_node())+1);
+         this->incorporate_after(prev_pos, f, before_l, node_algorithms::distance(f, before_l)+1);
       else
          this->priv_incorporate_after(prev_pos.pointed_node(), f, before_l);
    }
-- 
2.43.0


From 68369018922cb6736c1fd82f30dc61ab26c84746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 39/41] fix: slist::merge compared some pairs more than once

After moving a run of elements of x the search started again before that run, so merge (and sort) made more than
the documented size() + x.size() - 1 comparisons and compared elements of x with each other.
---
 include/boost/intrusive/slist.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 468ce59..17069f7 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1551,6 +1551,8 @@ class slist_impl
             } while(++(ibx_next = ibx) != ex && p(*ibx_next, *bb_next));
             this->splice_after(bb, x, x.before_begin(), ibx, n);
             if(l) *l = ibx;
+            //bb_next was already compared with the next element of x, don't compare them again
+            bb = bb_next;
          }
       }
    }
-- 
2.43.0


From c58f5d3b914a8df00074a936c3041a6ddce258b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:04 +0000
Subject: [PATCH 40/41] fix: function_hook converts between hook and node
 pointers through pointer_traits

fhtraits built node_ptr and hook_ptr from raw pointers, so function hooks did
not compile with pointer types that are not constructible from raw pointers
(the documented requirement is pointer_traits only).
---
 .../boost/intrusive/detail/hook_traits.hpp    | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/boost/intrusive/detail/hook_traits.hpp b/include/boost/intrusive/detail/hook_traits.hpp
index bc51cde..cd33eb1 100644
--- a/include/boost/intrusive/detail/hook_traits.hpp
+++ b/include/boost/intrusive/detail/hook_traits.hpp
@@ -165,10 +165,16 @@ struct fhtraits
    static const link_mode_type link_mode = hook_type::hooktags::link_mode;
 
    inline static node_ptr to_node_ptr(reference value)
-   {  return static_cast<node*>(boost::movelib::to_raw_pointer(Functor::to_hook_ptr(value)));  }
+   {
+      return pointer_traits<node_ptr>::pointer_to
+         (*static_cast<node*>(boost::movelib::to_raw_pointer(Functor::to_hook_ptr(value))));
+   }
 
    inline static const_node_ptr to_node_ptr(const_reference value)
-   {  return static_cast<const node*>(boost::movelib::to_raw_pointer(Functor::to_hook_ptr(value)));  }
+   {
+      return pointer_traits<const_node_ptr>::pointer_to
+         (*static_cast<const node*>(boost::movelib::to_raw_pointer(Functor::to_hook_ptr(value))));
+   }
 
    inline static pointer to_value_ptr(node_ptr n)
    {  return Functor::to_value_ptr(to_hook_ptr(n));  }
@@ -178,10 +184,16 @@ struct fhtraits
 
    private:
    inline static hook_ptr to_hook_ptr(node_ptr n)
-   {  return hook_ptr(&*static_cast<hook_type*>(&*n));  }
+   {
+      return pointer_traits<hook_ptr>::pointer_to
+         (*static_cast<hook_type*>(boost::movelib::to_raw_pointer(n)));
+   }
 
    inline static const_hook_ptr to_hook_ptr(const_node_ptr n)
-   {  return const_hook_ptr(&*static_cast<const hook_type*>(&*n));  }
+   {
+      return pointer_traits<const_hook_ptr>::pointer_to
+         (*static_cast<const hook_type*>(boost::movelib::to_raw_pointer(n)));
+   }
 };
 
 
-- 
2.43.0


From 648041aa86cdfa400b40afedbd32c724f1ed0132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:04 +0000
Subject: [PATCH 41/41] fix: derivation_value_traits converts values to node
 pointers through pointer_traits

to_node_ptr constructed node_ptr from a raw pointer (and dropped the const
qualification), so the traits did not compile with fancy pointers.
---
 include/boost/intrusive/derivation_value_traits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/derivation_value_traits.hpp b/include/boost/intrusive/derivation_value_traits.hpp
index 6260312..bd0851c 100644
--- a/include/boost/intrusive/derivation_value_traits.hpp
+++ b/include/boost/intrusive/derivation_value_traits.hpp
@@ -53,10 +53,10 @@ struct derivation_value_traits
    static const link_mode_type link_mode = LinkMode;
 
    BOOST_INTRUSIVE_FORCEINLINE static node_ptr to_node_ptr(reference value) BOOST_NOEXCEPT
-   { return node_ptr(&value); }
+   { return pointer_traits<node_ptr>::pointer_to(static_cast<node&>(value)); }
 
    BOOST_INTRUSIVE_FORCEINLINE static const_node_ptr to_node_ptr(const_reference value) BOOST_NOEXCEPT
-   { return node_ptr(&value); }
+   { return pointer_traits<const_node_ptr>::pointer_to(static_cast<const node&>(value)); }
 
    BOOST_INTRUSIVE_FORCEINLINE static pointer to_value_ptr(node_ptr n) BOOST_NOEXCEPT
    {
-- 
2.43.0

