From d40d97f5c96bacf15543fc21e7b980bbfd4c706f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:51 +0000
Subject: [PATCH 01/45] fix: parallel erase/erase_if must not report an erase
 when the key vanished while upgrading the lock

---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 649dab0..08567ac 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3924,7 +3924,7 @@ public:
             // we did an unlock/lock, need to call `find()` again
             it = set.find(key, hashval);
             if (it == set.end())
-                return 1;
+                return 0;
         }
         if (std::forward<F>(f)(const_cast<value_type&>(*it))) {
             set._erase(it);
-- 
2.43.0


From fd29110514653754c25be461ae88a6de8680cb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:51 +0000
Subject: [PATCH 02/45] fix: parallel clear() did not compile for containers
 with an auxiliary list (lru_cache, memoize_lru)

---
 include/gtl/phmap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 08567ac..e55dbc4 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3578,7 +3578,7 @@ public:
             UniqueLock m(inner);
             inner.set_.clear();
             if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
-                inner->aux_.clear();
+                inner.aux_.clear();
         }
     }
 
@@ -3589,7 +3589,7 @@ public:
         UniqueLock m(inner);
         inner.set_.clear();
         if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
-            inner->aux_.clear();
+            inner.aux_.clear();
     }
 
     // This overload kicks in when the argument is an rvalue of insertable and
-- 
2.43.0


From 172219afa55ae64b39dd4e34efd3494a197dee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:51 +0000
Subject: [PATCH 03/45] fix: parallel extract(key) searched and removed the
 element without holding the submap lock

---
 include/gtl/phmap.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index e55dbc4..c2f0ce2 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -4119,8 +4119,12 @@ public:
 
     template<class K = key_type, typename std::enable_if_t<!std::is_same_v<K, iterator>, int> = 0>
     node_type extract(const key_arg<K>& key) {
-        auto it = find(key);
-        return it == end() ? node_type() : extract(const_iterator{ it });
+        size_t     hashval = this->hash(key);
+        Inner&     inner   = sets_[subidx(hashval)];
+        auto&      set     = inner.set_;
+        UniqueLock m(inner);
+        auto       it = set.find(key, hashval);
+        return it == set.end() ? node_type() : set.extract(EmbeddedConstIterator(it));
     }
 
     template<class Mtx2_>
-- 
2.43.0


From 218a6b1693ddc5dbf4f5d2e9b24528af27669a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:36 +0000
Subject: [PATCH 04/45] fix: parallel swap() deadlocked on self swap and on
 concurrent a.swap(b) / b.swap(a), and left the auxiliary list behind

---
 include/gtl/phmap.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index c2f0ce2..569b43b 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -4135,9 +4135,23 @@ public:
         using Lockable2 = LockableImpl<Mtx2_>;
 
         for (size_t i = 0; i < num_tables; ++i) {
-            UniqueLock                     l(sets_[i]);
-            typename Lockable2::UniqueLock l2(that.get_inner(i));
-            swap(sets_[i].set_, that.get_inner(i).set_);
+            auto& inner1 = sets_[i];
+            auto& inner2 = that.get_inner(i);
+            if (static_cast<const void*>(&inner1) == static_cast<const void*>(&inner2))
+                continue; // self swap
+            // always lock in address order, so that concurrent `a.swap(b)` and `b.swap(a)` cannot deadlock
+            UniqueLock                     l;
+            typename Lockable2::UniqueLock l2;
+            if (std::less<const void*>()(&inner1, &inner2)) {
+                l  = UniqueLock(inner1);
+                l2 = typename Lockable2::UniqueLock(inner2);
+            } else {
+                l2 = typename Lockable2::UniqueLock(inner2);
+                l  = UniqueLock(inner1);
+            }
+            swap(inner1.set_, inner2.set_);
+            if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
+                swap(inner1.aux_, inner2.aux_);
         }
     }
 
-- 
2.43.0


From 94eb683bed76aa1480ed387a5d01a8387901aa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:36 +0000
Subject: [PATCH 05/45] fix: comparing a parallel container with itself
 deadlocked, and shared locks of two containers were taken in argument order

---
 include/gtl/phmap.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 569b43b..2e1b8b9 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -467,7 +467,10 @@ public:
         explicit WriteLocks(mutex_type& m1, mutex_type& m2)
             : _m1(m1)
             , _m2(m2) {
-            std::lock(m1, m2);
+            if (&m1 == &m2)
+                m1.lock();
+            else
+                std::lock(m1, m2);
         }
 
         WriteLocks(adopt_lock_t, mutex_type& m1, mutex_type& m2)
@@ -477,7 +480,8 @@ public:
 
         ~WriteLocks() {
             _m1.unlock();
-            _m2.unlock();
+            if (&_m1 != &_m2)
+                _m2.unlock();
         }
 
         WriteLocks(WriteLocks const&)            = delete;
@@ -496,8 +500,12 @@ public:
         explicit ReadLocks(mutex_type& m1, mutex_type& m2)
             : _m1(m1)
             , _m2(m2) {
-            _m1.lock_shared();
-            _m2.lock_shared();
+            // lock each mutex once, and always in address order, so that two comparisons of the same
+            // containers cannot deadlock with waiting writers
+            const bool in_order = !std::less<mutex_type*>()(&m2, &m1);
+            (in_order ? m1 : m2).lock_shared();
+            if (&m1 != &m2)
+                (in_order ? m2 : m1).lock_shared();
         }
 
         ReadLocks(adopt_lock_t, mutex_type& m1, mutex_type& m2)
@@ -507,7 +515,8 @@ public:
 
         ~ReadLocks() {
             _m1.unlock_shared();
-            _m2.unlock_shared();
+            if (&_m1 != &_m2)
+                _m2.unlock_shared();
         }
 
         ReadLocks(ReadLocks const&)            = delete;
-- 
2.43.0


From 52ef6e55bcd5bf0c204f1747ec3b62d25e6b3477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:40 +0000
Subject: [PATCH 06/45] fix: an element constructor or callback that throws
 during insertion left a hash container counting an element it does not hold

---
 include/gtl/phmap.hpp | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 2e1b8b9..7db93f5 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2198,7 +2198,7 @@ public:
         if (offset == (size_t)-1) {
             offset = prepare_insert(hashval);
             lazy_emplace_at(offset, std::forward<F>(f));
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
         }
         return iterator_at(offset);
     }
@@ -2222,7 +2222,7 @@ public:
         if (offset == (size_t)-1) {
             offset = prepare_insert(hashval);
             lazy_emplace_at(offset, std::forward<F>(f));
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
         } else
             _erase(iterator_at(offset));
     }
@@ -2554,7 +2554,7 @@ private:
         if (offset == (size_t)-1) {
             offset = prepare_insert(hashval);
             emplace_at(offset, std::forward<Args>(args)...);
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
             return { iterator_at(offset), true };
         }
         return { iterator_at(offset), false };
@@ -2585,7 +2585,7 @@ private:
             auto   res     = s.find_or_prepare_insert(key, hashval);
             if (res.second) {
                 PolicyTraits::transfer(&s.alloc_ref(), s.slots_ + res.first, &slot);
-                s.set_ctrl(res.first, H2(hashval));
+                s.commit_insert(res.first, hashval);
             } else if (do_destroy) {
                 PolicyTraits::destroy(&s.alloc_ref(), &slot);
             }
@@ -2603,7 +2603,7 @@ private:
             auto res = s.find_or_prepare_insert(key, hashval);
             if (res.second) {
                 PolicyTraits::transfer(&s.alloc_ref(), s.slots_ + res.first, &slot);
-                s.set_ctrl(res.first, H2(hashval));
+                s.commit_insert(res.first, hashval);
             } else if (do_destroy) {
                 PolicyTraits::destroy(&s.alloc_ref(), &slot);
             }
@@ -2884,11 +2884,19 @@ protected:
             rehash_and_grow_if_necessary();
             target = find_first_non_full(hashval);
         }
-        ++size_;
-        growth_left() -= IsEmpty(ctrl_[target.offset]);
         return target.offset;
     }
 
+    // Makes the element constructed at index `i`, returned by prepare_insert(), part of the container.
+    // Nothing is accounted for before this call, so that the container is unchanged if the construction
+    // of the element throws.
+    // --------------------------------------------------------------------------
+    void commit_insert(size_t i, size_t hashval) {
+        ++size_;
+        growth_left() -= IsEmpty(ctrl_[i]);
+        set_ctrl(i, H2(hashval));
+    }
+
     // Constructs the value in the space pointed by the iterator. This only works
     // after an unsuccessful find_or_prepare_insert() and before any other
     // modifications happen in the raw_hash_set.
@@ -3152,7 +3160,7 @@ private:
         if (offset == (size_t)-1) {
             offset = this->prepare_insert(hashval);
             this->emplace_at(offset, std::forward<K>(k), std::forward<V>(v));
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
             return { this->iterator_at(offset), true };
         }
         Policy::value(&*this->iterator_at(offset)) = std::forward<V>(v);
@@ -3169,7 +3177,7 @@ private:
                              std::piecewise_construct,
                              std::forward_as_tuple(std::forward<K>(k)),
                              std::forward_as_tuple(std::forward<Args>(args)...));
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
             return { this->iterator_at(offset), true };
         }
         return { this->iterator_at(offset), false };
@@ -3759,7 +3767,7 @@ public:
         if (offset == (size_t)-1) {
             offset = set.prepare_insert(hashval);
             set.emplace_at(offset, std::forward<Args>(args)...);
-            set.set_ctrl(offset, H2(hashval));
+            set.commit_insert(offset, hashval);
             return make_rv(&inner, { set.iterator_at(offset), true });
         }
         return make_rv(&inner, { set.iterator_at(offset), false });
@@ -3839,7 +3847,7 @@ public:
         if (offset == (size_t)-1) {
             offset = set.prepare_insert(hashval);
             set.lazy_emplace_at(offset, std::forward<F>(f));
-            set.set_ctrl(offset, H2(hashval));
+            set.commit_insert(offset, hashval);
         }
         return make_iterator(&inner, set.iterator_at(offset));
     }
@@ -3958,10 +3966,10 @@ public:
             // key not found. call fEmplace lambda which should invoke passed constructor
             if constexpr (std::is_same_v<gtl::priv::empty, aux_type>) {
                 inner->set_.lazy_emplace_at(std::get<1>(res), std::forward<FEmplace>(fEmplace));
-                inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+                inner->set_.commit_insert(std::get<1>(res), hashval);
             } else {
                 auto del = inner->set_.lazy_emplace_at(std::get<1>(res), std::forward<FEmplace>(fEmplace), inner->aux_);
-                inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+                inner->set_.commit_insert(std::get<1>(res), hashval);
                 if (del)
                     inner->set_.erase(*del);
             }
@@ -4656,7 +4664,7 @@ public:
                                    std::piecewise_construct,
                                    std::forward_as_tuple(std::forward<K>(k)),
                                    std::forward_as_tuple(std::forward<Args>(args)...));
-            inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+            inner->set_.commit_insert(std::get<1>(res), hashval);
         } else {
             auto it = this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res)));
             // call lambda. in case of the set, non "key" part of value_type can be changed
@@ -4679,7 +4687,7 @@ public:
                                    std::piecewise_construct,
                                    std::forward_as_tuple(std::forward<K>(k)),
                                    std::forward_as_tuple(std::forward<Args>(args)...));
-            inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+            inner->set_.commit_insert(std::get<1>(res), hashval);
         }
         auto it = this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res)));
         return { &*it, std::get<2>(res) };
@@ -4706,7 +4714,7 @@ private:
         typename Base::Inner* inner = std::get<0>(res);
         if (std::get<2>(res)) {
             inner->set_.emplace_at(std::get<1>(res), std::forward<K>(k), std::forward<V>(v));
-            inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+            inner->set_.commit_insert(std::get<1>(res), hashval);
         } else
             Policy::value(&*inner->set_.iterator_at(std::get<1>(res))) = std::forward<V>(v);
         return { this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res))), std::get<2>(res) };
@@ -4727,7 +4735,7 @@ private:
                                    std::piecewise_construct,
                                    std::forward_as_tuple(std::forward<K>(k)),
                                    std::forward_as_tuple(std::forward<Args>(args)...));
-            inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+            inner->set_.commit_insert(std::get<1>(res), hashval);
         }
         return { this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res))), std::get<2>(res) };
     }
-- 
2.43.0


From 9ff8f452134926ca50981fbd26aa3b07fb66babf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:37 +0000
Subject: [PATCH 07/45] fix: rehash() of a hash container could leave no empty
 slot, making the next lookup of an absent key loop forever

---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 7db93f5..1afb3fa 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2354,7 +2354,7 @@ public:
         // bitor is a faster way of doing `max` here. We will round up to the next
         // power-of-2-minus-1, so bitor is good enough.
         // ----------------------------------------------------------------------------
-        auto m = NormalizeCapacity((std::max)(n, size()));
+        auto m = NormalizeCapacity((std::max)(n, GrowthToLowerboundCapacity(size())));
         // n == 0 unconditionally rehashes as per the standard.
         if (n == 0 || m > capacity_) {
             resize(m);
-- 
2.43.0


From a82fe66a4dc6c15fad71397638661fc6fba3de73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:15 +0000
Subject: [PATCH 08/45] fix: copying a hash container whose element copy throws
 destroyed an element that was never constructed

---
 include/gtl/phmap.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 1afb3fa..5b37266 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1831,11 +1831,9 @@ public:
         for (const auto& v : that) {
             const size_t hashval = PolicyTraits::apply(HashElement{ hash_ref() }, v);
             auto         target  = find_first_non_full(hashval);
-            set_ctrl(target.offset, H2(hashval));
             emplace_at(target.offset, v);
+            commit_insert(target.offset, hashval);
         }
-        size_ = that.size();
-        growth_left() -= that.size();
     }
 
     raw_hash_set(raw_hash_set&& that) noexcept(std::is_nothrow_copy_constructible_v<hasher> &&
-- 
2.43.0


From 3173da8f85c7f0e1a6f5728fe3794bfc7b0caf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:12 +0000
Subject: [PATCH 09/45] fix: node hash containers leaked the node when
 constructing its element threw

---
 include/gtl/phmap.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 5b37266..33f1113 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -4838,6 +4838,19 @@ struct node_hash_policy {
 
     using slot_type = typename std::remove_cv_t<typename std::remove_reference_t<Reference>>*;
 
+    // owns the memory of a node until its element is constructed
+    template<class NodeAlloc, class T>
+    struct node_guard {
+        NodeAlloc& alloc_;
+        T*         node_;
+
+        T* release() { return std::exchange(node_, nullptr); }
+        ~node_guard() {
+            if (node_)
+                std::allocator_traits<NodeAlloc>::deallocate(alloc_, node_, 1);
+        }
+    };
+
     template<class Alloc, class... Args>
     static void construct(Alloc* alloc, slot_type* slot, Args&&... args) {
         *slot = Policy::new_element(alloc, std::forward<Args>(args)...);
@@ -4886,8 +4899,9 @@ struct NodeHashSetPolicy : gtl::priv::node_hash_policy<T&, NodeHashSetPolicy<T>>
         using ValueAlloc = typename std::allocator_traits<Allocator>::template rebind_alloc<T>;
         ValueAlloc value_alloc(*alloc);
         T*         res = std::allocator_traits<ValueAlloc>::allocate(value_alloc, 1);
+        typename NodeHashSetPolicy::template node_guard<ValueAlloc, T> guard{ value_alloc, res }; // frees the node if the construction throws
         std::allocator_traits<ValueAlloc>::construct(value_alloc, res, std::forward<Args>(args)...);
-        return res;
+        return guard.release();
     }
 
     template<class Allocator>
@@ -4925,8 +4939,9 @@ public:
         using PairAlloc = typename std::allocator_traits<Allocator>::template rebind_alloc<value_type>;
         PairAlloc   pair_alloc(*alloc);
         value_type* res = std::allocator_traits<PairAlloc>::allocate(pair_alloc, 1);
+        typename NodeHashMapPolicy::template node_guard<PairAlloc, value_type> guard{ pair_alloc, res }; // frees the node if the construction throws
         std::allocator_traits<PairAlloc>::construct(pair_alloc, res, std::forward<Args>(args)...);
-        return res;
+        return guard.release();
     }
 
     template<class Allocator>
-- 
2.43.0


From 5671c350f8c76fc362a95694b841ce2d0d6cfbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:41 +0000
Subject: [PATCH 10/45] fix: emplace of a non-decomposable value leaked it when
 growing the table failed, and did not compile for parallel containers (nor
 did insert(hint, node))

---
 include/gtl/phmap.hpp | 53 ++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 33f1113..9f33b05 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2575,17 +2575,27 @@ private:
         size_t        hashval;
     };
 
+    // Destroys a constructed slot, unless it was moved into place.
+    struct SlotGuard {
+        ~SlotGuard() {
+            if (slot_)
+                PolicyTraits::destroy(&s.alloc_ref(), slot_);
+        }
+        raw_hash_set& s;
+        slot_type*    slot_;
+    };
+
     template<bool do_destroy>
     struct InsertSlot {
         template<class K, class... Args>
         std::pair<iterator, bool> operator()(const K& key, Args&&...) && {
-            size_t hashval = s.hash(key);
-            auto   res     = s.find_or_prepare_insert(key, hashval);
+            SlotGuard guard{ s, do_destroy ? &slot : nullptr };
+            size_t    hashval = s.hash(key);
+            auto      res     = s.find_or_prepare_insert(key, hashval);
             if (res.second) {
                 PolicyTraits::transfer(&s.alloc_ref(), s.slots_ + res.first, &slot);
+                guard.slot_ = nullptr;
                 s.commit_insert(res.first, hashval);
-            } else if (do_destroy) {
-                PolicyTraits::destroy(&s.alloc_ref(), &slot);
             }
             return { s.iterator_at(res.first), res.second };
         }
@@ -2598,12 +2608,12 @@ private:
     struct InsertSlotWithHash {
         template<class K, class... Args>
         std::pair<iterator, bool> operator()(const K& key, Args&&...) && {
-            auto res = s.find_or_prepare_insert(key, hashval);
+            SlotGuard guard{ s, do_destroy ? &slot : nullptr };
+            auto      res = s.find_or_prepare_insert(key, hashval);
             if (res.second) {
                 PolicyTraits::transfer(&s.alloc_ref(), s.slots_ + res.first, &slot);
+                guard.slot_ = nullptr;
                 s.commit_insert(res.first, hashval);
-            } else if (do_destroy) {
-                PolicyTraits::destroy(&s.alloc_ref(), &slot);
             }
             return { s.iterator_at(res.first), res.second };
         }
@@ -3690,7 +3700,7 @@ public:
         return { make_iterator(&inner, res.position), res.inserted, res.inserted ? node_type() : std::move(res.node) };
     }
 
-    iterator insert(const_iterator, node_type&& node) { return insert(std::move(node)).first; }
+    iterator insert(const_iterator, node_type&& node) { return insert(std::move(node)).position; }
 
     struct ReturnKey_ {
         template<class Key, class... Args>
@@ -3738,12 +3748,13 @@ public:
         slot_type* slot = reinterpret_cast<slot_type*>(&raw);
 
         PolicyTraits::construct(&alloc_ref(), slot, std::forward<Args>(args)...);
-        const auto&                                             elem  = PolicyTraits::element(slot);
-        Inner&                                                  inner = sets_[subidx(hashval)];
-        auto&                                                   set   = inner.set_;
-        UniqueLock                                              m(inner);
-        typename EmbeddedSet::template InsertSlotWithHash<true> f{ inner, std::move(*slot), hashval };
-        return make_rv(PolicyTraits::apply(f, elem));
+        const auto& elem  = PolicyTraits::element(slot);
+        Inner&      inner = sets_[subidx(hashval)];
+        auto&       set   = inner.set_;
+        UniqueLock  m(inner);
+
+        using InsertSlot = typename EmbeddedSet::template InsertSlotWithHash<true>;
+        return make_rv(&inner, PolicyTraits::apply(InsertSlot{ set, std::move(*slot), hashval }, elem));
     }
 
     template<class... Args>
@@ -3806,17 +3817,17 @@ public:
     template<class... Args, typename std::enable_if_t<!IsDecomposable<Args...>::value, int> = 0>
     std::pair<iterator, bool> emplace(Args&&... args) {
         typename gtl::aligned_storage_t<sizeof(slot_type), alignof(slot_type)> raw;
-        slot_type* slot    = reinterpret_cast<slot_type*>(&raw);
-        size_t     hashval = this->hash(PolicyTraits::key(slot));
+        slot_type* slot = reinterpret_cast<slot_type*>(&raw);
 
         PolicyTraits::construct(&alloc_ref(), slot, std::forward<Args>(args)...);
-        const auto& elem  = PolicyTraits::element(slot);
-        Inner&      inner = sets_[subidx(hashval)];
-        auto&       set   = inner.set_;
+        const auto& elem    = PolicyTraits::element(slot);
+        size_t      hashval = PolicyTraits::apply(HashElement{ hash_ref() }, elem);
+        Inner&      inner   = sets_[subidx(hashval)];
+        auto&       set     = inner.set_;
         UniqueLock  m(inner);
 
-        typename EmbeddedSet::template InsertSlotWithHash<true> f{ inner, std::move(*slot), hashval };
-        return make_rv(PolicyTraits::apply(f, elem));
+        using InsertSlot = typename EmbeddedSet::template InsertSlotWithHash<true>;
+        return make_rv(&inner, PolicyTraits::apply(InsertSlot{ set, std::move(*slot), hashval }, elem));
     }
 
     template<class... Args>
-- 
2.43.0


From d66bc6f05099a55ffc82e54973cc0e0df55fe783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:12 +0000
Subject: [PATCH 11/45] fix: a lazy emplace callback that throws after
 constructing the element leaked it

---
 include/gtl/phmap.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 9f33b05..ac419aa 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2201,16 +2201,32 @@ public:
         return iterator_at(offset);
     }
 
+    // Destroys the element built by a lazy emplace callback, if the callback throws afterwards.
+    struct LazySlotGuard {
+        ~LazySlotGuard() {
+            if (constructed_ && !*pending_)
+                PolicyTraits::destroy(&s.alloc_ref(), constructed_);
+        }
+        raw_hash_set& s;
+        slot_type*    constructed_;
+        slot_type**   pending_; // points to nullptr once the element is constructed
+    };
+
     template<class K = key_type, class F, class C>
     decltype(auto) lazy_emplace_at(size_t& idx, F&& f, C& c) {
-        slot_type* slot = slots_ + idx;
-        return std::forward<F>(f)(constructor(&alloc_ref(), &slot), c);
+        slot_type*    slot = slots_ + idx;
+        LazySlotGuard guard{ *this, slots_ + idx, &slot };
+        decltype(auto) res = std::forward<F>(f)(constructor(&alloc_ref(), &slot), c);
+        guard.constructed_ = nullptr;
+        return res;
     }
 
     template<class K = key_type, class F>
     void lazy_emplace_at(size_t& idx, F&& f) {
-        slot_type* slot = slots_ + idx;
+        slot_type*    slot = slots_ + idx;
+        LazySlotGuard guard{ *this, slots_ + idx, &slot };
         std::forward<F>(f)(constructor(&alloc_ref(), &slot));
+        guard.constructed_ = nullptr;
         assert(!slot);
     }
 
-- 
2.43.0


From 95ebf6efc2e38aafaa30640455aca3cab1519c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:39 +0000
Subject: [PATCH 12/45] fix: hash container assignments paired memory with the
 wrong allocator when allocators propagate on assignment but not on swap;
 parallel move constructor ignored the allocator

---
 include/gtl/phmap.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index ac419aa..f06412b 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1879,6 +1879,7 @@ public:
         raw_hash_set tmp(that,
                          AllocTraits::propagate_on_container_copy_assignment::value ? that.alloc_ref() : alloc_ref());
         swap(tmp);
+        swap_alloc<AllocTraits::propagate_on_container_copy_assignment::value>(tmp);
         return *this;
     }
 
@@ -2854,10 +2855,23 @@ private:
         }
     }
 
+    // Completes a swap() done on behalf of an assignment: when the assignment propagates the allocator, it
+    // has to follow the memory it allocated, even if swap() does not propagate it.
+    template<bool propagate>
+    void swap_alloc(raw_hash_set& that) {
+        if constexpr (propagate && !AllocTraits::propagate_on_container_swap::value) {
+            using std::swap;
+            swap(alloc_ref(), that.alloc_ref());
+        } else {
+            (void)that;
+        }
+    }
+
     // TODO(alkis): Optimize this assuming *this and that don't overlap.
     raw_hash_set& move_assign(raw_hash_set&& that, std::true_type) {
         raw_hash_set tmp(std::move(that));
         swap(tmp);
+        swap_alloc<true>(tmp);
         return *this;
     }
     raw_hash_set& move_assign(raw_hash_set&& that, std::false_type) {
@@ -3563,7 +3577,8 @@ public:
                                                          std::is_nothrow_copy_constructible_v<allocator_type>)
         : parallel_hash_set(std::move(that), that.alloc_ref()) {}
 
-    parallel_hash_set(parallel_hash_set&& that, const allocator_type& a) {
+    parallel_hash_set(parallel_hash_set&& that, const allocator_type& a)
+        : parallel_hash_set(0, that.hash_ref(), that.eq_ref(), a) {
         for (size_t i = 0; i < num_tables; ++i)
             sets_[i].set_ = { std::move(that.sets_[i]).set_, a };
     }
-- 
2.43.0


From 761ee91a6882817b3f61838b0a8830774627e814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:41 +0000
Subject: [PATCH 13/45] fix: moving a parallel container left its auxiliary
 list behind (dangling lru_cache / memoize_lru entries)

---
 include/gtl/phmap.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index f06412b..041c46a 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3580,7 +3580,7 @@ public:
     parallel_hash_set(parallel_hash_set&& that, const allocator_type& a)
         : parallel_hash_set(0, that.hash_ref(), that.eq_ref(), a) {
         for (size_t i = 0; i < num_tables; ++i)
-            sets_[i].set_ = { std::move(that.sets_[i]).set_, a };
+            move_inner(sets_[i], that.sets_[i], EmbeddedSet(std::move(that.sets_[i]).set_, a));
     }
 
     parallel_hash_set& operator=(const parallel_hash_set& that) {
@@ -3592,8 +3592,10 @@ public:
     parallel_hash_set& operator=(parallel_hash_set&& that) noexcept(
         std::allocator_traits<allocator_type>::is_always_equal::value && std::is_nothrow_move_assignable_v<hasher> &&
         std::is_nothrow_move_assignable_v<key_equal>) {
+        if (this == &that)
+            return *this;
         for (size_t i = 0; i < num_tables; ++i)
-            sets_[i].set_ = std::move(that.sets_[i].set_);
+            move_inner(sets_[i], that.sets_[i], std::move(that.sets_[i].set_));
         return *this;
     }
 
@@ -4433,6 +4435,18 @@ private:
         return set.has_element(elem, hashval);
     }
 
+    // moves the set (passed as `src_set`) and the auxiliary container of a submap, which belong together
+    // --------------------------------------------------------------------
+    static void move_inner(Inner& dst, Inner& src, EmbeddedSet&& src_set) {
+        dst.set_ = std::move(src_set);
+        if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>) {
+            dst.aux_ = std::move(src.aux_);
+            src.aux_.clear();
+        } else {
+            (void)src;
+        }
+    }
+
     // TODO(alkis): Optimize this assuming *this and that don't overlap.
     // --------------------------------------------------------------------
     template<class Mtx2_>
-- 
2.43.0


From 2c3ffe1dbd4512483ca6802eefc27ca2778b1a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:51 +0000
Subject: [PATCH 14/45] fix: lru_cache::get updated the recency list while
 holding only a shared lock

---
 include/gtl/lru_cache.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gtl/lru_cache.hpp b/include/gtl/lru_cache.hpp
index bf9e4a1..1e51bcb 100644
--- a/include/gtl/lru_cache.hpp
+++ b/include/gtl/lru_cache.hpp
@@ -61,7 +61,8 @@ public:
     }
 
     std::optional<result_type> get(const K& k) {
-        if (result_type res; _cache.if_contains(k, [&](const auto& v, list_type& l) {
+        // `modify_if` because updating the list requires exclusive access
+        if (result_type res; _cache.modify_if(k, [&](const auto& v, list_type& l) {
                 res = v.second->second;
                 l.splice(l.begin(), l, v.second);
             }))
-- 
2.43.0


From 37edcda91c996dfd745567cdae86a32047f2975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:11 +0000
Subject: [PATCH 15/45] fix: a failed insertion into lru_cache or memoize_lru
 left an entry in the list that the map does not know

---
 include/gtl/lru_cache.hpp | 22 +++++++++++-----------
 include/gtl/memoize.hpp   | 22 +++++++++++-----------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/gtl/lru_cache.hpp b/include/gtl/lru_cache.hpp
index 1e51bcb..6fd8903 100644
--- a/include/gtl/lru_cache.hpp
+++ b/include/gtl/lru_cache.hpp
@@ -80,18 +80,18 @@ public:
                 l.splice(l.begin(), l, v.second);
             },
             [&](const typename map_type::constructor& ctor, list_type& l) {
-                // construct value_type in place when key not present
-                l.push_front(value_type(key, std::forward<Val>(value)));
-                ctor(key, l.begin());
-                if (l.size() > _max_size) {
-                    // remove oldest
-                    auto last = l.end();
-                    last--;
-                    auto to_delete = std::move(last->first);
+                // construct value_type in place when key not present. If anything throws, neither the map
+                // nor the list is changed.
+                list_type added;
+                added.push_front(value_type(key, std::forward<Val>(value)));
+                ctor(key, added.begin());
+                std::optional<key_type> to_delete;
+                if (l.size() + 1 > _max_size)
+                    to_delete.emplace(l.empty() ? key : l.back().first); // remove oldest
+                l.splice(l.begin(), added);
+                if (to_delete)
                     l.pop_back();
-                    return std::optional<key_type>{ to_delete };
-                }
-                return std::optional<key_type>{};
+                return to_delete;
             });
     }
 
diff --git a/include/gtl/memoize.hpp b/include/gtl/memoize.hpp
index 8076f92..1f08dc7 100644
--- a/include/gtl/memoize.hpp
+++ b/include/gtl/memoize.hpp
@@ -227,19 +227,19 @@ public:
                 l.splice(l.begin(), l, v.second);
             },
             [&](const typename map_type::constructor& ctor, list_type& l) {
-                // construct value_type in place when key not present
+                // construct value_type in place when key not present. If anything throws, neither the map
+                // nor the list is changed.
                 res = _f(args...);
-                l.push_front(value_type(key, res));
-                ctor(key, l.begin());
-                if (l.size() >= _max_size) {
-                    // remove oldest
-                    auto last = l.end();
-                    last--;
-                    auto to_delete = std::move(last->first);
+                list_type added;
+                added.push_front(value_type(key, res));
+                ctor(key, added.begin());
+                std::optional<key_type> to_delete;
+                if (l.size() + 1 >= _max_size)
+                    to_delete.emplace(l.empty() ? key : l.back().first); // remove oldest
+                l.splice(l.begin(), added);
+                if (to_delete)
                     l.pop_back();
-                    return std::optional<key_type>{ to_delete };
-                }
-                return std::optional<key_type>{};
+                return to_delete;
             });
         return res;
     }
-- 
2.43.0


From 66b86d5e6c7f5d57be5ead3d9984e9d34519960c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:39 +0000
Subject: [PATCH 16/45] fix: allocator-extended move construction of a hash
 container leaked what it had moved when a later element failed

---
 include/gtl/phmap.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 041c46a..85e635c 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1854,11 +1854,8 @@ public:
     }
 
     raw_hash_set(raw_hash_set&& that, const allocator_type& a)
-        : ctrl_(EmptyGroup<std_alloc_t>())
-        , slots_(nullptr)
-        , size_(0)
-        , capacity_(0)
-        , settings_(0, that.hash_ref(), that.eq_ref(), a) {
+        : raw_hash_set(0, that.hash_ref(), that.eq_ref(), a) {
+        // (delegating: the destructor cleans up if moving the elements below throws)
         if (a == that.alloc_ref()) {
             std::swap(ctrl_, that.ctrl_);
             std::swap(slots_, that.slots_);
-- 
2.43.0


From ec9e586ce5bf3b85100c6279745295331dc70b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:08 +0000
Subject: [PATCH 17/45] fix: a throwing element constructor left a btree with
 lost elements, destroyed twice or with an empty node

---
 include/gtl/btree.hpp | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/include/gtl/btree.hpp b/include/gtl/btree.hpp
index f01ac2b..6a76899 100644
--- a/include/gtl/btree.hpp
+++ b/include/gtl/btree.hpp
@@ -1956,7 +1956,25 @@ inline void btree_node<P>::emplace_value(const size_type i, allocator_type* allo
             params_type::move(alloc, slot(j - 1), slot(j));
         value_destroy(i, alloc);
     }
-    value_init(i, alloc, std::forward<Args>(args)...);
+    {
+        // If constructing the value throws, shift the old values back.
+        // ------------------------------------------------------------
+        struct ShiftBack {
+            btree_node*     node;
+            size_type       i;
+            allocator_type* alloc;
+            ~ShiftBack() {
+                if (node && i < node->count()) {
+                    node->value_init(i, alloc, node->slot(i + 1));
+                    for (size_type j = i + 1; j < node->count(); ++j)
+                        params_type::move(alloc, node->slot(j + 1), node->slot(j));
+                    node->value_destroy(node->count(), alloc);
+                }
+            }
+        } guard{ this, i, alloc };
+        value_init(i, alloc, std::forward<Args>(args)...);
+        guard.node = nullptr;
+    }
     set_count((field_type)(count() + 1));
 
     if (!leaf() && count() > i + 1) {
@@ -2975,7 +2993,21 @@ inline auto btree<P>::internal_emplace(iterator iter, Args&&... args) -> iterato
             rebalance_or_split(&iter);
         }
     }
-    iter.node->emplace_value(iter.position, mutable_allocator(), std::forward<Args>(args)...);
+    {
+        // A new root, or a node which was just split to make room at its end, may be
+        // empty: do not leave it in the tree if constructing the value throws.
+        // --------------------------------------------------------------------------
+        struct RemoveEmpty {
+            btree*   tree;
+            iterator iter;
+            ~RemoveEmpty() {
+                if (tree && iter.node->count() == 0)
+                    tree->rebalance_after_delete(iter);
+            }
+        } guard{ this, iter };
+        iter.node->emplace_value(iter.position, mutable_allocator(), std::forward<Args>(args)...);
+        guard.tree = nullptr;
+    }
     ++size_;
     return iter;
 }
-- 
2.43.0


From c5853382e4a9b850d6e8a9cda33be55d2e8c4e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:44 +0000
Subject: [PATCH 18/45] fix: an allocation failure while splitting btree nodes
 left an inconsistent tree

---
 include/gtl/btree.hpp | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/include/gtl/btree.hpp b/include/gtl/btree.hpp
index 6a76899..550140c 100644
--- a/include/gtl/btree.hpp
+++ b/include/gtl/btree.hpp
@@ -2764,6 +2764,22 @@ void btree<P>::rebalance_or_split(iterator* iter) {
     assert(node->count() == node->max_count());
     assert(kNodeValues == node->max_count());
 
+    // The node that will take half of the values if we have to split. It is
+    // allocated before anything changes in the tree, because allocating may throw.
+    // ----------------------------------------------------------------------------
+    struct SplitNode {
+        btree*     tree;
+        node_type* node;
+        ~SplitNode() {
+            if (node) {
+                if (node->leaf())
+                    tree->delete_leaf_node(node);
+                else
+                    tree->delete_internal_node(node);
+            }
+        }
+    } split{ this, nullptr };
+
     // First try to make room on the node by rebalancing.
     // --------------------------------------------------
     node_type* parent = node->parent();
@@ -2824,6 +2840,8 @@ void btree<P>::rebalance_or_split(iterator* iter) {
             }
         }
 
+        split.node = node->leaf() ? new_leaf_node(parent) : new_internal_node(parent);
+
         // Rebalancing failed, make sure there is room on the parent node for a new
         // value.
         // ------------------------------------------------------------------------
@@ -2837,6 +2855,7 @@ void btree<P>::rebalance_or_split(iterator* iter) {
         // Create a new root node and set the current root node as the child of the
         // new root.
         // ------------------------------------------------------------------------
+        split.node = node->leaf() ? new_leaf_node(parent) : new_internal_node(parent);
         parent = new_internal_node(parent);
         parent->init_child(0, root());
         mutable_root() = parent;
@@ -2847,16 +2866,10 @@ void btree<P>::rebalance_or_split(iterator* iter) {
 
     // Split the node.
     // ---------------
-    node_type* split_node;
-    if (node->leaf()) {
-        split_node = new_leaf_node(parent);
-        node->split(insert_position, split_node, mutable_allocator());
-        if (rightmost_ == node)
-            rightmost_ = split_node;
-    } else {
-        split_node = new_internal_node(parent);
-        node->split(insert_position, split_node, mutable_allocator());
-    }
+    node_type* split_node = std::exchange(split.node, nullptr);
+    node->split(insert_position, split_node, mutable_allocator());
+    if (node->leaf() && rightmost_ == node)
+        rightmost_ = split_node;
 
     if (insert_position > node->count()) {
         insert_position = insert_position - node->count() - 1;
-- 
2.43.0


From c5317a3680a8a45345e5e9b440fac93d96c3ed0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:10 +0000
Subject: [PATCH 19/45] fix: vector::emplace of one of the vector's own
 elements inserted a shifted or destroyed element

---
 include/gtl/vector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/gtl/vector.hpp b/include/gtl/vector.hpp
index 7c9c9de..5a1a5c0 100644
--- a/include/gtl/vector.hpp
+++ b/include/gtl/vector.hpp
@@ -1462,11 +1462,12 @@ private: // we have the private section first because it defines some macros
 public:
     template<class... Args>
     iterator emplace(const_iterator cpos, Args&&... args) {
+        // the arguments may refer to an element which is about to be shifted
         return do_real_insert(
             cpos,
             1,
-            [&] { return false; },
-            [&] { return iterator{}; },
+            [&] { return true; },
+            [&] { return insert(cpos, T(std::forward<Args>(args)...)); },
             [&](iterator start) { M_construct(start, std::forward<Args>(args)...); },
             [&](iterator start) { M_destroy(start); });
     }
-- 
2.43.0


From 0b642fec4bd57e627de7f86677e9e5492b2e35dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:31 +0000
Subject: [PATCH 20/45] fix: vector move assignment with unequal allocators
 terminated the program when it could not allocate

---
 include/gtl/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/vector.hpp b/include/gtl/vector.hpp
index 5a1a5c0..3c33bfd 100644
--- a/include/gtl/vector.hpp
+++ b/include/gtl/vector.hpp
@@ -751,7 +751,7 @@ public:
         return *this;
     }
 
-    vector& operator=(vector&& other) noexcept {
+    vector& operator=(vector&& other) noexcept(moveIsSwap::value || A::is_always_equal::value) {
         if (UNLIKELY(this == &other)) {
             return *this;
         }
-- 
2.43.0


From 44c755d05294daa76af16f49ddfd7de4dd8cb098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:56 +0000
Subject: [PATCH 21/45] fix: bit_vector::resize(n, true) left some of the new
 bits unset, and a failed resize changed the size

---
 include/gtl/bit_vector.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index e435943..61fdeff 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -80,9 +80,12 @@ public:
 
     // -------------------------------------------------------------------------------
     void resize(size_t num_bits, bool val = false) {
-        _sz              = num_bits;
         size_t num_slots = slot_cnt(num_bits);
+        size_t last_slot = slot(_sz);
         _s.resize(num_slots, val ? ones : 0);
+        if (val && num_bits > _sz && mod(_sz))
+            _s[last_slot] |= himask(_sz); // the unused bits of the last slot are now in use
+        _sz = num_bits;
         if (mod(num_bits))
             _s[num_slots - 1] &= ~himask(num_bits); // make sure to zero the remainder bits in last slot
         _check_extra_bits();
@@ -367,7 +370,7 @@ private:
     }
 
     std::vector<uint64_t, A> _s;
-    size_t                   _sz;
+    size_t                   _sz = 0;
 };
 
 // ---------------------------------------------------------------------------
@@ -775,8 +778,8 @@ public:
     }
 
     void resize(size_t sz, bool val = false) {
+        _s.resize(sz, val);
         _sz = sz;
-        _s.resize(_sz, val);
     }
 
     // bit access
-- 
2.43.0


From b2db35a05055d2a2c065e37549828b1349124533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:56 +0000
Subject: [PATCH 22/45] fix: a moved-from or unsuccessfully assigned bit_vector
 kept a size without the bits

---
 include/gtl/bit_vector.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index 61fdeff..fb426c0 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -15,6 +15,7 @@
 #include <cstring>
 #include <string>
 #include <type_traits>
+#include <utility>
 #include <vector>
 // #include <bit>
 #include <cassert>
@@ -76,6 +77,16 @@ template<class A>
 class storage {
 public:
     storage(size_t num_bits = 0, bool val = false) { resize(num_bits, val); }
+    storage(const storage&) = default;
+    storage(storage&& o) noexcept
+        : _s(std::move(o._s))
+        , _sz(std::exchange(o._sz, 0)) {
+        o._s.clear();
+    }
+    storage& operator=(storage o) noexcept {
+        swap(o);
+        return *this;
+    }
     size_t size() const { return _s.size(); } // size in slots
 
     // -------------------------------------------------------------------------------
@@ -777,6 +788,20 @@ public:
         *this = vals;
     }
 
+    vec(const vec&) = default;
+    vec(vec&& o) noexcept
+        : _sz(std::exchange(o._sz, 0))
+        , _s(std::move(o._s)) {}
+
+    vec& operator=(const vec& o) {
+        vec(o).swap(*this);
+        return *this;
+    }
+    vec& operator=(vec&& o) noexcept {
+        vec(std::move(o)).swap(*this);
+        return *this;
+    }
+
     void resize(size_t sz, bool val = false) {
         _s.resize(sz, val);
         _sz = sz;
-- 
2.43.0


From cd6b9219904a64f8da48134c1a6ac410b9b1c122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:19 +0000
Subject: [PATCH 23/45] fix: assigning a bit_view to a later view of the same
 bit_vector copied in the wrong direction or read bits it had overwritten

---
 include/gtl/bit_vector.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index fb426c0..60806fd 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -563,13 +563,14 @@ public:
 
     _view& operator=(const _view& o) {
         assert(size() == o.size());
-        if ((&_bv != &o._bv) || (_first < o._first) || (_first <= o._last)) {
+        if ((&_bv != &o._bv) || (_first < o._first) || (_first >= o._last)) {
             typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
             _bv.storage().template visit<vt::none>(_first, _last, [&](uint64_t, int) { return seq(); });
         } else if (_first > o._first) {
             // both views are on same bitmap, and we are copying backward with an overlap
-            typename S::bit_sequence seq(_bv.storage(), _first, _last, o._first);
-            o._bv.storage().template visit<vt::none>(o._first, o._last, [&](uint64_t, int) { return seq(); });
+            vec_type tmp(o.size());
+            tmp.view() = o;
+            *this      = tmp.view();
         }
         return *this;
     }
-- 
2.43.0


From 4ad86ac6bcab6f795a0845c8c99520652e9af015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:19 +0000
Subject: [PATCH 24/45] fix: find_first and find_next of a bit_view (and
 bit_vector::find_next) missed or misplaced bits in the last slot

---
 include/gtl/bit_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index 60806fd..58141eb 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -697,8 +697,8 @@ public:
         size_t idx = _first;
         _bv.storage().template visit<vt::view>(_first, _last, [&](uint64_t v, int shift) {
             if (v) {
-                idx += countr_zero(v) - shift; // we could use std::countr_zero in c++20
-                return true;                   // stop iterating
+                idx += countr_zero(v) - (shift > 0 ? shift : 0); // we could use std::countr_zero in c++20
+                return true;                                     // stop iterating
             } else {
                 idx += stride - shift;
                 return false;
-- 
2.43.0


From e537328afa6974d4c97287823dd7786f02ebfdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:19 +0000
Subject: [PATCH 25/45] fix: contains() of a bit_vector or bit_view with a
 smaller one read past its end

---
 include/gtl/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index 58141eb..07545e2 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -643,7 +643,7 @@ public:
             return false;
         bool                     res = true;
         typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
-        _bv.storage().template visit<vt::view>(_first, _last, [&](uint64_t v, int) {
+        _bv.storage().template visit<vt::view>(_first, _first + o.size(), [&](uint64_t v, int) {
             if ((v | seq()) != v) {
                 res = false;
             }
-- 
2.43.0


From e8bf3cc88c06a531f73cc49c00cae31cf97cfcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:19 +0000
Subject: [PATCH 26/45] fix: bit_vector operators returning a new bit_vector
 terminated the program when they could not allocate

---
 include/gtl/bit_vector.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index 07545e2..f231e6c 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -854,37 +854,37 @@ public:
 
     // bitwise operators on full bit_vector
     // ------------------------------------
-    vec operator|(const vec& o) const noexcept {
+    vec operator|(const vec& o) const {
         vec res(*this);
         res |= o;
         return res;
     }
-    vec operator&(const vec& o) const noexcept {
+    vec operator&(const vec& o) const {
         vec res(*this);
         res &= o;
         return res;
     }
-    vec operator^(const vec& o) const noexcept {
+    vec operator^(const vec& o) const {
         vec res(*this);
         res ^= o;
         return res;
     }
-    vec operator-(const vec& o) const noexcept {
+    vec operator-(const vec& o) const {
         vec res(*this);
         res -= o;
         return res;
     }
-    vec operator~() const noexcept {
+    vec operator~() const {
         vec res(*this);
         res.flip();
         return res;
     }
-    vec operator<<(size_t cnt) const noexcept {
+    vec operator<<(size_t cnt) const {
         vec res(*this);
         res <<= cnt;
         return res;
     }
-    vec operator>>(size_t cnt) const noexcept {
+    vec operator>>(size_t cnt) const {
         vec res(*this);
         res >>= cnt;
         return res;
-- 
2.43.0


From 8f342ecc73f1250961e7a94d8c6d3b697d53c94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:55 +0000
Subject: [PATCH 27/45] fix: assigning an integer to a bit_view that straddles
 two slots shifted by a negative amount

---
 include/gtl/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index f231e6c..eb74d2e 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -545,7 +545,7 @@ public:
         // only works for view width <= 64 bits
         assert(size() <= stride);
         _bv.storage().template visit<vt::none>(
-            _first, _last, [val](uint64_t, int shl) { return shl >= 0 ? val << shl : val >> shl; });
+            _first, _last, [val](uint64_t, int shl) { return shl >= 0 ? val << shl : val >> ((int)stride + shl); });
         return *this;
     }
 
-- 
2.43.0


From 57040d2d789ad30e6d34bf248473aa0b93ffd731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:45 +0000
Subject: [PATCH 28/45] fix: assigning an intrusive_ptr to one of another
 element type did not compile

---
 include/gtl/intrusive.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/gtl/intrusive.hpp b/include/gtl/intrusive.hpp
index 1d777a1..a45c25b 100644
--- a/include/gtl/intrusive.hpp
+++ b/include/gtl/intrusive.hpp
@@ -101,8 +101,7 @@ public:
 
     template<class U>
     intrusive_ptr& operator=(intrusive_ptr<U> const& rhs) {
-        if (this != &rhs)
-            this_type(rhs).swap(*this);
+        this_type(rhs).swap(*this);
         return *this;
     }
 
-- 
2.43.0


From 29fb27dc52a9265a66a0671126c89aad3d4a822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:58 +0000
Subject: [PATCH 29/45] fix: dumping or loading a hash container ignored i/o
 errors and truncated files, leaving a corrupt container

---
 include/gtl/phmap_dump.hpp | 107 ++++++++++++++++++++++++++++---------
 1 file changed, 83 insertions(+), 24 deletions(-)

diff --git a/include/gtl/phmap_dump.hpp b/include/gtl/phmap_dump.hpp
index e6193d8..a1e5a4a 100644
--- a/include/gtl/phmap_dump.hpp
+++ b/include/gtl/phmap_dump.hpp
@@ -49,6 +49,30 @@ namespace priv {
 static constexpr size_t s_version_base = std::numeric_limits<size_t>::max() - 32;
 static constexpr size_t s_version      = s_version_base + 1;
 
+// ------------------------------------------------------------------------
+// return false if the archive reports a failure. Archives which do not return
+// a bool (cereal for example) are expected to throw an exception in that case.
+// ------------------------------------------------------------------------
+template<typename OutputArchive, class T>
+bool save_binary(OutputArchive& ar, const T* p, size_t sz) {
+    if constexpr (std::is_same_v<decltype(ar.saveBinary(p, sz)), bool>)
+        return ar.saveBinary(p, sz);
+    else {
+        ar.saveBinary(p, sz);
+        return true;
+    }
+}
+
+template<typename InputArchive, class T>
+bool load_binary(InputArchive& ar, T* p, size_t sz) {
+    if constexpr (std::is_same_v<decltype(ar.loadBinary(p, sz)), bool>)
+        return ar.loadBinary(p, sz);
+    else {
+        ar.loadBinary(p, sz);
+        return true;
+    }
+}
+
 // ------------------------------------------------------------------------
 // dump/load for raw_hash_set
 // ------------------------------------------------------------------------
@@ -58,15 +82,14 @@ bool raw_hash_set<Policy, Hash, Eq, Alloc>::phmap_dump(OutputArchive& ar) const
     static_assert(type_traits_internal::IsTriviallyCopyable<value_type>::value,
                   "value_type should be trivially copyable");
 
-    ar.saveBinary(&s_version, sizeof(size_t));
-    ar.saveBinary(&size_, sizeof(size_t));
-    ar.saveBinary(&capacity_, sizeof(size_t));
+    if (!save_binary(ar, &s_version, sizeof(size_t)) || !save_binary(ar, &size_, sizeof(size_t)) ||
+        !save_binary(ar, &capacity_, sizeof(size_t)))
+        return false;
     if (size_ == 0)
         return true;
-    ar.saveBinary(&growth_left(), sizeof(size_t));
-    ar.saveBinary(ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1));
-    ar.saveBinary(slots_, sizeof(slot_type) * capacity_);
-    return true;
+    return save_binary(ar, &growth_left(), sizeof(size_t)) &&
+           save_binary(ar, ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1)) &&
+           save_binary(ar, slots_, sizeof(slot_type) * capacity_);
 }
 
 template<class Policy, class Hash, class Eq, class Alloc>
@@ -75,31 +98,53 @@ bool raw_hash_set<Policy, Hash, Eq, Alloc>::phmap_load(InputArchive& ar) {
     static_assert(type_traits_internal::IsTriviallyCopyable<value_type>::value,
                   "value_type should be trivially copyable");
     raw_hash_set<Policy, Hash, Eq, Alloc>().swap(*this); // clear any existing content
-    size_t version = 0;
-    ar.loadBinary(&version, sizeof(size_t));
+    size_t version  = 0;
+    size_t size     = 0;
+    size_t capacity = 0;
+    if (!load_binary(ar, &version, sizeof(size_t)))
+        return false;
     if (version <= s_version_base) {
         // we didn't store the version, version actually contains the size
         // we didn't store growth_left either
-        size_   = version;
+        size    = version;
         version = 0;
     } else {
-        ar.loadBinary(&size_, sizeof(size_t));
+        if (!load_binary(ar, &size, sizeof(size_t)))
+            return false;
         version -= s_version_base;
     }
-    ar.loadBinary(&capacity_, sizeof(size_t));
+    if (!load_binary(ar, &capacity, sizeof(size_t)))
+        return false;
 
-    if (capacity_) {
+    if (capacity) {
         // allocate memory for ctrl_ and slots_
-        initialize_slots(capacity_);
+        initialize_slots(capacity);
+        capacity_ = capacity;
     }
-    if (size_ == 0)
+    if (size == 0)
         return true;
+
+    // if the table cannot be loaded completely, leave the container empty
+    struct PartialLoad {
+        ~PartialLoad() {
+            if (s) {
+                s->reset_ctrl(s->capacity_);
+                s->destroy_slots();
+            }
+        }
+        raw_hash_set* s;
+    } partial{ this };
+
     if (version > 0) {
         // growth_left should be restored after calling initialize_slots() which resets it.
-        ar.loadBinary(&growth_left(), sizeof(size_t));
+        if (!load_binary(ar, &growth_left(), sizeof(size_t)))
+            return false;
     }
-    ar.loadBinary(ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1));
-    ar.loadBinary(slots_, sizeof(slot_type) * capacity_);
+    if (!load_binary(ar, ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1)) ||
+        !load_binary(ar, slots_, sizeof(slot_type) * capacity_))
+        return false;
+    partial.s = nullptr;
+    size_     = size;
     if (version == 0) {
         drop_deletes_without_resize(); // because we didn't load `&growth_left()`
     }
@@ -124,7 +169,8 @@ bool parallel_hash_set<N, RefSet, Mtx_, AuxCont, Policy, Hash, Eq, Alloc>::phmap
                   "value_type should be trivially copyable");
 
     size_t submap_count = subcnt();
-    ar.saveBinary(&submap_count, sizeof(size_t));
+    if (!save_binary(ar, &submap_count, sizeof(size_t)))
+        return false;
     for (size_t i = 0; i < sets_.size(); ++i) {
         auto&                         inner = sets_[i];
         typename Lockable::UniqueLock m(const_cast<Inner&>(inner));
@@ -151,12 +197,22 @@ bool parallel_hash_set<N, RefSet, Mtx_, AuxCont, Policy, Hash, Eq, Alloc>::phmap
                   "value_type should be trivially copyable");
 
     size_t submap_count = 0;
-    ar.loadBinary(&submap_count, sizeof(size_t));
+    if (!load_binary(ar, &submap_count, sizeof(size_t)))
+        return false;
     if (submap_count != subcnt()) {
         std::cerr << "submap count(" << submap_count << ") != N(" << N << ")" << std::endl;
         return false;
     }
 
+    // if the submaps cannot all be loaded, leave the container empty
+    struct PartialLoad {
+        ~PartialLoad() {
+            if (s)
+                s->clear();
+        }
+        parallel_hash_set* s;
+    } partial{ this };
+
     for (size_t i = 0; i < submap_count; ++i) {
         auto&                         inner = sets_[i];
         typename Lockable::UniqueLock m(const_cast<Inner&>(inner));
@@ -165,6 +221,7 @@ bool parallel_hash_set<N, RefSet, Mtx_, AuxCont, Policy, Hash, Eq, Alloc>::phmap
             return false;
         }
     }
+    partial.s = nullptr;
     return true;
 }
 
@@ -189,15 +246,17 @@ public:
     BinaryOutputArchive(const BinaryOutputArchive&) = delete;
     BinaryOutputArchive& operator=(const BinaryOutputArchive&) = delete;
 
+    // returns true if the data was completely written to the file
     bool saveBinary(const void* p, size_t sz) {
         ofs_.write(reinterpret_cast<const char*>(p), static_cast<std::streamsize>(sz));
-        return true;
+        ofs_.flush();
+        return ofs_.good();
     }
 
     template<typename V>
     typename std::enable_if<type_traits_internal::IsTriviallyCopyable<V>::value, bool>::type saveBinary(const V& v) {
         ofs_.write(reinterpret_cast<const char*>(&v), sizeof(V));
-        return true;
+        return ofs_.good();
     }
 
     template<typename Map>
@@ -219,13 +278,13 @@ public:
 
     bool loadBinary(void* p, size_t sz) {
         ifs_.read(reinterpret_cast<char*>(p), static_cast<std::streamsize>(sz));
-        return true;
+        return ifs_.good();
     }
 
     template<typename V>
     typename std::enable_if<type_traits_internal::IsTriviallyCopyable<V>::value, bool>::type loadBinary(V* v) {
         ifs_.read(reinterpret_cast<char*>(v), sizeof(V));
-        return true;
+        return ifs_.good();
     }
 
     template<typename Map>
-- 
2.43.0


From b42c79f2b962bf49b35f447d556196be7dfe67b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:25 +0000
Subject: [PATCH 30/45] fix: loading a small hash container from a file in the
 old format wrote past its memory

---
 include/gtl/phmap_dump.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap_dump.hpp b/include/gtl/phmap_dump.hpp
index a1e5a4a..05d7fe6 100644
--- a/include/gtl/phmap_dump.hpp
+++ b/include/gtl/phmap_dump.hpp
@@ -146,7 +146,11 @@ bool raw_hash_set<Policy, Hash, Eq, Alloc>::phmap_load(InputArchive& ar) {
     partial.s = nullptr;
     size_     = size;
     if (version == 0) {
-        drop_deletes_without_resize(); // because we didn't load `&growth_left()`
+        // we didn't load `&growth_left()`. Both full and deleted slots count as used.
+        size_t used = 0;
+        for (size_t i = 0; i != capacity_; ++i)
+            used += !IsEmpty(ctrl_[i]);
+        growth_left() = CapacityToGrowth(capacity_) - used;
     }
     return true;
 }
-- 
2.43.0


From eca85a1553776c218c1088bfa3b677b2ed9ce814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:04 +0000
Subject: [PATCH 31/45] fix: a failed soa insertion, resize or assignment left
 columns of different lengths

---
 include/gtl/soa.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/gtl/soa.hpp b/include/gtl/soa.hpp
index 0e9fe57..d343837 100644
--- a/include/gtl/soa.hpp
+++ b/include/gtl/soa.hpp
@@ -39,6 +39,7 @@
 #include <tuple>
 #include <vector>
 #include <gtl/bit_vector.hpp>
+#include <gtl/utils.hpp>
 
 namespace gtl {
 
@@ -53,6 +54,16 @@ public:
     template<size_t col_idx>
     using col_type = typename nth_col_type<col_idx>::value_type;
 
+    soa()                      = default;
+    soa(const soa&)            = default;
+    soa(soa&&)                 = default;
+    soa& operator=(soa&&)      = default;
+    soa& operator=(const soa& o) {
+        soa tmp(o); // may throw, before any column has been changed
+        data_.swap(tmp.data_);
+        return *this;
+    }
+
     template<size_t col_idx>
     const auto& get_column() const {
         return std::get<col_idx>(data_);
@@ -95,7 +106,10 @@ public:
     }
 
     void resize(size_t sz) {
+        size_t       num_elems = size();
+        scoped_guard rollback([this, num_elems] { truncate(num_elems); });
         std::apply([=](auto&... x) { (x.resize(sz), ...); }, data_);
+        rollback.dismiss();
     }
 
     void reserve(size_t sz) {
@@ -153,9 +167,21 @@ private:
         (..., (ss << (I == 0 ? "" : ", ") << std::get<I>(_tup)));
     }
 
+    // drop the rows after the first `sz`, when not all the columns could be extended
+    void truncate(size_t sz) {
+        auto trim = [=](auto& x) {
+            while (x.size() > sz)
+                x.pop_back();
+        };
+        std::apply([&](auto&... x) { (trim(x), ...); }, data_);
+    }
+
     template<typename T, size_t... I>
     void insert_impl(std::integer_sequence<size_t, I...>, T t) {
+        size_t       num_elems = size();
+        scoped_guard rollback([this, num_elems] { truncate(num_elems); });
         ((get_column<I>().push_back(std::get<I>(t))), ...);
+        rollback.dismiss();
     }
 
     template<size_t... I>
-- 
2.43.0


From fbf1122f058dced1ccbdffdc8db0c43918069316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:04 +0000
Subject: [PATCH 32/45] fix: scoped_set_value, change and replace terminated
 the program or lost the old value when the assignment threw

---
 include/gtl/utils.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/gtl/utils.hpp b/include/gtl/utils.hpp
index 88c15f3..41a6d74 100644
--- a/include/gtl/utils.hpp
+++ b/include/gtl/utils.hpp
@@ -11,7 +11,9 @@
 //      https://www.apache.org/licenses/LICENSE-2.0
 // ---------------------------------------------------------------------------
 
+#include <cstddef>
 #include <cstdint>
+#include <type_traits>
 #include <utility>
 
 namespace gtl {
@@ -100,13 +102,16 @@ template<class T>
 class scoped_set_value {
 public:
     template<class V>
-    [[nodiscard]] scoped_set_value(T& var, V&& val, bool do_it = true) noexcept(std::is_nothrow_copy_constructible_v<T> &&
-                                                                                std::is_nothrow_move_assignable_v<T>)
+    [[nodiscard]] scoped_set_value(T& var, V&& val, bool do_it = true) noexcept(std::is_nothrow_default_constructible_v<T> &&
+                                                                                std::is_nothrow_move_assignable_v<T> &&
+                                                                                std::is_nothrow_assignable_v<T&, V&&>)
         : v_(var)
         , do_it_(do_it) {
         if (do_it_) {
+            T new_value{};
+            new_value  = std::forward<V>(val); // may throw, before `var` is changed
             old_value_ = std::move(v_);
-            v_         = std::forward<V>(val);
+            v_         = std::move(new_value);
         }
     }
 
@@ -133,8 +138,7 @@ private:
 // assigns val to var, and returns true if the value changed
 // ---------------------------------------------------------------------------
 template<class T, class V>
-bool change(T& var, V&& val) noexcept(std::is_nothrow_move_assignable_v<T> &&
-                                      std::is_nothrow_copy_assignable_v<T>) {
+bool change(T& var, V&& val) noexcept(noexcept(var != val) && std::is_nothrow_assignable_v<T&, V&&>) {
     if (var != val) {
         var = std::forward<V>(val);
         return true;
@@ -146,8 +150,8 @@ bool change(T& var, V&& val) noexcept(std::is_nothrow_move_assignable_v<T> &&
 // assigns val to var, and returns the previous value
 // ---------------------------------------------------------------------------
 template<class T, class V>
-T replace(T& var, V&& val) noexcept(std::is_nothrow_move_assignable_v<T> &&
-                                    std::is_nothrow_copy_assignable_v<T>) {
+T replace(T& var, V&& val) noexcept(std::is_nothrow_move_constructible_v<T> &&
+                                    std::is_nothrow_assignable_v<T&, V&&>) {
     T old = std::move(var);
     var   = std::forward<V>(val);
     return old;
-- 
2.43.0


From cef0f50e4aec3541f0e0ca60c4147ca9af4894a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:33 +0000
Subject: [PATCH 33/45] fix: timestamps of distinct objects raced on the shared
 clock when touched from several threads

---
 include/gtl/utils.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/gtl/utils.hpp b/include/gtl/utils.hpp
index 41a6d74..ff5dcf4 100644
--- a/include/gtl/utils.hpp
+++ b/include/gtl/utils.hpp
@@ -11,6 +11,7 @@
 //      https://www.apache.org/licenses/LICENSE-2.0
 // ---------------------------------------------------------------------------
 
+#include <atomic>
 #include <cstddef>
 #include <cstdint>
 #include <type_traits>
@@ -207,8 +208,8 @@ public:
     }
 
 private:
-    uint64_t               stamp_;
-    static inline uint64_t clock_ = 0;
+    uint64_t                            stamp_;
+    static inline std::atomic<uint64_t> clock_{ 0 };
 };
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From 58f021edf9035331941d304f307bd8a4fe5d484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:33 +0000
Subject: [PATCH 34/45] fix: stopwatches measured negative or wrong times when
 the system clock was adjusted

---
 include/gtl/stopwatch.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/stopwatch.hpp b/include/gtl/stopwatch.hpp
index 6c2efb0..60a0c34 100644
--- a/include/gtl/stopwatch.hpp
+++ b/include/gtl/stopwatch.hpp
@@ -32,7 +32,7 @@ public:
       return std::chrono::duration_cast<duration_t>(clock::now() - _start).count();
    }
 
-   using clock = std::chrono::high_resolution_clock;
+   using clock = std::chrono::steady_clock; // not affected by changes of the system time
    using point = std::chrono::time_point<clock>;
 
    std::string _msg;
@@ -56,7 +56,7 @@ public:
     float start_to_snap() const { return get_diff<float>(_start, _snap); }
 
 private:
-    using clock = std::chrono::high_resolution_clock;
+    using clock = std::chrono::steady_clock; // not affected by changes of the system time
     using point = std::chrono::time_point<clock>;
 
     template<typename T>
-- 
2.43.0


From a7d9c1496080eaa64dc818484ce6053b4e1a35cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:02 +0000
Subject: [PATCH 35/45] fix: memory queries crashed or returned garbage when
 the system call failed or the process used more than 2 TB

---
 include/gtl/meminfo.hpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/include/gtl/meminfo.hpp b/include/gtl/meminfo.hpp
index 68170f0..7648234 100644
--- a/include/gtl/meminfo.hpp
+++ b/include/gtl/meminfo.hpp
@@ -54,7 +54,8 @@ uint64_t GetSystemMemory() {
     return static_cast<uint64_t>(memInfo.ullTotalPageFile);
 #elif defined(__linux__)
     struct sysinfo memInfo;
-    sysinfo(&memInfo);
+    if (sysinfo(&memInfo) != 0)
+        return 0;
     auto totalVirtualMem = memInfo.totalram;
 
     totalVirtualMem += memInfo.totalswap;
@@ -92,7 +93,8 @@ uint64_t GetTotalMemoryUsed() {
     return static_cast<uint64_t>(memInfo.ullTotalPageFile - memInfo.ullAvailPageFile);
 #elif defined(__linux__)
     struct sysinfo memInfo;
-    sysinfo(&memInfo);
+    if (sysinfo(&memInfo) != 0)
+        return 0;
     auto virtualMemUsed = memInfo.totalram - memInfo.freeram;
 
     virtualMemUsed += memInfo.totalswap - memInfo.freeswap;
@@ -131,21 +133,20 @@ uint64_t GetProcessMemoryUsed() {
     GetProcessMemoryInfo(GetCurrentProcess(), reinterpret_cast<PPROCESS_MEMORY_COUNTERS>(&pmc), sizeof(pmc));
     return static_cast<uint64_t>(pmc.PrivateUsage);
 #elif defined(__linux__)
-    auto parseLine = [](char* line) -> int {
-        auto i = strlen(line);
-
-        while (*line < '0' || *line > '9') {
+    auto parseLine = [](const char* line) -> uint64_t {
+        while (*line && (*line < '0' || *line > '9')) {
             line++;
         }
 
-        line[i - 3] = '\0';
-        i           = atoi(line);
-        return i;
+        return strtoull(line, nullptr, 10);
     };
 
-    auto file   = fopen("/proc/self/status", "r");
-    auto result = -1;
-    char line[128];
+    auto file = fopen("/proc/self/status", "r");
+    if (file == nullptr)
+        return 0;
+
+    uint64_t result = 0;
+    char     line[128];
 
     while (fgets(line, 128, file) != nullptr) {
         if (strncmp(line, "VmSize:", 7) == 0) {
@@ -155,7 +156,7 @@ uint64_t GetProcessMemoryUsed() {
     }
 
     fclose(file);
-    return static_cast<uint64_t>(result) * 1024;
+    return result * 1024;
 #elif defined(__FreeBSD__)
     struct kinfo_proc info;
     size_t            infoLen = sizeof(info);
@@ -176,7 +177,8 @@ uint64_t GetPhysicalMemory() {
     return static_cast<uint64_t>(memInfo.ullTotalPhys);
 #elif defined(__linux__)
     struct sysinfo memInfo;
-    sysinfo(&memInfo);
+    if (sysinfo(&memInfo) != 0)
+        return 0;
 
     auto totalPhysMem = memInfo.totalram;
 
-- 
2.43.0


From c74555195f4190c980e22f4075b2a411af04d506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:22 +0000
Subject: [PATCH 36/45] fix: btree move assignment terminated when it could not
 allocate and left moved-from keys behind

---
 include/gtl/btree.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/gtl/btree.hpp b/include/gtl/btree.hpp
index 550140c..6f6b3d2 100644
--- a/include/gtl/btree.hpp
+++ b/include/gtl/btree.hpp
@@ -1516,7 +1516,9 @@ public:
     // Assign the contents of x to *this.
     // ----------------------------------
     btree& operator=(const btree& x);
-    btree& operator=(btree&& x) noexcept;
+    btree& operator=(btree&& x) noexcept(
+        std::allocator_traits<allocator_type>::propagate_on_container_copy_assignment::value ||
+        std::allocator_traits<allocator_type>::is_always_equal::value);
 
     iterator               begin() { return iterator(leftmost(), 0); }
     const_iterator         begin() const { return const_iterator(leftmost(), 0); }
@@ -2501,7 +2503,9 @@ auto btree<P>::operator=(const btree& x) -> btree& {
 }
 
 template<typename P>
-auto btree<P>::operator=(btree&& x) noexcept -> btree& {
+auto btree<P>::operator=(btree&& x) noexcept(
+    std::allocator_traits<allocator_type>::propagate_on_container_copy_assignment::value ||
+    std::allocator_traits<allocator_type>::is_always_equal::value) -> btree& {
     if (this != &x) {
         clear();
 
@@ -2524,6 +2528,12 @@ auto btree<P>::operator=(btree&& x) noexcept -> btree& {
                 // while moving the values so we can't swap the key comparators.
                 // ----------------------------------------------------------------------
                 *mutable_key_comp() = x.key_comp();
+                // The values left in `x` are moved-from, don't keep them.
+                // -------------------------------------------------------
+                struct clear_on_exit {
+                    btree* t;
+                    ~clear_on_exit() { t->clear(); }
+                } guard{ &x };
                 copy_or_move_values_in_order(&x);
             }
         }
-- 
2.43.0


From ab82d1880494084af0b7f5206e28b1c6a18c1dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:18 +0000
Subject: [PATCH 37/45] fix: lock guards constructed with try_to_lock never
 released the lock they acquired

---
 include/gtl/phmap.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 85e635c..6b49ced 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -218,9 +218,7 @@ public:
 
         WriteLock(mutex_type& m, try_to_lock_t)
             : m_(&m)
-            , locked_(false) {
-            m_->try_lock();
-        }
+            , locked_(m.try_lock()) {}
 
         WriteLock(WriteLock&& o) noexcept
             : m_(std::move(o.m_))
@@ -302,9 +300,7 @@ public:
 
         ReadLock(mutex_type& m, try_to_lock_t)
             : m_(&m)
-            , locked_(false) {
-            m_->try_lock_shared();
-        }
+            , locked_(m.try_lock_shared()) {}
 
         ReadLock(ReadLock&& o) noexcept
             : m_(std::move(o.m_))
-- 
2.43.0


From 3c250dfcd1694e5ab0a62a5c6ef86320eab0af35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:52 +0000
Subject: [PATCH 38/45] fix: locking two submaps for reading kept the first
 lock when acquiring the second one failed

---
 include/gtl/phmap.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 6b49ced..c7bf909 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -343,6 +343,9 @@ public:
 
         bool owns_lock() const noexcept { return locked_; }
 
+        // give up ownership without unlocking
+        void release() noexcept { locked_ = false; }
+
         void swap(ReadLock& o) noexcept {
             std::swap(m_, o.m_);
             std::swap(locked_, o.locked_);
@@ -499,9 +502,10 @@ public:
             // lock each mutex once, and always in address order, so that two comparisons of the same
             // containers cannot deadlock with waiting writers
             const bool in_order = !std::less<mutex_type*>()(&m2, &m1);
-            (in_order ? m1 : m2).lock_shared();
+            ReadLock   first(in_order ? m1 : m2);
             if (&m1 != &m2)
                 (in_order ? m2 : m1).lock_shared();
+            first.release();
         }
 
         ReadLocks(adopt_lock_t, mutex_type& m1, mutex_type& m2)
-- 
2.43.0


From 74c75c9bfd766e7a6c9c71c25cdff2c12ac96c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:40 +0000
Subject: [PATCH 39/45] fix: reserve() of a table full of erased slots did not
 make room, covered insertions moved elements

---
 include/gtl/phmap.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index c7bf909..cf08962 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2373,7 +2373,15 @@ public:
         }
     }
 
-    void reserve(size_t n) { rehash(GrowthToLowerboundCapacity(n)); }
+    void reserve(size_t n) {
+        size_t m = GrowthToLowerboundCapacity(n);
+        if (m <= capacity_ && n > size() + growth_left()) {
+            // The table is large enough, but erased slots take up the room: get rid of them.
+            resize(capacity_);
+        } else {
+            rehash(m);
+        }
+    }
 
     // Extension API: support for heterogeneous keys.
     //
-- 
2.43.0


From 4ab08fd39b5c1573be036819377fdae3a336affc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:53 +0000
Subject: [PATCH 40/45] fix: an element built by emplace on a parallel
 container leaked when acquiring the lock failed

---
 include/gtl/phmap.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index cf08962..32599f0 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3789,7 +3789,10 @@ public:
         const auto& elem  = PolicyTraits::element(slot);
         Inner&      inner = sets_[subidx(hashval)];
         auto&       set   = inner.set_;
-        UniqueLock  m(inner);
+
+        typename EmbeddedSet::SlotGuard guard{ set, slot }; // acquiring the lock may throw
+        UniqueLock                      m(inner);
+        guard.slot_ = nullptr; // now owned by `InsertSlot`
 
         using InsertSlot = typename EmbeddedSet::template InsertSlotWithHash<true>;
         return make_rv(&inner, PolicyTraits::apply(InsertSlot{ set, std::move(*slot), hashval }, elem));
@@ -3862,7 +3865,10 @@ public:
         size_t      hashval = PolicyTraits::apply(HashElement{ hash_ref() }, elem);
         Inner&      inner   = sets_[subidx(hashval)];
         auto&       set     = inner.set_;
-        UniqueLock  m(inner);
+
+        typename EmbeddedSet::SlotGuard guard{ set, slot }; // acquiring the lock may throw
+        UniqueLock                      m(inner);
+        guard.slot_ = nullptr; // now owned by `InsertSlot`
 
         using InsertSlot = typename EmbeddedSet::template InsertSlotWithHash<true>;
         return make_rv(&inner, PolicyTraits::apply(InsertSlot{ set, std::move(*slot), hashval }, elem));
-- 
2.43.0


From 6c7905a5a514e761138cd61cea8b59eb12a436ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:17 +0000
Subject: [PATCH 41/45] fix: merging a btree multi-container with itself
 destroyed its elements

---
 include/gtl/btree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/gtl/btree.hpp b/include/gtl/btree.hpp
index 6f6b3d2..2e5567b 100644
--- a/include/gtl/btree.hpp
+++ b/include/gtl/btree.hpp
@@ -3699,6 +3699,10 @@ public:
                                                                        typename T::params_type::is_map_container>>,
                                        int> = 0>
     void merge(btree_container<T>& src) { // NOLINT
+        if constexpr (std::is_same_v<T, Tree>) {
+            if (this == &src)
+                return; // all elements are already here
+        }
         insert(std::make_move_iterator(src.begin()), std::make_move_iterator(src.end()));
         src.clear();
     }
-- 
2.43.0


From 2bee482231f45413704eab3939dedff738200652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:58 +0000
Subject: [PATCH 42/45] fix: loading a hash container keeps its hash, key_eq
 and allocator

---
 include/gtl/phmap_dump.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap_dump.hpp b/include/gtl/phmap_dump.hpp
index 05d7fe6..90de785 100644
--- a/include/gtl/phmap_dump.hpp
+++ b/include/gtl/phmap_dump.hpp
@@ -97,7 +97,7 @@ template<typename InputArchive>
 bool raw_hash_set<Policy, Hash, Eq, Alloc>::phmap_load(InputArchive& ar) {
     static_assert(type_traits_internal::IsTriviallyCopyable<value_type>::value,
                   "value_type should be trivially copyable");
-    raw_hash_set<Policy, Hash, Eq, Alloc>().swap(*this); // clear any existing content
+    destroy_slots(); // clear any existing content, but keep our hash, key_eq and allocator
     size_t version  = 0;
     size_t size     = 0;
     size_t capacity = 0;
-- 
2.43.0


From 3d55ae8036476df2a99afd031d9dce04e2d042d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:59 +0000
Subject: [PATCH 43/45] fix: copying a btree ignored
 select_on_container_copy_construction

---
 include/gtl/btree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/btree.hpp b/include/gtl/btree.hpp
index 2e5567b..f6bd168 100644
--- a/include/gtl/btree.hpp
+++ b/include/gtl/btree.hpp
@@ -2374,7 +2374,7 @@ btree<P>::btree(const key_compare& comp, const allocator_type& alloc)
 
 template<typename P>
 btree<P>::btree(const btree& x)
-    : btree(x.key_comp(), x.allocator()) {
+    : btree(x.key_comp(), std::allocator_traits<allocator_type>::select_on_container_copy_construction(x.allocator())) {
     copy_or_move_values_in_order(&x);
 }
 
-- 
2.43.0


From 355b9b0061156bd5295b07c996e3440d034558f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:59 +0000
Subject: [PATCH 44/45] fix: a failed merge of btree multi containers left
 moved-from elements in the source

---
 include/gtl/btree.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/gtl/btree.hpp b/include/gtl/btree.hpp
index f6bd168..948054b 100644
--- a/include/gtl/btree.hpp
+++ b/include/gtl/btree.hpp
@@ -3703,8 +3703,16 @@ public:
             if (this == &src)
                 return; // all elements are already here
         }
-        insert(std::make_move_iterator(src.begin()), std::make_move_iterator(src.end()));
-        src.clear();
+        // Don't leave the elements moved so far in `src`, should an insertion fail.
+        // -------------------------------------------------------------------------
+        auto src_it = src.begin();
+        struct erase_on_exit {
+            btree_container<T>& src;
+            decltype(src_it)&   last;
+            ~erase_on_exit() { src.erase(src.begin(), last); }
+        } guard{ src, src_it };
+        for (; src_it != src.end(); ++src_it)
+            insert(this->end(), std::move(*src_it));
     }
 
     template<typename T,
-- 
2.43.0


From 41726f446b1e624c6811f44def7e46c1a10ab54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:59 +0000
Subject: [PATCH 45/45] fix: compound assignment between overlapping bit_views
 read bits it had already changed

---
 include/gtl/bit_vector.hpp | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index eb74d2e..3e417ae 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -447,36 +447,37 @@ public:
     // compound assignment operators
     // -----------------------------
     template<class F>
-    _view& bin_assign(const _view& o, F&& f) noexcept {
+    _view& bin_assign(const _view& o, F f) {
         assert(size() == o.size());
-        (void)o;
-        _bv.storage().template visit<vt::none>(_first, _last, std::forward<F>(f));
+        if ((&_bv == &o._bv) && (_first > o._first) && (_first < o._last)) {
+            // both views are on same bitmap, and we would read bits of `o` already changed
+            vec_type tmp(o.size());
+            tmp.view() = o;
+            return bin_assign(tmp.view(), f);
+        }
+        typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
+        _bv.storage().template visit<vt::none>(_first, _last, [&](uint64_t a, int) { return f(a, seq()); });
         return *this;
     }
 
-    _view& operator|=(const _view& o) noexcept {
-        typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
-        return bin_assign(o, [&](uint64_t a, size_t) { return a | seq(); });
+    _view& operator|=(const _view& o) {
+        return bin_assign(o, [](uint64_t a, uint64_t b) { return a | b; });
     }
 
-    _view& operator&=(const _view& o) noexcept {
-        typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
-        return bin_assign(o, [&](uint64_t a, size_t) { return a & seq(); });
+    _view& operator&=(const _view& o) {
+        return bin_assign(o, [](uint64_t a, uint64_t b) { return a & b; });
     }
 
-    _view& operator^=(const _view& o) noexcept {
-        typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
-        return bin_assign(o, [&](uint64_t a, size_t) { return a ^ seq(); });
+    _view& operator^=(const _view& o) {
+        return bin_assign(o, [](uint64_t a, uint64_t b) { return a ^ b; });
     }
 
-    _view& operator-=(const _view& o) noexcept {
-        typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
-        return bin_assign(o, [&](uint64_t a, size_t) { return a & ~seq(); });
+    _view& operator-=(const _view& o) {
+        return bin_assign(o, [](uint64_t a, uint64_t b) { return a & ~b; });
     }
 
-    _view& or_not(const _view& o) noexcept {
-        typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
-        return bin_assign(o, [&](uint64_t a, size_t) { return a | ~seq(); });
+    _view& or_not(const _view& o) {
+        return bin_assign(o, [](uint64_t a, uint64_t b) { return a | ~b; });
     }
 
     // shift operators. Zeroes are shifted in.
-- 
2.43.0

