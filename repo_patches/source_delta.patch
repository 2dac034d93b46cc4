From cd6c59be28da93e87cd030c812fb398cadffdc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 01/21] fix: reset the statistics of every monitored key in
 reset_all()

reset_all() did not compile: it used the map itself instead of the
element of the loop.
---
 include/lru/statistics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/statistics.hpp b/include/lru/statistics.hpp
index 0c97016..29b9ce4 100644
--- a/include/lru/statistics.hpp
+++ b/include/lru/statistics.hpp
@@ -208,7 +208,7 @@ class Statistics {
   /// Clears the statistics of all keys, but keeps on monitoring it them.
   void reset_all() {
     for (auto& pair : _key_map) {
-      _key_map.second.reset();
+      pair.second.reset();
     }
   }
 
-- 
2.43.0


From 58d2dd08a3a1260beace859b8a1ef8b3052158e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 02/21] fix: check the validity of an unordered iterator before
 building its entry

entry(), key() and value() dereferenced the past-the-end iterator of the
underlying map before throwing, and kept the resulting bogus entry.
---
 include/lru/internal/base-unordered-iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/internal/base-unordered-iterator.hpp b/include/lru/internal/base-unordered-iterator.hpp
index f294b13..dbc45ed 100644
--- a/include/lru/internal/base-unordered-iterator.hpp
+++ b/include/lru/internal/base-unordered-iterator.hpp
@@ -179,11 +179,11 @@ class BaseUnorderedIterator
   /// \throws LRU::Error::KeyExpired if the key pointed to by the iterator has
   /// expired.
   Entry& entry() override {
+    _cache->throw_if_invalid(*this);
     if (!_entry.has_value()) {
       _entry.emplace(_iterator->first, _iterator->second.value);
     }
 
-    _cache->throw_if_invalid(*this);
     return *_entry;
   }
 
-- 
2.43.0


From 5ec37c680009486f70939e39e540b6ed9fe1f138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 03/21] fix: let front() and back() throw EmptyCache

Both were declared noexcept, so calling them on an empty cache terminated
the program instead of throwing the documented error.
---
 include/lru/cache.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lru/cache.hpp b/include/lru/cache.hpp
index 7150bfc..3b9ffcb 100644
--- a/include/lru/cache.hpp
+++ b/include/lru/cache.hpp
@@ -177,7 +177,7 @@ class Cache
   }
 
   /// \returns The most-recently inserted element.
-  const Key& front() const noexcept {
+  const Key& front() const {
     if (is_empty()) {
       throw LRU::Error::EmptyCache("front");
     } else {
@@ -187,7 +187,7 @@ class Cache
   }
 
   /// \returns The least-recently inserted element.
-  const Key& back() const noexcept {
+  const Key& back() const {
     if (is_empty()) {
       throw LRU::Error::EmptyCache("back");
     } else {
-- 
2.43.0


From 61281591394be60a9b15c121cfadda16aac6345a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 04/21] fix: erase an expired entry through an ordered iterator

erase() asked the iterator for its key, which throws KeyExpired if the
entry has expired, whereas erasing it by key or through an unordered
iterator works.
---
 include/lru/internal/base-cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index fe49a72..33f0f37 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1134,7 +1134,7 @@ class BaseCache {
     if (iterator == ordered_cend()) {
       throw LRU::Error::InvalidIterator();
     } else {
-      _erase(_map.find(iterator.key()));
+      _erase(_map.find(*iterator._iterator));
     }
   }
 
-- 
2.43.0


From 5d10b8f1822f074ca041c5887febabd4a5f29e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 05/21] fix: look at the clock only once in lookup()

After find() had found the key and recorded a hit, lookup() asked the
iterator for the value, which checks again whether the entry has expired.
If it expired in between, lookup() threw although it had recorded a hit.
---
 include/lru/internal/base-cache.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 33f0f37..2c14167 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -820,7 +820,7 @@ class BaseCache {
     if (iterator == end()) {
       throw LRU::Error::KeyNotFound();
     } else {
-      return iterator.value();
+      return iterator._iterator->second.value;
     }
   }
 
@@ -847,7 +847,7 @@ class BaseCache {
     if (iterator == end()) {
       throw LRU::Error::KeyNotFound();
     } else {
-      return iterator.value();
+      return iterator._iterator->second.value;
     }
   }
 
-- 
2.43.0


From ab5c3a31342c505f467bdb8843e08c2752730f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 06/21] fix: make copies of a cache independent of the original

The map of a copy kept the order iterators of the original, and the last
accessed entry of the copy was the one of the original, so that using the
copy changed the order of the original (or accessed freed memory). The
copy assignment was noexcept although it allocates memory; it now leaves
the cache unchanged if it fails.
---
 include/lru/internal/base-cache.hpp | 39 ++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 2c14167..f2c1c0f 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -491,10 +491,10 @@ class BaseCache {
   : _map(other._map)
   , _order(other._order)
   , _stats(other._stats)
-  , _last_accessed(other._last_accessed)
+  , _last_accessed(other.key_equal())
   , _callback_manager(other._callback_manager)
   , _capacity(other._capacity) {
-    _reassign_references();
+    _reassign_references(_map, _order);
   }
 
   /// Move constructor.
@@ -504,15 +504,22 @@ class BaseCache {
   }
 
   /// Copy assignment operator.
-  BaseCache& operator=(const BaseCache& other) noexcept {
+  BaseCache& operator=(const BaseCache& other) {
     if (this != &other) {
-      _map = other._map;
-      _order = other._order;
+      // Copy everything that may throw first, so that a failed assignment
+      // leaves this cache unchanged.
+      Map map(other._map);
+      Queue order(other._order);
+      CallbackManagerType callback_manager(other._callback_manager);
+      LastAccessed last_accessed(other.key_equal());
+      _reassign_references(map, order);
+
+      _map.swap(map);
+      _order.swap(order);
       _stats = other._stats;
-      _last_accessed = other._last_accessed;
-      _callback_manager = other._callback_manager;
+      _last_accessed = std::move(last_accessed);
+      _callback_manager = std::move(callback_manager);
       _capacity = other._capacity;
-      _reassign_references();
     }
 
     return *this;
@@ -1522,14 +1529,16 @@ class BaseCache {
     }
   }
 
-  /// Looks up each key in the queue and re-assigns it to the proper key in the
-  /// map.
+  /// Makes the given map and queue, copied from another cache, refer to one
+  /// another instead of to those of the other cache.
   ///
-  /// After a copy, the reference (wrappers) in the order queue point
-  /// to the keys of the other cache's map. Thus we need to re-assign them.
-  void _reassign_references() noexcept {
-    for (auto& key_reference : _order) {
-      key_reference = std::ref(_map.find(key_reference)->first);
+  /// \param map The map whose order iterators to reassign.
+  /// \param order The queue whose key references to reassign.
+  static void _reassign_references(Map& map, Queue& order) {
+    for (auto iterator = order.begin(); iterator != order.end(); ++iterator) {
+      auto entry = map.find(iterator->get());
+      *iterator = std::ref(entry->first);
+      entry->second.order = iterator;
     }
   }
 
-- 
2.43.0


From 6c6a0eedcec03ec80f57da8a2c1329522e8ace27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 07/21] fix: move and swap the complete state of a cache

Moving or swapping a cache left its statistics and callbacks behind, and
the capacity of a moved-from cache was uninitialized.
---
 include/lru/internal/base-cache.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index f2c1c0f..710a449 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -498,7 +498,8 @@ class BaseCache {
   }
 
   /// Move constructor.
-  BaseCache(BaseCache&& other) {
+  BaseCache(BaseCache&& other)
+  : BaseCache(other._capacity, other.hash_function(), other.key_equal()) {
     // Following the copy-swap idiom.
     swap(other);
   }
@@ -580,7 +581,9 @@ class BaseCache {
 
     swap(_order, other._order);
     swap(_map, other._map);
+    swap(_stats, other._stats);
     swap(_last_accessed, other._last_accessed);
+    swap(_callback_manager, other._callback_manager);
     swap(_capacity, other._capacity);
   }
 
-- 
2.43.0


From d887656a7c54f055af9ee96202856c32f3fa9fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 08/21] fix: copy non-const caches and ranges instead of
 consuming them

For a non-const cache, the constructor and the assignment from a range
were better matches than the copy constructor and copy assignment: copying
lost the order and capacity, and assignment moved the values out of the
source (also for any other non-const lvalue range, and for self-assignment
it emptied the cache).
---
 include/lru/cache.hpp               | 16 +++++++++++++++-
 include/lru/internal/base-cache.hpp |  4 +++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/lru/cache.hpp b/include/lru/cache.hpp
index 3b9ffcb..1fa942b 100644
--- a/include/lru/cache.hpp
+++ b/include/lru/cache.hpp
@@ -119,6 +119,20 @@ class Cache
   : super(capacity, std::forward<Range>(range), hash, equal) {
   }
 
+  /// Constructor.
+  ///
+  /// The capacity is inferred from the size of the range. A cache is not taken
+  /// as a range here, such that non-const caches are copied, too.
+  ///
+  /// \param range A range to construct the cache with.
+  template <typename Range,
+            typename = Internal::enable_if_range<Range>,
+            typename = std::enable_if_t<
+                !std::is_base_of<Cache, std::decay_t<Range>>::value>>
+  explicit Cache(Range&& range)
+  : super(std::forward<Range>(range), HashFunction(), KeyEqual()) {
+  }
+
   /// Constructor.
   ///
   /// \param range A range to construct the cache with.
@@ -126,7 +140,7 @@ class Cache
   /// \param key_equal The key equality function to use for the internal map.
   template <typename Range, typename = Internal::enable_if_range<Range>>
   explicit Cache(Range&& range,
-                 const HashFunction& hash = HashFunction(),
+                 const HashFunction& hash,
                  const KeyEqual& equal = KeyEqual())
   : super(std::forward<Range>(range), hash, equal) {
   }
diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 710a449..327399a 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -558,7 +558,9 @@ class BaseCache {
   ///
   /// \param range A range of pairs to assign to the cache.
   /// \returns The cache instance.
-  template <typename Range, typename = Internal::enable_if_range<Range>>
+  template <typename Range,
+            typename = Internal::enable_if_range<Range>,
+            typename = std::enable_if_t<!std::is_lvalue_reference<Range>::value>>
   BaseCache& operator=(Range&& range) {
     _clear_and_increase_capacity(range);
     insert(std::move(range));
-- 
2.43.0


From ce6f15081f78b1dcb44ba7bdfab44610bac386c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 09/21] fix: restart the lifetime of an entry when it is
 updated

Inserting a key that was still stored, but had expired, left it expired,
such that it could not be looked up right after its insertion and a
function wrapped with timed_wrap() never cached its new result.
---
 include/lru/internal/base-cache.hpp        |  2 +-
 include/lru/internal/information.hpp       |  7 +++++++
 include/lru/internal/timed-information.hpp | 13 +++++++++++--
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 327399a..c28a377 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1421,7 +1421,7 @@ class BaseCache {
     // The original iterator is not invalidated and now points to the new
     // position (which is still the same node).
     _move_to_front(iterator->second.order);
-    iterator->second.value = new_value;
+    iterator->second.update(new_value);
   }
 
   /// Erases the element most recently inserted into the cache.
diff --git a/include/lru/internal/information.hpp b/include/lru/internal/information.hpp
index 4a28a98..b48afb7 100644
--- a/include/lru/internal/information.hpp
+++ b/include/lru/internal/information.hpp
@@ -117,6 +117,13 @@ struct Information {
     return !(*this == other);
   }
 
+  /// Assigns a new value, as if the key had been inserted anew.
+  ///
+  /// \param new_value The new value for the information.
+  virtual void update(const Value& new_value) {
+    value = new_value;
+  }
+
   /// The value of the information.
   Value value;
 
diff --git a/include/lru/internal/timed-information.hpp b/include/lru/internal/timed-information.hpp
index 72865a6..3ed8103 100644
--- a/include/lru/internal/timed-information.hpp
+++ b/include/lru/internal/timed-information.hpp
@@ -106,8 +106,17 @@ struct TimedInformation : public Information<Key, Value> {
     return !(*this == other);
   }
 
-  /// The time at which the key of the information was insterted into a cache.
-  const Timestamp insertion_time;
+  /// Assigns a new value and restarts the lifetime of the information.
+  ///
+  /// \param new_value The new value for the information.
+  void update(const Value& new_value) override {
+    super::update(new_value);
+    insertion_time = Internal::Clock::now();
+  }
+
+  /// The time at which the key of the information was last inserted into or
+  /// updated in a cache.
+  Timestamp insertion_time;
 };
 
 }  // namespace Internal
-- 
2.43.0


From 9244ff1bfa83f1e97d8238ccceca8ba8a6394030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 10/21] fix: consider every entry in all_expired() and
 clear_expired()

Both relied on the order of the entries being the order of their
insertion, but it is that of their last use: an old entry that was used
recently kept clear_expired() from erasing expired entries and made
all_expired() ignore younger ones.
---
 include/lru/timed-cache.hpp | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index 0038932..dbb3475 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -235,9 +235,12 @@ class TimedCache
     // By the laws of predicate logic, any statement about any empty set is true
     if (is_empty()) return true;
 
-    /// If the most-recently inserted key has expired, all others must have too.
-    auto latest = _map.find(_order.back());
-    return _has_expired(latest->second);
+    // The most recently used element need not be the most recently inserted
+    // one, so we have to look at all of them.
+    const auto now = Clock::now();
+    return std::all_of(_map.begin(), _map.end(), [this, now](auto& pair) {
+      return this->_has_expired(pair.second, now);
+    });
   }
 
   /// Erases all expired elements from the cache.
@@ -252,19 +255,19 @@ class TimedCache
 
     if (is_empty()) return 0;
 
+    const auto now = Clock::now();
     auto iterator = _order.begin();
     size_t number_of_erasures = 0;
 
     while (iterator != _order.end()) {
       auto map_iterator = _map.find(*iterator);
+      ++iterator;
 
-      // If the current element hasn't expired, also all elements inserted
-      // after will not have, so we can stop.
-      if (!_has_expired(map_iterator->second)) break;
+      // The order is that of the last use and not that of the insertion, so
+      // elements after one that hasn't expired may still have.
+      if (!_has_expired(map_iterator->second, now)) continue;
 
       _erase(map_iterator);
-
-      iterator = _order.begin();
       number_of_erasures += 1;
     }
 
@@ -373,7 +376,18 @@ class TimedCache
   /// \param information The information to check expiration with.
   /// \returns True if the key has expired, else false.
   bool _has_expired(const Information& information) const noexcept {
-    auto elapsed = Clock::now() - information.insertion_time;
+    return _has_expired(information, Clock::now());
+  }
+
+  /// Checks if the information has expired at a certain point in time.
+  ///
+  /// \param information The information to check.
+  /// \param now The point in time.
+  /// \returns True if the elapsed time since insertion is greater than the time
+  /// to live.
+  bool _has_expired(const Information& information,
+                    const Internal::Timestamp& now) const noexcept {
+    auto elapsed = now - information.insertion_time;
     return std::chrono::duration_cast<Duration>(elapsed) > _time_to_live;
   }
 
-- 
2.43.0


From 1a76710101a5047f9a54d9a6296c51a02d59d839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 11/21] fix: register a miss if the last accessed key has
 expired

contains(), lookup() and operator[] neither counted a miss nor called the
miss and access callbacks if the key was the one accessed last and had
expired in the meantime, whereas they did for any other expired key.
---
 include/lru/internal/base-cache.hpp | 12 +++++++-----
 include/lru/timed-cache.hpp         | 10 +++++++---
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index c28a377..b59ccf4 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -802,6 +802,7 @@ class BaseCache {
         // If this is the last accessed key, it's at the front anyway
         return true;
       } else {
+        _register_miss(key);
         return false;
       }
     }
@@ -822,7 +823,7 @@ class BaseCache {
   /// \see contains()
   virtual const Value& lookup(const Key& key) const {
     if (key == _last_accessed) {
-      auto& value = _value_for_last_accessed();
+      auto& value = _value_for_last_accessed(key);
       _register_hit(key, value);
       // If this is the last accessed key, it's at the front anyway
       return value;
@@ -849,7 +850,7 @@ class BaseCache {
   /// \see contains()
   virtual Value& lookup(const Key& key) {
     if (key == _last_accessed) {
-      auto& value = _value_for_last_accessed();
+      auto& value = _value_for_last_accessed(key);
       _register_hit(key, value);
       // If this is the last accessed key, it's at the front anyway
       return value;
@@ -1482,18 +1483,19 @@ class BaseCache {
     return true;
   }
 
-  /// \copydoc _value_for_last_accessed() const
-  virtual Value& _value_for_last_accessed() {
+  /// \copydoc _value_for_last_accessed(const Key&) const
+  virtual Value& _value_for_last_accessed(const Key& key) {
     return _last_accessed.value();
   }
 
   /// Attempts to access the last accessed key's value.
+  /// \param key The key being looked up.
   /// \returns The value of the last accessed object.
   /// \details This method exists so that derived classes may perform
   /// additional
   /// checks (and possibly throw exceptions) or perform other operations to
   /// retrieve the value.
-  virtual const Value& _value_for_last_accessed() const {
+  virtual const Value& _value_for_last_accessed(const Key& key) const {
     return _last_accessed.value();
   }
 
diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index dbb3475..9852c23 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -349,10 +349,11 @@ class TimedCache
     return !_has_expired(_last_accessed.information());
   }
 
-  /// \copydoc _value_for_last_accessed() const
-  Value& _value_for_last_accessed() override {
+  /// \copydoc _value_for_last_accessed(const Key&) const
+  Value& _value_for_last_accessed(const Key& key) override {
     auto& information = _last_accessed.information();
     if (_has_expired(information)) {
+      _register_miss(key);
       throw LRU::Error::KeyExpired();
     } else {
       return information.value;
@@ -360,11 +361,14 @@ class TimedCache
   }
 
   /// Attempts to access the last accessed key's value.
+  /// \param key The key being looked up, for which a miss is registered if it
+  /// has expired.
   /// \throws LRU::Error::KeyExpired if the key has expired.
   /// \returns The value of the last accessed key.
-  const Value& _value_for_last_accessed() const override {
+  const Value& _value_for_last_accessed(const Key& key) const override {
     const auto& information = _last_accessed.information();
     if (_has_expired(information)) {
+      _register_miss(key);
       throw LRU::Error::KeyExpired();
     } else {
       return information.value;
-- 
2.43.0


From e20c79bc0e64ea21e43e1fe0ac5c66ece9b29844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 12/21] fix: give every wrapped function a cache of its own

The cache was a static variable of the closure type, such that all
functions of the same type (such as any two pointers to functions of the
same signature) returned one another's results and shared the capacity of
the first; on the other hand, lvalue and rvalue arguments used different
caches. The arguments for the cache were kept as references, which were
dangling by the time of the first call.
---
 include/lru/wrap.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/lru/wrap.hpp b/include/lru/wrap.hpp
index e384968..f13c111 100644
--- a/include/lru/wrap.hpp
+++ b/include/lru/wrap.hpp
@@ -23,8 +23,11 @@
 #define LRU_WRAP_HPP
 
 #include <cstddef>
+#include <memory>
 #include <tuple>
 #include <type_traits>
+#include <typeindex>
+#include <unordered_map>
 #include <utility>
 
 #include <lru/cache.hpp>
@@ -48,9 +51,14 @@ template <typename Function,
           template <typename...> class CacheType = Cache,
           typename... Args>
 auto wrap(Function original_function, Args&&... args) {
+  // One cache for every combination of argument types the wrapped function is
+  // called with. They belong to this wrapped function alone, and its copies.
+  using Caches = std::unordered_map<std::type_index, std::shared_ptr<void>>;
+
   return [
     original_function,
-    cache_args = std::forward_as_tuple(std::forward<Args>(args)...)
+    cache_args = std::tuple<std::decay_t<Args>...>(std::forward<Args>(args)...),
+    caches = std::make_shared<Caches>()
   ](auto&&... arguments) mutable {
     using Arguments = std::tuple<std::decay_t<decltype(arguments)>...>;
     using ReturnType = decltype(
@@ -59,10 +67,15 @@ auto wrap(Function original_function, Args&&... args) {
     static_assert(!std::is_void<ReturnType>::value,
                   "Return type of wrapped function must not be void");
 
-    static auto cache =
-        Internal::construct_from_tuple<CacheType<Arguments, ReturnType>>(
-            cache_args);
+    using ArgumentsCache = CacheType<Arguments, ReturnType>;
+    auto& pointer = (*caches)[typeid(ArgumentsCache)];
+    if (pointer == nullptr) {
+      const std::tuple<const std::decay_t<Args>&...> cache_arg_refs(cache_args);
+      pointer = std::make_shared<ArgumentsCache>(
+          Internal::construct_from_tuple<ArgumentsCache>(cache_arg_refs));
+    }
 
+    auto& cache = *static_cast<ArgumentsCache*>(pointer.get());
     auto key = std::make_tuple(arguments...);
     auto iterator = cache.find(key);
 
-- 
2.43.0


From 0652c9141e03ed95ab7f6dcbf165c13c68b5d6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 13/21] fix: keep map and order consistent if an insertion or
 erasure throws

If the allocation of the order node or the hash lookup for the eviction
failed, the new key stayed in the map without a place in the order; if the
hash lookup for the erasure of the key accessed last failed, the key lost
its place in the order, but stayed in the map.
---
 include/lru/internal/base-cache.hpp | 36 ++++++++++++++---------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index b59ccf4..d95ea1c 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -923,7 +923,7 @@ class BaseCache {
     if (iterator == _map.end()) {
       auto result = _map.emplace(key, Information(value));
       assert(result.second);
-      auto order = _insert_new_key(result.first->first);
+      auto order = _insert_new_key(result.first);
       result.first->second.order = order;
 
       _last_accessed = result.first;
@@ -1062,7 +1062,7 @@ class BaseCache {
 
     if (iterator == _map.end()) {
       auto result = _map.emplace(std::move(key), Information(value_arguments));
-      auto order = _insert_new_key(result.first->first);
+      auto order = _insert_new_key(result.first);
       result.first->second.order = order;
       assert(result.second);
 
@@ -1451,16 +1451,9 @@ class BaseCache {
   /// \param key The key to erase.
   /// \param information The information associated with the key to erase.
   virtual void _erase(const Key& key, const Information& information) {
-    if (key == _last_accessed) {
-      _last_accessed.invalidate();
-    }
-
-    // To be sure, we should do this first, since the order stores a reference
-    // to the key in the map.
-    _order.erase(information.order);
-
-    // Requires an additional hash-lookup, whereas erase(iterator) doesn't
-    _map.erase(key);
+    // Requires an additional hash-lookup, which may throw and hence must come
+    // before anything is erased.
+    _erase(_map.find(key));
   }
 
   /// Convenience methhod to get the value for an insertion result into a map.
@@ -1552,14 +1545,21 @@ class BaseCache {
   /// Inserts a new key into the queue.
   ///
   /// If the cache is full, the LRU node is re-used.
-  /// Else a node is inserted at the order.
+  /// Else a node is inserted at the order. If this fails, the key is removed
+  /// from the map again.
   ///
+  /// \param iterator The map iterator pointing to the new key.
   /// \returns The resulting iterator.
-  QueueIterator _insert_new_key(const Key& key) {
-    if (_is_too_full()) {
-      _evict_lru_for(key);
-    } else {
-      _order.emplace_back(key);
+  QueueIterator _insert_new_key(MapIterator iterator) {
+    try {
+      if (_is_too_full()) {
+        _evict_lru_for(iterator->first);
+      } else {
+        _order.emplace_back(iterator->first);
+      }
+    } catch (...) {
+      _map.erase(iterator);
+      throw;
     }
 
     return std::prev(_order.end());
-- 
2.43.0


From 2f69578ae8393e587968f8017f2b1638413f3601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 14/21] fix: let exceptions of the key equality function reach
 the caller

The comparisons with the last accessed key call the user's key equality
function, but were declared noexcept, so an exception thrown by it
terminated the program.
---
 include/lru/internal/last-accessed.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/lru/internal/last-accessed.hpp b/include/lru/internal/last-accessed.hpp
index c6bfb25..4c0e1e4 100644
--- a/include/lru/internal/last-accessed.hpp
+++ b/include/lru/internal/last-accessed.hpp
@@ -120,14 +120,14 @@ class LastAccessed {
   /// \returns True if the key of the `LastAccessed` object's key equals the
   /// given key, else false.
   friend bool
-  operator==(const LastAccessed& last_accessed, const Key& key) noexcept {
+  operator==(const LastAccessed& last_accessed, const Key& key) {
     if (!last_accessed._is_valid) return false;
     return last_accessed._key_equal(key, last_accessed.key());
   }
 
   /// \copydoc operator==(const LastAccessed&,const Key&)
   friend bool
-  operator==(const Key& key, const LastAccessed& last_accessed) noexcept {
+  operator==(const Key& key, const LastAccessed& last_accessed) {
     return last_accessed == key;
   }
 
@@ -139,7 +139,7 @@ class LastAccessed {
   /// iterator, else false.
   template <typename Iterator, typename = enable_if_iterator<Iterator>>
   friend bool
-  operator==(const LastAccessed& last_accessed, Iterator iterator) noexcept {
+  operator==(const LastAccessed& last_accessed, Iterator iterator) {
     /// Fast comparisons to an iterator (not relying on implicit conversion)
     return last_accessed == iterator->first;
   }
@@ -147,7 +147,7 @@ class LastAccessed {
   /// \copydoc operator==(const LastAccessed&,Iterator)
   template <typename Iterator, typename = enable_if_iterator<Iterator>>
   friend bool
-  operator==(Iterator iterator, const LastAccessed& last_accessed) noexcept {
+  operator==(Iterator iterator, const LastAccessed& last_accessed) {
     return last_accessed == iterator;
   }
 
@@ -159,14 +159,14 @@ class LastAccessed {
   /// the given other object's key, else false.
   template <typename T>
   friend bool
-  operator!=(const LastAccessed& last_accessed, const T& other) noexcept {
+  operator!=(const LastAccessed& last_accessed, const T& other) {
     return !(last_accessed == other);
   }
 
   /// \copydoc operator!=(const LastAccessed&,const T&)
   template <typename T>
   friend bool
-  operator!=(const T& other, const LastAccessed& last_accessed) noexcept {
+  operator!=(const T& other, const LastAccessed& last_accessed) {
     return !(other == last_accessed);
   }
 
-- 
2.43.0


From 82a778b720a34cad2fd038f0adddcff29f1b121c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:14 +0000
Subject: [PATCH 15/21] fix: keep the order unchanged if updating a value fails

---
 include/lru/internal/base-cache.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index d95ea1c..80f4112 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1418,11 +1418,12 @@ class BaseCache {
   /// \param iterator The iterator pointing to the key to move.
   /// \param new_value The updated value to move the key with.
   virtual void _move_to_front(MapIterator iterator, const Value& new_value) {
+    // The update may throw, in which case the order must stay unchanged.
+    iterator->second.update(new_value);
     // Extract the current linked-list node and insert (splice it) at the end
     // The original iterator is not invalidated and now points to the new
     // position (which is still the same node).
     _move_to_front(iterator->second.order);
-    iterator->second.update(new_value);
   }
 
   /// Erases the element most recently inserted into the cache.
-- 
2.43.0


From 3d3ae4e6990816ac444447b53729192ab1b3298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:14 +0000
Subject: [PATCH 16/21] fix: let exceptions of the lookup or allocation pass
 when dereferencing an iterator

---
 include/lru/internal/base-iterator.hpp           | 4 ++--
 include/lru/internal/base-ordered-iterator.hpp   | 2 +-
 include/lru/internal/base-unordered-iterator.hpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lru/internal/base-iterator.hpp b/include/lru/internal/base-iterator.hpp
index b695a72..51b0e76 100644
--- a/include/lru/internal/base-iterator.hpp
+++ b/include/lru/internal/base-iterator.hpp
@@ -176,10 +176,10 @@ class BaseIterator : public std::iterator<IteratorTag, LRU::Entry<Key, Value>> {
   }
 
   /// \returns A reference to the current entry pointed to by the iterator.
-  virtual Entry& operator*() noexcept = 0;
+  virtual Entry& operator*() = 0;
 
   /// \returns A pointer to the current entry pointed to by the iterator.
-  Entry* operator->() noexcept {
+  Entry* operator->() {
     return &(**this);
   }
 
diff --git a/include/lru/internal/base-ordered-iterator.hpp b/include/lru/internal/base-ordered-iterator.hpp
index a0ed951..6d72545 100644
--- a/include/lru/internal/base-ordered-iterator.hpp
+++ b/include/lru/internal/base-ordered-iterator.hpp
@@ -269,7 +269,7 @@ class BaseOrderedIterator
     return previous;
   }
 
-  Entry& operator*() noexcept override {
+  Entry& operator*() override {
     return _maybe_lookup();
   }
 
diff --git a/include/lru/internal/base-unordered-iterator.hpp b/include/lru/internal/base-unordered-iterator.hpp
index dbc45ed..fb8e5cb 100644
--- a/include/lru/internal/base-unordered-iterator.hpp
+++ b/include/lru/internal/base-unordered-iterator.hpp
@@ -166,7 +166,7 @@ class BaseUnorderedIterator
   /// \copydoc BaseIterator::operator*
   /// \details If the iterator is invalid, behavior is undefined. No exception
   /// handling is performed.
-  Entry& operator*() noexcept override {
+  Entry& operator*() override {
     if (!_entry.has_value()) {
       _entry.emplace(_iterator->first, _iterator->second.value);
     }
-- 
2.43.0


From f76c5ce4654813d78ecb7f71d1f293288580486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:07 +0000
Subject: [PATCH 17/21] fix: compare ages with the time to live without
 narrowing them first

With a duration whose representation is narrower than that of the clock (for
example std::chrono::duration<int, std::milli>), the age of an old entry
overflowed and expired entries came back to life.
---
 include/lru/timed-cache.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index 9852c23..1ebdb52 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -30,6 +30,7 @@
 #include <iterator>
 #include <list>
 #include <stdexcept>
+#include <type_traits>
 #include <unordered_map>
 #include <utility>
 
@@ -392,7 +393,10 @@ class TimedCache
   bool _has_expired(const Information& information,
                     const Internal::Timestamp& now) const noexcept {
     auto elapsed = now - information.insertion_time;
-    return std::chrono::duration_cast<Duration>(elapsed) > _time_to_live;
+    // The elapsed time need not fit into the representation of the duration.
+    using Rep = std::common_type_t<typename Duration::rep, Clock::rep>;
+    using Age = std::chrono::duration<Rep, typename Duration::period>;
+    return std::chrono::duration_cast<Age>(elapsed) > _time_to_live;
   }
 
   /// The duration after which a key is said to be expired.
-- 
2.43.0


From 14c66df3a1c1c3f528dc62c88d58ef1cdd467e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:15 +0000
Subject: [PATCH 18/21] fix: let iterators be assigned, swapped and converted
 if std::optional is used

With C++17, where <optional> exists, Optional was std::optional itself, which
cannot be assigned or swapped for entries, as they hold references: making an
ordered iterator from a temporary unordered one, moving or swapping iterators
did not compile.
---
 include/lru/internal/optional.hpp | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/optional.hpp b/include/lru/internal/optional.hpp
index 8336d3b..0c9863d 100644
--- a/include/lru/internal/optional.hpp
+++ b/include/lru/internal/optional.hpp
@@ -30,8 +30,35 @@
 
 namespace LRU {
 namespace Internal {
+// A `std::optional` that can also be assigned and swapped if the value it holds
+// can only be constructed (such as an `Entry`, which has reference members).
 template <typename T>
-using Optional = std::optional<T>;
+class Optional : public std::optional<T> {
+ public:
+  using super = std::optional<T>;
+  using super::super;
+
+  Optional() = default;
+  Optional(const Optional& other) = default;
+  Optional(Optional&& other) = default;
+
+  Optional& operator=(const Optional& other) {
+    if (this == &other) return *this;
+    this->reset();
+    if (other) this->emplace(*other);
+    return *this;
+  }
+
+  void swap(Optional& other) {
+    Optional temporary(*this);
+    *this = other;
+    other = temporary;
+  }
+
+  friend void swap(Optional& first, Optional& second) /* NOLINT */ {
+    first.swap(second);
+  }
+};
 }  // namespace Internal
 }  // namespace LRU
 
-- 
2.43.0


From 902634c6cb12c2ebe555420017950782956fd34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:02 +0000
Subject: [PATCH 19/21] fix: use std::optional only where the language has it

With a recent standard library the header <optional> exists, but in C++14 it
defines nothing, so that nothing of the library compiled.
---
 include/lru/internal/optional.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/internal/optional.hpp b/include/lru/internal/optional.hpp
index 0c9863d..fd8cd6d 100644
--- a/include/lru/internal/optional.hpp
+++ b/include/lru/internal/optional.hpp
@@ -24,7 +24,7 @@
 
 #ifndef __has_include
 #define USE_LRU_OPTIONAL
-#elif __has_include(<optional>)
+#elif __has_include(<optional>) && __cplusplus > 201402L
 
 #include <optional>
 
-- 
2.43.0


From 0501be4c042107f01351df94b59f038eda199af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:58 +0000
Subject: [PATCH 20/21] fix: let string keys be given to statistics as
 constants or as two literals

A constant string was taken for a range of keys, and two literals of the
same type for a pair of iterators, neither of which compiled.  Only
ranges of and iterators over keys are now taken for those.
---
 include/lru/internal/utility.hpp | 21 +++++++++++++++++++++
 include/lru/statistics.hpp       |  7 +++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/lru/internal/utility.hpp b/include/lru/internal/utility.hpp
index 2be5a8d..20cf8c9 100644
--- a/include/lru/internal/utility.hpp
+++ b/include/lru/internal/utility.hpp
@@ -25,6 +25,7 @@
 #include <cstddef>
 #include <iterator>
 #include <tuple>
+#include <type_traits>
 #include <utility>
 
 namespace LRU {
@@ -81,6 +82,26 @@ template <typename T>
 using enable_if_range = std::pair<decltype(std::declval<T>().begin()),
                                   decltype(std::declval<T>().end())>;
 
+/// A type trait that disables a template overload if a type is not an iterator
+/// over elements convertible to a target type.
+///
+/// \tparam T the type to check.
+/// \tparam Target The type the elements must be convertible to.
+template <typename T, typename Target>
+using enable_if_iterator_over = std::enable_if_t<
+    std::is_convertible<typename std::iterator_traits<T>::reference,
+                        Target>::value>;
+
+/// A type trait that disables a template overload if a type is not a range of
+/// elements convertible to a target type.
+///
+/// \tparam T the type to check.
+/// \tparam Target The type the elements must be convertible to.
+template <typename T, typename Target>
+using enable_if_range_of = std::enable_if_t<
+    std::is_convertible<decltype(*std::begin(std::declval<const T&>())),
+                        Target>::value>;
+
 /// A type trait that disables a template overload if a type is not an iterator
 /// over a pair.
 ///
diff --git a/include/lru/statistics.hpp b/include/lru/statistics.hpp
index 29b9ce4..9589fe1 100644
--- a/include/lru/statistics.hpp
+++ b/include/lru/statistics.hpp
@@ -76,7 +76,9 @@ class Statistics {
   /// Constructor.
   ///
   /// \param range A range of keys to monitor.
-  template <typename Range, typename = Internal::enable_if_range<Range>>
+  template <typename Range,
+            typename = Internal::enable_if_range<Range>,
+            typename = Internal::enable_if_range_of<Range, Key>>
   explicit Statistics(const Range& range)
   : Statistics(std::begin(range), std::end(range)) {
   }
@@ -86,7 +88,8 @@ class Statistics {
   /// \param begin The start iterator of a range of keys to monitor.
   /// \param end The end iterator of a range of keys to monitor.
   template <typename Iterator,
-            typename = Internal::enable_if_iterator<Iterator>>
+            typename = Internal::enable_if_iterator<Iterator>,
+            typename = Internal::enable_if_iterator_over<Iterator, Key>>
   Statistics(Iterator begin, Iterator end) : Statistics() {
     for (; begin != end; ++begin) {
       monitor(*begin);
-- 
2.43.0


From 5497f40f6315a71bd0da753e92e34c4d261b462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:05 +0000
Subject: [PATCH 21/21] fix: let entries be compared with entries

Both overloads taking a pair were equally good if the pair was an entry
itself, so that comparing two entries did not compile.
---
 include/lru/entry.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/lru/entry.hpp b/include/lru/entry.hpp
index 425d7eb..10707e7 100644
--- a/include/lru/entry.hpp
+++ b/include/lru/entry.hpp
@@ -27,6 +27,17 @@
 #include <utility>
 
 namespace LRU {
+template <typename Key, typename Value>
+struct Entry;
+
+namespace Internal {
+/// Checks if a type is an `Entry`.
+template <typename T>
+struct is_entry : std::false_type {};
+
+template <typename Key, typename Value>
+struct is_entry<Entry<Key, Value>> : std::true_type {};
+}  // namespace Internal
 
 /// A entry of references to the key and value of an entry in a cache.
 ///
@@ -77,7 +88,9 @@ struct Entry final {
   /// \param first The first entry to compare.
   /// \param second The second entry to compare.
   /// \returns True if the first entry equals the second, else false.
-  template <typename Pair, typename = typename Pair::first_type>
+  template <typename Pair,
+            typename = typename Pair::first_type,
+            typename = std::enable_if_t<!Internal::is_entry<Pair>::value>>
   friend bool operator==(const Pair& first, const Entry& second) noexcept {
     return second == first;
   }
@@ -97,7 +110,9 @@ struct Entry final {
   /// \param first The first entry to compare.
   /// \param second The second entry to compare.fdas
   /// \returns True if the first entry does not equal the second, else false.
-  template <typename Pair, typename = typename Pair::first_type>
+  template <typename Pair,
+            typename = typename Pair::first_type,
+            typename = std::enable_if_t<!Internal::is_entry<Pair>::value>>
   friend bool operator!=(const Pair& first, const Entry& second) noexcept {
     return second != first;
   }
-- 
2.43.0

