From ff7f964146075c6191c88b5170823924369cbfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 01/13] fix: hold the mutex while connection::blocked() reads
 the blocker

get_blocker() assigns _weak_blocker under the mutex; blocked() read it
without, so blocking a connection in one thread while another one calls
blocked() was a data race and could touch a freed control block.
---
 include/boost/signals2/connection.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/connection.hpp b/include/boost/signals2/connection.hpp
index 6449735..0f3c277 100644
--- a/include/boost/signals2/connection.hpp
+++ b/include/boost/signals2/connection.hpp
@@ -89,13 +89,18 @@ namespace boost
           }
           return blocker;
         }
-        bool blocked() const
+        bool blocked()
+        {
+          unique_lock<connection_body_base> local_lock(*this);
+          return nolock_blocked();
+        }
+        bool nolock_blocked() const
         {
           return !_weak_blocker.expired();
         }
         bool nolock_nograb_blocked() const
         {
-          return nolock_nograb_connected() == false || blocked();
+          return nolock_nograb_connected() == false || nolock_blocked();
         }
         bool nolock_nograb_connected() const {return _connected;}
         // expose part of Lockable concept of mutex
-- 
2.43.0


From a3f65a1011ecd2909add23dff171a14ae164e314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 02/13] fix: connection::blocked() returns true for every
 disconnected connection

It returned false as long as the signal's list had not been cleaned up
yet, although the documentation promises true if the connection is
blocked or disconnected.
---
 include/boost/signals2/connection.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/connection.hpp b/include/boost/signals2/connection.hpp
index 0f3c277..a7b2d8d 100644
--- a/include/boost/signals2/connection.hpp
+++ b/include/boost/signals2/connection.hpp
@@ -284,7 +284,8 @@ namespace boost
       {
         boost::shared_ptr<detail::connection_body_base> connectionBody(_weak_connection_body.lock());
         if(connectionBody == 0) return true;
-        return connectionBody->blocked();
+        // a disconnected connection may still be waiting for its removal from the signal's list
+        return connectionBody->blocked() || connectionBody->connected() == false;
       }
       bool operator==(const connection& other) const
       {
-- 
2.43.0


From 1b99fc62acd558b245c12f47661b595a00260d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 03/13] fix: set_combiner no longer disturbs a running
 invocation

After set_combiner during an invocation the new state shared its
connection list with the invocation but counted as unique, so a later
connect edited the list which was being iterated. After a connect during
an invocation the combiner was shared likewise, and set_combiner assigned
to the combiner which was being executed.
---
 .../boost/signals2/detail/signal_template.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 61e486b..30c3b0b 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -306,11 +306,17 @@ namespace boost
         }
         void set_combiner(const combiner_type &combiner_arg)
         {
+          // The old combiner may still be in use by an invocation, even if that one runs with
+          // an older _shared_state. Therefore it is exchanged, and not assigned to.
+          shared_ptr<combiner_type> new_combiner(new combiner_type(combiner_arg));
           unique_lock<mutex_type> lock(*_mutex);
-          if(_shared_state.unique())
-            _shared_state->combiner() = combiner_arg;
-          else
-            _shared_state = boost::make_shared<invocation_state>(*_shared_state, combiner_arg);
+          if(_shared_state.unique() == false)
+          {
+            // don't share the connection list with an invocation either
+            _shared_state = boost::make_shared<invocation_state>(*_shared_state, _shared_state->connection_bodies());
+            _garbage_collector_it = _shared_state->connection_bodies().end();
+          }
+          _shared_state->swap_combiner(new_combiner);
         }
       private:
         typedef Mutex mutex_type;
@@ -391,14 +397,11 @@ namespace boost
             _connection_bodies(new connection_list_type(connections_in)),
             _combiner(other._combiner)
           {}
-          invocation_state(const invocation_state &other, const combiner_type &combiner_in):
-            _connection_bodies(other._connection_bodies),
-            _combiner(new combiner_type(combiner_in))
-          {}
           connection_list_type & connection_bodies() { return *_connection_bodies; }
           const connection_list_type & connection_bodies() const { return *_connection_bodies; }
           combiner_type & combiner() { return *_combiner; }
           const combiner_type & combiner() const { return *_combiner; }
+          void swap_combiner(shared_ptr<combiner_type> &other) { _combiner.swap(other); }
         private:
           invocation_state(const invocation_state &);
 
-- 
2.43.0


From ba7a03a7496f9e13c5c1a59ac2cac9221ff914c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 04/13] fix: connect leaves the slot list unchanged if it
 throws

When allocating the entry of the group map or comparing groups threw, the
new slot was already in the list (and connected), and the map could have
lost the entry of its group.
---
 include/boost/signals2/detail/slot_groups.hpp | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/boost/signals2/detail/slot_groups.hpp b/include/boost/signals2/detail/slot_groups.hpp
index 5e1853a..448ad4b 100644
--- a/include/boost/signals2/detail/slot_groups.hpp
+++ b/include/boost/signals2/detail/slot_groups.hpp
@@ -182,20 +182,25 @@ namespace boost {
         void m_insert(const map_iterator &map_it, const group_key_type &key, const ValueType &value)
         {
           iterator list_it = get_list_iterator(map_it);
-          iterator new_it = _list.insert(list_it, value);
+          // everything which may throw happens before *this is modified
+          list_type new_node(1, value);
+          iterator new_it = new_node.begin();
           if(map_it != _group_map.end() && weakly_equivalent(key, map_it->first))
           {
-            _group_map.erase(map_it);
-          }
-          map_iterator lower_bound_it = _group_map.lower_bound(key);
-          if(lower_bound_it == _group_map.end() ||
-            weakly_equivalent(lower_bound_it->first, key) == false)
+            map_it->second = new_it;
+          }else
           {
-            /* doing the following instead of just
-              _group_map[key] = new_it;
-              to avoid bogus error when enabling checked iterators with g++ */
-            _group_map.insert(typename map_type::value_type(key, new_it));
+            map_iterator lower_bound_it = _group_map.lower_bound(key);
+            if(lower_bound_it == _group_map.end() ||
+              weakly_equivalent(lower_bound_it->first, key) == false)
+            {
+              /* doing the following instead of just
+                _group_map[key] = new_it;
+                to avoid bogus error when enabling checked iterators with g++ */
+              _group_map.insert(typename map_type::value_type(key, new_it));
+            }
           }
+          _list.splice(list_it, new_node);
         }
         iterator get_list_iterator(const const_map_iterator &map_it)
         {
-- 
2.43.0


From 760a5f4a0812c1dd907a42ed1fa0eea8f9667c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 05/13] fix: keep the garbage collector's iterator valid if
 comparing groups throws

After an exception from the group comparison during a cleanup,
_garbage_collector_it could refer to an erased list element or to an
element of another list.
---
 include/boost/signals2/detail/signal_template.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 30c3b0b..c1656d3 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -441,7 +441,8 @@ namespace boost
           const typename connection_list_type::iterator &begin, unsigned count = 0) const
         {
           BOOST_ASSERT(_shared_state.unique());
-          typename connection_list_type::iterator it;
+          // _garbage_collector_it has to be valid even if comparing groups throws
+          typename connection_list_type::iterator &it = _garbage_collector_it;
           unsigned i;
           for(it = begin, i = 0;
             it != _shared_state->connection_bodies().end() && (count == 0 || i < count);
@@ -459,7 +460,6 @@ namespace boost
               ++it;
             }
           }
-          _garbage_collector_it = it;
         }
         // clean up a few connections in constant time
         void nolock_cleanup_connections(garbage_collecting_lock<mutex_type> &lock,
-- 
2.43.0


From 41da2bbe6d52d10a9bbef71fdfd5cf33706d8cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 06/13] fix: connected() does not destroy tracked objects with
 the mutex locked

If the last other owner of a tracked object released it while connected()
(or num_slots(), empty()) held its temporary shared_ptr, the object's
destructor ran with the signal's mutex locked, and deadlocked if it used
the signal or one of its connections.
---
 include/boost/signals2/connection.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/connection.hpp b/include/boost/signals2/connection.hpp
index a7b2d8d..ff6ae8e 100644
--- a/include/boost/signals2/connection.hpp
+++ b/include/boost/signals2/connection.hpp
@@ -20,10 +20,10 @@
 #include <boost/mpl/bool.hpp>
 #include <boost/shared_ptr.hpp>
 #include <boost/signals2/detail/auto_buffer.hpp>
-#include <boost/signals2/detail/null_output_iterator.hpp>
 #include <boost/signals2/detail/unique_lock.hpp>
 #include <boost/signals2/slot.hpp>
 #include <boost/weak_ptr.hpp>
+#include <iterator>
 
 namespace boost
 {
@@ -154,8 +154,10 @@ namespace boost
         virtual ~connection_body() {}
         virtual bool connected() const
         {
+          // declared before the lock, since releasing a tracked object may run its destructor
+          auto_buffer<void_shared_ptr_variant, store_n_objects<10> > tracked_ptrs;
           garbage_collecting_lock<mutex_type> local_lock(*_mutex);
-          nolock_grab_tracked_objects(local_lock, detail::null_output_iterator());
+          nolock_grab_tracked_objects(local_lock, std::back_inserter(tracked_ptrs));
           return nolock_nograb_connected();
         }
         const GroupKey& group_key() const {return _group_key;}
-- 
2.43.0


From 338824be7e42b567852bb07dbf20ad5a947682fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:44 +0000
Subject: [PATCH 07/13] fix: comparing a slot with a signal does not keep the
 slot's signal alive

disconnect(f) locked the weak_ptr to a signal connected as slot. If that
signal was destroyed meanwhile by another thread, its slots got destroyed
with the outer signal's mutex locked, and deadlocked if the destructor of a
slot function used the outer signal.
---
 include/boost/signals2/detail/signal_template.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index c1656d3..ea69f3b 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -837,7 +837,10 @@ namespace boost
         bool contains(const BOOST_SIGNALS2_SIGNAL_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS)
           <BOOST_SIGNALS2_SIGNAL_TEMPLATE_INSTANTIATION> &signal) const
         {
-          return _weak_pimpl.lock().get() == signal._pimpl.get(); 
+          // don't lock() the weak_ptr, this gets called with a mutex locked and must not
+          // become the last owner of the other signal
+          return _weak_pimpl.owner_before(signal._pimpl) == false &&
+            signal._pimpl.owner_before(_weak_pimpl) == false;
         }
         template <typename T>
         bool contains(const T&) const
-- 
2.43.0


From 882cacaeb60d722b4bb9f6519f4510c97be9c8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 08/13] fix: disconnecting by a signal works for classes
 derived from the signal class

Without variadic templates signal itself is such a class, there
disconnect(signal) and disconnect(ref(signal)) had no effect.
---
 include/boost/signals2/detail/signal_template.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index ea69f3b..7ec2208 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -834,8 +834,16 @@ namespace boost
             shared_pimpl(_weak_pimpl.lock());
           return (*shared_pimpl)(BOOST_SIGNALS2_SIGNATURE_ARG_NAMES(BOOST_SIGNALS2_NUM_ARGS));
         }
-        bool contains(const BOOST_SIGNALS2_SIGNAL_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS)
-          <BOOST_SIGNALS2_SIGNAL_TEMPLATE_INSTANTIATION> &signal) const
+        template <typename T>
+        bool contains(const T &slot) const
+        {
+          // slot may be of a class derived from our signal class
+          return do_contains(slot, mpl::bool_<(is_convertible<const T *, const signal_class *>::value)>());
+        }
+      private:
+        typedef BOOST_SIGNALS2_SIGNAL_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS)
+          <BOOST_SIGNALS2_SIGNAL_TEMPLATE_INSTANTIATION> signal_class;
+        bool do_contains(const signal_class &signal, mpl::bool_<true>) const
         {
           // don't lock() the weak_ptr, this gets called with a mutex locked and must not
           // become the last owner of the other signal
@@ -843,11 +851,10 @@ namespace boost
             signal._pimpl.owner_before(_weak_pimpl) == false;
         }
         template <typename T>
-        bool contains(const T&) const
+        bool do_contains(const T &, mpl::bool_<false>) const
         {
           return false;
         }
-      private:
         boost::weak_ptr<detail::BOOST_SIGNALS2_SIGNAL_IMPL_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS)
           <BOOST_SIGNALS2_SIGNAL_TEMPLATE_INSTANTIATION> > _weak_pimpl;
       };
-- 
2.43.0


From 0c6bd6ad9722edd5e56d6b81a91ee0d238429865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:16 +0000
Subject: [PATCH 09/13] fix: slot::track() of a slot's own tracked objects

Tracking the objects of a slot by the slot itself appended to the vector
it was iterating over, through invalidated iterators.
---
 include/boost/signals2/detail/slot_template.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/signals2/detail/slot_template.hpp b/include/boost/signals2/detail/slot_template.hpp
index 1c17c5b..977bdf3 100644
--- a/include/boost/signals2/detail/slot_template.hpp
+++ b/include/boost/signals2/detail/slot_template.hpp
@@ -123,6 +123,8 @@ namespace boost
       }
       BOOST_SIGNALS2_SLOT_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS)& track(const slot_base &slot)
       {
+        // appending to the container which is being iterated over would invalidate the iterator
+        if(&slot == this) return track(slot_base(slot));
         tracked_container_type::const_iterator it;
         for(it = slot.tracked_objects().begin(); it != slot.tracked_objects().end(); ++it)
         {
-- 
2.43.0


From 2a609e2ac87f5872644e363a4cd9961e0ffbc7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:18 +0000
Subject: [PATCH 10/13] fix: an exception from the cleanup at the end of an
 invocation must not leave a destructor

~invocation_janitor() runs force_cleanup_connections(), which copies the slot list and compares
groups. When that failed (std::bad_alloc, or a group comparison that throws), the exception left the
destructor and std::terminate was called. The cleanup is optional: what is not removed now is removed
by a later operation.
---
 include/boost/signals2/detail/signal_template.hpp | 11 ++++++++++-
 include/boost/signals2/signal.hpp                 |  1 +
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 7ec2208..128410b 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -426,7 +426,16 @@ namespace boost
             // force a full cleanup of disconnected slots if there are too many
             if(_cache.disconnected_slot_count > _cache.connected_slot_count)
             {
-              _sig.force_cleanup_connections(_connection_bodies);
+              // the cleanup may allocate memory and compare groups, but a destructor must not
+              // throw. Whatever is not cleaned up now is left for later.
+              BOOST_TRY
+              {
+                _sig.force_cleanup_connections(_connection_bodies);
+              }
+              BOOST_CATCH(...)
+              {
+              }
+              BOOST_CATCH_END
             }
           }
         private:
diff --git a/include/boost/signals2/signal.hpp b/include/boost/signals2/signal.hpp
index 716f119..da25cf8 100644
--- a/include/boost/signals2/signal.hpp
+++ b/include/boost/signals2/signal.hpp
@@ -15,6 +15,7 @@
 #include <algorithm>
 #include <boost/assert.hpp>
 #include <boost/config.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/core/noncopyable.hpp>
 #include <boost/function.hpp>
 #include <boost/mpl/identity.hpp>
-- 
2.43.0


From cf91db3a1b3636c3d1ee7d83485a3ca514091d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:33 +0000
Subject: [PATCH 11/13] fix: auto_buffer::insert in the middle overwrites the
 elements it shifts

std::copy with a destination inside the source range copies the first
element over all following ones for types that are not trivially copyable.
---
 include/boost/signals2/detail/auto_buffer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/signals2/detail/auto_buffer.hpp b/include/boost/signals2/detail/auto_buffer.hpp
index 6ce59e4..25a4c75 100644
--- a/include/boost/signals2/detail/auto_buffer.hpp
+++ b/include/boost/signals2/detail/auto_buffer.hpp
@@ -431,7 +431,7 @@ namespace detail
                 {
                     grow_back( n );
                     iterator where = const_cast<T*>(before);
-                    std::copy( before, cend() - n, where + n );
+                    std::copy_backward( before, cend() - n, end() );
                     assign_impl( begin_arg, end_arg, where );
                 }
                 else
@@ -845,7 +845,7 @@ namespace detail
                 if( !is_back_insertion )
                 {
                     grow_back_one();
-                    std::copy( before, cend() - 1u, where + 1u );
+                    std::copy_backward( before, cend() - 1u, end() );
                     *where = x;
                     BOOST_ASSERT( is_valid() );
                  }
@@ -874,7 +874,7 @@ namespace detail
             {
                 grow_back( n );
                 iterator where = const_cast<T*>(before);
-                std::copy( before, cend() - n, where + n );
+                std::copy_backward( before, cend() - n, end() );
                 std::fill( where, where + n, x );
                 BOOST_ASSERT( is_valid() );
                 return;
-- 
2.43.0


From 3c8ea77aed38c3cf7ae3b978807d4f63acba1173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:33 +0000
Subject: [PATCH 12/13] fix: auto_buffer::erase asserts on an empty range in a
 full buffer

---
 include/boost/signals2/detail/auto_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/auto_buffer.hpp b/include/boost/signals2/detail/auto_buffer.hpp
index 25a4c75..201b1f0 100644
--- a/include/boost/signals2/detail/auto_buffer.hpp
+++ b/include/boost/signals2/detail/auto_buffer.hpp
@@ -957,7 +957,7 @@ namespace detail
                            const_cast<T*>(from) );
             }
             pop_back_n( std::distance(from,to) );
-            BOOST_ASSERT( !full() );
+            BOOST_ASSERT( from == to || !full() );
             iterator result = const_cast<T*>( from );
             BOOST_ASSERT( result <= end() );
             return result;
-- 
2.43.0


From 4386ec0f83fa15a783e82fb4ea21371f2629fd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:59 +0000
Subject: [PATCH 13/13] fix: the group comparison given to a signal's
 constructor is used

grouped_list default-constructed the comparison of its map of groups, so that
a comparison with state was ignored when slots were inserted.
---
 include/boost/signals2/detail/slot_groups.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/slot_groups.hpp b/include/boost/signals2/detail/slot_groups.hpp
index 448ad4b..a233a75 100644
--- a/include/boost/signals2/detail/slot_groups.hpp
+++ b/include/boost/signals2/detail/slot_groups.hpp
@@ -64,7 +64,7 @@ namespace boost {
         typedef typename group_key<Group>::type group_key_type;
 
         grouped_list(const group_key_compare_type &group_key_compare):
-          _group_key_compare(group_key_compare)
+          _group_map(group_key_compare), _group_key_compare(group_key_compare)
         {}
         grouped_list(const grouped_list &other): _list(other._list),
           _group_map(other._group_map), _group_key_compare(other._group_key_compare)
-- 
2.43.0

