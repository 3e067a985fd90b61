From ab14432657e6d96cb822c0a61babf495cb9bcd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 01/12] fix: order slot groups with the comparison object given
 to the signal

The group map was built with a default constructed comparison object, so a
stateful (or function pointer) GroupCompare passed to the signal constructor
was ignored when slots were ordered.
---
 include/boost/signals2/detail/slot_groups.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/slot_groups.hpp b/include/boost/signals2/detail/slot_groups.hpp
index 5e1853a..118a4ae 100644
--- a/include/boost/signals2/detail/slot_groups.hpp
+++ b/include/boost/signals2/detail/slot_groups.hpp
@@ -64,7 +64,7 @@ namespace boost {
         typedef typename group_key<Group>::type group_key_type;
 
         grouped_list(const group_key_compare_type &group_key_compare):
-          _group_key_compare(group_key_compare)
+          _group_map(group_key_compare), _group_key_compare(group_key_compare)
         {}
         grouped_list(const grouped_list &other): _list(other._list),
           _group_map(other._group_map), _group_key_compare(other._group_key_compare)
-- 
2.43.0


From 4dd60277db245bd7fb6987eec76749919002349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 02/12] fix: lock in connection::blocked() and report
 disconnected as blocked

connection::blocked() read the weak blocker pointer without the mutex that
protects it, racing with the construction of a shared_connection_block, and
returned false for a disconnected connection as long as its connection body
had not been collected, although it is documented to return true.
---
 include/boost/signals2/connection.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/signals2/connection.hpp b/include/boost/signals2/connection.hpp
index 6449735..33d6cf2 100644
--- a/include/boost/signals2/connection.hpp
+++ b/include/boost/signals2/connection.hpp
@@ -89,13 +89,14 @@ namespace boost
           }
           return blocker;
         }
-        bool blocked() const
+        bool blocked()
         {
-          return !_weak_blocker.expired();
+          unique_lock<connection_body_base> local_lock(*this);
+          return nolock_nograb_blocked();
         }
         bool nolock_nograb_blocked() const
         {
-          return nolock_nograb_connected() == false || blocked();
+          return nolock_nograb_connected() == false || !_weak_blocker.expired();
         }
         bool nolock_nograb_connected() const {return _connected;}
         // expose part of Lockable concept of mutex
-- 
2.43.0


From fe9e4bb1436823c17eba2ce5a75398ba00cd93b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 03/12] fix: don't take ownership of tracked objects in
 connected()

connected(), num_slots() and empty() locked the tracked weak pointers into
temporaries which were released while the mutex was still held. If the last
other owner let go in between, the tracked object was destroyed under the
mutex, deadlocking when its destructor used the signal. It also allocated
memory for foreign pointers, so functions documented not to throw could.
---
 include/boost/signals2/connection.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/connection.hpp b/include/boost/signals2/connection.hpp
index 33d6cf2..2df53f7 100644
--- a/include/boost/signals2/connection.hpp
+++ b/include/boost/signals2/connection.hpp
@@ -151,13 +151,13 @@ namespace boost
         virtual bool connected() const
         {
           garbage_collecting_lock<mutex_type> local_lock(*_mutex);
-          nolock_grab_tracked_objects(local_lock, detail::null_output_iterator());
+          disconnect_expired_slot(local_lock);
           return nolock_nograb_connected();
         }
         const GroupKey& group_key() const {return _group_key;}
         void set_group_key(const GroupKey &key) {_group_key = key;}
         template<typename M>
-        void disconnect_expired_slot(garbage_collecting_lock<M> &lock_arg)
+        void disconnect_expired_slot(garbage_collecting_lock<M> &lock_arg) const
         {
           if(!m_slot) return;
           bool expired = slot().expired();
-- 
2.43.0


From 07dced7dc0d7a328fd27accacbd021e64fe7cc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 04/12] fix: isolate invocations in progress from
 set_combiner()

set_combiner() called while an invocation was in progress made a new state
that shared the connection list with it. As the new state was not shared,
a later connect or invocation took the list to be unused and modified it
under the running invocation. Conversely a state made by connect() shared the
combiner, which a later set_combiner() then assigned to while it was running.
---
 .../boost/signals2/detail/signal_template.hpp   | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 61e486b..e19cb63 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -306,11 +306,16 @@ namespace boost
         }
         void set_combiner(const combiner_type &combiner_arg)
         {
+          // the old state is destroyed only after the mutex has been released
+          shared_ptr<invocation_state> old_state;
           unique_lock<mutex_type> lock(*_mutex);
-          if(_shared_state.unique())
-            _shared_state->combiner() = combiner_arg;
-          else
-            _shared_state = boost::make_shared<invocation_state>(*_shared_state, combiner_arg);
+          /* An invocation in progress may be using the combiner or the connection
+          list, so neither may be shared with or modified through the new state. */
+          shared_ptr<invocation_state> new_state =
+            boost::make_shared<invocation_state>(_shared_state->connection_bodies(), combiner_arg);
+          old_state = _shared_state;
+          _shared_state = new_state;
+          _garbage_collector_it = _shared_state->connection_bodies().end();
         }
       private:
         typedef Mutex mutex_type;
@@ -391,10 +396,6 @@ namespace boost
             _connection_bodies(new connection_list_type(connections_in)),
             _combiner(other._combiner)
           {}
-          invocation_state(const invocation_state &other, const combiner_type &combiner_in):
-            _connection_bodies(other._connection_bodies),
-            _combiner(new combiner_type(combiner_in))
-          {}
           connection_list_type & connection_bodies() { return *_connection_bodies; }
           const connection_list_type & connection_bodies() const { return *_connection_bodies; }
           combiner_type & combiner() { return *_combiner; }
-- 
2.43.0


From dba0392f51c3eb810512d1fa54abea2dd239dfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 05/12] fix: make inserting a slot into the grouped list
 exception safe

If the group comparison threw or memory for the group map ran out, connect()
threw but left the slot in the list: it was run by later invocations, could
not be disconnected by its group and was out of order. connect() is
documented to have no effect if it throws.
---
 include/boost/signals2/detail/slot_groups.hpp | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/boost/signals2/detail/slot_groups.hpp b/include/boost/signals2/detail/slot_groups.hpp
index 118a4ae..dc9b4fa 100644
--- a/include/boost/signals2/detail/slot_groups.hpp
+++ b/include/boost/signals2/detail/slot_groups.hpp
@@ -182,20 +182,26 @@ namespace boost {
         void m_insert(const map_iterator &map_it, const group_key_type &key, const ValueType &value)
         {
           iterator list_it = get_list_iterator(map_it);
-          iterator new_it = _list.insert(list_it, value);
+          /* The new list node is only spliced in after everything that might
+            throw, so an exception leaves the list and the map unchanged. */
+          list_type new_node(1, value);
+          iterator new_it = new_node.begin();
           if(map_it != _group_map.end() && weakly_equivalent(key, map_it->first))
           {
-            _group_map.erase(map_it);
-          }
-          map_iterator lower_bound_it = _group_map.lower_bound(key);
-          if(lower_bound_it == _group_map.end() ||
-            weakly_equivalent(lower_bound_it->first, key) == false)
+            map_it->second = new_it;
+          }else
           {
-            /* doing the following instead of just
-              _group_map[key] = new_it;
-              to avoid bogus error when enabling checked iterators with g++ */
-            _group_map.insert(typename map_type::value_type(key, new_it));
+            map_iterator lower_bound_it = _group_map.lower_bound(key);
+            if(lower_bound_it == _group_map.end() ||
+              weakly_equivalent(lower_bound_it->first, key) == false)
+            {
+              /* doing the following instead of just
+                _group_map[key] = new_it;
+                to avoid bogus error when enabling checked iterators with g++ */
+              _group_map.insert(typename map_type::value_type(key, new_it));
+            }
           }
+          _list.splice(list_it, new_node);
         }
         iterator get_list_iterator(const const_map_iterator &map_it)
         {
-- 
2.43.0


From c7a2d956ac128345f5afa62c03faa49c9d2196d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 06/12] fix: keep the garbage collector iterator valid when
 clean-up throws

An exception thrown by the group comparison while disconnected slots were
being erased left _garbage_collector_it pointing at an erased list node, or
into the list of an earlier invocation state, which the next clean-up used.
---
 include/boost/signals2/detail/signal_template.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index e19cb63..f87fbca 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -441,6 +441,8 @@ namespace boost
           BOOST_ASSERT(_shared_state.unique());
           typename connection_list_type::iterator it;
           unsigned i;
+          // keep _garbage_collector_it valid even if erasing a connection throws
+          _garbage_collector_it = begin;
           for(it = begin, i = 0;
             it != _shared_state->connection_bodies().end() && (count == 0 || i < count);
             ++i)
@@ -456,8 +458,8 @@ namespace boost
             {
               ++it;
             }
+            _garbage_collector_it = it;
           }
-          _garbage_collector_it = it;
         }
         // clean up a few connections in constant time
         void nolock_cleanup_connections(garbage_collecting_lock<mutex_type> &lock,
-- 
2.43.0


From 1d78040dba5932f21b8b5a7ae58d56eca6e85065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 07/12] fix: don't let an exception leave the invocation
 clean-up

The destructor of invocation_janitor may allocate memory and call the group
comparison. An exception from either left the destructor and terminated the
program.
---
 include/boost/signals2/detail/signal_template.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index f87fbca..b2ce084 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -424,7 +424,13 @@ namespace boost
             // force a full cleanup of disconnected slots if there are too many
             if(_cache.disconnected_slot_count > _cache.connected_slot_count)
             {
-              _sig.force_cleanup_connections(_connection_bodies);
+              // the clean-up is optional, so a failure must not leave the destructor
+              BOOST_TRY
+              {
+                _sig.force_cleanup_connections(_connection_bodies);
+              }
+              BOOST_CATCH(...) {}
+              BOOST_CATCH_END
             }
           }
         private:
-- 
2.43.0


From 3c9be930f31cfe5dd0fa905ba5acbfb189b33c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 08/12] fix: don't take ownership of a connected signal in
 disconnect()

---
 include/boost/signals2/detail/signal_template.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index b2ce084..b953874 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -843,7 +843,10 @@ namespace boost
         bool contains(const BOOST_SIGNALS2_SIGNAL_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS)
           <BOOST_SIGNALS2_SIGNAL_TEMPLATE_INSTANTIATION> &signal) const
         {
-          return _weak_pimpl.lock().get() == signal._pimpl.get(); 
+          // Compare by ownership. Locking the weak_ptr could make this the last
+          // owner of the signal, which would then be destroyed under the mutex
+          // the caller holds.
+          return !_weak_pimpl.owner_before(signal._pimpl) && !signal._pimpl.owner_before(_weak_pimpl);
         }
         template <typename T>
         bool contains(const T&) const
-- 
2.43.0


From fd9c222f8c53d2aa5d70e8312d668aacaf879505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 09/12] fix: find connected signals in disconnect() without
 variadic templates

---
 .../boost/signals2/detail/signal_template.hpp    | 16 ++++++++++------
 include/boost/signals2/preprocessed_signal.hpp   |  1 +
 include/boost/signals2/variadic_signal.hpp       |  1 +
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index b953874..23d1ffe 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -840,20 +840,24 @@ namespace boost
             shared_pimpl(_weak_pimpl.lock());
           return (*shared_pimpl)(BOOST_SIGNALS2_SIGNATURE_ARG_NAMES(BOOST_SIGNALS2_NUM_ARGS));
         }
-        bool contains(const BOOST_SIGNALS2_SIGNAL_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS)
-          <BOOST_SIGNALS2_SIGNAL_TEMPLATE_INSTANTIATION> &signal) const
+        template <typename T>
+        bool contains(const T &other) const
+        {
+          return contains_signal(boost::addressof(other));
+        }
+      private:
+        bool contains_signal(const BOOST_SIGNALS2_SIGNAL_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS)
+          <BOOST_SIGNALS2_SIGNAL_TEMPLATE_INSTANTIATION> *signal) const
         {
           // Compare by ownership. Locking the weak_ptr could make this the last
           // owner of the signal, which would then be destroyed under the mutex
           // the caller holds.
-          return !_weak_pimpl.owner_before(signal._pimpl) && !signal._pimpl.owner_before(_weak_pimpl);
+          return !_weak_pimpl.owner_before(signal->_pimpl) && !signal->_pimpl.owner_before(_weak_pimpl);
         }
-        template <typename T>
-        bool contains(const T&) const
+        bool contains_signal(...) const
         {
           return false;
         }
-      private:
         boost::weak_ptr<detail::BOOST_SIGNALS2_SIGNAL_IMPL_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS)
           <BOOST_SIGNALS2_SIGNAL_TEMPLATE_INSTANTIATION> > _weak_pimpl;
       };
diff --git a/include/boost/signals2/preprocessed_signal.hpp b/include/boost/signals2/preprocessed_signal.hpp
index aa810ea..d3b9164 100644
--- a/include/boost/signals2/preprocessed_signal.hpp
+++ b/include/boost/signals2/preprocessed_signal.hpp
@@ -16,6 +16,7 @@
 #define BOOST_SIGNALS2_PREPROCESSED_SIGNAL_HPP
 
 #include <boost/config.hpp>
+#include <boost/core/addressof.hpp>
 #include <boost/core/enable_if.hpp>
 #include <boost/preprocessor/arithmetic.hpp>
 #include <boost/preprocessor/cat.hpp>
diff --git a/include/boost/signals2/variadic_signal.hpp b/include/boost/signals2/variadic_signal.hpp
index 6bb20e5..3934e10 100644
--- a/include/boost/signals2/variadic_signal.hpp
+++ b/include/boost/signals2/variadic_signal.hpp
@@ -16,6 +16,7 @@
 #ifndef BOOST_SIGNALS2_VARIADIC_SIGNAL_HPP
 #define BOOST_SIGNALS2_VARIADIC_SIGNAL_HPP
 
+#include <boost/core/addressof.hpp>
 #include <boost/core/enable_if.hpp>
 #include <boost/preprocessor/control/expr_if.hpp>
 #include <boost/signals2/detail/variadic_arg_type.hpp>
-- 
2.43.0


From b5fa67bfbb39dc2b35fe7f9a40a43e7d2b73e0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:51 +0000
Subject: [PATCH 10/12] fix: keep the signal implementation alive during an
 invocation

signal::operator() called its implementation without owning it. A slot that
deletes or assigns over the signal it was called by destroyed the
implementation under the invocation in progress, whose clean-up then used it.
---
 include/boost/signals2/detail/signal_template.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 23d1ffe..8d0bfcc 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -739,11 +739,15 @@ namespace boost
       }
       result_type operator ()(BOOST_SIGNALS2_SIGNATURE_FULL_ARGS(BOOST_SIGNALS2_NUM_ARGS))
       {
-        return (*_pimpl)(BOOST_SIGNALS2_SIGNATURE_ARG_NAMES(BOOST_SIGNALS2_NUM_ARGS));
+        // a slot may destroy or move this signal
+        const shared_ptr<impl_class> local_pimpl(_pimpl);
+        return (*local_pimpl)(BOOST_SIGNALS2_SIGNATURE_ARG_NAMES(BOOST_SIGNALS2_NUM_ARGS));
       }
       result_type operator ()(BOOST_SIGNALS2_SIGNATURE_FULL_ARGS(BOOST_SIGNALS2_NUM_ARGS)) const
       {
-        return (*_pimpl)(BOOST_SIGNALS2_SIGNATURE_ARG_NAMES(BOOST_SIGNALS2_NUM_ARGS));
+        // a slot may destroy or move this signal
+        const shared_ptr<impl_class> local_pimpl(_pimpl);
+        return (*local_pimpl)(BOOST_SIGNALS2_SIGNATURE_ARG_NAMES(BOOST_SIGNALS2_NUM_ARGS));
       }
       std::size_t num_slots() const
       {
-- 
2.43.0


From c2442bc6b137dae66ed2800e37ca9cbdf5ae38fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:07 +0000
Subject: [PATCH 11/12] fix: let foreign_void_weak_ptr be moved without
 throwing

Assigning one slot to another assigns the vector of tracked pointers, whose
elements are variants.  When copying a foreign weak pointer fails, the variant
needs a fallback that current Boost.Variant releases do not construct, and the
slot is left holding an already released weak_ptr.  With a non-throwing move
constructor the copy is made first and then moved in.
---
 include/boost/signals2/detail/foreign_ptr.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/signals2/detail/foreign_ptr.hpp b/include/boost/signals2/detail/foreign_ptr.hpp
index 1aead5e..7024e70 100644
--- a/include/boost/signals2/detail/foreign_ptr.hpp
+++ b/include/boost/signals2/detail/foreign_ptr.hpp
@@ -147,6 +147,12 @@ namespace boost
         foreign_void_weak_ptr(const foreign_void_weak_ptr &other):
           _p(other._p->clone())
         {}
+#ifndef BOOST_NO_CXX11_RVALUE_REFERENCES
+        foreign_void_weak_ptr(foreign_void_weak_ptr &&other) BOOST_NOEXCEPT
+        {
+          _p.swap(other._p);
+        }
+#endif
         template<typename FWP>
         explicit foreign_void_weak_ptr(const FWP &fwp):
           _p(new foreign_weak_ptr_impl<FWP>(fwp))
-- 
2.43.0


From 11df7843a0de324b1d2e617082a934f387814539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:42 +0000
Subject: [PATCH 12/12] fix: connect_extended made and destroyed copies of the
 slot function under the mutex

The copies that connect_extended makes of the extended slot's function were
destroyed while the signal's mutex was held, so a destructor of a slot
function object that uses the signal deadlocked. They are made before the
mutex is locked now.
---
 include/boost/signals2/detail/signal_template.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 8d0bfcc..07a6632 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -176,9 +176,10 @@ namespace boost
         // connect extended slot
         connection connect_extended(const extended_slot_type &ext_slot, connect_position position = at_back)
         {
-          garbage_collecting_lock<mutex_type> lock(*_mutex);
+          // the copies of the slot function made here must not be destroyed under the mutex
           bound_extended_slot_function_type bound_slot(ext_slot.slot_function());
           slot_type slot = replace_slot_function<slot_type>(ext_slot, bound_slot);
+          garbage_collecting_lock<mutex_type> lock(*_mutex);
           connection conn = nolock_connect(lock, slot, position);
           bound_slot.set_connection(conn);
           return conn;
@@ -186,9 +187,10 @@ namespace boost
         connection connect_extended(const group_type &group,
           const extended_slot_type &ext_slot, connect_position position = at_back)
         {
-          garbage_collecting_lock<Mutex> lock(*_mutex);
+          // the copies of the slot function made here must not be destroyed under the mutex
           bound_extended_slot_function_type bound_slot(ext_slot.slot_function());
           slot_type slot = replace_slot_function<slot_type>(ext_slot, bound_slot);
+          garbage_collecting_lock<Mutex> lock(*_mutex);
           connection conn = nolock_connect(lock, group, slot, position);
           bound_slot.set_connection(conn);
           return conn;
-- 
2.43.0

