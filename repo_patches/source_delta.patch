From 28402fccedcb8a72060cfbeca17bffbbc02f0612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:17 +0000
Subject: [PATCH 01/89] fix: from_store with key takes the item from the store
 it was found in

---
 salabim/salabim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4641412..112d157 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8223,6 +8223,7 @@ by adding:
             self.env.print_trace("", "", self.name(), f"from_store ({', '.join(store._name for store in from_stores)})")
 
         found_c = None
+        found_store = None
         found_key = None
         done = False
         for store in from_stores:
@@ -8232,14 +8233,17 @@ by adding:
                         this_key = key(c)
                         if found_key is None or this_key < found_key:
                             found_c = c
+                            found_store = store
                             found_key = this_key
                     else:
                         found_c = c
+                        found_store = store
                         done = True
                         break
             if done:
                 break
-        if found_c:
+        if found_c is not None:
+            store = found_store
             found_c.leave(store)
             self._from_store_item = found_c
             self._from_store_store = store
-- 
2.43.0


From 7ab967417d55a26db94d11fab219117c3f01fa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:17 +0000
Subject: [PATCH 02/89] fix: Store.rescan hands at most one item to each
 from_store requester

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 112d157..95b5f67 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5788,6 +5788,7 @@ class Store(Queue):
                     c._remove()
                     c.status._value = scheduled
                     c._reschedule(c.env._now, 0, False, f"from_store ({self.name()}) honor with {item.name()}", False, s0=c.env.last_s0, return_value=item)
+                    break
 
     def _rescan_to(self):
         """
-- 
2.43.0


From 6d14904c05d205adcfaf7ec6aef72e06e1745336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:49 +0000
Subject: [PATCH 03/89] fix: an item of a waiting to_store that matches a
 waiting from_store is handed over once

---
 salabim/salabim.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 95b5f67..4431dfb 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4247,10 +4247,11 @@ class Qmember:
             store = q
             for requester in store._from_store_requesters:
                 if requester._from_store_filter(c):
-                    c.leave(store)
+                    # dequeue the requester first, as c.leave() might let another item enter, that would be matched with this requester again
                     for store0 in requester._from_stores:
                         requester.leave(store0._from_store_requesters)
                     requester._from_stores = []
+                    c.leave(store)
                     requester._from_store_item = c
                     requester._from_store_store = store
                     requester._remove()
@@ -9792,11 +9793,12 @@ by adding:
             if available_quantity > 0:
                 if len(store._to_store_requesters) > 0:
                     requester = store._to_store_requesters[0]
-                    with self.env.suppress_trace():
-                        requester._to_store_item.enter_sorted(q, requester._to_store_priority)
+                    # dequeue the requester first, as the entered item might leave immediately (waiting from_store), which would honor this requester again
                     for store0 in requester._to_stores:
                         requester.leave(store0._to_store_requesters)
                     requester._to_stores = []
+                    with self.env.suppress_trace():
+                        requester._to_store_item.enter_sorted(q, requester._to_store_priority)
                     requester._remove()
                     requester.status._value = scheduled
                     requester._reschedule(requester.env._now, 0, False, f"to_store ({store.name()}) honor ", False, s0=requester.env.last_s0)
-- 
2.43.0


From 0115d10912b588a09a5347847c1c5f5b0ff5ee28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:31 +0000
Subject: [PATCH 04/89] fix: honor_only_first/honor_only_highest_priority
 requesters are honored as soon as they become eligible

---
 salabim/salabim.py | 47 +++++++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4431dfb..900401f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7491,12 +7491,16 @@ by adding at the end:
         if self._requests:
             if self.env._trace:
                 self.env.print_trace("", "", self.name(), "request failed")
-            for r in list(self._requests):
+            resources = list(self._requests)
+            for r in resources:
                 self.leave(r._requesters)
                 if r._requesters._length == 0:
                     r._minq = inf
             self._requests = collections.OrderedDict()
             self._failed = True
+            for r in resources:
+                if r._honor_only_first or r._honor_only_highest_priority:
+                    r._tryrequest()  # there might be a new first requester
 
         if self._waits:
             if self.env._trace:
@@ -8762,10 +8766,10 @@ by adding:
             r_honor = self.honor_all()
 
         if r_honor:
-            anonymous_resources = []
+            retry_resources = []
             for r in list(self._requests):
-                if r._anonymous:
-                    anonymous_resources.append(r)
+                if r._anonymous or r._honor_only_first or r._honor_only_highest_priority:
+                    retry_resources.append(r)
                 if r in r_honor:
                     r._claimed_quantity += self._requests[r]
                     this_prio = self.priority(r._requesters)
@@ -8794,7 +8798,7 @@ by adding:
             honoredstr = r_honor[0].name() + (len(r_honor) > 1) * " ++"
             self.status._value = scheduled
             self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0)
-            for r in anonymous_resources:
+            for r in retry_resources:
                 r._tryrequest()
             return True
         else:
@@ -24326,37 +24330,24 @@ class Resource:
 
     def _tryrequest(self):
         # this is Resource._tryrequest
-        if self._anonymous:
-            if not self._trying:
-                self._trying = True
-                mx = mx_first = self._requesters._head.successor
-                mx_first_priority = mx_first.priority
-                while mx != self._requesters._tail:
-                    if self._honor_only_first and mx != mx_first:
-                        break
-                    if self._honor_only_highest_priority and mx.priority != mx_first_priority:
-                        break
-                    c = mx.component
-                    mx = mx.successor
-                    c._tryrequest()
-                    if c not in self._requesters:
-                        mx = self._requesters._head.successor  # start again
-
-                self._trying = False
-        else:
-            mx = mx_first = self._requesters._head.successor
-            mx_first_priority = mx_first.priority
-
+        if not self._trying:
+            self._trying = True
+            mx = self._requesters._head.successor
             while mx != self._requesters._tail:
+                mx_first = self._requesters._head.successor
                 if self._honor_only_first and mx != mx_first:
                     break
-                if self._honor_only_highest_priority and mx.priority != mx_first_priority:
+                if self._honor_only_highest_priority and mx.priority != mx_first.priority:
                     break
-                if self._minq > (self._capacity - self._claimed_quantity + 1e-8):
+                if not self._anonymous and self._minq > (self._capacity - self._claimed_quantity + 1e-8):
                     break  # inpossible to honor any more requests
                 c = mx.component
                 mx = mx.successor
                 c._tryrequest()
+                if c not in self._requesters:
+                    mx = self._requesters._head.successor  # start again
+
+            self._trying = False
 
     def release(self, quantity: float = None) -> None:
         """
-- 
2.43.0


From 73ba67bc2439c66b04f3bcec7a0f71e16261b0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:31 +0000
Subject: [PATCH 05/89] fix: requests that became possible by an honored
 (anonymous) request are honored before switching, also if yieldless

---
 salabim/salabim.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 900401f..70e0682 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7467,7 +7467,7 @@ by adding at the end:
                 seq = self.env._seq
             self._on_event_list = True
             heapq.heappush(self.env._event_list, (t, priority, seq, self, return_value))
-        if self.env._yieldless:
+        if self.env._yieldless and switch:
             if self is self.env._current_component:
                 self.env._glet.switch()
 
@@ -7527,7 +7527,7 @@ by adding at the end:
             self._to_stores = []
             self._failed = True
 
-    def _reschedule(self, scheduled_time, priority, urgent, caller, cap_now, extra="", s0=None, return_value=None):
+    def _reschedule(self, scheduled_time, priority, urgent, caller, cap_now, extra="", s0=None, return_value=None, switch=True):
         if scheduled_time < self.env._now:
             if cap_now is None:
                 cap_now = g._default_cap_now
@@ -7554,7 +7554,7 @@ by adding at the end:
                 merge_blanks(scheduled_time_str + _prioritytxt(priority) + _urgenttxt(urgent) + lineno, self._modetxt(), extra),
                 s0=s0,
             )
-        self._push(scheduled_time, priority, urgent, return_value)
+        self._push(scheduled_time, priority, urgent, return_value, switch)
 
     def activate(
         self,
@@ -8797,9 +8797,12 @@ by adding:
             self._remove()
             honoredstr = r_honor[0].name() + (len(r_honor) > 1) * " ++"
             self.status._value = scheduled
-            self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0)
+            self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0, switch=False)
             for r in retry_resources:
                 r._tryrequest()
+            if self.env._yieldless:
+                if self is self.env._current_component:
+                    self.env._glet.switch()
             return True
         else:
             return False
-- 
2.43.0


From 450aa54553c9ca23323e8b59bb488c12f50f0e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:31 +0000
Subject: [PATCH 06/89] fix: preemptive request does not bump claimers if that
 does not allow the request to be honored

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 70e0682..a08775a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8656,7 +8656,7 @@ by adding:
                         break
                     av += c.claimed_quantity(this_claimers)
                     bump_candidates.append(c)
-                if av >= 0:
+                if av + 1e-8 >= q:
                     for c in bump_candidates:
                         c._release(r, bumped_by=self)
                         c.activate()
-- 
2.43.0


From 37d20dfffe76c59f720290aa06019f8b640ab1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:31 +0000
Subject: [PATCH 07/89] fix: Queue.append honors the priority parameter

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index a08775a..1ae3e71 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4912,7 +4912,7 @@ class Queue:
 
         This method is equivalent to add()
         """
-        component.enter(self)
+        component.enter(self, priority)
         return self
 
     def add_at_head(self, component: "Component") -> "Queue":
-- 
2.43.0


From a8479053f5a947d5d3e1315093ba1b28c5719e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:31 +0000
Subject: [PATCH 08/89] fix: pending standby components are not lost when the
 current component skips standby

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 1ae3e71..9ff7138 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -11200,7 +11200,7 @@ class Environment:
                                 return
 
             if len(self.env._standbylist) > 0:
-                self._pendingstandbylist = list(self.env._standbylist)
+                self._pendingstandbylist.extend(self.env._standbylist)
                 self.env._standbylist = []
 
             if self._event_list:
-- 
2.43.0


From e793921de2afbd0bd426b10fcbc0466fb144185e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:31 +0000
Subject: [PATCH 09/89] fix: continuing after an exception in a process does
 not end the run too early

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9ff7138..5fd5a5b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -13402,6 +13402,7 @@ class Environment:
                 scheduled_time = till + self.env._offset
             else:
                 raise ValueError("both duration and till specified")
+        self._main._remove()  # main might still be scheduled if a previous run was ended by an exception
         if self._yieldless:
             self._main.status._value = scheduled
             self._main._reschedule(scheduled_time, priority, urgent, "run", cap_now, extra=extra)
-- 
2.43.0


From ece60f3835ac78a07cbd058f30afbda821935725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:31 +0000
Subject: [PATCH 10/89] fix: wait_for uses request_priority for the position in
 the waiters queue

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 5fd5a5b..0285784 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -9001,10 +9001,10 @@ by adding:
         self._cond = cond  # add test ***
         for state in states:
             self._waits.append((state, None, None))
-            if priority is None:
+            if request_priority is None:
                 self.enter(state._waiters)
             else:
-                self.enter_sorted(state._waiters, priority)
+                self.enter_sorted(state._waiters, request_priority)
 
         if not self._waits:
             raise TypeError("no states specified")
-- 
2.43.0


From 8bb566f0a935510a8db44ebad2c5152d7c87c246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:31 +0000
Subject: [PATCH 11/89] fix: wait with a $-expression works for non numeric
 values, also without all=True

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0285784..fc9f569 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -9278,7 +9278,7 @@ by adding:
                             honored = True
                             break
                     elif valuetype == 1:
-                        if eval(value.replace("$", str(state._value))):
+                        if eval(value.replace("$", "state._value")):
                             honored = True
                             break
                     elif valuetype == 2:
-- 
2.43.0


From bb377bb09c17a6cfc009e2be298463f86e7106c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:12 +0000
Subject: [PATCH 12/89] fix: an exception while honoring requests does not
 block a resource forever

---
 salabim/salabim.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index fc9f569..889a1ec 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24336,22 +24336,23 @@ class Resource:
         # this is Resource._tryrequest
         if not self._trying:
             self._trying = True
-            mx = self._requesters._head.successor
-            while mx != self._requesters._tail:
-                mx_first = self._requesters._head.successor
-                if self._honor_only_first and mx != mx_first:
-                    break
-                if self._honor_only_highest_priority and mx.priority != mx_first.priority:
-                    break
-                if not self._anonymous and self._minq > (self._capacity - self._claimed_quantity + 1e-8):
-                    break  # inpossible to honor any more requests
-                c = mx.component
-                mx = mx.successor
-                c._tryrequest()
-                if c not in self._requesters:
-                    mx = self._requesters._head.successor  # start again
-
-            self._trying = False
+            try:
+                mx = self._requesters._head.successor
+                while mx != self._requesters._tail:
+                    mx_first = self._requesters._head.successor
+                    if self._honor_only_first and mx != mx_first:
+                        break
+                    if self._honor_only_highest_priority and mx.priority != mx_first.priority:
+                        break
+                    if not self._anonymous and self._minq > (self._capacity - self._claimed_quantity + 1e-8):
+                        break  # inpossible to honor any more requests
+                    c = mx.component
+                    mx = mx.successor
+                    c._tryrequest()
+                    if c not in self._requesters:
+                        mx = self._requesters._head.successor  # start again
+            finally:
+                self._trying = False
 
     def release(self, quantity: float = None) -> None:
         """
-- 
2.43.0


From 7de8e00320fe0a0f6cf89d4505b8ad725e92754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:13 +0000
Subject: [PATCH 13/89] fix: scheduled_time of an interrupted component is inf
 and passivate keeps its remaining duration

---
 salabim/salabim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 889a1ec..226386a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7840,6 +7840,7 @@ by adding:
             self._remaining_duration = scheduled_time - self.env._now
             self._interrupted_status = scheduled
             self._interrupt_level = int(interrupted)
+            self._scheduled_time = inf
             self.status._value = "interrupted"
             if self.env._trace:
                 caller = "hold-interrupt"
@@ -7890,7 +7891,8 @@ by adding:
             self._checkisnotdata()
             self._remove()
             self._check_fail()
-            self._remaining_duration = self._scheduled_time - self.env._now
+            if self.status.value != interrupted:  # an interrupted component just keeps its remaining duration
+                self._remaining_duration = self._scheduled_time - self.env._now
         self._scheduled_time = inf
 
         self.set_mode(mode)
@@ -7934,6 +7936,7 @@ by adding:
             self._checkisnotdata()
             self._remove()
             self._remaining_duration = self._scheduled_time - self.env._now
+            self._scheduled_time = inf
             self._interrupted_status = self.status.value
             self._interrupt_level = 1
             self.status._value = interrupted
-- 
2.43.0


From ef99d93a7b87828d226070faf45bee92a402daf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:40 +0000
Subject: [PATCH 14/89] fix: random_seed seeds the given randomstream

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 226386a..a5d29b2 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -25443,7 +25443,7 @@ def random_seed(seed: Hashable = None, randomstream: Any = None, set_numpy_rando
             seed = 1234567
         elif seed == "*":
             seed = None
-        random.seed(seed)
+        randomstream.seed(seed)
         if set_numpy_random_seed and has_numpy():
             numpy.random.seed(seed)
 
-- 
2.43.0


From 383db366f752385752315129b5d85294b90a6b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:47 +0000
Subject: [PATCH 15/89] fix: suppress_trace, over3d and cap_now restore the
 setting if the block is left with an exception

---
 salabim/salabim.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index a5d29b2..d1e84fa 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -13232,8 +13232,10 @@ class Environment:
         """
         save_trace = self._trace
         self._trace = False
-        yield
-        self._trace = save_trace
+        try:
+            yield
+        finally:
+            self._trace = save_trace
 
     def suppress_trace_linenumbers(self, value: bool = None) -> bool:
         """
@@ -27784,8 +27786,10 @@ def over3d(val: bool = True):
     """
     save_default_over3d = default_over3d()
     default_over3d(val)
-    yield
-    default_over3d(save_default_over3d)
+    try:
+        yield
+    finally:
+        default_over3d(save_default_over3d)
 
 
 _default_over3d = False
@@ -27831,8 +27835,10 @@ def cap_now(val: bool = True):
     """
     save_default_cap_now = default_cap_now()
     default_cap_now(val)
-    yield
-    default_cap_now(save_default_cap_now)
+    try:
+        yield
+    finally:
+        default_cap_now(save_default_cap_now)
 
 
 def default_cap_now(val: bool = None) -> bool:
-- 
2.43.0


From 2fed6585300b9fbbc1a9564be96785a2f36b9435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:23 +0000
Subject: [PATCH 16/89] fix: preemptive request bumps no more claimers than
 required

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d1e84fa..b83beef 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8657,7 +8657,7 @@ by adding:
                         break
                     if priority >= c.priority(this_claimers):
                         break
-                    av += c.claimed_quantity(this_claimers)
+                    av += c.claimed_quantity(r)
                     bump_candidates.append(c)
                 if av + 1e-8 >= q:
                     for c in bump_candidates:
-- 
2.43.0


From f0ea0446f30da6caf461e1cc811fa7002148ddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:50 +0000
Subject: [PATCH 17/89] fix: yield from_store gets its item also if rescheduled
 after being honored; exceptions of a standby process are not swallowed

---
 salabim/salabim.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index b83beef..3c23eaa 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7113,6 +7113,7 @@ class Component:
         self._from_stores = []
         self._to_stores = []
         self._on_event_list = False
+        self._return_value = None
         self._scheduled_time = inf
         self._failed = False
         self._skip_standby = skip_standby
@@ -7459,6 +7460,8 @@ by adding at the end:
         return return_or_print(result, as_str, file)
 
     def _push(self, t, priority, urgent, return_value=None, switch=True):
+        if return_value is not None:
+            self._return_value = return_value  # will be sent to the process, whenever that is resumed (even after rescheduling)
         if t != inf:
             self.env._seq += 1
             if urgent:
@@ -8267,6 +8270,7 @@ by adding:
         for store in from_stores:
             self.enter_sorted(store._from_store_requesters, priority=request_priority)
         self.status._value = requesting
+        self._return_value = None
         self._from_store_item = None
         self._from_store_filter = filter
 
@@ -11191,16 +11195,12 @@ class Environment:
                                 self._terminate(c)
                             return
                         else:
-                            try:
-                                next(c._process)
-                                return
-                            except TypeError:
+                            if c._process_isgenerator:
+                                self._resume_generator(c)
+                            else:
                                 c._process(**c._process_kwargs)
                                 self._terminate(c)
-                                return
-                            except StopIteration:
-                                self._terminate(c)
-                                return
+                            return
 
             if len(self.env._standbylist) > 0:
                 self._pendingstandbylist.extend(self.env._standbylist)
@@ -11245,16 +11245,7 @@ class Environment:
                     self._terminate(c)
             else:
                 if c._process_isgenerator:
-                    try:
-                        try:
-                            c._process.send(return_value)
-                        except TypeError as e:
-                            if "just-started" in str(e):  # only do this for just started generators
-                                c._process.send(None)
-                            else:
-                                raise e
-                    except StopIteration:
-                        self._terminate(c)
+                    self._resume_generator(c)
                 else:
                     c._process(**c._process_kwargs)
 
@@ -11264,6 +11255,16 @@ class Environment:
                 self.an_quit()
             raise e
 
+    def _resume_generator(self, c):
+        return_value = c._return_value
+        c._return_value = None
+        if return_value is not None and inspect.getgeneratorstate(c._process) == inspect.GEN_CREATED:
+            return_value = None  # not possible to send a value to a just started generator
+        try:
+            c._process.send(return_value)
+        except StopIteration:
+            self._terminate(c)
+
     def _terminate(self, c):
         if self.env._yieldless:
             s0 = ""
-- 
2.43.0


From e8d2a71414dd6f330af0223e3ed17b4e73a914eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:51 +0000
Subject: [PATCH 18/89] fix: Resource.release does not release claims that are
 honored by that very release

---
 salabim/salabim.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 3c23eaa..5462f80 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24397,10 +24397,7 @@ class Resource:
             if quantity is not None:
                 raise ValueError("no quantity allowed for non-anonymous resource")
 
-            mx = self._claimers._head.successor
-            while mx != self._claimers._tail:
-                c = mx.component
-                mx = mx.successor
+            for c in list(self._claimers):  # not the components that are honored during this release
                 c.release(self)
 
     def requesters(self) -> Queue:
-- 
2.43.0


From 62bb89bcff02183fc6c31c27568e4d31f14cc685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:02 +0000
Subject: [PATCH 19/89] fix: request with the same resource specified several
 times adds up the quantities

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 5462f80..281cfda 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8635,6 +8635,7 @@ by adding:
                 self._requests[r] += q  # is same resource is specified several times, just add them up
             else:
                 self._requests[r] = q
+                self.enter(r._requesters, priority)
             if called_from == "request":
                 req_text = "request " + str(q) + " from "
             elif called_from == "put":
@@ -8648,7 +8649,6 @@ by adding:
             if self.oneof_request:
                 addstring += " (oneof)"
 
-            self.enter(r._requesters, priority)
             if self.env._trace:
                 self.env.print_trace("", "", self.name(), req_text + r.name() + addstring)
 
-- 
2.43.0


From 56ed13745e19551be857ba79eab09535cd5cb5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:36 +0000
Subject: [PATCH 20/89] fix: occupancy of a resource starts with the initial
 claimed quantity

---
 salabim/salabim.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 281cfda..2fee3fd 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24072,7 +24072,14 @@ class Resource:
             "Available quantity of " + self.name(), level=True, initial_tally=capacity - initial_claimed_quantity, monitor=monitor, type="float", env=self.env
         )
 
-        self.occupancy = _SystemMonitor("Occupancy of " + self.name(), level=True, initial_tally=0, monitor=monitor, type="float", env=self.env)
+        self.occupancy = _SystemMonitor(
+            "Occupancy of " + self.name(),
+            level=True,
+            initial_tally=0 if capacity <= 0 else initial_claimed_quantity / capacity,
+            monitor=monitor,
+            type="float",
+            env=self.env,
+        )
         if self.env._trace:
             self.env.print_trace("", "", self.name() + " create", "capacity=" + str(self._capacity) + (" anonymous" if self._anonymous else ""))
         self.setup(**kwargs)
-- 
2.43.0


From 3dae14bad009cd165c092baa6627507744670600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:10 +0000
Subject: [PATCH 21/89] fix: print_info of a component in wait_for does not
 fail

---
 salabim/salabim.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2fee3fd..699aa77 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7451,12 +7451,17 @@ by adding at the end:
             for r in sorted(list(self._claims), key=lambda obj: obj.name().lower()):
                 result.append("    " + pad(r.name(), 20) + " quantity=" + str(self._claims[r]))
         if len(self._waits) > 0:
-            if self._wait_all:
-                result.append("  waiting for all of state(s):")
+            if self._cond:
+                result.append("  waiting for a condition, checked on change of state(s):")
+                for s, *_ in self._waits:
+                    result.append("    " + s.name())
             else:
-                result.append("  waiting for any of state(s):")
-            for s, value, _ in self._waits:
-                result.append("    " + pad(s.name(), 20) + " value=" + str(value))
+                if self._wait_all:
+                    result.append("  waiting for all of state(s):")
+                else:
+                    result.append("  waiting for any of state(s):")
+                for s, value, _ in self._waits:
+                    result.append("    " + pad(s.name(), 20) + " value=" + str(value))
         return return_or_print(result, as_str, file)
 
     def _push(self, t, priority, urgent, return_value=None, switch=True):
-- 
2.43.0


From db5e71c524b57b1bd8cbccf29d08c2bdf342b7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:44 +0000
Subject: [PATCH 22/89] fix: request and wait for an interrupted component are
 honored at once, if possible

---
 salabim/salabim.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 699aa77..ba636a6 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8769,9 +8769,6 @@ by adding:
 
     def _tryrequest(self):
         # this is Component._tryrequest
-        if self.status.value == interrupted:
-            return False
-
         if self.oneof_request:
             r_honor = self.honor_any()
         else:
@@ -9261,8 +9258,6 @@ by adding:
             return
 
     def _trywait(self):
-        if self.status.value == interrupted:
-            return False
         if self._cond:
             honored = self._cond()
         else:
-- 
2.43.0


From 9284068d8aeca597d6ddaa50316176463216cf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:38 +0000
Subject: [PATCH 23/89] fix: Monitor.slice takes exactly what was recorded in
 the half-open window(s)

---
 salabim/salabim.py | 43 ++++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index ba636a6..ab9db1c 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -820,25 +820,24 @@ class Monitor:
         if name is None:
             name = self.name() + ".sliced"
         new = _SystemMonitor(level=self._level, type=self.xtype, name=name, env=self.env)
+        new.start = self.start
         actions = []
         if modulo is None:
             if start is None:
                 start_ = -inf
             else:
                 start_ = start + self.env._offset
-            start_ = max(start_, self.start)
             if stop is None:
                 stop = inf
-                stop_action = "z"  # inclusive
             else:
                 stop += self.env._offset
-                stop_action = "b"  # non inclusive
-            if self.env._animate:
-                stop = min(stop, self.env._t)
-            else:
-                stop = min(stop, self.env._now - self.env._offset)  # not self.now() in order to support frozen monitors
-            actions.append((start, "a", 0, 0))
-            actions.append((stop, stop_action, 0, 0))
+            t_max = self.env._t if self.env._animate else self.env._now  # not self.now() in order to support frozen monitors
+            if start_ <= t_max and start_ < stop:
+                actions.append((start_, "a", 0, 0))
+                if stop > t_max:
+                    actions.append((t_max, "z", 0, 0))  # inclusive
+                else:
+                    actions.append((stop, "b", 0, 0))  # non inclusive
         else:
             if start is None:
                 raise TypeError("modulo specified, but no start specified. ")
@@ -848,13 +847,17 @@ class Monitor:
                 raise ValueError("stop must be > start")
             if stop - start >= modulo:
                 raise ValueError("stop must be < start + modulo")
-            start_ = start % modulo
-            stop = stop % modulo
-            start1 = self._t[0] - (self._t[0] % modulo) + start_
+            start_ = (start + self.env._offset) % modulo
+            stop = (stop + self.env._offset) % modulo
+            t0 = self._t[0] if self._t else self.env._now
+            start1 = t0 - (t0 % modulo) + start_ - modulo  # a period might have started before t0
             len1 = (stop - start_) % modulo
-            while start1 < self.env._now:
+            while start1 <= self.env._now:
                 actions.append((start1, "a", 0, 0))
-                actions.append((start1 + len1, "b", 0, 0))  # non inclusive
+                if start1 + len1 > self.env._now:
+                    actions.append((self.env._now, "z", 0, 0))  # inclusive
+                else:
+                    actions.append((start1 + len1, "b", 0, 0))  # non inclusive
                 start1 += modulo
 
         if new._level:
@@ -899,9 +902,7 @@ class Monitor:
                     if new._t[-1] == t:
                         new._x[-1] = curx
                     else:
-                        if new._x[-1] == curx:
-                            new._t[-1] = t
-                        else:
+                        if new._x[-1] != curx:
                             new._t.append(t)
                             new._x.append(curx)
                 elif type in ("b", "z"):
@@ -909,9 +910,7 @@ class Monitor:
                     if new._t[-1] == t:
                         new._x[-1] = self.off
                     else:
-                        if new._x[-1] == self.off:
-                            new._t[-1] = t
-                        else:
+                        if new._x[-1] != self.off:
                             new._t.append(t)
                             new._x.append(self.off)
                 else:
@@ -920,9 +919,7 @@ class Monitor:
                             if new._t[-1] == t:
                                 new._x[-1] = x
                             else:
-                                if x == new._x[-1]:
-                                    new._t[-1] = t
-                                else:
+                                if x != new._x[-1]:
                                     new._t.append(t)
                                     new._x.append(x)
                     curx = x
-- 
2.43.0


From ca3a688f336f0bd66616dc74e999f9d57b2af723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:51 +0000
Subject: [PATCH 24/89] fix: Monitor.t_multiply keeps the last value

---
 salabim/salabim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index ab9db1c..8ca8d4f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -656,8 +656,9 @@ class Monitor:
             new._t.append(t * factor)
 
         new.start = self.start * factor
-        new.monitor(False)
-        new._t[-1] = new._t[-1] * factor
+        new._monitor = False
+        new._x.append(new.off)
+        new._t.append(self.env._now * factor)
         new.isgenerated = True
         return new
 
-- 
2.43.0


From 591da7ee0ef3c09a646c79c27932e67f026bec00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:52 +0000
Subject: [PATCH 25/89] fix: Monitor.merge respects off periods of level
 monitors of different types

---
 salabim/salabim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 8ca8d4f..50d3d84 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -594,7 +594,9 @@ class Monitor:
             curx = [new.off] * len(merge)
             new._t = array.array("d")
             for t, index, x in heapq.merge(*[zip(merge[index]._t, itertools.repeat(index), merge[index]._x) for index in range(len(merge))]):
-                if new.xtypecode:
+                if x == merge[index].off:  # off values depend on the type
+                    curx[index] = new.off
+                elif new.xtypecode:
                     curx[index] = x
                 else:
                     try:
-- 
2.43.0


From d692c1e6a1fd94e34f9eb93afd26a0b560681d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:52 +0000
Subject: [PATCH 26/89] fix: Monitor.multiply and Monitor.x_map keep the
 weights

---
 salabim/salabim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 50d3d84..036af78 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -736,6 +736,8 @@ class Monitor:
                 else:
                     new._x.append(func(x))
                 new._t.append(t)
+            if monitors[0]._weight:
+                new._weight = monitors[0]._weight[:]
 
         for m in monitors:
             del m._x_any
@@ -1601,6 +1603,8 @@ class Monitor:
             new.isgenerated = True
             new._x = [x * scale for x in self._x]
             new._t = [t for t in self._t]
+            if self._weight:
+                new._weight = self._weight[:]
             return new
 
         else:
-- 
2.43.0


From fae3899f13457ecd47ad6ada5c14b13110cc6a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:52 +0000
Subject: [PATCH 27/89] fix: Monitor.t is expressed in the current clock

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 036af78..2fe48a5 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1108,7 +1108,7 @@ class Monitor:
         t is available even if the monitor is turned off
         """
         if self._level:
-            return self._ttally
+            return self._ttally - self.env._offset
         raise TypeError("non level monitors are not supported")
 
     def reset_monitors(self, monitor: bool = None, stats_only: bool = None) -> None:
-- 
2.43.0


From c172de20ec8317a67661ca83ee376adfe9b434af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:00 +0000
Subject: [PATCH 28/89] fix: statistics of stats_only monitors run up to now
 and count zero weights, like other monitors

---
 salabim/salabim.py | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2fe48a5..6d983dd 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1172,7 +1172,7 @@ class Monitor:
             self._maximum = [-inf] * 2
             if self._level:
                 self._ttally_monitored = self.env._now
-            self._weight = False
+            self._weight = self._level  # level monitors always have weights (durations)
 
         else:
             if self.xtypecode:
@@ -1271,22 +1271,15 @@ class Monitor:
             else:
                 value_num = value
 
-            if self._monitor and weight != 0:
-                if not isinstance(value_num, numbers.Number):
-                    try:
-                        if int(value_num) == float(value_num):
-                            value_num = int(value_num)
-                        else:
-                            value_num = float(value_num)
-                    except (ValueError, TypeError):
-                        value_num = 0
-
+            if self._monitor and (weight != 0 or not self._level):
+                value_num = do_force_numeric([value_num])[0]
                 for ex0 in [False, True] if value_num else [False]:
                     self.n[ex0] += 1
                     # algorithm based on https://fanf2.user.srcf.net/hermes/doc/antiforgery/stats.pdf
                     self.sumw[ex0] += weight
                     mun1 = self.mun[ex0]
-                    self.mun[ex0] = mun1 + (weight / self.sumw[ex0]) * (value_num - mun1)
+                    if self.sumw[ex0]:
+                        self.mun[ex0] = mun1 + (weight / self.sumw[ex0]) * (value_num - mun1)
                     self.sn[ex0] = self.sn[ex0] + weight * (value_num - mun1) * (value_num - self.mun[ex0])
                     self._minimum[ex0] = min(self._minimum[ex0], value_num)
                     self._maximum[ex0] = max(self._maximum[ex0], value_num)
@@ -1329,6 +1322,14 @@ class Monitor:
         self.tally(self._tally)
         self._ttally = save_ttally
 
+    def _stats_only_extreme(self, func, extremes, ex0):
+        # used by minimum and maximum of stats_only monitors
+        ex0 = bool(ex0)
+        x = [extremes[ex0]] if self.n[ex0] else []
+        if self._level and self._monitor:
+            x.extend(value for value in do_force_numeric([self._tally]) if value or not ex0)  # the current value
+        return func(x) if x else nan
+
     def _tally_off(self):
         if self.isgenerated:
             raise TypeError("sliced, merged or frozen monitors cannot be reset")
@@ -1758,11 +1759,7 @@ class Monitor:
         minimum : float
         """
         if self._stats_only:
-            ex0 = bool(ex0)
-            if self.n[ex0]:
-                return self._minimum[ex0]
-            else:
-                return nan
+            return self._stats_only_extreme(min, self._minimum, ex0)
         else:
             x = self._xweight(ex0=ex0)[0]
             if x:
@@ -1785,10 +1782,7 @@ class Monitor:
         """
 
         if self._stats_only:
-            if self.n[ex0]:
-                return self._maximum[ex0]
-            else:
-                return nan
+            return self._stats_only_extreme(max, self._maximum, ex0)
         else:
             x = self._xweight(ex0=ex0)[0]
             if x:
@@ -2228,6 +2222,8 @@ class Monitor:
     def sys_weight(self, ex0: bool = False):
         if self._stats_only:
             ex0 = bool(ex0)
+            if self._level:
+                self._tally_add_now()
             return self.sumw[ex0]
         else:
             _, weight = self._xweight(ex0=ex0)
-- 
2.43.0


From a9b367c965963526b394f89fe8125726476b0174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:00 +0000
Subject: [PATCH 29/89] fix: switching off a level monitor invalidates its
 cached statistics

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 6d983dd..05fd0a1 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1333,6 +1333,7 @@ class Monitor:
     def _tally_off(self):
         if self.isgenerated:
             raise TypeError("sliced, merged or frozen monitors cannot be reset")
+        self.cached_xweight.clear()  # invalidate cache
         t = self.env._now
         if self._t[-1] == t:
             self._x[-1] = self.off
-- 
2.43.0


From cc38cc1310629b5c93f45392398172edebf7a19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:00 +0000
Subject: [PATCH 30/89] fix: Monitor.x_map accepts the same monitor more than
 once

---
 salabim/salabim.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 05fd0a1..2e16758 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -702,17 +702,14 @@ class Monitor:
 
         new = _SystemMonitor(name=name, type="any", level=self._level, env=self.env)
 
-        for m in monitors:
-            m._x_any = []
-            for x in m._x:
-                m._x_any.append(new.off if x == m.off else x)
+        x_any = [[new.off if x == m.off else x for x in m._x] for m in monitors]
 
         if new._level:
             new._x = []
 
             curx = [new.off] * len(monitors)
             new._t = array.array("d")
-            for t, index, x in heapq.merge(*[zip(monitors[index]._t, itertools.repeat(index), monitors[index]._x_any) for index in range(len(monitors))]):
+            for t, index, x in heapq.merge(*[zip(monitors[index]._t, itertools.repeat(index), x_any[index]) for index in range(len(monitors))]):
                 curx[index] = x
 
                 if any(val == new.off for val in curx):
@@ -730,7 +727,7 @@ class Monitor:
             new._x = []
             new._t = array.array("d")
 
-            for x, t in zip(monitors[0]._x_any, monitors[0]._t):
+            for x, t in zip(x_any[0], monitors[0]._t):
                 if x == new.off:
                     new._x.append(new.off)
                 else:
@@ -739,9 +736,6 @@ class Monitor:
             if monitors[0]._weight:
                 new._weight = monitors[0]._weight[:]
 
-        for m in monitors:
-            del m._x_any
-
         new.monitor(False)
         new.isgenerated = True
         return new
-- 
2.43.0


From d993e4674b624a723cfc353468bbaf580d630428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:24 +0000
Subject: [PATCH 31/89] fix: component generators given or running after
 reset_now generate at the right moments

---
 salabim/salabim.py | 40 +++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2e16758..16b1d29 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20494,7 +20494,7 @@ class ComponentGenerator(Component):
                 )
             if callable(moments):
                 moments = moments()
-            moments = sorted([env.spec_to_time(moment) for moment in moments])
+            moments = sorted([env.spec_to_time(moment) + env._offset for moment in moments])
 
         self.component_class = component_class
         self.iat = iat
@@ -20596,6 +20596,8 @@ class ComponentGenerator(Component):
                         process = "do_iat_yieldless" if env._yieldless else "do_iat"
         self.kwargs = kwargs
 
+        if at is not None:
+            at = None if at == env._now else at - env._offset
         super().__init__(name=generator_name, env=env, process=process, at=at, suppress_trace=suppress_trace, suppress_pause_at_step=suppress_pause_at_step)
 
     def do_spread(self):
@@ -20627,14 +20629,11 @@ class ComponentGenerator(Component):
                 self.env.print_trace("", "", f"{n} components generated")
                 self.at_end()
                 return
-            if callable(self.iat):
-                t = self.env._now + self.iat()
-            else:
-                t = self.env._now + self.iat
-            if t > self.till:
-                yield self.activate(process="do_finalize", at=self.till)
+            iat = self.iat() if callable(self.iat) else self.iat
+            if self.env._now + iat > self.till:
+                yield self.activate(process="do_finalize", at=self.till - self.env._offset, cap_now=True)
 
-            yield self.hold(till=t)
+            yield self.hold(iat)
 
     def do_iat_disturbance(self):
         n = 0
@@ -20656,19 +20655,18 @@ class ComponentGenerator(Component):
             else:
                 at = self.env._now + iat + disturbance
             if at > self.till:
-                yield self.activate(process="do_finalize", at=self.till)
+                yield self.activate(process="do_finalize", at=self.till - self.env._offset, cap_now=True)
             if isinstance(self.component_class, _Distribution):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
-            component_class(at=at, **self.kwargs)
+            component_class(at=at - self.env._offset, **self.kwargs)
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
                 return
-            t = self.env._now + iat
 
-            yield self.hold(till=t)
+            yield self.hold(iat)
 
     def do_spread_yieldless(self):
         for interval in self.intervals:
@@ -20699,14 +20697,11 @@ class ComponentGenerator(Component):
                 self.env.print_trace("", "", f"{n} components generated")
                 self.at_end()
                 return
-            if callable(self.iat):
-                t = self.env._now + self.iat()
-            else:
-                t = self.env._now + self.iat
-            if t > self.till:
-                self.activate(process="do_finalize", at=self.till)
+            iat = self.iat() if callable(self.iat) else self.iat
+            if self.env._now + iat > self.till:
+                self.activate(process="do_finalize", at=self.till - self.env._offset, cap_now=True)
 
-            self.hold(till=t)
+            self.hold(iat)
 
     def do_iat_disturbance_yieldless(self):
         n = 0
@@ -20728,19 +20723,18 @@ class ComponentGenerator(Component):
             else:
                 at = self.env._now + iat + disturbance
             if at > self.till:
-                self.activate(process="do_finalize", at=self.till)
+                self.activate(process="do_finalize", at=self.till - self.env._offset, cap_now=True)
             if isinstance(self.component_class, _Distribution):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
-            component_class(at=at, **self.kwargs)
+            component_class(at=at - self.env._offset, **self.kwargs)
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
                 return
-            t = self.env._now + iat
 
-            self.hold(till=t)
+            self.hold(iat)
 
     def do_finalize(self):
         self.env.print_trace("", "", "till reached")
-- 
2.43.0


From 8fdba3107a2430458c94b7f5bb55053734ec5ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:24 +0000
Subject: [PATCH 32/89] fix: component generators spread over the given
 duration, also if number is sampled

---
 salabim/salabim.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 16b1d29..7643acd 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20540,20 +20540,20 @@ class ComponentGenerator(Component):
         else:
             if (self.iat is None and not equidistant) or moments:
                 if not moments:
-                    if till == inf or self.number == inf:
+                    if self.till == inf or self.number == inf:
                         raise ValueError("iat not specified --> till and number need to be specified")
                     if disturbance is not None:
                         raise ValueError("iat not specified --> disturbance not allowed")
 
-                    moments = sorted([Uniform(at, till)() for _ in range(self.number)])
+                    moments = sorted([Uniform(at, self.till)() for _ in range(self.number)])
                     if force_at or force_till:
-                        if number == 1:
+                        if self.number == 1:
                             if force_at and force_till:
                                 raise ValueError("force_at and force_till does not allow number=1")
-                            moments = [at] if force_at else [till]
+                            moments = [at] if force_at else [self.till]
                         else:
                             v_at = at if force_at else moments[0]
-                            v_till = till if force_till else moments[-1]
+                            v_till = self.till if force_till else moments[-1]
                             min_moment = moments[0]
                             max_moment = moments[-1]
                             moments = [interpolate(moment, min_moment, max_moment, v_at, v_till) for moment in moments]
-- 
2.43.0


From e2bc2a02e96895dda216383cefce736a18cdc773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:24 +0000
Subject: [PATCH 33/89] fix: component generators with a disturbance call
 at_end when all components are generated

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7643acd..0bd441c 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20664,6 +20664,7 @@ class ComponentGenerator(Component):
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
+                self.at_end()
                 return
 
             yield self.hold(iat)
@@ -20732,6 +20733,7 @@ class ComponentGenerator(Component):
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
+                self.at_end()
                 return
 
             self.hold(iat)
-- 
2.43.0


From 6e34b454e14216068c46dba7c175890ffecd5c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:47 +0000
Subject: [PATCH 34/89] fix: component generators with a disturbance create the
 components in their own environment

---
 salabim/salabim.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0bd441c..ff7c47c 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20660,7 +20660,10 @@ class ComponentGenerator(Component):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
+            save_default_env = g.default_env
+            g.default_env = self.env
             component_class(at=at - self.env._offset, **self.kwargs)
+            g.default_env = save_default_env
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
@@ -20729,7 +20732,10 @@ class ComponentGenerator(Component):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
+            save_default_env = g.default_env
+            g.default_env = self.env
             component_class(at=at - self.env._offset, **self.kwargs)
+            g.default_env = save_default_env
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
-- 
2.43.0


From da55da66e01993fba539e7b518d0cbbe4d39fff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:58 +0000
Subject: [PATCH 35/89] fix: an equidistant component generator with a
 disturbance starts at its start time

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index ff7c47c..5744c5b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20565,6 +20565,7 @@ class ComponentGenerator(Component):
                 if equidistant:
                     force_till = False  # just to prevent errors further on
                     force_at = True  # just to prevent errors further on
+                    self.force_at = True  # the first component is due at the start
                     duration = self.till - at
                     if duration < 0:
                         raise ValueError("at > till not allowed for equidistant")
-- 
2.43.0


From 224212be6881e5a9a546d59e1db67bb586ca8a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:32 +0000
Subject: [PATCH 36/89] fix: a component generator whose first moment is after
 till can be used as first component of a yield model

---
 salabim/salabim.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 5744c5b..19b1cf4 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20589,7 +20589,7 @@ class ComponentGenerator(Component):
                             at += self.iat
                 if at > self.till:
                     at = self.till
-                    process = "do_finalize"
+                    process = "do_finalize" if env._yieldless else "do_finalize_yield"
                 else:
                     if self.disturbance:
                         process = "do_iat_disturbance_yieldless" if env._yieldless else "do_iat_disturbance"
@@ -20749,6 +20749,11 @@ class ComponentGenerator(Component):
         self.env.print_trace("", "", "till reached")
         self.at_end()
 
+    def do_finalize_yield(self):
+        self.do_finalize()
+        return
+        yield  # just to make this a generator
+
     def print_info(self, as_str: bool = False, file: TextIO = None) -> str:
         """
         prints information about the component generator
-- 
2.43.0


From e1657fdfe2467eb40fdca09420f07993d944ff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:32 +0000
Subject: [PATCH 37/89] fix: PeriodMonitor works in yieldless models and in the
 given environment

---
 salabim/salabim.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 19b1cf4..1350aac 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24509,6 +24509,10 @@ class _PeriodComponent(Component):
             self.pm.perperiod[self.pm.iperiod].monitor(True)
             yield self.hold(duration)
 
+    def process_yieldless(self):
+        for _ in self.process():  # does the hold as well
+            ...
+
 
 class PeriodMonitor:
     """
@@ -24563,8 +24567,10 @@ class PeriodMonitor:
         self.m.period_monitors.remove(self)
 
     def __init__(self, parent_monitor: "Monitor", periods: Iterable = None, period_monitor_names: Iterable = None, env: "Environment" = None):
-        self.pc = _PeriodComponent(pm=self, skip_standby=True, suppress_trace=True)
         self.env = _set_env(env)
+        self.pc = _PeriodComponent(
+            pm=self, skip_standby=True, suppress_trace=True, env=self.env, process="process_yieldless" if self.env._yieldless else "process"
+        )
 
         if periods is None:
             periods = 24 * [1]
-- 
2.43.0


From e4a478f7c19d04270089cecf68a4b0e48d7d6a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:33 +0000
Subject: [PATCH 38/89] fix: several PeriodMonitors can be defined for one
 monitor

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 1350aac..c0ebd7d 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24583,13 +24583,13 @@ class PeriodMonitor:
                 cum += duration
 
         self.m = parent_monitor
-        if not hasattr(self, "period_monitors"):
+        if not hasattr(self.m, "period_monitors"):
             self.m.period_monitors = []
             self.m.org_tally = self.m.tally
             self.m.tally = types.MethodType(self.new_tally, self.m)
             self.m.org_reset = self.m.reset
             self.m.reset = types.MethodType(self.new_reset, self.m)
-            self.m.period_monitors.append(self)
+        self.m.period_monitors.append(self)
 
         self.iperiod = 0
         if self.m._level:
-- 
2.43.0


From cfd0d69bf8b523191eb9146ce8aeb4f8bdd6e7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:03 +0000
Subject: [PATCH 39/89] fix: Monitor.freeze works for a monitor with period
 monitors

---
 salabim/salabim.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index c0ebd7d..78720f4 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -769,8 +769,14 @@ class Monitor:
         self._block_stats_only()
         self_env = self.env
         self.env = Environment(to_freeze=True, name=self.env.name() + ".copy.", time_unit=self.env.get_time_unit())
-        m = copy.deepcopy(self)
-        self.env = self_env
+        self_dict = self.__dict__.copy()
+        for attribute in ("period_monitors", "org_tally", "tally", "org_reset", "reset"):
+            self.__dict__.pop(attribute, None)  # the period monitors do not belong to the frozen monitor
+        try:
+            m = copy.deepcopy(self)
+        finally:
+            self.__dict__.update(self_dict)
+            self.env = self_env
         m.isgenerated = True
         m._name = self.name() + ".frozen" if name is None else name
         m.env._animate = False
-- 
2.43.0


From e756cd5b11b7d1a10981502aaacc3bcd3516116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:03 +0000
Subject: [PATCH 40/89] fix: the period monitors of a removed PeriodMonitor do
 not record any more

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 78720f4..da92a5e 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24569,6 +24569,7 @@ class PeriodMonitor:
         removes the period monitor
         """
         self.pc.cancel()
+        self.perperiod[self.iperiod].monitor(False)
         del self.periods
         self.m.period_monitors.remove(self)
 
-- 
2.43.0


From 7928a96ef09749222bc6db1e2205a778ac690d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:41 +0000
Subject: [PATCH 41/89] fix: Pdf and Pmf with equal probabilities sample a
 distribution value

---
 salabim/salabim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index da92a5e..fe88603 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22751,7 +22751,8 @@ class Pdf(_Distribution):
         """
         if self.supports_n:
             if n is None:
-                return self.randomstream.sample(self._x, 1)[0]
+                x = self.randomstream.sample(self._x, 1)[0]
+                return x.sample() if isinstance(x, _Distribution) else x
             else:
                 if n < 0:
                     raise ValueError("n < 0")
@@ -22893,7 +22894,8 @@ class Pmf(Pdf):
         """
         if self.supports_n:
             if n is None:
-                return self.randomstream.sample(self._x, 1)[0]
+                x = self.randomstream.sample(self._x, 1)[0]
+                return x.sample() if isinstance(x, _Distribution) else x
             else:
                 if n < 0:
                     raise ValueError("n < 0")
-- 
2.43.0


From 795db128363f0947253fd3733da5fc1a48f779c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:41 +0000
Subject: [PATCH 42/89] fix: Pdf, Pmf, CumPdf and CumPmf never sample a value
 that is not specified or has no probability

---
 salabim/salabim.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index fe88603..1adf276 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22762,8 +22762,8 @@ class Pdf(_Distribution):
         else:
             if n is None:
                 r = self.randomstream.random()
-                for cum, x in zip([0] + self._cum, [0] + self._x):
-                    if r <= cum:
+                for cum, x in zip(self._cum, self._x):
+                    if r < cum:
                         if isinstance(x, _Distribution):
                             return x.sample()
                         return x
@@ -22905,8 +22905,8 @@ class Pmf(Pdf):
         else:
             if n is None:
                 r = self.randomstream.random()
-                for cum, x in zip([0] + self._cum, [0] + self._x):
-                    if r <= cum:
+                for cum, x in zip(self._cum, self._x):
+                    if r < cum:
                         if isinstance(x, _Distribution):
                             return x.sample()
                         return x
@@ -23079,8 +23079,8 @@ class CumPdf(_Distribution):
         Sample of the distribution : any (usually float)
         """
         r = self.randomstream.random()
-        for cum, x in zip([0] + self._cum, [0] + self._x):
-            if r <= cum:
+        for cum, x in zip(self._cum, self._x):
+            if r < cum:
                 if isinstance(x, _Distribution):
                     return x.sample()
                 return x
@@ -23189,8 +23189,8 @@ class CumPmf(CumPdf):
         Sample of the distribution : any (usually float)
         """
         r = self.randomstream.random()
-        for cum, x in zip([0] + self._cum, [0] + self._x):
-            if r <= cum:
+        for cum, x in zip(self._cum, self._x):
+            if r < cum:
                 if isinstance(x, _Distribution):
                     return x.sample()
                 return x
-- 
2.43.0


From 3af8c1cd8cdcd2b655d87c93792696529e08db2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:41 +0000
Subject: [PATCH 43/89] fix: Poisson with a large mean does not fail if the
 randomstream gives 0

---
 salabim/salabim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 1adf276..03e292b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -21974,7 +21974,8 @@ class Poisson(_Distribution):
         t = 0
         n = 0
         while True:
-            t += -math.log(self.randomstream.random()) / lam
+            r = self.randomstream.random()
+            t += inf if r == 0 else -math.log(r) / lam
             if t > 1:
                 break
             n += 1
-- 
2.43.0


From 2cd6486c5fcd082de521936744f70a55dfaa9cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:42 +0000
Subject: [PATCH 44/89] fix: Erlang converts the time unit in the right
 direction

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 03e292b..e2a7ac5 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22437,7 +22437,7 @@ class Erlang(_Distribution):
         -------
         Sample of the distribution : float
         """
-        return self.randomstream.gammavariate(self._shape, 1 / self._rate) / self.time_unit_factor
+        return self.randomstream.gammavariate(self._shape, 1 / self._rate) * self.time_unit_factor
 
     def mean(self) -> float:
         """
@@ -22445,7 +22445,7 @@ class Erlang(_Distribution):
         -------
         Mean of the distribution : float
         """
-        return self._mean / self.time_unit_factor
+        return self._mean * self.time_unit_factor
 
 
 class Cdf(_Distribution):
-- 
2.43.0


From 72c8be1b7d502593f95f830d213961280e30bda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:42 +0000
Subject: [PATCH 45/89] fix: expressions, Map and Bounded can be used as value
 in Pdf, Pmf, CumPdf and CumPmf

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index e2a7ac5..7412f92 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22687,7 +22687,7 @@ class Pdf(_Distribution):
             sump += p
             self._cum.append(sump)
             if isinstance(x, _Distribution):
-                x = x._mean
+                x = x.mean()
             try:
                 sumxp += float(x) * p
             except (ValueError, TypeError):
@@ -23031,7 +23031,7 @@ class CumPdf(_Distribution):
             sump += p
             self._cum.append(sump)
             if isinstance(x, _Distribution):
-                x = x._mean
+                x = x.mean()
             try:
                 sumxp += float(x) * p
             except (ValueError, TypeError):
-- 
2.43.0


From 95702de38dd0e58f7fe06a9447f55e9b4482e01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:42 +0000
Subject: [PATCH 46/89] fix: IntUniform can be sampled if the bounds are
 integer valued floats

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7412f92..d271465 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -21545,6 +21545,8 @@ class IntUniform(_Distribution):
             raise TypeError("lowerbound not integer")
         if self._upperbound != int(self._upperbound):
             raise TypeError("upperbound not integer")
+        self._lowerbound = int(self._lowerbound)
+        self._upperbound = int(self._upperbound)
 
         if randomstream is None:
             self.randomstream = random
-- 
2.43.0


From ef0f58d5d2a5188717d3c2f66f47cbf3bf7757ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:42 +0000
Subject: [PATCH 47/89] fix: mean of Constant and of Distribution with a time
 unit

---
 salabim/salabim.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d271465..2687fca 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -21858,8 +21858,7 @@ class Constant(_Distribution):
         else:
             _checkrandomstream(randomstream)
             self.randomstream = randomstream
-        self._mean = value
-        self._mean *= self.time_unit_factor
+        self._mean = value * self.time_unit_factor
 
     def __repr__(self):
         return "Constant"
@@ -21903,7 +21902,7 @@ class Constant(_Distribution):
         -------
         mean of the distribution (= the specified constant) : float
         """
-        return self._mean * self.time_unit_factor
+        return self._mean
 
 
 class Poisson(_Distribution):
@@ -23474,10 +23473,7 @@ class Distribution(_Distribution):
             _checkrandomstream(randomstream)
             self.randomstream = randomstream
         self._distribution = d
-        try:
-            self._mean = d._mean
-        except AttributeError:
-            self._mean = nan
+        self._mean = d.mean()
 
     def __repr__(self):
         return self._distribution.__repr__()
-- 
2.43.0


From ab8825e308b9e4adaeafbffdacd5869c3f8153f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:14 +0000
Subject: [PATCH 48/89] fix: random_seed accepts any seed that random accepts,
 also if numpy is installed

---
 salabim/salabim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2687fca..5735972 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -25469,7 +25469,10 @@ def random_seed(seed: Hashable = None, randomstream: Any = None, set_numpy_rando
             seed = None
         randomstream.seed(seed)
         if set_numpy_random_seed and has_numpy():
-            numpy.random.seed(seed)
+            try:
+                numpy.random.seed(seed)
+            except (TypeError, ValueError):  # numpy only accepts integers between 0 and 2**32 - 1
+                numpy.random.seed(random.Random(seed).getrandbits(32))
 
 
 _random_seed = random_seed  # used by Environment.__init__
-- 
2.43.0


From 8e6ee8a5e3f2da694d130abc0dee8fd2e7bf563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:00 +0000
Subject: [PATCH 49/89] fix: capture_stdout restores stdout as it was when the
 block was entered

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 5735972..2aa0f80 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -28059,6 +28059,7 @@ class capture_stdout:
         self.include_print = include_print
 
     def __enter__(self):
+        self.stdout = sys.stdout
         sys.stdout = self
 
     def __exit__(self, exc_type, exc_value, tb):
-- 
2.43.0


From 0bdd1b729667ce72e9ccdc481d83044f61f95a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:00 +0000
Subject: [PATCH 50/89] fix: flushing stdout does not add an empty line to the
 captured stdout

---
 salabim/salabim.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2aa0f80..bab93a4 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -28073,7 +28073,6 @@ class capture_stdout:
     def flush(self):
         if self.include_print:
             self.stdout.flush()
-        g._captured_stdout.append("\n")
 
 
 class redirect_stdout:
-- 
2.43.0


From d15e7e9edbee8011fa3fd57ba6827c4f8321f965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:00 +0000
Subject: [PATCH 51/89] fix: redirect_stdout restores stdout if the file cannot
 be flushed

---
 salabim/salabim.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index bab93a4..fbf135f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -28121,10 +28121,12 @@ class redirect_stdout:
     def __enter__(self): ...
 
     def close(self):
-        self.flush()
-        if self.mode:  # it is not a file handle
-            self.file.close()
         sys.stdout = self.stdout
+        try:
+            self.flush()
+        finally:
+            if self.mode:  # it is not a file handle
+                self.file.close()
 
     def __exit__(self, exc_type, exc_value, tb):
         self.close()
-- 
2.43.0


From d7b0b1d09b173373d3296355aa3db19cbd9b8fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:41 +0000
Subject: [PATCH 52/89] fix: a synced animation does not run ahead after a
 component that skips standby

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index fbf135f..0f2ccb0 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -13120,7 +13120,7 @@ class Environment:
 
         Only for advance use with animation / GUI event loops
         """
-        if len(self.env._pendingstandbylist) > 0:
+        if len(self.env._pendingstandbylist) > 0 and not self._current_component._skip_standby:
             return self.env._now
         else:
             if self._event_list:
-- 
2.43.0


From d353e84273b6243ac167dd2930c3d7f30721f313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:02 +0000
Subject: [PATCH 53/89] fix: single step in an unsynced animation does not go
 beyond the end of the run

---
 salabim/salabim.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0f2ccb0..4181e00 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -13607,6 +13607,11 @@ class Environment:
 
             g.canvas.update()
 
+            if not (self.running and self._animate):  # ended or stopped by a key or button
+                if self.root is not None:
+                    self.root.quit()
+                return
+
     def snapshot(self, filename: str, video_mode: str = "2d") -> None:
         """
         Takes a snapshot of the current animated frame (at time = now()) and saves it to a file
-- 
2.43.0


From 73eb7007d80ea48bb4223e3d568e2960414784ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:52 +0000
Subject: [PATCH 54/89] fix: statistics requested in a process or after a run
 do not depend on the animation time

---
 salabim/salabim.py | 43 +++++++++++++++----------------------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4181e00..0214b19 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -836,7 +836,7 @@ class Monitor:
                 stop = inf
             else:
                 stop += self.env._offset
-            t_max = self.env._t if self.env._animate else self.env._now  # not self.now() in order to support frozen monitors
+            t_max = self.env._display_t()  # not self.now() in order to support frozen monitors
             if start_ <= t_max and start_ < stop:
                 actions.append((start_, "a", 0, 0))
                 if stop > t_max:
@@ -876,30 +876,9 @@ class Monitor:
             new._x.append(curx)
 
         enabled = False
-        if self.env._animate:
-            _x = self._x[:]
-            _t = self._t[:]
-            if self._x:
-                _x.append(self._x[-1])
-                _t.append(self.env._t)
-            if isinstance(self._weight, bool):
-                _weight = self._weight
-            else:
-                _weight = self._weight[:]
-                _weight.append(self._weight[-1])
-        else:
-            _x = self._x
-            _t = self._t
-            _weight = self._weight
-
-        if self.env._animate:
-            if self._x:
-                _x.append(_x[-1])
-                _t.append(self.env._t)
-            try:
-                _weight.append(self.weight[-1])
-            except AttributeError:
-                ...  # ignore if bool
+        _x = self._x
+        _weight = self._weight
+
         for t, type, x, weight in heapq.merge(actions, zip(self._t, itertools.repeat("c"), _x, _weight if (_weight and not self._level) else (1,) * len(_x))):
             if new._level:
                 if type == "a":
@@ -3062,7 +3041,7 @@ class Monitor:
         t = array.array("d")
         if add_now:
             addx = [x[-1]]
-            t_extra = self.env._t if self.env._animate else self.env._now
+            t_extra = self.env._display_t()
             addt = [t_extra]
         else:
             addx = []
@@ -3117,7 +3096,7 @@ class Monitor:
         return tuple(reversed(self.xt(ex0=ex0, exoff=exoff, force_numeric=force_numeric, add_now=add_now)))
 
     def _xweight(self, ex0=False, force_numeric=True):
-        t_extra = self.env._t if self.env._animate else self.env._now
+        t_extra = self.env._display_t()
 
         if (ex0, force_numeric) in self.cached_xweight:
             if self.cached_xweight[(ex0, force_numeric)][0] == t_extra:
@@ -4110,6 +4089,7 @@ if Pythonista:
                             env._step_pressed = False
                 if not env._paused:
                     env.frametimes.append(time.time())
+                env._drawing = True
                 touchvalues = self.touches.values()
                 if env.retina > 1:
                     with io.BytesIO() as fp:
@@ -10621,6 +10601,7 @@ class Environment:
         self._audio_speed = 1.0
         self._animate_debug = False
         self._synced = True
+        self._drawing = False
         self._step_pressed = False
         self.stopped = False
         self._paused = False
@@ -11174,6 +11155,7 @@ class Environment:
                 else:
                     self._step_n += 1
 
+        self._drawing = False
         try:
             if not self._current_component._skip_standby:
                 if len(self.env._pendingstandbylist) > 0:
@@ -13153,7 +13135,11 @@ class Environment:
         -------
         the current simulation animation time : float
         """
-        return (self._t if self._animate else self._now) - self._offset
+        return self._display_t() - self._offset
+
+    def _display_t(self):
+        # the animation time while drawing, otherwise (in a simulation step and in the main program) now
+        return self._t if self._animate and self._drawing else self._now
 
     def reset_now(self, new_now: float = 0) -> None:
         """
@@ -13508,6 +13494,7 @@ class Environment:
             if not self._paused:
                 self.frametimes.append(time.time())
 
+            self._drawing = True
             t = self.t()
 
             self.animation_pre_tick(t)
-- 
2.43.0


From 4dba48fa1717d89f973fe026794898d4ae0f04e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:35 +0000
Subject: [PATCH 55/89] fix: an animation that is switched to synced in a
 process goes on at the actual time

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0214b19..8e64371 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -11202,6 +11202,7 @@ class Environment:
                     t = inf
             c._on_event_list = False
             self.env._now = t
+            self._t = max(self._t, t)  # for set_start_animation in an unsynced animation
 
             self._current_component = c
 
-- 
2.43.0


From 930c42b7cdc92609ea75e1ab6aadb15879dad4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:57 +0000
Subject: [PATCH 56/89] fix: snapshot does not change the animation time

---
 salabim/salabim.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 8e64371..648ff9a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -13641,9 +13641,12 @@ class Environment:
         else:
             raise ValueError("extension " + extension + "  not supported")
         filename_path.parent.mkdir(parents=True, exist_ok=True)
+        save_t = self._t
         self._t = self._now
-        self._capture_image(mode, video_mode).save(str(filename))
-        self._t = self.t()
+        try:
+            self._capture_image(mode, video_mode).save(str(filename))
+        finally:
+            self._t = save_t
 
     def modelname_width(self):
         if Environment.cached_modelname_width[0] != self._modelname:
-- 
2.43.0


From dfba0c688bde61d1159a4436737c72e3580a504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:35 +0000
Subject: [PATCH 57/89] fix: snapshot with an AnimateQueue or AnimateMonitor
 that was not shown before

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 648ff9a..8eb5438 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -13644,6 +13644,7 @@ class Environment:
         save_t = self._t
         self._t = self._now
         try:
+            self.animation_pre_tick_sys(self._now - self._offset)  # required to update sys objects, like AnimateQueue
             self._capture_image(mode, video_mode).save(str(filename))
         finally:
             self._t = save_t
-- 
2.43.0


From 2ca10220359445a35f345226101bf9d06cedf461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:43 +0000
Subject: [PATCH 58/89] fix: the Synced button starts synchronisation at the
 actual time

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 8eb5438..13d436f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -13871,6 +13871,7 @@ class Environment:
 
     def an_synced(self):
         self._synced = not self._synced
+        self.set_start_animation()
         self.an_all_buttons()
 
     def an_step(self):
-- 
2.43.0


From 2838251db20f84df6f4f5ce8bebb52027b61c8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:41 +0000
Subject: [PATCH 59/89] fix: peek takes reset_now into account

---
 salabim/salabim.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 13d436f..db7d2dd 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4078,7 +4078,7 @@ if Pythonista:
                             env._t = env.animation_start_time
                         else:
                             env._t = env.animation_start_time + ((time.time() - env.animation_start_clocktime) * env._speed)
-                    while (env.peek() < env._t) and env.running and env._animate:
+                    while (env._peek() < env._t) and env.running and env._animate:
                         env.step()
 
                 else:
@@ -13103,6 +13103,9 @@ class Environment:
 
         Only for advance use with animation / GUI event loops
         """
+        return self._peek() - self._offset
+
+    def _peek(self):
         if len(self.env._pendingstandbylist) > 0 and not self._current_component._skip_standby:
             return self.env._now
         else:
@@ -13473,7 +13476,7 @@ class Environment:
                         self._t = self.animation_start_time
                     else:
                         self._t = self.animation_start_time + ((time.time() - self.animation_start_clocktime) * self._speed)
-                while self.peek() < self._t:
+                while self._peek() < self._t:
                     self.step()
                     if not (self.running and self._animate):
                         if self.root is not None:
-- 
2.43.0


From ade40457ee01a5afdc6aec53734e710ee746b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:25 +0000
Subject: [PATCH 60/89] fix: the model name logo of an environment belongs to
 that environment, not to the default one

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index db7d2dd..bfd8ad0 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -13686,6 +13686,7 @@ class Environment:
             screen_coordinates=True,
             xy_anchor="nw",
             visible=lambda: self._modelname,
+            env=self,
         )
         AnimateText(
             text=" model",
-- 
2.43.0


From af89e2d2e36fc0ef6bfa4088c1b043c561b0eb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:30 +0000
Subject: [PATCH 61/89] fix: Queue.insert at the end of the queue keeps the
 order of priorities

---
 salabim/salabim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index bfd8ad0..3d2f2e6 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4957,6 +4957,7 @@ class Queue:
         Note
         ----
         the priority of component will be set to the priority of the index'th component,
+        or that of the last component if index equals the length of the queue,
         or 0 if the queue is empty
         """
         if index < 0:
@@ -4971,7 +4972,7 @@ class Queue:
                 break
             count = count + 1
             mx = mx.successor
-        priority = mx.priority
+        priority = mx.predecessor.priority if mx == self._tail else mx.priority  # _head.priority is 0
         Qmember().insert_in_front_of(mx, component, self, priority)
         return self
 
-- 
2.43.0


From 0520b168c80aa95e478d717ca1a5f8706faee312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:47 +0000
Subject: [PATCH 62/89] fix: value, mode and capacity monitors can be frozen

---
 salabim/salabim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 3d2f2e6..7e247d2 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -770,13 +770,15 @@ class Monitor:
         self_env = self.env
         self.env = Environment(to_freeze=True, name=self.env.name() + ".copy.", time_unit=self.env.get_time_unit())
         self_dict = self.__dict__.copy()
-        for attribute in ("period_monitors", "org_tally", "tally", "org_reset", "reset"):
-            self.__dict__.pop(attribute, None)  # the period monitors do not belong to the frozen monitor
+        for attribute in ("period_monitors", "org_tally", "tally", "org_reset", "reset", "parent"):
+            self.__dict__.pop(attribute, None)  # the period monitors and the parent do not belong to the frozen monitor
         try:
             m = copy.deepcopy(self)
         finally:
             self.__dict__.update(self_dict)
             self.env = self_env
+        if hasattr(self, "parent"):
+            m.__class__ = Monitor
         m.isgenerated = True
         m._name = self.name() + ".frozen" if name is None else name
         m.env._animate = False
-- 
2.43.0


From 59f18ee57fb58d2e54d3d1fd31ac2636ee141ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:02 +0000
Subject: [PATCH 63/89] fix: peek works before the first run

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7e247d2..1cddbdc 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -10566,6 +10566,7 @@ class Environment:
         self._main.status._value = current
         self._main.frame = _get_caller_frame()
         self._current_component = self._main
+        self.end_on_empty_eventlist = False
         if self._trace:
             self.print_trace(self.time_to_str(0), "main", "current")
         self._nameserializeQueue = {}
-- 
2.43.0


From 0457fd86869794723c3e23623b2c824119b015eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:15 +0000
Subject: [PATCH 64/89] fix: the line number of a process that ended with an
 exception can be asked for

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 1cddbdc..9d6746f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -10113,6 +10113,8 @@ by adding:
                     return ""
                 if self._process_isgenerator:
                     frame = self._process.gi_frame
+                    if frame is None:  # process ended with an exception
+                        return ""
                     if frame.f_lasti == -1:  # checks whether generator is created
                         plus = " "
                 else:
-- 
2.43.0


From 06a86d6951841a96744bb3c12e5607f0d596640c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:05 +0000
Subject: [PATCH 65/89] fix: a duration given as text does not depend on the
 date changing while it is parsed

---
 salabim/salabim.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9d6746f..5f6e0ec 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -14998,8 +14998,11 @@ class Environment:
             ...
         if self._datetime0:
             if isinstance(spec, str):
-                t1 = self.dateutil_parse(spec)
-                t0 = self.dateutil_parse("0:0:0")
+                while True:
+                    t0 = self.dateutil_parse("0:0:0")
+                    t1 = self.dateutil_parse(spec)
+                    if t0 == self.dateutil_parse("0:0:0"):  # otherwise, the date changed (midnight) while parsing
+                        break
 
                 return self.timedelta_to_duration(t1 - t0)
             else:
-- 
2.43.0


From 8d216b9f97ce7eb1523798c7302d423f703014e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:43 +0000
Subject: [PATCH 66/89] fix: activate and hold refuse a time in the past
 without any effect

---
 salabim/salabim.py | 46 +++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 5f6e0ec..ea719be 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7519,7 +7519,7 @@ by adding at the end:
             self._to_stores = []
             self._failed = True
 
-    def _reschedule(self, scheduled_time, priority, urgent, caller, cap_now, extra="", s0=None, return_value=None, switch=True):
+    def _check_past(self, scheduled_time, cap_now):
         if scheduled_time < self.env._now:
             if cap_now is None:
                 cap_now = g._default_cap_now
@@ -7527,6 +7527,10 @@ by adding at the end:
                 scheduled_time = self.env._now
             else:
                 raise ValueError(f"scheduled time ({scheduled_time:0.3f}) before now ({self.env._now:0.3f})")
+        return scheduled_time
+
+    def _reschedule(self, scheduled_time, priority, urgent, caller, cap_now, extra="", s0=None, return_value=None, switch=True):
+        scheduled_time = self._check_past(scheduled_time, cap_now)
         self._scheduled_time = scheduled_time
         if self.env._trace:
             if extra == "*":
@@ -7643,6 +7647,15 @@ by adding at the end:
         if both at and delay are specified, the component becomes current at the sum
         of the two values.
         """
+        delay = self.env.spec_to_duration(delay)
+
+        if at is None:
+            scheduled_time = self.env._now + delay
+        else:
+            at = self.env.spec_to_time(at)
+            scheduled_time = at + self.env._offset + delay
+        scheduled_time = self._check_past(scheduled_time, cap_now)
+
         p = None
         if process is None:
             if self.status.value == data:
@@ -7709,14 +7722,6 @@ by adding:
 
         self.set_mode(mode)
 
-        delay = self.env.spec_to_duration(delay)
-
-        if at is None:
-            scheduled_time = self.env._now + delay
-        else:
-            at = self.env.spec_to_time(at)
-            scheduled_time = at + self.env._offset + delay
-
         self.status._value = scheduled
         self._reschedule(scheduled_time, priority, urgent, "activate", cap_now, extra=extra)
 
@@ -7800,13 +7805,7 @@ by adding:
         if both duration and till are specified, the component will become current at the sum of
         these two.
         """
-        if self.status.value != passive:
-            if self.status.value != current:
-                self._checkisnotdata()
-                self._remove()
-                self._check_fail()
-
-        self.set_mode(mode)
+        self._checkisnotdata()
 
         if till is None:
             if duration is None:
@@ -7820,13 +7819,14 @@ by adding:
                 scheduled_time = till + self.env._offset
             else:
                 raise ValueError("both duration and till specified")
-        if scheduled_time < self.env._now:
-            if cap_now is None:
-                cap_now = g._default_cap_now
-            if cap_now:
-                scheduled_time = self.env._now
-            else:
-                raise ValueError(f"scheduled time ({scheduled_time:0.3f}) before now ({self.env._now:0.3f})")
+        scheduled_time = self._check_past(scheduled_time, cap_now)
+
+        if self.status.value != passive:
+            if self.status.value != current:
+                self._remove()
+                self._check_fail()
+
+        self.set_mode(mode)
 
         if interrupted:
             self._remaining_duration = scheduled_time - self.env._now
-- 
2.43.0


From 0b01c0a2bad3ef48fa697f0f36b231e2eaa06f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:43 +0000
Subject: [PATCH 67/89] fix: activate with keep_request or keep_wait keeps the
 status requesting or waiting, as documented

---
 salabim/salabim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index ea719be..9ffaa81 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7712,17 +7712,17 @@ by adding:
             if self.env._yieldless:
                 self._glet = greenlet.greenlet(lambda: self._process(**kwargs), parent=self.env._glet)
 
+        new_status = scheduled
         if self.status.value != current:
             self._remove()
-            if p is None:
-                if not (keep_request or keep_wait):
-                    self._check_fail()
+            if p is None and ((keep_request and self.status.value == requesting) or (keep_wait and self.status.value == waiting)):
+                new_status = self.status.value
             else:
                 self._check_fail()
 
         self.set_mode(mode)
 
-        self.status._value = scheduled
+        self.status._value = new_status
         self._reschedule(scheduled_time, priority, urgent, "activate", cap_now, extra=extra)
 
     def hold(
-- 
2.43.0


From 89af5c99c6d02f306ea3cbed5b96695fb3bcc75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:47 +0000
Subject: [PATCH 68/89] fix: a store request that is honored stays honored if
 the filter of another component raises an exception

---
 salabim/salabim.py | 66 ++++++++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 29 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9ffaa81..6fc5fb2 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4234,14 +4234,16 @@ class Qmember:
                     for store0 in requester._from_stores:
                         requester.leave(store0._from_store_requesters)
                     requester._from_stores = []
-                    c.leave(store)
-                    requester._from_store_item = c
-                    requester._from_store_store = store
-                    requester._remove()
-                    requester.status._value = scheduled
-                    requester._reschedule(
-                        requester.env._now, 0, False, f"from_store ({store.name()}) honor with {c.name()}", False, s0=requester.env.last_s0, return_value=c
-                    )
+                    try:
+                        c.leave(store)
+                    finally:  # also honor if a filter, called because of the leave, raises an exception
+                        requester._from_store_item = c
+                        requester._from_store_store = store
+                        requester._remove()
+                        requester.status._value = scheduled
+                        requester._reschedule(
+                            requester.env._now, 0, False, f"from_store ({store.name()}) honor with {c.name()}", False, s0=requester.env.last_s0, return_value=c
+                        )
                     break
 
 
@@ -5765,14 +5767,16 @@ class Store(Queue):
                 if c._from_store_filter(item):
                     for store in c._from_stores:
                         c.leave(store._from_store_requesters)
-                    with self.env.suppress_trace():
-                        self.remove(item)
                     c._from_stores = []
-                    c._from_store_item = item
-                    c._from_store_store = self
-                    c._remove()
-                    c.status._value = scheduled
-                    c._reschedule(c.env._now, 0, False, f"from_store ({self.name()}) honor with {item.name()}", False, s0=c.env.last_s0, return_value=item)
+                    try:
+                        with self.env.suppress_trace():
+                            self.remove(item)
+                    finally:  # also honor if a filter, called because of the remove, raises an exception
+                        c._from_store_item = item
+                        c._from_store_store = self
+                        c._remove()
+                        c.status._value = scheduled
+                        c._reschedule(c.env._now, 0, False, f"from_store ({self.name()}) honor with {item.name()}", False, s0=c.env.last_s0, return_value=item)
                     break
 
     def _rescan_to(self):
@@ -5783,14 +5787,16 @@ class Store(Queue):
             if self.available_quantity() > 0:
                 for store in c._to_stores:
                     c.leave(store._to_store_requesters)
-                with self.env.suppress_trace():
-                    c._to_store_item.enter_sorted(self, c._to_store_priority)
                 c._to_stores = []
-                c._remove()
-                c.status._value = scheduled
-                c._reschedule(c.env._now, 0, False, f"to_store ({self.name()}) honor ", False, s0=c.env.last_s0)
-                c._to_store_item = None
-                c._to_store_store = self
+                try:
+                    with self.env.suppress_trace():
+                        c._to_store_item.enter_sorted(self, c._to_store_priority)
+                finally:  # also honor if a filter, called because of the enter, raises an exception
+                    c._remove()
+                    c.status._value = scheduled
+                    c._reschedule(c.env._now, 0, False, f"to_store ({self.name()}) honor ", False, s0=c.env.last_s0)
+                    c._to_store_item = None
+                    c._to_store_store = self
             else:
                 break
 
@@ -9795,13 +9801,15 @@ by adding:
                     for store0 in requester._to_stores:
                         requester.leave(store0._to_store_requesters)
                     requester._to_stores = []
-                    with self.env.suppress_trace():
-                        requester._to_store_item.enter_sorted(q, requester._to_store_priority)
-                    requester._remove()
-                    requester.status._value = scheduled
-                    requester._reschedule(requester.env._now, 0, False, f"to_store ({store.name()}) honor ", False, s0=requester.env.last_s0)
-                    requester._to_store_item = None
-                    requester._to_store_store = store
+                    try:
+                        with self.env.suppress_trace():
+                            requester._to_store_item.enter_sorted(q, requester._to_store_priority)
+                    finally:  # also honor if a filter, called because of the enter, raises an exception
+                        requester._remove()
+                        requester.status._value = scheduled
+                        requester._reschedule(requester.env._now, 0, False, f"to_store ({store.name()}) honor ", False, s0=requester.env.last_s0)
+                        requester._to_store_item = None
+                        requester._to_store_store = store
         return self
 
     def priority(self, q: "Queue", priority: float = None) -> float:
-- 
2.43.0


From 406285181a30273e8a6aa9361bcc0d2e38ec58b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:22 +0000
Subject: [PATCH 69/89] fix: dates and times in dataframes of monitors are
 right after reset_now

---
 salabim/salabim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 6fc5fb2..8f7b30b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -3189,7 +3189,7 @@ class Monitor:
         xs, ts = self.xt(ex0=ex0, exoff=exoff, force_numeric=force_numeric, add_now=add_now)
         if include_t:
             if use_datetime0:
-                df = pd.DataFrame({"t": [self.env.t_to_datetime(t) for t in ts]})
+                df = pd.DataFrame({"t": [self.env.t_to_datetime(t - self.env._offset) for t in ts]})
             else:
                 df = pd.DataFrame({"t": ts})
         else:
@@ -3284,9 +3284,9 @@ class Monitor:
                 max_t = self.env.datetime_to_t(max_t)
             max_t += self.env._offset
         if use_datetime0:
-            df = pd.DataFrame({"t": [self.env.t_to_datetime(t) for t in self.env.arange(min_t, max_t, delta_t)]})
+            df = pd.DataFrame({"t": [self.env.t_to_datetime(t - self.env._offset) for t in self.env.arange(min_t, max_t, delta_t)]})
         else:
-            df = pd.DataFrame({"t": self.env.arange(min_t, max_t, delta_t)})
+            df = pd.DataFrame({"t": [t - self.env._offset for t in self.env.arange(min_t, max_t, delta_t)]})
 
         for mon in [self] + extra_monitors:
             if not mon._level:
-- 
2.43.0


From 7d08a4fbaeea22cfaf278ac476f4a3cb1b99eb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:22 +0000
Subject: [PATCH 70/89] fix: as_resampled_dataframe shows that an extra monitor
 of another type was off

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 8f7b30b..7228544 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -3306,7 +3306,7 @@ class Monitor:
                         x_next, t_next = next(xt_iter)
                     except StopIteration:
                         t_next = inf
-                new_x.append(pd.NA if x_last == self.off else x_last)
+                new_x.append(pd.NA if x_last == mon.off else x_last)
             df[f"{mon.name()}.x"] = new_x
         return df
 
-- 
2.43.0


From 004a54a4433feea6bd3150fc099ae140e6e150b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:22 +0000
Subject: [PATCH 71/89] fix: a frozen monitor keeps the date of time zero

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7228544..0bd6ff7 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -785,6 +785,7 @@ class Monitor:
         m.env._now = self.env._now
         m.env._offset = self.env._offset
         m.env._t = self.env._t
+        m.env._datetime0 = self.env._datetime0
         return m
 
     def slice(self, start: float = None, stop: float = None, modulo: float = None, name: str = None) -> "Monitor":
-- 
2.43.0


From 1c31515fabd689143201723ad307685624179142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:39 +0000
Subject: [PATCH 72/89] fix: print_histogram of a monitor that stores only
 statistics does not fail

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0bd6ff7..07327ef 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -2615,7 +2615,7 @@ class Monitor:
             else:
                 auto_scale = False
 
-            if auto_scale:
+            if auto_scale and not self._stats_only:
                 bin_width, lowerbound, number_of_bins = self.histogram_autoscale()
             result.append(self.print_statistics(show_header=False, show_legend=True, do_indent=False, as_str=True))
             if not self._stats_only and number_of_bins >= 0:
-- 
2.43.0


From c3397b7266d36cd693f7ffb95ac05627a44b6115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:55 +0000
Subject: [PATCH 73/89] fix: the trace line of a standby component that puts
 another component in standby is not lost

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 07327ef..a28de9f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8079,7 +8079,7 @@ by adding:
         self.status._value = standby
 
         if self.env._trace:
-            if self.env._buffered_trace:
+            if self.env._buffered_trace and self is self.env._current_component:
                 self.env._buffered_trace = False
             else:
                 lineno = self.lineno_txt(add_at=True)
-- 
2.43.0


From 20eee7fbee3786b31c3b78eafae18d026061d83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:47 +0000
Subject: [PATCH 74/89] fix: queues are registered and deregistered by
 identity, not by equal contents

---
 salabim/salabim.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index a28de9f..32a7c65 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4639,7 +4639,7 @@ class Queue:
         """
         if not isinstance(registry, list):
             raise TypeError("registry not list")
-        if self in registry:
+        if any(q is self for q in registry):  # not with in, as that compares contents
             raise ValueError(self.name() + " already in registry")
         registry.append(self)
         return self
@@ -4659,10 +4659,11 @@ class Queue:
         """
         if not isinstance(registry, list):
             raise TypeError("registry not list")
-        if self not in registry:
-            raise ValueError(self.name() + " not in registry")
-        registry.remove(self)
-        return self
+        for i, q in enumerate(registry):
+            if q is self:  # not with in or remove, as these compare contents
+                del registry[i]
+                return self
+        raise ValueError(self.name() + " not in registry")
 
     def __repr__(self):
         return object_to_str(self) + " (" + self.name() + ")"
-- 
2.43.0


From 819d5b70800fbf97dd4b7884f470145a1e217ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:47 +0000
Subject: [PATCH 75/89] fix: base_name of an object without serialized name is
 not affected by changing its name

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 32a7c65..23c5446 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -25187,6 +25187,7 @@ def _set_name(name, _nameserialize, object):
         object._sequence_number = sequence_number
     else:
         object._name = name
+        object._base_name = name
 
 
 def _check_overlapping_parameters(obj, method_name0, method_name1, process=None):
-- 
2.43.0


From 4c6ada064b70d38f5029693a83b9247d2e4719ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:47 +0000
Subject: [PATCH 76/89] fix: the claimed quantity monitor of a renamed resource
 is named correctly

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 23c5446..9ebc2eb 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24495,7 +24495,7 @@ class Resource:
             self._requesters.name("requesters of " + value)
             self._claimers.name("claimers of " + value)
             self.capacity.name("Capacity of " + value)
-            self.claimed_quantity.name("Clamed quantity of " + value)
+            self.claimed_quantity.name("Claimed quantity of " + value)
             self.available_quantity.name("Available quantity of " + value)
             self.occupancy.name("Occupancy of " + value)
 
-- 
2.43.0


From 236bcc8dd8868d7536d20a7b45a00aa0e7ec99a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:47 +0000
Subject: [PATCH 77/89] fix: the queues of requesters of a store bear the name
 of the store

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9ebc2eb..d5edda0 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5713,9 +5713,9 @@ class Store(Queue):
         super().__init__(name=name, monitor=monitor, fill=None, capacity=capacity, env=env, *args, **kwargs)
 
         with self.env.suppress_trace():
-            self._to_store_requesters = Queue(f"{name}.to_store_requesters", env=env)
+            self._to_store_requesters = Queue(f"{self.name()}.to_store_requesters", env=env)
             self._to_store_requesters._isinternal = True
-            self._from_store_requesters = Queue(f"{name}.from_store_requesters", env=env)
+            self._from_store_requesters = Queue(f"{self.name()}.from_store_requesters", env=env)
             self._from_store_requesters._isinternal = True
 
             if fill is not None:  # this cannot be done by Queue.__init__ as the requesters are not defined at that time
-- 
2.43.0


From a0b8d09a0f4df765797e8f1466f0ded90f9d050c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:59 +0000
Subject: [PATCH 78/89] fix: the capacity monitors of a queue that is renamed
 are renamed as well

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d5edda0..497e0e7 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4801,6 +4801,8 @@ class Queue:
             self._name = value
             self.length.name("Length of " + self.name())
             self.length_of_stay.name("Length of stay of " + self.name())
+            self.capacity.name("Capacity of " + self.name())
+            self.available_quantity.name("Available quantity of " + self.name())
         return self._name
 
     def rename(self, value: str = None) -> "Queue":
-- 
2.43.0


From 03e832c1b909a182829abde4cec90eee1e434633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:44 +0000
Subject: [PATCH 79/89] fix: a histogram without zeros did count the zeros in
 its rows

---
 salabim/salabim.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 497e0e7..8783666 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -2020,8 +2020,8 @@ class Monitor:
             raise TypeError("bin_duration not available for non level monitors")
         return self.sys_bin_weight(lowerbound, upperbound)
 
-    def sys_bin_weight(self, lowerbound, upperbound):
-        x, weight = self._xweight()
+    def sys_bin_weight(self, lowerbound, upperbound, ex0=False):
+        x, weight = self._xweight(ex0=ex0)
         return sum((vweight for vx, vweight in zip(x, weight) if (vx > lowerbound) and (vx <= upperbound)))
 
     def value_number_of_entries(self, value: Any) -> int:
@@ -2562,7 +2562,7 @@ class Monitor:
             else:
                 values_label = self.values(ex0=ex0, sort_on_weight=sort_on_weight, sort_on_duration=sort_on_duration)
 
-            values_condition = [[v] for v in values_label]
+            values_condition = [[v] if v != 0 or not ex0 else [] for v in values_label]
             rest_values = self.values(ex0=ex0)
             for v in values_label:
                 if v in rest_values:
@@ -2636,9 +2636,9 @@ class Monitor:
                     else:
                         ub = lowerbound + (i + 1) * bin_width
                     if self._weight:
-                        count = self.sys_bin_weight(lb, ub)
+                        count = self.sys_bin_weight(lb, ub, ex0=ex0)
                     else:
-                        count = self.bin_number_of_entries(lb, ub)
+                        count = self.bin_number_of_entries(lb, ub, ex0=ex0)
 
                     perc = count / (weight_total if weight_total else 1)
                     if weight_total == inf:
-- 
2.43.0


From a5ddb6cef44953d9930d997b830a4da19636f67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:44 +0000
Subject: [PATCH 80/89] fix: percentile with interpolation higher or midpoint
 was wrong at a data point

---
 salabim/salabim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 8783666..5c2a686 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1927,6 +1927,9 @@ class Monitor:
                 if weight_cum[k + 1] > q:
                     break
 
+            if weight_cum[k] == q:  # not between two data points
+                return x_sorted[k]
+
             if interpolation == "linear":
                 return interpolate(q, weight_cum[k], weight_cum[k + 1], x_sorted[k], x_sorted[k + 1])
             if interpolation == "lower":
-- 
2.43.0


From b946e9beb69d4152160039140c3539505df60b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:30 +0000
Subject: [PATCH 81/89] fix: a histogram of given values failed for a weighted
 monitor with zeros only, if zeros are excluded

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 5c2a686..015cbd0 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -2599,7 +2599,7 @@ class Monitor:
                             + fn(count, 14, 3)
                             + fn(perc * 100, 6, 1)
                             + rpad(str(count_entries), 8)
-                            + fn(count_entries * 100 / nentries, 6, 1)
+                            + fn(count_entries * 100 / (nentries if nentries else 1), 6, 1)
                         )
                     else:
                         result.append(pad(str(value_label), 20) + rpad(str(count), 7) + fn(perc * 100, 6, 1) + " " + s)
-- 
2.43.0


From 26d433dbe4c2ef198072a1f58c355ae708fdd899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:37 +0000
Subject: [PATCH 82/89] fix: the total length of a circle trajectory (or a
 merged one ending with a circle) could not be asked

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 015cbd0..e22aad0 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -6939,6 +6939,8 @@ class TrajectoryCircle(_Trajectory):
 
             total length if t omitted
         """
+        if t is None:
+            return self._length
         t0 = self._t0 if _t0 is None else _t0
         t1 = t0 + self._duration
         if t < t0:
-- 
2.43.0


From 767229be3170bd772e45862cb01587b6152919a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:52 +0000
Subject: [PATCH 83/89] fix: the traversed length of a polygon trajectory
 counted the preceding segments twice

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index e22aad0..c6a4102 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -6693,7 +6693,7 @@ class TrajectoryPolygon(_Trajectory):
             total length if t omitted
         """
         length, i, j = self.indexes(t, _t0=_t0)
-        return self.cum_length[i] + length
+        return self.cum_length[i] if i == j else length
 
     def rendered_polygon(self, time_step: float = 1) -> List[Tuple[float, float]]:
         """
-- 
2.43.0


From b75fd555f69b4bf3896496c3ef2f00aaacc526fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:08 +0000
Subject: [PATCH 84/89] fix: a merged trajectory that is not the first part of
 another merged trajectory kept its own start time

---
 salabim/salabim.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index c6a4102..dd87002 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -6057,6 +6057,8 @@ class TrajectoryMerged(_Trajectory):
         -------
         evaluated x : float
         """
+        if _t0 is not None:  # not the first in a merged trajectory, or in an AnimateQueue
+            t = t - _t0 + self._t0
         i = self.index(t)
         trajectory = self._trajectories[i]
         t0 = self._t0s[i]
@@ -6075,6 +6077,8 @@ class TrajectoryMerged(_Trajectory):
         -------
         evaluated y : float
         """
+        if _t0 is not None:  # not the first in a merged trajectory, or in an AnimateQueue
+            t = t - _t0 + self._t0
         i = self.index(t)
         trajectory = self._trajectories[i]
         t0 = self._t0s[i]
@@ -6093,6 +6097,8 @@ class TrajectoryMerged(_Trajectory):
         -------
         evaluated angle (in degrees) : float
         """
+        if _t0 is not None:  # not the first in a merged trajectory, or in an AnimateQueue
+            t = t - _t0 + self._t0
         i = self.index(t)
         trajectory = self._trajectories[i]
         t0 = self._t0s[i]
@@ -6162,6 +6168,8 @@ class TrajectoryMerged(_Trajectory):
         if t is None:
             i = len(self._trajectories) - 1
         else:
+            if _t0 is not None:  # not the first in a merged trajectory, or in an AnimateQueue
+                t = t - _t0 + self._t0
             i = self.index(t)
         trajectory = self._trajectories[i]
         t0 = self._t0s[i]
-- 
2.43.0


From 2a1498e0a3e6b54e20a72a09c7e7d3c3176d9b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:21 +0000
Subject: [PATCH 85/89] fix: print_histograms failed if a queue was to be
 excluded

---
 salabim/salabim.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index dd87002..524bb28 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4767,7 +4767,7 @@ class Queue:
         """
         result = []
         for m in (self.length, self.length_of_stay):
-            if m not in exclude:
+            if not any(m is x for x in exclude):
                 result.append(m.print_histogram(as_str=True, graph_scale=graph_scale))
         return return_or_print(result, as_str, file)
 
@@ -23706,9 +23706,9 @@ class State:
         histograms (if as_str is True) : str
         """
         result = []
-        if self.waiters() not in exclude:
+        if not any(self.waiters() is x for x in exclude):
             result.append(self.waiters().print_histograms(exclude=exclude, as_str=True, graph_scale=graph_scale))
-        if self.value not in exclude:
+        if not any(self.value is x for x in exclude):
             result.append(self.value.print_histogram(as_str=True, graph_scale=graph_scale))
         return return_or_print(result, as_str, file)
 
@@ -24268,10 +24268,10 @@ class Resource:
         """
         result = []
         for q in (self.requesters(), self.claimers()):
-            if q not in exclude:
+            if not any(q is x for x in exclude):
                 result.append(q.print_histograms(exclude=exclude, as_str=True, graph_scale=graph_scale))
         for m in (self.capacity, self.available_quantity, self.claimed_quantity, self.occupancy):
-            if m not in exclude:
+            if not any(m is x for x in exclude):
                 result.append(m.print_histogram(as_str=True, graph_scale=graph_scale))
         return return_or_print(result, as_str, file)
 
-- 
2.43.0


From 9aa90b337ceeae65c7976aef28196e5a2e5ff999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:35 +0000
Subject: [PATCH 86/89] fix: a request from a preemptive resource bumped a
 claimer, due to rounding, although enough was available

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 524bb28..d312668 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8669,7 +8669,7 @@ by adding:
                 this_claimers = r.claimers()
                 bump_candidates = []
                 for c in reversed(r.claimers()):
-                    if av >= q:
+                    if av + 1e-8 >= q:
                         break
                     if priority >= c.priority(this_claimers):
                         break
-- 
2.43.0


From a6fa0c24d40765a0becc50bcf5c8d427081c8be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:51 +0000
Subject: [PATCH 87/89] fix: a trajectory without length, from and to
 standstill, failed with a division by zero

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d312668..f128462 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5932,7 +5932,7 @@ class _Movement:
         if self.l_v0_vmax < 0 or self.l_vmax_v1 < 0:
             raise ValueError("not feasible")
         self.t_v0_vmax = (vmax - v0) / acc
-        self.t_vmax = self.l_vmax / vmax
+        self.t_vmax = self.l_vmax / vmax if self.l_vmax else 0
         self.t_vmax_v1 = (vmax - v1) / dec
         self.t = self.t_v0_vmax + self.t_vmax + self.t_vmax_v1
         self.v0 = v0
-- 
2.43.0


From 7ddfe3cd28dc978f42ca657dcbbdc51a4f345ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:22 +0000
Subject: [PATCH 88/89] fix: a copied capacity of a queue was not recorded, and
 copying an overfull queue with its capacity failed

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index f128462..3e91d54 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5655,12 +5655,12 @@ class Queue:
             if name is None:
                 name = "copy of " + self.name()
             q1 = type(self)(name=name, monitor=monitor, env=self.env)
-            if copy_capacity:
-                q1.capacity._tally = self.capacity._tally
             mx = self._head.successor
             while mx != self._tail:
                 Qmember().insert_in_front_of(q1._tail, mx.component, q1, mx.priority)
                 mx = mx.successor
+            if copy_capacity:
+                q1.set_capacity(self.capacity._tally)
         return q1
 
     def move(self, name: str = None, monitor: bool = False, copy_capacity=False):
-- 
2.43.0


From 8db9c51338ed34acc6b8cdac00172f299abd1626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:48 +0000
Subject: [PATCH 89/89] fix: print_info of a state did not separate an empty
 value from the next value waited for

---
 salabim/salabim.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 3e91d54..8aa0f62 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -23741,13 +23741,7 @@ class State:
             while mx != self._waiters._tail:
                 c = mx.component
                 mx = mx.successor
-                values = ""
-                for s, value, valuetype in c._waits:
-                    if s == self:
-                        if values != "":
-                            values = values + ", "
-                        values = values + str(value)
-
+                values = ", ".join(str(value) for s, value, valuetype in c._waits if s == self)
                 result.append("    " + pad(c.name(), 20) + " value(s): " + values)
         else:
             result.append("  no waiting components")
-- 
2.43.0

