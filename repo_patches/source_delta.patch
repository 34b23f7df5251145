From 9d0e41fce051e5fdd8bbefae9a94ee30d8a7865d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 01/24] fix: buffer debug() reads past the end of the event
 array

The array has N + 2 = size + 1 elements; the loop ran to size + 2.
---
 src/circularbuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index 636de15..6681570 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -284,7 +284,7 @@ template <typename T, size_t N> void RTML_buffer<T, N>::debug() const {
 
   DEBUGV3("[CONTENT]\n");
   DEBUGV3("----------\n");
-  for (unsigned int idx = 0; idx < size + 2; idx++) {
+  for (unsigned int idx = 0; idx < size + 1; idx++) {
     if (idx % 2 == 0)
       DEBUGV3_APPEND("\n");
     array[idx].debug();
-- 
2.43.0


From e9ab446367c6c85490e052645d9920bd78cb25e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 02/24] fix: read_previous wraps around at slot 0

The cursor is unsigned, so (cursor - 1) < 0 never holds; at slot 0 the
previous event was looked up at index SIZE_MAX and reported UNAVAILABLE.
---
 src/rmtld3/reader.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rmtld3/reader.h b/src/rmtld3/reader.h
index 876dc9c..831925f 100644
--- a/src/rmtld3/reader.h
+++ b/src/rmtld3/reader.h
@@ -251,8 +251,8 @@ RMTLD3_reader<R, P>::read_previous(typename R::buffer_t::event_t &e) {
                 R::length());
   return ((consumed() > 0 &&
            cursor != R::bottom && // [TODO: check this: !(cursor == R::bottom)]
-           (R::buffer.read(e, ((cursor - 1) < 0) ? R::buffer.size - 1
-                                                 : cursor - 1)) ==
+           (R::buffer.read(e, (cursor == 0) ? R::buffer.size - 1
+                                             : cursor - 1)) ==
                R::buffer.OK))
              ? R::AVAILABLE
              : R::UNAVAILABLE;
-- 
2.43.0


From fcab14f1585a8ec27bc533597cbbbb89b95df4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 03/24] fix: Event != is the negation of Event ==

!= compared the times only, so two events with equal times and different
data were neither == nor !=.
---
 src/event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event.h b/src/event.h
index 8b06ea1..2b990fc 100644
--- a/src/event.h
+++ b/src/event.h
@@ -315,7 +315,7 @@ template <typename T> bool Event<T>::operator==(Event<T> const &event) const {
 }
 
 template <typename T> bool Event<T>::operator!=(Event<T> const &event) const {
-  return time != event.time;
+  return !(*this == event);
 }
 
 template <typename T> bool Event<T>::operator<(const timespan &ttime) const {
-- 
2.43.0


From d8ebaeccb901c2097f07d7152b188359beab6811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:16 +0000
Subject: [PATCH 04/24] fix: a copied buffer no longer publishes through the
 state of its source

operator= copied the page bytewise, so the copy kept using the top and
bottom of the source (or of a writer of the source).
---
 src/atomic_compat.h  | 9 +++++++++
 src/circularbuffer.h | 1 +
 2 files changed, 10 insertions(+)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 5d6797c..32db510 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -49,6 +49,7 @@ typedef unsigned int uint32_t;
 #define ATOMIC_TYPE()
 #define ATOMIC_PAGE()
 #define ATOMIC_PAGE_SWAP()
+#define ATOMIC_PAGE_COPY(rhs)
 
 #define ATOMIC(body)                                                           \
   { body }
@@ -228,6 +229,14 @@ union page_t {
   std::atomic<page_t> page =                                                   \
       ATOMIC_VAR_INIT({(NATIVE_POINTER_TYPE)&state_global})
 
+#define ATOMIC_PAGE_COPY(rhs)                                                  \
+  {                                                                            \
+    page_t rhs_page = (page_t)std::atomic_load(&rhs.page);                     \
+    state_global = *((state_t *)rhs_page.stateref);                            \
+    rhs_page.stateref = (NATIVE_POINTER_TYPE)&state_global;                    \
+    std::atomic_store(&page, rhs_page);                                        \
+  }
+
 #define ATOMIC_PAGE_SWAP()                                                     \
   typedef typename B::state_t state_t;                                         \
   state_t state;                                                               \
diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index 6681570..5bc76a7 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -297,6 +297,7 @@ template <typename T, size_t N> void RTML_buffer<T, N>::debug() const {
 template <typename T, size_t N>
 RTML_buffer<T, N> &RTML_buffer<T, N>::operator=(const RTML_buffer<T, N> &rhs) {
   MEMCPY(this, &rhs, sizeof(rhs));
+  ATOMIC_PAGE_COPY(rhs);
   return *this;
 }
 
-- 
2.43.0


From 08ed76337f0edd6fbd7c4c112c948a3572a523f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 05/24] fix: set(t) leaves the cursor on the event in force at
 t in both directions

The forward search stops on the event at or before t, the backward search
stopped one event later. The in-between evaluation of until_less undid that
by hand for the backward case.
---
 src/rmtld3/formulas.h | 1 -
 src/rmtld3/reader.h   | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 66dde65..6f928ad 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -141,7 +141,6 @@ three_valued_type until_less(T &trace, timespan &t) {
 
           size_t store_cursor2 = trace.get_cursor();
           trace.set(t3);
-          trace.decrement_cursor();
           symbol = eval_b(trace, t3, symbol);
           trace.set_cursor(store_cursor2);
         };
diff --git a/src/rmtld3/reader.h b/src/rmtld3/reader.h
index 831925f..61282ee 100644
--- a/src/rmtld3/reader.h
+++ b/src/rmtld3/reader.h
@@ -132,6 +132,7 @@ typename R::error_t RMTLD3_reader<R, P>::set(timespan &t) {
     DEBUGV_RMTLD3("--- %lu %lu\n", e.getTime(), ee.getTime());
 
     if (e.getTime() <= t && t < ee.getTime()) {
+      decrement_cursor();
       return R::AVAILABLE;
     }
 
-- 
2.43.0


From 4e676f06007e871b0bd5067fdd8aa168b4624856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 06/24] fix: since_less is UNKNOWN only when the trace does not
 cover the window

The comparison was reversed: an exhausted trace gave FALSE (so
historically_less gave TRUE) and a fully covered window gave UNKNOWN.
---
 src/rmtld3/formulas.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 6f928ad..a63bb1b 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -385,7 +385,7 @@ three_valued_type since_less(T &trace, timespan &t) {
                              // of the subformula
 
   return (eval_c.first == FV_SYMBOL)
-             ? ((eval_c.second < t - b) ? T_UNKNOWN : T_FALSE)
+             ? ((eval_c.second > t - b) ? T_UNKNOWN : T_FALSE)
              : b4_to_b3(eval_c.first);
 }
 
-- 
2.43.0


From ff72cf780337ab24719cfe7a263744791d58e654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 07/24] fix: in-between evaluation of until_less stays below
 its bound

Points at or after t + b were evaluated and could decide the formula.
---
 src/rmtld3/formulas.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index a63bb1b..77ccd1b 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -134,7 +134,7 @@ three_valued_type until_less(T &trace, timespan &t) {
           t2 = e2.getTime();
           t3 += (t2 - t1);
 
-          if (t3 >= t1)
+          if (t3 >= t1 || t3 >= b + t)
             break;
 
           DEBUGV_RMTLD3("t1=%d t2=%d t3=%d\n", t1, t2, t3);
-- 
2.43.0


From 3991b850ea5a42efe17e046e6cb0098b9ccb3632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 08/24] fix: duration_term within one inter-event interval

When both bounds lie between the same two events the upper bound was never
found: the whole interval and all later ones were added up.
---
 src/rmtld3/terms.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rmtld3/terms.h b/src/rmtld3/terms.h
index 9991fc8..1a123b9 100644
--- a/src/rmtld3/terms.h
+++ b/src/rmtld3/terms.h
@@ -58,10 +58,15 @@ duration duration_term(T &trace, timespan &t) {
 
     // find lower condition
     if (c_time_prev <= t && t < c_time) {
-      acc.first = (c_time - t) * symbol.first;
+      auto c_upper = (t + t_upper < c_time) ? t + t_upper : c_time;
+      acc.first = (c_upper - t) * symbol.first;
       acc.second = symbol.second;
 
       DEBUGV_RMTLD3("dur lower(%ld)\n", c_time_prev);
+
+      // both bounds between the same two events
+      if (t + t_upper < c_time)
+        break;
     }
     // find upper condition
     else if (c_time_prev <= t + t_upper && t + t_upper < c_time) {
-- 
2.43.0


From 01fcfd3f85a5aeb2fc989ee34998a3098b7d8297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 09/24] fix: eventually_equal draws no conclusion before the
 trace reaches its point

The verdict at the newest event was returned although later events before
t + b may change it.
---
 src/rmtld3/formulas.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 77ccd1b..abe3c5c 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -209,7 +209,8 @@ three_valued_type eventually_equal(T &trace, timespan &t) {
   trace.set_cursor(c_eventually); // reset the cursor changes during the
                                   // evaluation of the subformula
 
-  return symbol;
+  // the trace does not reach the point b + t yet (no conclusion)
+  return (c_time < b + t) ? T_UNKNOWN : symbol;
 }
 
 /**
-- 
2.43.0


From d0062bc1090449f0eb282f2148fc9ef9aecbf9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 10/24] fix: eventually_less_unbounded is never FALSE on a
 finite trace

---
 src/rmtld3/formulas.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index abe3c5c..fa0d510 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -252,7 +252,8 @@ three_valued_type eventually_less_unbounded(T &trace, timespan &t) {
   trace.set_cursor(c_eventually); // reset the cursor changes during the
                                   // evaluation of the subformula
 
-  return symbol;
+  // a later event may still satisfy the formula
+  return (symbol == T_FALSE) ? T_UNKNOWN : symbol;
 }
 
 /**
-- 
2.43.0


From 9be51f8081ae59d81d2e39feaa30fe4f11ad8e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 11/24] fix: synchronize misses lost events

With exactly one event lost (reader bottom == buffer top) the slot is not
overwritten yet, so gap() saw nothing and an empty window was reported as
NO_GAP. In the non-overlapping case a bottom whose slot had been
overwritten (and its outdated timestamp) was kept.
---
 src/reader.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/reader.h b/src/reader.h
index f2320c6..f281a7b 100644
--- a/src/reader.h
+++ b/src/reader.h
@@ -226,7 +226,8 @@ typename RTML_reader<B>::gap_error_t RTML_reader<B>::synchronize() {
   if (t < b) {
     DEBUGV("1-> t < b (with overlap)\n");
     
-    if (gap() == GAP) {
+    // bottom == t: exactly one event more than the buffer keeps
+    if (gap() == GAP || bottom == t) {
       DEBUGV("gap!\n");
       top = t;
       bottom = b;
@@ -248,8 +249,11 @@ typename RTML_reader<B>::gap_error_t RTML_reader<B>::synchronize() {
     } else {
       // reader is out of sync
       top = t;
-      bottom = (b < bottom && b < t) ? bottom : b;
-      timestamp = (b < bottom && b < t) ? timestamp : ts;
+      // keep the current bottom only if it still is what it was
+      if (!(b < bottom && bottom < t) || gap() == GAP) {
+        bottom = b;
+        timestamp = ts;
+      }
 
       return GAP; // HARD_SYNC
     }
-- 
2.43.0


From 4cd23a7b26817a68d4d4026dd64c02183bce2107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 12/24] fix: reader pull reports an overwritten event

The gap test ran after the timestamp had been refreshed from the very slot
it inspects, so READER_OVERFLOW could not be reported for an overwritten
event.
---
 src/reader.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reader.h b/src/reader.h
index f281a7b..afd7db6 100644
--- a/src/reader.h
+++ b/src/reader.h
@@ -161,6 +161,10 @@ RTML_reader<B>::pull(typename B::event_t &event) {
   const int delta = 1;
 
   if (length() > delta) {
+    // the event due here may have been overwritten since the timestamp was
+    // taken
+    const bool overwritten = gap();
+
     // read in an atomic way
     if (buffer.read(event, bottom) != buffer.OK)
       return READ_ERROR;
@@ -175,7 +179,7 @@ RTML_reader<B>::pull(typename B::event_t &event) {
     if (buffer.read(event_next, bottom) == buffer.OK) {
       timestamp = event_next.getTime();
 
-      if (gap())
+      if (overwritten || gap())
         return READER_OVERFLOW;
       else
         return AVAILABLE;
-- 
2.43.0


From 3a720796b9a22033ff8ea923ada20fe5746559d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 13/24] fix: task status is set before the task is created

The new thread could see an uninitialised (or zero, i.e. ACTIVATE) status
and run before being enabled.
---
 src/task_compat.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index f21fd2c..ddea397 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -162,14 +162,15 @@ struct task {
 
     pcheck_attr(pthread_attr_setschedparam(&attribute, &parameter), &attribute);
 
+    // the task reads its status as soon as it is created
+    st = UNACTIVATE;
+
     pcheck_attr(pthread_create(&thread, &attribute, loop, this), &attribute);
 
     pcheck(pthread_attr_destroy(&attribute));
 
     DEBUGV_APPEND("\n");
 
-    st = UNACTIVATE;
-
     return 0;
   }
 
-- 
2.43.0


From 111a046b81d673c32ffcc939825903b4825339c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 14/24] fix: a task disabled before it was enabled ends

The trap loop ignored ABORT, so joining such a task never returned.
---
 src/task_compat.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/task_compat.h b/src/task_compat.h
index ddea397..9cd9090 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -197,6 +197,10 @@ struct task {
               ttask->st = RUNNING;
               break;
             }
+            if (ttask->st == ABORT) {
+              ttask->st = ABORTED;
+              return NULL;
+            }
             nanosleep((const struct timespec[]){{0, 100000L}}, NULL);
           }
 
-- 
2.43.0


From 7c7f46c7b3281c93adf8a74d9afb6294baa81449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:48 +0000
Subject: [PATCH 15/24] fix: always_less and historically_less evaluate their
 operand once

---
 src/rmtld3/formulas.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index fa0d510..bd3ee98 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -285,7 +285,8 @@ three_valued_type always_less(T &trace, timespan &t) {
       return T_TRUE;
     };
     static three_valued_type eval_phi2(T &trace, timespan &t) {
-      return b3_not(E::eval_phi1(trace, t));
+      three_valued_type phi = E::eval_phi1(trace, t);
+      return b3_not(phi);
     };
   };
 
@@ -463,7 +464,8 @@ three_valued_type historically_less(T &trace, timespan &t) {
       return T_TRUE;
     };
     static three_valued_type eval_phi2(T &trace, timespan &t) {
-      return b3_not(E::eval_phi1(trace, t));
+      three_valued_type phi = E::eval_phi1(trace, t);
+      return b3_not(phi);
     };
   };
 
-- 
2.43.0


From d745e4be71a9bf4b011ec61ea60de0a58bd5fea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:12 +0000
Subject: [PATCH 16/24] fix: a writer does not wait forever for an event pushed
 on the buffer directly

---
 src/atomic_compat.h  | 10 ++++++++++
 src/circularbuffer.h |  1 +
 2 files changed, 11 insertions(+)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 32db510..9244e33 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -50,6 +50,7 @@ typedef unsigned int uint32_t;
 #define ATOMIC_PAGE()
 #define ATOMIC_PAGE_SWAP()
 #define ATOMIC_PAGE_COPY(rhs)
+#define ATOMIC_PAGE_PUSHED(index, node)
 
 #define ATOMIC(body)                                                           \
   { body }
@@ -237,6 +238,15 @@ union page_t {
     std::atomic_store(&page, rhs_page);                                        \
   }
 
+/* record a push that did not go through a writer, so that a writer does not wait
+ * for the push it replaces */
+#define ATOMIC_PAGE_PUSHED(index, node)                                        \
+  {                                                                            \
+    state_t *s = (state_t *)((page_t)std::atomic_load(&page)).stateref;        \
+    s->pos = index;                                                            \
+    s->event = node;                                                           \
+  }
+
 #define ATOMIC_PAGE_SWAP()                                                     \
   typedef typename B::state_t state_t;                                         \
   state_t state;                                                               \
diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index 5bc76a7..fc081ff 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -181,6 +181,7 @@ RTML_buffer<T, N>::push(const event_t &node) {
   size_t &t = _top();
   size_t &b = _bottom();
   array[t] = node;
+  ATOMIC_PAGE_PUSHED(t, node);
 
   increment_top();
 
-- 
2.43.0


From 113432aa06f3b7f313fa2dc0af91905deca8f354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:58 +0000
Subject: [PATCH 17/24] fix: writers do not share the record they prepare

---
 src/atomic_compat.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 9244e33..8048143 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -247,10 +247,11 @@ union page_t {
     s->event = node;                                                           \
   }
 
+/* two records: one may be published while the other is prepared */
 #define ATOMIC_PAGE_SWAP()                                                     \
   typedef typename B::state_t state_t;                                         \
-  state_t state;                                                               \
-  state_t *stateref = &state;
+  state_t state[2];                                                            \
+  state_t *stateref = &state[0];
 
 #define ATOMIC_PUSH(body)                                                      \
   bool fail = false;                                                           \
@@ -276,12 +277,12 @@ union page_t {
       goto complete;                                                           \
     }                                                                          \
                                                                                \
-    if (&state == (state_t *)current_page_content.stateref) {                  \
-      /* current state is in use; use buffer state */                          \
-      stateref = (state_t *)&buffer.state_global;                              \
+    if (&state[0] == (state_t *)current_page_content.stateref) {               \
+      /* current state is in use; use the other one of this writer */          \
+      stateref = (state_t *)&state[1];                                         \
     } else {                                                                   \
       /* use current state */                                                  \
-      stateref = (state_t *)&state;                                            \
+      stateref = (state_t *)&state[0];                                         \
     }                                                                          \
                                                                                \
     /* copy state */                                                           \
-- 
2.43.0


From dcb90ea5e63d0fd8ff8d53500aeec99d87c7f5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:58 +0000
Subject: [PATCH 18/24] fix: a writer waiting for the last push looks at the
 current page

---
 src/atomic_compat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 8048143..dd0e556 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -264,11 +264,11 @@ union page_t {
       fail = false;                                                            \
     }                                                                          \
                                                                                \
+  /* give a chance to complete the last push if it is not ready yet */         \
+  complete:                                                                    \
     current_page_content = (page_t)std::atomic_load(&buffer.page);             \
     new_page_content = current_page_content;                                   \
                                                                                \
-  /* give a chance to complete the last push if it is not ready yet */         \
-  complete:                                                                    \
     buffer.read(evt, ((state_t *)current_page_content.stateref)->pos);         \
     DEBUGV("%lu\n", ((state_t *)current_page_content.stateref)->pos);          \
     if (!(((state_t *)current_page_content.stateref)->event == evt)) {         \
-- 
2.43.0


From 4a253f2d0798719617c1a12ec558fda694425512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:17 +0000
Subject: [PATCH 19/24] fix: three-valued connectives can be nested

---
 src/rmtld3/rmtld3.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/rmtld3/rmtld3.h b/src/rmtld3/rmtld3.h
index 340175c..aa35057 100644
--- a/src/rmtld3/rmtld3.h
+++ b/src/rmtld3/rmtld3.h
@@ -45,27 +45,27 @@ inline duration mult_dur(const duration &lhs, const duration &rhs) {
 
 // type conversion from three_valued_type to four_valued_type
 #define b3_to_b4(b3)                                                           \
-  (b3 == T_TRUE) ? FV_TRUE : ((b3 == T_FALSE) ? FV_FALSE : FV_UNKNOWN)
+  (((b3) == T_TRUE) ? FV_TRUE : (((b3) == T_FALSE) ? FV_FALSE : FV_UNKNOWN))
 
 // convert four_valued_type into three_valued type
 #define b4_to_b3(b4)                                                           \
-  (b4 == FV_TRUE) ? T_TRUE : ((b4 == FV_FALSE) ? T_FALSE : T_UNKNOWN)
+  (((b4) == FV_TRUE) ? T_TRUE : (((b4) == FV_FALSE) ? T_FALSE : T_UNKNOWN))
 
 /** OR */
 #define b3_or(b31, b32)                                                        \
-  (b31 == T_TRUE || b32 == T_TRUE)                                             \
-      ? T_TRUE                                                                 \
-      : ((b31 == T_FALSE && b32 == T_FALSE) ? T_FALSE : T_UNKNOWN)
+  (((b31) == T_TRUE || (b32) == T_TRUE)                                        \
+       ? T_TRUE                                                                \
+       : (((b31) == T_FALSE && (b32) == T_FALSE) ? T_FALSE : T_UNKNOWN))
 
 /** AND */
 #define b3_and(b31, b32)                                                       \
-  (b31 == T_TRUE && b32 == T_TRUE)                                             \
-      ? T_TRUE                                                                 \
-      : ((b31 == T_FALSE || b32 == T_FALSE) ? T_FALSE : T_UNKNOWN)
+  (((b31) == T_TRUE && (b32) == T_TRUE)                                        \
+       ? T_TRUE                                                                \
+       : (((b31) == T_FALSE || (b32) == T_FALSE) ? T_FALSE : T_UNKNOWN))
 
 /** NOT */
 #define b3_not(b3)                                                             \
-  ((b3 == T_TRUE) ? T_FALSE : ((b3 == T_FALSE) ? T_TRUE : T_UNKNOWN))
+  (((b3) == T_TRUE) ? T_FALSE : (((b3) == T_FALSE) ? T_TRUE : T_UNKNOWN))
 
 /** Relation operator < */
 #define b3_lessthan(n1, n2)                                                    \
-- 
2.43.0


From 3d7a7c682b3fd1d4f5778a1c7d93d2cca1ef01b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:17 +0000
Subject: [PATCH 20/24] fix: useconds_t2timespec dereferences its whole
 argument

---
 src/time_compat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time_compat.h b/src/time_compat.h
index 71d8559..9a702e3 100644
--- a/src/time_compat.h
+++ b/src/time_compat.h
@@ -219,8 +219,8 @@ typedef timeabs timespanw;
 
 #define useconds_t2timespec(tsp, vsp)                                          \
   do {                                                                         \
-    (vsp)->tv_sec = *tsp / 1000000L;                                           \
-    (vsp)->tv_nsec = (*tsp % 1000000L) * 1000;                                 \
+    (vsp)->tv_sec = *(tsp) / 1000000L;                                         \
+    (vsp)->tv_nsec = (*(tsp) % 1000000L) * 1000;                               \
   } while (0)
 
 #endif //_TIME_COMPAT_H_
-- 
2.43.0


From f006a52cf40d8ed38bd3e87bebdee4588b210e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:39 +0000
Subject: [PATCH 21/24] fix: a stop request is not lost while the task starts

---
 src/task_compat.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index 9cd9090..10519ee 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -193,10 +193,12 @@ struct task {
 
           // trap to block task start
           for (;;) {
-            if (ttask->st == ACTIVATE) {
-              ttask->st = RUNNING;
+            status activated = ACTIVATE;
+            // a concurrent request to stop must not be overwritten
+            if (__atomic_compare_exchange_n(&ttask->st, &activated, RUNNING,
+                                            false, __ATOMIC_SEQ_CST,
+                                            __ATOMIC_SEQ_CST))
               break;
-            }
             if (ttask->st == ABORT) {
               ttask->st = ABORTED;
               return NULL;
-- 
2.43.0


From 922d159deca4ae93ac25f1d96887b96df47a0eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:39 +0000
Subject: [PATCH 22/24] fix: a spurious wake-up does not end the monitoring
 task

---
 src/task_compat.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index 10519ee..5bea0e1 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -245,9 +245,12 @@ struct task {
             }
 
             pthread_mutex_lock(&ttask->fmtx);
-            pcheck_print(
-                pthread_cond_timedwait(&ttask->cond, &ttask->fmtx, &next),
-                ETIMEDOUT, break;);
+            int woken;
+            // a wake-up before the deadline is not the end of the period
+            while ((woken = pthread_cond_timedwait(&ttask->cond, &ttask->fmtx,
+                                                   &next)) == P_OK)
+              ;
+            pcheck_print(woken, ETIMEDOUT, break;);
             pthread_mutex_unlock(&ttask->fmtx);
 
             if (ttask->st == ABORT) {
-- 
2.43.0


From 0aa7d8861ab8310f617eb272d83c05e1703291d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:39 +0000
Subject: [PATCH 23/24] fix: enable leaves a running or stopped monitor as it
 is

---
 src/periodicmonitor.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/periodicmonitor.h b/src/periodicmonitor.h
index 7ece78e..3268710 100644
--- a/src/periodicmonitor.h
+++ b/src/periodicmonitor.h
@@ -143,8 +143,11 @@ template <char... name> void *RTML_monitor<name...>::loop(void *ptr) {
 
 template <char... name> int RTML_monitor<name...>::enable() {
 
-  if (_task.st != ACTIVATE)
-    _task.st = ACTIVATE;
+  status waiting = UNACTIVATE;
+
+  // only a monitor that waits to be started changes its status
+  __atomic_compare_exchange_n(&_task.st, &waiting, ACTIVATE, false,
+                              __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
 
   return P_OK;
 }
-- 
2.43.0


From 749d3c2ea76201ecd59bfcccd5072d20e1a1cdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:34 +0000
Subject: [PATCH 24/24] fix: the monitoring task reads its period once per
 deadline

---
 src/task_compat.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index 5bea0e1..bb74b8c 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -223,7 +223,9 @@ struct task {
             DEBUGV3_APPEND("period=%luus ", ttask->period);
 
             // convert useconds_t to struct timespec
-            useconds_t2timespec(&ttask->period, &tmp);
+            // (the period may be changed meanwhile, read it once)
+            const useconds_t period = ttask->period;
+            useconds_t2timespec(&period, &tmp);
 
             DEBUGV3_APPEND("period=%lus.%luns ", L(tmp.tv_sec), tmp.tv_nsec);
             DEBUGV3_APPEND("old_next=%lus.%luns ", L(next.tv_sec),
-- 
2.43.0

