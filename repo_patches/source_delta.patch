From 2db9cb769ebbf3e3011135bc631af2d5a2cd8944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:16 +0000
Subject: [PATCH 01/26] fix: concurrent writers overwrite each other's
 alternate state

Every writer whose own state was current prepared its next push in the
single buffer-wide state, so two writers could prepare different pushes in
the same memory, or one could rewrite the state that had become current.
Give every writer two private states instead.
---
 src/atomic_compat.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 5d6797c..8040cfd 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -228,10 +228,14 @@ union page_t {
   std::atomic<page_t> page =                                                   \
       ATOMIC_VAR_INIT({(NATIVE_POINTER_TYPE)&state_global})
 
+/*
+ * Each writer owns two states. At most one of them is the current state of the
+ * buffer, and the other one can be prepared without being seen.
+ */
 #define ATOMIC_PAGE_SWAP()                                                     \
   typedef typename B::state_t state_t;                                         \
-  state_t state;                                                               \
-  state_t *stateref = &state;
+  state_t state[2];                                                            \
+  state_t *stateref = &state[0];
 
 #define ATOMIC_PUSH(body)                                                      \
   bool fail = false;                                                           \
@@ -257,13 +261,10 @@ union page_t {
       goto complete;                                                           \
     }                                                                          \
                                                                                \
-    if (&state == (state_t *)current_page_content.stateref) {                  \
-      /* current state is in use; use buffer state */                          \
-      stateref = (state_t *)&buffer.state_global;                              \
-    } else {                                                                   \
-      /* use current state */                                                  \
-      stateref = (state_t *)&state;                                            \
-    }                                                                          \
+    /* use the state that is not in use */                                     \
+    stateref = &state[0] == (state_t *)current_page_content.stateref           \
+                   ? &state[1]                                                 \
+                   : &state[0];                                                \
                                                                                \
     /* copy state */                                                           \
     stateref->bottom = ((state_t *)current_page_content.stateref)->bottom;     \
-- 
2.43.0


From 187b8c86ac92e035c90abef03930bb02c54e9a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:20 +0000
Subject: [PATCH 02/26] fix: a push can wait forever for an event that is
 already gone

While waiting for the last push to be complete, push compared the slot of
the state it had loaded once with that state's event. Once other pushes
replaced that state the comparison could never succeed again, and an event
equal to what the slot held before counted as stored too early. Load the
page again while waiting, and record completion in the state.
---
 src/atomic_compat.h | 25 +++++++++++++++----------
 src/writer.h        |  2 ++
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 8040cfd..446f808 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -206,9 +206,10 @@ union page_t {
   struct __state {                                                             \
     size_t top;                                                                \
     size_t bottom;                                                             \
-    /* variables that can help to confirm that the last value is ready */      \
+    /* the last push, and whether its event is already in the slot pos */      \
     size_t pos;                                                                \
     event_t event;                                                             \
+    bool ready;                                                                \
   };                                                                           \
                                                                                \
   typedef struct __state state_t
@@ -224,7 +225,7 @@ union page_t {
 
 #define ATOMIC_PAGE()                                                          \
   state_t state_global = {                                                     \
-      .top = 0, .bottom = 0, .pos = 0, .event = event_t()};                    \
+      .top = 0, .bottom = 0, .pos = 0, .event = event_t(), .ready = true};     \
   std::atomic<page_t> page =                                                   \
       ATOMIC_VAR_INIT({(NATIVE_POINTER_TYPE)&state_global})
 
@@ -240,7 +241,6 @@ union page_t {
 #define ATOMIC_PUSH(body)                                                      \
   bool fail = false;                                                           \
   page_t current_page_content, new_page_content;                               \
-  typename B::event_t evt;                                                     \
   do {                                                                         \
     if (fail) {                                                                \
       /* do a yield here */                                                    \
@@ -249,17 +249,17 @@ union page_t {
     }                                                                          \
                                                                                \
     current_page_content = (page_t)std::atomic_load(&buffer.page);             \
-    new_page_content = current_page_content;                                   \
                                                                                \
-  /* give a chance to complete the last push if it is not ready yet */         \
-  complete:                                                                    \
-    buffer.read(evt, ((state_t *)current_page_content.stateref)->pos);         \
-    DEBUGV("%lu\n", ((state_t *)current_page_content.stateref)->pos);          \
-    if (!(((state_t *)current_page_content.stateref)->event == evt)) {         \
+    /* give a chance to complete the last push if it is not ready yet; the     \
+     * page is loaded again since other pushes may happen in the meantime */   \
+    while (!__atomic_load_n(                                                   \
+        &((state_t *)current_page_content.stateref)->ready,                    \
+        __ATOMIC_ACQUIRE)) {                                                   \
       /* do a yield here */                                                    \
       YIELD();                                                                 \
-      goto complete;                                                           \
+      current_page_content = (page_t)std::atomic_load(&buffer.page);           \
     }                                                                          \
+    new_page_content = current_page_content;                                   \
                                                                                \
     /* use the state that is not in use */                                     \
     stateref = &state[0] == (state_t *)current_page_content.stateref           \
@@ -275,12 +275,17 @@ union page_t {
                                                                                \
     /* copy remaining state */                                                 \
     stateref->event = event;                                                   \
+    stateref->ready = false;                                                   \
                                                                                \
     DEBUG_FRAME();                                                             \
   } while (                                                                    \
       fail = !(std::atomic_compare_exchange_strong(                            \
           &buffer.page, &current_page_content, (update(new_page_content)))));
 
+/* the event of the last push is in its slot; the next push can begin */
+#define ATOMIC_PUSH_READY()                                                    \
+  __atomic_store_n(&stateref->ready, true, __ATOMIC_RELEASE)
+
 #else
 
 #warning "Atomic guarantees are not supported!"
diff --git a/src/writer.h b/src/writer.h
index 3ad6ffa..6f6d588 100644
--- a/src/writer.h
+++ b/src/writer.h
@@ -121,6 +121,7 @@ typename B::error_t RTML_writer<B>::push(typename B::event_t &event) {
   });
 
   buffer.write(event, top);
+  ATOMIC_PUSH_READY();
 
 #endif
 
@@ -150,6 +151,7 @@ typename B::error_t RTML_writer<B>::push_all(typename B::event_t &event) {
   });
 
   buffer.write(event, top);
+  ATOMIC_PUSH_READY();
 
 #endif
 
-- 
2.43.0


From f4abf2888b3f4ca25bd0eeeec9417fba318aef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:05 +0000
Subject: [PATCH 03/26] fix: the buffer state read during a push can mix
 several states

state() read bottom, top and the timestamps one after the other while a
push could replace the state or reuse its memory, and read the timestamp
of an event that is not stored yet from its slot. Read again until the
page did not change, and take a pending event's timestamp from the state.
---
 src/atomic_compat.h  | 32 ++++++++++++++++++++++++++------
 src/circularbuffer.h | 12 +++++++-----
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 446f808..87ad572 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -56,9 +56,12 @@ typedef unsigned int uint32_t;
 #define _bottom() __bottom
 #define _top() __top
 
-#define ATOMIC_TRIPLE(b, t)                                                    \
+#define ATOMIC_TRIPLE(b, t, body)                                              \
   b = _bottom();                                                               \
-  t = _top();
+  t = _top();                                                                  \
+  { body }
+
+#define ATOMIC_TIME(i) array[i].getTime()
 
 /* Software */
 #elif defined(__riscv) || defined(__arm__) || defined(__i386__) ||             \
@@ -218,10 +221,27 @@ union page_t {
   ((state_t *)(((page_t)std::atomic_load(&page)).stateref))->bottom
 #define _top() ((state_t *)(((page_t)std::atomic_load(&page)).stateref))->top
 
-#define ATOMIC_TRIPLE(b, t)                                                    \
-  state_t *s = ((state_t *)(((page_t)std::atomic_load(&page)).stateref));      \
-  b = s->bottom;                                                               \
-  t = s->top;
+/*
+ * Reads bottom and top of the current state, and what body reads besides, again
+ * until the page did not change in the meantime.
+ */
+#define ATOMIC_TRIPLE(b, t, body)                                              \
+  state_t *s;                                                                  \
+  page_t page_before, page_after;                                              \
+  do {                                                                         \
+    page_before = (page_t)std::atomic_load(&page);                             \
+    s = (state_t *)page_before.stateref;                                       \
+    b = s->bottom;                                                             \
+    t = s->top;                                                                \
+    { body }                                                                   \
+    page_after = (page_t)std::atomic_load(&page);                              \
+  } while (page_before.wide_uniqueid != page_after.wide_uniqueid);
+
+/* timestamp of the event at index i, which may not be in its slot yet */
+#define ATOMIC_TIME(i)                                                         \
+  ((i == s->pos && !__atomic_load_n(&s->ready, __ATOMIC_ACQUIRE))              \
+       ? s->event.getTime()                                                    \
+       : array[i].getTime())
 
 #define ATOMIC_PAGE()                                                          \
   state_t state_global = {                                                     \
diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index 636de15..7992d2d 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -246,7 +246,7 @@ typename RTML_buffer<T, N>::error_t RTML_buffer<T, N>::write(event_t &event,
 template <typename T, size_t N>
 typename RTML_buffer<T, N>::error_t RTML_buffer<T, N>::state(size_t &b,
                                                              size_t &t) const {
-  ATOMIC_TRIPLE(b, t);
+  ATOMIC_TRIPLE(b, t, );
 
   DEBUGV3("b=0x%x t=0x%x\n", b, t);
 
@@ -257,10 +257,12 @@ template <typename T, size_t N>
 typename RTML_buffer<T, N>::error_t
 RTML_buffer<T, N>::state(size_t &b, size_t &t, timespanw &ts,
                          timespanw &ts_t) const {
-  state(b, t);
-
-  ts = array[b].getTime();
-  ts_t = array[t].getTime();
+  ATOMIC_TRIPLE(b, t, {
+    if (b < size && t < size) {
+      ts = ATOMIC_TIME(b);
+      ts_t = array[t].getTime();
+    }
+  });
 
   DEBUGV3("timestamp=[0x%x,0x%x] b=0x%x t=0x%x\n", L(ts >> 32), L(ts), b, t);
 
-- 
2.43.0


From a0ccc8168d94a646fa43fbcb4a9e1e4894c35503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:48 +0000
Subject: [PATCH 04/26] fix: a reader can pull an event that is being
 overwritten or stored

pull took an event and only afterwards compared its successor with the slot
it came from, so an event overwritten in the meantime was handed out, and a
successor that was reserved but not stored yet left the reader with a
timestamp of the past. Check the event against the buffer's oldest timestamp
after reading it, and do not go on to an event that is not stored yet.
---
 src/reader.h | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/reader.h b/src/reader.h
index f2320c6..d1451c6 100644
--- a/src/reader.h
+++ b/src/reader.h
@@ -161,10 +161,26 @@ RTML_reader<B>::pull(typename B::event_t &event) {
   const int delta = 1;
 
   if (length() > delta) {
+    typename B::event_t event_now;
+    size_t b, t, next = bottom + 1 >= buffer.size ? 0 : bottom + 1;
+    timespanw ts, ts_t;
+
     // read in an atomic way
-    if (buffer.read(event, bottom) != buffer.OK)
+    if (buffer.read(event_now, bottom) != buffer.OK ||
+        buffer.read(event_next, next) != buffer.OK)
       return READ_ERROR;
 
+    // the event may have been discarded before or while it was read
+    buffer.state(b, t, ts, ts_t);
+    if (timestamp < ts)
+      return READER_OVERFLOW;
+
+    // the next event is reserved but not in its slot yet
+    if (event_next.getTime() < event_now.getTime())
+      return UNAVAILABLE;
+
+    event = event_now;
+
     // update local bottom
     increment_reader_bottom();
 
@@ -172,17 +188,9 @@ RTML_reader<B>::pull(typename B::event_t &event) {
 
     // use last known timestamp (delta bigger than one may help to find the
     // right timestamp)
-    if (buffer.read(event_next, bottom) == buffer.OK) {
-      timestamp = event_next.getTime();
+    timestamp = event_next.getTime();
 
-      if (gap())
-        return READER_OVERFLOW;
-      else
-        return AVAILABLE;
-    } else {
-      decrement_reader_bottom();
-      return READ_ERROR;
-    }
+    return AVAILABLE;
   }
 
   return UNAVAILABLE;
-- 
2.43.0


From 792f939868af3082bd18518d31ff43c9c6d6ed08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:48 +0000
Subject: [PATCH 05/26] fix: synchronize reports gaps that did not happen and
 misses real ones

A reader that had taken nothing, everything, or whose window had wrapped was
told GAP and sent back over events it had already read, and a loss could go
unnoticed. A reader lost something exactly when the oldest stored event is
newer than the one it would read next.
---
 src/reader.h | 31 ++++++++-----------------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/src/reader.h b/src/reader.h
index d1451c6..54d8b7b 100644
--- a/src/reader.h
+++ b/src/reader.h
@@ -231,38 +231,23 @@ typename RTML_reader<B>::gap_error_t RTML_reader<B>::synchronize() {
          "timestamp=%lu, (bottom,top)=(%u,%u)\n",
          t < b, b < t, t == b, b, t, ts, ts_t, timestamp, bottom, top);
 
-  if (t < b) {
-    DEBUGV("1-> t < b (with overlap)\n");
-    
-    if (gap() == GAP) {
+  if (t != b) {
+    if (timestamp < ts) {
+      // the next event to read was discarded (or this is the first time)
       DEBUGV("gap!\n");
       top = t;
       bottom = b;
       timestamp = ts;
-      return GAP;
+
+      return GAP; // HARD_SYNC
     }
-    
+
     // update top (no gap found)
     top = t;
-    return NO_GAP; // SOFT_SYNC
-
-  } else if (b < t) {
-    DEBUGV("2-> b < t (without overlap)\n");
-    if (ts < timestamp && timestamp < ts_t) {
-      // update top (no gap found)
-      top = t;
 
-      return NO_GAP; // SOFT_SYNC
-    } else {
-      // reader is out of sync
-      top = t;
-      bottom = (b < bottom && b < t) ? bottom : b;
-      timestamp = (b < bottom && b < t) ? timestamp : ts;
-
-      return GAP; // HARD_SYNC
-    }
+    return NO_GAP; // SOFT_SYNC
   } else {
-    DEBUGV("3-> b == t (initial case)\n");
+    DEBUGV("b == t (initial case)\n");
     /*
      * This can be triggered in the begining to syncronize the reader for
      * the first time.
-- 
2.43.0


From bb453ad116f0a94b7489b8f1f3955adb027c287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:07 +0000
Subject: [PATCH 06/26] fix: a buffer refers to the memory of writers that no
 longer exist

The current state of a buffer lives in the writer that pushed last; once that
writer was destroyed the buffer read whatever took its place. A writer that
goes away now moves the state into the buffer.
---
 src/atomic_compat.h | 27 +++++++++++++++++++++++++++
 src/writer.h        |  7 +++++++
 2 files changed, 34 insertions(+)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 87ad572..ed16338 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -49,6 +49,7 @@ typedef unsigned int uint32_t;
 #define ATOMIC_TYPE()
 #define ATOMIC_PAGE()
 #define ATOMIC_PAGE_SWAP()
+#define ATOMIC_PAGE_RELEASE()
 
 #define ATOMIC(body)                                                           \
   { body }
@@ -246,6 +247,7 @@ union page_t {
 #define ATOMIC_PAGE()                                                          \
   state_t state_global = {                                                     \
       .top = 0, .bottom = 0, .pos = 0, .event = event_t(), .ready = true};     \
+  bool releasing = false;                                                      \
   std::atomic<page_t> page =                                                   \
       ATOMIC_VAR_INIT({(NATIVE_POINTER_TYPE)&state_global})
 
@@ -306,6 +308,31 @@ union page_t {
 #define ATOMIC_PUSH_READY()                                                    \
   __atomic_store_n(&stateref->ready, true, __ATOMIC_RELEASE)
 
+/*
+ * Moves the current state of the buffer out of a writer that is going away. Only
+ * one writer at a time may use the buffer state for that.
+ */
+#define ATOMIC_PAGE_RELEASE()                                                  \
+  page_t current_page_content, new_page_content;                               \
+  while (__atomic_test_and_set(&buffer.releasing, __ATOMIC_ACQUIRE)) {         \
+    YIELD();                                                                   \
+  }                                                                            \
+  current_page_content = (page_t)std::atomic_load(&buffer.page);               \
+  do {                                                                         \
+    stateref = (state_t *)current_page_content.stateref;                       \
+    if (stateref != &state[0] && stateref != &state[1])                        \
+      break;                                                                   \
+    buffer.state_global.bottom = stateref->bottom;                             \
+    buffer.state_global.top = stateref->top;                                   \
+    buffer.state_global.pos = stateref->pos;                                   \
+    buffer.state_global.event = stateref->event;                               \
+    buffer.state_global.ready = true;                                          \
+    stateref = (state_t *)&buffer.state_global;                                \
+    new_page_content = current_page_content;                                   \
+  } while (!(std::atomic_compare_exchange_strong(                              \
+      &buffer.page, &current_page_content, (update(new_page_content)))));      \
+  __atomic_clear(&buffer.releasing, __ATOMIC_RELEASE);
+
 #else
 
 #warning "Atomic guarantees are not supported!"
diff --git a/src/writer.h b/src/writer.h
index 6f6d588..36d27a4 100644
--- a/src/writer.h
+++ b/src/writer.h
@@ -75,6 +75,11 @@ public:
    */
   RTML_writer(B &buffer);
 
+  /**
+   * Detaches from the buffer, which may outlive its writers.
+   */
+  ~RTML_writer();
+
   /**
    * push an event to the Buffer.
    *
@@ -95,6 +100,8 @@ RTML_writer<B>::RTML_writer(B &_buffer) : buffer(_buffer) {
   buffer.increment_writer();
 }
 
+template <typename B> RTML_writer<B>::~RTML_writer() { ATOMIC_PAGE_RELEASE(); }
+
 template <typename B>
 typename B::error_t RTML_writer<B>::push(typename B::event_t &event) {
 
-- 
2.43.0


From dba2bd2670db59d0f2c6c0a4095927f1126e76c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:37 +0000
Subject: [PATCH 07/26] fix: assigning a buffer makes both share the source's
 state

operator= copied the reference to the current state, so pushing to or pulling
from one buffer moved the positions of the other. Copy the state itself.
---
 src/atomic_compat.h  | 14 ++++++++++++++
 src/circularbuffer.h | 11 ++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index ed16338..ae60589 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -50,6 +50,7 @@ typedef unsigned int uint32_t;
 #define ATOMIC_PAGE()
 #define ATOMIC_PAGE_SWAP()
 #define ATOMIC_PAGE_RELEASE()
+#define ATOMIC_ASSIGN(rhs)
 
 #define ATOMIC(body)                                                           \
   { body }
@@ -251,6 +252,19 @@ union page_t {
   std::atomic<page_t> page =                                                   \
       ATOMIC_VAR_INIT({(NATIVE_POINTER_TYPE)&state_global})
 
+/* takes over a copy of the current state of another buffer */
+#define ATOMIC_ASSIGN(rhs)                                                     \
+  state_t *stateref =                                                          \
+      (state_t *)(((page_t)std::atomic_load(&rhs.page)).stateref);             \
+  page_t new_page_content = (page_t)std::atomic_load(&page);                   \
+  state_global.bottom = stateref->bottom;                                      \
+  state_global.top = stateref->top;                                            \
+  state_global.pos = stateref->pos;                                            \
+  state_global.event = stateref->event;                                        \
+  state_global.ready = true;                                                   \
+  stateref = &state_global;                                                    \
+  std::atomic_store(&page, (update(new_page_content)));
+
 /*
  * Each writer owns two states. At most one of them is the current state of the
  * buffer, and the other one can be prepared without being seen.
diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index 7992d2d..8eb9bb4 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -298,7 +298,16 @@ template <typename T, size_t N> void RTML_buffer<T, N>::debug() const {
 
 template <typename T, size_t N>
 RTML_buffer<T, N> &RTML_buffer<T, N>::operator=(const RTML_buffer<T, N> &rhs) {
-  MEMCPY(this, &rhs, sizeof(rhs));
+  if (this != &rhs) {
+    for (size_t i = 0; i < N + 2; i++)
+      array[i] = rhs.array[i];
+    __top = rhs.__top;
+    __bottom = rhs.__bottom;
+    writer = rhs.writer;
+
+    // the state of rhs is not to be shared
+    ATOMIC_ASSIGN(rhs);
+  }
   return *this;
 }
 
-- 
2.43.0


From 87cdff0c01433eee3a37f5327d19b8cc54e49cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:37 +0000
Subject: [PATCH 08/26] fix: read_previous at slot 0 looks for slot -1

The cursor is unsigned, so the test for a wrap-around never succeeded and the
previous event of a window that wraps was reported as unavailable.
---
 src/rmtld3/reader.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rmtld3/reader.h b/src/rmtld3/reader.h
index 876dc9c..d663fcc 100644
--- a/src/rmtld3/reader.h
+++ b/src/rmtld3/reader.h
@@ -251,8 +251,8 @@ RMTLD3_reader<R, P>::read_previous(typename R::buffer_t::event_t &e) {
                 R::length());
   return ((consumed() > 0 &&
            cursor != R::bottom && // [TODO: check this: !(cursor == R::bottom)]
-           (R::buffer.read(e, ((cursor - 1) < 0) ? R::buffer.size - 1
-                                                 : cursor - 1)) ==
+           (R::buffer.read(e, (cursor == 0) ? R::buffer.size - 1
+                                               : cursor - 1)) ==
                R::buffer.OK))
              ? R::AVAILABLE
              : R::UNAVAILABLE;
-- 
2.43.0


From 9b44619b49c1030fdf484af73e644c3650845b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:25 +0000
Subject: [PATCH 09/26] fix: seeking backwards leaves the cursor behind the
 event in force

set() compares the previous event with the current one but stayed on the
current one when they matched; until's in-between step made up for it, and
was wrong whenever the search ran forwards.
---
 src/rmtld3/formulas.h | 1 -
 src/rmtld3/reader.h   | 4 +++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 66dde65..6f928ad 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -141,7 +141,6 @@ three_valued_type until_less(T &trace, timespan &t) {
 
           size_t store_cursor2 = trace.get_cursor();
           trace.set(t3);
-          trace.decrement_cursor();
           symbol = eval_b(trace, t3, symbol);
           trace.set_cursor(store_cursor2);
         };
diff --git a/src/rmtld3/reader.h b/src/rmtld3/reader.h
index d663fcc..067380f 100644
--- a/src/rmtld3/reader.h
+++ b/src/rmtld3/reader.h
@@ -131,11 +131,13 @@ typename R::error_t RMTLD3_reader<R, P>::set(timespan &t) {
 
     DEBUGV_RMTLD3("--- %lu %lu\n", e.getTime(), ee.getTime());
 
+    decrement_cursor();
+
+    // the previous event is the one in force at time t
     if (e.getTime() <= t && t < ee.getTime()) {
       return R::AVAILABLE;
     }
 
-    decrement_cursor();
     DEBUGV_RMTLD3("backward cursor=%d\n", cursor);
   }
 
-- 
2.43.0


From af9b4624395eca7e1fe3b8f2e08a577495a5ef1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:40 +0000
Subject: [PATCH 10/26] fix: reading at the end of a trace returns the content
 of a free slot

read() with the cursor past the last event handed out whatever the free slot
held and reported it as available.
---
 src/rmtld3/reader.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rmtld3/reader.h b/src/rmtld3/reader.h
index 067380f..8228deb 100644
--- a/src/rmtld3/reader.h
+++ b/src/rmtld3/reader.h
@@ -127,6 +127,10 @@ typename R::error_t RMTLD3_reader<R, P>::set(timespan &t) {
 
   typename R::buffer_t::event_t e, ee;
 
+  // there is no event at the end; begin with the last one
+  if (cursor == R::top)
+    decrement_cursor();
+
   while (read_previous(e) == R::AVAILABLE && read(ee) == R::AVAILABLE) {
 
     DEBUGV_RMTLD3("--- %lu %lu\n", e.getTime(), ee.getTime());
@@ -228,8 +232,9 @@ template <typename R, typename P>
 typename R::error_t
 RMTLD3_reader<R, P>::read(typename R::buffer_t::event_t &e) {
 
-  return (R::buffer.read(e, cursor) == R::buffer.OK) ? R::AVAILABLE
-                                                     : R::UNAVAILABLE;
+  return (cursor != R::top && R::buffer.read(e, cursor) == R::buffer.OK)
+             ? R::AVAILABLE
+             : R::UNAVAILABLE;
 }
 
 template <typename R, typename P>
-- 
2.43.0


From c67cbbe7f45503e4372d2c09c18d598b18ff6b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:15 +0000
Subject: [PATCH 11/26] fix: events that differ only in data are neither equal
 nor different

Event::operator!= compared the times only, so for two events with the same
time and different data both == and != were false.
---
 src/event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event.h b/src/event.h
index 8b06ea1..2b990fc 100644
--- a/src/event.h
+++ b/src/event.h
@@ -315,7 +315,7 @@ template <typename T> bool Event<T>::operator==(Event<T> const &event) const {
 }
 
 template <typename T> bool Event<T>::operator!=(Event<T> const &event) const {
-  return time != event.time;
+  return !(*this == event);
 }
 
 template <typename T> bool Event<T>::operator<(const timespan &ttime) const {
-- 
2.43.0


From d4a0d2b36ed900b5fe67c46531ce58970359ee7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:38 +0000
Subject: [PATCH 12/26] fix: nested verdict macros give wrong verdicts

The three-valued connectives expand to unparenthesised conditional
expressions over unparenthesised arguments, so that for example
b3_and(b3_and(x, y), z) does not group as written.
---
 src/rmtld3/rmtld3.h | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/rmtld3/rmtld3.h b/src/rmtld3/rmtld3.h
index 340175c..d5446c4 100644
--- a/src/rmtld3/rmtld3.h
+++ b/src/rmtld3/rmtld3.h
@@ -45,32 +45,33 @@ inline duration mult_dur(const duration &lhs, const duration &rhs) {
 
 // type conversion from three_valued_type to four_valued_type
 #define b3_to_b4(b3)                                                           \
-  (b3 == T_TRUE) ? FV_TRUE : ((b3 == T_FALSE) ? FV_FALSE : FV_UNKNOWN)
+  (((b3) == T_TRUE) ? FV_TRUE : (((b3) == T_FALSE) ? FV_FALSE : FV_UNKNOWN))
 
 // convert four_valued_type into three_valued type
 #define b4_to_b3(b4)                                                           \
-  (b4 == FV_TRUE) ? T_TRUE : ((b4 == FV_FALSE) ? T_FALSE : T_UNKNOWN)
+  (((b4) == FV_TRUE) ? T_TRUE : (((b4) == FV_FALSE) ? T_FALSE : T_UNKNOWN))
 
 /** OR */
 #define b3_or(b31, b32)                                                        \
-  (b31 == T_TRUE || b32 == T_TRUE)                                             \
-      ? T_TRUE                                                                 \
-      : ((b31 == T_FALSE && b32 == T_FALSE) ? T_FALSE : T_UNKNOWN)
+  (((b31) == T_TRUE || (b32) == T_TRUE)                                        \
+       ? T_TRUE                                                                \
+       : (((b31) == T_FALSE && (b32) == T_FALSE) ? T_FALSE : T_UNKNOWN))
 
 /** AND */
 #define b3_and(b31, b32)                                                       \
-  (b31 == T_TRUE && b32 == T_TRUE)                                             \
-      ? T_TRUE                                                                 \
-      : ((b31 == T_FALSE || b32 == T_FALSE) ? T_FALSE : T_UNKNOWN)
+  (((b31) == T_TRUE && (b32) == T_TRUE)                                        \
+       ? T_TRUE                                                                \
+       : (((b31) == T_FALSE || (b32) == T_FALSE) ? T_FALSE : T_UNKNOWN))
 
 /** NOT */
 #define b3_not(b3)                                                             \
-  ((b3 == T_TRUE) ? T_FALSE : ((b3 == T_FALSE) ? T_TRUE : T_UNKNOWN))
+  (((b3) == T_TRUE) ? T_FALSE : (((b3) == T_FALSE) ? T_TRUE : T_UNKNOWN))
 
 /** Relation operator < */
 #define b3_lessthan(n1, n2)                                                    \
-  ((n1.second || n2.second) ? T_UNKNOWN                                        \
-                            : ((n1.first < n2.first) ? T_TRUE : T_FALSE))
+  (((n1).second || (n2).second)                                                \
+       ? T_UNKNOWN                                                             \
+       : (((n1).first < (n2).first) ? T_TRUE : T_FALSE))
 
 #define ASSERT_RMTLD3(l) assert(l)
 
@@ -127,13 +128,13 @@ static int r = 0;
 #endif
 
 #define out_p(res)                                                             \
-  (res == T_TRUE) ? "true" : ((res == T_FALSE) ? "false" : "unknown")
+  (((res) == T_TRUE) ? "true" : (((res) == T_FALSE) ? "false" : "unknown"))
 
 #define out_fv(fv)                                                             \
-  (fv == FV_TRUE)                                                              \
-      ? "true"                                                                 \
-      : ((fv == FV_FALSE) ? "false"                                            \
-                          : ((fv == FV_UNKNOWN) ? "unknown" : "symbol"))
+  (((fv) == FV_TRUE)                                                           \
+       ? "true"                                                                \
+       : (((fv) == FV_FALSE) ? "false"                                         \
+                             : (((fv) == FV_UNKNOWN) ? "unknown" : "symbol")))
 
 extern int count_until_iterations;
 
-- 
2.43.0


From b1a3c0a5eb85655705b0fc97877da4d8912f1080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:57 +0000
Subject: [PATCH 13/26] fix: in-between evaluation of until looks beyond its
 interval

With with_in_between until_less also evaluates its operands at instants
t3 >= t + b, which do not belong to the interval.
---
 src/rmtld3/formulas.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 6f928ad..e211b25 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -134,7 +134,8 @@ three_valued_type until_less(T &trace, timespan &t) {
           t2 = e2.getTime();
           t3 += (t2 - t1);
 
-          if (t3 >= t1)
+          // before the next event and before the end of the interval
+          if (t3 >= t1 || t3 >= b + t)
             break;
 
           DEBUGV_RMTLD3("t1=%d t2=%d t3=%d\n", t1, t2, t3);
-- 
2.43.0


From cbed69614a1d751e1c1407fcc9fcfc4cab7f9ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:20 +0000
Subject: [PATCH 14/26] fix: eventually/always at a point decide before the
 trace gets there

eventually_equal returned the operand's value at the newest event, although
later events not after t + b may still change it.
---
 src/rmtld3/formulas.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index e211b25..f026b02 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -210,7 +210,8 @@ three_valued_type eventually_equal(T &trace, timespan &t) {
   trace.set_cursor(c_eventually); // reset the cursor changes during the
                                   // evaluation of the subformula
 
-  return symbol;
+  // the event in force at t + b is not known before the trace gets there
+  return (c_time < b + t) ? T_UNKNOWN : symbol;
 }
 
 /**
-- 
2.43.0


From c7317fcaeb152b259b85fa575899c7e99779145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:43 +0000
Subject: [PATCH 15/26] fix: unbounded eventually is false on a finite trace

When the operand is false up to the newest event eventually_less_unbounded
returned T_FALSE, and T_TRUE or T_UNKNOWN after later events.
---
 src/rmtld3/formulas.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index f026b02..29698ae 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -253,7 +253,8 @@ three_valued_type eventually_less_unbounded(T &trace, timespan &t) {
   trace.set_cursor(c_eventually); // reset the cursor changes during the
                                   // evaluation of the subformula
 
-  return symbol;
+  // a later event may still satisfy the operand
+  return (symbol == T_FALSE) ? T_UNKNOWN : symbol;
 }
 
 /**
-- 
2.43.0


From adfe3497a0482797120ccc55239c7d50eac15481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:06 +0000
Subject: [PATCH 16/26] fix: since is false when the history is too short and
 unknown otherwise

The final test of since_less (and so of historically_less) was copied from
until_less without turning it around: when no event decides, the verdict is
known only if the trace reaches back to t - b.
---
 src/rmtld3/formulas.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 29698ae..4cd1e9d 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -352,7 +352,8 @@ three_valued_type since_less(T &trace, timespan &t) {
     do {
       DEBUGV_RMTLD3("t=%d c_time=%lu len=%d\n", t, c_time, trace.length());
 
-      trace.read(event);
+      if (trace.read(event) != trace.AVAILABLE)
+        break;
       c_time = event.getTime();
 
       if (c_time == t) /* since semantics is strict and non-matching */
@@ -388,7 +389,7 @@ three_valued_type since_less(T &trace, timespan &t) {
                              // of the subformula
 
   return (eval_c.first == FV_SYMBOL)
-             ? ((eval_c.second < t - b) ? T_UNKNOWN : T_FALSE)
+             ? ((eval_c.second > t - b) ? T_UNKNOWN : T_FALSE)
              : b4_to_b3(eval_c.first);
 }
 
-- 
2.43.0


From 93546ce420e10a7d0a0f9c8b11cbf601e13eabac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:29 +0000
Subject: [PATCH 17/26] fix: past eventually/historically at a point miss the
 event in force there

pasteventually_equal stopped before evaluating the event in force at t - b,
and so returned the operand's value at a later event, or T_UNKNOWN.
---
 src/rmtld3/formulas.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 4cd1e9d..bccb504 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -415,9 +415,6 @@ three_valued_type pasteventually_equal(T &trace, timespan &t) {
     if (c_time == t) /* since semantics is strict and non-matching */
       continue;
 
-    if (t>=b && c_time <= t - b)
-      break;
-
     size_t c = trace.get_cursor();
     DEBUGV_RMTLD3("$compute phi\n");
     symbol = E::eval_phi1(trace, c_time);
@@ -426,6 +423,10 @@ three_valued_type pasteventually_equal(T &trace, timespan &t) {
         c); // reset the cursor changes during the evaluation of the subformula
 
     trace.debug();
+
+    /* this is the event in force at t - b */
+    if (t>=b && c_time <= t - b)
+      break;
   } while (trace.decrement_cursor() == trace.AVAILABLE &&
            trace.read(event) == trace.AVAILABLE);
 
-- 
2.43.0


From 9c23f97e378eea064fddacc0e595572db23d2670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:51 +0000
Subject: [PATCH 18/26] fix: duration counts time outside of its interval

duration_term counted the whole rest of the first event's interval also when
t + t_upper lies inside it, and then went on with events after t + t_upper,
so that a duration could exceed its bound and change after it was known.
---
 src/rmtld3/terms.h | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/rmtld3/terms.h b/src/rmtld3/terms.h
index 9991fc8..2a18bf2 100644
--- a/src/rmtld3/terms.h
+++ b/src/rmtld3/terms.h
@@ -56,30 +56,21 @@ duration duration_term(T &trace, timespan &t) {
     trace.read(event);
     auto c_time = event.getTime();
 
-    // find lower condition
-    if (c_time_prev <= t && t < c_time) {
-      acc.first = (c_time - t) * symbol.first;
-      acc.second = symbol.second;
+    // the part of [t, t + t_upper] in which the previous event is in force
+    if (t < c_time && c_time_prev <= t + t_upper) {
+      auto lower = (c_time_prev < t) ? t : c_time_prev;
+      auto upper = (t + t_upper < c_time) ? t + t_upper : c_time;
 
-      DEBUGV_RMTLD3("dur lower(%ld)\n", c_time_prev);
-    }
-    // find upper condition
-    else if (c_time_prev <= t + t_upper && t + t_upper < c_time) {
-      acc.first += (t + t_upper - c_time_prev) * symbol.first;
+      acc.first += (upper - lower) * symbol.first;
       acc.second |= symbol.second;
+    }
 
-      DEBUGV_RMTLD3("dur upper(%ld)\n", c_time);
-
+    // the interval is complete
+    if (t + t_upper < c_time) {
       DEBUGV_RMTLD3("duration=%ld unknown=%d (%d,%d)\n", acc.first, acc.second,
                     c_time_prev, c_time);
       break;
     }
-    // in between
-    else {
-
-      acc.first += (c_time - c_time_prev) * symbol.first;
-      acc.second |= symbol.second;
-    }
 
     symbol = indicator_function(trace, c_time);
 
-- 
2.43.0


From f603e76a863ab10c7c5d1dc7f35611f7059dcadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:35 +0000
Subject: [PATCH 19/26] fix: a task may start before it is activated

The status was set after its thread was created, so the thread read an
uninitialised status first.
---
 src/task_compat.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index f21fd2c..7030233 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -168,15 +168,13 @@ struct task {
 
     DEBUGV_APPEND("\n");
 
-    st = UNACTIVATE;
-
     return 0;
   }
 
   task(char const *id, void *(*loop)(void *), const int prio,
        const int sch_policy, const useconds_t p, void *payload = NULL)
-      : tid(id), period(p), sched_policy(sch_policy), priority(prio), run(loop),
-        run_payload(payload) {
+      : tid(id), period(p), sched_policy(sch_policy), priority(prio),
+        st(UNACTIVATE), run(loop), run_payload(payload) {
     create_task(
         [](void *tsk) -> void * {
           struct task *ttask = (struct task *)tsk;
-- 
2.43.0


From 277609be70a87fa75a4a433aab4610fddfe47cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:33 +0000
Subject: [PATCH 20/26] fix: a monitor disabled before its first job never
 terminates

The thread polled for ACTIVATE only, and its transition to RUNNING could
overwrite a concurrent disable().
---
 src/task_compat.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index 7030233..9faa72b 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -190,10 +190,11 @@ struct task {
 
           // trap to block task start
           for (;;) {
-            if (ttask->st == ACTIVATE) {
-              ttask->st = RUNNING;
+            if (__sync_bool_compare_and_swap(&ttask->st, ACTIVATE, RUNNING))
               break;
-            }
+            // the task was disabled before its first job
+            if (__sync_bool_compare_and_swap(&ttask->st, ABORT, ABORTED))
+              return NULL;
             nanosleep((const struct timespec[]){{0, 100000L}}, NULL);
           }
 
-- 
2.43.0


From eb6452163e42e14f7e05308875df5ebe10736211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:17 +0000
Subject: [PATCH 21/26] fix: enabling a running monitor makes it report that it
 is not running

Its status went back to ACTIVATE for good.
---
 src/periodicmonitor.h | 7 +++++--
 src/task_compat.h     | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/periodicmonitor.h b/src/periodicmonitor.h
index 7ece78e..1fc48d3 100644
--- a/src/periodicmonitor.h
+++ b/src/periodicmonitor.h
@@ -143,8 +143,11 @@ template <char... name> void *RTML_monitor<name...>::loop(void *ptr) {
 
 template <char... name> int RTML_monitor<name...>::enable() {
 
-  if (_task.st != ACTIVATE)
-    _task.st = ACTIVATE;
+  // a monitor that is running already stays so
+  status st = _task.st;
+  while (st != ACTIVATE && st != RUNNING &&
+         !__sync_bool_compare_and_swap(&_task.st, st, ACTIVATE))
+    st = _task.st;
 
   return P_OK;
 }
diff --git a/src/task_compat.h b/src/task_compat.h
index 9faa72b..e19ccad 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -247,6 +247,9 @@ struct task {
               return NULL;
             }
 
+            // the task was activated again
+            __sync_bool_compare_and_swap(&ttask->st, ACTIVATE, RUNNING);
+
             ttask->run(ttask->run_payload);
           }
 
-- 
2.43.0


From 9fc77b03a0a2f83702b423e9a323431463298000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:05 +0000
Subject: [PATCH 22/26] fix: a spurious wake-up ends the task

The timed wait returning early left the loop, with the mutex locked.
---
 src/task_compat.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index e19ccad..d5129a1 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -236,11 +236,14 @@ struct task {
                            ttask->tid, L(tmp.tv_sec), tmp.tv_nsec);
             }
 
+            // wait until next; the wait may also wake up without a reason
+            int ret;
             pthread_mutex_lock(&ttask->fmtx);
-            pcheck_print(
-                pthread_cond_timedwait(&ttask->cond, &ttask->fmtx, &next),
-                ETIMEDOUT, break;);
+            do {
+              ret = pthread_cond_timedwait(&ttask->cond, &ttask->fmtx, &next);
+            } while (ret == P_OK);
             pthread_mutex_unlock(&ttask->fmtx);
+            pcheck_print(ret, ETIMEDOUT, break;);
 
             if (ttask->st == ABORT) {
               ttask->st = ABORTED;
-- 
2.43.0


From 3f2e511b9ef36cd50ef19f24248784c1b926b349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:11 +0000
Subject: [PATCH 23/26] fix: printing a buffer reads an element beyond its end

---
 src/circularbuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index 8eb9bb4..b2d3d40 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -286,7 +286,7 @@ template <typename T, size_t N> void RTML_buffer<T, N>::debug() const {
 
   DEBUGV3("[CONTENT]\n");
   DEBUGV3("----------\n");
-  for (unsigned int idx = 0; idx < size + 2; idx++) {
+  for (unsigned int idx = 0; idx < size + 1; idx++) {
     if (idx % 2 == 0)
       DEBUGV3_APPEND("\n");
     array[idx].debug();
-- 
2.43.0


From e9ddd0fc4142f06df4f52976bfa1ed16ac0b767b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:11 +0000
Subject: [PATCH 24/26] fix: the writer does not compile for hardware synthesis

---
 src/writer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer.h b/src/writer.h
index 36d27a4..22595fa 100644
--- a/src/writer.h
+++ b/src/writer.h
@@ -108,7 +108,7 @@ typename B::error_t RTML_writer<B>::push(typename B::event_t &event) {
   typename B::error_t err;
 
 #if defined(__HW__)
-#error "Please use push_all instead!"
+  static_assert(sizeof(B) == 0, "Please use push_all instead!");
 #else
   size_t top;
 
-- 
2.43.0


From c12cd78ae88be5114eeb002bf813e1242960a820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:11 +0000
Subject: [PATCH 25/26] fix: since takes the time before the trace for a
 negative one where times have no sign

---
 src/rmtld3/formulas.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index bccb504..0f116bb 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -389,7 +389,7 @@ three_valued_type since_less(T &trace, timespan &t) {
                              // of the subformula
 
   return (eval_c.first == FV_SYMBOL)
-             ? ((eval_c.second > t - b) ? T_UNKNOWN : T_FALSE)
+             ? ((t < b || eval_c.second > t - b) ? T_UNKNOWN : T_FALSE)
              : b4_to_b3(eval_c.first);
 }
 
-- 
2.43.0


From 330f7f739cb8dd3cf8bfc4ce7874fbddd6234ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:27 +0000
Subject: [PATCH 26/26] fix: seeking fails when the window has moved on without
 the cursor

---
 src/rmtld3/reader.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rmtld3/reader.h b/src/rmtld3/reader.h
index 8228deb..7579bb1 100644
--- a/src/rmtld3/reader.h
+++ b/src/rmtld3/reader.h
@@ -127,6 +127,10 @@ typename R::error_t RMTLD3_reader<R, P>::set(timespan &t) {
 
   typename R::buffer_t::event_t e, ee;
 
+  // the window has moved on without the cursor; begin with the oldest event
+  if (length() > R::length())
+    reset();
+
   // there is no event at the end; begin with the last one
   if (cursor == R::top)
     decrement_cursor();
-- 
2.43.0

