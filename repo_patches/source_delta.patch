From f3668a570f4f7d54faab900d210d9c747069cfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 01/42] fix: circular buffer reports and reads one element too
 many when full

---
 gel/collections/circular_buffer.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index 172eca2..389cd05 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -108,16 +108,14 @@ size_t circular_buf_size(circular_buf_t *cbuf) {
     if (!cbuf)
         return 0;
 
-    size_t size = cbuf->bufsize;
-
-    int tail = cbuf->tail;
-    int head = cbuf->head;
-    if (!is_circular_buf_full(cbuf)) {
-        if (head >= tail) {
-            size = (head - tail);
-        } else {
-            size = (cbuf->bufsize + head - tail);
-        }
+    size_t size;
+
+    size_t tail = cbuf->tail;
+    size_t head = cbuf->head;
+    if (head >= tail) {
+        size = (head - tail);
+    } else {
+        size = (cbuf->bufsize + head - tail);
     }
 
     return size;
-- 
2.43.0


From b41482bbc1aade99bd762b1d26e1201515da8e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 02/42] fix: circular buffer overruns by one when the data
 exactly reaches the read position

---
 gel/collections/circular_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index 389cd05..c63fe92 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -164,7 +164,7 @@ int circular_buf_puts(circular_buf_t *cbuf, GEL_CBUF_TYPE *data, size_t len) {
             else
                 chunk = len > cbuf->bufsize - head ? cbuf->bufsize - head : len;
         } else {
-            chunk = len > tail - head ? tail - head - 1 : len;
+            chunk = len >= tail - head ? tail - head - 1 : len;
         }
 
         memcpy(&cbuf->buffer[head], data, chunk * sizeof(GEL_CBUF_TYPE));
-- 
2.43.0


From aca54cdbb456b06d74a0c5fd4102c72640d04165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 03/42] fix: circular buffer bulk write loops forever when the
 consumer drains concurrently

---
 gel/collections/circular_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index c63fe92..c720ce8 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -155,9 +155,9 @@ int circular_buf_puts(circular_buf_t *cbuf, GEL_CBUF_TYPE *data, size_t len) {
         return -1;
 
     head = cbuf->head;
-    tail = cbuf->tail;
     while (!is_circular_buf_full(cbuf) && len > 0) {
         int chunk;
+        tail = cbuf->tail;     // The consumer may have moved it in the meantime
         if (head >= tail) {
             if (tail == 0)     // If the tail is at the beginning of the array I have to make sure they won't collide
                 chunk = len > cbuf->bufsize - head - 1 ? cbuf->bufsize - head - 1 : len;
-- 
2.43.0


From 28cf1f4411d4fb9b9f0b071b0bb462c950da4a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 04/42] fix: queue count is huge once the write index wraps

---
 gel/collections/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/queue.h b/gel/collections/queue.h
index f536c0a..93bc389 100644
--- a/gel/collections/queue.h
+++ b/gel/collections/queue.h
@@ -37,7 +37,7 @@ typedef enum {
     }                                                                                                                  \
                                                                                                                        \
     size_t NAME##_count(struct NAME *p_queue) {                                                                        \
-        return p_queue->write_idx - p_queue->read_idx;                                                                 \
+        return (uint16_t)(p_queue->write_idx - p_queue->read_idx);                                                     \
     }                                                                                                                  \
                                                                                                                        \
     enqueue_result_t NAME##_enqueue(struct NAME *p_queue, ITEM_TYPE *p_new_item) {                                     \
-- 
2.43.0


From ef20f0ae271ec7881d87cccaad9539fe0ee148cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 05/42] fix: stack peek returns the slot after the top item

---
 gel/collections/stack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/stack.h b/gel/collections/stack.h
index 4dfcbb4..16996e9 100644
--- a/gel/collections/stack.h
+++ b/gel/collections/stack.h
@@ -61,7 +61,7 @@ typedef enum {
         }                                                                                                              \
                                                                                                                        \
         if (p_item_out)                                                                                                \
-            *p_item_out = p_stack->items[p_stack->idx];                                                                \
+            *p_item_out = p_stack->items[p_stack->idx - 1];                                                            \
                                                                                                                        \
         return POP_RESULT_SUCCESS;                                                                                     \
     }                                                                                                                  \
-- 
2.43.0


From 0789b0b5a3198ee4eab9e339b92a37e98eb02621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 06/42] fix: event log window with a huge count overflows and
 reads outside the log

---
 gel/circular_event_log/circular_event_log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/circular_event_log/circular_event_log.c b/gel/circular_event_log/circular_event_log.c
index ccffdbf..e6e5e0b 100644
--- a/gel/circular_event_log/circular_event_log.c
+++ b/gel/circular_event_log/circular_event_log.c
@@ -35,7 +35,7 @@ int circular_event_log_load_last_events(circular_event_log_t logger, uint8_t *ev
         return 0;
     }
     size_t actual_number = number;
-    if (jump + actual_number > total_events) {
+    if (actual_number > total_events - jump) {
         actual_number = total_events - jump;
     }
 
-- 
2.43.0


From 92decab7b6e3915ddefae35bba4a8faeacfd0905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 07/42] fix: event log hides a storage failure in the second
 part of a wrapped load

---
 gel/circular_event_log/circular_event_log.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gel/circular_event_log/circular_event_log.c b/gel/circular_event_log/circular_event_log.c
index e6e5e0b..c0dc03a 100644
--- a/gel/circular_event_log/circular_event_log.c
+++ b/gel/circular_event_log/circular_event_log.c
@@ -49,7 +49,11 @@ int circular_event_log_load_last_events(circular_event_log_t logger, uint8_t *ev
         }
 
         size_t second_round = actual_number - to_read;
-        return res + logger.load_events(&events[to_read * logger.event_size], second_round, 0);
+        int    second_res   = logger.load_events(&events[to_read * logger.event_size], second_round, 0);
+        if (second_res < 0) {
+            return second_res;
+        }
+        return res + second_res;
     } else {
         return logger.load_events(&events[0], actual_number, start);
     }
-- 
2.43.0


From bbf5a5f9d6e82b70250f7ce76cb7df7559dc3905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 08/42] fix: struct update array length expression is not
 parenthesised

---
 gel/data_structures/struct_update.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/data_structures/struct_update.h b/gel/data_structures/struct_update.h
index 1e9bb18..b2d2cde 100644
--- a/gel/data_structures/struct_update.h
+++ b/gel/data_structures/struct_update.h
@@ -35,7 +35,7 @@
  * length: number of elements to be used for the modification (follows pointer aritmetic)
  */
 #define STRUCT_UPDATE_ARRAY(object, field, array, length)                                                              \
-    struct_update_from_data(offsetof(typeof(object), field), array, sizeof(array[0]) * length);
+    struct_update_from_data(offsetof(typeof(object), field), array, sizeof(array[0]) * (length));
 
 
 typedef struct {
-- 
2.43.0


From 7bb0210f7e11e964579b8b6620c11381e2d21c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 09/42] fix: clearing watcher changes leaves an already pending
 delayed callback armed

---
 gel/data_structures/watcher.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gel/data_structures/watcher.c b/gel/data_structures/watcher.c
index 089a0f5..8457b5e 100644
--- a/gel/data_structures/watcher.c
+++ b/gel/data_structures/watcher.c
@@ -40,12 +40,12 @@ void watcher_clear_changes(watcher_t *list, unsigned long timestamp) {
     size_t i = 0;
 
     while (list[i].current) {
-        if (memcmp((uint8_t *)list[i].old, (uint8_t *)list[i].current, list[i].size)) {
-            if (list[i].delay > 0) {
-                list[i].timestamp = timestamp;
-                list[i].moved     = 0;
-            }
+        if (list[i].delay > 0) {
+            list[i].timestamp = timestamp;
+            list[i].moved     = 0;
+        }
 
+        if (memcmp((uint8_t *)list[i].old, (uint8_t *)list[i].current, list[i].size)) {
             memcpy((uint8_t *)list[i].old, (uint8_t *)list[i].current, list[i].size);
         }
         i++;
-- 
2.43.0


From 7e4a44069b6d3556e2643ac733c22c6ca5443ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 10/42] fix: presetting a debounce filter keeps half-done
 debounce runs

---
 gel/debounce/debounce.c | 103 +++++++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 49 deletions(-)

diff --git a/gel/debounce/debounce.c b/gel/debounce/debounce.c
index f7caea5..4ae2141 100755
--- a/gel/debounce/debounce.c
+++ b/gel/debounce/debounce.c
@@ -1,50 +1,55 @@
-#include "debounce.h"
-
-#define BOOL(x)            ((x) > 0)
-#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
-
-void debounce_filter_init(debounce_filter_t *filter) {
-    int i;
-
-    filter->buffered = 0;
-    for (i = 0; i < NUM_INPUTS; i++) {
-        filter->debounce_count[i] = 0;
-    }
-    filter->old_input = 0;
-}
-
-void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
-    filter->old_input = set;
-    filter->buffered  = set;
-}
-
-unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
-    unsigned int change = 0;
-    size_t i            = 0;
-
-    for (i = 0; i < NUM_INPUTS; i++)
-        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
-
-    return change;
-}
-
-unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
-    unsigned int change = 0;
-
-    if (BOOL(input) == NTH(filter->old_input, i)) {
-        filter->debounce_count[i] = 0;
-    } else {
-        if (filter->debounce_count[i] > 0)
-            filter->debounce_count[i]--;
-        else
-            filter->debounce_count[i] = debounce;
-
-        if (filter->debounce_count[i] == 0) {
-            filter->buffered  = SET_NTH(filter->buffered, i, input);
-            filter->old_input = SET_NTH(filter->old_input, i, input);
-            change            = SET_NTH(change, i, 1);
-        }
-    }
-
-    return change;
+#include "debounce.h"
+
+#define BOOL(x)            ((x) > 0)
+#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
+
+void debounce_filter_init(debounce_filter_t *filter) {
+    int i;
+
+    filter->buffered = 0;
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+    filter->old_input = 0;
+}
+
+void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
+    int i;
+
+    filter->old_input = set;
+    filter->buffered  = set;
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+}
+
+unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
+    unsigned int change = 0;
+    size_t i            = 0;
+
+    for (i = 0; i < NUM_INPUTS; i++)
+        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
+
+    return change;
+}
+
+unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
+    unsigned int change = 0;
+
+    if (BOOL(input) == NTH(filter->old_input, i)) {
+        filter->debounce_count[i] = 0;
+    } else {
+        if (filter->debounce_count[i] > 0)
+            filter->debounce_count[i]--;
+        else
+            filter->debounce_count[i] = debounce;
+
+        if (filter->debounce_count[i] == 0) {
+            filter->buffered  = SET_NTH(filter->buffered, i, input);
+            filter->old_input = SET_NTH(filter->old_input, i, input);
+            change            = SET_NTH(change, i, 1);
+        }
+    }
+
+    return change;
 }
\ No newline at end of file
-- 
2.43.0


From 6719e1f6643ef37c479b4664986f498c6b627ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 11/42] fix: pulse filter initialisation leaves the debounce
 runs uninitialised

---
 gel/debounce/pulsecounter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gel/debounce/pulsecounter.c b/gel/debounce/pulsecounter.c
index b530b8e..0cd63a4 100644
--- a/gel/debounce/pulsecounter.c
+++ b/gel/debounce/pulsecounter.c
@@ -8,8 +8,10 @@ void pulse_filter_init(pulse_filter_t *filter, pulse_type_t type, unsigned int i
 
     filter->old_input = init;
     filter->type      = type;
-    for (i = 0; i < PULSE_NUM; i++)
+    for (i = 0; i < PULSE_NUM; i++) {
+        filter->filters[i] = 0;
         pulse_clear(filter, i);
+    }
 }
 
 int pulse_filter(pulse_filter_t *filter, unsigned int input, int debounce) {
-- 
2.43.0


From b0bd153a7bbbbc149654e796dfc19934cc6a047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 12/42] fix: keypad key seen while another one is pending stays
 on after it is let go

---
 gel/keypad/keypad.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gel/keypad/keypad.c b/gel/keypad/keypad.c
index 2c8ed7d..1af265a 100755
--- a/gel/keypad/keypad.c
+++ b/gel/keypad/keypad.c
@@ -34,6 +34,10 @@ keypad_update_t keypad_routine(keypad_key_t *keys, unsigned long click, unsigned
             event.code = keys[i].code;
             break;
         }
+        // Otherwise the key is not pressed, even if it was seen while another one was still pending
+        else {
+            keys[i]._state.value = 0;
+        }
         i++;
     }
 
-- 
2.43.0


From b3d9177fafeadfdbac845ae65d41f0d8fa7882a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 13/42] fix: page manager interface is disabled with #if 0 and
 the module does not compile

---
 gel/pagemanager/page_manager.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/gel/pagemanager/page_manager.h b/gel/pagemanager/page_manager.h
index c618a41..a4716d5 100644
--- a/gel/pagemanager/page_manager.h
+++ b/gel/pagemanager/page_manager.h
@@ -17,8 +17,6 @@
 #error "Configuration not defined"
 #endif
 
-#if 0
-
 typedef struct {
     int              id;
     pman_page_data_t data;
@@ -144,6 +142,5 @@ pman_view_t pman_swap_page(page_manager_t *pman, pman_model_t model, pman_page_t
 pman_view_t pman_reset_to_page(page_manager_t *pman, pman_model_t model, int id, uint8_t *found);
 
 pman_message_t pman_process_page_event(page_manager_t *pman, pman_model_t model, pman_event_t event);
-#endif
 
 #endif
-- 
2.43.0


From 1ec3d11c0679ea6b6d579b8e3b217e77a457cadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 14/42] fix: page manager leaves a page that does not exist
 when swapping, rebasing or resetting without one

---
 gel/pagemanager/page_manager.c | 41 +++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/gel/pagemanager/page_manager.c b/gel/pagemanager/page_manager.c
index 627fc57..ee02b88 100644
--- a/gel/pagemanager/page_manager.c
+++ b/gel/pagemanager/page_manager.c
@@ -37,13 +37,17 @@ pman_message_t pman_process_page_event(page_manager_t *pman, pman_model_t model,
 pman_view_t pman_swap_page_extra(page_manager_t *pman, pman_model_t model, pman_page_t newpage, void *extra) {
     pman_page_t *current = &pman->current_page;
 
-    if (current->close) {
-        current->close(current->data);
-    }
-    if (current->destroy) {
-        current->destroy(current->data, current->extra);
+    // There is nothing to leave if no page is current
+    if (pman->initialized) {
+        if (current->close) {
+            current->close(current->data);
+        }
+        if (current->destroy) {
+            current->destroy(current->data, current->extra);
+        }
     }
 
+    pman->initialized        = 1;
     pman->current_page       = newpage;
     pman->current_page.extra = extra;
     // Create the newpage
@@ -76,11 +80,14 @@ pman_view_t pman_swap_page(page_manager_t *pman, pman_model_t model, pman_page_t
 pman_view_t pman_reset_to_page(page_manager_t *pman, pman_model_t model, int id, uint8_t *found) {
     pman_page_t *current = &pman->current_page;
 
-    if (current->close) {
-        current->close(current->data);
-    }
-    if (current->destroy) {
-        current->destroy(current->data, current->extra);
+    // There is nothing to leave if no page is current
+    if (pman->initialized) {
+        if (current->close) {
+            current->close(current->data);
+        }
+        if (current->destroy) {
+            current->destroy(current->data, current->extra);
+        }
     }
     // Deinitialize the stack, we currently have no page
     pman->initialized = 0;
@@ -119,15 +126,19 @@ pman_view_t pman_reset_to_page(page_manager_t *pman, pman_model_t model, int id,
 pman_view_t pman_rebase_page_extra(page_manager_t *pman, pman_model_t model, pman_page_t newpage, void *extra) {
     pman_page_t *current = &pman->current_page;
 
-    if (current->close) {
-        current->close(current->data);
-    }
-    if (current->destroy) {
-        current->destroy(current->data, current->extra);
+    // There is nothing to leave if no page is current
+    if (pman->initialized) {
+        if (current->close) {
+            current->close(current->data);
+        }
+        if (current->destroy) {
+            current->destroy(current->data, current->extra);
+        }
     }
 
     clear_page_stack(pman);
 
+    pman->initialized        = 1;
     pman->current_page       = newpage;
     pman->current_page.extra = extra;
     // Create the newpage
-- 
2.43.0


From d776bb0bd3e1458cca731466150e10beedd45bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 15/42] fix: page manager does not save the previous page when
 assertions are disabled

---
 gel/pagemanager/page_manager.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gel/pagemanager/page_manager.c b/gel/pagemanager/page_manager.c
index ee02b88..5bde699 100644
--- a/gel/pagemanager/page_manager.c
+++ b/gel/pagemanager/page_manager.c
@@ -181,7 +181,9 @@ pman_view_t pman_change_page_extra(page_manager_t *pman, pman_model_t model, pma
         if (current->close)
             current->close(current->data);
 
-        assert(navigation_stack_push(&pman->page_stack, current) != PUSH_RESULT_FULL);
+        push_result_t res = navigation_stack_push(&pman->page_stack, current);
+        assert(res != PUSH_RESULT_FULL);
+        (void)res;
     } else {
         pman->initialized = 1;
     }
-- 
2.43.0


From 869a06a5331d0566f7aef7b9288d01dfa7b0d646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 16/42] fix: 64 bit parameter limits, defaults and steps are
 truncated to 32 bits

---
 gel/parameter/parameter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.h b/gel/parameter/parameter.h
index 1bde379..965981b 100755
--- a/gel/parameter/parameter.h
+++ b/gel/parameter/parameter.h
@@ -97,7 +97,7 @@
 #define _PARAMETER_FIELD_UINT64 u64
 #define _PARAMETER_FIELD_INT64  i64
 #define _PARAMETER_FIELD_DOUBLE d
-#define CAST64(x)               ((uint32_t)(x)&0xFFFFFFFFFFFFFFFF)
+#define CAST64(x)               ((uint64_t)(x)&0xFFFFFFFFFFFFFFFF)
 #define CASTDOUBLE(x)           ((double)(x))
 #else
 #define _PARAMETER_FIELD_UINT64 u8
-- 
2.43.0


From d0f43bbcd55269181075a0b24e3c3f7468a76164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 17/42] fix: negative 8 bit parameters convert to the wrong
 long

---
 gel/parameter/parameter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index 198da31..51c7fa3 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -147,7 +147,7 @@ long parameter_to_long(parameter_handle_t *handle) {
             case PARAMETER_TYPE_UINT8:
                 return (long)*(uint8_t *)handle->pointer;
             case PARAMETER_TYPE_INT8:
-                return (long)*(uint8_t *)handle->pointer;
+                return (long)*(int8_t *)handle->pointer;
 #if GEL_PARAMETER_MAX_SIZE >= 2
             case PARAMETER_TYPE_UINT16:
                 return (long)*(uint16_t *)handle->pointer;
-- 
2.43.0


From 5fd4888e4cd4169c2f441df6d7dc32382cc10511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 18/42] fix: parameter count leaves out the parameters with
 free access

---
 gel/parameter/parameter.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index 51c7fa3..d5b3f24 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -287,7 +287,8 @@ size_t parameter_get_count(parameter_handle_t *ps, size_t length, unsigned int a
         if (ps[i].runtime)
             ps[i].runtime(&ps[i], ps[i].arg);
 
-        if ((ps[i].access_level & al) > 0)
+        // A null access level means free access
+        if (ps[i].access_level == 0 || ((ps[i].access_level & al) > 0))
             count++;
     }
 
-- 
2.43.0


From 7a9d693f7cbf43cbd121f20f352b52f3289cd27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 19/42] fix: parameter range check accepts not-a-number values

---
 gel/parameter/parameter.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index d5b3f24..1729ad1 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -19,9 +19,9 @@
         TYPE min = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                    \
         TYPE max = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                                    \
         int  res = 0;                                                                                                  \
-        if (newv > max)                                                                                                \
+        if (!(newv <= max))                                                                                            \
             res = 1;                                                                                                   \
-        else if (newv < min)                                                                                           \
+        else if (!(newv >= min))                                                                                       \
             res = -1;                                                                                                  \
         res;                                                                                                           \
     })
@@ -33,9 +33,9 @@
         TYPE  min = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                   \
         TYPE  max = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                                   \
         int   res = 0;                                                                                                 \
-        if (*var > max)                                                                                                \
+        if (!(*var <= max))                                                                                            \
             res = 1;                                                                                                   \
-        else if (*var < min)                                                                                           \
+        else if (!(*var >= min))                                                                                       \
             res = -1;                                                                                                  \
         res;                                                                                                           \
     })
-- 
2.43.0


From 398d4482edcc9c577a7770eb629bc950d4d0811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 20/42] fix: stepping a parameter by an amount that overflows
 leaves it at an arbitrary value

---
 gel/parameter/parameter.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index 1729ad1..03b0e40 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -42,6 +42,31 @@
 
 
 #define APPLY_OPERATOR(p, TYPE, name, mod)                                                                             \
+    {                                                                                                                  \
+        TYPE *var  = (TYPE *)p.pointer;                                                                                \
+        TYPE  min  = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                  \
+        TYPE  max  = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                                  \
+        TYPE  newv = *var;                                                                                             \
+        int   down = (p.step.name < 0) != ((mod) < 0);                                                                 \
+        /* Neither the distance nor its sum with the value have to fit in an integer */                                \
+        unsigned long long step = p.step.name < 0 ? 0ULL - p.step.name : p.step.name;                                  \
+        unsigned long long steps = (mod) < 0 ? 0ULL - (mod) : (mod);                                                   \
+        int res = __builtin_mul_overflow(step, steps, &step);                                                          \
+        if (down)                                                                                                      \
+            res = __builtin_sub_overflow(*var, step, &newv) || res;                                                    \
+        else                                                                                                           \
+            res = __builtin_add_overflow(*var, step, &newv) || res;                                                    \
+        res = res || CHECK_RANGE_AGAINST(p, newv, TYPE, name);                                                         \
+        if (res != 0 && mod > 0)                                                                                       \
+            *var = min;                                                                                                \
+        else if (res != 0 && mod < 0)                                                                                  \
+            *var = max;                                                                                                \
+        else                                                                                                           \
+            *var = newv;                                                                                               \
+    }
+
+
+#define APPLY_OPERATOR_FLOAT(p, TYPE, name, mod)                                                                       \
     {                                                                                                                  \
         TYPE *var  = (TYPE *)p.pointer;                                                                                \
         TYPE  min  = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                  \
@@ -331,12 +356,12 @@ int parameter_operator(parameter_handle_t *handle, int mod) {
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 4
             case PARAMETER_TYPE_FLOAT:
-                APPLY_OPERATOR((*handle), float, f, mod);
+                APPLY_OPERATOR_FLOAT((*handle), float, f, mod);
                 break;
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 8
             case PARAMETER_TYPE_DOUBLE:
-                APPLY_OPERATOR((*handle), double, d, mod);
+                APPLY_OPERATOR_FLOAT((*handle), double, d, mod);
                 break;
 #endif
         }
-- 
2.43.0


From 22e66abcb9cec2e159f314b6c4cc08922bfc2bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 21/42] fix: number of values of a wide parameter range
 overflows

---
 gel/parameter/parameter.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index 03b0e40..f3c139f 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -83,6 +83,14 @@
 
 
 #define GET_RANGE(p, TYPE, name)                                                                                       \
+    ({                                                                                                                 \
+        TYPE min = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                    \
+        TYPE max = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                                    \
+        (size_t)max - (size_t)min + 1;                                                                                 \
+    })
+
+
+#define GET_RANGE_FLOAT(p, TYPE, name)                                                                                 \
     ({                                                                                                                 \
         TYPE min = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                    \
         TYPE max = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                                    \
@@ -560,12 +568,12 @@ size_t parameter_get_total_values(parameter_handle_t *handle) {
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 4
             case PARAMETER_TYPE_FLOAT:
-                len = GET_RANGE((*handle), float, f);
+                len = GET_RANGE_FLOAT((*handle), float, f);
                 break;
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 8
             case PARAMETER_TYPE_DOUBLE:
-                len = GET_RANGE((*handle), double, d);
+                len = GET_RANGE_FLOAT((*handle), double, d);
                 break;
 #endif
         }
-- 
2.43.0


From 692b71720d727943294bdeb0c2b23e5bfef6226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 22/42] fix: parameter declared with a pointer expression gets
 the wrong type

---
 gel/parameter/parameter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.h b/gel/parameter/parameter.h
index 965981b..993bd71 100755
--- a/gel/parameter/parameter.h
+++ b/gel/parameter/parameter.h
@@ -136,7 +136,7 @@
                           type##_CAST(step), (lvl), (udata), (runtime), (arg)})
 
 #define PARAMETER_FULL(ptr, pmin, pmax, min, max, def, step, lvl, udata, runtime, arg)                                 \
-    ((parameter_handle_t){_PARAMETER_VALUE_TYPE(*ptr), (ptr), (pmin), (pmax),                                          \
+    ((parameter_handle_t){_PARAMETER_VALUE_TYPE(*(ptr)), (ptr), (pmin), (pmax),                                        \
                           _PARAMETER_LIMIT_VALUE_OPTION(*(ptr), (min)), _PARAMETER_LIMIT_VALUE_OPTION(*(ptr), (max)),  \
                           _PARAMETER_LIMIT_VALUE_OPTION(*(ptr), (def)), _PARAMETER_LIMIT_VALUE_OPTION(*(ptr), (step)), \
                           (lvl), (udata), (runtime), (arg)})
-- 
2.43.0


From e1d23b9c414092b242380afe0cc25a0a209ce5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 23/42] fix: pid input without error keeps the contribution of
 an old input

---
 gel/pid/pid.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gel/pid/pid.c b/gel/pid/pid.c
index 4e0b502..65ececd 100644
--- a/gel/pid/pid.c
+++ b/gel/pid/pid.c
@@ -50,6 +50,8 @@ void pid_add_input(pid_ctrl_t *pid, pid_control_type_t value) {
             pid->history[pid->index] = error;
         else
             pid->history[pid->index] = 0;
+    } else {
+        pid->history[pid->index] = 0;
     }
 
     pid->index = (pid->index + 1) % GEL_PID_INTEGRAL_HISTORY_SIZE;
-- 
2.43.0


From cb626c982b30ed7c738d61509f6b15b5e960cd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 24/42] fix: scheduler breaks ties on values truncated to 8
 bits

---
 gel/scheduler/scheduler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index d202768..b927fcf 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -113,7 +113,7 @@ int scheduler_is_active(scheduler_t *scheduler, struct tm *tm_info) {
 int scheduler_get_active_entry_number(scheduler_t *scheduler, struct tm *tm_info) {
     uint8_t       found      = 0;
     unsigned long foundtotal = 0;
-    uint8_t       foundvalue = 0;
+    int           foundvalue = 0;
     int           foundid    = -1;
 
     for (size_t i = 0; i < NUM_ENTRIES(scheduler); i++) {
-- 
2.43.0


From fb00f0a367088fc73ce8b3b5d1bad39bacdaa62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 25/42] fix: scheduler overlap check ignores the part of an
 entry past midnight

---
 gel/scheduler/scheduler.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index b927fcf..79799c8 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -140,7 +140,8 @@ int scheduler_get_active_entry_number(scheduler_t *scheduler, struct tm *tm_info
 
 
 size_t scheduler_are_there_overlapping_entries(scheduler_t *scheduler, const scheduler_entry_t *entry) {
-#define INCLUDED(instant, entry) (instant >= entry->start_second && instant <= entry->end_second)
+#define INCLUDED(instant, entry)                                                                                       \
+    ((instant >= entry->start_second && instant <= entry->end_second) || instant + seconds_in_day <= entry->end_second)
     size_t found = 0;
 
     for (size_t i = 0; i < NUM_ENTRIES(scheduler); i++) {
-- 
2.43.0


From 632f41a5e742208a5f81f8f7b5e6ae14e008f7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 26/42] fix: scheduler with dynamic entries does not compile

---
 gel/scheduler/scheduler.c | 3 ++-
 gel/scheduler/scheduler.h | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index 79799c8..e2862bc 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -30,7 +30,8 @@ void scheduler_init(scheduler_t *scheduler
 ) {
 #ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
     scheduler->entries = (scheduler_entry_t *)malloc(sizeof(scheduler_entry_t) * entries);
-    assert(scheduler->entries != NULL) scheduler->num_entries = entries;
+    assert(scheduler->entries != NULL);
+    scheduler->num_entries = entries;
 #endif
 
     for (size_t i = 0; i < NUM_ENTRIES(scheduler); i++) {
diff --git a/gel/scheduler/scheduler.h b/gel/scheduler/scheduler.h
index 6757196..a1411e6 100644
--- a/gel/scheduler/scheduler.h
+++ b/gel/scheduler/scheduler.h
@@ -36,8 +36,8 @@ typedef struct {
 
 typedef struct {
 #ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
-    size_t            num_entries;
-    schedule_entry_t *entries;
+    size_t             num_entries;
+    scheduler_entry_t *entries;
 #else
     scheduler_entry_t entries[GEL_SCHEDULER_MAX_ENTRIES];
 #endif
-- 
2.43.0


From ef1a7928dcb7de28b05bc6124e521c91d7ba46e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 27/42] fix: disabled scheduler entries are marked as active
 and have a remaining duration

---
 gel/scheduler/scheduler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index e2862bc..4afad5e 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -88,7 +88,7 @@ int scheduler_disable_schedule_entry(scheduler_t *scheduler, size_t entry_index)
 
 
 static uint8_t is_entry_active(const scheduler_entry_t *entry, struct tm *tm_info) {
-    if (!is_day_included(entry->days, tm_info->tm_wday)) {
+    if (!entry->enabled || !is_day_included(entry->days, tm_info->tm_wday)) {
         return 0;
     }
 
-- 
2.43.0


From df0668109b31df165dae3a88d12dc062e1eb069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 28/42] fix: remaining duration of an overnight scheduler entry
 is a day too long after midnight

---
 gel/scheduler/scheduler.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index 4afad5e..0f7e2f4 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -226,6 +226,11 @@ unsigned long scheduler_get_schedule_remaining_duration(scheduler_t *scheduler,
     unsigned long current = to_seconds(tm_info->tm_hour, tm_info->tm_min, tm_info->tm_sec);
     unsigned long end     = entry->end_second;
 
+    // Already past midnight in an inverted schedule
+    if (current < entry->start_second) {
+        end -= seconds_in_day;
+    }
+
     return end - current;
 }
 
-- 
2.43.0


From 7ac12a235d060a5e8f5f6eb5705c3e70cd7a9750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 29/42] fix: stopping a stopped stopwatch does not return -1 as
 documented

---
 gel/timer/stopwatch.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gel/timer/stopwatch.c b/gel/timer/stopwatch.c
index edac4ef..ed31ebb 100644
--- a/gel/timer/stopwatch.c
+++ b/gel/timer/stopwatch.c
@@ -51,10 +51,12 @@ int stopwatch_start(stopwatch_t *timer, unsigned long timestamp) {
 
 
 int stopwatch_stop(stopwatch_t *timer) {
+    int res = timer->state == TIMER_STOPPED ? -1 : 0;
+
     timer->starting_time = 0;
     timer->elapsed_time  = 0;
     timer->state         = TIMER_STOPPED;
-    return 0;
+    return res;
 }
 
 
-- 
2.43.0


From 9a61478610933334fe3fff309695d66a59ed24c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 30/42] fix: GEL_TIMER_NULL names a field that does not exist

---
 gel/timer/timer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/timer/timer.h b/gel/timer/timer.h
index bfd07fd..3ae0367 100644
--- a/gel/timer/timer.h
+++ b/gel/timer/timer.h
@@ -7,7 +7,7 @@
 
 
 #define GEL_TIMER_NULL                                                                                                 \
-    ((gel_timer_t){.active = 0, .autoreload = 0, .stopwatch = STOPWATCH_NULL, .callback = NULL, .arg = NULL})
+    ((gel_timer_t){.autoreload = 0, .stopwatch = STOPWATCH_NULL, .callback = NULL, .arg = NULL})
 
 
 
-- 
2.43.0


From 06127880baf28eedfc2146690f287eacd96bca71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 31/42] fix: time comparisons are wrong for timestamp types
 narrower than long

---
 gel/timer/timecheck.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gel/timer/timecheck.h b/gel/timer/timecheck.h
index 0050232..64077a0 100644
--- a/gel/timer/timecheck.h
+++ b/gel/timer/timecheck.h
@@ -24,8 +24,12 @@ typedef GEL_CUSTOM_TIMESTAMP_TYPE timestamp_t;
     })
 #endif
 
-#define time_after(a, b)          (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && ((long)((b) - (a)) < 0))
-#define time_after_or_equal(a, b) (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && ((long)((b) - (a)) <= 0))
+// Signed distance between two timestamps, whatever the width of their type
+#define timestamp_diff(a, b)                                                                                           \
+    ((long long)((unsigned long long)((a) - (b)) << (8 * (sizeof(long long) - sizeof(timestamp_t)))))
+
+#define time_after(a, b)          (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && (timestamp_diff(b, a) < 0))
+#define time_after_or_equal(a, b) (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && (timestamp_diff(b, a) <= 0))
 #define time_before(a, b)         time_after(b, a)
 
 #define is_expired(start, current, delay) is_loosely_expired(start, current, delay)
-- 
2.43.0


From c229c34b2d1a1dbfe2a843bd11fea995e3a88cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:46 +0000
Subject: [PATCH 32/42] fix: stopwatch with a period over half the clock range
 is reached at once

---
 gel/timer/stopwatch.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gel/timer/stopwatch.c b/gel/timer/stopwatch.c
index ed31ebb..7fd7dd7 100644
--- a/gel/timer/stopwatch.c
+++ b/gel/timer/stopwatch.c
@@ -19,6 +19,7 @@
  * of total set period, starting time and elapsed time in between pauses, and
  * timer state (paused, stopped or running).
  */
+#include <limits.h>
 #include "stopwatch.h"
 #include "timecheck.h"
 
@@ -145,7 +146,8 @@ int stopwatch_is_timer_reached(stopwatch_t *t, unsigned long timestamp) {
         case TIMER_COUNTING: {
             if (t->total_time > t->elapsed_time) {
                 unsigned long timeleft = t->total_time - t->elapsed_time;
-                return is_expired(t->starting_time, timestamp, timeleft);
+                // Times further than half the clock range away would look like they are in the past
+                return timeleft <= LONG_MAX && is_expired(t->starting_time, timestamp, timeleft);
             } else {
                 return 1;
             }
-- 
2.43.0


From 2354ebdee41c28b6f1346fc2e645a34aeca37524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 33/42] fix: find the last block when every marker is
 consecutive

After a write to the last block of a full page all the markers follow one
another, so the search reaches the end of the page: the last active block is
the last one, not the first (the oldest data in the page).
---
 gel/wearleveling/wearleveling.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/gel/wearleveling/wearleveling.c b/gel/wearleveling/wearleveling.c
index 6e0cf1f..f812a0e 100755
--- a/gel/wearleveling/wearleveling.c
+++ b/gel/wearleveling/wearleveling.c
@@ -116,11 +116,6 @@ static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker) {
         }
     }
 
-    if (i >= wlm->blocks_in_page) {
-        // Something very wrong happened, reset to 0
-        return 0;
-    }
-
     // Return the index of the last active marker
     return i - 1;
 }
\ No newline at end of file
-- 
2.43.0


From aca5dfe81a337dda994d8d15447b3962eb0e195a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 34/42] fix: keep the last good block active when a wear
 leveled write fails

The active block and marker advanced before write_block was known to have
succeeded: after a failed write the memory read back the unwritten block, and
the next write left a gap in the markers.
---
 gel/wearleveling/wearleveling.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gel/wearleveling/wearleveling.c b/gel/wearleveling/wearleveling.c
index f812a0e..38a8e2c 100755
--- a/gel/wearleveling/wearleveling.c
+++ b/gel/wearleveling/wearleveling.c
@@ -54,10 +54,15 @@ int wearleveling_write(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len)
     }
 
     if (memcmp(intermediate_buffer, buffer, len)) {
-        wlm->last_marker       = NEXT_BLOCK(wlm->last_marker, MAX_BLOCKS_IN_PAGE);
-        wlm->last_active_block = NEXT_BLOCK(wlm->last_active_block, wlm->blocks_in_page);
+        uint8_t marker = NEXT_BLOCK(wlm->last_marker, MAX_BLOCKS_IN_PAGE);
+        size_t  block  = NEXT_BLOCK(wlm->last_active_block, wlm->blocks_in_page);
 
-        return wlm->write_block(wlm->last_active_block, wlm->last_marker, buffer, len);
+        if ((res = wlm->write_block(block, marker, buffer, len))) {
+            return res;
+        }
+
+        wlm->last_marker       = marker;
+        wlm->last_active_block = block;
     }
     return 0;
 }
-- 
2.43.0


From a951d8ed05906cf6bc60388d8800da8a23465b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 35/42] fix: do not use a read_marker error code as a block
 index

search_last returned the error of read_marker, which wearleveling_init then
took as the active block: reads and writes went to blocks outside the page.
---
 gel/wearleveling/wearleveling.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/gel/wearleveling/wearleveling.c b/gel/wearleveling/wearleveling.c
index 38a8e2c..37620fc 100755
--- a/gel/wearleveling/wearleveling.c
+++ b/gel/wearleveling/wearleveling.c
@@ -93,22 +93,23 @@ void wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, w
  * @brief Search for the last used block
  *
  * @param wlm Wear leveled memory data structure
- * @return int 0 if everything was ok, something else otherwise
+ * @param last_marker Marker of the last used block
+ * @return int index of the last used block; if a marker cannot be read the search stops at the block before it
  */
 static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker) {
     uint8_t marker;
-    int     err;
 
     // start from 0 and move on
-    if ((err = wlm->read_marker(0, last_marker))) {
-        return err;
+    if (wlm->read_marker(0, last_marker)) {
+        *last_marker = 0;
+        return 0;
     }
 
     size_t i;
     for (i = 1; i < wlm->blocks_in_page; i++) {
         // Read the next marker
-        if ((err = wlm->read_marker(i, &marker))) {
-            return err;
+        if (wlm->read_marker(i, &marker)) {
+            break;
         }
 
         // If the current marker is not the one that should follow from the previous one (i.e. last_marker + 1 with mod
-- 
2.43.0


From 14bc7036a5313296710a30bfa7436a8be8dc3594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:33 +0000
Subject: [PATCH 36/42] fix: restore the line endings of debounce.c

---
 gel/debounce/debounce.c | 108 ++++++++++++++++++++--------------------
 1 file changed, 54 insertions(+), 54 deletions(-)

diff --git a/gel/debounce/debounce.c b/gel/debounce/debounce.c
index 4ae2141..4ca2496 100755
--- a/gel/debounce/debounce.c
+++ b/gel/debounce/debounce.c
@@ -1,55 +1,55 @@
-#include "debounce.h"
-
-#define BOOL(x)            ((x) > 0)
-#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
-
-void debounce_filter_init(debounce_filter_t *filter) {
-    int i;
-
-    filter->buffered = 0;
-    for (i = 0; i < NUM_INPUTS; i++) {
-        filter->debounce_count[i] = 0;
-    }
-    filter->old_input = 0;
-}
-
-void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
-    int i;
-
-    filter->old_input = set;
-    filter->buffered  = set;
-    for (i = 0; i < NUM_INPUTS; i++) {
-        filter->debounce_count[i] = 0;
-    }
-}
-
-unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
-    unsigned int change = 0;
-    size_t i            = 0;
-
-    for (i = 0; i < NUM_INPUTS; i++)
-        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
-
-    return change;
-}
-
-unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
-    unsigned int change = 0;
-
-    if (BOOL(input) == NTH(filter->old_input, i)) {
-        filter->debounce_count[i] = 0;
-    } else {
-        if (filter->debounce_count[i] > 0)
-            filter->debounce_count[i]--;
-        else
-            filter->debounce_count[i] = debounce;
-
-        if (filter->debounce_count[i] == 0) {
-            filter->buffered  = SET_NTH(filter->buffered, i, input);
-            filter->old_input = SET_NTH(filter->old_input, i, input);
-            change            = SET_NTH(change, i, 1);
-        }
-    }
-
-    return change;
+#include "debounce.h"
+
+#define BOOL(x)            ((x) > 0)
+#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
+
+void debounce_filter_init(debounce_filter_t *filter) {
+    int i;
+
+    filter->buffered = 0;
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+    filter->old_input = 0;
+}
+
+void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
+    int i;
+
+    filter->old_input = set;
+    filter->buffered  = set;
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+}
+
+unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
+    unsigned int change = 0;
+    size_t i            = 0;
+
+    for (i = 0; i < NUM_INPUTS; i++)
+        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
+
+    return change;
+}
+
+unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
+    unsigned int change = 0;
+
+    if (BOOL(input) == NTH(filter->old_input, i)) {
+        filter->debounce_count[i] = 0;
+    } else {
+        if (filter->debounce_count[i] > 0)
+            filter->debounce_count[i]--;
+        else
+            filter->debounce_count[i] = debounce;
+
+        if (filter->debounce_count[i] == 0) {
+            filter->buffered  = SET_NTH(filter->buffered, i, input);
+            filter->old_input = SET_NTH(filter->old_input, i, input);
+            change            = SET_NTH(change, i, 1);
+        }
+    }
+
+    return change;
 }
\ No newline at end of file
-- 
2.43.0


From a28f3981a9597d889a7565d7330a14e9602e3727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:29 +0000
Subject: [PATCH 37/42] fix: stopwatch with a period over half a narrower clock
 range is reached at once

---
 gel/timer/stopwatch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gel/timer/stopwatch.c b/gel/timer/stopwatch.c
index 7fd7dd7..6aa9f40 100644
--- a/gel/timer/stopwatch.c
+++ b/gel/timer/stopwatch.c
@@ -19,7 +19,6 @@
  * of total set period, starting time and elapsed time in between pauses, and
  * timer state (paused, stopped or running).
  */
-#include <limits.h>
 #include "stopwatch.h"
 #include "timecheck.h"
 
@@ -147,7 +146,8 @@ int stopwatch_is_timer_reached(stopwatch_t *t, unsigned long timestamp) {
             if (t->total_time > t->elapsed_time) {
                 unsigned long timeleft = t->total_time - t->elapsed_time;
                 // Times further than half the clock range away would look like they are in the past
-                return timeleft <= LONG_MAX && is_expired(t->starting_time, timestamp, timeleft);
+                return timeleft >> (8 * sizeof(timestamp_t) - 1) == 0 &&
+                       is_expired(t->starting_time, timestamp, timeleft);
             } else {
                 return 1;
             }
-- 
2.43.0


From 51f59a67447112ec259c14cf9d721aa379f9c304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:28 +0000
Subject: [PATCH 38/42] fix: serializer macros shadow arguments called tmp or
 size

---
 gel/serializer/serializer.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/gel/serializer/serializer.h b/gel/serializer/serializer.h
index 6738128..e614938 100644
--- a/gel/serializer/serializer.h
+++ b/gel/serializer/serializer.h
@@ -16,41 +16,41 @@
 
 #define UNPACK_UINT16_BE(var, buffer)                                                                                  \
     ({                                                                                                                 \
-        uint16_t tmp;                                                                                                  \
-        size_t   size = deserialize_uint16_be(&tmp, (buffer));                                                         \
-        (var)         = tmp;                                                                                           \
-        size;                                                                                                          \
+        uint16_t __tmp;                                                                                                \
+        size_t   __size = deserialize_uint16_be(&__tmp, (buffer));                                                     \
+        (var)           = __tmp;                                                                                       \
+        __size;                                                                                                        \
     })
 
 #define UNPACK_UINT32_BE(var, buffer)                                                                                  \
     ({                                                                                                                 \
-        uint32_t tmp;                                                                                                  \
-        size_t   size = deserialize_uint32_be(&tmp, (buffer));                                                         \
-        (var)         = tmp;                                                                                           \
-        size;                                                                                                          \
+        uint32_t __tmp;                                                                                                \
+        size_t   __size = deserialize_uint32_be(&__tmp, (buffer));                                                     \
+        (var)           = __tmp;                                                                                       \
+        __size;                                                                                                        \
     })
 
 #define UNPACK_UINT8(var, buffer)                                                                                      \
     ({                                                                                                                 \
-        uint8_t tmp;                                                                                                   \
-        size_t  size = deserialize_uint8(&tmp, (buffer));                                                              \
-        (var)        = tmp;                                                                                            \
-        size;                                                                                                          \
+        uint8_t __tmp;                                                                                                 \
+        size_t  __size = deserialize_uint8(&__tmp, (buffer));                                                          \
+        (var)          = __tmp;                                                                                        \
+        __size;                                                                                                        \
     })
 
 
 #define PACK_UINT16_BE(buffer, var)                                                                                    \
     ({                                                                                                                 \
-        uint16_t tmp  = (uint16_t)(var);                                                                               \
-        size_t   size = serialize_uint16_be((buffer), tmp);                                                            \
-        size;                                                                                                          \
+        uint16_t __tmp  = (uint16_t)(var);                                                                             \
+        size_t   __size = serialize_uint16_be((buffer), __tmp);                                                        \
+        __size;                                                                                                        \
     })
 
 #define PACK_UINT8(buffer, var)                                                                                        \
     ({                                                                                                                 \
-        uint8_t tmp  = (uint8_t)(var);                                                                                 \
-        size_t  size = serialize_uint8((buffer), tmp);                                                                 \
-        size;                                                                                                          \
+        uint8_t __tmp  = (uint8_t)(var);                                                                               \
+        size_t  __size = serialize_uint8((buffer), __tmp);                                                             \
+        __size;                                                                                                        \
     })
 
 
-- 
2.43.0


From bfc03ceb194bcddfd68a828fc0899b574d6b7180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:28 +0000
Subject: [PATCH 39/42] fix: struct update macro shadows a value called _value

---
 gel/data_structures/struct_update.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gel/data_structures/struct_update.h b/gel/data_structures/struct_update.h
index b2d2cde..16ef76b 100644
--- a/gel/data_structures/struct_update.h
+++ b/gel/data_structures/struct_update.h
@@ -21,8 +21,8 @@
  */
 #define STRUCT_UPDATE(object, field, value)                                                                            \
     ({                                                                                                                 \
-        typeof(object.field) _value = value;                                                                           \
-        struct_update_from_data(offsetof(typeof(object), field), &_value, sizeof(object.field));                       \
+        typeof(object.field) __value = value;                                                                          \
+        struct_update_from_data(offsetof(typeof(object), field), &__value, sizeof(object.field));                      \
     })
 
 
-- 
2.43.0


From 9aa2cb86e62262e7fa99f3135a4e7d0d41665e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:28 +0000
Subject: [PATCH 40/42] fix: stopwatch_setngo as the body of an if starts the
 stopwatch anyway

---
 gel/timer/stopwatch.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gel/timer/stopwatch.h b/gel/timer/stopwatch.h
index 295a209..b10e74a 100644
--- a/gel/timer/stopwatch.h
+++ b/gel/timer/stopwatch.h
@@ -20,7 +20,11 @@
 
 #define STOPWATCH_NULL  {.starting_time = 0, .elapsed_time = 0, .total_time = 0, .state = TIMER_STOPPED}
 
-#define stopwatch_setngo(timer, duration, timestamp) stopwatch_set(timer, duration); stopwatch_start(timer, timestamp)
+#define stopwatch_setngo(timer, duration, timestamp)                                                                   \
+    do {                                                                                                               \
+        stopwatch_set(timer, duration);                                                                                \
+        stopwatch_start(timer, timestamp);                                                                             \
+    } while (0)
 
 // Three possible states of a timer
 typedef enum {
-- 
2.43.0


From 0131e176ff5cdfcaa79dad45adb4aee20a2bf830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:08 +0000
Subject: [PATCH 41/42] fix: active entries map reports entries beyond its 16
 bits as others

---
 gel/scheduler/scheduler.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index 0f7e2f4..d7ba328 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -204,7 +204,8 @@ int scheduler_get_first_available_entry(scheduler_t *scheduler) {
 uint16_t scheduler_get_active_entries_map(scheduler_t *scheduler, struct tm *tm_info) {
     uint16_t result = 0;
 
-    for (size_t i = 0; i < NUM_ENTRIES(scheduler); i++) {
+    // The map only has room for the first 16 entries
+    for (size_t i = 0; i < NUM_ENTRIES(scheduler) && i < 16; i++) {
         result |= (is_entry_active(&scheduler->entries[i], tm_info) ? 1 : 0) << i;
     }
 
-- 
2.43.0


From fefed60958c5fceb6caf13e0047c3bd965643352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:22 +0000
Subject: [PATCH 42/42] fix: timer callback cannot stop or restart its own
 timer

---
 gel/timer/timer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gel/timer/timer.c b/gel/timer/timer.c
index 9c13e58..e83afe1 100644
--- a/gel/timer/timer.c
+++ b/gel/timer/timer.c
@@ -70,6 +70,10 @@ void gel_timer_change_period(gel_timer_t *timer, unsigned long period, unsigned
 uint8_t gel_timer_manage_callback(gel_timer_t *timer, unsigned long timestamp, void *user_pointer) {
     if (stopwatch_is_timer_reached(&timer->stopwatch, timestamp)) {
         timer->callback(timer, user_pointer, timer->arg);
+        if (!stopwatch_is_timer_reached(&timer->stopwatch, timestamp)) {
+            // The callback stopped, restarted or changed the timer itself
+            return 1;
+        }
         if (timer->autoreload) {
             stopwatch_restart(&timer->stopwatch, timestamp);
         } else {
-- 
2.43.0

