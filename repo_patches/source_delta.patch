From e9c6af8bf51ecdf87ab1aba32f30734433bc9eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:56 +0000
Subject: [PATCH 001/135] fix: sleeping tasks wake up while other tasks keep
 being ready

task_wait_system only looked at the sleep queue once no other task had run
for a whole turn, so two sleepers never woke while any task polled with
yield() (await_for, yielded, queue_get, ...).
---
 src/events.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/events.c b/src/events.c
index f988d59..f1f55af 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1299,6 +1299,7 @@ static void *task_wait_system(void *v) {
 	tasks_t *t;
 	tasklist_t *l;
 	size_t now;
+	bool is_idle;
 	(void)v;
 
 	task_system();
@@ -1311,15 +1312,15 @@ static void *task_wait_system(void *v) {
 #ifdef _WIN32
 		__thrd()->active_timer++;
 #endif
-		/* let everyone else run */
-		while (task_yielding_active() > 0)
-			;
+		/* let everyone else run once, a task always ready must not keep sleepers from waking */
+		is_idle = task_yielding_active() <= 0;
 #ifdef _WIN32
 		__thrd()->active_timer--;
 #endif
 
 		now = events_nsec();
-		active_info();
+		if (is_idle)
+			active_info();
 		if (is_empty(__thrd()->loop))
 			return 0;
 
-- 
2.43.0


From 8b6b189dc557bf261f89e3ee90818c73f4424234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 002/135] fix: task_is_canceled of a task without result id

It used the task's cid as an index into the table of results, so it read the
entry of another task or beyond the table.
---
 src/events.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index f1f55af..75f1c23 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1826,7 +1826,8 @@ EVENTS_INLINE bool task_is_terminated(tasks_t *co) {
 }
 
 EVENTS_INLINE bool task_is_canceled(void) {
-	return task_result_get(task_id())->is_canceled;
+	uint32_t id = active_task()->rid;
+	return id == NO_RESULT ? false : task_result_get(id)->is_canceled;
 }
 
 EVENTS_INLINE void task_set_canceled(uint32_t id) {
-- 
2.43.0


From f22fb4f64bc9db5c5d01e80e88674e997529c92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 003/135] fix: arrays growing past their capacity leave no
 dangling pointer

data_append, data_append_item and data_reserve reallocate the array, but the
caller kept its old pointer, so everything after the first growth (64 items or
less) used freed memory. They return the array now, and the macros store it.
An array of capacity 0 (copy of an empty one) never grew at all.
---
 include/arrays.h | 27 ++++++++++++++-------------
 src/arrays.c     | 19 ++++++++++++-------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/include/arrays.h b/include/arrays.h
index 9463abe..25f554e 100644
--- a/include/arrays.h
+++ b/include/arrays.h
@@ -199,10 +199,11 @@ C_API array_t array(void);
 C_API array_t arrays(size_t, ...);
 C_API array_t data_ex(size_t, va_list);
 C_API array_t data_copy(array_t des, array_t src);
-C_API void data_append(array_t, void *);
+/* Returns the array, it `moves` when it needs to grow. */
+C_API array_t data_append(array_t, void *);
 C_API values_t data_pop(array_t arr);
 C_API values_t data_shift(array_t arr);
-C_API void data_append_item(array_t arr, ...);
+C_API array_t data_append_item(array_t arr, ...);
 C_API void data_delete(array_t);
 C_API void data_remove(array_t, size_t);
 
@@ -212,7 +213,7 @@ C_API tuple_t data_tuple(array_t);
 C_API array_t data_reset(array_t);
 C_API size_t data_size(array_t);
 C_API size_t data_capacity(array_t);
-C_API void data_reserve(array_t, size_t);
+C_API array_t data_reserve(array_t, size_t);
 C_API atomic_spinlock *data_lock(array_t);
 C_API size_t data_queue_size(void);
 C_API data_types data_type(void *self);
@@ -248,15 +249,15 @@ C_API range_t range_char(const char *text);
 #ifndef $append
 /* Collect references for global cleanup. */
 #define $gc(ptr) 						data_gc((void *)ptr)
-#define $append(arr, value) 			data_append((array_t)arr, (void *)value)
-#define $append_double(arr, value) 		data_append_item((array_t)arr, DATA_DOUBLE, (double)value)
-#define $append_unsigned(arr, value)	data_append_item((array_t)arr, DATA_MAXSIZE, (size_t)value)
-#define $append_signed(arr, value) 		data_append_item((array_t)arr, DATA_LLONG, (int64_t)value)
-#define $append_string(arr, value) 		data_append_item((array_t)arr, DATA_STRING, (char *)value)
-#define $append_func(arr, value) 		data_append_item((array_t)arr, DATA_FUNC, (data_func_t)value)
-#define $append_char(arr, value) 		data_append_item((array_t)arr, DATA_CHAR, (char)value)
-#define $append_bool(arr, value) 		data_append_item((array_t)arr, DATA_BOOL, (bool)value)
-#define $append_short(arr, value) 		data_append_item((array_t)arr, DATA_SHORT, (short)value)
+#define $append(arr, value) 			((arr) = data_append((array_t)arr, (void *)value))
+#define $append_double(arr, value) 		((arr) = data_append_item((array_t)arr, DATA_DOUBLE, (double)value))
+#define $append_unsigned(arr, value)	((arr) = data_append_item((array_t)arr, DATA_MAXSIZE, (size_t)value))
+#define $append_signed(arr, value) 		((arr) = data_append_item((array_t)arr, DATA_LLONG, (int64_t)value))
+#define $append_string(arr, value) 		((arr) = data_append_item((array_t)arr, DATA_STRING, (char *)value))
+#define $append_func(arr, value) 		((arr) = data_append_item((array_t)arr, DATA_FUNC, (data_func_t)value))
+#define $append_char(arr, value) 		((arr) = data_append_item((array_t)arr, DATA_CHAR, (char)value))
+#define $append_bool(arr, value) 		((arr) = data_append_item((array_t)arr, DATA_BOOL, (bool)value))
+#define $append_short(arr, value) 		((arr) = data_append_item((array_t)arr, DATA_SHORT, (short)value))
 #define $copy(des, src) 				data_copy((array_t)des, (array_t)src)
 #define $remove(arr, index) 			data_remove((array_t)arr, index)
 #define $pop(arr) 						data_pop((array_t)arr)
@@ -267,7 +268,7 @@ C_API range_t range_char(const char *text);
 #define $delete(arr) 					data_delete((array_t)arr)
 #define $capacity(arr) 					data_capacity((array_t)arr)
 #define $lock(arr) 						data_lock((array_t)arr)
-#define $reserve(arr, cap)				data_reserve((array_t)arr, (size_t)cap)
+#define $reserve(arr, cap)				((arr) = data_reserve((array_t)arr, (size_t)cap))
 #endif
 
 #define trim_at(str, pos) (char *)((uintptr_t)(str) + (pos))
diff --git a/src/arrays.c b/src/arrays.c
index cc0ff10..a237071 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -124,9 +124,11 @@ EVENTS_INLINE atomic_spinlock *data_lock(array_t v) {
 	return &array_mutex(v);
 }
 
-EVENTS_INLINE void data_reserve(array_t v, size_t capacity) {
+EVENTS_INLINE array_t data_reserve(array_t v, size_t capacity) {
 	if (v && capacity)
 		array_reserve(v, capacity);
+
+	return v;
 }
 
 EVENTS_INLINE void data_remove(array_t arr, size_t i) {
@@ -150,18 +152,19 @@ EVENTS_INLINE void data_delete(array_t arr) {
 	}
 }
 
-EVENTS_INLINE void data_append(array_t arr, void *value) {
+EVENTS_INLINE array_t data_append(array_t arr, void *value) {
 	if (array_type(arr) == DATA_TUPLE)
 		throw(logic_error);
 
 	size_t size, cv_cap__ = array_cap(arr);
 	if (cv_cap__ <= array_length(arr)) {
-		size = cv_cap__ << 1;
+		size = cv_cap__ ? cv_cap__ << 1 : data_queue_size();
 		array_grow(arr, size);
 	}
 
 	arr[array_length(arr)].object = value;
 	array_set_size(arr, array_length(arr) + 1);
+	return arr;
 }
 
 EVENTS_INLINE values_t data_pop(array_t arr) {
@@ -194,7 +197,7 @@ EVENTS_INLINE values_t data_shift(array_t arr) {
 	return data_values_empty->value;
 }
 
-void data_append_item(array_t arr, ...) {
+array_t data_append_item(array_t arr, ...) {
 	if (array_type(arr) == DATA_TUPLE)
 		throw(logic_error);
 
@@ -202,7 +205,7 @@ void data_append_item(array_t arr, ...) {
 	data_types n = DATA_INVALID;
 	size_t size, cv_cap__ = array_cap(arr), index = array_length(arr);
 	if (cv_cap__ <= index) {
-		size = cv_cap__ << 1;
+		size = cv_cap__ ? cv_cap__ << 1 : data_queue_size();
 		array_grow(arr, size);
 	}
 
@@ -229,6 +232,7 @@ void data_append_item(array_t arr, ...) {
 	}
 	va_end(ap);
 	array_set_size(arr, index + 1);
+	return arr;
 }
 
 EVENTS_INLINE array_t data_copy(array_t des, array_t src) {
@@ -302,9 +306,10 @@ array_t arrays(size_t count, ...) {
 }
 
 EVENTS_INLINE void data_gc(void *ptr) {
-	atomic_lock($lock(sys_event.gc));
+	/* not the lock of the array, it moves with the array */
+	atomic_lock(&sys_event.lock);
 	$append(sys_event.gc, ptr);
-	atomic_unlock($lock(sys_event.gc));
+	atomic_unlock(&sys_event.lock);
 }
 
 EVENTS_INLINE array_t array(void) {
-- 
2.43.0


From d87e17456242604a66fb70d54e9e4ce63040902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 004/135] fix: results table shared by threads

Result ids are created, and the table grown, by several threads at once, and
every use stored the table pointer it had read back, undoing a growth by
another thread. Create ids under the lock, and never free or store back a
table other threads may be using.
---
 src/events.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/events.c b/src/events.c
index 75f1c23..2290315 100644
--- a/src/events.c
+++ b/src/events.c
@@ -351,7 +351,11 @@ EVENTS_INLINE void events_deinit(void) {
 			events_free(r[i]);
 
 		atomic_init(&sys_event.results, NULL);
-		events_free((void *)r);
+		while (r != NULL) {
+			results_data_t *older = (results_data_t *)r[-1];
+			events_free((void *)(r - 1));
+			r = older;
+		}
 	}
 
 	if (events_fsevents_tasks != null) {
@@ -1149,7 +1153,6 @@ static EVENTS_INLINE void tasks_result_set(tasks_t *co, void *data) {
 			results[co->rid]->is_terminated = true;
 			co->status = TASK_FINISH;
 		}
-		atomic_store_explicit(&sys_event.results, results, memory_order_release);
 	}
 }
 
@@ -1650,12 +1653,23 @@ static EVENTS_INLINE void task_yielding(tasks_t *co) {
 }
 
 static results_data_t tasks_create_result(void) {
-	results_data_t result, *results;
-	size_t id = atomic_fetch_add(&sys_event.result_id_generate, 1);
+	results_data_t result, *results, *table;
+	size_t id, count;
 	result = (results_data_t)events_malloc(sizeof(_results_data_t));
+	atomic_lock(&sys_event.lock);
+	id = atomic_load(&sys_event.result_id_generate);
 	results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
-	if (id % sys_event.queue_size == 0 || results == NULL)
-		results = events_realloc(results, (id + sys_event.queue_size) * sizeof(results[0]));
+	count = id / sys_event.queue_size;
+	/* Double the table when full, other threads may still use the old one,
+	so it's kept until shutdown, the entry in front holds it. */
+	if (results == NULL || (id % sys_event.queue_size == 0 && count > 0 && (count & (count - 1)) == 0)) {
+		table = (results_data_t *)events_malloc(((results == NULL ? sys_event.queue_size : id * 2) + 1) * sizeof(results[0]));
+		*table++ = (results_data_t)results;
+		if (results != NULL)
+			memcpy(table, results, id * sizeof(results[0]));
+
+		results = table;
+	}
 
 	result->is_ready = false;
 	result->is_terminated = false;
@@ -1665,6 +1679,8 @@ static results_data_t tasks_create_result(void) {
 	result->type = DATA_RESULT;
 	results[id] = result;
 	atomic_store_explicit(&sys_event.results, results, memory_order_release);
+	atomic_fetch_add(&sys_event.result_id_generate, 1);
+	atomic_unlock(&sys_event.lock);
 	return result;
 }
 
@@ -1781,7 +1797,6 @@ uint32_t task_push(tasks_t *t, bool has_result) {
 			if (has_result) {
 				results_data_t *results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
 				results[t->rid]->tid = t->tid;
-				atomic_store_explicit(&sys_event.results, results, memory_order_release);
 			}
 
 			enqueue_tasks(t);
@@ -1834,7 +1849,6 @@ EVENTS_INLINE void task_set_canceled(uint32_t id) {
 	if ((int)id > 0 && id < (uint32_t)atomic_load(&sys_event.result_id_generate)) {
 		results_data_t *results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
 		results[id]->is_canceled = true;
-		atomic_store_explicit(&sys_event.results, results, memory_order_release);
 	}
 }
 
-- 
2.43.0


From 5bd803cb69c4e9af8851d00f9012078ba35aef87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 005/135] fix: waiting for a task group does not corrupt the
 run queue

tasks_wait, waitfor and the pool threads enqueued tasks that were already in
the run queue, which drops the tasks between, and took one off the count of
tasks, which ends the scheduler while tasks are left. A sleeping task kept its
waiter, so its next wake up enqueued the waiter again. __thrd_waitfor looked at
the last started task instead of each one of the group.
---
 src/events.c | 32 +++++++-------------------------
 1 file changed, 7 insertions(+), 25 deletions(-)

diff --git a/src/events.c b/src/events.c
index 2290315..c6c8c1c 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1345,10 +1345,10 @@ static void *task_wait_system(void *v) {
 				t->ready = true;
 				enqueue(l, t);
 				if (t->sleeping != NULL) {
-					t = t->sleeping;
-					t->ready = true;
+					tasks_t *waiter = t->sleeping;
 					t->sleeping = NULL;
-					enqueue(l, t);
+					waiter->ready = true;
+					enqueue(l, waiter);
 				}
 			}
 		}
@@ -2162,7 +2162,6 @@ static void __thrd_waitfor(events_deque_t *q) {
 	waitgroup_t wg = q->tasks;
 	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = wg->results;
-	bool is_sleeping = false;
 	q->tasks = NULL;
 
 	foreach(task in q->jobs) {
@@ -2182,7 +2181,7 @@ static void __thrd_waitfor(events_deque_t *q) {
 	yield();
 	while ($size(q->jobs) > 0) {
 		foreach(group in q->jobs) {
-			co = (tasks_t *)task.object;
+			co = (tasks_t *)group.object;
 			if (task_is_terminated(co)) {
 				$remove(q->jobs, igroup);
 				if (co->results != NULL)
@@ -2191,10 +2190,7 @@ static void __thrd_waitfor(events_deque_t *q) {
 				co->waiting = false;
 				task_delete(co);
 			} else {
-				if (co->status == TASK_NORMAL) {
-					enqueue(l, co);
-				} else if (co->status == TASK_SLEEPING) {
-					is_sleeping = true;
+				if (co->status == TASK_SLEEPING) {
 					co->sleeping = __thrd()->running;
 					suspend();
 				}
@@ -2206,7 +2202,6 @@ static void __thrd_waitfor(events_deque_t *q) {
 		igroup = 0;
 	}
 
-	__thrd()->task_count--;
 	atomic_lock($lock(wg->group));
 	wg->count--;
 	atomic_unlock($lock(wg->group));
@@ -2221,7 +2216,6 @@ array_t waitfor(waitgroup_t wg) {
 	tasks_t *worker, *t = active_task();
 	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = NULL;
-	bool is_sleeping = false;
 	if (t->group_active && t->task_group == wg && t->task_group->threaded) {
 		t->group_active = false;
 		t->group_finish = true;
@@ -2254,10 +2248,7 @@ array_t waitfor(waitgroup_t wg) {
 					worker->waiting = false;
 					task_delete(worker);
 				} else {
-					if (worker->status == TASK_NORMAL) {
-						enqueue(l, worker);
-					} else if (worker->status == TASK_SLEEPING) {
-						is_sleeping = true;
+					if (worker->status == TASK_SLEEPING) {
 						worker->sleeping = __thrd()->running;
 						suspend();
 					}
@@ -2284,8 +2275,6 @@ array_t waitfor(waitgroup_t wg) {
 		wg->group = NULL;
 		memset(wg, DATA_INVALID, sizeof(data_types));
 		events_free(wg);
-		if (!is_sleeping)
-			__thrd()->task_count--;
 	}
 
 	return wgr;
@@ -2298,9 +2287,7 @@ array_t tasks_wait(task_group_t *wg) {
 	}
 
 	tasks_t *worker, *t = active_task();
-	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = NULL;
-	bool is_sleeping = false;
 	if (t->group_active && t->task_group == wg && !t->task_group->threaded) {
 		t->group_active = false;
 		t->group_finish = true;
@@ -2317,10 +2304,7 @@ array_t tasks_wait(task_group_t *wg) {
 					worker->waiting = false;
 					task_delete(worker);
 				} else {
-					if (worker->status == TASK_NORMAL) {
-						enqueue(l, worker);
-					} else if (worker->status == TASK_SLEEPING) {
-						is_sleeping = true;
+					if (worker->status == TASK_SLEEPING) {
 						worker->sleeping = __thrd()->running;
 						suspend();
 					}
@@ -2343,8 +2327,6 @@ array_t tasks_wait(task_group_t *wg) {
 		wg->group = NULL;
 		memset(wg, DATA_INVALID, sizeof(data_types));
 		events_free(wg);
-		if (!is_sleeping)
-			__thrd()->task_count--;
 	}
 
 	return wgr;
-- 
2.43.0


From 3aed389ded078034fc886600fbd62240c5f4889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 006/135] fix: waitgroup with fewer tasks than its capacity

tasks_poster took tasks from an empty group, go() used the uninitialized
thread id of a result, and the array of results could move while other threads
append to it.
---
 src/events.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index c6c8c1c..dd42944 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1675,6 +1675,7 @@ static results_data_t tasks_create_result(void) {
 	result->is_terminated = false;
 	result->is_canceled = false;
 	result->id = id;
+	result->tid = 0;
 	result->result.object = NULL;
 	result->type = DATA_RESULT;
 	results[id] = result;
@@ -2043,7 +2044,7 @@ static void tasks_poster(waitgroup_t wg) {
 			for (i = 0; i < $size(sys_event.tasks_cpu_idx); i++) {
 				k = sys_event.tasks_cpu_idx[i].u_int;
 				events_deque_t *q = sys_event.local[k];
-				for (c = 0; c < wg->capacity; c++) {
+				for (c = 0; c < wg->capacity && $size(wg->group) > 0; c++) {
 					tasks_t *t = (tasks_t *)$pop(wg->group).object;
 					t->tid = k;
 					$append(q->jobs, t);
@@ -2220,6 +2221,8 @@ array_t waitfor(waitgroup_t wg) {
 		t->group_active = false;
 		t->group_finish = true;
 		wgr = array();
+		/* must not move once the other threads have it */
+		$reserve(wgr, $size(wg->group) + 1);
 		wg->results = wgr;
 		tasks_poster(wg);
 		foreach(co in wg->group) {
-- 
2.43.0


From 1fefe4b66e3bd3839579a08e4a8c9792b1fe165e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 007/135] fix: trim of an empty or blank string writes before
 it

---
 src/arrays.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index a237071..5871940 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -792,14 +792,14 @@ EVENTS_INLINE int str_subcount(const char *text, char *pattern) {
 }
 
 static EVENTS_INLINE char *ltrim(char *s) {
-	while (isspace(*s)) s++;
+	while (isspace((unsigned char)*s)) s++;
 	return s;
 }
 
 static EVENTS_INLINE char *rtrim(char *s) {
 	char *back = s + strlen(s);
-	while (isspace(*--back));
-	*(back + 1) = '\0';
+	while (back > s && isspace((unsigned char)back[-1])) back--;
+	*back = '\0';
 	return s;
 }
 
-- 
2.43.0


From e53c2948c4ee34ac8370b47abc0c9a22f23b0fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 008/135] fix: str_itoa of negative numbers and of numbers over
 32 bits

---
 src/arrays.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index 5871940..365a0cb 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1606,32 +1606,28 @@ char *str_itoa(int64_t x) {
 	bool neg = x < 0;
 	*buf = '-'; // Always write
 	buf += neg; // But advance only if negative
-#if defined(__APPLE__) || defined(__MACH__)
-	x = llabs(x);
-#else
-	x = abs(x);
-#endif
+	uint64_t u = neg ? 0 - (uint64_t)x : (uint64_t)x;
 
 	char tmp[20];
 	char *p = tmp + 20;
 
-	while (x >= 100) {
+	while (u >= 100) {
 		p -= 2;
-		utoa2p_ex(x % 100, p);
-		x /= 100;
+		utoa2p_ex(u % 100, p);
+		u /= 100;
 	}
 
 	p -= 2;
-	utoa2p_ex(x, p);
+	utoa2p_ex(u, p);
 
-	p += x < 10;
+	p += u < 10;
 
 	uint32_t len = tmp + 20 - p;
 
-	memcpy(buf, p, 20);
+	memcpy(buf, p, len);
 	buf[len] = '\0';
 
-	return buf;
+	return buf - neg;
 #endif
 }
 
-- 
2.43.0


From 1340fc27189e0625eeaa7f21593d272fc174e224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 009/135] fix: str_cat_argv returns its own arguments every
 time

---
 src/arrays.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index 365a0cb..95da0c0 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -423,24 +423,23 @@ char *str_cat_ex(int num_args, ...) {
 }
 
 static int _str_append(size_t offset, const char *str, size_t len) {
-	strncat(EVENTS_ARGS + offset, str, len);
+	if (offset + len >= EVENTS_ARGS_LENGTH)
+		len = EVENTS_ARGS_LENGTH - 1 - offset;
+
+	memcpy(EVENTS_ARGS + offset, str, len);
 	return offset + len;
 }
 
 char *str_cat_argv(int argc, char **argv, int start, char *delim) {
-	int i, j, len = 0;
-	for (i = start; i < argc; i++) {
-		len += strlen(argv[i]) + 1;
-	}
-
+	int i, j;
 	char *str = EVENTS_ARGS;
 	for (i = start, j = 0; i < argc; ++i) {
 		if (i > start)
-			j = _str_append(j, delim, 1);
+			j = _str_append(j, delim, strlen(delim));
 		j = _str_append(j, argv[i], strlen(argv[i]));
 	}
 
-	str[(sizeof(char) * len) - 1] = '\0';
+	str[j] = '\0';
 	return str;
 }
 
-- 
2.43.0


From 5ce0626834e09279a4f859afc9531c645d87d948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 010/135] fix: uri_free releases rejected urls and urls with
 other schemes

---
 src/arrays.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arrays.c b/src/arrays.c
index 95da0c0..14dde3d 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1221,7 +1221,7 @@ static EVENTS_INLINE char *uri_dup(const void *src, size_t len) {
 
 void uri_free(uri_t *uri) {
 	if ((data_type(uri) > DATA_GENERATOR && data_type(uri) < DATA_WATCH)
-		|| (data_type(uri) == -DATA_MAXCOUNTER) && uri->is_rejected) {
+		|| (int)data_type(uri) == -DATA_MAXCOUNTER) {
 		if (uri->is_autofreeable)
 			return;
 
@@ -1525,6 +1525,7 @@ uri_t *parse_uri_ex(const char *str) {
 	if (uri->is_rejected || is_empty(uri->host)
 		|| (!str_has(uri->host, ".") && !str_is(uri->host, events_hostname()))) {
 		errno = EINVAL;
+		uri->type = -DATA_MAXCOUNTER;
 		uri_free(uri);
 		return null;
 	}
-- 
2.43.0


From bf4d908b2360d109e0a314fe7e329e19e64d0059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 011/135] fix: pathinfo of a file without directory

---
 src/arrays.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index 14dde3d..0446904 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1,4 +1,8 @@
 #include "events_internal.h"
+#ifndef _WIN32
+#	include <libgen.h>	/* for `dirname` */
+#	undef basename	/* keeps the one of string.h */
+#endif
 
 #define EVENTS_ARGS_LENGTH 32768
 
@@ -1266,8 +1270,7 @@ fileinfo_t *pathinfo(char *filepath) {
 		file->filename = str_dup(basename(dir_name));
 		file->base = str_dup(basename((char *)file->dirname));
 #else
-		dirname(dir_name);
-		file->dirname = dir_name;
+		file->dirname = dirname(dir_name);
 		file->base = basename((char *)file->dirname);
 		file->filename = basename((char *)filepath);
 #endif
-- 
2.43.0


From ae53816baa76369785042f76074ccb67c89aa6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 012/135] fix: range that ends before it starts is empty

---
 src/arrays.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arrays.c b/src/arrays.c
index 0446904..c6dbaa0 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -94,7 +94,7 @@ range_t rangeing(int start, int stop, int steps) {
 
 range_t range(int start, int stop) {
 	range_t arr = array();
-	int i, n = stop - start;
+	int i, n = stop > start ? stop - start : 0;
 	array_grow((arr), (n + 1));
 	for (i = start; i < stop; i++)
 		$append(arr, (intptr_t)i);
-- 
2.43.0


From 9e4295b4c22858b2f9bcb668c08cdce56a6aa3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 013/135] fix: getopt_has stopped at arguments that are part of
 "-h, --h, ?, help"

---
 src/getopt.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/getopt.c b/src/getopt.c
index ca0b7ed..e7248e9 100644
--- a/src/getopt.c
+++ b/src/getopt.c
@@ -26,6 +26,10 @@ char *getopts(void) {
 	return command_line_option;
 }
 
+static bool is_help(const char *arg) {
+	return str_is(arg, "-h") || str_is(arg, "--h") || str_is(arg, "?") || str_is(arg, "help");
+}
+
 bool getopt_has(const char *flag, bool is_single) {
 	char *unknown = NULL, **flags = NULL;
 	bool show_help = false, is_unknown = false, is_split = false;
@@ -59,7 +63,7 @@ bool getopt_has(const char *flag, bool is_single) {
 				if (command_line_ordered)
 					command_line_index = i + 1;
 				return true;
-			} else if (str_has("-h, --h, ?, help", command_line_argv[i])) {
+			} else if (is_help(command_line_argv[i])) {
 				show_help = true;
 				break;
 			} else {
-- 
2.43.0


From ac9183a920a5a2cc96180387aee0d86c15e6a8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 014/135] fix: getopts returns the whole value of an option
 that contains =

---
 src/getopt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/getopt.c b/src/getopt.c
index e7248e9..4492548 100644
--- a/src/getopt.c
+++ b/src/getopt.c
@@ -54,8 +54,8 @@ bool getopt_has(const char *flag, bool is_single) {
 				return true;
 			} else if (str_is(command_line_argv[i], flag) || (is_split && str_is(flags[0], flag))) {
 				if (is_split) {
-					command_line_option = flags[1];
-					defer_free(flags);
+					command_line_option = strchr(command_line_argv[i], '=') + 1;
+					events_free(flags);
 				} else {
 					command_line_option = is_single ? command_line_argv[i] : command_line_argv[++i];
 				}
-- 
2.43.0


From ac7aa18c8dd61f0bebbee55f92078556fd6f0a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 015/135] fix: str_parseip returned freed memory, wrote to its
 argument

---
 src/arrays.c | 55 ++++++++++++++++++----------------------------------
 1 file changed, 19 insertions(+), 36 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index c6dbaa0..b83b6e1 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1145,44 +1145,30 @@ static EVENTS_INLINE const void *str_memrchr(const void *s, int c, size_t n) {
 
 #define ip_class(p) ((*(unsigned char*)(p))>>6)
 char *str_parseip(char *name, uint32_t *ip, int *port, bool autofree) {
-	unsigned char addr[4];
-	char *p, **tmp = null, buf[ARRAY_SIZE] = {0};
+	unsigned char addr[4] = {0};
+	char *p, *host, buf[ARRAY_SIZE] = {0};
 	int i, x;
 
-	if ((i = str_pos(name, "//")) > 3) {
-		snprintf(buf, ARRAY_SIZE, "%s", (const char *)((uintptr_t)name + (i + 2)));
-		name = buf;
-	}
-
-	if ((i = str_pos(name, "]:")) > 3) {
-		*port = atoi(trim_at(name, i + 2));
-		name[i + 1] = '\0';
-		return autofree ? str_dup(name) : str_dup_ex(name);
-	} else if ((i = str_pos(name, ":")) > 6) {
-		tmp = str_split_ex(name, ":", null);
-		*port = atoi(tmp[1]);
-		name = tmp[0];
-		if (autofree) {
-			defer_free(tmp);
-		} else {
-			i = snprintf(buf, ARRAY_SIZE, "%s", tmp[0]);
-			events_free(tmp);
-			tmp = null;
-			if (i)
-				tmp = (char **)str_dup_ex(buf);
-		}
-	} else if (!str_is_empty((const char *)buf)) {
-		tmp = (char **)str_dup(buf);
-		name = (char *)tmp;
+	if ((i = str_pos(name, "//")) > 3)
+		name = trim_at(name, i + 2);
+
+	snprintf(buf, ARRAY_SIZE, "%s", name);
+	if ((i = str_pos(buf, "]:")) > 3) {
+		*port = atoi(trim_at(buf, i + 2));
+		buf[i + 1] = '\0';
+		return autofree ? str_dup(buf) : str_dup_ex(buf);
+	} else if ((i = str_pos(buf, ":")) > 6) {
+		*port = atoi(trim_at(buf, i + 1));
+		buf[i] = '\0';
 	}
 
-	p = name;
+	p = host = autofree ? str_dup(buf) : str_dup_ex(buf);
 	for (i = 0; i < 4 && *p; i++) {
 		x = strtoul(p, &p, 0);
 		if (x < 0 || x >= 256)
-			return (autofree) ? name : (char *)tmp;
+			return host;
 		if (*p != '.' && *p != 0)
-			return (autofree) ? name : (char *)tmp;
+			return host;
 		if (*p == '.')
 			p++;
 		addr[i] = x;
@@ -1200,22 +1186,19 @@ char *str_parseip(char *name, uint32_t *ip, int *port, bool autofree) {
 				addr[2] = 0;
 				addr[1] = 0;
 			} else if (i != 4)
-				return (autofree) ? name : (char *)tmp;
+				return host;
 			break;
 		case 2:
 			if (i == 3) {
 				addr[3] = addr[2];
 				addr[2] = 0;
 			} else if (i != 4)
-				return (autofree) ? name : (char *)tmp;
+				return host;
 			break;
 	}
 
 	*ip = *(uint32_t *)addr;
-	if (is_empty(tmp) && autofree)
-		return name;
-
-	return autofree && !is_empty(tmp) ? tmp[0] : (char *)tmp;
+	return host;
 }
 
 static EVENTS_INLINE char *uri_dup(const void *src, size_t len) {
-- 
2.43.0


From 8172b46195e30c7f8a0fea89d1fa94292ab2543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 016/135] fix: async_parse_addr checks octets, ports and
 trailing text

---
 src/async_io.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 7f891c7..6744447 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -394,7 +394,7 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 	len = 0;
 	/* Test for different ways to format this string */
 	if (sscanf(host,
-		"%u.%u.%u.%u:%u%n",
+		"%3u.%3u.%3u.%3u:%5u%n",
 		&a,
 		&b,
 		&c,
@@ -404,22 +404,25 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 			  // to an integer value, but function will not report
 			  // conversion errors; consider using 'strtol' instead
 		== 5) {
+		if (a > 255 || b > 255 || c > 255 || d > 255 || port > 0xffff || (size_t)len != ptrlen)
+			return 0;
+
 		/* Bind to a specific IPv4 address, e.g. 192.168.1.5:8080 */
 		dst->sin.sin_addr.s_addr =
 			htonl((a << 24) | (b << 16) | (c << 8) | d);
 		dst->sin.sin_port = htons((uint16_t)port);
 		*ip_version = 4;
 		return 1;
-	} else if (sscanf(host, "[%49[^]]]:%u%n", buf, &port, &len) == 2
-		&& ((size_t)len <= ptrlen)
+	} else if (sscanf(host, "[%49[^]]]:%5u%n", buf, &port, &len) == 2
+		&& ((size_t)len == ptrlen) && port <= 0xffff
 		&& async_inet_pton(AF_INET6, buf, &dst->sin6, sizeof(dst->sin6), 0)) {
 		/* IPv6 address, examples: see above */
 		/* dst->sin6.sin6_family = AF_INET6; already set by http_inet_pton */
 		dst->sin6.sin6_port = htons((uint16_t)port);
 		*ip_version = 6;
 		return 1;
-	} else if ((portUL = strtoul(host, &endptr, 0) && port <= 0xffff)
-		&& (host != endptr)) {
+	} else if ((portUL = strtoul(host, &endptr, 0)) && portUL <= 0xffff
+		&& (host != endptr) && *endptr == '\0') {
 		len = (int)(endptr - host);
 		port = (uint16_t)portUL;
 		/* If only port is specified, bind to IPv4, INADDR_ANY */
@@ -446,8 +449,8 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 
 		str_lcpy(hostname, host, hostnlen + 1);
 		if (async_inet_pton(AF_INET, hostname, &dst->sin, sizeof(dst->sin), 1)) {
-			if (sscanf(cb + 1, "%u%n", &port, &len)
-				== 1) { // NOLINT(cert-err34-c) 'sscanf' used to convert a
+			if (sscanf(cb + 1, "%5u%n", &port, &len)
+				== 1 && port <= 0xffff && cb[1 + len] == '\0') { // NOLINT(cert-err34-c) 'sscanf' used to convert a
 						// string to an integer value, but function will not
 						// report conversion errors; consider using 'strtol'
 						// instead
@@ -457,7 +460,7 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 				return 1;
 			}
 		} else if (async_inet_pton(AF_INET6, hostname, &dst->sin6, sizeof(dst->sin6), 1)) {
-			if (sscanf(cb + 1, "%u%n", &port, &len) == 1) {
+			if (sscanf(cb + 1, "%5u%n", &port, &len) == 1 && port <= 0xffff && cb[1 + len] == '\0') {
 				*ip_version = 6;
 				dst->sin6.sin6_port = htons((uint16_t)port);
 				len += (int)(hostnlen + 1);
-- 
2.43.0


From de42ace5a4ea189719f751dbcd3098d07d8cdb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 017/135] fix: is_data took other memory for arrays

---
 src/arrays.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index b83b6e1..3b0b542 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -26,7 +26,9 @@ typedef struct array_metadata_s {
 	data_types type;
 	size_t size;
 	size_t capacity;
-	events_cacheline_t _pad;
+	/* The array itself, other memory will not have this in front. */
+	void *self;
+	char _pad[__ATOMIC_CACHE_LINE - sizeof(void *)];
 	atomic_spinlock lock;
 } array_metadata_t;
 
@@ -56,6 +58,7 @@ const data_values_t data_values_empty[1] = {0};
             array_set_type((vec), DATA_ARRAY);	\
         }										\
         array_set_capacity((vec), (count));		\
+        array_address(vec)->self = (void *)(vec);	\
     } while (0)
 
 #define array_reserve(vec, n)					\
@@ -152,6 +155,7 @@ EVENTS_INLINE void data_delete(array_t arr) {
 	if (arr && is_ptr_usable(arr)) {
 		void *p1__ = array_address(arr);
 		array_set_type(arr, DATA_INVALID);
+		array_address(arr)->self = NULL;
 		events_free(p1__);
 	}
 }
@@ -332,7 +336,8 @@ EVENTS_INLINE data_types data_type(void *self) {
 }
 
 EVENTS_INLINE bool is_data(void *params) {
-	return (is_empty(params) || !is_ptr_usable(params))
+	return (is_empty(params) || !is_ptr_usable(params)
+		|| array_address(params)->self != params)
 		? false
 		: array_type((array_t)params) == DATA_ARRAY
 		|| array_type((array_t)params) == DATA_RANGE
-- 
2.43.0


From d70783baecf7c4286df1afecbddfd2c6cfd22155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:34 +0000
Subject: [PATCH 018/135] fix: deferred memory is not taken for something else
 by its content

---
 src/arrays.c          |  8 ++++----
 src/async_io.c        |  2 +-
 src/async_udp.c       |  2 +-
 src/events.c          | 34 ++++++++++++++++++++++++++++++----
 src/events_internal.h |  2 ++
 5 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index 3b0b542..21ba564 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -381,7 +381,7 @@ static EVENTS_INLINE char *str_memdup_ex(const void *src, size_t len, bool autof
 	void *ptr = events_calloc(1, _mem_align_up((len + 1), 2));
 	if (ptr != NULL) {
 		if (autofree)
-			defer_free(ptr);
+			defer_free_by(ptr, events_free);
 		return (char *)memcpy(ptr, src, len);
 	}
 
@@ -609,7 +609,7 @@ array_t str_explode(const char *s, const char *delim) {
 
 	if (nbWords > 0) {
 		ptrsSize = nbWords * sizeof(char *);
-		if (defer_free(ptrs = events_calloc(1, _mem_align_up(ptrsSize + sLen + 1, 2)))) {
+		if (defer_free_by(ptrs = events_calloc(1, _mem_align_up(ptrsSize + sLen + 1, 2)), events_free)) {
 			first = _s = str_cpy((char *)ptrs, s, sLen);
 			while ((_s = strstr(_s, delim))) {
 				*_s = '\0';
@@ -644,7 +644,7 @@ char *str_repeat(char *str, int mult) {
 
 	/* Initialize the result char **/
 	result_len = len * mult;
-	if (defer_free(result = events_calloc(1, _mem_align_up(result_len + 1, 2)))) {
+	if (defer_free_by(result = events_calloc(1, _mem_align_up(result_len + 1, 2)), events_free)) {
 		/* Heavy optimization for situations where input char *is 1 byte long */
 		if (len == 1) {
 			memset(result, *str, mult);
@@ -698,7 +698,7 @@ char *str_pad(char *str, int length, char *pad, str_pad_type pad_type) {
 	}
 
 	num_pad_chars = length - input_len;
-	if (defer_free(result = events_calloc(1, _mem_align_up(input_len + num_pad_chars + 1, 2)))) {
+	if (defer_free_by(result = events_calloc(1, _mem_align_up(input_len + num_pad_chars + 1, 2)), events_free)) {
 		/* We need to figure out the left/right padding lengths. */
 		switch (pad_type) {
 			case STR_PAD_RIGHT:
diff --git a/src/async_io.c b/src/async_io.c
index 6744447..1bacfd4 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -713,7 +713,7 @@ char *fs_readfile(const char *path) {
 	int fd = 0;
 	size_t len = fs_filesize(path);
 	if (len > 0 && (fd = fs_open(path, O_RDONLY, 0)) > 0) {
-		if (defer_free(buffer = events_calloc(1, _mem_align_up(len + 1, 2)))) {
+		if (defer_free_by(buffer = events_calloc(1, _mem_align_up(len + 1, 2)), events_free)) {
 			fs_read(fd, buffer, len);
 			fs_close(fd);
 		}
diff --git a/src/async_udp.c b/src/async_udp.c
index d0dee28..6ae543e 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -141,7 +141,7 @@ udp_t udp_recv(int fd) {
 EVENTS_INLINE char *udp_message(udp_t packet) {
 	if (packet->message && packet->message_set) {
 		packet->message_set = false;
-		defer_free((void *)packet->message);
+		defer_free_by((void *)packet->message, events_free);
 		defer_free((void *)packet->addr);
 	}
 	return packet->message;
diff --git a/src/events.c b/src/events.c
index dd42944..3f8a0a8 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1882,11 +1882,17 @@ EVENTS_INLINE values_t results_for(uint32_t id) {
 	return data_values_empty->value;
 }
 
-bool defer_free(void *data) {
+bool defer_free_by(void *data, func_t func) {
 	tasks_t *t = NULL;
-	if (data == NULL)
+	defer_t *clean;
+	if (data == NULL || (clean = (defer_t *)events_calloc(1, sizeof(defer_t))) == NULL)
 		return false;
 
+	clean->is_ptr = true;
+	clean->func = func;
+	clean->data = data;
+	clean->type = DATA_DEFER;
+
 	if (tasks_is_active()) {
 		if (!is_empty(__thrd()->running))
 			t = __thrd()->running;
@@ -1896,17 +1902,37 @@ bool defer_free(void *data) {
 		if (is_empty(t->garbage))
 			t->garbage = array();
 
-		$append(t->garbage, data);
+		$append(t->garbage, clean);
 		return true;
 	}
 
 	ex_memory_t *scope = get_scope();
 	atomic_lock($lock(scope->defer_arr));
-	$append(scope->defer_arr, data);
+	$append(scope->defer_arr, clean);
 	atomic_unlock($lock(scope->defer_arr));
 	return true;
 }
 
+static void defer_free_data(void *data) {
+	data_types type;
+	if (!is_ptr_usable(data))
+		return;
+
+	if (is_data(data)) {
+		$delete(data);
+	} else {
+		type = data_type(data);
+		if (type == DATA_OBJ || type == DATA_HASHTABLE || type == DATA_MAP)
+			((data_object_t *)data)->dtor(data);
+		else
+			events_free(data);
+	}
+}
+
+bool defer_free(void *data) {
+	return defer_free_by(data, defer_free_data);
+}
+
 static int _defer_init(void *ptr) {
 	if (is_empty(ptr))
 		return TASK_ERRED;
diff --git a/src/events_internal.h b/src/events_internal.h
index 8c55633..537391f 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -564,6 +564,8 @@ void *events_calloc(size_t count, size_t size);
 void *events_malloc(size_t size);
 void *events_realloc(void *ptr, size_t size);
 void events_free(void *ptr);
+/* Same as `defer_free`, for memory of any content. */
+bool defer_free_by(void *data, func_t func);
 
 void task_done(void);
 void task_awaitable(void);
-- 
2.43.0


From f986e35f0ebfbd45cc0864a66b1e49a436ff1760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:52 +0000
Subject: [PATCH 019/135] fix: mem_printf gave memory of libc to the allocator
 of the library

---
 src/arrays.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index 21ba564..c47cb1c 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -967,10 +967,14 @@ char *mem_printf(int *count, const char *fmt, ...) {
 	char *tmp_str;
 
     va_start(values, fmt);
-    len = vasprintf(&tmp_str, fmt, values);
+    len = vsnprintf(NULL, 0, fmt, values);
     va_end(values);
 
-	if (EXPECTED(len > 0) && defer_free(tmp_str)) {
+	if (EXPECTED(len > 0) && (tmp_str = events_malloc(len + 1)) != NULL) {
+		va_start(values, fmt);
+		vsnprintf(tmp_str, len + 1, fmt, values);
+		va_end(values);
+		defer_free_by(tmp_str, events_free);
 		if (count)
 			*count = len;
 		return tmp_str;
-- 
2.43.0


From a0176602bdf043aebb7c123af495666e263fa39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:22 +0000
Subject: [PATCH 020/135] fix: str_parseip with short schemes, short IPv6
 addresses, paths containing //

---
 src/arrays.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index c47cb1c..d31a149 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1158,11 +1158,11 @@ char *str_parseip(char *name, uint32_t *ip, int *port, bool autofree) {
 	char *p, *host, buf[ARRAY_SIZE] = {0};
 	int i, x;
 
-	if ((i = str_pos(name, "//")) > 3)
-		name = trim_at(name, i + 2);
+	if ((i = str_pos(name, "://")) > 0)
+		name = trim_at(name, i + 3);
 
 	snprintf(buf, ARRAY_SIZE, "%s", name);
-	if ((i = str_pos(buf, "]:")) > 3) {
+	if ((i = str_pos(buf, "]:")) > 2) {
 		*port = atoi(trim_at(buf, i + 2));
 		buf[i + 1] = '\0';
 		return autofree ? str_dup(buf) : str_dup_ex(buf);
-- 
2.43.0


From a97f0ec7641498710b10f6a606a3bee2ba3e9826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 021/135] fix: timers of more than 2147 ms fired early

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 3f8a0a8..57606d4 100644
--- a/src/events.c
+++ b/src/events.c
@@ -893,7 +893,7 @@ static actor_t *events_actor_timeout(events_t *loop, int ms, actor_cb timer, voi
 		: timeout;
 
 	if (actor_running != NULL) {
-		when = (size_t)(events_nsec() + ms * 1000000);
+		when = (size_t)(events_nsec() + (int64_t)ms * 1000000);
 		for (t = loop->timers->head; t != NULL && t->alarmtime < when; t = t->next)
 			;
 
-- 
2.43.0


From df025cf3b05c32411f5d097171436a6fb0e08d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 022/135] fix: a repeated timer not armed again counted as
 running for ever

---
 src/events.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/events.c b/src/events.c
index 57606d4..b204e58 100644
--- a/src/events.c
+++ b/src/events.c
@@ -967,6 +967,8 @@ static int events_execute(events_t *loop, int max_wait) {
 	l = loop->timers;
 	while ((t = l->head) && now >= t->alarmtime) {
 		dequeue(l, t);
+		/* it goes on only when armed again by its function */
+		t->repeating = 0;
 		t->actor(t, t->args);
 		if (!t->repeating) {
 			events_free(t);
-- 
2.43.0


From 07ab7c26f416a942eb4f69feffcfd32d59e13410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 023/135] fix: unregistering a signal when a descriptor of the
 same number was unregistered

---
 src/events.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index b204e58..e84ca4a 100644
--- a/src/events.c
+++ b/src/events.c
@@ -622,7 +622,9 @@ int events_del(fds_t sfd) {
 			&& signal_handlers[target->signal_idx].is_running) {
 			events_del_signal(fd, target->signal_idx);
 			target->signal_set = false;
-			target->loop->active_signals--;
+			/* not `target->loop`, it belongs to the descriptor of the same number */
+			loop = signal_handlers[target->signal_idx].loop;
+			loop->active_signals--;
 			return 0;
 		}
 	}
-- 
2.43.0


From 792327f297bfe1f22aa558739227577537486819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 024/135] fix: a signal registered again is counted and handled
 once

---
 src/events.c  |  3 ++-
 src/os_unix.c | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/events.c b/src/events.c
index e84ca4a..c93ee37 100644
--- a/src/events.c
+++ b/src/events.c
@@ -558,7 +558,8 @@ int events_add(events_t *loop, fds_t sfd, int event, int timeout_in_secs,
 	if (event == EVENTS_SIGNAL) {
 		if ((sig_idx = events_add_signal(fd, callback, cb_arg)) >= 0) {
 			loop->signal_handlers = events_signals();
-			loop->active_signals++;
+			if (loop->signal_handlers[sig_idx].loop != loop)
+				loop->active_signals++;
 			loop->signal_handlers[sig_idx].loop = loop;
 			target->loop = loop;
 			target->signal_idx = sig_idx;
diff --git a/src/os_unix.c b/src/os_unix.c
index d37cd46..397ec75 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -689,10 +689,17 @@ sys_signal_t *events_signals(void) {
 int events_add_signal(int sig, sig_cb proc, void *data) {
 	int i;
 	for (i = 0; i < max_event_sig; i++) {
-		if (!events_sig[i].proc || events_sig[i].sig == sig)
+		if (events_sig[i].proc && events_sig[i].sig == sig)
 			break;
 	}
 
+	if (i == max_event_sig) {
+		for (i = 0; i < max_event_sig; i++) {
+			if (!events_sig[i].proc)
+				break;
+		}
+	}
+
 	if (i == max_event_sig) {
 		cerr("Cannot install exception handler for signal no (%d), "
 			"too many signal exception handlers installed (max %d)"CLR_LN,
@@ -715,10 +722,12 @@ int events_add_signal(int sig, sig_cb proc, void *data) {
 		events_sigunblock;
 		return -1;
 	} else {
+		if (!events_sig[i].proc) {
+			events_sig[i].loop = NULL;
+			events_sig[i].is_running = false;
+		}
 		events_sig[i].proc = proc;
 		events_sig[i].data = data;
-		events_sig[i].loop = NULL;
-		events_sig[i].is_running = false;
 		events_sig[i].sig = sig;
 	}
 	events_sigunblock;
-- 
2.43.0


From 6d94058d43fdf5d4d40198c7d38b29aa7f951094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 025/135] fix: a signal while the handler of another starts
 ended the program

---
 src/os_unix.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 397ec75..a8518a2 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -713,7 +713,8 @@ int events_add_signal(int sig, sig_cb proc, void *data) {
 	 */
 	events_sig_sa.sa_handler = events_sig_handler;
 	events_sig_sa.sa_flags = SA_RESTART;
-	if (sigemptyset(&events_sig_sa.sa_mask) != 0) {
+	/* the handler does not expect to be interrupted by another signal */
+	if (sigfillset(&events_sig_sa.sa_mask) != 0) {
 		cerr("Cannot setup handler for signal no (%d)"CLR_LN, sig);
 		events_sigunblock;
 		return -1;
-- 
2.43.0


From 172dd1fdc3de8c1f4c431e8d25618d7b6d5e5dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 026/135] fix: timeout cleared by the timeout callback of
 another descriptor fired

---
 src/events.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/events.c b/src/events.c
index c93ee37..ffc8b27 100644
--- a/src/events.c
+++ b/src/events.c
@@ -795,12 +795,11 @@ EVENTS_INLINE void events_handle_timeout_internal(events_t *loop) {
 			if (vv != 0) {
 				for (j = i * EVENTS_SHORT_BITS; vv != 0; j++, vv <<= 1) {
 					if (vv < 0) {
+						/* bits copied before a callback say nothing after it */
 						short v = vec[j];
-						assert(v != 0);
 						for (k = j * EVENTS_SHORT_BITS; v != 0; k++, v <<= 1) {
-							if (v < 0) {
-								events_fd_t *fd = events_target(k);
-								assert(fd->loop_id == loop->loop_id);
+							events_fd_t *fd = events_target(k);
+							if (v < 0 && fd->loop_id == loop->loop_id && fd->timeout_idx == (int)loop->timeout.base_idx) {
 								fd->timeout_idx = EVENTS_TIMEOUT_IDX_UNUSED;
 								events_id_t loop_id = loop->loop_id;
 								(*fd->callback)(k, EVENTS_TIMEOUT, fd->cb_arg);
-- 
2.43.0


From f2486a8bae4e4d899e243b52f65ee0b5c9864644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 027/135] fix: events no longer asked for were reported

---
 src/epoll.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/epoll.c b/src/epoll.c
index 09a33f0..44f25e8 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -160,8 +160,9 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 		events_fd_t *target = events_target(event->data.fd);
 		if (loop->loop.loop_id == target->loop_id
 			&& (target->events & EVENTS_READWRITE) != 0) {
-			int revents = ((event->events & EPOLLIN) != 0 ? EVENTS_READ : 0)
-				| ((event->events & EPOLLOUT) != 0 ? EVENTS_WRITE : 0)
+			/* an earlier callback may have changed what is asked for */
+			int revents = ((((event->events & EPOLLIN) != 0 ? EVENTS_READ : 0)
+				| ((event->events & EPOLLOUT) != 0 ? EVENTS_WRITE : 0)) & target->events)
 				| ((event->events & EPOLLHUP) != 0 ? EVENTS_CLOSED : 0);
 			if (target->is_pathwatcher) {
 				char *buffer = events_malloc(Kb(8) + sizeof(inotify_t));
-- 
2.43.0


From e98a182dbb611b29af38c99e6714d67f86aa43ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 028/135] fix: taking from a work deque nothing was ever taken
 from gave garbage

---
 src/deque.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/deque.c b/src/deque.c
index 94daaf3..f5f1bcf 100644
--- a/src/deque.c
+++ b/src/deque.c
@@ -80,7 +80,7 @@ tasks_t *deque_take(events_deque_t *q) {
 	atomic_store_explicit(&q->bottom, b, memory_order_relaxed);
 	atomic_thread_fence(memory_order_seq_cst);
 	tasks_t *x;
-	if (t <= b) {
+	if ((ptrdiff_t)(b - t) >= 0) {
 		/* Non-empty queue */
 		x = (tasks_t *)atomic_load_explicit(&a->buffer[b % a->size], memory_order_relaxed);
 		if (t == b) {
@@ -118,7 +118,7 @@ tasks_t *deque_steal(events_deque_t *q) {
 	atomic_thread_fence(memory_order_seq_cst);
 	size_t b = atomic_load_explicit(&q->bottom, memory_order_acquire);
 	tasks_t *x = TASK_EMPTY_T;
-	if (t < b) {
+	if ((ptrdiff_t)(b - t) > 0) {
 		/* Non-empty queue */
 		deque_array_t *a = (deque_array_t *)atomic_load_explicit(&q->array, memory_order_consume);
 		x = (tasks_t *)atomic_load_explicit(&a->buffer[t % a->size], memory_order_relaxed);
-- 
2.43.0


From 477475daa9b85a27e3050523840f833d2b7de620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 029/135] fix: the array of a growing work deque was freed
 while thieves read it

---
 src/deque.c           | 14 ++++++++------
 src/events_internal.h |  4 +++-
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/deque.c b/src/deque.c
index f5f1bcf..490abeb 100644
--- a/src/deque.c
+++ b/src/deque.c
@@ -55,7 +55,8 @@ void deque_resize(events_deque_t *q) {
 	for (i = t; i < b; i++)
 		new->buffer[i % new_size] = a->buffer[i % old_size];
 
-	atomic_store_explicit(&q->array, new, memory_order_relaxed);
+	new->replaced = a;
+	atomic_store_explicit(&q->array, new, memory_order_release);
 	/* The question arises as to the appropriate timing for releasing memory
 	 * associated with the previous array denoted by *a. In the original Chase
 	 * and Lev paper, this task was undertaken by the garbage collector, which
@@ -65,12 +66,11 @@ void deque_resize(events_deque_t *q) {
 	 * In our context, the responsible deallocation of *a cannot occur at this
 	 * point, as another thread could potentially be in the process of reading
 	 * from it. Thus, we opt to abstain from freeing *a in this context,
-	 * resulting in memory leakage. It is worth noting that our expansion
+	 * `deque_free` does. It is worth noting that our expansion
 	 * strategy for these queues involves consistent doubling of their size;
 	 * this design choice ensures that any leaked memory remains bounded by the
 	 * memory actively employed by the functional queues.
 	 */
-	events_free(a);
 }
 
 tasks_t *deque_take(events_deque_t *q) {
@@ -132,12 +132,14 @@ tasks_t *deque_steal(events_deque_t *q) {
 }
 
 void deque_free(events_deque_t *q) {
-	deque_array_t *a = NULL;
+	deque_array_t *a = NULL, *replaced;
 	if (q != NULL) {
 		a = atomic_get(deque_array_t *, &q->array);
-		if (a != NULL) {
-			atomic_store(&q->array, NULL);
+		atomic_store(&q->array, NULL);
+		while (a != NULL) {
+			replaced = a->replaced;
 			events_free((void *)a);
+			a = replaced;
 		}
 
 		memset(q, 0, sizeof(*q));
diff --git a/src/events_internal.h b/src/events_internal.h
index 537391f..b749889 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -148,8 +148,10 @@ enum {
 typedef char events_cacheline_t[__ATOMIC_CACHE_LINE];
 
 make_atomic(tasks_t *, atomic_tasks_t)
-typedef struct {
+typedef struct deque_array_s {
 	atomic_size_t size;
+	/* The smaller array this one replaced, thieves may still be reading it. */
+	struct deque_array_s *replaced;
 	atomic_tasks_t buffer[];
 } deque_array_t;
 make_atomic(deque_array_t *, atomic_task_array_t)
-- 
2.43.0


From 89e8c34a01992be2b9dc6a560ad13ea072e965e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 030/135] fix: an item of a work deque could be taken by its
 owner and stolen

---
 src/deque.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deque.c b/src/deque.c
index 490abeb..c2b37e6 100644
--- a/src/deque.c
+++ b/src/deque.c
@@ -75,10 +75,10 @@ void deque_resize(events_deque_t *q) {
 
 tasks_t *deque_take(events_deque_t *q) {
 	size_t b = atomic_load_explicit(&q->bottom, memory_order_relaxed) - 1;
-	size_t t = atomic_load_explicit(&q->top, memory_order_relaxed);
 	deque_array_t *a = (deque_array_t *)atomic_load_explicit(&q->array, memory_order_relaxed);
 	atomic_store_explicit(&q->bottom, b, memory_order_relaxed);
 	atomic_thread_fence(memory_order_seq_cst);
+	size_t t = atomic_load_explicit(&q->top, memory_order_relaxed);
 	tasks_t *x;
 	if ((ptrdiff_t)(b - t) >= 0) {
 		/* Non-empty queue */
-- 
2.43.0


From 45a395ac4eb6f8b687ae3388856ddf7ce5b50444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:53 +0000
Subject: [PATCH 031/135] fix: delay of more than 4294 ms returned the wrong
 time slept

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index ffc8b27..72289a8 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1399,7 +1399,7 @@ EVENTS_INLINE uint32_t delay(uint32_t ms) {
 	add_timeout(__thrd()->running, __thrd()->running, ms, now);
 	task_switch(__thrd()->current_handle);
 
-	return (uint32_t)(events_nsec() - now) / 1000000;
+	return (uint32_t)((events_nsec() - now) / 1000000);
 }
 
 static void wait_cb(fds_t fd, int event, void *arg) {
-- 
2.43.0


From e77c42656edc84d60dc289bd2cfd0b212c61b992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:53 +0000
Subject: [PATCH 032/135] fix: a generator not started yet was put on the run
 queue twice

---
 src/events.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/events.c b/src/events.c
index 72289a8..050b18b 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1632,11 +1632,6 @@ values_t yielded(generator_t gen) {
 		return data_values_empty->value;
 
 	while (!gen->is_ready && !gen->context->halt) {
-		if (gen->context->status == TASK_SUSPENDED) {
-			tasklist_t *l = __thrd()->run_queue;
-			enqueue(l, gen->context);
-		}
-
 		active_info();
 		yield();
 	}
-- 
2.43.0


From 8a837c12992824d3272dbeaf3d08f15a6a6d92bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 033/135] fix: the last value and the end of a generator were
 read from freed memory

---
 src/events.c          | 30 +++++++++++++++++++++++++-----
 src/events_internal.h |  5 ++++-
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/events.c b/src/events.c
index 050b18b..d96c631 100644
--- a/src/events.c
+++ b/src/events.c
@@ -117,6 +117,7 @@ static void task_sleep_switch(void);
 static int tasks_schedulering(bool do_io);
 static void *task_wait_system(void *v);
 static void enqueue_tasks(tasks_t *t);
+static void generator_done(generator_t gen);
 
 #include "deque.c"
 #include "asm.c"
@@ -1174,6 +1175,8 @@ void task_awaitable(void) {
 	data_delete(args);
 	deferred_unwind(co->garbage);
 	co->garbage = null;
+	if (co->is_generator)
+		generator_done(co->generator);
 }
 
 void task_func(void) {
@@ -1586,6 +1589,24 @@ EVENTS_INLINE uint32_t gen_id(void) {
 	return active_task()->gen_id;
 }
 
+/* Called at the end of the task that created the generator, and of the generator itself,
+the last one frees. */
+static void generator_free(void *data) {
+	generator_t gen = (generator_t)data;
+	if (gen->is_done) {
+		gen->type = DATA_INVALID;
+		events_free(gen);
+	} else {
+		gen->is_owned = false;
+	}
+}
+
+static void generator_done(generator_t gen) {
+	gen->is_done = true;
+	if (!gen->is_owned)
+		generator_free(gen);
+}
+
 generator_t generator(param_func_t fn, size_t num_of, ...) {
 	generator_t gen = NULL;
 	va_list ap;
@@ -1601,12 +1622,11 @@ generator_t generator(param_func_t fn, size_t num_of, ...) {
 		if (gen != NULL) {
 			gen->rid = rid;
 			gen->is_ready = false;
-			gen->context = t;
+			gen->is_done = false;
 			gen->type = DATA_GENERATOR;
 			t->generator = gen;
 			t->is_generator = true;
-			t->garbage = array();
-			$append(t->garbage, gen);
+			gen->is_owned = defer_free_by(gen, generator_free);
 		}
 	}
 
@@ -1631,12 +1651,12 @@ values_t yielded(generator_t gen) {
 	if (data_type(gen) != DATA_GENERATOR)
 		return data_values_empty->value;
 
-	while (!gen->is_ready && !gen->context->halt) {
+	while (!gen->is_ready && !gen->is_done) {
 		active_info();
 		yield();
 	}
 
-	if (data_type(gen) != DATA_GENERATOR || (gen->context->halt && !gen->is_ready))
+	if (!gen->is_ready)
 		return data_values_empty->value;
 
 	active_task()->gen_id = gen->rid;
diff --git a/src/events_internal.h b/src/events_internal.h
index b749889..db88e0f 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -468,8 +468,11 @@ struct generator_s {
 	data_types type;
 	uint32_t rid;
 	bool is_ready;
+	/* the generator function has returned */
+	bool is_done;
+	/* the task that called `generator()` has not ended */
+	bool is_owned;
 	values_t values[1];
-	tasks_t *context;
 };
 
 struct execinfo_s {
-- 
2.43.0


From 8956fda8fa1056beb617a4d6436b7a625a873d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 034/135] fix: an error of a descriptor was not reported to who
 waits to write

---
 src/epoll.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/epoll.c b/src/epoll.c
index 44f25e8..820f20d 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -161,8 +161,8 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 		if (loop->loop.loop_id == target->loop_id
 			&& (target->events & EVENTS_READWRITE) != 0) {
 			/* an earlier callback may have changed what is asked for */
-			int revents = ((((event->events & EPOLLIN) != 0 ? EVENTS_READ : 0)
-				| ((event->events & EPOLLOUT) != 0 ? EVENTS_WRITE : 0)) & target->events)
+			int revents = ((((event->events & (EPOLLIN | EPOLLERR)) != 0 ? EVENTS_READ : 0)
+				| ((event->events & (EPOLLOUT | EPOLLERR)) != 0 ? EVENTS_WRITE : 0)) & target->events)
 				| ((event->events & EPOLLHUP) != 0 ? EVENTS_CLOSED : 0);
 			if (target->is_pathwatcher) {
 				char *buffer = events_malloc(Kb(8) + sizeof(inotify_t));
-- 
2.43.0


From d4ff3704a6d24bdc71fbef400af2ec50502e8727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 035/135] fix: a timeout set while the loop had not run for a
 while fired early

---
 src/events.c          | 18 +++++++++++++++---
 src/events_internal.h |  1 +
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/events.c b/src/events.c
index d96c631..3df1b1a 100644
--- a/src/events.c
+++ b/src/events.c
@@ -410,7 +410,7 @@ int events_tcp_timeout(fds_t fd, int milliseconds) {
 	return (r1 || r2);
 }
 
-EVENTS_INLINE void events_set_timeout(fds_t sfd, int secs) {
+static void events_set_timeout_at(fds_t sfd, time_t when) {
 	events_t *loop;
 	events_fd_t *target;
 	short *vec, *vec_of_vec;
@@ -433,8 +433,9 @@ EVENTS_INLINE void events_set_timeout(fds_t sfd, int secs) {
 		}
 		target->timeout_idx = EVENTS_TIMEOUT_IDX_UNUSED;
 	}
-	if (secs != 0) {
-		delta = (loop->now + secs - loop->timeout.base_time)
+	if (when != 0) {
+		target->timeout_at = when;
+		delta = (when - loop->timeout.base_time)
 			/ loop->timeout.resolution;
 		if (delta >= EVENTS_TIMEOUT_VEC_SIZE) {
 			delta = EVENTS_TIMEOUT_VEC_SIZE - 1;
@@ -448,6 +449,11 @@ EVENTS_INLINE void events_set_timeout(fds_t sfd, int secs) {
 	}
 }
 
+EVENTS_INLINE void events_set_timeout(fds_t sfd, int secs) {
+	/* not `loop->now`, the loop may have waited, or not run, since */
+	events_set_timeout_at(sfd, secs != 0 ? time(NULL) + secs : 0);
+}
+
 EVENTS_INLINE events_fd_t *events_target(int fd) {
 	return (events_fd_t *)atomic_load_explicit(&sys_event.fds, memory_order_relaxed) + fd;
 }
@@ -801,6 +807,12 @@ EVENTS_INLINE void events_handle_timeout_internal(events_t *loop) {
 						for (k = j * EVENTS_SHORT_BITS; v != 0; k++, v <<= 1) {
 							events_fd_t *fd = events_target(k);
 							if (v < 0 && fd->loop_id == loop->loop_id && fd->timeout_idx == (int)loop->timeout.base_idx) {
+								/* was beyond the end of the vector when set */
+								if (fd->timeout_at > loop->now) {
+									events_set_timeout_at(k, fd->timeout_at);
+									continue;
+								}
+
 								fd->timeout_idx = EVENTS_TIMEOUT_IDX_UNUSED;
 								events_id_t loop_id = loop->loop_id;
 								(*fd->callback)(k, EVENTS_TIMEOUT, fd->cb_arg);
diff --git a/src/events_internal.h b/src/events_internal.h
index db88e0f..8b1f382 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -231,6 +231,7 @@ struct events_fd_s {
 	events_id_t loop_id;
 	char events;
 	unsigned char timeout_idx; /* EVENTS_TIMEOUT_IDX_UNUSED if not used */
+	time_t timeout_at; /* set when `timeout_idx` is used */
 	int signal_idx;
 	bool signal_set;
 	bool is_iodispatch;
-- 
2.43.0


From 2dd3de00865a65a0058d68f30dbc40639a549a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 036/135] fix: a signal took the loop of the descriptor of the
 same number, and counted on two loops

---
 src/events.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/events.c b/src/events.c
index 3df1b1a..5327a8b 100644
--- a/src/events.c
+++ b/src/events.c
@@ -565,10 +565,14 @@ int events_add(events_t *loop, fds_t sfd, int event, int timeout_in_secs,
 	if (event == EVENTS_SIGNAL) {
 		if ((sig_idx = events_add_signal(fd, callback, cb_arg)) >= 0) {
 			loop->signal_handlers = events_signals();
-			if (loop->signal_handlers[sig_idx].loop != loop)
+			if (loop->signal_handlers[sig_idx].loop != loop) {
+				if (loop->signal_handlers[sig_idx].loop != NULL)
+					loop->signal_handlers[sig_idx].loop->active_signals--;
+
 				loop->active_signals++;
+			}
+
 			loop->signal_handlers[sig_idx].loop = loop;
-			target->loop = loop;
 			target->signal_idx = sig_idx;
 			target->signal_set = true;
 			return 0;
@@ -958,7 +962,8 @@ EVENTS_INLINE actor_t *events_actor(events_t *loop, int ms, actor_cb timer, void
 EVENTS_INLINE events_t *events_loop(fds_t sfd) {
 	assert(EVENTS_IS_INITD_AND_FD_IN_RANGE(socket2fd(sfd)));
 	events_fd_t *target = events_target(socket2fd(sfd));
-	return (target->signal_set)
+	/* a signal and a descriptor may have the same number */
+	return (target->signal_set && (target->loop_id == 0 || events_signals()[target->signal_idx].is_running))
 		? events_signals()[target->signal_idx].loop : target->loop;
 }
 
-- 
2.43.0


From 92df8e57472de354bb0b2a77511467c8b13f351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 037/135] fix: two signals at once, taken by two threads, ended
 the process

---
 src/os_unix.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index a8518a2..c8a8732 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -16,9 +16,9 @@
 #if !defined(_WIN32) /* UNIX ONLY */
 
 static void clear_pseudo_events(void);
-static sigset_t events_siglock, events_siglock_all;
 static struct sigaction events_sig_sa = {0}, events_sig_osa = {0};
-static volatile sig_atomic_t signal_running = false;
+static atomic_flag signal_running = ATOMIC_FLAG_INIT;
+static pthread_t signal_thread;
 static sys_signal_t events_sig[max_event_sig] = {0};
 volatile sig_atomic_t events_got_signal = 0;
 
@@ -647,13 +647,16 @@ int exec_wait(process_t ps, uint32_t timeout_ms, int *exit_code) {
 }
 
 static void events_sig_handler(int sig) {
-	if (signal_running)
-		exit(1);
-
-	signal_running = true;
 	int i;
 
-	events_sigblock;
+	/* another thread may be running a handler, this one has all signals blocked while it does */
+	while (atomic_flag_test_and_set(&signal_running)) {
+		if (pthread_equal(signal_thread, pthread_self()))
+			exit(1);
+	}
+
+	signal_thread = pthread_self();
+
 	events_got_signal++;
 	for (i = 0; i < max_event_sig; i++) {
 		if (events_sig[i].sig == sig && events_sig[i].proc != NULL) {
@@ -664,8 +667,8 @@ static void events_sig_handler(int sig) {
 			break;
 		}
 	}
-	events_sigunblock;
-	signal_running = false;
+	memset(&signal_thread, 0, sizeof(signal_thread));
+	atomic_flag_clear(&signal_running);
 }
 
 void events_del_signal(int sig, int i) {
@@ -687,6 +690,7 @@ sys_signal_t *events_signals(void) {
 }
 
 int events_add_signal(int sig, sig_cb proc, void *data) {
+	sigset_t events_siglock, events_siglock_all;
 	int i;
 	for (i = 0; i < max_event_sig; i++) {
 		if (events_sig[i].proc && events_sig[i].sig == sig)
-- 
2.43.0


From 12fd3778a64f6b248444cd997a53d2a5cb540f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:33 +0000
Subject: [PATCH 038/135] fix: a thread of the pool used a promise after its
 result was collected

---
 src/events.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/events.c b/src/events.c
index 5327a8b..ed15a51 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2704,14 +2704,18 @@ static int __future_wrapper(void *arg) {
 			promise *worker = (promise *)$shift(queue->jobs).object;
 			atomic_unlock(&work->mutex);
 
-			if (worker && worker->func)
-				res->object = worker->func(worker->args);
-			promise_set(worker, res->object);
+			param_t args = worker->args;
+			if (worker->func)
+				res->object = worker->func(args);
 
-			$delete(worker->args);
-			if (is_data(res->object) && is_empty(scope_local()->local))
+			/* once set, the promise is no longer ours */
+			worker->args = NULL;
+			promise_set(worker, res->object);
+			if (res->object != casting(args) && is_data(res->object) && is_empty(scope_local()->local))
 				$delete(res->object);
 
+			$delete(args);
+
 			scope_unwind(scope_local());
 		} else {
 			os_sleep(1);
-- 
2.43.0


From 2e7a1fc088adacfede6fd07d1410f88c0f6e2c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:33 +0000
Subject: [PATCH 039/135] fix: a promise was freed while its task still used
 it, and its errno was set in that task

---
 src/events_internal.h |  2 ++
 src/future.c          | 19 ++++++++++++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/events_internal.h b/src/events_internal.h
index 8b1f382..6d24642 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -194,6 +194,8 @@ struct _promise {
 	ex_memory_t *scope;
 	atomic_spinlock mutex;
 	atomic_flag done;
+	/* the task that queued it has ended its use of it */
+	atomic_flag released;
 };
 
 struct future_s {
diff --git a/src/future.c b/src/future.c
index d291fc5..837b051 100644
--- a/src/future.c
+++ b/src/future.c
@@ -9,6 +9,7 @@ static future_t future_create(thrd_func_t func, void *args) {
 		fut->promise->func = func;
 		atomic_flag_clear(&fut->promise->mutex);
 		atomic_flag_clear(&fut->promise->done);
+		atomic_flag_test_and_set(&fut->promise->released);
 		fut->promise->type = DATA_PROMISE;
 		fut->type = DATA_FUTURE;
 	}
@@ -57,9 +58,12 @@ void promise_set(promise *p, void *res) {
 }
 
 EVENTS_INLINE values_t promise_wait(promise *p) {
-	while (is_promise(p) && !atomic_flag_load(&p->done))
+	while (is_promise(p) && !(atomic_flag_load(&p->done) && atomic_flag_load(&p->released)))
 		yield_active_info();
 
+	if (p->erred)
+		errno = p->erred;
+
 	return p->result->value;
 }
 
@@ -261,8 +265,7 @@ static void queue_work_handler(param_t args) {
 	while (!atomic_flag_load(&job->done))
 		yield_active_info();
 
-	if (job->erred)
-		errno = job->erred;
+	atomic_flag_test_and_set(&job->released);
 }
 
 promise *alloc_promise(void) {
@@ -273,6 +276,7 @@ promise *alloc_promise(void) {
 		f->result->value.integer = 0;
 		atomic_flag_clear(&f->mutex);
 		atomic_flag_clear(&f->done);
+		atomic_flag_clear(&f->released);
 		f->type = DATA_PROMISE;
 	}
 
@@ -299,6 +303,7 @@ promise *promise_work(promise *f, param_func_t fn, size_t num_args, ...) {
 			f->result->is_array = false;
 			atomic_flag_clear(&f->mutex);
 			atomic_flag_clear(&f->done);
+			atomic_flag_clear(&f->released);
 			/* determent which thread tasks pool receive next `future` job. */
 			thrded = sys_event.local[sys_event.future_cpu_idx[(atomic_load(&sys_event.future_id_count)
 				% ($size(sys_event.future_cpu_idx)))].u_int]->pool;
@@ -351,6 +356,7 @@ promise *queue_work(future *thrd, param_func_t fn, size_t num_args, ...) {
 			f->result->is_array = false;
 			atomic_flag_clear(&f->mutex);
 			atomic_flag_clear(&f->done);
+			atomic_flag_clear(&f->released);
 			/* determent which thread tasks pool receive next `future` job. */
 			thrded = sys_event.local[sys_event.future_cpu_idx[(atomic_load(&sys_event.future_id_count)
 				% ($size(sys_event.future_cpu_idx)))].u_int]->pool;
@@ -394,7 +400,7 @@ void queue_wait(array_t work, then_cb then) {
 	if (is_data(work)) {
 		while ($size(work) > 0) {
 			foreach(worker in work) {
-				if (!queue_is_valid(worker.object)) {
+				if (!queue_is_valid(worker.object) && atomic_flag_load(&((promise *)worker.object)->released)) {
 					if (!is_empty(then)) {
 						defer_free(worker.object);
 						promise *value = (promise *)worker.object;
@@ -430,9 +436,12 @@ values_t queue_get(void *self) {
 	}
 
 	if (!is_empty(p)) {
-		while (!atomic_flag_load(&p->done))
+		while (!atomic_flag_load(&p->done) || !atomic_flag_load(&p->released))
 			yield_active_info();
 
+		if (p->erred)
+			errno = p->erred;
+
 		if (p->result->is_array == 1) {
 			defer_free(p);
 			defer_free(p->result->value.object);
-- 
2.43.0


From 5021fdbc22659b2836d626020837366138e6e44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 040/135] fix: tasks started by several threads at once were
 lost

---
 src/events.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index ed15a51..47392e1 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2545,8 +2545,9 @@ static void enqueue_tasks(tasks_t *t) {
 	atomic_thread_fence(memory_order_seq_cst);
 	atomic_lock(&sys_event.lock);
 	events_deque_t *queue = sys_event.local[t->tid];
-	atomic_unlock(&sys_event.lock);
+	/* any thread may push here, it's not only the owner */
 	deque_push(queue, t);
+	atomic_unlock(&sys_event.lock);
 	atomic_fetch_add(&queue->available, 1);
 }
 
-- 
2.43.0


From 2cab2c52117c53e98c3201bf00239c8460478e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 041/135] fix: a task of a wait group that waited for a task of
 the same thread hung

---
 src/events.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/events.c b/src/events.c
index 47392e1..a1eb4af 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2220,6 +2220,7 @@ EVENTS_INLINE size_t tasks_count(task_group_t *wg) {
 	return 0;
 }
 
+static bool task_take(events_deque_t *queue);
 static void __thrd_waitfor(events_deque_t *q) {
 	tasks_t *co, *t = active_task();
 	waitgroup_t wg = q->tasks;
@@ -2243,6 +2244,8 @@ static void __thrd_waitfor(events_deque_t *q) {
 
 	yield();
 	while ($size(q->jobs) > 0) {
+		/* the tasks of the group may be waiting for others of this thread */
+		task_take(q);
 		foreach(group in q->jobs) {
 			co = (tasks_t *)group.object;
 			if (task_is_terminated(co)) {
-- 
2.43.0


From faba29659687884b569b560259c193543f31df8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 042/135] fix: the lock of a wait group was released after the
 group was freed

---
 src/events.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/events.c b/src/events.c
index a1eb4af..6accc0b 100644
--- a/src/events.c
+++ b/src/events.c
@@ -104,7 +104,7 @@ struct task_group_s {
 	bool threaded;
 	bool taken;
 	size_t capacity;
-	size_t count;
+	atomic_size_t count;
 	array_t results;
 	array_t group;
 };
@@ -2188,7 +2188,7 @@ waitgroup_t waitgroup(uint32_t capacity) {
 
 		wg->threaded = true;
 		wg->capacity = resized;
-		wg->count = active_cores;
+		atomic_init(&wg->count, active_cores);
 
 		for (i = 0; i < active_cores; i++) {
 			events_deque_t *q = sys_event.local[sys_event.tasks_cpu_idx[i].max_size];
@@ -2268,9 +2268,8 @@ static void __thrd_waitfor(events_deque_t *q) {
 		igroup = 0;
 	}
 
-	atomic_lock($lock(wg->group));
-	wg->count--;
-	atomic_unlock($lock(wg->group));
+	/* then the group is gone, with its lock */
+	atomic_fetch_sub(&wg->count, 1);
 }
 
 array_t waitfor(waitgroup_t wg) {
@@ -2328,7 +2327,7 @@ array_t waitfor(waitgroup_t wg) {
 			itask = 0;
 		}
 
-		while ((int)wg->count > 0)
+		while ((int)atomic_load(&wg->count) > 0)
 			yield();
 
 		if ($size(wgr) == 0) {
-- 
2.43.0


From 17b5a1497eae1ea0e78bcadfa8d616d9f1ed1c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:18 +0000
Subject: [PATCH 043/135] fix: wait groups of two tasks at the same time hung
 or lost tasks

---
 src/events.c | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/events.c b/src/events.c
index 6accc0b..6a8af21 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2106,6 +2106,13 @@ static void tasks_poster(waitgroup_t wg) {
 			for (i = 0; i < $size(sys_event.tasks_cpu_idx); i++) {
 				k = sys_event.tasks_cpu_idx[i].u_int;
 				events_deque_t *q = sys_event.local[k];
+				/* still busy with the group of another task */
+				while (!is_empty(q->tasks))
+					yield();
+
+				if ($capacity(q->jobs) < wg->capacity)
+					$reserve(q->jobs, wg->capacity + 1);
+
 				for (c = 0; c < wg->capacity && $size(wg->group) > 0; c++) {
 					tasks_t *t = (tasks_t *)$pop(wg->group).object;
 					t->tid = k;
@@ -2181,7 +2188,7 @@ waitgroup_t waitgroup(uint32_t capacity) {
 	atomic_thread_fence(memory_order_seq_cst);
 	waitgroup_t wg = NULL;
 	if (is_data(sys_event.tasks_cpu_idx) && $size(sys_event.tasks_cpu_idx) > 0) {
-		size_t i, active_cores = $size(sys_event.tasks_cpu_idx), resized = capacity / (active_cores + 1);
+		size_t active_cores = $size(sys_event.tasks_cpu_idx), resized = capacity / (active_cores + 1);
 		wg = task_group();
 		if ($capacity(wg->group) < capacity)
 			$reserve(wg->group, capacity + 1);
@@ -2189,17 +2196,6 @@ waitgroup_t waitgroup(uint32_t capacity) {
 		wg->threaded = true;
 		wg->capacity = resized;
 		atomic_init(&wg->count, active_cores);
-
-		for (i = 0; i < active_cores; i++) {
-			events_deque_t *q = sys_event.local[sys_event.tasks_cpu_idx[i].max_size];
-			if (is_ptr_usable(q) && is_data(q->jobs)) {
-				if ($capacity(q->jobs) < resized) {
-					atomic_lock($lock(q->jobs));
-					$reserve(q->jobs, resized + 1);
-					atomic_unlock($lock(q->jobs));
-				}
-			}
-		}
 	}
 
 	return wg;
@@ -2226,7 +2222,6 @@ static void __thrd_waitfor(events_deque_t *q) {
 	waitgroup_t wg = q->tasks;
 	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = wg->results;
-	q->tasks = NULL;
 
 	foreach(task in q->jobs) {
 		co = (tasks_t *)task.object;
@@ -2268,6 +2263,8 @@ static void __thrd_waitfor(events_deque_t *q) {
 		igroup = 0;
 	}
 
+	/* ready for another group */
+	q->tasks = NULL;
 	/* then the group is gone, with its lock */
 	atomic_fetch_sub(&wg->count, 1);
 }
-- 
2.43.0


From 83b3802725306a0e251aaa3405f524910066dc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 044/135] fix: guard sections of two threads at the same time
 took each other's handlers

---
 include/except.h |  7 +++++--
 src/except.c     | 17 +++++++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/except.h b/include/except.h
index b215fde..4c3a9f2 100644
--- a/include/except.h
+++ b/include/except.h
@@ -429,8 +429,11 @@ C_API ex_unwind_func exception_unwind_func;
 C_API ex_terminate_func exception_terminate_func;
 C_API ex_terminate_func exception_ctrl_c_func;
 
-C_API ex_setup_func guard_setup_func;
-C_API ex_unwind_func guard_unwind_func;
+/* Of the `guard` section the calling thread is in. */
+C_API ex_setup_func *guard_setup_local(void);
+C_API ex_unwind_func *guard_unwind_local(void);
+#define guard_setup_func (*guard_setup_local())
+#define guard_unwind_func (*guard_unwind_local())
 C_API ex_terminate_func guard_ctrl_c_func;
 C_API ex_terminate_func guard_terminate_func;
 
diff --git a/src/except.c b/src/except.c
index 794e5b0..d45c925 100644
--- a/src/except.c
+++ b/src/except.c
@@ -78,8 +78,13 @@ ex_terminate_func exception_terminate_func = null;
 static bool exception_signal_set = false;
 static ex_memory_t *atexit_ctr_c_unwind = null;
 
-ex_setup_func guard_setup_func = null;
-ex_unwind_func guard_unwind_func = null;
+#ifdef emulate_tls
+static ex_setup_func guard_setup_buffer = null;
+static ex_unwind_func guard_unwind_buffer = null;
+#else
+static thread_local ex_setup_func guard_setup_buffer = null;
+static thread_local ex_unwind_func guard_unwind_buffer = null;
+#endif
 ex_terminate_func guard_ctrl_c_func = null;
 ex_terminate_func guard_terminate_func = null;
 
@@ -1114,6 +1119,14 @@ void *fence(void *ptr, func_t func) {
 	return ptr;
 }
 
+EVENTS_INLINE ex_setup_func *guard_setup_local(void) {
+	return &guard_setup_buffer;
+}
+
+EVENTS_INLINE ex_unwind_func *guard_unwind_local(void) {
+	return &guard_unwind_buffer;
+}
+
 ex_guard_t *guard_init(void) {
 	ex_guard_t *gd = (ex_guard_t *)events_calloc(1, _mem_align_up(sizeof(ex_guard_t), 2));
 	if (is_empty(gd))
-- 
2.43.0


From 260e6b3bf4968dbc6131c2c627bfb9ac3f23bd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 045/135] fix: a task that suspended in a try or guard section
 left it to the next task

---
 src/events.c          | 13 +++++++++++++
 src/events_internal.h | 15 +++++++++++++++
 src/except.c          | 23 +++++++++++++++++++++++
 3 files changed, 51 insertions(+)

diff --git a/src/events.c b/src/events.c
index 6a8af21..8a37293 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1446,6 +1446,15 @@ void async_wait(int fd, int rw) {
 	task_switch(__thrd()->current_handle);
 }
 
+/* The `try` and `guard` sections a task is in are its own, a new one starts in those of the scheduler. */
+static EVENTS_INLINE void task_switch_except(tasks_t *from, tasks_t *to) {
+	ex_state_get(from->except);
+	if (to->except->is_set)
+		ex_state_set(to->except);
+	else if (__thrd()->main_handle != NULL && __thrd()->main_handle->except->is_set)
+		ex_state_set(__thrd()->main_handle->except);
+}
+
 #if defined(_WIN32) && defined(USE_FIBER)
 static EVENTS_INLINE void __stdcall fiber_thunk(void *func) {
 	((void (*)(void))func)();
@@ -1463,6 +1472,7 @@ tasks_t *task_derive(void *memory, size_t heapsize, bool is_thread) {
 
 void task_switch(tasks_t *handle) {
 	tasks_t *coro_previous_handle = __thrd()->active_handle;
+	task_switch_except(coro_previous_handle, handle);
 	__thrd()->active_handle = handle;
 	__thrd()->active_handle->status = TASK_RUNNING;
 	__thrd()->current_handle = coro_previous_handle;
@@ -1481,6 +1491,7 @@ static void _spring_board(int ignored) {
 
 /* Switch to specified coroutine. */
 void task_switch(tasks_t *co) {
+	task_switch_except(active_task(), co);
 	if (!sigsetjmp(((coroutine_t *)active_task())->sig_ctx, 0)) {
 		tasks_t *task_previous_handle = __thrd()->active_handle;
 		__thrd()->active_handle = co;
@@ -1560,6 +1571,7 @@ tasks_t *task_derive(void *co, size_t stack_size, bool is_thread) {
 /* Switch to specified coroutine. */
 void task_switch(tasks_t *co) {
 	tasks_t *task_previous_handle = __thrd()->active_handle;
+	task_switch_except(task_previous_handle, co);
 	__thrd()->active_handle = co;
 	__thrd()->active_handle->status = TASK_RUNNING;
 	__thrd()->current_handle = task_previous_handle;
@@ -1576,6 +1588,7 @@ EVENTS_INLINE void task_switch(tasks_t *co) {
 #else
 	tasks_t *task_previous_handle = __thrd()->active_handle;
 #endif
+	task_switch_except(task_previous_handle, co);
 	__thrd()->active_handle = co;
 	__thrd()->active_handle->status = TASK_RUNNING;
 	__thrd()->current_handle = task_previous_handle;
diff --git a/src/events_internal.h b/src/events_internal.h
index 6d24642..a6c881b 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -413,6 +413,19 @@ struct ucontext_s {
 };
 #endif
 
+typedef struct {
+	bool is_set;
+	int status;
+	void *arena;
+	ex_context_t *context;
+	ex_setup_func setup;
+	ex_unwind_func unwind;
+} ex_state_t;
+
+/* Store, and set `try` and `guard` sections of the calling thread. */
+void ex_state_get(ex_state_t *state);
+void ex_state_set(ex_state_t *state);
+
 /* Extended events coroutine context. */
 struct events_task_s {
 #if defined(USE_UCONTEXT)
@@ -463,6 +476,8 @@ struct events_task_s {
 	void *args;
 	void *user_data;
 	values_t *results;
+	/* `try` and `guard` sections the task is in, while another one runs */
+	ex_state_t except[1];
 	char err_buf[ERR_BUF + 1];
 	char name[MAX_PATH];
 };
diff --git a/src/except.c b/src/except.c
index d45c925..985aa10 100644
--- a/src/except.c
+++ b/src/except.c
@@ -1127,6 +1127,29 @@ EVENTS_INLINE ex_unwind_func *guard_unwind_local(void) {
 	return &guard_unwind_buffer;
 }
 
+void ex_state_get(ex_state_t *state) {
+	ex_memory_t *scope = scope_local();
+	state->is_set = true;
+	state->context = ex_local();
+	state->setup = guard_setup_func;
+	state->unwind = guard_unwind_func;
+	state->arena = is_empty(scope) ? null : scope->arena;
+	state->status = is_empty(scope) ? DATA_INVALID : scope->status;
+}
+
+void ex_state_set(ex_state_t *state) {
+	ex_memory_t *scope = scope_local();
+	if (ex_local() != state->context)
+		ex_update(state->context);
+
+	guard_setup_func = state->setup;
+	guard_unwind_func = state->unwind;
+	if (!is_empty(scope)) {
+		scope->arena = state->arena;
+		scope->status = state->status == DATA_INVALID ? DATA_RAII : state->status;
+	}
+}
+
 ex_guard_t *guard_init(void) {
 	ex_guard_t *gd = (ex_guard_t *)events_calloc(1, _mem_align_up(sizeof(ex_guard_t), 2));
 	if (is_empty(gd))
-- 
2.43.0


From 194421a95fe52d93a3dfb3570bda8aad64d3190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:47 +0000
Subject: [PATCH 046/135] fix: a task was used after its thread freed it

---
 src/events.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/events.c b/src/events.c
index 8a37293..6ce35c0 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1821,9 +1821,12 @@ uint32_t task_push(tasks_t *t, bool has_result) {
 	if (t && t->status == TASK_SUSPENDED && t->cid == DATA_INVALID) {
 		tasks_t *c = active_task();
 		bool is_group = false;
+		uint32_t id;
 		t->cid = (uint32_t)atomic_fetch_add(&sys_event.id_generate, 1) + 1;
 		t->rid = (has_result) ? tasks_create_result()->id : NO_RESULT;
 		t->taken = false;
+		/* once another thread has the task, it may end at any time */
+		id = has_result ? t->rid : t->cid;
 
 		/* keep track of tasks in waitgroup */
 		if (c->group_active && c->task_group != NULL && !c->group_finish) {
@@ -1851,6 +1854,8 @@ uint32_t task_push(tasks_t *t, bool has_result) {
 
 			enqueue_tasks(t);
 		}
+
+		return id;
 	}
 
 	return (t == NULL) ? TASK_ERRED : (has_result ? t->rid : t->cid);
@@ -1873,8 +1878,6 @@ EVENTS_INLINE void accept_handler(client_cb connected, int client) {
 		tasks_t *t = create_task(Kb(32), (data_func_t)accept_client_handler, params, true, true);
 		if (!is_empty(t)) {
 			task_push(t, false);
-			events_deque_t *q = sys_event.local[t->tid];
-			atomic_flag_test_and_set(&q->started);
 			yield();
 		} else {
 			$delete(params);
@@ -2176,8 +2179,6 @@ void go_guard(size_t stacksize, guarded_func_t fn, defer_cb cleanup, void *any)
 		tasks_t *t = create_task(stacksize, (data_func_t)_os_guarded, params, true, true);
 		if (!is_empty(t)) {
 			task_push(t, false);
-			events_deque_t *q = sys_event.local[t->tid];
-			atomic_flag_test_and_set(&q->started);
 			yield();
 		} else {
 			$delete(params);
@@ -2561,6 +2562,7 @@ static void enqueue_tasks(tasks_t *t) {
 	deque_push(queue, t);
 	atomic_unlock(&sys_event.lock);
 	atomic_fetch_add(&queue->available, 1);
+	atomic_flag_test_and_set(&queue->started);
 }
 
 static void __tasks_pool_main(param_t args) {
-- 
2.43.0


From c6569f83d801f2e900548b3687b75ee340154810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 047/135] fix: catch_if ran twice, and instead of finally, for
 an exception it did not accept

---
 src/except.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/except.c b/src/except.c
index 985aa10..a88a31a 100644
--- a/src/except.c
+++ b/src/except.c
@@ -942,7 +942,7 @@ bool try_next(ex_error_t *err, ex_context_t *ex_err) {
 bool try_catching(char *type, ex_error_t *err, ex_context_t *ex_err) {
     /* check if this CATCH block can handle current exception */
     bool status = false;
-    if (ex_err->state == ex_throw_st) {
+    if (ex_err->state == ex_throw_st && err->stage == ex_throw_st) {
         try_updating_err(err, ex_err);
         if (str_is("_if", type)) {
             status = true;
-- 
2.43.0


From 334929ad3c148daca81921beeb1abaa1491883cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 048/135] fix: caught and try_message told of another exception
 than the one being handled

---
 src/except.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/except.c b/src/except.c
index a88a31a..18a6b66 100644
--- a/src/except.c
+++ b/src/except.c
@@ -967,29 +967,29 @@ EVENTS_INLINE bool try_finallying(ex_error_t *err, ex_context_t *ex_err) {
     return false;
 }
 
+/* What the current `try` block caught, `scope` holds what was thrown last anywhere in the thread. */
+static const char *try_exception(ex_memory_t *scope) {
+	ex_context_t *ctx = ex_local();
+	if (!is_empty(ctx) && !is_empty((void *)ctx->ex))
+		return !is_empty((void *)ctx->_panic) ? ctx->_panic : ctx->ex;
+
+	return is_empty(scope) ? null : (const char *)(!is_empty((void *)scope->_panic) ? scope->_panic : scope->err);
+}
+
 bool try_caught(const char *err) {
 	ex_memory_t *scope = scope_local();
-	if (!is_empty(scope)) {
-		const char *exception = !is_empty(scope->_panic) ? scope->_panic : scope->err;
-		if ((scope->is_recovered = str_is(err, exception)))
-			ex_local()->state = ex_catch_st;
-
-		return scope->is_recovered;
-	}
+	bool is_caught = str_is(err, try_exception(scope));
+	if (!is_empty(scope))
+		scope->is_recovered = is_caught;
 
-	const char *exception = !is_empty(ex_local()->_panic) ? ex_local()->_panic : ex_local()->ex;
-	if (str_is(err, exception)) {
+	if (is_caught)
 		ex_local()->state = ex_catch_st;
-		return true;
-	}
 
-	return false;
+	return is_caught;
 }
 
 EVENTS_INLINE const char *try_message(void) {
-	ex_memory_t *scope = get_scope();
-	const char *exception = (const char *)(!is_empty(scope->_panic) ? scope->_panic : scope->err);
-	return exception == NULL ? ex_local()->ex : exception;
+	return try_exception(get_scope());
 }
 
 EVENTS_INLINE ex_memory_t *scope_local(void) {
-- 
2.43.0


From 2e611a77286e4b8d6fab21795a31ba997ccbd564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 049/135] fix: fence ran the scope's cleanups at a throw, or
 freed what the block pointed to

An exception thrown while a guard section had fenced memory ran all the
section's cleanups at once, also when a try inside of the section caught it
and the section went on. Fenced in a plain try, the first word of the block
was taken as the pointer to clean up.
---
 src/except.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/except.c b/src/except.c
index 18a6b66..f1f36cd 100644
--- a/src/except.c
+++ b/src/except.c
@@ -1111,10 +1111,8 @@ void *fence(void *ptr, func_t func) {
 	if (is_empty(ptr))
 		return null;
 
-	ex_memory_t *scope = get_scope();
-	ex_protect_ptr(scope->protector, ptr, func);
-	scope->is_protected = true;
-	scope_deferred(scope, func, ptr);
+	/* The scope owns it, an exception passing a `try` block inside of the scope doesn't end the scope. */
+	scope_deferred(get_scope(), func, ptr);
 
 	return ptr;
 }
-- 
2.43.0


From ae88612e698ce72b4c99fedc6bd1880a94d2b157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 050/135] fix: cleanups of a guard section were told of
 exceptions already handled inside of it

guard_message and guard_caught looked at what was thrown last in the section,
also when a try inside of it had caught that and the section ended normally.
---
 src/except.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/except.c b/src/except.c
index f1f36cd..43e75be 100644
--- a/src/except.c
+++ b/src/except.c
@@ -1168,6 +1168,14 @@ ex_guard_t *guard_init(void) {
 	return gd;
 }
 
+#ifndef _WIN32
+/* What ends the `guard` section, its `scope` holds also what a `try` block inside of it caught. */
+static const char *guard_exception(void) {
+	ex_context_t *ctx = ex_local();
+	return is_empty(ctx) ? null : (const char *)(!is_empty((void *)ctx->_panic) ? ctx->_panic : ctx->ex);
+}
+#endif
+
 EVENTS_INLINE const char *guard_message(void) {
 	/* Checking `scope` here stops propagation if exception in `defer(callback)`
 	 * or `atexit(routine)` with no scope, means the initial setup caller has
@@ -1190,7 +1198,7 @@ EVENTS_INLINE const char *guard_message(void) {
 		return "";
 	}
 
-	return (const char *)(!is_empty(scope->_panic) ? scope->_panic : scope->err);
+	return guard_exception();
 #endif
 }
 
@@ -1204,7 +1212,9 @@ EVENTS_INLINE bool guard_caught(const char *err) {
 	}
 #else
 	ex_memory_t *scope = scope_local()->arena;
-    const char *exception = (const char *)(!is_empty((void *)scope->_panic) ? scope->_panic : scope->err);
+	const char *exception = guard_exception();
+	if (is_empty(scope))
+		return false;
 #endif
     if ((scope->is_recovered = str_is(err, exception)))
         ex_local()->state = ex_catch_st;
-- 
2.43.0


From e80390b71c3bfc60661bc74eeb15c7b51b5f2148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 051/135] fix: what a task fenced outside of a guard section
 stayed until its thread ended

It was kept in the scope of the thread, which all its tasks share, and which
in a thread of the pool can be gone already.
---
 src/except.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/except.c b/src/except.c
index 43e75be..caf0aa6 100644
--- a/src/except.c
+++ b/src/except.c
@@ -1112,7 +1112,7 @@ void *fence(void *ptr, func_t func) {
 		return null;
 
 	/* The scope owns it, an exception passing a `try` block inside of the scope doesn't end the scope. */
-	scope_deferred(get_scope(), func, ptr);
+	deferred(func, ptr, true);
 
 	return ptr;
 }
-- 
2.43.0


From bf2837d38c09700157077725260c9c47372e8e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 052/135] fix: a protected pointer that was null kept those
 protected before it from being freed

---
 src/except.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/except.c b/src/except.c
index caf0aa6..c2b3ecd 100644
--- a/src/except.c
+++ b/src/except.c
@@ -172,15 +172,15 @@ static void ex_unwind_stack(ex_context_t *ctx) {
 		scope_unwind(ctx->data);
     } else {
 		while (p && p->type == DATA_EXCEPT_PROTECTED) {
-            if ((got_uncaught_exception = (temp == *p->ptr) || !is_ptr_usable(*p->ptr)))
-                break;
-
             if (*p->ptr) {
+                if ((got_uncaught_exception = (temp == *p->ptr) || !is_ptr_usable(*p->ptr)))
+                    break;
+
 				p->type = DATA_INVALID;
                 p->func(*p->ptr);
+                temp = *p->ptr;
             }
 
-            temp = *p->ptr;
             p = p->next;
         }
     }
-- 
2.43.0


From 60b7dc62d96baadeb19270cc87aa8430ea4faff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 053/135] fix: what a task deferred did not run when an
 exception it did not catch ended the program

---
 include/events.h | 1 +
 src/events.c     | 8 ++++++++
 src/except.c     | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/include/events.h b/include/events.h
index 40d50fe..dbd7d9f 100644
--- a/include/events.h
+++ b/include/events.h
@@ -443,6 +443,7 @@ C_API bool tasks_is_active(void);
 C_API void *task_data(void);
 C_API void task_exception_set(void *);
 C_API void task_scope_set(ex_memory_t *);
+C_API void task_unwind(void);
 C_API ex_memory_t *task_scope(void);
 C_API ptrdiff_t task_code(void);
 C_API void *task_erred(tasks_t *t, int code);
diff --git a/src/events.c b/src/events.c
index 6ce35c0..eef9ad1 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1243,6 +1243,14 @@ EVENTS_INLINE void task_exception_set(void *err) {
 		active_task()->scope->err = err;
 }
 
+/* Runs what the current task deferred, it will not return. */
+void task_unwind(void) {
+	tasks_t *t = !is_empty(__thrd()->running) ? __thrd()->running : active_task();
+	array_t garbage = t->garbage;
+	t->garbage = null;
+	deferred_unwind(garbage);
+}
+
 EVENTS_INLINE void task_scope_set(ex_memory_t *scope) {
 	active_task()->scope = scope;
 }
diff --git a/src/except.c b/src/except.c
index c2b3ecd..3616ccd 100644
--- a/src/except.c
+++ b/src/except.c
@@ -461,6 +461,9 @@ void ex_terminate(void) {
     else
         ex_print("\nExiting with uncaught exception");
 
+	if (tasks_is_active())
+		task_unwind();
+
 	if (ex_local()->is_scoped)
 		scope_destroy();
 
-- 
2.43.0


From 7744a8edc497f62d203029c36e2ecf52b1109912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 054/135] fix: a signal nobody caught skipped cleanups of a
 thread first deferred inside a try

The scope of the thread was looked for in the context of its first use.
---
 src/except.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/except.c b/src/except.c
index 3616ccd..55f963f 100644
--- a/src/except.c
+++ b/src/except.c
@@ -464,7 +464,7 @@ void ex_terminate(void) {
 	if (tasks_is_active())
 		task_unwind();
 
-	if (ex_local()->is_scoped)
+	if (!is___scope_null())
 		scope_destroy();
 
 	if (got_ctrl_c) {
-- 
2.43.0


From 7e3f62439076f3bd0b96759dc853057157a8b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 055/135] fix: a task was freed while its thread could continue
 it, when another thread ended the program

---
 src/events.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/events.c b/src/events.c
index eef9ad1..c97fdee 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1156,9 +1156,13 @@ void events_ctr_c_unwind(void) {
 
 	tasks_t *co = atexit_ctr_c_task;
 	atexit_ctr_c_task = null;
-	data_delete(co->args);
 	deferred_unwind(co->garbage);
-	task_delete(co);
+	co->garbage = NULL;
+	/* another thread may be about to continue it */
+	if (__thrd()->is_main) {
+		data_delete(co->args);
+		task_delete(co);
+	}
 }
 
 static EVENTS_INLINE void tasks_result_set(tasks_t *co, void *data) {
-- 
2.43.0


From 75c80bf5d8cd525bcb009fb0b4b3fa18c451df0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 056/135] fix: thrd_get did not wait for the end of the thread,
 lost its exception

---
 src/future.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index 837b051..952324a 100644
--- a/src/future.c
+++ b/src/future.c
@@ -141,7 +141,7 @@ future_t thrd_async(thrd_func_t fn, size_t num_of_args, ...) {
 values_t thrd_get(future_t f) {
 	if (data_type(f) == DATA_FUTURE) {
 		data_values_t *r = promise_get(f->promise);
-		if (os_join(f->thread, 0, NULL) == 0) {
+		if (os_join(f->thread, (uint32_t)-1, NULL) == 0) {
 			f->type = DATA_RESULT;
 			atomic_flag_clear(&f->promise->mutex);
 			atomic_flag_clear(&f->promise->done);
-- 
2.43.0


From d3bc3b0062fc98ca33899451b9345e3d3eba1cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 057/135] fix: futures of one scope shared one exception

---
 src/future.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/future.c b/src/future.c
index 952324a..9e10fbc 100644
--- a/src/future.c
+++ b/src/future.c
@@ -1,9 +1,10 @@
 #include "events_internal.h"
 
 static future_t future_create(thrd_func_t func, void *args) {
-	future_t fut = events_calloc(1, _mem_align_up(sizeof(struct future_s), 2));
+	/* followed by the scope its thread reports exceptions to */
+	future_t fut = events_calloc(1, sizeof(struct future_s) + sizeof(ex_memory_t));
 	if (defer_free(fut)) {
-		fut->promise->scope = get_scope();
+		fut->promise->scope = (ex_memory_t *)(fut + 1);
 		fut->promise->result->is_array = false;
 		fut->promise->args = args;
 		fut->promise->func = func;
-- 
2.43.0


From d5bd68bfe8b4e913170338c90bfd6714b4563a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 058/135] fix: exceptions of a future were lost, thrd_get hung
 when a deferred function recovered one

---
 include/except.h | 3 ++-
 src/future.c     | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/except.h b/include/except.h
index 4c3a9f2..3868578 100644
--- a/include/except.h
+++ b/include/except.h
@@ -356,8 +356,9 @@ will mark exception handled, if `true`.
         scope_unwind((_g_scope)->scope);		\
     } catch_if {                             	\
         scope_unwind((_g_scope)->scope);		\
-		if (!(_g_scope)->scope->is_recovered && try_caught(try_message())) {	\
+		if (ex_err.state == ex_throw_st) {		\
             promise_erred(error, ex_err);		\
+            ex_err.state = ex_catch_st;			\
 		} 										\
     } finally {                                 \
 		guard_reset(_g_scope, _g_arena, _g_set, _g_unwind);	\
diff --git a/src/future.c b/src/future.c
index 9e10fbc..c82aae4 100644
--- a/src/future.c
+++ b/src/future.c
@@ -114,6 +114,8 @@ static int _thrd_wrapper(void *arg) {
 		promise_set(f->promise, res->object);
 	} guarded_exception(f->promise);
 
+	/* also when a deferred function recovered the exception */
+	atomic_flag_test_and_set(&f->promise->done);
 	scope_unwind(scope_local());
 #ifdef RP_MALLOC_H
 	rpmalloc_thread_finalize(1);
-- 
2.43.0


From 6039ba8987cca18da86a155dbb5af5da1b26a7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 059/135] fix: a future was freed when its task ended, its
 thread could still use it

---
 src/future.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index c82aae4..1f346ae 100644
--- a/src/future.c
+++ b/src/future.c
@@ -1,9 +1,18 @@
 #include "events_internal.h"
 
+/* A future whose result nobody asked for is in use by its thread until that ended. */
+static void future_free(future_t f) {
+	if (f->type == DATA_FUTURE && f->thread != OS_NULL && os_join(f->thread, (uint32_t)-1, NULL) == 0
+		&& f->promise->result->is_array)
+		$delete(f->promise->result->value.object);
+
+	events_free(f);
+}
+
 static future_t future_create(thrd_func_t func, void *args) {
 	/* followed by the scope its thread reports exceptions to */
 	future_t fut = events_calloc(1, sizeof(struct future_s) + sizeof(ex_memory_t));
-	if (defer_free(fut)) {
+	if (defer_free_by(fut, (func_t)future_free)) {
 		fut->promise->scope = (ex_memory_t *)(fut + 1);
 		fut->promise->result->is_array = false;
 		fut->promise->args = args;
-- 
2.43.0


From 8efe2910603f71624d164fea9e41f294288c82cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 060/135] fix: errno of jobs that return a null pointer, as
 fs_fopen, was lost

---
 src/future.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/future.c b/src/future.c
index 1f346ae..08d2276 100644
--- a/src/future.c
+++ b/src/future.c
@@ -52,10 +52,10 @@ void promise_free(ex_memory_t *scope, void *data) {
 
 void promise_set(promise *p, void *res) {
 	atomic_lock(&p->mutex);
-	if (!is_empty(res)) {
-		if (res == casting(DATA_INVALID))
-			p->erred = errno;
+	if (is_empty(res) || res == casting(DATA_INVALID))
+		p->erred = errno;
 
+	if (!is_empty(res)) {
 		if (is_data(res)) {
 			p->result->is_array = true;
 			p->result->value.object = data_tuple(data_copy((array_t)p->result->extended, res));
-- 
2.43.0


From 157769eca3a61a2e6070dc6c8b9176b982b11c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 061/135] fix: fs_close left a descriptor open when its number
 was the one closed before

---
 src/async_io.c        | 16 ++--------------
 src/events.c          |  1 -
 src/events_internal.h |  1 -
 3 files changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 1bacfd4..9dc611f 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -602,9 +602,7 @@ static EVENTS_INLINE void *_os_mkdir(param_t args) {
 }
 
 EVENTS_INLINE int fs_open(const char *path, int flag, int mode) {
-	future *thrd = futures_pool();
-	thrd->last_fd = TASK_DEAD;
-	return queue_get(queue_work(thrd, _os_open, 3, path, casting(flag), casting(mode))).integer;
+	return queue_get(queue_work(futures_pool(), _os_open, 3, path, casting(flag), casting(mode))).integer;
 }
 
 EVENTS_INLINE int fs_read(int fd, void *buf, uint32_t count) {
@@ -621,17 +619,7 @@ EVENTS_INLINE ssize_t fs_sendfile(int fd_out, int fd_in, off_t *offset, size_t l
 }
 
 EVENTS_INLINE int fs_close(int fd) {
-	future *thrd = futures_pool();
-	if (thrd->last_fd == fd) {
-		thrd->last_fd = TASK_ERRED;
-		return TASK_ERRED;
-	}
-
-	int r = queue_get(queue_work(thrd, _os_close, 1, casting(fd))).integer;
-	thrd->last_fd = fd;
-	fd = TASK_ERRED;
-
-	return r;
+	return queue_get(queue_work(futures_pool(), _os_close, 1, casting(fd))).integer;
 }
 
 EVENTS_INLINE int fs_unlink(const char *path) {
diff --git a/src/events.c b/src/events.c
index c97fdee..8115aff 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2777,7 +2777,6 @@ future *events_create_future(events_t *loop) {
 				f_work->queue->jobs = array();
 				f_work->queue->loop = loop;
 				f_work->queue->pool = f_work;
-				f_work->last_fd = TASK_ERRED;
 				f_work->type = DATA_THREAD;
 				local[index]->thread = os_create(__future_wrapper, (void *)f_work);
 				if (local[index]->thread != OS_NULL) {
diff --git a/src/events_internal.h b/src/events_internal.h
index a6c881b..9c9c137 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -172,7 +172,6 @@ typedef struct events_deque_s {
 struct _future {
 	data_types type;
 	int id;
-	int last_fd;
 	events_deque_t *queue;
 	atomic_spinlock mutex;
 	char buffer[MAX_PATH];
-- 
2.43.0


From 6c2655e20e8ab4eb6583e55363291d21fb98d26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 062/135] fix: fs_writefile left the rest of a longer file,
 errors of it and of fs_touch were lost

---
 src/async_io.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 9dc611f..f92781e 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -659,7 +659,8 @@ EVENTS_INLINE size_t fs_filesize(const char *path) {
 }
 
 EVENTS_INLINE bool fs_touch(const char *path) {
-	return fs_writefile(path, "") == 0;
+	int fd = fs_open(path, O_WRONLY | O_CREAT, S_IRUSR | S_IWUSR);
+	return fd >= 0 && fs_close(fd) == 0;
 }
 
 static EVENTS_INLINE void *_os_rename(param_t args) {
@@ -684,16 +685,19 @@ EVENTS_INLINE int fs_copyfile(const char *oldfile, const char *newfile) {
 }
 
 int fs_writefile(const char *path, char *text) {
-	int len, fd;
-	if ((fd = fs_open(path, O_WRONLY | O_CREAT, S_IRUSR | S_IWUSR)) > 0) {
+	int len, err, fd;
+	if ((fd = fs_open(path, O_WRONLY | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR)) >= 0) {
 		if ((len = (int)strlen(text)) > 0)
 			len = fs_write(fd, text, len);
 
-		if (!fs_close(fd))
+		err = errno;
+		if (!fs_close(fd)) {
+			errno = err;
 			return len;
+		}
 	}
 
-	return task_code();
+	return TASK_ERRED;
 }
 
 char *fs_readfile(const char *path) {
-- 
2.43.0


From a246c62b304c161974e227743e5752c286095d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 063/135] fix: fs_readfile returned an empty text when the file
 could not be read

---
 src/async_io.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index f92781e..02cbfb9 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -704,11 +704,12 @@ char *fs_readfile(const char *path) {
 	char *buffer = null;
 	int fd = 0;
 	size_t len = fs_filesize(path);
-	if (len > 0 && (fd = fs_open(path, O_RDONLY, 0)) > 0) {
-		if (defer_free_by(buffer = events_calloc(1, _mem_align_up(len + 1, 2)), events_free)) {
-			fs_read(fd, buffer, len);
-			fs_close(fd);
-		}
+	if (len > 0 && (fd = fs_open(path, O_RDONLY, 0)) >= 0) {
+		if (defer_free_by(buffer = events_calloc(1, _mem_align_up(len + 1, 2)), events_free)
+			&& fs_read(fd, buffer, len) < 0)
+			buffer = null;
+
+		fs_close(fd);
 	}
 
 	return buffer;
-- 
2.43.0


From 71f1a1e256fa41fd4198f93aae376c637f316750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 064/135] fix: copyfile counted what was copied twice, returned
 success for half a copy

---
 src/os_unix.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index c8a8732..43095a1 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -1480,10 +1480,12 @@ int copyfile(const char *source, const char *destination) {
 	result = fstat(input, &file_stat);
 	off_t copied = 0;
 	while (result == 0 && copied < file_stat.st_size) {
+		/* advances copied */
 		ssize_t written = sendfile(output, input, &copied, SSIZE_MAX);
-		copied += written;
 		if (written == -1) {
 			result = -1;
+		} else if (written == 0) {
+			break;
 		}
 	}
 
-- 
2.43.0


From 789700be7cf01715fe66603d3f18bcbcb71e098b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 065/135] fix: half of the last value of a promise was left
 when its next job returned null

---
 src/future.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/future.c b/src/future.c
index 08d2276..8424130 100644
--- a/src/future.c
+++ b/src/future.c
@@ -284,8 +284,9 @@ promise *alloc_promise(void) {
 	promise *f = null;
 	if (!is_empty(f = (promise *)events_malloc(_mem_align_up(sizeof(promise), 2)))) {
 		f->args = null;
+		f->result->extended = null;
 		f->result->is_array = false;
-		f->result->value.integer = 0;
+		f->result->value.object = null;
 		atomic_flag_clear(&f->mutex);
 		atomic_flag_clear(&f->done);
 		atomic_flag_clear(&f->released);
@@ -311,7 +312,7 @@ promise *promise_work(promise *f, param_func_t fn, size_t num_args, ...) {
 			f->args = args;
 			f->func = fn;
 			f->result->extended = null;
-			f->result->value.integer = 0;
+			f->result->value.object = null;
 			f->result->is_array = false;
 			atomic_flag_clear(&f->mutex);
 			atomic_flag_clear(&f->done);
-- 
2.43.0


From 095d5e6ec9fc0822d3433eb4bf4c266ee240cb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 066/135] fix: what a job of the pool deferred never ran

---
 src/events.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/events.c b/src/events.c
index 8115aff..1729f4d 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2743,6 +2743,10 @@ static int __future_wrapper(void *arg) {
 
 			$delete(args);
 
+			/* what the job deferred, it is no task but uses the one of its thread */
+			array_t garbage = active_task()->garbage;
+			active_task()->garbage = NULL;
+			deferred_unwind(garbage);
 			scope_unwind(scope_local());
 		} else {
 			os_sleep(1);
-- 
2.43.0


From 3ecdbd0fd13e864a93c969ad3de32ab919d8f70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 067/135] fix: async_bind to an IPv6 address always failed

---
 src/async_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/async_io.c b/src/async_io.c
index 02cbfb9..78715e8 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -126,7 +126,7 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 	}
 
 	proto = protocol ? SOCK_STREAM : SOCK_DGRAM;
-	if ((fd = socket((is_unix ? AF_UNIX : AF_INET),
+	if ((fd = socket((is_unix ? AF_UNIX : usa.sa.sa_family),
 		proto, (protocol ? IPPROTO_IP : IPPROTO_UDP))) < 0) {
 		errno = os_geterror();
 		if (is_unix)
-- 
2.43.0


From 2925c28fe419a5a0709e9a241aa6cdb42ba53a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 068/135] fix: getsockopt was given a length that was not set

---
 src/async_io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/async_io.c b/src/async_io.c
index 78715e8..d2a3bd1 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -38,7 +38,7 @@ fds_t async_socket(struct sockaddr *sa, char *address, int backlog, int protocol
 	char *ip = ipbuf;
 	u_saddr_t usa;
 	memset(&usa, 0, sizeof(usa));
-	socklen_t sn = 0;
+	socklen_t sn = sizeof(on);
 	uds_t uds = (protocol == -1) || sa->sa_family == AF_UNIX
 		? (uds_t)events_calloc(1, sizeof(struct af_unix_s))
 		: null;
@@ -135,6 +135,7 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 	}
 
 	// set reuse flag for tcp
+	sn = sizeof(n);
 	if (!is_unix && protocol && getsockopt(fd, SOL_SOCKET, SO_TYPE, (void *)&n, &sn) >= 0) {
 		n = 1;
 		setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, (char *)&n, sizeof n);
-- 
2.43.0


From f3c071f4c78928e6bece895170c45d7b2185a54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 069/135] fix: async_connect did not report why the connection
 failed

---
 src/async_io.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index d2a3bd1..00efc5d 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -287,13 +287,12 @@ fds_t async_connect(char *hostname, int port, int protocol) {
 	// report error
 	sn = (int)sizeof(n);
 	getsockopt(fd, SOL_SOCKET, SO_ERROR, (char *)&n, &sn);
-	if (n == 0)
-		errno = os_geterror();
-
+	n = n == 0 ? os_geterror() : n;
 	if (is_unix)
 		events_free(uds);
 
 	close(fd);
+	errno = n;
 	return -1;
 }
 
-- 
2.43.0


From acaedade5f2eb182498b16442376cfeb644df017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 070/135] fix: async_bind without an address failed instead of
 using all interfaces

---
 src/async_io.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/async_io.c b/src/async_io.c
index 00efc5d..af82bc7 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -114,7 +114,9 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 
 	if (!is_unix) {
 		char host[ARRAY_SIZE] = {0};
-		if (port)
+		if (is_empty(address))
+			snprintf(host, sizeof(host) - 1, "0.0.0.0:%d", port);
+		else if (port)
 			snprintf(host, sizeof(host) - 1, "%s:%d", address, port);
 		else
 			snprintf(host, sizeof(host) - 1, "%s", address);
-- 
2.43.0


From 74751ead6f096d7a417ad909a5395784d24b5079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:13 +0000
Subject: [PATCH 071/135] fix: a task waiting for a descriptor was forgotten
 when another task waited for it, too

---
 src/events.c | 51 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/src/events.c b/src/events.c
index 1729f4d..d8aaf05 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1434,27 +1434,64 @@ EVENTS_INLINE uint32_t delay(uint32_t ms) {
 	return (uint32_t)((events_nsec() - now) / 1000000);
 }
 
+static void wait_cb(fds_t fd, int event, void *arg);
+/* A task that waits for a descriptor, on the stack of it. */
+typedef struct wait_task_s {
+	tasks_t *task;
+	int bits;
+	struct wait_task_s *next;
+} wait_task_t;
+
+static void wait_add(fds_t fd, wait_task_t *waits) {
+	wait_task_t *w;
+	int bits = 0;
+	for (w = waits; w != NULL; w = w->next)
+		bits |= w->bits;
+
+	events_add(__thrd()->loop, fd, bits, 0, wait_cb, (void *)waits);
+}
+
 static void wait_cb(fds_t fd, int event, void *arg) {
-	tasks_t *t = (tasks_t *)arg;
+	wait_task_t *w, *next, *others = NULL, **last = &others;
 	tasklist_t *l = __thrd()->run_queue;
-	t->ready = true;
-	enqueue(l, t);
+	for (w = (wait_task_t *)arg; w != NULL; w = next) {
+		next = w->next;
+		if ((event & EVENTS_CLOSED & ~EVENTS_READ) != 0 || (event & w->bits) != 0) {
+			w->task->ready = true;
+			enqueue(l, w->task);
+		} else {
+			w->next = NULL;
+			*last = w;
+			last = &w->next;
+		}
+	}
+
 	events_del(fd);
 	events_target(fd)->events = event;
+	if (others != NULL)
+		wait_add(fd, others);
 }
 
 void async_wait(int fd, int rw) {
-	int bits = 0;
+	wait_task_t wait = {0};
 	switch (rw) {
 		case 'r':
-			bits |= EVENTS_READ;
+			wait.bits |= EVENTS_READ;
 			break;
 		case 'w':
-			bits |= EVENTS_WRITE;
+			wait.bits |= EVENTS_WRITE;
 			break;
 	}
 
-	events_add(__thrd()->loop, fd, bits, 0, wait_cb, (void *)__thrd()->running);
+	wait.task = __thrd()->running;
+	/* another task may wait for it already, to read while this one is to write */
+	if (EVENTS_IS_INITD_AND_FD_IN_RANGE(fd) && events_target(fd)->callback == wait_cb
+		&& events_target(fd)->loop == __thrd()->loop && events_target(fd)->loop_id != 0) {
+		wait.next = (wait_task_t *)events_target(fd)->cb_arg;
+		events_del(fd);
+	}
+
+	wait_add(fd, &wait);
 	task_switch(__thrd()->current_handle);
 }
 
-- 
2.43.0


From 2ecb45716842002518ef553aeeaae9a5ac4a0fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:13 +0000
Subject: [PATCH 072/135] fix: waiting for a descriptor removed the handler of
 the signal with its number

---
 src/events.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/events.c b/src/events.c
index d8aaf05..1789b56 100644
--- a/src/events.c
+++ b/src/events.c
@@ -620,6 +620,23 @@ int events_add(events_t *loop, fds_t sfd, int event, int timeout_in_secs,
 	return 0;
 }
 
+static int events_del_descriptor(int fd) {
+	events_fd_t *target = events_target(fd);
+	events_t *loop = target->loop;
+	if (target->is_iodispatch) {
+		loop->active_io--;
+	}
+
+	if (loop == NULL || !target->is_iodispatch && events_update_internal(loop, fd, EVENTS_DEL) != 0)
+		return -1;
+
+	events_set_timeout(fd, 0);
+	loop->active_descriptors--;
+	target->loop_id = 0;
+	target->loop = NULL;
+	return 0;
+}
+
 int events_del(fds_t sfd) {
 	events_fd_t *target = NULL;
 	events_t *loop = NULL;
@@ -641,19 +658,7 @@ int events_del(fds_t sfd) {
 		}
 	}
 
-	loop = target->loop;
-	if (target->is_iodispatch) {
-		loop->active_io--;
-	}
-
-	if (loop == NULL || !target->is_iodispatch && events_update_internal(loop, fd, EVENTS_DEL) != 0)
-		return -1;
-
-	events_set_timeout(fd, 0);
-	loop->active_descriptors--;
-	target->loop_id = 0;
-	target->loop = NULL;
-	return 0;
+	return events_del_descriptor(fd);
 }
 
 EVENTS_INLINE bool events_is_registered(events_t *loop, fds_t sfd) {
@@ -1466,7 +1471,8 @@ static void wait_cb(fds_t fd, int event, void *arg) {
 		}
 	}
 
-	events_del(fd);
+	/* not the handler of the signal with its number */
+	events_del_descriptor(socket2fd(fd));
 	events_target(fd)->events = event;
 	if (others != NULL)
 		wait_add(fd, others);
@@ -1488,7 +1494,7 @@ void async_wait(int fd, int rw) {
 	if (EVENTS_IS_INITD_AND_FD_IN_RANGE(fd) && events_target(fd)->callback == wait_cb
 		&& events_target(fd)->loop == __thrd()->loop && events_target(fd)->loop_id != 0) {
 		wait.next = (wait_task_t *)events_target(fd)->cb_arg;
-		events_del(fd);
+		events_del_descriptor(fd);
 	}
 
 	wait_add(fd, &wait);
-- 
2.43.0


From 2035d35533048d632ef3cfae4c59ef4496ca532b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 073/135] fix: udp_recv overflowed the stack of a task, cut off
 datagrams above 48 KB

---
 src/async_udp.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/async_udp.c b/src/async_udp.c
index 6ae543e..22c920d 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -94,14 +94,19 @@ int async_recvfrom(int fd, void *buf, int n, unsigned int flags) {
 
 udp_t udp_recv(int fd) {
 	int m;
-	uchar *ip;
-	char buf[Kb(48)] = {0}, buf1[64] = {0};
 	udp_t client = null, packet = events_target(fd)->udp;
 	packet->addr = events_get_sockaddr(fd2socket(fd));
 	u_saddr_t *usa = packet->addr;
-	socklen_t client_len = usa->sa.sa_family == AF_INET6 ? sizeof(usa->sin6) : sizeof(usa->sin);
+	socklen_t client_len;
+	/* the largest datagram there is, too large for the stack of a task */
+	char *buf = events_malloc(Kb(64));
+	if (is_empty(buf)) {
+		errno = ENOMEM;
+		return null;
+	}
 
-	while ((m = recvfrom(socket2fd(fd), buf, sizeof(buf), packet->flags, &usa->sa, &client_len)) < 0
+	while ((client_len = sizeof(usa->storage),
+		m = recvfrom(socket2fd(fd), buf, Kb(64), packet->flags, &usa->sa, &client_len)) < 0
 		&& os_geterror() == EAGAIN) {
 		async_wait(fd, 'r');
 	}
@@ -130,11 +135,14 @@ udp_t udp_recv(int fd) {
 					events_free(client->addr);
 
 				events_free(client);
-				return null;
+				client = null;
 			}
 		}
 	}
 
+	m = errno;
+	events_free(buf);
+	errno = m;
 	return client;
 }
 
-- 
2.43.0


From 03b0261d9ff620850338157defe5a94a98560b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 074/135] fix: udp_recv lost empty datagrams

---
 src/async_udp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/async_udp.c b/src/async_udp.c
index 22c920d..d21fe5d 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -111,7 +111,7 @@ udp_t udp_recv(int fd) {
 		async_wait(fd, 'r');
 	}
 
-	if (m > 0) {
+	if (m >= 0) {
 		errno = ENOMEM;
 		client = events_calloc(1, sizeof(struct udp_packet_s));
 		if (!is_empty(client)) {
-- 
2.43.0


From 537b3b43491b76e4fb6a596fe02e03303b2127be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 075/135] fix: a UDP socket used the last packet received on it
 after that was freed

---
 src/async_udp.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/async_udp.c b/src/async_udp.c
index d21fe5d..2d55b26 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -125,7 +125,6 @@ udp_t udp_recv(int fd) {
 				memcpy(client->message, buf, m);
 				client->message_set = true;
 				client->type = DATA_UDP;
-				events_target(fd)->udp = client;
 				errno = 0;
 			} else {
 				if (!is_empty(client->message))
-- 
2.43.0


From 9e88911fbfb91f26a0eae236264c1a6986a68035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 076/135] fix: udp_send replied to the sender of the last
 packet, not of the given one

---
 src/async_udp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/async_udp.c b/src/async_udp.c
index 2d55b26..4fb5fc3 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -69,7 +69,7 @@ int async_sendto(int fd, void *buf, int n) {
 
 int udp_send(udp_t packet, void *buf, int n) {
 	int m;
-	u_saddr_t *addr = events_get_sockaddr(fd2socket(packet->socket));
+	u_saddr_t *addr = is_empty(packet->addr) ? events_get_sockaddr(fd2socket(packet->socket)) : packet->addr;
 	socklen_t client_len = addr->sa.sa_family == AF_INET6 ? sizeof(addr->sin6) : sizeof(addr->sin);
 
 	while ((m = sendto(fd2socket(packet->socket), (const char *)buf, n,
-- 
2.43.0


From f15462034fde066dd7cec15f9098febc877c60f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 077/135] fix: async_sendto to an IPv6 address always failed

---
 src/async_udp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/async_udp.c b/src/async_udp.c
index 4fb5fc3..a17eaa7 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -58,7 +58,8 @@ void udp_to(int fd, char *addr, unsigned int flags) {
 int async_sendto(int fd, void *buf, int n) {
 	int m;
 	udp_t packet = events_target(fd)->udp;
-	socklen_t client_len = sizeof(sockaddr_t);
+	socklen_t client_len = !is_empty(packet->addr) && packet->addr->sa.sa_family == AF_INET6
+		? sizeof(packet->addr->sin6) : sizeof(packet->addr->sin);
 
 	while ((m = sendto(socket2fd(fd), (const char *)buf, n, packet->flags, (sockaddr_t *)packet->addr, client_len)) < 0
 		&& os_geterror() == EAGAIN) {
-- 
2.43.0


From a206021b72cbe2faf84d943eb37b0bc2b24d0f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 078/135] fix: a socket was taken for one of the kind that had
 its number before

---
 src/async_io.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/async_io.c b/src/async_io.c
index af82bc7..83640a2 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -99,6 +99,7 @@ fds_t async_socket(struct sockaddr *sa, char *address, int backlog, int protocol
 
 	events_set_nonblocking(fd);
 	events_target(socket2fd(fd))->uds = uds;
+	events_target(socket2fd(fd))->udp = null;
 	return fd;
 }
 
@@ -170,6 +171,7 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 
 	events_set_nonblocking(fd);
 	events_target(socket2fd(fd))->uds = uds;
+	events_target(socket2fd(fd))->udp = null;
 	return fd;
 }
 
@@ -191,6 +193,8 @@ fds_t async_accept(fds_t fd, char *server, int *port) {
 	}
 
 	memcpy(&events_get_sockaddr(cfd)->storage, &usa.storage, sizeof(usa.storage));
+	events_target(socket2fd(cfd))->uds = null;
+	events_target(socket2fd(cfd))->udp = null;
 	if (!is_unix && server) {
 		async_sockaddr_str(server, 16, &usa);
 	} else if (is_unix && server) {
@@ -283,6 +287,7 @@ fds_t async_connect(char *hostname, int port, int protocol) {
 	async_wait(fd, 'w');
 	if (getpeername(fd, (is_unix ? (struct sockaddr *)&sa->sun : &sa->sa), &sn) >= 0) {
 		events_target(socket2fd(fd))->uds = uds;
+		events_target(socket2fd(fd))->udp = null;
 		return fd;
 	}
 
-- 
2.43.0


From f07c77f3c17c5cc10c24eed51f65758d2faff77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 079/135] fix: a process started without an environment did not
 get its parent's

---
 src/os_unix.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 43095a1..7593173 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -509,6 +509,8 @@ void events_free_fd(int pseudo) {
 	}
 }
 
+extern char **environ;
+
 static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
 	process_t p = vfork();
 	if (p != 0) {
@@ -570,7 +572,7 @@ static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
 	if (info->workdir != NULL && 0 != chdir(info->workdir))
 		goto end;
 
-	execve(filename, (char **)info->argv, (char **)info->env);
+	execve(filename, (char **)info->argv, (info->env != NULL ? (char **)info->env : environ));
 
 end:
 	_exit(255);
-- 
2.43.0


From bd0236e12ba3eaba8cf213ee558e902e6bbe975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 080/135] fix: the end of a process closed the descriptor
 having its id as number

---
 src/os_unix.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 7593173..b6cef8b 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -347,10 +347,12 @@ int os_read(int fd, char *buf, size_t len) {
 EVENTS_INLINE int os_close(int fd) {
 	if (fd == -1) return 0;
 	int r, can_clear = events_valid_fd(fd);
+	/* the one kept for a process is its id, and not a descriptor */
+	bool is_child = can_clear && fdTable[fd].type == FD_CHILD;
 	if (can_clear)
 		events_free_fd(fd);
 
-	r = close(events_get_fd(fd));
+	r = is_child ? 0 : close(events_get_fd(fd));
 	if (can_clear) {
 		fdTable[fd].type = (fd_types)FD_UNUSED;
 		fdTable[fd].fd = TASK_ERRED;
-- 
2.43.0


From 4ee52d1a2d4bd12732e5fcf69db4752bd2df0089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 081/135] fix: exec_addenv made strings without an end, and
 read outside its buffer for long ones

---
 src/async_io.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 83640a2..ed1eb13 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -814,7 +814,7 @@ static void *spawning(param_t args) {
 }
 
 char *exec_addenv(char *env, size_t *size, uint32_t num_pairs, ...) {
-	char *k, *v, buf[Kb(2)] = {0}, *data = env;
+	char *k, *v, *data = env;
 	int i, len;
 	va_list ap;
 
@@ -824,10 +824,10 @@ char *exec_addenv(char *env, size_t *size, uint32_t num_pairs, ...) {
 			/* Copy VARIABLE=VALUE;\0 string into the free space */
 			k = va_arg(ap, char *);
 			v = va_arg(ap, char *);
-			len = snprintf(buf, sizeof(buf), "%s=%s;", k, v);
+			len = snprintf(NULL, 0, "%s=%s;", k, v);
 			*size += len;
-			data = events_realloc(data, *size);
-			memcpy(data + (*size - len), buf, len);
+			data = events_realloc(data, *size + 1);
+			snprintf(data + (*size - len), len + 1, "%s=%s;", k, v);
 		}
 		va_end(ap);
 	}
-- 
2.43.0


From 365826264d6019bab6cfc074f5ef96c3c863f844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 082/135] fix: the exit status of a spawned process was also
 given as signal ending it

---
 src/async_io.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/async_io.c b/src/async_io.c
index ed1eb13..2ad3a7f 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -805,7 +805,12 @@ static void *spawning(param_t args) {
 		}
 
 		if (info->exit_func)
+#ifndef _WIN32
+			/* `exec_wait()` has the number of the signal ending it negated */
+			info->exit_func((status < 0 ? 0 : status), (status < 0 ? -status : 0));
+#else
 			info->exit_func(status, status);
+#endif
 	} else {
 		cerr("Process launch failed with: %s"CLR_LN, strerror(os_geterror()));
 	}
-- 
2.43.0


From 052ed5d168bbd2fd2956f26f247fea5f6cccf3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 083/135] fix: spawned processes got a non-blocking stdin and
 stdout, and the pipes of all others

---
 src/async_io.c |  9 ++++++---
 src/os_unix.c  | 14 +++++++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 2ad3a7f..7d69d02 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -887,14 +887,17 @@ static execinfo_t *spawn_ex(const char *command, const char *args, const char *e
 			events_set_nonblocking(info->error[1]);
 		}
 #else
-		if (pipe2(_2fd(info->write_input), O_NONBLOCK)
-			|| pipe2(_2fd(info->read_output), O_NONBLOCK)) {
+		if (pipe2(_2fd(info->write_input), O_CLOEXEC)
+			|| pipe2(_2fd(info->read_output), O_CLOEXEC)) {
 			perror("pipe2");
 			return NULL;
 		}
 
+		/* only here, the new process expects its side to wait */
+		events_set_nonblocking(info->write_input[1]);
+		events_set_nonblocking(info->read_output[0]);
 		if (!is_empty(env)) {
-			if (pipe2(_2fd(info->error), O_NONBLOCK)) {
+			if (pipe2(_2fd(info->error), O_NONBLOCK | O_CLOEXEC)) {
 				perror("pipe2");
 				return NULL;
 			}
diff --git a/src/os_unix.c b/src/os_unix.c
index b6cef8b..8ab9675 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -513,6 +513,14 @@ void events_free_fd(int pseudo) {
 
 extern char **environ;
 
+static inline int os_exec_redirect(int fd, int to) {
+	/* nothing to duplicate, but it must stay open */
+	if (fd == to)
+		return fcntl(fd, F_SETFD, 0);
+
+	return dup2(fd, to);
+}
+
 static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
 	process_t p = vfork();
 	if (p != 0) {
@@ -538,7 +546,7 @@ static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
 		sigaction(SIGPIPE, &sa, NULL);
 
 		if (info->write_input[(is_spawn ? 0 : 1)] != -1) {
-			if (dup2(info->write_input[(is_spawn ? 0 : 1)], STDIN_FILENO) < 0) {
+			if (os_exec_redirect(info->write_input[(is_spawn ? 0 : 1)], STDIN_FILENO) < 0) {
 				perror("dup2");
 				goto end;
 			}
@@ -549,7 +557,7 @@ static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
 		}
 
 		if (info->read_output[1] != -1) {
-			if (dup2(info->read_output[1], STDOUT_FILENO) < 0) {
+			if (os_exec_redirect(info->read_output[1], STDOUT_FILENO) < 0) {
 				perror("dup2");
 				goto end;
 			}
@@ -560,7 +568,7 @@ static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
 		}
 
 		if (info->error[1] != -1) {
-			if (dup2(info->error[1], STDERR_FILENO) < 0) {
+			if (os_exec_redirect(info->error[1], STDERR_FILENO) < 0) {
 				perror("dup2");
 				goto end;
 			}
-- 
2.43.0


From 3364f15c5a7c2dee68babb83f9e2cb9d73ad0475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 084/135] fix: spawned processes with much output never ended,
 or their last output was lost

---
 src/async_io.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 7d69d02..9e820bb 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -744,15 +744,27 @@ EVENTS_INLINE int fs_events_cancel(uint32_t rid) {
 	return fsevents_stop(rid);
 }
 
+#ifndef _WIN32
+static int spawn_read(execinfo_t *info) {
+	/* more than a task might have as stack */
+	char *data = events_malloc(Kb(32) + 1);
+	int count = read((fds_t)info->read_output[0], data, Kb(32));
+	if (count > 0) {
+		data[count] = 0;
+		info->io_func((fds_t)info->write_input[1], count, data);
+	}
+
+	events_free(data);
+	return count;
+}
+#endif
+
 static void spawn_io(fds_t fd, int events, void *arg) {
 	execinfo_t *info = (execinfo_t *)arg;
-	spawn_cb func = info->io_func;
 #ifndef _WIN32
-	char data[Kb(32)] = {0};
-	int count;
-	if ((count = read((fds_t)info->read_output[0], data, sizeof(data))) > 0)
-		func((fds_t)info->write_input[1], count, data);
+	spawn_read(info);
 #else
+	spawn_cb func = info->io_func;
 	func((fds_t)info->write_input[1], (size_t)events, info->buffer);
 #endif
 }
@@ -770,7 +782,7 @@ static void *spawning(param_t args) {
 	pid = exec((const char *)command, args[1].const_char_ptr, info);
 	if (info->io_func) {
 #ifndef _WIN32
-		status = events_add(futures_pool()->queue->loop, (fds_t)info->read_output[1], EVENTS_WRITE, 0, spawn_io, info);
+		status = events_add(event_loop(), (fds_t)info->read_output[0], EVENTS_READ, 0, spawn_io, info);
 #else
 		status = -1;
 		if (events_assign_fd(info->read_output[0], (intptr_t)pid)) {
@@ -791,7 +803,9 @@ static void *spawning(param_t args) {
 		info->context = NULL;
 		if (info->io_func) {
 #ifndef _WIN32
-			events_del((fds_t)info->read_output[1]);
+			events_del((fds_t)info->read_output[0]);
+			/* all it wrote before it ended */
+			while (spawn_read(info) > 0);
 			close((uintptr_t)info->read_output[0]);
 			close((uintptr_t)info->read_output[1]);
 			close((uintptr_t)info->write_input[0]);
-- 
2.43.0


From 91fb3a3b02a30f9d22a36e69153fee5ff06c2843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 085/135] fix: every process of spawn_cgi left both ends of its
 stderr pipe open

---
 src/async_io.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/async_io.c b/src/async_io.c
index 9e820bb..10b36f2 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -780,6 +780,12 @@ static void *spawning(param_t args) {
 #endif
 	task_name("spawn #%d", task_id());
 	pid = exec((const char *)command, args[1].const_char_ptr, info);
+#ifndef _WIN32
+	int errfd = info->io_func ? info->error[0] : inherit;
+	if (info->io_func && info->error[1] != inherit)
+		close((uintptr_t)info->error[1]);
+
+#endif
 	if (info->io_func) {
 #ifndef _WIN32
 		status = events_add(event_loop(), (fds_t)info->read_output[0], EVENTS_READ, 0, spawn_io, info);
@@ -795,12 +801,19 @@ static void *spawning(param_t args) {
 	if (!status && pid > 0) {
 		info->context = t;
 		yield();
+#ifndef _WIN32
+		execinfo_t ended = *info;
+#endif
 		while (exec_wait(pid, 0, &status) && os_geterror() == ETIMEDOUT) {
 			tasks_info(t, 1);
 			yield();
 		}
 
 		info->context = NULL;
+#ifndef _WIN32
+		/* a process started by one of the callbacks might get what this one had */
+		info = &ended;
+#endif
 		if (info->io_func) {
 #ifndef _WIN32
 			events_del((fds_t)info->read_output[0]);
@@ -825,6 +838,11 @@ static void *spawning(param_t args) {
 #else
 			info->exit_func(status, status);
 #endif
+
+#ifndef _WIN32
+		if (errfd != inherit)
+			close(errfd);
+#endif
 	} else {
 		cerr("Process launch failed with: %s"CLR_LN, strerror(os_geterror()));
 	}
-- 
2.43.0


From 83ebfeae1fa4e4041c7278c44739046b7dd672eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:11 +0000
Subject: [PATCH 086/135] fix: a process that could not be made was taken for a
 running one

---
 src/async_io.c | 12 +++++++++++-
 src/os_unix.c  |  8 ++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/async_io.c b/src/async_io.c
index 10b36f2..7dc6fc1 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -786,7 +786,7 @@ static void *spawning(param_t args) {
 		close((uintptr_t)info->error[1]);
 
 #endif
-	if (info->io_func) {
+	if (info->io_func && pid > 0) {
 #ifndef _WIN32
 		status = events_add(event_loop(), (fds_t)info->read_output[0], EVENTS_READ, 0, spawn_io, info);
 #else
@@ -845,6 +845,16 @@ static void *spawning(param_t args) {
 #endif
 	} else {
 		cerr("Process launch failed with: %s"CLR_LN, strerror(os_geterror()));
+#ifndef _WIN32
+		if (info->io_func) {
+			close((uintptr_t)info->read_output[0]);
+			close((uintptr_t)info->read_output[1]);
+			close((uintptr_t)info->write_input[0]);
+			close((uintptr_t)info->write_input[1]);
+			if (errfd != inherit)
+				close(errfd);
+		}
+#endif
 	}
 
 	return 0;
diff --git a/src/os_unix.c b/src/os_unix.c
index 8ab9675..21070ea 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -534,6 +534,14 @@ static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
 		info->ps = p;
 		info->argv = NULL;
 		info->env = NULL;
+		if (p < 0) {
+			int err = errno;
+			fdTable[info->fd].fd = 0;
+			os_close(info->fd);
+			errno = err;
+			return p;
+		}
+
 		return (process_t)info->fd;
 	}
 
-- 
2.43.0


From f5bfdcfeca49077099aeceffb45a3a1f7878f56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:11 +0000
Subject: [PATCH 087/135] fix: exec_wait ignored its timeout

---
 src/os_unix.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 21070ea..b676f40 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -640,13 +640,22 @@ int exec_wait(process_t ps, uint32_t timeout_ms, int *exit_code) {
 	if (fdTable[(intptr_t)ps].process->detached)
 		return 0;
 
-	if (timeout_ms == 0) {
+	if (timeout_ms != (uint32_t)INFINITE)
 		f = WNOHANG;
+
+	for (;;) {
 		s.si_pid = 0;
-	}
-	do {
 		r = waitid(P_PID, (id_t)fdTable[(intptr_t)ps].process->ps, &s, WEXITED | f);
-	} while (r != 0 && errno == EINTR);
+		if (r != 0 && errno == EINTR)
+			continue;
+
+		if (r != 0 || s.si_pid != 0 || timeout_ms == 0)
+			break;
+
+		usleep(1000);
+		timeout_ms--;
+	}
+
 	if (r != 0)
 		return -1;
 
-- 
2.43.0


From 1f6bbf2e0e832d2401cd5860f3dc79ee9dffc816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 088/135] fix: exec without arguments gave an empty one, and
 split the name of the program at commas

---
 src/os_unix.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index b676f40..3910d00 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -623,11 +623,13 @@ EVENTS_INLINE execinfo_t *exec_info(const char *env, bool is_detached,
 }
 
 EVENTS_INLINE process_t exec(const char *command, const char *args, execinfo_t *info) {
-	char *cmd_arg = str_cat_ex((args == NULL ? 2 : 3), command, ",", args);
+	char *cmd_arg = args == NULL ? str_dup_ex(".") : str_cat_ex(2, ".,", args);
 	if (info == NULL)
 		info = exec_info(NULL, false, inherit, inherit, inherit);
 
 	info->argv = str_split_ex(cmd_arg, ",", NULL);
+	/* not part of what is split, might have a comma as well */
+	info->argv[0] = (char *)command;
 	events_free(cmd_arg);
 
 	return os_exec_info(command, info);
-- 
2.43.0


From 6fc8b34e1ddf5d4f45bce3fd15b4355eb61af653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 089/135] fix: spawn returned NULL, as on failure, for a
 process that ended soon

---
 src/async_io.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/async_io.c b/src/async_io.c
index 7dc6fc1..787e43e 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -953,7 +953,12 @@ static execinfo_t *spawn_ex(const char *command, const char *args, const char *e
 	info->rid = task_push(create_task(Kb(64),
 		(data_func_t)spawning, arrays(3, command, args, info), false, true), true);
 	yield();
+#ifndef _WIN32
+	/* it might have ended by now */
+	return info->ps > 0 ? info : NULL;
+#else
 	return info->context == NULL ? NULL : info;
+#endif
 }
 
 EVENTS_INLINE execinfo_t *spawn(const char *command,
-- 
2.43.0


From 839d62a521427bb1fd19644a55f5f39c3bfdf265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 090/135] fix: processes took the place of an open descriptor
 when there were more than 256

---
 src/events.c  | 4 +++-
 src/os_unix.c | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 1789b56..08c860c 100644
--- a/src/events.c
+++ b/src/events.c
@@ -239,7 +239,10 @@ int events_init(int max_fd) {
 #ifdef USE_DEBUG
 	cerr("%s, %s"CLR_LN, events_uname(), events_hostname());
 #endif
+	/* the number of entries it has for descriptors */
+	sys_event.max_fd = max_fd;
 	if (os_init() == -1) {
+		sys_event.max_fd = 0;
 		return -1;
 	}
 
@@ -259,7 +262,6 @@ int events_init(int max_fd) {
 
 	atomic_init(&sys_event.fds, fds);
 	atexit(events_deinit);
-	sys_event.max_fd = max_fd;
 	sys_event.tasks_cpu_idx = NULL;
 	sys_event.future_cpu_idx = NULL;
 	sys_event.gc = NULL;
diff --git a/src/os_unix.c b/src/os_unix.c
index 3910d00..c4d9357 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -79,6 +79,9 @@ int os_init(void) {
 		return 0;
 
 	os_initialized = true;
+	if (ioTableSize < sys_event.max_fd)
+		ioTableSize = sys_event.max_fd;
+
 	fdTable = (FD_TABLE *)events_malloc(ioTableSize * sizeof(FD_TABLE));
 	if (fdTable == NULL) {
 		errno = ENOMEM;
-- 
2.43.0


From 00b1f2d2c7449ed669c1f7ce4de94c9369e9990b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 091/135] fix: changes in watched directories were never
 reported

---
 src/epoll.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/epoll.c b/src/epoll.c
index 820f20d..a6289ac 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -97,14 +97,16 @@ int events_update_internal(events_t *_loop, int fd, int event) {
 	memset(&ev, 0, sizeof(ev));
 	assert(EVENTS_FD_BELONGS_TO_LOOP(&loop->loop, fd));
 
+	/* reports of changes are read, some may be left for the next turn */
+	if ((event & EVENTS_PATHWATCH) != 0)
+		event |= EVENTS_READ;
+
 	if ((event & EVENTS_READWRITE) == target->events) {
 		return 0;
 	}
 
-	ev.events = ((event & EVENTS_PATHWATCH) != 0
-		? (EPOLLIN | EPOLLET)
-		: (((event & EVENTS_READ) != 0 ? EPOLLIN : 0)
-			| ((event & EVENTS_WRITE) != 0 ? EPOLLOUT : 0)));
+	ev.events = (((event & EVENTS_READ) != 0 ? EPOLLIN : 0)
+		| ((event & EVENTS_WRITE) != 0 ? EPOLLOUT : 0));
 	ev.data.fd = fd;
 
 #define SET(op, check_error) do {		    \
-- 
2.43.0


From 90c206a995118eefe1f40ee6ede222e4f4d7713b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 092/135] fix: a change in a watched directory dropped the
 other events of the turn

---
 src/epoll.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/epoll.c b/src/epoll.c
index a6289ac..bc1a782 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -169,16 +169,11 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 			if (target->is_pathwatcher) {
 				char *buffer = events_malloc(Kb(8) + sizeof(inotify_t));
 				if (!is_empty(buffer)) {
-					if ((len = read(event->data.fd, buffer, Kb(8) + sizeof(inotify_t))) < 0) {
+					if ((len = read(event->data.fd, buffer, Kb(8) + sizeof(inotify_t))) <= 0)
 						events_free(buffer);
-						return -1;
-					}
-
-					async_task(inotify_task, 5, casting(event->data.fd), buffer, casting(len), target->callback, target->cb_arg);
-					return 0;
+					else
+						async_task(inotify_task, 5, casting(event->data.fd), buffer, casting(len), target->callback, target->cb_arg);
 				}
-
-				return -1;
 			} else if (revents != 0) {
 				(*target->callback)(event->data.fd, revents, target->cb_arg);
 			}
-- 
2.43.0


From 4d340e22f5d61200cfad4eec18654e89a06212cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 093/135] fix: watched directories took the places of
 descriptors, and of those others watched

---
 src/os_unix.c | 122 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 87 insertions(+), 35 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index c4d9357..92e8afc 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -494,6 +494,12 @@ void events_free_fd(int pseudo) {
 	if ((pseudo >= 0) && (pseudo < ioTableSize)
 		&& fdTable[pseudo].type != FD_UNUSED) {
 		acquire_lock(pseudo);
+#if __linux__
+		/* it kept the number of a watched directory from being that of a descriptor */
+		if (fdTable[pseudo].type == FD_MONITOR_SYNC && fdTable[pseudo]._fd > 0)
+			close(fdTable[pseudo].event_fd);
+		else
+#endif
 		if (fdTable[pseudo].type == FD_MONITOR_ASYNC
 			|| fdTable[pseudo].type == FD_MONITOR_SYNC)
 			fdTable[pseudo].inUse = fdTable[pseudo].event_fd;
@@ -1313,6 +1319,62 @@ EVENTS_INLINE const char *fs_events_path(int wd) {
 	return (const char *)fdTable[wd].path;
 }
 
+static atomic_spinlock inotify_lock = {0};
+
+/* The entry of a watched directory, `wd` being the number the system gave it,
+which is a small one, and for every `fd` the same. */
+static int inotify_entry(int fd, int wd) {
+	int i;
+	for (i = 0; i < ioTableSize; ++i) {
+		if (fdTable[i].type == FD_MONITOR_SYNC && fdTable[i]._fd == fd && fdTable[i].fd == wd)
+			return i;
+	}
+
+	return TASK_ERRED;
+}
+
+static int inotify_entry_new(int fd, int wd, const char *path) {
+	int pseudo = inotify_entry(fd, wd);
+	char *was = NULL;
+	if (pseudo != TASK_ERRED) {
+		was = fdTable[pseudo].path;
+		fdTable[pseudo].path = str_dup_ex(path);
+		events_free(was);
+		return pseudo;
+	}
+
+	pseudo = events_new_fd(FD_MONITOR_SYNC, eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK), -1);
+	if (pseudo != TASK_ERRED) {
+		fdTable[pseudo]._fd = fd;
+		fdTable[pseudo].path = str_dup_ex(path);
+		atomic_lock(&inotify_lock);
+		if (fdTable[fd].inotify_wd == NULL)
+			fdTable[fd].inotify_wd = array();
+
+		$append_signed(fdTable[fd].inotify_wd, pseudo);
+		atomic_unlock(&inotify_lock);
+		fdTable[pseudo].fd = wd;
+	}
+
+	return pseudo;
+}
+
+static void inotify_entry_free(int pseudo) {
+	int fd = fdTable[pseudo]._fd;
+	atomic_lock(&inotify_lock);
+	foreach(watch in fdTable[fd].inotify_wd) {
+		if (watch.integer == pseudo) {
+			$remove(fdTable[fd].inotify_wd, iwatch);
+			break;
+		}
+	}
+	atomic_unlock(&inotify_lock);
+
+	events_free_fd(pseudo);
+	fdTable[pseudo].type = FD_UNUSED;
+	fdTable[pseudo].fd = TASK_ERRED;
+}
+
 void *inotify_task(param_t args) {
 	inotify_t *event = (inotify_t *)args[1].object;
 	inotify_handler(args[0].integer, event, args[2].integer, (watch_cb)args[3].func, args[4].object);
@@ -1330,7 +1392,8 @@ void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *
 		events_monitors action = WATCH_INVALID;
 		int mask = (WATCH_MODIFIED | WATCH_REMOVED | WATCH_ADDED | WATCH_MOVED);
 		inotify_t *evt = (inotify_t *)p;
-		if (evt->len) {
+		int wd = inotify_entry(fd, evt->wd);
+		if (wd != TASK_ERRED && evt->len) {
 			if (evt->mask & (IN_CREATE | IN_MOVED_TO))
 				action = WATCH_ADDED;
 			else if (evt->mask & (IN_DELETE | IN_DELETE_SELF | IN_MOVED_FROM))
@@ -1341,10 +1404,10 @@ void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *
 				action = WATCH_MODIFIED;
 
 			if (action) {
-				if (!fdTable[evt->wd].changes)
-					snprintf(subpath, PATH_MAX, "%s%s%s", fdTable[evt->wd].path, SYS_DIRSEP, evt->name);
+				if (!fdTable[wd].changes)
+					snprintf(subpath, PATH_MAX, "%s%s%s", fdTable[wd].path, SYS_DIRSEP, evt->name);
 
-				handler(evt->wd, action | ~mask, (const char *)(fdTable[evt->wd].changes ? evt->name : subpath), filter);
+				handler(wd, action | ~mask, (const char *)(fdTable[wd].changes ? evt->name : subpath), filter);
 			}
 		}
 		p += sizeof(inotify_t) + evt->len;
@@ -1383,12 +1446,8 @@ int inotify_del_monitor(int wd) {
 
 int inotify_close(int fd) {
 	if (events_valid_fd(fd)) {
-		foreach(watch in fdTable[fd].inotify_wd) {
-			events_free_fd(watch.integer);
-			fdTable[watch.integer].type = FD_UNUSED;
-			fdTable[watch.integer].fd = TASK_ERRED;
-			$remove(fdTable[fd].inotify_wd, iwatch);
-		}
+		while (is_data(fdTable[fd].inotify_wd) && $size(fdTable[fd].inotify_wd) > 0)
+			inotify_entry_free(fdTable[fd].inotify_wd[0].integer);
 
 		os_close(fd);
 		return 0;
@@ -1414,11 +1473,12 @@ static void inotify_recursive(int fd, const char *path, uint32_t mask, char *sub
 				if (wd == -1)
 					continue;
 
-				int pseudo = events_new_fd(FD_MONITOR_SYNC, wd, wd);
-				$append_signed(fdTable[fd].inotify_wd, pseudo);
-				fdTable[pseudo]._fd = fd;
-				fdTable[pseudo].path = str_dup_ex(subpath);
-				inotify_recursive(fd, (const char *)fdTable[pseudo].path, mask, subpath, path_max);
+				if (inotify_entry_new(fd, wd, subpath) == TASK_ERRED)
+					continue;
+
+				char *name = str_dup_ex(subpath);
+				inotify_recursive(fd, (const char *)name, mask, subpath, path_max);
+				events_free(name);
 			}
 		}
 	}
@@ -1441,16 +1501,13 @@ int __inotify_add_watch(int fd, const char *name, uint32_t mask) {
 	if (wd == -1)
 		return wd;
 
-	int pseudo = events_new_fd(FD_MONITOR_SYNC, wd, wd);
-	if (events_is_active()) {
-		if (fdTable[fd].inotify_wd == NULL)
-			fdTable[fd].inotify_wd = array();
+	if (!events_is_active())
+		return events_new_fd(FD_MONITOR_SYNC, wd, wd);
 
-		$append_signed(fdTable[fd].inotify_wd, pseudo);
-		fdTable[pseudo]._fd = fd;
+	int pseudo = inotify_entry_new(fd, wd, name);
+	if (pseudo != TASK_ERRED) {
 		fdTable[pseudo].changes = 1;
-		fdTable[pseudo].path = str_dup_ex(name);
-		queue_get(queue_work(futures_pool(), _inotify_recursive, 5, casting(fd), fdTable[pseudo].path, casting(mask), subpath, sizeof(subpath)));
+		queue_get(queue_work(futures_pool(), _inotify_recursive, 5, casting(fd), name, casting(mask), subpath, sizeof(subpath)));
 	}
 
 	return pseudo;
@@ -1461,19 +1518,14 @@ EVENTS_INLINE int __inotify_rm_watch(int fd, int wd) {
 		return inotify_close(fd);
 
 	int realFd = events_get_fd(fd), realWd = events_get_fd(wd);
-	if (events_is_active() && events_valid_fd(wd)) {
-		foreach(watch in fdTable[fd].inotify_wd) {
-			if (watch.integer == wd) {
-				$remove(fdTable[fd].inotify_wd, iwatch);
-				break;
-			}
-		}
-	}
-
 	if (events_valid_fd(wd)) {
-		events_free_fd(wd);
-		fdTable[wd].type = FD_UNUSED;
-		fdTable[wd].fd = TASK_ERRED;
+		if (fdTable[wd]._fd > 0) {
+			inotify_entry_free(wd);
+		} else {
+			events_free_fd(wd);
+			fdTable[wd].type = FD_UNUSED;
+			fdTable[wd].fd = TASK_ERRED;
+		}
 	}
 
 	return inotify_rm_watch(realFd, realWd);
-- 
2.43.0


From d30406cb1b934c1363d8c9de26d2d9065ac6078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 094/135] fix: counting the watched directories of none read
 outside the table

---
 src/os_unix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 92e8afc..97e585a 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -944,7 +944,7 @@ EVENTS_INLINE int os_geterror(void) {
 }
 
 EVENTS_INLINE int events_watch_count(int inotify) {
-	return is_data(fdTable[inotify].inotify_wd) ? $size(fdTable[inotify].inotify_wd) : 0;
+	return events_valid_fd(inotify) && is_data(fdTable[inotify].inotify_wd) ? $size(fdTable[inotify].inotify_wd) : 0;
 }
 
 #if __FreeBSD__ || __NetBSD__ || __OpenBSD__ || __DragonFly__ || __APPLE__ || __MACH__
-- 
2.43.0


From d782ec510618fe1b876f570c524cbf6ba2dd04f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 095/135] fix: a directory that was removed stayed watched

---
 src/os_unix.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 97e585a..4464da7 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -1393,7 +1393,9 @@ void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *
 		int mask = (WATCH_MODIFIED | WATCH_REMOVED | WATCH_ADDED | WATCH_MOVED);
 		inotify_t *evt = (inotify_t *)p;
 		int wd = inotify_entry(fd, evt->wd);
-		if (wd != TASK_ERRED && evt->len) {
+		if (wd != TASK_ERRED && (evt->mask & IN_IGNORED)) {
+			inotify_entry_free(wd);
+		} else if (wd != TASK_ERRED && evt->len) {
 			if (evt->mask & (IN_CREATE | IN_MOVED_TO))
 				action = WATCH_ADDED;
 			else if (evt->mask & (IN_DELETE | IN_DELETE_SELF | IN_MOVED_FROM))
-- 
2.43.0


From 597e4b8e0f3c59ae03f31b53056eccebe856ded2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 096/135] fix: directories made or renamed in a watched one
 were not watched

---
 src/os_unix.c | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 4464da7..27a0f62 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -1383,6 +1383,35 @@ void *inotify_task(param_t args) {
 	return 0;
 }
 
+static void inotify_recursive(int fd, const char *path, uint32_t mask, char *subpath, size_t path_max);
+
+#define IN_MONITOR_EVENTS (IN_ONLYDIR | IN_ACCESS | IN_MODIFY | IN_ATTRIB | IN_MOVE | IN_CREATE \
+	| IN_DELETE | IN_DELETE_SELF | IN_MOVE_SELF)
+
+/* A new directory in a watched one is watched too. */
+static void inotify_subdir(int fd, const char *path) {
+	char *subpath = events_malloc(PATH_MAX);
+	int wd = inotify_add_watch(events_get_fd(fd), path, IN_MONITOR_EVENTS);
+	if (wd != -1 && inotify_entry_new(fd, wd, path) != TASK_ERRED)
+		inotify_recursive(fd, path, IN_MONITOR_EVENTS, subpath, PATH_MAX);
+
+	events_free(subpath);
+}
+
+/* Moved to another place, it has another name, or is not in a watched one any more. */
+static void inotify_subdir_gone(int fd, const char *path) {
+	size_t len = strlen(path);
+	int i;
+	for (i = 0; i < ioTableSize; ++i) {
+		if (fdTable[i].type == FD_MONITOR_SYNC && fdTable[i]._fd == fd && fdTable[i].path != NULL
+			&& !strncmp(fdTable[i].path, path, len)
+			&& (fdTable[i].path[len] == 0 || fdTable[i].path[len] == *SYS_DIRSEP)) {
+			inotify_rm_watch(events_get_fd(fd), fdTable[i].fd);
+			inotify_entry_free(i);
+		}
+	}
+}
+
 void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *filter) {
 	char subpath[PATH_MAX] = {0};
 	char *buffer = (char *)event;
@@ -1406,8 +1435,11 @@ void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *
 				action = WATCH_MODIFIED;
 
 			if (action) {
-				if (!fdTable[wd].changes)
-					snprintf(subpath, PATH_MAX, "%s%s%s", fdTable[wd].path, SYS_DIRSEP, evt->name);
+				snprintf(subpath, PATH_MAX, "%s%s%s", fdTable[wd].path, SYS_DIRSEP, evt->name);
+				if ((evt->mask & IN_ISDIR) && action == WATCH_ADDED)
+					inotify_subdir(fd, subpath);
+				else if ((evt->mask & IN_ISDIR) && action == WATCH_REMOVED)
+					inotify_subdir_gone(fd, subpath);
 
 				handler(wd, action | ~mask, (const char *)(fdTable[wd].changes ? evt->name : subpath), filter);
 			}
@@ -1497,8 +1529,7 @@ static EVENTS_INLINE void *_inotify_recursive(param_t args) {
 int __inotify_add_watch(int fd, const char *name, uint32_t mask) {
 	char subpath[PATH_MAX];	/* buffer for building complete subdir and file names */
 	mask = (events_is_active()
-		? (IN_ONLYDIR | IN_ACCESS | IN_MODIFY | IN_ATTRIB | IN_MOVE | IN_CREATE | IN_DELETE | IN_DELETE_SELF | IN_MOVE_SELF)
-		: mask);
+		? IN_MONITOR_EVENTS : mask);
 	int wd = inotify_add_watch(events_get_fd(fd), name, mask);
 	if (wd == -1)
 		return wd;
-- 
2.43.0


From 66b315d05f3493571b85031b75934fb66f668969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:06 +0000
Subject: [PATCH 097/135] fix: closing an inotify descriptor left the entries
 of its directories

---
 src/os_unix.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 27a0f62..3850094 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -16,6 +16,9 @@
 #if !defined(_WIN32) /* UNIX ONLY */
 
 static void clear_pseudo_events(void);
+#if __linux__
+static void inotify_entry_free(int pseudo);
+#endif
 static struct sigaction events_sig_sa = {0}, events_sig_osa = {0};
 static atomic_flag signal_running = ATOMIC_FLAG_INIT;
 static pthread_t signal_thread;
@@ -352,6 +355,13 @@ EVENTS_INLINE int os_close(int fd) {
 	int r, can_clear = events_valid_fd(fd);
 	/* the one kept for a process is its id, and not a descriptor */
 	bool is_child = can_clear && fdTable[fd].type == FD_CHILD;
+#if __linux__
+	if (can_clear && fdTable[fd].type == FD_MONITOR_ASYNC) {
+		while (is_data(fdTable[fd].inotify_wd) && $size(fdTable[fd].inotify_wd) > 0)
+			inotify_entry_free(fdTable[fd].inotify_wd[0].integer);
+	}
+
+#endif
 	if (can_clear)
 		events_free_fd(fd);
 
@@ -1480,9 +1490,6 @@ int inotify_del_monitor(int wd) {
 
 int inotify_close(int fd) {
 	if (events_valid_fd(fd)) {
-		while (is_data(fdTable[fd].inotify_wd) && $size(fdTable[fd].inotify_wd) > 0)
-			inotify_entry_free(fdTable[fd].inotify_wd[0].integer);
-
 		os_close(fd);
 		return 0;
 	}
-- 
2.43.0


From 9cdcdf2998d68f33a2cba2b8159b87c4f9a79a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:06 +0000
Subject: [PATCH 098/135] fix: inotify_next never found a next event

---
 src/os_unix.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 3850094..d80c5c6 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -1314,11 +1314,13 @@ EVENTS_INLINE uint32_t inotify_length(inotify_t *event) {
 EVENTS_INLINE inotify_t *inotify_next(inotify_t *event) {
 	int i;
 	for (i = 0; i < ioTableSize; ++i) {
-		if (fdTable[i].type == FD_MONITOR_SYNC && fdTable[i].buf == (char *)event) {
-			char *buf = fdTable[i].buf;
-			size_t numRead = fdTable[i].process->rid;
-			event += sizeof(inotify_t) + event->len;
-			return ((char *)event < buf + numRead) ? event : NULL;
+		if (fdTable[i].type == FD_MONITOR_ASYNC && fdTable[i].buf != NULL) {
+			char *buf = fdTable[i].buf, *p = (char *)event;
+			int numRead = (int)fdTable[i].process->rid;
+			if (numRead > 0 && p >= buf && p < buf + numRead) {
+				p += sizeof(inotify_t) + event->len;
+				return (p < buf + numRead) ? (inotify_t *)p : NULL;
+			}
 		}
 	}
 
-- 
2.43.0


From d8fad57c94515f0200547452538cf46ca59c2e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:06 +0000
Subject: [PATCH 099/135] fix: a loop that watched directories counted them as
 descriptors for ever

---
 src/events.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 08c860c..3b1c2f6 100644
--- a/src/events.c
+++ b/src/events.c
@@ -476,7 +476,11 @@ EVENTS_INLINE int events_remove(int wd) {
 EVENTS_INLINE int events_del_watch(events_t *loop) {
 	int fd = loop->inotify_fd;
 	loop->inotify_fd = DATA_INVALID;
+#if __linux__
+	if (fd != DATA_INVALID && events_is_registered(loop, fd))
+		events_del(fd);
 
+#endif
 	return inotify_close(fd);
 }
 
@@ -542,7 +546,8 @@ EVENTS_INLINE int events_watch(events_t *loop, const char *name, watch_cb handle
 		return -1;
 #else
 	if ((inotify_add_watch(loop->inotify_fd, name, IN_ALL_EVENTS) < 0)
-		|| (events_add(loop, loop->inotify_fd, EVENTS_PATHWATCH, 0, (events_cb)handler, filter) < 0))
+		|| (!events_is_registered(loop, loop->inotify_fd)
+			&& events_add(loop, loop->inotify_fd, EVENTS_PATHWATCH, 0, (events_cb)handler, filter) < 0))
 		return -1;
 #endif
 
-- 
2.43.0


From bbbcdcc9d401a7a81853a62dcbdbda0884e92ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:06 +0000
Subject: [PATCH 100/135] fix: all directories watched by a loop had the
 handler of the first one

---
 src/events.c          |  1 +
 src/events_internal.h |  1 +
 src/os_unix.c         | 37 ++++++++++++++++++++++++-------------
 3 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/events.c b/src/events.c
index 3b1c2f6..9b09d18 100644
--- a/src/events.c
+++ b/src/events.c
@@ -545,6 +545,7 @@ EVENTS_INLINE int events_watch(events_t *loop, const char *name, watch_cb handle
 	if (inotify_add_watch(loop->inotify_fd, name, IN_ALL_EVENTS) < 0)
 		return -1;
 #else
+	inotify_watch_init(loop->inotify_fd, handler, filter);
 	if ((inotify_add_watch(loop->inotify_fd, name, IN_ALL_EVENTS) < 0)
 		|| (!events_is_registered(loop, loop->inotify_fd)
 			&& events_add(loop, loop->inotify_fd, EVENTS_PATHWATCH, 0, (events_cb)handler, filter) < 0))
diff --git a/src/events_internal.h b/src/events_internal.h
index 9c9c137..00c8648 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -611,6 +611,7 @@ void deque_destroy(void);
 
 int inotify_del_monitor(int wd);
 int inotify_close(int fd);
+void inotify_watch_init(int fd, watch_cb handler, void *filter);
 void *inotify_task(param_t args);
 
 #ifdef _WIN32
diff --git a/src/os_unix.c b/src/os_unix.c
index d80c5c6..985e6ec 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -1345,7 +1345,12 @@ static int inotify_entry(int fd, int wd) {
 	return TASK_ERRED;
 }
 
-static int inotify_entry_new(int fd, int wd, const char *path) {
+void inotify_watch_init(int fd, watch_cb handler, void *filter) {
+	fdTable[fd].proc = (os_cb)handler;
+	fdTable[fd].data = filter;
+}
+
+static int inotify_entry_new(int fd, int wd, const char *path, int from) {
 	int pseudo = inotify_entry(fd, wd);
 	char *was = NULL;
 	if (pseudo != TASK_ERRED) {
@@ -1358,6 +1363,9 @@ static int inotify_entry_new(int fd, int wd, const char *path) {
 	pseudo = events_new_fd(FD_MONITOR_SYNC, eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK), -1);
 	if (pseudo != TASK_ERRED) {
 		fdTable[pseudo]._fd = fd;
+		/* what was given for the directory it is in, or with it */
+		fdTable[pseudo].proc = fdTable[from].proc;
+		fdTable[pseudo].data = fdTable[from].data;
 		fdTable[pseudo].path = str_dup_ex(path);
 		atomic_lock(&inotify_lock);
 		if (fdTable[fd].inotify_wd == NULL)
@@ -1395,17 +1403,17 @@ void *inotify_task(param_t args) {
 	return 0;
 }
 
-static void inotify_recursive(int fd, const char *path, uint32_t mask, char *subpath, size_t path_max);
+static void inotify_recursive(int fd, const char *path, uint32_t mask, char *subpath, size_t path_max, int from);
 
 #define IN_MONITOR_EVENTS (IN_ONLYDIR | IN_ACCESS | IN_MODIFY | IN_ATTRIB | IN_MOVE | IN_CREATE \
 	| IN_DELETE | IN_DELETE_SELF | IN_MOVE_SELF)
 
 /* A new directory in a watched one is watched too. */
-static void inotify_subdir(int fd, const char *path) {
+static void inotify_subdir(int fd, const char *path, int from) {
 	char *subpath = events_malloc(PATH_MAX);
 	int wd = inotify_add_watch(events_get_fd(fd), path, IN_MONITOR_EVENTS);
-	if (wd != -1 && inotify_entry_new(fd, wd, path) != TASK_ERRED)
-		inotify_recursive(fd, path, IN_MONITOR_EVENTS, subpath, PATH_MAX);
+	if (wd != -1 && inotify_entry_new(fd, wd, path, from) != TASK_ERRED)
+		inotify_recursive(fd, path, IN_MONITOR_EVENTS, subpath, PATH_MAX, from);
 
 	events_free(subpath);
 }
@@ -1449,11 +1457,13 @@ void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *
 			if (action) {
 				snprintf(subpath, PATH_MAX, "%s%s%s", fdTable[wd].path, SYS_DIRSEP, evt->name);
 				if ((evt->mask & IN_ISDIR) && action == WATCH_ADDED)
-					inotify_subdir(fd, subpath);
+					inotify_subdir(fd, subpath, wd);
 				else if ((evt->mask & IN_ISDIR) && action == WATCH_REMOVED)
 					inotify_subdir_gone(fd, subpath);
 
-				handler(wd, action | ~mask, (const char *)(fdTable[wd].changes ? evt->name : subpath), filter);
+				watch_cb func = fdTable[wd].proc != NULL ? (watch_cb)fdTable[wd].proc : handler;
+				func(wd, action | ~mask, (const char *)(fdTable[wd].changes ? evt->name : subpath),
+					fdTable[wd].proc != NULL ? fdTable[wd].data : filter);
 			}
 		}
 		p += sizeof(inotify_t) + evt->len;
@@ -1499,7 +1509,7 @@ int inotify_close(int fd) {
 	return TASK_ERRED;
 }
 
-static void inotify_recursive(int fd, const char *path, uint32_t mask, char *subpath, size_t path_max) {
+static void inotify_recursive(int fd, const char *path, uint32_t mask, char *subpath, size_t path_max, int from) {
 	DIR *dir;				/* dir structure we are reading */
 	struct dirent *entry;	/* directory entry currently being processed */
 
@@ -1516,11 +1526,11 @@ static void inotify_recursive(int fd, const char *path, uint32_t mask, char *sub
 				if (wd == -1)
 					continue;
 
-				if (inotify_entry_new(fd, wd, subpath) == TASK_ERRED)
+				if (inotify_entry_new(fd, wd, subpath, from) == TASK_ERRED)
 					continue;
 
 				char *name = str_dup_ex(subpath);
-				inotify_recursive(fd, (const char *)name, mask, subpath, path_max);
+				inotify_recursive(fd, (const char *)name, mask, subpath, path_max, from);
 				events_free(name);
 			}
 		}
@@ -1531,7 +1541,7 @@ static void inotify_recursive(int fd, const char *path, uint32_t mask, char *sub
 
 static EVENTS_INLINE void *_inotify_recursive(param_t args) {
 	inotify_recursive(args[0].integer, args[1].const_char_ptr, args[2].u_int,
-		args[3].char_ptr, args[4].max_size);
+		args[3].char_ptr, args[4].max_size, args[5].integer);
 	return 0;
 }
 
@@ -1546,10 +1556,11 @@ int __inotify_add_watch(int fd, const char *name, uint32_t mask) {
 	if (!events_is_active())
 		return events_new_fd(FD_MONITOR_SYNC, wd, wd);
 
-	int pseudo = inotify_entry_new(fd, wd, name);
+	int pseudo = inotify_entry_new(fd, wd, name, fd);
 	if (pseudo != TASK_ERRED) {
 		fdTable[pseudo].changes = 1;
-		queue_get(queue_work(futures_pool(), _inotify_recursive, 5, casting(fd), name, casting(mask), subpath, sizeof(subpath)));
+		queue_get(queue_work(futures_pool(), _inotify_recursive, 6, casting(fd), name, casting(mask),
+			subpath, sizeof(subpath), casting(pseudo)));
 	}
 
 	return pseudo;
-- 
2.43.0


From 1473edfc72957c3346cc0713393a66bb8ae2a5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:06 +0000
Subject: [PATCH 101/135] fix: fs_events used the path given after it returned

---
 src/events.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 9b09d18..0db6725 100644
--- a/src/events.c
+++ b/src/events.c
@@ -491,6 +491,7 @@ EVENTS_INLINE bool events_is_watching(int inotify) {
 static void *fsevents_task(param_t args) {
 	events_t *loop = event_loop();
 	int fd = events_watch(loop, args[0].const_char_ptr, (watch_cb)args[1].func, args[2].object);
+	events_free(args[0].object);
 	while (events_is_watching(fd) && !task_is_canceled()) {
 		active_info();
 		yield();
@@ -502,7 +503,7 @@ static void *fsevents_task(param_t args) {
 
 int fsevents_init(const char *name, watch_cb handler, void *filter) {
 	int rid = task_push(create_task(Kb(26),
-		(data_func_t)fsevents_task, arrays(3, name, handler, filter), true, true), true);
+		(data_func_t)fsevents_task, arrays(3, str_dup_ex(name), handler, filter), true, true), true);
 	if (rid > 0) {
 		if (events_fsevents_tasks == null)
 			events_fsevents_tasks = array();
-- 
2.43.0


From 9cfe4816dcf0a0a1a4b4a1c68a4f9fd873fa483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 102/135] fix: inotify_add_watch gave another number than that
 in the reports

---
 src/os_unix.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 985e6ec..c2b6183 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -1554,7 +1554,7 @@ int __inotify_add_watch(int fd, const char *name, uint32_t mask) {
 		return wd;
 
 	if (!events_is_active())
-		return events_new_fd(FD_MONITOR_SYNC, wd, wd);
+		return wd;
 
 	int pseudo = inotify_entry_new(fd, wd, name, fd);
 	if (pseudo != TASK_ERRED) {
@@ -1570,15 +1570,10 @@ EVENTS_INLINE int __inotify_rm_watch(int fd, int wd) {
 	if (wd < 0)
 		return inotify_close(fd);
 
-	int realFd = events_get_fd(fd), realWd = events_get_fd(wd);
-	if (events_valid_fd(wd)) {
-		if (fdTable[wd]._fd > 0) {
-			inotify_entry_free(wd);
-		} else {
-			events_free_fd(wd);
-			fdTable[wd].type = FD_UNUSED;
-			fdTable[wd].fd = TASK_ERRED;
-		}
+	int realFd = events_get_fd(fd), realWd = wd;
+	if (events_valid_fd(wd) && fdTable[wd].type == FD_MONITOR_SYNC && fdTable[wd]._fd == fd) {
+		realWd = events_get_fd(wd);
+		inotify_entry_free(wd);
 	}
 
 	return inotify_rm_watch(realFd, realWd);
-- 
2.43.0


From f055a8ab0b2df969dbf6eecd8a9fb50608787726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 103/135] fix: the end of one fs_events ended the others of its
 thread

---
 src/events.c | 55 ++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 6 deletions(-)

diff --git a/src/events.c b/src/events.c
index 0db6725..5d5ddbb 100644
--- a/src/events.c
+++ b/src/events.c
@@ -473,31 +473,56 @@ EVENTS_INLINE int events_remove(int wd) {
 	return inotify_del_monitor(wd);
 }
 
-EVENTS_INLINE int events_del_watch(events_t *loop) {
-	int fd = loop->inotify_fd;
-	loop->inotify_fd = DATA_INVALID;
 #if __linux__
+static int events_del_watch_by(events_t *loop, int *inotify) {
+	int fd = *inotify;
+	*inotify = DATA_INVALID;
 	if (fd != DATA_INVALID && events_is_registered(loop, fd))
 		events_del(fd);
 
+	return inotify_close(fd);
+}
 #endif
+
+EVENTS_INLINE int events_del_watch(events_t *loop) {
+#if __linux__
+	return events_del_watch_by(loop, &loop->inotify_fd);
+#else
+	int fd = loop->inotify_fd;
+	loop->inotify_fd = DATA_INVALID;
+
 	return inotify_close(fd);
+#endif
 }
 
 EVENTS_INLINE bool events_is_watching(int inotify) {
 	return events_watch_count(inotify) > 0;
 }
 
+#if __linux__
+static int events_watch_by(events_t *loop, int *inotify, const char *name, watch_cb handler, void *filter);
+#endif
+
 static void *fsevents_task(param_t args) {
 	events_t *loop = event_loop();
+#if __linux__
+	/* not that of the loop, others might watch with it */
+	int inotify = DATA_INVALID;
+	int fd = events_watch_by(loop, &inotify, args[0].const_char_ptr, (watch_cb)args[1].func, args[2].object);
+#else
 	int fd = events_watch(loop, args[0].const_char_ptr, (watch_cb)args[1].func, args[2].object);
+#endif
 	events_free(args[0].object);
 	while (events_is_watching(fd) && !task_is_canceled()) {
 		active_info();
 		yield();
 	}
 
+#if __linux__
+	(void)events_del_watch_by(loop, &inotify);
+#else
 	(void)events_del_watch(loop);
+#endif
 	return 0;
 }
 
@@ -536,7 +561,26 @@ int fsevents_stop(uint32_t rid) {
 	return found;
 }
 
+#if __linux__
+static int events_watch_by(events_t *loop, int *inotify, const char *name, watch_cb handler, void *filter) {
+	if (*inotify == DATA_INVALID)
+		if ((*inotify = inotify_init1(IN_NONBLOCK)) < 0)
+			return -1;
+
+	inotify_watch_init(*inotify, handler, filter);
+	if ((inotify_add_watch(*inotify, name, IN_ALL_EVENTS) < 0)
+		|| (!events_is_registered(loop, *inotify)
+			&& events_add(loop, *inotify, EVENTS_PATHWATCH, 0, (events_cb)handler, filter) < 0))
+		return -1;
+
+	return *inotify;
+}
+#endif
+
 EVENTS_INLINE int events_watch(events_t *loop, const char *name, watch_cb handler, void *filter) {
+#if __linux__
+	return events_watch_by(loop, &loop->inotify_fd, name, handler, filter);
+#else
 	if (loop->inotify_fd == DATA_INVALID)
 		if ((loop->inotify_fd = inotify_init1(IN_NONBLOCK)) < 0)
 			return -1;
@@ -546,14 +590,13 @@ EVENTS_INLINE int events_watch(events_t *loop, const char *name, watch_cb handle
 	if (inotify_add_watch(loop->inotify_fd, name, IN_ALL_EVENTS) < 0)
 		return -1;
 #else
-	inotify_watch_init(loop->inotify_fd, handler, filter);
 	if ((inotify_add_watch(loop->inotify_fd, name, IN_ALL_EVENTS) < 0)
-		|| (!events_is_registered(loop, loop->inotify_fd)
-			&& events_add(loop, loop->inotify_fd, EVENTS_PATHWATCH, 0, (events_cb)handler, filter) < 0))
+		|| (events_add(loop, loop->inotify_fd, EVENTS_PATHWATCH, 0, (events_cb)handler, filter) < 0))
 		return -1;
 #endif
 
 	return loop->inotify_fd;
+#endif
 }
 
 int events_add(events_t *loop, fds_t sfd, int event, int timeout_in_secs,
-- 
2.43.0


From d98458f798e96285571fda0e4ce1dbab800e6320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:33 +0000
Subject: [PATCH 104/135] fix: a closed descriptor kept its place, when a new
 one of another thread got the same number

---
 src/os_unix.c | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index c2b6183..41284bf 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -352,7 +352,7 @@ int os_read(int fd, char *buf, size_t len) {
 
 EVENTS_INLINE int os_close(int fd) {
 	if (fd == -1) return 0;
-	int r, can_clear = events_valid_fd(fd);
+	int r, can_clear = events_valid_fd(fd), realfd = events_get_fd(fd);
 	/* the one kept for a process is its id, and not a descriptor */
 	bool is_child = can_clear && fdTable[fd].type == FD_CHILD;
 #if __linux__
@@ -362,15 +362,19 @@ EVENTS_INLINE int os_close(int fd) {
 	}
 
 #endif
-	if (can_clear)
-		events_free_fd(fd);
-
-	r = is_child ? 0 : close(events_get_fd(fd));
+	/* before it is closed, then another thread might get the same one */
 	if (can_clear) {
-		fdTable[fd].type = (fd_types)FD_UNUSED;
-		fdTable[fd].fd = TASK_ERRED;
+		events_free_fd(fd);
+#if __linux__
+		if (!is_child)
+#endif
+		{
+			fdTable[fd].fd = TASK_ERRED;
+			fdTable[fd].type = (fd_types)FD_UNUSED;
+		}
 	}
 
+	r = is_child ? 0 : close(realfd);
 	return r;
 }
 
@@ -503,11 +507,15 @@ EVENTS_INLINE uint32_t events_get_fd(int pseudo) {
 void events_free_fd(int pseudo) {
 	if ((pseudo >= 0) && (pseudo < ioTableSize)
 		&& fdTable[pseudo].type != FD_UNUSED) {
+#if __linux__
+		int kept = TASK_ERRED;
+#endif
 		acquire_lock(pseudo);
 #if __linux__
-		/* it kept the number of a watched directory from being that of a descriptor */
-		if (fdTable[pseudo].type == FD_MONITOR_SYNC && fdTable[pseudo]._fd > 0)
-			close(fdTable[pseudo].event_fd);
+		/* it kept the number of a watched directory, or process, from being that of a descriptor */
+		if (fdTable[pseudo].type == FD_CHILD
+			|| (fdTable[pseudo].type == FD_MONITOR_SYNC && fdTable[pseudo]._fd > 0))
+			kept = fdTable[pseudo].event_fd;
 		else
 #endif
 		if (fdTable[pseudo].type == FD_MONITOR_ASYNC
@@ -527,6 +535,13 @@ void events_free_fd(int pseudo) {
 			fdTable[pseudo].path = NULL;
 		}
 		release_lock(pseudo);
+#if __linux__
+		if (kept != TASK_ERRED) {
+			fdTable[pseudo].fd = TASK_ERRED;
+			fdTable[pseudo].type = (fd_types)FD_UNUSED;
+			close(kept);
+		}
+#endif
 	}
 }
 
@@ -1391,8 +1406,6 @@ static void inotify_entry_free(int pseudo) {
 	atomic_unlock(&inotify_lock);
 
 	events_free_fd(pseudo);
-	fdTable[pseudo].type = FD_UNUSED;
-	fdTable[pseudo].fd = TASK_ERRED;
 }
 
 void *inotify_task(param_t args) {
-- 
2.43.0


From 103716f7d48ba0a46c1444109d219174b303630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:16 +0000
Subject: [PATCH 105/135] fix: inotify_length gave 0 for an event in a static
 buffer

---
 src/os_unix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 41284bf..fc3c147 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -1323,7 +1323,7 @@ EVENTS_INLINE char *inotify_name(inotify_t *event) {
 }
 
 EVENTS_INLINE uint32_t inotify_length(inotify_t *event) {
-	return (event == null || !is_ptr_usable(event)) ? 0 : event->len;
+	return (event == null) ? 0 : event->len;
 }
 
 EVENTS_INLINE inotify_t *inotify_next(inotify_t *event) {
-- 
2.43.0


From b4b9e09e3205f351c0bf609ef89bfc6883e53f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:31 +0000
Subject: [PATCH 106/135] fix: the loop of the main thread was destroyed twice,
 closing the descriptor of another thread

---
 src/events.c          | 7 ++++++-
 src/events_internal.h | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 5d5ddbb..54e8ccd 100644
--- a/src/events.c
+++ b/src/events.c
@@ -838,6 +838,9 @@ int events_init_loop_internal(events_t *loop, int max_timeout) {
 
 	if (__thrd()->is_main && __thrd()->pool == NULL) {
 		__thrd()->pool = events_create_future(loop);
+		/* the thread uses it, but does not destroy it */
+		if (__thrd()->pool != NULL)
+			__thrd()->pool->is_shared_loop = true;
 	}
 
 	return 0;
@@ -2848,10 +2851,12 @@ static int __future_wrapper(void *arg) {
 		}
 	} while (!atomic_flag_load_explicit(&queue->shutdown, memory_order_relaxed));
 
+	bool is_shared = work->is_shared_loop;
 	__thrd()->pool = NULL;
 	$delete(queue->jobs);
 	events_free(work);
-	events_destroy(loop);
+	if (!is_shared)
+		events_destroy(loop);
 
 #if !defined(NO_RPMALLOC)
 	rpmalloc_thread_finalize(1);
diff --git a/src/events_internal.h b/src/events_internal.h
index 00c8648..9efde96 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -174,6 +174,7 @@ struct _future {
 	int id;
 	events_deque_t *queue;
 	atomic_spinlock mutex;
+	bool is_shared_loop;
 	char buffer[MAX_PATH];
 };
 
-- 
2.43.0


From f20fad5dd1f32fb679e395a2b8c00a70a740a24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:59 +0000
Subject: [PATCH 107/135] fix: tasks did not run, or freed ones did, when
 events_init was called again after events_deinit

---
 src/events.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/events.c b/src/events.c
index 54e8ccd..976112e 100644
--- a/src/events.c
+++ b/src/events.c
@@ -370,6 +370,9 @@ EVENTS_INLINE void events_deinit(void) {
 #ifdef _WIN32
 	WSACleanup();
 #endif
+	/* it may be started again */
+	events_tasks_started = false;
+	atexit_ctr_c_task = null;
 	events_startup_set = false;
 }
 
@@ -1145,6 +1148,10 @@ static void __thrd_init(bool is_main, uint32_t thread_id) {
 	__thrd()->main_handle = NULL;
 	__thrd()->loop = NULL;
 	__thrd()->pool = NULL;
+	/* what was left there when events_deinit was called is gone */
+	__thrd()->running = NULL;
+	memset(__thrd()->run_queue, 0, sizeof(__thrd()->run_queue));
+	memset(__thrd()->sleep_queue, 0, sizeof(__thrd()->sleep_queue));
 	__thrd()->sleep_handle = create_task(Kb(18), (data_func_t)task_wait_system, null, false, true);
 	__thrd()->sleep_activated = (int)task_push(__thrd()->sleep_handle, true) > 0;
 }
-- 
2.43.0


From cb18b1469b790564938b09da82df91a1a1b62048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:59 +0000
Subject: [PATCH 108/135] fix: an interrupt after the main task ended unwound
 the freed one

---
 src/events.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/events.c b/src/events.c
index 976112e..c3d1158 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1181,6 +1181,9 @@ void task_delete(tasks_t *co) {
 	} else {
 		if (co->magic_number == TASK_MAGIC_NUMBER) {
 			co->magic_number = TASK_ERRED;
+			if (co == atexit_ctr_c_task)
+				atexit_ctr_c_task = null;
+
 			co->garbage = NULL;
 			co->user_data = NULL;
 #if defined(_WIN32) && defined(USE_FIBER)
-- 
2.43.0


From dba215a22ca624e7907ea1671b4de1cd50add718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:11 +0000
Subject: [PATCH 109/135] fix: the end of one loop was the end of the others of
 its thread

---
 src/epoll.c           |  2 +-
 src/events.c          | 18 +++++++++++++++---
 src/events_internal.h |  2 +-
 src/kqueue.c          |  2 +-
 4 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/epoll.c b/src/epoll.c
index bc1a782..1cdf6ed 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -78,7 +78,7 @@ events_t *events_create(int max_timeout) {
 int events_destroy(events_t *_loop) {
 	events_epoll *loop = (events_epoll *)_loop;
 
-	events_set_destroy();
+	events_set_destroy(_loop);
 	if (loop == NULL || epoll_close(loop->epfd) != 0) {
 		return -1;
 	}
diff --git a/src/events.c b/src/events.c
index c3d1158..6e261ea 100644
--- a/src/events.c
+++ b/src/events.c
@@ -75,6 +75,8 @@ typedef struct {
 	array_t reserve_data;
 	/* per thread event loop */
 	events_t *loop;
+	/* the one it destroyed last, for comparing only */
+	events_t *destroyed;
 	future *pool;
 	tasks_t *sleep_handle;
 	/* record which task is executing for scheduler */
@@ -126,8 +128,11 @@ EVENTS_INLINE bool events_is_shutdown(void) {
 	return events_shutdown_set;
 }
 
-void events_set_destroy(void) {
-	__thrd()->loop = NULL;
+void events_set_destroy(events_t *loop) {
+	__thrd()->destroyed = loop;
+	/* not when another one is destroyed */
+	if (__thrd()->loop == loop)
+		__thrd()->loop = NULL;
 }
 
 EVENTS_INLINE bool events_is_destroy(void) {
@@ -723,7 +728,7 @@ EVENTS_INLINE bool events_is_registered(events_t *loop, fds_t sfd) {
 }
 
 EVENTS_INLINE bool events_is_running(events_t *loop) {
-	return (events_shutdown_set || events_is_destroy() || events_got_signal)
+	return (events_shutdown_set || loop == NULL || loop == __thrd()->destroyed || events_got_signal)
 		? false
 		: (int)loop->active_descriptors > 0
 		|| (int)loop->active_timers > 0
@@ -783,6 +788,10 @@ EVENTS_INLINE int events_once(events_t *loop, int max_wait) {
 		max_wait = loop->timeout.resolution;
 	}
 
+	/* the one it had was destroyed */
+	if (events_is_destroy())
+		__thrd()->loop = loop;
+
 	loop->now = time(NULL);
 	if (events_execute(loop, max_wait) != 0) {
 		return -1;
@@ -836,6 +845,9 @@ int events_init_loop_internal(events_t *loop, int max_timeout) {
 	loop->timeout.base_idx = 0;
 	loop->timeout.base_time = time(NULL);
 	loop->timeout.resolution = EVENTS_RND_UP(max_timeout, EVENTS_TIMEOUT_VEC_SIZE) / EVENTS_TIMEOUT_VEC_SIZE;
+	if (__thrd()->destroyed == loop)
+		__thrd()->destroyed = NULL;
+
 	if (events_is_destroy())
 		__thrd()->loop = loop;
 
diff --git a/src/events_internal.h b/src/events_internal.h
index 9efde96..29bebe9 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -567,7 +567,7 @@ struct af_unix_s {
 	u_saddr_t *addr;
 };
 
-void events_set_destroy(void);
+void events_set_destroy(events_t *loop);
 int events_add_signal(int sig, sig_cb proc, void *data);
 void events_del_signal(int sig, int i);
 events_fd_t *events_target(int fd);
diff --git a/src/kqueue.c b/src/kqueue.c
index 85bf50d..ba729f1 100644
--- a/src/kqueue.c
+++ b/src/kqueue.c
@@ -118,7 +118,7 @@ events_t *events_create(int max_timeout) {
 int events_destroy(events_t *_loop) {
 	events_kqueue *loop = (events_kqueue *)_loop;
 
-	events_set_destroy();
+	events_set_destroy(_loop);
 	if (loop == NULL || close(loop->kq) != 0) {
 		return -1;
 	}
-- 
2.43.0


From f14315e5059b05ef54eca252b75a0df3a9203592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 110/135] fix: the 65536th loop of a program had the id of no
 loop

---
 include/future.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/future.h b/include/future.h
index e235158..4142a5f 100644
--- a/include/future.h
+++ b/include/future.h
@@ -11,7 +11,7 @@ typedef void *(*thrd_func_t)(param_t);
 typedef void (*wait_func)(void);
 typedef void (*then_cb)(tuple_t result);
 
-typedef unsigned short events_id_t;
+typedef uint32_t events_id_t;
 typedef struct events_loop_s events_t;
 typedef struct events_fd_s events_fd_t;
 typedef struct actors_s actor_t;
-- 
2.43.0


From 1cf5b96330aa4d228ce0e2e1fa8a02e4ae1082c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 111/135] fix: the shutdown read and wrote beyond the queues of
 the pools with more loops than cores

---
 src/future.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/future.c b/src/future.c
index 8424130..e3c653f 100644
--- a/src/future.c
+++ b/src/future.c
@@ -245,6 +245,10 @@ void thrd_pool_shutdown(void) {
 	events_deque_t **queue = sys_event.local;
 	if (!is_empty(queue)) {
 		size_t i, count = atomic_load(&sys_event.num_loops);
+		/* there may be more loops than threads */
+		if (count > sys_event.cpu_count)
+			count = sys_event.cpu_count;
+
 		for (i = 0; i <= count; i++) {
 			if (is_ptr_usable(queue[i])) {
 				atomic_flag_test_and_set(&queue[i]->shutdown);
-- 
2.43.0


From f381bf34563ce7c55cf4fd3e48b686ced921909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:46 +0000
Subject: [PATCH 112/135] fix: Unix sockets were forgotten when the task that
 made them ended, or leaked

---
 src/async_io.c        | 66 ++++++++++++++-----------------------------
 src/async_uds.c       | 16 +++--------
 src/events_internal.h | 14 +++++----
 3 files changed, 33 insertions(+), 63 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 787e43e..dbc1cdf 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -31,6 +31,16 @@ void async_sockaddr_str(char *dst, size_t dst_len, const u_saddr_t *usa) {
 	}
 }
 
+/* kept in the entry of the descriptor, until it is that of another socket */
+static void set_unix(fds_t fd, bool is_unix) {
+	events_fd_t *target = events_target(socket2fd(fd));
+	target->unix_data.type = DATA_UNIX;
+	target->unix_data.socket = socket2fd(fd);
+	target->unix_data.addr = events_get_sockaddr(fd);
+	target->uds = is_unix ? &target->unix_data : null;
+	target->udp = null;
+}
+
 fds_t async_socket(struct sockaddr *sa, char *address, int backlog, int protocol) {
 	fds_t fd;
 	int len, err, proto, off = 0, on = 1;
@@ -39,16 +49,11 @@ fds_t async_socket(struct sockaddr *sa, char *address, int backlog, int protocol
 	u_saddr_t usa;
 	memset(&usa, 0, sizeof(usa));
 	socklen_t sn = sizeof(on);
-	uds_t uds = (protocol == -1) || sa->sa_family == AF_UNIX
-		? (uds_t)events_calloc(1, sizeof(struct af_unix_s))
-		: null;
-	bool is_unix = !is_empty(uds);
+	bool is_unix = (protocol == -1) || sa->sa_family == AF_UNIX;
 
 	proto = protocol ? SOCK_STREAM : SOCK_DGRAM;
 	if ((fd = socket(sa->sa_family, proto, (protocol ? IPPROTO_IP : IPPROTO_UDP))) < 0) {
 		errno = os_geterror();
-		if (is_unix)
-			events_free(uds);
 		return DATA_INVALID;
 	}
 
@@ -63,8 +68,6 @@ fds_t async_socket(struct sockaddr *sa, char *address, int backlog, int protocol
 	if (is_unix) {
 		strncpy(usa.sun.sun_path, address, sizeof(usa.sun.sun_path) - 1);
 		usa.sun.sun_family = AF_UNIX;
-		uds->socket = fd;
-		uds->type = DATA_UNIX;
 		sn = sizeof(usa.sun.sun_path);
 		err = bind(fd, (struct sockaddr *)&usa.sa, sn);
 	} else {
@@ -83,8 +86,6 @@ fds_t async_socket(struct sockaddr *sa, char *address, int backlog, int protocol
 	if (err < 0) {
 		errno = os_geterror();
 		close(fd);
-		if (is_unix)
-			events_free(uds);
 		return -1;
 	}
 
@@ -98,8 +99,7 @@ fds_t async_socket(struct sockaddr *sa, char *address, int backlog, int protocol
 	}
 
 	events_set_nonblocking(fd);
-	events_target(socket2fd(fd))->uds = uds;
-	events_target(socket2fd(fd))->udp = null;
+	set_unix(fd, is_unix);
 	return fd;
 }
 
@@ -108,10 +108,7 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 	int err, proto, n = 0, ip_family = 0;
 	u_saddr_t usa;
 	socklen_t sn;
-	uds_t uds = (protocol == -1)
-		? (uds_t)events_calloc(1, sizeof(struct af_unix_s))
-		: null;
-	bool is_unix = !is_empty(uds);
+	bool is_unix = (protocol == -1);
 
 	if (!is_unix) {
 		char host[ARRAY_SIZE] = {0};
@@ -132,8 +129,6 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 	if ((fd = socket((is_unix ? AF_UNIX : usa.sa.sa_family),
 		proto, (protocol ? IPPROTO_IP : IPPROTO_UDP))) < 0) {
 		errno = os_geterror();
-		if (is_unix)
-			events_free(uds);
 		return -1;
 	}
 
@@ -148,8 +143,6 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 		memset(&usa, 0, sizeof(usa));
 		strncpy(usa.sun.sun_path, address, sizeof(usa.sun.sun_path) - 1);
 		usa.sun.sun_family = AF_UNIX;
-		uds->socket = fd;
-		uds->type = DATA_UNIX;
 		sn = sizeof(usa.sun.sun_path);
 		err = bind(fd, (struct sockaddr *)&usa.sa, sn);
 	} else {
@@ -160,8 +153,6 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 	if (err < 0) {
 		errno = os_geterror();
 		close(fd);
-		if (is_unix)
-			events_free(uds);
 		return -1;
 	}
 
@@ -170,8 +161,7 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 		listen(fd, backlog);
 
 	events_set_nonblocking(fd);
-	events_target(socket2fd(fd))->uds = uds;
-	events_target(socket2fd(fd))->udp = null;
+	set_unix(fd, is_unix);
 	return fd;
 }
 
@@ -193,8 +183,7 @@ fds_t async_accept(fds_t fd, char *server, int *port) {
 	}
 
 	memcpy(&events_get_sockaddr(cfd)->storage, &usa.storage, sizeof(usa.storage));
-	events_target(socket2fd(cfd))->uds = null;
-	events_target(socket2fd(cfd))->udp = null;
+	set_unix(cfd, is_unix);
 	if (!is_unix && server) {
 		async_sockaddr_str(server, 16, &usa);
 	} else if (is_unix && server) {
@@ -218,10 +207,7 @@ fds_t async_connect(char *hostname, int port, int protocol) {
 	int err, ip_family = 0, proto, n = 0;
 	u_saddr_t usa, *sa;
 	socklen_t sn;
-	uds_t uds = (protocol == -1)
-		? (uds_t)events_calloc(1, sizeof(struct af_unix_s))
-		: null;
-	bool is_unix = !is_empty(uds);
+	bool is_unix = (protocol == -1);
 	char host[ARRAY_SIZE] = {0};
 
 	if (!is_unix) {
@@ -240,8 +226,6 @@ fds_t async_connect(char *hostname, int port, int protocol) {
 	if ((fd = socket((is_unix ? AF_UNIX : usa.sa.sa_family),
 		proto, (protocol ? IPPROTO_IP : IPPROTO_UDP))) < 0) {
 		errno = os_geterror();
-		if (is_unix)
-			events_free(uds);
 		return -1;
 	}
 	events_set_nonblocking(fd);
@@ -254,12 +238,10 @@ fds_t async_connect(char *hostname, int port, int protocol) {
 
 	// start connecting
 	if (is_unix) {
-		uds->addr = events_get_sockaddr(fd);
-		strncpy(uds->addr->sun.sun_path, hostname, sizeof(uds->addr->sun.sun_path) - 1);
-		uds->addr->sun.sun_family = AF_UNIX;
-		uds->socket= fd;
-		uds->type = DATA_UNIX;
-		err = connect(fd, (struct sockaddr *)&uds->addr->sun, sizeof(uds->addr->sun));
+		sa = events_get_sockaddr(fd);
+		strncpy(sa->sun.sun_path, hostname, sizeof(sa->sun.sun_path) - 1);
+		sa->sun.sun_family = AF_UNIX;
+		err = connect(fd, (struct sockaddr *)&sa->sun, sizeof(sa->sun));
 		memset(&usa, 0, sizeof(usa));
 		sa = &usa;
 		sn = sizeof(sa->sun);
@@ -278,16 +260,13 @@ fds_t async_connect(char *hostname, int port, int protocol) {
 
 	if (err < 0 && (os_geterror() != EINPROGRESS && os_geterror() != EAGAIN)) {
 		close(fd);
-		if (is_unix)
-			events_free(uds);
 		return -1;
 	}
 
 	// wait for finish
 	async_wait(fd, 'w');
 	if (getpeername(fd, (is_unix ? (struct sockaddr *)&sa->sun : &sa->sa), &sn) >= 0) {
-		events_target(socket2fd(fd))->uds = uds;
-		events_target(socket2fd(fd))->udp = null;
+		set_unix(fd, is_unix);
 		return fd;
 	}
 
@@ -295,9 +274,6 @@ fds_t async_connect(char *hostname, int port, int protocol) {
 	sn = (int)sizeof(n);
 	getsockopt(fd, SOL_SOCKET, SO_ERROR, (char *)&n, &sn);
 	n = n == 0 ? os_geterror() : n;
-	if (is_unix)
-		events_free(uds);
-
 	close(fd);
 	errno = n;
 	return -1;
diff --git a/src/async_uds.c b/src/async_uds.c
index 19e0fb0..b137138 100644
--- a/src/async_uds.c
+++ b/src/async_uds.c
@@ -5,11 +5,7 @@ int uds_connect(char *addr) {
 	uint32_t ip = 0;
 	int port = 0;
 	char *host = str_parseip(addr, &ip, &port, true);
-	int fd = socket2fd(async_connect(host, port, -1));
-	if (fd > 0)
-		defer_free(events_target(fd)->uds);
-
-	return fd;
+	return socket2fd(async_connect(host, port, -1));
 }
 
 int uds_bind(char *addr, int backlog) {
@@ -17,18 +13,14 @@ int uds_bind(char *addr, int backlog) {
 	int port = 0;
 	char *host = str_parseip(addr, &ip, &port, true);
 	int fd = socket2fd(async_bind(host, port, backlog, -1));
-	if (fd > 0) {
+	if (fd > 0)
 		defer(unlink, host);
-		defer_free(events_target(fd)->uds);
-	}
+
 	return fd;
 }
 
 EVENTS_INLINE int uds_accept(int fd, char *server) {
-	int cfd = socket2fd(async_accept(fd2socket(fd), server, null));
-	if (cfd > 0)
-		events_target(cfd)->uds = events_target(fd)->uds;
-	return cfd;
+	return socket2fd(async_accept(fd2socket(fd), server, null));
 }
 
 /*
diff --git a/src/events_internal.h b/src/events_internal.h
index 29bebe9..ac926f7 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -227,6 +227,12 @@ make_atomic(results_data_t *, atomic_results_t)
 make_atomic(results_data_t, atomic_results_t)
 #endif
 
+struct af_unix_s {
+	data_types type;
+	int socket;
+	u_saddr_t *addr;
+};
+
 struct events_fd_s {
   /* use accessors! */
   /* TODO adjust the size to match that of a cache line */
@@ -245,7 +251,9 @@ struct events_fd_s {
 	void *cb_arg;
 	void *user_data;
 	events_t *loop;
+	/* null, or `unix_data` */
 	uds_t uds;
+	struct af_unix_s unix_data;
 	udp_t udp;
 	tls_s *tls;
 	tls_config_t *tls_config;
@@ -561,12 +569,6 @@ struct udp_packet_s {
 	char *message, ipaddr[48];
 };
 
-struct af_unix_s {
-	data_types type;
-	int socket;
-	u_saddr_t *addr;
-};
-
 void events_set_destroy(events_t *loop);
 int events_add_signal(int sig, sig_cb proc, void *data);
 void events_del_signal(int sig, int i);
-- 
2.43.0


From a9693d5fa9d27ca09582211aa5a7ef6c3577a645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 113/135] fix: the timers of a destroyed loop leaked

---
 src/events.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/events.c b/src/events.c
index 6e261ea..f3ecc33 100644
--- a/src/events.c
+++ b/src/events.c
@@ -862,6 +862,12 @@ int events_init_loop_internal(events_t *loop, int max_timeout) {
 }
 
 void events_deinit_loop_internal(events_t *loop) {
+	actor_t *t;
+	while ((t = loop->timers->head) != NULL) {
+		dequeue(loop->timers, t);
+		events_free(t);
+	}
+
 	events_free(loop->timeout._free_addr);
 }
 
-- 
2.43.0


From 350f02dd7143895b0482aa18a923c00668bf8fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:03 +0000
Subject: [PATCH 114/135] fix: exec_wait with a timeout ended early when
 signals arrived

---
 src/os_unix.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index fc3c147..7f46f4f 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -671,6 +671,7 @@ EVENTS_INLINE process_t exec(const char *command, const char *args, execinfo_t *
 
 int exec_wait(process_t ps, uint32_t timeout_ms, int *exit_code) {
 	siginfo_t s;
+	struct timespec pause;
 	int r, f = 0;
 
 	if (fdTable[(intptr_t)ps].process->detached)
@@ -688,7 +689,11 @@ int exec_wait(process_t ps, uint32_t timeout_ms, int *exit_code) {
 		if (r != 0 || s.si_pid != 0 || timeout_ms == 0)
 			break;
 
-		usleep(1000);
+		/* a signal must not end the wait early */
+		pause.tv_sec = 0;
+		pause.tv_nsec = 1000000;
+		while (nanosleep(&pause, &pause) != 0 && errno == EINTR);
+
 		timeout_ms--;
 	}
 
-- 
2.43.0


From 789e2909f6f5ec21130c039f6f9667afca3cc178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:26 +0000
Subject: [PATCH 115/135] fix: the port of a host name shorter than seven
 letters was not split off

---
 src/arrays.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arrays.c b/src/arrays.c
index d31a149..ba721f5 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1166,7 +1166,8 @@ char *str_parseip(char *name, uint32_t *ip, int *port, bool autofree) {
 		*port = atoi(trim_at(buf, i + 2));
 		buf[i + 1] = '\0';
 		return autofree ? str_dup(buf) : str_dup_ex(buf);
-	} else if ((i = str_pos(buf, ":")) > 6) {
+	} else if ((i = str_pos(buf, ":")) > 6
+		|| (i > 0 && is_empty(strchr(buf + i + 1, ':')))) {
 		*port = atoi(trim_at(buf, i + 1));
 		buf[i] = '\0';
 	}
-- 
2.43.0


From fb79a159723e0b0b35c63155946633d69b0536e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:26 +0000
Subject: [PATCH 116/135] fix: a timer armed twice, or armed and then cleared,
 by its function corrupted the list of timers

---
 src/events.c          | 15 +++++++++++++--
 src/events_internal.h |  3 +++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/events.c b/src/events.c
index f3ecc33..7184af4 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1008,6 +1008,7 @@ static actor_t *events_actor_timeout(events_t *loop, int ms, actor_cb timer, voi
 		actor_running->actor = timer;
 		actor_running->args = args;
 		actor_running->loop = loop;
+		actor_running->repeating = 1;
 		t = actor_running;
 		t->alarmtime = when;
 		if (t->prev)
@@ -1027,13 +1028,21 @@ static actor_t *events_actor_timeout(events_t *loop, int ms, actor_cb timer, voi
 }
 
 EVENTS_INLINE actor_t *events_repeat_actor(actor_t *actor, int ms) {
-	actor->repeating = 1;
+	timerlist_t *l = actor->loop->timers;
+	if (actor->repeating)
+		dequeue(l, actor);
+
 	actor->loop->active_timers--;
 	return events_actor_timeout(actor->loop, ms, actor->actor, actor->args, actor);
 }
 
 EVENTS_INLINE void events_clear_actor(actor_t *actor) {
-	actor->repeating = 0;
+	timerlist_t *l = actor->loop->timers;
+	/* its function armed it again before */
+	if (actor->running && actor->repeating) {
+		dequeue(l, actor);
+		actor->repeating = 0;
+	}
 }
 
 EVENTS_INLINE actor_t *events_actor(events_t *loop, int ms, actor_cb timer, void *args) {
@@ -1070,7 +1079,9 @@ static int events_execute(events_t *loop, int max_wait) {
 		dequeue(l, t);
 		/* it goes on only when armed again by its function */
 		t->repeating = 0;
+		t->running = 1;
 		t->actor(t, t->args);
+		t->running = 0;
 		if (!t->repeating) {
 			events_free(t);
 			loop->active_timers--;
diff --git a/src/events_internal.h b/src/events_internal.h
index ac926f7..e5ea167 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -306,7 +306,10 @@ struct sys_events_s {
 };
 
 struct actors_s {
+	/* armed, it is in the list of its loop */
 	int repeating;
+	/* in its function */
+	int running;
 	size_t alarmtime;
 	actor_cb actor;
 	void *args;
-- 
2.43.0


From 0547548bea50e8e33ab844105523d04ffec12c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:47 +0000
Subject: [PATCH 117/135] fix: a descriptor was reported for one registered
 before under its number and open elsewhere

---
 src/epoll.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/epoll.c b/src/epoll.c
index 1cdf6ed..aabd3c1 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -117,7 +117,8 @@ int events_update_internal(events_t *_loop, int fd, int event) {
 #if EVENTS_EPOLL_DEFER_DELETES
 
 	if ((event & EVENTS_DEL) != 0) {
-	  /* nothing to do */
+		/* a duplicate may outlive the descriptor, and would be reported with its number */
+		SET(EPOLL_CTL_DEL, 0);
 	} else if ((event & EVENTS_READWRITE) == 0) {
 		SET(EPOLL_CTL_DEL, 1);
 	} else {
-- 
2.43.0


From 92b57570f41edd77620110f434859a75b74bd79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:47 +0000
Subject: [PATCH 118/135] fix: a registration made by a callback got the events
 of the one before under its number

---
 src/epoll.c           | 17 +++++++++++------
 src/events.c          |  1 +
 src/events_internal.h |  2 ++
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/epoll.c b/src/epoll.c
index aabd3c1..6db5e3d 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -107,7 +107,7 @@ int events_update_internal(events_t *_loop, int fd, int event) {
 
 	ev.events = (((event & EVENTS_READ) != 0 ? EPOLLIN : 0)
 		| ((event & EVENTS_WRITE) != 0 ? EPOLLOUT : 0));
-	ev.data.fd = fd;
+	ev.data.u64 = (uint64_t)target->count << 32 | (uint32_t)fd;
 
 #define SET(op, check_error) do {		    \
     epoll_ret = epoll_ctl(loop->epfd, op, fd2socket(fd), &ev); \
@@ -160,7 +160,12 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 	}
 	for (i = 0; i < nevents; ++i) {
 		struct epoll_event *event = loop->events + i;
-		events_fd_t *target = events_target(event->data.fd);
+		int fd = (int)(uint32_t)event->data.u64;
+		events_fd_t *target = events_target(fd);
+		/* registered by an earlier callback, it was another one that is ready */
+		if (loop->loop.loop_id == target->loop_id && (uint32_t)(event->data.u64 >> 32) != target->count)
+			continue;
+
 		if (loop->loop.loop_id == target->loop_id
 			&& (target->events & EVENTS_READWRITE) != 0) {
 			/* an earlier callback may have changed what is asked for */
@@ -170,18 +175,18 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 			if (target->is_pathwatcher) {
 				char *buffer = events_malloc(Kb(8) + sizeof(inotify_t));
 				if (!is_empty(buffer)) {
-					if ((len = read(event->data.fd, buffer, Kb(8) + sizeof(inotify_t))) <= 0)
+					if ((len = read(fd, buffer, Kb(8) + sizeof(inotify_t))) <= 0)
 						events_free(buffer);
 					else
-						async_task(inotify_task, 5, casting(event->data.fd), buffer, casting(len), target->callback, target->cb_arg);
+						async_task(inotify_task, 5, casting(fd), buffer, casting(len), target->callback, target->cb_arg);
 				}
 			} else if (revents != 0) {
-				(*target->callback)(event->data.fd, revents, target->cb_arg);
+				(*target->callback)(fd, revents, target->cb_arg);
 			}
 		} else {
 #if EVENTS_EPOLL_DEFER_DELETES
 			event->events = 0;
-			epoll_ctl(loop->epfd, EPOLL_CTL_DEL, event->data.fd, event);
+			epoll_ctl(loop->epfd, EPOLL_CTL_DEL, fd, event);
 #endif
 		}
 	}
diff --git a/src/events.c b/src/events.c
index 7184af4..76d24ad 100644
--- a/src/events.c
+++ b/src/events.c
@@ -663,6 +663,7 @@ int events_add(events_t *loop, fds_t sfd, int event, int timeout_in_secs,
 	target->cb_arg = cb_arg;
 	target->loop = loop;
 	target->loop_id = loop->loop_id;
+	target->count++;
 	target->events = 0;
 	target->timeout_idx = EVENTS_TIMEOUT_IDX_UNUSED;
 	if (is_io) {
diff --git a/src/events_internal.h b/src/events_internal.h
index e5ea167..faa44bf 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -237,6 +237,8 @@ struct events_fd_s {
   /* use accessors! */
   /* TODO adjust the size to match that of a cache line */
 	events_id_t loop_id;
+	/* of registrations */
+	unsigned int count;
 	char events;
 	unsigned char timeout_idx; /* EVENTS_TIMEOUT_IDX_UNUSED if not used */
 	time_t timeout_at; /* set when `timeout_idx` is used */
-- 
2.43.0


From e05fd1fe0264e920d16750502efd33ff68fb830d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:08 +0000
Subject: [PATCH 119/135] fix: async_accept failed when another task accepted
 the connection it waited for

---
 src/async_io.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index dbc1cdf..5321d48 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -174,10 +174,14 @@ fds_t async_accept(fds_t fd, char *server, int *port) {
 	bool is_unix = socket_is_uds(socket2fd(fd));
 
 	memset(&usa, 0, sizeof(usa));
-	async_wait(fd, 'r');
 	len = is_unix ? sizeof(s_usa->sun)
 		: (s_usa->sa.sa_family == AF_INET6 ? sizeof(s_usa->sin6) : sizeof(s_usa->sin));
-	if ((cfd = accept(fd, (is_unix ? (struct sockaddr *)&usa.sun : (struct sockaddr *)&usa.sa), &len)) < 0) {
+	/* another task may have taken the connection */
+	do
+		async_wait(fd, 'r');
+	while ((cfd = accept(fd, (is_unix ? (struct sockaddr *)&usa.sun : (struct sockaddr *)&usa.sa), &len)) < 0
+		&& os_geterror() == EAGAIN);
+	if (cfd < 0) {
 		errno = os_geterror();
 		return -1;
 	}
-- 
2.43.0


From 38ffd232c0c28b658fc4eabc9c9ef8802db1e63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:08 +0000
Subject: [PATCH 120/135] fix: connecting to a busy Unix socket failed, as not
 connected

---
 src/async_io.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/async_io.c b/src/async_io.c
index 5321d48..763bfc6 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -245,7 +245,9 @@ fds_t async_connect(char *hostname, int port, int protocol) {
 		sa = events_get_sockaddr(fd);
 		strncpy(sa->sun.sun_path, hostname, sizeof(sa->sun.sun_path) - 1);
 		sa->sun.sun_family = AF_UNIX;
-		err = connect(fd, (struct sockaddr *)&sa->sun, sizeof(sa->sun));
+		/* as long as too many wait to be accepted, none is in progress */
+		while ((err = connect(fd, (struct sockaddr *)&sa->sun, sizeof(sa->sun))) < 0 && os_geterror() == EAGAIN)
+			delay(1);
 		memset(&usa, 0, sizeof(usa));
 		sa = &usa;
 		sn = sizeof(sa->sun);
-- 
2.43.0


From 7960a0f0f7dbfa75397c321f0cd9b848491d92c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:55 +0000
Subject: [PATCH 121/135] fix: a stack overflow was not noticed by delay and
 async_wait

---
 src/events.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/events.c b/src/events.c
index 76d24ad..14b739e 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1529,7 +1529,7 @@ EVENTS_INLINE uint32_t delay(uint32_t ms) {
 	size_t now = events_nsec();
 
 	add_timeout(__thrd()->running, __thrd()->running, ms, now);
-	task_switch(__thrd()->current_handle);
+	suspend();
 
 	return (uint32_t)((events_nsec() - now) / 1000000);
 }
@@ -1593,7 +1593,7 @@ void async_wait(int fd, int rw) {
 	}
 
 	wait_add(fd, &wait);
-	task_switch(__thrd()->current_handle);
+	suspend();
 }
 
 /* The `try` and `guard` sections a task is in are its own, a new one starts in those of the scheduler. */
-- 
2.43.0


From 9c8203cc5c5d4fb8acfc21862123d15746f4934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:55 +0000
Subject: [PATCH 122/135] fix: trying freed what another allocator gave

---
 src/except.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/except.c b/src/except.c
index 55f963f..ab73766 100644
--- a/src/except.c
+++ b/src/except.c
@@ -1267,7 +1267,7 @@ EVENTS_INLINE int exit_scope(void) {
 /* General error handling for any condition, passing callbacks.
 Guaranteed to return `value` as ~union~, similar to https://ziglang.org/documentation/master/#try */
 values_t *trying(void *with, data_func_t tryFunc, data_func_t catchFunc, launch_func_t finalFunc) {
-	values_t *value = fence(calloc(1, sizeof(values_t)), events_free);
+	values_t *value = fence(events_calloc(1, sizeof(values_t)), events_free);
 	if (!is_empty(value)) {
 		try {
 			value->object = tryFunc(with);
-- 
2.43.0


From 08b2e4f87aa866d253daca75bd447b1e0220e0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:04 +0000
Subject: [PATCH 123/135] fix: a stack overflow was not noticed while the main
 task waited with one task asleep

---
 src/events.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/events.c b/src/events.c
index 14b739e..4e1439e 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1306,7 +1306,14 @@ void task_func(void) {
 }
 
 static EVENTS_INLINE void task_sleep_switch(void) {
+	/* the sleep task runs as the running one here, everything after it does not */
+#ifndef _WIN32
+	__thrd()->active_timer++;
+#endif
 	task_switch(__thrd()->sleep_handle);
+#ifndef _WIN32
+	__thrd()->active_timer--;
+#endif
 	task_scheduler_switch();
 }
 
@@ -2587,13 +2594,7 @@ EVENTS_INLINE void resume(tasks_t *co) {
 		else
 			task_switch(co);
 		if (active_task() == atexit_ctr_c_task && __thrd()->sleep_count == 1) {
-#ifndef _WIN32
-			__thrd()->active_timer++;
-#endif
 			task_sleep_switch();
-#ifndef _WIN32
-			__thrd()->active_timer--;
-#endif
 		}
 	}
 }
@@ -2605,13 +2606,7 @@ EVENTS_INLINE void yield(void) {
 	enqueue(l, t);
 	suspend();
 	if (active_task() == atexit_ctr_c_task && __thrd()->sleep_count == 1) {
-#ifndef _WIN32
-		__thrd()->active_timer++;
-#endif
 		task_sleep_switch();
-#ifndef _WIN32
-		__thrd()->active_timer--;
-#endif
 	}
 }
 
-- 
2.43.0


From c9788664c9ea166f0f09f9c374c2efeb494a0ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:30 +0000
Subject: [PATCH 124/135] fix: host lookups of several tasks at once shared one
 result

---
 src/async_io.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/async_io.c b/src/async_io.c
index 763bfc6..52ca58b 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -316,6 +316,19 @@ int async_write(int fd, void *buf, int n) {
 	return tot;
 }
 
+#ifdef __linux__
+/* what `gethostbyname()` returns is shared by all threads */
+#define HOSTENT_SIZE (sizeof(struct hostent) + 8192)
+static EVENTS_INLINE void *os_gethostbyname(param_t name) {
+	struct hostent *he = NULL, *buffer = (struct hostent *)name[1].object;
+	int err;
+	if (gethostbyname_r(name->char_ptr, buffer, (char *)(buffer + 1),
+		HOSTENT_SIZE - sizeof(struct hostent), &he, &err) == 0)
+		return (void *)he;
+
+	return NULL;
+}
+#else
 static EVENTS_INLINE void *os_gethostbyname(param_t name) {
 	struct hostent *he = {0};
 	if ((he = gethostbyname(name->char_ptr)) != NULL)
@@ -323,6 +336,7 @@ static EVENTS_INLINE void *os_gethostbyname(param_t name) {
 
 	return NULL;
 }
+#endif
 
 int async_inet_pton(int af, const char *src, void *dst, size_t dstlen, int resolve_src) {
 	struct addrinfo hints, *res, *ressave;
@@ -481,7 +495,17 @@ EVENTS_INLINE char *gethostbyname_ip(struct hostent *host) {
 
 EVENTS_INLINE struct hostent *async_gethostbyname(char *hostname) {
 	future *thrd = futures_pool();
+#ifdef __linux__
+	void *buffer = events_malloc(HOSTENT_SIZE);
+	if (is_empty(buffer))
+		return NULL;
+
+	/* until the calling task ends */
+	defer(events_free, buffer);
+	return (struct hostent *)queue_get(queue_work(thrd, os_gethostbyname, 2, hostname, buffer)).object;
+#else
 	return (struct hostent *)queue_get(queue_work(thrd, os_gethostbyname, 2, hostname, thrd->buffer)).object;
+#endif
 }
 
 static EVENTS_INLINE void *os_getnameinfo(param_t args) {
-- 
2.43.0


From 4615112600f07933e32df3c70932c207bd49d57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:23 +0000
Subject: [PATCH 125/135] fix: socket timeouts of more than 35 minutes were
 wrong or refused

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 4e1439e..018b380 100644
--- a/src/events.c
+++ b/src/events.c
@@ -413,7 +413,7 @@ int events_tcp_timeout(fds_t fd, int milliseconds) {
 
 	memset(&tv, 0, sizeof(tv));
 	tv.tv_sec = milliseconds / 1000;
-	tv.tv_usec = (milliseconds * 1000) % 1000000;
+	tv.tv_usec = (milliseconds % 1000) * 1000;
 #endif
 	r1 = setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, (const char *)&tv, sizeof(tv));
 	r2 = setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, (const char *)&tv, sizeof(tv));
-- 
2.43.0


From 9005fae034f46c4d7e4cc402c5ad885a57d50441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:23 +0000
Subject: [PATCH 126/135] fix: the entry of a named pipe took over the
 descriptor of its number

---
 src/os_unix.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 7f46f4f..9a120c6 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -166,8 +166,15 @@ EVENTS_INLINE int os_mkfifo(const char *name, mode_t mode) {
 	events_init(256);
 	int fake;
 	snprintf(sys_event.pNamed, sizeof(sys_event.pNamed), "%s%s", SYS_PIPE, name);
-	if ((fake = events_new_fd(FD_PIPE_ASYNC, hIoCompPort, - 1)) != -1)
-		fdTable[fake].path = str_dup_ex(sys_event.pNamed);
+	/* the entry only keeps the path, it stands for no descriptor, and is kept for the next of that name */
+	if (events_pseudo_fd(name) == -1) {
+		for (fake = ioTableSize - 1; fake > 0 && fdTable[fake].type != FD_UNUSED; fake--);
+		if (fake > 0) {
+			fdTable[fake].type = FD_PIPE_ASYNC;
+			fdTable[fake].fd = TASK_ERRED;
+			fdTable[fake].path = str_dup_ex(sys_event.pNamed);
+		}
+	}
 
 	return mkfifo(sys_event.pNamed, mode);
 }
@@ -177,7 +184,6 @@ EVENTS_INLINE int os_open(const char *path, int flags, mode_t mode) {
 	if (fake != -1) {
 		if (fdTable[fake].type == FD_PIPE_ASYNC) {
 			sys_event.pHandle = open(fdTable[fake].path, flags, mode);
-			fdTable[fake].fd = sys_event.pHandle;
 			return sys_event.pHandle;
 		}
 	}
-- 
2.43.0


From e8e7dfc6e9aa013856f028ac31209c896f2f4934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:26 +0000
Subject: [PATCH 127/135] fix: resume of a task suspended in its first turn ran
 it under the name of the resuming one

---
 src/events.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/events.c b/src/events.c
index 018b380..d6a3224 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2582,17 +2582,16 @@ EVENTS_INLINE void suspend(void) {
 
 EVENTS_INLINE void resume(tasks_t *co) {
 	if (co->magic_number == TASK_MAGIC_NUMBER) {
-		co->ready = true;
 		tasks_t *t = __thrd()->running;
 		tasklist_t *l = __thrd()->run_queue;
-		t->ready = true;
-		if (co->cycles > 1)
+		if (co != t && !co->ready && !co->halt) {
+			co->ready = true;
 			enqueue(l, co);
+		}
+
+		t->ready = true;
 		enqueue(l, t);
-		if (co->cycles > 1)
-			suspend();
-		else
-			task_switch(co);
+		suspend();
 		if (active_task() == atexit_ctr_c_task && __thrd()->sleep_count == 1) {
 			task_sleep_switch();
 		}
-- 
2.43.0


From eb49ef880a980e8f956131f49fe1c2eab8056930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:21 +0000
Subject: [PATCH 128/135] fix: the handler of signals changed the errno of the
 code it interrupted

---
 src/os_unix.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 9a120c6..161cfc0 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -723,7 +723,8 @@ int exec_wait(process_t ps, uint32_t timeout_ms, int *exit_code) {
 }
 
 static void events_sig_handler(int sig) {
-	int i;
+	/* what was interrupted may be about to look at it */
+	int i, saved_errno = errno;
 
 	/* another thread may be running a handler, this one has all signals blocked while it does */
 	while (atomic_flag_test_and_set(&signal_running)) {
@@ -745,6 +746,7 @@ static void events_sig_handler(int sig) {
 	}
 	memset(&signal_thread, 0, sizeof(signal_thread));
 	atomic_flag_clear(&signal_running);
+	errno = saved_errno;
 }
 
 void events_del_signal(int sig, int i) {
-- 
2.43.0


From 1eed0579cce5fc199d7783704d9b5775d8761ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:46 +0000
Subject: [PATCH 129/135] fix: events_create_pool for more loops than cores
 looked behind the list of threads and claimed success

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index d6a3224..d84b3c5 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2836,7 +2836,7 @@ int events_create_pool(events_t *loop) {
 				}
 			}
 		}
-	} else if (is_ptr_usable(local[index])) {
+	} else if (index <= sys_event.cpu_count && is_ptr_usable(local[index])) {
 		errno = save_err;
 		return 0;
 	}
-- 
2.43.0


From 98f49c895feee0ca7ac6499cc5aae17a97080e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:48 +0000
Subject: [PATCH 130/135] fix: a job that returned an array of its own crashed
 its thread

The scope of a thread of the pool is created only on demand, so
scope_local() is NULL there unless the job used it.
---
 src/events.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index d84b3c5..2a3961c 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2870,7 +2870,8 @@ static int __future_wrapper(void *arg) {
 			/* once set, the promise is no longer ours */
 			worker->args = NULL;
 			promise_set(worker, res->object);
-			if (res->object != casting(args) && is_data(res->object) && is_empty(scope_local()->local))
+			if (res->object != casting(args) && is_data(res->object)
+				&& (is_empty(scope_local()) || is_empty(scope_local()->local)))
 				$delete(res->object);
 
 			$delete(args);
-- 
2.43.0


From 9928870800d53d06a6eb55e2a459f52419bd2bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:49 +0000
Subject: [PATCH 131/135] fix: the exit of a process unwound the scope of a
 thread that had ended

The first scope made is remembered for the exit of the process; when it
was the one of a future's thread and the main thread had none, as in a
program that only calls thrd_async and thrd_get, the process ended in a
segmentation fault.
---
 include/except.h | 1 +
 src/events.c     | 2 ++
 src/except.c     | 6 ++++++
 src/future.c     | 1 +
 4 files changed, 10 insertions(+)

diff --git a/include/except.h b/include/except.h
index 3868578..f7b14ab 100644
--- a/include/except.h
+++ b/include/except.h
@@ -398,6 +398,7 @@ C_API ex_memory_t *get_scope(void);
 C_API ex_memory_t *scope_init(void);
 C_API void *scope_arena(void);
 C_API void scope_unwind(ex_memory_t *scope);
+C_API void scope_forget(void);
 C_API int exit_scope(void);
 
 /* Returns an ~protected~ memory pointer from ~current~ `scoped` context, aka `RAII`.
diff --git a/src/events.c b/src/events.c
index 2a3961c..6934f40 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2779,6 +2779,7 @@ static int __tasks_pool_wrapper(void *arg) {
 	}
 
 	events_free(work);
+	scope_forget();
 #if !defined(NO_RPMALLOC)
 	rpmalloc_thread_finalize(1);
 #endif
@@ -2893,6 +2894,7 @@ static int __future_wrapper(void *arg) {
 	if (!is_shared)
 		events_destroy(loop);
 
+	scope_forget();
 #if !defined(NO_RPMALLOC)
 	rpmalloc_thread_finalize(1);
 #endif
diff --git a/src/except.c b/src/except.c
index ab73766..35de616 100644
--- a/src/except.c
+++ b/src/except.c
@@ -1094,6 +1094,12 @@ void scope_unwind(ex_memory_t *scope) {
 	}
 }
 
+/* The scope is of the thread that ends, the exit of the process must not find it. */
+void scope_forget(void) {
+	if (!is_empty(atexit_ctr_c_unwind) && atexit_ctr_c_unwind == scope_local())
+		atexit_ctr_c_unwind = null;
+}
+
 int scope_deferred(ex_memory_t *scope, func_t func, void *data) {
 	defer_t *deferred = (defer_t *)events_malloc(sizeof(defer_t));
 	if (deferred) {
diff --git a/src/future.c b/src/future.c
index e3c653f..121fdf7 100644
--- a/src/future.c
+++ b/src/future.c
@@ -126,6 +126,7 @@ static int _thrd_wrapper(void *arg) {
 	/* also when a deferred function recovered the exception */
 	atomic_flag_test_and_set(&f->promise->done);
 	scope_unwind(scope_local());
+	scope_forget();
 #ifdef RP_MALLOC_H
 	rpmalloc_thread_finalize(1);
 #endif
-- 
2.43.0


From bf1331e9922640e68b99bbc5350281679ddd15fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:00 +0000
Subject: [PATCH 132/135] fix: exit() in a thread of tasks pulled everything
 from under the main one

The handlers of atexit freed the results of all tasks and the memory of
the allocator while the main thread was still using them: it crashed,
and the process ended with status 1 instead of the one given.
---
 src/events.c   |  8 +++++++-
 src/rpmalloc.c | 10 +++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/events.c b/src/events.c
index 6934f40..9a1d50a 100644
--- a/src/events.c
+++ b/src/events.c
@@ -220,6 +220,12 @@ int events_start(int max_fd, main_cb startup, void *args) {
 	return r;
 }
 
+/* When another thread ends the process, the main one is still at work on all this. */
+static void events_atexit(void) {
+	if (__thrd()->is_main)
+		events_deinit();
+}
+
 int events_init(int max_fd) {
 	atomic_thread_fence(memory_order_seq_cst);
 	if (events_startup_set)
@@ -266,7 +272,7 @@ int events_init(int max_fd) {
 	}
 
 	atomic_init(&sys_event.fds, fds);
-	atexit(events_deinit);
+	atexit(events_atexit);
 	sys_event.tasks_cpu_idx = NULL;
 	sys_event.future_cpu_idx = NULL;
 	sys_event.gc = NULL;
diff --git a/src/rpmalloc.c b/src/rpmalloc.c
index ca12460..1dd05a1 100644
--- a/src/rpmalloc.c
+++ b/src/rpmalloc.c
@@ -247,6 +247,7 @@ static tls_storage_t _memory_thread_heap = 0;
 //! Initialized flag
 static int _rpmalloc_initialized = 0;
 static int rpmalloc_atexit_set = 0;
+static uintptr_t rpmalloc_atexit_thread = 0;
 
 static int _rpmalloc_shuting_down = 0;
 
@@ -3135,6 +3136,12 @@ rpmalloc_global_statistics(rpmalloc_global_statistics_t * stats) {
 #endif
 }
 
+/* When another thread ends the process, the first one is still using its memory. */
+static void rpmalloc_atexit(void) {
+	if (get_thread_id() == rpmalloc_atexit_thread)
+		rpmalloc_shutdown();
+}
+
 void rpmalloc_init(void) {
 	if (!_rpmalloc_initialized && !_rpmalloc_shuting_down) {
 		rpmalloc_initialize();
@@ -3144,7 +3151,8 @@ void rpmalloc_init(void) {
 
 	if (!rpmalloc_atexit_set) {
 		rpmalloc_atexit_set = true;
-		atexit(rpmalloc_shutdown);
+		rpmalloc_atexit_thread = get_thread_id();
+		atexit(rpmalloc_atexit);
 	}
 }
 
-- 
2.43.0


From d50edaa8af26b3ebbdca9057b8848688c96176dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:58 +0000
Subject: [PATCH 133/135] fix: exit() took the list of threads from those still
 at work

They crash when they give a task to another thread before they notice
the shutdown, and the process ends with another status.
---
 src/deque.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/deque.c b/src/deque.c
index c2b37e6..32e61ea 100644
--- a/src/deque.c
+++ b/src/deque.c
@@ -151,7 +151,6 @@ void deque_destroy(void) {
 	events_deque_t **queue = sys_event.local;
 	if (queue != NULL) {
 		size_t i, count = sys_event.cpu_count;
-		sys_event.local = NULL;
 		if (deque_thread_set) {
 			for (i = 0; i <= count; i++) {
 				if (is_ptr_usable(queue[i])) {
@@ -161,15 +160,21 @@ void deque_destroy(void) {
 			}
 
 			os_sleep(count);
+			/* each thread may still give tasks to any other */
+			for (i = 1; i <= count; i++) {
+				if (is_ptr_usable(queue[i]) && data_type(queue[i]) == DATA_DEQUE)
+					os_join(queue[i]->thread, -1, NULL);
+			}
+
 			for (i = 1; i <= count; i++) {
 				if (is_ptr_usable(queue[i]) && data_type(queue[i]) == DATA_DEQUE) {
 					queue[i]->type = DATA_INVALID;
-					os_join(queue[i]->thread, -1, NULL);
 					deque_free(queue[i]);
 				}
 			}
 		}
 
+		sys_event.local = NULL;
 		deque_free(queue[0]);
 		events_free(queue);
 	}
-- 
2.43.0


From b268a18c517178f45039fe6ebfe2a0a1a26e379b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:27 +0000
Subject: [PATCH 134/135] fix: a thread went on before the handlers of all
 signals were in place

exception_signal_set was set after the first of them already: another
thread that entered a try meanwhile did not wait for the rest, and a
signal in it ended the process.
---
 src/except.c | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/except.c b/src/except.c
index 35de616..21aed9c 100644
--- a/src/except.c
+++ b/src/except.c
@@ -681,7 +681,7 @@ void ex_signal_reset(int sig) {
     exception_signal_set = false;
 }
 
-void ex_signal(int sig, const char *ex) {
+static void ex_signal_set(int sig, const char *ex) {
     int i;
 
     for (i = 0; i < max_ex_sig; i++) {
@@ -713,8 +713,13 @@ void ex_signal(int sig, const char *ex) {
 		cerr("Cannot install handler for signal no %d (%s)"CLR_LN, sig, ex);
     else
         ex_sig[i].ex = ex, ex_sig[i].sig = sig;
+#endif
+}
 
-    exception_signal_set = true;
+void ex_signal(int sig, const char *ex) {
+	ex_signal_set(sig, ex);
+#if !defined(_WIN32) && !defined(_WIN64)
+	exception_signal_set = true;
 #endif
 }
 
@@ -751,61 +756,66 @@ void ex_signal_setup(void) {
     ex_signal_seh(CONTROL_C_EXIT, EX_NAME(sig_int));
 #endif
 #ifdef SIGSEGV
-    ex_signal(SIGSEGV, EX_NAME(sig_segv));
+    ex_signal_set(SIGSEGV, EX_NAME(sig_segv));
 #endif
 
 #ifdef SIGABRT
-    ex_signal(SIGABRT, EX_NAME(sig_abrt));
+    ex_signal_set(SIGABRT, EX_NAME(sig_abrt));
 #endif
 
 #ifdef SIGFPE
-    ex_signal(SIGFPE, EX_NAME(sig_fpe));
+    ex_signal_set(SIGFPE, EX_NAME(sig_fpe));
 #endif
 
 #ifdef SIGILL
-    ex_signal(SIGILL, EX_NAME(sig_ill));
+    ex_signal_set(SIGILL, EX_NAME(sig_ill));
 #endif
 
 #ifdef SIGBREAK
-    ex_signal(SIGBREAK, EX_NAME(sig_break));
+    ex_signal_set(SIGBREAK, EX_NAME(sig_break));
 #endif
 
 #ifdef SIGINT
-    ex_signal(SIGINT, EX_NAME(sig_int));
+    ex_signal_set(SIGINT, EX_NAME(sig_int));
 #endif
 
 #ifdef SIGTERM
-    ex_signal(SIGTERM, EX_NAME(sig_term));
+    ex_signal_set(SIGTERM, EX_NAME(sig_term));
 #endif
 
 #if !defined(_WIN32)
 #ifdef SIGQUIT
-    ex_signal(SIGQUIT, EX_NAME(sig_quit));
+    ex_signal_set(SIGQUIT, EX_NAME(sig_quit));
 #endif
 
 #ifdef SIGHUP
-    ex_signal(SIGHUP, EX_NAME(sig_hup));
+    ex_signal_set(SIGHUP, EX_NAME(sig_hup));
 #endif
 
 #ifdef SIGWINCH
-    ex_signal(SIGWINCH, EX_NAME(sig_winch));
+    ex_signal_set(SIGWINCH, EX_NAME(sig_winch));
 #endif
 #ifdef SIGTRAP
-    ex_signal(SIGTRAP, EX_NAME(sig_trap));
+    ex_signal_set(SIGTRAP, EX_NAME(sig_trap));
 #endif
 #ifdef SIGPIPE
-	ex_signal(SIGPIPE, EX_NAME(sig_pipe));
+	ex_signal_set(SIGPIPE, EX_NAME(sig_pipe));
 #endif
 #endif
 
 #ifdef SIGALRM
-    ex_signal(SIGALRM, EX_NAME(sig_alrm));
+    ex_signal_set(SIGALRM, EX_NAME(sig_alrm));
 #endif
 
 #ifdef SIGBUS
-    ex_signal(SIGBUS, EX_NAME(sig_bus));
+    ex_signal_set(SIGBUS, EX_NAME(sig_bus));
 #elif SIG_BUS
-    ex_signal(SIG_BUS, EX_NAME(sig_bus));
+    ex_signal_set(SIG_BUS, EX_NAME(sig_bus));
+#endif
+
+#if !defined(_WIN32) && !defined(_WIN64)
+	/* not before, another thread would go on with half of them */
+	exception_signal_set = true;
 #endif
 }
 
-- 
2.43.0


From bbdc64389600ff2958ffdc4df7c42a0b3638b21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:37 +0000
Subject: [PATCH 135/135] fix: str_itoa crashed in a thread that had no scope
 yet

It took the scope of the thread as it was, in a job, a future or a task
of another thread there may be none.
---
 src/arrays.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index ba721f5..c7fe615 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1595,9 +1595,9 @@ static char *___str_itoa(int value, char *result, int base) {
 
 char *str_itoa(int64_t x) {
 #if defined(__s390__) || defined(__s390x__)
-	return ___str_itoa((int)x, scope_local()->scrape, 10);
+	return ___str_itoa((int)x, get_scope()->scrape, 10);
 #else
-	char *buf = scope_local()->scrape;
+	char *buf = get_scope()->scrape;
 	// Handle negatives
 	bool neg = x < 0;
 	*buf = '-'; // Always write
-- 
2.43.0

