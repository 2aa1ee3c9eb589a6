From 75bb21dc46fe0deb77181549706ca69a138654ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:49 +0000
Subject: [PATCH 01/50] fix: map.c accepted an index one past the end, and
 map_delete returned (void *)-1 for bad indices

kqueue_free_by_id() would have freed (void *)-1.
---
 src/common/map.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/common/map.c b/src/common/map.c
index 991cda5..05c38ef 100644
--- a/src/common/map.c
+++ b/src/common/map.c
@@ -58,7 +58,7 @@ map_new(size_t len)
 int
 map_insert(struct map *m, int idx, void *ptr)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || idx >= (int)m->len))
            return (-1);
 
     if (atomic_ptr_cas(&(m->data[idx]), NULL, ptr)) {
@@ -74,7 +74,7 @@ map_insert(struct map *m, int idx, void *ptr)
 int
 map_remove(struct map *m, int idx, void *ptr)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || idx >= (int)m->len))
            return (-1);
 
     if (atomic_ptr_cas(&(m->data[idx]), ptr, NULL)) {
@@ -89,7 +89,7 @@ map_remove(struct map *m, int idx, void *ptr)
 int
 map_replace(struct map *m, int idx, void *oldp, void *newp)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || idx >= (int)m->len))
            return (-1);
 
     if (atomic_ptr_cas(&(m->data[idx]), oldp, newp)) {
@@ -105,7 +105,7 @@ map_replace(struct map *m, int idx, void *oldp, void *newp)
 void *
 map_lookup(struct map *m, int idx)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || idx >= (int)m->len))
         return (NULL);
 
     return (void *)atomic_ptr_load(&m->data[idx]);
@@ -114,8 +114,8 @@ map_lookup(struct map *m, int idx)
 void *
 map_delete(struct map *m, int idx)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
-           return ((void *)-1);
+    if (unlikely(idx < 0 || idx >= (int)m->len))
+           return (NULL);
 
     return (void *)atomic_ptr_swap(&(m->data[idx]), NULL);
 }
-- 
2.43.0


From 89cdbd97b2160722263a2a1fc6979894dedbacd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:49 +0000
Subject: [PATCH 02/50] fix: kqueue() left cancellation disabled when out of
 memory

---
 src/common/kqueue.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index c532258..9497627 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -364,8 +364,12 @@ kqueue(void)
     pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &prev_cancel_state);
 #endif
     kq = calloc(1, sizeof(*kq));
-    if (kq == NULL)
+    if (kq == NULL) {
+#ifndef _WIN32
+        pthread_setcancelstate(prev_cancel_state, NULL);
+#endif
         return (-1);
+    }
 
     tracing_mutex_init(&kq->kq_mtx, NULL);
 
-- 
2.43.0


From 42adddf0d9446e70d09cc0d295726a45e2e483d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:28 +0000
Subject: [PATCH 03/50] fix: kqueue() failing late unlocked the global mutex
 twice and left filters and use counts behind

---
 src/common/filter.c  |  2 ++
 src/linux/platform.c | 51 +++++++++++++++++++++++++-------------------
 2 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/src/common/filter.c b/src/common/filter.c
index 7e26ab6..a27281d 100644
--- a/src/common/filter.c
+++ b/src/common/filter.c
@@ -149,7 +149,9 @@ filter_register_all(struct kqueue *kq)
     rv += filter_register(kq, &evfilt_user);
     rv += filter_register(kq, &evfilt_libkqueue);
     if (rv != 0) {
+        kqueue_lock(kq);
         filter_unregister_all(kq);
+        kqueue_unlock(kq);
         return (-1);
     } else {
         dbg_puts("complete");
diff --git a/src/linux/platform.c b/src/linux/platform.c
index ac69799..5fd3a76 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -479,22 +479,8 @@ linux_kqueue_init(struct kqueue *kq)
         return (-1);
     }
 
-    if (filter_register_all(kq) < 0) {
-    error:
-        if (close(kq->epollfd) < 0)
-            dbg_perror("close(2)");
-        kq->epollfd = -1;
-
-        if (close(kq->pipefd[0]) < 0)
-            dbg_perror("close(2)");
-        kq->pipefd[0] = -1;
-
-        if (close(kq->pipefd[1]) < 0)
-            dbg_perror("close(2)");
-        kq->pipefd[1] = -1;
-
-        return (-1);
-    }
+    if (filter_register_all(kq) < 0)
+        goto error;
 
     /*
      * O_NONBLOCK - Ensure pipe ends are non-blocking so that
@@ -506,7 +492,7 @@ linux_kqueue_init(struct kqueue *kq)
     if ((fcntl(kq->pipefd[0], F_SETFL, O_NONBLOCK | O_ASYNC ) < 0) ||
         (fcntl(kq->pipefd[1], F_SETFL, O_NONBLOCK) < 0)) {
         dbg_perror("fcntl(2)");
-        goto error;
+        goto error_filters;
     }
 
     kq->kq_id = kq->pipefd[1];
@@ -525,13 +511,13 @@ linux_kqueue_init(struct kqueue *kq)
     if (fcntl(kq->pipefd[0], F_SETSIG, MONITORING_THREAD_SIGNAL) < 0) {
         dbg_printf("fd=%i - failed setting F_SETSIG sig=%u: %s",
                    kq->pipefd[0], MONITORING_THREAD_SIGNAL, strerror(errno));
-        goto error;
+        goto error_filters;
     }
 
     /* Start monitoring thread during first initialization */
     if (monitoring_tid == 0) {
         if (linux_kqueue_start_thread() < 0)
-            goto error;
+            goto error_filters;
     }
 
     /* Update pipe FD map */
@@ -552,13 +538,34 @@ linux_kqueue_init(struct kqueue *kq)
     sig_owner.type = F_OWNER_TID;
     sig_owner.pid = monitoring_tid;
     if (fcntl(kq->pipefd[0], F_SETOWN_EX, &sig_owner) < 0) {
-        dbg_printf("fd=%i - failed setting F_SETOWN to tid=%u: %s", monitoring_tid, kq->kq_id, strerror(errno));
-        tracing_mutex_unlock(&kq_mtx);
-        goto error;
+        dbg_printf("fd=%i - failed setting F_SETOWN to tid=%u: %s", kq->pipefd[0], monitoring_tid, strerror(errno));
+        fd_map[kq->pipefd[0]] = -1;
+        fd_use_cnt[kq->kq_id]--;
+        goto error_filters;
     }
     dbg_printf("kq=%p - monitoring fd=%i for closure", kq, kq->pipefd[0]);
 
     return (0);
+
+error_filters:
+    kqueue_lock(kq);
+    filter_unregister_all(kq);
+    kqueue_unlock(kq);
+
+error:
+    if (close(kq->epollfd) < 0)
+        dbg_perror("close(2)");
+    kq->epollfd = -1;
+
+    if (close(kq->pipefd[0]) < 0)
+        dbg_perror("close(2)");
+    kq->pipefd[0] = -1;
+
+    if (close(kq->pipefd[1]) < 0)
+        dbg_perror("close(2)");
+    kq->pipefd[1] = -1;
+
+    return (-1);
 }
 
 /*
-- 
2.43.0


From 0b63031cefe0383fa08f2ed32214f017e1b09716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:28 +0000
Subject: [PATCH 04/50] fix: kqueue() wrote past its descriptor tables when the
 descriptor limit was raised after initialisation

---
 src/linux/platform.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 5fd3a76..7fb69a8 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -520,6 +520,15 @@ linux_kqueue_init(struct kqueue *kq)
             goto error_filters;
     }
 
+    /*
+     * The per-descriptor tables were sized when the thread was
+     * started, the descriptor limit may have been raised since.
+     */
+    if ((kq->pipefd[0] >= nb_max_fd) || (kq->pipefd[1] >= nb_max_fd)) {
+        errno = EMFILE;
+        goto error_filters;
+    }
+
     /* Update pipe FD map */
     fd_map[kq->pipefd[0]] = kq->kq_id;
 
-- 
2.43.0


From e5d32a7a9741e9d5ae20b88b734a51b42a33b177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:50 +0000
Subject: [PATCH 05/50] fix: kqueue() hung when the monitoring thread could not
 allocate its tables

The starter is now woken in every case, and checks a predicate so that
a spurious wakeup is not taken for the thread being ready.
---
 src/linux/platform.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 7fb69a8..8be3494 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -40,6 +40,7 @@ static pid_t monitoring_tid; /* Monitoring thread */
 
 static pthread_mutex_t monitoring_thread_mtx = PTHREAD_MUTEX_INITIALIZER;
 static pthread_cond_t monitoring_thread_cond = PTHREAD_COND_INITIALIZER;
+static bool monitoring_thread_initialised; /* protected by monitoring_thread_mtx */
 
 enum thread_exit_state {
     THREAD_EXIT_STATE_SELF_CANCEL = 0,
@@ -261,6 +262,12 @@ monitoring_thread_loop(UNUSED void *arg)
     fd_map = calloc(nb_max_fd, sizeof(int));
     if (fd_map == NULL) {
     error:
+        /* Resume kqueue init, with monitoring_tid telling it we failed */
+        pthread_mutex_lock(&monitoring_thread_mtx);
+        monitoring_tid = 0;
+        monitoring_thread_initialised = true;
+        pthread_cond_signal(&monitoring_thread_cond);
+        pthread_mutex_unlock(&monitoring_thread_mtx);
         return NULL;
     }
     for (i = 0; i < nb_max_fd; i++)
@@ -269,6 +276,7 @@ monitoring_thread_loop(UNUSED void *arg)
     fd_use_cnt = calloc(nb_max_fd, sizeof(unsigned int));
     if (fd_use_cnt == NULL){
         free(fd_map);
+        fd_map = NULL;
         goto error;
     }
 
@@ -276,6 +284,7 @@ monitoring_thread_loop(UNUSED void *arg)
      * Now that thread is initialized, let kqueue init resume
      */
     pthread_mutex_lock(&monitoring_thread_mtx);    /* Must try to lock to ensure parent is waiting on signal */
+    monitoring_thread_initialised = true;
     pthread_cond_signal(&monitoring_thread_cond);
     pthread_mutex_unlock(&monitoring_thread_mtx);
 
@@ -336,6 +345,7 @@ static int
 linux_kqueue_start_thread(void)
 {
     pthread_mutex_lock(&monitoring_thread_mtx);
+    monitoring_thread_initialised = false;
     if (pthread_create(&monitoring_thread, NULL, monitoring_thread_loop, NULL)) {
          dbg_perror("linux_kqueue_start_thread failure");
          pthread_mutex_unlock(&monitoring_thread_mtx);
@@ -343,9 +353,16 @@ linux_kqueue_start_thread(void)
          return (-1);
     }
     /* Wait for thread creating to be done as we need monitoring_tid to be available */
-    pthread_cond_wait(&monitoring_thread_cond, &monitoring_thread_mtx); /* unlocks mt_mtx allowing child to lock it */
+    while (!monitoring_thread_initialised)
+        pthread_cond_wait(&monitoring_thread_cond, &monitoring_thread_mtx); /* unlocks mt_mtx allowing child to lock it */
     pthread_mutex_unlock(&monitoring_thread_mtx);
 
+    if (monitoring_tid == 0) {
+        (void) pthread_join(monitoring_thread, NULL);
+        errno = ENOMEM;
+        return (-1);
+    }
+
     return (0);
 }
 
-- 
2.43.0


From b8f681e2660cfaa9d291dccc3da452358ce91f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:50 +0000
Subject: [PATCH 06/50] fix: large kevent() timeouts overflowed into short or
 infinite waits

---
 src/linux/platform.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 8be3494..d77dc11 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -19,6 +19,7 @@
 #include <signal.h>
 
 #include <inttypes.h>
+#include <limits.h>
 #include <sys/prctl.h>
 #include <sys/resource.h>
 
@@ -708,6 +709,8 @@ linux_kevent_wait(struct kqueue *kq, int nevents, const struct timespec *ts)
         /* Convert timeout to the format used by epoll_wait() */
         if (ts == NULL)
             timeout = -1;
+        else if (ts->tv_sec >= (INT_MAX / 1000))
+            timeout = INT_MAX; /* Longest bounded wait epoll_wait() can express */
         else
             timeout = (1000 * ts->tv_sec) + (ts->tv_nsec / 1000000);
     }
-- 
2.43.0


From ee71022e6fa96dc089e5e2dddfeebb6f39c6cbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:18 +0000
Subject: [PATCH 07/50] fix: kevent() dropped EV_RECEIPT and EV_ERROR entries
 when waiting timed out or failed

---
 src/common/kevent.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 51f347b..5f79adf 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -461,9 +461,15 @@ kevent(int kqfd,
         } else if (rv == 0) {
             /* Timeout reached */
             dbg_printf("(%u) kevent_wait timedout", myid);
+            rv = el_p - eventlist;      /* EV_RECEIPT and EV_ERROR entries must still be reported */
         } else {
             dbg_printf("(%u) kevent_wait failed", myid);
-            goto out;
+        }
+        if (rv < 0) {
+            if (el_p > eventlist)
+                rv = el_p - eventlist;  /* EV_RECEIPT and EV_ERROR entries must still be reported */
+            else
+                goto out;
         }
     /*
      * If we have no space, return how many kevents
-- 
2.43.0


From ae42e4f95d967b678f93c4ec3853e2f30db8c0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:18 +0000
Subject: [PATCH 08/50] fix: kevent() fetched more events than it had room for
 after receipts, losing one-shot and edge-triggered ones

---
 src/common/kevent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 5f79adf..255d3e0 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -446,7 +446,7 @@ kevent(int kqfd,
             pthread_testcancel();
         }
 #endif
-        rv = kqops.kevent_wait(kq, nevents, timeout);
+        rv = kqops.kevent_wait(kq, el_end - el_p, timeout);
 #ifndef _WIN32
         (void)pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL);
 #endif
-- 
2.43.0


From 751ac77bc813486fae17330081eed6d0c72e533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:29 +0000
Subject: [PATCH 09/50] fix: EV_ADD|EV_DISABLE left read and write
 registrations armed and failed for user events

---
 src/common/kevent.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 255d3e0..8f8e15f 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -196,7 +196,7 @@ kevent_copyin_one(const struct knote **out, struct kqueue *kq, const struct keve
                 return (-1);
             }
             memcpy(&kn->kev, src, sizeof(kn->kev));
-            kn->kev.flags &= ~EV_ENABLE;
+            kn->kev.flags &= ~(EV_ENABLE | EV_DISABLE);
             kn->kn_kq = kq;
             assert(filt->kn_create);
             rv = filt->kn_create(filt, kn);
@@ -215,10 +215,8 @@ kevent_copyin_one(const struct knote **out, struct kqueue *kq, const struct keve
             *out = kn;
 
 /* XXX- FIXME Needs to be handled in kn_create() to prevent races */
-            if (src->flags & EV_DISABLE) {
-                kn->kev.flags |= EV_DISABLE;
-                return filt->kn_disable(filt, kn);
-            }
+            if (src->flags & EV_DISABLE)
+                return knote_disable(filt, kn);
             //........................................
             return (rv);
         } else {
-- 
2.43.0


From ac5c2637133895b7e338d49068058e42a5693a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:52 +0000
Subject: [PATCH 10/50] fix: the surrogate eventfd for regular files was
 inherited across exec

---
 src/linux/read.c  | 2 +-
 src/linux/write.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linux/read.c b/src/linux/read.c
index a769f65..50caedc 100644
--- a/src/linux/read.c
+++ b/src/linux/read.c
@@ -186,7 +186,7 @@ evfilt_read_knote_create(struct filter *filt, struct knote *kn)
             kn->epoll_events |= EPOLLONESHOT;
 
         kn->kn_epollfd = filter_epoll_fd(filt);
-        evfd = eventfd(0, 0);
+        evfd = eventfd(0, EFD_CLOEXEC);
         if (evfd < 0) {
             dbg_perror("eventfd(2)");
             return (-1);
diff --git a/src/linux/write.c b/src/linux/write.c
index d253604..c73dd86 100644
--- a/src/linux/write.c
+++ b/src/linux/write.c
@@ -105,7 +105,7 @@ evfilt_write_knote_create(struct filter *filt, struct knote *kn)
             kn->epoll_events |= EPOLLONESHOT;
 
         kn->kn_epollfd = filter_epoll_fd(filt);
-        evfd = eventfd(0, 0);
+        evfd = eventfd(0, EFD_CLOEXEC);
         if (evfd < 0) {
             dbg_perror("eventfd(2)");
             return (-1);
-- 
2.43.0


From 4664b68749d0e7489045fa1b4a61d90922379b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:52 +0000
Subject: [PATCH 11/50] fix: re-adding a read or write registration failed with
 an EV_ERROR entry carrying errno 0

---
 src/linux/read.c  | 29 +++++++++++++----------------
 src/linux/write.c | 29 +++++++++++++----------------
 2 files changed, 26 insertions(+), 32 deletions(-)

diff --git a/src/linux/read.c b/src/linux/read.c
index 50caedc..00d9c7b 100644
--- a/src/linux/read.c
+++ b/src/linux/read.c
@@ -215,23 +215,20 @@ evfilt_read_knote_create(struct filter *filt, struct knote *kn)
 }
 
 int
-evfilt_read_knote_modify(UNUSED struct filter *filt, struct knote *kn,
-        const struct kevent *kev)
+evfilt_read_knote_modify(UNUSED struct filter *filt, UNUSED struct knote *kn,
+        UNUSED const struct kevent *kev)
 {
-    if (!(kn->kn_flags & KNFL_FILE)) {
-        /*
-         * This should reset the EOF sate of the socket.
-         * but it's not even clear what that really means.
-         *
-         * With the native kqueue implementations it
-         * basically does nothing.
-         */
-        if ((kev->flags & EV_CLEAR))
-            return (0);
-        return (-1);
-    }
-
-    return (-1);
+    /*
+     * There are no filter specific parameters to update, udata
+     * is updated by the common code.
+     *
+     * EV_CLEAR should reset the EOF sate of a socket, but it's
+     * not even clear what that really means.
+     *
+     * With the native kqueue implementations it basically does
+     * nothing.
+     */
+    return (0);
 }
 
 int
diff --git a/src/linux/write.c b/src/linux/write.c
index c73dd86..ea87928 100644
--- a/src/linux/write.c
+++ b/src/linux/write.c
@@ -150,23 +150,20 @@ evfilt_write_knote_create(struct filter *filt, struct knote *kn)
 }
 
 int
-evfilt_write_knote_modify(UNUSED struct filter *filt, struct knote *kn,
-        const struct kevent *kev)
+evfilt_write_knote_modify(UNUSED struct filter *filt, UNUSED struct knote *kn,
+        UNUSED const struct kevent *kev)
 {
-    if (!(kn->kn_flags & KNFL_FILE)) {
-        /*
-         * This should reset the EOF sate of the socket.
-         * but it's not even clear what that really means.
-         *
-         * With the native kqueue implementations it
-         * basically does nothing.
-         */
-        if ((kev->flags & EV_CLEAR))
-            return (0);
-        return (-1);
-    }
-
-    return (-1);
+    /*
+     * There are no filter specific parameters to update, udata
+     * is updated by the common code.
+     *
+     * EV_CLEAR should reset the EOF sate of a socket, but it's
+     * not even clear what that really means.
+     *
+     * With the native kqueue implementations it basically does
+     * nothing.
+     */
+    return (0);
 }
 
 int
-- 
2.43.0


From 3880f65b2087bf0c098b8dc9b3df3e1469206c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:52 +0000
Subject: [PATCH 12/50] fix: EV_ONESHOT and EV_DISPATCH were ignored for reads
 of regular files, and disabling failed at end of file

---
 src/linux/read.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/linux/read.c b/src/linux/read.c
index 00d9c7b..8df771d 100644
--- a/src/linux/read.c
+++ b/src/linux/read.c
@@ -99,8 +99,11 @@ evfilt_read_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
             }
             /* FIXME: race here, should we check the EOF status again ? */
 #endif
+            return (1);
         }
 
+        if (knote_copyout_flag_actions(filt, src) < 0) return -1;
+
         return (1);
     }
 
@@ -267,7 +270,8 @@ int
 evfilt_read_knote_disable(struct filter *filt, struct knote *kn)
 {
     if (kn->kn_flags & KNFL_FILE) {
-        if (epoll_ctl(kn->kn_epollfd, EPOLL_CTL_DEL, kn->kn_eventfd, NULL) < 0) {
+        /* Already unregistered if we reached the end of the file */
+        if (kn->kn_registered && epoll_ctl(kn->kn_epollfd, EPOLL_CTL_DEL, kn->kn_eventfd, NULL) < 0) {
             dbg_perror("epoll_ctl(2)");
             return (-1);
         }
-- 
2.43.0


From 635c0d463fb417a8f70e7468cd9029695cf0bd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:52 +0000
Subject: [PATCH 13/50] fix: write events reported data mixed with the upper
 half of the registration's data

---
 src/linux/write.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/linux/write.c b/src/linux/write.c
index ea87928..8acfc28 100644
--- a/src/linux/write.c
+++ b/src/linux/write.c
@@ -61,10 +61,15 @@ evfilt_write_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt
     }
 
     /* On return, data contains the the amount of space remaining in the write buffer */
-    if (!(dst->flags & EV_EOF) && (ioctl(dst->ident, SIOCOUTQ, &dst->data) < 0)) {
+    if (!(dst->flags & EV_EOF)) {
+        int i;
+        if (ioctl(dst->ident, SIOCOUTQ, &i) < 0) {
             /* race condition with socket close, so ignore this error */
             dbg_puts("ioctl(2) of socket failed");
             dst->data = 0;
+        } else {
+            dst->data = i;
+        }
     }
 
 done:
-- 
2.43.0


From 606705b0c80313b66064bfd0bf879913ff489708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:01 +0000
Subject: [PATCH 14/50] fix: closing a watched file made EVFILT_VNODE
 registrations one-shot, and one-shot ones lost their event

Any IN_CLOSE notification set EV_ONESHOT on the knote, so the next event
deleted a registration that was not EV_ONESHOT.  IN_ONESHOT let a
notification that is never reported (IN_CLOSE) use up the watch of a
registration that was; knote_copyout_flag_actions() already removes it.
---
 src/linux/vnode.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index 3c28575..7b09be9 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -137,8 +137,6 @@ add_watch(struct filter *filt, struct knote *kn)
         mask |= IN_ATTRIB;
     if (kn->kev.fflags & NOTE_RENAME)
         mask |= IN_MOVE_SELF;
-    if (kn->kev.flags & EV_ONESHOT)
-        mask |= IN_ONESHOT;
 
     /* Create an inotify descriptor */
     ifd = inotify_init1(IN_CLOEXEC);
@@ -219,7 +217,6 @@ evfilt_vnode_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt
 scriptors reference the same file.
     */
     if (evt->mask & IN_CLOSE_WRITE || evt->mask & IN_CLOSE_NOWRITE) {
-        src->kev.flags |= EV_ONESHOT; /* KLUDGE: causes the knote to be deleted */
         dst->filter = 0; /* KLUDGE: causes the event to be discarded */
         return (0);
     }
-- 
2.43.0


From 141627f62f345906a36816a159667c9404d69c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:01 +0000
Subject: [PATCH 15/50] fix: EVFILT_VNODE returned events with none of the
 requested fflags set

---
 src/linux/vnode.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index 7b09be9..9b677c4 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -258,6 +258,12 @@ scriptors reference the same file.
     if (evt->mask & IN_DELETE_SELF && src->kev.fflags & NOTE_DELETE)
         dst->fflags |= NOTE_DELETE;
 
+    /* Nothing the caller asked for has happened, discard the event */
+    if (dst->fflags == 0) {
+        dst->filter = 0;
+        return (0);
+    }
+
     if (knote_copyout_flag_actions(filt, src) < 0) return -1;
 
     return (1);
-- 
2.43.0


From ae21bfc72936005f8803aea116bf46063225e575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:20 +0000
Subject: [PATCH 16/50] fix: re-adding an EVFILT_VNODE registration failed
 instead of changing its fflags

---
 src/linux/vnode.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index 9b677c4..8074ec0 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -289,10 +289,14 @@ int
 evfilt_vnode_knote_modify(struct filter *filt, struct knote *kn,
         const struct kevent *kev)
 {
-    (void)filt;
-    (void)kn;
-    (void)kev;
-    return (-1); /* FIXME - STUB */
+    kn->kev.fflags = kev->fflags;
+    if (KNOTE_DISABLED(kn))
+        return (0);
+
+    /* Replace the watch with one for the new set of fflags */
+    if (delete_watch(filt, kn) < 0)
+        return (-1);
+    return (add_watch(filt, kn));
 }
 
 int
-- 
2.43.0


From f7919df06a0b9d66fec9bd5c3468e6af1358ac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:46 +0000
Subject: [PATCH 17/50] fix: EVFILT_PROC leaked pidfds, lost state on
 modification, and could not delete registrations without NOTE_EXIT

Creating a registration leaked the pidfd when it could not be added to
epoll.  Modifying one dropped EV_ONESHOT (so it outlived the exit of the
process) and EV_DISABLE (so delete tried to remove a pidfd which was not
in the epoll set).  Registrations with no NOTE_* fflags have no pidfd, and
failed to be enabled, disabled and deleted.
---
 src/linux/proc.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/linux/proc.c b/src/linux/proc.c
index ba7d2a2..5fd664c 100644
--- a/src/linux/proc.c
+++ b/src/linux/proc.c
@@ -83,6 +83,9 @@ evfilt_proc_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
 int
 evfilt_proc_knote_enable(struct filter *filt, struct knote *kn)
 {
+    /* Nothing to monitor if fflags doesn't specify any events */
+    if (kn->kn_procfd < 0) return (0);
+
     if (epoll_ctl(filter_epoll_fd(filt), EPOLL_CTL_ADD, kn->kn_procfd, EPOLL_EV_KN(EPOLLIN, kn)) < 0) {
         dbg_printf("epoll_ctl(2): %s", strerror(errno));
         return -1;
@@ -93,6 +96,8 @@ evfilt_proc_knote_enable(struct filter *filt, struct knote *kn)
 int
 evfilt_proc_knote_disable(struct filter *filt, struct knote *kn)
 {
+    if (kn->kn_procfd < 0) return (0);
+
     if (epoll_ctl(filter_epoll_fd(filt), EPOLL_CTL_DEL, kn->kn_procfd, NULL) < 0) {
         dbg_printf("epoll_ctl(2): %s", strerror(errno));
         return (-1);
@@ -120,6 +125,7 @@ evfilt_proc_knote_create(struct filter *filt, struct knote *kn)
     }
     if (fcntl(pfd, F_SETFD, FD_CLOEXEC) < 0) {
         dbg_perror("fcntl(2)");
+        close(pfd);
         return (-1);
     }
     dbg_printf("created pidfd=%i monitoring pid=%u", pfd, (unsigned int)kn->kev.ident);
@@ -136,14 +142,23 @@ evfilt_proc_knote_create(struct filter *filt, struct knote *kn)
 
     KN_UDATA(kn);   /* populate this knote's kn_udata field */
 
-    return evfilt_proc_knote_enable(filt, kn);
+    /* If the knote's being modified whilst disabled, leave it to be enabled later */
+    if (KNOTE_DISABLED(kn)) return (0);
+
+    if (evfilt_proc_knote_enable(filt, kn) < 0) {
+        close(pfd);
+        kn->kn_procfd = -1;
+        return (-1);
+    }
+
+    return (0);
 }
 
 int
 evfilt_proc_knote_modify(struct filter *filt, struct knote *kn, const struct kevent *kev)
 {
     /* We don't need to make any changes to the pidfd, just record the new flags */
-    kn->kev.flags = kev->flags;
+    kn->kev.flags = (kev->flags & ~(EV_ENABLE | EV_DISABLE)) | (kn->kev.flags & (EV_DISABLE | EV_ONESHOT | EV_CLEAR));
     kn->kev.fflags = kev->fflags;
 
     if (kn->kn_procfd < 0) return evfilt_proc_knote_create(filt, kn);
@@ -156,6 +171,8 @@ evfilt_proc_knote_delete(struct filter *filt, struct knote *kn)
 {
     int rv = 0;
 
+    if (kn->kn_procfd < 0) return (0);
+
     /* If it's enabled, we need to remove the pidfd from epoll */
     if (KNOTE_ENABLED(kn) && (evfilt_proc_knote_disable(filt, kn) < 0)) rv = -1;
 
-- 
2.43.0


From faef5d31102af8fc1e7efd7e9741a64fb00075c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:25 +0000
Subject: [PATCH 18/50] fix: modifying a disabled timer failed and re-enabled
 it, and turning a one-shot timer periodic left epoll one-shot

---
 src/linux/timer.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/linux/timer.c b/src/linux/timer.c
index 2e2082d..45531cc 100644
--- a/src/linux/timer.c
+++ b/src/linux/timer.c
@@ -203,6 +203,14 @@ evfilt_timer_knote_modify(struct filter *filt, struct knote *kn,
 {
     struct itimerspec ts;
     int flags;
+    int events;
+
+    /*
+     * There's no timerfd whilst the knote is disabled, it'll be
+     * created with the new parameters when the knote is enabled.
+     */
+    if (KNOTE_DISABLED(kn))
+        goto done;
 
     dbg_printf("timer_fd=%i - modified", kn->kn_timerfd);
 
@@ -214,7 +222,16 @@ evfilt_timer_knote_modify(struct filter *filt, struct knote *kn,
         return (-1);
     }
 
-    kn->kev.flags = kev->flags | EV_CLEAR;
+    events = EPOLLIN | EPOLLET;
+    if (kev->flags & (EV_ONESHOT | EV_DISPATCH))
+        events |= EPOLLONESHOT;
+    if (epoll_ctl(filter_epoll_fd(filt), EPOLL_CTL_MOD, kn->kn_timerfd, EPOLL_EV_KN(events, kn)) < 0) {
+        dbg_printf("epoll_ctl(2): %s", strerror(errno));
+        return (-1);
+    }
+
+done:
+    kn->kev.flags = (kev->flags & ~(EV_ENABLE | EV_DISABLE)) | EV_CLEAR | (kn->kev.flags & EV_DISABLE);
     kn->kev.fflags = kev->fflags;
     kn->kev.data = kev->data;
 
-- 
2.43.0


From 054c85db9aa1c2b4654af107e9017ebef10a3d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:25 +0000
Subject: [PATCH 19/50] fix: EVFILT_USER leaked its eventfd when it could not
 be added to epoll

---
 src/linux/user.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/linux/user.c b/src/linux/user.c
index a24d0e9..a6746af 100644
--- a/src/linux/user.c
+++ b/src/linux/user.c
@@ -120,7 +120,6 @@ linux_evfilt_user_knote_create(struct filter *filt, struct knote *kn)
         } else {
             dbg_perror("eventfd(2)");
         }
-        close(evfd);
         kn->kn_eventfd = -1;
         return (-1);
     }
@@ -129,8 +128,11 @@ linux_evfilt_user_knote_create(struct filter *filt, struct knote *kn)
     kn->kn_eventfd = evfd;
     KN_UDATA(kn);   /* populate this knote's kn_udata field */
 
-    if (KNOTE_ENABLED(kn))
-        return linux_evfilt_user_knote_enable(filt, kn);
+    if (KNOTE_ENABLED(kn) && (linux_evfilt_user_knote_enable(filt, kn) < 0)) {
+        close(evfd);
+        kn->kn_eventfd = -1;
+        return (-1);
+    }
 
     return (0);
 }
-- 
2.43.0


From 6b44318ae90fb961e74879f94f112de67c433082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:47 +0000
Subject: [PATCH 20/50] fix: EVFILT_SIGNAL accepted invalid signal numbers, and
 leaked its signalfd when that was descriptor 0

---
 src/linux/signal.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/linux/signal.c b/src/linux/signal.c
index dccb03f..a55f7c8 100644
--- a/src/linux/signal.c
+++ b/src/linux/signal.c
@@ -86,7 +86,10 @@ signalfd_create(int epoll_fd, struct knote *kn, int signum)
 
     /* Create a signalfd */
     sigemptyset(&sigmask);
-    sigaddset(&sigmask, signum);
+    if (sigaddset(&sigmask, signum) < 0) {
+        dbg_perror("sigaddset(3)");
+        return (-1);
+    }
 
     sigfd = signalfd(-1, &sigmask, flags);
 
@@ -149,7 +152,7 @@ evfilt_signal_knote_create(struct filter *filt, struct knote *kn)
     int fd;
 
     fd = signalfd_create(filter_epoll_fd(filt), kn, kn->kev.ident);
-    if (fd > 0) {
+    if (fd >= 0) {
         kn->kev.flags |= EV_CLEAR;
         kn->kn_signalfd = fd;
         return (0);
-- 
2.43.0


From 1af2102fdd8fdbb3e6ace99817c25957ab74ae85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:15 +0000
Subject: [PATCH 21/50] fix: read and write registrations left dangling knote
 pointers when their descriptor number was reused

Deleting a registration whose descriptor was closed and its number reused
failed with ENOENT and freed the knote, but left it referenced by the
fd_state entry.  Running out of memory for that entry was ignored.
---
 src/linux/platform.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index d77dc11..268b73d 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -1523,7 +1523,8 @@ epoll_update(int op, struct filter *filt, struct knote *kn, int ev, bool delete)
     want_ev = EV_EPOLLINOUT(want);
      if (!have_ev && want_ev) {        /* There's no events registered and we want some */
         opn = EPOLL_CTL_ADD;
-        epoll_fd_state_mod(&fds, kn, want_ev & ~have_ev);
+        if (epoll_fd_state_mod(&fds, kn, want_ev & ~have_ev) < 0)
+            return (-1);
     }
     else if (have_ev && !want_ev)       /* We have events registered but don't want any */
         opn = EPOLL_CTL_DEL;
@@ -1550,9 +1551,10 @@ epoll_update(int op, struct filter *filt, struct knote *kn, int ev, bool delete)
         case EPOLL_CTL_MOD:
             /*
              * File descriptor went away and we weren't notified
-             * not necessarily an error.
+             * not necessarily an error.  If its number has been
+             * reused since, the new descriptor isn't in epoll.
              */
-            if (errno == EBADF) {
+            if ((errno == EBADF) || (errno == ENOENT)) {
                 int kn_ev = 0;
 
                 if (kn == fds->fds_read) {
-- 
2.43.0


From d22f85c1cb1dd25f9c84e92825f38fccff69b203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:21 +0000
Subject: [PATCH 22/50] fix: forking after closing a kqueue closed an unrelated
 descriptor in the child

---
 src/linux/platform.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 268b73d..de76e21 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -375,6 +375,7 @@ static void
 linux_libkqueue_fork(void)
 {
     struct kqueue *kq, *kq_tmp;
+    char buffer;
 
     /*
      * We don't have to cancel the monitor thread here
@@ -418,13 +419,19 @@ linux_libkqueue_fork(void)
         close(kq->epollfd);
         kq->epollfd = -1;
 
-        if ((kq->pipefd[0] > 0) && (close(kq->pipefd[0]) < 0))
+        /*
+         * If the kqueue was closed before the fork, the number
+         * of its write end may belong to something else by now.
+         */
+        if ((kq->pipefd[1] >= 0) &&
+            (read(kq->pipefd[0], &buffer, 1) < 0) && (errno == EWOULDBLOCK) &&
+            (close(kq->pipefd[1]) < 0))
             dbg_perror("close(2)");
-        kq->pipefd[0] = -1;
+        kq->pipefd[1] = -1;
 
-        if ((kq->pipefd[1] > 0) && (close(kq->pipefd[1]) < 0))
+        if ((kq->pipefd[0] >= 0) && (close(kq->pipefd[0]) < 0))
             dbg_perror("close(2)");
-        kq->pipefd[1] = -1;
+        kq->pipefd[0] = -1;
     }
 }
 
-- 
2.43.0


From 62dabb1562f01c8c75c5fa82a4a8882c30bb5dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:21 +0000
Subject: [PATCH 23/50] fix: freeing a kqueue leaked its epoll or pipe
 descriptor when that was descriptor 0

---
 src/linux/platform.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index de76e21..328c9f1 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -616,7 +616,7 @@ linux_kqueue_free(struct kqueue *kq)
     ssize_t ret;
     int pipefd;
 
-    if (kq->epollfd > 0) {
+    if (kq->epollfd >= 0) {
         dbg_printf("epoll_fd=%i - closed", kq->epollfd);
 
         if (close(kq->epollfd) < 0)
@@ -649,7 +649,7 @@ linux_kqueue_free(struct kqueue *kq)
     }
 
     pipefd = kq->pipefd[0];
-    if (pipefd > 0) {
+    if (pipefd >= 0) {
         if (close(pipefd) < 0) {
             dbg_perror("close(2) - kq_fd=%i", kq->pipefd[0]);
         } else {
-- 
2.43.0


From 95507358a8ca50cee3d7fe15829e640e764bbca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:21 +0000
Subject: [PATCH 24/50] fix: the exit of a reaped or non-child process aborted
 or span kevent()

---
 src/linux/proc.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/linux/proc.c b/src/linux/proc.c
index 5fd664c..e4f2978 100644
--- a/src/linux/proc.c
+++ b/src/linux/proc.c
@@ -42,7 +42,15 @@ evfilt_proc_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
     /* Get the exit status _without_ reaping the process, waitpid() should still work in the caller */
     if (waitid(P_PID, (id_t)src->kev.ident, &info, WEXITED | WNOHANG | WNOWAIT) < 0) {
         dbg_printf("waitid(2): %s", strerror(errno));
-        return (-1);
+        if (errno != ECHILD)
+            return (-1);
+
+        /*
+         *  The process isn't our child, or has already been reaped.
+         *  It's gone, but there's no status available for it.
+         */
+        info.si_code = CLD_EXITED;
+        info.si_status = 0;
     }
 
     /*
-- 
2.43.0


From ced676f9c03aa1d7cd2d001707a96043d86e26eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:21 +0000
Subject: [PATCH 25/50] fix: kevent() wrote past the eventlist when a
 filter-wide event was ready and the list was full

---
 src/linux/platform.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 328c9f1..f9eed3d 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -952,6 +952,7 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
             struct eventfd    *efd = epoll_udata->ud_efd;
 
             assert(efd);
+            if (el_p >= el_end) goto oos;
 
             rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, efd->ef_filt, NULL);
             if (rv < 0) goto done;
-- 
2.43.0


From 0a2076896ad49f86e104d01cd8578c69ef335ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:22 +0000
Subject: [PATCH 26/50] fix: POSIX EVFILT_PROC lost the core dump flag of the
 exit status

---
 src/posix/proc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/posix/proc.c b/src/posix/proc.c
index 50bf2d4..2640c1d 100644
--- a/src/posix/proc.c
+++ b/src/posix/proc.c
@@ -156,7 +156,7 @@ waiter_siginfo_to_status(siginfo_t *info)
 
     case CLD_DUMPED:    /* WIFSIGNALED/WCOREDUMP - Core flag set - Low 7 bits contains fatal signal */
         status |= 0x80; /* core flag */
-        status = info->si_status & 0x7f;
+        status |= info->si_status & 0x7f;
         dbg_printf("pid=%u dumped, status %u", (unsigned int)info->si_pid, status);
         break;
 
-- 
2.43.0


From 128f5bf8e187fbc084e82439eb749f82a645313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:20 +0000
Subject: [PATCH 27/50] fix: hang-up and error events were delivered to
 disabled read or write registrations

---
 src/linux/platform.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index f9eed3d..89ffe89 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -926,7 +926,7 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
             /*
              *    FD, or errored, or other side shutdown
              */
-            if ((kn = fds->fds_read) && (ev->events & (EPOLLIN | EPOLLHUP | EPOLLRDHUP | EPOLLERR))) {
+            if ((kn = fds->fds_read) && !KNOTE_DISABLED(kn) && (ev->events & (EPOLLIN | EPOLLHUP | EPOLLRDHUP | EPOLLERR))) {
                 if (el_p >= el_end) goto oos;
 
                 rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn), kn);
@@ -937,7 +937,7 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
             /*
              *    FD is writable, or errored, or other side shutdown
              */
-            if ((kn = write) && (ev->events & (EPOLLOUT | POLLHUP | EPOLLERR))) {
+            if ((kn = write) && !KNOTE_DISABLED(kn) && (ev->events & (EPOLLOUT | POLLHUP | EPOLLERR))) {
                 if (el_p >= el_end) goto oos;
 
                 rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn), kn);
-- 
2.43.0


From 3de3f7b758e1ed960c17fbac9f8568edd7ead439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:31 +0000
Subject: [PATCH 28/50] fix: kevent() crashed when called before the first
 kqueue()

---
 src/common/kqueue.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index 9497627..5e7c81d 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -335,6 +335,9 @@ kqueue_free_by_id(int id)
 struct kqueue *
 kqueue_lookup(int kq)
 {
+    if (kqmap == NULL)      /* No kqueue has been created yet */
+        return (NULL);
+
     return ((struct kqueue *) map_lookup(kqmap, kq));
 }
 
-- 
2.43.0


From 602b23f90be1e2f74da7acf71f181b4d249bdf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:59 +0000
Subject: [PATCH 29/50] fix: kqueue() failed without setting errno when the
 monitoring thread could not be created

---
 src/linux/platform.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 89ffe89..4a65cfe 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -345,9 +345,13 @@ monitoring_thread_loop(UNUSED void *arg)
 static int
 linux_kqueue_start_thread(void)
 {
+    int res;
+
     pthread_mutex_lock(&monitoring_thread_mtx);
     monitoring_thread_initialised = false;
-    if (pthread_create(&monitoring_thread, NULL, monitoring_thread_loop, NULL)) {
+    res = pthread_create(&monitoring_thread, NULL, monitoring_thread_loop, NULL);
+    if (res != 0) {
+         errno = res; /* pthread_create does not set errno */
          dbg_perror("linux_kqueue_start_thread failure");
          pthread_mutex_unlock(&monitoring_thread_mtx);
 
-- 
2.43.0


From a2c17c2ec593f510f46817f1b099c4701493d179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:01 +0000
Subject: [PATCH 30/50] fix: adding or removing one of a descriptor's read and
 write registrations changed how the other was triggered

---
 src/linux/platform.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 4a65cfe..5c27f48 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -1529,6 +1529,18 @@ epoll_update(int op, struct filter *filt, struct knote *kn, int ev, bool delete)
         return (-1);
     }
 
+    /*
+     * The other direction keeps the options it was registered with.
+     * There's only one EPOLLET per descriptor though, if both
+     * directions are in use the last one added determines it.
+     */
+    if (fds) {
+        if ((want & EPOLLIN) && fds->fds_read && (fds->fds_read != kn))
+            want |= fds->fds_read->epoll_events & ~((op == EPOLL_CTL_ADD) ? EPOLLET : 0);
+        if ((want & EPOLLOUT) && fds->fds_write && (fds->fds_write != kn))
+            want |= fds->fds_write->epoll_events & ~((op == EPOLL_CTL_ADD) ? EPOLLET : 0);
+    }
+
     /*
      * We only want the read/write flags for comparisons.
      */
-- 
2.43.0


From c91cc45a3dd27f22dd5e0ba7108004d392c84b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:44 +0000
Subject: [PATCH 31/50] fix: forget inherited kqueues in a forked child

If another thread was inside kevent() at the time of fork(), the lock of its
kqueue stays locked for ever in the child.  Creating a kqueue whose number
equals that of the inherited one (which is what normally happens), or calling
kevent() on the inherited number, then waited for that lock with kq_mtx held.
---
 src/common/kqueue.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index 5e7c81d..2943a41 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -198,6 +198,8 @@ libkqueue_parent_fork(void)
 void
 libkqueue_child_fork(void)
 {
+    struct kqueue *kq;
+
     libkqueue_in_child = true;
 
     if (!libkqueue_fork_cleanup_active)
@@ -209,6 +211,15 @@ libkqueue_child_fork(void)
     if (kqops.libkqueue_fork)
         kqops.libkqueue_fork();
 
+    /*
+     * The inherited kqueues must never be looked up, or freed
+     * when their number is reused.  Another thread may have been
+     * using them when we forked, so they may be in any state and
+     * their locks may never be released.
+     */
+    LIST_FOREACH(kq, &kq_list, kq_entry)
+        (void) map_remove(kqmap, kq->kq_id, kq);
+
     tracing_mutex_unlock(&kq_mtx);
 }
 #endif
-- 
2.43.0


From c0c30c1f8981e293c35264f6cbbf973a99f7d8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:36 +0000
Subject: [PATCH 32/50] fix: start the monitoring thread with all signals
 blocked

Until it blocked them itself, a signal for the process could be handled on
the monitoring thread when the other threads had it blocked or were slower.
---
 src/linux/platform.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 5c27f48..f3ebc64 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -346,10 +346,19 @@ static int
 linux_kqueue_start_thread(void)
 {
     int res;
+    sigset_t all, old;
 
     pthread_mutex_lock(&monitoring_thread_mtx);
     monitoring_thread_initialised = false;
+
+    /*
+     * The thread inherits our signal mask.  Make sure it never runs
+     * any of the application's signal handlers.
+     */
+    sigfillset(&all);
+    pthread_sigmask(SIG_SETMASK, &all, &old);
     res = pthread_create(&monitoring_thread, NULL, monitoring_thread_loop, NULL);
+    pthread_sigmask(SIG_SETMASK, &old, NULL);
     if (res != 0) {
          errno = res; /* pthread_create does not set errno */
          dbg_perror("linux_kqueue_start_thread failure");
-- 
2.43.0


From 461d34789bf433ca95d6982aabe29c2ad22916fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:30 +0000
Subject: [PATCH 33/50] fix: join the monitoring thread that was cancelled at
 exit

monitoring_thread was read again after kq_mtx had been released; if another
thread created a kqueue in between, the new monitoring thread, which nobody
cancelled, was joined instead and exit() never returned.
---
 src/linux/platform.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index f3ebc64..c7a8145 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -458,6 +458,7 @@ static void
 linux_libkqueue_free(void)
 {
     pid_t tid;
+    pthread_t thread;
 
     tracing_mutex_lock(&kq_mtx);
     tid = monitoring_tid; /* Gets trashed when the thread exits */
@@ -465,8 +466,9 @@ linux_libkqueue_free(void)
         void *retval;
         int ret;
 
+        thread = monitoring_thread; /* Another thread may start a new one once we unlock */
         dbg_printf("tid=%u - cancelling", tid);
-        ret = pthread_cancel(monitoring_thread);
+        ret = pthread_cancel(thread);
         if (ret != 0)
            dbg_printf("tid=%u - cancel failed: %s", tid, strerror(ret));
         /*
@@ -475,7 +477,7 @@ linux_libkqueue_free(void)
          */
         tracing_mutex_unlock(&kq_mtx);
 
-        ret = pthread_join(monitoring_thread, &retval);
+        ret = pthread_join(thread, &retval);
         if (ret == 0) {
             if (retval == PTHREAD_CANCELED) {
                 dbg_printf("tid=%u - joined with exit_status=PTHREAD_CANCELED", tid);
-- 
2.43.0


From 1d612e168977306fb133bdf74fecef22448aee4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:44 +0000
Subject: [PATCH 34/50] fix: keep kq_mtx until the cancelled monitoring thread
 is done

When the thread was cancelled while it waited for signals it released kq_mtx
before freeing fd_map and fd_use_cnt and clearing monitoring_tid, so another
thread still running during exit() could use freed memory in kqueue().
---
 src/linux/platform.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index c7a8145..0c95976 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -144,9 +144,6 @@ monitoring_thread_cleanup(UNUSED void *arg)
                            kq, kq->kq_id, fd_use_cnt[kq->kq_id]);
             }
         }
-
-        if (monitoring_thread_state == THREAD_EXIT_STATE_CANCEL_UNLOCKED)
-            tracing_mutex_unlock(&kq_mtx);
     }
 
     dbg_printf("tid=%u - monitoring thread exiting (%s)",
@@ -161,7 +158,8 @@ monitoring_thread_cleanup(UNUSED void *arg)
     /* Reset so that thread can be restarted */
     monitoring_tid = 0;
 
-    if (monitoring_thread_state == THREAD_EXIT_STATE_CANCEL_LOCKED)
+    if ((monitoring_thread_state == THREAD_EXIT_STATE_CANCEL_LOCKED) ||
+        (monitoring_thread_state == THREAD_EXIT_STATE_CANCEL_UNLOCKED))
         tracing_mutex_unlock(&kq_mtx);
 }
 
-- 
2.43.0


From c422faca5903d46b16836a64247bce385bd0dc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:32 +0000
Subject: [PATCH 35/50] fix: kqueue() beyond the sizes taken before the
 descriptor limit was raised

The map of kqueues is sized once, when the library is initialised.  A
descriptor beyond it made map_insert() fail, after which the filters were
unregistered without the kqueue's lock (an assertion failure), and its
epoll descriptor, pipe and use count were leaked.
---
 src/common/kqueue.c  | 12 +++++++++++-
 src/common/private.h |  1 +
 src/linux/platform.c |  6 ++++--
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index 2943a41..d41086b 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -55,6 +55,13 @@ struct kqueue_head kq_list;
  */
 unsigned int kq_cnt = 0;
 
+/** Number of kqueue ids the map has room for
+ *
+ * Set once when the library is initialised, i.e. if the descriptor
+ * limit is raised afterwards, there may be descriptors beyond it.
+ */
+unsigned int kq_id_max = 0;
+
 unsigned int
 get_fd_limit(void)
 {
@@ -251,7 +258,8 @@ libkqueue_init(void)
     }
 #endif
 
-   kqmap = map_new(get_fd_limit()); // INT_MAX
+   kq_id_max = get_fd_limit();
+   kqmap = map_new(kq_id_max); // INT_MAX
    if (kqmap == NULL)
        abort();
 
@@ -414,7 +422,9 @@ kqueue(void)
 
     if (map_insert(kqmap, kq->kq_id, kq) < 0) {
         dbg_printf("kq=%p - map insertion failed, freeing", kq);
+        kqueue_lock(kq);
         filter_unregister_all(kq);
+        kqueue_unlock(kq);
         tracing_mutex_unlock(&kq_mtx);
         goto error;
     }
diff --git a/src/common/private.h b/src/common/private.h
index 6e4b9fe..de4c321 100644
--- a/src/common/private.h
+++ b/src/common/private.h
@@ -661,6 +661,7 @@ extern const struct kqueue_vtable kqops;
 extern tracing_mutex_t kq_mtx;
 extern struct kqueue_head kq_list;
 extern unsigned int kq_cnt;
+extern unsigned int kq_id_max;
 
 /*
  * kqueue internal API
diff --git a/src/linux/platform.c b/src/linux/platform.c
index 0c95976..d2a0771 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -560,9 +560,11 @@ linux_kqueue_init(struct kqueue *kq)
 
     /*
      * The per-descriptor tables were sized when the thread was
-     * started, the descriptor limit may have been raised since.
+     * started, and the kqueue map when the library was initialised,
+     * the descriptor limit may have been raised since.
      */
-    if ((kq->pipefd[0] >= nb_max_fd) || (kq->pipefd[1] >= nb_max_fd)) {
+    if ((kq->pipefd[0] >= nb_max_fd) || (kq->pipefd[1] >= nb_max_fd) ||
+        ((unsigned int)kq->pipefd[1] >= kq_id_max)) {
         errno = EMFILE;
         goto error_filters;
     }
-- 
2.43.0


From bcfef23ff4774d5cf9455eaf81a9c518d23465fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:32 +0000
Subject: [PATCH 36/50] fix: events dropped when a descriptor was both readable
 and writable

A descriptor's read and write events take two slots of the event list but
are a single epoll event.  The epoll events that no longer fit were dropped,
although the kernel doesn't report edge triggered and one-shot ones again
(an EV_ONESHOT timer never fired).
---
 src/linux/platform.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index d2a0771..a934be2 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -953,7 +953,11 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
              *    FD is writable, or errored, or other side shutdown
              */
             if ((kn = write) && !KNOTE_DISABLED(kn) && (ev->events & (EPOLLOUT | POLLHUP | EPOLLERR))) {
-                if (el_p >= el_end) goto oos;
+                /*
+                 * Leave a slot for each of the remaining epoll
+                 * events, the kernel may not report them again.
+                 */
+                if ((el_end - el_p) < (nready - i)) break;
 
                 rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn), kn);
                 if (rv < 0) goto done;
-- 
2.43.0


From 1207a145a9010d79fd00ee6787fae815e4503767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:04 +0000
Subject: [PATCH 37/50] fix: EVFILT_LIBKQUEUE rejected unknown fflags with an
 EV_ERROR entry without errno

Once the registration existed (any earlier EVFILT_LIBKQUEUE change), a change with unknown fflags failed without errno being set.
---
 src/common/libkqueue.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/libkqueue.c b/src/common/libkqueue.c
index 97223a4..46941f0 100644
--- a/src/common/libkqueue.c
+++ b/src/common/libkqueue.c
@@ -79,6 +79,7 @@ common_libkqueue_knote_create(struct filter *filt, struct knote *kn)
         break;
 #endif
     default:
+        errno = EINVAL;
         return (-1);
     }
 
-- 
2.43.0


From 7f774f3f723839a28e5b74dcaf2e58825d04e4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:06 +0000
Subject: [PATCH 38/50] fix: a stale or foreign notification made the
 monitoring thread free an open kqueue

Notifications were matched to kqueues by the number of the pipe's read end
and counted per kqueue id.  A notification still queued for a replaced kqueue
hit the kqueue which got its read end's number, MONITORING_THREAD_SIGNAL sent
by the application hit an arbitrary one or was used as an index out of bounds,
and a kqueue closed while another process held its write end left the count of
its id too high, so that its successor was never freed.  Check that the kqueue
has been closed instead.
---
 src/linux/platform.c | 105 +++++++++++++++----------------------------
 1 file changed, 35 insertions(+), 70 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index a934be2..01d1d72 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -57,19 +57,9 @@ static enum thread_exit_state monitoring_thread_state;
 /*
  * Map for kqueue pipes where index is the read side (for which signals are received)
  * and value is the write side that gets closed and corresponds to the kqueue id.
- *
- * @note Values in the fd_map are never cleared, as we still need to decrement
- * fd_use_cnt when signals for a particular FD are received.
  */
 static int *fd_map;
 
-/*
- * Map kqueue id to counter for kq cleanups.
- * When use counter is at 0, cleanup can be performed by signal handler.
- * Otherwise, it means cleanup was already performed for this FD in linux_kqueue_reused.
- */
-static unsigned int *fd_use_cnt;
-
 static int nb_max_fd;
 
 static void
@@ -123,25 +113,12 @@ monitoring_thread_cleanup(UNUSED void *arg)
              */
             dbg_printf("kq=%p - fd=%i explicitly checking for closeure", kq, kq->kq_id);
             if (fcntl(kq->kq_id, F_GETFD) < 0) {
-                dbg_printf("kq=%p - fd=%i forcefully cleaning up, current use_count=%u: %s",
-                           kq,
-                           kq->kq_id, fd_use_cnt[kq->kq_id],
+                dbg_printf("kq=%p - fd=%i forcefully cleaning up: %s",
+                           kq, kq->kq_id,
                            errno == EBADF ? "File descriptor already closed" : strerror(errno));
-                fd_use_cnt[kq->kq_id] = 0;
-            } else {
-                /*
-                 * If there's no use cnt for the kqueue then something
-                 * has gone very wrong.
-                 */
-                assert(fd_use_cnt[kq->kq_id] > 0);
-            }
-
-            if (fd_use_cnt[kq->kq_id] == 0) {
-                dbg_printf("kq=%p - fd=%i use_count=%u cleaning up...", kq, kq->kq_id, fd_use_cnt[kq->kq_id]);
                 kqueue_free(kq);
             } else {
-                dbg_printf("kq=%p - fd=%i is alive use_count=%u.  Skipping, this is likely a leak...",
-                           kq, kq->kq_id, fd_use_cnt[kq->kq_id]);
+                dbg_printf("kq=%p - fd=%i is alive.  Skipping, this is likely a leak...", kq, kq->kq_id);
             }
         }
     }
@@ -152,8 +129,6 @@ monitoring_thread_cleanup(UNUSED void *arg)
     /* Free thread resources */
     free(fd_map);
     fd_map = NULL;
-    free(fd_use_cnt);
-    fd_use_cnt = NULL;
 
     /* Reset so that thread can be restarted */
     monitoring_tid = 0;
@@ -164,6 +139,21 @@ monitoring_thread_cleanup(UNUSED void *arg)
 }
 
 
+/** Check whether the write end of a kqueue's pipe has been closed
+ *
+ */
+static bool
+linux_kqueue_closed(struct kqueue *kq)
+{
+    char buffer;
+    ssize_t ret;
+
+    /* EOF is only seen once all the write ends are gone */
+    while ((ret = read(kq->pipefd[0], &buffer, 1)) > 0);
+
+    return (ret == 0);
+}
+
 /** Clean up a kqueue from the perspective of the monitoring thread
  *
  * Called with the kq_mtx held.
@@ -174,6 +164,15 @@ monitoring_thread_kqueue_cleanup(int signal_fd)
     int fd;
     struct kqueue *kq;
 
+    /*
+     * The signal may have been sent by the application,
+     * in which case this isn't one of our pipes.
+     */
+    if ((signal_fd < 0) || (signal_fd >= nb_max_fd)) {
+        dbg_printf("fd=%i - not a valid FD", signal_fd);
+        return;
+    }
+
     /*
      * Signal is received for read side of pipe
      * Get FD for write side as it's the kqueue identifier
@@ -187,42 +186,22 @@ monitoring_thread_kqueue_cleanup(int signal_fd)
 
     kq = kqueue_lookup(fd);
     if (!kq) {
-        /* Should not happen */
         dbg_printf("fd=%i - no kqueue associated", fd);
-        assert(0);
         return;
     }
 
     /*
-     * We should never have more pending signals than we have
-     * allocated kqueues against a given ID.
-     */
-    assert(fd_use_cnt[kq->kq_id] > 0);
-
-    /*
-     * Decrement use counter as signal handler has been run for
-     * this FD.  We rely on using an RT signal so that multiple
-     * signals are queued.
-     *
-     * Use count is tracked with the kq_id.
-     */
-    fd_use_cnt[kq->kq_id]--;
-
-    /*
-     * If kqueue instance for this FD hasn't been cleaned up yet
+     * When the main kqueue code frees a kq, the file descriptors
+     * of the kq often get reused, and the signal for the closure
+     * of the old kqueue may still be pending.
      *
-     * When the main kqueue code frees a kq, the file descriptor
-     * of the kq often gets reused.
-     *
-     * We maintain a count of how many allocations have been
-     * performed against a given file descriptor ID, and only
-     * free the kqueue here if that count is zero.
+     * Only free the kqueue if it really has been closed.
      */
-    if (fd_use_cnt[kq->kq_id] == 0) {
-        dbg_printf("kq=%p - fd=%i use_count=%u cleaning up...", kq, fd, fd_use_cnt[kq->kq_id]);
+    if ((kq->pipefd[0] == signal_fd) && linux_kqueue_closed(kq)) {
+        dbg_printf("kq=%p - fd=%i cleaning up...", kq, fd);
         kqueue_free(kq);
     } else {
-        dbg_printf("kq=%p - fd=%i use_count=%u skipping...", kq, fd, fd_use_cnt[kq->kq_id]);
+        dbg_printf("kq=%p - fd=%i still in use, skipping...", kq, fd);
     }
 }
 
@@ -260,7 +239,6 @@ monitoring_thread_loop(UNUSED void *arg)
 
     fd_map = calloc(nb_max_fd, sizeof(int));
     if (fd_map == NULL) {
-    error:
         /* Resume kqueue init, with monitoring_tid telling it we failed */
         pthread_mutex_lock(&monitoring_thread_mtx);
         monitoring_tid = 0;
@@ -272,13 +250,6 @@ monitoring_thread_loop(UNUSED void *arg)
     for (i = 0; i < nb_max_fd; i++)
         fd_map[i] = -1;
 
-    fd_use_cnt = calloc(nb_max_fd, sizeof(unsigned int));
-    if (fd_use_cnt == NULL){
-        free(fd_map);
-        fd_map = NULL;
-        goto error;
-    }
-
     /*
      * Now that thread is initialized, let kqueue init resume
      */
@@ -306,7 +277,7 @@ monitoring_thread_loop(UNUSED void *arg)
          */
         pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL);
         tracing_mutex_lock(&kq_mtx);
-        dbg_printf("fd=%i - freeing kqueue due to fd closure (signal) for sfd=%i ", fd_map[info.si_fd], info.si_fd);
+        dbg_printf("freeing kqueue due to fd closure (signal) for sfd=%i ", info.si_fd);
 
         /*
          * Release resources used by this kqueue
@@ -572,11 +543,6 @@ linux_kqueue_init(struct kqueue *kq)
     /* Update pipe FD map */
     fd_map[kq->pipefd[0]] = kq->kq_id;
 
-    /* Mark this id as in use */
-    fd_use_cnt[kq->kq_id]++;
-
-    dbg_printf("kq=%p - fd=%i use_count=%u", kq, kq->kq_id, fd_use_cnt[kq->kq_id]);
-
     assert(monitoring_tid != 0);
 
     /*
@@ -589,7 +555,6 @@ linux_kqueue_init(struct kqueue *kq)
     if (fcntl(kq->pipefd[0], F_SETOWN_EX, &sig_owner) < 0) {
         dbg_printf("fd=%i - failed setting F_SETOWN to tid=%u: %s", kq->pipefd[0], monitoring_tid, strerror(errno));
         fd_map[kq->pipefd[0]] = -1;
-        fd_use_cnt[kq->kq_id]--;
         goto error_filters;
     }
     dbg_printf("kq=%p - monitoring fd=%i for closure", kq, kq->pipefd[0]);
-- 
2.43.0


From 6a6bb3963fa5f09f1d932dceb07c2a4c5f429b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:22 +0000
Subject: [PATCH 39/50] fix: freeing a kqueue closed the descriptor of the
 kqueue which had got its number

If the write end of a closed kqueue's pipe was still open elsewhere (a child
process, a dup), kqueue_free() and the fork handler closed the number of the
kqueue, which by then could belong to a new kqueue or to the application.
---
 src/linux/platform.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 01d1d72..53c388e 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -139,6 +139,22 @@ monitoring_thread_cleanup(UNUSED void *arg)
 }
 
 
+/** Check whether the kqueue id still is the write end of the kqueue's pipe
+ *
+ * The application may have closed it while another descriptor for the same
+ * pipe, perhaps in a child process, is still open.
+ */
+static bool
+linux_kqueue_id_valid(struct kqueue *kq)
+{
+    struct stat rd, wr;
+
+    if ((fstat(kq->pipefd[0], &rd) < 0) || (fstat(kq->pipefd[1], &wr) < 0))
+        return (false);
+
+    return ((rd.st_dev == wr.st_dev) && (rd.st_ino == wr.st_ino));
+}
+
 /** Check whether the write end of a kqueue's pipe has been closed
  *
  */
@@ -407,7 +423,7 @@ linux_libkqueue_fork(void)
          */
         if ((kq->pipefd[1] >= 0) &&
             (read(kq->pipefd[0], &buffer, 1) < 0) && (errno == EWOULDBLOCK) &&
-            (close(kq->pipefd[1]) < 0))
+            linux_kqueue_id_valid(kq) && (close(kq->pipefd[1]) < 0))
             dbg_perror("close(2)");
         kq->pipefd[1] = -1;
 
@@ -612,10 +628,13 @@ linux_kqueue_free(struct kqueue *kq)
      */
     ret = read(kq->pipefd[0], &buffer, 1);
     if (ret == -1 && errno == EWOULDBLOCK) {
-        // Shoudn't happen unless kqops.kqueue_free is called on an open FD
+        // Shoudn't happen unless kqops.kqueue_free is called on an open FD,
+        // or the write end is still open elsewhere.
         dbg_puts("kqueue wasn't closed");
 
-        if (close(kq->pipefd[1]) < 0) {
+        if (!linux_kqueue_id_valid(kq)) {
+            dbg_printf("pipefd[1]=%i - not ours anymore", kq->pipefd[1]);
+        } else if (close(kq->pipefd[1]) < 0) {
             dbg_perror("close(2) - pipefd[1]=%i", kq->pipefd[1]);
         } else {
             dbg_printf("pipefd[1]=%i - closed", kq->pipefd[1]);
-- 
2.43.0


From f764036f64c1baa4e2faf122e10ddfae76179b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:35 +0000
Subject: [PATCH 40/50] fix: EVFILT_VNODE reported NOTE_DELETE or NOTE_LINK at
 random once the watched descriptor was closed

---
 src/linux/vnode.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index 8074ec0..fc627a0 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -227,8 +227,9 @@ scriptors reference the same file.
 
     /* No error checking because fstat(2) should rarely fail */
     //FIXME: EINTR
-    if (fstat(src->kev.ident, &sb) < 0 && errno == ENOENT) {
-        if (src->kev.fflags & NOTE_DELETE)
+    if (fstat(src->kev.ident, &sb) < 0) {
+        /* The caller may have closed the descriptor, in which case nothing's known about the file */
+        if (errno == ENOENT && src->kev.fflags & NOTE_DELETE)
             dst->fflags |= NOTE_DELETE;
     } else {
         if ((evt->mask & IN_ATTRIB || evt->mask & IN_MODIFY)) {
-- 
2.43.0


From 631ec7ce40459bc06c0ec5149c6552936c80d1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:22 +0000
Subject: [PATCH 41/50] fix: kevent() waited without bound for a negative
 timeout instead of failing with EINVAL

---
 src/linux/platform.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 53c388e..d14eac3 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -702,6 +702,12 @@ linux_kevent_wait(struct kqueue *kq, int nevents, const struct timespec *ts)
 {
     int timeout, nret;
 
+    /* epoll_wait() takes a negative timeout as unbounded */
+    if (ts != NULL && ((ts->tv_sec < 0) || (ts->tv_nsec < 0))) {
+        errno = EINVAL;
+        return (-1);
+    }
+
     /* Use a high-resolution syscall if the timeout value's tv_nsec value has a resolution
      * finer than a millisecond. */
     if (ts != NULL && (ts->tv_nsec % 1000000 != 0)) {
-- 
2.43.0


From b4a2e58cee429e0f8759f93b4bc5b5fdae12e4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:50 +0000
Subject: [PATCH 42/50] fix: a timer with data 0 was switched off instead of
 firing at once

---
 src/linux/timer.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/linux/timer.c b/src/linux/timer.c
index 45531cc..6dc2131 100644
--- a/src/linux/timer.c
+++ b/src/linux/timer.c
@@ -89,6 +89,13 @@ convert_timedata_to_itimerspec(struct itimerspec *dst, long src,
 {
     time_t sec, nsec;
 
+    /*
+     * A timer with no length fires at once, and then at the shortest
+     * period the unit allows.
+     */
+    if (src == 0 && !oneshot)
+        src = 1;
+
     switch (flags & NOTE_TIMER_MASK) {
     case NOTE_USECONDS:
         sec = src / 1000000;
@@ -110,6 +117,10 @@ convert_timedata_to_itimerspec(struct itimerspec *dst, long src,
         nsec = (src % 1000) * 1000000;
     }
 
+    /* An all zero it_value would disarm the timer */
+    if (sec == 0 && nsec == 0)
+        nsec = 1;
+
     /* Set the interval */
     if (oneshot) {
         dst->it_interval.tv_sec = 0;
-- 
2.43.0


From 77efdef3858ca2b050d2bc6d76ba063f6b666470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:50 +0000
Subject: [PATCH 43/50] fix: a thread cancelled in kqueue() left a queue behind
 that nothing could close

---
 src/common/kqueue.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index d41086b..f789d31 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -377,6 +377,13 @@ kqueue(void)
     tracing_mutex_init(&kq_mtx, NULL);
 #else
     int prev_cancel_state;
+
+    /*
+     * Only act on cancellation requests whilst there's
+     * no new kqueue which nothing else could close.
+     */
+    pthread_testcancel();
+
     tracing_mutex_lock(&kq_mtx);
     (void) pthread_once(&kq_is_initialized, libkqueue_init);
     tracing_mutex_unlock(&kq_mtx);
@@ -433,8 +440,6 @@ kqueue(void)
     tracing_mutex_unlock(&kq_mtx);
 #ifndef _WIN32
     pthread_setcancelstate(prev_cancel_state, NULL);
-    if (prev_cancel_state == PTHREAD_CANCEL_ENABLE)
-        pthread_testcancel();
 #endif
 
     return (kq->kq_id);
-- 
2.43.0


From 987c44040500591b8e8a92dbd7d09e82f3a523e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:50 +0000
Subject: [PATCH 44/50] fix: a thread cancelled in kevent() took already
 consumed events with it

---
 src/common/kevent.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 8f8e15f..2dd2c82 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -493,9 +493,12 @@ out:
     /*
      *  Test for cancellations first, so we don't
      *  double unlock the kqueue.
+     *
+     *  Don't act on them if we have events to return, those
+     *  have already been consumed, and would be lost.
      */
     pthread_setcancelstate(prev_cancel_state, NULL);
-    if (prev_cancel_state == PTHREAD_CANCEL_ENABLE) {
+    if ((rv <= 0) && (prev_cancel_state == PTHREAD_CANCEL_ENABLE)) {
         dbg_printf("Checking for deferred cancellations");
         pthread_testcancel();
     }
-- 
2.43.0


From e6d36a9ee9e200d5026742a38ee3109faef93163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:26 +0000
Subject: [PATCH 45/50] fix: an EVFILT_VNODE registration for NOTE_EXTEND alone
 was never notified

---
 src/linux/vnode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index fc627a0..bb92531 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -243,7 +243,7 @@ scriptors reference the same file.
                 dst->fflags |= NOTE_TRUNCATE;
 #endif
             if (sb.st_size > src->kn_vnode.size &&
-                src->kev.fflags & NOTE_WRITE)
+                src->kev.fflags & (NOTE_WRITE | NOTE_EXTEND))
                 dst->fflags |= NOTE_EXTEND;
             src->kn_vnode.nlink = sb.st_nlink;
             src->kn_vnode.size = sb.st_size;
-- 
2.43.0


From 80cc1101206aba7cd2a860e131cf1167d2f95c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:26 +0000
Subject: [PATCH 46/50] fix: EVFILT_PROC exit events carried all the requested
 fflags instead of NOTE_EXIT

---
 src/linux/proc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/linux/proc.c b/src/linux/proc.c
index e4f2978..2c78750 100644
--- a/src/linux/proc.c
+++ b/src/linux/proc.c
@@ -81,6 +81,7 @@ evfilt_proc_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
     }
 
     dst->data = status;
+    dst->fflags &= NOTE_EXIT; /* Only what happened, none of the other events which were asked for */
     dst->flags |= EV_EOF; /* Set in macOS and FreeBSD kqueue implementations */
 
     if (knote_copyout_flag_actions(filt, src) < 0) return -1;
-- 
2.43.0


From 71fd77440899222f7ac01a95d463d7d3bf37adaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:14 +0000
Subject: [PATCH 47/50] fix: adding a file registration again without
 EV_DISPATCH left it delivering once only

The surrogate eventfd of a regular file was registered with EPOLLONESHOT for
EV_DISPATCH.  EV_ADD on such a registration clears EV_DISPATCH, but not the
EPOLLONESHOT, so after one event it stayed silent although enabled.  The common
code disables dispatched registrations; nothing else is needed.
---
 src/linux/read.c  | 2 +-
 src/linux/write.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linux/read.c b/src/linux/read.c
index 8df771d..edb5fec 100644
--- a/src/linux/read.c
+++ b/src/linux/read.c
@@ -185,7 +185,7 @@ evfilt_read_knote_create(struct filter *filt, struct knote *kn)
          * See this SO post for details:
          * https://stackoverflow.com/questions/59517961/how-should-i-use-epoll-to-read-and-write-from-the-same-fd
          */
-        if (kn->kev.flags & EV_ONESHOT || kn->kev.flags & EV_DISPATCH)
+        if (kn->kev.flags & EV_ONESHOT)
             kn->epoll_events |= EPOLLONESHOT;
 
         kn->kn_epollfd = filter_epoll_fd(filt);
diff --git a/src/linux/write.c b/src/linux/write.c
index 8acfc28..2d62b02 100644
--- a/src/linux/write.c
+++ b/src/linux/write.c
@@ -106,7 +106,7 @@ evfilt_write_knote_create(struct filter *filt, struct knote *kn)
          * We only set oneshot for cases where we're not going to
          * be using EPOLL_CTL_MOD.
          */
-        if (kn->kev.flags & EV_ONESHOT || kn->kev.flags & EV_DISPATCH)
+        if (kn->kev.flags & EV_ONESHOT)
             kn->epoll_events |= EPOLLONESHOT;
 
         kn->kn_epollfd = filter_epoll_fd(filt);
-- 
2.43.0


From 68a2ef9b2624743152610bbecd7b1af49f8d6cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:27 +0000
Subject: [PATCH 48/50] fix: EV_EOF, EV_ERROR and the other reserved flags of a
 change were kept in the registration

EV_SYSFLAGS are for answers.  A change that carried them (e.g. one made from a
returned event) marked the registration as being at its end or in error: its
events carried EV_EOF or EV_ERROR and its interest was not tracked any more.
---
 src/common/kevent.c | 2 +-
 src/linux/proc.c    | 2 +-
 src/linux/timer.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 2dd2c82..429f648 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -196,7 +196,7 @@ kevent_copyin_one(const struct knote **out, struct kqueue *kq, const struct keve
                 return (-1);
             }
             memcpy(&kn->kev, src, sizeof(kn->kev));
-            kn->kev.flags &= ~(EV_ENABLE | EV_DISABLE);
+            kn->kev.flags &= ~(EV_ENABLE | EV_DISABLE | EV_SYSFLAGS);
             kn->kn_kq = kq;
             assert(filt->kn_create);
             rv = filt->kn_create(filt, kn);
diff --git a/src/linux/proc.c b/src/linux/proc.c
index 2c78750..b8cd3ff 100644
--- a/src/linux/proc.c
+++ b/src/linux/proc.c
@@ -167,7 +167,7 @@ int
 evfilt_proc_knote_modify(struct filter *filt, struct knote *kn, const struct kevent *kev)
 {
     /* We don't need to make any changes to the pidfd, just record the new flags */
-    kn->kev.flags = (kev->flags & ~(EV_ENABLE | EV_DISABLE)) | (kn->kev.flags & (EV_DISABLE | EV_ONESHOT | EV_CLEAR));
+    kn->kev.flags = (kev->flags & ~(EV_ENABLE | EV_DISABLE | EV_SYSFLAGS)) | (kn->kev.flags & (EV_DISABLE | EV_ONESHOT | EV_CLEAR));
     kn->kev.fflags = kev->fflags;
 
     if (kn->kn_procfd < 0) return evfilt_proc_knote_create(filt, kn);
diff --git a/src/linux/timer.c b/src/linux/timer.c
index 6dc2131..99ccd1f 100644
--- a/src/linux/timer.c
+++ b/src/linux/timer.c
@@ -242,7 +242,7 @@ evfilt_timer_knote_modify(struct filter *filt, struct knote *kn,
     }
 
 done:
-    kn->kev.flags = (kev->flags & ~(EV_ENABLE | EV_DISABLE)) | EV_CLEAR | (kn->kev.flags & EV_DISABLE);
+    kn->kev.flags = (kev->flags & ~(EV_ENABLE | EV_DISABLE | EV_SYSFLAGS)) | EV_CLEAR | (kn->kev.flags & EV_DISABLE);
     kn->kev.fflags = kev->fflags;
     kn->kev.data = kev->data;
 
-- 
2.43.0


From e969561b370e5341d897eb45c9f6beca031f077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:55 +0000
Subject: [PATCH 49/50] fix: of the read and the write event for a socket error
 only the first carried the error

---
 src/linux/platform.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index d14eac3..d40e91c 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -920,6 +920,7 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
         {
             struct fd_state   *fds = epoll_udata->ud_fds;
             struct knote      *kn, *write;
+            struct kevent     *rd_el = NULL;
             assert(fds);
 
             /*
@@ -936,6 +937,7 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
 
                 rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn), kn);
                 if (rv < 0) goto done;
+                if (rv > 0) rd_el = el_p;
                 el_p += rv;
             }
 
@@ -951,6 +953,12 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
 
                 rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn), kn);
                 if (rv < 0) goto done;
+
+                /*
+                 * SO_ERROR is cleared by reading it, so the error
+                 * was only available to the read filter.
+                 */
+                if ((rv > 0) && rd_el && (ev->events & EPOLLERR)) el_p->fflags = rd_el->fflags;
                 el_p += rv;
             }
         }
-- 
2.43.0


From 46830c383a94061721834403a2f843897ce9ad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:58 +0000
Subject: [PATCH 50/50] fix: changing an EVFILT_VNODE registration lost the
 notifications already queued for it

---
 src/linux/vnode.c | 48 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index bb92531..1fc0bfa 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -113,12 +113,17 @@ get_one_event(struct inotify_event *dst, size_t len, int inofd)
     return (0);
 }
 
+/** Watch the file for the events in fflags
+ *
+ * If the inotify descriptor already has a watch for the file, its mask is
+ * replaced, and the events which are already queued are kept.
+ */
 static int
-add_watch(struct filter *filt, struct knote *kn)
+set_watch(struct knote *kn, int ifd)
 {
-    int ifd;
     char path[PATH_MAX];
     uint32_t mask;
+    int wd;
 
     /* Convert the fd to a pathname */
     if (linux_fd_to_path(path, sizeof(path), kn->kev.ident) < 0)
@@ -138,6 +143,24 @@ add_watch(struct filter *filt, struct knote *kn)
     if (kn->kev.fflags & NOTE_RENAME)
         mask |= IN_MOVE_SELF;
 
+    /* Add the watch */
+    dbg_printf("inotify_add_watch(2); inofd=%d flags=%s path=%s",
+            ifd, inotify_mask_dump(mask), path);
+    wd = inotify_add_watch(ifd, path, mask);
+    if (wd < 0) {
+        dbg_perror("inotify_add_watch(2)");
+        return (-1);
+    }
+    kn->kev.data = wd;
+
+    return (0);
+}
+
+static int
+add_watch(struct filter *filt, struct knote *kn)
+{
+    int ifd;
+
     /* Create an inotify descriptor */
     ifd = inotify_init1(IN_CLOEXEC);
     if (ifd < 0) {
@@ -149,14 +172,8 @@ add_watch(struct filter *filt, struct knote *kn)
         return (-1);
     }
 
-    /* Add the watch */
-    dbg_printf("inotify_add_watch(2); inofd=%d flags=%s path=%s",
-            ifd, inotify_mask_dump(mask), path);
-    kn->kev.data = inotify_add_watch(ifd, path, mask);
-    if (kn->kev.data < 0) {
-        dbg_perror("inotify_add_watch(2)");
+    if (set_watch(kn, ifd) < 0)
         goto errout;
-    }
 
     /* Add the inotify fd to the epoll set */
     KN_UDATA(kn);   /* populate this knote's kn_udata field */
@@ -287,17 +304,22 @@ evfilt_vnode_knote_create(struct filter *filt, struct knote *kn)
 }
 
 int
-evfilt_vnode_knote_modify(struct filter *filt, struct knote *kn,
+evfilt_vnode_knote_modify(struct filter *filt UNUSED, struct knote *kn,
         const struct kevent *kev)
 {
+    const unsigned int fflags = kn->kev.fflags;
+
     kn->kev.fflags = kev->fflags;
     if (KNOTE_DISABLED(kn))
         return (0);
 
-    /* Replace the watch with one for the new set of fflags */
-    if (delete_watch(filt, kn) < 0)
+    /* Watch for the new set of fflags, without losing the events which are already queued */
+    if (set_watch(kn, kn->kn_vnode.inotifyfd) < 0) {
+        kn->kev.fflags = fflags;
         return (-1);
-    return (add_watch(filt, kn));
+    }
+
+    return (0);
 }
 
 int
-- 
2.43.0

