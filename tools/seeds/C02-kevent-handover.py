prop = 'C02'
needs = 'a queue closed while another thread is between looking it up and locking it'
breaks = "kevent() drops the global lock before taking the queue's, so the queue can be freed under it"
edits = [('src/common/kevent.c', '    kqueue_lock(kq);\n\n#ifndef _WIN32\n    pthread_cleanup_push(kevent_release_kq_mutex, kq);\n#endif\n', '    if (libkqueue_thread_safe)\n        tracing_mutex_unlock(&kq_mtx);\n\n    kqueue_lock(kq);\n\n#ifndef _WIN32\n    pthread_cleanup_push(kevent_release_kq_mutex, kq);\n#endif\n'), ('src/common/kevent.c', '     * we release the lock.\n     */\n    if (libkqueue_thread_safe)\n        tracing_mutex_unlock(&kq_mtx);\n#ifndef NDEBUG', '     * we release the lock.\n     */\n#ifndef NDEBUG')]
wrap = 'valgrind -q --error-exitcode=9'
demo = r'''#include <sys/types.h>
#include <sys/event.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <pthread.h>
#include <sys/select.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
static int chg(int kq, uintptr_t id, short f, unsigned short fl, unsigned ff, intptr_t data, void *u)
{   /* returns the error of one change (0: applied) */
    struct kevent k, r; struct timespec z = {0, 0};
    EV_SET(&k, id, f, fl | EV_RECEIPT, ff, data, u);
    int n = kevent(kq, &k, 1, &r, 1, &z);
    if (n < 0) return errno ? errno : -1;
    if (n != 1 || !(r.flags & EV_ERROR)) return -2;
    return (int)r.data;
}
static int poll1(int kq, struct kevent *r, int ms)
{
    struct timespec t = { ms / 1000, (ms % 1000) * 1000000L };
    return kevent(kq, NULL, 0, r, 1, &t);
}
static int nfds(void)
{
    int n = 0; for (int i = 0; i < 1024; i++) if (fcntl(i, F_GETFD) >= 0) n++;
    return n;
}
#include <dlfcn.h>
#include <stdatomic.h>
static __thread int slow; static _Atomic int window;
int pthread_mutex_unlock(pthread_mutex_t *m)   /* a long pause after the first unlock of the armed thread */
{ static int (*f)(pthread_mutex_t *); if (!f) f = dlsym(RTLD_NEXT, "pthread_mutex_unlock"); int r = f(m);
  if (slow) { slow = 0; window = 1; usleep(500000); } return r; }
static int kq;
static void *t(void *a){ struct timespec z = {0,0}; struct kevent k, r; EV_SET(&k, 1, EVFILT_USER, EV_ADD|EV_RECEIPT, 0, 0, NULL); slow = 1; kevent(kq, &k, 1, &r, 1, &z); return NULL; }
int main(void){ pthread_t p; kqueue(); kq = kqueue(); alarm(20); pthread_create(&p, NULL, t, NULL); while (!window) usleep(100); close(kq); pthread_join(p, NULL); usleep(200000); _exit(0); }'''
