prop = 'C03'
needs = 'a thread cancelled while it waits in kevent() and another thread that calls kevent() on the same queue meanwhile'
breaks = 'the cancellation handler takes the global mutex while the queue is locked, the reverse of the order used everywhere else'
edits = [('src/common/kevent.c', '    struct kqueue *kq = arg;\n    dbg_printf("Unlocking kq=%p due to cancellation", kq);\n    kqueue_unlock(kq);\n', '    struct kqueue *kq = arg;\n    dbg_printf("Unlocking kq=%p due to cancellation", kq);\n    tracing_mutex_lock(&kq_mtx);\n    kqueue_unlock(kq);\n    tracing_mutex_unlock(&kq_mtx);\n')]
demo = r'''#include <sys/types.h>
#include <sys/event.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <pthread.h>
#include <sys/select.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
static int chg(int kq, uintptr_t id, short f, unsigned short fl, unsigned ff, intptr_t data, void *u)
{   /* returns the error of one change (0: applied) */
    struct kevent k, r; struct timespec z = {0, 0};
    EV_SET(&k, id, f, fl | EV_RECEIPT, ff, data, u);
    int n = kevent(kq, &k, 1, &r, 1, &z);
    if (n < 0) return errno ? errno : -1;
    if (n != 1 || !(r.flags & EV_ERROR)) return -2;
    return (int)r.data;
}
static int poll1(int kq, struct kevent *r, int ms)
{
    struct timespec t = { ms / 1000, (ms % 1000) * 1000000L };
    return kevent(kq, NULL, 0, r, 1, &t);
}
static int nfds(void)
{
    int n = 0; for (int i = 0; i < 1024; i++) if (fcntl(i, F_GETFD) >= 0) n++;
    return n;
}
static int kq;
static void *w1(void *a){ struct kevent r; kevent(kq, NULL, 0, &r, 1, NULL); return NULL; }
static void *w2(void *a){ struct kevent r; struct timespec z = {0, 0}; kevent(kq, NULL, 0, &r, 1, &z); return NULL; }
int main(void){ pthread_t a, b; alarm(20); kq = kqueue(); CHECK(kq >= 0);
 pthread_create(&a, NULL, w1, NULL); usleep(200000); pthread_create(&b, NULL, w2, NULL); usleep(200000);
 pthread_cancel(a); pthread_join(a, NULL); pthread_join(b, NULL); return 0; }'''
