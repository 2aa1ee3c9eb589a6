prop = 'C02'
needs = 'two threads waiting on different queues at the same time'
breaks = "the buffer with the kernel's answers is shared by all threads, so one thread may deliver the other queue's events"
edits = [('src/linux/platform.c', 'static __thread struct epoll_event', 'static struct epoll_event')]
demo = r'''#include <sys/types.h>
#include <sys/event.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <pthread.h>
#include <sys/select.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
static int chg(int kq, uintptr_t id, short f, unsigned short fl, unsigned ff, intptr_t data, void *u)
{   /* returns the error of one change (0: applied) */
    struct kevent k, r; struct timespec z = {0, 0};
    EV_SET(&k, id, f, fl | EV_RECEIPT, ff, data, u);
    int n = kevent(kq, &k, 1, &r, 1, &z);
    if (n < 0) return errno ? errno : -1;
    if (n != 1 || !(r.flags & EV_ERROR)) return -2;
    return (int)r.data;
}
static int poll1(int kq, struct kevent *r, int ms)
{
    struct timespec t = { ms / 1000, (ms % 1000) * 1000000L };
    return kevent(kq, NULL, 0, r, 1, &t);
}
static int nfds(void)
{
    int n = 0; for (int i = 0; i < 1024; i++) if (fcntl(i, F_GETFD) >= 0) n++;
    return n;
}
static int kqs[2]; static volatile int bad, stop;
static void *w(void *a){ long i = (long)a; struct kevent r; struct timespec t = {0, 20000000};
 for (int n = 0; n < 200000 && !bad; n++) { int c = kevent(kqs[i], NULL, 0, &r, 1, &t); if (c == 1 && (long)r.udata != i + 10) bad = 1; if (c < 0) bad = 1; } return NULL; }
int main(void){ pthread_t t[2]; for (long i = 0; i < 2; i++) { kqs[i] = kqueue(); CHECK(chg(kqs[i], 7, EVFILT_USER, EV_ADD, 0, 0, (void *)(i + 10)) == 0); CHECK(chg(kqs[i], 7, EVFILT_USER, 0, NOTE_TRIGGER, 0, (void *)(i + 10)) == 0); }
 for (long i = 0; i < 2; i++) pthread_create(&t[i], NULL, w, (void *)i);
 for (int i = 0; i < 2; i++) pthread_join(t[i], NULL); CHECK(!bad); return 0; }'''
