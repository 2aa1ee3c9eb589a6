prop = 'C30'
needs = 'a version query followed by a setting made without EV_RECEIPT'
breaks = 'a setting without EV_RECEIPT is answered after a query was made'
edits = [('src/common/libkqueue.c', '    memcpy(&kn->kev, kev, sizeof(kn->kev));\n    return common_libkqueue_knote_create(filt, kn);', '    kn->kev.flags |= kev->flags;\n    kn->kev.fflags = kev->fflags;\n    kn->kev.data = kev->data;\n    kn->kev.udata = kev->udata;\n    return common_libkqueue_knote_create(filt, kn);')]
demo = r'''#include <sys/types.h>
#include <sys/event.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <pthread.h>
#include <sys/select.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
static int chg(int kq, uintptr_t id, short f, unsigned short fl, unsigned ff, intptr_t data, void *u)
{   /* returns the error of one change (0: applied) */
    struct kevent k, r; struct timespec z = {0, 0};
    EV_SET(&k, id, f, fl | EV_RECEIPT, ff, data, u);
    int n = kevent(kq, &k, 1, &r, 1, &z);
    if (n < 0) return errno ? errno : -1;
    if (n != 1 || !(r.flags & EV_ERROR)) return -2;
    return (int)r.data;
}
static int poll1(int kq, struct kevent *r, int ms)
{
    struct timespec t = { ms / 1000, (ms % 1000) * 1000000L };
    return kevent(kq, NULL, 0, r, 1, &t);
}
static int nfds(void)
{
    int n = 0; for (int i = 0; i < 1024; i++) if (fcntl(i, F_GETFD) >= 0) n++;
    return n;
}
int main(void){ int kq = kqueue(); struct kevent k, r; struct timespec z = {0, 0};
 EV_SET(&k, 0, EVFILT_LIBKQUEUE, EV_ADD, NOTE_VERSION, 0, NULL); CHECK(kevent(kq, &k, 1, &r, 1, &z) == 1);
 EV_SET(&k, 0, EVFILT_LIBKQUEUE, EV_ADD, NOTE_FORK_CLEANUP, 1, NULL); CHECK(kevent(kq, &k, 1, &r, 1, &z) == 0);
 return 0; }'''
