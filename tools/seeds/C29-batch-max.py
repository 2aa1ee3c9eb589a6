prop = 'C29'
needs = 'more one-shot sources ready than the event list has entries'
breaks = 'epoll_wait takes more events than there is room for; those of one-shot sources are lost'
edits = [('src/linux/platform.c', '    nret = epoll_wait(kqueue_epoll_fd(kq), epoll_events, nevents, timeout);', '    nret = epoll_wait(kqueue_epoll_fd(kq), epoll_events, MAX_KEVENT, timeout);')]
demo = r'''#include <sys/types.h>
#include <sys/event.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <pthread.h>
#include <sys/select.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
static int chg(int kq, uintptr_t id, short f, unsigned short fl, unsigned ff, intptr_t data, void *u)
{   /* returns the error of one change (0: applied) */
    struct kevent k, r; struct timespec z = {0, 0};
    EV_SET(&k, id, f, fl | EV_RECEIPT, ff, data, u);
    int n = kevent(kq, &k, 1, &r, 1, &z);
    if (n < 0) return errno ? errno : -1;
    if (n != 1 || !(r.flags & EV_ERROR)) return -2;
    return (int)r.data;
}
static int poll1(int kq, struct kevent *r, int ms)
{
    struct timespec t = { ms / 1000, (ms % 1000) * 1000000L };
    return kevent(kq, NULL, 0, r, 1, &t);
}
static int nfds(void)
{
    int n = 0; for (int i = 0; i < 1024; i++) if (fcntl(i, F_GETFD) >= 0) n++;
    return n;
}
int main(void){ int kq = kqueue(); struct kevent r; int n = 0;
 for (int i = 0; i < 3; i++) CHECK(chg(kq, i + 1, EVFILT_TIMER, EV_ADD | EV_ONESHOT, 0, 20, NULL) == 0);
 usleep(100000);
 for (int i = 0; i < 6; i++) if (poll1(kq, &r, 50) == 1) n++;
 CHECK(n == 3); return 0; }'''
