prop = 'C29'
needs = 'EV_CLEAR on a file and two different changes to it between two calls'
breaks = 'the second notification stays in the kernel without being announced again'
edits = [('src/linux/vnode.c', 'EPOLL_CTL_ADD, ifd, EPOLL_EV_KN(EPOLLIN, kn)', 'EPOLL_CTL_ADD, ifd,\n                  EPOLL_EV_KN(EPOLLIN | ((kn->kev.flags & EV_CLEAR) ? EPOLLET : 0), kn)')]
demo = r'''#include <sys/types.h>
#include <sys/event.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <pthread.h>
#include <sys/select.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
static int chg(int kq, uintptr_t id, short f, unsigned short fl, unsigned ff, intptr_t data, void *u)
{   /* returns the error of one change (0: applied) */
    struct kevent k, r; struct timespec z = {0, 0};
    EV_SET(&k, id, f, fl | EV_RECEIPT, ff, data, u);
    int n = kevent(kq, &k, 1, &r, 1, &z);
    if (n < 0) return errno ? errno : -1;
    if (n != 1 || !(r.flags & EV_ERROR)) return -2;
    return (int)r.data;
}
static int poll1(int kq, struct kevent *r, int ms)
{
    struct timespec t = { ms / 1000, (ms % 1000) * 1000000L };
    return kevent(kq, NULL, 0, r, 1, &t);
}
static int nfds(void)
{
    int n = 0; for (int i = 0; i < 1024; i++) if (fcntl(i, F_GETFD) >= 0) n++;
    return n;
}
int main(void)
{
    struct kevent r; unsigned seen = 0;
    alarm(60);
    char p[] = "/tmp/kqdemoXXXXXX", q[64];
    int fd = mkstemp(p);
    CHECK(fd >= 0);
    snprintf(q, sizeof(q), "%s.b", p);
    int kq = kqueue();
    CHECK(chg(kq, fd, EVFILT_VNODE, EV_ADD | EV_CLEAR, NOTE_WRITE | NOTE_RENAME, 0, NULL) == 0);
    CHECK(write(fd, "x", 1) == 1);
    CHECK(rename(p, q) == 0);
    for (int i = 0; i < 4 && poll1(kq, &r, 200) == 1; i++) seen |= r.fflags;
    unlink(q);
    CHECK(seen & NOTE_WRITE);
    CHECK(seen & NOTE_RENAME);
    return 0;
}
'''
