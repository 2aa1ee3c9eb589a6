prop = 'C07'
needs = 'a write registration of a regular file that is disabled'
breaks = 'disabling the write registration of a regular file leaves it armed'
edits = [('src/linux/write.c', '    if (kn->kn_flags & KNFL_FILE) {\n        if (epoll_ctl(kn->kn_epollfd, EPOLL_CTL_DEL, kn->kn_eventfd, NULL) < 0) {\n            dbg_perror("epoll_ctl(2)");\n            return (-1);\n        }\n        kn->kn_registered = 0;\n        return (0);\n    }\n', '    if (kn->kn_flags & KNFL_FILE) {\n        kn->kn_registered = 0;\n        return (0);\n    }\n')]
demo = r'''#include <sys/types.h>
#include <sys/event.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <pthread.h>
#include <sys/select.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
static int chg(int kq, uintptr_t id, short f, unsigned short fl, unsigned ff, intptr_t data, void *u)
{   /* returns the error of one change (0: applied) */
    struct kevent k, r; struct timespec z = {0, 0};
    EV_SET(&k, id, f, fl | EV_RECEIPT, ff, data, u);
    int n = kevent(kq, &k, 1, &r, 1, &z);
    if (n < 0) return errno ? errno : -1;
    if (n != 1 || !(r.flags & EV_ERROR)) return -2;
    return (int)r.data;
}
static int poll1(int kq, struct kevent *r, int ms)
{
    struct timespec t = { ms / 1000, (ms % 1000) * 1000000L };
    return kevent(kq, NULL, 0, r, 1, &t);
}
static int nfds(void)
{
    int n = 0; for (int i = 0; i < 1024; i++) if (fcntl(i, F_GETFD) >= 0) n++;
    return n;
}
int main(void){ int kq = kqueue(); struct kevent r; int fd = open("f", O_CREAT|O_RDWR, 0600);
 CHECK(chg(kq, fd, EVFILT_WRITE, EV_ADD, 0, 0, NULL) == 0); CHECK(chg(kq, fd, EVFILT_WRITE, EV_DISABLE, 0, 0, NULL) == 0);
 CHECK(poll1(kq, &r, 200) == 0); return 0; }'''
