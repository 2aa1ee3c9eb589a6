prop = 'C15'
needs = 'kqueue() with exactly one descriptor left in the process'
breaks = 'the epoll descriptor made before the failing pipe2() is kept: a failed kqueue() takes a descriptor away for good'
edits = [('src/linux/platform.c', '        if (close(kq->epollfd) < 0)\n            dbg_perror("close(2)");\n        kq->epollfd = -1;\n\n        return (-1);', '        dbg_perror("pipe2(2)");\n        kq->epollfd = -1;\n\n        return (-1);')]
demo = r'''#include <sys/types.h>
#include <sys/event.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <pthread.h>
#include <sys/select.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
static int chg(int kq, uintptr_t id, short f, unsigned short fl, unsigned ff, intptr_t data, void *u)
{   /* returns the error of one change (0: applied) */
    struct kevent k, r; struct timespec z = {0, 0};
    EV_SET(&k, id, f, fl | EV_RECEIPT, ff, data, u);
    int n = kevent(kq, &k, 1, &r, 1, &z);
    if (n < 0) return errno ? errno : -1;
    if (n != 1 || !(r.flags & EV_ERROR)) return -2;
    return (int)r.data;
}
static int poll1(int kq, struct kevent *r, int ms)
{
    struct timespec t = { ms / 1000, (ms % 1000) * 1000000L };
    return kevent(kq, NULL, 0, r, 1, &t);
}
static int nfds(void)
{
    int n = 0; for (int i = 0; i < 1024; i++) if (fcntl(i, F_GETFD) >= 0) n++;
    return n;
}
int main(void){ int kq = kqueue(); CHECK(kq >= 0); struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = 256; setrlimit(RLIMIT_NOFILE, &rl);
 int f[256], n = 0; while ((f[n] = dup(0)) >= 0) n++; close(f[--n]); int b = nfds();
 for (int i = 0; i < 3; i++) { CHECK(kqueue() == -1); CHECK(nfds() == b); } return 0; }'''
