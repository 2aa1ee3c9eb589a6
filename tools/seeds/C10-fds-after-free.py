prop = 'C10'
needs = 'a one-shot read event delivered on a descriptor that is not registered for writing'
breaks = 'the descriptor state is read after delivery of the read event freed it'
edits = [('src/linux/platform.c', '            struct knote      *kn, *write;\n            struct kevent     *rd_el = NULL;\n            assert(fds);\n\n            /*\n             * fds can be freed after the first linux_kevent_copyout_ev\n             * so cache the pointer value here.\n             */\n            write = fds->fds_write;\n', '            struct knote      *kn;\n            struct kevent     *rd_el = NULL;\n            assert(fds);\n'), ('src/linux/platform.c', '            if ((kn = write) && ', '            if ((kn = fds->fds_write) && ')]
wrap = 'valgrind -q --error-exitcode=9'
demo = r'''#include <sys/types.h>
#include <sys/event.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <pthread.h>
#include <sys/select.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
static int chg(int kq, uintptr_t id, short f, unsigned short fl, unsigned ff, intptr_t data, void *u)
{   /* returns the error of one change (0: applied) */
    struct kevent k, r; struct timespec z = {0, 0};
    EV_SET(&k, id, f, fl | EV_RECEIPT, ff, data, u);
    int n = kevent(kq, &k, 1, &r, 1, &z);
    if (n < 0) return errno ? errno : -1;
    if (n != 1 || !(r.flags & EV_ERROR)) return -2;
    return (int)r.data;
}
static int poll1(int kq, struct kevent *r, int ms)
{
    struct timespec t = { ms / 1000, (ms % 1000) * 1000000L };
    return kevent(kq, NULL, 0, r, 1, &t);
}
static int nfds(void)
{
    int n = 0; for (int i = 0; i < 1024; i++) if (fcntl(i, F_GETFD) >= 0) n++;
    return n;
}
int main(void){ int kq = kqueue(); struct kevent r; int p[2]; CHECK(pipe(p) == 0);
 CHECK(chg(kq, p[0], EVFILT_READ, EV_ADD|EV_ONESHOT, 0, 0, NULL) == 0);
 CHECK(write(p[1], "x", 1) == 1); CHECK(poll1(kq, &r, 1000) == 1);
 _exit(0); }'''
