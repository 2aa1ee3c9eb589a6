prop = 'C08'
needs = 'a second direction added to a descriptor whose first direction is already registered'
breaks = 'adding the other direction leaves the kernel set as it is, so the new direction never wakes kevent()'
edits = [('src/linux/platform.c', "    else if (have_ev != want_ev)        /* There's events but they're not what we want */", "    else if (have_ev & ~want_ev)        /* There's events but they're not what we want */")]
demo = r'''#include <sys/types.h>
#include <sys/event.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <pthread.h>
#include <sys/select.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
static int chg(int kq, uintptr_t id, short f, unsigned short fl, unsigned ff, intptr_t data, void *u)
{   /* returns the error of one change (0: applied) */
    struct kevent k, r; struct timespec z = {0, 0};
    EV_SET(&k, id, f, fl | EV_RECEIPT, ff, data, u);
    int n = kevent(kq, &k, 1, &r, 1, &z);
    if (n < 0) return errno ? errno : -1;
    if (n != 1 || !(r.flags & EV_ERROR)) return -2;
    return (int)r.data;
}
static int poll1(int kq, struct kevent *r, int ms)
{
    struct timespec t = { ms / 1000, (ms % 1000) * 1000000L };
    return kevent(kq, NULL, 0, r, 1, &t);
}
static int nfds(void)
{
    int n = 0; for (int i = 0; i < 1024; i++) if (fcntl(i, F_GETFD) >= 0) n++;
    return n;
}
int main(void){ int kq = kqueue(), sv[2]; struct kevent r[2]; CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, sv) == 0);
 CHECK(chg(kq, sv[0], EVFILT_READ, EV_ADD, 0, 0, NULL) == 0); CHECK(chg(kq, sv[0], EVFILT_WRITE, EV_ADD, 0, 0, NULL) == 0);
 CHECK(poll1(kq, r, 500) == 1 && r[0].filter == EVFILT_WRITE); return 0; }'''
