prop = 'C22'
needs = 'a watch for NOTE_WRITE and NOTE_ATTRIB and a plain write to the file'
breaks = 'NOTE_ATTRIB is reported for notifications that are not attribute changes'
edits = [('src/linux/vnode.c', '    if (evt->mask & IN_ATTRIB && src->kev.fflags & NOTE_ATTRIB)', '    if (evt->mask & (IN_ATTRIB | IN_MODIFY) && src->kev.fflags & NOTE_ATTRIB)')]
demo = r'''#include <sys/types.h>
#include <sys/event.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <pthread.h>
#include <sys/select.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
static int chg(int kq, uintptr_t id, short f, unsigned short fl, unsigned ff, intptr_t data, void *u)
{   /* returns the error of one change (0: applied) */
    struct kevent k, r; struct timespec z = {0, 0};
    EV_SET(&k, id, f, fl | EV_RECEIPT, ff, data, u);
    int n = kevent(kq, &k, 1, &r, 1, &z);
    if (n < 0) return errno ? errno : -1;
    if (n != 1 || !(r.flags & EV_ERROR)) return -2;
    return (int)r.data;
}
static int poll1(int kq, struct kevent *r, int ms)
{
    struct timespec t = { ms / 1000, (ms % 1000) * 1000000L };
    return kevent(kq, NULL, 0, r, 1, &t);
}
static int nfds(void)
{
    int n = 0; for (int i = 0; i < 1024; i++) if (fcntl(i, F_GETFD) >= 0) n++;
    return n;
}
int main(void){ int kq = kqueue(); struct kevent r; int fd = open("f", O_CREAT|O_RDWR, 0600); CHECK(write(fd, "abc", 3) == 3);
 CHECK(chg(kq, fd, EVFILT_VNODE, EV_ADD|EV_ONESHOT, NOTE_WRITE|NOTE_ATTRIB, 0, NULL) == 0);
 CHECK(pwrite(fd, "x", 1, 0) == 1);
 CHECK(poll1(kq, &r, 2000) == 1); CHECK(r.fflags == NOTE_WRITE);
 return 0; }'''
