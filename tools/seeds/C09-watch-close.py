prop = 'C09'
needs = 'a registration whose inotify_add_watch() fails (an unlinked file, watch limit)'
breaks = 'the inotify descriptor of the failed registration is never closed'
edits = [('src/linux/vnode.c', "errout:\n    inotify_rm_watch(ifd, kn->kev.data);\n    kn->kn_vnode.inotifyfd = -1;\n    (void) close(ifd);", "errout:\n    kn->kn_vnode.inotifyfd = -1;\n    if (inotify_rm_watch(ifd, kn->kev.data) == 0)\n        (void) close(ifd);")]
demo = r'''#include <sys/types.h>
#include <sys/event.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <pthread.h>
#include <sys/select.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
static int chg(int kq, uintptr_t id, short f, unsigned short fl, unsigned ff, intptr_t data, void *u)
{   /* returns the error of one change (0: applied) */
    struct kevent k, r; struct timespec z = {0, 0};
    EV_SET(&k, id, f, fl | EV_RECEIPT, ff, data, u);
    int n = kevent(kq, &k, 1, &r, 1, &z);
    if (n < 0) return errno ? errno : -1;
    if (n != 1 || !(r.flags & EV_ERROR)) return -2;
    return (int)r.data;
}
static int poll1(int kq, struct kevent *r, int ms)
{
    struct timespec t = { ms / 1000, (ms % 1000) * 1000000L };
    return kevent(kq, NULL, 0, r, 1, &t);
}
static int nfds(void)
{
    int n = 0; for (int i = 0; i < 1024; i++) if (fcntl(i, F_GETFD) >= 0) n++;
    return n;
}
int main(void)
{
    char p[] = "/tmp/c09wXXXXXX"; int fd = mkstemp(p); CHECK(fd >= 0);
    CHECK(unlink(p) == 0);
    int kq = kqueue(); CHECK(kq >= 0);
    int e = chg(kq, fd, EVFILT_VNODE, EV_ADD, NOTE_WRITE, 0, 0);
    fprintf(stderr, "errno %d\n", e);
    CHECK(e > 0);
    int n = nfds();
    for (int i = 0; i < 5; i++) CHECK(chg(kq, fd, EVFILT_VNODE, EV_ADD, NOTE_WRITE, 0, 0) > 0);
    CHECK(nfds() == n);
    return 0;
}
'''
