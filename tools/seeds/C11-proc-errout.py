prop = 'C11'
needs = 'EVFILT_PROC changed from fflags 0 to NOTE_EXIT while epoll_ctl() fails, then deleted after the application got the number'
breaks = 'closes a descriptor of the application that reuses the number of the closed pidfd'
edits = [('src/linux/proc.c', "        close(pfd);\n        kn->kn_procfd = -1;\n        return (-1);", "        close(pfd);\n        return (-1);")]
demo = r'''#include <sys/epoll.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/event.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <pthread.h>
#include <sys/select.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
static int chg(int kq, uintptr_t id, short f, unsigned short fl, unsigned ff, intptr_t data, void *u)
{   /* returns the error of one change (0: applied) */
    struct kevent k, r; struct timespec z = {0, 0};
    EV_SET(&k, id, f, fl | EV_RECEIPT, ff, data, u);
    int n = kevent(kq, &k, 1, &r, 1, &z);
    if (n < 0) return errno ? errno : -1;
    if (n != 1 || !(r.flags & EV_ERROR)) return -2;
    return (int)r.data;
}
static int poll1(int kq, struct kevent *r, int ms)
{
    struct timespec t = { ms / 1000, (ms % 1000) * 1000000L };
    return kevent(kq, NULL, 0, r, 1, &t);
}
static int nfds(void)
{
    int n = 0; for (int i = 0; i < 1024; i++) if (fcntl(i, F_GETFD) >= 0) n++;
    return n;
}
static int fail;
int epoll_ctl(int e, int op, int fd, struct epoll_event *ev)
{
    if (fail && op == EPOLL_CTL_ADD) { errno = ENOMEM; return -1; }
    return (int)syscall(SYS_epoll_ctl, e, op, fd, ev);
}
int main(void)
{
    pid_t c = fork(); CHECK(c >= 0);
    if (c == 0) { sleep(20); _exit(0); }
    int kq = kqueue(); CHECK(kq >= 0);
    CHECK(chg(kq, c, EVFILT_PROC, EV_ADD, 0, 0, 0) == 0);
    fail = 1;
    int e = chg(kq, c, EVFILT_PROC, EV_ADD, NOTE_EXIT, 0, 0);
    fail = 0;
    int ok = 1, fd[3];
    if (e > 0) {
        for (int i = 0; i < 3; i++) fd[i] = dup(2);
        chg(kq, c, EVFILT_PROC, EV_DELETE, 0, 0, 0);
        for (int i = 0; i < 3; i++) if (fcntl(fd[i], F_GETFD) < 0) ok = 0;
    }
    kill(c, SIGKILL); waitpid(c, NULL, 0);
    CHECK(e > 0); CHECK(ok);
    return 0;
}
'''
