prop = 'C27'
needs = 'a connection reset by the peer on a socket watched for writing only'
breaks = 'a write event for a connection that is both hung up and in error carries no error in fflags'
edits = [('src/linux/write.c', '    if (ev->events & EPOLLHUP)\n        dst->flags |= EV_EOF;\n\n    if (ev->events & EPOLLERR) {', '    if (ev->events & EPOLLHUP) {\n        dst->flags |= EV_EOF;\n    } else if (ev->events & EPOLLERR) {')]
demo = r'''#include <sys/types.h>
#include <sys/event.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <pthread.h>
#include <sys/select.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
static int chg(int kq, uintptr_t id, short f, unsigned short fl, unsigned ff, intptr_t data, void *u)
{   /* returns the error of one change (0: applied) */
    struct kevent k, r; struct timespec z = {0, 0};
    EV_SET(&k, id, f, fl | EV_RECEIPT, ff, data, u);
    int n = kevent(kq, &k, 1, &r, 1, &z);
    if (n < 0) return errno ? errno : -1;
    if (n != 1 || !(r.flags & EV_ERROR)) return -2;
    return (int)r.data;
}
static int poll1(int kq, struct kevent *r, int ms)
{
    struct timespec t = { ms / 1000, (ms % 1000) * 1000000L };
    return kevent(kq, NULL, 0, r, 1, &t);
}
static int nfds(void)
{
    int n = 0; for (int i = 0; i < 1024; i++) if (fcntl(i, F_GETFD) >= 0) n++;
    return n;
}
int main(void)
{
    struct sockaddr_in a = { .sin_family = AF_INET }; socklen_t n = sizeof(a);
    struct kevent r; struct linger lg = { 1, 0 };
    alarm(60);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    int l = socket(AF_INET, SOCK_STREAM, 0);
    CHECK(bind(l, (void *)&a, n) == 0 && listen(l, 1) == 0 && getsockname(l, (void *)&a, &n) == 0);
    int c = socket(AF_INET, SOCK_STREAM, 0);
    CHECK(connect(c, (void *)&a, n) == 0);
    int s = accept(l, NULL, NULL);
    CHECK(s >= 0 && setsockopt(s, SOL_SOCKET, SO_LINGER, &lg, sizeof(lg)) == 0);
    close(s); usleep(100000);
    int kq = kqueue();
    CHECK(chg(kq, c, EVFILT_WRITE, EV_ADD, 0, 0, NULL) == 0);
    CHECK(poll1(kq, &r, 2000) == 1 && r.filter == EVFILT_WRITE);
    CHECK(r.flags & EV_EOF);
    CHECK(r.fflags == ECONNRESET);
    return 0;
}
'''
