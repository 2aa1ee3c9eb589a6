prop = 'C09'
needs = 'a process that repeatedly closes its last kqueue and makes a new one later'
breaks = 'the helper thread ends without being detached or joined: each cycle leaves a thread stack behind'
edits = [('src/linux/platform.c', '    res = pthread_detach(pthread_self());', '    res = (kq_cnt > 0) ? pthread_detach(pthread_self()) : 0;')]
demo = r'''#include <sys/types.h>
#include <sys/event.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <pthread.h>
#include <sys/select.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
static int chg(int kq, uintptr_t id, short f, unsigned short fl, unsigned ff, intptr_t data, void *u)
{   /* returns the error of one change (0: applied) */
    struct kevent k, r; struct timespec z = {0, 0};
    EV_SET(&k, id, f, fl | EV_RECEIPT, ff, data, u);
    int n = kevent(kq, &k, 1, &r, 1, &z);
    if (n < 0) return errno ? errno : -1;
    if (n != 1 || !(r.flags & EV_ERROR)) return -2;
    return (int)r.data;
}
static int poll1(int kq, struct kevent *r, int ms)
{
    struct timespec t = { ms / 1000, (ms % 1000) * 1000000L };
    return kevent(kq, NULL, 0, r, 1, &t);
}
static int nfds(void)
{
    int n = 0; for (int i = 0; i < 1024; i++) if (fcntl(i, F_GETFD) >= 0) n++;
    return n;
}
static long vm(void){ long v = 0; FILE *f = fopen("/proc/self/statm", "r"); if (fscanf(f, "%ld", &v) != 1) v = 0; fclose(f); return v * 4; }
static int cyc(void){ int kq = kqueue(); CHECK(kq >= 0); close(kq); usleep(20000); return 0; }
int main(void){ for (int i = 0; i < 10; i++) cyc(); long a = vm(); for (int i = 0; i < 40; i++) cyc(); long b = vm(); CHECK(b - a < 100000); return 0; }'''
