"""Lock-set, lock-order and thread-context facts gathered while the abstract
interpreter walks the code: who touches which shared object under which locks,
which lock is taken while which other is held, what a thread may wait for while
holding a lock, and with which signals blocked a library thread runs.

Locks are named relative to the object they protect: a mutex embedded in a heap
object (a queue) is 'own' for that object and everything created under it, a
mutex in a global variable keeps its name; so facts of different histories and
queues can be compared with each other (facts() is merged over all analyses).
"""
from .domain import *
from .engine import show

ATOMIC_SAFE = {   # POSIX async-signal-safe, plus what the POSIX rationale for pthread_atfork relies on
    'close', 'read', 'write', 'fcntl', 'fcntl64', 'open', 'open64', 'dup', 'dup2', 'dup3', 'epoll_ctl', '_exit', 'getpid', 'getppid', 'kill', 'lseek', 'poll', 'select',
    'pthread_kill', 'pthread_self', 'pthread_sigmask', 'sigprocmask', 'sigaction', 'sigaddset', 'sigdelset', 'sigemptyset', 'sigfillset', 'sigismember',
    'time', 'clock_gettime', 'wait', 'waitpid', '__errno_location', 'memset', 'memcpy', 'memmove', 'strlen', 'fstat', 'fstat64', 'stat', 'lstat',
    'pthread_mutex_unlock', 'pthread_mutex_init', 'syscall', 'gettid', 'pipe', 'pipe2', 'eventfd', 'abort', 'getdtablesize'}
WAITS = {'epoll_wait': 3, 'epoll_pwait': 3, 'poll': 2, 'select': None, 'pselect': None, 'ppoll': None, 'sigwait': None, 'sigwaitinfo': None, 'sigtimedwait': None,
         'nanosleep': None, 'clock_nanosleep': None, 'sleep': None, 'usleep': None, 'pause': None, 'sigsuspend': None, 'waitpid': None, 'wait': None}
CONFIG = {'libkqueue_thread_safe', 'libkqueue_fork_cleanup', 'libkqueue_fork_cleanup_active', 'libkqueue_debug', 'libkqueue_in_child'}

def attach(eng): eng.conc = Conc(eng); return eng.conc

class Conc:
    def __init__(self, eng):
        self.acc = {}        # (class, off, size) -> {(mode, locks, role): (where, function, history)}
        self.edges = {}      # (lock, lock) -> (where, function, history)
        self.once = set()
        self.nacc = 0
        eng.access = self.access
        for n in ('lock', 'unlock', 'create', 'sigmask', 'ext', 'free', 'condwait'): eng.hooks[n] = getattr(self, n)
        self.eng = eng
    # ---- names
    def lname(self, st, key, own=None):
        oid = key[1]
        if type(oid) is tuple: return oid[1]
        return 'own' if oid == own else None
    def cname(self, st, key):
        oid = key[1]
        if type(oid) is tuple: return oid[1]
        o = st.objs.get(oid)
        return 'lock inside the object allocated in %s' % (o.name if o else '?')
    def held(self, st, th):
        inh = st.ghost.get('inh')
        if inh and th.tid in inh: return th.held + tuple(inh[th.tid][1])
        return th.held
    def role(self, st, th):
        if th.tid == 0:
            for g in th.frames:
                if g.fn.name in self.once: return 'once'
            return 'exit' if st.ghost.get('inexit') else 'app'
        return th.role
    def where(self, st, th, I):
        f = th.frames[-1] if th.frames else None
        return (I.loc() if I is not None else '?', f.fn.name if f else '?', tuple(st.history()[-6:]))
    # ---- data accesses
    def access(self, eng, st, oid, o, off, sz, mode, I):
        if not o.pub or mode == 'M' or st.k.child: return
        th = st.threads[st.cur]
        if type(oid) is tuple:
            if oid[0] != 'g': return
            name = oid[1]; own = None
            if name in CONFIG or name.startswith('.str') or name.startswith('libkqueue_debug'): return
        else:
            name = o.site
            ow = st.ghost.get('own') or {}
            own = ow.get(oid)
            if own is None:
                for k in th.held:
                    if type(k[1]) is not tuple: own = k[1]; break
                if (('p', oid) in [k[:2] for k in st.k.mtype if k[1] == oid]) : own = oid
                if own is not None:
                    ow = dict(ow); ow[oid] = own; st.ghost['own'] = ow
            if own is not None and own in (st.ghost.get('priv') or ()): return
        r = self.role(st, th)
        if r == 'once': return
        hl = self.held(st, th)
        locks = frozenset(n for n in (self.lname(st, k, own) for k in hl) if n)
        if own is not None and 'own' not in locks and self.private(st, th, own): return
        if type(off) is not int: off = '*'
        self.nacc += 1; eng.oblige('C02.access')
        d = self.acc.setdefault((name, o.name if type(oid) is not tuple else '', off, sz if type(sz) is int else 8), {})
        k = (mode, locks, r)
        if k not in d: d[k] = self.where(st, th, I)
    # ---- locks
    def lock(self, eng, st, th, key, I):
        if st.k.child: return
        for h in self.held(st, th):
            a, b = self.cname(st, h), self.cname(st, key)
            if h == key: continue
            if (a, b) not in self.edges: self.edges[(a, b)] = self.where(st, th, I)
        eng.oblige('C03.acquire')
        if type(key[1]) is not tuple:
            o = st.objs.get(key[1])
            if o is not None and o.pub:
                self.life(st, th, key[1], o, 'R', I)
            if any(type(h[1]) is tuple for h in th.held):
                acq = dict(st.ghost.get('acq') or {}); acq[key[1]] = (th.tid, frozenset(h for h in th.held if type(h[1]) is tuple)); st.ghost['acq'] = acq
    def life(self, st, th, oid, o, mode, I, locks=None):
        if locks is None: locks = frozenset(n for n in (self.lname(st, k) for k in self.held(st, th)) if n)
        d = self.acc.setdefault((o.site, o.name, 'lifetime', 1), {})
        k = (mode, locks, self.role(st, th))
        if k not in d: d[k] = self.where(st, th, I)
        self.eng.oblige('C02.lifetime')
    def private(self, st, th, oid):
        """the object was taken out of every global index in the critical section in which this thread had its lock"""
        a = (st.ghost.get('acq') or {}).get(oid)
        if a is None or a[0] != th.tid: return False
        if self.reachable(st, oid): return False
        st.ghost['priv'] = frozenset(st.ghost.get('priv') or ()) | {oid}
        pl = dict(st.ghost.get('privlocks') or {}); pl[oid] = a[1]; st.ghost['privlocks'] = pl
        return True
    def reachable(self, st, oid):
        todo = [k for k in st.objs if type(k) is tuple and k[0] == 'g']; seen = set(todo)
        while todo:
            o = st.objs.get(todo.pop())
            if o is None or o.freed is not None: continue
            for s, v in o.cells.values():
                if type(v) is tuple and v[0] == 'p' and v[1] not in seen:
                    if v[1] == oid: return True
                    t = st.objs.get(v[1])
                    if t is None: continue
                    seen.add(v[1]); todo.append(v[1])
        return False
    def unlock(self, eng, st, th, key, I):
        inh = st.ghost.get('inh')
        if inh:
            n = {}
            for t, (cr, ks, sig) in inh.items():
                if t == th.tid and sig: continue
                if cr == th.tid: ks = tuple(k for k in ks if k != key)
                n[t] = (cr, ks, sig)
            st.ghost['inh'] = n
        acq = st.ghost.get('acq')
        if acq and not st.k.child:
            for oid, (tid, gs) in list(acq.items()):
                if tid != th.tid: continue
                if key in gs:
                    self.private(st, th, oid)
                    acq = dict(acq); acq.pop(oid, None); st.ghost['acq'] = acq
    def condwait(self, eng, st, th, key, I):
        self.unlock(eng, st, th, key, I)
    def free(self, eng, st, th, oid, o, I):
        if not o.pub or st.k.child: return
        if not any(k[1] == oid for k in st.k.mtype): return
        eng.oblige('C02.release')
        if oid in (st.ghost.get('priv') or ()) or self.private(st, th, oid):
            gl = (st.ghost.get('privlocks') or {}).get(oid, frozenset())
            self.life(st, th, oid, o, 'W', I, frozenset(n for n in (self.lname(st, k) for k in gl) if n))
        else:
            eng.violate(st, 'C02', 'released-in-use', I, 'the queue allocated at %s is freed although another thread may still be inside an operation on it: its lock was not '
                        'acquired and the queue taken out of the registry within one critical section of the registry lock' % o.site, key=('released-in-use', o.site))
    # ---- threads
    def create(self, eng, st, th, n):
        inh = dict(st.ghost.get('inh') or {}); inh[n.tid] = (th.tid, self.held(st, th), False); st.ghost['inh'] = inh
        eng.oblige('C23.thread-start')
        if th.sigmask != ('all',):
            I = None
            f = th.frames[-1]; I = f.fn.blocks[f.bb][f.ip]
            eng.violate(st, 'C23', 'thread-start-mask', I, 'the thread %s is created with the application\'s signal mask: until it blocks them itself, the application\'s signal '
                        'handlers can run on it' % n.role, key=('start', n.role))
    def sigmask(self, eng, st, th, I, how, w):
        th = st.threads[st.cur]
        eng.oblige('C23.sigmask')
        if th.tid != 0 and th.sigmask != ('all',):
            eng.violate(st, 'C23', 'thread-unblocks', I, 'library thread %s unblocks signals (or leaves some unblocked): application signal handlers can run on it' % th.role,
                        key=('unblock', th.role, I.loc()))
    def ext(self, eng, st, th, I, name, a):
        if name == 'pthread_once': 
            if type(a[1]) is tuple: self.once.add(a[1][1])
            return
        if th.tid != 0:
            eng.oblige('C23.thread-call')
            if th.sigmask != ('all',) and name not in ('sigfillset', 'sigemptyset', 'sigaddset', 'sigdelset', 'pthread_sigmask', 'sigprocmask', 'llvm.threadlocal.address'):
                eng.violate(st, 'C23', 'thread-mask', I, 'library thread %s calls %s() without having blocked all signals' % (th.role, name), key=('mask', th.role))
        if name in ('pthread_cond_signal', 'pthread_cond_broadcast'):
            inh = st.ghost.get('inh')
            if inh and th.tid in inh:
                inh = dict(inh); c, k, s = inh[th.tid]; inh[th.tid] = (c, k, True); st.ghost['inh'] = inh
        if name in WAITS and not st.k.child:
            i = WAITS[name]
            if i is not None and a[i] == 0: return
            eng.oblige('C03.wait')
            g = [self.cname(st, k) for k in th.held if type(k[1]) is tuple]
            if g: eng.violate(st, 'C03', 'wait-holding', I, '%s() can wait indefinitely while %s is held: every other queue\'s user is blocked meanwhile' % (name, ', '.join(g)),
                              key=('wait', name, I.loc(), tuple(g)))
        if st.ghost.get('inchildhandler'):
            eng.oblige('C13.child-call')
            if name not in ATOMIC_SAFE and not name.startswith('llvm.') and name not in ('__assert_fail',):
                eng.violate(st, 'C13', 'child-unsafe-call', I, 'the fork handler of the child calls %s(), which is not async-signal-safe' % name, key=('unsafe', name, I.loc()))
    def facts(self):
        return dict(acc=self.acc, edges=self.edges)

def merge(results):
    acc = {}; edges = {}
    for f in results:
        for k, d in f['acc'].items():
            e = acc.setdefault(k, {})
            for a, b in d.items():
                if a not in e or len(b[2]) < len(e[a][2]): e[a] = b
        for k, b in f['edges'].items():
            if k not in edges or len(b[2]) < len(edges[k][2]): edges[k] = b
    return acc, edges

def races(acc):
    """pairs of accesses that can be made by two threads without a common lock"""
    by = {}
    for (name, fn, off, sz), d in acc.items(): by.setdefault((name, fn), []).append((off, sz, d))
    out = []; pairs = 0
    for (name, fn), l in sorted(by.items(), key=str):
        for i, (o1, s1, d1) in enumerate(l):
            for j in range(i, len(l)):
                o2, s2, d2 = l[j]
                if 'lifetime' in (o1, o2):
                    if o1 != o2: continue
                elif o1 != '*' and o2 != '*' and not (o1 < o2 + s2 and o2 < o1 + s1): continue
                for (m1, l1, r1), w1 in d1.items():
                    for (m2, l2, r2), w2 in d2.items():
                        if 'W' not in (m1, m2): continue
                        if r1 == r2 and r1 != 'app': continue
                        pairs += 1
                        if l1 & l2: continue
                        out.append((name, fn, o1, (m1, l1, r1, w1), (m2, l2, r2, w2)))
    return out, pairs

def cycles(edges):
    g = {}
    for (a, b) in edges: g.setdefault(a, set()).add(b)
    out = []
    for (a, b), w in sorted(edges.items(), key=str):
        if a == b: out.append(([a, a], w)); continue
        seen = {}; todo = [(b, (b,))]
        while todo:
            x, p = todo.pop()
            if x == a: out.append(((a,) + p, w)); break
            for y in g.get(x, ()):
                if y not in seen: seen[y] = 1; todo.append((y, p + (y,)))
    return out

def judge(P, results, viols):
    """turn the merged facts into violations of P; returns the number of obligations"""
    acc, edges = merge(results)
    v = []; n = 0
    if P == 'C02':
        rs, n = races(acc)
        seen = set()
        for name, fn, off, a, b in rs:
            if len(a[1]) > len(b[1]): a, b = b, a
            k = (name, off if off == 'lifetime' else 'data', a[3][0], b[3][0])
            if k in seen: continue
            seen.add(k)
            what = ('global variable %s' % name) if not fn else 'object allocated in %s (%s)' % (fn, name)
            if off == 'lifetime':
                msg = 'the lock of the %s is taken at %s (%s) holding {%s} while it can be freed at %s (%s) holding {%s}: nothing keeps the queue alive between look-up and lock' % (
                    what, a[3][0], a[3][1], ', '.join(a[1]), b[3][0], b[3][1], ', '.join(b[1]))
            else:
                msg = '%s%s: %s at %s (%s, thread %s) holding {%s} and %s at %s (%s, thread %s) holding {%s} can happen at the same time' % (
                    what, '' if off == '*' else ' offset %s' % off, 'write' if a[0] == 'W' else 'read', a[3][0], a[3][1], a[2], ', '.join(sorted(a[1])),
                    'write' if b[0] == 'W' else 'read', b[3][0], b[3][1], b[2], ', '.join(sorted(b[1])))
            v.append(dict(property='C02', rule='race', where=a[3][0], function=a[3][1], message=msg, stack=[], path=(), history=list(a[3][2]), notes=[]))
    if P == 'C03':
        n = len(edges)
        for cyc, w in cycles(edges):
            v.append(dict(property='C03', rule='lock-order', where=w[0], function=w[1], message='lock order cycle: ' + ' -> '.join(cyc), stack=[], path=(), history=list(w[2]), notes=[]))
    return v, n, dict(classes=len({k[:2] for k in acc}), fields=len(acc), lock_edges=sorted(map(str, edges)))
