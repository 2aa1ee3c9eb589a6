"""Abstract models of the C library and the Linux kernel: typestates of every
descriptor, epoll interest list, mutex, condition variable, signal mask and
thread, plus the transfer functions of the external calls the library makes.
"""
from .domain import *
from .engine import Fork, Choice, Block, Kill, NORET, Frame, Thread, Obj, show

# errno values
EPERM, ENOENT, ESRCH, EINTR, EBADF, ECHILD, EAGAIN, ENOMEM, EEXIST, EINVAL, ENFILE, EMFILE, ENOSPC, ENOTSOCK, EFAULT, ENOSYS = \
    1, 2, 3, 4, 9, 10, 11, 12, 17, 22, 23, 24, 28, 88, 14, 38
EPOLLIN, EPOLLPRI, EPOLLOUT, EPOLLERR, EPOLLHUP, EPOLLRDHUP, EPOLLONESHOT, EPOLLET = 1, 2, 4, 8, 0x10, 0x2000, 1 << 30, 1 << 31
O_NONBLOCK, O_ASYNC, O_CLOEXEC = 0x800, 0x2000, 0x80000
S_IFMT, S_IFSOCK, S_IFREG, S_IFIFO, S_IFCHR, S_IFBLK, S_IFDIR = 0o170000, 0o140000, 0o100000, 0o010000, 0o020000, 0o060000, 0o040000
SIGRTMIN = 34
SIGCHLD = 17
WNOHANG, WEXITED, WNOWAIT = 1, 4, 0x01000000

class FD:
    """one open descriptor number"""
    __slots__ = ('num', 'ofd', 'owner', 'cloexec', 'site', 'seq', 'api')
    def __init__(self, num, ofd, owner, cloexec, site, seq, api=0):
        self.num = num; self.ofd = ofd; self.owner = owner; self.cloexec = cloexec; self.site = site; self.seq = seq; self.api = api
    def with_(self, **kw):
        n = FD(self.num, self.ofd, self.owner, self.cloexec, self.site, self.seq, self.api)
        for a, b in kw.items(): setattr(n, a, b)
        return n

class Reg:
    """one epoll interest"""
    __slots__ = ('num', 'ofd', 'events', 'data', 'armed', 'edge', 'site')
    def __init__(self, num, ofd, events, data, armed=True, edge=True, site=None):
        self.num = num; self.ofd = ofd; self.events = events; self.data = data; self.armed = armed; self.edge = edge; self.site = site
    def with_(self, **kw):
        n = Reg(self.num, self.ofd, self.events, self.data, self.armed, self.edge, self.site)
        for a, b in kw.items(): setattr(n, a, b)
        return n

class Kern:
    def __init__(self):
        self.fds = []            # list of FD (open)
        self.ofds = {}           # id -> dict (immutable by convention)
        self.nofd = 0
        self.mutex = {}          # key -> (owner, count)
        self.mtype = {}          # key -> 'normal'|'recursive'
        self.mdead = {}          # key -> site of destroy
        self.atexit = (); self.atfork = ()
        self.once = frozenset()
        self.pending = {}        # tid -> tuple of (signo, info dict)
        self.procs = {}          # pid value -> (state, code, status)
        self.rlim = None
        self.handles = {}        # pthread handle -> tid
        self.ntid = 0
        self.child = False
        self.lostsig = ()
    def clone(self):
        k = Kern.__new__(Kern)
        k.fds = list(self.fds); k.ofds = dict(self.ofds); k.nofd = self.nofd
        k.mutex = dict(self.mutex); k.mtype = self.mtype; k.mdead = self.mdead
        k.atexit = self.atexit; k.atfork = self.atfork; k.once = self.once
        k.pending = dict(self.pending); k.procs = dict(self.procs); k.rlim = self.rlim
        k.handles = self.handles; k.ntid = self.ntid; k.child = self.child; k.lostsig = self.lostsig
        return k
    def mutex_free(self, key, tid):
        o = self.mutex.get(key)
        return o is None or (o[0] == tid and self.mtype.get(key) == 'recursive')
    def setofd(self, i, **kw):
        d = dict(self.ofds[i]); d.update(kw); self.ofds[i] = d
    # ---- descriptors
    def newfd(self, st, kind, owner, cloexec, site, num=None, **attrs):
        self.nofd += 1
        oid = self.nofd
        attrs['kind'] = kind; attrs.setdefault('regs', ())
        self.ofds[oid] = attrs
        return self.dupnum(st, oid, owner, cloexec, site, num)
    def dupnum(self, st, oid, owner, cloexec, site, num=None):
        if num is not None:
            st.nsym += 1
            self.fds.append(FD(num, oid, owner, cloexec, site, st.nsym, st.ghost.get('api', 0)))
            return num
        num = st.sym(32, kind_name(self.ofds[oid]['kind'], owner), 0, (1 << 30) - 1)
        st.env.assume_cmp('slt', 64, num, self.rlim, True)
        for f in self.fds:
            st.env.assume_cmp('ne', 32, num, st.env.norm(f.num), True)
        st.nsym += 1
        self.fds.append(FD(num, oid, owner, cloexec, site, st.nsym, st.ghost.get('api', 0)))
        return num
    def index(self, st, v, fork=True):
        """position of the open descriptor numbered v; None if not open; Fork when undetermined"""
        e = st.env
        if type(v) is tuple and v[0] not in ('s', 'e', 'L'): return None
        v = e.norm(v)
        if type(v) is int and v < 0: return None
        und = []
        for i, f in enumerate(self.fds):
            n = e.norm(f.num)
            if n == v: return i
            r = e.cmp('eq', 32, v, n)
            if r is True: return i
            if r is None: und.append(n)
        if not und: return None
        if not fork: return -1
        raise Fork([[('eq', 32, v, n, True)] for n in und] + [[('eq', 32, v, n, False) for n in und]])
    def refs(self, oid):
        return sum(1 for f in self.fds if f.ofd == oid)
    def closeidx(self, st, i):
        f = self.fds.pop(i)
        if self.refs(f.ofd) == 0:
            # last reference: epoll forgets it
            for eid, d in list(self.ofds.items()):
                if d['kind'] == 'epoll' and any(r.ofd == f.ofd for r in d['regs']):
                    self.setofd(eid, regs=tuple(r for r in d['regs'] if r.ofd != f.ofd))
            if self.ofds[f.ofd].get('foreign'): return f         # still open in another process
            d = self.ofds.pop(f.ofd)
            if d['kind'] == 'pipe_w':
                p = d['peer']
                if p in self.ofds:
                    self.setofd(p, eof=True)
                    self.raise_io(st, p)
            elif d['kind'] == 'epoll': pass
        return f
    def release(self, st, oid):
        """the other process closes its copy"""
        d = self.ofds.get(oid)
        if d is None: return
        self.setofd(oid, foreign=False)
        if self.refs(oid): return
        self.ofds.pop(oid); p = d['peer']
        if p in self.ofds:
            self.setofd(p, eof=True); self.raise_io(st, p)
    def raise_io(self, st, p):
        d = self.ofds[p]
        if not d.get('async'): return
        num = None
        for f in self.fds:
            if f.ofd == p: num = f.num
        own = d.get('owner_tid'); sig = d.get('sig', 29)
        tid = None
        for t, th in st.threads.items():
            if own == tid_const(t) and th.status != 'done': tid = t
        if tid is None:
            self.lostsig += ((sig, d.get('owner_tid')),); return
        q = self.pending.get(tid, ())
        if sig < SIGRTMIN and any(s == sig for s, _ in q): return       # standard signals are coalesced
        self.pending[tid] = q + ((sig, ('io', num)),)

def kind_name(k, owner): return {'user': 'ufd', 'lib': k}.get(owner, k)
def tid_const(t): return 7000 + t

class Models:
    """externals object for the engine"""
    def __init__(self): self.rec = None
    # ---------------------------------------------------------------- helpers
    def fault(self, eng, st, ins, what, errs):
        """nondeterministic failure of a call; returns errno or None"""
        if st.faults <= 0: return None
        only = st.opt.get('faultkinds')
        if only is not None and what not in only: return None
        c = eng.choose(st, 1 + len(errs), 'fault')
        if c == 0: return None
        st.faults -= 1; st.nfault += 1
        st.notes = st.notes + ('%s at %s fails with errno %d' % (what, ins.loc(), errs[c - 1]),)
        return errs[c - 1]
    def errno_ptr(self, st, th): return ('p', ('t', 'errno', th.tid), 0)
    def seterr(self, eng, st, th, e):
        oid = ('t', 'errno', th.tid)
        o = eng.getobj(st, oid)
        w = st.wobj(oid); w.cells[0] = (4, e)
        return -1
    def geterr(self, eng, st, th):
        o = eng.getobj(st, ('t', 'errno', th.tid))
        c = o.cells.get(0)
        return c[1] if c else 0
    def lockname(self, st, key):
        o = st.objs.get(key[1])
        if type(key[1]) is tuple: return key[1][1] + ('+%s' % key[2] if key[2] else '')
        return '%s+%s' % (o.name if o else '?', show(key[2]))
    def inst(self, st, key):
        return key
    def thread_exited(self, eng, st, th, v):
        th.cleanup = (); th.jmp = {}
        if th.role != 'app' or th.tid != 0:
            eng.oblige('C01.thread-exit', th.role)
            if th.held:
                eng.violate(st, 'C01', 'thread-exit-holding', None, 'thread %s ends holding %s' %
                            (th.role, ', '.join(self.lockname(st, k) for k in th.held)), key=('thread-exit', th.role))
    def deadlock(self, eng, st, main):
        parts = []
        for t, th in sorted(st.threads.items()):
            if th.status in ('done', 'idle'): continue
            s = th.status
            w = th.frames[-1] if th.frames else None
            loc = w.fn.blocks[w.bb][w.ip].loc() if w else '?'
            if s[0] in ('lock', 'condlock'): d = 'waits for lock %s' % self.lockname(st, s[1])
            elif s[0] == 'cond': d = 'waits on a condition that nobody will signal'
            elif s[0] == 'join': d = 'joins thread %d' % s[1]
            else: d = str(s[0])
            parts.append('%s %s at %s holding [%s]' % (th.role, d, loc, ', '.join(self.lockname(st, k) for k in th.held)))
        mt = st.threads[main]
        f = mt.frames[-1]; I = f.fn.blocks[f.bb][f.ip]
        eng.violate(st, 'C03', 'deadlock', I, 'no thread can make progress: ' + '; '.join(parts), key=('deadlock', f.fn.name, I.loc()))
    def wake(self, eng, st, th):
        s = th.status
        if s[0] == 'condlock':
            self.acquire(eng, st, th, s[1], None)
            f = th.frames[-1]; I = f.fn.blocks[f.bb][f.ip]
            if I.dst is not None: f.regs[I.dst] = 0
            f.ip += 1
        th.status = 'run'
    # ---------------------------------------------------------------- locks
    def acquire(self, eng, st, th, key, I):
        o = st.k.mutex.get(key)
        st.k.mutex[key] = (th.tid, 1 if o is None else o[1] + 1)
        h = eng.hooks.get('lock')
        if h is not None: h(eng, st, th, key, I)
        th.held = th.held + (key,)
    def mkey(self, eng, st, p, I):
        if type(p) is not tuple or p[0] != 'p':
            eng.violate(st, 'C10', 'mutex-pointer', I, 'mutex operation on %s' % (show(p),)); raise Kill('bad mutex')
        o = eng.getobj(st, p[1])
        if o is None or o.freed is not None:
            eng.violate(st, 'C10', 'use-after-free', I, 'mutex operation on %s after it was freed at %s' % (o.name if o else '?', o.freed if o else '?'),
                        key=(I.fn, I.loc(), 'mutex'))
            raise Kill('uaf')
        return ('p', p[1], p[2])
    def m_lock(self, eng, st, th, f, I, a):
        key = self.mkey(eng, st, a[0], I)
        if eng.access is not None: eng.access(eng, st, key[1], st.objs[key[1]], key[2], 8, 'M', I)
        o = st.k.mutex.get(key)
        rec = st.k.mtype.get(key) == 'recursive'
        eng.oblige('lock', I.loc())
        if th.tid not in (0, 99) and st.opt.get('hold') and type(key[1]) is tuple: th.status = ('heldlock', key); raise Block()
        if o is None or (o[0] == th.tid and rec):
            self.acquire(eng, st, th, key, I); return 0
        if o[0] == th.tid:
            eng.violate(st, 'C01', 'relock', I, '%s locks %s which it already holds (self-deadlock)' % (th.role, self.lockname(st, key)))
            raise Kill('self deadlock')
        th.status = ('lock', key); raise Block()
    def m_unlock(self, eng, st, th, f, I, a):
        key = self.mkey(eng, st, a[0], I)
        o = st.k.mutex.get(key)
        eng.oblige('unlock', I.loc())
        if o is None or (o[0] != th.tid and not st.k.child):
            eng.violate(st, 'C01', 'unlock-not-held', I, '%s unlocks %s which it does not hold' % (th.role, self.lockname(st, key)))
            raise Kill('bad unlock')
        h = list(th.held)
        for i in range(len(h) - 1, -1, -1):
            if h[i] == key: del h[i]; break
        th.held = tuple(h)
        if o[1] > 1: st.k.mutex[key] = (o[0], o[1] - 1)
        else: del st.k.mutex[key]
        hk = eng.hooks.get('unlock')
        if hk is not None: hk(eng, st, th, key, I)
        if key not in st.k.mutex and type(key[1]) is tuple and st.opt.get('sched', True):      # a thread waiting for the lock may go first
            for t, o in sorted(st.threads.items()):
                if t != th.tid and o.status == ('lock', key) and eng.choose(st, 2, 'sched'): st.cur = t; break
        return 0
    # ---------------------------------------------------------------- cancellation
    def cancelpoint(self, eng, st, th, I):
        """called at cancellation points; performs the cancellation and returns True if taken"""
        if th.cancel_off: return False
        if th.cancel_pending:
            pass
        elif th.tid == 0 and st.opt.get('cancel'):
            if eng.choose(st, 2, 'cancel') == 0: return False
            if st.ghost.get('pre_cancel'):
                eng.violate(st, 'C01', 'cancelled-though-disabled', I, 'the thread can be cancelled in %s() although its caller disabled cancellation' % th.frames[-1].fn.name, key=('cdis', th.frames[-1].fn.name))
            st.notes = st.notes + ('cancelled in %s at %s' % (I.fn, I.loc()),)
        else: return False
        th.cancel_pending = False
        th.cancel_off = 2          # unwinding
        self.unwind(eng, st, th)
        return True
    def unwind(self, eng, st, th):
        if th.cleanup:
            key = th.cleanup[-1]
            depth, bb, ip = th.jmp[key]
            while len(th.frames) > depth:
                g = th.frames.pop()
                for o in g.allocas: st.objs.pop(o, None)
            g = th.frames[-1]
            g.bb = bb; I = g.fn.blocks[bb][ip]
            if I.dst is not None: g.regs[I.dst] = 1
            g.ip = ip + 1
        else:
            while th.frames:
                g = th.frames.pop()
                for o in g.allocas: st.objs.pop(o, None)
            th.ret = 'cancelled'; th.status = 'done'
            eng.oblige('C01.cancel-exit', th.role)
            if th.held:
                eng.violate(st, 'C01', 'cancel-holding', None, '%s is cancelled while holding %s' %
                            (th.role, ', '.join(self.lockname(st, k) for k in th.held)), key=('cancel', th.role))
            self.thread_exited(eng, st, th, -1)
    # ---------------------------------------------------------------- dispatch
    def call(self, eng, st, th, f, I, name, a):
        m = getattr(self, 'x_' + name.replace('.', '_').split('_p0')[0], None)
        if m is None:
            eng.unknown_ext = getattr(eng, 'unknown_ext', set()); eng.unknown_ext.add(name)
            return st.sym(I.w or 64, '?' + name) if I.dst is not None else None
        h = eng.hooks.get('ext')
        if h is not None: h(eng, st, th, I, name, a)
        return m(eng, st, th, f, I, a)
    x_pthread_mutex_lock = m_lock
    x_pthread_mutex_unlock = m_unlock
    def x_pthread_mutex_init(self, eng, st, th, f, I, a):
        key = self.mkey(eng, st, a[0], I)
        t = 'normal'
        if type(a[1]) is tuple and a[1][0] == 'p':
            o = eng.getobj(st, a[1][1]); c = o.cells.get(a[1][2])
            if c is not None and c[1] == ('A', 'recursive'): t = 'recursive'
        st.k.mtype = dict(st.k.mtype); st.k.mtype[key] = t
        return 0
    def x_pthread_mutex_destroy(self, eng, st, th, f, I, a):
        key = self.mkey(eng, st, a[0], I)
        if key in st.k.mutex:
            eng.violate(st, 'C01', 'destroy-locked', I, 'mutex %s is destroyed while locked' % self.lockname(st, key))
        return 0
    def x_pthread_mutexattr_init(self, eng, st, th, f, I, a): return 0
    def x_pthread_mutexattr_settype(self, eng, st, th, f, I, a):
        eng.store(st, a[0], 4, ('A', 'recursive') if a[1] == 1 else 0, I); return 0
    def x_pthread_cond_wait(self, eng, st, th, f, I, a):
        if self.cancelpoint(eng, st, th, I): return NORET
        key = self.mkey(eng, st, a[1], I)
        o = st.k.mutex.get(key)
        if o is None or o[0] != th.tid:
            eng.violate(st, 'C01', 'cond-wait-unlocked', I, 'condition wait without holding %s' % self.lockname(st, key)); raise Kill('cond')
        st.k.mutex.pop(key)
        h = list(th.held); h.remove(key); th.held = tuple(h)
        self.directwait(eng, st, th, I, 'pthread_cond_wait', None)
        h = eng.hooks.get('condwait')
        if h is not None: h(eng, st, th, key, I)
        if st.opt.get('spurious') and not st.ghost.get('spur') and eng.choose(st, 2, 'sched'):      # a wait may end without a signal
            st.ghost['spur'] = True; st.notes = st.notes + ('pthread_cond_wait at %s returns spuriously' % I.loc(),)
            th.status = ('condlock', key)
            raise Block()
        th.status = ('cond', ('p', a[0][1], a[0][2]), key)
        raise Block()
    def x_pthread_cond_signal(self, eng, st, th, f, I, a):
        ck = ('p', a[0][1], a[0][2])
        for t, o in st.threads.items():
            if type(o.status) is tuple and o.status[0] == 'cond' and o.status[1] == ck:
                o.status = ('condlock', o.status[2]); break
        return 0
    def x_pthread_cond_broadcast(self, eng, st, th, f, I, a):
        ck = ('p', a[0][1], a[0][2])
        for t, o in st.threads.items():
            if type(o.status) is tuple and o.status[0] == 'cond' and o.status[1] == ck: o.status = ('condlock', o.status[2])
        return 0
    def x_pthread_once(self, eng, st, th, f, I, a):
        key = (a[0][1], a[0][2])
        if key in st.k.once: return 0
        st.k.once = st.k.once | {key}
        eng.push(st, th, eng.M.functions[a[1][1]], [])
        return NORET
    def x_pthread_create(self, eng, st, th, f, I, a):
        if self.fault(eng, st, I, 'pthread_create', [EAGAIN]): return EAGAIN
        if type(a[0]) is tuple and a[0][0] == 'p':      # the handle this replaces: its thread can no longer be joined
            old = eng.load(st, a[0], 8, I)
            o = st.threads.get(st.k.handles.get(old)) if type(old) is int else None
            eng.oblige('C09.thread-handle')
            if o is not None and o.status == 'done' and not o.detached:
                eng.violate(st, 'C09', 'thread-leak', I, 'the handle of an ended thread (%s) which nobody detached or joined is overwritten: its stack is never released' % o.role, key=('thread-leak',))
        first = eng.choose(st, 2, 'sched') if st.opt.get('sched', True) else 0
        k = st.k
        k.ntid += 1; t = k.ntid
        fn = a[2]
        n = Thread(t, fn[1]); n.sigmask = th.sigmask
        st.threads[t] = n
        eng.push(st, n, eng.M.functions[fn[1]], [a[3]])
        k.handles = dict(k.handles); k.handles[9000 + t] = t
        eng.store(st, a[0], 8, 9000 + t, I)
        n.blockedmask = bool(th.sigmask == ('all',))
        st.logev('thread', t, fn[1])
        h = eng.hooks.get('create')
        if h is not None: h(eng, st, th, n)
        if first: st.cur = t
        return 0
    def x_pthread_self(self, eng, st, th, f, I, a): return 9000 + th.tid
    def x_pthread_detach(self, eng, st, th, f, I, a):
        t = st.k.handles.get(a[0])
        if t is not None and t in st.threads: st.threads[t].detached = True
        return 0
    def livehandle(self, eng, st, I, h, what):
        """a thread's handle is only good while the thread runs or waits to be joined"""
        t = st.k.handles.get(h) if type(h) is int else None
        eng.oblige('C10.thread-handle')
        o = st.threads.get(t)
        if t is not None and not st.k.child and (o is None or (o.detached and (o.status == 'done' or what == 'pthread_join'))):
            eng.violate(st, ('C10', 'C03'), 'stale-thread', I, '%s() with the handle of a thread that %s' % (what, 'was joined' if o is None else 'was detached and has ended' if o.status == 'done' else 'was detached'), key=('stale-thread', what))
    def x_pthread_cancel(self, eng, st, th, f, I, a):
        self.livehandle(eng, st, I, a[0], 'pthread_cancel')
        t = st.k.handles.get(a[0])
        o = st.threads.get(t)
        if o is None or o.status == 'done': return ESRCH
        o.cancel_pending = True
        if type(o.status) is tuple and o.status[0] == 'sigwait' and not o.cancel_off: o.status = 'run'
        return 0
    def x_pthread_join(self, eng, st, th, f, I, a):
        if self.cancelpoint(eng, st, th, I): return NORET
        self.livehandle(eng, st, I, a[0], 'pthread_join')
        t = st.k.handles.get(a[0]); o = st.threads.get(t)
        if o is None: return ESRCH
        if o.detached: return EINVAL
        if o.status != 'done':
            self.directwait(eng, st, th, I, 'pthread_join', o)
            th.status = ('join', t); raise Block()
        if type(a[1]) is tuple and a[1][0] == 'p': eng.store(st, a[1], 8, -1 if o.ret == 'cancelled' else (o.ret if o.ret is not None else 0), I)
        del st.threads[t]
        return 0
    def directwait(self, eng, st, th, I, what, target):
        h = eng.hooks.get('wait')
        if h is not None: h(eng, st, th, I, what, target)
    def x_pthread_setcancelstate(self, eng, st, th, f, I, a):
        old = th.cancel_off
        if type(a[1]) is tuple and a[1][0] == 'p': eng.store(st, a[1], 4, 1 if old else 0, I)
        v = a[0]
        if type(v) is not int:
            r = st.env.cmp('eq', 32, v, 0)
            if r is None: raise Fork([[('eq', 32, v, 0, True)], [('eq', 32, v, 0, False)]])
            v = 0 if r else 1
        if old != 2: th.cancel_off = 1 if v else 0
        return 0
    def x_pthread_testcancel(self, eng, st, th, f, I, a):
        if self.cancelpoint(eng, st, th, I): return NORET
        return None
    def x___sigsetjmp(self, eng, st, th, f, I, a):
        th.jmp[(a[0][1], a[0][2])] = (len(th.frames), f.bb, f.ip)
        return 0
    def x___pthread_register_cancel(self, eng, st, th, f, I, a):
        th.cleanup = th.cleanup + ((a[0][1], a[0][2]),); return None
    def x___pthread_unregister_cancel(self, eng, st, th, f, I, a):
        if th.cleanup: th.cleanup = th.cleanup[:-1]
        return None
    def x___pthread_unwind_next(self, eng, st, th, f, I, a):
        th.cleanup = th.cleanup[:-1]
        self.unwind(eng, st, th)
        return NORET
    def x_pthread_atfork(self, eng, st, th, f, I, a):
        st.k.atfork = st.k.atfork + (tuple(a),); return 0
    def x_atexit(self, eng, st, th, f, I, a):
        st.k.atexit = st.k.atexit + (a[0],); return 0
    # ---------------------------------------------------------------- signals
    def sigword(self, eng, st, p, I):
        v = eng.load(st, p, 8, I)
        return v
    def x_sigemptyset(self, eng, st, th, f, I, a): eng.memset(st, a[0], 0, 128, I); return 0
    def x_sigfillset(self, eng, st, th, f, I, a): eng.memset(st, a[0], 255, 128, I); return 0
    def x_sigaddset(self, eng, st, th, f, I, a):
        n = a[1]
        if type(n) is tuple and n[0] == 'u': n = st.sym(32, 'undef')
        for pr, b in (('slt', 1), ('sgt', 64)):
            r = st.env.cmp(pr, 32, n, b)
            if r is True: self.seterr(eng, st, th, EINVAL); return -1
            if r is None: raise Fork([[(pr, 32, n, b, True)], [(pr, 32, n, b, False)]])
        n = st.env.norm(n)
        o = self.sigword(eng, st, a[0], I)
        base, syms = (o, ()) if type(o) is int else (o[1], o[2]) if type(o) is tuple and o[0] == 'S' else (0, ())
        if type(n) is int:
            base = tosigned((base & umask(64)) | (1 << (n - 1)), 64)
        elif base != -1: syms = syms + (n,)
        eng.store(st, a[0], 8, base if not syms else ('S', base, syms), I)
        return 0
    def x_sigdelset(self, eng, st, th, f, I, a):
        n = a[1]; o = self.sigword(eng, st, a[0], I)
        if type(n) is int and type(o) is int: eng.store(st, a[0], 8, tosigned(o & umask(64) & ~(1 << (n - 1)), 64), I)
        else: eng.store(st, a[0], 8, ('S', 0, (('?', n),)), I)
        return 0
    def sigmask(self, eng, st, th, f, I, a):
        how = a[0]
        if type(a[2]) is tuple and a[2][0] == 'p':
            eng.memset(st, a[2], 0, 128, I); eng.store(st, a[2], 8, ('S', 0, (('mask', th.sigmask),)), I)
        if type(a[1]) is tuple and a[1][0] == 'p':
            w = self.sigword(eng, st, a[1], I)
            if how == 0:
                th.sigmask = ('all',) if w == -1 else (th.sigmask if th.sigmask == ('all',) or w in th.sigmask else th.sigmask + (w,))
            elif how == 2:
                if w == -1: th.sigmask = ('all',)
                elif type(w) is tuple and w[0] == 'S' and w[2] and type(w[2][0]) is tuple and w[2][0][0] == 'mask':
                    m = w[2][0][1]; rest = ('S', w[1], w[2][1:])        # a saved mask, possibly with signals added
                    th.sigmask = m if m == ('all',) or (not w[1] and not w[2][1:]) else m + ((w[1] if not w[2][1:] else rest),)
                else: th.sigmask = () if w == 0 else (w,); th.sigmask = ('replaced',) + th.sigmask
            else:
                if w in th.sigmask: th.sigmask = tuple(x for x in th.sigmask if x != w)
                elif w != 0: th.sigmask = ('unblocked', w) + th.sigmask
            st.logev('sigmask', th.tid, th.role, how, w, I.loc(), I.fn)
            h = eng.hooks.get('sigmask')
            if h: h(eng, st, th, I, how, w)
        return 0
    x_pthread_sigmask = sigmask
    x_sigprocmask = sigmask
    def inset(self, st, sig, w):
        if type(w) is int: return bool((w >> (sig - 1)) & 1)
        return False
    def x_sigwaitinfo(self, eng, st, th, f, I, a):
        if self.cancelpoint(eng, st, th, I): return NORET
        w = self.sigword(eng, st, a[0], I)
        q = st.k.pending.get(th.tid, ())
        eng.oblige('sigwait', I.loc())
        for i, (sig, info) in enumerate(q):
            if self.inset(st, sig, w):
                if i > 0 or len(q) > 1: pass
                st.k.pending[th.tid] = q[:i] + q[i + 1:]
                if not st.k.pending[th.tid]: del st.k.pending[th.tid]
                if type(a[1]) is tuple and a[1][0] == 'p':
                    p = a[1]
                    eng.memset(st, p, 0, 128, I)
                    eng.store(st, p, 4, sig, I)
                    if info[0] == 'io':
                        eng.store(st, ('p', p[1], lin_add(p[2], 24)), 4, st.env.norm(info[1]), I)
                        eng.store(st, ('p', p[1], lin_add(p[2], 8)), 4, 6, I)
                    elif info[0] == 'app':               # sigqueue() by the application
                        eng.store(st, ('p', p[1], lin_add(p[2], 8)), 4, -1, I)
                        eng.store(st, ('p', p[1], lin_add(p[2], 24)), 4, info[1], I)
                    elif info[0] == 'chld':
                        eng.store(st, ('p', p[1], lin_add(p[2], 16)), 4, info[1], I)
                        eng.store(st, ('p', p[1], lin_add(p[2], 8)), 4, info[2], I)
                        eng.store(st, ('p', p[1], lin_add(p[2], 24)), 4, info[3], I)
                return sig
        self.directwait(eng, st, th, I, 'sigwaitinfo', None)
        if st.opt.get('sigwait_eintr'): pass
        th.status = ('sigwait', w); raise Block()
    # ---------------------------------------------------------------- memory
    def x_malloc(self, eng, st, th, f, I, a): return self.alloc(eng, st, th, I, a[0], 'undef', 'malloc')
    def x_calloc(self, eng, st, th, f, I, a):
        n, m = a[0], a[1]
        sz = None
        if type(n) is int and type(m) is int: sz = n * m
        elif type(m) is int: sz = lin_scale(n, m)
        elif type(n) is int: sz = lin_scale(m, n)
        if sz is None: sz = st.sym(64, 'size', 0)
        return self.alloc(eng, st, th, I, sz, 'zero', 'calloc')
    def alloc(self, eng, st, th, I, sz, bg, what):
        if self.fault(eng, st, I, what, [ENOMEM]):
            self.seterr(eng, st, th, ENOMEM); return 0
        oid = st.newobj('heap', I.fn, sz, bg, I.loc())
        st.objs[oid].wlog = None
        eng.oblige('alloc', I.loc())
        return ('p', oid, 0)
    def x_realloc(self, eng, st, th, f, I, a):
        if a[0] == 0: return self.alloc(eng, st, th, I, a[1], 'undef', 'realloc')
        raise Kill('realloc')
    def x_free(self, eng, st, th, f, I, a):
        p = a[0]
        if p == 0: return None
        eng.oblige('free', I.loc())
        o = eng.getobj(st, p[1]) if type(p) is tuple and p[0] == 'p' else None
        if o is None or o.kind != 'heap' or p[2] != 0:
            eng.violate(st, 'C10', 'invalid-free', I, 'free of %s, which is not a heap allocation' % (show(p),))
            raise Kill('bad free')
        if o.freed is not None:
            eng.violate(st, 'C10', 'double-free', I, '%s (allocated at %s) is freed again; first freed at %s' % (o.name, o.site, o.freed))
            raise Kill('double free')
        h = eng.hooks.get('free')
        if h: h(eng, st, th, p[1], o, I)
        for key in list(st.k.mutex):
            if key[1] == p[1]:
                eng.violate(st, 'C01', 'free-locked', I, 'memory holding the locked mutex %s is freed' % self.lockname(st, key))
        w = st.wobj(p[1]); w.freed = I.loc()
        w.cells = {}
        return None
    def x_mmap(self, eng, st, th, f, I, a):
        if self.fault(eng, st, I, 'mmap', [ENOMEM]):
            self.seterr(eng, st, th, ENOMEM); return -1
        oid = st.newobj('heap', I.fn + ':mmap', a[1], 'zero', I.loc())
        return ('p', oid, 0)
    def x_munmap(self, eng, st, th, f, I, a):
        if type(a[0]) is tuple and a[0][0] == 'p': st.wobj(a[0][1]).freed = I.loc()
        return 0
    def x_llvm_memset(self, eng, st, th, f, I, a): eng.memset(st, a[0], a[1], a[2], I); return None
    def x_llvm_memcpy(self, eng, st, th, f, I, a): eng.memcpy(st, a[0], a[1], a[2], I); return None
    x_llvm_memmove = x_llvm_memcpy
    x_memset = x_llvm_memset
    x_memcpy = x_llvm_memcpy
    x_memmove = x_llvm_memcpy
    def x_llvm_threadlocal_address(self, eng, st, th, f, I, a):
        p = a[0]
        return ('p', ('t', p[1][1], th.tid), p[2])
    def nop(self, eng, st, th, f, I, a): return 0 if I.dst is not None else None
    x_llvm_va_start = x_llvm_va_end = x_llvm_va_copy = x_llvm_dbg_declare = x_llvm_dbg_value = x_llvm_lifetime_start = x_llvm_lifetime_end = nop
    x_llvm_expect = lambda self, eng, st, th, f, I, a: a[0]
    x_prctl = nop
    # ---------------------------------------------------------------- misc libc
    def x___errno_location(self, eng, st, th, f, I, a): return self.errno_ptr(st, th)
    def x___libc_current_sigrtmin(self, eng, st, th, f, I, a): return SIGRTMIN
    def x_getenv(self, eng, st, th, f, I, a): return 0
    def x_getpid(self, eng, st, th, f, I, a): return st.sym(32, 'pid', 1)
    def x_getrlimit(self, eng, st, th, f, I, a):
        # the soft limit may be anything up to the hard one, and is not what bounds descriptor numbers later on
        cur = st.sym(64, 'RLIM_CUR', 3, 1 << 30); st.env.assume_cmp('sle', 64, cur, st.k.rlim, True)
        eng.store(st, a[1], 8, cur, I); eng.store(st, ('p', a[1][1], lin_add(a[1][2], 8)), 8, st.k.rlim, I); return 0
    def x_abort(self, eng, st, th, f, I, a):
        h = eng.hooks.get('abort')
        if h: h(eng, st, th, I)
        raise Kill('aborted')
    def x___assert_fail(self, eng, st, th, f, I, a):
        msg = self.cstr(eng, st, a[0])
        line = I.loc()
        h = eng.hooks.get('assert')
        if h: h(eng, st, th, I, msg)
        eng.violate(st, 'C25', 'assertion', I, 'assertion "%s" can fail here: the debug build aborts where the release build goes on' % msg,
                    key=(I.fn, msg))
        raise Kill('aborted')
    def cstr(self, eng, st, p):
        if type(p) is tuple and p[0] == 'p':
            G = eng.M.globals.get(p[1][1]) if type(p[1]) is tuple else None
            s = getattr(G, 'text', None) if G is not None else None
            if s: return s
        return '?'
    def x_strerror(self, eng, st, th, f, I, a):
        oid = ('t', 'strerror_buf', th.tid)
        if oid not in st.objs:
            o = Obj('tls', 'strerror_buf', 64, 'undef'); o.tok = st.tok; st.objs[oid] = o
        return ('p', oid, 0)
    def x_snprintf(self, eng, st, th, f, I, a):
        n = a[1]
        if type(a[0]) is tuple and a[0][0] == 'p' and type(n) is int: eng.memset(st, a[0], ('u',), n, I)
        return st.sym(32, 'len', 0, 1 << 16)
    x_vsnprintf = x_snprintf
    def x_strlen(self, eng, st, th, f, I, a):
        o = eng.getobj(st, a[0][1]) if type(a[0]) is tuple and a[0][0] == 'p' else None
        return st.sym(64, 'strlen', 1, (o.size - 1) if o is not None and type(o.size) is int and o.size > 1 else 4096)
    def x_strcat(self, eng, st, th, f, I, a): return a[0]
    x_strncat = x_strcpy = x_strncpy = x_strcat
    def x_strdup(self, eng, st, th, f, I, a): return self.alloc(eng, st, th, I, 64, 'undef', 'strdup')
    def x_vfprintf(self, eng, st, th, f, I, a): return 0
    x_fprintf = x_printf = x_puts = x_perror = x_fputs = x_fflush = x_vfprintf
    # ---------------------------------------------------------------- descriptors
    def mkfd(self, eng, st, th, I, what, kind, cloexec, **attrs):
        e = self.fault(eng, st, I, what, [EMFILE])
        if e: return self.seterr(eng, st, th, e)
        eng.oblige('fd-create', I.loc())
        ru = self.reuse(eng, st, 2)
        n = st.k.newfd(st, kind, 'lib', cloexec, I.loc(), num=ru[1] if ru and ru[0] == 0 else None, **attrs)
        h = eng.hooks.get('fdnew')
        if h: h(eng, st, th, I, what, cloexec)
        return n
    def reuse(self, eng, st, n):
        """a descriptor number the application closed may be handed out again"""
        v = st.opt.get('reuse')
        if v is None or any(st.env.norm(f.num) == st.env.norm(v) for f in st.k.fds): return None
        return eng.choose(st, n, 'reuse'), v
    def flag(self, v, b): return bool(v & b) if type(v) is int else False
    def x_epoll_create1(self, eng, st, th, f, I, a): return self.mkfd(eng, st, th, I, 'epoll_create1', 'epoll', self.flag(a[0], O_CLOEXEC))
    def x_epoll_create(self, eng, st, th, f, I, a): return self.mkfd(eng, st, th, I, 'epoll_create', 'epoll', False)
    def x_eventfd(self, eng, st, th, f, I, a):
        return self.mkfd(eng, st, th, I, 'eventfd', 'eventfd', self.flag(a[1], O_CLOEXEC), nonblock=self.flag(a[1], O_NONBLOCK),
                         count=bool(a[0]), sema=self.flag(a[1], 1))
    def x_timerfd_create(self, eng, st, th, f, I, a):
        return self.mkfd(eng, st, th, I, 'timerfd_create', 'timerfd', self.flag(a[1], O_CLOEXEC), nonblock=self.flag(a[1], O_NONBLOCK),
                         clock=a[0], spec=None, ready=False)
    def x_signalfd(self, eng, st, th, f, I, a):
        w = self.sigword(eng, st, a[1], I)
        e = self.fault(eng, st, I, 'signalfd', [EMFILE])
        if e: return self.seterr(eng, st, th, e)
        return self.mkfd(eng, st, th, I, 'signalfd2', 'signalfd', self.flag(a[2], O_CLOEXEC), nonblock=self.flag(a[2], O_NONBLOCK), mask=w, ready=False) \
            if a[0] == -1 else self.seterr(eng, st, th, EINVAL)
    def x_inotify_init1(self, eng, st, th, f, I, a):
        return self.mkfd(eng, st, th, I, 'inotify_init1', 'inotify', self.flag(a[0], O_CLOEXEC), nonblock=self.flag(a[0], O_NONBLOCK), watches=(), ready=None)
    def x_inotify_init(self, eng, st, th, f, I, a):
        return self.mkfd(eng, st, th, I, 'inotify_init', 'inotify', False, nonblock=False, watches=(), ready=None)
    def x_pipe2(self, eng, st, th, f, I, a):
        e = self.fault(eng, st, I, 'pipe2', [EMFILE])
        if e: return self.seterr(eng, st, th, e)
        k = st.k; ce = self.flag(a[1], O_CLOEXEC); nb = self.flag(a[1], O_NONBLOCK)
        ru = st.opt.get('place') or self.reuse(eng, st, 3)
        r = k.newfd(st, 'pipe_r', 'lib', ce, I.loc(), nonblock=nb, eof=False, num=ru[1] if ru and ru[0] == 0 else None)
        ro = k.fds[-1].ofd
        w = k.newfd(st, 'pipe_w', 'lib', ce, I.loc(), peer=ro, nonblock=nb, num=ru[1] if ru and ru[0] == 1 else None)
        k.setofd(ro, peer=k.fds[-1].ofd)
        eng.store(st, a[0], 4, r, I); eng.store(st, ('p', a[0][1], lin_add(a[0][2], 4)), 4, w, I)
        h = eng.hooks.get('fdnew')
        if h: h(eng, st, th, I, 'pipe2', ce)
        return 0
    def x_pipe(self, eng, st, th, f, I, a): return self.x_pipe2(eng, st, th, f, I, [a[0], 0])
    def x_syscall(self, eng, st, th, f, I, a):
        if a[0] == 186: return tid_const(th.tid)
        if a[0] == 434:
            e = self.fault(eng, st, I, 'pidfd_open', [ESRCH])
            if e: return self.seterr(eng, st, th, e)
            st.k.procs.setdefault(st.env.norm(a[1]), ('running', 0, 0))
            return self.mkfd(eng, st, th, I, 'pidfd_open', 'pidfd', True, pid=a[1])
        if a[0] == 290: return self.x_eventfd(eng, st, th, f, I, a[1:])
        return st.sym(I.w or 64, 'syscall')
    def x_close(self, eng, st, th, f, I, a):
        v = a[0]
        if self.cancelpoint(eng, st, th, I): return NORET
        eng.oblige('close', I.loc())
        if type(v) is tuple and v[0] == 'u':
            eng.violate(st, 'C11', 'close-undefined', I, 'closes an uninitialised descriptor number'); return self.seterr(eng, st, th, EBADF)
        v = st.env.norm(v)
        if type(v) is int and v < 0: return self.seterr(eng, st, th, EBADF)
        r = st.env.cmp('slt', 32, v, 0)
        if r is None: raise Fork([[('slt', 32, v, 0, True)], [('slt', 32, v, 0, False)]])
        if r: return self.seterr(eng, st, th, EBADF)
        k = st.k
        i = k.index(st, v)
        if i is None:
            eng.violate(st, 'C11', 'close-not-open', I, 'closes descriptor %s, which the library does not have open: the number may meanwhile belong to the application' % show(v),
                        key=(I.fn, I.loc()))
            return self.seterr(eng, st, th, EBADF)
        if k.fds[i].owner == 'user':
            eng.violate(st, 'C11', 'close-foreign', I, 'closes descriptor %s, which belongs to the application' % show(v), key=(I.fn, I.loc()))
        st.logev('close', k.fds[i].ofd, k.ofds[k.fds[i].ofd]['kind'], I.loc())
        k.closeidx(st, i)
        return 0
    def x_fcntl(self, eng, st, th, f, I, a):
        k = st.k; cmd = a[1]
        i = k.index(st, a[0])
        if i is None: return self.seterr(eng, st, th, EBADF)
        fd = k.fds[i]
        if cmd == 1: return 1 if fd.cloexec else 0
        if cmd == 3: return st.sym(32, 'fl', 0)
        e = self.fault(eng, st, I, 'fcntl', [EPERM])
        if e: return self.seterr(eng, st, th, e)
        if cmd == 2: k.fds[i] = fd.with_(cloexec=self.flag(a[2], 1)); return 0
        if cmd == 4: k.setofd(fd.ofd, nonblock=self.flag(a[2], O_NONBLOCK), **{'async': self.flag(a[2], O_ASYNC)}); return 0
        if cmd == 10: k.setofd(fd.ofd, sig=a[2]); return 0
        if cmd == 15:
            t = eng.load(st, a[2], 4, I); p = eng.load(st, ('p', a[2][1], lin_add(a[2][2], 4)), 4, I)
            k.setofd(fd.ofd, owner_tid=p if t == 0 else None); return 0
        if cmd == 8: k.setofd(fd.ofd, owner_tid=a[2]); return 0
        return 0
    # ---------------------------------------------------------------- epoll
    def epoll(self, st, v):
        i = st.k.index(st, v)
        if i is None: return None
        o = st.k.fds[i].ofd
        return o if st.k.ofds[o]['kind'] == 'epoll' else None
    def x_epoll_ctl(self, eng, st, th, f, I, a):
        k = st.k; op = a[1]
        eng.oblige('epoll_ctl', I.loc())
        eo = self.epoll(st, a[0])
        if eo is None: return self.seterr(eng, st, th, EBADF)
        i = k.index(st, a[2])
        if i is None: return self.seterr(eng, st, th, EBADF)
        fd = k.fds[i]; regs = k.ofds[eo]['regs']
        cur = None
        for r in regs:
            if r.ofd == fd.ofd and st.env.norm(r.num) == st.env.norm(fd.num): cur = r
        if type(op) is not int: raise Kill('epoll op')
        if op in (1, 3):
            ev = eng.load(st, a[3], 4, I); data = eng.load(st, ('p', a[3][1], lin_add(a[3][2], 4)), 8, I)
            if type(ev) is not int:
                ev = self.concretise(eng, st, ev)
        if op == 1:
            if cur is not None: return self.seterr(eng, st, th, EEXIST)
            if k.ofds[fd.ofd].get('mode') in (S_IFREG, S_IFDIR, S_IFBLK): return self.seterr(eng, st, th, EPERM)
            e = self.fault(eng, st, I, 'epoll_ctl(ADD)', [ENOMEM])
            if e: return self.seterr(eng, st, th, e)
            k.setofd(eo, regs=regs + (Reg(fd.num, fd.ofd, ev & umask(32), data, site=I.loc()),))
        elif op == 3:
            if cur is None: return self.seterr(eng, st, th, ENOENT)
            k.setofd(eo, regs=tuple(r.with_(events=ev & umask(32), data=data, armed=True, edge=True, site=I.loc()) if r is cur else r for r in regs))
        elif op == 2:
            if cur is None: return self.seterr(eng, st, th, ENOENT)
            k.setofd(eo, regs=tuple(r for r in regs if r is not cur))
        else: return self.seterr(eng, st, th, EINVAL)
        return 0
    def concretise(self, eng, st, ev):
        """split on the undetermined bits of an event mask"""
        for b in (EPOLLIN, EPOLLOUT, EPOLLRDHUP, EPOLLONESHOT, EPOLLET, EPOLLPRI):
            kz, ko = st.env.bits(ev, 32)
            if not ((kz | ko) & b):
                x = binop(st.env, 'and', 32, ev, tosigned(b, 32))
                raise Fork([[('eq', 32, x, 0, True)], [('eq', 32, x, 0, False)]])
        kz, ko = st.env.bits(ev, 32)
        return ko
    def ready(self, st, r):
        """(may, must) readiness of a registration"""
        k = st.k
        if not r.armed: return False, False
        d = k.ofds.get(r.ofd)
        if d is None: return False, False
        kd = d['kind']
        if r.events & EPOLLET and not r.edge:
            # needs a new edge
            if kd in ('eventfd',): return False, False
        if kd == 'eventfd':
            ok = d['count'] and bool(r.events & EPOLLIN)
            return ok, ok
        if kd == 'timerfd':
            if d['spec'] is None or not r.events & EPOLLIN: return False, False
            if d.get('done') and not d['ready']: return False, False
            return True, d['ready'] and (r.edge or not r.events & EPOLLET)
        if kd == 'signalfd':
            if not r.events & EPOLLIN: return False, False
            if d['mask'] == 0: return False, False
            return True, bool(d['ready'])
        if kd == 'inotify':
            if not d['watches'] or not r.events & EPOLLIN: return False, False
            return True, d['ready'] is not None
        if kd == 'pidfd':
            p = k.procs.get(st.env.norm(d['pid']))
            ex = p is not None and p[0] == 'exited'
            return bool(r.events & EPOLLIN), ex and (r.edge or not r.events & EPOLLET)
        if kd == 'user': return not d.get('quiet'), False
        return False, False
    USEREV = (EPOLLIN, EPOLLOUT, EPOLLIN | EPOLLOUT, EPOLLIN | EPOLLRDHUP, EPOLLIN | EPOLLOUT | EPOLLHUP, EPOLLIN | EPOLLOUT | EPOLLERR, EPOLLIN | EPOLLOUT | EPOLLRDHUP | EPOLLHUP | EPOLLERR)
    def evbits(self, st, r):
        d = st.k.ofds[r.ofd]
        if d['kind'] != 'user': return (EPOLLIN,) if r.events & EPOLLIN else ()
        out = []
        for b in st.opt.get('userev', self.USEREV):
            x = b & (r.events | EPOLLHUP | EPOLLERR)
            if x and x not in out: out.append(x)
        return out
    def x_epoll_wait(self, eng, st, th, f, I, a):
        if self.cancelpoint(eng, st, th, I): return NORET
        k = st.k
        eng.oblige('epoll_wait', I.loc())
        eo = self.epoll(st, a[0])
        st.logev('wait', 'epoll_wait', eo, a[2], a[3], I.loc())
        self.directwait(eng, st, th, I, 'epoll_wait', eo)
        if eo is None: return self.seterr(eng, st, th, EBADF)
        mx = st.env.norm(a[2])
        r = st.env.cmp('sle', 32, mx, 0)
        if r is None: raise Fork([[('sle', 32, mx, 0, True)], [('sle', 32, mx, 0, False)]])
        if r: return self.seterr(eng, st, th, EINVAL)
        # the kernel may fill as many entries as asked for
        buf = a[1]
        need = lin_scale(mx, 12)
        o = eng.getobj(st, buf[1])
        eng.oblige('C04.epoll-buffer', I.loc())
        if st.env.cmp('sle', 64, lin_add(need, buf[2]), o.size) is not True:
            eng.violate(st, 'C04', 'epoll-buffer', I, 'epoll_wait may write %s entries of 12 bytes into %s of %s bytes' % (show(mx), o.name, show(o.size)))
        regs = k.ofds[eo]['regs']
        cap = st.opt.get('maxfire', 1)
        cands = []
        must = []
        for j, rg in enumerate(regs):
            may, mu = self.ready(st, rg)
            if may: cands.append(j)
            if mu: must.append(j)
        # subsets of ready registrations
        subs = []
        lim = 1 << 20
        if type(mx) is int: lim = mx
        cap = max(cap, min(len(must), 3))
        from itertools import combinations
        for n in range(1, min(cap, lim) + 1):
            for c in combinations(cands, n):
                if len(must) <= lim and not set(must) <= set(c): continue
                if len(must) > lim and not set(c) <= set(must): continue
                subs.append(c)
        outs = list(subs)
        only = st.opt.get('fire')       # 'none' | 'some' | None
        if not must and only != 'some': outs.insert(0, ('timeout',))
        if not must and st.opt.get('eintr'): outs.append(('eintr',))
        if not outs: raise Kill('infeasible')
        c = outs[eng.choose(st, len(outs), 'epoll')] if len(outs) > 1 else outs[0]
        if c == ('timeout',):
            st.logev('epoll_ret', 0)
            if st.env.norm(a[3]) == -1: raise Kill('infeasible')
            return 0
        if c == ('eintr',): st.logev('epoll_ret', -1); return self.seterr(eng, st, th, EINTR)
        if type(mx) is not int and st.env.cmp('sge', 32, mx, len(c)) is not True:
            st.env.assume_cmp('sge', 32, mx, len(c), True)
        regs = list(regs)
        for n, j in enumerate(c):
            rg = regs[j]; bl = self.evbits(st, rg)
            if not bl: raise Kill('infeasible')
            b = bl[eng.choose(st, len(bl), 'bits')] if len(bl) > 1 else bl[0]
            off = lin_add(buf[2], 12 * n)
            eng.store(st, ('p', buf[1], off), 4, b, I)
            eng.store(st, ('p', buf[1], lin_add(off, 4)), 8, rg.data, I)
            self.fire(eng, st, rg, b)
            st.logev('fired', rg.ofd, b, k.ofds[rg.ofd]['kind'], rg.data)
            regs[j] = rg.with_(armed=not (rg.events & EPOLLONESHOT), edge=not (rg.events & EPOLLET))
        k.setofd(eo, regs=tuple(regs))
        st.logev('epoll_ret', len(c))
        return len(c)
    def fire(self, eng, st, rg, bits=0):
        k = st.k; d = k.ofds[rg.ofd]; kd = d['kind']
        if bits & EPOLLERR and kd == 'user' and d.get('mode') == S_IFSOCK: k.setofd(rg.ofd, soerr=st.sym(32, 'sockerr', 1, 133))
        if kd == 'timerfd': k.setofd(rg.ofd, ready=True)
        elif kd == 'signalfd':
            k.setofd(rg.ofd, ready=True)
            if st.opt.get('queued') and 'more' not in d: k.setofd(rg.ofd, more=1)
        elif kd == 'inotify':
            if d['ready'] is None: k.setofd(rg.ofd, ready=('ev',))
            if st.opt.get('queued') and 'more' not in d: k.setofd(rg.ofd, more=1)
        elif kd == 'pidfd':
            pid = st.env.norm(d['pid'])
            if k.procs.get(pid, ('running',))[0] != 'exited':
                self.exit_proc(eng, st, pid)
    def exit_proc(self, eng, st, pid):
        c = eng.choose(st, 3, 'exit') + 1
        s = st.sym(32, 'si_status', 0, 255) if c == 1 else st.sym(32, 'termsig', 1, 64)
        st.k.procs[pid] = ('exited', c, s)
    def x_ppoll(self, eng, st, th, f, I, a):
        if self.cancelpoint(eng, st, th, I): return NORET
        fd = eng.load(st, a[0], 4, I)
        eo = self.epoll(st, fd)
        st.logev('wait', 'ppoll', eo, a[1], a[2], I.loc())
        if type(a[2]) is tuple and a[2][0] == 'p':
            s = eng.load(st, a[2], 8, I); n = eng.load(st, ('p', a[2][1], lin_add(a[2][2], 8)), 8, I)
            st.logev('ppoll_ts', s, n)
            hi = lambda v: v if type(v) is int else st.env.range(v)[1] if type(v) is tuple and v[0] in ("s", "e", "L") else 0
            if hi(st.env.norm(s) if type(s) is tuple else s) < 0 or hi(st.env.norm(n) if type(n) is tuple else n) < 0: return self.seterr(eng, st, th, EINVAL)
        self.directwait(eng, st, th, I, 'ppoll', eo)
        if eo is None: return 1
        rs = [self.ready(st, r) for r in st.k.ofds[eo]['regs']]
        must = any(m for _, m in rs); may = any(m for m, _ in rs)
        outs = []
        if not must: outs.append(0)
        if may: outs.append(1)
        if st.opt.get('eintr'): outs.append(-1)
        r = outs[eng.choose(st, len(outs), 'ppoll')] if len(outs) > 1 else outs[0]
        if r < 0: return self.seterr(eng, st, th, EINTR)
        return r
    x_poll = x_ppoll
    def x_pselect(self, eng, st, th, f, I, a):
        if self.cancelpoint(eng, st, th, I): return NORET
        st.logev('wait', 'pselect', None, a[0], a[4], I.loc())
        return eng.choose(st, 2, 'pselect')
    # ---------------------------------------------------------------- I/O
    def hang(self, eng, st, I, what):
        eng.violate(st, 'C03', 'blocking-io', I, '%s blocks although nothing is pending, with library locks held' % what)
        raise Kill('hang')
    def x_read(self, eng, st, th, f, I, a):
        if self.cancelpoint(eng, st, th, I): return NORET
        k = st.k
        i = k.index(st, a[0])
        eng.oblige('read', I.loc())
        if i is None: return self.seterr(eng, st, th, EBADF)
        o = k.fds[i].ofd; d = k.ofds[o]; kd = d['kind']; n = a[2]; p = a[1]
        if kd == 'pipe_r':
            if d['eof']: return 0
            if not d['nonblock']: self.hang(eng, st, I, 'read of the close-notification pipe')
            return self.seterr(eng, st, th, EAGAIN)
        if kd == 'eventfd':
            if not d['count']:
                if not d['nonblock']: self.hang(eng, st, I, 'read of an eventfd')
                return self.seterr(eng, st, th, EAGAIN)
            if type(n) is int and n < 8: return self.seterr(eng, st, th, EINVAL)
            eng.store(st, p, 8, st.sym(64, 'count', 1), I)
            k.setofd(o, count=False); self.newedge(st, o, False)
            st.logev('read', 'eventfd', o)
            return 8
        if kd == 'timerfd':
            if not d['ready']:
                if not d['nonblock']: self.hang(eng, st, I, 'read of a timer that has not expired')
                return self.seterr(eng, st, th, EAGAIN)
            if type(n) is int and n < 8: return self.seterr(eng, st, th, EINVAL)
            v = st.sym(64, 'expirations', 1)
            eng.store(st, p, 8, v, I)
            k.setofd(o, ready=False, done=oneshot_spec(st, d['spec'])); self.newedge(st, o, True)
            st.logev('read', 'timerfd', o, v)
            return 8
        if kd == 'signalfd':
            if not d['ready']:
                if not d['nonblock']: self.hang(eng, st, I, 'read of a signalfd')
                return self.seterr(eng, st, th, EAGAIN)
            if type(n) is int and n < 128: return self.seterr(eng, st, th, EINVAL)
            more = d.get('more')
            if more and type(n) is int and n >= 256:
                eng.memset(st, p, ('u',), 256, I)
                k.setofd(o, ready=False, more=0)
                st.logev('read', 'signalfd', o); st.logev('read', 'signalfd', o)
                return 256
            eng.memset(st, p, ('u',), 128, I)
            k.setofd(o, ready=bool(more), more=0)
            st.logev('read', 'signalfd', o)
            return 128
        if kd == 'inotify':
            if d['ready'] is None:
                if not d['nonblock']: self.hang(eng, st, I, 'read of an inotify descriptor')
                return self.seterr(eng, st, th, EAGAIN)
            if st.opt.get('inotify_name') and type(n) is int and n == 16:
                if eng.choose(st, 2, 'name') == 1: k.setofd(o, named=1); return self.seterr(eng, st, th, EINVAL)
            if type(n) is int and n < 16: return self.seterr(eng, st, th, EINVAL)
            w = d['watches'][0]
            eng.store(st, p, 4, w[0], I)
            m = self.inmask(eng, st, w[1])
            eng.store(st, ('p', p[1], lin_add(p[2], 4)), 4, m, I)
            eng.store(st, ('p', p[1], lin_add(p[2], 8)), 4, 0, I)
            eng.store(st, ('p', p[1], lin_add(p[2], 12)), 4, 0, I)
            more = d.get('more')
            k.setofd(o, ready=('ev',) if more else None, more=0)
            if more and type(n) is int and n >= (64 if d.get('named') else 32):       # the next one fits as well
                m2 = self.inmask(eng, st, w[1])
                for off, v in ((16, w[0]), (20, m2), (24, 0), (28, 0)): eng.store(st, ('p', p[1], lin_add(p[2], off)), 4, v, I)
                k.setofd(o, ready=None)
                st.logev('read', 'inotify', o, m, w[1]); st.logev('read', 'inotify', o, m2, w[1])
                return 32
            if type(w[1]) is int and w[1] & 0x80000000: k.setofd(o, watches=d['watches'][1:] , ready=None)
            st.logev('read', 'inotify', o, m, w[1])
            return 16
        raise Kill('read of %s' % kd)
    INBITS = (0x2, 0x4, 0x8, 0x10, 0x400, 0x800, 0x8000)   # MODIFY ATTRIB CLOSE_WRITE CLOSE_NOWRITE DELETE_SELF MOVE_SELF IGNORED
    def inmask(self, eng, st, wmask):
        outs = []
        for b in self.INBITS:
            if b == 0x8000 or (type(wmask) is int and wmask & b): outs.append(b)
            elif type(wmask) is not int:
                kz, ko = st.env.bits(wmask, 32)
                if not kz & b: outs.append(b)
        b = outs[eng.choose(st, len(outs), 'inmask')]
        if type(wmask) is not int and b != 0x8000:
            kz, ko = st.env.bits(wmask, 32)
            if not ko & b:
                x = binop(st.env, 'and', 32, wmask, b)
                st.env.assume_cmp('ne', 32, x, 0, True)
        return b
    def newedge(self, st, o, v):
        k = st.k
        for eid, d in list(k.ofds.items()):
            if d['kind'] == 'epoll' and any(r.ofd == o for r in d['regs']):
                k.setofd(eid, regs=tuple(r.with_(edge=v) if r.ofd == o else r for r in d['regs']))
    def x_write(self, eng, st, th, f, I, a):
        if self.cancelpoint(eng, st, th, I): return NORET
        k = st.k; i = k.index(st, a[0])
        if i is None: return self.seterr(eng, st, th, EBADF)
        o = k.fds[i].ofd; d = k.ofds[o]
        if d['kind'] == 'eventfd':
            if type(a[2]) is int and a[2] < 8: return self.seterr(eng, st, th, EINVAL)
            v = eng.load(st, a[1], 8, I)
            st.logev('write', 'eventfd', o, v)
            if v == 0: return 8
            k.setofd(o, count=True); self.newedge(st, o, True)
            return 8
        raise Kill('write to %s' % d['kind'])
    def x_eventfd_write(self, eng, st, th, f, I, a):
        k = st.k; i = k.index(st, a[0])
        if i is None: return self.seterr(eng, st, th, EBADF)
        e = self.fault(eng, st, I, 'eventfd_write', [EINTR])
        if e: return self.seterr(eng, st, th, e)
        o = k.fds[i].ofd
        if k.ofds[o]['kind'] == 'eventfd' and a[1] != 0: k.setofd(o, count=True); self.newedge(st, o, True)
        return 0
    def x_eventfd_read(self, eng, st, th, f, I, a): return 0 if self.x_read(eng, st, th, f, I, [a[0], a[1], 8]) == 8 else -1
    def x_timerfd_settime(self, eng, st, th, f, I, a):
        k = st.k; i = k.index(st, a[0])
        if i is None: return self.seterr(eng, st, th, EBADF)
        o = k.fds[i].ofd
        v = [eng.load(st, ('p', a[2][1], lin_add(a[2][2], x)), 8, I) for x in (0, 8, 16, 24)]
        v = [st.env.norm(x) if type(x) is tuple and x[0] != 'u' else x for x in v]
        for x in v:
            if type(x) is tuple and x[0] == 'u':
                eng.violate(st, 'C20', 'undefined-timer', I, 'the timer is programmed with an uninitialised value')
                raise Kill('undef timer')
        # the kernel rejects negative values and nanoseconds out of range
        for j, x in enumerate(v):
            r = st.env.cmp('slt', 64, x, 0)
            if r is None: raise Fork([[('slt', 64, x, 0, True)], [('slt', 64, x, 0, False)]])
            if r: return self.seterr(eng, st, th, EINVAL)
            if j & 1:
                r = st.env.cmp('sgt', 64, x, 999999999)
                if r is None: raise Fork([[('sgt', 64, x, 999999999, True)], [('sgt', 64, x, 999999999, False)]])
                if r: return self.seterr(eng, st, th, EINVAL)
        st.logev('settime', o, a[1], tuple(v), I.loc(), k.ofds[o].get('clock'))
        zero = v[2] == 0 and v[3] == 0
        k.setofd(o, spec=(a[1],) + tuple(v), ready=False, done=False); self.newedge(st, o, True)
        return 0
    def x_inotify_add_watch(self, eng, st, th, f, I, a):
        k = st.k; i = k.index(st, a[0])
        if i is None: return self.seterr(eng, st, th, EBADF)
        e = self.fault(eng, st, I, 'inotify_add_watch', [ENOSPC])
        if e: return self.seterr(eng, st, th, e)
        wd = st.sym(32, 'wd', 1, 1 << 30)
        o = k.fds[i].ofd
        old = k.ofds[o]['watches']
        if old:             # the same file again: its watch gets another mask, what is queued stays
            wd, m0 = old[0]; m = a[2]
            if type(m) is int and m & 0x20000000 and type(m0) is int: m = (m | m0) & ~0x20000000
            k.setofd(o, watches=((wd, m),) + old[1:])
        else: k.setofd(o, watches=((wd, a[2]),))
        st.logev('inotify_add_watch', o, a[2], I.loc())
        return wd
    def x_inotify_rm_watch(self, eng, st, th, f, I, a):
        k = st.k; i = k.index(st, a[0])
        if i is None: return self.seterr(eng, st, th, EBADF)
        if not k.ofds[k.fds[i].ofd]['watches'] or type(a[1]) is int: return self.seterr(eng, st, th, EINVAL)     # no such watch
        k.setofd(k.fds[i].ofd, watches=())
        return 0
    def x_fstat(self, eng, st, th, f, I, a):
        k = st.k; i = k.index(st, a[0])
        if i is None: return self.seterr(eng, st, th, EBADF)
        d = k.ofds[k.fds[i].ofd]
        eng.memset(st, a[1], ('u',), 144, I)
        p = a[1]
        oid = k.fds[i].ofd; ino = 100000 + (d['peer'] if d['kind'] == 'pipe_w' else oid)
        eng.store(st, p, 8, 1, I); eng.store(st, ('p', p[1], lin_add(p[2], 8)), 8, ino, I)
        nl = st.sym(64, 'nlink', 0, 1 << 20); sz = st.sym(64, 'size', 0, 1 << 50)
        eng.store(st, ('p', p[1], lin_add(p[2], 16)), 8, nl, I)
        eng.store(st, ('p', p[1], lin_add(p[2], 24)), 4, d.get('mode', 0), I)
        eng.store(st, ('p', p[1], lin_add(p[2], 48)), 8, sz, I)
        st.logev('fstat', k.fds[i].ofd, nl, sz)
        return 0
    def x_lseek(self, eng, st, th, f, I, a):
        k = st.k; i = k.index(st, a[0])
        if i is None: return self.seterr(eng, st, th, EBADF)
        if st.env.norm(a[2]) == 2: v = st.sym(64, 'size', 0, 1 << 50); st.logev('fstat', k.fds[i].ofd, None, v); return v
        v = st.sym(64, 'pos', 0, 1 << 50); st.logev('lseek', k.fds[i].ofd, v); return v
    def x_ioctl(self, eng, st, th, f, I, a):
        k = st.k; i = k.index(st, a[0])
        if i is None: return self.seterr(eng, st, th, EBADF)
        if st.opt.get('ioctl_fail') and eng.choose(st, 2, 'ioctl') == 1: st.logev('ioctl', k.fds[i].ofd, a[1], None); return self.seterr(eng, st, th, EINVAL)
        v = st.sym(32, 'bytes', 0)
        eng.store(st, a[2], 4, v, I)
        st.logev('ioctl', k.fds[i].ofd, a[1], v)
        return 0
    def x_getsockopt(self, eng, st, th, f, I, a):
        k = st.k; i = k.index(st, a[0])
        if i is None: return self.seterr(eng, st, th, EBADF)
        d = k.ofds[k.fds[i].ofd]
        if d.get('mode') != S_IFSOCK: return self.seterr(eng, st, th, ENOTSOCK)
        v = {3: d.get('stype', 1), 30: d.get('listen', 0), 26: 0}.get(a[2])
        if a[2] == 26: return 0
        if a[2] == 4: v = d.get('soerr', 0); k.setofd(k.fds[i].ofd, soerr=0)         # reading the error clears it
        if v is None: v = st.sym(32, 'sockopt', 0, 200)
        if type(a[3]) is tuple and a[3][0] == 'p': eng.store(st, a[3], 4, v, I)
        if a[2] == 4: st.logev('so_error', k.fds[i].ofd, v)
        return 0
    def x_readlink(self, eng, st, th, f, I, a):
        e = self.fault(eng, st, I, 'readlink', [ENOENT])
        if e: return self.seterr(eng, st, th, e)
        return st.sym(64, 'linklen', 1, 4095)
    def x_waitid(self, eng, st, th, f, I, a):
        k = st.k; opts = a[3]
        eng.oblige('C19.waitid', I.loc())
        if type(opts) is not int or not opts & WNOWAIT:
            eng.violate(st, 'C19', 'reaps', I, 'waitid without WNOWAIT: the library reaps the application\'s child')
        if type(opts) is int and not opts & WNOHANG: eng.violate(st, 'C03', 'blocking-io', I, 'waitid without WNOHANG blocks with library locks held')
        if a[0] != 1:
            eng.violate(st, 'C19', 'wait-scope', I, 'waitid does not select the watched process only')
        pid = st.env.norm(a[1])
        h = eng.hooks.get('waitid')
        p = None
        for q in k.procs:
            if st.env.cmp('eq', 32, st.env.norm(q), pid) is True: p = k.procs[q]
        if p is None:
            # unknown process: not our child, or still running
            p = ('running', 0, 0)
        c = 0
        if st.opt.get('reaped'): c = eng.choose(st, 2, 'reaped')
        if c: st.logev('waitid', pid, 'ECHILD'); return self.seterr(eng, st, th, ECHILD)
        b = a[2]
        if p[0] == 'running':
            # WNOHANG, nothing to report: only si_signo and si_pid are zeroed
            eng.store(st, b, 4, 0, I); eng.store(st, ('p', b[1], lin_add(b[2], 16)), 4, 0, I)
            if st.opt.get('waitid_zero', True):
                eng.store(st, ('p', b[1], lin_add(b[2], 4)), 4, 0, I); eng.store(st, ('p', b[1], lin_add(b[2], 8)), 4, 0, I)
                eng.store(st, ('p', b[1], lin_add(b[2], 24)), 4, 0, I)
            st.logev('waitid', pid, None)
            return 0
        eng.store(st, b, 4, SIGCHLD, I); eng.store(st, ('p', b[1], lin_add(b[2], 8)), 4, p[1], I)
        eng.store(st, ('p', b[1], lin_add(b[2], 16)), 4, pid, I); eng.store(st, ('p', b[1], lin_add(b[2], 20)), 4, 0, I)
        eng.store(st, ('p', b[1], lin_add(b[2], 24)), 4, p[2], I)
        st.logev('waitid', pid, p)
        return 0
    def reap(self, what):
        def m(self, eng, st, th, f, I, a):
            eng.violate(st, 'C19', 'reaps', I, '%s() reaps the application\'s child' % what); return st.sym(32, 'pid')
        return m
    x_waitpid = reap(None, 'waitpid'); x_wait = reap(None, 'wait'); x_wait4 = reap(None, 'wait4'); x_wait3 = reap(None, 'wait3')

def oneshot_spec(st, spec):
    return spec is not None and spec[1] == 0 and spec[2] == 0
