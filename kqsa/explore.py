"""Most-general-client fixpoint.

A *world* is an abstract state between API calls.  The driver applies every
client operation of a scenario to every world, interprets the library code
abstractly, checks the obligations that hold at the end of each operation and
merges the resulting worlds by a canonical form, until no new world appears (or
the stated depth is reached).
"""
import time
from .domain import *
from .engine import *
from .kernel import *
from . import kernel as K

EV_ADD, EV_DELETE, EV_ENABLE, EV_DISABLE, EV_ONESHOT, EV_CLEAR, EV_RECEIPT, EV_DISPATCH, EV_ERROR, EV_EOF = \
    1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0x4000, 0x8000
READ, WRITE, AIO, VNODE, PROC, SIGNAL, TIMER, USER, LIBKQ = -1, -2, -3, -4, -5, -6, -7, -11, -12
FNAME = {READ: 'EVFILT_READ', WRITE: 'EVFILT_WRITE', AIO: 'EVFILT_AIO', VNODE: 'EVFILT_VNODE', PROC: 'EVFILT_PROC', SIGNAL: 'EVFILT_SIGNAL',
         TIMER: 'EVFILT_TIMER', USER: 'EVFILT_USER', LIBKQ: 'EVFILT_LIBKQUEUE'}
def flagstr(f):
    return '|'.join(n for n, b in (('ADD', 1), ('DELETE', 2), ('ENABLE', 4), ('DISABLE', 8), ('ONESHOT', 16), ('CLEAR', 32), ('RECEIPT', 64),
                                   ('DISPATCH', 128), ('ERROR', 0x4000), ('EOF', 0x8000)) if f & b) or '0'

class Outcome:
    """what one API call did, as the caller sees it"""
    __slots__ = ('st', 'rv', 'errno', 'entries', 'writes', 'log', 'cancelled', 'el')

# ------------------------------------------------------------------ canonical form
class Canon:
    def __init__(self, st):
        self.st = st; self.o = {}; self.s = {}; self.q = []; self.out = []
    def val(self, v):
        if type(v) is int or v is None or type(v) is str: return v
        if type(v) is bool: return v
        if type(v) is not tuple: return str(v)
        if not v: return v
        t = v[0]
        if t in ('s', 'e', 'L', 'p') and len(v) > 1:
            v = self.st.env.norm(v)
            if type(v) is int: return v
            t = v[0]
        if t == 's' and len(v) == 4 and type(v[1]) is int:
            n = self.s.get(v[1])
            if n is None:
                n = len(self.s); self.s[v[1]] = n
                r = self.st.env.range(v); b = self.st.env.bits(v, v[2])
                return ('s', n, r, b, v[3])
            return ('s', n)
        if t == 'p' and len(v) == 3:
            if type(v[1]) is tuple: return ('p', v[1], self.val(v[2]))
            n = self.o.get(v[1])
            if n is None:
                n = len(self.o); self.o[v[1]] = n; self.q.append(v[1])
            return ('p', n, self.val(v[2]))
        return (t,) + tuple(self.val(x) for x in v[1:])
    def cells(self, o):
        ks = [c for c in o.cells if type(c) is int]; ks.sort()
        out = [(c, o.cells[c][0], self.val(o.cells[c][1])) for c in ks]
        for c in o.cells:
            if type(c) is not int: out.append((self.val(self.st.env.norm(c)), o.cells[c][0], self.val(o.cells[c][1])))
        return tuple(out)
    def drain(self):
        while self.q:
            oid = self.q.pop(0); o = self.st.objs.get(oid)
            if o is None: self.out.append((self.o[oid], 'dead')); continue
            if o.freed is not None: self.out.append((self.o[oid], 'freed')); continue
            self.out.append((self.o[oid], o.kind, o.site, self.val(o.size), o.bg if type(o.bg) is str else self.val(o.bg), self.cells(o)))

def canon(st, skip=()):
    c = Canon(st); out = c.out
    for oid in sorted((x for x in st.objs if type(x) is tuple), key=str):
        o = st.objs[oid]
        if o.kind == 'const' or oid in skip: continue
        if oid[0] == 't' and (oid[1] in ('errno', 'strerror_buf')): continue
        if oid[0] == 't' and oid[2] not in st.threads: continue
        if oid[0] == 'g' and oid[1] in c_skip: continue
        out.append((oid, c.cells(o)))
    for t, th in sorted(st.threads.items()):
        if t == 0: out.append((0, th.cancel_off, th.sigmask)); continue
        out.append((t, th.role, c.val(th.status) if type(th.status) is tuple else th.status,
                    tuple((f.fn.name, f.bb, f.ip) for f in th.frames), th.held and len(th.held), c.val(th.ret), th.detached, th.blockedmask))
        for f in th.frames:
            for a in f.allocas: c.val(('p', a, 0))
    k = st.k
    for f in k.fds:
        d = k.ofds[f.ofd]
        out.append((c.val(f.num), f.owner, f.cloexec, ofdkey(st, c, f.ofd, d)))
    out.append(tuple(sorted((c.val(m), v) for m, v in k.mutex.items())) if k.mutex else ())
    out.append(tuple((t, tuple((s, c.val(i)) for s, i in q)) for t, q in sorted(k.pending.items())))
    out.append(tuple((c.val(p), c.val(v)) for p, v in k.procs.items()))
    out.append((k.child, len(k.lostsig), len(k.atexit), len(k.atfork)))
    out.append(speckey(c, st.ghost.get('spec')))
    out.append(speckey(c, st.ghost.get('kqs')))
    c.drain()
    return tuple(out)
c_skip = set()
def ofdkey(st, c, oid, d):
    out = [oid if False else d['kind']]
    for a in sorted(d):
        if a in ('kind', 'peer'): continue
        v = d[a]
        if a == 'regs': out.append(tuple((c.val(r.num), r.events, c.val(r.data), r.armed, r.edge) for r in v))
        else: out.append((a, c.val(v) if type(v) is tuple else v))
    return tuple(out)
def speckey(c, s):
    if s is None: return None
    return tuple((k, tuple((a, c.val(b)) for a, b in sorted(v.items()))) for k, v in sorted(s.items(), key=lambda x: str(x[0])))

# ------------------------------------------------------------------ reachability (leaks)
def reach(st):
    """oids reachable from the library's roots, and the values stored in reachable cells"""
    seen = set(); vals = []; q = []
    def push(v):
        if type(v) is tuple:
            if v and v[0] == 'p' and len(v) == 3:
                if v[1] not in seen: seen.add(v[1]); q.append(v[1])
            elif v and v[0] == 'A':
                for x in v[1]: push(x)
            elif v and v[0] == 'e' and v[1] == 'gep': push(v[3])
    for oid, o in st.objs.items():
        if type(oid) is tuple and o.kind != 'const': seen.add(oid); q.append(oid)
    for th in st.threads.values():
        for f in th.frames:
            for r in f.regs: push(r)
            for a in f.allocas:
                if a not in seen: seen.add(a); q.append(a)
    for d in st.k.ofds.values():
        for r in d['regs']: push(r.data)
    while q:
        oid = q.pop(); o = st.objs.get(oid)
        if o is None or o.freed is not None: continue
        for c, (s, v) in o.cells.items():
            if type(v) is tuple:
                push(v)
                if v[0] in ('s', 'e', 'L') and s >= 4: vals.append(v)
            else: vals.append(v)
        if type(o.bg) is tuple and o.bg[0] == 'fill': push(o.bg[2])
    return seen, vals

class Driver:
    instrument = None        # conc.attach when a concurrency property is decided
    def __init__(self, module, rules=None):
        self.eng = Engine(module, Models()); self.M = module
        if Driver.instrument: Driver.instrument(self.eng)
        self.rules = rules or {}
        self.worlds = 0; self.ops = 0; self.names = set()
    # -------------------------------------------------------------- start
    def boot(self):
        st = State(); st.k = Kern(); st.k.rlim = st.sym(64, 'RLIM', 16, 1 << 30)
        st.threads[0] = Thread(0, 'app'); st.threads[0].status = 'idle'
        st.ghost['spec'] = {}; st.ghost['kqs'] = {}
        return st
    def fork_state(self, st, label):
        s = st.clone(); s.log = None; s.nlog = 0; s.pend = (); s.steps = 0; s.notes = (); s.nfault = 0
        s.hist = (st.hist, label)
        s.ghost['api'] = s.ghost.get('api', 0) + 1
        return s
    def start(self, s, fname, args):
        th = s.threads[0]
        th.frames = []; th.status = 'run'; th.ret = None; th.cleanup = (); th.jmp = {}; th.cancel_off = s.ghost.get('pre_cancel', 0); s.ghost['mask0'] = th.sigmask
        s.cur = 0
        F = self.M.functions.get(fname); s.trail = None
        self.eng.push(s, th, F, args)
    def finish(self, fins, what):
        """normalise the final states of one API call"""
        out = []
        for s in fins:
            th = s.threads[0]
            o = Outcome(); o.st = s; o.cancelled = th.ret == 'cancelled'; o.rv = s.env.norm(th.ret) if type(th.ret) is tuple else th.ret
            e = s.objs.get(('t', 'errno', 0)); c = e.cells.get(0) if e else None
            o.errno = s.env.norm(c[1]) if c and type(c[1]) is tuple else (c[1] if c else 0)
            o.log = s.events(); o.entries = []; o.writes = []; o.el = None
            self.after(s, o, what)
            th.status = 'idle'; th.frames = []
            out.append(o)
        self.ops += 1
        return out
    def errno_init(self, s):
        o = self.eng.getobj(s, ('t', 'errno', 0))
        s.wobj(('t', 'errno', 0)).cells[0] = (4, s.ghost.get('errno0', 0))
    # -------------------------------------------------------------- API calls
    def kqueue(self, st, faults=0, opt=None, label='kqueue()'):
        s = self.fork_state(st, label); s.faults = faults; s.opt = opt or {'sched': False}
        self.errno_init(s)
        self.start(s, 'kqueue', [])
        return self.finish(self.eng.run(s, 0), 'kqueue')
    def mkchanges(self, s, changes):
        oid = s.newobj('user', 'changelist', 32 * len(changes), 'undef')
        o = s.objs[oid]
        for i, (flt, ident, flags, fflags, data, udata) in enumerate(changes):
            for off, sz, v in ((0, 8, ident), (8, 2, flt), (10, 2, tosigned(flags, 16) if type(flags) is int else flags),
                               (12, 4, tosigned(fflags, 32) if type(fflags) is int else fflags), (16, 8, data), (24, 8, udata)):
                o.cells[32 * i + off] = (sz, v)
        return oid
    def mkts(self, s, sec, nsec):
        oid = s.newobj('user', 'timeout', 16, 'undef'); o = s.objs[oid]
        o.cells[0] = (8, sec); o.cells[8] = (8, nsec)
        return ('p', oid, 0)
    def kevent(self, st, kqfd, changes, nev, ts=(0, 0), faults=0, opt=None, label='kevent()', elnull=False, prep=None, nchanges=None):
        s = self.fork_state(st, label); s.faults = faults; s.opt = opt or {}
        self.errno_init(s)
        if prep: changes, nev, ts = prep(s, changes, nev, ts)
        cl = 0; clo = None
        if changes:
            clo = self.mkchanges(s, changes); cl = ('p', clo, 0)
        el = 0; eo = None
        if not elnull:
            if s.opt.get('inplace') and clo:      # the same array for the changes and the events
                eo = clo; s.objs[eo].size = 32 * max(len(changes), nev)
            else: eo = s.newobj('user', 'eventlist', lin_scale(nev, 32), 'undef')
            el = ('p', eo, 0)
        tsp = 0 if ts is None else self.mkts(s, *ts)
        s.ghost['sigchg'] = tuple(c[1] for c in changes if c[0] == SIGNAL)
        self.start(s, 'kevent', [kqfd, cl, len(changes) if nchanges is None else nchanges, el, nev, tsp])
        outs = self.finish(self.eng.run(s, 0), 'kevent')
        for o in outs:
            w = o.st
            if clo and eo != clo:
                self.eng.oblige('C17.changelist-const')
                if w.objs[clo].wlog is not None:
                    loc = w.objs[clo].wlog[1][2]
                    self.eng.violate(w, 'C17', 'changelist-written', None, "the caller's changelist is written at %s" % loc, key=('changelist', loc))
            if eo is not None: self.entries(w, o, eo, nev, eo == clo)
            for x in (clo, eo, tsp[1] if tsp else None):
                if x is not None: w.objs.pop(x, None)
        return outs
    def entries(self, w, o, eo, nev, inplace=False):
        """split what was written to the event list into entries and check C04"""
        eng = self.eng; ob = w.objs[eo]; o.el = ob
        log = []; l = ob.wlog
        while l is not None: log.append(l[1]); l = l[0]
        log.reverse(); o.writes = log
        n = o.rv
        eng.oblige('C04.count')
        cov = set()
        maxi = -1
        for off, sz, loc in log:
            if type(off) is not int: continue
            maxi = max(maxi, (off + sz - 1) // 32)
        if type(n) is int and n >= 0:
            eng.oblige('C04.rv')
            for i in range(min(n, 64)):
                ent = {}
                for nm, off, sz in (('ident', 0, 8), ('filter', 8, 2), ('flags', 10, 2), ('fflags', 12, 4), ('data', 16, 8), ('udata', 24, 8)):
                    if type(nev) is int and 32 * i + 32 > 32 * nev: ent = None; break
                    v = eng.read(w, eo, w.objs[eo], 32 * i + off, sz)
                    ent[nm] = w.env.norm(v) if type(v) is tuple and v[0] in ('s', 'e', 'L') else v
                if ent is None:
                    eng.violate(w, 'C04', 'return-count', None, 'kevent() returns %d but the event list has only %s entries' % (n, show(nev)), key=('rv>nevents',))
                    break
                und = [nm for nm, v in ent.items() if type(v) is tuple and v[0] == 'u']
                if inplace: und += [nm for nm, off in (('filter', 8), ('flags', 10), ('data', 16)) if not any(type(a) is not int or a <= 32 * i + off < a + (z if type(z) is int else 32) for a, z, _ in log)]
                if und:
                    eng.violate(w, 'C04', 'stale-entry', None, 'kevent() returns %d but field %s of entry %d was never filled in' % (n, '/'.join(und), i),
                                key=('stale', '/'.join(und), tuple(x for x in w.history()[-1:])))
                o.entries.append(ent)
        elif type(n) is not int and not o.cancelled:
            r = w.env.cmp('sle', 32, n, nev)
            if r is not True:
                eng.violate(w, 'C04', 'return-count', None, 'kevent() returns %s which may exceed nevents' % show(n), key=('rv-sym',))
    # -------------------------------------------------------------- environment operations
    def settle(self, s, faults=0, opt=None):
        """let signalled threads run until they block again"""
        s.faults = faults; s.opt = opt or {}
        for t, q in list(s.k.pending.items()):
            th = s.threads.get(t)
            if th is not None and type(th.status) is tuple and th.status[0] == 'sigwait':
                if any(self.eng.ext.inset(s, sig, th.status[1]) for sig, i in q): th.status = 'run'
        s.threads[0].status = 'idle'; s.cur = 0
        fins = self.eng.run(s, 0)
        for x in fins: self.after(x, None, 'thread')
        self.ops += 1
        return fins
    def userfd(self, s, name='ufd', mode=S_IFSOCK, **kw):
        return s.k.newfd(s, 'user', 'user', False, 'app', mode=mode, **kw)
    def closefd(self, st, num, label, settle=True):
        """the application closes a descriptor"""
        s = self.fork_state(st, label)
        i = s.k.index(s, num)
        if i is None: return [s]
        s.k.closeidx(s, i)
        if settle == 'held':         # the thread that is told has taken the notification, but not yet any lock of the library
            fins = self.settle(s, opt={'hold': True})
            for x in fins:
                for t in x.threads.values():
                    if type(t.status) is tuple and t.status[0] == 'heldlock': t.status = ('lock', t.status[1])
            return fins
        return self.settle(s) if settle else [s]
    # -------------------------------------------------------------- fork and exit
    def call(self, st, fns, label, faults=0, opt=None):
        """run a sequence of callbacks (fork or exit handlers) in the application's thread; no end-of-call obligations"""
        cur = [self.fork_state(st, label)]
        for fn in fns:
            if type(fn) is not tuple or fn[0] != 'f': continue
            nxt = []
            for s in cur:
                s.faults = faults; s.opt = opt or {'sched': False}
                self.start(s, fn[1], [])
                for x in self.eng.run(s, 0):
                    x.threads[0].status = 'idle'; x.threads[0].frames = []; nxt.append(x)
            cur = nxt
        self.ops += 1
        return cur
    def child_of(self, st):
        """the copy of the process fork() makes: only the calling thread, same memory, same descriptors"""
        s = self.fork_state(st, 'in the child')
        s.threads = {0: s.threads[0]}; s.k.child = True; s.k.pending = {}
        s.ghost['deadlocks'] = frozenset(m for m, (own, n) in s.k.mutex.items() if own != 0)
        return s
    # -------------------------------------------------------------- obligations at the end of an API call
    def after(self, s, o, what):
        eng = self.eng; k = s.k; th = s.threads[0]
        eng.oblige('api-end'); 
        ins = None
        if o is not None:
            eng.oblige('C01.balance')
            if th.held:
                eng.violate(s, 'C01', 'return-holding', None, '%s() %s with %s held%s' % (what, 'is cancelled' if o.cancelled else 'returns %s' % show(o.rv),
                            ', '.join(eng.ext.lockname(s, x) for x in th.held), notes(s)), key=('return-holding', what, tuple(eng.ext.lockname(s, x) for x in th.held)))
            if not o.cancelled and th.cancel_off != s.ghost.get('pre_cancel', 0):
                eng.violate(s, 'C01', 'cancel-state', None, '%s() returns %s with cancellation %s%s' % (what, show(o.rv), 'disabled' if th.cancel_off else 'enabled', notes(s)),
                            key=('cancel-state', what, s.notes[-1:] ))
            eng.oblige('C23.caller-mask')
            for was, now, verb in ((th.sigmask, s.ghost.get('mask0', ()), 'unblocks'), (s.ghost.get('mask0', ()), th.sigmask, 'blocks')):
                for x in now:
                    if x in was: continue
                    if verb == 'blocks' and any(onesig(s, x, g) for g in (s.ghost.get('sigchg') or () if what == 'kevent' else ())): continue
                    eng.violate(s, 'C23', 'caller-mask', None, '%s() %s signals of the calling thread that were not being registered (%s)%s' % (what, verb, show(x) if type(x) is tuple else x, notes(s)),
                                key=('mask', what, verb))
        for m, (own, n) in k.mutex.items():
            if m in (s.ghost.get('deadlocks') or ()): continue
            if own not in s.threads or (own == 0 and m not in th.held):
                eng.violate(s, 'C01', 'orphan-lock', None, 'mutex %s stays locked by a finished activity' % eng.ext.lockname(s, m), key=('orphan', eng.ext.lockname(s, m)))
        # descriptors
        for f in k.fds:
            if f.owner != 'lib': continue
            eng.oblige('C12.cloexec', f.site)
            if not f.cloexec:
                eng.violate(s, 'C12', 'not-cloexec', None, 'the %s created at %s is not close-on-exec when %s returns' % (k.ofds[f.ofd]['kind'], f.site, what), key=('cloexec', f.site))
        # epoll data pointing to freed memory
        for oid, d in k.ofds.items():
            for r in d['regs']:
                if type(r.data) is tuple and r.data[0] == 'p':
                    eng.oblige('C10.epoll-ref', r.site)
                    ob = s.objs.get(r.data[1])
                    if ob is None or ob.freed is not None:
                        eng.violate(s, 'C10', 'kernel-reference-dangles', None,
                                    'after %s the epoll registration made at %s still refers to %s (allocated at %s), freed at %s%s' %
                                    (what, r.site, ob.name if ob else 'a dead object', ob.site if ob else '?', ob.freed if ob else '?', notes(s)),
                                    key=('dangle', r.site, ob.freed if ob else '?'))
        # leaks
        seen, vals = reach(s)
        nv = {}
        for v in vals:
            v = s.env.norm(v) if type(v) is tuple else v
            nv[v] = True
        kq = s.ghost.get('kqs', {})
        for oid, ob in list(s.objs.items()) if not k.child else ():
            if ob.kind != 'heap': continue
            if ob.freed is not None:
                if oid not in seen: del s.objs[oid]
                continue
            eng.oblige('C09.reachable', ob.site)
            if oid not in seen:
                eng.violate(s, 'C09', 'leak-memory', None, 'after %s the memory allocated at %s (%s) is unreachable and not freed%s' % (what, ob.site, ob.name, notes(s)),
                            key=('leak', ob.site, s.notes[-1:] and s.notes[-1]))
                del s.objs[oid]
        if not k.child:
          for f in list(k.fds):
            if f.owner != 'lib': continue
            n = s.env.norm(f.num)
            eng.oblige('C09.fd-reachable', f.site)
            if n in nv: continue
            if o is not None and o.rv == n: continue
            if any(s.env.norm(q['fd']) == n for q in kq.values()): continue
            eng.violate(s, 'C09', 'leak-descriptor', None, 'after %s the %s opened at %s stays open but nothing refers to it any more%s' %
                        (what, k.ofds[f.ofd]['kind'], f.site, notes(s)), key=('leakfd', f.site, s.notes[-1:] and s.notes[-1]))
            k.fds.remove(f)
            if k.refs(f.ofd) == 0:
                for eid, d in list(k.ofds.items()):
                    if d['kind'] == 'epoll': k.setofd(eid, regs=tuple(r for r in d['regs'] if r.ofd != f.ofd))
                k.ofds.pop(f.ofd, None)
def onesig(s, word, ident):
    """the signal set contains just this signal"""
    ident = s.env.norm(ident) if type(ident) is tuple else ident
    if type(word) is int: return (type(ident) is int and 0 < ident <= 64 and word == tosigned(1 << (ident - 1), 64)) or (type(ident) is not int and word & (word - 1) == 0)
    if type(word) is tuple and word[0] == 'S': return word[1] == 0 and len(word[2]) == 1 and word[2][0] != '?' and s.env.cmp('eq', 32, word[2][0], ident) is not False
    return False
def notes(s): return ' [%s]' % '; '.join(s.notes) if s.notes else ''

def dedupe(states):
    seen = {}; out = []
    for s in states:
        c = canon(s)
        if c in seen: continue
        seen[c] = s; out.append(s)
    return out
