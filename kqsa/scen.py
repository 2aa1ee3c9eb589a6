"""Client scenarios and the registration automaton they are compared with."""
import time
from .explore import *
from . import domain as D_

NOTE_TRIGGER, FFAND, FFOR, FFCOPY, FFMASK, FFCTRL = 0x01000000, 0x40000000, 0x80000000, 0xc0000000, 0xffffff, 0xc0000000
NOTE_EXIT = 0x80000000
KINDF = {'timerfd': TIMER, 'signalfd': SIGNAL, 'inotify': VNODE, 'pidfd': PROC}
SRCKIND = {v: k for k, v in KINDF.items()}
EPOLLET_ = 1 << 31
RD = EPOLLIN | EPOLLRDHUP | EPOLLHUP | EPOLLERR | EPOLLPRI
WR = EPOLLOUT | EPOLLHUP | EPOLLERR
FPROP = {TIMER: 'C20', USER: 'C18', SIGNAL: 'C24', VNODE: 'C22', PROC: 'C19'}
PERSIST = EV_ONESHOT | EV_CLEAR | EV_DISPATCH

def eq(st, w, a, b):
    a = st.env.norm(a) if type(a) is tuple and a[0] in ('s', 'e', 'L') else a
    b = st.env.norm(b) if type(b) is tuple and b[0] in ('s', 'e', 'L') else b
    if a == b: return True
    if a == ('u',) or b == ('u',): return False
    if type(a) is tuple and a[0] not in ('s', 'e', 'L'): return False
    if type(b) is tuple and b[0] not in ('s', 'e', 'L'): return False
    return st.env.cmp('eq', w, a, b)

def atoms(v, out=None):
    out = set() if out is None else out
    l = lin(v) if type(v) is int or (type(v) is tuple and v and v[0] in ('s', 'e', 'L')) else None
    if l is not None:
        for a in l[1]: out.add(a)
    return out
class NoValue(Exception): pass
def evalv(v, asg):
    """value of an expression when the unknowns it is built from have the given values"""
    if type(v) is int: return v
    if v[0] == 's':
        if v not in asg: raise NoValue
        return asg[v]
    if v[0] == 'L': return v[1] + sum(k * evalv(x, asg) for x, k in v[2])
    if v[0] != 'e': raise NoValue
    op, w = v[1], v[2]
    if op == 'trunc': return tosigned(evalv(v[3], asg), w)
    if op == 'zext': return evalv(v[3], asg) & umask(v[4])
    if op == 'sext': return evalv(v[3], asg)
    if op == 'icmp' or len(v) < 5: raise NoValue
    x = evalv(v[3], asg); y = evalv(v[4], asg); ux = x & umask(w); uy = y & umask(w)
    if op == 'and': r = ux & uy
    elif op == 'or': r = ux | uy
    elif op == 'xor': r = ux ^ uy
    elif op == 'add': r = x + y
    elif op == 'sub': r = x - y
    elif op == 'mul': r = x * y
    elif op in ('shl', 'lshr', 'ashr'):
        if uy >= w: raise NoValue
        r = ux << uy if op == 'shl' else ux >> uy if op == 'lshr' else x >> uy
    elif op in ('udiv', 'urem', 'sdiv', 'srem'):
        if y == 0: raise NoValue
        if op[0] == 'u': r = ux // uy if op == 'udiv' else ux % uy
        else:
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            r = q if op == 'sdiv' else x - q * y
    else: raise NoValue
    return tosigned(r, w)
def inside(d, v, w=64):
    u = v & umask(64)
    return d.lo <= v <= d.hi and not (u & d.kz) and (u & d.ko) == d.ko and v not in d.ne
def witness(st, w, a, b):
    """an assignment of the unknowns, allowed by what the path has established, under which a and b differ"""
    base = set()
    def bases(v):
        if type(v) is not tuple: return
        if v[0] == 's': base.add(v)
        elif v[0] == 'L':
            for x, k in v[2]: bases(x)
        elif v[0] == 'e':
            for x in v[3:]: bases(x)
    bases(a); bases(b)
    if not base or len(base) > 2: return None
    cand = []
    for x in sorted(base, key=str):
        if str(x[3] if len(x) > 3 else '').startswith('?'): return None
        d = st.env.dom.get(x) or Dom(smin(x[2]), smax(x[2]))
        if d.hi - d.lo <= 256: c = list(range(d.lo, d.hi + 1))
        else: c = sorted({q for k in range(x[2]) for q in ((1 << k) - 1, 1 << k, (1 << k) + 1, -(1 << k), 0x5a5a5a5a5a5a5a5a >> (64 - k) if k else 0)} | {d.lo, d.hi, d.hi - 1, d.lo + 1})
        c = [q for q in c if inside(d, q)]; n = 400 if len(base) == 1 else 50
        cand.append(c if len(c) <= n else [c[i * (len(c) - 1) // (n - 1)] for i in range(n)])
    rel = []
    for x, d in st.env.dom.items():
        if x[0] == 'e':
            m = set(base); base.clear(); bases(x); mine = set(base); base.clear(); base.update(m)
            if mine and mine <= m: rel.append((x, d))
    bs = sorted(base, key=str)
    for vals in ([(x,) for x in cand[0]] if len(bs) == 1 else [(x, y) for x in cand[0] for y in cand[1]]):
        asg = dict(zip(bs, vals))
        try:
            if (evalv(a, asg) - evalv(b, asg)) & umask(w) == 0: continue
        except NoValue: return None
        ok = True
        for x, d in rel:
            try:
                if x[1] == 'icmp':
                    ok = ok and icmpok(x, d, asg)
                elif not inside(d, evalv(x, asg)): ok = False
            except NoValue: ok = False
            if not ok: break
        for terms, (lo, hi) in st.env.facts.items() if ok else ():
            try: t = sum(k * evalv(x, asg) for x, k in terms)
            except NoValue: continue
            if (lo is not None and t < lo) or (hi is not None and t > hi): ok = False; break
        for terms, val in st.env.ne if ok else ():
            try:
                if sum(k * evalv(x, asg) for x, k in terms) == val: ok = False; break
            except NoValue: continue
        if ok: return asg
    return None
def icmpok(x, d, asg):
    pred, w = x[3], x[4]; p = evalv(x[5], asg); q = evalv(x[6], asg)
    if pred[0] == 'u' : p &= umask(w); q &= umask(w)
    r = {'eq': p == q, 'ne': p != q, 'lt': p < q, 'le': p <= q, 'gt': p > q, 'ge': p >= q}[pred if pred in ('eq', 'ne') else pred[1:]]
    return inside(d, -1 if r else 0)
def same(st, w, a, b, ok=()):
    """True / False / None: provably equal, different for some value, undecided (opaque arithmetic)"""
    r = eq(st, w, a, b)
    if r is not None: return r
    a = st.env.norm(a); b = st.env.norm(b)
    for x in atoms(a) | atoms(b):
        if x[0] == 'e' and x not in ok: return False if witness(st, w, a, b) else None
        if x[0] == 's' and str(x[3] if len(x) > 3 else '').startswith('?'): return None
    return False

class Dead(Exception):
    """no queue can be made at all: nothing more to analyse"""
    def __init__(self, D): Exception.__init__(self, 'no queue can be made'); self.D = D

class Client:
    """one exploration: a driver, the registration automaton and the operations"""
    def __init__(self, D, faults=0):
        self.D = D; self.eng = D.eng; self.faults = faults
        self.maxworlds = 4000; self.stats = {'worlds': 0, 'ops': 0, 'merged': 0, 'depth': 0}
        self.base = None; self.rw_mask = True; self.polls = 0; self.srcmap = {}; self.presrc = {}; self.nofx = False
    def v(self, st, props, rule, msg, key=None, flt=None, r=None):
        """props: the properties this observation contradicts; flt adds the filter's own contract;
        r (a registration whose state is wrong) adds C06 when a delivery put it into that state"""
        st.ghost['bad'] = True
        if type(props) is str: props = (props,)
        if r is not None and r.get('deliv') and r['fl'] & (EV_ONESHOT | EV_DISPATCH) and 'C06' not in props: props = tuple(props) + ('C06',)
        if r is not None and r.get('refl') and 'C05' not in props and rule in ('event-while-disabled', 'never-delivered'): props = (props if type(props) is tuple else (props,)) + ('C05',)
        if flt in FPROP and FPROP[flt] not in props: props = tuple(props) + (FPROP[flt],)
        for prop in props:
            self.eng.violate(st, prop, rule, None, msg + notes(st) + ' after: ' + ' ; '.join(st.history()[-8:]), key=key or (rule, msg))
    thread_unsafe = traced = False
    def queues(self, n=1, mode=None):
        """worlds with n fresh queues (no faults)"""
        ws = [self.D.boot()]
        for i in range(n):
            nxt = []
            for w in ws:
                for o in self.D.kqueue(w, label='kq%d=kqueue()' % i):
                    if type(o.rv) is int and o.rv < 0:
                        if not o.st.nfault: self.v(o.st, 'C15', 'kqueue-fails', 'kqueue() fails with errno %s although no call it makes fails' % show(o.errno), key=('kqueue-fails',))
                        continue
                    kqs = dict(o.st.ghost['kqs']); kqs[i] = {'fd': o.rv}; o.st.ghost['kqs'] = kqs
                    nxt.append(o.st)
            ws = dedupe(nxt)[:2]
        if self.traced:             # NOTE_DEBUG on (fails in release builds)
            ws = dedupe([o.st for w in ws for o in self.D.kevent(w, w.ghost['kqs'][0]['fd'], [(LIBKQ, 0, EV_ADD, 5, 1, 0)], 0, label='NOTE_DEBUG on')])
        if self.thread_unsafe:      # NOTE_THREAD_SAFE off
            ws = dedupe([o.st for w in ws for o in self.D.kevent(w, w.ghost['kqs'][0]['fd'], [(LIBKQ, 0, EV_ADD, 3, 0, 0)], 0, label='NOTE_THREAD_SAFE off')])
        if not ws: raise Dead(self.D)
        self.base = self.counts(ws[0])
        return ws
    def counts(self, st):
        fds = {}; mem = {}
        for f in st.k.fds:
            if f.owner == 'lib': kd = st.k.ofds[f.ofd]['kind']; fds[kd] = fds.get(kd, 0) + 1
        for oid, o in st.objs.items():
            if o.kind == 'heap' and o.freed is None: mem[o.site] = mem.get(o.site, 0) + 1
        nreg = sum(len(d['regs']) for d in st.k.ofds.values())
        return fds, mem, nreg
    # -------------------------------------------------------------- changes
    def expect(self, spec, key, flags):
        """(result, new registration or None) demanded by the documented semantics"""
        r = spec.get(key)
        if flags & EV_DISPATCH and flags & EV_ONESHOT: return 'EINVAL', r
        if r is None:
            if not flags & EV_ADD: return 'ENOENT', None
            return 'ok', {'en': not flags & EV_DISABLE, 'fl': flags & PERSIST}
        if flags & EV_DELETE: return 'ok', None
        r = dict(r)
        if flags & EV_DISABLE: r['en'] = False
        elif flags & EV_ENABLE:
            if not r['en'] and key[1] in (READ, WRITE): r.pop('final', None); r.pop('deliv', None)
            r['en'] = True
        elif flags & EV_ADD or flags == 0 or flags & EV_RECEIPT:
            r['mod'] = True
            if flags & EV_ADD and (r['fl'] ^ flags) & EV_DISPATCH: r['refl'] = True
            if key[1] == TIMER and flags & EV_ADD: r['fl'] = flags & PERSIST | r['fl'] & EV_CLEAR
            elif flags & EV_ADD: r['fl'] = r['fl'] & ~EV_DISPATCH | flags & EV_DISPATCH
        return 'ok', r
    def change(self, w, key, flags, fflags=0, data=0, mode='bare', faults=None, ud=None):
        """apply one change; returns the resulting worlds"""
        kqi, flt, lab = key
        kq = w.ghost['kqs'][kqi]['fd']; ident = w.ghost['ids'][lab]
        f = flags | (EV_RECEIPT if mode == 'receipt' else 0)
        label = 'kq%d: %s(%s) %s%s%s' % (kqi, FNAME.get(flt, flt), lab, flagstr(flags), ' fflags=0x%x' % fflags if type(fflags) is int and fflags else '',
                                        ' +receipt' if mode == 'receipt' else '')
        self.presrc = self.sources(w, kqi, flt)
        nud = w.sym(64, 'udata') if ud is None else ud
        outs = self.D.kevent(w, kq, [(flt, ident, f, fflags, data, nud)], 1 if mode == 'receipt' else 0, faults=self.faults if faults is None else faults, label=label)
        res = []
        for o in outs:
            s = o.st
            if o.cancelled: continue
            self.judge(s, o, key, flags, fflags, data, nud, mode)
            if not s.ghost.pop('bad', False): res.append(s)
        self.stats['ops'] += 1
        return res
    def judge(self, s, o, key, flags, fflags, data, nud, mode):
        spec = s.ghost['spec']; old = spec.get(key)
        exp, new = self.expect(spec, key, flags)
        if mode == 'receipt':
            if o.rv != 1 or len(o.entries) != 1:
                self.v(s, 'C05', 'receipt-missing', 'EV_RECEIPT change %s on %s returns %s instead of one receipt' % (flagstr(flags), FNAME.get(key[1]), show(o.rv)),
                       key=('receipt', key[1], flags, old is not None)); ok = o.rv == 0; err = o.errno
            else:
                e = o.entries[0]; err = e['data']; ok = err == 0
                if type(e['flags']) is not int or not e['flags'] & EV_ERROR:
                    self.v(s, 'C05', 'receipt-flag', 'receipt entry lacks EV_ERROR', key=('receipt-flag', key[1], flags))
                if not (eq(s, 64, e['ident'], s.ghost['ids'][key[2]]) is True and eq(s, 16, e['filter'], key[1]) is True and eq(s, 64, e['udata'], nud) is True):
                    self.v(s, 'C05', 'receipt-echo', 'receipt entry does not echo the change (ident, filter, udata)', key=('receipt-echo', key[1], flags))
        else:
            ok = o.rv == 0; err = o.errno
            if not ok and o.rv != -1:
                self.v(s, 'C05', 'return', 'a change without event list returns %s' % show(o.rv), key=('ret', key[1], flags))
        self.eng.oblige('C05.outcome', (key[1], flags, old is not None))
        fx = s.nfault > 0; unk = old is not None and old.get('unk') or key[2] in s.ghost.get('closedfd', ())
        why = ''
        spec = dict(spec)
        nm = FNAME.get(key[1], key[1])
        if not ok and (err == 0):
            self.v(s, 'C05', 'error-without-errno', '%s %s fails but reports error 0' % (nm, flagstr(flags)), key=('errno0', key[1], flags, old is not None))
        if fx:
            if not ok:
                if old is None: pass
                elif flags & EV_DELETE: spec.pop(key)
                else:       # its udata, at least, is as before; trying again must lead to a known state
                    pure = flags & (EV_ADD | EV_ENABLE | EV_DISABLE)
                    half = pure if pure in (EV_ENABLE, EV_DISABLE) and (not old.get('unk') or old.get('half') == pure) else None
                    spec[key] = dict(old, unk=True, udk=old.get('udk') if old.get('unk') else True, half=half)
                s.ghost['spec'] = spec; self.after_change(s); return
        elif not unk:
            if exp == 'ok' and not ok:
                prop = ['C05']
                if old is not None and flags & (EV_ENABLE | EV_DISABLE) and not flags & EV_DELETE: prop.append('C07')
                if old is not None and not old['en']: prop.append('C07')
                if old is not None and old.get('deliv'): prop.append('C06')
                if old is None and flags & EV_DISABLE: prop.append('C07')
                if flags & EV_DELETE: prop.append('C09')
                if self.pair(spec, key): prop.append('C08')
                if self.idpair(spec, key): prop.append('C14')
                self.v(s, tuple(prop), 'change-rejected', '%s %s on %s registration%s fails with errno %s' % (nm, flagstr(flags),
                       'an absent' if old is None else 'an enabled' if old['en'] else 'a disabled', ' whose event was delivered before' if old and old.get('deliv') else '', show(err)),
                       key=('rejected', key[1], flags, old is None, old and old['en'], old and bool(old.get('deliv'))), flt=key[1])
                if old is not None: spec[key] = dict(old, unk=True)
                s.ghost['spec'] = spec; return
            if exp != 'ok' and ok:
                gone = s.ghost.get('gone', {}).get(key)
                self.v(s, ('C05',) + (('C06',) if gone == 'oneshot' else ()) + (('C14',) if self.idpair(spec, key) else ()), 'change-accepted', '%s %s succeeds but must fail with %s%s' % (nm, flagstr(flags), exp,
                       ': the EV_ONESHOT registration still exists after delivery' if gone == 'oneshot' else ''), key=('accepted', key[1], flags, gone), flt=key[1])
                return
            if exp in ('ENOENT', 'EINVAL') and err != {'ENOENT': ENOENT, 'EINVAL': EINVAL}[exp]:
                self.v(s, 'C05', 'wrong-errno', '%s %s fails with errno %s instead of %s' % (nm, flagstr(flags), show(err), exp), key=('errno', key[1], flags))
        if ok:
            if new is None:
                if key in spec: spec.pop(key)
                g = dict(s.ghost.get('gone', {})); g[key] = 'deleted'; s.ghost['gone'] = g
            else:
                new = dict(new)
                if old is None or new.pop('mod', False):
                    new['ud'] = nud; new['ff'] = fflags; new['data'] = data
                    if key[1] == TIMER and flags & EV_ADD: new['fl'] = flags & PERSIST
                new.pop('mod', None)
                if old is None: new['trig'] = False
                if unk:
                    if not fx and old is not None and old.get('half') and old['half'] == flags & (EV_ADD | EV_ENABLE | EV_DISABLE | EV_DELETE) and key[2] not in s.ghost.get('closedfd', ()):
                        for g in ('unk', 'half', 'udk'): new.pop(g, None)
                        self.eng.oblige('C05.retry', key[1])
                    else: new['unk'] = True; new['half'] = None
                if key[1] == USER: self.user_spec(s, new, old, fflags, flags)
                if key[1] in SRCKIND:
                    post = self.sources(s, key[0], key[1]); add = [n for o_, n in post.items() if o_ not in self.presrc]
                    if len(add) == 1: new['src'] = add[0]
                    elif new.get('src') is not None and not new['en']: new['src'] = None
                spec[key] = new
        s.ghost['spec'] = spec
        self.after_change(s)
    def user_spec(self, s, new, old, fflags, flags):
        if old is not None and (flags & (EV_DELETE | EV_ENABLE | EV_DISABLE)): return
        if type(fflags) is not int: return
        if old is None:
            new['uf'] = fflags & FFMASK
            if fflags & NOTE_TRIGGER: new['trig'] = 'maybe'
            return
        c = fflags & FFCTRL; m = fflags & FFMASK; u = old.get('uf', 0)
        new['uf'] = u if c == 0 else u & m if c == FFAND else u | m if c == FFOR else m
        if fflags & NOTE_TRIGGER: new['trig'] = True if old['en'] and not old.get('unk') else old['trig'] or 'maybe'
    def sources(self, s, kqi, flt):
        kd = SRCKIND.get(flt); eo = self.kqepoll(s, kqi) if kd else None
        if eo is None: return {}
        out = {}
        for r in s.k.ofds[eo]['regs']:
            if s.k.ofds[r.ofd]['kind'] == kd: out[r.ofd] = r.num
        return out
    @staticmethod
    def pair(spec, key):
        return key[1] in (READ, WRITE) and (key[0], WRITE if key[1] == READ else READ, key[2]) in spec
    @staticmethod
    def idpair(spec, key):
        return any(k != key and (k[1] == key[1] or k[2] == key[2]) for k in spec)
    def after_change(self, s):
        self.rwmask(s); self.quiesce(s)
    # -------------------------------------------------------------- state obligations
    def unknown(self, spec): return any(r.get('unk') for r in spec.values())
    def rwmask(self, s):
        """C08/C07: the descriptor wakes kevent() for exactly the registered and enabled directions"""
        spec = s.ghost['spec']
        if not self.rw_mask or self.unknown(spec): return
        k = s.k
        for kqi, q in s.ghost['kqs'].items():
            if q.get('closed'): continue
            eo = self.kqepoll(s, kqi)
            if eo is None: continue
            for lab, v in s.ghost.get('ids', {}).items():
                i = k.index(s, v, fork=False) if type(v) is tuple and v[0] == 's' else None
                if i is None or i < 0 or k.fds[i].owner != 'user' or lab in s.ghost.get('closedfd', ()): continue
                ofd = k.fds[i].ofd
                if k.ofds[ofd].get('mode') not in (S_IFSOCK, S_IFIFO, S_IFCHR): continue
                have = 0; n = 0
                for r in k.ofds[eo]['regs']:
                    if r.ofd == ofd and r.armed: have |= r.events; n += 1
                for flt, bit in ((READ, EPOLLIN), (WRITE, EPOLLOUT)):
                    r = spec.get((kqi, flt, lab)); want = r is not None and r['en']
                    other = spec.get((kqi, WRITE if flt == READ else READ, lab))
                    self.eng.oblige('C08.mask')
                    if want and not have & bit:
                        self.v(s, ('C07', 'C08') if other is not None else 'C07', 'not-armed', '%s is registered and enabled but the descriptor does not wake the queue for it' % FNAME[flt],
                               key=('notarmed', flt, other is None), flt=flt, r=r)
                    if not want and have & bit:
                        self.v(s, (('C08',) if other is not None else ()) + (('C07',) if r is not None else ('C09',)), 'still-armed', '%s is %s but the descriptor still wakes the queue for it' %
                               (FNAME[flt], 'disabled' if r else 'not registered'), key=('stillarmed', flt, r is None, other is None), flt=flt, r=r)
                en = {flt: spec.get((kqi, flt, lab)) for flt in (READ, WRITE)}
                en = {flt: r for flt, r in en.items() if r is not None and r['en']}
                mixed = len(en) == 2 and len({r['fl'] & EV_CLEAR for r in en.values()}) == 2
                for flt, r in en.items():
                    bit = EPOLLIN if flt == READ else EPOLLOUT
                    regs = [g for g in k.ofds[eo]['regs'] if g.ofd == ofd and g.armed and g.events & bit]
                    if not regs: continue
                    other = spec.get((kqi, WRITE if flt == READ else READ, lab))
                    self.eng.oblige('C08.trigger-mode')
                    edge = all(g.events & EPOLLET_ for g in regs); cl = bool(r['fl'] & EV_CLEAR)
                    if mixed and len(regs) == 1 and regs[0].events & EPOLLIN and regs[0].events & EPOLLOUT:
                        if edge != cl:
                            self.eng.violate(s, 'C08', 'mixed-trigger-mode', None, 'with one of the two directions EV_CLEAR and the other not, the descriptor is registered %s-triggered for both' % ('edge' if edge else 'level'), key=('mixed',))
                    elif edge != cl:
                        self.v(s, ('C08', 'C06') if other is not None else ('C06', 'C07'), 'trigger-mode', '%s was registered %s EV_CLEAR but the descriptor is %s-triggered for it' %
                               (FNAME[flt], 'with' if cl else 'without', 'edge' if edge else 'level'), key=('edge', flt, cl, other is None))
                    if flt == READ:
                        hup = any(g.events & EPOLLRDHUP for g in regs)
                        if other is None: self.solo = hup
                        elif getattr(self, 'solo', hup) != hup:
                            self.v(s, 'C08', 'hup-mask', 'the peer\'s shutdown is %s to EVFILT_READ when the descriptor is also registered for writing' % ('reported' if hup else 'not reported'), key=('rdhup', hup))
    def kqepoll(self, s, kqi):
        """the epoll set of queue kqi (the one created together with it)"""
        q = s.ghost['kqs'][kqi]
        if 'epoll' in q: return q['epoll'] if q['epoll'] in s.k.ofds else None
        eps = [oid for oid, d in s.k.ofds.items() if d['kind'] == 'epoll']
        # queues are created one after the other in these scenarios
        live = sorted(i for i, x in s.ghost['kqs'].items() if not x.get('closed'))
        if len(eps) != len(live): return None
        return sorted(eps)[live.index(kqi)]
    def quiesce(self, s):
        """C09: with nothing registered the queue holds what a fresh queue holds"""
        if s.ghost['spec'] or self.base is None or s.ghost.get('dirty'): return
        fds, mem, nreg = self.counts(s); bf, bm, bn = self.base
        self.eng.oblige('C09.quiescent')
        P = ('C09', 'C06') if s.history() and s.history()[-1].endswith('poll') and 'oneshot' in s.ghost.get('gone', {}).values() else ('C09',)
        for kd in fds:
            if fds[kd] > bf.get(kd, 0):
                site = [f.site for f in s.k.fds if f.owner == 'lib' and s.k.ofds[f.ofd]['kind'] == kd]
                self.v(s, P, 'not-released', 'nothing is registered any more but a %s (opened at %s) is still held' % (kd, site[-1]), key=('held', kd, site[-1]))
        for m in mem:
            if mem[m] > bm.get(m, 0) and m not in self.persistent:
                self.v(s, P, 'not-released', 'nothing is registered any more but memory allocated at %s is still held' % m, key=('heldmem', m))
        if nreg > bn:
            r = [r for d in s.k.ofds.values() for r in d['regs']][-1]
            self.v(s, P, 'not-released', 'nothing is registered any more but the epoll registration made at %s remains' % r.site, key=('heldreg', r.site))
    persistent = ()
    # -------------------------------------------------------------- polling
    def poll(self, w, kqi=0, nev=4, opt=None, faults=0, must=True):
        kq = w.ghost['kqs'][kqi]['fd']
        outs = self.D.kevent(w, kq, [], nev, faults=faults, opt=opt or {'maxfire': 1}, label='kq%d: poll' % kqi)
        self.stats['ops'] += 1; self.polls += 1
        spec0 = w.ghost['spec']
        got = set(); res = []
        self.srcmap = {self.fdof(w, r['src']): kk for kk, r in spec0.items() if r.get('src') is not None and r['en']}
        for o in outs:
            s = o.st
            if o.cancelled: continue
            if type(o.rv) is int and o.rv < 0:
                self.retained(s, o, kqi, spec0, s.ghost['spec'], set(), [e for e in o.log if e[0] == 'fired'])
                if not s.nfault and not ((opt or {}).get('eintr') and eq(s, 32, o.errno, 4) is True):
                    self.v(s, 'C05', 'poll-fails', 'polling the queue fails with errno %s' % show(o.errno), key=('pollfail', s.history()[-1]))
                continue
            self.delivered(s, o, kqi, got, nev)
            if not s.ghost.pop('bad', False): res.append(s)
        if must and outs and not self.unknown(spec0):
            for key, r in spec0.items():
                if key[0] != kqi or not r['en'] or key in got: continue
                if not self.mayfire(w, key, r): continue
                self.eng.oblige('C07.armed', key[1])
                self.v(w, ('C07', 'C06') if r.get('deliv') else ('C07',), 'never-delivered', 'the enabled %s registration cannot be delivered by any readiness of its source' % FNAME[key[1]],
                       key=('never', key[1], r['fl'], bool(r.get('deliv'))), flt=key[1], r=r)
        return res
    def mayfire(self, w, key, r):
        if key[1] == USER: return r['trig'] is True
        if key[1] in (AIO, LIBKQ): return False
        if key[1] == PROC and type(r['ff']) is int and not r['ff'] & NOTE_EXIT: return False
        if r.get('final'): return False
        if key[2] in w.ghost.get('closedfd', ()): return False
        if r.get('deliv') and r['fl'] & EV_CLEAR and self.regular(w, key): return False
        return True
    def regular(self, s, key):
        if key[1] not in (READ, WRITE): return False
        o = self.fdof(s, s.ghost['ids'][key[2]])
        return o is not None and s.k.ofds[o].get('mode') == S_IFREG
    def delivered(self, s, o, kqi, got, nev):
        eng = self.eng; spec = dict(s.ghost['spec']); spec0 = s.ghost['spec']; ids = s.ghost['ids']
        seen = set()
        fired = [e for e in o.log if e[0] == 'fired']
        k = s.k
        gone = dict(s.ghost.get('gone', {}))
        for e in o.entries:
            eng.oblige('C17.entry')
            if e['flags'] == ('u',) or type(e['filter']) is not int: continue
            key = None
            for kk in list(spec0) + [x for x in gone if x not in spec0]:
                if kk[0] == kqi and kk[1] == e['filter'] and eq(s, 64, e['ident'], ids[kk[2]]) is True: key = kk; break
            if key is None:
                self.v(s, ('C17', 'C14'), 'unknown-event', 'an event with filter %s and ident %s is returned, but no such registration was ever made' % (show(e['filter']), show(e['ident'])),
                       key=('unknown', e['filter'])); continue
            r = spec.get(key)
            if r is None:
                why = gone.get(key)
                if key in seen: self.v(s, 'C06', 'delivered-again', '%s is delivered again although it is gone' % FNAME[key[1]], key=('again', key[1]), flt=key[1])
                else: self.v(s, 'C06' if why == 'oneshot' else ('C05', 'C09'), 'event-after-removal', 'an event of %s is returned although the registration was %s' %
                       (FNAME[key[1]], 'one-shot and already delivered' if why == 'oneshot' else 'deleted'), key=('after-removal', key[1], why), flt=key[1])
                continue
            if key in seen:
                self.v(s, ('C08', 'C17') if key[1] in (READ, WRITE) else ('C06', 'C17'), 'duplicate-event', 'one poll returns two events of the same %s registration' % FNAME[key[1]], key=('dup', key[1]), flt=key[1])
            seen.add(key); got.add(key)
            eng.oblige('C05.error-flag')
            if type(e['flags']) is int and e['flags'] & EV_ERROR:
                self.v(s, 'C05', 'error-flag', 'an event of %s carries EV_ERROR as if a change had failed' % FNAME[key[1]], key=('errflag', key[1]))
            if r.get('udk') and same(s, 64, e['udata'], r['ud']) is False:
                self.v(s, ('C17', 'C05'), 'udata-after-failure', 'after a change of it failed, the %s event carries %s instead of the udata of the last change that succeeded' % (FNAME[key[1]], show(e['udata'])), key=('udatafail', key[1]))
            if r.get('unk'):
                if r.get('half'): spec[key] = dict(r, half=None)
                continue
            if not r['en']:
                self.v(s, ('C06', 'C07') if r.get('deliv') and r['fl'] & EV_DISPATCH else ('C07', 'C08') if self.pair(spec0, key) else 'C07', 'event-while-disabled', 'a disabled %s registration returns an event' % FNAME[key[1]],
                       key=('disabled', key[1], r['fl']), flt=key[1], r=r)
            if same(s, 64, e['udata'], r['ud']) is False:
                self.v(s, 'C17', 'udata', 'the %s event carries %s instead of the udata last set' % (FNAME[key[1]], show(e['udata'])), key=('udata', key[1]))
            self.event_fields(s, o, key, r, e, fired)
            r = dict(r); r['deliv'] = True
            if r['fl'] & EV_ONESHOT or key[1] == PROC:
                spec.pop(key); gone[key] = 'oneshot'
            else:
                if r['fl'] & EV_DISPATCH: r['en'] = False
                if key[1] == USER and r['fl'] & (EV_CLEAR | EV_DISPATCH | EV_ONESHOT): r['trig'] = False
                if key[1] == VNODE and type(e['fflags']) is int and e['fflags'] & 1: r['final'] = True
                spec[key] = r
        self.retained(s, o, kqi, spec0, spec, seen, fired, nev)
        room = len(o.entries) < nev
        anyen = any(r['en'] or r.get('unk') for kk, r in spec0.items() if kk[0] == kqi)
        for ev in fired:
            _, ofd, bits, kind, data = ev
            if not anyen and not self.unknown(spec0):
                dis = [kk for kk in spec0 if kk[0] == kqi]
                self.v(s, 'C07' if dis else ('C09', 'C06'), 'spurious-wakeup', 'the %s source wakes the queue although %s' % (kind,
                       'its registration is disabled' if dis else 'nothing is registered'), key=('wake', kind, bool(dis)), flt=KINDF.get(kind))
                continue
            if not room: continue
            if kind == 'user':
                lab = [l for l, v in ids.items() if self.fdof(s, v) == ofd]
                for flt, m, need in ((READ, RD, EPOLLIN), (WRITE, WR, EPOLLOUT)):
                    kk = [(kqi, flt, l) for l in lab if (kqi, flt, l) in spec0]
                    kk = kk[0] if kk else None
                    eng.oblige('C08.direction')
                    if kk and spec0[kk].get('unk'): continue
                    if kk and spec0[kk]['en'] and bits & need and kk not in seen:
                        self.v(s, 'C08', 'event-lost', '%s readiness (epoll bits 0x%x) of an enabled registration is not returned' % (FNAME[flt], bits), key=('lost', flt, bool(bits & (WR & RD))))
                    if kk and kk in seen and not bits & m:
                        self.v(s, 'C08', 'wrong-direction', '%s is returned for epoll bits 0x%x' % (FNAME[flt], bits), key=('dir', flt))
            elif kind in KINDF:
                kk = [x for x in spec0 if x[0] == kqi and x[1] == KINDF[kind] and spec0[x]['en'] and not spec0[x].get('unk')]
                eng.oblige('C06.returned')
                if len(kk) > 1:
                    kk = [x for x in kk if x == self.srcmap.get(ofd)]
                if len(kk) == 1 and kk[0] not in seen and not self.silent(s, o, kk[0], ofd):
                    self.v(s, 'C06', 'event-lost', 'the %s source of an enabled %s registration fired but no event is returned' % (kind, FNAME[KINDF[kind]]), key=('lost', kind), flt=KINDF[kind])
        firedkeys = {self.srcmap.get(ev[1]) for ev in fired}
        for key in seen:
            if key[1] in SRCKIND and key in self.srcmap.values() and key not in firedkeys and len([x for x in spec0 if x[1] == key[1]]) > 1:
                self.v(s, ('C14', 'C17', 'C06'), 'wrong-registration', 'a %s event is returned although the source of another registration fired' % FNAME[key[1]], key=('wrongreg', key[1]), flt=key[1])
            if key[1] in KINDF.values() and not any(ev[3] in KINDF and KINDF[ev[3]] == key[1] for ev in fired) and not self.posix:
                self.v(s, 'C06', 'event-invented', 'a %s event is returned although its source did not fire' % FNAME[key[1]], key=('invented', key[1]), flt=key[1])
        for key, r in spec0.items():
            if key[0] == kqi and key[1] == USER and not r.get('unk'):
                eng.oblige('C18.trigger')
                if r['trig'] is True and r['en'] and room and key not in seen:
                    self.v(s, 'C18', 'trigger-lost', 'a triggered, enabled user event is not returned', key=('trig-lost', r['fl']))
                if not r['trig'] and key in seen:
                    self.v(s, 'C18', 'not-triggered', 'a user event that was not triggered (or was already consumed) is returned', key=('untrig', r['fl']))
        for key, r in list(spec.items()):
            if key[0] == kqi and key[1] == READ and r['en'] and room and key not in seen and not r.get('final') and self.regular(s, key):
                spec[key] = dict(r, final=True)        # a file at its end reports nothing until re-enabled
        s.ghost['spec'] = spec; s.ghost['gone'] = gone
        self.after_change(s)
    def retained(self, s, o, kqi, spec0, spec, seen, fired, nev=None):
        """C29: a notification taken from the kernel is returned or stays deliverable"""
        eo = self.kqepoll(s, kqi)
        if eo is None or not fired: return
        regs = s.k.ofds[eo]['regs']; ids_ = s.ghost['ids']
        for ev in fired:
            _, ofd, bits, kind, data = ev
            keys = []
            if kind == 'user':
                for l, v in ids_.items():
                    if l in s.ghost.get('closedfd', ()) or self.fdof(s, v) != ofd: continue
                    for flt, need in ((READ, EPOLLIN), (WRITE, EPOLLOUT)):
                        if bits & (RD if flt == READ else WR): keys.append(((kqi, flt, l), need))
            elif kind == 'eventfd':
                kk = [x for x in spec0 if x[0] == kqi and spec0[x]['en'] and (x[1] == USER or self.regular(s, x))]
                if len(kk) == 1: keys.append((kk[0], EPOLLIN))
            elif kind in KINDF:
                kk = [x for x in spec0 if x[0] == kqi and x[1] == KINDF[kind] and spec0[x]['en']]
                if len(kk) > 1: kk = [x for x in kk if x == self.srcmap.get(ofd)]
                if len(kk) == 1: keys.append((kk[0], EPOLLIN))
            for key, need in keys:
                r = spec0.get(key)
                if r is None or not r['en'] or r.get('unk') or key in seen or key not in spec or self.silent(s, o, key, ofd): continue
                if self.regular(s, key) and type(o.rv) is int and o.rv == 0: continue      # nothing to read at the end of a file
                self.eng.oblige('C29.retained', key[1])
                live = [g for g in regs if g.ofd == ofd and g.events & need and g.armed and (g.edge or not g.events & EPOLLET_)]
                if live and kind not in ('user',) and key[1] in (SIGNAL, TIMER, VNODE) and s.k.ofds[ofd].get('ready') in (False, None): live = []
                if not live:
                    full = type(o.rv) is int and o.rv >= 0 and len(o.entries) > 0
                    ok_ = (key[0], WRITE if key[1] == READ else READ, key[2])
                    why = 'the call failed' if not full else 'the event list was full'
                    if full and ok_ in seen and len(o.entries) == nev: why += ', the last free entry went to the other direction of its descriptor' if r['fl'] & EV_CLEAR else ', the other direction was returned'
                    self.v(s, 'C29', 'notification-dropped', 'the %s notification of an enabled registration%s was taken from the kernel but neither returned nor left pending (%s)' %
                           (FNAME[key[1]], ' with EV_CLEAR' if r['fl'] & EV_CLEAR else '', why), key=('dropped', key[1], full, self.pair(spec0, key), r['fl']), flt=key[1])
    posix = False
    def silent(self, s, o, key, ofd):
        """notifications that are not for the application"""
        if key[1] == VNODE:
            for e in o.log:
                if e[0] == 'read' and e[1] == 'inotify' and e[2] == ofd:
                    return True          # judged by the C22 rules
        return False
    def event_fields(self, s, o, key, r, e, fired): pass
    def fdof(self, s, v):
        i = s.k.index(s, v, fork=False)
        return s.k.fds[i].ofd if i is not None and i >= 0 else None
    # -------------------------------------------------------------- search
    def explore(self, worlds, ops, depth, tmax=60):
        t0 = time.time()
        seen = set(); frontier = []
        for w in worlds:
            c = canon(w)
            if c not in seen: seen.add(c); frontier.append(w)
        for d in range(depth):
            nxt = []
            self.stats['depth'] = max(self.stats['depth'], d + 1)
            for w in frontier:
                for op in ops(w):
                    for s in op(w):
                        c = canon(s)
                        if c in seen: self.stats['merged'] += 1; continue
                        seen.add(c); nxt.append(s)
                    if len(seen) > self.maxworlds or time.time() - t0 > tmax:
                        self.stats['worlds'] += len(seen); self.stats['cut'] = True
                        return
            frontier = nxt
            if not frontier: self.stats['fixpoint'] = True; break
        self.stats['worlds'] += len(seen)

def ids(ws, **kw):
    for w in ws:
        w.ghost['ids'] = {n: (f(w) if callable(f) else f) for n, f in kw.items()}
    return ws

# ------------------------------------------------------------------ per-filter life cycles
def lifecycle_ops(C, key, fl, fflags=0, data=None, kqi=0, extra=None, receipt=True):
    def ops(w):
        dv = (lambda w: data(w)) if callable(data) else (lambda w: data or 0)
        L = []
        for f in (EV_ADD | fl, EV_ADD | EV_DISABLE | fl, EV_ENABLE, EV_DISABLE, EV_DELETE):
            L.append(lambda w, f=f: C.change(w, key, f, fflags if f & EV_ADD else 0, dv(w) if f & EV_ADD else 0))
        L.append(lambda w: C.poll(w, kqi))
        if extra: L += extra(w)
        return L
    return ops
