"""The client scenarios.  Each is a function (module, quick) -> Driver whose engine holds violations and statistics."""
import random
from .scen import *

FLAGSETS = (0, EV_ONESHOT, EV_DISPATCH, EV_CLEAR)
MS = {0: (1000, 1000000), 1: (1, 0), 2: (1000000, 1000), 4: (1000000000, 1)}     # fflags unit -> (units per second, ns per unit)
NOTE_ABSOLUTE = 8
V_DELETE, V_WRITE, V_EXTEND, V_ATTRIB, V_LINK, V_RENAME = 1, 2, 4, 8, 0x10, 0x20
IN_MODIFY, IN_ATTRIB, IN_CLOSE, IN_DELSELF, IN_MOVESELF, IN_IGNORED = 2, 4, 0x18, 0x400, 0x800, 0x8000

class FieldClient(Client):
    """registration automaton plus the filters' own contracts (C18-C24)"""
    # -- what a successful change must have told the kernel
    def after_change(self, s):
        Client.after_change(self, s)
        if self.unknown(s.ghost['spec']): return
        for key, r in s.ghost['spec'].items():
            if key[1] == SIGNAL: self.signal_state(s, key, r)
            elif key[1] == VNODE: self.vnode_state(s, key, r)
            elif key[1] == TIMER: self.timer_state(s, key, r)
            elif key[1] == PROC: self.proc_state(s, key, r)
    def srcs(self, s, kind, key):
        """kernel objects of this kind in the queue's epoll set"""
        eo = self.kqepoll(s, key[0])
        if eo is None: return None
        return [rg for rg in s.k.ofds[eo]['regs'] if s.k.ofds[rg.ofd]['kind'] == kind]
    def one(self, s, flt, key, r, kind):
        """the kernel object of the only registration of this filter, or None"""
        same_f = [k for k in s.ghost['spec'] if k[1] == flt and k[0] == key[0]]
        if len(same_f) != 1: return None
        L = self.srcs(s, kind, key)
        if L is None: return None
        self.eng.oblige(FPROP[flt] + '.source', flt)
        if r['en'] and len(L) != 1:
            self.v(s, ('C07', FPROP[flt]) + (('C14',) if len(L) > 1 else ()), 'sources', 'an enabled %s registration has %d %s sources in the epoll set' % (FNAME[flt], len(L), kind), key=('sources', flt, len(L)), r=r)
            return None
        if not r['en'] and L:
            live = [x for x in L if x.armed]
            if live: self.v(s, ('C07', FPROP[flt]), 'sources', 'a disabled %s registration still has an armed %s in the epoll set' % (FNAME[flt], kind), key=('dis-source', flt), r=r)
            return None
        return s.k.ofds[L[0].ofd] if L and r['en'] else None
    def signal_state(self, s, key, r):
        d = self.one(s, SIGNAL, key, r, 'signalfd')
        if d is None: return
        sig = s.env.norm(s.ghost['ids'][key[2]]); w = d['mask']
        want = tosigned(1 << (sig - 1), 64) if type(sig) is int else None
        self.eng.oblige('C24.mask')
        bad = False
        if type(w) is int: bad = want is not None and w != want or (want is None and w in (0, -1))
        elif type(w) is tuple and w[0] == 'S':
            bad = w[1] != 0 or len(w[2]) != 1 or w[2][0] == '?' or same(s, 32, w[2][0], sig) is False
        if bad: self.v(s, 'C24', 'signal-set', 'the signal registration listens for the set %s instead of exactly its signal' % (w,), key=('sigset',))
        th = s.threads[0]
        self.eng.oblige('C24.blocked')
        def blocks(m, x): return x == m or (type(x) is int and type(m) is int and x & m == m)
        if th.sigmask != ('all',) and not any(blocks(w, x) for x in th.sigmask):
            self.v(s, 'C24', 'not-blocked', 'the signal is registered successfully but not blocked from ordinary handling', key=('notblocked',))
        self.eng.oblige('C24.not-taken')
        for t, o in s.threads.items():
            if t and type(o.status) is tuple and o.status[0] == 'sigwait' and type(o.status[1]) is int:
                for n in range(1, 65):
                    if (o.status[1] >> (n - 1)) & 1 and s.env.cmp('eq', 32, sig, n) is not False:
                        self.v(s, 'C24', 'signal-taken', 'the registration is accepted for a signal which a thread of the library waits for (%s), so its notifications are lost' % ('SIGRTMIN+%d' % (n - SIGRTMIN) if n >= SIGRTMIN else 'signal %d' % n), key=('taken', n))
    def vnode_state(self, s, key, r):
        d = self.one(s, VNODE, key, r, 'inotify')
        if d is None or type(r['ff']) is not int: return
        need = 0; ff = r['ff']
        if ff & V_DELETE: need |= IN_ATTRIB | IN_DELSELF
        if ff & V_WRITE: need |= IN_MODIFY
        if ff & V_EXTEND: need |= IN_MODIFY
        if ff & (V_ATTRIB | V_LINK): need |= IN_ATTRIB
        if ff & V_RENAME: need |= IN_MOVESELF
        w = d['watches']
        self.eng.oblige('C22.watch')
        if len(w) != 1:
            if w: self.v(s, 'C22', 'watches', 'the inotify descriptor has %d watches' % len(w), key=('nwatch',))
            else: self.v(s, ('C22', 'C07'), 'watches', 'the enabled registration has no watch', key=('nwatch',))
            return
        m = w[0][1]
        if type(m) is int and need & ~m:
            self.v(s, 'C22', 'watch-mask', 'the watch mask 0x%x lacks 0x%x needed for the requested fflags 0x%x' % (m & 0xffffffff, need & ~m, ff), key=('mask', need & ~m))
        if type(m) is int and m & 0x80000000 and not r['fl'] & EV_ONESHOT:
            self.v(s, ('C22', 'C06'), 'watch-oneshot', 'the watch fires once although the registration is not EV_ONESHOT', key=('inoneshot',))
    def timer_state(self, s, key, r):
        d = self.one(s, TIMER, key, r, 'timerfd')
        if d is None: return
        sp = d['spec']
        self.eng.oblige('C20.programmed')
        if sp is None:
            self.v(s, 'C20', 'not-programmed', 'the enabled timer has not been programmed', key=('noset',)); return
        if r.get('prog') == (sp,): return
        ff = r['ff']; data = r['data']
        if type(ff) is not int: return
        u = MS.get(ff & 7)
        if u is None: return
        per, ns = u
        e = s.env
        sec = binop(e, 'sdiv', 64, data, per) if per > 1 else data
        rem = lin_add(data, sec, -per) if lin(sec) is not None else None
        nsec = lin_scale(rem, ns) if ns else 0
        one = bool(r['fl'] & EV_ONESHOT)
        if d.get('clock') not in ((1,) if ff & NOTE_ABSOLUTE else (0, 1, 7)):
            self.v(s, 'C20', 'timer-clock', 'an %s timer is programmed on clock %s' % ('absolute' if ff & NOTE_ABSOLUTE else 'interval', show(d.get('clock'))), key=('clock',))
        if eq(s, 64, data, 0) is not False:          # no time at all: due at once, the shortest period; a kernel timer of zero length is switched off
            if not any(eq(s, 64, x, 0) is False for x in sp[3:5]):
                self.v(s, 'C20', 'timer-zero', 'data 0 with fflags 0x%x%s switches the timer off: it never fires' % (ff, ' EV_ONESHOT' if one else ''), key=('zero', one)); return
            if eq(s, 64, data, 0) is True:
                if not one and sp[1] == 0 and sp[2] == 0:
                    self.v(s, 'C20', 'timer-value', 'data 0 with fflags 0x%x programs a timer that is not periodic' % ff, key=('zeroper',))
                if one and (sp[1] != 0 or sp[2] != 0):
                    self.v(s, 'C20', 'timer-value', 'data 0 with fflags 0x%x EV_ONESHOT programs a periodic timer' % ff, key=('zeroone',))
                if any(type(x) is not int for x in sp[1:5]) or sp[3] > (1 if not ns else 0) or (ns and sp[4] > ns):
                    self.v(s, 'C20', 'timer-value', 'data 0 with fflags 0x%x programs %s s %s ns' % (ff, show(sp[3]), show(sp[4])), key=('zeroval',))
                return
        want = (0 if one else sec, 0 if one else nsec, sec, nsec)
        ok = atoms(sec)
        for i, nm in enumerate(('interval seconds', 'interval nanoseconds', 'expiry seconds', 'expiry nanoseconds')):
            if same(s, 64, sp[1 + i], want[i], ok) is False:
                self.v(s, 'C20', 'timer-value', 'data %s with fflags 0x%x%s programs %s = %s instead of %s' % (show(data), ff, ' EV_ONESHOT' if one else '', nm, show(sp[1 + i]), show(want[i])),
                       key=('timer', ff & 7, i, one)); return
        fl = 1 if ff & NOTE_ABSOLUTE else 0
        if type(sp[0]) is int and (sp[0] & 1) != fl:
            self.v(s, 'C20', 'timer-absolute', 'the timer is programmed as %s although NOTE_ABSOLUTE is %s' % ('absolute' if sp[0] & 1 else 'relative', 'set' if fl else 'not set'), key=('abs', fl))
    def proc_state(self, s, key, r):
        if type(r['ff']) is not int or not r['ff'] & NOTE_EXIT: return
        d = self.one(s, PROC, key, r, 'pidfd')
        if d is None: return
        self.eng.oblige('C19.pid')
        if same(s, 32, d['pid'], s.ghost['ids'][key[2]]) is False:
            self.v(s, ('C19', 'C14'), 'wrong-process', 'the process watched is %s instead of the registered one' % show(d['pid']), key=('pid',))
    # -- what an event must carry
    def event_fields(self, s, o, key, r, e, fired):
        flt = key[1]
        if flt == USER:
            self.eng.oblige('C18.fflags')
            if 'uf' in r and type(e['fflags']) is int and (e['fflags'] & 0xc1ffffff) != r['uf']:
                self.v(s, 'C18', 'fflags', 'a user event reports fflags 0x%x instead of 0x%x' % (e['fflags'] & 0xffffffff, r['uf']), key=('fflags',))
        elif flt == TIMER:
            vals = [x[3] for x in o.log if x[0] == 'read' and x[1] == 'timerfd']
            self.eng.oblige('C20.count')
            if len(vals) == 1 and same(s, 64, e['data'], vals[0]) is False:
                self.v(s, ('C20', 'C27'), 'expirations', 'the timer event reports data %s instead of the expiration count read from the kernel' % show(e['data']), key=('expir',))
            if not vals:
                self.v(s, ('C20', 'C27'), 'expirations', 'the timer event is returned without reading the expiration count', key=('noread',))
        elif flt == SIGNAL:
            self.eng.oblige('C24.consumed')
            if not any(x[0] == 'read' and x[1] == 'signalfd' for x in o.log):
                self.v(s, 'C24', 'not-consumed', 'the signal event is returned without consuming the pending notification', key=('noread',))
        elif flt in (READ, WRITE): self.rw_event(s, o, key, r, e, fired)
        elif flt == PROC: self.proc_event(s, o, key, r, e)
        elif flt == VNODE: self.vnode_event(s, o, key, r, e)
    def rw_event(self, s, o, key, r, e, fired):
        ofd = self.fdof(s, s.ghost['ids'][key[2]])
        if ofd is None or ofd not in s.k.ofds: return
        d = s.k.ofds[ofd]; mode = d.get('mode')
        ev = [x for x in fired if x[1] == ofd]
        bits = ev[0][2] if len(ev) == 1 else None
        eof = type(e['flags']) is int and bool(e['flags'] & EV_EOF)
        fl = e['flags']
        self.eng.oblige('C27.data', (key[1], mode))
        if mode == S_IFREG:
            ls = [x[2] for x in o.log if x[0] == 'lseek' and x[1] == ofd]; fs = [x[3] for x in o.log if x[0] == 'fstat' and x[1] == ofd]
            if key[1] == READ and ls and fs and same(s, 64, e['data'], lin_add(fs[-1], ls[-1], -1)) is False:
                self.v(s, 'C27', 'file-data', 'a read event of a file reports data %s instead of size minus position' % show(e['data']), key=('filedata',))
            if key[1] == READ and not (ls and fs):
                self.v(s, 'C27', 'file-data', 'a read event of a file is returned without asking for its size and the position', key=('fileask',))
            if key[1] == READ and eq(s, 64, e['data'], 0) is not False:
                self.v(s, ('C27', 'C08'), 'file-data', 'a read event of a file may be returned with no data ahead (data %s)' % show(e['data']), key=('filenone',))
            return
        if bits is None: return
        want = bool(bits & (EPOLLHUP | EPOLLERR)) or (key[1] == READ and bool(bits & EPOLLRDHUP))
        z = key[1] == READ and d.get('stype') == 1 and mode == S_IFSOCK and any(x[0] == 'ioctl' and x[1] == ofd and s.env.norm(x[3]) == 0 for x in o.log if x[0] == 'ioctl' and x[3] is not None)
        if want != eof and not (eof and z):          # a readable stream with nothing to read is at its end
            self.v(s, ('C27', 'C08'), 'eof', '%s event for epoll bits 0x%x %s EV_EOF' % (FNAME[key[1]], bits, 'lacks' if want else 'carries'), key=('eof', key[1], want))
        if key[1] == READ and (d.get('listen') or not mode):       # a backlog Linux does not tell the length of: at least one connection
            if same(s, 64, e['data'], 0) is True or (type(e['data']) is tuple and e['data'][0] == 'u'):
                self.v(s, 'C27', 'backlog', 'a pending connection is reported with data %s' % show(e['data']), key=('backlog',))
            return
        if bits & EPOLLERR and mode == S_IFSOCK:
            se = [x[2] for x in o.log if x[0] == 'so_error' and x[1] == ofd]
            if not se:
                self.v(s, 'C27', 'so-error', '%s event after a socket error is returned without asking for the error' % FNAME[key[1]], key=('nosoerr', key[1]))
            if se and same(s, 32, e['fflags'], se[0]) is False:
                self.v(s, 'C27', 'so-error', '%s event after a socket error reports fflags %s instead of the pending error' % (FNAME[key[1]], show(e['fflags'])), key=('soerr', key[1]))
        io = [x for x in o.log if x[0] == 'ioctl' and x[1] == ofd and (x[2] & 0xffff) == (0x541b if key[1] == READ else 0x5411)]
        if key[1] == WRITE and eof: return
        vals = [x[3] for x in io if x[3] is not None]
        if vals and all(same(s, 64, e['data'], v) is False for v in vals):
            self.v(s, 'C27', 'data', '%s event reports data %s instead of the count the kernel gave for the descriptor' % (FNAME[key[1]], show(e['data'])), key=('data', key[1]))
        if not io:
            others = [x for x in o.log if x[0] == 'ioctl' and x[1] == ofd and x[3] is not None]
            self.v(s, 'C27', 'data', '%s event is returned without asking the kernel for the byte count' % FNAME[key[1]], key=('noioctl', key[1]))
    def proc_event(self, s, o, key, r, e):
        self.eng.oblige('C19.status')
        if type(e['flags']) is int and not e['flags'] & EV_EOF:
            self.v(s, 'C19', 'no-eof', 'an exit event lacks EV_EOF', key=('eof',))
        if type(e['fflags']) is int and type(r['ff']) is int and (e['fflags'] ^ (r['ff'] & NOTE_EXIT)) & 0xffffffff:
            self.v(s, 'C19', 'proc-fflags', 'the event for an exit of a registration for 0x%x carries fflags 0x%x' % (r['ff'] & 0xffffffff, e['fflags'] & 0xffffffff), key=('pff',))
        w = [x for x in o.log if x[0] == 'waitid']
        p = s.k.procs.get(s.env.norm(s.ghost['ids'][key[2]]))
        if p is None:
            for q, v in s.k.procs.items():
                if eq(s, 32, q, s.ghost['ids'][key[2]]) is True: p = v
        if p is None or p[0] != 'exited':
            self.v(s, 'C19', 'not-exited', 'an exit event is returned for a process that has not exited', key=('early',)); return
        if w and w[-1][2] == 'ECHILD': return
        code, st_ = p[1], s.env.norm(p[2])
        lo = s.env.range(st_)[1] if type(st_) is not int else st_
        want = lin_scale(st_, 256) if code == 1 else lin_add(st_, 0x80) if code == 3 else st_
        if same(s, 64, e['data'], want) is False:
            self.v(s, ('C19',), 'status', 'a process that %s gives data %s instead of the wait status %s' %
                   ({1: 'exited', 2: 'was killed by a signal', 3: 'dumped core'}[code], show(e['data']), show(want)), key=('status', code))
    def vnode_event(self, s, o, key, r, e):
        if type(e['fflags']) is not int or type(r['ff']) is not int: return
        got = e['fflags'] & 0xffffffff; ff = r['ff']
        reads = [x for x in o.log if x[0] == 'read' and x[1] == 'inotify']
        if len(reads) != 1: return
        m = reads[0][3]
        self.eng.oblige('C22.event')
        allowed = ff | (V_EXTEND if ff & V_WRITE else 0)
        def bad(msg, k): self.v(s, 'C22', 'vnode-fflags', '%s (notification 0x%x, requested fflags 0x%x, reported 0x%x)' % (msg, m, ff, got), key=('vn',) + k)
        if got & ~allowed: bad('fflags that were not requested are reported', ('req', got & ~allowed))
        if got == 0: bad('an event without any fflags is returned', ('empty',))
        if m & (IN_CLOSE | IN_IGNORED): bad('a notification not meant for the application is returned', ('internal', m))
        st_ = [x for x in o.log if x[0] == 'fstat']
        nl, sz = (st_[-1][2], st_[-1][3]) if st_ else (None, None)
        self.vnode_bits(s, r, m, ff, got, nl, sz, bad)
    def vnode_bits(self, s, r, m, ff, got, nl, sz, bad):
        env = s.env; N = lambda v: env.norm(v) if type(v) is tuple else v
        if nl is not None: nl = N(nl); sz = N(sz)
        for bit, need in ((V_WRITE, IN_MODIFY), (V_ATTRIB, IN_ATTRIB), (V_RENAME, IN_MOVESELF)):
            if got & bit and not m & need: bad('NOTE flag 0x%x is reported for a notification that does not support it' % bit, ('support', bit))
            if ff & bit and m & need and not got & bit: bad('requested NOTE flag 0x%x is not reported' % bit, ('missing', bit))
        chg = m & (IN_ATTRIB | IN_MODIFY)
        if nl is not None:
            z = env.cmp('eq', 64, nl, 0)
            dele = bool(m & IN_DELSELF) or (chg and z is True)
            if got & V_DELETE and not m & IN_DELSELF and z is not True: bad('NOTE_DELETE is reported although the file may still have links', ('del-inv',))
            if ff & V_DELETE and not got & V_DELETE and (m & IN_DELSELF or (m & IN_ATTRIB and z is not False)): bad('the deletion of the file is not reported', ('del-miss',))
            pn = N(r.get('nlink')); ps = N(r.get('size'))
            if pn is not None:
                c = env.cmp('eq', 64, nl, pn)
                if got & V_LINK and c is not False: bad('NOTE_LINK is reported although the link count may be unchanged', ('link-inv',))
                if ff & V_LINK and m & IN_ATTRIB and not got & V_LINK and c is not True: bad('a change of the link count is not reported', ('link-miss',))
            if ps is not None:
                c = env.cmp('sgt', 64, sz, ps)
                if got & V_EXTEND and c is not True: bad('NOTE_EXTEND is reported although the file may not have grown', ('ext-inv',))
                if ff & V_EXTEND and m & IN_MODIFY and not got & V_EXTEND and c is not False: bad('growth of the file is not reported', ('ext-miss',))
    def delivered(self, s, o, kqi, got, nev):
        # vnode: what must have been reported when nothing was
        spec0 = s.ghost['spec']
        Client.delivered(self, s, o, kqi, got, nev)
        spec = s.ghost['spec']
        vs = [k for k in spec0 if k[0] == kqi and k[1] == VNODE and not spec0[k].get('unk')]
        reads = [x for x in o.log if x[0] == 'read' and x[1] == 'inotify']
        st_ = [x for x in o.log if x[0] == 'fstat']
        if len(vs) == 1 and len(reads) == 1:
            key = vs[0]; r = spec0[key]; m = reads[0][3]
            ret = any(e['filter'] == VNODE for e in o.entries)
            if not ret and type(r['ff']) is int and r['en']:
                self.eng.oblige('C22.discard')
                def bad(msg, k): self.v(s, ('C22', 'C06'), 'vnode-fflags', '%s (notification 0x%x, requested fflags 0x%x, no event returned)' % (msg, m, r['ff']), key=('vn',) + k)
                if not m & (IN_CLOSE | IN_IGNORED):
                    nl, sz = (st_[-1][2], st_[-1][3]) if st_ else (None, None)
                    self.vnode_bits(s, r, m, r['ff'], 0, nl, sz, bad)
            if m & (IN_ATTRIB | IN_MODIFY) and st_ and key in spec:
                spec = dict(spec); spec[key] = dict(spec[key], nlink=st_[-1][2], size=st_[-1][3]); s.ghost['spec'] = spec
    def change(self, w, key, flags, fflags=0, data=0, mode='bare', faults=None, ud=None):
        res = Client.change(self, w, key, flags, fflags, data, mode, faults, ud)
        return res
    def judge(self, s, o, key, flags, fflags, data, nud, mode):
        had = key in s.ghost['spec']
        Client.judge(self, s, o, key, flags, fflags, data, nud, mode)
        spec = s.ghost['spec']
        if key[1] == VNODE and not had and key in spec:
            st_ = [x for x in o.log if x[0] == 'fstat']
            if st_:
                spec = dict(spec); spec[key] = dict(spec[key], nlink=st_[0][2], size=st_[0][3]); s.ghost['spec'] = spec

# ------------------------------------------------------------------ identifiers
def ident_for(D, flt, mode=None):
    if flt in (READ, WRITE): return lambda w: D.userfd(w, mode=mode or S_IFSOCK, stype=1, listen=0)
    if flt == VNODE: return lambda w: D.userfd(w, mode=S_IFREG)
    if flt == SIGNAL: return lambda w: w.sym(64, 'sig', 1, 64)
    if flt == PROC: return lambda w: w.sym(64, 'pid', 1, 1 << 22)
    return lambda w: w.sym(64, 'ident')
DEFFF = {VNODE: 0x3f, PROC: NOTE_EXIT}

def life(flt, fl, faults, depth, mode=None, ff=None, data=None, receipts=False, extra=None, tmax=120, opt=None, pf=0):
    """every history of one registration"""
    def run(M):
        D = Driver(M); C = FieldClient(D, faults); C.pollopt = opt
        ws = C.queues(1); ids(ws, x=ident_for(D, flt, mode))
        key = (0, flt, 'x')
        f = DEFFF.get(flt, 0) if ff is None else ff
        dv = data if data is not None else ((lambda w: w.sym(64, 'data', 1, 1 << 60)) if flt == TIMER else 0)
        def ops(w):
            L = []
            dd = (lambda w: dv(w)) if callable(dv) else (lambda w: dv)
            for g in (EV_ADD | fl, EV_ADD | EV_DISABLE | fl, EV_ENABLE, EV_DISABLE, EV_DELETE):
                L.append(lambda w, g=g: C.change(w, key, g, f if g & EV_ADD else 0, dd(w) if g & EV_ADD else 0))
                if receipts: L.append(lambda w, g=g: C.change(w, key, g, f if g & EV_ADD else 0, dd(w) if g & EV_ADD else 0, mode='receipt'))
            if flt == USER:
                L.append(lambda w: C.change(w, key, EV_ADD | fl, NOTE_TRIGGER))
            L.append(lambda w: C.poll(w, 0, opt=opt, faults=pf))
            L.append(lambda w: C.change(w, key, EV_ADD | EV_ONESHOT | EV_DISPATCH, f, dd(w)))
            if extra: L += extra(C, key, fl)(w)
            return L
        C.explore(ws, ops, depth, tmax)
        D.stats = C.stats
        return D
    return run

def reflag(flt, depth, mode=None, fl0=0, stype=1, tmax=120):
    """every history of one registration whose EV_DISPATCH setting is changed by adding it again, with and without a receipt"""
    def run(M):
        D = Driver(M); C = FieldClient(D, 0); key = (0, flt, 'x'); f = DEFFF.get(flt, 0)
        ws = C.queues(1); ids(ws, x=(lambda w: D.userfd(w, mode=mode, stype=stype, listen=0)) if flt in (READ, WRITE) else ident_for(D, flt, mode))
        dv = (lambda w: w.sym(64, 'data', 1, 1 << 60)) if flt == TIMER else (lambda w: 0)
        def ops(w):
            L = [lambda w: C.poll(w, 0, opt={'maxfire': 1}), lambda w: C.change(w, key, EV_ENABLE)]
            for g in (EV_ADD | fl0, EV_ADD | EV_DISPATCH | fl0) + ((EV_ADD | EV_ONESHOT,) if flt == TIMER else ()):
                for md in ('bare', 'receipt'): L.append(lambda w, g=g, md=md: C.change(w, key, g, f, dv(w), mode=md))
            if flt == USER: L += [lambda w, g=g: C.change(w, key, EV_ADD | fl0 | g, NOTE_TRIGGER) for g in (0, EV_DISPATCH)]
            return L
        C.explore(ws, ops, depth, tmax)
        D.stats = C.stats
        return D
    return run
def sysflags(flt, depth, mode=None, stype=1, tmax=120):
    """changes which carry flags that are meant for answers only (as when a returned event is used as the next change)"""
    def run(M):
        D = Driver(M); C = FieldClient(D, 0); key = (0, flt, 'x'); f = DEFFF.get(flt, 0)
        ws = C.queues(1); ids(ws, x=(lambda w: D.userfd(w, mode=mode, stype=stype, listen=0)) if flt in (READ, WRITE) else ident_for(D, flt, mode))
        dv = (lambda w: 1000) if flt == TIMER else (lambda w: 0)
        def ops(w):
            L = [lambda w: C.poll(w, 0, opt={'maxfire': 1})]
            for x in (EV_EOF, EV_ERROR, 0x3000):
                for g in (EV_ADD | x, EV_DISABLE | x, EV_ENABLE | x, EV_DELETE | x):
                    L.append(lambda w, g=g: C.change(w, key, g, f if g & EV_ADD else 0, dv(w) if g & EV_ADD else 0))
            if flt == USER: L.append(lambda w: C.change(w, key, EV_ADD, NOTE_TRIGGER))
            return L
        C.explore(ws, ops, depth, tmax)
        D.stats = C.stats
        return D
    return run
def combos(flt, depth, mode=None, stype=1, tmax=120):
    """every combination of EV_ADD, EV_DELETE, EV_ENABLE and EV_DISABLE: EV_DELETE wins over EV_DISABLE, that over EV_ENABLE"""
    def run(M):
        D = Driver(M); C = FieldClient(D, 0); key = (0, flt, 'x'); f = DEFFF.get(flt, 0)
        ws = C.queues(1); ids(ws, x=(lambda w: D.userfd(w, mode=mode, stype=stype, listen=0)) if flt in (READ, WRITE) else ident_for(D, flt, mode))
        def ops(w):
            L = [lambda w: C.poll(w, 0, opt={'maxfire': 1})]
            for n in range(1, 16):
                g = (n & 1) * EV_ADD | (n >> 1 & 1) * EV_DELETE | (n >> 2 & 1) * EV_ENABLE | (n >> 3 & 1) * EV_DISABLE
                L.append(lambda w, g=g: C.change(w, key, g, f if g & EV_ADD else 0, 1000 if flt == TIMER and g & EV_ADD else 0))
            if flt == USER: L.append(lambda w: C.change(w, key, EV_ADD, NOTE_TRIGGER))
            return L
        C.explore(ws, ops, depth, tmax)
        D.stats = C.stats
        return D
    return run
def fflag_subsets(sets, change=(), flt=VNODE):
    """a filter with each set of notifications asked for, alone and after another set was"""
    def run(M):
        D = Driver(M); C = FieldClient(D, 0)
        w0 = C.queues(1)[:1]; ids(w0, x=ident_for(D, flt, None)); key = (0, flt, 'x')
        for f in sets:
            for w in C.change(w0[0].clone(), key, EV_ADD, f):
                C.poll(w, 0)
                for g in change:
                    if g == f: continue
                    for w2 in C.change(w.clone(), key, EV_ADD, g): C.poll(w2, 0)
                for w2 in C.change(w.clone(), key, EV_DISABLE):
                    for w3 in C.change(w2.clone(), key, EV_ENABLE): C.poll(w3, 0)
                    for g in change:        # another set while disabled
                        if g == f: continue
                        for w3 in C.change(w2.clone(), key, EV_ADD, g):
                            for w4 in C.change(w3, key, EV_ENABLE): C.poll(w4, 0)
        D.stats = C.stats
        return D
    return run

def fflag_faults(sets, change, flt):
    """the set of notifications changed with a failing call in between; afterwards the registration is used and given up"""
    def run(M):
        D = Driver(M); C = FieldClient(D, 0)
        w0 = C.queues(1)[:1]; ids(w0, x=ident_for(D, flt, None)); key = (0, flt, 'x')
        for f in sets:
            for w in C.change(w0[0].clone(), key, EV_ADD, f):
                for g in change:
                    if g == f: continue
                    for w2 in C.change(w.clone(), key, EV_ADD, g, faults=1):
                        for w3 in C.change(w2.clone(), key, EV_DELETE): pass
                        for w3 in C.change(w2.clone(), key, EV_ADD, g): C.poll(w3, 0)
                        for w3 in C.change(w2, key, EV_DISABLE):
                            for w4 in C.change(w3, key, EV_ENABLE): C.poll(w4, 0)
        D.stats = C.stats
        return D
    return run

# ------------------------------------------------------------------ reading and writing one descriptor
def rw(mode, fr, fw, faults, depth, close=False, stype=1, listen=0, tmax=120, userev=None, nev=4, pf=0, popt=None):
    def run(M):
        D = Driver(M); C = FieldClient(D, faults)
        ws = C.queues(1); ids(ws, x=lambda w: D.userfd(w, mode=mode, stype=stype, listen=listen))
        kr, kw = (0, READ, 'x'), (0, WRITE, 'x')
        opt = {'maxfire': 1}
        if userev: opt['userev'] = userev
        if popt: opt.update(popt)
        def ops(w):
            L = []
            for key, fl in ((kr, fr), (kw, fw)):
                for g in (EV_ADD | fl, EV_DISABLE, EV_ENABLE, EV_DELETE):
                    L.append(lambda w, g=g, key=key: C.change(w, key, g))
            L.append(lambda w: C.poll(w, 0, nev=nev, opt=opt, faults=pf))
            if close and not w.ghost.get('closedfd'): L.append(lambda w: user_close(D, C, w, 'x'))
            return L
        C.explore(ws, ops, depth, tmax)
        D.stats = C.stats
        return D
    return run
def user_close(D, C, w, lab, reuse=True):
    """the application closes the watched descriptor and opens another one under the same number"""
    num = w.ghost['ids'][lab]
    out = []
    for s in D.closefd(w, num, 'close(%s)' % lab):
        s.ghost['closedfd'] = tuple(s.ghost.get('closedfd', ())) + (lab,)
        s.ghost['spec'] = {k: (dict(r, unk=True) if k[2] == lab else r) for k, r in s.ghost['spec'].items()}
        out.append(s)
        if reuse:
            t = D.fork_state(s, 'open() = %s' % lab)
            t.k.newfd(t, 'user', 'user', False, 'app', mode=S_IFSOCK, stype=1, listen=0)
            t.k.fds[-1].num = num
            out.append(t)
    return out

# ------------------------------------------------------------------ several registrations
def assume_ne(w, a, b):
    if type(a) is int and type(b) is int: return
    w.env.assume_cmp('eq', 64, a, b, False)

def many(keys, idf, fls, faults, depth, nq=1, tmax=120, maxfire=2, ops_=None, addff=None, nev=4, pf=0, popt=None):
    """every history of several registrations; keys: (queue, filter, label); idf: worlds -> None sets ids"""
    def run(M):
        D = Driver(M); C = FieldClient(D, faults)
        ws = C.queues(nq)
        for w in ws: idf(D, w)
        def ops(w):
            L = []
            for n, key in enumerate(keys):
                fl = fls[n % len(fls)]; ff = DEFFF.get(key[1], 0) if addff is None else addff
                for g in ops_ or (EV_ADD | fl, EV_DISABLE, EV_ENABLE, EV_DELETE):
                    g = g | fl if g & EV_ADD else g
                    L.append(lambda w, g=g, key=key, ff=ff: C.change(w, key, g, ff if g & EV_ADD else 0, (w.sym(64, 'data', 1, 1 << 60) if key[1] == TIMER and g & EV_ADD else 0)))
                if key[1] == USER: L.append(lambda w, key=key, fl=fl: C.change(w, key, EV_ADD | fl, NOTE_TRIGGER))
            for q in range(nq): L.append(lambda w, q=q: C.poll(w, q, nev=nev, opt=dict({'maxfire': maxfire}, **(popt or {})), faults=pf))
            return L
        C.explore(ws, ops, depth, tmax)
        D.stats = C.stats
        return D
    return run

def fixedfd(D, w, num, **kw):
    for f in w.k.fds: assume_ne(w, w.env.norm(f.num), num)
    w.env.assume_cmp('slt', 64, num, w.k.rlim, True)
    return D.userfd(w, num=num, **kw)
def tree_pairs(flt, orders, deep=2):
    """after each of the given orders of additions: every sequence of `deep` deletions; then each remaining identifier must be found"""
    def run(M):
        D = Driver(M); C = FieldClient(D, 0); C.stats['fixpoint'] = True
        n = max(max(o) for o in orders) + 1; labs = ['k%d' % i for i in range(n)]
        w = C.queues(1)[0]
        w.ghost['ids'] = {l: fixedfd(D, w, 100 + 3 * i, mode=S_IFSOCK, stype=1, listen=0) if flt in (READ, WRITE) else 10 + 3 * i for i, l in enumerate(labs)}
        def step(s, i, g): return (C.change(s, (0, flt, labs[i]), g) or [None])[0]
        def dels(s, have, k, last):
            if k == 0:
                for i in sorted(have):
                    if s is not None: s = step(s, i, EV_ENABLE)
                return
            for i in sorted(have):
                x = step(s, i, EV_DELETE)
                if x is not None: dels(x, have - {i}, k - 1, i)
        for o in orders:
            s = w
            for i in o:
                if s is not None: s = step(s, i, EV_ADD)
            if s is not None: dels(s, set(o), deep, None)
        D.stats = C.stats
        return D
    return run
def tree(flt, nkeys, steps, seed, fl=0):
    """a deterministic sequence of additions and deletions over nkeys identifiers, long enough to reach every rebalancing of the
    search trees: after each step every identifier is probed by a change that only succeeds for a registered one"""
    def run(M):
        D = Driver(M); C = FieldClient(D, 0); C.stats['fixpoint'] = True
        rnd = random.Random(seed)
        ws = C.queues(1); labs = ['k%d' % i for i in range(nkeys)]
        if flt in (READ, WRITE, VNODE): mk = lambda w: {l: fixedfd(D, w, 100 + 3 * i, mode=S_IFREG if flt == VNODE else S_IFSOCK, stype=1, listen=0) for i, l in enumerate(labs)}
        else: mk = lambda w: {l: 10 + 3 * i for i, l in enumerate(labs)}
        for w in ws: w.ghost['ids'] = mk(w)
        plan = {0: list(range(nkeys)), 1: list(range(nkeys))[::-1], 2: sorted(range(nkeys), key=lambda i: (i % 2, i))}.get(seed) or rnd.sample(range(nkeys), nkeys)
        seq = [(True, i) for i in plan]
        gone = (list(plan) if seed % 2 else plan[::-1])[:-1 - seed]
        if seed > 2:
            have = set(plan)
            for _ in range(steps):
                i = rnd.randrange(nkeys); seq.append((i not in have, i)); have ^= {i}
            gone = [i for i in rnd.sample(range(nkeys), nkeys) if i in have]
        seq += [(False, i) for i in gone]
        have = set(); polls = len(plan)
        for n, (add, i) in enumerate(seq):
            key = (0, flt, labs[i])
            ws = C.change(ws[0], key, (EV_ADD | fl) if add else EV_DELETE, DEFFF.get(flt, 0) if add else 0, 1000 if flt == TIMER and add else 0)[:1]
            have ^= {i}
            if not ws: break
            for j in range(nkeys):
                if j == i or n in (len(plan), len(seq) - 2): ws = C.change(ws[0], (0, flt, labs[j]), EV_ENABLE, 0)[:1]
                if not ws: break
            if not ws: break
            if n + 1 == polls and flt != VNODE: C.poll(ws[0], 0, nev=1)
        D.stats = C.stats
        return D
    return run

def ids_const(**kw):
    def f(D, w): w.ghost['ids'] = dict(kw)
    return f
def ids_sym(*labs, lo=None, hi=None, w_=64):
    def f(D, w):
        d = {}
        for l in labs:
            v = w.sym(64, 'ident_' + l, lo, hi) if lo is not None else w.sym(64, 'ident_' + l)
            for o in d.values(): assume_ne(w, v, o)
            d[l] = v
        w.ghost['ids'] = d
    return f
def ids_fd(mode, *labs):
    def f(D, w): w.ghost['ids'] = {l: D.userfd(w, mode=mode, stype=1, listen=0) for l in labs}
    return f

# ------------------------------------------------------------------ EVFILT_USER arithmetic
def user_arith(M):
    D = Driver(M); C = FieldClient(D, 0); C.stats['fixpoint'] = True
    for fl in (0, EV_CLEAR):
        ws = C.queues(1); ids(ws, x=lambda w: w.sym(64, 'ident'))
        key = (0, USER, 'x')
        for w in ws:
            for old in (0, 0x333333, 0xcccccc):
                for w1 in C.change(w, key, EV_ADD | fl, old):
                    for ctrl in (0, FFAND, FFOR, FFCOPY):
                        for m in (0, 0x555555, 0xaaaaaa, 0xffffff):
                            for trig in (NOTE_TRIGGER, 0):
                                for w2 in C.change(w1, key, EV_ADD | fl, ctrl | m | trig):
                                    ws3 = [w2] if trig else C.change(w2, key, EV_ADD | fl, NOTE_TRIGGER)
                                    for w3 in ws3:
                                        for w4 in C.poll(w3, 0, opt={}):
                                            C.poll(w4, 0, opt={}) if m == 0x555555 else None
    D.stats = C.stats
    return D

# ------------------------------------------------------------------ EVFILT_TIMER values
def timer_values(consts=False):
    def run(M):
        D = Driver(M); C = FieldClient(D, 0)
        for fl in (0, EV_ONESHOT, EV_DISPATCH):
            ws = C.queues(1); ids(ws, x=lambda w: w.sym(64, 'ident'))
            key = (0, TIMER, 'x')
            for w in ws:
                for unit in (0, 1, 2, 4):
                    for ab in (0, NOTE_ABSOLUTE):
                        per = MS[unit][0]
                        data = (0, 1, per - 1, per, per + 1, 3 * per // 2, 86400 * per) if consts else (None,)
                        for dv in data:
                            v = w.sym(64, 'data', 0, 1 << 60) if dv is None else dv
                            for w1 in C.change(w, key, EV_ADD | fl, unit | ab, v):
                                for u2, a2, f2 in ((4, 0, 0), (0, 0, EV_ONESHOT), (2, NOTE_ABSOLUTE, 0), (1, 0, EV_DISPATCH)):
                                    if fl & EV_DISPATCH and f2 & EV_ONESHOT: continue
                                    v2 = w1.sym(64, 'data', 1, 1 << 60) if dv is None else 7
                                    for w2 in C.change(w1, key, EV_ADD | f2, u2 | a2, v2):
                                        for w3 in C.change(w2, key, EV_DISABLE):
                                            for w4 in C.change(w3, key, EV_ENABLE): pass
                                for w2 in C.poll(w1, 0):
                                    if key not in w2.ghost['spec']: continue
                                    for w3 in C.change(w2, key, EV_DISABLE): C.change(w3, key, EV_ENABLE)
        D.stats = C.stats
        return D
    return run

# ------------------------------------------------------------------ changelists (C05, C04)
class ListClient(FieldClient):
    def batch(self, w, kqi, chs, nev, opt, label, faults=0):
        """one kevent() call with several changes and nev event slots"""
        kq = w.ghost['kqs'][kqi]['fd']
        full = []
        for key, flags, ff, data in chs:
            kk = key if key[0] != 'filter' else None
            ident = w.ghost['ids'][key[2]]
            full.append((key[1], ident, flags, ff, data, w.sym(64, 'udata')))
        self.srcmap = {}
        self.presrc = self.sources(w, kqi, TIMER)
        outs = self.D.kevent(w, kq, full, nev, opt=opt, label=label, faults=faults)
        self.stats['ops'] += 1
        res = []
        for o in outs:
            if o.cancelled: continue
            s = o.st
            self.batch_judge(s, o, kqi, chs, full, nev, opt)
            if not s.ghost.pop('bad', False): res.append(s)
        return res
    def fixed_error(self, key):
        f = key[1]
        if f >= 0 or f < -12: return EINVAL
        if f in (AIO, -8, -9, -10): return ENOSYS
        return None
    def batch_judge(self, s, o, kqi, chs, full, nev, opt):
        spec = dict(s.ghost['spec']); exp = []; stop = None
        self.eng.oblige('C05.batch', len(chs))
        lab = ' ; '.join('%s %s' % (FNAME.get(k[1], k[1]), flagstr(f)) for k, f, _, _ in chs)
        for i, (key, flags, ff, data) in enumerate(chs):
            fe = self.fixed_error(key); base = flags & ~EV_RECEIPT
            if flags & EV_DISPATCH and flags & EV_ONESHOT: r, new = 'EINVAL', None
            elif fe: r, new = {EINVAL: 'EINVAL', ENOSYS: 'ENOSYS'}[fe], None
            else: r, new = self.expect(spec, key, base)
            if r == 'ok':
                if new is None: spec.pop(key, None)
                else:
                    new = dict(new); new.pop('mod', None)
                    new.setdefault('trig', False); new['ud'] = full[i][5]; new['ff'] = ff; new['data'] = data
                    if key[1] == USER: self.user_spec(s, new, spec.get(key), ff, base)
                    spec[key] = new
            if r != 'ok' or flags & EV_RECEIPT:
                if len(exp) == nev: stop = i; break
                exp.append((i, r))
        if stop is not None:
            if o.rv != -1:
                self.v(s, ('C05', 'C04'), 'no-room', 'changelist [%s] with %d event slots: there is no room for the outcome of change %d, but kevent() returns %s instead of -1' % (lab, nev, stop, show(o.rv)), key=('noroom', lab, nev))
            elif o.errno == 0:
                self.v(s, 'C05', 'no-room', 'changelist [%s] with %d event slots fails without setting errno' % (lab, nev), key=('noroom0', lab, nev))
            for k in {c[0] for c in chs[stop:]}:
                if k in spec: spec[k] = dict(spec[k], unk=True)
            # (a change past the one that had no room is not applied)
            s.ghost['spec'] = spec; s.ghost['dirty'] = True
            return
        if o.rv == -1 and not exp and (s.nfault or opt.get('eintr')):
            s.ghost['spec'] = spec; return
        if type(o.rv) is not int or o.rv < len(exp):
            self.v(s, ('C05', 'C04'), 'outcomes-lost', 'changelist [%s] with %d event slots must report %d outcomes but kevent() returns %s' % (lab, nev, len(exp), show(o.rv)), key=('lost', lab, nev))
            s.ghost['spec'] = spec; return
        for n, (i, r) in enumerate(exp):
            e = o.entries[n]
            key, flags, ff, data = chs[i]
            want = {'ok': 0, 'EINVAL': EINVAL, 'ENOENT': ENOENT, 'ENOSYS': ENOSYS}[r]
            self.eng.oblige('C05.entry')
            if type(e['flags']) is not int or not e['flags'] & EV_ERROR:
                self.v(s, 'C05', 'entry-flag', 'entry %d of changelist [%s] lacks EV_ERROR' % (n, lab), key=('flag', lab, nev))
            if e['data'] != want:
                self.v(s, ('C05',) + (('C16',) if self.fixed_error(key) else ()), 'entry-errno', 'entry %d (change %d of [%s]) reports %s instead of %s' % (n, i, lab, show(e['data']), r), key=('errno', lab, n))
            if not (eq(s, 64, e['ident'], full[i][1]) is True and eq(s, 16, e['filter'], key[1]) is True and eq(s, 64, e['udata'], full[i][5]) is True):
                self.v(s, ('C05', 'C17'), 'entry-echo', 'entry %d does not echo change %d of [%s]' % (n, i, lab), key=('echo', lab, n))
            if type(e['flags']) is int and (e['flags'] & ~EV_ERROR & 0xbfff) != (flags & 0xbfff):
                self.v(s, 'C05', 'entry-echo', 'entry %d does not echo the flags of change %d of [%s]' % (n, i, lab), key=('echof', lab, n))
        s.ghost['spec'] = spec
        # what follows are events
        o.entries = o.entries[len(exp):]
        ev = [x for x in o.log if x[0] == 'epoll_ret']
        self.srcmap = {}
        got = set()
        if o.entries or any(x[0] == 'fired' for x in o.log):
            self.delivered(s, o, kqi, got, nev - len(exp))
        else:
            self.after_change(s)
            if nev > len(exp):
                for key, r in spec.items():
                    if key[1] == USER and key[0] == kqi and r['en'] and r['trig'] is True and not r.get('unk') and not s.nfault and not opt.get('eintr'):
                        self.v(s, ('C18', 'C05'), 'trigger-lost', 'a triggered, enabled user event is not returned by the same kevent() call [%s]' % lab, key=('trig', lab, nev))

def lists(part, nparts, thorough=False):
    """changelists of one to three entries x event slots x outcome of the wait"""
    def run(M):
        from itertools import product
        D = Driver(M); C = ListClient(D, 0)
        ws = C.queues(1); ids(ws, x=lambda w: 5, y=lambda w: 6, s=lambda w: D.userfd(w, mode=S_IFSOCK, stype=1, listen=0))
        X = (0, USER, 'x'); Y = (0, USER, 'y'); S = (0, READ, 's'); B = (0, 3, 'x'); N = (0, AIO, 'x')
        R = EV_RECEIPT
        cand = [(X, EV_ADD, 0, 0), (X, EV_ADD | R, 0, 0), (Y, EV_DELETE, 0, 0), (Y, EV_ADD | EV_ONESHOT | EV_DISPATCH, 0, 0), (X, EV_DELETE | R, 0, 0),
                (S, EV_ADD | R, 0, 0), (B, EV_ADD, 0, 0), (N, EV_ADD | R, 0, 0)]
        trg = (X, EV_ADD, NOTE_TRIGGER, 0)
        L = [list(c) for c in product(cand, repeat=2)] + [[c] for c in cand]
        base3 = [cand[1], cand[2], cand[0], cand[5]]
        L += [list(c) for c in product(base3, repeat=3)]
        if thorough: L += [list(c) for c in product(cand, repeat=3)]
        L += [[(X, EV_ADD, 0, 0), trg, c] for c in cand]
        L = L[part::nparts]
        for w in ws:
            for chs in L:
                for nev in (0, 1, 2, 4):
                    for opt in ({'fire': 'none'}, {'eintr': True, 'fire': 'none'}, {'maxfire': 1}, {'maxfire': 1, 'inplace': True}):
                        if nev == 0 and opt.get('maxfire'): continue
                        lab = 'kevent([%s], nevents=%d%s)' % (', '.join('%s(%s) %s' % (FNAME.get(k[1], k[1]), k[2], flagstr(f)) for k, f, _, _ in chs), nev, ', interrupted' if 'eintr' in opt else ', in place' if 'inplace' in opt else '')
                        for s in C.batch(w, 0, chs, nev, opt, lab):
                            if nev == 4 and 'maxfire' in opt and not C.unknown(s.ghost['spec']) and not s.ghost.get('dirty'):
                                for k in (X, Y):
                                    C.change(s, k, EV_DELETE)
        D.stats = C.stats
        return D
    return run

# ------------------------------------------------------------------ arguments (C15, C16, C04)
def args_filters(M):
    """every filter number"""
    D = Driver(M); C = ListClient(D, 0); ws = C.queues(1); ids(ws, x=lambda w: 5)
    for w in ws:
        w = D.kevent(w, w.ghost['kqs'][0]['fd'], [(USER, 99, EV_DELETE, 0, 0, 7)], 0, label='(warm-up)')[0].st
        c0 = canon(w)
        for f in list(range(-16, 5)) + [100, 32767, -32768, -100]:
            e = C.fixed_error((0, f, 'x'))
            if e is None: continue
            for fl in (EV_ADD, EV_DELETE, EV_ADD | EV_RECEIPT, EV_ENABLE):
                for nev in (0, 1):
                    D.eng.oblige('C16.filter', f)
                    for o in D.kevent(w, w.ghost['kqs'][0]['fd'], [(f, 5, fl, 0, 0, 7)], nev, label='filter %d %s' % (f, flagstr(fl)), opt={'fire': 'none'}):
                        err = o.errno if nev == 0 else (o.entries[0]['data'] if o.rv == 1 and o.entries else None)
                        if (nev == 0 and o.rv != -1) or (nev == 1 and o.rv != 1) or err != e:
                            C.v(o.st, 'C16', 'filter-validation', 'a change naming filter %d must fail with %s but returns %s, error %s' % (f, {EINVAL: 'EINVAL', ENOSYS: 'ENOSYS'}[e], show(o.rv), show(err)), key=('filt', f, nev))
                        if canon(o.st) != c0:
                            C.v(o.st, 'C16', 'filter-side-effect', 'a change naming filter %d that fails alters the queue' % f, key=('filtfx', f))
        # a symbolic filter number outside the range
        for lo, hi in ((0, 32767), (-32768, -13)):
            s0 = w.clone(); f = s0.sym(16, 'filter', lo, hi)
            D.eng.oblige('C16.filter', (lo, hi))
            for o in D.kevent(s0, s0.ghost['kqs'][0]['fd'], [(f, 5, EV_ADD, 0, 0, 7)], 0, label='any filter in %d..%d' % (lo, hi)):
                if o.rv != -1 or o.errno != EINVAL:
                    C.v(o.st, 'C16', 'filter-validation', 'a change naming a filter number in %d..%d must fail with EINVAL but returns %s, errno %s' % (lo, hi, show(o.rv), show(o.errno)), key=('filt', lo))
    D.stats = C.stats
    return D

def args_types(M):
    """descriptors of kinds that cannot be watched: every one is refused with an errno, and nothing changes"""
    D = Driver(M); C = ListClient(D, 0); ws = C.queues(1)
    kinds = [('a directory', dict(mode=S_IFDIR), (READ, WRITE)), ('a symbolic link', dict(mode=0o120000), (READ, WRITE)), ('a block device', dict(mode=S_IFBLK), (READ, WRITE)),
             ('a socket of unknown type', dict(mode=S_IFSOCK, stype=77, listen=0), (READ, WRITE))]
    ids(ws, **{'k%d' % i: (lambda kw: lambda w: D.userfd(w, **kw))(kw) for i, (nm, kw, fs) in enumerate(kinds)})
    for w in ws:
        w = D.kevent(w, w.ghost['kqs'][0]['fd'], [(USER, 99, EV_DELETE, 0, 0, 7)], 0, label='(warm-up)')[0].st
        c0 = held(w)
        for i, (nm, kw, fs) in enumerate(kinds):
            for f in fs:
                for fl in (EV_ADD, EV_ADD | EV_RECEIPT, EV_ADD | EV_DISABLE | EV_ONESHOT):
                    for nev in (0, 1):
                        D.eng.oblige('C05.type', (nm, f))
                        for o in D.kevent(w, w.ghost['kqs'][0]['fd'], [(f, w.ghost['ids']['k%d' % i], fl, 0, 0, 7)], nev, label='%s %s on %s' % (FNAME.get(f, f), flagstr(fl), nm), opt={'fire': 'none'}):
                            err = o.errno if nev == 0 and o.rv == -1 else (o.entries[0]['data'] if o.rv == 1 and o.entries else 0)
                            if err == 0 or (type(err) is tuple and err[0] == 'u'): C.v(o.st, 'C05', 'type-accepted', '%s %s on %s must be refused but kevent() returns %s, error %s' % (FNAME.get(f, f), flagstr(fl), nm, show(o.rv), show(err)), key=('type', nm, f, nev))
                            elif held(o.st) != c0: C.v(o.st, ('C05', 'C09'), 'type-side-effect', '%s %s on %s is refused but leaves something behind' % (FNAME.get(f, f), flagstr(fl), nm), key=('typefx', nm, f))
    D.stats = C.stats
    return D

def args_kqfd(M):
    """every descriptor number that is not a live queue"""
    D = Driver(M); C = ListClient(D, 0)
    for nq in (0, 1, 2):
        ws = C.queues(nq) if nq else [D.boot()]
        ids(ws, x=lambda w: 5, u=lambda w: D.userfd(w, mode=S_IFSOCK, stype=1, listen=0))
        for w in ws:
            c0 = canon(w)
            for nm, mk in (('any', lambda s: s.sym(32, 'kqfd')), ('negative', lambda s: s.sym(32, 'kqfd', -(1 << 31), -1)), ('user', lambda s: s.ghost['ids']['u']),
                           ('-1', lambda s: -1), ('max', lambda s: (1 << 31) - 1), ('min', lambda s: -(1 << 31))):
                s0 = w.clone(); fd = mk(s0)
                for q in w.ghost['kqs'].values():
                    if type(fd) is tuple: s0.env.assume_cmp('ne', 32, fd, s0.env.norm(q['fd']), True)
                cc = canon(s0)
                for chs, nev in (([(USER, 5, EV_ADD, 0, 0, 7)], 1), ([], 1), ([(READ, s0.ghost['ids']['u'], EV_ADD, 0, 0, 7)], 0)):
                    D.eng.oblige('C15.not-a-queue', nm)
                    for o in D.kevent(s0, fd, chs, nev, label='kevent(%s descriptor that is not a queue)' % nm):
                        if o.rv != -1 or o.errno == 0:
                            C.v(o.st, 'C15', 'not-validated', 'kevent() on a descriptor that is not a queue (%s) returns %s with errno %s instead of failing' % (nm, show(o.rv), show(o.errno)), key=('kqfd', nm))
                        elif o.writes:
                            C.v(o.st, 'C15', 'side-effect', 'kevent() on a descriptor that is not a queue writes to the event list', key=('kqfdw', nm))
                        k0 = w.k; k1 = o.st.k
                        if len(k0.fds) != len(k1.fds):
                            C.v(o.st, 'C15', 'side-effect', 'kevent() on a descriptor that is not a queue changes the open descriptors', key=('kqfdfx', nm))
    D.stats = C.stats
    return D

def queued(flt, fl, ff=0, deep=False):
    """a second notification is queued behind the first: every one taken is returned, the rest stays deliverable"""
    kind = 'signalfd' if flt == SIGNAL else 'inotify'
    NOTES = ((IN_MODIFY, V_WRITE), (IN_ATTRIB, V_ATTRIB), (IN_MOVESELF, V_RENAME), (IN_DELSELF, V_DELETE))
    def build(M):
        D = Driver(M); C = ListClient(D, 0); ws = C.queues(1)
        ids(ws, x=lambda w: 10 if flt == SIGNAL else D.userfd(w, mode=S_IFREG))
        key = (0, flt, 'x'); prop = ('C24', 'C29') if flt == SIGNAL else ('C22', 'C29')
        for w in ws:
            kq = w.ghost['kqs'][0]['fd']
            for w1 in C.change(w, key, EV_ADD | fl, ff):
                for nev in (1, 2):
                    D.eng.oblige('C29.queued', (flt, fl, nev))
                    for o in D.kevent(w1, kq, [], nev, opt={'queued': 1, 'fire': 'some', 'inotify_name': flt == VNODE}, label='poll with two notifications queued'):
                        s = o.st
                        if type(o.rv) is not int or o.rv < 0: continue
                        taken = [x for x in o.log if x[0] == 'read' and x[1] == kind]
                        got = [e for e in o.entries if e['filter'] == flt]
                        if flt == SIGNAL:
                            n = sum(e['data'] if type(e['data']) is int else 1 for e in got)
                            if len(taken) > n:
                                C.v(s, prop, 'queued-lost', '%d queued signals are taken from the kernel but only %d reported' % (len(taken), n), key=('queued', flt))
                        else:
                            for b, note in NOTES:
                                if ff & note and any(x[3] & b for x in taken) and not any(type(e['fflags']) is not int or e['fflags'] & note for e in got):
                                    C.v(s, prop, 'queued-lost', 'of the notifications taken from the kernel one that asks for fflags 0x%x is not reported' % note, key=('queued', flt, note))
                        eo = C.kqepoll(s, 0)
                        if eo is None or fl & (EV_ONESHOT | EV_DISPATCH): continue
                        for ofd, d in s.k.ofds.items():
                            if d['kind'] != kind or not d.get('ready'): continue
                            live = [g for g in s.k.ofds[eo]['regs'] if g.ofd == ofd and g.events & EPOLLIN and g.armed and (g.edge or not g.events & EPOLLET_)]
                            if not live:
                                C.v(s, 'C29', 'queued-stuck', 'a second %s notification is queued in the kernel, but will not be reported' % FNAME[flt], key=('stuck', flt))
                        if flt == VNODE and key in s.ghost['spec']:        # changing the registration leaves what is queued alone
                            pend = [ofd for ofd, d in s.k.ofds.items() if d['kind'] == kind and d.get('ready')]
                            if not pend: continue
                            for ff2 in (ff, V_WRITE):
                                for s2 in C.change(s, key, EV_ADD | fl, ff2):
                                    D.eng.oblige('C22.queued-change', (fl, ff2))
                                    if not any(ofd in s2.k.ofds and s2.k.ofds[ofd].get('ready') for ofd in pend):
                                        C.v(s2, ('C22', 'C29'), 'queued-lost', 'changing a registration drops the notifications queued for it', key=('qchange',))
        D.stats = C.stats
        return D
    return build

def args_sizes(M):
    """event list sizes, absent lists"""
    D = Driver(M); C = ListClient(D, 0); ws = C.queues(1); ids(ws, x=lambda w: 5)
    key = (0, USER, 'x')
    for w in ws:
        kq = w.ghost['kqs'][0]['fd']
        for w1 in C.change(w, key, EV_ADD):
            for w2 in C.change(w1, key, EV_ADD, NOTE_TRIGGER):
                for nm, nev, eln in (('0', 0, False), ('NULL', 0, True), ('NULL', 5, True), ('512', 512, False), ('513', 513, False), ('4096', 4096, False),
                                     ('sym', None, False)):
                    s0 = w2.clone(); n = s0.sym(32, 'nevents', 1, 1 << 20) if nev is None else nev
                    D.eng.oblige('C04.sizes', (nm, nev))
                    for o in D.kevent(s0, kq, [], n, label='poll with nevents=%s%s' % (nm, ' and no list' if eln else ''), elnull=eln):
                        if eln or nev == 0:
                            if o.rv != 0: C.v(o.st, ('C04', 'C21'), 'no-list', 'kevent() without room for events returns %s' % show(o.rv), key=('nolist', nm, nev))
                            if any(x[0] == 'wait' for x in o.log): C.v(o.st, ('C21', 'C04'), 'no-room-wait', 'kevent() waits although there is no room for events', key=('nowait', nm, nev))
                        elif o.rv != 1: C.v(o.st, ('C04', 'C18'), 'sizes', 'polling a triggered user event with nevents=%s returns %s' % (nm, show(o.rv)), key=('sizes', nm))
    D.stats = C.stats
    return D

# ------------------------------------------------------------------ timeouts (C21)
def timeouts(M):
    D = Driver(M); C = FieldClient(D, 0); ws = C.queues(1); ids(ws, x=lambda w: 5)
    INT_MAX = (1 << 31) - 1
    def judge(o, sec, nsec, lab):
        s = o.st; E = s.env
        waits = [x for x in o.log if x[0] == 'wait']; ts = [x for x in o.log if x[0] == 'ppoll_ts']
        D.eng.oblige('C21.wait', lab)
        if not waits: C.v(s, 'C21', 'no-wait', 'kevent() with timeout %s does not wait at all' % lab, key=('nowait', lab)); return
        if sec is None:
            for x in waits:
                t = E.norm(x[4])
                inf = t == 0 if x[1] != 'epoll_wait' else (type(t) is int and t < 0)
                if inf: return
            C.v(s, 'C21', 'not-infinite', 'kevent() without timeout waits for %s instead of indefinitely' % show(waits[-1][4]), key=('inf',)); return
        tot = 0           # milliseconds of epoll waits; a ppoll with the caller's timespec is exact
        for x in waits:
            t = E.norm(x[4])
            if x[1] == 'epoll_wait':
                if type(t) is int and t < 0: C.v(s, 'C21', 'infinite', 'kevent() with timeout %s waits indefinitely' % lab, key=('infinite', lab)); return
                lo, hi = (t, t) if type(t) is int else E.range(t)
                if lo < 0: C.v(s, 'C21', 'infinite', 'kevent() with timeout %s may wait indefinitely' % lab, key=('infinite', lab)); return
                tot = t if tot == 0 else lin_add(tot, t)
            elif x[1] in ('ppoll', 'poll'):
                if not ts: C.v(s, 'C21', 'infinite', 'kevent() with timeout %s waits indefinitely in %s' % (lab, x[1]), key=('infinite', lab)); return
                a, b = E.norm(ts[0][1]), E.norm(ts[0][2])
                if same(s, 64, a, sec) is False or same(s, 64, b, nsec) is False:
                    C.v(s, 'C21', 'wrong-timeout', 'kevent() with timeout %s waits for %s s %s ns' % (lab, show(a), show(b)), key=('wrong', lab))
                return
        # epoll: milliseconds
        want = None
        if type(sec) is int and type(nsec) is int:
            want = sec * 1000 + -(-nsec // 1000000)         # not even a fraction of a millisecond too early
            if type(tot) is int and tot < min(want, INT_MAX) :
                C.v(s, 'C21', 'too-short', 'kevent() with timeout %s waits for only %d ms' % (lab, tot), key=('short', lab))
            elif type(tot) is int and want < INT_MAX - 1000 and tot > want + 1:
                C.v(s, 'C21', 'too-long', 'kevent() with timeout %s waits for %d ms' % (lab, tot), key=('long', lab))
        else:
            if type(tot) is int:
                if tot == INT_MAX: return
                ok = E.cmp('sle', 64, sec, tot // 1000)
                if ok is not True: C.v(s, 'C21', 'too-short', 'kevent() with timeout %s waits for only %d ms' % (lab, tot), key=('short', lab))
                return
            d = lin_add(tot, lin_scale(sec, 1000), -1)
            if d is None: return
            lo = d if type(d) is int else E.range(d)[0]
            if lo < 0: C.v(s, 'C21', 'too-short', 'kevent() with timeout %s may wait less than its whole seconds' % lab, key=('short', lab)); return
            # the milliseconds of nsec are included
            q = binop(E, 'sdiv', 64, nsec, 1000000) if type(nsec) is not int else nsec // 1000000
            r = E.cmp('sge', 64, lin_add(tot, 0), lin_add(lin_scale(sec, 1000), q))
            if r is False or (r is None and same(s, 64, tot, lin_add(lin_scale(sec, 1000), q), atoms(q)) is False):
                C.v(s, 'C21', 'too-short', 'kevent() with timeout %s waits %s ms' % (lab, show(tot)), key=('short', lab))
    for w in ws:
        kq = w.ghost['kqs'][0]['fd']
        for w1 in C.change(w, (0, TIMER, 'x'), EV_ADD, 0, 1000):
            def go(ts, lab, mk=None, opt=None):
                s0 = w1.clone(); t = ts if mk is None else mk(s0)
                for o in D.kevent(s0, kq, [], 1, ts=t, label='kevent(timeout %s)' % lab, opt=opt or {}):
                    if any(x[0] == 'fired' for x in o.log) and t is not None: pass
                    judge(o, *(t if t is not None else (None, None)), lab)
            go(None, 'NULL', opt={'fire': 'some'})
            for sec in (0, 1, 2, 2147482, 2147483, 2147484, 4294967, 4294968, 1 << 31, 1 << 32, (1 << 32) + 1, (1 << 53), 9223372036854775, 9223372036854776, (1 << 63) - 1):
                for ns in (0, 1, 999999, 1000000, 1500000, 999000000, 999999999):
                    go((sec, ns), '{%d,%d}' % (sec, ns))
            # the wait is interrupted or fails
            for ts in ((0, 0), (0, 1), (1, 0), (1, 500)):
                lab = '{%d,%d}, interrupted' % ts
                for o in D.kevent(w1.clone(), kq, [], 2, ts=ts, label='kevent(timeout %s)' % lab, opt={'eintr': True}):
                    D.eng.oblige('C21.interrupted', lab)
                    if o.rv == -1 and eq(o.st, 32, o.errno, 4) is not True: C.v(o.st, 'C21', 'interrupted', 'an interrupted kevent(timeout %s) fails with errno %s' % (lab, show(o.errno)), key=('intr', ts))
                for o in D.kevent(w1.clone(), kq, [(USER, 9, EV_ADD | EV_RECEIPT, 0, 0, 7), (USER, 10, EV_DELETE, 0, 0, 8)], 4, ts=ts, label='kevent(two changes, timeout %s)' % lab, opt={'eintr': True}):
                    D.eng.oblige('C05.interrupted', lab)
                    if type(o.rv) is not int or o.rv < 2 or o.entries[0]['ident'] != 9 or o.entries[1]['ident'] != 10:
                        C.v(o.st, 'C05', 'entry-lost', 'kevent(timeout %s) with a receipt and an error to report returns %s' % (lab, show(o.rv)), key=('intrlost', ts))
            # not a time interval at all
            for lab, mk in (('{-1,0}', lambda s: (-1, 0)), ('{0,-1}', lambda s: (0, -1)), ('{0,-1000000}', lambda s: (0, -1000000)), ('{-1,1}', lambda s: (-1, 1)),
                            ('{negative,any}', lambda s: (s.sym(64, 'sec', -(1 << 63), -1), s.sym(64, 'nsec', 0, 999999999))),
                            ('{any,negative}', lambda s: (s.sym(64, 'sec', 0), s.sym(64, 'nsec', -(1 << 63), -1)))):
                s0 = w1.clone(); t = mk(s0)
                for o in D.kevent(s0, kq, [], 1, ts=t, label='kevent(timeout %s)' % lab):
                    D.eng.oblige('C21.negative', lab)
                    inf = any(x[0] == 'wait' and x[1] == 'epoll_wait' and not (type(o.st.env.norm(x[4])) is int and o.st.env.norm(x[4]) >= 0) and (o.st.env.range(o.st.env.norm(x[4]))[0] < 0 if type(o.st.env.norm(x[4])) is not int else True) for x in o.log)
                    if inf: C.v(o.st, 'C21', 'infinite', 'kevent() with timeout %s waits indefinitely' % lab, key=('infinite', lab))
                    elif o.rv != -1 or o.errno != EINVAL: C.v(o.st, 'C21', 'negative-accepted', 'kevent() with timeout %s returns %s with errno %s instead of failing with EINVAL' % (lab, show(o.rv), show(o.errno)), key=('neg', lab))
            go(None, '{any,0}', lambda s: (s.sym(64, 'sec', 0), 0))
            go(None, '{any,any}', lambda s: (s.sym(64, 'sec', 0), s.sym(64, 'nsec', 0, 999999999)))
            go(None, '{small,any}', lambda s: (s.sym(64, 'sec', 0, 1000), s.sym(64, 'nsec', 0, 999999999)))
    D.stats = C.stats
    return D

# ------------------------------------------------------------------ cancellation (C01)
def cancels(M):
    D = Driver(M); C = FieldClient(D, 0); ws = C.queues(1); ids(ws, x=lambda w: 5, s=lambda w: D.userfd(w, mode=S_IFSOCK, stype=1, listen=0))
    # a triggered one-shot event is pending in some of the worlds
    for w in list(ws):
        for o in D.kevent(w, w.ghost['kqs'][0]['fd'], [(USER, 6, EV_ADD | EV_ONESHOT, 0, 0, 7), (USER, 6, 0, NOTE_TRIGGER, 0, 7)], 0, label='add and trigger a one-shot event'):
            if o.rv == 0: o.st.ghost['pend6'] = True; ws = list(ws) + [o.st]
    for w in ws:
        kq = w.ghost['kqs'][0]['fd']
        for pre in (0, 1):
            for chs, nev, ts in (([(USER, 5, EV_ADD, 0, 0, 7)], 1, (0, 0)), ([], 1, None), ([], 1, (1, 1)), ([(READ, w.ghost['ids']['s'], EV_ADD, 0, 0, 7)], 2, (1, 0)), ([(USER, 5, EV_DELETE, 0, 0, 7)], 0, (0, 0)), ([(USER, 5, EV_DELETE, 0, 0, 7)], 1, (0, 0))):
                s0 = w.clone(); s0.ghost['pre_cancel'] = pre
                D.eng.oblige('C01.cancel', (pre, nev))
                for o in D.kevent(s0, kq, chs, nev, ts=ts, opt={'cancel': True}, label='kevent() with the thread cancelled at any point'):
                    if o.cancelled:
                        s = o.st
                        s.ghost['pre_cancel'] = 0
                        if s.threads[0].held or s.k.mutex: continue
                        for o2 in D.kevent(s, kq, [(USER, 9, EV_ADD, 0, 0, 7)], 0, label='another kevent() on the queue'):
                            if o2.rv != 0: C.v(o2.st, 'C01', 'unusable', 'the queue is unusable after a thread was cancelled in kevent()', key=('unusable',))
                        if s.ghost.get('pend6'):         # what the cancelled thread was not told must still be there for another
                            D.eng.oblige('C29.cancelled')
                            for o2 in D.kevent(s, kq, [], 4, ts=(0, 0), label='poll by another thread'):
                                if not any(e['filter'] in (USER, USER & 0xffff) and e['ident'] == 6 for e in o2.entries or ()):
                                    C.v(o2.st, ('C29', 'C06'), 'cancelled-event', 'a thread cancelled in kevent() took the event of a one-shot registration with it', key=('cancelev',))
    for st in (D.boot(),):
        s0 = st.clone()
        for o in D.kqueue(s0, opt={'cancel': True, 'sched': False}, label='kqueue() with the thread cancelled at any point'): pass
    for w in C.queues(1):
        b0 = held(w)
        for o in D.kqueue(w.clone(), opt={'cancel': True, 'sched': False}, label='kqueue() with the thread cancelled at any point'):
            if not o.cancelled: continue
            D.eng.oblige('C09.cancelled')
            df, dm = diff(held(o.st)[0], b0[0]), diff(held(o.st)[1], b0[1])
            if df or dm: C.v(o.st, ('C09', 'C15'), 'cancelled-kqueue', 'a thread cancelled in kqueue() leaves %s behind, which nobody can close' % ', '.join(['a ' + str(k) for k in df] or ['memory']), key=('cancelkq',))
    D.stats = C.stats
    return D

def spurious(M):
    """waiting for the helper thread to start may end without it having started"""
    D = Driver(M); C = FieldClient(D, 0)
    for o in D.kqueue(D.boot(), opt={'spurious': True}, label='kqueue() with a spurious wake-up'):
        D.eng.oblige('C15.spurious')
        if type(o.rv) is int and o.rv < 0:
            C.v(o.st, 'C15', 'kqueue-fails', 'kqueue() fails with errno %s although no call it makes fails' % show(o.errno), key=('kqueue-fails',)); continue
        s = o.st; kqs = dict(s.ghost['kqs']); kqs[0] = {'fd': o.rv}; s.ghost['kqs'] = kqs
        closing(D, C, s, held(s), 1)
    D.stats = C.stats
    return D

def raised_limit(existing, ops):
    """the descriptor limit is raised between kqueue() calls"""
    def run(M):
        D = Driver(M); C = FieldClient(D, 0)
        ref = [held(C.queues(n)[0]) for n in (1, 2)]
        for w in C.queues(1):
            ws = [w]
            if not existing:
                s = w.clone(); q = dropq(s, 0); ws = list(D.closefd(s, q['fd'], 'close(kq0)'))
            for x in ws:
                old = x.k.rlim; x.k.rlim = x.sym(64, 'RAISED_RLIM', 16, 1 << 30); x.env.assume_cmp('slt', 64, old, x.k.rlim, True)
                x.hist = (x.hist, 'the descriptor limit is raised'); b0 = held(x)
                for o in D.kqueue(x, label='kqueue()'):
                    s = o.st; D.eng.oblige('C15.raised-limit')
                    ok = not (type(o.rv) is int and o.rv < 0)
                    if not ok and o.errno == 0: C.v(s, 'C15', 'no-errno', 'kqueue() fails without setting errno', key=('kqerr',))
                    tgt = ref[1 if existing else 0] if ok else (b0 if existing else ref[0])
                    f, m = held(s)
                    for k in diff(f, tgt[0]):
                        # a failed first kqueue() may keep its idle monitoring thread, but no descriptor
                        C.v(s, ('C15', 'C09'), 'failed-kqueue' if not ok else 'queue-cost', 'kqueue() %s after the descriptor limit was raised and leaves an extra %s' % ('succeeds' if ok else 'fails', k), key=('rl', k))
                    if not ok and not existing:
                        for k in diff(f, {}): C.v(s, ('C15', 'C09'), 'failed-kqueue', 'a failed kqueue() (descriptor limit raised before) leaves a %s behind' % k, key=('rlf', k))
                    for k in diff(m, tgt[1]): C.v(s, ('C15', 'C09'), 'failed-kqueue', 'kqueue() after the descriptor limit was raised leaves extra memory allocated at %s' % k, key=('rlm', k))
                    if ok:
                        kqs = dict(s.ghost['kqs']); kqs[3] = {'fd': o.rv}; s.ghost['kqs'] = kqs
                        for o2 in D.kevent(s, o.rv, [(USER, 5, EV_ADD, 0, 0, 7)], 0, label='first use'):
                            if o2.rv != 0: C.v(o2.st, 'C15', 'unusable', 'a queue made after the descriptor limit was raised is unusable', key=('unusable',))
                            z = o2.st.clone(); q = dropq(z, 3)
                            for y in D.closefd(z, q['fd'], 'close(new queue)'):
                                for k in diff(held(y)[0], b0[0]): C.v(y, ('C15', 'C09'), 'queue-not-released', 'after close() a %s is still held' % k, key=('rlc', k))
        D.stats = C.stats
        return D
    return run

# ------------------------------------------------------------------ queue life cycle (C15, C09, C11, C01)
def held(s):
    """what the library holds: descriptors by kind, memory by site"""
    fds = {}; mem = {}
    for f in s.k.fds:
        if f.owner == 'lib': k = s.k.ofds[f.ofd]['kind']; fds[k] = fds.get(k, 0) + 1
    for oid, o in s.objs.items():
        if o.kind == 'heap' and o.freed is None: mem[o.site] = mem.get(o.site, 0) + 1
    return fds, mem
def diff(a, b):
    """entries of a beyond b"""
    return {k: v - b.get(k, 0) for k, v in a.items() if v > b.get(k, 0)}

def kq_faults(nf, existing):
    """kqueue() with up to nf failing calls, then a retry"""
    def run(M):
        D = Driver(M); C = FieldClient(D, 0)
        # what one more queue costs
        ref = C.queues(1)[0]; ref2 = C.queues(2)[0]; base0 = empty_base(D, Client(D, 0))
        ws = C.queues(existing) if existing else [D.boot()]
        for w in ws:
            b0 = held(w)
            init = b0 if existing else None
            D.eng.oblige('C15.kqueue-fault')
            fails = []; odd = []
            for o in D.kqueue(w, faults=nf, label='kqueue() with up to %d failing calls' % nf):
                s = o.st
                if type(o.rv) is int and o.rv < 0:
                    if o.errno == 0: C.v(s, 'C15', 'no-errno', 'kqueue() fails without setting errno', key=('kqerr',))
                    fails.append(s)
                    if existing:
                        df, dm = diff(held(s)[0], b0[0]), diff(held(s)[1], b0[1])
                        for k in df: C.v(s, ('C15', 'C09'), 'failed-kqueue', 'a failed kqueue() leaves a %s behind' % k, key=('kqfd', k))
                        for k in dm: C.v(s, ('C15', 'C09'), 'failed-kqueue', 'a failed kqueue() leaves memory allocated at %s behind' % k, key=('kqmem', k))
                        lf, lm = diff(b0[0], held(s)[0]), diff(b0[1], held(s)[1])
                        for k in lf: C.v(s, ('C15', 'C11'), 'failed-kqueue', 'a failed kqueue() releases a %s of another queue' % k, key=('kqfdl', k))
                elif s.nfault: s.ghost['kqs'] = dict(s.ghost['kqs']); s.ghost['kqs'][existing] = {'fd': o.rv}; odd.append(s)
            for s in dedupe(odd):           # a call failed, yet there is a queue: it has to be a good one
                kqs = s.ghost['kqs']
                what = 'kqueue() succeeded although %s' % notes(s)[:80]
                n = existing; D.eng.oblige('C15.success-after-fault')
                for x in usable(D, C, s, n, ('odd', notes(s)[:60]), what)[:1]:
                    ids([x], **flab_ids(D))
                    for flt in (TIMER, SIGNAL, PROC, READ, VNODE):
                        for o in D.kevent(x, kqs[n]['fd'], [(flt, x.ghost['ids'][FLAB[flt]], EV_ADD, DEFFF.get(flt, 0), 1000, 7)], 0, label='first use of %s' % FNAME[flt], opt={'fire': 'none'}):
                            if o.rv != 0: C.v(o.st, 'C15', 'unusable', '%s: %s cannot be registered (errno %s)' % (what, FNAME[flt], show(o.errno)), key=('unusable', flt))
                if not existing: close_all(D, C, s, (0,), base0, ('odd',), what)
            for s in dedupe(fails):
                for o in D.kqueue(s, label='kqueue() again'):
                    D.eng.oblige('C15.retry')
                    if type(o.rv) is int and o.rv < 0:
                        C.v(o.st, 'C15', 'retry-fails', 'after a failed kqueue() the next one fails too, with errno %s' % show(o.errno), key=('retry', s.notes[-1:])); continue
                    kqs = dict(o.st.ghost['kqs']); kqs[existing] = {'fd': o.rv}; o.st.ghost['kqs'] = kqs
                    tgt = held(ref if not existing else ref2)
                    df, dm = diff(held(o.st)[0], tgt[0]), diff(held(o.st)[1], tgt[1])
                    if existing <= 1:
                        for k in df: C.v(o.st, ('C15', 'C09'), 'failed-kqueue', 'after a failed and a successful kqueue() one more %s is held than after successes only' % k, key=('kqfd2', k, notes(s)[:60]))
                        for k in dm: C.v(o.st, ('C15', 'C09'), 'failed-kqueue', 'after a failed and a successful kqueue() more memory allocated at %s is held than after successes only' % k, key=('kqmem2', k))
                    for o2 in D.kevent(o.st, o.rv, [(USER, 5, EV_ADD, 0, 0, 7)], 0, label='first use'):
                        if o2.rv != 0: C.v(o2.st, 'C15', 'unusable', 'the queue made after a failed kqueue() is unusable', key=('unusable',))
        D.stats = C.stats
        return D
    return run

def register(C, w, kqi, kinds):
    """worlds with one registration per filter in kinds"""
    ws = [w]
    for flt in kinds:
        nxt = []
        for x in ws:
            for s in C.change(x, (kqi, flt, FLAB[flt]), EV_ADD, DEFFF.get(flt, 0), 1000 if flt == TIMER else 0): nxt.append(s)
        ws = nxt[:2]
    return ws
FLAB = {USER: 'u', TIMER: 'u', SIGNAL: 'sig', PROC: 'pid', READ: 'sock', WRITE: 'sock', VNODE: 'file'}
def flab_ids(D):
    return dict(u=lambda w: 77, sig=lambda w: 10, pid=lambda w: 4242, sock=lambda w: D.userfd(w, mode=S_IFSOCK, stype=1, listen=0), file=lambda w: D.userfd(w, mode=S_IFREG))

def lifecycle(kinds, nq=1, order='settle', disabled=False, userclose=False):
    """close a queue, with registrations of the given kinds; then make a new queue"""
    def run(M):
        D = Driver(M); C = FieldClient(D, 0)
        ws = C.queues(nq); ids(ws, **flab_ids(D))
        for w in ws:
            base = held(w)
            cur = register(C, w, 0, kinds)
            if nq > 1:
                cur = [s for x in cur for s in register(C, x, 1, kinds)][:2]
            if disabled:
                for qi in range(nq):
                    for flt in kinds: cur = [s for x in cur for s in C.change(x, (qi, flt, FLAB[flt]), EV_DISABLE)]
            for x in cur:
                if userclose:
                    for lab in ('sock', 'file'):
                        x = user_close(D, C, x, lab, reuse=False)[0]
                if order == 'settle': closing(D, C, x, base, nq)
                elif order == 'reuse': reusing(D, C, x, base, nq)
        D.stats = C.stats
        return D
    return run
def dropq(s, i):
    kqs = dict(s.ghost['kqs']); q = kqs.pop(i); s.ghost['kqs'] = kqs
    s.ghost['spec'] = {k: v for k, v in s.ghost['spec'].items() if k[0] != i}
    return q
def closing(D, C, w, base, nq):
    num = w.ghost['kqs'][0]['fd']
    keep = {f.ofd: (f.num) for f in w.k.fds if f.owner == 'lib'}
    s = w.clone(); q = dropq(s, 0)
    if nq > 1:
        ep = [oid for oid, d in s.k.ofds.items() if d['kind'] == 'epoll']; kqs = dict(s.ghost['kqs']); kqs[1] = dict(kqs[1], epoll=sorted(ep)[1]); s.ghost['kqs'] = kqs
    for x in D.closefd(s, num, 'close(kq0)'):
        D.eng.oblige('C15.close')
        f, m = held(x)
        w_f, w_m = held(w); regs_f = diff(w_f, base[0])
        # what the queue itself costs: the difference between two fresh queues and one
        b1, b2 = held(C.queues(nq)[0]), held(C.queues(nq + 1)[0])
        inc = [diff(b2[i], b1[i]) for i in (0, 1)]
        want = [{k: v - inc[i].get(k, 0) for k, v in b1[i].items()} for i in (0, 1)]
        if nq == 1:
            for k in diff(f, want[0]): C.v(x, ('C15', 'C09'), 'queue-not-released', 'after the only queue was closed a %s is still held' % k, key=('qfd', k))
            for k in diff(m, want[1]): C.v(x, ('C15', 'C09'), 'queue-not-released', 'after the only queue was closed memory allocated at %s is still held' % k, key=('qmem', k))
        else:
            for k in inc[0]:
                if f.get(k, 0) > w_f.get(k, 0) - inc[0][k]: C.v(x, ('C15', 'C09'), 'queue-not-released', 'after a queue was closed its %s is still held' % k, key=('qfd', k))
                if f.get(k, 0) < w_f.get(k, 0) - inc[0][k] - regs_f.get(k, 0): C.v(x, ('C15', 'C11'), 'other-queue-released', 'after a queue was closed a %s of the other queue is gone too' % k, key=('qfdl', k))
            for k in inc[1]:
                if m.get(k, 0) > w_m.get(k, 0) - inc[1][k]: C.v(x, ('C15', 'C09'), 'queue-not-released', 'after a queue was closed memory allocated at %s is still held' % k, key=('qmem', k))
            # the registrations of both queues were the same, so exactly half of what they hold must go
            for i, (now, old, what) in enumerate(((f, w_f, 'a %s'), (m, w_m, 'memory allocated at %s'))):
                for k in old:
                    reg = old[k] - b1[i].get(k, 0)
                    if reg > 0 and now.get(k, 0) != b1[i].get(k, 0) - inc[i].get(k, 0) + reg // 2 and reg % 2 == 0 and not x.ghost.get('closedfd'):
                        C.v(x, ('C15', 'C09') if now.get(k, 0) > b1[i].get(k, 0) - inc[i].get(k, 0) + reg // 2 else ('C15', 'C11'), 'queue-release', 'closing one of two equal queues changes the number of ' + what % k + ' from %d to %d' % (old[k], now.get(k, 0)), key=('half', k))
            C.rwmask(x)
            for p in C.poll(x, 1): C.after_change(p)
        # the descriptor is no queue any more
        for o in D.kevent(x, num, [], 1, label='kevent(closed queue)'):
            if o.rv != -1 or o.errno == 0: C.v(o.st, 'C15', 'closed-accepted', 'kevent() on a closed queue returns %s with errno %s' % (show(o.rv), show(o.errno)), key=('closed',))
        for o in D.kqueue(x, label='kqueue() after close'):
            if type(o.rv) is int and o.rv < 0: C.v(o.st, 'C15', 'no-new-queue', 'kqueue() fails after a queue was closed', key=('newq',)); continue
            kqs = dict(o.st.ghost['kqs']); kqs[5] = {'fd': o.rv}; o.st.ghost['kqs'] = kqs
            for o2 in D.kevent(o.st, o.rv, [(USER, 5, EV_ADD, 0, 0, 7)], 0, label='use of the new queue'):
                if o2.rv != 0: C.v(o2.st, 'C15', 'unusable', 'a queue made after another one was closed is unusable', key=('unusable',))
def reusing(D, C, w, base, nq):
    """the descriptor number is reused by a new queue before the library noticed the close"""
    num = w.ghost['kqs'][0]['fd']
    # the other queues hold the same registrations; only theirs may remain
    hw = held(w); base = [dict(b, **{k: b.get(k, 0) + (v - b.get(k, 0)) * (nq - 1) // nq for k, v in h.items() if k in b or nq > 1}) for b, h in zip(base, hw)]
    s = w.clone(); q = dropq(s, 0); s.ghost['spec'] = {}
    for x in D.closefd(s, num, 'close(kq0)', settle=False) + D.closefd(s, num, 'close(kq0), just being noticed', settle='held'):
        for o in D.kqueue(x, label='kqueue() reusing the number', opt={'reuse': num, 'sched': False}):
            if type(o.rv) is int and o.rv < 0: continue
            D.eng.oblige('C15.reuse')
            y = o.st
            kqs = dict(y.ghost['kqs']); kqs[0] = {'fd': o.rv}; y.ghost['kqs'] = kqs
            for z in D.settle(y):
                f, m = held(z)
                for k in diff(f, base[0]): C.v(z, ('C15', 'C09'), 'reuse-leak', 'after a queue was closed and its number reused one more %s is held' % k, key=('rfd', k))
                for k in diff(m, base[1]): C.v(z, ('C15', 'C09'), 'reuse-leak', 'after a queue was closed and its number reused more memory allocated at %s is held' % k, key=('rmem', k))
                for k in diff(base[0], f): C.v(z, ('C15', 'C11'), 'reuse-lost', 'after a queue was closed and its number reused a %s of the new queue is gone' % k, key=('rfdl', k))
                for o2 in D.kevent(z, o.rv, [(USER, 5, EV_ADD, 0, 0, 7)], 0, label='use of the new queue'):
                    if o2.rv != 0: C.v(o2.st, 'C15', 'reuse-unusable', 'the new queue with a reused number is unusable (errno %s)' % show(o2.errno), key=('runusable',)); continue
                    for o3 in D.kevent(o2.st, o.rv, [(USER, 5, EV_ADD, NOTE_TRIGGER, 0, 7)], 1, label='trigger', opt={}):
                        if o3.rv != 1: C.v(o3.st, 'C15', 'reuse-unusable', 'the new queue with a reused number does not deliver', key=('rnodel',))
                    t = o2.st.clone(); dropq(t, 0)
                    for u in D.closefd(t, o.rv, 'close(new kq)'):
                        if nq == 1:
                            for k in held(u)[0]: C.v(u, ('C15', 'C09'), 'queue-not-released', 'after the queue with the reused number was closed a %s is still held' % k, key=('r2fd', k))

CONFIG = ('libkqueue_thread_safe', 'libkqueue_fork_cleanup', 'libkqueue_fork_cleanup_active', 'libkqueue_debug', 'libkqueue_in_child')
def memory(s):
    """what the library's data says, configuration switches aside"""
    return {oid: tuple(sorted(((c, z, v) for c, (z, v) in o.cells.items()), key=str)) for oid, o in s.objs.items()
            if o.freed is None and (o.kind == 'heap' or (type(oid) is tuple and oid[0] == 'g' and oid[1] not in CONFIG))}
def kernelside(s):
    return (tuple((f.num, f.ofd, f.owner, f.cloexec) for f in s.k.fds),
            tuple(sorted(((i, d['kind'], tuple((r.num, r.ofd, r.events, r.armed) for r in d['regs'])) for i, d in s.k.ofds.items()), key=str)), tuple(sorted(s.k.mutex.items(), key=str)))
def forking(kinds, nq=1, other=False, cleanup=True, pend=None, flip=False, reuse=True):
    """fork() with nq queues holding registrations of the given kinds.
    other: another thread is inside kevent() on queue 0; pend: queue 0 was just closed ('closed') and its number is in
    use for a file of the application ('reused'; 'kept': although another copy of the queue's descriptor is open); flip: the clean-up switch is changed between the handlers"""
    def run(M):
        D = Driver(M); C = FieldClient(D, 0); eng = D.eng
        ws = C.queues(nq); ids(ws, **flab_ids(D))
        for w in ws:
            cur = [w]
            for qi in range(nq): cur = [s for x in cur for s in register(C, x, qi, kinds)][:2]
            for x in cur:
                x = x.clone()
                app = x.k.newfd(x, 'user', 'user', False, 'app', mode=S_IFREG)
                num0 = x.ghost['kqs'][0]['fd']
                if not cleanup:
                    outs = D.kevent(x, num0, [(EVFILT_LIBKQ, 0, EV_ADD, 4, 0, 0), (EVFILT_LIBKQ, 0, EV_DELETE, 0, 0, 0)], 0, label='fork clean-up off')
                    if not outs or any(o.rv != 0 for o in outs): continue
                    x = outs[0].st
                if pend:
                    q = dropq(x, 0)
                    if pend == 'kept': x = x.clone(); x.k.setofd(x.k.fds[x.k.index(x, num0)].ofd, foreign=True)
                    x = D.closefd(x, num0, 'close(kq0)%s' % (', another copy of the descriptor stays open' if pend == 'kept' else ''), settle='held' if pend == 'held' else False)[0]
                    if pend in ('reused', 'kept'):
                        x.k.newfd(x, 'user', 'user', False, 'app', mode=S_IFREG); x.k.fds[-1].num = num0
                if other:
                    x = x.clone(); t = Thread(99, 'another thread'); t.status = 'idle'; x.threads[99] = t
                    kqo = [key for key in x.k.mtype if type(key[1]) is not tuple and x.objs.get(key[1]) is not None and x.objs[key[1]].freed is None]
                    for key in sorted(kqo, key=lambda z: z[1])[:1]: x.k.mutex[key] = (99, 1); t.held = (key,)
                if not x.k.atfork:
                    C.v(x, 'C13', 'no-fork-handlers', 'no fork handlers are registered once a queue exists', key=('noatfork',)); continue
                before = (memory(x), kernelside(x))
                pres = D.call(x, [a[0] for a in reversed(x.k.atfork)], 'fork(): prepare')
                if not pres: eng.oblige('C13.prepare')
                for p in pres:
                    eng.oblige('C13.prepare')
                    if flip:
                        p = p.clone(); g = ('g', 'libkqueue_fork_cleanup')
                        if g in p.objs or 'libkqueue_fork_cleanup' in M.globals:
                            eng.getobj(p, g); p.wobj(g).cells[0] = (1, 0 if cleanup else 1)
                        p.hist = (p.hist, 'clean-up switched by another thread')
                    # parent
                    for y in D.call(p, [a[1] for a in p.k.atfork], 'in the parent'):
                        eng.oblige('C13.parent')
                        if y.threads[0].held or any(own == 0 for own, n in y.k.mutex.values()):
                            C.v(y, 'C13', 'parent-lock', 'after fork() the parent still holds %s' % ', '.join(eng.ext.lockname(y, m) for m in y.threads[0].held), key=('plock',)); continue
                        now = (memory(y), kernelside(y))
                        if now[1] != before[1] and pend != 'held': C.v(y, 'C13', 'parent-changed', 'fork() changes descriptors, epoll interests or locks of the parent', key=('pk',))
                        if now[0] != before[0] and pend != 'held':
                            ch = sorted(str(o if type(o) is tuple else y.objs[o].name) for o in set(now[0]) | set(before[0]) if now[0].get(o) != before[0].get(o))
                            C.v(y, 'C13', 'parent-changed', 'fork() changes the parent\'s library data: %s' % ', '.join(ch[:4]), key=('pm',))
                        if not other:
                            for qi in sorted(y.ghost['kqs']):
                                for z in C.poll(y, qi)[:2]: C.after_change(z)
                    # child
                    c = D.child_of(p); c.ghost['inchildhandler'] = True
                    chs = D.call(c, [a[2] for a in p.k.atfork], 'child handler')
                    if not chs: C.v(c, 'C13', 'child-stuck', 'the fork handler of the child never completes', key=('stuck',))
                    for y in chs:
                        y.ghost['inchildhandler'] = False
                        eng.oblige('C13.child')
                        bad = [m for m in y.k.mutex if type(m[1]) is tuple or y.k.mutex[m][0] == 0]
                        if bad: C.v(y, 'C13', 'child-lock', 'after fork() the child has %s locked' % ', '.join(eng.ext.lockname(y, m) for m in bad), key=('clock',)); continue
                        if not cleanup:
                            if kernelside(y)[:2] != before[1][:2] or memory(y) != before[0]:
                                C.v(y, 'C13', 'cleanup-off', 'with fork clean-up off the fork handlers change descriptors or library data in the child', key=('off',))
                            continue
                        have = {(f.num, f.ofd) for f in y.k.fds}
                        for f in p.k.fds:
                            eng.oblige('C13.descriptor')
                            kd = p.k.ofds[f.ofd]['kind']
                            if f.owner != 'lib':
                                if (f.num, f.ofd) not in have: C.v(y, 'C13', 'child-closed-foreign', 'the fork handler of the child closes a descriptor of the application', key=('foreign',))
                            elif (kd == 'epoll' or any(y.env.norm(q['fd']) == f.num for q in y.ghost['kqs'].values())) and (f.num, f.ofd) in have:
                                C.v(y, 'C13', 'child-keeps', 'the child keeps the %s opened at %s of an inherited queue' % ('event set' if kd == 'epoll' else 'descriptor', f.site), key=('keeps', kd))
                        child_use(D, C, y, num0, reuse and not pend)
        D.stats = C.stats
        return D
    return run
EVFILT_LIBKQ = -12
def child_use(D, C, y, num0, reuse):
    y = y.clone(); y.ghost['spec'] = {}; kqs0 = y.ghost['kqs']; y.ghost['kqs'] = {}
    for q in kqs0.values():
        for o in D.kevent(y, q['fd'], [], 1, label='child: kevent(inherited queue)'):
            if o.rv != -1: C.v(o.st, 'C13', 'child-inherits', 'kevent() on an inherited queue returns %s in the child' % show(o.rv), key=('inherits',))
        break
    variants = [{'sched': False}]
    if reuse: variants.append({'reuse': num0, 'sched': False})
    for opt in variants:
        outs = D.kqueue(y, label='child: kqueue()' + (' reusing the number' if 'reuse' in opt else ''), opt=opt)
        ok = False
        for o in outs:
            D.eng.oblige('C13.child-queue'); ok = True
            if type(o.rv) is int and o.rv < 0:
                C.v(o.st, 'C13', 'child-no-queue', 'the child cannot create a queue: errno %s' % show(o.errno), key=('cnew',)); continue
            z = o.st; z.ghost['kqs'] = {0: {'fd': o.rv}}
            if not any(t.role != 'app' and t.status != 'done' for t in z.threads.values()):
                C.v(z, 'C13', 'child-no-monitor', 'no monitoring thread runs in the child: its queues are never released', key=('cmon',))
            for s1 in C.change(z, (0, USER, 'u'), EV_ADD):
                for s2 in C.change(s1, (0, USER, 'u'), 0, 0x01000000):
                    for s3 in C.poll(s2, 0): C.after_change(s3)
                for s4 in D.closefd(s1, o.rv, 'child: close(queue)'): pass
            # fork again
            for p in D.call(z, [a[0] for a in reversed(z.k.atfork)], 'child: fork() again'):
                g = D.child_of(p); g.ghost['deadlocks'] = frozenset(g.ghost['deadlocks']) | frozenset(y.ghost.get('deadlocks') or ())
                for h in D.call(g, [a[2] for a in z.k.atfork], 'grandchild handler'):
                    D.eng.oblige('C13.grandchild')
                    if h.threads[0].held: C.v(h, 'C13', 'child-lock', 'after fork() the grandchild has a lock held', key=('glock',))
            for h in D.call(z, list(reversed(z.k.atexit)), 'child: exit()'): D.eng.oblige('C13.child-exit')
        if not outs and not D.eng.incomplete:
            C.v(y, 'C13', 'child-no-queue', 'kqueue() never returns in the child', key=('cstuck',))

def exiting(kinds, nq=1, close=(), other=False, settle=True):
    """exit() with queues open, closed and just being closed, and possibly another thread inside kevent()"""
    def run(M):
        D = Driver(M); C = FieldClient(D, 0); eng = D.eng
        ws = C.queues(nq) if nq else [D.boot()]
        ids(ws, **flab_ids(D))
        for w in ws:
            cur = [w]
            for qi in range(nq): cur = [s for x in cur for s in register(C, x, qi, kinds)][:2]
            for x, late in [(x, l) for x in cur for l in ((settle, 'held') if close and not settle else (settle,))]:
                for qi in close:
                    num = x.ghost['kqs'][qi]['fd']; x = x.clone(); dropq(x, qi)
                    x = D.closefd(x, num, 'close(kq%d)' % qi, settle=late)[0]
                if other and x.ghost['kqs']:
                    x = x.clone(); t = Thread(99, 'another thread'); t.status = 'idle'; x.threads[99] = t
                    for key in sorted((k for k in x.k.mtype if type(k[1]) is not tuple and x.objs.get(k[1]) is not None and x.objs[k[1]].freed is None), key=lambda z: -z[1])[:1]:
                        x.k.mutex[key] = (99, 1); t.held = (key,)
                x = x.clone(); x.ghost['inexit'] = True
                for sched in (False, True):
                    fins = D.call(x, list(reversed(x.k.atexit)), 'exit()', opt={'sched': sched})
                    eng.oblige('C03.exit')
                    for y in fins:
                        if y.threads[0].held or any(m[1] and type(m[1]) is tuple for m in y.k.mutex):
                            C.v(y, ('C01', 'C03'), 'exit-lock', 'after exit handlers %s is still locked' % ', '.join(eng.ext.lockname(y, m) for m in y.k.mutex), key=('xlock',))
                        live = [t.role for t in y.threads.values() if t.tid not in (0, 99) and t.status != 'done' and not t.detached]
                        if live: C.v(y, ('C03',), 'exit-thread', 'after the exit handlers %s still runs' % live[0], key=('xthr',))
        D.stats = C.stats
        return D
    return run

# ------------------------------------------------------------------ EVFILT_LIBKQUEUE
N_VERSION, N_VERSION_STR, N_THREAD_SAFE, N_FORK_CLEANUP = 1, 2, 3, 4
def config_filter(depth):
    """every history of queries and settings: each is answered by the call that makes it"""
    def run(M):
        D = Driver(M); C = ListClient(D, 0); ws = C.queues(1); eng = D.eng
        cells = ('libkqueue_thread_safe', 'libkqueue_fork_cleanup')
        def one(w, ff, val, rec, nev, add=EV_ADD):
            conf = w.ghost.get('conf', (1, 1)); kq = w.ghost['kqs'][0]['fd']
            query = ff in (N_VERSION, N_VERSION_STR); bad = ff not in (1, 2, 3, 4); ud = w.sym(64, 'udata')
            dv = w.sym(64, 'data', *val) if type(val) is tuple else val
            lab = 'EVFILT_LIBKQUEUE(%s) data %s%s, %d slots' % ({1: 'NOTE_VERSION', 2: 'NOTE_VERSION_STR', 3: 'NOTE_THREAD_SAFE', 4: 'NOTE_FORK_CLEANUP'}.get(ff, hex(ff)), val if type(val) is int else '> 0' if val[0] > 0 else '<= 0', ' RECEIPT' if rec else '', nev)
            outs = D.kevent(w, kq, [(LIBKQ, 0, EV_ADD | (EV_RECEIPT if rec else 0), ff, dv, ud)], nev, label=lab, opt={'fire': 'none'})
            res = []
            for o in outs:
                if o.cancelled: continue
                s = o.st; eng.oblige('C30.answer', ff)
                def v(rule, msg, props=('C30',)): C.v(s, props, rule, msg, key=(rule, ff, rec, nev))
                known = s.ghost.setdefault('version', None) if False else s.ghost.get('version')
                on = int((val[0] if type(val) is tuple else val) > 0)
                new = conf
                if not bad and ff == N_THREAD_SAFE: new = (on, conf[1])
                if not bad and ff == N_FORK_CLEANUP: new = (conf[0], on)
                entry = bad or query or rec
                if entry and nev == 0:
                    if o.rv != -1 or o.errno == 0: v('no-room', '%s has no room for the answer but returns %s, errno %s' % (lab, show(o.rv), show(o.errno)), ('C30', 'C05'))
                elif o.rv != (1 if entry else 0): v('answer-count', '%s returns %s instead of %d' % (lab, show(o.rv), 1 if entry else 0)); continue
                elif entry:
                    e = o.entries[0]
                    if e['filter'] != LIBKQ or e['ident'] != 0: v('answer-echo', '%s is answered with filter %s, ident %s' % (lab, show(e['filter']), show(e['ident'])))
                    if bad:
                        if type(e['flags']) is not int or not e['flags'] & EV_ERROR or e['data'] == 0: v('error-without-errno', '%s must be rejected but is answered with flags %s, data %s' % (lab, show(e['flags']), show(e['data'])), ('C30', 'C05'))
                    else:
                        if type(e['flags']) is not int or e['flags'] & EV_ERROR: v('answer-flags', '%s is answered with flags %s' % (lab, show(e['flags'])))
                        if e['fflags'] != ff: v('answer-echo', '%s is answered with fflags %s' % (lab, show(e['fflags'])))
                        if ff in (N_THREAD_SAFE, N_FORK_CLEANUP):
                            if e['data'] != conf[ff - 3]: v('previous-value', '%s reports the previous value %s instead of %d' % (lab, show(e['data']), conf[ff - 3]))
                            if same(s, 64, e['udata'], ud) is False: v('answer-udata', '%s does not return the caller\'s udata' % lab, ('C30', 'C17'))
                        elif ff == N_VERSION:
                            want = version_number()
                            if type(e['data']) is not int or want is not None and e['data'] >> 8 != want: v('version', '%s reports version %s' % (lab, show(e['data'])))
                        else:
                            p = e['udata']; t = version_text(eng, s, p)
                            want = version_string()
                            if t is None or want is not None and not t.startswith(want): v('version', '%s does not return the version string (%s)' % (lab, show(p)))
                if nev == 0 and (query or bad) or not (entry and nev == 0): pass
                for n, g in enumerate(cells):
                    o_ = s.objs.get(('g', g)); c = o_.cells.get(0) if o_ is not None else None
                    val_ = c[1] if c is not None else initial(M, g)
                    if val_ is not None and val_ != new[n] and not (entry and nev == 0 and val_ == conf[n]):
                        v('setting', '%s leaves the setting %s at %s instead of %d' % (lab, g.replace('libkqueue_', ''), show(val_), new[n]))
                    elif val_ is not None and val_ != new[n]: new = conf
                s.ghost['conf'] = new; C.stats['ops'] += 1
                res.append(s)
            return res
        def ops(w):
            L = []
            for ff, vals in ((1, (0,)), (2, (0,)), (3, (0, 1, (2, 1 << 40), (-(1 << 40), -1))), (4, (0, 1, (2, 1 << 40))), (0, (0,)), (8, (0,)), (0x10, (0,)), (0x80000001 - (1 << 32), (0,))):
                for val in vals:
                    for rec in (False, True):
                        for nev in (0, 1): L.append(lambda w, a=(ff, val, rec, nev): one(w, *a))
            return L
        C.explore(ws, ops, depth, 200)
        D.stats = C.stats
        return D
    return run
def initial(M, g):
    G = M.globals.get(g)
    if G is None: return None
    for off, sz, v in G.init:
        if off == 0: return v
    return 0
def version_string():
    import re
    from .frontend import REPO
    try: m = re.search(r'set\(PROJECT_VERSION\s+"?([0-9.]+)', open(REPO + '/CMakeLists.txt').read())
    except OSError: return None
    return m.group(1) if m else None
def version_number():
    t = version_string()
    if t is None: return None
    p = [int(x) for x in t.split('.')] + [0, 0]
    return p[0] << 16 | p[1] << 8 | p[2]
def version_text(eng, s, p):
    """the constant string p points to"""
    if not (type(p) is tuple and p[0] == 'p' and type(p[1]) is tuple and p[2] == 0): return None
    G = eng.M.globals.get(p[1][1]) if hasattr(eng, 'M') else None
    if G is None: return None
    return ''.join(chr(v & 255) for off, sz, v in sorted(G.init) if sz == 1)
def unsafe(inner):
    """the same with NOTE_THREAD_SAFE switched off first"""
    def run(M):
        Client.thread_unsafe = True
        try: return inner(M)
        finally: Client.thread_unsafe = False
    return run
def traced(inner):
    """the same with debug messages switched on first"""
    def run(M):
        Client.traced = True
        try: return inner(M)
        finally: Client.traced = False
    return run
def usable(D, C, s, n, key, what):
    """worlds in which queue n took a change and delivered a user event; reports when it does not"""
    fd = s.ghost['kqs'][n]['fd']; res = []
    f = s.k.index(s, fd, fork=False)
    if f is None or f < 0 or s.k.fds[f].owner != 'lib' or s.k.ofds[s.k.fds[f].ofd]['kind'] != 'pipe_w':
        C.v(s, ('C15', 'C11'), 'queue-lost', '%s: the descriptor of an open queue has been closed' % what, key=('lostfd',) + key); return res
    for o in D.kevent(s, fd, [(USER, 77, EV_ADD | EV_ONESHOT, 0, 0, 7)], 0, label='use of queue %d' % n, opt={'fire': 'none'}):
        if o.rv != 0: C.v(o.st, 'C15', 'queue-lost', '%s: an open queue is unusable (errno %s)' % (what, show(o.errno)), key=('lost',) + key); continue
        for p in D.kevent(o.st, fd, [(USER, 77, EV_ADD | EV_ONESHOT, NOTE_TRIGGER, 0, 7)], 1, label='trigger', opt={'fire': 'none'}):
            if p.rv != 1: C.v(p.st, 'C15', 'queue-lost', '%s: an open queue does not deliver' % what, key=('lostev',) + key)
            else: res.append(p.st)
    return res
def close_all(D, C, s, ns, base, key, what):
    """close the queues ns one after the other: everything is released"""
    cur = [s]
    for n in ns:
        nxt = []
        for x in cur:
            x = x.clone(); q = dropq(x, n)
            nxt += D.closefd(x, q['fd'], 'close(queue %d)' % n)
        cur = nxt
    for x in cur:
        D.eng.oblige('C15.stale')
        f, m = held(x)
        for k in diff(f, base[0]): C.v(x, ('C15', 'C09'), 'queue-not-released', '%s: after all queues were closed a %s is still held' % (what, k), key=('sfd', k) + key)
        for k in diff(m, base[1]): C.v(x, ('C15', 'C09'), 'queue-not-released', '%s: after all queues were closed memory allocated at %s is still held' % (what, k), key=('smem', k) + key)
def pipes(s):
    """(read end, write end, epoll) numbers of the queues, by order of creation"""
    r = [f for f in s.k.fds if s.k.ofds[f.ofd]['kind'] == 'pipe_r' and f.owner == 'lib']; w = [f for f in s.k.fds if s.k.ofds[f.ofd]['kind'] == 'pipe_w' and f.owner == 'lib']
    return [f.num for f in r], [f.num for f in w]
def empty_base(D, C):
    """what remains when no queue is left"""
    w = C.queues(1)[0].clone(); q = dropq(w, 0)
    return held(D.closefd(w, q['fd'], 'close(kq0)')[0])
def stray(kinds, nq):
    """the application sends the library's signal, with every value"""
    def run(M):
        D = Driver(M); C = FieldClient(D, 0)
        ws = C.queues(nq); ids(ws, **flab_ids(D)); eng = D.eng
        base = empty_base(D, Client(D, 0))
        for w in ws:
            for x in register(C, w, 0, kinds)[:1]:
                tid = [t for t in x.threads if t != 0][0]; before = held(x); rs, wr = pipes(x)
                for nm, v in [('the read end of queue %d' % i, r) for i, r in enumerate(rs)] + [('the queue', wr[0]), ('any', None), ('0', 0), ('-1', -1), ('a huge number', 1 << 30)]:
                    s = D.fork_state(x, 'application sends SIGRTMIN+1, value: %s' % nm)
                    if v is None: v = s.sym(32, 'value')
                    s.k.pending[tid] = s.k.pending.get(tid, ()) + ((SIGRTMIN + 1, ('app', v)),)
                    eng.oblige('C15.stray', nm)
                    for y in D.settle(s):
                        f, m = held(y)
                        for k in set(diff(f, before[0])) | set(diff(before[0], f)): C.v(y, ('C15', 'C11'), 'stray-signal', 'a signal sent by the application (value: %s) changes the number of %ss held' % (nm, k), key=('strayfd', k))
                        for k in set(diff(m, before[1])) | set(diff(before[1], m)): C.v(y, ('C15', 'C10'), 'stray-signal', 'a signal sent by the application (value: %s) changes what is held of the memory allocated at %s' % (nm, k), key=('straymem', k))
                        cur = [y]
                        for n in range(nq): cur = [z for t in cur for z in usable(D, C, t, n, ('stray', n), 'after a signal from the application')]
                        for z in cur[:1]: close_all(D, C, z, range(nq), base, ('stray',), 'after a signal from the application')
        D.stats = C.stats
        return D
    return run
def stale(M):
    """a notification still queued while the numbers of both ends of its pipe are reused by two new queues"""
    D = Driver(M); C = FieldClient(D, 0); ws = C.queues(1); eng = D.eng
    base = empty_base(D, Client(D, 0))
    for w in ws:
        num = w.ghost['kqs'][0]['fd']; r0 = pipes(w)[0][0]
        s = w.clone(); dropq(s, 0); s.ghost['spec'] = {}
        for order in ((1, 0), (0, 1), (1,), (0,)):
            cur = D.closefd(s, num, 'close(kq0), not yet noticed', settle=False) + (D.closefd(s, num, 'close(kq0), just being noticed', settle='held') if order == (1, 0) else [])
            names = []
            for i, which in enumerate(order):
                nxt = []
                for x in cur:
                    # the old read end is free once the queue it belonged to was replaced
                    free = x.k.index(x, r0 if which == 0 else num, fork=False) is None
                    opt = {'sched': False}
                    if free: opt['place'] = (which, r0 if which == 0 else num)
                    for o in D.kqueue(x, label='kqueue() %s' % ('with the old %s' % ('read end', 'number')[which] if free else ''), opt=opt):
                        if type(o.rv) is int and o.rv < 0: continue
                        y = o.st; kqs = dict(y.ghost['kqs']); kqs[i] = {'fd': o.rv}; y.ghost['kqs'] = kqs; nxt.append(y)
                cur = nxt
            for y in cur:
                eng.oblige('C15.stale', order)
                for z in D.settle(y):
                    f, m = held(z); f0, m0 = held(y)
                    zs = [z]
                    for n in range(len(order)): zs = [t for u in zs for t in usable(D, C, u, n, ('stale', order, n), 'after the late notification of a closed queue')]
                    for t in zs:
                        close_all(D, C, t, range(len(order)), base, ('stale', order), 'late notification')
                        if len(order) == 2: close_all(D, C, t, (1, 0), base, ('stale', order), 'late notification')
                # closed before the late notification is handled
                for n in range(len(order)):
                    t = y.clone(); q = dropq(t, n)
                    for u in D.closefd(t, q['fd'], 'close(queue %d), not yet noticed' % n, settle=False):
                        for v in D.settle(u):
                            rest = [i for i in range(len(order)) if i != n]; zs = [v]
                            for i in rest: zs = [a for b in zs for a in usable(D, C, b, i, ('stale2', order, i), 'after the late notifications of two closed queues')]
                            for a in zs: close_all(D, C, a, rest, base, ('stale2', order), 'late notifications')
    D.stats = C.stats
    return D
def shared(kinds):
    """another process (or a dup) still holds the write end of a queue's pipe when the application closes it"""
    def run(M):
        D = Driver(M); C = FieldClient(D, 0); ws = C.queues(1); eng = D.eng; ids(ws, **flab_ids(D))
        base = empty_base(D, Client(D, 0))
        for w0 in ws:
            for w in register(C, w0, 0, kinds)[:1]:
                num = w.ghost['kqs'][0]['fd']
                s = D.fork_state(w, 'another process holds a copy of the queue\'s descriptor'); oid = s.k.fds[s.k.index(s, num)].ofd; s.k.setofd(oid, foreign=True)
                dropq(s, 0); s.ghost['spec'] = {}
                for x in D.closefd(s, num, 'close(kq0)'):
                    # the copy is closed, the queue goes
                    y = D.fork_state(x, 'the copy is closed'); y.k.release(y, oid)
                    for z in D.settle(y): close_all(D, C, z, (), base, ('shared',), 'closed here and in another process')
                    for cleanup, opt in ((False, {'place': (1, num), 'sched': False}), (True, {'place': (1, num), 'sched': False}), (False, {'sched': False})):
                        for o in D.kqueue(x, label='kqueue()%s' % (' with the same number' if 'place' in opt else ''), opt=opt):
                            if type(o.rv) is int and o.rv < 0: continue
                            eng.oblige('C15.shared', 'place' in opt)
                            y = o.st; kqs = dict(y.ghost['kqs']); kqs[0] = {'fd': o.rv}; y.ghost['kqs'] = kqs
                            if cleanup: y = D.fork_state(y, 'the copy is closed'); y.k.release(y, oid)
                            for z in D.settle(y):
                                for t in usable(D, C, z, 0, ('shared', 'place' in opt, cleanup), 'after a queue shared with another process was closed'):
                                    if cleanup or 'place' in opt: close_all(D, C, t, (0,), base, ('shared', cleanup), 'after a queue shared with another process was closed')
                                    else:
                                        u = D.fork_state(t, 'the copy is closed'); u.k.release(u, oid)
                                        for v in D.settle(u): close_all(D, C, v, (0,), base, ('shared', cleanup), 'closed here and in another process')
        D.stats = C.stats
        return D
    return run
