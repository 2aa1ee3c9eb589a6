"""Path-sensitive abstract interpreter over the IR.

An abstract state is a set of abstract objects (allocation-site named, with
cells at constant or linear offsets), the typestate of every kernel resource
(kernel.py), the threads with their locksets, and a numeric constraint store
(domain.py).  At an undetermined branch the state is split (disjunctive
domain) and both parts are refined; loops whose exit is undetermined are
widened; states that become equal are merged by the fixpoint driver
(explore.py).  There is no solver and nothing of the program is executed.
"""
from .domain import *
from . import domain as D

UNINIT = ('u', 'n')       # read from memory nobody has written

class Fork(Exception):
    """split on a comparison: conds = list of lists of (pred,w,a,b,truth)"""
    def __init__(self, alts): self.alts = alts
class Choice(Exception):
    def __init__(self, n, why=None): self.n = n; self.why = why
class Block(Exception):
    """current thread blocks; its status has been set; instruction is retried"""
class Kill(Exception):
    """abandon the path"""
    def __init__(self, why): self.why = why

class Obj:
    __slots__ = ('kind', 'name', 'size', 'cells', 'sym', 'bg', 'freed', 'site', 'tok', 'pub', 'seq', 'wlog')
    def __init__(self, kind, name, size, bg, site=None):
        self.kind = kind; self.name = name; self.size = size; self.cells = {}; self.sym = False
        self.bg = bg; self.freed = None; self.site = site; self.tok = 0; self.pub = False; self.seq = 0; self.wlog = None
    def copy(self, tok):
        o = Obj.__new__(Obj)
        o.kind = self.kind; o.name = self.name; o.size = self.size; o.cells = dict(self.cells); o.sym = self.sym
        o.bg = self.bg; o.freed = self.freed; o.site = self.site; o.tok = tok; o.pub = self.pub; o.seq = self.seq
        o.wlog = self.wlog
        return o

class Frame:
    __slots__ = ('fn', 'bb', 'ip', 'prev', 'regs', 'allocas', 'visits', 'wid')
    def __init__(self, fn):
        self.fn = fn; self.bb = 0; self.ip = 0; self.prev = -1; self.regs = [None] * fn.nregs; self.allocas = (); self.visits = {}
        self.wid = None
    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.bb = self.bb; f.ip = self.ip; f.prev = self.prev; f.regs = list(self.regs); f.allocas = self.allocas
        f.visits = dict(self.visits) if self.visits else {}; f.wid = self.wid
        return f

class Thread:
    __slots__ = ('tid', 'role', 'frames', 'status', 'held', 'cancel_off', 'cancel_pending', 'cleanup', 'jmp', 'ret', 'sigmask', 'detached',
                 'passed', 'csections', 'blockedmask')
    def __init__(self, tid, role):
        self.tid = tid; self.role = role; self.frames = []; self.status = 'run'; self.held = ()
        self.cancel_off = 0; self.cancel_pending = False; self.cleanup = (); self.jmp = {}; self.ret = None; self.sigmask = ()
        self.detached = False; self.passed = (); self.csections = (); self.blockedmask = False
    def copy(self):
        t = Thread.__new__(Thread)
        for s in ('tid', 'role', 'status', 'held', 'cancel_off', 'cancel_pending', 'cleanup', 'ret', 'sigmask', 'detached', 'passed', 'csections',
                  'blockedmask'):
            setattr(t, s, getattr(self, s))
        t.jmp = dict(self.jmp) if self.jmp else {}
        t.frames = [f.copy() for f in self.frames]
        return t

_tok = [1]
def newtok():
    _tok[0] += 1; return _tok[0]

class State:
    """abstract state"""
    def __init__(self):
        self.objs = {}; self.threads = {}; self.cur = 0; self.env = Env(); self.k = None; self.tok = newtok()
        self.nsym = 0; self.noid = 0; self.faults = 0; self.opt = {}; self.log = None; self.nlog = 0
        self.hist = None; self.pend = (); self.steps = 0; self.ghost = {}; self.nfault = 0; self.notes = (); self.trail = None
    def clone(self):
        s = State.__new__(State)
        s.objs = dict(self.objs); s.threads = {t: th.copy() for t, th in self.threads.items()}; s.cur = self.cur
        s.env = self.env.clone(); s.k = self.k.clone(); self.tok = newtok(); s.tok = newtok()
        s.nsym = self.nsym; s.noid = self.noid; s.faults = self.faults; s.opt = self.opt; s.log = self.log; s.nlog = self.nlog
        s.hist = self.hist; s.pend = self.pend; s.steps = self.steps; s.ghost = dict(self.ghost); s.nfault = self.nfault; s.notes = self.notes; s.trail = self.trail
        return s
    def sym(self, w, name, lo=None, hi=None):
        self.nsym += 1
        a = ('s', self.nsym, w, name)
        if lo is not None or hi is not None:
            self.env.set(a, Dom(smin(w) if lo is None else lo, smax(w) if hi is None else hi))
        return a
    def newobj(self, kind, name, size, bg, site=None):
        self.noid += 1
        o = Obj(kind, name, size, bg, site); o.tok = self.tok; o.seq = self.noid
        oid = self.noid
        self.objs[oid] = o
        return oid
    def wobj(self, oid):
        o = self.objs[oid]
        if o.tok != self.tok:
            o = o.copy(self.tok); self.objs[oid] = o
        return o
    def logev(self, *ev):
        self.log = (self.log, ev); self.nlog += 1
    def events(self):
        out = []; l = self.log
        while l is not None: out.append(l[1]); l = l[0]
        out.reverse(); return out
    def history(self):
        out = []; l = self.hist
        while l is not None: out.append(l[1]); l = l[0]
        out.reverse(); return out
    def thread(self): return self.threads[self.cur]

class Engine:
    def __init__(self, module, externals, opts=None):
        self.fmt = {}; self.M = module; self.ext = externals
        self.viols = {}          # key -> record
        self.cov_blocks = set(); self.cov_funcs = set(); self.ext_calls = {}
        self.paths = 0; self.splits = 0; self.merged = 0; self.instr = 0; self.incomplete = {}
        self.obl = {}            # rule -> number of obligations checked
        self.sites = {}          # rule -> set of sites
        self.access = None       # C02 access recorder (callable) or None
        self.lockedges = {}      # (classA, classB) -> site
        self.hooks = {}          # event hooks by name
        self.maxsteps = 60000; self.maxpaths = 6000
        self.opts = opts or {}
        for F in module.functions.values():
            if F.decl: continue
            for b in F.blocks:
                for I in b:
                    I.a = tuple(self._pre(x) for x in I.a)
                    if I.op == 'phi': I.x = {k: self._pre(v) for k, v in I.x.items()}
        self.H = {op: getattr(self, 'op_' + op) for op in
                  ('br', 'switch', 'load', 'store', 'gep', 'icmp', 'call', 'ret', 'alloca', 'trunc', 'zext', 'sext',
                   'ptrtoint', 'inttoptr', 'bitcast', 'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem',
                   'urem', 'select', 'extractvalue', 'insertvalue', 'cmpxchg', 'atomicrmw', 'unreachable', 'freeze', 'fence')}
    @staticmethod
    def _pre(x):
        if type(x) is tuple and x[0] == 'g': return ('p', ('g', x[1]), x[2])
        return x

    # ---------------------------------------------------------------- reports
    def where(self, st, ins=None):
        th = st.threads.get(st.cur)
        stack = []
        if th:
            for f in th.frames:
                i = f.fn.blocks[f.bb][min(f.ip, len(f.fn.blocks[f.bb]) - 1)]
                stack.append('%s@%s' % (f.fn.name, i.loc()))
        return stack
    def uninit(self, st, I, what=None):
        self.violate(st, 'C10', 'uninitialised', I, what or 'a decision depends on memory which was never written')
    def violate(self, st, prop, rule, ins, msg, key=None):
        loc = ins.loc() if ins is not None else '?'
        fn = ins.fn if ins is not None else '?'
        k = (prop, rule, key or (fn, loc))
        if k in self.viols: return
        path = []
        t = st.trail
        while t is not None:
            F = t[1]
            if F.file and not F.name.endswith('_dump') and not F.name.startswith(('knote_index_', 'fd_st_', 'dbg_', 'udata_type')) : path.append(F)
            t = t[0]
        path.reverse()
        if ins is None and path:
            # a wrong result of a whole call: name the functions it went through, the platform's own first
            own = [F for F in path if '/common/' not in F.file] or path
            fn = own[-1].name; loc = '%s:%s' % (own[-1].file, own[-1].line)
        self.viols[k] = dict(property=prop, rule=rule, where=loc, function=fn, message=msg, stack=self.where(st), path=[F.name for F in path][-40:],
                             history=st.history(), notes=list(st.notes))
    def oblige(self, rule, site=None, n=1):
        self.obl[rule] = self.obl.get(rule, 0) + n
        if site is not None: self.sites.setdefault(rule, set()).add(site)

    # ---------------------------------------------------------------- operands
    def val(self, st, f, x):
        if type(x) is int: return x
        if x[0] == 'r':
            v = f.regs[x[1]]
            if type(v) is tuple and v[0] in ('s', 'e', 'L', 'p'):
                v = st.env.norm(v)
            return v
        return x
    def num(self, st, v, w):
        """make numeric: undefined values become fresh symbols"""
        if type(v) is tuple and v[0] == 'u': return st.sym(w, 'undef')
        return v

    # ---------------------------------------------------------------- memory
    def getobj(self, st, oid, ins=None):
        o = st.objs.get(oid)
        if o is None and type(oid) is tuple:
            if oid[0] == 'g':
                G = self.M.globals.get(oid[1])
                o = Obj('const' if G is not None and G.const else 'global', oid[1], G.size if G is not None else 1 << 40,
                        'zero' if G is not None and not G.decl else 'lazy')
                o.tok = st.tok; o.pub = True
                if G is not None:
                    for off, sz, v in G.init: o.cells[off] = (sz, self._pre(v))
                st.objs[oid] = o
            elif oid[0] == 't':
                G = self.M.globals.get(oid[1])
                o = Obj('tls', oid[1], G.size if G is not None else 4, 'zero'); o.tok = st.tok
                if G is not None:
                    for off, sz, v in G.init: o.cells[off] = (sz, self._pre(v))
                st.objs[oid] = o
        return o

    def deref(self, st, p, sz, ins, write):
        """check an access; returns (obj, off) or raises Kill"""
        if type(p) is not tuple or p[0] != 'p':
            if type(p) is int or p[0] in ('s', 'e', 'L', 'u', 'f'):
                kind = 'null pointer' if p == 0 else 'a value that is not a pointer to a live object (%s)' % (show(p),)
                self.oblige('deref', ins.loc())
                if type(p) is tuple and p[0] in ('s', 'e') and p[0] != 'u':
                    raise Kill('deref of opaque value')
                self.violate(st, 'C10', 'deref', ins, '%s through %s' % ('write' if write else 'read', kind))
                raise Kill('bad deref')
        oid, off = p[1], p[2]
        o = self.getobj(st, oid)
        if o is None:
            self.violate(st, 'C10', 'deref', ins, 'access to a dead stack object')
            raise Kill('dead stack')
        if o.freed is not None:
            self.violate(st, 'C10', 'use-after-free', ins, '%s of %s (allocated at %s) after it was freed at %s' %
                         ('write' if write else 'read', o.name, o.site, o.freed), key=(ins.fn, ins.loc(), o.site))
            raise Kill('uaf')
        size = o.size
        if type(off) is int and type(size) is int:
            if off < 0 or off + sz > size:
                self.oob(st, o, off, sz, ins, write); raise Kill('oob')
        else:
            e = st.env
            off = e.norm(off)
            self.oblige('bounds', ins.loc())
            lo = e.cmp('sge', 64, off, 0)
            hi = e.cmp('sle', 64, lin_add(off, sz) if lin(off) is not None else off, e.norm(size))
            if lo is None or hi is None or lo is False or hi is False:
                bad = None
                for pr, a, b, t in (('slt', off, 0, True), ('sgt', lin_add(off, sz), e.norm(size), True)):
                    e2 = e.clone()
                    try:
                        e2.assume_cmp(pr, 64, a, b, t); bad = True; break
                    except Contradiction: pass
                if bad:
                    self.oob(st, o, off, sz, ins, write)
                    # continue with the in-range part
                    try:
                        e.assume_cmp('sge', 64, off, 0, True); e.assume_cmp('sle', 64, lin_add(off, sz), e.norm(size), True)
                    except Contradiction: raise Kill('oob')
        return o, off
    def oob(self, st, o, off, sz, ins, write):
        prop = 'C04' if o.kind == 'user' else 'C10'
        self.violate(st, prop, 'out-of-bounds', ins, '%s of %d byte(s) at offset %s of %s, whose size is %s' %
                     ('write' if write else 'read', sz, show(off), o.name, show(o.size)), key=(ins.fn, ins.loc(), o.name))

    def load(self, st, p, sz, ins, isptr=False):
        o, off = self.deref(st, p, sz, ins, False)
        if self.access is not None and o.kind in ('heap', 'global'): self.access(self, st, p[1], o, off, sz, 'R', ins)
        return self.read(st, p[1], o, off, sz)
    def read(self, st, oid, o, off, sz):
        cells = o.cells
        if type(off) is int and not o.sym:
            c = cells.get(off)
            if c is not None and c[0] == sz:
                v = c[1]
                return st.env.norm(v) if type(v) is tuple else v
            return self.read_slow(st, oid, o, off, sz)
        # symbolic offsets: find the matching cell or split
        e = st.env
        for co, (cs, cv) in list(cells.items()):
            if cs != sz:
                if type(co) is int and type(off) is int and co + cs > off and off + sz > co:
                    return self.read_slow(st, oid, o, off, sz)
                continue
            r = e.cmp('eq', 64, off, e.norm(co))
            if r is True: return e.norm(cv) if type(cv) is tuple else cv
            if r is None:
                raise Fork([[('eq', 64, off, e.norm(co), True)], [('eq', 64, off, e.norm(co), False)]])
        return self.bgval(st, oid, o, off, sz)
    def bgval(self, st, oid, o, off, sz):
        bg = o.bg
        if bg == 'zero': return 0
        if bg == 'undef': return UNINIT if o.kind in ('stack', 'heap') else ('u',)
        if bg == 'unk': return ('u',)
        if bg == 'lazy':
            v = st.sym(sz * 8, '%s+%s' % (o.name, show(off)))
            w = st.wobj(oid); w.cells[off] = (sz, v)
            if type(off) is not int: w.sym = True
            return v
        if bg[0] == 'fill' and bg[1] == sz: return bg[2]
        if bg[0] == 'byte':
            return tosigned(int.from_bytes(bytes([bg[1]] * sz), 'little'), sz * 8)
        return ('u',)
    def read_slow(self, st, oid, o, off, sz):
        parts = []; pos = off; end = off + sz
        cs = sorted((c, s, v) for c, (s, v) in o.cells.items() if type(c) is int and c < end and c + s > off) if o.cells else []
        if not cs: return self.bgval(st, oid, o, off, sz)
        if len(cs) == 1 and cs[0][0] <= off and cs[0][0] + cs[0][1] >= end:
            c, s, v = cs[0]
            return self.extract(st, st.env.norm(v) if type(v) is tuple else v, s, off - c, sz)
        # assemble
        res = 0; ok = True; parts = []
        pos = off
        for c, s, v in cs:
            v = st.env.norm(v) if type(v) is tuple else v
            if c > pos:
                b = self.bgval(st, oid, o, pos, c - pos)
                parts.append((pos, c - pos, b)); pos = c
            n = min(c + s, end) - pos
            x = v if (c == pos and n == s) else self.extract(st, v, s, pos - c, n)
            parts.append((pos, n, x)); pos += n
        if pos < end:
            b = self.bgval(st, oid, o, pos, end - pos)
            parts.append((pos, end - pos, b))
        for p_, n, x in parts:
            if type(x) is not int: ok = False; break
            res |= (x & umask(8 * n)) << (8 * (p_ - off))
        if ok: return tosigned(res, sz * 8)
        # low part symbolic and upper parts constant zero
        if sz <= 8:
            if all(x == 0 for p_, n, x in parts[1:]) and isnum(parts[0][2]):
                return cast(st.env, 'zext', sz * 8, parts[0][1] * 8, parts[0][2])
            return ('e', 'cat', sz * 8, tuple((n, x) for p_, n, x in parts))
        return ('u',)
    def extract(self, st, v, s, boff, n):
        if boff == 0 and n == s: return v
        if type(v) is int:
            return tosigned((v & umask(8 * s)) >> (8 * boff), 8 * n)
        if v[0] in ('s', 'e', 'L') and s <= 8:
            x = v
            if boff: x = binop(st.env, 'lshr', 8 * s, v, 8 * boff)
            return cast(st.env, 'trunc', 8 * n, 8 * s, x)
        return ('u',)

    def store(self, st, p, sz, v, ins, isptr=False):
        o, off = self.deref(st, p, sz, ins, True)
        if o.kind == 'const':
            self.violate(st, 'C10', 'write-to-constant', ins, 'write to read-only object %s' % o.name)
            raise Kill('const')
        if self.access is not None and o.kind in ('heap', 'global'): self.access(self, st, p[1], o, off, sz, 'W', ins)
        self.write(st, p[1], o, off, sz, v, ins)
    def write(self, st, oid, o, off, sz, v, ins=None):
        if type(off) is int and not o.sym:
            c = o.cells.get(off)
            if c is not None and c[0] == sz:
                w = st.wobj(oid); w.cells[off] = (sz, v)
            else:
                w = st.wobj(oid)
                if w.cells: self.clear_range(st, w, off, sz)
                w.cells[off] = (sz, v)
        else:
            e = st.env; hit = None
            for co, (cs, cv) in list(o.cells.items()):
                if cs != sz: continue
                nco = e.norm(co)
                r = e.cmp('eq', 64, off, nco)
                if r is True: hit = co; break
                if r is None: raise Fork([[('eq', 64, off, nco, True)], [('eq', 64, off, nco, False)]])
            w = st.wobj(oid)
            if hit is None:
                if type(v) is int and type(w.bg) is tuple and w.bg == ('fill', sz, v): return     # the element already has that value
                if type(off) is not int: w.sym = True
                w.cells[off] = (sz, v)
            else: w.cells[hit] = (sz, v)
        if o.kind == 'user' or o.wlog is not None:
            w.wlog = (w.wlog, (off, sz, ins.loc() if ins is not None else '?'))
        if type(v) is tuple and v[0] == 'p' and o.pub and self.access is not None: self.publish(st, v[1])
    def publish(self, st, oid):
        o = st.objs.get(oid)
        if o is None or o.pub: return
        o = st.wobj(oid); o.pub = True
        for c, (s, v) in list(o.cells.items()):
            if type(v) is tuple and v[0] == 'p': self.publish(st, v[1])
    def clear_range(self, st, w, off, sz):
        """remove/split the cells of w overlapping [off,off+sz)"""
        end = off + sz; cells = w.cells
        if sz <= 16 and len(cells) > 40:
            cand = [c for c in range(off - 16, end) if c in cells]
            cand += [c for c, (s, v) in cells.items() if s > 16 and type(c) is int and c < end and c + s > off]
        else: cand = list(cells)
        for c in cand:
            if type(c) is not int or c not in cells: continue
            s, v = cells[c]
            if c >= end or c + s <= off: continue
            del cells[c]
            if c < off: cells[c] = (off - c, self.extract(st, v, s, 0, off - c))
            if c + s > end: cells[end] = (c + s - end, self.extract(st, v, s, end - c, c + s - end))
    def memset(self, st, p, byte, n, ins):
        if n == 0: return
        if type(n) is not int:
            o, off = self.deref(st, p, 1, ins, True); w = st.wobj(p[1]); w.cells = {}; w.bg = ('byte', byte) if type(byte) is int else 'unk'; return
        o, off = self.deref(st, p, n, ins, True)
        if self.access is not None and o.kind in ('heap', 'global'): self.access(self, st, p[1], o, off, n, 'W', ins)
        w = st.wobj(p[1])
        if type(off) is not int: w.cells[off] = (n, ('u',)); w.sym = True; return
        if o.kind == 'user' or o.wlog is not None: w.wlog = (w.wlog, (off, n, ins.loc()))
        if off == 0 and n == o.size:
            w.cells = {}; w.sym = False
            w.bg = 'zero' if byte == 0 else (('byte', byte) if type(byte) is int else 'unk')
            return
        self.clear_range(st, w, off, n)
        if byte == 0 and w.bg == 'zero': return
        pos = off
        while pos < off + n:
            k = min(8, off + n - pos)
            if pos & 7 == 0 and k == 8: pass
            elif pos & 3 == 0 and k >= 4: k = 4
            else: k = 1
            w.cells[pos] = (k, tosigned(int.from_bytes(bytes([byte & 255] * k), 'little'), 8 * k) if type(byte) is int else ('u',)); pos += k
    def memcpy(self, st, d, s, n, ins):
        if n == 0: return
        if type(n) is not int: raise Kill('memcpy of unknown size')
        so, soff = self.deref(st, s, n, ins, False)
        do, doff = self.deref(st, d, n, ins, True)
        if self.access is not None:
            if so.kind in ('heap', 'global'): self.access(self, st, s[1], so, soff, n, 'R', ins)
            if do.kind in ('heap', 'global'): self.access(self, st, d[1], do, doff, n, 'W', ins)
        if type(soff) is not int or type(doff) is not int:
            # element of an array at a symbolic position
            cells = []
            pos = 0
            for k in (8,) * (n // 8) + (4,) * ((n % 8) // 4) + (1,) * (n % 4):
                cells.append((pos, k, self.read(st, s[1], so, lin_add(soff, pos), k))); pos += k
            for off, k, v in cells:
                self.write(st, d[1], st.objs[d[1]], lin_add(doff, off), k, v, ins)
            return
        cells = []
        if so.bg == 'lazy':
            pos = 0
            for k in (8,) * (n // 8) + (4,) * ((n % 8) // 4) + (1,) * (n % 4):
                if not any(type(c) is int and c < soff + pos + k and c + z > soff + pos for c, (z, v) in so.cells.items()):
                    self.read(st, s[1], so, soff + pos, k); so = st.objs[s[1]]
                pos += k
        for c, (z, v) in so.cells.items():
            if type(c) is not int or c >= soff + n or c + z <= soff: continue
            a = max(c, soff); b = min(c + z, soff + n)
            cells.append((a - soff, b - a, v if (a == c and b == c + z) else self.extract(st, v, z, a - c, b - a)))
        w = st.wobj(d[1])
        self.clear_range(st, w, doff, n)
        if doff == 0 and n == w.size: w.bg = so.bg if so.bg != 'lazy' else 'unk'
        elif w.bg != so.bg:
            fillv = 0 if so.bg == 'zero' else UNINIT if so.bg == 'undef' and so.kind in ('stack', 'heap') else ('u',)
            # explicit background cells between the copied ones
            cov = sorted((a, a + z) for a, z, v in cells); pos = 0
            gaps = []
            for a, b in cov + [(n, n)]:
                if a > pos: gaps.append((pos, a))
                pos = max(pos, b)
            for a, b in gaps:
                while a < b:
                    k = 8 if (a % 8 == 0 and b - a >= 8) else 4 if (a % 4 == 0 and b - a >= 4) else 1
                    w.cells[doff + a] = (k, fillv); a += k
        for a, z, v in cells:
            w.cells[doff + a] = (z, v)
            if type(v) is tuple and v[0] == 'p' and do.pub and self.access is not None: self.publish(st, v[1])
        if do.kind == 'user' or do.wlog is not None: w.wlog = (w.wlog, (doff, n, ins.loc()))

    # ---------------------------------------------------------------- instructions
    def op_br(self, st, th, f, I):
        if len(I.x) == 1: self.goto(st, f, I.x[0]); return
        c = self.val(st, f, I.a[0])
        if type(c) is int: self.goto(st, f, I.x[0] if c else I.x[1]); return
        if c[0] == 'e' and c[1] == 'icmp':
            r = st.env.cmp(c[3], c[4], st.env.norm(c[5]), st.env.norm(c[6]))
            if r is not None: self.goto(st, f, I.x[0] if r else I.x[1]); return
            raise Fork([[(c[3], c[4], c[5], c[6], True)], [(c[3], c[4], c[5], c[6], False)]])
        if c[0] in ('s', 'e', 'L'):
            raise Fork([[('ne', 1, c, 0, True)], [('ne', 1, c, 0, False)]])
        if c[0] == 'u':
            if c == UNINIT: self.uninit(st, I)
            i = self.choose(st, 2, 'undef branch'); st.pend = ()
            self.goto(st, f, I.x[i]); return
        self.goto(st, f, I.x[0])
    def op_switch(self, st, th, f, I):
        v = self.val(st, f, I.a[0])
        if type(v) is int:
            for c, b in I.x[1]:
                if c == v: self.goto(st, f, b); return
            self.goto(st, f, I.x[0]); return
        if v[0] == 'u':
            if v == UNINIT: self.uninit(st, I)
            i = self.choose(st, len(I.x[1]) + 1, 'undef switch'); st.pend = ()
            self.goto(st, f, I.x[0] if i == 0 else I.x[1][i - 1][1]); return
        e = st.env; und = []
        for c, b in I.x[1]:
            r = e.cmp('eq', I.w, v, c)
            if r is True: self.goto(st, f, b); return
            if r is None: und.append(c)
        if not und: self.goto(st, f, I.x[0]); return
        raise Fork([[('eq', I.w, v, c, True)] for c in und] + [[('eq', I.w, v, c, False) for c in und]])
    def goto(self, st, f, b):
        blk = f.fn.blocks[b]; old = f.bb
        self.cov_blocks.add((f.fn.name, b))
        if b in f.fn.loopheads:
            if not self.loop(st, f, b, old): return
        vals = None
        i = 0
        while blk[i].op == 'phi':
            if vals is None: vals = []
            x = blk[i].x.get(old)
            vals.append((blk[i].dst, self.val(st, f, x) if x is not None else ('u',)))
            i += 1
        if vals:
            for d, v in vals: f.regs[d] = v
        f.prev = old; f.bb = b; f.ip = i
    LOOPMAX = 70
    def loop(self, st, f, b, old):
        n = f.visits.get(b, 0) + 1
        f.visits[b] = n
        if f.wid is not None and f.wid[0] == b:
            if n > f.wid[1] + 1:
                # one generic iteration done: everything further is covered by the widened header state
                raise Kill('widened')
        if n > self.LOOPMAX: raise Kill('loop bound')
        return True

    def op_load(self, st, th, f, I):
        p = self.val(st, f, I.a[0])
        f.regs[I.dst] = self.load(st, p, I.x[0], I, I.x[1]); f.ip += 1
    def op_store(self, st, th, f, I):
        v = self.val(st, f, I.a[0]); p = self.val(st, f, I.a[1])
        self.store(st, p, I.x[0], v, I, I.x[1]); f.ip += 1
    def op_gep(self, st, th, f, I):
        p = self.val(st, f, I.a[0]); off = I.x[0]
        for x, sc, w in I.x[1]:
            v = self.num(st, self.val(st, f, x), 64)
            t = lin_scale(v, sc) if isnum(v) else None
            if t is None:
                t = st.sym(64, 'idx')
            off = lin_add(off, t)
        if type(p) is tuple and p[0] == 'p':
            o2 = lin_add(p[2], off)
            f.regs[I.dst] = ('p', p[1], o2)
        elif type(p) is int:
            r = lin_add(p, off)
            f.regs[I.dst] = r
        else:
            f.regs[I.dst] = ('e', 'gep', 64, p, off) if p[0] != 'u' else p
        f.ip += 1
    def op_alloca(self, st, th, f, I):
        oid = st.newobj('stack', '%s:local' % f.fn.name, I.x, 'undef', I.loc())
        f.allocas = f.allocas + (oid,)
        f.regs[I.dst] = ('p', oid, 0); f.ip += 1
    def cmpv(self, st, pred, w, a, b):
        ta = a[0] if type(a) is tuple else 'i'; tb = b[0] if type(b) is tuple else 'i'
        if ta == 'u' or tb == 'u':
            return st.sym(1, 'undefcmp')
        if ta in ('p', 'f') or tb in ('p', 'f'):
            if ta == 'p' and tb == 'p' and a[1] == b[1]:
                p2 = 's' + pred[1:] if pred[0] == 'u' else pred
                return icmp(st.env, p2, 64, a[2], b[2])
            if ta == 'f' and tb == 'f' and a[1] == b[1]: return -1 if pred in ('eq', 'ule', 'uge', 'sle', 'sge') else 0
            if pred == 'eq': return 0
            if pred == 'ne': return -1
            if tb == 'i': return -1 if pred in ('ugt', 'uge', 'sgt', 'sge') else 0
            if ta == 'i': return -1 if pred in ('ult', 'ule', 'slt', 'sle') else 0
            return st.sym(1, 'ptrorder')
        if ta not in ('i', 's', 'e', 'L') or tb not in ('i', 's', 'e', 'L'): return st.sym(1, 'cmp')
        return icmp(st.env, pred, w, a, b)
    def op_icmp(self, st, th, f, I):
        a = self.val(st, f, I.a[0]); b = self.val(st, f, I.a[1])
        if a == UNINIT or b == UNINIT: self.uninit(st, I)
        f.regs[I.dst] = self.cmpv(st, I.x, I.w, a, b); f.ip += 1
    def op_cast(self, st, th, f, I):
        a = self.val(st, f, I.a[0])
        if I.op in ('ptrtoint', 'inttoptr', 'bitcast'): r = a
        elif a == UNINIT: r = a
        elif type(a) is tuple and a[0] == 'u': r = st.sym(I.x, 'undef') if I.op != 'trunc' else a; r = cast(st.env, I.op, I.w, I.x, r)
        elif I.op in ('zext', 'sext') and type(a) is tuple and a[0] == 'e' and a[1] == 'icmp':
            r = st.env.cmp(a[3], a[4], st.env.norm(a[5]), st.env.norm(a[6]))
            if r is None: raise Fork([[(a[3], a[4], a[5], a[6], True)], [(a[3], a[4], a[5], a[6], False)]])
            r = cast(st.env, I.op, I.w, I.x, -1 if r else 0)
        else: r = cast(st.env, I.op, I.w, I.x, a)
        f.regs[I.dst] = r; f.ip += 1
    op_trunc = op_zext = op_sext = op_ptrtoint = op_inttoptr = op_bitcast = op_cast
    def op_bin(self, st, th, f, I):
        a = self.val(st, f, I.a[0]); b = self.val(st, f, I.a[1])
        f.regs[I.dst] = self.arith(st, I, a, b); f.ip += 1
    def arith(self, st, I, a, b):
        ta = a[0] if type(a) is tuple else 'i'; tb = b[0] if type(b) is tuple else 'i'
        if a == UNINIT or b == UNINIT: return UNINIT
        if ta == 'u': a = st.sym(I.w, 'undef'); ta = 's'
        if tb == 'u': b = st.sym(I.w, 'undef'); tb = 's'
        if ta == 'p' or tb == 'p':
            if I.op == 'sub' and ta == tb == 'p' and a[1] == b[1]:
                r = lin_add(a[2], b[2], -1)
                return r
            if I.op == 'add' and ta == 'p' and tb != 'p': return ('p', a[1], lin_add(a[2], b))
            if I.op == 'add' and tb == 'p' and ta != 'p': return ('p', b[1], lin_add(b[2], a))
            if I.op == 'sub' and ta == 'p' and tb != 'p': return ('p', a[1], lin_add(a[2], b, -1))
            return st.sym(I.w, 'ptrarith')
        if ta == 'f' or tb == 'f' or ta == 'A' or tb == 'A' or ta == 'S' or tb == 'S': return st.sym(I.w, 'arith')
        nsw, nuw = I.x if I.x and I.op in ('add', 'sub', 'mul', 'shl') else (False, False)
        if nsw and not (type(a) is int and type(b) is int):
            # signed overflow is undefined behaviour; for properties about wrap-around keep the exact form but record it
            h = self.hooks.get('nsw')
            if h: h(self, st, I, a, b)
        return binop(st.env, I.op, I.w, a, b, nsw, nuw)
    op_add = op_sub = op_mul = op_and = op_or = op_xor = op_shl = op_lshr = op_ashr = op_sdiv = op_udiv = op_srem = op_urem = op_bin
    def op_select(self, st, th, f, I):
        c = self.val(st, f, I.a[0])
        if type(c) is not int:
            if c[0] == 'e' and c[1] == 'icmp':
                r = st.env.cmp(c[3], c[4], st.env.norm(c[5]), st.env.norm(c[6]))
                if r is None: raise Fork([[(c[3], c[4], c[5], c[6], True)], [(c[3], c[4], c[5], c[6], False)]])
                c = -1 if r else 0
            elif c[0] == 'u':
                if c == UNINIT: self.uninit(st, I)
                c = self.choose(st, 2, 'undef'); st.pend = ()
            else: raise Fork([[('ne', 1, c, 0, True)], [('ne', 1, c, 0, False)]])
        f.regs[I.dst] = self.val(st, f, I.a[1] if c else I.a[2]); f.ip += 1
    def op_extractvalue(self, st, th, f, I):
        a = self.val(st, f, I.a[0])
        f.regs[I.dst] = a[1][I.x[0]] if type(a) is tuple and a[0] == 'A' else ('u',); f.ip += 1
    def op_insertvalue(self, st, th, f, I):
        f.regs[I.dst] = ('u',); f.ip += 1
    def op_freeze(self, st, th, f, I):
        f.regs[I.dst] = self.val(st, f, I.a[0]); f.ip += 1
    def op_fence(self, st, th, f, I): f.ip += 1
    def op_cmpxchg(self, st, th, f, I):
        p = self.val(st, f, I.a[0]); exp = self.val(st, f, I.a[1]); new = self.val(st, f, I.a[2]); sz = I.x
        acc = self.access; self.access = None
        try:
            old = self.load(st, p, sz, I)
            r = self.cmpv(st, 'eq', sz * 8, old, exp)
            if type(r) is not int:
                if r[0] == 'e' and r[1] == 'icmp': raise Fork([[(r[3], r[4], r[5], r[6], True)], [(r[3], r[4], r[5], r[6], False)]])
                r = -1 if self.choose(st, 2, 'cas') else 0; st.pend = ()
            if r: self.store(st, p, sz, new, I)
        finally: self.access = acc
        if r: self.slot(st, p, sz, old, new, I)
        if r and acc is not None and type(new) is tuple and new[0] == 'p': self.publish(st, new[1])
        f.regs[I.dst] = ('A', (old, r)); f.ip += 1
    def op_atomicrmw(self, st, th, f, I):
        p = self.val(st, f, I.a[0]); v = self.val(st, f, I.a[1]); op, sz = I.x
        acc = self.access; self.access = None
        try:
            old = self.load(st, p, sz, I)
            if op == 'xchg': new = v
            elif op in ('add', 'sub', 'and', 'or', 'xor') and isnum(old) and isnum(v): new = binop(st.env, op, sz * 8, old, v)
            else: new = st.sym(sz * 8, 'rmw')
            self.store(st, p, sz, new, I)
        finally: self.access = acc
        self.slot(st, p, sz, old, new, I)
        f.regs[I.dst] = old; f.ip += 1
    def slot(self, st, p, sz, old, new, I):
        """atomics protect a counter, but not the object a published pointer refers to"""
        if self.access is not None and any(type(v) is tuple and v[0] == 'p' for v in (old, new)) and type(p) is tuple and p[0] == 'p':
            o = st.objs.get(p[1])
            if o is not None and o.kind in ('heap', 'global'): self.access(self, st, p[1], o, p[2], sz, 'W', I)
    def op_unreachable(self, st, th, f, I):
        raise Kill('unreachable')
    def op_ret(self, st, th, f, I):
        v = self.val(st, f, I.a[0]) if I.a else None
        for oid in f.allocas: st.objs.pop(oid, None)
        th.frames.pop()
        if not th.frames:
            self.thread_exit(st, th, v); return
        g = th.frames[-1]; J = g.fn.blocks[g.bb][g.ip]
        if J.dst is not None: g.regs[J.dst] = v if v is not None else ('u',)
        g.ip += 1
    def thread_exit(self, st, th, v):
        th.ret = v; th.status = 'done'
        if th.jmp: th.jmp = {}
        self.ext.thread_exited(self, st, th, v)

    def op_call(self, st, th, f, I):
        x = I.x
        if x[0] == 'asm': 
            if I.dst is not None: f.regs[I.dst] = st.sym(I.w or 64, 'asm')
            f.ip += 1; return
        callee = x[0]
        if callee[0] == 'r':
            callee = self.val(st, f, callee)
        if type(callee) is not tuple or callee[0] != 'f':
            if type(callee) is tuple and callee[0] == 'p':
                o = self.getobj(st, callee[1])
            self.violate(st, 'C10', 'call-target', I, 'call through %s' % ('a null function pointer' if callee == 0 else show(callee)))
            raise Kill('bad call')
        name = callee[1]
        F = self.M.functions.get(name)
        args = [self.val(st, f, a) for a in I.a]
        if F is None or F.decl:
            self.ext_calls[name] = self.ext_calls.get(name, 0) + 1
            if UNINIT in args and not name.startswith('llvm.') and 'print' not in name:
                self.uninit(st, I, 'argument %d of %s() has never been assigned' % (args.index(UNINIT) + 1, name))
            r = self.ext.call(self, st, th, f, I, name, args)
            # models for control transfers do their own pc handling
            if r is NORET: return
            if I.dst is not None: f.regs[I.dst] = r if r is not None else ('u',)
            f.ip += 1
            return
        if self.formatter(F):
            for v in args:          # its arguments must be alive; what it prints is not followed
                if type(v) is tuple and v[0] == 'p': self.access_check(st, v, I)
            g = self.formatter(F)
            if I.dst is not None: f.regs[I.dst] = ('p', ('g', g), 0) if type(g) is str else st.sym(I.w or 64, 'text')
            f.ip += 1
            return
        self.push(st, th, F, args)
    PUREEXT = ('snprintf', 'vsnprintf', 'strncat', 'strcat', 'strlen', 'strnlen', 'strerror', 'llvm.', '__assert_fail', 'abort', '__ctype', 'memset', 'memcpy', 'strlcat', 'strcpy', 'strncpy')
    def formatter(self, F):
        """a function that only reads its arguments and writes text into static buffers of its own: True, or its buffer's name"""
        r = self.fmt.get(F.name)
        if r is None:
            ok, own, bufs = self.purity(F, ())
            r = self.fmt[F.name] = (sorted(own)[0] if own else True) if ok and bufs else False
        return r
    def purity(self, F, busy):
        """(writes only its own locals and static buffers, its buffers, all buffers)"""
        defs = {}; bufs = set(); sub = set()
        for b in F.blocks:
            for i in b:
                if i.dst is not None: defs[i.dst] = i
        def base(o, d=0):
            if d > 40: return False
            if type(o) is not tuple: return o == 0
            if o[0] == 'p' and type(o[1]) is tuple and o[1][0] == 'g':
                G = self.M.globals.get(o[1][1])
                if G is None or G.const: return False
                bufs.add(o[1][1]); return True
            if o[0] == 'r':
                i = defs.get(o[1])
                if i is None: return False
                if i.op == 'alloca': return True
                if i.op in ('gep', 'bitcast', 'freeze'): return base(i.a[0], d + 1)
                if i.op == 'phi': return all(base(v, d + 1) for v in i.x.values())
                if i.op == 'select': return base(i.a[1], d + 1) and base(i.a[2], d + 1)
                if i.op == 'call' and type(i.x[0]) is tuple and i.x[0][0] == 'f' and i.x[0][1].startswith('llvm.threadlocal'): return base(i.a[0], d + 1)
            return False
        NO = (False, set(), set())
        def local(o):
            n = len(bufs); r = base(o); return r and len(bufs) == n and not (type(o) is tuple and o[0] == 'p')
        for b in F.blocks:
            for i in b:
                if i.op == 'store':
                    if not base(i.a[1]) or i.x[0] != 1 and not local(i.a[1]): return NO
                elif i.op in ('atomicrmw', 'cmpxchg', 'fence'): return NO
                elif i.op == 'call':
                    c = i.x[0]
                    if type(c) is not tuple or c[0] != 'f': return NO
                    n = c[1]
                    if n.startswith(('llvm.threadlocal', 'llvm.dbg', 'llvm.lifetime')): continue
                    G = self.M.functions.get(n)
                    if G is not None and not G.decl:
                        if n in busy: continue
                        ok, own, al = self.purity(G, busy + (F.name,))
                        if not ok: return NO
                        sub |= al
                    elif not any(n.startswith(x) for x in self.PUREEXT): return NO
                    elif i.a and not n.startswith(('strlen', 'strnlen', 'strerror', '__assert', 'abort', '__ctype')) and not base(i.a[0]): return NO
        for H in self.M.functions.values() if bufs else ():       # the buffers belong to this function alone
            if H is F or H.decl: continue
            for b in H.blocks:
                for i in b:
                    if any(type(x) is tuple and x[0] == 'p' and type(x[1]) is tuple and x[1][1] in bufs for x in i.a or ()): return NO
        if bufs and not any(i.op == 'call' and type(i.x[0]) is tuple and i.x[0][1] in ('snprintf', 'vsnprintf', 'strncat', 'strcat', 'strcpy') for b in F.blocks for i in b): return NO
        return True, bufs, bufs | sub
    def access_check(self, st, v, I):
        o = self.getobj(st, v[1])
        if o.freed is not None:
            self.violate(st, 'C10', 'use-after-free', I, 'a freed object is passed to be printed'); raise Kill('uaf')
    def push(self, st, th, F, args):
        if len(th.frames) > 60: raise Kill('recursion')
        g = Frame(F)
        for (r, w, isp), v in zip(F.params, args): g.regs[r] = v
        th.frames.append(g)
        self.cov_funcs.add(F.name); self.cov_blocks.add((F.name, 0)); st.trail = (st.trail, F)
    # nondeterministic choice inside a model: replayed on re-execution
    def choose(self, st, n, why=None):
        i = st.ghost.get('_pi', 0)
        if i < len(st.pend):
            st.ghost['_pi'] = i + 1
            return st.pend[i]
        raise Choice(n, why)

    # ---------------------------------------------------------------- scheduler
    def runnable(self, st, th):
        s = th.status
        if s == 'run': return True
        if s == 'done' or s == 'idle': return False
        if s[0] == 'lock': return st.k.mutex_free(s[1], th.tid)
        if s[0] == 'condlock': return st.k.mutex_free(s[1], th.tid)
        if s[0] == 'join':
            t = st.threads.get(s[1]); return t is None or t.status == 'done'
        return False     # cond, sigwait
    def run(self, st0, main):
        """run until the main activity is over and every other thread is blocked; returns list of final states"""
        work = [st0]; done = []
        npaths = 0
        while work:
            st = work.pop()
            npaths += 1
            if npaths > self.maxpaths:
                self.incomplete['path budget'] = self.incomplete.get('path budget', 0) + 1
                break
            try:
                r = self.run1(st, main, work)
            except Kill as k:
                if k.why not in ('widened', 'unreachable', 'infeasible', 'aborted'):
                    self.incomplete[k.why] = self.incomplete.get(k.why, 0) + (0 if k.why in EXPECTED else 1)
                self.paths += 1
                continue
            except Contradiction:
                continue
            if r is not None:
                self.paths += 1; done.append(r)
        return done
    def pick(self, st, main):
        th = st.threads.get(st.cur)
        if th is not None and self.runnable(st, th): return th
        order = sorted(st.threads)
        for t in order:
            if self.runnable(st, st.threads[t]): return st.threads[t]
        return None
    def run1(self, st, main, work):
        H = self.H
        while True:
            th = self.pick(st, main)
            if th is None:
                mt = st.threads.get(main)
                if mt is None or mt.status in ('done', 'idle'): return st
                if type(mt.status) is tuple and mt.status[0] == 'sigwait': return st
                self.ext.deadlock(self, st, main)
                raise Kill('deadlock')
            st.cur = th.tid
            if th.status != 'run': self.ext.wake(self, st, th)
            while th.status == 'run' and st.cur == th.tid:
                f = th.frames[-1]
                I = f.fn.blocks[f.bb][f.ip]
                st.steps += 1; self.instr += 1
                if st.steps > self.maxsteps: raise Kill('step budget')
                op = I.op
                if op == 'call' and self.is_ext(st, f, I):
                    snap = st.clone(); snap.pend = st.pend
                    st.ghost['_pi'] = 0
                    try:
                        self.op_call(st, th, f, I)
                        st.pend = ()
                    except Choice as c:
                        self.splits += 1
                        for i in range(c.n - 1, -1, -1):
                            s2 = snap.clone() if i else snap
                            s2.pend = snap.pend + (i,)
                            work.append(s2)
                        return None
                    except Fork as fk:
                        self.split(snap, fk, work); return None
                    except Block:
                        st.pend = ()
                        break
                    continue
                try:
                    h = H.get(op)
                    if h is None: raise Kill('unsupported instruction ' + op)
                    h(st, th, f, I)
                except Fork as fk:
                    st.pend = ()
                    if f.bb in f.fn.loopheads and op == 'br': 
                        if self.maybe_widen(st, th, f, I, fk, work): return None
                    self.split(st, fk, work); return None
                except Choice as c:
                    self.splits += 1
                    for i in range(c.n - 1, -1, -1):
                        s2 = st.clone() if i else st
                        s2.pend = (i,); s2.ghost['_pi'] = 0
                        work.append(s2)
                    return None
    def is_ext(self, st, f, I):
        c = I.x[0]
        if type(c) is not tuple: return False
        if c[0] == 'r':
            c = f.regs[c[1]]
        if type(c) is tuple and c[0] == 'f':
            F = self.M.functions.get(c[1])
            return F is None or F.decl
        return False
    def split(self, st, fk, work):
        self.splits += 1
        alts = fk.alts
        for i, alt in enumerate(reversed(alts)):
            s2 = st.clone() if i < len(alts) - 1 else st
            try:
                for pr, w, a, b, t in alt: s2.env.assume_cmp(pr, w, a, b, t)
            except Contradiction: continue
            work.append(s2)
    # -- widening of loops with undetermined exit ---------------------------------
    def maybe_widen(self, st, th, f, I, fk, work):
        b = f.bb
        n = f.visits.get(b, 0)
        if f.wid is not None and f.wid[0] == b: return False
        if n < 4: return False
        blk = f.fn.blocks[b]
        phis = [p for p in blk if p.op == 'phi']
        if not phis: return False
        # generic iteration: header phis that changed become fresh symbols
        s2 = st.clone(); t2 = s2.threads[th.tid]; g = t2.frames[-1]
        marks = []
        for p in phis:
            cur = st.env.norm(f.regs[p.dst]) if type(f.regs[p.dst]) is tuple else f.regs[p.dst]
            if type(cur) is int and cur >= 0:
                v = s2.sym(p.w, 'it', cur, smax(p.w) - 1); g.regs[p.dst] = v; marks.append(v)
            elif type(cur) is tuple and cur[0] == 'p' and type(cur[2]) is int:
                it = s2.sym(64, 'it', 0, 1 << 40); g.regs[p.dst] = ('p', cur[1], lin_add(cur[2], it)); marks.append(it)
        if not marks: return False
        g.wid = (b, n)
        g.ip = len(phis)
        # summarise the stores of the loop body seen so far: same value at every visited element -> background fill
        for oid, o in list(s2.objs.items()):
            if o.kind != 'heap' or o.sym or not o.cells or o.tok is None: continue
            cs = sorted(o.cells.items(), key=lambda c: c[0])
            szs = {c[1][0] for c in cs}; vs = {repr(c[1][1]) for c in cs}
            if len(szs) == 1 and len(vs) == 1 and type(o.size) is not int and len(cs) >= 3 and [c[0] for c in cs] == [i * cs[0][1][0] for i in range(len(cs))]:
                w = s2.wobj(oid); w.bg = ('fill', cs[0][1][0], cs[0][1][1]); w.cells = {}
        self.widened = getattr(self, 'widened', 0) + 1
        work.append(s2)
        return True

EXPECTED = ('aborted', 'infeasible')
NORET = object()

def show(v):
    if type(v) is int: return str(v)
    if v is None: return '?'
    t = v[0]
    if t == 's': return '%s#%d' % (v[3], v[1])
    if t == 'e': return '%s(%s)' % (v[1], ','.join(show(x) if type(x) in (int, tuple) and x and (type(x) is int or type(x[0]) is str) else str(x) for x in v[3:]))
    if t == 'L': return '%s%s' % (''.join('%+d*%s' % (k, show(a)) for a, k in v[2]), '%+d' % v[1] if v[1] else '')
    if t == 'p': return '&%s+%s' % (v[1], show(v[2]))
    if t == 'f': return v[1]
    if t == 'u': return 'undefined'
    return str(v)
