"""Abstract values and the non-relational / weakly relational numeric domain.

Values
  int                          constant (signed representation of its width)
  ('s', id, w, name)           atom: unknown of width w
  ('e', op, w, ...)            atom: opaque operation on other values
  ('L', c, ((atom,k),...))     linear form  c + sum k*atom   (mathematical, signed)
  ('p', oid, off)              pointer into abstract object oid (off: int or value)
  ('f', name)                  address of a function
  ('u',)                       undefined
  ('A', (v0, v1, ...))         first-class aggregate

Every atom has a Dom: signed interval, known bits, a set of excluded values.
"""

class Dom:
    __slots__ = ('lo', 'hi', 'kz', 'ko', 'ne')
    def __init__(self, lo, hi, kz=0, ko=0, ne=frozenset()):
        self.lo = lo; self.hi = hi; self.kz = kz; self.ko = ko; self.ne = ne
    def key(self): return (self.lo, self.hi, self.kz, self.ko, tuple(sorted(self.ne)))
    def __repr__(self): return '[%d,%d z%x o%x !%s]' % (self.lo, self.hi, self.kz, self.ko, sorted(self.ne))

def smin(w): return -(1 << (w - 1))
def smax(w): return (1 << (w - 1)) - 1
def umask(w): return (1 << w) - 1
def tosigned(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v

TOP = {w: Dom(smin(w), smax(w)) for w in (1, 8, 16, 32, 64, 128, 512)}
def top(w):
    d = TOP.get(w)
    if d is None: d = TOP[w] = Dom(smin(w), smax(w))
    return d

def isatom(v): return type(v) is tuple and (v[0] == 's' or v[0] == 'e')
def isptr(v): return type(v) is tuple and v[0] == 'p'
def isnum(v): return type(v) is int or v[0] in ('s', 'e', 'L')
def width_of(a): return a[2]

def mklin(c, terms):
    """terms: dict atom->k"""
    t = tuple(sorted(((a, k) for a, k in terms.items() if k), key=_akey))
    if not t: return c
    if c == 0 and len(t) == 1 and t[0][1] == 1: return t[0][0]
    return ('L', c, t)

def _akey(x): return repr(x[0])

def lin(v):
    """-> (c, dict) or None"""
    if type(v) is int: return v, {}
    if v[0] == 'L': return v[1], dict(v[2])
    if v[0] == 's' or v[0] == 'e': return 0, {v: 1}
    return None

def lin_add(a, b, kb=1):
    la = lin(a); lb = lin(b)
    if la is None or lb is None: return None
    c = la[0] + kb * lb[0]; t = la[1]
    for x, k in lb[1].items():
        t[x] = t.get(x, 0) + kb * k
    return mklin(c, t)

def lin_scale(a, k):
    if k == 0: return 0
    la = lin(a)
    if la is None: return None
    return mklin(la[0] * k, {x: y * k for x, y in la[1].items()})

class Contradiction(Exception):
    pass

class Env:
    """Constraint store of one abstract state."""
    __slots__ = ('dom', 'facts', 'ne', 'alias', '_shared')
    def __init__(self):
        self.dom = {}      # atom -> Dom
        self.facts = {}    # ((atom,k),...) gcd-normalised, first coef>0 -> (lo, hi) bounds of the sum
        self.ne = frozenset()     # set of linear-sum keys (terms, value) known != value
        self.alias = {}    # 's' atom -> representative value
        self._shared = False
    def clone(self):
        e = Env(); e.dom = self.dom; e.facts = self.facts; e.ne = self.ne; e.alias = self.alias
        e._shared = True; self._shared = True
        return e
    def _own(self):
        if self._shared:
            self.dom = dict(self.dom); self.facts = dict(self.facts); self.alias = dict(self.alias); self._shared = False

    # -- queries ---------------------------------------------------------
    def get(self, a):
        d = self.dom.get(a)
        if d is not None: return d
        if a[0] == 'e':
            d = self._derive(a)
            return d
        return top(a[2])

    def _derive(self, a):
        op, w = a[1], a[2]
        if op == 'zext':
            x, w0 = a[3], a[4]
            kz, ko = self.bits(x, w0)
            kz |= umask(w) & ~umask(w0)
            lo = ko; hi = umask(w) & ~kz
            return Dom(lo, hi if hi <= smax(w) else smax(w), kz, ko) if lo >= 0 else top(w)
        if op == 'trunc':
            x = a[3]
            kz, ko = self.bits(x, max(w, 64))
            kz &= umask(w); ko &= umask(w)
            return self._bits_dom(kz, ko, w)
        if op in ('and', 'or', 'xor', 'shl', 'lshr'):
            kz, ko = self._bitop(op, a[3], a[4], w)
            return self._bits_dom(kz, ko, w)
        if op == 'icmp':
            return top(1)
        if op == 'sdiv' and type(a[4]) is int and a[4] > 0:
            lo, hi = self.range(a[3])
            q = lambda x: -((-x) // a[4]) if x < 0 else x // a[4]
            return Dom(q(lo), q(hi))
        if op in ('urem', 'srem') and type(a[4]) is int and a[4] > 0:
            lo, hi = self.range(a[3])
            return Dom(0 if lo >= 0 else -(a[4] - 1), a[4] - 1)
        return top(w)

    def _bits_dom(self, kz, ko, w):
        m = umask(w)
        sign = 1 << (w - 1)
        lo_u, hi_u = ko, m & ~kz
        if kz & sign: return Dom(lo_u, hi_u, kz, ko)
        if ko & sign: return Dom(lo_u - (1 << w), hi_u - (1 << w), kz, ko)
        return Dom((ko | sign) - (1 << w), hi_u & ~sign, kz, ko)

    def bits(self, v, w):
        """known-zero / known-one masks of the low w bits"""
        m = umask(w)
        if type(v) is int:
            u = v & m
            return m & ~u, u
        if v[0] in ('s', 'e'):
            d = self.get(v); aw = v[2]
            kz, ko = d.kz, d.ko
            if d.lo == d.hi:
                u = d.lo & umask(aw); kz, ko = umask(aw) & ~u, u
            elif d.lo >= 0:
                nb = d.hi.bit_length()
                kz |= umask(aw) & ~umask(nb)
            if w > aw:
                s = 1 << (aw - 1); ext = m & ~umask(aw)
                if kz & s: kz |= ext
                elif ko & s: ko |= ext
            return kz & m, ko & m
        if v[0] == 'L':
            lo, hi = self.range(v)
            if lo >= 0:
                return m & ~umask(hi.bit_length()), 0
        return 0, 0

    def _bitop(self, op, a, b, w):
        az, ao = self.bits(a, w); bz, bo = self.bits(b, w); m = umask(w)
        if op == 'and': return az | bz, ao & bo
        if op == 'or': return az & bz, ao | bo
        if op == 'xor': return (az & bz) | (ao & bo), (az & bo) | (ao & bz)
        if type(b) is int and 0 <= b < w:
            if op == 'shl': return ((az << b) | umask(b)) & m, (ao << b) & m
            if op == 'lshr': return (az >> b) | (m & ~(m >> b)), ao >> b
        return 0, 0

    def range(self, v):
        if type(v) is int: return v, v
        t = v[0]
        if t == 's' or t == 'e':
            d = self.get(v)
            return d.lo, d.hi
        if t == 'L':
            lo = hi = v[1]
            for a, k in v[2]:
                l, h = self.range(a)
                if k > 0: lo += k * l; hi += k * h
                else: lo += k * h; hi += k * l
            f = self._fact(v[2])
            if f is not None:
                fl, fh = f
                if fl is not None and v[1] + fl > lo: lo = v[1] + fl
                if fh is not None and v[1] + fh < hi: hi = v[1] + fh
            return lo, hi
        return -(1 << 200), 1 << 200

    @staticmethod
    def _norm(terms):
        from math import gcd
        g = 0
        for _, k in terms: g = gcd(g, abs(k))
        s = -g if terms[0][1] < 0 else g
        return tuple((a, k // s) for a, k in terms), s

    def _fact(self, terms):
        if not self.facts: return None
        n, s = self._norm(terms)
        f = self.facts.get(n)
        if f is None: return None
        lo, hi = f
        if s > 0: return (None if lo is None else lo * s, None if hi is None else hi * s)
        return (None if hi is None else hi * s, None if lo is None else lo * s)

    def norm(self, v):
        """substitute singleton atoms"""
        if type(v) is not tuple: return v
        t = v[0]
        if t == 's' or t == 'e':
            if self.alias:
                while v in self.alias: v = self.alias[v]
            d = self.dom.get(v)
            if d is not None and d.lo == d.hi: return d.lo
            if t == 'e' and d is None:
                d = self._derive(v)
                if d.lo == d.hi: return d.lo
            return v
        if t == 'L':
            ch = False
            for a, k in v[2]:
                d = self.dom.get(a)
                if (d is not None and d.lo == d.hi) or a in self.alias: ch = True; break
            if ch:
                c = v[1]; tt = {}
                for a, k in v[2]:
                    while a in self.alias: a = self.alias[a]
                    d = self.dom.get(a)
                    if d is not None and d.lo == d.hi: c += k * d.lo
                    else: tt[a] = tt.get(a, 0) + k
                return mklin(c, tt)
        elif t == 'p' and type(v[2]) is tuple:
            o = self.norm(v[2])
            if o is not v[2]: return ('p', v[1], o)
        return v

    # -- updates -----------------------------------------------------------
    def set(self, a, d):
        self._own(); self.dom[a] = d

    def refine(self, a, lo=None, hi=None, kz=0, ko=0, ne=None):
        """intersect; raises Contradiction"""
        d = self.get(a); w = a[2]
        nlo, nhi = d.lo, d.hi
        if lo is not None and lo > nlo: nlo = lo
        if hi is not None and hi < nhi: nhi = hi
        nz, no = d.kz | kz, d.ko | ko
        if nz & no: raise Contradiction()
        nne = d.ne
        if ne is not None: nne = nne | {ne}
        while nlo in nne: nlo += 1
        while nhi in nne: nhi -= 1
        # bits -> interval
        sign = 1 << (w - 1)
        if nz & sign and nlo < 0: nlo = 0
        if no & sign and nhi > -1: nhi = -1
        if nlo >= 0:
            if no & umask(w) > nlo and not no & sign: nlo = max(nlo, no)
            mx = umask(w - 1) & ~nz
            if mx < nhi: nhi = mx
        if nlo > nhi: raise Contradiction()
        if nlo == nhi:
            u = nlo & umask(w)
            if (u & nz) or (~u & no & umask(w)): raise Contradiction()
        if (nlo, nhi, nz, no) == (d.lo, d.hi, d.kz, d.ko) and nne == d.ne and a in self.dom: return
        self.set(a, Dom(nlo, nhi, nz, no, nne))
        if a[0] == 'e': self._push(a, nlo, nhi, nz, no, nne)
        if nlo == nhi and d.lo != d.hi and (a[0] == 's' or a[1] == 'sdiv'): self._fixed(a)

    def _fixed(self, a):
        """a has become a constant: carry its relations over to the other symbols"""
        fs = [(n, f) for n, f in self.facts.items() if any(x == a for x, _ in n)]
        ns = [(n, v) for n, v in self.ne if any(x == a for x, _ in n)]
        if not fs and not ns: return
        self._own()
        for n, f in fs: self.facts.pop(n, None)
        if ns: self.ne = self.ne - frozenset(ns)
        for n, (lo, hi) in fs: self._bound(self.norm(('L', 0, n)), lo, hi)
        for n, x in ns: self.assume_cmp('ne', 64, self.norm(('L', 0, n)), x, True)

    def _push(self, a, lo, hi, kz, ko, ne):
        """propagate a refinement of an opaque atom to its argument"""
        op = a[1]; w = a[2]
        if op == 'zext':
            x, w0 = a[3], a[4]
            if isatom(x):
                if hi <= smax(w0): self.refine(x, lo=max(lo, 0), hi=hi)
                elif lo > smax(w0): self.refine(x, lo=tosigned(lo, w0), hi=tosigned(hi, w0))
                self.refine(x, kz=kz & umask(min(w0, x[2])), ko=ko & umask(min(w0, x[2])))
                if lo == hi: self.refine(x, lo=tosigned(lo, w0), hi=tosigned(lo, w0))
                if 0 in ne: self.refine(x, ne=0)
                if x[0] == 'e' and x[1] == 'icmp' and lo == hi:
                    pass
        elif op == 'and':
            x, m = a[3], a[4]
            if type(m) is int:
                mu = m & umask(w)
                if lo == hi:
                    u = lo & umask(w)
                    if u & ~mu: raise Contradiction()
                    ko, kz = u, mu & ~u
                elif 0 in ne and mu & (mu - 1) == 0:
                    ko, kz = mu, 0
                else:
                    ko, kz = ko & mu, kz & mu
                if isatom(x):
                    wm = umask(x[2])
                    if (ko | kz) & wm: self.refine(x, ko=ko & wm, kz=kz & wm)
            elif lo == hi == -1 and w == 1:
                for x in (a[3], a[4]):
                    if isatom(x): self.refine(x, lo=-1, hi=-1)
        elif op == 'or':
            if lo == hi == 0:
                for x in (a[3], a[4]):
                    if isatom(x): self.refine(x, lo=0, hi=0)
                    elif type(x) is int:
                        if x != 0: raise Contradiction()
                    else: self._bound(x, 0, 0)
        elif op == 'sdiv' and type(a[4]) is int and a[4] > 0 and lin(a[3]) is not None:
            b = a[4]
            if (lo > smin(w) + 1 and hi < smax(w) - 1):
                self._bound(a[3], lo * b - (0 if lo > 0 else b - 1), hi * b + (0 if hi < 0 else b - 1))
        elif op == 'icmp' and lo == hi:
            self.assume_cmp(a[3], a[4], a[5], a[6], lo != 0)

    # -- comparisons -------------------------------------------------------
    NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
           'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
    SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
            'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}

    def cmp(self, pred, w, a, b):
        """True / False / None"""
        if type(a) is int and type(b) is int:
            return _ccmp(pred, w, a, b)
        if pred[0] == 'u':
            ra = self.range(a); rb = self.range(b)
            if ra[0] >= 0 and rb[0] >= 0: pred = 's' + pred[1:]
            elif ra[1] < 0 and rb[1] < 0: pred = 's' + pred[1:]
            elif ra[0] >= 0 and rb[1] < 0: return pred in ('ult', 'ule')
            elif ra[1] < 0 and rb[0] >= 0: return pred in ('ugt', 'uge')
            else:
                if a == b: return pred in ('ule', 'uge')
                if type(b) is int and b == 0: return {'uge': True, 'ult': False}.get(pred)
                return self._memo(pred, w, a, b)
        d = lin_add(a, b, -1)
        if d is None: return None
        if pred in ('eq', 'ne'):
            if type(d) is int: return (d == 0) == (pred == 'eq')
            lo, hi = self.range(d)
            if lo > 0 or hi < 0: return pred == 'ne'
            if lo == hi == 0: return pred == 'eq'
            # known bits / excluded values
            if type(b) is int and isatom(a):
                da = self.get(a)
                if b in da.ne: return pred == 'ne'
                u = b & umask(a[2])
                if (u & da.kz) or (~u & da.ko & umask(a[2])): return pred == 'ne'
            if type(a) is int and isatom(b): return self.cmp(pred, w, b, a)
            if d[0] == 'L':
                n, s = self._norm(d[2])
                if (-d[1]) % s: return pred == 'ne'
                if (n, -d[1] // s) in self.ne: return pred == 'ne'
            return None
        lo, hi = self.range(d) if type(d) is not int else (d, d)
        if pred == 'slt': return True if hi < 0 else False if lo >= 0 else None
        if pred == 'sle': return True if hi <= 0 else False if lo > 0 else None
        if pred == 'sgt': return True if lo > 0 else False if hi <= 0 else None
        if pred == 'sge': return True if lo >= 0 else False if hi < 0 else None
        return None

    def _ult(self, w, a, b):
        """recorded truth of the unsigned a < b"""
        d = self.dom.get(('e', 'icmp', 1, 'ult', w, a, b))
        return d.lo != 0 if d is not None and d.lo == d.hi else None
    def _memo(self, pred, w, a, b):
        if pred in ('ugt', 'ule'): a, b = b, a
        neg = pred in ('uge', 'ule')
        r = self._ult(w, a, b)
        if r is None:
            q = self._ult(w, b, a)
            if q is True: r = False
            elif q is False and self.cmp('eq', w, a, b) is False: r = True
        return None if r is None else r != neg

    def assume_cmp(self, pred, w, a, b, truth):
        """add constraint; raises Contradiction"""
        if not truth: pred = self.NEG[pred]
        a = self.norm(a); b = self.norm(b)
        r = self.cmp(pred, w, a, b)
        if r is True: return
        if r is False: raise Contradiction()
        if pred[0] == 'u':
            ra = self.range(a); rb = self.range(b)
            if ra[0] >= 0 and rb[0] >= 0: pred = 's' + pred[1:]
            else:
                if rb[0] >= 0 and pred in ('ult', 'ule') and isatom(a):
                    # 0 <= a <(=) b
                    self.refine(a, lo=0); pred = 's' + pred[1:]
                elif ra[0] >= 0 and pred in ('ugt', 'uge') and isatom(b):
                    self.refine(b, lo=0); pred = 's' + pred[1:]
                elif pred == 'ugt' and b == 0 and isatom(a):
                    self.refine(a, ne=0); return
                elif pred == 'ule' and b == 0 and isatom(a):
                    self.refine(a, lo=0, hi=0); return
                else:
                    if pred in ('ugt', 'ule'): a, b = b, a
                    t = pred in ('ult', 'ugt')
                    self.set(('e', 'icmp', 1, 'ult', w, a, b), Dom(-1, -1) if t else Dom(0, 0))
                    if t: self.assume_cmp('ne', w, a, b, True)
                    elif self._ult(w, b, a) is False: self.assume_cmp('eq', w, a, b, True)
                    return
            return self.assume_cmp(pred, w, a, b, True)
        d = lin_add(a, b, -1)
        if d is None: return
        if pred == 'ne':
            if isatom(a) and type(b) is int: self.refine(a, ne=b); return
            if isatom(b) and type(a) is int: self.refine(b, ne=a); return
            la = lin(d)
            if len(la[1]) == 1:
                (x, k), = la[1].items()
                if (-la[0]) % k == 0: self.refine(x, ne=-la[0] // k)
                return
            n, s = self._norm(d[2])
            if (-d[1]) % s == 0:
                self.ne = self.ne | {(n, -d[1] // s)}
                lo, hi = self.range(d)
                if lo == 0: self._bound(d, 1, None)
                elif hi == 0: self._bound(d, None, -1)
            return
        if pred == 'eq':
            self._bound(d, 0, 0)
            if isatom(a) and isatom(b) and a[0] == 's' == b[0] and a[2] == b[2]:
                self._unify(a, b)
            elif d[0] == 'L' and d[1] == 0 and len(d[2]) == 2 and d[2][0][1] == -d[2][1][1]:
                x, y = d[2][0][0], d[2][1][0]
                if x[0] == 's' == y[0] and x[2] == y[2]: self._unify(x, y)
        elif pred == 'slt': self._bound(d, None, -1)
        elif pred == 'sle': self._bound(d, None, 0)
        elif pred == 'sgt': self._bound(d, 1, None)
        elif pred == 'sge': self._bound(d, 0, None)

    def _unify(self, a, b):
        """a == b (both plain symbols): b's younger one becomes an alias of the older"""
        if a[1] > b[1]: a, b = b, a
        self._own()
        db = self.get(b)
        self.refine(a, lo=db.lo, hi=db.hi, kz=db.kz, ko=db.ko)
        for x in db.ne: self.refine(a, ne=x)
        self._own()
        self.alias[b] = a
        fs = [(n, f) for n, f in self.facts.items() if any(x == b for x, _ in n)]
        ns = [(n, v) for n, v in self.ne if any(x == b for x, _ in n)]
        for n, f in fs: del self.facts[n]
        if ns: self.ne = self.ne - frozenset(ns)
        for n, (lo, hi) in fs:
            v = self.norm(('L', 0, n))
            self._bound(v, lo, hi)
        for n, x in ns:
            self.assume_cmp('ne', 64, self.norm(('L', 0, n)), x, True)

    def _bound(self, d, lo, hi):
        """lo <= d <= hi"""
        if type(d) is int:
            if (lo is not None and d < lo) or (hi is not None and d > hi): raise Contradiction()
            return
        c, t = lin(d)
        terms = tuple(sorted(t.items(), key=_akey))
        if len(terms) > 1:
            n, s = self._norm(terms)
            sa = abs(s)
            if s < 0:
                # -|s| * n in [lo-c, hi-c]  => n in [-(hi-c)/|s|, -(lo-c)/|s|]
                lo_n = None if hi is None else -((hi - c) // sa)
                hi_n = None if lo is None else (-(lo - c)) // sa
            else:
                lo_n = None if lo is None else -((-(lo - c)) // sa)
                hi_n = None if hi is None else (hi - c) // sa
            self._own()
            ol, oh = self.facts.get(n, (None, None))
            if lo_n is not None and (ol is None or lo_n > ol): ol = lo_n
            if hi_n is not None and (oh is None or hi_n < oh): oh = hi_n
            if (n, ol) in self.ne and ol is not None: ol += 1
            if (n, oh) in self.ne and oh is not None: oh -= 1
            if ol is not None and oh is not None and ol > oh: raise Contradiction()
            self.facts[n] = (ol, oh)
        for x, k in terms:
            # k*x in [lo - rest_hi, hi - rest_lo]
            rl = rh = c
            for y, ky in terms:
                if y is x or y == x: continue
                l, h = self.range(y)
                if ky > 0: rl += ky * l; rh += ky * h
                else: rl += ky * h; rh += ky * l
            nlo = None if lo is None else lo - rh
            nhi = None if hi is None else hi - rl
            if k < 0: nlo, nhi = (None if nhi is None else -nhi), (None if nlo is None else -nlo)
            ka = abs(k)
            if nlo is not None: nlo = -((-nlo) // ka)
            if nhi is not None: nhi = nhi // ka
            dl, dh = self.range(x)
            if (nlo is not None and nlo > dl) or (nhi is not None and nhi < dh):
                self.refine(x, lo=nlo, hi=nhi)

def _ccmp(pred, w, a, b):
    if pred == 'eq': return a == b
    if pred == 'ne': return a != b
    if pred[0] == 'u':
        m = umask(w); a &= m; b &= m
    p = pred[1:]
    if p == 'lt': return a < b
    if p == 'le': return a <= b
    if p == 'gt': return a > b
    return a >= b

# ---------------------------------------------------------------- arithmetic
def fits(env, v, w):
    lo, hi = env.range(v)
    return lo >= smin(w) and hi <= smax(w)

def binop(env, op, w, a, b, nsw=False, nuw=False):
    if type(a) is int and type(b) is int:
        return _cbin(op, w, a, b)
    if op in ('add', 'sub'):
        r = lin_add(a, b, 1 if op == 'add' else -1)
        if r is not None:
            if type(r) is int: return tosigned(r, w)
            if nsw or fits(env, r, w): return r
            # unsigned constants close to 2^w (e.g. x + -1): retry is already signed
        return ('e', op, w, a, b)
    if op == 'mul':
        if type(a) is int: a, b = b, a
        if type(b) is int:
            if b == 0: return 0
            r = lin_scale(a, b)
            if r is not None and (nsw or fits(env, r, w)): return r
        return ('e', op, w, a, b)
    if op == 'shl':
        if type(b) is int and 0 <= b < w:
            r = lin_scale(a, 1 << b)
            if r is not None and (nsw or fits(env, r, w)): return r
        return fold(env, ('e', op, w, a, b))
    if op in ('udiv', 'urem', 'lshr'):
        ra = env.range(a)
        if ra[0] >= 0:
            if op == 'lshr':
                if type(b) is int: return binop(env, 'sdiv', w, a, 1 << b)
            elif env.range(b)[0] >= 0:
                return binop(env, 's' + op[1:], w, a, b)
        return fold(env, ('e', op, w, a, b))
    if op == 'sdiv':
        if type(b) is int and b > 0:
            l = lin(a)
            if l is not None and l[0] % b == 0 and all(k % b == 0 for k in l[1].values()):
                return mklin(l[0] // b, {x: k // b for x, k in l[1].items()})
            q = fold(env, ('e', op, w, a, b))
            r = lin_add(a, lin_scale(q, b), -1)          # the remainder, however it is written
            if type(r) is tuple:
                lo, hi = env.range(a)
                try: env._bound(r, 0 if lo >= 0 else -(b - 1), b - 1 if hi >= 0 else 0)
                except Contradiction: pass
            return q
        return fold(env, ('e', op, w, a, b))
    if op == 'srem':
        if type(b) is int and b > 0:
            q = binop(env, 'sdiv', w, a, b)
            r = lin_add(a, lin_scale(q, b), -1)
            if r is not None: return r
        return fold(env, ('e', op, w, a, b))
    if op == 'xor' and w > 1 and (b == -1 or a == -1):
        x = a if b == -1 else b
        if type(x) is tuple and lin(x) is not None: return lin_add(-1, x, -1)      # ~x = -1 - x
    if op in ('and', 'or', 'xor'):
        if type(a) is int: a, b = b, a
        if a == b:
            return 0 if op == 'xor' else a
        m = umask(w)
        if type(b) is int:
            u = b & m
            kz, ko = env.bits(a, w)
            if op == 'and':
                if u == 0: return 0
                if (m & ~kz) & ~u == 0: return a
                if isatom(a) and a[0] == 'e' and a[1] == 'and' and type(a[4]) is int:
                    return binop(env, 'and', w, a[3], tosigned(a[4] & u, w))
                if isatom(a) and a[0] == 'e' and a[1] == 'or' and type(a[4]) is int:
                    return binop(env, 'or', w, binop(env, 'and', w, a[3], b), tosigned(a[4] & u, w))
                if isatom(a) and a[0] == 'e' and a[1] == 'zext' and type(a[3]) is tuple and u <= smax(a[4]):
                    pass
            elif op == 'or':
                if u & ~ko == 0: return a
                if isatom(a) and a[0] == 'e' and a[1] == 'or' and type(a[4]) is int:
                    return binop(env, 'or', w, a[3], tosigned(a[4] | u, w))
                if u == m: return -1
            elif u == 0: return a
            elif op == 'xor' and w == 1 and isatom(a) and a[0] == 'e' and a[1] == 'icmp':
                return ('e', 'icmp', 1, Env.NEG[a[3]], a[4], a[5], a[6])
        return fold(env, ('e', op, w, a, b))
    return fold(env, ('e', op, w, a, b))

def fold(env, e):
    d = env.get(e)
    if d.lo == d.hi: return d.lo
    m = umask(e[2])
    if (d.kz | d.ko) & m == m: return tosigned(d.ko, e[2])
    return e

def _cbin(op, w, a, b):
    m = umask(w)
    if op == 'add': r = a + b
    elif op == 'sub': r = a - b
    elif op == 'mul': r = a * b
    elif op == 'and': r = a & b
    elif op == 'or': r = a | b
    elif op == 'xor': r = a ^ b
    elif op == 'shl': r = (a << b) if 0 <= b < w else 0
    elif op == 'lshr': r = ((a & m) >> b) if 0 <= b < w else 0
    elif op == 'ashr': r = (a >> b) if 0 <= b < w else 0
    elif op == 'sdiv':
        if b == 0: return ('u',)
        r = abs(a) // abs(b); r = -r if (a < 0) != (b < 0) else r
    elif op == 'srem':
        if b == 0: return ('u',)
        r = abs(a) % abs(b); r = -r if a < 0 else r
    elif op == 'udiv':
        if b == 0: return ('u',)
        r = (a & m) // (b & m)
    elif op == 'urem':
        if b == 0: return ('u',)
        r = (a & m) % (b & m)
    else: return ('u',)
    return tosigned(r, w)

def cast(env, op, w, w0, a):
    if type(a) is int:
        if op == 'zext': return a & umask(w0)
        if op == 'trunc': return tosigned(a, w)
        return a
    t = a[0]
    if t in ('p', 'f', 'u', 'A'): 
        if op == 'trunc' and t == 'p': return ('e', 'trunc', w, a)
        return a
    if op == 'sext': return a
    if op == 'zext':
        lo, hi = env.range(a)
        if lo >= 0: return a
        if a[0] == 'e' and a[1] == 'zext' : return ('e', 'zext', w, a[3], a[4])
        return fold(env, ('e', 'zext', w, a, w0))
    if op == 'trunc':
        lo, hi = env.range(a)
        if lo >= smin(w) and hi <= smax(w): return a
        if a[0] == 'e' and a[1] == 'zext':
            if a[4] == w: return a[3]
            if a[4] > w: return cast(env, 'trunc', w, a[4], a[3])
        if a[0] == 'e' and a[1] == 'trunc': return ('e', 'trunc', w, a[3])
        if a[0] == 'e' and a[1] in ('and', 'or', 'xor'):
            return binop(env, a[1], w, cast(env, 'trunc', w, w0, a[3]), cast(env, 'trunc', w, w0, a[4]))
        return fold(env, ('e', 'trunc', w, a))
    return a

def icmp(env, pred, w, a, b):
    """-> -1/0 or an icmp atom (numeric operands only)"""
    r = env.cmp(pred, w, a, b)
    if r is True: return -1
    if r is False: return 0
    # look through zext(i1) ==/!= 0
    if type(b) is int and b == 0 and pred in ('eq', 'ne') and isatom(a):
        x = a
        while x[0] == 'e' and x[1] == 'zext': 
            x = x[3]
            if not isatom(x): break
        if isatom(x) and x[0] == 'e' and x[1] == 'icmp':
            if pred == 'ne': return x
            return ('e', 'icmp', 1, Env.NEG[x[3]], x[4], x[5], x[6])
    if type(a) is int: a, b, pred = b, a, Env.SWAP[pred]
    return ('e', 'icmp', 1, pred, w, a, b)
