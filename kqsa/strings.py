"""Fixed-size character buffers: a join-based, context-sensitive dataflow over the IR.

The path engine treats the *contents* of character buffers as opaque. This pass keeps, for every character
buffer the library builds strings in (statics, thread-locals, locals), the interval of the length its string may
have at each program point, and checks the calls that extend it against the room the buffer has.

  string-overflow     strcpy/strcat/strncat/strncpy/sprintf/snprintf may write past the end of its buffer
  index-before-start  buf[strlen(buf) - k] where the string may be shorter than k and nothing checks it
  truncated-path      snprintf may cut off a path that is then handed to the kernel
  unterminated        a buffer filled by readlink() is used as a string with nothing terminating it
  format              printf-like call with too few arguments, a non-pointer for %s, or a format that is data

Unknown lengths (None) are undecided and never reported: the pass alarms only on lengths it derived.
"""
from . import engine as EN

STR_SUM = ('strcpy', 'strcat', 'strncat', 'strncpy', 'sprintf', 'snprintf', 'stpcpy', 'strlcpy', 'strlcat')
PRINTF = {'printf': 0, 'fprintf': 1, 'dprintf': 1, 'sprintf': 1, 'snprintf': 2, 'syslog': 1}
PATHARG = {'readlink': 0, 'open': 0, 'open64': 0, 'inotify_add_watch': 1, 'stat': 0, 'lstat': 0, 'access': 0, 'unlink': 0, 'opendir': 0, 'fopen': 0}
TOP = None

def cstr(G, off):
    """length of the constant string at offset off, None if it is not one"""
    if off is None or off < 0 or off >= max(G.size, 1): return None
    d = {o: v for o, s, v in G.init if s == 1 and isinstance(v, int)}
    n = 0
    while off + n < G.size and d.get(off + n): n += 1
    return n if off + n < G.size else None

def ctext(G, off):
    n = cstr(G, off)
    if n is None: return None
    d = {o: v for o, s, v in G.init if s == 1}
    return ''.join(chr(d[off + i] & 255) for i in range(n))

def norm(o):
    """the engine rewrites address constants when it is set up"""
    if isinstance(o, tuple) and o[0] == 'p' and isinstance(o[1], tuple) and o[1][0] == 'g': return ('g', o[1][1], o[2])
    return o

def parse(fmt):
    """-> list of ('lit', n) | (conv, flags, width, prec, length)"""
    out = []; i = 0
    while i < len(fmt):
        if fmt[i] != '%':
            j = fmt.find('%', i); j = len(fmt) if j < 0 else j
            out.append(('lit', j - i)); i = j; continue
        i += 1
        if i < len(fmt) and fmt[i] == '%': out.append(('lit', 1)); i += 1; continue
        fl = ''
        while i < len(fmt) and fmt[i] in '-+ #0': fl += fmt[i]; i += 1
        wd = ''
        while i < len(fmt) and (fmt[i].isdigit() or fmt[i] == '*'): wd += fmt[i]; i += 1
        pr = None
        if i < len(fmt) and fmt[i] == '.':
            i += 1; pr = ''
            while i < len(fmt) and (fmt[i].isdigit() or fmt[i] == '*'): pr += fmt[i]; i += 1
        ln = ''
        while i < len(fmt) and fmt[i] in 'hlLqjzt': ln += fmt[i]; i += 1
        cv = fmt[i] if i < len(fmt) else ''
        i += 1
        out.append((cv, fl, wd, pr, ln))
    return out

def add(a, b):
    return (a[0] + b[0], None if a[1] is None or b[1] is None else a[1] + b[1])
def join(a, b):
    return (min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]))
UNK = (0, None)
def merge(A, B, widen=None):
    out = {}
    for k in set(A) | set(B):
        if k[0] in ('cut', 'raw'):           # may hold
            out[k] = max(A.get(k, (0, 0)), B.get(k, (0, 0)))
        elif k[0] == 'zero':                 # must hold
            if k in A and k in B: out[k] = A[k]
        else:
            v = join(A.get(k, UNK), B.get(k, UNK))
            out[k] = UNK if widen is not None and v != widen.get(k, UNK) else v
    return out

class Strings:
    def __init__(self, M, eng):
        self.M = M; self.eng = eng; self.emit = False; self.memo = {}; self.stack = []; self.defs = {}
        self.escaped = set(); self.E = {}; self.rel = {}; self.tab = {}
        for F in M.functions.values():
            if not F.decl: self.defs[F.name] = {I.dst: I for b in F.blocks for I in b if I.dst is not None}

    # ---------------------------------------------------------------- pointers
    def size(self, t):
        if t[0] == 'g':
            G = self.M.globals.get(t[1]); return G.size if G and not G.decl else None
        I = self.defs[t[1]].get(t[2]); n = I.a[0] if I.a and isinstance(I.a[0], int) else 1
        return I.x * n
    def key(self, t): return t[:-1]
    def shift(self, ts, k):
        if ts is TOP: return TOP
        return frozenset(t if t == 0 else t[:-1] + ((None if k is None or t[-1] is None else t[-1] + k),) for t in ts)
    def resolve(self, fn, o, args, seen=()):
        if isinstance(o, int): return frozenset((0,)) if o == 0 else TOP
        o = norm(o)
        if o[0] == 'g': return frozenset((('g', o[1], o[2]),))
        if o[0] != 'r': return TOP
        F = self.M.functions[fn]
        for i, p in enumerate(F.params):
            if p[0] == o[1]: return args[i] if args and i < len(args) else TOP
        I = self.defs[fn].get(o[1])
        if I is None or (fn, o[1]) in seen or len(seen) > 40: return TOP
        s2 = seen + ((fn, o[1]),)
        if I.op == 'alloca': return frozenset((('a', fn, o[1], 0),))
        if I.op == 'gep': return self.shift(self.resolve(fn, I.a[0], args, s2), None if I.x[1] else I.x[0])
        if I.op in ('bitcast', 'freeze', 'addrspacecast'): return self.resolve(fn, I.a[0], args, s2)
        if I.op in ('phi', 'select'):
            r = frozenset()
            for v in (I.x.values() if I.op == 'phi' else I.a[1:]):
                if v == o: continue
                x = self.resolve(fn, v, args, s2)
                if x is TOP: return TOP
                r |= x
            return r
        if I.op == 'call':
            c = I.x[0]
            if c[0] != 'f': return TOP
            if c[1].startswith('llvm.threadlocal.address'): return self.resolve(fn, I.a[0], args, s2)
            if c[1] in ('strcpy', 'strcat', 'strncat', 'strncpy'): return self.resolve(fn, I.a[0], args, s2)
            C = self.M.functions.get(c[1])
            if C is None or C.decl: return TOP
            a2 = tuple(self.resolve(fn, x, args, s2) if I.x[1][i] == 64 else TOP for i, x in enumerate(I.a))
            r = frozenset()
            for b in C.blocks:
                if b[-1].op == 'ret' and b[-1].a:
                    x = self.resolve(c[1], b[-1].a[0], a2, s2)
                    if x is TOP: return TOP
                    r |= x
            return r
        if I.op == 'load' and I.x[1]:
            ts = self.resolve(fn, I.a[0], args, s2)
            if ts is TOP: return TOP
            r = frozenset()
            for t in ts:
                cells = self.table(t)
                if cells is None: return TOP
                r |= cells
            return r
        return TOP
    def table(self, t):
        """the pointers a constant table may hold at t"""
        if t == 0: return None
        if t in self.tab: return self.tab[t]
        self.tab[t] = None                      # while it is being worked out
        self.tab[t] = self.table1(t)
        return self.tab[t]
    def table1(self, t):
        off = t[-1]
        if t[0] == 'a':
            src = None
            for b in self.M.functions[t[1]].blocks:
                for I in b:
                    if I.op == 'call' and I.x[0][0] == 'f' and I.x[0][1].startswith('llvm.memcpy'):
                        d = self.resolve(t[1], I.a[0], None)
                        if d is not TOP and ('a', t[1], t[2], 0) in d and isinstance(norm(I.a[1]), tuple) and norm(I.a[1])[0] == 'g':
                            if src is not None: return None
                            src = norm(I.a[1])
                    elif I.op == 'store':
                        d = self.resolve(t[1], I.a[1], None)
                        if d is not TOP and any(x != 0 and x[:3] == t[:3] for x in d): return None
            if src is None: return None
            g, base = src[1], src[2]
        else: g, base = t[1], 0
        G = self.M.globals.get(g)
        if G is None or not G.const or G.decl: return None
        out = set()
        for o, s, v in G.init:
            if s == 8 and (off is None or o == base + off):
                v = norm(v)
                if isinstance(v, tuple) and v[0] == 'g': out.add(('g', v[1], v[2]))
                else: return None
        return frozenset(out) if out else None

    # ---------------------------------------------------------------- lengths
    def strlen(self, S, ts):
        if ts is TOP or not ts: return UNK
        r = None
        for t in ts:
            if t == 0: continue
            v = self.strlen1(S, t)
            r = v if r is None else join(r, v)
        return r or UNK
    def strlen1(self, S, t):
        if t[0] == 'g':
            G = self.M.globals.get(t[1])
            if G is not None and G.const and not G.decl:
                if t[-1] is None: return (0, max(0, G.size - 1))
                n = cstr(G, t[-1]); return (n, n) if n is not None else UNK
        k = self.key(t)
        if k in self.escaped: return UNK
        v = S.get(k, UNK); off = t[-1]
        if off == 0: return v
        return (0, v[1])
    def fmtlen(self, fn, S, args, fmt, fargs, widths, path=False):
        """interval of the length a format produces"""
        r = (0, 0); i = 0
        for p in parse(fmt):
            if p[0] == 'lit': r = add(r, (p[1], p[1])); continue
            cv, fl, wd, pr, ln = p
            if '*' in wd or (pr and '*' in pr): return (0, None)
            a = fargs[i] if i < len(fargs) else None; w = widths[i] if i < len(widths) else 32; i += 1
            long = 'l' in ln or 'z' in ln or 'j' in ln or 't' in ln
            if cv == 's':
                v = self.strlen(S, self.resolve(fn, a, args)) if a is not None else UNK
                if pr: v = (min(v[0], int(pr)), int(pr) if v[1] is None else min(v[1], int(pr)))
            elif cv in 'di':
                v = (1, 20 if long else 11)
                if path:
                    v = (1, 19 if long else 10)
                    if isinstance(a, tuple) and a[0] == 'r':
                        I = self.defs[fn].get(a[1])
                        if I is not None and I.op == 'call' and I.x[0] == ('f', 'getpid'): v = (1, 7)
            elif cv == 'u': v = (1, 20 if long else 10)
            elif cv in 'xX': v = (1, (16 if long else 8) + (2 if '#' in fl else 0))
            elif cv == 'o': v = (1, 22 if long else 11)
            elif cv == 'p': v = (3, 18)
            elif cv == 'c': v = (1, 1)
            else: v = UNK
            if wd:
                n = int(wd); v = (max(v[0], n), None if v[1] is None else max(v[1], n))
            r = add(r, v)
        return r

    # ---------------------------------------------------------------- reporting
    def viol(self, rule, I, msg):
        if self.emit:
            self.eng.viols.setdefault(('C10', rule, (I.fn, I.loc())), dict(property='C10', rule=rule, where=I.loc(), function=I.fn, message=msg, stack=' < '.join(reversed(self.stack)) or I.fn, path=list(self.stack), history='', notes=[]))
    def site(self, rule, I):
        if self.emit: self.eng.oblige(rule, I.loc())

    def put(self, S, ts, start, length, I, what, n=None):
        """string of `length` written at `start` (interval; None: appended at the string's end) of the buffers ts"""
        if ts is TOP: return
        strong = len([t for t in ts if t != 0]) == 1
        for t in ts:
            if t == 0: continue
            sz = self.size(t)
            if sz is None: continue
            off = t[-1]; old = self.strlen1(S, t); k = self.key(t)
            total = length if start == 0 else add(old, length)
            self.site('string-overflow', I)
            if off is not None and total[1] is not None and k not in self.escaped and off + total[1] + 1 > sz:
                self.viol('string-overflow', I, '%s may write a string of %d bytes and its terminator into %s, which has room for %d'
                          % (what, total[1], self.name(t), sz - off))
                total = (min(total[0], sz - off - 1), max(0, sz - off - 1))
            if off is None: S[k] = UNK
            elif off: S[k] = (0, None if total[1] is None else off + total[1]) if not strong else (min(off, S.get(k, UNK)[0]), None if total[1] is None else off + total[1])
            else: S[k] = total if strong else join(total, S.get(k, UNK))
    def name(self, t): return t[1] if t[0] == 'g' else 'a local buffer of %s()' % t[1]

    # ---------------------------------------------------------------- transfer
    def relevant(self, fn, seen=()):
        if fn in self.rel: return self.rel[fn]
        if fn in seen: return False
        F = self.M.functions.get(fn)
        if F is None or F.decl: return False
        r = False
        for b in F.blocks:
            for I in b:
                if I.op == 'call' and I.x[0][0] == 'f':
                    c = I.x[0][1]
                    if c in STR_SUM or c == 'readlink' or c == 'strlen' or self.relevant(c, seen + (fn,)): r = True
                elif I.op == 'store' and I.x[0] == 1: r = True
        if not seen: self.rel[fn] = r
        return r
    def run(self, fn, args, S0):
        """analyse fn from state S0; returns the state at its exits"""
        key = (fn, args, frozenset(S0.items()), self.emit)
        if key in self.memo: return self.memo[key]
        if fn in self.stack or len(self.stack) > 12: return {}
        F = self.M.functions[fn]; self.stack.append(fn); emit = self.emit
        ins = {0: dict(S0)}; work = [0]; count = {}
        self.emit = False
        outs = {}
        while work:
            work.sort(reverse=True); b = work.pop()
            count[b] = count.get(b, 0) + 1
            S = dict(ins[b])
            self.block(fn, F.blocks[b], S, args)
            outs[b] = S
            from .ir import succs
            for s in set(succs(F.blocks[b])):
                if s not in ins: ins[s] = dict(S); work.append(s) if s not in work else None; continue
                new = merge(ins[s], S, ins[s] if s in F.loopheads and count.get(s, 0) >= 1 else None)
                if new != ins[s]:
                    ins[s] = new
                    if s not in work: work.append(s)
            if count[b] > 60: break
        ex = None
        self.emit = emit
        for b in sorted(ins):
            S = dict(ins[b])
            if emit: self.block(fn, F.blocks[b], S, args)
            else: S = outs.get(b, S)
            if F.blocks[b][-1].op == 'ret':
                ex = dict(S) if ex is None else merge(ex, S)
        self.stack.pop()
        own = lambda k: (k[0] == 'a' and k[1] == fn) or (k[0] in ('cut', 'raw', 'zero') and own(k[1:]))
        ex = {k: v for k, v in (ex or {}).items() if not own(k)}
        self.memo[key] = ex
        if emit: self.eng.cov_funcs.add(fn)
        return ex
    def kill(self, S, ts):
        if ts is TOP: return
        for t in ts:
            if t != 0: S[self.key(t)] = UNK
    def guarded(self, fn, reg):
        """the length is looked at before it is used"""
        regs = {reg}
        for _ in range(3):
            for I in self.defs[fn].values():
                if I.op in ('add', 'sub', 'trunc', 'zext', 'sext', 'phi', 'freeze') and any(isinstance(o, tuple) and o[0] == 'r' and o[1] in regs for o in (I.x.values() if I.op == 'phi' else I.a)): regs.add(I.dst)
        return any(I.op in ('icmp', 'select') and any(isinstance(o, tuple) and o[0] == 'r' and o[1] in regs for o in I.a) for I in self.defs[fn].values()) or \
            any(b[-1].op == 'switch' and isinstance(b[-1].a[0], tuple) and b[-1].a[0][0] == 'r' and b[-1].a[0][1] in regs for b in self.M.functions[fn].blocks)
    def block(self, fn, blk, S, args):
        for I in blk:
            if I.op == 'alloca':
                for k in [k for k in S if k[-3:] == ('a', fn, I.dst)]: S.pop(k)
                continue
            if I.op == 'store' and I.x[0] == 1: self.store(fn, I, S, args)
            elif I.op == 'load' and I.x[0] == 1: self.index(fn, I, I.a[0], S, args)
            elif I.op == 'call': self.call(fn, I, S, args)
    def index(self, fn, I, ptr, S, args):
        """buf[strlen(buf) - k]"""
        if not (isinstance(ptr, tuple) and ptr[0] == 'r'): return
        g = self.defs[fn].get(ptr[1])
        if g is None or g.op != 'gep' or len(g.x[1]) != 1 or g.x[1][0][1] != 1: return
        k = g.x[0]; o = g.x[1][0][0]
        for _ in range(6):
            if not (isinstance(o, tuple) and o[0] == 'r'): return
            d = self.defs[fn].get(o[1])
            if d is None: return
            if d.op in ('sub', 'add') and isinstance(d.a[1], int): k += d.a[1] if d.op == 'add' else -d.a[1]; o = d.a[0]
            elif d.op in ('zext', 'sext', 'trunc', 'freeze'): o = d.a[0]
            elif d.op == 'call' and d.x[0] == ('f', 'strlen'):
                if k >= 0: return
                base = self.resolve(fn, g.a[0], args)
                if base is TOP or base != self.resolve(fn, d.a[0], args): return
                self.site('index-before-start', I)
                v = self.strlen(S, base)
                if v[0] < -k and not self.guarded(fn, d.dst) and all(t != 0 and (t[0] == 'a' or not self.M.globals[t[1]].const) and self.key(t) in S and S[self.key(t)] != UNK for t in base):
                    self.viol('index-before-start', I, 'the string in %s may be shorter than %d byte%s, and the access lies before its start' % (self.name(next(iter(base))), -k, 's' if k < -1 else ''))
                return
            else: return
    def store(self, fn, I, S, args):
        ptr = I.a[1]
        self.index(fn, I, ptr, S, args)
        ts = self.resolve(fn, ptr, args)
        if ts is TOP: return
        for t in ts:
            if t == 0: continue
            k = self.key(t); v = S.get(k, UNK); strong = len(ts) == 1
            if I.a[0] == 0:
                S.pop(('raw',) + k, None)
                if t[-1] == 0: S[k] = (0, 0) if strong else join(v, (0, 0))
                elif t[-1] is None:      # a terminator inside the string shortens it by an unknown amount
                    d = self.tail(fn, ptr, args, ts)
                    S[k] = (max(0, v[0] - d), v[1]) if d is not None else (0, v[1])
                else: S[k] = (min(v[0], t[-1]), t[-1] if v[1] is None and strong else (min(v[1], t[-1]) if v[1] is not None else None)) if strong else (0, v[1])
            else:
                d = self.tail(fn, ptr, args, ts)
                if d is not None: continue          # overwriting a character of the string keeps its length
                sz = self.size(t)
                S[k] = (0, None)
    def tail(self, fn, ptr, args, ts):
        """k if ptr is buf + strlen(buf) - k with k > 0"""
        g = self.defs[fn].get(ptr[1]) if isinstance(ptr, tuple) and ptr[0] == 'r' else None
        if g is None or g.op != 'gep' or len(g.x[1]) != 1: return None
        k = g.x[0]; o = g.x[1][0][0]
        for _ in range(6):
            d = self.defs[fn].get(o[1]) if isinstance(o, tuple) and o[0] == 'r' else None
            if d is None: return None
            if d.op in ('sub', 'add') and isinstance(d.a[1], int): k += d.a[1] if d.op == 'add' else -d.a[1]; o = d.a[0]
            elif d.op in ('zext', 'sext', 'trunc', 'freeze'): o = d.a[0]
            elif d.op == 'call' and d.x[0] == ('f', 'strlen'): return -k if k < 0 else None
            else: return None
        return None
    def call(self, fn, I, S, args):
        c = I.x[0]
        if c[0] != 'f': return
        c = c[1]; A = I.a
        R = lambda i: self.resolve(fn, A[i], args)
        if c in ('strcpy', 'stpcpy'): self.put(S, R(0), 0, self.strlen(S, R(1)), I, c + '()')
        elif c == 'strcat': self.put(S, R(0), None, self.strlen(S, R(1)), I, c + '()')
        elif c == 'strncat':
            v = self.strlen(S, R(1)); n = A[2] if isinstance(A[2], int) else None
            if n is None: v = (0, v[1]) if v[1] is not None and False else (0, None)
            else: v = (min(v[0], n), n if v[1] is None and False else (None if v[1] is None else min(v[1], n)))
            self.put(S, R(0), None, v, I, c + '()')
        elif c == 'strncpy':
            ts = R(0); n = A[2] if isinstance(A[2], int) else None
            if ts is not TOP and n is not None:
                for t in ts:
                    if t != 0 and t[-1] is not None and self.size(t) is not None:
                        self.site('string-overflow', I)
                        if t[-1] + n > self.size(t): self.viol('string-overflow', I, 'strncpy() writes %d bytes into %s, which has room for %d' % (n, self.name(t), self.size(t) - t[-1]))
            v = self.strlen(S, R(1)); self.kill(S, ts)
            if n is not None and v[1] is not None and v[1] < n and ts is not TOP and len(ts) == 1:
                t = next(iter(ts))
                if t != 0 and t[-1] == 0: S[self.key(t)] = v
        elif c in ('sprintf', 'snprintf'):
            fi = 1 if c == 'sprintf' else 2
            f = self.text(R(fi))
            v = self.fmtlen(fn, S, args, f, A[fi + 1:], I.x[1][fi + 1:]) if f is not None else UNK
            ts = R(0)
            if c == 'snprintf':
                n = A[1] if isinstance(A[1], int) else None
                if ts is not TOP:
                    for t in ts:
                        if t != 0 and self.size(t) is not None and n is not None and t[-1] is not None:
                            self.site('string-overflow', I)
                            room = self.size(t) - t[-1]
                            if n > room and (v[1] is None or v[1] + 1 > room):
                                self.viol('string-overflow', I, 'snprintf() is told that %s has %d bytes where there are %d' % (self.name(t), n, room)); n = max(room, 1)
                    if n is not None and len(ts) == 1 and next(iter(ts)) != 0:
                        t = next(iter(ts)); pv = self.fmtlen(fn, S, args, f, A[3:], I.x[1][3:], path=True) if f is not None else UNK
                        S[('cut',) + self.key(t)] = (1 if pv[1] is not None and pv[1] > n - 1 else 0, I.line)
                if n is None or n < 1: v = UNK
                else: v = (min(v[0], n - 1), n - 1 if v[1] is None else min(v[1], n - 1))
            self.put(S, ts, 0, v, I, c + '()')
        elif c.startswith('llvm.memset'):
            ts = R(0)
            if ts is TOP: return
            for t in ts:
                if t == 0: continue
                if A[1] == 0 and t[-1] == 0:
                    S[self.key(t)] = (0, 0)
                    full = isinstance(A[2], int) and self.size(t) is not None and A[2] >= self.size(t) or not isinstance(A[2], int)
                    if full: S[('zero',) + self.key(t)] = (1, 1)
                else: S[self.key(t)] = UNK
        elif c.startswith('llvm.mem'):
            ts = R(0); src = R(1); n = A[2]
            self.kill(S, ts)
            if ts is not TOP and src is not TOP and len(ts) == 1 and isinstance(n, int) and next(iter(ts)) != 0 and next(iter(ts))[-1] == 0:
                v = self.strlen(S, src)
                if v[1] is not None and v[1] < n: S[self.key(next(iter(ts)))] = v
        elif c in PATHARG:
            i = PATHARG[c]
            if i < len(A):
                ts = R(i)
                if ts is not TOP:
                    for t in ts:
                        if t == 0: continue
                        self.site('truncated-path', I)
                        cut = S.get(('cut',) + self.key(t))
                        if cut and cut[0] == 1: self.viol('truncated-path', I, 'the path given to %s() is built in %s, where snprintf() (line %d) may cut it off' % (c, self.name(t), cut[1]))
                        raw = S.get(('raw',) + self.key(t))
                        if raw and raw[0] == 1: self.viol('unterminated', I, '%s() is given %s, which readlink() (line %d) fills without a terminator' % (c, self.name(t), raw[1]))
            if c == 'readlink':
                ts = R(1)
                if ts is not TOP:
                    for t in ts:
                        if t == 0: continue
                        z = S.pop(('zero',) + self.key(t), None)
                        S[('raw',) + self.key(t)] = (0 if z else 1, I.line); S[self.key(t)] = UNK
        elif c in ('strlen', 'strcmp', 'strncmp', 'strerror', 'strchr', 'strstr', 'atoi', 'getenv', 'strtol'): pass
        else:
            F = self.M.functions.get(c)
            if F is not None and not F.decl:
                if not self.relevant(c): return
                a2 = tuple(R(i) if I.x[1][i] == 64 else TOP for i in range(len(A)))
                ex = self.run(c, a2, S)
                S.clear(); S.update(ex)
            elif not c.startswith('llvm.') and c not in PRINTF:
                for i in range(len(A)):
                    if I.x[1][i] == 64: self.kill(S, R(i)) if not self.const(R(i)) else None
    def const(self, ts): return ts is not TOP and all(t == 0 or (t[0] == 'g' and self.M.globals.get(t[1]) is not None and self.M.globals[t[1]].const) for t in ts)
    def text(self, ts):
        if ts is TOP or len(ts) != 1: return None
        t = next(iter(ts))
        if t == 0 or t[0] != 'g' or t[1] not in self.M.globals or not self.M.globals[t[1]].const: return None
        return ctext(self.M.globals[t[1]], t[-1])

    # ---------------------------------------------------------------- formats
    def formats(self):
        for F in self.M.functions.values():
            if F.decl: continue
            for b in F.blocks:
                for I in b:
                    if I.op != 'call': continue
                    c = I.x[0]; fi = None
                    if c[0] == 'f' and c[1] in PRINTF: fi = PRINTF[c[1]]
                    elif c[0] == 'r':
                        d = self.defs[F.name].get(c[1])
                        if d is not None and d.op == 'load' and isinstance(norm(d.a[0]), tuple) and norm(d.a[0])[0] == 'g' and 'debug_func' in norm(d.a[0])[1]: fi = 0
                    if fi is None or fi >= len(I.a): continue
                    ts = self.resolve(F.name, I.a[fi], None)
                    self.site('format', I)
                    if ts is TOP: continue
                    for t in ts:
                        if t == 0: continue
                        G = self.M.globals.get(t[1]) if t[0] == 'g' else None
                        if G is None or not G.const:
                            self.viol('format', I, 'the contents of %s are used as the format' % self.name(t)); continue
                        f = ctext(G, t[-1])
                        if f is None: continue
                        i = fi + 1
                        for p in parse(f):
                            if p[0] == 'lit': continue
                            i += ('*' in p[2]) + ('*' in (p[3] or ''))
                            if i >= len(I.a): self.viol('format', I, 'the format "%s" takes more arguments than the call gives' % f[:60]); break
                            if p[0] in 'sn' and I.x[1][i] != 64: self.viol('format', I, 'a %%%s of "%s" is given a %d-bit number' % (p[0], f[:60], I.x[1][i]))
                            i += 1

    def analyse(self):
        # buffers whose address is kept in memory are not tracked
        for F in self.M.functions.values():
            if F.decl: continue
            for b in F.blocks:
                for I in b:
                    if I.op == 'store' and I.x[1]:
                        ts = self.resolve(F.name, I.a[0], None)
                        if ts is not TOP:
                            for t in ts:
                                if t != 0: self.escaped.add(self.key(t))
        bufs = {('g', G.name): (0, 0) for G in self.M.globals.values() if not G.const and not G.decl and not G.init}
        roots = [F.name for F in self.M.functions.values() if not F.decl and self.relevant(F.name)]
        E = {}
        for rnd in range(400):
            self.memo = {}; new = dict(E)
            for fn in roots:
                S0 = {k: E.get(k, v) for k, v in bufs.items()}
                ex = self.run(fn, None, S0)
                for k in bufs:
                    v = ex.get(k, UNK)
                    if v != S0[k]: new[k] = join(new.get(k, bufs[k]), v)
            if new == E: break
            E = new
        self.memo = {}; self.emit = True
        for fn in roots: self.run(fn, None, {k: E.get(k, v) for k, v in bufs.items()})
        self.formats()
        self.rounds = rnd; self.roots = roots

class Result: pass

def analyse(M):
    """job entry: run the pass and present it like a driver"""
    from .kernel import Models
    e = EN.Engine(M, Models())
    s = Strings(M, e); s.analyse()
    r = Result(); r.eng = e; r.s = s
    r.stats = {'string functions': len(s.roots)}; r.samples = []
    e.paths = len(s.roots); e.instr = sum(len(b) for f in s.roots for b in M.functions[f].blocks)
    return r
