"""Which scenarios decide which property.

A job is (name, properties, tier, build) where build(module) interprets the library
and returns a Driver; a check runs every job that lists its property.
`alias` adds properties that a violation found by the job also contradicts: a job
that exists to establish property X (say, two directions of one descriptor) reports
whatever goes wrong in it under X too.
"""
import random
from .scenarios import *
from . import strings
SN = {USER: 'user', TIMER: 'timer', SIGNAL: 'signal', PROC: 'proc', VNODE: 'vnode', READ: 'read', WRITE: 'write'}
FP = {USER: 'C18', TIMER: 'C20', SIGNAL: 'C24', PROC: 'C19', VNODE: 'C22', READ: 'C27', WRITE: 'C27'}
FLN = {0: '0', EV_ONESHOT: 'oneshot', EV_DISPATCH: 'dispatch', EV_CLEAR: 'clear'}
CORE = ('C04', 'C29', 'C01', 'C02', 'C03', 'C23', 'C05', 'C06', 'C07', 'C09', 'C10', 'C11', 'C12', 'C17', 'C25')
MODES = (('socket', dict(mode=S_IFSOCK)), ('listen', dict(mode=S_IFSOCK, stype=1, listen=1)), ('dgram', dict(mode=S_IFSOCK, stype=2)), ('pipe', dict(mode=S_IFIFO)), ('file', dict(mode=S_IFREG)))

class Job:
    __slots__ = ('name', 'props', 'tier', 'build', 'alias', 'cost', 'wants_all')
    def __init__(self, name, props, build, tier='quick', alias=(), cost=2):
        self.name = name; self.props = tuple(props); self.build = build; self.tier = tier; self.alias = tuple(alias); self.cost = cost; self.wants_all = False

def table():
    J = []
    def job(name, props, build, **kw): J.append(Job(name, props, build, **kw))
    # one registration, every history of add / enable / disable / delete / trigger / wait
    for flt in (USER, TIMER, SIGNAL, PROC, VNODE):
        for fl in FLAGSETS:
            nm = '%s/%s' % (SN[flt], FLN[fl])
            job('life:' + nm, CORE + (FP[flt],), life(flt, fl, 0, 4), cost=3)
            job('life-receipts:' + nm, CORE + (FP[flt],), life(flt, fl, 0, 3 if flt == VNODE else 4, receipts=True), cost=6, tier='quick' if fl in (0, EV_ONESHOT) else 'thorough')
            job('life-faults:' + nm, CORE + (FP[flt],), life(flt, fl, 1, 2 if flt == VNODE else 3), cost=5)
            job('life-faults-deep:' + nm, CORE + (FP[flt],), life(flt, fl, 2 if flt != VNODE else 1, 3 if flt == VNODE else 4, tmax=400), tier='thorough', cost=60)
            job('life-deep:' + nm, CORE + (FP[flt],), life(flt, fl, 0, 7, tmax=400, receipts=True), tier='thorough', cost=60)
    for mn, mk in MODES:
        for fr in FLAGSETS:
            job('rw:%s/%s' % (mn, FLN[fr]), CORE + ('C08', 'C27'), rw(fr=fr, fw=fr, faults=0, depth=3, **mk), cost=3, alias=('C08',))
            job('rw-one:%s/%s' % (mn, FLN[fr]), CORE + ('C08', 'C27'), rw(fr=fr, fw=fr, faults=0, depth=3, nev=1, **mk), cost=3, alias=('C08',))
            job('rw-one-deep:%s/%s' % (mn, FLN[fr]), CORE + ('C08', 'C27'), rw(fr=fr, fw=fr, faults=1, depth=4, nev=1, tmax=300, **mk), cost=20, alias=('C08',), tier='thorough')
            job('rw-faults:%s/%s' % (mn, FLN[fr]), CORE + ('C08', 'C27'), rw(fr=fr, fw=fr, faults=1, depth=2, **mk), cost=3, alias=('C08',))
            for fw in FLAGSETS:
                job('rw-deep:%s/%s-%s' % (mn, FLN[fr], FLN[fw]), CORE + ('C08', 'C27'), rw(fr=fr, fw=fw, faults=0, depth=5, tmax=300, **mk), tier='thorough', cost=30, alias=('C08',))
            job('rw-faults-deep:%s/%s' % (mn, FLN[fr]), CORE + ('C08', 'C27'), rw(fr=fr, fw=fr, faults=1, depth=4, tmax=300, **mk), tier='thorough', cost=30, alias=('C08',))
    for fr, fw in ((0, EV_ONESHOT), (EV_DISPATCH, 0), (EV_ONESHOT, EV_CLEAR), (EV_CLEAR, EV_DISPATCH), (EV_ONESHOT, EV_DISPATCH)):
        job('rw-mixed:%s-%s' % (FLN[fr], FLN[fw]), CORE + ('C08', 'C27'), rw(S_IFSOCK, fr, fw, 0, 4), cost=6, alias=('C08',))
    job('rw-close:socket', CORE + ('C08',), rw(S_IFSOCK, 0, 0, 0, 4, close=True), cost=6)
    job('rw-close:oneshot', CORE + ('C08',), rw(S_IFSOCK, EV_ONESHOT, EV_DISPATCH, 0, 4, close=True), cost=6, tier='thorough')
    # calls failing while events are collected
    PO = {'eintr': True, 'ioctl_fail': True, 'waitid_zero': True, 'reaped': True}
    for flt in (USER, TIMER, SIGNAL, PROC, VNODE):
        for fl in (0, EV_ONESHOT, EV_DISPATCH):
            job('poll-faults:%s/%s' % (SN[flt], FLN[fl]), CORE + (FP[flt],), life(flt, fl, 0, 3, opt=dict(PO), pf=1), cost=3, tier='quick')
    for mn, mk in MODES:
        for fr in (0, EV_ONESHOT, EV_CLEAR):
            job('rw-poll-faults:%s/%s' % (mn, FLN[fr]), CORE + ('C08', 'C27'), rw(fr=fr, fw=fr, faults=0, depth=3, pf=1, popt=dict(PO), **mk), cost=3, alias=('C08',))
    ones = [1 << i for i in range(6)]; twos = [a | b for a in ones for b in ones if a < b]
    for i, part in enumerate((ones, twos[:8], twos[8:], [0x3f ^ a for a in ones])): job('vnode-sets:%d' % i, ('C22', 'C07', 'C06', 'C10', 'C09'), fflag_subsets(part), alias=('C22',), cost=3)
    job('vnode-resets', ('C22', 'C05', 'C10', 'C09'), fflag_subsets((1, 0x3f), [1, 2, 4, 8, 16, 32, 0x3f]), alias=('C22',), cost=3)
    job('proc-sets', ('C19', 'C07', 'C06', 'C05', 'C10', 'C09'), fflag_subsets((0, NOTE_EXIT, 0xf0000000), [0, NOTE_EXIT], flt=PROC), alias=('C19',), cost=3)
    job('proc-sets-faults', ('C11', 'C19', 'C07', 'C06', 'C05', 'C10', 'C09'), fflag_faults((0, NOTE_EXIT), [0, NOTE_EXIT], PROC), alias=('C19', 'C11'), cost=3)
    job('vnode-sets-faults', ('C11', 'C22', 'C05', 'C10', 'C09'), fflag_faults((1, 0x3f), [2, 0x3e], VNODE), alias=('C22', 'C11'), cost=3)
    rest = [f for f in range(1, 63) if f not in ones + twos and 0x3f ^ f not in ones]
    for i in range(4): job('vnode-sets-all:%d' % i, ('C22', 'C07', 'C06', 'C10', 'C09'), fflag_subsets(rest[i::4], ones), alias=('C22',), cost=8, tier='thorough')
    job('user-arith', ('C18', 'C17'), user_arith, alias=('C18',))
    job('timer-values', ('C20',), timer_values(), alias=('C20',))
    job('timer-consts', ('C20',), timer_values(True), cost=7, alias=('C20',))
    # several registrations
    two = lambda f: ((0, f, 'a'), (0, f, 'b'))
    MP = ('C14', 'C29', 'C04', 'C02', 'C03', 'C17', 'C05', 'C06', 'C07', 'C09', 'C10')
    for nm, keys, idf, kw in (
            ('user-const', two(USER), ids_const(a=5, b=5 + (1 << 32)), {}), ('user-sym', two(USER), ids_sym('a', 'b'), {}),
            ('timer-const', two(TIMER), ids_const(a=5, b=5 + (1 << 32)), {}), ('timer-sym', two(TIMER), ids_sym('a', 'b'), {}),
            ('signal', two(SIGNAL), ids_const(a=10, b=12), {}), ('proc', two(PROC), ids_const(a=100, b=200), {}),
            ('vnode', two(VNODE), ids_fd(S_IFREG, 'a', 'b'), dict(addff=2, depth=2)), ('read', two(READ), ids_fd(S_IFSOCK, 'a', 'b'), {}),
            ('user-timer', ((0, USER, 'a'), (0, TIMER, 'a')), ids_const(a=5), {}), ('signal-proc', ((0, SIGNAL, 'a'), (0, PROC, 'a')), ids_const(a=10), {}),
            ('two-queues-user', ((0, USER, 'a'), (1, USER, 'a')), ids_const(a=5), dict(nq=2)), ('two-queues-read', ((0, READ, 'a'), (1, READ, 'a')), ids_fd(S_IFSOCK, 'a'), dict(nq=2)),
            ('two-queues-proc', ((0, PROC, 'a'), (1, PROC, 'a')), ids_const(a=100), dict(nq=2)), ('two-queues-signal', ((0, SIGNAL, 'a'), (1, SIGNAL, 'a')), ids_const(a=10), dict(nq=2))):
        k = dict(kw); depth = k.pop('depth', 3)
        job('many:' + nm, MP, many(keys, idf, (0, EV_ONESHOT), 0, depth, **k), cost=4, alias=('C14',))
        job('many-deep:' + nm, MP, many(keys, idf, (0, EV_ONESHOT), 0, depth + 1, tmax=400, **k), cost=40, tier='thorough', alias=('C14',))
        job('many-deep2:' + nm, MP, many(keys, idf, (EV_DISPATCH, 0), 0, depth + 1, tmax=400, **k), cost=40, tier='thorough', alias=('C14',))
    for nm, flt, nk in (('user', USER, 7), ('read', READ, 7), ('timer', TIMER, 5), ('vnode', VNODE, 5)):
        for seed in range(5 if nk == 7 else 2): job('tree:%s/%d' % (nm, seed), MP, tree(flt, nk, 24, seed), alias=('C14',), cost=3)
        if nk == 7:
            orders = [random.Random(k).sample(range(7), 7) for k in range(48)]
            for i in range(4):
                job('tree-pairs:%s/%d' % (nm, i), ('C14', 'C10'), tree_pairs(flt, [(3, 1, 7, 5, 8, 6)] + orders[i:16:4]), alias=('C14',), cost=6)
                job('tree-triples:%s/%d' % (nm, i), ('C14', 'C10'), tree_pairs(flt, orders[16 + i::4], 3), alias=('C14',), cost=40, tier='thorough')
        for seed in (5, 6): job('tree:%s/%d' % (nm, seed), MP, tree(flt, 10, 80, seed), alias=('C14',), cost=3)
        for seed in range(7, 15): job('tree-long:%s/%d' % (nm, seed), MP, tree(flt, 14, 160, seed), alias=('C14',), cost=20, tier='thorough')
    for fl0, fn in ((0, 'none'), (EV_CLEAR, 'clear')):
        for flt in (USER, TIMER, SIGNAL, PROC, VNODE):
            if flt != TIMER or not fl0: job('reflag:%s/%s' % (SN[flt], fn), CORE + (('C20',) if flt == TIMER else ()), reflag(flt, 4, fl0=fl0), alias=(), cost=20 if flt == TIMER else 3)
            job('reflag-deep:%s/%s' % (SN[flt], fn), CORE, reflag(flt, 5 if flt == TIMER else 6, fl0=fl0, tmax=300), alias=(), cost=30, tier='thorough')
        for mn, mk in MODES:
            for flt in (READ, WRITE):
                job('reflag:%s-%s/%s' % (SN[flt], mn, fn), CORE, reflag(flt, 4, fl0=fl0, mode=mk['mode'], stype=mk.get('stype', 1)), alias=(), cost=3)
                job('reflag-deep:%s-%s/%s' % (SN[flt], mn, fn), CORE, reflag(flt, 6, fl0=fl0, mode=mk['mode'], stype=mk.get('stype', 1), tmax=300), alias=(), cost=30, tier='thorough')
    for flt in (USER, TIMER, SIGNAL, PROC, VNODE): job('sysflags:%s' % SN[flt], CORE, sysflags(flt, 3), alias=(), cost=3)
    for mn, mk in MODES:
        for flt in (READ, WRITE): job('sysflags:%s-%s' % (SN[flt], mn), CORE + ('C27', 'C08'), sysflags(flt, 3, mode=mk['mode'], stype=mk.get('stype', 1)), alias=(), cost=3)
    for flt in (USER, TIMER, SIGNAL, PROC, VNODE): job('combos:%s' % SN[flt], CORE, combos(flt, 3), alias=(), cost=3)
    for mn, mk in MODES:
        for flt in (READ, WRITE): job('combos:%s-%s' % (SN[flt], mn), CORE + ('C08',), combos(flt, 3, mode=mk['mode'], stype=mk.get('stype', 1)), alias=(), cost=3)
    # more ready than fits into the event list
    def mixed_ids(D, w): w.ghost['ids'] = {'a': D.userfd(w, mode=S_IFSOCK, stype=1, listen=0), 't': 5, 'g': 10, 'p': 100}
    for nm, keys, fls in (('rw-timer', ((0, READ, 'a'), (0, WRITE, 'a'), (0, TIMER, 't')), (0, 0, EV_ONESHOT)), ('rw-timer-clear', ((0, READ, 'a'), (0, WRITE, 'a'), (0, TIMER, 't')), (EV_CLEAR, EV_CLEAR, 0)),
                          ('rw-proc', ((0, READ, 'a'), (0, WRITE, 'a'), (0, PROC, 'p')), (0, 0, 0)), ('signal-timer', ((0, SIGNAL, 'g'), (0, TIMER, 't')), (EV_CLEAR, EV_ONESHOT))):
        for nv in (1, 2):
            job('full:%s/%d' % (nm, nv), MP, many(keys, mixed_ids, fls, 0, 4, maxfire=3, ops_=(EV_ADD,), nev=nv), cost=5, alias=())
            job('full-faults:%s/%d' % (nm, nv), MP, many(keys, mixed_ids, fls, 1, 4, maxfire=3, ops_=(EV_ADD,), nev=nv, tmax=300), cost=30, tier='thorough')
    for i in range(6):
        job('lists:%d' % i, ('C04', 'C05', 'C17', 'C21', 'C01', 'C10', 'C16'), lists(i, 6), cost=3)
        job('lists3:%d' % i, ('C04', 'C05', 'C17', 'C21', 'C01', 'C10', 'C16'), lists(i, 6, True), cost=30, tier='thorough')
    for fl in (0, EV_CLEAR, EV_DISPATCH, EV_ONESHOT):
        job('queued:signal/%d' % fl, ('C24', 'C29', 'C10'), queued(SIGNAL, fl), alias=('C24', 'C29'))
        job('queued:vnode/%d' % fl, ('C22', 'C29', 'C10'), queued(VNODE, fl, 0x2f), cost=3, alias=('C22', 'C29'))
    job('args-filters', ('C16', 'C05', 'C10', 'C01', 'C25'), args_filters, alias=('C16',))
    for flt in (USER, TIMER, SIGNAL, PROC, VNODE): job('filter-ops:' + SN[flt], ('C16',), life(flt, 0, 0, 3), alias=('C16',), cost=3)
    for mn, mk in MODES: job('filter-ops:rw/' + mn, ('C16',), rw(fr=0, fw=0, faults=0, depth=3, **mk), alias=('C16',), cost=3)
    job('args-types', ('C05', 'C09', 'C10', 'C11', 'C01', 'C25'), args_types, cost=2)
    for mn, mk in (('char', dict(mode=0o020000)), ('anon', dict(mode=0)), ('raw', dict(mode=S_IFSOCK, stype=3)), ('rdm', dict(mode=S_IFSOCK, stype=4)), ('seqpacket', dict(mode=S_IFSOCK, stype=5))):
        for fr in (0, EV_ONESHOT): job('rw-type:%s/%s' % (mn, FLN[fr]), CORE + ('C08', 'C27'), rw(fr=fr, fw=0, faults=0, depth=3, **mk), cost=3, alias=('C08',))
    job('args-kqfd', ('C15', 'C10', 'C01', 'C25'), args_kqfd, alias=('C15',))
    job('args-sizes', ('C04', 'C05', 'C10', 'C21'), args_sizes)
    job('timeouts', ('C21', 'C05', 'C04', 'C01', 'C10', 'C25'), timeouts, alias=('C21',))
    job('cancels', ('C01', 'C02', 'C03', 'C23', 'C09', 'C10', 'C15', 'C29', 'C06'), cancels, alias=('C01',))
    job('spurious', ('C15', 'C01', 'C03', 'C09'), spurious, alias=('C15',))
    job('config:2', ('C30', 'C05', 'C01', 'C10', 'C09', 'C17', 'C16'), config_filter(2), cost=4)
    job('config:3', ('C30', 'C05', 'C01', 'C10', 'C09', 'C17', 'C16'), config_filter(3), cost=30, tier='thorough')
    UP = ('C01', 'C03', 'C05', 'C07', 'C09', 'C10', 'C30')
    for flt in (USER, TIMER, SIGNAL, PROC, VNODE): job('unsafe-life:' + SN[flt], UP, unsafe(life(flt, EV_ONESHOT, 0, 3, receipts=flt != VNODE)), cost=3)
    job('unsafe-rw', UP + ('C08',), unsafe(rw(S_IFSOCK, 0, EV_ONESHOT, 0, 3)), cost=3)
    job('unsafe-lists', UP + ('C04', 'C21'), unsafe(lists(0, 6)), cost=3)
    job('unsafe-timeouts', ('C01', 'C03', 'C21', 'C30'), unsafe(timeouts), cost=3)
    job('unsafe-cancels', ('C01', 'C03', 'C09', 'C30'), unsafe(cancels), cost=3)
    job('unsafe-kqfd', ('C01', 'C15', 'C30', 'C10'), unsafe(args_kqfd), cost=3, alias=('C15',))
    for flt in (USER, TIMER, SIGNAL, PROC, VNODE): job('traced-life:' + SN[flt], ('C25', 'C01', 'C05', 'C10'), traced(life(flt, EV_ONESHOT, 1, 3)), cost=6, alias=('C25',))
    job('traced-rw', ('C25', 'C01', 'C05', 'C10'), traced(rw(S_IFSOCK, 0, EV_ONESHOT, 1, 3)), cost=6, alias=('C25',))
    job('traced-file', ('C25', 'C01', 'C05', 'C10'), traced(rw(S_IFREG, 0, EV_ONESHOT, 1, 3)), cost=6, alias=('C25',))
    job('traced-lists', ('C25', 'C01', 'C05', 'C10', 'C04'), traced(lists(0, 6)), cost=6, alias=('C25',))
    job('traced-timeouts', ('C25', 'C01', 'C21'), traced(timeouts), cost=6, alias=('C25',))
    job('traced-cancels', ('C25', 'C01', 'C03', 'C09'), traced(cancels), cost=6, alias=('C25',))
    # kqueue() and queue life cycles
    LP = ('C15', 'C02', 'C03', 'C23', 'C09', 'C10', 'C11', 'C01', 'C12', 'C25')
    for ex in (0, 1, 2):
        job('kqueue-faults:%d' % ex, LP, kq_faults(1, ex), alias=('C15',))
        job('kqueue-faults2:%d' % ex, LP, kq_faults(2, ex), alias=('C15',), tier='thorough', cost=10)
        if ex < 2: job('kqueue-limit:%d' % ex, LP, raised_limit(ex == 1, None), alias=('C15',))
    ALLK = (USER, TIMER, SIGNAL, PROC, READ, WRITE)
    for kn, kinds in (('none', ()), ('all', ALLK + (VNODE,))):
        for nq in (1, 2): job('stray:%d/%s' % (nq, kn), LP, stray(kinds, nq), alias=('C15',), cost=2)
        job('shared:' + kn, LP, shared(kinds), alias=('C15',), cost=2)
    job('stale', LP, stale, alias=('C15',), cost=3)
    for nq in (1, 2):
        for order in ('settle', 'reuse'):
            for kn, kinds in (('none', ()), ('user', (USER,)), ('timer', (TIMER,)), ('signal', (SIGNAL,)), ('proc', (PROC,)), ('rw', (READ, WRITE)), ('vnode', (VNODE,)), ('all', ALLK)):
                job('queue:%d/%s/%s' % (nq, order, kn), LP, lifecycle(kinds, nq, order), alias=('C15',), cost=1)
            job('queue-disabled:%d/%s' % (nq, order), LP, lifecycle(ALLK + (VNODE,), nq, order, True), alias=('C15',), cost=1)
            job('queue-userclose:%d/%s' % (nq, order), LP, lifecycle((READ, WRITE, VNODE), nq, order, False, True), alias=('C15',), cost=1)
    FP_ = ('C13', 'C02', 'C03', 'C01', 'C10', 'C15')
    for nq in (1, 2):
        for kn, kinds in (('none', ()), ('all', ALLK + (VNODE,))):
            job('fork:%d/%s' % (nq, kn), FP_, forking(kinds, nq), alias=('C13',), cost=3)
            job('fork-busy:%d/%s' % (nq, kn), FP_, forking(kinds, nq, other=True), alias=('C13',), cost=3)
            job('fork-off:%d/%s' % (nq, kn), FP_, forking(kinds, nq, cleanup=False), alias=('C13',), cost=3)
            job('fork-flip:%d/%s' % (nq, kn), FP_, forking(kinds, nq, flip=True), alias=('C13',), cost=3)
            job('fork-flip-on:%d/%s' % (nq, kn), FP_, forking(kinds, nq, cleanup=False, flip=True), alias=('C13',), cost=3)
            for pd in ('closed', 'reused', 'held', 'kept'): job('fork-%s:%d/%s' % (pd, nq, kn), FP_, forking(kinds, nq, pend=pd), alias=('C13',), cost=3)
            XP = ('C03', 'C02', 'C01', 'C10', 'C15', 'C09')
            for other in (False, True):
                job('exit:%d/%s/%s' % (nq, kn, 'busy' if other else 'idle'), XP, exiting(kinds, nq, other=other), alias=('C03',))
                job('exit-closing:%d/%s/%s' % (nq, kn, 'busy' if other else 'idle'), XP, exiting(kinds, nq, (0,), other, False), alias=('C03',))
                job('exit-closed:%d/%s/%s' % (nq, kn, 'busy' if other else 'idle'), XP, exiting(kinds, nq, (0,), other, True), alias=('C03',))
    job('strings', ('C10', 'C25'), strings.analyse, cost=1, alias=('C10',))
    # the same analyses on the release build: whatever breaks there and not in the debug build is a difference between the two
    for j in list(J):
        if j.name.split(':')[0] in ('life', 'life-faults', 'rw', 'rw-faults', 'rw-close', 'user-arith', 'timer-values', 'many', 'lists', 'args-filters', 'args-kqfd', 'args-sizes', 'timeouts', 'cancels',
                                    'kqueue-faults', 'queue', 'queue-disabled', 'fork', 'exit', 'exit-closing', 'strings') and (j.tier == 'quick'):
            j.props = tuple(j.props) + (('C25',) if 'C25' not in j.props else ()); r = Job('release:' + j.name, ('C25',), (lambda b: lambda M: b(M['release']))(j.build), 'quick', ('C25',), j.cost); r.wants_all = True; J.append(r)
        if j.tier == 'thorough' and j.name.split(':')[0] in ('life-deep', 'life-faults-deep', 'rw-deep', 'rw-faults-deep', 'lists3', 'many-deep'):
            j.props = tuple(j.props) + (('C25',) if 'C25' not in j.props else ()); r = Job('release:' + j.name, ('C25',), (lambda b: lambda M: b(M['release']))(j.build), 'thorough', ('C25',), j.cost); r.wants_all = True; J.append(r)
    job('exit:0', ('C03', 'C01'), exiting((), 0), alias=('C03',))
    return J

ASSUME = ['The model of the system calls the library makes (kqsa/kernel.py) over-approximates Linux as documented in the manual pages.',
          'The LLVM IR clang emits for the repository\'s own CMake build (Debug, x86-64 Linux, mem2reg only) represents the program.',
          'Histories are those of the stated client scenarios; within them arguments, kernel answers and failing calls are abstract.']
RULES = {
 'C01': 'at every mutex operation, condition wait, cancellation point, return and thread exit: holder, recursion and cancel state balanced; handlers of a cancelled call leave nothing held',
 'C02': 'two accesses to overlapping bytes of published memory, one a write, by roles that can run concurrently, share a lock (lock-set) or are ordered by thread creation/hand-over/join',
 'C03': 'the merged lock-order graph is acyclic; no unbounded wait under a global lock; no reachable state of the explored thread schedules in which every thread is blocked',
 'C04': 'no store outside the nevents entries, no read outside the nchanges entries; the first n entries of a returned n were completely written by this call; receipts and errors obey their order and room',
 'C05': 'per change: applied, or exactly one EV_ERROR entry with a non-zero errno, or -1 without room; after a failure registration and kernel state equal those before',
 'C06': 'delivery of a one-shot registration removes it and releases its resources; delivery of a dispatch registration disables it; nothing else does',
 'C07': 'after every call the kernel object of a disabled or absent registration is disarmed and that of an enabled one is armed with the requested interest',
 'C08': 'the epoll set of a descriptor equals the union of its enabled directions, an event bit is delivered to its own direction only, removing one direction keeps the other',
 'C09': 'everything the library owns is reachable from its roots after each call; an empty queue holds what a fresh one holds; nothing of a closed queue remains',
 'C10': 'every load, store, free, indirect call, mutex pointer and kernel data pointer refers to live memory within bounds; no decision depends on never-written memory; string buffers have room, are terminated, not cut off, and formats fit their arguments',
 'C11': 'close() hits a descriptor the library opened and still owns, with the numbers of closed descriptors reused adversarially',
 'C12': 'every descriptor the library holds at the end of a call is close-on-exec',
 'C13': 'fork handlers: locks usable in parent and child, inherited queues closed exactly once in the child with async-signal-safe calls, parent unchanged, library usable in the child',
 'C14': 'a change or event affects exactly the registration with its filter and full ident',
 'C15': 'only descriptors of live queues are accepted; close, reuse, failing creation and re-creation release each queue exactly once and leave new ones intact',
 'C16': 'filters out of range fail with EINVAL and unsupported ones with ENOSYS without side effect; every supported filter works through its own operations',
 'C17': 'ident, filter and udata of every event equal the registration\'s latest as symbols; the change list is left unchanged',
 'C18': 'stored user flags equal the specified combination for every operand; triggers are reported once and cleared as specified',
 'C19': 'no wait call without WNOWAIT/that reaps; NOTE_EXIT event carries the status the kernel gave',
 'C20': 'the itimerspec given to the kernel is term-equal to the requested time in its unit, absolute and one-shot flags included',
 'C21': 'the timeout given to the wait primitive is term-equal to the caller\'s, NULL waits without bound, zero polls, a negative one is refused',
 'C22': 'the inotify mask equals the requested kinds; reported fflags are a subset of the request and contain every requested change that occurred',
 'C23': 'library threads are created with all signals blocked and never unblock one; the caller\'s mask changes only by registered signals',
 'C24': 'the signalfd watches exactly the registered signal; data counts what was read',
 'C25': 'no violation appears in the release IR that the debug IR does not have; no reachable false assertion; no effect inside an assertion or trace statement',
 'C27': 'data is term-equal to what the kernel answered for that source in that call',
 'C29': 'each readiness taken from epoll_wait is returned in that call or still deliverable afterwards',
 'C30': 'a query returns the current setting, a setting reads back and takes effect, a refused one changes nothing',
}
EXPLAIN = {p: 'abstract paths of the API calls of the listed analyses (client scenarios, kqsa/jobs.py) through the IR built from the current sources; obligations counts rule instances met on them' for p in RULES}
TECH0 = 'path-sensitive typestate dataflow over LLVM IR (abstract resource handles, widening, most-general-client fixpoint)'
TECH = {'C02': 'lock-set analysis over field-sensitive access facts from path-sensitive dataflow of LLVM IR',
        'C03': 'lock-order graph plus exploration of abstract thread schedules over path-sensitive dataflow of LLVM IR',
        'C25': 'differential path-sensitive typestate dataflow over the debug and release LLVM IR',
        'C10': 'path-sensitive typestate dataflow over LLVM IR plus a context-sensitive string-length interval dataflow'}
NOTE0 = ('Static: no code of the library runs. Every path of the analysed API calls, with abstract arguments, kernel answers and failing calls, is checked for every client history up to the stated depth '
         '(quick: 2-4 operations, thorough: up to 7). Trusts the system-call model and clang\'s IR of the Linux/x86-64 build.')
NOTE = {}
NA = {'C26': 'liveness under every interleaving of waiters: no sound static argument in reach bounds "eventually"; the safety half (event sources stay armed) is decided under C07/C08',
      'C28': 'the Solaris, Windows and generic back ends cannot be compiled or type-checked here (their system headers are absent), so their IR cannot be analysed'}
