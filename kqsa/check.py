"""check.py Cxx [--tier quick|thorough]: decide one property on /repo's current source.

exit 0: no violation found; 1: VIOLATION line(s) printed; 2: the analysis itself broke down.
"""
import sys, os, time, json, argparse, tempfile, shutil, traceback, signal, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
from kqsa import frontend, ir, conc, explore
from kqsa.scen import Dead

MODULES = {}
JOBS = []
CONC = ('C02', 'C03', 'C13', 'C23')   # decided from the facts conc.py gathers
def run_job(i):
    j = JOBS[i]; t = time.time()
    r = dict(i=i, name=j.name, err=None, viols=[], obl={}, sites=set(), funcs=set(), blocks=0, paths=0, instr=0, incomplete={}, unknown={}, stats={}, samples=[])
    try:
        try: D = j.build(MODULES) if getattr(j, 'wants_all', False) else j.build(MODULES['debug'])
        except Dead as x: D = x.D
        e = D.eng
        r['viols'] = list(e.viols.values())
        r['obl'] = dict(e.obl); r['sites'] = {str(s) for s in e.sites}; r['funcs'] = set(e.cov_funcs); r['blocks'] = set(e.cov_blocks)
        r['paths'] = e.paths; r['instr'] = e.instr; r['incomplete'] = dict(e.incomplete); r['unknown'] = {k: n for k, n in e.ext_calls.items() if k in getattr(e, 'unknown_ext', ())}
        if getattr(e, 'conc', None): r['conc'] = e.conc.facts()
        r['stats'] = dict(getattr(D, 'stats', {}) or {}); r['samples'] = list(getattr(D, 'samples', []))[:3]
    except Exception:
        r['err'] = traceback.format_exc()[-1500:]
    r['t'] = time.time() - t
    return r

def known():
    """(property, rule, where-substring) of committed findings; 'fixed:' lines suppress nothing"""
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l.startswith('known:'): continue
            kv = l[6:].strip().split(' | ')
            d = dict(x.split('=', 1) for x in kv if '=' in x)
            out.append(d)
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=0); ap.add_argument('--only', default='')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    from kqsa import jobs as jobtab
    P = a.prop; t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    limit = 780 if a.tier == 'quick' else 4 * 3600
    ev = os.path.join(ROOT, 'evidence'); os.makedirs(ev, exist_ok=True)
    work = tempfile.mkdtemp(prefix='kqsa-')
    try:
        need = {'debug'}
        global JOBS
        JOBS = [j for j in jobtab.table() if (P in j.props or P in j.alias) and (j.tier == 'quick' or a.tier == 'thorough') and a.only in j.name]
        if any(getattr(j, 'wants_all', False) for j in JOBS): need.add('release')
        infos = {}
        for c in sorted(need):
            bc, infos[c] = frontend.build_ir(c, work)
            MODULES[c] = ir.load(bc)
        if not JOBS: raise RuntimeError('no analysis registered for ' + P)
        JOBS.sort(key=lambda j: -j.cost)
        n = a.jobs or min(16, os.cpu_count() or 4)
        if P in CONC: explore.Driver.instrument = staticmethod(conc.attach)
        results = []; late = []
        pool = mp.get_context('fork').Pool(n, maxtasksperchild=1)
        pend = [(j, pool.apply_async(run_job, (i,))) for i, j in enumerate(JOBS)]
        pool.close()
        for j, h in pend:
            try: results.append(h.get(max(0.01, limit - (time.time() - t0))))
            except mp.TimeoutError: late.append(j.name)
        pool.terminate()
        return report(P, a, seed, t0, results, late, infos, ev)
    except frontend.FrontendError as e:
        print('ANALYSIS-ERROR: the sources could not be translated: %s' % e); return 2
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)

def report(P, a, seed, t0, results, late, infos, ev):
    from kqsa import jobs as jobtab
    errs = [(r['name'], r['err']) for r in results if r['err']]
    viols = {}; other = 0
    debugv = {}
    if P == 'C25':
        for r in results:
            if not r['name'].startswith('release:'): debugv[r['name']] = {(v['property'], v['rule']) for v in r['viols']}
    for r in results:
        j = JOBS[r['i']]
        if P == 'C25' and r['name'].startswith('release:'):     # only what the debug build does not do as well
            both = debugv.get(r['name'][8:], ())
            r['viols'] = [v for v in r['viols'] if (v['property'], v['rule']) not in both]
            for v in r['viols']: v['message'] = 'in the release build only: ' + v['message']
        for v in r['viols']:
            if v['property'] != P and P not in j.alias: other += 1; continue
            if v['property'] != P and v['rule'] in ('budget',): continue
            k = (v['rule'], v['where'], v['message'][:80] if v['where'] == '?' else '')
            if k not in viols or len(v['history']) < len(viols[k][0]['history']): viols[k] = (v, r['name'])
    cv, cn, cinfo = conc.judge(P, [r['conc'] for r in results if r.get('conc')], viols)
    for v in cv: viols[(v['rule'], v['where'], v['message'][:80])] = (v, 'merged facts of all analyses')
    kn = known(); news = []; found = []
    def listed(d, v): return d.get('rule') == v['rule'] and d.get('where', '') in (v['where'] or '') and d.get('what', '') in v['message']
    for k, (v, jn) in sorted(viols.items(), key=lambda x: (len(x[1][0]['history']), str(x[0]))):
        if v['property'] != P and any(d.get('property') == v['property'] and listed(d, v) for d in kn): other += 1; continue     # reported under its own property
        for d in kn:
            if d.get('property') == P and listed(d, v):
                found.append((d, v)); break
        else: news.append((v, jn))
    obl = {}; sites = set(); funcs = set(); blocks = set(); paths = instr = worlds = ops = 0; inc = {}; unk = {}; samples = []
    for r in results:
        for k, n in r['obl'].items():
            obl[k] = obl.get(k, 0) + n
        sites |= r['sites']; funcs |= r['funcs']; blocks |= r['blocks'] or set(); paths += r['paths']; instr += r['instr']
        worlds += r['stats'].get('worlds', 0); ops += r['stats'].get('ops', 0)
        for k, n in r['incomplete'].items(): inc[k] = inc.get(k, 0) + n
        for k, n in r['unknown'].items(): unk[k] = unk.get(k, 0) + (n if type(n) is int else 1)
        samples += r['samples']
    mine = {k: n for k, n in obl.items() if str(k).startswith(P)} or obl
    cov = dict(explanation=jobtab.EXPLAIN.get(P, '') or 'see DESIGN.md', rule=jobtab.RULES.get(P, ''),
               analyses=len(results), analysed_functions=len(funcs), functions=sorted(funcs), basic_blocks=len(blocks), abstract_paths=paths, ir_instructions_interpreted=instr,
               abstract_worlds=worlds, client_operations=ops, obligations_checked=sum(mine.values()) if mine else 0, obligations={str(k): n for k, n in sorted(mine.items(), key=str)},
               sites=len(sites), not_finished=sorted(late), cut_short={str(k): n for k, n in inc.items()}, unmodelled_external_calls={str(k): n for k, n in unk.items()},
               all_analyses_completed=not late and not inc, build={c: i['sources'] for c, i in infos.items()},
               samples=samples[:5] or [r['name'] for r in sorted(results, key=lambda r: -r['paths'])[:5]],
               violations_of_other_properties_seen=other, known_findings=sorted({d.get('what', d.get('rule')) for d, v in found}),
               slowest=[(r['name'], round(r['t'], 2)) for r in sorted(results, key=lambda r: -r['t'])[:5]])
    if P in CONC: cov['concurrency'] = dict(cinfo, pairs_or_edges=cn)
    out = dict(property=P, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level='other', coverage=cov, assumptions=jobtab.ASSUME, wall_s=round(time.time() - t0, 2), violations=len(news))
    json.dump(out, open(os.path.join(ev, P + '.json'), 'w'), indent=1, default=str)
    for d, v in {id(d): (d, v) for d, v in found}.values(): print('KNOWN-FINDING: property=%s %s' % (P, d.get('text', v['message'])[:300]))
    rc = 0
    if news:
        rp = os.path.join(ev, '%s.violation.txt' % P)
        with open(rp, 'w') as f:
            for v, jn in news:
                f.write('rule %s (analysis %s)\n at %s in %s\n %s\n call path: %s\n history: %s\n notes: %s\n\n' % (v['rule'], jn, v['where'], v.get('function'), v['message'],
                        ' > '.join(map(str, v['stack'] or v.get('path', ()))), ' ; '.join(map(str, v['history'])), v.get('notes')))
        for v, jn in news[:8]:
            print('VIOLATION property=%s replay=%s' % (P, rp))
            print('  %s at %s (%s): %s' % (v['rule'], v['where'], v.get('function'), v['message'][:600]))
        rc = 1
    for n, e in errs[:3]: print('ANALYSIS-ERROR in %s: %s' % (n, e.strip().splitlines()[-1])); sys.stderr.write(e[-600:])
    if late: print('note: %d analyses did not finish in time: %s' % (len(late), ', '.join(late[:6])))
    if not rc and errs: rc = 2
    if not rc and not sum(mine.values() if mine else [0]) : print('ANALYSIS-ERROR: nothing was checked'); rc = 2
    print('%s %s: %d analyses, %d obligations, %d functions, %d paths, %.1f s' % (P, 'VIOLATED' if rc == 1 else 'ok' if rc == 0 else 'ERROR', len(results), cov['obligations_checked'], len(funcs), paths, time.time() - t0))
    return rc
if __name__ == '__main__':
    sys.exit(main())
