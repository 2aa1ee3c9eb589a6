"""Frontend: /repo's current sources -> one LLVM IR module per build configuration.

Everything is derived from the repository's own CMake build description (so a
source file added to the build is analysed too); nothing is written to /repo.
"""
import json, os, shlex, shutil, subprocess, tempfile, hashlib, re
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('KQSA_REPO', '/repo')
CLANG = 'clang'

class FrontendError(Exception):
    pass

CONFIGS = {
    # name: (build type, extra cmake args)
    'debug':         ('Debug',   []),
    'release':       ('Release', []),
    'debug-posix':   ('Debug',   ['-DHAVE_SYS_PIDFD_OPEN=0']),
    'release-posix': ('Release', ['-DHAVE_SYS_PIDFD_OPEN=0']),
}

def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise FrontendError('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout

def build_ir(config, workdir):
    """Return (path of linked+mem2reg'd .bc, info)"""
    btype, extra = CONFIGS[config]
    b = os.path.join(workdir, config)
    os.makedirs(b, exist_ok=True)
    _run(['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-DCMAKE_C_COMPILER=' + CLANG,
          '-DCMAKE_BUILD_TYPE=' + btype, '-DENABLE_TESTING=NO',
          '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'] + extra)
    cc = json.load(open(os.path.join(b, 'compile_commands.json')))
    seen, jobs = set(), []
    for e in cc:
        src = os.path.realpath(os.path.join(e['directory'], e['file']))
        if src in seen or not src.endswith('.c'):
            continue
        seen.add(src)
        args = shlex.split(e['command']) if 'command' in e else e['arguments']
        out, skip = [], False
        for a in args[1:]:
            if skip:
                skip = False; continue
            if a in ('-o', '-c', '-MF', '-MT', '-MQ'):
                skip = a != '-c'; continue
            if a.startswith('-O') or a in ('-MD', '-MMD') or os.path.realpath(os.path.join(e['directory'], a)) == src:
                continue
            out.append(a)
        o = os.path.join(b, 'ir_%s.bc' % hashlib.md5(src.encode()).hexdigest()[:10])
        jobs.append((src, e['directory'], [CLANG] + out + ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
                     '-g', '-gno-inline-line-tables', '-w', '-fno-unroll-loops', '-emit-llvm', '-c', src, '-o', o], o))
    if not jobs:
        raise FrontendError('no sources in compile_commands.json')
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: _run(j[2], cwd=j[1]), jobs))
    linked = os.path.join(b, 'all.bc')
    _run(['llvm-link', '-o', linked] + [j[3] for j in jobs])
    final = os.path.join(b, 'final.bc')
    _run(['opt', '-passes=mem2reg', linked, '-o', final])
    return final, dict(config=config, sources=[os.path.relpath(j[0], REPO) for j in jobs])
