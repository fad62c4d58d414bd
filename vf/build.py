"""Content-addressed builds of /repo's working tree (never reads /repo/_build).

Variants:
  rel    gcc -O2, asserts on (same flags as the project's debugoptimized build)
  asan   gcc -O1 + AddressSanitizer + UndefinedBehaviorSanitizer, VS_FRAME_GUARD off

Components: core, filters, pyext, vsscript, vspipe, harness (our test plugin / drivers)
Every output directory is named after a hash of all sources + flags, so a stale product
can never be used; object files go through ccache (content hashed) when it exists.
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get('VF_CACHE', os.path.join(VERIF, '.cache'))
VENV = '/opt/vp/venv'

CORE_SRC = ['cpufeatures', 'internalfilters', 'kernel/cpulevel', 'memoryuse', 'textfilter', 'vsapi', 'vscore', 'vslog', 'vsthreadpool']
FILT_SRC = ['audiofilters', 'audioresampling', 'averageframesfilter', 'boxblurfilter', 'coreplugins', 'cpufeatures', 'exprfilter',
            'expr/expr', 'expr/jitcompiler', 'genericfilters', 'kernel/cpulevel', 'kernel/generic', 'kernel/merge', 'kernel/planestats',
            'kernel/transpose', 'lutfilters', 'mergefilters', 'reorderfilters', 'simplefilters',
            'expr/jitcompiler_x86', 'kernel/x86/convolution_sse2', 'kernel/x86/generic_sse2', 'kernel/x86/merge_sse2',
            'kernel/x86/planestats_sse2', 'kernel/x86/transpose_sse2']
AVX2_SRC = ['kernel/x86/convolution_avx2', 'kernel/x86/generic_avx2', 'kernel/x86/merge_avx2', 'kernel/x86/planestats_avx2']
AVX512_SRC = ['kernel/x86/convolution_avx512', 'kernel/x86/generic_avx512', 'kernel/x86/lut_avx512', 'kernel/x86/merge_avx512']

DEFS = ['-D_FILE_OFFSET_BITS=64', '-fno-math-errno', '-D_CRT_SECURE_NO_WARNINGS', '-DNOMINMAX', '-DVS_GRAPH_API', '-DVS_USE_LATEST_API',
        '-DVSSCRIPT_USE_LATEST_API', '-DVS_TARGET_OS_LINUX', '-DHAVE_SCHED_GETAFFINITY', '-DVS_TARGET_CPU_X86', '-w', '-fPIC', '-pthread']
CXX = ['-std=c++20', '-fno-char8_t', '-fvisibility=hidden']
VARIANT_FLAGS = {
    'rel': ['-O2', '-g1'],
    'asan': ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer',
             '-fno-sanitize=alignment,vptr,float-cast-overflow,shift,signed-integer-overflow,nonnull-attribute'],
}
VARIANT_LINK = {'rel': [], 'asan': ['-fsanitize=address,undefined']}


def release_number():
    with open(REPO + '/VAPOURSYNTH_VERSION') as f:
        m = re.search(r'(\d+)', f.read().split()[2])
        return m.group(1)


def _hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()


def repo_sources():
    out = []
    for base in ('src', 'include'):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            for f in fs:
                if f.endswith(('.cpp', '.h', '.c', '.pyx', '.pxd', '.pxi', '.py', '.pyi', '.hpp', '.inc')):
                    out.append(os.path.join(d, f))
    out.append(REPO + '/VAPOURSYNTH_VERSION')
    return out


def verif_native_sources():
    return [p for p in glob.glob(VERIF + '/native/*') if os.path.isfile(p)]


def _ccache():
    return ['ccache'] if shutil.which('ccache') else []


def _env():
    e = dict(os.environ)
    e['PATH'] = VENV + '/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    e['CCACHE_DIR'] = os.path.join(CACHE, 'ccache')
    e['CCACHE_MAXSIZE'] = '3G'
    e['CCACHE_NOHASHDIR'] = '1'
    e['CCACHE_SLOPPINESS'] = 'time_macros'
    e.pop('LD_PRELOAD', None)
    return e


class BuildError(Exception):
    pass


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-6000:])
    return r.stdout


def _py_includes():
    return ['-I/usr/include/python3.12'] if os.path.exists('/usr/include/python3.12/Python.h') else \
        subprocess.check_output([VENV + '/bin/python3', '-c', "import sysconfig;print('-I'+sysconfig.get_paths()['include'])"], text=True).split()


def build(variant='rel', comps=('core', 'filters', 'pyext', 'harness'), verbose=False):
    """Build and return the site directory (contains the package 'vapoursynth')."""
    comps = sorted(set(comps))
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build_locked(variant, comps, verbose)


def _build_locked(variant, comps, verbose):
    t0 = time.time()
    tree = _hash_files(repo_sources())
    nat = _hash_files(verif_native_sources())
    key = hashlib.sha256(json.dumps([tree, variant, VARIANT_FLAGS[variant], VARIANT_LINK[variant], DEFS, CXX, release_number()]).encode()).hexdigest()[:16]
    out = os.path.join(CACHE, 'build', f'{variant}-{key}')
    site = os.path.join(out, 'site')
    pkg = os.path.join(site, 'vapoursynth')
    os.makedirs(pkg, exist_ok=True)
    os.utime(out)
    _prune(out)
    todo = []
    def need(c, stampkey=''):
        s = os.path.join(out, f'stamp.{c}')
        if os.path.exists(s) and open(s).read() == stampkey:
            return False
        todo.append((c, s, stampkey))
        return True
    flags = VARIANT_FLAGS[variant] + DEFS + ['-DVS_CURRENT_RELEASE=' + release_number()]
    inc = ['-I' + REPO + '/include']
    vi = {'core': 'core', 'filters': 'filters'}
    jobs = []   # (cmd) compile
    links = []  # (stage, cmd)
    obj = os.path.join(out, 'obj')
    os.makedirs(obj, exist_ok=True)
    cc = _ccache()

    def comp(src, tag, extra=(), cxx=True):
        o = os.path.join(obj, tag + '_' + re.sub(r'[^A-Za-z0-9]', '_', os.path.relpath(src, '/')) + '.o')
        jobs.append(cc + ['g++'] + CXX + flags + list(extra) + inc + ['-c', src, '-o', o])
        return o
    L = VARIANT_LINK[variant]
    rp = ['-Wl,-rpath,$ORIGIN']
    if 'core' in comps and need('core'):
        objs = [comp(f'{REPO}/src/core/{s}.cpp', 'core', ['-DVS_CORE_EXPORTS']) for s in CORE_SRC]
        objs.append(comp(VERIF + '/native/resize_left_out.cpp', 'core', ['-DVS_CORE_EXPORTS', '-I' + REPO + '/src/core']))
        links.append((1, ['g++', '-shared', '-o', pkg + '/libvapoursynth.so.4'] + objs + L + ['-Wl,-soname,libvapoursynth.so.4', '-pthread', '-ldl']))
        links.append((2, ['ln', '-sf', 'libvapoursynth.so.4', pkg + '/libvapoursynth.so']))
    if 'filters' in comps and need('filters'):
        objs = [comp(f'{REPO}/src/core/{s}.cpp', 'filt') for s in FILT_SRC]
        objs += [comp(f'{REPO}/src/core/{s}.cpp', 'avx2', ['-march=x86-64-v3']) for s in AVX2_SRC]
        objs += [comp(f'{REPO}/src/core/{s}.cpp', 'avx512', ['-march=x86-64-v4']) for s in AVX512_SRC]
        links.append((1, ['g++', '-shared', '-o', pkg + '/libvapoursynthfilters.so'] + objs + L + ['-pthread']))
    if 'pyext' in comps and need('pyext'):
        cpp = os.path.join(obj, 'vapoursynth_pyx.cpp')
        if not os.path.exists(cpp):
            pass
        def cy():
            _run([VENV + '/bin/cython', '-3', '--fast-fail', '--cplus', '-I', REPO + '/src/cython', REPO + '/src/cython/vapoursynth.pyx', '-o', cpp + '.tmp.cpp'])
            os.replace(cpp + '.tmp.cpp', cpp)
            o = os.path.join(obj, 'pyext.o')
            f = ['-O0', '-g0'] + [x for x in flags if not x.startswith(('-O', '-g', '-fsanitize', '-fno-sanitize'))]
            _run(cc + ['g++'] + [x for x in CXX] + f + ['-DPy_LIMITED_API=0x030c0000'] + inc + ['-I' + REPO, '-I' + REPO + '/src/cython', '-I' + REPO + '/src/common'] + _py_includes() + ['-c', cpp, '-o', o])
        jobs.insert(0, cy)
        ow = comp(REPO + '/src/common/wave.cpp', 'py')
        links.append((2, ['g++', '-shared', '-o', pkg + '/vapoursynth.abi3.so', os.path.join(obj, 'pyext.o'), ow] + L + rp + ['-L' + pkg, '-l:libvapoursynth.so.4']))
        for f in glob.glob(REPO + '/src/py/*.py*'):
            links.append((1, ['cp', f, pkg + '/']))
    if 'vsscript' in comps and need('vsscript'):
        o = comp(REPO + '/src/vsscript/vsscript.cpp', 'vsscript', ['-DPy_NO_LINK_LIB', '-DVS_CORE_EXPORTS'] + _py_includes())
        links.append((2, ['g++', '-shared', '-o', pkg + '/libvsscript.so', o] + L + ['-ldl', '-Wl,-soname,libvsscript.so', '-pthread']))
    if 'vspipe' in comps and need('vspipe'):
        objs = [comp(f'{REPO}/src/{s}.cpp', 'vspipe') for s in ('common/wave', 'vspipe/printgraph', 'vspipe/vsjson', 'vspipe/vspipe')]
        links.append((3, ['g++', '-o', pkg + '/vspipe'] + objs + L + rp + ['-L' + pkg, '-lvsscript', '-pthread']))
    if 'harness' in comps and need('harness', nat):
        for s in sorted(glob.glob(VERIF + '/native/*.cpp')):
            b = os.path.basename(s)[:-4]
            if b == 'resize_left_out':
                continue
            o = comp(s, 'har', ['-I' + REPO + '/src/core', '-I' + REPO + '/src/common'])
            if b == 'vfsched':
                links.append((3, ['g++', '-shared', '-o', f'{out}/lib{b}.so', o] + L + ['-ldl', '-pthread']))
                continue
            links.append((3, ['g++', '-shared', '-o', f'{out}/lib{b}.so', o] + L + ['-Wl,-rpath,$ORIGIN/site/vapoursynth', '-L' + pkg, '-l:libvapoursynth.so.4', '-pthread', '-ldl']))
    if not todo:
        return out

    def ex(j):
        if callable(j):
            j()
        else:
            _run(j)
    with concurrent.futures.ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 8)) as pool:
        for f in [pool.submit(ex, j) for j in jobs]:
            f.result()
    for stage in (1, 2, 3):
        for s, cmd in links:
            if s == stage:
                _run(cmd)
    for c, s, k in todo:
        with open(s, 'w') as f:
            f.write(k)
    if verbose:
        print(f'[build] {variant} {",".join(c for c, _, _ in todo)} {time.time()-t0:.1f}s -> {out}', file=sys.stderr, flush=True)
    return out


def _prune(keep, n=8):
    d = os.path.join(CACHE, 'build')
    ent = sorted((os.path.join(d, x) for x in os.listdir(d)), key=lambda p: -os.path.getmtime(p))
    for p in ent[n:]:
        if p != keep and os.path.realpath(p).startswith(os.path.realpath(d) + os.sep):
            shutil.rmtree(p, ignore_errors=True)


ALL = {'rel': ('core', 'filters', 'pyext', 'vsscript', 'vspipe', 'harness'), 'asan': ('core', 'filters', 'pyext', 'harness')}

if __name__ == '__main__':
    vs = sys.argv[1:] or ['rel']
    for v in vs:
        print(build(v, ALL[v], True))
