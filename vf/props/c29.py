"""C29 plugin registry: histories of loading generated plugin files into several cores against a registry model."""
import ctypes as C, os, re, shutil, tempfile
from hypothesis import strategies as st
from vf.core import Sub, check, Violation
from vf import capi
from vf.capi import api, cstr

IDS = ['com.a', 'com.b', 'org.x.y', 'com.vapoursynth.std', 'com.A', 'z']
NSS = ['aa', 'bb', 'x1', 'std', 'resize', 'AA']
NAMES = ['Foo', 'Bar', 'foo', 'x9_y', 'Z', 'FooBar', 'Foo2', 'Foo_', 'Foo_x', 'F', 'Fo', 'ZZ']
BADNAMES = ['', '9x', 'a-b', 'a b', 'é', 'a.b', '_x', '_']
ARGS = ['', 'clip:vnode', 'a:int;b:float[]:opt;c:data[]:opt:empty;', 'x:any', 'any', 'f:func;an:anode;fr:vframe;af:aframe', 'a:int:opt:opt', 'a:int:empty', 'a', 'a:inte', '9:int', 'a:int[', 'a:int;;b:int', 'a:int:', ':int', 'a:int[]:empty']
BADARGS = {'x:any', 'a:int:opt:opt', 'a:int:empty', 'a', 'a:inte', '9:int', 'a:int[', ':int'}
API = [(4 << 16) | 2, (4 << 16) | 1, 4 << 16, 4]
BADAPI = [(4 << 16) | 3, (5 << 16), 5, 2, (4 << 16) | 0xFFFF, 0]
_n = [0]


def scratch():
    d = os.path.join(os.environ['HOME'], f'plug{os.getpid()}_{_n[0]}')
    _n[0] += 1
    os.makedirs(d)
    return d


class Core:
    def __init__(self):
        A = self.A = api()
        self.core = A.createCore(2)
        self.log = []
        self.h = capi.LOGHANDLER(lambda t, m, u: self.log.append((t, cstr(m).decode('utf-8', 'replace'))))
        A.addLogHandler(C.cast(self.h, C.c_void_p), None, None, self.core)
        self.base = self.enumerate()
        self.model = dict(self.base)
        check({'com.vapoursynth.std', 'com.vapoursynth.resize', 'com.vapoursynth.text'} <= set(self.base), 'built-in plugins', list(self.base))

    def enumerate(self):
        A = self.A
        out = {}
        p = A.getNextPlugin(None, self.core)
        while p:
            i = cstr(A.getPluginID(p)).decode()
            check(i not in out, 'plugin enumerated twice', i)
            fs = {}
            f = A.getNextPluginFunction(None, p)
            while f:
                n = cstr(A.getPluginFunctionName(f)).decode()
                check(n not in fs, 'function enumerated twice', i, n)
                check(A.getPluginFunctionByName(n.encode(), p) == f, 'function lookup', i, n)
                fs[n] = (cstr(A.getPluginFunctionArguments(f)).decode(), cstr(A.getPluginFunctionReturnType(f)).decode())
                f = A.getNextPluginFunction(f, p)
            out[i] = dict(ns=cstr(A.getPluginNamespace(p)).decode(), name=cstr(A.getPluginName(p)).decode(), version=A.getPluginVersion(p), funcs=fs, ptr=p)
            check(A.getPluginByID(i.encode(), self.core) == p, 'lookup by id', i)
            p = A.getNextPlugin(p, self.core)
        return out

    def verify(self, what):
        A = self.A
        got = self.enumerate()
        check(set(got) == set(self.model), what, 'plugins', sorted(set(got) ^ set(self.model)), 'differ')
        for i, m in self.model.items():
            g = got[i]
            for k in ('ns', 'name', 'version', 'funcs'):
                check(g[k] == m[k], what, i, k, g[k], 'want', m[k])
        ns = [m['ns'] for m in got.values()]
        check(len(set(ns)) == len(ns), what, 'namespaces not unique', sorted(ns))
        for m in got.values():
            check(A.getPluginByNamespace(m['ns'].encode(), self.core) == m['ptr'], what, 'lookup by namespace', m['ns'])
        for i in IDS + ['nope', '']:
            if i not in got:
                check(not A.getPluginByID(i.encode(), self.core), what, 'found unknown id', i)
        for n in NSS + ['nope', '']:
            if n not in ns:
                check(not A.getPluginByNamespace(n.encode(), self.core), what, 'found unknown namespace', n)

    def invoke(self, ns, fn, **kw):
        A = self.A
        m = A.createMap()
        for k, v in kw.items():
            if isinstance(v, int):
                A.mapSetInt(m, k.encode(), v, 0)
            else:
                A.mapSetData(m, k.encode(), v, len(v), -1, 0)
        r = A.invoke(A.getPluginByNamespace(ns, self.core), fn, m)
        A.freeMap(m)
        e = cstr(A.mapGetError(r))
        out = {}
        if e is None:
            for i in range(A.mapNumKeys(r)):
                k = cstr(A.mapGetKey(r, i))
                out[k.decode()] = A.mapGetInt(r, k, 0, None)
        A.freeMap(r)
        return e, out


def normal(args):
    """An argument string is reported as registered (docs)."""
    return args


def outcome(spec, log):
    """What the init function managed to do: (config ok?, funcs)."""
    return None


@st.composite
def s_spec(draw):
    good = draw(st.integers(0, 9)) < 8
    funcs = draw(st.lists(st.tuples(st.sampled_from(NAMES + NAMES + BADNAMES), st.sampled_from(ARGS + ARGS[:7] * 2), st.sampled_from(['', 'any', 'clip:vnode;', 'tag:int;args:int;', 'tag:int']), st.integers(1, 999)).map(list), max_size=5))
    return dict(id=draw(st.sampled_from(IDS)), ns=draw(st.sampled_from(NSS)), name=draw(st.sampled_from(['A plugin', 'x', 'ünï'])), ver=draw(st.integers(0, 2**31 - 1)),
                api=draw(st.sampled_from(API if good else BADAPI)), mod=draw(st.booleans()), funcs=funcs, config=draw(st.integers(0, 19)) != 7)


@st.composite
def s_history(draw):
    files = draw(st.lists(s_spec(), min_size=1, max_size=5))
    k = st.integers(0, len(files) - 1)
    core = st.integers(0, 1)
    bad = st.sampled_from(['', '/', '.', 'nofile.so', 'text.so', 'empty.so', 'dir.so', 'noentry.so', 'x' * 300 + '.so', 'loop.so', 'text.so/x.so', 'secret/x.so'])
    op = st.one_of(st.tuples(st.just('load'), core, k, st.one_of(st.none(), st.none(), st.none(), st.sampled_from(NSS)), st.one_of(st.none(), st.none(), st.none(), st.sampled_from(IDS)), st.booleans()),
                   st.tuples(st.just('load'), core, k, st.none(), st.none(), st.just(False)), st.tuples(st.just('bad'), core, bad),
                   st.tuples(st.just('reg'), core, st.sampled_from(IDS), st.sampled_from(NAMES + BADNAMES), st.sampled_from(ARGS), st.integers(1, 99)),
                   st.tuples(st.just('all'), core, st.lists(k, unique=True, max_size=4), st.integers(0, 2), st.booleans()), st.tuples(st.just('call'), core, st.integers(0, 99)), st.tuples(st.just('fresh'), core)).map(list)
    return dict(files=files, ops=draw(st.lists(op, min_size=1, max_size=14)))


def plan(spec):
    """The functions a load of spec registers."""
    fs = {}
    for name, args, ret, tag in spec['funcs']:
        ok = name not in BADNAMES and name not in fs and args not in BADARGS
        if ok:
            fs[name] = (args, ret, tag)
    return fs


def write(spec, path, so):
    os.link(so, path) if False else shutil.copyfile(so, path)
    with open(path + '.cfg', 'w') as f:
        if spec['config']:
            f.write(f"config|{spec['id']}|{spec['ns']}|{spec['name']}|{spec['ver']}|{spec['api']}|{int(spec['mod'])}\n")
        for fn in spec['funcs']:
            f.write('func|' + '|'.join(map(str, fn)) + '\n')
    if os.path.exists(path + '.log'):
        os.unlink(path + '.log')


def run_history(c):
    A = api()
    d = scratch()
    labels = set()
    so = os.path.join(os.environ['VF_OUT'], 'libvfplug.so')
    try:
        paths = []
        for i, s in enumerate(c['files']):
            p = os.path.join(d, f'p{i}.so')
            write(s, p, so)
            paths.append(p)
        open(os.path.join(d, 'text.so'), 'w').write('not a library\n')
        open(os.path.join(d, 'empty.so'), 'w').close()
        os.mkdir(os.path.join(d, 'dir.so'))
        shutil.copyfile(os.path.join(os.environ['VF_OUT'], 'libvfhelpers.so'), os.path.join(d, 'noentry.so'))
        os.symlink('loop.so', os.path.join(d, 'loop.so'))
        cores = [Core(), Core()]
        for step, op in enumerate(c['ops']):
            w = cores[op[1]]
            what = f'step {step} {op}:'
            if op[0] == 'load':
                spec = c['files'][op[2]]
                kw = dict(path=paths[op[2]].encode())
                if op[3]:
                    kw['forcens'] = op[3].encode()
                if op[4]:
                    kw['forceid'] = op[4].encode()
                if op[5]:
                    kw['altsearchpath'] = 1
                e, _ = w.invoke(b'std', b'LoadPlugin', **kw)
                labels.add(load_model(w, spec, op[3], op[4], e, paths[op[2]], what))
            elif op[0] == 'bad':
                name = op[2]
                p = os.path.join(d, name) if name not in ('', '/', '.') else name
                e, _ = w.invoke(b'std', b'LoadPlugin', path=p.encode())
                check(e, what, 'bad file accepted')
                labels.add('bad file')
            elif op[0] == 'reg':
                m = w.model.get(op[2])
                if m is None:
                    continue
                cb = capi.PUBLIC(lambda *a: None)
                w.cbs = getattr(w, 'cbs', []) + [cb]
                r = A.registerFunction(op[3].encode(), op[4].encode(), b'any', cb, None, m['ptr'])
                ok = m.get('mod', False) and op[3] not in BADNAMES and op[3] not in m['funcs'] and op[4] not in BADARGS
                check(bool(r) == ok, what, 'registerFunction returned', r)
                if ok:
                    m['funcs'] = dict(m['funcs'], **{op[3]: (op[4], 'any')})
                    m.setdefault('tags', {}).pop(op[3], None)
                labels.add('late' if ok else 'late refused')
            elif op[0] == 'all':
                sub = os.path.join(d, f'all{step}')
                os.makedirs(os.path.join(sub, 'deeper'))
                order = []
                man = []
                for j, k in enumerate(op[2]):
                    where = os.path.join(sub, 'deeper') if j % 2 and op[3] != 1 else sub
                    p = os.path.join(where, f'q{j}.so')
                    write(c['files'][k], p, so)
                    order.append((k, p))
                    man.append(p)
                open(os.path.join(sub, 'junk.so'), 'w').write('junk')
                open(os.path.join(sub, 'readme.txt'), 'w').write('junk')
                if op[3] == 1:      # with a manifest only what it lists is loaded
                    listed = order[:len(order) // 2 + 1] if op[4] else order
                    with open(os.path.join(sub, 'manifest.vs'), 'w', newline='') as f:
                        nl = '\r\n' if op[4] else '\n'
                        f.write('[VapourSynth Manifest V1]' + nl + nl.join(os.path.basename(p)[:-3] for _, p in listed) + (nl + nl if step % 2 else ''))
                    order = listed
                elif op[3] == 2 and op[4]:
                    with open(os.path.join(sub, 'deeper', 'manifest.vs'), 'w') as f:
                        f.write(['\n\n', 'wrong header\nq1\n', '[VapourSynth Manifest V1]\nnofile\n'][step % 3])
                    order = [(k, p) for k, p in order if '/deeper/' not in p]
                before = set(w.model)
                e, _ = w.invoke(b'std', b'LoadAllPlugins', path=sub.encode())
                check(e is None, what, 'LoadAllPlugins failed', e)
                # the order of loading is that of the directory: accept any plugin of the set for a contested id or namespace
                got = w.enumerate()
                new = [i for i in got if i not in before]
                cand = [(c['files'][k], p) for k, p in order]
                used = set()
                for i in new:
                    g = got[i]
                    mm = [(s, p) for s, p in cand if s['config'] and s['api'] in API and s['id'] == i and s['ns'] == g['ns'] and s['name'] == g['name'] and s['ver'] == g['version'] and
                          {n: v[:2] for n, v in plan(s).items()} == g['funcs']]
                    check(mm, what, 'loaded a plugin that is not in the directory', i, g)
                    w.model[i] = dict(g, mod=mm[0][0]['mod'], tags={n: v[2] for n, v in plan(mm[0][0]).items()}, path=None)
                    fn = cstr(A.getPluginPath(g['ptr'])).decode()
                    hit = [(s, p) for s, p in mm if p == fn]
                    check(hit, what, 'path', fn)
                    w.model[i].update(mod=hit[0][0]['mod'], tags={n: v[2] for n, v in plan(hit[0][0]).items()})
                ids, nss = set(w.model), {m['ns'] for m in w.model.values()}
                for s, p in cand:
                    if s['config'] and s['api'] in API:
                        check(s['id'] in ids or s['ns'] in nss, what, 'not loaded', s['id'], s['ns'])
                labels.add('loadall')
            elif op[0] == 'call':
                fs = [(i, n, t) for i, m in sorted(w.model.items()) for n, t in sorted(m.get('tags', {}).items()) if all(a in ('', 'any') or ':opt' in a for a in m['funcs'][n][0].split(';')[:1])]
                fs = [(i, n, t) for i, n, t in fs if w.model[i]['funcs'][n][0] in ('', 'any')]
                if fs:
                    i, n, t = fs[op[2] % len(fs)]
                    e, o = w.invoke(w.model[i]['ns'].encode(), n.encode())
                    check(e is None and o == dict(tag=t, args=0), what, 'call of', i, n, e, o)
                    labels.add('call')
                    e, o = w.invoke(w.model[i]['ns'].encode(), b'NoSuchFunction')
                    check(e and b'NoSuchFunction' in e, what, 'missing function', e)
            elif op[0] == 'fresh':
                A.freeCore(w.core)
                cores[op[1]] = Core()
                labels.add('fresh')
            for x in cores:
                x.verify(what)
        for x in cores:
            A.freeCore(x.core)
    finally:
        if d.startswith(os.environ['HOME'] + '/plug'):
            shutil.rmtree(d, ignore_errors=True)
    return labels, bool(labels)


def load_model(w, spec, forcens, forceid, e, path, what):
    A = w.A
    i, ns = forceid or spec['id'], forcens or spec['ns']
    if not spec['config'] or spec['api'] not in API:
        check(e, what, 'incompatible or unconfigured plugin loaded')
        return 'api refused'
    if i in w.model:
        check(e and i.encode() in e, what, 'duplicate id', i, e)
        return 'duplicate id'
    if ns in {m['ns'] for m in w.model.values()}:
        check(e and ns.encode() in e, what, 'duplicate namespace', ns, e)
        return 'duplicate namespace'
    check(e is None, what, 'load failed', e)
    fs = plan(spec)
    p = A.getPluginByID(i.encode(), w.core)
    w.model[i] = dict(ns=ns, name=spec['name'], version=spec['ver'], funcs={n: v[:2] for n, v in fs.items()}, ptr=p, mod=spec['mod'], tags={n: v[2] for n, v in fs.items()})
    check(cstr(A.getPluginPath(p)).decode() == path, what, 'path', cstr(A.getPluginPath(p)))
    return 'loaded'


CHECKS = dict(history=Sub(s_history(), run_history, quick=1600, thorough=40000, batch=50))
