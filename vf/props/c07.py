"""C07: calls are checked against the registered signature (C API and Python), on generated signatures, argument maps and Python calls."""
import ctypes as C, keyword, math, os, shutil
from hypothesis import strategies as st
from vf.core import Sub, check
from vf import capi
from vf.capi import api, cstr

TYPES = ['int', 'float', 'data', 'vnode', 'anode', 'vframe', 'aframe', 'func']
PT = dict(int=1, float=2, data=3, func=4, vnode=5, anode=6, vframe=7, aframe=8)      # VSPropertyType
NAMES = ['a', 'b', 'clip', 'x9', 'A', 'foo_bar', 'a1', 'lambda', 'Clip', 'zz', 'z']
MALFORMED = ['a', 'a:inte', 'a:int[', 'a:int:opt:opt', 'b:int[]:empty:empty', 'a:int:empty', '9:int', '_a:int', 'a-b:int', 'x:int:foo', ':int', 'a:', 'x:any', 'any:opt', 'é:int', 'a:clip', 'a:frame', 'a:int[][]', 'a:[]', 'a:int: opt', 'a :int', ' a:int',
             'a.b:int', 'a:Int', 'a:int[]:opt:empty:opt', 'a:vnode[', 'a:vnodes', 'a:float64']
_n = [0]


@st.composite
def s_sig(draw, python=False):
    names = draw(st.lists(st.sampled_from(NAMES), max_size=5, unique=True))
    args = []
    for n in names:
        arr = draw(st.booleans())
        args.append([n, draw(st.sampled_from(TYPES)), arr, draw(st.integers(0, 2)) == 0, arr and draw(st.booleans())])
    if python:
        args.sort(key=lambda a: a[3])        # Python cannot express a required parameter after an optional one
    return dict(args=args, any=draw(st.integers(0, 4)) == 0, style=draw(st.integers(0, 7)), bad=[draw(st.sampled_from(MALFORMED)), draw(st.integers(0, 5))] if not python and draw(st.integers(0, 5)) == 0 else None,
                ret=draw(st.sampled_from(['any', 'tag:int;any', '', 'tag:int'])))


def sig_text(s):
    """style only changes the notation: separators may be repeated, modifiers reordered, the last semicolon left out."""
    parts = []
    for i, (n, t, arr, opt, empty) in enumerate(s['args']):
        mods = (['opt'] if opt else []) + (['empty'] if empty else [])
        if s['style'] & 1:
            mods.reverse()
        parts.append(':'.join([n, t + ('[]' if arr else '')] + mods))
    if s['any']:
        parts.append('any')
    if s['bad']:
        parts.insert(min(s['bad'][1], len(parts)), s['bad'][0])
    r = ';'.join(parts)
    if s['style'] & 2 and r:
        r += ';'
    return r


s_entry = st.tuples(st.sampled_from(['decl'] * 12 + ['extra', 'alien']), st.integers(0, 9), st.sampled_from(['ok'] * 12 + ['type', 'many', 'none', 'missing']), st.integers(0, 3), st.integers(0, 1 << 30)).map(list)
s_call = st.tuples(st.integers(0, 3), st.lists(s_entry, max_size=3), st.lists(st.integers(0, 15), min_size=6, max_size=6), st.integers(0, 1 << 30)).map(list)


@st.composite
def s_capi(draw):
    return dict(sigs=draw(st.lists(s_sig(), min_size=1, max_size=4)), calls=draw(st.lists(s_call, min_size=1, max_size=12)))


def mix(*v):
    h = 0x9E3779B97F4A7C15
    for x in v:
        h = (h ^ (x & 0xFFFFFFFFFFFFFFFF)) * 0xBF58476D1CE4E5B9 & 0xFFFFFFFFFFFFFFFF
        h ^= h >> 29
    return h


class World:
    """A core with one plugin and a pool of values of every type."""
    def __init__(self, sigs):
        A = self.A = api()
        self.dir = os.path.join(os.environ['HOME'], f'c07_{os.getpid()}_{_n[0]}')
        _n[0] += 1
        os.makedirs(self.dir)
        self.so = os.path.join(self.dir, 'p.so')
        shutil.copyfile(os.path.join(os.environ['VF_OUT'], 'libvfplug.so'), self.so)
        with open(self.so + '.cfg', 'w') as f:
            f.write('config|com.c07|cseven|c07|1|%d|0\n' % ((4 << 16) | 1))
            for i, s in enumerate(sigs):
                f.write(f"func|F{i}|{sig_text(s)}|{s['ret']}|{1000 + i}\n")
        self.core = A.createCore(0)
        self.log = []
        self.h = capi.LOGHANDLER(lambda t, m, u: self.log.append(cstr(m).decode('utf-8', 'replace')))
        A.addLogHandler(C.cast(self.h, C.c_void_p), None, None, self.core)
        self.pool = {}

    def call(self, ns, fn, m):
        return self.A.invoke(self.A.getPluginByNamespace(ns, self.core), fn, m)

    def simple(self, ns, fn, get, kw):
        A = self.A
        m = A.createMap()
        for k, v in kw.items():
            if isinstance(v, bytes):
                A.mapSetData(m, k.encode(), v, len(v), -1, 0)
            elif isinstance(v, tuple):
                A.mapSetNode(m, k.encode(), v[0], 0)
            else:
                A.mapSetInt(m, k.encode(), v, 0)
        r = self.call(ns, fn, m)
        e = cstr(A.mapGetError(r))
        assert e is None, e
        x = get(r)
        A.freeMap(r)
        A.freeMap(m)
        return x

    def load(self):
        A = self.A
        self.simple(b'std', b'LoadPlugin', lambda r: None, dict(path=self.so.encode()))
        self.lib = C.CDLL(self.so)
        node = lambda r: A.mapGetNode(r, b'clip', 0, None)
        P = self.pool
        P['vnode'] = [self.simple(b'std', b'BlankClip', node, dict(width=8 * k, height=4, length=3)) for k in (1, 2)]
        P['anode'] = [self.simple(b'std', b'BlankAudio', node, dict(length=4000 * k)) for k in (1, 2)]
        P['vframe'] = [A.getFrame(0, n, None, 0) for n in P['vnode']]
        P['aframe'] = [A.getFrame(0, n, None, 0) for n in P['anode']]
        self.cbs = [capi.PUBLIC(lambda *a: None) for _ in range(2)]
        P['func'] = [A.createFunction(C.cast(cb, C.c_void_p), None, None, self.core) for cb in self.cbs]

    def entered(self):
        return self.lib.vfplug_entered()

    def close(self):
        A = self.A
        for t, xs in self.pool.items():
            for x in xs:
                (A.freeNode if t in ('vnode', 'anode') else A.freeFrame if t in ('vframe', 'aframe') else A.freeFunction)(x)
        A.freeCore(self.core)
        if self.dir.startswith(os.environ['HOME'] + '/c07_'):
            shutil.rmtree(self.dir, ignore_errors=True)

    def value(self, t, seed):
        if t == 'int':
            return [0, -1, 1, 2**63 - 1, -2**63, 2**31, seed, -seed][seed % 8]
        if t == 'float':
            return [0.0, -0.0, 1.5, math.inf, -1e308, 5e-324, seed / 7, float(seed)][seed % 8]
        if t == 'data':
            return [b'', b'a', b'\0x\xff', b'x' * (seed % 300), str(seed).encode(), 'ü'.encode()][seed % 6]
        return self.pool[t][seed % 2]

    def put(self, m, key, t, vals, seed):
        A = self.A
        k = key.encode()
        if not vals:
            check(A.mapSetEmpty(m, k, PT[t]) == 0, 'mapSetEmpty', key)
        for j, v in enumerate(vals):
            if t == 'int':
                e = A.mapSetInt(m, k, v, 1)
            elif t == 'float':
                e = A.mapSetFloat(m, k, v, 1)
            elif t == 'data':
                e = A.mapSetData(m, k, v, len(v), -1, 1)
            elif t in ('vnode', 'anode'):
                e = A.mapSetNode(m, k, v, 1)
            elif t in ('vframe', 'aframe'):
                e = A.mapSetFrame(m, k, v, 1)
            else:
                e = A.mapSetFunction(m, k, v, 1)
            check(e == 0, 'map set', key, t)

    def read(self, m):
        A = self.A
        out = {}
        for i in range(A.mapNumKeys(m)):
            k = cstr(A.mapGetKey(m, i))
            n = A.mapNumElements(m, k)
            t = next((t for t, v in PT.items() if v == A.mapGetType(m, k)), None)
            vs = []
            for j in range(n):
                if t == 'int':
                    v = A.mapGetInt(m, k, j, None)
                elif t == 'float':
                    v = repr(A.mapGetFloat(m, k, j, None))
                elif t == 'data':
                    v = C.string_at(A.mapGetData(m, k, j, None), A.mapGetDataSize(m, k, j, None))
                elif t in ('vnode', 'anode'):
                    v = A.mapGetNode(m, k, j, None)
                    A.freeNode(v)
                elif t in ('vframe', 'aframe'):
                    v = A.mapGetFrame(m, k, j, None)
                    d = A.getReadPtr(v, 0)
                    A.freeFrame(v)
                    v = d
                else:
                    v = A.mapGetFunction(m, k, j, None)
                    A.freeFunction(v)
                vs.append(v)
            out[k.decode()] = (t, vs)
        return out


def norm(w, t, vals):
    if t == 'float':
        return [repr(v) for v in vals]
    if t in ('vframe', 'aframe'):
        return [w.A.getReadPtr(v, 0) for v in vals]
    return vals


def verdict(args, anyarg, given):
    """(entered?, names of which one has to appear in the message)."""
    bad = []
    decl = {a[0]: a for a in args}
    for n, t, arr, opt, empty in args:
        if n not in given:
            if not opt:
                bad.append(n)
            continue
        gt, vals = given[n]
        if gt != t or (len(vals) > 1 and not arr) or (not vals and not empty):
            bad.append(n)
    if not anyarg:
        bad += [k for k in given if k not in decl]
    return not bad, bad


def run_capi(c):
    A = api()
    w = World(c['sigs'])
    labels = set()
    try:
        w.load()
        pl = A.getPluginByNamespace(b'cseven', w.core)
        check(pl, 'plugin not loaded')
        good = []
        log = open(w.so + '.log').read().split()
        regs = [int(log[i + 1]) for i in range(0, len(log), 2) if log[i] == 'func']
        for i, s in enumerate(c['sigs']):
            f = A.getPluginFunctionByName(f'F{i}'.encode(), pl)
            what = f'signature {sig_text(s)!r}:'
            check(bool(f) == (s['bad'] is None) == bool(regs[i]), what, 'registered' if f else 'refused', 'registerFunction returned', regs[i])
            if f:
                good.append(i)
                check(cstr(A.getPluginFunctionArguments(f)).decode() == sig_text(s), what, 'reported as', cstr(A.getPluginFunctionArguments(f)))
                check(cstr(A.getPluginFunctionReturnType(f)).decode() == s['ret'], what, 'return type reported as', cstr(A.getPluginFunctionReturnType(f)))
            else:
                labels.add('malformed')
                check(any(f'F{i}' in l for l in w.log), what, 'refusal not logged', w.log)
        if not good:
            return labels, True
        for fi, entries, present, seed in c['calls']:
            s = c['sigs'][good[fi % len(good)]]
            fn = f'F{good[fi % len(good)]}'
            given = {}
            for j, (n, t, arr, opt, empty) in enumerate(s['args']):
                p = present[j % len(present)]
                if (opt and p < 6):
                    continue
                h = mix(seed, j)
                k = (h % 4 if arr else 1)
                if not k and not empty:
                    k = 1
                given[n] = (t, [w.value(t, mix(h, x) % (1 << 40)) for x in range(k)])
            for kind, idx, how, cnt, sd in entries:
                if kind == 'decl':
                    if not s['args']:
                        continue
                    n, t, arr, opt, empty = s['args'][idx % len(s['args'])]
                else:
                    n, t = (NAMES[idx % len(NAMES)] if kind == 'extra' else ['clips', 'A_', 'f', 'any', 'lengthy', 'B'][idx % 6]), TYPES[sd % 8]
                k = cnt if how == 'many' else 0 if how == 'none' else 1
                if how == 'type':
                    t = TYPES[sd % 8]
                if how == 'missing':
                    given.pop(n, None)
                    continue
                given[n] = (t, [w.value(t, mix(sd, x) % (1 << 40)) for x in range(k)])
            ok, names = verdict(s['args'], s['any'], given)
            m = A.createMap()
            for k in sorted(given, key=lambda k: mix(seed, *k.encode())):
                w.put(m, k, given[k][0], given[k][1], seed)
            want = {k: (t, norm(w, t, v)) for k, (t, v) in given.items()}
            before = w.entered()
            r = w.call(b'cseven', fn.encode(), m)
            e = cstr(A.mapGetError(r))
            what = f"{fn}({sig_text(s)}) with { {k: [t, len(v)] for k, (t, v) in given.items()} }:"
            check(w.entered() - before == (1 if ok else 0), what, 'entered' if not ok else 'not entered', e)
            if ok:
                check(e is None, what, 'failed:', e)
                got = w.read(r)
                check(got.pop('tag', None) == ('int', [1000 + int(fn[1:])]), what, 'wrong function entered')
                got.pop('args', None)
                check(got == want, what, 'the function received', got, 'instead of', want)
            else:
                check(e is not None, what, 'no error')
                e = e.decode('utf-8', 'replace')
                check(fn in e and any(n in e for n in names), what, 'message does not name the function and the argument:', e, names)
                check(A.mapNumKeys(r) <= 1, what, 'a failed call returned values')
            check(w.read(m) == want, what, 'the argument map was changed')
            labels.add('entered' if ok else 'refused')
            A.freeMap(r)
            A.freeMap(m)
    finally:
        w.close()
    return labels, 'entered' in labels or 'refused' in labels


# ---------------------------------------------------------------- Python
@st.composite
def s_python(draw):
    sigs = draw(st.lists(s_sig(python=True), min_size=1, max_size=4))
    call = st.tuples(st.integers(0, 3), st.sampled_from(['plain', 'plain', 'plain', 'bound']), st.integers(0, 6), st.lists(st.tuples(st.sampled_from(['ok'] * 14 + ['type', 'many', 'none', 'None', 'missing', 'twice']), st.integers(0, 3), st.integers(0, 1 << 30), st.booleans()).map(list), min_size=6, max_size=6),
                     st.sampled_from([0, 0, 0, 0, 1, 2]), st.integers(0, 2)).map(list)
    return dict(sigs=sigs, calls=draw(st.lists(call, min_size=1, max_size=14)))


class Weird(Exception):
    pass


def py_value(vs, P, t, seed):
    """(Python value, what the function has to receive)."""
    import enum, fractions
    if t == 'int':
        v = [0, -1, True, False, vs.YUV, vs.GRAY8, 640.0, -3.0, 2**63 - 1, -2**63, fractions.Fraction(8, 2), seed, vs.RANGE_FULL][seed % 13]
        return v, int(v)
    if t == 'float':
        v = [0, 1, True, 1.5, -0.0, math.inf, 2**53 + 1, 1e308, vs.YUV, fractions.Fraction(1, 3), seed / 7][seed % 11]
        return v, float(v)
    if t == 'data':
        v = ['', 'abc', 'ü☺', b'', b'\0\xff', bytearray(b'xy'), 'a\0b', 'x' * 500][seed % 8]
        return v, bytes(v) if not isinstance(v, str) else v
    if t == 'func':
        v = P['func'][seed % len(P['func'])]
        return v, v
    return P[t][seed % 2], P[t][seed % 2]


def same(vs, got, want):
    if isinstance(want, (int, float)):
        return type(got) is type(want) and repr(got) == repr(want)
    if isinstance(want, (str, bytes)):
        return type(got) is type(want) and got == want
    if isinstance(want, (vs.VideoNode, vs.AudioNode)):
        return type(got) is type(want) and (got.width == want.width if isinstance(want, vs.VideoNode) else got.num_samples == want.num_samples)
    if isinstance(want, (vs.VideoFrame, vs.AudioFrame)):
        return type(got) is type(want) and got.props.get('Q') == want.props.get('Q')
    return isinstance(got, vs.Func)


def run_python(c):
    import vapoursynth as vs
    core = vs.core.core
    ns = f'cs{os.getpid()}x{_n[0]}'
    _n[0] += 1
    d = os.path.join(os.environ['HOME'], ns)
    os.makedirs(d)
    so = os.path.join(d, 'p.so')
    labels = set()
    try:
        shutil.copyfile(os.path.join(os.environ['VF_OUT'], 'libvfplug.so'), so)
        with open(so + '.cfg', 'w') as f:
            f.write('config|com.%s|%s|c07|1|%d|0\n' % (ns, ns, (4 << 16) | 1))
            for i, s in enumerate(c['sigs']):
                f.write(f"func|F{i}|{sig_text(s)}|any|{1000 + i}\n")
        core.std.LoadPlugin(so)
        lib = C.CDLL(so)
        pl = getattr(core, ns)
        vn = [core.std.BlankClip(width=8 * k, height=4, length=3) for k in (1, 2)]
        an = [core.std.BlankAudio(length=4000 * k) for k in (1, 2)]
        vf = [core.std.SetFrameProps(x, Q=i).get_frame(0) for i, x in enumerate(vn)]
        af = [x.get_frame(0) for x in an]
        P = dict(vnode=vn, anode=an, vframe=vf, aframe=af, func=[lambda **k: 5, len, core.std.BlankClip])
        wrong = dict(int=['zz', b'x', vn[0], len, 1j, object()], float=['zz', vn[0], len, 1j, object()], data=[], vnode=[1, 'a', an[0], vf[0], len, 1.5], anode=[1, 'a', vn[0], af[0]], vframe=[1, vn[0], af[0]], aframe=[1, an[0], vf[0]], func=[1, 'a', vn[0], 2.5])
        for i, s in enumerate(c['sigs']):
            f = getattr(pl, f'F{i}')
            check(f.signature == sig_text(s) and f.name == f'F{i}' and f.plugin.namespace == ns, 'introspection of', sig_text(s), 'gives', f.signature, f.name)
            ps = list(f.__signature__.parameters.values())
            wantn = [n + ('_' if keyword.iskeyword(n) else '') for n, *_ in s['args']] + (['kwargs'] if s['any'] else [])
            check([p.name for p in ps] == wantn, 'parameters of', sig_text(s), [p.name for p in ps])
            for p, a in zip(ps, s['args']):
                check((p.default is p.empty) == (not a[3]), 'default of', p.name, 'in', sig_text(s), p.default)
        for fi, via, npos, specs, extra, sdx in c['calls']:
            fi %= len(c['sigs'])
            s = c['sigs'][fi]
            args = s['args']
            pos, kw, want, refused, unsure = [], {}, {}, False, False
            bound = via == 'bound' and args and args[0][1] in ('vnode', 'anode')
            npos = min(npos, len(args))
            for j, (n, t, arr, opt, empty) in enumerate(args):
                how, cnt, seed, lst = specs[j % len(specs)]
                if bound and j == 0:
                    want[n] = [P[t][0]]
                    continue
                positional = j < npos or (bound and j == 0)
                if how == 'missing' or (opt and seed % 3 == 0):
                    if positional:
                        pos.append(None)
                    if not opt:
                        refused = True
                    continue
                if how == 'None':
                    v = None
                    if not opt:
                        refused = True
                elif how == 'type' and wrong[t]:
                    v = wrong[t][seed % len(wrong[t])]
                    if lst and arr:
                        v = [py_value(vs, P, t, seed)[0], v]
                    refused = True
                else:
                    k = cnt if (arr and cnt) else 1
                    if how == 'many':
                        k = 2
                    if how == 'none':
                        k = 0
                    vals = [py_value(vs, P, t, mix(seed, x) % (1 << 40)) for x in range(k)]
                    v = [x[0] for x in vals]
                    if seed % 2:
                        v = tuple(v)
                    if k == 1 and not lst:
                        v = v[0]
                        if t == 'func' and v is P['func'][2]:
                            pass
                    if (k > 1 and not arr) or (k == 0 and not empty):
                        refused = True
                    want[n] = [x[1] for x in vals]
                if positional:
                    pos.append(v)
                    if how == 'twice':
                        kw[n] = v       # named and unnamed: the name wins, the unnamed ones shift
                        unsure = True
                else:
                    kw[n + ('_' if seed % 5 == 0 else '')] = v
            if extra == 1:
                if s['any']:
                    kw['surplus'] = [1, 2.5, 'text', b'b', vn[0]][sdx % 5]
                    want['surplus'] = [[1, 2.5, 'text', b'b', vn[0]][sdx % 5]]
                else:
                    kw[['surplus', 'nope_', 'Clips'][sdx]] = 1
                    refused = True
            elif extra == 2 and not unsure:
                # more unnamed arguments than free names
                free = sum(1 for a in args if a[0] not in kw and a[0] + '_' not in kw)
                if len(pos) + int(bool(bound)) >= free:
                    pos.append(1)
                    refused = True
            before = lib.vfplug_entered()
            what = f"{sig_text(s)!r} called{' bound' if bound else ''} with {pos!r} {kw!r}:"
            target = getattr(getattr(P[args[0][1]][0], ns), f'F{fi}') if bound else getattr(pl, f'F{fi}')
            try:
                r = target(*pos, **kw)
                err = None
            except Exception as e:
                err = e
            inside = lib.vfplug_entered() - before
            if unsure:
                check(inside == (err is None), what, 'entered', inside, 'times but', err)
                continue
            if refused:
                check(inside == 0 and err is not None, what, 'not refused')
                labels.add('refused')
                continue
            check(err is None and inside == 1, what, 'failed with', repr(err))
            check(isinstance(r, dict) or not want, what, 'returned', r)
            r = dict(r)
            check(r.pop('tag') == 1000 + fi, what, 'wrong function')
            r.pop('args', None)
            check(set(r) == set(want), what, 'received', sorted(r), 'want', sorted(want))
            for k, v in want.items():
                g = r[k]
                g = list(g) if isinstance(g, list) else [g]
                check(len(g) == len(v) and all(same(vs, x, y) for x, y in zip(g, v)), what, k, 'received as', g, 'want', v)
            labels.add('bound' if bound else 'called')
    finally:
        if d.startswith(os.environ['HOME'] + '/cs'):
            shutil.rmtree(d, ignore_errors=True)
    return labels, bool(labels)


CHECKS = dict(capi=Sub(s_capi(), run_capi, quick=10000, thorough=80000, batch=50), python=Sub(s_python(), run_python, quick=5000, thorough=30000, batch=50))
