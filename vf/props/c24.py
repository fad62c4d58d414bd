"""C24: histories over VSScript handles (create, evaluate, variables, outputs, errors, free; any order, any thread) against a model."""
import ctypes as C, json, math, os, shutil, sys, tempfile, threading, time, types
from hypothesis import strategies as st
from vf.core import Sub, check, Violation
from vf import capi
from vf.capi import api, cstr

PKG = os.path.join(os.environ.get('VF_OUT', ''), 'site', 'vapoursynth')
NAMES = ['getAPIVersion', 'getVSAPI', 'createScript', 'getCore', 'evaluateBuffer', 'evaluateFile', 'getError', 'getExitCode', 'getVariable', 'setVariables', 'getOutputNode', 'getOutputAlphaNode',
         'getAltOutputMode', 'freeScript', 'evalSetWorkingDir', 'getAvailableOutputNodes']
S = st.sampled_from
_g = {}


def setup():
    if 'vss' in _g:
        return _g['vss']
    from vf.props import c25
    os.environ['XDG_CONFIG_HOME'] = c25.config(os.environ['VF_OUT'] + '/libvfpyshim.so')
    shared = types.ModuleType('_vfshared')
    shared.put = {}
    sys.modules['_vfshared'] = shared
    lib = C.CDLL(PKG + '/libvsscript.so', mode=C.RTLD_GLOBAL)
    lib.getVSScriptAPI.restype = C.c_void_p
    lib.getVSScriptAPI.argtypes = [C.c_int]
    lib.getVSScriptAPILastError.restype = C.c_char_p
    for v in ((3 << 16) | 3, (5 << 16), (4 << 16) | 4, (4 << 16) | 0xffff, -1, 0):
        check(not lib.getVSScriptAPI(v), f'an unsupported version {v:#x} of the API was handed out')
    p = lib.getVSScriptAPI((4 << 16) | 3)
    check(p, 'getVSScriptAPI returned NULL:', lib.getVSScriptAPILastError())
    for m in range(4):
        check(lib.getVSScriptAPI((4 << 16) | m) == p, 'API 4.%d not available' % m)
    fs = C.cast(p, C.POINTER(C.c_void_p * len(NAMES))).contents
    _g['vss'] = {n: f for n, f in zip(NAMES, fs)}
    _g['lib'] = lib
    t = C.CDLL(os.path.join(os.environ['VF_OUT'], 'libvfthread.so'))
    t.t_call.restype = C.c_long
    t.t_call.argtypes = [C.c_int, C.c_void_p, C.c_long, C.c_long, C.c_long]
    _g['t'] = t
    v = C.CFUNCTYPE(C.c_int)(_g['vss']['getAPIVersion'])()
    check(v == (4 << 16) | 3, 'getAPIVersion', hex(v))
    return _g['vss']


def call(name, tid, *args, ret='p'):
    """Call a VSScript function on this thread (tid 0) or a native thread. Strings stay alive through args."""
    keep = [a if not isinstance(a, bytes) else C.create_string_buffer(a) for a in args]
    a = [0 if x is None else C.addressof(x) if not isinstance(x, int) else x for x in keep]
    f = _g['vss'][name]
    if tid == 0:
        r = C.CFUNCTYPE(C.c_long, *([C.c_long] * 3))(f)(*(a + [0] * (3 - len(a))))
    else:
        r = _g['t'].t_call(tid, f, *(a + [0] * (3 - len(a))))
    if ret == 'i':
        return C.c_int(r).value
    return r & (2**64 - 1)


# ------------------------------------------------------------------ values

def from_map(m, key):
    """(type, elements, hints) of a key of a VSMap."""
    A = api()
    k = key.encode()
    t = A.mapGetType(m, k)
    n = A.mapNumElements(m, k)
    if n < 0:
        return None
    out = []
    for i in range(n):
        if t == 1:
            out.append(A.mapGetInt(m, k, i, None))
        elif t == 2:
            out.append(A.mapGetFloat(m, k, i, None))
        elif t == 3:
            sz = A.mapGetDataSize(m, k, i, None)
            out.append((C.string_at(A.mapGetData(m, k, i, None), sz), A.mapGetDataTypeHint(m, k, i, None)))
        else:
            out.append(None)
    return t, out


def lit(v):
    """Python source of a model value."""
    t = v[0]
    if t == 'i':
        return repr(v[1])
    if t == 'f':
        return f'float({v[1]!r})'
    if t == 'y':
        return f'bytes.fromhex({v[1]!r})'
    if t == 'ba':
        return f'bytearray.fromhex({v[1]!r})'
    if t == 's':
        return ascii(v[1])
    if t == 'B':
        return repr(v[1])
    if t == 'N':
        return 'None'
    if t == 'o':
        return ['object()', '1j', 'vs.YUV420P8', 'range(3)', '{}', 'lambda x, y=1: x', 'vs', 'vs.RANGE_FULL', 'type'][v[1]]
    if t == 'L':
        return '[' + ', '.join(lit(x) for x in v[1]) + ']'
    if t == 'T':
        return '(' + ''.join(lit(x) + ', ' for x in v[1]) + ')'
    raise AssertionError(v)


UNSUP = object()


def scalar_to_map(v):
    t = v[0]
    if t in 'iB':
        n = int(v[1])
        return (1, n) if -2**63 <= n < 2**63 else UNSUP
    if t == 'f':
        return 2, float(v[1])
    if t in ('y', 'ba'):
        return 3, (bytes.fromhex(v[1]), 0)
    if t == 's':
        return 3, (v[1].encode(), 1)
    return UNSUP


def to_map(v):
    """What getVariable must deliver: None for an error, else (type, elements)."""
    if v[0] == 'o':
        if v[1] == 2:
            return 1, [(3 << 28) | (8 << 16) | (1 << 8) | 1]
        if v[1] == 3:
            return 1, [0, 1, 2]
        if v[1] == 4:
            return 0, []
        if v[1] == 5:
            return 8, [None]
        if v[1] == 7:
            return 1, None
        if v[1] == 8:
            return 8, [None]
        return None
    items = [scalar_to_map(x) for x in (v[1] if v[0] in 'LT' else [v])]
    if any(x is UNSUP for x in items) or len({x[0] for x in items}) > 1:
        return None
    return (items[0][0] if items else 0), [x[1] for x in items]


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    return type(a) is type(b) and a == b


CHAR = st.text(st.characters(blacklist_categories=['Cs']), max_size=8)
SC = st.one_of(st.one_of(st.integers(-5, 300), st.integers(-2**63, 2**63 - 1)).map(lambda n: ['i', n]), st.one_of(S([0.0, -0.0, 1e300, math.inf, -math.inf, math.nan, 0.1]), st.floats()).map(lambda x: ['f', repr(x)]),
               st.one_of(S(['', 'abc', 'ü☺𝄞', 'a\x00b', '\n', "'\\", 'x' * 500]), CHAR).map(lambda s: ['s', s]), st.binary(max_size=8).map(lambda b: ['y', b.hex()]))
VAL = st.one_of(SC, SC, SC, st.booleans().map(lambda b: ['B', b]), st.lists(SC, max_size=3).map(lambda l: ['L', l]), st.tuples(SC, st.integers(0, 4)).map(lambda p: ['L', [p[0]] * p[1]]), st.lists(st.integers(-9, 9).map(lambda n: ['i', n]), max_size=4).map(lambda l: ['T', l]), st.just(['N']), st.binary(max_size=5).map(lambda b: ['ba', b.hex()]),
                st.integers(0, 8).map(lambda k: ['o', k]), S([['i', 2**63], ['i', -2**63 - 1], ['i', 2**200]]), st.lists(st.lists(SC, max_size=2).map(lambda l: ['L', l]), min_size=1, max_size=2).map(lambda l: ['L', l]))
VAR = S(['a', 'b', 'clip', 'x1', '_p', 'Class', 'format', 'z' * 60])
ATTR = S(['a', 'b', 'clip', 'x1', '_p', 'class', 'None', 'import', 'print', 'z' * 60])
IDX = st.one_of(S([0, 0, 1, 2, 7, -1]), st.integers(-2**31, 2**31 - 1))
COUNT = st.integers(1, 12)

# values handed in through setVariables: (type, elements)
MAPVAL = st.one_of(st.lists(st.one_of(st.integers(-5, 5), st.integers(-2**63, 2**63 - 1)), max_size=3).map(lambda l: ['int', l]), st.lists(st.floats().map(repr), max_size=3).map(lambda l: ['float', l]),
                   st.lists(st.tuples(st.binary(max_size=6).map(bytes.hex), S([-1, 0])).map(list), max_size=3).map(lambda l: ['data', l]), st.lists(CHAR.map(lambda s: [s.encode().hex(), 1]), max_size=3).map(lambda l: ['data', l]),
                   st.lists(st.integers(1, 9), min_size=1, max_size=2).map(lambda l: ['vnode', l]), st.lists(st.integers(1, 9), min_size=1, max_size=2).map(lambda l: ['anode', l]), st.lists(st.integers(1, 9), min_size=1, max_size=2).map(lambda l: ['vframe', l]), st.lists(st.integers(1, 9), min_size=1, max_size=2).map(lambda l: ['func', l]))


@st.composite
def s_stmt(draw):
    k = draw(S(['set', 'set', 'set', 'expect', 'expect', 'expect', 'out', 'out', 'out', 'clear', 'del', 'clearall', 'core', 'file', 'env', 'thread', 'log', 'cycle', 'dtor', 'share', 'useshared', 'node', 'func', 'outs', 'again', 'opts', 'rename']))
    if k == 'set':
        return [k, draw(VAR), draw(VAL)]
    if k in ('expect', 'del'):
        return [k, draw(VAR)]
    if k == 'out':
        return [k, draw(IDX), draw(S(['v', 'v', 'v', 'a', 'eval', 'fail', 'alpha', 'alt', 'mod'])), draw(COUNT), draw(st.integers(0, 255))]
    if k == 'clear':
        return [k, draw(IDX)]
    if k == 'opts':
        return [k, draw(st.integers(1, 9))]
    if k in ('thread', 'log', 'share', 'useshared', 'func'):
        return [k, draw(st.integers(0, 9))]
    if k == 'node':
        return [k, draw(VAR), draw(S(['clip', 'frame', 'audio', 'clips'])), draw(COUNT)]
    return [k]


END = st.one_of(st.just(None), st.just(None), st.just(None), st.tuples(st.just('raise'), S(['ValueError', 'KeyboardInterrupt', 'vs.Error', 'MemoryError', 'StopIteration', 'GeneratorExit', 'Own']), CHAR), st.tuples(st.just('exit'), S([0, 1, 2, 255, 256, -1, 2**31 - 1, -2**31, 2**31, 2**70, None, 'text', '', True, False, 1.5])), st.tuples(st.just('syntax'), S(['x = = 1', 'def f(:', '"unterminated', '\tx', '\x00', 'é = ¿', 'return 1', 'print "x"'])), st.just(('surrogate',)), st.just(('recurse',)), st.just(('call',))).map(lambda x: x if x is None else list(x))
FNAME = st.one_of(st.just(None), S(['<mem>', '<x', 'x.vpy', 'sub/y.vpy', './sub/../z.vpy', 'ABS/s.vpy', 'ABS/ü ☺.vpy', "ABS/sub/q'\"uote.py"]))


@st.composite
def s_ops(draw, handles, nops, threads):
    ops = []
    for _ in range(draw(st.integers(3, nops))):
        h = draw(st.integers(0, handles - 1))
        k = draw(S(['create', 'create', 'eval', 'eval', 'eval', 'eval', 'set', 'set', 'get', 'get', 'outputs', 'outputs', 'core', 'free', 'err', 'null', 'cwd']))
        t = draw(st.integers(0, threads))
        if k == 'create':
            op = [draw(st.one_of(st.none(), st.integers(0, 7))), draw(st.integers(1, 8))]
        elif k == 'eval':
            op = [draw(st.lists(s_stmt(), max_size=6)), draw(END), draw(FNAME), draw(st.integers(0, 2)) == 0, draw(S(['', '', '', '', 'crlf', 'bom', 'latin', 'nonl']))]
        elif k == 'set':
            op = [draw(st.dictionaries(ATTR, MAPVAL, max_size=3)), draw(st.integers(0, 12)) == 0, draw(st.one_of(st.none(), st.integers(0, 9)))]
        elif k == 'get':
            op = [draw(st.one_of(VAR, ATTR, S(['missing', '__name__', '__file__', '']))), draw(st.booleans()), draw(st.one_of(st.none(), st.integers(0, 9)))]
        elif k == 'outputs':
            op = [draw(st.integers(-1, 4)), draw(IDX)]
        elif k == 'cwd':
            op = [draw(st.integers(0, 1))]
        else:
            op = []
        ops.append([k, h, t] + op)
    return ops


SERIAL = st.builds(lambda ops: dict(ops=ops), s_ops(4, 24, 3))
PARALLEL = st.builds(lambda tr: dict(tracks=tr), st.lists(s_ops(2, 10, 0), min_size=2, max_size=4))


# ------------------------------------------------------------------ model

class Handle:
    pass


class World:
    def __init__(self, d, native=0, ns=''):
        self.d, self.h, self.labels, self.native, self.ns = d, {}, set(), native, ns
        self.freed = set()
        self.leak = []

    def tid(self, t):
        return self.native or t


PRE = '''import vapoursynth as vs, sys, os, threading, _vfshared
from vapoursynth import core
'''
KEEP = []


def on_log(level, msg, data):
    h = HANDLES.get(data)
    if h is not None:
        h.logs.append((level, C.string_at(msg)))


def on_free(data):
    h = HANDLES.get(data)
    if h is not None:
        h.logfree += 1


HANDLES = {}
LOG, FREE = capi.LOGHANDLER(on_log), capi.FREEDATA(on_free)
_uid = [0]
_lock = threading.Lock()


def host_func(in_, out, user, core, vsapi):
    A = api()
    e = C.c_int(0)
    x = A.mapGetInt(in_, b'x', 0, C.byref(e))
    if e.value:
        A.mapSetError(out, b'no x')
    else:
        A.mapSetInt(out, b'val', x * 100 + (user or 0), 0)


HOSTFUNC = capi.PUBLIC(host_func)


def op_create(w, hid, t, flags, threads):
    A = api()
    if hid in w.h:
        return op_free(w, hid, t)
    h = Handle()
    with _lock:
        _uid[0] += 1
        h.uid = _uid[0]
    h.logs, h.logfree = [], 0
    HANDLES[h.uid] = h
    core = None
    if flags is not None:
        core = A.createCore(flags | 2)        # never autoload plugins of the machine
        A.setThreadCount(threads, core)
        h.log = A.addLogHandler(LOG, FREE, C.c_void_p(h.uid), core)
    p = call('createScript', t, core)
    check(p, 'createScript returned NULL')
    h.p, h.vars, h.outs, h.err, h.exit, h.cwd, h.filed, h.evals, h.core = p, {}, {}, None, 0, 0, None, 0, core
    h.threads = threads if core else None
    h.own = core is not None
    h.shared = {}
    h.dtor = False
    w.h[hid] = h
    if core:
        w.labels.add('host core')
        got = call('getCore', t, p)
        check(got == core, 'getCore is not the core the host passed in')


def core_of(w, h, t):
    p = call('getCore', t, h.p)
    check(p, 'getCore returned NULL')
    if h.core is None:
        h.core = p
        for o in list(HANDLES.values()):
            check(o is h or getattr(o, 'core', None) != p or not getattr(o, 'p', None), 'two script handles share a core')
        h.log = api().addLogHandler(LOG, FREE, C.c_void_p(h.uid), p)
    check(p == h.core, 'getCore changed')
    return p


def spec_code(kind, count, val, tag):
    """Expression of a clip and what must be seen from the host: (kind, frames, value at n -> expected)."""
    if kind == 'v':
        return f'core.std.BlankClip(width=4, height=2, format=vs.GRAY8, length={count}, color=[{val}], keep=1)', ['v', count, val]
    if kind == 'a':
        return f'core.std.BlankAudio(channels=[0, 1], bits=16, samplerate={8000 + val}, length={count * 100})', ['a', count * 100, 8000 + val]
    if kind == 'eval':
        return f'core.std.FrameEval(core.std.BlankClip(width=4, height=2, format=vs.GRAY8, length={count}), lambda n: core.std.BlankClip(width=4, height=2, format=vs.GRAY8, length={count}, color=[({val} + n * globals()["G{tag}"]) % 256]))', ['eval', count, val, tag]
    if kind == 'mod':
        return f'core.std.ModifyFrame(core.std.BlankClip(width=4, height=2, format=vs.GRAY8, length={count}, color=[{val}]), core.std.BlankClip(width=4, height=2, format=vs.GRAY8, length={count}, color=[{val}]), mod{tag})', ['mod', count, val, tag]
    if kind == 'fail':
        return f'core.std.FrameEval(core.std.BlankClip(width=4, height=2, format=vs.GRAY8, length={count}), lambda n: boom("bad {tag}"))', ['fail', count, f'bad {tag}']
    raise AssertionError(kind)


def build(w, h, hid, stmts, end, fn, tmp):
    """Source text, and the model's state after it. Returns (source, outcome)."""
    src = [PRE + 'def boom(m):\n    raise ValueError(m)\n']
    fails = None

    def expect_same(expr, v, name):
        # equal value and type of everything but the objects without an equality
        if v[0] == 'o':
            return f'assert {expr} is not None, "lost {name}"'
        if v[0] == 'map':
            return check_map(expr, v, name)
        return f'assert vfsame({expr}, {lit(v)}), ("value of {name}", {expr})'

    src.append('''def vfsame(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(vfsame(x, y) for x, y in zip(a, b))
    return repr(a) == repr(b)
''')
    for i, s in enumerate(stmts):
        k = s[0]
        w.labels.add('stmt ' + k)
        if k == 'set':
            src.append(f'{s[1]} = {lit(s[2])}')
            h.vars[s[1]] = s[2]
        elif k == 'expect':
            if s[1] in h.vars:
                v = h.vars[s[1]]
                if v[0] == 'obj':
                    src.append(f'assert {s[1]} is not None')
                else:
                    src.append(expect_same(f'globals()[{s[1]!r}]', v, s[1]))
            else:
                src.append(f'assert {s[1]!r} not in globals(), "{s[1]} exists"')
        elif k == 'del':
            if s[1] in h.vars:
                src.append(f'del {s[1]}')
                del h.vars[s[1]]
            else:
                src.append(f'try:\n    del {s[1]}\n    raise RuntimeError("{s[1]} existed")\nexcept NameError:\n    pass')
        elif k == 'out':
            _, idx, kind, n, val = s
            tag = f'{h.evals}_{i}'
            if kind == 'eval':
                src.append(f'G{tag} = {val % 7}')
            if kind == 'mod':
                src.append(f'def mod{tag}(n, f):\n    f = f.copy()\n    f.props["n"] = n + {val}\n    f.props["same"] = core.std.BlankClip(length=1).get_frame(0).props["_DurationNum"] == 1 and vs.get_current_environment() == ENV\n    return f\nENV = vs.get_current_environment()')
            if kind in ('alpha', 'alt'):
                c, e = spec_code('v', n, val, tag)
                a, ea = spec_code('v', n, 255 - val, tag)
                alt = val % 3
                if kind == 'alpha':
                    src.append(f'{c}.set_output({idx}, alpha={a}, alt_output={alt})')
                    h.outs[idx] = [e, ea, alt]
                else:
                    src.append(f'{c}.set_output({idx}, alt_output={alt})')
                    h.outs[idx] = [e, None, alt]
            else:
                c, e = spec_code(kind, n, val, tag)
                src.append(f'{c}.set_output({idx})')
                h.outs[idx] = [e, None, 0]
            w.labels.add('output ' + kind)
        elif k == 'again' and h.outs:
            idx = sorted(h.outs)[0]
            if h.outs[idx][0][0] != 'a':
                src.append(f'vs.get_output({idx}).clip.set_output(5)')
                h.outs[5] = [h.outs[idx][0], None, 0]
        elif k == 'clear':
            src.append(f'vs.clear_output({s[1]})')
            h.outs.pop(s[1], None)
        elif k == 'clearall':
            src.append('vs.clear_outputs()')
            h.outs.clear()
        elif k == 'outs':
            src.append(f'assert sorted(vs.get_outputs()) == {sorted(h.outs)!r}, ("outputs", sorted(vs.get_outputs()))')
            for idx in sorted(h.outs)[:3]:
                e, ea, alt = h.outs[idx]
                src.append(f'assert isinstance(vs.get_output({idx}), {"vs.AudioNode" if e[0] == "a" else "tuple"})')
        elif k == 'core':
            if h.threads is not None:
                src.append(f'assert core.num_threads == {h.threads}, ("threads", core.num_threads)')
        elif k == 'rename':
            src.append('__name__ = "other"')
            h.renamed = True
        elif k == 'opts':
            src.append(f'core.num_threads = {s[1]}')
            h.threads = s[1]
        elif k == 'file':
            src.append('assert __name__ == "__vapoursynth__", __name__' if ['rename'] not in stmts[:i] else 'assert __name__ == "other"')
            if fn is None or (fn[:1] == '<' and fn[-1:] == '>'):
                src.append('assert "__file__" not in globals(), __file__')
            else:
                src.append(f'assert __file__ == {os.path.abspath(fn)!r}, ("__file__", __file__)')
            cwd = os.path.dirname(os.path.abspath(fn)) if h.cwd and fn is not None and not (fn[:1] == '<' and fn[-1:] == '>') else None
            src.append(f'assert os.getcwd() == {(os.path.realpath(cwd) if cwd else w.d)!r}, ("cwd", os.getcwd())')
        elif k == 'env':
            src.append('assert vs.get_current_environment().alive and vs.get_current_environment() == vs.get_current_environment()\nassert vs.has_policy() and vs._try_enable_introspection is not None')
        elif k == 'thread':
            src.append(f'''ENV = vs.get_current_environment()
R = []
def th():
    try:
        vs.get_current_environment()
        R.append('no environment expected on a new thread')
    except RuntimeError:
        pass
    with ENV.use():
        R.append(vs.core.std.BlankClip(length={s[1] + 1}).num_frames)
T = threading.Thread(target=th)
T.start()
T.join()
assert R == [{s[1] + 1}], ("thread", R)
del T, th, R''')
        elif k == 'log':
            src.append(f'core.log_message(vs.MESSAGE_TYPE_WARNING, "message {h.uid} {h.evals} {i} {s[1]}")')
            if h.own or h.core is not None:
                h.expect_logs = getattr(h, 'expect_logs', []) + [(2, f'message {h.uid} {h.evals} {i} {s[1]}'.encode())]
        elif k == 'cycle':
            src.append('cyc = [core.std.BlankClip(), core.std.BlankClip().get_frame(0)]\ncyc.append(cyc)')
        elif k == 'dtor':
            h.dtor = True
            src.append('''class Dtor:
    def __del__(self, g=globals()):
        g["later_%d" % len(g)] = 1
        g.pop("cyc", None)
dtor1 = Dtor()
dtor2 = Dtor()''')
        elif k == 'share':
            src.append(f'_vfshared.put[{h.uid}] = core.std.BlankClip(length={s[1] + 1})')
            h.shared = {'n': s[1] + 1}
        elif k == 'useshared':
            alive = [o.uid for o in w.h.values() if o is not h]
            src.append(f'''for K, V in list(_vfshared.put.items()):
    if K in {alive}:
        continue             # mixing objects of two live cores is the user's mistake
    if K == {h.uid}:
        assert core.std.FlipVertical(V).num_frames == {h.shared.get('n', 0)}
        assert len(V + V) == {2 * h.shared.get('n', 0)}
        continue
    for F in (lambda: core.std.FlipVertical(V), lambda: core.std.BlankClip() + V, lambda: core.std.Interleave([core.std.BlankClip(), V]), lambda: V.std.FlipVertical(), lambda: V.get_frame(0), lambda: V.set_output(), lambda: V.node_name, lambda: core.std.BlankClip().get_frame(0).copy().props.update(x=V), lambda: core.std.SetFrameProps(core.std.BlankClip(), x=V)):
        try:
            F()
        except (vs.Error, AttributeError):
            pass
        else:
            raise RuntimeError("a clip of a freed script was accepted")
V = None; F = None''')
        elif k == 'node':
            kind = s[2]
            src.append(f'{s[1]} = ' + {'clip': f'core.std.BlankClip(length={s[3]})', 'frame': f'core.std.BlankClip(width={s[3]}).get_frame(0)', 'audio': f'core.std.BlankAudio(length={s[3]})', 'clips': f'[core.std.BlankClip(length={s[3]})] * 2'}[kind])
            h.vars[s[1]] = ['obj', kind, s[3]]
        elif k == 'func':
            src.append(f'def fun(x):\n    return x + {s[1]}')
            h.vars['fun'] = ['obj', 'func', s[1]]
    outcome = None
    if end:
        k = end[0]
        if k == 'raise':
            cls = end[1]
            if cls == 'Own':
                src.append('class Own(BaseException):\n    pass')
            src.append(f'def deep():\n    raise {cls}({ascii(end[2])})\ndeep()')
            outcome = ('error', end[2], 0)
        elif k == 'exit':
            c = end[1]
            src.append(f'sys.exit({c!r})')
            if isinstance(c, int):
                code = int(c) if -2**31 <= int(c) < 2**31 else 1
            else:
                code = 0 if c is None else 1
            outcome = ('exit', c, code)
        elif k == 'syntax':
            return end[1] + '\n' + '\n'.join(src) if end[1] != '\x00' else '\n'.join(src), ('syntax', end[1], 0)
        elif k == 'surrogate':
            src.append(r'raise ValueError("\ud800 lone")')
            outcome = ('error', None, 0)
        elif k == 'recurse':
            src.append('def rec(n):\n    return rec(n + 1) + 1\nrec(0)')
            outcome = ('error', 'recursion', 0)
        elif k == 'call':
            src.append('core.std.BlankClip(width=-1)')
            outcome = ('error', 'BlankClip', 0)
    return '\n'.join(src), outcome


def check_map(expr, v, name):
    t, items = v[1]
    if t in ('int', 'float', 'data'):
        py = []
        for x in items:
            if t == 'int':
                py.append(repr(x))
            elif t == 'float':
                py.append(f'float({x!r})')
            else:
                b = bytes.fromhex(x[0])
                py.append(ascii(b.decode()) if x[1] == 1 else repr(b))
        e = py[0] if len(py) == 1 else '[' + ', '.join(py) + ']'
        return f'assert vfsame({expr}, {e}), ("passed value of {name}", {expr})'
    lines = []
    for i, x in enumerate(items):
        e = expr if len(items) == 1 else f'{expr}[{i}]'
        if t == 'vnode':
            lines.append(f'assert type({e}) is vs.VideoNode and {e}.num_frames == {x}, "passed clip {name}"\nassert core.std.FlipVertical({e}).num_frames == {x}')
        elif t == 'anode':
            lines.append(f'assert type({e}) is vs.AudioNode and {e}.num_samples == {x}, "passed audio {name}"')
        elif t == 'vframe':
            lines.append(f'assert type({e}) is vs.VideoFrame and {e}.width == {x}, "passed frame {name}"')
        elif t == 'func':
            lines.append(f'assert {e}(x=7) == {700 + x}, "passed function {name}"')
    if len(items) > 1:
        lines.append(f'assert type({expr}) is list and len({expr}) == {len(items)}')
    return '\n'.join(lines)


def op_eval(w, hid, t, stmts, end, fn, from_file, style):
    h = w.h.get(hid)
    if h is None or h.err:
        return
    if fn is not None:
        fn = fn.replace('ABS', w.d)
    virtual = fn is not None and fn[:1] == '<' and fn[-1:] == '>'
    if from_file and (fn is None or virtual):
        fn, virtual = 'f.vpy', False
    if fn is not None and not virtual:
        os.makedirs(os.path.dirname(os.path.abspath(os.path.join(w.d, fn))), exist_ok=True)
    if end and end[0] == 'syntax':
        stmts = []           # nothing of it runs
    src, outcome = build(w, h, hid, stmts, end, fn, w.d)
    h.evals += 1
    if end and end[0] == 'syntax' and end[1] == '\x00':
        from_file = True
        if fn is None or virtual:
            fn, virtual = 'f.vpy', False
        src = src + '\n\x00\nraise SystemExit(9)\n'
        outcome = ('syntax', '', 0)
    if style == 'crlf':
        data = src.replace('\n', '\r\n').encode()
    elif style == 'bom':
        data = b'\xef\xbb\xbf' + src.encode()
    elif style == 'latin':
        data = ('# -*- coding: latin-1 -*-\nassert ord("\xe9") == 0xe9, "encoding cookie"\n' + src.encode('ascii', 'backslashreplace').decode()).encode('latin-1')
        if end and end[0] == 'syntax':
            data = src.encode()
    else:
        data = src.encode() + (b'' if style == 'nonl' else b'\n')
    if from_file:
        with open(os.path.join(w.d, fn), 'wb') as f:
            f.write(data)
        rc = call('evaluateFile', t, h.p, fn.encode(), ret='i')
        w.labels.add('from file')
    else:
        rc = call('evaluateBuffer', t, h.p, data, None if fn is None else fn.encode(), ret='i')
    check(os.getcwd() == w.d, 'the working directory stays changed after an evaluation:', os.getcwd())
    err = cstr(call('getError', t, h.p))
    code = call('getExitCode', t, h.p, ret='i')
    txt = err.decode('utf8') if err is not None else None
    if outcome is None:
        check(rc == 0, f'script that must succeed failed with {rc}:', (txt or '')[:1500])
        check(err is None, 'error message although the script succeeded:', txt)
        check(code == 0, 'exit code', code, 'of a script that ended normally')
        w.labels.add('ok script')
        return
    w.labels.add('outcome ' + outcome[0])
    check(rc != 0, 'evaluation succeeded although the script', outcome)
    check(err, 'no error message for', outcome)
    check('AssertionError' not in txt and 'existed' not in txt and 'was accepted' not in txt, 'a check inside the script failed:', txt[:1500])
    check(code == outcome[2], f'exit code {code} instead of {outcome[2]} after', outcome, txt[:300])
    if outcome[0] == 'error' and outcome[1] is not None:
        check(outcome[1].split('\0')[0].lower() in txt.lower(), f'the message lacks {outcome[1]!r}:', txt[:800])
    if outcome[0] == 'error' and outcome[1] is not None and end[0] == 'raise' and '\0' not in outcome[1]:
        name = fn if fn is not None and not virtual else '<string>'
        check(name in txt, f'the message does not name the script {name!r}:', txt[:800])
        check('deep' in txt, 'no traceback:', txt[:800])
    if outcome[0] == 'exit':
        check(str(outcome[1]) in txt, f'exit message lacks {outcome[1]!r}:', txt)
    check(cstr(call('getError', w.tid(0), h.p)) == err, 'the error message changes')
    h.err = err
    h.exit = outcome[2]


def blank(core, kind, n, key='clip'):
    """A node made by the host in the script's core."""
    A = api()
    p = A.getPluginByID(b'com.vapoursynth.std', core)
    m = A.createMap()
    if kind == 'anode':
        A.mapSetInt(m, b'length', n, 0)
        r = A.invoke(p, b'BlankAudio', m)
    else:
        A.mapSetInt(m, b'length', n, 0)
        A.mapSetInt(m, b'width', n, 0)
        r = A.invoke(p, b'BlankClip', m)
    check(not A.mapGetError(r), 'host call failed', cstr(A.mapGetError(r)))
    node = A.mapGetNode(r, b'clip', 0, None)
    A.freeMap(m)
    A.freeMap(r)
    return node


def op_set(w, hid, t, vals, broken, known=None):
    h = w.h.get(hid)
    if h is None or h.err:
        return
    if known is not None and h.vars and vals:      # replace a variable that exists
        old, new = sorted(vals)[0], sorted(h.vars)[known % len(h.vars)]
        vals = dict(vals)
        vals[new] = vals.pop(old)
        w.labels.add('variable replaced')
    A = api()
    core = core_of(w, h, t)
    m = A.createMap()
    for name, (kind, items) in vals.items():
        k = name.encode()
        if not items:
            A.mapSetEmpty(m, k, {'int': 1, 'float': 2, 'data': 3}[kind])
        for x in items:
            if kind == 'int':
                A.mapSetInt(m, k, x, 1)
            elif kind == 'float':
                A.mapSetFloat(m, k, float(x), 1)
            elif kind == 'data':
                b = bytes.fromhex(x[0])
                A.mapSetData(m, k, b, len(b), x[1], 1)
            elif kind in ('vnode', 'anode'):
                A.mapConsumeNode(m, k, blank(core, kind, x), 1)
            elif kind == 'vframe':
                n = blank(core, kind, x)
                buf = C.create_string_buffer(256)
                f = A.getFrame(0, n, C.addressof(buf), 256)
                check(f, 'frame failed', buf.value)
                A.freeNode(n)
                A.mapConsumeFrame(m, k, f, 1)
            elif kind == 'func':
                A.mapConsumeFunction(m, k, A.createFunction(HOSTFUNC, C.c_void_p(x), C.cast(None, capi.FREEDATA), core), 1)
    if broken:
        A.mapSetData(m, b'a', b'\xff\xfe', 2, 1, 0)       # not UTF-8 although it says so
    rc = call('setVariables', t, h.p, m, ret='i')
    A.freeMap(m)
    if broken:
        check(rc != 0, 'setVariables accepted text that is not UTF-8')
        check(call('getError', t, h.p) == 0 or True, '')
        # nothing is promised about the variables that were in the same map
        for name in list(vals) + ['a']:
            h.vars.pop(name, None)
        h.unsure = getattr(h, 'unsure', set()) | set(vals) | {'a'}
        op_free(w, hid, t)
        return
    check(rc == 0, 'setVariables failed', vals)
    for name, v in vals.items():
        h.vars[name] = ['map', v]
    if vals:
        w.labels.add('set variables')


def op_get(w, hid, t, name, dirty, known=None):
    h = w.h.get(hid)
    if h is None or h.err:
        return
    if known is not None and h.vars:
        name = sorted(h.vars)[known % len(h.vars)]
    A = api()
    m = A.createMap()
    if dirty:
        A.mapSetInt(m, b'other', 5, 0)
    rc = call('getVariable', t, h.p, name.encode(), m, ret='i')
    v = h.vars.get(name)
    try:
        if name == '__name__' and h.evals:
            v = ['s', '__vapoursynth__']
            if getattr(h, 'renamed', False):
                return
        if name == '__file__' or (name == '__name__' and v is None):
            return
        if dirty:
            check(from_map(m, 'other') == (1, [5]), 'getVariable destroyed other keys of the map')
        if v is None and name in ('print', 'None', 'import', 'class'):
            check(rc != 0, 'getVariable found', name)
            return
        if v is None:
            check(rc != 0, f'getVariable found {name}, which the script never set')
            check(A.mapNumKeys(m) == dirty, 'keys after a failed getVariable')
            w.labels.add('missing variable')
            return
        if v[0] == 'obj' or (v[0] == 'map' and v[1][0] in ('vnode', 'anode', 'vframe', 'func')):
            kind, n = (v[1], [v[2]]) if v[0] == 'obj' else ({'vnode': 'clip', 'anode': 'audio', 'vframe': 'frame', 'func': 'hfunc'}[v[1][0]], v[1][1])
            if kind == 'clips':
                kind, n = 'clip', n * 2
            check(rc == 0, 'getVariable failed for', name, v)
            g = from_map(m, name)
            check(g is not None and len(g[1]) == len(n), 'getVariable', name, 'delivered', g, 'for', v)
            want = {'clip': 4, 'audio': 5, 'frame': 6, 'func': 8, 'hfunc': 8}[kind]
            check(g[0] == VT[want], f'variable {name} ({kind}) has map type {g[0]}')
            for i, x in enumerate(n):
                k = name.encode()
                if kind in ('clip', 'audio'):
                    node = A.mapGetNode(m, k, i, None)
                    check(length(node, kind == 'audio') == x, 'wrong clip in variable', name)
                    A.freeNode(node)
                elif kind == 'frame':
                    f = A.mapGetFrame(m, k, i, None)
                    check(A.getFrameWidth(f, 0) == x, 'wrong frame in variable', name)
                    A.freeFrame(f)
                else:
                    fp = A.mapGetFunction(m, k, i, None)
                    a, r = A.createMap(), A.createMap()
                    A.mapSetInt(a, b'x', 7, 0)
                    A.callFunction(fp, a, r)
                    check(not A.mapGetError(r), 'function failed', cstr(A.mapGetError(r)))
                    check(A.mapGetInt(r, b'val', 0, None) == (7 + x if kind == 'func' else 700 + x), 'wrong result of function variable', name)
                    A.freeMap(a)
                    A.freeMap(r)
                    A.freeFunction(fp)
            w.labels.add('get ' + kind)
            return
        if v[0] == 'map':
            t_, items = v[1]
            want = {'int': 1, 'float': 2, 'data': 3}[t_], [float(x) if t_ == 'float' else (bytes.fromhex(x[0]), max(0, x[1])) if t_ == 'data' else x for x in items]
        else:
            want = to_map(v)
        if want is None:
            check(rc != 0, f'getVariable of {name} = {lit(v)} succeeded:', from_map(m, name))
            w.labels.add('unsupported variable')
            return
        check(rc == 0, f'getVariable of {name} = {v} failed')
        g = from_map(m, name)
        if want[1] == []:
            check(g is None or g[1] == [], 'empty variable', name, 'delivered', g)
            return
        check(g is not None, 'key', name, 'not set by getVariable, value', v)
        if want[1] is None:
            return
        if want[0] == 8:
            check(g[0] == VT[8], 'function variable', name, 'delivered', g)
            return
        check(g[0] == want[0], f'variable {name} = {v} has map type {g[0]}')
        check(len(g[1]) == len(want[1]) and all(same(a, b) for a, b in zip(g[1], want[1])), f'variable {name} = {v} delivered', g)
        w.labels.add('get variable')
    finally:
        A.freeMap(m)


VT = {4: 5, 5: 6, 6: 7, 8: 4}      # model kind -> VSPropertyType (function 4, video node 5, audio node 6, video frame 7)


def length(node, audio):
    A = api()
    if audio:
        return C.cast(A.getAudioInfo(node), C.POINTER(capi.AudioInfo)).contents.numSamples
    return C.cast(A.getVideoInfo(node), C.POINTER(capi.VideoInfo)).contents.numFrames


def check_node(w, h, node, e, hv):
    A = api()
    if e[0] == 'a':
        check(A.getNodeType(node) == 2, 'output is not audio')
        ai = C.cast(A.getAudioInfo(node), C.POINTER(capi.AudioInfo)).contents
        check((ai.numSamples, ai.sampleRate) == (e[1], e[2]), 'audio output', ai.numSamples, ai.sampleRate, 'instead of', e)
        return
    check(A.getNodeType(node) == 1, 'output is not video')
    vi = C.cast(A.getVideoInfo(node), C.POINTER(capi.VideoInfo)).contents
    check((vi.width, vi.height, vi.numFrames) == (4, 2, e[1]), 'output clip', vi.width, vi.height, vi.numFrames, 'instead of', e)
    for n in sorted({0, e[1] - 1}):
        buf = C.create_string_buffer(4096)
        f = A.getFrame(n, node, C.addressof(buf), 4096)
        if e[0] == 'fail':
            check(not f, 'failing clip delivered a frame')
            check(e[2].encode() in buf.value, 'frame error lacks the message', e[2], buf.value)
            continue
        check(f, 'frame', n, 'failed:', buf.value.decode('utf8', 'replace')[:1200])
        px = C.string_at(A.getReadPtr(f, 0), 4)
        x = e[2] if e[0] != 'eval' else (e[2] + n * (e[2] % 7)) % 256
        check(px == bytes([x] * 4), f'frame {n} of output has pixels {list(px)} instead of {x}', e)
        if e[0] == 'mod':
            p = A.getFramePropertiesRO(f)
            check(from_map(p, 'n') == (1, [n + e[2]]), 'ModifyFrame property', from_map(p, 'n'))
            check(from_map(p, 'same') == (1, [1]), 'the frame callback did not run in its own environment')
        A.freeFrame(f)


def op_outputs(w, hid, t, size, extra):
    h = w.h.get(hid)
    if h is None or h.err:
        return
    A = api()
    buf = (C.c_int * 64)(*([0x5a5a5a5a] * 64))
    n = call('getAvailableOutputNodes', t, h.p, size, buf if size > 0 else None, ret='i')
    check(n == len(h.outs), f'getAvailableOutputNodes returned {n} of', sorted(h.outs))
    k = min(n, max(size, 0))
    got = list(buf[:k])
    check(all(x == 0x5a5a5a5a for x in buf[k:]), 'wrote more than', k, 'indices')
    check(got == sorted(set(got)) and set(got) <= set(h.outs), 'indices', got, 'of', sorted(h.outs))
    if size >= n:
        check(got == sorted(h.outs), 'indices', got, 'of', sorted(h.outs))
    for idx in sorted(set(list(h.outs)[:6] + [extra, 0, 1])):
        node = call('getOutputNode', t, h.p, idx)
        alpha = call('getOutputAlphaNode', t, h.p, idx)
        alt = call('getAltOutputMode', t, h.p, idx, ret='i')
        if idx not in h.outs:
            check(not node and not alpha and alt == 0, f'index {idx} has an output:', node, alpha, alt)
            continue
        e, ea, ealt = h.outs[idx]
        check(node, f'no node at index {idx}, where the script set', e)
        check(bool(alpha) == (ea is not None), f'alpha at index {idx}:', alpha, ea)
        check(alt == ealt, f'alternative mode {alt} at index {idx} instead of {ealt}')
        check_node(w, h, node, e, h.vars)
        A.freeNode(node)
        if alpha:
            check_node(w, h, alpha, ea, h.vars)
            A.freeNode(alpha)
        w.labels.add('output checked')


def op_core(w, hid, t):
    h = w.h.get(hid)
    if h is None or h.err:
        return
    core = core_of(w, h, t)
    if h.threads is not None:
        ci = capi.CoreInfo2()
        api().getCoreInfo2(core, C.byref(ci)) if hasattr(api(), 'getCoreInfo2') else api().getCoreInfo(core, C.byref(ci))
        if ci.numThreads:
            check(ci.numThreads == h.threads, 'core has', ci.numThreads, 'threads instead of', h.threads)


def op_free(w, hid, t):
    h = w.h.pop(hid, None)
    if h is None:
        return
    watched = h.core is not None
    if watched:
        want = getattr(h, 'expect_logs', [])
        if want:
            dl = time.time() + 5
            while time.time() < dl and [x for x in h.logs if x[1].startswith(b'message ')] != want:
                time.sleep(0.001)
            check([x for x in h.logs if x[1].startswith(b'message ')] == want, 'log messages of the script', h.logs, 'instead of', want)
        check(h.logfree == 0, "the core was freed before its script")
    call('freeScript', t, h.p)
    if watched:
        dl = time.time() + 5
        while time.time() < dl and h.logfree == 0:
            time.sleep(0.001)
        check(h.logfree == 1, f'the core of a freed script still exists after 5 s (log handler freed {h.logfree} times)')
        w.labels.add('core freed' + (' after error' if h.err else ''))
    HANDLES.pop(h.uid, None)


def op_err(w, hid, t):
    h = w.h.get(hid)
    if h is None:
        return
    err = cstr(call('getError', t, h.p))
    check(err == h.err, 'getError', err, 'instead of', h.err)
    check(call('getExitCode', t, h.p, ret='i') == h.exit, 'exit code changed')


def op_null(w, hid, t):
    check(cstr(call('getError', t, None)), 'getError(NULL)')
    check(call('getExitCode', t, None, ret='i') == 0, 'getExitCode(NULL)')
    call('freeScript', t, None)


def op_cwd(w, hid, t, on):
    h = w.h.get(hid)
    if h is None or h.err:
        return
    call('evalSetWorkingDir', t, h.p, on)
    h.cwd = on


OPS = dict(create=op_create, eval=op_eval, set=op_set, get=op_get, outputs=op_outputs, core=op_core, free=op_free, err=op_err, null=op_null, cwd=op_cwd)


def perform(w, ops):
    for k, hid, t, *a in ops:
        if k != 'create' and hid not in w.h and k != 'null':
            op_create(w, hid, w.tid(t), None, 1)
        OPS[k](w, hid, w.tid(t), *a)


def finish(w):
    for hid in sorted(w.h):
        op_free(w, hid, w.tid(0))


def prepare():
    setup()
    sys.modules['_vfshared'].put.clear()
    old = os.getcwd()
    d = os.path.realpath(tempfile.mkdtemp(prefix='vss'))
    os.mkdir(d + '/sub')
    os.chdir(d)
    return d, old


def quiet():
    """VSScript replaces nothing of ours, but scripts may leave these behind."""
    sys.modules['_vfshared'].put.clear()


def run_serial(c):
    d, old = prepare()
    try:
        w = World(d)
        perform(w, c['ops'])
        finish(w)
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
        quiet()
    return sorted(w.labels), 'ok script' in w.labels and len(w.labels) > 4


def run_parallel(c):
    d, old = prepare()
    errs, worlds = [], []

    def go(i, ops):
        w = World(d, native=i + 1, ns=f't{i}')
        worlds.append(w)
        try:
            perform(w, ops)
            finish(w)
        except BaseException as e:
            errs.append(e)
    try:
        ts = [threading.Thread(target=go, args=(i, strip(ops, i))) for i, ops in enumerate(c['tracks'])]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
            check(not t.is_alive(), 'a script operation did not return')
        if errs:
            raise errs[0]
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
        quiet()
    labels = set().union(*[w.labels for w in worlds])
    return sorted(labels), 'ok script' in labels


def strip(ops, i):
    """Files of different tracks must not collide; the working directory belongs to the process."""
    out = []
    for o in json.loads(json.dumps(ops)):
        if o[0] == 'cwd':
            continue
        if o[0] == 'eval':
            if o[5] is not None:
                o[5] = o[5].replace('.vpy', f'{i}.vpy').replace('.py', f'{i}.py') if not o[5].endswith('.vpy') else o[5].replace('.vpy', f'{i}.vpy')
            o[3] = [s for s in o[3] if s[0] not in ('share', 'useshared')]
            if o[6] and (o[5] is None or o[5].startswith('<')) or (o[4] and o[4][0] == 'syntax' and o[4][1] == '\x00'):
                o[5] = f'f{i}.vpy'
        out.append(o)
    return out


CHECKS = {
    'serial': Sub(SERIAL, run_serial, quick=1000, thorough=20000, batch=25, timeout=120),
    'parallel': Sub(PARALLEL, run_parallel, quick=300, thorough=5000, batch=25, racy=True, timeout=120),
}
