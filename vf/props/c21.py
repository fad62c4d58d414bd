"""C21: any arguments give a clean error or a valid clip; calls of every built-in function with plausible and wild arguments under AddressSanitizer."""
import math
import numpy as np
from hypothesis import strategies as st
from vf.core import Sub, check
from vf import vsl

LIMIT = 6 << 20        # bytes of a frame that gets rendered
FORMATS = [[1, 0, 8, 0, 0], [1, 0, 16, 0, 0], [1, 1, 32, 0, 0], [1, 1, 16, 0, 0], [2, 0, 8, 0, 0], [2, 0, 16, 0, 0], [2, 1, 32, 0, 0], [3, 0, 8, 1, 1], [3, 0, 8, 0, 0], [3, 0, 8, 1, 0], [3, 0, 8, 0, 1], [3, 0, 8, 2, 2], [3, 0, 10, 1, 1],
           [3, 0, 16, 1, 1], [3, 1, 32, 1, 1], [3, 1, 32, 0, 0], [3, 1, 16, 0, 0], [1, 0, 32, 0, 0], [1, 0, 9, 0, 0], [3, 0, 32, 1, 0], [3, 0, 8, 3, 3], [3, 0, 8, 4, 0], [2, 0, 12, 0, 0], [2, 1, 16, 0, 0], [3, 0, 24, 0, 0], [1, 0, 31, 0, 0]]
WILD_INT = [0, 1, 2, 3, -1, -2, 4, 5, 7, 8, 16, 100, 255, 256, 1000, 65535, 65536, 2**31 - 1, -2**31, 2**31, 2**32, -2**32 - 1, 2**63 - 1, -2**63, 2**62, 10**6, 123456789, -100, 2**30, 2**24]
WILD_FLOAT = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 255.0, 65535.0, 65536.0, 1e9, -1e9, 1e300, -1e300, 1e-300, math.inf, -math.inf, math.nan, 3.7, 1e20, 4294967296.0, 2147483648.0, -2147483649.0, 1e39]
WILD_DATA = ['', 'a', 'abc', 's', 'h', 'v', 'hv', 'none', 'ordered', '_Field', '_FieldBased', 'x y +', 'ü☺', '\x00', 'a' * 5000, '\n\n\n', '_Transfer', '%s%n%d', '[', '(', '^(a+)+$', '.*', '*', 'a.b', '_Alpha', 'sine', '0', '-1']
PROPS = ['_Field', '_FieldBased', '_DurationNum', '_DurationDen', '_Range', '_Matrix', '_Transfer', '_Primaries', '_SARNum', '_SARDen', '_SceneChangePrev', '_SceneChangeNext', '_Combed', '_ChromaLocation', '_AbsoluteTime', '_PictType', '_Alpha', 'abc', 'PlaneStatsAverage', 'x' * 300, '_ColorRange']

iw = st.one_of(st.sampled_from(WILD_INT), st.integers(-20, 40), st.integers(-2**63, 2**63 - 1))
fw = st.one_of(st.sampled_from(WILD_FLOAT), st.floats(-10, 300, allow_nan=False), st.floats())
dw = st.one_of(st.sampled_from(WILD_DATA), st.text(max_size=40), st.sampled_from(PROPS))
small = st.integers(0, 6)
S = st.sampled_from


def arr(s, a=0, b=4):
    return st.lists(s, min_size=a, max_size=b)


def one_of_lists(s, sizes, wild=st.integers(0, 30)):
    return st.one_of(*[st.lists(s, min_size=n, max_size=n) for n in sizes])


vnode = st.tuples(st.just('v'), st.integers(0, 15)).map(list)
anode = st.tuples(st.just('a'), st.integers(0, 15)).map(list)
planes = st.lists(st.integers(0, 2), max_size=3, unique=True)
coordf = S([0.0, 1.0, 0.5, 128.0, 255.0, 16.0, 235.0, 65535.0])
plane_f = arr(coordf, 1, 3)
frames = arr(st.integers(0, 12), 1, 5)
OPS = ['x', 'y', 'z', 'a', 'b', 'x', 'x', '1', '0', '2', '0.5', '-1', '255', '1e9', '+', '-', '*', '/', 'max', 'min', 'sqrt', 'abs', 'not', 'and', 'or', 'xor', '>', '<', '=', '>=', '<=', '?', 'exp', 'log', 'pow', 'dup', 'dup1', 'dup3', 'swap', 'swap2', 'sin', 'cos', 'N', 'X', 'pi', '%', 'clip', 'nan', '1e400', '0x10', 'dup99999999999', 'swap-1', 'bitand']
ARITY = {'+': 2, '-': 2, '*': 2, '/': 2, 'max': 2, 'min': 2, 'sqrt': 1, 'abs': 1, 'not': 1, 'and': 2, 'or': 2, 'xor': 2, '>': 2, '<': 2, '=': 2, '>=': 2, '<=': 2, '?': 3, 'exp': 1, 'log': 1, 'pow': 2, 'sin': 1, 'cos': 1}


@st.composite
def s_expr(draw):
    if draw(st.integers(0, 4)) == 0:
        return ' '.join(draw(st.lists(S(OPS), max_size=25)))
    out, depth = [], 0
    for _ in range(draw(st.integers(1, 40))):
        o = draw(S([k for k, v in ARITY.items() if v <= depth] + ['x', 'x', 'y', '1', '0.5', '255', '3', '-2', '1000000', '1e-30'] + (['dup', 'swap1', 'dup1'] if depth > 1 else [])))
        out.append(o)
        depth += 1 - ARITY[o] if o in ARITY else 0 if o.startswith('swap') else 1
    out += ['+'] * (depth - 1)
    return ' '.join(out)


# parameters: name -> generator of plausible values. Everything not listed is filled according to its type.
P = {
    'clip': vnode, 'clipa': vnode, 'clipb': vnode, 'mask': vnode, 'mclip': vnode, 'prop_src': vnode, 'alpha': vnode, 'src': vnode, 'clips': arr(vnode, 1, 4), 'clip_src': arr(vnode, 1, 2),
    'planes': planes, 'left': S([0, 2, 4, 1, 8, 16]), 'right': S([0, 2, 4, 1, 8]), 'top': S([0, 2, 4, 1, 8]), 'bottom': S([0, 2, 4, 1]), 'x': S([0, 2, 4]), 'y': S([0, 2, 4]), 'color': plane_f, 'width': S([16, 8, 2, 64, 33, 1]), 'height': S([16, 8, 2, 64, 33, 1]),
    'fpsnum': S([24, 25, 30000, 0, 1, 2**31 - 1, 2**63 - 1]), 'fpsden': S([1, 1001, 0, 3, 2**31 - 1, 2**62]), 'length': S([1, 5, 100, 0, 2**31 - 1]), 'first': small, 'last': small, 'times': S([0, 1, 2, 3, 1000]), 'frames': frames,
    'weights': one_of_lists(S([1.0, 2.0, -1.0, 0.0, 1e9, 0.5]), [1, 2, 3, 5, 31]), 'scale': S([1, 2, 3, 0.5]), 'scenechange': S([0, 1]), 'threshold': plane_f, 'v0': plane_f, 'v1': plane_f, 'hradius': S([0, 1, 2, 5, 30, 100, 1000, 30000]), 'vradius': S([0, 1, 2, 5, 30, 1000, 30000]), 'hpasses': S([0, 1, 2, 3]),
    'vpasses': S([0, 1, 2, 3]), 'prop': S(PROPS), 'props': arr(S(PROPS + ['abc*', '*', '_*']), 0, 4), 'matrix': one_of_lists(S([1.0, 0.0, -1.0, 2.0, 1023.0, -1023.0, 0.3]), [9, 25, 3, 5, 25, 8]), 'bias': S([0.0, 10.0, -1e9, 1e30]), 'divisor': S([0.0, 1.0, 9.0, -3.0, 1e-30]), 'saturate': S([0, 1]), 'mode': S(['s', 'h', 'v', 'hv']),
    'coordinates': st.lists(st.integers(0, 1), min_size=8, max_size=8), 'expr': arr(s_expr(), 1, 3), 'format': S(['GRAY8', 'GRAY16', 'GRAYS', 'GRAYH', 'YUV420P8', 'YUV444P16', 'YUV444PS', 'RGB24', 'RGBS']).map(lambda n: ['fmt', n]), 'eval': st.tuples(st.just('f'), st.integers(0, 9)).map(list), 'selector': st.tuples(st.just('m'), st.integers(0, 9)).map(list),
    'function': st.tuples(st.just('l'), st.integers(0, 9)).map(list), 'extend': S([0, 1]), 'mismatch': S([0, 1]), 'modify_duration': S([0, 1]), 'replacement': small, 'min_in': plane_f, 'max_in': plane_f, 'min_out': plane_f, 'max_out': plane_f, 'gamma': arr(S([1.0, 0.1, 10.0, 0.5]), 1, 3), 'min': plane_f, 'max': plane_f, 'bits': S([8, 16, 10, 32, 9, 24]),
    'floatout': S([0, 1]), 'first_plane': S([0, 1]), 'premultiplied': S([0, 1]), 'weight': arr(S([0.0, 1.0, 0.5, 0.3]), 1, 3), 'upper': plane_f, 'lower': plane_f, 'plane': S([0, 1, 2]), 'index': S([0, 1]), 'cycle': S([2, 3, 5, 1]), 'offsets': arr(small, 1, 4), 'tff': S([0, 1]), 'value': S([0, 1, 2]), 'intval': arr(iw, 1, 3), 'floatval': arr(fw, 1, 3), 'data': arr(dw, 1, 3),
    'colorfamily': S([1, 2, 3]), 'text': S(['hi', 'a\nb\n', 'x' * 500, '\n' * 100, 'ü', '']), 'alignment': st.integers(1, 9), 'keep': S([0, 1]), 'varsize': S([0, 1]), 'varformat': S([0, 1]), 'size': S([0, 1, 10]), 'fixed': S([0, 1]), 'make_linear': S([0, 1]), 'fixedsize': S([0, 1]), 'maxsize': S([0, 1, 10]), 'maxhistory': S([0, 1, 10]),
    'gain': arr(S([1.0, 0.5, -1.0, 2.0]), 1, 3), 'overflow_error': S([0, 1]), 'channels_out': arr(S([0, 1, 2, 3, 10]), 1, 3), 'channels_in': arr(S([0, 1, -1, -2, 2]), 1, 3), 'channels': arr(S([0, 1, 2, 3, 4, 10]), 1, 4), 'samplerate': S([44100, 48000, 8000, 22050, 96000, 1, 11]), 'sampletype': S([0, 1]), 'dither_type': S(['none', 'tpdf', 'rectangular']), 'normalize': S([0, 1]), 'waveform': S(['sine', 'square', 'none', 'slope', 'triangle']),
    'amplitude': S([0.5, 1.0, 0.0]), 'frequency': S([440.0, 1.0, 20000.0]), 'cpu': S(['none', 'avx2', 'sse2', 'avx512', 'auto', '']),
}
PER = {     # overrides for one function
    ('FreezeFrames', 'first'): arr(small, 0, 3), ('FreezeFrames', 'last'): arr(small, 0, 3), ('FreezeFrames', 'replacement'): arr(small, 0, 3), ('ShufflePlanes', 'planes'): st.lists(st.integers(0, 2), min_size=1, max_size=3), ('Deflate', 'threshold'): coordf, ('Inflate', 'threshold'): coordf,
    ('Minimum', 'threshold'): coordf, ('Maximum', 'threshold'): coordf, ('AudioMix', 'matrix'): arr(S([1.0, 0.5, 0.0, -1.0]), 1, 6), ('FrameEval', 'prop_src'): arr(vnode, 0, 3), ('AverageFrames', 'scale'): S([1.0, 2.0, 0.0, 1e-9]), ('Lut', 'lut'): st.tuples(st.just('ramp'), S([256, 1024, 65536, 512, 255]), st.integers(-3, 300)).map(list),
    ('Lut', 'lutf'): st.tuples(st.just('rampf'), S([256, 1024, 65536]), st.integers(-3, 300)).map(list), ('Lut2', 'lut'): st.tuples(st.just('ramp'), S([65536, 65536 * 4, 65535]), st.integers(-3, 300)).map(list), ('Lut2', 'lutf'): st.tuples(st.just('rampf'), S([65536]), st.integers(-3, 300)).map(list),
    ('SetVideoCache', 'mode'): S([-1, 0, 1]), ('SetAudioCache', 'mode'): S([-1, 0, 1]), ('Lut2', 'bits'): S([8, 16, 10, 32]), ('Interleave', 'clips'): arr(vnode, 1, 3), ('AssumeSampleRate', 'src'): anode,
}
NEVER = {'LoadPlugin', 'LoadAllPlugins', 'SetMaxCPU'}
BOUND = {'hpasses': 12, 'vpasses': 12}      # parameters that are a plain amount of work


def signatures():
    import vapoursynth as vs
    out = {}
    for ns in ('std', 'text'):
        for f in getattr(vs.core.core, ns).functions():
            if f.name not in NEVER:
                out[ns + '.' + f.name] = [a.split(':') for a in f.signature.split(';') if a]
    return out


_SIG = {}


def sig():
    if not _SIG:
        vsl.core()
        _SIG.update(signatures())
    return _SIG


def fill(draw, fn, name, typ, wildness):
    base = fn.split('.')[1]
    wild = draw(st.integers(0, 99)) < wildness
    array = typ.endswith('[]')
    t = typ.rstrip('[]')
    if not wild:
        s = PER.get((base, name), P.get(name))
        if t == 'anode' and name in ('clip', 'src', 'clips'):
            s = arr(anode, 1, 4) if array else anode
        if s is not None:
            v = draw(s)
            if array and not (isinstance(v, list) and (not v or v[0] not in ('v', 'a', 'f', 'm', 'l', 'fmt') or len(v) != 2 or isinstance(v[1], list))):
                v = [v]
            return v
    el = dict(int=iw, float=fw, data=dw, vnode=vnode, anode=anode, func=st.tuples(S(['f', 'm', 'l']), st.integers(0, 9)).map(list)).get(t)
    if name in BOUND:
        el = st.integers(-3, BOUND[name])
    return draw(arr(el, 0, draw(S([1, 2, 3, 4, 10, 40])))) if array else draw(el)


@st.composite
def s_calls(draw, fns=None):
    names = sorted(sig()) if fns is None else fns
    srcs = draw(st.lists(st.tuples(st.integers(0, len(FORMATS) - 1), S([1, 2, 3, 4, 8, 16, 17, 31, 32, 33, 48, 64, 100, 256]), S([1, 2, 3, 4, 5, 8, 16, 24, 37]), st.integers(1, 6), vsl.s_content(wild=True)).map(list), min_size=1, max_size=4))
    if draw(st.integers(0, 2)):      # clips that fit each other
        srcs = [[srcs[0][0], srcs[0][1] * 8 // 8, srcs[0][2], x[3], x[4]] for x in srcs]
    auds = draw(st.lists(st.tuples(S([[0, 16], [0, 24], [0, 32], [1, 32], [0, 17]]), S([[0], [0, 1], [0, 1, 2, 3, 4, 5], [10, 12]]), S([1, 100, 3072, 3073, 7000]), S([44100, 8000, 48000, 1])).map(list), min_size=1, max_size=3))
    props = draw(st.lists(st.tuples(st.integers(0, 3), S(PROPS), st.one_of(iw, fw, dw, arr(iw, 0, 3), st.just(['frame']))).map(list), max_size=3))
    wildness = draw(S([0, 0, 5, 15, 15, 40, 90]))
    calls = []
    for _ in range(draw(st.integers(1, 4))):
        fn = draw(S(names))
        kw = {}
        for a in sig()[fn]:
            if a[0] == 'any':
                for _ in range(draw(st.integers(0, 3))):
                    kw[draw(S(PROPS)).rstrip('_') or 'z'] = draw(st.one_of(iw, fw, dw, arr(iw, 0, 3)))
                continue
            name, typ = a[0], a[1]
            opt = 'opt' in a[2:]
            if opt and draw(st.integers(0, 9)) < 5:
                continue
            kw[name] = fill(draw, fn, name, typ, wildness)
        calls.append([fn, kw])
    return dict(srcs=srcs, auds=auds, props=props, calls=calls)


def callback(nodes, kind, k):
    vs = vsl.vs
    if kind == 'f':
        node = nodes[k % len(nodes)]
        return [lambda n, f=None: node, lambda n, f=None: node, lambda n, f=None: nodes[n % len(nodes)], lambda n, f=None: 5, lambda n, f=None: None, lambda n: 1 // 0, lambda n, f=None: node[n % node.num_frames] if isinstance(node, vs.VideoNode) else node,
                lambda n, f=None: node.std.Invert(), lambda n, f=None: [node], lambda n, f=None: node.std.Crop(left=2)][k]
    if kind == 'm':
        first = lambda f: f[0] if isinstance(f, list) else f
        def prop(n, f):
            r = first(f).copy()
            r.props['_DurationNum'] = -1
            return r
        return [lambda n, f: first(f), lambda n, f: first(f).copy(), prop, lambda n, f: 5, lambda n, f: None, lambda n, f: 1 // 0, lambda n, f: nodes[0].get_frame(0), lambda n, f: vs.core.core.create_video_frame(vs.GRAY8, 2, 2), lambda n, f: nodes[0], lambda n, f: f[-1] if isinstance(f, list) else f][k]
    return [lambda x, y=0: x, lambda x, y=0: 255 - x if isinstance(x, int) else x, lambda x, y=0: x * 1.5, lambda x, y=0: 1 << 40, lambda x, y=0: -1, lambda x, y=0: 'a', lambda x, y=0: None, lambda x, y=0: 1 // 0, lambda x, y=0: math.nan, lambda x, y=0: 2**70][k]


def value(v, vn, an):
    if isinstance(v, list) and len(v) >= 2 and isinstance(v[0], str):
        k = v[0]
        if k == 'v' and isinstance(v[1], int) and len(v) == 2:
            return vn[v[1] % len(vn)]
        if k == 'a' and isinstance(v[1], int) and len(v) == 2:
            return an[v[1] % len(an)]
        if k in ('f', 'm', 'l') and isinstance(v[1], int) and len(v) == 2:
            return callback(list(vn), k, v[1] % 10)
        if k == 'fmt':
            return int(getattr(vsl.vs, v[1]))
        if k == 'ramp':
            return [i * v[2] // 7 % 256 if v[2] > 0 else i % 200 for i in range(v[1])]
        if k == 'rampf':
            return [i / v[1] * v[2] for i in range(v[1])]
    if isinstance(v, list):
        return [value(x, vn, an) for x in v]
    return v


def variable(n):
    return n.format is None or n.format.color_family == vsl.vs.UNDEFINED


def small_enough(n):
    vs = vsl.vs
    if isinstance(n, vs.AudioNode):
        return True
    if not n.width:
        return True
    return n.width * n.height * (4 if variable(n) else n.format.bytes_per_sample) * 4 <= LIMIT


def run_calls(c):
    vs, core = vsl.vs, vsl.core()
    labels = set()
    vn, an = [], []
    for fi, w, h, n, content in c['srcs']:
        f = vsl.F(*FORMATS[fi])
        w, h = max(1, w >> f.ssw) << f.ssw, max(1, h >> f.ssh) << f.ssh
        vn.append(core.std.BlankClip(format=f.id, width=w, height=h, length=n, keep=content[1] & 1) if f.bits > 16 and f.st == 0 else vsl.make_clip(f, w, h, n, content).node())
    for (sty, bits), ch, n, rate in c['auds']:
        an.append(core.std.BlankAudio(channels=ch, bits=bits, sampletype=sty, samplerate=rate, length=n, waveform='slope'))
    for i, k, v in c['props']:
        try:
            if v == ['frame']:
                vn[i % len(vn)] = core.std.ClipToProp(vn[i % len(vn)], vn[0], prop=k)
            else:
                vn[i % len(vn)] = core.std.SetFrameProps(vn[i % len(vn)], **{k: v})
        except vs.Error:
            pass
    made = 0
    todo = []
    for fn, kw in c['calls']:
        ns, name = fn.split('.')
        args = {k: value(v, vn, an) for k, v in kw.items()}
        try:
            r = getattr(getattr(core, ns), name)(**args)
        except vs.Error as e:
            check(len(str(e)) > 0, fn, 'failed without a message')
            labels.add('refused')
            continue
        except (OverflowError, ValueError, TypeError, ZeroDivisionError, UnicodeError) as e:
            labels.add('refused by Python')
            continue
        labels.add('ok:' + fn)
        for x in (r if isinstance(r, list) else list(r.values()) if isinstance(r, dict) else [r]):
            if fn == 'std.BlankClip' and (variable(x) or not x.width) and any(not isinstance(kw.get(k, 1), int) or kw.get(k, 1) > 2000 for k in ('width', 'height')):
                continue          # its declared properties don't tell how large its frames are
            if isinstance(x, vs.RawNode) and small_enough(x):
                (an if isinstance(x, vs.AudioNode) else vn).append(x)
                todo.append((fn, x))
    for fn, x in todo[:8]:
        video = isinstance(x, vs.VideoNode)
        last = x.num_frames - 1
        check(last >= 0, fn, 'returned an empty clip')
        for n in sorted({0, last, last // 2, min(last, 3)}):
            try:
                f = x.get_frame(n)
            except vs.Error as e:
                check(len(str(e)) > 0, fn, 'frame failed without a message')
                labels.add('frame error')
                continue
            except ZeroDivisionError:
                labels.add('frame error')
                continue
            if video:
                check(isinstance(f, vs.VideoFrame), fn, 'delivered', type(f))
                if x.format is not None and x.format.color_family != vs.UNDEFINED:
                    check(f.format.id == x.format.id, fn, f'frame {n} has format {f.format.name} instead of {x.format.name}')
                if x.width:
                    check((f.width, f.height) == (x.width, x.height), fn, f'frame {n} is {f.width}x{f.height} instead of {x.width}x{x.height}')
                s = sum(int(np.asarray(p).view(np.uint8).sum()) if p.shape[1] else 0 for p in map(np.ascontiguousarray, f))
            else:
                check(isinstance(f, vs.AudioFrame), fn, 'delivered', type(f))
                check(f.num_channels == x.num_channels and f.bits_per_sample == x.bits_per_sample and f.sample_type == x.sample_type and int(f.channel_layout) == int(x.channel_layout), fn, 'audio format of frame', n)
                want = min(3072, x.num_samples - n * 3072)
                check(len(f) == f.num_channels and len(f[0]) == want, fn, f'audio frame {n} has {len(f[0])} samples instead of {want}')
                s = sum(int(np.asarray(p).view(np.uint8).sum()) for p in f)
            dict(f.props)
            made += 1
    if made:
        labels.add('rendered')
    return labels, bool(labels)


CHECKS = dict(calls=Sub(st.deferred(lambda: s_calls()), run_calls, quick=6000, thorough=400000, batch=50, timeout=120))
