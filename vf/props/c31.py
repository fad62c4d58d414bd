"""C31 API 3 compatibility: the old API's map functions, filters, functions, formats and registry against the same models as the current ones."""
import ctypes as C, gc, os, re, threading, time
import numpy as np
import vapoursynth as vs
from hypothesis import strategies as st
from vf.core import Sub, check, Violation
from vf import capi, vsl
from vf.capi import api, api3, cstr
from vf.vsl import core, F, INT, FLOAT, GRAY, RGB, YUV
from vf.props import c01, c08
from vf.engine import perturb

GRAY3, RGB3, YUV3 = 1000000, 2000000, 3000000
CF3 = {GRAY: GRAY3, RGB: RGB3, YUV: YUV3}
TYPE3 = {b'i': c01.INT, b'f': c01.FLOAT, b's': c01.DATA, b'c': c01.VNODE, b'v': c01.VFRAME, b'm': c01.FUNC}
_s = {}


class Format3(C.Structure):
    _fields_ = [('name', C.c_char * 32)] + [(n, C.c_int) for n in ('id', 'colorFamily', 'sampleType', 'bitsPerSample', 'bytesPerSample', 'subSamplingW', 'subSamplingH', 'numPlanes')]

    def t(self):
        return (self.colorFamily, self.sampleType, self.bitsPerSample, self.bytesPerSample, self.subSamplingW, self.subSamplingH, self.numPlanes)


class CoreInfo3(C.Structure):
    _fields_ = [('versionString', C.c_char_p), ('core', C.c_int), ('api', C.c_int), ('numThreads', C.c_int), ('maxFramebufferSize', C.c_int64), ('usedFramebufferSize', C.c_int64)]


# ---------------------------------------------------------------- maps: each call through a drawn one of the two APIs
class Mix:
    """Same interface as the API 4 table; every call goes through the API 3 function of the same meaning when the drawn bits say so."""
    SIMPLE = dict(createMap='createMap', freeMap='freeMap', clearMap='clearMap', mapSetError='setError', mapGetError='getError', copyFrame='copyFrame', freeFrame='freeFrame', freeNode='freeNode',
                  freeFunction='freeFunc', getFramePropertiesRO='getFramePropsRO', getFramePropertiesRW='getFramePropsRW', addNodeRef='cloneNodeRef', addFrameRef='cloneFrameRef', addFunctionRef='cloneFuncRef',
                  getFrameWidth='getFrameWidth', getFrameHeight='getFrameHeight', mapNumKeys='propNumKeys', mapGetKey='propGetKey', mapNumElements='propNumElements', mapDeleteKey='propDeleteKey',
                  mapSetInt='propSetInt', mapSetFloat='propSetFloat', mapSetFunction='propSetFunc', mapSetIntArray='propSetIntArray', mapSetFloatArray='propSetFloatArray',
                  mapGetInt='propGetInt', mapGetFloat='propGetFloat', mapGetData='propGetData', mapGetDataSize='propGetDataSize', mapGetFunction='propGetFunc', mapGetIntArray='propGetIntArray', mapGetFloatArray='propGetFloatArray')

    def __init__(self, bits, gray, objs):
        self.a4, self.a3, self.bits, self.i, self.gray, self.objs = api(), api3(), bits, 0, gray, objs
        self.used = 0

    def three(self):
        self.i += 1
        b = self.bits[(self.i * 7 + self.i // 5) % len(self.bits)]
        self.used += b
        return b

    def __getattr__(self, name):
        f4 = getattr(self.a4, name)
        if name in self.SIMPLE:
            f3 = getattr(self.a3, self.SIMPLE[name])
            return lambda *a: (f3 if self.three() else f4)(*a)
        sp = getattr(self, 'x_' + name, None) if not name.startswith('x_') else None
        if sp:
            return lambda *a: sp(*a) if self.three() else f4(*a)
        return f4

    def x_mapGetType(self, m, k):
        t4 = self.a4.mapGetType(m, k)
        c = self.a3.propGetType(m, k)
        if c == b'u':
            return t4 if t4 in (c01.UNSET, c01.ANODE, c01.AFRAME) else -99
        return TYPE3.get(c, -98)

    def x_mapSetData(self, m, k, d, size, hint, app):
        if hint != -1:
            return self.a4.mapSetData(m, k, d, size, hint, app)
        return self.a3.propSetData(m, k, d, size, app)

    def x_mapSetNode(self, m, k, n, app):
        return (self.a3.propSetNode if self.a4.getNodeType(n) == 1 else self.a4.mapSetNode)(m, k, n, app)

    def x_mapSetFrame(self, m, k, f, app):
        return (self.a3.propSetFrame if self.a4.getFrameType(f) == 1 else self.a4.mapSetFrame)(m, k, f, app)

    def x_mapGetNode(self, m, k, i, e):
        return (self.a4.mapGetNode if self.a4.mapGetType(m, k) == c01.ANODE else self.a3.propGetNode)(m, k, i, e)

    def x_mapGetFrame(self, m, k, i, e):
        return (self.a4.mapGetFrame if self.a4.mapGetType(m, k) == c01.AFRAME else self.a3.propGetFrame)(m, k, i, e)

    def x_mapSetEmpty(self, m, k, t):
        if self.a4.mapGetType(m, k) != c01.UNSET or t not in (c01.INT, c01.FLOAT, c01.DATA, c01.VNODE, c01.VFRAME, c01.FUNC):
            return self.a4.mapSetEmpty(m, k, t)
        if t == c01.INT:
            return self.a3.propSetInt(m, k, 5, 2)
        if t == c01.FLOAT:
            return self.a3.propSetFloat(m, k, 5.0, 2)
        if t == c01.DATA:
            return self.a3.propSetData(m, k, b'zz', 2, 2)
        if t == c01.VNODE:
            return self.a3.propSetNode(m, k, self.objs['vn', 0], 2)
        if t == c01.VFRAME:
            return self.a3.propSetFrame(m, k, self.objs['vf', 0], 2)
        return self.a3.propSetFunc(m, k, self.objs['fn', 0], 2)

    def x_newVideoFrame(self, f, w, h, ps, core):
        return self.a3.newVideoFrame(self.gray, w, h, ps, core)

    def x_newVideoFrame2(self, f, w, h, ps, pl, src, core):
        return self.a3.newVideoFrame2(self.gray, w, h, ps, pl, src, core)


def cenv():
    if 'env' not in _s:
        e = _s['env'] = c01.env()
        _s['gray'] = api3().registerFormat(GRAY3, 0, 8, 0, 0, e.core)
        check(_s['gray'], 'Gray8 not registered')
    return _s['env']


@st.composite
def s_maps(draw):
    return dict(ops=draw(st.lists(c01.s_op, min_size=2, max_size=24)), order=draw(st.lists(st.integers(0, 96), min_size=3, max_size=17)), bits=draw(st.lists(st.integers(0, 1), min_size=3, max_size=11)))


def run_maps(c):
    cenv()
    w = c01.World()
    w.A = Mix(c['bits'], _s['gray'], w.obj)
    labels = set()
    for i, op in enumerate(c['ops']):
        labels.add(f'{op[0]}:{w.step(op)}')
        for s in range(c01.NMAP + c01.NFR):
            w.verify(s, f'after step {i} {op}, slot {s}:')
    n = w.A.used
    w.finish(c['order'])
    return labels, n > 20


# ---------------------------------------------------------------- filters written against API 3 in graphs with current ones
def v3():
    cr = core()
    if not hasattr(cr, 'v3'):
        cr.std.LoadPlugin(os.path.join(os.environ['VF_OUT'], 'libvfv3.so'))
    return cr.v3


FMTS = [[GRAY, INT, 8, 0, 0], [YUV, INT, 8, 1, 1], [RGB, INT, 16, 0, 0], [GRAY, FLOAT, 32, 0, 0], [YUV, INT, 10, 1, 0], [YUV, INT, 12, 2, 3], [RGB, INT, 31, 0, 0], [GRAY, INT, 32, 0, 0], [YUV, FLOAT, 32, 0, 1], [GRAY, INT, 9, 0, 0], [YUV, INT, 16, 0, 0]]
PRESET = {'Gray8': GRAY3 + 10, 'Gray16': GRAY3 + 11, 'GrayH': GRAY3 + 12, 'GrayS': GRAY3 + 13, 'RGB24': RGB3 + 10, 'RGB27': RGB3 + 11, 'RGB30': RGB3 + 12, 'RGB48': RGB3 + 13, 'RGBH': RGB3 + 14, 'RGBS': RGB3 + 15}
PRESET.update({n: YUV3 + 10 + i for i, n in enumerate('YUV420P8 YUV422P8 YUV444P8 YUV410P8 YUV411P8 YUV440P8 YUV420P9 YUV422P9 YUV444P9 YUV420P10 YUV422P10 YUV444P10 YUV420P16 YUV422P16 YUV444P16 YUV444PH YUV444PS YUV420P12 YUV422P12 YUV444P12 YUV420P14 YUV422P14 YUV444P14'.split())})


def source(f, w, h, n, seed):
    frames, props = [], []
    for i in range(n):
        fr = []
        for p in range(f.planes):
            pw, ph = f.dims(p, w, h)
            x, y = np.arange(pw, dtype=np.uint64)[None, :], np.arange(ph, dtype=np.uint64)[:, None]
            v = ((np.uint64(seed * 2654435761 % 2**32) + (np.uint64(i * 7 + p * 11) + x * np.uint64(3) + y * np.uint64(5)) * np.uint64(40503)) & np.uint64(0xffffffff)) >> np.uint64(8)
            fr.append(((v & np.uint64(255)).astype(np.float32) / np.float32(256)) if f.st == FLOAT else (v & np.uint64(f.peak)).astype(f.dtype))
        frames.append(fr)
        props.append(dict(src=[seed * 1000 + i], arr=[i, -i, seed][:i % 4], tag=[f'n{i}'.encode()], half=[i / 2, 0.5], touched=[]))
    return frames, props


class M:
    """Model node: per frame either (format, w, h, planes, props) or a set of possible error messages."""
    def __init__(self, node, frames, fmt, w, h, fps):
        self.node, self.frames, self.fmt, self.w, self.h, self.fps = node, frames, fmt, w, h, fps

    def at(self, n):
        return self.frames[max(0, min(n, len(self.frames) - 1))]


def g17(v):
    return '%.17g' % v


def desc(fr):
    f, w, h, pl, props = fr
    out = set()
    for k, vals in props.items():
        if k == 'desc':
            continue
        ty = 'f' if k == 'half' else 's' if k == 'tag' else 'i'
        out.add(' '.join([k, ty, str(len(vals))] + [g17(v) if ty == 'f' else 'x' + v.hex() if ty == 's' else str(v) for v in vals]))
    return out


KINDS = ['source', 'source', 'map', 'map', 'sum', 'shift', 'shift', 'props', 'trim', 'reverse', 'flip', 'splice', 'mismatch', 'via_reverse', 'via_trim', 'via_splice', 'setprop', 'cache']


@st.composite
def s_filters(draw):
    L = st.integers(1, 14)
    nodes = []
    nf = draw(st.integers(1, 2))
    fmts = draw(st.lists(st.sampled_from(FMTS), min_size=nf, max_size=nf))
    sizes = [[4 * draw(st.integers(1, 6)), 8 * draw(st.integers(1, 2))] for _ in range(nf)]
    for i in range(draw(st.integers(2, 8))):
        k = 'source' if i == 0 else draw(st.sampled_from(KINDS))
        nodes.append(dict(kind=k, src=[draw(st.integers(0, 30)) for _ in range(draw(st.integers(1, 3)))], seed=draw(st.integers(0, 90)), fmt=draw(st.integers(0, nf - 1)), n=draw(L), mode=draw(st.integers(0, 3)),
                          flags=draw(st.sampled_from([0, 0, 1, 3, 4, 4, 5, 7])), delay=draw(st.sampled_from([0, 0, 0, 20, 100])), fail=draw(st.one_of(st.just([]), st.just([]), st.just([]), st.lists(st.integers(0, 13), max_size=3, unique=True))),
                          mul=draw(st.sampled_from([1, 1, 2, 3, 5])), add=draw(st.sampled_from([0, 0, 1, 77])), shift=draw(st.integers(-9, 9)), fps=draw(st.sampled_from([[25, 1], [24000, 1001], [0, 0 + 1]]))))
    return dict(fmts=fmts, sizes=sizes, nodes=nodes, threads=draw(st.integers(1, 6)), outs=draw(st.lists(st.integers(0, 30), min_size=1, max_size=3)),
                req=draw(st.lists(st.integers(0, 13), min_size=1, max_size=24)), window=draw(st.sampled_from([1, 3, 24])), sync=draw(st.integers(0, 3)) == 0,
                sched=draw(st.one_of(st.none(), st.tuples(st.integers(1, 2**31), st.integers(5, 120), st.sampled_from([5, 40, 150])).map(list))))


def build(c, labels):
    p3 = v3()
    std = core().std
    out = []
    for d in c['nodes']:
        k = d['kind']
        if k == 'source':
            f = F(*c['fmts'][d['fmt']])
            w, h = c['sizes'][d['fmt']]
            h -= h % 8 if f.ssh == 3 else 0
            flags, mode, fail = d['flags'], d['mode'], [x for x in d['fail'] if x < d['n']]
            if flags & 4:
                # only makes sense when one frame is made at a time; what a failure in the middle of a skip does is left open
                mode, fail = 2 + mode % 2, []
            fps = d['fps'] if d['fps'][0] else [0, 0]
            node = p3.Source(family=CF3[f.cf], st=f.st, bits=f.bits, ssw=f.ssw, ssh=f.ssh, width=w, height=h, length=d['n'], fpsnum=fps[0], fpsden=fps[1], mode=mode, flags=flags, delay=d['delay'], fail=fail, seed=d['seed'])
            fr, pr = source(f, w, h, d['n'], d['seed'])
            frames = [({f'made to fail {i}'} if i in fail else (f, w, h, fr[i], pr[i])) for i in range(d['n'])]
            out.append(M(node, frames, f, w, h, fps))
            labels.add(f'source mode{mode} flags{flags}')
            continue
        s = [out[i % len(out)] for i in d['src']]
        a = s[0]
        kw = dict(mode=d['mode'], flags=d['flags'] & 3 | (4 if d['flags'] & 4 else 0), delay=d['delay'], seed=d['seed'])
        var = a.fmt is None or not a.w
        if k in ('map', 'sum') and var:
            k = 'shift'
        n = len(a.frames)
        if k in ('map', 'sum', 'shift', 'props'):
            kw['fail'] = [x for x in d['fail'] if x < n]
        if k == 'sum':
            s = [x for x in s if x.fmt == a.fmt and (x.w, x.h) == (a.w, a.h)] if a.fmt is not None else [a]
            s = [x for x in s if x.fmt is not None]
            n = max(len(x.frames) for x in s)
            kw['fail'] = [x for x in d['fail'] if x < n]
        fmt, w, h, fps = a.fmt, a.w, a.h, a.fps
        frames = []
        bad = lambda i: {f'made to fail {i}'} if i in kw.get('fail', []) else None
        if k == 'map':
            node = p3.Map(a.node, mul=d['mul'], add=d['add'], **kw)
            for i in range(n):
                x = a.at(i)
                if isinstance(x, set):
                    frames.append(x)
                elif bad(i):
                    frames.append(bad(i))
                else:
                    f = x[0]
                    pl = [(p * np.float32(d['mul']) + np.float32(d['add'])).astype(np.float32) if f.st == FLOAT else ((p.astype(np.uint64) * np.uint64(d['mul']) + np.uint64(d['add'])) & np.uint64(f.peak)).astype(f.dtype) for p in x[3]]
                    frames.append((f, x[1], x[2], pl, x[4]))
        elif k == 'sum':
            node = p3.Sum([x.node for x in s], **kw)
            for i in range(n):
                xs = [x.at(i) for x in s]
                e = set().union(*[x for x in xs if isinstance(x, set)])
                if e:
                    frames.append(e)
                elif bad(i):
                    frames.append(bad(i))
                else:
                    f = xs[0][0]
                    pl = []
                    for p in range(f.planes):
                        if f.st == FLOAT:
                            pl.append(sum(x[3][p].astype(np.float64) for x in xs).astype(np.float32))
                        else:
                            pl.append((sum(x[3][p].astype(np.uint64) for x in xs) & np.uint64(f.peak)).astype(f.dtype))
                    frames.append((f, xs[0][1], xs[0][2], pl, xs[-1][4]))
        elif k == 'shift':
            node = p3.Shift(a.node, d['shift'], **kw)
            for i in range(n):
                x = a.at(i + d['shift'])
                if isinstance(x, set):
                    frames.append(x)
                elif bad(i):
                    frames.append(bad(i))
                else:
                    pr = {q: v for q, v in x[4].items() if q != 'tag'}
                    pr['shifted'] = pr.get('shifted', []) + [d['shift']]
                    frames.append(x[:4] + (pr,))
        elif k == 'props':
            node = p3.Props(a.node, **kw)
            for i in range(n):
                x = a.at(i)
                frames.append(x if isinstance(x, set) else bad(i) or x[:4] + ({**x[4], 'desc': x},))
        elif k in ('trim', 'via_trim'):
            m = 1 + d['seed'] % n
            node = std.Trim(a.node, length=m) if k == 'trim' else p3.ViaStd(a.node, 'Trim', arg='length', n=m)
            frames = a.frames[:m]
        elif k in ('reverse', 'via_reverse'):
            node = std.Reverse(a.node) if k == 'reverse' else p3.ViaStd(a.node, 'Reverse')
            frames = a.frames[::-1]
        elif k == 'flip':
            node = std.FlipVertical(a.node)
            frames = [x if isinstance(x, set) else x[:3] + ([p[::-1] for p in x[3]], x[4]) for x in a.frames]
        elif k == 'via_splice':
            node = p3.ViaStd(a.node, 'Splice', splice=1)
            frames = a.frames * 2
        elif k in ('splice', 'mismatch'):
            b = s[-1]
            if k == 'splice' and (b.fmt != a.fmt if a.fmt and b.fmt else True or (a.w, a.h) != (b.w, b.h)) or (k == 'splice' and (a.w, a.h) != (b.w, b.h)):
                b = a
            node = std.Splice([a.node, b.node], mismatch=k == 'mismatch')
            frames = a.frames + b.frames
            if a.fmt is None or b.fmt is None or a.fmt != b.fmt:
                fmt = None
            if (a.w, a.h) != (b.w, b.h):
                w = h = 0
            if a.fps != b.fps:
                fps = None
        elif k == 'setprop':
            node = std.SetFrameProps(a.node, src=d['seed'])
            frames = [x if isinstance(x, set) else x[:4] + ({**x[4], 'src': [d['seed']]},) for x in a.frames]
        else:
            node = std.SetVideoCache(a.node, mode=d['seed'] % 2) or a.node
            frames = a.frames
        labels.add(k)
        out.append(M(node, frames, fmt, w, h, fps))
    return out


def listed(v):
    if isinstance(v, (bytes, str)):
        v = [v]
    elif not hasattr(v, '__len__'):
        v = [v]
    return [x.encode() if isinstance(x, str) else x for x in v]


def verify_frame(fr, want, what):
    f, w, h, pl, props = want
    check(not isinstance(want, set), what, 'delivered a frame, expected an error')
    check(vsl.fmt_of(fr.format) == f and (fr.width, fr.height) == (w, h), what, 'format or size', fr.format.name, fr.width, fr.height)
    vsl.same_planes(vsl.planes(fr), pl, what)
    got = {k: v for k, v in fr.props.items()}
    check(set(got) == set(props), what, 'property names', sorted(got), sorted(props))
    for k, v in props.items():
        if k == 'desc':
            g = got[k]
            lines = set((g.decode() if isinstance(g, bytes) else g).strip('\n').split('\n'))
            fl = {x for x in lines if x.startswith('format ')}
            # a description made earlier is itself a property: its text is not repeated in the model
            lines = {x for x in lines if not x.startswith('desc s ')}
            check(len(fl) == 1, what, 'no format line')
            fl = fl.pop()
            check(lines - {fl} == desc(v), what, 'described through API 3 as', sorted(lines - {fl} - desc(v)), 'want', sorted(desc(v) - lines))
            nm, i = fl.split(' ')[1:3]
            check(nm == c08.name(v[0].cf, v[0].st, v[0].bits, v[0].ssw, v[0].ssh), what, fl)
            check(nm not in PRESET or int(i) == PRESET[nm], what, fl, 'preset id')
            check(nm in PRESET or int(i) // 1000000 * 1000000 == CF3[v[0].cf], what, fl, 'id')
            check('other pointer' not in fl, what, fl)
        else:
            check(listed(got[k]) == v, what, 'property', k, got[k], 'want', v)


def alive(want, what):
    p3 = v3()
    end = time.time() + 10
    while True:
        gc.collect()
        n = p3.Alive()
        if n == want:
            return
        if time.time() > end:
            raise Violation(f'{what}: {n} filter instances and functions alive, want {want}')
        time.sleep(0.005)


def run_filters(c):
    labels = set()
    cr = core()
    cr.num_threads = c['threads']
    perturb(c['sched'])
    try:
        base = v3().Alive()
        nodes = build(c, labels)
        outs = [nodes[i % len(nodes)] for i in c['outs']]
        for m in outs:
            check(m.node.num_frames == len(m.frames), 'length', m.node.num_frames, len(m.frames))
            check((m.node.format is None or int(m.node.format.color_family) == 0) if m.fmt is None else vsl.fmt_of(m.node.format) == m.fmt, 'format of the clip', m.node.format)
            check((m.node.width, m.node.height) == (m.w, m.h), 'size of the clip', m.node.width, m.node.height, m.w, m.h)
            if m.fps is not None:
                check([m.node.fps_num, m.node.fps_den] == list(m.fps), 'rate of the clip', m.node.fps, m.fps)
            # what the API 3 side sees of a clip
            r = v3().Info(m.node)
            r = r if isinstance(r, dict) else dict(vi=r)
            check(list(r['vi'])[:3] == [m.w, m.h, len(m.frames)], 'API 3 video info', list(r['vi']))
            check(list(r['vi'])[3:] == [m.node.fps_num, m.node.fps_den], 'API 3 rate', list(r['vi']))
            check(('format' in r) == (m.fmt is not None), 'API 3 format of the clip', dict(r))
            if m.fmt is not None:
                f = m.fmt
                check(list(r['format'])[1:] == [CF3[f.cf], f.st, f.bits, f.bytes, f.ssw, f.ssh, f.planes] and r['same'] == 1, 'API 3 format', list(r['format']), r['same'])
        ok = err = 0
        todo = [(m, n % len(m.frames)) for m in outs for n in c['req']]

        def result(m, n, get):
            nonlocal ok, err
            what = f'frame {n} of node {nodes.index(m)} ({c["nodes"][nodes.index(m)]["kind"]})'
            want = m.at(n)
            try:
                fr = get()
            except vs.Error as e:
                check('V3:' not in str(e), what, str(e))
                check(isinstance(want, set) and any(str(e).endswith(x) for x in want), what, 'failed with', repr(str(e)), 'want', want if isinstance(want, set) else 'a frame')
                err += 1
                return
            check(not isinstance(want, set), what, 'delivered a frame, expected', want)
            with fr:
                verify_frame(fr, want, what)
            ok += 1
        if c['sync']:
            for m, n in todo:
                result(m, n, lambda: m.node.get_frame(n))
        else:
            for i in range(0, len(todo), c['window']):
                fs = [(m, n, m.node.get_frame_async(n)) for m, n in todo[i:i + c['window']]]
                for m, n, f in fs:
                    result(m, n, lambda: f.result(60))
                f = fs = None
        if err:
            labels.add('errors')
        del nodes, outs, todo, m
        alive(base, 'after dropping every clip')
    finally:
        perturb(None)
        cr.num_threads = vsl.THREADS
    return labels, ok > 0 and len(c['nodes']) > 2


# ---------------------------------------------------------------- arguments and results of functions
i64 = c01.i64
f64 = st.floats(allow_nan=False, width=64)


@st.composite
def s_calls(draw):
    num = st.integers(0, 3)
    return dict(i=draw(st.one_of(st.none(), st.lists(i64, max_size=4))), f=draw(st.one_of(st.none(), st.lists(f64, max_size=4))), d=draw(st.one_of(st.none(), st.lists(st.one_of(st.binary(max_size=8).map(lambda b: b.hex()), st.text(alphabet='aé ñ', max_size=5)).map(str), max_size=3))),
                c=draw(st.lists(num, max_size=3)), v=draw(st.lists(num, max_size=3)), m=draw(st.lists(st.tuples(st.booleans(), st.integers(-5, 5)).map(list), max_size=3)), what=draw(st.sampled_from([0, 0, 0, 1, 2])), audio=draw(st.integers(0, 5)), hexd=draw(st.booleans()), k=draw(st.integers(-9, 9)))


def run_calls(c):
    p3 = v3()
    gc.collect()
    base = p3.Alive()
    std = core().std
    clips = [std.BlankClip(length=3 + 2 * k, width=16, height=16) for k in range(4)]
    frames = [std.BlankClip(length=1, width=16 * (k + 1), height=16).get_frame(0) for k in range(4)]
    kw, lines = {}, {}

    def ln(key, ty, vals):
        lines[key] = ' '.join([key, ty, str(len(vals))] + vals)
    if c['i'] is not None:
        kw['i'] = c['i']
        ln('i', 'i', [str(x) for x in c['i']])
    if c['f'] is not None:
        kw['f'] = c['f']
        ln('f', 'f', [g17(x) for x in c['f']])
    if c['d'] is not None:
        def as_data(s):
            if c['hexd'] and re.fullmatch('([0-9a-f]{2})*', s):
                return bytes.fromhex(s)
            return s
        kw['d'] = [as_data(s) for s in c['d']]
        ln('d', 's', ['x' + (x if isinstance(x, bytes) else x.encode()).hex() for x in kw['d']])
    if c['c']:
        kw['c'] = [clips[k] for k in c['c']]
        ln('c', 'c', [str(3 + 2 * k) for k in c['c']])
    if c['v']:
        kw['v'] = [frames[k] for k in c['v']]
        ln('v', 'v', [str(16 * (k + 1)) for k in c['v']])
    called = []

    def pyf(k):
        def fn(x):
            called.append(x)
            return x * k if abs(x * k) < 2**63 else 0
        return fn
    if c['m']:
        kw['m'] = [p3.Func(k=k) if v else pyf(k) for v, k in c['m']]
        ln('m', 'm', ['f'] * len(c['m']))
    text = p3.Args(**kw)
    text = text.decode() if isinstance(text, bytes) else text
    got = text.split('\n')
    n = len(lines)
    check(set(got[:n]) == set(lines.values()), 'arguments seen by an API 3 function', got[:n], 'want', sorted(lines.values()))
    x = c['i'][0] if c['i'] else -1
    x = (x + 2**31) % 2**32 - 2**31
    rest = [g for g in got[n:] if g]
    want = [f'called val i 1 {x * k}' if (not v or True) else '' for v, k in c['m']]
    check(rest == want, 'calls made by an API 3 function', rest, 'want', want)
    check(called == [x for v, k in c['m'] if not v], 'calls seen by Python', called)
    # and back
    kw2 = {k: v for k, v in kw.items() if len(v)}
    what = c['what']
    try:
        r = p3.Echo(what=what, **kw2)
    except vs.Error as e:
        check(what == 1 and 'error on request' in str(e), 'Echo failed', str(e))
        r = None
    else:
        check(what != 1, 'Echo set an error and it was lost')
        if what == 2:
            check(r is None, 'an empty result came back as', r)
        else:
            r = r if isinstance(r, dict) else {'owhat': r}
            check(set(r) == {'o' + k for k in kw2} | {'owhat'} and r['owhat'] == 0, 'keys returned', sorted(r))
            for k, v in kw2.items():
                g = r['o' + k]
                g = list(g) if isinstance(g, (list, tuple)) or (hasattr(g, '__len__') and k in 'if') else [g]
                if k in 'if':
                    check([c01.bits(float(y) if k == 'f' else y) for y in g] == [c01.bits(float(y) if k == 'f' else y) for y in v], 'returned', k, g, v)
                elif k == 'd':
                    e = lambda y: y if isinstance(y, bytes) else y.encode()
                    check([e(y) for y in g] == [e(y) for y in v], 'returned data', g, v)
                elif k == 'c':
                    check([y.num_frames for y in g] == [y.num_frames for y in v], 'returned clips')
                elif k == 'v':
                    check([y.width for y in g] == [y.width for y in v] and all(np.array_equal(vsl.planes(y)[0], vsl.planes(z)[0]) for y, z in zip(g, v)), 'returned frames')
                else:
                    for y, (is3, q) in zip(g, c['m']):
                        check(y(x=7) == 7 * q, 'returned function gives', y(x=7), 7 * q)
                y = None
            g = None
    # values API 3 does not know must be refused, not delivered
    fn = p3.Func(k=c['k'])
    check(fn(x=3) == 3 * c['k'], 'function of an API 3 plugin')
    if c['audio'] == 0:
        a = std.BlankAudio(length=100)
        vsl.expect_error(lambda: fn(x=1, a=a), 'an API 3 function called with an audio clip')
        vsl.expect_error(lambda: p3.Args(c=[a]), 'an audio clip for a clip argument')
        vsl.expect_error(lambda: p3.Args(v=[a.get_frame(0)]), 'an audio frame for a frame argument')
        a = None
    for k in frames:
        k.close()
    frames = clips = kw = kw2 = r = fn = v = k = None
    alive(base, 'after dropping everything')
    return {f'echo{what}'} | {f'{k}{min(2, len(c[k]))}' for k in 'ifdcvm' if c[k] is not None}, n > 0


# ---------------------------------------------------------------- formats and registry seen through API 3
@st.composite
def s_registry(draw):
    return dict(threads=draw(st.integers(0, 9)), fmts=draw(st.lists(st.tuples(c08.s_params(), st.integers(0, 3)).map(list), min_size=1, max_size=12)), load=draw(st.booleans()), size=draw(st.sampled_from([0, -1, 1 << 20, 1 << 28, 5 << 30])), t2=draw(st.integers(1, 12)), dims=[draw(st.integers(1, 30)), draw(st.integers(1, 9))],
                pick=draw(st.integers(0, 200)))


def s_of(m):
    A = api3()
    out = {}
    for i in range(A.propNumKeys(m)):
        k = cstr(A.propGetKey(m, i))
        out[k.decode()] = C.string_at(A.propGetData(m, k, 0, None), A.propGetDataSize(m, k, 0, None)).decode()
    return out


def v3sig(sig):
    """Signature of a current function as API 3 shows it, None when it uses types API 3 does not have."""
    out = ''
    for a in [x for x in sig.split(';') if x]:
        p = a.split(':')
        if len(p) < 2:
            return None
        t = p[1][:-2] if p[1].endswith('[]') else p[1]
        if t in ('anode', 'aframe'):
            return None
        t = {'vnode': 'clip', 'vframe': 'frame'}.get(t, t)
        out += p[0] + ':' + t + ('[]' if p[1].endswith('[]') else '') + (':opt' if 'opt' in p[2:] else '') + (':empty' if 'empty' in p[2:] else '') + ';'
    return out


def run_registry(c):
    A4, A3 = api(), api3()
    labels = set()
    for v in (0, 3, 3 << 16, 3 << 16 | 1, 3 << 16 | 6):
        check(bool(capi.lib().getVapourSynthAPI(v)) == (v != 0), 'API version', hex(v))
    for v in (3 << 16 | 7, 2 << 16, 5 << 16, 1 << 16):
        check(not capi.lib().getVapourSynthAPI(v), 'unknown API version', hex(v), 'accepted')
    co = A3.createCore(c['threads'])
    check(co, 'no core')
    try:
        i = C.cast(A3.getCoreInfo(co), C.POINTER(CoreInfo3)).contents
        j = CoreInfo3()
        A3.getCoreInfo2(co, C.addressof(j))
        k = capi.CoreInfo2()
        A4.getCoreInfo2 if hasattr(A4, 'getCoreInfo2') else None
        (A4.getCoreInfo2 if hasattr(A4, 'getCoreInfo2') else A4.getCoreInfo)(co, C.byref(k))
        for q in (i, j):
            check(q.versionString == k.versionString and q.numThreads == k.numThreads and q.maxFramebufferSize == k.maxFramebufferSize and q.usedFramebufferSize == 0, 'core info', q.numThreads, k.numThreads, q.maxFramebufferSize, k.maxFramebufferSize)
        if c['threads']:
            check(i.numThreads == c['threads'], 'createCore threads', c['threads'], i.numThreads)
        else:
            check(i.numThreads > 0, 'default threads', i.numThreads)
        check(A3.setThreadCount(c['t2'], co) == c['t2'], 'setThreadCount')
        A3.getCoreInfo2(co, C.addressof(j))
        check(j.numThreads == c['t2'], 'threads after setThreadCount', j.numThreads)
        was = j.maxFramebufferSize
        r = A3.setMaxCacheSize(c['size'], co)
        check(r == (was if c['size'] <= 0 else c['size']) and A4.setMaxCacheSize(0, co) == r, 'setMaxCacheSize', c['size'], r)
        std = A3.getPluginById(b'com.vapoursynth.std', co)
        check(std and A3.getPluginByNs(b'std', co) == std and not A3.getPluginByNs(b'nope', co) and not A3.getPluginById(b'std', co), 'plugin lookup')
        if c['load']:
            m = A3.createMap()
            A3.propSetData(m, b'path', os.path.join(os.environ['VF_OUT'], 'libvfv3.so').encode(), -1, 0)
            r = A3.invoke(std, b'LoadPlugin', m)
            check(not A3.getError(r), 'LoadPlugin', cstr(A3.getError(r)))
            A3.freeMap(r)
            r = A3.invoke(std, b'LoadPlugin', m)
            check(A3.getError(r), 'the same plugin loaded twice')
            A3.freeMap(r)
            A3.freeMap(m)
            p = A3.getPluginById(b'verif.v3', co)
            check(p and A3.getPluginByNs(b'v3', co) == p and A4.getPluginByID(b'verif.v3', co) == p, 'loaded plugin not found')
            check(A4.getPluginVersion(p) is not None and os.path.samefile(cstr(A3.getPluginPath(p)).decode(), os.path.join(os.environ['VF_OUT'], 'libvfv3.so')), 'plugin path', cstr(A3.getPluginPath(p)))
        pm = A3.getPlugins(co)
        plugins = s_of(pm)
        A3.freeMap(pm)
        want, p = [], None
        while True:
            p = A4.getNextPlugin(p, co)
            if not p:
                break
            want.append((cstr(A4.getPluginNamespace(p)) + b';' + cstr(A4.getPluginID(p)) + b';' + cstr(A4.getPluginName(p))).decode())
            fm = A3.getFunctions(p)
            fs = s_of(fm)
            A3.freeMap(fm)
            f, wf = None, {}
            while True:
                f = A4.getNextPluginFunction(f, p)
                if not f:
                    break
                n, sig, ret = (cstr(x(f)).decode() for x in (A4.getPluginFunctionName, A4.getPluginFunctionArguments, A4.getPluginFunctionReturnType))
                g, gr = v3sig(sig), '' if ret == 'any' else v3sig(ret)
                if g is not None and gr is not None:
                    wf[n] = n + ';' + g
            check(fs == wf, 'functions listed for', want[-1], sorted(set(fs.items()) ^ set(wf.items())))
        check(sorted(plugins.values()) == sorted(want) and set(plugins) == {f'Plugin{i + 1}' for i in range(len(want))}, 'plugins listed', plugins, want)
        if c['load']:
            check(any(x.startswith('v3;verif.v3;') for x in want), 'the loaded plugin is not listed')
        # formats
        seen = {}
        for t, how in c['fmts']:
            cf, s, b, w, h = t
            if cf not in CF3 or (cf == GRAY and (w or h)):
                continue
            ok = c08.valid(*t)
            p = A3.registerFormat(CF3[cf], s, b, w, h, co)
            check(bool(p) == ok, 'registerFormat', t, 'accepted' if p else 'refused')
            labels.add('valid' if ok else 'invalid')
            if not ok:
                continue
            f = C.cast(p, C.POINTER(Format3)).contents
            check(f.t() == (CF3[cf],) + c08.desc(*t)[1:], 'format', t, 'described as', f.t())
            nm = c08.name(*t)
            check(f.name.decode() == nm, 'format', t, 'name', f.name, nm)
            check(f.id == PRESET[nm] if nm in PRESET else f.id // 1000000 * 1000000 == CF3[cf], 'format', t, 'id', f.id)
            check(A3.registerFormat(CF3[cf], s, b, w, h, co) == p and A3.getFormatPreset(f.id, co) == p, 'format', t, 'is not the same object on the second query')
            check(seen.setdefault(f.id, tuple(t)) == tuple(t), 'format id', f.id, 'given to', seen[f.id], 'and', t)
            # both kinds of id mean the same format on either side
            g = capi.VideoFormat()
            check(A4.getVideoFormatByID(C.byref(g), f.id, co) and g.t() == c08.desc(*t), 'API 3 id', f.id, 'through the current API', g.t())
            check(A3.getFormatPreset(c08.fid(*t) if how or True else 0, co) == p, 'current id through API 3', t)
            if how:
                W, H = c['dims'][0] << w, c['dims'][1] << h
                fr = A3.newVideoFrame(p, W, H, None, co)
                check(fr, 'no frame')
                check(A3.getFrameFormat(fr) == p, 'format of a new frame')
                check(C.cast(A4.getVideoFrameFormat(fr), C.POINTER(capi.VideoFormat)).contents.t() == c08.desc(*t), 'current format of a new frame')
                for pl in range(f.numPlanes):
                    ww, hh = (W >> w, H >> h) if pl else (W, H)
                    check((A3.getFrameWidth(fr, pl), A3.getFrameHeight(fr, pl)) == (ww, hh), 'plane size', pl)
                    sd = A3.getStride(fr, pl)
                    check(sd == A4.getStride(fr, pl) and sd >= ww * f.bytesPerSample, 'stride', sd)
                    wp = A3.getWritePtr(fr, pl)
                    C.memset(wp, 17 + pl, sd * hh)
                    check(A3.getReadPtr(fr, pl) == wp == A4.getReadPtr(fr, pl), 'plane pointers')
                if how == 2:
                    f2 = A3.copyFrame(fr, co)
                    a = [A3.getReadPtr(f2, q) for q in range(f.numPlanes)]
                    check(a == [A3.getReadPtr(fr, q) for q in range(f.numPlanes)], 'copy has other planes')
                    wp = A3.getWritePtr(f2, 0)
                    check(wp != A3.getReadPtr(fr, 0) and C.string_at(wp, W * f.bytesPerSample) == bytes([17]) * (W * f.bytesPerSample), 'written copy')
                    C.memset(wp, 99, A3.getStride(f2, 0) * H)
                    check(C.string_at(A3.getReadPtr(fr, 0), W * f.bytesPerSample) == bytes([17]) * (W * f.bytesPerSample), 'writing the copy changed the original')
                    m1, m2 = A3.getFramePropsRW(fr), None
                    A3.propSetInt(m1, b'z', 5, 0)
                    check(A3.propNumElements(A3.getFramePropsRO(f2), b'z') == -1, 'property of the original in the copy')
                    A3.copyFrameProps(fr, f2, co)
                    check(A3.propGetInt(A3.getFramePropsRO(f2), b'z', 0, None) == 5, 'copyFrameProps')
                    A3.freeFrame(f2)
                A3.freeFrame(fr)
                labels.add('frame')
        A3.getCoreInfo2(co, C.addressof(j))
        check(j.usedFramebufferSize == 0, 'frame memory left', j.usedFramebufferSize)
        # presets by name
        nm = sorted(PRESET)[c['pick'] % len(PRESET)]
        f = C.cast(A3.getFormatPreset(PRESET[nm], co), C.POINTER(Format3)).contents
        check(f.name.decode() == nm and f.id == PRESET[nm], 'preset', nm, f.name, f.id)
        check(not A3.getFormatPreset(GRAY3 + 900000, co), 'unknown id has a format')
    finally:
        A3.freeCore(co)
    return labels, 'frame' in labels


# ---------------------------------------------------------------- message handlers
MSG, MSGFREE = C.CFUNCTYPE(None, C.c_int, C.c_void_p, C.c_void_p), C.CFUNCTYPE(None, C.c_void_p)


@st.composite
def s_messages(draw):
    op = st.one_of(st.tuples(st.just('add'), st.booleans()), st.tuples(st.just('remove'), st.integers(0, 9)), st.tuples(st.just('log'), st.integers(0, 2), st.sampled_from(['', 'x', 'a %s %d %n b', 'é' * 300, '%', 'line\n'])), st.tuples(st.just('set'), st.booleans()), st.tuples(st.just('badremove'), st.integers(0, 3))).map(list)
    return dict(ops=draw(st.lists(op, min_size=2, max_size=25)))


def run_messages(c):
    """Global handlers: each message reaches every installed one exactly once, in order; removal frees exactly once."""
    A = api3()
    got, freed = {}, {}
    if 'mh' not in _s:
        _s['got'], _s['freed'] = {}, {}
        _s['mh'] = MSG(lambda t, m, u: _s['got'].setdefault(u, []).append((t, C.string_at(m))))
        _s['mf'] = MSGFREE(lambda u: _s['freed'].__setitem__(u, _s['freed'].get(u, 0) + 1))
        _s['uid'] = 1
    _s['got'].clear()
    _s['freed'].clear()
    want, live, gone, glob = {}, [], [], None
    labels = set()

    def uid():
        _s['uid'] += 1
        return _s['uid']
    try:
        for op in c['ops']:
            labels.add(op[0])
            if op[0] == 'add':
                u = uid()
                i = A.addMessageHandler(C.cast(_s['mh'], C.c_void_p), C.cast(_s['mf'], C.c_void_p) if op[1] else None, u)
                check(i not in [x[0] for x in live] and i >= 0, 'handler id', i, 'given twice')
                live.append((i, u, op[1]))
            elif op[0] == 'remove' and live:
                i, u, fr = live.pop(op[1] % len(live))
                check(A.removeMessageHandler(i) == 1, 'handler not removed')
                check(_s['freed'].get(u, 0) == (1 if fr else 0), 'free calls after removal', _s['freed'].get(u, 0))
                gone.append(i)
            elif op[0] == 'badremove' and gone:
                check(A.removeMessageHandler(gone[op[1] % len(gone)]) == 0, 'a removed handler was removed again')
            elif op[0] == 'set':
                glob = uid() if op[1] else None
                A.setMessageHandler(C.cast(_s['mh'], C.c_void_p) if op[1] else None, glob)
            elif op[0] == 'log':
                A.logMessage(op[1], op[2].encode())
                for u in [x[1] for x in live] + ([glob] if glob else []):
                    want.setdefault(u, []).append((op[1], op[2].encode()))
            check(_s['got'] == want, op, 'messages', _s['got'], 'want', want)
            for u, n in _s['freed'].items():
                check(n == 1 and u not in [x[1] for x in live], op, 'free called', n, 'times')
    finally:
        A.setMessageHandler(None, None)
        for i, u, fr in live:
            A.removeMessageHandler(i)
    for i, u, fr in live:
        check(_s['freed'].get(u, 0) == (1 if fr else 0), 'free calls at the end')
    return labels, len(want) > 0


CHECKS = dict(maps=Sub(s_maps(), run_maps, quick=4000, thorough=80000, batch=200),
              filters=Sub(s_filters(), run_filters, quick=9000, thorough=150000, batch=25, racy=True),
              calls=Sub(s_calls(), run_calls, quick=5000, thorough=60000, batch=50),
              registry=Sub(s_registry(), run_registry, quick=800, thorough=12000, batch=20),
              messages=Sub(s_messages(), run_messages, quick=3000, thorough=20000, batch=100))
