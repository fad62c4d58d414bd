"""C20 FrameEval / ModifyFrame: programs of per-frame callback actions, concurrent request schedules, exact model of the delivered frame or error."""
import threading
import numpy as np
import vapoursynth as vs
from hypothesis import strategies as st
from vf.core import Sub, check, Violation
from vf import vsl
from vf.engine import perturbed
from vf.vsl import core, F, INT, FLOAT, GRAY, RGB, YUV

FMTS = [[GRAY, INT, 8, 0, 0], [YUV, INT, 8, 1, 1], [RGB, INT, 16, 0, 0], [GRAY, FLOAT, 32, 0, 0]]


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


def model(fmt, w, h, n, tag):
    f = F(*fmt)
    frames = []
    for i in range(n):
        fr = []
        for p in range(f.planes):
            pw, ph = f.dims(p, w, h)
            if f.st == FLOAT:
                a = np.full((ph, pw), (tag * 100 + i + p / 4), f.dtype)
            else:
                a = np.full((ph, pw), (tag * 37 + i * 5 + p * 3 + 11) & 255, f.dtype)
            a[0, 0] = i
            fr.append(a)
        frames.append(fr)
    return vsl.Clip(f, w, h, frames, props=[dict(idx=i + 1, tag=tag + 1) for i in range(n)])


def state(fr):
    return [fr.format.id, fr.width, fr.height, [np.array(fr[p]) for p in range(fr.format.num_planes)], dict(fr.props)]


def want_of(m, n):
    n = min(n, m.n - 1)
    return [m.fmt.id, m.w, m.h, m.frames[n], dict(m.props[n])]


def same(a, b):
    return a[:3] == b[:3] and len(a[3]) == len(b[3]) and all(x.shape == y.shape and x.dtype == y.dtype and np.array_equal(vsl.raw(x), vsl.raw(y)) for x, y in zip(a[3], b[3])) and a[4] == b[4]


E_ACT = ['clip', 'clip', 'clip', 'blank', 'flip', 'setprop', 'nested', 'modify', 'dict', 'short', 'raise', 'vserror', 'none', 'int', 'frame', 'audio', 'wdims', 'wfmt', 'fail', 'stop', 'string', 'list', 'emptydict', 'slow']
M_ACT = ['pass', 'pass', 'copy', 'write', 'write', 'delprop', 'other', 'raise', 'vserror', 'none', 'int', 'clip', 'audio', 'wdims', 'wfmt', 'stop', 'dict', 'input2', 'list', 'slow', 'addframe']


@st.composite
def s_prog(draw, acts):
    L = draw(st.integers(1, 12))
    return dict(fmt=draw(st.sampled_from(FMTS)), w=2 * draw(st.integers(1, 20)), h=2 * draw(st.integers(1, 8)), n=L, lens=[draw(st.one_of(st.just(L), st.integers(1, 14))) for _ in range(3)], k=draw(st.integers(0, 3)), vary=draw(st.integers(0, 5)) == 0,
                acts=draw(st.lists(st.tuples(st.sampled_from(acts), st.integers(0, 30)).map(list), min_size=1, max_size=6)), req=draw(st.lists(st.integers(0, L - 1), min_size=1, max_size=24)), threads=draw(st.integers(1, 4)), window=draw(st.sampled_from([1, 4, 30])), src=draw(st.booleans()), cache=draw(st.sampled_from([None, 0, 1])), down=draw(st.booleans()),
                sched=draw(st.one_of(st.none(), st.tuples(st.integers(1, 2**31), st.integers(5, 120), st.sampled_from([5, 40, 150])).map(list))))


def request(node, c, n, what):
    """Frames of the schedule, up to `window` outstanding."""
    got = []
    pend = []
    def take(i, fut):
        try:
            with fut.result(timeout=60) as fr:
                got.append((i, state(fr)))
        except vs.Error as e:
            got.append((i, e))
        except Stop as e:
            got.append((i, e))
        except TimeoutError:
            raise Violation(f'{what}: frame {i} was never delivered')
    for i in c['req']:
        if len(pend) >= c['window']:
            take(*pend.pop(0))
        pend.append((i, node.get_frame_async(i)))
    for p in pend:
        take(*p)
    return got


def judge(got, expected, what):
    labels = set()
    for i, g in got:
        e = expected(i)
        if e[0] == 'error':
            check(isinstance(g, BaseException), what, f'frame {i}: delivered a frame, expected an error ({e[1]})')
            check(e[1] in str(g), what, f'frame {i}: error {str(g)!r} does not mention {e[1]!r}')
            labels.add('error')
        elif e[0] == 'stop':
            # a request that shares another one's failure only gets its text
            once = sum(1 for j, _ in got if j == i) == 1
            check(isinstance(g, Stop) and str(g) == e[1] or not once and isinstance(g, vs.Error) and e[1] in str(g), what, f'frame {i}: expected the exception {e[1]!r} itself, got {type(g).__name__} {g}')
            labels.add('stop')
        else:
            check(not isinstance(g, BaseException), what, f'frame {i}: unexpected error', g)
            w = e[1]
            check(same(g, w), what, f'frame {i}: got id {g[0]} size {g[1:3]} props {g[4]} samples {g[3][0].ravel()[:4]}, want id {w[0]} size {w[1:3]} props {w[4]} samples {w[3][0].ravel()[:4]}')
            labels.add('frame')
    return sorted(labels)


def prepare(c):
    ms = [model(c['fmt'], c['w'], c['h'], c['lens'][k], k) for k in range(3)]
    nodes = [m.node() for m in ms]
    base = core().std.BlankClip(width=c['w'], height=c['h'], format=F(*c['fmt']).id, length=c['n'])
    if c['vary']:
        # a template clip without fixed format and size accepts anything
        base = core().std.Splice([base, core().std.BlankClip(width=c['w'] + 2, height=c['h'], format=vs.GRAY16, length=1)], mismatch=True)[:c['n']]
        if c['n'] == 1:
            base = core().std.Splice([base, core().std.BlankClip(width=c['w'] + 2, height=c['h'], format=vs.GRAY16, length=1)], mismatch=True)
    core().num_threads = c['threads']
    f = F(*c['fmt'])
    # another size: wider, taller, or the same number of pixels
    dims = [(c['w'] + 4, c['h']), (c['w'], c['h'] + 4), (c['w'] * 2, c['h'] // 2), (c['w'] // 2, c['h'] * 2)][(c['w'] + c['n'] + c['lens'][0]) % 4]
    if dims[0] % 4 or dims[1] % 4 or not dims[0] or not dims[1]:
        dims = (c['w'] + 4, c['h'])
    wd = model(c['fmt'], *dims, 3, 7)
    wf = model([GRAY, INT, 16, 0, 0], c['w'], c['h'], 3, 8)
    return f, ms, nodes, base, wd, wf


def run_eval(c):
    f, ms, nodes, base, wd, wf = prepare(c)
    wdn, wfn = wd.node(), wf.node()
    calls = []
    lock = threading.Lock()
    bad = []
    acts = c['acts']
    act = lambda n: acts[(n * 7 + n // 3) % len(acts)]
    audio = core().std.BlankAudio(length=5000)
    failing = core().vft.Fail(nodes[0], frames=list(range(c['lens'][0])))

    def cb(n, f=None):
        with lock:
            calls.append(n)
        fs = [] if f is None else list(f) if isinstance(f, list) else [f]
        ok = len(fs) == c['k'] and (c['k'] < 2) == (not isinstance(f, list))
        for k, fr in enumerate(fs):
            if ok and not same(state(fr), want_of(ms[k], n)):
                ok = False
        if not ok:
            with lock:
                bad.append((n, [dict(x.props) for x in fs]))
        a, v = act(n)
        k = v % 3
        if a == 'clip':
            return nodes[k]
        if a == 'slow':
            for _ in range(2000 * (v % 5)):
                pass
            return nodes[k]
        if a == 'blank':
            return core().std.BlankClip(base if not c['vary'] else nodes[0], length=n + 1 + v % 2).std.SetFrameProps(n=n)
        if a == 'flip':
            return nodes[k].std.FlipVertical()
        if a == 'setprop':
            return nodes[k].std.SetFrameProps(n=n, v=v)
        if a == 'nested':
            return core().std.FrameEval(nodes[k], lambda n: nodes[(k + n) % 3])
        if a == 'modify':
            def sel(n, f):
                o = f.copy()
                o.props['m'] = n + v
                return o
            return core().std.ModifyFrame(nodes[k], nodes[k], sel)
        if a == 'dict':
            return {'val': nodes[k]}
        if a == 'list':
            return [nodes[k], nodes[0]]
        if a == 'emptydict':
            return {}
        if a == 'short':
            return nodes[k][0]
        if a == 'raise':
            raise Boom(f'boom {n}!')
        if a == 'vserror':
            raise vs.Error(f'trouble {n}!')
        if a == 'stop':
            raise Stop(f'stop {n}')
        if a == 'none':
            return None
        if a == 'int':
            return 5
        if a == 'string':
            return 'clip'
        if a == 'frame':
            return plain
        if a == 'audio':
            return audio
        return {'wdims': wdn, 'wfmt': wfn, 'fail': failing}[a]

    plain = nodes[0].get_frame(0)
    what = f"FrameEval {c}"
    kw = {}
    if c['k']:
        kw['prop_src'] = nodes[:c['k']] if c['k'] > 1 else nodes[0]
    if c['src']:
        kw['clip_src'] = nodes
    node = core().std.FrameEval(base, cb, **kw)
    check(node.num_frames == base.num_frames and (node.width, node.height) == (base.width, base.height) and (int(node.format.id) if node.format else 0) == (int(base.format.id) if base.format else 0), what, 'video info', repr(node))
    if c['cache'] is not None:
        node.std.SetVideoCache(c['cache'])
    top = node.std.Reverse().std.Reverse() if c['down'] else node

    def expected(n):
        a, v = act(n)
        k = v % 3
        if a in ('clip', 'dict', 'list', 'slow'):
            return 'frame', want_of(ms[k], n)
        if a == 'short':
            return 'frame', want_of(ms[k], 0)
        if a == 'blank':
            w = want_of(ms[0], 0)
            return 'frame', w[:3] + [[np.zeros_like(x) if not (f.cf == YUV and p) else np.full_like(x, 0 if f.st == FLOAT else 1 << (f.bits - 1)) for p, x in enumerate(w[3])], dict(n=n, _DurationNum=1, _DurationDen=24)]
        if a == 'flip':
            w = want_of(ms[k], n)
            return 'frame', w[:3] + [[x[::-1] for x in w[3]], w[4]]
        if a == 'setprop':
            w = want_of(ms[k], n)
            return 'frame', w[:4] + [dict(w[4], n=n, v=v)]
        if a == 'nested':
            n = min(n, ms[k].n - 1)
            return 'frame', want_of(ms[(k + n) % 3], n)
        if a == 'modify':
            n = min(n, ms[k].n - 1)
            w = want_of(ms[k], n)
            return 'frame', w[:4] + [dict(w[4], m=n + v)]
        if a == 'raise':
            return 'error', f'boom {n}!'
        if a == 'vserror':
            return 'error', f'trouble {n}!'
        if a == 'stop':
            return 'stop', f'stop {n}'
        if a == 'wdims':
            return ('frame', want_of(wd, n)) if c['vary'] else ('error', 'FrameEval')
        if a == 'wfmt':
            return ('frame', want_of(wf, n)) if c['vary'] else ('error', 'FrameEval')
        return 'error', ''

    got = request(top, c, base.num_frames, what)
    labels = judge(got, expected, what)
    check(not bad, what, 'callback for frame', bad[:1], 'did not get the matching frames')
    check(set(calls) == set(c['req']), what, 'callback was called for frames', sorted(set(calls)), 'requested', sorted(set(c['req'])))
    for k in range(3):
        with nodes[k].get_frame(0) as fr:
            check(same(state(fr), want_of(ms[k], 0)), what, f'source clip {k} was changed')
    return ['eval', f'props{c["k"]}'] + labels, True


def run_modify(c):
    f, ms, nodes, base, wd, wf = prepare(c)
    k_ = max(1, c['k'])
    calls = []
    lock = threading.Lock()
    bad = []
    acts = c['acts']
    act = lambda n: acts[(n * 7 + n // 3) % len(acts)]
    with core().std.BlankAudio(length=5000).get_frame(0) as t:
        audio = t.copy()
    held = nodes[0].get_frame(min(1, c['lens'][0] - 1))
    wdf, wff = wd.node().get_frame(1), wf.node().get_frame(1)
    in2 = ms[1].node()

    def cb(n, f):
        with lock:
            calls.append(n)
        fs = list(f) if isinstance(f, list) else [f]
        ok = len(fs) == k_ and (k_ < 2) == (not isinstance(f, list))
        for k, fr in enumerate(fs):
            if ok and not same(state(fr), want_of(ms[k], n)):
                ok = False
        if not ok:
            with lock:
                bad.append((n, [dict(x.props) for x in fs]))
        a, v = act(n)
        k = v % len(fs)
        fr = fs[k]
        if a in ('pass', 'slow'):
            return fr
        if a == 'copy':
            o = fr.copy()
            o.props['n'] = n
            o.props['arr'] = [n, v]
            return o
        if a == 'write':
            o = fr.copy()
            np.asarray(o[o.format.num_planes - 1])[...] = n + v
            return o
        if a == 'delprop':
            o = fr.copy()
            del o.props['idx']
            return o
        if a == 'addframe':
            o = fr.copy()
            o.props['inner'] = fs[0]
            return o
        if a == 'other':
            return held
        if a == 'raise':
            raise Boom(f'boom {n}!')
        if a == 'vserror':
            raise vs.Error(f'trouble {n}!')
        if a == 'stop':
            raise Stop(f'stop {n}')
        if a == 'dict':
            return {'val': fr}
        if a == 'list':
            return [fr, held]
        return {'none': None, 'int': 3, 'clip': nodes[0], 'audio': audio, 'wdims': wdf, 'wfmt': wff, 'input2': fs[-1]}[a]

    what = f'ModifyFrame {c}'
    node = core().std.ModifyFrame(base, nodes[:k_] if k_ > 1 or c['src'] else nodes[0], cb)
    check(node.num_frames == base.num_frames and (node.width, node.height) == (base.width, base.height), what, 'video info', repr(node))
    if c['cache'] is not None:
        node.std.SetVideoCache(c['cache'])
    top = node.std.Reverse().std.Reverse() if c['down'] else node

    def expected(n):
        a, v = act(n)
        k = v % k_
        w = want_of(ms[k], n)
        if a in ('pass', 'slow', 'dict', 'list'):
            return 'frame', w
        if a == 'copy':
            return 'frame', w[:4] + [dict(w[4], n=n, arr=[n, v])]
        if a == 'write':
            return 'frame', w[:3] + [w[3][:-1] + [np.full_like(w[3][-1], n + v)], w[4]]
        if a == 'delprop':
            return 'frame', w[:4] + [{k: x for k, x in w[4].items() if k != 'idx'}]
        if a == 'addframe':
            return 'inner', w
        if a == 'other':
            return 'frame', want_of(ms[0], 1)
        if a == 'input2':
            return 'frame', want_of(ms[k_ - 1], n)
        if a == 'raise':
            return 'error', f'boom {n}!'
        if a == 'vserror':
            return 'error', f'trouble {n}!'
        if a == 'stop':
            return 'stop', f'stop {n}'
        if a == 'wdims':
            return ('frame', want_of(wd, 1)) if c['vary'] else ('error', 'ModifyFrame')
        if a == 'wfmt':
            return ('frame', want_of(wf, 1)) if c['vary'] else ('error', 'ModifyFrame')
        return 'error', ''

    got = request(top, c, base.num_frames, what)
    rest = []
    for i, g in got:
        e = expected(i)
        if e[0] == 'inner':
            check(not isinstance(g, BaseException), what, f'frame {i}: unexpected error', g)
            inner = g[4].pop('inner', None)
            check(isinstance(inner, vs.VideoFrame) and same(state(inner), want_of(ms[0], i)), what, f'frame {i}: the attached frame is not the one given')
            check(same(g, e[1]), what, f'frame {i} with attached frame differs')
        else:
            rest.append((i, g))
    labels = judge(rest, expected, what)
    check(not bad, what, 'callback for frame', bad[:1], 'did not get the matching frames')
    check(set(calls) == set(c['req']), what, 'callback was called for frames', sorted(set(calls)), 'requested', sorted(set(c['req'])))
    for k in range(3):
        for i in (0, c['lens'][k] - 1):
            with nodes[k].get_frame(i) as fr:
                check(same(state(fr), want_of(ms[k], i)), what, f'source clip {k} frame {i} was changed')
    check(same(state(held), want_of(ms[0], 1)), what, 'a frame held outside was changed')
    return ['modify', f'clips{k_}'] + labels, True


CHECKS = {
    'eval': Sub(s_prog(E_ACT), lambda c: perturbed(run_eval, c), quick=5000, thorough=150000, batch=50),
    'modify': Sub(s_prog(M_ACT), lambda c: perturbed(run_modify, c), quick=5000, thorough=150000, batch=50),
}
