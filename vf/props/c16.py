"""C16 plane statistics and frame averages."""
import numpy as np
import vapoursynth as vs
from hypothesis import strategies as st
from vf.core import Sub, check, Violation
from vf import vsl
from vf.vsl import F, core, INT, FLOAT

NAMES = ['PlaneStats', 'PlaneStats', 'p', '_x', 'Stat9', 'PlaneStatsMin']


@st.composite
def s_stats(draw):
    shape = draw(st.sampled_from(['small', 'small', 'small', 'wide', 'tall', 'big']))
    mw, mh = {'small': (80, 40), 'wide': (5000, 3), 'tall': (40, 700), 'big': (1100, 300)}[shape]
    c = draw(vsl.s_clip(maxw=mw, maxh=mh, wild=True, maxn=2))
    if shape == 'wide' and draw(st.booleans()):
        c['w'] = draw(st.sampled_from([4096, 8192, 16384, 65536, 65552]))
        c['content'] = ['const', draw(st.sampled_from([1, 6, 14]))]
    c['n2'] = draw(st.sampled_from([0, 0, 1, 2, 3]))
    c['content2'] = draw(vsl.s_content(True))
    f = F(*c['fmt'])
    c['plane'] = draw(st.sampled_from([None, 0, f.planes - 1, f.planes // 2]))
    c['prop'] = draw(st.sampled_from([None] + NAMES))
    return c


def run_stats(c):
    f = F(*c['fmt'])
    m = vsl.clip_of(c)
    kw = {}
    if c['plane'] is not None:
        kw['plane'] = c['plane']
    if c['prop'] is not None:
        kw['prop'] = c['prop']
    m2 = None
    if c['n2']:
        m2 = vsl.make_clip(f, c['w'], c['h'], c['n2'], c['content2'], salt=5)
        kw['clipb'] = m2.node()
    node = core().std.PlaneStats(m.node(), **kw)
    what = f'PlaneStats {c}'
    vsl.check_info(node, f, m.w, m.h, m.n, m.fps, what)
    pre = c['prop'] or 'PlaneStats'
    p = c['plane'] or 0
    for i in range(m.n):
        fr = node.get_frame(i)
        vsl.same_planes(vsl.planes(fr), m.frames[i], f'{what} frame {i}')
        d = dict(fr.props)
        fr.close()
        x = m.frames[i][p]
        xs = x.astype(np.float64)
        want = {'idx': m.props[i]['idx'], pre + 'Min': x.min(), pre + 'Max': x.max()}
        norm = 1.0 if f.st == FLOAT else float(f.peak)
        avg = float(int(x.astype(np.uint64).sum())) / (x.size * norm) if f.st == INT else float(xs.sum() / x.size)
        tol = 4e-16 * max(1, abs(avg)) if f.st == INT else 1e-12 * np.abs(xs).max() + 1e-300
        approx = {pre + 'Average': (avg, tol)}
        if m2:
            y = m2.frames[min(i, m2.n - 1)][p].astype(np.float64)
            diff = float(np.abs(xs - y).sum()) / (x.size * norm)
            # single precision differences
            approx[pre + 'Diff'] = (diff, 4e-16 * max(1, diff) if f.st == INT else 2e-7 * max(np.abs(xs).max(), np.abs(y).max()) + 1e-300)
        check(set(d) == set(want) | set(approx), what, 'frame', i, 'property names', sorted(d))
        for k, v in want.items():
            check(d[k] == (int(v) if f.st == INT or k == 'idx' else float(v)) and type(d[k]) is (float if f.st == FLOAT and k != 'idx' else int), what, 'frame', i, k, d[k], 'want', v)
        for k, (v, t) in approx.items():
            check(type(d[k]) is float and abs(d[k] - v) <= t, what, 'frame', i, k, repr(d[k]), 'want', repr(v))
    return ['stats', f'stats:{"int" if f.st == INT else "float"}{f.bytes}' + ('+clipb' if m2 else '')], True


@st.composite
def s_avg(draw):
    c = draw(vsl.s_clip(maxw=70, maxh=12, wild=True, maxn=1))
    f = F(*c['fmt'])
    c['planes'] = draw(vsl.s_planes(f.planes))
    single = draw(st.booleans())
    c['single'] = single
    if single:
        c['lens'] = [draw(st.sampled_from([1, 2, 3, 5, 9, 20]))]
        nw = draw(st.one_of(st.integers(0, 4), st.integers(0, 15))) * 2 + 1
    else:
        nw = draw(st.one_of(st.integers(2, 5), st.integers(2, 31)))
        lens = [draw(st.sampled_from([1, 2, 3, 4])) for _ in range(min(nw, 3))]
        c['lens'] = [lens[i % len(lens)] for i in range(nw)]
    c['wsign'] = draw(st.sampled_from(['pos', 'mixed', 'ones', 'zeros', 'big']))
    c['weights'] = [draw({'pos': st.integers(0, 10), 'mixed': st.integers(-20, 20), 'ones': st.just(1), 'zeros': st.sampled_from([0, 0, 1]), 'big': st.sampled_from([1023, -1023, 1000, 5])}[c['wsign']]) for _ in range(nw)]
    if f.st == FLOAT and draw(st.booleans()):
        c['weights'] = [w * 0.37 for w in c['weights']]
    c['scale'] = draw(st.one_of(st.none(), st.integers(1, 40), st.just(nw), st.sampled_from([1023, 70000])))
    if f.st == FLOAT and c['scale'] and draw(st.booleans()):
        c['scale'] = c['scale'] / 7
    c['sc'] = draw(st.sampled_from([None, 0, 1, 1])) if single else None
    L = c['lens'][0]
    c['prev'] = draw(st.lists(st.integers(0, L - 1), max_size=4, unique=True)) if single else []
    c['next'] = draw(st.lists(st.integers(0, L - 1), max_size=4, unique=True)) if single else []
    c['frames'] = draw(st.lists(st.integers(0, max(c['lens']) - 1), min_size=1, max_size=3))
    return c


def run_avg(c):
    f = F(*c['fmt'])
    lens, W = c['lens'], c['weights']
    clips = []
    for k, n in enumerate(lens):
        props = [dict(idx=100 * k + i, **({'_SceneChangePrev': 1} if i in c['prev'] else {}), **({'_SceneChangeNext': 1} if i in c['next'] else {})) for i in range(n)]
        clips.append(vsl.make_clip(f, c['w'], c['h'], n, c['content'], props=props, salt=k + 1))
    kw = {}
    if c['planes'] is not None:
        kw['planes'] = c['planes']
    if c['scale'] is not None:
        kw['scale'] = c['scale']
    if c['sc'] is not None:
        kw['scenechange'] = c['sc']
    node = core().std.AverageFrames([m.node() for m in clips], weights=W, **kw)
    what = f'AverageFrames {c}'
    N = max(lens)
    vsl.check_info(node, f, c['w'], c['h'], N, clips[0].fps, what)
    isint = f.st == INT
    ws = [float(w) if isint else float(np.float32(w)) for w in W]
    if c['scale'] is None:
        sc = sum(ws)
        sc = (1.0 if sc < 1 else sc) if isint else (1.0 if sc < 1.2e-7 else sc)
        if not isint and 1e-8 < abs(sum(ws)) < 1e-5:
            return ['avg:skip'], False
    else:
        sc = float(np.float32(c['scale']))
    procs = vsl.procs(c['planes'], f)
    R = len(W) // 2
    for n in c['frames']:
        w = list(ws)
        if c['single']:
            idx = [min(max(n - R + i, 0), lens[0] - 1) for i in range(len(W))]
            src = [clips[0].frames[j] for j in idx]
            center, cp = src[R], clips[0].props[idx[R]]
            if c['sc']:
                a, b = 0, len(W)
                for i in range(R, 0, -1):
                    if idx[i] in c['prev']:
                        a = i
                        break
                for i in range(R, len(W) - 1):
                    if idx[i] in c['next']:
                        b = i
                        break
                acc = sum(w[:a]) + sum(w[b + 1:])
                for i in range(len(W)):
                    if i < a or i > b:
                        w[i] = 0.0
                w[R] += acc
        else:
            src = [m.frames[min(n, m.n - 1)] for m in clips]
            center, cp = src[0], clips[0].props[min(n, lens[0] - 1)]
        fr = node.get_frame(n)
        check(dict(fr.props) == cp, what, n, 'props', dict(fr.props), cp)
        got = vsl.planes(fr)
        for p in range(f.planes):
            if p not in procs:
                vsl.same_planes([got[p]], [center[p]], f'{what} frame {n} unprocessed plane {p}')
                continue
            bias = float(1 << (f.bits - 1)) if isint and f.uv(p) else 0.0
            with np.errstate(all='ignore'):
                terms = [(s[p].astype(np.float64) - bias) * k for s, k in zip(src, w) if k or not isint]
                y = sum(terms) / sc + bias if terms else np.full(got[p].shape, bias)
                mag = sum(np.abs(t) for t in terms) / sc if terms else np.zeros(got[p].shape)
                e = np.abs(y - bias) * 2.0 ** -21 + 1e-9 if isint else mag * (len(W) + 4) * 2.0 ** -23 + 1e-30
                lo = vsl.rounded_bounds(y - e, f, 0, 0)[0]
                hi = vsl.rounded_bounds(y + e, f, 0, 0)[1]
            vsl.within(got[p], lo, hi, f'{what} frame {n} plane {p}')
        fr.close()
    return ['avg', f'avg:{"int" if isint else "float"}{f.bytes}', 'avg:single' if c['single'] else 'avg:multi'] + (['avg:scenechange'] if c['sc'] and (c['prev'] or c['next']) else []), True


REF = ['stats_plane', 'stats_fmt', 'stats_size', 'stats_format32', 'avg_even', 'avg_count', 'avg_many', 'avg_sc', 'avg_nan', 'avg_range', 'avg_scale', 'avg_fmt', 'avg_size', 'avg_planes', 'avg_none', 'avg_var']


@st.composite
def s_refuse(draw):
    return dict(kind=draw(st.sampled_from(REF)), fmt=draw(vsl.s_format(ints=(8, 10, 16))), v=draw(st.integers(0, 1 << 16)))


def run_refuse(c):
    f = F(*c['fmt'])
    v, k = c['v'], c['kind']
    std = core().std
    clip = vsl.make_clip(f, 8, 8, 1, ['rand', v]).node()
    go = lambda fn: vsl.expect_error(fn, f'{c}')
    other = F(f.cf, 0, 12, f.ssw, f.ssh)
    odd = vsl.make_clip(f, 8, 16, 1, ['rand', v]).node()
    ob = vsl.make_clip(other, 8, 8, 1, ['rand', v]).node()
    i32 = std.BlankClip(format=F(vsl.GRAY, 0, 32).id, width=8, height=8, length=1)
    if k == 'stats_plane':
        go(lambda: std.PlaneStats(clip, plane=[-1, f.planes, 3, 2**31, -2**31, 2**40][v % 6]))
    elif k == 'stats_fmt':
        go(lambda: std.PlaneStats(clip, ob))
    elif k == 'stats_size':
        go(lambda: std.PlaneStats(clip, odd))
    elif k == 'stats_format32':
        go(lambda: std.PlaneStats(i32))
        go(lambda: std.AverageFrames([i32], [1]))
    elif k == 'avg_even':
        go(lambda: std.AverageFrames([clip], [1] * (2 * (v % 16))))
    elif k == 'avg_count':
        n = 2 + v % 5
        go(lambda: std.AverageFrames([clip] * n, [1] * (n + [1, -1][v & 1])))
    elif k == 'avg_many':
        n = [33, 35, 101][v % 3]
        go(lambda: std.AverageFrames([clip], [1] * n))
        n = [32, 33, 64][v % 3]
        go(lambda: std.AverageFrames([clip] * n, [1] * n))
    elif k == 'avg_sc':
        go(lambda: std.AverageFrames([clip, clip], [1, 1], scenechange=1))
    elif k == 'avg_nan':
        go(lambda: std.AverageFrames([clip], [[float('nan'), float('inf'), -float('inf')][v % 3]]))
        go(lambda: std.AverageFrames([clip], [1], scale=[float('nan'), float('inf'), -float('inf')][v % 3]))
    elif k == 'avg_range':
        if f.st == INT:
            go(lambda: std.AverageFrames([clip], [[1024, -1024, 1e9, -1e300, 4294967297][v % 5]]))
        std.AverageFrames([clip], [[1023, -1023][v & 1]])
    elif k == 'avg_scale':
        go(lambda: std.AverageFrames([clip], [1], scale=[0, -1, -1e30][v % 3]))
    elif k == 'avg_fmt':
        go(lambda: std.AverageFrames([clip, ob], [1, 1]))
    elif k == 'avg_size':
        go(lambda: std.AverageFrames([clip, clip, odd], [1, 1, 1]))
    elif k == 'avg_planes':
        go(lambda: std.AverageFrames([clip], [1], planes=[[3], [-1], [0, 0], [2**31]][v % 4]))
    elif k == 'avg_none':
        go(lambda: std.AverageFrames([], []))
    elif k == 'avg_var':
        var = std.Splice([clip, odd], mismatch=1)
        go(lambda: std.AverageFrames([var], [1]))
        go(lambda: std.PlaneStats(var, var))
    return [k], True


CHECKS = {
    'stats': Sub(s_stats(), run_stats, quick=6000, thorough=80000, batch=100),
    'average': Sub(s_avg(), run_avg, quick=6000, thorough=80000, batch=100),
    'refuse': Sub(s_refuse(), run_refuse, quick=1500, thorough=5000, batch=100),
}
