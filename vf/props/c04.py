"""C04: cache settings, memory limits, thread counts and request order never change the output, on generated graphs of self-checking filters."""
import hashlib, random
import numpy as np
from hypothesis import strategies as st
from vf.core import Sub, check
from vf import engine, vsl


def run_graph(c):
    labels, stat = engine.run(c, 'C04')
    return labels, stat['deliveries'] >= 2 and stat['activations'] >= 2


CHECKS = dict(graph=Sub(engine.s_case('C04'), run_graph, quick=1200, thorough=40000, batch=25, racy=True, timeout=300))


# ---------------------------------------------------------------- the same graph of std filters under two regimes
UNARY = ['boxblur', 'median', 'minimum', 'inflate', 'invert', 'fliph', 'flipv', 'turn', 'conv', 'levels', 'lut', 'expr', 'borders', 'props', 'stats', 'planes', 'sobel', 'limiter', 'frameeval', 'modify',
         'trim', 'reverse', 'selectevery', 'dup', 'delete', 'freeze', 'loop', 'average', 'fields', 'weave', 'proptoclip', 'settings', 'blank']
BINARY = ['merge', 'masked', 'expr2', 'interleave', 'splice', 'stack', 'lut2', 'diff', 'copyprops', 'cycle', 'modify2', 'premult']


@st.composite
def s_real(draw):
    R = lambda a, b: draw(st.integers(a, b))
    fmt = draw(st.sampled_from([[1, 0, 8, 0, 0], [3, 0, 8, 1, 1], [3, 0, 8, 0, 0], [2, 0, 8, 0, 0], [1, 0, 16, 0, 0], [3, 0, 10, 1, 0], [1, 1, 32, 0, 0], [3, 1, 32, 1, 1]]))
    w, h = draw(st.sampled_from([(16, 8), (64, 48), (200, 120), (320, 240), (640, 480)]))
    base = [[R(1, 12), draw(vsl.s_content())] for _ in range(R(1, 2))]
    ops = []
    n = len(base)
    for _ in range(R(1, 9)):
        if R(0, 2) == 0:
            ops.append([draw(st.sampled_from(BINARY)), draw(st.sampled_from([n - 1, R(0, n - 1)])), R(0, n - 1), R(0, 1 << 20)])
        else:
            ops.append([draw(st.sampled_from(UNARY)), draw(st.sampled_from([n - 1, n - 1, R(0, n - 1)])), 0, R(0, 1 << 20)])
        n += 1
    caches = [[R(0, n - 1), R(-1, 1), draw(st.sampled_from([-1, 0, 1])), draw(st.sampled_from([-1, 0, 1, 3, 30])), draw(st.sampled_from([-1, 0, 1, 10]))] for _ in range(R(0, 4))]
    outs = [n - 1] + [R(0, n - 1) for _ in range(R(0, 2))]
    return dict(fmt=fmt, w=w, h=h, base=base, ops=ops, caches=caches, outs=outs, threads=draw(st.sampled_from([1, 2, 3, 4, 8])), limit=draw(st.sampled_from([1, 1, 2, 8, 1024])),
                order=draw(st.sampled_from(['fwd', 'rev', 'rand', 'rand', 'twice', 'frames', 'interleaved'])), window=draw(st.sampled_from([1, 2, 4, 16, 64])), seed=R(0, 1 << 20), mid=R(0, 3))


def build(c):
    core = vsl.core()
    std = core.std
    f = vsl.F(*c['fmt'])
    nodes = [vsl.make_clip(f, c['w'], c['h'], k, content, salt=i, props=[{'K': j * 7 + i, '_DurationNum': 1, '_DurationDen': 24} for j in range(k)]).node() for i, (k, content) in enumerate(c['base'])]
    refused = []
    for name, a, b, s in c['ops']:
        try:
            r = apply(c, f, name, nodes, nodes[a], nodes[b], s)
        except vsl.vs.Error as e:
            refused.append(f'{name}: {e}')
            r = nodes[a]
        nodes.append(r)
    return nodes, refused


def apply(c, f, name, nodes, x, y, s):
    std = vsl.core().std
    integer = f.st == vsl.INT
    pk = f.peak if integer else 1.0

    def callback(node, s):
        alt = [node, std.FlipHorizontal(node), node[::-1]]
        return lambda n: alt[(n * 5 + s) % 3]

    def modify(n, f):
        fs = f if isinstance(f, list) else [f]
        r = fs[-1].copy()
        r.props['N'] = n * 3 + sum(x.props.get('K', 1) for x in fs)
        return r

    L = x.num_frames
    pl = [p for p in range(f.planes) if s >> p & 1] or [0]
    if name == 'boxblur':
        r = std.BoxBlur(x, planes=pl, hradius=1 + s % 5, hpasses=1 + s % 2, vradius=s // 7 % 4, vpasses=1)
    elif name == 'median':
        r = std.Median(x, planes=pl)
    elif name == 'minimum':
        r = (std.Minimum if s & 1 else std.Maximum)(x, planes=pl, coordinates=[s >> k & 1 for k in range(2, 10)])
    elif name == 'inflate':
        r = (std.Inflate if s & 1 else std.Deflate)(x, planes=pl)
    elif name == 'invert':
        r = std.Invert(x, planes=pl)
    elif name == 'fliph':
        r = std.FlipHorizontal(x)
    elif name == 'flipv':
        r = std.FlipVertical(x)
    elif name == 'turn':
        r = std.Turn180(x) if s & 1 or f.ssw != f.ssh else std.Transpose(std.Transpose(x))
    elif name == 'conv':
        m = [(s >> k) % 7 - 2 for k in range(9)]
        r = std.Convolution(x, matrix=m if any(m) else [1] * 9, planes=pl, mode='s') if s & 1 else std.Convolution(x, matrix=[1, 2, 1 + s % 5], planes=pl, mode='hv'[s >> 1 & 1])
    elif name == 'levels':
        r = std.Levels(x, min_in=0, max_in=pk * 0.9 if not integer else int(pk * 0.9), gamma=0.5 + s % 4 / 2, min_out=0, max_out=pk, planes=pl)
    elif name == 'lut':
        r = std.Lut(x, lut=[(v * 3 + s) % (int(pk) + 1) for v in range(int(pk) + 1)], planes=pl) if integer and f.bits <= 10 else std.Invert(x)
    elif name == 'expr':
        r = std.Expr(x, [['x %d * 3 /' % (s % 5), 'X Y + x +', 'x 2 / x 3 * + abs', ''][(s + p) % 4].replace('X', 'x').replace('Y', 'x').replace('N', 'x') for p in range(f.planes)])
    elif name == 'borders':
        k = (1 + s % 3) << max(f.ssw, f.ssh)
        r = std.Crop(std.AddBorders(x, left=k, right=k, top=k, bottom=k), left=s % 2 * 2 * k, right=(1 - s % 2) * 2 * k, top=k, bottom=k)
    elif name == 'props':
        r = std.SetFrameProps(x, A=s, B=[1, 2, s]) if s & 1 else std.SetFrameProp(x, prop='Q', intval=[s])
    elif name == 'stats':
        r = std.PlaneStats(x, y if s & 1 else None, plane=s % f.planes, prop='S%d' % (s % 3))
    elif name == 'planes':
        r = std.ShufflePlanes([std.ShufflePlanes(x, p, 1) for p in ((0, 1, 2) if s & 1 else (0, 2, 1))], [0, 0, 0], f.cf) if f.planes == 3 else std.ShufflePlanes(x, 0, 1)
    elif name == 'sobel':
        r = (std.Sobel if s & 1 else std.Prewitt)(x, planes=pl)
    elif name == 'limiter':
        r = std.Limiter(x, min=pk * 0.25, max=pk * 0.75, planes=pl) if integer else std.Maximum(x)
    elif name == 'frameeval':
        r = std.FrameEval(x, callback(x, s))
    elif name == 'modify':
        r = std.ModifyFrame(x, x, modify)
    elif name == 'modify2':
        r = std.ModifyFrame(x, [x, y, x][:2 + s % 2], modify)
    elif name == 'trim':
        r = std.Trim(x, first=s % L)
    elif name == 'reverse':
        r = std.Reverse(x)
    elif name == 'selectevery':
        k = 2 + s % 3
        r = std.SelectEvery(x, cycle=k, offsets=[s // 5 % k, s // 7 % k], modify_duration=s & 1)
    elif name == 'dup':
        r = std.DuplicateFrames(x, [s % L, s // 3 % L])
    elif name == 'delete':
        r = std.DeleteFrames(x, [s % L]) if L > 1 else x
    elif name == 'freeze':
        lo = s % L
        hi = lo + s // 11 % (L - lo)
        r = std.FreezeFrames(x, first=[lo], last=[hi], replacement=[s // 13 % L])
    elif name == 'loop':
        r = std.Loop(x, times=1 + s % 3) if L < 60 else x
    elif name == 'average':
        k = 1 + 2 * (s % 4)
        r = std.AverageFrames(x, weights=[1 + (s >> i) % 3 for i in range(k)], planes=pl)
    elif name == 'fields':
        r = std.DoubleWeave(std.SeparateFields(x, tff=s & 1), tff=s & 1) if c['h'] >= 4 and L < 60 else x
        if r.height != c['h']:
            r = std.CropAbs(r, c['w'], c['h'])
    elif name == 'weave':
        r = std.CropAbs(std.DoubleWeave(x, tff=s & 1), c['w'], c['h'], top=s % 2 << f.ssh + 1)
    elif name == 'proptoclip':
        r = std.PropToClip(std.ClipToProp(x, y, prop='C'), prop='C') if s & 1 and y.num_frames >= L else std.RemoveFrameProps(std.ClipToProp(x, y, prop='C'), 'C')
    elif name == 'settings':
        r = std.SetVideoCache(x, mode=s % 3 - 1)
        r = x if r is None else r
    elif name == 'blank':
        r = std.BlankClip(x, color=[pk * 0.5] * f.planes if f.st else [s % (int(pk) + 1)] * f.planes, keep=s & 1)
    elif name == 'merge':
        r = std.Merge(x, y, weight=s % 11 / 10)
    elif name == 'masked':
        r = std.MaskedMerge(x, y, x if s & 1 else nodes[0], planes=pl)
    elif name == 'expr2':
        r = std.Expr([x, y, x], 'x y + z - 2 /' if s & 1 else 'x y max z 3 / +')
    elif name == 'interleave':
        r = std.Interleave([std.AssumeFPS(x, fpsnum=24, fpsden=1), std.AssumeFPS(y, fpsnum=24, fpsden=1)], extend=s & 1, mismatch=False) if x.num_frames + y.num_frames < 80 else x
    elif name == 'splice':
        r = std.Splice([x, y, x][:2 + s % 2]) if x.num_frames * 2 + y.num_frames < 90 else y
    elif name == 'stack':
        r = std.CropAbs(std.StackVertical([x, y]) if s & 1 else std.StackHorizontal([x, y]), c['w'], c['h'], left=0 if s & 1 else (c['w'] // 2 >> f.ssw << f.ssw), top=(c['h'] // 2 >> f.ssh << f.ssh) if s & 1 else 0)
    elif name == 'lut2':
        r = std.Lut2(x, y, function=lambda x, y: (x * 3 + y) % 256, planes=pl) if integer and f.bits == 8 else std.Merge(x, y)
    elif name == 'diff':
        r = std.MergeDiff(x, std.MakeDiff(x, y)) if s & 1 else std.MakeDiff(x, y, planes=pl)
    elif name == 'copyprops':
        r = std.CopyFrameProps(x, y)
    elif name == 'premult':
        gray = std.ShufflePlanes(y, 0, 1)
        r = std.PreMultiply(x, gray) if f.cf != vsl.YUV or True else x
    else:
        r = std.FrameEval(x, lambda n, f, x=x, y=y, s=s: y if f.props.get('K', 0) & 1 else x, prop_src=x)
    return r



def digest(fr):
    h = hashlib.blake2b(digest_size=12)
    for p in fr:
        h.update(np.ascontiguousarray(np.asarray(p)).tobytes())
    d = []
    for k, v in sorted(fr.props.items()):
        if isinstance(v, vsl.vs.VideoFrame):
            v = [digest(v)]
        elif hasattr(v, 'num_frames'):
            v = 'node'
        d.append((k, repr(v)))
    return h.hexdigest(), tuple(d)


def run_real(c):
    vs, core = vsl.vs, vsl.core()
    vs.core.core.num_threads, vs.core.core.max_cache_size = 1, 4096
    f = vsl.F(*c['fmt'])
    nodes, refused = build(c)
    outs = sorted(set(c['outs']))
    for o in outs:
        nodes[o] = nodes[o][:60]
    want = {}
    for o in outs:
        for n in range(nodes[o].num_frames):
            with nodes[o].get_frame(n) as fr:
                want[o, n] = digest(fr)
    del nodes
    # a second instance of the same recipe, other settings and another order
    try:
        vs.core.core.num_threads, vs.core.core.max_cache_size = c['threads'], c['limit']
        nodes, again = build(c)
        check(again == refused, 'refused filters differ between two builds of the same graph', refused, again)
        for o in outs:
            nodes[o] = nodes[o][:60]
        for i, mode, fixed, size, hist in c['caches']:
            core.std.SetVideoCache(nodes[i], mode=mode)
            if mode == 1:
                core.std.SetVideoCache(nodes[i], mode=mode, fixedsize=fixed, maxsize=size, maxhistory=hist)
        rng = random.Random(c['seed'])
        plan = [k for o in outs for k in [(o, n) for n in range(nodes[o].num_frames)]]
        if c['order'] == 'rev':
            plan.reverse()
        elif c['order'] == 'twice':
            plan = plan + plan[::2]
            rng.shuffle(plan)
        elif c['order'] in ('rand', 'interleaved'):
            rng.shuffle(plan)
        bad, count = [], 0

        def judge(k, fr):
            got = digest(fr)
            if got != want[k] and len(bad) < 3:
                what = 'samples' if got[0] != want[k][0] else 'properties'
                bad.append(f'node {k[0]} frame {k[1]}: {what} differ between two renderings of the same graph' + (f' ({got[1]} vs {want[k][1]})' if what == 'properties' else ''))
        if c['order'] == 'frames':
            for o in outs:
                for n, fr in enumerate(nodes[o].frames(prefetch=c['window'], backlog=c['window'] * 2, close=bool(c['seed'] & 1))):
                    judge((o, n), fr)
                    count += 1
        else:
            pend = []
            for j, k in enumerate(plan):
                pend.append((k, nodes[k[0]].get_frame_async(k[1])))
                if len(pend) > c['window']:
                    kk, fu = pend.pop(0)
                    with fu.result() as fr:
                        judge(kk, fr)
                if j == len(plan) // 2 and c['mid']:
                    if c['mid'] == 1:
                        vs.core.core.num_threads = 1 + c['seed'] % 6
                    elif c['mid'] == 2:
                        vs.core.core.max_cache_size = 1 + c['seed'] % 3
                    else:
                        core.std.SetVideoCache(nodes[c['seed'] % len(nodes)], mode=c['seed'] % 3 - 1)
                        vs.core.core.clear_cache()
                count += 1
            for kk, fu in pend:
                with fu.result() as fr:
                    judge(kk, fr)
        check(not bad, '; '.join(bad))
    finally:
        vs.core.core.num_threads, vs.core.core.max_cache_size = vsl.THREADS, 1024
    return {'refused:' + r for r in refused} | {'real:' + op[0] for op in c['ops']} | {'order:' + c['order']}, count >= 2


CHECKS['real'] = Sub(s_real(), run_real, quick=800, thorough=30000, batch=20, racy=True, timeout=200)
