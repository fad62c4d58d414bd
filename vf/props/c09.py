"""C09 geometry filters: chains of rearranging filters against an array model."""
import numpy as np
import vapoursynth as vs
from hypothesis import strategies as st
from vf.core import Sub, check, Violation
from vf import vsl
from vf.vsl import F, Clip, GRAY, RGB, YUV, core

FMT = vsl.s_format(ints=(8, 9, 10, 12, 16, 17, 24, 32), floats=(16, 32), maxss=3)


def sub_dim(draw, ss, maxv):
    return draw(vsl.s_dim(max(1, maxv >> ss))) << ss


@st.composite
def s_chain(draw):
    fmt = draw(FMT)
    f = F(*fmt)
    w, h = sub_dim(draw, f.ssw, 140), sub_dim(draw, f.ssh, 60)
    n = draw(st.integers(1, 3))
    fb = draw(st.sampled_from([None, 0, 1, 2]))
    case = dict(fmt=fmt, w=w, h=h, n=n, content=draw(vsl.s_content(True)), fb=fb, ops=[])
    cur = (f, w, h)
    for _ in range(draw(st.integers(1, 3))):
        op = draw(s_op(*cur))
        nxt = shape_after(cur, op)
        if nxt is None or nxt[1] * nxt[2] > 30000 or nxt[1] > 400 or nxt[2] > 400:
            break
        case['ops'].append(op)
        cur = nxt
    if not case['ops']:
        case['ops'].append(['FlipVertical'])
    return case


@st.composite
def s_op(draw, f, w, h):
    name = draw(st.sampled_from(['Crop', 'CropAbs', 'AddBorders', 'FlipVertical', 'FlipHorizontal', 'Turn90', 'Turn180', 'Turn270', 'Transpose',
                                 'StackVertical', 'StackHorizontal', 'ShuffleGray', 'ShuffleSwap', 'ShuffleMerge', 'Split']))
    mw, mh = 1 << f.ssw, 1 << f.ssh
    if name in ('Crop', 'CropAbs'):
        cw = draw(st.integers(1, w // mw)) * mw
        ch = draw(st.integers(1, h // mh)) * mh
        x = draw(st.integers(0, (w - cw) // mw)) * mw
        y = draw(st.integers(0, (h - ch) // mh)) * mh
        return [name, x, y, cw, ch]
    if name == 'AddBorders':
        b = [draw(st.one_of(st.just(0), st.integers(0, 5), st.integers(0, 20))) * m for m in (mw, mw, mh, mh)]
        col = None
        if draw(st.booleans()):
            if f.st == vsl.INT:
                col = [draw(st.one_of(st.sampled_from([0, f.peak]), st.integers(0, f.peak))) for _ in range(f.planes)]
            else:
                col = [draw(st.one_of(st.sampled_from([0.0, 1.0, -0.5, 0.5]), st.floats(-4, 4, width=16))) for _ in range(f.planes)]
        return [name, *b, col]
    if name.startswith('Stack'):
        k = draw(st.integers(1, 3))
        others = []
        for _ in range(k):
            d = draw(st.integers(1, 12)) * (mh if name == 'StackVertical' else mw)
            others.append([d, draw(st.integers(1, 4)), draw(vsl.s_content(True))])
        return [name, draw(st.integers(0, k)), others]
    if name == 'ShuffleGray':
        return [name, draw(st.integers(0, f.planes - 1))]
    if name == 'ShuffleSwap':
        if f.planes == 1:
            return ['ShuffleGray', 0]
        if f.ssw == f.ssh == 0:
            p = [draw(st.integers(0, 2)) for _ in range(3)]
        else:
            p = [0, draw(st.integers(1, 2)), draw(st.integers(1, 2))]
        return [name, p, draw(st.sampled_from([f.cf] + ([RGB, YUV] if f.ssw == f.ssh == 0 else [])))]
    if name == 'ShuffleMerge':
        # combine one plane of the current clip with planes of two gray clips of a subsampled size
        ssw, ssh = draw(st.integers(0, 4)), draw(st.integers(0, 4))
        while w % (1 << ssw):
            ssw -= 1
        while h % (1 << ssh):
            ssh -= 1
        return [name, ssw, ssh, draw(vsl.s_content()), draw(st.booleans()), draw(st.integers(1, 3))]
    if name == 'Split':
        return [name, draw(st.integers(0, f.planes - 1))]
    return [name]


def shape_after(cur, op):
    f, w, h = cur
    k = op[0]
    if k in ('Crop', 'CropAbs'):
        return f, op[3], op[4]
    if k == 'AddBorders':
        return f, w + op[1] + op[2], h + op[3] + op[4]
    if k in ('Turn90', 'Turn270', 'Transpose'):
        return F(f.cf, f.st, f.bits, f.ssh, f.ssw), h, w
    if k == 'StackVertical':
        return f, w, h + sum(o[0] for o in op[2])
    if k == 'StackHorizontal':
        return f, w + sum(o[0] for o in op[2]), h
    if k in ('ShuffleGray', 'Split'):
        d = f.dims(op[1], w, h)
        return F(GRAY, f.st, f.bits), d[0], d[1]
    if k == 'ShuffleSwap':
        return F(op[2], f.st, f.bits, f.ssw, f.ssh), w, h
    if k == 'ShuffleMerge':
        return F(YUV, f.st, f.bits, op[1], op[2]), w, h
    return cur


def apply(node, m, op):
    """Returns (node, model) after op."""
    k = op[0]
    std = core().std
    f = m.fmt
    sh = shape_after((f, m.w, m.h), op)
    props = [dict(p) for p in m.props]

    def flipfb(y):
        if y & 1:
            for p in props:
                if p.get('_FieldBased') in (1, 2):
                    p['_FieldBased'] = 3 - p['_FieldBased']

    def each(fn):
        return [[np.ascontiguousarray(fn(pl, p)) for p, pl in enumerate(fr)] for fr in m.frames]
    if k in ('Crop', 'CropAbs'):
        _, x, y, cw, ch = op
        if k == 'CropAbs':
            node = std.CropAbs(node, width=cw, height=ch, left=x, top=y)
        else:
            node = std.Crop(node, left=x, top=y, right=m.w - cw - x, bottom=m.h - ch - y)
        def fn(a, p):
            sw, s2 = (f.ssw, f.ssh) if p else (0, 0)
            return a[y >> s2:(y + ch) >> s2, x >> sw:(x + cw) >> sw]
        fr = each(fn)
        flipfb(y)
    elif k == 'AddBorders':
        _, l, r, t, b, col = op
        node = std.AddBorders(node, left=l, right=r, top=t, bottom=b, **({'color': col} if col else {}))
        def fn(a, p):
            sw, s2 = (f.ssw, f.ssh) if p else (0, 0)
            c = col[p] if col else ((1 << (f.bits - 1)) if f.st == vsl.INT and f.uv(p) else 0)
            return np.pad(a, ((t >> s2, b >> s2), (l >> sw, r >> sw)), constant_values=np.array(c).astype(f.dtype))
        fr = each(fn)
        flipfb(t)
    elif k in ('FlipVertical', 'FlipHorizontal', 'Turn90', 'Turn180', 'Turn270', 'Transpose'):
        node = getattr(std, k)(node)
        fn = {'FlipVertical': lambda a: a[::-1], 'FlipHorizontal': lambda a: a[:, ::-1], 'Turn180': lambda a: a[::-1, ::-1], 'Turn90': lambda a: np.rot90(a, -1),
              'Turn270': lambda a: np.rot90(a, 1), 'Transpose': lambda a: a.T}[k]
        fr = each(lambda a, p: fn(a))
    elif k.startswith('Stack'):
        _, pos, others = op
        cl, nodes = [], []
        for i, (d, n, c) in enumerate(others):
            w2, h2 = (m.w, d) if k == 'StackVertical' else (d, m.h)
            oc = vsl.make_clip(f, w2, h2, n, c, salt=i + 1)
            cl.append(oc)
            nodes.append(oc.node())
        cl.insert(pos, m)
        nodes.insert(pos, node)
        node = getattr(std, k)(nodes)
        n = max(c.n for c in cl)
        ax = 0 if k == 'StackVertical' else 1
        fr = [[np.concatenate([c.frames[min(i, c.n - 1)][p] for c in cl], axis=ax) for p in range(f.planes)] for i in range(n)]
        props = [dict(cl[0].props[min(i, cl[0].n - 1)]) for i in range(n)]
        if pos != 0:
            m = cl[0]
        return node, Clip(sh[0], sh[1], sh[2], fr, m.fps, props)
    elif k == 'ShuffleGray':
        node = std.ShufflePlanes(node, planes=op[1], colorfamily=vs.GRAY)
        fr = [[x[op[1]]] for x in m.frames]
    elif k == 'Split':
        out = std.SplitPlanes(node)
        out = out if isinstance(out, list) else [out]
        check(len(out) == f.planes, 'SplitPlanes count', len(out))
        node = out[op[1]]
        fr = [[x[op[1]]] for x in m.frames]
    elif k == 'ShuffleSwap':
        node = std.ShufflePlanes(node, planes=op[1], colorfamily=op[2])
        fr = [[x[q] for q in op[1]] for x in m.frames]
    elif k == 'ShuffleMerge':
        _, ssw, ssh, c, two, n2 = op
        g = vsl.make_clip(F(GRAY, f.st, f.bits), m.w >> ssw, m.h >> ssh, n2, c, salt=5)
        g2 = vsl.make_clip(F(GRAY, f.st, f.bits), m.w >> ssw, m.h >> ssh, 4 - n2, c, salt=6)
        clips = [node, g.node()] + ([] if two else [g2.node()])
        node = std.ShufflePlanes(clips, planes=[0, 0, 0], colorfamily=vs.YUV)
        third = g if two else g2
        n = max(m.n, g.n, third.n)
        fr = [[m.frames[min(i, m.n - 1)][0], g.frames[min(i, g.n - 1)][0], third.frames[min(i, third.n - 1)][0]] for i in range(n)]
        props = [dict(m.props[min(i, m.n - 1)]) for i in range(n)]
    return node, Clip(sh[0], sh[1], sh[2], fr, m.fps, props)


def run_chain(case):
    m = vsl.make_clip(case['fmt'], case['w'], case['h'], case['n'], case['content'], props=[dict(idx=i, **({} if case['fb'] is None else {'_FieldBased': case['fb']})) for i in range(case['n'])])
    node = m.node()
    labels = set()
    for op in case['ops']:
        labels.add(op[0])
        node, m = apply(node, m, op)
        what = str(case['ops'])
        vsl.check_info(node, m.fmt, m.w, m.h, m.n, m.fps, op[0])
    for i in range(m.n):
        fr = node.get_frame(i)
        check((fr.width, fr.height) == (m.w, m.h) and vsl.fmt_of(fr.format) == m.fmt, what, 'frame format/size')
        vsl.same_planes(vsl.planes(fr), m.frames[i], what + f' frame {i}')
        got = dict(fr.props)
        check(got == m.props[i], what, 'props', got, m.props[i])
        fr.close()
    if m.fmt.ssw or m.fmt.ssh:
        labels.add('subsampled')
    nontriv = m.w * m.h > 1 and case['content'][0] != 'const'
    return labels, nontriv


# --------------------------------------------------------------- refused parameters
@st.composite
def s_refuse(draw):
    fmt = draw(FMT)
    f = F(*fmt)
    w, h = sub_dim(draw, f.ssw, 40), sub_dim(draw, f.ssh, 40)
    mw, mh = 1 << f.ssw, 1 << f.ssh
    kind = draw(st.sampled_from(['crop_all', 'crop_beyond', 'crop_neg', 'crop_ss', 'border_neg', 'border_ss', 'border_color', 'border_colorn', 'stack_fmt', 'stack_dim',
                                 'shuf_plane', 'shuf_bits', 'shuf_size', 'shuf_many', 'abs_beyond', 'abs_zero', 'abs_ss', 'sep_h', 'stack_huge']))
    big = draw(st.sampled_from([1, 2, 3, 17, 1000, 2**31 - 1 - 40, 2**31 - 8, 2**31 - 2, 2**31 - 1, 2**31, 2**40]))
    return dict(fmt=fmt, w=w, h=h, kind=kind, big=big, axis=draw(st.integers(0, 3)), v=draw(st.integers(0, 60)), v2=draw(st.sampled_from([0, 1, 2, 2**31 - 1, 2**31 - 2])))


def run_refuse(case):
    f = F(*case['fmt'])
    w, h, k, big, ax, v = case['w'], case['h'], case['kind'], case['big'], case['axis'], case['v']
    mw, mh = 1 << f.ssw, 1 << f.ssh
    std = core().std
    c = core().std.BlankClip(width=w, height=h, format=f.id, length=1)
    side = ['left', 'right', 'top', 'bottom'][ax]
    m = mw if ax < 2 else mh
    dim = w if ax < 2 else h
    opp = {'left': 'right', 'right': 'left', 'top': 'bottom', 'bottom': 'top'}[side]

    def go(fn, why):
        return vsl.expect_error(fn, f'{k}: {why} {case}')
    if k == 'crop_all':
        a = v % (dim // m + 1) * m
        go(lambda: std.Crop(c, **{side: a, opp: dim - a}), 'whole picture cropped away')
    elif k == 'crop_beyond':
        kw = {side: dim + big * m if big * m < 2**62 else dim + big}
        if case['v2']:
            kw[opp] = case['v2']
        go(lambda: std.Crop(c, **kw), 'beyond the frame')
    elif k == 'crop_neg':
        go(lambda: std.Crop(c, **{side: -big}), 'negative')
    elif k == 'crop_ss':
        if m == 1:
            return ['na'], False
        a = v % dim
        if a % m == 0:
            a += 1
        go(lambda: std.Crop(c, **{side: a}), 'subsampling')
    elif k == 'border_neg':
        go(lambda: std.AddBorders(c, **{side: -big}), 'negative border')
    elif k == 'border_ss':
        if m == 1:
            return ['na'], False
        a = v if v % m else v + 1
        go(lambda: std.AddBorders(c, **{side: a}), 'subsampling')
    elif k == 'border_color':
        col = [0.0] * f.planes
        col[v % f.planes] = [float('nan'), float('inf'), -float('inf'), 1e39][ax] if f.st == vsl.FLOAT else [float(1 << f.bits), -1.0, float('nan'), f.peak + 0.75][ax]
        go(lambda: std.AddBorders(c, left=mw, color=col), 'color out of range')
    elif k == 'border_colorn':
        n = [1, 2, 4, 5][ax]
        if n == f.planes:
            n = 2
        go(lambda: std.AddBorders(c, left=mw, color=[0] * n), 'number of colors')
    elif k in ('stack_fmt', 'stack_dim'):
        name = 'StackVertical' if ax & 1 else 'StackHorizontal'
        if k == 'stack_fmt':
            g = F(GRAY if f.cf != GRAY else RGB, f.st, f.bits)
            o = std.BlankClip(width=w, height=h, format=g.id, length=1)
        else:
            o = std.BlankClip(width=w + (mw if name == 'StackVertical' else 0), height=h + (mh if name == 'StackHorizontal' else 0), format=f.id, length=1)
        go(lambda: getattr(std, name)([c, o]), 'mismatch')
        go(lambda: getattr(std, name)([o, c]), 'mismatch')
    elif k == 'stack_huge':
        # sums of dimensions that do not fit an int (2^30 and more samples are never rendered)
        n = 2 + v % 4
        one = std.BlankClip(width=1 if ax & 1 else 2**30, height=2**30 if ax & 1 else 1, format=vs.GRAY8, length=1)
        go(lambda: getattr(std, 'StackVertical' if ax & 1 else 'StackHorizontal')([one] * n), 'huge sum of dimensions')
    elif k == 'shuf_plane':
        go(lambda: std.ShufflePlanes(c, planes=f.planes + v if ax & 1 else -1 - v, colorfamily=vs.GRAY), 'invalid plane')
    elif k == 'shuf_bits':
        g = F(GRAY, vsl.INT, 11)
        o = std.BlankClip(width=w, height=h, format=g.id, length=1)
        go(lambda: std.ShufflePlanes([c, o, o], planes=[0, 0, 0], colorfamily=vs.YUV), 'different storage')
    elif k == 'shuf_size':
        o = std.BlankClip(width=w + 1, height=h, format=F(GRAY, f.st, f.bits).id, length=1)
        go(lambda: std.ShufflePlanes([c, o, o], planes=[0, 0, 0], colorfamily=vs.YUV), 'not subsampled')
    elif k == 'shuf_many':
        go(lambda: std.ShufflePlanes([c, c], planes=[0], colorfamily=vs.GRAY), 'too many clips')
        go(lambda: std.ShufflePlanes([c] * 4, planes=[0, 0, 0], colorfamily=vs.YUV), 'too many clips')
    elif k == 'abs_beyond':
        x = v % (dim // m) * m
        b = big * m
        if ax < 2:
            go(lambda: std.CropAbs(c, width=dim - x + b if b < 2**40 else b, height=h, left=x), 'beyond')
        else:
            go(lambda: std.CropAbs(c, width=w, height=dim - x + b if b < 2**40 else b, top=x), 'beyond')
    elif k == 'abs_zero':
        z = [0, -1, -big, -big * 2][ax]
        go(lambda: std.CropAbs(c, width=z, height=h), 'zero width')
        go(lambda: std.CropAbs(c, width=w, height=z), 'zero height')
        go(lambda: std.CropAbs(c, width=w, height=h, left=-big), 'neg')
    elif k == 'abs_ss':
        if m == 1:
            return ['na'], False
        a = v % m or 1
        if ax < 2:
            go(lambda: std.CropAbs(c, width=w - mw + a if w > mw else a, height=h), 'subsampling')
        else:
            go(lambda: std.CropAbs(c, width=w, height=h - mh + a if h > mh else a), 'subsampling')
    elif k == 'sep_h':
        if h % (2 * mh) == 0:
            return ['na'], False
        go(lambda: std.SeparateFields(c, tff=True), 'height')
    return [k], True


# --------------------------------------------------------------- variable size / format input
@st.composite
def s_var(draw):
    fmts = draw(st.lists(FMT, min_size=2, max_size=3))
    clips = []
    samefmt = draw(st.booleans())
    for fm in fmts:
        fm = fmts[0] if samefmt else fm
        f = F(*fm)
        clips.append([fm, sub_dim(draw, f.ssw, 60), sub_dim(draw, f.ssh, 40), draw(vsl.s_content())])
    return dict(clips=clips, op=draw(st.sampled_from(['FlipVertical', 'FlipHorizontal', 'Turn180', 'CropAbs', 'ShuffleGray', 'AddBorders'])), a=draw(st.integers(0, 8)), b=draw(st.integers(0, 8)), c=draw(st.integers(1, 16)), d=draw(st.integers(1, 16)))


def run_var(case):
    std = core().std
    ms = [vsl.make_clip(F(*c[0]), c[1], c[2], 1, c[3], salt=i) for i, c in enumerate(case['clips'])]
    node = std.Splice([m.node() for m in ms], mismatch=True)
    op, a, b, c, d = case['op'], case['a'], case['b'], case['c'], case['d']
    labels = [op]
    try:
        if op == 'CropAbs':
            out = std.CropAbs(node, width=c, height=d, left=a, top=b)
        elif op == 'ShuffleGray':
            out = std.ShufflePlanes(node, planes=a % 3, colorfamily=vs.GRAY)
        elif op == 'AddBorders':
            out = std.AddBorders(node, left=a, top=b, right=c, bottom=d)
        else:
            out = getattr(std, op)(node)
    except vs.Error as e:
        return [op + '-refused'], False
    ok = 0
    for i, m in enumerate(ms):
        f = m.fmt
        mw, mh = 1 << f.ssw, 1 << f.ssh
        # which frames must work
        want = None
        if op == 'CropAbs':
            if a + c <= m.w and b + d <= m.h and a % mw == 0 and c % mw == 0 and b % mh == 0 and d % mh == 0:
                want = (f, [pl[(b >> (f.ssh if p else 0)):((b + d) >> (f.ssh if p else 0)), (a >> (f.ssw if p else 0)):((a + c) >> (f.ssw if p else 0))] for p, pl in enumerate(m.frames[0])])
        elif op == 'ShuffleGray':
            if a % 3 < f.planes:
                want = (F(GRAY, f.st, f.bits), [m.frames[0][a % 3]])
                if node.format is None:
                    want = (None, want[1])
        elif op == 'AddBorders':
            if a % mw == 0 and c % mw == 0 and b % mh == 0 and d % mh == 0:
                def pad(pl, p):
                    sw, s2 = (f.ssw, f.ssh) if p else (0, 0)
                    cc = (1 << (f.bits - 1)) if f.st == vsl.INT and f.uv(p) else 0
                    return np.pad(pl, ((b >> s2, d >> s2), (a >> sw, c >> sw)), constant_values=np.array(cc).astype(f.dtype))
                want = (f, [pad(pl, p) for p, pl in enumerate(m.frames[0])])
        else:
            fn = {'FlipVertical': lambda x: x[::-1], 'FlipHorizontal': lambda x: x[:, ::-1], 'Turn180': lambda x: x[::-1, ::-1]}[op]
            want = (f, [fn(x) for x in m.frames[0]])
        try:
            fr = out.get_frame(i)
        except vs.Error as e:
            check(want is None or (op == 'ShuffleGray' and node.format is None), op, 'frame', i, 'failed:', e, case)
            continue
        check(want is not None, op, 'frame', i, 'delivered although impossible', case)
        if want[0] is not None:
            check(vsl.fmt_of(fr.format) == want[0], op, 'format')
        vsl.same_planes(vsl.planes(fr), [np.ascontiguousarray(x) for x in want[1]], f'{op} var frame {i}')
        ok += 1
    return labels + [f'{op}-ok{min(ok,1)}'], ok > 0


CHECKS = {
    'chain': Sub(s_chain(), run_chain, quick=16000, thorough=160000, batch=200),
    'refuse': Sub(s_refuse(), run_refuse, quick=6000, thorough=30000, batch=200),
    'variable': Sub(s_var(), run_var, quick=4000, thorough=30000, batch=200),
}
