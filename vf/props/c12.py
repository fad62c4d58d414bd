"""C12 merges, differences, premultiplication."""
import numpy as np
import vapoursynth as vs
from hypothesis import strategies as st
from vf.core import Sub, check, Violation
from vf import vsl
from vf.vsl import F, GRAY, RGB, YUV, core

WEIGHT = st.one_of(st.sampled_from([0.0, 1.0, 0.5, 0.25, 1 / 3]), st.floats(0, 1), st.sampled_from([1e-9, 1 - 1e-9, 1 / 65536, 1 / 32768, 0.99999]))
RANGES = st.sampled_from([None, 0, 1])
LOCS = st.sampled_from([None, None, 0, 1, 2, 3, 4, 5, 6, -1])


@st.composite
def s_merge(draw):
    c = draw(vsl.s_clip(maxn=3))
    f = F(*c['fmt'])
    c['op'] = draw(st.sampled_from(['Merge', 'MaskedMerge', 'MaskedMerge', 'MakeDiff', 'MergeDiff', 'FullDiff', 'PreMultiply', 'PreMultiply', 'DiffRound']))
    c['content2'], c['n2'] = draw(vsl.s_content()), draw(st.integers(1, 3))
    c['content3'], c['n3'] = draw(vsl.s_content()), draw(st.integers(1, 3))
    c['same'] = draw(st.integers(0, 5)) == 0
    c['planes'] = draw(vsl.s_planes(f.planes)) if c['op'] in ('MaskedMerge', 'MakeDiff', 'MergeDiff', 'DiffRound') else None
    c['weight'] = [draw(WEIGHT) for _ in range(draw(st.integers(0, f.planes)))]
    c['range'] = draw(RANGES)
    c['range2'] = draw(st.one_of(st.just(c['range']), RANGES))
    c['loc'] = draw(LOCS)
    c['loc2'] = draw(st.one_of(st.just(c['loc']), st.just(c['loc']), LOCS))
    c['mask'] = draw(st.sampled_from(['gray', 'same', 'first', 'other']))
    c['premul'] = draw(st.booleans())
    return c


def chroma_pos(n, ss, off, size):
    """Luma positions of n chroma samples; off 0 = on the first luma sample, 0.5 = centred, 1 = on the last."""
    s = 1 << ss
    return np.clip(np.arange(n) * s + off * (s - 1), 0, size - 1)


def chroma_mask(a, f, w, h, loc):
    """The mask interpolated at the positions of the chroma samples (documented placement)."""
    ho, vo = {0: (0, .5), 1: (.5, .5), 2: (0, 0), 3: (.5, 0), 4: (0, 1), 5: (.5, 1)}[loc]
    x = chroma_pos(w >> f.ssw, f.ssw, ho, w)
    y = chroma_pos(h >> f.ssh, f.ssh, vo, h)
    a = a.astype(np.float64)
    x0, y0 = x.astype(int), y.astype(int)
    x1, y1 = np.minimum(x0 + 1, w - 1), np.minimum(y0 + 1, h - 1)
    ax, ay = (x - x0)[None, :], (y - y0)[:, None]
    v = (1 - ay) * ((1 - ax) * a[np.ix_(y0, x0)] + ax * a[np.ix_(y0, x1)]) + ay * ((1 - ax) * a[np.ix_(y1, x0)] + ax * a[np.ix_(y1, x1)])
    return np.floor(v + 0.5) if f.st == vsl.INT else v.astype(f.dtype).astype(np.float64)


def loc_of(v):
    return v if v is not None and 0 <= v <= 5 else 0


def nearest_div(x, d):
    """Nearest integer to x/d, ties away from zero (d odd: none)."""
    s = np.sign(x)
    return s * ((np.abs(x) + d // 2) // d)


def run_merge(c):
    f = F(*c['fmt'])
    std = core().std
    pr = lambda n, k, r, l: [dict(idx=k + i, **({} if r is None else {'_Range': r}), **({} if l is None else {'_ChromaLocation': l})) for i in range(n)]
    a = vsl.make_clip(f, c['w'], c['h'], c['n'], c['content'], props=pr(c['n'], 1, c['range'], c['loc']))
    b = vsl.make_clip(f, c['w'], c['h'], c['n2'], c['content'] if c['same'] else c['content2'], props=pr(c['n2'], 100, c['range2'], c['loc2']), salt=0 if c['same'] else 1)
    op, w, h = c['op'], c['w'], c['h']
    isint = f.st == vsl.INT
    pl = vsl.procs(c['planes'], f)
    kw = {} if c['planes'] is None else dict(planes=c['planes'])
    A = lambda i, p: a.frames[i][p].astype(np.int64 if isint else np.float64)
    B = lambda i, p: b.frames[min(i, b.n - 1)][p].astype(np.int64 if isint else np.float64)
    what = f'{op} {c}'
    half = 1 << (f.bits - 1)
    labels = [op, f'{op}:{"int" if isint else "float"}{f.bytes}']
    fmt = None
    sub = f.ssw or f.ssh

    def fl(x):
        return vsl.rounded_bounds(x, f, 3e-6, 3e-7)
    if op == 'Merge':
        out = std.Merge(a.node(), b.node(), **({'weight': c['weight']} if c['weight'] else {}))

        def model(i, p):
            wt = c['weight'][min(p, len(c['weight']) - 1)] if c['weight'] else 0.5
            x, y = A(i, p), B(i, p)
            if wt == 0:
                return a.frames[i][p]
            if wt == 1:
                return b.frames[min(i, b.n - 1)][p]
            if not isint:
                return fl(x + (y - x) * wt)
            d = np.abs(y - x) / 32768.0
            lo, hi = vsl.rounded_bounds(x + (y - x) * float(np.float32(wt)), f, 1e-9, d + 1e-9)
            return np.maximum(lo, np.minimum(x, y)), np.minimum(hi, np.maximum(x, y))
    elif op == 'MaskedMerge':
        mk = c['mask'] if f.planes > 1 else 'gray'
        if mk == 'gray':
            mf = F(GRAY, f.st, f.bits)
        elif mk == 'other':
            mf = F(YUV, f.st, f.bits, 0, 0) if f.planes == 3 else f
        else:
            mf = f
        first = mk in ('gray', 'first', 'other')
        m = vsl.make_clip(mf, w, h, c['n3'], c['content3'], salt=7, props=[dict(m=1)] * c['n3'])
        args = dict(kw)
        if mk in ('first', 'other'):
            args['first_plane'] = 1
        if c['premul']:
            args['premultiplied'] = 1
        out = std.MaskedMerge(a.node(), b.node(), m.node(), **args)
        labels.append('mask-' + mk)

        def lim(r):
            return r == 0 if r is not None else f.cf in (GRAY, YUV)
        must_fail = None
        if sub and (pl & {1, 2}) and loc_of(c['loc']) != loc_of(c['loc2']):
            must_fail = 'different chroma locations'
        if c['premul'] and isint and lim(c['range']) != lim(c['range2']):
            must_fail = 'different ranges'
        if must_fail:
            vsl.expect_error(lambda: out.get_frame(0), what + ' ' + must_fail)
            return labels + ['refused-' + must_fail], True

        def M(i, p):
            k = m.frames[min(i, m.n - 1)]
            if not first:
                v = k[p].astype(np.float64)
            elif p and sub:
                v = chroma_mask(k[0], f, w, h, loc_of(c['loc']))
            else:
                v = k[0].astype(np.float64)
            return v.astype(np.int64) if isint else np.clip(v, 0, 1)

        def model(i, p):
            x, y, k = A(i, p), B(i, p), M(i, p)
            if not c['premul']:
                if isint:
                    return nearest_div(x * (f.peak - k) + y * k, f.peak).astype(f.dtype)
                return fl(x + (y - x) * k)
            if isint:
                off = half if f.uv(p) else (16 << (f.bits - 8)) if lim(c['range']) else 0
                return np.clip(nearest_div((x - off) * (f.peak - k), f.peak) + y, 0, f.peak).astype(f.dtype)
            return fl((1 - k) * x + y)
    elif op == 'PreMultiply':
        m = vsl.make_clip(F(GRAY, f.st, f.bits), w, h, c['n3'], c['content3'], salt=7)
        out = std.PreMultiply(a.node(), m.node())

        def model(i, p):
            k = m.frames[min(i, m.n - 1)][0]
            k = chroma_mask(k, f, w, h, loc_of(c['loc'])) if p and sub else k.astype(np.float64)
            x = A(i, p)
            if not isint:
                return fl(x * k)
            lim = c['range'] == 0 if c['range'] is not None else f.cf in (GRAY, YUV)
            off = half if f.uv(p) else (16 << (f.bits - 8)) if lim else 0
            return (nearest_div((x - off) * k.astype(np.int64), f.peak) + off).astype(f.dtype)
    elif op == 'MakeDiff':
        out = std.MakeDiff(a.node(), b.node(), **kw)

        def model(i, p):
            d = A(i, p) - B(i, p)
            return np.clip(d + half, 0, f.peak).astype(f.dtype) if isint else fl(d)
    elif op == 'MergeDiff':
        out = std.MergeDiff(a.node(), b.node(), **kw)

        def model(i, p):
            d = A(i, p) + B(i, p)
            return np.clip(d - half, 0, f.peak).astype(f.dtype) if isint else fl(d)
    elif op == 'DiffRound':
        # where a-b fits the format, MergeDiff(b, MakeDiff(a, b)) gives a back
        na, nb = a.node(), b.node()
        if b.n < a.n:
            nb = std.Splice([nb, std.Loop(nb[b.n - 1], a.n)])[:a.n]
        diff = std.MakeDiff(na, nb, **kw)
        out = std.MergeDiff(nb, diff, **kw)
        out = std.CopyFrameProps(out, na)
        for i in range(a.n):
            got = vsl.planes(out.get_frame(i))
            for p in range(f.planes):
                x, y = A(i, p), B(i, p)
                if p not in pl:
                    check(np.array_equal(got[p].astype(y.dtype), y), what, 'unprocessed plane')
                elif isint:
                    ok = np.abs(x - y) < half
                    check(np.array_equal(got[p].astype(np.int64)[ok], x[ok]), what, 'MergeDiff does not undo MakeDiff, frame', i, 'plane', p)
                else:
                    lo, hi = vsl.rounded_bounds(x, f, 4e-6, 2e-3 if f.bits == 16 else 1e-6)
                    vsl.within(got[p], lo, hi, what + f' frame {i} plane {p}')
        return labels, w * h > 1
    else:
        na, nb = a.node(), b.node()
        d = std.MakeFullDiff(na, nb)
        df = F(f.cf, f.st, f.bits + 1, f.ssw, f.ssh) if isint else f

        def model(i, p):
            v = A(i, p) - B(i, p)
            return (v + (1 << f.bits)).astype(df.dtype) if isint else fl(v)
        vsl.compare(d, a, model, pl, what, fmt=df)
        if b.n < a.n:
            nb = std.Splice([nb, std.Loop(nb[b.n - 1], a.n)])[:a.n]
        out = std.MergeFullDiff(nb, d)
        for i in range(a.n):
            got = vsl.planes(out.get_frame(i))
            for p in range(f.planes):
                if isint:
                    vsl.same_planes([got[p]], [a.frames[i][p]], what + f' MergeFullDiff does not undo MakeFullDiff, frame {i} plane {p}')
                else:
                    lo, hi = vsl.rounded_bounds(A(i, p), f, 4e-6, 2e-3 if f.bits == 16 else 1e-6)
                    vsl.within(got[p], lo, hi, what + f' frame {i} plane {p}')
        return labels, w * h > 1
    vsl.compare(out, a, model, pl, what, fmt=fmt)
    if sub:
        labels.append(op + ':subsampled')
    return labels, w * h > 1


@st.composite
def s_refuse(draw):
    return dict(fmt=draw(vsl.s_format()), kind=draw(st.sampled_from(['dim', 'fmt', 'weight', 'nweight', 'mask_type', 'mask_bits', 'mask_dim', 'alpha', 'full_bits', 'planes', 'int17', 'mask_fmt'])),
                v=draw(st.integers(0, 1 << 16)), op=draw(st.sampled_from(['Merge', 'MaskedMerge', 'MakeDiff', 'MergeDiff', 'MakeFullDiff', 'MergeFullDiff', 'PreMultiply'])))


def run_refuse(c):
    f = F(*c['fmt'])
    std = core().std
    w, h, v, k, op = 8 << f.ssw, 8 << f.ssh, c['v'], c['kind'], c['op']
    blank = lambda ff, ww=w, hh=h: std.BlankClip(width=ww, height=hh, format=ff.id, length=2)
    a = blank(f)
    g = F(GRAY, f.st, f.bits)

    def go(fn):
        vsl.expect_error(fn, f'{c}')

    def call(x, y, **kw):
        if op == 'MaskedMerge':
            return std.MaskedMerge(x, y, blank(g), **kw)
        return getattr(std, op)(x, y, **kw)
    if k in ('dim', 'fmt'):
        if k == 'dim':
            b = blank(f, w + (1 << f.ssw) if v & 1 else w, h if v & 1 else h + (1 << f.ssh))
        else:
            b = blank(F(RGB if f.cf != RGB else GRAY, f.st, f.bits))
            if op == 'PreMultiply':
                b = blank(F(RGB, f.st, f.bits))
        if op == 'PreMultiply' and k == 'dim':
            b = blank(g, b.width, b.height)
        if op == 'MergeFullDiff' and k == 'dim' and f.st == vsl.INT:
            b = std.BlankClip(b, format=F(f.cf, f.st, f.bits + 1, f.ssw, f.ssh).id)
        go(lambda: call(a, b))
        go(lambda: call(b, a)) if op != 'PreMultiply' else None
    elif k == 'weight':
        x = [-0.001, 1.001, float('nan'), float('inf'), -float('inf'), 2.0][v % 6]
        go(lambda: std.Merge(a, a, weight=[x] + [0.5] * (v % f.planes)))
    elif k == 'nweight':
        n = f.planes + 1 + [0, 1, 60, 1000][v & 3]
        go(lambda: std.Merge(a, a, weight=[0.5] * n))
    elif k == 'mask_type':
        if f.bits != 16 and f.bits != 32:
            return ['na'], False
        m = blank(F(GRAY, vsl.INT if f.st == vsl.FLOAT else vsl.FLOAT, f.bits))
        go(lambda: std.MaskedMerge(a, a, m, planes=[0]))
        if f.planes == 3:
            m = blank(F(f.cf, vsl.INT if f.st == vsl.FLOAT else vsl.FLOAT, f.bits, f.ssw, f.ssh))
            go(lambda: std.MaskedMerge(a, a, m, first_plane=True, planes=[0]))
    elif k == 'mask_bits':
        m = blank(F(GRAY, vsl.INT, [8, 16][v & 1] if f.bits not in (8, 16) else 10))
        go(lambda: std.MaskedMerge(a, a, m))
    elif k == 'mask_dim':
        go(lambda: std.MaskedMerge(a, a, blank(g, w + 1 if v & 1 else w, h if v & 1 else h - 1)))
    elif k == 'mask_fmt':
        if f.cf == GRAY:
            return ['na'], False
        m = blank(F(YUV if f.cf == RGB else RGB, f.st, f.bits))
        go(lambda: std.MaskedMerge(a, a, m))
    elif k == 'alpha':
        go(lambda: std.PreMultiply(a, blank(F(GRAY, vsl.INT, [8, 16][v & 1] if f.bits not in (8, 16) else 10))))
        if f.bits == 16:
            go(lambda: std.PreMultiply(a, blank(F(GRAY, vsl.INT if f.st == vsl.FLOAT else vsl.FLOAT, 16))))
    elif k == 'full_bits':
        if f.st == vsl.INT:
            go(lambda: std.MergeFullDiff(a, a))
            go(lambda: std.MergeFullDiff(a, blank(F(f.cf, f.st, f.bits + 2, f.ssw, f.ssh))))
    elif k == 'planes':
        go(lambda: [std.MakeDiff, std.MergeDiff][v & 1](a, a, planes=[[3], [-1], [0, 0]][v % 3]))
        go(lambda: std.MaskedMerge(a, a, blank(g), planes=[[3], [-1], [0, 0]][v % 3]))
    elif k == 'int17':
        o = blank(F(f.cf, vsl.INT, 17 + v % 16, f.ssw, f.ssh))
        if op in ('MaskedMerge', 'PreMultiply'):
            m = blank(F(GRAY, vsl.INT, o.format.bits_per_sample))
            go(lambda: std.PreMultiply(o, m) if op == 'PreMultiply' else std.MaskedMerge(o, o, m))
        else:
            go(lambda: getattr(std, op)(o, o))
    return [k], True


CHECKS = {
    'merge': Sub(s_merge(), run_merge, quick=16000, thorough=240000, batch=100),
    'refuse': Sub(s_refuse(), run_refuse, quick=2400, thorough=20000, batch=100),
}
