"""C15 results do not depend on the CPU level."""
import numpy as np
import vapoursynth as vs
from hypothesis import strategies as st
from vf.core import Sub, check, Violation
from vf import vsl
from vf.vsl import F, GRAY, RGB, YUV, core
from vf.props import c12, c13, c14

LEVELS = ['none', 'sse2', 'avx2', 'avx512']
EXACT = {'Minimum', 'Maximum', 'Median', 'Transpose', 'Lut', 'Lut2'}


@st.composite
def s_misc(draw):
    op = draw(st.sampled_from(['Transpose', 'Transpose', 'Transpose', 'PlaneStats', 'PlaneStats', 'PlaneStats', 'Lut', 'Lut', 'Lut2']))
    c = draw(vsl.s_clip(maxw=draw(st.sampled_from([20, 70, 300])), maxh=draw(st.sampled_from([8, 70])), wild=op == 'Transpose', fmts=vsl.s_format(ints=(8, 9, 10), floats=()) if op.startswith('Lut') else None))
    f = F(*c['fmt'])
    c['op'] = op
    c['content2'] = draw(vsl.s_content())
    c['plane'] = draw(st.integers(0, f.planes - 1))
    c['two'] = draw(st.booleans())
    c['obits'] = draw(st.sampled_from([8, 10, 16, 32]))
    c['bits2'] = 8
    if op == 'Lut2':
        big = draw(st.integers(0, 11)) == 5
        c['fmt'][2] = 9 if big else 8
        if big:  # the table has to exceed the cache for gathers to be used
            c['obits'] = 32
    c['seed'] = draw(st.integers(0, 1 << 16))
    return c


@st.composite
def s_case(draw):
    k = draw(st.sampled_from(['3x3', 'conv', 'merge', 'merge', 'misc', 'misc']))
    c = draw({'3x3': c13.s_3x3(), 'conv': c13.s_conv(), 'merge': c12.s_merge(), 'misc': s_misc()}[k])
    c['kind'] = k
    return c


def build(c):
    """A function building the filter, and the magnitude of its float results."""
    f = F(*c['fmt'])
    std = core().std
    k = c['kind']
    pl = {} if c.get('planes') is None else dict(planes=c['planes'])
    if k == '3x3':
        m = vsl.clip_of(c).node()
        kw = dict(pl)
        if c['op'] in ('Minimum', 'Maximum', 'Deflate', 'Inflate') and c['th'] is not None:
            kw['threshold'] = c['th']
        if c['op'] in ('Minimum', 'Maximum') and c['coord'] is not None:
            kw['coordinates'] = c['coord']
        if c['op'] in ('Prewitt', 'Sobel') and c['scale'] is not None:
            kw['scale'] = c['scale']
        return c['op'], lambda: getattr(std, c['op'])(m, **kw), 8 * (max(1, c['scale']) if c['op'] in ('Prewitt', 'Sobel') and c['scale'] else 1)
    if k == 'merge':
        pr = lambda n, r, l: [dict(i=i, **({} if r is None else {'_Range': r}), **({} if l is None else {'_ChromaLocation': l})) for i in range(n)]
        a = vsl.make_clip(f, c['w'], c['h'], c['n'], c['content'], props=pr(c['n'], c['range'], c['loc'])).node()
        b = vsl.make_clip(f, c['w'], c['h'], c['n2'], c['content2'], props=pr(c['n2'], c['range2'], c['loc2']), salt=1).node()
        op = c['op']
        if op == 'Merge':
            return op, lambda: std.Merge(a, b, **({'weight': c['weight']} if c['weight'] else {})), 2
        mf = F(GRAY, f.st, f.bits) if c['mask'] == 'gray' or f.planes == 1 else F(YUV, f.st, f.bits) if c['mask'] == 'other' else f
        m = vsl.make_clip(mf, c['w'], c['h'], c['n3'], c['content3'], salt=7).node()
        if op == 'MaskedMerge':
            kw = dict(pl)
            if c['mask'] in ('first', 'other'):
                kw['first_plane'] = 1
            if c['premul']:
                kw['premultiplied'] = 1
            return op, lambda: std.MaskedMerge(a, b, m, **kw), 4
        if op == 'PreMultiply':
            g = vsl.make_clip(F(GRAY, f.st, f.bits), c['w'], c['h'], c['n3'], c['content3'], salt=7).node()
            return op, lambda: std.PreMultiply(a, g), 4
        if op == 'FullDiff':
            return op, lambda: std.MergeFullDiff(b, std.MakeFullDiff(a, b)), 4
        if op == 'MakeDiff':
            return op, lambda: std.MakeDiff(a, b, **pl), 4
        return op, lambda: std.MergeDiff(a, b, **pl), 4
    m = vsl.clip_of(c).node()
    op = c['op']
    if op == 'Transpose':
        return op, lambda: std.Transpose(m), 1
    if op == 'PlaneStats':
        b = vsl.make_clip(f, c['w'], c['h'], c['n'], c['content2'], salt=3).node()
        return op, lambda: std.PlaneStats(m, b if c['two'] else None, plane=c['plane']), 1
    rng = np.random.Generator(np.random.PCG64(c['seed']))
    if op == 'Lut':
        n = 1 << f.bits
        kw = dict(lutf=[float(v) for v in rng.random(n)], floatout=1) if c['obits'] == 32 else dict(lut=[int(v) for v in rng.integers(0, 1 << c['obits'], n)], bits=c['obits'])
        return op, lambda: std.Lut(m, **kw), 1
    f2 = F(f.cf, 0, c['bits2'], f.ssw, f.ssh)
    b = vsl.make_clip(f2, c['w'], c['h'], c['n'], c['content2'], salt=3).node()
    n = 1 << (f.bits + f2.bits)
    kw = dict(lutf=rng.random(n).tolist(), floatout=1) if c['obits'] == 32 else dict(lut=rng.integers(0, 1 << c['obits'], n).tolist(), bits=c['obits'])
    return op, lambda: std.Lut2(m, b, **kw), 1


def outcome(fn):
    try:
        n = fn()
        return n, None
    except vs.Error as e:
        return None, str(e)


def frames_of(n):
    out = []
    for i in range(n.num_frames):
        try:
            fr = n.get_frame(i)
        except vs.Error as e:
            out.append(str(e))
            continue
        out.append(([np.array(p) for p in vsl.planes(fr)], dict(fr.props)))
        fr.close()
    return out


def same_level(a, b, f, op, scale, mx, what, inexact=False):
    if isinstance(a, str) or isinstance(b, str):
        check(a == b, what, 'one level fails:', str(a)[:100], str(b)[:100])
        return
    (pa, da), (pb, db) = a, b
    check(list(da) == list(db), what, 'property names', list(da), list(db))
    for k in da:
        x, y = da[k], db[k]
        if isinstance(x, float) and k.startswith('PlaneStats'):
            check(x == y or abs(x - y) <= 1e-9 * max(1, abs(x)) or f.st == vsl.FLOAT and abs(x - y) <= 1e-5 * max(1e-3, abs(x), mx), what, 'property', k, x, y)
        else:
            check(x == y, what, 'property', k, x, y)
    for p in range(len(pa)):
        g, w = pa[p], pb[p]
        check(g.shape == w.shape and g.dtype == w.dtype, what, 'shape')
        if f.st == vsl.INT or op in EXACT and not (inexact and f.bits == 16):
            bad = vsl.raw(g) != vsl.raw(w)
            if f.st == vsl.FLOAT:
                bad &= ~((g == 0) & (w == 0))
        else:
            x, y = g.astype(np.float64), w.astype(np.float64)
            with np.errstate(all='ignore'):
                big = (np.abs(x) > 6e4 if f.bits == 16 else np.abs(x) > 1e37) | ~np.isfinite(x) | ~np.isfinite(y)
                bad = ~(np.abs(x - y) <= (2.0 ** -10 if f.bits == 16 else 1e-6) * scale * max(mx, 1e-3)) & ~big
        if bad.any():
            yy, xx = np.argwhere(bad)[0]
            raise Violation(f'{what} plane {p} y={yy} x={xx}: {g[yy, xx]!r} against {w[yy, xx]!r} ({int(bad.sum())} of {bad.size} differ, size {g.shape[1]}x{g.shape[0]})')


def run_case(c):
    f = F(*c['fmt'])
    if c['kind'] == 'conv' or c['kind'] == '3x3' and c['op'] in ('Prewitt', 'Sobel'):
        # real-valued kernels: levels may fuse operations and so round a tie either way; every level has to meet the reference
        try:
            for lv in LEVELS:
                core().std.SetMaxCPU(lv)
                try:
                    lab, ok = (c13.run_conv if c['kind'] == 'conv' else c13.run_3x3)(c)
                except Violation as e:
                    raise Violation(f'level {lv}: {e}')
        finally:
            core().std.SetMaxCPU('max')
        return lab + [f'w%16={c["w"] % 16}'], ok
    op, fn, scale = build(c)
    res = {}
    std = core().std
    try:
        for lv in LEVELS:
            std.SetMaxCPU(lv)
            n, e = outcome(fn)
            res[lv] = frames_of(n) if e is None else e
    finally:
        std.SetMaxCPU('max')
    base = res['none']
    what = f'{op} {c}'
    mx = 1.0
    if f.st == vsl.FLOAT:
        mx = 6.0 if c['content'][0] == 'wild' else 1.0
    for lv in LEVELS[1:]:
        r = res[lv]
        if isinstance(base, str) or isinstance(r, str):
            check(base == r, what, lv, 'creation differs:', str(base)[:100], str(r)[:100])
            continue
        for i in range(len(base)):
            same_level(r[i], base[i], f if not c['op'].startswith('Lut') else F(f.cf, vsl.INT, 8), op, scale, mx, f'{what} level {lv} against none, frame {i}', c.get('th') is not None) if 'op' in c else \
                same_level(r[i], base[i], f, op, scale, mx, f'{what} level {lv} against none, frame {i}')
    ok = not isinstance(base, str)
    return [op, f'{op}:{"int" if f.st == vsl.INT else "float"}{f.bytes}', f'w%16={c["w"] % 16}'], ok


@st.composite
def s_exprlv(draw):
    c = draw(c14.s_expr())
    c.pop('level')
    return c


def run_expr(c):
    lab, useful = [], False
    for lv in LEVELS:
        lab, u = c14.run_expr(dict(c, level=lv))
        useful |= u
    return ['Expr'] + lab, useful


CHECKS = {
    'levels': Sub(s_case(), run_case, quick=7000, thorough=100000, batch=50),
    'expr': Sub(s_exprlv(), run_expr, quick=1500, thorough=30000, batch=25),
}
