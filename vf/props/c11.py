"""C11 point operations: every output sample is the documented function of the same input sample."""
import numpy as np
import vapoursynth as vs
from hypothesis import strategies as st
from vf.core import Sub, check, Violation
from vf import vsl
from vf.vsl import F, GRAY, RGB, YUV, core

IFMT = vsl.s_format(ints=(8, 9, 10, 12, 14, 15, 16), floats=None)


def perplane(draw, elem, n):
    k = draw(st.sampled_from([0, 1, 1, n, draw(st.integers(1, n))]))
    return [draw(elem) for _ in range(k)]


def at(lst, p, default):
    return default if not lst else lst[min(p, len(lst) - 1)]


@st.composite
def s_point(draw):
    c = draw(vsl.s_clip(wild=True))
    f = F(*c['fmt'])
    c['op'] = draw(st.sampled_from(['Invert', 'InvertMask', 'Limiter', 'Binarize', 'BinarizeMask', 'Levels']))
    c['planes'] = draw(vsl.s_planes(f.planes))
    if f.st == vsl.INT:
        val = st.one_of(st.integers(0, f.peak), st.sampled_from([0, 1, f.peak, f.peak - 1, f.peak // 2, (f.peak + 1) // 2]))
    else:
        val = st.one_of(st.sampled_from([0.0, 1.0, 0.5, -0.5, 0.25]), st.floats(-2, 2, width=16))
    n = f.planes
    if c['op'] == 'Limiter':
        c['a'], c['b'] = perplane(draw, val, n), perplane(draw, val, n)
    elif c['op'].startswith('Binarize'):
        c['a'], c['b'], c['c'] = perplane(draw, val, n), perplane(draw, val, n), perplane(draw, val, n)
    elif c['op'] == 'Levels':
        c['min_in'], c['max_in'], c['min_out'], c['max_out'] = (perplane(draw, val, n) for _ in range(4))
        c['gamma'] = perplane(draw, st.one_of(st.sampled_from([1.0, 2.0, 0.5]), st.floats(0.2, 5)), n)
    return c


def run_point(c):
    m = vsl.clip_of(c)
    f = m.fmt
    op = c['op']
    pl = vsl.procs(c['planes'], f)
    kw = {} if c['planes'] is None else dict(planes=c['planes'])
    fn = getattr(core().std, op)
    node = m.node()
    isint = f.st == vsl.INT

    def src(i, p):
        return m.frames[i][p].astype(np.float64)

    def uv(p):
        return f.uv(p) and not op.endswith('Mask')

    def lo(p):
        return 0 if isint or not uv(p) else -0.5

    def hi(p):
        return f.peak if isint else 0.5 if uv(p) else 1.0
    what = f'{op} {c}'
    if op.startswith('Invert'):
        out = fn(node, **kw)

        def model(i, p):
            x = src(i, p)
            if isint:
                return (f.peak - x).astype(f.dtype)
            y = -x if uv(p) else 1 - x
            return vsl.rounded_bounds(y, f, 1e-6, 1e-7)
    elif op == 'Limiter':
        bad = any(at(c['a'], p, lo(p)) > at(c['b'], p, hi(p)) for p in range(f.planes))
        for k, v in (('min', c['a']), ('max', c['b'])):
            if v:
                kw[k] = v
        if bad:
            # documented range is empty: either refused or never reached for planes that are not processed
            try:
                fn(node, **kw)
            except vs.Error:
                return [op + ':min>max'], True
            check(not any(at(c['a'], p, lo(p)) > at(c['b'], p, hi(p)) for p in pl), what, 'min > max accepted')
            return [op + ':min>max'], False
        try:
            out = fn(node, **kw)
        except vs.Error as e:
            # planes beyond the clip's own take the value of the last one, compared with format defaults
            if 'min bigger than max' in str(e) and f.planes == 1:
                return [op + ':gray-range'], False
            raise

        def model(i, p):
            y = np.clip(m.frames[i][p].astype(np.float64), at(c['a'], p, lo(p)), at(c['b'], p, hi(p)))
            return y.astype(f.dtype) if isint else vsl.rounded_bounds(y, f, 1e-6)
    elif op.startswith('Binarize'):
        for k, v in (('threshold', c['a']), ('v0', c['b']), ('v1', c['c'])):
            if v:
                kw[k] = v
        out = fn(node, **kw)

        def model(i, p):
            mid = (f.peak + 1) // 2 if isint else 0.0 if uv(p) else 0.5
            t = at(c['a'], p, mid)
            return np.where(src(i, p) < t, at(c['b'], p, lo(p)), at(c['c'], p, hi(p))).astype(f.dtype)
    else:
        top = f.peak if isint else 1.0
        for k in ('min_in', 'max_in', 'min_out', 'max_out', 'gamma'):
            if c[k]:
                kw[k] = c[k]
        bad = [p for p in pl if at(c['max_in'], p, top) <= at(c['min_in'], p, 0)]
        if bad:
            vsl.expect_error(lambda: fn(node, **kw), what + ' max_in <= min_in')
            return [op + ':empty'], True
        out = fn(node, **kw)

        def model(i, p):
            a, b, o1, o2, g = at(c['min_in'], p, 0), at(c['max_in'], p, top), at(c['min_out'], p, 0), at(c['max_out'], p, top), at(c['gamma'], p, 1.0)
            x = (np.clip(src(i, p), a, b) - a) / (b - a)
            y = x ** (1 / g) * (o2 - o1) + o1
            scale = abs(o2) + abs(o1)
            return vsl.rounded_bounds(y, f, 1e-5, 3e-6 * scale)
    vsl.compare(out, m, model, pl, what)
    return [op, f'{op}:{"int" if isint else "float"}{f.bytes}', f'planes{len(pl)}of{f.planes}'], m.w * m.h > 1


# ----------------------------------------------------------------------------------- Lut / Lut2
@st.composite
def s_lut(draw):
    c = draw(vsl.s_clip(fmts=IFMT))
    f = F(*c['fmt'])
    c['two'] = draw(st.booleans())
    if c['two']:
        if f.bits > 9 and (f.bits > 12 or draw(st.integers(0, 3))):
            c['fmt'][2] = draw(st.sampled_from([8, 8, 9, 10, 12]))
            f = F(*c['fmt'])
        c['bits2'] = draw(st.sampled_from([8, 8, 8, min(9, 20 - f.bits), min(16, 20 - f.bits)]))
        c['content2'] = draw(vsl.s_content())
        c['n2'] = draw(st.integers(1, 3))
    c['out'] = draw(st.sampled_from([None, 'same', 'bits', 'float']))
    c['bits'] = draw(st.integers(8, 16))
    # planes left alone keep the input format, so a depth change processes all planes
    c['planes'] = draw(vsl.s_planes(f.planes)) if c['out'] in (None, 'same') else None
    c['via'] = draw(st.sampled_from(['list', 'list', 'func'])) if (f.bits <= 8 and not c['two']) else 'list'
    c['tseed'] = draw(st.integers(0, 1 << 20))
    return c


def run_lut(c):
    m = vsl.clip_of(c)
    f = m.fmt
    pl = vsl.procs(c['planes'], f)
    kw = {} if c['planes'] is None else dict(planes=c['planes'])
    fo = f
    if c['out'] == 'float':
        kw['floatout'] = 1
        fo = F(f.cf, vsl.FLOAT, 32, f.ssw, f.ssh)
    elif c['out'] == 'bits':
        kw['bits'] = c['bits']
        fo = F(f.cf, vsl.INT, c['bits'], f.ssw, f.ssh)
    elif c['out'] == 'same':
        kw['bits'] = f.bits
    rng = np.random.Generator(np.random.PCG64(c['tseed']))
    n = 1 << (f.bits + (c['bits2'] if c['two'] else 0))
    tab = rng.integers(0, fo.peak, n, endpoint=True).astype(fo.dtype) if fo.st == vsl.INT else rng.standard_normal(n).astype(np.float32)
    key = 'lutf' if fo.st == vsl.FLOAT else 'lut'
    what = f'Lut {c}'
    if c['two']:
        f2 = F(f.cf, vsl.INT, c['bits2'], f.ssw, f.ssh)
        m2 = vsl.make_clip(f2, c['w'], c['h'], c['n2'], c['content2'], salt=3)
        kw[key] = tab.tolist()
        out = core().std.Lut2(m.node(), m2.node(), **kw)

        def model(i, p):
            a = m.frames[i][p].astype(np.int64)
            b = m2.frames[min(i, m2.n - 1)][p].astype(np.int64)
            return tab[(b << f.bits) | a]
        lab = 'Lut2'
    else:
        if c['via'] == 'func':
            kw['function'] = (lambda x: float(tab[x])) if fo.st == vsl.FLOAT else (lambda x: int(tab[x]))
        else:
            kw[key] = tab.tolist()
        out = core().std.Lut(m.node(), **kw)

        def model(i, p):
            return tab[m.frames[i][p]]
        lab = 'Lut'
    vsl.compare(out, m, model, pl, what, fmt=fo)
    return [lab, f'{lab}:{f.bytes}->{fo.st}{fo.bytes}', c['via']], m.w * m.h > 1


# ----------------------------------------------------------------------------------- refusals
@st.composite
def s_refuse(draw):
    fmt = draw(vsl.s_format())
    return dict(fmt=fmt, kind=draw(st.sampled_from(['lim_range', 'bin_range', 'lvl_gamma', 'lvl_nan', 'toomany', 'lut_none', 'lut_two', 'lut_len', 'lut_val', 'lut_fmt', 'lut_bits', 'lut2_dim', 'lut2_bits', 'planes_range', 'planes_dup', 'fmt32',
                                                    'lutf_nofloat', 'lut_planes', 'lut_float', 'func_bad'])),
                v=draw(st.integers(0, 1 << 16)), s=draw(st.integers(0, 7)))


def run_refuse(c):
    f = F(*c['fmt'])
    std = core().std
    clip = std.BlankClip(width=8 << f.ssw, height=8 << f.ssh, format=f.id, length=1)
    ib = 8 + c['s']
    ic = std.BlankClip(width=8, height=8, format=F(GRAY, vsl.INT, ib).id, length=1)
    k, v = c['kind'], c['v']
    big = [f.peak + 1 + v, -2 - v, 2.0**63, 2.0**31, 1e300, -1e300][c['s'] % 6]

    def go(fn):
        vsl.expect_error(fn, f'{c}')
    if k == 'lim_range':
        if f.st != vsl.INT:
            go(lambda: std.Limiter(clip, min=2.0, max=1.0))
        else:
            go(lambda: std.Limiter(clip, **{['min', 'max'][v & 1]: big}))
    elif k == 'bin_range':
        if f.st != vsl.INT:
            return ['na'], False
        go(lambda: std.Binarize(clip, **{['threshold', 'v0', 'v1'][v % 3]: big}))
    elif k == 'lvl_gamma':
        go(lambda: std.Levels(clip, gamma=[0.0, -1.0, float('nan'), float('inf')][v & 3]))
    elif k == 'lvl_nan':
        go(lambda: std.Levels(clip, **{['min_in', 'max_in', 'min_out', 'max_out'][v & 3]: [float('nan'), float('inf'), -float('inf')][c['s'] % 3]}))
    elif k == 'toomany':
        n = f.planes + 1
        kw, fn = [(dict(min=[0] * n), std.Limiter), (dict(threshold=[0] * n), std.Binarize), (dict(gamma=[1] * n), std.Levels), (dict(v1=[0] * n), std.BinarizeMask)][v & 3]
        go(lambda: fn(clip, **kw))
    elif k == 'lut_none':
        go(lambda: std.Lut(ic))
    elif k == 'lut_two':
        go(lambda: std.Lut(ic, lut=[0] * (1 << ib), function=lambda x: 0))
    elif k == 'lut_len':
        n = (1 << ib) + [1, -1, 17, -17][v & 3]
        go(lambda: std.Lut(ic, lut=[0] * n))
    elif k == 'lut_val':
        t = [0] * (1 << ib)
        t[v % len(t)] = [1 << ib, -1, 1 << 40, -(1 << 40)][v & 3]
        go(lambda: std.Lut(ic, lut=t))
    elif k == 'lut_fmt':
        if f.st == vsl.INT:
            return ['na'], False
        go(lambda: std.Lut(clip, lut=[0] * 65536))
    elif k == 'lut_bits':
        b = [7, 17, 0, -1, 32, 1 << 40][c['s'] % 6]
        go(lambda: std.Lut(ic, lut=[0] * (1 << ib), bits=b))
        go(lambda: std.Lut(ic, lutf=[0.0] * (1 << ib), floatout=1, bits=[8, 16, 31][v % 3]))
    elif k == 'lut2_dim':
        o = std.BlankClip(width=[9, 8, 7][v % 3], height=[8, 9, 8][v % 3], format=ic.format.id, length=1)
        if ib > 10:
            return ['na'], False
        go(lambda: std.Lut2(ic, o, lut=[0] * (1 << (2 * ib))))
    elif k == 'lut2_bits':
        b2 = 21 - ib
        if b2 < 8:
            b2 = 16
        o = std.BlankClip(ic, format=F(GRAY, vsl.INT, b2).id)
        go(lambda: std.Lut2(ic, o, lut=[0] * 16))
    elif k == 'planes_range':
        go(lambda: [std.Invert, std.Limiter, std.Binarize, std.Levels][v & 3](clip, planes=[[3], [-1], [0, 3], [2**31]][c['s'] % 4]))
    elif k == 'planes_dup':
        go(lambda: [std.Invert, std.Limiter, std.Binarize, std.Levels][v & 3](clip, planes=[0, 0]))
    elif k == 'fmt32':
        o = std.BlankClip(clip, format=F(f.cf, vsl.INT, 17 + v % 16, f.ssw, f.ssh).id)
        if v & 4:
            go(lambda: [std.Limiter, std.Binarize, std.Levels][v % 3](o))
        else:
            go(lambda: std.Invert(o).get_frame(0))
    elif k == 'lutf_nofloat':
        go(lambda: std.Lut(ic, lutf=[0.0] * (1 << ib)))
    elif k == 'lut_float':
        go(lambda: std.Lut(ic, lut=[0] * (1 << ib), floatout=1))
    elif k == 'lut_planes':
        # a plane left alone cannot keep its samples in an output of another sample size
        y = std.BlankClip(width=8, height=8, format=F([YUV, RGB][v & 1], vsl.INT, 8).id, length=1)
        fl = dict(lutf=[0.0] * 256, floatout=1) if v & 2 else dict(lut=[0] * 256, bits=9 + c['s'])
        go(lambda: std.Lut(y, planes=[v % 3], **fl))
    elif k == 'func_bad':
        ic8 = std.BlankClip(width=8, height=8, format=vs.GRAY8, length=1)
        bad = v & 255
        go(lambda: std.Lut(ic8, function=lambda x: (256 + c['s']) if x == bad else 0))
        go(lambda: std.Lut(ic8, function=lambda x: 1 // (x - bad)))
        go(lambda: std.Lut(ic8, function=lambda x: 'x' if x == bad else 1))
    return [k], True


CHECKS = {
    'point': Sub(s_point(), run_point, quick=24000, thorough=240000, batch=200),
    'lut': Sub(s_lut(), run_lut, quick=1200, thorough=40000, batch=25),
    'refuse': Sub(s_refuse(), run_refuse, quick=1200, thorough=20000, batch=25),
}
