"""C13 neighbourhood filters."""
import numpy as np
import vapoursynth as vs
from hypothesis import strategies as st
from vf.core import Sub, check, Violation
from vf import vsl
from vf.vsl import F, GRAY, RGB, YUV, core

OFFS = [(-1, -1), (-1, 0), (-1, 1), (0, -1), (0, 1), (1, -1), (1, 0), (1, 1)]


def mirror(i, n):
    """Half-sample mirroring (-1 -> 0), one reflection, then clamped."""
    i = np.where(i < 0, -i - 1, i)
    i = np.where(i >= n, 2 * n - 1 - i, i)
    return np.clip(i, 0, n - 1)


def shifted(a, dy, dx):
    h, w = a.shape
    return a[np.ix_(mirror(np.arange(h) + dy, h), mirror(np.arange(w) + dx, w))]


# ---------------------------------------------------------------- generators
@st.composite
def s_3x3(draw):
    c = draw(vsl.s_clip(maxw=200, maxh=24, minp=4, wild=True))
    f = F(*c['fmt'])
    c['op'] = draw(st.sampled_from(['Minimum', 'Maximum', 'Minimum', 'Maximum', 'Median', 'Deflate', 'Inflate', 'Prewitt', 'Sobel']))
    c['planes'] = draw(vsl.s_planes(f.planes))
    c['th'] = draw(st.one_of(st.none(), st.none(), st.integers(0, f.peak) if f.st == vsl.INT else st.floats(0, 1, width=32), st.sampled_from([0, 1, 2])))
    if f.st == vsl.INT and c['th'] is not None and draw(st.integers(0, 5)) == 0:
        c['th'] = min(f.peak, c['th'] + draw(st.sampled_from([0.25, 0.75])))
    c['coord'] = draw(st.one_of(st.none(), st.lists(st.sampled_from([0, 1, 1, 5, -1]), min_size=8, max_size=8)))
    c['scale'] = draw(st.one_of(st.none(), st.sampled_from([0, 1, 0.5, 2, 0.01, 100]), st.floats(0, 4, width=32)))
    return c


@st.composite
def s_conv(draw):
    mode = draw(st.sampled_from(['s', 's', 's', 'h', 'v', 'h', 'v', 'hv', 'vh']))
    if mode == 's':
        n = draw(st.sampled_from([9, 9, 9, 25, 25, 49, 81, 121]))
        minp = 4
    else:
        n = draw(st.integers(1, 12)) * 2 + 1
        minp = max(4, n // 2 + 1)
    c = draw(vsl.s_clip(maxw=draw(st.sampled_from([minp + 2, 40, 200])), maxh=max(minp + 4, 20), minp=minp, wild=True))
    f = F(*c['fmt'])
    big = draw(st.sampled_from([3, 127, 128, 300, 1023]))
    co = st.integers(-big, big) if draw(st.booleans()) else st.integers(0, big)
    m = draw(st.one_of(st.lists(co, min_size=n, max_size=n), st.just([1] * n), st.lists(st.sampled_from([big, -big, 0]), min_size=n, max_size=n), st.just([0] * (n // 2) + [1] + [0] * (n // 2)),
                       st.integers(0, n - 1).map(lambda i: [0] * i + [1] + [0] * (n - 1 - i)), st.just([big] * n)))
    frac = draw(st.sampled_from([1, 1, 64, 0.5]))
    if f.st == vsl.FLOAT:
        m = [v / frac / draw(st.just(1)) for v in m]
    elif frac == 64:
        m = [v + 0.25 if v > 0 else v - 0.25 if v < 0 else 0.3 for v in m]
    c.update(mode=mode, matrix=m, planes=draw(vsl.s_planes(f.planes)))
    s = abs(sum(m)) or 1
    c['div'] = draw(st.one_of(st.none(), st.none(), st.just(0), st.sampled_from([1, -1, 3, 16, float(s), -float(s), 1000.5, float(sum(abs(x) for x in m) or 1)])))
    c['bias'] = draw(st.one_of(st.none(), st.none(), st.sampled_from([1, -1, 0.5, 10.25]), st.floats(-1, 1, width=32) if f.st == vsl.FLOAT else st.integers(-f.peak, f.peak)))
    c['sat'] = draw(st.sampled_from([None, None, 1, 0, 0]))
    return c


@st.composite
def s_box(draw):
    c = draw(vsl.s_clip(maxw=draw(st.sampled_from([12, 60, 140])), maxh=draw(st.sampled_from([12, 40])), minp=1, wild=False))
    f = F(*c['fmt'])
    c['w'], c['h'] = max(c['w'], 4 << 0), max(c['h'], 4)
    c['w'], c['h'] = (c['w'] + (1 << f.ssw) - 1) >> f.ssw << f.ssw, (c['h'] + (1 << f.ssh) - 1) >> f.ssh << f.ssh
    r = st.one_of(st.none(), st.sampled_from([0, 1, 2, 3]), st.integers(0, 12), st.sampled_from([30, 100, 5000, 30000]))
    p = st.one_of(st.none(), st.sampled_from([1, 2, 3, 0]), st.integers(1, 6))
    c.update(hr=draw(r), vr=draw(r), hp=draw(p), vp=draw(p), planes=draw(vsl.s_planes(f.planes)))
    one = lambda v: 1 if v is None else v
    if (one(c['hr']) == 0 or one(c['hp']) == 0) and (one(c['vr']) == 0 or one(c['vp']) == 0):
        c['hr'] = c['hp'] = 1
    return c


REFUSALS = ['matrix_len', 'matrix_len1d', 'even', 'mode', 'coef', 'nonfinite', 'small', 'radius_w', 'radius_h', 'th_big', 'th_neg', 'th_nan', 'coord_len', 'scale', 'fmt32', 'planes', 'dup',
            'box_neg', 'box_big', 'box_none', 'box_small', 'bias', 'nomatrix']


@st.composite
def s_refuse(draw):
    return dict(kind=draw(st.sampled_from(REFUSALS)), fmt=draw(vsl.s_format()), v=draw(st.integers(0, 1 << 16)), op=draw(st.sampled_from(['Minimum', 'Maximum', 'Median', 'Deflate', 'Inflate', 'Prewitt', 'Sobel', 'Convolution'])))


# ---------------------------------------------------------------- models
def f64(a):
    return a.astype(np.float64)


def model_3x3(c, f, a):
    op = c['op']
    isint = f.st == vsl.INT
    x = a.astype(np.int64) if isint else f64(a)
    nb = [shifted(x, dy, dx) for dy, dx in OFFS]
    th = c['th']
    if isint and th is not None:
        th = int(np.floor(th + 0.5))
    elif th is not None:
        th = float(np.float32(th))

    def fin(v, exact):
        if isint:
            return v.astype(f.dtype)
        if exact:
            return v.astype(f.dtype)
        return vsl.rounded_bounds(v, f, 1e-6, 1e-6 * max(0.1, float(np.abs(x).max())))
    if op in ('Minimum', 'Maximum'):
        r = x
        for k, v in enumerate(nb):
            if c['coord'] is None or c['coord'][k]:
                r = np.minimum(r, v) if op == 'Minimum' else np.maximum(r, v)
        if th is not None:
            r = np.maximum(r, x - th) if op == 'Minimum' else np.minimum(r, x + th)
        return fin(r, th is None)
    if op == 'Median':
        return fin(np.sort(np.stack(nb + [x]), axis=0)[4], True)
    if op in ('Deflate', 'Inflate'):
        s = sum(nb)
        avg = (s + 4) // 8 if isint else s / 8
        r = np.minimum(avg, x) if op == 'Deflate' else np.maximum(avg, x)
        if th is not None:
            r = np.maximum(r, x - th) if op == 'Deflate' else np.minimum(r, x + th)
        return fin(r, False)
    m = 2 if op == 'Sobel' else 1
    (nw, n, ne, w, e, sw, s, se) = [f64(v) for v in nb]
    gx = ne + m * e + se - nw - m * w - sw
    gy = sw + m * s + se - nw - m * n - ne
    g = np.sqrt(gx * gx + gy * gy) * (1.0 if c['scale'] is None else float(np.float32(c['scale'])))
    err = 0 if isint else 4e-6 * max(1.0, float(np.abs(x).max())) * (1.0 if c['scale'] is None else c['scale'])
    return vsl.rounded_bounds(g, f, 2e-6, err)


def run_3x3(c):
    f = F(*c['fmt'])
    m = vsl.clip_of(c)
    kw = {} if c['planes'] is None else dict(planes=c['planes'])
    op = c['op']
    if op in ('Minimum', 'Maximum', 'Deflate', 'Inflate') and c['th'] is not None:
        kw['threshold'] = c['th']
    if op in ('Minimum', 'Maximum') and c['coord'] is not None:
        kw['coordinates'] = c['coord']
    if op in ('Prewitt', 'Sobel') and c['scale'] is not None:
        kw['scale'] = c['scale']
    out = getattr(core().std, op)(m.node(), **kw)
    vsl.compare(out, m, lambda i, p: model_3x3(c, f, m.frames[i][p]), vsl.procs(c['planes'], f), f'{op} {c}')
    return [op, f'{op}:{"int" if f.st == vsl.INT else "float"}{f.bytes}'], True


def conv_stage(x, taps, rdiv, bias, sat, f):
    """taps: list of (dy, dx, coef).  Bounds of the stored samples, for exact input x."""
    x = f64(x)
    s = np.zeros(x.shape)
    mag = np.zeros(x.shape)
    for dy, dx, co in taps:
        if co:
            v = shifted(x, dy, dx) * co
            s += v
            mag += np.abs(v)
    y = s * rdiv + bias
    ulp = 2.0 ** -22
    if f.st == vsl.INT:
        e = (np.abs(s * rdiv) + abs(bias)) * ulp + 1e-9
    else:
        e = mag * abs(rdiv) * (len(taps) + 2) * 2.0 ** -24 + (np.abs(s * rdiv) + abs(bias)) * ulp + 1e-30
    lo, hi = y - e, y + e
    if not sat:
        cross = (lo < 0) & (hi > 0)
        lo, hi = np.where(cross, 0, np.minimum(np.abs(lo), np.abs(hi))), np.maximum(np.abs(lo), np.abs(hi))
    a, b = vsl.rounded_bounds(lo, f, 0, 0)[0], vsl.rounded_bounds(hi, f, 0, 0)[1]
    return a, b


def run_conv(c):
    f = F(*c['fmt'])
    isint = f.st == vsl.INT
    m = vsl.clip_of(c)
    kw = {} if c['planes'] is None else dict(planes=c['planes'])
    kw['matrix'] = c['matrix']
    for k, a in (('div', 'divisor'), ('bias', 'bias'), ('sat', 'saturate')):
        if c[k] is not None:
            kw[a] = c[k]
    if c['mode'] != 's' or c['w'] & 1:
        kw['mode'] = c['mode']
    co = [float(np.sign(v) * np.floor(abs(v) + 0.5)) if isint else float(np.float32(v)) for v in c['matrix']]
    div = float(np.float32(c['div'] or 0))
    if div == 0:
        div = sum(co)
        if abs(div) < 1.2e-7:
            div = 1.0
    rdiv = float(np.float32(1) / np.float32(div))
    bias = float(np.float32(c['bias'] or 0))
    sat = c['sat'] is None or bool(c['sat'])
    std = core().std
    node = m.node()
    pl = vsl.procs(c['planes'], f)
    what = f'Convolution {c}'
    n = len(co)
    with np.errstate(all='ignore'):
        if c['mode'] in ('hv', 'vh'):
            out = std.Convolution(node, **kw)
            kw['mode'] = 'v'
            v = std.Convolution(node, **kw)
            taps = [(k - n // 2, 0, co[k]) for k in range(n)]
            vsl.compare(v, m, lambda i, p: conv_stage(m.frames[i][p], taps, rdiv, bias, sat, f), pl, what + ' (v)')
            taps_h = [(0, k - n // 2, co[k]) for k in range(n)]
            mid = []
            for i in range(m.n):
                fr = v.get_frame(i)
                mid.append(vsl.planes(fr))

            def model(i, p):
                lo, hi = conv_stage(mid[i][p], taps_h, rdiv, bias, sat, f)
                if not isint:
                    # the intermediate may be kept or rounded slightly differently
                    x = np.abs(f64(mid[i][p])).max()
                    x = x if np.isfinite(x) else np.inf
                    e = (2.0 ** -10 if f.bits == 16 else 1e-5) * (x * sum(abs(t) for t in co) * abs(rdiv) + 1e-6)
                    lo, hi = lo - e, hi + e
                return lo, hi
            if isint or all(np.isfinite(f64(q)).all() for fr in mid for q in fr):
                vsl.compare(out, m, model, pl, what)
        else:
            if c['mode'] == 's':
                k = int(round(n ** 0.5))
                taps = [(i // k - k // 2, i % k - k // 2, co[i]) for i in range(n)]
            elif c['mode'] == 'h':
                taps = [(0, i - n // 2, co[i]) for i in range(n)]
            else:
                taps = [(i - n // 2, 0, co[i]) for i in range(n)]
            vsl.compare(std.Convolution(node, **kw), m, lambda i, p: conv_stage(m.frames[i][p], taps, rdiv, bias, sat, f), pl, what)
    return ['Conv-' + c['mode'], f'Conv-{c["mode"]}:{"int" if isint else "float"}{f.bytes}', f'Conv{n}'], True


def box1(lo, hi, r, f, odd):
    """One horizontal pass with clamped edges; integer passes alternate between rounding up and down so that repeated passes do not drift."""
    w = lo.shape[1]
    pad = lambda a: np.concatenate([np.repeat(a[:, :1], r + 1, 1), a, np.repeat(a[:, -1:], r, 1)], 1)

    def win(a):
        s = np.cumsum(pad(a), axis=1)
        return s[:, 2 * r + 1:] - s[:, :w]
    d = 2 * r + 1
    if f.st == vsl.INT:
        v = (win(lo) + (0 if odd else d - 1)) // d
        return v, v
    e = 2.0 ** -10 * 1.01 if f.bits == 16 else 1e-6
    mag = max(np.abs(lo).max(), np.abs(hi).max())
    err = 1.2e-7 * mag * (w + r + 4) + 1e-7 * (f.bits == 16)
    l, h = win(lo) / d, win(hi) / d
    return l - e * np.abs(l) - err, h + e * np.abs(h) + err


def run_box(c):
    f = F(*c['fmt'])
    m = vsl.clip_of(c)
    kw = {}
    for k, a in (('hr', 'hradius'), ('vr', 'vradius'), ('hp', 'hpasses'), ('vp', 'vpasses'), ('planes', 'planes')):
        if c[k] is not None:
            kw[a] = c[k]
    one = lambda v: 1 if v is None else v

    def model(i, p):
        a = m.frames[i][p]
        lo = hi = a.astype(np.int64) if f.st == vsl.INT else f64(a)
        for r, ps, tr in ((one(c['hr']), one(c['hp']), False), (one(c['vr']), one(c['vp']), True)):
            if r == 0:
                continue
            if tr:
                lo, hi = lo.T, hi.T
            for k in range(ps):
                lo, hi = box1(lo, hi, r, f, k & 1)
            if tr:
                lo, hi = lo.T, hi.T
        return lo, hi
    out = core().std.BoxBlur(m.node(), **kw)
    vsl.compare(out, m, model, vsl.procs(c['planes'], f), f'BoxBlur {c}')
    return ['BoxBlur', f'Box:{"int" if f.st == vsl.INT else "float"}{f.bytes}', 'box-wide' if one(c['hr']) >= c['w'] else 'box-normal'], True


def run_refuse(c):
    f = F(*c['fmt'])
    std = core().std
    k, v = c['kind'], c['v']
    ss = (1 << f.ssw, 1 << f.ssh)
    clip = std.BlankClip(width=16 * ss[0], height=16 * ss[1], format=f.id, length=1)
    what = str(c)
    op = getattr(std, c['op'])
    base = dict(matrix=[1] * 9) if c['op'] == 'Convolution' else {}

    def go(fn):
        try:
            n = fn()
            n.get_frame(0)
        except vs.Error as e:
            check(str(e) != '', what, 'empty message')
            return
        raise Violation('accepted: ' + what)
    if k == 'matrix_len':
        go(lambda: std.Convolution(clip, matrix=[1] * [1, 3, 8, 10, 24, 26, 27, 48, 50, 80, 82, 120, 122, 169, 225][v % 15]))
    elif k == 'matrix_len1d':
        go(lambda: std.Convolution(clip, matrix=[1] * [1, 2, 26, 27, 49][v % 5], mode=['h', 'v', 'hv', 'vh'][v & 3]))
    elif k == 'even':
        go(lambda: std.Convolution(clip, matrix=[1] * (2 * (1 + v % 12)), mode=['h', 'v', 'hv', 'vh'][(v >> 4) & 3]))
    elif k == 'mode':
        go(lambda: std.Convolution(clip, matrix=[1] * 9, mode=['', 'x', 'sh', 'hvv', 'S', 'vs', 'hh'][v % 7]))
    elif k == 'coef':
        if f.st != vsl.INT:
            return ['na'], False
        m = [1.0] * 9
        m[v % 9] = [1024, -1024, 1023.6, -1e9, 2.0 ** 31, 2.0 ** 40, 1e300][v % 7]
        go(lambda: std.Convolution(clip, matrix=m))
    elif k == 'nonfinite':
        m = [1.0] * 9
        m[v % 9] = [float('nan'), float('inf'), -float('inf')][v % 3]
        go(lambda: std.Convolution(clip, matrix=m))
    elif k == 'bias':
        go(lambda: std.Convolution(clip, matrix=[1] * 9, **{['bias', 'divisor'][v & 1]: [float('nan'), float('inf'), -float('inf')][v % 3]}))
    elif k == 'nomatrix':
        go(lambda: std.Convolution(clip))
    elif k == 'small':
        s = std.BlankClip(width=[3, 16, 3, 1][v & 3] * ss[0], height=[16, 3, 2, 1][v & 3] * ss[1], format=f.id, length=1)
        go(lambda: op(s, planes=f.planes - 1, **base))
    elif k == 'radius_w' or k == 'radius_h':
        n = 4 + v % 8
        s = std.BlankClip(width=(n if k == 'radius_w' else 30) * ss[0], height=(30 if k == 'radius_w' else n) * ss[1], format=f.id, length=1)
        go(lambda: std.Convolution(s, matrix=[1] * (2 * n + 1), planes=f.planes - 1, mode=['h' if k == 'radius_w' else 'v', 'hv'][v & 1]))
    elif k in ('th_big', 'th_neg', 'th_nan'):
        t = {'th_big': f.peak + 1 + v % 5 if v & 1 else 1e12, 'th_neg': -1 - v, 'th_nan': float('nan')}[k]
        if f.st == vsl.FLOAT and k == 'th_big':
            return ['na'], False
        go(lambda: getattr(std, ['Minimum', 'Maximum', 'Deflate', 'Inflate'][v & 3])(clip, threshold=t))
    elif k == 'coord_len':
        go(lambda: [std.Minimum, std.Maximum][v & 1](clip, coordinates=[1] * [1, 7, 9, 16][v % 4]))
    elif k == 'scale':
        go(lambda: [std.Prewitt, std.Sobel][v & 1](clip, scale=[-1, -0.001, float('nan'), float('inf')][(v >> 1) % 4]))
    elif k == 'fmt32':
        o = std.BlankClip(clip, format=F(f.cf, vsl.INT, 17 + v % 16, f.ssw, f.ssh).id)
        go(lambda: op(o, **base))
        go(lambda: std.BoxBlur(o))
    elif k == 'planes':
        go(lambda: op(clip, planes=[[3], [-1], [0, 3], [2 ** 31]][v % 4], **base))
        go(lambda: std.BoxBlur(clip, planes=[[3], [-1], [0, 3], [2 ** 31]][v % 4]))
    elif k == 'dup':
        go(lambda: op(clip, planes=[0, 0], **base))
        go(lambda: std.BoxBlur(clip, planes=[0, 0]))
    elif k == 'box_neg':
        go(lambda: std.BoxBlur(clip, **{['hradius', 'vradius', 'hpasses', 'vpasses'][v & 3]: [-1, -5, -2 ** 31, -2 ** 40][(v >> 2) & 3]}))
    elif k == 'box_big':
        go(lambda: std.BoxBlur(clip, **{['hradius', 'vradius'][v & 1]: [30001, 2 ** 31, 2 ** 40][v % 3]}))
    elif k == 'box_none':
        go(lambda: std.BoxBlur(clip, **{['hradius', 'hpasses'][v & 1]: 0, ['vradius', 'vpasses'][(v >> 1) & 1]: 0}))
    elif k == 'box_small':
        if f.ssw or f.ssh:
            return ['na'], False
        s = std.BlankClip(width=[3, 16, 1][v % 3], height=[16, 3, 1][v % 3], format=f.id, length=1)
        go(lambda: std.BoxBlur(s))
    return [k], True


CHECKS = {
    'n3x3': Sub(s_3x3(), run_3x3, quick=9000, thorough=120000, batch=100),
    'conv': Sub(s_conv(), run_conv, quick=8000, thorough=120000, batch=100),
    'box': Sub(s_box(), run_box, quick=4000, thorough=60000, batch=50),
    'refuse': Sub(s_refuse(), run_refuse, quick=1500, thorough=20000, batch=50),
}
