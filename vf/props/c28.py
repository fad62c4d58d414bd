"""C28 field and rate metadata: SeparateFields/DoubleWeave, AssumeFPS, BlankClip, rational arithmetic on rates and durations."""
from fractions import Fraction
from math import gcd
import numpy as np
import vapoursynth as vs
from hypothesis import strategies as st
from vf.core import Sub, check, Violation
from vf import vsl
from vf.vsl import F, core, GRAY, RGB, YUV

I64 = 2**63 - 1
FB = [None, 0, 1, 2, 1, 2, 3, -1, 2**32 + 1, 2**32 + 2]


def scaled(num, den, a, b):
    """What num/den * a/b may become: exact if it can be represented, otherwise an approximation that saturates."""
    if not den:
        return None
    return Fraction(num, den) * a / b


def check_rational(num, den, want, what):
    check(den != 0 and gcd(num, den) == 1, what, 'not reduced', num, den)
    check(-2**63 <= num < 2**63 and -2**63 <= den < 2**63, what, num, den)
    if abs(want.numerator) <= I64 and want.denominator <= I64:
        check(Fraction(num, den) == want, what, 'got', (num, den), 'want', want)
        return True
    x = Fraction(num, den)
    sat = min(max(abs(want), Fraction(1, I64)), Fraction(I64))
    check((x > 0) == (want > 0) and sat / 4 <= abs(x) <= sat * 4, what, 'got', (num, den), 'want about', float(want))
    return False


# ---------------------------------------------------------------- fields
def s_dur():
    big = st.sampled_from([1, 2, 3, 1001, 24000, 2**31, 2**32 + 1, 2**62, I64, I64 - 1, 0, -1, -1001])
    return st.one_of(st.none(), st.just([1001, 24000]), st.tuples(st.integers(1, 5000), st.integers(1, 90000)).map(list), st.tuples(big, big).map(list))


@st.composite
def s_fields(draw):
    fmt = draw(vsl.s_format())
    f = F(*fmt)
    n = draw(st.integers(1, 5))
    known = draw(st.booleans())
    return dict(fmt=fmt, w=vsl.sub_dim(draw, f.ssw, 50), h=vsl.sub_dim(draw, f.ssh + 1, 24), n=n, content=draw(st.sampled_from([['rand', 1], ['coded', 5], ['coded', 9]])),
                fb=[draw(st.sampled_from([1, 2] if known else FB)) for _ in range(n)], uniform=draw(st.booleans()), tff=draw(st.sampled_from([None, None, 0, 1, 2])),
                tff2=draw(st.sampled_from([None, None, 0, 1])), md=draw(st.sampled_from([None, None, 0, 1, -5])), dur=draw(s_dur()),
                fps=draw(st.sampled_from([[24, 1], [30000, 1001], [0, 0], [0, 1], [I64, 1], [1, I64], [2**62 + 1, 3], [1, 2], [3, 2**62]])),
                setf=draw(st.one_of(st.none(), st.lists(st.sampled_from([None, 0, 1, 0, 1, 2, -1]), min_size=1, max_size=11))), frameset=draw(st.booleans()))


def run_fields(c):
    std = core().std
    fb = [c['fb'][0]] * c['n'] if c['uniform'] else c['fb']
    props = [{k: v for k, v in dict(idx=i, _FieldBased=fb[i], _DurationNum=c['dur'] and c['dur'][0], _DurationDen=c['dur'] and c['dur'][1]).items() if v is not None} for i in range(c['n'])]
    m = vsl.make_clip(c['fmt'], c['w'], c['h'], c['n'], c['content'], fps=c['fps'], props=props)
    node = m.node()
    f = m.fmt
    what = str(c)
    kw = {k: v for k, v in dict(tff=c['tff'], modify_duration=c['md']).items() if v is not None}
    if c['md'] is None and c['frameset']:
        kw['modify_duration'] = True
    sep = std.SeparateFields(node, **kw)
    md = c['md'] is None or c['md'] != 0
    check((sep.num_frames, sep.width, sep.height) == (2 * m.n, m.w, m.h // 2) and vsl.fmt_of(sep.format) == f, what, 'info', sep)
    fps0 = (node.fps_num, node.fps_den)
    if md and fps0[1] and fps0[0]:
        check_rational(sep.fps_num, sep.fps_den, scaled(*fps0, 2, 1), f'{what} fps')
    else:
        check((sep.fps_num, sep.fps_den) == fps0, what, 'fps', sep.fps_num, sep.fps_den)
    # model fields: (frame, props) or None
    tff = None if c['tff'] is None else int(bool(c['tff']))
    model = []
    labels = set()
    for i in range(2 * m.n):
        t = {1: 0, 2: 1}.get(fb[i // 2], tff)
        if t is None:
            model.append(None)
            labels.add('error')
            e = vsl.expect_error(lambda: sep.get_frame(i), f'{what} field {i}')
            continue
        top = (i & 1) ^ t
        fld = [p[1 - top::2] for p in m.frames[i // 2]]
        d = dict(m.props[i // 2], _Field=top)
        d.pop('_FieldBased', None)
        fr = sep.get_frame(i)
        vsl.same_planes(vsl.planes(fr), fld, f'{what} field {i}')
        g = dict(fr.props)
        if c['dur'] and md and c['dur'][1]:
            check_rational(g['_DurationNum'], g['_DurationDen'], scaled(*c['dur'], 1, 2), f'{what} duration {i}')
            d['_DurationNum'], d['_DurationDen'] = g['_DurationNum'], g['_DurationDen']
        check(g == d, what, f'field {i} props', g, d)
        fr.close()
        model.append((fld, d))
        labels.add('top' if top else 'bottom')
    # weave, optionally after changing the field parities
    src = sep
    if c['setf'] is not None:
        L = [c['setf'][i % len(c['setf'])] for i in range(2 * m.n)]
        parts = []
        for i in range(2 * m.n):
            p = sep[i]
            p = std.RemoveFrameProps(p, '_Field') if L[i] is None else std.SetFrameProps(p, _Field=L[i])
            parts.append(p)
        src = std.Splice(parts)
        for i, x in enumerate(model):
            if x:
                x[1].pop('_Field')
                if L[i] is not None:
                    x[1]['_Field'] = L[i]
        labels.add('reparity')
    wv = std.DoubleWeave(src, **({} if c['tff2'] is None else dict(tff=c['tff2'])))
    check((wv.num_frames, wv.width, wv.height, wv.fps_num, wv.fps_den) == (2 * m.n, m.w, m.h, src.fps_num, src.fps_den), what, 'woven info', wv)
    for i in range(2 * m.n):
        a, b = model[i], model[min(i + 1, 2 * m.n - 1)]
        if a is None or b is None:
            vsl.expect_error(lambda: wv.get_frame(i), f'{what} woven {i}')
            continue
        pa, pb = a[1].get('_Field', -1), b[1].get('_Field', -1)
        if (pa, pb) in ((0, 1), (1, 0)):
            top = pa
        elif c['tff2'] is not None:
            top = (i & 1) ^ c['tff2']
        else:
            vsl.expect_error(lambda: wv.get_frame(i), f'{what} woven {i}')
            labels.add('weave error')
            continue
        want = []
        for p in range(f.planes):
            h2 = a[0][p].shape[0] * 2
            o = np.empty((h2, a[0][p].shape[1]), f.dtype)
            o[0::2], o[1::2] = (a[0][p], b[0][p]) if top else (b[0][p], a[0][p])
            want.append(o)
        fr = wv.get_frame(i)
        vsl.same_planes(vsl.planes(fr), want, f'{what} woven {i}')
        d = dict(a[1])
        d.pop('_Field', None)
        d['_FieldBased'] = 1 + top
        if a is b:
            d['_FieldBased'] = fr.props['_FieldBased']   # the last field woven with itself: either order is right
        check(d['_FieldBased'] in (1, 2) and dict(fr.props) == d, what, f'woven {i} props', dict(fr.props), d)
        fr.close()
    # documented inverse
    if c['setf'] is None and None not in model:
        inv = std.SelectEvery(wv, 2, 0)
        check(inv.num_frames == m.n, what, 'inverse length')
        labels.add('inverse')
        for i in range(m.n):
            fr = inv.get_frame(i)
            vsl.same_planes(vsl.planes(fr), m.frames[i], f'{what} inverse {i}')
            t = {1: 0, 2: 1}.get(fb[i], tff)
            check(fr.props['_FieldBased'] == 1 + t, what, 'inverse field order', fr.props['_FieldBased'])
            fr.close()
    return sorted(labels), 'top' in labels


# ---------------------------------------------------------------- durations follow rates
def s_rate():
    return st.one_of(st.sampled_from([[24, 1], [30000, 1001], [25, 1], [60000, 1001], [1, 3], [12, 8]]), st.tuples(st.integers(1, 200000), st.integers(1, 2000)).map(list),
                     st.tuples(*[st.sampled_from([1, 2, 3, 7, 2**31 - 1, 2**32, 2**61 + 1, 2**62, 2**62 - 57, I64, I64 - 1, 10**18])] * 2).map(list))


@st.composite
def s_rates(draw):
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        op = draw(st.sampled_from(['sep', 'select', 'select', 'interleave', 'assume', 'assumesrc', 'trim', 'reverse', 'loop', 'weave', 'splice', 'fieldbased']))
        o = dict(op=op, a=draw(st.integers(0, 1 << 20)))
        if op in ('assume', 'assumesrc'):
            o['fps'] = draw(s_rate())
        if op == 'select':
            o['cycle'] = draw(st.integers(2, 7))
            o['offs'] = draw(st.lists(st.integers(0, o['cycle'] - 1), min_size=1, max_size=8))
        ops.append(o)
    return dict(fps=draw(s_rate()), src=draw(st.sampled_from(['blank', 'assume'])), n=draw(st.sampled_from([1, 2, 5, 12])), ops=ops)


def run_rates(c):
    std = core().std
    a, b = c['fps']
    if c['src'] == 'blank':
        clip = std.BlankClip(format=vs.GRAY8, width=4, height=64, length=c['n'], fpsnum=a, fpsden=b)
    else:
        clip = std.AssumeFPS(std.BlankClip(format=vs.GRAY8, width=4, height=64, length=c['n'], fpsnum=0), fpsnum=a, fpsden=b)
    rate = Fraction(a, b)
    exact = True
    labels = []
    check((clip.fps_num, clip.fps_den) == (rate.numerator, rate.denominator), c, 'fps of the source', clip.fps)
    for k, o in enumerate(c['ops']):
        op, r = o['op'], o['a']
        what = f'op {k} {o} of {c}'
        r0 = rate
        if clip.num_frames > 64 and op in ('sep', 'interleave', 'loop', 'splice'):
            continue
        if op == 'sep':
            if clip.height < 2:
                continue
            clip = std.SeparateFields(clip, tff=r & 1)
            rate *= 2
        elif op == 'weave':
            clip = std.DoubleWeave(clip, tff=r & 1)
        elif op == 'select':
            offs = o['offs']
            if not any(x < clip.num_frames for x in offs):
                continue
            clip = std.SelectEvery(clip, o['cycle'], offs)
            rate = rate * len(offs) / o['cycle']
        elif op == 'interleave':
            k2 = 2 + r % 4
            if k2 == 2 and r & 64:
                clip = std.Interleave([clip] * k2, extend=True)
            else:
                clip = std.Interleave([clip] * k2)
            rate *= k2
        elif op == 'assume':
            clip = std.AssumeFPS(clip, fpsnum=o['fps'][0], fpsden=o['fps'][1])
            rate, exact = Fraction(*o['fps']), True
        elif op == 'assumesrc':
            clip = std.AssumeFPS(clip, src=std.BlankClip(format=vs.RGB24, width=1, height=1, fpsnum=o['fps'][0], fpsden=o['fps'][1], length=1))
            rate, exact = Fraction(*o['fps']), True
        elif op == 'trim':
            clip = std.Trim(clip, first=r % clip.num_frames)
        elif op == 'reverse':
            clip = std.Reverse(clip)
        elif op == 'loop':
            clip = std.Loop(clip, times=1 + r % 3)
        elif op == 'splice':
            clip = clip + clip
        elif op == 'fieldbased':
            clip = std.SetFieldBased(clip, r % 3)
        labels.append(op)
        if exact:
            exact = check_rational(clip.fps_num, clip.fps_den, rate, f'{what} fps')
        else:
            check(clip.fps_num > 0 and clip.fps_den > 0 and gcd(clip.fps_num, clip.fps_den) == 1, what, 'fps', clip.fps_num, clip.fps_den)
        if not exact:
            labels.append('saturated')
        for i in {0, clip.num_frames - 1, r % clip.num_frames}:
            fr = clip.get_frame(i)
            n, d = fr.props['_DurationNum'], fr.props['_DurationDen']
            fr.close()
            check(n > 0 and d > 0 and gcd(n, d) == 1, what, 'duration', n, d)
            if exact:
                check((n, d) == (rate.denominator, rate.numerator), what, f'frame {i} duration', (n, d), 'rate', rate)
    return labels, len(labels) > 0


# ---------------------------------------------------------------- rational arithmetic through durations
def s_i64():
    edge = [1, 2, 3, 5, 6, 2**31 - 1, 2**31, 2**32, 2**32 - 1, 2**61, 2**62, 2**62 - 57, I64, I64 - 1, I64 // 2, I64 // 3, 0]
    return st.tuples(st.one_of(st.sampled_from(edge), st.integers(0, 100), st.integers(0, I64), st.integers(0, 62).map(lambda k: 1 << k)), st.sampled_from([1, 1, 1, -1])).map(lambda t: t[0] * t[1])


@st.composite
def s_rat(draw):
    op = draw(st.sampled_from(['select', 'interleave', 'sep']))
    cyc = draw(st.one_of(st.integers(2, 12), st.sampled_from([97, 2**31 - 1, 2**31 - 2])))
    return dict(op=op, num=draw(s_i64()), den=draw(s_i64()), cycle=cyc, k=draw(st.one_of(st.integers(1, 9), st.sampled_from([64, 127]))), md=draw(st.sampled_from([None, 1, 0])))


def run_rat(c):
    std = core().std
    b = std.BlankClip(format=vs.GRAY8, width=2, height=2, length=2).std.SetFrameProps(_DurationNum=c['num'], _DurationDen=c['den'])
    kw = {} if c['md'] is None else dict(modify_duration=c['md'])
    op = c['op']
    if op == 'select':
        n, mul, div = std.SelectEvery(b, c['cycle'], [0] * c['k'], **kw), c['cycle'], c['k']
    elif op == 'interleave':
        k = max(c['k'], 2)
        n, mul, div = std.Interleave([b] * k, **kw), 1, k
    else:
        n, mul, div = std.SeparateFields(b, tff=1, **kw), 1, 2
    fr = n.get_frame(0)
    g = fr.props['_DurationNum'], fr.props['_DurationDen']
    fr.close()
    if c['md'] == 0 or c['den'] == 0:
        check(g == (c['num'], c['den']), c, 'changed', g)
        return [op, 'unchanged'], False
    if abs(c['num']) > I64 or abs(c['den']) > I64:
        return [op], False
    exact = check_rational(*g, scaled(c['num'], c['den'], mul, div), str(c))
    return [op, 'exact' if exact else 'saturated'], c['num'] != 0


# ---------------------------------------------------------------- AssumeFPS / BlankClip
def s_any():
    return st.one_of(st.integers(-3, 60), st.sampled_from([0, 1, 2**31 - 1, 2**31, 2**32, 2**32 + 4, -2**31, -2**32, I64, -2**63, I64 - 7, 2**62]))


def s_size():
    return st.one_of(st.integers(1, 40), st.sampled_from([2, 4, 8, 16, 0, -1, -2**31, 2**32 + 4, -2**63, 3]))


@st.composite
def s_blank(draw):
    o = {}
    def opt(k, s, p=2):
        if draw(st.integers(0, p)) == 0:
            o[k] = draw(s)
    opt('width', s_size(), 1)
    opt('height', s_size(), 1)
    opt('fpsnum', s_any())
    opt('fpsden', s_any())
    opt('format', st.one_of(vsl.s_format().map(lambda t: F(*t).id), st.sampled_from([0, -1, 1, 2**32 + F(GRAY, 0, 8).id, int(vs.NONE), 0x30100101, F(GRAY, 0, 33).id, F(RGB, 0, 8, 1, 0).id, F(GRAY, 1, 17).id, F(YUV, 0, 8, 5, 0).id])), 1)
    opt('length', s_any())
    opt('keep', st.integers(0, 2))
    opt('varsize', st.integers(0, 2), 5)
    opt('varformat', st.integers(0, 2), 5)
    clip = None
    if draw(st.integers(0, 1)):
        f = draw(vsl.s_format())
        clip = dict(fmt=f, w=vsl.sub_dim(draw, f[3], 30), h=vsl.sub_dim(draw, f[4], 30), n=draw(st.sampled_from([1, 7, 2**31 - 1])), fps=draw(st.sampled_from([[24, 1], [30000, 1001], [0, 0], [I64, 2]])))
    color = draw(st.one_of(st.none(), st.lists(st.one_of(st.integers(0, 255), st.sampled_from([0.0, 0.5, 1.0, -0.5, 127.6, 65504.0])), min_size=1, max_size=4)))
    return dict(o=o, clip=clip, color=color)


def valid_id(i):
    cf, stp, bits, ssw, ssh = (i >> 28) & 15, (i >> 24) & 15, (i >> 16) & 255, (i >> 8) & 255, i & 255
    if i <= 0 or i > 2**31 - 1 or cf not in (GRAY, RGB, YUV) or stp > 1:
        return None
    if stp == 0 and not 8 <= bits <= 32 or stp == 1 and bits not in (16, 32) or ssw > 4 or ssh > 4 or cf != YUV and (ssw or ssh):
        return None
    return F(cf, stp, bits, ssw, ssh)


def run_blank(c):
    std = core().std
    o = dict(c['o'])
    if c['color'] is not None:
        o['color'] = c['color']
    cl = c['clip']
    if cl:
        base = std.BlankClip(format=F(*cl['fmt']).id, width=cl['w'], height=cl['h'], length=cl['n'], fpsnum=cl['fps'][0], fpsden=cl['fps'][1], color=[0] * F(*cl['fmt']).planes)
        o['clip'] = base
        d = dict(w=cl['w'], h=cl['h'], n=cl['n'], num=base.fps_num, den=base.fps_den, f=F(*cl['fmt']))
    else:
        d = dict(w=640, h=480, n=None, num=24, den=1, f=F(RGB, 0, 8))
    i32 = lambda v: max(-2**31, min(2**31 - 1, v))
    ok = True
    for k, q in (('width', 'w'), ('height', 'h'), ('length', 'n')):
        if k in o:
            d[q] = i32(o[k])
    for k, q in (('fpsnum', 'num'), ('fpsden', 'den')):
        if k in o:
            d[q] = o[k]
    if d['num'] < 0 or d['den'] < 0:
        ok = False
    elif d['num'] == 0 or d['den'] == 0:
        d['num'] = d['den'] = 0
    if 'format' in o:
        d['f'] = valid_id(o['format'])
    f = d['f']
    if ok and d['n'] is None:
        d['n'] = min(2**31 - 1, d['num'] * 10 // d['den']) if d['num'] else 300
    if f is None or not ok or d['w'] <= 0 or d['h'] <= 0 or d['w'] % (1 << f.ssw) or d['h'] % (1 << f.ssh) or d['n'] <= 0:
        ok = False
    col = None
    if ok and c['color'] is not None:
        if len(c['color']) != f.planes:
            ok = False
        elif f.st == 0:
            col = [int(v + 0.5) for v in c['color']]
            if any(v < -0.5 for v in c['color']) or any(v > f.peak for v in col):
                ok = False
            if any(-0.5 <= v < 0 for v in c['color']) or any(abs(v) > f.peak for v in c['color']):
                return ['color edge'], False
        else:
            col = [f.dtype(v) for v in c['color']]
    if f is not None and f.st == 0 and f.bits > 16:
        return ['deep'], False
    what = f'BlankClip {c}'
    if not ok:
        vsl.expect_error(lambda: std.BlankClip(**o), what)
        return ['refused'], True
    n = std.BlankClip(**o)
    vsz, vfm = o.get('varsize', 0), o.get('varformat', 0)
    if d['den']:
        x = Fraction(d['num'], d['den'])
        check((n.fps_num, n.fps_den) == (x.numerator, x.denominator), what, 'fps', n.fps_num, n.fps_den)
    else:
        check((n.fps_num, n.fps_den) == (0, 0) or (n.fps_num == 0 and n.fps_den <= 1), what, 'fps', n.fps_num, n.fps_den)
    check(n.num_frames == d['n'], what, 'length', n.num_frames, d['n'])
    check((n.width, n.height) == ((0, 0) if vsz else (d['w'], d['h'])), what, 'size', n.width, n.height)
    if vfm:
        check(n.format is None or int(n.format.color_family) == 0, what, 'format', n.format)
    else:
        check(vsl.fmt_of(n.format) == f, what, 'format', n.format)
    if d['w'] * d['h'] > 1 << 20:
        return ['created'], True
    ids = []
    for i in (0, d['n'] - 1):
        fr = n.get_frame(i)
        check((fr.width, fr.height) == (d['w'], d['h']) and vsl.fmt_of(fr.format) == f, what, 'frame', fr)
        if col is None:
            cc = [0] * f.planes
            if f.cf == YUV and f.st == 0:
                cc[1:] = [1 << (f.bits - 1)] * 2
        else:
            cc = col
        vsl.same_planes(vsl.planes(fr), [np.full(f.dims(p, d['w'], d['h'])[::-1], cc[p], f.dtype) for p in range(f.planes)], f'{what} frame {i}')
        want = {} if not d['num'] else dict(_DurationNum=n.fps_den, _DurationDen=n.fps_num)
        check(dict(fr.props) == want, what, 'props', dict(fr.props))
        fr.close()
    return ['created', 'delivered'], True


@st.composite
def s_assume(draw):
    return dict(num=draw(st.one_of(st.none(), s_any())), den=draw(st.one_of(st.none(), s_any())), src=draw(st.one_of(st.none(), st.sampled_from([[24, 1], [0, 0], [I64, 3], [60000, 1001]]))),
                dur=draw(st.sampled_from([None, [1, 25]])))


def run_assume(c):
    std = core().std
    b = vsl.make_clip(F(GRAY, 0, 8), 3, 2, 3, ['coded', 1], props=[dict(idx=i, **({'_DurationNum': 1, '_DurationDen': 25} if c['dur'] else {})) for i in range(3)])
    kw = {k: v for k, v in dict(fpsnum=c['num'], fpsden=c['den']).items() if v is not None}
    if c['src']:
        kw['src'] = std.BlankClip(format=vs.GRAY8, width=2, height=2, length=1, fpsnum=c['src'][0], fpsden=c['src'][1])
    a, d = c['num'], 1 if c['den'] is None else c['den']
    ok = (c['num'] is None) != (c['src'] is None)
    if ok and c['src']:
        a, d = c['src']
    ok = ok and a >= 1 and d >= 1
    what = f'AssumeFPS {c}'
    if not ok:
        vsl.expect_error(lambda: std.AssumeFPS(b.node(), **kw), what)
        return ['refused'], True
    n = std.AssumeFPS(b.node(), **kw)
    x = Fraction(a, d)
    vsl.check_info(n, b.fmt, 3, 2, 3, (x.numerator, x.denominator), what)
    for i in range(3):
        fr = n.get_frame(i)
        vsl.same_planes(vsl.planes(fr), b.frames[i], f'{what} {i}')
        check(dict(fr.props) == dict(idx=i, _DurationNum=x.denominator, _DurationDen=x.numerator), what, 'props', dict(fr.props))
        fr.close()
    return ['assumed'], True


CHECKS = {
    'fields': Sub(s_fields(), run_fields, quick=3000, thorough=40000, batch=100),
    'rates': Sub(s_rates(), run_rates, quick=3000, thorough=40000, batch=100),
    'rational': Sub(s_rat(), run_rat, quick=6000, thorough=80000, batch=250),
    'blank': Sub(s_blank(), run_blank, quick=5000, thorough=60000, batch=200),
    'assumefps': Sub(s_assume(), run_assume, quick=2000, thorough=20000, batch=200),
}
