"""C14 Expr: RPN evaluation."""
import numpy as np
import vapoursynth as vs
from hypothesis import strategies as st
from vf.core import Sub, check, Violation
from vf import vsl
from vf.vsl import F, GRAY, RGB, YUV, core

EPS = 2.0 ** -24
LEVELS = ['none', 'sse2', 'avx2', 'avx512']
NAMES = 'xyzabcdefghijklmnopqrstuvw'
BIN = ['+', '-', '*', '/', 'max', 'min', '<', '>', '=', '>=', '<=', 'and', 'or', 'xor']
UN = ['abs', 'not', 'sqrt', 'sin', 'cos', 'exp', 'log']


# ---------------------------------------------------------------- generator
CONST = st.one_of(st.integers(-4, 12).map(str), st.integers(-300, 1200).map(str), st.sampled_from(['0', '1', '-1', '2', '0.5', '-0.5', '0.25', '1e2', '.5', '+3', '255', '128', '65535', '1023', '0.1', '3.', '1e-3', '0x']).filter(lambda s: s != '0x'),
                  st.floats(-100, 100, width=32).map(lambda v: repr(float(np.float32(v)))))


@st.composite
def s_rpn(draw, ninputs, arith=False):
    """Valid RPN tokens; stack sizes tracked so that dup cannot explode."""
    toks, stack = [], []
    target = draw(st.sampled_from([1, 3, 6, 10, 20, 40]))
    deep = draw(st.integers(0, 3)) == 0
    pool = draw(st.lists(st.one_of(st.sampled_from(NAMES[:ninputs]), st.sampled_from(NAMES[:ninputs]), CONST), min_size=1, max_size=draw(st.sampled_from([2, 3, max(3, ninputs)]))))
    powers = draw(st.integers(0, 3)) == 0
    trans = not arith and draw(st.booleans())

    def push():
        toks.append(draw(st.sampled_from(pool)))
        stack.append(1)

    def un(name):
        toks.append(name)
        stack[-1] += 1

    def binop(name):
        toks.append(name)
        b = stack.pop()
        stack[-1] += b + 1

    def const(c):
        toks.append(c)
        stack.append(1)
    push()
    while len(toks) < target or len(stack) > 1:
        closing = len(toks) >= target
        k = draw(st.integers(0, 19))
        if not closing and (k < (11 if deep else 7) or len(stack) < 1):
            push()
        elif not closing and k < 13 and k >= 11 and stack:
            if k == 11:
                n = draw(st.integers(0, min(len(stack) - 1, 6)))
                if stack[-1 - n] + sum(stack) < 250:
                    toks.append('dup' if n == 0 and draw(st.booleans()) else f'dup{n}')
                    stack.append(stack[-1 - n])
            elif len(stack) > 1:
                n = draw(st.integers(0, min(len(stack) - 1, 6)))
                toks.append('swap' if n == 1 and draw(st.booleans()) else f'swap{n}')
                stack[-1], stack[-1 - n] = stack[-1 - n], stack[-1]
        elif k < 16 and not closing or (closing and k == 0):
            if powers and stack[-1] + sum(stack) < 200:
                # products of equal terms and roots of them
                toks.append('dup')
                stack.append(stack[-1])
                binop('*')
                if draw(st.booleans()):
                    un('sqrt') if draw(st.booleans()) else (const(draw(st.sampled_from(['0.5', '1.5', '0.25', '2']))), binop('pow'))
                continue
            o = draw(st.sampled_from(UN if trans else ['abs', 'not', 'sqrt', 'abs']))
            guard = draw(st.integers(0, 3)) > 0
            if o == 'sqrt' and guard:
                un('abs')
            elif o in ('exp',) and guard:
                const('9'); binop('min'); const('-9'); binop('max')
            elif o == 'log' and guard:
                un('abs'); const('1'); binop('+')
            elif o in ('sin', 'cos') and guard:
                const('2000'); binop('min'); const('-2000'); binop('max')
            un(o)
        elif len(stack) >= 3 and k == 16:
            toks.append('?')
            b, a = stack.pop(), stack.pop()
            stack[-1] += a + b + 1
        elif len(stack) >= 2:
            o = draw(st.sampled_from(BIN + ['+', '-', '*'] + (['pow', 'pow'] if trans else [])))
            if o == '/' and draw(st.integers(0, 3)):
                un('abs'); const('1'); binop('+')
            if o == 'pow':
                e = draw(st.sampled_from(['2', '3', '4', '0.5', '1.5', '-1', '-2', '0.25', '1', '0', '2.2', '-0.5', 'stack']))
                if e != 'stack':
                    un('abs'); const('1'); binop('+'); const(e)
                else:
                    const('3'); binop('min'); const('-3'); binop('max')
            binop(o)
    return toks


@st.composite
def s_clipset(draw, maxw=70, maxh=3, nclips=None):
    fmt = draw(vsl.s_format())
    n = nclips or draw(st.sampled_from([1, 1, 2, 2, 3, 4, 6, 26]))
    f = F(*fmt)
    fmts = [fmt]
    for _ in range(n - 1):
        s, b = draw(st.one_of(st.just((fmt[1], fmt[2])), st.tuples(st.just(0), st.sampled_from([8, 9, 10, 12, 16])), st.tuples(st.just(1), st.sampled_from([16, 32]))))
        fmts.append([fmt[0], s, b, fmt[3], fmt[4]])
    return dict(fmts=fmts, w=vsl.sub_dim(draw, f.ssw, maxw, 1), h=vsl.sub_dim(draw, f.ssh, maxh, 1), n=[draw(st.integers(1, 3)) for _ in range(n)],
                contents=[draw(vsl.s_content()) for _ in range(min(n, 4))])


@st.composite
def s_expr(draw):
    c = draw(s_clipset())
    f = F(*c['fmts'][0])
    n = len(c['fmts'])
    c['expr'] = []
    for _ in range(draw(st.integers(1, f.planes))):
        c['expr'].append(draw(st.one_of(s_rpn(n), s_rpn(n, arith=True), s_rpn(n, arith=True), st.just([]))) if draw(st.integers(0, 9)) else [])
    c['out'] = draw(st.one_of(st.none(), st.none(), st.tuples(st.just(0), st.sampled_from([8, 9, 10, 12, 14, 16])), st.tuples(st.just(1), st.sampled_from([16, 32]))))
    c['level'] = draw(st.sampled_from(LEVELS))
    c['ws'] = draw(st.sampled_from([' ', ' ', '  ', '\t', '\n ', ' \r\n']))
    return c


# ---------------------------------------------------------------- interval model
class V:
    """Interval value: exact result in [lo, hi]; m bounds the sum of magnitudes of the additive terms; g: multiples of 2^-g (inf: unknown)."""
    __slots__ = ('lo', 'hi', 'm', 'g')

    def __init__(self, lo, hi, m=None, g=np.inf):
        self.lo, self.hi, self.g = lo, hi, g
        self.m = np.maximum(np.abs(lo), np.abs(hi)) if m is None else m


def widen(lo, hi, m, g, k=4):
    exact = m * 2.0 ** g <= 2.0 ** 24 if np.isfinite(g) and g < 200 else np.zeros(np.shape(m), bool)
    e = np.where(exact & (lo == hi), 0.0, k * EPS * m + 1e-35)
    return V(lo - e, hi + e, m, g)


class Eval:
    def __init__(self, shape):
        self.valid = np.ones(shape, bool)
        self.shape = shape

    def const(self, v):
        v = float(np.float32(v))
        g = next((k for k in range(0, 20) if v * 2.0 ** k == int(v * 2.0 ** k)), np.inf) if np.isfinite(v) else np.inf
        a = np.full(self.shape, v)
        return V(a, a, None, g)

    def bad(self, mask):
        self.valid &= ~mask

    def bool3(self, t, f):
        """t: certainly true, f: certainly false"""
        return V(np.where(t, 1.0, 0.0), np.where(f, 0.0, 1.0), np.ones(self.shape), 0)

    def op(self, o, st):
        if o in ('+', '-'):
            b, a = st.pop(), st.pop()
            lo, hi = (a.lo + b.lo, a.hi + b.hi) if o == '+' else (a.lo - b.hi, a.hi - b.lo)
            return widen(lo, hi, a.m + b.m, max(a.g, b.g))
        if o == '*':
            b, a = st.pop(), st.pop()
            q = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
            return widen(np.minimum.reduce(q), np.maximum.reduce(q), a.m * b.m, a.g + b.g)
        if o == '/':
            b, a = st.pop(), st.pop()
            self.bad((b.lo <= 0) & (b.hi >= 0))
            mag = np.minimum(np.abs(b.lo), np.abs(b.hi))
            # the divisor must not be the result of cancellation that other evaluation orders turn into something else
            self.bad((mag < 1e-8) | (mag < 64 * EPS * b.m))
            bb = np.where(self.valid, b.lo, 1.0), np.where(self.valid, b.hi, 1.0)
            q = [a.lo / bb[0], a.lo / bb[1], a.hi / bb[0], a.hi / bb[1]]
            g = np.inf
            c = float(b.lo.flat[0])
            if (b.lo == c).all() and (b.hi == c).all() and c != 0 and np.frexp(c)[0] in (0.5, -0.5):
                g = a.g + max(0, int(np.log2(abs(c))))
            m = a.m / np.where(self.valid, mag, 1.0) * np.where(self.valid, np.maximum(1, b.m / np.maximum(mag, 1e-300)), 1)
            return widen(np.minimum.reduce(q), np.maximum.reduce(q), m if g == np.inf else a.m / mag, g)
        if o in ('max', 'min'):
            b, a = st.pop(), st.pop()
            fn = np.maximum if o == 'max' else np.minimum
            lo, hi = fn(a.lo, b.lo), fn(a.hi, b.hi)
            return V(lo, hi, None, max(a.g, b.g))
        if o in ('<', '>', '=', '>=', '<='):
            b, a = st.pop(), st.pop()
            if o == '<':
                return self.bool3(a.hi < b.lo, a.lo >= b.hi)
            if o == '>':
                return self.bool3(a.lo > b.hi, a.hi <= b.lo)
            if o == '<=':
                return self.bool3(a.hi <= b.lo, a.lo > b.hi)
            if o == '>=':
                return self.bool3(a.lo >= b.hi, a.hi < b.lo)
            pt = (a.lo == a.hi) & (b.lo == b.hi) & (a.lo == b.lo)
            return self.bool3(pt, (a.hi < b.lo) | (a.lo > b.hi))
        if o in ('and', 'or', 'xor'):
            b, a = st.pop(), st.pop()
            at, af, bt, bf = a.lo > 0, a.hi <= 0, b.lo > 0, b.hi <= 0
            if o == 'and':
                return self.bool3(at & bt, af | bf)
            if o == 'or':
                return self.bool3(at | bt, af & bf)
            return self.bool3((at & bf) | (af & bt), (at & bt) | (af & bf))
        if o == 'not':
            a = st.pop()
            return self.bool3(a.hi <= 0, a.lo > 0)
        if o == '?':
            f, t, c = st.pop(), st.pop(), st.pop()
            ct, cf = c.lo > 0, c.hi <= 0
            lo = np.where(ct, t.lo, np.where(cf, f.lo, np.minimum(t.lo, f.lo)))
            hi = np.where(ct, t.hi, np.where(cf, f.hi, np.maximum(t.hi, f.hi)))
            return V(lo, hi, np.where(ct, t.m, np.where(cf, f.m, np.maximum(t.m, f.m))), max(t.g, f.g))
        if o == 'abs':
            a = st.pop()
            lo = np.where((a.lo <= 0) & (a.hi >= 0), 0, np.minimum(np.abs(a.lo), np.abs(a.hi)))
            return V(lo, np.maximum(np.abs(a.lo), np.abs(a.hi)), None, a.g)
        if o == 'sqrt':
            a = st.pop()
            # another evaluation order may turn an exact zero into a tiny negative number
            self.bad((a.lo < 0) | ((a.lo < 64 * EPS * a.m) & (a.m > 0) & ~((a.lo == a.hi) & (a.m * 2.0 ** min(a.g, 200) <= 2.0 ** 24))))
            lo, hi = np.sqrt(np.maximum(a.lo, 0)), np.sqrt(np.maximum(a.hi, 0))
            return V(lo * (1 - 8 * EPS), hi * (1 + 8 * EPS))
        if o in ('sin', 'cos'):
            a = st.pop()
            self.bad(a.m > 1e5)
            fn = np.sin if o == 'sin' else np.cos
            mid, rad = (a.lo + a.hi) / 2, (a.hi - a.lo) / 2 + 2.5e-6 + 1e-7
            v = fn(mid)
            return V(np.maximum(v - rad, -1.000003), np.minimum(v + rad, 1.000003))
        if o == 'exp':
            a = st.pop()
            self.bad((a.hi > 20) | (a.lo < -40))
            lo, hi = np.exp(np.clip(a.lo, -80, 80)), np.exp(np.clip(a.hi, -80, 80))
            return V(lo * (1 - 6e-6), hi * (1 + 6e-6))
        if o == 'log':
            a = st.pop()
            self.bad((a.lo < 1e-8) | (a.lo < 64 * EPS * a.m))
            lo, hi = np.log(np.maximum(a.lo, 1e-30)), np.log(np.maximum(a.hi, 1e-30))
            return V(lo - 4e-6 - 1e-6 * np.abs(lo), hi + 4e-6 + 1e-6 * np.abs(hi))
        if o == 'pow':
            b, a = st.pop(), st.pop()
            self.bad((a.lo < 1e-6) | (a.lo < 64 * EPS * a.m) | (np.maximum(np.abs(b.lo), np.abs(b.hi)) > 8))
            x0, x1 = np.clip(a.lo, 1e-6, 1e10), np.clip(a.hi, 1e-6, 1e10)
            y0, y1 = np.clip(b.lo, -8, 8), np.clip(b.hi, -8, 8)
            q = [x0 ** y0, x0 ** y1, x1 ** y0, x1 ** y1]
            lo, hi = np.minimum.reduce(q), np.maximum.reduce(q)
            self.bad((lo < 1e-12))
            amp = np.maximum(1, a.m / x0) * (2 + np.maximum(np.abs(y0), np.abs(y1)) * np.maximum(np.abs(np.log(x0)), np.abs(np.log(x1))))
            e = 6e-7 * amp + 2e-6
            return V(lo * (1 - e), hi * (1 + e))
        raise ValueError(o)

    def run(self, toks, inputs):
        stack = []
        for t in toks:
            if len(t) == 1 and t in NAMES:
                stack.append(inputs[NAMES.index(t)])
            elif t.startswith('dup'):
                stack.append(stack[-1 - int(t[3:] or 0)])
            elif t.startswith('swap'):
                n = int(t[4:] or 1)
                stack[-1], stack[-1 - n] = stack[-1 - n], stack[-1]
            elif t in BIN or t in UN or t in ('?', 'pow'):
                v = self.op(t, stack)
                self.bad(~(v.m < 1e8) | ~np.isfinite(v.lo) | ~np.isfinite(v.hi))
                ok = self.valid
                stack.append(V(np.where(ok, v.lo, 1), np.where(ok, v.hi, 1), np.where(ok, v.m, 1), v.g))
            else:
                stack.append(self.const(float(t)))
        assert len(stack) == 1
        return stack[0]


def stored(v, valid, f):
    """[lo, hi] of the stored sample."""
    if f.st == vsl.INT:
        lo, hi = np.rint(np.clip(v.lo, 0, f.peak)), np.rint(np.clip(v.hi, 0, f.peak))
        return np.where(valid, lo, 0), np.where(valid, hi, f.peak)
    t = np.float16 if f.bits == 16 else np.float32
    with np.errstate(all='ignore'):
        lo, hi = v.lo.astype(np.float32), v.hi.astype(np.float32)
        if f.bits == 16:
            # either neighbour of a tie
            lo, hi = np.nextafter(lo, np.float32(-np.inf)).astype(t), np.nextafter(hi, np.float32(np.inf)).astype(t)
        lo, hi = lo.astype(np.float64), hi.astype(np.float64)
    return lo, hi


def clips_of(c):
    out = []
    for i, fmt in enumerate(c['fmts']):
        out.append(vsl.make_clip(fmt, c['w'], c['h'], c['n'][i], c['contents'][i % len(c['contents'])], props=[dict(idx=k + 1, src=i) for k in range(c['n'][i])], salt=i))
    return out


def run_expr(c):
    cl = clips_of(c)
    f0 = cl[0].fmt
    of = F(f0.cf, *c['out'], f0.ssw, f0.ssh) if c['out'] else f0
    core().std.SetMaxCPU(c['level'])
    try:
        kw = {'format': of.id} if c['out'] else {}
        node = core().std.Expr([k.node() for k in cl], [c['ws'].join(e) for e in c['expr']], **kw)
    finally:
        core().std.SetMaxCPU('max')
    what = f'Expr {c["level"]} {c["expr"]} {c["fmts"]} -> {of.t()} {c["w"]}x{c["h"]} n={c["n"]} {c["contents"]}'
    vsl.check_info(node, of, c['w'], c['h'], cl[0].n, cl[0].fps, what)
    useful = False
    for i in range(cl[0].n):
        fr = node.get_frame(i)
        got = vsl.planes(fr)
        check(dict(fr.props) == cl[0].props[i], what, 'props', dict(fr.props))
        for p in range(of.planes):
            e = c['expr'][min(p, len(c['expr']) - 1)]
            if not e:
                if (of.st, of.bits) == (f0.st, f0.bits):
                    vsl.same_planes([got[p]], [cl[0].frames[i][p]], what + f' copied plane {p}')
                else:
                    check(got[p].shape == cl[0].frames[i][p].shape, what, 'shape of undefined plane')
                continue
            with np.errstate(all='ignore'):
                ev = Eval(cl[0].frames[i][p].shape)
                ins = []
                for k in cl:
                    a = k.frames[min(i, k.n - 1)][p].astype(np.float64)
                    ins.append(V(a, a, None, 0 if k.fmt.st == vsl.INT else np.inf))
                v = ev.run(e, ins)
                lo, hi = stored(v, ev.valid, of)
            g = got[p].astype(np.float64)
            with np.errstate(all='ignore'):
                bad = ~((g >= lo) & (g <= hi)) & ev.valid
            if bad.any():
                y, x = np.argwhere(bad)[0]
                raise Violation(f'{what} frame {i} plane {p} at y={y} x={x}: got {got[p][y, x]!r} want in [{lo[y, x]!r}, {hi[y, x]!r}] '
                                f'inputs {[float(k.lo[y, x]) for k in ins]} ({int(bad.sum())} of {bad.size} differ)')
            useful |= bool((ev.valid & (v.hi - v.lo < 1 + 1e-3 * v.m)).any())
        fr.close()
    ops = {t for e in c['expr'] for t in e if t in BIN or t in UN or t in ('?', 'pow')}
    return ['level-' + c['level'], 'out:' + ('int' if of.st == vsl.INT else 'float') + str(of.bytes)] + ['op ' + o for o in sorted(ops)] + (['26 inputs'] if len(cl) == 26 else []), useful


REFUSALS = ['underflow', 'leftover', 'unknown', 'undef', 'dup', 'swap', 'blank', 'moreexpr', 'dims', 'planes', 'ss', 'fmt_in', 'fmt_out', 'cf_out', 'ss_out', 'clips', 'noexpr', 'trail', 'badid', 'var']


@st.composite
def s_refuse(draw):
    return dict(kind=draw(st.sampled_from(REFUSALS)), v=draw(st.integers(0, 1 << 16)), toks=draw(s_rpn(1)), fmt=draw(vsl.s_format()), pos=draw(st.integers(0, 100)))


def run_refuse(c):
    std = core().std
    k, v, toks = c['kind'], c['v'], list(c['toks'])
    f = F(*c['fmt'])
    ss = 1 << f.ssw, 1 << f.ssh
    clip = std.BlankClip(width=8 * ss[0], height=8 * ss[1], format=f.id, length=1)
    what = str(c)
    clips, exprs, kw = [clip], None, {}
    if k == 'underflow':
        o = (BIN + ['pow', '?', '?', 'swap'])[v % (len(BIN) + 4)]
        toks = toks + [o] if o != '?' else toks + ['x', '?']
    elif k == 'leftover':
        toks = ['1'] + toks
    elif k == 'unknown':
        bad = ['foo', '^', '%', 'X', '1.2.3', '12abc', 'x1', 'MAX', '--1', '1e', '==', '&&', 'dupx', 'swap1x', 'dup-1', 'swap-2', 'dup1.5', 'xx', '1,5', '!', 'Dup', 'nan', 'inf', '1e999', 'e', 'dup99999999999']
        bad.remove('e')
        toks.insert(c['pos'] % (len(toks) + 1), bad[v % len(bad)])
    elif k == 'undef':
        toks += [NAMES[1 + v % 25], '+']
    elif k == 'dup':
        toks = ['x', f'dup{1 + v % 40}', '+'] if v & 1 else ['dup' + ['', '0', '1'][v % 3]] + toks
    elif k == 'swap':
        toks = toks + [f'swap{1 + v % 40}']
    elif k == 'blank':
        exprs = [[' ', '\t', ' \n'][v % 3]]
    elif k == 'moreexpr':
        exprs = ['x'] * (f.planes + 1 + v % 3)
    elif k == 'dims':
        clips.append(std.BlankClip(clip, width=(8 + [1, 0, -1][v % 3]) * ss[0], height=(8 + [0, 1, 1][v % 3]) * ss[1]))
    elif k == 'planes':
        o = F(GRAY if f.planes == 3 else YUV, f.st, f.bits)
        clips.append(std.BlankClip(clip, format=o.id))
    elif k == 'ss':
        o = F(YUV, f.st, f.bits, *([(1, 0), (0, 1), (2, 0)][v % 3]))
        if f.planes == 1 or (f.ssw, f.ssh) == (o.ssw, o.ssh):
            return ['na'], False
        clips.append(std.BlankClip(clip, format=o.id))
    elif k == 'fmt_in':
        clips.append(std.BlankClip(clip, format=F(f.cf, vsl.INT, 17 + v % 16, f.ssw, f.ssh).id))
        if v & 16:
            clips.reverse()
    elif k == 'fmt_out':
        kw['format'] = F(f.cf, vsl.INT, 17 + v % 16, f.ssw, f.ssh).id
    elif k == 'cf_out':
        kw['format'] = F({GRAY: YUV, YUV: RGB, RGB: YUV}[f.cf], f.st, f.bits).id
    elif k == 'ss_out':
        if f.cf != YUV:
            return ['na'], False
        kw['format'] = F(YUV, f.st, f.bits, (f.ssw + 1) % 3, f.ssh).id
    elif k == 'badid':
        kw['format'] = [0, -1, 1, 2 ** 31, 2 ** 40, F(f.cf, vsl.FLOAT, 8).id, F(f.cf, vsl.INT, 33).id, F(GRAY, vsl.INT, 8, 1, 1).id, vs.NONE][v % 9]
    elif k == 'clips':
        clips = [clip] * (27 + v % 3)
    elif k == 'noexpr':
        exprs = []
    elif k == 'trail':
        exprs = [' '.join(toks) + [' +', ' 1 2', ' x', ' ?'][v & 3]]
    elif k == 'var':
        o = std.BlankClip(clip, width=16 * ss[0], height=16 * ss[1], varsize=1) if v & 1 else std.BlankClip(clip, varformat=1)
        clips = [o] if v & 2 else [clip, o]
    if exprs is None:
        exprs = [' '.join(toks)]
    # blank string is the documented copy request; white space only is not an expression
    vsl.expect_error(lambda: std.Expr(clips, exprs, **kw), what + ' ' + repr(exprs)[:300])
    return [k], True


CHECKS = {
    'eval': Sub(s_expr(), run_expr, quick=12000, thorough=200000, batch=50),
    'refuse': Sub(s_refuse(), run_refuse, quick=2500, thorough=30000, batch=100),
}
