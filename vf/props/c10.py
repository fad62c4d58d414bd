"""C10 temporal filters: every output frame is the documented input frame."""
from fractions import Fraction
from math import gcd
import numpy as np
import vapoursynth as vs
from hypothesis import strategies as st
from vf.core import Sub, check, Violation
from vf import vsl
from vf.vsl import F, core, GRAY, RGB

IMAX = 2**31 - 1
FPS = [(24, 1), (30000, 1001), (25, 1), (0, 0), (0, 1)]
OPS = ['Trim', 'Trim', 'Splice', 'Add', 'Loop', 'Mul', 'Reverse', 'Interleave', 'Interleave', 'SelectEvery', 'SelectEvery', 'DuplicateFrames', 'DeleteFrames', 'FreezeFrames', 'Index', 'Slice', 'Slice', 'Slice']


class M:
    """Model of a clip: n frames, get(i) -> (base, index, duration factor)."""
    def __init__(self, n, get, fps, shape):
        self.n, self.get, self.fps, self.shape = n, get, fps, shape


def scale_fps(fps, a, b):
    if not fps[0] or not fps[1]:
        return fps
    x = Fraction(*fps) * a / b
    return (x.numerator, x.denominator)


@st.composite
def s_num(draw, n):
    return draw(st.one_of(st.integers(0, max(n - 1, 0)), st.integers(0, max(n - 1, 0)), st.integers(-2, n + 2), st.sampled_from([0, n - 1, n, -1, IMAX, -IMAX - 1, 2**32, 2**32 + 1, -2**32, 2**63 - 1, -2**63])))


def s_small():
    return st.integers(0, 40)


@st.composite
def s_case(draw):
    nb = draw(st.integers(1, 3))
    bases = []
    same = draw(st.integers(0, 3)) > 0
    fps = draw(st.sampled_from(FPS))
    for _ in range(nb):
        bases.append(dict(n=draw(st.sampled_from([1, 2, 3, 5, 8, 13, 24])), fps=list(fps if same or draw(st.booleans()) else draw(st.sampled_from(FPS))), shape=0 if same else draw(st.integers(0, 2)),
                          dur=draw(st.sampled_from([None, [1, 24], [1001, 30000], [3, 50], [2, 4], [0, 1]]))))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        ops.append(dict(op=draw(st.sampled_from(OPS)), a=draw(st.integers(0, 1 << 40)), r=draw(st.integers(0, 1 << 30))))
    return dict(bases=bases, ops=ops)


SHAPES = [(F(GRAY, 0, 8), 4, 2), (F(GRAY, 0, 16), 4, 2), (F(RGB, 0, 8), 2, 2)]


def num(rng, n, bad=0.12):
    """An index: mostly valid."""
    if rng.random() > bad and n > 0:
        return int(rng.integers(0, n))
    return [0, n - 1, n, n + 1, -1, -2, IMAX, -IMAX - 1, 2**32, 2**32 + 1, -2**32, 2**63 - 1, -2**63][int(rng.integers(0, 13))]


def run_case(c):
    std = core().std
    bases, stack = [], []
    for k, b in enumerate(c['bases']):
        f, w, h = SHAPES[b['shape']]
        props = [dict(idx=i, base=k, **({'_DurationNum': b['dur'][0], '_DurationDen': b['dur'][1]} if b['dur'] else {})) for i in range(b['n'])]
        m = vsl.make_clip(f, w, h, b['n'], ['coded', 17 * k], fps=tuple(b['fps']), props=props, salt=k)
        node = m.node()
        bases.append(m)
        stack.append((node, M(b['n'], (lambda i, k=k: (k, i, Fraction(1))), (node.fps_num, node.fps_den), b['shape'])))
    done = []
    refused = 0
    for o in c['ops']:
        rng = np.random.Generator(np.random.PCG64(o['a']))
        node, m = stack[o['r'] % len(stack)]
        op = o['op']
        n, desc, ok, new = m.n, None, True, None
        pick = lambda: stack[int(rng.integers(0, len(stack)))]
        pairs = None
        if op == 'Trim':
            kw = {}
            first = 0
            if rng.random() < 0.7:
                kw['first'] = first = num(rng, n)
            mode = int(rng.integers(0, 8))
            lo = min(max(first, 0), IMAX)
            if mode in (0, 1, 2, 7):
                kw['last'] = last = (lo + num(rng, max(1, n - lo))) if rng.random() < 0.8 else num(rng, n, 0.5)
            if mode in (3, 4, 5, 7):
                kw['length'] = length = 1 + num(rng, max(1, n - lo), 0.15) if rng.random() < 0.8 else num(rng, n, 0.5)
            ok = 0 <= first < n and mode != 7
            if ok and 'last' in kw:
                ok = first <= last < n
                cnt = last - first + 1
            elif ok and 'length' in kw:
                length = min(length, IMAX)  # arguments saturate to int
                ok = 1 <= length <= n - first
                cnt = length
            else:
                cnt = n - first
            if not -2**63 <= kw.get('last', 0) < 2**63 or not -2**63 <= kw.get('length', 0) < 2**63:
                continue
            fn = lambda: std.Trim(node, **kw)
            desc = ('Trim', kw)
            if ok:
                new = M(cnt, lambda i, f=first, g=m.get: g(i + f), m.fps, m.shape)
        elif op in ('Index', 'Slice'):
            if op == 'Index':
                i0 = num(rng, n)
                if rng.random() < 0.4:
                    i0 -= n
                idx = i0 + n if i0 < 0 else i0
                ok = 0 <= idx < n
                fn = lambda: node[i0]
                desc = ('Index', i0)
                pos = range(idx, idx + 1)
                step = 1
            else:
                def v():
                    r = rng.random()
                    return None if r < 0.3 else num(rng, n + 1, 0.1) - (n if rng.random() < 0.3 else 0)
                a, b = v(), v()
                step = [None, None, 1, 2, 3, -1, -1, -2, -3, 5, 0, 100, -100][int(rng.integers(0, 13))]
                desc = ('Slice', a, b, step)
                fn = lambda step=step: node[a:b:step]
                pos = range(n)[a:b:step] if step != 0 else range(0)
                ok = len(pos) > 0
                step = step or 1
            if ok:
                fps = m.fps
                mul = Fraction(1)
                if abs(step) != 1:
                    fps, mul = scale_fps(fps, 1, abs(step)), Fraction(abs(step))
                new = M(len(pos), lambda i, p=pos, g=m.get, u=mul: (lambda t: (t[0], t[1], t[2] * u))(g(p[i])), fps, m.shape)
        elif op in ('Splice', 'Add', 'Interleave'):
            k = 2 if op == 'Add' else int(rng.integers(1, 5))
            sel = [(node, m)] + [pick() for _ in range(k - 1)]
            ms = [x[1] for x in sel]
            if any(x.shape < 0 for x in ms):
                continue
            kw = {}
            if op != 'Add':
                if rng.random() < 0.4:
                    kw['mismatch'] = int(rng.integers(0, 2))
            diff = any(x.shape != ms[0].shape for x in ms)
            fpsdiff = any(x.fps != ms[0].fps for x in ms)
            ok = not (diff and not kw.get('mismatch'))
            shape = -1 if diff else ms[0].shape
            fps = ms[0].fps if not fpsdiff else (0, 0)
            if op in ('Splice', 'Add'):
                fn = (lambda: sel[0][0] + sel[1][0]) if op == 'Add' else (lambda: std.Splice([x[0] for x in sel], **kw))
                tot = sum(x.n for x in ms)
                ok = ok and tot <= IMAX
                if op == 'Splice' and k == 1:
                    ok = True
                ends = np.cumsum([x.n for x in ms]).tolist()

                def get(i, ms=ms, ends=ends):
                    j = next(q for q, e in enumerate(ends) if i < e)
                    return ms[j].get(i - (ends[j - 1] if j else 0))
                new = M(tot, get, fps, shape)
            else:
                if fpsdiff:
                    continue  # refused unless mismatch, which the docs do not settle
                ext = md = None
                if rng.random() < 0.5:
                    kw['extend'] = ext = int(rng.integers(0, 2))
                if rng.random() < 0.5:
                    kw['modify_duration'] = md = int(rng.integers(0, 2))
                if k == 1:
                    md = 0
                fn = lambda: std.Interleave([x[0] for x in sel], **kw)
                tot = max(x.n for x in ms) * k if ext else max((x.n - 1) * k + j + 1 for j, x in enumerate(ms))
                ok = ok and tot <= IMAX

                def get(i, ms=ms, k=k, u=Fraction(1) if md == 0 else Fraction(1, k)):
                    x = ms[i % k]
                    t = x.get(min(i // k, x.n - 1))
                    return t[0], t[1], t[2] * u
                new = M(tot, get, fps if md == 0 else scale_fps(fps, k, 1), shape)
            desc = (op, len(sel), kw)
        elif op in ('Loop', 'Mul'):
            t = num(rng, 5, 0.15) if rng.random() < 0.8 else [IMAX // n, IMAX // n + 1, 0, 1][int(rng.integers(0, 4))]
            if op == 'Mul' and t == 0:
                continue
            desc = (op, t)
            fn = (lambda: node * t) if op == 'Mul' else (lambda: std.Loop(node, times=t) if t or rng.random() < 0.5 else std.Loop(node))
            tt = min(t, IMAX)
            ok = t >= 0 and n * tt <= IMAX
            new = M(n * tt if t else IMAX, lambda i, g=m.get, n=n: g(i % n), m.fps, m.shape) if ok else None
            if t == 1:
                new = m
        elif op == 'Reverse':
            fn = lambda: std.Reverse(node)
            desc = (op,)
            new = M(n, lambda i, g=m.get, n=n: g(n - 1 - i), m.fps, m.shape)
        elif op == 'SelectEvery':
            cyc = int(rng.integers(2, 9)) if rng.random() < 0.8 else [1, 0, -1, n, n + 1, 2, IMAX, 2**32 + 2][int(rng.integers(0, 8))]
            off = [num(rng, min(max(cyc, 1), 12), 0.03) for _ in range(int(rng.integers(1, 7)))]
            kw = {}
            md = True
            if rng.random() < 0.4:
                kw['modify_duration'] = md = int(rng.integers(0, 2))
            desc = (op, cyc, off, kw)
            fn = lambda: std.SelectEvery(node, cyc, off, **kw)
            ce = min(cyc, IMAX)
            ok = cyc > 1 and all(0 <= x < ce for x in off)
            if ok:
                full, tail = n // ce, [x for x in off if x < n % ce]
                tot = full * len(off) + len(tail)
                ok = 0 < tot <= IMAX
                u = Fraction(ce, len(off)) if md else Fraction(1)

                def get(i, g=m.get, full=full, tail=tail, off=off, ce=ce, u=u):
                    q, r = divmod(i, len(off))
                    t = g(q * ce + (tail if q == full else off)[r])
                    return t[0], t[1], t[2] * u
                new = M(tot, get, scale_fps(m.fps, len(off), ce) if md else m.fps, m.shape)
        elif op in ('DuplicateFrames', 'DeleteFrames'):
            fr = [num(rng, min(n, 40), 0.03) for _ in range(int(rng.integers(1, 6)))]
            if n > 1000 and rng.random() < 0.5:
                fr[0] = n - 1
            if op == 'DeleteFrames' and rng.random() < 0.8:
                fr = list(dict.fromkeys(fr))
            desc = (op, fr)
            ok = all(0 <= x < n for x in fr)
            if op == 'DuplicateFrames':
                fn = lambda: std.DuplicateFrames(node, fr)
                ok = ok and n + len(fr) <= IMAX
                tot = n + len(fr)
                s = sorted(fr)

                def get(i, s=s, g=m.get):
                    # expand: frame x appears 1 + count(x) times
                    for q in s:
                        if i > q:
                            i -= 1
                        else:
                            break
                    return g(i)
                if n <= 100:
                    lst = [x for x in range(n) for _ in range(1 + fr.count(x))]
                    get = lambda i, lst=lst, g=m.get: g(lst[i])
            else:
                fn = lambda: std.DeleteFrames(node, fr)
                ok = ok and len(set(fr)) == len(fr) and len(fr) < n
                tot = n - len(fr)
                s = sorted(fr)

                def get(i, s=s, g=m.get):
                    for q in s:
                        if i >= q:
                            i += 1
                    return g(i)
            new = M(tot, get, m.fps, m.shape)
        else:
            k = int(rng.integers(0, 4))
            rs = []
            cur = 0
            for _ in range(k):
                a = cur + int(rng.integers(0, 4))
                b = a + int(rng.integers(0, 4))
                rs.append([a, b, num(rng, n, 0.03)])
                cur = b + 1
            if rng.random() < 0.1 and rs:
                rs.append(list(rs[0]))
            rs = [rs[int(i)] for i in rng.permutation(len(rs))]
            rs = [[b, a, r] if rng.random() < 0.2 else [a, b, r] for a, b, r in rs]
            desc = ('FreezeFrames', rs)
            lens = [len(rs)] * 3
            if rng.random() < 0.05:
                lens[int(rng.integers(0, 3))] += 1
            ext = lambda q, ln: [r[q] for r in rs] + [0] * (ln - len(rs))
            fn = lambda: std.FreezeFrames(node, ext(0, lens[0]), ext(1, lens[1]), ext(2, lens[2]))
            norm = sorted([min(a, b), max(a, b), r] for a, b, r in rs)
            ok = len(set(lens)) == 1 and all(0 <= a and b < n and 0 <= r < n for a, b, r in norm) and all(norm[i][1] < norm[i + 1][0] for i in range(len(norm) - 1))

            def get(i, norm=norm, g=m.get):
                for a, b, r in norm:
                    if a <= i <= b:
                        return g(r)
                return g(i)
            new = M(n, get, m.fps, m.shape)
        what = f'{desc} after {done} of {c}'
        if not ok:
            try:
                fn()
            except (vs.Error, IndexError, ValueError, OverflowError) as e:
                check(str(e), what, 'empty message')
                refused += 1
                done.append(['refused', desc])
                continue
            raise Violation(f'{what}: accepted, expected an error')
        out = fn()
        vsl.check_info(out, None, out.width, out.height, new.n, None, what)
        check((out.fps_num, out.fps_den) == new.fps or (0 in new.fps and not out.fps_num), what, 'fps', out.fps_num, out.fps_den, 'want', new.fps)
        if new.shape >= 0:
            f, w, h = SHAPES[new.shape]
            vsl.check_info(out, f, w, h, new.n, None, what)
        else:
            check(out.format is None or out.format.color_family == vs.UNDEFINED or (out.width, out.height) == (0, 0), what, 'mixed clip is not variable')
        stack.append((out, new))
        done.append(desc)
        probe = range(new.n) if new.n <= 40 else sorted({0, 1, new.n - 1, new.n - 2, *[int(x) for x in rng.integers(0, new.n, 10)]})
        if new.n > 40 and op != 'Loop':
            probe = sorted(set(probe) | set(range(8)))
        for i in probe:
            k, j, u = new.get(i)
            fr = out.get_frame(i)
            vsl.same_planes(vsl.planes(fr), bases[k].frames[j], f'{what} frame {i} (base {k} frame {j})')
            d = dict(fr.props)
            want = dict(bases[k].props[j])
            if '_DurationNum' in want:
                a, b = d.get('_DurationNum'), d.get('_DurationDen')
                x = Fraction(want['_DurationNum'], want['_DurationDen']) * u
                check(b and Fraction(a, b) == x, what, 'frame', i, 'duration', a, b, 'want', x)
                check(u == 1 or gcd(a, b) == 1, what, 'frame', i, 'duration not reduced', a, b)
                for q in ('_DurationNum', '_DurationDen'):
                    want.pop(q), d.pop(q)
            check(d == want, what, 'frame', i, 'props', d, want)
            fr.close()
        for i in (new.n, -1):
            if i <= IMAX:
                try:
                    out.get_frame(i)
                except (vs.Error, ValueError):
                    continue
                raise Violation(f'{what}: frame {i} of {new.n} delivered')
    return [d[0] for d in done], len(done) > 0


CHECKS = {'chain': Sub(s_case(), run_case, quick=12000, thorough=200000, batch=100)}
