"""Helpers around the built vapoursynth package: clips from arrays and back, generators for formats/sizes/content."""
import os
import numpy as np
import vapoursynth as vs
from hypothesis import strategies as st
from vf.core import Violation, check

_core = None
THREADS = 2


def core():
    global _core
    if _core is None:
        _core = vs.core.core
        _core.num_threads = THREADS
        _core.std.LoadPlugin(os.path.join(os.environ['VF_OUT'], 'libvftest.so'))
    return _core


GRAY, RGB, YUV = int(vs.GRAY), int(vs.RGB), int(vs.YUV)
INT, FLOAT = 0, 1


class F:
    """Video format."""
    __slots__ = ('cf', 'st', 'bits', 'ssw', 'ssh')

    def __init__(self, cf, st_, bits, ssw=0, ssh=0):
        self.cf, self.st, self.bits, self.ssw, self.ssh = cf, st_, bits, ssw, ssh

    def t(self):
        return [self.cf, self.st, self.bits, self.ssw, self.ssh]

    def __eq__(self, o):
        return self.t() == o.t()

    @property
    def id(self):
        return (self.cf << 28) | (self.st << 24) | (self.bits << 16) | (self.ssw << 8) | self.ssh

    @property
    def planes(self):
        return 1 if self.cf == GRAY else 3

    @property
    def bytes(self):
        return 1 if self.bits <= 8 else 2 if self.bits <= 16 else 4

    @property
    def dtype(self):
        if self.st == FLOAT:
            return np.float16 if self.bits == 16 else np.float32
        return {1: np.uint8, 2: np.uint16, 4: np.uint32}[self.bytes]

    @property
    def peak(self):
        return (1 << self.bits) - 1

    def uv(self, p):
        return self.cf == YUV and p > 0

    def dims(self, p, w, h):
        return (w >> self.ssw, h >> self.ssh) if p else (w, h)

    def lo(self, p):
        return (-0.5 if self.uv(p) else 0.0) if self.st == FLOAT else 0

    def hi(self, p):
        return (0.5 if self.uv(p) else 1.0) if self.st == FLOAT else self.peak


def fmt_of(f):
    return F(int(f.color_family), int(f.sample_type), f.bits_per_sample, f.subsampling_w, f.subsampling_h)


# ---------------------------------------------------------------- generators
def s_format(ints=(8, 9, 10, 12, 14, 15, 16), floats=(16, 32), cfs=(GRAY, RGB, YUV), maxss=2):
    depth = st.one_of(*([st.sampled_from([(INT, b) for b in ints])] if ints else []), *([st.sampled_from([(FLOAT, b) for b in floats])] if floats else []))
    def mk(t):
        cf, (s, b), ssw, ssh = t
        if cf != YUV:
            ssw = ssh = 0
        return [cf, s, b, ssw, ssh]
    return st.tuples(st.sampled_from(cfs), depth, st.integers(0, maxss), st.integers(0, maxss)).map(mk)


def s_dim(maxv=70, minv=1):
    edge = [v for v in (1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 95, 96, 97, 127, 128, 129, 159, 160, 161, 255, 256, 257) if minv <= v <= maxv]
    return st.one_of(st.integers(minv, min(maxv, minv + 12)), st.sampled_from(edge or [minv]), st.integers(minv, maxv))


def s_content(wild=False):
    kinds = ['rand', 'const', 'grad', 'ext', 'narrow', 'coded'] + (['wild'] if wild else [])
    return st.tuples(st.sampled_from(kinds), st.integers(0, 1 << 20)).map(list)


def make_plane(f, p, w, h, content, salt=0):
    kind, seed = content
    rng = np.random.Generator(np.random.PCG64([seed, p, salt]))
    dt = f.dtype
    n = w * h
    if f.st == INT:
        peak = f.peak
        if kind == 'rand':
            a = rng.integers(0, peak, n, dtype=np.uint64, endpoint=True)
        elif kind == 'const':
            a = np.full(n, [0, peak, peak // 2, (peak + 1) // 2, 1, peak - 1][seed % 6] if seed % 13 < 6 else int(rng.integers(0, peak, endpoint=True)), dtype=np.uint64)
        elif kind == 'grad':
            x = np.arange(w)[None, :] * (1 + seed % 7) + np.arange(h)[:, None] * (1 + seed % 5) + seed
            a = (x.reshape(-1) % (peak + 1)).astype(np.uint64)
        elif kind == 'ext':
            a = np.array([0, peak, peak // 2, 1, peak - 1, (peak + 1) // 2], dtype=np.uint64)[rng.integers(0, 6, n)]
        elif kind == 'narrow':
            b = int(rng.integers(0, max(1, peak - 8)))
            a = rng.integers(b, min(peak, b + 8), n, dtype=np.uint64, endpoint=True)
        else:
            a = (np.arange(n, dtype=np.uint64) * 7 + seed + p * 31) % (peak + 1)
        return a.astype(dt).reshape(h, w)
    lo, hi = f.lo(p), f.hi(p)
    if kind == 'rand':
        a = rng.random(n) * (hi - lo) + lo
    elif kind == 'const':
        a = np.full(n, [lo, hi, (lo + hi) / 2][seed % 3] if seed % 7 < 3 else rng.random() * (hi - lo) + lo)
    elif kind == 'grad':
        a = ((np.arange(w)[None, :] + np.arange(h)[:, None] * 2 + seed) % 97 / 96.0 * (hi - lo) + lo).reshape(-1)
    elif kind == 'ext':
        a = np.array([lo, hi, (lo + hi) / 2])[rng.integers(0, 3, n)]
    elif kind == 'narrow':
        a = rng.random(n) * 0.01 + (lo + hi) / 2
    elif kind == 'wild':
        a = rng.standard_normal(n) * 3
    else:
        a = (np.arange(n) * 7 + seed) % 1021 / 1020.0 * (hi - lo) + lo
    return a.astype(dt).reshape(h, w)


class Clip:
    """Model clip: fmt, w, h, frames[n][plane] arrays, props[n], fps."""
    def __init__(self, fmt, w, h, frames, fps=(24, 1), props=None):
        self.fmt, self.w, self.h, self.frames, self.fps = fmt, w, h, frames, fps
        self.props = props if props is not None else [{} for _ in frames]

    @property
    def n(self):
        return len(self.frames)

    def node(self):
        kw = {}
        keys = {k for d in self.props for k in d}
        for k in keys:
            vals = [d.get(k) for d in self.props]
            if all(v is None or isinstance(v, int) for v in vals):
                kw['p_' + k] = [-(1 << 63) if v is None else v for v in vals]
            else:
                kw['p_' + k] = vals
        data = b''.join(np.ascontiguousarray(pl).tobytes() for fr in self.frames for pl in fr)
        return core().vft.Source(format=self.fmt.id, width=self.w, height=self.h, length=self.n, data=data, fpsnum=self.fps[0], fpsden=self.fps[1], **kw)


def make_clip(fmt, w, h, n, content, fps=(24, 1), props=None, salt=0):
    f = fmt if isinstance(fmt, F) else F(*fmt)
    return Clip(f, w, h, [[make_plane(f, p, *f.dims(p, w, h), content, salt * 1000 + i) for p in range(f.planes)] for i in range(n)], fps, props)


def planes(frame):
    return [np.asarray(frame[p]) for p in range(frame.format.num_planes)]


def raw(a):
    """Bit pattern view, so NaN and -0.0 compare exactly."""
    a = np.ascontiguousarray(a)
    return a.view({1: np.uint8, 2: np.uint16, 4: np.uint32}[a.dtype.itemsize])


def same_planes(got, want, what, exact=True, tol=None, skip=None):
    check(len(got) == len(want), what, 'plane count', len(got), len(want))
    for p, (g, w) in enumerate(zip(got, want)):
        if skip and p in skip:
            continue
        check(g.shape == w.shape, what, 'plane', p, 'shape', g.shape, w.shape)
        check(g.dtype == w.dtype, what, 'plane', p, 'dtype', g.dtype, w.dtype)
        if tol is None:
            bad = raw(g) != raw(w)
        else:
            t = tol[p] if isinstance(tol, (list, tuple)) else tol
            with np.errstate(all='ignore'):
                bad = ~(np.abs(g.astype(np.float64) - w.astype(np.float64)) <= t)
        if bad.any():
            y, x = np.argwhere(bad)[0]
            raise Violation(f'{what} plane {p} at y={y} x={x}: got {g[y, x]!r} want {w[y, x]!r} ({int(bad.sum())} of {bad.size} samples differ; size {g.shape[1]}x{g.shape[0]})')


def props_of(frame):
    out = {}
    for k, v in frame.props.items():
        out[k] = v
    return out


def check_info(node, fmt, w, h, n, fps, what):
    check(node.num_frames == n, what, 'num_frames', node.num_frames, 'want', n)
    if fmt is not None:
        check(fmt_of(node.format) == fmt, what, 'format', fmt_of(node.format).t(), 'want', fmt.t())
    check((node.width, node.height) == (w, h), what, 'size', node.width, node.height, 'want', w, h)
    if fps is not None:
        check((node.fps_num, node.fps_den) == tuple(fps), what, 'fps', node.fps_num, node.fps_den, 'want', fps)


def expect_error(fn, what):
    try:
        r = fn()
    except vs.Error as e:
        check(str(e) != '', what, 'empty error message')
        return str(e)
    raise Violation(f'{what}: accepted, expected an error (got {type(r).__name__})')


def round_half_up(x):
    return np.floor(np.asarray(x, dtype=np.float64) + 0.5)


@st.composite
def s_planes(draw, n):
    """A planes= argument (None or a non-empty subset in any order)."""
    if n == 1:
        return draw(st.sampled_from([None, None, [0]]))
    return draw(st.one_of(st.none(), st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)))


def sub_dim(draw, ss, maxv, minv=1):
    return draw(s_dim(max(minv, maxv >> ss), minv)) << ss


@st.composite
def s_clip(draw, fmt=None, maxw=140, maxh=40, minp=1, wild=False, maxn=2, fmts=None):
    """fmt, w, h, n, content; every plane has at least minp samples each way."""
    fmt = draw(fmts if fmts is not None else s_format())
    f = F(*fmt)
    return dict(fmt=fmt, w=sub_dim(draw, f.ssw, maxw, minp), h=sub_dim(draw, f.ssh, maxh, minp), n=draw(st.integers(1, maxn)), content=draw(s_content(wild)))


def clip_of(c, salt=0, props=True):
    return make_clip(c['fmt'], c['w'], c['h'], c['n'], c['content'], props=[dict(idx=i + 1) for i in range(c['n'])] if props else None, salt=salt)


def procs(planes_arg, f):
    return set(range(f.planes)) if planes_arg is None else set(planes_arg)


def compare(node, m, model, pl, what, fmt=None, tol=None, frames=None):
    """Every frame of node equals model(n, plane) on processed planes and m's samples elsewhere.
    model returns an array, or (lo, hi) bounds arrays."""
    fmt = fmt or m.fmt
    check_info(node, fmt, m.w, m.h, m.n, m.fps, what)
    for i in frames if frames is not None else range(m.n):
        fr = node.get_frame(i)
        try:
            check(dict(fr.props) == m.props[i], what, 'props', dict(fr.props), m.props[i])
            got = planes(fr)
            for p in range(fmt.planes):
                g = got[p]
                if p not in pl:
                    same_planes([g], [m.frames[i][p]], f'{what} frame {i} unprocessed plane {p}')
                    continue
                want = model(i, p)
                if isinstance(want, tuple):
                    within(g, want[0], want[1], f'{what} frame {i} plane {p}')
                else:
                    same_planes([g], [want], f'{what} frame {i} plane {p}', tol=tol)
        finally:
            fr.close()


def within(g, lo, hi, what):
    g64 = g.astype(np.float64)
    check(g.shape == lo.shape, what, 'shape', g.shape, lo.shape)
    with np.errstate(all='ignore'):
        bad = ~((g64 >= lo) & (g64 <= hi))
    if bad.any():
        y, x = np.argwhere(bad)[0]
        raise Violation(f'{what} at y={y} x={x}: got {g[y, x]!r} want in [{lo[y, x]!r}, {hi[y, x]!r}] ({int(bad.sum())} of {bad.size} differ; size {g.shape[1]}x{g.shape[0]})')


def rounded_bounds(x, f, eps=1e-5, slack=0.0):
    """Bounds of what x may be stored as in format f: nearest integer (either one within eps of a tie), clamped;
    or a float within relative/absolute eps."""
    x = np.asarray(x, dtype=np.float64)
    if f.st == INT:
        e = eps * np.maximum(1.0, np.abs(x)) + slack
        lo = np.ceil(x - 0.5 - e)
        hi = np.floor(x + 0.5 + e)
        return np.clip(lo, 0, f.peak), np.clip(hi, 0, f.peak)
    rel = (2.0 ** -10 if f.bits == 16 else 0) + eps
    e = rel * np.abs(x) + (1e-7 if f.bits == 16 else 0) + slack + 1e-30
    lo, hi = x - e, x + e
    if f.bits == 16:
        hi = np.where(hi >= 65504, np.inf, hi)
        lo = np.where(lo <= -65504, -np.inf, lo)
    return lo, hi
