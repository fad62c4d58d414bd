"""C18 AudioResample: exact format conversion model, BS.775 mixing model, band-limited signals and metamorphic relations for the rate conversion."""
import math
import numpy as np
import vapoursynth as vs
from hypothesis import strategies as st
from vf.core import Sub, check, Violation
from vf import vsl
from vf.vsl import core
from vf.props.c17 import A, FS, INT, FLOAT, make, raw, signed, check_info, frame_data

R2 = math.sqrt(0.5)
FL, FR, FC, LFE, BL, BR, FLC, FRC, BC, SL, SR, TC, TFL, TFC, TFR, TBL, TBC, TBR = range(18)
GROUND = {TFL: FL, 31: FL, 29: FL, TFR: FR, 32: FR, 30: FR, TFC: FC, TC: FC, TBL: BL, 33: BL, TBR: BR, 34: BR, TBC: BC}


def fetch(node, n, what, order=0):
    """Whole signal, frames requested in some order."""
    ids = list(range(node.num_frames))
    if order & 1:
        ids.reverse()
    if order & 2:
        np.random.Generator(np.random.PCG64(order)).shuffle(ids)
    if order & 4:
        ids += ids[:2]
    got = {}
    for i in ids:
        d = frame_data(node, i, n, what)
        if i in got:
            for c in range(len(d)):
                check(np.array_equal(raw(d[c]), raw(got[i][c])), what, f'frame {i} channel {c} differs when requested again')
        got[i] = d
    return [np.concatenate([got[i][c] for i in range(node.num_frames)]) for c in range(node.num_channels)]


def norm(m, c=None):
    """Samples as exact doubles in [-1, 1)."""
    d = m.data if c is None else [m.data[c]]
    r = [x.astype(np.float64) if m.st == FLOAT else x.astype(np.float64) / 2.0 ** (15 if m.bits == 16 else 31) for x in d]
    return r if c is None else r[0]


class Logs:
    """Collects the clipping warnings of AudioResample."""
    def __enter__(self):
        self.msgs = []
        self.h = core().add_log_handler(lambda t, m: self.msgs.append(m) if m.startswith('AudioResample') else None)
        return self

    def __exit__(self, *a):
        core().remove_log_handler(self.h)


def amount(dither):
    return {'none': 0.0, 'rectangular': 0.5, 'triangular': 1.0}[dither]


def check_quant(got, x, bits, dither, eps, what, errs=None):
    """got: container samples; x: exact signal in units of the destination lsb, known within eps."""
    cont = 16 if bits == 16 else 32
    sh = cont - bits
    g = got.astype(np.int64)
    if sh:
        check(not (g & ((1 << sh) - 1)).any(), what, 'padding bits set')
    g >>= sh
    lo, hi = -float(1 << (bits - 1)), float((1 << (bits - 1)) - 1)
    a = amount(dither)
    e = 0.5 + a + eps + np.abs(x) * 2.0 ** -50
    low = np.clip(np.ceil(x - e), lo, hi)
    high = np.clip(np.floor(x + e), lo, hi)
    gf = g.astype(np.float64)
    bad = ~((gf >= low) & (gf <= high))
    if bad.any():
        i = int(np.argwhere(bad)[0][0])
        raise Violation(f'{what} sample {i}: got {g[i]} want [{low[i]}, {high[i]}] for exact {x[i]!r} ({int(bad.sum())} bad of {len(x)})')
    return gf - x


# ---------------------------------------------------------------- format conversion
BITS = st.one_of(st.sampled_from([16, 17, 24, 31, 32]), st.integers(16, 32))
DFMT = st.one_of(BITS.map(lambda b: [INT, b]), st.just([FLOAT, 32]))
DITHER = st.sampled_from(['none', 'none', 'rectangular', 'triangular', None])
N = st.one_of(st.sampled_from([1, FS - 1, FS, FS + 1, 2 * FS, 2 * FS + 1]), st.integers(1, 400), st.integers(2000, 4 * FS))
CHS = st.one_of(st.sampled_from([[0], [0, 1], [0, 1, 2, 3, 4, 5], [3, 9]]), st.lists(st.integers(0, 62), min_size=1, max_size=3, unique=True))


@st.composite
def s_fmt(draw):
    return dict(src=draw(DFMT), dst=draw(DFMT), how=draw(st.integers(0, 3)), n=draw(N), ch=draw(CHS), kind=draw(st.sampled_from(['rand', 'rand', 'ramp', 'ext', 'tie', 'const'])), seed=draw(st.integers(0, 10**6)),
                dither=draw(DITHER), oerr=draw(st.sampled_from([None, None, 0, 1])), order=draw(st.integers(0, 7)), normalize=draw(st.sampled_from([None, None, 0, 1])))


def content(c, fmt, dst):
    s, bits = fmt
    m = make(fmt, c['ch'], 48000, c['n'], c['kind'] if c['kind'] in ('rand', 'ramp', 'ext') else 'rand', c['seed'])
    if c['kind'] in ('tie', 'const'):
        db = dst[1] if dst[0] == INT else 16
        for k in range(len(m.data)):
            rng = np.random.Generator(np.random.PCG64([c['seed'], k]))
            lim = (1 << (db - 1))
            v = rng.integers(-lim - 2, lim + 2, m.n)
            if c['kind'] == 'const':
                v[:] = v[0] // 2
            fr = rng.choice([0.0, 0.5, 0.25, -0.25, 0.49], m.n) if c['kind'] == 'tie' else rng.choice([0.5, 0.3, 0.1])
            y = (v + fr) / lim
            if s == FLOAT:
                m.data[k] = y.astype(np.float32)
            else:
                sb = 1 << (bits - 1)
                m.data[k] = (np.clip(np.floor(y * sb), -sb, sb - 1).astype(np.int64) << m.shift).astype(m.dtype)
    return m


def run_fmt(c):
    src, dst = c['src'], c['dst']
    m = content(c, src, dst)
    kw = dict(sampletype=dst[0], bits=dst[1])
    if c['how'] == 1 and dst[0] == src[0]:
        del kw['sampletype']
    elif c['how'] == 2 and dst[0] == FLOAT:
        del kw['bits']
    elif c['how'] == 3 and dst[1] == src[1] and not (dst[0] == FLOAT and src[0] == INT):
        del kw['bits']
    if c['dither']:
        kw['dither_type'] = c['dither']
    if c['oerr'] is not None:
        kw['overflow_error'] = c['oerr']
    if c['normalize'] is not None:
        kw['normalize'] = c['normalize']
    what = f'AudioResample {src} -> {dst} {kw}'
    node = m.node()
    with Logs() as logs:
        out = node.std.AudioResample(**kw)
        want = A(dst[0], dst[1], m.ch, m.rate, m.data)
        check_info(out, want, what)
        labels = ['fmt', f"{'f' if src[0] else 'i'}{'f' if dst[0] else 'i'}"]
        if src == dst:
            g = fetch(out, m.n, what, c['order'])
            for k in range(len(g)):
                check(np.array_equal(raw(g[k]), raw(m.data[k])), what, 'no-op changed samples')
            return labels + ['noop'], True
        need = dst[0] == INT and (src[0] == FLOAT or src[1] > dst[1])
        dith = (c['dither'] or 'triangular') if need else 'none'
        xs = norm(m)
        nf = out.num_frames
        sc = 1.0 if dst[0] == FLOAT else float(1 << (dst[1] - 1))
        # frames that certainly / possibly clip
        surely, maybe = set(), set()
        if dst[0] == INT:
            a = amount(dith)
            for i in range(nf):
                for x in xs:
                    y = x[i * FS:(i + 1) * FS] * sc
                    if (np.maximum(y - (sc - 1), -sc - y) > 0.5 + a).any():
                        surely.add(i)
                    if (np.maximum(y - (sc - 1), -sc - y) >= 0.5 - a).any():
                        maybe.add(i)
        ids = list(range(nf))
        if c['order'] & 1:
            ids.reverse()
        if c['order'] & 2:
            np.random.Generator(np.random.PCG64(c['order'])).shuffle(ids)
        got = {}
        for i in ids + (ids[:1] if c['order'] & 4 else []):
            try:
                d = frame_data(out, i, m.n, what)
            except vs.Error as e:
                check(c['oerr'] == 1 and i in maybe, what, f'frame {i}: unexpected error {e}')
                check('clipping' in str(e) and f'{i * FS} to {min(m.n, (i + 1) * FS) - 1}' in str(e), what, f'frame {i}: error text {e}')
                d = None
            else:
                check(not (c['oerr'] == 1 and i in surely), what, f'frame {i} clips but no error was raised')
            if i in got and d is not None:
                for k in range(len(d)):
                    check(np.array_equal(raw(d[k]), raw(got[i][k])), what, f'frame {i} differs when requested again')
            got[i] = d
        warn = len(logs.msgs)
        if c['oerr'] == 1 or not maybe:
            check(warn == 0, what, 'unexpected warnings', logs.msgs)
        else:
            check(warn <= 1 and (warn == 1 or not surely), what, 'clipping warnings', logs.msgs, 'certainly clipping frames', sorted(surely))
            labels.append('clipped')
        full = all(d is not None for d in got.values())
        for k, x in enumerate(xs):
            for i in range(nf):
                if got[i] is None:
                    continue
                y, g = x[i * FS:(i + 1) * FS], got[i][k]
                w = f'{what} channel {k} frame {i}'
                if dst[0] == FLOAT:
                    check(g.dtype == np.float32, w, 'dtype', g.dtype)
                    bad = raw(g) != raw(y.astype(np.float32))
                    if bad.any():
                        j = int(np.argwhere(bad)[0][0])
                        raise Violation(f'{w} sample {j}: got {g[j]!r} want {np.float32(y[j])!r}')
                else:
                    e = check_quant(g, y * sc, dst[1], dith, 0.0, w)
                    if dith != 'none' and c['kind'] == 'rand' and i not in maybe and len(y) >= 2000 and (src[0] == FLOAT and dst[1] <= 20 or src[0] == INT and src[1] - dst[1] >= 3):
                        want_var = {'rectangular': 1 / 6, 'triangular': 1 / 4}[dith]
                        check(abs(e.mean()) < 8 * math.sqrt(want_var / len(e)), w, f'{dith} dither has mean error {e.mean()} lsb')
                        check(abs(e.var() / want_var - 1) < 0.25, w, f'{dith} dither has error variance {e.var()} want {want_var}')
                        labels.append('dither-stats')
        if full and dith != 'none' and c['kind'] == 'const' and nf >= 2 and not maybe:
            for k in range(len(xs)):
                fr = (xs[k][0] * sc) % 1
                n1 = min(len(got[1][k]), FS)
                if 0.1 < fr < 0.9 and n1 >= 200:
                    check(not np.array_equal(got[0][k][:n1], got[1][k][:n1]), what, f'channel {k}: the dither of frame 1 repeats frame 0')
                    labels.append('dither-position')
        # exact and reversible
        if full and dst[0] == FLOAT and src[0] == INT and src[1] <= 24 or (dst[0] == INT and src[0] == INT and dst[1] > src[1]):
            back = out.std.AudioResample(sampletype=src[0], bits=src[1], dither_type='none')
            g = fetch(back, m.n, what, 0)
            for k in range(len(g)):
                check(np.array_equal(raw(g[k]), raw(m.data[k])), what, f'channel {k}: converting back does not restore the samples')
            labels.append('roundtrip')
        if full and need:
            o2 = m.node().std.AudioResample(**{k: v for k, v in kw.items() if k != 'overflow_error'})
            g = fetch(o2, m.n, what, 0)
            for k in range(len(g)):
                for i in range(nf):
                    check(np.array_equal(raw(g[k][i * FS:(i + 1) * FS]), raw(got[i][k])), what, f'channel {k} frame {i}: a second instance gives other samples')
    return labels, True


# ---------------------------------------------------------------- mixing
LAYOUTS = [[FL, FR], [FC], [FL, FR, FC], [FL, FR, FC, LFE], [FL, FR, FC, LFE, BL, BR], [FL, FR, FC, LFE, SL, SR], [FL, FR, FC, LFE, BL, BR, SL, SR], [FL, FR, FC, LFE, BC, SL, SR], [FL, FR, BL, BR], [FL, FR, BC],
           [FL], [FR], [LFE], [FL, FR, SL, SR], [FL, FR, FC, LFE, BL, BR, FLC, FRC], [FL, FR, FC, LFE, SL, SR, TFL, TFR, TBL, TBR], [FC, LFE], [BL, BR], [BC], [SL], [29, 30], [FL, FR, 35]]
LAY = st.one_of(st.sampled_from(LAYOUTS), st.sampled_from(LAYOUTS), st.lists(st.integers(0, 17), min_size=1, max_size=5, unique=True), st.lists(st.integers(0, 40), min_size=1, max_size=4, unique=True))


def matrix(ins, outs, normalize):
    ins, outs = sorted(ins), sorted(outs)
    W = np.zeros((len(outs), len(ins)))
    has = lambda c: c in outs

    for i, c in enumerate(ins):
        def add(*pairs):
            for o, w in pairs:
                W[outs.index(o), i] += w
        if has(c):
            add((c, 1.0))
            continue
        c = GROUND.get(c, c)
        if has(c):
            add((c, 1.0))
        elif c == FC:
            add(*[(o, R2) for o in (FL, FR) if has(o)])
        elif c in (FL, FR):
            add((FC, R2)) if has(FC) else add((FL + FR - c, R2)) if has(FL + FR - c) else None
        elif c in (BL, SL, BR, SR):
            alt, front = {BL: (SL, FL), SL: (BL, FL), BR: (SR, FR), SR: (BR, FR)}[c]
            add((alt, 1.0)) if has(alt) else add((front, R2)) if has(front) else add((FC, 0.5)) if has(FC) else None
        elif c == BC:
            for l, r, w in ((BL, BR, R2), (SL, SR, R2), (FL, FR, 0.5)):
                if has(l) and has(r):
                    add((l, w), (r, w))
                    break
            else:
                if has(FC):
                    add((FC, R2))
        elif c in (FLC, FRC):
            side = FL if c == FLC else FR
            if has(side) and has(FC):
                add((side, R2), (FC, R2))
            elif has(side) or has(FC):
                add((side if has(side) else FC, 1.0))
        elif c in (LFE, 35):
            alt = LFE + 35 - c
            if has(alt):
                add((alt, 1.0))
    peak = np.abs(W).sum(axis=1).max()
    if normalize and peak > 1:
        W /= peak
    return W


@st.composite
def s_mix(draw):
    a = draw(LAY)
    b = draw(LAY)
    return dict(src=draw(st.sampled_from([[INT, 16], [INT, 24], [INT, 32], [FLOAT, 32], [INT, 20]])), dst=draw(st.one_of(st.none(), st.sampled_from([[INT, 16], [INT, 24], [INT, 32], [FLOAT, 32], [INT, 18]]))), ch=a, out=b, n=draw(N),
                kind=draw(st.sampled_from(['rand', 'rand', 'ramp', 'ext'])), seed=draw(st.integers(0, 10**6)), dither=draw(DITHER), oerr=draw(st.sampled_from([None, None, None, 1])), order=draw(st.integers(0, 7)),
                normalize=draw(st.sampled_from([None, None, 0, 1])))


def run_mix(c):
    m = make(c['src'], c['ch'], 44100, c['n'], c['kind'], c['seed'])
    dst = c['dst'] or c['src']
    kw = dict(channels=list(c['out']))
    if c['dst']:
        kw.update(sampletype=dst[0], bits=dst[1])
    for k, a in (('dither_type', 'dither'), ('overflow_error', 'oerr'), ('normalize', 'normalize')):
        if c[a] is not None:
            kw[k] = c[a]
    what = f"AudioResample {c['src']} {sorted(c['ch'])} {kw}"
    node = m.node()
    ins, outs = sorted(c['ch']), sorted(c['out'])
    out = node.std.AudioResample(**kw)
    check_info(out, A(dst[0], dst[1], outs, m.rate, m.data), what)
    if ins == outs:
        return ['mix-same'], False
    normalize = bool(c['normalize']) if c['normalize'] is not None else dst[0] == INT
    W = matrix(ins, outs, normalize)
    X = np.stack(norm(m))
    Y = W @ X
    eps = (np.abs(W) @ np.abs(X)) * (3e-7 + 6e-8 * len(ins)) + 1e-30
    sc = 1.0 if dst[0] == FLOAT else float(1 << (dst[1] - 1))
    dith = (c['dither'] or 'triangular') if dst[0] == INT else 'none'
    a = amount(dith)
    nf = out.num_frames
    ids = list(range(nf))
    if c['order'] & 1:
        ids.reverse()
    labels = ['mix', f'{len(ins)}->{len(outs)}']
    if normalize and dst[0] == INT and a == 0:
        labels.append('normalized')
    for i in ids + ids[:1]:
        sl = slice(i * FS, (i + 1) * FS)
        over = np.maximum(Y[:, sl] * sc - (sc - 1), -sc - Y[:, sl] * sc) if dst[0] == INT else np.full((1, 1), -9.0)
        slack = eps[:, sl] * sc if dst[0] == INT else 0
        live = (W != 0).any(axis=1)
        surely = dst[0] == INT and (over - slack > 0.5 + a)[live].any() if live.any() else False
        maybe = dst[0] == INT and (over + slack >= 0.5 - a)[live].any() if live.any() else False
        try:
            d = frame_data(out, i, m.n, what)
        except vs.Error as e:
            check(c['oerr'] == 1 and maybe and 'clipping' in str(e), what, f'frame {i}: unexpected error {e}')
            continue
        check(not (c['oerr'] == 1 and surely), what, f'frame {i} clips but no error was raised')
        for k in range(len(outs)):
            w = f'{what} channel {outs[k]} frame {i}'
            if not (W[k] != 0).any():
                check(not raw(d[k]).any(), w, 'no input feeds the channel but it is not digital silence')
                labels.append('silent')
                continue
            y, e = Y[k, sl], eps[k, sl]
            if dst[0] == FLOAT:
                g = d[k].astype(np.float64)
                bad = ~(np.abs(g - y) <= e)
                if bad.any():
                    j = int(np.argwhere(bad)[0][0])
                    raise Violation(f'{w} sample {j}: got {g[j]!r} want {y[j]!r} weights {W[k]}')
            else:
                check_quant(d[k], y * sc, dst[1], dith, e * sc, w)
    return labels, True


# ---------------------------------------------------------------- rate conversion
RATES = [44100, 48000, 96000, 88200, 22050, 11025, 8000, 16000, 32000, 192000, 12000, 1, 2, 3, 5, 7, 100, 147, 160, 1000]
RATE = st.one_of(st.sampled_from(RATES), st.sampled_from(RATES[:11]), st.integers(1, 40))
HALF = 64


def fraction(a, b):
    g = math.gcd(a, b)
    return b // g, a // g     # p, q


@st.composite
def s_rate(draw):
    a, b = draw(RATE), draw(RATE)
    while b == a:
        b = draw(RATE)
    return dict(a=a, b=b, n=draw(st.one_of(st.integers(1, 300), st.sampled_from([FS - 1, FS, FS + 1, 2 * FS]), st.integers(300, 4 * FS))), kind=draw(st.sampled_from(['sine', 'sine', 'stop', 'dc', 'rand', 'rand'])),
                src=draw(st.sampled_from([[FLOAT, 32], [FLOAT, 32], [INT, 16], [INT, 24], [INT, 32]])), dst=draw(st.sampled_from([None, [INT, 16], [INT, 24], [INT, 20], [INT, 32], [FLOAT, 32]])), pad=draw(st.integers(1, 60)), tail=draw(st.integers(1, 4000)),
                seed=draw(st.integers(0, 10**6)), order=draw(st.integers(0, 7)), ch=draw(st.sampled_from([[0], [0, 1], [2, 5]])), out=draw(st.one_of(st.none(), st.none(), st.sampled_from([[0], [0, 1], [2], [0, 1, 2]]))), dither=draw(st.sampled_from([None, 'none', 'rectangular'])))


def run_rate(c):
    a, b = c['a'], c['b']
    p, q = fraction(a, b)
    half = math.ceil(HALF * max(1, q / p))
    rng = np.random.Generator(np.random.PCG64([c['seed'], 5]))
    n = c['n']
    # keep the produced amount of samples bounded
    n = max(1, min(n, 60000 * q // p))
    want_n = -(-n * p // q)
    src = c['src']
    what = f"AudioResample {src} {a} -> {b} n={n}"
    m = A(src[0], src[1], c['ch'], a, [])
    full = 1.0 if src[0] == FLOAT else float(1 << (src[1] - 1))
    low = min(a, b)
    comps = []
    for k in range(len(c['ch'])):
        t = np.arange(n) / a
        if c['kind'] == 'rand':
            y = rng.random(n) * 1.6 - 0.8
        elif c['kind'] == 'dc':
            comps.append(rng.random() * 1.6 - 0.8)
            y = np.full(n, comps[-1])
        else:
            cs = []
            for _ in range(3):
                if c['kind'] == 'sine':
                    f = rng.random() * 0.84 * low / 2
                else:
                    f = low / 2 + rng.random() * (a - b) / 2
                cs.append((f, rng.random() * 0.3, rng.random() * 6.28))
            comps.append(cs)
            y = sum(A_ * np.sin(2 * np.pi * f * t + ph) for f, A_, ph in cs)
        if src[0] == FLOAT:
            m.data.append(y.astype(np.float32))
        else:
            m.data.append((np.rint(y * (full - 1)).astype(np.int64) << m.shift).astype(m.dtype))
    if c['kind'] == 'stop' and b > a:
        return ['skip'], False
    node = m.node()
    kw = dict(samplerate=b, sampletype=1)
    try:
        ref = node.std.AudioResample(**kw)
    except vs.Error as e:
        check(p * 2 * half * 4 > (1 << 24) or 2 * half > 4096, what, 'refused', e)
        check('ratio' in str(e), what, 'error text', e)
        return ['refused'], True
    fm = A(FLOAT, 32, c['ch'], b, [np.zeros(0)])
    check_info(ref, fm, what, want_n)
    y = fetch(ref, want_n, what, c['order'])
    labels = ['rate', c['kind']]
    # (1) the signal itself, away from the edges
    pos = np.arange(want_n) * q            # position * p in input samples
    inner = (pos // p - half >= 0) & (pos // p + half < n)
    if c['kind'] != 'rand' and inner.any():
        t = np.arange(want_n) / b
        quant = 0.0 if src[0] == FLOAT else 1.5 / full
        for k in range(len(c['ch'])):
            if c['kind'] == 'dc':
                w, tol = np.full(want_n, m.data[k].astype(np.float64)[0] / (1.0 if src[0] else 2.0 ** (15 if src[1] == 16 else 31))), 1e-6
                quant = 0
            elif c['kind'] == 'sine':
                w, tol = sum(A_ * np.sin(2 * np.pi * f * t + ph) for f, A_, ph in comps[k]), 1e-5
            else:
                # between the output Nyquist and twice the transition some leakage is allowed next to the band edge
                w = np.zeros(want_n)
                tol = 1e-6 + sum(A_ * (1e-5 if f > low / 2 * 1.0 else 1) for f, A_, ph in comps[k])
            err = np.abs(y[k].astype(np.float64) - w)
            err[~inner] = 0
            j = int(err.argmax())
            check(err[j] <= tol + quant * 1.2, what, c['kind'], f'channel {k} output sample {j}: got {y[k][j]!r} want {w[j]!r} error {err[j]} allowed {tol + quant * 1.2}', comps[k])
        labels.append('inner')
    # (2) shifting the input by whole periods shifts the output
    K = c['pad']
    z = K * q
    if z + n <= 60000 * max(1, q // max(p, 1)) and z <= 200000 and K * p <= 100000:
        zero = [np.zeros(z, m.dtype) for _ in m.data]
        m2 = m.but(data=[np.concatenate([o, d]) for o, d in zip(zero, m.data)])
        r2 = m2.node().std.AudioResample(**kw)
        n2 = -(-(n + z) * p // q)
        check(n2 == want_n + K * p and r2.num_samples == n2, what, 'shifted length', r2.num_samples, n2)
        y2 = fetch(r2, n2, what, 0)
        for k in range(len(y)):
            d = np.abs(y2[k][K * p:].astype(np.float64) - y[k])
            j = int(d.argmax())
            check(d[j] <= 3e-7, what, f'channel {k}: delaying the input by {z} samples changes output sample {j} from {y[k][j]!r} to {y2[k][K * p + j]!r}')
        labels.append('shift')
    # (3) silence after the end changes nothing before it
    tail = c['tail']
    m3 = m.but(data=[np.concatenate([d, np.zeros(tail, m.dtype)]) for d in m.data])
    n3 = -(-(n + tail) * p // q)
    if n3 < 200000:
        r3 = m3.node().std.AudioResample(**kw)
        y3 = fetch(r3, n3, what, 0)
        for k in range(len(y)):
            d = np.abs(y3[k][:want_n].astype(np.float64) - y[k])
            j = int(d.argmax())
            check(d[j] <= 3e-7, what, f'channel {k}: appending {tail} samples of silence changes output sample {j} from {y[k][j]!r} to {y3[k][j]!r}')
    # (4) linear: negation
    if src[0] == FLOAT:
        y4 = fetch(m.but(data=[-d for d in m.data]).node().std.AudioResample(**kw), want_n, what, c['order'] ^ 1)
        for k in range(len(y)):
            check(np.array_equal(y4[k], -y[k]), what, f'channel {k}: negating the input does not negate the output')
    else:
        # reading an integer clip is the same as converting it to float first
        y4 = fetch(m.node().std.AudioResample(sampletype=1).std.AudioResample(**kw), want_n, what, c['order'] ^ 1)
        for k in range(len(y)):
            d = np.abs(y4[k].astype(np.float64) - y[k])
            check(d.max() <= 3e-7, what, f'channel {k}: resampling integers differs from resampling their float conversion by', d.max())
    # (5) integer output and mixing: agree with doing the steps one at a time
    dst = c['dst']
    if dst or c['out']:
        k5 = dict(samplerate=b)
        if dst:
            k5.update(sampletype=dst[0], bits=dst[1])
        if c['out']:
            k5['channels'] = c['out']
        if c['dither']:
            k5['dither_type'] = c['dither']
        dst = dst or src
        dith = (c['dither'] or 'triangular') if dst[0] == INT else 'none'
        o5 = m.node().std.AudioResample(**k5)
        outs = sorted(c['out']) if c['out'] else sorted(c['ch'])
        check_info(o5, A(dst[0], dst[1], outs, b, [np.zeros(0)]), what, want_n)
        y5 = fetch(o5, want_n, what, c['order'] ^ 2)
        Y = np.stack([v.astype(np.float64) for v in y])
        if outs != sorted(c['ch']):
            W = matrix(c['ch'], outs, dst[0] == INT)
            Y = W @ Y
        else:
            W = np.eye(len(outs))
        for k in range(len(outs)):
            w = f'{what} {k5} channel {outs[k]}'
            if not W[k].any():
                check(not raw(y5[k]).any(), w, 'not digital silence')
            elif dst[0] == FLOAT:
                d = np.abs(y5[k].astype(np.float64) - Y[k])
                check(d.max() <= 2e-6, w, 'differs from resampling then mixing by', d.max())
            else:
                sc = float(1 << (dst[1] - 1))
                check_quant(y5[k], Y[k] * sc, dst[1], dith, 2e-6 * sc if outs != sorted(c['ch']) else 1e-6, w)
        labels.append('steps')
    return labels, True


# ---------------------------------------------------------------- arguments
@st.composite
def s_args(draw):
    kw = {}
    for k, s in dict(samplerate=st.sampled_from([0, -1, 44100, 48000, 1, 96001, 2**31 - 1, 2**31, -2**40, 2**62]), sampletype=st.sampled_from([0, 1, 2, -1]), bits=st.sampled_from([15, 16, 24, 32, 33, 0, -1, 64, 2**40]),
                     channels=st.one_of(st.lists(st.integers(0, 5), min_size=1, max_size=3, unique=True), st.lists(st.sampled_from([0, 1, 62, 64, -1, 2**40]), min_size=1, max_size=3)),
                     dither_type=st.sampled_from(['none', 'rectangular', 'triangular', 'Triangular', '', 'tri']), normalize=st.sampled_from([0, 1, 5]), overflow_error=st.sampled_from([0, 1])).items():
        if draw(st.integers(0, 2)) == 0:
            kw[k] = draw(s)
    return dict(kw=kw, src=draw(st.sampled_from([[INT, 16], [INT, 24], [FLOAT, 32]])), rate=draw(st.sampled_from([48000, 44100, 8000, 1, 2**31 - 1, 2**30])), n=draw(st.sampled_from([1, 100, FS + 1, 2**31, 2**42])), last=draw(st.booleans()))


def run_args(c):
    kw, src = c['kw'], c['src']
    ch = kw.get('channels', [0, 1])
    st_ = src[0] if 'sampletype' not in kw else FLOAT if kw['sampletype'] else INT
    bits = kw.get('bits', 32 if st_ == FLOAT else src[1])
    rate = min(kw.get('samplerate', c['rate']), 2**31 - 1)
    ok = rate >= 1 and all(0 <= x < 64 for x in ch) and len(set(ch)) == len(ch) and (16 <= bits <= 32 if st_ == INT else bits == 32) and kw.get('dither_type', 'none') in ('none', 'rectangular', 'triangular')
    src_node = core().std.BlankAudio(channels=[0, 1], bits=src[1], sampletype=src[0], samplerate=c['rate'], length=c['n'])
    what = f"AudioResample {src} rate {c['rate']} n={c['n']} {kw}"
    f = lambda: src_node.std.AudioResample(**kw)
    if not ok:
        vsl.expect_error(f, what)
        return ['refused'], True
    p, q = fraction(c['rate'], rate)
    n = -(-c['n'] * p // q)
    half = math.ceil(HALF * max(1, q / p))
    try:
        o = f()
    except vs.Error as e:
        check(rate != c['rate'] and (p * 2 * half * 4 > (1 << 24) or 2 * half > 4096 or n > (2**31 - 1) * FS or c['n'] * p >= 2**62), what, 'refused', e)
        return ['refused-ratio'], True
    check(not (rate != c['rate'] and (p * 2 * half * 4 > (1 << 30) or 2 * half > (1 << 20))), what, 'an absurd filter was accepted')
    check_info(o, A(st_, bits, sorted(ch), rate, [np.zeros(0)]), what, n)
    i = o.num_frames - 1 if c['last'] else 0
    for d in frame_data(o, i, n, what):
        if st_ == FLOAT:
            check(not raw(d).any(), what, 'silence did not stay silence')
    return ['accepted'], True


# ---------------------------------------------------------------- dither
@st.composite
def s_dither(draw):
    return dict(a=draw(st.sampled_from([44100, 48000, 8000])), b=draw(st.sampled_from([None, 44100, 48000, 96000, 16000])), out=draw(st.sampled_from([None, None, [2], [0, 1, 2]])), bits=draw(st.sampled_from([16, 16, 17, 20])), n=draw(st.integers(2 * FS + 900, 9 * FS)),
                dither=draw(st.sampled_from(['rectangular', 'triangular', None])), v=draw(st.integers(-9000, 9000)), frac=draw(st.sampled_from([0.5, 0.4, 0.3, 0.62])), order=draw(st.integers(0, 7)))


def run_dither(c):
    """The noise belongs to the position of a sample: a constant signal gets different noise in different frames, the same on every request, of the stated strength."""
    bits, sc = c['bits'], float(1 << (c['bits'] - 1))
    x = np.float32((c['v'] + c['frac']) / sc)
    m = A(FLOAT, 32, [0, 1], c['a'], [np.full(c['n'], x, np.float32) for _ in range(2)])
    kw = dict(sampletype=0, bits=bits)
    if c['b'] and c['b'] != c['a']:
        kw['samplerate'] = c['b']
    if c['out']:
        kw.update(channels=c['out'], normalize=1)
    if c['dither']:
        kw['dither_type'] = c['dither']
    what = f"AudioResample of a constant, {c['a']} {kw}"
    p, q = fraction(c['a'], kw.get('samplerate', c['a']))
    n = -(-c['n'] * p // q)
    o = m.node().std.AudioResample(**kw)
    if n < 2 * FS + 600:
        return ['short'], False
    g = fetch(o, n, what, c['order'])
    W = matrix([0, 1], c['out'], True) if c['out'] else np.eye(2)
    tri = c['dither'] != 'rectangular'
    labels = ['dither', 'rate' if 'samplerate' in kw else 'mix' if c['out'] else 'plain']
    for k in range(len(g)):
        if not W[k].any():
            continue
        y = float(x) * W[k].sum() * sc
        v = (g[k].astype(np.int64) >> ((16 if bits == 16 else 32) - bits)).astype(np.float64)
        inner = v[400:n - 400]
        if 'samplerate' in kw:
            inner = v[600 * max(1, -(-p // q)):n - 600 * max(1, -(-p // q))]
        e = inner - y
        want = 1 / 4 if tri else 1 / 6
        if tri:     # rounding plus triangular noise: a mean of zero and a constant power whatever the value
            check(abs(e.mean()) < 9 * math.sqrt(want / len(e)) + 1e-3, what, f'channel {k}: mean error {e.mean()}')
            check(abs(e.var() / want - 1) < 0.3, what, f'channel {k}: error power {e.var()} want {want}')
        check(np.ptp(inner) > 0, what, f'channel {k}: no noise')
        lo = 600 * max(1, -(-p // q))
        blocks = {}
        for i in range(n // FS):
            s, t = i * FS, (i + 1) * FS
            if s >= lo and t <= n - lo:
                blocks[i] = v[s:t]
        ids = sorted(blocks)
        for i in ids[1:]:
            check(not np.array_equal(blocks[i], blocks[ids[0]]), what, f'channel {k}: the noise of frame {i} repeats that of frame {ids[0]}')
            labels.append('position')
    return sorted(set(labels)), 'position' in labels


CHECKS = {
    'dither': Sub(s_dither(), run_dither, quick=500, thorough=20000, batch=25),
    'fmt': Sub(s_fmt(), run_fmt, quick=4000, thorough=120000, batch=50),
    'mix': Sub(s_mix(), run_mix, quick=4000, thorough=120000, batch=50),
    'rate': Sub(s_rate(), run_rate, quick=800, thorough=24000, batch=20),
    'args': Sub(s_args(), run_args, quick=2000, thorough=20000, batch=50),
}
