"""C17 audio editing filters: every output sample of every channel against a whole-signal numpy model."""
import math
import numpy as np
import vapoursynth as vs
from hypothesis import strategies as st
from vf.core import Sub, check, Violation
from vf import vsl
from vf.vsl import core

FS = 3072
MAXS = (2**31 - 1) * FS
INT, FLOAT = 0, 1
I64 = 2**63 - 1


class A:
    """Model: st, bits, layout (sorted channel list), rate, data (list of arrays in container units)."""
    def __init__(self, st_, bits, ch, rate, data):
        self.st, self.bits, self.ch, self.rate, self.data = st_, bits, list(ch), rate, data

    @property
    def n(self):
        return len(self.data[0])

    @property
    def dtype(self):
        return np.float32 if self.st == FLOAT else np.int16 if self.bits == 16 else np.int32

    @property
    def shift(self):
        return (16 if self.bits == 16 else 32) - self.bits

    def but(self, **k):
        r = A(self.st, self.bits, self.ch, self.rate, self.data)
        r.__dict__.update(k)
        return r

    def node(self):
        return core().vft.ASource(sampletype=self.st, bits=self.bits, layout=sum(1 << c for c in self.ch), rate=self.rate, length=self.n,
                                  data=b''.join(np.ascontiguousarray(d).tobytes() for d in self.data))


def make(fmt, ch, rate, n, kind, seed):
    s, bits = fmt
    m = A(s, bits, sorted(ch), rate, [])
    for k, c in enumerate(m.ch):
        rng = np.random.Generator(np.random.PCG64([seed, k, n]))
        if s == FLOAT:
            d = {'rand': lambda: rng.random(n) * 2 - 1, 'ramp': lambda: (np.arange(n) + k * 7) % 4001 / 2000.0 - 1, 'ext': lambda: rng.choice([-1.0, 1.0, 0.0, 1e-9, 3.5], n)}[kind]().astype(np.float32)
        else:
            hi = (1 << (bits - 1)) - 1
            v = {'rand': lambda: rng.integers(-hi - 1, hi, n, endpoint=True), 'ramp': lambda: (np.arange(n, dtype=np.int64) * 3 + k * 10007 + seed) % (2 * hi + 1) - hi,
                 'ext': lambda: rng.choice([-hi - 1, hi, 0, 1, -1, hi // 2, hi // 2 + 1], n)}[kind]()
            d = (v.astype(np.int64) << m.shift).astype(m.dtype)
        m.data.append(d)
    return m


def raw(a):
    a = np.ascontiguousarray(a)
    return a.view({2: np.uint16, 4: np.uint32}[a.dtype.itemsize])


def check_info(node, m, what, n=None):
    check((int(node.sample_type), node.bits_per_sample, node.bytes_per_sample, node.channel_layout, node.num_channels, node.sample_rate) ==
          (m.st, m.bits, 2 if m.bits == 16 else 4, sum(1 << c for c in m.ch), len(m.ch), m.rate), what, 'format', repr(node), m.__dict__ if m.n < 3 else m.ch)
    n = m.n if n is None else n
    check(node.num_samples == n and node.num_frames == (n + FS - 1) // FS, what, 'length', node.num_samples, node.num_frames, 'want', n)


def signed(a):
    # integer audio is exposed as unsigned by the Python module
    return a.view({2: np.int16, 4: np.int32}[a.dtype.itemsize]) if a.dtype.kind == 'u' else a


def frame_data(node, i, total, what):
    fr = node.get_frame(i)
    want = FS if (i + 1) * FS <= total else total - i * FS
    d = [signed(np.array(fr[c])) for c in range(node.num_channels)]
    check(len(fr) == len(d) and all(len(x) == want for x in d), what, f'frame {i} length', [len(x) for x in d], 'want', want)
    fr.close()
    return d


def compare(node, m, what, order=0, tol=0):
    check_info(node, m, what)
    ids = list(range(node.num_frames))
    if order & 1:
        ids.reverse()
    if order & 2:
        np.random.Generator(np.random.PCG64(order)).shuffle(ids)
    if order & 4:
        ids += ids[:1]
    for i in ids:
        d = frame_data(node, i, m.n, what)
        for c, g in enumerate(d):
            w = m.data[c]
            if isinstance(w, tuple):
                lo, hi = w[0][i * FS:(i + 1) * FS], w[1][i * FS:(i + 1) * FS]
                bad = ~((g >= lo) & (g <= hi))
                wv = lo
            else:
                wv = w[i * FS:(i + 1) * FS]
                check(g.dtype == wv.dtype, what, 'dtype', g.dtype, wv.dtype)
                bad = raw(g) != raw(wv)
            if bad.any():
                x = int(np.argwhere(bad)[0][0])
                raise Violation(f'{what} channel {c} sample {i * FS + x} (frame {i}): got {g[x]!r} want {wv[x]!r} ({int(bad.sum())} differ)')


# ---------------------------------------------------------------- generators
FMT = st.one_of(st.sampled_from([[INT, 16], [INT, 24], [INT, 32], [FLOAT, 32], [FLOAT, 32]]), st.integers(17, 31).map(lambda b: [INT, b]))
LEN = st.one_of(st.sampled_from([1, 2, FS - 1, FS, FS + 1, 2 * FS - 1, 2 * FS, 2 * FS + 1, 3 * FS, 3 * FS + 5]), st.integers(1, 300), st.integers(1, 4 * FS))
CH = st.one_of(st.sampled_from([[0], [0, 1], [2], [0, 1, 2, 3, 4, 5], [3, 9]]), st.lists(st.integers(0, 40), min_size=1, max_size=4, unique=True))
RATE = st.sampled_from([44100, 48000, 8000, 1, 192000, 2**31 - 1])


def num(rng, n, bad=0.1):
    if rng.random() > bad:
        e = [0, n - 1, n // 2, min(n - 1, FS), min(n - 1, FS - 1), max(0, n - FS), min(n - 1, 2 * FS)]
        return e[int(rng.integers(0, 7))] if rng.random() < 0.5 else int(rng.integers(0, n))
    return [-1, n, n + 1, -n, -n - 1, I64, -I64 - 1, 2**32, 2**40][int(rng.integers(0, 9))]


OPS = ['trim', 'trim', 'trim', 'splice', 'splice', 'add', 'loop', 'mul', 'reverse', 'gain', 'mix', 'shuffle', 'shuffle', 'split', 'rate', 'index', 'slice', 'slice']


@st.composite
def s_chain(draw):
    fmt = draw(FMT)
    same = draw(st.integers(0, 3)) > 0
    bases = []
    ch, rate = draw(CH), draw(RATE)
    for _ in range(draw(st.integers(1, 3))):
        bases.append(dict(fmt=fmt if same else draw(FMT), ch=ch if same or draw(st.booleans()) else draw(CH), rate=rate if same or draw(st.integers(0, 3)) else draw(RATE), n=draw(LEN),
                          kind=draw(st.sampled_from(['rand', 'ramp', 'ext'])), seed=draw(st.integers(0, 1000))))
    ops = [dict(op=draw(st.sampled_from(OPS)), a=draw(st.integers(0, 1 << 40)), r=draw(st.integers(0, 1 << 20))) for _ in range(draw(st.integers(1, 5)))]
    return dict(bases=bases, ops=ops)


def quant(m, x):
    """Exact result of the integer quantisation of x (float64, container units), clip mask and near-boundary slack."""
    step = float(1 << m.shift)
    hi, lo = float((1 << (m.bits - 1)) - 1), -float(1 << (m.bits - 1))
    v = x / step
    def rnd(y):
        return np.where(y >= 0, np.floor(y + 0.5), np.ceil(y - 0.5))
    e = np.abs(v) * 1e-13 + 1e-12
    a, b = rnd(v - e), rnd(v + e)
    clip = (a > hi) | (b < lo)
    maybe = (b > hi) | (a < lo)
    return (np.clip(a, lo, hi) * step, np.clip(b, lo, hi) * step), clip, maybe


def same_info(a, b):
    return a.st == b.st and a.bits == b.bits and a.ch == b.ch and a.rate == b.rate


def step(o, stack, what):
    """Returns (make() -> node or list, model or None when refused, label)."""
    rng = np.random.Generator(np.random.PCG64(o['a']))
    std = core().std
    node, m = stack[o['r'] % len(stack)]
    n = m.n
    pick = lambda: stack[int(rng.integers(0, len(stack)))]
    op = o['op']
    if op == 'trim':
        kw = {}
        if rng.random() < 0.8:
            kw['first'] = num(rng, n)
        q = rng.random()
        first = kw.get('first', 0)
        if q < 0.4:
            kw['last'] = int(max(0, first)) + int(rng.integers(0, max(1, n - first))) if 0 <= first < n and rng.random() < 0.9 else num(rng, n, 0.6)
        elif q < 0.8:
            kw['length'] = int(rng.integers(1, max(2, n - first + 1))) if 0 <= first < n and rng.random() < 0.9 else num(rng, n, 0.6)
        elif q < 0.85:
            kw.update(last=n - 1, length=1)
        ok = 0 <= first < n and not ('last' in kw and 'length' in kw)
        if ok and 'last' in kw:
            end = kw['last'] + 1
            ok = first < end <= n
        elif ok and 'length' in kw:
            end = first + kw['length']
            ok = kw['length'] >= 1 and end <= n
        else:
            end = n
        return (lambda: std.AudioTrim(node, **kw)), m.but(data=[d[first:end] for d in m.data]) if ok else None, f'AudioTrim {kw} of {n}'
    if op in ('splice', 'add'):
        l = [(node, m)] + [pick() for _ in range(1 if op == 'add' else int(rng.integers(0, 4)))]
        ok = all(same_info(m, x[1]) for x in l)
        r = m.but(data=[np.concatenate([x[1].data[c] for x in l]) for c in range(len(m.ch))]) if ok else None
        return (lambda: l[0][0] + l[1][0]) if op == 'add' else (lambda: std.AudioSplice([x[0] for x in l])), r, f'{op} of {[x[1].n for x in l]}'
    if op in ('loop', 'mul'):
        t = int(rng.integers(1, 6)) if rng.random() < 0.8 else int([0, -1, 2**40, I64, 2**31][int(rng.integers(0, 5))])
        if op == 'mul':
            t = max(t, 1) if t < 2**31 else t
        f = (lambda: node * t) if op == 'mul' else (lambda: std.AudioLoop(node, times=t))
        if t == 0 or 0 < t and 1 < t and n * t <= MAXS and n * t > 60000:
            # maximum length: only sampled
            def go():
                x = f()
                tot = MAXS if t == 0 else n * t
                check_info(x, m, what, tot)
                for i in {0, 1, (tot - 1) // FS, int(rng.integers(0, (tot + FS - 1) // FS))}:
                    if i < x.num_frames:
                        d = frame_data(x, i, tot, what)
                        idx = (np.arange(len(d[0]), dtype=np.int64) + i * FS) % n
                        for c, g in enumerate(d):
                            check(np.array_equal(raw(g), raw(m.data[c][idx])), what, f'loop frame {i} channel {c}')
                return x[0:n]
            return go, m, f'loop {t} of {n}'
        ok = t > 0 and n * t <= MAXS
        return f, m.but(data=[np.tile(d, t) for d in m.data]) if ok else None, f'{op} {t} of {n}'
    if op == 'reverse':
        return (lambda: std.AudioReverse(node)), m.but(data=[d[::-1] for d in m.data]), f'reverse of {n}'
    if op in ('index', 'slice'):
        if op == 'index':
            i = num(rng, n, 0.3)
            if rng.random() < 0.3:
                i = -1 - i
            j = i + n if i < 0 else i
            ok = 0 <= j < n
            return (lambda: node[i]), m.but(data=[d[j:j + 1] for d in m.data]) if ok else None, f'index {i} of {n}'
        a, b = [None if rng.random() < 0.25 else num(rng, n, 0.2) * (-1 if rng.random() < 0.2 else 1) for _ in range(2)]
        s = [None, 1, 1, -1, -1, 2, 0, -3][int(rng.integers(0, 8))]
        ok = s in (None, 1, -1)
        r = m.but(data=[d[a:b:s] for d in m.data]) if ok else None
        return (lambda: node[a:b:s]), r if r and r.n else None, f'slice {a}:{b}:{s} of {n}'
    if op == 'gain':
        k = 1 if rng.random() < 0.5 else len(m.ch)
        if rng.random() < 0.08:
            k = int(rng.choice([2, 3, 5, 7]))
        g = [float(rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, 1 / 3, 1e-9, -0.7071, 1e6, float(rng.random() * 3)])) for _ in range(k)]
        err = int(rng.integers(0, 3)) == 0
        ok = k in (1, len(m.ch))
        kw = dict(overflow_error=1) if err else {}
        f = lambda: std.AudioGain(node, gain=g if k > 1 or rng.random() < 0.5 else g[0], **kw)
        if not ok:
            return f, None, f'gain {g}'
        gg = [g[c % k] for c in range(len(m.ch))]
        if m.st == FLOAT:
            with np.errstate(all='ignore'):
                return f, m.but(data=[d * np.float32(x) for d, x in zip(m.data, gg)]), f'gain {g}'
        qs = [quant(m, d.astype(np.float64) * x) for d, x in zip(m.data, gg)]
        return clipping(f, m, qs, err, f'gain {g} overflow_error={err}', what)
    if op == 'mix':
        l = [(node, m)] + [pick() for _ in range(int(rng.integers(0, 3)))]
        if rng.random() < 0.6:
            l = [x for x in l if x[1].n == m.n and (x[1].st, x[1].bits, x[1].rate) == (m.st, m.bits, m.rate)]
        src = [d for x in l for d in x[1].data]
        och = [int(c) for c in rng.permutation(12)[:int(rng.integers(1, 5))]]
        if rng.random() < 0.06:
            och.append(int(rng.choice([och[0], -1, 64, 100])))
        cnt = len(src) * len(och) + (int(rng.choice([-1, 1, len(src)])) if rng.random() < 0.05 else 0)
        mat = [float(rng.choice([0.0, 1.0, 0.5, -0.5, 0.25, 1 / 3, float(rng.random() - 0.5)])) for _ in range(max(1, cnt))]
        err = int(rng.integers(0, 3)) == 0
        ok = all(x[1].n == m.n and (x[1].st, x[1].bits, x[1].rate) == (m.st, m.bits, m.rate) for x in l) and len(set(och)) == len(och) and all(0 <= c < 64 for c in och) and len(mat) == len(src) * len(och)
        f = lambda: std.AudioMix([x[0] for x in l], matrix=mat, channels_out=och, **(dict(overflow_error=1) if err else {}))
        desc = f'mix {[x[1].ch for x in l]} -> {och} by {mat} overflow_error={err}'
        if not ok:
            return f, None, desc
        order = sorted(range(len(och)), key=lambda j: och[j])
        S = [d.astype(np.float64) for d in src]
        out = []
        mag = []
        for j in order:
            w = mat[j * len(src):(j + 1) * len(src)]
            out.append(sum(x * y for x, y in zip(S, w)))
            mag.append(sum(np.abs(x * y) for x, y in zip(S, w)))
        r = m.but(ch=sorted(och))
        if m.st == FLOAT:
            data = []
            for o_, g_ in zip(out, mag):
                e = g_ * 1e-13 + np.abs(o_) * 2.0 ** -23 + 1e-45
                data.append((o_ - e, o_ + e))
            return (lambda: materialised(f(), r, data, desc, what)), None, desc + ' materialised'
        qs = [quant(m, o_) for o_ in out]
        return clipping(f, r, qs, err, desc, what)
    if op == 'shuffle':
        l = [(node, m)] + [pick() for _ in range(int(rng.integers(0, 3)))]
        k = max(len(l), int(rng.integers(1, 5)))
        if rng.random() < 0.05:
            k = max(1, len(l) - 1)
        cin, data, ok = [], [], k >= len(l)
        for i in range(k):
            x = l[min(i, len(l) - 1)][1]
            if rng.random() < 0.05:
                c = int(rng.choice([-65, 64, -len(x.ch) - 1, 63, 41, -64]))
                cin.append(c)
                if c in x.ch:
                    data.append(x.data[x.ch.index(c)])
                elif c >= 0 or -c > len(x.ch):
                    ok = False
                else:
                    data.append(x.data[-c - 1])
                continue
            j = int(rng.integers(0, len(x.ch)))
            if rng.random() < 0.4:
                cin.append(-j - 1)
            elif rng.random() < 0.2:
                cin.append(0)
                j = 0
            else:
                cin.append(x.ch[j])
            data.append(x.data[j])
        och = [int(c) for c in rng.permutation([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 17, 40, 63])[:k]]
        if rng.random() < 0.06:
            och[-1] = int(rng.choice([och[0], -1, 64])) if k > 1 else int(rng.choice([-1, 64]))
        if rng.random() < 0.03:
            och.append(50)
        ok = ok and len(och) == k and len(set(och)) == k and all(0 <= c < 64 for c in och)
        used = [l[min(i, len(l) - 1)][1] for i in range(k)]
        ok = ok and all((x.st, x.bits, x.rate) == (m.st, m.bits, m.rate) for x in used)
        f = lambda: std.ShuffleChannels([x[0] for x in l], channels_in=cin, channels_out=och)
        desc = f'shuffle {[(x[1].ch, x[1].n) for x in l]} {cin} -> {och}'
        if not ok:
            return f, None, desc
        N = max(x.n for x in used)
        order = sorted(range(k), key=lambda j: och[j])
        return f, m.but(ch=sorted(och), data=[np.concatenate([data[j], np.zeros(N - len(data[j]), m.dtype)]) for j in order]), desc
    if op == 'split':
        def go():
            r = std.SplitChannels(node)
            r = r if isinstance(r, list) else [r]
            check(len(r) == len(m.ch), what, 'SplitChannels count', len(r))
            for c, x in enumerate(r):
                compare(x, m.but(ch=[m.ch[c]], data=[m.data[c]]), f'{what} SplitChannels {c}')
            j = int(rng.integers(0, len(r)))
            return r[j], m.but(ch=[m.ch[j]], data=[m.data[j]])
        return go, 'self', f'split {m.ch}'
    if op == 'rate':
        q = int(rng.integers(0, 6))
        x = pick()
        rr = int(rng.choice([44100, 1, 2**31 - 1, 48000]))
        if q < 3:
            return (lambda: std.AssumeSampleRate(node, samplerate=rr)), m.but(rate=rr), f'rate {rr}'
        if q == 3:
            return (lambda: std.AssumeSampleRate(node, src=x[0])), m.but(rate=x[1].rate), 'rate src'
        if q == 4:
            return (lambda: std.AssumeSampleRate(node, samplerate=int(rng.choice([0, -1, -2**40])))), None, 'rate bad'
        return (lambda: std.AssumeSampleRate(node, **(dict(src=x[0], samplerate=rr) if rng.random() < 0.5 else {}))), None, 'rate both/none'
    raise AssertionError(op)


def materialised(node, r, data, desc, what):
    """Compares with bounds; continues with the delivered samples as the model."""
    rb = r.but(data=data)
    N = len(data[0][0])
    rr = A(r.st, r.bits, r.ch, r.rate, [np.empty(N, r.dtype) for _ in data])
    check_info(node, rr, what)
    for i in range(node.num_frames):
        for c, g in enumerate(frame_data(node, i, N, what)):
            lo, hi = data[c][0][i * FS:(i + 1) * FS], data[c][1][i * FS:(i + 1) * FS]
            bad = ~((g.astype(np.float64) >= lo) & (g.astype(np.float64) <= hi))
            if bad.any():
                x = int(np.argwhere(bad)[0][0])
                raise Violation(f'{what} {desc} channel {c} sample {i * FS + x}: got {g[x]!r} want [{lo[x]!r}, {hi[x]!r}] ({int(bad.sum())} differ)')
            rr.data[c][i * FS:i * FS + len(g)] = g
    return node, rr


def clipping(f, m, qs, err, desc, what):
    """Integer gain/mix: clipping is clamped and warned about once, or is an error of that frame."""
    data = [q[0] for q in qs]
    N = len(data[0][0])
    nfr = (N + FS - 1) // FS
    cl = [any(q[1][i * FS:(i + 1) * FS].any() for q in qs) for i in range(nfr)]
    mb = [any(q[2][i * FS:(i + 1) * FS].any() for q in qs) for i in range(nfr)]

    def go():
        msgs = []
        h = core().add_log_handler(lambda t, s: msgs.append(s))
        try:
            x = f()
            if err and any(mb):
                for i in range(nfr):
                    if cl[i]:
                        e = vsl.expect_error(lambda: x.get_frame(i), f'{what} {desc} frame {i} clips')
                        check('clipping' in e and str(i * FS) in e, what, desc, 'message', e)
                    elif not mb[i]:
                        x.get_frame(i).close()
                return None
            r = materialised(x, m, data, desc, what)
        finally:
            core().remove_log_handler(h)
        k = sum('clipping' in s for s in msgs)
        check(k <= 1 and (k == 1 or not any(cl)) and (k == 0 or any(mb)), what, desc, 'clipping warnings', k, 'clipped', any(cl))
        return r
    return go, 'self', desc


def run_chain(c):
    stack = []
    for b in c['bases']:
        m = make(b['fmt'], b['ch'], b['rate'], b['n'], b['kind'], b['seed'])
        stack.append((m.node(), m))
    done, labels = [], []
    for o in c['ops']:
        what = f'{o["op"]} after {done} on {[(b["fmt"], b["ch"], b["n"]) for b in c["bases"]]}'
        f, m, desc = step(o, stack, what)
        what = f'{desc} after {done} on {[(b["fmt"], b["ch"], b["n"]) for b in c["bases"]]}'
        if isinstance(m, A) and m.n > 60000:
            continue
        if desc.endswith(' materialised') or m == 'self':
            r = f()
            done.append(desc)
            labels.append(o['op'])
            if r is None:
                labels.append('clip error')
                continue
            stack.append(r)
            continue
        if m is None:
            try:
                x = f()
            except (vs.Error, ValueError, IndexError, TypeError):
                labels.append('refused')
                continue
            raise Violation(f'{what}: accepted, got {x!r}')
        x = f()
        done.append(desc)
        compare(x, m, what, order=o['r'] & 7)
        labels.append(o['op'])
        stack.append((x, m))
    return labels, any(l != 'refused' for l in labels)


# ---------------------------------------------------------------- BlankAudio
@st.composite
def s_blank(draw):
    o = {}
    def opt(k, s, p=1):
        if draw(st.integers(0, p)) == 0:
            o[k] = draw(s)
    opt('channels', st.one_of(st.lists(st.integers(0, 40), min_size=1, max_size=5, unique=True), st.lists(st.sampled_from([0, 1, 63, 64, -1, 2**32]), min_size=1, max_size=3)))
    opt('bits', st.one_of(st.integers(16, 32), st.sampled_from([16, 24, 32, 32, 15, 33, 8, 0, -1, 2**32 + 16])))
    opt('sampletype', st.sampled_from([0, 1, 1, 2]))
    opt('samplerate', st.one_of(st.sampled_from([44100, 48000, 1, 0, -1, 2**31 - 1, 2**33]), st.integers(1, 100000)))
    opt('length', st.one_of(LEN, st.sampled_from([0, -1, MAXS, MAXS + 1, I64, -I64 - 1])), 3 if draw(st.booleans()) else 0)
    opt('keep', st.integers(0, 1))
    opt('waveform', st.sampled_from(['none', 'slope', 'sine', 'square', 'triangle', 'slope', 'sine', 'square', 'triangle', '', 'Sine', 'sine\0']), 0 if draw(st.integers(0, 2)) else 5)
    opt('amplitude', st.sampled_from([1.0, 0.5, -1.0, 0.0, 2.0, 1e-6, 0.999, math.inf, math.nan]))
    opt('frequency', st.one_of(st.sampled_from([440.0, 0.0, 1.0, 11025.0, 22050.0, 44100.0, 44101.0, -440.0, 1e-3, math.inf, math.nan, 1e6]), st.floats(0.1, 30000)))
    clip = None
    if draw(st.booleans()):
        clip = dict(fmt=draw(FMT), ch=draw(CH), rate=draw(RATE), n=draw(LEN))
    return dict(o={k: (repr(v) if isinstance(v, float) else v) for k, v in o.items()}, clip=clip, order=draw(st.integers(0, 7)))


def wave(kind, t):
    if kind == 'slope':
        return 2 * t - 1
    if kind == 'sine':
        return np.sin(2 * np.pi * t)
    if kind == 'square':
        return np.where(t < 0.5, 1.0, -1.0)
    return np.where(t < 0.25, 4 * t, np.where(t < 0.75, 2 - 4 * t, 4 * t - 4))


def run_blank(c):
    o = {k: (float(v) if k in ('amplitude', 'frequency') else v) for k, v in c['o'].items()}
    d = dict(ch=[0, 1], bits=16, st=0, rate=44100, n=None)
    kw = dict(o)
    if c['clip']:
        q = c['clip']
        b = make(q['fmt'], q['ch'], q['rate'], q['n'], 'ramp', 1)
        kw['clip'] = b.node()
        d = dict(ch=b.ch, bits=b.bits, st=b.st, rate=b.rate, n=b.n)
    ok = True
    if 'channels' in o:
        d['ch'] = o['channels']
        ok = all(0 <= x < 64 for x in d['ch']) and len(set(d['ch'])) == len(d['ch'])
    i32 = lambda v: max(-2**31, min(2**31 - 1, v))
    if 'bits' in o:
        d['bits'] = i32(o['bits'])
    if 'sampletype' in o:
        d['st'] = int(bool(o['sampletype']))
    if 'samplerate' in o:
        d['rate'] = i32(o['samplerate'])
    d['n'] = o['length'] if 'length' in o else d['n'] if d['n'] is not None else d['rate'] * 10
    ok = ok and 16 <= d['bits'] <= 32 and (d['st'] == 0 or d['bits'] == 32) and d['rate'] > 0 and 0 < d['n'] <= MAXS
    wf = o.get('waveform', 'none')
    ok = ok and wf in ('none', 'slope', 'sine', 'square', 'triangle') and math.isfinite(o.get('amplitude', 1.0)) and math.isfinite(o.get('frequency', 440.0))
    what = f'BlankAudio {c}'
    f = lambda: core().std.BlankAudio(**kw)
    if not ok:
        vsl.expect_error(f, what)
        return ['refused'], True
    n = f()
    m = A(d['st'], d['bits'], sorted(d['ch']), d['rate'], [[]])
    check_info(n, m, what, d['n'])
    N = d['n']
    last = (N - 1) // FS
    ids = sorted({0, min(1, last), min(2, last), last, last // 2})
    if c['order'] & 1:
        ids.reverse()
    if c['order'] & 2:
        ids = ids + ids
    amp, fr_ = o.get('amplitude', 1.0), o.get('frequency', 440.0)
    cyc = fr_ / d['rate']
    frac = cyc - math.floor(cyc)
    from fractions import Fraction
    F_ = Fraction(frac)
    for i in ids:
        g = frame_data(n, i, N, what)
        L = len(g[0])
        for x in g[1:]:
            check(np.array_equal(raw(x), raw(g[0])), what, f'frame {i}: channels differ')
        if wf == 'none':
            check(not raw(g[0]).any(), what, f'frame {i} not silent')
            continue
        base = float((F_ * i * FS) % 1)
        t = (base + np.arange(L) * frac) % 1.0
        err = (i * FS + FS) * 2.0 ** -53 + 1e-9
        # discontinuities: skip samples whose phase is within the error of a jump
        jump = {'slope': [0, 1], 'square': [0, 0.5, 1]}.get(wf, [])
        near = np.zeros(L, bool)
        for j in jump:
            near |= np.abs(t - j) < err * 4
        v = amp * wave(wf, t)
        e = abs(amp) * err * 8
        got = g[0].astype(np.float64)
        if d['st'] == FLOAT:
            lo, hi = v - e - np.abs(v) * 2.0 ** -23, v + e + np.abs(v) * 2.0 ** -23
        else:
            sc = float(1 << (d['bits'] - 1))
            sh = float(1 << m.shift)
            rnd = lambda y: np.where(y >= 0, np.floor(y + 0.5), np.ceil(y - 0.5))
            lo = np.clip(rnd((v - e) * sc - 1e-9), -sc, sc - 1) * sh
            hi = np.clip(rnd((v + e) * sc + 1e-9), -sc, sc - 1) * sh
        bad = ~((got >= lo) & (got <= hi)) & ~near
        if frac == 0 and wf != 'none':
            # exact: the value at phase zero, held
            bad = ~((got >= lo) & (got <= hi)) if fr_ >= 0 else bad
        if bad.any():
            x = int(np.argwhere(bad)[0][0])
            raise Violation(f'{what}: sample {i * FS + x} got {g[0][x]!r} want [{lo[x]}, {hi[x]}] phase {t[x]} ({int(bad.sum())} bad)')
    return ['blank', wf], True


CHECKS = {
    'chain': Sub(s_chain(), run_chain, quick=16000, thorough=500000, batch=100),
    'blank': Sub(s_blank(), run_blank, quick=8000, thorough=250000, batch=100),
}
