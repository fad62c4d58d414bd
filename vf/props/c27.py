"""C27 text filters: pixel-exact rendering model with an independent copy of the font; generated texts are read back from the picture."""
import re
import numpy as np
import vapoursynth as vs
from hypothesis import strategies as st
from vf.core import Sub, check, Violation
from vf import vsl
from vf.vsl import core, F, INT, FLOAT, GRAY, RGB, YUV
from vf.props import terminus

FONT = np.unpackbits(np.frombuffer(bytes.fromhex(terminus.HEX), np.uint8).reshape(251, 16, 1), axis=2).astype(bool)
MISSING = (129, 141, 143, 144, 157)
CW, CHH, M = 8, 16, 16


def glyph(code):
    if code < 32 or code in MISSING:
        code = ord('_')
    return FONT[code - sum(m < code for m in MISSING)]


def layout(text, w, h, scale):
    text = text.replace(b'\r\n', b'\n').replace(b'\r', b'\n')
    cap = (w - 2 * M) // CW // scale
    lines = []
    for l in text.split(b'\n'):
        lines.append(l[:cap])
        l = l[cap:]
        while l:
            lines.append(l[:cap])
            l = l[cap:]
    return lines[:(h - 2 * M) // CHH // scale]


def cells(text, w, h, align, scale):
    """(x, y, code) of every drawn character."""
    lines = layout(text, w, h, scale)
    th = len(lines) * CHH * scale
    y = {2: M, 1: (h - th) // 2, 0: h - th - M}[(align - 1) // 3]
    for l in lines:
        tw = len(l) * CW * scale
        x = [M, (w - tw) // 2, w - tw - M][(align - 1) % 3]
        for i, ch in enumerate(l):
            yield x + i * CW * scale, y, ch
        y += CHH * scale


def black_white(f):
    return (np.float64(0), np.float64(1)) if f.st == FLOAT else (16 << (f.bits - 8), 235 << (f.bits - 8))


def verify(frame, want, f, w, h, text, align, scale, what):
    got = vsl.planes(frame)
    black, white = black_white(f)
    cs = list(cells(text, w, h, align, scale))
    for x, y, _ in cs:
        check(x >= 0 and y >= 0 and x + CW * scale <= w and y + CHH * scale <= h, 'model', x, y)
    luma = range(f.planes) if f.cf == RGB else [0]
    for p in luma:
        m = want[p].copy()
        for x, y, ch in cs:
            g = np.repeat(np.repeat(glyph(ch), scale, 0), scale, 1)
            m[y:y + CHH * scale, x:x + CW * scale] = np.where(g, m.dtype.type(white), m.dtype.type(black))
        vsl.same_planes([got[p]], [m], f'{what} plane {p}')
    if f.cf == YUV:
        kx, ky = 1 << f.ssw, 1 << f.ssh
        neutral = 0 if f.st == FLOAT else 128 << (f.bits - 8)
        for p in (1, 2):
            src, g = want[p], got[p]
            touch = np.zeros(src.shape, bool)
            whole = np.zeros(src.shape, bool)
            for x, y, _ in cs:
                x1, y1 = x + CW * scale, y + CHH * scale
                touch[y // ky:-(-y1 // ky), x // kx:-(-x1 // kx)] = True
                whole[-(-y // ky):y1 // ky, -(-x // kx):x1 // kx] = True
            same = vsl.raw(g) == vsl.raw(src)
            neu = g == g.dtype.type(neutral)
            bad = (~touch & ~same) | (whole & ~neu) | (touch & ~whole & ~same & ~neu)
            if bad.any():
                yy, xx = np.argwhere(bad)[0]
                raise Violation(f'{what} plane {p} y={yy} x={xx}: got {g[yy, xx]!r} source {src[yy, xx]!r} ({"under a character" if whole[yy, xx] else "outside the text" if not touch[yy, xx] else "at its edge"})')


TEXT = st.one_of(st.binary(max_size=12), st.binary(max_size=120), st.text(alphabet='ab \n\rZ_~', max_size=60).map(lambda s: s.encode()), st.lists(st.sampled_from([b'\r\n', b'\n', b'\r', b'x', b'Hello', b'\x81', b'\x80\x9d\x9e\xff', b'\x8e', b'\x91', b'\t']), max_size=20).map(b''.join),
                st.lists(st.lists(st.sampled_from(['a', 'bc', 'Def', ' ', 'ghij', 'klmnopqr', '']), max_size=8).map(' '.join), min_size=2, max_size=6).map(lambda l: '\n'.join(l).encode()),
                st.just(bytes(range(1, 256)))).map(lambda b: b.replace(b'\0', b' '))


@st.composite
def s_text(draw):
    scale = draw(st.sampled_from([1, 1, 1, 2, 3, 5]))
    fmt = draw(vsl.s_format(maxss=3))
    f = F(*fmt)
    k = 1 << f.ssw
    mw, mh = 32 + 8 * scale, 32 + 16 * scale
    w = draw(st.one_of(st.integers(mw, mw + 12), st.integers(mw, mw + 120), st.integers(mw - 12, mw - 1) if draw(st.integers(0, 5)) == 0 else st.just(mw)))
    h = draw(st.one_of(st.integers(mh, mh + 12), st.integers(mh, mh + 60), st.integers(mh + 60, mh + 110), st.integers(mh - 12, mh - 1) if draw(st.integers(0, 5)) == 0 else st.just(mh)))
    w, h = -(-w // k) * k, -(-h // (1 << f.ssh)) * (1 << f.ssh)
    text = draw(TEXT)
    return dict(fmt=fmt, w=w, h=h, n=draw(st.integers(1, 2)), content=draw(vsl.s_content()), text=text.decode('latin1'), align=draw(st.one_of(st.none(), st.integers(1, 9), st.integers(1, 9))), scale=scale if scale > 1 or draw(st.booleans()) else None,
                second=draw(st.one_of(st.none(), st.none(), vsl.s_format(maxss=2))), num=draw(st.booleans()))


def run_text(c):
    f = F(*c['fmt'])
    m = vsl.make_clip(f, c['w'], c['h'], c['n'], c['content'], props=[dict(idx=i + 1) for i in range(c['n'])])
    parts = [m] * c['n']
    node = m.node()
    if c['second']:
        f2 = F(*c['second'])
        w2, h2 = -(-(c['w'] + 9) // 4) * 4, -(-(c['h'] // 2) // 4) * 4
        m2 = vsl.make_clip(f2, w2, h2, 1, c['content'], props=[dict(idx=9)])
        parts.append(m2)
        node = core().std.Splice([node, m2.node()], mismatch=True)
    text = c['text'].encode('latin1')
    align, scale = c['align'] or 7, c['scale'] or 1
    kw = {k: c[k] for k in ('scale',) if c[k] is not None}
    if c['align'] is not None:
        kw['alignment'] = c['align']
    what = f"{'FrameNum' if c['num'] else 'Text'} {f.t()} {c['w']}x{c['h']} {kw} {text!r}"
    out = core().text.FrameNum(node, **kw) if c['num'] else core().text.Text(node, text, **kw)
    check(out.num_frames == len(parts) and (out.width, out.height) == (node.width, node.height) and (out.format is None or out.format.id == node.format.id), what, 'video info', repr(out))
    labels = ['num' if c['num'] else 'text']
    drawn = False
    for i, mm in list(enumerate(parts))[::-1 if c['num'] else 1]:
        src = mm.frames[0] if mm is not m else m.frames[i]
        props = mm.props[0] if mm is not m else m.props[i]
        small = mm.w < 32 + 8 * scale or mm.h < 32 + 16 * scale
        try:
            fr = out.get_frame(i)
        except vs.Error as e:
            check(small and 'at least' in str(e), what, f'frame {i}', mm.w, mm.h, 'error', e)
            labels.append('small')
            continue
        check(not small, what, f'frame {i} of {mm.w}x{mm.h} was accepted although a character does not fit')
        check(dict(fr.props) == props, what, 'props', dict(fr.props), props)
        t = str(i).encode() if c['num'] else text
        verify(fr, src, mm.fmt, mm.w, mm.h, t, align, scale, f'{what} frame {i}')
        drawn = drawn or bool(layout(t, mm.w, mm.h, scale))
        fr.close()
        back = node.get_frame(i)
        vsl.same_planes(vsl.planes(back), src, f'{what}: the input clip\'s frame {i}')
    return labels + [f'align{align}'], True


# ---------------------------------------------------------------- generated texts
BY_GLYPH = {}
for _c in list(range(32, 256)):
    if _c not in MISSING:
        BY_GLYPH.setdefault(glyph(_c).tobytes(), chr(_c))
BY_GLYPH[glyph(ord(' ')).tobytes()] = ' '


def ocr(pl, bg, what):
    """Text lines drawn at top left on a constant background."""
    lines = []
    y = M
    h, w = pl.shape
    while y + CHH <= h:
        x, s = M, ''
        while x + CW <= w:
            cell = pl[y:y + CHH, x:x + CW]
            if (cell == bg).all():
                break
            check(((cell == 16) | (cell == 235)).all(), what, f'cell at {x},{y} is not a character')
            ch = BY_GLYPH.get((cell == 235).tobytes())
            check(ch is not None, what, f'no such glyph at {x},{y}')
            s += ch
            x += CW
        lines.append(s)
        y += CHH
    while lines and not lines[-1]:
        lines.pop()
    return lines


I64 = st.one_of(st.integers(-(2**63), 2**63 - 1), st.integers(-20, 20))
KEY = st.sampled_from(['a', 'b_1', '_Combed', 'Zed', 'x', 'Name'])
PROP = st.one_of(st.lists(I64, min_size=1, max_size=3).map(lambda v: ['i', v]), st.lists(st.one_of(st.floats(-1e9, 1e9), st.sampled_from([0.0, -0.5, 1e-7])), min_size=1, max_size=2).map(lambda v: ['f', v]),
                 st.lists(st.text(alphabet='abcXYZ 019-+', min_size=1, max_size=30), min_size=1, max_size=2).map(lambda v: ['s', v]), st.sampled_from([100, 101, 5000]).map(lambda n: ['s', ['q' * n]]), st.integers(1, 300).map(lambda n: ['b', n]),
                 st.integers(1, 3).map(lambda n: ['c', n]), st.just(['fn', 1]))
META = dict(_SARNum=I64, _SARDen=I64, _DurationNum=st.integers(0, 100000), _DurationDen=st.integers(1, 100000), _Matrix=st.integers(-1, 16), _Primaries=st.integers(-1, 23), _Transfer=st.integers(-1, 19), _Range=st.integers(-1, 3), _ChromaLocation=st.integers(-1, 7),
            _FieldBased=st.integers(-1, 3), _PictType=st.sampled_from(['I', 'P', 'B', 'xyz']))


@st.composite
def s_gen(draw):
    meta = {}
    for k, s in META.items():
        if draw(st.booleans()):
            meta[k] = draw(s)
    return dict(filter=draw(st.sampled_from(['props', 'props', 'clip', 'clip', 'core'])), props=draw(st.dictionaries(KEY, PROP, max_size=5)), sel=draw(st.one_of(st.none(), st.lists(st.one_of(KEY, st.just('missing')), min_size=1, max_size=4))), meta=meta,
                fmt=draw(vsl.s_format(ints=(8,), floats=())), w=8 * draw(st.integers(100, 180)), h=8 * draw(st.integers(60, 80)), n=draw(st.sampled_from([1, 2, 100, 2**31 - 1])), fps=draw(st.sampled_from([[24, 1], [30000, 1001], [0, 1], [1, 1000], [2**40 + 1, 3]])), frame=draw(st.integers(0, 3)), vary=draw(st.booleans()))


NAMES = dict(
    Matrix={0: 'sRGB', 1: 'BT.709', 4: 'FCC', 5: 'BT.601', 6: 'BT.601', 7: 'SMPTE 240M', 8: 'YCoCg', 9: 'BT.2020 NCL', 10: 'BT.2020 CL', 11: 'SMPTE 2085', 12: 'Chromaticity derived NCL', 13: 'Chromaticity derived CL', 14: 'ICtCp'},
    Primaries={1: 'BT.709', 4: 'BT.470M', 5: 'BT.470BG', 6: 'SMPTE ST 170', 7: 'SMPTE ST 240', 8: 'FILM', 9: 'BT.2020', 10: 'SMPTE ST 428-1', 11: 'SMPTE RP 431-2', 12: 'SMPTE EG 432-1', 22: 'JEDEC P22'},
    Transfer={1: 'BT.709', 4: 'Gamma 2.2', 5: 'Gamma 2.8', 6: 'SMPTE ST 170', 7: 'SMPTE ST 240', 8: 'Linear', 9: 'Logarithmic (100:1 range)', 10: 'Logarithmic (100 * Sqrt(10) : 1 range)', 11: 'IEC 61966-2-4', 12: 'BT.1361 Extended Colour Gamut', 13: 'IEC 61966-2-1', 14: 'BT.2020 for 10 bit system',
              15: 'BT.2020 for 12 bit system', 16: 'SMPTE ST 2084', 17: 'SMPTE ST 428-1', 18: 'ARIB STD-B67'},
    Range={0: 'Limited range', 1: 'Full range'},
    ChromaLocation={0: 'Left', 1: 'Center', 2: 'Top left', 3: 'Top', 4: 'Bottom left', 5: 'Bottom'},
    FieldBased={0: 'Frame based', 1: 'Bottom field first', 2: 'Top field first'})
LABEL = dict(Matrix='Matrix', Primaries='Primaries', Transfer='Transfer', Range='Range', ChromaLocation='Chroma Location', FieldBased='Field handling')


def run_gen(c):
    f = F(*c['fmt'])
    w, h = c['w'], c['h']
    bg = 100
    node = core().std.BlankClip(width=w, height=h, format=f.id, length=c['n'], color=[bg] * f.planes, fpsnum=c['fps'][0], fpsden=c['fps'][1])
    node = node.std.RemoveFrameProps()
    i = min(c['frame'], c['n'] - 1)
    if c['filter'] == 'core':
        out = core().text.CoreInfo(node)
        lines = ocr(vsl.planes(out.get_frame(i))[0], bg, 'CoreInfo')
        d = dict(l.split(': ', 1) for l in lines if ': ' in l)
        what = f'CoreInfo {lines}'
        check(d.get('Threads') == str(core().num_threads), what, 'threads', core().num_threads)
        check(abs(int(d.get('Maximum framebuffer cache size', '').split()[0]) / 2 ** 20 - core().max_cache_size) < 1, what, 'cache size', core().max_cache_size)
        check(re.fullmatch(r'\d+ bytes', d.get('Used framebuffer cache size', '')) is not None, what, 'used')
        check('VapourSynth' in lines[0], what, 'version line')
        return ['core'], True
    if c['filter'] == 'props':
        order = []
        expect = {}
        def setprops(n, f):
            o = f.copy()
            for k, (t, v) in c['props'].items():
                if t in 'ifs':
                    o.props[k] = v
                elif t == 'b':
                    o.props[k] = b'\x00\x01' * v
                elif t == 'c':
                    o.props[k] = [node] * v
                else:
                    o.props[k] = len
            return o
        src = node.std.ModifyFrame(node, setprops)
        for k, (t, v) in c['props'].items():
            expect[k] = {'i': lambda: ' '.join(map(str, v)), 'f': lambda: v, 's': lambda: v, 'b': lambda: f'<binary data ({v * 2} bytes)>', 'c': lambda: f'{v} video node' + ('s' if v != 1 else ''), 'fn': lambda: '1 function'}[t]()
        kw = dict(props=c['sel']) if c['sel'] else {}
        out = core().text.FrameProps(src, **kw)
        what = f"FrameProps {c['props']} {kw}"
        lines = ocr(vsl.planes(out.get_frame(i))[0], bg, what)
        check(lines[0] == 'Frame properties:', what, lines)
        want = c['sel'] or list(c['props'])
        cap = (w - 32) // 8
        got, last = [], 0
        for l in lines[1:]:
            if last == cap and not re.match(r'\w+:', l):
                got[-1] += l
            else:
                got.append(l)
            last = len(l)
        if c['sel'] is None:
            check(sorted(l.split(':')[0] for l in got) == sorted(want), what, 'listed', got)
            by = {l.split(':', 1)[0]: l.split(':', 1)[1].strip() for l in got}
            pairs = [(k, by[k]) for k in want]
        else:
            check(len(got) == len(want), what, 'listed', got)
            pairs = []
            for k, l in zip(want, got):
                check(l.split(':')[0] == k, what, 'line', l, 'for', k)
                pairs.append((k, l.split(':', 1)[1].strip()))
        for k, v in pairs:
            if k not in expect:
                check('no such property' in v, what, 'line for the missing', k, v)
                continue
            e, t = expect[k], c['props'][k][0]
            if t == 'f':
                g = [float(x) for x in v.split()]
                check(len(g) == len(e) and all(abs(a - b) <= 1e-6 + 1e-12 * abs(b) for a, b in zip(g, e)), what, k, v, 'want', e)
            elif t == 's':
                s = ' '.join(x if len(x) <= 100 else f'<property too long ({len(x)} bytes)>' for x in e).strip()
                check(v == s, what, k, repr(v), 'want', repr(s))
            else:
                check(v == e, what, k, repr(v), 'want', repr(e))
        return ['props'], bool(c['props'])
    meta = c['meta']
    src = node.std.SetFrameProps(**meta) if meta else node
    total = c['n']
    vary = c['vary'] and c['n'] <= 100
    if vary:
        other = core().std.BlankClip(width=w + 8, height=h, format=vs.RGB24 if f.cf != RGB else vs.GRAY8, length=1)
        src = core().std.Splice([src, other], mismatch=True)
        total += 1
    out = core().text.ClipInfo(src)
    what = f'ClipInfo {c}'
    lines = ocr(vsl.planes(out.get_frame(i))[0], bg, what)
    d = {}
    for l in lines[1:]:
        k, v = l.split(': ', 1)
        check(k not in d, what, 'duplicate line', l)
        d[k] = v
    def eq(k, v):
        check(d.get(k) == v, what, f'{k}: got {d.get(k)!r} want {v!r}')
    mv = ' (may vary)' if vary else ''
    eq('Width', f'{w} px{mv}')
    eq('Height', f'{h} px{mv}')
    eq('Length', f'{total} frames')
    eq('Color family', {GRAY: 'Gray', RGB: 'RGB', YUV: 'YUV'}[f.cf])
    eq('Sample type', 'Integer')
    eq('Bits per sample', '8')
    eq('Subsampling Height/Width', f'{1 << f.ssh}x/{1 << f.ssw}x')
    if not vary:
        eq('Format name', src.format.name)
    else:
        check(d.get('Format name', '').endswith('(may vary)'), what, 'format name', d.get('Format name'))
    eq('Sample aspect ratio', f"{meta['_SARNum']}:{meta['_SARDen']}" if '_SARNum' in meta and '_SARDen' in meta else 'Unknown')
    for k, t in NAMES.items():
        eq(LABEL[k], t.get(meta.get('_' + k, -1), 'Unknown'))
    eq('Picture type', meta.get('_PictType', 'Unknown'))
    def ratio(k, n, dn):
        m = re.fullmatch(r'(\d+)/(\d+) \((.*)\)', d.get(k, ''))
        check(m is not None and (int(m[1]), int(m[2])) == (n, dn) and abs(float(m[3]) - n / dn) <= 1e-6 + 1e-9 * n / dn, what, k, d.get(k), 'want', n, dn)
    fps = (src.fps.numerator, src.fps.denominator)
    if fps[0]:
        ratio('Fps', *fps)
    else:
        eq('Fps', 'Unknown')
    if '_DurationNum' in meta and '_DurationDen' in meta:
        ratio('Frame duration', meta['_DurationNum'], meta['_DurationDen'])
    else:
        eq('Frame duration', 'Unknown')
    return ['clipinfo'], True


# ---------------------------------------------------------------- arguments
@st.composite
def s_args(draw):
    return dict(fmt=draw(vsl.s_format(ints=(8, 9, 16, 17, 24, 32))), align=draw(st.sampled_from([None, 0, 1, 5, 9, 10, -1, 2**31, 2**32 + 1, -2**63])), scale=draw(st.sampled_from([None, 1, 0, -1, 7, 65536, 65537, 2**31, 2**32 + 1, 2**63 - 1])), filt=draw(st.sampled_from(['Text', 'FrameNum', 'ClipInfo', 'FrameProps', 'CoreInfo'])))


def run_args(c):
    f = F(*c['fmt'])
    kw = {}
    if c['align'] is not None:
        kw['alignment'] = c['align']
    if c['scale'] is not None:
        kw['scale'] = c['scale']
    if c['filt'] == 'Text':
        kw['text'] = 'q'
    ok = (f.st == FLOAT or f.bits <= 16) and 1 <= (c['align'] or 7 if c['align'] is None else c['align']) <= 9 and 1 <= (1 if c['scale'] is None else c['scale']) <= 65536
    node = core().std.BlankClip(width=256, height=256, format=f.id, length=1)
    what = f"{c['filt']} {f.t()} {kw}"
    fn = lambda: getattr(core().text, c['filt'])(node, **kw)
    if not ok:
        vsl.expect_error(fn, what)
        return ['refused'], True
    out = fn()
    s = c['scale'] or 1
    if 32 + 16 * s > 256:
        vsl.expect_error(lambda: out.get_frame(0), what)
    else:
        out.get_frame(0).close()
    return ['accepted'], True


CHECKS = {
    'text': Sub(s_text(), run_text, quick=8000, thorough=250000, batch=100),
    'gen': Sub(s_gen(), run_gen, quick=1500, thorough=40000, batch=30),
    'args': Sub(s_args(), run_args, quick=2000, thorough=20000, batch=50),
}
