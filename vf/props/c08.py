"""C08 format queries: C API, Python bindings and created clips against the documented rules."""
import ctypes as C, os
import numpy as np
import vapoursynth as vs
from hypothesis import strategies as st
from vf.core import Sub, check, Violation
from vf import capi, vsl
from vf.capi import api

UNDEF, GRAY, RGB, YUV = 0, 1, 2, 3
_s = {}


def ccore():
    if 'core' not in _s:
        _s['core'] = api().createCore(0)
        h = C.CDLL(os.path.join(os.environ['VF_OUT'], 'libvfhelpers.so'))
        h.h_isSameVideoPresetFormat.argtypes = [C.c_uint, C.c_void_p, C.c_void_p, C.c_void_p]
        _s['h'] = h
    return _s['core']


def valid(cf, s, b, w, h):
    """The documented rules for a defined video format."""
    if cf not in (GRAY, RGB, YUV) or s not in (0, 1):
        return False
    if not 8 <= b <= 32 or (s == 1 and b not in (16, 32)):
        return False
    if not (0 <= w <= 4 and 0 <= h <= 4):
        return False
    return cf == YUV or (w == 0 and h == 0)


def desc(cf, s, b, w, h):
    return (cf, s, b, 1 if b == 8 else 2 if b <= 16 else 4, w, h, 1 if cf == GRAY else 3)


def fid(cf, s, b, w, h):
    return cf << 28 | s << 24 | b << 16 | w << 8 | h


SS = {(1, 1): '420', (1, 0): '422', (0, 0): '444', (2, 2): '410', (2, 0): '411', (0, 1): '440'}


def name(cf, s, b, w, h):
    suf = {16: 'H', 32: 'S'}[b] if s else str(b * (3 if cf == RGB else 1))
    if cf == GRAY:
        return 'Gray' + suf
    if cf == RGB:
        return 'RGB' + suf
    return 'YUV' + (SS.get((w, h)) or f'ssw{w}ssh{h}') + 'P' + suf


def c_query(p):
    f = capi.VideoFormat(*([77] * 7))
    ok = api().queryVideoFormat(C.byref(f), *p, ccore())
    return bool(ok), f


def c_by_id(i):
    f = capi.VideoFormat(*([77] * 7))
    return bool(api().getVideoFormatByID(C.byref(f), i, ccore())), f


def c_name(f, audio=False):
    buf = C.create_string_buffer(b'\x55' * 64, 64)
    ok = (api().getAudioFormatName if audio else api().getVideoFormatName)(C.byref(f), C.addressof(buf))
    raw = buf.raw
    if not ok:
        return None
    check(raw[32:] == b'\x55' * 32, 'name wrote past 32 bytes', raw)
    check(b'\0' in raw[:32], 'name not terminated', raw)
    return raw.split(b'\0')[0].decode()


def py_fmt(fn):
    try:
        f = fn()
    except vs.Error as e:
        check(str(e), 'empty message')
        return None
    return f


def check_py(f, p, what):
    check((int(f.color_family), int(f.sample_type), f.bits_per_sample, f.bytes_per_sample, f.subsampling_w, f.subsampling_h, f.num_planes) == desc(*p), what, 'python format', repr(f))
    check(f.id == fid(*p) and int(f) == f.id and f.name == name(*p), what, 'python id or name', repr(f))


# ---------------------------------------------------------------- video
def s_params():
    anyint = st.one_of(st.integers(-2, 40), st.sampled_from([-2**31, 2**31 - 1, 255, 256, 257, 264, 65544]))
    good = st.one_of(st.tuples(st.just(YUV), st.just(0), st.integers(8, 32), st.integers(0, 4), st.integers(0, 4)),
                     st.tuples(st.sampled_from([GRAY, RGB]), st.just(0), st.integers(8, 32), st.just(0), st.just(0)),
                     st.tuples(st.sampled_from([GRAY, RGB]), st.just(1), st.sampled_from([16, 32]), st.just(0), st.just(0)),
                     st.tuples(st.just(YUV), st.just(1), st.sampled_from([16, 32]), st.integers(0, 4), st.integers(0, 4)))
    near = st.tuples(st.sampled_from([0, 1, 2, 3, 3, 3, 4, 9, 17, -1]), st.sampled_from([0, 0, 1, 1, 2, -1, 16]), st.one_of(st.integers(6, 34), st.sampled_from([0, 16, 32, 64, 264, 272])), st.integers(-1, 6), st.integers(-1, 6))
    mut = st.tuples(good, st.integers(0, 4), anyint).map(lambda t: tuple(t[2] if i == t[1] else v for i, v in enumerate(t[0])))
    return st.one_of(good, good, near, mut, st.tuples(anyint, anyint, anyint, anyint, anyint)).map(list)


@st.composite
def s_video(draw):
    return dict(p=draw(s_params()), q=draw(s_params()), rep=draw(st.tuples(st.sampled_from(['color_family', 'sample_type', 'bits_per_sample', 'subsampling_w', 'subsampling_h']), st.integers(-1, 34)).map(list)))


def run_video(c):
    A = api()
    core = ccore()
    pc = vsl.core()
    p, q = tuple(c['p']), tuple(c['q'])
    ids = []
    labels = set()
    for t in (p, q):
        ok, f = c_query(t)
        if t[0] == UNDEF:
            # undefined: lenient about the other parameters, but never a defined format and never an id
            if ok:
                check(f.t() == (0,) * 7, t, 'undefined format not all zero', f.t())
            else:
                check(t != (0, 0, 0, 0, 0), t, 'undefined format refused')
            check(A.queryVideoFormatID(*t, core) == 0, t, 'id of an undefined format')
            labels.add('undefined')
            continue
        check(ok == valid(*t), t, 'query', 'accepted' if ok else 'refused')
        i = A.queryVideoFormatID(*t, core)
        pf = py_fmt(lambda: pc.query_video_format(*t))
        if not ok:
            check(i == 0, t, 'invalid format has id', i)
            check(pf is None, t, 'python accepted an invalid format', pf)
            ff = capi.VideoFormat(t[0], t[1], t[2], 1 if t[2] <= 8 else 2 if t[2] <= 16 else 4, t[3], t[4], 1 if t[0] == GRAY else 3)
            check(c_name(ff) is None, t, 'name of an invalid format')
            labels.add('invalid')
            continue
        labels.add('valid')
        check(f.t() == desc(*t), t, 'description', f.t())
        check(i == fid(*t), t, 'id', hex(i))
        ok2, g = c_by_id(i)
        check(ok2 and g.t() == f.t(), t, 'by id', ok2, g.t())
        check(c_name(f) == name(*t), t, 'name', c_name(f))
        check_py(pf, t, t)
        check_py(pc.get_video_format(i), t, t)
        ids.append((i, t, name(*t), f, pf))
        # replace() changes exactly the named parameter
        k, v = c['rep']
        pos = ['color_family', 'sample_type', 'bits_per_sample', 'subsampling_w', 'subsampling_h'].index(k)
        r = tuple(v if j == pos else x for j, x in enumerate(t))
        rf = py_fmt(lambda: pf.replace(**{k: v}))
        if r[0] != UNDEF:
            check((rf is not None) == valid(*r), t, 'replace', k, v, rf)
            if rf is not None:
                check_py(rf, r, (t, k, v))
    if len(ids) == 2:
        (i, t, n, f, pf), (j, u, m, g, pg) = ids
        check((i == j) == (t == u) and (n == m) == (t == u), t, u, 'ids or names coincide', i, j, n, m)
        check((pf == pg) == (t == u) and (t != u or hash(pf) == hash(pg)), t, u, 'python equality')
        h = _s['h']
        check(bool(h.h_isSameVideoFormat(C.byref(f), C.byref(g))) == (t == u), t, u, 'isSameVideoFormat')
        check(bool(h.h_isSameVideoPresetFormat(i, C.byref(g), core, A._addr)) == (t == u), t, u, 'isSameVideoPresetFormat')
    return labels, bool(labels - {'undefined'})


# ---------------------------------------------------------------- ids
V3 = {}
for _i, _t in enumerate([(GRAY, 0, 8, 0, 0), (GRAY, 0, 16, 0, 0), (GRAY, 1, 16, 0, 0), (GRAY, 1, 32, 0, 0)]):
    V3[1000010 + _i] = _t
for _i, _t in enumerate([(8, 1, 1), (8, 1, 0), (8, 0, 0), (8, 2, 2), (8, 2, 0), (8, 0, 1), (9, 1, 1), (9, 1, 0), (9, 0, 0), (10, 1, 1), (10, 1, 0), (10, 0, 0), (16, 1, 1), (16, 1, 0), (16, 0, 0),
                         'H', 'S', (12, 1, 1), (12, 1, 0), (12, 0, 0), (14, 1, 1), (14, 1, 0), (14, 0, 0)]):
    V3[3000010 + _i] = (YUV, 1, {'H': 16, 'S': 32}[_t], 0, 0) if isinstance(_t, str) else (YUV, 0) + _t
for _i, _t in enumerate([(0, 8), (0, 9), (0, 10), (0, 16), (1, 16), (1, 32)]):
    V3[2000010 + _i] = (RGB,) + _t + (0, 0)


@st.composite
def s_ids(draw):
    near = st.tuples(st.integers(0, 15), st.integers(0, 15), st.integers(0, 255), st.integers(0, 255), st.integers(0, 255)).map(lambda t: fid(*t))
    close = st.tuples(st.integers(1, 3), st.integers(0, 2), st.integers(7, 33), st.integers(0, 5), st.integers(0, 5)).map(lambda t: fid(*t))
    return draw(st.lists(st.one_of(close, close, near, st.integers(0, 2**32 - 1), st.sampled_from(sorted(V3)), st.integers(1, 999999), st.integers(9500000, 2**24 - 1), st.sampled_from([0, 9000010, 9000011, 2**32 - 1, 2**31])), min_size=1, max_size=12))


def run_ids(c):
    pc = vsl.core()
    labels = set()
    for i in c:
        ok, f = c_by_id(i)
        pf = py_fmt(lambda: pc.get_video_format(i))
        t = V3.get(i) if i < 2**24 else (i >> 28, (i >> 24) & 15, (i >> 16) & 255, (i >> 8) & 255, i & 255)
        if i == 0:
            check(ok and f.t() == (0,) * 7 and pf is not None and pf.id == 0, 'pfNone', ok, f.t())
            labels.add('none')
        elif t is None or not valid(*t):
            check(not ok and pf is None, 'id', i, hex(i), 'accepted as', f.t(), pf)
            labels.add('invalid')
        else:
            check(ok and f.t() == desc(*t), 'id', hex(i), ok, f.t(), 'want', t)
            check_py(pf, t, i)
            labels.add('api3' if i < 2**24 else 'valid')
    return labels, True


# ---------------------------------------------------------------- audio
@st.composite
def s_audio(draw):
    layout = st.one_of(st.integers(0, 2**64 - 1), st.integers(0, 255), st.sampled_from([0, 1, 3, 2**63, 2**64 - 1, 2**32]), st.sets(st.integers(0, 35), min_size=1, max_size=10).map(lambda s: sum(1 << x for x in s)))
    one = st.tuples(st.sampled_from([0, 0, 0, 1, 1, 2, -1, 16]), st.one_of(st.integers(16, 32), st.sampled_from([15, 33, 0, -1, 8, 64, 32, 32, 256 + 16])), layout).map(list)
    return dict(p=draw(one), q=draw(one))


def run_audio(c):
    A = api()
    core = ccore()
    labels = set()
    fs = []
    for s, b, lay in (c['p'], c['q']):
        f = capi.AudioFormat(77, 77, 77, 77, 77)
        ok = bool(A.queryAudioFormat(C.byref(f), s, b, lay, core))
        want = s in (0, 1) and 16 <= b <= 32 and (s == 0 or b == 32) and lay != 0
        check(ok == want, (s, b, hex(lay)), 'query', ok)
        if not ok:
            labels.add('invalid')
            continue
        n = bin(lay).count('1')
        check(f.t() == (s, b, 2 if b == 16 else 4, n, lay), (s, b, hex(lay)), f.t())
        check(c_name(f, True) == f'Audio{b}{"F" if s else ""} ({n} CH)', 'name', c_name(f, True))
        fs.append(f)
        labels.add('valid')
    if len(fs) == 2:
        check(bool(_s['h'].h_isSameAudioFormat(C.byref(fs[0]), C.byref(fs[1]))) == (c['p'] == c['q']), c, 'isSameAudioFormat')
    return labels, True


# ---------------------------------------------------------------- clips and frames
@st.composite
def s_clips(draw):
    p = draw(s_params().filter(lambda t: valid(*t) or draw(st.integers(0, 9)) == 0))
    return dict(p=p, w=draw(st.integers(1, 40)) << 4, h=draw(st.integers(1, 12)) << 4, n=draw(st.integers(1, 3)),
                lay=sorted(draw(st.sets(st.integers(0, 22).filter(lambda x: x != 0 or True), min_size=1, max_size=8))), ab=draw(st.sampled_from([16, 17, 20, 24, 31, 32, 32, 15, 33])), ast=draw(st.integers(0, 1)),
                rate=draw(st.integers(1, 200000)), samples=draw(st.integers(1, 8000)))


def run_clips(c):
    pc = vsl.core()
    A = api()
    core = ccore()
    t = tuple(c['p'])
    labels = set()
    if valid(*t):
        n = pc.std.BlankClip(format=fid(*t), width=c['w'], height=c['h'], length=c['n'])
        check_py(n.format, t, c)
        f = n.get_frame(c['n'] - 1)
        check_py(f.format, t, c)
        check((f.width, f.height) == (n.width, n.height) == (c['w'], c['h']), 'size', f)
        check(len(f) == desc(*t)[6], 'planes', len(f))
        nbytes = desc(*t)[3]
        for pl in range(len(f)):
            a = np.asarray(f[pl])
            w, h = (c['w'] >> t[3], c['h'] >> t[4]) if pl else (c['w'], c['h'])
            check(a.shape == (h, w) and a.dtype.itemsize == nbytes, c, 'plane', pl, a.shape, a.dtype)
        f.close()
        g = pc.create_video_frame(fid(*t), c['w'], c['h'])
        check_py(g.format, t, c)
        # the same format through the C API: planes, sizes and format of a fresh frame
        ok, vf = c_query(t)
        fr = A.newVideoFrame(C.byref(vf), c['w'], c['h'], None, core)
        ff = C.cast(A.getVideoFrameFormat(fr), C.POINTER(capi.VideoFormat)).contents
        check(ff.t() == desc(*t), c, 'frame format', ff.t())
        for pl in range(desc(*t)[6]):
            w, h = (c['w'] >> t[3], c['h'] >> t[4]) if pl else (c['w'], c['h'])
            check((A.getFrameWidth(fr, pl), A.getFrameHeight(fr, pl)) == (w, h) and A.getStride(fr, pl) >= w * nbytes, c, 'plane', pl)
        A.freeFrame(fr)
        labels.add('video')
    else:
        if t[0] != UNDEF and all(0 <= x < 256 for x in t[2:]) and 0 <= t[0] < 16 and 0 <= t[1] < 16:
            vsl.expect_error(lambda: pc.std.BlankClip(format=fid(*t)), f'{c} BlankClip')
            if fid(*t) < 2**31:
                vsl.expect_error(lambda: pc.create_video_frame(fid(*t), 16, 16), f'{c} create_video_frame')
            labels.add('refused')
    ok = 16 <= c['ab'] <= 32 and (not c['ast'] or c['ab'] == 32)
    mk = lambda: pc.std.BlankAudio(channels=c['lay'], bits=c['ab'], sampletype=c['ast'], samplerate=c['rate'], length=c['samples'])
    if not ok:
        vsl.expect_error(mk, f'{c} BlankAudio')
        return labels | {'audio-refused'}, True
    a = mk()
    lay = sum(1 << x for x in c['lay'])
    check((int(a.sample_type), a.bits_per_sample, a.bytes_per_sample, a.channel_layout, a.num_channels, a.sample_rate, a.num_samples, a.num_frames) ==
          (c['ast'], c['ab'], 2 if c['ab'] == 16 else 4, lay, len(c['lay']), c['rate'], c['samples'], (c['samples'] + 3071) // 3072), c, 'audio', a)
    last = a.num_frames - 1
    f = a.get_frame(last)
    check(len(f) == len(c['lay']) and (int(f.sample_type), f.bits_per_sample, f.bytes_per_sample, f.channel_layout, f.num_channels) == (c['ast'], c['ab'], 2 if c['ab'] == 16 else 4, lay, len(c['lay'])), c, 'audio frame', f)
    for ch in range(len(f)):
        x = np.asarray(f[ch])
        check(x.size == c['samples'] - last * 3072 and x.dtype.itemsize == f.bytes_per_sample, c, 'channel', ch, x.shape)
    return labels | {'audio'}, True


# ---------------------------------------------------------------- named presets and comparison helpers
PRESETS = {f'GRAY{b}': (GRAY, 0, b, 0, 0) for b in (8, 9, 10, 12, 14, 16, 32)}
PRESETS.update(GRAYH=(GRAY, 1, 16, 0, 0), GRAYS=(GRAY, 1, 32, 0, 0), RGBH=(RGB, 1, 16, 0, 0), RGBS=(RGB, 1, 32, 0, 0))
PRESETS.update({f'RGB{3 * b}': (RGB, 0, b, 0, 0) for b in (8, 9, 10, 12, 14, 16)})
for (_w, _h), _n in SS.items():
    for _b in (8, 9, 10, 12, 14, 16):
        PRESETS[f'YUV{_n}P{_b}'] = (YUV, 0, _b, _w, _h)
    PRESETS[f'YUV{_n}PH'], PRESETS[f'YUV{_n}PS'] = (YUV, 1, 16, _w, _h), (YUV, 1, 32, _w, _h)


@st.composite
def s_infos(draw):
    one = st.fixed_dictionaries(dict(p=s_params().filter(lambda t: valid(*t)), w=st.integers(0, 3), h=st.integers(0, 3), rate=st.integers(1, 3), lay=st.integers(1, 4), b=st.sampled_from([16, 32]), s=st.integers(0, 1)))
    return dict(a=draw(one), b=draw(st.one_of(one, st.just(None))), undef=draw(st.booleans()), preset=draw(st.sampled_from(sorted(PRESETS))))


def run_infos(c):
    core = ccore()
    h = _s['h']
    pid = getattr(vs, c['preset'], None)
    if pid is not None:
        t = PRESETS[c['preset']]
        check(int(pid) == fid(*t), c['preset'], hex(int(pid)))
        check_py(vsl.core().get_video_format(pid), t, c['preset'])
    a, b = c['a'], c['b'] or c['a']
    vis, ais = [], []
    for k, x in enumerate((a, b)):
        ok, f = c_query(tuple(x['p']))
        if k == 0 and c['undef']:
            f = capi.VideoFormat()
        vis.append(capi.VideoInfo(f, k, 1, x['w'], x['h'], k + 1))
        af = capi.AudioFormat()
        check(api().queryAudioFormat(C.byref(af), x['s'] if x['b'] == 32 else 0, x['b'], x['lay'], core), 'audio')
        ais.append(capi.AudioInfo(af, x['rate'], k + 1, 1))
    const = not c['undef'] and a['w'] > 0 and a['h'] > 0
    check(bool(h.h_isConstantVideoFormat(C.byref(vis[0]))) == const, c, 'isConstantVideoFormat')
    same = (not c['undef'] and a['p'] == b['p']) and (a['w'], a['h']) == (b['w'], b['h'])
    check(bool(h.h_isSameVideoInfo(C.byref(vis[0]), C.byref(vis[1]))) == same, c, 'isSameVideoInfo')
    check(bool(h.h_isSameVideoInfo(C.byref(vis[0]), C.byref(vis[0]))), c, 'isSameVideoInfo reflexive')
    sa = ais[0].format.t() == ais[1].format.t() and a['rate'] == b['rate']
    check(bool(h.h_isSameAudioInfo(C.byref(ais[0]), C.byref(ais[1]))) == sa, c, 'isSameAudioInfo')
    return {'same' if same else 'differ', 'preset' if pid is not None else 'nopreset'}, True


CHECKS = dict(video=Sub(s_video(), run_video, quick=14000, thorough=400000, batch=500), ids=Sub(s_ids(), run_ids, quick=8000, thorough=200000, batch=400),
              audio=Sub(s_audio(), run_audio, quick=8000, thorough=200000, batch=400), clips=Sub(s_clips(), run_clips, quick=4000, thorough=60000, batch=200),
              infos=Sub(s_infos(), run_infos, quick=4000, thorough=60000, batch=200))
