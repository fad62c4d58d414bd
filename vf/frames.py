"""Histories of frames (C02, C05): histories of frame creation, copying, plane sharing and writes against a model holding independent copies."""
import ctypes as C
import numpy as np
from hypothesis import strategies as st
from vf.core import check
from vf import capi
from vf.capi import api, cstr

VF = [[1, 0, 8, 0, 0], [1, 0, 16, 0, 0], [1, 1, 32, 0, 0], [2, 0, 8, 0, 0], [3, 0, 8, 1, 1], [3, 0, 8, 0, 0], [3, 0, 10, 1, 0], [3, 1, 16, 0, 1], [3, 0, 32, 2, 2], [2, 1, 32, 0, 0], [3, 0, 8, 2, 0], [3, 0, 8, 4, 3]]
AF = [[0, 16, 1], [0, 32, 3], [1, 32, 0x3F], [0, 24, 0x700], [1, 32, 1 << 63 | 3], [0, 16, (1 << 12) - 1]]
DIMS = [(16, 8), (48, 16), (32, 8), (64, 24), (16, 16), (80, 8)]
LENS = [1, 7, 3072, 1536, 3071]
KEYS = ['a', 'b', '_Key', 'c1', 'zz']
ZERO = np.uint8(0)


@st.composite
def s_history(draw):
    pick = st.integers(0, 1 << 20)
    op = st.one_of(
        st.tuples(st.just('new'), pick, pick, pick), st.tuples(st.just('new2'), pick, pick, pick, st.lists(pick, min_size=6, max_size=6)), st.tuples(st.just('new2'), pick, pick, pick, st.lists(pick, min_size=6, max_size=6)),
        st.tuples(st.just('newa'), pick, pick, pick), st.tuples(st.just('newa2'), pick, pick, pick, st.lists(pick, min_size=6, max_size=6)), st.tuples(st.just('copy'), pick), st.tuples(st.just('copy'), pick), st.tuples(st.just('copy'), pick),
        st.tuples(st.just('write'), pick, pick, pick, st.booleans()), st.tuples(st.just('write'), pick, pick, pick, st.booleans()), st.tuples(st.just('write'), pick, pick, pick, st.booleans()),
        st.tuples(st.just('prop'), pick, pick, pick), st.tuples(st.just('prop'), pick, pick, pick), st.tuples(st.just('free'), pick), st.tuples(st.just('free'), pick), st.tuples(st.just('share'), pick, pick), st.tuples(st.just('fetch'), pick, pick), st.tuples(st.just('propcopy'), pick, pick), st.tuples(st.just('late'), pick, pick)).map(list)
    return dict(audio=draw(st.sampled_from([0, 0, 0, 1])), debug=draw(st.sampled_from([0, 0, 0, 1])), ops=draw(st.lists(op, min_size=6, max_size=40)))


class Frame:
    """Model of one handle: full samples of every plane and the properties."""
    def __init__(self, ptr, audio, fmt, w, h, planes, props):
        self.ptr, self.audio, self.fmt, self.w, self.h, self.planes, self.props, self.ro, self.refs = ptr, audio, fmt, w, h, planes, props, False, 1


class Run:
    def __init__(self, c):
        A = self.A = api()
        self.core = A.createCore(16 if c['debug'] else 0)
        self.frames = []
        self.salt = 0
        self.labels = set()

    def video_format(self, f):
        vf = capi.VideoFormat()
        check(self.A.queryVideoFormat(C.byref(vf), *f, self.core), 'queryVideoFormat', f)
        return vf

    def audio_format(self, f):
        af = capi.AudioFormat()
        check(self.A.queryAudioFormat(C.byref(af), f[0], f[1], f[2], self.core), 'queryAudioFormat', f)
        return af

    @staticmethod
    def dims(fmt, p, w, h):
        return (w, h) if not p else (w >> fmt.subSamplingW, h >> fmt.subSamplingH)

    def shape(self, F, p):
        if F.audio:
            return F.w * F.fmt.bytesPerSample, 1
        w, h = self.dims(F.fmt, p, F.w, F.h)
        return w * F.fmt.bytesPerSample, h

    def nplanes(self, F):
        return F.fmt.numChannels if F.audio else F.fmt.numPlanes

    def view(self, F, p, ptr):
        """Writable array of a whole plane including the padding of every row."""
        rb, h = self.shape(F, p)
        s = rb if F.audio else self.A.getStride(F.ptr, p)
        return np.ctypeslib.as_array(C.cast(ptr, C.POINTER(C.c_uint8)), (h, s))

    def read(self, F, p):
        rb, h = self.shape(F, p)
        return self.view(F, p, self.A.getReadPtr(F.ptr, p))[:, :rb]

    def write_all(self, F, p, padding=True):
        """Overwrite a plane with a fresh pattern, through a fresh write pointer, the padding included."""
        self.salt += 1
        a = self.view(F, p, self.A.getWritePtr(F.ptr, p))
        rb, h = self.shape(F, p)
        x = (np.arange(h * rb, dtype=np.uint32) * 7 + self.salt * 31 + p * 3).astype(np.uint8).reshape(h, rb)
        if padding:
            a[:] = np.uint8(self.salt * 5 & 255)
        a[:, :rb] = x
        F.planes[p] = x.copy()

    def read_props(self, m):
        A = self.A
        out = {}
        for i in range(A.mapNumKeys(m)):
            k = cstr(A.mapGetKey(m, i))
            t = A.mapGetType(m, k)
            v = []
            for j in range(A.mapNumElements(m, k)):
                if t == 1:
                    v.append(A.mapGetInt(m, k, j, None))
                elif t == 2:
                    v.append(A.mapGetFloat(m, k, j, None))
                elif t == 3:
                    v.append(C.string_at(A.mapGetData(m, k, j, None), A.mapGetDataSize(m, k, j, None)))
                else:
                    x = A.mapGetFrame(m, k, j, None)
                    A.freeFrame(x)
                    v.append(('frame', x))
            out[k.decode()] = v
        return out

    def fresh(self, F, what, need_disjoint=True):
        """Requested format and dimensions, aligned and disjoint planes."""
        A = self.A
        n = self.nplanes(F)
        check(A.getFrameType(F.ptr) == (2 if F.audio else 1), what, 'type')
        if F.audio:
            f = capi.AudioFormat.from_address(A.getAudioFrameFormat(F.ptr))
            check(f.t() == F.fmt.t(), what, 'format', f.t(), F.fmt.t())
            check(A.getFrameLength(F.ptr) == F.w, what, 'length')
        else:
            f = capi.VideoFormat.from_address(A.getVideoFrameFormat(F.ptr))
            check(f.t() == F.fmt.t(), what, 'format', f.t(), F.fmt.t())
            for p in range(n):
                check((A.getFrameWidth(F.ptr, p), A.getFrameHeight(F.ptr, p)) == self.dims(F.fmt, p, F.w, F.h), what, 'plane', p, 'size')
        for p in range(n):
            q = A.getReadPtr(F.ptr, p)
            check(q, what, 'plane', p, 'has no memory')
            if not F.audio or not p:
                check(q % 32 == 0, what, 'plane', p, 'is not aligned')
            if not F.audio:
                s = A.getStride(F.ptr, p)
                check(s % 32 == 0 and s >= self.shape(F, p)[0], what, 'plane', p, 'stride', s)
        for p in (-1, n, n + 1, 1 << 30):
            check(not A.getReadPtr(F.ptr, p), what, 'memory of plane', p)

    def extent(self, F, p, ptr):
        rb, h = self.shape(F, p)
        return ptr, ptr + (rb if F.audio else A_stride(self.A, F, p) * h)

    def verify(self, what):
        for i, F in enumerate(self.frames):
            for p in range(self.nplanes(F)):
                got = self.read(F, p)
                if F.planes[p] is not None and not np.array_equal(got, F.planes[p]):
                    y, x = np.argwhere(got != F.planes[p])[0]
                    check(False, what, f'frame {i} plane {p} byte ({y},{x}) is {got[y, x]}, not {F.planes[p][y, x]}')
            got = self.read_props(self.A.getFramePropertiesRO(F.ptr))
            check(got == F.props, what, f'frame {i} properties are', got, 'not', F.props)

    def add(self, F, what):
        self.fresh(F, what)
        for p in range(self.nplanes(F)):
            if F.planes[p] is None:
                self.write_all(F, p)
        # fully written planes may not overlap each other or any other frame
        self.frames.append(F)

    def pick(self, i, cond=lambda F: True):
        c = [F for F in self.frames if cond(F)]
        return c[i % len(c)] if c else None


def A_stride(A, F, p):
    return A.getStride(F.ptr, p)


def run_history(c, memory=False):
    r = Run(c)
    A, labels = r.A, r.labels
    ok = False
    try:
        for step, op in enumerate(c['ops']):
            what = f'step {step} {op[0]}:'
            if len(r.frames) > 12 and op[0] in ('new', 'new2', 'newa', 'newa2', 'copy'):
                op = ['free', step]
            if op[0] == 'new' and not c['audio']:
                fmt = r.video_format(VF[op[1] % len(VF)])
                w, h = DIMS[op[2] % len(DIMS)]
                src = r.pick(op[3]) if op[3] % 3 else None
                p = A.newVideoFrame(C.byref(fmt), w, h, src.ptr if src else None, r.core)
                r.add(Frame(p, False, fmt, w, h, [None] * fmt.numPlanes, dict(src.props) if src else {}), what)
                labels.add('new')
            elif op[0] == 'newa' or (op[0] == 'new' and c['audio']):
                fmt = r.audio_format(AF[op[1] % len(AF)])
                n = LENS[op[2] % len(LENS)]
                src = r.pick(op[3]) if op[3] % 3 else None
                p = A.newAudioFrame(C.byref(fmt), n, src.ptr if src else None, r.core)
                r.add(Frame(p, True, fmt, n, 1, [None] * fmt.numChannels, dict(src.props) if src else {}), what)
                labels.add('new audio')
            elif op[0] == 'new2' and not c['audio']:
                # the format and size of an existing frame or a random one, each plane taken from any frame whose plane fits
                base = r.pick(op[1], lambda F: not F.audio) if op[1] % 4 else None
                fmt = r.video_format(VF[op[1] % len(VF)]) if base is None or op[2] % 3 == 0 else base.fmt
                w, h = (base.w, base.h) if base is not None and op[2] % 5 else DIMS[op[2] % len(DIMS)]
                src = r.pick(op[3]) if op[3] % 3 else None
                ptrs, nums, data = [], [], []
                for p in range(fmt.numPlanes):
                    want = r.dims(fmt, p, w, h)
                    cand = [(F, q) for F in r.frames if not F.audio and F.fmt.bytesPerSample == fmt.bytesPerSample for q in range(F.fmt.numPlanes) if r.dims(F.fmt, q, F.w, F.h) == want]
                    if p and op[4][2 + p] % 3 == 0 and data[-1] is not None and r.dims(fmt, p - 1, w, h) == want:
                        ptrs.append(ptrs[-1])       # the same plane once more
                        nums.append(nums[-1])
                        data.append(data[-1].copy())
                    elif not cand or op[4][p] % 5 == 0:
                        ptrs.append(None)
                        nums.append([0, -1, 7][op[4][p] % 3])
                        data.append(None)
                    else:
                        F, q = cand[op[4][p] % len(cand)]
                        ptrs.append(F.ptr)
                        nums.append(q)
                        data.append(F.planes[q].copy())
                pa = (C.c_void_p * 3)(*ptrs)
                na = (C.c_int * 3)(*nums)
                p = A.newVideoFrame2(C.byref(fmt), w, h, C.cast(pa, C.c_void_p), C.cast(na, C.c_void_p), src.ptr if src else None, r.core)
                r.add(Frame(p, False, fmt, w, h, data, dict(src.props) if src else {}), what)
                labels.add('new2')
            elif op[0] in ('newa2', 'new2'):
                base = r.pick(op[1], lambda F: F.audio)
                fmt = r.audio_format(AF[op[1] % len(AF)]) if base is None or op[2] % 3 == 0 else base.fmt
                n = base.w if base is not None and op[2] % 5 else LENS[op[2] % len(LENS)]
                src = r.pick(op[3]) if op[3] % 3 else None
                ptrs, nums, data = [], [], []
                for p in range(fmt.numChannels):
                    cand = [(F, q) for F in r.frames if F.audio and F.fmt.bytesPerSample == fmt.bytesPerSample and F.w == n for q in range(F.fmt.numChannels)]
                    o = op[4][p % 6] + p
                    if not cand or o % 5 == 0:
                        ptrs.append(None)
                        nums.append([0, -1, 99][o % 3])
                        data.append(None)
                    else:
                        F, q = cand[o % len(cand)]
                        ptrs.append(F.ptr)
                        nums.append(q)
                        data.append(F.planes[q].copy())
                pa = (C.c_void_p * len(ptrs))(*ptrs)
                na = (C.c_int * len(nums))(*nums)
                p = A.newAudioFrame2(C.byref(fmt), n, C.cast(pa, C.c_void_p), C.cast(na, C.c_void_p), src.ptr if src else None, r.core)
                r.add(Frame(p, True, fmt, n, 1, data, dict(src.props) if src else {}), what)
                labels.add('new2 audio')
            elif op[0] == 'copy':
                F = r.pick(op[1])
                if F is None:
                    continue
                p = A.copyFrame(F.ptr, r.core)
                check(p != F.ptr, what, 'the copy is the frame itself')
                r.add(Frame(p, F.audio, F.fmt, F.w, F.h, [x.copy() for x in F.planes], dict(F.props)), what)
                labels.add('copy')
            elif op[0] == 'write':
                F = r.pick(op[1], lambda F: not F.ro)
                if F is None:
                    continue
                n = r.nplanes(F)
                if op[4]:
                    r.write_all(F, op[2] % n, padding=op[3] % 2 == 0)
                else:       # a single byte, through a pointer taken right before
                    p = op[2] % n
                    rb, h = r.shape(F, p)
                    y, x = op[3] % h, op[3] // h % rb
                    a = r.view(F, p, A.getWritePtr(F.ptr, p))
                    a[y, x] ^= 0x55
                    F.planes[p][y, x] ^= 0x55
                labels.add('write')
            elif op[0] == 'late':
                # a pointer fetched before another handle of the frame was made may be stale, a new one never is: all planes at once
                F = r.pick(op[1], lambda F: not F.ro)
                if F is None:
                    continue
                ptrs = [A.getWritePtr(F.ptr, p) for p in range(r.nplanes(F))]
                ext = sorted(r.extent(F, p, q) for p, q in enumerate(ptrs))
                check(all(a[1] <= b[0] for a, b in zip(ext, ext[1:])), what, 'planes of one frame overlap')
                for p, q in enumerate(ptrs):
                    check(A.getReadPtr(F.ptr, p) == q, what, 'read and write pointers differ')
                    rb, h = r.shape(F, p)
                    r.view(F, p, q)[:, :rb] ^= np.uint8(op[2] & 255)
                    F.planes[p] = F.planes[p] ^ np.uint8(op[2] & 255)
                labels.add('all planes')
            elif op[0] == 'prop':
                F = r.pick(op[1], lambda F: not F.ro)
                if F is None:
                    continue
                m = A.getFramePropertiesRW(F.ptr)
                k = KEYS[op[2] % len(KEYS)]
                kb = k.encode()
                how = op[3] % 7
                v = op[3]
                if how == 0:
                    A.mapSetInt(m, kb, v, 0)
                    F.props[k] = [v]
                elif how == 1:
                    d = str(v).encode() + b'\0x'
                    A.mapSetData(m, kb, d, len(d), -1, 0)
                    F.props[k] = [d]
                elif how == 2:
                    e = A.mapSetInt(m, kb, v, 1)
                    old = F.props.get(k)
                    if old is None or (old and isinstance(old[0], int)):
                        check(e == 0, what, 'append failed')
                        F.props[k] = (old or []) + [v]
                    else:
                        check(e != 0, what, 'append of another type succeeded')
                elif how == 3:
                    e = A.mapDeleteKey(m, kb)
                    check(bool(e) == (k in F.props), what, 'mapDeleteKey', e)
                    F.props.pop(k, None)
                elif how == 4:
                    A.clearMap(m)
                    F.props.clear()
                elif how == 5:
                    A.mapSetFloat(m, kb, v / 4, 0)
                    F.props[k] = [v / 4]
                else:
                    G = r.pick(v // 7, lambda G: G is not F)
                    if G is None:
                        continue
                    A.mapSetFrame(m, kb, G.ptr, 0)
                    F.props[k] = [('frame', G.ptr)]
                    G.ro = True
                labels.add('prop')
            elif op[0] == 'propcopy':
                F, G = r.pick(op[1], lambda F: not F.ro), r.pick(op[2])
                if F is None or F is G:
                    continue
                A.copyMap(A.getFramePropertiesRO(G.ptr), A.getFramePropertiesRW(F.ptr))
                F.props.update(G.props)
                labels.add('copyMap')
            elif op[0] == 'share':
                F = r.pick(op[1])
                if F is None:
                    continue
                p = A.addFrameRef(F.ptr)
                check(p == F.ptr, what, 'addFrameRef')
                F.refs += 1
                F.ro = True
                labels.add('ref')
            elif op[0] == 'fetch':
                # a frame kept alive only by a property map, read back and copied
                F = r.pick(op[1])
                if F is None:
                    continue
                m = A.createMap()
                A.mapSetFrame(m, b'f', F.ptr, 0)
                q = A.mapGetFrame(m, b'f', 0, None)
                A.freeMap(m)
                check(q == F.ptr, what, 'another frame came back')
                G = A.copyFrame(q, r.core)
                A.freeFrame(q)
                r.add(Frame(G, F.audio, F.fmt, F.w, F.h, [x.copy() for x in F.planes], dict(F.props)), what)
                labels.add('fetch')
            elif op[0] == 'free':
                F = r.pick(op[1])
                if F is None:
                    continue
                A.freeFrame(F.ptr)
                F.refs -= 1
                if not F.refs:
                    r.frames.remove(F)
                labels.add('free')
            r.verify(what)
        ok = True
    finally:
        for F in r.frames:
            for _ in range(F.refs):
                A.freeFrame(F.ptr)
        left = 0
        if memory:
            i = capi.CoreInfo2()
            A.getCoreInfo2(r.core, C.byref(i))
            left = i.usedFramebufferSize
        A.freeCore(r.core)
        if ok:
            check(not left, f'{left} bytes of frame memory in use after every frame was freed')
    return labels, 'write' in labels and bool(labels & {'copy', 'new2', 'new2 audio', 'fetch'})
