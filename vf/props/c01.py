"""C01 property maps through the C API: random operation histories over maps and frame properties against a dict model."""
import ctypes as C, math, struct, threading
from hypothesis import strategies as st
from vf.core import Sub, check, Violation
from vf import capi
from vf.capi import api, cstr

UNSET, INT, FLOAT, DATA, FUNC, VNODE, ANODE, VFRAME, AFRAME = range(9)
SUCCESS, E_UNSET, E_TYPE, E_ERROR, E_INDEX = 0, 1, 2, 3, 4
NMAP, NFR = 4, 3
KEYS = ['a', 'b', '_c', 'Key_9', '_Matrix', 'z' * 80]
BAD = ['', '9a', 'a-b', 'a b', 'é', 'a.b', ' a', 'a\n', '-', 'a[]', 'a:b', '\x7f', '@']
_env = None


class Env:
    def __init__(self):
        A = api()
        self.core = A.createCore(0)
        std = A.getPluginByID(b'com.vapoursynth.std', self.core)
        self.fmt = capi.VideoFormat()
        check(A.queryVideoFormat(C.byref(self.fmt), 1, 0, 8, 0, 0, self.core), 'gray8')
        m = A.createMap()
        r = A.invoke(std, b'BlankAudio', m)
        err = C.c_int()
        n = A.mapGetNode(r, b'clip', 0, C.byref(err))
        self.aframe = A.getFrame(0, n, None, 0)
        check(self.aframe, 'audio frame')
        self.anode = n
        A.freeMap(r)
        A.freeMap(m)
        self.freed = {}
        self.gf = capi.GETFRAME(lambda n, r, d, fd, ctx, core, vsapi: None)
        self.ff = capi.FREEFILTER(lambda d, core, vsapi: self.count(d))
        self.fn = capi.PUBLIC(lambda i, o, d, core, vsapi: None)
        self.fd = capi.FREEDATA(lambda d: self.count(d))
        self.next = 1

    def count(self, d):
        self.freed[d] = self.freed.get(d, 0) + 1

    def used(self):
        i = capi.CoreInfo2()
        api().getCoreInfo2(self.core, C.byref(i))
        return i.usedFramebufferSize


def env():
    global _env
    if _env is None:
        _env = Env()
    return _env


class World:
    """Objects of one case and the model of every slot: dict key -> (type, [values]) or an error message."""
    def __init__(self):
        A, e = api(), env()
        self.A, self.e = A, e
        self.base = e.used()
        self.ids = []
        self.obj = {}
        vi = capi.VideoInfo(e.fmt, 24, 1, 16, 16, 5)
        for i in range(2):
            self.obj['vn', i] = A.createVideoFilter2(b'x', C.byref(vi), e.gf, e.ff, 0, None, 0, self.newid(), e.core)
            self.obj['vf', i] = A.newVideoFrame(C.byref(e.fmt), 8 + i, 8, None, e.core)
            af = A.getAudioFrameFormat(e.aframe)
            self.obj['af', i] = A.newAudioFrame(af, 100 + i, None, e.core)
            ai = capi.AudioInfo(C.cast(af, C.POINTER(capi.AudioFormat)).contents, 44100, 10000, 4)
            self.obj['an', i] = A.createAudioFilter2(b'x', C.byref(ai), e.gf, e.ff, 0, None, 0, self.newid(), e.core)
            self.obj['fn', i] = A.createFunction(e.fn, self.newid(), e.fd, e.core)
        for k, v in self.obj.items():
            check(v, 'could not create', k)
        self.maps = [A.createMap() for _ in range(NMAP)]
        self.frames = [A.newVideoFrame(C.byref(e.fmt), 4, 4, None, e.core) for _ in range(NFR)]
        self.model = [{} for _ in range(NMAP + NFR)]
        self.errors = [None] * (NMAP + NFR)

    def newid(self):
        e = self.e
        e.next += 1
        self.ids.append(e.next)
        return e.next

    def ptr(self, s, rw=True):
        if s < NMAP:
            return self.maps[s]
        f = self.frames[s - NMAP]
        return self.A.getFramePropertiesRW(f) if rw else self.A.getFramePropertiesRO(f)

    REF = dict(vn=(VNODE, 'mapSetNode', 'mapConsumeNode', 'addNodeRef'), an=(ANODE, 'mapSetNode', 'mapConsumeNode', 'addNodeRef'),
               vf=(VFRAME, 'mapSetFrame', 'mapConsumeFrame', 'addFrameRef'), af=(AFRAME, 'mapSetFrame', 'mapConsumeFrame', 'addFrameRef'),
               fn=(FUNC, 'mapSetFunction', 'mapConsumeFunction', 'addFunctionRef'))

    def put(self, s, key, t, v, append, rc, what):
        """Model of a setter with maReplace 0 / maAppend 1; rc is what the call returned."""
        ok = key not in BAD
        d = self.model[s]
        if ok and append and key in d and d[key][0] != t:
            ok = False
        check((rc == 0) == ok, what, 'returned', rc, 'expected', 'success' if ok else 'failure')
        if ok:
            if append and key in d:
                d[key] = (t, d[key][1] + [v])
            else:
                d[key] = (t, [v])
        return 'set' if ok else 'refused'

    def step(self, op):
        A, e = self.A, self.e
        k = op[0]
        if k in ('int', 'float', 'data', 'ref', 'ints', 'floats', 'empty', 'del'):
            s, key = op[1], op[2]
            if self.errors[s] is not None:
                return 'skipped'
            p, bk = self.ptr(s), key.encode()
        if k == 'int':
            return self.put(s, key, INT, op[3], op[4], A.mapSetInt(p, bk, op[3], op[4]), op)
        if k == 'float':
            v = unfl(op[3])
            return self.put(s, key, FLOAT, v, op[4], A.mapSetFloat(p, bk, v, op[4]), op)
        if k == 'data':
            b = bytes.fromhex(op[3])
            full = b
            if op[4]:
                b = b.split(b'\0')[0]
            return self.put(s, key, DATA, (b, op[5]), op[6], A.mapSetData(p, bk, full, -1 if op[4] else len(full), op[5], op[6]), op)
        if k == 'ref':
            t, setter, cons, addref = self.REF[op[3]]
            o = self.obj[op[3], op[4]]
            if op[6]:
                getattr(A, addref)(o)
                rc = getattr(A, cons)(p, bk, o, op[5])
            else:
                rc = getattr(A, setter)(p, bk, o, op[5])
            return self.put(s, key, t, o, op[5], rc, op)
        if k in ('ints', 'floats'):
            vals = op[3] if k == 'ints' else [unfl(x) for x in op[3]]
            arr = ((C.c_int64 if k == 'ints' else C.c_double) * max(1, len(vals)))(*vals)
            rc = (A.mapSetIntArray if k == 'ints' else A.mapSetFloatArray)(p, bk, C.addressof(arr), len(vals))
            ok = key not in BAD
            check((rc == 0) == ok, op, 'returned', rc)
            if ok:
                self.model[s][key] = (INT if k == 'ints' else FLOAT, list(vals))
            return 'array' if ok else 'refused'
        if k == 'empty':
            rc = A.mapSetEmpty(p, bk, op[3])
            ok = key not in BAD and key not in self.model[s] and op[3] in range(1, 9)
            check((rc == 0) == ok, op, 'returned', rc)
            if ok:
                self.model[s][key] = (op[3], [])
            return 'empty' if ok else 'refused'
        if k == 'del':
            rc = A.mapDeleteKey(p, bk)
            check(bool(rc) == (key in self.model[s]), op, 'returned', rc)
            self.model[s].pop(key, None)
            return 'del'
        if k == 'clear':
            A.clearMap(self.ptr(op[1]))
            self.model[op[1]], self.errors[op[1]] = {}, None
            return 'clear'
        if k == 'error':
            s = op[1]
            A.mapSetError(self.ptr(s), op[2].encode())
            self.errors[s], self.model[s] = op[2], {}
            return 'error'
        if k == 'copy':
            a, b = op[1], op[2]
            if self.errors[a] is not None or self.errors[b] is not None:
                return 'skipped'
            A.copyMap(self.ptr(a, False), self.ptr(b))
            self.model[b] = {**self.model[b], **self.model[a]}
            return 'copy' if a != b else 'selfcopy'
        if k == 'new':
            A.freeMap(self.maps[op[1]])
            self.maps[op[1]] = A.createMap()
            self.model[op[1]], self.errors[op[1]] = {}, None
            return 'new'
        if k in ('fcopy', 'fnew'):
            a, b = op[1], op[2]
            src = self.frames[a]
            if k == 'fcopy':
                n = A.copyFrame(src, e.core)
            elif op[3] == 0:
                n = A.newVideoFrame(C.byref(e.fmt), 6, 2, src, e.core)
            elif op[3] == 1:
                ps = (C.c_void_p * 1)(self.frames[b])
                n = A.newVideoFrame2(C.byref(e.fmt), A.getFrameWidth(self.frames[b], 0), A.getFrameHeight(self.frames[b], 0), ps, (C.c_int * 1)(0), src, e.core)
            else:
                n = A.newAudioFrame(A.getAudioFrameFormat(e.aframe), 50, src, e.core)
                # audio frames only take part as property carriers: copy the result back to a video frame
                n2 = A.newVideoFrame(C.byref(e.fmt), 6, 2, n, e.core)
                A.freeFrame(n)
                n = n2
            check(n, op, 'no frame')
            m = dict(self.model[NMAP + a])
            A.freeFrame(self.frames[b])
            self.frames[b] = n
            self.model[NMAP + b] = m
            return k
        raise AssertionError(op)

    GET = {INT: 'mapGetInt', FLOAT: 'mapGetFloat', DATA: 'mapGetData', VNODE: 'mapGetNode', ANODE: 'mapGetNode', VFRAME: 'mapGetFrame', AFRAME: 'mapGetFrame', FUNC: 'mapGetFunction'}
    FREE = {'mapGetNode': 'freeNode', 'mapGetFrame': 'freeFrame', 'mapGetFunction': 'freeFunction'}
    GETTERS = ['mapGetInt', 'mapGetIntSaturated', 'mapGetFloat', 'mapGetFloatSaturated', 'mapGetData', 'mapGetDataSize', 'mapGetDataTypeHint', 'mapGetNode', 'mapGetFrame', 'mapGetFunction']
    TYPES = {'mapGetInt': (INT,), 'mapGetIntSaturated': (INT,), 'mapGetFloat': (FLOAT,), 'mapGetFloatSaturated': (FLOAT,), 'mapGetData': (DATA,), 'mapGetDataSize': (DATA,),
             'mapGetDataTypeHint': (DATA,), 'mapGetNode': (VNODE, ANODE), 'mapGetFrame': (VFRAME, AFRAME), 'mapGetFunction': (FUNC,)}

    def read_fails(self, p, key, idx, code, what, getters=None):
        A = self.A
        err = C.c_int(77)
        for g in getters or self.GETTERS:
            err.value = 77
            r = getattr(A, g)(p, key, idx, C.byref(err))
            check(err.value == code, what, g, key, idx, 'error', err.value, 'want', code)
            if g not in ('mapGetDataSize', 'mapGetDataTypeHint'):
                check(not r, what, g, key, 'returned', r, 'with error')
        for g in ('mapGetIntArray', 'mapGetFloatArray') if getters is None and idx == 0 else ():
            err.value = 77
            r = getattr(A, g)(p, key, C.byref(err))
            check(err.value == code and not r, what, g, key, err.value, r)

    def verify(self, s, what):
        A = self.A
        p = self.ptr(s, False)
        err = C.c_int()
        if self.errors[s] is not None:
            check(cstr(A.mapGetError(p)) == self.errors[s].encode(), what, 'error message', cstr(A.mapGetError(p)))
            for key in (b'a', b'_c', b'nokey'):
                self.read_fails(p, key, 0, E_ERROR, what)
            return
        d = self.model[s]
        check(not A.mapGetError(p), what, 'unexpected error', cstr(A.mapGetError(p)))
        n = A.mapNumKeys(p)
        keys = [cstr(A.mapGetKey(p, i)).decode() for i in range(n)]
        check(len(set(keys)) == n and set(keys) == set(d), what, 'keys', keys, 'want', list(d))
        for key in KEYS:
            bk = key.encode()
            if key not in d:
                check(A.mapNumElements(p, bk) == -1, what, key, 'elements of a missing key')
                check(A.mapGetType(p, bk) == UNSET, what, key, 'type of a missing key')
                self.read_fails(p, bk, 0, E_UNSET, what, None if key == 'a' else ['mapGetInt', 'mapGetData', 'mapGetNode'])
                continue
            t, vals = d[key]
            check(A.mapGetType(p, bk) == t, what, key, 'type', A.mapGetType(p, bk), 'want', t)
            check(A.mapNumElements(p, bk) == len(vals), what, key, 'elements', A.mapNumElements(p, bk), 'want', len(vals))
            for i, v in enumerate(vals):
                g = self.GET[t]
                err.value = 77
                r = getattr(A, g)(p, bk, i, C.byref(err))
                check(err.value == 0, what, key, i, 'error', err.value)
                if t == INT:
                    check(r == v, what, key, i, r, 'want', v)
                    check(A.mapGetIntSaturated(p, bk, i, C.byref(err)) == min(max(v, -2**31), 2**31 - 1) and err.value == 0, what, key, 'saturated')
                elif t == FLOAT:
                    check(bits(r) == bits(v) or (r != r and v != v), what, key, i, r, 'want', v)
                    f = A.mapGetFloatSaturated(p, bk, i, C.byref(err))
                    check(err.value == 0 and (f == C.c_float(v).value or v != v), what, key, 'as float', f, v)
                elif t == DATA:
                    b, hint = v
                    size = A.mapGetDataSize(p, bk, i, C.byref(err))
                    check(size == len(b) and err.value == 0, what, key, i, 'size', size, 'want', len(b))
                    check(C.string_at(r, len(b) + 1) == b + b'\0', what, key, i, C.string_at(r, size), 'want', b)
                    h = A.mapGetDataTypeHint(p, bk, i, C.byref(err))
                    check(h == hint and err.value == 0, what, key, i, 'hint', h, 'want', hint)
                else:
                    getattr(A, self.FREE[g])(r)
                    check(r == v, what, key, i, 'another object')
            if t in (INT, FLOAT):
                g, ct = (A.mapGetIntArray, C.c_int64) if t == INT else (A.mapGetFloatArray, C.c_double)
                err.value = 77
                r = g(p, bk, C.byref(err))
                if vals:
                    check(err.value == 0 and r, what, key, 'array', err.value)
                    got = list((ct * len(vals)).from_address(r))
                    check([bits(x) for x in got] == [bits(x) for x in vals] or any(x != x for x in vals), what, key, 'array', got, vals)
            self.read_fails(p, bk, len(vals), E_INDEX, what, [self.GET[t]])
            self.read_fails(p, bk, 2**31 - 1, E_INDEX, what, [self.GET[t]])
            if vals:
                self.read_fails(p, bk, 0, E_TYPE, what, [g for g in self.GETTERS if t not in self.TYPES[g]])

    def finish(self, order):
        """Drop everything in the given order; every user object must be freed exactly once, and only then."""
        A, e = self.A, self.e
        todo = [('map', i) for i in range(NMAP)] + [('frame', i) for i in range(NFR)] + [('obj', k) for k in self.obj]
        idx = sorted(range(len(todo)), key=lambda i: order[i % len(order)] * 31 % 97)
        for i in idx:
            k, x = todo[i]
            if k == 'map':
                A.freeMap(self.maps[x])
            elif k == 'frame':
                A.freeFrame(self.frames[x])
            else:
                o = self.obj[x]
                {'vn': A.freeNode, 'an': A.freeNode, 'vf': A.freeFrame, 'af': A.freeFrame, 'fn': A.freeFunction}[x[0]](o)
        for i in self.ids:
            n = e.freed.pop(i, 0)
            check(n == 1, 'object', i, 'freed', n, 'times after every reference was dropped')
        check(e.used() == self.base, 'frame memory', e.used(), 'after dropping every reference, before the case', self.base)


def bits(v):
    return struct.pack('<d', v) if isinstance(v, float) else v


def unfl(x):
    return float(x) if isinstance(x, str) else x


i64 = st.one_of(st.sampled_from([0, 1, -1, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**63 - 1, -2**63, 2**53 + 1, 2**32]), st.integers(-2**63, 2**63 - 1), st.integers(-3, 9))
f64 = st.one_of(st.sampled_from(['0.0', '-0.0', 'inf', '-inf', 'nan', '5e-324', '1e308', '0.1']), st.floats(allow_nan=False).map(repr))
key = st.one_of(st.sampled_from(KEYS[:3]), st.sampled_from(KEYS), st.sampled_from(KEYS), st.sampled_from(BAD))
slot = st.integers(0, NMAP + NFR - 1)
app = st.integers(0, 1)
mslot = st.integers(0, NMAP - 1)
fslot = st.integers(0, NFR - 1)
data = st.one_of(st.binary(max_size=12), st.sampled_from([b'', b'\0', b'a\0b', b'x' * 300, 'é'.encode(), b'\xff\xfe'])).map(lambda b: b.hex())
s_set = st.one_of(
    st.tuples(st.just('int'), slot, key, i64, app), st.tuples(st.just('float'), slot, key, f64, app),
    st.tuples(st.just('data'), slot, key, data, st.booleans(), st.sampled_from([-1, 0, 1]), app),
    st.tuples(st.just('ref'), slot, key, st.sampled_from(['vn', 'an', 'vf', 'af', 'fn']), st.integers(0, 1), app, st.booleans()),
    st.tuples(st.just('ints'), slot, key, st.lists(i64, max_size=6)), st.tuples(st.just('floats'), slot, key, st.lists(f64, max_size=6)),
    st.tuples(st.just('empty'), slot, key, st.one_of(st.integers(1, 8), st.sampled_from([0, 9, -1]))), st.tuples(st.just('del'), slot, key))
s_copy = st.one_of(st.tuples(st.just('copy'), slot, slot), st.tuples(st.just('fcopy'), fslot, fslot), st.tuples(st.just('fnew'), fslot, fslot, st.integers(0, 2)))
s_op = st.one_of(s_set, s_set, s_set, s_copy, s_copy, st.tuples(st.just('clear'), slot), st.tuples(st.just('error'), mslot, st.sampled_from(['oops', '', 'ünïcode', 'x' * 200])),
                 st.tuples(st.just('new'), mslot)).map(list)


@st.composite
def s_history(draw):
    return dict(ops=draw(st.lists(s_op, min_size=2, max_size=28)), order=draw(st.lists(st.integers(0, 96), min_size=3, max_size=17)))


def run_history(c):
    w = World()
    labels = set()
    for i, op in enumerate(c['ops']):
        labels.add(f'{op[0]}:{w.step(op)}')
        for s in range(NMAP + NFR):
            w.verify(s, f'after step {i} {op}, slot {s}:')
    # consume whatever is left in an arbitrary order
    w.finish(c['order'])
    return labels, len(c['ops']) > 2


# ---------------------------------------------------------------- copies handed to other threads stay private
@st.composite
def s_threads(draw):
    n = draw(st.integers(2, 4))
    tslot = st.integers(0, 1)
    tkey = st.sampled_from(KEYS[:4])
    top = st.one_of(st.tuples(st.just('int'), tkey, i64, app), st.tuples(st.just('float'), tkey, f64, app), st.tuples(st.just('data'), tkey, data, st.booleans(), st.sampled_from([-1, 0, 1]), app),
                    st.tuples(st.just('ref'), tkey, st.sampled_from(['vn', 'vf', 'fn', 'an', 'af']), st.integers(0, 1), app, st.booleans()), st.tuples(st.just('del'), tkey),
                    st.tuples(st.just('ints'), tkey, st.lists(i64, max_size=4)), st.tuples(st.just('recopy')), st.tuples(st.just('clear'))).map(list)
    return dict(init=draw(st.lists(s_set, min_size=1, max_size=8).map(lambda l: [list(o) for o in l])), threads=draw(st.lists(st.lists(top, min_size=3, max_size=25), min_size=n, max_size=n)),
                reps=draw(st.integers(1, 4)))


def run_threads(c):
    w = World()
    A = w.A
    for op in c['init']:
        op = list(op)
        op[1] = NMAP        # everything into the first frame's properties
        w.step(op)
    base = dict(w.model[NMAP])
    src = w.frames[0]
    n = len(c['threads'])
    errs = []
    bar = threading.Barrier(n)

    def go(i):
        try:
            tw = World.__new__(World)
            tw.A, tw.e, tw.obj, tw.maps = A, w.e, w.obj, w.maps
            for rep in range(c['reps']):
                tw.frames = [A.copyFrame(src, w.e.core), None, None]
                tw.model = [{} for _ in range(NMAP)] + [dict(base), {}, {}]
                tw.errors = [None] * (NMAP + NFR)
                bar.wait(30)
                for op in c['threads'][i]:
                    if op[0] == 'recopy':
                        A.freeFrame(tw.frames[0])
                        tw.frames[0] = A.copyFrame(src, w.e.core)
                        tw.model[NMAP] = dict(base)
                    elif op[0] == 'clear':
                        tw.step(['clear', NMAP])
                    else:
                        tw.step([op[0], NMAP] + op[1:])
                tw.verify(NMAP, f'thread {i} rep {rep}')
                A.freeFrame(tw.frames[0])
        except BaseException as e:
            errs.append(e)
            bar.abort()
    ts = [threading.Thread(target=go, args=(i,)) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for e in errs:
        if not isinstance(e, threading.BrokenBarrierError):
            raise e
    check(w.model[NMAP] == base, 'model')
    w.verify(NMAP, 'the source after the threads')
    w.finish([1, 2, 3])
    return {f'threads{n}'}, True


CHECKS = dict(history=Sub(s_history(), run_history, quick=16000, thorough=250000, batch=200),
              threads=Sub(s_threads(), run_threads, quick=1600, thorough=30000, batch=50, racy=True))
