"""C32 graph inspection: names, modes, dependencies, creating functions and arguments, lifetimes and processing times of nodes against a model of how they were made."""
import ctypes as C, os, shutil, tempfile, threading, time
from hypothesis import strategies as st
from vf.core import Sub, check, Violation
from vf import capi
from vf.capi import api, cstr

S = st.sampled_from
INSPECT, NOAUTO = 1, 2
PLUGINS = [('vf.inspect.a', 'via'), ('vf.inspect.b', 'vib')]
FUNCS = ['Make', 'Outer', 'F2']
_dir = []


def plugin_files():
    if not _dir:
        d = tempfile.mkdtemp(prefix='c32', dir=os.environ.get('VF_TMP'))
        import atexit
        atexit.register(shutil.rmtree, d, ignore_errors=True)
        for i, (ident, ns) in enumerate(PLUGINS):
            p = f'{d}/{ns}.so'
            shutil.copyfile(os.path.join(os.environ['VF_OUT'], 'libvfplug.so'), p)
            with open(p + '.cfg', 'w') as f:
                f.write(f'config|{ident}|{ns}|inspect {i}|1|{4 << 16}|1\n')
            _dir.append(p)
    return _dir


class Node:
    pass


class World:
    """One core and the nodes made in it."""
    def __init__(self, inspect, threads):
        A = api()
        self.inspect = inspect
        self.core = A.createCore((INSPECT if inspect else 0) | NOAUTO)
        A.setThreadCount(threads, self.core)
        self.std = A.getPluginByID(b'com.vapoursynth.std', self.core)
        self.plugs = []
        self.cb = capi.PUBLIC(self.function)
        for (ident, ns), path in zip(PLUGINS, plugin_files()):
            m = A.createMap()
            A.mapSetData(m, b'path', path.encode(), -1, 1, 0)
            r = A.invoke(self.std, b'LoadPlugin', m)
            check(not A.mapGetError(r), 'loading the test plugin failed:', cstr(A.mapGetError(r)))
            A.freeMap(m)
            A.freeMap(r)
            p = A.getPluginByID(ident.encode(), self.core)
            for f in FUNCS:
                check(A.registerFunction(f.encode(), b'any', b'any', self.cb, None, p), 'registerFunction failed')
            self.plugs.append(p)
        self.nodes, self.local = [], threading.local()
        self.calls = {}
        self.labels = set()
        self.error = None
        self.getframe, self.free = capi.GETFRAME(self.get), capi.FREEFILTER(self.freed)
        self.used = {}           # node id -> time measured inside its callback
        self.count = {}
        self.ul = threading.Lock()

    def close(self):
        api().freeCore(self.core)

    # ---- filters
    def get(self, n, reason, inst, fdata, ctx, core, vsapi):
        t = time.clock_gettime_ns(time.CLOCK_MONOTONIC)
        A = api()
        d = self.nodes[inst - 1]
        r = None
        if reason == 0 and d.deps:
            for x, _ in d.deps:
                A.requestFrameFilter(n, x.ptr, ctx)
        elif reason == 0 or reason == 1:
            for x, _ in d.deps:
                A.freeFrame(A.getFrameFilter(n, x.ptr, ctx))
            if d.sleep:
                time.sleep(d.sleep / 1000)
            fmt = capi.VideoFormat(1, 0, 8, 1, 0, 0, 1)
            af = capi.AudioFormat(0, 16, 2, 1, 1)
            r = A.newAudioFrame(C.byref(af), 3072, None, core) if d.audio else A.newVideoFrame(C.byref(fmt), 8, 8, None, core)
            if self.fail(d, n):
                A.freeFrame(r)
                A.setFilterError(b'asked to fail', ctx)
                r = None
            with self.ul:
                self.count[inst] = self.count.get(inst, 0) + 1
        t = time.clock_gettime_ns(time.CLOCK_MONOTONIC) - t
        with self.ul:
            self.used[inst] = self.used.get(inst, 0) + t
        return r

    def fail(self, d, n):
        return d.failat == n

    def freed(self, inst, core, vsapi):
        self.nodes[inst - 1].dead += 1

    # ---- the model's function stack of this thread
    def stack(self):
        if not hasattr(self.local, 's'):
            self.local.s = ()
        return self.local.s

    def new(self, ptr, name, mode, deps, audio, **kw):
        d = Node()
        d.ptr, d.name, d.mode, d.deps, d.audio, d.refs, d.frames, d.dead, d.builtin, d.sleep, d.failat = ptr, name, mode, deps, audio, 0, self.stack(), 0, False, 0, None
        d.__dict__.update(kw)
        return d

    def create(self, name, mode, deps, audio, form, sleep=0, failat=None, valid=True):
        """createVideoFilter/createAudioFilter(2); None if it is refused."""
        A = api()
        arr = (capi.Dependency * max(1, len(deps)))(*[capi.Dependency(x.ptr, p) for x, p in deps])
        d = self.new(None, name, mode, deps, audio, sleep=sleep, failat=failat)
        with self.ul:
            self.nodes.append(d)
            d.id = len(self.nodes)
        if audio:
            info = capi.AudioInfo(capi.AudioFormat(0, 16, 2, 1, 1), 44100 if valid else 0, 30720, 0)
        else:
            info = capi.VideoInfo(capi.VideoFormat(1, 0, 8, 1, 0, 0, 1), 25, 1, 8 if valid else -3, 8, 10)
        f = getattr(A, ('createAudioFilter' if audio else 'createVideoFilter') + ('2' if form else ''))
        args = [name.encode(), C.byref(info), self.getframe, self.free, mode, arr, len(deps), C.c_void_p(d.id), self.core]
        if form:
            d.ptr = f(*args)
            check(bool(d.ptr) == valid, 'create filter returned', d.ptr)
        else:
            m = A.createMap()
            f(m, *args)
            check(bool(A.mapGetError(m)) != valid, 'create filter', name, 'error', cstr(A.mapGetError(m)))
            if valid:
                d.ptr = A.mapGetNode(m, b'clip', 0, None)
            A.freeMap(m)
        C.memset(arr, 0, C.sizeof(arr))       # the list is copied
        if not d.ptr:
            d.dead = None
            return None
        d.refs += 1
        return d

    # ---- functions
    def function(self, in_, out, user, core, vsapi):
        A = api()
        try:
            prog = self.calls.get(A.mapGetInt(in_, b'prog', 0, None))
            made, n = [], A.mapNumElements(in_, b'v')
            self.local.result = None
            arg = self.local.args
            for i in range(max(n, 0)):
                p = A.mapGetNode(in_, b'v', i, None)
                check(p == arg[i].ptr, 'function got another node')
                A.freeNode(p)
            made = self.run(prog['steps'], arg)
            if prog['fail']:
                A.mapSetError(out, b'asked to fail')
                for d in made:
                    self.unref(d)
                made = []
            else:
                for d in made:
                    A.mapSetNode(out, b'a' if d.audio else b'v', d.ptr, 1)
            self.local.result = made
        except BaseException as e:
            self.error = self.error or e
            A.mapSetError(out, b'harness')

    def unref(self, d):
        d.refs -= 1
        api().freeNode(d.ptr)

    def run(self, steps, visible):
        """Perform steps (in a function or outside one); returns the nodes made, one reference each."""
        A = api()
        made = []
        for s in steps:
            self.yield_()
            have = visible + made

            def pick(i, audio=None):
                c = [x for x in have if audio is None or x.audio == audio]
                return c[i % len(c)] if c else None
            k = s[0]
            if k == 'node':
                deps = [(pick(i), p) for i, p in s[4] if have]
                d = self.create(s[1], s[2], deps, s[3], s[5])
                made.append(d)
                self.labels.add('node with %d deps' % min(len(deps), 2))
            elif k == 'bad':
                self.create('bad', 0, [], s[1], s[2], valid=False)
                self.labels.add('refused node')
            elif k == 'call':
                made += self.call(s, have)
            elif k == 'func':
                prog = s[1]

                def body(in_, out, user, core, vsapi, prog=prog, have=have):
                    try:
                        self.local.fresult = self.run(prog, have)
                    except BaseException as e:
                        self.error = self.error or e
                cb = capi.PUBLIC(body)
                f = A.createFunction(cb, None, C.cast(None, capi.FREEDATA), self.core)
                m, r = A.createMap(), A.createMap()
                A.callFunction(f, m, r)
                A.freeMap(m)
                A.freeMap(r)
                A.freeFunction(f)
                self.labels.add('function object')
                if self.error:
                    raise self.error
                made += self.local.fresult
            elif k == 'builtin':
                d = self.builtin(s, pick)
                if d is not None:
                    made.append(d)
        return made

    def yield_(self):
        pass

    def call(self, s, have):
        A = api()
        _, plug, fname, extra, idx, prog = s
        ident, ns = PLUGINS[plug]
        args = {}
        m = A.createMap()
        with self.ul:
            key = len(self.calls)
            self.calls[key] = prog
        args['prog'] = (1, [key])
        A.mapSetInt(m, b'prog', key, 0)
        for name, v in extra:
            for x in v:
                if isinstance(x, int):
                    A.mapSetInt(m, name.encode(), x, 1)
                elif isinstance(x, float):
                    A.mapSetFloat(m, name.encode(), x, 1)
                else:
                    A.mapSetData(m, name.encode(), x.encode(), -1, 1, 1)
            if not v:
                A.mapSetEmpty(m, name.encode(), 1)
            args[name] = (1 if not v or isinstance(v[0], int) else 2 if isinstance(v[0], float) else 3, [x.encode() if isinstance(x, str) else x for x in v])
        given = []
        for i in idx:
            c = [x for x in have if not x.audio]
            if c:
                given.append(c[i % len(c)])
                A.mapSetNode(m, b'v', given[-1].ptr, 1)
        if given:
            args['v'] = (5, list(given))
        old = self.stack()
        self.local.s = ((fname, ident, ns, args),) + old
        self.local.args = given
        r = A.invoke(self.plugs[plug], fname.encode(), m)
        self.local.s = old
        A.clearMap(m)             # what is remembered is a copy
        A.mapSetInt(m, b'prog', 7777, 0)
        err = cstr(A.mapGetError(r))
        if self.error:
            raise self.error
        made = self.local.result
        check(bool(err) == prog['fail'], 'function', fname, 'gave', err)
        for a, k in ((False, b'v'), (True, b'a')):
            w = [d for d in made if d.audio == a]
            check(max(0, A.mapNumElements(r, k)) == len(w), 'nodes were lost on the way')
            for i, d in enumerate(w):
                p = A.mapGetNode(r, k, i, None)
                check(p == d.ptr, 'another node arrived')
                A.freeNode(p)
        A.freeMap(m)
        A.freeMap(r)
        self.labels.add('call depth %d' % len(self.local.s) if len(self.local.s) else 'call')
        if prog['fail']:
            self.labels.add('failed call')
        return made

    BUILTIN = [('FlipVertical', {}), ('Reverse', {}), ('Trim', {'first': 2}), ('SetFrameProps', {'x': 7, 'name': 'text'}), ('AssumeFPS', {'fpsnum': 30}), ('Loop', {'times': 2}), ('Interleave', {}), ('StackVertical', {}), ('Invert', {}), ('Expr', {'expr': 'x 1 +'}), ('BlankClip', {'length': 3}), ('Bogus', {}), ('Trim', {'first': 99})]

    def builtin(self, s, pick):
        A = api()
        name, extra = self.BUILTIN[s[1]]
        multi = name in ('Interleave', 'StackVertical', 'Expr')
        src = []
        for i in s[2][:None if multi else 1]:
            x = pick(i, False)
            if x is not None:
                src.append(x)
        if not src:
            return None
        src = [src[0]] + [x for x in src[1:] if self.shape(x) == self.shape(src[0])]
        m = A.createMap()
        args = {}
        key = 'clips' if multi else 'clip'
        for x in src:
            A.mapSetNode(m, key.encode(), x.ptr, 1)
        args[key] = (5, src)
        for k, v in extra.items():
            if isinstance(v, int):
                A.mapSetInt(m, k.encode(), v, 0)
                args[k] = (1, [v])
            else:
                A.mapSetData(m, k.encode(), v.encode(), -1, 1, 0)
                args[k] = (3, [v.encode()])
        old = self.stack()
        self.local.s = ((name, 'com.vapoursynth.std', 'std', args),) + old
        r = A.invoke(self.std, name.encode(), m)
        try:
            if A.mapGetError(r):
                self.labels.add('failed builtin')
                check(name in ('Bogus', 'Trim', 'StackVertical', 'Expr', 'Interleave', 'Loop'), name, 'failed:', cstr(A.mapGetError(r)))
                return None
            p = A.mapGetNode(r, b'clip', 0, None)
            for x in src:
                if x.ptr == p:
                    x.refs += 1
                    self.labels.add('same node returned')
                    return x
            d = self.new(p, None, None, None, False, builtin=True)
            d.refs = 1
            # a filter of these functions depends on the clips it was given and nothing else
            d.deps = [(x, None) for x in src] if name != 'BlankClip' else []
            with self.ul:
                self.nodes.append(d)
                d.id = len(self.nodes)
            self.labels.add('built-in')
            return d
        finally:
            self.local.s = old
            A.freeMap(m)
            A.freeMap(r)

    def shape(self, d):
        vi = C.cast(api().getVideoInfo(d.ptr), C.POINTER(capi.VideoInfo)).contents
        return vi.width, vi.height, vi.fpsNum, vi.fpsDen

    # ---- checks
    def reachable(self):
        todo = [d for d in self.nodes if d.ptr and d.refs > 0]
        seen = set()
        while todo:
            d = todo.pop()
            if d.id in seen:
                continue
            seen.add(d.id)
            todo += [x for x, _ in d.deps]
            if self.inspect:
                for f in d.frames:
                    for t, v in f[3].values():
                        if t == 5:
                            todo += v
        return seen

    def verify(self, deep=True):
        live = self.reachable()
        dl = time.time() + 5
        for d in self.nodes:
            if d.builtin or not d.ptr:
                if d.dead is None:
                    continue
            if not d.builtin:
                if d.id in live:
                    check(d.dead == 0, f'node {d.name} was destroyed although it is referenced')
                else:
                    while d.dead == 0 and time.time() < dl:
                        time.sleep(0.001)
                    check(d.dead == 1, f'node {d.name}, which nothing refers to, was freed {d.dead} times')
            if d.id in live and deep:
                self.verify_node(d)

    def verify_node(self, d):
        A = api()
        what = f'node {d.id} {d.frames[0][0] if d.builtin else d.name}:'
        if not d.builtin:
            check(cstr(A.getNodeName(d.ptr)) == d.name.encode(), what, 'is called', cstr(A.getNodeName(d.ptr)))
            check(A.getNodeFilterMode(d.ptr) == d.mode, what, 'has mode', A.getNodeFilterMode(d.ptr), 'instead of', d.mode)
        else:
            check(A.getNodeName(d.ptr), what, 'has no name')
            check(A.getNodeFilterMode(d.ptr) in (0, 1, 2, 3), what, 'has mode', A.getNodeFilterMode(d.ptr))
        n = A.getNumNodeDependencies(d.ptr)
        got = []
        for i in range(n):
            p = A.getNodeDependency(d.ptr, i)
            check(p, what, 'dependency', i, 'of', n, 'missing')
            x = C.cast(p, C.POINTER(capi.Dependency)).contents
            got.append((x.source, x.requestPattern))
        for i in (-1, n, n + 7):
            check(not A.getNodeDependency(d.ptr, i), what, 'has a dependency', i, 'of', n)
        if d.builtin:
            check({x for x, _ in got} == {x.ptr for x, _ in d.deps}, what, 'depends on', got, 'instead of', [x.ptr for x, _ in d.deps])
        else:
            check(got == [(x.ptr, p) for x, p in d.deps], what, 'has dependencies', got, 'instead of', [(x.ptr, p) for x, p in d.deps])
        frames = d.frames if self.inspect else ()
        for l in range(len(frames) + 2):
            r = cstr(A.getNodeCreationFunctionName(d.ptr, l)), cstr(A.getNodeCreationPluginID(d.ptr, l)), cstr(A.getNodeCreationPluginNS(d.ptr, l))
            m = A.getNodeCreationFunctionArguments(d.ptr, l)
            if l >= len(frames):
                check(r == (None, None, None) and not m, what, 'has a creating function at level', l, ':', r)
                continue
            f = frames[l]
            check(r == tuple(x.encode() for x in f[:3]), what, 'created at level', l, 'by', r, 'instead of', f[:3])
            self.verify_args(m, f[3], f'{what} arguments of {f[0]} at level {l}:')

    def verify_args(self, m, args, what):
        A = api()
        check(m, what, 'missing')
        keys = {cstr(A.mapGetKey(m, i)).decode() for i in range(A.mapNumKeys(m))}
        check(keys == set(args), what, sorted(keys), 'instead of', sorted(args))
        for k, (t, v) in args.items():
            kb = k.encode()
            check(A.mapGetType(m, kb) == t and A.mapNumElements(m, kb) == len(v), what, k, 'has type', A.mapGetType(m, kb), 'and', A.mapNumElements(m, kb), 'elements instead of', t, len(v))
            for i, x in enumerate(v):
                if t == 1:
                    g = A.mapGetInt(m, kb, i, None)
                elif t == 2:
                    g = A.mapGetFloat(m, kb, i, None)
                elif t == 3:
                    g = C.string_at(A.mapGetData(m, kb, i, None), A.mapGetDataSize(m, kb, i, None))
                else:
                    g = A.mapGetNode(m, kb, i, None)
                    A.freeNode(g)
                    x = x.ptr
                check(g == x, what, k, i, 'is', g, 'instead of', x)
        if len(args) > 1:
            self.labels.add('arguments compared')


# ---------------------------------------------------------------- histories
NAME = S(['Flip', 'a', 'Long name with spaces', 'ü☺', '', 'x' * 200])
EXTRA = st.lists(st.tuples(S(['i', 'f', 'd', 'e']), st.one_of(st.lists(st.integers(-2**63, 2**63 - 1), max_size=3), st.lists(st.floats(allow_nan=False), min_size=1, max_size=2), st.lists(st.text(st.characters(blacklist_categories=['Cs'], blacklist_characters='\0'), max_size=6), min_size=1, max_size=2))).map(list), max_size=3, unique_by=lambda t: t[0])
IDX = st.integers(0, 20)


@st.composite
def s_step(draw, depth, top):
    kinds = ['node', 'node', 'node', 'builtin', 'builtin', 'bad'] + (['call'] * (6 if top else 3) + ['func'] if depth > 0 else [])
    k = draw(S(kinds))
    if k == 'node':
        return [k, draw(NAME), draw(S([0, 1, 2, 3])), draw(S([False, False, False, True])), draw(st.lists(st.tuples(IDX, st.integers(0, 3)).map(list), max_size=3)), draw(st.integers(0, 1))]
    if k == 'bad':
        return [k, draw(st.booleans()), draw(st.integers(0, 1))]
    if k == 'call':
        return [k, draw(st.integers(0, 1)), draw(S(FUNCS)), draw(EXTRA), draw(st.lists(IDX, max_size=3)), dict(steps=draw(st.lists(s_step(depth - 1, False), max_size=4)), fail=draw(S([False] * 5 + [True])))]
    if k == 'func':
        return [k, draw(st.lists(s_step(depth - 1, False), max_size=3))]
    return [k, draw(st.integers(0, len(World.BUILTIN) - 1)), draw(st.lists(IDX, min_size=1, max_size=3))]


@st.composite
def s_ops(draw):
    return draw(st.lists(st.one_of(s_step(3, True), s_step(3, True), st.tuples(st.just('free'), IDX).map(list), S([['check']])), min_size=3, max_size=12))


HISTORY = st.builds(lambda ops, i, t: dict(ops=ops, inspect=i, threads=t), s_ops(), S([True, True, True, False]), st.integers(1, 3))


def perform(w, ops, mine, verify):
    for op in ops:
        if op[0] == 'free':
            if mine:
                w.unref(mine.pop(op[1] % len(mine)))
                w.labels.add('free')
            if verify:
                w.verify(False)
        elif op[0] == 'check':
            if verify:
                w.verify()
        else:
            w.local.s = ()
            mine += w.run([op], list(mine))


def end(w, mine):
    w.verify()
    for d in mine:
        w.unref(d)
    w.verify(False)


def run_history(c):
    w = World(c['inspect'], c['threads'])
    try:
        mine = []
        perform(w, c['ops'], mine, True)
        n = len([d for d in w.nodes if d.frames])
        end(w, mine)
    finally:
        w.close()
    return sorted(w.labels), n > 0


# ---------------------------------------------------------------- several threads building graphs in one core
TRACKS = st.builds(lambda t, i, s: dict(tracks=t, inspect=i, yields=s), st.lists(s_ops(), min_size=2, max_size=4), S([True, True, True, False]), st.lists(st.integers(0, 3), min_size=1, max_size=8))


def run_tracks(c):
    w = World(c['inspect'], 2)
    ys = c['yields']
    tick = [0]

    def y():
        tick[0] += 1
        v = ys[tick[0] % len(ys)]
        if v:
            time.sleep((v - 1) * 0.0003)
    w.yield_ = y
    mines, errs = [[] for _ in c['tracks']], []

    def go(ops, mine):
        try:
            perform(w, ops, mine, False)
        except BaseException as e:
            errs.append(e)
    try:
        ts = [threading.Thread(target=go, args=a) for a in zip(c['tracks'], mines)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
            check(not t.is_alive(), 'a call did not return')
        if errs:
            raise errs[0]
        n = len([d for d in w.nodes if d.frames])
        end(w, sum(mines, []))
    finally:
        w.close()
    return sorted(w.labels), n > 1


# ---------------------------------------------------------------- processing time
@st.composite
def s_timing(draw):
    n = draw(st.integers(1, 5))
    nodes = [[draw(S([0, 0, 1, 2])), draw(S([0, 1, 2])), draw(st.lists(st.integers(0, i - 1), max_size=2, unique=True)) if i else [], draw(S([None] * 5 + [0, 3]))] for i in range(n)]
    phases = []
    for _ in range(draw(st.integers(1, 5))):
        phases.append([draw(S([True, True, False])), draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, 9)).map(list), max_size=5)), draw(st.lists(st.integers(0, n - 1), max_size=2)), draw(S([None, None, 0, 1, 2, 3, 4])), draw(st.booleans())])
    return dict(nodes=nodes, phases=phases, threads=draw(S([1, 1, 2, 4])))


def run_timing(c):
    A = api()
    w = World(False, c['threads'])
    try:
        w.local.s = ()
        ns = []
        for sleep, mode, deps, failat in c['nodes']:
            ns.append(w.create('n%d' % len(ns), mode, [(ns[i], 0) for i in deps], False, 1, sleep=sleep, failat=failat))
        held = set(range(len(ns)))
        T = {d.id: 0 for d in ns}
        F = 0
        for d in ns:
            check(A.getNodeProcessingTime(d.ptr, 0) == 0, 'a new node has processing time')
        check(A.getCoreNodeTiming(w.core) == 0, 'timing is on by default')
        nontrivial = False
        for on, reqs, resets, drop, fr in c['phases']:
            A.setCoreNodeTiming(w.core, 5 if on else 0)
            check(bool(A.getCoreNodeTiming(w.core)) == on, 'getCoreNodeTiming after setting', on)
            w.used.clear()
            t0 = time.clock_gettime_ns(time.CLOCK_MONOTONIC)
            evs = []
            for i, n in reqs:
                if i not in held:
                    continue
                ev = threading.Event()
                cb = capi.FRAMEDONE(lambda ud, f, n_, node, err, ev=ev: (A.freeFrame(f) if f else None, ev.set()) and None)
                evs.append((ev, cb))
                A.getFrameAsync(n, ns[i].ptr, cb, None)
            for ev, _ in evs:
                check(ev.wait(60), 'a request was not answered')
            # the last request may be answered while the pool is still leaving; another request on every held node flushes nothing more
            wall = time.clock_gettime_ns(time.CLOCK_MONOTONIC) - t0
            live = w.reachable()
            total = 0
            for d in ns:
                if d.id not in live:
                    continue
                t = A.getNodeProcessingTime(d.ptr, 0)
                delta = t - T[d.id]
                if on:
                    used = w.used.get(d.id, 0)
                    check(delta >= used * 0.98 - 20000, f'{d.name} spent {used} ns in its filter function but its processing time grew by {delta}')
                    if used > 500000:
                        w.labels.add('time counted')
                        nontrivial = True
                    total += delta
                else:
                    check(delta == 0, f'processing time of {d.name} grew by {delta} although timing is off')
                    w.labels.add('off')
                T[d.id] = t
            wall2 = wall if evs else 0
            check(total <= wall2 * c['threads'] * 1.02 + 2000000, f'{total} ns of processing time in {wall2} ns on {c["threads"]} threads')
            for i in resets:
                if ns[i].id in live:
                    check(A.getNodeProcessingTime(ns[i].ptr, 1) == T[ns[i].id], 'resetting returns another time')
                    check(A.getNodeProcessingTime(ns[i].ptr, 0) == 0, 'reset left a time')
                    T[ns[i].id] = 0
                    w.labels.add('reset')
            check(A.getFreedNodeProcessingTime(w.core, 0) == F, 'time of destroyed nodes changed while none was destroyed')
            if drop is not None and drop < len(ns) and drop in held:
                held.discard(drop)
                before = w.reachable()
                w.unref(ns[drop])
                gone = before - w.reachable()
                w.verify(False)
                g = A.getFreedNodeProcessingTime(w.core, 0)
                want = sum(T[i] for i in gone)
                if on:
                    check(g - F == want, f'the time of destroyed nodes grew by {g - F} instead of {want}')
                    w.labels.add('freed %d' % min(len(gone), 2))
                else:
                    check(g - F in (0, want), f'the time of destroyed nodes grew by {g - F} instead of {want}')
                F = g
            if fr:
                check(A.getFreedNodeProcessingTime(w.core, 1) == F, 'resetting returns another time of destroyed nodes')
                check(A.getFreedNodeProcessingTime(w.core, 0) == 0, 'reset left a time of destroyed nodes')
                F = 0
        for i in held:
            w.unref(ns[i])
        w.verify(False)
    finally:
        w.close()
    return sorted(w.labels), nontrivial


# ---------------------------------------------------------------- from Python
PYF = ['FlipVertical', 'Trim', 'SetFrameProps', 'StackVertical', 'Interleave', 'Expr', 'BlankClip', 'PlaneStats', 'Splice', 'FrameEval', 'SelectEvery', 'BlankAudio', 'AudioTrim', 'AudioReverse']


@st.composite
def s_python(draw):
    return dict(ops=draw(st.lists(st.tuples(S(PYF), st.lists(IDX, min_size=1, max_size=3), st.integers(0, 9)).map(list), min_size=1, max_size=10)), time=draw(st.booleans()), frames=draw(st.lists(IDX, max_size=3)))


def python(c, inspect):
    import vapoursynth as vs
    if inspect and not vs.has_policy():
        check(vs._try_enable_introspection() is False and vs._try_enable_introspection(1) is False, 'an unknown version of the inspection interface was enabled')
        check(vs._try_enable_introspection(0), 'introspection could not be enabled')
    core = vs.core.core
    check(vs._try_enable_introspection(0) is False, 'introspection enabled after a policy was installed')
    labels = set()
    nodes = []        # (node, name, kwargs, deps)
    root = core.std.BlankClip(width=8, height=8, format=vs.GRAY8, length=10)
    aud = core.std.BlankAudio(length=9000)
    nodes.append((root, 'BlankClip', dict(width=8, height=8, format=int(vs.GRAY8), length=10), []))
    nodes.append((aud, 'BlankAudio', dict(length=9000), []))
    core.timings.enabled = c['time']
    check(core.timings.enabled == c['time'], 'core.timings.enabled')
    for f, idx, x in c['ops']:
        vids = [n for n in nodes if isinstance(n[0], vs.VideoNode)]
        auds = [n for n in nodes if isinstance(n[0], vs.AudioNode)]
        src = (auds if f in ('AudioTrim', 'AudioReverse') else vids)
        ins = [src[i % len(src)][0] for i in idx]
        one = ins[0]
        if f in ('StackVertical', 'Expr'):
            ins = [n for n in ins if (n.width, n.height, n.format) == (one.width, one.height, one.format)]
        kw = {'FlipVertical': dict(clip=one), 'Trim': dict(clip=one, first=min(1, one.num_frames - 1)), 'SetFrameProps': dict(clip=one, x=x, s='text'), 'StackVertical': dict(clips=ins), 'Interleave': dict(clips=ins, mismatch=1), 'Expr': dict(clips=ins, expr=['x 1 +']),
              'BlankClip': dict(clip=one, length=x + 1), 'PlaneStats': dict(clipa=one), 'Splice': dict(clips=ins, mismatch=1), 'FrameEval': dict(clip=one, eval=lambda n, one=one: one), 'SelectEvery': dict(clip=one, cycle=2, offsets=[x % 2]),
              'BlankAudio': dict(length=x + 1), 'AudioTrim': dict(clip=one, length=100), 'AudioReverse': dict(clip=one)}[f]
        try:
            n = getattr(core.std, f)(**kw)
        except vs.Error:
            labels.add('failed call')
            continue
        if any(n == y[0] for y in nodes) and inspect:
            labels.add('same node')
            continue
        deps = None
        if f not in ('FrameEval', 'BlankClip', 'BlankAudio', 'Splice') and not (f in ('Interleave', 'StackVertical') and len(ins) == 1) and f != 'Trim':
            deps = [v for v in kw.values() if isinstance(v, (vs.VideoNode, vs.AudioNode))] + kw.get('clips', [])
        elif f == 'BlankAudio' or f == 'BlankClip':
            deps = []
        nodes.append((n, f, kw, deps))
        labels.add(f)

    def verify():
        for n, f, kw, deps in nodes:
            check(not n.is_inspectable(), f'{f}: is_inspectable without version')
            check(bool(n.is_inspectable(0)) == inspect and not n.is_inspectable(1), f'{f}: is_inspectable(0) is', n.is_inspectable(0))
            check(isinstance(n.node_name, str) and n.node_name, f'{f}: node_name', n.node_name)
            check(isinstance(n.mode, vs.FilterMode), f'{f}: mode', n.mode)
            check(isinstance(n.timings, int) and n.timings >= 0, f'{f}: timings', n.timings)
            d = n.dependencies
            check(isinstance(d, tuple) and all(isinstance(x, (vs.VideoNode, vs.AudioNode)) for x in d), f'{f}: dependencies', d)
            if inspect:
                if deps is not None:
                    check(set(d) == set(deps), f'{f}: depends on', d, 'instead of', deps)
                check((n._name, n._plugin_id, n._plugin_ns) == (f, 'com.vapoursynth.std', 'std'), f'{f}: created by', n._name, n._plugin_id, n._plugin_ns)
                got = n._inputs
                check(set(got) == set(kw), f'{f}: inputs', sorted(got), 'instead of', sorted(kw))
                for k, v in kw.items():
                    if callable(v):
                        check(isinstance(got[k], vs.Func) or isinstance(got[k], list), f'{f}: input {k}', got[k])
                        continue
                    g = got[k] if isinstance(got[k], list) else [got[k]]
                    v = v if isinstance(v, list) else [v]
                    check(len(g) == len(v) and all(a == b and (type(a) is type(b) or isinstance(b, int)) for a, b in zip(g, v)), f'{f}: input {k} is', got[k], 'instead of', kw[k])
                for m, *_ in nodes:
                    check((n == m) == (n is m), f'{f}: equality of nodes')
                for x in d:
                    same = [m[0] for m in nodes if m[0] == x]
                    check(all(hash(x) == hash(m) for m in same), 'equal nodes with different hashes')
                labels.add('inspected')
            else:
                for a in ('_name', '_plugin_id', '_plugin_ns', '_inputs'):
                    try:
                        getattr(n, a)
                    except vs.Error:
                        continue
                    raise Violation(f'{f}: {a} of a node that is not inspectable')
                if deps is not None:
                    check(len(d) >= len({id(x) for x in deps}), f'{f}: {len(d)} dependencies of', len(deps))
                    check(sorted({type(x).__name__ for x in d}) == sorted({type(x).__name__ for x in deps}), f'{f}: dependency types')
    verify()
    for i in c['frames']:
        n, f, *_ = nodes[i % len(nodes)]
        before = n.timings
        n.clear_cache()
        n.get_frame(0).close()
        check(n.timings > before if c['time'] else n.timings == before, f'{f}: timings', before, 'became', n.timings, 'with timing', c['time'])
        if i % 2:
            n.timings = 0
            check(n.timings == 0, 'timings after reset')
        try:
            n.timings = 5
            raise Violation('timings can be set')
        except ValueError:
            pass
        labels.add('timed' if c['time'] else 'untimed')
    check(core.timings.freed_nodes >= 0, 'freed_nodes')
    core.timings.freed_nodes = 0
    check(core.timings.freed_nodes == 0, 'freed_nodes after reset')
    try:
        core.timings.freed_nodes = 3
        raise Violation('freed_nodes can be set')
    except ValueError:
        pass
    verify()
    return sorted(labels), len(nodes) > 3


def run_python(c):
    return python(c, True)


def run_plain(c):
    return python(c, False)


CHECKS = {
    'history': Sub(HISTORY, run_history, quick=2500, thorough=60000, batch=100),
    'tracks': Sub(TRACKS, run_tracks, quick=800, thorough=15000, batch=50, racy=True),
    'timing': Sub(s_timing(), run_timing, quick=1200, thorough=20000, batch=50, racy=True),
    'python': Sub(s_python(), run_python, quick=1000, thorough=30000, batch=100, isolate=True),
    'plain': Sub(s_python(), run_plain, quick=400, thorough=8000, batch=100, isolate=True),
}
