"""C05: everything is released exactly once and never while in use: engine graphs (native/vfengine.cpp) and object histories through the C API."""
import ctypes as C, threading
from hypothesis import strategies as st
from vf.core import Sub, check, Violation
from vf import engine, capi, frames
from vf.capi import api, cstr


def run_graph(c):
    labels, stat = engine.run(c, 'C05')
    return labels, stat['activations'] >= 2


# objects: nodes, functions, frames and maps referring to each other; an object must die exactly when nothing reaches it any more
KEYS = ['a', 'b', 'clip']
LIMIT = 24


@st.composite
def s_objects(draw):
    k = st.integers(0, 63)
    op = st.one_of(
        st.tuples(st.just('node'), st.integers(0, 3), st.lists(k, max_size=3), st.lists(k, max_size=3)),
        st.tuples(st.just('node'), st.integers(0, 3), st.lists(k, max_size=2), st.just([])),
        st.tuples(st.just('nodemap'), k, st.lists(k, max_size=2), st.lists(k, max_size=2)),
        st.tuples(st.just('badnode'), st.integers(0, 2), st.lists(k, max_size=2), k),
        st.tuples(st.just('func'), st.lists(k, max_size=3), st.integers(0, 3)),
        st.tuples(st.just('call'), k, k, k),
        st.tuples(st.just('ref'), k), st.tuples(st.just('unref'), k), st.tuples(st.just('unref'), k), st.tuples(st.just('unref'), k),
        st.tuples(st.just('map')), st.tuples(st.just('freemap'), k), st.tuples(st.just('copymap'), k, k),
        st.tuples(st.just('set'), k, st.sampled_from(KEYS), k, st.integers(0, 1)), st.tuples(st.just('consume'), k, st.sampled_from(KEYS), k, st.integers(0, 1)),
        st.tuples(st.just('get'), k, st.sampled_from(KEYS), st.integers(0, 2)), st.tuples(st.just('del'), k, st.sampled_from(KEYS)), st.tuples(st.just('clear'), k), st.tuples(st.just('error'), k),
        st.tuples(st.just('frame'), st.one_of(st.none(), k)), st.tuples(st.just('copyframe'), k), st.tuples(st.just('prop'), k, st.sampled_from(KEYS), k, st.integers(0, 1)), st.tuples(st.just('write'), k),
        st.tuples(st.just('cache'), k, st.integers(-1, 1)), st.tuples(st.just('async'), k, st.integers(-1, 2)), st.tuples(st.just('sync'), k, st.integers(-1, 2)))
    first = st.sampled_from([['node', 1, [], []], ['node', 1, [0], []], ['node', 0, [1], [0]], ['func', [0], 0], ['func', [1, 0], 2], ['map'], ['frame', None], ['frame', 0], ['nodemap', 0, [0], [1]], ['set', 0, 'a', 1, 1]])
    ops = [['map'], ['node', 1, [], []]] + draw(st.lists(first, min_size=2, max_size=8)) + draw(st.lists(op.map(list), min_size=4, max_size=40))
    return dict(ops=ops, thread=draw(st.lists(st.integers(0, 39), max_size=4)), end=draw(st.integers(0, 3)))


class World:
    def __init__(self):
        A = self.A = api()
        self.core = A.createCore(2)
        A.setThreadCount(2, self.core)
        self.msgs = []
        self.lh = capi.LOGHANDLER(lambda t, m, u: self.msgs.append((t, cstr(m))))
        A.addLogHandler(self.lh, None, None, self.core)
        self.vi = capi.VideoInfo()
        A.queryVideoFormat(C.byref(self.vi.format), 1, 0, 8, 0, 0, self.core)
        self.vi.width, self.vi.height, self.vi.numFrames, self.vi.fpsNum, self.vi.fpsDen = 40, 16, 2, 25, 1
        self.ai = capi.AudioInfo()
        A.queryAudioFormat(C.byref(self.ai.format), 0, 16, 3, self.core)
        self.ai.sampleRate, self.ai.numSamples = 48000, 5000
        self.objs = {}      # id -> dict(kind, ptr, holds=[ids] | props={key: [ids]}, handles)
        self.freed = {}
        self.next = 1
        self.bufs = {}      # frame id -> buffer id
        self.err = []
        self.gf = capi.GETFRAME(self.getframe)
        self.ff = capi.FREEFILTER(self.free_node)
        self.fn = capi.PUBLIC(self.call)
        self.fd = capi.FREEDATA(self.free_func)
        self.called = []
        self.unit = None

    # callbacks
    def getframe(self, n, r, d, fd, ctx, core, vsapi):
        if self.objs[d]['kind'] in 'va':
            self.A.setFilterError(b'no frames', ctx)
        return None

    def drop(self, i):
        self.freed[i] = self.freed.get(i, 0) + 1
        if self.freed[i] > 1:
            self.err.append(f'object {i} freed twice')
            return
        for k, p in self.objs[i]['own']:
            self.release(k, p)

    def free_node(self, d, core, vsapi):
        if core != self.core:
            self.err.append('free callback with another core')
        self.drop(d)

    def free_func(self, d):
        self.drop(d)

    def call(self, i, o, d, core, vsapi):
        self.called.append(d)
        if self.freed.get(d):
            self.err.append(f'function {d} called after it was freed')
        ob = self.objs[d]
        if ob['mode'] == 1:
            self.A.mapSetError(o, b'refused')
        elif ob['mode'] == 2:
            for k, p in ob['own']:
                self.setter(k)(o, b'a', p, 1)
        elif ob['mode'] == 3:
            self.A.copyMap(i, o)

    def setter(self, k):
        return {'v': self.A.mapSetNode, 'a': self.A.mapSetNode, 'f': self.A.mapSetFunction, 'r': self.A.mapSetFrame}[k]

    def release(self, k, p):
        {'v': self.A.freeNode, 'a': self.A.freeNode, 'f': self.A.freeFunction, 'r': self.A.freeFrame}[k](p)

    def addref(self, k, p):
        return {'v': self.A.addNodeRef, 'a': self.A.addNodeRef, 'f': self.A.addFunctionRef, 'r': self.A.addFrameRef}[k](p)

    # model
    def alive(self):
        seen, todo = set(), [i for i, o in self.objs.items() if o['handles'] > 0]
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            o = self.objs[i]
            todo += o['holds']
            for v in o['props'].values():
                todo += v
        return seen

    def reaches(self, a, b):
        todo, seen = [a], set()
        while todo:
            i = todo.pop()
            if i == b:
                return True
            if i not in seen:
                seen.add(i)
                o = self.objs[i]
                todo += o['holds']
                for v in o['props'].values():
                    todo += v
        return False

    def new(self, kind, ptr=None, holds=(), own=(), props=None, handles=1, mode=0):
        i = self.next
        self.next += 1
        self.objs[i] = dict(kind=kind, ptr=ptr, holds=list(holds), own=list(own), props=props or {}, handles=handles, mode=mode)
        return i

    def pick(self, k, kinds):
        l = [i for i, o in self.objs.items() if o['handles'] > 0 and o['kind'] in kinds]
        return l[k % len(l)] if l else None

    def used(self):
        i = capi.CoreInfo2()
        self.A.getCoreInfo2(self.core, C.byref(i))
        return i.usedFramebufferSize

    def verify(self, what):
        if self.err:
            raise Violation(f'{what} {self.err}')
        live = self.alive()
        for i, o in self.objs.items():
            if o['kind'] in 'vaf':
                n = self.freed.get(i, 0)
                if i in live:
                    check(n == 0, what, f'object {i} ({o["kind"]}) was freed while it can still be reached')
                else:
                    check(n == 1, what, f'object {i} ({o["kind"]}): free callback called {n} times although nothing reaches it')
        bufs = {self.bufs[i] for i in live if self.objs[i]['kind'] == 'r'}
        u = self.used()
        if self.unit is None and bufs:
            self.unit = u // len(bufs)
        check(u == (len(bufs) * self.unit if bufs else 0), what, 'frame memory in use', u, 'for', len(bufs), 'frame buffers of', self.unit)

    def deps(self, ks, kinds):
        return [i for i in (self.pick(k, kinds) for k in ks) if i]

    def make(self, video, deps, holds, out=None, bad=None):
        """Creates a filter whose instance holds references of its own to deps and holds."""
        A = self.A
        own = [(self.objs[i]['kind'], self.addref(self.objs[i]['kind'], self.objs[i]['ptr'])) for i in deps + holds]
        i = self.new('v' if video else 'a', holds=deps + holds, own=own)
        d = (capi.Dependency * max(len(deps), 1))()
        for j, x in enumerate(deps):
            d[j].source, d[j].requestPattern = self.objs[x]['ptr'], j % 3
        info = (capi.VideoInfo if video else capi.AudioInfo)()
        C.memmove(C.byref(info), C.byref(self.vi if video else self.ai), C.sizeof(info))
        if bad is not None:
            if video:
                [lambda: setattr(info, 'numFrames', 0), lambda: setattr(info, 'width', -1), lambda: setattr(info, 'fpsDen', -1)][bad]()
            else:
                info.numSamples = [0, -1, 2**62][bad]
        f = A.createVideoFilter2 if video else A.createAudioFilter2
        g = A.createVideoFilter if video else A.createAudioFilter
        if out is None:
            p = f(b'obj', C.byref(info), self.gf, self.ff, 0, d, len(deps), i, self.core)
            self.objs[i]['ptr'] = p
            return i, p
        g(out, b'obj', C.byref(info), self.gf, self.ff, 0, d, len(deps), i, self.core)
        return i, None

    def abandon(self, i):
        """The creation failed: the instance is still the caller's."""
        for k, p in self.objs[i]['own']:
            self.release(k, p)
        del self.objs[i]


def run_objects(c):
    A = api()
    w = World()
    labels = set()

    def step(n, op):
        what = f'step {n} {op}:'
        t = op[0]
        if len(w.objs) > 400:
            return
        if t == 'node':
            video = op[1] > 0
            i, p = w.make(video, w.deps(op[2], 'va'), w.deps(op[3], 'vafr'))
            check(p, what, 'no node')
            labels.add('node')
        elif t == 'nodemap':
            m = w.pick(op[1], 'm')
            if m and 'error' not in w.objs[m]['props']:
                o = w.objs[m]
                cur = o['props'].get('clip', [])
                deps, holds = w.deps(op[2], 'va'), w.deps(op[3], 'vafr')
                if cur and w.objs[cur[0]]['kind'] != 'v':
                    return      # appending another type has no effect but consumes the node: the map property tests decide that
                i, _ = w.make(True, deps, holds, out=o['ptr'])
                o['props'].setdefault('clip', []).append(i)
                e = C.c_int()
                p = A.mapGetNode(o['ptr'], b'clip', len(o['props']['clip']) - 1, C.byref(e))
                check(p, what, 'node not in the map')
                A.freeNode(p)
                w.objs[i]['ptr'] = p
                w.objs[i]['handles'] = 0
        elif t == 'badnode':
            i, p = w.make(op[3] % 2 == 0, w.deps(op[2], 'va'), [], bad=op[1])
            check(not p, what, 'a node with invalid information was created')
            check(not w.freed.get(i), what, 'freed although it was never created')
            w.abandon(i)
            labels.add('failed creation')
        elif t == 'func':
            h = w.deps(op[1], 'vafr')
            if op[2] == 2:
                h = [x for x in h if w.objs[x]['kind'] == w.objs[h[0]]['kind']]
            own = [(w.objs[x]['kind'], w.addref(w.objs[x]['kind'], w.objs[x]['ptr'])) for x in h]
            i = w.new('f', holds=h, own=own, mode=op[2])
            w.objs[i]['ptr'] = A.createFunction(w.fn, i, w.fd, w.core)
            labels.add('func')
        elif t == 'call':
            f, a, b = w.pick(op[1], 'f'), w.pick(op[2], 'm'), w.pick(op[3], 'm')
            if f and a and b and a != b and 'error' not in w.objs[a]['props'] and not w.objs[b]['props']:
                fo, ao, bo = w.objs[f], w.objs[a], w.objs[b]
                w.called.clear()
                A.callFunction(fo['ptr'], ao['ptr'], bo['ptr'])
                check(w.called == [f], what, 'called', w.called)
                if fo['mode'] == 1:
                    bo['props'] = dict(error=[])
                elif fo['mode'] == 2 and fo['holds']:
                    bo['props'] = dict(a=list(fo['holds']))
                elif fo['mode'] == 3:
                    bo['props'] = {k: list(v) for k, v in ao['props'].items()}
                labels.add('call')
        elif t == 'ref':
            i = w.pick(op[1], 'vafr')
            if i:
                o = w.objs[i]
                check(w.addref(o['kind'], o['ptr']) == o['ptr'], what, 'another object')
                o['handles'] += 1
        elif t == 'unref':
            i = w.pick(op[1], 'vafr')
            if i:
                o = w.objs[i]
                o['handles'] -= 1
                w.release(o['kind'], o['ptr'])
        elif t == 'map':
            w.new('m', A.createMap())
        elif t == 'freemap':
            i = w.pick(op[1], 'm')
            if i:
                w.objs[i]['handles'] = 0
                p = w.objs[i]['ptr']
                w.objs[i]['props'] = {}
                A.freeMap(p)
        elif t == 'copymap':
            a, b = w.pick(op[1], 'm'), w.pick(op[2], 'm')
            if a and b and a != b and not {'error'} & (set(w.objs[a]['props']) | set(w.objs[b]['props'])):
                A.copyMap(w.objs[a]['ptr'], w.objs[b]['ptr'])
                w.objs[b]['props'].update({k: list(v) for k, v in w.objs[a]['props'].items()})
        elif t in ('set', 'consume', 'prop'):
            m, i = w.pick(op[1], 'r' if t == 'prop' else 'm'), w.pick(op[3], 'vafr')
            if m and i and 'error' not in w.objs[m]['props'] and not w.reaches(i, m) and (t != 'prop' or w.objs[m]['handles'] == 1):
                o, x = w.objs[m], w.objs[i]
                if t == 'prop' and o.get('shared'):
                    return
                mp = A.getFramePropertiesRW(o['ptr']) if t == 'prop' else o['ptr']
                cur = o['props'].get(op[2], [])
                ok = op[4] == 0 or not cur or w.objs[cur[0]]['kind'] == x['kind']
                if t == 'consume':
                    f = {'v': A.mapConsumeNode, 'a': A.mapConsumeNode, 'f': A.mapConsumeFunction, 'r': A.mapConsumeFrame}[x['kind']]
                    x['handles'] -= 1
                else:
                    f = w.setter(x['kind'])
                r = f(mp, op[2].encode(), x['ptr'], op[4])
                check((r == 0) == ok, what, 'returned', r)
                if ok:
                    o['props'][op[2]] = (cur if op[4] else []) + [i]
                labels.add(t)
        elif t == 'get':
            m = w.pick(op[1], 'm')
            if m:
                v = w.objs[m]['props'].get(op[2], [])
                if op[3] < len(v):
                    x = w.objs[v[op[3]]]
                    f = {'v': A.mapGetNode, 'a': A.mapGetNode, 'f': A.mapGetFunction, 'r': A.mapGetFrame}[x['kind']]
                    e = C.c_int()
                    p = f(w.objs[m]['ptr'], op[2].encode(), op[3], C.byref(e))
                    check(p == x['ptr'], what, 'another object')
                    x['handles'] += 1
        elif t == 'del':
            m = w.pick(op[1], 'm')
            if m and 'error' not in w.objs[m]['props']:
                A.mapDeleteKey(w.objs[m]['ptr'], op[2].encode())
                w.objs[m]['props'].pop(op[2], None)
        elif t in ('clear', 'error'):
            m = w.pick(op[1], 'm')
            if m:
                w.objs[m]['props'] = {} if t == 'clear' else dict(error=[])
                A.clearMap(w.objs[m]['ptr']) if t == 'clear' else A.mapSetError(w.objs[m]['ptr'], b'oops')
        elif t == 'frame':
            s = w.pick(op[1], 'r') if op[1] is not None else None
            p = A.newVideoFrame(C.byref(w.vi.format), 40, 16, w.objs[s]['ptr'] if s else None, w.core)
            i = w.new('r', p, props={k: list(v) for k, v in w.objs[s]['props'].items()} if s else {})
            w.bufs[i] = i
        elif t == 'copyframe':
            s = w.pick(op[1], 'r')
            if s:
                i = w.new('r', A.copyFrame(w.objs[s]['ptr'], w.core), props={k: list(v) for k, v in w.objs[s]['props'].items()})
                w.bufs[i] = w.bufs[s]
        elif t == 'write':
            s = w.pick(op[1], 'r')
            if s:
                live = w.alive()
                shared = [i for i in live if w.objs[i]['kind'] == 'r' and i != s and w.bufs[i] == w.bufs[s]]
                check(A.getWritePtr(w.objs[s]['ptr'], 0), what, 'no pointer')
                if shared:
                    w.bufs[s] = -(n + 1)
                labels.add('write')
        elif t == 'cache':
            i = w.pick(op[1], 'va')
            if i:
                A.setCacheMode(w.objs[i]['ptr'], op[2])
        elif t in ('async', 'sync'):
            i = w.pick(op[1], 'va')
            if i:
                o = w.objs[i]
                if t == 'sync':
                    b = C.create_string_buffer(64)
                    check(not A.getFrame(op[2], o['ptr'], b, 64), what, 'a frame from a filter that has none')
                else:
                    ev, seen = threading.Event(), []

                    def done(u, f, n, node, err):
                        seen.append((f, n, node))
                        A.freeNode(node)
                        ev.set()
                    cb = capi.FRAMEDONE(done)
                    A.addNodeRef(o['ptr'])
                    w.keep = getattr(w, 'keep', []) + [cb]
                    o['handles'] -= 1       # the last reference may go while the request is running
                    A.getFrameAsync(op[2], o['ptr'], cb, None)
                    A.freeNode(o['ptr'])
                    check(ev.wait(60), what, 'no completion')
                    check(seen == [(None, op[2], o['ptr'])], what, seen)
                labels.add('request')

    def guarded(n, op):
        if n in c['thread']:
            box = []

            def go():
                try:
                    step(n, op)
                except BaseException as e:
                    box.append(e)
            t = threading.Thread(target=go)
            t.start()
            t.join()
            if box:
                raise box[0]
        else:
            step(n, op)
        if op[0] == 'async':
            for _ in range(2000):       # the callback's reference goes on another thread
                try:
                    return w.verify(f'step {n} {op}:')
                except Violation:
                    threading.Event().wait(0.001)
        w.verify(f'step {n} {op}:')

    for n, op in enumerate(c['ops']):
        guarded(n, op)
    # the end: every handle in some order
    hs = [i for i, o in w.objs.items() if o['handles'] > 0]
    if c['end'] == 1:
        hs.reverse()
    elif c['end'] >= 2:
        hs = hs[::2] + hs[1::2]
    for i in hs:
        o = w.objs[i]
        while o['handles'] > 0:
            o['handles'] -= 1
            if o['kind'] == 'm':
                o['props'] = {}
                A.freeMap(o['ptr'])
            else:
                w.release(o['kind'], o['ptr'])
        w.verify(f'release of {i}:')
    A.freeCore(w.core)
    check(not [m for m in w.msgs if b'Core freed but' in m[1]], 'at core free', w.msgs)
    check(not w.err, w.err)
    return labels, len(w.objs) > 3


# ---------------------------------------------------------------- memory of frames that share planes
def run_memory(c):
    """Histories of frames, copies and shared planes (as in C02): with every handle freed the core accounts for no frame memory."""
    labels, nt = frames.run_history(c, memory=True)
    return labels, nt


CHECKS = dict(memory=Sub(frames.s_history(), run_memory, quick=2000, thorough=60000, batch=100),
              graph=Sub(engine.s_case('C05'), run_graph, quick=1200, thorough=50000, batch=25, racy=True, timeout=300),
              objects=Sub(s_objects(), run_objects, quick=2000, thorough=60000, batch=30, timeout=120))
