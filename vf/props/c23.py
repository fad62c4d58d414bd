"""C23: Python environments are isolated and only usable through their policy.

Generated histories over an own EnvironmentPolicy: several threads create, enter, leave, wrap and
destroy environments in any order and work in them; a model of the environments predicts which one
is current, what its outputs, locals, options, loggers and destruction callbacks are, and which
objects must be refused. The release of a core is observed through the release of a log handler."""
import collections, contextvars, gc, io, queue, threading, time, weakref
from hypothesis import strategies as st
import vapoursynth as vs
from vf.core import Sub, Violation, check

NT = 3
FLAGS = [0, int(vs.ENABLE_GRAPH_INSPECTION), int(vs.DISABLE_AUTO_LOADING), int(vs.ENABLE_GRAPH_INSPECTION | vs.DISABLE_AUTO_LOADING)]


# ---- policies ---------------------------------------------------------------------------------

class TlsStore:
    def __init__(self):
        self.l = threading.local()
    def get(self):
        return getattr(self.l, 'e', None)
    def set(self, e):
        self.l.e = e


class CtxStore:
    def __init__(self):
        self.v = contextvars.ContextVar('env', default=None)
    def get(self):
        return self.v.get()
    def set(self, e):
        self.v.set(e)


class GlobalStore:
    def __init__(self):
        self.e = None
    def get(self):
        return self.e
    def set(self, e):
        self.e = e


STORES = {'tls': TlsStore, 'ctx': CtxStore, 'global': GlobalStore}


class Policy(vs.EnvironmentPolicy):
    """Follows the documentation: a dead environment counts as None in set_environment. The current
    environment may die while it's current; 'filtered' policies then report None."""
    def __init__(self, store, filtered):
        self.store, self.filtered = STORES[store](), filtered
        self.api, self.cleared = None, 0

    def on_policy_registered(self, api):
        self.api = api

    def on_policy_cleared(self):
        self.cleared += 1

    def get_current_environment(self):
        e = self.store.get()
        if self.filtered and not self.is_alive(e):
            return None
        return e

    def set_environment(self, e):
        if not self.is_alive(e):
            e = None
        p = self.store.get()
        self.store.set(e)
        return p


class Threads:
    """Persistent threads that run one function at a time."""
    def __init__(self, n):
        self.q = [queue.Queue() for _ in range(n)]
        self.t = [threading.Thread(target=self.loop, args=(q,), daemon=True) for q in self.q]
        for t in self.t:
            t.start()

    def loop(self, q):
        while True:
            f, done = q.get()
            if f is None:
                return
            try:
                r = (True, f())
            except BaseException as e:
                r = (False, e)
            done.put(r)
            del f, r, done

    def start(self, i, f):
        done = queue.Queue()
        self.q[i].put((f, done))
        return done

    @staticmethod
    def result(done):
        ok, r = done.get(timeout=40)
        if not ok:
            raise r
        return r

    def run(self, i, f):
        return self.result(self.start(i, f))

    def close(self):
        for q in self.q:
            q.put((None, None))
        for t in self.t:
            t.join(20)


class Handler:
    """A log handler: alive exactly as long as the core it was added to (or until it's removed)."""
    def __init__(self, sink):
        self.sink = sink

    def __call__(self, level, msg):
        self.sink.append((int(level), msg))


class Env:
    def __init__(self, data, flags):
        self.data, self.flags = data, flags
        self.alive = True
        self.core = False           # a core exists
        self.corobj = None
        self.outputs = {}
        self.locals = {}
        self.cb = []                # registered destruction callbacks
        self.ran = []               # what they saw
        self.threads = None
        self.cache = None
        self.logger = None          # list of the messages its logger received
        self.logexp = None
        self.backlog = []
        self.handlers = []          # [(weakref to handler, sink, expected)]
        self.objs = []
        self.pending = []


def raises(what, f):
    try:
        r = f()
    except Exception:
        return
    raise Violation(f'{what} succeeded: {r!r}')


# What can be done with an object of a dead environment. Every one has to be refused.
# o: the object, c2/core2: clip and core of a live environment that is current (or None)
PROBES = {
    'clip': [
        lambda o, g: o.get_frame(0), lambda o, g: o.get_frame_async(0).result(20), lambda o, g: o.std.FlipVertical(), lambda o, g: o[0], lambda o, g: o + o,
        lambda o, g: o * 2, lambda o, g: next(o.frames()), lambda o, g: o.set_output(), lambda o, g: o.output(io.BytesIO()), lambda o, g: o[::-1],
        lambda o, g: o.std.SetFrameProps(x=1), lambda o, g: list(o), lambda o, g: o.clear_cache(), lambda o, g: o.mode, lambda o, g: o.node_name, lambda o, g: o.timings,
        lambda o, g: dir(o) and 1 / 0, lambda o, g: o.std.FrameEval(lambda n: o),
    ],
    'aclip': [
        lambda o, g: o.get_frame(0), lambda o, g: o.get_frame_async(0).result(20), lambda o, g: o.std.AudioGain(2.0), lambda o, g: o[5:], lambda o, g: o + o, lambda o, g: o * 2,
        lambda o, g: next(o.frames()), lambda o, g: o.set_output(), lambda o, g: o.output(io.BytesIO(), wav=True), lambda o, g: o.std.Reverse() if hasattr(o.std, 'Reverse') else 1 / 0,
    ],
    'frame': [
        lambda o, g: o.copy(), lambda o, g: o[0], lambda o, g: o.props['x'], lambda o, g: len(o), lambda o, g: o.get_read_ptr(0), lambda o, g: o.get_stride(0), lambda o, g: list(o.readchunks()),
        lambda o, g: list(o), lambda o, g: dict(o.props), lambda o, g: o.props.x, lambda o, g: len(o.props),
    ],
    'wframe': [
        lambda o, g: o.copy(), lambda o, g: o[0], lambda o, g: o.props['x'], lambda o, g: o.get_write_ptr(0), lambda o, g: o.props.__setitem__('y', 1), lambda o, g: o.props.update(a=3),
        lambda o, g: o.props.__delitem__('x'), lambda o, g: setattr(o.props, 'z', 2), lambda o, g: 'x' in o.props,
    ],
    'aframe': [lambda o, g: o.copy(), lambda o, g: o[0], lambda o, g: dict(o.props), lambda o, g: len(o), lambda o, g: o.get_read_ptr(0)],
    'props': [lambda o, g: o['x'], lambda o, g: dict(o), lambda o, g: len(o), lambda o, g: o.copy(), lambda o, g: o.update(a=3), lambda o, g: list(o.items()), lambda o, g: 'x' in o],
    'plugin': [lambda o, g: o.BlankClip(), lambda o, g: o.FlipVertical, lambda o, g: list(o.functions()), lambda o, g: o.plugin_path and 1 / 0, lambda o, g: o.version],
    'func': [lambda o, g: o(), lambda o, g: o(width=16, height=16), lambda o, g: o(format=vs.GRAY8)],
    'core': [
        lambda o, g: o.std, lambda o, g: list(o.plugins()), lambda o, g: o.query_video_format(vs.YUV, vs.INTEGER, 8), lambda o, g: o.get_video_format(vs.RGB24), lambda o, g: o.num_threads,
        lambda o, g: o.create_video_frame(vs.RGB24, 4, 4), lambda o, g: o.log_message(vs.MESSAGE_TYPE_DEBUG, 'x'), lambda o, g: o.add_log_handler(print), lambda o, g: o.clear_cache(),
        lambda o, g: setattr(o, 'num_threads', 2), lambda o, g: setattr(o, 'max_cache_size', 5), lambda o, g: o.used_cache_size, lambda o, g: o.core_version, lambda o, g: str(o),
    ],
    'timings': [lambda o, g: o.enabled, lambda o, g: setattr(o, 'enabled', 1), lambda o, g: o.freed_nodes, lambda o, g: setattr(o, 'freed_nodes', 0)],
    'iter': [lambda o, g: next(o)],
    'handle': [],
    'view': [],
}
# Objects of a dead environment inside a live one.
MIXED = {
    'clip': [lambda o, g: g.std.FlipVertical(o), lambda o, g: clip_of(g) + o, lambda o, g: o + clip_of(g), lambda o, g: g.std.SetFrameProps(clip_of(g), x=o), lambda o, g: g.std.Interleave([clip_of(g), o]),
             lambda o, g: clip_of(g).get_frame(0).copy().props.update(x=[o]), lambda o, g: clip_of(g).set_output(0, o), lambda o, g: g.std.ModifyFrame(clip_of(g), [clip_of(g), o], lambda n, f: f[0]),
             lambda o, g: g.std.FrameEval(clip_of(g), lambda n: o).get_frame(0), lambda o, g: g.std.ModifyFrame(clip_of(g), clip_of(g), lambda n, f: o.get_frame(0)).get_frame(0)],
    'frame': [lambda o, g: g.std.SetFrameProps(clip_of(g), x=o), lambda o, g: clip_of(g).get_frame(0).copy().props.__setitem__('x', o),
              lambda o, g: g.std.ModifyFrame(clip_of(g), clip_of(g), lambda n, f: o).get_frame(0)],
    'wframe': [lambda o, g: clip_of(g).get_frame(0).copy().props.update(x=[o]), lambda o, g: g.std.ModifyFrame(clip_of(g), clip_of(g), lambda n, f: o).get_frame(0)],
    'func': [lambda o, g: o(clip_of(g))],
    'plugin': [lambda o, g: o.FlipVertical(clip_of(g))],
    'props': [lambda o, g: clip_of(g).get_frame(0).copy().props.update(o), lambda o, g: setattr(clip_of(g).get_frame(0).copy(), 'props', o)],
    'core': [lambda o, g: o.std.FlipVertical(clip_of(g)), lambda o, g: vs.core.get_video_format(vs.RGB24).replace(bits_per_sample=16, core=o)],
}


def clip_of(g):
    return g.std.BlankClip(width=16, height=16, length=2)


def passive(o):
    """Things that may succeed or be refused but have to leave the process alive."""
    for f in (repr, str, dir, hash, len, lambda o: o == o, lambda o: o == 5, lambda o: o != object()):
        try:
            f(o)
        except Exception:
            pass
    for a in ('format', 'width', 'num_frames', 'closed', 'readonly', 'fps', 'signature', '__signature__', 'name', 'namespace', 'plugin', 'flags', 'timings', 'num_channels', 'dependencies', '_name', '_inputs'):
        try:
            repr(getattr(o, a))
        except Exception:
            pass


KINDS = ['clip', 'aclip', 'frame', 'wframe', 'aframe', 'props', 'plugin', 'func', 'core', 'timings', 'iter', 'view', 'slow', 'eval']


class Run:
    def __init__(self, case):
        self.case = case
        self.th = Threads(NT)
        self.labels = collections.Counter()
        self.n = 0
        self.policies = []
        self.L = [vs.Local(), vs.Local()]
        self.allenvs = []
        self.register(*case['policy'])

    def fork(self):
        """Another history under the same policy, with environments of its own."""
        r = object.__new__(Run)
        r.__dict__.update(self.__dict__)
        r.labels, r.envs, r.allenvs = collections.Counter(), [], []
        r.cur = collections.defaultdict(lambda: None)
        r.stack = {t: [] for t in range(NT)}
        return r

    def register(self, store, filtered):
        self.kind = store
        self.finishing = False
        self.pol = Policy(store, filtered)
        vs.register_policy(self.pol)
        self.api = self.pol.api
        check(self.api is not None, 'on_policy_registered was not called')
        self.envs = []
        self.cur = collections.defaultdict(lambda: None)    # slot -> Env
        self.stack = {t: [] for t in range(NT)}             # entered managers: (manager, previous)

    def slot(self, t):
        return 0 if self.kind == 'global' else t

    def current(self, t):
        """The environment that has to be usable in thread t."""
        e = self.cur[self.slot(t)]
        return e if e is not None and e.alive else None

    # -- one operation, executed in thread t --
    def op(self, t, o):
        name = o[0]
        self.labels[name] += 1
        return getattr(self, 'op_' + name)(t, *o[1:])

    def pick(self, i):
        return self.envs[i % len(self.envs)] if self.envs else None

    def op_create(self, t, flags):
        if len(self.envs) >= 6:
            return
        e = Env(self.api.create_environment(FLAGS[flags]), FLAGS[flags])
        self.envs.append(e)
        self.allenvs.append(e)

    def op_enter(self, t, i, how):
        e = self.pick(i)
        if e is None or len(self.stack[t]) > 6:
            return
        w = self.api.wrap_environment(e.data)
        if how == 1:
            w = w.copy()
        elif how == 2 and self.current(t) is e:
            w = vs.get_current_environment()
            e.core = True
        m = w.use()
        m.__enter__()
        prev = self.cur[self.slot(t)]
        if self.pol.filtered and prev is not None and not prev.alive:
            prev = None
        self.stack[t].append((m, prev))
        self.cur[self.slot(t)] = e if e.alive else None

    def op_exit(self, t, exc):
        if not self.stack[t]:
            return
        m, prev = self.stack[t].pop()
        if exc:
            try:
                raise KeyError('left through an exception')
            except KeyError as x:
                r = m.__exit__(KeyError, x, x.__traceback__)
            check(not r, 'leaving an environment swallowed the exception')
        else:
            m.__exit__(None, None, None)
        self.cur[self.slot(t)] = prev if prev is not None and prev.alive else None

    def op_with(self, t, i, ops, exc):
        """with env.use(): ... executed as a with block"""
        e = self.pick(i)
        if e is None or not e.alive:
            return
        before = self.cur[self.slot(t)]
        depth = len(self.stack[t])
        class Leave(Exception):
            pass
        try:
            with self.api.wrap_environment(e.data).use():
                self.cur[self.slot(t)] = e
                for o in ops:
                    self.op(t, o)
                while len(self.stack[t]) > depth:
                    self.op_exit(t, False)
                if exc:
                    raise Leave
            check(not exc, 'leaving an environment swallowed the exception')
        except Leave:
            pass
        self.cur[self.slot(t)] = before if before is not None and before.alive else None

    def die(self, e):
        """Model: e was destroyed."""
        e.alive = False
        e.dead_core = e.core

    def check_death(self, e):
        check([c for c, *_ in e.ran] == [c for c, *_ in e.cb], f'destruction callbacks {[c for c, *_ in e.cb]} registered, {[c for c, *_ in e.ran]} ran')
        for c, ok in e.ran:
            check(ok is True, f'destruction callback {c}: {ok}')
        for fut, want in e.pending:
            check(fut.done(), 'an environment was destroyed while one of its frame requests was outstanding')
        e.pending = []
        for w, sink, exp, kept in e.handlers:
            kept.clear()
        if any(w() is not None for w, *_ in e.handlers):
            gc.collect()
        for w, *_ in e.handlers:
            check(w() is None, 'the core of a destroyed environment was not released')
        left = [m for w, sink, exp, kept in e.handlers for l, m in sink if 'filter instance(s) still exist' in m]
        check(not left, 'clips kept the core of a destroyed environment alive:', left[:1])
        left = [m for w, sink, exp, kept in e.handlers for l, m in sink if 'still allocated in framebuffers' in m]
        check(not left or any(o[0] == 'view' for o in e.objs), 'frames kept the core of a destroyed environment alive:', left[:1])
        e.handlers = []

    def op_destroy(self, t, i):
        e = self.pick(i)
        if e is None:
            return
        was = e.alive
        self.destroying = e
        self.api.destroy_environment(e.data)
        if was:
            self.die(e)
            self.check_death(e)

    def op_outputs(self, t, what, idx, alpha):
        e = self.current(t)
        if e is None:
            for f in (vs.get_outputs, lambda: vs.get_output(idx), vs.clear_outputs, lambda: vs.clear_output(idx)):
                try:
                    r = f()
                    # a destroyed environment has no outputs
                    check(not r, f'an output {r!r} is visible without a live environment')
                except Violation:
                    raise
                except Exception:
                    pass
            return
        if what in ('set', 'seta'):
            self.n += 1
            if what == 'seta':
                c = vs.core.std.BlankAudio(length=100 + self.n)
                e.outputs[idx] = (c, None)
                c.set_output(idx)
            else:
                c = vs.core.std.BlankClip(width=16, height=16, length=self.n, format=vs.GRAY8)
                a = vs.core.std.BlankClip(c) if alpha else None
                c.set_output(idx, a)
                e.outputs[idx] = (c, a)
            e.core = True
        elif what == 'clear':
            vs.clear_output(idx)
            e.outputs.pop(idx, None)
        elif what == 'clearall':
            vs.clear_outputs()
            e.outputs.clear()
        got = dict(vs.get_outputs())
        check(set(got) == set(e.outputs), f'outputs {sorted(e.outputs)} were set in this environment but {sorted(got)} are visible')
        for k, (c, a) in e.outputs.items():
            g = got[k]
            if a is None and not hasattr(g, 'clip'):
                check(g is c or (g.num_samples == c.num_samples), f'output {k} is another clip')
            else:
                check(g.clip is c and (g.alpha is a), f'output {k} is another clip')
        if idx not in e.outputs:
            raises('get_output of an index that was not set', lambda: vs.get_output(idx))

    def op_core(self, t, what, v):
        e = self.current(t)
        if e is None:
            raises('using the core without a live environment', lambda: vs.core.core)
            raises('using a filter without a live environment', lambda: vs.core.std.BlankClip())
            raises('using core.num_threads without a live environment', lambda: vs.core.num_threads)
            return
        c = vs.core.core
        if e.corobj is not None:
            check(e.corobj is c, 'the core of an environment changed')
        for o in self.envs:
            check(o is e or o.corobj is None or o.corobj is not c, 'two environments share a core')
        e.core, e.corobj = True, c
        check(int(c.flags) == e.flags, f'core flags {int(c.flags)}, environment created with {e.flags}')
        if what == 'threads':
            vs.core.num_threads = v % 5 + 1
            e.threads = v % 5 + 1
        elif what == 'cache':
            vs.core.max_cache_size = v % 100 + 10
            e.cache = v % 100 + 10
        if e.threads is not None:
            check(c.num_threads == e.threads, f'num_threads {c.num_threads}, {e.threads} was set in this environment')
        if e.cache is not None:
            check(c.max_cache_size == e.cache, f'max_cache_size {c.max_cache_size}, {e.cache} was set in this environment')

    def op_local(self, t, what, li, key, v):
        e = self.current(t)
        L, key = self.L[li], 'ab'[key]
        if e is None:
            if self.cur[self.slot(t)] is None or self.pol.filtered:
                raises('reading a Local without environment', lambda: getattr(L, key))
                raises('writing a Local without environment', lambda: setattr(L, key, v))
            else:
                # the policy still reports the destroyed environment
                raises('reading a Local of a destroyed environment', lambda: getattr(L, key))
            return
        if what == 'set':
            setattr(L, key, v)
            e.locals[li, key] = v
        elif what == 'del':
            if (li, key) in e.locals:
                delattr(L, key)
                del e.locals[li, key]
            else:
                raises('deleting a missing Local value', lambda: delattr(L, key))
        for (l, k) in [(l, k) for l in (0, 1) for k in 'ab']:
            if (l, k) in e.locals:
                check(getattr(self.L[l], k) == e.locals[l, k], f'Local value {getattr(self.L[l], k)!r}, {e.locals[l, k]!r} was set in this environment')
            else:
                check(not hasattr(self.L[l], k), 'a Local value that was not set in this environment is visible')

    def op_ondestroy(self, t, what):
        e = self.current(t)
        if e is None:
            raises('register_on_destroy without a live environment', lambda: vs.register_on_destroy(lambda: None))
            return
        if what == 'remove':
            if e.cb:
                c, f = e.cb.pop(len(e.cb) // 2)
                vs.unregister_on_destroy(f)
            else:
                raises('unregister_on_destroy of a callback that is not registered', lambda: vs.unregister_on_destroy(lambda: None))
            return
        if len(e.cb) >= 8:
            return
        self.n += 1
        cid = (what, self.n)
        ew = weakref.ref(e)
        run = self

        def cb():
            ok = True
            e = ew()
            try:
                if run.pol.get_current_environment() is not e.data:
                    ok = 'ran outside its environment'
                elif not vs.get_current_environment().alive:
                    ok = 'ran in a dead environment'
                elif what == 'work':
                    c = vs.core.std.BlankClip(width=16, height=16, length=1, color=[1, 2, 3])
                    if c.get_frame(0)[2][0, 0] != 3:
                        ok = 'wrong frame'
                    e.objs.append(('clip', c, None))
                elif what == 'outputs' and set(vs.get_outputs()) != set(e.outputs):
                    ok = 'outputs of another environment'
                elif what == 'register':
                    try:
                        vs.register_on_destroy(print)
                        ok = 'register_on_destroy succeeded during destruction'
                    except Exception:
                        pass
                elif what == 'async' and run.kind != 'global':
                    c = vs.core.std.BlankClip(width=16, height=16, length=1, color=[1, 2, 3])
                    e.pending.append((c.get_frame_async(0), None))
                elif what == 'create':
                    e2 = Env(run.api.create_environment(), 0)
                    run.envs.append(e2)
                    run.allenvs.append(e2)
                elif what == 'enter' and not run.finishing:
                    others = [o for o in run.envs if o.alive and o is not e]
                    if others:
                        with run.api.wrap_environment(others[0].data).use():
                            if run.pol.get_current_environment() is not others[0].data:
                                ok = 'could not enter another environment'
                        if run.pol.get_current_environment() is not e.data:
                            ok = 'leaving another environment did not restore the own one'
                e.core = True
            except Exception as x:
                ok = f'{type(x).__name__}: {x}'
            e.ran.append((cid, ok))
            if what == 'raise':
                raise ValueError('generated')
        vs.register_on_destroy(cb)
        e.cb.append((cid, cb))

    def op_log(self, t, what, i):
        e = self.current(t)
        if what == 'setlogger':
            e = self.pick(i)
            if e is None:
                return
            sink = []
            if not e.alive:
                raises('set_logger for a destroyed environment', lambda: self.api.set_logger(e.data, lambda l, m: sink.append(m)))
                return
            self.api.set_logger(e.data, lambda l, m: sink.append((int(l), m)))
            # messages that were logged before there was any logger are delivered to the first one
            e.logger, e.logexp = sink, e.backlog
            e.backlog = []
            e.core = True
            return
        if e is None:
            return
        if what == 'handler':
            if len(e.handlers) < 4:
                sink = []
                h = Handler(sink)
                hh = vs.core.add_log_handler(h)
                e.handlers.append((weakref.ref(h), sink, e.backlog, [hh]))
                e.backlog = []
                e.core = True
        elif what == 'msg':
            self.n += 1
            m = f'message {self.n}'
            vs.core.log_message(vs.MESSAGE_TYPE_INFORMATION, m)
            e.core = True
            rec = (int(vs.MESSAGE_TYPE_INFORMATION), m)
            if e.logger is not None:
                e.logexp.append(rec)
            for w, sink, exp, kept in e.handlers:
                exp.append(rec)
            if e.logger is None and not e.handlers:
                e.backlog.append(rec)
            for o in self.envs:
                if o.logger is not None:
                    check([x for x in o.logger if x[1].startswith('message ')] == o.logexp, f'messages {o.logger[-2:]} delivered to the logger of an environment, expected {o.logexp[-2:]}')
                for w, sink, exp, kept in o.handlers:
                    check([x for x in sink if x[1].startswith('message ')] == exp, f'messages {sink[-2:]} delivered to a handler, expected {exp[-2:]}')

    def op_ptr(self, t, i):
        e = self.pick(i)
        if e is None:
            return
        if not e.alive:
            raises('get_core_ptr of a destroyed environment', lambda: self.api.get_core_ptr(e.data))
        else:
            e.core = True
            p = self.api.get_core_ptr(e.data).value
            for o in self.envs:
                if o is not e and o.alive and o.core:
                    check(self.api.get_core_ptr(o.data).value != p, 'two environments share a core pointer')

    def op_inspect(self, t):
        cur = self.current(t)
        if cur is None:
            raises('get_current_environment without a live environment', vs.get_current_environment)
        else:
            w = vs.get_current_environment()
            cur.core = True
            check(w.alive and w.active and not w.single, 'the current environment is not reported as alive and active')
        seen = {}
        for k, e in enumerate(self.envs):
            w = self.api.wrap_environment(e.data)
            check(w.alive == e.alive, f'environment alive={w.alive}, expected {e.alive}')
            if e.alive or self.pol.filtered:
                check(bool(w.active) == (e is cur), f'environment active={w.active}, expected {e is cur}')
            check(w == w.copy(), 'an environment differs from its copy')
            check(w == self.api.wrap_environment(e.data), 'two wrappers of an environment differ')
            check(w.env_id not in seen, 'two environments are equal')
            seen[w.env_id] = w
            check((w == None) is False and w != 5, 'environment comparisons')
            repr(w)

    def op_make(self, t, kind):
        e = self.current(t)
        if e is None or len(e.objs) > 12:
            return
        core = vs.core.core
        e.core, e.corobj = True, core
        self.n += 1
        v = self.n % 250
        std = core.std
        c = std.BlankClip(width=16, height=8, length=3, format=vs.GRAY8, color=v).std.SetFrameProps(x=v)
        a = std.BlankAudio(length=50 + self.n, keep=bool(v % 2))
        if kind == 'slow':
            kind, c = 'clip', std.ModifyFrame(c, c, slow)
        elif kind == 'eval':
            rec = []
            # the callback has to run in the environment it was created in
            pol, data = self.pol, e.data
            kind, c = 'clip', std.FrameEval(c, lambda n, c=c: rec.append(pol.get_current_environment() is data) or c)
            e.objs.append(('evalrec', rec, v))
        o = {'clip': lambda: c, 'aclip': lambda: a, 'frame': lambda: c.get_frame(1), 'wframe': lambda: c.get_frame(0).copy(), 'aframe': lambda: a.get_frame(0), 'props': lambda: c.get_frame(0).copy().props,
             'plugin': lambda: std, 'func': lambda: std.BlankClip, 'core': lambda: core, 'timings': lambda: core.timings, 'iter': lambda: c.frames(), 'view': lambda: c.get_frame(0)[0]}[kind]()
        e.objs.append((kind, o, v))

    def op_frame_outside(self, t, i, k, copy):
        """Request a frame of a clip while whatever is current in this thread is."""
        e, kind, o, v = self.pick_obj(i, k, 'clip')
        if e is None or not e.alive:
            return
        f = o.get_frame(1)
        check(f[0][0, 0] == v, f'frame content {f[0][0, 0]}, expected {v}')
        e.objs.append(('wframe', f.copy(), v) if copy else ('frame', f, v))
        cur = self.current(t)
        self.labels['frame of current env' if cur is e else 'frame without env' if cur is None else 'frame under another env'] += 1

    def pick_obj(self, i, k, kind=None):
        e = self.pick(i)
        if e is None:
            return None, None, None, None
        objs = [o for o in e.objs if kind is None or o[0] == kind]
        if not objs:
            return None, None, None, None
        return (e,) + objs[k % len(objs)]

    def op_async(self, t, i, k, cb):
        e, kind, o, v = self.pick_obj(i, k, 'clip')
        # the callbacks of a policy that has one environment for all threads would change it under the other threads
        if e is None or not e.alive or self.kind == 'global':
            return
        cur = self.current(t)
        if cb:
            fut, seen, pol, want = FutureLike(), [], self.pol, (cur or e).data

            def done(f, x):
                seen.append(pol.get_current_environment() is want)
                fut.put((f, x))
            o.get_frame_async(2, done)
            e.pending.append((fut, v))
            fut.seen = seen
        else:
            fut = o.get_frame_async(2)
            e.pending.append((fut, v))
        self.labels['async ' + ('own' if cur is e else 'none' if cur is None else 'other') + (' callback' if cb else ' future')] += 1

    def op_wait(self, t, i):
        e = self.pick(i)
        if e is None:
            return
        for fut, v in e.pending:
            f = fut.result(timeout=30)
            if v is not None:
                check(f[0][0, 0] == v, f'frame content {f[0][0, 0]}, expected {v}')
            if isinstance(fut, FutureLike) and self.current(t) is not None:
                check(fut.seen == [True], 'a frame callback ran outside of the environment that requested the frame')
        e.pending = []

    def op_use(self, t, i, k, p, mixed):
        e, kind, o, v = self.pick_obj(i, k)
        if e is None or kind == 'evalrec':
            return
        cur = self.current(t)
        if e.alive:
            if kind in ('clip',) and cur is e:
                f = o.get_frame(0)
                check(f[0][7, 15] == v and f.props.x == v, 'wrong frame of a live environment')
            elif kind in ('frame', 'wframe'):
                check(o[0][3, 4] == v and o.props['x'] == v, 'a frame of a live environment changed')
            elif kind == 'view':
                check(o[3, 4] == v, 'a frame view of a live environment changed')
            elif kind == 'props':
                check(o['x'] == v, 'frame properties of a live environment changed')
            elif kind == 'core':
                check(o is e.corobj and o.num_threads > 0, 'the core of a live environment')
            return
        passive(o)
        if kind == 'view':
            check(o[3, 4] == v, 'the memory of a frame view changed after its environment was destroyed')
        if mixed and cur is not None and MIXED.get(kind):
            g = vs.core
            cur.core = True
            f = MIXED[kind][p % len(MIXED[kind])]
            self.labels['dead ' + kind + ' in live environment'] += 1
            raises(f'using a {kind} of a destroyed environment in a live one (probe {p % len(MIXED[kind])})', lambda: f(o, g))
        elif PROBES.get(kind):
            f = PROBES[kind][p % len(PROBES[kind])]
            self.labels['dead ' + kind] += 1
            raises(f'using a {kind} of a destroyed environment (probe {p % len(PROBES[kind])})', lambda: f(o, None))

    def op_drop(self, t, i, k):
        e = self.pick(i)
        if e is not None and e.objs:
            e.objs.pop(k % len(e.objs))

    def op_gc(self, t):
        gc.collect()

    def op_reregister(self, t, store, filtered):
        self.finish()
        self.register(store, filtered)

    def op_dup(self, t):
        raises('registering a second policy', lambda: vs.register_policy(Policy('tls', False)))
        check(vs.has_policy(), 'has_policy')

    def finish(self):
        live = [e for e in self.envs if e.alive]
        self.finishing = True
        api, pol = self.api, self.pol
        api.unregister_policy()
        check(pol.cleared == 1, f'on_policy_cleared ran {pol.cleared} times')
        for e in live:
            self.die(e)
        for e in live:
            self.check_death(e)
        check(not vs.has_policy(), 'a policy is registered after unregister_policy')
        for f in (api.create_environment, api.unregister_policy) + tuple((lambda e=e: api.wrap_environment(e.data)) for e in live[:1]) + tuple((lambda e=e: api.get_core_ptr(e.data)) for e in live[:1]):
            raises('the API of an unregistered policy', f)
        for e in self.envs:
            for kind, o, v in e.objs:
                if kind == 'evalrec':
                    check(all(o), 'a filter callback ran outside of the environment it was created in')
                elif kind == 'view':
                    check(o[0, 0] == v, 'the memory of a frame view changed after its environment was destroyed')

    def run(self):
        try:
            for t, o in self.case['ops']:
                self.th.run(t % NT, lambda: self.op(t % NT, o))
        finally:
            # whatever happened, leave no policy behind
            try:
                self.finish()
            finally:
                if vs.has_policy():
                    self.api.unregister_policy()
                self.th.close()


def run_parallel(case):
    r = Run(case)
    subs = [r.fork() for _ in case['threads']]

    def work(t, sub, ops):
        for o in ops:
            sub.op(t, o)
        sub.finishing = True        # destruction callbacks don't enter other environments any more
        for i in range(len(sub.envs)):
            sub.op_destroy(t, i)
    try:
        done = [r.th.start(t, lambda t=t: work(t, subs[t], case['threads'][t])) for t in range(len(subs))]
        errors = []
        for d in done:
            try:
                r.th.result(d)
            except BaseException as e:
                errors.append(e)
        if errors:
            raise errors[0]
    finally:
        try:
            r.finish()
        finally:
            if vs.has_policy():
                r.api.unregister_policy()
            r.th.close()
    labels = sorted({k for s in subs for k in s.labels if k.startswith(('dead ', 'async ', 'frame '))}) + [f'threads:{len(subs)}']
    return labels, sum(1 for s in subs if any(getattr(e, 'dead_core', False) for e in s.allenvs)) >= 2


class FutureLike:
    def __init__(self):
        self.q, self.ev = None, threading.Event()

    def put(self, r):
        self.q = r
        self.ev.set()

    def done(self):
        return self.ev.is_set()

    def result(self, timeout):
        if not self.ev.wait(timeout):
            raise TimeoutError
        f, x = self.q
        if x is not None:
            raise x
        return f


def slow(n, f):
    time.sleep(0.01)
    return f


def run_history(case):
    r = Run(case)
    r.run()
    labels = [k for k in r.labels if k.startswith(('dead ', 'async ', 'frame ')) or k in ('reregister', 'with', 'local', 'outputs', 'log')]
    labels += [f'policy:{case["policy"][0]}{"+filtered" if case["policy"][1] else ""}', f'envs:{min(len(r.allenvs), 4)}']
    died = sum(1 for e in r.allenvs if getattr(e, 'dead_core', False))
    return labels, died >= 1 and r.labels['enter'] + r.labels['with'] >= 1


I = st.integers(0, 5)
T = st.integers(0, NT - 1)
B = st.booleans()


def simple_ops(draw):
    return st.one_of(*draw)


OPS = {
    'enter': st.tuples(st.just('enter'), I, st.integers(0, 2)),
    'exit': st.tuples(st.just('exit'), B),
    'destroy': st.tuples(st.just('destroy'), I),
    'create': st.tuples(st.just('create'), st.integers(0, 3)),
    'outputs': st.tuples(st.just('outputs'), st.sampled_from(['set', 'set', 'seta', 'get', 'clear', 'clearall']), st.integers(0, 2), B),
    'core': st.tuples(st.just('core'), st.sampled_from(['get', 'threads', 'cache']), st.integers(0, 99)),
    'local': st.tuples(st.just('local'), st.sampled_from(['set', 'set', 'get', 'del']), st.integers(0, 1), st.integers(0, 1), st.integers(0, 99)),
    'ondestroy': st.tuples(st.just('ondestroy'), st.sampled_from(['plain', 'work', 'outputs', 'raise', 'register', 'async', 'create', 'enter', 'remove'])),
    'log': st.tuples(st.just('log'), st.sampled_from(['setlogger', 'handler', 'msg', 'msg']), I),
    'ptr': st.tuples(st.just('ptr'), I),
    'inspect': st.tuples(st.just('inspect')),
    'make': st.tuples(st.just('make'), st.sampled_from(KINDS)),
    'make2': st.tuples(st.just('make'), st.sampled_from(['clip', 'frame', 'wframe', 'slow', 'eval'])),
    'frame_outside': st.tuples(st.just('frame_outside'), I, I, B),
    'async': st.tuples(st.just('async'), I, I, B),
    'wait': st.tuples(st.just('wait'), I),
    'use': st.tuples(st.just('use'), I, I, st.integers(0, 30), B),
    'use2': st.tuples(st.just('use'), I, I, st.integers(0, 30), B),
    'drop': st.tuples(st.just('drop'), I, I),
    'gc': st.tuples(st.just('gc')),
    'dup': st.tuples(st.just('dup')),
    'reregister': st.tuples(st.just('reregister'), st.sampled_from(['tls', 'ctx', 'global']), B),
}
BODY = st.one_of(*[OPS[k] for k in ('outputs', 'core', 'local', 'ondestroy', 'log', 'inspect', 'make', 'make2', 'frame_outside', 'async', 'wait', 'use', 'destroy', 'enter', 'exit')])
WITH = st.tuples(st.just('with'), I, st.lists(BODY, min_size=1, max_size=6), B)
ONE = st.one_of(WITH, *[OPS[k] for k in OPS if k != 'reregister'], WITH, WITH)


@st.composite
def histories(draw):
    policy = [draw(st.sampled_from(['tls', 'tls', 'ctx', 'global'])), draw(B)]
    n = draw(st.integers(1, 4))
    ops = [[0, ['create', draw(st.integers(0, 3))]] for _ in range(n)]
    for i in range(n):
        made = draw(st.lists(st.sampled_from(KINDS + ['clip', 'frame', 'wframe', 'slow', 'eval']), max_size=4))
        if made:
            ops.append([draw(T), ['with', i, [['make', k] for k in made] + [tolist(o) for o in draw(st.lists(st.one_of(OPS['ondestroy'], OPS['log'], OPS['outputs']), max_size=2))], draw(B)]])
    body = draw(st.lists(st.tuples(T, ONE), min_size=4, max_size=28))
    ops += [[t, tolist(o)] for t, o in body]
    if draw(st.integers(0, 5)) == 0:
        ops.append([draw(T), tolist(draw(OPS['reregister']))])
        ops += [[0, ['create', 0]], [1, ['create', 1]]]
        ops += [[t, tolist(o)] for t, o in draw(st.lists(st.tuples(T, ONE), min_size=3, max_size=12))]
    return dict(policy=policy, ops=ops)


@st.composite
def parallel(draw):
    threads = []
    for _ in range(draw(st.integers(2, NT))):
        n = draw(st.integers(1, 2))
        ops = [['create', draw(st.integers(0, 3))] for _ in range(n)]
        for i in range(n):
            ops.append(['with', i, [['make', k] for k in draw(st.lists(st.sampled_from(KINDS), max_size=3))], False])
        ops += [tolist(o) for o in draw(st.lists(ONE.filter(lambda o: o[0] != 'dup'), min_size=3, max_size=14))]
        threads.append(ops)
    return dict(policy=[draw(st.sampled_from(['tls', 'ctx'])), draw(B)], ops=[], threads=threads)


def tolist(o):
    return [tolist(x) if isinstance(x, (tuple, list)) else x for x in o]


CHECKS = {
    'history': Sub(histories(), run_history, quick=3000, thorough=40000, batch=30),
    'parallel': Sub(parallel(), run_parallel, quick=600, thorough=10000, batch=30, racy=True),
}
