"""C26 log messages: histories of handlers and messages on several cores, concurrent logging, Python handlers."""
import ctypes as C, os, threading
import vapoursynth as vs
from hypothesis import strategies as st
from vf.core import Sub, check, Violation
from vf import capi, vsl
from vf.capi import api, cstr

WARN = 2            # mtWarning
FEW_HUNDRED = 200   # the documented bound of kept messages: "up to a few hundred"
_s = {}


class H:
    def __init__(self, world, idx, nest):
        self.w, self.idx, self.nest = world, idx, nest
        self.got, self.freed, self.handle = [], 0, None
        self.cb = capi.LOGHANDLER(self.on)
        self.fr = capi.FREEDATA(self.onfree)
        self.busy = False

    def on(self, t, msg, ud):
        try:
            if ud != self.idx + 1000 or self.freed:
                self.w.errs.append(f'handler {self.idx} called with user data {ud} after {self.freed} free calls')
            m = cstr(msg)
            self.got.append((t, m))
            if self.nest and not self.busy and m.startswith(b'm') and self.w.nestleft > 0:
                self.w.nestleft -= 1
                self.busy = True
                n = b'nested %d' % self.w.nestno
                self.w.nestno += 1
                self.w.nested.append((1, n, set(id(h) for h in self.w.live)))
                api().logMessage(1, n, self.w.core)
                self.busy = False
        except BaseException as e:
            self.w.errs.append(repr(e))

    def onfree(self, ud):
        if ud != self.idx + 1000:
            self.w.errs.append(f'free callback of {self.idx} got {ud}')
        self.freed += 1


class World:
    """One core: which messages each handler must have received."""
    def __init__(self):
        A = api()
        self.core = A.createCore(2)
        self.live, self.all, self.errs, self.nested = [], [], [], []
        self.want = {}          # handler -> expected messages (non-nested, in order)
        self.pending = []       # kept messages
        self.unbounded = []     # everything logged since there is no handler
        self.nestleft, self.nestno = 0, 0
        self.std = A.getPluginByID(b'com.vapoursynth.std', self.core)


@st.composite
def s_history(draw):
    msg = st.one_of(st.text(alphabet=st.characters(blacklist_characters='\0', blacklist_categories=('Cs',)), max_size=20).map(lambda s: s.encode().hex()), st.binary(max_size=10).map(lambda b: b.replace(b'\0', b'').hex()),
                    st.sampled_from(['', b'%s%n%d'.hex(), (b'x' * 5000).hex()]))
    core = st.integers(0, 1)
    op = st.one_of(st.tuples(st.just('log'), core, st.integers(0, 3), msg), st.tuples(st.just('log'), core, st.integers(0, 3), msg), st.tuples(st.just('add'), core, st.booleans(), st.booleans()),
                   st.tuples(st.just('add'), core, st.just(False), st.booleans()), st.tuples(st.just('remove'), core, st.integers(0, 5)), st.tuples(st.just('remove'), core, st.integers(0, 5)),
                   st.tuples(st.just('stale'), core, st.integers(0, 5)), st.tuples(st.just('burst'), core, st.sampled_from([3, 30, 150, 199, 250, 480, 499, 500, 501, 520, 700])),
                   st.tuples(st.just('misuse'), core), st.tuples(st.just('other'), core, st.integers(0, 5)), st.tuples(st.just('fresh'), core), st.tuples(st.just('leak'), core)).map(list)
    return draw(st.lists(op, min_size=2, max_size=30))


def run_history(c):
    A = api()
    ws = [World(), World()]
    labels = set()
    n = 0

    def logged(w, t, m, exact=True):
        """The model of one message."""
        if w.live:
            for h in w.live:
                w.want[id(h)].append((t, m))
        else:
            w.unbounded.append((t, m))

    def verify(w, what):
        check(not w.errs, what, w.errs[:3])
        for h in w.all:
            got = list(h.got)
            plain = [x for x in got if not x[1].startswith(b'nested ')]
            check(plain == w.want[id(h)], what, 'handler', h.idx, first_diff(plain, w.want[id(h)]))
            nst = [x for x in got if x[1].startswith(b'nested ')]
            wn = [(t, m) for t, m, who in w.nested if id(h) in who]
            check(sorted(nst) == sorted(wn), what, 'handler', h.idx, 'nested messages', nst[:5], wn[:5])
            check(h.freed == (0 if h in w.live else 1), what, 'handler', h.idx, 'free callback ran', h.freed, 'times')

    def free(w, what):
        for h in list(w.live):
            pass
        live = list(w.live)
        A.freeCore(w.core)
        w.live = []
        for h in live:
            # warnings of freeCore itself may follow
            k = len(w.want[id(h)])
            extra = [x for x in h.got if not x[1].startswith(b'nested ')][k:]
            check(all(t == WARN and m.startswith(b'Core freed but') for t, m in extra), what, 'unexpected messages at core free', extra)
            w.want[id(h)] += extra
        verify(w, what + ' after freeCore')

    for i, op in enumerate(c):
        w = ws[op[1]]
        what = f'step {i} {op[0]}:'
        if op[0] == 'log':
            m = b'm%d ' % n + bytes.fromhex(op[3])
            n += 1
            w.nestleft = 3
            # nested messages go to the same handlers; a handler that nests is only called while live
            logged(w, op[2], m)
            A.logMessage(op[2], m, w.core)
        elif op[0] == 'burst':
            for _ in range(op[2]):
                m = b'M%d' % n      # capital: no nesting
                n += 1
                logged(w, n % 4, m)
                A.logMessage(n % 4, m, w.core)
        elif op[0] == 'misuse':
            # the core itself complains about a bad registration
            before = {id(h): len(h.got) for h in w.live}
            cb = capi.PUBLIC(lambda *a: None)
            r = A.registerFunction(b'x', b'', b'', cb, None, w.std)
            check(r == 0, what, 'registering into a read only plugin succeeded')
            if w.live:
                ms = [h.got[before[id(h)]:] for h in w.live]
                check(all(len(x) == 1 for x in ms) and len(set(map(tuple, ms))) == 1 and ms[0][0][0] == 3 and b'x' in ms[0][0][1], what, 'message of the core', ms)
                for h in w.live:
                    w.want[id(h)].append(ms[0][0])
            else:
                w.unbounded.append(None)    # text not fixed
        elif op[0] == 'add':
            h = H(w, len(w.all), op[2])
            first = not w.live
            w.all.append(h)
            w.live.append(h)
            w.want[id(h)] = []
            h.handle = A.addLogHandler(C.cast(h.cb, C.c_void_p), C.cast(h.fr, C.c_void_p), h.idx + 1000, w.core)
            check(h.handle, what, 'no handle')
            check(len({x.handle for x in w.live}) == len(w.live), what, 'handles not unique')
            if first:
                plain = [x for x in h.got if not x[1].startswith(b'nested ')]
                k = len(w.unbounded)
                if k <= FEW_HUNDRED:
                    kept = k
                else:
                    kept = next((j for j in range(k) if j >= len(plain) or (w.unbounded[j] is not None and plain[j] != w.unbounded[j])), k)
                    check(kept >= FEW_HUNDRED, what, 'only', kept, 'of', k, 'messages kept')
                    labels.add('overflow' if kept < k else 'many')
                exp = [plain[j] if w.unbounded[j] is None and j < len(plain) else w.unbounded[j] for j in range(kept)]
                rest = plain[kept:]
                check(plain[:kept] == exp, what, 'kept messages', first_diff(plain[:kept], exp))
                check(rest == [] or (k > FEW_HUNDRED and len(rest) == 1 and rest[0][0] == WARN), what, 'after the kept messages', rest[:3])
                for j in range(kept):
                    if w.unbounded[j] is None:
                        check(plain[j][0] == 3 and b'x' in plain[j][1], what, 'kept core message', plain[j])
                w.want[id(h)] = plain
                if k:
                    labels.add('handed over')
            w.unbounded = []
            if len(w.live) > 1:
                labels.add('several handlers')
        elif op[0] == 'remove' and w.live:
            h = w.live.pop(op[2] % len(w.live))
            check(A.removeLogHandler(h.handle, w.core) != 0, what, 'removal failed')
            check(h.freed == 1, what, 'free callback', h.freed)
            labels.add('removed')
        elif op[0] == 'stale' and w.all:
            h = w.all[op[2] % len(w.all)]
            if h not in w.live and h.handle not in {x.handle for x in w.live}:
                check(A.removeLogHandler(h.handle, w.core) == 0, what, 'stale handle removed')
                labels.add('stale')
        elif op[0] == 'other' and w.live:
            h = w.live[op[2] % len(w.live)]
            o = ws[1 - op[1]]
            check(A.removeLogHandler(h.handle, o.core) == 0, what, 'removed through another core')
            labels.add('other core')
        elif op[0] == 'fresh':
            free(w, what)
            ws[op[1]] = World()
            labels.add('core freed')
        elif op[0] == 'leak':
            f = capi.VideoFormat()
            A.queryVideoFormat(C.byref(f), 1, 0, 8, 0, 0, w.core)
            fr = A.newVideoFrame(C.byref(f), 64, 64, None, w.core)
            live = list(w.live)
            free(w, what)
            for h in live:
                check(any(b'bytes still allocated' in m for _, m in h.got), what, 'no warning about the leaked frame', h.got[-3:])
            A.freeFrame(fr)
            ws[op[1]] = World()
            labels.add('leak')
        for x in ws:
            verify(x, what)
    for x in ws:
        free(x, 'end')
    return labels, bool(labels)


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f'message {i}: got {x} want {y}'
    return f'got {len(a)} messages, want {len(b)}: next {(a[len(b):] or b[len(a):])[:2]}'


# ---------------------------------------------------------------- concurrent logging
@st.composite
def s_threads(draw):
    n = draw(st.integers(1, 4))
    wit = draw(st.booleans())
    small = draw(st.booleans())
    d = st.sampled_from([0, 10, 200, 1000, 5000, 20000, 100000])
    return dict(msgs=[draw(st.integers(1, 45 if small else 400)) for _ in range(n)], gap=[draw(st.sampled_from([0, 0, 50, 300])) for _ in range(n)], witness=wit,
                plan=[[draw(d), draw(st.one_of(d, st.just(-1))), draw(st.sampled_from([0, 0, 30, 300]))] for _ in range(draw(st.integers(1, 5)))])


def run_threads(c):
    if 'lib' not in _s:
        _s['lib'] = C.CDLL(os.path.join(os.environ['VF_OUT'], 'libvflog.so'))
        _s['lib'].vflog_run.restype = C.c_long
        _s['lib'].vflog_run.argtypes = [C.c_void_p, C.c_int, C.c_void_p, C.c_void_p, C.c_int, C.c_void_p, C.c_int, C.c_void_p, C.c_long]
    nt, nh = len(c['msgs']), len(c['plan'])
    plan = [list(p) for p in c['plan']]
    if c['witness']:
        plan[0][1] = -1
    flat = [x for p in plan for x in p]
    total = sum(c['msgs'])
    cap = nh * (9 + total + 600) + 2 * total + 64
    out = (C.c_long * cap)()
    got = _s['lib'].vflog_run(api()._addr, nt, (C.c_int * nt)(*c['msgs']), (C.c_int * nt)(*c['gap']), nh, (C.c_int * len(flat))(*flat), int(c['witness']), out, cap)
    check(got <= cap, 'handlers received more messages than were logged', got)
    pos = 0
    hs = []
    for _ in range(nh):
        k = out[pos]
        hs.append(dict(zip(('bad', 'freed', 'freedret', 'rem', 'addstart', 'added', 'remstart', 'removed'), out[pos + 1:pos + 9])))
        hs[-1]['got'] = list(out[pos + 9:pos + 9 + k])
        pos += 9 + k
    when = {}
    for t in range(nt):
        for i in range(c['msgs'][t]):
            when[t * 100000 + i] = (out[pos], out[pos + 1])
            pos += 2
    delivered = set()
    labels = set()
    for j, h in enumerate(hs):
        what = f'handler {j}'
        check(h['bad'] == 0, what, 'flags', h['bad'], '(1 overlapping calls, 2 after free, 4 after removal, 8 text or type changed)')
        check(h['freed'] == 1, what, 'freed', h['freed'])
        if plan[j][1] >= 0:
            check(h['rem'] != 0 and h['freedret'] == 1, what, 'removal returned', h['rem'], 'freed', h['freedret'])
            labels.add('removed')
        g = [x for x in h['got'] if x >= 0]
        extra = len(h['got']) - len(g)
        check(extra == 0 or (extra == 1 and total > FEW_HUNDRED), what, 'received', extra, 'messages nobody logged')
        check(len(set(g)) == len(g), what, 'received a message twice')
        h['set'] = set(g)
        delivered |= h['set']
        last = {}
        for x in g:
            t = x // 100000
            check(last.get(t, -1) < x, what, 'messages of one thread out of order', last.get(t), x)
            last[t] = x
        for m, (a, b) in when.items():
            if h['added'] < a and b < h['remstart']:
                check(m in h['set'], what, 'missed message', m)
            if m in h['set']:
                check(not a > h['removed'], what, 'received message', m, 'logged after its removal')
        if c['witness'] and j:
            w = [x for x in hs[0]['got'] if x >= 0]
            if g:
                s = w.index(g[0])
                check(w[s:s + len(g)] == g, what, 'did not receive a contiguous part of what the permanent handler received')
                if len(g) < len(w):
                    labels.add('part')
    pos = [{m: i for i, m in enumerate(h['got'])} for h in hs]
    for a in range(nh):
        for b in range(a):
            com = [m for m in hs[a]['got'] if m in hs[b]['set'] and m >= 0]
            check(all(pos[b][x] < pos[b][y] for x, y in zip(com, com[1:])), 'handlers', a, b, 'saw messages in different orders')
    if total <= FEW_HUNDRED:
        for m, (a, b) in when.items():
            if m not in delivered:
                check(not any(h['addstart'] > b for h in hs), 'message', m, 'logged without handlers was not handed to the next one')
                labels.add('left over')
    return labels | {f'threads{nt}'}, True


# ---------------------------------------------------------------- Python handlers
@st.composite
def s_python(draw):
    msg = st.one_of(st.text(alphabet=st.characters(blacklist_characters='\0', blacklist_categories=('Cs',)), max_size=30), st.sampled_from(['%d %s', 'x' * 3000]))
    op = st.one_of(st.tuples(st.just('log'), st.integers(0, 3), msg), st.tuples(st.just('log'), st.integers(0, 3), msg), st.tuples(st.just('add'), st.booleans()), st.tuples(st.just('remove'), st.integers(0, 5)),
                   st.tuples(st.just('again'), st.integers(0, 5)), st.tuples(st.just('raw'), st.integers(0, 3), st.binary(min_size=1, max_size=9).map(lambda b: b.replace(b'\0', b'\xff').hex()))).map(list)
    return draw(st.lists(op, min_size=2, max_size=25))


def run_python(c):
    import gc, sys, weakref
    pc = vsl.core()
    labels = set()
    hs = []
    unraisable = []
    old = sys.unraisablehook
    sys.unraisablehook = lambda u: unraisable.append(repr(u.exc_value))

    class Fn:
        def __init__(self, bad):
            self.got, self.bad, self.first = [], bad, True

        def __call__(self, t, m):
            self.got.append((int(t), m))
            if self.bad and not self.first:
                raise ValueError('handler failed')
            self.first = False
    nbad = 0
    try:
        for i, op in enumerate(c):
            live = [h for h in hs if h['live']]
            if op[0] == 'log':
                pc.log_message(op[1], op[2])
                for h in live:
                    h['want'].append((op[1], op[2]))
                    nbad += h['fn'].bad
            elif op[0] == 'raw':
                # a message that reached the core as bytes: by loading a plugin whose name isn't text there is only an error; use the C API
                b = bytes.fromhex(op[2])
                api().logMessage(op[1], b, raw_core())
                for h in live:
                    h['want'].append((op[1], b.decode('utf-8', 'replace')))
                    nbad += h['fn'].bad
                labels.add('raw')
            elif op[0] == 'add':
                fn = Fn(op[1])
                lh = pc.add_log_handler(fn)
                # a freshly added handler gets a test message (and whatever was kept before)
                hs.append(dict(fn=fn, lh=lh, live=True, want=list(fn.got), ref=weakref.ref(fn)))
                check(fn.got and fn.got[0][0] == 0, 'no test message')
                fn.got[:] = []
                hs[-1]['want'] = []
                labels.add('add')
            elif op[0] == 'remove' and live:
                h = live[op[1] % len(live)]
                check(pc.remove_log_handler(h['lh']), 'removal refused')
                h['live'] = False
                labels.add('remove')
            elif op[0] == 'again':
                dead = [h for h in hs if not h['live']]
                if dead:
                    check(not pc.remove_log_handler(dead[op[1] % len(dead)]['lh']), 'handle removed twice')
                    labels.add('again')
            for j, h in enumerate(hs):
                check(h['fn'].got == h['want'], f'step {i} {op}: handler {j}', first_diff(h['fn'].got, h['want']))
    finally:
        for h in hs:
            if h['live']:
                pc.remove_log_handler(h['lh'])
        sys.unraisablehook = old
    check(len(unraisable) == nbad and all('handler failed' in u for u in unraisable), 'exceptions of handlers', nbad, unraisable[:3])
    refs = [h['ref'] for h in hs]
    hs.clear()
    h = live = dead = fn = lh = None
    gc.collect()
    check(not any(r() for r in refs), 'a removed handler is kept alive')
    return labels, len(c) > 1


def raw_core():
    """The VSCore of the Python core, found through a function's core argument."""
    if 'raw' not in _s:
        res = []
        cb = capi.PUBLIC(lambda i, o, d, core, vsapi: res.append(core))
        _s['cb'] = cb
        # a plugin registered by the test plugin hands out its core pointer
        _s['raw'] = int(vsl.core().vft.CorePtr())
    return _s['raw']


CHECKS = dict(history=Sub(s_history(), run_history, quick=6000, thorough=60000, batch=100), threads=Sub(s_threads(), run_threads, quick=4000, thorough=60000, batch=50, racy=True),
              python=Sub(s_python(), run_python, quick=4000, thorough=40000, batch=100))
