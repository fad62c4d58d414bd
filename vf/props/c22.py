"""C22 Python boundary: frames()/async delivery, output() byte streams with Y4M/WAV/W64 headers, memoryviews and frame histories."""
import ctypes, io, random, struct, threading, time
import numpy as np
import vapoursynth as vs
from hypothesis import strategies as st
from vf.core import Sub, check, Violation
from vf import vsl
from vf.engine import perturbed
from vf.vsl import core, F, INT, FLOAT, GRAY, RGB, YUV
from vf.props import c17

FS = 3072
MSGS = [None, None, None, 'plain ', 'h\u00e9llo ', b'\xff\xfe raw '.decode('latin1'), '\u20ac' * 3000]


def delayed(node, plan):
    """Completion order of the frames shuffled by sleeping requests."""
    if plan is None:
        return node
    def sel(n, f):
        return f
    def ev(n):
        time.sleep(plan[n % len(plan)] / 2000)
        return node
    if isinstance(node, vs.AudioNode):
        return node
    return core().std.FrameEval(node, ev)


def fail_kw(c):
    m = MSGS[c['msg'] % len(MSGS)]
    if m is None:
        return {}
    return dict(msg=m.encode('latin1') if '\xff' in m else m.encode())


# ---------------------------------------------------------------- frames() and get_frame_async
@st.composite
def s_frames(draw):
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 60)))
    return dict(n=n, fail=draw(st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, n - 1), min_size=1, max_size=3))), msg=draw(st.integers(0, 20)), prefetch=draw(st.one_of(st.none(), st.integers(-1, 8), st.just(100))), backlog=draw(st.one_of(st.none(), st.integers(-1, 12), st.just(100))),
                close=draw(st.booleans()), stop=draw(st.one_of(st.none(), st.none(), st.none(), st.integers(0, 60))), plan=draw(st.one_of(st.none(), st.lists(st.integers(0, 3), min_size=1, max_size=5))), threads=draw(st.integers(1, 4)), audio=draw(st.integers(0, 3)) == 0, slow=draw(st.booleans()), count=draw(st.booleans()),
                sched=draw(st.one_of(st.none(), st.tuples(st.integers(1, 2**31), st.integers(5, 120), st.sampled_from([5, 40, 150])).map(list))))


def coded(c):
    n = c['n']
    if c['audio']:
        m = c17.make([INT, 16], [0, 1], 44100, n * FS - 5, 'ramp', 3)
        node = m.node()
        return node, [[d[i * FS:(i + 1) * FS] for d in m.data] for i in range(n)]
    m = vsl.make_clip([GRAY, INT, 16, 0, 0], 9, 2, n, ['coded', 5], props=[dict(idx=i + 1) for i in range(n)])
    for i, fr in enumerate(m.frames):
        fr[0][0, 0] = i
    return m.node(), m.frames


def content(fr, c):
    if c['audio']:
        return [c17.signed(np.array(fr[k])) for k in range(fr.num_channels)]
    return [np.array(fr[0])]


def equal(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, b))


def run_frames(c):
    core().num_threads = c['threads']
    node, want = coded(c)
    if c['fail']:
        node = (core().vft.AFail if c['audio'] else core().vft.Fail)(node, frames=c['fail'], **fail_kw(c))
    node = delayed(node, c['plan'])
    prefetch = c['prefetch'] if c['prefetch'] is not None and c['prefetch'] > 0 else c['threads']
    limit = prefetch * 3 if c['backlog'] is None or c['backlog'] < 0 else max(prefetch, c['backlog'])
    started = []
    if c.get('count') and not c['audio']:
        def note(n):
            started.append(n)
            return node0
        node0 = node
        node = core().std.FrameEval(node, note)
    what = f'frames() {c}'
    first = min(c['fail']) if c['fail'] else c['n']
    got = 0
    done = threading.Event()
    hold = []
    res = {}

    def go():
        nonlocal got
        try:
            it = node.frames(prefetch=c['prefetch'], backlog=c['backlog'], close=c['close'])
            for fr in it:
                i = got
                if i >= len(want) or not equal(content(fr, c), want[i]):
                    res['bad'] = f'frame {i} of the iteration has the wrong content'
                    return
                got += 1
                if len(set(started)) > got + limit:
                    res['bad'] = f'{len(set(started))} frames were started after {got} had been taken, at most {limit} may wait'
                    return
                if hold and c['close'] and not hold[-1].closed:
                    res['bad'] = f'frame {i - 1} was not closed although close was requested'
                    return
                hold.append(fr)
                if c['slow'] and i % 4 == 1:
                    time.sleep(0.001)
                if c['stop'] is not None and got > c['stop']:
                    it.close()
                    res['stopped'] = True
                    return
        except vs.Error as e:
            res['error'] = e
        finally:
            done.set()

    t = threading.Thread(target=lambda: _in_env(go), daemon=True)
    t.start()
    check(done.wait(30), what, f'no progress after frame {got}')
    t.join(5)
    check('bad' not in res, what, res.get('bad'))
    if c['stop'] is not None and c['stop'] < first:
        check(res.get('stopped') and got == c['stop'] + 1, what, 'early stop', got, res)
    elif c['fail']:
        check(got == first, what, f'{got} frames delivered, frame {first} fails')
        check('error' in res and f'vft-fail {first}' in str(res['error']), what, 'error', repr(res.get('error')))
    else:
        check(got == c['n'] and not res, what, f'{got} of {c["n"]} frames', res)
    if not c['close']:
        for i, fr in enumerate(hold):
            check(not fr.closed and equal(content(fr, c), want[i]), what, f'frame {i} was closed or changed after it was delivered')
    return ['frames', 'fail' if c['fail'] else 'whole'], c['n'] > 1


ENV = None


def _in_env(fn):
    with ENV.use():
        fn()


def run_frames_(c):
    global ENV
    core()
    ENV = vs.get_current_environment()
    return run_frames(c)


@st.composite
def s_async(draw):
    n = draw(st.integers(1, 12))
    return dict(n=n, fail=draw(st.lists(st.integers(0, n - 1), max_size=3)), msg=draw(st.integers(0, 20)), req=draw(st.lists(st.tuples(st.integers(-2, n + 2), st.booleans()).map(list), min_size=1, max_size=30)), plan=draw(st.one_of(st.none(), st.lists(st.integers(0, 3), min_size=1, max_size=5))),
                threads=draw(st.integers(1, 4)), audio=draw(st.integers(0, 3)) == 0,
                sched=draw(st.one_of(st.none(), st.tuples(st.integers(1, 2**31), st.integers(5, 120), st.sampled_from([5, 40, 150])).map(list))))


def run_async(c):
    core().num_threads = c['threads']
    node, want = coded(c)
    if c['fail']:
        node = (core().vft.AFail if c['audio'] else core().vft.Fail)(node, frames=c['fail'], **fail_kw(c))
    node = delayed(node, c['plan'])
    what = f'get_frame_async {c}'
    results = [None] * len(c['req'])
    ev = [threading.Event() for _ in c['req']]
    count = [0] * len(c['req'])
    futs = {}
    for k, (n, cb) in enumerate(c['req']):
        if cb:
            def done(fr, err, k=k):
                count[k] += 1
                results[k] = (fr, err)
                ev[k].set()
            node.get_frame_async(n, done)
        else:
            futs[k] = node.get_frame_async(n)
    for k, (n, cb) in enumerate(c['req']):
        if cb:
            check(ev[k].wait(30), what, f'request {k} for frame {n} was never answered')
            fr, err = results[k]
        else:
            try:
                fr, err = futs[k].result(timeout=30), None
            except TimeoutError:
                raise Violation(f'{what}: request {k} for frame {n} was never answered')
            except vs.Error as e:
                fr, err = None, e
        if n < 0 or n >= c['n']:
            check(isinstance(err, vs.Error) and fr is None, what, f'frame {n} outside the clip', fr, err)
        elif n in c['fail']:
            check(isinstance(err, vs.Error) and f'vft-fail {n}' in str(err), what, f'frame {n} failing', fr, err)
        else:
            check(err is None and equal(content(fr, c), want[n]), what, f'frame {n}: wrong frame or error', err)
            if not c['audio'] and not c['plan']:
                check(fr.props['idx'] == n + 1, what, 'props')
    for n in {n for n, _ in c['req']}:
        try:
            fr, err = node.get_frame(n), None
        except Exception as e:
            fr, err = None, e
        if n < 0 or n >= c['n']:
            check(isinstance(err, (ValueError, vs.Error)), what, f'get_frame({n}) outside the clip', fr, err)
        elif n in c['fail']:
            m = MSGS[c['msg'] % len(MSGS)]
            check(isinstance(err, vs.Error) and (f'vft-fail {n}' in str(err) or m and len(m) > 1000), what, f'get_frame({n}) failing', fr, type(err), str(err)[:200])
        else:
            check(err is None and equal(content(fr, c), want[n]), what, f'get_frame({n})', err)
    check(all(x <= 1 for x in count), what, 'a callback was called twice', count)
    return ['async'], True


# ---------------------------------------------------------------- output()
class Writer:
    def __init__(self, fail_at=None, slow=0):
        self.data, self.calls, self.fail_at, self.slow, self.flushed = bytearray(), 0, fail_at, slow, 0

    def write(self, b):
        self.calls += 1
        if self.fail_at is not None and self.calls > self.fail_at:
            raise OSError('disk full')
        b = bytes(b)
        if self.slow:
            time.sleep(0.0005)
        self.data += b
        return len(b)

    def flush(self):
        self.flushed += 1


@st.composite
def s_output(draw):
    fmt = draw(vsl.s_format(ints=(8, 9, 10, 12, 16, 17, 24, 32), maxss=3))
    f = F(*fmt)
    n = draw(st.integers(1, 8))
    return dict(fmt=fmt, w=vsl.sub_dim(draw, f.ssw, 140), h=vsl.sub_dim(draw, f.ssh, 12), n=n, content=draw(vsl.s_content()), y4m=draw(st.booleans()), fps=draw(st.sampled_from([[24, 1], [30000, 1001], [0, 1]])), prefetch=draw(st.integers(-1, 5)), backlog=draw(st.integers(-1, 8)),
                fail=draw(st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, n - 1), min_size=1, max_size=2))), msg=draw(st.integers(0, 20)), wfail=draw(st.one_of(st.none(), st.none(), st.none(), st.integers(0, 20))), progress=draw(st.sampled_from([None, 'ok', 'ok', 'raise'])),
                alpha=draw(st.sampled_from([None, None, None, None, 'same', 'big', 'small', 'int', 'list', 'audio'])), threads=draw(st.integers(1, 4)), plan=draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, 3), min_size=1, max_size=4))), slow=draw(st.booleans()))


CHROMA = {(1, 1): '420', (1, 0): '422', (0, 0): '444', (2, 2): '410', (2, 0): '411', (0, 1): '440'}


class Progress(Exception):
    pass


def run_output(c):
    core().num_threads = c['threads']
    f = F(*c['fmt'])
    m = vsl.make_clip(f, c['w'], c['h'], c['n'], c['content'], fps=tuple(c['fps']))
    node = m.node()
    what = f'output() {c}'
    chunks = []     # per frame bytes
    am = None
    if c['alpha'] in ('same', 'big', 'small'):
        k = {'same': 1, 'big': 3, 'small': 1}[c['alpha']]
        am = vsl.make_clip([GRAY, f.st, f.bits, 0, 0], c['w'] * k + (k > 1), max(1, c['h'] * k // (2 if c['alpha'] == 'small' else 1)), c['n'], c['content'], salt=4)
        node = core().std.ClipToProp(node, am.node(), prop='_Alpha')
    elif c['alpha'] == 'int':
        node = node.std.SetFrameProps(_Alpha=5)
    elif c['alpha'] == 'list':
        node = node.std.SetFrameProps(_Alpha=[1, 2])
    elif c['alpha'] == 'audio':
        au = core().std.BlankAudio(length=10).get_frame(0)
        def sel(n, f):
            o = f.copy()
            o.props['_Alpha'] = au
            return o
        node = core().std.ModifyFrame(node, node, sel)
    if c['fail']:
        node = core().vft.Fail(node, frames=c['fail'], **fail_kw(c))
    node = delayed(node, c['plan'])
    for i in range(c['n']):
        b = b'FRAME\n' if c['y4m'] else b''
        b += b''.join(np.ascontiguousarray(p).tobytes() for p in m.frames[i])
        if am and not c['y4m']:
            b += am.frames[i][0].tobytes()
        chunks.append(b)
    prog = []

    def progress(i, n):
        prog.append((i, n))
        if c['progress'] == 'raise' and i == min(2, c['n']):
            raise Progress('stop here')

    w = Writer(c['wfail'], c['slow'])
    kw = dict(y4m=c['y4m'], prefetch=c['prefetch'], backlog=c['backlog'])
    if c['progress']:
        kw['progress_update'] = progress
    err = None
    res = []
    def go():
        try:
            node.output(w, **kw)
            res.append(None)
        except (vs.Error, OSError, Progress, ValueError, NotImplementedError, TypeError) as e:
            res.append(e)
        except BaseException as e:
            res.append(e)
            raise
    t = threading.Thread(target=lambda: _in_env(go), daemon=True)
    t.start()
    t.join(35)
    check(not t.is_alive(), what, 'output() did not return')
    err = res[0]
    head = b''
    if c['y4m']:
        bad = f.cf == RGB or f.cf == YUV and (f.ssw, f.ssh) not in CHROMA
        if bad:
            check(isinstance(err, (ValueError, NotImplementedError, vs.Error)) and not w.data, what, 'Y4M of a format without identifier', err, bytes(w.data[:60]))
            return ['y4m-refused'], True
    got = bytes(w.data)
    labels = ['output', 'y4m' if c['y4m'] else 'raw']
    if c['y4m'] and b'\n' in got:
        line, got = got.split(b'\n', 1)
        tok = line.decode('ascii').split(' ')
        check(tok[0] == 'YUV4MPEG2', what, 'header', line)
        d = {}
        for x in tok[1:]:
            check(x and (x[0] not in d or x[0] == 'X'), what, 'header', line)
            d[x[0]] = x[1:]
        check((d.get('W'), d.get('H'), d.get('F')) == (str(c['w']), str(c['h']), f"{node.fps.numerator}:{node.fps.denominator}"), what, 'header', line)
        check(d.get('X', 'LENGTH').startswith('LENGTH=') and d['X'] == f"LENGTH={c['n']}", what, 'header', line)
        if f.cf == GRAY:
            want = 'mono' + (str(f.bits) if f.bits > 8 else '')
        else:
            want = CHROMA[(f.ssw, f.ssh)] + ('' if f.bits == 8 else f'p{f.bits}' if f.st == INT else 'p' + {16: 'h', 32: 's'}[f.bits])
        check(d.get('C') == want, what, 'header colour', d.get('C'), 'want', want)
    total = b''.join(chunks)
    check(total.startswith(got), what, f'{len(got)} bytes written which are not the frames in order')
    why = []
    if c['fail']:
        why.append(vs.Error)
    if c['wfail'] is not None:
        why.append(OSError)
    if c['progress'] == 'raise':
        why.append(Progress)
    if c['alpha'] in ('int', 'list', 'audio') or c['alpha'] and c['y4m']:
        why += [ValueError, TypeError, vs.Error]
    if err is None:
        check(got == total, what, f'returned normally after {len(got)} of {len(total)} bytes')
        check(not c['fail'] and c['progress'] != 'raise' and not (c['alpha'] in ('int', 'list', 'audio') or c['alpha'] and c['y4m']), what, 'returned normally')
        check(c['wfail'] is None or w.calls <= c['wfail'], what, 'the writer failed but output() returned normally')
        if c['progress']:
            check(prog == [(i, c['n']) for i in range(c['n'] + 1)], what, 'progress', prog)
    else:
        check(isinstance(err, tuple(why)) if why else False, what, 'unexpected', type(err).__name__, err)
        if isinstance(err, vs.Error) and c['fail']:
            lim = sum(map(len, chunks[:min(c['fail'])]))
            check(len(got) == lim or c['wfail'] is not None or c['progress'] == 'raise' or c['alpha'], what, f'{len(got)} bytes written before the failing frame, want {lim}')
        labels.append('error')
    return labels, True


@st.composite
def s_aoutput(draw):
    ch = draw(st.one_of(st.sampled_from([[0], [0, 1], [0, 1, 2, 3, 4, 5], [31], [32], [3, 40]]), st.lists(st.integers(0, 35), min_size=1, max_size=5, unique=True)))
    n = draw(c17.LEN)
    return dict(fmt=draw(c17.FMT), ch=ch, rate=draw(c17.RATE), n=n, kind=draw(st.sampled_from(['rand', 'ext'])), seed=draw(st.integers(0, 1000)), head=draw(st.sampled_from(['raw', 'wav', 'w64', 'both'])), prefetch=draw(st.integers(-1, 5)), backlog=draw(st.integers(-1, 8)),
                fail=draw(st.one_of(st.just([]), st.just([]), st.just([]), st.lists(st.integers(0, (n - 1) // FS), min_size=1, max_size=2))), msg=draw(st.integers(0, 20)), wfail=draw(st.one_of(st.none(), st.none(), st.none(), st.integers(0, 5))), progress=draw(st.sampled_from([None, 'ok', 'raise'])),
                threads=draw(st.integers(1, 4)), long=draw(st.integers(0, 9)) == 0, ln=draw(st.integers(0, 3)))


GUID = {False: '0100000000001000800000aa00389b71', True: '0300000000001000800000aa00389b71'}
W64 = dict(riff='726966662e91cf11a5d628db04c10000', wave='77617665f3acd3118cd100c04f8edb8a', fmt='666d7420f3acd3118cd100c04f8edb8a', data='64617461f3acd3118cd100c04f8edb8a')


def expect_fmt(m, valid_layout):
    bps = (m.bits + 7) // 8
    layout = sum(1 << x for x in m.ch)
    k = len(m.ch)
    return struct.pack('<HHIIHHHHI', 0xFFFE, k, m.rate, (k * bps * m.rate) & 0xffffffff, k * bps, bps * 8, 22, m.bits, layout & 0xffffffff) + bytes.fromhex(GUID[m.st == FLOAT])


def run_aoutput(c):
    core().num_threads = c['threads']
    s, bits = c['fmt']
    what = f'audio output() {c}'
    layout_ok = all(x < 32 for x in c['ch'])
    bps = (bits + 7) // 8
    kw = dict(prefetch=c['prefetch'], backlog=c['backlog'], wav=c['head'] in ('wav', 'both'), w64=c['head'] in ('w64', 'both'))
    if c['long'] and c['head'] in ('wav', 'w64'):
        # only the header: the writer gives up on the first frame
        n = [2**31 // bps, (2**32 - 69) // (bps * len(c['ch'])), 2**32 // bps, 2**36][c['ln']]
        node = core().std.BlankAudio(channels=c['ch'], bits=bits, sampletype=s, samplerate=c['rate'], length=n)
        m = c17.A(s, bits, sorted(c['ch']), c['rate'], [[]])
        w = Writer(1)
        try:
            node.output(w, **kw)
            raise Violation(f'{what}: a failing writer was ignored')
        except OSError:
            pass
        except vs.Error as e:
            check('header' in str(e).lower() and not w.data, what, e)
            check(not layout_ok or c['head'] == 'wav' and n * bps * len(m.ch) + 68 > 0xffffffff - 64, what, 'header refused', e, 'for', n * bps * len(m.ch), 'bytes')
            return ['header-refused'], True
        check(layout_ok, what, 'a layout the header cannot hold was accepted')
        verify_header(bytes(w.data), m, n, c['head'], what)
        return ['header'], True
    m = c17.make(c['fmt'], c['ch'], c['rate'], c['n'], c['kind'], c['seed'])
    node = m.node()
    nf = node.num_frames
    if c['fail']:
        node = core().vft.AFail(node, frames=c['fail'], **fail_kw(c))
    prog = []

    def progress(i, n):
        prog.append((i, n))
        if c['progress'] == 'raise' and i == min(1, nf):
            raise Progress('x')
    if c['progress']:
        kw['progress_update'] = progress
    w = Writer(c['wfail'])
    err = None
    try:
        node.output(w, **kw)
    except (vs.Error, OSError, Progress, ValueError) as e:
        err = e
    if c['head'] == 'both':
        check(isinstance(err, ValueError) and not w.data, what, 'both headers', err)
        return ['refused'], True
    if c['head'] != 'raw' and not layout_ok:
        check(isinstance(err, vs.Error) and not w.data, what, 'a layout the header cannot hold', err)
        return ['refused'], True
    a = np.stack([np.ascontiguousarray(d) for d in m.data], axis=1)        # n x channels
    total = a.tobytes() if bps != 3 else np.ascontiguousarray(a.view(np.uint8).reshape(m.n, len(m.ch), 4)[:, :, 1:]).tobytes()
    got = bytes(w.data)
    if c['head'] != 'raw' and got:
        k = {'wav': 68, 'w64': 128}[c['head']]
        verify_header(got[:k], m, m.n, c['head'], what)
        got = got[k:]
    check(total.startswith(got), what, f'{len(got)} bytes written which are not the samples in order')
    why = ([vs.Error] if c['fail'] else []) + ([OSError] if c['wfail'] is not None else []) + ([Progress] if c['progress'] == 'raise' else [])
    if err is None:
        check(got == total, what, f'returned normally after {len(got)} of {len(total)} bytes')
        check(not c['fail'] and c['progress'] != 'raise' and (c['wfail'] is None or w.calls <= c['wfail']), what, 'returned normally')
        if c['progress']:
            check(prog == [(i, nf) for i in range(nf + 1)], what, 'progress', prog)
    else:
        check(why and isinstance(err, tuple(why)), what, 'unexpected', type(err).__name__, err)
        if isinstance(err, vs.Error):
            lim = min(c['fail']) * FS * bps * len(m.ch)
            check(len(got) == lim, what, f'{len(got)} bytes before the failing frame, want {lim}')
    return ['audio-output', c['head']], True


def verify_header(b, m, n, kind, what):
    size = n * len(m.ch) * ((m.bits + 7) // 8)
    f = expect_fmt(m, True)
    if kind == 'wav':
        want = b'RIFF' + struct.pack('<I', 60 + size) + b'WAVEfmt ' + struct.pack('<I', 40) + f + b'data' + struct.pack('<I', size)
    else:
        u = {k: bytes.fromhex(v) for k, v in W64.items()}
        want = u['riff'] + struct.pack('<Q', 128 + size) + u['wave'] + u['fmt'] + struct.pack('<Q', 64) + f + u['data'] + struct.pack('<Q', 24 + size)
    check(len(b) == len(want), what, 'header length', len(b), len(want))
    if b != want:
        i = next(i for i in range(len(b)) if b[i] != want[i])
        raise Violation(f'{what}: {kind} header differs at byte {i}: {b.hex()} want {want.hex()}')


# ---------------------------------------------------------------- memoryviews and frame histories
OPS = ['view', 'view', 'npview', 'write', 'write', 'wptr', 'rptr', 'copy', 'copy', 'close', 'chunks', 'prop', 'delprop', 'props', 'get', 'viewwrite', 'viewwrite', 'cm', 'attach', 'bad']


@st.composite
def s_hist(draw):
    audio = draw(st.integers(0, 2)) == 0
    fmt = draw(c17.FMT) if audio else draw(vsl.s_format(ints=(8, 9, 16, 17, 32), maxss=2))
    c = dict(audio=audio, fmt=fmt, ops=draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 1 << 16)).map(list), min_size=2, max_size=25)), content=draw(vsl.s_content()))
    if audio:
        c.update(ch=draw(c17.CH), n=draw(st.sampled_from([1, 5, FS, FS + 3])))
    else:
        f = F(*fmt)
        c.update(w=vsl.sub_dim(draw, f.ssw, 140), h=vsl.sub_dim(draw, f.ssh, 10))
    return c


class H:
    """One Python frame and what it must contain."""
    def __init__(self, fr, data, props, writable):
        self.fr, self.data, self.props, self.writable, self.closed = fr, data, props, writable, False


def run_hist(c):
    audio = c['audio']
    if audio:
        m = c17.make(c['fmt'], c['ch'], 44100, c['n'], 'rand', c['content'][1])
        node = m.node().std.SetAudioCache(0) or m.node() if False else m.node()
        base = [[d[i * FS:(i + 1) * FS].reshape(1, -1) for d in m.data] for i in range(node.num_frames)]
        props = {}
        code = {2: 'H', 4: 'I'}[m.dtype().itemsize] if c['fmt'][0] == INT else 'f'
        base = [[d.view({2: np.uint16, 4: np.uint32}[d.dtype.itemsize]) if c['fmt'][0] == INT else d for d in fr] for fr in base]
        signed_ok = True
    else:
        f = F(*c['fmt'])
        m = vsl.make_clip(f, c['w'], c['h'], 2, c['content'], props=[dict(idx=1), dict(idx=2)])
        node = m.node()
        base = m.frames
        code = {1: 'B', 2: 'H', 4: 'I'}[f.bytes] if f.st == INT else {16: 'e', 32: 'f'}[f.bits]
    what = f'frame history {c}'
    hs = []
    views = []      # (memoryview/array, H, plane)
    N = len(base)

    def open_(i):
        fr = node.get_frame(i)
        p = dict(m.props[i]) if not audio else {}
        hs.append(H(fr, [np.array(x) for x in base[i]], p, False))

    def shape(a):
        return a.shape if not audio else (a.shape[1],)

    def view_ok(v, h, k, step):
        check(v.format == code or audio and v.format.lower() == code.lower(), what, step, 'format', v.format, 'want', code)
        check(tuple(v.shape) == shape(h.data[k]) and v.itemsize == h.data[k].itemsize, what, step, 'shape', v.shape, h.data[k].shape)
        check(v.readonly == (not h.writable), what, step, 'readonly', v.readonly)
        check(v.nbytes == h.data[k].nbytes, what, step, 'nbytes')

    def verify(step):
        for q, h in enumerate(hs):
            if h.closed:
                continue
            check(len(h.fr) == len(h.data) and h.fr.readonly == (not h.writable) and not h.fr.closed, what, step, f'frame {q} state')
            for k, d in enumerate(h.data):
                v = h.fr[k]
                g = np.array(v)
                check(vsl.raw(g).tobytes() == vsl.raw(d).tobytes(), what, step, f'frame {q} plane {k} changed or lost a write: got {g.ravel()[:4]} want {d.ravel()[:4]}')
            pd = {k: v for k, v in h.fr.props.items() if k != 'inner'}
            check(pd == h.props, what, step, f'frame {q} props', pd, h.props)
        for q, (v, h, k) in enumerate(views):
            g = np.array(v)
            check(vsl.raw(g).tobytes() == vsl.raw(h.data[k]).tobytes(), what, step, f'view {q} of plane {k} does not show its frame: got {g.ravel()[:4]} want {h.data[k].ravel()[:4]}')
        for i in range(N):
            with node.get_frame(i) as fr:
                for k, d in enumerate(base[i]):
                    check(vsl.raw(np.array(fr[k])).tobytes() == vsl.raw(d).tobytes(), what, step, f'the clip\'s frame {i} plane {k} changed')

    open_(0)
    labels = set()
    for step, (op, r) in enumerate(c['ops']):
        live = [h for h in hs if not h.closed]
        tag = f'after step {step} {op}'
        if op == 'get' or not live:
            open_(r % N)
            verify(tag)
            continue
        h = live[r % len(live)]
        k = (r >> 4) % len(h.data)
        val = (r >> 6) & 0xff
        if op in ('view', 'npview'):
            v = h.fr[k if r & 1 else k - len(h.data)]
            view_ok(v, h, k, tag)
            views.append((v if op == 'view' else np.asarray(v), h, k))
        elif op == 'write':
            a = np.asarray(h.fr[k])
            if h.writable:
                a[...] = val
                h.data[k][...] = val
                labels.add('write')
            else:
                try:
                    a[...] = val
                    raise Violation(f'{what} {tag}: a read-only frame was writable')
                except ValueError:
                    pass
        elif op == 'viewwrite':
            cand = [(v, hh, kk) for v, hh, kk in views if hh.writable]
            if cand:
                v, hh, kk = cand[r % len(cand)]
                a = np.asarray(v)
                a[..., 0] = val
                hh.data[kk][..., 0] = val
                labels.add('viewwrite')
        elif op == 'wptr':
            try:
                p = h.fr.get_write_ptr(k)
                check(h.writable, what, tag, 'write pointer of a read-only frame')
                d = h.data[k].reshape(1, -1) if audio else h.data[k]
                stride = h.fr.get_stride(k) if not audio else 0
                for y in range(d.shape[0]):
                    row = np.full(d.shape[1], val, d.dtype)
                    ctypes.memmove(p.value + y * stride, row.tobytes(), row.nbytes)
                    d[y] = row
                if not audio:
                    h.data[k][...] = d
                else:
                    h.data[k][...] = d.reshape(h.data[k].shape)
                labels.add('wptr')
            except vs.Error:
                check(not h.writable, what, tag, 'no write pointer of a writable frame')
        elif op == 'rptr':
            p = h.fr.get_read_ptr(k)
            d = h.data[k]
            stride = h.fr.get_stride(k) if not audio else d.shape[1] * d.itemsize
            check(stride >= d.shape[1] * d.itemsize, what, tag, 'stride', stride)
            for y in range(d.shape[0]):
                check(ctypes.string_at(p.value + y * stride, d.shape[1] * d.itemsize) == d[y].tobytes(), what, tag, f'read pointer row {y}')
        elif op == 'copy':
            fr = h.fr.copy()
            hs.append(H(fr, [x.copy() for x in h.data], dict(h.props), True))
            labels.add('copy')
        elif op == 'close':
            h.fr.close()
            h.closed = True
            check(h.fr.closed, what, tag, 'not closed')
            for name, fn in (('index', lambda: h.fr[0]), ('props', lambda: h.fr.props), ('copy', lambda: h.fr.copy()), ('read pointer', lambda: h.fr.get_read_ptr(0)), ('len', lambda: len(h.fr))):
                try:
                    fn()
                    raise Violation(f'{what} {tag}: {name} of a closed frame')
                except RuntimeError:
                    pass
            h.fr.close()
        elif op == 'cm':
            with h.fr as x:
                check(x is h.fr, what, tag)
            h.closed = True
            check(h.fr.closed, what, tag, 'with block did not close the frame')
        elif op == 'chunks':
            if audio:
                continue
            cs = list(h.fr.readchunks())
            b = b''.join(bytes(x) for x in cs)
            check(b == b''.join(x.tobytes() for x in h.data), what, tag, 'readchunks bytes')
        elif op == 'prop':
            if h.writable:
                key, x = 'k%d' % (val % 3), [val, 'v%d' % val, [val, val + 1], 1.5 * val][r % 4]
                h.fr.props[key] = x
                h.props[key] = x
            else:
                try:
                    h.fr.props['q'] = 1
                    raise Violation(f'{what} {tag}: property of a read-only frame was set')
                except vs.Error:
                    pass
        elif op == 'delprop':
            if h.writable and h.props:
                key = sorted(h.props)[r % len(h.props)]
                del h.fr.props[key]
                del h.props[key]
        elif op == 'props':
            if h.writable:
                new = {'a%d' % (val % 4): val, 'idx': 99}
                h.fr.props = dict(new)
                h.props = dict(new)
        elif op == 'attach':
            if h.writable and len(live) > 1:
                o = live[(r + 1) % len(live)]
                if o is not h and not o.writable:
                    h.fr.props['inner'] = o.fr
                    inner = h.fr.props['inner']
                    check(vsl.raw(np.array(inner[0])).tobytes() == vsl.raw(o.data[0]).tobytes(), what, tag, 'attached frame')
        elif op == 'bad':
            for idx in (len(h.data), -len(h.data) - 1, 2**31):
                try:
                    h.fr[idx]
                    raise Violation(f'{what} {tag}: plane {idx} exists')
                except IndexError:
                    pass
            for fn in (h.fr.get_read_ptr,) + (() if audio else (h.fr.get_stride,)):
                for idx in (len(h.data), -1):
                    try:
                        fn(idx)
                        raise Violation(f'{what} {tag}: plane {idx} exists')
                    except IndexError:
                        pass
        verify(tag)
    return ['history'] + sorted(labels), bool(labels)


# ---------------------------------------------------------------- set_output with alpha clips
@st.composite
def s_setout(draw):
    fmt = draw(vsl.s_format(ints=(8, 10, 16, 32)))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        ops.append(draw(st.one_of(
            st.tuples(st.just('set'), st.integers(-2, 3), st.integers(0, 2), st.lists(st.sampled_from(['w', 'h', 'n', 'family', 'type', 'bits', 'varfmt', 'varsize', 'mainvarfmt', 'mainvarsize', 'bothvarfmt', 'bothvarsize']), max_size=2).map(sorted)),
            st.tuples(st.just('plain'), st.integers(-2, 3), st.integers(0, 2)), st.tuples(st.just('audio'), st.integers(-2, 3)), st.tuples(st.just('clear'), st.integers(-2, 3)), st.tuples(st.just('clearall')))))
    return dict(fmt=fmt, n=draw(st.integers(1, 4)), ops=[list(o) for o in ops])


def run_setout(c):
    """An alpha clip is taken exactly when it matches; outputs are what was set last under an index."""
    f = F(*c['fmt'])
    std = core().std
    vs.clear_outputs()
    model, labels = {}, set()

    def clip(w, h, n, fid, varfmt, varsize):
        return std.BlankClip(width=w, height=h, length=n, format=fid, varformat=varfmt, varsize=varsize, keep=True)
    try:
        for op in c['ops']:
            if op[0] == 'set':
                ch = set(op[3])
                mf, ms = bool(ch & {'mainvarfmt', 'bothvarfmt'}), bool(ch & {'mainvarsize', 'bothvarsize'})
                af, asz = bool(ch & {'varfmt', 'bothvarfmt'}), bool(ch & {'varsize', 'bothvarsize'})
                w, h = 32, 32
                g = F(GRAY, f.st, f.bits)
                if 'bits' in ch:
                    g = F(GRAY, g.st, (8 if g.bits != 8 else 16) if g.st == INT else 48 - g.bits)
                if 'type' in ch:
                    g = F(GRAY, INT if f.st == FLOAT else FLOAT, 32 if f.bits == 32 else 16)
                if 'family' in ch:
                    g = F(RGB, g.st, g.bits)
                main = clip(w, h, c['n'], f.id, mf, ms)
                al = clip(w + 16 * ('w' in ch), h + 16 * ('h' in ch), c['n'] + ('n' in ch), g.id, af, asz)
                ok = ms == asz and (ms or not ch & {'w', 'h'}) and 'n' not in ch and mf == af and (mf or (g.cf, g.st, g.bits) == (GRAY, f.st, f.bits))
                try:
                    main.set_output(op[1], al, op[2])
                    got = True
                except vs.Error:
                    got = False
                check(got == ok, op, 'alpha', 'taken' if got else 'refused', 'main', repr(main), 'alpha', repr(al))
                if ok:
                    model[op[1]] = (main, al, op[2])
                labels.add('match' if ok else 'mismatch')
            elif op[0] == 'plain':
                main = clip(16, 16, c['n'], f.id, False, False)
                main.set_output(op[1], alt_output=op[2])
                model[op[1]] = (main, None, op[2])
            elif op[0] == 'audio':
                a = std.BlankAudio(length=10)
                a.set_output(op[1])
                model[op[1]] = a
            elif op[0] == 'clear':
                vs.clear_output(op[1])
                model.pop(op[1], None)
            else:
                vs.clear_outputs()
                model.clear()
            out = vs.get_outputs()
            check(set(out) == set(model), op, 'outputs', sorted(out), 'want', sorted(model))
            for i, m in model.items():
                for o in (out[i], vs.get_output(i)):
                    if isinstance(m, tuple):
                        check(isinstance(o, vs.VideoOutputTuple) and o.clip is m[0] and o.alpha is m[1] and o.alt_output == m[2], op, 'output', i, o)
                    else:
                        check(o is m, op, 'output', i, o)
            for i in range(-2, 4):
                if i not in model:
                    try:
                        vs.get_output(i)
                        raise Violation(f'{op}: output {i} exists')
                    except KeyError:
                        pass
    finally:
        vs.clear_outputs()
    return sorted(labels) or ['plain'], bool(labels)


CHECKS = {
    'frames': Sub(s_frames(), lambda c: perturbed(run_frames_, c), quick=3000, thorough=80000, batch=50),
    'async': Sub(s_async(), lambda c: perturbed(run_async, c), quick=3000, thorough=80000, batch=50),
    'output': Sub(s_output(), lambda c: (_setenv(), run_output(c))[1], quick=4000, thorough=120000, batch=50),
    'aoutput': Sub(s_aoutput(), run_aoutput, quick=3000, thorough=80000, batch=50),
    'setoutput': Sub(s_setout(), run_setout, quick=1500, thorough=20000, batch=100),
    'hist': Sub(s_hist(), run_hist, quick=3000, thorough=100000, batch=50),
}


def _setenv():
    global ENV
    core()
    ENV = vs.get_current_environment()
