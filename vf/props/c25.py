"""C25: vspipe output streams, headers, timecodes, JSON, info and graph listings, exit statuses, against an independent model."""
import json, math, os, re, shutil, subprocess, sys, tempfile
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from vf.core import Sub, check, Violation
from vf import vsl
from vf.vsl import F, GRAY, RGB, YUV, INT, FLOAT
from vf.props import c17, c22

FS = 3072
PKG = os.path.join(os.environ.get('VF_OUT', ''), 'site', 'vapoursynth')
LIBPY = None
S = st.sampled_from


def config(lib=None):
    """Runtime configuration file of VSScript for this build, in this worker's scratch directory."""
    d = os.path.join(os.environ['HOME'], f'cfg{os.getpid()}' + ('x' if lib else ''))
    p = os.path.join(d, 'vapoursynth', 'vapoursynth.toml')
    if not os.path.exists(p):
        import glob, sysconfig
        exe = '/opt/vp/venv/bin/python3' if os.path.exists('/opt/vp/venv/bin/python3') else sys.executable
        libs = glob.glob('/usr/lib/x86_64-linux-gnu/libpython3.12.so*') + glob.glob(os.path.join(sysconfig.get_config_var('LIBDIR') or '', 'libpython3*.so*'))
        os.makedirs(os.path.dirname(p))
        with open(p + '.new', 'w') as f:
            f.write(f'"{PKG}/libvsscript.so" = ["{exe}","{lib or libs[0]}","{int(os.stat(exe).st_mtime)}"]\n')
        os.replace(p + '.new', p)
    return d


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'LD_PRELOAD'))}
    e.update(XDG_CONFIG_HOME=config(), PYTHONPATH=os.path.dirname(PKG), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LANG='C.UTF-8', LC_ALL='C.UTF-8')
    return e


def vspipe(args, cwd, stdout=subprocess.PIPE, timeout=60, sched=None):
    e = env()
    if sched:
        e.update(LD_PRELOAD=os.path.join(os.environ['VF_OUT'], 'libvfsched.so'), VF_SCHED=':'.join(map(str, sched)))
    try:
        r = subprocess.run([PKG + '/vspipe'] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=stdout, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Violation(f'vspipe {args} did not finish within {timeout} s')
    return r.returncode, r.stdout or b'', r.stderr.decode('utf8', 'replace')


class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='pipe')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


HEAD = '''import vapoursynth as vs, time, sys
core = vs.core
core.num_threads = {threads}
core.std.LoadPlugin({plug!r})
def blob(p):
    return open(p, 'rb').read()
def finish(c, props, fail, plan):
    if props:
        def mod(n, f):
            o = f.copy()
            for k, v in props[n % len(props)].items():
                if v is None:
                    if k in o.props:
                        del o.props[k]
                    continue
                o.props[k] = conv(v)
            return o
        c = core.std.ModifyFrame(c, c, mod)
    if fail:
        c = core.vft.Fail(c, frames=fail, msg='made to fail')
    if plan:
        def ev(n):
            time.sleep(plan[n % len(plan)] / 2000)
            return c
        return core.std.FrameEval(c, ev)
    return c
def conv(v):
    if isinstance(v, list):
        if v[:1] == ['bytes']:
            return bytes.fromhex(v[1])
        if v[:1] == ['float']:
            return float(v[1])
        if v[:1] == ['obj']:
            b = core.std.BlankClip(width=4, height=4, length=1, format=vs.GRAY8)
            return [b, b.get_frame(0), core.std.BlankAudio(length=5), core.std.BlankAudio(length=5).get_frame(0)][v[1]]
        return [conv(x) for x in v]
    return v
'''

TEXT = st.one_of(S(['', 'abc', 'a"b\\c', 'tab\there', 'new\nline', '\r\n', '\x00', 'x\x00y', '\x01\x1f\x7f', 'üñ☺𝄞', "quote'", '</script>', 'é' * 200]), st.text(st.characters(blacklist_categories=['Cs']), max_size=30))
NUM = st.one_of(S([0.0, -0.0, 1e300, -1e300, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 1e-300, 1e20, 0.1, 1 / 3, 123456.789e3]), st.floats(allow_nan=False, allow_infinity=False))
FLT = st.one_of(NUM.map(lambda x: ['float', repr(x)]), S([['float', 'inf'], ['float', '-inf'], ['float', 'nan']]))
INTS = st.one_of(st.integers(-2**63, 2**63 - 1), st.integers(-100, 100))
KEY = st.one_of(S(['a', 'bcd', '_Matrix', 'x1', '_SceneChangePrev']), st.from_regex(r'[A-Za-z_][A-Za-z0-9_]{0,12}', fullmatch=True)).filter(lambda k: k not in ('_DurationNum', '_DurationDen', '_Alpha', '_ColorRange', '_Range', '_FieldBased', '_Field'))
VAL = st.one_of(INTS, FLT, TEXT, st.binary(max_size=12).map(lambda b: ['bytes', b.hex()]), st.lists(INTS, min_size=2, max_size=4), st.lists(FLT, min_size=2, max_size=4), st.tuples(st.integers(5, 200), INTS).map(lambda t: [t[1]] * t[0]), st.tuples(st.integers(5, 200), NUM).map(lambda t: [['float', repr(t[1])]] * t[0]), st.lists(TEXT, min_size=2, max_size=3).filter(lambda l: l[0] not in ('bytes', 'float', 'obj')), st.integers(0, 3).map(lambda k: ['obj', k]))
PROPS = st.dictionaries(KEY, VAL, max_size=4)
DUR = st.one_of(st.tuples(st.integers(1, 5000), st.integers(1, 240000)), S([(1001, 30000), (1, 25), (1, 1000), (2**40, 3), (1, 2**50), (2**62, 2**61 - 1)])).map(list)
BADDUR = S([[0, 1], [1, 0], [-1, 25], [1, -25], [None, 25], [25, None], [None, None]])


def s_pos(n):
    return st.one_of(st.none(), st.none(), st.integers(0, n), st.integers(0, max(0, n - 1)), S([0, n - 1, n]))


@st.composite
def s_common(draw, n):
    return dict(n=n, start=draw(s_pos(n)), end=draw(s_pos(n)), requests=draw(S([None, None, 0, 1, 2, 3, 50, -3])), threads=draw(st.integers(1, 4)), out=draw(S(['-', '-', '-', 'file', 'file', '--', 'full'])), index=draw(S([None, None, None, 0, 0, 1, 7, -2])), decoys=draw(st.lists(S([0, 1, 2, 7, -2]), max_size=2, unique=True)),
                flags=draw(st.lists(S(['-p', '--filter-time', '--frame-ref-debug', 'graphfile']), max_size=2, unique=True)), shuffle=draw(st.integers(0, 10**6)), long=draw(st.booleans()), fail=draw(st.one_of(st.just([]), st.just([]), st.just([]), st.lists(st.integers(0, n - 1), min_size=1, max_size=2))))


@st.composite
def s_video(draw, short=False):
    fmt = draw(vsl.s_format(ints=(8, 9, 10, 12, 16, 17, 24, 32), maxss=3))
    f = F(*fmt)
    n = draw(S([1, 1, 1, 2, 2, 3, 4]) if short else st.one_of(st.integers(1, 6), st.integers(1, 30)))
    c = draw(s_common(n))
    dm = draw(S(['clip', 'clip', 'vary', 'vary', 'bad']))
    dur = None
    if dm != 'clip':
        dur = draw(st.lists(DUR, min_size=1, max_size=4))
        if dm == 'bad':
            dur = draw(st.permutations(dur + [draw(BADDUR)]))
    c.update(fmt=fmt, w=vsl.sub_dim(draw, f.ssw, 140), h=vsl.sub_dim(draw, f.ssh, 12 if short or draw(st.integers(0, 3)) else 300), content=draw(vsl.s_content()), fps=draw(S([[24, 1], [30000, 1001], [0, 1], [2**31 - 1, 2**31 - 2]])), props=draw(st.lists(PROPS, max_size=3)), dur=dur, alpha=draw(st.integers(0, 3)) == 0, afail=draw(st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, n - 1), min_size=1, max_size=2))), aplan=draw(st.one_of(st.none(), st.lists(st.integers(0, 3), min_size=1, max_size=4))),
             head=draw(S([None, None, 'y4m', 'y4m', 'wav', 'w64', 'avi'] if draw(st.integers(0, 5)) == 0 else [None, 'y4m'])), timecodes=draw(S([None, None, 'tc', 'full'] if draw(st.integers(0, 3)) == 0 else [None, 'tc'])), json=draw(S([None, None, 'json', 'full'] if draw(st.integers(0, 3)) == 0 else [None, 'json'])),
             variable=draw(st.integers(0, 15)) == 0, plan=draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, 3), min_size=1, max_size=4))), args=draw(st.one_of(st.just({}), st.dictionaries(KEY.filter(lambda k: k not in ('core', 'vs', 'blob', 'finish', 'conv', 'time', 'sys', 'c', 'a') and k.isidentifier() and k not in PYKW and k[-1] != '_'), TEXT.filter(lambda s: '\x00' not in s), max_size=2))))
    return c


import keyword
PYKW = set(keyword.kwlist) | set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)


@st.composite
def s_schedule(draw):
    """Short renders with threads delayed at random after releasing a mutex and before writing."""
    c = draw(s_video(True))
    c.update(sched=[draw(st.integers(1, 10**9)), draw(S([0, 30, 100])), draw(S([2000, 10000])), draw(S([0, 100, 100])), draw(S([3000, 15000]))], requests=draw(S([None, 1, 8, 8])),
             out=draw(S(['-', 'file', 'file'])), variable=False, props=c['props'][:1], head=c['head'] if c['head'] == 'y4m' else None, json=draw(S([None, 'json'])))
    return c


def order(opts, positional, seed):
    """Options and positional arguments in a random interleaving (positional keep their order)."""
    rng = np.random.Generator(np.random.PCG64(seed))
    slots = [0] * len(positional) + [1] * len(opts)
    rng.shuffle(slots)
    opts = [opts[i] for i in rng.permutation(len(opts))]
    out, o, p = [], iter(opts), iter(positional)
    for s in slots:
        out += next(o) if s else [next(p)]
    return out


def options(c, d, extra):
    L = c['long']
    o = list(extra)
    if c['start'] is not None:
        o.append(['--start' if L else '-s', str(c['start'])])
    if c['end'] is not None:
        o.append(['--end' if L else '-e', str(c['end'])])
    if c['requests'] is not None:
        o.append(['--requests' if L else '-r', str(c['requests'])])
    if c['index'] is not None:
        o.append(['--outputindex' if L else '-o', str(c['index'])])
    if c.get('head'):
        o.append(['--container' if L else '-c', c['head']])
    for fl in c['flags']:
        o.append(['--filter-time-graph', 'graph.dot'] if fl == 'graphfile' else [fl])
    target = {'-': '-', '--': '--', 'file': 'out.bin', 'full': '/dev/full'}[c['out']]
    return order(o, ['s.vpy', target], c['shuffle'])


def outputs(c, var):
    """Script lines marking the clip and the decoys for output. Returns (lines, index exists)."""
    idx = c['index'] or 0
    lines = []
    for k in c['decoys']:
        if k != idx:
            lines.append(f'core.std.BlankClip(width=2, height=2, length=1, format=vs.GRAY8).set_output({k})')
    lines.insert(c['shuffle'] % (len(lines) + 1), var)
    return lines


def expected_range(c):
    a = c['start'] or 0
    b = c['n'] - 1 if c['end'] is None else c['end']
    return (a, b) if a <= b < c['n'] else None


def got_bytes(c, out, d):
    if c['out'] == 'file':
        check(not out, 'bytes on stdout although an output file was named:', out[:80])
        with open(os.path.join(d, 'out.bin'), 'rb') as f:
            return f.read()
    if c['out'] in ('--', 'full'):
        check(not out, 'bytes on stdout:', out[:80])
        return b''
    return out


def y4m_header(f, w, h, fps, n):
    if f.cf == GRAY:
        col = 'mono' + (str(f.bits) if f.bits > 8 else '')
    else:
        col = c22.CHROMA[(f.ssw, f.ssh)] + ('' if f.bits == 8 else f'p{f.bits}' if f.st == INT else 'p' + {16: 'h', 32: 's'}[f.bits])
    return dict(C=col, W=str(w), H=str(h), F=f'{fps[0]}:{fps[1]}', X=f'LENGTH={n}')


def take_header(data, want, what):
    check(b'\n' in data, what, 'no Y4M header line in', data[:80])
    line, rest = data.split(b'\n', 1)
    tok = line.decode('ascii', 'replace').split(' ')
    check(tok[0] == 'YUV4MPEG2', what, 'header', line)
    d = {}
    for x in tok[1:]:
        check(x and (x[0] == 'X' or x[0] not in d), what, 'header', line)
        d[x[0]] = x[1:]
    for k, v in want.items():
        check(d.get(k) == v, what, f'header {k} is {d.get(k)!r}, want {v!r}:', line)
    return rest


def run_video(c):
    with Dir() as d:
        return run_video_(c, d)


def run_video_(c, d):
    f = F(*c['fmt'])
    m = vsl.make_clip(f, c['w'], c['h'], c['n'], c['content'], fps=tuple(c['fps']))
    am = vsl.make_clip([GRAY, f.st, f.bits, 0, 0], c['w'], c['h'], c['n'], c['content'], salt=7) if c['alpha'] else None
    blob = lambda mm: b''.join(np.ascontiguousarray(p).tobytes() for fr in mm.frames for p in fr)
    with open(d + '/data.bin', 'wb') as h:
        h.write(blob(m))
    if am:
        with open(d + '/alpha.bin', 'wb') as h:
            h.write(blob(am))
    props = [dict(x) for x in c['props']]
    if c['dur']:
        k = max(len(props), 1)
        props = [dict(props[i % k] if props else {}, _DurationNum=c['dur'][i % len(c['dur'])][0], _DurationDen=c['dur'][i % len(c['dur'])][1]) for i in range(k * len(c['dur']))]
    s = HEAD.format(threads=c['threads'], plug=os.path.join(os.environ['VF_OUT'], 'libvftest.so'))
    s += f"c = core.vft.Source(format={f.id}, width={c['w']}, height={c['h']}, length={c['n']}, data=blob('data.bin'), fpsnum={c['fps'][0]}, fpsden={c['fps'][1]})\n"
    if c['fps'][0]:
        s += f"c = c.std.SetFrameProps(_DurationNum={c['fps'][1]}, _DurationDen={c['fps'][0]})\n"
    s += f"c = finish(c, {props!r}, {c['fail']!r}, {c['plan']!r})\n"
    if c['args']:
        s += f"c = c.std.SetFrameProps(**{{'arg_' + k: globals()[k] for k in {sorted(c['args'])!r}}})\n"
    if c['variable']:
        s += f"c = core.std.Splice([c, core.std.BlankClip(format={f.id}, width={c['w'] * 8 + 8}, height={c['h'] * 8 + 8}, length=1)], mismatch=True)\n"
    if am:
        s += f"a = core.vft.Source(format={F(GRAY, f.st, f.bits).id}, width={c['w']}, height={c['h']}, length={c['n']}, data=blob('alpha.bin'))\n"
        s += f"a = finish(a, [], {c['afail']!r}, {c['aplan']!r})\n"
    alpha = bool(am) and not c['variable']
    s += '\n'.join(outputs(c, f"c.set_output({c['index'] or 0}{', alpha=a' if alpha else ''})")) + '\n'
    if c.get('sched'):
        s += 'import ctypes\nctypes.CDLL(None).vf_sched_arm()\n'
    with open(d + '/s.vpy', 'w', encoding='utf8') as h:
        h.write(s)
    extra = []
    if c['timecodes']:
        extra.append(['--timecodes' if c['long'] else '-t', 'tc.txt' if c['timecodes'] == 'tc' else '/dev/full'])
    if c['json']:
        extra.append(['--json' if c['long'] else '-j', 'p.json' if c['json'] == 'json' else '/dev/full'])
    for k, v in c['args'].items():
        extra.append(['--arg' if c['long'] else '-a', f'{k}={v}'])
    argv = options(c, d, extra)
    rc, out, err = vspipe(argv, d, sched=c.get('sched'))
    what = f'vspipe {argv} of {f.t()} {c["w"]}x{c["h"]}x{c["n"]}'
    n = c['n'] + (1 if c['variable'] else 0)
    rng = expected_range(dict(c, n=n))
    reasons = []
    if rng is None:
        reasons.append('range')
    if c['variable']:
        reasons.append('variable')
    if c['head'] in ('wav', 'w64', 'avi'):
        reasons.append('container')
    if c['head'] == 'y4m' and (alpha or f.cf == RGB or f.cf == YUV and (f.ssw, f.ssh) not in c22.CHROMA):
        reasons.append('y4m')
    early = bool(reasons)
    limit = None        # number of frames that can have been written when a frame fails
    bad = []
    maybe = False
    if not early:
        a, b = rng
        bad = [x for x in c['fail'] + (c['afail'] if alpha else []) if a <= x <= b]
        if bad:
            reasons.append('frame')
            limit = min(bad) - a
        if c['timecodes']:
            nodur = [i for i in range(a, b + 1) if not valid_duration(c, i)]
            if nodur and nodur[0] < b:
                reasons.append('duration')
            elif nodur:
                maybe = True        # only the last duration is missing: nothing that gets written needs it
        if c['out'] == 'full' or c['timecodes'] == 'full' or c['json'] == 'full':
            reasons.append('full')
    if reasons:
        check(rc != 0, what, f'exit status 0 in spite of {reasons}; {err[-300:]}')
    elif not maybe:
        check(rc == 0, what, f'exit status {rc}: {err[-600:]}')
    check(rc >= 0, what, f'died from signal {-rc}: {err[-300:]}')
    if rc:
        check(err.strip(), what, 'failed without any message')
    if reasons == ['frame']:
        check('made to fail' in err, what, 'the error message of the frame is not shown:', err[-300:])
    if reasons == ['range'] or reasons == ['variable'] or not reasons:
        pass
    if early:
        got = got_bytes(c, out, d) if c['head'] != 'avi' else b''
        check(not got, what, f'{len(got)} bytes written by a refused run')
        return ['refused'] + reasons, True
    a, b = rng
    got = got_bytes(c, out, d)
    labels = ['video', c['out']]
    if c['head'] == 'y4m' and got:
        got = take_header(got, y4m_header(f, c['w'], c['h'], c['fps'] if c['fps'][0] else [0, 1], b - a + 1), what)
        labels.append('y4m')
    chunks = []
    for i in range(a, b + 1):
        ch = b'FRAME\n' if c['head'] == 'y4m' else b''
        fr = m.frames[i]
        for p in ([1, 2, 0] if f.cf == RGB else range(f.planes)):
            ch += np.ascontiguousarray(fr[p]).tobytes()
        if alpha:
            ch += np.ascontiguousarray(am.frames[i][0]).tobytes()
        chunks.append(ch)
    total = b''.join(chunks)
    if c['out'] in ('-', 'file'):
        check(total.startswith(got), what, f'{len(got)} bytes were written that are not the frames in order; first difference in frame', first_diff(got, chunks))
        if not reasons and not rc:
            check(got == total, what, f'{len(got)} of {len(total)} bytes written')
        if limit is not None and reasons == ['frame']:
            check(len(got) <= sum(map(len, chunks[:limit])), what, 'frames after the failing one were written')
    if rc == 0:
        if c['timecodes'] == 'tc':
            labels.append('timecodes')
            check_timecodes(open(d + '/tc.txt').read(), c, a, b, what)
        if c['json'] == 'json':
            labels.append('json')
            check_json(open(d + '/p.json', 'rb').read(), c, a, b, props, what)
        if 'graphfile' in c['flags']:
            parse_dot(open(d + '/graph.dot').read(), what)
        if '-p' in c['flags']:
            check('Script evaluation done' in err or 'Frame:' in err, what, 'no progress shown')
        check(re.search(r'Output %d frames' % (b - a + 1), err), what, 'number of frames in the final message:', err[-200:])
    else:
        labels.append('error')
    return labels + reasons, True


def first_diff(got, chunks):
    o = 0
    for i, ch in enumerate(chunks):
        if got[o:o + len(ch)] != ch[:len(got) - o]:
            return i
        o += len(ch)
    return 'past the end'


def duration(c, i):
    if c['dur']:
        return c['dur'][i % len(c['dur'])]
    if c['fps'][0] == 0:
        return [None, None]
    return [c['fps'][1], c['fps'][0]]


def valid_duration(c, i):
    x, y = duration(c, i)
    return x is not None and y is not None and x > 0 and y > 0


def check_timecodes(text, c, a, b, what):
    lines = text.split('\n')
    check(lines[0].startswith('# timecode format v2') and lines[-1] == '', what, 'timecode file', text[:80])
    vals = lines[1:-1]
    check(len(vals) == b - a + 1, what, f'{len(vals)} timecodes for {b - a + 1} frames')
    t = Fraction(0)
    for i, v in zip(range(a, b + 1), vals):
        g = Fraction(v)
        check(abs(g - t) <= max(t, Fraction(1, 10**6)) / 10**9, what, f'timecode of frame {i} is {v}, want {float(t)!r}')
        if valid_duration(c, i):
            x, y = duration(c, i)
            t += Fraction(x, y) * 1000


def no_const(x):
    raise ValueError('not JSON: ' + x)


def pairs(l):
    d = {}
    for k, v in l:
        if k in d:
            raise ValueError('duplicate key ' + k)
        d[k] = v
    return d


def json_value(v):
    if isinstance(v, list):
        if v[:1] == ['bytes']:
            return ('text', f'[binary data size: {len(v[1]) // 2}]')
        if v[:1] == ['float']:
            x = float(v[1])
            return ('float', x) if math.isfinite(x) else ('nonfinite',)
        if v[:1] == ['obj']:
            return ('any',)
        return ('list', [json_value(x) for x in v])
    return ('text', v) if isinstance(v, str) else ('int', v)


def json_equal(g, w):
    k = w[0]
    if k == 'int':
        return isinstance(g, int) and not isinstance(g, bool) and g == w[1]
    if k == 'float':
        return isinstance(g, (int, float)) and not isinstance(g, bool) and float(g) == w[1]
    if k == 'nonfinite':
        return g is None or isinstance(g, str)
    if k == 'text':
        return g == w[1]
    if k == 'list':
        return isinstance(g, list) and len(g) == len(w[1]) and all(json_equal(x, y) for x, y in zip(g, w[1]))
    return g is None or isinstance(g, str)


def check_json(raw, c, a, b, props, what):
    try:
        j = json.loads(raw.decode('utf8'), parse_constant=no_const, object_pairs_hook=pairs)
    except ValueError as e:
        raise Violation(f'{what}: the properties are not valid JSON: {e}: {raw[:400]!r}')
    check(isinstance(j, list) and len(j) == b - a + 1, what, f'JSON has {len(j) if isinstance(j, list) else j!r} entries for {b - a + 1} frames')
    for i in range(a, b + 1):
        want = {}
        if c['fps'][0] != 0:
            want = {'_DurationNum': ('int', c['fps'][1]), '_DurationDen': ('int', c['fps'][0])}
        if props:
            for k, v in props[i % len(props)].items():
                if v is None:
                    want.pop(k, None)
                else:
                    want[k] = json_value(v)
        for k, v in c['args'].items():
            want['arg_' + k] = ('text', v)
        got = j[i - a]
        check(isinstance(got, dict) and set(got) == set(want), what, f'frame {i} has the properties {sorted(got)}, want {sorted(want)}')
        for k in want:
            check(json_equal(got[k], want[k]), what, f'property {k} of frame {i} is {got[k]!r}, want {want[k]!r}')


# ---------------------------------------------------------------- audio
@st.composite
def s_audio(draw):
    samples = draw(c17.LEN)
    c = draw(s_common(samples))
    c.update(fmt=draw(c17.FMT), ch=draw(st.one_of(S([[0], [0, 1], [0, 1, 2, 3, 4, 5], [31], [32], [3, 40]]), st.lists(st.integers(0, 35), min_size=1, max_size=5, unique=True))), rate=draw(c17.RATE), kind=draw(S(['rand', 'ext'])), seed=draw(st.integers(0, 1000)), head=draw(S([None, 'wav', 'w64'] * 3 + ['y4m'])))
    nf = (samples - 1) // FS + 1
    c['fail'] = sorted({x % nf for x in c['fail']})
    return c


def run_audio(c):
    with Dir() as d:
        return run_audio_(c, d)


def run_audio_(c, d):
    m = c17.make(c['fmt'], c['ch'], c['rate'], c['n'], c['kind'], c['seed'])
    with open(d + '/data.bin', 'wb') as h:
        h.write(b''.join(np.ascontiguousarray(x).tobytes() for x in m.data))
    s = HEAD.format(threads=c['threads'], plug=os.path.join(os.environ['VF_OUT'], 'libvftest.so'))
    s += f"c = core.vft.ASource(sampletype={m.st}, bits={m.bits}, layout={sum(1 << x for x in m.ch)}, rate={m.rate}, length={m.n}, data=blob('data.bin'))\n"
    if c['fail']:
        s += f"c = core.vft.AFail(c, frames={c['fail']!r}, msg='made to fail')\n"
    s += '\n'.join(outputs(c, f"c.set_output({c['index'] or 0})")) + '\n'
    with open(d + '/s.vpy', 'w') as h:
        h.write(s)
    argv = options(c, d, [])
    rc, out, err = vspipe(argv, d)
    what = f'vspipe {argv} of audio {c["fmt"]} {m.ch} {m.rate} {m.n}'
    rng = expected_range(c)
    reasons = []
    if rng is None:
        reasons.append('range')
    if c['head'] == 'y4m' or c['head'] and max(m.ch) >= 32:
        reasons.append('container')
    early = bool(reasons)
    bad = []
    if not early:
        bad = [x for x in c['fail'] if rng[0] // FS <= x <= rng[1] // FS]
        if bad:
            reasons.append('frame')
        if c['out'] == 'full':
            reasons.append('full')
    check(rc >= 0, what, f'died from signal {-rc}: {err[-300:]}')
    check((rc != 0) == bool(reasons), what, f'exit status {rc}, expected problems {reasons}: {err[-300:]}')
    if rc:
        check(err.strip(), what, 'failed without any message')
    if reasons == ['frame']:
        check('made to fail' in err, what, 'the error message of the frame is not shown:', err[-300:])
    got = got_bytes(c, out, d)
    if early:
        check(not got, what, f'{len(got)} bytes written by a refused run')
        return ['refused'] + reasons, True
    a, b = rng
    bps = (m.bits + 7) // 8
    arr = np.stack([np.ascontiguousarray(x)[a:b + 1] for x in m.data], axis=1)
    total = arr.tobytes() if bps != 3 else np.ascontiguousarray(np.ascontiguousarray(arr).view(np.uint8).reshape(b - a + 1, len(m.ch), 4)[:, :, 1:]).tobytes()
    if c['head'] and got:
        k = {'wav': 68, 'w64': 128}[c['head']]
        c22.verify_header(got[:k], m, b - a + 1, c['head'], what)
        got = got[k:]
    if c['out'] in ('-', 'file'):
        check(total.startswith(got), what, f'{len(got)} bytes were written that are not the samples in order')
        if not rc:
            check(got == total, what, f'{len(got)} of {len(total)} bytes written')
        if reasons == ['frame']:
            check(len(got) <= max(0, (min(bad) + 1) * FS - a) * bps * len(m.ch), what, 'samples after the failing frame were written')
    if not rc:
        check(re.search(r'Output %d samples' % (b - a + 1), err), what, 'number of samples in the final message:', err[-200:])
    return ['audio', str(c['head']), c['out']] + reasons, True


@st.composite
def s_head(draw):
    """Clips far too long to be rendered: the header announces their length, then the reader goes away."""
    audio = draw(st.booleans())
    c = dict(audio=audio, late=draw(st.integers(0, 2000)), start=draw(st.one_of(st.none(), st.integers(0, 2**20))))
    if audio:
        fmt = draw(c17.FMT)
        ch = draw(st.lists(st.integers(0, 17), min_size=1, max_size=8, unique=True))
        size = (fmt[1] + 7) // 8 * len(ch)
        edge = draw(S([2**31, 2**32, 2**32 - 68, 2**33, 2**40]))
        top = (2**31 - 1) * FS          # the most samples a clip can have
        n = min(top, max(1, draw(st.one_of(st.integers(-30, 30).map(lambda x: edge // size + x), st.integers(2**20, top)))))
        c.update(fmt=fmt, ch=ch, rate=draw(c17.RATE), n=n, head=draw(S(['wav', 'w64', 'w64'])))
    else:
        c.update(n=draw(st.one_of(st.integers(2**24, 2**31 - 1), st.just(2**31 - 1))), head='y4m')
    return c


def run_head(c):
    with Dir() as d:
        s = 'import vapoursynth as vs\ncore = vs.core\ncore.num_threads = 2\n'
        a = c['start'] or 0
        n = c['n'] - a
        if n <= 0:
            return ['skip'], False
        if c['audio']:
            m = c17.make(c['fmt'], c['ch'], c['rate'], 1, 'rand', 0)
            s += f"core.std.BlankAudio(channels={c['ch']!r}, bits={m.bits}, sampletype={m.st}, samplerate={m.rate}, length={c['n']}, keep=1).set_output()\n"
            size = (m.bits + 7) // 8 * len(c['ch']) * n
            k = {'wav': 68, 'w64': 128}[c['head']]
            over = c['head'] == 'wav' and size + 60 > 0xffffffff
            unsure = c['head'] == 'wav' and not over and size + 200 > 0xffffffff
        else:
            s += f"core.std.BlankClip(width=2, height=2, format=vs.GRAY8, length={c['n']}, keep=1).set_output()\n"
            k, over, unsure = 4096, False, False
        with open(d + '/s.vpy', 'w') as h:
            h.write(s)
        argv = ['s.vpy', '-', '-c', c['head']] + (['-s', str(a)] if c['start'] is not None else [])
        what = f'vspipe {argv} of ' + (f"audio {c['fmt']} {c['ch']} {c['n']}" if c['audio'] else f"{c['n']} frames")
        p = subprocess.Popen([PKG + '/vspipe'] + argv, cwd=d, env=env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=open(d + '/err', 'wb'))
        try:
            got = b''
            while len(got) < k + c['late']:
                x = p.stdout.read1(65536)
                if not x:
                    break
                got += x
            p.stdout.close()
            rc = p.wait(60)
        except subprocess.TimeoutExpired:
            raise Violation(f'{what} goes on although nobody reads its output')
        finally:
            p.kill()
            p.wait()
        err = open(d + '/err', 'rb').read().decode('utf8', 'replace')
        if over or unsure and not got:
            check(not got, what, 'a header that cannot express the size was written')
            check(rc > 0 and err.strip(), what, f'exit status {rc}, message {err!r}')
            return ['refused'], True
        check(rc != 0, what, 'exit status 0 although the output was cut short')
        check(rc in (-13,) or rc > 0 and err.strip(), what, f'exit status {rc}: {err[-300:]}')
        if c['audio']:
            check(len(got) >= k, what, f'only {len(got)} bytes: {err[-300:]}')
            c22.verify_header(got[:k], m, n, c['head'], what)
            check(not any(got[k:]), what, 'silence is not silent')
        else:
            rest = take_header(got, y4m_header(F(GRAY, INT, 8), 2, 2, [24, 1], n), what)
            pat = b'FRAME\n\0\0\0\0'
            check((pat * (len(rest) // len(pat) + 1)).startswith(rest), what, 'frames', rest[:100])
        return [c['head'], 'cut'], True


# ---------------------------------------------------------------- scripts that fail, option errors
@st.composite
def s_error(draw):
    kind = draw(S(['raise', 'exit', 'exit', 'syntax', 'nooutput', 'index', 'missing', 'option', 'option', 'option', 'encoding', 'nested', 'wrongout']))
    return dict(kind=kind, text=draw(TEXT.filter(lambda s: '\x00' not in s)), code=draw(st.one_of(S([0, 1, 2, 3, 77, 255, 256, -1, 'None', "'stop here'", 'True', 2**40]), st.integers(-300, 600))), mode=draw(S(['out', 'out', 'info', 'simple', 'full'])), exc=draw(S(['ValueError', 'RuntimeError', 'vs.Error', 'KeyboardInterrupt', 'BaseException', 'GeneratorExit', 'AssertionError'])), before=draw(st.booleans()),
                opt=draw(S([['-s', '-1'], ['-s', 'x'], ['-s', ''], ['-s', '1x'], ['-s', '99999999999999999999'], ['-e', '-1'], ['-e', '1.5'], ['-e', ''], ['-e', '9223372036854775808'], ['-o', '4294967296'], ['-o', 'a'], ['-o', ''], ['-r', '99999999999'], ['-r', 'q'], ['-c', 'mkv'], ['-c', ''], ['-a', 'novalue'], ['-g', 'nothing'], ['--nonsense'], ['-q'], ['-s'], ['-e'], ['-o'], ['-r'], ['-c'], ['-a'], ['-t'], ['-j'], ['-g'], ['third'], ['-t', 'nodir/x'], ['-j', 'nodir/x'], ['--filter-time-graph', 'nodir/x'], ['-s', ' 1'], ['-e', '0x3'], ['-v'], ['-h'], ['-i', '-g', 'simple'], ['-g', 'full', '-i']])), last=draw(st.booleans()))


def run_error(c):
    with Dir() as d:
        k = c['kind']
        s = 'import vapoursynth as vs, sys\ncore = vs.core\nc = core.std.BlankClip(width=16, height=16, length=4)\n'
        if c['before']:
            s += 'c.set_output()\n'
        tok = 'failing marker 4711'
        if k == 'raise':
            s += f"raise {c['exc']}({tok + c['text']!r})\n"
        elif k == 'nested':
            s += f"def f(n):\n    raise {c['exc']}({tok!r})\nf(1)\n"
        elif k == 'exit':
            s += f"sys.exit({c['code']})\n"
        elif k == 'syntax':
            s += 'def (:\n'
        elif k == 'encoding':
            s += '# ok\nx = "'
        elif k == 'wrongout':
            s += 'vs.get_output(12)\n'
        if k == 'index':
            s += 'c.set_output(3)\n'
        if k == 'option':
            s += 'c.set_output()\n' if not c['before'] else ''
        b = s.encode('utf8') + (b'\xff\xfe"\n' if k == 'encoding' else b'')
        with open(d + '/s.vpy', 'wb') as h:
            h.write(b)
        mode = {'out': [], 'info': ['-i'], 'simple': ['-g', 'simple'], 'full': ['-g', 'full']}[c['mode']]
        script = 'absent.vpy' if k == 'missing' else 's.vpy'
        if k == 'option':
            single = c['opt'] if len(c['opt']) > 1 or c['opt'][0] in ('--nonsense', '-q', 'third', '-v', '-h') else None
            argv = [script, '-'] + c['opt'] if single is None or c['last'] or c['opt'] == ['third'] else c['opt'] + [script, '-']
        elif k == 'index':
            argv = [script, '-', '-o', '5'] + (mode if c['mode'] != 'info' else [])
        elif k == 'nooutput':
            if c['before']:
                s = s.replace('c.set_output()', '')
                with open(d + '/s.vpy', 'w') as h:
                    h.write(s)
            argv = [script, '-'] + (mode if c['mode'] != 'info' else [])
        else:
            argv = [script, '-'] + mode
        rc, out, err = vspipe(argv, d)
        what = f'vspipe {argv} of {k} {c["exc"] if k in ("raise", "nested") else c["code"] if k == "exit" else ""}'
        check(rc >= 0, what, f'died from signal {-rc}: {err[-300:]}')
        check(not out, what, 'wrote', out[:100])
        if k == 'exit':
            code = {'None': 0, "'stop here'": 1, 'True': 1}.get(c['code'], c['code'])
            if isinstance(code, int) and -2**31 <= code < 2**31:
                if code & 255:
                    check(rc == code & 255, what, f'exit status {rc}: {err[-200:]}')
                elif code == 0:
                    check(rc != 0, what, 'exit status 0 without any output')
            check(err.strip(), what, 'no message')
            return ['exit'], True
        check(rc != 0, what, f'exit status 0: {err[-300:]}')
        check(err.strip(), what, 'no message')
        if k in ('raise', 'nested'):
            check(tok in err, what, 'the exception is not shown:', err[-400:])
            if k == 'raise':
                check(tok + c['text'] in err or not c['text'].isprintable(), what, 'the text of the exception is not shown:', err[-400:])
        return [k], True


# ---------------------------------------------------------------- info and graph
STRS = st.one_of(S(['plain', 'say "hi"', '"', 'back\\slash', '\\', '\\"', 'line\nbreak', 'cr\r\nlf', '{}<>|', 'ü☺']), st.text(st.characters(blacklist_categories=['Cs'], blacklist_characters='\x00'), max_size=20))


@st.composite
def s_info(draw):
    outs = draw(st.lists(st.tuples(S([0, 1, 2, 5, -1, 100]), S(['v', 'v', 'a', 'var', 'al']), vsl.s_format(ints=(8, 9, 10, 16, 32), maxss=4), st.integers(1, 2000), st.integers(1, 5), S([[24, 1], [30000, 1001], [0, 0], [2**31 - 1, 1]])).map(list), max_size=4, unique_by=lambda t: t[0]))
    return dict(outs=outs, mode=draw(S(['info', 'info', 'info', 'simple', 'full'])), out=draw(S([None, '-', 'file'])), chain=draw(st.lists(st.tuples(S(['Invert', 'SetFrameProps', 'Text', 'FlipVertical', 'SetFrameProps', 'Splice', 'Merge']), STRS).map(list), max_size=5)), ch=draw(c17.CH), afmt=draw(c17.FMT), rate=draw(c17.RATE))


def run_info(c):
    with Dir() as d:
        s = 'import vapoursynth as vs\ncore = vs.core\n'
        if c['mode'] == 'info':
            for i, kind, fmt, w, n, fps in c['outs']:
                f = F(*fmt)
                w2 = ((w >> f.ssw) + 1) << f.ssw
                h2 = ((n >> f.ssh) + 1) << f.ssh
                v = f"core.std.BlankClip(format={f.id}, width={w2}, height={h2}, length={n}, keep=1, fpsnum={fps[0]}, fpsden={fps[1]})"
                if kind == 'v':
                    s += v + f".set_output({i})\n"
                elif kind == 'al':
                    s += f"c = {v}\nc.set_output({i}, alpha=core.std.BlankClip(format={F(GRAY, f.st, f.bits).id}, width={w2}, height={h2}, length={n}))\n"
                elif kind == 'var':
                    s += f"core.std.Splice([{v}, core.std.BlankClip(width=16, height=16, length=3, format={F(GRAY, 0, 8).id if f.t() != [GRAY, 0, 8, 0, 0] else F(RGB, 0, 8).id})], mismatch=True).set_output({i})\n"
                else:
                    s += f"core.std.BlankAudio(channels={c['ch']!r}, bits={c['afmt'][1]}, sampletype={c['afmt'][0]}, samplerate={c['rate']}, length={w}).set_output({i})\n"
        else:
            s += 'c = core.std.BlankClip(width=64, height=32, length=4, format=vs.GRAY8)\n'
            for fn, t in c['chain']:
                s += {'Invert': 'c = c.std.Invert()', 'SetFrameProps': f'c = c.std.SetFrameProps(x={t!r}, y=[1, 2, 3, 4, 5, 6, 7])', 'Text': f'c = c.text.Text({t!r})', 'FlipVertical': 'c = c.std.FlipVertical()', 'Splice': 'c = core.std.Splice([c, c])', 'Merge': 'c = core.std.Merge(c, c)'}[fn] + '\n'
            s += 'c.set_output()\n'
        with open(d + '/s.vpy', 'w', encoding='utf8') as h:
            h.write(s)
        argv = ['s.vpy'] + ([] if c['out'] is None else ['out.txt'] if c['out'] == 'file' else ['-']) + (['-i'] if c['mode'] == 'info' else ['-g', c['mode']])
        rc, out, err = vspipe(argv, d)
        what = f'vspipe {argv}'
        check(rc == 0, what, f'exit status {rc}: {err[-500:]}')
        text = open(d + '/out.txt', encoding='utf8', newline='').read() if c['out'] == 'file' else out.decode('utf8')
        if c['mode'] == 'info':
            check_info(c, text, what)
            return ['info', f"{len(c['outs'])} outputs"], bool(c['outs'])
        nodes, edges, labels = parse_dot(text, what)
        names = ['BlankClip'] + [x[0] for x in c['chain']]
        want = {}
        for x in names:
            want[x] = want.get(x, 0) + 1
        check(len(nodes) == len(names), what, f'the graph has {len(nodes)} nodes for {len(names)} filters: {text[:600]}')
        for x, k in want.items():
            check(sum(1 for l in nodes.values() if l == x) == k, what, f'{k} nodes named {x} expected in {sorted(nodes.values())}')
        check(len(edges) == len(names) - 1, what, f'{len(edges)} edges for a chain of {len(names)}')
        targets = [b for _, b in edges]
        check(len(set(targets)) == len(targets), what, 'the chain is not a chain:', edges)
        for fn, t in c['chain']:
            if fn in ('SetFrameProps', 'Text'):
                norm = lambda z: z.replace('\r\n', '\n').replace('\r', '\n')
                check(any(norm(t) in l for l in labels), what, f'the argument {t!r} of {fn} is not shown in {labels}')
        return ['graph', c['mode']], True


def check_info(c, text, what):
    blocks = [b for b in text.split('\n\n')] if text else []
    want = sorted(c['outs'])
    check(len(blocks) == len(want), what, f'{len(blocks)} outputs listed, {len(want)} set: {text[:300]}')
    for b, (i, kind, fmt, w, n, fps) in zip(blocks, want):
        d = {}
        for line in b.strip('\n').split('\n'):
            k, _, v = line.partition(': ')
            check(k not in d, what, 'listed twice:', k)
            d[k] = v
        f = F(*fmt)
        w2 = ((w >> f.ssw) + 1) << f.ssw
        h2 = ((n >> f.ssh) + 1) << f.ssh
        exp = {'Output Index': str(i), 'Type': 'Audio' if kind == 'a' else 'Video'}
        if kind == 'a':
            exp.update({'Samples': str(w), 'Sample Rate': str(c['rate']), 'Sample Type': ['Integer', 'Float'][c['afmt'][0]], 'Bits': str(c['afmt'][1]), 'Channels': str(len(c['ch']))})
            check(len([x for x in d.get('Layout', '').split(', ') if x]) == len([x for x in c['ch'] if x in KNOWN_CH]), what, 'layout', d.get('Layout'), c['ch'])
        elif kind == 'var':
            var = (w2, h2) != (16, 16)
            exp.update({'Width': 'Variable' if var else '16', 'Height': 'Variable' if var else '16', 'Frames': str(n + 3), 'Format Name': 'Variable'})
        else:
            g = math.gcd(*fps) or 1
            exp.update({'Width': str(w2), 'Height': str(h2), 'Frames': str(n), 'Color Family': {GRAY: 'Gray', RGB: 'RGB', YUV: 'YUV'}[f.cf], 'Alpha': 'Yes' if kind == 'al' else 'No', 'Sample Type': ['Integer', 'Float'][f.st], 'Bits': str(f.bits), 'SubSampling W': str(f.ssw), 'SubSampling H': str(f.ssh)})
            if fps[0] == 0:
                exp['FPS'] = 'Variable'
            else:
                check(d.get('FPS', '').startswith(f'{fps[0] // g}/{fps[1] // g} '), what, 'FPS', d.get('FPS'), 'want', fps)
        for k, v in exp.items():
            check(d.get(k) == v, what, f'output {i}: {k} is {d.get(k)!r}, want {v!r}')


KNOWN_CH = set(range(0, 18)) | {29, 30, 31, 32, 33, 34, 35}


def parse_dot(text, what):
    """Minimal strict parser of the dot subset; returns nodes (id -> label), edges, all labels unescaped."""
    toks = []
    i = 0
    while i < len(text):
        ch = text[i]
        if ch.isspace():
            i += 1
        elif text.startswith('->', i):
            toks.append('->'); i += 2
        elif ch in '{}[]=,;':
            toks.append(ch); i += 1
        elif ch == '"':
            j = i + 1
            s = ''
            while True:
                check(j < len(text), what, 'unterminated string in the graph:', text[i:i + 80])
                if text[j] == '"':
                    break
                if text[j] == '\\' and j + 1 < len(text):
                    s += {'n': '\n', 'l': '\n', 'r': '\n'}.get(text[j + 1], text[j + 1])
                    j += 2
                else:
                    s += text[j]
                    j += 1
            toks.append(('str', s))
            i = j + 1
        else:
            mm = re.compile(r'[A-Za-z0-9_.]+').match(text, i)
            check(mm, what, f'the graph is not valid dot at {text[max(0, i - 60):i + 60]!r}')
            toks.append(mm.group())
            i = mm.end()
    pos = 0
    nodes, edges, labels = {}, [], []

    def peek():
        return toks[pos] if pos < len(toks) else None

    def need(t):
        nonlocal pos
        check(peek() == t, what, f'the graph is not valid dot: {t!r} expected near {toks[max(0, pos - 5):pos + 5]}')
        pos += 1
    need('digraph')
    need('{')
    depth = 1
    while depth:
        t = peek()
        check(t is not None, what, 'the graph ends early')
        pos += 1
        if t == '}':
            depth -= 1
        elif t == 'subgraph':
            check(isinstance(peek(), str) and re.fullmatch(r'\w+', peek()), what, 'subgraph', peek())
            pos += 1
            need('{')
            depth += 1
        elif t == 'label':
            need('=')
            check(isinstance(peek(), tuple), what, 'label', peek())
            labels.append(peek()[1])
            pos += 1
        else:
            check(isinstance(t, str) and re.fullmatch(r'\w+', t), what, f'the graph is not valid dot near {toks[max(0, pos - 5):pos + 5]}')
            if peek() == '->':
                pos += 1
                edges.append((t, peek()))
                pos += 1
            else:
                need('[')
                a = {}
                while peek() != ']':
                    k = peek(); pos += 1
                    need('=')
                    v = peek(); pos += 1
                    a[k] = v[1] if isinstance(v, tuple) else v
                    if peek() == ',':
                        pos += 1
                need(']')
                check(t not in nodes, what, 'node declared twice', t)
                nodes[t] = a.get('label', '').split('\n')[0]
    check(pos == len(toks), what, 'text after the graph')
    for x, y in edges:
        check(x in nodes and y in nodes, what, 'edge to an undeclared node', x, y)
    return nodes, edges, labels


CHECKS = dict(video=Sub(st.deferred(s_video), run_video, quick=900, thorough=40000, batch=25),
              audio=Sub(st.deferred(s_audio), run_audio, quick=400, thorough=15000, batch=25),
              errors=Sub(st.deferred(s_error), run_error, quick=250, thorough=5000, batch=25),
              head=Sub(st.deferred(s_head), run_head, quick=250, thorough=4000, batch=25),
              schedule=Sub(st.deferred(s_schedule), run_video, quick=250, thorough=10000, batch=25),
              info=Sub(st.deferred(s_info), run_info, quick=300, thorough=8000, batch=25))
