"""Generated filter graphs and client programs for the engine harness (native/vfengine.cpp), shared by C03-C06."""
import ctypes as C, os
from hypothesis import strategies as st
from vf.core import check, Violation
from vf import capi

RELEASE, DUP, PASS, INPLACE, MULTIGET, NEWPROPS, PLANES = 1, 2, 4, 8, 16, 32, 64
PARALLEL, PARREQ, UNORDERED, FRAMESTATE = 0, 1, 2, 3
GENERAL, NOREUSE, SPATIAL, LASTONLY = 0, 1, 2, 3     # VSRequestPattern
_lib = []
_sched = []


def lib():
    if not _lib:
        l = C.CDLL(os.path.join(os.environ['VF_OUT'], 'libvfengine.so'))
        l.vfengine_run.argtypes = [C.c_void_p, C.POINTER(C.c_int), C.c_int, C.c_char_p, C.c_int]
        l.vfengine_run.restype = C.c_int
        _lib.append(l)
    return _lib[0]


def perturb(sched):
    """Random delays around mutex operations (native/vfsched.cpp, preloaded into the worker); None turns them off."""
    if not _sched:
        l = C.CDLL(os.path.join(os.environ['VF_OUT'], 'libvfsched.so'))
        l.vf_sched_set.argtypes = [C.c_uint64, C.c_uint, C.c_uint]
        _sched.append(l)
    _sched[0].vf_sched_set(*(sched or (0, 0, 0)))
    return _sched[0]


def perturbed(fn, c):
    perturb(c.get('sched'))
    try:
        return fn(c)
    finally:
        perturb(None)


@st.composite
def s_case(draw, focus='C03'):
    """focus shifts the weights, every focus can produce everything."""
    R = lambda a, b: draw(st.integers(a, b))
    chance = lambda k, n=10: R(0, n - 1) < k
    nn = R(1, 8 if focus != 'C04' else 7)
    big = focus == 'C04' and chance(6)
    dims = draw(st.sampled_from([(320, 240), (512, 512), (64, 64), (640, 480)] if big else [(1, 1), (16, 4), (64, 8), (37, 5)]))
    delays = draw(st.sampled_from([0, 0, 30, 200] if focus != 'C06' else [0, 30, 100, 300]))
    errors = chance(0 if focus == 'C04' and big else 5)
    modes = draw(st.sampled_from([[PARALLEL], [0, 1, 2, 3], [0, 1, 2, 3], [UNORDERED, FRAMESTATE], [PARREQ], [FRAMESTATE]])) if focus == 'C06' else draw(st.sampled_from([[PARALLEL], [PARALLEL], [0, 1, 2, 3]]))
    nodes = []
    for i in range(nn):
        frames = draw(st.sampled_from([1, 2, 3, 5, 8, 13, 25]))
        ninp = 0 if i == 0 else min(draw(st.sampled_from([0, 1, 1, 1, 2, 2, 3])), 3)
        d = dict(kind=0, media=1 if chance(1) else 0, w=dims[0], h=dims[1], frames=frames, mode=draw(st.sampled_from(modes)), fail=[0, 0, 0], delay=[draw(st.sampled_from([0, delays])), draw(st.sampled_from([0, delays]))], flags=0,
                 cache=-2, opts=None, early=chance(3), inputs=[], reqs=[])
        if not big and chance(2):
            d['w'], d['h'] = draw(st.sampled_from([(1, 1), (16, 4), (37, 5)]))
        if errors and chance(4):
            m = draw(st.sampled_from([1, 2, 3, 5, 7]))
            d['fail'] = [m, R(0, m - 1), R(0, 1)]
        if not ninp:
            if chance(2):
                d['kind'], d['mode'] = 2, draw(st.sampled_from([UNORDERED, FRAMESTATE]))
        else:
            for _ in range(ninp):
                d['inputs'].append([R(0, i - 1) if chance(5) else i - 1, GENERAL])
            shape = draw(st.sampled_from(['spatial', 'spatial', 'window', 'window', 'scatter', 'phases', 'reverse']))
            reqs = []
            for k in range(ninp):
                if shape in ('spatial',):
                    reqs.append([0, k, 1, 1, 0])
                    if nodes[d['inputs'][k][0]]['frames'] >= frames:
                        d['inputs'][k][1] = draw(st.sampled_from([SPATIAL, NOREUSE, GENERAL]))
                    else:
                        d['inputs'][k][1] = draw(st.sampled_from([LASTONLY, GENERAL]))
                elif shape == 'window':
                    r = R(0, 3)
                    reqs += [[0, k, 1, 1, o] for o in range(-r, r + 1)]
                elif shape == 'reverse':
                    reqs.append([0, k, -1, 1, frames - 1])
                    if nodes[d['inputs'][k][0]]['frames'] >= frames:
                        d['inputs'][k][1] = draw(st.sampled_from([NOREUSE, GENERAL]))
                else:
                    for _ in range(R(1, 4)):
                        reqs.append([0 if shape == 'scatter' else R(0, 2), k, R(-2, 3), R(1, 3), R(-3, 30)])
            # phases must be dense, the first request belongs to the first one
            ph = sorted({q[0] for q in reqs} | {reqs[0][0]})
            for q in reqs:
                q[0] = ph.index(q[0])
            reqs.sort(key=lambda q: q[0])
            # the core treats a frame requested for a clip input declared twice as two consumers
            d['reqs'] = reqs
            # a declared pattern has to be true: the same input through two entries is a reuse
            srcs = [x[0] for x in d['inputs']]
            for x in d['inputs']:
                if srcs.count(x[0]) > 1 and x[1] != SPATIAL:
                    x[1] = GENERAL
            f = 0
            if reqs and reqs[-1][0] and chance(4):
                f |= RELEASE
            if chance(2):
                f |= DUP
            if chance(2):
                f |= MULTIGET
            src = nodes[d['inputs'][reqs[0][1]][0]]
            same = src['media'] == d['media'] and (src['w'], src['h']) == (d['w'], d['h'])
            f |= draw(st.sampled_from([0, NEWPROPS] + ([PASS, INPLACE, INPLACE, PLANES if d['media'] == 0 else INPLACE] if same else [])))
            d['flags'] = f
        if chance(4 if focus == 'C04' else 2):
            d['cache'] = draw(st.sampled_from([-1, 0, 1, 1]))
        if chance(4 if focus == 'C04' else 1):
            d['opts'] = [draw(st.sampled_from([-1, 0, 1])), draw(st.sampled_from([-1, 0, 1, 2, 5, 40])), draw(st.sampled_from([-1, 0, 1, 5, 40]))]
        nodes.append(d)
    if chance(3):       # filters that fetch frames of earlier clips synchronously (what a Python callback calling get_frame does)
        for i in range(1, nn):
            if chance(4):
                nodes[i]['nested'] = [[R(0, i - 1), draw(st.sampled_from([0, 1, 1, -1])), draw(st.sampled_from([0, 0, 0, 1, 5, -1, 30])), R(0, 1)] for _ in range(draw(st.sampled_from([1, 1, 2])))]
    node = st.one_of(st.just(nn - 1), st.integers(0, nn - 1))
    chained = chance(3)
    clients = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        ops = []
        for _ in range(R(1, 14)):
            i = draw(node)
            n = R(0, nodes[i]['frames'] - 1)
            kind = draw(st.sampled_from(['sync', 'async', 'async', 'async', 'burst', 'burst', 'wait', 'oor', 'dup', 'ctl'] + (['ctl'] * 4 if focus == 'C04' else [])))
            keep = int(chance(2 if not big else 1))
            if kind == 'sync':
                ops.append([0, i, n, keep, 0])
            elif kind == 'async':
                j = draw(node) if chained else 0
                ops.append([1, i, n, keep, (j << 4 | R(0, 6)) if chained else 0])
            elif kind == 'dup':
                ops += [[1, i, n, keep, 0]] * R(2, 4)
            elif kind == 'burst':
                ops.append([10, i, n, R(2, 30), draw(st.sampled_from([1, 1, 1, nodes[i]['frames'] - 1, 2, 3, 0]))])
            elif kind == 'wait':
                ops.append([2, R(0, 5), 0, 0, 0])
            elif kind == 'oor':
                bad = draw(st.sampled_from([-1, -2**31, nodes[i]['frames'], nodes[i]['frames'] + 5, 2**31 - 1]))
                ops.append([R(0, 1), i, bad, 0, 0])
            else:
                ops.append(draw(st.sampled_from([[3, i, R(-1, 1), 0, 0], [4, i, R(-1, 1), draw(st.sampled_from([-1, 0, 1, 3, 10])), draw(st.sampled_from([-1, 0, 3, 20]))], [5, i, 0, 0, 0], [6, 0, 0, 0, 0],
                                                 [7, draw(st.sampled_from([0, 1, 2, 4, 16])), 0, 0, 0], [8, draw(st.sampled_from([1, 10**5, 10**6, 10**7, 10**9])) if focus == 'C04' else 10**9, 0, 0, 0], [9, R(0, 400), 0, 0, 0]])))
        clients.append(ops)
    mem = draw(st.sampled_from([0, 0, 1, 10**5, 10**6, 3 * 10**6, 10**7])) if focus == 'C04' else 0
    flags = draw(st.sampled_from([0, 0, 0, 1, 8]))
    zombie = draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3] if focus == 'C05' and not flags & 8 else [0]))     # frame reference debugging needs the core
    sched = [R(1, 10**9), draw(st.sampled_from([1, 5, 20, 100])), draw(st.sampled_from([20, 100, 500, 2000]))] if chance(3) else None
    return dict(sched=sched, threads=draw(st.sampled_from([1, 2, 2, 3, 4, 4, 8, 16])), mem=mem, flags=flags, seed=R(0, 2**31 - 1), order=R(0, 9), zombie=zombie,
                early=int(not chained and chance(4)), nodes=nodes, clients=clients)


def flatten(c, quiet):
    v = [c['threads'], c['mem'], c['flags'], c['seed'], quiet, c['order'], c['zombie'], c['early'], len(c['nodes']), len(c['clients'])]
    for d in c['nodes']:
        v += [d['kind'], d['media'], d['w'], d['h'], d['frames'], d['mode'], *d['fail'], *d['delay'], d['flags'], d['cache'], *(d['opts'] or [-2, -1, -1]), int(d['early'])]
        v.append(len(d['inputs']))
        for x in d['inputs']:
            v += x
        v.append(len(d['reqs']))
        for q in d['reqs']:
            v += q
        v.append(len(d.get('nested', [])))
        for q in d.get('nested', []):
            v += q
    for ops in c['clients']:
        v.append(len(ops))
        for o in ops:
            v += o
    return v


def run(c, prop, quiet=25):
    v = flatten(c, quiet)
    a = (C.c_int * len(v))(*v)
    buf = C.create_string_buffer(16384)
    l, napi = lib(), capi.api()._addr
    if c.get('sched'):
        perturb(c['sched'])
    try:
        n = l.vfengine_run(napi, a, len(v), buf, len(buf))
    finally:
        if c.get('sched'):
            perturb(None)
    lines = buf.raw[:n].decode('utf-8', 'replace').splitlines()
    mine = []
    for l in lines:
        if l.startswith('HARNESS'):
            raise RuntimeError(l)
        head = l.split(' ')
        tags = [h for h in head if len(h) == 3 and h[0] == 'C' and h[1:].isdigit()]
        if prop in tags:
            mine.append(l)
    if mine:
        raise Violation(' | '.join(mine[:4]))
    s = lines[-1].split()
    stat = {s[i]: int(s[i + 1]) for i in range(1, len(s) - 1, 2)}
    labels = {f"threads{min(c['threads'], 4)}{'+' if c['threads'] > 4 else ''}"}
    if stat['errors']:
        labels.add('errors')
    if stat['overlaps']:
        labels.add('overlap')
    if c['mem']:
        labels.add('limit')
    if c['early']:
        labels.add('early')
    if c['zombie']:
        labels.add('zombie')
    if c.get('sched'):
        labels.add('perturbed')
    if stat['nested']:
        labels.add('nested')
    return labels, stat
