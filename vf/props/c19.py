"""C19 frame property filters and the Python property mapping."""
import math, pickle
import numpy as np
import vapoursynth as vs
from hypothesis import strategies as st
from vf.core import Sub, check, Violation
from vf import vsl
from vf.vsl import F, core, GRAY
import warnings
warnings.simplefilter('ignore')

KEYS = ['a', 'b', 'abc', 'abd', '_x', '_Matrix', 'A1_b', 'x' * 60, '_Range', '_FieldBased', '_Field', 'PlaneStatsMin']
BADKEYS = ['', '1a', 'a b', 'a-b', '\u00e9', 'a.b', '*', ' a']


def s_val():
    i = st.one_of(st.integers(-5, 5), st.sampled_from([2**63 - 1, -2**63, 2**31, -2**31 - 1, 2**32, 2**53 + 1]), st.integers(-2**63, 2**63 - 1))
    f = st.one_of(st.floats(width=64), st.sampled_from([0.0, -0.0, float('inf'), -float('inf'), 5e-324, 0.1]))
    s = st.one_of(st.text(alphabet=st.characters(blacklist_categories=('Cs',)), max_size=8), st.sampled_from(['', 'a\0b', '\0', 'x' * 300, '\u00e5\U0001f600']))
    b = st.binary(max_size=8)
    def tag(t, x):
        if t == 'f':
            x = x.map(float.hex)
        if t == 'b':
            x = x.map(bytes.hex)
        return st.tuples(st.just(t), st.lists(x, min_size=1, max_size=5).flatmap(lambda l: st.sampled_from([l[:1], l[:1], l])))
    return st.one_of(tag('i', i), tag('f', f), tag('s', s), tag('b', b)).map(list)


def dec(v):
    t, l = v[0], v[1]
    return [{'f': float.fromhex, 'b': bytes.fromhex}.get(t, lambda q: q)(x) for x in l]


def same(a, b):
    """Equal values of equal property types."""
    if isinstance(a, float) or isinstance(b, float):
        return type(a) is type(b) is float and (a == b and math.copysign(1, a) == math.copysign(1, b) or a != a and b != b)
    if isinstance(a, int) and isinstance(b, int):
        return int(a) == int(b)
    return type(a) is type(b) and a == b


def as_list(v):
    return v if isinstance(v, list) else [v]


def check_props(d, want, what):
    check(set(d) == set(want), what, 'names', sorted(d), 'want', sorted(want))
    for k, w in want.items():
        g = as_list(d[k])
        check(len(g) == len(w) and all(same(x, y) for x, y in zip(g, w)), what, 'property', k, repr(d[k])[:200], 'want', repr(w)[:200])


def glob(p, s):
    if not p:
        return not s
    if p[0] == '*':
        return any(glob(p[1:], s[i:]) for i in range(len(s) + 1))
    return bool(s) and p[0] in ('?', s[0]) and glob(p[1:], s[1:])


@st.composite
def s_chain(draw):
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        op = draw(st.sampled_from(['set', 'set', 'sets', 'sets', 'remove', 'remove', 'copy', 'copy', 'copyall', 'field', 'crange', 'clip']))
        o = dict(op=op)
        if op == 'set':
            o.update(key=draw(st.sampled_from(KEYS)), val=draw(s_val()))
        elif op == 'sets':
            o.update(kw={k: draw(s_val()) for k in draw(st.lists(st.sampled_from(KEYS), min_size=0, max_size=4, unique=True))})
        elif op == 'remove':
            o.update(pat=draw(st.one_of(st.none(), st.lists(st.one_of(st.sampled_from(KEYS), st.sampled_from(['a*', '*', '?', '_*', 'ab?', '*b*', '??', '_Color*', 'a.c', '[a]', 'PlaneStats*', '_ColorRange', 'A1_b', '', 'idx*'])), min_size=1, max_size=3))))
        elif op in ('copy', 'copyall'):
            o.update(src=draw(st.integers(0, 99)), keys=draw(st.lists(st.sampled_from(KEYS + ['idx', 'base', '_ColorRange']), min_size=1, max_size=4)))
        elif op == 'field':
            o.update(v=draw(st.sampled_from([0, 1, 2, 2, -1, 3, 2**32 + 1])))
        elif op == 'crange':
            o.update(v=draw(st.integers(0, 1)), how=draw(st.sampled_from(['set', 'sets', 'sets_enum', 'range_enum'])))
        else:
            o.update(src=draw(st.integers(0, 99)), prop=draw(st.sampled_from([None, 'b', 'mask'])))
        o['on'] = draw(st.integers(0, 99))
        ops.append(o)
    return dict(ops=ops, lens=[draw(st.integers(1, 4)), draw(st.integers(1, 4))], dims=[draw(st.integers(1, 9)), draw(st.integers(1, 5))])


def run_chain(c):
    std = core().std
    w, h = c['dims']
    stack = []
    for k, n in enumerate(c['lens']):
        m = vsl.make_clip(F(GRAY, 0, 8 if k else 16), w + k, h, n, ['coded', 3 + k], props=[dict(idx=i, base=k, **({'a': 5 + i} if k else {'_Field': 1})) for i in range(n)])
        stack.append((m.node(), m, [{q: [v] for q, v in d.items()} for d in m.props], {}))
    labels, done = [], []
    for o in c['ops']:
        node, m, P, att = stack[o['on'] % len(stack)]
        P = [dict(d) for d in P]
        op = o['op']
        what = f'{o} after {done}'
        att = dict(att)
        if op == 'set':
            v = dec(o['val'])
            out = std.SetFrameProp(node, o['key'], **{{'i': 'intval', 'f': 'floatval', 's': 'data', 'b': 'data'}[o['val'][0]]: v})
            for d in P:
                d[o['key']] = v
            att.pop(o['key'], None)
        elif op == 'sets':
            kw = {k: dec(v) for k, v in o['kw'].items()}
            out = std.SetFrameProps(node, **{k: v[0] if len(v) == 1 else v for k, v in kw.items()})
            for d in P:
                d.update(kw)
            for k in kw:
                att.pop(k, None)
        elif op == 'remove':
            pat = o['pat']
            out = std.RemoveFrameProps(node) if pat is None else std.RemoveFrameProps(node, pat)
            pp = ['*'] if pat is None else ['_Range' if p == '_ColorRange' else p for p in pat]
            P = [{k: v for k, v in d.items() if not any(glob(p, k) for p in pp)} for d in P]
            att = {k: v for k, v in att.items() if not any(glob(p, k) for p in pp)}
        elif op in ('copy', 'copyall'):
            n2, m2, P2, att2 = stack[o['src'] % len(stack)]
            if op == 'copyall':
                out = std.CopyFrameProps(node, n2)
                P = [dict(P2[min(i, len(P2) - 1)]) for i in range(len(P))]
                att = {k: [v[min(i, len(v) - 1)] for i in range(len(P))] for k, v in att2.items()}
            else:
                out = std.CopyFrameProps(node, n2, o['keys'])
                for k0 in o['keys']:
                    k = '_Range' if k0 == '_ColorRange' else k0
                    for i, d in enumerate(P):
                        s = P2[min(i, len(P2) - 1)]
                        d.pop(k, None)
                        if k in s and (k0 != '_ColorRange' or isinstance(s[k][0], int)):
                            d[k] = s[k]
                    att.pop(k, None)
                    if k in att2:
                        att[k] = [att2[k][min(i, len(att2[k]) - 1)] for i in range(len(P))]
        elif op == 'field':
            if not 0 <= o['v'] <= 2:
                vsl.expect_error(lambda: std.SetFieldBased(node, o['v']), what)
                continue
            out = std.SetFieldBased(node, o['v'])
            for d in P:
                d['_FieldBased'] = [o['v']]
                d.pop('_Field', None)
            att.pop('_Field', None)
        elif op == 'crange':
            v = o['v']
            if o['how'] == 'set':
                out = std.SetFrameProp(node, '_ColorRange', intval=v)
                r = 1 - v
            elif o['how'] == 'sets':
                out = std.SetFrameProps(node, _ColorRange=v)
                r = 1 - v
            elif o['how'] == 'sets_enum':
                out = std.SetFrameProps(node, _ColorRange=vs.Range(v))
                r = v
            else:
                out = std.SetFrameProps(node, _Range=vs.Range(v))
                r = v
            for d in P:
                d['_Range'] = [r]
        else:
            n2, m2, P2, att2 = stack[o['src'] % len(stack)]
            kw = {} if o['prop'] is None else dict(prop=o['prop'])
            key = o['prop'] or '_Alpha'
            out = std.ClipToProp(node, n2, **kw)
            L = len(P2)
            P = [dict(P[min(i, len(P) - 1)]) for i in range(L)]
            att = {k: [v[min(i, len(v) - 1)] for i in range(L)] for k, v in att.items()}
            for d in P:
                d.pop(key, None)
            att[key] = [(m2, j) for j in stack_frames(stack[o['src'] % len(stack)])]
            back = std.PropToClip(out, **kw)
            check(back.num_frames == L and (back.width, back.height) == (m2.w, m2.h), what, 'PropToClip info', back)
            for i in range(L):
                fr = back.get_frame(i)
                j = stack_frames(stack[o['src'] % len(stack)])[i]
                vsl.same_planes(vsl.planes(fr), m2.frames[j], f'{what} PropToClip frame {i}')
                d = {k: v for k, v in dict(fr.props).items() if k not in att2}
                check_props(d, P2[i], f'{what} PropToClip frame {i}')
                fr.close()
        L = len(P)
        fm = [min(i, len(stack[o['on'] % len(stack)][2]) - 1) for i in range(L)]
        src = stack_frames(stack[o['on'] % len(stack)])
        idxs = [src[q] for q in fm]
        check(out.num_frames == L, what, 'length', out.num_frames, L)
        for i in range(L):
            fr = out.get_frame(i)
            vsl.same_planes(vsl.planes(fr), m.frames[idxs[i]], f'{what} frame {i}')
            d = dict(fr.props)
            for k, v in att.items():
                check(k in d and isinstance(d[k], vs.VideoFrame), what, 'attached frame missing', k, d.get(k))
                mm, j = v[i]
                vsl.same_planes(vsl.planes(d[k]), mm.frames[j], f'{what} frame {i} attached {k}')
                d.pop(k)
            check_props(d, P[i], f'{what} frame {i}')
            if '_Range' in P[i] and not isinstance(P[i]['_Range'][0], int):
                check(fr.props.get('_ColorRange') is None, what, 'the range alias of a non-integer')
            elif '_Range' in P[i] and P[i]['_Range'] in ([0], [1]):
                check(fr.props['_ColorRange'] == vs.Range(P[i]['_Range'][0]) == fr.props['_Range'], what, 'range aliases disagree', fr.props['_Range'], fr.props['_ColorRange'])
            fr.close()
        e = (out, m, P, att)
        MAP[id(P)] = idxs
        KEEP.append(P)
        stack.append(e)
        done.append(o)
        labels.append(op)
    MAP.clear()
    KEEP.clear()
    return labels, bool(labels)


MAP, KEEP = {}, []


def stack_frames(e):
    """Source frame indices (of the model clip) of a stack entry's frames."""
    return MAP.get(id(e[2])) or list(range(len(e[2])))


# ---------------------------------------------------------------- the Python mapping
@st.composite
def s_map(draw):
    ops = []
    for _ in range(draw(st.integers(1, 15))):
        k = draw(st.sampled_from(KEYS[:8] + ['_Range']))
        op = draw(st.sampled_from(['set', 'set', 'set', 'attr', 'del', 'get', 'contains', 'pop', 'popd', 'popitem', 'clear', 'update', 'setdefault', 'views', 'copyframe', 'bad', 'badkey', 'readonly', 'assign', 'pickle', 'node', 'frame', 'func', 'crange', 'delattr']))
        o = dict(op=op, key=k)
        if op in ('set', 'attr', 'setdefault', 'popd', 'bad', 'badkey', 'readonly'):
            o['val'] = draw(s_val())
        if op in ('bad',):
            o['bad'] = draw(st.sampled_from(['mixed', 'type', 'huge', 'hugelist', 'mixedtail', 'object']))
        if op == 'badkey':
            o['key'] = draw(st.sampled_from(BADKEYS))
        if op in ('update', 'assign'):
            o['kw'] = {q: draw(s_val()) for q in draw(st.lists(st.sampled_from(KEYS[:8]), max_size=3, unique=True))}
        if op == 'crange':
            o['v'] = draw(st.integers(0, 1))
            o['how'] = draw(st.sampled_from(['int', 'enum', 'range', 'via']))
        ops.append(o)
    return dict(ops=ops)


def scal(l):
    return l[0] if len(l) == 1 else l


def run_map(c):
    base = core().std.BlankClip(format=vs.GRAY8, width=3, height=2, length=1, color=[7]).std.RemoveFrameProps()
    ro = base.get_frame(0)
    f = ro.copy()
    model = {}
    others = []
    p = f.props
    labels = []
    for o in c['ops']:
        op, k = o['op'], o['key']
        v = dec(o['val']) if 'val' in o else None
        what = f'{o} of {c}'
        labels.append(op)
        if op == 'set':
            p[k] = scal(v)
            model[k] = v
        elif op == 'attr':
            setattr(p, k, scal(v))
            model[k] = v
        elif op == 'del':
            del p[k]
            model.pop(k, None)
        elif op == 'delattr':
            delattr(p, k)
            model.pop(k, None)
        elif op == 'get':
            if k in model:
                if not isinstance(model[k], tuple):
                    check(all(same(x, y) for x, y in zip(as_list(p.get(k)), model[k])), what, 'get', p.get(k), model[k])
                getattr(p, k)
            else:
                check(p.get(k) is None and p.get(k, 'dflt') == 'dflt', what, 'get of a missing key')
                for fn, ex in ((lambda: p[k], KeyError), (lambda: getattr(p, k), AttributeError), (lambda: p.pop(k), KeyError)):
                    try:
                        fn()
                    except ex:
                        continue
                    raise Violation(f'{what}: missing key read')
        elif op == 'contains':
            check((k in p) == (k in model), what, 'in', k in p)
        elif op in ('pop', 'popd'):
            if k in model:
                g, w = p.pop(k), model.pop(k)
                if not isinstance(w, tuple):
                    check(all(same(x, y) for x, y in zip(as_list(g), w)), what, 'pop', g, w)
            elif op == 'popd':
                check(p.pop(k, None) is None and p.pop(k, 5) == 5, what, 'pop default')
        elif op == 'popitem':
            if model:
                q, g = p.popitem()
                check(q in model, what, 'popitem', q)
                w = model.pop(q)
                if not isinstance(w, tuple):
                    check(all(same(x, y) for x, y in zip(as_list(g), w)), what, 'popitem', g, w)
            else:
                try:
                    p.popitem()
                except KeyError:
                    continue
                raise Violation(f'{what}: popitem of nothing')
        elif op == 'clear':
            p.clear()
            model.clear()
        elif op == 'update':
            p.update(**{q: scal(dec(x)) for q, x in o['kw'].items()})
            model.update({q: dec(x) for q, x in o['kw'].items()})
        elif op == 'assign':
            f.props = {q: scal(dec(x)) for q, x in o['kw'].items()}
            model = {q: dec(x) for q, x in o['kw'].items()}
        elif op == 'setdefault':
            g = p.setdefault(k, scal(v))
            if k not in model:
                model[k] = v
            if not isinstance(model[k], tuple):
                check(all(same(x, y) for x, y in zip(as_list(g), model[k])), what, 'setdefault', g, model[k])
        elif op == 'views':
            check(sorted(p.keys()) == sorted(model) == sorted(q for q, _ in p.items()) and len(list(p.values())) == len(model), what, 'views')
        elif op == 'copyframe':
            others.append((f, dict(model)))
            f = f.copy()
            p = f.props
        elif op == 'pickle':
            d = {q: x for q, x in p.copy().items() if not isinstance(model.get(q), tuple)}
            d2 = pickle.loads(pickle.dumps(d))
            check_props(d2, {q: x for q, x in model.items() if not isinstance(x, tuple)}, what + ' pickled')
        elif op == 'bad':
            b = {'mixed': [1, 'x'], 'type': {1: 2}.items(), 'huge': 2**70, 'hugelist': [1, 2, -2**70], 'mixedtail': v + [object()], 'object': object()}[o['bad']]
            old = model.get(k)
            try:
                p[k] = b
            except (vs.Error, OverflowError, TypeError):
                pass
            else:
                raise Violation(f'{what}: accepted {b}')
            if k in p:
                check(old is not None, what, 'a refused value was partly stored', p[k])
                model[k] = old
            else:
                model.pop(k, None)
        elif op == 'badkey':
            try:
                p[k] = scal(v)
            except vs.Error:
                pass
            else:
                raise Violation(f'{what}: accepted name {k!r}')
        elif op == 'readonly':
            for fn in (lambda: ro.props.__setitem__(k, scal(v)), lambda: ro.props.__delitem__(k)):
                try:
                    fn()
                except vs.Error:
                    continue
                raise Violation(f'{what}: read only properties changed')
            check(len(ro.props) == 0, what, 'read only properties changed', dict(ro.props))
        elif op == 'node':
            p[k] = base
            check(p[k].get_frame(0)[0][0, 0] == 7, what, 'node')
            model[k] = ('node',)
        elif op == 'frame':
            p[k] = [ro, ro]
            check(len(p[k]) == 2 and p[k][1][0][1, 2] == 7, what, 'frame')
            model[k] = ('frame',)
        elif op == 'func':
            p[k] = lambda x: x * 2 + 1
            check(p[k](x=20) == 41, what, 'function', )
            model[k] = ('func',)
        elif op == 'crange':
            r = o['v']
            if o['how'] == 'int':
                p['_ColorRange'] = 1 - r
            elif o['how'] == 'enum':
                p['_ColorRange'] = vs.Range(r)
            elif o['how'] == 'range':
                p['_Range'] = vs.Range(r)
            else:
                p['_Range'] = r
            model['_Range'] = [r]
            check('_ColorRange' in p and p['_ColorRange'] == vs.Range(r) == p['_Range'], what, 'range alias', p['_ColorRange'], p['_Range'])
        for fr, mo in others + [(f, model)]:
            d = dict(fr.props)
            check(len(fr.props) == len(mo), what, 'len', len(fr.props), len(mo))
            tup = {q for q, x in mo.items() if isinstance(x, tuple)}
            check_props({q: x for q, x in d.items() if q not in tup}, {q: x for q, x in mo.items() if q not in tup}, what)
            check(tup <= set(d), what, 'object properties lost', tup, list(d))
    for fr, _ in others:
        fr.close()
    f.close()
    ro.close()
    return labels, len(labels) > 1


REF = ['prop2', 'propnone', 'propempty', 'field', 'ptc_missing', 'ptc_index', 'ptc_audio', 'ptc_mismatch', 'ptc_var', 'mixed']


@st.composite
def s_refuse(draw):
    return dict(kind=draw(st.sampled_from(REF)), v=draw(st.integers(0, 1 << 16)))


def run_refuse(c):
    v, k = c['v'], c['kind']
    std = core().std
    b = std.BlankClip(format=vs.GRAY8, width=4, height=4, length=3)
    go = lambda fn: vsl.expect_error(fn, f'{c}')
    if k == 'prop2':
        go(lambda: std.SetFrameProp(b, 'a', **dict([('intval', 1), ('floatval', 2.0), ('data', 'x')][i] for i in [(0, 1), (0, 2), (1, 2), (0, 1, 2)][v % 4])))
    elif k == 'propnone':
        go(lambda: std.SetFrameProp(b, 'a'))
    elif k == 'propempty':
        go(lambda: std.SetFrameProp(b, '', intval=1))
    elif k == 'field':
        go(lambda: std.SetFieldBased(b, [-1, 3, 2**32, -2**63][v % 4]))
    elif k == 'ptc_missing':
        go(lambda: std.PropToClip(std.SetFrameProps(b, x=1), ['x', 'y', '_Alpha'][v % 3]))
    elif k == 'ptc_index':
        n = std.ClipToProp(b, b, 'x')
        go(lambda: std.PropToClip(n, 'x', index=[1, -1, 2**31, -2**40][v % 4]))
    elif k == 'ptc_audio':
        a = core().std.BlankAudio(length=20).get_frame(0)
        n = std.ModifyFrame(b, b, lambda n, f: setp(f, a))
        go(lambda: std.PropToClip(n, 'q'))
    elif k == 'ptc_mismatch':
        # another format later in the clip: those frames fail, the rest are delivered
        m = [std.BlankClip(format=vs.GRAY16, width=4, height=4, length=1), std.BlankClip(format=vs.GRAY8, width=4, height=6, length=1), std.BlankClip(format=vs.GRAY8, width=2, height=4, length=1)][v % 3]
        x = std.ClipToProp(b, b, 'x')[0] + std.ClipToProp(b[0], m, 'x') + std.ClipToProp(b, b, 'x')[0]
        n = std.PropToClip(x, 'x')
        n.get_frame(0)
        go(lambda: n.get_frame(1))
        n.get_frame(2)
        y = std.ClipToProp(b, b, 'x')[0] + b[0]
        go(lambda: std.PropToClip(y, 'x').get_frame(1))
    elif k == 'ptc_var':
        go(lambda: std.PropToClip(std.BlankClip(b, varsize=1)))
        go(lambda: std.ClipToProp(b, std.BlankClip(b, varformat=1)))
    elif k == 'mixed':
        go(lambda: std.SetFrameProps(b, x=[1, 'a']))
        go(lambda: std.SetFrameProps(b, x=object()))
    return [k], True


def setp(f, a):
    g = f.copy()
    g.props['q'] = a
    return g


# ---------------------------------------------------------------- properties of every type
TKEYS = ['a', 'ab', 'b', 'c', '_Z', 'x1']
PT = dict(int=1, float=2, data=3, func=4, vnode=5, anode=6, vframe=7, aframe=8)


@st.composite
def s_kinds(draw):
    few = draw(st.integers(1, 3))
    off = draw(st.integers(0, len(TKEYS) - few))
    key = st.sampled_from(TKEYS[off:off + few])         # few keys, so that operations meet
    sel = st.integers(0, 99)
    op = st.one_of(st.tuples(st.just('typed'), sel, key, st.sampled_from(sorted(PT)), st.sampled_from([0, 0, 1, 1, 2, 3]), st.integers(0, 60)), st.tuples(st.just('typed'), sel, key, st.sampled_from(sorted(PT)), st.integers(0, 3), st.integers(0, 60)),
                   st.tuples(st.just('copy'), sel, sel, st.lists(key, min_size=1, max_size=4)), st.tuples(st.just('copy'), sel, sel, st.lists(key, min_size=1, max_size=4)), st.tuples(st.just('copyall'), sel, sel),
                   st.tuples(st.just('set'), sel, key, st.lists(st.tuples(st.booleans(), st.text(alphabet='abcd', max_size=3)), min_size=1, max_size=4), st.booleans()), st.tuples(st.just('remove'), sel, st.sampled_from(TKEYS + ['a*', '?'])),
                   st.tuples(st.just('python'), sel, key), st.tuples(st.just('pass'), sel, st.integers(0, 3)))
    return dict(lens=[draw(st.integers(1, 4)), draw(st.integers(1, 4))], ops=[list(x) for x in draw(st.lists(op, min_size=2, max_size=9))])


def typed(t, n, i, salt, length):
    v, w = salt * 1000 + n * 10 + i, (salt + n + i) % 50 + 1
    return dict(int=str(v), float=f'{v + 0.5:.6f}', data=f'{(salt + i) % 3 - 1}/{v}', func=str(v), vnode=str(length), anode=str(salt * 10 + i + 1), vframe=str(w), aframe=str(w))[t]


def run_kinds(c):
    """Chains over properties of every type, empty ones and data hints included; the final frames are described by a filter of the harness."""
    std, vft = core().std, core().vft
    stack = []
    for n in c['lens']:
        stack.append((std.BlankClip(format=vs.GRAY8, width=4, height=2, length=n, keep=1), [{} for _ in range(n)], 0))
    labels = set()
    for o in c['ops']:
        node, P, _ = stack[o[1] % len(stack)]
        P = [dict(d) for d in P]
        L = len(P)
        if o[0] == 'typed':
            k, t, cnt, salt = o[2:]
            node = vft.Typed(node, k, PT[t], cnt, salt)
            for n, d in enumerate(P):
                d[k] = (PT[t], [typed(t, n, i, salt, L) for i in range(cnt)])
            labels.add(t if cnt else t + ' empty')
        elif o[0] == 'copy':
            n2, P2, _ = stack[o[2] % len(stack)]
            node = std.CopyFrameProps(node, n2, o[3])
            for n, d in enumerate(P):
                s = P2[min(n, len(P2) - 1)]
                for k in o[3]:
                    d.pop(k, None)
                    if k in s:
                        d[k] = s[k]
            labels.add('copy')
        elif o[0] == 'copyall':
            n2, P2, _ = stack[o[2] % len(stack)]
            node = std.CopyFrameProps(node, n2)
            P = [dict(P2[min(n, len(P2) - 1)]) for n in range(L)]
        elif o[0] == 'set':
            vals = [x if u else x.encode() for u, x in o[3]]
            node = std.SetFrameProp(node, o[2], data=vals) if o[4] else std.SetFrameProps(node, **{o[2]: vals})
            for d in P:
                d[o[2]] = (3, [f'{int(u)}/{x}' for u, x in o[3]])
            labels.add('hints')
        elif o[0] == 'remove':
            node = std.RemoveFrameProps(node, [o[2]])
            P = [{k: v for k, v in d.items() if not glob(o[2], k)} for d in P]
        elif o[0] == 'python':
            # read by Python and written to another frame: values keep their type, empty arrays and unknown hints have no Python form
            k = o[2]

            def fn(n, f, k=k):
                g = f.copy()
                if k in f.props:
                    v = f.props[k]
                    if v is not None and not (isinstance(v, list) and not v):
                        g.props['py'] = v
                return g
            node = std.ModifyFrame(node, node, fn)
            for d in P:
                if k in d and d[k][1]:
                    t, v = d[k]
                    d['py'] = (t, ['0/' + x.split('/', 1)[1] if t == 3 and x.startswith('-1/') else x for x in v])
            labels.add('python')
        else:
            node = [lambda: std.FlipVertical(node), lambda: std.Splice([node[:1], node[1:]]) if L > 1 else node, lambda: std.Transpose(std.Transpose(node)), lambda: std.Invert(node)][o[2]]()
            labels.add('pass')
        stack.append((node, P, 0))
    for node, P, _ in stack:
        out = vft.Kinds(node)
        check(out.num_frames == len(P), 'length', out.num_frames, len(P))
        for n, d in enumerate(P):
            with out.get_frame(n) as f:
                got = f.props['kinds'].decode()
            got = {l.split(' ')[0]: l for l in got.split('\n') if l}
            for k in ('_DurationNum', '_DurationDen'):
                got.pop(k, None)
            want = {k: ' '.join([k, str(t), *v]) for k, (t, v) in d.items()}
            check(got == want, f'frame {n}: properties', got, 'want', want, 'after', c['ops'])
    return labels, len(labels) > 2


CHECKS = {
    'kinds': Sub(s_kinds(), run_kinds, quick=3000, thorough=60000, batch=100),
    'chain': Sub(s_chain(), run_chain, quick=5000, thorough=60000, batch=100),
    'mapping': Sub(s_map(), run_map, quick=8000, thorough=100000, batch=200),
    'refuse': Sub(s_refuse(), run_refuse, quick=1000, thorough=4000, batch=100),
}
