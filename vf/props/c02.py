"""C02: frames are values: histories of frame creation, copying, plane sharing and writes against a model holding independent copies."""
import numpy as np
from vf.core import Sub, check
from vf.frames import s_history, run_history


# ---------------------------------------------------------------- filters never change what they are given
def run_filters(c):
    from vf import vsl
    from vf.props import c04
    vs = vsl.vs
    vsl.core()
    vs.core.core.num_threads = c['threads']
    try:
        nodes, refused = c04.build(c)
        for n in nodes:         # every node caches, so that consumers are handed the very frames held here
            vsl.core().std.SetVideoCache(n, mode=1, fixedsize=1, maxsize=60)
        held, want = [], {}
        for i, n in enumerate(nodes):
            for k in range(min(n.num_frames, 12)):
                f = n.get_frame(k)
                held.append((i, k, f))
                want[i, k] = c04.digest(f)
        for i in reversed(range(len(nodes))):
            pend = [(k, nodes[i].get_frame_async(k)) for k in range(min(nodes[i].num_frames, 12))]
            for k, fu in pend:
                with fu.result() as f:
                    check(c04.digest(f) == want[i, k], f'node {i} frame {k} differs when requested again')
        copies = [(i, k, f.copy()) for i, k, f in held if (i * 7 + k + c['seed']) % 3 == 0]
        for i, k, f in copies:
            for p in f:
                a = np.asarray(p)
                a.view(np.uint8)[:] ^= 0xA5
            f.props['Changed'] = 1
        for i, k, f in held:
            check(c04.digest(f) == want[i, k], f'the frame {k} held from node {i} changed while other filters used it or its copy was written')
        for i, k, f in held:
            f.close()
        for i, n in enumerate(nodes):
            for k in range(min(n.num_frames, 12)):
                with n.get_frame(k) as f:
                    check(c04.digest(f) == want[i, k], f'node {i} frame {k} changed after a copy of it was written')
    finally:
        vs.core.core.num_threads = vsl.THREADS
    return {'filter:' + op[0] for op in c['ops']}, len(held) > 2


from vf.props import c04 as _c04
CHECKS = dict(history=Sub(s_history(), run_history, quick=12000, thorough=150000, batch=100), filters=Sub(_c04.s_real(), run_filters, quick=600, thorough=20000, batch=20, racy=True, timeout=200))
