"""C03: every request completes exactly once with its frame or an error it depends on, on generated graphs of self-checking filters."""
from vf.core import Sub
from vf import engine


def run_graph(c):
    labels, stat = engine.run(c, 'C03')
    return labels, stat['deliveries'] >= 2


CHECKS = dict(graph=Sub(engine.s_case('C03'), run_graph, quick=5000, thorough=60000, batch=25, racy=True, timeout=300))
