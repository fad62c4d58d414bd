"""C06: filters see the serialisation and activations their mode promises, on generated graphs of self-checking filters."""
from vf.core import Sub
from vf import engine


def run_graph(c):
    labels, stat = engine.run(c, 'C06')
    return labels, stat['activations'] >= 4


CHECKS = dict(graph=Sub(engine.s_case('C06'), run_graph, quick=3500, thorough=60000, batch=25, racy=True, timeout=300))
