"""Shared vocabulary of the property modules."""
import hashlib, json


class Violation(Exception):
    """The property is broken by this case."""


class Sub:
    """One generated sub-check of a property.

    strategy  Hypothesis strategy producing JSON-able cases
    run       run(case) -> (labels, nontrivial); raises Violation (any other exception of the
              code under test is a violation too)
    quick/thorough  number of generated cases per tier
    """
    def __init__(self, strategy, run, quick=2000, thorough=20000, batch=100, racy=False, timeout=90, isolate=False):
        self.strategy, self.run, self.quick, self.thorough = strategy, run, quick, thorough
        self.batch, self.racy, self.timeout, self.isolate = batch, racy, timeout, isolate


def dumps(o):
    return json.dumps(o, sort_keys=True, separators=(',', ':'), allow_nan=True, default=_default)


def _default(o):
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    if hasattr(o, 'item'):
        return o.item()
    raise TypeError(type(o))


def case_hash(case):
    return hashlib.blake2b(dumps(case).encode(), digest_size=8).digest()


def check(cond, *msg):
    if not cond:
        raise Violation(' '.join(str(m) for m in msg))


def brief(case, n=1500):
    s = dumps(case)
    return json.loads(s) if len(s) <= n else s[:n] + '...'
