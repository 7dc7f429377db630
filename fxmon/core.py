"""Verdict types, observation counters and small helpers.

The only judge here is `Violation`, raised by an oracle that compared
what the real code did with what the property allows.  Everything the
oracles look at is recorded at the public API boundary.
"""
import collections
import hashlib
import json
import math


class Violation(Exception):
    """The code under test did something the property forbids."""

    def __init__(self, msg, mech=None):
        super().__init__(msg)
        self.mech = mech


class Hang(BaseException):
    """Raised asynchronously when a case uses too much CPU time."""


class StepLimit(BaseException):
    """Raised by the line tracer when a case exceeds its step budget."""


class Obs:
    """What the monitors observed while a batch of cases ran."""

    def __init__(self):
        self.counts = collections.Counter()
        self.states = set()
        self._nontrivial = False

    def ev(self, name, n=1):
        self.counts[name] += n

    def state(self, *parts):
        """Notes one distinct abstract state (for the evidence file)."""
        if len(self.states) < 200000:
            self.states.add(hash_of(parts))

    def nontrivial(self):
        self._nontrivial = True

    def take_nontrivial(self):
        was, self._nontrivial = self._nontrivial, False
        return was


def hash_of(obj):
    data = json.dumps(obj, sort_keys=True, default=repr).encode()
    return hashlib.blake2b(data, digest_size=8).hexdigest()


def short(obj, limit=300):
    text = repr(obj)
    return text if len(text) <= limit else text[:limit] + f'... ({len(text)} chars)'


def check(cond, msg, mech=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, mech)


def same(a, b):
    """Equality that also tells apart 1/True/1.0 and list/tuple."""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    return a == b


def check_same(got, want, what):
    if not same(got, want):
        raise Violation(f'{what}: got {short(got)}, expected {short(want)}')


def raises(exc_types, func, *args, **kwargs):
    """Runs func; returns the exception, or raises Violation if it's
    missing or of a type that isn't expected."""
    try:
        value = func(*args, **kwargs)
    except exc_types as e:
        return e
    except Exception as e:
        raise Violation(
            f'expected {exc_types}, but {type(e).__name__} was raised: {e}'
        ) from e
    names = getattr(exc_types, '__name__', exc_types)
    raise Violation(f'expected {names}, but got a result: {short(value)}')


# -- statistics ---------------------------------------------------------

def _gammaq(a, x):
    """Regularized upper incomplete gamma function Q(a, x)."""
    if x <= 0:
        return 1.0
    if x < a + 1:
        term = total = 1.0 / a
        n = a
        for _ in range(100000):
            n += 1
            term *= x / n
            total += term
            if abs(term) < abs(total) * 1e-16:
                break
        return max(0.0, 1.0 - total * math.exp(-x + a * math.log(x) - math.lgamma(a)))
    b = x + 1 - a
    c = 1e300
    d = 1 / b
    h = d
    for i in range(1, 100000):
        an = -i * (i - a)
        b += 2
        d = an * d + b
        d = 1e-300 if abs(d) < 1e-300 else d
        c = b + an / c
        c = 1e-300 if abs(c) < 1e-300 else c
        d = 1 / d
        delta = d * c
        h *= delta
        if abs(delta - 1) < 1e-15:
            break
    return math.exp(-x + a * math.log(x) - math.lgamma(a)) * h


def chi_square_p(counts, probs):
    """p-value of observed counts given cell probabilities.

    Cells that are expected less than 40 times are pooled.  A cell with
    probability 0 that was observed gives p = 0.
    """
    n = sum(counts)
    cells = []
    pool_c = pool_e = 0.0
    for c, p in zip(counts, probs):
        if p <= 0:
            if c:
                return 0.0
            continue
        if n * p < 40:
            pool_c += c
            pool_e += n * p
        else:
            cells.append((c, n * p))
    if pool_e >= 40:
        cells.append((pool_c, pool_e))
    elif pool_e > 0 and cells:
        c, e = cells.pop()
        cells.append((c + pool_c, e + pool_e))
    if len(cells) < 2:
        return 1.0
    stat = sum((c - e) ** 2 / e for c, e in cells)
    return _gammaq((len(cells) - 1) / 2, stat / 2)


P_ALARM = 1e-12
