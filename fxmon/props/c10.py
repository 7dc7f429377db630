"""C10: weighted_shuffle."""
import collections
import fractions
import itertools
import math
import random

from fauxdoc.mathtools import weighted_shuffle
from fxmon import specs
from fxmon.core import check, check_same, chi_square_p, P_ALARM, raises, short

RULE = ('random items, weights (with zeros, tiny and huge ones) and numbers on '
        'both sides of the internal switch of algorithms, with ordinary and '
        'hostile RNGs; each result is checked as a selection of positions, and '
        'counts of ordered selections against the exact probabilities of '
        'sequential weighted sampling; non-trivial: at least two items')
REQUIRED = {'shuffles': 4000, 'with_zero_weights': 500, 'hostile_rng': 300,
            'repeat_checks': 3000, 'distribution_tests': 25,
            'mismatches': 200, 'long': 80}
QUICK = 20000
THOROUGH = 750000
DRAWS = 6000


def directed():
    cases = []
    for n in (1, 2, 3, 4):
        for k in range(1, n + 1):
            for weights in ([1] * n, list(range(1, n + 1)),
                            [2.0 ** i for i in range(n)],
                            [3] + [0] * (n - 1), [0] * n,
                            [0.1] * (n - 1) + [0.9]):
                cases.append({'dist': True, 'weights': weights, 'k': k})
    # The scale of the weights makes no difference.
    for scale in (1e-300, 1e-15, 1e-9, 1e-6, 1e-4, 1e6, 1e15, 1e300):
        for n, k in ((3, 3), (4, 2), (4, 4), (5, 1)):
            for weights in ([scale] * n, [scale * i for i in range(1, n + 1)]):
                cases.append({'dist': True, 'weights': weights, 'k': k})
    # (The smallest floats are too coarse for small samples.)
    for weights in ([1e-310] * 3, [1e-310, 2e-310, 3e-310], [5e-324] * 3,
                    [5e-324, 1e-323, 5e-324], [1, 1e-310, 2e-310, 1e-310]):
        cases.append({'dist': True, 'weights': weights, 'k': len(weights)})
    cases.append({'dist': True, 'weights': [1e-310, 3e-310, 2e-310, 1e-310,
                                            1e-310], 'k': 2})
    for n, k in ((6, 1), (6, 2), (8, 2), (8, 3), (12, 2)):
        cases.append({'dist': True, 'weights': list(range(1, n + 1)), 'k': k})
    for n in (1, 2, 10, 100, 1000):
        for k in (None, 0, 1, n // 3, n // 2, n):
            for w in ('eq', 'lin', 'exp', 'onezero', 'allzero', 'half'):
                weights = {
                    'eq': [1] * n, 'lin': list(range(1, n + 1)),
                    'exp': [math.exp(-i) for i in range(n)],
                    'onezero': [0] + [1] * (n - 1), 'allzero': [0] * n,
                    'half': [i % 2 for i in range(n)]}[w]
                for r in ('plain', 'zero', 'high'):
                    if r != 'plain' and k not in (None, n):
                        continue
                    cases.append({'n': n, 'weights': weights, 'k': k,
                                  'rng': r, 'seed': n})
    # Long lists, with numbers that are small, in the middle, or all.
    for n in (3000, 5000, 10001, 20000, 70000):
        for k in (None, 0, 1, 2, 100, n // 5, n // 2, n - 1, n):
            for w in LONG:
                if n < 20000 or w == 'lin':
                    cases.append({'n': n, 'weights': {'$long': [w, n]},
                                  'k': k, 'rng': 'plain', 'seed': n})
    return cases


LONG = {'eq': lambda n: [1] * n,
        'lin': lambda n: [i % 97 + 0.5 for i in range(n)],
        'half': lambda n: [i % 2 for i in range(n)]}


def gen(rng):
    n = rng.choice([1, 2, 3, 5, 8, 20, 60])
    weights = specs.gen_weights(rng, n, zeros=rng.random() < 0.4)
    if rng.random() < 0.1:
        weights = [rng.choice([1e-300, 5e-324, 1e-12, 1, 1e12, 0])
                   for _ in range(n)]
    case = {'n': n, 'weights': weights,
            'k': rng.choice([None, 0, 1, n, rng.randint(0, n),
                             rng.randint(0, n)]),
            'rng': 'plain', 'seed': rng.randint(0, 10**6),
            'kind': rng.choice(['list', 'tuple', 'range', 'dup', 'str', 'seq',
                                'odd', 'odd']),
            'form': rng.choice(['list', 'list', 'tuple', 'seq', 'deque'])}
    if rng.random() < 0.3 and case['k'] in (None, n):
        case['rng'] = rng.choice(['zero', 'high'])
    return case


# Values that may be mistaken for no value, or for each other.
ODD = [None, False, 0, 0.0, '', (), [], {}, float('nan'), float('nan'), True,
       1, 1.0, 'x', [1], [1], NotImplemented, Ellipsis, len, b'']
FORMS = {'tuple': tuple, 'seq': specs.UserSeq, 'deque': collections.deque}


class Zero(random.Random):
    def random(self):
        return 0.0


class High(random.Random):
    def random(self):
        return 1 - 2.0**-53


def run(case, obs):
    if case.get('dist'):
        return run_dist(case, obs)
    n, k, weights = case['n'], case['k'], case['weights']
    if isinstance(weights, dict):
        w, size = weights['$long']
        weights = LONG[w](size)
    # Unique objects: even equal values are told apart by identity.
    class Item:
        pass
    items = [Item() for _ in range(n)]
    kind = case.get('kind')
    if kind == 'tuple':
        items = tuple(items)
    elif kind == 'range':
        items = range(1000, 1000 + n)
    elif kind == 'dup':
        items = [items[0]] * n
    elif kind == 'str':
        items = ''.join(chr(300 + i) for i in range(n))
    elif kind == 'seq':
        items = specs.UserSeq(items)
    elif kind == 'odd':
        items[:len(ODD)] = ODD[:n]
    wcopy = list(weights)
    if case.get('form') in FORMS:
        weights = FORMS[case['form']](weights)
    cls = {'plain': random.Random, 'zero': Zero, 'high': High}[case['rng']]

    def shuffle():
        return weighted_shuffle(items, weights, cls(case['seed']), k)
    before = random.getstate()
    got = shuffle()
    need = n if k is None else k
    check(type(got) is list and len(got) == need,
          lambda: f'{short(got)}: not a list of {need}')
    if kind == 'dup':
        check(all(g is items[0] for g in got), 'not an item')
    else:
        by_value = kind in ('range', 'str')
        index = {i if by_value else id(i): p for p, i in enumerate(items)}
        assert len(index) == n
        pos = [index.get(g if by_value else id(g)) for g in got]
        check(None not in pos, 'not an item')
        check(len(set(pos)) == len(pos), lambda: f'selected twice: {pos}')
        zero = [weights[p] == 0 for p in pos]
        check(zero == sorted(zero), lambda: (
            f'an item with weight 0 was selected before others: {pos}, '
            f'weights {short(weights)}'))
        if 0 in weights:
            obs.ev('with_zero_weights')
    check(list(weights) == wcopy and len(items) == n, 'the input was changed')
    again = shuffle()
    check(len(again) == len(got) and all(a is b or a == b
                                         for a, b in zip(again, got)),
          'a second run with an equal RNG gave another result')
    # The state of a generator has more than one part.
    results = []
    for _ in range(2):
        used = cls(case['seed'])
        used.gauss(0, 1)
        results.append(weighted_shuffle(items, weights, used, k))
    check(all(a is b or a == b for a, b in zip(*results)),
          'a second run with an equal RNG, used before, gave another result')
    check(random.getstate() == before, 'the global RNG was used')
    obs.ev('repeat_checks')
    obs.ev('shuffles')
    if case['rng'] != 'plain':
        obs.ev('hostile_rng')
    for bad in (wcopy + [1], wcopy[:-1]):
        raises(ValueError, weighted_shuffle, items, bad, random.Random(1), k)
        obs.ev('mismatches')
    obs.ev('long', n > 2000)
    obs.state(n, k, case['rng'], sum(1 for w in weights if w))
    if n > 1 and need:
        obs.nontrivial()


def order_probs(weights, k):
    """Exact probability of each ordered selection of k positions.

    Each next item is selected in proportion to the remaining weights;
    items with weight 0 come last, each order equally likely or fixed
    (so they are merged into one outcome).
    """
    probs = collections.defaultdict(float)

    def go(chosen, left, p):
        if len(chosen) == k or not left:
            probs[tuple(chosen)] += p
            return
        total = sum(weights[i] for i in left)
        for i in left:
            go(chosen + [i], [j for j in left if j != i],
               p * float(weights[i] / total))
    weights = [fractions.Fraction(w) for w in weights]
    go([], [i for i, w in enumerate(weights) if w > 0], 1.0)
    return probs


def run_dist(case, obs):
    weights, k = case['weights'], case['k']
    n = len(weights)
    probs = order_probs(weights, k)
    rng = random.Random(repr((weights, k)))
    seen = collections.Counter()
    for _ in range(DRAWS):
        got = weighted_shuffle(range(n), weights, rng, k)
        check(len(set(got)) == k, lambda: f'{got}: not {k} items')
        seen[tuple(i for i in got if weights[i])] += 1
    check(set(seen) <= set(probs), lambda: f'impossible selection: '
                                           f'{set(seen) - set(probs)}')
    cells = sorted(probs)
    p = chi_square_p([seen[c] for c in cells], [probs[c] for c in cells])
    check(p >= P_ALARM, lambda: f'weights {weights}, {k} items: counts '
                                f'{short(seen)} do not fit {short(probs)} '
                                f'(p={p:.3g})')
    obs.ev('distribution_tests')
    obs.state('dist', weights, k)
    if n > 1:
        obs.nontrivial()
