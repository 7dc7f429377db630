"""C05: a Choice without replacement emits each item exactly once."""
import collections

from fauxdoc.emitters import Static, WrapOne
from fauxdoc.profile import Field
from fxmon import specs
from fxmon.core import check, raises, short

RULE = ('random histories of calls, over-requests, resets, seeds and settings '
        'changes on emitters without replacement (also wrapped, and in '
        'fields), checked against a ledger of the items that remain; '
        'non-trivial: at least two items were emitted')
REQUIRED = {'emitted': 5000, 'over_requests': 500, 'rounds_restarted': 500,
            'drained': 300, 'zeros_last': 5000, 'setting_changes': 500,
            'negative': 1000}
QUICK = 30000
THOROUGH = 630000


def directed():
    cases = []
    for items in ([1], [1, 2], [1, 1, 1, 2], 'abcabc', {'$range': [0, 50, 1]},
                  [[1], [2], [1]], {'$range': [0, 300, 1]},
                  {'$dtrange': ['2020-01-01', '2020-02-01']}):
        n = len(specs.dec(items))
        for weights in (None, list(range(1, n + 1)), [0] * (n - 1) + [1],
                        [1e-9] * n):
            for via in ('direct', 'wrap', 'field'):
                for calls in ([[None]] * n + [[None], [1], [0], [2]],
                              [[n], [0], [None], [1], ['reset'], [n + 1], [n]],
                              [[n + 1], [n], ['seed', 3], [n]],
                              [['negative', -1], [1], ['negative', -2], [n],
                               [n - 1], [1]],
                              [[1], ['weights', None], [n], [1]],
                              [[1], ['replace', True], [n + 3],
                               ['replace', False], [n], [1]],
                              [[1], ['roac', True], [n], [n],
                               ['replace', False], [n], [None]],
                              [[1], ['replace', False], [n], [n - 1]]):
                    ops = [['call', c[0]] if not isinstance(c[0], str) else c
                           for c in calls]
                    spec = {'k': 'choice', 'items': items, 'replace': False,
                            'seed': 1}
                    if weights:
                        spec['weights'] = weights
                    cases.append({'spec': spec, 'via': via, 'ops': ops})
    for n in [*specs.SIZES, 5000, 40000]:
        for weights in (None, [1 + i % 3 for i in range(n)],
                        [i % 2 for i in range(n)]):
            for ops in ([n], [n // 2, n - n // 2], [1, n - 1],
                        [None, n // 3, n - 1 - n // 3], [0, n // 2, n, 1]):
                cases.append({
                    'spec': {'k': 'choice', 'items': {'$range': [0, n, 1]},
                             'replace': False, 'seed': 1, 'weights': weights},
                    'via': 'direct', 'ops': [['call', c] for c in ops] + [
                        ['drain'], ['over', 1], ['over', 2], ['reset'],
                        ['drain']]})
    for n in (60001, 65537, 131072, 250000):
        for weights in (None, [1 + i % 3 for i in range(n)]):
            cases.append({
                'spec': {'k': 'choice', 'items': {'$range': [0, n, 1]},
                         'replace': False, 'seed': 1, 'weights': weights},
                'via': 'direct', 'ops': [['call', n // 2], ['call', None],
                                         ['drain'], ['over', 1]]})
    return cases


def gen(rng):
    spec = specs.gen_choice(rng, replace='none', hi=rng.choice([3, 8, 40]),
                            hashable=False, zeros=rng.random() < 0.3)
    spec.pop('roac', None)
    spec['seed'] = rng.choice([None, specs.gen_seed(rng)])
    n = len(specs.dec(spec['items']))
    ops = []
    for _ in range(rng.randint(2, 20)):
        kind = rng.choice(['call'] * 9 + ['reset', 'seed', 'weights', 'cum',
                                          'replace', 'roac', 'over', 'drain',
                                          'negative'])
        if kind == 'call':
            ops.append(['call', rng.choice([None, 1, 0, 2, 3,
                                            rng.randint(0, n)])])
        elif kind == 'over':
            ops.append(['over', rng.choice([1, 1, 2, 10])])
        elif kind == 'negative':
            ops.append(['negative', -rng.choice([1, 2, 3, n, n + 1])])
        elif kind == 'seed':
            ops.append(['seed', specs.gen_seed(rng)])
        elif kind == 'weights':
            ops.append(['weights', rng.choice([
                None, specs.gen_weights(rng, n, rng.random() < 0.3)])])
        elif kind == 'cum':
            ops.append(['cum', specs.cumulate(specs.gen_weights(rng, n))])
        elif kind in ('replace', 'roac'):
            ops.append([kind, rng.random() < 0.5])
        else:
            ops.append([kind])
    return {'spec': spec, 'via': rng.choice(['direct', 'direct', 'wrap',
                                             'field']), 'ops': ops}


def key(v):
    return repr((type(v).__name__, v))


class Ledger:
    def __init__(self, items, weights):
        self.items = [key(i) for i in items]
        self.values = dict(zip(self.items, items))
        self.refill(weights)

    def refill(self, weights=None):
        self.left = collections.Counter(self.items)
        self.weights = weights
        self.zeros = specs.ZerosLast(self.items, weights)

    def total(self):
        return sum(self.left.values())

    def distinct(self):
        return self.count_distinct(k for k, n in self.left.items() if n)

    def count_distinct(self, keys):
        return specs.count_distinct(self.values[k] for k in keys)

    def take(self, values):
        for v in values:
            k = key(v)
            check(self.left[k] > 0, lambda: (
                f'{short(v)} was emitted again (or is not an item); '
                f'{self.total()} items remained'))
            self.left[k] -= 1
            check(self.zeros.take(k), lambda: (
                f'{short(v)} has no weight and was emitted before others: '
                f'{self.zeros.left} with weight remained'))


def run(case, obs):
    em = specs.build(case['spec'])
    via = case['via']
    count = Static(1)
    if via == 'wrap':
        top = WrapOne(em, lambda v: [v, 'wrapped'])
        call = top
    elif via == 'field':
        top = Field('f', em, repeat=count)

        def call(n=None):
            count.value = n
            return top()
    else:
        top = call = em

    def emit(n):
        got = call() if n is None else call(n)
        values = [got] if n is None else got
        check(n is None or (type(got) is list and len(got) == n),
              lambda: f'call {n} returned {short(got)}')
        return [v[0] for v in values] if via == 'wrap' else values

    weights = specs.weights_of(case['spec'])
    ledger = Ledger(em.items, weights)
    size = len(ledger.items)
    mode = 'none'
    emitted = 0

    def agree(what):
        want = ledger.total() if mode == 'none' else size
        check(em.num_unique_items == want, lambda: (
            f'{what}: num_unique_items is {em.num_unique_items}, '
            f'expected {want}'))
        want = ledger.distinct() if mode == 'none' \
            else ledger.count_distinct(set(ledger.items))
        check(em.num_unique_values == want, lambda: (
            f'{what}: num_unique_values is {em.num_unique_values}, '
            f'expected {want}'))
        want = mode == 'none' and ledger.total() == ledger.distinct()
        check(em.emits_unique_values is want, lambda: (
            f'{what}: emits_unique_values is {em.emits_unique_values}, '
            f'expected {want}'))

    agree('at first')
    for op, *args in case['ops']:
        what = f'after {op} {short(args, 60)}'
        if op in ('call', 'over', 'drain'):
            if op == 'call':
                n = args[0]
            elif op == 'over':
                n = ledger.total() + args[0]
            else:
                n = ledger.total()
            need = 1 if n is None else n
            if mode == 'none' and need > ledger.total():
                raises(ValueError, emit, n)
                obs.ev('over_requests')
            elif mode == 'roac' and need > size:
                raises(ValueError, emit, n)
                obs.ev('over_requests')
            elif mode == 'none':
                values = emit(n)
                ledger.take(values)
                emitted += len(values)
                obs.ev('emitted', len(values))
                obs.ev('zeros_last', ledger.zeros.seen)
                if not ledger.total():
                    obs.ev('drained')
            elif need <= 1 and sum(em.weights or [1]) == 0:
                pass
            else:
                values = emit(n)
                known = set(ledger.items)
                check(all(key(v) in known for v in values),
                      f'{what}: not an item')
        elif op == 'negative':
            # Nothing, or an error; but not items that were emitted before.
            try:
                values = em(args[0])
            except ValueError:
                values = []
            if mode == 'none':
                ledger.take(values)
            obs.ev('negative')
        elif op == 'reset':
            top.reset()
            ledger.refill(weights)
            obs.ev('rounds_restarted')
        elif op == 'seed':
            top.seed(specs.dec(args[0]))
            ledger.refill(weights)
            obs.ev('rounds_restarted')
        elif op in ('weights', 'cum'):
            setattr(em, 'weights' if op == 'weights' else 'cum_weights',
                    args[0])
            weights = specs.weights_of({op: args[0]})
            ledger.refill(weights)
            obs.ev('setting_changes')
        elif op == 'replace':
            em.replace = args[0]
            if args[0] and mode == 'none':
                mode = 'replace'
            elif not args[0] and mode != 'none':
                mode = 'none'
                ledger.refill(weights)
                obs.ev('rounds_restarted')
            obs.ev('setting_changes')
        elif op == 'roac':
            em.replace_only_after_call = args[0]
            if args[0]:
                mode = 'roac'
            elif mode == 'roac':
                mode = 'replace'
            obs.ev('setting_changes')
        agree(what)
        obs.state(mode, min(size, 6), min(ledger.total(), 6), op)
    if emitted > 1:
        obs.nontrivial()
