"""C06: replace_only_after_call."""
import collections

from fauxdoc.emitters import Static, WrapOne
from fauxdoc.profile import Field
from fxmon import specs
from fxmon.core import check, raises, short
from fxmon.props.c05 import key

RULE = ('random call sequences on emitters that replace items only after each '
        'call (with and without weights, direct, wrapped and in multi-valued '
        'fields); each batch is checked against the multiset of items; '
        'non-trivial: at least one batch of two or more values')
REQUIRED = {'batches': 3000, 'full_batches': 500, 'over_requests': 300,
            'values': 10000, 'state_checks': 3000}
QUICK = 30000
THOROUGH = 720000


def directed():
    cases = []
    for items in ([1], [1, 2], [1, 1, 2], 'abc', {'$range': [0, 40, 1]},
                  {'$range': [0, 300, 1]}, [[1], [2], [3]],
                  {'$dtrange': ['2020-01-01', '2020-02-01']}):
        n = len(specs.dec(items))
        sizes = sorted({0, 1, 2, 3, n // 3, n * 2 // 5, n * 42 // 100,
                        n // 2, n - 1, n})
        for weights in (None, list(range(1, n + 1)), [1] + [0] * (n - 1),
                        [1e6] + [1e-6] * (n - 1)):
            for via in ('direct', 'wrap', 'field'):
                spec = {'k': 'choice', 'items': items, 'roac': True, 'seed': 1}
                if weights:
                    spec['weights'] = weights
                ops = [s for s in sizes if 0 <= s <= n] * 2
                cases.append({'spec': spec, 'via': via,
                              'ops': ops + [n + 1, n, None, n + 9, n]})
    for n in [*specs.SIZES, 5000, 40000]:
        for weights in (None, [1 + i % 3 for i in range(n)],
                        [i % 2 for i in range(n)]):
            cases.append({
                'spec': {'k': 'choice', 'items': {'$range': [0, n, 1]},
                         'roac': True, 'seed': 1, 'weights': weights},
                'via': 'direct', 'ops': [
                    min(k, n) for k in (
                        n, n - 1, n // 2, n // 3, n * 2 // 5, n // 5, 2, 3, 5,
                        6, 21, 22, 85, 86, n // 4, n // 10, n // 100, 0)]})
    return cases


def gen(rng):
    spec = specs.gen_choice(rng, replace='roac', hi=rng.choice([3, 8, 60]),
                            hashable=False, zeros=rng.random() < 0.3)
    spec['seed'] = rng.choice([None, specs.gen_seed(rng)])
    n = len(specs.dec(spec['items']))
    ops = [rng.choice([None, 1, 0, 2, n, n, rng.randint(0, n),
                       rng.randint(0, n), n + 1, n + rng.randint(1, 50),
                       'reset', 'seed', 'switch'])
           for _ in range(rng.randint(2, 15))]
    return {'spec': spec, 'ops': ops,
            'via': rng.choice(['direct', 'direct', 'wrap', 'field'])}


def run(case, obs):
    em = specs.build(case['spec'])
    via = case['via']
    count = Static(1)
    if via == 'wrap':
        top = call = WrapOne(em, lambda v: [v, 'wrapped'])
    elif via == 'field':
        top = Field('f', em, repeat=count)

        def call(n=None):
            count.value = n
            return top()
    else:
        top = call = em
    have = collections.Counter(key(i) for i in em.items)
    size = len(em.items)
    distinct = specs.count_distinct(em.items)
    order = [key(i) for i in em.items]
    weights = specs.weights_of(case['spec'])
    for n in case['ops']:
        if n == 'reset':
            top.reset()
        elif n == 'seed':
            top.seed(5)
        elif n == 'switch':
            # Turning it off and on again.
            em.replace_only_after_call = False
            check(em.replace is True, 'replace changed')
            em.replace_only_after_call = True
        elif (n or 0) > max(size, 1):
            raises(ValueError, call, n)
            obs.ev('over_requests')
        else:
            got = call() if n is None else call(n)
            values = [got] if n is None else got
            check(n is None or (type(got) is list and len(got) == n),
                  lambda: f'call {n} returned {short(got)}')
            if via == 'wrap':
                values = [v[0] for v in values]
            used = collections.Counter(key(v) for v in values)
            if n is not None:
                # What a call returned is the caller's.
                check(got is not em.items, 'it returned its own items')
                del got[1:]
            zeros = specs.ZerosLast(order, weights)
            for v in values:
                check(zeros.take(key(v)) or not any(weights), lambda: (
                    f'{short(v)} has no weight and was emitted before '
                    f'others: {short(values)}'))
            obs.ev('zeros_last', zeros.seen)
            for k, c in used.items():
                check(c <= have[k], lambda: (
                    f'one call for {n} values emitted {k} {c} times, and '
                    f'there are {have[k]} such items: {short(values)}'))
            obs.ev('values', len(values))
            if n and n > 1:
                obs.ev('batches')
                obs.nontrivial()
                if n == size:
                    obs.ev('full_batches')
                obs.state(min(size, 20), min(n, 20), via)
        check([key(i) for i in em.items] == order, 'its items changed')
        check(em.num_unique_items == size
              and em.num_unique_values == distinct
              and em.emits_unique_values is False
              and em.replace is True
              and em.replace_only_after_call is True, lambda: (
                  f'unexpected state after {n}: {em.num_unique_items} items, '
                  f'{em.num_unique_values} values, {em.emits_unique_values}, '
                  f'{em.replace}, {em.replace_only_after_call}'))
        obs.ev('state_checks')
