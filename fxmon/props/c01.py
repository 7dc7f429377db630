"""C01: the batch contract of every emitter."""
import itertools

from fauxdoc.emitter import Emitter
from fauxdoc.emitters import (BasedOnFields, Choice, CopyFields, Iterative,
                              Sequential, Static, WrapMany, WrapOne)
from fxmon import specs
from fxmon.core import check, check_same, short

RULE = ('random emitter trees (all built-in types, nested wrappers, custom '
        'emitters) and call sequences mixing single calls and batches; '
        'non-trivial: at least two values were checked')
REQUIRED = {'single_calls': 300, 'batches': 600, 'empty_batches': 50,
            'values': 3000, 'mutated_results': 50, 'custom_dispatch': 4,
            'huge_batches': 8}
QUICK = 36000
THOROUGH = 350000


def directed():
    cases = []
    ints = {'k': 'seq', 'items': [0, 1, 2, 0]}
    base = [
        {'k': 'static', 'v': None}, {'k': 'static', 'v': [1]},
        {'k': 'seq', 'items': [1, 2, 3]},
        {'k': 'seq', 'items': [1, 2, 3], 'rac': True},
        {'k': 'iter', 'items': 'abc', 'gen': 'gen'},
        {'k': 'choice', 'items': [5], 'seed': 1},
        {'k': 'choice', 'items': [5], 'roac': True, 'seed': 1},
        {'k': 'choice', 'items': 'xyz', 'weights': [1, 2, 3], 'seed': 1},
        {'k': 'choice', 'items': {'$range': [0, 1000, 1]}, 'replace': False,
         'seed': 4},
        {'k': 'choice', 'items': {'$range': [0, 400, 1]}, 'roac': True,
         'seed': 4},
        {'k': 'choice', 'items': {'$dtrange': ['2020-01-01', '2022-01-01']},
         'roac': True, 'seed': 4},
        {'k': 'word', 'len': ints, 'alpha': {'k': 'seq', 'items': 'abc'}},
        {'k': 'word', 'len': {'k': 'static', 'v': 0},
         'alpha': {'k': 'seq', 'items': 'abc'}},
        {'k': 'text', 'num': {'k': 'static', 'v': 0},
         'word': {'k': 'seq', 'items': ['a', 'b']}},
        {'k': 'text', 'num': ints, 'word': {'k': 'seq', 'items': ['a', 'b']}},
        {'k': 'wrap1', 'fn': 'tag', 'src': {'k': 'counter', 'start': 0}},
        {'k': 'wrap1', 'fn': 'tag', 'src': {'k': 'plain', 'items': [1, 2]}},
        {'k': 'wrapn', 'fn': 'dict', 'srcs': {
            'a': {'k': 'counter', 'start': 0},
            'b': {'k': 'seq', 'items': 'xy'}}},
        {'k': 'wrapn', 'fn': 'rng', 'srcs': {}, 'seed': 6},
        {'k': 'wrapn', 'fn': 'order', 'srcs': {
            'a': {'k': 'counter', 'start': 0}}, 'also': {'b': 'a', '_n': 'a'}},
    ]
    for spec in base:
        for calls in ([None], [0], [1], [2], [None, 0, 1, None, 3, 1, 2],
                      [0, 0, 7, None], [100], [0, 1, 257]):
            lim, cap = specs.batch_limit(spec), specs.capacity(spec)
            if any((lim is not None and (c or 0) > lim) for c in calls):
                continue
            for mutate in (False, True):
                cases.append({'spec': spec, 'calls': calls, 'mutate': mutate})
    # Very large batches.
    for spec in base:
        lim, cap = specs.batch_limit(spec), specs.capacity(spec)
        if lim is None and cap is None:
            for n in (66000, 140000):
                cases.append({'spec': spec, 'calls': [n, None, 2],
                              'mutate': False})
    cases += [{'huge': i} for i in range(len(HUGE))]
    cases += [{'custom': n} for n in (0, 1, 2, 9)]
    cases += [{'spec': spec, 'calls': calls, 'mutate': True}
              for spec, calls in specs.matrix()]
    return cases


def gen(rng):
    spec = specs.gen_emitter(rng, rng.choice([0, 1, 2, 3]))
    return {'spec': spec, 'calls': specs.gen_calls(rng, spec, hi=12),
            'mutate': rng.random() < 0.3}


def run(case, obs):
    if 'huge' in case:
        return run_huge(case['huge'], obs)
    if 'custom' in case:
        return run_custom(case['custom'], obs)
    spec = case['spec']
    em, twin = specs.build(spec), specs.build(spec)
    ok = specs.domain(spec)
    total = 0
    for n in case['calls']:
        got = em() if n is None else em(n)
        other = twin() if n is None else twin(n)
        # The twin's results are never touched: if changing a returned
        # list changed later output, the two would now differ.
        check_same(got, other, f'{spec["k"]} call {n}: twin emitter')
        check_same(reports(em), reports(twin),
                   f'{spec["k"]} call {n}: what it reports (vs. a twin)')
        if n is None:
            obs.ev('single_calls')
            check(ok(got), lambda: f'{spec["k"]}() gave {short(got)}, which '
                                   'is outside of its domain')
            total += 1
            continue
        obs.ev('empty_batches' if n == 0 else 'batches')
        check(type(got) is list, lambda: f'{spec["k"]}({n}) returned a '
                                         f'{type(got).__name__}')
        check(len(got) == n, lambda: f'{spec["k"]}({n}) returned {len(got)} '
                                     f'values: {short(got)}')
        for v in got:
            check(ok(v), lambda: f'{spec["k"]}({n}) gave {short(v)}, which is '
                                 'outside of its domain')
        total += n
        if case['mutate']:
            obs.ev('mutated_results')
            got.reverse()
            got += ['junk', 'junk', 'junk']
            if total % 3:
                del got[:1 if total % 3 == 1 else None]
            check_same(reports(em), reports(twin),
                       f'{spec["k"]}: what it reports after the list that it '
                       'returned was changed')
    if case['mutate']:
        for e in (em, twin):
            getattr(e, 'seed', lambda _: None)('again')
            e.reset()
        n = case['calls'][0]
        check_same(em() if n is None else em(n),
                   twin() if n is None else twin(n),
                   f'{spec["k"]} after changed results and reset: twin')
    obs.ev('values', total)
    obs.state(spec['k'], spec.get('replace'), spec.get('roac'),
              bool(spec.get('weights') or spec.get('cum')),
              [min(c, 5) if c is not None else -1 for c in case['calls'][:3]])
    if total > 1:
        obs.nontrivial()


HUGE = [
    lambda n: (Static(7), lambda i: 7),
    lambda n: (Sequential(range(10)), lambda i: i % 10),
    lambda n: (Sequential(range(n)), lambda i: i),
    lambda n: (Iterative(itertools.count), lambda i: i),
    lambda n: (WrapOne(Sequential(range(4)), lambda v: v + 1),
               lambda i: i % 4 + 1),
    lambda n: (WrapMany({'a': Sequential(range(4))}, lambda a: a),
               lambda i: i % 4),
    lambda n: (Choice([5]), lambda i: 5),
    lambda n: (Choice('a', [3]), lambda i: 'a'),
]


def run_huge(i, obs):
    """Batches of millions of values."""
    n = 2500001
    em, want = HUGE[i](n)
    got = em(n)
    check(type(got) is list and len(got) == n, lambda: (
        f'{type(em).__name__}({n}) returned {len(got)} values'))
    check(all(want(j) == got[j] for j in range(0, n, 7)),
          lambda: f'{type(em).__name__}({n}): other values')
    check_same(em(3), [want(j % n if i == 2 else j) for j in range(n, n + 3)],
               'after a huge batch')
    obs.ev('values', n)
    obs.ev('huge_batches')
    obs.nontrivial()


def reports(em):
    return [getattr(em, a, None) for a in (
        'num_unique_values', 'num_unique_items', 'emits_unique_values')]


def run_custom(n, obs):
    """User-defined subclasses: one value vs. a list."""
    log = []

    class Mine(Emitter):
        def __init__(self):
            self.ids = itertools.count()

        def emit(self):
            log.append('one')
            return next(self.ids)

        def emit_many(self, number):
            log.append(number)
            return [next(self.ids) for _ in range(number)]

    em = Mine()
    check_same(em(), 0, 'user-defined emitter, no argument')
    check_same(em(n), list(range(1, n + 1)), f'user-defined emitter({n})')
    check_same(em(number=n), list(range(n + 1, 2 * n + 1)),
               f'user-defined emitter(number={n})')
    check_same(em(None), 2 * n + 1, 'user-defined emitter(None)')
    check(em.emits_unique_values is False, 'default emits_unique_values')
    check(em.num_unique_values is None, 'default num_unique_values')
    check(em.reset() is None, 'default reset')
    check_same(em(), 2 * n + 2, 'reset is a no-op by default')
    obs.ev('custom_dispatch')
    obs.nontrivial()
