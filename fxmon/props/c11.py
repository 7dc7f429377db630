"""C11: Static, Sequential and Iterative emit exactly their sequence."""
import functools
import itertools
import warnings

from fauxdoc.emitters import Iterative, Sequential, Static
from fxmon import specs
from fxmon.core import check, check_same, raises, short

RULE = ('random histories of calls, resets, settings changes and rejected '
        'changes, compared value by value with a cyclic position model; '
        'non-trivial: more values were emitted than there are items')
REQUIRED = {'values': 20000, 'wraps': 2000, 'setting_changes': 1000,
            'rejected': 300, 'rounds': 5000, 'deprecation_warnings': 100,
            'identical': 500, 'helper_values': 5000, 'helper_checks': 1000,
            'huge_runs': 12}
QUICK = 48000
THOROUGH = 1000000


def directed():
    cases = []
    for k in ('seq', 'iter'):
        for n in (1, 2, 3, 7):
            for rac in (False, True):
                for sizes in ([None] * 9, [1] * 9, [2] * 5, [n, n, n], [n + 1] * 4,
                              [n - 1, None, 0, n, 3 * n + 1, None], [0, 0, None],
                              [1000, None, 1]):
                    cases.append({'k': k, 'src': 'list', 'rac': rac,
                                  'items': list(range(n)),
                                  'ops': [['call', s] for s in sizes]})
    for k in ('seq', 'iter'):
        for n in (1, 2, 5):
            cases.append({'k': k, 'things': n,
                          'ops': [None, 3, 1, 0, 7, None, 100]})
    for k in ('seq', 'iter'):
        for make in MAKERS:
            for n in (2, len(ODD)):
                for rac in (False, True):
                    cases.append({'k': k, 'things': n, 'odd': True, 'by': make,
                                  'ops': [None, 3, 1, 0, 17, None, 100],
                                  'rac': rac})
    for i in range(len(ODD)):
        for form in ('odd', 'set'):
            cases.append({'k': 'static', 'things': i + 1, 'as': form,
                          'ops': [None, 3, 1, 0, 7, None, 100]})
    for form in ('thing', 'list', 'dict', 'tuple'):
        cases.append({'k': 'static', 'things': 3, 'as': form,
                      'ops': [None, 3, 1, 0, 7, None, 100]})
    cases += [{'huge': n} for n in (1, 2, 3, 1000)]
    for k in ('seq', 'iter', 'static'):
        for n in (1, 3, 300, 70000):
            for sizes in ([66000, None, 70001], [140000, 1]):
                cases.append({'k': k, 'src': 'list', 'rac': False,
                              'items': {'$range': [0, n, 1]},
                              'ops': [['call', s] for s in sizes]})
        cases.append({'k': k, 'src': 'gen', 'rac': False, 'items': [1, 2, 3],
                      'ops': [['call', None]] * 5000})
    for kind in HELPED:
        for n in (0, 1, 2, 5):
            cases.append({'k': 'helpers', 'kind': kind, 'n': n,
                          'take': [0, 3, 1, 12]})
    for rac in (False, True):
        for sizes in ([3, None, None, 0, 7], [2, 2, 2], [1, None, 8],
                      ['reset', 4, 'reset', None, 5], [40]):
            for lengths in ([3], [1], [2, 3, 1], [1, 4]):
                cases.append({'k': 'rounds', 'rac': rac, 'lengths': lengths,
                              'ops': sizes})
    return cases


def gen(rng):
    if rng.random() < 0.05:
        return {'k': 'helpers', 'kind': rng.choice(sorted(HELPED)),
                'n': rng.randint(0, 6),
                'take': [rng.randint(0, 9) for _ in range(3)]}
    if rng.random() < 0.1:
        return {'k': 'rounds', 'rac': rng.random() < 0.3,
                'lengths': [rng.randint(1, 4)
                            for _ in range(rng.randint(1, 4))],
                'ops': [rng.choice([None, None, 0, 1, 2, 5, 9, 'reset'])
                        for _ in range(rng.randint(2, 12))]}
    case = {'k': rng.choice(['seq', 'iter', 'static']),
            'items': specs.gen_items(rng, hi=rng.choice([2, 6, 20]),
                                     hashable=False),
            'rac': rng.random() < 0.3,
            'src': rng.choice(['list', 'gen', 'count', 'map'])}
    ops = []
    for _ in range(rng.randint(1, 15)):
        kind = rng.choice(['call'] * 8 + ['reset', 'rac', 'factory', 'bad',
                                          'next', 'value'])
        if kind == 'call':
            ops.append(['call', rng.choice([None, None, 0, 1, 2, 3, 5, 10, 33])])
        elif kind == 'rac':
            ops.append(['rac', rng.random() < 0.5])
        elif kind in ('factory', 'value'):
            new = specs.gen_items(rng, hi=5, hashable=False)
            while '$dtrange' in new or '$seq' in new:    # not recognized
                new = specs.gen_items(rng, hi=5)
            ops.append([kind, new])
        else:
            ops.append([kind])
    case['ops'] = ops
    return case


# How to make an iterator of n values; is it one of a finite sequence?
HELPED = {
    'list': (lambda n: iter([[i] for i in range(n)]), True),
    'tuple': (lambda n: iter(tuple(range(n))), True),
    'range': (lambda n: iter(range(n)), True),
    'str': (lambda n: iter('abcdefgh'[:n]), True),
    'reversed': (lambda n: reversed(list(range(n))), True),
    'generator': (lambda n: (i for i in range(n)), False),
    'map': (lambda n: map(str, range(n)), False),
    'chain': (lambda n: itertools.chain([None] * n), False),
    'zip': (lambda n: zip(range(n)), False),
}


def run_helpers(case, obs):
    """The static methods do the same on their own."""
    kind, n = case['kind'], case['n']
    make, sequence = HELPED[kind]
    want = list(make(n))
    made = []

    def factory():
        made.append(1)
        return make(n)
    for cls in (Iterative,):
        what = f'{cls.__name__}: {kind} of {n}'
        if n:
            check(cls.check_iter_factory(factory) is None,
                  f'{what}: result of check_iter_factory')
        else:
            raises(ValueError, cls.check_iter_factory, factory)
        obs.ev('helper_checks')
        if not n:
            continue
        made.clear()
        its = [cls.make_infinite_iter(factory) for _ in range(2)]
        check(not made, f'{what}: make_infinite_iter calls too early')
        at = [0, 0]
        for i, take in enumerate(case['take']):
            it, j = its[i % 2], at[i % 2]
            check_same([next(it) for _ in range(take)],
                       [want[(j + x) % n] for x in range(take)],
                       f'{what}: values after {j}')
            at[i % 2] += take
            obs.ev('helper_values', take)
    if sequence:
        check(Sequential.check_seq_iter_factory(factory) is None,
              f'{kind} of {n}: result of check_seq_iter_factory')
    else:
        raises(ValueError, Sequential.check_seq_iter_factory, factory)
    obs.ev('helper_checks')
    if n:
        obs.nontrivial()


class Model:
    def __init__(self, items, endless=False):
        self.items, self.endless, self.pos = list(items), endless, 0

    def take(self, n):
        out = []
        for _ in range(n):
            i, self.pos = self.pos, self.pos + 1
            out.append(len(self.items) + i if self.endless
                       else self.items[i % len(self.items)])
        return out


class Thing:
    """Equal to nothing else."""

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return f'<thing {self.i}>'


class Strange:
    """Equal to everything, and falsy."""

    def __eq__(self, other):
        return True

    def __bool__(self):
        return False

    __hash__ = None


class Rude:
    """Cannot be compared or tested."""

    def __eq__(self, other):
        raise RuntimeError('do not compare me')

    def __bool__(self):
        raise RuntimeError('do not test me')

    def __len__(self):
        raise RuntimeError('do not measure me')

    def __iter__(self):
        raise RuntimeError('do not iterate over me')

    def __call__(self, *args):
        raise RuntimeError('do not call me')

    __hash__ = None


# Values that are emitted as they are.
ODD = [None, False, 0, float('nan'), '', NotImplemented, StopIteration,
       StopIteration(), (), [], {}, set(), ..., int, len, lambda: 5, Strange(),
       Rude(), range(0), iter([1, 2]), (i for i in 'ab'), Static(4), object,
       b'', 0.0, -0.0, ValueError('no'), True, 1, 1.0, functools.partial(int)]


class Walk:
    """An iterator of its own kind (and a falsy one)."""

    def __init__(self, items):
        self.items, self.i = items, 0

    def __iter__(self):
        return self

    def __bool__(self):
        return False

    def __length_hint__(self):
        return max(len(self.items) - self.i, 0)

    def __next__(self):
        if self.i < len(self.items):
            self.i += 1
            return self.items[self.i - 1]
        raise StopIteration


class Factory:
    """A callable object, which is falsy (and empty)."""

    def __init__(self, items):
        self.items = items

    def __call__(self):
        return iter(self.items)

    def __len__(self):
        return 0

    def method(self):
        return iter(self.items)


MAKERS = {
    'lambda': lambda items: lambda: iter(items),
    'partial': lambda items: functools.partial(iter, items),
    'bound': lambda items: items.__iter__,
    'method': lambda items: Factory(items).method,
    'object': Factory,
    'own': lambda items: functools.partial(Walk, items),
    'reversed': lambda items: functools.partial(reversed, items[::-1]),
    'default': lambda items: lambda some=items, *args, **kw: iter(some),
}


def run_things(case, obs):
    """What is emitted is what was given, not a copy."""
    things = [Thing(i) for i in range(case['things'])]
    if case.get('odd'):
        things = ODD[:case['things']]
    forms = {'thing': lambda: things[0], 'list': lambda: things,
             'dict': lambda: dict(enumerate(things)),
             'tuple': lambda: (things, things[:1]),
             'odd': lambda: ODD[case['things'] - 1], 'set': lambda: None}
    value = case['k'] == 'static' and forms[case['as']]()
    if case['k'] == 'static':
        em = Static(value)
        if case['as'] == 'set':
            value = ODD[case['things'] - 1]
            em.value = value
        things = [value]
        check(em.value is value, 'value')
        check(len(em.items) == 1 and em.items[0] is value, 'items')
    elif case.get('odd'):
        make = MAKERS[case['by']](things)
        rac = case['rac']
        if case['k'] == 'seq':
            em = Sequential(things, reset_after_call=rac)
            for other in (['other'], ['others', 5, 6]):
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    em.iterator_factory = functools.partial(iter, other)
                em()
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                em.iterator_factory = make
            check(len(em.items) == len(things) and all(
                a is b for a, b in zip(em.items, things)), 'items')
        else:
            em = Iterative(make, reset_after_call=rac)
        check(em.iterator_factory == make, 'iterator_factory')
    elif case['k'] == 'seq':
        em = Sequential(things)
    else:
        em = Iterative(lambda: iter(things))
    pos = 0
    for n in case['ops']:
        got = [em()] if n is None else em(n)
        for v in got:
            check(v is things[pos % len(things)], lambda: (
                f'{short(v)} (at {id(v):x}) is not what was given'))
            pos += 1
        if case.get('rac'):
            pos = 0
        check(len(got) == (1 if n is None else n), 'number of values')
        obs.ev('identical', len(got))
    obs.nontrivial()


def run_rounds(case, obs):
    """Each round takes a new iterator, whose values may be others."""
    rounds = []

    def make():
        tag = len(rounds)
        values = [(tag, i)
                  for i in range(case['lengths'][tag % len(case['lengths'])])]
        rounds.append(values)
        return iter(values)
    em = Iterative(make, reset_after_call=case['rac'])
    check(em.iterator_factory is make, 'iterator_factory')
    at, last = None, -1
    for op in case['ops']:
        if op == 'reset':
            em.reset()
            at = None
            continue
        got = [em()] if op is None else em(op)
        check_same(len(got), 1 if op is None else op, 'number of values')
        for tag, i in got:
            if at is None:
                # A new start: some iterator that was not used before.
                check(i == 0 and tag > last, lambda: (
                    f'starts again with value {i} of iterator {tag}'))
            elif at[1] + 1 < len(rounds[at[0]]):
                check_same((tag, i), (at[0], at[1] + 1), 'next value')
            else:
                check_same((tag, i), (at[0] + 1, 0), 'first of the next round')
            at = (tag, i)
            last = tag
        if case['rac']:
            at = None
        obs.ev('values', len(got))
    obs.ev('rounds', len(rounds))
    obs.nontrivial()


def run_huge(n, obs):
    """Millions of values, many times the number of items."""
    for make in (lambda rac: Sequential(range(n), rac),
                 lambda rac: Iterative(lambda: iter(range(n)), rac),
                 lambda rac: Iterative(lambda: (i for i in range(n)), rac)):
        for rac in (False, True):
            em = make(rac)
            pos = 0
            for size in (1300001, 2, 700000, None, 1, 5):
                got = [em()] if size is None else em(size)
                want = list(itertools.islice(itertools.cycle(range(n)),
                                             pos, pos + len(got)))
                check(len(got) == (size or 1) and got == want, lambda: (
                    f'{size} values after {pos}: {len(got)} values, which '
                    f'end with {short(got[-3:])}'))
                pos = 0 if rac else (pos + len(got)) % n
                obs.ev('values', len(got))
        em = make(False)
        for i in range(300000):
            v = em()
            if v != i % n:
                check(False, f'single value {i} is {v!r}')
        obs.ev('values', i + 1)
        check_same(em(4), [(300000 + i) % n for i in range(4)], 'then')
        obs.ev('huge_runs')
    obs.nontrivial()


def run(case, obs):
    if 'huge' in case:
        return run_huge(case['huge'], obs)
    k = case['k']
    if k == 'helpers':
        return run_helpers(case, obs)
    if k == 'rounds':
        return run_rounds(case, obs)
    if 'things' in case:
        return run_things(case, obs)
    items = specs.dec(case['items'])
    emitted = 0
    if k == 'static':
        value = items
        em = Static(value)
        for op, *args in case['ops']:
            if op == 'call':
                n = args[0]
                got = em() if n is None else em(n)
                check_same(got, value if n is None else [value] * n,
                           f'Static({short(value)}) call {n}')
                obs.ev('values', n or 1)
            elif op == 'reset':
                em.reset()
            elif op == 'value':
                value = specs.dec(args[0])
                em.value = value
                obs.ev('setting_changes')
            check(em.value is value, 'value')
            check_same(list(em.items), [value], 'items')
        obs.nontrivial()
        return
    endless = k == 'iter' and case['src'] == 'count'
    rac = case['rac']
    if k == 'seq':
        em = Sequential(items, reset_after_call=rac)
    else:
        factories = {
            'list': lambda: iter(items), 'gen': lambda: (i for i in items),
            'map': lambda: map(lambda i: i, items),
            'count': lambda: itertools.count(len(items))}
        em = Iterative(factories[case['src']], reset_after_call=rac)
    model = Model(items, endless)
    for op, *args in case['ops']:
        if op == 'call':
            n = args[0]
            want = model.take(1 if n is None else n)
            got = em() if n is None else em(n)
            check_same(got, want[0] if n is None else want,
                       f'{k}, reset_after_call={rac}, call {n} '
                       f'(items: {short(model.items, 80)})')
            emitted += len(want)
            if rac:
                model.pos = 0
        elif op == 'next':
            check_same(next(em.iterator), model.take(1)[0], 'next(iterator)')
        elif op == 'reset':
            em.reset()
            model.pos = 0
        elif op == 'rac':
            em.reset_after_call = rac = args[0]
            obs.ev('setting_changes')
        elif op == 'factory':
            new = specs.dec(args[0])
            factory = lambda: iter(new)
            if model.pos % 3 == 1 and (k == 'iter' or hasattr(
                    iter(em.items), '__length_hint__')):
                # The same factory again. That's a new start, too.
                new, factory = model.items, em.iterator_factory
            endless = model.endless and new is model.items
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter('always')
                em.iterator_factory = factory
            check(em.iterator_factory is factory, 'iterator_factory')
            if k == 'seq':
                check(any(issubclass(w.category, DeprecationWarning)
                          for w in caught), 'no DeprecationWarning')
                obs.ev('deprecation_warnings')
                check_same(list(em.items), list(new), 'items of new factory')
            model = Model(new, endless)
            obs.ev('setting_changes')
        elif op == 'bad':
            raises(ValueError, Iterative, lambda: iter([]))
            raises(ValueError, Iterative, lambda: (i for i in ()))
            for empty in ([], (), '', range(0)):
                raises(ValueError, Sequential, empty)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                raises(ValueError, setattr, em, 'iterator_factory',
                       lambda: iter(()))
                if k == 'seq':
                    raises(ValueError, setattr, em, 'iterator_factory',
                           lambda: (i for i in [1]))
            obs.ev('rejected')
        if k == 'seq':
            check_same(list(em.items), model.items, f'items after {op}')
    obs.ev('values', emitted)
    if emitted > len(model.items):
        obs.ev('wraps')
        obs.nontrivial()
    obs.state(k, rac, len(model.items), emitted % len(model.items),
              case['ops'][:1])
