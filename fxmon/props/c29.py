"""C29: deprecated names keep working and always give a warning."""
import importlib
import random
import typing
import warnings

import fauxdoc.emitter
import fauxdoc.mixins
from fauxdoc.emitters import Sequential
from fauxdoc.warn import get_deprecated_attr
from fxmon.core import check, check_same, raises

RULE = ('random sequences of lookups of deprecated, current and unknown names '
        'in the modules, in several ways and under several warning filters, '
        'with every warning recorded; random tables of deprecated names; '
        'random histories of emitters made from the deprecated base class, '
        'compared with a model; non-trivial: a deprecated name was looked up '
        'twice, or at least two calls')
REQUIRED = {'lookups': 4000, 'warnings': 1500, 'unknown': 700,
            'as_errors': 500, 'tables': 1200, 'wrapped_values': 1500,
            'seeds': 800}
QUICK = 18000
THOROUGH = 300000

TYPING = {'Number': 'float', 'EmitterLikeCallable': 'EmitterLike',
          'StrEmitterLike': 'EmitterLike[str]',
          'IntEmitterLike': 'EmitterLike[int]',
          'BoolEmitterLike': 'EmitterLike[bool]'}
WRAP = {'Wrap': 'WrapOne or WrapMany'}
MODULES = {'fauxdoc.typing': TYPING, 'fauxdoc.emitters': WRAP,
           'fauxdoc.emitters.wrappers': WRAP}
CURRENT = {'fauxdoc.typing': ['EmitterLike', 'FieldLike', 'ImplementsRNG',
                              'RandomEmitterLike', 'T'],
           'fauxdoc.emitters': ['WrapOne', 'WrapMany', 'Choice', 'Text',
                                'chance', 'make_alphabet', 'Static'],
           'fauxdoc.emitters.wrappers': ['WrapOne', 'WrapMany',
                                         'BoundWrapper']}
UNKNOWN = ['number', 'Numbers', 'wrap', 'Wrapped', 'WrapTwo', '_Wrap', 'x',
           'StrEmitter', '__nothing__', 'FloatEmitterLike', 'WRAP']
HOW = ['getattr', 'from', 'hasattr', 'default', 'dir', 'star']


def directed():
    cases = [{'kind': 'names', 'ops': [
        [mod, name, how, filt] for name in [*names, *names, 'x', *CURRENT[mod]]
        for how in HOW for filt in ('always', 'error')]}
        for mod, names in MODULES.items()]
    cases.append({'kind': 'seq', 'items': [1, 2, 3], 'new': 'ab', 'n': 4})
    return cases


def gen(rng):
    kind = rng.choice(['names', 'names', 'table', 'wrap', 'wrap', 'seq'])
    if kind == 'names':
        ops = []
        for _ in range(rng.randint(3, 12)):
            mod = rng.choice(list(MODULES))
            name = rng.choice(list(MODULES[mod]) * 3 + CURRENT[mod]
                              + rng.sample(UNKNOWN, 3))
            ops.append([mod, name, rng.choice(HOW),
                        rng.choice(['always', 'always', 'error'])])
        return {'kind': kind, 'ops': ops}
    if kind == 'table':
        names = rng.sample(['Old', 'old', 'Thing', 'a', 'b', 'Ünï', '_x', 'OldX',
                            'X', ''], rng.randint(0, 6))
        return {'kind': kind,
                'table': [[n, rng.choice([None, '', f'New{n}', 'A or B']),
                           rng.choice([None, 0, False, '', 'v', [1], n])]
                          for n in names],
                'where': rng.choice(['pkg.mod', 'Cls', 'm']),
                'type': rng.choice(['module', 'class', 'object']),
                'asked': [rng.choice(names + ['Old', 'New', 'zzz', 'old'])
                          for _ in range(rng.randint(2, 8))]}
    if kind == 'seq':
        return {'kind': kind, 'items': [rng.randint(0, 9) for _ in
                                        range(rng.randint(1, 5))],
                'new': ''.join(rng.choice('abc') for _ in
                               range(rng.randint(1, 5))),
                'n': rng.randint(0, 9)}
    return {'kind': kind, 'many': rng.random() < 0.5,
            'rng': rng.random() < 0.5, 'seed': rng.choice([0, 1, 'x', 2.5]),
            'n': rng.randint(1, 3),
            'ops': [rng.choice([['call', rng.choice([None, 0, 1, 2, 4])],
                                ['reset'], ['seed', rng.randint(0, 5)]])
                    for _ in range(rng.randint(3, 9))]}


def expected_value(mod, name):
    module = importlib.import_module(mod)
    if name == 'Number':
        return float
    like = importlib.import_module('fauxdoc.typing').EmitterLike
    if mod == 'fauxdoc.typing' and name in TYPING \
            and name.endswith('EmitterLike'):
        return like[{'Str': str, 'Int': int, 'Bool': bool}[name[:-11]]]
    if name in MODULES[mod]:
        return None
    return vars(module)[name]


def lookup(mod, name, how):
    module = importlib.import_module(mod)
    if how == 'getattr':
        return getattr(module, name)
    if how == 'hasattr':
        if not hasattr(module, name):
            raise AttributeError(name)
        return getattr(module, name)
    if how == 'default':
        missing = object()
        value = getattr(module, name, missing)
        if value is missing:
            raise AttributeError(name)
        return value
    if how == 'from':
        space = {}
        exec(f'from {mod} import {name} as it', space)
        return space['it']
    space = {}
    exec(f'from {mod} import *', space)
    if name not in space:
        raise AttributeError(name)
    return space[name]


def run_names(case, obs):
    seen = set()
    for mod, name, how, filt in case['ops']:
        old, known = name in MODULES[mod], name in CURRENT[mod]
        what = f'{name} in {mod} ({how}, {filt})'
        obs.ev('lookups')
        obs.state(mod, name, how, filt)
        if how == 'dir':
            with warnings.catch_warnings():
                warnings.simplefilter('error')
                names = dir(importlib.import_module(mod))
            check((name in names) == (old or known), f'dir: {what}')
            continue
        if how == 'star' and mod != 'fauxdoc.emitters':
            how = 'getattr'
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter(filt)
            if how == 'star' and filt == 'error':
                old = True
            if not old and not known:
                raises((AttributeError, ImportError), lookup, mod, name, how)
                check(how == 'star' or not caught, f'{what}: a warning')
                obs.ev('unknown')
                continue
            if filt == 'error' and old:
                raises(DeprecationWarning, lookup, mod, name, how)
                obs.ev('as_errors')
                continue
            got = lookup(mod, name, how)
        want = expected_value(mod, name)
        if want is not None:
            check(got == want, f'{what}: got {got!r}')
        if name == 'Wrap':
            check(isinstance(got, type) and got.__name__ == 'Wrap'
                  and issubclass(got, fauxdoc.emitter.Emitter), what)
        if name == 'EmitterLikeCallable':
            args = typing.get_args(got)
            check(len(args) == 2, f'{what}: {got!r}')
        texts = [str(w.message) for w in caught
                 if issubclass(w.category, DeprecationWarning)]
        if old:
            check(any(name in t and mod in t and MODULES[mod][name] in t
                      for t in texts), f'{what}: warnings {texts}')
            obs.ev('warnings', len(texts))
            if (mod, name) in seen:
                obs.nontrivial()
            seen.add((mod, name))
        elif how != 'star':
            check(not caught, f'{what}: warnings {texts}')


def run_table(case, obs):
    table = {n: (new, value) for n, new, value in case['table']}
    where, kind = case['where'], case['type']
    for name in case['asked']:
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            if name not in table:
                err = raises(AttributeError, get_deprecated_attr, name, where,
                             kind, table)
                check(all(s in str(err) for s in (name, where, kind)),
                      f'{name}: {err}')
                check(not caught, f'{name}: a warning')
            else:
                new, value = table[name]
                got = get_deprecated_attr(name, where, kind, table)
                check(got is value, f'{name}: got {got!r}')
                check(len(caught) == 1 and
                      caught[0].category is DeprecationWarning,
                      f'{name}: {caught}')
                text = str(caught[0].message)
                check(f'{where}.{name} is deprecated' in text
                      and (new in text and 'use' in text.lower() if new
                           else 'use ' not in text.lower()
                           and 'None' not in text), f'{name}: {text}')
        obs.ev('tables')
    if len(set(case['asked'])) < len(case['asked']):
        obs.nontrivial()


def run_wrap(case, obs):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        from fauxdoc.emitters.wrappers import Wrap
    kids, many = case['n'] if case['many'] else 1, case['many']

    class Own(Wrap):
        def emit(self):
            if many:
                return self.wrapper(**{k: em() for k, em in
                                       self.emitters.items()})
            return self.wrapper(self.emitters['k0']())

        def emit_many(self, number):
            return [self.emit() for _ in range(number)]

    class Kid(fauxdoc.mixins.RandomMixin, fauxdoc.emitter.Emitter):
        def emit(self):
            return self.rng.random()

        def emit_many(self, number):
            return [self.emit() for _ in range(number)]

    if case['rng']:
        def func(*args, rng, **kwargs):
            return [list(args), list(kwargs.items()), rng.random()]
    else:
        def func(*args, **kwargs):
            return [list(args), list(kwargs.items())]
    seed = case['seed']
    source = {f'k{i}': Kid(rng_seed=7) for i in range(kids)}
    em = Own(source, func, rng_seed=seed)
    # Children are seeded like the parent.
    rngs = [random.Random(seed) for _ in range(kids + 1)]
    calls = 0

    def value():
        vals = [r.random() for r in rngs[1:]]
        out = [[], [(f'k{i}', v) for i, v in enumerate(vals)]] if many \
            else [vals, []]
        return out + ([rngs[0].random()] if case['rng'] else [])
    check_same((em.rng_seed, em.num_unique_values, em.emits_unique_values),
               (seed, None, False), 'Wrap')
    check(em.wrapper.function is func and em.wrapper.bound_to is em, 'wrapper')
    for op, *args in case['ops']:
        if op == 'call':
            n = args[0]
            want = [value() for _ in range(1 if n is None else n)]
            check_same(em() if n is None else em(n),
                       want[0] if n is None else want, f'{case} {op} {n}')
            obs.ev('wrapped_values', len(want))
            calls += 1
        else:
            if op == 'reset':
                em.reset()
            else:
                seed = args[0]
                em.seed(seed)
                obs.ev('seeds')
            rngs = [random.Random(seed) for _ in range(kids + 1)]
        obs.state('wrap', many, case['rng'], op, *args[:1])
    if calls > 1:
        obs.nontrivial()


def run_seq(case, obs):
    em = Sequential(case['items'])
    em(case['n'])
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        em.iterator_factory  # Getting it is fine.
        raises(DeprecationWarning, setattr, em, 'iterator_factory',
               lambda: iter(case['new']))
    new = case['new']
    for _ in range(2):
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            em.iterator_factory = lambda: iter(new)
        check([w.category for w in caught] == [DeprecationWarning]
              and 'iterator_factory' in str(caught[0].message),
              f'Sequential.iterator_factory: {caught}')
        check_same(em(len(new) + 1), [*new, new[0]], 'new sequence')
        check_same(list(em.iterator_factory()), list(new), 'iterator_factory')
        check_same(list(em.items), list(new), 'items')
        em.reset()
        check_same([em() for _ in range(2 * len(new))], list(new) * 2,
                   'after a reset')
        check_same(em.num_unique_values, len(set(new)), 'num_unique_values')
        obs.ev('warnings')

    live = ['x', 'y']

    def factory():
        return iter(live)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        em.iterator_factory = factory
    check(em.iterator_factory is factory, 'iterator_factory is another one')
    check_same(em(3), ['x', 'y', 'x'], 'new sequence')
    live[:] = [1, 2, 3]
    em.reset()
    check_same(em(4), [1, 2, 3, 1], 'values of the factory, after a reset')


def run(case, obs):
    {'names': run_names, 'table': run_table, 'wrap': run_wrap,
     'seq': run_seq}[case['kind']](case, obs)
