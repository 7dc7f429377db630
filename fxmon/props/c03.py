"""C03: reset restores the initial state."""
import random

from fauxdoc.emitters import (
    Choice, Iterative, Sequential, Static, Text, Word, WrapMany, WrapOne
)
from fauxdoc.profile import Field
from fxmon import drive, specs
from fxmon.core import check, check_same, short

RULE = ('random seeded emitter trees and schemas with an arbitrary history '
        '(including failed calls and changed settings), then reset; what is '
        'emitted next is compared with a fresh build; non-trivial: the history '
        'or the compared run emitted at least two values')
REQUIRED = {'resets': 1500, 'schema_resets': 200, 'settings_resets': 200,
            'failed_calls_before_reset': 30, 'none_seeds': 200, 'unseeded': 100, 'other_generators': 40}
QUICK = 8000
THOROUGH = 120000


NONE_KINDS = ['text', 'text_sep', 'word', 'wrap1', 'wrapn', 'field',
              'field_parts', 'nested', 'seq', 'iter', 'none']


def directed():
    cases = []
    for replace in ('replace', 'none', 'roac'):
        spec = {'k': 'choice', 'items': {'$range': [0, 30, 1]}, 'seed': 5}
        if replace == 'none':
            spec['replace'] = False
        if replace == 'roac':
            spec['roac'] = True
        for w in (None, list(range(1, 31))):
            s = {**spec, 'weights': w} if w else spec
            cases.append({'spec': s, 'history': [None, 5, 100, 2],
                          'calls': [3, None, 10, 1]})
            cases.append({'spec': s, 'history': [], 'calls': [3, None, 10]})
    for rac in (False, True):
        for k in ('seq', 'iter'):
            cases.append({'spec': {'k': k, 'items': [1, 2, 3, 4], 'rac': rac},
                          'history': [None, 5, 2], 'calls': [3, None, 10]})
    cases += [{'field_parts': seed} for seed in (7, 0, 'x', 2.5)]
    for seed in (0, 4, 'x', 2.5):
        cases.append({'unseeded': seed})
    for n in (1, 2, 3, 7):
        for of in NONE_KINDS:
            cases.append({'none': n, 'of': of})
    for i, (spec, calls) in enumerate(specs.matrix()):
        cases.append({'spec': spec, 'calls': calls, 'history':
                      [[], calls[:1], calls, [None], calls + calls][i % 5]})
    return cases


def gen(rng):
    kind = rng.random()
    if kind < 0.2:
        return gen_settings(rng)
    case = drive.gen_subject(rng)
    case['history'] = drive.gen_calls_for(rng, case, 0, 8)
    if 'spec' in case and rng.random() < 0.15:
        case['history'].append(10**4)      # may fail
    case['calls'] = drive.gen_calls_for(rng, case)
    return case


def gen_settings(rng):
    spec = specs.gen_choice(rng, hi=10)
    spec['seed'] = specs.gen_seed(rng)
    n = len(specs.dec(spec['items']))
    ops = []
    for _ in range(rng.randint(1, 6)):
        op = rng.choice(['call', 'call', 'weights', 'cum', 'replace', 'roac',
                         'rng_seed'])
        arg = {
            'call': lambda: rng.choice([None, 1, 2]),
            'weights': lambda: rng.choice([None, specs.gen_weights(rng, n)]),
            'cum': lambda: specs.cumulate(specs.gen_weights(rng, n)),
            'replace': lambda: rng.random() < 0.5,
            'roac': lambda: rng.random() < 0.5,
            'rng_seed': lambda: specs.gen_seed(rng),
        }[op]()
        ops.append([op, arg])
    return {'choice': spec, 'ops': ops}


def run(case, obs):
    if 'choice' in case:
        return run_settings(case, obs)
    if 'none' in case:
        return run_none(case, obs)
    if 'unseeded' in case:
        return run_unseeded(case['unseeded'], obs)
    if 'field_parts' in case:
        return run_field_parts(case['field_parts'], obs)
    subject = drive.Subject(case)
    first = drive.Subject(case).drive(case['calls'])
    for n in case['history']:
        try:
            subject.call(n)
        except ValueError:
            # Asked for more than it has. Must not matter after reset.
            cap = specs.capacity(case['spec'])
            lim = specs.batch_limit(case['spec'])
            check(cap is not None or lim is not None,
                  f'unlimited emitter raised an error for {n} values')
            obs.ev('failed_calls_before_reset')
    for attempt in ('first', 'second'):
        subject.reset()
        if subject.is_schema:
            for field in subject.obj.fields.values():
                check(field.previous is None,
                      f'{field.name}.previous is not None after reset')
            obs.ev('schema_resets')
        check_same(subject.drive(case['calls']), first,
                   f'after {attempt} reset')
        obs.ev('resets')
    subject.reset()
    subject.reset()
    check_same(subject.drive(case['calls']), first, 'after resetting twice')
    obs.state(short(first, 200))
    if sum(1 if n is None else n for n in case['history'] + case['calls']) > 1:
        obs.nontrivial()


def run_settings(case, obs):
    em = specs.build(case['choice'])
    for op, arg in case['ops']:
        if op == 'call':
            try:
                em() if arg is None else em(arg)
            except ValueError:
                obs.ev('failed_calls_before_reset')
        else:
            setattr(em, {'cum': 'cum_weights',
                         'roac': 'replace_only_after_call'}.get(op, op),
                    specs.dec(arg) if op == 'rng_seed' else arg)
    em.reset()
    fresh = Choice(em.items, weights=em.weights, replace=em.replace,
                   replace_only_after_call=em.replace_only_after_call,
                   rng_seed=em.rng_seed)
    n = len(em.items)
    check_same(em.num_unique_items, n, 'num_unique_items after reset')
    calls = [None, 1, 2, 3, n] if em.replace else [None, 1, 2]
    for c in calls:
        if c and c > (fresh.num_unique_items
                      if em.replace_only_after_call or not em.replace else c):
            continue
        if c is None and not fresh.num_unique_items:
            continue
        check_same(em() if c is None else em(c),
                   fresh() if c is None else fresh(c),
                   f'call {c} after changing settings and reset, vs. a new '
                   'emitter with these settings')
    obs.ev('settings_resets')
    obs.nontrivial()


def run_none(case, obs):
    """What doesn't depend on the seed is reset when the seed is None, too."""
    n = case['none']

    def letters():
        return Sequential('abcdefg'[:n])

    def numbers():
        return Iterative(lambda: iter(range(n)))
    make = {
        'text': lambda: Text(Sequential([1, 2, 0, 3]), letters()),
        'text_sep': lambda: Text(Sequential([2, 3]), letters(),
                                 Sequential('-+ ')),
        'word': lambda: Word(Sequential([2, 3, 1]), letters()),
        'wrap1': lambda: WrapOne(numbers(), str),
        'wrapn': lambda: WrapMany({'a': numbers(), 'b': letters()}, dict),
        'field': lambda: Field('f', letters()),
        'field_parts': lambda: Field(
            'f', letters(), repeat=Sequential([1, 2, 0]),
            gate=Sequential([True, True, True, False])),
        'nested': lambda: WrapOne(Text(Static(2), letters()), str.upper),
        'seq': letters, 'iter': numbers,
        'none': lambda: Choice('a' * n, replace=False),
    }[case['of']]
    em = make()
    want = [em() for _ in range(n)]
    for how in (['seed'], ['attr'], ['seed', 'call'], ['seed', 7, 'seed'],
                [7, 'attr'], ['call', 'seed'], []):
        for op in how:
            if op == 'seed' and hasattr(em, 'seed'):
                em.seed(None)
            elif op == 'attr':
                em.rng_seed = None
            elif op == 7 and hasattr(em, 'seed'):
                em.seed(7)
            elif op == 'call':
                em.reset()
                em()
        em.reset()
        check_same([em() for _ in range(n)], want,
                   f'after {how} (of None) and reset')
        em.reset()
        check_same([em() for _ in range(n)], want,
                   f'after {how} (of None) and another reset')
        obs.ev('none_seeds')
    obs.nontrivial()


def none_of(em, what):
    """All seeds are None in a tree of emitters."""
    children = list(em.emitters.values()) if hasattr(em, 'emitters') else []
    for child in children:
        none_of(child, what)
    if hasattr(em, 'rng_seed'):
        check(em.rng_seed is None, lambda: (
            f'{what}: {type(em).__name__} has {em.rng_seed!r} as rng_seed'))


def run_unseeded(seed, obs):
    """With the seed set back to None, reset gives unpredictable values."""
    def digits():
        return Choice(range(10**9))
    make = {
        'choice': digits,
        'wrap1': lambda: WrapOne(digits(), str),
        'wrapn': lambda: WrapMany({'a': digits(), 'b': Static(0)}, dict),
        'text': lambda: Text(Static(12), Choice('abcdefgh'), Choice('-+')),
        'word': lambda: Word(Choice([20, 21]), Choice('abcdefgh')),
        'nested': lambda: WrapOne(WrapOne(digits(), str), str),
        'field': lambda: Field('f', digits(), repeat=Choice([2, 3])),
    }
    for name, new in make.items():
        em = new()
        em.seed(seed)
        em.reset()
        first = em(3) if name != 'field' else [em() for _ in range(3)]
        for how in ('attr', 'seed'):
            em.seed(seed)
            em.reset()
            if how == 'attr':
                em.rng_seed = None
            else:
                em.seed(None)
            seen = [first]
            for _ in range(3):
                em.reset()
                none_of(em, f'{name}, {how} None and reset')
                got = em(3) if name != 'field' else [em() for _ in range(3)]
                check(got not in seen, lambda: (
                    f'{name}: rng_seed was set to None, but after reset the '
                    f'same values are emitted: {short(got)}'))
                seen.append(got)
                obs.ev('unseeded')
        em.rng_seed = seed
        em.reset()
        got = em(3) if name != 'field' else [em() for _ in range(3)]
        check_same(got, first, f'{name}: seed set again, and reset')
    obs.nontrivial()


class Sevens(random.Random):
    def random(self):
        return 0.7

    def getrandbits(self, k):
        return 1


def run_field_parts(seed, obs):
    """Other mutable settings: values, iterators and parts of fields."""
    st = Static(1)
    st.value = 'new'
    st.reset()
    check_same(st(2), ['new', 'new'], 'Static after setting value and reset')
    for cls, arg in ((Sequential, [1, 2, 3]), (Iterative, lambda: iter([1, 2, 3]))):
        em = cls(arg)
        em(2)
        em.reset_after_call = True
        em.reset()
        check_same([em(2), em(2), em()], [[1, 2], [1, 2], 1],
                   'reset_after_call set later')
        em.reset_after_call = False
        em.reset()
        check_same([em(2), em(2), em()], [[1, 2], [3, 1], 2],
                   'reset_after_call unset later')
    em = Iterative(lambda: iter('ab'))
    em(3)
    em.iterator_factory = lambda: iter('xyz')
    check_same(em(2), ['x', 'y'], 'new iterator factory')
    em.reset()
    check_same(em(4), ['x', 'y', 'z', 'x'], 'new iterator factory, after reset')
    # A generator that was set is replaced by a new one.
    shared = random.Random(3)
    for make in (lambda: Choice(range(1000), rng_seed=seed),
                 lambda: Choice(range(100), replace=False, rng_seed=seed),
                 lambda: WrapOne(Static(1), lambda v, rng: rng.random(),
                                 rng_seed=seed),
                 lambda: WrapOne(Choice(range(99)), lambda v, rng: (
                     v, rng.random()), rng_seed=seed)):
        for rng in (random.SystemRandom(), shared, Sevens(1)):
            em, want = make(), make()(9)
            em.rng = rng
            before = None if rng is not shared else rng.getstate()
            em.reset()
            check_same(em(9), want, f'after setting rng to {rng} and reset')
            check(before is None or rng.getstate() == before,
                  'reset changed a generator that belongs to others')
            em.reset()
            check_same(em(9), want, 'after another reset')
            obs.ev('other_generators')
    # A field's emitters can be replaced; reset uses the field's seed.
    field = Field('f', Choice(range(1000)), rng_seed=seed)
    field()
    field.emitter = Choice(range(5000))
    field.repeat_emitter = Choice(range(1, 5))
    field.gate_emitter = Choice([True, True, False])
    field.reset()
    fresh = Field('f', Choice(range(5000)), repeat=Choice(range(1, 5)),
                  gate=Choice([True, True, False]), rng_seed=seed)
    check_same([field() for _ in range(20)], [fresh() for _ in range(20)],
               'field with replaced emitters, after reset')
    obs.ev('settings_resets')
    obs.nontrivial()
