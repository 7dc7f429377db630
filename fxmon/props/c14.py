"""C14: fields gate and repeat what their emitter emits."""
from decimal import Decimal
from fractions import Fraction

from fauxdoc.emitters import (
    BasedOnFields, chance, Choice, CopyFields, Iterative, Sequential, Static,
    Text, WrapMany, WrapOne, Word
)
from fauxdoc.profile import Field
from fxmon import specs
from fxmon.core import check, check_same, short
from fxmon.recorders import KINDS, Bare, Recorder

RULE = ('random scripts for the gate, repeat and data emitters of a field '
        '(which log what they hand out) and histories of calls, resets, seeds '
        'and swapped emitters; each call is checked against the logs; '
        'non-trivial: at least two calls')
REQUIRED = {'long_runs': 40000, 'calls': 20000, 'closed': 3000, 'single': 3000, 'multi': 5000,
            'empty_lists': 300, 'swaps': 1000, 'multi_valued': 2000, 'self_based': 100,
            'static_changes': 300, 'real_calls': 20000, 'huge_lists': 6}
QUICK = 30000
THOROUGH = 750000


def directed():
    cases = [{'table': True}, {'static': True}, {'huge': 1300001},
             {'huge': 100001}] + [
        {'long': n} for n in (300, 3000, 20000)] + [
        {'self': form, 'repeats': repeats, 'closed': closed}
        for form in ('based', 'copy', 'custom')
        for repeats in (None, 1, 2, 3) for closed in (0, 2, 3)]
    for gates in (None, [True], [False], [True, False], [False, False, True],
                  [0, 1], [None, '', 'x', 0.0, 2], [0.25, -0.5, 0.0, 1e-300],
                  ['False', '0', 'no', ' ', ''], [[], [0], {}, {'a': 0}, -1]):
        for repeats in (None, [None], [1], [2], [0, 1, 3]):
            for kind in KINDS:
                cases.append({'gates': gates, 'repeats': repeats, 'kind': kind,
                              'ops': ['call'] * 6 + ['reset'] + ['call'] * 4
                              + ['seed'] + ['call'] * 3})
    for n in (True, 100, 255, 256, 257, 999, 1001, 1024, 4097, 10001, 70000):
        for kind in ('recorder', *list(KINDS)[:2]):
            cases.append({'gates': None, 'repeats': [n, 2], 'kind': kind,
                          'ops': ['call'] * 4})
    cases += [{'real': [i, j, i + j], 'seed': 5, 'ops':
               ['call'] * 7 + ['reset'] + ['call'] * 5}
              for i in range(len(GATES)) for j in range(len(REPEATS))]
    cases += [{'gates': [True, True, False], 'repeats': [True, False, 3],
               'kind': kind, 'ops': ['call'] * 9} for kind in KINDS]
    return cases


def gen(rng):
    if rng.random() < 0.15:
        return {'real': [rng.randrange(99) for _ in range(3)],
                'seed': specs.gen_seed(rng),
                'ops': [rng.choice(['call'] * 9 + ['reset', 'seed', 'gate',
                                                   'repeat', 'emitter'])
                        for _ in range(rng.randint(4, 30))]}
    single = rng.random() < 0.4
    case = {
        'gates': rng.choice([None, [
            rng.choice([True, True, True, False, False, 0, 1, None, '', 'x',
                        0.0, 2, 0.3, -1, 'False', [], [0]])
            for _ in range(rng.randint(1, 6))]]),
        'repeats': rng.choice([None, [None]]) if single else
        [rng.choice([0, 1, 1, 2, 3, 5]) for _ in range(rng.randint(1, 5))],
        'kind': rng.choice(sorted(KINDS)),
        'ops': [rng.choice(['call'] * 8 + ['reset', 'seed', 'swap_emitter',
                                           'swap_repeat', 'swap_gate', 'hide',
                                           'swap_map',
                                           'attr'])
                for _ in range(rng.randint(2, 25))],
        'falsy': rng.random() < 0.3,
    }
    return case


def word():
    return Word(Choice([0, 1, 3]), Choice('abc'))


GATES = [
    lambda: Static(True), lambda: Sequential([True, False]), lambda: chance(0.6),
    lambda: Sequential([1, '', 'x', None, 0], reset_after_call=False),
    lambda: Iterative(lambda: iter([False, True, True])),
    lambda: WrapOne(Choice(range(5)), lambda v: v % 3),
    lambda: Choice([True, False, 2], [3, 2, 1]),
    lambda: Choice([True, False] * 50, replace=False),
    lambda: WrapMany({'a': chance(0.5), 'b': chance(0.7)},
                     lambda a, b: a or b),
    lambda: Choice([True, False], replace_only_after_call=True), word]
REPEATS = [
    lambda: None, lambda: Static(None), lambda: Static(3),
    lambda: Sequential([1, 2, 3]), lambda: Sequential([0, 2, 1, 3]),
    lambda: Iterative(lambda: iter([3, 1])), lambda: Choice(range(4)),
    lambda: Choice([1, 2, 5], [5, 3, 1]), lambda: WrapOne(word(), len),
    lambda: Choice(list(range(4)) * 25, replace=False),
    lambda: WrapMany({'a': Sequential([1, 2]), 'b': Choice([0, 2])},
                     lambda a, b: a + b),
    lambda: Sequential([2, 1], reset_after_call=True)]
DATA = [
    lambda: Static('v'), lambda: Sequential('abcde'), word,
    lambda: Sequential('abcde', reset_after_call=True),
    lambda: Iterative(lambda: iter('xyz')), lambda: Choice(range(99)),
    lambda: Choice(range(7), replace_only_after_call=True),
    lambda: Choice(range(500), replace=False), lambda: Choice('ab', [1, 3]),
    lambda: Text(Choice([1, 2]), word()),
    lambda: WrapOne(Choice(range(9)), lambda v, rng: (v, rng.random())),
    lambda: WrapMany({'a': Sequential([1, 2]), 'b': word()},
                     lambda a, b: (a, b)), lambda: chance(0.5)]


def run_real(case, obs):
    """A field of real emitters, and others like them called by hand."""
    seed = specs.dec(case['seed'])
    seed = 1 if seed is None else seed
    picks = dict(zip(('gate', 'repeat', 'emitter'), case['real']))
    tables = {'gate': GATES, 'repeat': REPEATS, 'emitter': DATA}

    def make(name):
        table = tables[name]
        out = [table[picks[name] % len(table)]() for _ in range(2)]
        return out if out[0] is not None else [None, Static(None)]

    def reset(em):
        em.rng_seed = seed
        em.reset()
    pairs = {name: make(name) for name in picks}
    parts = {name: pair[1] for name, pair in pairs.items()}
    field = Field('f', pairs['emitter'][0], pairs['repeat'][0],
                  pairs['gate'][0], rng_seed=seed)
    for em in parts.values():
        reset(em)
    opened = 0
    for i, op in enumerate(case['ops']):
        if op == 'call':
            want = None
            if parts['gate']():
                n = parts['repeat']()
                want = parts['emitter'](n) if n is not None \
                    else parts['emitter']()
                opened += 1
            check_same(field(), want, f'call {i}')
            check_same(field.previous, want, f'previous after call {i}')
            obs.ev('real_calls')
        elif op == 'reset':
            field.reset()
            for em in parts.values():
                reset(em)
        elif op == 'seed':
            seed = i
            field.seed(seed)
            for em in parts.values():
                if hasattr(em, 'seed'):
                    em.seed(seed)
        else:
            picks[op] += i
            one, parts[op] = make(op)
            one = Static(None) if one is None else one
            reset(one)
            reset(parts[op])
            setattr(field, op if op == 'emitter' else f'{op}_emitter', one)
    if opened > 1:
        obs.nontrivial()
    obs.state('real', *(i % len(t) for i, t in zip(
        case['real'], tables.values())))


def run(case, obs):
    if 'real' in case:
        return run_real(case, obs)
    if case.get('table'):
        return run_table(obs)
    if 'self' in case:
        return run_self(case, obs)
    if 'huge' in case:
        return run_huge(case['huge'], obs)
    if 'long' in case:
        return run_long(case, obs)
    if 'static' in case:
        return run_static(obs)
    kind = KINDS[case['kind']]
    count = [0]

    def data(falsy=case.get('falsy')):
        count[0] += 1
        base = count[0] * 1000
        if falsy:
            vals = [0, '', False, None, [], ()]
            return kind(lambda i: vals[i % len(vals)])
        return kind(lambda i: ('v', base + i))

    parts = {'emitter': data()}
    kwargs = {}
    if case['gates']:
        parts['gate'] = kwargs['gate'] = kind(case['gates'])
    if case['repeats']:
        parts['repeat'] = kwargs['repeat'] = kind(case['repeats'])
    field = Field('name', parts['emitter'], rng_seed='s1', **kwargs)
    check(field.name == 'name' and field.hide is False
          and field.rng_seed == 's1', 'attributes')
    check(field.previous is None, 'previous is not None at first')
    check(field.emitter is parts['emitter'], 'emitter attribute')
    take(parts)
    seed = 's1'
    calls = 0
    last = None
    for op in case['ops']:
        if op == 'call':
            got = field()
            used = take(parts)
            expected(got, used, parts, obs)
            check(field.previous is got, 'previous is not the value returned')
            calls += 1
            obs.ev('calls')
        elif op == 'reset':
            field.reset()
            check(field.previous is None, 'previous after reset')
            if kind is not Bare:
                check(all(p.pos == 0 for p in parts.values()),
                      'reset did not reach all emitters')
            if case['kind'] == 'seeded':
                check(all(p.rng_seed == seed for p in parts.values()),
                      'reset did not set the seed of all emitters')
            take(parts)
        elif op == 'seed':
            seed = f's{calls}'
            before = field.previous
            field.seed(seed)
            check(field.rng_seed == seed, 'rng_seed after seed')
            check(field.previous is before, 'seed changed previous')
            if case['kind'] == 'seeded':
                check(all(p.rng_seed == seed and p.seeds[-1] == seed
                          for p in parts.values()),
                      'seed did not reach all emitters')
            check(not any(v != 'RESET' for u in take(parts).values()
                          for v in u), 'seeding used up values')
        elif op == 'attr':
            field.rng_seed = seed = 'attr'
        elif op == 'hide':
            field.hide = not field.hide
            check(field.previous is last, 'hiding changed previous')
        elif op == 'swap_emitter':
            parts['emitter'] = field.emitter = data()
            check(field.emitter is parts['emitter'], 'emitter attribute')
            obs.ev('swaps')
        elif op == 'swap_repeat':
            script = [[None], [2, 1], [3]][calls % 3]
            parts['repeat'] = field.repeat_emitter = kind(script)
            check(field.repeat_emitter is parts['repeat'], 'repeat_emitter')
            obs.ev('swaps')
        elif op == 'swap_gate':
            script = [[True, False], [True], [False]][calls % 3]
            parts['gate'] = field.gate_emitter = kind(script)
            check(field.gate_emitter is parts['gate'], 'gate_emitter')
            obs.ev('swaps')
        elif op == 'swap_map':
            # The same, but in its map of emitters.
            for name, old, new in (
                    ('emitter', field.emitter, data()),
                    ('gate', field.gate_emitter, kind([True, True, False])),
                    ('repeat', field.repeat_emitter, kind([[None], [2, 3]][
                        calls % 2]))):
                keys = [k for k, v in field.emitters.items() if v is old]
                check(len(keys) == 1, f'{name} in the map of emitters: {keys}')
                field.emitters[keys[0]] = parts[name] = new
            check(field.emitter is parts['emitter']
                  and field.gate_emitter is parts['gate']
                  and field.repeat_emitter is parts['repeat'],
                  'emitter attributes after changing the map of emitters')
            obs.ev('swaps')
        if op.startswith('swap') or op == 'attr':
            check(field.previous is last, lambda: (
                f'{op} changed previous: {short(last)} is now '
                f'{short(field.previous)}'))
        last = field.previous
        obs.state(case['kind'], op, sorted(parts), case['repeats'],
                  case['gates'])
    if calls > 1:
        obs.nontrivial()


class Odd:
    """Says itself whether it is true."""

    def __init__(self, true):
        self.true = true

    def __bool__(self):
        return self.true

    def __eq__(self, other):
        return other is not self.true


def run_static(obs):
    """Static parts, including the default ones, whose values change."""
    for kwargs in ({}, {'gate': Static(True)}, {'repeat': Static(None)},
                   {'gate': Static(1), 'repeat': Static(3)},
                   {'gate': Static(0), 'repeat': Static(0)}):
        field = Field('f', Static('v'), **kwargs)
        other = Field('g', Static('v'))
        for gate in (True, False, 1, 0, None, 'x', Fraction(1, 9), Fraction(0),
                     Decimal('0.1'), Decimal(0), float('nan'), 0.25, 1j, b'',
                     b'0', range(0), range(1), (), (0,), object(), Odd(True),
                     Odd(False), NotImplementedError):
            for repeat in (None, 0, 1, 3):
                for value in ('w', 0, None):
                    for part, v in ((field.gate_emitter, gate),
                                    (field.repeat_emitter, repeat)):
                        if isinstance(part, Static):
                            part.value = v
                        elif part is field.gate_emitter:
                            field.gate_emitter = Static(v)
                        else:
                            field.repeat_emitter = Static(v)
                    field.emitter.value = value
                    want = (None if not gate else value if repeat is None
                            else [value] * repeat)
                    check_same(field(), want, (
                        f'gate {gate}, repeat {repeat}, value {value}'))
                    check_same(other(), 'v', 'value of an unrelated field')
                    obs.ev('static_changes')
    obs.nontrivial()


def run_self(case, obs):
    """A field whose values are based on its last value."""
    seen = []
    closed = case['closed']
    gate = Sequential([True] * closed + [False]) if closed else None
    repeat = case['repeats'] and Sequential([case['repeats']])
    field = Field('f', Static('first'), gate=gate, repeat=repeat)
    field()

    def action(v):
        seen.append(v)
        return len(seen)
    if case['self'] == 'based':
        field.emitter = BasedOnFields(field, action)
    elif case['self'] == 'copy':
        field.emitter = WrapOne(CopyFields(field), action)
    else:
        field.emitter = Recorder(lambda i: action(field.previous))
    last = field.previous
    for i in range(1, 12):
        del seen[:]
        got = field()
        if seen:
            check(all(v == last for v in seen), lambda: (
                f'the last value was {short(last)}; while emitting, it was '
                f'{short(seen)}'))
            obs.ev('self_based')
        else:
            check(got is None and closed, 'nothing was emitted')
        check(field.previous is got, 'previous is not the value returned')
        last = got
    obs.nontrivial()


def take(parts):
    return {k: p.take() for k, p in parts.items()}


def expected(got, used, parts, obs):
    gate = used.get('gate', [True])
    check(len(gate) == 1, f'the gate was asked {len(gate)} times')
    if not gate[0]:
        obs.ev('closed')
        check(got is None, lambda: f'the gate is closed, but: {short(got)}')
        check(not used['emitter'] and not used.get('repeat'), lambda: (
            f'the gate is closed, but values were used up: {short(used)}'))
        return
    repeat = used.get('repeat', [None])
    check(len(repeat) == 1, f'the repeat emitter was asked {len(repeat)} times')
    n = repeat[0]
    if n is None:
        obs.ev('single')
        check(len(used['emitter']) == 1, lambda: (
            f'{len(used["emitter"])} values were used for one value'))
        check(got is used['emitter'][0] or got == used['emitter'][0], lambda: (
            f'{short(got)} instead of {short(used["emitter"][0])}'))
    else:
        obs.ev('multi')
        if not n:
            obs.ev('empty_lists')
        check(type(got) is list, lambda: f'multi-valued, but: {short(got)}')
        check_same(len(got), int(n), 'number of values')
        check_same(got, used['emitter'], 'values')


def run_long(case, obs):
    """Parts that give the same for long, and then something else."""
    n = case['long']
    field = Field('f', Sequential(range(n + 9)), gate=Sequential(
        [True] * n + [False] + [True]), repeat=Sequential(
            [None] * (n - 2) + [2] + [1] * 2))
    pos = 0
    for i in range(n + 5):
        got = field()
        if i == n:
            want = None
        else:
            # Closed gates don't ask for the number of values.
            at = (i - (i > n)) % (n + 1)
            k = None if at < n - 2 else 2 if at == n - 2 else 1
            vals = [(pos + j) % (n + 9) for j in range(k or 1)]
            pos += len(vals)
            want = vals[0] if k is None else vals
        check_same(got, want, f'call {i}')
        obs.ev('long_runs')
    # A gate that is closed for long.
    field = Field('f', Sequential('ab'), gate=Sequential(
        [False] * n + [True] * 2), repeat=Static(2))
    for i in range(n + 5):
        check_same(field(), ['a', 'b'] if n <= i < n + 2 else None,
                   f'call {i} of a field that was closed')
        obs.ev('long_runs')
    obs.nontrivial()


def run_huge(n, obs):
    """More than a million values at once."""
    for em, want in ((Sequential(range(10)), lambda i: i % 10),
                     (Iterative(lambda: iter(range(n + 9))),
                      lambda i: i % (n + 9)), (Static(None), lambda i: None)):
        field = Field('f', em, repeat=Sequential([n, 2, n - 1]))
        pos = 0
        for k in (n, 2, n - 1, n):
            got = field()
            check(type(got) is list and len(got) == k and
                  field.previous is got,
                  lambda: f'{k} values: got {len(got)}')
            at = [*range(0, k, 7), k - 1]
            check(all(got[i] == want(pos + i) for i in at),
                  f'{k} values: other ones')
            pos += k
            obs.ev('multi')
        obs.ev('huge_lists')
    obs.nontrivial()


def run_table(obs):
    """multi_valued, for built-in repeat emitters."""
    table = [
        (None, False), (Static(None), False), (Sequential([None]), False),
        (Sequential([None, None]), False), (Sequential((None,)), False),
        (Choice([None]), False), (Choice((None, None)), False),
        (Static(1), True), (Static(0), True), (Static(5), True),
        (Choice([1, 2]), True), (Choice(range(1, 9)), True),
        (Choice((1,)), True), (Choice([0]), True), (Choice([0, 1]), True),
        (Sequential(range(3)), True), (Sequential([2, 2]), True),
        (Iterative(lambda: iter([1, 2])), True),
        (Sequential([0]), True), (Sequential([0, 0]), True),
        (Static(0), True),
        (WrapOne(Static('2'), lambda v: int(v)), True),
    ]
    for i in range(120):
        for repeat, want in table:
            field = Field('f', Choice('abc'), repeat=repeat, rng_seed=i)
            check_same(field.multi_valued, want,
                       f'multi_valued with repeat={repeat!r}')
            values = [field() for _ in range(3)]
            check(all((type(v) is list) is want for v in values), lambda: (
                f'multi_valued is {want}, but values are {short(values)}'))
            check_same(field.multi_valued, want, 'multi_valued after calls')
            obs.ev('multi_valued')
        field.repeat_emitter = Static(None)
        check_same(field.multi_valued, False, 'multi_valued after swap')
        field.repeat_emitter = Static(2)
        check_same(field.multi_valued, True, 'multi_valued after swap')
    # The repeat emitter may be changed in place, or in the map.
    for first in (None, 1, 0, 3):
        field = Field('f', Choice('abc'), repeat=Static(first), rng_seed=1)
        for new in (None, 2, None, 0, 1, None, None, 4):
            for how in ('value', 'map', 'attr', 'update'):
                if how == 'value':
                    field.repeat_emitter.value = new
                elif how == 'map':
                    field.emitters['repeat'] = Static(new)
                elif how == 'attr':
                    field.repeat_emitter = Choice([new])
                else:
                    field.emitters.update({'repeat': Static(new)})
                if new == 2:
                    field.reset()
                elif new == 4:
                    field.seed(3)
                want = new is not None
                check_same(field.multi_valued, want,
                           f'multi_valued after {new} was set by {how}')
                check((type(field()) is list) is want,
                      f'type of value after {new} was set by {how}')
                check_same(field.multi_valued, want, 'multi_valued again')
                obs.ev('multi_valued_changes')
    # One that emits numbers at times can emit multiple values.
    for items in ([None, 2], [2, None], [None, None, 0], [1, None, 3]):
        for repeat in (Sequential(items), Choice(items),
                       Sequential(tuple(items))):
            field = Field('f', Static('x'), repeat=repeat)
            check_same(field.multi_valued, True,
                       f'multi_valued with repeat={items}')
            obs.ev('multi_valued')
    for p, n in ((0, 0), (1, 50)):
        field = Field('f', Static(0), gate=chance(p))
        check_same([field() for _ in range(50)].count(0), n, f'gate chance({p})')
    obs.nontrivial()
