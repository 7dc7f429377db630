"""C26: emitters share no state and leave what they are given alone."""
import copy
import functools
import random

from fauxdoc import profile
from fauxdoc.emitters import (
    BasedOnFields, chance, Choice, gaussian_choice, Iterative, poisson_choice,
    Sequential, Static, Text, WrapMany, WrapOne, Word
)
from fauxdoc.group import ObjectMap
from fauxdoc.mathtools import weighted_shuffle
from fxmon import drive, schemas, specs
from fxmon.core import check, check_same, short
from fxmon.props.c01 import reports

RULE = ('random pairs of emitters or schemas, whose calls, resets and seeds '
        'are interleaved, compared with the same histories run apart; the '
        'state of the global random module and everything that was passed in '
        'is compared before and after; unseeded twins are compared with each '
        'other; returned lists are changed by the caller; non-trivial: at '
        'least two values from each')
REQUIRED = {'interleaved': 1000, 'shared_inputs': 500, 'unseeded': 500,
            'ownership': 1000, 'global_state': 3000, 'temporary': 3000,
            'wide': 100, 'functions': 12}
QUICK = 9000
THOROUGH = 120000
ASSUMPTIONS = ['two unseeded emitters agree by chance with a probability of '
               'less than 1e-18']
UNSEEDED = ['choice', 'none', 'roac', 'weights', 'none_weights', 'poisson',
            'gauss', 'chance', 'word', 'text', 'wrap1', 'wrapn', 'nested',
            'field', 'based', 'shuffle', 'gate', 'repeat']


def directed():
    cases = [{'mode': 'unseeded', 'kind': k} for k in UNSEEDED]
    cases += [{'mode': 'temporary', 'n': n, 'seed': n} for n in (
        1, 2, 3, 5, 9, 20, 33)]
    cases += [{'mode': 'wide', 'n': n} for n in (
        1, 2, 8, 9, 16, 17, 31, 33, 41, 50, 64, 65, 100, 128, 129, 257, 1000)]
    cases.append({'mode': 'functions'})
    for spec, calls in specs.matrix():
        cases.append({'mode': 'own', 'one': {'spec': spec}, 'calls': calls})
        ops = [['call', c] for c in calls]
        cases.append({'mode': 'pair', 'one': {'spec': spec},
                      'two': {'spec': spec}, 'histories': [ops, ops],
                      'order': [0, 1] * len(ops)})
    return cases


def gen(rng):
    mode = rng.choice(['pair', 'pair', 'shared', 'unseeded', 'own', 'own'])
    if mode == 'unseeded':
        return {'mode': mode, 'kind': rng.choice(UNSEEDED)}
    if mode == 'shared':
        n = rng.choice([1, 2, 5, 12, 40, 120, 300])
        return {'mode': mode, 'n': n, 'seeds': [specs.gen_seed(rng),
                                                specs.gen_seed(rng)],
                'weights': specs.gen_weights(rng, n),
                'ops': [[rng.randint(0, 6), rng.choice(
                    [None, 1, 2, 3, n, 'replace', 'reset'])]
                        for _ in range(rng.randint(2, 20))]}
    one = drive.gen_subject(rng)
    calls = drive.gen_calls_for(rng, one, 2, 8)
    if mode == 'own':
        return {'mode': mode, 'one': one, 'calls': calls}
    two = copy.deepcopy(one) if rng.random() < 0.4 else drive.gen_subject(rng)
    histories = []
    for case in (one, two):
        ops = []
        for _ in range(rng.randint(1, 4)):
            ops += [['call', c] for c in
                    drive.gen_calls_for(rng, case, 1, 3)]
            ops.append(rng.choice([['reset'], ['seed_reset', 5]]))
        histories.append(ops)
    order = [0] * len(histories[0]) + [1] * len(histories[1])
    rng.shuffle(order)
    return {'mode': mode, 'one': one, 'two': two, 'histories': histories,
            'order': order}


def run(case, obs):
    random.seed(4321)
    before = random.getstate()
    {'pair': run_pair, 'shared': run_shared, 'unseeded': run_unseeded,
     'own': run_own, 'temporary': run_temporary, 'wide': run_wide,
     'functions': run_functions}[case['mode']](case, obs)
    check(random.getstate() == before,
          'the state of the global random module changed')
    obs.ev('global_state')
    obs.state(case['mode'], case.get('kind'),
              case.get('one', {}).get('spec', {}).get('k'))


def do(subject, op):
    if op[0] == 'call':
        return subject.call(op[1])
    if op[0] == 'reset':
        return subject.reset()
    subject.seed(op[1])
    return subject.reset()


def run_pair(case, obs):
    apart = []
    for name, ops in zip(('one', 'two'), case['histories']):
        subject = drive.Subject(case[name])
        apart.append([do(subject, op) for op in ops])
    pair = [drive.Subject(case['one']), drive.Subject(case['two'])]
    at, got = [0, 0], [[], []]
    for w in case['order']:
        got[w].append(do(pair[w], case['histories'][w][at[w]]))
        at[w] += 1
    for a, b, name in zip(got, apart, ('first', 'second')):
        check_same(a, b, f'{name} of two interleaved (vs. apart)')
    obs.ev('interleaved')
    if all(len(g) > 2 for g in got):
        obs.nontrivial()


def outcome(em, k):
    try:
        return em(k) if k is not None else em()
    except ValueError:
        return 'ValueError'


def run_shared(case, obs):
    """Emitters that were made from the same objects."""
    n = case['n']
    items = [[i] for i in range(n)]
    weights = list(case['weights'])
    cum = specs.cumulate(weights)
    snapshot = copy.deepcopy((items, weights, cum))
    ids = [id(i) for i in items]
    s1, s2 = (specs.dec(s) for s in case['seeds'])

    def make_one(i, items, weights, cum):
        if i == 5:
            return Sequential(items)
        return Choice(items, **[
            {'rng_seed': s1}, {'weights': weights, 'rng_seed': s2},
            {'replace': False, 'rng_seed': s1},
            {'weights': weights, 'replace': False, 'rng_seed': s1},
            {'cum_weights': cum, 'replace_only_after_call': True,
             'rng_seed': s2}, {},
            {'replace_only_after_call': True, 'rng_seed': s1}][i])

    def make(*lists):
        return [make_one(i, *lists) for i in range(7)]
    shared = make(items, weights, cum)
    alone = []
    for i in range(7):
        alone.append(make(*copy.deepcopy(snapshot))[i])
    for i, k in case['ops']:
        pair = shared[i], alone[i]
        if k == 'reset':
            pair[0].reset()
            pair[1].reset()
        elif k == 'replace':
            if i == 5:
                continue
            for em in pair:
                em.replace = not em.replace
        else:
            got, want = (outcome(em, k) for em in pair)
            check_same(got, want, f'emitter {i} of seven that were made from '
                                  'the same lists')
            if want == 'ValueError':
                pair[0].reset()
                pair[1].reset()
    check_same((items, weights, cum), snapshot,
               'lists that were passed to Choice')
    check([id(i) for i in items] == ids, 'items were reordered or replaced')
    # Lists that are changed and used again.
    weights.reverse()
    cum[:] = specs.cumulate(weights)
    for i, (one, two) in enumerate(zip(make(items, weights, cum), make(
            items, list(weights), list(cum)))):
        check_same(outcome(one, n), outcome(two, n),
                   f'emitter {i}, made from lists that were changed since '
                   'others were made from them')
    # One that is made just before its lists change, and one just after.
    for i in range(7):
        lists = [[i] for i in range(n)], list(weights), list(cum)
        one = make_one(i, *lists)
        held = copy.deepcopy(lists)
        lists[0].reverse()
        lists[1][:] = lists[1][1:] + lists[1][:1]
        lists[2][:] = specs.cumulate(lists[1])
        two = make_one(i, *lists)
        for em, given, when in ((two, copy.deepcopy(lists), 'after'),
                                (one, held, 'before')):
            if when == 'before':
                lists[0].reverse()  # Items are not copied.
            check_same(outcome(em, n), outcome(make_one(i, *given), n),
                       f'emitter {i}, made from lists just {when} they '
                       'changed')
    for i, (em, other) in enumerate(zip(shared, alone)):
        em.reset()
        other.reset()
        check_same(outcome(em, n), outcome(other, n),
                   f'emitter {i}, after the lists it was made from changed')
    weights.reverse()
    cum[:] = snapshot[2]
    # The same for mappings, fields and functions.
    srcs = {'a': Sequential([1, 2]), 'b': Sequential([3])}
    held = list(srcs.items())
    em = WrapMany(srcs, dict)
    em(3)
    em.seed(1)
    em.reset()
    em.emitters['c'] = Static(0)
    check(list(srcs.items()) == held, 'a mapping of sources changed')
    # Emitters that are made from one ObjectMap each have their own map.
    given = ObjectMap({'a': Sequential([1, 2]), 'b': Static(5)})
    held = list(given.items())
    ems = [WrapMany(given, lambda **kw: sorted(kw.items())) for _ in range(2)]
    ems[0].emitters['a'] = Static(9)
    ems[0].emitters['c'] = Static(7)
    given['b'] = Static(0)
    check_same(ems[0](), [('a', 9), ('b', 5), ('c', 7)], 'changed children')
    check_same(ems[1](), [('a', 1), ('b', 5)],
               'an emitter, after the children of another one were changed')
    check_same([(k, v is w) for (k, v), (_, w) in zip(given.items(), held)],
               [('a', True), ('b', False)], 'a map that was given')
    del ems[0].emitters['b']
    check_same(ems[1](), [('a', 2), ('b', 5)],
               'an emitter, after a child of another one was removed')
    # Defaults belong to each one.
    texts = [Text(Static(2), Static('w')) for _ in range(2)]
    made = [profile.Field('f', Static('v')) for _ in range(2)]
    texts[0].sep_emitter.value = '-'
    made[0].repeat_emitter.value = 2
    made[0].gate_emitter.value = True
    check_same([texts[0](), texts[1]()], ['w-w', 'w w'],
               'texts, after changing the default separator of one')
    check_same([made[0](), made[1]()], [['v', 'v'], 'v'],
               'fields, after changing the default repeats of one')
    made[0].gate_emitter.value = False
    check_same([made[0](), made[1]()], [None, 'v'],
               'fields, after changing the default gate of one')
    check_same([Text(Static(2), Static('w'))(),
                profile.Field('f', Static('v'))()], ['w w', 'v'],
               'new ones, after changing the defaults of others')
    # Schemas that share fields, or a map of them.
    a, b, c = (profile.Field(n, Static(n)) for n in 'abc')
    one, two = profile.Schema(a, b), profile.Schema()
    two.fields = one.fields
    held = one.fields
    two.set_fields(c)
    check_same([one(), two()], [{'a': 'a', 'b': 'b'}, {'c': 'c'}],
               'schemas, after set_fields of one')
    check_same(list(held), ['a', 'b'], 'a map of fields, after set_fields')
    one, two = profile.Schema(a, b), profile.Schema(a, b)
    two.add_fields(c)
    del two.fields['a']
    check_same([one(), two()], [{'a': 'a', 'b': 'b'}, {'b': 'b', 'c': 'c'}],
               'schemas of the same fields, after changing one')
    result = weighted_shuffle(items, weights, random.Random(1))
    weighted_shuffle(items, weights, random.Random(1), n // 2)
    result.clear()
    check_same((items, weights), snapshot[:2],
               'lists that were passed to weighted_shuffle')
    check([id(i) for i in items] == ids, 'items were reordered or replaced')
    obs.ev('shared_inputs')
    if n > 1:
        obs.nontrivial()


def draw(v, rng):
    return rng.random()


def run_unseeded(case, obs):
    """Two that were made alike without a seed differ."""
    kind = case['kind']
    wide = range(10**6)

    def make():
        if kind == 'choice':
            return Choice(wide)
        if kind == 'none':
            return Choice(range(1000), replace=False)
        if kind == 'roac':
            return Choice(range(1000), replace_only_after_call=True)
        if kind == 'weights':
            return Choice(range(1000), range(1, 1001))
        if kind == 'none_weights':
            return Choice(range(1000), range(1, 1001), replace=False)
        if kind == 'poisson':
            return poisson_choice(range(100), mu=40)
        if kind == 'gauss':
            return gaussian_choice(range(200), mu=100, sigma=50)
        if kind == 'chance':
            return chance(0.5)
        if kind == 'word':
            return Word(Static(9), Choice('abcdefghijklmnop'))
        if kind == 'text':
            return Text(Static(3), Word(Static(9), Choice('abcdefghijklmnop')))
        if kind == 'wrap1':
            return WrapOne(Static(1), draw)
        if kind == 'wrapn':
            return WrapMany({'v': Static(1)}, draw)
        if kind == 'nested':
            return WrapOne(WrapMany({'v': Choice(wide)}, dict), str)
        if kind == 'field':
            field = profile.Field('f', Choice(wide))
            return lambda n: [field() for _ in range(n)]
        if kind == 'based':
            field = profile.Field('f', Static(1))
            em = BasedOnFields(field, draw)
            field()
            return lambda n: [em() for _ in range(n)]
        if kind == 'shuffle':
            return lambda n: [weighted_shuffle(range(60), range(1, 61))
                              for _ in range(n)]
        if kind == 'gate':
            field = profile.Field('f', Static(1), gate=chance(0.5))
            return lambda n: [field() for _ in range(n)]
        field = profile.Field('f', Static(1), repeat=Choice(range(1, 9)))
        return lambda n: [field() for _ in range(n)]
    number = 150
    outs = []
    for _ in range(3):
        # Seeding the global random module doesn't make them alike.
        state = random.getstate()
        random.seed(0)
        em = make()
        outs.append(em(number))
        if hasattr(em, 'reset'):
            em.reset()
            outs.append(em(number))
        random.setstate(state)
    for i, a in enumerate(outs):
        for b in outs[i + 1:]:
            check(a != b, lambda: (
                f'two unseeded ({kind}) emitted the same {number} values: '
                f'{short(a, 100)}'))
    obs.ev('unseeded')
    obs.nontrivial()


def run_temporary(case, obs):
    """Objects that live shortly, so that others get their addresses."""
    n, rng = case['n'], random.Random(case['seed'])
    seen = set()
    again = 0

    def own(thing):
        nonlocal again
        again += id(thing) in seen
        seen.add(id(thing))
        return thing
    for i in range(500):
        mod = rng.randint(1, n)
        kind = (tuple, list, lambda v: ''.join(chr(97 + x) for x in v))[i % 3]
        vals = own(kind(x % mod for x in range(n)))
        em = Choice(vals, rng_seed=i, replace=bool(i % 2))
        check_same(em.num_unique_values, mod, f'distinct values of {vals!r}')
        check_same(Sequential(vals)(n), list(vals), 'a Sequential')
        check(set(em(1)) <= set(vals), 'a value from elsewhere')
        heavy = rng.randrange(n)
        weights = own([int(x == heavy) for x in range(n)])
        em = Choice(vals, weights, rng_seed=i)
        check_same([*em.weights], weights, 'the weights of a Choice')
        check_same(em(3), [vals[heavy]] * 3, f'one of {vals!r} by {weights}')
        check_same(weighted_shuffle(range(n), weights, random.Random(i))[0],
                   heavy, f'a shuffle by {weights}')
        cum = own(specs.cumulate(weights))
        em = Choice(range(n), cum_weights=cum, replace_only_after_call=True)
        check_same(em(1), [heavy], f'one by cumulative weights {cum}')
        del vals, weights, cum, em
        # Functions and emitters.
        if i % 2:
            func = own(lambda v, rng: (v, i, rng is not None))
            named = own(lambda v, rng: (v, i, rng is not None))
        else:
            func = own(lambda v: (v, i, False))
            named = own(lambda v: (v, i, False))
        source = own(Static(i))
        check_same(WrapOne(source, func)(), (i, i, bool(i % 2)), 'WrapOne')
        check_same(WrapMany({'v': source}, named)(2), [(i, i, bool(i % 2))] * 2,
                   'WrapMany')
        field = own(profile.Field(f'f{i}', source))
        check_same(field(), i, 'a field')
        check_same(BasedOnFields(field, func)(), (i, i, bool(i % 2)),
                   'BasedOnFields')
        check_same(profile.Schema(field)(), {f'f{i}': i}, 'a schema')
        width = own(Static(i % 4))
        letter = own(Static(chr(97 + i % 26)))
        check_same(Word(width, letter)(), letter.value * (i % 4), 'a Word')
        check_same(Text(width, letter, Static('-'))(),
                   '-'.join(letter.value * (i % 4)), 'a Text')
        obs.ev('temporary')
        del func, named, source, field, width, letter
    obs.ev('addresses_again', again)
    obs.nontrivial()


def traits(thing):
    """What can be seen of a function or other callable."""
    names = ('__code__', '__defaults__', '__kwdefaults__', '__annotations__',
             '__name__', '__module__', '__doc__', '__wrapped__', '__self__',
             '__closure__', 'args', 'keywords')
    # (Looking at some of them creates them, so do that first.)
    values = [getattr(thing, n, None) for n in names]
    values = [dict(v) if isinstance(v, dict) else v for v in values]
    try:
        own = dict(vars(thing))
    except TypeError:
        own = None
    return own, sorted(dir(thing)), values


class Caller:
    def __init__(self):
        self.calls = 0

    def __call__(self, *args, rng=None, **kwargs):
        return len(args) + len(kwargs)

    def method(self, *args, rng=None, **kwargs):
        return len(args) + len(kwargs)

    @classmethod
    def of_class(cls, *args, rng=None, **kwargs):
        return len(args) + len(kwargs)


def run_functions(case, obs):
    """Functions and sources are left as they are."""
    def plain(*args, **kwargs):
        return len(args) + len(kwargs)

    def marked(*args, rng=None, **kwargs):
        """With attributes."""
        return len(args) + len(kwargs)
    marked.mark = [1]
    wrapped = functools.wraps(marked)(lambda *a, **k: marked(*a, **k))
    caller = Caller()
    functions = [plain, marked, wrapped, caller, caller.method,
                 Caller.of_class, functools.partial(marked, 1),
                 lambda *a, rng=None, **k: 1, Caller, max, str, dict]
    field, other = (profile.Field(n, Static(n)) for n in 'ab')
    field(), other()
    for f in functions:
        before = traits(f), traits(Caller)
        for make in (lambda: WrapOne(Static(1), f),
                     lambda: WrapMany({'a': Static(1), 'b': Static(2)}, f),
                     lambda: BasedOnFields(field, f),
                     lambda: BasedOnFields([field, other], f)):
            for _ in range(2):
                try:
                    em = make()
                    em(), em(3)
                    em.seed(1)
                    em.reset()
                except (TypeError, ValueError):
                    # E.g., `max` takes no keywords.
                    pass
        check((traits(f), traits(Caller)) == before, lambda: (
            f'{f!r} was changed: {traits(f)}, before: {before}'))
        obs.ev('functions')
    factories = [lambda: iter([1, 2]), functools.partial(iter, [1, 2])]
    for f in factories:
        before = traits(f)
        em = Iterative(f)
        em(), em(5), em.reset()
        check(traits(f) == before, lambda: f'{f!r} was changed')
        obs.ev('functions')
    obs.nontrivial()


def run_wide(case, obs):
    """Documents belong to the caller, in schemas of any size."""
    n = case['n']
    schema = profile.Schema(*(
        profile.Field(f'f{i}', Sequential(range(i, i + 5)), hide=i % 7 == 3,
                      repeat=None if i % 3 else Static(2))
        for i in range(n)))
    docs = []
    for i in range(6):
        doc = schema()
        docs.append((doc, copy.deepcopy(doc)))
        check(all(doc is not d for d, _ in docs[:-1]), 'the same document')
        for v in doc.values():
            if i % 2 and isinstance(v, list):
                v.append('more')
        if i % 2:
            doc['other'] = i
            docs[-1] = doc, copy.deepcopy(doc)
    for doc, was in docs:
        check_same(doc, was, 'a document, after later ones')
    twin = profile.Schema(*(
        profile.Field(f'f{i}', Sequential(range(i, i + 5)), hide=i % 7 == 3,
                      repeat=None if i % 3 else Static(2))
        for i in range(n)))
    for _ in range(6):
        twin()
    check_same(schema(), twin(), 'after documents were changed')
    obs.ev('wide', len(docs))
    obs.nontrivial()


def run_own(case, obs):
    """A list that was returned belongs to the caller."""
    held = []
    want = drive.Subject(case['one']).drive(case['calls'])
    subject, other = drive.Subject(case['one']), drive.Subject(case['one'])
    total = 0
    for c, w in zip(case['calls'], want):
        got = subject.call(c)
        other.call(c)
        check_same(got, w, 'after changing lists that were returned before')
        if subject.is_schema:
            for doc in ([got] if isinstance(got, dict) else got):
                doc.clear()
                doc['other'] = 1
        elif c is not None:
            got.reverse()
            got += ['junk', 'junk']
            if total % 2:
                del got[0]
            if total % 3 == 2:
                got.clear()
        if isinstance(got, (list, dict)) and (
                subject.is_schema or c is not None) and len(got) < 2000:
            held.append((got, copy.copy(got)))
        if not subject.is_schema:
            check_same(reports(subject.obj), reports(other.obj),
                       'what it reports after changing a list it returned')
        total += 1 if c is None else c
    for got, was in held:
        check(len(got) == len(was) and (
            got == was if isinstance(got, dict) else
            all(a is b for a, b in zip(got, was))),
            'a list or document changed after it was returned')
    obs.ev('ownership')
    if total > 2:
        obs.nontrivial()
