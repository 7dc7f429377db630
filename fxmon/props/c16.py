"""C16: CopyFields copies exactly what its source fields emitted."""
import collections
import collections.abc

from fauxdoc.emitters import Choice, CopyFields, Sequential, Static
from fauxdoc.emitters.fromfields import SourceFieldGroup
from fauxdoc.group import ObjectGroup
from fauxdoc.profile import Field, Schema
from fxmon import specs
from fxmon.core import check, check_same, short
from fxmon.recorders import Recorder

RULE = ('random source fields (single- and multi-valued, gated, with falsy '
        'values), separators and histories; each copy is compared with one '
        'computed from the values the sources returned in that document; '
        'non-trivial: at least two copies')
REQUIRED = {'copies': 10000, 'single': 1500, 'lists': 1500, 'joined': 2000,
            'nothing': 500, 'source_changes': 500, 'batches': 1000,
            'containers': 3000, 'inplace': 5000, 'huge_lists': 6}
QUICK = 30000
THOROUGH = 750000


# Single values that can be iterated.
WHOLE = [{'$bytes': 'ab'}, {'$range': [0, 3]}, {'$set': [1]},
         {'$seq': [1, 2]}, {'$dict': {}},
         {'$bytes': ''}, {'$range': [0, 0]}]
NESTED = [[], [1, 2], [[3]], {'$tuple': [4, 5]}, {'$tuple': []}, [None],
          [[], ['a']]]
SIZES = [*range(12), 16, 31, 64, 100, 101, 128, 256, 257, 1000, 1001,
         1025, 5000, 20000]


def directed():
    cases = []
    one = {'vals': [1, 0, 'x', '', False, None], 'repeats': None, 'gates': None}
    multi = {'vals': ['a', 0, ''], 'repeats': [2, 0, 1, 3], 'gates': None}
    gated = {'vals': ['g', 1], 'repeats': None, 'gates': [True, False]}
    gmulti = {'vals': ['g', 1], 'repeats': [1, 2], 'gates': [False, True]}
    whole = {'vals': WHOLE, 'repeats': None, 'gates': None}
    wholes = {'vals': WHOLE, 'repeats': [2, 3], 'gates': None}
    deep = {'vals': NESTED, 'repeats': [2, 1, 3], 'gates': None}
    for srcs in ([one], [deep], [deep, one], [gated, deep], [deep, deep],
                 [whole], [wholes], [whole, wholes], [whole, one], [multi], [gated], [gmulti], [one, one], [one, multi],
                 [multi, gated], [gated, gmulti], [gmulti, gmulti, one]):
        for as_one in (True, False):
            for n, sep in enumerate((None, ' ', '', '; ')):
                cases.append({'srcs': srcs, 'one': as_one, 'sep': sep,
                              'type': n + 4 * as_one,
                              'ops': ['doc'] * 8 + ['reset'] + ['doc'] * 2
                              + ['batch', 'reset_source', 'doc', 'stale']
                              + ['inplace', 'doc', 'inplace'] * 8})
    # Batches of many sizes.
    for srcs in ([one], [multi], [one, multi], [gated], [gmulti, one]):
        for sep in (None, '; '):
            cases.append({'srcs': srcs, 'one': True, 'sep': sep,
                          'sizes': SIZES, 'ops': ['doc', 'batch', 'doc',
                                                  'batch']})
    cases += [{'huge': n} for n in (300001, 1100003)]
    # Long values, many values, many fields.
    for n in (20, 64, 100, 255, 256, 300, 1000, 1025, 5000, 70000):
        long = {'vals': ['x' * n, 'y', '', 'ab' * n], 'repeats': None,
                'gates': None}
        many = {'vals': ['a', 0, '', 'b'], 'repeats': [n, 1], 'gates': None}
        srcs = [[long], [long, one], [many], [many, many]]
        if n <= 1000:
            srcs.append([one, multi, gated] * (n // 3))
        for src in srcs:
            for as_one in (True, False):
                for sep in (None, '', '; '):
                    cases.append({'srcs': src, 'one': as_one, 'sep': sep,
                                  'type': n, 'ops': ['doc', 'doc', 'batch']})
    return cases


def gen(rng):
    def plain():
        return {
            'vals': [rng.choice([None, 0, 1, 2.5, '', 'a', 'bc', False, True,
                                 'x y', {'$dict': {'k': 1}}, *WHOLE])
                     for _ in range(rng.randint(1, 5))],
            'repeats': rng.choice([None, [rng.randint(0, 3)
                                          for _ in range(rng.randint(1, 4))]]),
            'gates': rng.choice([None, [rng.random() < 0.5
                                        for _ in range(rng.randint(1, 4))]])}

    def src():
        s = plain()
        if s['repeats'] and rng.random() < 0.3:
            # Values of a multi-valued field that are lists themselves.
            s['vals'] += rng.sample(NESTED, 3)
            rng.shuffle(s['vals'])
        return s
    return {'srcs': [src() for _ in range(rng.choice([1, 1, 2, 3]))],
            'type': rng.randint(0, 7), 'one': rng.random() < 0.6, 'sep': rng.choice([None, None, ' ', '',
                                                          ', ']),
            'ops': [rng.choice(['doc'] * 6 + ['batch', 'reset', 'reset_source',
                                              'sep', 'swap', 'stale', 'junk', 'inplace',
                                              'inplace'])
                    for _ in range(rng.randint(2, 15))]}


class Sources(collections.abc.Sequence):
    """A sequence of a user."""

    def __init__(self, fields):
        self.fields = list(fields)

    def __getitem__(self, i):
        return self.fields[i]

    def __len__(self):
        return len(self.fields)


class Registered:
    """Says that it is a sequence, and is one."""

    def __init__(self, fields):
        self.fields = list(fields)

    def __getitem__(self, i):
        return self.fields[i]

    def __len__(self):
        return len(self.fields)

    def __iter__(self):
        return iter(self.fields)


collections.abc.Sequence.register(Registered)
CONTAINERS = [list, tuple, collections.deque, collections.UserList, Sources,
              SourceFieldGroup, lambda fs: ObjectGroup(*fs), Registered]


def contain(fields, n):
    """The fields, in one of many types of sequences."""
    return CONTAINERS[n % len(CONTAINERS)](fields)


def make_field(src, i, name='s{}'):
    em = Recorder([specs.dec(v) for v in src['vals']])
    kwargs = {}
    if src['repeats']:
        # A built-in emitter, so that it's known to be multi-valued.
        kwargs['repeat'] = Sequential(src['repeats'])
    if src['gates']:
        kwargs['gate'] = Sequential(src['gates'])
    return Field(name.format(i), em, hide=i % 2 == 1, **kwargs)


def expect(values, single, sep):
    """The copy, given the values the source fields returned."""
    if single:
        return values[0]
    flat = []
    for v in values:
        if v is None:
            continue
        flat += v if isinstance(v, list) else [v]
    if sep is None:
        return flat or None
    return sep.join(str(v) for v in flat)


def run_huge(n, obs):
    """Lists of more than a million values."""
    a = Field('a', Sequential(range(10)), repeat=Sequential([n, 3]))
    b = Field('b', Sequential('xyz'), repeat=Sequential([2, n]))
    c = Field('c', Static('-'))
    ems = [CopyFields(a), CopyFields([a]), CopyFields([a, b, c]),
           CopyFields([c, b, a], '|'), CopyFields(a, ''), CopyFields([b])]
    for _ in range(3):
        va, vb, vc = a(), b(), c()
        wants = [va, va, [*va, *vb, vc], '|'.join(
            [vc, *vb, *map(str, va)]), ''.join(map(str, va)), vb]
        for i, (em, want) in enumerate(zip(ems, wants)):
            got = em()
            check(type(got) is type(want) and len(got) == len(want)
                  and got == want, lambda: (
                      f'emitter {i} copied {len(got)} of {len(want)}, or '
                      'other values'))
            obs.ev('copies')
        obs.ev('huge_lists')
    obs.nontrivial()


def run(case, obs):
    if 'huge' in case:
        return run_huge(case['huge'], obs)
    fields = [make_field(s, i) for i, s in enumerate(case['srcs'])]
    as_one = case['one'] and len(fields) == 1
    sep = case['sep']
    types = case.get('type', 0)
    em = CopyFields(fields[0] if as_one else contain(fields, types), sep)
    check(list(em.source) == fields, 'source')
    obs.ev('containers', not as_one and types % len(CONTAINERS) > 1)
    used = [f.emitter.pos for f in fields]
    check(used == [0] * len(fields), 'making a copy emitter used up values')
    target = Field('copy', em)
    spares = [make_field(s, i + 90) for i, s in enumerate(case['srcs'])]
    schema = Schema(*fields, *spares, target)
    copies = changes = 0

    def is_single():
        return as_one and len(fields) == 1 and not fields[0].multi_valued

    def compare(got, values, what):
        want = expect(values, is_single(), sep)
        if want == '' and sep is not None and not is_single() \
                and all(v in (None, []) for v in values):
            # Nothing to join: no value, or an empty text.
            check(got is None or got == '', lambda: f'{what}: {short(got)} '
                                                    'instead of nothing')
            obs.ev('nothing')
            return
        check_same(got, want, f'{what}: copy of {short(values)}, '
                              f'separator {sep!r}')
        obs.ev('single' if is_single() else
               'nothing' if want is None else
               'lists' if sep is None else 'joined')

    for op in case['ops']:
        check_same(em.single_valued, is_single(), 'single_valued')
        before = [f.emitter.pos for f in fields]
        if op == 'doc':
            schema()
            compare(target.previous, [f.previous for f in fields], 'document')
            copies += 1
            obs.ev('copies')
        elif op == 'stale':
            # A copy is of the latest values, however often it's made.
            values = [f.previous for f in fields]
            for _ in range(2):
                compare(em(), values, 'copying again')
                obs.ev('copies')
            check(before == [f.emitter.pos for f in fields],
                  'copying used up values of the source')
        elif op == 'batch':
            values = [f.previous for f in fields]
            for n in case.get('sizes', (0, 1, 3)):
                got = em(n)
                check(type(got) is list and len(got) == n, 'batch size')
                for g in got:
                    compare(g, values, f'batch of {n}')
                obs.ev('batches')
            check(before == [f.emitter.pos for f in fields],
                  'copying used up values of the source')
        elif op == 'reset':
            values = [f.previous for f in fields]
            em.reset()
            target.reset()
            check(before == [f.emitter.pos for f in fields]
                  and all(a is f.previous for a, f in zip(values, fields)),
                  'reset changed the source fields')
        elif op == 'reset_source':
            em.reset_source()
            check(all(f.emitter.pos == 0 and f.previous is None
                      for f in fields), 'reset_source')
            compare(em(), [None] * len(fields), 'after reset_source')
        elif op == 'sep':
            em.separator = sep = None if sep else '+'
            obs.ev('source_changes')
        elif op == 'inplace':
            # The group of sources is a list, which can be changed.
            changes += 1
            how = (changes * 5 + len(case['ops'])) % 8
            for group in (em.source, fields):
                if how == 0:
                    group.reverse()
                elif how == 1:
                    group.append(group.pop(0))
                elif how == 2:
                    group[-1] = spares[changes % len(spares)]
                elif how == 3:
                    group.append(spares[changes % len(spares)])
                elif how == 4 and len(group) > 1:
                    group.pop()
                elif how == 5:
                    group.insert(0, spares[changes % len(spares)])
                elif how == 6:
                    group[:] = spares
                elif how == 7:
                    group.sort(key=lambda f: f.name[::-1])
            check(list(em.source) == fields, 'source')
            before = [f.emitter.pos for f in fields]
            compare(em(), [f.previous for f in fields],
                    f'after a change ({how}) of the group of sources')
            check(before == [f.emitter.pos for f in fields],
                  'copying used up values of the source')
            obs.ev('inplace')
        elif op == 'swap':
            as_one = len(fields) == 1 and not as_one
            types += 1
            arg = fields[0] if as_one else contain(fields, types)
            if copies % 2:
                em.set_source_fields(arg)
            else:
                em.source = SourceFieldGroup(arg)
            check(list(em.source) == fields, 'source')
            obs.ev('source_changes')
        elif op == 'junk' and not is_single():
            # A copied list isn't the list of the source field.
            got = em()
            if isinstance(got, list):
                kept = [list(f.previous) if isinstance(f.previous, list)
                        else f.previous for f in fields]
                got.append('junk')
                got[:1] = []
                check_same([f.previous for f in fields], kept,
                           'changing a copy changed a source field')
                compare(em(), kept, 'copying again, after changing a copy')
    obs.state(len(fields), as_one, sep, case['ops'][:4])
    if copies > 1:
        obs.nontrivial()
