"""C04: seeding."""
import random

from fauxdoc.emitters import Text, Word, WrapMany, WrapOne
from fauxdoc.profile import Field, Schema
from fxmon import drive, specs
from fxmon.core import check, check_same, short
from fxmon.recorders import SeededRecorder

RULE = ('random emitter trees and schemas with an arbitrary history are '
        'seeded with values of several types; what they emit next is compared '
        'with a fresh build that was given that seed; non-trivial: at least '
        'two values were compared')
REQUIRED = {'seed_vs_fresh': 800, 'seed_and_reset_vs_fresh': 800,
            'attr_has_no_effect': 500, 'attr_after_reset': 500,
            'children': 300, 'parts_seeded': 300, 'parts_reset': 300, 'schema': 200, 'unseeded': 5000}
QUICK = 7000
THOROUGH = 100000


def directed():
    cases = []
    calls = [None, 4, 1, 3]
    for kind in KINDS:
        for s in specs.SEEDS:
            cases.append({'parts': kind, 'ops': [
                ['call', 3], ['seed', s], ['call', 2], ['seed', 5], ['reset'],
                ['call', None], ['attr', s], ['call', 4], ['reset'],
                ['call', 1], ['seed', s], ['call', None], ['reset'],
                ['seed', 1], ['call', 2], ['seed', 1]]})
    for s in specs.SEEDS:
        for spec in (
            {'k': 'choice', 'items': {'$range': [0, 999, 1]}},
            {'k': 'choice', 'items': {'$range': [0, 40, 1]}, 'replace': False},
            {'k': 'choice', 'items': {'$range': [0, 40, 1]}, 'roac': True},
            {'k': 'word', 'len': {'k': 'choice', 'items': {'$range': [1, 9, 1]}},
             'alpha': {'k': 'choice', 'items': 'abcdefghijklmnop'}},
            {'k': 'wrap1', 'fn': 'tag_rng', 'src': {
                'k': 'wrapn', 'fn': 'rng', 'srcs': {
                    'a': {'k': 'choice', 'items': {'$range': [0, 40, 1]},
                          'replace': False},
                    'b': {'k': 'word', 'len': {'k': 'static', 'v': 5},
                          'alpha': {'k': 'choice', 'items': 'abcdefgh'}}}}},
        ):
            cases.append({'spec': {**spec, 'seed': 123}, 'seed': s,
                          'history': [3, None], 'calls': calls,
                          'random_only': True})
    for i, (spec, calls) in enumerate(specs.matrix()):
        cases.append({'spec': spec, 'seed': specs.SEEDS[i % 10],
                      'history': calls[:i % 2], 'calls': calls,
                      'random_only': specs.is_random(spec)})
    return cases


KINDS = ['word', 'text', 'text2', 'wrap1', 'wrapn', 'field', 'schema',
         'nested', 'plainfield']


def gen(rng):
    if rng.random() < 0.25:
        return {'parts': rng.choice(KINDS),
                'ops': [rng.choice([['call', rng.choice([None, 0, 1, 3])],
                                    ['seed', specs.gen_seed(rng)], ['reset'],
                                    ['attr', specs.gen_seed(rng)]])
                        for _ in range(rng.randint(2, 14))]}
    random_only = rng.random() < 0.5
    case = drive.gen_subject(rng, random_only=random_only)
    case['random_only'] = random_only
    case['history'] = drive.gen_calls_for(rng, case, 0, 6)
    case['calls'] = drive.gen_calls_for(rng, case, 1, 6)
    case['seed'] = specs.gen_seed(rng)
    return case


def run_parts(case, obs):
    """Seeding reaches all parts, and it does nothing but that: those
    that go through a sequence go on where they are."""
    ints, words = SeededRecorder([2, 0, 3, 1]), SeededRecorder('abcde')
    seps, gate = SeededRecorder([' ', '-']), SeededRecorder([1, 0, 1])
    kind = case['parts']
    first = 'first'
    if kind == 'word':
        em, parts = Word(ints, words, rng_seed=first), [ints, words]
    elif kind == 'text':
        em, parts = Text(ints, words, seps, rng_seed=first), [ints, words, seps]
    elif kind == 'text2':
        em, parts = Text(ints, words, rng_seed=first), [ints, words]
    elif kind == 'wrap1':
        em, parts = WrapOne(words, str, rng_seed=first), [words]
    elif kind == 'wrapn':
        em, parts = WrapMany({'a': words, 'b': ints}, dict,
                             rng_seed=first), [words, ints]
    elif kind == 'nested':
        em = WrapMany({'a': WrapOne(Word(ints, words), str), 'b': seps}, dict,
                      rng_seed=first)
        parts = [ints, words, seps]
    elif kind == 'plainfield':
        em, parts = Field('f', words, rng_seed=first), [words]
    else:
        em = Field('f', words, repeat=ints, gate=gate, rng_seed=first)
        parts = [ints, words, gate]
    seed = first
    # A schema seeds its fields.
    top = Schema(em) if kind == 'schema' else em
    for op, *args in case['ops']:
        args = [specs.dec(a) for a in args]
        before = [(p.pos, p.resets, p.rng_seed, len(p.seeds)) for p in parts]
        if op == 'call':
            if kind in ('field', 'schema', 'plainfield'):
                top()
            else:
                em() if args[0] is None else em(args[0])
        elif op == 'seed':
            last = getattr(em, 'previous', None)
            top.seed_fields(args[0]) if kind == 'schema' else em.seed(args[0])
            seed = args[0]
            check(getattr(em, 'previous', None) is last,
                  f'{kind}: seed changed the last value of a field')
            check_same(em.rng_seed, seed, 'rng_seed after seed')
            for p, (pos, resets, _, seeds) in zip(parts, before):
                check(p.rng_seed == seed and len(p.seeds) > seeds
                      and all(s == seed for s in p.seeds[seeds:]),
                      lambda: f'{kind}: seed({seed!r}) gave a part the seeds '
                              f'{p.seeds[seeds:]}')
                check((p.pos, p.resets) == (pos, resets), lambda: (
                    f'{kind}: seed({seed!r}) took a part from position {pos} '
                    f'to {p.pos} ({p.resets - resets} resets)'))
            obs.ev('parts_seeded')
        elif op == 'attr':
            em.rng_seed = args[0]
            check([(p.pos, p.resets, p.rng_seed, len(p.seeds))
                   for p in parts] == before,
                  'setting rng_seed had an effect before reset')
            seed = args[0]
        else:
            top.reset_fields() if kind == 'schema' else em.reset()
            for p, (_, resets, _, _) in zip(parts, before):
                check(p.pos == 0 and p.resets > resets and p.rng_seed == seed,
                      lambda: f'{kind}: after reset, a part is at {p.pos}, '
                              f'with seed {p.rng_seed!r} (not {seed!r})')
            obs.ev('parts_reset')
        obs.state(kind, op)
    if len(case['ops']) > 2:
        obs.nontrivial()


def generators(obj):
    """The states of all random generators of a tree."""
    out = []
    if isinstance(obj, Schema):
        for field in obj.fields.values():
            out += generators(field)
    else:
        if hasattr(obj, 'rng') and hasattr(obj, 'rng_seed'):
            out.append(obj.rng.getstate())
        for child in getattr(obj, 'emitters', {}).values():
            out += generators(child)
    return out


def run(case, obs):
    if 'parts' in case:
        return run_parts(case, obs)
    s = case['seed']
    calls = case['calls']
    expected = drive.Subject(case, seed=s).drive(calls)

    subject = drive.Subject(case)
    subject.drive(case['history'])
    subject.seed(s)
    if case['random_only']:
        check_same(subject.drive(calls), expected, f'after seed({s!r})')
        obs.ev('seed_vs_fresh')
    subject.reset()
    check_same(subject.drive(calls), expected, f'after seed({s!r}) and reset')
    subject.reset()
    subject.seed(s)
    check_same(subject.drive(calls), expected, f'after reset and seed({s!r})')
    obs.ev('seed_and_reset_vs_fresh')

    # Setting rng_seed alone: no effect until reset.
    subject, twin = drive.Subject(case), drive.Subject(case)
    whole = case['history'] or calls
    half = len(whole) // 2
    subject.drive(whole[:half])
    twin.drive(whole[:half])
    subject.set_rng_seed(s)
    check_same(subject.drive(whole[half:]), twin.drive(whole[half:]),
               'after setting rng_seed, before reset')
    obs.ev('attr_has_no_effect')
    subject.reset()
    check_same(subject.drive(calls), expected,
               f'after setting rng_seed to {s!r}, then reset')
    obs.ev('attr_after_reset')

    # No seed, too, reaches the whole tree.
    for op in ('reset', 'seed'):
        state = generators(subject.obj)
        subject.set_rng_seed(None)
        subject.reset() if op == 'reset' else subject.seed(None)
        fresh = generators(subject.obj)
        check(len(fresh) == len(state), 'the tree changed')
        known = random.Random(specs.dec(s)).getstate()
        for rng, old in zip(fresh, state):
            check(rng not in (known, old), lambda: (
                f'after {op} with no seed, a generator is still that of '
                f'seed({s!r}), or as it was'))
            obs.ev('unseeded')

    # Each child has that seed too.
    if 'spec' in case:
        kids = specs.children(case['spec'])
        if kids:
            subject.reset()
            subject.seed(s)
            for name, kid in kids.items():
                child = subject.obj.emitters[name]
                fresh = specs.build({**kid, 'seed': s} if specs.has_rng(kid)
                                    else kid)
                lim = specs.batch_limit(kid)
                n = 3 if lim is None else min(3, lim)
                cap = specs.capacity(kid)
                n = n if cap is None else min(n, cap)
                check_same(child(n), fresh(n),
                           f'child {name!r} after seed({s!r}) on its parent')
                obs.ev('children')
    else:
        obs.ev('schema')
    obs.state(short(expected, 200))
    if sum(1 if n is None else n for n in calls) > 1:
        obs.nontrivial()
