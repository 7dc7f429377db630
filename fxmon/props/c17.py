"""C17: BasedOnFields applies its action to what the sources emitted."""
import functools
import random

from fauxdoc.emitters import BasedOnFields, Choice, Sequential, Static
from fauxdoc.emitters.fromfields import SourceFieldGroup
from fauxdoc.emitters.wrappers import BoundWrapper
from fauxdoc.profile import Field, Schema
from fxmon import specs
from fxmon.core import check, check_same, raises, short
from fxmon.props.c16 import CONTAINERS, contain, make_field, NESTED, SIZES, WHOLE
from fxmon.recorders import Recorder

RULE = ('random source fields, kinds of actions and histories; the action logs '
        'its arguments, which are compared with the values that the sources '
        'returned in that document, and random draws with those of a separate '
        'random.Random; non-trivial: at least two values')
REQUIRED = {'values': 10000, 'rng_draws': 2000, 'constructions': 4000,
            'action_changes': 800,
            'action_assignments': 800, 'other_sources': 800, 'rejected': 500,
            'batches': 1000, 'containers': 3000,
            'inplace': 3000, 'set_again': 1000}
QUICK = 25000
THOROUGH = 630000
KINDS = ['plain', 'rng', 'kwrng', 'default_rng', 'own_rng', 'partial',
         'object', 'method', 'builtin']
RNG_KINDS = ('rng', 'kwrng', 'default_rng', 'own_rng')
NAMES = ['self', 'args', 'kwargs', 'value', 'a b', 'ä', '', '0', 'class', 'x-y',
         'source', 'action', 'fields', '_self', 'name', 'function']
# What an action may use when it is not called by an emitter.
OWN = random.Random('own')


def directed():
    cases = []
    one = {'vals': [1, 0, 'x', '', False, None], 'repeats': None, 'gates': None}
    multi = {'vals': ['a', 0, ''], 'repeats': [2, 0, 1, 3], 'gates': None}
    gated = {'vals': ['g', 1], 'repeats': None, 'gates': [True, False]}
    whole = {'vals': WHOLE + NESTED, 'repeats': None, 'gates': None}
    wholes = {'vals': WHOLE + NESTED, 'repeats': [2, 3], 'gates': None}
    for srcs in ([one], [multi], [gated], [whole], [wholes],
                 [whole, wholes, one], [one, multi], [gated, one, multi]):
        for kind in KINDS:
            for as_one in (True, False):
                cases.append({'srcs': srcs, 'one': as_one, 'kind': kind,
                              'seed': 5, 'ops': ['doc'] * 6 + [
                                  'reset', 'doc', 'stale', 'batch', 'seed',
                                  'doc', 'reset_source', 'doc', 'action',
                                  'doc', 'seed_source', 'doc', 'bad', 'doc',
                                  'others', 'doc', 'stale', 'others', 'batch',
                                  'doc', 'assign', 'doc', 'assign', 'doc']
                              + ['inplace', 'doc', 'inplace'] * 3})
    # Batches of many sizes.
    for srcs in ([one], [multi], [one, multi], [gated]):
        for kind in KINDS:
            cases.append({'srcs': srcs, 'one': True, 'kind': kind, 'seed': 5,
                          'sizes': SIZES, 'ops': ['doc', 'batch', 'doc',
                                                  'batch']})
    # Long values, many values, many fields.
    for n in (20, 64, 100, 256, 300, 1000):
        long = {'vals': ['x' * 9 * n, 'y', ''], 'repeats': None, 'gates': None}
        many = {'vals': ['a', 0, '', 'b'], 'repeats': [9 * n, 1],
                'gates': None}
        for srcs in ([long], [long, one], [many], [many, many],
                     [one, multi, gated] * (n // 3)):
            for kind in KINDS:
                cases.append({'srcs': srcs, 'one': len(srcs) == 1,
                              'kind': kind, 'seed': 5,
                              'ops': ['doc', 'doc', 'batch', 'doc']})
    for func in ('int', 'float', 'max', 'chr'):
        cases.append({'reject_none': func})
    cases.append({'readme': True})
    cases.append({'again': True})
    return cases


def gen(rng):
    def src():
        return {
            'vals': [rng.choice([None, 0, 1, '', 'a', False, True, 2.5,
                                 *WHOLE])
                     for _ in range(rng.randint(1, 5))],
            'repeats': rng.choice([None, [rng.randint(0, 3)
                                          for _ in range(rng.randint(1, 4))]]),
            'gates': rng.choice([None, [rng.random() < 0.5
                                        for _ in range(rng.randint(1, 4))]])}
    srcs = [src() for _ in range(rng.choice([1, 1, 2, 3]))]
    names = rng.sample(NAMES, len(srcs)) if rng.random() < 0.2 else None
    return {'srcs': srcs, 'names': names,
            'type': rng.randint(0, 7),
            'one': rng.random() < 0.6, 'kind': rng.choice(KINDS),
            'seed': rng.choice([0, 1, 'x', 12345]),
            'ops': [rng.choice(['doc'] * 6 + [
                'batch', 'reset', 'reset_source', 'seed_source', 'seed',
                'stale', 'action', 'bad', 'swap', 'others', 'others',
                'assign', 'inplace', 'inplace'])
                for _ in range(rng.randint(2, 15))]}


def make_action(kind, single, log):
    """Returns an action, and whether it draws random numbers."""
    def note(args, kwargs, rng=None):
        draw = rng.random() if rng is not None else None
        log.append((args, kwargs, draw))
        return ('result', len(log), draw)

    if single:
        if kind in RNG_KINDS:
            return {'rng': lambda v, rng: note((v,), {}, rng),
                    'own_rng': lambda v, rng=OWN: note((v,), {}, rng),
                    'kwrng': lambda v, *, rng: note((v,), {}, rng),
                    'default_rng': lambda v, rng=None: note((v,), {}, rng)
                    }[kind], True

        def plain(v):
            return note((v,), {})
    else:
        if kind in RNG_KINDS:
            return {'rng': lambda rng, **kw: note((), kw, rng),
                    'own_rng': lambda *, rng=OWN, **kw: note((), kw, rng),
                    'kwrng': lambda *, rng, **kw: note((), kw, rng),
                    'default_rng': lambda rng=None, **kw: note((), kw, rng)
                    }[kind], True

        def plain(**kw):
            return note((), kw)

    class Obj:
        def __call__(this, /, *args, **kwargs):
            return plain(*args, **kwargs)

        def method(this, /, *args, **kwargs):
            return plain(*args, **kwargs)
    return {'plain': plain, 'partial': functools.partial(plain),
            'object': Obj(), 'method': Obj().method,
            'builtin': plain}[kind], False


def run(case, obs):
    if 'reject_none' in case:
        return run_reject_none(case['reject_none'], obs)
    if case.get('again'):
        return run_again(obs)
    if case.get('readme'):
        return run_readme(obs)
    # Any text can be the name of a field.
    names = case.get('names') or ['s{}'] * len(case['srcs'])
    fields = [make_field(s, i, names[i]) for i, s in enumerate(case['srcs'])]
    spares = [make_field(s, i + 10, names[i] + '+' * (names[i] != 's{}'))
              for i, s in enumerate(case['srcs'])]
    as_one = case['one'] and len(fields) == 1
    single = len(fields) == 1
    log = []
    kind = case['kind']
    builtin = kind == 'builtin' and single
    action, wants = (str, False) if builtin \
        else make_action(kind, single, log)
    seed = case['seed']
    # The sources have a history already: it must not be disturbed.
    if seed == 1:
        for f in fields:
            f()

    def status():
        return [(f.emitter.pos, f.previous, f.emitter.resets) for f in fields]
    before = status()
    types = case.get('type', 0)
    em = BasedOnFields(fields[0] if as_one else contain(fields, types), action,
                       rng_seed=seed)
    check(list(em.source) == fields, 'source')
    obs.ev('containers', not as_one and types % len(CONTAINERS) > 1)
    check_same(status(), before, 'making the emitter changed the source fields'
                                 ' (values emitted, previous value, resets)')
    check_same(em.rng_seed, seed, 'rng_seed')
    obs.ev('constructions')
    rng = random.Random(seed)
    target = Field('based', em, rng_seed=seed)
    everything = fields + spares
    schema = Schema(*fields, *spares, target)
    log.clear()
    values = moves = 0

    def compare(got, vals, what):
        if builtin:
            check_same(got, str(vals[0]), what)
            return
        check(len(log) == 1, lambda: f'{what}: the action was called '
                                     f'{len(log)} times')
        args, kwargs, draw = log[0]
        if single:
            check_same((args, kwargs), ((vals[0],), {}), f'{what}: arguments')
            check(args[0] is vals[0], f'{what}: the action got a copy')
        else:
            check_same((args, kwargs),
                       ((), {f.name: v for f, v in zip(fields, vals)}),
                       f'{what}: arguments')
            check(all(kwargs[f.name] is v for f, v in zip(fields, vals)),
                  f'{what}: the action got a copy')
        if wants:
            check_same(draw, rng.random(), f'{what}: random number')
            obs.ev('rng_draws')
        check_same(got, ('result', 1, draw), f'{what}: result')
        log.clear()

    for op in case['ops']:
        was = status()
        if op == 'doc':
            schema()
            compare(target.previous, [f.previous for f in fields], 'document')
            values += 1
            obs.ev('values')
        elif op == 'stale':
            for _ in range(2):
                compare(em(), [f.previous for f in fields], 'again')
                obs.ev('values')
            check_same(status(), was, 'source fields after emitting')
        elif op == 'batch':
            vals = [f.previous for f in fields]
            for n in case.get('sizes', (0, 1, 4)):
                log.clear()
                got = em(n)
                check(type(got) is list and len(got) == n, 'batch size')
                results = {('result', i + 1, d)
                           for i, (_, _, d) in enumerate(log)}
                for g in got:
                    if builtin:
                        check_same(g, str(vals[0]), f'batch of {n}')
                    else:
                        check(g in results, 'result in a batch')
                for args, kwargs, draw in log:
                    check_same(list(args or kwargs.values()), vals,
                               f'batch of {n}: arguments')
                    if wants:
                        check_same(draw, rng.random(), 'random number')
            obs.ev('batches')
            check_same(status(), was, 'source fields after emitting')
            log.clear()
        elif op in ('reset', 'seed'):
            if op == 'reset':
                (em if values % 2 else target).reset()
            else:
                seed = f'{seed}+'
                (em if values % 2 else target).seed(seed)
                em.rng_seed = target.rng_seed = seed
            rng = random.Random(seed)
            check_same(status(), was, f'source fields after {op}')
            check(not log, f'the action was called by {op}')
        elif op == 'reset_source':
            em.reset_source()
            check(all(f.emitter.pos == 0 and f.previous is None
                      for f in fields), 'reset_source')
        elif op == 'seed_source':
            em.seed_source('src')
            check(all(f.rng_seed == 'src' for f in fields), 'seed_source')
        elif op == 'action':
            builtin = False
            kind = KINDS[(KINDS.index(kind) + 1) % 8]
            action, wants = make_action(kind, single, log)
            if values % 2:
                em.set_action_function(action)
            else:
                em.action = BoundWrapper(action, em)
            check_same(status(), was, 'source fields after setting the action')
            rng = random.Random(em.rng_seed)
            log.clear()
            obs.ev('action_changes')
        elif op == 'bad':
            def wrong(a, b, c, d, e):
                pass
            arg = fields[0] if as_one else fields
            for func in (wrong, lambda: 1, lambda x_, y_: 1):
                raises(TypeError, BasedOnFields, arg, func)
                obs.ev('rejected')
            # (This may use up values: they are in the error message.)
            log.clear()
        elif op == 'assign':
            builtin = False
            kind = KINDS[(KINDS.index(kind) + 1) % 8]
            action, wants = make_action(kind, single, log)
            em.action.function = action
            check_same(status(), was,
                       'source fields after setting action.function')
            log.clear()
            obs.ev('action_assignments')
        elif op == 'others':
            # Some of the sources (in turn) are replaced by other fields.
            i = moves % len(fields)
            moves += 1
            fields[i], spares[i] = spares[i], fields[i]
            was = status()
            types += 1
            arg = fields[0] if as_one else contain(fields, types)
            if values % 2:
                em.set_source_fields(arg)
            else:
                em.source = SourceFieldGroup(arg)
            check(list(em.source) == fields, 'source')
            check_same(status(), was, 'source fields after setting the source')
            obs.ev('other_sources')
        elif op == 'inplace':
            # The group of sources is a list, which can be changed.
            moves += 1
            i = moves % len(fields)
            for group in (em.source, fields):
                if moves % 3 == 0:
                    group.reverse()
                elif moves % 3 == 1:
                    group.append(group.pop(0))
                else:
                    group[i] = spares[i]
            if moves % 3 == 2:
                spares[i] = next(f for f in everything if f not in fields
                                 and f not in spares)
            was = status()
            compare(em(), [f.previous for f in fields], 'changed sources')
            check_same(status(), was, 'source fields after emitting')
            obs.ev('inplace')
        elif op == 'swap' and single:
            as_one = not as_one
            types += 1
            arg = fields[0] if as_one else contain(fields, types)
            if values % 2:
                em.set_source_fields(arg)
            else:
                em.source = SourceFieldGroup(arg)
            check(list(em.source) == fields, 'source')
            check_same(status(), was, 'source fields after setting the source')
    obs.state(kind, len(fields), as_one, case['ops'][:4])
    if values > 1:
        obs.nontrivial()


def run_reject_none(name, obs):
    """Known finding: builtins without signature are tried with a value."""
    func = {'int': int, 'float': float, 'max': max, 'chr': chr}[name]
    value = [3, 4] if name == 'max' else 65
    field = Field('n', Recorder([value]))
    BasedOnFields(field, func)
    obs.ev('constructions')
    check(field.emitter.pos == 0, lambda: (
        f'BasedOnFields(field, {name}) used up {field.emitter.pos} values of '
        'the source field'), mech='builtin-action-rejects-none')


def run_again(obs):
    """The same action is set again after the sources were changed."""
    a, b = (Field(n, Recorder([n, n + n])) for n in 'ab')
    a(), b()

    def of_one(value):
        return ('one', value)

    def of_both(a, b):
        return ('both', a, b)

    def of_both_rng(a, b, rng):
        return ('both', a, b, rng.random())
    for number in range(40):
        for one, both in ((of_one, of_both), (of_one, of_both_rng)):
            for how in ('group', 'set', 'inplace'):
                em = BasedOnFields(a, one, rng_seed=number)
                steps = [([a, b], one, both), (a, both, one), (b, both, one),
                         ([b, a], one, both)]
                for fields, bad, good in steps:
                    arg = fields if isinstance(fields, list) else [fields]
                    if how == 'group':
                        em.source = SourceFieldGroup(fields)
                    elif how == 'set':
                        em.set_source_fields(fields)
                    else:
                        em.source[:] = arg
                    for func in (bad, bad, good, good):
                        if func is bad:
                            raises(TypeError, em.set_action_function, bad)
                            raises(TypeError, setattr, em, 'action',
                                   BoundWrapper(bad, em))
                            obs.ev('rejected')
                            continue
                        em.set_action_function(good)
                        draws = random.Random(number)
                        for _ in range(2):
                            want = (('one', arg[0].previous) if good is one
                                    else ('both', a.previous, b.previous))
                            if good is of_both_rng:
                                want += (draws.random(),)
                            check_same(em(), want, 'action that was set again')
                            obs.ev('set_again')
            a(), b()
    obs.nontrivial()


def run_readme(obs):
    """An id without replacement is a source: no id may get lost."""
    for n in (1, 2, 5, 50):
        ids = Field('id', Choice(range(n), replace=False), rng_seed=n)
        url = Field('url', BasedOnFields(ids, lambda i: f'/item/{i}'))
        both = Field('both', BasedOnFields(
            [ids, url], lambda id, url, rng: (id, url, rng.random() < 1)))
        schema = Schema(ids, url, both)
        docs = [schema() for _ in range(n)]
        check_same(sorted(d['id'] for d in docs), list(range(n)), 'ids')
        for d in docs:
            check_same((d['url'], d['both']),
                       (f'/item/{d["id"]}', (d['id'], d['url'], True)), 'url')
    first = Field('item_id', Sequential(range(1, 100)))
    title = Field('title', BasedOnFields(first, lambda v: f't{v}'))
    check_same(Schema(first, title)(), {'item_id': 1, 'title': 't1'},
               'first document')
    obs.ev('values', 4)
    obs.nontrivial()
