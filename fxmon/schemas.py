"""JSON-able descriptions of fields and schemas, and how to build them."""
from fauxdoc.emitters import BasedOnFields, CopyFields
from fauxdoc.profile import Field, Schema

from fxmon import specs


def a_one(v):
    return ('one', freeze(v))


def a_one_rng(v, rng):
    return ('one_rng', freeze(v), rng.random())


def a_many(**kw):
    return ('many', tuple((k, freeze(v)) for k, v in kw.items()))


def a_many_rng(rng, **kw):
    return ('many_rng', rng.random(),
            tuple((k, freeze(v)) for k, v in kw.items()))


def freeze(v):
    return ('L',) + tuple(freeze(x) for x in v) if isinstance(v, list) else v


ACT_ONE = {'one': a_one, 'one_rng': a_one_rng}
ACT_MANY = {'many': a_many, 'many_rng': a_many_rng}


def build_field(fs, by_name):
    em = fs['em']
    if em['k'] in ('copy', 'based'):
        src = [by_name[n] for n in em['src']]
        src = src[0] if em.get('one') else src
        if em['k'] == 'copy':
            emitter = CopyFields(src, em.get('sep'))
        else:
            acts = ACT_ONE if len(em['src']) == 1 else ACT_MANY
            emitter = BasedOnFields(src, acts[em['fn']])
    else:
        emitter = specs.build(em)
    kwargs = {}
    if fs.get('repeat'):
        kwargs['repeat'] = specs.build(fs['repeat'])
    if fs.get('gate'):
        kwargs['gate'] = specs.build(fs['gate'])
    return Field(fs['name'], emitter, hide=fs.get('hide', False),
                 rng_seed=specs.dec(fs.get('seed')), **kwargs)


def build_fields(fspecs):
    by_name = {}
    for fs in fspecs:
        by_name[fs['name']] = build_field(fs, by_name)
    return by_name


def build_schema(fspecs):
    return Schema(*build_fields(fspecs).values())


def gen_field_emitter(rng):
    """An emitter with enough values for any field workload here."""
    if rng.random() < 0.15:
        spec = {'k': 'choice', 'items': {'$range': [0, 5000, 1]},
                'replace': False}
        if rng.random() < 0.3:
            spec = {'k': 'wrap1', 'src': spec, 'fn': 'tag'}
        return spec
    while True:
        spec = specs.gen_emitter(rng, 2, seeded=False)
        if specs.capacity(spec) is None and specs.batch_limit(spec) is None:
            return spec


def gen_gate(rng):
    return rng.choice([
        None, None,
        {'k': 'chance', 'p': rng.choice([0, 0.2, 0.5, 0.8, 1])},
        {'k': 'seq', 'items': [rng.random() < 0.6 for _ in range(4)]},
        {'k': 'static', 'v': rng.random() < 0.8},
        {'k': 'choice', 'items': [True, False], 'weights': [3, 1]},
    ])


def gen_repeat(rng):
    return rng.choice([
        None, None, specs.gen_int_emitter(rng, 1, 4),
        specs.gen_int_emitter(rng, 0, 3), {'k': 'static', 'v': None},
        {'k': 'choice', 'items': {'$range': [1, 5, 1]}},
    ])


def gen_fields(rng, lo=1, hi=5, dependents=True, seeds=True):
    fspecs = []
    for i in range(rng.randint(lo, hi)):
        fs = {'name': f'f{i}', 'hide': rng.random() < 0.25,
              'repeat': gen_repeat(rng), 'gate': gen_gate(rng)}
        if dependents and fspecs and rng.random() < 0.35:
            pool = [f['name'] for f in fspecs]
            src = rng.sample(pool, rng.randint(1, min(3, len(pool))))
            one = len(src) == 1 and rng.random() < 0.7
            if rng.random() < 0.5:
                fs['em'] = {'k': 'copy', 'src': src, 'one': one,
                            'sep': rng.choice([None, None, ' ', '; '])}
            else:
                fn = rng.choice(['', '_rng'])
                base = 'one' if len(src) == 1 else 'many'
                fs['em'] = {'k': 'based', 'src': src, 'one': one,
                            'fn': base + fn}
            if rng.random() < 0.6:
                fs['repeat'] = fs['gate'] = None
        else:
            fs['em'] = gen_field_emitter(rng)
        if seeds and rng.random() < 0.8:
            fs['seed'] = specs.gen_seed(rng)
        fspecs.append(fs)
    return fspecs
