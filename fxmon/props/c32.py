"""C32: documents hold together, however their fields depend on each other."""
from fauxdoc.emitters import (
    BasedOnFields, CopyFields, Sequential, Text, Word, WrapMany, WrapOne
)
from fauxdoc.profile import Field, Schema
from fxmon.core import check_same, short

RULE = ('random schemas whose fields depend on each other in several steps '
        '(values, gates, numbers of values, words, texts and wrappers that '
        'are based on or copied from fields), also shared by two schemas, '
        'hidden, removed, called on their own and reset; each value is '
        'compared with that of an interpreter of the same schema; '
        'non-trivial: at least two documents with a field that depends on '
        'another one')
REQUIRED = {'documents': 10000, 'dependent_values': 15000, 'chains': 5000,
            'dependent_gates': 2000, 'dependent_repeats': 2000,
            'nested_dependents': 3000, 'own_calls': 1500, 'removals': 400,
            'resets': 500, 'set_fields': 500, 'second_schema': 1500}
QUICK = 15000
THOROUGH = 330000


# Actions have to take whatever a field may have as its last value.
def size(v):
    return len(v) if isinstance(v, list) else 0 if v is None else 1


def f_repr(v):
    return repr(v)


def f_same(v):
    return v


def f_truth(v):
    return bool(v)


def f_pair(v):
    return [v, size(v)]


def f_part(v):
    return v[1:] if isinstance(v, list) else None


ONE = {'repr': f_repr, 'same': f_same, 'truth': f_truth, 'pair': f_pair,
       'part': f_part, 'size': size}


def g_items(**kw):
    return [[k, v] for k, v in kw.items()]


def g_total(**kw):
    return sum(size(v) for v in kw.values())


def g_first(**kw):
    return next((v for v in kw.values() if v is not None), None)


MANY = {'items': g_items, 'total': g_total, 'first': g_first}


def directed():
    def seq(*items):
        return {'k': 'seq', 'items': list(items)}

    def based(*src, fn=None):
        return {'k': 'based', 'src': list(src),
                'fn': fn or ('same' if len(src) == 1 else 'items')}

    def copy(*src, one=True, sep=None):
        return {'k': 'copy', 'src': list(src), 'one': one, 'sep': sep}

    def f(em, repeat=None, gate=None, hide=False):
        return {'em': em, 'repeat': repeat, 'gate': gate, 'hide': hide}
    cases = []
    items = f(seq('a', 'b', 'c', 'd', 'e'), seq(3, 0, 1, 2, 5), hide=True)
    gated = f(seq('x', 0, None), None, seq(True, False))
    for base in (items, gated, f(seq(0, 1, 2, 3)), f(seq('', 'ab'), seq(None))):
        for dep in (copy(0), copy(0, one=False), copy(0, sep='-'), based(0),
                    based(0, fn='part'), based(0, fn='size'),
                    {'k': 'wrap1', 'src': copy(0), 'fn': 'repr'},
                    {'k': 'wrapn', 'srcs': {'a': based(0), 'b': seq(1, 2)},
                     'fn': 'items'},
                    {'k': 'text', 'num': based(0, fn='size'),
                     'word': seq('w', 'v'), 'sep': None},
                    {'k': 'text', 'num': seq(2, 3), 'sep': seq('-', '+'),
                     'word': {'k': 'wrap1', 'src': copy(0), 'fn': 'repr'}},
                    {'k': 'word', 'len': based(0, fn='size'),
                     'alpha': seq('p', 'q', 'r')}):
            for extra in ({}, {'gate': based(0, fn='truth')},
                          {'repeat': based(0, fn='size')},
                          {'gate': based(0, fn='truth'),
                           'repeat': based(0, fn='size')},
                          {'gate': copy(0)}):
                cases.append({
                    'fields': [base, f(dep, **extra), f(copy(1)),
                               f(based(2, 0)), f(copy(3, 1, sep='|'))],
                    'second': [0, 2, 4], 'ops': [
                        ['doc']] * 6 + [['own', 0], ['doc'], ['second'],
                                        ['doc'], ['hide', 0], ['doc'],
                                        ['reset'], ['doc'], ['doc'],
                                        ['remove', 0], ['doc'], ['own', 0],
                                        ['doc'], ['readd', 0], ['doc'],
                                        ['reset_one', 0], ['doc'],
                                        ['second'], ['own', 2], ['doc'],
                                        ['set', 0], ['doc'], ['set', 3],
                                        ['doc'], ['doc']]})
    return cases


def gen_seq(rng, kind):
    if kind == 'number':
        pool = [0, 1, 1, 2, 3]
    elif kind == 'repeat':
        pool = [0, 1, 2, 3] if rng.random() < 0.8 else [None, None, 2]
    elif kind == 'gate':
        pool = [True, True, False, 0, 1, '', 'x', None]
    elif kind == 'text':
        pool = ['a', 'b', '', 'cd', ' ', 'é']
    else:
        pool = [None, 0, 1, '', 'a', 'bc', True, False, 2.5, [], [1], {}]
    return {'k': 'seq', 'items': [rng.choice(pool)
                                  for _ in range(rng.randint(1, 5))]}


def gen_em(rng, n, kind, depth=2):
    """An emitter that may depend on the fields before number n."""
    r = rng.random()
    if not n or r < 0.25 or depth <= 0 and r < 0.5:
        return gen_seq(rng, kind)
    src = rng.sample(range(n), rng.choice([1, 1, 1, min(n, 2), min(n, 3)]))
    if kind in ('number', 'repeat'):
        return {'k': 'based', 'src': src,
                'fn': 'size' if len(src) == 1 else 'total'}
    if kind == 'text':
        if r < 0.7 or depth <= 0:
            return {'k': 'copy', 'src': src, 'one': False,
                    'sep': rng.choice(['', '-'])}
        return {'k': 'wrap1', 'fn': 'repr',
                'src': gen_em(rng, n, 'any', depth - 1)}
    kinds = ['copy', 'copy', 'based', 'based']
    if depth > 0:
        kinds += ['wrap1', 'wrapn', 'text', 'word']
    k = rng.choice(kinds)
    if k == 'copy':
        return {'k': k, 'src': src, 'one': len(src) == 1 and
                rng.random() < 0.7, 'sep': rng.choice([None, None, '', '; '])}
    if k == 'based':
        return {'k': k, 'src': src, 'fn': rng.choice(sorted(
            ONE if len(src) == 1 else MANY))}
    if k == 'wrap1':
        return {'k': k, 'src': gen_em(rng, n, 'any', depth - 1),
                'fn': rng.choice(sorted(ONE))}
    if k == 'wrapn':
        return {'k': k, 'fn': rng.choice(sorted(MANY)), 'srcs': {
            name: gen_em(rng, n, 'any', depth - 1)
            for name in rng.sample('abcd', rng.randint(1, 3))}}
    if k == 'word':
        return {'k': k, 'len': gen_em(rng, n, 'number', depth - 1),
                'alpha': gen_em(rng, n, 'text', depth - 1)}
    return {'k': k, 'num': gen_em(rng, n, 'number', depth - 1),
            'word': gen_em(rng, n, 'text', depth - 1),
            'sep': rng.choice([None, gen_em(rng, n, 'text', depth - 1)])}


def gen(rng):
    n = rng.randint(2, 7)
    fields = []
    for i in range(n):
        fields.append({
            'em': gen_em(rng, i, 'any'), 'hide': rng.random() < 0.25,
            'repeat': rng.choice([None, None, gen_em(rng, i, 'repeat', 0)]),
            'gate': rng.choice([None, None, gen_em(rng, i, 'gate', 1)])})
    ops = []
    for _ in range(rng.randint(3, 16)):
        op = rng.choice(['doc'] * 8 + ['second', 'second', 'own', 'own',
                                       'reset', 'reset_one', 'hide',
                                       'remove', 'readd', 'seed', 'set'])
        ops.append([op, rng.randrange(n)])
    return {'fields': fields, 'ops': ops,
            'second': sorted(rng.sample(range(n), rng.randint(1, n)))}


# -- the interpreter ------------------------------------------------------

class Model:
    """A field (or an emitter) of the interpreter."""

    def __init__(self, spec, fields):
        self.spec, self.fields = spec, fields
        self.pos = 0
        self.parts = {}
        for key in ('em', 'repeat', 'gate', 'src', 'num', 'word', 'sep',
                    'len', 'alpha'):
            if isinstance(spec.get(key), dict):
                self.parts[key] = Model(spec[key], fields)
        for key, s in spec.get('srcs', {}).items():
            self.parts['srcs', key] = Model(s, fields)
        self.previous = None

    def reset(self):
        self.pos = 0
        self.previous = None
        for part in self.parts.values():
            part.reset()

    def call(self):
        """The next value of a field."""
        gate, repeat = self.parts.get('gate'), self.parts.get('repeat')
        self.previous = None
        if gate is None or gate.get(1)[0]:
            n = repeat.get(1)[0] if repeat else None
            values = self.parts['em'].get(1 if n is None else n)
            self.previous = values[0] if n is None else values
        return self.previous

    @property
    def multi(self):
        repeat = self.spec['repeat']
        return repeat is not None and (
            repeat['k'] != 'seq' or any(v is not None
                                        for v in repeat['items']))

    def get(self, n):
        """The next n values of an emitter."""
        spec, parts = self.spec, self.parts
        k = spec['k']
        if k == 'seq':
            items = spec['items']
            self.pos += n
            return [items[i % len(items)] for i in range(self.pos - n,
                                                         self.pos)]
        if k == 'copy':
            sources = [self.fields[i] for i in spec['src']]
            if spec['one'] and not sources[0].multi:
                return [sources[0].previous] * n
            flat = []
            for source in sources:
                v = source.previous
                if v is not None:
                    flat += v if isinstance(v, list) else [v]
            if spec['sep'] is None:
                return [flat or None] * n
            return [spec['sep'].join(str(v) for v in flat)] * n
        if k == 'based':
            if len(spec['src']) == 1:
                return [ONE[spec['fn']](self.fields[spec['src'][0]].previous)
                        for _ in range(n)]
            return [MANY[spec['fn']](**{
                f'f{i}': self.fields[i].previous for i in spec['src']})
                for _ in range(n)]
        if k == 'wrap1':
            return [ONE[spec['fn']](v) for v in parts['src'].get(n)]
        if k == 'wrapn':
            streams = {key[1]: part.get(n) for key, part in parts.items()}
            return [MANY[spec['fn']](**{key: s[i]
                                        for key, s in streams.items()})
                    for i in range(n)]
        if k == 'word':
            lens = parts['len'].get(n)
            chars = parts['alpha'].get(sum(lens))
            return [''.join(chars.pop(0) for _ in range(x)) for x in lens]
        nums = parts['num'].get(n)
        words = parts['word'].get(sum(nums))
        number = sum(max(x - 1, 0) for x in nums)
        seps = parts['sep'].get(number) if 'sep' in parts else [' '] * number
        return [''.join((seps.pop(0) if i else '') + words.pop(0)
                        for i in range(x)) for x in nums]


def build(spec, fields):
    k = spec['k']
    if k == 'seq':
        return Sequential(spec['items'])
    if k == 'copy':
        src = [fields[i] for i in spec['src']]
        return CopyFields(src[0] if spec['one'] else src, spec['sep'])
    if k == 'based':
        src = [fields[i] for i in spec['src']]
        if len(src) == 1:
            return BasedOnFields(src[0], ONE[spec['fn']])
        return BasedOnFields(src, MANY[spec['fn']])
    if k == 'wrap1':
        return WrapOne(build(spec['src'], fields), ONE[spec['fn']])
    if k == 'wrapn':
        return WrapMany({key: build(s, fields)
                         for key, s in spec['srcs'].items()},
                        MANY[spec['fn']])
    if k == 'word':
        return Word(build(spec['len'], fields), build(spec['alpha'], fields))
    return Text(build(spec['num'], fields), build(spec['word'], fields),
                build(spec['sep'], fields) if spec['sep'] else None)


def depends(spec):
    """How a field or emitter depends on other fields."""
    if not isinstance(spec, dict):
        return False
    return spec.get('k') in ('copy', 'based') or any(
        depends(v) for v in spec.values())


def run(case, obs):
    specs = case['fields']
    fields, models = [], []
    for i, spec in enumerate(specs):
        kwargs = {key: build(spec[key], fields) for key in ('repeat', 'gate')
                  if spec[key]}
        fields.append(Field(f'f{i}', build(spec['em'], fields),
                            hide=spec['hide'], rng_seed=i, **kwargs))
        models.append(Model(spec, models))
    schema = Schema(*fields)
    inside = list(range(len(fields)))
    second = Schema(*(fields[i] for i in case['second']))
    dependent = [depends(s['em']) for s in specs]
    nested = [dependent[i] and s['em']['k'] not in ('copy', 'based')
              for i, s in enumerate(specs)]
    documents = 0

    def document(which, members, what):
        got = which()
        want = {}
        for i in members:
            value = models[i].call()
            if not specs_hide[i]:
                want[f'f{i}'] = value
            obs.ev('dependent_values', dependent[i])
            obs.ev('nested_dependents', nested[i])
            obs.ev('dependent_gates', depends(specs[i]['gate']))
            obs.ev('dependent_repeats', depends(specs[i]['repeat']))
        check_same(got, want, what)
        previous(what)

    def previous(what):
        for field, model in zip(fields, models):
            check_same(field.previous, model.previous,
                       f'{what}: last value of {field.name}')

    specs_hide = [s['hide'] for s in specs]
    previous('at first')
    for number, (op, *args) in enumerate(case['ops']):
        i = args[0] if args else 0
        what = f'step {number}, {op} {args}'
        if op == 'doc':
            document(schema, inside, what)
            documents += 1
            obs.ev('documents')
            obs.ev('chains', sum(dependent) - 1 if any(dependent) else 0)
        elif op == 'second':
            document(second, case['second'], what)
            obs.ev('second_schema')
        elif op == 'own':
            check_same(fields[i](), models[i].call(), what)
            obs.ev('own_calls')
        elif op == 'reset':
            schema.reset_fields()
            for j in inside:
                models[j].reset()
            obs.ev('resets')
        elif op == 'reset_one':
            fields[i].reset()
            models[i].reset()
        elif op == 'seed':
            # Nothing here is random.
            schema.seed_fields(number)
        elif op == 'hide':
            fields[i].hide = specs_hide[i] = not specs_hide[i]
        elif op == 'remove' and i in inside:
            inside.remove(i)
            del schema.fields[f'f{i}']
            obs.ev('removals')
        elif op == 'set':
            inside = [j for j in range(len(fields)) if (i + j) % 3]
            if i % 2:
                inside.reverse()
            schema.set_fields(*(fields[j] for j in inside))
            obs.ev('set_fields')
        elif op == 'readd' and i not in inside:
            inside.append(i)
            schema.add_fields(fields[i])
        previous(what)
        obs.state(op, sum(dependent), short(specs[i]['em']['k']))
    if documents > 1 and any(dependent):
        obs.nontrivial()
