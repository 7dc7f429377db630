"""C27: anything that follows the emitter protocol can be a child."""
import random

from fauxdoc.emitters import Sequential, Static, Text, WrapMany, WrapOne, Word
from fauxdoc.profile import Field, Schema
from fxmon import schemas, specs
from fxmon.core import check, check_same, short
from fxmon.recorders import Bare

RULE = ('random trees of emitters (and fields) in which children at random '
        'places are replaced by objects that only follow the emitter '
        'protocol; all values are compared with those of the original tree '
        'over calls, resets and seeds; the replacements check each request '
        'that they get; non-trivial: a replacement was called')
REQUIRED = {'values': 15000, 'requests': 30000, 'resets': 3000,
            'seeds': 2000, 'minimal': 1000, 'fields': 500, 'seed_only': 300}
QUICK = 12500
THOROUGH = 160000
SEED_ONLY = ['word', 'text', 'wrap1', 'wrapn', 'deep', 'field', 'schema']


class Proxy:
    """Follows the protocol, and isn't an Emitter."""
    requests = 0

    def __init__(self, em):
        self._em = em

    def __call__(self, number=None):
        Proxy.requests += 1
        check(number is None or type(number) is int and number >= 0,
              lambda: f'a child emitter was called with {number!r}')
        return self._em() if number is None else self._em(number)

    @property
    def num_unique_values(self):
        return self._em.num_unique_values

    @property
    def emits_unique_values(self):
        return self._em.emits_unique_values

    def emit(self, *args):
        check(False, 'a child emitter was used other than by calling it')

    emit_many = __iter__ = __getitem__ = emit

    def __len__(self):
        # User code may have its own idea of a length.
        return 0

    def __eq__(self, other):
        # ... and of equality.
        return isinstance(other, Proxy)

    __hash__ = None


class ResetProxy(Proxy):
    def reset(self):
        self._em.reset()


class RandomProxy(ResetProxy):
    """For those that have RNG."""

    @property
    def replace_only_after_call(self):
        # Text uses this to stay within what a word emitter can emit.
        return self._em.replace_only_after_call

    @property
    def rng(self):
        return self._em.rng

    @property
    def rng_seed(self):
        return self._em.rng_seed

    @rng_seed.setter
    def rng_seed(self, value):
        self._em.rng_seed = value

    def seed(self, rng_seed):
        self._em.seed(rng_seed)


def proxy(em, spec):
    if specs.has_rng(spec):
        return RandomProxy(em)
    return ResetProxy(em)


def build(spec, replace, path=''):
    """Like specs.build, with some of the children replaced."""
    k = spec['k']
    seed = specs.dec(spec.get('seed'))
    kids = {n: build(s, replace, f'{path}/{n}')
            for n, s in specs.children(spec).items()}
    if k == 'word':
        em = Word(kids['length'], kids['alphabet'], rng_seed=seed)
    elif k == 'text':
        em = Text(kids['numwords'], kids['word'], kids.get('sep'),
                  rng_seed=seed)
    elif k == 'wrap1':
        em = WrapOne(kids['source'], specs.ONE[spec['fn']], rng_seed=seed)
    elif k == 'wrapn':
        kids.update((n, kids[m]) for n, m in spec.get('also', {}).items())
        em = WrapMany(kids, specs.MANY[spec['fn']], rng_seed=seed)
    else:
        em = specs.build(spec)
    return proxy(em, spec) if path in replace else em


def paths(spec, path=''):
    out = [path]
    for n, s in specs.children(spec).items():
        out += paths(s, f'{path}/{n}')
    return out


def directed():
    cases = []
    rnd = {'k': 'choice', 'items': {'$range': [0, 50, 1]}}
    word = {'k': 'word', 'len': {'k': 'choice', 'items': [1, 2, 5]},
            'alpha': {'k': 'choice', 'items': 'abcdefgh'}}
    trees = [word, {'k': 'text', 'num': {'k': 'seq', 'items': [2, 0, 3]},
                    'word': word, 'sep': {'k': 'static', 'v': ', '}},
             {'k': 'wrap1', 'src': rnd, 'fn': 'tag_rng'},
             {'k': 'wrapn', 'srcs': {'a': rnd, 'b': word}, 'fn': 'rng'}]
    ops = [['call', None], ['call', 3], ['reset'], ['call', 2], ['seed', 4],
           ['call', 5], ['reset'], ['call', 1], ['call', 0], ['call', 4]]
    for tree in trees:
        for p in paths(tree):
            cases.append({'spec': {**tree, 'seed': 1}, 'replace': [p],
                          'ops': ops})
        cases.append({'spec': {**tree, 'seed': 1}, 'replace': paths(tree),
                      'ops': ops})
    for kind in ('word', 'text', 'wrap1', 'wrapn', 'field', 'gate', 'repeat'):
        cases.append({'minimal': kind, 'n': 4, 'script': [3, 1, 2]})
    for kind in SEED_ONLY:
        for s in specs.SEEDS:
            cases.append({'seed_only': kind, 'n': 5, 'seed': s})
    return cases


def gen_ops(rng, spec):
    ops = []
    for _ in range(rng.randint(1, 4)):
        ops += [['call', c] for c in specs.gen_calls(rng, spec, 1, 4)]
        if rng.random() < 0.5 and specs.has_rng(spec):
            ops.append(['seed', specs.gen_seed(rng)])
        ops.append(['reset'])
    return ops


def gen(rng):
    if rng.random() < 0.06:
        return {'seed_only': rng.choice(SEED_ONLY), 'n': rng.randint(1, 8),
                'seed': specs.gen_seed(rng)}
    if rng.random() < 0.3:
        return {'minimal': rng.choice(['word', 'text', 'wrap1', 'wrapn',
                                       'field', 'gate', 'repeat']),
                'n': rng.randint(1, 7),
                'script': [rng.randint(0, 5)
                           for _ in range(rng.randint(1, 6))]}
    if rng.random() < 0.3:
        fs = {'name': 'f', 'em': schemas.gen_field_emitter(rng),
              'repeat': schemas.gen_repeat(rng), 'gate': schemas.gen_gate(rng),
              'seed': specs.gen_seed(rng)}
        return {'field': fs, 'ops': [
            rng.choice([['call', None]] * 4 + [['reset'], ['seed', 7]])
            for _ in range(rng.randint(2, 12))]}
    while True:
        spec = specs.gen_emitter(rng, rng.choice([1, 2, 3]))
        if specs.children(spec):
            break
    every = paths(spec)
    return {'spec': spec, 'ops': gen_ops(rng, spec),
            'replace': rng.sample(every, rng.randint(1, len(every)))}


def run(case, obs):
    Proxy.requests = 0
    if 'minimal' in case:
        return run_minimal(case, obs)
    if 'seed_only' in case:
        return run_seed_only(case, obs)
    if 'field' in case:
        fs = case['field']
        real = schemas.build_fields([fs])['f']
        parts = {p: proxy(specs.build(fs[p]), fs[p])
                 for p in ('em', 'repeat', 'gate') if fs.get(p)}
        other = Field('f', parts.pop('em'), rng_seed=specs.dec(fs['seed']),
                      **parts)
        # What a repeat emitter without `items` may emit isn't known.
        check_same(other.multi_valued, 'repeat' in parts, 'multi_valued')
        obs.ev('fields')
    else:
        real = build(case['spec'], ())
        other = build(case['spec'], set(case['replace']))
    for op, *args in case['ops']:
        if op == 'call':
            n = args[0]
            want = real() if n is None else real(n)
            got = other() if n is None else other(n)
            check_same(got, want, 'vs. the tree of Emitter objects')
            obs.ev('values', 1 if n is None else n)
        elif op == 'reset':
            real.reset()
            other.reset()
            obs.ev('resets')
        else:
            real.seed(specs.dec(args[0]))
            other.seed(specs.dec(args[0]))
            obs.ev('seeds')
    obs.ev('requests', Proxy.requests)
    obs.state(case.get('replace'), case.get('spec', {}).get('k'))
    if Proxy.requests:
        obs.nontrivial()


class SeedOnly:
    """Is random, and keeps how to itself."""

    num_unique_values = None
    emits_unique_values = False

    def __init__(self, values):
        self._values = values
        self._random = random.Random(99)
        self.seeds = []

    def seed(self, value):
        self.seeds.append(value)
        self._random.seed(value)

    def one(self):
        return self._values[self._random.randrange(len(self._values))]

    def __call__(self, number=None):
        if number is None:
            return self.one()
        return [self.one() for _ in range(number)]


def run_seed_only(case, obs):
    kind, n = case['seed_only'], case['n']
    one, two, three = SeedOnly('abc'), SeedOnly([0, 1, 2, 3]), SeedOnly('-+ ')
    em, kids = {
        'word': lambda: (Word(two, one), [one, two]),
        'text': lambda: (Text(two, one, three), [one, two, three]),
        'wrap1': lambda: (WrapOne(one, str), [one]),
        'wrapn': lambda: (WrapMany({'a': one, 'b': two}, specs.m_dict),
                          [one, two]),
        'deep': lambda: (WrapOne(WrapMany({'a': Word(two, one), 'b': three},
                                          specs.m_dict), repr),
                         [one, two, three]),
        'field': lambda: (Field('f', one, repeat=two, gate=three),
                          [one, two, three]),
        'schema': lambda: (Schema(Field('f', one), Field('g', two)),
                           [one, two])}[kind]()
    seen = []
    for s in (case['seed'], 'other', case['seed']):
        s = specs.dec(s)
        before = [len(k.seeds) for k in kids]
        em.seed_fields(s) if kind == 'schema' else em.seed(s)
        for k, b in zip(kids, before):
            check(len(k.seeds) > b and all(v == s for v in k.seeds[b:]),
                  lambda: f'{kind}: seed({s!r}) gave a child the seeds '
                          f'{k.seeds[b:]}')
        seen.append([em() for _ in range(n)] if kind in ('field', 'schema')
                    else [em(), *em(n)])
        obs.ev('values', n)
        obs.ev('seeds')
    check_same(seen[0], seen[2], f'{kind}: values after the same seed')
    obs.ev('seed_only')
    obs.ev('requests', n)
    obs.nontrivial()


def run_minimal(case, obs):
    """Children with nothing but the two properties and __call__."""
    script = case['script']
    n = case['n']
    kind = case['minimal']
    nums, chars = Bare(script), Bare(['a', 'b', 'c'])

    def both(em):
        for _ in range(2):
            out = [em(), *em(n)] if not isinstance(em, Field) else \
                [em() for _ in range(n + 1)]
            obs.ev('values', n + 1)
            em.reset()
            em.seed(3)
            yield out
    if kind == 'word':
        for out in both(Word(nums, chars)):
            check_same([len(w) for w in out], nums.take(), 'lengths')
            check_same(list(''.join(out)), chars.take(), 'characters')
    elif kind == 'text':
        sep = Bare([' '])
        for out in both(Text(nums, chars, sep)):
            counts = nums.take()
            words = chars.take()
            want = []
            for c in counts:
                want.append(' '.join(words[:c]))
                del words[:c]
            check_same(out, want, 'texts')
    elif kind == 'wrap1':
        em = WrapOne(nums, lambda v: v)
        nums.take()
        for out in both(em):
            check_same(out, nums.take(), 'values')
    elif kind == 'wrapn':
        em = WrapMany({'a': nums, 'b': chars}, lambda a, b: (a, b))
        nums.take(), chars.take()
        for out in both(em):
            check_same(out, list(zip(nums.take(), chars.take())), 'values')
    elif kind == 'field':
        field = Field('f', nums)
        for out in both(field):
            check_same(out, nums.take(), 'values')
        schema = Schema(field)
        schema.reset_fields()
        schema.seed_fields(1)
        check_same([schema()['f'] for _ in range(n)], nums.take(), 'documents')
    elif kind == 'gate':
        for out in both(Field('f', Sequential('xyz'), gate=nums)):
            check_same([v is not None for v in out],
                       [bool(g) for g in nums.take()], 'gated values')
    else:
        field = Field('f', Static('x'), repeat=nums)
        check_same(field.multi_valued, True, 'multi_valued')
        for out in both(field):
            check_same([len(v) if v else 0 for v in out], nums.take(),
                       'repeated values')
    obs.ev('minimal')
    obs.ev('requests', n)
    obs.nontrivial()
