"""JSON-able descriptions of emitters, and how to build them.

A case is fully described by JSON, so that it can be replayed.  `build`
makes the real object through the public API; `domain` gives, from the
description alone, a predicate for the values it may emit.
"""
import collections.abc
import datetime as dt
import decimal
import itertools

from fauxdoc import dtrange as dtrange_mod
from fauxdoc.emitter import Emitter
from fauxdoc.emitters import (
    BasedOnFields, chance, Choice, CopyFields, gaussian_choice, Iterative,
    poisson_choice, Sequential, Static, Text, Word, WrapMany, WrapOne
)

SEEDS = [0, 1, 2, 999, -5, 2**70, 'seed', '', 1.5, 0.1,
         {'$bytes': 'seed'}, {'$bytes': ''}, ' Seed\n\u00c9\u0130', '17',
         {'$bytes': 'Seed '}, True, -2**65 - 1, 2**700 + 1, -1.25, 1e300,
         'x' * 2000]


# -- values -------------------------------------------------------------

def dec(v):
    """Decodes a JSON value into a Python value."""
    if isinstance(v, dict):
        (tag, arg), = v.items()
        return {
            '$tuple': lambda: tuple(dec(a) for a in arg),
            '$seq': lambda: UserSeq(dec(a) for a in arg),
            '$range': lambda: range(*arg),
            '$date': lambda: dt.date.fromisoformat(arg),
            '$datetime': lambda: dt.datetime.fromisoformat(arg),
            '$time': lambda: dt.time.fromisoformat(arg),
            '$dtrange': lambda: dtrange_mod.dtrange(*arg),
            '$bytes': lambda: arg.encode(),
            '$dict': lambda: {k: dec(a) for k, a in arg.items()},
            '$set': lambda: frozenset(dec(a) for a in arg),
            '$mset': lambda: {dec(a) for a in arg},
            '$decimal': lambda: decimal.Decimal(arg),
            '$bytearray': lambda: bytearray(arg.encode()),
        }[tag]()
    if isinstance(v, list):
        return [dec(a) for a in v]
    return v


class UserSeq(collections.abc.Sequence):
    """A user-defined sequence type, with no more than it has to have."""

    def __init__(self, values):
        self.values = tuple(values)

    def __len__(self):
        return len(self.values)

    def __getitem__(self, index):
        return self.values[index]

    def __eq__(self, other):
        return type(self) is type(other) and self.values == other.values

    __hash__ = None


def gen_items(rng, lo=1, hi=8, unique=None, hashable=True, big=0.06):
    """Generates an encoded sequence of items for a choice emitter."""
    n = rng.randint(lo, hi)
    if big and rng.random() < big:
        n = rng.choice([9, 10, 11, 16, 17, 21, 25, 32, 50, 64, 65, 100, 101,
                        128, 150, 200, 256, 300])
    unique = rng.random() < 0.6 if unique is None else unique
    kind = rng.choice(['list', 'list', 'tuple', 'str', 'range', 'dtrange',
                       'seq', 'mixed'] + ([] if hashable else ['nested'])
                      + ([] if unique else ['alike']))
    if kind == 'str' and n <= 62:
        chars = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
        chars = rng.sample(chars, min(n, len(chars)))
        if not unique:
            chars = [rng.choice(chars) for _ in chars]
        return ''.join(chars)
    if kind == 'range':
        start = rng.randint(-5, 5)
        step = rng.choice([1, 1, 2, -3])
        return {'$range': [start, start + n * step, step]}
    if kind == 'dtrange':
        day = dt.date(2020, 1, 1) + dt.timedelta(days=rng.randint(0, 800))
        return {'$dtrange': [day.isoformat(),
                             (day + dt.timedelta(days=n)).isoformat()]}
    if kind == 'nested':
        form = rng.choice(['deep', 'numbers', 'dicts', 'sets', 'kinds'])
        if form == 'deep':
            vals = [[i, [i]] for i in range(n)]
        elif form == 'dicts':
            vals = [{'$dict': {'a': i // 2, 'b': [i]}} for i in range(n)]
        elif form == 'kinds':
            # Some are equal to others of another type.
            vals = [{rng.choice(['$set', '$mset']): [i // 2]} if i % 3 else
                    {rng.choice(['$bytes', '$bytearray']): str(i // 6)}
                    for i in range(n)]
            vals[0] = [0]
        elif form == 'sets':
            vals = [[{'$set': [i, 'x', i + 100]}] for i in range(n)]
        else:
            # Some are equal, and written differently.
            vals = [rng.choice([[i // 2], [float(i // 2)],
                                [{'$tuple': [i // 2, 0]}],
                                [{'$tuple': [float(i // 2), False]}],
                                [i // 2 == 0]]) for i in range(n)]
    elif kind == 'alike':
        # Some are equal, and of another type.
        pool = [0, 0.0, False, 1, 1.0, True, 2, 2.0, '0', '1', '1.0', 'True',
                '2', 2.5, {'$decimal': '2.5'}, None, 'None', 100, 1e2, '100',
                {'$bytes': '1'}, {'$tuple': [1]}, {'$tuple': [1.0]}]
        vals = [rng.choice(pool) for _ in range(n)]
    elif kind == 'mixed':
        pool = [None, True, 'x', 2.5, '', {'$tuple': [1, 2]}, -7,
                {'$date': '2021-03-04'}, 'é', 10**20, {'$bytes': 'b'}, '0']
        pool += list(range(100, 100 + n))
        vals = rng.sample(pool, n)
    else:
        vals = rng.sample(range(-50, 50 + n), n)
    if not unique and n > 1:
        vals = [rng.choice(vals) for _ in vals]
    return {'$' + kind: vals} if kind in ('tuple', 'seq') else vals


def gen_weights(rng, n, zeros=False):
    """Generates n weights (at least one above 0)."""
    kind = rng.choice(['ints', 'floats', 'skewed', 'equal'])
    if kind == 'ints':
        w = [rng.randint(1, 10) for _ in range(n)]
    elif kind == 'floats':
        w = [round(rng.uniform(0.01, 1), 6) for _ in range(n)]
    elif kind == 'skewed':
        w = [10.0 ** rng.randint(-4, 4) for _ in range(n)]
    else:
        w = [rng.choice([1, 0.25, 7])] * n
    if zeros and n > 1:
        for i in rng.sample(range(n), rng.randint(0, n - 1)):
            w[i] = 0
    return w


def cumulate(weights):
    return list(itertools.accumulate(weights))


def weights_of(spec):
    """The weights that are given, one way or the other."""
    cum = spec.get('cum') or spec.get('cum_weights')
    if cum:
        return [cum[0], *(b - a for a, b in zip(cum, cum[1:]))]
    return spec.get('weights')


class ZerosLast:
    """Watches that items without weight come after all others."""

    def __init__(self, keys, weights):
        kinds = collections.defaultdict(set)
        for k, w in zip(keys, weights or ()):
            kinds[k].add(w > 0)
        # Values of items both with and without weight tell nothing.
        self.without = {k for k, s in kinds.items() if s == {False}}
        self.heavy = collections.Counter(k for k in keys
                                         if kinds[k] == {True})
        self.left = sum(self.heavy.values())
        self.seen = 0

    def take(self, k):
        """Returns False if it is not yet the turn of an item."""
        if k in self.without:
            self.seen += 1
            return not self.left
        if self.heavy[k]:
            self.heavy[k] -= 1
            self.left -= 1
        return True


# -- custom emitters (user code) ----------------------------------------

class Counter(Emitter):
    """A user-defined emitter that has state and no RNG."""

    def __init__(self, start=0):
        self.start = start
        self.reset()

    def reset(self):
        self.next = self.start

    def emit(self):
        self.next += 1
        return self.next - 1

    def emit_many(self, number):
        return [self.emit() for _ in range(number)]


class PlainEmitter:
    """Emitter-like by its protocol only; not an Emitter subclass."""

    emits_unique_values = False
    num_unique_values = None

    def __init__(self, values):
        self.values = values
        self.reset()

    def reset(self):
        self.pos = 0

    def one(self):
        self.pos += 1
        return self.values[(self.pos - 1) % len(self.values)]

    def __call__(self, number=None):
        if number is None:
            return self.one()
        return [self.one() for _ in range(number)]


# -- wrapper functions --------------------------------------------------

def w_tag(v):
    return ('w', v)


def w_tag_rng(v, rng):
    return ('r', v, rng.random())


def w_str(v):
    return 's' + repr(v)


def w_kwrng(v, *, rng):
    return ('k', v, rng.randint(0, 10**9))


def m_dict(**kw):
    return tuple(sorted(kw.items()))


def m_rng(rng, **kw):
    return (rng.random(),) + tuple(sorted(kw.items()))


def m_order(**kw):
    return tuple(kw.items())


def m_order_rng(rng, **kw):
    return (rng.random(),) + tuple(kw.items())


ONE = {'tag': w_tag, 'tag_rng': w_tag_rng, 'str': w_str, 'kwrng': w_kwrng}
MANY = {'dict': m_dict, 'rng': m_rng, 'order': m_order,
        'order_rng': m_order_rng}
NAMES = ['a', 'b', 'c', 'title', 'source', 'x1', 'Author', 'date_of_birth',
         'function', 'value', 'number', '_n']


# -- emitter specs ------------------------------------------------------

def build(spec):
    """Builds the emitter that a spec describes."""
    k = spec['k']
    seed = dec(spec.get('seed'))
    if k == 'static':
        return Static(dec(spec['v']))
    if k == 'seq':
        return Sequential(dec(spec['items']), spec.get('rac', False))
    if k == 'iter':
        items = dec(spec['items'])
        if spec.get('gen') == 'gen':
            return Iterative(lambda: (i for i in items), spec.get('rac', False))
        if spec.get('gen') == 'count':
            return Iterative(lambda: itertools.count(len(items)),
                             spec.get('rac', False))
        return Iterative(lambda: iter(items), spec.get('rac', False))
    if k == 'choice':
        return Choice(
            dec(spec['items']), weights=spec.get('weights'),
            cum_weights=spec.get('cum'), replace=spec.get('replace', True),
            replace_only_after_call=spec.get('roac', False),
            noun=spec.get('noun', ''), rng_seed=seed)
    if k == 'poisson':
        return poisson_choice(
            dec(spec['items']), mu=spec['mu'],
            weight_floor=spec.get('floor', 0),
            replace=spec.get('replace', True),
            replace_only_after_call=spec.get('roac', False), rng_seed=seed)
    if k == 'gauss':
        return gaussian_choice(
            dec(spec['items']), mu=spec['mu'], sigma=spec['sigma'],
            weight_floor=spec.get('floor', 0),
            replace=spec.get('replace', True),
            replace_only_after_call=spec.get('roac', False), rng_seed=seed)
    if k == 'chance':
        return chance(spec['p'], rng_seed=seed)
    if k == 'word':
        return Word(build(spec['len']), build(spec['alpha']), rng_seed=seed)
    if k == 'text':
        sep = spec.get('sep')
        return Text(build(spec['num']), build(spec['word']),
                    build(sep) if sep else None, rng_seed=seed)
    if k == 'wrap1':
        return WrapOne(build(spec['src']), ONE[spec['fn']], rng_seed=seed)
    if k == 'wrapn':
        srcs = {n: build(s) for n, s in spec['srcs'].items()}
        # Further names for the same emitter instances.
        srcs.update((n, srcs[m]) for n, m in spec.get('also', {}).items())
        return WrapMany(srcs, MANY[spec['fn']], rng_seed=seed)
    if k == 'counter':
        return Counter(spec['start'])
    if k == 'plain':
        return PlainEmitter(dec(spec['items']))
    raise KeyError(k)


def is_random(spec):
    """True if what the spec emits depends on its RNG alone."""
    k = spec['k']
    if k in ('choice', 'poisson', 'gauss', 'chance', 'static'):
        return True
    return k in ('word', 'text', 'wrap1', 'wrapn') and all(
        is_random(s) for s in children(spec).values())


def children(spec):
    k = spec['k']
    if k == 'word':
        return {'length': spec['len'], 'alphabet': spec['alpha']}
    if k == 'text':
        kids = {'numwords': spec['num'], 'word': spec['word']}
        if spec.get('sep'):
            kids['sep'] = spec['sep']
        return kids
    if k == 'wrap1':
        return {'source': spec['src']}
    if k == 'wrapn':
        return dict(spec['srcs'])
    return {}


def has_rng(spec):
    return spec['k'] in ('choice', 'poisson', 'gauss', 'chance', 'word',
                         'text', 'wrap1', 'wrapn')


def capacity(spec):
    """How many values it can emit between resets (None: no limit)."""
    k = spec['k']
    if k in ('choice', 'poisson', 'gauss'):
        if not spec.get('replace', True) and not spec.get('roac'):
            return len(dec(spec['items']))
        return None
    if k in ('wrap1', 'wrapn'):
        caps = [capacity(s) for s in children(spec).values()]
        caps = [c for c in caps if c is not None]
        return min(caps) if caps else None
    return None


def batch_limit(spec):
    """The largest batch it can emit at once (None: no limit)."""
    k = spec['k']
    if k in ('choice', 'poisson', 'gauss'):
        return len(dec(spec['items'])) if spec.get('roac') else None
    if k in ('wrap1', 'wrapn'):
        lims = [batch_limit(s) for s in children(spec).values()]
        lims = [c for c in lims if c is not None]
        return min(lims) if lims else None
    if k in ('word', 'text'):
        return batch_limit(spec['len' if k == 'word' else 'num'])
    return None


def is_in(value, items):
    return any(type(value) is type(i) and value == i for i in items)


def count_distinct(values):
    """The number of values that differ (equal ones may be written
    differently: 1 and 1.0)."""
    values = list(values)
    try:
        return len(set(values))
    except TypeError:
        return sum(1 for i, v in enumerate(values) if v not in values[:i])


def domain(spec):
    """Returns a predicate for the values that a spec may emit."""
    k = spec['k']
    if k == 'static':
        v = dec(spec['v'])
        return lambda x: is_in(x, [v])
    if k == 'chance':
        p = spec['p']
        ok = [True] if p >= 1 else [False] if p <= 0 else [True, False]
        return lambda x: is_in(x, ok)
    if k == 'iter' and spec.get('gen') == 'count':
        start = len(dec(spec['items']))
        return lambda x: type(x) is int and x >= start
    if k == 'counter':
        return lambda x: type(x) is int and x >= spec['start']
    if k in ('seq', 'iter', 'plain', 'choice', 'poisson', 'gauss'):
        items = list(dec(spec['items']))
        weights = spec.get('weights')
        if spec.get('cum'):
            cum = spec['cum']
            weights = [b - a for a, b in zip([0] + cum, cum)]
        if weights and spec.get('replace', True) and not spec.get('roac'):
            items = [i for i, w in zip(items, weights) if w > 0]
        return lambda x: is_in(x, items)
    if k == 'word':
        lens = possible_ints(spec['len'])
        chars = set(dec(spec['alpha']['items']))
        return lambda x: (type(x) is str and len(x) in lens
                          and set(x) <= chars)
    if k == 'text':
        return lambda x: type(x) is str
    if k == 'wrap1':
        sub = domain(spec['src'])
        fn = spec['fn']
        if fn == 'tag':
            return lambda x: (type(x) is tuple and len(x) == 2
                              and x[0] == 'w' and sub(x[1]))
        if fn == 'str':
            return lambda x: type(x) is str and x[:1] == 's'
        tag = 'r' if fn == 'tag_rng' else 'k'
        return lambda x: (type(x) is tuple and len(x) == 3 and x[0] == tag
                          and sub(x[1]))
    if k == 'wrapn':
        subs = {n: domain(s) for n, s in spec['srcs'].items()}
        subs.update((n, subs[m]) for n, m in spec.get('also', {}).items())
        extra = 1 if spec['fn'].endswith('rng') else 0

        def check_many(x):
            if type(x) is not tuple or len(x) != len(subs) + extra:
                return False
            pairs = x[extra:]
            return (sorted(p[0] for p in pairs) == sorted(subs)
                    and all(subs[n](v) for n, v in pairs))
        return check_many
    raise KeyError(k)


def possible_ints(spec):
    if spec['k'] == 'static':
        return {dec(spec['v'])}
    return set(dec(spec['items']))


# -- generators ---------------------------------------------------------

def gen_seed(rng):
    return rng.choice(SEEDS + [rng.randint(0, 10**6)])


def gen_choice(rng, replace=None, hi=8, hashable=True, zeros=False, **kw):
    items = gen_items(rng, hi=hi, hashable=hashable, **kw)
    n = len(dec(items))
    spec = {'k': 'choice', 'items': items}
    mode = rng.choice(['replace', 'replace', 'none', 'roac']) \
        if replace is None else replace
    if mode == 'none':
        spec['replace'] = False
    elif mode == 'roac':
        spec['roac'] = True
        if rng.random() < 0.3:
            spec['replace'] = False
    if rng.random() < 0.5:
        w = gen_weights(rng, n, zeros=zeros)
        if rng.random() < 0.3:
            spec['cum'] = cumulate(w)
        else:
            spec['weights'] = w
    return spec


def gen_int_emitter(rng, lo=0, hi=5):
    """An unlimited emitter of ints from lo to hi."""
    n = rng.randint(1, 4)
    if rng.random() < 0.06:
        n = rng.randint(5, 30)
    if rng.random() < 0.06 and hi >= 3:
        hi = rng.choice([9, 12, 17, 33, 65])
    vals = [rng.randint(lo, hi) for _ in range(n)]
    kind = rng.choice(['static', 'seq', 'choice', 'choicew'])
    if kind == 'static':
        return {'k': 'static', 'v': vals[0]}
    if kind == 'seq':
        return {'k': 'seq', 'items': vals}
    spec = {'k': 'choice', 'items': vals}
    if kind == 'choicew':
        spec['weights'] = gen_weights(rng, n)
    return spec


def gen_alpha(rng):
    chars = rng.sample('abcdefghijklmnopqrstuvwxyzéß0123', rng.randint(1, 8))
    kind = rng.choice(['seq', 'choice', 'choicew', 'iter'])
    if kind == 'choice':
        return {'k': 'choice', 'items': ''.join(chars)}
    if kind == 'choicew':
        return {'k': 'choice', 'items': chars,
                'weights': gen_weights(rng, len(chars))}
    return {'k': kind, 'items': chars}


def gen_word(rng):
    return {'k': 'word', 'len': gen_int_emitter(rng), 'alpha': gen_alpha(rng)}


def gen_text(rng):
    words = [rng.choice('abcdef') * rng.randint(1, 3) + str(i)
             for i in range(rng.randint(1, 6))]
    word = rng.choice([
        {'k': 'choice', 'items': words},
        {'k': 'choice', 'items': words, 'weights': gen_weights(rng, len(words))},
        {'k': 'seq', 'items': words},
        {'k': 'choice', 'items': words, 'roac': True},
        gen_word(rng),
    ])
    spec = {'k': 'text', 'num': gen_int_emitter(rng), 'word': word}
    if rng.random() < 0.6:
        spec['sep'] = rng.choice([
            {'k': 'static', 'v': ' '},
            {'k': 'choice', 'items': [' ', ', ', '-']},
            {'k': 'seq', 'items': [' ', '; ']},
        ])
    return spec


def gen_leaf(rng, **kw):
    kind = rng.choice(['static', 'seq', 'iter', 'choice', 'choice', 'choice',
                       'poisson', 'gauss', 'chance', 'counter'])
    if kind == 'static':
        return {'k': 'static', 'v': rng.choice([None, 0, 'v', [1], True])}
    if kind in ('seq', 'iter'):
        spec = {'k': kind, 'items': gen_items(rng, hi=6),
                'rac': rng.random() < 0.3}
        if kind == 'iter':
            spec['gen'] = rng.choice(['iter', 'gen', 'count'])
        return spec
    if kind == 'choice':
        return gen_choice(rng, **kw)
    if kind == 'counter':
        return {'k': 'counter', 'start': rng.randint(-3, 3)}
    if kind == 'chance':
        return {'k': 'chance',
                'p': rng.choice([0, 1, 0.5, 0.25, -0.5, 1.5, 0.001])}
    items = gen_items(rng, hi=8)
    spec = {'k': kind, 'items': items, 'mu': rng.randint(1, 5)}
    if kind == 'gauss':
        spec['sigma'] = rng.choice([1, 2.5, 4])
    if rng.random() < 0.3:
        spec['floor'] = 0.01
    mode = rng.choice(['replace', 'replace', 'none', 'roac'])
    if mode == 'none':
        spec['replace'] = False
    elif mode == 'roac':
        spec['roac'] = True
    return spec


def gen_emitter(rng, depth=2, random_only=False, seeded=True):
    """Generates a spec for any kind of emitter, maybe nested."""
    for _ in range(200):
        spec = _gen_emitter(rng, depth)
        if random_only and not is_random(spec):
            continue
        break
    else:
        spec = {'k': 'choice', 'items': [1, 2, 3]}
    if seeded and has_rng(spec):
        spec['seed'] = gen_seed(rng)
    return spec


def _gen_emitter(rng, depth):
    kind = rng.choice(['leaf', 'leaf', 'word', 'text', 'wrap1', 'wrapn'])
    if kind == 'leaf' or depth <= 0:
        return gen_leaf(rng)
    if kind == 'word':
        return gen_word(rng)
    if kind == 'text':
        return gen_text(rng)
    if kind == 'wrap1':
        return {'k': 'wrap1', 'src': _gen_emitter(rng, depth - 1),
                'fn': rng.choice(sorted(ONE))}
    n = rng.choice([0, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 5])
    spec = {'k': 'wrapn', 'fn': rng.choice(sorted(MANY)),
            'srcs': {n: _gen_emitter(rng, depth - 1)
                     for n in rng.sample(NAMES, n)}}
    free = [n for n, s in spec['srcs'].items() if capacity(s) is None]
    if free and rng.random() < 0.3:
        names = [n for n in NAMES if n not in spec['srcs']]
        spec['also'] = {n: rng.choice(free)
                        for n in rng.sample(names, rng.randint(1, 3))}
    return spec


def gen_calls(rng, spec, lo=1, hi=10, big=0.05):
    """Generates calls (None or a number) that the spec can satisfy."""
    cap, lim = capacity(spec), batch_limit(spec)
    calls = []
    many = rng.randint(lo, hi)
    if big and rng.random() < 0.04:
        many = rng.choice([30, 60, 120])
    for _ in range(many):
        if rng.random() < 0.4:
            n = None
        else:
            n = rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 10])
            if rng.random() < big:
                n = rng.choice([16, 21, 50, 64, 100, 129, 200, 257])
            if cap is not None and rng.random() < 0.1:
                n = cap
            if lim is not None:
                n = min(n, lim)
                if rng.random() < 0.15:
                    n = lim - rng.randint(0, min(1, lim))
        if cap is not None:
            need = 1 if n is None else n
            if need > cap:
                n = cap
                need = cap
                if not cap:
                    n = 0
                    need = 0
            cap -= need
        calls.append(n)
    return calls


# -- sizes --------------------------------------------------------------

SIZES = [1, 2, 3, 5, 8, 9, 10, 11, 16, 17, 20, 21, 22, 32, 33, 50, 64, 65,
         85, 86, 100, 101, 128, 129, 255, 256, 257, 300, 500, 1000, 1025]


def huge():
    """Yields (spec, calls) with very large batches."""
    n = 24000
    wide = {'$range': [0, n, 1]}
    weights = [1 + i % 7 for i in range(n)]
    abc = {'k': 'choice', 'items': 'abcdef'}
    for calls in ([n, None, 9], [None, 7000, 11000]):
        for items in (wide, {'$range': [0, 2, 1]}):
            yield {'k': 'choice', 'items': items, 'seed': 1}, calls
        yield {'k': 'choice', 'items': [1, 2, 3], 'weights': [1, 2, 3],
               'seed': 2}, calls
        for mode in ({'replace': False}, {'roac': True}):
            for w in ({}, {'weights': weights}):
                yield {'k': 'choice', 'items': wide, **mode, **w,
                       'seed': 3}, calls[:-1] if calls[0] is None else [n]
        word = {'k': 'word', 'len': {'k': 'choice', 'items': [0, 3, 9]},
                'alpha': abc, 'seed': 4}
        yield word, calls
        for words in (word, {'k': 'choice', 'items': 'uvwxyz', 'roac': True}):
            yield {'k': 'text', 'num': {'k': 'choice', 'items': [0, 2, 5]},
                   'word': words, 'sep': {'k': 'choice', 'items': ' -'},
                   'seed': 5}, calls
        yield {'k': 'wrap1', 'fn': 'tag_rng', 'src': abc, 'seed': 6}, calls
        yield {'k': 'wrapn', 'fn': 'rng', 'seed': 7,
               'srcs': {'a': abc, 'b': word}}, calls
        yield {'k': 'chance', 'p': 0.3, 'seed': 8}, calls
        yield {'k': 'poisson', 'items': {'$range': [0, 600, 1]}, 'mu': 300,
               'seed': 9}, calls
    one = {'k': 'choice', 'items': 'abcdef'}
    yield {'k': 'word', 'len': {'k': 'static', 'v': 30000}, 'alpha': one,
           'seed': 1}, [None, 3]
    yield {'k': 'text', 'num': {'k': 'static', 'v': 30000}, 'word': one,
           'seed': 1}, [None, 3]


def matrix():
    """Yields (spec, calls) for many sizes of each kind of emitter."""
    for i, n in enumerate(SIZES):
        rnd = {'$range': [0, n, 1]}
        weights = [1 + (j * 7 + i) % 5 for j in range(n)]
        for mode in ({}, {'replace': False}, {'roac': True}):
            for w in ({}, {'weights': weights}, {'cum': cumulate(weights)}):
                spec = {'k': 'choice', 'items': rnd, 'seed': i, **mode, **w}
                if mode.get('roac'):
                    plans = [[n], [n, None, n, 1, n], [n - 1, n // 2, n]]
                elif mode:
                    plans = [[n], [n // 2, n - n // 2], [1, n - 1],
                             [None] * n, [n - 1, None]]
                else:
                    plans = [[n], [2 * n + 1, None], [None, n, n + 1]]
                for calls in plans:
                    yield spec, calls
                yield {'k': 'wrap1', 'fn': 'tag_rng', 'src': spec,
                       'seed': i}, plans[0]
        ints = {'k': 'choice', 'items': {'$range': [n, n + 3, 1]}}
        alpha = {'k': 'choice', 'items': 'abcdefghijk'}
        word = {'k': 'word', 'len': ints, 'alpha': alpha}
        yield {**word, 'seed': i}, [None, 2, 0, 1]
        yield {'k': 'word', 'len': {'k': 'choice', 'items': [0, 1, 3]},
               'alpha': alpha, 'seed': i}, [n, 1, None, n]
        for mode in ({}, {'roac': True}):
            words = {'k': 'choice', 'items': [f'w{j}' for j in range(n)],
                     **mode}
            for sep in ({}, {'sep': {'k': 'choice', 'items': [' ', '-']}}):
                yield {'k': 'text', 'num': ints, 'word': words, 'seed': i,
                       **sep}, [None, 2, 0, 1]
                yield {'k': 'text', 'num': {'k': 'seq', 'items': [0, 1, 3]},
                       'word': words, 'seed': i, **sep}, [n, 1, None, n]
        for k in ('seq', 'iter'):
            for rac in (False, True):
                yield {'k': k, 'items': rnd, 'rac': rac}, [n, None, n + 1, 1]
                yield {'k': k, 'items': [5, 6, 7], 'rac': rac}, \
                    [n, None, n + 1, 1]
        yield {'k': 'static', 'v': n}, [n]
        yield {'k': 'chance', 'p': 1 / (n + 1), 'seed': i}, [n, None, n]
        yield {'k': 'wrapn', 'fn': 'rng', 'seed': i, 'srcs': {
            'a': {'k': 'counter', 'start': 0}, 'b': {
                'k': 'choice', 'items': rnd, 'replace': False}}}, [n - 1, 1]
        yield {'k': 'wrapn', 'fn': 'dict', 'seed': i, 'srcs': {
            f's{j}': {'k': 'choice', 'items': 'abc'}
            for j in range(min(n, 40))}}, [None, n, 1]
