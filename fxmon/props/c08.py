"""C08: coherent settings of Choice emitters."""
import array
import collections
import collections.abc
import itertools
import math

from fauxdoc.emitters import Choice
from fxmon import specs
from fxmon.core import check, check_same, raises, short
from fxmon.props.c05 import key

RULE = ('random sequences of valid and invalid settings changes on Choice '
        'emitters, compared with a model of the four coupled settings after '
        'each step, with probes of the behaviour they promise; non-trivial: at '
        'least two changes')
REQUIRED = {'changes': 5000, 'rejected': 800, 'probes': 3000,
            'bad_constructions': 250, 'aliasing': 500, 'restarts': 500,
            'unread': 2000, 'quiet': 1000}
QUICK = 30000
THOROUGH = 750000


def directed():
    cases = []
    for flags in itertools.product([True, False], repeat=2):
        for seq in itertools.product(
                [['replace', True], ['replace', False], ['roac', True],
                 ['roac', False], ['weights', [1, 2, 3]]], repeat=3):
            cases.append({'items': [1, 2, 3], 'replace': flags[0],
                          'roac': flags[1], 'ops': [list(s) for s in seq]})
    cases.append({'bad': True})
    return cases


def gen_quiet(rng):
    n = rng.choice([2, 3, 5, 9, 40])
    ops = [[rng.choice(['replace', 'roac']), rng.random() < 0.5]
           if rng.random() < 0.5 else
           [rng.choice(['weights', 'cum']), rng.randrange(n)]
           if rng.random() < 0.7 else [rng.choice(['reset', 'seed', 'use'])]
           for _ in range(rng.randint(2, 10))]
    ops.insert(rng.randrange(len(ops)), ['weights', rng.randrange(n)])
    return {'quiet': n, 'ops': ops, 'replace': rng.random() < 0.5,
            'roac': rng.random() < 0.3}


def gen(rng):
    if rng.random() < 0.25:
        return gen_quiet(rng)
    items = specs.gen_items(rng, hi=7, unique=True)
    n = len(specs.dec(items))
    case = {'items': items, 'replace': rng.random() < 0.5,
            'roac': rng.random() < 0.3, 'noun': rng.choice(['', 'color']),
            'form': rng.choice(sorted(FORMS))}
    start = rng.choice(['none', 'weights', 'cum'])
    if start != 'none':
        w = specs.gen_weights(rng, n)
        case[start] = w if start == 'weights' else specs.cumulate(w)
    ops = []
    for _ in range(rng.randint(1, 12)):
        kind = rng.choice(['replace', 'roac', 'weights', 'cum', 'badweights',
                           'badcum', 'call', 'alias', 'reset', 'use', 'use',
                           'same'])
        if kind in ('replace', 'roac'):
            ops.append([kind, rng.random() < 0.5])
        elif kind in ('weights', 'cum'):
            w = rng.choice([None, specs.gen_weights(rng, n),
                            specs.gen_weights(rng, n, zeros=True)])
            ops.append([kind, specs.cumulate(w) if w and kind == 'cum' else w])
        elif kind in ('badweights', 'badcum'):
            m = rng.choice([n + 1, n + 3, max(0, n - 1), 2 * n])
            m = n + 1 if m == n else m
            ops.append([kind, specs.cumulate([1] * m)])
        else:
            ops.append([kind])
    case['ops'] = ops
    return case


class Own(collections.abc.Sequence):
    """A sequence of no known type."""

    def __init__(self, values):
        self.values = list(values)

    def __len__(self):
        return len(self.values)

    def __getitem__(self, i):
        return self.values[i]


def as_array(w):
    return array.array('q' if all(type(x) is int and x < 2**60 for x in w)
                       else 'd', w)


FORMS = {'list': list, 'tuple': tuple, 'own': Own, 'array': as_array,
         'deque': collections.deque, 'userlist': collections.UserList}


def form(w, which):
    """The weights in some type of sequence, one that can change if so."""
    if which == 'array' and any(abs(x) > 2**1000 for x in w):
        which = 'own'
    return None if w is None else FORMS[which](w)


def close(a, b):
    if a is None or b is None:
        return a is b
    return len(a) == len(b) and all(
        math.isclose(x, y, rel_tol=1e-9, abs_tol=1e-9) for x, y in zip(a, b))


def run(case, obs):
    if case.get('bad'):
        return run_bad(obs)
    if case.get('quiet'):
        return run_quiet(case, obs)
    items = specs.dec(case['items'])
    n = len(items)
    original = [key(i) for i in items]
    given = case.get('weights') or case.get('cum')
    shape = case.get('form', 'list')
    mutable = form(given, shape) if given else None
    kwargs = {}
    if given:
        kwargs['weights' if case.get('weights') else 'cum_weights'] = mutable
    em = Choice(items, replace=case['replace'], noun=case.get('noun', ''),
                replace_only_after_call=case['roac'], rng_seed=7, **kwargs)
    model = {'replace': case['replace'] or case['roac'], 'roac': case['roac'],
             'weights': None, 'cum': None}

    def set_weights(w, cumulative):
        if w is None:
            model['weights'] = model['cum'] = None
        elif cumulative:
            model['cum'] = tuple(w)
            model['weights'] = tuple(b - a for a, b in zip([0, *w], w))
        else:
            model['weights'] = tuple(w)
            model['cum'] = tuple(itertools.accumulate(w))

    def agree(what):
        check(em.replace is model['replace']
              and em.replace_only_after_call is model['roac'], lambda: (
                  f'{what}: replace={em.replace}, replace_only_after_call='
                  f'{em.replace_only_after_call}, expected {model}'))
        for name, want in (('weights', model['weights']),
                           ('cum_weights', model['cum'])):
            got = getattr(em, name)
            check(close(got, want), lambda: f'{what}: {name} is {short(got)}, '
                                            f'expected {short(want)}')
            check(got is None or type(got) is tuple,
                  f'{what}: {name} is not an immutable tuple')
        check([key(i) for i in em.items] == original, f'{what}: items changed')

    set_weights(given, bool(case.get('cum')))
    before_reading(case, items, n, kwargs, obs)
    agree('at first')
    if mutable:
        for i in range(n):
            if shape == 'own':
                mutable.values[i] = 1000 + i
            elif shape != 'tuple':
                mutable[i] = 1000 + i
        obs.ev('aliasing')
        agree('after changing the list that was passed as weights')
    for op, *args in case['ops']:
        what = f'after {op} {short(args, 80)}'
        if op == 'replace':
            em.replace = args[0]
            model['replace'] = args[0]
            if not args[0]:
                model['roac'] = False
        elif op == 'roac':
            em.replace_only_after_call = args[0]
            model['roac'] = args[0]
            if args[0]:
                model['replace'] = True
        elif op in ('weights', 'cum'):
            w = form(args[0], shape) if args[0] else args[0]
            setattr(em, 'weights' if op == 'weights' else 'cum_weights', w)
            set_weights(args[0], op == 'cum')
            if not model['replace']:
                check_same(em.num_unique_items, n, f'{what}: remaining items '
                           '(setting weights starts again)')
            if w and shape != 'tuple':
                w = w.values if shape == 'own' else w
                w[0] = 10**9
                w.append(4)
                obs.ev('aliasing')
        elif op in ('badweights', 'badcum'):
            left = em.num_unique_items
            name = 'weights' if op == 'badweights' else 'cum_weights'
            err = raises(ValueError, setattr, em, name,
                         form(args[0], shape))
            noun = case.get('noun')
            check(str(n) in str(err) and str(len(args[0])) in str(err)
                  and (not noun or noun in str(err)),
                  f'unclear error: {err}')
            check(em.num_unique_items == left,
                  f'{what}: a rejected change had an effect')
            obs.ev('rejected')
        elif op == 'reset':
            em.reset()
        elif op == 'use' and (model['replace'] or em.num_unique_items):
            em()
        elif op == 'same':
            # Setting what is set already.
            em.weights = model['weights']
            if not model['replace']:
                check_same(em.num_unique_items, n, f'{what}: remaining items '
                           '(setting weights starts again)')
                obs.ev('restarts')
        agree(what)
        obs.ev('changes')
        if op in ('call', 'replace', 'roac', 'weights', 'cum', 'alias'):
            probe(em, model, n, what, obs)
        obs.state(model['replace'], model['roac'], bool(model['weights']), op)
    if len(case['ops']) > 1:
        obs.nontrivial()


def run_quiet(case, obs):
    """Many changes, and (almost) nothing emitted, before a single look."""
    n = case['quiet']
    em = Choice(range(n), replace=case['replace'], rng_seed=4,
                replace_only_after_call=case['roac'])
    heavy, used, once = None, 0, not (case['replace'] or case['roac'])
    for op, *args in case['ops']:
        if op == 'replace':
            em.replace = args[0]
            used = 0 if args[0] or not once else used
            once = not args[0]
        elif op == 'roac':
            em.replace_only_after_call = args[0]
            used, once = (0, False) if args[0] else (used, once)
        elif op in ('weights', 'cum'):
            heavy, used = args[0], 0
            # The first item without weight, others with very little.
            w = [0] + [1] * (n - 1)
            w[heavy] = 1e15
            if op == 'weights':
                em.weights = w
            else:
                em.cum_weights = specs.cumulate(w)
        elif op == 'use':
            if not once or used < n:
                used += once
                em()
        else:
            used = 0
            em.reset() if op == 'reset' else em.seed(3)
    got = em(2) if n % 2 and (not once or used < n - 1) else [em()] \
        if not once or used < n else []
    if got and not used:
        check_same(got[0], heavy, 'the first item (one has almost all of the '
                                  f'weight) after {case}')
        obs.ev('quiet')
    if once:
        rest = got + em(n - used - len(got))
        check(heavy == 0 or not rest or rest[-1] == 0,
              lambda: f'an item without weight is not the last of {rest}')
        check_same(len(set(rest)), n - used, 'number of items left')
    obs.nontrivial()


def before_reading(case, items, n, kwargs, obs):
    """Settings have their effect without anyone having looked at them."""
    # A new item of all the weight: the others all but never come first.
    if not kwargs:
        return
    heavy = [1.0] * n + [1e15]
    cum = 'cum_weights' in kwargs
    for late in (False, True):
        some = list(range(n)) + ['heavy']
        settings = {'replace': case['replace'], 'rng_seed': 5,
                    'replace_only_after_call': case['roac']}
        weights = {'cum_weights' if cum else 'weights':
                   specs.cumulate(heavy) if cum else heavy}
        if late:
            em = Choice(some, **settings)
            for name, value in weights.items():
                setattr(em, name, value)
        else:
            em = Choice(some, **settings, **weights)
        first = em(min(n + 1, 2))[0] if n % 2 else em()
        check_same(first, 'heavy', f'the first item, which has almost all of '
                   f'the weight ({short(settings)}, {short(weights)}, '
                   f'late={late})')
        if case['roac']:
            for k in (1, n + 1):
                check_same(em(k)[0], 'heavy', f'the first item of {k}')
        obs.ev('unread')


def probe(em, model, n, what, obs):
    """Checks that it behaves according to its settings (unique items)."""
    if not model['replace']:
        left = em.num_unique_items
        values = [em() for _ in range(left)]
        check(len({key(v) for v in values}) == left,
              lambda: f'{what}: no replacement, but: {short(values)}')
        raises(ValueError, em)
        raises(ValueError, em, 2)
        em.reset()
    elif model['roac']:
        for k in (n, n, max(n // 2, 2)):
            if k <= n:
                values = em(k)
                check(len({key(v) for v in values}) == k,
                      lambda: f'{what}: repeated in one call: {short(values)}')
        raises(ValueError, em, n + 1 if n > 1 else 2)
    else:
        values = em(3 * n + 5)
        if model['weights']:
            ok = {key(i) for i, w in zip(em.items, model['weights']) if w > 0}
            check({key(v) for v in values} <= ok,
                  lambda: f'{what}: an item with weight 0: {short(values)}')
        check(len(values) == 3 * n + 5, f'{what}: wrong number of values')
    obs.ev('probes')


def run_bad(obs):
    for items in ([], (), '', range(0), {1, 2}, {}, iter([1]), None, 0,
                  {'a': 1}, {'a': 1}.keys(), 5):
        raises(ValueError, Choice, items)
        obs.ev('bad_constructions')
    for n in range(1, 12):
        for m in range(1, 14):
            if n != m:
                for name in ('weights', 'cum_weights'):
                    err = raises(ValueError, Choice, range(n),
                                 **{name: list(range(1, m + 1))}, noun='thing')
                    check('thing' in str(err), f'no noun in error: {err}')
                    obs.ev('bad_constructions')
        raises(TypeError, Choice, range(n), weights=[1] * n,
               cum_weights=list(range(1, n + 1)))
        obs.ev('bad_constructions')
    em = Choice([1, 2])
    for name in ('items', 'emits_unique_values', 'num_unique_values',
                 'num_unique_items'):
        raises(AttributeError, setattr, em, name, 1)
    obs.nontrivial()
