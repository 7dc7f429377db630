"""C09: selections are distributed as the weights say."""
import collections
import math
import random

from fauxdoc.emitters import chance, Choice, gaussian_choice, poisson_choice
from fauxdoc.mathtools import weighted_shuffle
from fxmon import specs
from fxmon.core import check, chi_square_p, P_ALARM, short

RULE = ('random weights (as weights or cumulative weights, given or assigned '
        'later, or from the Poisson, Gaussian and chance factories) and modes; '
        'counts of what is emitted are compared with the exact distribution '
        f'(chi-square, alarm below p = {P_ALARM}), including consecutive '
        'pairs; non-trivial: more than one outcome has weight')
REQUIRED = {'tests': 300, 'draws': 300000, 'factory_weights': 150, 'chance_weights': 60,
            'pair_tests': 50, 'first_picks': 20, 'permutation_tests': 5,
            'order_tests': 120, 'defaults': 40, 'lag_tests': 500,
            'collision_tests': 10, 'tiers': 100, 'places': 25, 'edges': 300}
QUICK = 1260
THOROUGH = 20000
ASSUMPTIONS = ['seeds are fixed, so a verdict is deterministic for given code; '
               f'for other code with the same distribution it is wrong with a '
               f'probability of about {P_ALARM} per test']
DRAWS = 4000


# What starts a new selection without replacement.
STARTS = ('seed', 'reset', 'replace', 'weights', 'cum', 'roac', 'roac_single')


def directed():
    cases = []
    for p in (0, 1, 0.5, 0.1, 0.9, 0.01, -0.5, 1.5, 1e17, -1e17, -3, 7, 0.999):
        cases.append({'kind': 'chance', 'p': p, 'seed': 3})
    for p in (1e-12, 1e-9, 1e-6, 0.0001, 0.0004, 0.0005, 0.00149, 0.0333,
              1 / 3, 0.12345678, 0.4999, 0.50001, 0.9996, 0.99996, 1 - 1e-9):
        cases.append({'kind': 'chance', 'p': p, 'seed': 3, 'draws': 60000})
    for n in (1, 2, 5, 40, 170, 171, 200, 400):
        for mu in (1, 2, 5, 0.5, 50, 150.5):
            for floor in (0, 0.001):
                cases.append({'kind': 'poisson', 'n': n, 'mu': mu,
                              'floor': floor, 'seed': 4, 'mode': 'replace'})
    for n, mu in ((50, 745.5), (50, 800), (90, 900.25), (300, 1500), (3, 700),
                  (5, 1e-6), (9, 0.01), (1200, 1000)):
        cases.append({'kind': 'poisson', 'n': n, 'mu': mu, 'floor': 0,
                      'seed': 4, 'mode': 'replace'})
    for n in (1, 3, 20, 100):
        for mu, sigma in ((0, 1), (3, 1), (10, 4), (50, 20.5), (-2, 3),
                          (3.4, 2), (10.6, 3), (0.5, 1), (7.25, 0.9)):
            for floor in (0, 0.002):
                cases.append({'kind': 'gauss', 'n': n, 'mu': mu, 'sigma': sigma,
                              'floor': floor, 'seed': 4, 'mode': 'replace'})
    for mode in ('none', 'roac'):
        cases.append({'kind': 'poisson', 'n': 200, 'mu': 2, 'floor': 0,
                      'seed': 4, 'mode': mode})
        cases.append({'kind': 'gauss', 'n': 99, 'mu': 0, 'sigma': 1,
                      'floor': 0, 'seed': 4, 'mode': mode})
    for mode in ('roac', 'none', 'shuffle'):
        for n in (30, 100, 160, 300, 1100):
            for w in (None, [1] * n):
                cases.append({'kind': 'places', 'n': n, 'mode': mode,
                              'weights': w, 'seed': n})
    for mode in ('roac', 'none'):
        for n in (2, 3, 4):
            cases.append({'kind': 'perm', 'n': n, 'mode': mode, 'seed': 1})
    for n in (1, 2, 3, 7, 40):
        for kind in ('poisson', 'gauss'):
            for omit in (['mu'], ['floor'], ['mu', 'floor'],
                         ['mu', 'sigma', 'floor'], ['sigma'], ['sigma', 'mu']):
                cases.append({'kind': kind, 'n': n, 'mu': 2, 'sigma': 3,
                              'floor': 0.05, 'seed': 4, 'mode': 'replace',
                              'omit': omit})
    for n in (2, 3, 4):
        for start in STARTS:
            for w in (None, [2.0 ** i for i in range(n)],
                      [n - i for i in range(n)]):
                for k in range(1, n + 1):
                    cases.append({'kind': 'order', 'n': n, 'k': k,
                                  'weights': w, 'start': start, 'seed': 9})
    for n in (4, 10, 30):
        for k in (2, 3, n // 2, n):
            for mode in ('roac', 'none'):
                for w in (None, list(range(1, n + 1))):
                    cases.append({'kind': 'first', 'n': n, 'k': k, 'seed': 5,
                                  'weights': w, 'mode': mode})
    for scale in (1e-12, 1e-30, 1e12):
        for n in (3, 8):
            w = list(range(1, n + 1))
            for mode in ('roac', 'none'):
                for cum in (True, False):
                    cases.append({'kind': 'first', 'n': n, 'k': 2, 'seed': 6,
                                  'weights': w, 'mode': mode, 'cum': cum,
                                  'scale': scale})
            for how in ('single', 'batch', 'roac1'):
                for given in ('weights', 'cum', 'set', 'setcum'):
                    cases.append({'kind': 'choice', 'n': n, 'seed': 7,
                                  'mode': 'replace', 'given': given,
                                  'weights': w, 'how': how, 'scale': scale})
        for start in STARTS:
            cases.append({'kind': 'order', 'n': 3, 'k': 2, 'seed': 8,
                          'weights': [1, 2, 4], 'start': start,
                          'scale': scale})
    cases += big_cases()
    cases += floor_cases()
    for weights in ([0, 1], [1, 0], [0, 0, 2, 0, 0], [0, 0.1, 0.2, 0],
                    [0, 3, 0, 3, 0], [0, 1e-300, 0], [0, 5e15, 1, 0],
                    [0, 1.5, 1.5, 0]):
        for how in ('single', 'batch'):
            for given in ('weights', 'cum', 'set', 'setcum'):
                cases.append({'kind': 'edge', 'weights': weights,
                              'given': given, 'how': how})
    return cases


def floor_cases():
    for floor in (0.5, 1, 1.5, 3, 40, 1e300, -1):
        for kind, mus in (('poisson', (0.01, 1, 4)), ('gauss', (2, 3.5, 90))):
            for mu in mus:
                for sigma in (3, 0.1, 0.01, 1e-6) if kind == 'gauss' else (1,):
                    if floor <= 0 and (mu == 90 or sigma < 1):
                        break  # All weights might be 0.
                    yield {'kind': kind, 'n': 5, 'mu': mu, 'sigma': sigma,
                           'floor': floor, 'seed': 4, 'mode': 'replace'}


BIG_LAGS = (1, 2, 3, 10, 64, 100, 128, 256, 500, 512, 1000, 1024, 2048, 4096,
            5000, 8192, 10000, 16384)


def big_cases():
    for n in (700, 2000, 10000, 40000):
        for mode in ('replace', 'roac', 'none', 'calls', 'mixed'):
            for wide in (True, False):
                yield {'kind': 'big', 'draws': n, 'mode': mode, 'wide': wide,
                       'weights': None, 'seed': n}
                if mode in ('replace', 'calls', 'mixed'):
                    yield {'kind': 'big', 'draws': n, 'mode': mode,
                           'wide': wide, 'weights': [1, 2], 'seed': n}
    for n in (150, 600, 1200, 2500, 6000, 12000, 50000):
        for mode in ('none', 'roac'):
            for given in ('weights', 'cum_weights', 'set', 'setcum'):
                for part in (1, 0.7, 0.1):
                    yield {'kind': 'tiers', 'n': n, 'mode': mode,
                           'given': given, 'part': part, 'seed': n}


def gen(rng):
    kind = rng.choice(['choice'] * 6 + ['first', 'order', 'chance', 'poisson',
                                        'gauss'])
    case = {'kind': kind, 'seed': rng.randint(0, 10**6), 'mode': 'replace'}
    n = case['n'] = rng.choice([1, 2, 2, 3, 4, 6, 10, 20])
    if kind == 'chance':
        case['p'] = rng.choice([
            round(rng.uniform(-0.2, 1.2), 3), rng.uniform(0, 1),
            rng.uniform(0, 0.02), 1 - rng.uniform(0, 0.02),
            10.0 ** -rng.uniform(1, 9)])
    elif kind in ('poisson', 'gauss'):
        case['mu'] = rng.choice([1, 2, 3, 7, 1.5,
                                 round(rng.uniform(0.1, 20), 2)])
        case['sigma'] = rng.choice([1, 2, 3.5, 10])
        case['floor'] = rng.choice([0, 0, 0.01, 0.1])
        case['omit'] = [a for a in ('mu', 'sigma', 'floor')
                        if rng.random() < 0.15]
    elif kind == 'order':
        case['n'] = n = min(max(n, 2), 5)
        case['k'] = rng.randint(1, min(n, 3))
        case['start'] = rng.choice(STARTS)
        case['weights'] = rng.choice([None, specs.gen_weights(rng, n),
                                      specs.gen_weights(rng, n)])
    elif kind == 'first':
        case['n'] = n = max(n, 3)
        case['mode'] = rng.choice(['roac', 'none'])
        case['k'] = rng.randint(2, n)
        case['weights'] = rng.choice([None, specs.gen_weights(rng, n)])
    else:
        case['given'] = rng.choice(['no', 'weights', 'cum', 'set', 'setcum',
                                    'unset'])
        case['weights'] = specs.gen_weights(rng, n, zeros=rng.random() < 0.3)
        case['how'] = rng.choice(['single', 'one', 'batch', 'batch', 'roac1'])
    if rng.random() < 0.15:
        case['scale'] = 10.0 ** rng.randint(-40, 40)
    if rng.random() < 0.3:
        case['cum'] = True
    return case


def test(obs, counts, probs, what):
    p = chi_square_p(counts, probs)
    obs.ev('tests')
    obs.ev('draws', sum(counts))
    check(p >= P_ALARM, lambda: f'{what}: counts {short(counts)} do not fit '
                                f'the distribution {short(probs)} (p={p:.3g})')
    if sum(1 for q in probs if q > 0) > 1:
        obs.nontrivial()


def norm(weights):
    total = math.fsum(weights)
    return [w / total for w in weights]


def expected_weights(case):
    out = []
    for x in range(1, case['n'] + 1):
        mu = case['mu']
        if case['kind'] == 'poisson':
            w = math.exp(x * math.log(mu) - mu - math.lgamma(x + 1))
        else:
            sigma = case['sigma']
            w = math.exp(-((x - mu) / sigma) ** 2 / 2) / (
                sigma * math.sqrt(2 * math.pi))
        out.append(max(w, case['floor']))
    return out


DEFAULTS = {'poisson': {'mu': 1, 'floor': 0},
            'gauss': {'mu': 0, 'sigma': 1, 'floor': 0}}


def run(case, obs):
    kind = case['kind']
    if case.get('scale') and case.get('weights'):
        # Weights are relative: only their proportions matter.
        case = {**case, 'weights': [w * case['scale']
                                    for w in case['weights']]}
        obs.ev('scaled_weights')
    if case.get('omit'):
        # Arguments left out have their documented default.
        case = {**case, **{k: v for k, v in DEFAULTS[kind].items()
                           if k in case['omit']}}
        obs.ev('defaults')
    obs.state(kind, case.get('n'), case.get('mode'), case.get('given'),
              case.get('how'))
    if kind == 'chance':
        em = chance(case['p'], rng_seed=case['seed'])
        p = min(max(case['p'], 0.0), 1.0)
        weights = em.weights or [1] * len(em.items)
        given = norm(weights)
        have = math.fsum(w for i, w in zip(em.items, given) if i is True)
        check(math.isclose(have, p, rel_tol=1e-9, abs_tol=1e-15), lambda: (
            f'chance({case["p"]}): items {short(em.items)} with weights '
            f'{short(weights)}'))
        obs.ev('chance_weights')
        half = case.get('draws', DRAWS) // 2
        values = em(half) + [em() for _ in range(half)]
        check(all(type(v) is bool for v in values), 'not a bool')
        test(obs, [values.count(True), values.count(False)], [p, 1 - p],
             f'chance({case["p"]})')
    elif kind in ('poisson', 'gauss'):
        run_factory(case, obs)
    elif kind == 'perm':
        run_perm(case, obs)
    elif kind == 'first':
        run_first(case, obs)
    elif kind == 'order':
        run_order(case, obs)
    elif kind == 'big':
        run_big(case, obs)
    elif kind == 'places':
        run_places(case, obs)
    elif kind == 'tiers':
        run_tiers(case, obs)
    elif kind == 'edge':
        run_edge(case, obs)
    else:
        run_choice(case, obs)


def run_places(case, obs):
    """Where equally likely items get to, in orders of all of many."""
    n, mode = case['n'], case['mode']
    rounds = 70 if n < 1000 else 40
    if mode == 'roac':
        em = Choice(range(n), case['weights'], rng_seed=case['seed'],
                    replace_only_after_call=True)
    elif mode == 'none':
        em = Choice(range(n), case['weights'], replace=False)
    rng = random.Random(case['seed'])
    offsets, cells = collections.Counter(), collections.Counter()
    for i in range(rounds):
        if mode == 'none':
            em.seed(f'{case["seed"]}:{i}')
        got = em(n) if mode != 'shuffle' else weighted_shuffle(
            range(n), case['weights'] or [3.5] * n, rng)
        check(sorted(got) == list(range(n)), 'not all items, once each')
        for place, v in enumerate(got):
            cells[place * 5 // n, v * 5 // n] += 1
            for off in (0, 1, -1):
                offsets[off] += v == (place + off) % n
            offsets['mirror'] += v == n - 1 - place
    for off, c in offsets.items():
        # Each is (almost) a Poisson number.
        check(rounds - 8 * rounds ** 0.5 < c < rounds + 9 * rounds ** 0.5 + 9,
              lambda: f'{case}: {c} of {rounds} expected places {off} apart')
    size = collections.Counter(i * 5 // n for i in range(n))
    test(obs, [cells[a, b] for a in range(5) for b in range(5)],
         [size[a] * size[b] / n ** 2 for a in range(5) for b in range(5)],
         f'places of {case}')
    obs.ev('places')
    obs.nontrivial()


def run_tiers(case, obs):
    """Many items without replacement: those of far greater weight come
    first, in random order, and those without weight last."""
    n, given = case['n'], case['given']
    tiers = [(i * 7 + i // 5) % 3 for i in range(n)]
    weights = [(0, 1, 10**11)[t] for t in tiers]
    name = 'cum_weights' if 'cum' in given else 'weights'
    value = specs.cumulate(weights) if 'cum' in given else weights
    em = Choice(range(n), replace=case['mode'] == 'none' and 'set' in given,
                replace_only_after_call=case['mode'] == 'roac',
                rng_seed=case['seed'],
                **({} if 'set' in given else {name: value}))
    if 'set' in given:
        setattr(em, name, value)
        if case['mode'] == 'none':
            em.replace = False
    got = em(int(n * case['part']))
    check(len(set(got)) == len(got), 'an item twice')
    order = [tiers[i] for i in got]
    check(order == sorted(order, reverse=True), lambda: (
        f'{case}: items of much smaller (or no) weight came before others'))
    for tier in (2, 1):
        # As they are equally likely, where they are makes no difference.
        all_of = [i for i in range(n) if tiers[i] == tier]
        place = {i: p * 4 // len(all_of) for p, i in enumerate(all_of)}
        some = [place[i] for i in got if tiers[i] == tier]
        some = some[:len(all_of) // 2]
        if len(some) > 30:
            seen = collections.Counter(some)
            size = collections.Counter(place.values())
            # Less varied than independent draws, hence never an alarm
            # more often.
            test(obs, [seen[q] for q in range(4)],
                 [size[q] / len(all_of) for q in range(4)],
                 f'tier {tier} of {case}')
    obs.ev('tiers')
    obs.nontrivial()


def run_edge(case, obs):
    """Whatever number is drawn, items without weight are never selected."""
    weights = case['weights']
    n = len(weights)
    name = 'cum_weights' if 'cum' in case['given'] else 'weights'
    value = specs.cumulate(weights) if 'cum' in case['given'] else weights
    if case['given'].startswith('set'):
        em = Choice(range(n))
        setattr(em, name, value)
    else:
        em = Choice(range(n), **{name: value})
    for point in (0.0, 1 - 2.0 ** -53, 2.0 ** -53, 5e-324, 0.5):
        rng = random.Random(1)
        rng.random = lambda: point
        em.rng = rng
        got = em(1) + em(2) if case['how'] == 'batch' else [em(), em()]
        check(all(weights[i] > 0 for i in got), lambda: (
            f'the number drawn is {point!r}: selects items {got}, with '
            f'weights {weights}'))
        obs.ev('edges')
    obs.nontrivial()


def run_factory(case, obs):
    n = case['n']
    items = [f'i{x}' for x in range(n)]
    kwargs = {'replace': case['mode'] != 'none', 'noun': 'thing',
              'replace_only_after_call': case['mode'] == 'roac',
              'rng_seed': case['seed'], 'weight_floor': case['floor'],
              'mu': case['mu']}
    if case['kind'] == 'gauss':
        kwargs['sigma'] = case['sigma']
    for name in case.get('omit') or ():
        kwargs.pop('weight_floor' if name == 'floor' else name, None)
    if case['kind'] == 'poisson':
        em = poisson_choice(items, **kwargs)
    else:
        em = gaussian_choice(items, **kwargs)
    want = expected_weights(case)
    check(list(em.items) == items and em.noun == 'thing'
          and em.rng_seed == case['seed']
          and em.replace is (case['mode'] != 'none')
          and em.replace_only_after_call is (case['mode'] == 'roac'),
          'factory arguments were not passed on')
    check(len(em.weights) == n and all(
        math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-290)
        for a, b in zip(em.weights, want)), lambda: (
            f'weights {short(em.weights)}, expected {short(want)}'))
    obs.ev('factory_weights')
    if case['mode'] == 'replace':
        seen = collections.Counter(em(DRAWS))
        test(obs, [seen[i] for i in items], norm(want), str(case))
    else:
        values = em(n)
        check(sorted(values) == sorted(items), 'not all items, once each')
        obs.ev('draws', n)
        obs.nontrivial()


def run_perm(case, obs):
    """All orders of equally likely items are equally likely."""
    n = case['n']
    em = Choice(range(n), replace=False, rng_seed=case['seed']) \
        if case['mode'] == 'none' else Choice(
            range(n), replace_only_after_call=True, rng_seed=case['seed'])
    seen = collections.Counter()
    for i in range(DRAWS):
        if case['mode'] == 'none':
            em.seed(f'{case["seed"]}:{i}')
        seen[tuple(em(n))] += 1
    cells = math.factorial(n)
    counts = list(seen.values()) + [0] * (cells - len(seen))
    test(obs, counts, [1 / cells] * cells, f'orders of {case}')
    obs.ev('permutation_tests')


def run_first(case, obs):
    """The first pick of each call that replaces only after the call (or
    of each round), and (without weights) each other position."""
    n, k = case['n'], case['k']
    kwargs = {'weights': case['weights']}
    if case.get('cum') and case['weights']:
        kwargs = {'cum_weights': specs.cumulate(case['weights'])}
    if case['mode'] == 'none':
        # One round is one long selection: start many of them.
        em = Choice(range(n), replace=False, **kwargs)
        draws = []
        for i in range(DRAWS):
            em.seed(f'{case["seed"]}:{i}')
            draws.append(em(k))
    else:
        em = Choice(range(n), rng_seed=case['seed'],
                    replace_only_after_call=True, **kwargs)
        draws = [em(k) for _ in range(DRAWS)]
    probs = norm(case['weights'] or [1] * n)
    obs.ev('first_cum' if 'cum_weights' in kwargs else 'first_weights')
    positions = [0] if case['weights'] else range(k)
    for pos in positions:
        seen = collections.Counter(d[pos] for d in draws)
        test(obs, [seen[i] for i in range(n)], probs,
             f'pick {pos} of {k}, {case}')
        obs.ev('first_picks')


def order_probs(weights, k):
    """Exact probability of each ordered selection of k positions."""
    probs = collections.defaultdict(float)

    def go(chosen, left, p):
        if len(chosen) == k:
            probs[tuple(chosen)] += p
            return
        total = math.fsum(weights[i] for i in left)
        for i in left:
            go(chosen + [i], [j for j in left if j != i],
               p * weights[i] / total)
    go([], list(range(len(weights))), 1.0)
    return probs


def run_order(case, obs):
    """The order of the first k items is distributed as sequential
    weighted sampling, whatever started the selection."""
    n, k, start = case['n'], case['k'], case['start']
    weights = case['weights'] or [1] * n
    kwargs = {'weights': case['weights'], 'rng_seed': case['seed']}
    if start.startswith('roac'):
        em = Choice(range(n), replace_only_after_call=True, **kwargs)
    else:
        em = Choice(range(n), replace=False, **kwargs)
    seen = collections.Counter()
    for i in range(DRAWS // 2):
        if start == 'seed':
            em.seed(f'{case["seed"]}/{i}')
        elif start == 'reset':
            # `reset` alone would start the same selection again.
            em.rng_seed = f'{case["seed"]}-{i}'
            em.reset()
        elif start == 'replace':
            em.replace = True
            em.replace = False
        elif start == 'weights':
            em.weights = case['weights']
        elif start == 'cum':
            em.cum_weights = specs.cumulate(weights)
        elif start == 'roac_single':
            em()
        if start.startswith('roac') and k == 1:
            got = tuple(em(1))
        elif start.startswith('roac') or i % 2:
            got = tuple(em(k))
        else:
            got = tuple(em() for _ in range(k))
        seen[got] += 1
    probs = order_probs(weights, k)
    check(set(seen) <= set(probs), lambda: f'impossible: {short(seen)}')
    cells = sorted(probs)
    test(obs, [seen[c] for c in cells], [probs[c] for c in cells],
         f'order of {case}')
    obs.ev('order_tests')


def run_choice(case, obs):
    n = case['n']
    items = [f'i{x}' for x in range(n)]
    weights, given = case['weights'], case['given']
    kwargs = {'rng_seed': case['seed'],
              'replace_only_after_call': case['how'] == 'roac1'}
    if given == 'weights':
        kwargs['weights'] = weights
    elif given in ('cum', 'unset'):
        kwargs['cum_weights'] = specs.cumulate(weights)
    elif given == 'setcum':
        kwargs['weights'] = list(reversed(specs.gen_weights(
            __import__('random').Random(case['seed']), n)))
    em = Choice(items, **kwargs)
    if given == 'set':
        em.weights = weights
    elif given == 'setcum':
        em.cum_weights = specs.cumulate(weights)
    elif given == 'unset':
        em.weights = None
    probs = norm(weights if given not in ('no', 'unset') else [1] * n)
    if case['how'] in ('single', 'roac1'):
        values = [em() for _ in range(DRAWS)]
    elif case['how'] == 'one':
        values = [em(1)[0] for _ in range(DRAWS)]
    else:
        values = [v for _ in range(8) for v in em(DRAWS // 8)]
    seen = collections.Counter(values)
    test(obs, [seen[i] for i in items], probs, str(case))
    if 1 < n <= 6:
        pairs = collections.Counter(zip(values[::2], values[1::2]))
        test(obs, [pairs[a, b] for a in items for b in items],
             [p * q for p in probs for q in probs], f'pairs of {case}')
        obs.ev('pair_tests')


def run_big(case, obs):
    """Long runs: all parts of a big batch (or of many calls) are
    independent of each other."""
    n, mode = case['draws'], case['mode']
    # Four classes of items, of (nearly) equal size.
    size = 10**9 if case['wide'] else 4 * n if mode == 'none' else 20000
    if case['weights']:
        size = 2000
    if mode == 'none' and case['wide']:
        size = n
    items = range(size)
    weights = case['weights'] and case['weights'] * (size // 2)
    em = Choice(items, weights=weights, rng_seed=case['seed'],
                replace=mode != 'none', replace_only_after_call=mode == 'roac')
    if mode == 'roac':
        n = min(n, size // 4)
    if mode == 'calls':
        values = [em() for _ in range(n)]
    elif mode == 'mixed':
        values = []
        while len(values) < n:
            values += [em(), *em(7), *em(1), *em(600)]
        n = len(values)
    else:
        values = em(n)
    if mode in ('replace', 'calls', 'mixed') and size == 10**9:
        # Equal values are very rare (a Poisson number of pairs).
        mean = n * (n - 1) / 2 / size
        same = n - len(set(values))
        check(same <= 15 + 10 * mean, lambda: (
            f'{same} of {n} values of {size} occurred before'))
        obs.ev('collision_tests')
    cells = [v % 4 for v in values] if case['weights'] else [
        v * 4 // size for v in values]
    probs = [1 / 6, 1 / 3, 1 / 6, 1 / 3] if case['weights'] else [0.25] * 4
    half = n // 2
    for part in (cells[:half], cells[half:], cells[::2], cells[-half // 2:]):
        seen = collections.Counter(part)
        test(obs, [seen[i] for i in range(4)], probs, f'part of {case}')
    joint = [p * q for p in probs for q in probs]

    def pairs(some, what):
        seen = collections.Counter(some)
        test(obs, [seen[a, b] for a in range(4) for b in range(4)], joint,
             f'{what} of {case}')
        obs.ev('lag_tests')
    for lag in (*BIG_LAGS, half, n // 3, n // 4, n // 8):
        if lag <= half:
            pairs(((cells[i], cells[i + lag]) for i in range(n - lag)
                   if i // lag % 2 == 0), f'pairs {lag} apart')
    pairs(zip(cells[:half], reversed(cells)), 'mirrored pairs')
    if size <= 10**6 and mode == 'none' and n == size:
        check(sorted(values) == list(items), 'not all items, once each')
