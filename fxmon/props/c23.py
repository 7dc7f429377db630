"""C23: math functions compute what they say they do."""
import decimal
import fractions
import functools
import itertools
import math

from fauxdoc.mathtools import clamp, gaussian, poisson
from fxmon.core import check, check_same, short

RULE = ('random arguments, from tiny to huge; results are compared with the '
        'textbook formulas, computed with 60 decimal digits; non-trivial: a '
        'result that is neither 0 nor too small for a float')
REQUIRED = {'poisson': 20000, 'poisson_large': 8000, 'gaussian': 20000,
            'clamp': 20000, 'clamped': 6000, 'sums': 20}
QUICK = 24000
THOROUGH = 480000
ASSUMPTIONS = ['poisson: whole x >= 0 and mu > 0', 'gaussian: sigma > 0',
               'clamp: the minimum is not above the maximum',
               'results below about 1e-318 (for gaussian, divided by a small '
               'sigma) may be 0']
CTX = decimal.Context(prec=60, Emax=10**12, Emin=-10**12)
PI = decimal.Decimal('3.14159265358979323846264338327950288419716939937510582'
                     '0974944592')
MOST = 20000


@functools.lru_cache(None)
def factorials():
    out = [decimal.Decimal(1)]
    for i in range(1, MOST + 1):
        out.append(CTX.multiply(out[-1], decimal.Decimal(i)))
    return out


def exact_poisson(x, mu):
    mu = decimal.Decimal(mu)
    top = CTX.multiply(CTX.power(mu, x), CTX.exp(-mu))
    return CTX.divide(top, factorials()[x])


def exact_gaussian(x, mu, sigma):
    x, mu, sigma = (decimal.Decimal(v) for v in (x, mu, sigma))
    z = CTX.divide(CTX.subtract(x, mu), sigma)
    top = CTX.exp(CTX.divide(CTX.multiply(z, z), decimal.Decimal(-2)))
    return CTX.divide(top, CTX.multiply(
        sigma, CTX.sqrt(CTX.multiply(decimal.Decimal(2), PI))))


def close(got, want, rel, sigma=1):
    if want < decimal.Decimal('1e-290'):
        # Products of numbers that are too small to be exact.
        slack = want * decimal.Decimal(1e-6 + float(rel)) + \
            decimal.Decimal(1e-318) * decimal.Decimal(max(1, 1 / sigma))
        return abs(decimal.Decimal(got) - want) <= slack
    return abs(decimal.Decimal(got) - want) <= want * decimal.Decimal(rel)


def directed():
    cases = []
    for mu in (1, 2, 3, 5, 10, 0.5, 0.1, 2.5, 50, 100, 170, 171, 200, 500, 700,
               709, 710, 745, 746, 800, 1000, 1500):
        xs = sorted({*range(0, 30), 50, 100, 150, 169, 170, 171, 172, 200, 300,
                     500, 1000, 2000, int(mu), int(mu) + 1, 2 * int(mu)})
        cases.append({'f': 'poisson', 'args': [[x, mu] for x in xs]})
        cases.append({'f': 'sum', 'mu': mu})
    cases.append({'f': 'poisson', 'args': [
        [x, mu] for mu in (1e-300, 1e-30, 1e-9, 1e-4, 0.02, 699, 700, 701,
                           708.5, 740, 744.9, 745.5, 750, 1200, 19000)
        for x in (0, 1, 2, 3, 9, 50, 80, 106, 107, 120, 250, 700)]})
    far = [0, 1, -1, 10, 1e10, 1e150, 1e154, 1e155, -1e155, 1e200, -1e307,
           10 ** 100, 10 ** 200]
    for sigma in (1, 1e-3, 1e-100, 1e100, 1e200):
        cases.append({'f': 'gaussian', 'args': [
            [x, mu, sigma] for x in far for mu in (0, 1, -1e3)]})
    for sigma in (1, 0.5, 2, 10, 1e-3, 1e6):
        for mu in (0, 1, -3, 2.5, 1e5, 10**9, -1e12, 1e14):
            cases.append({'f': 'gaussian', 'args': [
                [mu + z * sigma, mu, sigma]
                for z in (-40, -38.2, -37, -6, -3, -1, -0.5, 0, 0.1, 1, 2, 5, 10,
                          20, 30, 35, 36.9, 37.6, 38, 38.3, 38.6)]})
    nums = [-2, -1, -0.5, 0, 0.0, 0.5, 1, 2, 100]
    cases.append({'f': 'clamp', 'args': [
        [n, a, b] for n in nums for a in nums + [None] for b in nums + [None]
        if a is None or b is None or a <= b]})
    cases.append({'f': 'defaults'})
    return cases


def gen(rng):
    f = rng.choice(['poisson', 'gaussian', 'clamp'])
    args = []
    for _ in range(20):
        if f == 'poisson':
            mu = rng.choice([rng.randint(1, 20), rng.uniform(0.01, 10),
                             rng.randint(1, 1000), rng.uniform(1, 5000),
                             rng.randint(1, 15000),
                             10.0 ** rng.uniform(-9, 4)])
            x = rng.choice([rng.randint(0, 20), rng.randint(0, 2000), int(mu),
                            max(0, int(rng.gauss(mu, 3 * mu ** 0.5)))])
            args.append([min(x, MOST), mu])
        elif f == 'gaussian':
            sigma = rng.choice([1, rng.uniform(0.01, 5), rng.randint(1, 100),
                                10.0 ** rng.randint(-6, 6),
                                10.0 ** rng.randint(-100, 100)])
            mu = rng.choice([0, rng.randint(-100, 100), rng.gauss(0, 1000),
                             rng.gauss(0, 10.0 ** rng.randint(3, 16))])
            x = rng.choice([mu, rng.randint(-100, 100),
                            rng.gauss(mu, 2 * sigma),
                            10.0 ** rng.randint(0, 300)])
            args.append([x, mu, sigma])
        else:
            def num():
                return rng.choice([rng.randint(-9, 9), rng.uniform(-9, 9),
                                   0, 0.0, 10.0 ** rng.randint(-9, 300)])
            lo, hi = sorted([num(), num()])
            args.append([num(), rng.choice([lo, None]),
                         rng.choice([hi, None])])
    return {'f': f, 'args': args}


def run(case, obs):
    f = case['f']
    if f == 'poisson':
        for x, mu in case['args']:
            got = poisson(x, mu)
            want = exact_poisson(x, mu)
            check(type(got) is float and close(got, want, '1e-9'), lambda: (
                f'poisson({x}, {mu}) is {got!r}, expected {float(want)!r}'))
            if want > decimal.Decimal('1e-290'):
                obs.nontrivial()
            obs.ev('poisson')
            obs.ev('poisson_large', x > 170 or mu > 170)
            obs.state(f, x, int(mu))
    elif f == 'sum':
        mu = case['mu']
        top = int(mu + 40 * math.sqrt(mu) + 40)
        values = [poisson(x, mu) for x in range(top)]
        total = math.fsum(values)
        check(abs(total - 1) < 1e-9,
              f'probabilities with mu={mu} sum up to {total}')
        mean = math.fsum(x * v for x, v in enumerate(values))
        check(abs(mean - mu) < 1e-8 * max(mu, 1),
              f'the mean with mu={mu} is {mean}')
        obs.ev('sums')
        obs.nontrivial()
    elif f == 'gaussian':
        for x, mu, sigma in case['args']:
            got = gaussian(x, mu, sigma)
            check(type(got) is float, lambda: f'{got!r} is not a float')
            # How much rounding of arguments and of x - mu can matter.
            z = abs(x - mu) / sigma
            near = 1e-9 + 1e-15 * z * z
            rel = near + 1e-15 * z * (abs(x) + abs(mu)) / sigma
            if float(x) == x and float(mu) == mu and abs(x) < 1e15:
                exact = near
            else:
                exact = rel
            if z > 200:
                check(0 <= got < 1e-289, lambda: (
                    f'gaussian({x}, {mu}, {sigma}) is {got!r}'))
                obs.ev('gaussian')
                continue
            if exact > 1e-3:
                continue
            want = exact_gaussian(x, mu, sigma)
            check(type(got) is float and close(got, want, exact, sigma), lambda: (
                f'gaussian({x}, {mu}, {sigma}) is {got!r}, expected '
                f'{float(want)!r}'))
            other = gaussian(mu - (x - mu), mu, sigma)
            check(rel > 1e-3 or close(other, want, rel, sigma),
                  f'not symmetrical: {x} {mu} {sigma}')
            if want > decimal.Decimal('1e-290'):
                obs.nontrivial()
            obs.ev('gaussian')
    elif f == 'clamp':
        for n, lo, hi in case['args']:
            run_clamp(n, lo, hi, obs)
            obs.nontrivial()
    else:
        for x in range(20):
            check_same(poisson(x), poisson(x, 1), 'default of mu')
            check_same(poisson(x, mu=3), poisson(x, 3), 'mu')
            check_same(gaussian(x), gaussian(x, 0, 1), 'defaults')
            check_same(gaussian(x, sigma=2), gaussian(x, 0, 2), 'sigma')
            check_same(gaussian(x, mu=3), gaussian(x, 3, 1), 'mu')
            check_same(clamp(x), x, 'no limits')
        third = fractions.Fraction(1, 3)
        for n, lo, hi in itertools.product(
                [third, 0, 1, math.inf, -math.inf, -0.0, decimal.Decimal('1.50'),
                 10**40, 5e-324], [None, 0, -1, third, -math.inf],
                [None, third, 1, math.inf]):
            run_clamp(n, lo, hi, obs)


def run_clamp(n, lo, hi, obs):
    want = n
    if lo is not None and n < lo:
        want = lo
    elif hi is not None and n > hi:
        want = hi
    for got in (clamp(n, lo, hi), clamp(n, mn=lo, mx=hi),
                clamp(n, mx=hi, mn=lo)):
        check(got == want and type(got) in map(type, (n, lo, hi)), lambda: (
            f'clamp({n}, {lo}, {hi}) is {short(got)}, expected {want}'))
        if n not in (lo, hi):
            check(type(got) is type(want) and repr(got) == repr(want),
                  lambda: f'clamp({n!r}, {lo!r}, {hi!r}) is {got!r}')
    obs.ev('clamp')
    obs.ev('clamped', want is not n)
