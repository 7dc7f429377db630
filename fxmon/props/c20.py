"""C20: a range is a sequence that behaves like the list of its values."""
import collections.abc
import copy
import datetime as dt
import math
import pickle

from fauxdoc.dtrange import DateOrTimeRange, dtrange
from fxmon import dtmodel as m
from fxmon.core import check, check_same, raises, short

RULE = ('random ranges (up to 200 values, including time ranges that last '
        'several days), with random chains of index, slice, membership, '
        'count, index-with-bounds and iteration operations, each compared '
        'with the same operation on a list that the microsecond model made; '
        'slices are compared recursively; non-trivial: at least two values')
REQUIRED = {'index': 3000, 'out_of_range': 2000, 'slices': 15000,
            'contains': 20000, 'found': 5000, 'position': 10000,
            'not_found': 4000, 'count': 5000, 'foreign': 3000,
            'repeated_values': 60, 'iterations': 5000, 'huge': 3000,
            'elsewhere': 10000}
QUICK = 20000
THOROUGH = 170000
ASSUMPTIONS = ['the step of a slice is less than 10000 years']


def directed():
    hour = m.UNITS['hours']
    cases = []
    ops = []
    for step in (m.DAY - m.UNITS['hours'] // 60, 7 * hour + 11, -m.DAY + 1,
                 -3 * hour, m.DAY - 1):
        # Going around the clock for years.
        for n in (3000, 40000):
            cases.append({'kind': 'time', 'start': 5 * hour, 'n': n,
                          'us': step, 'tz': None,
                          'ops': [['all'], ['push', None, None, -1], ['all'],
                                  ['push', 2, None, 3], ['all'],
                                  ['push', None, None, -700], ['all'],
                                  ['at', 1], ['at', -2]]})
    for i in range(-8, 9):
        ops.append(['at', i])
        for j in (None, -8, -3, -1, 0, 1, 2, 3, 5, 8):
            for k in (None, 1, 2, 3, -1, -2, -5):
                ops.append(['slice', i, j, k])
                ops.append(['slice', None, j, k])
    for kind, start in (('date', 737000 * m.DAY), ('time', 22 * hour),
                        ('time', 0), ('datetime', 737000 * m.DAY + 5)):
        for step in (m.DAY, -m.DAY) if kind == 'date' else (hour, -hour):
            for n in (0, 1, 2, 3, 6, 7):
                cases.append({'kind': kind, 'start': start, 'n': n, 'us': step,
                              'tz': None, 'ops': ops + [['all']]})
    # At the limits of what dates can be.
    first = dt.date.min.toordinal() * m.DAY
    last = dt.date.max.toordinal() * m.DAY
    for kind in ('date', 'datetime'):
        for start, step in ((first, 3), (last, -3), (last - 18 * m.DAY, 3),
                            (first + 18 * m.DAY, -3)):
            for n in (1, 2, 7):
                cases.append({'kind': kind, 'start': start, 'n': n,
                              'us': step * m.DAY, 'tz': None,
                              'ops': ops + [['all']]})
    search = [['all'], ['find', 0, None, None], ['find', 1, None, None],
              ['find', 2, 1, 9], ['find', 3, -4, -1], ['foreign']]
    for step in (7, 11, 23, 12, 8, 5, -7, -23, -12, 1):
        for n in (1, 5, 24, 48, 60):
            cases.append({'kind': 'time', 'start': 5 * hour, 'n': n,
                          'us': step * hour, 'tz': None,
                          'ops': search + [['push', 1, None, 3]] + search +
                          [['push', None, None, -1]] + search})
    return cases


def gen_huge(rng):
    """Ranges that can't be gone through."""
    kind = rng.choice(['date', 'datetime', 'datetime', 'time'])
    if kind == 'date':
        n, us = 3_000_000, m.DAY
        start = m.LOW
    elif kind == 'time':
        us = rng.choice([1, 7, 1000, 1_000_001])
        n = rng.choice([1, 5, 30]) * m.DAY // us - rng.randrange(1000)
        start = rng.randrange(m.DAY)
    else:
        us = rng.choice([1, 3, 1000, 1_000_001])
        start = m.LOW + rng.randrange(10 ** 12)
        n = (m.HIGH - start) // us - rng.randrange(1000)
    if rng.random() < 0.5:
        start, us = (start + (n - 1) * us) if kind != 'time' else start, -us

    def index():
        return rng.choice([None, 0, 5, -5, n // 2, n - 1, n + 3, -n, -n - 3,
                           rng.randrange(-n, n), rng.randrange(-n, n)])
    ops = []
    for _ in range(6):
        op = rng.choice(['at', 'slice', 'find', 'find', 'off'])
        if op == 'at':
            ops.append([op, index() or 0])
        elif op == 'slice':
            ops.append([op, index(), index(), rng.choice(
                [None, 1, 2, -1, -3] if kind == 'time' else
                [None, 1, -1, 7, -1000, n // 3, -(n // 5)])])
        else:
            ops.append([op, rng.randrange(n), rng.choice([1, -1, 500])])
    return {'huge': True, 'kind': kind, 'start': start, 'n': n, 'us': us,
            'tz': m.gen_zone(rng, kind), 'ops': ops}


def gen(rng):
    if rng.random() < 0.05:
        return gen_huge(rng)
    if rng.random() < 0.5:
        case = m.gen_range(rng, 200)
    else:
        kind = rng.choice(['date', 'datetime', 'time', 'time', 'time'])
        _, _, us = m.gen_step(rng, kind)
        n = rng.choice([0, 1, 2, 3, 7, 10, 24, 25, 48, 100, 200])
        if kind != 'time':
            n = min(n, 300_000 * m.DAY // abs(us))
        start = m.gen_point(rng, kind)
        if kind != 'time' and not m.LOW < start + (n + 1) * us < m.HIGH:
            n = 1
        case = {'kind': kind, 'start': start, 'n': n, 'us': us,
                'tz': m.gen_zone(rng, kind)}

    def index():
        return rng.choice([None, 0, 1, -1, 2, -2, rng.randint(-12, 12),
                           rng.randint(-210, 210), 10**6, -10**6])
    ops = []
    for _ in range(rng.randint(3, 25)):
        op = rng.choice(['at', 'slice', 'slice', 'push', 'find', 'find',
                         'find', 'foreign', 'all', 'near', 'near'])
        if op == 'at':
            ops.append([op, index() or 0])
        elif op in ('slice', 'push'):
            ops.append([op, index(), index(),
                        rng.choice([None, 1, 2, 3, 5, 24, -1, -1, -2, -7])])
        elif op == 'find':
            ops.append([op, rng.randint(0, 220), index(), index()])
        elif op == 'near':
            ops.append([op, rng.randint(-5, 205), rng.choice(
                [1, -1, 1000, 1_000_000, m.UNITS['hours'], m.DAY, -m.DAY])])
        else:
            ops.append([op])
    return {**case, 'ops': ops}


class D(dt.date):
    pass


class DT(dt.datetime):
    pass


class T(dt.time):
    pass


def derived(v):
    """An equal value of a class derived from that of the value."""
    if isinstance(v, dt.datetime):
        return DT(v.year, v.month, v.day, v.hour, v.minute, v.second,
                  v.microsecond, v.tzinfo, fold=v.fold)
    if isinstance(v, dt.date):
        return D(v.year, v.month, v.day)
    return T(v.hour, v.minute, v.second, v.microsecond, v.tzinfo, fold=v.fold)


class Index:
    """Can be used as an index."""

    def __init__(self, i):
        self.i = i

    def __index__(self):
        return self.i


def build(case):
    """Returns a range and the numbers of its values."""
    kind, start, us = case['kind'], case['start'], case['us']
    if 'n' in case:
        r = DateOrTimeRange(m.value(kind, start, case['tz']), case['n'],
                            m.delta(us))
        return r, [start + i * us for i in range(case['n'])]
    args, kwargs = m.arguments(case)
    return dtrange(*args, **kwargs), m.numbers(kind, start, case['stop'], us)


def equal_lists(r, want, what):
    got = list(r)
    check(len(r) == len(want) and len(got) == len(want), lambda: (
        f'{what}: length {len(r)}, {len(got)} values, expected {len(want)}: '
        f'{short(want, 200)}'))
    for i, (a, b) in enumerate(zip(got, want)):
        check(m.equal(a, b),
              lambda: f'{what}: value {i} is {a!r}, expected {b!r}')


def run_huge(case, obs):
    """The model is a range of numbers."""
    kind, tz, us, n = case['kind'], case['tz'], case['us'], case['n']
    nums = range(case['start'], case['start'] + n * us, us)
    r = DateOrTimeRange(m.value(kind, nums[0], tz), n, m.delta(us))
    step = us
    for op, *args in case['ops']:
        what = f'huge: {op} {args}'
        if op == 'slice':
            if abs(step * (args[2] or 1)) > m.HIGH:
                continue
            r, nums = r[slice(*args)], nums[slice(*args)]
            step = nums.step
            if not nums:
                check(not r and len(r) == 0, f'{what}: not empty')
                break
        elif op == 'at' and -len(nums) <= args[0] < len(nums):
            got, want = r[args[0]], m.value(kind, nums[args[0]], tz)
            check(m.equal(got, want), f'{what}: {got!r}, expected {want!r}')
        elif op == 'at':
            raises(IndexError, r.__getitem__, args[0])
        else:
            at = args[0] % len(nums)
            us = nums[at]
            if op == 'off':
                us += args[1] if kind != 'date' else args[1] * m.DAY
                if kind != 'time' and not m.LOW < us < m.HIGH:
                    continue
            v = m.value(kind, us, tz)
            first, count = places(nums, us, kind)
            check_same(v in r, count > 0, f'{what}: {v!r} in range')
            check_same(r.count(v), count, f'{what}: count({v!r})')
            if count:
                check_same(r.index(v), first, f'{what}: index({v!r})')
                raises(ValueError, r.index, v, 0, first)
            else:
                raises(ValueError, r.index, v)
        check_same(len(r), len(nums), f'{what}: length')
        ends = [m.value(kind, nums[i], tz) for i in (0, -1)]
        check(m.equal(r[0], ends[0]) and m.equal(r[-1], ends[1]),
              f'{what}: ends')
        check(m.equal(next(iter(r)), ends[0])
              and m.equal(next(reversed(r)), ends[1]), f'{what}: iteration')
        check(r == r[:] and hash(r) == hash(r[:]), f'{what}: copy')
        obs.ev('huge')
    obs.state(kind, op, case['us'])
    obs.nontrivial()


def places(nums, us, kind):
    """First position and number of occurrences of a value."""
    if kind != 'time':
        return (nums.index(us), 1) if us in nums else (None, 0)
    # Positions i with nums[0] + i * step = us, modulo a day.
    size, step, first = len(nums), nums.step, nums[0]
    g = math.gcd(step, m.DAY)
    off = (us - first) % m.DAY
    if off % g:
        return None, 0
    cycle = m.DAY // g
    i = off // g * pow(step // g, -1, cycle) % cycle if cycle > 1 else 0
    if i >= size:
        return None, 0
    return i, (size - 1 - i) // cycle + 1


def run(case, obs):
    if case.get('huge'):
        return run_huge(case, obs)
    kind, tz = case['kind'], case['tz']
    r, nums = build(case)
    want = m.items(kind, nums, tz)
    equal_lists(r, want, 'range')
    if len(want) > 1:
        obs.nontrivial()
    if len(set(want)) < len(want):
        obs.ev('repeated_values')
    # The last pair is the one that operations apply to.
    history = [(r, want, 'range', case['us'])]
    for op, *args in case['ops']:
        r, want, name, step = history[-1]
        n = len(want)
        what = f'{name}: {op} {args}'
        if op == 'at':
            i = args[0]
            for index in (i, Index(i)):
                if -n <= i < n:
                    v = r[index]
                    check(m.equal(v, want[i]), lambda: (
                        f'{what}: {v!r}, expected {want[i]!r}'))
                    obs.ev('index')
                else:
                    raises(IndexError, r.__getitem__, index)
                    obs.ev('out_of_range')
        elif op in ('slice', 'push'):
            slc = slice(*args)
            us = step * (args[2] or 1)
            if abs(us) > m.HIGH:
                continue
            got = r[slc]
            check(isinstance(got, DateOrTimeRange),
                  lambda: f'{what}: {type(got)}')
            equal_lists(got, want[slc], what)
            check(got == got[:] and hash(got) == hash(got[:]),
                  f'{what}: not equal to its copy')
            obs.ev('slices')
            if op == 'push' and len(history) < 6:
                history.append((got, want[slc], f'{name}[{args}]', us))
        elif op == 'find' and n:
            v = want[args[0] % n]
            search(r, want, v, args[1], args[2], what, obs)
        elif op == 'near':
            i, off = args
            step = nums[1] - nums[0] if len(nums) > 1 else m.DAY
            us = case['start'] + i * step + off
            if kind == 'date':
                us -= us % m.DAY
            if kind != 'time' and not m.LOW < us < m.HIGH:
                continue
            search(r, want, m.value(kind, us, tz), None, None, what, obs)
        elif op == 'foreign':
            foreign(r, want, kind, tz, obs)
        elif op == 'all':
            whole(r, want, what, obs)
        obs.state(kind, op, min(n, 30), len(history), args[-1:])
    # Nothing that was done has changed any of the ranges.
    for r, want, name, _ in history:
        equal_lists(r, want, f'{name} at last')


def search(r, want, v, lo, hi, what, obs):
    """Membership, position and count of one value."""
    check_same(v in r, v in want, f'{what}: {v!r} in range')
    check_same(r.count(v), want.count(v), f'{what}: count({v!r})')
    same = derived(v)
    check_same(same in r, same in want, f'{what}: {same!r} in range')
    check_same(r.count(same), want.count(same), f'{what}: count({same!r})')
    if same in want:
        check_same(r.index(same), want.index(same), f'{what}: index({same!r})')
        obs.ev('derived')
    obs.ev('contains')
    obs.ev('count')
    obs.ev('found', v in want)
    size = len(want)
    for args in ((), (lo if lo is not None else 0,),
                 (lo if lo is not None else 0, hi if hi is not None else size)):
        try:
            at = want.index(v, *args)
        except ValueError:
            raises(ValueError, r.index, v, *args)
            obs.ev('not_found')
        else:
            check_same(r.index(v, *args), at, f'{what}: index({v!r}, {args})')
            obs.ev('position')


ZONES = [*m.NAMED.values(),
         *(dt.timezone(dt.timedelta(hours=h)) for h in (-11, 0, 5, 5.5))]


def elsewhere(want, obs):
    """Values in other time zones: the same ones, and others."""
    out = []
    n = len(want)
    for v in {want[i] for i in (0, 1, n // 3, n // 2, n - 2, n - 1)
              if 0 <= i < n}:
        for zone in ZONES:
            if isinstance(v, dt.time):
                # No offset, or an offset that has to be taken off.
                out.append(v.replace(tzinfo=zone))
                gap = zone.utcoffset(None)
                if gap is not None and v.utcoffset() is not None:
                    gap -= v.utcoffset()
                    us = (v.hour * 60 + v.minute) * 60_000_000 + \
                        v.second * 1_000_000 + v.microsecond + \
                        gap // dt.timedelta(microseconds=1)
                    out.append(dt.time(*m.clock(us % m.DAY), tzinfo=zone))
            elif v.tzinfo is not None:
                other = v.astimezone(zone)
                out += [other, other + dt.timedelta(hours=1),
                        other.replace(microsecond=other.microsecond ^ 1)]
        obs.ev('elsewhere')
    return out


def foreign(r, want, kind, tz, obs):
    """Values of other types, or that aren't comparable."""
    values = [None, 0, 1.5, '', '2020-01-01', 'x', (), [], {}, object(),
              dt.timedelta(1), b'', range(3), DateOrTimeRange]
    some = want[0] if want else m.value(kind, 737000 * m.DAY, tz)
    if kind == 'date':
        values += [dt.datetime(some.year, some.month, some.day),
                   dt.datetime(some.year, some.month, some.day,
                               tzinfo=dt.timezone.utc), dt.time(0)]
    elif kind == 'datetime':
        values += [some.date(), some.time(), some.timetz(),
                   some.replace(tzinfo=None if tz is not None
                                else dt.timezone.utc)]
        values += elsewhere(want, obs)
    else:
        values += [dt.date(2020, 1, 1), dt.datetime(2020, 1, 1),
                   dt.datetime.combine(dt.date(2020, 1, 1), some),
                   some.replace(tzinfo=None if tz is not None
                                else dt.timezone.utc)]
        values += elsewhere(want, obs)
    for v in values:
        inside = v in want
        check_same(v in r, inside, f'{v!r} in range')
        check_same(r.count(v), want.count(v), f'count({v!r})')
        if inside:
            check_same(r.index(v), want.index(v), f'index({v!r})')
        else:
            raises(ValueError, r.index, v)
        obs.ev('foreign')


def whole(r, want, what, obs):
    """Everything at once."""
    n = len(want)
    back = list(reversed(r))
    check(len(back) == n and all(map(m.equal, back, want[::-1])),
          f'{what}: reversed')
    check_same(bool(r), n > 0, f'{what}: bool')
    check(isinstance(r, collections.abc.Sequence), 'not a Sequence')
    check(sorted(map(str, r)) == sorted(map(str, want)), f'{what}: sorted')
    check(tuple(r) == tuple(want), f'{what}: tuple')
    one, two = iter(r), iter(r)
    for v in want[:3]:
        check(next(one) == v, f'{what}: interleaved iterators')
    for v in want[:5]:
        check(next(two) == v, f'{what}: interleaved iterators')
    for other in (copy.copy(r), copy.deepcopy(r), r[:]):
        equal_lists(other, want, f'{what}: copy')
    equal_lists(pickle.loads(pickle.dumps(r)), want, f'{what}: pickle')
    raises(TypeError, r.__getitem__, 'x')
    raises(TypeError, r.__getitem__, 1.0)
    raises(TypeError, r.__getitem__, None)
    raises(ValueError, r.__getitem__, slice(None, None, 0))
    if n:
        check(min(r) == min(want) and max(r) == max(want), f'{what}: min, max')
    obs.ev('iterations')
