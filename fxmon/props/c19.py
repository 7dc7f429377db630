"""C19: dtrange is like range, for dates, datetimes and times."""
import collections.abc

from fauxdoc.dtrange import DateOrTimeRange, dtrange
from fxmon import dtmodel as m
from fxmon.core import check, check_same, short

RULE = ('random starts, stops, steps, units and time zones, plus edge cases '
        'around midnight, empty, backwards and whole-day ranges; every value '
        'is compared with a model that counts whole microseconds; ranges with '
        'up to 10^17 values are compared at random positions; non-trivial: at '
        'least two values')
REQUIRED = {'ranges': 8000, 'values': 100000, 'empty': 700, 'backwards': 2000,
            'wrapped': 500, 'whole_day': 100, 'aware': 1000, 'huge': 300, 'huge_stops': 200,
            'twins': 500, 'zones': 300}
QUICK = 96000
THOROUGH = 1500000
ASSUMPTIONS = ['ranges do not go past the years 1 to 9999',
               'a step of 0 is out of the domain',
               'both times of a range have the same time zone']


def directed():
    hour, minute = m.UNITS['hours'], m.UNITS['minutes']
    cases = []

    def add(kind, start, stop, step, unit, us, tz=None):
        cases.append({'kind': kind, 'start': start, 'stop': stop, 'step': step,
                      'unit': unit, 'us': us, 'tz': tz})
    for a in (0, 1, 6, 12, 22, 23):
        for b in (0, 1, 6, 12, 22, 23):
            for step in (1, 2, 5, 7, 13, 23, -1, -2, -5, -7, -13, -23):
                for tz in (None, -300):
                    add('time', a * hour, b * hour, step, 'hours',
                        step * hour, tz)
    for a in (0, 1, m.DAY - 1, m.DAY - 2, 60 * minute):
        for b in (0, 1, m.DAY - 1, m.DAY - 2, 60 * minute):
            for step in (17, 1439, -17, -1439, 720):
                add('time', a, b, step, 'minutes', step * minute)
    base = 737000 * m.DAY
    for n in range(-9, 10):
        for step in (1, 2, 3, 7, -1, -2, -3, -7):
            add('date', base, base + n * m.DAY, step, None, step * m.DAY)
            add('datetime', base, base + n * 1_000_000, step, None,
                step * 1_000_000)
            add('datetime', base + 5, base + n * m.DAY, step, 'days',
                step * m.DAY, 'summer')
            add('date', base, base + n * m.DAY, step, 'weeks', step * 7 * m.DAY)
    # Steps that are no multiple of anything, and stops next to a value.
    for step in (3_600_000_001, 7_200_000_003, 5_000_000_007, 86_399_999_999,
                 90_000_000_001, 333_333_333_333, 1_000_003):
        for sign in (1, -1):
            for n in (1, 2, 3, 7, 10, 97, 1000, 4999):
                for off in (-1, 0, 1):
                    add('datetime', base, base + sign * (n * step + off),
                        sign * step, 'microseconds', sign * step)
    # A stop in another time zone than the start.
    for day in range(0, 366, 11):
        for zones in (('summer', 0), ('york', 'paris'), (330, 'york'),
                      ('paris', -360), ('york', 'summer')):
            for us in (hour, -hour, 7 * hour, m.DAY):
                add('datetime', base + day * m.DAY + 12 * hour,
                    base + (day + (10 if us > 0 else -10)) * m.DAY + 7 * hour,
                    us // hour, 'hours', us, zones[0])
                cases[-1]['tz2'] = zones[1]
    # Different time zones, same instants.
    for n in range(-3, 4):
        for step in (1, -1, 7):
            add('datetime', base, base + n * hour, step, 'minutes',
                step * minute, 0)
            cases[-1]['tz2'] = 60
    return cases


def gen(rng):
    if rng.random() < 0.1:
        # Huge ranges.
        kind = rng.choice(['date', 'datetime', 'time'])
        us = rng.choice([1, 7, 1000, 1_000_000,
                         rng.randrange(m.UNITS['hours'], m.DAY)]) if kind != 'date' else m.DAY
        start, stop = m.gen_point(rng, kind), m.gen_point(rng, kind)
        if (kind != 'time' and stop < start) or rng.random() < 0.3:
            us = -us
        unit = 'days' if kind == 'date' else 'microseconds'
        return {'kind': kind, 'start': start, 'stop': stop, 'unit': unit,
                'step': us // m.UNITS[unit], 'us': us, 'tz': None,
                'huge': [rng.random() for _ in range(20)]}
    case = m.gen_range(rng, rng.choice([10, 200, 1500]))
    case['text'] = rng.random() < 0.3
    if case['kind'] == 'datetime' and case['tz'] is not None \
            and rng.random() < 0.5:
        other = rng.choice([0, 330, -360, *m.NAMED])
        there = m.value('datetime', case['stop'], case['tz']).astimezone(
            m.zone(other))
        if m.size('datetime', case['start'], case['stop'], case['us']) < 1000:
            case['stop'], case['tz2'] = m.number(there), other
            case['text'] &= not isinstance(other, str)
    return case


def run_twin(case, n, r, obs):
    """A range that starts at the same instant in another time zone: its
    values equal those of the other one, but keep their own time zone."""
    kind, us, tz = case['kind'], case['us'], case['tz']
    for zone in (330, 0, -90):
        shift = (zone - tz) * m.UNITS['minutes']
        start = case['start'] + shift
        if zone == tz or kind == 'time' and not 0 <= start < m.DAY:
            continue
        first = m.value(kind, start, zone)
        assert first == r.start
        twin = DateOrTimeRange(first, n, m.delta(us))
        for i in [*range(min(n, 40)), *range(max(n - 40, 0), n)]:
            want = m.value(kind, start + i * us, zone)
            check(m.equal(twin[i], want), lambda: (
                f'{twin!r}[{i}] is {twin[i]!r}, expected {want!r} (after a '
                f'range that starts at {r.start!r})'))
        obs.ev('twins')


def run(case, obs):
    kind, tz, us = case['kind'], case['tz'], case['us']
    args, kwargs = m.arguments(case, case.get('text'))
    r = dtrange(*args, **kwargs)
    check(isinstance(r, DateOrTimeRange)
          and isinstance(r, collections.abc.Sequence), 'not a range')
    what = f'dtrange({", ".join(map(repr, args))}, {kwargs})'
    start, stop = case['start'], case['stop']
    if 'tz2' in case:
        there = m.value(kind, stop, case['tz2'])
        here = there.astimezone(m.zone(tz))
        if not (m.plain(there) and m.plain(here)):
            return
        stop = m.number(here)
        obs.ev('zones')
    n = m.size(kind, start, stop, us)
    check_same(len(r), n, f'{what}: length')
    check_same(r.length, n, f'{what}: length attribute')
    check(m.equal(r.start, m.value(kind, start, tz)),
          lambda: f'{what}: start is {r.start!r}')
    check_same(r.step, m.delta(us), f'{what}: step')
    check(bool(r) is (n > 0), f'{what}: bool')
    obs.ev('ranges')
    if 'huge' in case and n:
        places = [int(p * n) for p in case['huge']] + [0, n - 1]
        for i in places:
            want = m.value(kind, start + i * us, tz)
            check(m.equal(r[i], want), lambda: f'{what}[{i}] is {r[i]!r}, '
                                               f'expected {want!r}')
            check_same(r.index(want), i, f'{what}.index({want!r})')
            obs.ev('values')
        check(m.equal(r[-1], m.value(kind, start + (n - 1) * us, tz)),
              f'{what}[-1]')
        end = start + n * us
        if kind == 'time' or m.LOW < end < m.HIGH:
            check(m.equal(r.stop, m.value(kind, end, tz)), lambda: (
                f'{what}: stop is {r.stop!r}'))
            obs.ev('huge_stops')
        obs.ev('huge')
        obs.nontrivial()
        return
    if 'huge' not in case:
        nums = m.numbers(kind, start, stop, us)
        assert len(nums) == n
        want = m.items(kind, nums, tz)
        got = list(r)
        check(len(got) == n, lambda: f'{what}: {len(got)} values, not {n}')
        for i, (a, b) in enumerate(zip(got, want)):
            check(m.equal(a, b),
                  lambda: f'{what}: value {i} is {a!r}, expected {b!r}')
        obs.ev('values', n)
        if kind != 'time' and 'tz2' not in case:
            # Like range: no value reaches stop, the next one would.
            end = m.value(kind, stop, tz)
            check(all(v < end if us > 0 else v > end for v in got),
                  lambda: f'{what}: a value is past the stop')
    end = start + n * us
    if kind == 'time' or m.LOW < end < m.HIGH:
        edge = m.value(kind, end, tz)
        check(m.equal(r.stop, edge),
              lambda: f'{what}: stop is {r.stop!r}, expected {edge!r}')
        check(type(repr(r)) is str, 'repr')
    if n and 'tz2' not in case and isinstance(tz, int):
        run_twin(case, n, r, obs)
    obs.ev('empty', n == 0)
    obs.ev('backwards', us < 0 < n)
    obs.ev('aware', tz is not None)
    if kind == 'time':
        obs.ev('whole_day', start == stop)
        obs.ev('wrapped', (stop < start) if us > 0 else (stop > start))
    obs.state(kind, us > 0, min(n, 20), case['unit'], tz, case.get('text'))
    if n > 1:
        obs.nontrivial()
