"""C21: ranges are values: equality, hashes, immutability."""
import copy
import datetime as dt
import math
import os
import pickle
import subprocess
import sys

from fauxdoc.dtrange import DateOrTimeRange, dtrange
from fxmon import dtmodel as m
from fxmon.core import check, check_same, raises, short

RULE = ('random groups of ranges that are related (the same values made in '
        'another way, or one part changed); every pair is compared with the '
        'equality of their lists of values, and equal ones with their hashes; '
        'then attempts to change them; non-trivial: a pair that is equal and '
        'one that is not')
REQUIRED = {'pairs': 40000, 'equal_pairs': 15000, 'unequal_pairs': 15000,
            'immutable': 15000, 'empty_pairs': 1000, 'aware_pairs': 2000,
            'other_step': 2000, 'sent': 100, 'subclasses': 10000,
            'zones': 2000, 'zones_apart': 500, 'zones_together': 50}
QUICK = 8000
THOROUGH = 100000


def directed():
    cases = []
    hour = m.UNITS['hours']
    for kind, start, us in (('date', 737000 * m.DAY, m.DAY),
                            ('date', 737000 * m.DAY, -7 * m.DAY),
                            ('datetime', 737000 * m.DAY, hour),
                            ('time', 0, hour), ('time', 23 * hour, -hour)):
        for n in (0, 1, 2, 3, 10):
            for tz in (None, 60) if kind != 'date' else (None,):
                cases.append({'kind': kind, 'start': start, 'n': n, 'us': us,
                              'tz': tz, 'changes': [
                                  ['start', 1], ['n', 1], ['n', -1],
                                  ['step', 2], ['step', -1], ['kind', 0],
                                  ['zone', 0], ['zone', 330],
                                  ['wrap', 1], ['turn', 1]]})
    # Around the days on which clocks change.
    for month, day in ((3, 8), (3, 29), (4, 1), (9, 30), (10, 25), (11, 1)):
        start = dt.date(2020, month, day).toordinal() * m.DAY - 12 * hour
        for us in (m.DAY, hour, -m.DAY, 23 * hour):
            for tz in m.NAMED:
                cases.append({'kind': 'datetime', 'start': start, 'n': 3,
                              'us': us, 'tz': tz, 'changes': [
                                  ['zone', z] for z in (0, 330, *m.NAMED)]})
    for seed in ('1', '77', 'random'):
        cases.append({'process': seed})
    return cases


CHILD = '''
import pickle, sys
from fxmon.props import c21
for args, others in pickle.load(sys.stdin.buffer):
    new = [r for r, _, _ in c21.make(*args)]
    for r in others:
        for n in new:
            assert r == n and n == r, (r, n)
            assert hash(r) == hash(n), ('hashes', r, n)
            assert r in {n} and {n: 1}.get(r) == 1, ('as a key', r, n)
            assert repr(r) and r.stop == n.stop
print('fine')
'''


def run_process(case, obs):
    """Ranges that are sent to another process, where hashes differ."""
    groups = []
    for other in directed():
        if 'process' in other or other['n'] > 5 or other['tz'] in m.NAMED:
            continue
        args = [other[k] for k in ('kind', 'start', 'n', 'us', 'tz')]
        ranges = [r for r, _, _ in make(*args)]
        for r in ranges:
            # Some of them have been used before.
            hash(r), repr(r), r.stop, r == ranges[0], r in {r}
        groups.append((args, ranges))
        obs.ev('sent', len(ranges))
    done = subprocess.run(
        [sys.executable, '-c', CHILD], input=pickle.dumps(groups),
        env={**os.environ, 'PYTHONHASHSEED': case['process']},
        capture_output=True, timeout=300)
    check(done.stdout.strip() == b'fine', lambda: (
        'after pickling and loading in another process: '
        + done.stderr.decode().strip()[-400:]))


def gen(rng):
    kind = rng.choice(['date', 'datetime', 'time'])
    _, _, us = m.gen_step(rng, kind)
    n = rng.choice([0, 1, 1, 2, 2, 3, 5, 24, 30])
    if kind != 'time':
        n = min(n, 300_000 * m.DAY // abs(us))
    changes = []
    for _ in range(rng.randint(2, 6)):
        changes.append([rng.choice(['start', 'n', 'step', 'kind', 'zone', 'wrap',
                                    'turn']),
                        rng.choice([-2, -1, 1, 2, 60, 330])])
        if changes[-1][0] == 'zone' and rng.random() < 0.5:
            changes[-1][1] = rng.choice([*m.NAMED])
    return {'kind': kind, 'start': m.gen_point(rng, kind), 'n': n, 'us': us,
            'tz': m.gen_zone(rng, kind), 'changes': changes}


class EqualsAll:
    def __eq__(self, other):
        return True

    __hash__ = None


class Span(DateOrTimeRange):
    """A user's kind of range."""


class Period(DateOrTimeRange):
    """Another one."""

    def days(self):
        return len(self)


class SubSpan(Span):
    pass


def make(kind, start, n, us, tz):
    """Makes equal ranges in different ways. Returns (range, values, us)."""
    first = m.value(kind, start, tz)
    want = m.items(kind, [start + i * us for i in range(n)], tz)
    out = [cls(first, n, m.delta(us)) for cls in
           (DateOrTimeRange, *((Span, Period, SubSpan)[n % 2:]))]
    if kind != 'time' or 0 < n * abs(us) <= m.DAY:
        try:
            stop = m.value(kind, start + n * us, tz)
        except (ValueError, OverflowError):
            pass
        else:
            out.append(dtrange(first, stop, us, 'microseconds'))
            if n and abs(us) > 1 and kind != 'date':
                # Any stop in the last step gives the same values.
                late = m.value(kind, start + n * us - us // abs(us), tz)
                out.append(dtrange(first, late, us, 'microseconds'))
    if n:
        # As slices of longer ranges.
        longer = DateOrTimeRange(first, n + 3, m.delta(us))
        out.append(longer[:n])
        if kind == 'time' or m.LOW < start - 2 * us < m.HIGH:
            early = m.value(kind, start - 2 * us, tz)
            out.append(DateOrTimeRange(early, n + 2, m.delta(us))[2:])
        end = m.value(kind, start + (n - 1) * us, tz)
        out.append(DateOrTimeRange(end, n, m.delta(-us))[::-1])
    if kind == 'time' and n > 1:
        # Times repeat each day: whole days in the step don't show.
        back = us - m.DAY if us > 0 else us + m.DAY
        if abs(back) < m.DAY:
            out.append(DateOrTimeRange(first, n, m.delta(back)))
        for base in (us, back):
            day = m.DAY // math.gcd(base, m.DAY)
            if 0 < abs(base) < m.DAY and (day + 1) * n * abs(base) < m.HIGH:
                k = day + 1
                long = DateOrTimeRange(first, (n - 1) * k + 1, m.delta(base))
                out.append(long[::k])
    for step in (2, 24, 25, -24):
        # Also ones whose steps are longer than those of any other range.
        if n > 1 and abs(us * step) < m.HIGH:
            part = out[0][::step]
            for other in (copy.copy(part), copy.deepcopy(part),
                          pickle.loads(pickle.dumps(part)), part[:]):
                check(other == part and hash(other) == hash(part)
                      and list(other) == want[::step],
                      lambda: f'a copy of {part!r} is {other!r}')
    out += [out[0][:], copy.copy(out[0]), copy.deepcopy(out[0]),
            pickle.loads(pickle.dumps(out[0]))]
    return [(r, want, us) for r in out]


def run(case, obs):
    if 'process' in case:
        return run_process(case, obs)
    kind, start, n, us, tz = (case[k] for k in
                              ('kind', 'start', 'n', 'us', 'tz'))
    group = make(kind, start, n, us, tz)
    for what, amount in case['changes']:
        k, s, c, u, z = kind, start, n, us, tz
        if what in ('wrap', 'turn') and kind != 'time':
            continue
        if what == 'start':
            s += amount * (m.DAY if kind == 'date' else us)
        elif what == 'n':
            c = max(0, n + amount)
        elif what == 'step':
            u = us * amount
        elif what == 'wrap':
            u = us % m.DAY or us
        elif what == 'turn':
            # The way back, as the other direction around the clock.
            u = (-us) % m.DAY or us
        elif what == 'kind' and kind != 'time':
            k = 'date' if kind == 'datetime' else 'datetime'
            z = None
        elif what == 'zone' and kind != 'date':
            # The same instant in another time zone, or the same clock.
            if z is not None and kind == 'datetime' \
                    and m.LOW < s < m.HIGH:
                s = m.number(m.value(kind, s, z).astimezone(m.zone(amount)))
            elif isinstance(z, int) and isinstance(amount, int):
                s += (amount - z) * m.UNITS['minutes'] * (z > 0)
            z = amount
            if isinstance(z, str) and kind == 'datetime':
                # The clock may change between two values, so that the
                # steps are different for the same values.
                c = min(c, 3)
                for off in (1, -1):
                    if m.LOW < s + 3 * u + off * m.UNITS['hours'] < m.HIGH \
                            and u + off * m.UNITS['hours']:
                        group += make(k, s, c, u + off * m.UNITS['hours'],
                                      z)[:2]
        if k == 'date' and (s % m.DAY or u % m.DAY):
            continue
        if k == 'time' and (abs(u) >= m.DAY):
            continue
        if k != 'time' and not (m.LOW < s < m.HIGH
                                and m.LOW < s + (c + 3) * u < m.HIGH):
            continue
        group += make(k, s, c, u, z)[:4]
    for r, _, _ in group:
        hash(r)
    equal = unequal = 0
    for i, (a, la, ua) in enumerate(group):
        for b, lb, ub in group[i:]:
            want = la == lb
            check_same(a == b, want, f'{a!r} == {b!r}')
            check_same(b == a, want, f'{b!r} == {a!r}')
            check_same(a != b, not want, f'{a!r} != {b!r}')
            check_same(b != a, not want, f'{b!r} != {a!r}')
            if want:
                equal += 1
                obs.ev('other_step', a.step != b.step and len(la) > 1)
                check(hash(a) == hash(b), lambda: (
                    f'{a!r} and {b!r} are equal with different hashes'))
                check({a: 1}.get(b) == 1 and b in {a}, 'as a key of a dict')
            else:
                unequal += 1
                check(b not in {a}, 'as a member of a set')
            obs.ev('subclasses', type(a) is not type(b))
            if la and lb and a.start == b.start and \
                    getattr(a.start, 'tzinfo', None) != \
                    getattr(b.start, 'tzinfo', None):
                obs.ev('zones')
                obs.ev('zones_apart', not want and len(la) == len(lb) > 1)
                obs.ev('zones_together', want and a.step != b.step)
            obs.ev('empty_pairs', not la or not lb)
            obs.ev('aware_pairs', bool(la and getattr(la[0], 'tzinfo', None)))
    obs.ev('pairs', equal + unequal)
    obs.ev('equal_pairs', equal)
    obs.ev('unequal_pairs', unequal)
    obs.state(kind, n, us > 0, tz, [c[0] for c in case['changes']])
    if equal and unequal:
        obs.nontrivial()
    for r, want, _ in group[:5]:
        immutable(r, want, obs)


def immutable(r, want, obs):
    before = (r.start, r.length, r.step, hash(r))
    stop, text = r.stop, repr(r)
    for other in (list(want), tuple(want), None, 'x', 0, range(3), set(want),
                  dt.timedelta(1), (r.start, r.length, r.step)):
        check((r == other) is False and (r != other) is True,
              lambda: f'{r!r} equals {short(other)}')
    check(r == EqualsAll() and EqualsAll() == r, 'reflected comparison')
    values = [r.start, r.length, r.step, stop, None, 0, 5, 'x',
              dt.timedelta(days=3), dt.date(2000, 1, 1)]
    for name in ('start', 'stop', 'step', 'length'):
        for value in values:
            raises(AttributeError, setattr, r, name, value)
            obs.ev('immutable')
        raises(AttributeError, delattr, r, name)
    if want:
        for func, args in (('__setitem__', (0, want[0])),
                           ('__delitem__', (0,)), ('append', (want[0],)),
                           ('sort', ()), ('clear', ()), ('__iadd__', ([],))):
            raises(AttributeError, lambda: getattr(r, func)(*args))
    check_same((r.start, r.length, r.step, hash(r), r.stop, repr(r)),
               (*before, stop, text), 'a range changed')
    check(list(r) == want, lambda: f'{r!r} changed: {short(list(r))}')
