"""An independent model of date and time ranges, in whole microseconds.

A date or datetime is the number of microseconds since year 1, a time
is the number of microseconds since midnight.  Nothing here uses the
arithmetic of the code under test, or timedelta arithmetic.
"""
import datetime as dt
import zoneinfo

DAY = 86_400_000_000
UNITS = {'weeks': 7 * DAY, 'days': DAY, 'hours': 3_600_000_000,
         'minutes': 60_000_000, 'seconds': 1_000_000, 'milliseconds': 1000,
         'microseconds': 1}
KINDS = {'date': dt.date, 'datetime': dt.datetime, 'time': dt.time}
LOW = dt.date(2, 1, 1).toordinal() * DAY
HIGH = dt.date(9998, 1, 1).toordinal() * DAY


class Summer(dt.tzinfo):
    """A time zone with daylight saving time."""

    def utcoffset(self, d):
        return dt.timedelta(hours=-6) + self.dst(d)

    def dst(self, d):
        no, yes = dt.timedelta(0), dt.timedelta(hours=1)
        if d is None or not 4 <= d.month <= 9:
            return no
        if (d.month, d.day, d.hour) == (4, 1, 0):
            # There is no such hour.
            return yes if d.fold else no
        if (d.month, d.day, d.hour) == (9, 30, 23):
            # There are two such hours.
            return no if d.fold else yes
        return yes

    def fromutc(self, d):
        first = dt.datetime(d.year, 4, 1, 6, tzinfo=self)
        last = dt.datetime(d.year, 10, 1, 5, tzinfo=self)
        hours = -5 if first <= d < last else -6
        fold = last <= d < last + dt.timedelta(hours=1)
        return (d + dt.timedelta(hours=hours)).replace(fold=fold)

    def tzname(self, d):
        return 'summer'

    def __repr__(self):
        return 'Summer()'

    def __reduce__(self):
        return 'SUMMER'


SUMMER = Summer()
NAMED = {'summer': SUMMER}
for _name, _key in (('york', 'America/New_York'), ('paris', 'Europe/Paris')):
    try:
        NAMED[_name] = zoneinfo.ZoneInfo(_key)
    except zoneinfo.ZoneInfoNotFoundError:
        NAMED[_name] = SUMMER


def zone(name):
    """None, the name of a time zone or a fixed offset in minutes."""
    if name is None:
        return None
    if isinstance(name, str):
        return NAMED[name]
    return dt.timezone(dt.timedelta(minutes=name))


def clock(us):
    seconds, micro = divmod(us, 1_000_000)
    minutes, s = divmod(seconds, 60)
    h, m = divmod(minutes, 60)
    return h, m, s, micro


def value(kind, us, tz=None):
    """The date, datetime or time for a number of microseconds."""
    tz = zone(tz)
    if kind == 'time':
        return dt.time(*clock(us % DAY), tzinfo=tz)
    days, rest = divmod(us, DAY)
    d = dt.date.fromordinal(days)
    if kind == 'date':
        assert not rest
        return d
    return dt.datetime(d.year, d.month, d.day, *clock(rest), tzinfo=tz)


def number(v):
    """The number of microseconds of a date or datetime."""
    days = v.toordinal() * DAY
    if not isinstance(v, dt.datetime):
        return days
    return days + ((v.hour * 60 + v.minute) * 60
                   + v.second) * 1_000_000 + v.microsecond


def plain(v):
    """There is exactly one moment with this date and time."""
    return v.replace(fold=0).utcoffset() == v.replace(fold=1).utcoffset()


def bounds(kind, start, stop, step):
    """For times: the stop that is reached going in step's direction."""
    if kind == 'time':
        if step > 0 and stop <= start:
            stop += DAY
        if step < 0 and stop >= start:
            stop -= DAY
    return start, stop


def size(kind, start, stop, step):
    start, stop = bounds(kind, start, stop, step)
    if step > 0:
        return max(0, -((start - stop) // step))
    return max(0, -((stop - start) // -step))


def numbers(kind, start, stop, step):
    """All numbers of a range, one by one (like `range`)."""
    start, stop = bounds(kind, start, stop, step)
    out = []
    now = start
    while now < stop if step > 0 else now > stop:
        out.append(now)
        now += step
    return out


def items(kind, nums, tz=None):
    return [value(kind, n, tz) for n in nums]


def delta(us):
    return dt.timedelta(microseconds=us)


def equal(a, b):
    """Equal values of the same type with the same time zone."""
    return type(a) is type(b) and a == b and \
        getattr(a, 'tzinfo', None) is getattr(b, 'tzinfo', None) or (
            type(a) is type(b) and a == b and
            getattr(a, 'tzinfo', None) == getattr(b, 'tzinfo', None))


def gen_step(rng, kind):
    """Returns (step, unit, microseconds), valid for the kind."""
    while True:
        unit = rng.choice([None, None, *UNITS])
        real = unit or ('days' if kind == 'date' else 'seconds')
        if kind == 'date' and UNITS[real] < DAY:
            step = DAY // UNITS[real] * rng.choice([1, 1, 2, 7, 30])
        else:
            step = rng.choice([1, 1, 1, 2, 3, 5, 7, 10, 15, 24, 30, 45, 60,
                               90, 100, 365, 1000, 3600, 86399])
            if kind != 'date' and real in ('milliseconds', 'microseconds') \
                    and rng.random() < 0.5:
                # Large steps that aren't whole hours, minutes, ....
                step = rng.randrange(1, 2 * DAY) // UNITS[real] | 1
            if kind != 'date' and real in ('hours', 'minutes', 'seconds') \
                    and rng.random() < 0.2:
                step = rng.choice([0.5, 1.5, 0.25, 2.75])
        if rng.random() < 0.35:
            step = -step
        us = step * UNITS[real]
        assert us == int(us)
        us = int(us)
        if kind == 'time' and abs(us) >= DAY:
            continue
        return step, unit, us


def gen_point(rng, kind):
    if kind == 'date':
        day = rng.choice([dt.date(2020, 2, 27), dt.date(1999, 12, 30),
                          dt.date(2023, 1, 1), dt.date(1900, 2, 27),
                          dt.date(rng.randint(1000, 2900), rng.randint(1, 12),
                                  rng.randint(1, 28))])
        return day.toordinal() * DAY
    us = rng.choice([0, 0, DAY - 1, DAY // 2, DAY - 1_000_000, 1,
                     rng.randrange(0, 24) * UNITS['hours'],
                     rng.randrange(0, 1440) * UNITS['minutes'],
                     rng.randrange(0, 86400) * UNITS['seconds'],
                     rng.randrange(0, DAY)])
    if kind == 'time':
        return us
    return gen_point(rng, 'date') + us


def gen_zone(rng, kind):
    if kind == 'date' or rng.random() < 0.7:
        return None
    zones = [0, -360, 330, 60, 840]
    if kind == 'datetime':
        zones += ['summer', 'york', 'paris']
    return rng.choice(zones)


def gen_range(rng, most=200):
    """Generates a range with at most (about) `most` values."""
    while True:
        kind = rng.choice(['date', 'datetime', 'time', 'time'])
        step, unit, us = gen_step(rng, kind)
        start = gen_point(rng, kind)
        how = rng.choice(['count', 'count', 'count', 'offset', 'other',
                          'equal', 'wrong'])
        count = rng.choice([0, 1, 1, 2, 3, 5, 8, 20, 50, most])
        stop = start + count * us
        if how == 'offset' and kind != 'date':
            stop += rng.choice([1, -1]) * rng.randrange(
                1, abs(us) if abs(us) > 1 else 2)
        elif how == 'offset':
            stop += rng.choice([1, -1]) * DAY
        elif how == 'other':
            stop = gen_point(rng, kind)
        elif how == 'equal':
            stop = start
        elif how == 'wrong':
            stop = start - count * us
        if kind == 'time':
            stop %= DAY
        if not LOW < start < HIGH and kind != 'time' or \
                not LOW < stop < HIGH and kind != 'time':
            continue
        if size(kind, start, stop, us) > most:
            continue
        return {'kind': kind, 'start': start, 'stop': stop, 'step': step,
                'unit': unit, 'us': us, 'tz': gen_zone(rng, kind)}


def arguments(case, text=False):
    """The arguments of `dtrange` for a generated range."""
    start = value(case['kind'], case['start'], case['tz'])
    stop = value(case['kind'], case['stop'], case.get('tz2', case['tz']))
    args = [start, stop]
    if text and not isinstance(case['tz'], str):
        args = [a.isoformat() for a in args]
    kwargs = {}
    if case['step'] != 1:
        kwargs['step'] = case['step']
    if case['unit']:
        kwargs['step_unit'] = case['unit']
    return args, kwargs
