"""C22: date range arguments are parsed and validated."""
import datetime as dt

from fauxdoc.dtrange import DateOrTimeRange, dtrange
from fxmon import dtmodel as m
from fxmon.core import check, check_same, raises, short

RULE = ('random valid arguments as text and as objects, in all formats of '
        'isoformat, and random invalid ones (mismatched types, undecipherable '
        'text, other types, unknown units, steps that do not suit the type); '
        'non-trivial: an argument that is text, or an invalid one')
REQUIRED = {'parsed': 8000, 'mismatched': 3000, 'garbage': 3000,
            'bad_units': 1000, 'bad_steps': 2000, 'good_steps': 2000,
            'lengths': 1000, 'bad_starts': 300,
            'edited': 5000, 'edited_bad': 3000, 'edited_good': 300}
QUICK = 160000
THOROUGH = 3000000
ASSUMPTIONS = ['the fromisoformat methods of the running Python are the '
               'reference for what text means']
EDITS = [' ', '\n', '\t', '\xa0', 'Z', 'z', '+', '-', ':', '.', ',', 'T', 't',
         'W', '0', '1', '9', '00', '\u0661', '\uff11', '/', '_', "'", '\0',
         'x', '+00:00', ' 12:00', '-01']
MODES = ['edited', 'parse', 'mismatch', 'garbage', 'unit', 'step', 'length', 'start']
SPECS = [None, 'auto', 'hours', 'minutes', 'seconds', 'milliseconds',
         'microseconds']


def directed():
    cases = [{'limits': True}]
    for kind, us in (('date', 737000 * m.DAY), ('time', 3_723_000_004),
                     ('datetime', 737000 * m.DAY + 3_723_000_004)):
        for part in EDITS:
            for pos in range(27):
                for what in ('ins', 'rep', 'wrap'):
                    cases.append({
                        'mode': 'edited', 'kind': kind, 'start': us,
                        'tz': None, 'spec': None, 'n': 3, 'step': 1,
                        'unit': None, 'sep': 'T', 'swap': 2,
                        'edits': [[what, pos, part]]})
    for kind in m.KINDS:
        for us in (0, 1, 5000, 3_600_000_000, m.DAY - 1):
            start = us if kind == 'time' else 737000 * m.DAY
            start += us if kind == 'datetime' else 0
            for tz in (None,) if kind == 'date' else (None, 0, -360, 330):
                for spec in SPECS:
                    cases.append({'mode': 'parse', 'kind': kind,
                                  'start': start, 'tz': tz, 'spec': spec,
                                  'n': 3, 'step': 1, 'unit': None,
                                  'sep': 'T', 'swap': 2})
    return cases


def gen(rng):
    mode = rng.choice(MODES + ['parse', 'parse'])
    kind = rng.choice(list(m.KINDS))
    step, unit, _ = m.gen_step(rng, kind)
    case = {'mode': mode, 'kind': kind, 'start': m.gen_point(rng, kind),
            'tz': m.gen_zone(rng, kind), 'n': rng.randint(0, 9),
            'step': step, 'unit': unit, 'swap': rng.randint(0, 2),
            'spec': rng.choice(SPECS), 'sep': rng.choice(['T', ' '])}
    case['tz'] = None if isinstance(case['tz'], str) else case['tz']
    if mode == 'mismatch':
        case['other'] = rng.choice([k for k in m.KINDS if k != kind])
        case['texts'] = [rng.random() < 0.5, rng.random() < 0.5]
        case['other_start'] = m.gen_point(rng, case['other'])
    elif mode == 'garbage':
        case['text'] = ''.join(rng.choice('abcxyz?!/. ')
                               for _ in range(rng.randint(0, 8)))
        case['pick'] = rng.randint(0, 40)
    elif mode == 'edited':
        case['edits'] = [[rng.choice(['ins', 'del', 'rep', 'dup', 'wrap']),
                          rng.randint(0, 30),
                          rng.choice(EDITS)]
                         for _ in range(rng.choice([1, 1, 1, 2]))]
    elif mode == 'unit':
        case['unit'] = rng.choice([
            'years', 'months', 'day', 'Days', 'second', 'sec', '', 'h',
            'fortnights', ' days', 'DAYS', 'week', 'days ', 'decades',
            'x' * rng.randint(1, 9)])
    elif mode == 'step':
        case['us'] = rng.choice([
            rng.randint(1, 10**6), rng.randint(1, m.DAY),
            m.DAY * rng.randint(1, 40), m.DAY + rng.randint(-3, 3),
            m.DAY - 1, m.DAY, m.DAY + 1, 2 * m.DAY - 1,
            rng.randint(1, 60 * m.DAY), m.UNITS['hours'] * 12,
            m.UNITS['hours'] * 36]) * rng.choice([1, 1, -1])
        case['unit'] = rng.choice(['microseconds', 'best'])
    elif mode == 'length':
        case['length'] = rng.choice([0, 1, 5, '7', ' 3 ', 4.0, 2.9, True,
                                     'x', '', '1.5', '7a', None])
    return case


def text_of(value, case):
    if type(value) is dt.date:
        return value.isoformat()
    if type(value) is dt.time:
        return value.isoformat(case['spec'] or 'auto')
    return value.isoformat(case['sep'], case['spec'] or 'auto')


def cut(value, spec):
    """The value that is left if it's written with `spec`."""
    if type(value) is dt.date or spec in (None, 'auto', 'microseconds'):
        return value
    parts = {'microsecond': value.microsecond // 1000 * 1000}
    if spec != 'milliseconds':
        parts['microsecond'] = 0
        if spec != 'seconds':
            parts['second'] = 0
            if spec != 'minutes':
                parts['minute'] = 0
    return value.replace(**parts)


def run(case, obs):
    if case.get('limits'):
        return run_limits(obs)
    mode, kind = case['mode'], case['kind']
    a = m.value(kind, case['start'], case['tz'])
    obs.state(mode, kind, case['spec'], case['tz'], case['unit'])
    kwargs = {'step': case['step']}
    if case['unit']:
        kwargs['step_unit'] = case['unit']
    if mode == 'parse':
        real = case['unit'] or ('days' if kind == 'date' else 'seconds')
        us = int(case['step'] * m.UNITS[real])
        stop = case['start'] + case['n'] * us
        if kind != 'time' and not m.LOW < stop < m.HIGH:
            return
        b = m.value(kind, stop, case['tz'])
        texts = (text_of(a, case), text_of(b, case))
        a, b = cut(a, case['spec']), cut(b, case['spec'])
        args = [(texts[0], b), (a, texts[1]), texts][case['swap']]
        got, want = dtrange(*args, **kwargs), dtrange(a, b, **kwargs)
        what = f'dtrange{args} {kwargs}'
        check(m.equal(got.start, a), f'{what}: start is {got.start!r}')
        check_same(len(got), len(want), f'{what}: length')
        check_same(got.step, m.delta(us), f'{what}: step')
        check(got == want and hash(got) == hash(want), lambda: (
            f'{what} is {got!r}, expected {want!r}'))
        check(all(m.equal(x, y) for x, y in zip(got[:20], want[:20])),
              lambda: f'{what}: values')
        obs.ev('parsed')
        obs.nontrivial()
    elif mode == 'mismatch':
        b = m.value(case['other'], case['other_start'], None)
        args = [text_of(v, case) if t else v
                for v, t in zip((a, b), case['texts'])]
        for pair in (args, args[::-1]):
            raises(ValueError, dtrange, *pair)
            for unit in m.UNITS:
                raises(ValueError, dtrange, *pair, 1, unit)
            obs.ev('mismatched')
        obs.nontrivial()
    elif mode == 'garbage':
        for bad in (case['text'], GARBAGE[case['pick'] % len(GARBAGE)]):
            for pair in ((bad, a), (a, bad), (bad, bad)):
                raises(ValueError, dtrange, *pair)
                obs.ev('garbage')
        obs.nontrivial()
    elif mode == 'edited':
        run_edited(case, a, kind, obs)
    elif mode == 'unit':
        raises(ValueError, dtrange, a, a, case['step'], case['unit'])
        raises(ValueError, dtrange, a, a, step_unit=case['unit'])
        obs.ev('bad_units')
        obs.nontrivial()
    elif mode == 'step':
        step(case, a, kind, obs)
    elif mode == 'length':
        length(case, a, kind, obs)
    elif mode == 'start':
        for bad in (*NOT_DATES, *GARBAGE, text_of(a, case)):
            raises(ValueError, DateOrTimeRange, bad, 1, dt.timedelta(days=1))
            obs.ev('bad_starts')
        for bad in (1, None, 'x', 1.5, '1', a):
            raises(ValueError, DateOrTimeRange, a, 1, bad)
        obs.nontrivial()


NOT_DATES = [None, 0, 1, 20200101, 1.5, [], (), {}, b'2020-01-01', object(),
             dt.timedelta(1), dt.date, True, {'a': 1}]
GARBAGE = ['', ' ', 'x', 'today', 'now', '2020-13-01', '2020-02-30',
           '2020-1-1', '25:00', '12:60', '12:00:60', '2020-01-01T25:00',
           '2020-01-01 12:60:00', '01/02/2020', '2020-01-01T',
           '2020-01-01x', 'x2020-01-01', '2020-01-01T12:00:00+25:00',
           '-2020-01-01', '0000-01-01', '12:00:00.', '99:99', 'None',
           *NOT_DATES]


def edit(text, edits):
    for what, pos, part in edits:
        pos %= len(text) + 1
        if what == 'wrap':
            text = part + text if pos % 3 == 0 else text + part \
                if pos % 3 == 1 else part + text + part
        elif what == 'ins':
            text = text[:pos] + part + text[pos:]
        elif what == 'del':
            text = text[:pos] + text[pos + 1:]
        elif what == 'rep':
            text = text[:pos] + part + text[pos + 1:]
        else:
            text = text[:pos] + text[pos:pos + 2] + text[pos:]
    return text


def run_edited(case, a, kind, obs):
    """Text that is nearly right: the standard library has the say."""
    text = edit(text_of(a, case), case['edits'])
    found = {}
    for cls in (dt.date, dt.time, dt.datetime):
        try:
            found[cls] = cls.fromisoformat(text)
        except ValueError:
            pass
    obs.ev('edited')
    if type(a) not in found:
        obs.ev('edited_bad')
        for pair in ((text, a), (a, text)):
            raises(ValueError, dtrange, *pair)
        if not found:
            raises(ValueError, dtrange, text, text)
            raises(ValueError, DateOrTimeRange, text, 1, dt.timedelta(days=1))
        obs.nontrivial()
    elif len(found) == 1 or type(a) is dt.date:
        value = found[type(a)]
        got = dtrange(text, text)
        check(m.equal(got.start, value) and got == dtrange(value, value),
              lambda: f'dtrange({text!r}, {text!r}) is {got!r}, expected '
                      f'{value!r} to be its start')
        obs.ev('edited_good')
        obs.nontrivial()


def step(case, a, kind, obs):
    us = case['us']
    unit, amount = 'microseconds', us
    if case['unit'] == 'best':
        unit, amount = next((u, us // size) for u, size in m.UNITS.items()
                            if us % size == 0)
    good = {'date': us % m.DAY == 0, 'time': abs(us) < m.DAY,
            'datetime': True}[kind]
    what = f'{kind} with step {us} us'
    for func in (lambda: dtrange(a, a, amount, unit),
                 lambda: dtrange(a, a, step=amount, step_unit=unit),
                 lambda: DateOrTimeRange(a, 2, m.delta(us))):
        if good:
            check_same(func().step, m.delta(us), what)
            obs.ev('good_steps')
        else:
            raises(ValueError, func)
            obs.ev('bad_steps')
            obs.nontrivial()


def length(case, a, kind, obs):
    given = case['length']
    td = dt.timedelta(days=1) if kind == 'date' else dt.timedelta(hours=1)
    if given in ('x', '', '1.5', '7a', None):
        raises((ValueError, TypeError), DateOrTimeRange, a, given, td)
        obs.nontrivial()
    else:
        r = DateOrTimeRange(a, given, td)
        want = int(given)
        check_same((r.length, len(r)), (want, want), f'length {given!r}')
        check_same(r == DateOrTimeRange(a, want, td), True, 'equality')
        check(len(list(r)) == want and len(r[:]) == want, 'values')
        check(type(repr(r)) is str, 'repr')
    obs.ev('lengths')


def run_limits(obs):
    """Defaults, and the steps that are just inside the limits."""
    d, t = dt.date(2020, 2, 28), dt.time(10)
    d2, t2 = dt.date(2020, 3, 2), dt.time(10, 0, 2)
    w, w2 = dt.datetime(2020, 2, 28), dt.datetime(2020, 2, 28, 0, 0, 2)
    check_same(list(dtrange(d, d2)),
               [d, dt.date(2020, 2, 29), dt.date(2020, 3, 1)], 'default: days')
    check_same(list(dtrange(t, t2)), [t, dt.time(10, 0, 1)],
               'default: seconds')
    check_same(list(dtrange(w, w2)), [w, dt.datetime(2020, 2, 28, 0, 0, 1)],
               'default: seconds')
    for start, stop in ((d, d2), (t, t2), (w, w2)):
        default = dtrange(start, stop)
        unit = 'days' if start is d else 'seconds'
        check(default == dtrange(start, stop, 1, unit)
              == dtrange(start, stop, step=1, step_unit=None)
              == dtrange(start=start, stop=stop, step=1.0), 'defaults')
        obs.ev('parsed')
    for sign in (1, -1):
        for unit, n in (('hours', 24), ('minutes', 1440), ('seconds', 86400),
                        ('days', 1), ('weeks', 1)):
            raises(ValueError, dtrange, t, t2, sign * n, unit)
            check(dtrange(d, d2, sign * n, unit).step.seconds == 0, 'step')
            if unit in ('hours', 'minutes', 'seconds'):
                check_same(dtrange(t, t, sign * (n - 1), unit).length, 2,
                           'a step just less than a day')
                raises(ValueError, dtrange, d, d2, sign * (n - 1), unit)
                raises(ValueError, dtrange, d, d2, sign * (n + 1), unit)
            obs.ev('good_steps')
    for frac in (0.5, 1.5, -0.25, 1e-9 * 86400):
        raises(ValueError, dtrange, d, d2, frac, 'days')
    obs.nontrivial()
