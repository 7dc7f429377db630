"""C30: long runs need constant memory; lazy sources stay lazy."""
import collections.abc
import datetime
import gc
import itertools
import os
import sys
import tracemalloc

import fauxdoc
from fauxdoc.dtrange import dtrange
from fauxdoc.emitters import (
    BasedOnFields, chance, Choice, CopyFields, gaussian_choice, Iterative,
    poisson_choice, Sequential, Static, Text, Word, WrapMany, WrapOne)
from fauxdoc.group import ObjectGroup, ObjectMap
from fauxdoc.profile import Field, Schema
from fxmon import drive, specs
from fxmon.core import check

RULE = ('random emitters, fields and schemas, and loops over changes of '
        'settings and range operations, repeated thousands of times under '
        'tracemalloc and a line counter; and sequences, ranges and iterators '
        'that count what is taken from them; non-trivial: at least 1000 '
        'repetitions, or a source with at least a million values')
REQUIRED = {'iterations': 200000, 'calls': 300000, 'measurements': 300,
            'churns': 20, 'lazy': 60, 'taken': 10000}
QUICK = 150
THOROUGH = 2500
ASSUMPTIONS = ['a leak of at least 6 bytes per repetition of a loop that goes '
               'on for thousands of repetitions, or work that becomes 4 times '
               'as much; smaller ones are not seen']

POINTS = (300, 1000, 2300)
BYTES = 6
WINDOW = 50
SRC = os.path.dirname(os.path.realpath(fauxdoc.__file__))


# -- loops --------------------------------------------------------------

def c_weights(i):
    em = Choice(range(6), rng_seed=1)

    def go():
        em.weights = [1, 2, 3, 4, 5, 6]
        em.cum_weights = [1, 2, 3, 4, 5, 6]
        em(3)
        em.weights = None
    return go


def c_replace(i):
    em = Choice(range(6), rng_seed=1)

    def go():
        em.replace = False
        em(2), em(), em.num_unique_values, em.emits_unique_values
        em.replace_only_after_call = True
        em(5)
        em.replace = True
        try:
            em.replace = False
            em(7)
        except ValueError:
            pass
        em.reset()
    return go


def c_wrapper(i):
    em = WrapOne(Choice(range(6), rng_seed=1), str)
    many = WrapMany({'a': Sequential('abc'), 'b': em},
                    lambda a, b, rng: (a, b, rng.random()), rng_seed=1)

    def go():
        em.set_wrapper_function(lambda v: v)
        many.set_wrapper_function(lambda a, b: (a, b))
        many(3), em.wrapper.signature, many()
    return go


def c_action(i):
    one = Field('one', Choice(range(6), rng_seed=1))
    two = Field('two', Sequential('abc'), repeat=Sequential([1, 2]))
    em = BasedOnFields([one, two], lambda one, two: (one, two))
    copy = CopyFields(two)

    def go():
        em.set_action_function(lambda one, two, rng: (one, rng.random()))
        one(), two()
        em.set_source_fields([one, two])
        em(2), em(), copy(), copy(3)
        copy.set_source_fields([one, two])
        copy()
        em.reset_source(), copy.reset_source(), em.seed_source(3)
    return go


def c_schema(i):
    fields = [Field(f'f{i}', Choice(range(6), rng_seed=1), hide=i == 1,
                    gate=chance(0.5, rng_seed=2)) for i in range(4)]
    schema = Schema(*fields)

    def go():
        schema(), schema.hidden_fields, schema.public_fields
        schema.add_fields(fields[2], fields[0])
        schema()
        schema.set_fields(*fields)
        schema(), schema.reset_fields(), schema.seed_fields(4)
    return go


def c_field(i):
    field = Field('f', Static(1))

    def go():
        field.emitter = Choice('abc')
        field.repeat_emitter = Static(2)
        field.gate_emitter = chance(0.7)
        field(), field.multi_valued, field.previous
        field.seed(3), field.reset()
    return go


def c_fixed(i):
    em = Iterative(lambda: iter('abc'))
    static = Static(1)

    def go():
        em.iterator_factory = lambda: itertools.count()
        em(5), em()
        em.reset_after_call = not em.reset_after_call
        em.reset()
        try:
            em.iterator_factory = lambda: iter(())
        except ValueError:
            pass
        static.value = [1]
        static(3)
    return go


def c_range(i):
    days = dtrange('2020-01-01', '2023-01-01')
    times = dtrange('20:00', '04:00', 90, 'minutes')
    day = datetime.date(2021, 5, 6)

    def go():
        days.index(day), day in days, days[5], days[-3:], days[::7][3]
        times.index(datetime.time(0, 30)), times[::-1], times.count(times[2])
        hash(days), repr(times), days == days[:], days.stop, len(times)
        list(times), list(reversed(times))
    return go


def c_find(i):
    """Ranges that are asked for ever new values, slices and indexes."""
    r = dtrange('2000-01-01T00:00', '2099-01-01T00:00')
    days = dtrange('2000-01-01', '9000-01-01')
    times = dtrange('20:00', '04:00', 7, 'microseconds')
    start, day = datetime.datetime(2001, 2, 3), datetime.date(2001, 2, 3)
    count = itertools.count(10 ** 6)

    def go():
        n = next(count)
        at = start + datetime.timedelta(seconds=n, microseconds=n % 3)
        at in r, r.count(at), r[n], r[-n], r[n::3], r[:n:-2]
        at.time() in times, times.count(at.time()), times[n]
        date = day + datetime.timedelta(days=n % 10 ** 5)
        date in days, days.count(date), days[n - 10 ** 6], days[:n]
        try:
            r.index(at), days.index(date), times.index(at.time())
        except ValueError:
            pass
        r == r[:n], days == days[n:]
    return go


def c_make(i):
    """Objects that are dropped again."""
    choice = Choice('abcdef', rng_seed=3)

    def go():
        word = Word(Choice(range(1, 5)), choice, rng_seed=5)
        text = Text(Static(3), word)
        f = Field('f', text)
        g = Field('g', BasedOnFields(f, str))
        Schema(f, g)()
        poisson_choice(range(9))(3), gaussian_choice(range(9))(3)
        dtrange('10:00', '12:00', 7)[3]
        ObjectGroup(word, text).do_method('reset')
        ObjectMap({'a': word, 'b': text}).setattr('rng_seed', 4)
    return go


def c_words(i):
    """Ever new values."""
    word = Word(Static(9), Choice([chr(c) for c in range(200, 900)],
                                  rng_seed=2), rng_seed=5)
    wrapped = WrapOne(word, lambda w: (w, 1))
    text = Text(Choice([2, 3]), word, rng_seed=4)
    f = Field('f', wrapped, repeat=Choice([1, 2]))
    copy = Field('copy', CopyFields(f, '; '))
    based = Field('based', BasedOnFields(f, lambda v: str(v)))
    schema = Schema(f, copy, based)

    def go():
        schema(), word(), word(3), wrapped(2), text()
    return go


def c_group(i):
    group = ObjectGroup(*(Choice('abc', rng_seed=j) for j in range(3)))
    omap = ObjectMap({str(j): em for j, em in enumerate(group)})

    def go():
        group.setattr('rng_seed', 7), group.do_method('reset')
        omap.do_method('seed', 5), omap.setattr('none', 1)
        group[:2], group + [1], group * 2, group.copy(), omap.copy()
        list(group.objects_iterable), list(omap.objects_iterable)
    return go


CHURN = {n[2:]: f for n, f in list(globals().items()) if n.startswith('c_')}


def loop_of(case):
    if 'churn' in case:
        return CHURN[case['churn']](0), 1
    subject = drive.Subject(case)
    ops = case['ops']

    def go():
        for op in ops:
            if op == 'reset':
                subject.reset()
            elif isinstance(op, list):
                subject.seed(op[1])
            else:
                subject.call(op)
    return go, len(ops)


def lines_of(go):
    """Executed lines of the library in a window of repetitions."""
    lines = 0

    def local(frame, event, arg):
        nonlocal lines
        lines += event == 'line'
        return local

    def top(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(SRC) else None
    before = sys.gettrace()
    sys.settrace(top)
    try:
        for _ in range(WINDOW):
            go()
    finally:
        sys.settrace(before)
    return lines


def run_loop(case, obs):
    go, calls = loop_of(case)
    done = 0
    used = []
    tracemalloc.start()
    try:
        for point in POINTS:
            while done < point:
                go()
                done += 1
            gc.collect()
            used.append(tracemalloc.get_traced_memory()[0])
            obs.ev('measurements')
            if len(used) == 1:
                early = lines_of(go)
                done += WINDOW
    finally:
        tracemalloc.stop()
    late = lines_of(go)
    grown = [b - a for a, b in zip(used, used[1:])]
    allowed = [BYTES * (b - a) for a, b in zip(POINTS, POINTS[1:])]
    check(not all(g > a for g, a in zip(grown, allowed)), lambda: (
        f'memory after {POINTS} repetitions: {used} bytes'))
    check(late <= 4 * early + 2000, lambda: (
        f'{WINDOW} repetitions execute {late} lines after {done} repetitions, '
        f'and {early} lines before'))
    obs.ev('iterations', done)
    obs.ev('calls', done * calls)
    obs.ev('churns', 'churn' in case)
    obs.nontrivial()


# -- lazy sources -------------------------------------------------------

class LazySeq(collections.abc.Sequence):
    """A long sequence that counts what is taken from it."""

    def __init__(self, n):
        self.n = n
        self.taken = 0

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            self.taken += len(range(self.n)[i])
            return list(range(self.n)[i])
        if not -self.n <= i < self.n:
            raise IndexError(i)
        self.taken += 1
        return i % self.n


LAZY = ('choice', 'roac', 'sequential', 'iterative', 'wrap1', 'wrapn', 'field',
        'schema', 'range_choice', 'range_seq', 'range_slice', 'range_ops',
        'repeat', 'word', 'text')
MEMORY = 400000
N = 2000000


def directed():
    cases = [{'churn': name} for name in CHURN] * 2
    for kind in LAZY:
        for ns in ([None] * 5, [1, 0, 30, 4], [200], [0]):
            cases.append({'lazy': kind, 'ns': ns})
    return cases


def gen(rng):
    if rng.random() < 0.15:
        return {'lazy': rng.choice(LAZY), 'ns': [
            rng.choice([None, 0, 1, rng.randint(2, 300)])
            for _ in range(rng.randint(1, 12))]}
    while True:
        case = drive.gen_subject(rng, schema=0.35)
        if 'fields' in case and any(
                fs['em'].get('replace') is False or fs['em']['k'] == 'wrap1'
                for fs in case['fields']):
            continue
        break
    ops = []
    if 'spec' in case:
        calls = specs.gen_calls(rng, case['spec'], 1, 4, big=0)
        calls = [c if c is None or c < 30 else c % 30 for c in calls]
        limited = specs.capacity(case['spec']) is not None
    else:
        calls = [None]
        limited = False
    if limited or rng.random() < 0.3:
        ops.append('reset')
    elif rng.random() < 0.3:
        ops.append(['seed', 5])
    return {**case, 'ops': ops + calls}


def run(case, obs):
    obs.state({k: v for k, v in case.items()})
    if 'lazy' in case:
        run_lazy(case, obs)
    else:
        run_loop(case, obs)


def run_lazy(case, obs):
    kind, ns = case['lazy'], case['ns']
    total = sum(1 if n is None else n for n in ns)
    seq = LazySeq(N)
    tracemalloc.start()
    try:
        if kind == 'choice':
            em = Choice(seq, rng_seed=1)
        elif kind == 'roac':
            em = Choice(seq, replace_only_after_call=True, rng_seed=1)
        elif kind == 'sequential':
            em = Sequential(seq)
        elif kind == 'iterative':
            def generate():
                for i in itertools.count():
                    seq.taken += 1
                    yield i
            em = Iterative(generate)
        elif kind == 'wrap1':
            em = WrapOne(Choice(seq), lambda v, rng: v, rng_seed=1)
        elif kind == 'wrapn':
            em = WrapMany({'a': Choice(seq), 'b': Sequential(seq)},
                          lambda a, b: (a, b), rng_seed=1)
        elif kind == 'field':
            em = each(Field('f', Sequential(seq), gate=Choice([True])))
        elif kind == 'schema':
            em = each(Schema(Field('f', Choice(seq), rng_seed=4)))
        elif kind == 'repeat':
            em = each(Field('f', Static(1), repeat=WrapOne(
                Choice(seq, rng_seed=3), lambda v: v % 3)))
        elif kind == 'word':
            em = WrapOne(Word(Static(1), WrapOne(Choice(seq, rng_seed=3),
                                                 lambda v: chr(65 + v % 9))),
                         str.lower)
        elif kind == 'text':
            em = Text(Static(1), WrapOne(Choice(seq, rng_seed=3), str))
        elif kind == 'range_choice':
            em = Choice(dtrange('2000-01-01T00:00', '2099-01-01T00:00'),
                        rng_seed=1)
        elif kind == 'range_seq':
            em = Sequential(dtrange('2000-01-01T00:00', '2099-01-01T00:00'))
        elif kind == 'range_slice':
            em = Choice(dtrange('2000-01-01T00:00', '2099-01-01T00:00')
                        [:10:-3], rng_seed=1, replace_only_after_call=True)
        else:
            em = each(range_ops)
        base = tracemalloc.get_traced_memory()[0]
        tracemalloc.reset_peak()
        for n in ns:
            got = em() if n is None else em(n)
            del got
        peak = tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()
    check(peak < MEMORY and base < MEMORY, lambda: (
        f'{kind}: {total} values need {base}, {peak} bytes'))
    check(seq.taken <= 4 * total + 40, lambda: (
        f'{seq.taken} values were taken from a source to emit {total}'))
    obs.ev('lazy')
    obs.ev('taken', seq.taken + total)
    obs.nontrivial()


def each(func):
    def em(n=None):
        return func() if n is None else [func() for _ in range(n)]
    return em


def range_ops():
    r = dtrange('2000-01-01T00:00', '2099-01-01T00:00', 2)
    at = datetime.datetime(2050, 1, 1)
    r.index(at), at in r, r.count(at), len(r), r[10 ** 8], hash(r), repr(r)
    r == r[:], r[::-1] == r[::2], bool(r[5:5]), r.stop
    next(iter(r)), next(reversed(r))
    return r.index(r[::-5][7])
