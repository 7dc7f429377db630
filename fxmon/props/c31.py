"""C31: errors in parts that the user supplies."""
import random

from fauxdoc.emitters import (
    BasedOnFields, Iterative, Sequential, Text, Word, WrapMany, WrapOne)
from fauxdoc.group import ObjectGroup, ObjectMap
from fauxdoc.mixins import RandomMixin, RandomWithChildrenMixin
from fauxdoc.profile import Field, Schema
from fxmon.core import check, check_same, short
from fxmon.recorders import Recorder

RULE = ('sources, functions, gates, repeats, iterators and factories that '
        'raise errors of many types at scripted values, in all kinds of '
        'parents; the monitor checks the identity of the error that reaches '
        'the caller and computes each later result from the logs of the '
        'parts; also resets in which a child fails; non-trivial: a fault was '
        'injected and a call after it was checked')
REQUIRED = {'faults': 5000, 'calls_after_fault': 5000, 'batches_after': 2000,
            'reset_faults': 500, 'seed_faults': 500, 'documents': 2000, 'iterators': 800}
QUICK = 15000
THOROUGH = 1170000
ASSUMPTIONS = ['the errors injected are not StopIteration or GeneratorExit '
               '(but for errors of `reset` and `seed`), which have a meaning '
               'of their own in iterators']

ERRORS = [ValueError, TypeError, AttributeError, KeyError, IndexError,
          RuntimeError, ZeroDivisionError, OSError, AssertionError,
          NotImplementedError, OverflowError, LookupError, Exception]
RESET_ERRORS = ERRORS + [StopIteration, GeneratorExit, BaseException]
INDEX = ERRORS.index(IndexError)     # ends a sequence, as it should
KINDS = ('wrap1', 'wrapn', 'word', 'text', 'field', 'nest', 'based', 'schema',
         'iterator', 'factory', 'sequence', 'doc_based')


def boom(kind, errors=ERRORS):
    base = errors[kind % len(errors)]
    return type('Boom', (base,), {})('injected')


class Plan:
    """The faults of a case: the next error to raise, and the last one."""

    def __init__(self, faults):
        # (part, number of the event in that part) -> type of error
        self.faults = {(p, at): kind for p, at, kind in faults}
        self.raised = None

    def hit(self, part, at):
        kind = self.faults.pop((part, at), None)
        if kind is not None:
            self.raised = boom(kind, RESET_ERRORS if at in ('seed', 'reset')
                               else ERRORS)
            raise self.raised


class Flaky(Recorder):
    """A scripted emitter that fails where the plan says so."""

    def __init__(self, name, script, plan):
        super().__init__(script)
        self.name = name
        self.plan = plan
        self.events = 0

    def value(self):
        self.events += 1
        self.plan.hit(self.name, self.events)
        return super().value()

    def reset(self):
        self.plan.hit(self.name, 'reset')
        self.resets += 1
        self.pos = 0


class Subject:
    """What is called, and how to compute its values from the logs."""

    def __init__(self, kind, plan, script):
        self.plan = plan
        self.calls = []
        self.parts = {}
        self.single_only = kind in ('field', 'nest', 'schema', 'doc_based')
        getattr(self, kind)(script)
        for p in self.parts.values():
            p.take()
            p.events = 0
        del self.calls[:]
        self.fn_events = 0

    def part(self, name, script):
        self.parts[name] = part = Flaky(name, script, self.plan)
        return part

    def take(self, name):
        return self.parts[name].take()

    def called(self, value):
        """What the wrapper functions do."""
        self.fn_events = getattr(self, 'fn_events', 0) + 1
        self.plan.hit('fn', self.fn_events)
        self.calls.append(value)
        return ('made', value)

    def clear(self):
        for p in self.parts.values():
            p.take()
        del self.calls[:]

    # -- kinds ----------------------------------------------------------
    def wrap1(self, script):
        self.em = WrapOne(self.part('a', script), self.called)
        self.expect = lambda n: [('made', v) for v in self.take('a')]

    def wrapn(self, script):
        self.em = WrapMany({'a': self.part('a', script),
                            'b': self.part('b', 'xyzw')},
                           lambda a, b: self.called((a, b)))
        self.expect = lambda n: [
            ('made', v) for v in zip(self.take('a'), self.take('b'))]

    def word(self, script):
        self.em = Word(self.part('a', script), self.part('b', 'abcdefg'))
        self.expect = self.words

    def words(self, n):
        chars = self.take('b')
        out = []
        for k in self.take('a'):
            out.append(''.join(chars[:k]))
            del chars[:k]
        check(not chars, lambda: f'characters were lost: {chars}')
        return out

    def text(self, script):
        self.em = Text(self.part('a', script), self.part('b', ['u', 'v', 'w']),
                       self.part('c', '-+*'))

        def expect(n):
            words, seps = self.take('b'), self.take('c')
            out = []
            for k in self.take('a'):
                text = ''
                for i in range(k):
                    text += (seps.pop(0) if i else '') + words.pop(0)
                out.append(text)
            check(not words and not seps, 'words or separators were lost')
            return out
        self.expect = expect

    def field(self, script):
        self.em = Field('f', self.part('a', list('pqrstu')),
                        repeat=self.part('b', script),
                        gate=self.part('c', [1, True, 0, True, False]))

        def expect(n):
            gate, = self.take('c')
            if not gate:
                check(not self.take('a') and not self.take('b'),
                      'asked although the gate is closed')
                return [None]
            k, = self.take('b')
            values = self.take('a')
            check_same(len(values), k, 'number of values')
            return [values]
        self.expect = expect

    def nest(self, script):
        self.em = Field('f', WrapOne(
            Word(self.part('a', script), self.part('b', 'abcdefg')),
            self.called), repeat=self.part('c', [2, 0, 3, 1]))
        self.expect = lambda n: [[('made', w) for w in self.words(n)]]

    def based(self, script):
        self.source = Field('s', self.part('a', script))
        self.source()
        self.em = BasedOnFields(self.source, self.called)

        def expect(n):
            # Values in a batch are all based on the same source value.
            return [('made', self.source.previous)] * n
        self.expect = expect

    def schema(self, script):
        self.em = Schema(*[Field(f'f{i}', self.part(f'f{i}', [
            f'{i}:{j}' for j in range(5)]), hide=i == 1) for i in range(4)])

        def expect(n):
            logs = [self.take(f'f{i}') for i in range(4)]
            check(all(len(log) == 1 for log in logs), lambda: (
                f'fields were evaluated {[len(log) for log in logs]} times'))
            return [{f'f{i}': logs[i][0] for i in (0, 2, 3)}]
        self.expect = expect

    def doc_based(self, script):
        one = Field('one', self.part('a', script))
        two = Field('two', self.part('b', list('klmn')), hide=True)
        three = Field('three', BasedOnFields(
            [one, two], lambda one, two: self.called((one, two))))
        self.em = Schema(one, two, three)

        def expect(n):
            a, = self.take('a')
            b, = self.take('b')
            check_same(self.calls, [(a, b)], 'calls of the action')
            return [{'one': a, 'three': ('made', (a, b))}]
        self.expect = expect

    def iterator(self, script):
        # A generator is finished by its own error; other iterators are not.
        source = self.part('a', script)

        class It:
            def __init__(self):
                self.left = 4

            def __iter__(self):
                return self

            def __next__(self):
                if not self.left:
                    raise StopIteration
                self.left -= 1
                return source()

        def generate():
            for _ in range(3):
                yield source()
        self.em = Iterative(It if len(script) % 2 else generate)
        self.expect = lambda n: self.take('a')

    def factory(self, script):
        source = self.part('a', script)
        self.made = []

        def make():
            self.called('factory')
            pair = [(len(self.made), 0, source()), (len(self.made), 1, source())]
            self.made += pair
            return iter(pair)
        self.em = Iterative(make)
        self.at = len(self.made)

        def expect(n):
            self.at += n
            return self.made[self.at - n:self.at]
        self.expect = expect

    def start_again(self):
        # What is left of an iterator is dropped in a reset; and a factory
        # only fails when its last iterator is used up.
        if hasattr(self, 'made'):
            self.at = len(self.made)

    def sequence(self, script):
        source = self.part('a', script)

        class Seq:
            def __len__(self):
                return 5

            def __getitem__(self, i):
                if not 0 <= i < 5:
                    raise IndexError
                return source()
        self.em = Sequential(Seq())
        self.expect = lambda n: self.take('a')


class Seeded(Flaky):
    """Fails in `seed` where the plan says so."""

    def __init__(self, name, plan):
        super().__init__(name, [1], plan)
        self.seeds = []

    def seed(self, rng_seed):
        self.plan.hit(self.name, 'seed')
        self.seeds.append(rng_seed)


class Base:
    """A base class that comes after the mixins, and may fail, too."""

    def seed(self, rng_seed):
        self.plan.hit('base', 'seed')
        self.seeds = [*getattr(self, 'seeds', []), rng_seed]

    def reset(self):
        if hasattr(self, 'plan'):
            self.plan.hit('base', 'reset')
            self.resets = getattr(self, 'resets', 0) + 1


class OwnOne(RandomMixin, Base):
    pass


class OwnMany(RandomWithChildrenMixin, Base):
    pass


class FlakyRandom(random.Random):
    plan = None

    def seed(self, *args):
        if self.plan:
            self.plan.hit('rng', 'seed')
        super().seed(*args)


SEEDED = {
    'wrap1': lambda a, b: WrapOne(a, str),
    'wrapn': lambda a, b: WrapMany({'a': a, 'b': b}, lambda a, b: a),
    'word': lambda a, b: Word(a, b),
    'text': lambda a, b: Text(a, Sequential('x'), b),
    'field': lambda a, b: Field('x', a, gate=b),
    'schema': lambda a, b: Schema(Field('x', a), Field('y', b)),
    'map': lambda a, b: ObjectMap({'a': a, 'b': b}),
    'group': lambda a, b: ObjectGroup(a, b),
    'own_one': lambda a, b: OwnOne(),
    'own_many': lambda a, b: OwnMany(children={'a': a, 'b': b}),
}


def run_seeds(case, obs):
    """Errors in `seed` (and `reset`) of children, bases, generators."""
    plan = Plan([])
    parts = {name: Seeded(name, plan) for name in 'ab'}
    em = SEEDED[case['kind']](parts['a'], parts['b'])
    if isinstance(em, Base):
        em.plan = plan
        parts['base'] = em
    if case['kind'] == 'own_one':
        del parts['a'], parts['b']
    if case['kind'] == 'wrap1':
        del parts['b']
    seed = {'schema': lambda s: em.seed_fields(s),
            'map': lambda s: em.do_method('seed', s),
            'group': lambda s: em.do_method('seed', s)}.get(
                case['kind'], lambda s: em.seed(s))
    reset = {'schema': lambda: em.reset_fields(),
             'map': lambda: em.do_method('reset'),
             'group': lambda: em.do_method('reset')}.get(
                 case['kind'], lambda: em.reset())
    for number, (op, fault, error) in enumerate(case['ops']):
        plan.raised = None
        plan.faults = {(fault, op): error} if fault else {}
        if hasattr(em, 'rng') and not isinstance(em.rng, FlakyRandom):
            em.rng = FlakyRandom(1)
            em.rng.plan = plan
        possible = fault in parts or op == 'seed' and fault == 'rng' and \
            hasattr(em, 'rng')
        what = f'{case["kind"]} step {number}, {op}, fault in {fault}'
        before = {name: p.resets for name, p in parts.items()
                  if hasattr(p, 'resets')}
        try:
            seed(number) if op == 'seed' else reset()
        except BaseException as e:
            check(e is plan.raised, lambda: (
                f'{what}: {e!r} was raised, not {plan.raised!r}'))
            obs.ev('seed_faults')
            obs.nontrivial()
            continue
        check(plan.raised is None, f'{what}: the error was hidden')
        check(not possible, f'{what}: the part was not reached')
        for name, p in parts.items():
            if op == 'seed':
                check_same(p.seeds[-1:], [number],
                           f'{what}: last seed of {name}')
            else:
                check(p.resets > before.get(name, 0),
                      f'{what}: {name} was not reset')
    obs.state('seeds', case['kind'], case['ops'][0])


def directed():
    cases = []
    for kind in SEEDED:
        for op in ('seed', 'reset'):
            for part in ('a', 'b', 'base', 'rng'):
                for error in range(len(RESET_ERRORS)):
                    cases.append({'kind': kind, 'seeds': True, 'ops': [
                        [op, None, 0], [op, part, error], ['seed', None, 0],
                        ['reset', None, 0], ['seed', None, 0]]})
    # Faults late in large batches.
    for kind in KINDS:
        for part in ('a', 'b', 'c', 'fn'):
            for n, at in ((64, 60), (100, 99), (101, 101), (300, 257),
                          (1025, 1001), (5000, 4097)):
                cases.append(make(kind, [2, 0, 1, 3], [
                    [part, at, n], [part, 2 * at, n + 1]],
                    [None, n, n, 3, n, None, 'reset', n, None, 2]))
    for kind in KINDS:
        for error in range(len(ERRORS)):
            for part in 'abc':
                cases.append(make(kind, [2, 0, 1, 3], [
                    [part, 3, error], ['fn', 2, error + 1], [part, 8, error],
                    ['f1', 2, error], ['f3', 5, error], ['f0', 4, error]],
                    [None, 2, 3, None, 1, 'reset', 4, 0, None, 5, None, None,
                     'reset', None, 3]))
        for part in ('a', 'b', 'f2'):
            for error in (2, -1, -2, -3):
                cases.append(make(kind, [1, 2], [
                    [part, 'reset', error % len(RESET_ERRORS)]],
                    [None, None, 2, 'reset', None, 3, None]))
    return cases


def make(kind, script, faults, ops):
    return {'kind': kind, 'script': script, 'faults': faults, 'ops': ops}


def gen(rng):
    if rng.random() < 0.1:
        return {'kind': rng.choice(sorted(SEEDED)), 'seeds': True, 'ops': [
            [rng.choice(['seed', 'seed', 'reset']),
             rng.choice([None, 'a', 'b', 'base', 'rng']), rng.randint(0, 30)]
            for _ in range(rng.randint(2, 8))]}
    parts = ['a', 'a', 'b', 'c', 'fn', 'fn', 'f0', 'f1', 'f2', 'f3']
    kind = rng.choice(KINDS)
    if kind == 'schema':
        parts = parts[-4:]
    else:
        parts = parts[:-4]
    faults = [[rng.choice(parts), rng.randint(1, 20), rng.randint(0, 30)]
              for _ in range(rng.randint(1, 5))]
    if rng.random() < 0.25:
        faults.append([rng.choice([p for p in parts if p != 'fn']), 'reset',
                       rng.randint(0, 30)])
    ops = [rng.choice([None, None, None, 1, 2, 3, 5, 0, 'reset'])
           for _ in range(rng.randint(4, 14))]
    return make(kind, [rng.randint(0, 4) for _ in range(rng.randint(1, 5))],
                faults, ops)


def run(case, obs):
    if 'seeds' in case:
        return run_seeds(case, obs)
    kind = case['kind']
    plan = Plan([])
    subject = Subject(kind, plan, case['script'])
    plan.faults = {
        (p, at): 0 if kind == 'sequence' and error % len(ERRORS) == INDEX
        else error for p, at, error in case['faults']}
    em = subject.em
    after = False
    for op in case['ops']:
        subject.clear()
        plan.raised = None
        previous = em.previous if isinstance(em, Field) else None
        if op == 'reset':
            reset = em.reset_fields if isinstance(em, Schema) else em.reset
            try:
                reset()
            except BaseException as e:
                check(e is plan.raised, lambda: f'{e!r} was raised, not the '
                                                f'error of the child')
                obs.ev('reset_faults')
                reset()
            else:
                check(plan.raised is None, 'an error in reset was hidden')
            subject.start_again()
            if kind not in ('based', 'iterator', 'factory', 'sequence'):
                check(all(p.pos == 0 for p in subject.parts.values()),
                      'a child was not reset')
            if isinstance(em, Field):
                check_same(em.previous, None, 'previous value after a reset')
            continue
        n = None if subject.single_only else op
        resets = {name: p.resets for name, p in subject.parts.items()}
        try:
            got = em() if n is None else em(n)
        except BaseException as e:
            check(plan.raised is not None, lambda: f'{e!r}, without a fault')
            check(e is plan.raised, lambda: (
                f'{e!r} reached the caller instead of {plan.raised!r}'))
            obs.ev('faults')
            subject.start_again()
            after = True
            for name, p in subject.parts.items():
                check_same(p.resets, resets[name],
                           f'resets of child {name} in a failed call')
            if isinstance(em, Field):
                check_same(em.previous, previous,
                           'previous value after a failed call')
            if kind == 'schema':
                logs = [len(p.out) for p in subject.parts.values()]
                check(max(logs) <= 1, lambda: f'evaluated {logs} times')
            continue
        check(plan.raised is None, lambda: (
            f'{plan.raised!r} was raised by a part, and the call gave '
            f'{short(got)}'))
        values = [got] if n is None else got
        check(n is None or type(got) is list and len(got) == n,
              lambda: f'{short(got)} is not a list of {n}')
        want = subject.expect(len(values))
        check_same(values, want, f'{kind} after faults')
        obs.ev('iterators', kind in ('iterator', 'factory', 'sequence'))
        if isinstance(em, Field):
            check_same(em.previous, got, 'previous value')
        obs.ev('documents', isinstance(em, Schema))
        if after:
            obs.ev('calls_after_fault')
            obs.ev('batches_after', n is not None)
            obs.nontrivial()
    obs.state(kind, case['ops'], [f[:2] for f in case['faults']])
