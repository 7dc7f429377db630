"""C18: wrappers call their function once for each source value."""
import functools
import keyword
import random

from fauxdoc.emitters import Choice, Sequential, Static, WrapMany, WrapOne
from fauxdoc.emitters.wrappers import BoundWrapper
from fxmon import specs
from fxmon.core import check, check_same, raises, short
from fxmon.recorders import KINDS, Recorder

RULE = ('random wrappers around logging sources, with random kinds of wrapper '
        'functions and histories of calls, resets, seeds and replaced '
        'functions; every call of the function is logged and compared with '
        'the source values and with the draws of a separate random.Random; '
        'also wrappers around random real emitters, compared with those; '
        'non-trivial: at least two values')
REQUIRED = {'values': 20000, 'rng_draws': 5000, 'batches': 3000,
            'function_changes': 1500, 'function_assignments': 1500, 'rejected': 800, 'raised': 300, 'swaps': 800,
            'real_values': 3000, 'whole_batches': 80,
            'label_changes': 60, 'huge_batches': 4}
QUICK = 28000
THOROUGH = 430000
ONE_KINDS = ['plain', 'rng', 'kwrng', 'default_rng', 'own_rng', 'varargs', 'partial',
             'partial_rng', 'object', 'object_rng', 'method', 'class',
             'class_rng', 'wraps', 'builtin', 'attr']
MANY_KINDS = ['plain', 'rng', 'kwrng', 'default_rng', 'own_rng', 'named', 'named_rng',
              'partial', 'object', 'object_rng', 'method', 'class',
              'class_rng', 'wraps', 'builtin', 'attr']


def directed():
    cases = []
    ops = [['one'], ['n', 3], ['n', 1], ['n', 0], ['reset'], ['n', 2],
           ['seed', 9], ['one'], ['func', 'plain'], ['n', 2],
           ['func', 'rng'], ['n', 2], ['bound', 'rng'], ['n', 3], ['rebind'],
           ['one'], ['bad', 0], ['one'], ['raise', 2], ['one'],
           ['set_rng_seed', 3], ['reset'], ['n', 4], ['assign', 'rng'],
           ['n', 2], ['assign', 'plain'], ['n', 2], ['assign', 'rng'],
           ['one'], ['assign', 'builtin'], ['n', 2], ['assign', 'rng'],
           ['one'], ['n', 3], ['seed', 4], ['assign', 'plain'], ['one'],
           ['swap', 0], ['n', 3], ['swap', 1], ['one'], ['n', 2]]
    script = ['a', 0, None, 1, '']
    for src in KINDS:
        for kind in ONE_KINDS:
            cases.append({'srcs': [['source', script, src]], 'many': False,
                          'kind': kind, 'seed': 5, 'ops': ops})
        for kind in MANY_KINDS:
            for n in (0, 1, 2, 3):
                srcs = [[name, script[i:], src]
                        for i, name in enumerate(('y', 'x', 'source')[:n])]
                cases.append({'srcs': srcs, 'many': True, 'kind': kind,
                              'seed': 'k', 'ops': ops})
    for i in range(9):
        for many in (True, False):
            cases.append({'srcs': [['x', script, 'recorder']], 'many': many,
                          'kind': 'rng', 'seed': 1, 'ops': [
                              ['bad', i], ['n', 2], ['badbound', i], ['one']]})
    for calls in ([None] * 5, [3], [2, None, 4, 1], [0, 5, 7]):
        for names in ([0, 0], [0, 0, 0], [0, 1, 0], [1, 0, 0, 1]):
            cases.append({'shared': names, 'calls': calls})
    cases += [{'limits': True}, {'huge': 300001}, {'huge': 1100003}]
    # Long runs of single calls.
    for n, then in ((700, ['n', 2]), (3000, ['reset']), (12000, ['n', 5]),
                    (5000, ['swap', 0])):
        for many in (False, True):
            for kind in ('plain', 'rng', 'builtin'):
                cases.append({'srcs': [['source', script, 'recorder']],
                              'many': many, 'kind': kind, 'seed': 1,
                              'ops': [['one']] * n + [
                                  then, ['n', 3], ['one'], ['n', 0], ['one'],
                                  ['func', 'rng'], ['one'], ['n', 2]]})
    # Sources under other labels.
    for start in ([], ['a'], ['b', 'a'], ['a', 'b', 'c']):
        for steps in (['+x'], ['+x', '-x'], ['+x', '+y', '-x', '-y'],
                      ['+source', '-source', '+source'],
                      ['+x'] * 3, [f'+s{i}' for i in range(40)],
                      [f'-{n}' for n in start] + ['+z'],
                      [f'-{n}' for n in start] + [f'+{n}' for n in start[::-1]]):
            for kind in ('plain', 'rng'):
                cases.append({'labels': start, 'steps': steps, 'kind': kind})
    # Large batches, with equal values in them, and many sources.
    for n in (100, 255, 257, 501, 1001, 1025, 4097, 10001):
        for many in (False, True):
            for kind in MANY_KINDS if many else ONE_KINDS:
                if kind == 'builtin' and n > 1000:
                    continue
                cases.append({'srcs': [['source', script, 'recorder']],
                              'many': many, 'kind': kind, 'seed': 1,
                              'ops': [['n', n], ['one'], ['n', 2]]})
    for n in (10, 30, 64, 100, 300):
        srcs = [[f'v{i}', script[i % 4:], 'recorder'] for i in range(n)]
        for kind in MANY_KINDS:
            cases.append({'srcs': srcs, 'many': True, 'kind': kind, 'seed': 1,
                          'ops': [['one'], ['n', 3], ['one']]})
    return cases


def gen(rng):
    many = rng.random() < 0.5
    if rng.random() < 0.25:
        while True:
            depth = rng.randint(0, 2)
            srcs = [specs.gen_emitter(rng, depth, seeded=False)
                    for _ in range(rng.randint(1, 3) if many else 1)]
            wrap = {'k': 'wrapn', 'srcs': dict(zip('abc', srcs))}
            if specs.capacity(wrap) is None or rng.random() < 0.3:
                break
        return {'real': srcs, 'many': many, 'seed': specs.gen_seed(rng),
                'calls': specs.gen_calls(rng, wrap)}
    kinds = MANY_KINDS if many else ONE_KINDS
    names = rng.sample(['a', 'b', 'c', 'value', 'number', 'source'],
                       rng.randint(1, 4) if many else 1)
    if many and rng.random() < 0.15:
        # Any text can be a label.
        names = rng.sample(['a', 'a ', ' a', 'A', 'b-1', 'b_1', '', '0', 'ä',
                            'class', 'a.b', 'source', 'x\ny', 'self', 'args',
                            'kwargs', 'function', 'cls'],
                           rng.randint(1, 5))
    srcs = [[n, [rng.choice([None, 0, 1, '', 'a', False, True, 2.5, [1], []])
                 for _ in range(rng.randint(1, 6))],
             rng.choice(list(KINDS))] for n in names]
    ops = []
    for _ in range(rng.randint(2, 14)):
        op = rng.choice(['one'] * 4 + ['n'] * 5 + [
            'reset', 'seed', 'func', 'bound', 'rebind', 'bad', 'badbound',
            'assign', 'assign', 'swap',
            'raise', 'set_rng_seed'])
        if op in ('n', 'raise'):
            ops.append([op, rng.choice([0, 1, 1, 2, 3, 5, 8, 40])])
        elif op in ('seed', 'set_rng_seed'):
            ops.append([op, rng.choice([0, 1, 'z', 2.5, rng.randint(0, 999)])])
        elif op in ('func', 'bound', 'assign'):
            ops.append([op, rng.choice(kinds)])
        elif op in ('bad', 'badbound', 'swap'):
            ops.append([op, rng.randint(0, 8)])
        else:
            ops.append([op])
    return {'srcs': srcs, 'many': many, 'kind': rng.choice(kinds),
            'seed': rng.choice([0, 1, 'x', 12345]), 'ops': ops}


class Oops(Exception):
    pass


class Log:
    """Notes each call of a wrapper function."""

    def __init__(self):
        self.calls = []
        self.raise_at = None
        self.rngs = []

    def note(self, args, kwargs, rng=None):
        draw = rng.random() if rng is not None else None
        self.rngs.append(rng)
        self.calls.append((args, kwargs, draw))
        if self.raise_at == len(self.calls):
            self.error = Oops('from the wrapper function')
            raise self.error
        return ('result', len(self.calls), draw)


def make_function(kind, many, names, log):
    """Returns a function, and whether it takes rng."""
    note = log.note
    if kind.startswith('named') and not all(
            n.isidentifier() and not keyword.iskeyword(n) for n in names):
        kind = kind.replace('named_', '').replace('named', 'plain')
    if kind == 'builtin':
        return (dict if many else str), False
    if many:
        def plain(**kw):
            return note((), kw)

        def with_rng(rng, **kw):
            return note((), kw, rng)
    else:
        def plain(v):
            return note((v,), {})

        def with_rng(v, rng):
            return note((v,), {}, rng)
    if kind in ('named', 'named_rng'):
        # A function that names exactly the source labels.
        args = ', '.join(names + (['rng'] if kind == 'named_rng' else []))
        kw = ', '.join(f'{n!r}: {n}' for n in names)
        tail = ', rng' if kind == 'named_rng' else ''
        return eval(f'lambda {args}: note((), {{{kw}}}{tail})',
                    {'note': note}), bool(tail)

    class Plain:
        def __call__(self, /, *args, **kwargs):
            return plain(*args, **kwargs)

        def method(self, /, *args, **kwargs):
            return plain(*args, **kwargs)

    class Attr(Plain):
        """Has attributes that are not related to wrapping."""
        function = 'an attribute of the user'
        signature = None
        wants_rng = True
        rng = None

    class WithRng:
        def __call__(self, /, *args, rng, **kwargs):
            return with_rng(*args, rng=rng, **kwargs)

    def make_class(*args, **kwargs):
        pass

    class Made(tuple):
        def __new__(cls, /, *args, **kwargs):
            return plain(*args, **kwargs)

        def __init__(self, /, *args, **kwargs):
            pass

    class MadeRng:
        def __new__(cls, /, *args, rng, **kwargs):
            return with_rng(*args, rng=rng, **kwargs)

    @functools.wraps(with_rng)
    def wrapped(*args, **kwargs):
        return with_rng(*args, **kwargs)

    def kwrng(*args, rng, **kw):
        return note(args, kw, rng)

    def default_rng(*args, rng=None, **kw):
        return note(args, kw, rng)

    # For when it is not called by an emitter.
    def own_rng(*args, rng=random.Random('own'), **kw):
        return note(args, kw, rng)

    def extra(*args, extra, **kwargs):
        check(extra == 'e', 'partial argument was lost')
        return plain(*args, **kwargs)

    def extra_rng(*args, extra, rng, **kwargs):
        check(extra == 'e', 'partial argument was lost')
        return with_rng(*args, rng=rng, **kwargs)

    def varargs(*args, **kwargs):
        return note(args, kwargs)
    made = {
        'plain': (plain, False), 'rng': (with_rng, True),
        'kwrng': (kwrng, True), 'default_rng': (default_rng, True),
        'own_rng': (own_rng, True), 'varargs': (varargs, False), 'object': (Plain(), False),
        'partial': (functools.partial(extra, extra='e'), False),
        'partial_rng': (functools.partial(extra_rng, extra='e'), True),
        'object_rng': (WithRng(), True), 'method': (Plain().method, False),
        'class': (Made, False), 'class_rng': (MadeRng, True),
        'wraps': (wrapped, True), 'attr': (Attr(), False),
    }
    return made[kind]


BAD_ONE = [lambda: 1, lambda a, b: 1, lambda *, v: 1, lambda a, b, rng: 1,
           lambda rng: 1, lambda *, rng, k: 1, lambda a, *, k: 1,
           functools.partial(lambda a, b: 1, 1, 2),
           lambda a, b, c, *, rng: 1]
BAD_MANY = [lambda: 1, lambda a, /: 1, lambda zzz, **kw: 1,
            lambda *args: 1, lambda rng: 1, lambda *, rng, zzz, **kw: 1,
            lambda zzz: 1, lambda *args, rng: 1, lambda zzz, rng, **kw: 1]


def run(case, obs):
    if case.get('limits'):
        return run_limits(obs)
    if 'real' in case:
        return run_real(case, obs)
    if 'shared' in case:
        return run_shared(case, obs)
    if 'huge' in case:
        return run_huge(case['huge'], obs)
    if 'labels' in case:
        return run_labels(case, obs)
    many = case['many']
    srcs = {n: KINDS[kind](script) for n, script, kind in case['srcs']}
    names = list(srcs)
    log = Log()
    func, wants = make_function(case['kind'], many, names, log)
    seed = specs.dec(case['seed'])
    if many:
        given = dict(srcs)
        em = WrapMany(given, func, rng_seed=seed)
        given['later'] = Recorder([1])
    else:
        em = WrapOne(srcs[names[0]], func, rng_seed=seed)
    cls = type(em).__name__
    check_same(em.rng_seed, seed, 'rng_seed')
    check_same((em.emits_unique_values, em.num_unique_values), (False, None),
               'uniqueness of a wrapper is not known')
    labels = list(em.emitters.items())
    check(labels == ([(n, srcs[n]) for n in names] if many
                     else [('source', srcs[names[0]])]),
          lambda: f'emitters are {short(labels)}')
    state = {'rng': random.Random(seed), 'func': func, 'wants': wants,
             'builtin': case['kind'] == 'builtin', 'number': 0}

    def start(what):
        """All sources have to be at their start, with fresh RNG."""
        for name, s in srcs.items():
            if hasattr(s, 'resets'):
                check(s.pos == 0, f'{what}: source {name} is at {s.pos}, not '
                                  'at its start')
            s.take()
        log.calls.clear()
        log.rngs.clear()
        state['rng'] = random.Random(em.rng_seed)

    def attributes(what):
        w = em.wrapper
        check(isinstance(w, BoundWrapper), f'{what}: type of `wrapper`')
        check(w.function is state['func'] or w.function == state['func'],
              f'{what}: wrapper.function is not the function that was given')
        check(w.wants_rng is state['wants'], f'{what}: wrapper.wants_rng')

    def emitted(n, what):
        """Makes one call and compares it with the log."""
        state['number'] += 1
        got = em() if n is None else em(n)
        k = 1 if n is None else n
        if n is None:
            got = [got]
        check(type(got) is list and len(got) == k,
              lambda: f'{what}: {short(got)}')
        compare(got, k, what)
        if n is not None and n > 1:
            obs.ev('batches')

    def compare(got, k, what, failed=False):
        streams = {n: s.take() for n, s in srcs.items()}
        if failed:
            k = len(log.calls)
        for name, values in streams.items():
            check(len(values) == k or failed and len(values) > k, lambda: (
                f'{what}: {k} values need {k} values of each source, but '
                f'{name} emitted {short(values)}'))
        inputs = [{n: v[i] for n, v in streams.items()} for i in range(k)]
        if state['builtin']:
            want = [dict(i) if many else str(i[names[0]]) for i in inputs]
            if not failed:
                check_same(got, want, what)
            obs.ev('values', k)
            return
        calls = list(log.calls)
        log.calls.clear()
        number = len(calls) if failed else k
        check(len(calls) == number, lambda: (
            f'{what}: the function was called {len(calls)} times for {k} '
            'values'))
        for i, (args, kwargs, draw) in enumerate(calls):
            vals = inputs[i]
            if many:
                check(args == () and sorted(kwargs) == sorted(vals), lambda: (
                    f'{what}: called with {short(args)}, {short(kwargs)}'))
                check(all(kwargs[n] is vals[n] for n in vals), lambda: (
                    f'{what}: call {i}: {short(kwargs)} instead of '
                    f'{short(vals)}'))
            else:
                check(len(args) == 1 and not kwargs and
                      args[0] is vals[names[0]], lambda: (
                          f'{what}: call {i}: {short(args)} {short(kwargs)} '
                          f'instead of {short(vals)}'))
            if state['wants']:
                check_same(draw, state['rng'].random(), f'{what}: call {i}: '
                           'random number that the function drew')
                obs.ev('rng_draws')
                check(log.rngs[i] is em.rng, 'rng is not the one of the parent')
            if not failed:
                check_same(got[i], ('result', i + 1, draw),
                           f'{what}: value {i}')
        log.rngs.clear()
        obs.ev('values', k)

    start('after construction')
    attributes('after construction')
    total = 0
    for op, *args in case['ops']:
        if op in ('seed', 'set_rng_seed'):
            args = [specs.dec(args[0])]
        what = f'{cls} {op} {short(args, 60)}'
        if op in ('one', 'n'):
            emitted(args[0] if args else None, what)
            total += 1 if op == 'one' else args[0]
        elif op == 'reset':
            em.reset()
            start(what)
        elif op == 'seed':
            em.seed(args[0])
            check_same(em.rng_seed, args[0], 'rng_seed after seeding')
            state['rng'] = random.Random(args[0])
        elif op == 'set_rng_seed':
            # No effect until it's reset.
            em.rng_seed = args[0]
        elif op == 'assign':
            # Only the function changes: nothing is reset.
            state['func'], state['wants'] = make_function(
                args[0], many, names, log)
            em.wrapper.function = state['func']
            state['builtin'] = args[0] == 'builtin'
            check(not any(s.out for s in srcs.values()) and not log.calls,
                  f'{what}: assigning wrapper.function used up values')
            attributes(what)
            obs.ev('function_assignments')
        elif op == 'swap':
            # Other sources in its map of emitters are used from now on.
            if not names:
                continue
            for name in names[args[0] % len(names):]:
                srcs[name] = Recorder(lambda i: ('new', i))
                em.emitters[name if many else 'source'] = srcs[name]
            obs.ev('swaps')
        elif op in ('func', 'bound', 'rebind'):
            if op == 'func':
                state['func'], state['wants'] = make_function(
                    args[0], many, names, log)
                em.set_wrapper_function(state['func'])
                state['builtin'] = args[0] == 'builtin'
            elif op == 'bound':
                state['func'], state['wants'] = make_function(
                    args[0], many, names, log)
                em.wrapper = BoundWrapper(state['func'], em)
                state['builtin'] = args[0] == 'builtin'
            else:
                # The function of another emitter's wrapper. It draws
                # from the emitter that it is bound to.
                other = Static(0)
                other.rng = random.Random(77)
                em.wrapper = BoundWrapper(
                    BoundWrapper(em.wrapper, other), em)
            obs.ev('function_changes')
            start(what)
            attributes(what)
        elif op in ('bad', 'badbound'):
            bad = (BAD_MANY if many else BAD_ONE)[args[0]]
            if many and not names and args[0] in (0, 3, 4, 7):
                continue
            if op == 'bad':
                err = raises(TypeError, em.set_wrapper_function, bad)
            else:
                err = raises(TypeError, setattr, em, 'wrapper',
                             BoundWrapper(bad, em))
            check(cls in str(err), f'unclear error: {err}')
            if many:
                err = raises(TypeError, WrapMany, srcs, bad)
            else:
                err = raises(TypeError, WrapOne, srcs[names[0]], bad)
            check(cls in str(err), f'unclear error: {err}')
            # It recovers when it is given a good function again.
            em.set_wrapper_function(state['func'])
            start(what)
            attributes(what)
            obs.ev('rejected')
        elif op == 'raise' and args[0] and not state['builtin']:
            # Errors of the function aren't changed or hidden.
            log.raise_at = (args[0] + 1) // 2
            try:
                em(args[0])
            except Oops as e:
                check(e is log.error, f'{what}: a different exception')
            else:
                check(False, f'{what}: the exception was hidden')
            log.raise_at = None
            compare(None, args[0], what, failed=True)
            em.reset()
            start(what)
            obs.ev('raised')
        obs.state(cls, len(srcs), case['kind'], op, state['wants'])
    if total > 1:
        obs.nontrivial()


def run_real(case, obs):
    """Compares with the values of identical source emitters."""
    seed = specs.dec(case['seed'])
    names = ['a', 'b', 'c'][:len(case['real'])]
    log = []

    def one(v, rng):
        log.append(rng.random())
        return (v, log[-1])

    def many(rng, **kw):
        log.append(rng.random())
        return (kw, log[-1])
    twins = [specs.build(s) for s in case['real']]
    for twin in twins:
        if hasattr(twin, 'rng_seed'):
            twin.rng_seed = seed
        twin.reset()
    built = [specs.build(s) for s in case['real']]
    if case['many']:
        em = WrapMany(dict(zip(names, built)), many, rng_seed=seed)
    else:
        em = WrapOne(built[0], one, rng_seed=seed)
    rng = random.Random(seed)
    total = 0
    for call in case['calls']:
        streams = [[t()] if call is None else t(call) for t in twins]
        want = []
        for vals in zip(*streams):
            v = dict(zip(names, vals)) if case['many'] else vals[0]
            want.append((v, rng.random()))
        got = em() if call is None else em(call)
        got = [got] if call is None else got
        check_same(got, want, 'vs. values of identical sources')
        obs.ev('real_values', len(got))
        total += len(got)
    if total > 1:
        obs.nontrivial()


def run_shared(case, obs):
    """One emitter under several names gives each of them its own values."""
    script = list(range(100, 200))
    srcs = [Recorder(script), Recorder(script[::-1])]
    given = dict(zip('abcd', (srcs[i] for i in case['shared'])))
    seen = []

    def function(**kw):
        seen.append(kw)
        return len(seen)
    em = WrapMany(given, function)
    em.reset()
    seen.clear()
    for s in srcs:
        s.take()
    number = 0
    for call in case['calls']:
        k = 1 if call is None else call
        got = em() if call is None else em(call)
        got = [got] if call is None else got
        check_same(got, list(range(number + 1, number + k + 1)), 'values')
        number += k
        for i, s in enumerate(srcs):
            names = [n for n, g in given.items() if g is s]
            out = s.take()
            calls = seen[number - k:]
            check(len(out) == k * len(names), lambda: (
                f'{k} values for each of {names}: the emitter was asked for '
                f'{short(out)}'))
            check(sorted(c[n] for c in calls for n in names) == sorted(out),
                  lambda: f'emitted {short(out)}, but the function got '
                          f'{short(calls)}')
            for n in names:
                pos = [out.index(c[n]) for c in calls]
                check(pos == sorted(pos), f'values of {n} out of order')
        obs.ev('values', k)
        obs.ev('shared_values', k)
    obs.nontrivial()


def run_labels(case, obs):
    """Sources that are added and removed are used, or not, from then on."""
    log = Log()
    func, wants = make_function(case['kind'], True, [], log)
    srcs = {n: Recorder(lambda i, n=n: (n, i)) for n in case['labels']}
    em = WrapMany(dict(srcs), func, rng_seed=3)
    made = 0
    for step in ['', *case['steps'], '']:
        name = step[1:]
        if step[:1] == '+':
            made += 1
            srcs[name] = em.emitters[name] = Recorder(
                lambda i, n=made: (n, i))
        elif step:
            del srcs[name], em.emitters[name]
        for call in (None, 2, None, 0, 1, 5):
            for s in srcs.values():
                s.take()
            log.calls.clear()
            got = em() if call is None else em(call)
            k = 1 if call is None else call
            out = {n: s.take() for n, s in srcs.items()}
            check(all(len(v) == k for v in out.values()), lambda: (
                f'after {step}: {k} values need {k} of each source: '
                f'{short(out)}'))
            want = [{n: v[i] for n, v in out.items()} for i in range(k)]
            check_same([c[1] for c in log.calls], want,
                       f'after {step}: what the function was called with')
            check_same(got if call is not None else [got],
                       [('result', i + 1, c[2])
                        for i, c in enumerate(log.calls)], 'values')
            obs.ev('values', k)
        obs.ev('label_changes')
    obs.nontrivial()


def run_huge(n, obs):
    """Batches of more than a million values."""
    log = []

    def one(v, rng):
        log.append(rng)
        return -v

    def many(a, b):
        return (b, a)
    em = WrapOne(Sequential(range(n + 4)), one, rng_seed=1)
    got = [*em(n), em(), *em(3), em()]
    check(got == [-i % -(n + 4) for i in range(n + 5)]
          and len(log) == n + 5 and set(map(id, log)) == {id(em.rng)},
          lambda: f'{len(got)} values, {len(log)} calls')
    em = WrapMany({'a': Sequential(range(7)), 'b': Sequential('xy')}, many)
    got = [*em(n), em(), *em(3)]
    check(got == [('xy'[i % 2], i % 7) for i in range(n + 4)],
          lambda: f'pairs: {len(got)} values, or other ones')
    obs.ev('values', 2 * n + 9)
    obs.ev('huge_batches', 2)
    obs.nontrivial()


def run_limits(obs):
    """Errors of sources aren't hidden, and reset makes it usable."""
    for n in range(1, 6):
        src = Choice(range(n), replace=False, rng_seed=1)
        for em in (WrapOne(src, str), WrapMany({'v': src}, dict)):
            first = em(n)
            raises(ValueError, em)
            raises(ValueError, em, 2)
            em.reset()
            em.seed(1)
            check(len(em(n)) == n and len(first) == n, 'after reset')
            raises(ValueError, em)
            em.reset()
            obs.ev('raised')
    # Sources are asked once for each batch: those that don't repeat items
    # within a batch, or start again with each, must see whole batches.
    for n in (2, 7, 100, 1000, 4097, 6000, 20000):
        for make in (lambda: Choice(range(n), replace_only_after_call=True,
                                    rng_seed=1),
                     lambda: Choice(range(n), range(1, n + 1), rng_seed=1,
                                    replace_only_after_call=True)):
            if n > 6000 and make().weights:
                continue
            ems = [WrapOne(make(), lambda v: v),
                   WrapMany({'v': make()}, lambda v: v),
                   WrapMany({'w': make(), 'v': make()}, lambda v, w: v)]
            for em in ems:
                for size in (n, n - 1, n):
                    got = em(size)
                    check_same(len(set(got)), size,
                               f'different values in a batch of {size}')
                    obs.ev('whole_batches')
        for em in (WrapOne(Sequential(range(n + 5), reset_after_call=True),
                           lambda v: v),
                   WrapMany({'v': Sequential(range(n + 5),
                                             reset_after_call=True)},
                            lambda v: v)):
            for size in (n, n + 5, 1, n):
                check(em(size) == list(range(size)), 'batch of a sequence')
                obs.ev('whole_batches')
    pair = WrapMany({'a': Sequential([1, 2, 3]), 'b': Sequential('xy')},
                    lambda a, b: f'{b}{a}')
    check_same(pair(6), ['x1', 'y2', 'x3', 'y1', 'x2', 'y3'], 'pairs')
    inner = WrapOne(Sequential([1, 2]), lambda v: v + 1)
    outer = WrapOne(inner, lambda v: v * 10)
    check_same(outer(3), [20, 30, 20], 'nested')
    check_same(outer(), 30, 'nested')
    empty = WrapMany({}, lambda: 7)
    check_same((empty(), empty(0), empty(1), empty(3)),
               (7, [], [7], [7, 7, 7]), 'without sources')
    obs.nontrivial()
