"""C33: BoundWrapper calls its function as if called directly, plus rng."""
import functools
import inspect
import random
import warnings

from fauxdoc.emitters import Choice, Static
from fauxdoc.emitters import wrappers
from fauxdoc.emitters.wrappers import BoundWrapper
from fauxdoc.mixins import RandomMixin
from fxmon.core import Violation, check, check_same, short

RULE = ('random callables (functions, methods, partial and decorated ones, '
        'classes, callable objects, built-ins) with random parameter lists, '
        'bound to objects that provide random numbers; each call, mock call '
        'and attribute is compared with a direct call of the same callable; '
        'functions, objects and generators are replaced on the way; '
        'non-trivial: calls that fit and calls that do not')
REQUIRED = {'calls': 20000, 'rng_calls': 4000, 'errors_of_functions': 500,
            'misfits': 5000, 'mock_ok': 5000, 'mock_bad': 5000,
            'replaced_functions': 3000, 'replaced_objects': 2000,
            'replaced_generators': 1000, 'wrapped_again': 1500,
            'built_ins': 500}
QUICK = 15000
THOROUGH = 340000

NAMES = ['a', 'b', 'c', 'd']
ODD_NAMES = ['self', 'args', 'kwargs', 'function', 'bound_to', 'cls', 'number',
             'source', 'value', 'wrapper', 'action', '_self', '__self', 'e']
KINDS = ['def', 'def', 'lambda', 'method', 'static', 'class_method',
         'object', 'class', 'partial', 'partial_kw', 'partial_rng', 'wraps',
         'wraps_wraps']
BUILT_INS = {'str': str, 'int': int, 'dict': dict, 'max': max, 'type': type,
             'getattr': getattr, 'len': len, 'upper': 'x'.upper}


class Boom(Exception):
    pass


class Token:
    """A returned value that is equal to nothing else."""


class Bound:
    """The least that a wrapper can be bound to."""

    def __init__(self, seed):
        self.rng = random.Random(seed)


class Changing:
    """Provides another generator each time it is asked for."""

    def __init__(self, seed):
        self.seed, self.given = seed, []

    @property
    def rng(self):
        self.given.append(random.Random(self.seed))
        return self.given[-1]


class Mixed(RandomMixin):
    def __init__(self, seed):
        super().__init__(rng_seed=seed)


def choice(seed):
    return Choice(range(9), rng_seed=seed)


def wrap(seed):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        base = wrappers.Wrap

    class Sub(base):
        def emit(self):
            return self.wrapper(self.emitters['source']())

        def emit_many(self, number):
            return [self.wrapper(v) for v in self.emitters['source'](number)]
    return Sub({'source': Static(1)}, f'{seed}'.join, rng_seed=seed)


BOUND = {'bound': Bound, 'changing': Changing, 'mixed': Mixed,
         'choice': choice, 'wrap': wrap}


# -- generated callables --------------------------------------------------

def source(params):
    """The parameter list of a spec, as Python text."""
    out, kinds = [], [p[1] for p in params]
    for i, (name, kind, default) in enumerate(params):
        if kind == 'args':
            text = '*' + name
        elif kind == 'kw':
            text = '**' + name
        else:
            if kind == 'kwonly' and not any(
                    k in ('kwonly', 'args') for k in kinds[:i]):
                out.append('*')
            text = name + ('=DEFAULT' if default else '')
        out.append(text)
        if kind == 'pos' and 'pos' not in kinds[i + 1:]:
            out.append('/')
    return ', '.join(out)


def gen_params(rng):
    names = NAMES[:rng.choice([0, 1, 1, 1, 2, 2, 3, 4])]
    if rng.random() < 0.2:
        # Names that have a meaning in BoundWrapper, or anywhere.
        names = rng.sample(ODD_NAMES, max(len(names), 1))
    params = [[n, rng.choice(['pos', 'plain', 'plain', 'kwonly']),
               rng.random() < 0.3] for n in names]
    if rng.random() < 0.5:
        params.insert(rng.randint(0, len(params)),
                      ['rng', rng.choice(['plain', 'kwonly']),
                       rng.random() < 0.5])
    if rng.random() < 0.2:
        params.append(['more', 'args', False])
    if rng.random() < 0.3:
        params.append(['kw' if rng.random() < 0.7 else 'rngs', 'kw', False])
    order = ['pos', 'plain', 'args', 'kwonly', 'kw']
    params.sort(key=lambda p: (order.index(p[1]),
                               p[1] != 'kwonly' and p[2]))
    # A default must not be followed by a parameter without one.
    seen = False
    for p in params:
        if p[1] in ('pos', 'plain'):
            seen = p[2] = seen or p[2]
    return params


class Log:
    """What a generated callable was called with."""

    def __init__(self):
        self.calls = []
        self.result = Token()
        self.error = None

    def called(self, given):
        given.pop('this', None)
        self.calls.append(given)
        if self.error:
            raise self.error
        return self.result


def make(spec):
    """Returns a callable and its log."""
    if spec['kind'] == 'built_in':
        return BUILT_INS[spec['name']], None
    log = Log()
    scope = {'LOG': log, 'DEFAULT': 'default'}
    args = source(spec['params'])
    kind = spec['kind']
    first = f', {args}' if args else ''
    if kind == 'lambda':
        exec(f'f = lambda {args}: LOG.called(locals())', scope)
        return scope['f'], log
    if kind in ('method', 'object', 'class_method', 'static'):
        name, params, deco = {
            'method': ('m', 'this' + first, ''),
            'object': ('__call__', 'this' + first, ''),
            'static': ('m', args, '    @staticmethod\n'),
            'class_method': ('m', 'this' + first, '    @classmethod\n')}[kind]
        exec(f'class C:\n{deco}    def {name}({params}):\n'
             '        return LOG.called(dict(locals()))\n', scope)
        obj = scope['C']()
        return (obj if kind == 'object' else obj.m), log
    if kind == 'class':
        exec(f'class C:\n    def __init__(this{first}):\n'
             '        LOG.called(dict(locals()))\n', scope)
        return scope['C'], log
    exec(f'def f({args}):\n    return LOG.called(dict(locals()))\n', scope)
    f = scope['f']
    if kind == 'partial':
        f = functools.partial(f, *spec['preset'])
    elif kind == 'partial_kw':
        f = functools.partial(f, **{n: 'preset' for n in spec['preset']})
    elif kind == 'partial_rng':
        f = functools.partial(f, rng=None)
    elif kind.startswith('wraps'):
        for _ in kind.split('_'):
            f = decorate(f)
    return f, log


def decorate(inner):
    @functools.wraps(inner)
    def outer(*args, **kwargs):
        return inner(*args, **kwargs)
    return outer


def gen_func(rng):
    if rng.random() < 0.08:
        return {'kind': 'built_in', 'name': rng.choice(sorted(BUILT_INS))}
    params = gen_params(rng)
    spec = {'kind': rng.choice(KINDS), 'params': params, 'preset': []}
    named = [p[0] for p in params if p[1] in ('plain', 'kwonly')]
    if spec['kind'] == 'partial':
        # inspect.signature is wrong for these with `**kw`
        params[:] = [p for p in params if p[1] != 'kw']
        free = [p[0] for p in params if p[1] in ('pos', 'plain')]
        if 'rng' in free:
            free = free[:free.index('rng')]
        spec['preset'] = list(range(rng.randint(0, len(free))))
    elif spec['kind'] == 'partial_kw':
        spec['preset'] = [n for n in named
                          if n != 'rng' and rng.random() < 0.3]
    elif spec['kind'] == 'partial_rng' and 'rng' not in named:
        spec['kind'] = 'def'
    return spec


def gen_call(rng, spec):
    """Positional and named arguments; they fit about half of the time."""
    if spec['kind'] == 'built_in':
        args = {'str': [[], [1], [[]], [1, 2]],
                'int': [[], [1], [2.5], [[]], [1, 2]],
                'dict': [[], [[]], [{}], [1, 2]],
                'max': [[[1, 2]], [1, 2], [], [3], ['ab']],
                'type': [[1], ['a'], [], [1, 2]],
                'getattr': [['a', 'upper'], [1, 'x', 2], ['a'], []],
                'len': [[[1]], ['ab'], [], [1, 2], [3]],
                'upper': [[], [1]]}[spec['name']]
        return [rng.choice(args), []]
    args, kwargs = [], []
    for name, kind, default in spec['params']:
        if name == 'rng' or kind in ('args', 'kw') or default and \
                rng.random() < 0.4 or rng.random() < 0.07:
            continue
        if name in spec['preset'] and rng.random() < 0.8:
            continue
        if kind == 'pos' or kind == 'plain' and not kwargs and \
                rng.random() < 0.6:
            args.append(rng.randint(0, 9))
        else:
            kwargs.append(name)
    args = args[len([x for x in spec['preset'] if isinstance(x, int)]):]
    kinds = [p[1] for p in spec['params']]
    if rng.random() < (0.7 if 'args' in kinds else 0.06):
        args += [7] * rng.randint(1, 3)
    if rng.random() < (0.7 if 'kw' in kinds else 0.06):
        kwargs.append('other')
    rng.shuffle(kwargs)
    return [args, kwargs]


def gen(rng):
    func = gen_func(rng)
    case = {'func': func, 'bound': rng.choice(sorted(BOUND)), 'ops': []}
    for _ in range(rng.randint(2, 12)):
        op = rng.choice(['call'] * 6 + ['mock'] * 5 + [
            'function', 'bound_to', 'again', 'rng', 'error', 'seed',
            'mock_rng'])
        if op in ('call', 'mock', 'error', 'mock_rng'):
            case['ops'].append([op, *gen_call(rng, func)])
        elif op in ('function', 'again'):
            if op == 'function':
                func = gen_func(rng)
            case['ops'].append([op, func, rng.choice(sorted(BOUND))])
        else:
            case['ops'].append([op, rng.choice(sorted(BOUND))])
    return case


def directed():
    cases = []
    shapes = [[], [['a', 'plain', False]], [['a', 'pos', False]],
              [['a', 'plain', True]], [['a', 'kwonly', False]],
              [['a', 'plain', False], ['rng', 'plain', False]],
              [['a', 'plain', False], ['rng', 'plain', True]],
              [['a', 'plain', False], ['rng', 'kwonly', False]],
              [['rng', 'plain', False], ['a', 'plain', False]],
              [['rng', 'kwonly', True]],
              [['more', 'args', False], ['rng', 'kwonly', False]],
              [['rngs', 'kw', False]],
              [['a', 'plain', False], ['rng', 'plain', False],
               ['kw', 'kw', False]],
              [['more', 'args', False], ['kw', 'kw', False]]]
    for params in shapes:
        for kind in dict.fromkeys(KINDS):
            if kind == 'partial_rng' and not any(
                    p[0] == 'rng' for p in params):
                continue
            func = {'kind': kind, 'params': params, 'preset': []}
            other = {'kind': 'def', 'preset': [], 'params': [
                ['a', 'plain', False]] + [['rng', 'kwonly', False]] * (
                    not any(p[0] == 'rng' for p in params))}
            calls = [[[], []], [[1], []], [[], ['a']], [[1], ['a']],
                     [[1, 2], []], [[1, 2, 3], ['other']]]
            cases.append({'func': func, 'bound': 'bound', 'ops': [
                [op, *c] for op in ('call', 'mock', 'error', 'mock_rng')
                for c in calls] + [['rng', 'bound'], ['call', [1], []],
                                   ['function', other, ''],
                                   ['call', [1], []], ['mock', [], []],
                                   ['bound_to', 'choice'], ['call', [1], []],
                                   ['again', other, 'wrap'],
                                   ['mock', [1, 2], []], ['call', [1], []],
                                   ['function', {'kind': 'built_in',
                                                 'name': 'str'}, ''],
                                   ['call', [1], []], ['mock', [1, 2], []]]})
    for name in ODD_NAMES:
        for kind in dict.fromkeys(KINDS):
            for params in ([[name, 'plain', False]], [[name, 'kwonly', False]],
                           [[name, 'plain', False], ['rng', 'kwonly', True]],
                           [['a', 'plain', True], [name, 'plain', True],
                            ['kw', 'kw', False]]):
                if kind == 'partial_rng' and params[-1][0] != 'rng':
                    continue
                cases.append({
                    'func': {'kind': kind, 'params': params, 'preset': []},
                    'bound': 'bound', 'ops': [
                        [op, *c] for op in ('call', 'mock', 'error')
                        for c in ([[], [name]], [[1], []], [[], []],
                                  [[1, 2], []], [[], [name, 'other']])]})
    # Many arguments.
    for n in (9, 17, 64, 100, 256, 300):
        names = [f'p{i}' for i in range(n)]
        for kind in ('def', 'method', 'object', 'class', 'wraps', 'partial'):
            for how in ('plain', 'kwonly', 'args', 'kw'):
                for rng in (0, 1):
                    params = [['more' if how == 'args' else 'kw', how, False]
                              ] if how in ('args', 'kw') else [
                                  [name, how, False] for name in names]
                    if kind == 'partial' and how == 'kw':
                        continue
                    if rng:
                        params.insert(len(params) - (how == 'kw'),
                                      ['rng', 'kwonly', False])
                    cases.append({
                        'func': {'kind': kind, 'params': params,
                                 'preset': []},
                        'bound': 'choice', 'ops': [
                            [op, *c] for op in ('call', 'mock', 'error')
                            for c in ([list(range(n)), []], [[], names],
                                      [list(range(n - 1)), []],
                                      [[], names[1:]], [[], []],
                                      [list(range(n)), names[-1:]])]})
    return cases


# -- oracle ---------------------------------------------------------------

def outcome(func, *args, **kwargs):
    try:
        return 'value', func(*args, **kwargs)
    except Exception as e:
        return 'error', e


def signature(func):
    try:
        return inspect.signature(func)
    except ValueError:
        return None


def names_rng(func):
    return signature(func) is not None and \
        'rng' in signature(func).parameters


def same_call(a, b, bound, what):
    """Both were called with the same objects (generators apart)."""
    check(len(a) == len(b), f'{what}: called {len(a)} times, not {len(b)}')
    for x, y in zip(a, b):
        check_same(sorted(x), sorted(y), f'{what}: parameters')
        for name in x:
            if name == 'rng' and names_given(bound, x[name], y[name]):
                continue
            check_same(x[name], y[name], f'{what}: argument {name}')


# What is given; some of it is falsy, or equal to other values.
VALUES = [object, None, 0, False, '', (), [], {}, 0.0, 1, True, 'x', Ellipsis,
          NotImplemented, object(), float('nan'), StopIteration, b'']


def given(args, log):
    """The positional and the named arguments of a step."""
    pos, names = args
    if not log:
        return pos, {n: object for n in names}
    shift = 3 * len(pos) + len(names)
    return ([VALUES[(v + shift) % len(VALUES)] for v in pos],
            {n: VALUES[(i + shift) % len(VALUES)]
             for i, n in enumerate(names)})


def names_given(bound, got, want):
    if isinstance(bound, Changing):
        return any(got is g for g in bound.given) and \
            any(want is g for g in bound.given)
    return got is want


def run(case, obs):
    func, log = make(case['func'])
    bound = BOUND[case['bound']](5)
    wrapper = BoundWrapper(func, bound)
    fits = misfits = 0
    for number, (op, *args) in enumerate(case['ops']):
        what = f'step {number}, {op} {short(args, 120)}'
        if op in ('call', 'error'):
            pos, named = given(args, log)
            error = None
            if op == 'error' and log:
                error = log.error = (TypeError if number % 2 else Boom)('own')
            extra = {'rng': bound.rng} if names_rng(func) else {}
            start = len(log.calls) if log else 0
            if log:
                log.result = Token() if number % 2 else \
                    VALUES[(number + len(pos)) % len(VALUES)]
            want = outcome(func, *pos, **named, **extra)
            middle = len(log.calls) if log else 0
            got = outcome(wrapper, *pos, **named)
            if log:
                same_call(log.calls[middle:], log.calls[start:middle], bound,
                          what)
                log.error = None
            if want[0] == 'value':
                check(got[0] == 'value', f'{what}: raised {got[1]!r}')
                if case_is_class(func):
                    check(type(got[1]) is type(want[1]), f'{what}: type')
                else:
                    check(got[1] is want[1] or not log and
                          same_type(got[1], want[1]),
                          f'{what}: got {short(got[1])}, expected '
                          f'{short(want[1])}')
                obs.ev('calls')
                obs.ev('rng_calls', bool(extra))
                fits += 1
            else:
                check(got[0] == 'error', f'{what}: got {short(got[1])}, '
                      f'expected {want[1]!r}')
                if error is not None and want[1] is error:
                    check(got[1] is error, f'{what}: raised {got[1]!r}')
                    obs.ev('errors_of_functions')
                else:
                    check(type(got[1]) is type(want[1]),
                          f'{what}: raised {got[1]!r}, not {want[1]!r}')
                    obs.ev('misfits')
                    misfits += 1
        elif op in ('mock', 'mock_rng'):
            pos, named = given(args, log)
            wants = names_rng(func)
            extra = {'rng': random.Random(1)} if wants else {}
            direct = outcome(func, *pos, **named, **extra) \
                if log or signature(func) is None \
                else outcome(signature(func).bind, *pos, **named)
            bad = direct[0] == 'error' and isinstance(direct[1], TypeError)
            if direct[0] == 'error' and not bad:
                continue
            if op == 'mock_rng' and wants:
                named['rng'] = None
            start = len(log.calls) if log else 0
            state = None if isinstance(bound, Changing) \
                else bound.rng.getstate()
            got = outcome(wrapper.try_mock_call, *pos, **named)
            if log:
                check(len(log.calls) == start,
                      f'{what}: really called the function')
            check(state is None or bound.rng.getstate() == state,
                  f'{what}: used random numbers')
            if bad:
                check(got[0] == 'error', f'{what}: accepted, but the call '
                      f'raises {direct[1]!r}')
                check(isinstance(got[1], TypeError),
                      f'{what}: raised {got[1]!r}')
                check(type(bound).__name__ in str(got[1]),
                      f'{what}: does not name {type(bound).__name__}: '
                      f'{got[1]}')
                obs.ev('mock_bad')
                misfits += 1
            else:
                if got[0] == 'error':
                    raise Violation(f'{what}: raised {got[1]!r}, but the '
                                    'call works')
                check(got[1] is None, f'{what}: returned {short(got[1])}')
                obs.ev('mock_ok')
                fits += 1
        elif op == 'function':
            func, log = make(args[0])
            wrapper.function = func
            obs.ev('replaced_functions')
        elif op == 'bound_to':
            bound = BOUND[args[0]](number)
            wrapper.bound_to = bound
            obs.ev('replaced_objects')
        elif op == 'again':
            old, former = wrapper, bound
            bound = BOUND[args[1]](number)
            wrapper = BoundWrapper(old, bound)
            check(wrapper.function is old.function,
                  f'{what}: does not wrap the function itself')
            check(old.bound_to is former, f'{what}: changed the other wrapper')
            obs.ev('wrapped_again')
        elif op == 'rng' and hasattr(bound, 'rng') and \
                not isinstance(bound, Changing):
            bound.rng = random.Random(number)
            obs.ev('replaced_generators')
        elif op == 'seed' and isinstance(bound, RandomMixin):
            bound.seed(number)
            obs.ev('replaced_generators')
        obs.ev('built_ins', not log)
        check(wrapper.function is func, f'{what}: `function`')
        check(wrapper.bound_to is bound, f'{what}: `bound_to`')
        check(wrapper.wants_rng is names_rng(func),
              f'{what}: `wants_rng` is {wrapper.wants_rng}')
        want = signature(func)
        check(wrapper.signature == want, f'{what}: `signature` is '
              f'{wrapper.signature}, not {want}')
    obs.state(case['func']['kind'], case['func'].get('params'),
              case['bound'])
    if fits and misfits:
        obs.nontrivial()


def case_is_class(func):
    return isinstance(func, type)


def same_type(a, b):
    return type(a) is type(b) and a == b
