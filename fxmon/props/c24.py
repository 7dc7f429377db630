"""C24: groups are lists and dicts that broadcast to their members."""
import collections
import copy
import enum
import functools
import pickle
import types

from fauxdoc.emitters.fromfields import SourceFieldGroup
from fauxdoc.group import ObjectGroup, ObjectMap
from fxmon.core import check, check_same, raises, short

RULE = ('random histories of list or dict operations and broadcasts on groups '
        'whose members log every call and assignment, compared with a plain '
        'list or OrderedDict and with a direct loop over its members; '
        'non-trivial: at least two members and a broadcast')
REQUIRED = {'operations': 40000, 'broadcast_calls': 30000, 'skipped': 15000,
            'assigned': 8000, 'raised': 1500, 'derived': 8000, 'left': 15000}
QUICK = 32000
THOROUGH = 670000
LIST_OPS = ['append', 'insert', 'extend', 'remove', 'pop', 'del', 'delslice',
            'set', 'setslice', 'reverse', 'sort', 'iadd', 'imul', 'clear',
            'index', 'slice', 'add', 'radd', 'mul', 'rmul', 'addgroup', 'copy',
            'pickle']
MAP_OPS = ['set', 'del', 'pop', 'popitem', 'move', 'update', 'setdefault',
           'get', 'clear', 'copy', 'fromkeys', 'or', 'ior', 'pickle', 'views']
CASTS = ['setattr', 'method', 'args', 'missing', 'seed', 'fail', 'noattr',
         'failset', 'readonly', 'leave']
MEMBERS = ['full', 'full', 'bare', 'none', 'falsy', 'slots', 'equal', 'prop',
           'broken', 'dynamic']


def directed():
    cases = []
    for kind, ops in (('list', LIST_OPS), ('map', MAP_OPS)):
        for op in ops:
            for size in (0, 1, 2, 4):
                members = (MEMBERS * 2)[:size]
                casts = [[c, 0, 0] for c in CASTS]
                cases.append({'kind': kind, 'members': members, 'ops': [
                    *casts, [op, 0, 2], *casts, [op, 1, 5], *casts,
                    [op, 3, 1], *casts]})
        cases.append({'kind': kind, 'members': MEMBERS,
                      'ops': [[c, 0, 0] for c in CASTS * 2]})
    for kind in ('list', 'map'):
        for some in ([[k] for k in sorted(ANY)] +
                     [sorted(ANY), sorted(ANY)[::-1]]):
            cases.append({'kind': kind, 'any': some})
    for n in (10, 33, 64, 100, 129, 257, 513, 1025):
        for kind in ('list', 'map'):
            cases.append({'kind': kind, 'members': (MEMBERS * n)[:n],
                          'ops': [[c, 0, 0] for c in CASTS]})
    return cases


def gen(rng):
    kind = rng.choice(['list', 'map'])
    if rng.random() < 0.05:
        return {'kind': kind, 'any': [rng.choice(sorted(ANY))
                                      for _ in range(rng.randint(0, 9))]}
    names = LIST_OPS if kind == 'list' else MAP_OPS
    ops = []
    for _ in range(rng.randint(3, 20)):
        op = rng.choice(names) if rng.random() < 0.6 else rng.choice(CASTS)
        if op == 'clear' and rng.random() < 0.8:
            continue
        ops.append([op, rng.randint(-6, 8), rng.randint(0, 8)])
    return {'kind': kind, 'ops': ops,
            'members': [rng.choice(MEMBERS)
                        for _ in range(rng.randint(0, 7))]}


LOG = []
ODD = [None, False, 0, '', [], {}, NotImplemented, Ellipsis, object, 'attr',
       StopIteration, AttributeError('x'), float('nan')]
# Values that are set; for others it is a list of a number.
VALUES = collections.defaultdict(
    list, {i: [v] for i, v in enumerate([None, False, 0, NotImplemented, '',
                                         len], -2)})


class Oops(Exception):
    pass


FAILS = [AttributeError, ValueError, Oops, StopIteration, TypeError, KeyError,
         IndexError, GeneratorExit, NotImplementedError, RuntimeError,
         StopAsyncIteration, LookupError, OSError]


class Full:
    """Has the attributes and methods that are broadcast to."""
    attr = 'class attribute'
    fails = False

    def __init__(self, uid):
        self.uid = uid
        self.rng_seed = None
        self._strict = None

    def method(self, *args, **kwargs):
        LOG.append((id(self), 'method', args, kwargs))
        return self

    def seed(self, seed):
        LOG.append((id(self), 'seed', (seed,), {}))
        self.rng_seed = seed

    def leave(self, group, what):
        LOG.append((id(self), 'leave'))
        change(group, self, what)

    def fail(self, *args, **kwargs):
        LOG.append((id(self), 'fail', args, kwargs))
        if self.fails:
            # Must not be mistaken for a missing method.
            raise self.fails(f'inside the method of {self.uid}')


    @property
    def strict(self):
        return self._strict

    @strict.setter
    def strict(self, value):
        LOG.append((id(self), 'strict', (value,), {}))
        if self.fails:
            raise self.fails('inside the setter')
        self._strict = value
        if isinstance(value, tuple):
            change(*value[:1], self, *value[1:])


def change(group, member, what):
    """Removes a member from a group, or adds others."""
    if isinstance(group, dict):
        if what == 'join':
            group[f'new {len(group)}'] = Bare(0)
        elif what == 'clear':
            group.clear()
        for key in [k for k, m in group.items() if m is member]:
            del group[key]
    else:
        if what == 'join':
            group.insert(0, Bare(0))
        elif what == 'clear':
            group.clear()
        group[:] = [m for m in group if m is not member]


class Falsy(Full):
    def __len__(self):
        return 0


class Equal(Full):
    """Claims to be equal to anything."""

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 5


class Bare:
    def __init__(self, uid):
        self.uid = uid


class Slots:
    __slots__ = ('uid', 'rng_seed')

    def __init__(self, uid):
        self.uid = uid
        self.rng_seed = 0

    def seed(self, seed):
        LOG.append((id(self), 'seed', (seed,), {}))
        self.rng_seed = seed


class Prop(Bare):
    """Its attribute is a property with a setter."""
    _attr = None

    @property
    def attr(self):
        return self._attr

    @attr.setter
    def attr(self, value):
        LOG.append((id(self), 'attr', (value,), {}))
        self._attr = value


class Broken(Bare):
    """Has properties that don't exist now."""

    @property
    def attr(self):
        raise AttributeError('not now')

    @attr.setter
    def attr(self, value):
        LOG.append((id(self), 'broken', (value,), {}))

    @property
    def method(self):
        raise AttributeError('not now')

    @property
    def fixed(self):
        return 'for ever'


class Dynamic(Bare):
    """Makes its methods on demand."""

    def __getattr__(self, name):
        if name != 'method':
            raise AttributeError(name)
        return lambda *args, **kwargs: LOG.append(
            (id(self), 'method', args, kwargs))


CLASSES = {'full': Full, 'bare': Bare, 'falsy': Falsy, 'slots': Slots,
           'equal': Equal, 'prop': Prop, 'broken': Broken, 'dynamic': Dynamic}
counter = [0]

ODD_KEYS = {-3: '_k', -2: '\u00e9', -1: '', 2: '__init__', 1: 'items', 3: 'self', 4: ' ', 6: 'data',
            7: '0', 8: 'objects'}


def key_of(i):
    """The key with a number."""
    return ODD_KEYS.get(i, f'k{i}')


def make(kind):
    counter[0] += 1
    return None if kind == 'none' else CLASSES[kind](counter[0])


def members_of(x):
    return list(x.values()) if isinstance(x, dict) else list(x)


def ids(xs):
    return [id(x) for x in xs]


def agree(group, model, what):
    if isinstance(model, dict):
        check(isinstance(group, ObjectMap), lambda: f'{what}: {type(group)}')
        check(list(group) == list(model) and ids(group.values()) ==
              ids(model.values()), lambda: (
                  f'{what}: {short(dict(group))}, expected {short(model)}'))
        check([k for k, _ in group.items()] == list(model)
              and list(reversed(group)) == list(reversed(model)),
              f'{what}: order')
        pairs = list(model.items())
        for other in (model, dict(model), collections.OrderedDict(pairs[::-1]),
                      dict(pairs[::-1]), ObjectMap(dict(pairs[::-1])),
                      ObjectMap(model), dict(pairs[1:]), {}, [], None):
            want = collections.OrderedDict(pairs) == other
            got = (group == other, not group != other, other == group)
            check(got == (want,) * 3, lambda: (
                f'{what}: compared with {short(other)}: {got}, not {want}'))
    else:
        check(isinstance(group, ObjectGroup), lambda: f'{what}: {type(group)}')
        check(ids(group) == ids(model), lambda: (
            f'{what}: {short(list(group))}, expected {short(model)}'))
        check(group == model or any(isinstance(m, Equal) for m in model),
              f'{what}: not equal to the list')
    check(len(group) == len(model) and bool(group) is bool(model),
          f'{what}: length')
    check(ids(group.objects_iterable) == ids(members_of(model)),
          f'{what}: objects_iterable')


def broadcast(group, model, op, n, obs):
    """Compares a broadcast with a loop over the members."""
    members = members_of(model)
    LOG.clear()
    if op in ('setattr', 'noattr'):
        name = 'attr' if op == 'setattr' else 'no_such_attribute'
        for i, m in enumerate(members):
            # The values that are replaced: some are odd.
            if type(m) in (Full, Falsy, Equal, Prop):
                m.attr = (m, *ODD)[(i + n) % (len(ODD) + 1)]
        value = (VALUES[n] or [n])[0] if op == 'setattr' else [n]
        have = [m is not None and hasattr(m, name) for m in members]
        LOG.clear()
        check_same(group.setattr(name, value), None, 'result of setattr')
        for m, had in zip(members, have):
            if had:
                check(getattr(m, name) is value, lambda: (
                    f'{m!r} did not get the new {name}'))
                obs.ev('assigned')
            else:
                check(m is None or not hasattr(m, name),
                      lambda: f'{m!r} got a new attribute')
                obs.ev('skipped')
        want = [(id(m), 'attr', (value,), {}) for m in members
                if isinstance(m, Prop) and op == 'setattr']
        check(LOG == want, lambda: f'assignments: {short(LOG)}')
        return
    if op == 'leave':
        # The members change while they are being called.
        for how in ('leave', 'join', 'clear'):
            have = [m for m in members if isinstance(m, Full)]
            other = group.copy()
            other.do_method('leave', other, how)
            check(LOG == [(id(m), 'leave') for m in have], lambda: (
                f'members called, while they {how}: {short(LOG)}'))
            LOG.clear()
            other = group.copy()
            value = (other, how)
            other.setattr('strict', value)
            check(LOG == [(id(m), 'strict', (value,), {}) for m in have],
                  lambda: f'members set, while they {how}: {short(LOG)}')
            LOG.clear()
            check(not any(isinstance(m, Full) for m in members_of(other)),
                  'members that left')
            for m in have:
                m._strict = None
            obs.ev('left', len(have))
        return
    if op in ('failset', 'readonly'):
        return broadcast_failing(group, members, op, n, obs)
    name, args, kwargs = {
        'method': ('method', (), {}),
        'args': ('method', (n, 'x', None, 0), {
            'key': [n], 'attr_name': 1, 'none': None, 'zero': 0, 'no': False,
            'empty': ()}),
        'missing': ('no_such_method', (1,), {}),
        'seed': ('seed', (n,), {}),
        'fail': ('fail', (n,), {'k': 1})}[op]
    have = [m for m in members if m is not None and hasattr(m, name)]
    want = [(id(m), name, args, kwargs) for m in have]
    fulls = [m for m in have if isinstance(m, Full)]
    if op == 'fail' and fulls:
        bad = fulls[n % len(fulls)]
        bad.fails = FAILS[n % len(FAILS)]
        try:
            group.do_method(name, *args, **kwargs)
        except bad.fails as e:
            check('inside the method' in str(e), f'another error: {e}')
        else:
            check(False, f'{bad.fails} inside of a method was hidden')
        bad.fails = False
        first = ids(have).index(id(bad))
        check(LOG == want[:first + 1], lambda: f'calls: {short(LOG)}')
        obs.ev('raised')
        return
    got = group.do_method(name, *args, **kwargs)
    check_same(got, None, f'result of do_method({name})')
    check(LOG == want, lambda: f'calls of {name}: {short(LOG)}, '
                               f'expected {short(want)}')
    obs.ev('broadcast_calls', len(want))
    obs.ev('skipped', len(members) - len(want))


def broadcast_failing(group, members, op, n, obs):
    """What a setter raises isn't hidden."""
    if op == 'readonly':
        if any(isinstance(m, Broken) for m in members):
            raises(AttributeError, group.setattr, 'fixed', n)
            obs.ev('raised')
        else:
            group.setattr('fixed', n)
            check(not any(hasattr(m, 'fixed') for m in members), 'attribute')
        return
    have = [m for m in members if isinstance(m, Full)]
    value = [n]
    if not have:
        group.setattr('strict', value)
        check(not LOG, 'assignments')
        return
    bad = have[n % len(have)]
    bad.fails = FAILS[n % len(FAILS)]
    before = bad.strict
    raises(bad.fails, group.setattr, 'strict', value)
    bad.fails = False
    first = ids(have).index(id(bad))
    check(LOG == [(id(m), 'strict', (value,), {}) for m in have[:first + 1]],
          lambda: f'assignments before the one that failed: {short(LOG)}')
    check(bad.strict is before
          and all(m.strict is value for m in have[:first]), 'assignments')
    obs.ev('raised')


def pickled(x):
    return pickle.loads(pickle.dumps(x))


def logger(uid):
    def method(*args, **kwargs):
        LOG.append((uid, args, kwargs))
    return method


def a_class(uid):
    return type('Some', (), {'attr': 1, 'method': staticmethod(logger(uid))})


def with_attrs(make):
    def made(uid):
        x = make(uid)
        x.attr, x.method = 1, logger(uid)
        return x
    return made


# Members of any other kind: with an attribute and a method, or without.
ANY = {
    'class': a_class,
    'enum': lambda uid: enum.Enum('E', {'attr': 1, 'other': 2}),
    'instance': lambda uid: a_class(uid)(),
    'function': with_attrs(lambda uid: lambda: 1),
    'module': with_attrs(lambda uid: types.ModuleType('some')),
    'namespace': with_attrs(lambda uid: types.SimpleNamespace()),
    'partial': with_attrs(lambda uid: functools.partial(int)),
    'error': with_attrs(lambda uid: ValueError()),
    'group': with_attrs(lambda uid: ObjectGroup(1, 2)),
    'emptygroup': with_attrs(lambda uid: ObjectGroup()),
    'map': with_attrs(lambda uid: ObjectMap({'a': 1})),
    'str': lambda uid: 'attr', 'int': lambda uid: 5, 'zero': lambda uid: 0,
    'no': lambda uid: False, 'float': lambda uid: float('nan'),
    'dict': lambda uid: {'attr': 1}, 'list': lambda uid: [],
    'bare': lambda uid: object(), 'notimp': lambda uid: NotImplemented,
    'dots': lambda uid: ...,
}


def run_any(case, obs):
    members = [ANY[k](i) for i, k in enumerate(case['any'])]
    keys = [f'{"_" * (i % 3)}{k}{i}' for i, k in enumerate(case['any'])]
    group = ObjectGroup(*members) if case['kind'] == 'list' else \
        ObjectMap(dict(zip(keys, members)))
    have = [i for i, m in enumerate(members) if hasattr(m, 'method')]
    LOG.clear()
    for args, kwargs in (((), {}), ((1, 'x'), {'k': 2})):
        group.do_method('method', *args, **kwargs)
        check(LOG == [(i, args, kwargs) for i in have], lambda: (
            f'called {[c[0] for c in LOG]} of {short(case["any"])}'))
        obs.ev('broadcast_calls', len(LOG))
        LOG.clear()
    kinds = [k for k in case['any'] if k != 'enum']
    if len(kinds) == len(members):
        have = [hasattr(m, 'attr') for m in members]
        for value in ([5], None, int):
            group.setattr('attr', value)
            for m, had, kind in zip(members, have, kinds):
                check(m.attr is value if had else not hasattr(m, 'attr'),
                      lambda: f'attribute of {short(m)} ({kind})')
                obs.ev('assigned' if had else 'skipped')
    check(not LOG, 'calls while setting an attribute')
    if len(members) > 1:
        obs.nontrivial()


def run(case, obs):
    counter[0] = 0
    if 'any' in case:
        return run_any(case, obs)
    start = [make(k) for k in case['members']]
    cast = False
    if case['kind'] == 'list':
        group, model = ObjectGroup(*start), list(start)
    else:
        model = collections.OrderedDict(
            (key_of(i), m) for i, m in enumerate(start))
        group = ObjectMap(model)
        check(ObjectMap() == {} and list(ObjectMap({})) == [], 'empty map')
    agree(group, model, 'at first')
    originals = []
    for op, i, j in case['ops']:
        what = f'{op} {i} {j}'
        if op in CASTS:
            broadcast(group, model, op, i, obs)
            cast = cast or len(model) > 1
        else:
            new = [make(MEMBERS[(i + k) % len(MEMBERS)]) for k in range(j % 4)]
            if case['kind'] == 'list':
                derived = list_op(group, model, op, i, j, new)
            else:
                derived = map_op(group, model, op, i, j, new)
            if op == 'iadd':
                alias = group
                group += new
                model += new
                check(group is alias, '+= made another group')
            elif op == 'imul':
                if len(model) < 50:
                    alias = group
                    group *= j % 4
                    check(group is alias, '*= made another group')
                    model *= j % 4
            elif op == 'ior':
                more = {key_of(i + n): m for n, m in enumerate(new)}
                alias = group
                group |= more
                check(group is alias, '|= made another group')
                model |= more
            if derived:
                other, other_model = derived
                agree(other, other_model, what)
                agree(group, model, f'{what}: original')
                obs.ev('derived')
                # A derived group is independent of the original.
                if case['kind'] == 'list':
                    other.append(None)
                    agree(group, model, f'{what}: original, after the new '
                                        'group was changed')
                    del other[-1]
                else:
                    other['~new'] = None
                    agree(group, model, f'{what}: original, after the new '
                                        'group was changed')
                    del other['~new']
                agree(other, other_model, what)
                if j % 2 and len(other_model) < 50:
                    originals.append((group, list(model) if
                                      case['kind'] == 'list' else
                                      collections.OrderedDict(model)))
                    group, model = derived
        agree(group, model, what)
        obs.ev('operations')
        obs.state(case['kind'], op, min(len(model), 8))
    for other, other_model in originals:
        agree(other, other_model, 'a group that another was derived from')
    if cast:
        obs.nontrivial()
    run_source_group(case, obs)


def same_error(f, g, what):
    """Runs both. They have to return or raise the same."""
    try:
        want = f()
    except Exception as e:
        raises(type(e), g)
        return None
    got = g()
    check(got is want or got == want, lambda: (
        f'{what}: {short(got)}, expected {short(want)}'))
    return want


def list_op(group, model, op, i, j, new):
    one = make(MEMBERS[j % len(MEMBERS)])
    slc = slice(i, None if j == 8 else i + j, [None, 1, 2, -1][j % 4])
    if op == 'append':
        group.append(one)
        model.append(one)
    elif op == 'insert':
        group.insert(i, one)
        model.insert(i, one)
    elif op == 'extend':
        group.extend([list, tuple, iter, ObjectGroup][j % 4](new)
                     if j % 4 < 3 else ObjectGroup(*new))
        model.extend(new)
    elif op in ('remove', 'index'):
        m = model[i % len(model)] if model else one
        same_error(lambda: getattr(model, op)(m),
                   lambda: getattr(group, op)(m), op)
        check((m in group) is (m in model), 'in')
        check(group.count(m) == model.count(m), 'count')
    elif op == 'pop':
        same_error(lambda: model.pop(i), lambda: group.pop(i), op)
        if j % 2:
            same_error(model.pop, group.pop, op)
    elif op == 'del':
        same_error(lambda: model.__delitem__(i),
                   lambda: group.__delitem__(i), op)
    elif op == 'delslice':
        del group[slc], model[slc]
    elif op == 'set':
        same_error(lambda: model.__setitem__(i, one),
                   lambda: group.__setitem__(i, one), op)
    elif op == 'setslice':
        group[i:i + j] = new
        model[i:i + j] = new
    elif op == 'reverse':
        group.reverse()
        model.reverse()
    elif op == 'sort':
        group.sort(key=id, reverse=bool(j % 2))
        model.sort(key=id, reverse=bool(j % 2))
    elif op == 'clear':
        group.clear()
        model.clear()
    elif op == 'slice':
        same_error(lambda: model[i], lambda: group[i], 'item')
        return group[slc], model[slc]
    elif op == 'add':
        # (Anything that can be iterated, like the list type of Python.)
        more = [list, tuple, iter, collections.deque,
                collections.UserList][j % 5](new)
        return group + more, model + new
    elif op == 'radd':
        more = [list, tuple, iter, set, list][j % 5]
        if more is set:
            new = new[:1]
        return more(new) + group, new + model
    elif op == 'addgroup':
        return group + ObjectGroup(*new), model + new
    elif op in ('mul', 'rmul'):
        if len(model) < 50:
            n = j % 4
            return (group * n if op == 'mul' else n * group), model * n
    elif op == 'copy':
        return (group.copy() if j % 4 < 2 else copy.copy(group)), list(model)
    elif op == 'pickle':
        other = pickled(group) if j % 4 < 2 else copy.deepcopy(group)
        check(isinstance(other, ObjectGroup) and len(other) == len(model),
              'deep copy')
        for a, b in zip(other, model):
            check(type(a) is type(b) and (a is None or a.uid == b.uid),
                  'deep copy: members')
        check(all(a is not b or a is None for a, b in zip(other, model)),
              'deep copy: same member')
    return None


def map_op(group, model, op, i, j, new):
    one = make(MEMBERS[j % len(MEMBERS)])
    key = key_of(i)
    if op == 'set':
        group[key] = one
        model[key] = one
    elif op == 'del':
        same_error(lambda: model.__delitem__(key),
                   lambda: group.__delitem__(key), op)
    elif op == 'pop':
        same_error(lambda: model.pop(key), lambda: group.pop(key), op)
        check(group.pop('zzz', one) is one, 'default of pop')
    elif op == 'popitem':
        last = bool(j % 2)
        same_error(lambda: model.popitem(last), lambda: group.popitem(last), op)
    elif op == 'move':
        last = bool(j % 2)
        same_error(lambda: model.move_to_end(key, last),
                   lambda: group.move_to_end(key, last), op)
    elif op == 'update':
        more = {key_of(i + n): m for n, m in enumerate(new)}
        group.update(more, extra=one)
        model.update(more, extra=one)
    elif op == 'setdefault':
        same_error(lambda: model.setdefault(key, one),
                   lambda: group.setdefault(key, one), op)
    elif op == 'get':
        for name in (key, 'zzz'):
            check(group.get(name) is model.get(name), 'get')
            check(group.get(name, one) is model.get(name, one), 'get')
            check((name in group) is (name in model), 'in')
            same_error(lambda: model[name], lambda: group[name], 'item')
    elif op == 'clear':
        group.clear()
        model.clear()
    elif op == 'copy':
        return ((group.copy() if j % 4 < 2 else copy.copy(group)),
                collections.OrderedDict(model))
    elif op == 'fromkeys':
        keys = [key_of(n) for n in range(j)]
        return (ObjectMap.fromkeys(keys, one),
                collections.OrderedDict.fromkeys(keys, one))
    elif op == 'or':
        more = {key_of(i + n): m for n, m in enumerate(new)}
        return group | more, model | more
    elif op == 'pickle':
        other = pickled(group) if j % 4 < 2 else copy.deepcopy(group)
        check(isinstance(other, ObjectMap) and list(other) == list(model),
              'deep copy')
        for a, b in zip(other.values(), model.values()):
            check(type(a) is type(b) and (a is None or a.uid == b.uid),
                  'deep copy: members')
    elif op == 'views':
        check(list(group.keys()) == list(model.keys()), 'keys')
        check(ids(group.values()) == ids(model.values()), 'values')
        check([(k, id(v)) for k, v in group.items()] ==
              [(k, id(v)) for k, v in model.items()], 'items')
    return None


def run_source_group(case, obs):
    """Groups of source fields are groups, too."""
    fields = [Full(i) for i in range(len(case['members']))]
    for f in fields:
        f.multi_valued = False
    group = SourceFieldGroup(fields)
    check(ids(group) == ids(fields), 'members of source group')
    part, rest = group[:1], group[1:]
    check(ids(part) == ids(fields[:1]) and ids(rest) == ids(fields[1:]),
          'slices of source group')
    check(ids(part + rest) == ids(fields), 'sum of source groups')
    LOG.clear()
    group.copy().do_method('method')
    check([c[0] for c in LOG] == ids(fields), 'calls of source group')
    check(not group.single_valued, 'a group made from a list is multi-valued')
    if fields:
        one = SourceFieldGroup(fields[0])
        check(one.single_valued and one[:].single_valued
              and one.copy().single_valued, 'group of a single field')
        fields[0].multi_valued = True
        check(not one.single_valued, 'group of a multi-valued field')
        one.append(fields[0])
        check(not one.single_valued, 'group of two fields')
