"""C28: emitters that users build from the base class and mixins."""
import random

from fauxdoc.emitter import Emitter
from fauxdoc.mixins import (
    ChildrenMixin, ItemsMixin, RandomMixin, RandomWithChildrenMixin
)
from fxmon.core import check, check_same, raises

RULE = ('random trees of user-defined emitters, made from the base class and '
        'the mixins in several combinations, with random histories of calls, '
        'resets, seeds and rng_seed assignments at random nodes; all values '
        'and resets are compared with a model of the tree; non-trivial: at '
        'least two nodes and two calls')
REQUIRED = {'values': 20000, 'resets': 3000, 'seeds': 1500, 'draws': 20000,
            'batches': 5000, 'rejected': 2000, 'passed_on': 500, 'joined': 2000, 'left': 500, 'set_rngs': 1000}
QUICK = 40000
THOROUGH = 600000
KINDS = ['plain', 'random', 'items', 'parent', 'randparent', 'randitems',
         'all', 'sub', 'duck', 'noattr', 'coop', 'bare', 'empty']
LEAVES = ['plain', 'random', 'items', 'randitems', 'duck', 'noattr', 'coop']
RANDOM = {'random', 'randparent', 'randitems', 'all', 'sub', 'duck', 'coop',
          'bare', 'empty'}
PARENTS = {'parent', 'randparent', 'all', 'sub', 'bare'}
ITEMS = {'items', 'randitems', 'all', 'coop', 'empty'}


def directed():
    cases = []
    ops = [['call', [], None], ['call', [], 3], ['call', [], 1],
           ['reset', []], ['call', [], 2], ['seed', [], 5], ['call', [], 2],
           ['reset', []], ['call', [], 0], ['rng_seed', [], 'x'],
           ['call', [], None], ['reset', []], ['call', [], 2],
           ['call', [0], 2], ['seed', [0], 9], ['call', [], 2],
           ['reset', [0]], ['call', [], 2], ['reset', []], ['call', [], 1]]
    for kind in KINDS:
        if kind in PARENTS:
            for kid in KINDS:
                kids = [[kid, 2, [['random', 3, []], ['plain', 0, []]]
                         if kid in PARENTS else []], ['random', 4, []]]
                cases.append({'tree': [kind, 1, kids], 'ops': ops})
            # Children that join or leave later.
            for arg in (0, 'new', 2.5):
                cases.append({'tree': [kind, 1, [['random', 4, []]]], 'ops': [
                    o for i in range(5) for op in (
                        ['join', [], arg], ['seed', [], i], ['reset', []],
                        ['rng_seed', [], 'y'], ['reset', []], ['leave', []],
                        ['rng', [], i])
                    for o in (op, ['call', [], 2], ['call', [], None])][:44]})
        else:
            cases.append({'tree': [kind, 1, []], 'ops': ops})
    return cases


def gen(rng):
    def tree(depth):
        kind = rng.choice(KINDS if depth else LEAVES)
        kids = [tree(depth - 1) for _ in range(rng.randint(0, 3))] \
            if kind in PARENTS else []
        return [kind, rng.choice([0, 1, 'x', 2.5, rng.randint(0, 99)]), kids]
    ops = []
    for _ in range(rng.randint(3, 16)):
        op = rng.choice(['call'] * 5 + ['reset', 'seed', 'rng_seed', 'uniq',
                                       'join', 'join', 'leave', 'rng'])
        path = [rng.randint(0, 5) for _ in range(rng.choice([0, 0, 1, 2]))]
        ops.append([op, path, rng.choice([None, 0, 1, 2, 3])
                    if op == 'call' else rng.choice([0, 1, 'z', 7.5])])
    return {'tree': tree(rng.randint(0, 3)), 'ops': ops}


class Base(Emitter):
    """What all have in common: a position, which reset restores."""
    pos = resets = many = 0

    def reset(self):
        self.pos = 0
        self.resets += 1
        super().reset()

    def emit(self):
        self.pos += 1
        out = [self.name, self.pos]
        if hasattr(self, 'rng'):
            out.append(self.rng.random())
        if hasattr(self, 'emitters'):
            out.append([em() for em in self.emitters.values()])
        return out

    def emit_many(self, number):
        self.many += 1
        return [self.emit() for _ in range(number)]


# The position is handled cooperatively, before or after the mixins.

class Plain(Base):
    def __init__(self, name):
        self.name = name
        self.reset()


class Random(RandomMixin, Base):
    def __init__(self, name, rng_seed=None):
        self.name = name
        super().__init__(rng_seed=rng_seed)


class Equal(Base):
    """Equals any other, and can't be hashed."""

    def __eq__(self, other):
        return isinstance(other, Emitter)

    __hash__ = None


class Items(ItemsMixin, Equal):
    def __init__(self, name, items):
        self.name = name
        super().__init__(items=items)
        self.reset()


class Parent(ChildrenMixin, Equal):
    def __init__(self, name, kids):
        self.name = name
        super().__init__(children=kids)
        self.reset()


class RandParent(RandomWithChildrenMixin, Base):
    def __init__(self, name, kids, rng_seed=None):
        self.name = name
        super().__init__(children=kids, rng_seed=rng_seed)


class RandItems(RandomMixin, ItemsMixin, Base):
    def __init__(self, name, items, rng_seed=None):
        self.name = name
        super().__init__(items=items, rng_seed=rng_seed)


class All(RandomWithChildrenMixin, ItemsMixin, Equal):
    def __init__(self, name, items, kids, rng_seed=None):
        self.name = name
        super().__init__(items=items, children=kids, rng_seed=rng_seed)


class Sub(RandParent):
    """Overrides what a user would override, and calls the superclass."""
    extra = 0

    def reset(self):
        super().reset()
        self.extra = 0

    def seed(self, rng_seed):
        super().seed(rng_seed)
        self.extra = -1

    def emit(self):
        self.extra += 1
        return super().emit() + [self.extra]


class Duck(Equal):
    """Is random, but without a mixin."""

    def __init__(self, name, rng_seed=None):
        self.name = name
        self.rng_seed = rng_seed
        self.rng = random.Random(rng_seed)

    def reset(self):
        super().reset()
        self.rng = random.Random(self.rng_seed)

    def seed(self, rng_seed):
        self.rng_seed = rng_seed
        self.rng.seed(rng_seed)


class NoAttr(Base):
    """Can be seeded, but doesn't show its seed."""

    def __init__(self, name, rng_seed=None):
        self.name = name
        self._seed = rng_seed
        self.reset()

    def reset(self):
        super().reset()
        self.seed(self._seed)

    def seed(self, rng_seed):
        self._seed = rng_seed
        self.rng = random.Random(rng_seed)


class CoopBase(Base):
    """Takes arguments that come through the mixins, and seeds."""
    seeds = ()

    def __init__(self, name, *, tag):
        self.name = name
        self.tag = tag
        super().__init__()

    def seed(self, rng_seed):
        self.seeds += (rng_seed,)


class Coop(ItemsMixin, RandomMixin, CoopBase):
    """Has no constructor: the mixins pass the arguments on."""


class Bare(RandomWithChildrenMixin):
    """Isn't derived from the base class."""
    pos = resets = many = 0
    num_unique_values, emits_unique_values = None, False

    def __init__(self, name, kids, rng_seed=None):
        self.name = name
        super().__init__(children=kids, rng_seed=rng_seed)

    def reset(self):
        super().reset()
        self.resets += 1
        self.pos = 0

    def __call__(self, number=None):
        if number is None:
            return Base.emit(self)
        self.many += 1
        return [Base.emit(self) for _ in range(number)]


class Empty(RandomWithChildrenMixin, ItemsMixin, Base):
    """Leaves out everything that can be left out."""

    def __init__(self, name):
        self.name = name
        super().__init__()


class Alone(RandomMixin):
    """Something random that is not an emitter at all."""


class Node:
    """The model of one emitter in the tree."""

    def __init__(self, spec, name):
        self.kind, seed, kids = spec
        self.name = name
        self.kids = [Node(k, f'{name}.{i}') for i, k in enumerate(kids)]
        self.rng_seed = seed
        self.extra = self.pos = 0
        self.seeds = ()
        self.rng = None
        self.em = self.build()
        self.reset()

    def build(self):
        kids = {f'k{i}': k.em for i, k in enumerate(self.kids)}
        items = [1, 2, 2, 3]
        args, seed = [self.name], {'rng_seed': self.rng_seed}
        return {
            'plain': lambda: Plain(*args),
            'random': lambda: Random(*args, **seed),
            'items': lambda: Items(*args, items),
            'parent': lambda: Parent(*args, kids),
            'randparent': lambda: RandParent(*args, kids, **seed),
            'randitems': lambda: RandItems(*args, items, **seed),
            'all': lambda: All(*args, items, kids, **seed),
            'sub': lambda: Sub(*args, kids, **seed),
            'duck': lambda: Duck(*args, **seed),
            'noattr': lambda: NoAttr(*args, **seed),
            'coop': lambda: Coop(*args, items=items, tag=7, **seed),
            'bare': lambda: Bare(*args, kids, **seed),
            'empty': lambda: self.empty(args)}[self.kind]()

    def empty(self, args):
        em = Empty(*args)
        check((em.rng_seed, list(em.items), dict(em.emitters))
              == (None, [], {}), 'defaults of the mixins')
        check(em.num_unique_values == 0, 'unique values of no items')
        other = Empty(*args)
        for a, b in ((em.items, other.items), (em.emitters, other.emitters)):
            # Each has its own, which can be filled later.
            a.append(1) if isinstance(a, list) else a.update(x=Plain('x'))
            check(not b, 'objects made without items or children share them')
            a.clear()
        em.rng_seed = self.rng_seed
        em.reset()
        return em

    @property
    def random(self):
        return self.kind in RANDOM

    def reset(self):
        for kid in self.kids:
            if self.random and kid.random:
                kid.rng_seed = self.rng_seed
            kid.reset()
        if self.random or self.kind == 'noattr':
            self.rng = random.Random(self.rng_seed)
        self.pos = self.extra = 0

    def seed(self, seed):
        for kid in self.kids:
            if kid.random or kid.kind == 'noattr':
                kid.seed(seed)
        self.seeds += (seed,)
        self.rng_seed = seed
        self.rng.seed(seed)
        self.extra = -1

    def emit(self, obs):
        self.pos += 1
        out = [self.name, self.pos]
        if self.rng is not None:
            out.append(self.rng.random())
            obs.ev('draws')
        if self.kind in PARENTS or self.kind == 'empty':
            out.append([k.emit(obs) for k in self.kids])
        if self.kind == 'sub':
            self.extra += 1
            out.append(self.extra)
        return out

    def all(self):
        yield self
        for kid in self.kids:
            yield from kid.all()


def run(case, obs):
    root = Node(case['tree'], 'r')
    calls = 0
    joined = []
    for op, path, *rest in case['ops']:
        arg = rest[0] if rest else None
        node = root
        for p in path:
            if node.kids:
                node = node.kids[p % len(node.kids)]
        em = node.em
        what = f'{op} {arg!r} at {node.name} ({node.kind})'
        if op == 'call':
            many = em.many
            got = em() if arg is None else em(arg)
            want = [node.emit(obs) for _ in range(1 if arg is None else arg)]
            check_same(got, want[0] if arg is None else want, what)
            if arg is not None and arg > 1:
                check(em.many == many + 1, f'{what}: emit_many was not used')
                obs.ev('batches')
            obs.ev('values', len(want))
            calls += 1
        elif op == 'reset':
            before = {n.name: n.em.resets for n in node.all()}
            em.reset()
            node.reset()
            for n in node.all():
                check(n.em.resets > before[n.name], f'{what}: {n.name} was not'
                                                    ' reset')
            obs.ev('resets')
        elif op == 'seed' and node.random:
            em.seed(arg)
            node.seed(arg)
            obs.ev('seeds')
        elif op == 'rng_seed' and node.random:
            em.rng_seed = arg
            node.rng_seed = arg
        elif op == 'rng' and node.rng is not None and arg != 1:
            # Another generator is used until the next reset.
            em.rng = random.Random(arg)
            node.rng = random.Random(arg)
            obs.ev('set_rngs')
        elif op == 'join' and node.kind in PARENTS and len(
                list(root.all())) < 40:
            # Under a new label, or one that is there already.
            new = Node([LEAVES[len(str(arg)) * 3 % len(LEAVES)
                               + calls % 2 - 1], arg, []], f'{what} {len(joined)}')
            number = len(node.kids)
            if calls % 3 == 2 and number:
                label = list(em.emitters)[calls % number]
                node.kids[calls % number] = new
            else:
                label = f'new label {len(node.kids)}, {calls} {len(joined)}'
                node.kids.append(new)
            joined.append(label)
            if calls % 2:
                em.emitters[label] = new.em
            else:
                em.emitters.update({label: new.em})
            obs.ev('joined')
        elif op == 'leave' and node.kids:
            label = list(em.emitters)[calls % len(node.kids)]
            del em.emitters[label], node.kids[calls % len(node.kids)]
            joined.append(label)
            obs.ev('left')
        elif op == 'uniq' and node.kind != 'bare':
            number = len(str(arg))
            err = raises(ValueError, em.raise_uniqueness_violation, number)
            check(str(number) in str(err)
                  and str(em.num_unique_values) in str(err), f'error: {err}')
            obs.ev('rejected')
        obs.state(node.kind, op, len(path), len(node.kids))
    for node in root.all():
        em = node.em
        if node.random:
            check_same(em.rng_seed, node.rng_seed, f'{node.name}.rng_seed')
            check(em.rng.getstate() == node.rng.getstate(),
                  f'{node.name}.rng')
        if node.kind == 'noattr':
            check(em.rng.getstate() == node.rng.getstate(),
                  f'{node.name}.rng')
            check(not hasattr(em, 'rng_seed'), 'new attribute: rng_seed')
        if node.kind == 'coop':
            check_same((em.seeds, em.tag), (node.seeds, 7),
                       f'{node.name}: what its base class received')
            obs.ev('passed_on', len(em.seeds))
        if node.kind in ITEMS:
            items = [] if node.kind == 'empty' else [1, 2, 2, 3]
            check_same((em.items, em.num_unique_values),
                       (items, len(set(items))), f'{node.name}.items')
        else:
            check_same((em.num_unique_values, em.emits_unique_values),
                       (None, False), f'{node.name}: defaults')
        if node.kind in PARENTS:
            check((joined or list(em.emitters) == [
                f'k{i}' for i in range(len(node.kids))])
                  and len(em.emitters) == len(node.kids) and all(a is b.em for a, b in
                          zip(em.emitters.values(), node.kids)), 'emitters')
    for thing in (Alone(rng_seed=case['tree'][1]), Alone()):
        thing.seed(seed := f'{calls}')
        want = random.Random(seed)
        for _ in range(2):
            check_same([thing.rng.random() for _ in range(3)],
                       [want.random() for _ in range(3)], 'random mixin alone')
            thing.reset()
            want = random.Random(seed)
    # A base class without `emit` can't be used.
    raises(TypeError, Emitter)
    if calls > 1 and root.kids:
        obs.nontrivial()
