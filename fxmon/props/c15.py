"""C15: a schema emits one value per field, in order."""
import copy

from fauxdoc.emitters import CopyFields, Sequential, Static
from fauxdoc.group import ObjectMap
from fauxdoc.profile import Field, Schema
from fxmon import schemas, specs
from fxmon.core import check, check_same, short

RULE = ('random histories of documents, added, replaced, hidden and removed '
        'fields on schemas whose fields log each evaluation; also random '
        'schemas of real fields; each document is checked against the log; '
        'non-trivial: at least two fields and two documents')
REQUIRED = {'long_runs': 30000, 'documents': 5000, 'evaluations': 15000, 'hidden': 2000,
            'field_changes': 2000, 'real_documents': 1000, 'resets': 500,
            'part_broadcasts': 1000}
QUICK = 8000
THOROUGH = 140000
NAMES = 'abcdefgh'
# Names that are easily mistaken for others, or for none.
ODD_NAMES = ['', ' ', '0', '\u00e9', 'e\u0301', 'A', 'a ', ' a', 'self', 'fields',
             'name', 'hide', '__class__', '_a', 'items', 'None', 'a.b', 'a-b',
             'x' * 300, 'reset', '\uff41', 'a\n', 'class', 'doc', '__init__']
SEEDS = [5, 0, None, '', 'x', False, 2.5, b'', -1]


def directed():
    cases = [{'readme': True}]
    for n in range(0, 5):
        fields = [[NAMES[i], False] for i in range(n)]
        for hide in range(n + 1):
            fs = [[f, i == hide] for i, (f, _) in enumerate(fields)]
            cases.append({'fields': fs, 'ops': [['doc']] * 3})
        cases.append({'fields': fields, 'ops': [
            ['doc'], ['add', [['h', True], ['g', False]]], ['doc'],
            ['hide', 0], ['doc'], ['set', [['c', False], ['a', False]]],
            ['doc'], ['add', [['a', False]]], ['doc'], ['hide', 0], ['doc'],
            ['hide', 0], ['doc'], ['reset'], ['doc'], ['views'], ['doc'],
            ['part'], ['doc'], ['flip'], ['part'], ['doc']]})
    for n in (10, 16, 17, 32, 33, 50, 64, 65, 100, 128, 129, 256, 257, 500,
              1001):
        fields = [[f'field {i}' if i % 3 else f'f{i}', i % 7 == 3]
                  for i in range(n)]
        cases.append({'fields': fields, 'ops': [
            ['doc'], ['doc'], ['hide', n // 2], ['doc'], ['reset'], ['doc'],
            ['add', [['last', False]]], ['doc'], ['views'], ['doc']]})
    odd = [[n, i % 5 == 4] for i, n in enumerate(ODD_NAMES)]
    cases.append({'fields': odd, 'ops': [
        ['doc'], ['hide', 0], ['doc'], ['reset'], ['doc'], ['views'],
        ['add', odd[::-1]], ['doc'], ['set', odd[::3]], ['doc']]})
    cases.append({'fields': [['a', False], ['b', True]],
                  'ops': [['doc']] * 3000})
    return cases


def gen(rng):
    if rng.random() < 0.25:
        fspecs = schemas.gen_fields(rng, hi=7)
        for fs in fspecs:
            fs.setdefault('seed', specs.gen_seed(rng))
        return {'real': fspecs, 'docs': rng.randint(1, 6)}

    names = [*NAMES] if rng.random() < 0.6 else rng.sample(ODD_NAMES, 8)

    def some(hi):
        return [[n, rng.random() < 0.3]
                for n in rng.sample(names, rng.randint(0, hi))]
    ops = []
    for _ in range(rng.randint(2, 15)):
        kind = rng.choice(['doc'] * 6 + ['add', 'add', 'set', 'hide', 'hide',
                                         'del', 'map', 'reset', 'seed',
                                         'views', 'move', 'junk', 'part',
                                         'flip'])
        if kind in ('add', 'set', 'map'):
            ops.append([kind, some(4)])
        elif kind in ('hide', 'del', 'move'):
            ops.append([kind, rng.randint(0, 7)])
        else:
            ops.append([kind])
    return {'fields': some(6), 'ops': ops}


class Probe:
    """A field-like object that logs each evaluation."""

    multi_valued = False

    def __init__(self, name, hide, log, uid):
        self.name, self.hide, self.log, self.uid = name, hide, log, uid
        self.previous = None
        self.resets = self.count = 0
        self.seeds = []

    def __call__(self):
        self.count += 1
        # None and falsy values have to be part of the document, too.
        value = [None, 0, '', [], ('v', self.uid, self.count)][
            min(self.count + self.uid, 9) % 5]
        self.previous = [value, self.uid, self.count] \
            if self.count % 2 else value
        if self.uid % 5 == 2:
            # Fields may call or reset others, which changes these.
            for other, _ in self.log[-3:]:
                other.previous = 'changed later'
        self.log.append((self, self.previous))
        return self.previous

    def reset(self):
        self.resets += 1

    def seed(self, s):
        self.seeds.append(s)


def run(case, obs):
    if case.get('readme'):
        return run_readme(obs)
    if 'real' in case:
        return run_real(case, obs)
    run_named(case)
    log, uid = [], [0]

    def make(pairs):
        out = []
        for name, hide in pairs:
            uid[0] += 1
            out.append(Probe(name, hide, log, uid[0]))
        return out
    start = make(case['fields'])
    schema = Schema(*start)
    order = {f.name: f for f in start}
    everyone = list(start)
    docs = []

    def agree(what):
        check(isinstance(schema.fields, ObjectMap), 'not an ObjectMap')
        check(list(schema.fields.items()) == list(order.items()), lambda: (
            f'{what}: fields are {list(schema.fields)}, expected '
            f'{list(order)} (or a different field object)'))
        for name, hide in (('public_fields', False), ('hidden_fields', True)):
            got = getattr(schema, name)
            want = [(k, f) for k, f in order.items() if bool(f.hide) is hide]
            check(list(got.items()) == want, lambda: (
                f'{what}: {name} is {list(got)}'))
    agree('at first')
    for op, *args in case['ops']:
        what = f'after {op} {args}'
        if op == 'doc':
            log.clear()
            doc = schema()
            check(type(doc) is dict, f'a document is a {type(doc)}')
            check([f for f, _ in log] == list(order.values()), lambda: (
                f'evaluated {[f.name for f, _ in log]}, expected '
                f'{list(order)}, each once, in this order'))
            values = dict(log)
            want = [(k, values[f]) for k, f in order.items() if not f.hide]
            got = list(doc.items())
            check([k for k, _ in got] == [k for k, _ in want], lambda: (
                f'keys {list(doc)}, expected {[k for k, _ in want]}'))
            for (k, a), (_, b) in zip(got, want):
                check(a is b, lambda: f'{k}: {short(a)} is not the value that '
                                      f'the field returned ({short(b)})')
            docs.append((doc, dict(doc)))
            obs.ev('documents')
            obs.ev('evaluations', len(log))
            obs.ev('hidden', sum(1 for f in order.values() if f.hide))
        elif op == 'add':
            new = make(args[0])
            everyone += new
            schema.add_fields(*new)
            order.update({f.name: f for f in new})
            obs.ev('field_changes')
        elif op in ('set', 'map'):
            new = make(args[0])
            everyone += new
            if op == 'set':
                schema.set_fields(*new)
            else:
                schema.fields = ObjectMap({f.name: f for f in new})
            order = {f.name: f for f in new}
            obs.ev('field_changes')
        elif op in ('hide', 'del', 'move') and order:
            name = list(order)[args[0] % len(order)]
            if op == 'hide':
                f = order[name]
                f.hide = [True, 1, 'yes', [0]][f.uid % 4] if not f.hide \
                    else [False, 0, '', None, []][f.uid % 5]
            elif op == 'del':
                del schema.fields[name]
                del order[name]
            else:
                schema.fields.move_to_end(name)
                order[name] = order.pop(name)
            obs.ev('field_changes')
        elif op in ('reset', 'seed'):
            before = [(f.resets, len(f.seeds)) for f in everyone]
            log.clear()
            seed = SEEDS[uid[0] % len(SEEDS)]
            schema.reset_fields() if op == 'reset' else \
                schema.seed_fields(seed)
            for f, (r, s) in zip(everyone, before):
                inside = order.get(f.name) is f
                check((f.resets - r, len(f.seeds) - s) == (
                    (0, 0) if not inside else
                    (1, 0) if op == 'reset' else (0, 1)),
                    lambda: f'{what}: field {f.name} (in schema: {inside}) '
                            'was reset or seeded wrongly')
                check(not inside or op == 'reset' or f.seeds[-1] is seed,
                      'seed')
            check(not log, f'{what}: fields were evaluated')
            obs.ev('resets')
        elif op == 'views':
            # These are views on demand: changing them has no effect.
            schema.public_fields.clear()
            schema.hidden_fields['zzz'] = make([['zzz', True]])[0]
            schema.public_fields.update(zzz=make([['zzz', False]])[0])
        elif op == 'part':
            # One kind of fields can be broadcast to.
            for part, hide in ((schema.public_fields, False),
                               (schema.hidden_fields, True)):
                before = [(f.resets, len(f.seeds)) for f in everyone]
                check(isinstance(part, ObjectMap), 'not an ObjectMap')
                part.do_method('reset')
                part.do_method('seed', 6)
                part.do_method('no_such_method')
                for f, (r, s) in zip(everyone, before):
                    n = int(order.get(f.name) is f and bool(f.hide) is hide)
                    check((f.resets - r, len(f.seeds) - s) == (n, n), lambda: (
                        f'{what}: broadcast to the '
                        f'{"hidden" if hide else "public"} fields made '
                        f'{f.resets - r} resets of {f.name}'))
                obs.ev('part_broadcasts')
        elif op == 'flip':
            if uid[0] % 2:
                schema.hidden_fields.setattr('hide', [False, 0, ''][uid[0] % 3])
            else:
                schema.public_fields.setattr('hide', [True, 1][uid[0] % 4 // 2])
            check(len({bool(f.hide) for f in order.values()}) < 2, 'hide')
            obs.ev('field_changes')
        elif op == 'junk' and docs:
            # The document belongs to the caller.
            docs[-1][0]['junk'] = 1
            docs[-1] = (docs[-1][0], dict(docs[-1][0]))
        agree(what)
    for doc, snapshot in docs:
        check(list(doc.items()) == list(snapshot.items()),
              'a document changed after it was returned')
    obs.state(case['fields'], [o[0] for o in case['ops']][:5])
    if len(order) > 1 and len(docs) > 1:
        obs.nontrivial()


def run_named(case):
    """Real fields of the same names."""
    fields = [Field(name, Static(i), hide=hide)
              for i, (name, hide) in enumerate(case['fields'])]
    schema = Schema(*fields)
    names = {name: f for (name, _), f in zip(case['fields'], fields)}
    check(all(f.name == n for n, f in names.items()), 'name')
    check(list(schema.fields.items()) == list(names.items()), 'fields')
    check_same(schema(), {n: f.emitter.value for n, f in names.items()
                          if not f.hide}, 'document of real fields')


def run_real(case, obs):
    """A schema of real fields equals its fields called in order."""
    schema = schemas.build_schema(case['real'])
    twin = schemas.build_fields(case['real'])
    docs = []
    for _ in range(case['docs']):
        doc = schema()
        want = {}
        for name, field in twin.items():
            value = field()
            if not field.hide:
                want[name] = value
        check_same(doc, want, 'document vs. its fields called one by one')
        for name, field in schema.fields.items():
            if not field.hide:
                check(field.previous is doc[name], f'{name}.previous')
            else:
                check_same(field.previous, twin[name].previous,
                           f'hidden {name}.previous')
        docs.append((doc, copy.deepcopy(doc)))
        obs.ev('real_documents')
    for doc, snapshot in docs:
        check_same(doc, snapshot, 'a document changed after it was returned')
    if len(docs) > 1 and len(twin) > 1:
        obs.nontrivial()


def run_readme(obs):
    """A field that hides and one that copies it."""
    a = Field('a', Sequential([1, 2, 3]), hide=True)
    b = Field('b', CopyFields(a))
    c = Field('c', Static('x'))
    schema = Schema(a, b, c)
    for i in range(7):
        check_same(schema(), {'b': i % 3 + 1, 'c': 'x'}, 'hidden source')
    schema.reset_fields()
    check_same(schema(), {'b': 1, 'c': 'x'}, 'hidden source after reset')
    check_same(Schema()(), {}, 'empty schema')
    # A long run.
    n = 30000
    a = Field('a', Sequential(range(n)), hide=True)
    b = Field('b', CopyFields(a))
    c = Field('c', Sequential(range(n)))
    schema = Schema(a, b, c)
    for i in range(n + 100):
        check_same(schema(), {'b': i % n, 'c': i % n}, f'document {i}')
        obs.ev('long_runs')
    schema.reset_fields()
    check_same(schema(), {'b': 0, 'c': 0}, 'after a long run and reset')
    obs.nontrivial()
