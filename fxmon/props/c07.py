"""C07: what emitters report about uniqueness is true."""
import itertools
import warnings

from fauxdoc.emitters import (
    Choice, Iterative, Sequential, Static, Text, Word, WrapMany, WrapOne
)
from fauxdoc.dtrange import DateOrTimeRange
from fxmon import dtmodel as m
from fxmon import specs
from fxmon.core import check, check_same, raises, short
from fxmon.props.c05 import key

RULE = ('random emitters of all types; the reported number of unique values '
        'is compared with the values that are then actually emitted (until '
        'exhaustion, or until a small space is covered) and with a count made '
        'from the description; non-trivial: at least two values were compared')
REQUIRED = {'drained': 500, 'finite': 500, 'word_spaces': 300,
            'text_spaces': 300, 'covered_spaces': 20, 'unknowable': 200,
            'unhashable': 50, 'clocks': 300, 'rechecks': 5000, 'changed_children': 3000,
            'replaced': 300, 'large': 80, 'static_sets': 1000, 'used_up': 500,
            'whole_batches': 500, 'zero_weights': 15}
QUICK = 16000
THOROUGH = 270000


def directed():
    cases = [{'kind': 'unknown'}]
    cases += [{'kind': 'used_up', 'n': n} for n in range(1, 8)]
    for op in (['value', 3], ['length', 2], ['alphabet', 'xyz'],
               ['sep', '-+'], ['unknown', 0]):
        cases.append({'kind': 'changes', 'first': [1, 'ab', ' '],
                      'ops': [op, ['reset', 0], ['value', 0]]})
    for v in (None, 1, 'a', [1], {'$dict': {'a': 1}}, [], ''):
        cases.append({'kind': 'static', 'v': v})
    for items in ([1], [1, 1], [1, 2, 1, 2], 'abca', [[1], [1], [2]],
                  [[1], [2]], [True, 2, 3], [1, 1.0, 2], [0, False, 0.0, '0', 2.5,
                   {'$decimal': '2.5'}], {'$range': [0, 9, 2]},
                  [{'$tuple': [1, 2]}, {'$tuple': [1, 2]}], [None, 0, ''],
                  [{'$set': [1]}, {'$mset': [1]}, {'$set': [2]}, [1]],
                  [{'$bytes': 'a'}, {'$bytearray': 'a'}, {'$bytes': 'b'}],
                  [[1], 1, {'$tuple': [1]}, 1.0, [True]]):
        for k in ('seq', 'replace', 'none', 'roac'):
            cases.append({'kind': k, 'items': items, 'chunks': [1, 1, 2, 1]})
    for lens in ([0], [1], [2, 2], [0, 1, 2], [3, 1, 3], [2]):
        for alpha in ('a', 'ab', 'aab', 'abc'):
            for lk in ('seq', 'choice', 'static'):
                cases.append({'kind': 'word', 'lens': lens, 'alpha': alpha,
                              'lk': lk, 'cover': True})
            for seps in ([' '], [' ', '-'], [' ', ' ']):
                cases.append({'kind': 'text', 'lens': lens,
                              'words': list(alpha), 'seps': seps,
                              'lk': 'choice', 'cover': True})
    for n in (600, 3000, 12000, 60000):
        for more in ([], [0], [n // 2], [n - 1] * 3):
            for front in (False, True):
                some = {'n': n, 'more': more, 'front': front}
                for k in ('seq', 'replace', 'none', 'roac'):
                    cases.append({'kind': k, 'large': some,
                                  'chunks': [1, n // 2, n // 3]})
    # Items without weight can't be chosen, but end up in whole batches.
    for weights in ([1, 1, 0], [0, 0, 1], [0, 3, 0], [0, 1, 2], [1, 0, 1]):
        for items in ('abc', 'aba', [1, [2], 3], [None, 0, 0]):
            for k in ('roac', 'none'):
                cases.append({'kind': k, 'items': items, 'weights': weights,
                              'chunks': [1, 1, 1]})
    # Ranges of times go around the clock.
    for hours, n in ((12, 3), (12, 9), (7, 20), (7, 30), (1, 30),
                     (-6, 11), (23, 48), (23, 24)):
        for k in ('seq', 'replace', 'none', 'roac'):
            cases.append({'kind': k, 'clock': [hours, n],
                          'chunks': [1, 1, 2, 1]})
    return cases


def gen(rng):
    kind = rng.choice(['seq', 'replace', 'none', 'none', 'none', 'roac', 'word',
                       'text', 'static', 'changes'])
    case = {'kind': kind}
    if kind == 'changes':
        def letters():
            return ''.join(rng.choice('abcd')
                           for _ in range(rng.randint(1, 5)))
        case['first'] = [rng.randint(0, 4), letters(), letters()]
        case['ops'] = []
        for _ in range(rng.randint(1, 6)):
            op = rng.choice(['value', 'length', 'alphabet', 'sep', 'reset',
                             'unknown'])
            case['ops'].append([op, rng.randint(0, 4)
                                if op in ('value', 'length') else letters()])
        return case
    if kind == 'static':
        case['v'] = rng.choice([None, 0, 'x', [1, [2]]])
    elif kind in ('word', 'text'):
        case['lens'] = [rng.randint(0, 5) for _ in range(rng.randint(1, 4))]
        case['lk'] = rng.choice(['seq', 'choice', 'static', 'weighted'])
        n = rng.randint(1, 5)
        if kind == 'word':
            case['alpha'] = ''.join(rng.choice('abcdefg') for _ in range(n))
        else:
            case['words'] = [rng.choice(['a', 'bb', 'c', 'dd'])
                             for _ in range(n)]
            case['seps'] = [rng.choice([' ', '-', '+'])
                            for _ in range(rng.randint(1, 3))]
        case['cover'] = False
    else:
        if rng.random() < 0.1:
            case['clock'] = [rng.randint(1, 23) * rng.choice([1, -1]),
                             rng.randint(1, 60)]
        else:
            case['items'] = specs.gen_items(rng, hi=rng.choice([3, 9, 30]),
                                            hashable=False)
        case['chunks'] = [rng.randint(0, 4) for _ in range(8)]
        if kind != 'seq' and rng.random() < 0.4:
            n = len(get_items(case))
            case['weights'] = specs.gen_weights(rng, n)
    return case


def distinct(values):
    if len(values) > 500:
        return list(dict.fromkeys(values))
    out = []
    for v in values:
        if not any(v == o for o in out):
            out.append(v)
    return out


def get_items(case):
    if 'clock' in case:
        hours, n = case['clock']
        return DateOrTimeRange(m.value('time', 5, None), n,
                               m.delta(hours * m.UNITS['hours']))
    if 'large' in case:
        some = case['large']
        items = list(range(some['n']))
        return some['more'] + items if some['front'] else items + some['more']
    return specs.dec(case['items'])


def lengths(case):
    lens, lk = case['lens'], case['lk']
    if lk == 'static':
        return Static(lens[0]), {lens[0]}
    if lk == 'seq':
        return Sequential(lens), set(lens)
    weights = list(range(1, len(lens) + 1)) if lk == 'weighted' else None
    return Choice(lens, weights=weights, rng_seed=3), set(lens)


def run(case, obs):
    kind = case['kind']
    if kind == 'unknown':
        return run_unknown(obs)
    if kind == 'used_up':
        return run_used_up(case['n'], obs)
    if kind == 'changes':
        return run_changes(case, obs)
    if kind == 'static':
        v = specs.dec(case['v'])
        em = Static(v)
        check_same(em.num_unique_values, 1, f'Static({v!r}).num_unique_values')
        check_same(em.emits_unique_values, False, 'Static.emits_unique_values')
        for new in ([v, 'other'], None, v, 0, '', None, [], False, [v], v,
                    {'a': None}, (), 0.0, None):
            em.value = new
            check_same(em.num_unique_values, 1, 'Static after setting value')
            check_same(list(em.items), [new], 'Static items')
            check_same(em(3), [new] * 3, 'Static values')
            check(em() is new, 'value of Static')
            obs.ev('static_sets')
        obs.ev('finite')
        return
    if kind in ('word', 'text'):
        return run_text(case, obs)
    items = get_items(case)
    obs.ev('clocks', 'clock' in case)
    try:
        hash(tuple(items))
    except TypeError:
        obs.ev('unhashable')
    want = len(distinct(items))
    if kind == 'seq':
        em = Sequential(items)
    else:
        em = Choice(items, weights=case.get('weights'), rng_seed=11,
                    replace=kind != 'none', replace_only_after_call=kind == 'roac')
    obs.state(kind, want, len(items))
    check_same(em.num_unique_values, want, 'num_unique_values')
    if kind == 'seq':
        # As many items, but others.
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for new in ([0] * len(items), list(range(len(items))),
                        list(items)):
                em.iterator_factory = new.__iter__
                check_same(em.num_unique_values, len(distinct(new)),
                           f'num_unique_values of {short(new)}')
                obs.ev('replaced')
    if kind != 'none':
        check_same(em.emits_unique_values, False, 'emits_unique_values')
        if kind == 'seq':
            em(3)
        else:
            check_same(em.num_unique_items, len(items), 'num_unique_items')
            if kind == 'roac' and len(items) < 100:
                # All items, the ones without weight too.
                check_same(len(distinct(em(len(items)))), want,
                           'number of different values in a whole batch')
                obs.ev('whole_batches')
                obs.ev('zero_weights', 0 in (case.get('weights') or ()))
            em(min(2, len(items)))
            em()
            check_same(em.num_unique_items, len(items), 'num_unique_items')
        check_same(em.num_unique_values, want, 'num_unique_values after calls')
        check_same(em.emits_unique_values, False, 'emits_unique_values')
        obs.ev('finite')
        obs.nontrivial()
        return
    # Without replacement. Every report is a prediction about what is
    # emitted from then on; collect them, drain it, then check each.
    reports, output = [], []
    chunks = iter(case['chunks'] + [1 + len(items) // 20] * len(items))
    while True:
        reports.append((len(output), em.num_unique_values,
                        em.num_unique_items, em.emits_unique_values))
        if len(output) == len(items):
            break
        n = min(next(chunks, 1), len(items) - len(output))
        output += em(n) if n != 1 else [em()]
    raises(ValueError, em)
    recheck(em, items, case, obs)
    for pos, uv, ui, emits in reports:
        rest = output[pos:]
        check_same(ui, len(rest), f'num_unique_items after {pos} values')
        check_same(uv, len(distinct(rest)), f'num_unique_values after {pos} '
                                            f'values (then: {short(rest)})')
        check_same(emits, len(distinct(rest)) == len(rest),
                   f'emits_unique_values after {pos} values (then: '
                   f'{short(rest)})')
    obs.ev('drained')
    obs.nontrivial()


def recheck(em, items, case, obs):
    """Reports at the same position, each time in another order."""
    n = len(items)
    pos = sum(case['chunks']) % (n + 1)
    reports, rests = [], []
    for i in range(4):
        if i == 2 and case.get('weights'):
            em.weights = case['weights'][::-1]
        elif i == 3:
            em.replace = True
            em.replace = False
        else:
            em.seed(i)
        em(pos)
        obs.ev('large', 'large' in case)
        reports.append((em.num_unique_values, em.num_unique_items,
                        em.emits_unique_values))
        rest = em(n - pos)
        want = len(distinct(rest))
        check_same(reports[-1], (want, len(rest), want == len(rest)),
                   f'change {i}, {pos} of {n} values emitted, then '
                   f'{short(rest)}: reported unique values, unique items and '
                   'whether all are unique')
        obs.ev('rechecks')


def run_used_up(n, obs):
    """Words and texts whose characters and words are not replaced."""
    items = 'abcdefghij'[:n]
    for lens in ([2], [0], [0, 2], [1, 3, 0], [2, 2]):
        for numbers in (Static(lens[0]), Sequential(lens), Choice(lens)):
            many = set(numbers.items)
            char = Choice(items, replace=False, rng_seed=1)
            word = Choice(items, replace=False, rng_seed=2)
            sep = Choice(items, replace=False, rng_seed=3)
            ems = [(Word(numbers, char), char, None),
                   (Text(numbers, word), word, None),
                   (Text(numbers, Static('w'), sep), None, sep),
                   (Text(numbers, word, sep), word, sep)]
            for em, words, seps in ems:
                for left in [*range(n, -1, -1), n]:
                    for part in (words, seps):
                        if part is None:
                            continue
                        if left == n:
                            part.reset()
                        elif part.num_unique_items > left:
                            part()
                    w = left if words else 1
                    s = left if seps else 1
                    want = (sum(w ** k for k in many) if type(em) is Word else
                            sum(w ** k * s ** max(k - 1, 0) for k in many))
                    check_same(em.num_unique_values, want, (
                        f'{type(em).__name__} of {many}, {left} of {n} '
                        'characters, words or separators are left'))
                    check_same(em.emits_unique_values, False, 'unique')
                    obs.ev('used_up')
    obs.nontrivial()


def run_changes(case, obs):
    """Words and texts whose child emitters are changed or replaced."""
    n, letters, seps = case['first']
    length = Static(n)
    alpha, sep = Choice(letters, rng_seed=1), Choice(seps, rng_seed=2)
    word = Word(length, alpha, rng_seed=3)
    text = Text(Static(2), word, sep, rng_seed=4)

    def agree(what):
        a = len(set(letters)) ** n
        check_same(word.num_unique_values, a, f'word, {what}')
        check_same(text.num_unique_values, a * a * len(set(seps)),
                   f'text of such words, {what}')
        check(len(set(word(20))) <= a, 'more values than reported')
        obs.ev('changed_children')
    agree('at first')
    for op, arg in case['ops']:
        if op == 'value':
            length.value = n = arg
        elif op == 'length':
            n = arg
            length = word.emitters['length'] = Static(n)
        elif op == 'alphabet':
            letters = arg
            word.emitters['alphabet'] = Choice(letters)
        elif op == 'sep':
            seps = arg
            text.emitters['sep'] = Sequential(seps)
        elif op == 'reset':
            text.reset()
        elif op == 'unknown':
            text.emitters['sep'] = Iterative(lambda: iter(' '))
            check_same(text.num_unique_values, None, 'unknown separators')
            text.emitters['sep'] = Sequential(seps)
        agree(f'after {op} {arg!r}')
    obs.nontrivial()


def run_text(case, obs):
    len_em, lens = lengths(case)
    if case['kind'] == 'word':
        em = Word(len_em, Choice(case['alpha'], rng_seed=5), rng_seed=9)
        letters = sorted(set(case['alpha']))
        want = sum(len(letters) ** n for n in lens)
        space = {''.join(p) for n in lens if len(letters) ** n <= 64
                 for p in itertools.product(letters, repeat=n)}
        obs.ev('word_spaces')
    else:
        words, seps = sorted(set(case['words'])), sorted(set(case['seps']))
        em = Text(len_em, Choice(case['words'], rng_seed=5),
                  Choice(case['seps'], rng_seed=6), rng_seed=9)
        want = sum(len(words) ** n * len(seps) ** max(n - 1, 0) for n in lens)
        space = set()
        for n in lens:
            if len(words) ** n * len(seps) ** max(n - 1, 0) > 64:
                continue
            for ws in itertools.product(words, repeat=n):
                for ss in itertools.product(seps, repeat=max(n - 1, 0)):
                    parts = [ws[0]] if n else []
                    for s, w in zip(ss, ws[1:]):
                        parts += [s, w]
                    space.add(''.join(parts))
        obs.ev('text_spaces')
    check_same(em.num_unique_values, want, f'{case["kind"]}.num_unique_values')
    check_same(em.emits_unique_values, False, 'emits_unique_values')
    # No more than that many are ever emitted; in a small space where
    # everything is likely enough, exactly that many are.
    seen = set(em(60)) | {em() for _ in range(10)}
    if case['cover'] and want <= 24:
        seen |= set(em(6000))
        check(seen == space, lambda: (
            f'{want} values possible, but {len(seen)} were seen in 6000: '
            f'{short(sorted(seen ^ space))} differ'))
        check_same(len(seen), want, 'number of values seen')
        obs.ev('covered_spaces')
    check(len(seen) <= want, lambda: f'{len(seen)} distinct values were '
                                     f'emitted, but {want} were reported')
    check_same(em.num_unique_values, want, 'num_unique_values after calls')
    em.reset()
    em.seed(4)
    check_same(em.num_unique_values, want, 'num_unique_values after reset')
    obs.state(case['kind'], sorted(lens), want)
    if len(seen) > 1:
        obs.nontrivial()


def run_unknown(obs):
    for _ in range(60):
        it = Iterative(lambda: iter([1, 2, 3]))
        for em in (it, WrapOne(Static(1), str), WrapOne(Sequential('ab'), str),
                   WrapMany({'a': Choice([1, 2], replace=False)},
                            lambda a: a),
                   Word(it, Choice('ab')), Word(Static(2), it),
                   Text(it, Choice('ab')), Text(Static(2), it),
                   Text(Static(2), Choice('ab'), Iterative(lambda: iter(' ')))):
            if isinstance(em, Word) and em.length_emitter is it:
                check(em.num_unique_values is None, 'unknown lengths')
            check(em.num_unique_values is None,
                  lambda: f'{type(em).__name__} with a source that has '
                          'unknowable values reports a number')
            check_same(em.emits_unique_values, False, 'emits_unique_values')
            obs.ev('unknowable')
    obs.nontrivial()
