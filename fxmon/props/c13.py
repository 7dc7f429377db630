"""C13: texts are made of exactly the words and separators emitted."""
import re

from fauxdoc.emitters import Choice, Sequential, Static, Text
from fxmon import specs
from fxmon.core import check, check_same, short
from fxmon.recorders import KINDS, Bare, Recorder

RULE = ('random scripts of word counts and histories of calls, with emitters '
        'that log what they hand out (each word and separator is unique); texts '
        'are parsed back and matched with the logs; also word emitters that '
        'replace only after each call, whose words must come in rounds; '
        'non-trivial: at least two words')
REQUIRED = {'texts': 10000, 'words': 20000, 'empty_texts': 500,
            'separators': 10000, 'rounds': 1000, 'round_texts': 1000, 'default_separator': 300,
            'reordered': 300, 'plain_texts': 300, 'swaps': 1000,
            'static_changes': 300, 'word_emitter_changes': 300,
            'huge_batches': 4}
QUICK = 25000
THOROUGH = 750000
TOKEN = re.compile(r'<\d+>|\[\d+\]')


def directed():
    cases = []
    for nums in ([0], [1], [2], [0, 0, 3], [5], [1, 2, 3], [3, 0], [0, 4], [40],
                 [1, 0, 1], [0, 1, 0, 2]):
        for ops in ([None] * 5, [0], [1], [5], [3, None, 0, 4, 1], [200, None],
                    [2, 'reset', 3, 'reset', None], [2, 'seed', 3]):
            for kind in KINDS:
                for sep in (True, False):
                    cases.append({'nums': nums, 'kind': kind, 'ops': ops,
                                  'sep': sep})
                    cases.append({
                        'nums': nums, 'kind': kind, 'sep': sep, 'ops': [
                            o for op in ops for o in (
                                op, 'swap_sep', op, 'swap_word', op,
                                'swap_nums')] + ops})
                    for rounds in (1, 2, 3, 4, 7, 10):
                        cases.append({'nums': nums, 'kind': kind, 'ops': ops,
                                      'sep': sep, 'rounds': rounds})
    for n in (100, 255, 256, 257, 500, 513, 1000, 1025, 2000, 5000):
        for nums in ([n], [2, n, 1], [n, 0, n + 1]):
            for ops in ([None] * 3, [2, None], [3]):
                for sep in (True, False):
                    cases.append({'nums': nums, 'kind': 'recorder',
                                  'ops': ops, 'sep': sep})
                cases.append({'vocab': 9, 'weights': None, 'ops': ops,
                              'nums': nums, 'seed': n})
    for n in (256, 1000, 5000, 70000):
        for seps in (['-'], ['+' * n, ''], None):
            cases.append({'plain': ['a', 'b' * n, ''], 'seps': seps,
                          'nums': [2, 0, 3], 'ops': [None, 3, None, 1, 7]})
    for ops in ([5000, None], [None] * 3000, [1001, 127], [2047, 4099],
                [10007, None], [65537]):
        cases.append({'nums': [2, 0, 3], 'kind': 'recorder', 'ops': ops,
                      'sep': True})
    cases += [{'huge': n} for n in (200001, 500003)]
    cases.append({'nums': [20], 'vocab': 2, 'weights': None, 'seed': 1,
                  'ops': [400, None]})
    for words in (['a', '', 'b'], ['', 'x'], [''], ['a b', ' ', '']):
        for seps in (['-', '+'], [''], [' '], ['', '--'], None):
            for nums in ([2], [3, 1], [0, 4]):
                cases.append({'plain': words, 'seps': seps, 'nums': nums,
                              'ops': [None, 3, None, 1, 7]})
    for n in (1, 2, 3, 5):
        for weights in (None, list(range(1, n + 1))):
            for ops in ([None] * 4, [4], [1, 7, None], [30], [0, 2]):
                cases.append({'vocab': n, 'weights': weights, 'ops': ops,
                              'nums': [3, 0, 1, n, 2 * n + 1], 'seed': n})
    for seps in (None, [' '], ['+']):
        for values in (['-', '', ', '], ['x', ' ', 'y']):
            cases.append({'static': values, 'seps': seps})
    # Word emitters that start, or stop, replacing only after each call.
    for first in ROUND_STEPS:
        for second in ROUND_STEPS:
            for third in ROUND_STEPS[:3]:
                for how in ('swap', 'flag'):
                    cases.append({'changing': [first, second, third],
                                  'how': how})
    for n in (7, 8, 9):
        for ops in ([None] * 8, [1] * 8, [None, 1] * 4, [2] * 8):
            nums = [n] if ops[0] != 2 else [n - 4, 4]
            for seed in range(5):
                cases.append({'vocab': n, 'weights': None, 'ops': ops,
                              'nums': nums, 'seed': seed})
    return cases


ROUND_STEPS = [[3, True], [3, False], [2, True], [1, True], [5, True],
               [4, False], [40, True], [300, True]]


class Rounds(Recorder):
    """A word emitter of a user, which replaces only after each call."""
    replace_only_after_call = True

    def emit_many(self, number):
        check(number <= self.uv, lambda: (
            f'the word emitter has {self.uv} words for each call, and was '
            f'asked for {number}'))
        return super().emit_many(number)

    def reset(self):
        # It goes on with other words.
        self.resets += 1


def gen(rng):
    case = {'nums': [rng.choice([0, 1, 1, 2, 3, 4, rng.randint(0, 12)])
                     for _ in range(rng.randint(1, 7))],
            'ops': [rng.choice([None, None, 0, 1, 2, 3, 7, 20, 'reset', 'seed',
                                'swap_nums', 'swap_word', 'swap_sep'])
                    for _ in range(rng.randint(1, 10))]}
    if rng.random() < 0.02:
        return {'static': [rng.choice(['', ' ', '-', ', ', 'é'])
                           for _ in range(rng.randint(1, 4))],
                'seps': rng.choice([None, [rng.choice([' ', '', '-'])]])}
    if rng.random() < 0.1:
        case['plain'] = [rng.choice(['', '', 'a', 'bc', ' ', '-', 'é\n'])
                         for _ in range(rng.randint(1, 5))]
        case['seps'] = rng.choice([None, [
            rng.choice(['', ' ', '-', ', ', 'a'])
            for _ in range(rng.randint(1, 4))]])
        case['ops'] = [n for n in case['ops'] if n is None or n in range(99)]
    elif rng.random() < 0.3:
        n = case['vocab'] = rng.randint(1, 9)
        case['weights'] = rng.choice([None, specs.gen_weights(rng, n)])
        case['ops'] = [n for n in case['ops']
                       if not str(n).startswith('swap')]
        case['seed'] = rng.choice([None, rng.randint(0, 99)])
    else:
        case['kind'] = rng.choice(sorted(KINDS))
        case['sep'] = rng.random() < 0.7
        if rng.random() < 0.3:
            case['rounds'] = rng.randint(1, 9)
    return case


def run_static(case, obs):
    """Static parts, whose values change."""
    seps = case['seps']
    em = Text(Static(3), Static('a'), Static(seps[0]) if seps else None)
    sep = seps[0] if seps else ' '
    for i, value in enumerate(case['static']):
        for word, num in (('a', 3), ('bc', 1), ('', 4), ('d', 0)):
            em.word_emitter.value = word
            em.numwords_emitter.value = num
            want = sep.join([word] * num)
            check_same([em(), *em(2)], [want] * 3, (
                f'texts of {num} times {word!r}, separated by {sep!r} '
                f'(change {i})'))
            obs.ev('texts', 3)
        em.sep_emitter.value = sep = value
        obs.ev('static_changes')
    obs.nontrivial()


def parse(text, has_sep, what):
    """Splits a text into its word tokens and separator tokens."""
    check(type(text) is str, lambda: f'not a str: {short(text)}')
    if not has_sep:
        words = text.split(' ') if text else []
        return words, [' '] * max(len(words) - 1, 0)
    tokens = TOKEN.findall(text)
    check(''.join(tokens) == text,
          lambda: f'{what}: neither words nor separators: {short(text)}')
    check(len(tokens) == 0 or len(tokens) % 2 == 1
          and all(t[0] == '<[['[i % 2] for i, t in enumerate(tokens)),
          lambda: f'{what}: words and separators do not alternate: {short(text)}')
    return tokens[::2], tokens[1::2]


def run_plain(case, obs):
    """Words and separators that may be empty, or look like others."""
    nums, word = Recorder(case['nums']), Recorder(case['plain'])
    sep = Recorder(case['seps']) if case['seps'] else None
    em = Text(nums, word, sep)
    for r in (nums, word, sep):
        r and r.take()
    for n in case['ops']:
        got = em() if n is None else em(n)
        words, seps = word.take(), sep.take() if sep else None
        want = []
        for count in nums.take():
            text = ''
            for i in range(count):
                check(words, 'more words than were emitted')
                if i:
                    text += seps.pop(0) if sep else ' '
                text += words.pop(0)
            want.append(text)
        check(not words and not seps, lambda: (
            f'call {n}: not used: {short(words)}, {short(seps)}'))
        check_same([got] if n is None else got, want, f'call {n}: texts')
        obs.ev('texts', len(want))
        obs.ev('plain_texts', len(want))
        if sum(map(len, want)):
            obs.nontrivial()
    obs.state(case['plain'], case['seps'], case['nums'][:3])


def run(case, obs):
    if 'plain' in case:
        return run_plain(case, obs)
    if 'static' in case:
        return run_static(case, obs)
    if 'vocab' in case:
        return run_rounds(case, obs)
    if 'huge' in case:
        return run_huge(case['huge'], obs)
    if 'changing' in case:
        return run_changing(case, obs)
    kind = KINDS[case['kind']]
    nums = kind(case['nums'])
    word = kind(lambda i: f'<{i}>')
    if case.get('rounds'):
        word = Rounds(lambda i: f'<{i}>', case['rounds'])
    sep = kind(lambda i: f'[{i}]') if case['sep'] else None
    em = Text(nums, word, sep, rng_seed=3)
    check(em.numwords_emitter is nums and em.word_emitter is word
          and (sep is None or em.sep_emitter is sep), 'emitter attributes')
    logs = [nums, word] + ([sep] if sep else [])
    check(not [v for log in logs for v in log.take() if v != 'RESET'],
          'values were used up before any text was emitted')
    total = swaps = 0
    for n in case['ops']:
        if str(n).startswith('swap'):
            # Other emitters in its map of emitters are used from now on.
            swaps += 1
            old = {'swap_nums': nums, 'swap_word': word,
                   'swap_sep': em.sep_emitter}[n]
            if n == 'swap_nums':
                nums = new = kind(case['nums'][::-1])
            elif n == 'swap_word':
                word = new = kind(lambda i, n=swaps: f'<{n}000{i}>')
            else:
                sep = new = kind(lambda i, n=swaps: f'[{n}000{i}]')
            for name, child in list(em.emitters.items()):
                if child is old:
                    em.emitters[name] = new
            check(em.numwords_emitter is nums and em.word_emitter is word
                  and sep in (None, em.sep_emitter),
                  f'emitter attributes after {n}')
            logs = [nums, word] + ([sep] if sep else [])
            obs.ev('swaps')
            continue
        if n in ('reset', 'seed'):
            em.reset() if n == 'reset' else em.seed(77)
            if n == 'reset' and kind is not Bare:
                check(all(log.pos == 0 or isinstance(log, Rounds)
                          for log in logs),
                      'reset did not reach the emitters')
            if n == 'seed' and case['kind'] == 'seeded':
                check(all(log.rng_seed == 77 for log in logs
                          if not isinstance(log, Rounds)),
                      'seed did not reach the emitters')
            for log in logs:
                log.take()
            continue
        got = em() if n is None else em(n)
        what = f'call {n}'
        check(n is None or type(got) is list, 'not a list')
        texts = [got] if n is None else got
        counts, words = nums.take(), word.take()
        seps = sep.take() if sep else None
        check_same(len(counts), 1 if n is None else n,
                   f'{what}: number of word counts used')
        check(len(texts) == len(counts), lambda: (
            f'{what}: {len(texts)} texts for word counts {counts}: '
            f'{short(texts)}'))
        all_words, all_seps = [], []
        for text, count in zip(texts, counts):
            ws, ss = parse(text, bool(sep), what)
            check(len(ws) == count, lambda: (
                f'{what}: a text of {len(ws)} words instead of {count}: '
                f'{short(text)}'))
            all_words += ws
            all_seps += ss
            obs.ev('texts')
            if not count:
                obs.ev('empty_texts')
        check(all_words == words, lambda: (
            f'{what}: words used {short(words)}, words in texts '
            f'{short(all_words)}'))
        obs.ev('words', len(words))
        if sep:
            check(all_seps == seps, lambda: (
                f'{what}: separators used {short(seps)}, separators in '
                f'texts {short(all_seps)}'))
            obs.ev('separators', len(seps))
        else:
            obs.ev('default_separator')
        total += len(words)
        if case.get('rounds'):
            obs.ev('round_texts', len(texts))
    obs.state(case['nums'][:4], case['ops'][:3], case['kind'])
    if total > 1:
        obs.nontrivial()


def run_rounds(case, obs):
    """Each word is used again only once all others have been."""
    vocab = [f'<{i}>' for i in range(case['vocab'])]
    nums = KINDS['recorder'](case['nums'])
    seps = KINDS['recorder'](lambda i: f'[{i}]')
    em = Text(nums, Choice(vocab, weights=case['weights'],
                           replace_only_after_call=True), seps,
              rng_seed=case['seed'])
    total = 0
    fresh = []
    for n in case['ops']:
        if n in ('reset', 'seed'):
            em.reset() if n == 'reset' else em.seed(7)
            nums.take()
            fresh = []
            continue
        nums.take()
        got = em() if n is None else em(n)
        texts = [got] if n is None else got
        counts = nums.take()
        check_same(len(texts), len(counts), f'call {n}: number of texts')
        flat = []
        for text, count in zip(texts, counts):
            ws, _ = parse(text, True, f'call {n}')
            check_same(len(ws), count, f'call {n}: words in {short(text)}')
            flat += ws
        check(set(flat) <= set(vocab), 'not in the vocabulary')
        size = len(vocab)
        # Calls that need a full round each don't all give the same words.
        # (Longer ones start again from the seed, as documented.)
        if len(flat) == size >= 7 and not case['weights']:
            fresh.append(tuple(flat))
        elif len(flat) > size:
            fresh = []
        if len(fresh) > 2:
            check(len(set(fresh)) > 1, lambda: (
                f'{len(fresh)} calls gave the same words in the same order: '
                f'{short(flat)}'))
            obs.ev('reordered')
        for i in range(0, len(flat), size):
            part = flat[i:i + size]
            check(len(set(part)) == len(part), lambda: (
                f'call {n}: a word is used again before all {size} words '
                f'were used: {short(part)}'))
            obs.ev('rounds')
        obs.ev('texts', len(texts))
        obs.ev('words', len(flat))
        total += len(flat)
    if total > 1:
        obs.nontrivial()


def run_changing(case, obs):
    """Rounds of words follow the word emitter as it is now."""
    em = None
    for size, rounds in case['changing']:
        vocab = [f'<{i}.{size}>' for i in range(size)]
        if em is None or case['how'] == 'swap':
            word = Choice(vocab, replace_only_after_call=rounds, rng_seed=1)
            if em is None:
                em = Text(Sequential([2, 0, 1]), word, Static('|'), rng_seed=1)
            em.emitters['word'] = word
        else:
            word.replace_only_after_call = rounds
            vocab = list(word.items)
        size = len(vocab)
        for call in (1, None, 4, None, None, 3 * size, 0, 3):
            texts = [em()] if call is None else em(call)
            check_same(len(texts), 1 if call is None else call, 'texts')
            flat = [w for text in texts if text for w in text.split('|')]
            check(set(flat) <= set(vocab), lambda: (
                f'words of another word emitter: {short(flat)}'))
            for i in range(0, len(flat) if rounds else 0, size):
                part = flat[i:i + size]
                check(len(set(part)) == len(part), lambda: (
                    f'a word is used again before all {size} words were '
                    f'used: {short(part)}'))
                obs.ev('rounds')
            obs.ev('texts', len(texts))
            obs.ev('words', len(flat))
        em.reset()
        obs.ev('word_emitter_changes')
    obs.nontrivial()


def run_huge(n, obs):
    """Batches with more than a million words."""
    words = [f'w{i}' for i in range(97)]
    for nums, seps in (([3], '-+'), ([5, 0, 1, 2], ' ')):
        em = Text(Sequential(nums), Sequential(words), Sequential(seps))
        w = s = number = 0
        for call in (n, 2, None, n - 2):
            got = [em()] if call is None else em(call)
            check_same(len(got), 1 if call is None else call, 'texts')
            for i, text in enumerate(got):
                want = ''
                for j in range(nums[number % len(nums)]):
                    if j:
                        want += seps[s % len(seps)]
                        s += 1
                    want += words[w % 97]
                    w += 1
                if text != want:
                    check(False, f'text {i} of {call} is {text!r}, not '
                                 f'{want!r}')
                number += 1
        obs.ev('texts', number)
        obs.ev('words', w)
        obs.ev('huge_batches')
    obs.nontrivial()
