"""C12: words are made of exactly the characters their alphabet emits."""
import re

from fauxdoc.emitters import Choice, Sequential, Static, Word
from fxmon import specs
from fxmon.core import check, check_same, short
from fxmon.recorders import KINDS, Bare

RULE = ('random scripts of lengths and histories of calls, with length and '
        'alphabet emitters that log what they hand out (each character token '
        'is unique); words are parsed back into tokens and matched with the '
        'logs; non-trivial: at least two words')
REQUIRED = {'words': 10000, 'tokens': 20000, 'empty_words': 500,
            'batches': 2000, 'resets': 500, 'plain_words': 1000,
            'swaps': 1000, 'huge_batches': 4}
QUICK = 50000
THOROUGH = 750000
CHARS = ['\u1e9e', '\u0130', '\u01c5', '\u03a3', '\ufb01', '\ufb01X', '\u0130', 'ß', 'SS', ' ', '\n', '\t', '', 'a', 'A', 'é', 'ab', ' x', 'y ', '<1>', '.',
         '\u200b', '\x00', '\u3000', '\U0001f600']
TOKEN = re.compile(r'<\d+>')


def directed():
    cases = []
    for lens in ([0], [1], [0, 0, 3], [5], [1, 2, 3], [3, 0], [0, 4], [40]):
        for ops in ([None] * 5, [0], [1], [5], [3, None, 0, 4, 1], [200, None],
                    [2, 'reset', 3, 'reset', None], [2, 'seed', 3]):
            for kind in KINDS:
                cases.append({'lens': lens, 'kind': kind, 'ops': ops})
                cases.append({'lens': lens, 'kind': kind, 'ops': [
                    o for op in ops for o in (op, 'swap_alphabet', op,
                                              'swap_length')] + ops})
    for n in (100, 255, 256, 1000, 4097, 32768, 65535, 65536, 70000):
        cases.append({'lens': [n, 2], 'kind': 'recorder',
                      'ops': [None, None, 2, 3]})
        cases.append({'lens': [n, 3], 'kind': 'recorder',
                      'chars': ['a', 'b', '\u1e9e'], 'ops': [None, 3]})
    cases.append({'lens': [2, 0, 3], 'kind': 'recorder', 'ops': [None] * 5000})
    cases += [{'huge': n} for n in (100001, 400003)]
    for n in (5000, 66000):
        cases.append({'lens': [2, 0, 3], 'kind': 'recorder', 'ops': [n, 2]})
    for chars in (['\u1e9e'], ['\u0130', 'I'], ['\u01c5', '\u03a3'],
                  [' '], ['a', ' ', '\n'], ['', 'x', ''], ['ab', 'c', ' d '],
                  ['A', 'a', 'é', 'e\u0301', 'ß'], ['\x00', '\t', '.'],
                  ['x' * 50, ''], ['\ud800', '\U0001f600', '\u200b']):
        for lens in ([3], [1, 0, 4, 2], [30]):
            for kind in KINDS:
                cases.append({'lens': lens, 'kind': kind, 'chars': chars,
                              'ops': [None, 3, None, 0, 7, 1]})
    return cases


def gen(rng):
    if rng.random() < 0.25:
        spec = specs.gen_word(rng)
        spec['seed'] = specs.gen_seed(rng)
        return {'real': spec, 'ops': [rng.choice([None, 0, 1, 2, 3, 9])
                                      for _ in range(rng.randint(1, 8))]}
    chars = {}
    if rng.random() < 0.3:
        chars = {'chars': [rng.choice(CHARS) for _ in range(
            rng.randint(1, 8))]}
    return {**chars,
            'lens': [rng.choice([0, 1, 1, 2, 3, 4, rng.randint(0, 12)])
                     for _ in range(rng.randint(1, 7))],
            'kind': rng.choice(sorted(KINDS)),
            'ops': [rng.choice([None, None, 0, 1, 2, 3, 7, 20, 'reset', 'seed',
                                'swap_length', 'swap_alphabet'])
                    for _ in range(rng.randint(1, 10))]}


def run(case, obs):
    if 'real' in case:
        return run_real(case, obs)
    if 'huge' in case:
        return run_huge(case['huge'], obs)
    kind = KINDS[case['kind']]
    lens = kind(case['lens'])
    chars = case.get('chars')
    alpha = kind(chars or (lambda i: f'<{i}>'))
    em = Word(lens, alpha, rng_seed=3)
    check(em.length_emitter is lens and em.alphabet_emitter is alpha,
          'length_emitter / alphabet_emitter')
    check(not [v for v in lens.take() + alpha.take() if v != 'RESET'],
          'values were used up before any word was emitted')
    words = swaps = 0
    for n in case['ops']:
        if n in ('swap_length', 'swap_alphabet'):
            # Other emitters in its map of emitters are used from now on.
            swaps += 1
            old = lens if n == 'swap_length' else alpha
            if old is lens:
                lens = new = kind(case['lens'][::-1])
            else:
                alpha = new = kind(chars[::-1] if chars else (
                    lambda i, n=swaps: f'<{n}000{i}>'))
            for name, child in list(em.emitters.items()):
                if child is old:
                    em.emitters[name] = new
            check(em.length_emitter is lens and em.alphabet_emitter is alpha,
                  f'emitter attributes after {n}')
            obs.ev('swaps')
            continue
        if n in ('reset', 'seed'):
            if n == 'reset':
                em.reset()
                obs.ev('resets')
                if kind is not Bare:
                    check(lens.pos == 0 and alpha.pos == 0,
                          'reset did not reach the emitters')
            else:
                em.seed(77)
                if case['kind'] == 'seeded':
                    check(lens.rng_seed == 77 and alpha.rng_seed == 77,
                          'seed did not reach the emitters')
            lens.take()
            alpha.take()
            continue
        got = em() if n is None else em(n)
        if n is not None:
            check(type(got) is list, 'not a list')
            obs.ev('batches')
        got = [got] if n is None else got
        used_lens, used_chars = lens.take(), alpha.take()
        check_same(len(used_lens), 1 if n is None else n,
                   f'call {n}: number of lengths used')
        check_same(len(got), len(used_lens), f'call {n}: number of words')
        pos = 0
        for i, (word, length) in enumerate(zip(got, used_lens)):
            check(type(word) is str, lambda: f'not a str: {short(word)}')
            if chars:
                check(word == ''.join(used_chars[pos:pos + length]), lambda: (
                    f'call {n}, word {i} is {word!r}, but its length is '
                    f'{length} and the next characters were '
                    f'{short(used_chars[pos:pos + length])}'))
                pos += length
                words += 1
                obs.ev('plain_words')
                continue
            tokens = TOKEN.findall(word)
            check(''.join(tokens) == word, lambda: f'not from the alphabet: '
                                                   f'{short(word)}')
            check(tokens == used_chars[pos:pos + length], lambda: (
                f'call {n}, word {i} is {short(tokens)}, but its length is '
                f'{length} and the next characters were '
                f'{short(used_chars[pos:pos + length])}'))
            pos += length
            words += 1
            obs.ev('tokens', length)
            if not length:
                obs.ev('empty_words')
        check_same(pos, len(used_chars), f'call {n}: number of characters '
                                         'used up')
        obs.ev('words', len(got))
    obs.state(case['lens'][:4], case['ops'][:3], case['kind'])
    if words > 1:
        obs.nontrivial()


def run_real(case, obs):
    """With built-in emitters: sequences are known, choices are sets."""
    spec = case['real']
    em = specs.build(spec)
    ok = specs.domain(spec)
    out = []
    for n in case['ops']:
        got = em() if n is None else em(n)
        if n is not None:
            check_same(len(got), n, 'number of words')
            obs.ev('batches')
        out += [got] if n is None else got
    for w in out:
        check(ok(w), lambda: f'{short(w)} is outside of the domain')
    if spec['len']['k'] in ('seq', 'static'):
        lens = [spec['len'].get('v')] if spec['len']['k'] == 'static' \
            else spec['len']['items']
        check_same([len(w) for w in out],
                   [lens[i % len(lens)] for i in range(len(out))],
                   'lengths of words')
    if spec['alpha']['k'] in ('seq', 'iter'):
        chars = specs.dec(spec['alpha']['items'])
        text = ''.join(out)
        check_same(text, ''.join(chars[i % len(chars)]
                                 for i in range(len(text))),
                   'characters of all words in order')
    obs.ev('words', len(out))
    obs.ev('tokens', sum(map(len, out)))
    if len(out) > 1:
        obs.nontrivial()


def run_huge(n, obs):
    """Batches with millions of characters."""
    alphabet = [chr(0x4e00 + i) for i in range(997)]
    for lens in ([10], [7, 0, 13, 1]):
        em = Word(Sequential(lens), Sequential(alphabet))
        pos = number = 0
        for call in (n, 2, None, n - 2):
            got = [em()] if call is None else em(call)
            check_same(len(got), 1 if call is None else call, 'words')
            for i, w in enumerate(got):
                k = lens[number % len(lens)]
                a = pos % 997
                want = ''.join(alphabet[a:a + k])
                if len(want) < k:
                    want += ''.join(alphabet[:k - len(want)])
                if w != want:
                    check(False, f'word {i} of {call} is {w!r}, not {want!r}')
                pos += k
                number += 1
        obs.ev('words', number)
        obs.ev('tokens', pos)
        obs.ev('huge_batches')
    obs.nontrivial()
