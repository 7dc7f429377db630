"""C25: make_alphabet gives exactly the characters of its ranges."""
import copy

from fauxdoc.emitters import make_alphabet
from fxmon.core import check, check_same, short

RULE = ('random lists of Unicode ranges (single characters, overlapping, '
        'backwards, whole planes), compared with a list made by counting code '
        'points one by one; non-trivial: at least two characters')
REQUIRED = {'alphabets': 8000, 'characters': 200000, 'single': 3000,
            'backwards': 1000, 'repeated': 1000, 'default': 1000}
QUICK = 20000
THOROUGH = 750000
DEFAULT = [(0x21, 0x21), (0x23, 0x26), (0x28, 0x7E), (0xA1, 0xAC),
           (0xAE, 0xFF)]
LAST = 0x10FFFF


def directed():
    cases = []
    for a in (0, 1, 0x20, 0x41, 0x7F, 0xFF, 0x100, 0xFFFF, 0x10000, LAST - 3):
        for n in (-2, -1, 0, 1, 2, 3):
            if a + n >= 0:
                cases.append({'ranges': [[a, a + n]], 'shape': n % 4})
    cases.append({'ranges': [[0, LAST]], 'shape': 0})
    for n in (10, 63, 64, 65, 100, 128, 200, 256, 257, 300, 512, 1000, 1025,
              3000):
        cases.append({'ranges': [[65 + i % 40, 65 + i % 40 + i % 3 - 1]
                                 for i in range(n)], 'shape': n % 4})
    for n in (255, 256, 257, 1000, 5000, 32768, 65536, 70000):
        for a in (0, 33, 0x400, 0x10000):
            cases.append({'ranges': [[a, a + n], [65, 66]], 'shape': n % 4})
    cases.append({'ranges': [[65, 90], [97, 122], [48, 57], [65, 70]],
                  'shape': 1})
    return cases


def gen(rng):
    ranges = []
    for _ in range(rng.randint(1, 6)):
        a = rng.choice([rng.randint(0, 300), rng.randint(0, LAST),
                        rng.choice([0x41, 0x61, 0x30, 0x3B1, 0x4E00])])
        b = a + rng.choice([0, 0, 1, 2, 5, 25, 60, -1, -5])
        ranges.append([a, min(max(b, 0), LAST)])
    if rng.random() < 0.3:
        ranges.append(list(rng.choice(ranges)))
    return {'ranges': ranges, 'shape': rng.randint(0, 3)}


def run(case, obs):
    ranges = [tuple(r) for r in case['ranges']]
    if case['shape'] == 1:
        ranges = tuple(ranges)
    elif case['shape'] == 2:
        ranges = [list(r) for r in ranges]
    before = copy.deepcopy(ranges)
    want = []
    for a, b in case['ranges']:
        while a <= b:
            want.append(chr(a))
            a += 1
    got = make_alphabet(ranges) if case['shape'] != 3 \
        else make_alphabet(uchar_ranges=ranges)
    check_same(got, want, f'make_alphabet({short(ranges)})')
    check_same(ranges, before, 'the ranges that were given')
    # The caller may change the result.
    got.clear()
    got.append('x')
    check_same(make_alphabet(ranges), want, 'second call')
    obs.ev('alphabets')
    obs.ev('characters', len(want))
    obs.ev('single', sum(1 for a, b in case['ranges'] if a == b))
    obs.ev('backwards', sum(1 for a, b in case['ranges'] if a > b))
    obs.ev('repeated', len(set(want)) < len(want))
    obs.state(case['ranges'])
    if len(want) > 1:
        obs.nontrivial()
    if case['shape'] == 0:
        want = [chr(c) for a, b in DEFAULT for c in range(a, b + 1)]
        got = make_alphabet()
        check_same(got, want, 'the default alphabet')
        check(not any(c.isspace() or c in '"\'\xad' for c in got)
              and len(set(got)) == len(got), 'the default alphabet')
        got.reverse()
        check_same(make_alphabet(None), want, 'the default alphabet')
        obs.ev('default')
