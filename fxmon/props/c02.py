"""C02: seeded output is reproducible."""
import json
import os
import random
import subprocess
import sys

from fxmon import drive, specs
from fxmon.core import check, check_same, short

RULE = ('random seeded emitter trees and schemas; an undisturbed run is '
        'compared with a run of a second build that is interleaved with other '
        'emitters and heavy use of the global random module, and with runs in '
        'other processes that use other hash seeds; non-trivial: at least two '
        'values were emitted')
REQUIRED = {'twin_runs': 1000, 'schema_twins': 200, 'noise_events': 2000,
            'global_state_checks': 1000, 'process_twins': 300,
            'unseeded_checks': 1000}
QUICK = 6000
THOROUGH = 80000


def directed():
    cases = []
    rng = random.Random('C02 directed')
    for i in range(16):
        batch = [gen_one(rng) for _ in range(30)]
        cases.append({'processes': batch, 'hashseed': i * 7919 + 1})
    for seed in specs.SEEDS:
        cases.append({'spec': {'k': 'choice', 'items': {'$range': [0, 9999, 1]},
                               'seed': seed},
                      'calls': [None, 5, 1, 0, None], 'noise': 3})
    cases += [{'spec': spec, 'calls': calls, 'noise': i}
              for i, (spec, calls) in enumerate(
                  [*specs.matrix(), *specs.huge()])]
    cases.append({'processes': [{'spec': spec, 'calls': calls}
                                for spec, calls in specs.huge()],
                  'hashseed': 77})
    return cases


def gen_one(rng):
    case = drive.gen_subject(rng)
    case['calls'] = drive.gen_calls_for(rng, case)
    return case


def gen(rng):
    case = gen_one(rng)
    case['noise'] = rng.randint(0, 10**6)
    return case


def strip(case):
    """The same case without any seeds."""
    if isinstance(case, dict):
        return {k: None if k == 'seed' else strip(v) for k, v in case.items()}
    return [strip(v) for v in case] if isinstance(case, list) else case


def run(case, obs):
    if 'processes' in case:
        return run_processes(case, obs)
    before = random.getstate()
    plain = drive.Subject(case)
    check(random.getstate() == before, 'building changed the state of the '
                                       'global random module')
    expected = plain.drive(case['calls'])
    check(random.getstate() == before, 'the state of the global random '
                                       'module changed')
    for seed in (specs.SEEDS[case['noise'] % len(specs.SEEDS)], 2.5):
        plain.seed(seed)
        plain.reset()
    check(random.getstate() == before, 'seeding or resetting changed the '
                                       'state of the global random module')
    obs.ev('global_state_checks')
    random.seed(case['noise'] + 1)
    before = random.getstate()
    unseeded = drive.Subject(strip(case))
    for n in case['calls']:
        try:
            unseeded.call(n)
        except ValueError:
            # Values of unseeded parts may ask others for too many.
            pass
    check(random.getstate() == before, 'emitting from unseeded emitters '
                                       'changed the global random module')
    obs.ev('unseeded_checks')
    noise = random.Random(case['noise'])
    random.seed(case['noise'])
    others = []

    def disturb():
        for _ in range(noise.randint(0, 3)):
            obs.ev('noise_events')
            kind = noise.randint(0, 4)
            if kind == 0:
                random.random()
            elif kind == 1:
                random.seed(noise.randint(0, 99))
            elif kind == 2 or not others:
                others.append(drive.Subject(case, seed=noise.randint(0, 99)))
            elif kind == 3:
                other = noise.choice(others)
                other.drive(case['calls'][:1])
                other.reset()
            else:
                noise.choice(others).seed(noise.randint(0, 99))
    disturb()
    twin = drive.Subject(case)
    got = []
    for n in case['calls']:
        disturb()
        got.append(twin.call(n))
    check_same(got, expected, 'a second, identically seeded build')
    obs.ev('twin_runs')
    if 'fields' in case:
        obs.ev('schema_twins')
    values = sum(1 if n is None else n for n in case['calls'])
    obs.state(short(expected, 200))
    if values > 1:
        obs.nontrivial()


def outputs(batch):
    return [repr(drive.Subject(c).drive(c['calls'])) for c in batch]


def run_processes(case, obs):
    expected = outputs(case['processes'])
    env = {**os.environ, 'PYTHONHASHSEED': str(case['hashseed'] % 2**32)}
    proc = subprocess.run(
        [sys.executable, '-m', 'fxmon.props.c02'], env=env,
        input=json.dumps(case['processes']), capture_output=True, text=True,
        timeout=300, cwd=os.environ.get('FX_HOME'))
    check(proc.returncode == 0, lambda: 'the other process failed: '
                                        + proc.stderr[-500:])
    got = json.loads(proc.stdout)
    for c, g, e in zip(case['processes'], got, expected):
        check_same(g, e, f'same seed in another process, case {short(c)}')
        obs.ev('process_twins')
    obs.nontrivial()


if __name__ == '__main__':
    json.dump(outputs(json.load(sys.stdin)), sys.stdout)
