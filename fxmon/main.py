"""Runs the monitors of one property and writes its evidence."""
import argparse
import importlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback

from fxmon.core import Hang, Obs, StepLimit, Violation, hash_of, short

HOME = os.environ.get('FX_HOME', os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))))
REPO = os.environ.get('FX_REPO', '/repo')
OUT = os.environ.get('FX_OUT', os.path.join(HOME, 'evidence'))
WORKERS = 8
CASE_CPU_S = 20          # CPU seconds before a case is suspected to hang
STEP_BUDGET = 30_000_000  # traced lines in the code under test
HANG = 'does not terminate'
SHRINK_S = 15
WATCHDOG_S = {'quick': 600, 'thorough': 3600}

ALL = [f'C{i:02d}' for i in range(1, 34)]


def load(prop):
    return importlib.import_module(f'fxmon.props.{prop.lower()}')


def check_import():
    import fauxdoc
    path = os.path.realpath(fauxdoc.__file__)
    root = os.path.realpath(os.path.join(REPO, 'src'))
    if not path.startswith(root + os.sep):
        print(f'error: fauxdoc loaded from {path}, not from {root}')
        sys.exit(2)


def known_findings(prop):
    """Returns {mechanism: description} for recorded, unrepaired ones."""
    found = {}
    path = os.path.join(HOME, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            parts = line.strip().split(None, 3)
            if len(parts) == 4 and parts[0] == 'known:' and \
                    parts[1] == f'property={prop}' and \
                    parts[2].startswith('mech='):
                found[parts[2][5:]] = parts[3]
    return found


def on_cpu(signum, frame):
    raise Hang()


def traced(func):
    """Runs func, counting executed lines of the code under test."""
    steps = 0
    src = os.path.realpath(os.path.join(REPO, 'src'))

    def local(frame, event, arg):
        nonlocal steps
        if event == 'line':
            steps += 1
            if steps > STEP_BUDGET:
                raise StepLimit()
        return local

    def top(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(src) else None
    sys.settrace(top)
    try:
        func()
    finally:
        sys.settrace(None)


def run_case(mod, case, obs):
    """Runs one case. Returns None, or (message, mechanism)."""
    signal.signal(signal.SIGPROF, on_cpu)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        try:
            mod.run(case, obs)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        return None
    except Violation as v:
        return str(v), v.mech
    except Hang:
        pass
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        return unexpected(e), None
    # Suspected hang. The verdict is made on logical steps, not time.
    try:
        traced(lambda: mod.run(case, obs))
    except StepLimit:
        return (f'no result after {STEP_BUDGET} executed lines '
                f'({HANG})'), None
    except Violation as v:
        return str(v), v.mech
    except BaseException as e:
        return unexpected(e), None
    return None


def unexpected(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = '; '.join(f'{os.path.basename(f.filename)}:{f.lineno} {f.name}'
                      for f in tb[-4:])
    return f'unexpected {type(e).__name__}: {e} [{where}]'


def case_rng(prop, seed, index):
    return random.Random(f'{prop}:{seed}:{index}')


def make_case(mod, prop, seed, index, directed):
    if index < len(directed):
        return directed[index]
    rng = case_rng(prop, seed, index)
    return json.loads(json.dumps(mod.gen(rng)))


def worker(mod, prop, seed, indexes, directed, conn, limit_violations, stop):
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    obs = Obs()
    distinct = set()
    evaluated = 0
    bad = []
    samples = []
    known = known_findings(prop)
    seen_known = {}
    for index in indexes:
        if stop.is_set():
            break
        case = make_case(mod, prop, seed, index, directed)
        result = run_case(mod, case, obs)
        evaluated += 1
        if obs.take_nontrivial() or result:
            distinct.add(hash_of(case))
            if len(samples) < 2 and index >= len(directed):
                samples.append(short(case, 600))
        if result:
            msg, mech = result
            if mech in known:
                seen_known[mech] = msg
                continue
            bad.append({'index': index, 'case': case, 'message': msg,
                        'mech': mech})
            if len(bad) >= limit_violations or HANG in msg:
                stop.set()
                break
    conn.send({'counts': dict(obs.counts), 'states': obs.states,
               'distinct': distinct, 'evaluated': evaluated, 'bad': bad,
               'known': seen_known, 'samples': samples})
    conn.close()


def shrink(mod, bad):
    """Greedily drops operations while the case still fails."""
    case = bad['case']
    key = next((k for k in ('ops', 'calls') if isinstance(case.get(k), list)), None)
    if key is None or HANG in bad['message']:
        return bad
    end = time.monotonic() + SHRINK_S
    size = max(1, len(case[key]) // 2)
    while size and time.monotonic() < end:
        i, progress = 0, False
        while i < len(case[key]) and time.monotonic() < end:
            trial = dict(case)
            trial[key] = case[key][:i] + case[key][i + size:]
            result = run_case(mod, trial, Obs())
            if result and result[1] == bad['mech'] and \
                    result[0][:12] == bad['message'][:12]:
                case, progress = trial, True
                bad = {**bad, 'case': case, 'message': result[0]}
            else:
                i += size
        if not progress:
            size //= 2
    return bad


def run_prop(prop, tier, seed):
    started = time.monotonic()
    check_import()
    mod = load(prop)
    directed = json.loads(json.dumps(mod.directed()))
    number = mod.QUICK if tier == 'quick' else mod.THOROUGH
    if 'FX_SCALE' in os.environ:
        # Only for development: part of a run.
        number = int(number * float(os.environ['FX_SCALE']))
    total = len(directed) + number
    order = list(range(total))
    ctx = multiprocessing.get_context('fork')
    stop = ctx.Event()
    procs = []
    for w in range(WORKERS):
        recv, send = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(
            mod, prop, seed, order[w::WORKERS], directed, send, 3, stop))
        p.start()
        send.close()
        procs.append((p, recv))
    results, inconclusive = [], []
    for w, (p, recv) in enumerate(procs):
        left = WATCHDOG_S[tier] - (time.monotonic() - started)
        if recv.poll(max(1, left)):
            try:
                results.append(recv.recv())
            except EOFError:
                inconclusive.append(f'worker {w} died')
        else:
            inconclusive.append(f'worker {w}: watchdog')
            p.kill()
        p.join()
    counts, states, distinct = {}, set(), set()
    bad, samples, known = [], [], {}
    evaluated = 0
    for r in results:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        states |= r['states']
        distinct |= r['distinct']
        bad += r['bad']
        samples += r['samples']
        known.update(r['known'])
        evaluated += r['evaluated']
    code = 0
    if bad:
        bad.sort(key=lambda b: (len(json.dumps(b['case'])), b['index']))
        worst = shrink(mod, bad[0])
        os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
        path = os.path.join(OUT, 'replay', f'{prop}.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'index': worst['index'],
                       'message': worst['message'], 'case': worst['case']},
                      f, indent=1)
        print(f'case {worst["index"]}: {worst["message"]}')
        print(f'VIOLATION property={prop} replay={path}')
        code = 1
    else:
        for name, least in mod.REQUIRED.items():
            if counts.get(name, 0) < least and 'FX_SCALE' not in os.environ:
                inconclusive.append(
                    f'observed only {counts.get(name, 0)} of {name} '
                    f'(at least {least} needed)')
        if inconclusive:
            code = 2
    listed = known_findings(prop)
    for mech in sorted(known):
        print(f'KNOWN-FINDING: property={prop} {listed[mech]}')
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluated,
            'distinct_nontrivial': len(distinct),
            'rule': mod.RULE,
            'samples': samples[:4],
            'directed_cases': len(directed),
            'distinct_states': len(states),
            'observed': dict(sorted(counts.items())),
            'known_findings_observed': sorted(known),
            'inconclusive': inconclusive,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.monotonic() - started, 3),
        'violations': len(bad),
    }
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, f'{prop}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    verdict = {0: 'held', 1: 'violated', 2: 'inconclusive'}[code]
    print(f'{prop} {tier} seed={seed}: {verdict}; {evaluated} executions, '
          f'{len(distinct)} distinct non-trivial, {len(states)} states, '
          f'{sum(counts.values())} observations, {evidence["wall_s"]} s')
    for reason in inconclusive:
        print(f'inconclusive: {reason}')
    return code


def replay(path):
    check_import()
    data = json.load(open(path))
    mod = load(data['property'])
    result = run_case(mod, data['case'], Obs())
    if result:
        print(result[0])
        print(f'VIOLATION property={data["property"]} replay={path}')
        return 1
    print('the case passes')
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    args = ap.parse_args()
    if args.selftest:
        check_import()
        for name in ALL:
            load(name)
        print('ok')
        return 0
    if args.replay:
        return replay(args.replay)
    return run_prop(args.prop, args.tier, args.seed)


if __name__ == '__main__':
    sys.exit(main())
