"""Runs one check: `python -m vf.run P01 --tier quick [--replay FILE]`."""
from __future__ import annotations

import argparse
import importlib
import json
import os
import pickle
import signal
import sys
import time
import traceback
import multiprocessing as mp
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import warnings  # noqa: E402
warnings.simplefilter('ignore')

from vf.core import Case, Violation, Skip, HarnessError  # noqa: E402


class _Alarm(BaseException):
    pass


def _on_alarm(signum, frame):
    raise _Alarm()


def load_known(prop):
    """known_findings.txt lines:
         known: property=P12 mechanism=M <what fails>
         fixed: property=P12 <commit> <what failed>
    """
    known = {}
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known:'):
                rest = line[len('known:'):].strip()
                a, b, text = rest.split(None, 2)
                if a == f'property={prop}':
                    known[b.split('=', 1)[1]] = text
    return known


def lambeq_frames(tb):
    out = []
    base = os.path.join(REPO, 'lambeq') + os.sep
    for f in traceback.extract_tb(tb):
        if os.path.abspath(f.filename).startswith(base):
            out.append(f'{os.path.relpath(f.filename, base)}:{f.name}')
    return out


# Measured cost of the families: more cases where a case is cheap.
SCALE = {
    'P01': 10, 'P02': 10, 'P03': 6, 'P04': 6, 'P05': 10, 'P06': 10,
    'P07': 7, 'P08': 10, 'P09': 10, 'P10': 10, 'P11': 10, 'P13': 10,
    'P14': 9, 'P15': 10, 'P16': 5, 'P17': 10, 'P18': 10, 'P19': 4,
    'P20': 6, 'P21': 8, 'P22': 8, 'P23': 10, 'P24': 9, 'P25': 10,
    'P26': 2, 'P28': 4, 'P29': 10, 'P30': 2, 'P32': 10, 'P33': 3,
    'P34': 9, 'P36': 6, 'P37': 10, 'P38': 4,
}


def scale(prop, fam, tier):
    if fam.quick <= 20:
        return 1
    n = SCALE.get(prop, 1)
    return n if tier == 'quick' else max(1, n // 2)


def run_case(prop, fam, seed, index, tier):
    """Returns (case, status, mechanism, message)."""
    case = Case(prop, fam.name, seed, index, tier)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(fam.timeout)
    t0 = time.time()
    try:
        fam.fn(case)
        st = ('ok', '', '')
    except Violation as v:
        st = ('violation', v.mechanism, v.message)
    except Skip as s:
        st = ('skip', '', str(s))
    except HarnessError as e:
        st = ('harness', 'harness', f'{e}\n{traceback.format_exc()}')
    except _Alarm:
        frames = lambeq_frames(sys.exc_info()[2])
        if frames:
            st = ('violation', 'timeout',
                  f'no answer within {fam.timeout} s in {frames[-1]}\n'
                  + traceback.format_exc()[-1500:])
        else:
            st = ('harness', 'timeout', traceback.format_exc()[-3000:])
    except RecursionError:
        frames = lambeq_frames(sys.exc_info()[2])
        st = ('violation' if frames else 'harness', 'exc:RecursionError',
              traceback.format_exc()[-1500:])
    except Exception as e:
        frames = lambeq_frames(sys.exc_info()[2])
        if frames and not isinstance(e, MemoryError):
            st = ('violation', f'exc:{type(e).__name__}',
                  f'{type(e).__name__}: {e} in {frames[-1]}\n'
                  + traceback.format_exc()[-2500:])
        elif isinstance(e, (ValueError, LookupError)):
            # the oracle could make no sense of what it was handed: never
            # on the tree as it is (nothing else would do for a verdict)
            st = ('violation', f'malformed:{type(e).__name__}',
                  traceback.format_exc()[-2500:])
        else:
            st = ('harness', f'exc:{type(e).__name__}',
                  traceback.format_exc()[-3000:])
    finally:
        signal.alarm(0)
    if st[0] == 'violation' and case.trail:
        st = (st[0], st[1], st[2] + '\ninput: ' + '\n       '.join(
            case.trail[-12:]))
    if os.environ.get('VF_SLOW') and time.time() - t0 > 2:
        print('slow', fam.name, index, round(time.time() - t0, 1),
              file=sys.stderr)
    return case, st


class Agg:
    def __init__(self):
        self.events, self.sigs = Counter(), set()
        self.evaluations = 0
        self.fam_cases, self.fam_skips = Counter(), Counter()
        self.fam_time = Counter()
        self.samples, self.known = [], []
        self.violations, self.harness = [], []

    def add(self, fam, index, case, st, dt):
        self.events.update(case.events)
        self.sigs |= case.sigs
        self.evaluations += case.evaluations
        self.fam_cases[fam] += 1
        self.fam_time[fam] += dt
        if st[0] == 'skip':
            self.fam_skips[fam] += 1
        if len(self.samples) < 40:
            self.samples += [f'{fam}#{index}: {s}' for s in case.samples]
        self.known += [(fam, index, m, t) for m, t in case.known]
        if st[0] == 'violation':
            self.violations.append((fam, index, st[1], st[2]))
        elif st[0] == 'harness':
            self.harness.append((fam, index, st[1], st[2]))

    def merge(self, o):
        self.events.update(o.events)
        self.sigs |= o.sigs
        self.evaluations += o.evaluations
        for a in ('fam_cases', 'fam_skips', 'fam_time'):
            getattr(self, a).update(getattr(o, a))
        self.samples += o.samples
        self.known += o.known
        self.violations += o.violations
        self.harness += o.harness


def worker(wid, nw, mod, prop, jobs, seed, tier, deadline, stop, counter,
           known, path):
    agg = Agg()
    try:
        if hasattr(mod, 'worker_setup'):
            mod.worker_setup()
        fams = {f.name: f for f in mod.FAMILIES}
        while True:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= len(jobs) or stop.value or time.time() > deadline:
                if i < len(jobs) and not stop.value:
                    agg.events['__deadline_unrun'] += 1
                break
            fname, index = jobs[i]
            t0 = time.time()
            case, st = run_case(prop, fams[fname], seed, index, tier)
            if st[0] == 'violation' and st[1] in known:
                case.known.append((st[1], st[2]))
                st = ('ok', '', '')
            agg.add(fname, index, case, st, time.time() - t0)
            if st[0] == 'violation':
                stop.value = 1
        if hasattr(mod, 'worker_events'):
            agg.events.update(mod.worker_events())
    except BaseException:
        agg.harness.append(('worker', wid, 'worker', traceback.format_exc()))
    with open(path, 'wb') as f:
        pickle.dump(agg, f)
    # no interpreter teardown: heavy native libraries can hang in atexit
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--family')
    ap.add_argument('--index', type=int)
    ap.add_argument('--count', type=int)
    ap.add_argument('--workers', type=int,
                    default=int(os.environ.get('VF_WORKERS', '8')))
    ap.add_argument('--keep-going', action='store_true')
    a = ap.parse_args()
    prop, tier, seed = a.prop, a.tier, a.seed
    t_start = time.time()
    known = load_known(prop)
    import lambeq
    lb = os.path.abspath(lambeq.__file__)
    if not lb.startswith(os.path.abspath(REPO) + os.sep):
        print(f'lambeq imported from {lb}, not from {REPO}')
        sys.exit(2)
    mod = importlib.import_module(f'vf.checks.{prop.lower()}')
    if hasattr(mod, 'setup'):
        mod.setup()

    if a.replay:
        r = json.load(open(a.replay))
        fam = {f.name: f for f in mod.FAMILIES}[r['family']]
        if hasattr(mod, 'worker_setup'):
            mod.worker_setup()
        case, st = run_case(prop, fam, r['seed'], r['index'], r['tier'])
        print(json.dumps({'status': st[0], 'mechanism': st[1],
                          'events': dict(case.events)}, indent=1))
        print(st[2])
        sys.stdout.flush()
        os._exit(1 if st[0] == 'violation' else 0)

    jobs = []
    for f in mod.FAMILIES:
        if a.family and f.name != a.family:
            continue
        n = a.count or f.count(tier) * scale(prop, f, tier)
        if a.index is not None:
            jobs.append((f.name, a.index))
        else:
            jobs += [(f.name, i) for i in range(n)]
    # interleave families so that a wall cap starves none of them
    per = Counter()
    tot = Counter(j[0] for j in jobs)
    jobs.sort(key=lambda j: (j[1] + .5) / tot[j[0]])

    cap = getattr(mod, 'CAP', {}).get(tier, 420 if tier == 'quick' else 3600)
    deadline = t_start + cap
    tmp = os.path.join(ROOT, 'scratch', f'{prop}.{os.getpid()}')
    os.makedirs(tmp, exist_ok=True)
    nw = max(1, min(a.workers, len(jobs), getattr(mod, 'WORKERS', 8)))
    ctx = mp.get_context('fork')
    stop, counter = ctx.Value('i', 0), ctx.Value('i', 0)
    if a.keep_going:
        class _Z:
            value = 0

            def __setattr__(self, k, v):
                pass
        stop = _Z()
    procs, paths = [], []
    for w in range(nw):
        path = os.path.join(tmp, f'{w}.pkl')
        pr = ctx.Process(target=worker, args=(
            w, nw, mod, prop, jobs, seed, tier, deadline, stop, counter,
            known, path))
        pr.start()
        procs.append(pr)
        paths.append(path)
    for pr in procs:
        pr.join(max(1, deadline + 200 - time.time()))
    agg = Agg()
    for pr, path in zip(procs, paths):
        if pr.is_alive():
            pr.kill()
            pr.join()
        try:
            with open(path, 'rb') as f:
                agg.merge(pickle.load(f))
        except Exception as e:
            agg.harness.append(('worker', -1, 'lost',
                                f'worker gave no result ({e!r}), '
                                f'exit {pr.exitcode}'))
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    try:
        os.rmdir(os.path.join(ROOT, 'scratch'))
    except OSError:
        pass

    # ---- verdict ---------------------------------------------------------
    rdir = os.path.join(ROOT, 'replays')
    viol = list(agg.violations)
    seen_known = {}
    for fam, idx, mech, text in agg.known:
        if mech in known:
            seen_known.setdefault(mech, (fam, idx, text))
        else:
            viol.append((fam, idx, mech, text))
    rep = []
    mechs = set()
    for fam, idx, mech, text in viol:
        if mech in mechs and len(rep) >= 3:
            continue
        mechs.add(mech)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{prop}-{fam}-{seed}-{idx}.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'family': fam, 'index': idx,
                       'seed': seed, 'tier': tier, 'mechanism': mech,
                       'message': text}, f, indent=1)
        rep.append((path, mech, text))
        if len(rep) >= 10:
            break
    events = {k: v for k, v in sorted(agg.events.items())}
    missing = [] if (a.family or a.index is not None or a.count) else [
        k for k in getattr(mod, 'REQUIRED', []) if not agg.events.get(k)]
    wall = time.time() - t_start
    ev = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': agg.evaluations,
            'distinct_nontrivial': len(agg.sigs),
            'rule': mod.RULE,
            'samples': agg.samples[:12],
            'cases': dict(agg.fam_cases),
            'cases_planned': dict(tot),
            'cases_skipped': dict(agg.fam_skips),
            'monitored_events': events,
            'family_cpu_s': {k: round(v, 1)
                             for k, v in agg.fam_time.items()},
            'workers': nw,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': len(viol),
    }
    if seen_known:
        ev['coverage']['known_findings_observed'] = sorted(seen_known)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    for mech in sorted(seen_known):
        print(f'KNOWN-FINDING: property={prop} {known[mech]} '
              f'[{mech}]')
    for path, mech, text in rep:
        print(f'--- {mech}\n{text}')
    for path, mech, text in rep:
        print(f'VIOLATION property={prop} replay={path}')
    print(f'{prop} {tier} seed={seed}: {sum(agg.fam_cases.values())} cases, '
          f'{agg.evaluations} oracle evaluations, {len(agg.sigs)} distinct '
          f'non-trivial, {len(viol)} violations, {len(agg.harness)} harness '
          f'errors, {wall:.1f} s')
    sys.stdout.flush()
    for fam, idx, mech, text in agg.harness[:5]:
        print(f'HARNESS ERROR {fam}#{idx} {mech}\n{text}')
    code = 0
    if viol:
        code = 1
    elif agg.harness:
        code = 2
    elif missing:
        print(f'INCONCLUSIVE: monitors never observed {missing}')
        code = 2
    elif not agg.evaluations:
        print('INCONCLUSIVE: nothing was evaluated')
        code = 2
    sys.stdout.flush()
    os._exit(code)


if __name__ == '__main__':
    main()
