"""Runs one check: bin/check <property id>.

The driver copies the sources of /repo's working tree to a scratch directory
(laid out the way setup.py lays the package out), imports them from there,
enumerates the cases of the check, runs them on forked workers, and writes
the evidence file.  Nothing is written under /repo.
"""

import argparse
import atexit
import ctypes
import importlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

from collections import Counter
from multiprocessing import sharedctypes

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
DEADLINE = {'quick': 780., 'thorough': 6 * 3600.}
STUCK = 240.       # A single case that runs this long does not terminate.
NPROC = int(os.environ.get('VERIF_NPROC', '8'))


def install_sources():
    tmp = tempfile.mkdtemp(prefix='vsppl_')
    owner = os.getpid()
    def cleanup():
        if os.getpid() == owner:
            shutil.rmtree(tmp, ignore_errors=True)
    atexit.register(cleanup)
    ignore = shutil.ignore_patterns('__pycache__', '*.pyc')
    pkg = os.path.join(tmp, 'sppl')
    shutil.copytree(os.path.join(REPO, 'src'), pkg, ignore=ignore)
    shutil.copytree(os.path.join(REPO, 'magics'), os.path.join(pkg, 'magics'),
        ignore=ignore)
    version = os.path.join(pkg, '__init__.py')
    if not os.path.exists(version):
        open(version, 'w').close()
    sys.path.insert(0, tmp)
    return tmp


def load_known(pid):
    """Keys of the known findings of this property: {key: description}."""
    path = os.path.join(VERIF, 'known_findings.txt')
    known = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line.startswith('finding:'):
                    continue
                fields = line[len('finding:'):].strip().split(None, 2)
                if fields[0] != 'property=%s' % (pid,):
                    continue
                assert fields[1].startswith('key='), line
                known[fields[1][4:]] = fields[2]
    return known


def run_one(module, desc):
    from vlib.core import Rec
    rec = Rec()
    try:
        module.run_case(desc, rec)
    except Exception as e:           # pylint: disable=broad-except
        rec.fail('exception:%s' % (type(e).__name__,),
            'unexpected exception\n%s' % (traceback.format_exc(),))
    return rec.pack()


def worker(module, cases, counter, current, started, wid, conn, nworkers):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        while True:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= len(cases):
                break
            started[wid] = time.time()
            current[wid] = i
            conn.send((i, run_one(module, cases[i])))
        current[wid] = -1
        conn.send(None)
    finally:
        conn.close()
    os._exit(0)


def run_pool(module, cases, deadline, known):
    """Run all cases; returns (totals, violations, stuck, n_done)."""
    from multiprocessing import Pipe, Process
    from multiprocessing.connection import wait
    n = min(NPROC, max(1, len(cases)))
    counter = sharedctypes.Value(ctypes.c_long, 0)
    current = sharedctypes.RawArray(ctypes.c_long, [-1] * n)
    started = sharedctypes.RawArray(ctypes.c_double, [time.time()] * n)
    procs, conns = [], {}
    for w in range(n):
        (r, s) = Pipe(duplex=False)
        p = Process(target=worker,
            args=(module, cases, counter, current, started, w, s, n))
        p.start()
        s.close()
        procs.append(p)
        conns[r] = w
    totals = [set(), 0, 0, [], [], Counter()]
    violations, stuck, n_done, died = [], None, 0, None
    hit_known = {}
    t_end = time.time() + deadline
    stop_at = None
    while conns:
        for r in wait(list(conns), timeout=1.):
            try:
                msg = r.recv()
            except EOFError:
                w = conns.pop(r)
                if current[w] >= 0:
                    died = current[w]
                continue
            if msg is None:
                conns.pop(r)
                continue
            (i, (states, transitions, traces, viol, samples, counts)) = msg
            n_done += 1
            totals[0] |= states
            totals[1] += transitions
            totals[2] += traces
            if len(totals[4]) < 6:
                totals[4].extend(samples)
            totals[5] += counts
            for (key, text) in viol:
                if key in known:
                    hit_known.setdefault(key, (i, text))
                else:
                    violations.append((i, key, text))
        now = time.time()
        for w in conns.values():
            if current[w] >= 0 and now - started[w] > STUCK:
                stuck = current[w]
        if violations and stop_at is None:
            stop_at = now + 1.
        if stuck is not None or died is not None or now > t_end \
                or (stop_at is not None and now > stop_at):
            break
    for p in procs:
        if p.is_alive():
            p.terminate()
    for p in procs:
        p.join(5)
        if p.is_alive():
            os.kill(p.pid, signal.SIGKILL)
            p.join()
    return totals, violations, stuck, died, n_done, hit_known


def write_replay(pid, tier, desc, key, text):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.json' % (pid,))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'tier': tier, 'case': desc, 'key': key,
            'message': text}, f, indent=1)
        f.write('\n')
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--keep-going', action='store_true')
    args = ap.parse_args()
    pid, tier = args.pid, args.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    install_sources()
    sys.path.insert(1, VERIF)
    # Import of the code under test happens in the check module.
    names = [f[:-3] for f in os.listdir(os.path.join(VERIF, 'checks'))
        if f.startswith(pid.lower()) and f.endswith('.py')]
    assert len(names) == 1, (pid, names)
    module = importlib.import_module('checks.%s' % (names[0],))

    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        packed = run_one(module, rep['case'])
        for (key, text) in packed[3]:
            print('REPRODUCED key=%s\n%s' % (key, text))
        sys.exit(1 if packed[3] else 0)

    cases = module.cases(tier)
    # Canonical, JSON-able descriptions, so that replay files are faithful.
    cases = json.loads(json.dumps(cases))
    if args.only:
        cases = [c for c in cases if args.only in json.dumps(c)]
    n_cases = len(cases)
    # The seed decides only the order in which a finite space is explored.
    # Cases are ordered simplest-first by each check; the seed rotates within
    # blocks, so that the first counterexample stays a short one.
    rng = random.Random(seed)
    block = max(16, n_cases // 8)
    order = []
    for k in range(0, n_cases, block):
        idx = list(range(k, min(n_cases, k + block)))
        rng.shuffle(idx)
        order.extend(idx)
    cases = [cases[i] for i in order]

    known = load_known(pid)
    if args.keep_going:
        known = _Everything(known)
    (totals, violations, stuck, died, n_done, hit_known) = run_pool(
        module, cases, DEADLINE[tier] - (time.time() - t0), known)

    if stuck is not None:
        violations.append((stuck, 'hang',
            'the case did not terminate within %d s' % (STUCK,)))
    if died is not None:
        violations.append((died, 'died', 'the process running the case died'))

    capped = n_done < n_cases and not violations
    coverage = {
        'cases': n_cases,
        'cases_completed': n_done,
        'exhaustive': not capped and not violations,
        'outcomes': {k: v for k, v in sorted(totals[5].items())},
        'bounds': module.BOUNDS[tier] if tier in module.BOUNDS else module.BOUNDS,
    }
    samples = totals[4][:6] or [str(c)[:400] for c in cases[:2]]
    if module.LEVEL == 'model_checking':
        coverage.update({
            'states': len(totals[0]),
            'transitions': totals[1],
            'traces_validated_against_impl': totals[2],
            'samples': samples,
        })
    else:
        coverage.update({
            'evaluations': totals[2],
            'distinct_nontrivial': len(totals[0]),
            'rule': module.RULE,
            'samples': samples,
        })
    if capped:
        coverage['cap'] = 'time limit reached after %d of %d cases' % (
            n_done, n_cases)
    evidence = {
        'property': pid,
        'tier': tier,
        'seed': seed,
        'level': module.LEVEL,
        'coverage': coverage,
        'assumptions': list(module.ASSUMPTIONS),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    if not args.only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', '%s.json' % (pid,)), 'w') as f:
            json.dump(evidence, f, indent=1, sort_keys=True, default=str)
            f.write('\n')

    print('%s tier=%s cases=%d/%d states=%d transitions=%d traces=%d %.1fs' % (
        pid, tier, n_done, n_cases, len(totals[0]), totals[1], totals[2],
        time.time() - t0))
    for k, v in sorted(totals[5].items()):
        print('  outcome %s: %d' % (k, v))
    if args.keep_going:
        for key, (i, text) in sorted(hit_known.items()):
            print('--- %s :: %s\n%s' % (key, json.dumps(cases[i])[:300], text[:1500]))
        sys.exit(0)
    for key in sorted(hit_known):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[key]))
    if violations:
        violations.sort(key=lambda v: (len(json.dumps(cases[v[0]])), v[0]))
        (i, key, text) = violations[0]
        path = write_replay(pid, tier, cases[i], key, text)
        print('key=%s' % (key,))
        print('case=%s' % (json.dumps(cases[i])[:2000],))
        print(text[:4000])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.stdout.flush()
        sys.exit(1)
    sys.stdout.flush()
    sys.exit(0)


class _Everything(dict):
    """Triage mode: treat every violation as known, report all of them."""
    def __contains__(self, key):
        return True


if __name__ == '__main__':
    main()
