"""python -m checks.run <property> : decide one property on /repo's current tree.

1. extract the functions under contract from /repo's source and discharge the
   obligations of their contracts (pyvc);
2. every refuted obligation is searched for a failing input on the real code;
3. bounded cross-checks of the same contracts on the real code (labelled
   bounded, not counted as proved) cover what the verifier could not reach.
"""
import collections
import hashlib
import itertools
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import re
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
T0 = time.time()
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
CASE_SECS = 20


class Timeout(BaseException):
    pass


FIRED = [False]


def _alarm(*a):
    FIRED[0] = True
    raise Timeout()


def run_case(case):
    from oracle import cases as C
    old = signal.signal(signal.SIGALRM, _alarm)
    FIRED[0] = False
    signal.alarm(CASE_SECS)
    try:
        r = C.run(case)
        return ('skip', 'timeout') if FIRED[0] else r
    except Timeout:
        return ('skip', 'timeout')
    except RecursionError:
        return ('bad', 'unbounded recursion')
    except MemoryError:
        return ('skip', 'memory')
    except Exception:
        if FIRED[0]:             # the alarm was swallowed on the way
            return ('skip', 'timeout')
        raise
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _chunk(conn, chunk, limit):
    """runs the cases of one chunk, sends each result as soon as it is there"""
    t = time.time()
    slow = 0
    for k, c in chunk:
        if time.time() - t > limit or slow > 3:
            r = ('skip', 'not run (time limit)')
        else:
            try:
                r = run_case(c)
            except Exception as x:                       # the oracle itself failed
                r = ('skip', 'oracle error %s: %s' % (type(x).__name__, str(x)[:80]))
                if os.environ.get('VERIF_DEBUG'):
                    traceback.print_exc()
            if r is not None and r[1] == 'timeout':
                slow += 1
        conn.send((k, r))
    conn.close()


def run_cases(cases, limit, pool=None):
    """[(case, result)] in the order of `cases`, in parallel; a case on which the
    interpreter itself crashes is reported as such, and the others still run"""
    cases = list(cases)
    if not cases:
        return []
    n = max(1, min(200, len(cases) // (WORKERS * 4) or 1))
    chunks = [list(enumerate(cases))[i:i + n] for i in range(0, len(cases), n)][::-1]
    per = limit * WORKERS / max(1, len(chunks)) + 15
    end = time.time() + limit + 120
    out = {}
    live = {}
    tries = collections.Counter()
    while chunks or live:
        while chunks and len(live) < WORKERS:
            ch = chunks.pop()
            a, b = mp.Pipe(False)
            pr = mp.Process(target=_chunk, args=(b, ch, per), daemon=True)
            pr.start()
            b.close()
            live[a] = (pr, ch)
        left = end - time.time()
        if left <= 0:
            for a, (pr, ch) in live.items():
                pr.kill()
            break
        for a in mpc.wait(list(live), timeout=min(left, 5)):
            pr, ch = live[a]
            try:
                k, r = a.recv()
                out[k] = r
                continue
            except (EOFError, OSError):
                pass
            a.close()
            del live[a]
            pr.join()
            rest = [(k, c) for k, c in ch if k not in out]
            if rest and pr.exitcode != 0:
                k = rest[0][0]
                tries[k] += 1
                if tries[k] > 1 or len(ch) == 1:
                    # SIGKILL: ended from outside (memory); others: the case crashes the interpreter
                    out[k] = ('skip', 'killed') if pr.exitcode in (-9, -15) else ('bad', 'the interpreter crashed (exit code %s)' % pr.exitcode)
                    rest = rest[1:]
                if rest:
                    chunks += [rest[1:], rest[:1]] if len(rest) > 1 else [rest]
    return [(c, out.get(k, ('skip', 'not run (time limit)'))) for k, c in enumerate(cases)]


def prove(task):
    from pyvc.engine import run_task
    return run_task(task.name, task.fn, time_limit=task.time_limit)


def _prove_one(i):
    t = TASKS[i]
    try:
        r = prove(t)
        obs = [(o.name, bool(o.ok), o.status, o.how, o.detail[:1500], o.path) for o in r.obligations]
        return i, r.status, r.reason, obs, r.secs, r.solver_secs, sorted(r.inlined), sorted(r.contracts_used), r.paths
    except Exception as x:
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        return i, 'undecided', 'verifier error %s: %s' % (type(x).__name__, str(x)[:200]), [], 0.0, 0.0, [], [], 0


TASKS = []


def replay_file(pid, kind, payload):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(payload, sort_keys=True, default=str).encode()).hexdigest()[:10]
    fn = os.path.join(d, '%s-%s-%s.json' % (pid, kind, h))
    with open(fn, 'w') as f:
        json.dump(payload, f, indent=1, default=str)
    return fn


def obl_text(o):
    return re.sub(r'#\d+', '', '%s | %s' % (o[0], o[4].replace('\n', ' ')))


def load_known(pid):
    """[(id, kind, text, what)] of the known findings of a property"""
    out = []
    fn = os.path.join(HERE, 'known-findings.txt')
    for line in open(fn):
        line = line.rstrip('\n')
        if line.startswith('known: property=%s ' % pid):
            rest = line.split(' ', 2)[2]
            key, what = rest.split(' :: ', 1)
            kind, text = key.split('=', 1)
            out.append((kind, text, what))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rng = random.Random(seed)
    from oracle import cases as C
    from checks import props
    spec = props.PROPS[pid]
    known = load_known(pid)
    known_cases = {t for k, t, w in known if k == 'case'}
    known_obl = {t for k, t, w in known if k == 'obligation'}
    violations = []
    global TASKS
    TASKS = list(spec.tasks()) if spec.tasks else []
    # ---- proof
    stats = collections.Counter()
    backends = collections.Counter()
    inlined = set()
    contracts = set()
    funcs = []
    undecided = []
    refuted = []
    open_obl = []        # obligations left open
    solver = 0.0
    samples = []
    ntot = ndis = 0
    if TASKS:
        with mp.Pool(WORKERS) as p:
            results = p.map(_prove_one, range(len(TASKS)), chunksize=max(1, min(4, len(TASKS) // WORKERS)))
        for i, status, reason, obs, secs, ssecs, inl, con, paths in results:
            t = TASKS[i]
            stats[status] += 1
            solver += ssecs
            inlined.update(inl)
            contracts.update(con)
            ntot += len(obs)
            for o in obs:
                if o[1]:
                    ndis += 1
                    backends[o[3]] += 1
            if status == 'proved':
                funcs.append(t.func)
                if len(samples) < 5 and obs:
                    samples.append({'task': t.name, 'obligation': obs[0][0], 'backend': obs[0][3], 'path': obs[0][5]})
            elif status == 'failed':
                bad = [o for o in obs if not o[1]]
                refuted.append((t, bad))
            else:
                undecided.append((t, reason))
                open_obl.extend((t.name, o[0], o[4][:400]) for o in obs if not o[1])
        print('%s: %d contract tasks: %s; %d obligations, %d discharged' % (pid, len(TASKS), dict(stats), ntot, ndis))
        for t, r in undecided:
            print('  undecided %s: %s' % (t.name, r[:160]))
    # ---- refuted obligations: look for an input
    for t, bad in refuted:
        bad = [o for o in bad if obl_text(o) not in known_obl]
        if not bad:
            continue
        hit = None
        searched = 0
        if t.search is not None:
            for c, r in run_cases(t.search(random.Random(seed + 1)), 60):
                searched += 1
                if r is not None and r[0] == 'bad' and C.text(c) not in known_cases:
                    hit = (c, r[1])
                    break
        soft = t.soft or all('no unexpected exception' in o[0] for o in bad)
        payload = {'property': pid, 'function': t.func, 'task': t.name, 'searched_inputs': searched,
                   'failed_obligations': [{'obligation': o[0], 'detail': o[4], 'path': o[5]} for o in bad[:10]]}
        if hit:
            payload.update({'case': hit[0], 'input': C.text(hit[0]), 'message': hit[1],
                            'how_to_replay': 'cd /verif && python -m checks.replay <this file>'})
            violations.append((replay_file(pid, 'obligation', payload), False, bad[0][0] + ' :: ' + C.text(hit[0])))
        elif soft:
            # no concrete input found for a path of the abstraction that raises, or for an
            # obligation that depends on sidecar loop invariants: not a verdict
            why = 'obligation not discharged: %s' % bad[0][0] if t.soft else 'path raising %s' % bad[0][4][:100]
            undecided.append((t, why))
            open_obl.extend((t.name, o[0], o[4][:400]) for o in bad)
            print('  undecided %s: no witness: %s | %s' % (t.name, bad[0][0], bad[0][4][:160]))
        else:
            violations.append((replay_file(pid, 'obligation', payload), True, bad[0][0]))
    # ---- bounded cross-checks
    bst = collections.Counter()
    kinds = collections.Counter()
    seen_known = set()
    badcases = []
    bsamples = []
    groups = {}
    nb = 0
    if spec.bounded:
        for gname, it in spec.bounded(rng, tier):
            cs = list(it)
            res = run_cases(cs, 240 if tier == 'quick' else 1500)
            g = collections.Counter()
            for c, r in res:
                nb += 1
                if r is None:
                    g['agree'] += 1
                    if len(bsamples) < 6 and nb % 97 == 1:
                        bsamples.append(C.text(c))
                elif r[0] == 'skip':
                    g['skipped: ' + r[1]] += 1
                else:
                    tx = C.text(c)
                    if tx in known_cases:
                        seen_known.add(tx)
                        g['known finding'] += 1
                    else:
                        g['bad'] += 1
                        badcases.append((c, r[1]))
            groups[gname] = dict(g)
            print('  bounded %s: %s' % (gname, dict(g)))
    for c, msg in badcases[:int(os.environ.get("VERIF_SHOW", "3"))]:
        payload = {'property': pid, 'case': c, 'input': C.text(c), 'message': msg,
                   'obligations_not_discharged': open_obl[:20],
                   'how_to_replay': 'cd /verif && python -m checks.replay <this file>'}
        violations.append((replay_file(pid, 'case', payload), False, C.text(c) + ' :: ' + msg.split('\n')[0][:200] +
                           (' :: obligation not discharged: %s of %s' % (open_obl[0][1], open_obl[0][0]) if open_obl else '')))
    # ---- known findings: does each still occur?
    for k, t, w in known:
        occurs = t in seen_known
        if k == 'case' and not occurs:
            c = props.KNOWN_CASES.get(t)
            if c is not None:
                r = run_case(c)
                occurs = r is not None and r[0] == 'bad'
        if k == 'obligation':
            occurs = any(obl_text(o) == t for _, bad in refuted for o in bad)
        if occurs:
            print('KNOWN-FINDING: property=%s %s' % (pid, w))
    # ---- evidence
    agree = sum(g.get('agree', 0) for g in groups.values())
    cov = {
        'obligations': ntot, 'discharged': ndis,
        'checker_cmd': 'cd /verif && VERIF_SEED=%d VERIF_TIER=%s PYTHONHASHSEED=0 /opt/venv/bin/python -m checks.run %s' % (seed, tier, pid),
        'trusted_base': props.TRUSTED + list(spec.trusted),
        'contract_tasks': dict(stats), 'functions_under_contract': sorted(set(funcs)),
        'functions_inlined_from_source': len(inlined),
        'inlined_sample': sorted(inlined)[:40],
        'assumed_contracts_used': sorted(contracts)[:60],
        'backends': dict(backends), 'solver_seconds': round(solver, 3),
        'undecided': [{'function': t.func, 'task': t.name, 'reason': r[:200], 'stand_in': 'bounded cross-check'} for t, r in undecided],
        'refuted': [{'task': t.name, 'obligations': sorted({o[0] for o in bad})} for t, bad in refuted],
        'evaluations': nb, 'distinct_nontrivial': agree,
        'rule': 'BOUNDED, not counted as proved: inputs built from the pools in oracle/pool.py through the real code; a case is '
                'non-trivial when the real result and the independent numeric meaning were both computed and compared',
        'bounded_groups': groups,
        'samples': samples + bsamples,
    }
    if not TASKS or spec.level == 'exploration':
        cov['explanation'] = 'bounded contract checks only'
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': spec.level, 'coverage': cov,
          'assumptions': props.ASSUME + list(spec.assume), 'wall_s': round(time.time() - T0, 2), 'violations': len(violations)}
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for fn, nowit, msg in violations[:int(os.environ.get("VERIF_SHOW", "6"))]:
        print('  ' + msg[:400].replace('\n', ' '))
        print('VIOLATION property=%s replay=%s%s' % (pid, fn, ' no-failing-input-found' if nowit else ''))
    if violations:
        sys.exit(1)
    if TASKS and not ndis:
        print('no verdict: no obligation was discharged')
        sys.exit(2)
    print('%s: held (%.1f s)' % (pid, time.time() - T0))
    sys.exit(0)


if __name__ == '__main__':
    try:
        main()
    except Exception:
        traceback.print_exc()
        print('no verdict: the checker itself failed')
        sys.exit(2)
