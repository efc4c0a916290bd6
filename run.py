#!/opt/venv/bin/python
"""Decide one property:  run.py C01 [--tier quick|thorough] [--verbose]

1. Every contract registered for the property is verified against the source
   in /repo as it is now (pydv: path-wise symbolic execution of the AST, loop
   invariants, obligations discharged by z3 / cvc5).
2. The executable form of the same contract is run on the real code over a
   stated finite set of inputs (bounded).  It gives failing inputs for failed
   obligations and stands in where a function is out of the verifier's reach.
"""
import argparse
import json
import multiprocessing
import os
import queue
import resource
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PYDV_REPO', '/repo')
PY = '/opt/venv/bin/python'
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

if os.path.exists(PY) and not os.environ.get('PYDV_REEXEC'):
    os.environ['PYDV_REEXEC'] = '1'
    # the order of sets of texts decides the order of terms
    os.environ.setdefault('PYTHONHASHSEED', '0')
    os.execv(PY, [PY, '-B'] + sys.argv)

sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.path.append(VT)

TIMES = {'quick': dict(contract=110, oracle=25, extended=60, all=420,
                       again=200),
         'thorough': dict(contract=900, oracle=300, extended=300, all=5400,
                          again=1800)}


def prove_one(prop, idx, tier, out, retry=False):
    """Verify one contract in this process; the result is put in out."""
    import faulthandler
    faulthandler.enable()
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    sys.setrecursionlimit(20000)
    res = {'idx': idx, 'obligations': [], 'error': None, 'kind': None}
    t0 = time.time()
    try:
        import contracts
        from pydv import core
        c = contracts.load(prop)[idx]
        if tier == 'thorough':
            core.PROVE_RL[0] = 60000000
        if retry:
            core.PROVE_RL[0] *= 5
            core.RL_ENTAILS *= 3
            import z3
            z3.set_param('smt.random_seed', 11)
            z3.set_param('sat.random_seed', 11)
        ex = core.Explorer(c.name, c.fn)
        ex.deadline = time.time() + (c.timeout or TIMES[tier]['contract'])
        try:
            ex.explore()
        except core.Unsupported as e:
            res['kind'] = 'unsupported'
            res['error'] = str(e)
            res['where'] = traceback.format_exc()[-1500:]
        except RecursionError:
            res['kind'] = 'unsupported'
            res['error'] = 'recursion limit of the interpreter'
        res['obligations'] = [dict(
            name=o.name, status=o.status, backend=o.backend,
            time=round(o.time, 4), detail=o.detail, hints=list(o.hints or ()),
            path=repr(o.prefix), havoc=bool(o.havoc),
            model=o.model) for o in ex.obligations]
        res.update(covers=ex.covers, paths=ex.npaths, queries=ex.queries,
                   restarts=ex.restarts, solver_time=ex.solver_time,
                   loops=sorted(ex.loops_cut),
                   trusted=sorted(getattr(ex, 'trusted', ())),
                   visited=sorted(getattr(ex, 'visited', ())))
        if res['kind'] is None:
            missing = [x for x in c.covers
                       if ex.covers.get(x) in (None, 'refuted')]
            if missing:
                res['kind'] = 'vacuous'
                res['error'] = 'not reached: %s' % missing
    except MemoryError:
        res['kind'] = 'unsupported'
        res['error'] = 'memory limit'
    except BaseException:
        res['kind'] = 'crash'
        res['error'] = traceback.format_exc()[-3000:]
    res['wall'] = time.time() - t0
    out.put(res)


def has_failure(oracle):
    """The executable contract has ended with a failing input."""
    if oracle is None or oracle[0].poll() is None:
        return False
    try:
        with open(oracle[1]) as f:
            return bool(json.load(f).get('failure'))
    except Exception:
        return False


def prove(prop, cs, tier, only=None, oracle=None):
    """Verify the contracts, or once more those in only.

    The whole has a time limit, and a short one once a failing input is known
    (which decides): the contracts left then count as not decided.
    """
    begin = time.time()
    end = begin + TIMES[tier]['all' if only is None else 'again']
    failing = False
    ctxm = multiprocessing.get_context('fork')
    q = ctxm.Queue()
    limit = TIMES[tier]['contract'] + 20
    todo = list(range(len(cs))) if only is None else list(only)
    asked = list(todo)
    live, results = {}, {}
    width = max(2, (os.cpu_count() or 4) - 1)
    while todo or live:
        if not failing and has_failure(oracle):
            failing = True
            end = min(end, max(time.time() + 20, begin + 60))
        if time.time() > end:
            for i in todo + list(live):
                if i in live:
                    live[i][0].kill()
                    live[i][0].join()
                results.setdefault(i, {
                    'idx': i, 'obligations': [], 'kind': 'unsupported',
                    'error': 'a failing input is known' if failing else
                    'time limit of the run', 'wall': time.time() - begin})
            break
        while todo and len(live) < width:
            i = todo.pop(0)
            p = ctxm.Process(target=prove_one, args=(prop, i, tier, q,
                                                     only is not None))
            p.start()
            live[i] = (p, time.time(), (cs[i].timeout or limit) + 20)
        try:
            r = q.get(timeout=0.2)
            results[r['idx']] = r
            p = live.pop(r['idx'])[0]
            p.join(5)
            if p.is_alive():
                p.kill()
            continue
        except queue.Empty:
            pass
        for i, (p, t, lim) in list(live.items()):
            dead = not p.is_alive()
            if dead:
                try:        # the result may just have arrived
                    r = q.get(timeout=1)
                    results[r['idx']] = r
                    live.pop(r['idx'], None)
                    if r['idx'] == i:
                        continue
                except queue.Empty:
                    pass
            if dead or time.time() - t > lim:
                if not dead:
                    p.kill()
                    p.join()
                if i in live:
                    live.pop(i)
                    results[i] = {
                        'idx': i, 'obligations': [], 'kind': 'unsupported',
                        'error': ('process ended (%s)' % p.exitcode) if dead
                        else 'time limit', 'wall': time.time() - t}
    return [results[i] for i in asked]


def start_oracle(prop, tier, seed, seconds, hints, tag):
    fd, path = tempfile.mkstemp(suffix='.json', prefix='oracle_')
    os.close(fd)
    job = {'prop': prop, 'tier': tier, 'seed': seed, 'seconds': seconds,
           'hints': hints, 'out': path}
    env = dict(os.environ)
    env['PYTHONPATH'] = REPO
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['MPLBACKEND'] = 'Agg'
    p = subprocess.Popen([PY, '-B', os.path.join(HERE, 'oracles', 'main.py')],
                         stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
                         stderr=subprocess.PIPE, env=env, cwd='/')
    p.stdin.write(json.dumps(job).encode())
    p.stdin.close()
    return p, path, seconds


def finish_oracle(h):
    p, path, seconds = h
    import threading
    buf = []
    th = threading.Thread(target=lambda: buf.append(p.stderr.read()))
    th.start()
    try:
        p.wait(seconds + 90)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    th.join(5)
    try:
        with open(path) as f:
            r = json.load(f)
    except Exception:
        r = {'error': 'oracle ended with %s: %s' % (
            p.returncode, (buf[0] if buf else b'').decode(
                errors='replace')[-1500:]), 'evaluations': 0}
    finally:
        os.unlink(path)
    return r


def hint_values(results):
    out = []
    for r in results:
        for o in r['obligations']:
            if o['status'] != 'proved':
                for n, v in o['hints']:
                    if isinstance(v, (int, float)) and not isinstance(
                            v, bool) and abs(v) < 10 ** 6:
                        out.append(v)
    return sorted(set(out), key=lambda x: (abs(x), x))[:200]


def known_findings(prop):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings']
                if k['property'] == prop and k['status'] == 'open']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--no-oracle', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in TIMES else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    prop = a.prop

    oracle = None
    if not a.no_oracle:
        oracle = start_oracle(prop, tier, seed, TIMES[tier]['oracle'], [],
                              'main')
    import contracts
    import_error = None
    try:
        import channelpack          # noqa: the code under verification
    except Exception:
        import_error = traceback.format_exc()[-2000:]
    cs = [] if import_error else contracts.load(prop)
    results = prove(prop, cs, tier, oracle=oracle) if cs else []
    orc = finish_oracle(oracle) if oracle else {'evaluations': 0}

    failed, unsupported, vacuous, crashed = [], [], [], []
    for c, r in zip(cs, results):
        bad = [o for o in r['obligations'] if o['status'] != 'proved']
        for o in bad:
            failed.append((c, r, o))
        if r['kind'] == 'unsupported':
            unsupported.append((c, r))
        elif r['kind'] == 'vacuous' and not bad:
            vacuous.append((c, r))
        elif r['kind'] == 'crash':
            crashed.append((c, r))

    fail_input = orc.get('failure')
    if not fail_input and (failed or vacuous) and not a.no_oracle and \
            not orc.get('error'):
        # look longer, steered by the counter-models
        more = start_oracle(
            prop, 'extended', seed + 1, TIMES[tier]['extended'],
            hint_values(results), 'extended')
        # and try what the solvers left open once more, for longer
        again = [i for i, r in enumerate(results) if r['kind'] is None and any(
            o['status'] != 'proved' for o in r['obligations']) and all(
            o['status'] in ('proved', 'unknown') for o in r['obligations'])]
        if again and len(again) <= 8:
            for i, r in zip(again, prove(prop, cs, tier, again, more)):
                if r['kind'] is None and all(o['status'] == 'proved'
                                             for o in r['obligations']):
                    results[i] = r
                    failed = [x for x in failed if x[0] is not cs[i]]
        orc2 = finish_oracle(more)
        fail_input = orc2.get('failure')
        orc['evaluations'] = orc.get('evaluations', 0) + orc2.get(
            'evaluations', 0)
        orc['distinct'] = orc.get('distinct', 0) + orc2.get('distinct', 0)

    violation, nfif = None, False
    if import_error:
        violation = {'what': 'channelpack does not import',
                     'output': import_error}
    elif fail_input:
        violation = {'what': 'contract violated on a concrete input',
                     'failure': fail_input}
    elif failed:
        violation = {'what': 'obligation not discharged'}
        nfif = True
    elif vacuous:
        # the postcondition is reached on no path: e.g. always raises
        violation = {'what': 'postcondition not reachable'}
        nfif = True
    findings = known_findings(prop)
    if violation and fail_input:
        for k in findings:
            if k.get('match') and k['match'] in json.dumps(fail_input):
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
                violation = None
                break

    obl = [o for r in results for o in r['obligations']]
    proved = [o for o in obl if o['status'] == 'proved']
    unb = [o for c, r in zip(cs, results) for o in r['obligations']
           if c.bound is None and r['kind'] is None]
    backends = {}
    for o in proved:
        backends[o['backend']] = backends.get(o['backend'], 0) + 1
    standin = [{'contract': c.name, 'why': r['error']}
               for c, r in unsupported + crashed]
    cov = {
        'obligations': len(obl), 'discharged': len(proved),
        'checker_cmd': '%s run.py %s --tier %s' % (PY, prop, tier),
        'trusted_base': sorted({
            'pydv (this symbolic executor and its models of Python, numpy '
            'and struct builtins)', 'z3', 'cvc5', 'CPython ast'} |
            {t for r in results for t in r.get('trusted', ())}),
        'obligations_unbounded': len(unb),
        'obligations_in_bounded_contracts': len(obl) - len(unb),
        'discharged_by_backend': backends,
        'solver_time_s': round(sum(r.get('solver_time', 0)
                                   for r in results), 3),
        'solver_queries': sum(r.get('queries', 0) for r in results),
        'contracts': [{
            'name': c.name, 'functions': c.funcs, 'callee_contracts':
            c.callees, 'bound': c.bound or 'none (all inputs, all lengths)',
            'obligations': len(r['obligations']),
            'discharged': sum(o['status'] == 'proved'
                              for o in r['obligations']),
            'paths': r.get('paths'), 'loops_cut': r.get('loops'),
            'covers': r.get('covers'), 'status': r['kind'] or (
                'proved' if all(o['status'] == 'proved'
                                for o in r['obligations']) else 'failed'),
            'error': r['error'], 'wall_s': round(r['wall'], 2)}
            for c, r in zip(cs, results)],
        'functions_under_contract': sorted({f for c in cs for f in c.funcs}),
        'bounded_standins': standin,
        'bounded_execution': {
            'note': 'executable contract on the real code; bounded, not '
                    'counted as proved',
            'evaluations': orc.get('evaluations', 0),
            'distinct_nontrivial': orc.get('distinct', 0),
            'rule': orc.get('rule', ''), 'samples': orc.get('samples', []),
            'error': orc.get('error')},
    }
    level = 'proof' if proved else 'exploration'
    if not proved:
        cov.update(cov.pop('bounded_execution'))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': cov,
          'assumptions': sorted({x for c in cs for x in c.assumes}),
          'wall_s': round(time.time() - t0, 2),
          'violations': 1 if violation else 0}
    os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    if a.verbose:
        for c, r in zip(cs, results):
            ok = sum(o['status'] == 'proved' for o in r['obligations'])
            print('%-34s %4d/%-4d %-12s paths=%s restarts=%s %.1fs %s' % (
                c.name, ok, len(r['obligations']), r['kind'] or '',
                r.get('paths'), r.get('restarts'), r['wall'],
                r.get('covers')))
            if r['error']:
                print('   ', r['error'])
                if r.get('where'):
                    print(r['where'])
            for o in r['obligations']:
                if o['status'] != 'proved':
                    print('    FAILED', o['name'], o['status'], o['detail'],
                          o['path'][:200])
        print('oracle:', orc.get('evaluations'), orc.get('distinct'),
              orc.get('error'), '%.1fs' % orc.get('wall', 0))
        if fail_input:
            print(json.dumps(fail_input)[:1500])

    print('%s %s: %d obligations, %d discharged (%d unbounded); contracts '
          '%d, stand-ins %d; %d executions of the real code; %.1f s' % (
              prop, tier, len(obl), len(proved), len(unb), len(cs),
              len(standin), orc.get('evaluations', 0), time.time() - t0))
    for s in standin:
        print('  bounded stand-in for %s: %s' % (
            s['contract'], str(s['why']).strip().splitlines()[-1][:200]))
    if violation:
        rp = os.path.join('evidence', 'replays', prop + '.json')
        violation['property'] = prop
        violation['failed_obligations'] = [
            {'contract': c.name, 'functions': c.funcs, 'obligation':
             o['name'], 'status': o['status'], 'backend': o['backend'],
             'verifier_output': o['detail'], 'counter_model': o['model'],
             'path': o['path']} for c, r, o in failed][:40] + [
            {'contract': c.name, 'functions': c.funcs,
             'obligation': 'reach the postcondition', 'status': r['error']}
            for c, r in vacuous]
        violation['replay_cmd'] = '%s oracles/replay.py %s' % (PY, rp)
        with open(os.path.join(HERE, rp), 'w') as f:
            json.dump(violation, f, indent=1, default=str)
        for c, r, o in failed[:5]:
            print('  failed obligation: %s / %s: %s' % (
                c.name, o['name'], o['status']))
        print('VIOLATION property=%s replay=%s%s' % (
            prop, rp, ' no-failing-input-found' if nfif else ''))
        return 1
    if orc.get('error') or crashed or (not proved and not orc.get(
            'evaluations')):
        print('ERROR: %s' % (orc.get('error') or [r['error'] for c, r in
                                                  crashed]))
        # nothing was decided only if both arms are without an answer
        if not proved and not orc.get('evaluations'):
            return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
