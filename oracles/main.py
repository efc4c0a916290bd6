"""Run the executable contract of one property on the real code (bounded)."""
import ast
import faulthandler
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get('PYDV_REPO', '/repo')


class CaseTimeout(BaseException):
    pass


def _alarm(sig, frm):
    raise CaseTimeout()


def mine(files):
    """Integer and string constants of the source files, new ones first."""
    base = {}
    try:
        with open(os.path.join(HERE, 'baseline_consts.json')) as f:
            base = json.load(f)
    except IOError:
        pass
    ints, strs = [], []
    for fn in files:
        try:
            with open(os.path.join(REPO, fn), encoding='utf-8') as f:
                tree = ast.parse(f.read())
        except Exception:
            continue
        bi = set(base.get(fn, {}).get('ints', ()))
        bs = set(base.get(fn, {}).get('strs', ()))
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                docs.add(id(n.value))
        for n in ast.walk(tree):
            if not isinstance(n, ast.Constant) or id(n) in docs:
                continue
            v = n.value
            if isinstance(v, int) and not isinstance(v, bool):
                ints.append((v in bi, v))
            elif isinstance(v, float) and v == int(v):
                ints.append((False, int(v)))
            elif isinstance(v, (str, bytes)) and len(v) < 40:
                v = v.decode('latin-1') if isinstance(v, bytes) else v
                strs.append((v in bs, v))
    newi = sorted({v for o, v in ints if not o}, key=abs)
    oldi = sorted({v for o, v in ints if o}, key=abs)
    news = sorted({v for o, v in strs if not o})
    olds = sorted({v for o, v in strs if o})
    return {'new_ints': newi, 'ints': oldi, 'new_strs': news, 'strs': olds}


def main():
    job = json.load(sys.stdin)
    t0 = time.time()
    faulthandler.enable()
    res = {'evaluations': 0, 'distinct': 0, 'samples': [], 'failure': None,
           'error': None}
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    try:
        mod = importlib.import_module('oracles.' + job['prop'].lower())
        rng = random.Random(job['seed'])
        consts = mine(mod.FILES)
        seen = set()
        res['rule'] = mod.RULE
        signal.signal(signal.SIGALRM, _alarm)
        deadline = t0 + job['seconds']
        for case in mod.cases(rng, job['tier'], job['hints'], consts):
            res['evaluations'] += 1
            key = hashlib.md5(json.dumps(case, sort_keys=True).encode())
            seen.add(key.digest())
            if len(res['samples']) < 3:
                res['samples'].append(json.dumps(case)[:600])
            msg = run_case(mod, case)
            if msg:
                res['failure'] = {'case': case, 'message': msg}
                break
            if time.time() > deadline:
                break
        res['distinct'] = len(seen)
    except BaseException:
        res['error'] = traceback.format_exc()[-3000:]
    res['wall'] = time.time() - t0
    with open(job['out'], 'w') as f:
        json.dump(res, f)
    sys.stdout.flush()
    os._exit(0)


def run_case(mod, case, limit=20):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return mod.check(case)
    except CaseTimeout:
        return 'no answer within %d s' % limit
    except MemoryError:
        return 'memory exhausted'
    except Exception:
        return 'unexpected ' + traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)


if __name__ == '__main__':
    main()
