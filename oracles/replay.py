"""Replay a violation:  replay.py evidence/replays/C01.json"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.environ.get('PYDV_REPO', '/repo'))

if __name__ == '__main__':
    with open(sys.argv[1]) as f:
        v = json.load(f)
    if 'failure' not in v:
        print('no failing input; failed obligations:')
        print(json.dumps(v.get('failed_obligations'), indent=1))
        sys.exit(1)
    from oracles import main
    mod = importlib.import_module('oracles.' + v['property'].lower())
    msg = main.run_case(mod, v['failure']['case'], 120)
    print('input:', json.dumps(v['failure']['case'])[:4000])
    print('result:', msg or 'contract holds')
    sys.exit(1 if msg else 0)
