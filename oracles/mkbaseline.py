"""Write baseline_consts.json: constants of the tree as it was developed
against (only used to try constants that are new in a changed tree first)."""
import glob
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from oracles import main  # noqa
if __name__ == '__main__':
    p = os.path.join(HERE, 'baseline_consts.json')
    if os.path.exists(p):
        os.unlink(p)
    out = {}
    for f in sorted(glob.glob(main.REPO + '/channelpack/**/*.py',
                              recursive=True)):
        rel = os.path.relpath(f, main.REPO)
        m = main.mine([rel])
        out[rel] = {'ints': m['new_ints'], 'strs': m['new_strs']}
    with open(p, 'w') as f:
        json.dump(out, f, indent=0, sort_keys=True)
