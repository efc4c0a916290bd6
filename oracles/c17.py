"""C17: spreadsheet cells convert by the types found in their column."""
import datetime
import itertools
import numpy as np
from channelpack import readxl
from oracles.util import same, sizes
from oracles import xlsxmk

FILES = ['channelpack/readxl.py', 'channelpack/xlrd/xldate.py']
RULE = ('columns of all combinations of up to 4 cell types in sheets of up to '
        '6 columns, row ranges inside of the sheet, both date systems; '
        'columns of a length found in the source')
KINDS = 'ntdbexk'
VALUES = {'n': [0.0, 1.0, -2.5, 61.0, 1e300, -1.0, 60.0, 0.1, 12345.0],
          't': ['', 'a', 'x y', '1', ' ', 'TRUE', 'nan', '#N/A', '0', 'é',
                'None', ' lead', 'x' * 60, '1.5', '\t', '2020-01-01', '-'],
          'd': [1.0, 59.5, 61.0, 40000.25, 0.5, 0.0, 59.0,
                60.0, 60.5, 366.0, 2957003.0, 1462.75], 'b': [0, 1],
          'e': [0, 7, 42], 'x': [''], 'k': ['']}


def col(rng, kinds, n):
    out = []
    for i in range(n):
        t = kinds[i] if i < len(kinds) else rng.choice(kinds)
        out.append([t, rng.choice(VALUES[t])])
    rng.shuffle(out)
    return out


def cases(rng, tier, hints, consts):
    new, old = sizes(hints, consts, 500)
    for n in (1, 2, 3):
        for t in itertools.product(KINDS, repeat=n):
            cells = [[k, rng.choice(VALUES[k])] for k in t]
            yield {'cols': [cells], 'mode': rng.randint(0, 1), 'use': [0],
                   'rows': [0, n - 1]}
    for n in new + old:
        for kinds in ('n', 't', 'nx', 'd', 'nt'):
            yield {'cols': [col(rng, kinds, n)], 'mode': 0, 'use': [0],
                   'rows': [0, n - 1]}
    k = 0
    while k < 6000 or tier != 'quick':
        k += 1
        nr, nc = rng.randint(1, 8), rng.randint(1, 6)
        cols = []
        for c in range(nc):
            kinds = rng.choice(['n', 'nx', 'nxek', 't', 'tx', 'txek', 'd',
                                'dn', 'b', 'bx', 'x', 'e', 'nt', 'ntx',
                                KINDS, 'de', 'bn', 'dt', 'xek', 'bt'])
            cols.append(col(rng, kinds, nr))
        a = rng.randint(0, nr - 1)
        b = rng.randint(a, nr - 1)
        yield {'cols': cols, 'mode': rng.randint(0, 1), 'rows': [a, b],
               'use': sorted(rng.sample(range(nc), rng.randint(1, nc)))}


def want(cells, mode):
    types = {t for t, v in cells}
    if types <= set('nexk'):
        return [float(v) if t == 'n' else np.nan for t, v in cells]
    if types <= set('texk'):
        return [v if t == 't' else '' for t, v in cells]
    out = []
    for t, v in cells:
        if t == 'd':
            if mode:
                ep = datetime.datetime(1904, 1, 1)
            else:
                ep = datetime.datetime(1899, 12, 31 if v < 60 else 30)
            out.append(ep + datetime.timedelta(v))
        elif t in 'exk':
            out.append(None)
        elif t == 'b':
            out.append(v == 1)
        else:
            out.append(xlsxmk.value((t, v)))
    return out


def check(case):
    cols = case['cols']
    nr = len(cols[0])
    sh = xlsxmk.mksheet([[c[r] for c in cols] for r in range(nr)],
                        case['mode'])
    a, b = case['rows']
    if sh.nrows != nr or sh.ncols != len(cols):
        return          # the sheet does not keep all of these cells
    got = [list(x) for x in readxl.sheet_columns(
        sh, readxl.CellRef(a, 0), readxl.CellRef(b, len(cols) - 1),
        case['use'])]
    if len(got) != len(case['use']):
        return '%d columns, want %d' % (len(got), len(case['use']))
    for c, g in zip(case['use'], got):
        w = want(cols[c][a:b + 1], case['mode'])
        if len(g) != len(w) or any(
                type(x) is not type(y) or not same(x, y)
                for x, y in zip(g, w)):
            return 'column %d: %r, want %r' % (c, g, w)
