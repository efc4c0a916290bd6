"""C18: a spreadsheet range is read cell for cell."""
import os
import tempfile
import numpy as np
from channelpack import readxl
from oracles.util import same, sizes
from oracles import xlsxmk
from oracles.c17 import want, VALUES

FILES = ['channelpack/readxl.py']
RULE = ('xlsx files of 1 to 3 sheets up to 12 x 12 cells (and a column count '
        'over 26), start and stop cells, header on, off or by address, column '
        'selections as text or numbers, inside and outside of the range')


def cases(rng, tier, hints, consts):
    new, old = sizes(hints, consts, 400)
    k = 0
    while k < 1500 or tier != 'quick':
        k += 1
        nr = rng.choice([1, 2, 2, 3, 5, 12])
        nc = rng.choice([1, 2, 4, 6, 9])
        if new and rng.random() < 0.3:
            nr = rng.choice(new)
        if rng.random() < 0.06:
            nc = 30
        base = []
        kinds = [rng.choice(['n', 'n', 'nx', 't', 'tx', 'nt', 'd', 'b',
                             'nb', 'e', 'dx']) for _ in range(nc)]
        seed = rng.randrange(1 << 30)
        r0 = rng.choice([0, 0, 0, 1, 2])
        c0 = rng.choice([0, 0, 0, 1, 2])
        r0, c0 = min(r0, nr - 1), min(c0, nc - 1)
        r1 = rng.choice([nr - 1, nr - 1, rng.randint(r0, nr - 1)])
        c1 = rng.choice([nc - 1, nc - 1, rng.randint(c0, nc - 1)])
        header = rng.choice([True, True, False, 'addr', 'addr'])
        use = None
        r = rng.random()
        if r < 0.5:
            use = sorted(rng.sample(range(c0, c1 + 1),
                                    rng.randint(1, c1 - c0 + 1)))
            if r < 0.25:
                rng.shuffle(use)
            if r < 0.08:
                use.append(rng.choice([c1 + 1, c0 - 1 if c0 else c1 + 2]))
        yield {'nr': nr, 'nc': nc, 'kinds': kinds, 'seed': seed,
               'start': [r0, c0] if r0 or c0 or rng.random() < 0.3 else None,
               'stop': [r1, c1] if (r1, c1) != (nr - 1, nc - 1) or
               rng.random() < 0.3 else None, 'header': header,
               'hrow': rng.randint(0, nr - 1), 'use': use,
               'usetxt': rng.random() < 0.6, 'mode': rng.randint(0, 1),
               'how': rng.randint(0, 2), 'dim': rng.random() < 0.5,
               'addr': rng.choice(['', '', 'lower', 'short']),
               'hcol': rng.randint(0, nc + 2),
               'sheet': rng.choice([0, 0, 1, 'name'])}


def grid(case, rng):
    g = {}
    for c, kinds in enumerate(case['kinds']):
        for r in range(case['nr']):
            t = rng.choice(kinds)
            if r in (0, case['hrow']) and rng.random() < 0.7:
                t = 't'
            if t in 'xk':
                continue
            v = rng.choice(VALUES[t])
            if t == 't':
                v = 'c%dr%d' % (c, r) if rng.random() < 0.9 else rng.choice(
                    ['x y', '0', 'TRUE', 'é', 'a&b<c', '1.5', '#N/A', 'nan'])
            elif t == 'n':
                v = c * 1000.0 + r if rng.random() < 0.9 else rng.choice(
                    [0.0, 1.0, -1.0, 0.1, 1e300, 60.0])
            g[r, c] = (t, v)
    # the corner makes the sheet as big as wanted
    g[case['nr'] - 1, case['nc'] - 1] = ('n', 5.5)
    return g


def usetext(use):
    out, i = [], 0
    while i < len(use):
        j = i
        while j + 1 < len(use) and use[j + 1] == use[j] + 1:
            j += 1
        if j > i:
            out.append('%s:%s' % (xlsxmk.name(use[i]), xlsxmk.name(use[j])))
        else:
            out.append(xlsxmk.name(use[i]))
        i = j + 1
    return ', '.join(out)


def check(case):
    import random
    rng = random.Random(case['seed'])
    g = grid(case, rng)
    other = {(0, 0): ('t', 'other'), (1, 0): ('n', 1.0)}
    sheets = [('Data', g), ('more & more', other)]
    sheet = 0
    if case['sheet'] == 1:
        sheets.reverse()
        sheet = 1
    elif case['sheet'] == 'name':
        sheets.insert(0, ('First', other))
        sheet = 'Data'
    nr, nc = case['nr'], case['nc']

    def cell(r, c):
        return g.get((r, c), ('x', ''))

    r0, c0 = case['start'] or (0, 0)
    r1, c1 = case['stop'] or (nr - 1, nc - 1)
    use = case['use']
    kw = {'sheet': sheet}
    if case['start']:
        kw['startcell'] = '%s%d' % (xlsxmk.name(c0), r0 + 1)
    if case['stop']:
        kw['stopcell'] = '%s%d' % (xlsxmk.name(c1), r1 + 1)
    if case['addr'] == 'short' and case['start'] and r0 == 0:
        kw['startcell'] = xlsxmk.name(c0)
    elif case['addr'] == 'lower':
        kw.update({k: kw[k].lower() for k in kw if k.endswith('cell')})
    if use is not None:
        kw['usecols'] = usetext(use) if case['usetxt'] else list(use)
    cols = sorted(use) if use is not None else list(range(c0, c1 + 1))
    hrow = None
    first = r0
    if case['header'] is True:
        hrow, first = r0, r0 + 1
        if rng.random() < 0.5:
            kw['header'] = True
    elif case['header'] == 'addr':
        hrow = case['hrow']
        kw['header'] = '%s%d' % (xlsxmk.name(case['hcol']), hrow + 1)
    else:
        kw['header'] = False
    d = tempfile.mkdtemp(prefix='oracle_')
    fn = os.path.join(d, 'f.xlsx')
    try:
        with open(fn, 'wb') as f:
            f.write(xlsxmk.xlsx_bytes(sheets, case['mode'], case['how'],
                                      case['dim']))
        try:
            p = readxl.sheetpack(fn, **kw)
        except ValueError:
            p = ValueError
    finally:
        if os.path.exists(fn):
            os.unlink(fn)
        os.rmdir(d)
    if cols[0] < c0 or cols[-1] > c1:
        return None if p is ValueError else 'columns outside were read'
    if p is ValueError:
        return 'ValueError for columns inside'
    if sorted(p.data) != cols:
        return 'columns %r, want %r' % (sorted(p.data), cols)
    for c in cols:
        w = np.array(want([cell(r, c) for r in range(first, r1 + 1)],
                          case['mode']), copy=False)
        if w.dtype.kind != p.data[c].dtype.kind or not same(p.data[c], w):
            return 'column %d: %r, want %r' % (c, p.data[c], w)
    if hrow is None:
        wn = {}
    else:
        wn = {c: xlsxmk.value(cell(hrow, c)) for c in cols}
    if dict(p.names) != wn:
        return 'names %r, want %r' % (p.names, wn)
    if p.fn != fn:
        return 'fn %r' % p.fn
