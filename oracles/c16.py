"""C16: spreadsheet addresses and column numbers are one-to-one."""
from channelpack import readxl
from channelpack.xlrd import formula, book, xlsx
from oracles.util import sizes

FILES = ['channelpack/readxl.py', 'channelpack/xlrd/formula.py',
         'channelpack/xlrd/book.py', 'channelpack/xlrd/xlsx.py']
RULE = ('all column numbers below 20000 and around powers of 26 and constants '
        'of the source, in upper, lower and mixed case; addresses with rows '
        '0, 1, 2, ... ; selections of random columns and ranges')


def name(n):
    """Bijective base 26."""
    s = ''
    n += 1
    while n:
        n, r = divmod(n - 1, 26)
        s = chr(65 + r) + s
    return s


def cases(rng, tier, hints, consts):
    new, old = sizes(hints, consts, 10 ** 9)
    for a in range(0, 20000, 100):
        yield {'kind': 'cols', 'cols': [a, a + 100]}
    for n in [26 ** k + d for k in (1, 2, 3, 4, 5, 6) for d in (-2, -1, 0, 1)
              ] + [sum(26 ** i for i in range(1, k)) + d
                   for k in (2, 3, 4, 5, 6) for d in (-2, -1, 0, 1)] + new:
        if n >= 0:
            yield {'kind': 'cols', 'cols': [n, n + 1]}
    for row in [0, 1, 2, 9, 10, 99, 100, 999, 65536, 65537, 1048576] + [
            x for x in new if x <= 1048576]:
        for col in (0, 3, 25, 26, 701, 702, 16383, 77):
            yield {'kind': 'addr', 'row': row, 'col': col}
    for z in ('0', '00', '007', '01', '10', '100'):
        yield {'kind': 'zeros', 'txt': z}
    k = 0
    while k < 4000 or tier != 'quick':
        k += 1
        if rng.random() < 0.3:
            n = rng.choice([rng.randrange(20000), rng.randrange(10 ** 7),
                            rng.randrange(10 ** 11)])
            yield {'kind': 'cols', 'cols': [n, n + 1]}
        elif rng.random() < 0.3:
            yield {'kind': 'addr', 'row': rng.choice(
                [rng.randint(1, 50), rng.randint(1, 1048576)]),
                'col': rng.choice([rng.randint(0, 16383),
                                   rng.randint(0, 30)])}
        else:
            items = []
            for i in range(rng.randint(1, 6)):
                a = rng.choice([rng.randint(0, 30), rng.randint(0, 800)])
                if rng.random() < 0.5:
                    items.append([a, a + rng.choice([0, 1, 2, 30])])
                else:
                    items.append([a])
            yield {'kind': 'sel', 'items': items, 'case': rng.choice(
                ['u', 'l', 'm']), 'sp': rng.choice(['', ' ', '  ']),
                'trail': rng.random() < 0.2,
                'seq': rng.random() < 0.3}


def recase(s, how):
    if how == 'l':
        return s.lower()
    if how == 'm':
        return ''.join(c.lower() if i % 2 else c for i, c in enumerate(s))
    return s


def check(case):
    k = case['kind']
    if k == 'cols':
        a, b = case['cols']
        for n in range(a, b):
            nm = name(n)
            for how in 'ulm':
                if readxl.letter2num(recase(nm, how)) != n:
                    return 'letter2num(%r) = %r' % (
                        recase(nm, how), readxl.letter2num(recase(nm, how)))
            if readxl.letter2num(nm, zbase=False) != n + 1:
                return 'letter2num(%r, zbase=False)' % nm
            for f in (formula.colname, book.colname):
                if f(n) != nm:
                    return '%s.colname(%d) = %r' % (f.__module__, n, f(n))
            r = readxl.cellreference(xladdr=nm)
            if tuple(r) != (0, n):
                return 'cellreference(%r) = %r' % (nm, r)
            r = readxl.cellreference(row=7, xladdr=nm.lower())
            if tuple(r) != (7, n):
                return 'cellreference(%r, row=7) = %r' % (nm, r)
            if list(readxl.normalize_usecols(nm)) != [n]:
                return 'normalize_usecols(%r)' % nm
    elif k == 'addr':
        row, col = case['row'], case['col']
        for how in 'ulm':
            s = recase(name(col), how) + str(row)
            try:
                r = tuple(readxl.cellreference(xladdr=s))
            except ValueError:
                r = ValueError
            if r != ((row - 1, col) if row >= 1 else ValueError):
                return 'cellreference(%r) = %r' % (s, r)
            if row >= 1 and col < 16384:
                t = xlsx.cell_name_to_rowx_colx(s)
                if tuple(t) != (row - 1, col):
                    return 'cell_name_to_rowx_colx(%r) = %r' % (s, t)
        if row >= 1:
            s = formula.cellname(row - 1, col)
            if s != name(col) + str(row):
                return 'cellname(%d, %d) = %r' % (row - 1, col, s)
            if tuple(readxl.cellreference(xladdr=s)) != (row - 1, col):
                return 'cellreference(cellname) of %r' % s
            s = formula.cellnameabs(row - 1, col)
            if s != '$%s$%d' % (name(col), row):
                return 'cellnameabs(%d, %d) = %r' % (row - 1, col, s)
    elif k == 'zeros':
        row = int(case['txt'])
        for col in (0, 30):
            s = name(col) + case['txt']
            try:
                r = tuple(readxl.cellreference(xladdr=s))
            except ValueError:
                r = ValueError
            if r != ((row - 1, col) if row >= 1 else ValueError):
                return 'cellreference(%r) = %r' % (s, r)
    else:
        want = []
        txt = []
        for it in case['items']:
            want += range(it[0], it[-1] + 1)
            txt.append(':'.join(recase(name(x), case['case']) for x in it))
        want = sorted(want)
        s = (case['sp'] + ',' + case['sp']).join(txt)
        if case['trail']:
            s = s + case['sp'] + ','
        if case['seq']:
            got = list(readxl.normalize_usecols(want[::-1]))
            s = want[::-1]
        else:
            got = list(readxl.normalize_usecols(s))
        if got != want:
            return 'normalize_usecols(%r) = %r, want %r' % (s, got, want)
