"""C12: text columns land under their own column number."""
import contextlib
import io
import os
import tempfile
from channelpack import textpack
from oracles.util import sizes

FILES = ['channelpack/readtext.py']
RULE = ('random tables of 1 to 12 columns with a value per cell that tells '
        'its column and row, several delimiters and line ends, column selections in any '
        'order, names given, read or absent, skipped lines, debug, text and '
        'bytes streams')
DELIMS = [None, None, ',', ';', '\t', ' ', '|', '::', ', ']


def cases(rng, tier, hints, consts):
    new, old = sizes(hints, consts, 300)
    k = 0
    while k < 4000 or tier != 'quick':
        k += 1
        nc = rng.choice([1, 2, 3, 4, 6, 12])
        nr = rng.choice([1, 2, 3, 8])
        if rng.random() < 0.003:
            nc = rng.choice([33, 65, 129, 257, 300])
        r = rng.random()
        if new and r < 0.3:
            if rng.random() < 0.5:
                nc = min(400, rng.choice(new))
            else:
                nr = rng.choice(new)
        elif old and r < 0.35:
            nr = rng.choice(old)
        delim = rng.choice(DELIMS)
        how = rng.choice(['none', 'int', 'seq', 'seq', 'seq', 'names',
                          'names', 'beyond'])
        if how == 'int':
            sel = rng.randrange(nc)
        elif how == 'seq':
            sel = rng.sample(range(nc), rng.randint(1, nc))
            if rng.random() < 0.2:
                sel.append(rng.choice(sel))
        elif how == 'beyond':
            sel = rng.sample(range(nc), rng.randint(1, nc)) + [nc + 2]
            rng.shuffle(sel)
        elif how == 'names':
            sel = rng.sample(range(nc), rng.randint(1, nc))
        else:
            sel = None
        yield {'nc': nc, 'nr': nr, 'delim': delim, 'how': how, 'sel': sel,
               'as': rng.choice(['list', 'tuple', 'set', 'dictkeys']),
               'hasnames': rng.random() < 0.5, 'skip': rng.choice(
                   [0, 0, 1, 2, 3, 7] + [x for x in new[:6] if x < 200]),
               'debug': rng.random() < 0.3, 'bytes': rng.random() < 0.3,
               'text': [rng.random() < 0.3 for _ in range(nc)],
               'junk': [rng.choice(JUNK) for _ in range(4)],
               'nl': rng.choice(['\n', '\n', '\n', '\r\n']),
               'nm': rng.choice(['name%d', 'name%d', 'Q%d.x', '%d', 'a-b%d',
                                 'two words %d', 'same', 'some of', '_%d',
                                 'NaN', '"%d"', '-', 'é%d']),
               'from': rng.choice(['stream', 'stream', 'later', 'file']),
               'stripnl': rng.random() < 0.3}


JUNK = ['junk %d, 1;2', 'junk %d, 1;2', '', '   ', '\t', '# %d', '%d',
        '1.5 %d', 'a\tb\t%d', ';;;', '%d,%d']


def cell(case, c, r):
    if case['text'][c]:
        return 't%d_%d' % (c, r)
    return '%d.%d' % (c * 1000 + r, c % 10)


def check(case):
    nc, nr, delim = case['nc'], case['nr'], case['delim']
    sep = delim if delim is not None else ' '
    skip = case['skip']
    has = case['hasnames'] and case['how'] != 'names'
    lines = []
    for i in range(skip):
        j = case['junk'][i % len(case['junk'])]
        lines.append(j.replace('%d', str(i)))
    nm = case['nm']
    if delim in (None, ' ') and nm != 'some of':
        nm = nm.replace(' ', '_')

    def name(c):
        if nm == 'some of':
            return '' if c % 2 and delim in (',', ';', '|', '::') else \
                'some%d' % (c // 2)
        return nm % c if '%' in nm else nm
    if case['bytes'] or delim in (None, ' '):
        nm = nm.replace('é', 'e')
    if has and nc == 1 and not name(0):
        return None
    if has:
        if skip:
            lines.pop()
        else:
            skip = 1
        lines.append(sep.join(name(c) for c in range(nc)))
    for r in range(nr):
        lines.append(sep.join(cell(case, c, r) for c in range(nc)))
    nl = case['nl']
    text = nl.join(lines) + ('' if case['stripnl'] else nl)
    kw = {'skiprows': skip}
    if delim is not None:
        kw['delimiter'] = delim.encode() if case['bytes'] else delim
    sel = case['sel']
    conv = {'list': list, 'tuple': tuple, 'set': set,
            'dictkeys': lambda x: dict.fromkeys(x).keys()}[case['as']]
    if case['how'] == 'int':
        kw['usecols'] = sel
        cols = [sel]
    elif case['how'] in ('seq', 'beyond'):
        kw['usecols'] = conv(sel)
        cols = sorted(set(sel) & set(range(nc)))
    elif case['how'] == 'names':
        kw['names'] = {c: 'given%d' % c for c in sel}
        cols = sorted(sel)
    else:
        cols = list(range(nc))
    if has or (case['hasnames'] and case['how'] == 'names'):
        kw['hasnames'] = True
    if case['debug']:
        kw['debug'] = True
    top = ''
    if case['from'] == 'later':
        top = 'read already' + nl + nl
    if case['bytes']:
        fo = io.BytesIO((top + text).encode('ascii'))
        kw['encoding'] = 'ascii'
    elif case['from'] == 'file':
        fd, fo = tempfile.mkstemp(suffix='.txt')
        with open(fd, 'wb') as f:
            f.write(text.encode('utf-16'))
        kw['encoding'] = 'utf-16'
    else:
        fo = io.StringIO(top + text, newline='')
    if top:
        fo.seek(len(top))
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            p = textpack(fo, **kw)
    finally:
        if isinstance(fo, str):
            os.unlink(fo)
    if sorted(p.data) != cols:
        return 'channels %r, want %r' % (sorted(p.data), cols)
    for c in cols:
        want = [cell(case, c, r) if case['text'][c] else
                float(cell(case, c, r)) for r in range(nr)]
        if p.data[c].tolist() != want:
            return 'column %d: %r, want %r' % (c, p.data[c].tolist()[:8],
                                               want[:8])
    if case['how'] == 'names':
        want = {c: 'given%d' % c for c in sel}
    elif has:
        want = {c: name(c) for c in cols}
    else:
        want = {}
    if dict(p.names) != want:
        return 'names %r, want %r' % (p.names, want)
