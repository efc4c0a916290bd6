"""C11: files opened by a reader are closed, streams of the caller not."""
import builtins
import contextlib
import gc
import io
import os
import tempfile
import warnings
from channelpack import readtext, dbf
from oracles import dbfmk

FILES = ['channelpack/readtext.py', 'channelpack/dbf.py']
RULE = ('every reader with a file name, text stream and bytes stream (with '
        'and without a name), good and bad content, a failure injected at '
        'the k-th call of each stream method, failing converters; open files '
        'and positions are inspected afterwards')


class Boom(Exception):
    pass


class Stream(object):
    """Delegates to a stream, fails at the k-th call of one method."""

    def __init__(self, fo, method=None, k=None, name=None):
        self._fo, self._method, self._k, self._n = fo, method, k, 0
        if name is not None:
            self.name = name

    def _tick(self, m):
        if m == self._method:
            self._n += 1
            if self._n == self._k:
                raise Boom(m)

    def __getattr__(self, a):
        if a.startswith('_'):
            raise AttributeError(a)
        v = getattr(self._fo, a)
        if not callable(v):
            return v

        def f(*args, **kw):
            self._tick(a)
            return v(*args, **kw)
        return f

    def __iter__(self):
        return self

    def __next__(self):
        self._tick('next')
        return next(self._fo)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._fo.close()


METHODS = ['read', 'readline', 'tell', 'seek', 'next']


def cases(rng, tier, hints, consts):
    base = []
    for fn in ('contextopen', 'textpack', 'lazy_textpack', 'dbfpack',
               'dbfpack_names'):
        for src in ('file', 'stream', 'bytes'):
            for nm in (None, 'some name', '', 3):
                base.append((fn, src, nm))
    for fn, src, nm in base:
        yield {'fn': fn, 'src': src, 'name': nm, 'fault': None,
               'content': 'good', 'kw': {}, 'pos': 0}
    for fn, src, nm in base:
        if nm in ('', 3):
            continue
        for m in METHODS:
            for k in (1, 2, 3, 4, 5, 9):
                yield {'fn': fn, 'src': src, 'name': nm, 'fault': [m, k],
                       'content': 'good', 'kw': {}, 'pos': 0}
        if fn == 'dbfpack_names':
            for sel in (['C'], ['A', 'B'], ['C', 'A'], ('A',), ['B', 'B'],
                        'AB'):
                yield {'fn': fn, 'src': src, 'name': nm, 'fault': None,
                       'content': 'good', 'kw': {}, 'pos': 0, 'sel': sel}
        for c in ('empty', 'bad', 'trunc', 'prose', 'late'):
            yield {'fn': fn, 'src': src, 'name': nm, 'fault': None,
                   'content': c, 'kw': {}, 'pos': 0}
    j = 0
    while j < 1500 or tier != 'quick':
        j += 1
        fn, src, nm = rng.choice(base)
        kw = {}
        if 'text' in fn:
            for k, vs in (('hasnames', [True]), ('skiprows', [1, 2, 5]),
                          ('usecols', [0, [0], [1, 0], [7]]),
                          ('converters', ['boom1', 'boom3', 'far']),
                          ('debug', [True]), ('delimiter', [',', ';']),
                          ('names', [{'0': 'x'}, {'x': 1}]),
                          ('stripstrings', [True])):
                if rng.random() < 0.2:
                    kw[k] = rng.choice(vs)
        yield {'fn': fn, 'src': src, 'name': nm, 'kw': kw,
               'fault': rng.choice([None, [rng.choice(METHODS),
                                           rng.randint(1, 12)]]),
               'content': rng.choice(['good', 'good', 'bad', 'trunc',
                                      'empty', 'prose']),
               'pos': rng.choice([0, 0, 3])}


def content(case):
    if case['fn'].startswith('dbfpack'):
        spec = {'fields': [['A', 'N', 5, 0], ['B', 'C', 4, 0]],
                'rows': [[f, [['', n], ['', c]]] for f, n, c in (
                    (' ', 1, 'x'), ('*', 2, 'y'), (' ', 3, 'z'))],
                'eof': False}
        b = dbfmk.dbf_bytes(spec)
        return {'good': b, 'empty': b'', 'bad': b[:-9] + b'xxxxxxxxx',
                'late': b[:-9] + b'xxxxxxxxx',
                'trunc': b[:-14], 'prose': b'no dbf at all'}[case['content']]
    b = b'a, b\n1, 2.5\n3, 4.5\n5, 6.5\n' + b'7, 8\n' * 40
    return {'good': b, 'empty': b'', 'bad': b + b'\xff\xfe, 1\n',
            'late': b + b'7, 8\n' * 20000 + b'\xff\xfe, 1\n',
            'trunc': b + b'9', 'prose': b'no numbers here\nat all\n'}[
                case['content']]


def kwargs(case, raw):
    kw = {}
    for k, v in case['kw'].items():
        if k == 'names':
            v = {int(a) if a.isdigit() else a: b for a, b in v.items()}
        elif k == 'delimiter' and raw:
            v = v.encode('ascii')
        elif k == 'converters':
            cnt = [0]

            def conv(s, n=1 if v == 'boom1' else 3):
                cnt[0] += 1
                if cnt[0] == n:
                    raise Boom('converter')
                return s
            v = {99 if v == 'far' else 0: conv}
        kw[k] = v
    if case['fn'].endswith('textpack') and 'delimiter' not in kw and \
            case['fn'] == 'textpack':
        kw['delimiter'] = b',' if raw else ','
    return kw


def check(case):
    d = tempfile.mkdtemp(prefix='oracle_')
    path = os.path.join(d, 'f.dat')
    opened = []
    real = builtins.open

    def spy(file, *args, **kw):
        fo = real(file, *args, **kw)
        if isinstance(file, str) and file == path:
            opened.append(fo)
            if case['fault']:
                return Stream(fo, *case['fault'], name=path)
        return fo

    try:
        with open(path, 'wb') as f:
            f.write(content(case))
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            res = run(case, path, spy, opened, real)
            gc.collect()
        if res:
            return res
        for w in rec:
            if issubclass(w.category, ResourceWarning) and \
                    path in str(w.message):
                return 'file left open: %s' % w.message
    finally:
        if os.path.exists(path):
            os.unlink(path)
        os.rmdir(d)


def run(case, path, spy, opened, real):
    src, fn = case['src'], case['fn']
    isdbf = fn.startswith('dbfpack')
    raw = isdbf or src == 'bytes'
    inner = None
    if src == 'file':
        arg = path
    else:
        b = content(case)
        inner = io.BytesIO(b) if raw else io.StringIO(
            b.decode('latin-1'))
        pos = case['pos'] if fn == 'contextopen' else 0
        inner.seek(min(pos, len(b)))
        arg = inner
        if case['fault'] or case['name'] is not None:
            arg = Stream(inner, *(case['fault'] or [None, None]),
                         name=case['name'])
    kw = kwargs(case, raw)
    pack = err = None
    io_open, bopen = io.open, builtins.open
    io.open = builtins.open = spy
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                if fn == 'contextopen':
                    res = context(case, arg, inner, isdbf)
                    if res:
                        return res
                elif isdbf:
                    pack = dbf.dbfpack(arg, *(
                        [case.get('sel', ['B'])] if fn == 'dbfpack_names' else []))
                else:
                    if src == 'file':
                        kw['encoding'] = 'utf-8'
                    pack = getattr(readtext, fn)(arg, **kw)
            except Exception as e:
                err = repr(e)
    finally:
        io.open, builtins.open = io_open, bopen
    try:
        for fo in opened:
            if not fo.closed:
                return 'file left open (after %s)' % err
        if inner is not None and inner.closed:
            return 'stream of the caller closed (after %s)' % err
        if pack is not None:
            want = path if src == 'file' else (
                case['name'] if isinstance(case['name'], str) else '')
            if pack.fn != want:
                return 'name %r, want %r' % (pack.fn, want)
        elif case['content'] == 'good' and not case['fault'] and not \
                case['kw'] and fn != 'contextopen':
            return 'no pack: %s' % err
    finally:
        for fo in opened:
            fo.close()


def context(case, arg, inner, isdbf):
    pos = inner.tell() if inner is not None else 0
    with readtext.contextopen(arg) as c:
        if inner is not None:
            if inner.tell() != pos:
                return 'position %r after the probe, was %r' % (
                    inner.tell(), pos)
            if c.bytehint != isinstance(inner, io.BytesIO):
                return 'bytehint %r' % c.bytehint
        want = arg if isinstance(arg, str) else (
            case['name'] if isinstance(case['name'], str) else '')
        if c.name != want:
            return 'name %r, want %r' % (c.name, want)
        if case['content'] == 'bad':
            c.fo.read()
            raise Boom('in the block')
