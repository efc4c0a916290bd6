"""C11: files opened by a reader are closed, streams of the caller not."""
import z3

from pydv.core import (I, B, Obj, Opaque, PyRaise, SeqObj, Sym, TAGS, TupV,
                       Unsupported, _tag, to_obj, to_z3, zbool, zand, cur)
from pydv.interp import DictV, GenV, Interp, YieldAll, py_raise
from pydv.models import uf
from . import contract
from .files import A_FILE, Disk, Stream, some_name
from .packs import A_INT, BASE, call_or_exc, exc_name, expect

T = 'channelpack.readtext.'
D = 'channelpack.dbf.'


def source(ctx, byname):
    """(argument, disk, stream of the caller, name of the source)"""
    disk = Disk()
    if byname:
        t = ctx.fresh('fname', Obj)
        ctx.assume(_tag(t) == TAGS['str'])
        v = Opaque(t, 'str')
        return v, disk, None, v
    kind = ctx.decide([('kind', 'str'), ('kind', 'bytes')])[1]
    nm, want = some_name(ctx)
    s = Stream('given', kind, True, nm)
    return s.obj, disk, s, want


def is_closed(s):
    c = s.obj.attrs['closed']
    return c if isinstance(c, bool) else zbool(c)


def all_closed(ctx, disk, s, name):
    for f in disk.opened:
        ctx.prove(name + ': the file opened is closed', is_closed(f))
        ctx.cover('closed')
    if s is not None:
        ctx.prove(name + ': the stream given is not closed', zbool(z3.Not(
            zbool(is_closed(s)))))
    if s is not None:
        ctx.prove(name + ': nothing is opened for a stream',
                  not disk.opened)


def manager(byname):
    def run(ctx):
        import channelpack.readtext as rt
        arg, disk, s, want = source(ctx, byname)
        it = Interp({'io.open': disk})
        mgr, e = call_or_exc(it, it.wrap(rt.contextopen), [arg], {})
        if e is not None:
            if exc_name(e) != 'OSError':
                expect(ctx, e, 'contextopen')
            all_closed(ctx, disk, s, 'error')
            ctx.cover('error')
            return
        m = it.resolve(mgr)
        f = s or disk.opened[0]
        ctx.prove('one file is opened' if byname else 'no file is opened',
                  len(disk.opened) == (1 if byname else 0))
        ctx.prove('open in the block', zbool(z3.Not(zbool(is_closed(f)))))
        c, e = call_or_exc(it, it.getattr(m, '__enter__'), [])
        if not expect(ctx, e, 'enter'):
            return
        c = it.resolve(c)
        ctx.prove('the stream is given', it.resolve(it.getattr(
            c, 'fo')) is f.obj)
        ctx.prove('position as it was', f.get() == f.p0)
        ctx.prove('name of the source', to_obj(it.resolve(it.getattr(
            c, 'name'))) == to_obj(want))
        b = it.resolve(it.getattr(c, 'bytehint'))
        ctx.prove('bytes or not', zbool(it.truth(b)) == (
            f.kind == 'bytes') if not isinstance(b, bool) else
            b == (f.kind == 'bytes'))
        ex = ctx.decide([('leave', 'normally'), ('leave', 'error')])[1]
        args = [None] * 3 if ex == 'normally' else [ValueError] + [None] * 2
        r, e = call_or_exc(it, it.getattr(m, '__exit__'), args)
        if not expect(ctx, e, 'exit'):
            return
        ctx.prove('errors are passed on', z3.Not(zbool(it.truth(r))))
        all_closed(ctx, disk, s, 'exit')
        ctx.cover('post')
    return run


for _b in (True, False):
    contract('C11', 'contextopen of a ' + ('name' if _b else 'stream'),
             [T + 'contextopen.__init__', T + 'contextopen.__enter__',
              T + 'contextopen.__exit__'],
             covers=('post', 'error') + (('closed',) if _b else ()),
             assumes=(A_FILE,))(manager(_b))


def given_name(cs):
    return cs.src == 'name'


def reader(sel, hasnames, debug):
    """textpack, with faults of the stream and of linetuples anywhere."""
    def run(ctx):
        from .c12 import Case
        cs = Case(ctx, sel, hasnames, debug=debug, faulty=True,
                  bound=(2, 1) if debug else None)
        it = cs.it
        p, e = cs()
        all_closed(ctx, cs.disk, cs.stream, 'error' if e else 'end')
        if e is not None:
            ctx.prove('the error is passed on', exc_name(e) in (
                'OSError', 'ValueError'))
            ctx.cover('error')
            return
        ctx.prove('name of the source', to_obj(it.resolve(it.getattr(
            it.resolve(p), 'fn'))) == to_obj(cs.want))
        ctx.cover('post')
    return run


for _s, _h, _d in (('none', False, False), ('none', True, False),
                   ('int', False, True), ('int', True, True)):
    contract('C11', 'textpack usecols %s%s%s' % (
        _s, ', with a line of names' if _h else '',
        ', debug' if _d else ''),
        [T + 'textpack', T + 'textpack.datadict',
         T + 'contextopen.__init__', T + 'contextopen.__enter__',
         T + 'contextopen.__exit__'], covers=('post', 'error', 'closed'),
        callees=[T + 'linetuples'],
        bound='2 rows of 1 column' if _d else None,
        assumes=(A_FILE, A_INT))(reader(_s, _h, _d))


def lazy_reader(src):
    def run(ctx):
        from .c22 import Case
        cs = Case(ctx, src, 'none', False, faulty=True)
        cs.faulty = True
        p, e = cs()
        all_closed(ctx, cs.disk, cs.stream, 'error' if e else 'end')
        if e is not None:
            ctx.prove('the error is passed on', exc_name(e) in (
                'OSError', 'ValueError', 'UnicodeDecodeError'))
            ctx.cover('error')
            return
        ctx.prove('name of the source', to_obj(cs.pack.attrs['fn']) ==
                  to_obj(cs.want))
        ctx.cover('post')
    return run


def c22_assumes():
    from .c22 import A_PRE, A_LOCALE
    return (A_PRE, A_LOCALE)


for _s in ('name', 'str', 'bytes'):
    contract('C11', 'lazy_textpack of ' + {
        'name': 'a name', 'str': 'text', 'bytes': 'bytes'}[_s],
        [T + 'lazy_textpack', T + 'contextopen.__init__',
         T + 'contextopen.__enter__', T + 'contextopen.__exit__'],
        covers=('post', 'error') + (('closed',) if _s == 'name' else ()),
        callees=[T + 'preparse', T + 'textpack'],
        assumes=(A_FILE, A_INT) + c22_assumes())(lazy_reader(_s))


def dbf_reader(names):
    def run(ctx):
        from .dbfs import PackCase
        cs = PackCase(ctx, names, faulty=True)
        it = cs.it
        p, e = cs()
        all_closed(ctx, cs.disk, cs.stream, 'error' if e else 'end')
        if e is not None:
            ctx.prove('the error is passed on', exc_name(e) in (
                'OSError', 'ValueError'))
            ctx.cover('error')
            return
        ctx.prove('name of the source', to_obj(it.resolve(it.getattr(
            it.resolve(p), 'fn'))) == to_obj(cs.want))
        ctx.cover('post')
    return run


for _n in (False, True):
    contract('C11', 'dbfpack' + (' of some fields' if _n else ''),
             [D + 'dbfpack', T + 'contextopen.__init__',
              T + 'contextopen.__enter__', T + 'contextopen.__exit__'],
             covers=('post', 'error', 'closed'),
             callees=[D + 'dbfreader'] + [D + 'dbfrecords'] * _n,
             assumes=(A_FILE, A_INT))(dbf_reader(_n))
