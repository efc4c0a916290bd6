"""Abstract streams, opened by name or given by the caller."""
import z3

from pydv.core import (I, B, Obj, Opaque, Sym, SeqObj, InstV, TAGS, _tag,
                       _truthy, PyRaise, Unsupported, const_obj, to_obj,
                       to_z3, zbool, cur, is_int)
from pydv.interp import Builtin, py_raise
from pydv.ext import chunk
from pydv.models import uf

A_FILE = ('a stream reads its lines in order from its position; seek to a '
          'position told restores it; any operation may raise OSError')


class StreamCls(object):
    """Text or byte stream of lines."""
    name = 'stream'

    @staticmethod
    def getattr(it, o, name):
        m = getattr(o.model, 'op_' + name.strip('_'), None)
        if m is None:
            if name == 'name':
                return o.model.get_name()
            if name == 'closed':
                return o.attrs['closed']
            if hasattr(__import__('io').TextIOWrapper, name):
                raise Unsupported('stream.%s' % name)
            py_raise(AttributeError, name)
        return Builtin(name, lambda it, a, k: m(it, a, k))

    @staticmethod
    def iter_seq(it, o):
        return o.model.rest(it)


class Stream(object):
    """The model of one stream; state is in the attributes of obj."""

    def __init__(self, tag, kind='str', faulty=True, name=None):
        ctx = cur()
        self.tag, self.kind, self.faulty, self.nm = tag, kind, faulty, name
        self.n = ctx.fresh('nlines_' + tag, I)
        self.L = ctx.fresh_fn('line_' + tag, [I], Obj)
        ctx.assume(self.n >= 0)
        i = z3.FreshConst(I, 'i')
        empty = const_obj('' if kind == 'str' else b'')
        l = self.L(i)
        ctx.fact(z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i < self.n), z3.And(
                _tag(l) == TAGS[kind], _truthy(l))), patterns=[l]))
        ctx.fact(z3.ForAll([i], z3.Implies(i >= self.n, l == empty),
                           patterns=[l]))
        self.obj = InstV(StreamCls())
        self.obj.model = self
        self.p0 = ctx.fresh('pos_' + tag, I)
        ctx.assume(self.p0 >= 0)
        self.obj.attrs['pos'] = self.p0
        self.obj.attrs['closed'] = False
        self.nclose = 0

    # state ----------------------------------------------------------
    def get(self):
        return to_z3(self.obj.attrs['pos'])

    def set(self, it, p):
        it.raw_setattr(self.obj, 'pos', p)

    def use(self):
        if self.obj.attrs['closed'] is not False:
            if self.obj.attrs['closed'] is True:
                py_raise(ValueError, 'I/O operation on closed file')
            if cur().branch(zbool(self.obj.attrs['closed'])):
                py_raise(ValueError, 'I/O operation on closed file')
        if self.faulty:
            if cur().branch(cur().fresh('fault', B)):
                py_raise(OSError, 'fault')

    def line(self, i):
        return Opaque(self.L(i), self.kind)

    # operations -----------------------------------------------------
    def get_name(self):
        if self.nm is None:
            py_raise(AttributeError, 'name')
        return self.nm

    def op_tell(self, it, a, k):
        self.use()
        return self.get()

    def op_seek(self, it, a, k):
        self.use()
        p = it.resolve(a[0])
        wh = it.resolve(a[1]) if len(a) > 1 else 0
        if not is_int(p) or wh != 0:
            raise Unsupported('seek')
        self.set(it, to_z3(p))
        return p

    def op_read(self, it, a, k):
        self.use()
        ctx = cur()
        if a and a[0] == 0:
            return '' if self.kind == 'str' else b''
        if not a or a[0] != 1:
            raise Unsupported('read of a stream of lines')
        # somewhere in a line now
        self.set(it, ctx.fresh('somewhere', I))
        t = ctx.fresh('chars', Obj)
        ctx.fact(_tag(t) == TAGS[self.kind])
        return Opaque(t, self.kind)

    def op_readline(self, it, a, k):
        self.use()
        if a:
            raise Unsupported('readline with a size')
        p = self.get()
        self.set(it, p + 1)
        return self.line(p)

    op_next = op_readline

    def op_close(self, it, a, k):
        it.raw_setattr(self.obj, 'closed', True)
        self.nclose += 1

    def op_enter(self, it, a, k):
        return self.obj

    def op_exit(self, it, a, k):
        self.op_close(it, [], {})
        return False

    def op_readlines(self, it, a, k):
        if a:
            raise Unsupported('readlines')
        return SeqObj('list', self.rest(it))

    def op_iter(self, it, a, k):
        return self.obj

    def rest(self, it):
        self.use()
        p = self.get()
        self.set(it, z3.If(p > self.n, p, self.n))
        return Sym(z3.If(p > self.n, 0, self.n - p),
                   lambda j: self.line(p + to_z3(j)))


class BinFile(Stream):
    """Bytes at positions; the file is long enough for what is read."""
    count = 0

    def __init__(self, tag, faulty=True, name=None):
        Stream.__init__(self, tag, 'bytes', faulty, name)
        cur().assume(self.p0 == 0)
        self.set0(0)
        self.fid = z3.Const('file_' + tag, I)

    def set0(self, p):
        self.obj.attrs['pos'] = p

    def op_read(self, it, a, k):
        self.use()
        if len(a) != 1 or k:
            raise Unsupported('read')
        n = it.resolve(a[0])
        if not is_int(n):
            raise Unsupported('read')
        if not cur().branch(zbool(to_z3(n) >= 0)):
            raise Unsupported('read(-1)')
        p = self.get()
        self.set(it, z3.simplify(p + n))
        return chunk(self.fid, p, n)

    def op_readline(self, it, a, k):
        raise Unsupported('line of a binary file')

    op_next = op_readline

    def rest(self, it):
        raise Unsupported('lines of a binary file')


class Disk(object):
    """Contract of io.open: a new stream, or an error."""

    def __init__(self, kind='str', faulty=True, binary=False):
        self.kind, self.faulty, self.binary = kind, faulty, binary
        self.opened = []

    def __call__(self, it, f, args, kw):
        ctx = cur()
        name = it.resolve(args[0] if args else kw['file'])
        mode = it.resolve(args[1] if len(args) > 1 else kw.get('mode', 'r'))
        if self.faulty and ctx.branch(ctx.fresh('cannot_open', B)):
            py_raise(OSError, 'open')
        if not isinstance(mode, str):
            raise Unsupported('mode')
        kind = 'bytes' if 'b' in mode else 'str'
        if kind == 'bytes' and self.binary:
            s = BinFile('file%d' % len(self.opened), self.faulty, name)
        else:
            s = Stream('file%d' % len(self.opened), kind, self.faulty, name)
        ctx.assume(s.p0 == 0)
        s.args = (name, mode, kw)
        self.opened.append(s)
        return s.obj


def some_name(ctx, tag='given'):
    """The name of a stream: none, a text or a number."""
    d = ctx.decide([('name', 'none'), ('name', 'text'), ('name', 'number')])
    if d[1] == 'none':
        return None, ''
    if d[1] == 'number':
        return ctx.fresh('fd', I), ''
    t = ctx.fresh('name_' + tag, Obj)
    ctx.assume(_tag(t) == TAGS['str'])
    v = Opaque(t, 'str')
    return v, v
