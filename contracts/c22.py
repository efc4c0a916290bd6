"""C22: automatic text reading is reading with the detected settings."""
import z3

from pydv.core import (I, B, Obj, Opaque, PyRaise, SeqObj, Sym, TAGS, TupV,
                       Conc, InstV, Unsupported, _tag, _truthy, const_obj,
                       to_obj, to_z3, zbool, zand, cur, is_int)
from pydv.interp import Builtin, DictV, SymMap, FuncV, Interp, py_raise
from pydv import models
from pydv.models import dict_contains, dict_getitem, iter_seq, uf
from . import contract
from .files import A_FILE, Disk, Stream, some_name
from .packs import A_INT, call_or_exc, exc_name, expect, same_value
from .texts import T

A_PRE = ('preparse gives an empty dict, or skiprows, delimiter (text or '
         'None), converters (None or _floatit for every column), names (all '
         'columns or none) and usecols (all columns)')
A_LOCALE = 'locale.getpreferredencoding gives a name of an encoding'
REST = ('delimiter', 'skiprows', 'converters', 'hasnames', 'stripstrings',
        'debug')
GIVEN = ((), REST, ('delimiter',), ('skiprows', 'hasnames'),
         ('converters', 'debug'), ('stripstrings',))


class Pack(object):
    name = 'pack'


class Case(object):
    def __init__(self, ctx, src, sel, nm, faulty=False):
        self.ctx = ctx
        self.disk = Disk(faulty=faulty)
        self.it = it = Interp({
            'io.open': self.disk, T + 'preparse': self.c_preparse,
            T + 'textpack': self.c_textpack,
            'locale.getpreferredencoding': self.c_locale})
        self.stream, self.calls, self.parsed = None, [], []
        if src == 'name':
            t = ctx.fresh('fname', Obj)
            ctx.assume(_tag(t) == TAGS['str'])
            self.arg = self.want = Opaque(t, 'str')
        else:
            sname, self.want = some_name(ctx) if faulty else (None, '')
            self.stream = Stream('given', src, faulty, sname)
            self.arg = self.stream.obj
        self.src, self.faulty = src, faulty
        self.bytes = src == 'bytes'
        self.kw = kw = {}
        if sel == 'int':
            kw['usecols'] = c = ctx.fresh('column', I)
            self.selected = lambda k: c == k
        elif sel == 'list':
            n = ctx.fresh('nuse', I)
            ctx.assume(n >= 0)
            f = ctx.fresh_fn('use', [I], I)
            kw['usecols'] = SeqObj('list', Sym(n, lambda k: f(to_z3(k))))
            j = z3.FreshConst(I, 'j')
            self.selected = lambda k: z3.Exists([j], z3.And(
                j >= 0, j < n, f(j) == k))
        elif sel == 'None':
            kw['usecols'] = None
            self.selected = lambda k: z3.BoolVal(True)
        if nm:
            kw['names'] = Opaque(ctx.fresh('names', Obj), 'any')
        enc = ctx.decide([('encoding', 'given'), ('encoding', 'not'),
                          ('encoding', 'None')])[1]
        if enc == 'None':
            kw['encoding'] = None
        if enc == 'given':
            t = ctx.fresh('encoding', Obj)
            ctx.assume(z3.And(_tag(t) == TAGS['str'], _truthy(t)))
            kw['encoding'] = Opaque(t, 'str')
        rest = ctx.decide([('given', k) for k in range(len(GIVEN))])[1]
        for o in GIVEN[rest]:
            kw[o] = Opaque(ctx.fresh(o, Obj), 'any')
        self.pref = Opaque(z3.Const('preferred_encoding', Obj), 'str')
        ctx.fact(z3.And(_tag(self.pref.term) == TAGS['str'],
                        _truthy(self.pref.term)))
        self.enc = kw.get('encoding') or self.pref
        self.nlines = ctx.fresh('parselines', I)
        ctx.assume(self.nlines >= 0)
        self.default_lines = ctx.decide([('lines', 'given'),
                                         ('lines', 'default')])[1] == \
            'default' if rest == 0 else False

    # callees ----------------------------------------------------------
    def c_locale(self, it, f, args, kw):
        return self.pref

    def c_preparse(self, it, f, args, kw):
        ctx = cur()
        if len(args) != 1 or kw:
            return NotImplemented
        q = iter_seq(it, it.resolve(args[0]))
        self.parsed.append(q)
        d = ctx.decide([('detected', x) for x in ('nothing', 'some')])[1]
        if d == 'nothing':
            self.det = {}
            return DictV({})
        n = self.n = ctx.fresh('columns', I)
        ctx.fact(n >= 1)
        import channelpack.readtext as rt
        det = self.det = {}
        det['skiprows'] = ctx.fresh('startline', I)
        ctx.fact(det['skiprows'] >= 0)
        if ctx.decide([('delimiter', True), ('delimiter', False)])[1]:
            t = ctx.fresh('found', Obj)
            ctx.fact(z3.And(_tag(t) == TAGS['str'], _truthy(t)))
            det['delimiter'] = Opaque(t, 'str')
        else:
            det['delimiter'] = None
        self.floatit = it.wrap(rt._floatit)
        self.floatit_bytes = it.wrap(rt._floatit_bytes)
        cm = ctx.decide([('comma', True), ('comma', False)])[1]
        cols = Sym(n, lambda k: to_z3(k))

        def table(val):
            return DictV({}, sym=SymMap(
                lambda t: z3.And(t >= 0, t < n), val, cols, 'int',
                lambda t: t))
        det['converters'] = table(lambda t: self.floatit) if cm else None
        nm = ctx.decide([('named', True), ('named', False)])[1]
        field = self.field = ctx.fresh_fn('field', [I], Obj)
        k = z3.FreshConst(I, 'k')
        ctx.fact(z3.ForAll([k], _tag(field(k)) == TAGS['str'],
                           patterns=[field(k)]))
        self.named = nm
        det['names'] = table(lambda t: Opaque(field(t), 'str')) if nm else \
            DictV({})
        det['usecols'] = TupV(cols)
        return DictV(dict(det))

    def c_textpack(self, it, f, args, kw):
        vals = dict(kw)
        if len(args) > 1:
            return NotImplemented
        if args:
            vals['fname'] = args[0]
        self.calls.append(vals)
        s = self.used()
        self.at = s.get()
        self.open = s.obj.attrs['closed']
        if self.faulty and cur().branch(cur().fresh('fails', B)):
            py_raise(OSError, 'read')
        self.pack = InstV(Pack())
        # by the contract of textpack for a stream (C11): its name if any
        nm = getattr(s, 'nm', None)
        self.pack.attrs['fn'] = nm if isinstance(nm, (str, Opaque)) else ''
        return self.pack

    def used(self):
        return self.stream or (self.disk.opened[0] if self.disk.opened
                               else None)

    def __call__(self):
        import channelpack.readtext as rt
        it = self.it
        kw = dict(self.kw)
        if not self.default_lines:
            kw['parselines'] = self.nlines
        return call_or_exc(it, it.wrap(rt.lazy_textpack), [self.arg], kw)


def lazy(src, sel, nm):
    def run(ctx):
        cs = Case(ctx, src, sel, nm)
        it = cs.it
        p, e = cs()
        s = cs.used()
        if src == 'name':
            ctx.prove('opened once', len(cs.disk.opened) == 1)
            ctx.prove('opened by name', to_obj(s.args[0]) == cs.arg.term)
            ctx.prove('opened as text in the encoding', s.kind == 'str' and
                      same_value(it.resolve(s.args[2].get('encoding')),
                                 cs.enc))
        if e is not None:
            if exc_name(e) == 'UnicodeDecodeError' and cs.bytes:
                ctx.cover('error')
                return
            if exc_name(e) != 'ValueError':
                expect(ctx, e, 'lazy_textpack')
                return
            ctx.prove('ValueError only if nothing is detected or given',
                      not cs.parsed or not cs.det and not cs.kw)
            ctx.cover('nothing')
            return
        # the lines parsed
        ctx.prove('parsed once', len(cs.parsed) == 1)
        q = cs.parsed[0]
        n = 25 if cs.default_lines else cs.nlines
        p0 = s.p0
        ctx.prove('the first lines are parsed', zbool(to_z3(q.n) == n))
        j = ctx.fresh('j', I)
        ctx.assume(z3.And(j >= 0, j < n))
        got = to_obj(it.resolve(q.at(j)))
        ln = s.L(p0 + j)
        ctx.prove('each line of the source as text', got == (
            uf('str_decode_1', Obj, Obj, Obj)(ln, cs.enc.term)
            if cs.bytes else ln))
        # the settings
        ctx.prove('read once', len(cs.calls) == 1)
        if not cs.calls:
            return
        v = {k: it.resolve(x) for k, x in cs.calls[0].items()}
        ctx.prove('from the stream parsed', v.pop('fname', None) is s.obj)
        ctx.prove('from the position before parsing', zbool(cs.at == p0))
        ctx.prove('the stream is open', cs.open is False)
        want = dict(cs.det)
        want.update(cs.kw)
        ctx.prove('the settings detected or given', set(v) == set(want))
        if set(v) != set(want):
            return
        for k in sorted(v):
            if k in cs.kw:
                ctx.prove('%s as given' % k, same_value(v[k], cs.kw[k]))
            elif k == 'usecols':
                a = iter_seq(it, v[k])
                i = ctx.fresh('i', I)
                ctx.prove('as many columns as detected', zbool(
                    to_z3(a.n) == cs.n))
                ctx.prove('usecols as detected', z3.Implies(z3.And(
                    i >= 0, i < cs.n), to_z3(it.resolve(a.at(i))) == i))
            elif k == 'skiprows':
                ctx.prove('skiprows as detected', v[k] == want[k])
            elif k == 'delimiter':
                w = want[k]
                if w is not None and cs.bytes:
                    w = Opaque(uf('str_encode_1', Obj, Obj, Obj)(
                        w.term, cs.enc.term), 'bytes')
                ctx.prove('delimiter as detected', same_value(v[k], w))
            elif k == 'converters':
                if want[k] is None:
                    ctx.prove('no converters', v[k] is None)
                    continue
                f = cs.floatit_bytes if cs.bytes else cs.floatit
                if not isinstance(v[k], DictV):
                    ctx.prove('converters as detected', False)
                    continue
                t = ctx.fresh('column', I)
                ctx.prove('a converter per column', zbool(dict_contains(
                    it, v[k], t)) == z3.And(t >= 0, t < cs.n))
                ctx.assume(z3.And(t >= 0, t < cs.n))
                ctx.prove('converters as detected', models.same(it.resolve(
                    dict_getitem(it, v[k], t)), f))
            else:
                names(ctx, cs, v[k])
        ctx.prove('the pack read is returned', it.resolve(p) is cs.pack)
        ctx.cover('post')
    return run


def names(ctx, cs, got):
    """The names detected, of the selected columns only."""
    it = cs.it
    if got is None and not cs.named:
        return
    if not isinstance(got, DictV):
        ctx.prove('names as a dict', False)
        return
    t = ctx.fresh('column', I)
    sel = cs.selected(t) if 'usecols' in cs.kw else z3.BoolVal(True)
    has = zbool(dict_contains(it, got, t))
    ctx.prove('a name if and only if the column is selected', has == z3.And(
        cs.named, t >= 0, t < cs.n, sel))
    if cs.named and ctx.branch(has):
        ctx.prove('the name detected', to_obj(it.resolve(dict_getitem(
            it, got, t))) == cs.field(t))


for _src in ('name', 'str', 'bytes'):
    for _sel in ('none', 'int', 'list', 'None'):
        for _nm in (False, True):
            contract('C22', 'lazy_textpack of %s, usecols %s%s' % (
                {'name': 'a name', 'str': 'text', 'bytes': 'bytes'}[_src],
                {'none': 'not given'}.get(_sel, _sel), ', names given' if _nm else ''),
                [T + 'lazy_textpack', T + 'contextopen.__init__',
                 T + 'contextopen.__enter__', T + 'contextopen.__exit__'],
                covers=('post',) + (('nothing',) if _sel == 'none' and
                                    not _nm else ()),
                callees=[T + 'preparse', T + 'textpack'],
                assumes=(A_INT, A_FILE, A_PRE, A_LOCALE))(
                    lazy(_src, _sel, _nm))
