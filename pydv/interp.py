"""Symbolic interpreter over the AST of the code that runs in /repo."""
import ast
import builtins as _pybuiltins
import inspect
import os
import sys
import types

import z3

from .core import (Effect, B, I, R, Obj, Unsupported, PathEnd, RestartLoop, PyRaise,
                   Value, ExcV, Opaque, Junk, UNBOUND, Unbound, HV, SliceV,
                   Seq, Conc, Sym, TupV, StrV, Pieces, Heap, SeqObj, InstV,
                   is_z3, is_int, is_bool, is_real, is_num, real_val,
                   const_obj, to_obj, sort_of, to_z3, from_z3, zand, zor,
                   znot, zimp, zbool, zeq, subst, cur, _truthy, _pyeq, _tag,
                   _ival, TAGS, RL_SAME)

REPO = os.environ.get('PYDV_REPO', '/repo')


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


# ------------------------------------------------------------ function values

class FuncV(Value):
    def __init__(self, node, module, name, defaults=(), kwdefaults=None,
                 closure=None, owner=None, real=None):
        self.node, self.module, self.name = node, module, name
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.closure = closure
        self.owner = owner
        self.real = real

    @property
    def qualname(self):
        if self.real is not None:
            return self.real.__module__ + '.' + self.real.__qualname__
        return '%s.<local>.%s' % (self.module.__name__, self.name)


class BoundV(Value):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Builtin(Value):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class ModV(Value):
    def __init__(self, real):
        self.real = real


class ClassV(Value):
    def __init__(self, real):
        self.real = real
        self.name = real.__name__


class SuperV(Value):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class NTClass(Value):
    """A namedtuple class whose field names are known."""

    def __init__(self, name, fields):
        self.name, self.fields = name, tuple(fields)


class NTSym(Value):
    """A namedtuple class with a symbolic number of fields."""

    def __init__(self, name, fields):
        self.name, self.fields = name, fields


class NTSymV(Value):
    def __init__(self, cls, content):
        self.cls, self.content = cls, content

    def subst(self, pairs):
        return NTSymV(self.cls, subst(self.content, pairs))


class NTV(Value):
    def __init__(self, cls, values):
        self.cls, self.values = cls, tuple(values)

    def subst(self, pairs):
        return NTV(self.cls, [subst(v, pairs) for v in self.values])


class OpaqueFn(Value):
    """A caller-supplied pure function, known only by name."""

    def __init__(self, term, name=''):
        self.term = term
        self.name = name


class GenV(Heap):
    def __init__(self, it, name):
        Heap.__init__(self)
        self.it = it
        self.name = name
        self.done = False
        self.collected = None


class DictV(Heap):
    """A dict: concrete store, or symbolic (dom/val/keys)."""

    def __init__(self, store=None, cls=None, sym=None):
        Heap.__init__(self)
        self._store = dict(store or {})
        self.cls = cls
        self._sym = sym
        self.attrs = {}

    @property
    def store(self):
        return self._store

    @property
    def sym(self):
        return self._sym

    def set_store(self, s):
        cur().mutating(self, 'content')
        self._store = s

    def set_sym(self, s):
        cur().mutating(self, 'content')
        self._sym = s


class SymMap(object):
    """Immutable content of a symbolic dict.

    dom(k) -> condition, val(k) -> value, keys: Seq of distinct keys.
    keysort: 'int' or 'obj': keys are Int terms or Opaque objects.
    """

    def __init__(self, dom, val, keys, keysort='int', pos=None, **tags):
        self.dom, self.val, self.keys = dom, val, keys
        self.keysort = keysort
        self.pos = pos
        self.tags = tags


class SetV(Heap):
    """A set: the elements of seq that satisfy pred."""

    def __init__(self, seq, pred=None):
        Heap.__init__(self)
        self.seq = seq
        self.pred = pred or (lambda v: True)


class Frame(object):
    def __init__(self, func, module, parent=None):
        self.func = func
        self.module = module
        self.env = {}
        self.parent = parent
        self.locals = set()
        self.nonlocals = set()
        self.globals_ = set()
        self.depth = 0
        # frames made before a loop have the same number on every path, so
        # that functions recorded on one path can be called on another
        ctx = cur()
        frames = ctx.memo_frames
        self.serial = (len(frames), getattr(func, 'node', None))
        frames.append(self)

    def live(self):
        frames = cur().memo_frames
        n = self.serial[0]
        if n < len(frames) and frames[n].serial == self.serial:
            return frames[n]
        return self


# ------------------------------------------------------------ ast access

_files = {}


def file_ast(fname):
    if fname not in _files:
        with open(fname, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, fname)
        idx = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                line = node.lineno
                if getattr(node, 'decorator_list', None):
                    line = node.decorator_list[0].lineno
                idx.setdefault((line, getattr(node, 'name', '<lambda>')),
                               []).append(node)
        _files[fname] = (tree, idx, src)
    return _files[fname]


def in_repo(real):
    try:
        f = real.__code__.co_filename
    except AttributeError:
        return False
    return os.path.abspath(f).startswith(os.path.abspath(REPO) + os.sep)


def func_node(real):
    code = real.__code__
    tree, idx, src = file_ast(os.path.abspath(code.co_filename))
    nodes = idx.get((code.co_firstlineno, code.co_name))
    if not nodes:
        raise Unsupported('no source for %s' % real)
    if len(nodes) > 1:
        raise Unsupported('ambiguous source for %s' % real)
    return nodes[0]


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                          ast.GeneratorExp)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def assigned_names(stmts):
    """Names bound by these statements in their own scope."""
    out, nl, gl = set(), set(), set()
    st = list(stmts)
    while st:
        n = st.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                          ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        elif isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp,
                            ast.DictComp, ast.GeneratorExp)):
            # walrus inside is not supported; inner names are local
            continue
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Nonlocal):
            nl.update(n.names)
        elif isinstance(n, ast.Global):
            gl.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        st.extend(ast.iter_child_nodes(n))
    return out, nl, gl


PYEXC = Exception


def py_raise(cls, *args):
    raise PyRaise(ExcV(cls, args))


def is_exc_class(v):
    return isinstance(v, type) and issubclass(v, BaseException)


def exc_matches(exc, handler):
    """handler: wrapped class or tuple of them."""
    if isinstance(handler, tuple):
        return any(exc_matches(exc, h) for h in handler)
    hc = handler.real if isinstance(handler, ClassV) else handler
    ec = exc.cls.real if isinstance(exc.cls, ClassV) else exc.cls
    if not isinstance(hc, type):
        raise Unsupported('except clause')
    return issubclass(ec, hc)


MODELS = {}        # 'module.attr' or real object id -> Builtin
TYPECALL = {}      # real class -> fn(interp, args, kwargs)
METHODS = {}       # meta-kind -> {name: fn}


class Interp(object):
    def __init__(self, contracts=None, max_unroll=64):
        self.contracts = contracts or {}    # qualname -> fn(interp, args, kw)
        self.under = set()      # qualnames executed by body at any depth
        self.depth = 0
        self.max_unroll = max_unroll
        self.unroll_lit = 0     # bounded contracts: 'while True' loops
        self.theories = []      # loop theories (see loops.py)
        self.callstack = []
        self.no_contract_once = None
        self.assumed = set()

    # ---------------------------------------------------------- wrapping

    def wrap(self, v):
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            return v
        if isinstance(v, (Value, z3.ExprRef)):
            return v
        ctx = cur()
        key = ('wrap', id(v))
        if key in ctx.memo:
            return ctx.memo[key]
        m = MODELS.get(id(v))
        if m is None and isinstance(v, types.BuiltinFunctionType):
            m = MODELS.get('%s.%s' % (v.__module__, v.__name__))
        if m is not None:
            return m
        if isinstance(v, tuple) and hasattr(v, '_fields'):
            r = NTV(NTClass(type(v).__name__, v._fields),
                    [self.wrap(x) for x in v])
        elif isinstance(v, tuple):
            r = tuple(self.wrap(x) for x in v)
        elif isinstance(v, list):
            r = SeqObj('list', Conc([self.wrap(x) for x in v]))
        elif isinstance(v, range):
            r = SeqObj('list', Conc(list(v)))
        elif isinstance(v, dict):
            r = DictV({k: self.wrap(x) for k, x in v.items()})
        elif isinstance(v, (set, frozenset)):
            r = SetV(Conc([self.wrap(x) for x in sorted(v, key=repr)]))
        elif isinstance(v, types.FunctionType):
            if in_repo(v):
                node = func_node(v)
                r = FuncV(node, sys.modules[v.__module__], v.__name__,
                          tuple(v.__defaults__ or ()),
                          dict(v.__kwdefaults__ or {}), None, None, v)
                if set(v.__code__.co_freevars) - {'__class__'}:
                    raise Unsupported('module-level closure %s' % v)
            else:
                m = MODELS.get('%s.%s' % (v.__module__, v.__qualname__))
                if m is None:
                    return Builtin(v.__qualname__, _unsup(v.__qualname__))
                return m
        elif isinstance(v, types.ModuleType):
            r = ModV(v)
        elif isinstance(v, type):
            if v.__module__.startswith('channelpack') and not \
                    hasattr(v, '_fields'):
                r = ClassV(v)
            elif hasattr(v, '_fields') and issubclass(v, tuple):
                r = NTClass(v.__name__, v._fields)
            else:
                r = v
        elif isinstance(v, types.MethodType):
            r = BoundV(self.wrap(v.__func__), self.wrap(v.__self__))
        else:
            from . import models
            r = models.wrap_special(self, v)
            if r is None:
                if callable(v):
                    return Builtin(repr(v), _unsup(repr(v)))
                raise Unsupported('value %r' % (type(v),))
        ctx.memo[key] = r
        ctx.keep.append(v)
        return r

    def find_func(self, dotted):
        """The FuncV of 'channelpack.mod.name' or '....Class.name'."""
        import importlib
        parts = dotted.split('.')
        for k in range(len(parts) - 1, 0, -1):
            try:
                mod = importlib.import_module('.'.join(parts[:k]))
                break
            except ImportError:
                continue
        else:
            raise Unsupported('no module for %s' % dotted)
        v = mod
        for p in parts[k:]:
            if isinstance(v, type):
                if p not in v.__dict__:
                    for b in v.__mro__:
                        if p in b.__dict__:
                            v = b.__dict__[p]
                            break
                    else:
                        raise Unsupported('%s is gone' % dotted)
                else:
                    v = v.__dict__[p]
            else:
                if not hasattr(v, p):
                    raise Unsupported('%s is gone' % dotted)
                v = getattr(v, p)
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        return self.wrap(v)

    # ---------------------------------------------------------- calling

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        f = self.resolve(f)
        if isinstance(f, Builtin):
            return f.fn(self, list(args), dict(kwargs))
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, list(args), dict(kwargs))
        if isinstance(f, ClassV):
            return self.instantiate(f, list(args), dict(kwargs))
        if isinstance(f, NTClass):
            vals = dict(zip(f.fields, args))
            vals.update(kwargs)
            if len(args) > len(f.fields) or set(vals) != set(f.fields):
                py_raise(TypeError, 'namedtuple arity')
            return NTV(f, [vals[x] for x in f.fields])
        if isinstance(f, NTSym):
            from . import models
            if kwargs or len(args) != 1 or not isinstance(args[0], StarV):
                raise Unsupported('record of a symbolic number of fields')
            return models.nt_make(self, f, args[0].seq)
        if is_exc_class(f):
            return ExcV(f, tuple(args))
        if isinstance(f, type) and f in TYPECALL:
            return TYPECALL[f](self, list(args), dict(kwargs))
        if isinstance(f, OpaqueFn):
            if kwargs or len(args) != 1:
                raise Unsupported('opaque function call')
            fn = z3.Function('apply', Obj, Obj, Obj)
            return Opaque(fn(f.term, to_obj(args[0])), 'any')
        if isinstance(f, InstV):
            m = self.find_attr(f.cls, '__call__')
            if m is not None:
                return self.call(m, [f] + list(args), kwargs)
        if callable(getattr(f, 'call', None)):
            return f.call(self, list(args), dict(kwargs))
        raise Unsupported('call of %r' % (f,))

    def call_func(self, f, args, kwargs):
        q = f.qualname
        c = self.contracts.get(q)
        if c is not None and self.no_contract_once != q:
            cur().ex.used_contracts.add(q)
            r = c(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        if self.no_contract_once == q:
            self.no_contract_once = None
        if self.depth > 40:
            raise Unsupported('recursion depth')
        cur().ex.inlined.add(q)
        fr = Frame(f, f.module, f.closure and f.closure.live())
        node = f.node
        if isinstance(node, ast.Lambda):
            fr.locals = set()
        else:
            loc, nl, gl = assigned_names(node.body)
            fr.locals = loc - nl - gl
            fr.nonlocals, fr.globals_ = nl, gl
        self.bind_args(f, node.args, args, kwargs, fr)
        if isinstance(node, ast.Lambda):
            self.depth += 1
            try:
                return self.eval(node.body, fr)
            finally:
                self.depth -= 1
        if is_generator(node):
            return GenV(self.run_body(node, fr), f.name)
        self.depth += 1
        self.callstack.append(f.name)
        try:
            for _ in self.exec_block(node.body, fr):
                raise Unsupported('yield outside a generator')
            return None
        except ReturnEx as r:
            return r.value
        finally:
            self.depth -= 1
            self.callstack.pop()

    def run_body(self, node, fr):
        try:
            for v in self.exec_block(node.body, fr):
                yield v
        except ReturnEx:
            return

    def bind_args(self, f, a, args, kwargs, fr):
        names = [x.arg for x in a.posonlyargs + a.args]
        fr.locals |= set(names) | {x.arg for x in a.kwonlyargs}
        env = fr.env
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                py_raise(TypeError, 'too many positional arguments')
        for n, v in zip(names, args):
            env[n] = v
        rest = args[len(names):]
        if a.vararg is not None:
            fr.locals.add(a.vararg.arg)
            env[a.vararg.arg] = tuple(rest)
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                if k in env:
                    py_raise(TypeError, 'multiple values for argument')
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                py_raise(TypeError, 'unexpected keyword argument')
        if a.kwarg is not None:
            fr.locals.add(a.kwarg.arg)
            env[a.kwarg.arg] = DictV(extra)
        d = f.defaults
        for n, v in zip(names[len(names) - len(d):], d):
            if n not in env:
                env[n] = self.wrap(v)
        for n in kwonly:
            if n not in env:
                if n in f.kwdefaults:
                    env[n] = self.wrap(f.kwdefaults[n])
        for n in names + kwonly:
            if n not in env:
                py_raise(TypeError, 'missing argument ' + n)

    def instantiate(self, c, args, kwargs):
        real = c.real
        if issubclass(real, BaseException):
            return ExcV(c, tuple(args))
        con = self.contracts.get('new:' + real.__module__ + '.' +
                                 real.__qualname__)
        if con is not None:
            r = con(self, c, args, kwargs)
            if r is not NotImplemented:
                return r
        if issubclass(real, dict):
            o = DictV({}, cls=c)
        elif issubclass(real, (tuple, list, str, int)):
            raise Unsupported('instance of %s' % real)
        else:
            o = InstV(c)
        init = self.find_attr(c, '__init__')
        if isinstance(init, FuncV):
            self.call(init, [o] + args, kwargs)
        elif issubclass(real, dict):
            from . import models
            models.dict_update(self, [o] + args, kwargs)
        elif args or kwargs:
            py_raise(TypeError, 'takes no arguments')
        return o

    # ---------------------------------------------------------- attributes

    def find_attr(self, cls, name):
        """Class attribute lookup through the real MRO; None if absent."""
        real = cls.real if isinstance(cls, ClassV) else cls
        return self._find_in(real.__mro__, name)

    def _find_in(self, mro, name):
        for k in mro:
            if name in k.__dict__:
                a = k.__dict__[name]
                if isinstance(a, types.FunctionType):
                    w = self.wrap(a)
                    if isinstance(w, FuncV):
                        w = FuncV(w.node, w.module, w.name, w.defaults,
                                  w.kwdefaults, None, k, a)
                    return w
                if isinstance(a, staticmethod):
                    return ('static', self.wrap(a.__func__))
                if isinstance(a, classmethod):
                    return ('class', self.wrap(a.__func__), k)
                if isinstance(a, property):
                    return ('prop', a)
                if k is object or k.__module__ == 'builtins':
                    return ('builtin', k, name)
                return ('const', a)
        return None

    def builtin_method(self, k, name, obj):
        from . import models
        m = models.BMETHODS.get((k, name))
        if m is None and k is object and name == '__init__':
            return Builtin('object.__init__', lambda it, a, kw: None)
        if m is None:
            raise Unsupported('method %s.%s' % (k.__name__, name))
        return Builtin(name, lambda it, a, kw: m(it, [obj] + a, kw))

    def bind_found(self, found, obj, cls):
        if isinstance(found, FuncV):
            return BoundV(found, obj)
        if isinstance(found, tuple):
            if found[0] == 'static':
                return found[1]
            if found[0] == 'class':
                return BoundV(found[1], cls)
            if found[0] == 'prop':
                return self.call(self.wrap(found[1].fget), [obj])
            if found[0] == 'builtin':
                return self.builtin_method(found[1], found[2], obj)
            if found[0] == 'const':
                return self.wrap(found[1])
        return found

    def getattr(self, o, name):
        from . import models
        o = self.resolve(o)
        if isinstance(o, (InstV, DictV)) and o.cls is not None:
            if name in o.attrs:
                return o.attrs[name]
            if name == '__class__':
                return o.cls
            real = o.cls.real if isinstance(o.cls, ClassV) else o.cls
            if not isinstance(real, type):
                h = getattr(o.cls, 'getattr', None)
                if h is not None:
                    return h(self, o, name)
                py_raise(AttributeError, name)
            found = self.find_attr(o.cls, name)
            if found is not None:
                return self.bind_found(found, o, o.cls)
            py_raise(AttributeError, name)
        if isinstance(o, SuperV):
            mro = (o.obj.cls.real).__mro__
            k = mro.index(o.cls)
            found = self._find_in(mro[k + 1:], name)
            if found is None:
                py_raise(AttributeError, name)
            return self.bind_found(found, o.obj, o.obj.cls)
        if isinstance(o, ClassV):
            found = self.find_attr(o, name)
            if name == '__name__':
                return o.name
            if found is None:
                py_raise(AttributeError, name)
            if isinstance(found, tuple) and found[0] == 'builtin':
                from . import models as m
                return m.unbound_builtin(found[1], name)
            if isinstance(found, tuple) and found[0] == 'class':
                return BoundV(found[1], o)
            if isinstance(found, tuple) and found[0] in ('static',):
                return found[1]
            if isinstance(found, tuple) and found[0] == 'const':
                return self.wrap(found[1])
            return found
        if isinstance(o, ModV):
            full = '%s.%s' % (o.real.__name__, name)
            if full in MODELS:
                return MODELS[full]
            if not hasattr(o.real, name):
                py_raise(AttributeError, name)
            return self.wrap(getattr(o.real, name))
        if isinstance(o, NTV):
            if name in o.cls.fields:
                return o.values[o.cls.fields.index(name)]
        if isinstance(o, SliceV) and name in ('start', 'stop', 'step'):
            return getattr(o, name)
        r = models.getattr_model(self, o, name)
        if r is not None:
            return r[0]
        raise Unsupported('attribute %s of %r' % (name, o))

    def setattr(self, o, name, value):
        o = self.resolve(o)
        if isinstance(o, (InstV, DictV)) and isinstance(o.cls, ClassV):
            sa = self.find_attr(o.cls, '__setattr__')
            if isinstance(sa, FuncV):
                self.call(sa, [o, name, value])
                return
            self.raw_setattr(o, name, value)
            return
        if isinstance(o, InstV):
            h = getattr(o.cls, 'setattr', None)
            if h is not None:
                return h(self, o, name, value)
            return self.raw_setattr(o, name, value)
        raise Unsupported('setattr on %r' % (o,))

    def raw_setattr(self, o, name, value):
        cur().mutating(o, name)
        o.attrs[name] = value

    # ---------------------------------------------------------- names

    def lookup(self, name, fr):
        f = fr
        if name in fr.globals_:
            f = None
        while f is not None:
            if name in f.env:
                v = f.env[name]
                if isinstance(v, HV):
                    v = self.materialize(v)
                    f.env[name] = v
                if v is UNBOUND:
                    py_raise(UnboundLocalError, name)
                return v
            if name in f.locals and f is fr:
                py_raise(UnboundLocalError, name)
            if name in f.locals:
                py_raise(NameError, name)
            f = f.parent
        g = fr.module.__dict__
        if name in g:
            key = '%s.%s' % (fr.module.__name__, name)
            if key in MODELS:
                return MODELS[key]
            return self.wrap(g[name])
        return self.builtin(name)

    def builtin(self, name):
        key = 'builtins.' + name
        if key in MODELS:
            return MODELS[key]
        if hasattr(_pybuiltins, name):
            v = getattr(_pybuiltins, name)
            if isinstance(v, type):
                return v
            return Builtin(name, _unsup(name))
        py_raise(NameError, name)

    def materialize(self, v):
        """Choose the alternative of a havocked variable on this path."""
        ctx = cur()
        for k in range(len(v.alts) - 1):
            if ctx.branch(v.tag == k):
                return v.alts[k]
        ctx.assume(v.tag == len(v.alts) - 1)
        return v.alts[-1]

    def resolve(self, v):
        while True:
            if isinstance(v, HV):
                v = self.materialize(v)
            elif isinstance(v, Pieces):
                ctx = cur()
                for c, x in v.alts[:-1]:
                    if ctx.branch(c):
                        v = x
                        break
                else:
                    c, x = v.alts[-1]
                    ctx.assume(c)
                    v = x
            elif isinstance(v, Junk):
                raise Unsupported('use of an unknown value: ' + v.why)
            else:
                return v

    def store_name(self, name, v, fr):
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in f.env:
                f = f.parent
            if f is None:
                raise Unsupported('nonlocal ' + name)
            f.env[name] = v
        elif name in fr.globals_:
            # module globals as hidden state: out of the subset
            raise Unsupported('assignment to global ' + name)
        else:
            fr.env[name] = v

    # ---------------------------------------------------------- statements

    def exec_block(self, stmts, fr):
        for s in stmts:
            m = getattr(self, 'x_' + type(s).__name__, None)
            if m is None:
                raise Unsupported('statement %s' % type(s).__name__)
            r = m(s, fr)
            if r is not None:
                for y in r:
                    yield y

    def x_Pass(self, s, fr):
        return None

    def x_Expr(self, s, fr):
        v = s.value
        if isinstance(v, ast.Yield):
            return self._yield(v, fr)
        if isinstance(v, ast.YieldFrom):
            return self._yield_from(v, fr)
        if isinstance(v, ast.Constant):
            return None
        self.eval(v, fr)
        return None

    def _yield(self, v, fr):
        yield self.eval(v.value, fr) if v.value is not None else None

    def _yield_from(self, v, fr):
        src = self.eval(v.value, fr)
        seq = self.iter_seq(src)
        if isinstance(seq.n, int):
            for k in range(seq.n):
                yield seq.at(k)
        else:
            yield YieldAll(seq)

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)
        return None

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr)
            v = self.binop(s.op, old, self.eval(s.value, fr), inplace=True)
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            old = self.getattr(o, t.attr)
            v = self.binop(s.op, old, self.eval(s.value, fr), inplace=True)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval_index(t.slice, fr)
            old = self.getitem(o, i)
            v = self.binop(s.op, old, self.eval(s.value, fr), inplace=True)
            self.setitem(o, i, v)
        else:
            raise Unsupported('augmented target')

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported('starred target')
            vs = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vs):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval_index(t.slice, fr), v)
        else:
            raise Unsupported('target %s' % type(t).__name__)

    def unpack(self, v, n):
        v = self.resolve(v)
        seq = self.iter_seq(v)
        if isinstance(seq.n, int):
            if seq.n != n:
                py_raise(ValueError, 'unpack arity')
        else:
            if not cur().branch(seq.n == n):
                py_raise(ValueError, 'unpack arity')
        return [seq.at(k) for k in range(n)]

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.lookup(t.id, fr)
                fr.env[t.id] = UNBOUND
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, fr),
                             self.eval_index(t.slice, fr))
            else:
                raise Unsupported('del')

    def x_Return(self, s, fr):
        raise ReturnEx(None if s.value is None else self.eval(s.value, fr))

    def x_Break(self, s, fr):
        raise BreakEx()

    def x_Continue(self, s, fr):
        raise ContinueEx()

    def x_If(self, s, fr):
        if self.truth_branch(self.eval(s.test, fr)):
            return self.exec_block(s.body, fr)
        return self.exec_block(s.orelse, fr)

    def x_Assert(self, s, fr):
        if not self.truth_branch(self.eval(s.test, fr)):
            py_raise(AssertionError)

    def x_Raise(self, s, fr):
        if s.exc is None:
            if not getattr(fr, 'handling', None):
                raise Unsupported('bare raise')
            raise PyRaise(fr.handling[-1])
        v = self.eval(s.exc, fr)
        if is_exc_class(v) or isinstance(v, ClassV):
            v = self.call(v, [])
        if not isinstance(v, ExcV):
            raise Unsupported('raise of %r' % (v,))
        raise PyRaise(v)

    def x_Try(self, s, fr):
        pend = None
        try:
            try:
                for y in self.exec_block(s.body, fr):
                    yield y
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or exc_matches(
                            e.exc, self.eval(h.type, fr)):
                        if h.name:
                            fr.env[h.name] = e.exc
                        if not hasattr(fr, 'handling'):
                            fr.handling = []
                        fr.handling.append(e.exc)
                        try:
                            for y in self.exec_block(h.body, fr):
                                yield y
                        finally:
                            fr.handling.pop()
                        break
                else:
                    raise
            else:
                for y in self.exec_block(s.orelse, fr):
                    yield y
        except (PyRaise, ReturnEx, BreakEx, ContinueEx) as e:
            pend = e
        for y in self.exec_block(s.finalbody, fr):
            yield y
        if pend is not None:
            raise pend

    def x_With(self, s, fr):
        if len(s.items) > 1:
            inner = ast.With(items=s.items[1:], body=s.body)
            ast.copy_location(inner, s)
            body = [inner]
        else:
            body = s.body
        item = s.items[0]
        mgr = self.eval(item.context_expr, fr)
        v = self.call(self.getattr(mgr, '__enter__'), [])
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, fr)
        pend = None
        try:
            for y in self.exec_block(body, fr):
                yield y
        except PyRaise as e:
            r = self.call(self.getattr(mgr, '__exit__'),
                          [e.exc.cls, e.exc, None])
            if not self.truth_branch(r):
                raise
            return
        except (ReturnEx, BreakEx, ContinueEx) as e:
            pend = e
        self.call(self.getattr(mgr, '__exit__'), [None, None, None])
        if pend is not None:
            raise pend

    def x_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Unsupported('decorated local function')
        d = tuple(self.eval(x, fr) for x in s.args.defaults)
        kd = {a.arg: self.eval(x, fr) for a, x in
              zip(s.args.kwonlyargs, s.args.kw_defaults) if x is not None}
        fr.env[s.name] = FuncV(s, fr.module, s.name, d, kd, fr)

    def x_Global(self, s, fr):
        return None

    def x_Nonlocal(self, s, fr):
        return None

    def x_Import(self, s, fr):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname:
                fr.env[a.asname] = self.wrap(m)
            else:
                fr.env[a.name.split('.')[0]] = self.wrap(
                    sys.modules[a.name.split('.')[0]])

    def x_ImportFrom(self, s, fr):
        import importlib
        if s.level:
            base = fr.module.__package__
            m = importlib.import_module('.' * s.level + (s.module or ''),
                                        base)
        else:
            m = importlib.import_module(s.module)
        for a in s.names:
            fr.env[a.asname or a.name] = self.getattr(ModV(m), a.name)

    def x_For(self, s, fr):
        from . import loops
        it = self.eval(s.iter, fr)
        it = self.resolve(it)
        seq = self.iter_seq(it)
        if isinstance(seq.n, int):
            if seq.n > self.max_unroll * 64:
                raise Unsupported('unroll of %d' % seq.n)
            return self._for_concrete(s, seq, fr)
        return loops.sym_for(self, s, seq, fr)

    def _for_concrete(self, s, seq, fr):
        for k in range(seq.n):
            self.assign(s.target, seq.at(k), fr)
            try:
                for y in self.exec_block(s.body, fr):
                    yield y
            except ContinueEx:
                continue
            except BreakEx:
                return
        for y in self.exec_block(s.orelse, fr):
            yield y

    def x_While(self, s, fr):
        from . import loops
        return loops.sym_while(self, s, fr)

    # ---------------------------------------------------------- expressions

    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        if e.value is Ellipsis or isinstance(e.value, complex):
            raise Unsupported('constant')
        return e.value

    def e_Name(self, e, fr):
        return self.resolve(self.lookup(e.id, fr))

    def e_Attribute(self, e, fr):
        return self.resolve(self.getattr(self.eval(e.value, fr), e.attr))

    def e_Tuple(self, e, fr):
        return tuple(self._elts(e.elts, fr))

    def e_List(self, e, fr):
        return SeqObj('list', Conc(self._elts(e.elts, fr)))

    def e_Set(self, e, fr):
        return SetV(Conc(self._elts(e.elts, fr)))

    def _elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                q = self.iter_seq(self.eval(x.value, fr))
                if not isinstance(q.n, int):
                    raise Unsupported('starred symbolic')
                out.extend(q.at(k) for k in range(q.n))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        from . import models
        d = DictV({})
        for k, v in zip(e.keys, e.values):
            if k is None:
                models.dict_update(self, [d, self.eval(v, fr)], {})
                continue
            kk = self.eval(k, fr)
            self.setitem(d, kk, self.eval(v, fr))
        return d

    def e_JoinedStr(self, e, fr):
        parts = []
        conc = True
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.eval(p.value, fr)
                if p.format_spec is not None or p.conversion not in (-1, 115,
                                                                     114):
                    conc = False
                elif isinstance(v, (str, int)) and not isinstance(v, bool) \
                        and p.conversion != 114:
                    parts.append(str(v))
                else:
                    conc = False
                    parts.append(v)
        if conc:
            return ''.join(parts)
        from . import models
        if all(p.format_spec is None and p.conversion in (-1, 115)
               for p in e.values if not isinstance(p, ast.Constant)):
            r = models.cat_texts(self, parts)
            if r is not None:
                return r
        return models.opaque_format(self, 'fstring', parts)

    def e_IfExp(self, e, fr):
        if self.truth_branch(self.eval(e.test, fr)):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for k, x in enumerate(e.values):
            v = self.eval(x, fr)
            if k == len(e.values) - 1:
                return v
            t = self.truth(v)
            if is_bool(v) and is_z3(v):
                # stay symbolic when the rest is a plain condition
                rest = e.values[k + 1:]
                r = self.try_pure_bool(rest, e.op, fr)
                if r is not None:
                    return zand(v, r) if isand else zor(v, r)
            b = cur().branch(t)
            if isand and not b:
                return self.falsy(v)
            if not isand and b:
                return v
        return v

    def falsy(self, v):
        if is_bool(v):
            return False
        if is_int(v):
            return 0
        return v

    def try_pure_bool(self, rest, op, fr):
        """Evaluate simple comparisons without forking (no side effects)."""
        for x in rest:
            for n in ast.walk(x):
                if not isinstance(n, (ast.Compare, ast.Name, ast.Constant,
                                      ast.BoolOp, ast.UnaryOp, ast.And,
                                      ast.Or, ast.Not, ast.Load, ast.cmpop,
                                      ast.USub)):
                    return None
                if isinstance(n, ast.Name):
                    v = fr.env.get(n.id)
                    if v is None or not is_num(v):
                        return None
                if isinstance(n, ast.Compare) and any(isinstance(
                        o, (ast.In, ast.NotIn, ast.Is, ast.IsNot))
                        for o in n.ops):
                    return None
            if isinstance(x, ast.Constant) and not isinstance(x.value, bool):
                return None
        vs = [self.eval(x, fr) for x in rest]
        if not all(is_bool(v) for v in vs):
            return None
        return zand(*vs) if isinstance(op, ast.And) else zor(*vs)

    def e_UnaryOp(self, e, fr):
        v = self.resolve(self.eval(e.operand, fr))
        if isinstance(e.op, ast.Not):
            return znot(self.truth(v))
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if is_num(v):
                return -self.num(v)
        if isinstance(e.op, ast.UAdd) and is_num(v):
            return self.num(v)
        if isinstance(e.op, ast.Invert):
            from . import models
            if isinstance(v, int):
                return ~v
            if isinstance(v, SeqObj) and v.kind == 'ndarray':
                return models.arr_map(self, v, lambda x: znot(self.truth(x)),
                                      'b')
            if is_int(v):
                return -v - 1
        raise Unsupported('unary operator')

    def num(self, v):
        """bool -> int, otherwise unchanged."""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        return self.binop(e.op, a, self.eval(e.right, fr))

    def binop(self, op, a, b, inplace=False):
        from . import models
        return models.binop(self, op, self.resolve(a), self.resolve(b),
                            inplace)

    def e_Compare(self, e, fr):
        a = self.eval(e.left, fr)
        res = True
        for op, r in zip(e.ops, e.comparators):
            b = self.eval(r, fr)
            c = self.compare(op, a, b)
            if len(e.ops) == 1:
                return c
            c = self.truth(c)
            if c is False:
                return False
            res = zand(res, c)
            a = b
        return res

    def compare(self, op, a, b):
        from . import models
        return models.compare(self, op, self.resolve(a), self.resolve(b))

    def eq(self, a, b):
        from . import models
        return models.eq(self, self.resolve(a), self.resolve(b))

    def e_Call(self, e, fr):
        f = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                q = self.iter_seq(v)
                if isinstance(q.n, int):
                    args.extend(q.at(k) for k in range(q.n))
                else:
                    args.append(StarV(q))
            elif isinstance(a, ast.GeneratorExp):
                args.append(self.e_ListComp(a, fr))
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                v = self.resolve(v)
                if not isinstance(v, DictV) or v.sym is not None:
                    if isinstance(v, DictV) and hasattr(v, 'kwsym'):
                        kwargs['**'] = v
                        continue
                    raise Unsupported('** of a symbolic dict')
                for kk, vv in v.store.items():
                    if not isinstance(kk, str):
                        py_raise(TypeError, 'keywords must be strings')
                    if kk in kwargs:
                        py_raise(TypeError, 'multiple values')
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = v
        # super() without arguments
        if f is super or (isinstance(f, type) and f is super):
            return self.make_super(args, fr)
        if isinstance(f, Builtin) and f.name == 'locals':
            raise Unsupported('locals()')
        return self.call(f, args, kwargs)

    def make_super(self, args, fr):
        if args:
            return SuperV(args[0].real, args[1])
        f = fr
        while f is not None and (f.func is None or f.func.owner is None):
            f = f.parent
        if f is None:
            raise Unsupported('super()')
        first = f.func.node.args.args[0].arg
        return SuperV(f.func.owner, f.env[first])

    def e_Lambda(self, e, fr):
        d = tuple(self.eval(x, fr) for x in e.args.defaults)
        return FuncV(e, fr.module, '<lambda>', d, {}, fr)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.resolve(self.getitem(o, self.eval_index(e.slice, fr)))

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return SliceV(*[None if x is None else self.eval(x, fr)
                            for x in (s.lower, s.upper, s.step)])
        return self.eval(s, fr)

    def e_Slice(self, e, fr):
        return self.eval_index(e, fr)

    def getitem(self, o, i):
        from . import models
        return models.getitem(self, self.resolve(o), self.resolve(i))

    def setitem(self, o, i, v):
        from . import models
        o = self.resolve(o)
        return models.setitem(self, o, self.resolve(i), v)

    def delitem(self, o, i):
        from . import models
        return models.delitem(self, self.resolve(o), self.resolve(i))

    def e_Yield(self, e, fr):
        raise Unsupported('yield as an expression')

    # -- comprehensions

    def e_ListComp(self, e, fr):
        return SeqObj('list', self.comp(e, fr))

    def e_GeneratorExp(self, e, fr):
        return SeqObj('list', self.comp(e, fr))

    def e_SetComp(self, e, fr):
        return SetV(self.comp(e, fr))

    def e_DictComp(self, e, fr):
        from . import models
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        le = ast.ListComp(elt=pair, generators=e.generators)
        ast.copy_location(pair, e)
        ast.copy_location(le, e)
        c = self.comp(le, fr)
        if isinstance(c.n, int):
            d = DictV({})
            for k in range(c.n):
                kk, vv = self.unpack(c.at(k), 2)
                self.setitem(d, kk, vv)
            return d
        return models.dict_from_pairs(self, c)

    def comp(self, e, fr):
        return self._comp(e, e.generators, fr)

    def comp_frame(self, fr):
        f = Frame(fr.func, fr.module, fr)
        f.globals_ = set()
        return f

    def _comp(self, e, gens, fr, inner=None):
        g = gens[0]
        seq = self.iter_seq(self.eval(g.iter, fr))
        f = self.comp_frame(fr)
        f.locals = assigned_names([g.target])[0]
        if isinstance(seq.n, int):
            out = []
            for k in range(seq.n):
                self.assign(g.target, seq.at(k), f)
                if all(self.truth_branch(self.eval(c, f)) for c in g.ifs):
                    if len(gens) > 1:
                        sub = self._comp(e, gens[1:], f)
                        if not isinstance(sub.n, int):
                            raise Unsupported('nested comprehension')
                        out.extend(sub.at(j) for j in range(sub.n))
                    else:
                        out.append(self.eval(e.elt, f))
            return Conc(out)
        if len(gens) > 1:
            raise Unsupported('nested comprehension')

        def body(el):
            self.assign(g.target, el, f)
            for c in g.ifs:
                if not self.truth_branch(self.eval(c, f)):
                    return SKIP
            return self.eval(e.elt, f)
        try:
            return self.generic_map(seq, body, bool(g.ifs))
        except Effect:
            if cur().sub is not None:
                raise
        return self.comp_loop(e, g, seq, f)

    def comp_loop(self, e, g, seq, f):
        """A comprehension with effects: the loop it stands for."""
        from . import loops
        node = getattr(e, '_as_loop', None)
        if node is None:
            call = ast.Expr(ast.Call(ast.Attribute(ast.Name(
                '.acc', ast.Load()), 'append', ast.Load()), [e.elt], []))
            body = [call]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            node = ast.For(g.target, g.iter, body, [])
            ast.copy_location(node, e)
            ast.fix_missing_locations(node)
            e._as_loop = node
        f.locals = set(f.locals) | {'.acc'}
        acc = f.env['.acc'] = SeqObj('list', Conc([]))
        for y in loops.sym_for(self, node, seq, f):
            raise Unsupported('yield in a comprehension')
        return f.env['.acc'].content

    def generic_map(self, seq, body, filt=False):
        """The sequence body(x) for x in seq, skipping SKIP results."""
        ctx = cur()
        from .loops import concat, peeled
        p = peeled(seq)
        if p is not None and not isinstance(p[1].n, int):
            hs = [body(p[0].at(j)) for j in range(p[0].n)]
            rest = self.generic_map(p[1], body, filt)
            return concat(self, Conc([h for h in hs if h is not SKIP]), rest)
        k = z3.FreshConst(I, 'k')
        self.note_index(k)
        base = [k >= 0, k < seq.n]

        def thunk():
            for c in base:
                ctx.fact(c)
            return body(seq.at(k))
        ps = ctx.pieces(thunk, k)
        raises = [p for p in ps if p[2] == 'raise']
        vals = [p for p in ps if p[2] == 'val']
        if raises:
            # either some element raises, or none does
            opts = ['ok'] + ['raise%d' % j for j in range(len(raises))]
            d = ctx.decide(opts)
            if d != 'ok':
                conds, defs, _, exc = raises[int(d[5:])]
                w = ctx.fresh('rx', I)
                pr = [(k, w)]
                ctx.assume(zand(w >= 0, w < seq.n))
                for c in defs:
                    ctx.assume(subst(zbool(c), pr))
                for c in conds:
                    ctx.assume(subst(zbool(c), pr))
                if ctx.check() == z3.unsat:
                    raise PathEnd()
                raise PyRaise(exc)
            for conds, defs, _, exc in raises:
                bad = zand(*[zbool(c) for c in conds + defs])
                ctx.assume(z3.ForAll([k], znot(zbool(bad))))
        keep = [p for p in vals if p[3] is not SKIP]
        skip = [p for p in vals if p[3] is SKIP]
        m = PieceSeq(self, keep, k, base, seq.n)
        if not skip:
            if not keep:
                # no element can be produced: empty or impossible
                ctx.assume(seq.n == 0)
                return Conc([])
            return Sym(seq.n, m.at, piece=m, src=seq)
        if not keep:
            return Conc([])
        cond = kept(m, keep, skip, seq.n)
        fs = filter_seq(self, seq.n, k, zbool(cond))
        return Sym(fs.cnt_n, lambda j: m.at(fs.sel(j)), filt=fs, piece=m,
                   src=seq)

    def note_index(self, k):
        pass

    # ---------------------------------------------------------- iteration

    def iter_seq(self, v):
        from . import models
        return models.iter_seq(self, self.resolve(v))

    # ---------------------------------------------------------- truth

    def truth(self, v):
        from . import models
        return models.truth(self, self.resolve(v))

    def truth_branch(self, v):
        return cur().branch(self.truth(v))


class StarV(Value):
    """*seq argument of symbolic length."""

    def __init__(self, seq):
        self.seq = seq


class YieldAll(Value):
    def __init__(self, seq):
        self.seq = seq


class _Skip(Value):
    pass


SKIP = _Skip()


def _unsup(name):
    def f(interp, args, kwargs):
        raise Unsupported('no model of %s' % name)
    return f


def kept(ps, keep, skip, n):
    """The condition under which an element is kept: one of the paths that
    keep it is taken, or none of those that skip it (simpler if the paths
    that keep it have further conditions)."""
    a = zor(*[zand(*[zbool(c) for c in p[0]]) for p in keep])
    b = znot(zor(*[zand(*[zbool(c) for c in p[0]]) for p in skip]))
    if isinstance(a, bool) or isinstance(b, bool) or \
            len(a.sexpr()) <= 2 * len(b.sexpr()):
        return a
    ps.total = (n, zor(a, znot(b)))
    return b


class PieceSeq(object):
    """Element function given by pieces over a generic index."""

    def __init__(self, interp, pieces, k, base, n):
        self.pieces = pieces
        self.k, self.n = k, n
        self.base = base
        self.total = None

    def at(self, j):
        ctx = cur()
        pr = [(self.k, to_z3(j))]
        ps = self.pieces
        if not ps:
            raise PathEnd()
        if self.total is not None:
            # every element took one of the paths
            n, c = self.total
            ctx.fact(z3.Implies(z3.And(to_z3(j) >= 0, to_z3(j) < to_z3(n)),
                                subst(zbool(c), pr)))
        # what is known of an element is known of those there are
        rng = z3.simplify(z3.And(to_z3(j) >= 0, to_z3(j) < to_z3(self.n)))
        if len(ps) == 1:
            conds, defs, _, v = ps[0]
            for d in defs:
                d = zbool(d)
                if d.get_id() in ctx.universal:
                    ctx.fact(subst(d, pr), universal=True)
                elif not any(d.eq(b) for b in self.base):
                    ctx.fact(zbool(zimp(rng, subst(d, pr))))
            return subst(v, pr)
        alts = []
        for conds, defs, _, v in ps:
            c = zand(*[subst(zbool(x), pr) for x in conds])
            for d in defs:
                d = zbool(d)
                if d.get_id() in ctx.universal:
                    ctx.fact(subst(d, pr), universal=True)
                elif not any(d.eq(b) for b in self.base):
                    ctx.fact(zbool(zimp(zand(rng, c), subst(d, pr))))
            alts.append((c, subst(v, pr)))
        sorts = [sort_of(v) for _, v in alts]
        if sorts[0] is not None and all(s == sorts[0] for s in sorts):
            r = to_z3(alts[-1][1])
            for c, v in reversed(alts[:-1]):
                r = z3.If(zbool(c), to_z3(v), r)
            return from_z3(r, alts[0][1])
        if all(s is not None for s in sorts):
            r = to_obj(alts[-1][1])
            for c, v in reversed(alts[:-1]):
                r = z3.If(zbool(c), to_obj(v), r)
            return Opaque(r, 'any')
        return Pieces(alts)


class FilterSeq(object):
    """Positions i < n with cond(i), in order: cnt/sel with fold axioms."""

    def __init__(self, n, k, cond):
        ctx = cur()
        self.n, self.k, self.cond = n, k, cond
        self._cnt = ctx.fresh_fn('cnt', [I], I)
        self._sel = ctx.fresh_fn('sel', [I], I)
        c, s = self._cnt, self._sel
        i = z3.FreshConst(I, 'i')
        j = z3.FreshConst(I, 'j')
        nn = to_z3(n)
        ctx.fact(c(0) == 0)
        ctx.fact(z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i < nn),
            c(i + 1) == c(i) + z3.If(self.at(i), 1, 0)),
            patterns=[c(i + 1)]))
        ctx.fact(z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i < nn, self.at(i)),
            z3.And(s(c(i)) == i, c(i) < c(nn))), patterns=[c(i)]))
        ctx.fact(z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i <= nn), z3.And(c(i) >= 0, c(i) <= i,
                                            c(i) <= c(nn))),
            patterns=[c(i)]))
        ctx.fact(z3.ForAll([j], z3.Implies(
            z3.And(j >= 0, j < c(nn)),
            z3.And(s(j) >= 0, s(j) < nn, self.at(s(j)), c(s(j)) == j,
                   s(j) >= j)),
            patterns=[s(j)]))
        ctx.fact(z3.ForAll([i, j], z3.Implies(
            z3.And(i >= 0, i < j, j < c(nn)), s(i) < s(j)),
            patterns=[z3.MultiPattern(s(i), s(j))]))
        self.cnt_n = c(nn)

    def at(self, i):
        return z3.substitute(self.cond, (self.k, i if is_z3(i)
                                         else z3.IntVal(i)))

    def unfold(self, i):
        """The defining equation of cnt at i (0 <= i < n)."""
        i = i if is_z3(i) else z3.IntVal(i)
        return z3.Implies(z3.And(i >= 0, i < to_z3(self.n)),
                          self._cnt(i + 1) == self._cnt(i) +
                          z3.If(self.at(i), 1, 0))

    def cnt(self, i):
        return self._cnt(i if is_z3(i) else z3.IntVal(i))

    def sel(self, j):
        return self._sel(j if is_z3(j) else z3.IntVal(j))


class FilterPrefix(FilterSeq):
    """A FilterSeq cut to its first n positions: same cnt and sel."""

    def __init__(self, fs, n):
        ctx = cur()
        self.n, self.k, self.cond = n, fs.k, fs.cond
        self._cnt, self._sel = fs._cnt, fs._sel
        c, s = fs._cnt, fs._sel
        nn = to_z3(n)
        i, j = z3.FreshConst(I, 'i'), z3.FreshConst(I, 'j')
        # counting is monotone and sel inverts it
        ctx.fact(z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i <= nn), c(i) <= c(nn)), patterns=[c(i)]))
        ctx.fact(z3.ForAll([j], z3.Implies(
            z3.And(j >= 0, j < c(nn)), s(j) < nn), patterns=[s(j)]))
        self.cnt_n = c(nn)


def _mentions(t, k):
    return not z3.substitute(t, (k, z3.FreshConst(I, 'k'))).eq(t)


def _bound_of(c, k):
    """b where c says k < b, and b does not depend on k."""
    neg = False
    if z3.is_not(c):
        c, neg = c.arg(0), True
    if not z3.is_app(c) or c.num_args() != 2:
        return None
    x, y = c.arg(0), c.arg(1)
    if not (x.sort() == I and y.sort() == I):
        return None
    op = c.decl().kind()
    if neg:
        op = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LT,
              z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GT: z3.Z3_OP_LE}.get(op)
    if op in (z3.Z3_OP_GT, z3.Z3_OP_GE):
        x, y = y, x
        op = {z3.Z3_OP_GT: z3.Z3_OP_LT, z3.Z3_OP_GE: z3.Z3_OP_LE}[op]
    if x.eq(k) and not _mentions(y, k) and op in (z3.Z3_OP_LT, z3.Z3_OP_LE):
        return y if op == z3.Z3_OP_LT else z3.simplify(y + 1)
    return None


def cut_filter(n, k, cond):
    """Positions below n with cond and k < b: those below b, if b <= n."""
    ctx = cur()
    todo, left = [z3.simplify(cond)], []
    while todo:
        c = todo.pop(0)
        if z3.is_and(c):
            todo = list(c.children()) + todo
        else:
            left.append(c)
    out = []
    if not any(_bound_of(c, k) is not None for c in left):
        return n, cond
    for c in left:
        b = _bound_of(c, k)
        if b is not None:
            if ctx.entails(to_z3(n) <= b):
                continue
            if ctx.entails(z3.And(b <= to_z3(n), b >= 0)):
                n = b
                continue
        elif not z3.is_quantifier(c) and ctx.entails(z3.ForAll(
                [k], z3.Implies(k >= 0, c))) and _mentions(c, k) and \
                z3.is_app(c) and c.num_args() == 2:
            continue
        out.append(c)
    if len(out) == len(left):
        return n, cond
    return n, z3.And(*out) if out else z3.BoolVal(True)


def known_filter(n, key):
    """The FilterSeq made before for the same condition and length."""
    ctx = cur()
    reg = ctx.memo.setdefault('filters', [])
    canon = z3.Const('canon!k', I)
    for (n0, key0, fs) in reg:
        if key0.eq(key) and (n0 is n or (is_z3(n0) and is_z3(n) and
                                         n0.eq(n)) or n0 == n is True):
            return fs
    for (n0, key0, fs) in reg:
        # semantic equality of conditions
        q = z3.ForAll([canon], z3.Implies(
            z3.And(canon >= 0, canon < to_z3(n)), key0 == key))
        if ctx.entails(zbool(to_z3(n0) == to_z3(n)), RL_SAME):
            if ctx.entails(q, RL_SAME):
                return fs
        elif not ctx.entails(to_z3(n) <= 0) and \
                ctx.entails(to_z3(n) <= to_z3(n0), RL_SAME) and ctx.entails(
                    q, RL_SAME):
            return FilterPrefix(fs, n)
    return None


def filter_seq(interp, n, k, cond):
    """Canonical: equal conditions over equal lengths share one FilterSeq."""
    ctx = cur()
    canon = z3.Const('canon!k', I)
    fs = known_filter(n, z3.simplify(z3.substitute(cond, (k, canon))))
    if fs is not None:
        return fs
    n0, cond0 = n, cond
    n, cond = cut_filter(n, k, cond)
    key = z3.simplify(z3.substitute(cond, (k, canon)))
    if n is not n0 or cond is not cond0:
        fs = known_filter(n, key)
        if fs is not None:
            return fs
    fs = FilterSeq(n, k, cond)
    if z3.is_true(cond):
        i = z3.FreshConst(I, 'i')
        nn = to_z3(n)
        ctx.fact(z3.ForAll([i], z3.Implies(z3.And(
            i >= 0, i <= nn), fs.cnt(i) == i), patterns=[fs.cnt(i)]))
        ctx.fact(z3.ForAll([i], z3.Implies(z3.And(
            i >= 0, i < nn), fs.sel(i) == i), patterns=[fs.sel(i)]))
        ctx.fact(z3.Implies(nn >= 0, fs.cnt_n == nn))
    ctx.memo.setdefault('filters', []).append((n, key, fs))
    return fs
