"""C01: the parts of a mask are its maximal True runs."""
import z3

from pydv.core import I, B, SeqObj, Sym, PyRaise, to_z3
from pydv.interp import Interp
from pydv import models
from . import contract
from .theory import Runs


@contract('C01', 'slicelist', ['channelpack.datautils.slicelist'])
def slicelist(ctx):
    n = ctx.fresh('n', I)
    ctx.assume(n >= 0)
    c = ctx.fresh_fn('b', [I], B)
    it = Interp({})
    runs = Runs(it, n, c)
    it.theories = [runs]
    ctx.cover('pre')
    if not ctx.decisions:
        pass
    b = SeqObj('ndarray', Sym(n, lambda j: c(to_z3(j))), dkind='b', ndim=1)
    f = it.find_func('channelpack.datautils.slicelist')
    try:
        r = it.call(f, [b])
    except PyRaise as e:
        ctx.fail('slicelist raises %s' % e.exc.name())
        return
    q = models.iter_seq(it, r)
    ctx.prove('number of parts', to_z3(q.n) == runs.N)
    j = ctx.fresh('j', I)
    ctx.assume(z3.And(j >= 0, j < runs.N))
    v = it.resolve(q.at(j))
    ctx.prove('part j', z3.And(to_z3(v.start) == runs.RS(j), to_z3(v.stop) == runs.RE(j)))
    ctx.cover('post')


@contract('C01', 'runs theory is adequate', covers=('pre',))
def adequacy(ctx):
    n = ctx.fresh('n', I)
    ctx.assume(n >= 0)
    c = ctx.fresh_fn('b', [I], B)
    it = Interp({})
    runs = Runs(it, n, c)
    ctx.cover('pre')
    runs.adequacy(ctx)
    runs.abstract(ctx)
