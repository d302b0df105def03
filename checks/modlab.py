"""Models with arbitrary objective and gradient (uninterpreted functions of the parameter
values) and optimizers that do what the harness says."""
import numpy as np
from paramz import Model
from paramz.optimization.optimization import Optimizer
from .lab import Lab, Opaque, Twice, Flip, flat, free_elems, forward, inverse, pos_of


class Recip(Opaque):
    """f(x) = 1/x on the reals without zero"""
    def f(self, x):
        return 1. / x

    def finv(self, f):
        return 1. / f

    def gradfactor(self, f, df):
        return -df * f * f


DERIV = {Recip: lambda e: -e.v * e.v, Twice: lambda e: 2., Flip: lambda e: -1.}


class UF(Model):
    """objective F(values), gradient G0(values), G1(values), ..."""
    H = None
    log = None

    def parameters_changed(self):
        self.updates = getattr(self, 'updates', 0) + 1
        self.gradient[:] = np.array([self.H.uf('G%d' % i, *flat(self.param_array)) for i in range(self.size)])

    def objective_function(self):
        return self.H.uf('F', *flat(self.param_array))


def uf_model(H, spec, cls=UF, **kw):
    class M(cls):
        pass
    M.H = H
    M.__name__ = cls.__name__
    return Lab(H, spec, root_cls=M, **kw)


def expected(H, lab):
    vals = [e.v for e in lab.elems()]
    F = H.uf('F', *vals)
    g = [H.uf('G%d' % i, *vals) for i in range(len(vals))]
    tg = [x if e.con is None else x * DERIV[type(e.con)](e) for x, e in zip(g, lab.elems()) if not e.fixed]
    return F, g, tg


class Script(Optimizer):
    """calls script(x0, f_fp, f, fp), which returns the optimum and its objective value"""
    def __init__(self, script, *a, **k):
        Optimizer.__init__(self, *a, **k)
        self.opt_name = 'script'
        self.script = script

    def opt(self, x_init, f_fp=None, f=None, fp=None):
        self.x_opt, self.f_opt = self.script(x_init, f_fp, f, fp)
        self.funct_eval = 0
        self.status = 'done'


def set_elem(lab, l, i, con=None, fixed=False):
    p = lab.o[l]
    sel = p[tuple(slice(q, q + 1) for q in pos_of(p, i))]
    if con is not None:
        sel.constrain(con)
        lab.ref[l][i].con = con
    if fixed:
        sel.fix()
        lab.ref[l][i].fixed = True


def put(lab, w):
    """reference: the vector w was written to the optimizer array of the root"""
    for e, x in zip(free_elems(lab.elems()), w):
        e.v = forward(e, x)
