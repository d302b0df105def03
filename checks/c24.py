"""Optimizer backends report faithfully for every outcome of the library."""
import contextlib, io
import numpy as np
from symx.harness import scenario
from symx.boot import stub_scipy
from paramz.optimization import optimization as om
from paramz.optimization.optimization import get_optimizer
from .lab import flat
from .modlab import uf_model, put, expected

SPEC = ('root', [('a', 2)])
TNC = {-1: 'infeasible', 0: 'local minimum', 1: 'converged', 2: 'xconverged', 3: 'maximum', 4: 'line search', 5: 'constant', 6: 'progress', 7: 'user'}
LB = {0: 'converged', 1: 'maximum', 2: 'error'}
BFGS = {0: '', 1: 'maximum', 2: 'not changing', 3: 'nan'}
NM = {0: 'converged', 1: 'function evaluations', 2: 'iterations'}


class Lib:
    """the library: evaluates once anywhere, then returns any point with any code"""

    def __init__(self, H, n, codes):
        self.H, self.n, self.codes = H, n, codes
        self.given = {}
        self.tag, self.counts = '', (2, 3, 4)

    def result(self, f):
        """-> (point, number of evaluations, code), f(point) is called as the last evaluation"""
        H = self.H
        f(np.array(H.reals(self.tag + 'tried', self.n)))
        self.x = H.reals(self.tag + 'x', self.n)
        self.fval = f(np.array(self.x))
        self.n_eval = self.counts[H.choice(self.tag + 'evaluations', len(self.counts))]
        self.code = H.pick(self.tag + 'code', sorted(self.codes))
        f(np.array(H.reals(self.tag + 'late', self.n)))
        return np.array(self.x), self.n_eval, self.code


DEFAULT = object()


def install(H, lib, name):
    """stand-ins with the signatures of scipy"""
    def start(x0):
        lib.x0 = list(flat(x0))

    def fmin_tnc(func, x0, fprime=None, args=(), approx_grad=0, bounds=None, epsilon=1e-8, scale=None, offset=None, messages=15, maxCGit=-1, maxfun=None, eta=-1, stepmx=0, accuracy=0, fmin=0, ftol=-1, xtol=-1, pgtol=-1, rescale=-1, disp=None, callback=None):
        start(x0)
        lib.given = dict(ftol=ftol, xtol=xtol, pgtol=pgtol, maxfun=maxfun)
        lib.defaults = dict(ftol=-1, xtol=-1, pgtol=-1)
        both(func, fprime, approx_grad)
        x, k, c = lib.result(lambda x: func(x)[0])
        return x, k, c

    def both(func, fprime, approx_grad):
        H.check(fprime is None and not approx_grad, 'objective and gradient are given together')
        p = H.reals(lib.tag + 'probe', lib.n)
        f, g = func(np.array(p))
        lib.probe(p, f, g)

    def fmin_l_bfgs_b(func, x0, fprime=None, args=(), approx_grad=0, bounds=None, m=10, factr=1e7, pgtol=1e-5, epsilon=1e-8, iprint=-1, maxfun=15000, maxiter=15000, disp=None, callback=None, maxls=20):
        start(x0)
        lib.given = dict(factr=factr, pgtol=pgtol, maxfun=maxfun, maxiter=maxiter)
        lib.defaults = dict(factr=1e7, pgtol=1e-5)
        both(func, fprime, approx_grad)
        x, k, c = lib.result(lambda x: func(x)[0])
        return x, lib.fval, {'grad': np.zeros(lib.n), 'task': 'the task', 'funcalls': k, 'nit': 77, 'warnflag': c}

    def separate(f, fprime):
        p = H.reals(lib.tag + 'probe', lib.n)
        lib.probe(p, f(np.array(p)), None if fprime is None else fprime(np.array(p)))

    def fmin_bfgs(f, x0, fprime=None, args=(), gtol=1e-5, norm=np.inf, epsilon=1.5e-8, maxiter=None, full_output=0, disp=1, retall=0, callback=None, xrtol=0, c1=1e-4, c2=.9, hess_inv0=None):
        start(x0)
        lib.given = dict(gtol=gtol, maxiter=maxiter)
        lib.defaults = dict(gtol=1e-5)
        H.check(fprime is not None, 'the gradient is given')
        H.check(not disp, 'the library is quiet')
        separate(f, fprime)
        x, k, c = lib.result(f)
        out = [x, lib.fval, np.zeros(lib.n), np.zeros((lib.n, lib.n)), k, 99, c]
        return tuple(out) if full_output else x

    def fmin(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=None, maxfun=None, full_output=0, disp=1, retall=0, callback=None, initial_simplex=None):
        start(x0)
        lib.given = dict(xtol=xtol, ftol=ftol, maxfun=maxfun, maxiter=maxiter)
        lib.defaults = dict(xtol=1e-4, ftol=1e-4)
        H.check(not disp, 'the library is quiet')
        separate(func, None)
        x, k, c = lib.result(func)
        return (x, lib.fval, 55, k, c) if full_output else x
    stub_scipy(name, locals()[name])


BACKENDS = {
    'fmin_tnc': ('fmin_tnc', TNC, dict(ftol='ftol', xtol='xtol', gtol='pgtol'), ['maxfun']),
    'lbfgsb': ('fmin_l_bfgs_b', LB, dict(gtol='pgtol', bfgs_factor='factr'), ['maxfun', 'maxiter']),
    'org-bfgs': ('fmin_bfgs', BFGS, dict(gtol='gtol'), ['maxiter']),
    'simplex': ('fmin', NM, dict(ftol='ftol', xtol='xtol'), ['maxfun']),
}


@scenario('scipy', bounds='four library functions, every return code, arbitrary points tried and returned, arbitrary objective and gradient; every combination of the four tolerances given with arbitrary values or not; run limit given or not; called through optimize by name', max_paths=(4000, 10000))
def scipy_(H):
    H.formatting()
    name = H.pick('backend', sorted(BACKENDS))
    fn, codes, opts, limits = BACKENDS[name]
    lab = uf_model(H, SPEC)
    m = lab.root
    lib = Lib(H, 2, codes)

    def probe(x, f, g):
        put(lab, x)
        F, _, tg = expected(H, lab)
        H.eq(f, F, 'the library gets the objective')
        if g is not None:
            H.eq(flat(g), tg, 'the library gets the gradient')
    lib.probe = probe
    install(H, lib, fn)
    kw, want = {}, {}
    for t in ('ftol', 'xtol', 'gtol', 'bfgs_factor'):
        if H.bool('give_' + t):
            kw[t] = H.real(t, lo=0.)
    if H.bool('give_max'):
        kw['max_iters'] = H.pick('max', [1, 17])
    start = flat(m.optimizer_array)
    with contextlib.redirect_stdout(io.StringIO()):
        opt = m.optimize(name, **kw)
    H.eq(lib.x0, start, 'the library starts at the current values')
    H.eq(flat(opt.x_opt), lib.x, 'the returned point is the optimum')
    put(lab, lib.x)
    F = expected(H, lab)[0]
    H.eq(opt.f_opt, F, 'the objective at the optimum is reported')
    lab.check('afterwards: ')
    H.check(opt.funct_eval == lib.n_eval, 'the number of evaluations of the library is reported')
    s = opt.status.lower()
    if codes[lib.code]:
        H.check(codes[lib.code] in s, 'the status text of code %s' % lib.code)
    if name == 'lbfgsb' and lib.code == 2:
        H.check('the task' in s, 'the explanation of the library for an error')
    for c in codes:
        if c != lib.code and codes[c] and codes[c] not in codes[lib.code]:
            H.check(s != codes[c] and not s.startswith(codes[c]), 'not the status text of another code')
    for k, v in lib.defaults.items():
        src = [t for t in opts if opts[t] == k]
        if src and src[0] in kw:
            H.eq(lib.given[k], kw[src[0]], '%s is passed on' % src[0])
        else:
            H.eq(lib.given[k], v, '%s is left at the default of the library' % k)
    for l in limits:
        H.check(lib.given[l] == kw.get('max_iters', 1000), 'the run limit is passed on')
    text = str(opt)
    for v in ('%.3f' % F, str(lib.n_eval), opt.status, opt.opt_name):
        H.check(v in text, 'the printed record shows optimum, evaluations, status')


@scenario('again', bounds='two optimizations of the same model by the same or another of the four library functions, with tolerances and run limit given in either or none: each run gets its own settings and reports its own result, the first record stays as it was', max_paths=(4000, 10000))
def again(H):
    H.formatting(False)
    lab = uf_model(H, SPEC)
    m = lab.root
    opts_, records = [], []
    for t in ('', 'second_'):
        name = H.pick(t + 'backend', sorted(BACKENDS))
        fn, codes, opts, limits = BACKENDS[name]
        lib = Lib(H, 2, {c: codes[c] for c in sorted(codes)[:2]})
        lib.tag, lib.counts = t, (3,) if t else (2, 4)
        lib.probe = lambda x, f, g: None
        install(H, lib, fn)
        kw = {}
        if H.bool(t + 'given'):
            kw = {k: H.real(t + k, lo=0.) for k in ('ftol', 'xtol', 'gtol', 'bfgs_factor')}
            kw['max_iters'] = 5
        start = flat(m.optimizer_array)
        with contextlib.redirect_stdout(io.StringIO()):
            opt = m.optimize(name, **kw)
        H.eq(lib.x0, start, 'the library starts at the current values')
        H.eq(flat(opt.x_opt), lib.x, 'the returned point is the optimum')
        put(lab, lib.x)
        F = expected(H, lab)[0]
        H.eq(opt.f_opt, F, 'the objective at the optimum is reported')
        lab.check('afterwards: ')
        H.check(opt.funct_eval == lib.n_eval, 'the number of evaluations of the library is reported')
        H.check(codes[lib.code] in opt.status.lower(), 'the status text')
        for k, v in lib.defaults.items():
            src = [q for q in opts if opts[q] == k]
            H.eq(lib.given[k], kw[src[0]] if src and src[0] in kw else v, 'the tolerances of this run')
        for k in limits:
            H.check(lib.given[k] == kw.get('max_iters', 1000), 'the run limit of this run')
        opts_.append(opt)
        records.append((lib.x, F, lib.n_eval, opt.status, opt.opt_name))
        H.check(len(m.optimization_runs) == len(opts_) and all(a is b for a, b in zip(m.optimization_runs, opts_)), 'the recorded runs')
        for o, (x, f, n, s, nm) in zip(opts_, records):
            H.eq(flat(o.x_opt), x, 'record: optimum')
            H.eq(o.f_opt, f, 'record: objective')
            H.check((o.funct_eval, o.status, o.opt_name) == (n, s, nm), 'record: evaluations, status and name')


@scenario('scg', bounds='the scaled conjugate gradient backend: every combination of tolerances, arbitrary result')
def scg(H):
    lab = uf_model(H, SPEC)
    m = lab.root
    lib = {}
    x = H.reals('x', 2)
    trace = H.reals('f', H.choice('length', 3) + 1)
    status = 'some status'

    def SCG(f, gradf, x, optargs=(), maxiters=500, max_f_eval=np.inf, xtol=None, ftol=None, gtol=None, out=x):
        lib.update(f=f, gradf=gradf, x0=list(flat(x)), maxiters=maxiters, xtol=xtol, ftol=ftol, gtol=gtol)
        p = H.reals('probe', 2)
        put(lab, p)
        F, _, tg = expected(H, lab)
        H.eq(f(np.array(p)), F, 'the objective is given')
        H.eq(flat(gradf(np.array(p))), tg, 'the gradient is given')
        return np.array(out), list(trace), 12, status
    import paramz.optimization.scg as sm
    old = sm.SCG
    for mod in (sm, om):
        for k, v in list(vars(mod).items()):
            if v is old:
                setattr(mod, k, SCG)
    kw = {}
    for t in ('ftol', 'xtol', 'gtol'):
        if H.bool('give_' + t):
            kw[t] = H.real(t, lo=0.)
    if H.bool('give_max'):
        kw['max_iters'] = H.pick('max', [1, 17])
    start = flat(m.optimizer_array)
    with contextlib.redirect_stdout(io.StringIO()):
        opt = m.optimize('scg', **kw)
    H.eq(lib['x0'], start, 'starts at the current values')
    for t in ('ftol', 'xtol', 'gtol'):
        if t in kw:
            H.eq(lib[t], kw[t], '%s is passed on' % t)
        else:
            H.check(lib[t] is None, '%s is left at the default' % t)
    H.check(lib['maxiters'] == kw.get('max_iters', 1000), 'the run limit is passed on')
    H.eq(flat(opt.x_opt), x, 'the returned point is the optimum')
    H.eq(opt.f_opt, trace[-1], 'the objective of the last iteration is reported')
    H.check(opt.funct_eval == 12 and opt.status == status, 'evaluations and status are reported')
    put(lab, x)
    lab.check('afterwards: ')


NAMES = {'fmin_tnc': 'opt_tnc', 'simplex': 'opt_simplex', 'lbfgsb': 'opt_lbfgsb', 'org-bfgs': 'opt_bfgs', 'scg': 'opt_SCG', 'adadelta': 'Opt_Adadelta', 'rprop': 'RProp', 'adam': 'Adam'}


@scenario('names', bounds='every nonempty part of every name, in any of three spellings, and parts followed by a letter that occurs in no name')
def names(H):
    n = H.pick('name', sorted(NAMES))
    i = H.choice('from', len(n))
    j = H.choice('to', len(n) - i) + i + 1
    part = n[i:j]
    sp = H.choice('spelling', 4)
    given = [part, part.upper(), part.capitalize(), part + 'z'][sp]
    if sp == 3:
        H.raises(KeyError, lambda: get_optimizer(given), 'an unknown name')
        return
    cls = get_optimizer(given)
    fit = [NAMES[q] for q in NAMES if part in q]
    H.check(cls.__name__ in fit, 'an optimizer with this part in its name')
    if given.lower() in NAMES:
        H.check(cls.__name__ == NAMES[given.lower()], 'the full name means exactly this optimizer')


@scenario('climin', bounds='the three iterative backends: 1 to K iterations with arbitrary steps and objective, arbitrary or default settings', quick=dict(K=3), thorough=dict(K=8))
def climin_(H, K):
    H.formatting()
    import sys, types
    name = H.pick('backend', ['adadelta', 'rprop', 'adam'])
    settings = {'adadelta': ['step_rate', 'momentum'], 'rprop': ['step_shrink', 'step_grow', 'min_step', 'max_step', 'changes_max'], 'adam': ['step_rate', 'decay_mom1', 'decay_mom2', 'momentum', 'offset']}[name]
    lab = uf_model(H, SPEC)
    m = lab.root
    iters = H.choice('iters', K) + 1
    given, visited = {}, []

    class Iter(object):
        def __init__(self, wrt, fprime, **kw):
            given.update(kw)
            self.wrt, self.fprime = wrt, fprime
            given['x0'] = list(flat(wrt))

        def __iter__(self):
            k = 0
            while True:
                g = self.fprime(self.wrt)
                put(lab, flat(self.wrt))
                H.eq(flat(g), expected(H, lab)[2], 'the gradient is given')
                k += 1
                H.check(k <= iters, 'the run limit holds')
                if k > iters:
                    return
                self.wrt[:] = np.array(H.reals('step%d_' % k, 2))
                visited.append(list(flat(self.wrt)))
                yield {'n_iter': k}
    lib = types.ModuleType('climin')
    lib.adadelta = types.ModuleType('climin.adadelta')
    lib.rprop = types.ModuleType('climin.rprop')
    lib.adam = types.ModuleType('climin.adam')
    lib.adadelta.Adadelta = lib.rprop.Rprop = lib.adam.Adam = Iter
    old = sys.modules.get('climin')
    sys.modules['climin'] = lib
    try:
        kw = {s: H.real(s) for s in settings} if H.bool('settings') else {}
        start = flat(m.optimizer_array)
        with contextlib.redirect_stdout(io.StringIO()):
            opt = m.optimize(name, max_iters=iters, **kw)
    finally:
        if old is None:
            del sys.modules['climin']
        else:
            sys.modules['climin'] = old
    H.eq(given['x0'], start, 'starts at the current values')
    for s in kw:
        H.eq(given[s], kw[s], '%s is passed on' % s)
    H.check(len(visited) == iters, 'as many iterations as allowed')
    H.eq(flat(opt.x_opt), visited[-1], 'the last point is the optimum')
    put(lab, visited[-1])
    lab.check('afterwards: ')
    F = expected(H, lab)[0]
    H.eq(opt.f_opt, F, 'the objective at the optimum is reported')
    H.check('maximum' in opt.status, 'the status')
    H.check('%.3f' % F in str(opt), 'the record can be printed')
