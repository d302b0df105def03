"""The regression example has the objective and gradient it documents."""
import numpy as np
from symx.harness import scenario, Known
from paramz.examples.ridge_regression import RidgeRegression, Ridge, Lasso, Polynomial
from paramz.core.observable_array import ObsAr
from .lab import Twice, flat


class Ref:
    """inputs, outputs, weights and lambda next to the model; added_up tells that the last update skipped the regularizer (K3)"""
    added_up = False

    def __init__(self, H, kind, degree, N, D):
        self.H, self.kind, self.degree, self.N, self.D = H, kind, degree, N, D
        self.X = [H.reals('x%d_' % n, D) for n in range(N)]
        self.Y = [H.real('y%d' % n) for n in range(N)]
        self.lam = H.real('lam')
        self.W = None

    def model(self):
        reg = {'ridge': Ridge, 'lasso': Lasso}[self.kind](self.lam)
        return RidgeRegression(np.array(self.X), np.array(self.Y)[:, None], regularizer=reg, basis=Polynomial(self.degree))

    def predict(self, x):
        out = 0.
        for i in range(self.degree + 1):
            for d in range(self.D):
                t = self.W[i][d]
                for _ in range(i):
                    t = t * x[d]
                out = out + t
        return out

    def residuals(self):
        return [y - self.predict(x) for x, y in zip(self.X, self.Y)]

    def objective(self):
        out = 0.
        for r in self.residuals():
            out = out + r * r
        for row in self.W:
            for w in row:
                out = out + self.lam * (w * w if self.kind == 'ridge' else abs(w))
        return out

    def gradient(self):
        res = self.residuals()
        out = []
        for i in range(self.degree + 1):
            for d in range(self.D):
                w = self.W[i][d]
                g = self.lam * (2. * w if self.kind == 'ridge' else np.sign(w))
                for r, x in zip(res, self.X):
                    p = 1.
                    for _ in range(i):
                        p = p * x[d]
                    g = g - 2. * r * p
                out.append(g)
        return out

    def read(self, m):
        f = flat(m.weights.values)
        self.W = [f[i * self.D:(i + 1) * self.D] for i in range(self.degree + 1)]

    def check(self, m, tag):
        H = self.H
        f = [w for row in self.W for w in row]
        H.eq(flat(m.weights.values), f, tag + 'the weights are the ones set')
        H.eq(m.objective_function(), self.objective(), tag + 'the objective is the squared error plus the regularization')
        H.eq(flat(m.weights.gradient), self.gradient(), tag + 'the gradient of the weights is the one of the objective', known=Known('K3', self.added_up))
        H.eq(flat(m.gradient), self.gradient(), tag + 'the gradient of the model is the one of the objective', known=Known('K3', self.added_up))


def setup(H, kinds, degrees, Ns, Ds, max_lasso=9):
    kind = H.pick('kind', kinds)
    degree, D = H.pick('degree', degrees), H.pick('D', Ds)
    # every weight of a lasso has three cases
    H.assume(kind != 'lasso' or (degree + 1) * D <= max_lasso)
    r = Ref(H, kind, degree, H.pick('N', Ns), D)
    m = r.model()
    r.read(m)
    return r, m


def new_weights(H, r, t=''):
    return [H.reals('%sw%d_' % (t, i), r.D) for i in range(r.degree + 1)]


@scenario('initial', bounds='ridge and lasso, degrees 0 to 2 (3), one or two inputs, one or two points: the freshly built model',
          quick=dict(degrees=[0, 1, 2]), thorough=dict(degrees=[0, 1, 2, 3]), max_paths=(1000, 4000))
def initial(H, degrees):
    r, m = setup(H, ['ridge', 'lasso'], degrees, [1, 2], [1, 2])
    for i in range(r.degree + 1):
        for d in range(r.D):
            w = float(i) if i == 0 else float(i) / float(i) ** i
            H.eq(r.W[i][d], w, 'the first weights')
    r.check(m, 'built: ')


@scenario('weights', bounds='ridge and lasso, degrees 0 to 2 (3), one or two inputs, one or two points, arbitrary values of everything, weights set in six ways',
          quick=dict(degrees=[0, 1, 2], Ns=[2], big=2), thorough=dict(degrees=[0, 1, 2, 3], Ns=[1, 2, 3], big=4), max_paths=(3000, 20000))
def weights(H, degrees, Ns, big):
    r, m = setup(H, ['ridge', 'lasso'], degrees, Ns, [1, 2], big)
    change(H, r, m, '', ['all', 'array', 'element', 'optimizer', 'model', 'objective'])
    r.check(m, 'after setting the weights: ')


def change(H, r, m, t, ways):
    way = H.pick(t + 'way', ways)
    H.label(way)
    if way in ('array', 'optimizer', 'model', 'objective', 'all', 'element', 'off'):
        r.added_up = False
    if way in ('array', 'optimizer', 'model', 'objective'):
        W = new_weights(H, r, t)
        f = [w for row in W for w in row]
        if way == 'array':
            m.weights[:] = np.array(W)
        elif way == 'optimizer':
            m.optimizer_array = np.array(f)
        elif way == 'model':
            m[:] = np.array(f)
        else:
            o, g = m._objective_grads(np.array(f))
            r.W = W
            H.eq(o, r.objective(), 'the objective handed to an optimizer')
            H.eq(flat(g), r.gradient(), 'the gradient handed to an optimizer')
        r.W = W
    elif way == 'all':
        v = H.real(t + 'v')
        m.weights[:] = v
        r.W = [[v] * r.D for _ in r.W]
    elif way == 'element':
        i, d, v = H.choice(t + 'i', r.degree + 1), H.choice(t + 'd', r.D), H.real(t + 'v')
        m.weights[i, d] = v
        r.W[i] = list(r.W[i])
        r.W[i][d] = v
    elif way in ('X', 'Y'):
        n, v = H.choice(t + 'n', r.N), H.real(t + 'v')
        if way == 'X':
            d = H.choice(t + 'd', r.D)
            m.X[n, d] = v
            r.X[n] = list(r.X[n])
            r.X[n][d] = v
        else:
            m.Y[n, 0] = v
            r.Y[n] = v
        poke(H, r, m, t)
    elif way == 'all_data':
        r.X = [H.reals('%sx%d_' % (t, n), r.D) for n in range(r.N)]
        r.Y = [H.real('%sy%d' % (t, n)) for n in range(r.N)]
        m.X[:] = np.array(r.X)
        m.Y[:] = np.array(r.Y)[:, None]
        poke(H, r, m, t)
    elif way == 'new_data':
        r.N = 1 if r.N > 1 else 2
        r.X = [H.reals('%sx%d_' % (t, n), r.D) for n in range(r.N)]
        r.Y = [H.real('%sy%d' % (t, n)) for n in range(r.N)]
        m.X, m.Y = ObsAr(np.array(r.X)), ObsAr(np.array(r.Y)[:, None])
        poke(H, r, m, t)
    elif way == 'lambda':
        r.lam = H.real(t + 'lam')
        m.regularizer.lambda_ = r.lam
        poke(H, r, m, t, ['model', 'regularizer', 'weights'])
    elif way == 'predict':
        x = [H.reals('%sp%d_' % (t, n), r.D) for n in range(2)]
        p = m.predict(ObsAr(np.array(x)) if H.bool(t + 'obs') else np.array(x))
        H.eq(flat(p), [r.predict(y) for y in x], 'predicting gives the polynomial')
    elif way == 'predict_data':
        p = m.predict(m.X)
        H.eq(flat(p), [r.predict(y) for y in r.X], 'predicting gives the polynomial')
        p[:] = 0.
    elif way == 'update':
        poke(H, r, m, t)
    elif way == 'off':
        m.update_model(False)
        W = new_weights(H, r, t)
        m.weights[:] = np.array(W)
        r.W = W
        m.update_model(True)


def poke(H, r, m, t, who=('model', 'regularizer', 'weights', 'basis')):
    w = H.pick(t + 'poke', list(who))
    H.label('update from', w)
    r.added_up = w == 'basis'
    {'model': m, 'regularizer': m.regularizer, 'weights': m.weights, 'basis': m.basis}[w].trigger_update()


WAYS = ['array', 'element', 'X', 'Y', 'all_data', 'new_data', 'lambda', 'predict', 'predict_data', 'update', 'off']


@scenario('history', bounds='L changes of weights, inputs, outputs and lambda and predictions, each announced from any object of the model, degree 1 (2)',
          quick=dict(L=2, degrees=[1], Ns=[2], Ds=[1], kinds=['ridge']), thorough=dict(L=3, degrees=[1, 2], Ns=[2], Ds=[1], kinds=['ridge']), max_paths=(4000, 40000))
def history(H, L, degrees, Ns, Ds, kinds):
    r, m = setup(H, kinds, degrees, Ns, Ds)
    for i in range(L):
        change(H, r, m, 's%d' % i, WAYS)
    r.check(m, 'after the changes: ')


@scenario('history_lasso', bounds='the same with lasso, degree 1',
          quick=dict(L=1, degrees=[1], Ns=[1], Ds=[1], kinds=['lasso']), thorough=dict(L=2, degrees=[1], Ns=[1], Ds=[1], kinds=['lasso']), max_paths=(4000, 40000))
def history_lasso(H, **kw):
    history.fn(H, **kw) if hasattr(history, 'fn') else history(H, **kw)


@scenario('derivative', bounds='the gradient of every weight is the derivative of the value the real objective returns, weights not zero (lasso has no derivative there)',
          quick=dict(degrees=[0, 1, 2], Ns=[1]), thorough=dict(degrees=[0, 1, 2, 3], Ns=[1, 2]), max_paths=(2000, 10000))
def derivative(H, degrees, Ns):
    r, m = setup(H, ['ridge', 'lasso'], degrees, Ns, [1, 2])
    W = [[H.real('w%d_%d' % (i, d), nonzero=True, lo=-4, hi=4) for d in range(r.D)] for i in range(r.degree + 1)]
    m.weights[:] = np.array(W)
    i, d = H.choice('i', r.degree + 1), H.choice('d', r.D)
    g = m.weights.gradient[i, d]

    def f(w):
        m.weights[i, d] = w
        return m.objective_function()
    H.eq(g, H.derivative(f, W[i][d]), 'the gradient of the weights is the derivative of the objective')


@scenario('predict', bounds='predictions and design matrix at arbitrary points, plain and observable, with and without chosen degrees',
          quick=dict(degrees=[0, 1, 2]), thorough=dict(degrees=[0, 1, 2, 3]), max_paths=(2000, 10000))
def predict(H, degrees):
    r, m = setup(H, ['ridge'], degrees, [1], [1, 2])
    W = new_weights(H, r)
    m.weights[:] = np.array(W)
    r.W = W
    x = [H.reals('p%d_' % n, r.D) for n in range(2)]
    X = ObsAr(np.array(x)) if H.bool('obs') else np.array(x)
    H.eq(flat(m.predict(X)), [r.predict(y) for y in x], 'predicting gives the polynomial')
    some = H.bool('some')
    degs = [H.choice('deg', r.degree + 1)] if some else list(range(r.degree + 1))
    phi = m.phi(X, degs) if some else m.phi(X)
    want = []
    for i in degs:
        for y in x:
            for d in range(r.D):
                t = W[i][d]
                for _ in range(i):
                    t = t * y[d]
                want.append(t)
    H.eq(phi.shape, (len(degs), 2, r.D), 'the shape of the design matrix')
    H.eq(flat(phi), want, 'the design matrix holds the terms of the polynomial')
    r.check(m, 'after predicting: ')


@scenario('optimizer', bounds='one weight fixed, one constrained, or both, objective and gradient as an optimizer sees them',
          quick=dict(degrees=[1]), thorough=dict(degrees=[1, 2]), max_paths=(2000, 10000))
def optimizer(H, degrees):
    r, m = setup(H, ['ridge', 'lasso'], degrees, [1], [2], 0)
    n = (r.degree + 1) * r.D
    fix, con = H.choice('fix', n + 1), H.choice('con', n + 1)
    if con < n:
        m.weights[con // r.D, con % r.D:con % r.D + 1].constrain(Twice())
    if fix < n:
        m.weights[fix // r.D, fix % r.D:fix % r.D + 1].fix()
    v = H.reals('v', n - (fix < n))
    o, g = m._objective_grads(np.array(v))
    k, f, fac = 0, [], []
    for i in range(n):
        if i == fix:
            f.append(r.W[i // r.D][i % r.D])
            continue
        f.append(2. * v[k] + 3. if i == con else v[k])
        k += 1
    r.W = [f[i * r.D:(i + 1) * r.D] for i in range(r.degree + 1)]
    H.eq(o, r.objective(), 'the objective handed to an optimizer')
    H.eq(flat(g), [(2. * x if i == con else x) for i, x in enumerate(r.gradient()) if i != fix], 'the gradient handed to an optimizer')
    r.check(m, 'evaluated: ')


@scenario('copied', bounds='a copy is changed: it and the original each have their own objective and gradient',
          quick=dict(degrees=[1]), thorough=dict(degrees=[1, 2]), max_paths=(2000, 10000))
def copied(H, degrees):
    r, m = setup(H, ['ridge'], degrees, [1], [1])
    c = m.copy()
    s = Ref.__new__(Ref)
    s.__dict__.update(r.__dict__)
    s.X, s.Y, s.W = [list(x) for x in r.X], list(r.Y), [list(w) for w in r.W]
    s.check(c, 'copy: ')
    for t in ('a', 'b'):
        which = H.bool(t + 'which')
        H.label('on the copy' if which else 'on the original')
        change(H, s if which else r, c if which else m, t, ['array', 'X', 'Y'])
    s.check(c, 'copy: ')
    r.check(m, 'original: ')


@scenario('defaults', bounds='a regression without a basis or regularizer (a straight line with ridge regularization of weight one), one or two inputs and points, arbitrary values of everything, weights set in six ways', max_paths=(1000, 4000))
def defaults(H):
    r = Ref(H, 'ridge', 1, H.pick('N', [1, 2]), H.pick('D', [1, 2]))
    which = H.pick('given', ['nothing', 'basis', 'regularizer'])
    kw = {}
    if which != 'regularizer':
        r.lam = 1.
    else:
        kw['regularizer'] = Ridge(r.lam)
    if which == 'basis':
        r.degree = 2
        kw['basis'] = Polynomial(2)
    m = RidgeRegression(np.array(r.X), np.array(r.Y)[:, None], **kw)
    r.read(m)
    r.check(m, 'built: ')
    change(H, r, m, '', ['all', 'array', 'element', 'optimizer', 'model', 'objective'])
    r.check(m, 'after setting the weights: ')
