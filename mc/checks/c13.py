"""C13: reported gradients are the derivatives of the reported values.

Real code: acquisitions, penalized acquisitions, Gaussian process surrogates, learnt cost. Oracle: fourth order finite differences of the
values reported by the same object, with an estimate of their error."""
import itertools
import numpy as np
from scipy.special import expit
from scipy.stats import norm
import GPy
import GPyOpt
from GPyOpt import acquisitions as A
from .. import ref as R
from ..env import TableModel

PROPERTY = 'C13'
BOUNDS = {
    'quick': '6 acquisitions x 3 parameters x 4 incumbents x 3 costs x 3 spaces (without and with constraints, categorical) x 25 points, blocks of 1-3 rows; penalized: 6 acquisitions x transformations none / softplus / other x batches of 0-3 points x Lipschitz constants {.01,1,30} x offsets of the surrogate {0, 60, -60, 1500, -1500} x 25 points; 8 Gaussian process surrogates with 3-8 observations in 1-3 dimensions (also by samples of the parameters) x 5-25 points with all acquisitions; learnt cost after 1-4 updates',
    'thorough': '81 points',
}
ASSUMPTIONS = ['points within 1e-3 of a constraint or of the centre of a penalizer are not judged (not differentiable)']


def cases(tier):
    out = []
    for kind in ('EI', 'MPI', 'LCB'):
        for mcmc in (False, True):
            for sp in SPACES:
                for cost in ('none', 'user', 'learnt'):
                    out.append(('acq/%s%s/%s/%s' % (kind, '-mcmc' * mcmc, sp, cost), ('acq', kind, mcmc, sp, cost, tier)))
            for tr in ('none', 'softplus', 'other'):
                for nb in range(4):
                    out.append(('lp/%s%s/%s/%d' % (kind, '-mcmc' * mcmc, tr, nb), ('lp', kind, mcmc, tr, nb, tier)))
    for m in MODELS:
        out.append(('model/' + m, ('model', m, tier)))
    for d in (1, 2, 3):
        out.append(('cost/%d' % d, ('cost', d, tier)))
    return out


D2 = [R.C('a', (-2., 2.)), R.C('b', (-2., 2.))]
SPACES = {'free': (D2, None), 'con': (D2, R.con('x[:,0] + x[:,1] - .7')), 'cat': ([R.C('k', (4, 7), type='categorical')] + D2, R.con('(x[:,0]-5)*x[:,1]'))}


def mean(off, shift=0., k=1.):
    def f(X):
        a, b = X[:, off], X[:, off + 1]
        g = np.zeros(X.shape)
        g[:, off] = k * 1.3 * np.cos(1.3 * a) + .2 * b
        g[:, off + 1] = -.7 * b + .2 * a
        return k * np.sin(1.3 * a) - .35 * b ** 2 + .2 * a * b + shift, g
    return f


def sdev(off):
    def f(X):
        a, b = X[:, off], X[:, off + 1]
        g = np.zeros(X.shape)
        e = np.sin(a - .5 * b)
        g[:, off] = .4 * e * np.cos(a - .5 * b)
        g[:, off + 1] = -.5 * .4 * e * np.cos(a - .5 * b)
        return .15 + .2 * e ** 2, g
    return f


SAMPLES = [(1., 0., 1.), (-.5, .3, .5), (2., -1., 1.5)]


def numerical(f, x, h=1e-3):
    """gradient of the scalar function f at x, with an error estimate"""
    d = len(x)
    g, err = np.zeros(d), np.zeros(d)
    for i in range(d):
        v = []
        for k in (1, 2, 4):
            e = np.zeros(d)
            e[i] = k * h / 4
            v.append((f(x + e) - f(x - e)) / (2 * k * h / 4))
        a, b = (4 * v[0] - v[1]) / 3, (4 * v[1] - v[2]) / 3
        g[i], err[i] = a, abs(a - b) + 1e-11 * abs(f(x)) / h
    return g, err


def compare(rec, f, x, got, what, key=None, wrong=None, h=1e-3, **detail):
    want, err = numerical(f, x, h)
    got = np.asarray(got, float).ravel()
    rec.check(got.shape == want.shape, 'shape of the gradient: ' + what, got=got, expected=want, **detail)
    scale = np.abs(want).max()
    ok = bool(np.all(np.abs(got - want) <= 1e-5 * scale + 5 * err.max() + 1e-9))
    if not ok and key is not None:
        key = key if wrong is not None and np.allclose(got, wrong, rtol=1e-6, atol=1e-9) else None
    rec.check(ok, what, key, got=got, expected=want, error=err, point=x, **detail)


def grid(n, lo=-1.7, hi=1.83):
    return np.linspace(lo, hi, n)


def points(tier):
    n = 9 if tier == 'thorough' else 5
    return [np.array(p) for p in itertools.product(grid(n), grid(n, -1.9, 1.7))]


def run(params, rec):
    globals()['run_' + params[0]](rec, *params[1:])
    rec.outcome(params[0])


def user_cost(x):
    x = np.atleast_2d(x)
    return 2 + (x ** 2).sum(1)[:, None] + np.sin(x[:, :1]), 2 * x + np.hstack([np.cos(x[:, :1])] + [0 * x[:, 1:]])


def learnt(nm):
    c = GPyOpt.core.task.cost.CostModel('evaluation_time')
    rng = np.random.RandomState(5)
    X = rng.uniform(-2, 2, (5, nm))
    c.update_cost_model(X, [.5, 1., 4., 2., 8.])
    return c.cost_withGradients


def acquisition(kind, mcmc, model, sp, cf, par):
    kw = {'exploration_weight': par} if kind == 'LCB' else {'jitter': par}
    return getattr(A, 'Acquisition' + kind + ('_MCMC' if mcmc else ''))(model, sp, None, cf, **kw)


def ei_key(kind, mcmc, acq, model, cf, x, par):
    """the recorded defect: what the gradient of the integrated expected improvement is instead"""
    if not (kind == 'EI' and mcmc and par):
        return None, None
    ms, ss, dms, dss = model.predict_withGradients(x[None])
    f, g, w = 0., 0., 0.
    for m, s, dm, ds, fm in zip(ms, ss, dms, dss, model.get_fmin()):
        u = (fm - m - par) / s
        w = w + ((fm - m + par) * norm.cdf(u) + s * norm.pdf(u)) / len(ms)
        g = g + (ds * norm.pdf(u) - dm * norm.cdf(u)) / len(ms)
    c, dc = (1., 0.) if cf is None else cf(x[None])
    return 'ei-mcmc-jitter-gradient', (-(g * c - w * dc) / c ** 2).ravel()


def run_acq(rec, kind, mcmc, spn, cost, tier):
    dom, con = SPACES[spn]
    ref = R.RefDomain(dom, con)
    sp = GPyOpt.Design_space(dom, con)
    off = ref.nmodel - 2
    model = TableModel(SAMPLES if mcmc else None, off, maps=(mean(off), sdev(off)))
    cf = None if cost == 'none' else user_cost if cost == 'user' else learnt(ref.nmodel)
    used = None if kind == 'LCB' else cf
    pts = points(tier)
    if spn == 'cat':
        pts = [np.hstack([c, p]) for p in pts for c in ([.9, .2], [.1, .6])]
    near = np.array([1e-2] * ref.nmodel)
    for par in ((.01, .3, 0.) if kind != 'LCB' else (2., 0., .7)):
        for fmin in (-1., 0., .4, -2.5):
            model.fmin = fmin
            acq = acquisition(kind, mcmc, model, sp, cf, par)
            f = lambda x: float(np.asarray(acq.acquisition_function(np.array([x]))).ravel()[0])
            fg = lambda x: float(np.asarray(acq.acquisition_function_withGradients(np.array([x]))[0]).ravel()[0])
            ok = []
            for x in pts:
                obj = [4. if x[0] > x[1] else 7.] * (spn == 'cat') + list(x[-2:])
                if not len(set(ref.feasible(np.array(obj) + np.array(e)) for e in itertools.product(*[[0]] * (spn == 'cat'), *[[-.01, .01]] * 2))) == 1:
                    continue
                g = acq.acquisition_function_withGradients(x[None])[1]
                key, wrong = ei_key(kind, mcmc, acq, model, used, x, par)
                compare(rec, f, x, g, 'gradient of the acquisition', key, wrong, parameter=par, incumbent=fmin)
                rec.check(abs(f(x) - fg(x)) <= 1e-12 * (1 + abs(f(x))), 'value with gradients', got=fg(x), expected=f(x), point=x)
                ok.append((x, np.asarray(g).ravel()))
                rec.state(kind, mcmc, spn, cost, par, fmin, x)
                rec.trans()
            for i in range(0, len(ok) - 2, 2):
                for b in ((i, i + 2), (i + 2, i + 1, i), (i, i)):
                    X = np.array([ok[j][0] for j in b])
                    G = acq.acquisition_function_withGradients(X)[1]
                    rec.close(G, np.array([ok[j][1] for j in b]), 'gradients of a block of rows', tol=1e-10, points=X)
            rec.execution()


def run_lp(rec, kind, mcmc, tr, nb, tier):
    sp = GPyOpt.Design_space(D2)
    pts = points(tier)
    centres = np.array([[.31, -.52], [-1.2, 1.1], [.33, -.4]])[:nb]
    for shift in (0., 60., -60., 1500., -1500.):
        if mcmc and nb:
            continue                      # penalization is not defined for integrated surrogates
        model = TableModel(SAMPLES if mcmc else None, 0, maps=(mean(0, shift), sdev(0)), fmin=-.4 + shift)
        base = acquisition(kind, mcmc, model, sp, None, 2. if kind == 'LCB' else .01)
        lp = A.AcquisitionLP(model, sp, None, base, tr)
        for L, Min in ((1., -1.5 + shift), (.01, -1. + shift), (30., -.5 + shift)) if nb else ((1., 0.),):
            lp.update_batches(centres if nb else None, L, Min)
            f = lambda x: float(np.asarray(lp.acquisition_function(np.array([x]))).ravel()[0])
            single = []
            near = [c + np.array(o) for c in centres for o in ((2e-3, 0.), (0., -2e-3), (-4e-3, 3e-3), (1e-2, -1.5e-2))]
            for x in pts + near:
                dist = min(np.linalg.norm(c - x) for c in centres) if nb else 1.
                if dist < 1e-3:
                    continue              # the penalizer is not differentiable at its centre
                v, g = lp.acquisition_function_withGradients(x[None])
                rec.check(np.isfinite(f(x)) and np.all(np.isfinite(g)), 'the penalized acquisition and its gradient are finite', value=f(x), got=g, point=x, transform=tr, shift=shift, L=L)
                a = float(np.asarray(base.acquisition_function(x[None])).ravel()[0])
                key, wrong = ei_key(kind, mcmc, base, model, None, x, .01)
                if key:                   # the recorded defect, through the logarithm / softplus
                    t = {'none': 1. / (-a + 1e-50), 'softplus': expit(-a) / np.logaddexp(0., -a)}.get(lp.transform, 1.)
                    wrong = wrong * t
                compare(rec, f, x, g, 'gradient of the penalized acquisition', key, wrong, h=min(1e-3, dist / 20), transform=tr, shift=shift, L=L, batch=nb)
                rec.check(float(np.asarray(v).ravel()[0]) == f(x), 'value with gradients', got=v, expected=f(x), point=x)
                single.append((x, f(x), np.asarray(g).ravel()))
                rec.state(kind, mcmc, tr, nb, shift, L, x)
                rec.trans()
            for i in range(0, len(single) - 2, 3):
                for b in ((i, i + 2), (i + 2, i + 1, i)):
                    X = np.array([single[j][0] for j in b])
                    V, G = lp.acquisition_function_withGradients(X)
                    rec.close(np.asarray(V).ravel(), np.array([single[j][1] for j in b]), 'penalized values of a block of rows', tol=1e-10, points=X)
                    rec.close(G, np.array([single[j][2] for j in b]), 'penalized gradients of a block of rows', tol=1e-9, points=X)
            rec.execution()


def gp(name):
    k = GPy.kern
    M = GPyOpt.models
    kw = dict(max_iters=0, verbose=False)
    return {
        'default': (2, lambda: M.GPModel(**kw)),
        'rbf': (2, lambda: M.GPModel(kernel=k.RBF(2, variance=2., lengthscale=.8), **kw)),
        'ard': (2, lambda: M.GPModel(ARD=True, **kw)),
        'exact': (2, lambda: M.GPModel(exact_feval=True, **kw)),
        'sum': (2, lambda: M.GPModel(kernel=k.Matern32(2) + k.Bias(2), noise_var=.1, **kw)),
        'one': (1, lambda: M.GPModel(kernel=k.RBF(1, lengthscale=.6), optimize_restarts=1, **kw)),
        'three': (3, lambda: M.GPModel(**kw)),
        'optimized': (2, lambda: M.GPModel(max_iters=20, optimize_restarts=1, verbose=False)),
        'mcmc': (2, lambda: M.GPModel_MCMC(n_samples=3, n_burnin=1, subsample_interval=2, leapfrog_steps=3)),
        'mcmc exact': (1, lambda: M.GPModel_MCMC(kernel=k.RBF(1, lengthscale=.6), exact_feval=True, n_samples=2, n_burnin=1, subsample_interval=1, leapfrog_steps=2)),
    }[name]


MODELS = ['default', 'rbf', 'ard', 'exact', 'sum', 'one', 'three', 'optimized', 'mcmc', 'mcmc exact']


def run_model(rec, name, tier):
    d, make = gp(name)
    mcmc = name.startswith('mcmc')
    rng = np.random.RandomState(3)
    sp = GPyOpt.Design_space([R.C('v%d' % i, (-2., 2.)) for i in range(d)])
    n1 = {1: 25, 2: 5, 3: 3}[d] if tier == 'thorough' or not mcmc else {1: 9, 2: 3}[d]
    pts = [np.array(p) + .01 * i for i, p in enumerate(itertools.product(grid(n1, -1.6, 1.6), repeat=d))]
    for n in (3, 5, 8) if not mcmc else (4,):
        X = rng.uniform(-2, 2, (n, d))
        Y = (np.sin(2 * X).sum(1) + X[:, 0] ** 2)[:, None]
        m = make()
        m.updateModel(X, (Y - Y.mean()) / Y.std(), None, None)
        acqs = [('%s %s' % (kind, par), kind, par, acquisition(kind, mcmc, m, sp, cf, par), cf) for kind, par in (('EI', .01), ('EI', 0.), ('MPI', .05), ('LCB', 1.5)) for cf in (None, user_cost)]
        for x in pts:
            v = m.predict_withGradients(x[None])
            p = m.predict(x[None])
            if not mcmc:
                v, p = [[q] for q in v], [[q] for q in p]
            for j in range(len(v[0])):
                for c, what in ((0, 'mean'), (1, 'standard deviation')):
                    rec.close(v[c][j], p[c][j], 'predicted %s with and without gradients' % what, tol=1e-10, point=x)
                    f = lambda z: float(np.asarray(m.predict(z[None])[c][j] if mcmc else m.predict(z[None])[c]).ravel()[0])
                    compare(rec, f, x, v[2 + c][j], 'gradient of the predicted ' + what, model=name, observations=n)
            one = m.predict_withGradients(x)
            rec.check(np.allclose(one[2][0] if mcmc else one[2], v[2][0]), 'gradient at a point given as a vector', point=x)
            for nm, kind, par, acq, cf in acqs:
                f = lambda z: float(np.asarray(acq.acquisition_function(z[None])).ravel()[0])
                key, wrong = ei_key(kind, mcmc, acq, m, cf if kind != 'LCB' else None, x, par)
                compare(rec, f, x, acq.acquisition_function_withGradients(x[None])[1], 'gradient of the acquisition %s' % nm, key, wrong, model=name, observations=n)
                if not mcmc and cf is None and kind != 'MPI':
                    lp = A.AcquisitionLP(m, sp, None, acq)
                    lp.update_batches(X[:2] + .05, 2., float(Y.min()))
                    g = lambda z: float(np.asarray(lp.acquisition_function(z[None])).ravel()[0])
                    if min(np.linalg.norm(c - x) for c in X[:2] + .05) > 1e-2:
                        compare(rec, g, x, lp.acquisition_function_withGradients(x[None])[1], 'gradient of the penalized acquisition ' + nm, model=name, observations=n)
            rec.state(name, n, x)
            rec.trans()
        G = m.predict_withGradients(np.array(pts[:4]))
        for i, x in enumerate(pts[:4]):
            s = m.predict_withGradients(x[None])
            for c in range(4):
                for a, b in zip(G[c] if mcmc else [G[c]], s[c] if mcmc else [s[c]]):
                    rec.close(a[i], b[0], 'predictions with gradients of a block of rows', tol=1e-9)
        rec.execution()


def run_cost(rec, d, tier):
    rng = np.random.RandomState(d)
    c = GPyOpt.core.task.cost.CostModel('evaluation_time')
    pts = [np.array(p) for p in itertools.product(grid({1: 15, 2: 5, 3: 3}[d]), repeat=d)]
    for k in range(5):
        for x in pts:
            f = lambda z: float(c.cost_withGradients(z[None])[0].ravel()[0])
            v, g = c.cost_withGradients(x[None])
            rec.check(np.shape(v) == (1, 1) and np.shape(g) == (1, d), 'shapes of the cost', got=(np.shape(v), np.shape(g)))
            compare(rec, f, x, g, 'gradient of the learnt cost', h=1e-2, updates=k)
            rec.state('cost', d, k, x)
            rec.trans()
        X = rng.uniform(-2, 2, (2, d))
        c.update_cost_model(X, list(np.exp(np.sin(2 * X).sum(1))))
    rec.execution()
