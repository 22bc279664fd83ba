"""C15: surrogate wrappers: predictions, updates and copies keep their contract.

Real code: GPModel, GPModel_MCMC, WarpedGPModel, InputWarpedGP over GPy. Explored: all sequences of operations (updates with data sets of
different sizes, predictions of every kind, copies) up to a depth, after each of which the surrogate is judged at the points of a lattice
against the closed form of the posterior written in numpy (for the parameters the surrogate has)."""
import itertools
import numpy as np
import GPy
import GPyOpt
from .. import ref as R

PROPERTY = 'C15'
BOUNDS = {
    'quick': '12 Gaussian process surrogates (kernels, ARD, mean function, exact / given / estimated noise, sparse, optimized), 3 integrated ones, 2 warped, 1 input warped; all sequences of 3 operations out of {update with 4 data sets (grown, shrunk, replaced by as many other points), predict, predict with gradients, covariance, incumbent, copy and go on with the copy / with the original} starting with an update (also with a single point, with equal outputs); 3 or 9 points of a lattice in 1-3 dimensions',
    'thorough': 'sequences of 4 operations',
}
ASSUMPTIONS = ['kernel matrices are those of GPy; the sparse, warped and input warped surrogates are compared with the GPy model inside of them']

k = GPy.kern
M = GPyOpt.models
KW = dict(max_iters=0, verbose=False)
GP = {
    'default': (1, lambda: M.GPModel(**KW)),
    'default2': (2, lambda: M.GPModel(**KW)),
    'rbf': (2, lambda: M.GPModel(kernel=k.RBF(2, variance=2., lengthscale=.8), **KW)),
    'ard': (3, lambda: M.GPModel(ARD=True, **KW)),
    'exact': (2, lambda: M.GPModel(exact_feval=True, **KW)),
    'exact+noise': (1, lambda: M.GPModel(exact_feval=True, noise_var=.3, **KW)),
    'noise': (1, lambda: M.GPModel(noise_var=.25, **KW)),
    'sum': (2, lambda: M.GPModel(kernel=k.Matern32(2) + k.Bias(2), noise_var=.1, **KW)),
    'mean': (1, lambda: M.GPModel(mean_function=GPy.mappings.Linear(1, 1), noise_var=.1, **KW)),
    'optimized': (1, lambda: M.GPModel(max_iters=15, optimize_restarts=1, verbose=False)),
    'restarts': (1, lambda: M.GPModel(max_iters=10, optimize_restarts=2, verbose=False)),
    'sparse': (1, lambda: M.GPModel(sparse=True, num_inducing=3, **KW)),
    'mcmc': (1, lambda: M.GPModel_MCMC(n_samples=3, n_burnin=2, subsample_interval=2, leapfrog_steps=2)),
    'mcmc2': (2, lambda: M.GPModel_MCMC(kernel=k.Matern52(2), n_samples=2, n_burnin=1, subsample_interval=3, leapfrog_steps=2, noise_var=.2)),
    'mcmc exact': (1, lambda: M.GPModel_MCMC(exact_feval=True, n_samples=2, n_burnin=0, subsample_interval=1, leapfrog_steps=2)),
    'warped': (1, lambda: M.WarpedGPModel(max_iters=5, warping_terms=2)),
    'warped exact': (2, lambda: M.WarpedGPModel(max_iters=3, warping_terms=1, exact_feval=True)),
}
OPS = ['A', 'B', 'C', 'D', 'predict', 'grad', 'cov', 'fmin', 'copy', 'keep']


def cases(tier):
    out = []
    for m in GP:
        for first in 'ABCDEF':
            out.append(('%s/%s' % (m, first), ('gp', m, first, tier)))
    out.append(('input warped', ('iw',)))
    return out


def weight(p):
    return 1 if p[0] == 'iw' else 3 if 'warped' in p[1] else 2 if 'mcmc' in p[1] else 1


def data(d):
    X = np.array([[.1 + .8 * i - .3 * j * (i % 3) for j in range(d)] for i in range(6)]) - 1.5
    f = lambda X: (np.sin(2 * X).sum(1) + X[:, 0] ** 2)[:, None]
    Z = np.array([[-.7, .4, 1.], [1.2, -.9, 0.]])[:, :d]
    return {'A': (X[:3], f(X[:3])), 'B': (X, f(X) - .5), 'C': (Z, np.array([[2.], [-1.]])), 'D': (X[[1, 5, 3]] + .07, np.array([[-1.], [.5], [3.]])),
            'E': (X[1:2], np.array([[0.]])), 'F': (X[:4], np.full((4, 1), -2.))}


def lattice(d):
    return np.array(list(itertools.product({1: (-1.45, .2, 1.9), 2: (-1.2, .1, 1.), 3: (-1., .6)}[d], repeat=d)))


def run(params, rec):
    globals()['run_' + params[0]](rec, *params[1:])


def run_gp(rec, name, first, tier):
    d, make = GP[name]
    D = data(d)
    ops = [o for o in OPS if not ('warped' in name and o in ('grad', 'cov', 'copy', 'keep')) and not ('mcmc' in name and o == 'cov')]
    depth = 4 if tier == 'thorough' else 3
    slow = 'mcmc' in name or 'warped' in name
    for seq in itertools.product(ops, repeat=(depth if not slow else depth - 1) - 1):
        if not slow or tier == 'thorough':
            np.random.seed(7)
        play(rec, name, make(), D, (first,) + seq, lattice(d))
        rec.execution()
    rec.outcome(name)


def snapshot(m, Q):
    """everything that can be observed of the surrogate"""
    a = np.array(m.model.param_array)         # before anything is predicted
    p = m.predict(Q)
    return (np.array(p[0]), np.array(p[1]), np.array(m.get_fmin()), a, np.array(m.model.X), np.array(m.model.Y))


def same(rec, a, b, msg, **detail):
    for x, y in zip(a, b):
        rec.check(x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-9), msg, got=x, expected=y, **detail)


def play(rec, name, m, D, seq, Q):
    cur = base = None
    others = []                              # surrogates left behind with what they predicted
    for i, o in enumerate(seq):
        det = dict(model=name, history=seq[:i + 1])
        Q0 = Q.copy()
        before = base                        # what was observed right after the last update
        if o in D:
            X, Y = D[o]
            X0, Y0 = X.copy(), Y.copy()
            if cur is not None and name in ('optimized', 'restarts'):
                t = m.copy()
                t.max_iters = 0
                t.updateModel(X, Y, None, None)
                floor = t.model.log_likelihood()
            else:
                floor = None
            m.updateModel(X, Y, None, None)
            cur = (X0, Y0)
            rec.check(np.array_equal(X, X0) and np.array_equal(Y, Y0), 'the update modifies the data it is given', **det)
            base = snapshot(m, Q)
            if floor is not None:
                rec.check(m.model.log_likelihood() >= floor - 1e-6, 'training lowers the likelihood of the data', got=m.model.log_likelihood(), expected=floor, **det)
        elif o == 'predict':
            m.predict(Q)
            m.predict(Q[:1])
        elif o == 'grad':
            m.predict_withGradients(Q)
        elif o == 'cov':
            m.predict_covariance(Q)
            if name != 'sparse':               # GPy has no covariance between points of a sparse model
                m.get_covariance_between_points(Q[:2], Q)
        elif o == 'fmin':
            m.get_fmin()
        else:
            c = m.copy()
            rec.check(type(c) is type(m) and c is not m, 'type of the copy', **det)
            same(rec, snapshot(c, Q), before, 'the copy differs from the original', **det)
            if o == 'copy':
                m, c = c, m
            others.append((c, before, cur))
        if o not in D:
            same(rec, snapshot(m, Q), before, 'an operation that does not update changes the surrogate', **det)
        rec.check(np.array_equal(Q, Q0), 'the points of the prediction were modified', **det)
        judge(rec, name, m, cur, Q, det)
        same(rec, snapshot(m, Q), base, 'predicting changes the surrogate', **det)
        for c, b, dat in others:
            same(rec, snapshot(c, Q), b, 'a copy is not independent', **det)
        rec.state(name, seq[:i + 1], snapshot(m, Q)[0])
        rec.trans()


def posterior(kern, noise, X, Y, Q, mean=None):
    mu = (lambda x: 0.) if mean is None else mean
    K = kern.K(X) + (noise + 1e-8) * np.eye(len(X))
    A = np.linalg.solve(K, kern.K(X, Q))
    return mu(Q) + A.T.dot(Y - mu(X)), kern.K(Q) - kern.K(Q, X).dot(A), A


def judge(rec, name, m, cur, Q, det):
    X, Y = cur
    n = len(Q)
    rec.check(np.allclose(m.model.X, X) and (('warped' in name) or np.allclose(m.model.Y, Y)), 'the surrogate is not on the data of the last update', got=np.asarray(m.model.X), expected=X, **det)
    if 'warped' in name:
        mm, v = m.model.predict(Q)
        p = m.predict(Q)
        shapes(rec, p[0], p[1], n, det)
        rec.close(p[0], mm, 'mean of the warped surrogate', tol=1e-9, **det)
        rec.close(p[1], np.sqrt(np.clip(v, 1e-10, np.inf)), 'deviation of the warped surrogate', tol=1e-9, **det)
        rec.close(m.get_fmin(), m.model.predict(X)[0].min(), 'incumbent', tol=1e-9, **det)
        for i in range(n):
            for q in (Q[i], Q[i:i + 1]):
                rec.close(m.predict(q)[0], p[0][i:i + 1], 'prediction of one row', tol=1e-7, **det)
        nv = float(np.ravel(m.model.Gaussian_noise.variance)[0])
        rec.check(nv > 0 and (abs(nv - 1e-6) < 1e-12 if 'exact' in name else True), 'noise of the warped surrogate', got=nv, **det)
        return
    if 'mcmc' in name:
        means, sds = m.predict(Q)
        g = m.predict_withGradients(Q)
        fm = m.get_fmin()
        ns = m.n_samples
        rec.check(len(means) == len(sds) == len(fm) == ns and all(len(x) == ns for x in g), 'one prediction per sample of the parameters', got=(len(means), len(sds), len(fm)), expected=ns, **det)
        for i, s in enumerate(m.hmc_samples):
            kern = m.model.kern.copy()
            kern[:] = s[:2]
            noise = 1e-6 if 'exact' in name else float(s[2])
            mu, C, _ = posterior(kern, noise, X, Y, Q)
            shapes(rec, means[i], sds[i], n, det)
            rec.close(means[i], mu, 'mean of sample %d' % i, tol=2e-4, **det)
            rec.close(sds[i] ** 2, np.clip(np.diag(C)[:, None] + noise, 1e-10, np.inf), 'variance of sample %d' % i, tol=2e-5, **det)
            rec.close(fm[i], posterior(kern, noise, X, Y, X)[0].min(), 'incumbent of sample %d' % i, tol=2e-4, **det)
            rec.close(g[0][i], means[i], 'means with gradients', tol=1e-9, **det)
            rec.close(g[1][i], sds[i], 'deviations with gradients', tol=1e-9, **det)
        one = m.predict(Q[0])
        rec.close(one[0][-1], means[-1][:1], 'prediction of a vector', tol=1e-7, **det)
        return
    p, sd = m.predict(Q)
    shapes(rec, p, sd, n, det)
    if name == 'sparse':
        mm, v = m.model.predict(Q)
        rec.close(p, mm, 'mean', tol=1e-9, **det)
        rec.close(sd, np.sqrt(v), 'deviation', tol=1e-9, **det)
        rec.close(m.predict(Q, with_noise=False)[1], np.sqrt(np.clip(m.model.predict(Q, include_likelihood=False)[1], 1e-10, np.inf)), 'deviation without noise', tol=1e-9, **det)
        rec.close(m.get_fmin(), m.model.predict(X)[0].min(), 'incumbent', tol=1e-9, **det)
        return
    noise = float(m.model.likelihood.variance[0])
    if 'exact' in name:
        rec.check(abs(noise - 1e-6) < 1e-12, 'noise with exact evaluations', got=noise, **det)
    elif name in ('noise', 'sum', 'mean'):
        rec.close(noise, {'noise': .25, 'sum': .1, 'mean': .1}[name], 'noise given by the user', tol=1e-9, **det)
    elif 'optimized' not in name and name != 'restarts':
        rec.close(noise, .01 * (data(X.shape[1])[det['history'][0]][1].var() or 1.), 'initial noise', tol=1e-9, **det)
    mean = None if name != 'mean' else (lambda x: x * float(m.model.mean_function.A[0, 0]))
    kern = m.model.kern
    mu, C, A = posterior(kern, noise, X, Y, Q, mean)
    t = 2e-4
    rec.close(p, mu, 'mean', tol=t, **det)
    rec.close(sd ** 2, np.clip(np.diag(C)[:, None] + noise, 1e-10, np.inf), 'variance', tol=2e-5, **det)
    p0, sd0 = m.predict(Q, with_noise=False)
    rec.close(p0, mu, 'mean without noise', tol=t, **det)
    rec.close(sd0 ** 2, np.clip(np.diag(C)[:, None], 1e-10, np.inf), 'variance without noise', tol=2e-5, **det)
    floor = np.eye(n) * 1e-10
    rec.close(m.predict_covariance(Q), C + noise * np.eye(n), 'covariance', tol=2e-5, **det)
    rec.close(m.predict_covariance(Q, with_noise=False), C + floor, 'covariance without noise', tol=2e-5, **det)
    rec.check(np.all(np.diag(m.predict_covariance(Q, with_noise=False)) > 0) and np.all(np.diag(m.predict_covariance(X, with_noise=False)) > 0), 'a variance is not positive', **det)
    rec.check(np.all(m.predict(X, with_noise=False)[1] > 0), 'a deviation at the data is not positive', **det)
    rec.close(m.get_covariance_between_points(Q[:2], Q), C[:2], 'covariance between points', tol=2e-5, **det)
    rec.close(m.get_fmin(), posterior(kern, noise, X, Y, X, mean)[0].min(), 'incumbent', tol=t, **det)
    g = m.predict_withGradients(Q)
    rec.close(g[0], p, 'mean with gradients', tol=1e-9, **det)
    rec.close(g[1], sd, 'deviation with gradients', tol=1e-9, **det)
    for i in range(n):
        for q in (Q[i], Q[i:i + 1]):
            rec.close(m.predict(q)[0], p[i:i + 1], 'mean of one row', tol=1e-7, **det)
            rec.close(m.predict(q)[1], sd[i:i + 1], 'deviation of one row', tol=1e-7, **det)


def shapes(rec, m, s, n, det):
    rec.check(np.shape(m) == (n, 1) and np.shape(s) == (n, 1), 'shape of the predictions', got=(np.shape(m), np.shape(s)), **det)
    rec.check(np.all(np.isfinite(m)) and np.all(np.asarray(s) > 0) and np.all(np.isfinite(s)), 'predictions are finite with positive deviations', got=s, **det)


def run_iw(rec):
    sp = GPyOpt.Design_space([R.C('a', (-2., 2.))])
    m = M.InputWarpedGPModel(sp, max_iters=2, optimize_restarts=1, verbose=False)
    D = data(1)
    m.updateModel(D['A'][0], D['A'][1], None, None)
    try:
        p, s = m.predict(lattice(1))
    except TypeError as e:
        rec.fail('the input warped surrogate does not predict: %s' % e, 'input-warped-predict')
    else:
        shapes(rec, p, s, 3, {})
    rec.execution()
    rec.outcome('input warped')
    # the warping applies to the columns of the continuous and discrete variables of the encoded data, and to no others
    for name in ('c1', 'cc', 'dd', 'c2', 'dkc', 'cdk', 'kcd', 'm2'):
        ref = R.RefDomain(R.DOMAINS[name])
        sp = GPyOpt.Design_space(R.DOMAINS[name])
        X = np.array([ref.encode(p) for p in ref.lattice(3)[::max(1, len(ref.lattice(3)) // 7)]])
        m = M.InputWarpedGPModel(sp, max_iters=0, verbose=False)
        cols = [c for v in ref.vars if v.type in ('continuous', 'discrete') for c in ref.cols()[v.name][1]]
        try:
            m.updateModel(X, X[:, :1] * 1., None, None)
            got = list(m.model.warping_function.warping_indices)
        except Exception as e:
            got = repr(e)
        rec.check(got == cols, 'columns that are warped in %s' % name, got=got, expected=cols)
        rec.execution()
