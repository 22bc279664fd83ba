"""C22: the distribution of the minimum (util/epmgp.joint_min) and the entropy search acquisition.

Real code: joint_min, AcquisitionEntropySearch, AffineInvariantEnsembleSampler. Explored: a lattice of Gaussian distributions over up to 5 points
(4 in the quick tier for most), all permutations of the points; for the acquisition all histories of updates / optimizations / evaluations of the bound with
every set of representers of a menu. Oracle: the orthant probabilities (numerical integration), identities of a normalized family, finite
differences, the formula of the acquisition (Hennig and Schuler) written here."""
import itertools
import numpy as np
import scipy.stats
import GPy
import GPyOpt
from GPyOpt.util.epmgp import joint_min
from GPyOpt.util.mcmc_sampler import AffineInvariantEnsembleSampler
from .. import ref as R

PROPERTY = 'C22'
BOUNDS = {
    'quick': 'means in {0,1,2.5}^D, D<=4 and a part of D=5, 18 covariances each; all permutations (D<=4); acquisition: 8 surrogates x representer sets x histories of 3 operations of 6 (new data, as many other data, optimizations, evaluations)',
    'thorough': 'all of D=5, histories of 5 operations',
}
ASSUMPTIONS = ['expectation propagation is approximate: 0.02 absolute against the exact probabilities']


def covariances(D):
    x = np.arange(D) / 2.
    for l in (.3, 1., 3.):
        for s in (.3, 1., 3.):
            K = np.exp(-.5 * (x[:, None] - x) ** 2 / l ** 2)
            yield 'l%g s%g' % (l, s), s * K + 1e-4 * np.eye(D)
            w = 1 + np.arange(D) % 3
            yield 'l%g s%g w' % (l, s), s * K * np.sqrt(np.outer(w, w)) + .05 * np.eye(D)


def means(D, tier):
    ms = list(itertools.product((0., 1., 2.5), repeat=D))
    if D == 5 and tier != 'thorough':
        ms = [m for m in ms if list(m) == sorted(m) or m[0] == max(m)]
    return ms


def cases(tier):
    out = [('D=%d %s' % (D, n), ('joint', D, n, tier)) for D in (1, 2, 3, 4, 5) for n, _ in covariances(D)]
    out.append(('extremes', ('extremes',)))
    for k in range(len(SURROGATES)):
        out.append(('acquisition %d' % k, ('acq', k)))
        out.append(('history %d' % k, ('history', k, 5 if tier == 'thorough' else 3)))
    out += [('sampler %d' % i, ('sampler', i)) for i in range(len(SAMPLERS))]
    return out


def run(params, rec):
    globals()['run_' + params[0]](rec, *params[1:])
    rec.outcome(params[0])


def exact(mu, S):
    D = len(mu)
    p = []
    for k in range(D):
        A = -np.eye(D)
        A[:, k] += 1
        A = np.delete(A, k, 0)
        p.append(float(scipy.stats.multivariate_normal.cdf(np.zeros(D - 1), mean=A @ mu, cov=A @ S @ A.T, allow_singular=True)))
    return np.array(p)


def tril(D):
    return [(i, j) for i in range(D) for j in range(i + 1)]


def run_joint(rec, D, name, tier):
    S = dict(covariances(D))[name]
    for m in means(D, tier):
        mu = np.array(m)
        keep = mu.copy(), S.copy()
        lp, a, b, c = joint_min(mu, S, with_derivatives=True)
        rec.same(mu, keep[0], 'the mean was modified')
        rec.same(S, keep[1], 'the covariance was modified')
        rec.state(D, name, m)
        rec.execution()
        rec.close(joint_min(mu, S), lp, 'the distribution depends on whether derivatives are asked for', tol=1e-12, mean=m, cov=S)
        p = np.exp(lp)
        rec.check(p.shape == (D,) and a.shape == (D, D) and b.shape == (D, D * (D + 1) // 2) and c.shape == (D, D, D), 'shapes', got=[x.shape for x in (p, a, b, c)])
        rec.check(np.isfinite(lp).all() and np.isfinite(a).all() and np.isfinite(b).all() and np.isfinite(c).all(), 'values that are not finite', mean=m, cov=S)
        rec.close(p.sum(), 1., 'the probabilities do not sum to one', tol=1e-9, mean=m, cov=S)
        ex = np.ones(1) if D == 1 else exact(mu, S)
        rec.close(p, ex, 'the probability of being the minimum', tol=1e-6 if D < 3 else .02, mean=m, cov=S)
        # identities of a distribution that is normalized, invariant under shifts
        rec.close(a.sum(1), np.zeros(D), 'the derivatives with respect to the mean do not cancel under a shift', tol=1e-6, mean=m, cov=S)
        rec.close(c.sum(2), np.zeros((D, D)), 'the second derivatives do not cancel under a shift', tol=1e-6, mean=m, cov=S)
        rec.close(c, c.transpose(0, 2, 1), 'the second derivatives are not symmetric', tol=1e-8, mean=m, cov=S)
        rec.close(p @ a, np.zeros(D), 'the derivatives of the probabilities do not sum to zero', tol=1e-8, mean=m, cov=S)
        rec.close(p @ b, np.zeros(b.shape[1]), 'the derivatives of the probabilities with respect to the covariance do not sum to zero', tol=1e-8, mean=m, cov=S)
        rec.close(np.einsum('k,kij->ij', p, c + np.einsum('ki,kj->kij', a, a)), np.zeros((D, D)), 'the second derivatives of the probabilities do not sum to zero', tol=1e-7, mean=m, cov=S)
        likely = lp > -8
        if D < 5:
            h = 1e-4
            da = np.array([(joint_min(mu + h * e, S) - joint_min(mu - h * e, S)) / (2 * h) for e in np.eye(D)]).T
            rec.close(a[likely], da[likely], 'derivative with respect to the mean', tol=.05, mean=m, cov=S)
            db = []
            for i, j in tril(D):
                E = np.zeros((D, D))
                E[i, j] = E[j, i] = h * .1
                db.append((joint_min(mu, S + E) - joint_min(mu, S - E)) / (2 * h * .1))
            db = np.array(db).T
            rec.close(b[likely], db[likely], 'derivative with respect to the covariance', tol=.05 * max(1, abs(db[likely]).max()), mean=m, cov=S)
            if D < 3:
                dc = np.array([(joint_min(mu + h * e, S, True)[1] - joint_min(mu - h * e, S, True)[1]) / (2 * h) for e in np.eye(D)]).transpose(1, 2, 0)
                rec.close(c[likely], dc[likely], 'second derivative', tol=1e-4 * (1 + abs(dc[likely]).max()), mean=m, cov=S)
            for q in itertools.permutations(range(D)):
                q = list(q)
                lq, aq, bq, cq = joint_min(mu[q], S[np.ix_(q, q)], True)
                rec.close(np.exp(lq), p[q], 'the probabilities depend on the order of the points', tol=1e-3, mean=m, cov=S, order=q)
                l2 = likely[q] & (lq > -8)
                rec.close(aq[l2], a[np.ix_(q, q)][l2], 'the derivatives depend on the order of the points', tol=.02, mean=m, cov=S, order=q)
                bb = dict(zip(tril(D), b.T))
                want = np.array([bb[max(q[i], q[j]), min(q[i], q[j])][q] for i, j in tril(D)]).T
                rec.close(bq[l2], want[l2], 'the derivatives with respect to the covariance depend on the order of the points', tol=.05 * max(1, abs(want[l2]).max()), mean=m, cov=S, order=q)
                rec.trans()
        rec.close(np.exp(joint_min(mu - 3, S)), p, 'the probabilities depend on a common shift', tol=1e-3, mean=m, cov=S)
        ls, as_, bs, cs = joint_min(mu / 2, S / 4, True)
        rec.close(np.exp(ls), p, 'the probabilities depend on a common scaling', tol=.01, mean=m, cov=S)


def run_extremes(rec):
    """means far apart, nearly equal points, tiny and huge scales"""
    for D in (2, 3, 4):
        for m in itertools.product((0., 40., -7.), repeat=D):
            for s in (1e-6, 1., 1e6):
                for rho in (0., .9999):
                    mu = np.array(m) * np.sqrt(s)
                    S = s * ((1 - rho) * np.eye(D) + rho)
                    lp = joint_min(mu, S)
                    p = np.exp(lp)
                    rec.check(np.isfinite(lp).all() and (lp <= 1e-12).all(), 'log-probabilities that are not finite and negative', mean=mu, cov=S, got=lp)
                    rec.close(p.sum(), 1., 'the probabilities do not sum to one', tol=1e-9, mean=mu, cov=S)
                    low = mu == mu.min()
                    rec.close(p[~low], np.zeros((~low).sum()), 'a point far above another is the minimum', tol=1e-3, mean=mu, cov=S)
                    rec.close(p[low], np.full(low.sum(), 1. / low.sum()), 'equal points are the minimum with equal probability', tol=.02, mean=mu, cov=S)
                    rec.state(D, m, s, rho)
                    rec.execution()


# ---------------------------------------------------------------------------------------------------- acquisition
def surrogate(kern, noise, dims, n, exact=False):
    X = np.array(list(itertools.product(np.linspace(0, 1, 3), repeat=dims)))[:n] * .9
    Y = np.sin(3 * X.sum(1) + 1)[:, None] + .1 * X[:, :1]
    m = GPyOpt.models.GPModel(kernel=kern(dims), noise_var=noise, exact_feval=exact, optimize_restarts=1, max_iters=0)
    m.updateModel(X, Y, None, None)
    return m, X, Y


SURROGATES = [(k, v, d, n) for k in ('RBF', 'Matern52') for v, n in ((1e-4, 3), (.1, 5)) for d in (1, 2)]


def make(k):
    kern, noise, dims, n = SURROGATES[k]
    m, X, Y = surrogate(lambda d: getattr(GPy.kern, kern)(d, lengthscale=.4, variance=.8), noise, dims, n)
    space = GPyOpt.Design_space([{'name': 'x', 'type': 'continuous', 'domain': (0, 1), 'dimensionality': dims}])
    return m, space, X, Y


def representers(dims):
    grid = np.array(list(itertools.product((.05, .45, .8), repeat=dims)))
    for idx in ([0], [0, 2], [2, 0, 1], list(range(min(5, len(grid))))):
        if max(idx) < len(grid):
            for kind in ('flat', 'slope', 'some'):
                log = {'flat': np.zeros(len(idx)), 'slope': -.7 * np.arange(len(idx)) + .3, 'some': np.where(np.arange(len(idx)) % 2, -np.inf, -.2)}[kind]
                yield grid[idx], log[:, None]


class Sampler(object):
    def __init__(self, pts, log):
        self.pts, self.log, self.calls, self.asked = pts, log, 0, []

    def get_samples(self, n, f, burn_in_steps=50):
        self.calls += 1
        self.asked.append((n, f, burn_in_steps))
        return self.pts.copy(), self.log.copy()


def reference(model, pts, log, n_samples, x):
    keep = np.isfinite(log[:, 0])
    pts, log = pts[keep], log[keep]
    gp = model.model
    N = len(pts)
    mu = gp.predict(pts)[0].ravel()
    var = gp.predict(pts, full_cov=True)[1]
    lp, a, b, c = joint_min(mu, var, with_derivatives=True)
    s = np.sqrt(np.clip(gp.predict_noiseless(x)[1], 1e-10, np.inf))
    cov = gp.posterior_covariance_between_points(pts, x, include_likelihood=False)
    dm = (cov / s)[:, 0]
    dv = -np.outer(dm, dm)
    det = b @ np.array([dv[i, j] for i, j in tril(N)]) + .5 * np.einsum('kij,i,j->k', c, dm, dm)
    w = scipy.stats.norm.ppf(np.linspace(1. / (n_samples + 1), 1 - 1. / (n_samples + 1), n_samples))
    new = lp[:, None] + det[:, None] + np.outer(a @ dm, w)
    new = new - scipy.special.logsumexp(new, axis=0)
    return float((np.exp(new) * (new + log)).sum(0).mean())


def run_acq(rec, k):
    m, space, X, Y = make(k)
    dims = X.shape[1]
    test = np.array(list(itertools.product((0., .3, .62, 1.), repeat=dims)))
    for pts, log in representers(dims):
        for ns in (1, 4, 25):
            s = Sampler(pts, log)
            acq = GPyOpt.acquisitions.AcquisitionEntropySearch(m, space, s, num_samples=ns, num_representer_points=len(pts), burn_in_steps=7)
            got = acq.acquisition_function(test)
            rec.check(s.calls == 1, 'representers drawn %d times for one surrogate' % s.calls)
            rec.check(s.asked[0][0] == len(pts) and s.asked[0][2] == 7, 'the sampler was not asked for the configured number of points', got=s.asked[0])
            want = np.array([[-reference(m, pts, log, ns, t[None])] for t in test])
            rec.close(got, want, 'entropy search acquisition', tol=1e-6, representers=pts, log=log, samples=ns)
            for t, w in zip(test, want):
                rec.close(acq.acquisition_function(t[None]), w[None], 'a point alone is judged differently from the same point among others', tol=1e-6)
            rec.check(s.calls == 1, 'representers drawn again for the same surrogate')
            rec.state(k, pts, log, ns)
            rec.execution()
            for q in itertools.islice(itertools.permutations(range(len(pts))), 1, 4):
                q = list(q)
                acq = GPyOpt.acquisitions.AcquisitionEntropySearch(m, space, Sampler(pts[q], log[q]), num_samples=ns, num_representer_points=len(pts))
                rec.close(acq.acquisition_function(test), got, 'the acquisition depends on the order of the representers', tol=.02, representers=pts, log=log, order=q)
    # invalid values of the proposal, wrong dimension, other surrogates
    pts = np.array(list(itertools.product((.05, .45, .8), repeat=dims)))[:3]
    for pos in range(3):
        for bad in (np.nan, np.inf):
            log = np.zeros((3, 1))
            log[pos] = bad
            acq = GPyOpt.acquisitions.AcquisitionEntropySearch(m, space, Sampler(pts, log), num_representer_points=3)
            try:
                acq.acquisition_function(test)
                rec.fail('invalid values of the proposal are accepted')
            except RuntimeError:
                rec.check(True, '')
    acq = GPyOpt.acquisitions.AcquisitionEntropySearch(m, space, Sampler(pts, np.zeros((3, 1))), num_representer_points=3)
    for wrong in (dims + 1, dims - 1):
        try:
            acq._compute_acq(np.zeros((1, wrong)))
            rec.fail('a location of another dimension is accepted')
        except ValueError:
            rec.check(True, '')
    try:
        GPyOpt.acquisitions.AcquisitionEntropySearch(GPyOpt.models.GPModel_MCMC(), space, Sampler(pts, np.zeros((3, 1))))
        rec.fail('a surrogate that is not a GP is accepted')
    except RuntimeError:
        rec.check(True, '')


def run_history(rec, k, depth):
    """update of the surrogate, optimization, evaluation: the acquisition refers to the current surrogate after every optimization"""
    kern, noise, dims, n = SURROGATES[k]
    ops = ('update', 'replace', 'optimize', 'evaluate', 'evaluate many', 'optimize twice')
    test = np.array(list(itertools.product((.1, .62), repeat=dims)))
    sets = [p for p in representers(dims) if len(p[0]) >= 2]

    class Opt(object):
        def __init__(self):
            self.seen = []

        def optimize(self, f=None, df=None, f_df=None, duplicate_manager=None):
            self.seen.append(f(test))
            i = int(np.argmin(self.seen[-1]))
            return test[[i]], self.seen[-1][[i]]
    for seq in itertools.product(ops, repeat=depth):
        m, space, X, Y = make(k)
        s = Sampler(*sets[0])
        opt = Opt()
        acq = GPyOpt.acquisitions.AcquisitionEntropySearch(m, space, s, optimizer=opt, num_samples=4, num_representer_points=len(s.pts))
        fixed = None      # the values that the acquisition must have
        for n, op in enumerate(seq):
            rec.trans()
            if op in ('update', 'replace'):
                if op == 'update':
                    X = np.vstack([X, np.full((1, dims), .15 + .2 * n)])
                    Y = np.vstack([Y, [[-1. - n]]])
                else:                 # as many other data
                    X, Y = X[::-1] * .9 + .03, Y[::-1] * 1.5 - n
                m.updateModel(X, Y, None, None)
                s.pts, s.log = sets[(n + 1) % len(sets)]
                acq.num_repr_points = len(s.pts)
                fixed = None
            elif op.startswith('optimize'):
                for _ in range(2 if 'twice' in op else 1):
                    x, fx = acq.optimize()
                    fixed = np.array([[-reference(m, s.pts, s.log, 4, t[None])] for t in test])
                    rec.close(opt.seen[-1], fixed, 'the acquisition that is optimized is not the one of the current surrogate', tol=1e-6, history=seq[:n + 1])
                    rec.close(np.atleast_2d(x), test[[int(np.argmin(fixed))]], 'not the optimum', tol=1e-12, history=seq[:n + 1])
            elif fixed is not None:
                pts = test if 'many' in op else test[:1]
                rec.close(acq.acquisition_function(pts), fixed[:len(pts)], 'the acquisition changed without an update', tol=1e-6, history=seq[:n + 1])
        rec.state(k, seq)
        rec.execution()


# ---------------------------------------------------------------------------------------------------- sampler
SAMPLERS = [(d, c, n, b) for d, c in (('c1', None), ('c2', None), ('c2', 0), ('cc', None)) for n in (6, 10) for b in (1, 5)]


def run_sampler(rec, i):
    dom, con, n, burn = SAMPLERS[i]
    D, cons = R.DOMAINS[dom], (R.CONSTRAINTS[dom][con] if con is not None else None)
    space = GPyOpt.Design_space(D, cons)
    ref = R.RefDomain(D, cons)
    lo, hi = np.array(space.get_bounds(), float).T
    s = AffineInvariantEnsembleSampler(space)
    for kind in ('flat', 'bump', 'half'):
        calls = []

        def logp(x):
            calls.append(np.array(x))
            assert np.ndim(x) == 1 and len(x) == len(lo), 'the density is asked for something that is not a point'
            if not (np.all(lo <= x) and np.all(x <= hi)) or kind == 'half' and x[0] > hi[0] + 1:
                return -np.inf
            return 0. if kind == 'flat' else float(-((x - lo - .3 * (hi - lo)) ** 2).sum())
        pts, log = s.get_samples(n, logp, burn)
        pts, log = np.asarray(pts), np.asarray(log)
        rec.check(pts.shape == (n, len(lo)) and log.shape == (n, 1), 'shape of the samples', got=(pts.shape, log.shape))
        rec.check(((pts >= lo) & (pts <= hi)).all(), 'samples outside of the support', got=pts)
        rec.close(log[:, 0], [logp(p) for p in pts], 'the values returned are not those of the samples', tol=1e-9)
        rec.check(len(calls) > n * burn * .5, 'no burn-in', got=len(calls))
        rec.state(i, kind)
        rec.execution()
    # the default proposal: log expected improvement in the box, impossible outside
    if con is None and dom in ('c1', 'c2', 'cc') and (n, burn) == (6, 1):
        m = GPyOpt.models.GPModel(optimize_restarts=1, max_iters=0, kernel=GPy.kern.RBF(len(lo), lengthscale=.5 * float((hi - lo).max())), noise_var=.01)
        X = lo + (hi - lo) * np.array([[.1] * len(lo), [.5] * len(lo), [.9] * len(lo)])
        m.updateModel(X, np.array([[1.], [0.], [.5]]), None, None)
        smp = Sampler(X, np.zeros((3, 1)))
        acq = GPyOpt.acquisitions.AcquisitionEntropySearch(m, space, smp, num_representer_points=3)
        acq.acquisition_function(X[:1])
        f = smp.asked[0][1]
        ei = GPyOpt.acquisitions.AcquisitionEI(m, space)
        for fr in itertools.product((-.1, 0., .25, .7, 1., 1.2), repeat=len(lo)):
            x = lo + (hi - lo) * np.array(fr)
            inside = all(0 <= v <= 1 for v in fr)
            want = float(np.log(-ei.acquisition_function(x[None]))[0, 0]) if inside else -np.inf
            rec.close(float(np.ravel(f(x))[0]), want, 'the proposal is not the logarithm of the expected improvement', tol=1e-9, at=x)
        try:
            f(X)
            rec.fail('the proposal accepts a matrix')
        except ValueError:
            rec.check(True, '')
