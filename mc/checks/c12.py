"""C12: acquisition values equal their definitions for every prediction, incumbent, parameter, cost and constraint.

Real code: the acquisition classes over a surrogate whose mean and standard deviation are coordinates of the point, so that the points
enumerate the predictions. Oracle: the formulas of the literature written with scipy.stats.norm."""
import itertools
import numpy as np
from scipy.stats import norm
import GPyOpt
from GPyOpt import acquisitions as A
from .. import ref as R
from ..env import TableModel

PROPERTY = 'C12'
BOUNDS = {
    'quick': 'integrated versions over 1, 2, 3, 5 and 12 samples; means {-3,-.7,-.01,0,.4,1,40} x deviations {1e-14,1e-6,1e-3,.1,.5,1,3} x incumbents {-1,0,.4,2} x 5 parameters x 3 costs x 5 spaces (without constraints, constraints on one or two variables, categorical variables) x 6 acquisitions (integrated: 1, 2, 3 and 5 samples); blocks of 1-3 rows out of 6, in every order',
    'thorough': 'blocks of 4 rows out of 8, 8 incumbents',
}
ASSUMPTIONS = ['deviations below 1e-10 may be treated as 1e-10']

MEANS = [-3., -.7, -.01, 0., .4, 1., 40.]
SDS = [1e-14, 1e-6, 1e-3, .1, .5, 1., 3.]
SPACES = {
    'free': ([R.C('m', (-50., 50.)), R.C('s', (0., 5.))], None),
    'one': ([R.C('m', (-50., 50.)), R.C('s', (0., 5.))], R.con('x[:,0] - .4')),
    'two': ([R.C('m', (-50., 50.)), R.C('s', (0., 5.))], R.con('x[:,0] - 1', '.05 - x[:,1]')),
    'cat': ([R.C('k', (4, 7, 5), type='categorical'), R.C('m', (-50., 50.)), R.C('s', (0., 5.))], R.con('(x[:,0]-6)*(x[:,1]+.1)')),
    'catfree': ([R.C('k', (4, 7), type='categorical'), R.C('m', (-50., 50.)), R.C('s', (0., 5.))], None),
}
COSTS = ['none', 'user', 'scaled']
SAMPLES = [[(1., 0., 1.)], [(1., 0., 1.), (.5, .3, 2.)], [(1., 0., 1.), (-.5, .3, .5), (2., -1., 1.5)],
           [(1., 0., 1.), (-.5, .3, .5), (2., -1., 1.5), (.1, .2, .8), (-1., 0., 1.1)],
           [(1. - .1 * i, .3 * i - 1., .6 + .15 * i) for i in range(12)]]


def cases(tier):
    out = []
    for kind in ('EI', 'MPI', 'LCB'):
        for mcmc in (None, 0, 1, 2, 3, 4):
            for cost in COSTS:
                for sp in SPACES:
                    if mcmc and sp in ('one', 'catfree') or mcmc == 4 and (sp != 'free' or cost == 'scaled'):
                        continue
                    out.append(('%s/%s/%s/%s' % (kind, 'plain' if mcmc is None else 'mcmc%d' % len(SAMPLES[mcmc]), cost, sp), (kind, mcmc, cost, sp, tier)))
    return out


def cost_function(name):
    if name == 'none':
        return None
    c = 1. if name == 'user' else 7.5

    def cost(x):
        x = np.atleast_2d(x)
        return c * (1 + (x ** 2).sum(1)[:, None]), c * 2 * x
    return cost


def formula(kind, par, m, s, fmin):
    s = max(s, 1e-10)
    u = (fmin - m - par) / s
    if kind == 'EI':
        return (fmin - m - par) * norm.cdf(u) + s * norm.pdf(u)
    if kind == 'MPI':
        return norm.cdf(u)
    return -m + par * s


def known_ei(par, m, s, fmin):
    """the recorded defect of the integrated expected improvement"""
    s = max(s, 1e-10)
    u = (fmin - m - par) / s
    return (fmin - m + par) * norm.cdf(u) + s * norm.pdf(u)


def run(params, rec):
    kind, mcmc, cost, spn, tier = params
    dom, con = SPACES[spn]
    ref = R.RefDomain(dom, con)
    sp = GPyOpt.Design_space(dom, con)
    cats = [(k,) for k in dom[0]['domain']] if dom[0]['name'] == 'k' else [()]
    model = TableModel(samples=None if mcmc is None else SAMPLES[mcmc], off=ref.nmodel - 2)
    cls = getattr(A, 'Acquisition' + kind + ('' if mcmc is None else '_MCMC'))
    cf = cost_function(cost)
    samples = [(1., 0., 1.)] if mcmc is None else SAMPLES[mcmc]
    fmins = [-1., 0., .4, 2.] + ([-30., -.0101, .41, 39.] if tier == 'thorough' else [])
    for par in ((0., .01, .3, 2., -.2) if kind != 'LCB' else (0., 1., 2., 3.5, -.5)):
        kw = {'exploration_weight': par} if kind == 'LCB' else {'jitter': par}
        for fmin in fmins:
            model.fmin = fmin
            acq = cls(model, sp, None, cf, **kw)
            allp = []
            for c, m, s in itertools.product(cats, MEANS, SDS):
                row = tuple(c) + (m, s)
                if kind == 'MPI' and any(s * cs < 1e-5 and abs(f - par - (a * m + b)) < 1e-5 for (a, b, cs), f in zip(samples, model.fmins())):
                    continue          # a step function seen through the floor of the deviation
                x = np.array([ref.encode(row)])
                want, wrong = 0., 0.
                for (a, b, cs), f in zip(samples, model.fmins()):
                    want += formula(kind, par, a * m + b, cs * s, f) / len(samples)
                    wrong += known_ei(par, a * m + b, cs * s, f) / len(samples)
                div = 1. if cf is None or kind == 'LCB' else float(cf(x)[0][0, 0])
                feas = 1. if ref.feasible(row) else 0.
                x0 = x.copy()
                v = np.asarray(acq.acquisition_function(x))
                judge(rec, kind, mcmc, v, -want * feas / div, -wrong * feas / div, 'value of the acquisition', point=row, incumbent=fmin, parameter=par)
                vg, g = acq.acquisition_function_withGradients(x)
                judge(rec, kind, mcmc, np.asarray(vg), -want * feas / div, -wrong * feas / div, 'value of the acquisition with gradients', point=row, incumbent=fmin, parameter=par)
                rec.check(np.asarray(g).shape == (1, ref.nmodel), 'shape of the gradient', got=np.shape(g))
                if not feas:
                    rec.check(np.all(np.asarray(g) == 0), 'gradient outside of the constraints', got=g, point=row)
                rec.check(np.array_equal(x, x0), 'the acquisition modifies its argument', point=row)
                rec.state(kind, mcmc, cost, spn, par, fmin, row)
                rec.trans()
                allp.append((row, x, float(v.ravel()[0])))
            blocks(rec, acq, allp, tier)
            rec.execution()
    rec.outcome(kind)


def judge(rec, kind, mcmc, v, want, wrong, what, **detail):
    rec.check(v.shape == (1, 1), 'shape of the ' + what, got=v.shape, **detail)
    v = float(v[0, 0])
    ok = abs(v - want) <= 1e-9 + 1e-9 * abs(want)
    key = 'ei-mcmc-jitter' if kind == 'EI' and mcmc is not None and abs(v - wrong) <= 1e-9 + 1e-9 * abs(wrong) else None
    rec.check(ok, what, key, got=v, expected=want, **detail)


def blocks(rec, acq, allp, tier):
    """row by row: a block has the values of its rows"""
    n = len(allp)
    pick = [allp[i] for i in sorted(set(int(k) for k in np.linspace(0, n - 1, 6 if tier != 'thorough' else 8)))]
    for r in (2, 3) if tier != 'thorough' else (2, 3, 4):
        for sub in itertools.permutations(pick, r):
            X = np.vstack([p[1] for p in sub])
            want = np.array([[p[2]] for p in sub])
            rec.close(acq.acquisition_function(X), want, 'values of a block of rows', tol=1e-12)
            if r == 2:
                rec.close(acq.acquisition_function_withGradients(X)[0], want, 'values with gradients of a block of rows', tol=1e-12)
            rec.trans()
