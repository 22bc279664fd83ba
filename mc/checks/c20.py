"""C20: every documented option reaches the component that it configures.

Real code: BayesianOptimization with the real surrogates. Explored: all pairs of departures from a base configuration over the menu of the
documented options; every configuration runs and is observed at the objective, at the surrogate, at the acquisition and at the libraries
that it calls (scipy, cma, DIRECT, GPy's optimizer and sampler)."""
import contextlib
import os
import sys
import tempfile
import types
import numpy as np
import GPy
import GPyOpt
from scipy.stats import norm as gauss
from .. import ref as R
from ..env import StubModel, few_anchors, patched, rows

PROPERTY = 'C20'
BOUNDS = {
    'quick': 'all pairs of alternatives of the 24 options of the menu (surrogate x acquisition, evaluator x batch size, optimizer, jitter, weight, kernel, ARD, exact evaluations, noise, restarts, iterations and method of the model, inducing points, sampler, cost, normalization, update interval, duplicates, design, cores, sign, domain, anchors, user surrogate and acquisition, data), 2 iterations each; all combinations of the options of the GP, sparse GP, warped GP and input warped GP on 2 or 3 domains (one or two updates each); wrong names and combinations',
    'thorough': 'all triples that include a surrogate or an evaluator other than the default ones',
}
ASSUMPTIONS = ['evaluations on several cores all take the same time (documented)', 'local penalization of an LCB is always softplus (documented)', 'LCB ignores costs (documented by a message)', 'Thompson batches always use L-BFGS', 'the warped GP has no restarts', 'DIRECT is a stand-in', 'local optimizers end where they start']
HORIZON = 300


class Fixed(GPyOpt.acquisitions.AcquisitionBase):
    """a user acquisition: prefers a point"""
    analytical_gradient_prediction = False
    calls = 0

    def _compute_acq(self, x):
        Fixed.calls += 1
        return -((np.atleast_2d(x) - .7) ** 2).sum(1)[:, None]


MENU = {
    'family': [('GP', 'EI'), ('GP', 'MPI'), ('GP', 'LCB'), ('sparseGP', 'EI'), ('sparseGP', 'LCB'), ('warpedGP', 'EI'), ('warpedGP', 'LCB'), ('GP_MCMC', 'EI_MCMC'), ('GP_MCMC', 'MPI_MCMC'), ('GP_MCMC', 'LCB_MCMC'),
               ('user', 'EI'), ('user', 'LCB'), ('user', 'MPI'), ('user-nograd', 'EI'), ('GP', 'user'), ('user', 'user')],
    'evaluator': [('sequential', 1), ('random', 3), ('local_penalization', 2), ('thompson_sampling', 2), ('local_penalization', 1), ('sequential', 3)],
    'optimizer': ['lbfgs', 'CMA', 'DIRECT'],
    'jitter': [None, .3, 0.],
    'weight': [None, .5, 0.],
    'kernel': [None, 'rbf'],
    'ARD': [None, True],
    'exact': [None, True],
    'noise_var': [None, .7],
    'restarts': [1, 3, None],
    'max_iters': [15, 0, 40],
    'method': [None, 'scg'],
    'inducing': [None, 3],
    'mcmc': [(2, 3, 1, .1, 2), (3, 2, 2, .05, 3)],
    'cost': [None, 'user', 'evaluation_time'],
    'normalize': [None, False],
    'interval': [None, 2],
    'dedup': [None, True],
    'design': [None, 'sobol', 'grid', 'latin'],
    'number': [6, None, 9],
    'cores': [1, 2],
    'maximize': [None, True],
    'domain': ['cc', 'cdk+', 'm2'],
    'anchors': [None, 'thompson_sampling'],
    'data': [None, 'X', 'XY'],
    'transformation': [None, 'softplus', 'none'],
}
BASE = {k: v[0] for k, v in MENU.items()}
DOM = {'cc': (R.DOMAINS['cc'], None), 'cdk+': (R.DOMAINS['cdk'], R.CONSTRAINTS['cdk'][0]), 'm2': (R.DOMAINS['m2'], None)}


def cases(tier):
    out = [('base', ('all', None, None, tier, 0, 1))]
    for k in sorted(MENU):
        for i in range(1, len(MENU[k])):
            parts = 6 if k == 'family' and MENU[k][i][0] == 'warpedGP' else 2 if k in ('cost', 'cores') else 1
            out += [('%s/%s%s' % (k, MENU[k][i], '/%d' % q if parts > 1 else ''), ('all', k, i, tier, q, parts)) for q in range(parts)]
    out.append(('wrong', ('wrong',)))
    out += [('input warped %s' % d, ('iw', d)) for d in ('cc', 'cdk+', 'm2')]
    out += [('warped %s' % d, ('warped', d)) for d in ('cc', 'm2')]
    out += [('options of %s %s' % (m, d), ('surrogate', m, d)) for m in ('GP', 'sparseGP') for d in ('cc', 'cdk+')]
    out += [('combination/%s-%s' % MENU['family'][i], ('default', i)) for i in range(len(MENU['family']))]
    return out


def weight(p):
    return 9 if p[0] == 'default' or (p[0] == 'all' and p[1] == 'family' and MENU['family'][p[2]][0] == 'warpedGP') else 5 if len(p) > 1 and p[1] in ('family', 'restarts', 'cost', 'evaluator', 'cores') else 1


def run(params, rec):
    with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null):
        globals()['run_' + params[0]](rec, *params[1:])


class UserModel(StubModel):
    def get_fmin(self):
        return 0.2


@contextlib.contextmanager
def libraries(log, anchors=25):
    """the local optimizers end where they start and note that they were called; so do the optimizer and the sampler of GPy"""
    import scipy.optimize
    import cma
    import paramz
    real = scipy.optimize.fmin_l_bfgs_b

    def lbfgs(func, x0, fprime=None, args=(), approx_grad=0, bounds=None, **kw):
        if bounds is None:
            return real(func, x0, fprime=fprime, args=args, approx_grad=approx_grad, **kw)
        log.append(('lbfgs', bool(approx_grad), len(bounds)))
        x0 = np.array(x0, float).ravel()
        v = func(x0)
        return x0, float(np.ravel(v[0] if isinstance(v, tuple) else v)[0]), {'task': 'CONVERGENCE', 'warnflag': 0, 'funcalls': 1, 'nit': 0, 'grad': np.zeros(len(x0))}

    def fmin(f, x0, sigma0, *a, **kw):
        log.append(('CMA', True, np.size(x0)))
        x0 = np.array(x0, float).ravel()
        f(x0)
        return (x0,)

    def solve(f, l, u, **kw):
        log.append(('DIRECT', True, len(l)))
        x = .5 * (np.array(l, float) + np.array(u, float))
        f(x, None)
        return x, 0., 0
    mod = types.ModuleType('DIRECT')
    mod.solve = solve
    opt = paramz.model.Model.optimize

    def optimize(self, optimizer=None, start=None, messages=False, max_iters=1000, *a, **kw):
        log.append(('model', id(self), optimizer, max_iters, {k: v for k, v in zip(self.parameter_names_flat(include_fixed=True), np.array(self[:]))}))
        if optimizer == 'scg':
            optimizer = None           # only noted
        return opt(self, optimizer, start, False, min(max_iters, 15), *a, **kw)
    HMC = GPy.inference.mcmc.HMC

    class Sampler(HMC):
        def __init__(self, model, M=None, stepsize=1e-1, **kw):
            self._mc = stepsize
            HMC.__init__(self, model, M, stepsize, **kw)

        def sample(self, num_samples=1000, hmc_iters=20):
            log.append(('hmc', self._mc, num_samples, hmc_iters))
            return HMC.sample(self, num_samples, hmc_iters)
    old = sys.modules.get('DIRECT')
    sys.modules['DIRECT'] = mod
    try:
        with patched(scipy.optimize, 'fmin_l_bfgs_b', lbfgs), patched(cma, 'fmin', fmin), patched(paramz.model.Model, 'optimize', optimize), patched(GPy.inference.mcmc, 'HMC', Sampler), few_anchors(anchors):
            yield
    finally:
        if old is None:
            sys.modules.pop('DIRECT')
        else:
            sys.modules['DIRECT'] = old


def valid(o):
    """combinations that are not offered"""
    fam, (ev, bs) = o['family'], o['evaluator']
    if o['design'] in ('sobol', 'grid', 'latin') and DOM[o['domain']][1]:
        return False
    if ev == 'local_penalization' and bs > 1 and fam[0] in ('user', 'user-nograd', 'warpedGP'):
        return False       # rejected (wrong combinations), or minutes
    if ev == 'local_penalization' and bs > 1 and fam[1] == 'user':
        return False       # its acquisition has no gradients
    if o['anchors'] and DOM[o['domain']][1]:
        return False       # Sobol anchors
    if o['anchors'] and fam[0] == 'GP_MCMC':
        return False       # as thompson_sampling
    if o['cost'] == 'evaluation_time' and o['data'] == 'XY':
        return True
    return True


def known_key(o):
    fam, (ev, bs) = o['family'], o['evaluator']
    if bs > 1 and fam[0] == 'GP_MCMC' and ev in ('thompson_sampling', 'local_penalization'):
        return {'thompson_sampling': 'gp-mcmc-thompson', 'local_penalization': 'gp-mcmc-lp'}[ev]
    if bs > 1 and ev == 'thompson_sampling' and (fam[0] in ('user-nograd', 'warpedGP') or fam[1] == 'user'):
        return 'thompson-batch-without-gradients'
    return None


def run_all(rec, key, alt, tier, part, parts):
    def body(ch):
        o = dict(BASE)
        if key:
            o[key] = MENU[key][alt]
            for k in sorted(MENU):
                if k != key:
                    if k < key and tier != 'thorough':
                        continue          # that pair belongs to the other option
                    if sorted(MENU).index(k) % parts != part:
                        continue
                    o[k] = ch.pick(MENU[k], k)
        if not valid(o):
            rec.outcome('not offered')
            return
        kk = known_key(o)
        if kk:
            rec.outcome('known')
            try:
                build_and_run(rec, o)
            except Exception as e:
                rec.fail('%s raises %s: %s' % ({k: v for k, v in o.items() if v != BASE[k]}, type(e).__name__, e), kk)
            return
        build_and_run(rec, o)
        rec.state(repr(o))
    d = 1 if tier == 'quick' or key not in ('family', 'evaluator') else 2
    rec.explore(body, deviations=d)


def run_default(rec, i):
    """every combination of surrogate and acquisition, evaluator and batch size"""
    def body(ch):
        o = dict(BASE)
        o['family'] = MENU['family'][i]
        o['evaluator'] = ch.pick(MENU['evaluator'], 'evaluator')
        if valid(o) and not known_key(o):
            build_and_run(rec, o)
            rec.state(repr(o))
    rec.explore(body)


def user_cost(x):
    x = np.atleast_2d(x)
    return 2. + x[:, :1] ** 2, np.hstack([2 * x[:, :1], np.zeros((len(x), x.shape[1] - 1))])


def build_and_run(rec, o):
    dom, con = DOM[o['domain']]
    ref = R.RefDomain(dom, con)
    (mtype, atype), (ev, bs) = o['family'], o['evaluator']
    det = dict(options={k: v for k, v in o.items() if v != BASE[k]})
    log, ledger = [], []
    pid = tempfile.mkstemp(prefix='mc20_')[1]

    def f(X):
        X = np.atleast_2d(X)
        y = np.array([[5. + float(((r - .4) ** 2).sum())] for r in X])
        ledger.extend(rows(X))
        with open(pid, 'a') as h:
            h.write('%d\n' % os.getpid())
        return y
    kw = {}
    if mtype.startswith('user'):
        kw['model'] = UserModel(np.full(ref.nmodel, .6), gradients=mtype == 'user')
    else:
        kw['model_type'] = mtype
    if atype == 'user':
        sp = GPyOpt.Design_space(dom, con)
        mm = kw.get('model') or UserModel(np.full(ref.nmodel, .6))
        kw['acquisition'] = Fixed(mm, sp, GPyOpt.optimization.AcquisitionOptimizer(sp, o['optimizer'], model=mm))
    else:
        kw['acquisition_type'] = atype
    kw.update(evaluator_type=ev, batch_size=bs, acquisition_optimizer_type=o['optimizer'], num_cores=o['cores'])
    for name, opt in (('acquisition_jitter', 'jitter'), ('acquisition_weight', 'weight'), ('ARD', 'ARD'), ('exact_feval', 'exact'), ('noise_var', 'noise_var'), ('optimize_restarts', 'restarts'), ('max_iters', 'max_iters'),
                      ('model_optimizer_type', 'method'), ('num_inducing', 'inducing'), ('normalize_Y', 'normalize'), ('model_update_interval', 'interval'), ('de_duplication', 'dedup'), ('initial_design_type', 'design'),
                      ('initial_design_numdata', 'number'), ('maximize', 'maximize'), ('type_anchor_points_logic', 'anchors'), ('acquisition_transformation', 'transformation')):
        if o[opt] is not None:
            kw[name] = o[opt]
    kw.update(zip(('n_samples', 'n_burnin', 'subsample_interval', 'step_size', 'leapfrog_steps'), o['mcmc']))
    if o['kernel']:
        kern = kw['kernel'] = GPy.kern.RBF(ref.nmodel, variance=3., lengthscale=.8)
    if o['cost']:
        kw['cost_withGradients'] = user_cost if o['cost'] == 'user' else o['cost']
    data = [p for p in ref.lattice(3)]
    data = np.array(data[::max(1, len(data) // 5)][:5])
    sign = -1. if o['maximize'] else 1.
    if o['data']:
        kw['X'] = data.copy()
        if o['data'] == 'XY':
            kw['Y'] = sign * (5. + ((data - .4) ** 2).sum(1)[:, None])
    try:
        with libraries(log, 6 if mtype == 'warpedGP' else 25):
            bo = GPyOpt.methods.BayesianOptimization(f, dom, con, **kw)
            judge(rec, o, bo, ref, log, ledger, kw, det, sign, data, f)
        if o['cores'] > 1:
            n = len(set(open(pid).read().split()))
            total = len(bo.get_evaluations()[0])
            rec.check(n > 1 and (str(os.getpid()) not in open(pid).read().split()), 'evaluated on several processes', got=n, **det)
        else:
            rec.check(set(open(pid).read().split()) == {str(os.getpid())}, 'evaluated on one core', **det)
    finally:
        os.remove(pid)


def judge(rec, o, bo, ref, log, ledger, kw, det, sign, data, f):
    (mtype, atype), (ev, bs) = o['family'], o['evaluator']
    if ev == 'sequential':
        bs = 1
    X, Y = bo.get_evaluations()
    n0 = len(X)
    # the initial design
    if o['data']:
        rec.same(X, data, 'data of the user', **det)
    elif o['design'] == 'grid':
        k = max(1, int(round((o['number'] or 5) ** (1. / max(1, sum(v.type == 'continuous' for v in ref.vars))))))
        rec.check(n0 >= 1, 'size of the grid', got=n0, **det)
    else:
        rec.check(n0 == (o['number'] or 5), 'size of the initial design', got=n0, expected=o['number'] or 5, **det)
    if o['design'] == 'latin' and not o['data']:
        for i, v in enumerate(ref.vars):
            if v.type == 'continuous':
                c = ref.cols()[v.name][0][0]
                lo, hi = v.domain
                cells = sorted(np.floor((X[:, c] - lo) / (hi - lo) * n0 - 1e-9).astype(int).clip(0, n0 - 1).tolist())
                rec.check(cells == list(range(n0)), 'the Latin design', got=X[:, c], **det)
    if o['design'] == 'sobol' and not o['data'] and o['number'] == 6:
        rec.check(len(set(np.round(X[:, 0], 9))) >= (3 if ref.vars[0].type == 'continuous' else 1), 'the Sobol design', **det)
    rec.close(Y, sign * (5. + ((X - .4) ** 2).sum(1)[:, None]), 'sign of the outputs', tol=1e-12, **det)
    # a run of two iterations
    del log[:]
    updates = []
    model = bo.model
    if mtype.startswith('user'):
        rec.check(model is kw['model'], 'the surrogate of the user', **det)
    if atype == 'user':
        rec.check(bo.acquisition is kw['acquisition'], 'the acquisition of the user', **det)
        Fixed.calls = 0
    up = model.updateModel

    def spy(A, B, *r):
        i = len(log)
        up(A, B, *r)
        updates.append((np.array(A), np.array(B), log[i:]))
    model.updateModel = spy
    bo.run_optimization(2, eps=-1)
    X, Y = bo.get_evaluations()
    full = bs if not o['dedup'] else None
    rec.check(len(X) == n0 + 2 * bs or (o['dedup'] and n0 + 2 <= len(X) <= n0 + 2 * bs), 'number of evaluations', got=len(X) - n0, expected=2 * bs, **det)
    for r in rows(X[n0:]):
        rec.check(ref.valid(r), 'evaluated point', point=r, **det)
    rec.close(Y, sign * (5. + ((X - .4) ** 2).sum(1)[:, None]), 'outputs', tol=1e-12, **det)
    # the surrogate
    iv = o['interval'] or 1
    rec.check(len(updates) == (3 if iv == 1 else 2), 'number of updates of the surrogate', got=len(updates), **det)
    sizes = [n0 + k * bs for k in range(0, 3, iv)]
    if not o['dedup']:
        rec.check([len(u[0]) for u in updates] == sizes, 'data of the surrogate', got=[len(u[0]) for u in updates], expected=sizes, **det)
    for A, B, _ in updates:
        rec.close(A, [ref.encode(r) for r in rows(X[:len(A)])], 'inputs of the surrogate', tol=1e-12, **det)
        y = Y[:len(B)]
        want = y if o['normalize'] is False else (y - y.mean()) / (y.std() if y.std() > 0 else 1.)
        rec.close(B, want, 'outputs of the surrogate', tol=1e-9, **det)
    if not mtype.startswith('user'):
        judge_gp(rec, o, model, updates, ref, det, kw)
    # the local optimizer of the acquisition
    used = set(l[0] for l in log if l[0] in ('lbfgs', 'CMA', 'DIRECT'))
    want = {'lbfgs'} if ev == 'thompson_sampling' and bs > 1 else {o['optimizer']}
    rec.check(used == want, 'optimizer of the acquisition', got=used, expected=want, **det)
    grads = set(l[1] for l in log if l[0] == 'lbfgs')
    if used == {'lbfgs'}:
        nograd = mtype in ('user-nograd', 'warpedGP') or atype == 'user'
        rec.check(grads == {nograd}, 'approximated gradients', got=grads, **det)
    # the acquisition
    judge_acquisition(rec, o, bo, ref, det)
    rec.outcome((mtype, atype, ev, bs))


def judge_gp(rec, o, model, updates, ref, det, kw):
    mtype = o['family'][0]
    inner = model.model
    names = list(inner.parameter_names_flat(include_fixed=True))
    values = dict(zip(names, np.array(inner[:])))
    kind = {'GP': GPy.models.GPRegression, 'GP_MCMC': GPy.models.GPRegression, 'sparseGP': GPy.models.SparseGPRegression, 'warpedGP': GPy.models.WarpedGP}[mtype]
    rec.check(type(inner) is kind, 'surrogate of the named type', got=type(inner), **det)
    rec.check(type(model) is {'GP': GPyOpt.models.GPModel, 'GP_MCMC': GPyOpt.models.GPModel_MCMC, 'sparseGP': GPyOpt.models.GPModel, 'warpedGP': GPyOpt.models.WarpedGPModel}[mtype], 'model of the named type', got=type(model), **det)
    want = GPy.kern.RBF if o['kernel'] or mtype == 'GP_MCMC' else GPy.kern.Matern32 if mtype == 'warpedGP' else GPy.kern.Matern52
    rec.check(type(inner.kern) is want, 'kernel', got=type(inner.kern), expected=want, **det)
    nl = len(np.ravel(inner.kern.lengthscale))
    rec.check(nl == (ref.nmodel if o['ARD'] and not o['kernel'] and mtype in ('GP', 'sparseGP') else 1), 'number of length scales', got=nl, **det)
    noise = [v for k, v in values.items() if 'noise' in k]
    if o['exact']:
        rec.check(len(noise) == 1 and noise[0] <= 1.2e-6, 'noise of exact evaluations', got=noise, **det)
        rec.check(all('noise' not in k for k in inner.parameter_names_flat()), 'the noise of exact evaluations is fixed', **det)
    else:
        rec.check(any('noise' in k for k in inner.parameter_names_flat()), 'the noise is a parameter', **det)
    if mtype == 'sparseGP':
        m = o['inducing'] or 10
        rec.check(inner.Z.shape[0] == min(m, len(updates[0][0])), 'number of inducing points', got=inner.Z.shape, expected=min(m, len(updates[0][0])), **det)
    if mtype in ('GP', 'sparseGP'):
        for A, B, log in updates:
            opts = [l for l in log if l[0] == 'model' and l[1] == id(inner)]
            r = 5 if o['restarts'] is None else o['restarts']
            rec.check(len(opts) == (0 if o['max_iters'] == 0 else r), 'restarts of the optimization of the surrogate', got=len(opts), expected=r, **det)
            rec.check(all(l[3] == o['max_iters'] for l in opts), 'iterations of the optimization of the surrogate', got=opts, expected=o['max_iters'], **det)
            rec.check(all((l[2] or '').find(o['method'] or 'lbfgs') >= 0 for l in opts), 'method of the optimization of the surrogate', got=opts, expected=o['method'], **det)
        if o['max_iters'] == 0:
            if not o['exact'] and (mtype == 'GP' or o['noise_var'] is not None):
                judge_noise(rec, noise, o['noise_var'], updates[0][1], det)
            if o['kernel']:
                rec.close([float(np.ravel(inner.kern.variance)[0]), float(np.ravel(inner.kern.lengthscale)[0])], [3., .8], 'parameters of the kernel of the user', tol=1e-9, **det)
    if mtype == 'GP_MCMC':
        n, burn, sub, step, frog = o['mcmc']
        for A, B, log in updates:
            s = [l[1:] for l in log if l[0] == 'hmc']
            rec.check(s == [(step, burn + n * sub, frog)], 'options of the sampler', got=s, expected=o['mcmc'], **det)
        m, s = model.predict(np.array([ref.encode(r) for r in ref.lattice(2)[:1]]))
        rec.check(len(m) == len(s) == n, 'number of samples', got=len(m), expected=n, **det)


def judge_noise(rec, got, given, Y, det):
    if given == 0. and len(got) == 1 and abs(got[0] - 5e5) < 1.:
        rec.fail('the noise variance given as zero is %s' % got[0], 'noise-var-zero')
    else:
        rec.close(got, [.01 * Y.var() if given is None else given], 'initial noise', tol=1e-8, **det)


def judge_acquisition(rec, o, bo, ref, det):
    (mtype, atype), (ev, bs) = o['family'], o['evaluator']
    if atype == 'user':
        rec.check(Fixed.calls > 0, 'the acquisition of the user was not used', **det)
        return
    pts = [np.array([ref.encode(r)], float) for r in (ref.lattice(2) + ref.lattice(3, feasible=False))[::5][:6]]
    j = .01 if o['jitter'] is None else o['jitter']
    w = 2 if o['weight'] is None else o['weight']
    acq = bo.acquisition
    cls = {'EI': GPyOpt.acquisitions.AcquisitionEI, 'MPI': GPyOpt.acquisitions.AcquisitionMPI, 'LCB': GPyOpt.acquisitions.AcquisitionLCB, 'EI_MCMC': GPyOpt.acquisitions.AcquisitionEI_MCMC,
           'MPI_MCMC': GPyOpt.acquisitions.AcquisitionMPI_MCMC, 'LCB_MCMC': GPyOpt.acquisitions.AcquisitionLCB_MCMC}[atype]
    rec.check(type(acq) is cls, 'acquisition of the named type', got=type(acq), **det)
    for x in pts:
        p = bo.model.predict(x)
        fm = bo.model.get_fmin()
        ms, ss = (p[0], p[1]) if mtype == 'GP_MCMC' else ([p[0]], [p[1]])
        fm = fm if mtype == 'GP_MCMC' else [fm]
        vals, alts = [], []
        for m, s, b in zip(ms, ss, fm):
            m, s, b = float(np.ravel(m)[0]), max(float(np.ravel(s)[0]), 1e-10), float(np.ravel(b)[0])
            u = (b - m - j) / s
            if atype.startswith('EI'):
                vals.append((b - m - j) * gauss.cdf(u) + s * gauss.pdf(u))
                alts.append((b - m + j) * gauss.cdf(u) + s * gauss.pdf(u))
            elif atype.startswith('MPI'):
                vals.append(gauss.cdf(u))
            else:
                vals.append(-m + w * s)
        vals = [np.mean(vals), np.sum(vals)] + ([np.mean(alts), np.sum(alts)] if atype == 'EI_MCMC' else [])   # EI_MCMC: known finding of C12
        cost = 1.
        if o['cost'] and not atype.startswith('LCB'):
            cost = float(np.ravel(user_cost(x)[0] if o['cost'] == 'user' else bo.cost.cost_withGradients(x)[0])[0])
            if o['cost'] != 'user':
                rec.check((cost != 1. or o['cores'] > 1) and bo.cost.cost_type == 'evaluation_time', 'the cost of the evaluation time is not used', got=cost, **det)
        feas = 1. if ref.feasible(rows(bo.space.zip_inputs(x))[0]) else 0.
        got = float(np.ravel(acq.acquisition_function(x))[0])
        ok = [abs(got + v * feas / cost) <= 1e-9 + 1e-6 * abs(got) for v in vals]
        rec.check(any(ok), 'value of the acquisition', got=got, expected=[-v * feas / cost for v in vals], point=x, **det)
    if ev == 'local_penalization' and bs > 1:
        rec.check(type(bo.evaluator) is GPyOpt.core.evaluators.LocalPenalization and bo.evaluator.acquisition.acq is acq, 'the penalized acquisition', **det)
        t = 'softplus' if atype == 'LCB' else o['transformation'] or 'none'
        x = pts[0]
        g = float(np.ravel(acq.acquisition_function(x))[0])
        want = -np.log(-g + 1e-50) if t == 'none' else -np.log(np.log1p(np.exp(-g)) if -g < 40 else -g)
        rec.close([float(np.ravel(bo.evaluator.acquisition.acquisition_function(x))[0])], [want], 'transformation of the penalized acquisition', tol=1e-6, **det)


def run_surrogate(rec, mtype, dname):
    """all combinations of the options of a surrogate"""
    dom, con = DOM[dname]
    ref = R.RefDomain(dom, con)
    X = np.array(ref.lattice(3))[::3][:6]
    E = np.array([ref.encode(r) for r in rows(X)])
    Y = ((X - .4) ** 2).sum(1)[:, None]
    opts = dict(restarts=[1, 2], max_iters=[15, 0], method=[None, 'scg'], kernel=[None, 'rbf'], ARD=[None, True], exact=[None, True], noise_var=[None, .7, 0.], inducing=[None, 3] if mtype == 'sparseGP' else [None])

    def body(ch):
        o = dict(BASE, family=(mtype, 'EI'))
        o.update({k: ch.pick(v, k) for k, v in sorted(opts.items())})
        kw = {a: o[b] for a, b in (('ARD', 'ARD'), ('exact_feval', 'exact'), ('noise_var', 'noise_var'), ('optimize_restarts', 'restarts'), ('max_iters', 'max_iters'), ('model_optimizer_type', 'method'), ('num_inducing', 'inducing'))
              if o[b] is not None}
        if o['kernel']:
            kw['kernel'] = GPy.kern.RBF(ref.nmodel, variance=3., lengthscale=.8)
        log = []
        with libraries(log):
            bo = GPyOpt.methods.BayesianOptimization(None, dom, con, X=X.copy(), Y=Y.copy(), model_type=mtype, **kw)
            del log[:]
            bo.model.updateModel(E, Y, None, None)
            judge_gp(rec, o, bo.model, [(E, Y, list(log))], ref, dict(options={k: o[k] for k in opts}), kw)
        rec.state(mtype, dname, repr(o))
    rec.explore(body)
    rec.outcome(mtype)


def run_iw(rec, dname):
    """the input warped GP (it does not predict with the installed GPy: known finding of C15): all combinations of the options of the surrogate"""
    dom, con = DOM[dname]
    ref = R.RefDomain(dom, con)
    X = np.array(ref.lattice(3))[::3][:6]
    Y = ((X - .4) ** 2).sum(1)[:, None]
    opts = dict(restarts=[1, 3, None, 7], max_iters=[15, 0, 40], method=[None, 'scg'], kernel=[None, 'rbf'], ARD=[None, True], exact=[None, True], noise_var=[None, .7, 0.])

    def body(ch):
        o = {k: ch.pick(v, k) for k, v in sorted(opts.items())}
        kw = {a: o[b] for a, b in (('ARD', 'ARD'), ('exact_feval', 'exact'), ('noise_var', 'noise_var'), ('optimize_restarts', 'restarts'), ('max_iters', 'max_iters'), ('model_optimizer_type', 'method')) if o[b] is not None}
        if o['kernel']:
            kw['kernel'] = GPy.kern.RBF(ref.nmodel, variance=3., lengthscale=.8)
        log = []
        det = dict(options=o)
        with libraries(log):
            bo = GPyOpt.methods.BayesianOptimization(None, dom, con, X=X.copy(), Y=Y.copy(), model_type='input_warped_GP', **kw)
            m = bo.model
            m.updateModel(np.array([ref.encode(r) for r in rows(X)]), Y, None, None)
        rec.check(type(m) is GPyOpt.models.InputWarpedGPModel and type(m.model) is GPy.models.InputWarpedGP, 'surrogate of the named type', got=type(m.model), **det)
        calls = [l for l in log if l[0] == 'model']
        n = 5 if o['restarts'] is None else o['restarts']
        rec.check(len(calls) == (0 if o['max_iters'] == 0 else n), 'restarts of the optimization of the surrogate', got=len(calls), expected=n, **det)
        rec.check(all(l[3] == o['max_iters'] for l in calls), 'iterations of the optimization of the surrogate', got=calls, **det)
        rec.check(all((o['method'] or 'lbfgs') in l[2] for l in calls), 'method of the optimization of the surrogate', got=calls, **det)
        kern = m.model.kern
        rec.check(type(kern) is (GPy.kern.RBF if o['kernel'] else GPy.kern.Matern52), 'kernel', got=type(kern), **det)
        rec.check(len(np.ravel(kern.lengthscale)) == (ref.nmodel if o['ARD'] and not o['kernel'] else 1), 'number of length scales', got=kern.lengthscale, **det)
        noise = float(np.ravel(m.model.Gaussian_noise.variance)[0])
        free = any('noise' in k for k in m.model.parameter_names_flat())
        rec.check(free != bool(o['exact']) and (not o['exact'] or abs(noise - 1e-6) < 1e-9), 'noise of exact evaluations', got=noise, **det)
        if o['max_iters'] == 0 and not o['exact']:
            judge_noise(rec, [noise], o['noise_var'], Y, det)
        rec.state(dname, repr(o))
        rec.outcome('input warped')
    rec.explore(body)


def run_warped(rec, dname):
    """the warped GP: all combinations of the options of the surrogate, as they are when its parameters are optimized"""
    dom, con = DOM[dname]
    ref = R.RefDomain(dom, con)
    X = np.array(ref.lattice(3))[::3][:6]
    E = np.array([ref.encode(r) for r in rows(X)])
    Y = ((X - .4) ** 2).sum(1)[:, None] + 1.
    opts = dict(max_iters=[3, 0], method=[None, 'scg'], kernel=[None, 'rbf'], exact=[None, True], noise_var=[None, .7, .02], updates=[1, 2])

    def body(ch):
        o = {k: ch.pick(v, k) for k, v in sorted(opts.items())}
        kw = {a: o[b] for a, b in (('exact_feval', 'exact'), ('noise_var', 'noise_var'), ('max_iters', 'max_iters'), ('model_optimizer_type', 'method')) if o[b] is not None}
        if o['kernel']:
            kw['kernel'] = GPy.kern.RBF(ref.nmodel, variance=3., lengthscale=.8)
        det = dict(options=o)
        log = []
        with libraries(log, 6):
            bo = GPyOpt.methods.BayesianOptimization(None, dom, con, X=X.copy(), Y=Y.copy(), model_type='warpedGP', **kw)
            m = bo.model
            for k in range(o['updates']):
                m.updateModel(E[:4 + k], Y[:4 + k], None, None)
        rec.check(type(m) is GPyOpt.models.WarpedGPModel and type(m.model) is GPy.models.WarpedGP, 'surrogate of the named type', got=type(m.model), **det)
        calls = [l for l in log if l[0] == 'model']
        rec.check(len(calls) == o['updates'], 'optimizations of the surrogate', got=len(calls), **det)
        rec.check(all(l[3] == o['max_iters'] for l in calls), 'iterations of the optimization of the surrogate', got=[l[3] for l in calls], **det)
        rec.check(all((o['method'] or 'lbfgs') in l[2] for l in calls), 'method of the optimization of the surrogate', got=[l[2] for l in calls], **det)
        rec.check(type(m.model.kern) is (GPy.kern.RBF if o['kernel'] else GPy.kern.Matern32), 'kernel', got=type(m.model.kern), **det)
        if o['kernel']:
            rec.close([v for k, v in sorted(calls[0][4].items()) if 'rbf' in k], [.8, 3.], 'parameters of the kernel of the user', tol=1e-9, **det)
        for l in calls:
            noise = [v for k, v in l[4].items() if 'noise' in k]
            if o['exact'] or o['noise_var'] is not None:
                rec.close(noise, [1e-6 if o['exact'] else o['noise_var']], 'initial noise', tol=1e-12, **det)
        free = any('noise' in k for k in m.model.parameter_names_flat())
        rec.check(free != bool(o['exact']), 'the noise is fixed exactly when evaluations are exact', **det)
        rec.state('warped', dname, repr(o))
        rec.outcome('warpedGP')
    rec.explore(body)


def run_wrong(rec):
    """wrong names and combinations are rejected when the optimization is built (or, for a design without support, used)"""
    f = lambda X: (np.atleast_2d(X) ** 2).sum(1)[:, None]
    dom = R.DOMAINS['cc']
    for kw in (dict(model_type='nothing'), dict(acquisition_type='nothing'), dict(evaluator_type='nothing', batch_size=2), dict(initial_design_type='nothing'), dict(acquisition_optimizer_type='nothing', go=True),
               dict(acquisition_type='EI_MCMC'), dict(acquisition_type='MPI_MCMC', model_type='sparseGP'), dict(acquisition_type='LCB_MCMC', model_type='warpedGP'),
               dict(model=UserModel(), evaluator_type='local_penalization', batch_size=2, model_type='none'), dict(f=None), dict(f=None, X=np.zeros((1, 2)))):
        go = kw.pop('go', False)
        fun = kw.pop('f', f)
        try:
            bo = GPyOpt.methods.BayesianOptimization(fun, dom, optimize_restarts=1, **kw)
            if go:
                bo.run_optimization(1)
        except Exception as e:
            rec.outcome(type(e).__name__)
        else:
            rec.fail('accepted: %s' % kw)
        rec.trans()
    rec.execution()
