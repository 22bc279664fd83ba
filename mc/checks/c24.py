"""C24: batches - the first element is the optimum of the plain acquisition, the later ones follow the documented strategy.

Real code: the evaluators, AcquisitionLP, the anchor points below them. Explored: at every element of the batch the optimizer (a stand-in) may return any point
of the menu; the function that it was given is compared with a reference of the penalized acquisition (penalizers of exactly the points
returned before); sequences of batches with updates of the surrogate between them; random and Thompson batches for every preferred member."""
import contextlib
import io
import itertools
import numpy as np
import scipy.stats
import GPy
import GPyOpt
from GPyOpt.core.errors import FullyExploredOptimizationDomainError
from GPyOpt.core.evaluators import LocalPenalization, RandomBatch, Sequential, ThompsonBatch
from GPyOpt.core.evaluators.batch_local_penalization import estimate_L
from GPyOpt.models.base import BOModel
from GPyOpt.util.duplicate_manager import DuplicateManager
from .. import ref as R
from ..env import InnerModel, StubModel, few_anchors, scipy_lbfgs_stub

PROPERTY = 'C24'
BOUNDS = {
    'quick': 'every batch of up to 3 points of a menu of 5, 2 batches in a row (1 of 3 points), 6 domains, 4 acquisitions, 3 transformations; penalizers on a lattice of 4 constants, 3 minima, 4 standard deviations; random and Thompson batches for every preferred member of 5 domains, sizes 1-4',
    'thorough': 'batches of up to 4 points of a menu of 6, 3 batches in a row (2 of 4 points)',
}
ASSUMPTIONS = ['the Lipschitz estimate of a GP is within 15% of the largest gradient on a fine grid (the code maximizes locally from random samples)', 'stochastic choices are judged by their support only']
HORIZON = 300
DOMS = [('c1', None), ('c2', None), ('c2', 0), ('cdk', None), ('cdk', 0), ('cc', None)]
ACQS = ['EI', 'MPI', 'LCB', 'cost']
TRANSFORMS = [None, 'softplus', 'Softplus', 'none']


def cases(tier):
    n, k, rounds = (4, 5, 3) if tier == 'thorough' else (3, 4, 2)
    out = []
    for d, c in DOMS:
        for a in ACQS:
            out.append(('penalized %s%s %s' % (d, '' if c is None else ' con%d' % c, a), ('penalized', d, c, a)))
            for dup in (False, True):
                out.append(('batch %s%s %s dup=%s' % (d, '' if c is None else ' con%d' % c, a, dup), ('batch', d, c, a, dup, n, k, rounds)))
    out += [('lipschitz %d' % i, ('lipschitz', i)) for i in range(len(LIPSCHITZ))]
    for d, c in [('dk', None), ('dkc', None), ('cdk', 0), ('b2', None), ('cc', None)]:
        if d in R.DOMAINS:
            out.append(('random %s %s' % (d, c), ('random', d, c)))
    for d in ('dk', 'b2', 'two', 'three'):
        out.append(('thompson %s' % d, ('thompson', d)))
    out.append(('full', ('full',)))
    return out


def run(params, rec):
    with contextlib.redirect_stdout(io.StringIO()):
        globals()['run_' + params[0]](rec, *params[1:])
    rec.outcome(params[0])


EXTRA = {
    'dk': [{'name': 'a', 'type': 'discrete', 'domain': (0, 1, 3)}, {'name': 'b', 'type': 'categorical', 'domain': (0, 1, 2)}],
    'two': [{'name': 'a', 'type': 'discrete', 'domain': (-1, 4)}],
    'three': [{'name': 'a', 'type': 'discrete', 'domain': (-1, 0, 2)}, {'name': 'b', 'type': 'discrete', 'domain': (5, 6)}],
}


def domain(d, c=None):
    dom = EXTRA.get(d) or R.DOMAINS[d]
    con = R.CONSTRAINTS[d][c] if c is not None else None
    return dom, con, GPyOpt.Design_space(dom, con), R.RefDomain(dom, con)


def cost(x):
    x = np.atleast_2d(x)
    return 2. + np.abs(x).sum(1)[:, None], np.sign(x)


def acquisition(kind, m, space, opt=None):
    c = GPyOpt.acquisitions
    if kind == 'cost':
        return c.AcquisitionEI(m, space, opt, cost_withGradients=cost)
    return {'EI': c.AcquisitionEI, 'MPI': c.AcquisitionMPI, 'LCB': c.AcquisitionLCB}[kind](m, space, opt)


def menu(ref, k):
    pts = ref.lattice(3)
    pts = pts[::max(1, len(pts) // k)][:k]
    return np.array([ref.encode(p) for p in pts])


def plain(kind, m, space, x):
    """the acquisition itself, positive where it is worth sampling"""
    return -np.asarray(acquisition(kind, m, space).acquisition_function(x))[:, 0]


def lp_reference(kind, transform, m, space, x, batch, L, Min):
    a = plain(kind, m, space, x)
    t = (transform or 'none').lower()
    if t == 'softplus' or t == 'none' and kind == 'LCB':
        v = np.log(np.logaddexp(0, a))
    else:
        v = np.log(a + 1e-50)
    for b in ([] if batch is None else batch):
        mean, sd = m.predict(b[None])
        r, s = (mean[0, 0] - Min) / L, sd[0, 0] / L
        v = v + scipy.stats.norm.logcdf((np.linalg.norm(x - b, axis=1) - r) / s)
    return -v


def model(ref, n=0, sd=.5):
    t = menu(ref, 3)[n % min(3, len(menu(ref, 3)))]
    m = StubModel(t + .1 * n, sd=sd)
    data(m, ref, n)
    return m


def data(m, ref, n):
    """an update of the surrogate: other data, other optimum"""
    X = menu(ref, 5)
    Y = (m.predict(X)[0] - .3 - .2 * n)[::-1]
    m.updateModel(X, Y, None, None)


def run_penalized(rec, d, c, kind):
    dom, con, space, ref = domain(d, c)
    pts = menu(ref, 5)
    x = np.vstack([pts, (pts[:-1] + pts[1:]) / 2]) if d != 'cdk' else pts
    for sd in (.5, .05, 3., 1e-5):
        m = model(ref, 1, sd)
        for transform in TRANSFORMS:
            args = () if transform is None else (transform,)
            lp = GPyOpt.acquisitions.AcquisitionLP(m, space, None, acquisition(kind, m, space), *args)
            rec.close(lp.acquisition_function(x), lp_reference(kind, transform, m, space, x, None, 1., 0.), 'acquisition without penalizers', tol=1e-7, transform=transform, sd=sd)
            for size in (1, 2, 3):
                for L, Min in itertools.product((.3, 1., 10., 200.), (-2., .1, 3.)):
                    batch = pts[[(size * i + 1) % len(pts) for i in range(size)]]
                    lp.update_batches(batch, L, Min)
                    got = np.ravel(lp.acquisition_function(x))
                    want = lp_reference(kind, transform, m, space, x, batch, L, Min)
                    rec.close(got, want, 'penalized acquisition', tol=1e-6, transform=transform, sd=sd, L=L, Min=Min, batch=batch)
                    rec.close(np.ravel(lp.acquisition_function(x[:1])), want[:1], 'penalized acquisition of one point', tol=1e-6)
                    rec.close(np.ravel(lp.acquisition_function_withGradients(x)[0]), want, 'penalized acquisition with gradients', tol=1e-6)
                    rec.state(kind, transform, sd, size, L, Min)
                    rec.execution()
            lp.update_batches(None, None, None)
            rec.close(lp.acquisition_function(x), lp_reference(kind, transform, m, space, x, None, 1., 0.), 'a penalizer survives', tol=1e-7, transform=transform, sd=sd)


class Optimizer(object):
    """returns any point of the menu; records the function it was asked to optimize"""
    def __init__(self, pts, probe):
        self.pts, self.probe, self.choose, self.log = pts, probe, None, []

    def optimize(self, f=None, df=None, f_df=None, duplicate_manager=None):
        ok = [i for i, p in enumerate(self.pts) if duplicate_manager is None or not duplicate_manager.is_unzipped_x_duplicate(p)]
        if not ok:
            raise FullyExploredOptimizationDomainError('no point left')
        fx = np.array(f(self.probe), float).ravel()
        fg = np.array(f_df(self.probe)[0], float).ravel() if f_df is not None else fx
        x = self.pts[[self.choose(ok)]]
        self.log.append((fx, fg, x, [self.pts[i] for i in range(len(self.pts)) if i not in ok]))
        return x, f(x)


def run_batch(rec, d, c, kind, dup, size, k, rounds):
    dom, con, space, ref = domain(d, c)
    pts = menu(ref, k)
    probe = menu(ref, 6)
    lo, hi = np.array(space.get_bounds(), float).T
    k = len(pts)

    def body(ch):
        n = 1 + ch.choose(size, 'batch size')
        opt = Optimizer(pts, probe)
        m = model(ref)
        base = acquisition(kind, m, space, opt)
        ev = LocalPenalization(GPyOpt.acquisitions.AcquisitionLP(m, space, opt, base), n)
        for t in range(rounds if n < size or kind == 'EI' and not dup else rounds - 1):
            m.target = menu(ref, 3)[t % min(3, len(menu(ref, 3)))] + .1 * t
            data(m, ref, t)
            opt.log = []
            opt.choose = lambda ok: ok[ch.choose(len(ok), 'point')]
            dm = DuplicateManager(space, np.array([space.zip_inputs(pts[:1])[0]])) if dup else None
            left = k - 1 if dup else None
            X = ev.compute_batch(duplicate_manager=dm)
            want_n = n if not dup else min(n, left)
            rec.check(X.shape == (want_n, len(lo)), 'size of the batch', got=X.shape, expected=want_n)
            rec.check(len(opt.log) == want_n, 'optimizations for a batch', got=len(opt.log))
            rec.same(X, np.vstack([l[2] for l in opt.log]), 'the batch is not what the optimizations returned')
            corners = np.array(list(itertools.product(*zip(lo, hi))))
            # every corner is a local maximum of the norm of the gradient: the estimate may end at one next to the best
            Ls = np.append(2 * np.linalg.norm(corners - m.target, axis=1), 2 * np.linalg.norm(m.model.X - m.target, axis=1).max())
            Ls = sorted({round(v, 12) for v in Ls if v >= .85 * Ls.max()}, reverse=True)
            if len(opt.log) > 1:
                errs = [sum(np.abs(lp_reference(kind, None, m, space, probe, X[:i], v, m.model.Y.min()) - opt.log[i][0]).max() for i in range(1, len(opt.log))) for v in Ls]
                Ls = [Ls[int(np.argmin(errs))]]
            L = Ls[0]
            Min = m.model.Y.min()
            for i, (fx, fg, x, skipped) in enumerate(opt.log):
                w = lp_reference(kind, None, m, space, probe, X[:i], L, Min)
                rec.close(fx, w, 'function optimized for element %d of batch %d' % (i, t), tol=1e-4 if i else 1e-7, batch=X, L=L)
                rec.close(fg, w, 'function with gradients optimized for element %d of batch %d' % (i, t), tol=1e-4 if i else 1e-7, batch=X)
                if dup:
                    rec.check(sorted(map(tuple, skipped)) == sorted({tuple(pts[0])} | {tuple(b) for b in X[:i]}), 'points that are excluded for element %d' % i, got=skipped, batch=X)
            rec.close(np.ravel(ev.acquisition.acquisition_function(probe)), lp_reference(kind, None, m, space, probe, None, 1., 0.), 'a penalizer survives the batch', tol=1e-7)
            rec.state(d, kind, dup, n, t, X)
        rec.trans(len(opt.log))
    rec.explore(body)


class Full(Optimizer):
    """raises at the given call"""
    def __init__(self, pts, probe, at, error=FullyExploredOptimizationDomainError):
        super(Full, self).__init__(pts, probe)
        self.at, self.calls, self.choose, self.error = at, 0, lambda ok: ok[0], error

    def optimize(self, **kw):
        self.calls += 1
        if self.calls - 1 == self.at:
            raise self.error('no point left')
        return super(Full, self).optimize(**kw)


def run_full(rec):
    """the domain is exhausted while the batch is built: the points found so far are the batch, no penalizer survives"""
    dom, con, space, ref = domain('c2')
    pts = menu(ref, 4)
    for n in (1, 2, 3, 4):
        for at in range(n + 1):
            m = model(ref)
            opt = Full(pts, pts, at)
            ev = LocalPenalization(GPyOpt.acquisitions.AcquisitionLP(m, space, opt, acquisition('EI', m, space, opt)), n)
            try:
                X = ev.compute_batch()
                rec.check(at > 0, 'an exhausted domain is not reported')
                rec.check(len(X) == min(n, at), 'size of the batch', got=X, n=n, at=at)
            except FullyExploredOptimizationDomainError:
                rec.check(at == 0, 'points of the batch are lost', n=n, at=at)
            rec.close(np.ravel(ev.acquisition.acquisition_function(pts)), lp_reference('EI', None, m, space, pts, None, 1., 0.), 'a penalizer survives the batch', tol=1e-7, n=n, at=at)
            opt.at = -1
            opt.log = []
            ev.compute_batch()
            rec.close(opt.log[0][0], lp_reference('EI', None, m, space, pts, None, 1., 0.), 'the next batch starts with a penalizer', tol=1e-7, n=n, at=at)
            rec.state(n, at)
            rec.execution()
    # the optimization of the acquisition fails (or is interrupted) in the middle of a batch: no penalizer of the abandoned batch in the next ones
    for n in (2, 3, 4):
        for at in range(n):
            for error in (RuntimeError, KeyboardInterrupt, np.linalg.LinAlgError):
                m = model(ref)
                opt = Full(pts, pts, at, error)
                ev = LocalPenalization(GPyOpt.acquisitions.AcquisitionLP(m, space, opt, acquisition('EI', m, space, opt)), n)
                try:
                    ev.compute_batch()
                    rec.fail('the failure of the optimization is not reported', n=n, at=at)
                except error:
                    pass
                opt.at = -1
                for again in range(2):
                    opt.log = []
                    X = ev.compute_batch()
                    rec.check(len(X) == n, 'size of the batch after a failure', got=X, n=n, at=at)
                    rec.close(opt.log[0][0], lp_reference('EI', None, m, space, pts, None, 1., 0.), 'the batch after a failure starts with a penalizer', tol=1e-7, n=n, at=at)
                rec.state(n, at, error.__name__)
                rec.execution()


LIPSCHITZ = [(k, l, d) for k in ('RBF', 'Matern52', 'flat', 'far', 'narrow') for l in (.3, 1.) for d in (1, 2)]


def run_lipschitz(rec, i):
    kind, l, d = LIPSCHITZ[i]
    for box in ([(0., 1.)] * d, [(-1., .5)] + [(0., 2.)] * (d - 1), [(2., 3.)] * d):
        X = np.array(list(itertools.product((.1, .5, .8), repeat=d)))
        Y = np.sin(4 * X.sum(1) * np.arange(1, len(X) + 1) / 3.)[:, None] if kind != 'flat' else np.zeros((len(X), 1))
        Xs = X * [h - lo for lo, h in box] + [lo for lo, _ in box]
        if kind == 'far':           # data outside of the box: only an upper bound
            Xs = Xs + [.3 * (h - lo) for lo, h in box]
        if kind == 'narrow':        # the slope is next to two observations, where hardly any sample falls
            Xs = np.vstack([Xs, Xs[:1] + 1e-4])
            Y = np.vstack([Y, Y[:1] + 1.])
        gp = GPy.models.GPRegression(Xs, Y, getattr(GPy.kern, kind if kind in ('RBF', 'Matern52') else 'RBF')(d, lengthscale=l if kind != 'narrow' else 2e-4 * l), noise_var=1e-3)

        def norms(P):
            return np.sqrt((gp.predictive_gradients(P)[0].reshape(len(P), d) ** 2).sum(1))
        G = np.array(list(itertools.product(*[np.linspace(a, b, 2001 if d == 1 else 101) for a, b in box])))
        low, top = norms(G).max(), max(norms(G).max(), norms(Xs).max())
        for seed in range(3):
            np.random.seed(seed)
            L = estimate_L(gp, box)
            if kind == 'narrow':
                rec.check(.99 * norms(Xs).max() <= L, 'Lipschitz constant below the slope at the data', got=L, expected=norms(Xs).max(), bounds=box)
            elif kind == 'flat':
                rec.check(L == 10, 'constant of a flat surrogate', got=L)
            else:
                rec.check(np.ndim(L) == 0 and 0 < L <= 1.02 * top and (kind == 'far' or .85 * low <= L), 'Lipschitz constant', got=L, expected=top, bounds=box)
            rec.state(i, box, seed)
            rec.execution()


def run_random(rec, d, c):
    dom, con, space, ref = domain(d, c)
    members = {tuple(np.round(p, 9)) for p in ref.lattice(9)} if all(v.type != 'continuous' for v in ref.vars) else None
    for target in menu(ref, 9):
        for n in (1, 2, 3, 4):
            for dup in (None, 0, 2):
                opt = Optimizer(np.array([target]), np.array([target]))
                opt.choose = lambda ok: ok[0]
                m = StubModel(target)
                opt.context_manager = None
                acq = GPyOpt.acquisitions.AcquisitionEI(m, space, opt)
                ev = RandomBatch(acq, n)
                pend = None
                dm = None
                if dup is not None:
                    pend = [p for p in ref.lattice(3) if tuple(ref.encode(p)) != tuple(target)][:dup]
                    dm = DuplicateManager(space, np.array([ref.lattice(3)[0]])[:0], pending_zipped_X=np.array(pend) if pend else None)
                with few_anchors(60):
                    try:
                        X = ev.compute_batch(duplicate_manager=dm)
                    except FullyExploredOptimizationDomainError:
                        rec.check(dup is not None and members is not None and len(members) <= len(pend), 'no batch', dup=dup)
                        continue
                rec.same(X[0], target, 'the first point of the batch is not the optimum')
                Z = space.zip_inputs(X)
                rec.check(all(ref.valid(z) for z in Z), 'a point of the batch is not a feasible member', got=Z)
                if dup is None:
                    rec.check(len(X) == n, 'size of the batch', got=X)
                else:
                    zs = [tuple(z) for z in Z]
                    rec.check(len(set(zs)) == len(zs), 'duplicates in the batch', got=Z)
                    rec.check(not set(zs[1:]) & {tuple(map(float, p)) for p in pend}, 'a pending point is in the batch', got=Z, pending=pend)
                    if members is None:
                        rec.check(len(X) == n, 'size of the batch', got=X)
                    else:
                        rec.check(len(X) == min(n, len(members - {tuple(np.round(p, 9)) for p in pend})) , 'size of the batch', got=Z, pending=pend)
                rec.state(d, c, target, n, dup)
                rec.execution()
                # sequential: the optimum and nothing else
                if dup is None:
                    rec.same(Sequential(acq).compute_batch(), target[None], 'the sequential choice is not the optimum')
    # two batches are not the same draw
    m = StubModel(menu(ref, 1)[0])
    opt = Optimizer(menu(ref, 1), menu(ref, 1))
    opt.choose, opt.context_manager = (lambda ok: 0), None
    ev = RandomBatch(GPyOpt.acquisitions.AcquisitionEI(m, space, opt), 6)
    with few_anchors(60):
        batches = {tuple(map(tuple, ev.compute_batch()[1:])) for _ in range(16)}
        rec.check(len(batches) > 1, 'the random points of the batch are always the same', got=batches)
        seen = {tuple(space.zip_inputs(np.array([p]))[0]) for b in batches for p in b}
    rec.check(len(seen) > 3, 'the random points are few', got=seen)


class TablePosterior(BOModel):
    """mean and standard deviation given per member of the domain"""
    MCMC_sampler = False
    analytical_gradient_prediction = False

    def __init__(self, table):
        self.table = table
        self.model = InnerModel(self)

    def updateModel(self, X_all, Y_all, X_new, Y_new):
        pass

    def predict(self, X, with_noise=True):
        v = [self.table[tuple(np.round(x, 6))] for x in np.atleast_2d(X)]
        return np.array([[a] for a, _ in v]), np.array([[b] for _, b in v])

    def get_fmin(self):
        return -1.


def run_thompson(rec, d):
    dom, con, space, ref = domain(d)
    mem = [ref.encode(p) for p in ref.lattice(9)]
    keys = [tuple(np.round(x, 6)) for x in mem]
    orders = list(itertools.permutations(range(len(mem)))) if len(mem) <= 4 else [list(np.roll(range(len(mem)), s)[::e]) for s in range(len(mem)) for e in (1, -1)]
    for order in orders:
        table = {keys[j]: (float(i), 0.) for i, j in enumerate(order)}
        m = TablePosterior(table)
        for n in (1, 2, 3, 4):
            for dup in (False, True):
                acq = GPyOpt.acquisitions.AcquisitionEI(m, space, None)
                starts = []
                acq.acquisition_function = lambda x: np.atleast_2d(x)[:, :1] * 0.
                acq.acquisition_function_withGradients = lambda x: (np.atleast_2d(x)[:, :1] * 0., np.atleast_2d(x) * 0.)
                ev = ThompsonBatch(acq, n)
                dm = DuplicateManager(space, np.array([space.zip_inputs(np.array([mem[order[0]]]))[0]])) if dup else None

                def answer(x0, b, i):
                    starts.append(tuple(np.round(x0, 6)))
                    return None
                with few_anchors(40 * len(mem)), scipy_lbfgs_stub(answer):
                    try:
                        X = ev.compute_batch(duplicate_manager=dm)
                    except FullyExploredOptimizationDomainError:
                        rec.check(dup and len(mem) == 1, 'no batch')
                        continue
                got = [tuple(np.round(x, 6)) for x in X]
                # without noise the draws are the means: the best members first (the same again where duplicates are allowed)
                want = [keys[order[0]]] * n if not dup else [keys[j] for j in order[1:]][:n]
                rec.check(got == want, 'Thompson batch of a surrogate without uncertainty', got=got, expected=want, order=order, dup=dup)
                rec.check(not starts or starts[0] == want[0], 'the local optimization does not start at the minimizer of the draw', got=starts, expected=want)
                rec.state(d, order, n, dup)
                rec.execution()
    # the draws spread with the standard deviation: both outcomes of a tie that only the noise decides, on any member
    for j in range(len(mem)):
        for sign in (1., -1.):
            table = {k: (0., 0.) for k in keys}
            table[keys[j]] = (sign * 1e-3, 50.)
            firsts = set()
            acq = GPyOpt.acquisitions.AcquisitionEI(TablePosterior(table), space, None)
            acq.acquisition_function = lambda x: np.atleast_2d(x)[:, :1] * 0.
            acq.acquisition_function_withGradients = lambda x: (np.atleast_2d(x)[:, :1] * 0., np.atleast_2d(x) * 0.)
            dm = lambda: DuplicateManager(space, np.zeros((0, len(ref.vars))))
            for rep in range(24):
                ev = ThompsonBatch(acq, 1)
                with few_anchors(12 * len(mem)), scipy_lbfgs_stub(lambda x0, b, i: None):
                    firsts.add(tuple(np.round(ev.compute_batch(duplicate_manager=dm())[0], 6)) == keys[j])
            rec.check(firsts == {True, False}, 'the draw does not depend on the standard deviation of the surrogate', member=mem[j], always=firsts)
            rec.state(d, 'noise', j, sign)
