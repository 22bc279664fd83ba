"""C16: context variables are fixed exactly and the rest is projected faithfully.

Real code: ContextManager, OptimizationWithContext, AcquisitionOptimizer, suggest_next_locations. Explored: every domain of up to three
variables x every assignment of lattice values to every proper subset of the variables (in both orders) x points of the free space;
sequences of contexts through the optimizer and through the loop. Oracle: ref.RefDomain and a quadratic with distinct coefficients."""
import itertools
import numpy as np
import GPyOpt
from GPyOpt.optimization.acquisition_optimizer import ContextManager, AcquisitionOptimizer
from GPyOpt.optimization.optimizer import OptimizationWithContext
from .. import ref as R
from ..domains import domains
from ..env import StubModel, few_anchors, make_bo, scipy_lbfgs_stub, box_point, rows

PROPERTY = 'C16'
BOUNDS = {
    'quick': 'all domains of 1-2 variables out of 16 kinds and a seventh of those of 3 variables x every context (2-3 values per variable, all proper subsets, both orders of the dictionary) x 3 points and blocks of 2-3 rows of the free space, with and without gradients; sequences of 3 contexts out of 4 through the acquisition optimizer and the loop for 13 domains with and without constraints',
    'thorough': 'all domains of 3 variables; sequences of 4 contexts',
}
ASSUMPTIONS = ['bandit variables are not fixed by contexts']


def cases(tier):
    out = {}
    for i, (n, d) in enumerate(domains(3)):
        if len(n) < 3 or tier == 'thorough' or i % 7 == 0:
            out.setdefault(n[:2], []).append((n, d))
    res = [('project/' + k, ('project', v)) for k, v in sorted(out.items())]
    for n, d, c in R.spaces():
        if n[0] != 'b':
            res.append(('loop/' + n, ('loop', n, d, c, tier)))
    return res


def run(params, rec):
    globals()['run_' + params[0]](rec, *params[1:])
    rec.outcome(params[0])


class Quadratic(object):
    def __init__(self, n):
        self.n = n
        self.seen = []
        self.w = np.arange(1., n + 1) * np.array([1, -1] * n)[:n]
        self.c = np.linspace(.2, 1.7, n)

    def f(self, X):
        X = np.atleast_2d(X)
        assert X.shape[1] == self.n, 'evaluated at %s instead of %d coordinates' % (X.shape, self.n)
        self.seen += rows(X)
        return (self.w * X + self.c * X ** 2).sum(1)[:, None]

    def f_df(self, X):
        X = np.atleast_2d(X)
        return self.f(X), self.w + 2 * self.c * X


class Projection(object):
    """the reference: full encoded vectors from free ones"""
    def __init__(self, ref, context):
        cols = ref.cols()
        self.fixed = {}
        for v in ref.vars:
            if v.name in context:
                for i, x in zip(cols[v.name][1], v.encode([context[v.name]])):
                    self.fixed[i] = x
        self.free = [i for i in range(ref.nmodel) if i not in self.fixed]
        self.bounds = [tuple(map(float, ref.bounds()[i])) for i in self.free]
        self.n = ref.nmodel

    def full(self, X):
        X = np.atleast_2d(X)
        out = np.zeros((len(X), self.n))
        out[:, self.free] = X
        for i, x in self.fixed.items():
            out[:, i] = x
        return out


def context_list(ref, n=2):
    for r in range(len(ref.vars)):
        for sub in itertools.combinations(ref.vars, r):
            vals = [[p[0] for p in v.lattice(n)] for v in sub]
            if len(ref.vars) > 2:
                vals = [[v[0], v[-1]] if i == 0 else [v[-1]] for i, v in enumerate(vals)]
            for val in itertools.product(*vals):
                items = list(zip([v.name for v in sub], val))
                yield dict(items)
                if r > 1:
                    yield dict(items[::-1])


def free_points(proj):
    b = np.array(proj.bounds)
    t = np.linspace(.15, .85, len(b))
    return np.array([b[:, 0] + (b[:, 1] - b[:, 0]) * u for u in (t, t[::-1], (t * 3.7) % 1)])


def run_project(rec, doms):
    for name, dom in doms:
        ref = R.RefDomain(dom)
        sp = GPyOpt.Design_space(dom)
        bounds = list(sp.get_bounds())
        for context in context_list(ref):
            given = dict(context)
            proj = Projection(ref, context)
            cm = ContextManager(sp, context)
            det = dict(domain=name, context=given)
            rec.check(context == given and list(context) == list(given), 'the context was modified', **det)
            rec.same(np.array(cm.noncontext_bounds, float), np.array(proj.bounds), 'bounds of the free variables', **det)
            P = free_points(proj)
            for x0 in (proj.full(P[0]), proj.full(P[2])):
                for grad in (True, False):
                    q = Quadratic(ref.nmodel)
                    prob = OptimizationWithContext(x0=x0, f=q.f, f_df=q.f_df if grad else None, context_manager=cm)
                    rec.same(np.ravel(prob.x0_nocontext), x0[0, proj.free], 'starting point of the free variables', **det)
                    for blk in ([0], [1], [2], [0, 1], [2, 1, 0]):
                        x = P[blk]
                        x_ = x.copy()
                        full = proj.full(x)
                        q.seen = []
                        v = prob.f_nocontext(x)
                        rec.same(np.array(q.seen), full, 'the function is not evaluated at the expanded points', **det)
                        rec.same(np.ravel(v), np.ravel(q.f(full)), 'value of the restricted function', **det)
                        if len(blk) == 1:
                            rec.same(np.ravel(prob.f_nocontext(x[0])), np.ravel(q.f(full)), 'value of the restricted function at a vector', **det)
                        if grad:
                            v, g = prob.f_df_nocontext(x)
                            rec.same(np.ravel(v), np.ravel(q.f(full)), 'value next to the restricted gradient', **det)
                            rec.same(np.asarray(g), q.f_df(full)[1][:, proj.free], 'restricted gradient', **det)
                            rec.same(np.asarray(prob.df_nocontext(x)), q.f_df(full)[1][:, proj.free], 'restricted gradient alone', **det)
                        rec.check(np.array_equal(x, x_), 'the point was modified', **det)
                        rec.state(name, sorted(given.items()), grad, full)
                        rec.trans()
            rec.check(list(sp.get_bounds()) == bounds, 'the space changed', **det)
        rec.execution()


def run_loop(rec, name, dom, con, tier):
    """sequences of contexts: the local optimizer sees the problem restricted to the current one"""
    ref = R.RefDomain(dom, con)
    ctx = [{}] + [c for c in R.contexts(ref, 2) if c and ref.volume(c) > .1]
    ctx = ctx[:1] + [ctx[int(i)] for i in sorted(set(np.linspace(1, len(ctx) - 1, 3).astype(int)))] if len(ctx) > 1 else ctx
    for seq in itertools.product(range(len(ctx)), repeat=4 if tier == 'thorough' else 3):
        sp = GPyOpt.Design_space(dom, con)
        target = [.4] * ref.nmodel
        model = StubModel(target=target)
        calls = []
        X = np.array(ref.lattice(3)[:3])
        obs = []

        def answer(x0, bounds, n):
            obs.append((np.array(x0), np.array(bounds)))
            return box_point(.35)(x0, bounds, n)
        with few_anchors(), scipy_lbfgs_stub(answer):
            bo = make_bo(None, dom, con, model, X=X, Y=X.sum(1)[:, None], acquisition_type='LCB')
            opt = AcquisitionOptimizer(sp, 'lbfgs')
            for c in seq:
                context = ctx[c]
                proj = Projection(ref, context)
                det = dict(context=context, sequence=seq)
                for through in ('optimizer', 'loop'):
                    del obs[:]
                    q = Quadratic(ref.nmodel)
                    if through == 'loop':
                        S = bo.suggest_next_locations(context=context or None)
                        enc = np.array([ref.encode(r) for r in rows(S)])
                    else:
                        opt.context_manager = ContextManager(sp, context or None)
                        x, fx = opt.optimize(f=q.f, f_df=q.f_df)
                        rec.same(np.ravel(fx), np.ravel(q.f(x)), 'value of the optimum', **det)
                        enc = np.asarray(x)
                        seen = np.array(q.seen)
                        for i, v in proj.fixed.items():
                            rec.check(np.all(seen[:, i] == v), 'the function is evaluated away from the context', got=sorted(set(seen[:, i]))[:5], expected=v, **det)
                    for x0, b in obs:
                        rec.same(b, np.array(proj.bounds), 'bounds of the local optimizer', through=through, **det)
                        rec.check(x0.size == len(proj.free), 'starting point of the local optimizer', got=x0.size, expected=len(proj.free), **det)
                    rec.check(len(obs) > 0, 'the acquisition is not optimized', **det)
                    for i, v in proj.fixed.items():
                        rec.check(np.all(enc[:, i] == v), 'the context is not in the result', through=through, got=enc[:, i], expected=v, **det)
                    rec.state(name, seq, c, through)
                    rec.trans()
        rec.execution()
