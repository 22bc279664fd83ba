"""C17: the acquisition optimizer returns the best point it found, with its true value.

Real code: OptLbfgs, OptCma, OptDirect, apply_optimizer, AcquisitionOptimizer. Explored: kinds of functions and gradients, ways in which the
local search ends (bounds, abnormal end), minima inside / on / outside of the box; for the whole optimizer: every end point of every
local search over domains, constraints, contexts and candidates logic."""
import itertools
import sys
import types
import numpy as np
import GPyOpt
from GPyOpt.optimization.acquisition_optimizer import AcquisitionOptimizer, ContextManager
from GPyOpt.optimization.optimizer import OptLbfgs, OptCma, OptDirect, apply_optimizer, choose_optimizer
from .. import ref as R
from ..env import StubModel, few_anchors, patched, scipy_lbfgs_stub, box_point, rows

PROPERTY = 'C17'
BOUNDS = {
    'quick': 'L-BFGS / CMA wrappers: 1-3 dimensions x minima on a lattice inside, on and outside of the box x (value; value and gradient apart; together) x 3 shapes of values x starting points; 7 reported ends of the search x 2 end points; whole optimizer: all domains without / with constraints x 3 contexts x 2 candidates logics x end points of every local search (5 alternatives each), at most 2 departures; real L-BFGS on continuous domains with lattice of minima',
    'thorough': 'at most 3 departures',
}
ASSUMPTIONS = ['DIRECT is a stand-in (the library is not installed)']


def cases(tier):
    out = [('lbfgs/%d' % d, ('lbfgs', d)) for d in (1, 2, 3)] + [('ends/%d' % d, ('ends', d)) for d in (1, 2)]
    out += [('cma/%d' % d, ('cma', d)) for d in (1, 2, 3)] + [('direct', ('direct',))]
    for n, d, c in R.spaces():
        out.append(('apply/' + n, ('apply', n, d, c)))
        out.append(('search/' + n, ('search', n, d, c, tier)))
    for d in (1, 2):
        out.append(('real/%d' % d, ('real', d)))
    return out


def run(params, rec):
    globals()['run_' + params[0]](rec, *params[1:])
    rec.outcome(params[0])


SHAPES = {'scalar': lambda v: float(v), 'vector': lambda v: np.array([v]), 'matrix': lambda v: np.array([[v]])}


def bowl(c, shape):
    w = np.arange(1., len(c) + 1)
    f = lambda x: SHAPES[shape](float((w * (np.ravel(x) - c) ** 2).sum()) - 3.)
    df = lambda x: np.array([2 * w * (np.ravel(x) - c)])
    return f, df, (lambda x: (f(x), df(x)))


def minima(d):
    b = [(-1., 2.), (0., 1.), (-3., -2.)][:d]
    return b, [np.array(c) for c in itertools.product(*[(l - .7, l, l + .3 * (h - l), h, h + 1.) for l, h in b])][::{1: 1, 2: 1, 3: 4}[d]]


def run_lbfgs(rec, d):
    b, cs = minima(d)
    for c in cs:
        best = np.clip(c, [l for l, _ in b], [h for _, h in b])
        for shape in SHAPES:
            f, df, f_df = bowl(c, shape)
            for t in (.5, .1, 0., 1.):
                x0 = np.array([l + (h - l) * t for l, h in b])
                for kind, kw in (('value', {}), ('gradient', {'df': df}), ('together', {'f_df': f_df}), ('both', {'df': df, 'f_df': f_df})):
                    x, fx = OptLbfgs(b).optimize(x0.copy(), f=f, **kw)
                    det = dict(kind=kind, shape=shape, start=x0, minimum=c)
                    rec.check(np.shape(x) == (1, d), 'shape of the result', got=np.shape(x), **det)
                    rec.check(np.size(fx) == 1, 'shape of the value', got=np.shape(fx), **det)
                    rec.check(all(l - 1e-12 <= v <= h + 1e-12 for v, (l, h) in zip(x[0], b)), 'result outside of the bounds', got=x, **det)
                    rec.close(np.ravel(fx), np.ravel(f(x)), 'the value is not that of the function at the result', tol=1e-12, **det)
                    rec.close(np.ravel(x), best, 'the minimum was not found', tol=1e-3, **det)
                    rec.state(d, c, shape, t, kind)
                    rec.trans()
    rec.execution()


def run_ends(rec, d):
    """whatever scipy reports"""
    import scipy.optimize
    b, cs = minima(d)
    abnormal = [b'ABNORMAL_TERMINATION_IN_LNSRCH', 'ABNORMAL_TERMINATION_IN_LNSRCH']
    normal = ['CONVERGENCE: REL_REDUCTION_OF_F_<=_FACTR*EPSMCH', b'CONVERGENCE: NORM_OF_PROJECTED_GRADIENT_<=_PGTOL', 'STOP: TOTAL NO. of ITERATIONS REACHED LIMIT', b'STOP: TOTAL NO. of f AND g EVALUATIONS EXCEEDS LIMIT', '']
    for c in cs[::2]:
        f, df, f_df = bowl(c, 'vector')
        for task in abnormal + normal:
            for end in ('corner', 'nan') if task in abnormal else ('corner', 'middle'):
                for kw in ({}, {'df': df}, {'f_df': f_df}):
                    for maxiter in (1000, 7):
                        seen = {}

                        def fake(func, x0, fprime=None, args=(), approx_grad=0, bounds=None, maxiter=15000, **k):
                            v = func(np.array(x0, float).ravel())
                            if approx_grad:
                                rec.check(np.size(v) == 1, 'only the value when the gradient is approximated', got=v)
                            elif fprime is None:
                                rec.close(np.ravel(v[0]), np.ravel(f(x0)), 'value given to the search', tol=1e-12)
                                rec.close(np.ravel(v[1]), np.ravel(df(x0)), 'gradient given to the search', tol=1e-12)
                                rec.check(np.ndim(v[1]) == 1 or np.shape(v[1])[0] != 1 or d == 1, 'shape of the gradient given to the search', got=np.shape(v[1]))
                            seen.update(bounds=bounds, maxiter=maxiter, approx=bool(approx_grad))
                            x = np.full(d, np.nan) if end == 'nan' else np.array([h if end == 'corner' else .5 * (l + h) for l, h in b])
                            return x, (np.nan if end == 'nan' else float(np.ravel(f(x))[0])), {'task': task, 'warnflag': 2 if task in abnormal else 0, 'funcalls': 1, 'nit': 1, 'grad': np.zeros(d)}
                        x0 = np.array([l + .2 * (h - l) for l, h in b])
                        with patched(scipy.optimize, 'fmin_l_bfgs_b', fake):
                            x, fx = (OptLbfgs(b, maxiter=maxiter) if maxiter != 1000 else OptLbfgs(b)).optimize(x0, f=f, **kw)
                        det = dict(task=task, end=end, kinds=sorted(kw))
                        want = x0 if task in abnormal else np.array([h if end == 'corner' else .5 * (l + h) for l, h in b])
                        rec.close(np.ravel(x), want, 'result of the search', tol=1e-12, **det)
                        rec.close(np.ravel(fx), np.ravel(f(want)), 'value of the search', tol=1e-12, **det)
                        rec.check(np.shape(x) == (1, d), 'shape of the result', got=np.shape(x), **det)
                        rec.check([tuple(map(float, q)) for q in seen['bounds']] == b and seen['maxiter'] == maxiter and seen['approx'] == (not kw), 'options of the search', got=seen, **det)
                        rec.state(d, c, task, end, sorted(kw), maxiter)
                        rec.trans()
    rec.execution()


def run_cma(rec, d):
    b, cs = minima(d)
    if d == 1:
        try:
            OptCma(b).optimize(np.array([.3]), f=lambda x: float(x))
        except IndexError:
            rec.outcome('no CMA in one dimension')
        else:
            rec.fail('CMA in one dimension is documented to be rejected')
        rec.execution()
        return
    import cma
    for c in cs[::3 if d == 2 else 6]:
        best = np.clip(c, [l for l, _ in b], [h for _, h in b])
        F = lambda X: np.array([float((np.arange(1., d + 1) * (r - c) ** 2).sum()) for r in np.atleast_2d(X)])  # one value per row, as the acquisition optimizer hands over
        np.random.seed(3)
        x0 = np.array([.5 * (l + h) for l, h in b])
        out = []
        f = lambda X: (out.extend(rows(X)), F(X))[1]
        x, fx = OptCma(b).optimize(x0, f=f)
        rec.check(np.shape(x) == (1, d) and all(l - 1e-9 <= v <= h + 1e-9 for v, (l, h) in zip(x[0], b)), 'result of CMA outside of the bounds', got=x, minimum=c)
        rec.close(np.ravel(fx), np.ravel(F(x)), 'value of CMA', tol=1e-12)
        rec.close(np.ravel(x), best, 'the minimum was not found by CMA', tol=5e-2, minimum=c)
        rec.check(all(l - 1e-9 <= v <= h + 1e-9 for r in out for v, (l, h) in zip(r, b)), 'CMA evaluates outside of the bounds')
        rec.state(d, c)
        rec.trans(len(out))
    rec.execution()


def run_direct(rec):
    b, cs = minima(2)
    mod = types.ModuleType('DIRECT')
    old = sys.modules.get('DIRECT')
    try:
        for c in cs:
            for maxiter in (1000, 9):
                seen = {}

                def solve(g, l, u, maxT=None, **kw):
                    x = np.clip(c, l, u)
                    v = g(np.array(x), None)
                    seen.update(l=np.array(l, float), u=np.array(u, float), maxT=maxT, v=v)
                    return x, v[0], 0
                mod.solve = solve
                sys.modules['DIRECT'] = mod
                F = lambda X: ((np.atleast_2d(X) - c) ** 2).sum(1)[:, None] + 1
                x, fx = (OptDirect(b, maxiter=maxiter) if maxiter != 1000 else OptDirect(b)).optimize(np.array([.5, .5]), f=F)
                best = np.clip(c, [l for l, _ in b], [h for _, h in b])
                rec.same(np.asarray(x), np.array([best]), 'result of DIRECT')
                rec.close(np.ravel(fx), np.ravel(F(best)), 'value of DIRECT', tol=1e-12)
                rec.same(np.array([seen['l'], seen['u']]).T, np.array(b), 'bounds given to DIRECT')
                rec.check(seen['maxT'] == maxiter and len(seen['v']) == 2 and float(np.ravel(seen['v'][0])[0]) == float(np.ravel(F(best))[0]), 'limit and function given to DIRECT', got=seen)
                rec.state(c, maxiter)
                rec.trans()
    finally:
        if old is None:
            sys.modules.pop('DIRECT', None)
        else:
            sys.modules['DIRECT'] = old
    rec.execution()


class End(object):
    """a local optimizer that ends at a given vector"""
    def __init__(self, x):
        self.x = np.atleast_2d(x)

    def optimize(self, x0, f=None, df=None, f_df=None):
        return self.x, f(self.x)


def fractions(ref, f):
    return np.array([l + (h - l) * f for l, h in ref.bounds()], float)


def run_apply(rec, name, dom, con):
    ref = R.RefDomain(dom, con)
    sp = GPyOpt.Design_space(dom, con)
    w = np.arange(1., ref.nmodel + 1)
    F = lambda X: ((np.atleast_2d(X) - .37) ** 2 * w).sum(1)[:, None]
    pts = ref.lattice(3)
    contexts = [{}] + [c for c in R.contexts(ref, 2, max_fixed=1) if c and ref.volume(c) > .1][::2]
    for p in pts[::max(1, len(pts) // 5)]:
        for context in contexts:
            if any(p[ref.cols()[k][0][0]] != v for k, v in context.items()):
                continue
            cols = ref.cols()
            fixed = [i for k in context for i in cols[k][1]]
            free = [i for i in range(ref.nmodel) if i not in fixed]
            x0 = np.array([ref.encode(p)], float)
            for t in (0., 1., .17, .43, .61, .88):
                end = fractions(ref, t)
                end = np.where(np.isin(np.arange(ref.nmodel), fixed), x0[0], end)
                for e in (end, np.where(np.arange(ref.nmodel) % 2, x0[0], end)):
                    for df in (None, lambda X: (F(X), 2 * w * (np.atleast_2d(X) - .37))):
                        cm = ContextManager(sp, context) if context else None
                        a, c = x0.copy(), np.array(e)
                        x, fx = apply_optimizer(End(c[free] if context else c), a, f=F, f_df=df, duplicate_manager=None, context_manager=cm, space=sp)
                        det = dict(domain=name, start=p, end=e, context=context)
                        near = [r for r in ref.nearest(e)]
                        want = [ref.encode(r) for r in near if ref.feasible(r)] + ([list(x0[0])] if any(not ref.feasible(r) for r in near) else [])
                        rec.check(np.shape(x) == (1, ref.nmodel) and any(np.allclose(x[0], q, atol=1e-12) for q in want), 'result of the local search', got=x, expected=want[:3], **det)
                        rec.close(np.ravel(fx), np.ravel(F(x)), 'the value is not that of the result', tol=1e-12, **det)
                        rec.check(np.array_equal(a, x0) and np.array_equal(c, e), 'the arguments were modified', **det)
                        rec.state(name, p, e, sorted(context.items()), df is None)
                        rec.trans()
    rec.execution()


def run_search(rec, name, dom, con, tier):
    ref = R.RefDomain(dom, con)
    ctx = [{}] + [c for c in R.contexts(ref, 2, max_fixed=1) if c and ref.volume(c) > .1]
    ctx = [ctx[0], ctx[-1], ctx[len(ctx) // 2]] if len(ctx) > 2 else ctx[:1]

    def body(ch):
        context = ch.pick(ctx, 'context')
        logic = ch.pick(['max_objective', 'thompson_sampling'] if con is None else ['max_objective'], 'candidates')
        grad = ch.pick([True, False], 'gradient')
        centre = ch.pick([.37, 0., 1.], 'minimum')
        sp = GPyOpt.Design_space(dom, con)
        w = np.arange(1., ref.nmodel + 1)
        goal = fractions(ref, centre)
        F = lambda X: ((np.atleast_2d(X) - goal) ** 2 * w).sum(1)[:, None] - 50.
        seen, starts, ends = [], [], []
        cols = ref.cols()
        fixed = {i: v for k, val in context.items() for i, v in zip(cols[k][1], [q for q in next(u for u in ref.vars if u.name == k).encode([val])])}
        free = [i for i in range(ref.nmodel) if i not in fixed]

        def f(X):
            if not starts:
                seen.extend(rows(X))
            return F(X)

        class Model(StubModel):
            def predict(self, X, with_noise=True):
                if not starts:
                    seen.extend(rows(X))
                return F(X), np.full((len(np.atleast_2d(X)), 1), 1e-13)

        def answer(x0, bounds, n):
            full = np.zeros(ref.nmodel)
            full[free] = x0
            for i, v in fixed.items():
                full[i] = v
            starts.append(full)
            t = ch.pick([None, .43, 0., 1., .88], 'end %d' % n)
            e = full.copy()
            if t is not None:
                e[free] = fractions(ref, t)[free]
            ends.append(e)
            return e[free]
        opt = AcquisitionOptimizer(sp, 'lbfgs', model=Model(), type_anchor_points_logic=logic)
        opt.context_manager = ContextManager(sp, context or None)
        with few_anchors(), scipy_lbfgs_stub(answer):
            x, fx = opt.optimize(f=f, f_df=(lambda X: (f(X), 2 * w * (np.atleast_2d(X) - goal))) if grad else None)
        det = dict(context=context, candidates=logic, minimum=centre)
        x = np.asarray(x)
        rec.check(x.shape == (1, ref.nmodel), 'shape of the result', got=x.shape, **det)
        rec.close(np.ravel(fx), np.ravel(F(x)), 'the value is not that of the acquisition at the result', tol=1e-9, **det)
        back = sp.zip_inputs(x)
        rec.check(ref.valid(rows(back)[0]) and np.allclose(ref.encode(rows(back)[0]), x[0]), 'the result is not a feasible member', got=x, **det)
        # the searches start from the best candidates
        rec.check(len(starts) > 0, 'no local search', **det)
        cand = sorted(float(F(np.array([s]))[0, 0]) for s in set(seen))
        st = sorted(set(tuple(np.round(s, 12)) for s in starts))
        stv = sorted(float(F(np.array([s]))[0, 0]) for s in st)
        rec.check(len(cand) >= len(stv) and np.allclose(stv, cand[:len(stv)], atol=1e-6), 'the searches do not start from the best candidates', got=stv, expected=cand[:6], **det)
        # the best of what the searches found
        vals = []
        for s, e in zip(starts, ends):
            near = list(ref.nearest(e))
            vs = [float(F(np.array([ref.encode(r)]))[0, 0]) if ref.feasible(r) else float(F(s[None])[0, 0]) for r in near]
            vals.append((min(vs), max(vs)))
        lo, hi = min(v[0] for v in vals), min(v[1] for v in vals)
        rec.check(lo - 1e-9 <= float(np.ravel(fx)[0]) <= hi + 1e-9, 'the result is not the best of the points found', got=fx, expected=(lo, hi), **det)
        rec.state(name, det, ends)
        rec.outcome(len(starts))
    rec.explore(body, deviations=3 if tier == 'thorough' else 2)


def run_real(rec, d):
    """real L-BFGS over continuous domains: not worse than any candidate"""
    dom = [R.C('v%d' % i, (-1., 2.)) for i in range(d)]
    sp = GPyOpt.Design_space(dom)
    for c in itertools.product((-1.5, -1., .3, 1.1, 2.), repeat=d):
        c = np.array(c)
        for grad in (True, False):
            for wave in (0., 1.):
                F = lambda X: ((np.atleast_2d(X) - c) ** 2).sum(1)[:, None] + wave * np.sin(6 * np.atleast_2d(X)).sum(1)[:, None]
                D = lambda X: (F(X), 2 * (np.atleast_2d(X) - c) + wave * 6 * np.cos(6 * np.atleast_2d(X)))
                seen = []
                f = lambda X: (seen.extend(rows(X)), F(X))[1]
                with few_anchors():
                    x, fx = AcquisitionOptimizer(sp, 'lbfgs').optimize(f=f, f_df=D if grad else None)
                best = F(np.array([s for s in seen if all(-1 <= v <= 2 for v in s)])).min()
                rec.check(float(np.ravel(fx)[0]) <= best + 1e-6, 'the result is worse than a candidate', got=fx, expected=best, minimum=c)
                rec.close(np.ravel(fx), np.ravel(F(x)), 'value of the result', tol=1e-9)
                G = np.array(list(itertools.product(np.linspace(-1, 2, 121 if d == 1 else 61), repeat=d)))
                rec.check(float(np.ravel(fx)[0]) <= F(G).min() + (.02 if not wave else .5), 'the result is far from the minimum', got=fx, expected=F(G).min(), minimum=c)
                rec.state(d, c, grad, wave)
                rec.trans()
    rec.execution()
